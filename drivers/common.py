"""What every driver shares: importing /repo's modules, running one call of the real code under observation
(outcome, exception, hang) and recording it as one line of a trace."""
import io
import json
import os
import random
import signal
import sys
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
try:
    sys.set_int_max_str_digits(0)
except AttributeError:
    pass

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = TIER == 'thorough'


def silence():
    """The code under test prints a lot: keep it off the driver's streams."""
    err = os.fdopen(os.dup(2), 'w')

    def hook(t, v, tb):                     # what ends the driver is still told
        traceback.print_exception(t, v, tb, file=err)
        err.flush()
    sys.excepthook = hook
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


def num(x):
    """A number of the implementation as an exact record (nothing is rounded on the way to the specification)."""
    try:
        if isinstance(x, bool):
            return {'t': 'x', 's': '0', 'e': 0}
        if isinstance(x, int):
            return {'t': 'f', 's': str(x), 'e': 0}
        if isinstance(x, float):
            if x != x:
                return {'t': 'nan', 's': '0', 'e': 0}
            if x in (float('inf'), float('-inf')):
                return {'t': 'inf' if x > 0 else '-inf', 's': '0', 'e': 0}
            n, d = x.as_integer_ratio()
            return {'t': 'f', 's': str(n), 'e': -(d.bit_length() - 1)}
        if hasattr(x, '_mpf_'):
            sign, man, exp, bc = x._mpf_
            man, exp = int(man), int(exp)
            if man == 0 and exp != 0:
                return {'t': {-123: 'nan', -456: 'inf', -789: '-inf'}.get(exp, 'x'), 's': '0', 'e': 0}
            return {'t': 'f', 's': str(-man if sign else man), 'e': exp}
        if hasattr(x, 'item'):
            return num(x.item())
    except Exception:
        pass
    return {'t': 'x', 's': '0', 'e': 0}


NONUM = {'t': 'none', 's': '0', 'e': 0}


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def polys(p):
    """[[c0, c1, ...], ...] as nested lists of decimal strings, or a marker for anything else."""
    try:
        out = []
        for q in p:
            row = []
            for c in q:
                if is_int(c):
                    row.append(str(c))
                elif hasattr(c, 'item') and is_int(c.item()):
                    row.append(str(c.item()))
                elif c == int(c):
                    row.append(str(int(c)))
                else:
                    row.append('?')
            out.append(row)
        return out
    except Exception:
        return [['?']]


class Recorder:
    """Writes the trace: one JSON object per line; 'case' groups the lines of one history."""

    def __init__(self, path):
        self.f = open(path, 'w')
        self.case_id = ''
        self.lines = 0
        self.props = []

    def case(self, case_id, props=()):
        self.case_id = case_id
        self.props = list(props)

    def log(self, op, **fields):
        fields['op'] = op
        fields['case'] = self.case_id
        self.f.write(json.dumps(fields) + '\n')
        self.lines += 1

    def close(self):
        self.f.close()


def call(fn, *args, limit=60, **kwargs):
    """(value, '') or (None, the exception's name); 'Hang' when the call does not return within the limit."""
    # the limit is on the processor's time, so that a busy machine changes nothing; the clock ends only what sleeps
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(6 * limit)
    try:
        return fn(*args, **kwargs), ''
    except Hang:
        return None, 'Hang'
    except KeyboardInterrupt:
        return None, 'KeyboardInterrupt'
    except SystemExit:
        return None, 'SystemExit'
    except BaseException as e:
        if os.environ.get('VERIF_DEBUG'):
            with open('/tmp/verif_debug.log', 'a') as f:
                traceback.print_exc(file=f)
        return None, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


def set_prec(dps):
    import mpmath
    mpmath.mp.dps = dps


def load_tests(path):
    """The behaviours TLC generated from the specification (one JSON value per line)."""
    out = []
    if path and os.path.exists(path):
        with open(path) as f:
            for line in f:
                out.append(json.loads(line))
    return out


def args():
    """TRACE PROPS [TESTS...]"""
    return sys.argv[1], sys.argv[2].split(','), sys.argv[3:]


def mpf_of(text):
    from mpmath import mpf
    return mpf(text)
