"""C21: histories of run-time meters over a clock of the specification's, and the helpers at generated arguments."""
from common import *
import time
import itertools
from fractions import Fraction


class Clock:
    now = 1700000000 * 4


def seconds():
    return Clock.now / 4


CLOCKS = {'time': seconds, 'monotonic': seconds, 'perf_counter': seconds, 'process_time': seconds}
for name, f in list(CLOCKS.items()):
    setattr(time, name, f)
    setattr(time, name + '_ns', lambda: Clock.now * 250000000)
out, props, tests = args()
silence()
import utils
from mpmath import mpf, mp
rng = random.Random(SEED)
rec = Recorder(out)
METHODS = {'start': 'start_measure', 'measure': 'measure_time', 'total': 'get_total_runtime', 'last': 'get_last_measured_time', 'is_started': 'is_started'}


def quarters(v):
    """a duration in quarters of a second; -9 for what is none"""
    try:
        q = Fraction(v) * 4
        return int(q) if q.denominator == 1 and abs(q) < 10 ** 9 else -9
    except Exception:
        return -9


def history(ident, log, same):
    rec.case(ident)
    base = Clock.now
    rec.log('start', meters=3)
    ms = {k: utils.MeasureRuntime() for k in (1, 2, 3)}
    for e in log:
        Clock.now += e['tick'] if same else rng.choice([0, 1, 2, 3, 7, 40, 4 * 3600, 4 * 86400])
        v, exc = call(lambda: getattr(ms[e['m']], METHODS[e['op']])())
        ans = -1 if e['op'] == 'start' or exc else int(v) if e['op'] == 'is_started' and v in (True, False) else quarters(v)
        rec.log('meter', m=e['m'], call=e['op'], now=Clock.now - base, ans=ans, exc=exc)


def text(g):
    try:
        return str(int(g)) if g == int(g) else '?'
    except Exception:
        return '?'


def gcd(a, b, typ):
    g, exc = call(lambda: utils.MathOperations.gcd(typ(a), typ(b)))
    t = text(g) if not exc else '0'
    rec.log('gcd', a=str(a), b=str(b), g=t if t != '?' else '0', exc=exc or ('' if t != '?' else 'no integer'))


def subst(p, x):
    v, exc = call(lambda: utils.MathOperations.subs_in_polynom(p, x))
    frac = isinstance(x, Fraction)
    exact = not isinstance(x, mpf)
    if frac:
        ok = not exc and isinstance(v, (Fraction, int))
        xs = {'t': 'f', 's': str(x.numerator), 'e': 0}
        vs = {'t': 'f', 's': str(v.numerator), 'e': 0} if ok else NONUM
        rec.log('subst', p=strip(p), x=xs, xd=str(x.denominator), v=vs, vd=str(v.denominator) if ok else '1', frac=True, exact=True, dps=mp.dps, exc=exc)
    else:
        rec.log('subst', p=strip(p), x=num(x), xd='1', v=num(v) if not exc else NONUM, vd='1', frac=False, exact=exact, dps=mp.dps, exc=exc)


def strip(p):
    return [str(c) for c in p]


def integer():
    k = rng.randint(0, 5)
    n = rng.randint(0, 12) if k < 3 else rng.randint(0, 10 ** 6) if k < 5 else rng.randint(0, 10 ** 60)
    return rng.choice([-1, 1]) * n


def group(items, n, fill, how):
    src = {'list': lambda: list(items), 'tuple': lambda: tuple(items), 'iter': lambda: iter(items), 'gen': lambda: (x for x in items)}[how]
    kw = {} if fill is None else {'fillvalue': fill}
    v, exc = call(lambda: [list(g) for g in itertools.islice(utils.grouper(src(), n, **kw), 4 * len(items) + 8)])
    enc = lambda x: str(x)
    rec.log('group', items=[enc(x) for x in items], n=n, fill=enc(fill), groups=[[enc(x) for x in g] for g in v] if not exc else [], exc=exc)


S = 15 if THOROUGH else 1
for j, path in enumerate(tests):
    logs = load_tests(path)
    if len(logs) > 6000 * S:
        logs = rng.sample(logs, 6000 * S)
    for k, t in enumerate(logs):
        history('meter-%d-%d' % (j, k), t, k % 2 == 0)
N = 14
for a in range(-N, N + 1):
    rec.case('gcd-%d' % a)
    rec.log('start', meters=1)
    for b in range(-N, N + 1):
        gcd(a, b, int)
        if (a + b) % 5 == 0:
            gcd(a, b, mpf)
set_prec(50)
for k in range(60 * S):
    rec.case('gcd-random-%d' % k)
    rec.log('start', meters=1)
    for _ in range(10):
        c = rng.choice([1, integer(), integer()])
        a, b = integer() * c, integer() * c
        gcd(a, b, int)
        if abs(a) < 10 ** 40 and abs(b) < 10 ** 40:
            gcd(a, b, mpf)
for k in range(150 * S):
    rec.case('subst-%d' % k)
    rec.log('start', meters=1)
    for _ in range(4):
        d = rng.choice([15, 30, 50, 100])
        set_prec(d)
        p = [rng.choice([0, integer(), integer(), integer()]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8]))]
        subst(p, integer())
        subst(p, Fraction(rng.randint(-50, 50), rng.randint(1, 30)))
        x = rng.choice([mpf(0), mpf(1), mpf(-1), +mp.pi, -mp.e, +mp.phi, mpf(10) ** rng.randint(-30, 30) / 7, -mpf(rng.randint(1, 10 ** 9)) / 10 ** 6])
        subst(p, x)
for k in range(120 * S):
    rec.case('group-%d' % k)
    rec.log('start', meters=1)
    for _ in range(5):
        items = [rng.choice([0, 1, 2, 'x', '', False, 7.5, 'None']) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 12, 13]))]
        group(items, rng.choice([1, 1, 2, 3, 4, 5, 20]), rng.choice([None, None, 'x', 0]), rng.choice(['list', 'tuple', 'iter', 'gen']))
rec.close()
