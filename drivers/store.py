"""C15: table versions on a real directory: sequences of runs, overlapping runs and runs that fail, each in a process of
its own."""
from common import *
import hashlib
import resource
import shutil
import tempfile

out, props, tests = args()
silence()
import pickleshim
import dill
import main as main_module
import enum_params
import cont_fracs
import pylatex
pylatex.Document.generate_pdf = lambda self, f, **kw: self.generate_tex(f)
rng = random.Random(SEED)
rec = Recorder(out)

CONFIG = """[Setup]
const=pi
ab_polys_type=normal
ab_polys_special_params=None
print_surprising_nonexp_contfracs=False
gen_hashtable_only=%(only)s
a_coeffs_range=[[[%(lo)d, %(hi)d]]]
b_coeffs_range=[[[1, 2]]]
lhs_type=ulcd
lhs_params=[1, 1, 1, 1]
postproc_funcs_filter=["lambda x: x"]
i=0
hashtable_file_operation=%(op)s
hashtable_file=%(table)s
hashtable_num_of_iterations=20
hashtable_precision=10
first_filtering_num_of_iterations=20
first_filtering_precision=8
second_filtering_max_num_of_iterations=20
second_filtering_precision=8
third_filtering_max_num_of_iterations=20
third_filtering_precision=8
"""


def ids_of(mitm):
    """The runs whose fractions a table holds: run k enumerates the constants 2k and 2k+1."""
    s = []
    for k, v in mitm.dec_hashtable.items():
        if k != 'parameters':
            for (pa, pb), f in v:
                s.append(int(pa[0][0]))
    return sorted(s)


def die(how):
    if how == 'kill':
        os.kill(os.getpid(), signal.SIGKILL)
    if how == 'exit':
        os._exit(7)
    raise {'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'oserror': OSError}[how]('injected')


class Run:
    """main.main in a child process that stops at its gates and is told to go on or to fail."""

    def __init__(self, op, ident, table, faults=None):
        self.op = op
        with open('run%d.ini' % ident, 'w') as f:
            f.write(CONFIG % {'only': 'false' if op == 'use' else rng.choice(['true', 'auto']), 'lo': 2 * ident, 'hi': 2 * ident + 2,
                              'op': op, 'table': table})
        c2p, p2c = os.pipe(), os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, 100)
            signal.alarm(600)
            os.close(c2p[0])
            os.close(p2c[1])
            self.child('run%d.ini' % ident, os.fdopen(p2c[0], 'r'), os.fdopen(c2p[1], 'w'), faults or {})
        os.close(c2p[1])
        os.close(p2c[0])
        self.r, self.w = os.fdopen(c2p[0], 'r'), os.fdopen(p2c[1], 'w')
        self.loaded, self.over, self.ok, self.lines = [], False, False, 0
        self.wait()

    def child(self, ini, r, w, faults):
        state = {'gates': faults.get('gates', True)}

        def say(**kw):
            w.write(json.dumps(kw) + '\n')
            w.flush()

        def gate():
            if state['gates']:
                say(gate=1)
                how = r.readline().strip()
                if how != 'go':
                    die(how or 'exit')
        build, find, dump = enum_params.MITM.build_hashtable, enum_params.MITM.find_clicks, dill.dump
        ev = cont_fracs.eval_dec_contfrac_by_polys
        calls = [0]

        def my_build(mitm, *a, **k):
            say(loaded=ids_of(mitm))
            gate()
            return build(mitm, *a, **k)

        def my_find(mitm, *a, **k):
            say(loaded=ids_of(mitm))
            gate()
            raise SystemExit(0)

        def my_dump(obj, f, *a, **k):
            data = dill.dumps(obj, *a, **k)
            n = rng.choice([0, 1, len(data) // 2, len(data) - 1])
            f.write(data[:n])
            f.flush()
            gate()
            f.write(data[n:])

        def my_eval(*a, **k):
            calls[0] += 1
            if calls[0] == faults.get('eval'):
                die(faults['how'])
            return ev(*a, **k)
        enum_params.MITM.build_hashtable, enum_params.MITM.find_clicks = my_build, my_find
        cont_fracs.eval_dec_contfrac_by_polys = my_eval
        if state['gates'] or faults.get('dump'):
            dill.dump = my_dump
        if 'size' in faults:
            resource.setrlimit(resource.RLIMIT_FSIZE, (faults['size'], resource.RLIM_INFINITY))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN if faults['how'] != 'kill' else signal.SIG_DFL)
        n = [0]
        if 'line' in faults:
            path = os.path.join(REPO, 'main.py')

            def trace(frame, event, arg):
                if os.path.realpath(frame.f_code.co_filename) != os.path.realpath(path):
                    return None
                if event == 'line':
                    n[0] += 1
                    if n[0] == faults['line']:
                        sys.settrace(None)
                        die(faults['how'])
                return trace
            sys.settrace(trace)
        ok = True
        try:
            main_module.main(ini)
        except SystemExit:
            pass
        except BaseException as e:
            ok = False
        sys.settrace(None)
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            say(end=ok, lines=n[0])
        finally:
            os._exit(0)

    def wait(self):
        """Until the next gate or the end."""
        while True:
            line = self.r.readline()
            if not line:
                break
            m = json.loads(line)
            if 'loaded' in m:
                self.loaded = m['loaded']
            if 'gate' in m:
                return
            if 'end' in m:
                self.ok, self.lines = m['end'], m['lines']
                break
        self.over = True
        os.waitpid(self.pid, 0)
        self.r.close()
        self.w.close()

    def tell(self, how):
        if not self.over:
            self.w.write(how + '\n')
            self.w.flush()
            self.wait()


def digest(p):
    with open(p, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()[:12]


cache = {}


def content(path, dg):
    if dg not in cache:
        v, exc = call(lambda: ids_of(dill.load(open(path, 'rb'))))
        cache[dg] = v if exc == '' else [-1]
    return cache[dg]


def snap(where):
    """Every file beside the table, with what it holds."""
    fs = []
    for f in sorted(os.listdir(where)):
        p = os.path.join(where, f)
        if os.path.isfile(p) and not f.endswith('.ini'):
            dg = digest(p)
            fs.append([f, dg, content(p, dg) if f.endswith('.pkl') else []])
    return fs


masters = {}


def master(ident):
    """A table as a generate run of this identity stores it."""
    if ident not in masters:
        m = enum_params.MITM(postproc_funcs_filter=[0], hashtable_prec=10, num_of_iterations=20)
        m.build_hashtable([[[2 * ident, 2 * ident + 2]]], [[[1, 2]]])
        masters[ident] = dill.dumps(m)
    return masters[ident]


class World:
    def __init__(self, ident, base='T', sub='', versions=(), foreign=()):
        rec.case(ident)
        self.top = tempfile.mkdtemp(prefix='vstore')
        self.old = os.getcwd()
        os.chdir(self.top)
        self.base, self.sub = base, sub or '.'
        os.makedirs(self.sub, exist_ok=True)
        self.n = 100
        self.runs = {}
        for f in list(versions) + list(foreign):
            self.n += 1
            with open(os.path.join(self.sub, f), 'wb') as g:
                g.write(master(self.n) if rng.random() < 0.8 or f in versions else b'junk')
        rec.log('dir', base=base, files=snap(self.sub))

    def start(self, r, op, given=None, **faults):
        self.n += 1
        given = given or self.base + '.pkl'
        table = given if self.sub == '.' and rng.random() < 0.7 else os.path.join(self.sub, given)
        run = Run(op, self.n, table, faults)
        self.runs[r] = run
        rec.log('start', r=r, kind=op, given=given, id=self.n, files=snap(self.sub), loaded=run.loaded, over=run.over, ok=run.ok)
        return run

    def tell(self, r, how):
        run = self.runs.get(r)
        if run is None or run.over:
            return
        run.tell(how)
        rec.log('step', r=r, files=snap(self.sub), over=run.over, ok=run.ok, loaded=run.loaded)

    def finish(self, r):
        for _ in range(4):
            self.tell(r, 'go')

    def close(self):
        for r in list(self.runs):
            self.tell(r, 'exit')
        os.chdir(self.old)
        shutil.rmtree(self.top)


HOW = ['kill', 'exit', 'interrupt', 'memory', 'oserror']


def replay(ident, log):
    w = World(ident, versions=log[0]['files'], foreign=['T_v9.txt', 'T_vx.pkl', 'XT_v8.pkl', 'T_v7.pkl.bak', 'T_v2_old.pkl', 't_v6.pkl', 'T_part00_v9.pkl'])
    for e in log[1:]:
        if e['ev'] == 'start':
            w.start(e['r'], e['op'])
        elif e['ev'] == 'fail':
            w.tell(e['r'], rng.choice(HOW))
        elif e['ev'] == 'begin':
            w.tell(e['r'], 'go')
        else:
            w.finish(e['r'])
    w.close()


def foreign_names(base):
    c = [base + s for s in ('_v12.pkl.bak', '_v13.txt', '_vx.pkl', '_part00_v14.pkl', 'x_v15.pkl', '_v16_old.pkl', '_v.pkl', '_V18.pkl', '.v19.pkl',
                            '_v23.pklx', '_v2 4.pkl', '_v-25.pkl', '_v2.6.pkl', '_v27_v.pkl', '_v28.pkl~')]
    c += ['x' + base + '_v20.pkl', base.swapcase() + '_v21.pkl', base[:-1] + '_v22.pkl', 'a_' + base + '.pkl']
    return [f for f in rng.sample(c, rng.randint(2, 8)) if f[0] != '_' and f.lower() != f.swapcase().lower() + '!']


def history(i):
    """One run after the other; some of them fail."""
    base = rng.choice(['T', 'Table', 'tab', 'a.b', 'x(1)+', 'My_Table', 'T_v', 'part_vx'])
    vs = ['.pkl', '_v1.pkl', '_v2.pkl', '_v3.pkl', '_v9.pkl', '_v10.pkl', '_v11.pkl', '_v99.pkl', '_v100.pkl']
    w = World('history-%d' % i, base, rng.choice(['', '', 'Sub', 'a/B']), [base + v for v in rng.sample(vs, rng.choice([0, 1, 1, 2, 3]))], foreign_names(base))
    for _ in range(rng.randint(2, 5)):
        op = rng.choice(['generate', 'expand', 'expand', 'use'])
        given = base + rng.choice(['.pkl', '.pkl', '', '_v1.pkl', '_v5.pkl', '_v10.pkl'])
        r = rng.random()
        f = {'gates': False}
        if r < 0.2:
            f.update(how=rng.choice(HOW), line=rng.randint(1, 130))
        elif r < 0.35:
            f.update(how=rng.choice(['oserror', 'kill']), size=rng.choice([0, 1, 100, 500, 1000, 2000, 4000, 100000]))
        elif r < 0.45:
            f.update(how=rng.choice(HOW), eval=rng.choice([1, 2]))
        w.start(1, op, given, **f)
    w.close()


S = 8 if THOROUGH else 1
logs = [t for p in tests for t in load_tests(p)]
logs = [a for a, b in zip(logs, logs[1:] + [[]]) if b[:len(a)] != a]
seen = set()
for i, t in enumerate(logs):
    k = json.dumps(t)
    if k not in seen and len(seen) < 110 * S and len(t) > 2:
        seen.add(k)
        replay('tlc-%d' % i, t)
for i in range(50 * S):
    history(i)
# the lines main.py executes as points of failure; the last ones store the table
for op in ('generate', 'expand'):
    w = World('line-%s' % op, 'T', '', ['T_v9.pkl', 'T_v10.pkl'], ['T_v11.txt'])
    n = w.start(1, op, gates=False, how='exit', line=10 ** 9).lines
    w.close()
    for k in range(1, n + 1):
        if THOROUGH or k > n - 28 or k % 24 == 0:
            w = World('line-%s-%d' % (op, k), 'T', '', ['T_v9.pkl', 'T_v10.pkl'], ['T_v11.txt'])
            w.start(1, op, gates=False, how=rng.choice(HOW), line=k)
            w.start(1, 'expand', gates=False)
            w.close()
rec.close()
