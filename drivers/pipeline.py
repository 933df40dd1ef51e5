"""C20, C22: full runs of the program: histories of runs over shared tables and results, and runs that are interrupted at
every point of their cancellable part; C23, C24: distributed runs, joined and cleaned tables.  Each run is a process of its
own in a scratch directory."""
from exported import *
import configparser
import hashlib
import runpy
import shutil
import tempfile

out, props, tests = args()
silence()
import pickleshim
import dill
import main as main_module
import enum_params
import pylatex
import progressbar
enum_params.progressbar.progressbar = lambda it, **kw: it
pylatex.Document.generate_pdf = lambda self, f=None, **kw: self.generate_tex(f)
from mpmath import mp, mpf
PART = os.environ.get('VERIF_PART', '') or '0of1'
part, parts = (int(x) for x in PART.split('of'))
rng = random.Random(SEED * 1000 + part)
rec = Recorder(out)

FUNCS = ["lambda x: x", "safe_inverse", "lambda x: x**2", "lambda x: safe_inverse(x**2)", "lambda x: x**3", "lambda x: safe_inverse(x**3)",
         "lambda x: x**4", "lambda x: safe_inverse(x**4)", "lambda x: x**5", "lambda x: safe_inverse(x**5)", "safe_sqrt",
         "lambda x: safe_inverse(safe_sqrt(x))"]
# parts of a search space that hold identities of a constant, with some that hold none:
# (kind, a range, b range)
one = [[[1, 2]]]
THEMES = {
    'phi': dict(consts=[('phi', 0), ('phi', 0), ('pi', 0), ('euler_masch', 0)],
                parts=[('normal', [[[1, 5]]], [[[-2, 5]]]), ('normal', [[[-4, 0]]], [[[1, 3]]]), ('normal', [[[1, 2]], [[2, 4]]], [[[2, 3]]]),
                       ('normal', [[[3, 5]]], [[[-1, 2]]]), ('normal', [[[1, 3]]], [[[1, 2]], [[1, 3]]]), ('indexed', [[[1, 3]]], [[[1, 5]]]),
                       ('normal', [[[1, 4], [0, 2]]], [[[-2, 3]]]), ('normal', [[[4, 5]], [[1, 3]], [[4, 5]]], [[[1, 2]]]),
                       ('normal', [[[-3, 4]]], [[[-4, 4]]]), ('sparse', [[[1, 3]]], [[[1, 5]]])]),
    'e': dict(consts=[('e', 0), ('e', 0), ('phi', 0), ('feig', 1)],
              parts=[('normal', [[[1, 4], [1, 2]]], [[[0, 1], [-1, 2]]]), ('normal', [[[0, 4], [1, 2]]], [[[0, 1], [1, 2]]]),
                     ('normal', [[[2, 3], [4, 5]]], [[[1, 2]]]), ('normal', [[[1, 7], [2, 5]]], [[[1, 2]]]), ('normal', [[[3, 5], [1, 2]]], [[[0, 1], [-2, 0]]]),
                     ('normal', [[[1, 3], [0, 3]]], [[[1, 3]]]), ('sparse', [[[1, 3], [1, 2]]], [[[1, 2]]])]),
    'pi': dict(consts=[('pi', 0), ('pi', 0), ('e', 0), ('percolation', 0)],
               parts=[('normal', [[[1, 2], [2, 3]]], [[[0, 1], [0, 1], [1, 2]]]), ('normal', [[[0, 4], [1, 3]]], [[[0, 1], [0, 1], [-1, 3]]]),
                      ('normal', [[[1, 2], [2, 4]]], [[[0, 2], [0, 1], [1, 2]]]), ('normal', [[[3, 4], [3, 4]]], [[[0, 1], [-1, 0], [-2, 0]]]),
                      ('normal', [[[1, 4], [3, 4]]], [[[0, 1], [-1, 2], [-2, 0]]])]),
    'zeta': dict(consts=[('zeta', 2), ('zeta', 3), ('zeta', 2), ('zeta', 3), ('apery', 0), ('pi', 0)],
                 parts=[('normal', [[[3, 4], [11, 12], [11, 12]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [1, 2]]]),
                        ('normal', [[[5, 6], [27, 28], [51, 52], [34, 35]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [-1, 0]]]),
                        ('normal', [[[2, 4], [11, 12], [11, 12]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [1, 2]]]),
                        ('normal', [[[1, 3], [1, 3]]], [[[0, 1], [0, 1], [1, 2]]])]),
    'apery': dict(consts=[('apery', 0), ('zeta', 3), ('apery', 0), ('zeta', 2)],
                  parts=[('normal', [[[5, 6], [27, 28], [51, 52], [34, 35]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [-1, 0]]]),
                         ('normal', [[[5, 6], [26, 28], [51, 52], [34, 35]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [-1, 0]]]),
                         ('normal', [[[1, 3], [1, 3]]], [[[0, 1], [0, 1], [1, 2]]])]),
    # roots of x^3-3x+1 and of x^3-3x^2+1: the constants with an index that satisfy identities (one third)
    'percolation': dict(consts=[('percolation', 1), ('percolation', 0), ('percolation', 1), ('percolation', 0), ('phi', 0)],
                        parts=[('normal', [[[1, 4]]], [[[2, 7]]]), ('normal', [[[2, 5]]], [[[-3, 4]]]), ('normal', [[[4, 7]]], [[[-9, -2]]]),
                               ('normal', [[[-4, 0]]], [[[-3, 7]]])]),
}
LHS = {
    'percolation': [('rationalfunc', [[[2, 3], [-3, 1], [-3, 1], [1, 2]], [[3, 4]], False]), ('rationalfunc', [[[-2, -1], [0, 4], [0, 4], [-1, 0]], [[3, 4]], True])],
    'small': [('ulcd', [1, 1, 1, 2]), ('ulcd', [2, 1, 0, 2]), ('ulcd', [1, 2, 1, 1]), ('ulcd', [[0, 2], [-1, 3], 1, [1, 4]]),
              ('rationalfunc', [[[-1, 2], [-1, 2]], [[-1, 2], [-1, 2]], False]), ('rationalfunc', [[[0, 2], [0, 2]], [[-2, 3], [0, 2]], False]),
              ('rationalfunc', [[[-1, 2], [0, 2], [0, 2]], [[0, 2], [0, 2]], True])],
    'zeta': [('ulcd', [[4, 7], [1, 2], 1, [1, 2]]), ('ulcd', [6, [-1, 2], 0, 1]), ('rationalfunc', [[[4, 7]], [[0, 1], [0, 2]], False]),
             ('rationalfunc', [[[0, 7], [0, 2]], [[0, 1], [1, 2]], False])],
    'pi': [('ulcd', [4, 1, 0, 2]), ('rationalfunc', [[[-1, 5]], [[-1, 2], [-1, 2]], False]), ('ulcd', [[2, 5], [1, 2], 1, 2]),
           ('rationalfunc', [[[-1, 2], [0, 2]], [[0, 5]], False])],
}


def settings(theme, k, op, table, spart, search, only, coarse=False):
    """One run's settings; the theme's k-th history keeps its precisions."""
    kind, ra, rb = spart
    const, i, (lt, lp), prec, funcs = search
    s = dict(const=const, ab_polys_type=kind, ab_polys_special_params='None' if kind != 'sparse' else '[3, 3]', print_surprising_nonexp_contfracs=rng.choice(['false', 'True', 'false']),
             gen_hashtable_only=only, a_coeffs_range=json.dumps(ra), b_coeffs_range=json.dumps(rb), lhs_type=lt, lhs_params=json.dumps(lp),
             postproc_funcs_filter=json.dumps([FUNCS[f] for f in funcs]), i=i, hashtable_file_operation=op, hashtable_file=table,
             hashtable_num_of_iterations=prec['hiters'], hashtable_precision=prec['hprec'],
             first_filtering_num_of_iterations=prec['n1'], first_filtering_precision=prec['p1'],
             second_filtering_max_num_of_iterations=prec['n2'], second_filtering_precision=prec['p2'],
             third_filtering_max_num_of_iterations=prec['n3'], third_filtering_precision=prec['p3'])
    if i == 0 and rng.random() < 0.3:
        del s['i']
    if rng.random() < 0.2:
        s['is_test'] = rng.choice(['true', 'False'])
    return s


def write_ini(path, s):
    items = list(s.items())
    rng.shuffle(items)
    with open(path, 'w') as f:
        f.write('[Setup]\n' + ''.join('%s=%s\n' % x for x in items))


def lhs_fields(lt, lp):
    if lt == 'ulcd':
        return {'kind': 'ulcd', 'ranges': [{'t': 'pair', 'v': x} if isinstance(x, list) else {'t': 'n', 'v': [x]} for x in lp], 'num': [], 'den': [], 'force': False}
    return {'kind': 'rat', 'ranges': [], 'num': lp[0], 'den': lp[1], 'force': lp[2]}


def tree():
    """Every file and directory of the results, with what the files hold."""
    fs, ds = [], []
    for top, dirs, files in os.walk('results'):
        ds.append(top)
        for f in files:
            p = os.path.join(top, f)
            with open(p, 'rb') as g:
                fs.append([p, hashlib.sha1(g.read()).hexdigest()[:16]])
    return sorted(fs), sorted(ds)


def raw_pairs(path):
    c = configparser.ConfigParser(interpolation=None)
    c.read(path)
    return [[k, v] for sec in c.sections() for k, v in c[sec].items()]


def with_base(w):
    """the rate's first number, as the trace's numbers are written"""
    try:
        r = w['rate'][0]
        with mp.workdps(60):
            w['base'] = num(mpf(int(r['s'])) * mpf(10) ** r['e'])
    except Exception:
        w['base'] = NONUM
    return w


def read_results(d):
    t = table(os.path.join(d, 'results.csv'))
    with open(os.path.join(d, 'results.tex')) as f:
        eqs = tex_equations(f.read())
    return {'head': t['head'], 'rows': [with_base(w) for w in t['rows']], 'eqs': eqs, 'saved': raw_pairs(os.path.join(d, 'config.ini'))}


EMPTY = {'head': [], 'rows': [], 'eqs': [], 'saved': []}


def fork(fn, limit):
    """fn() in a child process: (value, exception's name)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            v, exc = call(fn, limit=limit)
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps([v, exc]))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(text)
    except ValueError:
        return None, 'died'


def main_run(ini):
    main_module.main(ini)
    return None


class History:
    def __init__(self, ident):
        rec.case(ident)
        self.top = tempfile.mkdtemp(prefix='vpipe')
        self.old = os.getcwd()
        os.chdir(self.top)
        os.mkdir('t')
        self.n = 0
        rec.log('start')

    def run(self, theme, op, tab, spart, search, only, path=None, op2='run', prop='C20'):
        self.n += 1
        ini = rng.choice(['run%d.ini' % self.n, 'Run_%d.INI' % self.n, 'config.ini'])
        only = rng.choice(['true', 'true', 'auto']) if only else 'false'
        if op == 'use':
            only = rng.choice(['false', 'auto'])
        s = settings(theme, 0, op, path or 't/%s.pkl' % tab, spart, search, only)
        write_ini(ini, s)
        kind, ra, rb = spart
        const, i, (lt, lp), prec, funcs = search
        before, dbefore = tree()
        how = rng.randrange(3)
        exc = fork(lambda: main_run(ini), 100)[1] if how else script('main.py', *([ini] if ini != 'config.ini' else []))
        after, dafter = tree()
        gen_only = only == 'true' or (only == 'auto' and op != 'use')
        new = [d for d in dafter if d not in dbefore and d != 'results']
        res = EMPTY
        if not gen_only and exc == '' and len(new) == 1:
            res, e2 = call(read_results, new[0])
            if e2:
                res, exc = EMPTY, 'results: ' + e2
        rec.log(op2, prop=prop, oper=op, table=tab, pairs=[[k, str(v)] for k, v in s.items()], const=const, i=i, kind=kind, na=3, nb=3, ra=ra, rb=rb, funcs=funcs,
                lhs=lhs_fields(lt, lp), only=gen_only, exc=exc, before=before, after=after, dirsbefore=dbefore, dirsafter=dafter, **prec, **res)

    def close(self):
        os.chdir(self.old)
        shutil.rmtree(self.top)


def precisions():
    if rng.random() < 0.35:
        # coincidences pass the first filters
        hprec = rng.choice([1, 2, 3])
        p1, p2, p3 = sorted([hprec + rng.choice([0, 0, 1]), hprec + rng.choice([0, 1, 2, 8]), hprec + rng.choice([2, 3, 9, 15])])
    else:
        hprec = rng.choice([6, 8, 10, 12])
        p1 = hprec + rng.choice([0, 1, 4])
        p2 = p1 + rng.choice([0, 4, 8])
        p3 = p2 + rng.choice([0, 5, 10])
    return dict(hprec=hprec, p1=p1, p2=p2, p3=p3, hiters=rng.choice([100, 150, 200]), n1=rng.choice([100, 150, 250]), n2=rng.choice([200, 300, 400]),
                n3=rng.choice([250, 400]))


def pool_of(name):
    if name == 'percolation':
        return LHS[name]
    return LHS['zeta'] if name in ('zeta', 'apery') else LHS['pi'] + LHS['small'] if name == 'pi' else LHS['small']


def history(ident, log):
    """The specification's history of runs over one theme's parts and searches."""
    name = rng.choice(['phi', 'phi', 'phi', 'e', 'e', 'pi', 'zeta', 'zeta', 'apery', 'percolation', 'percolation'])
    th = THEMES[name]
    ps = rng.sample(th['parts'], min(3, len(th['parts'])))
    prec = precisions()
    varying = rng.random() < 0.2

    def funcs():
        if name == 'percolation':
            return rng.choice([[1], [0, 1]])
        return sorted(rng.sample(range(len(FUNCS)), rng.choice([1, 1, 2]))) if rng.random() < 0.4 else rng.choice([[0], [0], [0, 1], [1], [0, 2], [0, 10]])
    fs = funcs()
    ss = []
    for k in range(3):
        # (constants that differ by their index only are sought in the same table)
        c, i = th['consts'][0] if k == 0 or rng.random() < (0.5 if name not in ('zeta', 'percolation') else 0.1) else rng.choice(th['consts'])
        ss.append((c, i, rng.choice(pool_of(name)), fs if rng.random() < 0.6 else funcs()))
    h = History(ident)
    for e in log:
        c, i, lhs, f = ss[e['search'] - 1]
        p = dict(prec)
        if varying and e['op'] != 'generate':
            p = precisions()
            p['hiters'] = prec['hiters']
        h.run(name, e['op'], e['table'], ps[(e['part'] - 1) % len(ps)], (c, i, lhs, p, f), e['only'])
    h.close()


def indexed_history(k):
    """A table of fractions for two constants that differ by their index only, searched for the one and the other."""
    name, one, two, lhs = [('zeta', 2, 3, LHS['zeta'][2]), ('percolation', 0, 1, LHS['percolation'][k // 2 % 2])][k % 2]
    f = [[0], [0, 1]][k % 2]
    ps = THEMES[name]['parts'][:2]
    prec = dict(hprec=8, p1=8, p2=12, p3=20, hiters=100, n1=150, n2=200, n3=250)
    h = History('index-%d' % k)
    runs = [('generate', 0, one), ('expand', 1, two), ('use', 0, one), ('use', 0, two)]
    if k // 2 % 2:
        runs = [('generate', 1, two), ('use', 1, one), ('expand', 0, one), ('use', 1, two)]
    for op, q, i in runs:
        h.run(name, op, 'T', ps[q], (name, i, lhs, prec, f), False)
    h.close()


def reach(log):
    """a history in which every table is generated before it is used; others would only be refused"""
    have = set()
    for e in log:
        if e['op'] == 'generate':
            have.add(e['table'])
        elif e['table'] not in have:
            return False
    return True


# ----------------------------------------------------------------------------------------------------------------------
# C22

CUT_PLANS = [
    ('phi', 0, ('normal', [[[1, 5]]], [[[-2, 5]]]), ('ulcd', [1, 1, 1, 2]), [0], dict(hprec=2, p1=2, p2=2, p3=12)),
    ('phi', 0, ('normal', [[[1, 4]]], [[[1, 5]]]), ('rationalfunc', [[[-1, 2], [-1, 2]], [[-1, 2], [-1, 2]], False]), [0], dict(hprec=3, p1=3, p2=3, p3=20)),
    ('phi', 0, ('normal', [[[1, 5]]], [[[1, 3]]]), ('ulcd', [2, 1, 0, 2]), [0, 1], dict(hprec=3, p1=3, p2=3, p3=15)),
    ('e', 0, ('normal', [[[1, 4], [1, 2]]], [[[0, 1], [-1, 2]]]), ('ulcd', [1, 1, 1, 2]), [0, 1], dict(hprec=2, p1=2, p2=3, p3=20)),
    ('e', 0, ('normal', [[[0, 4], [1, 3]]], [[[1, 3]]]), ('rationalfunc', [[[-1, 2], [0, 2]], [[-1, 2], [0, 2]], False]), [0], dict(hprec=2, p1=2, p2=2, p3=9)),
    ('pi', 0, ('normal', [[[1, 3], [1, 3]]], [[[0, 1], [0, 1], [-1, 3]]]), ('ulcd', [4, [-1, 2], [0, 2], [1, 3]]), [0], dict(hprec=1, p1=1, p2=1, p3=20)),
    ('pi', 0, ('normal', [[[1, 3], [2, 3]]], [[[0, 2], [0, 1], [1, 2]]]), ('rationalfunc', [[[-1, 5]], [[0, 2], [0, 2]], False]), [0, 1], dict(hprec=1, p1=2, p2=2, p3=10)),
    ('zeta', 2, ('normal', [[[2, 4], [11, 12], [11, 12]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [1, 2]]]), ('ulcd', [[-6, 7], [-1, 2], 1, [1, 3]]), [0], dict(hprec=1, p1=1, p2=1, p3=12)),
    ('euler_masch', 0, ('normal', [[[1, 6]]], [[[1, 6]]]), ('ulcd', [1, 1, 1, 2]), [0], dict(hprec=2, p1=2, p2=2, p3=12)),
]


class Watch:
    """Standard output of the run: tells when the refining is announced to be cancellable."""

    def __init__(self, act):
        self.act, self.armed = act, True

    def write(self, text):
        if self.armed and 'CANCEL' in text.upper():
            self.armed = False
            self.act()
        return len(text)

    def flush(self):
        pass


ENUM = os.path.realpath(os.path.join(REPO, 'enum_params.py'))


def in_repo(frame):
    return os.path.realpath(frame.f_code.co_filename).startswith(os.path.realpath(REPO) + os.sep)


class Interrupter:
    """Counts the lines the repository's code executes in calls of the MITM object; raises KeyboardInterrupt at the N-th."""

    def __init__(self, at):
        self.at, self.n, self.stop = at, 0, False
        self.marks = []
        self.where = ''

    def watch_stages(self):
        for name in ('refine_clicks_with_convergence_info', 'filter_uniq_params', 'filter_pos_integer_roots_numerators'):
            f = getattr(enum_params.MITM, name, None)
            if f is not None:
                setattr(enum_params.MITM, name, self.wrap(f))

    def wrap(self, f):
        def stage(*a, **k):
            r = f(*a, **k)
            self.marks.append(self.n)
            return r
        return stage

    def trace(self, frame, event, arg):
        if self.stop or not in_repo(frame):
            return None
        if event == 'call':
            g = frame
            while g is not None and os.path.realpath(g.f_code.co_filename) != ENUM:
                g = g.f_back
            return self.trace if g is not None else None
        if event == 'line':
            self.n += 1
            if self.n == self.at:
                self.stop = True
                self.where = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                sys.settrace(None)
                raise KeyboardInterrupt
        return self.trace

    @property
    def done(self):
        """How many stages are over for sure: a stage's value may still be on its way to where it is kept."""
        return len([m for m in self.marks if m + 40 < self.n])

    def start(self):
        self.watch_stages()
        sys.settrace(self.trace)

    def end(self, *a):
        self.stop = True
        sys.settrace(None)


def cut(plan, ident, budget, half):
    const, i, spart, lhs, funcs, prec = plan
    prec = dict(prec, hiters=60, n1=80, n2=100, n3=120)
    top = tempfile.mkdtemp(prefix='vcut')
    old = os.getcwd()
    os.chdir(top)
    s = settings(const, 0, 'generate', 'T.pkl', spart, (const, i, lhs, prec, funcs), 'false')
    write_ini('run.ini', s)
    results = os.path.join(top, 'out.ndjson')

    def leaf(at, k):
        """The rest of a run in a directory of its own, interrupted at a point."""
        d = os.path.join(top, 'leaf%d' % k)
        os.mkdir(d)
        os.chdir(d)
        intr = Interrupter(at)
        for f in ('mkdir', 'makedirs'):
            g = getattr(os, f)
            setattr(os, f, lambda *a, _g=g, **kw: (intr.end(), _g(*a, **kw))[1])
        for f in ('isdir', 'exists'):
            g = getattr(os.path, f)
            setattr(os.path, f, lambda *a, _g=g, **kw: (intr.end(), _g(*a, **kw))[1])
        return d, intr

    def points(n, marks):
        """Which points are tried: the first, those around the ends of the stages, and others spread evenly."""
        some = {1, 2, 3, n}
        for m in marks:
            some |= {x for x in range(m - 4, m + 5)}
        step = max(1, n // budget)
        some |= set(range(1 + rng.randrange(step), n + 1, step))
        return sorted(x for x in some if 1 <= x <= n)[half::2]

    state = {'plain': False}

    def spawn(at, k):
        """True in the child, which goes on with the run."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 60)
            signal.alarm(400)
            d, intr = leaf(at, k)
            state.update(leaf=d, intr=intr, w=w, at=at)
            return True, None
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        try:
            return False, json.loads(text)
        except ValueError:
            return False, {'at': at, 'exc': 'died', 'n': 0, 'done': 0, 'marks': [], 'where': '', 'complete': False, **EMPTY}

    def announced():
        child, whole = spawn(0, 0)
        if child:
            return state['intr'].start()
        got = [whole]
        for k, at in enumerate(points(whole['n'], whole['marks'])):
            child, r = spawn(at, k + 1)
            if child:
                return state['intr'].start()
            got.append(r)
        with open(results, 'w') as f:
            for r in got:
                f.write(json.dumps(r) + '\n')
        os._exit(0)

    def whole_run():
        sys.stdout = Watch(announced)
        exc = ''
        try:
            main_module.main('run.ini')
        except BaseException as e:
            exc = type(e).__name__
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        if 'w' not in state:
            return None
        r = {'at': state['at'], 'exc': exc, 'n': state['intr'].n, 'done': state['intr'].done, 'marks': state['intr'].marks,
             'where': state['intr'].where, 'complete': False, **EMPTY}
        try:
            ds = os.listdir(os.path.join(state['leaf'], 'results'))
            d = os.path.join(state['leaf'], 'results', ds[0])
            r['complete'] = len(ds) == 1 and sorted(os.listdir(d)) == ['config.ini', 'results.csv', 'results.tex']
            if r['complete']:
                r.update(read_results(d))
        except Exception as e:
            r['exc'] = r['exc'] or 'results: ' + type(e).__name__
        with os.fdopen(state['w'], 'w') as f:
            f.write(json.dumps(r))
        os._exit(0)
    fork(whole_run, 800)
    got = load_tests(results)
    rec.case(ident)
    rec.log('start')
    base = dict(const=const, i=i, **prec)
    if len(got) < 2:
        rec.log('base', exc='the run does not reach its cancellable part', complete=False, **base, **EMPTY)
    else:
        first = got[1]
        rec.log('base', **base, **first)
        for r in got:
            rec.log('cut', **base, **r)
    os.chdir(old)
    shutil.rmtree(top)


# ----------------------------------------------------------------------------------------------------------------------
# C23, C24

DIST = [('phi', ('normal', [[[1, 5]]], [[[-2, 5]]])), ('phi', ('normal', [[[1, 3]], [[1, 3]]], [[[1, 4]], [[1, 2]]])), ('phi', ('indexed', [[[1, 5]]], [[[1, 4]]])),
        ('phi', ('sparse', [[[1, 5]]], [[[1, 3]]])), ('phi', ('normal', [[[-4, 1]]], [[[-3, 4]]])), ('phi', ('normal', [[[-3, 4]]], [[[1, 4]]])),
        ('phi', ('normal', [[[2, 3]]], [[[-4, 5]]])), ('phi', ('normal', [[[1, 4], [0, 2]]], [[[-2, 3]]])),
        ('e', ('normal', [[[0, 4], [1, 3]]], [[[0, 1], [-1, 2]]])), ('e', ('normal', [[[1, 3], [1, 3]]], [[[1, 2], [1, 3]]])),
        ('e', ('normal', [[[2, 5], [1, 2]]], [[[0, 1], [-2, 2]]])), ('pi', ('normal', [[[0, 4], [1, 3]]], [[[0, 1], [0, 1], [-1, 3]]])),
        ('pi', ('normal', [[[1, 3], [1, 4]]], [[[0, 1], [0, 1], [1, 3]]])), ('zeta', ('normal', [[[2, 4], [11, 13], [11, 12]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [1, 3]]]))]


def script(name, *argv):
    """One of the repository's programs, run as from the command line."""
    def run():
        sys.argv = [name] + list(argv)
        runpy.run_path(os.path.join(REPO, name), run_name='__main__')
        return None
    return fork(run, 100)[1]


def keep(entries):
    r = []
    for k, es in entries:
        try:
            r.append({'k': str(k), 'es': [{'a': polys(ab[0]), 'b': polys(ab[1]), 'f': int(f)} for ab, f in es]})
        except Exception:
            r.append({'k': str(k), 'es': [{'a': [], 'b': [], 'f': -1}]})
    return r


def dump_of(path):
    def load():
        with open(path, 'rb') as f:
            m = dill.load(f)
        return {'table': keep([x for x in m.dec_hashtable.items() if x[0] != 'parameters']), 'named': 'parameters' in m.dec_hashtable,
                'acc': int(m.dec_hashtable.accuracy), 'iters': int(m._num_of_iterations) if hasattr(m, '_num_of_iterations') else 0}
    v, exc = fork(load, 60)
    return v if exc == '' and v else {'table': [{'k': '?', 'es': [{'a': [], 'b': [], 'f': -1}]}], 'named': False, 'acc': 0, 'iters': 0}


def prints():
    """What every file holds."""
    r = []
    for top, dirs, files in os.walk('.'):
        for f in files:
            with open(os.path.join(top, f), 'rb') as g:
                r.append([os.path.join(top, f), hashlib.sha1(g.read()).hexdigest()[:16]])
    return sorted(r)


# polynomials that end a fraction, and some that do not: entries of a table of an older program
ENDED = [[[-2, 1]], [[-2, 1], [-3, 1]], [[6, -2], [1], [0, -3, 1]], [[-1, 1], [-1, 1], [1]], [[6, -2]], [[0, -3, 1]], [[12, -7, 1]], [[1], [-4, 1]], [[-5, 1], [2]], [[-10, 3, 1]], [[0, 0, -1, 1]], [[3, 1], [-3, 1], [1]], [[1], [2], [0, 8, -2]]]
OTHERS = [[[2, 4]], [[1, 1, 1]], [[-3, 2]], [[1], [2, 3]], [[0, 0, 7]], [[5, 0, 2]], [[3, 1]], [[2, 3, 1]]]


def tools(ident, log, only):
    name, (kind, ra, rb) = rng.choice(DIST)
    th = THEMES[name]
    prec = precisions()
    const, i = rng.choice(th['consts'][:3])
    funcs = rng.choice([[0], [0, 1], [1], [0, 2], [10, 11]])
    h = History(ident)
    cfg = rng.choice(['config.ini', 'config.ini', 'space.ini', 'My_Search.ini'])
    base = settings(name, 0, 'generate', rng.choice(['t/T.pkl', 't/my_table', 't/Table_v1.pkl', 't/tab_v12.pkl']), (kind, ra, rb), (const, i, rng.choice(pool_of(name)), prec, funcs), rng.choice(['true', 'True']))
    write_ini(cfg, base)
    common = dict(kind=kind, ra=ra, rb=rb, na=3, nb=3, funcs=funcs, **prec)
    parts, target, uses = [], None, 0
    for e in log:
        before = prints()
        if e['do'] == 'distribute':
            argv = [str(e['x'])] if e['x'] != 4 or rng.random() < 0.5 else []
            exc = script('distribute_run.py', *(argv + [cfg] if argv and cfg != 'config.ini' else argv if cfg == 'config.ini' else [str(e['x']), cfg]))
            parts = sorted(p for p, _ in prints() if p.endswith('.ini') and p not in [x for x, _ in before])
            h.n += 1
            # the run that is not distributed, elsewhere
            os.makedirs('whole/t')
            os.chdir('whole')
            shutil.copy('../' + cfg, cfg)
            exc2 = script('main.py', cfg)
            found = [p for p, _ in prints() if p.endswith('.pkl')]
            d = dump_of(found[0]) if len(found) == 1 else dump_of('?')
            os.chdir('..')
            rec.log('distribute', n=e['x'], exc=exc or exc2, got=len(parts), whole=d['table'], **common)
        elif e['do'] in ('part', 'fail'):
            k = e['x'] - 1
            ini = parts[k] if k < len(parts) else 'missing.ini'

            def failing():
                def dump(m, f, *a, **kw):
                    f.write(b'half')
                    raise OSError('no space')
                dill.dump = dump
                sys.argv = ['main.py', ini]
                runpy.run_path(os.path.join(REPO, 'main.py'), run_name='__main__')
            exc = script('main.py', ini) if e['do'] == 'part' else fork(failing, 60)[1]
            after = prints()
            old = dict(map(tuple, before))
            new = [p for p, _ in after if p not in old and p.startswith('./t/') and p.endswith('.pkl')]
            d = dump_of(new[0]) if len(new) == 1 else {'table': []}
            rec.log(e['do'], k=k, exc=exc, new=len(new), table=d['table'], before=before, after=after)
        elif e['do'] == 'join':
            exc = script('join_hashtables.py', 't', 'joined.pkl')
            target = 'joined.pkl'
            rec.log('join', exc=exc, before=before, after=prints(), **dump_of(target))
        elif e['do'] == 'clean':
            def age():
                with open('joined.pkl', 'rb') as f:
                    m = dill.load(f)
                ks = [k for k in m.dec_hashtable.keys() if k != 'parameters']
                for n in range(12):
                    b = rng.choice(ENDED + OTHERS[:4]) if n < 9 else rng.choice(OTHERS)
                    entry = ((((rng.randint(1, 5), rng.randint(1, 3)),), tuple(tuple(p) for p in b)), rng.choice(funcs))
                    if rng.random() < 0.5 and ks:
                        es = m.dec_hashtable[rng.choice(ks)]
                        es.insert(rng.randint(0, len(es)), entry)
                    else:
                        k = '0.' + ''.join(rng.choice('0123456789') for _ in range(m.dec_hashtable.accuracy))
                        m.dec_hashtable.setdefault(k[:m.dec_hashtable.accuracy + 1], []).append(entry)
                with open('aged.pkl', 'wb') as f:
                    dill.dump(m, f, protocol=dill.HIGHEST_PROTOCOL)
            fork(age, 60)
            rng.random()
            d = dump_of('aged.pkl')
            before = prints()
            exc = script('fix_hashtable_filter_init_b_root.py', 'aged.pkl')
            after = prints()
            new = [p for p, _ in after if p not in [x for x, _ in before]]
            target = new[0] if len(new) == 1 else '?'
            rec.log('clean', exc=exc, new=new, before=before, after=after, aged=d['table'], aged_acc=d['acc'], **dump_of(target))
        elif e['do'] == 'use' and uses < 1:
            uses += 1
            p = dict(prec)
            h.run(name, 'use', target, (kind, ra, rb), (const, i, rng.choice(pool_of(name)), p, funcs), False, path=target, op2='use', prop=only)
    h.close()


S = 6 if THOROUGH else 1
if 'C23' in props or 'C24' in props:
    prop = 'C23' if 'C23' in props else 'C24'
    logs, seen = [], set()
    for p in tests:
        for t in load_tests(p):
            does = [e['do'] for e in t]
            if json.dumps(t) in seen or ('clean' in does) != (prop == 'C24'):
                continue
            seen.add(json.dumps(t))
            # of the histories in which all parts are stored there are fewest
            whole = {e['x'] for e in t[:does.index('join')] if e['do'] == 'part'}
            if does.count('use') == 1:
                logs.append((t[0]['x'] if len(whole) == t[0]['x'] else 0, t))
    random.Random(SEED).shuffle(logs)
    logs = [t for n, share in ((0, 10), (1, 4), (2, 12), (4, 18), (8, 6)) for t in [t for w, t in logs if w == n][:share * S]]
    for k, t in enumerate(logs):
        if k % parts == part:
            tools('tools-%d' % k, t, prop)
if 'C20' in props:
    logs = [t for p in tests for t in load_tests(p)]
    logs = [t for t in logs if reach(t)]
    random.Random(SEED).shuffle(logs)
    for k, t in enumerate(logs[:128 * S]):
        if k % parts == part:
            history('runs-%d' % k, t)
    for k in range(4):
        if k % parts == part:
            indexed_history(k)
if 'C22' in props:
    plans = CUT_PLANS if not THOROUGH else CUT_PLANS * 3
    # every plan's points are shared by two processes
    for k in range(2 * len(plans)):
        if k % parts == part:
            rng.seed(SEED * 1000 + k // 2)
            cut(plans[k // 2], 'cut-%d-%d' % (k // 2, k % 2), 36 if not THOROUGH else 500, k % 2)
rec.close()
