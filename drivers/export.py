"""C17: lists of results exported as equations, as a LaTeX document and as a table."""
from common import *
from exported import *
import tempfile

out, props, tests = args()
silence()
import enum_params
import enum_poly_params
import latex
import pylatex
from lhs_evaluators import LHS_TYPES
from postprocfuncs import EVALUATED_POSTPROC_FUNCS, POSTPROC_FUNCS
from mpmath import mp, mpf, pi, e as econst, sqrt, zeta, euler, phi
import progressbar
enum_params.progressbar.progressbar = lambda it, **kw: it
# no LaTeX here: the document's source is what is read back
pylatex.Document.generate_pdf = lambda self, f=None, **kw: self.generate_tex(f)
rng = random.Random(SEED)
rec = Recorder(out)
CLS = {'ulcd': LHS_TYPES['ulcd'], 'rat': LHS_TYPES['rationalfunc']}
TARGETS = {'pi': lambda: +pi, 'e': lambda: +econst, 'phi': lambda: +phi, 'zeta3': lambda: zeta(mpf(3)), 'euler_masch': lambda: +euler,
           'sqrt2': lambda: sqrt(mpf(2)), 'feig': lambda: mpf('4.66920160910299067185320382')}
def lhs_desc(o):
    try:
        p = o.get_params()
        if isinstance(o, CLS['ulcd']['eval']):
            return {'kind': 'ulcd', 'p': [str(int(c)) for c in p]}
        n, d, k = p
        return {'kind': 'rat', 'n': [str(int(c)) for c in n], 'd': [str(int(c)) for c in d], 'k': str(int(k))}
    except Exception:
        return BADX


def params_of(p):
    return [num(x) for x in p] if isinstance(p, (tuple, list)) else [num(p)]


def desc(c):
    try:
        ab, lhs, f, conv = c
        cv = {'type': 'none', 'ps': []} if conv is None else {'type': str(conv[0]), 'ps': params_of(conv[1])}
        return {'a': polys(ab[0]), 'b': polys(ab[1]), 'f': int(f), 'x': lhs_desc(lhs), 'val': num(lhs.get_val()), 'conv': cv}
    except Exception:
        return {'a': [], 'b': [], 'f': -1, 'x': BADX, 'val': NONUM, 'conv': {'type': '?', 'ps': []}}


class Session:
    def __init__(self, ident, name, dps, results):
        rec.case(ident)
        set_prec(dps)
        self.name, self.dps = name, dps
        t = TARGETS[name]()
        self.t = t
        self.m = enum_params.MITM(target_generator=lambda *a, **k: t, target_name=name, postproc_funcs_filter=(0,), hashtable_prec=6,
                                  ab_poly_class=enum_poly_params.BasicEnumPolyParams, prec=dps)
        rs = []
        for a, b, f, x, conv, moves in results:
            if x['kind'] == 'ulcd':
                lhs, exc = call(CLS['ulcd']['eval'], [int(c) for c in x['p']], t)
            else:
                lhs, exc = call(CLS['rat']['eval'], ([int(c) for c in x['n']], [int(c) for c in x['d']], int(x['k'])), t)
            if exc:
                continue
            if lhs.is_degenerate() or not mp.isnormal(lhs.get_val()):
                continue                # the enumeration yields no such left-hand side
            for mv in moves:
                if mv == 'flip':
                    call(lhs.flip_sign)
                elif mv == 'canon':
                    call(lhs.canonalize_params)
                else:
                    call(lhs.add_int, mv)
            rs.append(((a, b), lhs, f, conv))
        self.m.filtered_params = rs

    def results(self):
        return [desc(c) for c in self.m.get_filtered_params()]

    def log(self, op, fn):
        before = self.results()
        r, exc = call(fn)
        rec.log(op, name=self.name, dps=self.dps, results=before, after=self.results(), exc=exc, **(r or {}))

    def eqns(self, depth=None):
        kw = {} if depth is None else {'depth': depth}
        depth = depth or 5
        self.log('eqns', lambda: {'depth': depth, 'eqs': [tokens(t) for t in self.m.get_results_as_eqns(POSTPROC_FUNCS, **kw)]})

    def tex(self):
        def run():
            with tempfile.TemporaryDirectory() as d:
                latex.generate_latex(os.path.join(d, 'results'), self.m.get_results_as_eqns(POSTPROC_FUNCS))
                text = open(os.path.join(d, 'results.tex')).read()
            return {'depth': 5, 'eqs': tex_equations(text)}
        self.log('tex', run)

    def table(self):
        def run():
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, 'r.csv')
                self.m.export_to_csv(p)
                return table(p)
        self.log('csv', run)

    def all(self):
        ops = [lambda: self.eqns(rng.choice([None, 1, 2, 3, 5, 8])), self.tex, self.table]
        rng.shuffle(ops)
        for o in ops[:rng.choice([2, 3, 3])]:
            o()


def rand_poly(d, w):
    p = [rng.randint(-w, w) for _ in range(d + 1)]
    return tuple(p)


FINITE = [(((1,),), ((-3, 1),)), (((1, 1),), ((-20, 1),)), (((2, 1),), ((-399, 1),)), (((2, 1),), ((-400, 1),)), (((3,), (1,)), ((5, -1), (1,))), (((1,),), ((0,),)),
          (((4,),), ((-2, 1),)), (((2, 1),), ((-401, 1),)), (((5, 1),), ((-450, 1),))]


def rand_ab():
    k = rng.random()
    if k < 0.15:
        return rng.choice(FINITE)
    if k < 0.5:
        d = rng.randint(0, 1)
        return (rand_poly(d, 6),), (rand_poly(2 * d, 6),)
    if k < 0.8:
        return (rand_poly(rng.randint(1, 2), 5),), (rand_poly(rng.randint(0, 1), 5),)
    return tuple(rand_poly(rng.randint(0, 1), 5) for _ in range(rng.randint(1, 3))), tuple(rand_poly(rng.randint(0, 1), 4) for _ in range(rng.randint(1, 3)))


def rand_lhs():
    if rng.random() < 0.5:
        return {'kind': 'ulcd', 'p': [rng.randint(-4, 4), rng.choice([-5, -2, -1, 1, 1, 3]), rng.choice([0, 0, 1, -1, 7]), rng.choice([-4, -1, 1, 1, 2, 12])]}
    while True:
        n = [rng.choice([-3, -1, 0, 0, 1, 1, 2, 12]) for _ in range(rng.choice([1, 2, 3, 4, 4, 12]))]
        d = [rng.choice([-3, -1, 0, 0, 1, 1, 2, 10]) for _ in range(rng.randint(1, 3))]
        if any(n) and any(d):
            return {'kind': 'rat', 'n': n, 'd': d, 'k': rng.choice([0, 0, 0, 1, -2, 10])}


def rand_conv():
    k = rng.random()
    if k < 0.25:
        return None
    if k < 0.6:
        return ('exp', (mpf(rng.randint(11, 99999)) / 10, mpf(rng.randint(1, 10**6)) / 10**9))
    if k < 0.8:
        return ('super_exp', (mpf(rng.randint(10**5, 10**9)) / 7, mpf(10)**rng.randint(-40, 200) / 3))
    return ('poly2sympoly', (rng.random() * 4, -rng.random() * 10, rng.random()))


def moves():
    return [rng.choice(['flip', 'canon', rng.randint(-4, 4)]) for _ in range(rng.choice([0, 0, 1, 3]))]


S = 8 if THOROUGH else 1
ts = [t for p in tests for t in load_tests(p)]
rng.shuffle(ts)
ts = ts[:200 * S]
for i in range(0, len(ts) - 4, 5):          # five of the specification's results at a time, in every place of a list
    g = ts[i:i + 5]
    rs = [(tuple(tuple(int(c) for c in p) for p in t['a']), tuple(tuple(int(c) for c in p) for p in t['b']), t['pf'], t['x'], rand_conv(), moves()) for t in g]
    s = Session('spec-%d' % (i // 5), rng.choice(list(TARGETS)), rng.choice([15, 30, 50]), rs)
    s.eqns(rng.choice([None] + [t['m'] + 1 for t in g]))
    s.tex() if rng.random() < 0.5 else s.table()
for f in range(24):                         # every function, on its own and beside an ending fraction
    s = Session('fn-%d' % f, rng.choice(list(TARGETS)), 30,
                [(*rand_ab(), f, rand_lhs(), rand_conv(), moves()), (*FINITE[0], f, rand_lhs(), None, []),
                 (((rng.randint(1, 5),),), ((rng.randint(1, 5),),), f, rand_lhs(), rand_conv(), [])])
    s.all()
for i in range(90 * S):
    s = Session('list-%d' % i, rng.choice(list(TARGETS)), rng.choice([15, 20, 30, 50, 100]),
                [(*rand_ab(), rng.randrange(24), rand_lhs(), rand_conv(), moves()) for _ in range(rng.randint(0, 6))])
    s.all()
rec.close()
