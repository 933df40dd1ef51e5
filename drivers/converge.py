"""C13: classifications of single fractions, and sequences of convergence filters over lists of results."""
from common import *

out, props, tests = args()
silence()
import cont_fracs
import enum_params
import enum_poly_params
from lhs_evaluators import LHS_TYPES
from mpmath import mp, mpf, pi
import progressbar
enum_params.progressbar.progressbar = lambda it, **kw: it
rng = random.Random(SEED)
rec = Recorder(out)
CLS = {'ulcd': LHS_TYPES['ulcd'], 'rat': LHS_TYPES['rationalfunc']}


def params_of(p):
    if isinstance(p, (tuple, list)):
        return [num(x) for x in p]
    return [num(p)]


def class_of(a, b):
    """The fraction's own classification, by an evaluator of its own."""
    def run():
        c = cont_fracs.ContFrac(a_coeffs=a, b_coeffs=b)
        c.estimate_approach_type_and_params()
        return c.get_approach_type_and_params()
    r, exc = call(run)
    if exc:
        return {'type': '', 'ps': [], 'exc': exc}
    try:
        return {'type': str(r[0]), 'ps': params_of(r[1]), 'exc': ''}
    except Exception:
        return {'type': '?', 'ps': [], 'exc': ''}


def cand(c):
    try:
        ab, lhs, f, conv = c
        if conv is None:
            cv = {'type': 'none', 'ps': []}
        else:
            cv = {'type': str(conv[0]), 'ps': params_of(conv[1])}
        return {'a': polys(ab[0]), 'b': polys(ab[1]), 'f': int(f), 'x': [str(x) for x in lhs.get_params()], 'val': num(lhs.get_val()), 'conv': cv}
    except Exception:
        return {'a': [['?']], 'b': [['?']], 'f': -1, 'x': [], 'val': NONUM, 'conv': {'type': '?', 'ps': []}}


# the classes the specification's behaviours name
POOL = {
    'exp': [(((1,),), ((1,),)), (((3,),), ((-1,),)), (((1, 2),), ((0, 0, 1),)), (((5, 27, 51, 34),), ((0, 0, 0, 0, 0, 0, -1),)), (((100,),), ((1,),)),
            (((3, 11, 11),), ((0, 0, 0, 0, 1),)), (((1,),), ((2,),)), (((-7,),), ((3,),)), (((3, 3),), ((0, -1, -2),)),
            (((1,), (2,)), ((1,),)), (((2,), (3,), (5,)), ((1,), (-1,), (2,))), (((1, 4),), ((0, 0, 3),)), (((6,),), ((-8,),)), (((9, 5),), ((0, 0, 6),)),
            (((10**6,),), ((1,),)), (((1,), (40,)), ((3,),)), (((0, 7),), ((1, 1, -12),)), (((1,),), ((90,),)), (((1,),), ((72,),)), (((-2,),), ((360,),)), (((1,),), ((30,),))],
    'super_exp': [(((0, 1),), ((0, 1),)), (((1, 2),), ((1,),)), (((3, 1),), ((2,),)), (((1, 0, 1),), ((2, 1),)), (((2, 0, 0, 1),), ((1,),)), (((-1, -4),), ((3,),)),
                  (((1, 0, 3),), ((1, 2, 1),)), (((5, 2),), ((-1,),))],
    'poly': [(((2,),), ((1, -4, 4),)), (((1,),), ((0, 1, 1),)), (((6,),), ((1, -4, 4),)), (((1, 2),), ((0, 0, -1),)), (((3, 2),), ((0, 0, -1),)),
             (((2,),), ((-1,),)), (((-4,),), ((-4,),)), (((1, 3, 3, 2),), ((0, 0, 0, 0, 0, 0, -1),)), (((5,),), ((9, 6, 1),)), (((11,),), ((1, -4, 4),)), (((9,),), ((0, 0, 1),))],
    'mixed': [(((1,), (0, 1)), ((0, 1, 1),)), (((1,),), ((-1, -3),)), (((1, 1),), ((0, -2, -5),)), (((1,),), ((-2,),)), (((0, 1), (1,)), ((1, 0, 2), (3, 1)))],
    'raises': [(((1,),), ((-3, 1),)), (((1, 1),), ((-20, 1),)), (((2, 1),), ((-150, 1),)), (((0,),), ((-2, 1),)), (((3,), (1,)), ((5, -1), (1,))), (((1,),), ((0,),)),
               (((0,), (2,)), ((-2, -3, -1, -1), (-3,)))]}


def rand_poly(d, w):
    return tuple(rng.randint(-w, w) for _ in range(d + 1))


def rand_ab():
    k = rng.random()
    if k < 0.25:
        return ((rng.randint(-9, 9),),), ((rng.randint(-9, 9),),)
    if k < 0.45:        # balanced degrees: constant rates
        d = rng.randint(0, 2)
        return (rand_poly(d, 6),), (rand_poly(2 * d, 6),)
    if k < 0.6:         # the denominators outgrow
        d = rng.randint(1, 2)
        return (rand_poly(d, 5),), (rand_poly(rng.randint(0, 2 * d - 1), 5),)
    if k < 0.7:         # the numerators outgrow
        d = rng.randint(0, 1)
        return (rand_poly(d, 4),), (tuple(list(rand_poly(2 * d, 4)) + [rng.randint(1, 4)]),)
    if k < 0.78:        # slowly by a constant factor: roots k + 1 and -k, scaled
        r, c = rng.randint(2, 11), rng.choice([1, -1, 2, 3])
        return ((c,),), ((c * c * r * (r + 1) + rng.choice([-1, 0, 0, 1]),),)
    if k < 0.84:        # by a high power of the order
        return ((rng.randint(1, 12),),), (rng.choice([(1, -4, 4), (0, 0, 1), (9, 6, 1)]),)
    if k < 0.9:         # close to a double root
        c = rng.randint(1, 6)
        return ((2 * c,),), ((-c * c + rng.choice([-1, 0, 0, 1, 2]),),)
    ia, ib = rng.randint(1, 3), rng.randint(1, 3)
    return (tuple(rand_poly(rng.randint(0, 1), 5) for _ in range(ia)), tuple(rand_poly(rng.randint(0, 2), 5) for _ in range(ib)))


def result(a, b):
    if rng.random() < 0.5:
        lhs = CLS['ulcd']['eval']([rng.randint(1, 4), rng.choice([-3, -1, 1, 2]), rng.randint(-2, 2), rng.choice([3, 5, 7])], +pi)
    else:
        lhs = CLS['rat']['eval'](([rng.randint(1, 4), rng.randint(1, 3)], [rng.randint(1, 5)], 0), +pi)
    conv = rng.choice([None, None, ('exp', (mpf(2), mpf(1))), ('poly2sympoly', (1.0, 2.0, 0.5))])
    return ((a, b), lhs, rng.randrange(24), conv)


class Session:
    def __init__(self, ident, abs_):
        rec.case(ident)
        set_prec(rng.choice([15, 20, 30, 50, 50, 100, 150]))
        self.m = enum_params.MITM(target_generator=lambda *a, **k: +pi, target_name='pi', postproc_funcs_filter=(0,), hashtable_prec=6,
                                  ab_poly_class=enum_poly_params.BasicEnumPolyParams, prec=mp.dps)
        self.m.filtered_params = [result(*ab) for ab in abs_]
        rec.log('start', n=len(abs_))

    def apply(self, kind, lst=()):
        rs = self.m.get_filtered_params()
        before = [cand(c) for c in rs]
        own = []
        if kind in ('white', 'black'):
            own = [class_of(c[0][0], c[0][1]) for c in rs]
        if kind == 'fast':
            r = rng.random()
            if r < 0.3:
                _, exc = call(self.m.filter_only_exp_convergence, True)
            elif r < 0.6:
                _, exc = call(self.m.filter_only_exp_convergence, print_surprising_nonexp_contfracs=False)
            else:
                _, exc = call(self.m.filter_only_exp_convergence)
        elif kind == 'white':
            if tuple(lst) == ('exp', 'super_exp', 'fast'):
                _, exc = call(self.m.filter_clicks_by_approach_type)
            else:
                _, exc = call(self.m.filter_clicks_by_approach_type, whitelist=list(lst))
        elif kind == 'black':
            _, exc = call(self.m.filter_clicks_by_approach_type, whitelist=rng.choice([None, []]), blacklist=list(lst))
        elif kind == 'both':
            _, exc = call(self.m.filter_clicks_by_approach_type, whitelist=['exp'], blacklist=['poly2sympoly'])
        else:
            _, exc = call(self.m.filter_clicks_by_approach_type, whitelist=rng.choice([None, []]), blacklist=rng.choice([None, []]))
        rec.log('filter', kind=kind, list=list(lst), before=before, own=own, after=[cand(c) for c in self.m.get_filtered_params()], exc=exc)
        return exc == '' or kind in ('both', 'neither')


NAMES = {'exp': 'exp', 'super_exp': 'super_exp', 'poly': 'poly2sympoly', 'mixed': 'mixed'}


def spec_session(i, t):
    s = Session('spec-%d' % i, [rng.choice(POOL[c]) for c in t[0]['x']])
    for e in t[1:]:
        if not s.apply(e['op'], [NAMES[x] for x in e['x']]):
            return


def list_session(i):
    s = Session('list-%d' % i, [rand_ab() if rng.random() < 0.6 else rng.choice(POOL[rng.choice(list(POOL))]) for _ in range(rng.randint(1, 8))])
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(['fast', 'fast', 'white', 'white', 'black', 'both', 'neither'])
        lst = {'white': rng.choice([('exp', 'super_exp', 'fast'), ('exp', 'super_exp'), ('poly2sympoly',), ('mixed', 'undefined'), ('exp',)]),
               'black': rng.choice([('exp',), ('poly2sympoly', 'undefined'), ('super_exp', 'mixed'), ('poly2sympoly', 'mixed', 'undefined')])}.get(k, ())
        if not s.apply(k, lst):
            return


def estimates(i):
    rec.case('class-%d' % i)
    set_prec(rng.choice([15, 20, 30, 50, 50, 100, 150]))
    for _ in range(6):
        a, b = rand_ab() if rng.random() < 0.75 else rng.choice(POOL[rng.choice(['exp', 'super_exp', 'poly', 'mixed'])])
        rec.log('estimate', a=polys(a), b=polys(b), c=class_of(a, b))


S = 6 if THOROUGH else 1
ts = [t for p in tests for t in load_tests(p)]
ts = [t for t in ts if t[0]['x']]
rng.shuffle(ts)
for i, t in enumerate(ts[:70 * S]):
    spec_session(i, t)
for i in range(90 * S):
    list_session(i)
for i in range(45 * S):
    estimates(i)
rec.close()
