"""C19: the post-processing functions at arguments of every size, around their zeros, poles and domain ends."""
from common import *

out, props, tests = args()
silence()
import postprocfuncs as pp
import mpmath
from mpmath import mpf, mp
rng = random.Random(SEED)
rec = Recorder(out)
FUNCS = pp.EVALUATED_POSTPROC_FUNCS
BYNAME = [eval(n, vars(pp)) for n in pp.POSTPROC_FUNCS]
N = 24


def same(a, b):
    return num(a) == num(b)


def table():
    rec.case('table')
    rec.log('table', count=len(FUNCS), names=len(pp.POSTPROC_FUNCS), distinct=len(set(pp.POSTPROC_FUNCS)) == len(pp.POSTPROC_FUNCS),
            pairs=[list(p) for p in pp.INVERSE_POSTPROC_PAIRS], latex=set(pp.POSTPROC_FUNCS_LATEX) == set(pp.POSTPROC_FUNCS))


def at(ident, x, dps):
    rec.case(ident)
    r = []
    for f in range(N):
        v, exc = call(lambda: FUNCS[f](x))
        b, exc2 = call(lambda: BYNAME[f](x))
        n = num(v)
        if abs(n['e']) > 2 * 10 ** 9:                   # (an exponent TLC cannot hold)
            n['e'] = 2 * 10 ** 9 if n['e'] > 0 else -2 * 10 ** 9
        r.append({'val': n, 'exc': exc, 'byname': exc2 == exc and same(v, b)})
    rec.log('call', x=num(x), dps=dps, after=mp.dps, r=r)


def precision():
    d = rng.choice([15, 15, 20, 30, 30, 50, 75])
    set_prec(d)
    return d


def near(v, dps):
    """v at the working precision, or moved by some units or by a small relative amount"""
    v = +v
    k = rng.randint(0, 3)
    if k == 0:
        return v
    if k == 1:
        return v * (1 + rng.choice([-1, 1]) * mpf(2) ** -(mp.prec - rng.randint(1, 4)))
    return v * (1 + rng.choice([-1, 1]) * mpf(10) ** -rng.randint(2, dps - 1))


def special(dps):
    k = rng.randint(0, 9)
    if k == 0:
        return near(rng.choice([mpf(1), mpf(-1), mp.e, mp.pi, mp.phi]), dps)
    if k == 1:
        return near(rng.randint(-40, 40) * mp.pi / 2, dps) or mpf(0)
    if k == 2:
        return rng.choice([-1, 1]) * mpf(rng.randint(1, 10 ** 6)) * mpf(10) ** -rng.randint(3, 2 * dps)
    if k == 3:
        return rng.choice([-1, 1]) * mpf(rng.randint(1, 10 ** 6)) / 7 * mpf(10) ** rng.randint(0, 60)
    if k == 4:
        return mpf(rng.randint(0, 60)) ** 2 / 4 ** rng.randint(0, 3)
    if k == 5:
        return mpf(rng.randint(-19999, 25000)) / rng.choice([1, 3])
    if k == 6:
        return mpf(rng.randint(-10, 10))
    if k == 7:
        return mpf(2) ** rng.randint(-300, 300) * rng.choice([1, -1, 3])
    return mpf(rng.uniform(-8, 8)) + mpf(rng.random()) * mpf(10) ** -16


table()
for path in tests:
    grid = load_tests(path)
    rng.shuffle(grid)
    for k, t in enumerate(grid[:400 if THOROUGH else 70]):
        dps = precision()
        at('gen-%d' % k, mpf(int(t['n'])) / int(t['d']), dps)
for k in range(2000 if THOROUGH else 150):
    dps = precision()
    at('rnd-%d' % k, special(dps), dps)
for k, x in enumerate(['inf', '-inf', 'nan', '0', '1', '-1', '1e-320', '1e150', '-1e150', '-100000', '100000', '4', '2']):
    for dps in (15, 40):
        set_prec(dps)
        at('edge-%s-%d' % (x, dps), mpf(x), dps)
rec.close()
