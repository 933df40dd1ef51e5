"""C09, C10, C11: sessions of a MITM object: builds, expansions, searches, refinements."""
from common import *
import contextlib
import io

out, props, tests = args()
silence()
import pickleshim
import cont_fracs
import enum_params
import enum_poly_params
import lhs_evaluators
from lhs_evaluators import LHS_TYPES
from postprocfuncs import EVALUATED_POSTPROC_FUNCS
from mpmath import mp, mpf, pi, e as econst, sqrt, zeta, isnormal
import progressbar
progressbar.progressbar = lambda it, **kw: it          # drawn bars only cost time
enum_params.progressbar.progressbar = progressbar.progressbar
rng = random.Random(SEED)
rec = Recorder(out)
KINDS = {'normal': enum_poly_params.BasicEnumPolyParams, 'indexed': enum_poly_params.IndexedParameterEnumPolyParams,
         'sparse': enum_poly_params.SparseParameterEnumPolyParams}
CLS = {'ulcd': LHS_TYPES['ulcd'], 'rat': LHS_TYPES['rationalfunc']}
BADX = {'kind': 'ulcd', 'p': ['0', '0', '0', '0']}
ALGEBRAIC = list(range(0, 12))
ALL = list(range(0, 24))


def ints(xs):
    return [str(int(x)) for x in xs]


def lhs_desc(o):
    try:
        p = o.get_params()
        if isinstance(o, CLS['ulcd']['eval']):
            return {'kind': 'ulcd', 'p': ints(p)}, len(p) == 4
        n, d, k = p
        return {'kind': 'rat', 'n': ints(n), 'd': ints(d), 'k': str(int(k))}, True
    except Exception:
        return BADX, False


def conv_desc(c):
    if c is None:
        return {'type': 'none', 'base': num(0)}, True
    try:
        t, p = c
        return {'type': str(t), 'base': num(p[0] if isinstance(p, (tuple, list)) and p else p)}, True
    except Exception:
        return {'type': '?', 'base': num(0)}, False


def cand_desc(c):
    try:
        ab, lhs, f, conv = c
        x, ok = lhs_desc(lhs)
        cv, ok2 = conv_desc(conv)
        return {'a': polys(ab[0]), 'b': polys(ab[1]), 'f': int(f), 'x': x, 'val': num(lhs.get_val()), 'conv': cv,
                't': num(lhs.get_target_const()), 'ok': ok and ok2}
    except Exception:
        return {'a': [], 'b': [], 'f': -1, 'x': BADX, 'val': NONUM, 'conv': {'type': '?', 'base': num(0)}, 't': NONUM, 'ok': False}


def dump(m):
    r = []
    for k, es in m.dec_hashtable.items():
        if k == 'parameters':
            continue
        try:
            r.append({'k': str(k), 'es': [{'a': polys(ab[0]), 'b': polys(ab[1]), 'f': int(f)} for ab, f in es]})
        except Exception:
            r.append({'k': str(k), 'es': [{'a': [], 'b': [], 'f': -1}]})
    return r


def crange(w, lo=5):
    a = rng.randint(-lo, lo)
    return [a, a + rng.randint(1, w)]


def size(r):
    n = 1
    for p in r:
        for c in p:
            n *= max(0, c[1] - c[0])
    return n


class Session:
    def __init__(self, ident, dps=None, acc=None, funcs=None, iters=None, kind='normal', frac=True, exp=True, target=None):
        rec.case(ident)
        self.dps = dps or rng.choice([20, 30, 50])
        self.acc = acc or rng.choice([2, 3, 6, 10])
        self.funcs = funcs if funcs is not None else rng.sample(ALL, rng.choice([1, 1, 2, 3]))
        self.iters = iters or rng.choice([1, 2, 3, 10, 25, 40])
        self.kind, self.frac, self.exp = kind, frac, exp
        self.na, self.nb = (3, 3) if kind != 'sparse' else (rng.choice([2, 3, 3, 4]), rng.choice([2, 3, 3, 4]))
        set_prec(self.dps)
        self.t = target or self.pick_target()
        gen = lambda *a, **k: self.t

        def make():
            return enum_params.MITM(target_generator=gen, target_name='t', postproc_funcs_filter=tuple(self.funcs),
                                    trunc_integer=frac, hashtable_prec=self.acc, ab_poly_class=KINDS[kind],
                                    ab_poly_special_params=(self.na, self.nb) if kind == 'sparse' else None,
                                    enum_only_exp_conv=exp, num_of_iterations=self.iters, prec=self.dps)
        self.gen = gen
        self.m, exc = call(make)
        rec.log('new', acc=self.acc, dps=self.dps, iters=self.iters, funcs=self.funcs, frac=frac, kind=kind, na=self.na, nb=self.nb,
                exp=exp, exc=exc)

    def pick_target(self):
        return rng.choice([lambda: +pi, lambda: +econst, lambda: sqrt(mpf(2)), lambda: zeta(mpf(3)), lambda: sqrt(mpf(5)),
                           lambda: mpf(rng.randint(1, 400)) / rng.choice([8, 64]), lambda: 40 * pi, lambda: -econst])()

    def dump(self):
        d, exc = call(dump, self.m)
        return d if exc == '' else [{'k': '?', 'es': []}]

    def build(self, ra, rb, named=True, **kw):
        if named:
            self.m.dec_hashtable['parameters'] = {'x': 1}
        _, exc = call(self.m.build_hashtable, ra, rb, **kw)
        rec.log('build', ra=ra, rb=rb, dump=self.dump(), exc=exc,
                named=not named or call(self.m.dec_hashtable.get, 'parameters')[0] == {'x': 1})
        return exc == ''

    def redefine(self, acc, funcs, kind=None, frac=None):
        self.acc, self.funcs = acc, list(funcs)
        self.frac = self.frac if frac is None else frac
        kind = kind or self.kind
        sp = None
        if kind == 'sparse':
            sp = (self.na, self.nb)
        self.kind = kind
        _, exc = call(self.m.redefine_settings, target_generator=self.gen, target_name='t', postproc_funcs_filter=tuple(funcs),
                      trunc_integer=self.frac, hashtable_prec=acc, ab_poly_class=KINDS[kind], ab_poly_special_params=sp, prec=self.dps)
        rec.log('redefine', acc=acc, funcs=list(funcs), kind=kind, na=self.na, nb=self.nb, frac=self.frac, dump=self.dump(), exc=exc,
                acc2=self.m.dec_hashtable.accuracy)
        return exc == ''

    def reset(self):
        _, exc = call(self.m.reset_hashtable)
        rec.log('reset', dump=self.dump(), exc=exc)

    def cands(self):
        r, exc = call(self.m.get_filtered_params)
        return r if exc == '' else []

    def search(self, lhs):
        kind, params, fields = lhs
        _, exc = call(self.m.find_clicks, CLS[kind], params)
        cs = self.cands()
        cands = [cand_desc(c) for c in cs[:4000]]
        alone = True
        if exc == '' and len(cs) > 1:
            i = rng.randrange(len(cs))
            try:
                cs[i][1].flip_sign()
                now = [cand_desc(c)['x'] for c in cs[:4000]]
                alone = all(now[j] == cands[j]['x'] for j in range(len(cands)) if j != i)
                cs[i][1].flip_sign()
                again = [cand_desc(c)['x'] for c in cs[:4000]]
                alone = alone and again == [c['x'] for c in cands]
            except Exception:
                alone = False
        rec.log('search', kind=kind, t=num(self.t), cands=cands, alone=alone, dump=self.dump(), exc=exc, **fields)
        return exc == ''

    def refine(self, mode, N, iters):
        before = [cand_desc(c) for c in self.cands()]
        fn = self.m.refine_clicks_with_const_num_of_iters if mode == 'const' else self.m.refine_clicks_with_convergence_info
        _, exc = call(fn, accuracy=N, num_of_iterations=iters, print_clicks=rng.random() < 0.1)
        after = [cand_desc(c) for c in self.cands()]
        rec.log('refine', mode=mode, N=N, iters=iters, t=num(self.t), before=before, after=after, exc=exc)
        return exc == ''

    def limit(self, n):
        cs = self.cands()
        if len(cs) > n:
            idx = sorted(rng.sample(range(len(cs)), n))
            self.m.filtered_params = [cs[i] for i in idx]


def rand_range(limit, inter=None, deg=3):
    while True:
        k = inter or rng.choice([1, 1, 1, 2])
        r = [[crange(3) for _ in range(rng.randint(1, deg))] for _ in range(k)]
        if size(r) <= limit:
            return r


def ab_ranges(kind='normal', limit=40):
    while True:
        k = 6 if kind != 'sparse' else 4
        ra, rb = rand_range(k, deg=3), rand_range(k, deg=3)
        if kind == 'sparse':
            ra, rb = rand_range(3, 1, 2), rand_range(3, 1, 2)
        if size(ra) * size(rb) <= limit:
            return ra, rb


def shift_range(r):
    """An overlapping range."""
    r = [[list(c) for c in p] for p in r]
    for p in r:
        for c in p:
            if rng.random() < 0.4:
                d = rng.choice([-1, 1])
                c[0] += d
                c[1] += d
            elif rng.random() < 0.3:
                c[1] += 1
    return r


def rand_lhs(limit=120):
    if rng.random() < 0.5:
        while True:
            rs, fields, n = [], [], 1
            for j in range(4):
                if rng.random() < 0.5:
                    k = rng.randint(1, 2 if j < 3 else 3)
                    rs.append(k)
                    fields.append({'t': 'n', 'v': [k]})
                    n *= 2 * k + 1 if j < 3 else k
                else:
                    lo = rng.randint(-2, 1)
                    v = [lo, lo + rng.randint(1, 4)]
                    rs.append(v)
                    fields.append({'t': 'pair', 'v': v})
                    n *= v[1] - v[0]
            if n <= limit:
                return 'ulcd', rs, dict(ranges=fields, num=[], den=[], force=False)
    while True:
        nr = [[lo, lo + rng.randint(1, 4)] for lo in (rng.randint(-2, 1) for _ in range(rng.randint(1, 3)))]
        dr = [[lo, lo + rng.randint(1, 3)] for lo in (rng.randint(-2, 1) for _ in range(rng.randint(1, 2)))]
        if size([nr]) * size([dr]) <= limit:
            break
    force = rng.random() < 0.3
    return 'rat', [nr, dr, force], dict(ranges=[], num=nr, den=dr, force=force)


def near_lhs():
    """A small range around x + k, 1/x and the like."""
    if rng.random() < 0.4:
        v = [[-1, 2], [-1, 2], [-1, 2], rng.choice([1, 2])]
        return 'ulcd', v, dict(ranges=[{'t': 'pair', 'v': x} if isinstance(x, list) else {'t': 'n', 'v': [x]} for x in v],
                               num=[], den=[], force=False)
    nr, dr = rng.choice([([[-1, 3], [-2, 3]], [[-2, 3]]), ([[-1, 2], [-1, 2]], [[-1, 2], [-1, 2]]), ([[0, 2], [1, 2], [0, 2]], [[1, 3], [0, 1]])])
    return 'rat', [nr, dr, False], dict(ranges=[], num=nr, den=dr, force=False)


# ---------------------------------------------------------------------------------------------------------------
def spec_session(i, t):
    """A behaviour of the specification: its builds, changes of settings, searches and refinements in order."""
    kind = rng.choice(['normal'] * 4 + ['indexed'])
    accs = {1: rng.choice([1, 2, 3]), 2: rng.choice([3, 4, 6, 8])}
    f01 = rng.sample(ALL, 2) if rng.random() < 0.7 else rng.sample(ALGEBRAIC, 2)
    base = ab_ranges(kind, 16 if 'C09' in props else 12)
    ranges = {1: base, 2: (shift_range(base[0]), shift_range(base[1])), 3: (base[0], shift_range(base[1]))}
    s = Session('spec-%d' % i, acc=accs[t[0]['x']], funcs=[f01[0]], kind=kind, frac=rng.random() < 0.8, exp=rng.random() < 0.6,
                iters=rng.choice([2, 10, 25]), dps=rng.choice([20, 30]))
    for e in t[1:]:
        if e['op'] == 'build':
            ok = s.build(*ranges[e['x']])
        elif e['op'] == 'redefine':
            ok = s.redefine(accs[e['x']], [f01[f] for f in e['f']])
        elif e['op'] == 'search' and props != ['C09']:
            ok = s.search(near_lhs() if rng.random() < 0.5 else rand_lhs(60))
            if 'C11' in props:
                s.limit(12)
        elif e['op'] == 'refine' and 'C11' in props:
            ok = s.refine('const', e['x'] * rng.choice([1, 1, 3]), rng.choice([5, 30, 60]))
        elif e['op'] == 'reset':
            s.reset()
            ok = True
        else:
            continue
        if not ok:
            return


def table_session(i):
    """C09: builds and expansions."""
    kind = rng.choice(['normal', 'normal', 'normal', 'indexed', 'sparse'])
    s = Session('table-%d' % i, kind=kind, exp=rng.random() < 0.7, frac=rng.random() < 0.8)
    r = ab_ranges(kind, 40)
    if not s.build(*r):
        return
    for _ in range(rng.randint(0, 4)):
        c = rng.random()
        if c < 0.3:
            fs = list(s.funcs)
            if rng.random() < 0.5:
                fs.append(rng.choice([f for f in ALL if f not in fs]))
            else:
                fs = rng.sample(ALL, rng.choice([1, 2]))
            # (the sparse kind is for interlaces of equally many coefficients)
            even = all(len(p) == len(x[0]) for x in r for p in x) and max(len(x[0]) for x in r) <= 2
            if s.kind == 'sparse' and not even:
                return
            if even and rng.random() < 0.4:
                s.na, s.nb = rng.choice([2, 3, 4]), rng.choice([2, 3, 4])
            change = rng.random() < 0.2
            ok = s.redefine(s.acc if rng.random() < 0.4 else rng.choice([2, 3, 5, 8]), fs,
                            kind=rng.choice([None, None, 'normal', 'indexed'] + ['sparse'] * (2 * even)), frac=s.frac != change)
            if change:
                s.reset()
        elif c < 0.4:
            ok = s.build(*r)
        elif c < 0.47:
            s.reset()
            ok = True
        else:
            r2 = (shift_range(r[0]) if rng.random() < 0.7 else r[0], shift_range(r[1]) if rng.random() < 0.7 else r[1])
            if size(r2[0]) * size(r2[1]) > 60:
                continue
            r = r2
            ok = s.build(*r)
        if not ok:
            return


def near_digits(i):
    """C09: accuracies up and down around fractions whose digits agree for a while."""
    s = Session('digits-%d' % i, acc=rng.choice([1, 2]), funcs=[0], iters=12, dps=30, exp=False)
    big = ab_ranges('normal', 40)
    accs = [rng.choice([1, 2, 3, 6]) for _ in range(4)]
    for a in accs:
        part = ([[[lambda c: [rng.randint(c[0], c[1] - 1)] * 2][0](c) for c in p] for p in big[0]],
                [[[rng.randint(c[0], c[1] - 1)] * 2 for c in p] for p in big[1]])
        for side in part:
            for p in side:
                for c in p:
                    c[1] += rng.choice([1, 1, 2])
        if size(part[0]) * size(part[1]) <= 60 and not s.build(*part):
            return
        if not s.redefine(a, [0] if rng.random() < 0.7 else [0, 1]):
            return
    s.build(*big)


def search_session(i):
    """C10."""
    kind = rng.choice(['normal'] * 4 + ['indexed', 'sparse'])
    s = Session('search-%d' % i, kind=kind, acc=rng.choice([1, 2, 2, 3, 4]), exp=rng.random() < 0.6, frac=rng.random() < 0.75,
                iters=rng.choice([3, 10, 25]), dps=rng.choice([20, 30]), funcs=rng.sample(ALL, rng.choice([1, 2, 3])))
    if not s.build(*ab_ranges(kind, 40)):
        return
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.3:
            # whether integers are dropped may change with the settings; what the table holds stays where it is
            frac = s.frac if rng.random() < 0.6 else not s.frac
            changed = frac != s.frac
            if not s.redefine(rng.choice([1, 2, 3, 5]), s.funcs, frac=frac):
                return
            if changed and rng.random() < 0.5 and not s.search(rand_lhs(60)):
                return
            if changed:
                s.reset()
            if not s.build(*ab_ranges(s.kind, 20)):
                return
        if not s.search(rand_lhs() if rng.random() < 0.7 else near_lhs()):
            return


def tail_value(a, b, n=400):
    """The fraction's value far out, with digits to spare."""
    with mp.workdps(mp.dps + 20):
        x = mpf(0)
        for i in range(n, 0, -1):
            bi = sum(c * i ** k for k, c in enumerate(b[i % len(b)]))
            ai = sum(c * (i - 1) ** k for k, c in enumerate(a[(i - 1) % len(a)]))
            an = sum(c * i ** k for k, c in enumerate(a[i % len(a)]))
            x = bi / (an + x)
        a0 = a[0][0]
        return a0 + x


SLOW = [(((1,),), ((1,),)), (((1, 1),), ((0, 1),)), (((1, 2),), ((0, 0, 1),)), (((3,),), ((-1,),)), (((2,),), ((1, 2, 1),)),
        (((1,), (2,)), ((1,),)), (((0, 1),), ((1, 1),)), (((3, 3),), ((0, -1, -2),)), (((2, 3, 1),), ((1, 1),)), (((1, 1),), ((1,),)),
        (((1,),), ((20,),)), (((1,),), ((150,),)), (((-1,),), ((2,),)), (((-4, -1),), ((1, 1),)), (((1, 2),), ((1, 2, 1),))]


def info_of(kind):
    from mpmath import mpf
    if kind == 'slow':
        return ('exp', (mpf(rng.choice(['1.05', '1.2', '1.5'])), mpf(1)))
    if kind == 'fast':
        return ('exp', (mpf(rng.choice(['4', '100', '1e6'])), mpf(1)))
    return None


def refine_session(i):
    """C11: candidates around a planted identity, refined again and again."""
    set_prec(rng.choice([30, 50, 70]))
    dps = mp.dps
    ab = rng.choice(SLOW)
    a, b = ab
    if rng.random() < 0.35:
        a = (tuple(rng.randint(1, 5) for _ in range(rng.randint(1, 2))),)
        b = (tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 2))),)
        a = a[:1]
    if rng.random() < 0.3:
        a = tuple(tuple(-c for c in p) for p in a)
    f = rng.choice(ALL) if rng.random() < 0.5 else rng.choice([0, 0, 1, 2, 10])
    try:
        v = tail_value(a, b)
        t = EVALUATED_POSTPROC_FUNCS[f](v)
        t = +t
        if not isnormal(t) or abs(t) > 1e6 or abs(t) < 1e-6:
            raise ZeroDivisionError
    except (ZeroDivisionError, TypeError, ValueError):
        return
    if rng.random() < 0.3:
        t = t + rng.choice([-1, 1]) * mpf(10) ** -rng.randint(2, 14)       # a near miss
    if rng.random() < 0.5:
        t = 1 / t if rng.random() < 0.5 else t + rng.randint(-3, 3)
    # a target that is (nearly) rational makes left-hand sides vanish or be undefined there
    if t == 0 or min(abs(t * 720 - mp.nint(t * 720)), abs(1 / t * 720 - mp.nint(1 / t * 720))) < 1e-9:
        return
    funcs = list({f, rng.choice(ALL)})
    s = Session('refine-%d' % i, dps=dps, acc=rng.choice([1, 2, 5, 8]), funcs=funcs, iters=rng.choice([10, 30]), exp=False,
                frac=rng.random() < 0.8, target=t)
    ra = [[[c - rng.randint(0, 1), c + 1 + rng.randint(0, 1)] for c in p] for p in a]
    rb = [[[c, c + 1 + (rng.random() < 0.3)] for c in p] for p in b]
    if size(ra) * size(rb) > 40:
        ra = [[[c, c + 1] for c in p] for p in a]
    _, exc = call(s.m.build_hashtable, ra, rb)
    _, exc2 = call(s.m.find_clicks, *(lambda l: (CLS[l[0]], l[1]))(near_lhs() if rng.random() < 0.7 else rand_lhs()))
    if exc or exc2:
        return
    cs = s.cands()
    if rng.random() < 0.4:          # fractions that end, or divide by zero, among them
        for abz in [(((1,),), ((-3, 1),)), (((1, 1),), ((-20, 1),)), (((0,),), ((1, 1),)), (((0, 0),), ((2, 1),))]:
            if rng.random() < 0.5 and cs:
                k = rng.randrange(len(cs))
                c = cs[k]
                cs = cs[:k] + [(abz, type(c[1])(c[1]), c[2], None)] + cs[k:]
    keep = [c for c in cs if c[0] == (a, b)][:6]
    rest = [c for c in cs if c[0] != (a, b)]
    rng.shuffle(rest)
    chosen = keep + rest[:10]
    order = {id(c): k for k, c in enumerate(cs)}
    chosen.sort(key=lambda c: order[id(c)])
    infos = rng.random() < 0.5
    if infos:
        chosen = [(c[0], c[1], c[2], info_of(rng.choice(['slow', 'fast', None]))) for c in chosen]
    if rng.random() < 0.3:
        for c in chosen:            # already moved about
            if rng.random() < 0.5:
                c[1].flip_sign()
            if rng.random() < 0.5:
                c[1].add_int(rng.randint(-3, 3))
    s.m.filtered_params = chosen
    N = rng.choice([1, 2, 3, 5])
    for _ in range(rng.randint(1, 4)):
        mode = 'info' if infos and rng.random() < 0.8 else rng.choice(['const', 'const', 'info'])
        iters = rng.choice([20, 60, 150]) if mode == 'const' else rng.choice([30, 150, 400])
        if not s.refine(mode, N, iters):
            return
        N = max(1, min(dps - 8, N + rng.choice([0, 0, 1, 5, 12, -1])))


S = 8 if THOROUGH else 1
ts = [t for p in tests for t in load_tests(p)]
ts = [t for t in ts if any(e['op'] == 'build' for e in t)]
rng.shuffle(ts)
if 'C10' in props:
    ts = [t for t in ts if any(e['op'] == 'search' for e in t)]
if 'C11' in props:
    ts = [t for t in ts if any(e['op'] == 'refine' for e in t)]
for i, t in enumerate(ts[:{'C09': 60, 'C10': 60, 'C11': 40}.get(props[0], 60) * S]):
    spec_session(i, t)
if 'C09' in props:
    for i in range(90 * S):
        table_session(i)
    for i in range(60 * S):
        near_digits(i)
if 'C10' in props:
    for i in range(120 * S):
        search_session(i)
if 'C11' in props:
    for i in range(160 * S):
        refine_session(i)
rec.close()
