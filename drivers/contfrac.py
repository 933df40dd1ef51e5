"""C01, C02: histories of real ContFrac objects and calls of the one-shot evaluators."""
from common import *

out, props, tests = args()
silence()
from mpmath import mpf
import mpmath
import cont_fracs
from cont_fracs import ContFrac, eval_contfrac, eval_contfrac_by_polys, eval_dec_contfrac_by_polys
rng = random.Random(SEED)
rec = Recorder(out)
DPS = 50


class Ev:
    def __init__(self, ident, a, b, avoid=True, logging=False, dps=50, flat=False):
        rec.case(ident)
        self.dps, self.logging, self.first = dps, logging, True
        self.clean = False
        set_prec(dps)
        fa, fb = (a[0], b[0]) if flat else (a, b)
        if rng.random() < 0.15:
            fa = tuple(map(tuple, fa)) if not flat else tuple(fa)
        self.x, exc = call(lambda: ContFrac(fa, fb, avoid_zero_b=avoid, target_val=mpf(3), logging=logging))
        n = self.x.get_num_of_executed_iters() if not exc else -1
        rec.log('new', a=polys(a), b=polys(b), avoid=avoid, logging=logging, n=n, exc=exc, dps=dps)
        self.ok = not exc

    def state(self):
        def f():
            p, q = self.x.get_p_q()
            return str(int(p)), str(int(q))
        pq, exc = call(f)
        val, _ = call(self.x.get_result)
        valid, _ = call(self.x.is_result_valid)
        n, _ = call(self.x.get_num_of_executed_iters)
        target = mpf(rng.randint(-300, 300)) / 8
        absolute = rng.random() < 0.7
        cmp, _ = call(self.x.compare_result, target, absolute) if absolute is not True else call(self.x.compare_result, target)
        return {'n': n if is_int(n) else -1, 'p': pq[0] if pq else '?', 'q': pq[1] if pq else '0', 'val': num(val),
                'valid': bool(valid), 'cmp': num(cmp), 'cmpabs': absolute, 'target': num(target), 'dps': self.dps}

    def mids(self, exc):
        """With logging: the mid-results on record since the fraction was last generated from scratch."""
        if exc or not self.logging or not self.clean or not hasattr(self.x, 'iter_matrices'):
            return {'mids': [], 'logged': -1}
        ms = self.x.iter_matrices
        try:
            ks = sorted({0, len(ms) - 1, len(ms) // 2, rng.randrange(len(ms))})
            return {'mids': [{'k': k, 'p': str(int(ms[k][0][0])), 'q': str(int(ms[k][1][0]))} for k in ks], 'logged': len(ms)}
        except Exception:
            return {'mids': [{'k': 0, 'p': '?', 'q': '0'}], 'logged': 0}

    def gen(self, k, fin=True, acc=None):
        kw = {} if fin else {'exec_finalize': False}
        if rng.random() < 0.05:
            kw['print_calc'] = True
        if acc is not None:
            kw['accuracy'] = acc
        _, exc = call(self.x.gen_iterations, k, **kw)
        self.clean = exc == ''
        rec.log('gen', k=k, fin=fin, acc=num(acc) if acc is not None else NONUM, exc=exc, first=self.first, **self.state(), **self.mids(exc))
        self.first = False

    def add(self, k, fin=True):
        kw = {} if fin else {'exec_finalize': False}
        _, exc = call(self.x.add_iterations, k, **kw)
        rec.log('add', k=k, fin=fin, exc=exc, **self.state(), **self.mids(exc))
        self.first = False

    def reinit(self, a, b):
        self.clean = False
        which = rng.random()
        kw = {'a_coeffs': a, 'b_coeffs': b}
        _, exc = call(self.x.reinitialize, **kw)
        rec.log('reinit', a=polys(a), b=polys(b), exc=exc)

    def reinit_one(self, a, b, which):
        """Only one family is given: the other one stays."""
        self.clean = False
        _, exc = call(self.x.reinitialize, **({'a_coeffs': a} if which == 'a' else {'b_coeffs': b}))
        rec.log('reinit', a=polys(a), b=polys(b), exc=exc)

    def info(self, kind, base, coeff):
        _, exc = call(self.x.set_approach_type_and_params, (kind, (base, coeff)))
        rec.log('info', type=kind, base=num(base), exc=exc)

    def probe(self, fast):
        self.clean = False
        if fast:
            _, exc = call(self.x.is_convergence_fast, iters=60, initial_cutoff=10, iters_step=10)
        else:
            _, exc = call(self.x.estimate_approach_type_and_params, iters=90, initial_cutoff=20, iters_step=10)
        (kind, prm), e2 = call(self.x.get_approach_type_and_params)
        base = NONUM
        if kind in ('exp', 'super_exp') and isinstance(prm, tuple):
            base = num(prm[0])
        rec.log('probe', exc=exc, type=str(kind), base=base, **self.state())
        return exc


def poly(deg, size):
    return [rng.randint(-size, size) for _ in range(deg + 1)]


def family(inter, deg, size):
    return [poly(rng.randint(0, deg), size) for _ in range(inter)]


def fraction():
    c = rng.random()
    if c < 0.25:       # a zero numerator soon, late or in one interlace only
        z = rng.choice([1, 2, 3, 5, 12, 40])
        b = [[z * rng.choice([-1, 1, 2]) * s for s in [1]][0:1] + [0]]
        s = rng.choice([-1, 1, 2])
        b = [[z * s, -s]]
        if rng.random() < 0.4:
            b = b + family(rng.randint(1, 2), 1, 5)
        return family(rng.randint(1, 2), 2, 6), b
    size = rng.choice([1, 3, 10, 10 ** 6, 10 ** 30])
    return family(rng.randint(1, 4), rng.randint(0, 4), size), family(rng.randint(1, 4), rng.randint(0, 4), size)


def replay(test, ident):
    """A behaviour TLC generated."""
    def P(x):
        return [[int(c) for c in p] for p in x]
    t0 = test[0]
    ev = Ev('tlc-%s' % ident, P(t0['a']), P(t0['b']), avoid=t0['n'] == 1, logging=rng.random() < 0.3, dps=rng.choice([15, 30, 50]))
    if not ev.ok:
        return
    for e in test[1:]:
        if e['op'] == 'gen':
            ev.gen(e['n'], e['fin'])
        elif e['op'] == 'add':
            ev.add(e['n'], e['fin'])
        elif e['op'] == 'reinit':
            ev.reinit(P(e['a']), P(e['b']))


def deep_case(i):
    a, b = fraction()
    flat = len(a) == 1 and len(b) == 1 and rng.random() < 0.5
    ev = Ev('deep-%d' % i, a, b, avoid=rng.random() < 0.8, logging=rng.random() < 0.1, dps=rng.choice([15, 30, 50, 100, 200]), flat=flat)
    if not ev.ok:
        return
    ev.gen(rng.choice([0, 1, 2, 5, 17, 60, 150, rng.randint(0, 400 if THOROUGH else 220)]), True)


def history_case(i):
    a, b = fraction()
    ev = Ev('history-%d' % i, a, b, avoid=rng.random() < 0.8, logging=rng.random() < 0.3, dps=rng.choice([15, 40, 60]))
    if not ev.ok:
        return
    stale = False
    for _ in range(rng.randint(4, 12)):
        op = rng.choices(['gen', 'add', 'reinit', 'one', 'info', 'probe'], [3, 4, 1.5, 0.7, 1.5, 0.25])[0]
        if stale and op in ('add', 'info'):
            op = 'gen'
        if op == 'gen':
            acc = rng.choice([None, None, mpf(10) ** -rng.randint(3, 60), mpf(10) ** -150])
            ev.gen(rng.choice([0, 1, 3, 8, 20, 45, 100]), rng.random() < 0.75, acc)
            stale = False
        elif op == 'add':
            ev.add(rng.choice([0, 1, 1, 2, 5, 13]), rng.random() < 0.75)
        elif op == 'reinit':
            a, b = fraction()
            ev.reinit(a, b)
            stale = True
        elif op == 'one':
            na, nb = fraction()
            w = rng.choice('ab')
            a, b = (na, b) if w == 'a' else (a, nb)
            ev.reinit_one(a, b, w)
            stale = True
        elif op == 'info':
            ev.info(rng.choice(['exp', 'exp', 'super_exp', 'poly2sympoly', 'undefined', 'mixed']),
                    mpf(rng.choice([1.125, 1.5, 2, 3.75, 10, 33.5, 1000])), mpf(rng.choice([0.001, 1, 500])))
        elif op == 'probe':
            if ev.probe(rng.random() < 0.5):
                return
            stale = True      # the order left behind is the evaluator's own business: start afresh


# ---- one-shot evaluators
def list_case(i):
    rec.case('list-%d' % i)
    dps = rng.choice([15, 30, 60])
    set_prec(dps)
    kind = rng.choice(['int', 'mpf', 'mpf'])
    n = rng.choice([1, 1, 2, 3, 5, 12, 30])
    conv = (lambda v: v) if kind == 'int' else (lambda v: mpf(v) / rng.choice([1, 1, 2, 8]))
    size = rng.choice([2, 3, 9, 10 ** 5])
    a = [conv(rng.randint(-size, size)) for _ in range(n)]
    c = rng.random()
    nob = False
    if c < 0.15:
        b, nob = None, True
    elif c < 0.55:
        b = [conv(rng.randint(-size, size)) for _ in range(n - 1)]
    elif c < 0.92:
        b = [conv(rng.randint(-size, size)) for _ in range(n)]
    else:
        b = [conv(rng.randint(-size, size)) for _ in range(n + rng.choice([1, 2, -2 if n > 2 else 3]))]
    val, exc = call(eval_contfrac, a, b) if not nob or rng.random() < 0.5 else call(eval_contfrac, a)
    rec.log('list', **{'as': [num(x) for x in a], 'bs': [num(x) for x in b] if b is not None else [], 'nob': nob,
                       'dps': 15 if kind == 'int' else dps, 'val': num(val), 'exc': exc})


def polys_case(i):
    rec.case('polys-%d' % i)
    dps = rng.choice([15, 30, 60])
    set_prec(dps)
    a, b = fraction() if rng.random() < 0.6 else (family(rng.randint(1, 3), 1, 2), family(rng.randint(1, 3), 1, 2))
    k = rng.choice([1, 2, 3, 4, 7, 15, 30])
    fa, fb = a, b
    if len(a) == 1 and rng.random() < 0.4:
        fa = a[0]
    if len(b) == 1 and rng.random() < 0.4:
        fb = b[0]
    if rng.random() < 0.5:
        big = max(abs(c) for p in a + b for c in p) > 1000
        if big:
            return
        val, exc = call(eval_contfrac_by_polys, fa, fb, k)
        rec.log('polys', fn='float', a=polys(a), b=polys(b), k=k, dps=15, val=num(val), exc=exc)
    else:
        big = max(abs(c) for p in a + b for c in p) > 10 ** 8
        if big:
            return
        val, exc = call(eval_dec_contfrac_by_polys, fa, fb, k)
        rec.log('polys', fn='dec', a=polys(a), b=polys(b), k=k, dps=dps, val=num(val), exc=exc)


n = 0
for path in tests:
    ts = load_tests(path)
    rng.shuffle(ts)
    for t in ts[:(6000 if THOROUGH else 500)]:
        n += 1
        replay(t, n)
S = 8 if THOROUGH else 1
if 'C01' in props:
    for i in range(180 * S):
        deep_case(i)
    for i in range(350 * S):
        list_case(i)
    for i in range(250 * S):
        polys_case(i)
for i in range((90 if 'C02' not in props else 260) * S):
    history_case(i)
rec.close()
