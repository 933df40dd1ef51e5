"""C05, C06, C12: left-hand-side objects, their enumerators and the uniqueness filter."""
from common import *
import copy

out, props, tests = args()
silence()
import pickleshim
import enum_params
import lhs_evaluators
from lhs_evaluators import LHS_TYPES
from mpmath import mp, mpf, pi, e as econst, sqrt, zeta
rng = random.Random(SEED)
rec = Recorder(out)
CLS = {'ulcd': LHS_TYPES['ulcd']['eval'], 'rat': LHS_TYPES['rationalfunc']['eval']}
ENUM = {'ulcd': LHS_TYPES['ulcd']['enum'], 'rat': LHS_TYPES['rationalfunc']['enum']}


def ints(xs):
    r = []
    for x in xs:
        if is_int(x):
            r.append(str(x))
        elif x == int(x):
            r.append(str(int(x)))
        else:
            raise ValueError
    return r


def describe(o):
    """(description, wellformed) of the parameters an object reports."""
    kind = 'ulcd' if isinstance(o, CLS['ulcd']) else 'rat'
    try:
        p = o.get_params()
        if kind == 'ulcd':
            x = {'kind': kind, 'p': ints(p)}
            return x, len(x['p']) == 4
        n, d, k = p
        return {'kind': kind, 'n': ints(n), 'd': ints(d), 'k': ints([k])[0]}, True
    except Exception:
        return ({'kind': kind, 'p': ['0', '0', '0', '0']} if kind == 'ulcd' else
                {'kind': kind, 'n': [], 'd': [], 'k': '0'}), False


def build(x):
    if x['kind'] == 'ulcd':
        return tuple(int(c) for c in x['p'])
    seq = rng.choice([list, tuple])
    return seq(int(c) for c in x['n']), seq(int(c) for c in x['d']), int(x['k'])


def targets():
    return rng.choice([lambda: +pi, lambda: +econst, lambda: sqrt(mpf(2)), lambda: zeta(mpf(3)), lambda: -pi,
                       lambda: mpf(1) / 1000 + sqrt(mpf(5)), lambda: mpf(rng.randint(-6, 6) or 1) / rng.choice([1, 2, 4]),
                       lambda: 1000 * pi, lambda: pi / 1000])()


def obj_history(ident, events):
    rec.case(ident)
    dps = rng.choice([15, 30, 50, 100])
    set_prec(dps)
    t = targets()
    objs = []

    def log(op, i, n='0', exc='', **kw):
        os_ = []
        for o in objs:
            x, ok = describe(o)
            v, e = call(o.get_val)
            c, _ = call(o.get_target_const)
            os_.append({'x': x, 'ok': ok, 'val': num(v) if e == '' else num(None), 't': num(c)})
        rec.log(op, i=i + 1, n=n, t=num(t), dps=dps, objs=os_, exc=exc, **kw)
    for ev in events:
        op = ev['op']
        i = ev.get('i', 0) % max(1, len(objs))
        if op == 'new':
            o, exc = call(CLS[ev['x']['kind']], build(ev['x']), t)
            if exc == '':
                objs.append(o)
            log('new', 0, exc=exc, x=ev['x'])
            if exc:
                return
        elif op == 'flip':
            _, exc = call(objs[i].flip_sign)
            log(op, i, exc=exc)
        elif op == 'add':
            _, exc = call(objs[i].add_int, int(ev['n']))
            log(op, i, n=str(ev['n']), exc=exc)
        elif op == 'poly':
            if not hasattr(type(objs[i]), 'numerator_p_symbolic') or not hasattr(type(objs[i]), 'denominator_p_symbolic'):
                continue
            sym, exc = call(lambda: [[str(int(c)) for c in reversed(p.all_coeffs())] for p in
                                     (objs[i].numerator_p_symbolic, objs[i].denominator_p_symbolic)])
            log(op, i, exc=exc, sym=sym if exc == '' else [[], []])
        elif op == 'reinit':
            _, exc = call(objs[i].reinit_params, build(ev['x']))
            log(op, i, exc=exc, x=ev['x'])
            if exc:
                return
        elif op == 'canon':
            _, exc = call(objs[i].canonalize_params)
            a = describe(objs[i])
            v = num(objs[i].get_val())
            c2 = copy.copy(objs[i])
            call(objs[i].canonalize_params)
            log(op, i, exc=exc, again=describe(objs[i]) == a and num(objs[i].get_val()) == v)
        elif op == 'degenerate':
            r, exc = call(objs[i].is_degenerate)
            log(op, i, exc=exc, res=str(bool(r)))
        elif op == 'latex':
            _, exc = call(objs[i].get_latex_exp, 'x')
            log(op, i)
        elif op == 'show':
            _, exc = call(repr, objs[i])
            log(op, i, exc=exc)
        elif op == 'copy':
            o, exc = call(type(objs[i]), objs[i])
            if exc == '':
                objs.append(o)
            log(op, i, exc=exc)
            if exc:
                return


def coeffs(maxlen, span, nonzero=False):
    while True:
        n = rng.randint(1, maxlen)
        p = [rng.randint(-span, span) if rng.random() < 0.8 else 0 for _ in range(n)]
        if any(p) or not nonzero:
            return p


def pmul(p, q):
    r = [0] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            r[i + j] += x * y
    return r


def random_lhs(allow_zero=True):
    if rng.random() < 0.45:
        nz = lambda m: rng.choice([-1, 1]) * rng.randint(1, m)
        m = rng.choice([2, 5, 40])
        u, l, c, d = rng.randint(-m, m), nz(m), rng.randint(-m, m), nz(m)
        if rng.random() < 0.3:
            u = rng.choice([l, -l])
        if rng.random() < 0.15:
            u, l = rng.choice([(1, -1), (-1, 1), (1, 1), (-1, -1), (2, -2)])
        return {'kind': 'ulcd', 'p': [str(x) for x in (u, l, c, d)]}
    m = rng.choice([1, 3, 12])
    n, d = coeffs(4, m, nonzero=not allow_zero or rng.random() < 0.9), coeffs(4, m, nonzero=True)
    c = rng.random()
    if c < 0.35:
        g = coeffs(3, 4, nonzero=True)
        n, d = pmul(n, g), pmul(d, g)
    elif c < 0.5:
        k = rng.choice([0, 1, -1, 2, -3])
        n = [k * x for x in d]
        if rng.random() < 0.5:
            d = [2 * x for x in d]
    if rng.random() < 0.2:
        n, d = n + [0] * rng.randint(0, 2), d + [0] * rng.randint(0, 1)
    return {'kind': 'rat', 'n': [str(x) for x in n], 'd': [str(x) for x in d], 'k': str(rng.choice([0, 0, 0, 1, -2, 7, -10 ** 12]))}


def random_history(i):
    evs = [{'op': 'new', 'x': random_lhs()}]
    for _ in range(rng.randint(1, 9)):
        op = rng.choice(['flip', 'flip', 'add', 'add', 'canon', 'canon', 'degenerate', 'copy', 'latex', 'show', 'reinit', 'poly'])
        if op == 'reinit':
            x = random_lhs()
            while x['kind'] != evs[0]['x']['kind']:
                x = random_lhs()
            evs.append({'op': op, 'i': rng.randint(0, 2), 'x': x})
            continue
        if op == 'copy' and sum(e['op'] == 'copy' for e in evs) >= 2:
            op = 'flip'
        evs.append({'op': op, 'i': rng.randint(0, 2), 'n': rng.choice([0, 1, -1, 2, -3, 17, -10 ** 9, 10 ** 15])})
    obj_history('obj-%d' % i, evs)


def spec_history(i, t):
    """A behaviour of the specification, with copies taken along the way."""
    evs = []
    for e in t:
        evs.append(dict(e))
        if rng.random() < 0.15:
            evs.append({'op': 'copy'})
            evs[-1]['i'] = 0
        if rng.random() < 0.15:
            evs.append({'op': 'degenerate', 'i': rng.randint(0, 2)})
        if rng.random() < 0.15:
            evs.append({'op': 'poly', 'i': 0})
    if sum(e['op'] == 'copy' for e in evs) > 3:
        evs = list(t)
    for e in evs[1:]:
        e.setdefault('i', rng.choice([0, 0, 1]))
    obj_history('spec-%d' % i, evs)


# ---------------------------------------------------------------------------------------------------------------
def rand_range(isd, width):
    t = rng.choice(['n', 'pair', 'pair', 'triple', 'set'])
    if t == 'n':
        v = [rng.randint(0 if not isd else 1, max(1, width // 2))]
        return {'t': t, 'v': v}, v[0]
    if t == 'pair':
        lo = rng.randint(-3, 3)
        v = [lo, lo + rng.randint(0 if rng.random() < 0.1 else 1, width)]
        return {'t': t, 'v': v}, rng.choice([list, tuple])(v)
    if t == 'triple':
        s = rng.choice([1, 2, 3, -1, -2])
        lo = rng.randint(-3, 3)
        v = [lo, lo + (1 if s > 0 else -1) * rng.randint(1, width), s]
        return {'t': t, 'v': v}, rng.choice([list, tuple])(v)
    n = rng.choice([1, 4, 5])
    vals = rng.sample(range(-6, 7), n)
    py = rng.choice([list, tuple, set])(vals)
    if n == 1 and rng.random() < 0.5:
        vals = [rng.randint(-4, 4)]
        py = range(vals[0], vals[0] + 1)
    return {'t': t, 'v': list(vals)}, py


def enum_case(i):
    rec.case('enum-%d' % i)
    dps = rng.choice([15, 30, 60])
    set_prec(dps)
    t = targets()
    if rng.random() < 0.5:
        kind = 'ulcd'
        rs = [rand_range(j == 3, rng.choice([2, 4, 6])) for j in range(4)]
        params = rng.choice([list, tuple])(r[1] for r in rs)
        fields = dict(ranges=[r[0] for r in rs], num=[], den=[], force=False)
    else:
        kind = 'rat'
        while True:
            def poly():
                return [[lo, lo + rng.randint(1, 4)] for lo in (rng.randint(-3, 2) for _ in range(rng.randint(1, 3)))]
            nr, dr = poly(), poly()
            size = 1
            for c in nr + dr:
                size *= c[1] - c[0]
            if size <= 300:
                break
        force = rng.random() < 0.5
        params = [nr, dr, force]
        fields = dict(ranges=[], num=nr, den=dr, force=force)

    def run():
        e = ENUM[kind](params, t)
        n = len(e)
        if rng.random() < 0.3:                  # an enumeration that was started and dropped
            for _ in e.generator():
                break
        ys = []
        for o in e.generator():
            x, ok = describe(o)
            ys.append({'p': x['p'] if kind == 'ulcd' else [x['n'], x['d'], x['k']], 'ok': ok, 'val': num(o.get_val())})
            if len(ys) > 20000:
                break
        return n, ys
    r, exc = call(run)
    n, ys = r if r else (-1, [])
    rec.log('enum', kind=kind, t=num(t), dps=dps, len=n, out=ys, exc=exc, **fields)


# ---------------------------------------------------------------------------------------------------------------
def variant(x):
    """Parameters of the same or a nearby function."""
    if x['kind'] == 'ulcd':
        u, l, c, d = [int(v) for v in x['p']]
        k = rng.choice(['same', 'neg', 'flip', 'scale', 'scale', 'near', 'near', 'shift', 'part', 'part', 'bad', 'bad', 'two'])
        if k == 'neg':
            u, l, c = -u, -l, -c
        elif k == 'flip':
            d = -d
        elif k == 'scale':              # (ru, l/r, rc, rd)
            r = rng.choice([2, 3, -1, -2, 7])
            if l % r == 0:
                u, l, c, d = u * r, l // r, c * r, d * r
            else:
                u, l, c, d = u * r, l, c * r, d
        elif k == 'near':
            j = rng.randrange(4)
            v = [u, l, c, d]
            v[j] += rng.choice([-1, 1])
            u, l, c, d = v
            l, d = l or 1, d or 1
        elif k == 'shift':
            c += d * rng.choice([-1, 1, 2])
        elif k == 'bad':                # some of them scaled
            r = rng.choice([2, 3, -1, -2])
            v = [u, l, c, d]
            for j in range(4):
                if rng.random() < 0.5:
                    v[j] = v[j] // r if j and v[j] % r == 0 and rng.random() < 0.5 else v[j] * r
            u, l, c, d = v
        elif k == 'two':                # d alone, or d and one more
            d *= rng.choice([2, 3])
            if rng.random() < 0.5:
                u *= 2
        elif k == 'part':
            s = [rng.choice([-1, 1]) for _ in range(4)]
            u, l, c, d = u * s[0], l * s[1], c * s[2], d * s[3]
        return {'kind': 'ulcd', 'p': [str(v) for v in (u, l, c, d)]}
    n, d, k = [int(v) for v in x['n']], [int(v) for v in x['d']], int(x['k'])
    how = rng.choice(['same', 'int', 'absorb', 'gcd', 'neg', 'inv', 'inv', 'const', 'near', 'near', 'pad', 'mobius'])
    if how == 'int':
        k += rng.choice([-3, -1, 1, 2])
    elif how == 'absorb':
        m = max(len(n), len(d))
        n = [(n[i] if i < len(n) else 0) + k * (d[i] if i < len(d) else 0) for i in range(m)]
        k = 0
    elif how == 'gcd':
        g = rng.choice([[2], [-1], [1, 1], [-3, 2], [0, 1]])
        n, d = pmul(n, g), pmul(d, g)
    elif how == 'neg':
        n = [-v for v in n]
        k = -k
    elif how == 'inv':
        m = max(len(n), len(d))
        n, d = d, [(n[i] if i < len(n) else 0) + k * (d[i] if i < len(d) else 0) for i in range(m)]
        k = rng.choice([0, 0, 0, 1])
    elif how == 'const':               # + 1/2
        m = max(len(n), len(d))
        n = [2 * (n[i] if i < len(n) else 0) + (d[i] if i < len(d) else 0) for i in range(m)]
        d = [2 * v for v in d]
    elif how == 'near':
        p = rng.choice([n, d])
        p[rng.randrange(len(p))] += rng.choice([-1, 1])
    elif how == 'pad':
        n, d = n + [0], d + [0, 0]
    elif how == 'mobius':
        n, d = d, n
    if not any(d) or not any(n):
        return x
    m = max(len(n), len(d))
    if not any((n[i] if i < len(n) else 0) + k * (d[i] if i < len(d) else 0) for i in range(m)):
        k += 1
    return {'kind': 'rat', 'n': [str(v) for v in n], 'd': [str(v) for v in d], 'k': str(k)}


def uniq_case(i):
    rec.case('uniq-%d' % i)
    set_prec(30)
    t = rng.choice([+pi, +econst])
    m = enum_params.MITM(prec=30)
    inter = rng.choice([1, 1, 1, 2])

    def family():
        return tuple(tuple(rng.randint(-3, 3) for _ in range(rng.choice([2, 2, 3]))) for _ in range(inter))
    fa, fb = [family()], [family(), family()]
    fa.append(tuple(tuple(-c for c in p) for p in fa[0]))
    fa.append(tuple(tuple(-c if j == 0 else c for c in p) for j, p in enumerate(fa[0])))
    fa.append(tuple(tuple(reversed(p)) for p in fa[0]))
    if inter == 1:
        fa.append((fa[0][0], fa[0][0]))
    kinds = rng.choice([('ulcd',), ('rat',), ('rat',), ('ulcd', 'rat')])
    pool = []
    while len(pool) < 2:
        x = random_lhs(allow_zero=False)
        if x['kind'] in kinds and (x['kind'] == 'ulcd' or int(x['k']) > -100):
            if x['kind'] == 'rat':
                x = dict(x, k=rng.choice(['0', '0', '1']))
                nn, dd = [int(v) for v in x['n']], [int(v) for v in x['d']]
                mm = max(len(nn), len(dd))
                if not any((nn[j] if j < len(nn) else 0) + int(x['k']) * (dd[j] if j < len(dd) else 0) for j in range(mm)):
                    continue
            pool.append(x)
    for _ in range(rng.randint(1, 7)):
        pool.append(variant(rng.choice(pool)))
    if rng.random() < 0.35:             # everything that shares some of its parameters with one ULCD, up to scaling
        kinds = ('ulcd',)
        u, l, c, d = rng.choice([0, 1, 1, 2, 3]), rng.choice([1, 2, 4, 6]), rng.choice([0, 0, 1, 1, 2]), rng.choice([1, 1, 2, 3])
        r = rng.choice([2, 2, 3])
        sc = lambda v: [v, v, -v, v * r, -v * r] + ([v // r] if v % r == 0 else [])
        pool = [{'kind': 'ulcd', 'p': [str(rng.choice(sc(v))) for v in (u, l, c, d)]} for _ in range(12)]
        pool.append({'kind': 'ulcd', 'p': [str(v) for v in (u, l, c, d)]})
    items, descr = [], []
    pfs = rng.choice([(0,), (0,), (0, 1), (0, 1, 2, 3), (6, 7, 8), (1, 2)])
    ulcds = len(pool) > 12
    for k in range(rng.randint(1, 14) if not ulcds else 16):
        if descr and rng.random() < 0.15:
            j = rng.randrange(len(descr))
            d = descr[j]
        else:
            d = {'x': rng.choice(pool), 'pf': rng.choice(pfs), 'ai': 0 if rng.random() < 0.6 else rng.randrange(len(fa)),
                 'bi': 0 if rng.random() < 0.85 else 1}
            if ulcds and rng.random() < 0.8:
                d.update(pf=0, ai=0, bi=0)
        raw = build(d['x'])
        items.append(((fa[d['ai']], fb[d['bi']]), CLS[d['x']['kind']](raw, t), d['pf'], ('exp', k)))
        descr.append(d)
    log_items = [{'a': fam(it[0][0]), 'b': fam(it[0][1]), 'pf': d['pf'], 'x': d['x'],
                  'raw': json.dumps([d['x'].get('p'), d['x'].get('n'), d['x'].get('d'), d['x'].get('k')])}
                 for it, d in zip(items, descr)]
    m.filtered_params = list(items)

    def positions():
        kept, same = [], True
        for x in m.get_filtered_params():
            js = [j for j in range(len(items)) if x is items[j] or x[3] is items[j][3]]
            kept.append(js[0] + 1 if js else -1)
            same = same and bool(js) and x[0] == items[js[0]][0] and x[2] == items[js[0]][2] and x[3] == items[js[0]][3]
        return kept, same
    _, exc = call(m.filter_uniq_params)
    kept, same = positions()
    after = [describe(x[1])[0] for x in m.get_filtered_params()]
    _, exc2 = call(m.filter_uniq_params)
    kept2, _ = positions()
    rec.log('uniq', items=log_items, kept=kept, kept2=kept2, same=same, after=after, exc=exc or exc2)


def fam(f):
    return polys(f)


S = 8 if THOROUGH else 1
ts = [t for p in tests for t in load_tests(p)]
rng.shuffle(ts)
if 'C06' in props:
    full = [t for t in ts if len(t) >= 3]
    for i, t in enumerate(full[:(5000 if THOROUGH else 300)]):
        spec_history(i, t)
    for i in range(400 * S):
        random_history(i)
if 'C05' in props:
    for i in range(200 * S):
        enum_case(i)
if 'C12' in props:
    for i in range(350 * S):
        uniq_case(i)
rec.close()
