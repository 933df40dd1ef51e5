"""C03, C04: what the polynomial enumerators yield, the final root filter and the purge script."""
from common import *
import copy
import hashlib
import pickle
import shutil
import tempfile

out, props, tests = args()
silence()
import pickleshim
import enum_params
import enum_poly_params
import fix_hashtable_filter_init_b_root as purge_script
from enum_poly_params import AB_POLYS_TYPES
rng = random.Random(SEED)
rec = Recorder(out)
KINDS = {'normal': enum_poly_params.BasicEnumPolyParams, 'indexed': enum_poly_params.IndexedParameterEnumPolyParams,
         'sparse': enum_poly_params.SparseParameterEnumPolyParams}


def fam(f):
    return polys(f)


def enumerate_case(ident, kind, ra, rb, na, nb, exp, roots, gen=False, avoid=True, iters=10, again=False):
    rec.case(ident)
    cls = KINDS[kind]
    kw = dict(num_of_iterations=iters, enum_only_exp_conv=exp, avoid_int_roots=roots, should_gen_contfrac=gen,
              avoid_zero_b=avoid, prec=30)
    if kind == 'sparse':
        kw['special_params'] = (na, nb)

    def run():
        e = cls(**kw)
        if again:            # an enumerator is used for several ranges
            for _ in e.polys_generator([[[0, 2]]], [[[1, 2]]])[0]:
                break
        g, n = e.polys_generator(range_a=ra, range_b=rb)
        ys, conv = [], []
        for y in g:
            if gen:
                cf, pa, pb = y
                p, q = cf.get_p_q()
                conv.append([str(int(p)), str(int(q))])
            else:
                pa, pb = y
            ys.append([fam(pa), fam(pb)])
            if len(ys) > 20000:
                break
        return ys, int(n), conv
    r, exc = call(run)
    ys, n, conv = r if r else ([], -1, [])
    rec.log('enum', kind=kind, ra=ra, rb=rb, na=na, nb=nb, exp=exp, roots=roots, gen=gen, avoid=avoid, iters=iters,
            out=ys, len=n, conv=conv, exc=exc)


def crange(width, lo=6):
    a = rng.randint(-lo, lo)
    return [a, a + rng.randint(0 if rng.random() < 0.05 else 1, width)]


def size(r, k=1):
    n = 1
    for p in r:
        for c in p:
            n *= max(0, c[1] - c[0])
    return n


def rrange(kind, limit):
    while True:
        inter = rng.choice([1, 1, 1, 2, 2, 3])
        deg = rng.randint(1, 3 if inter < 3 else 2)
        r = []
        for _ in range(inter):
            d = deg if kind == 'sparse' else rng.randint(1, deg)
            r.append([crange(3 if rng.random() < 0.7 else 6) for _ in range(d)])
        if inter > 1 and rng.random() < 0.5:
            r = [copy.deepcopy(r[0]) for _ in r]
        if size(r) <= limit:
            return r


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r if k <= n else 0


def random_enum(i):
    kind = rng.choice(['normal', 'indexed', 'sparse'])
    lim = 14 if kind == 'sparse' else 40
    while True:
        ra, rb = rrange(kind, lim), rrange(kind, lim)
        na, nb = len(ra[0]) + rng.randint(0, 2), len(rb[0]) + rng.randint(0, 2)
        total = size(ra) * size(rb)
        if kind == 'sparse':
            total *= binom(na, len(ra[0])) ** len(ra) * binom(nb, len(rb[0])) ** len(rb)
        if total <= (150 if kind == 'sparse' else 400):
            break
    gen = rng.random() < 0.3
    enumerate_case('enum-%d' % i, kind, ra, rb, na, nb, rng.random() < 0.4, rng.random() < 0.6, gen=gen,
                   avoid=rng.random() < 0.7, iters=rng.choice([0, 1, 4, 12]), again=rng.random() < 0.3)


def root_enum(i):
    """b runs over polynomials around one with chosen roots (also large coefficients)."""
    kind = rng.choice(['normal', 'normal', 'sparse'])
    b = chosen_poly(2, rng.choice([2, 2, 9, 900]))[0]
    b = [0] * rng.choice([0, 0, 1, 2]) + list(b) + [0] * rng.choice([0, 0, 1])
    rb = [[[c, c + 1] for c in b]]
    if rng.random() < 0.5:
        j = rng.randrange(len(b))
        rb[0][j] = [b[j] - 1, b[j] + 2]
    if rng.random() < 0.3:
        rb.append([[1, 3]] if kind == 'normal' else [[1, 2]] * len(b))
    enumerate_case('root-%d' % i, kind, [[[1, 3]]], rb, 1, len(b), False, True)


def chosen_poly(maxdeg, span):
    """A polynomial and a number that may be a root of it."""
    c = rng.random()
    if c < 0.55:
        lead = rng.choice([1, 1, -1, 2, -3])
        p = [lead]
        roots = []
        for _ in range(rng.randint(1, maxdeg)):
            r = rng.choice(roots) if roots and rng.random() < 0.35 else rng.randint(-span, span)
            if rng.random() < 0.3:
                r = abs(r)
            roots.append(r)
            q = [0] * (len(p) + 1)
            for k, x in enumerate(p):
                q[k + 1] += x
                q[k] -= r * x
            p = q
        best = max(roots)
        if c < 0.15:
            p[0] += rng.choice([-1, 1])      # a near miss
        return p, best
    if c < 0.75:                              # a root close to an integer
        m = rng.choice([7, 100, 1001, 5000, 99999])
        return [rng.choice([m - 1, m + 1, 2 * m - 1]) * rng.choice([-1, 1]), m], 1
    d = rng.randint(0, maxdeg)
    return [rng.randint(-9, 9) for _ in range(d)] + [rng.choice([-2, -1, 1, 1, 3])], rng.randint(1, 4)


def final_case(i):
    rec.case('final-%d' % i)
    m = enum_params.MITM(prec=30)
    bs, cand, items = [], [], []
    for k in range(rng.randint(1, 12)):
        f, c = [], []
        for _ in range(rng.choice([1, 1, 2, 3])):
            d = rng.random()
            p, r = (chosen_poly(2, 100000) if d < 0.25 else chosen_poly(3, 2) if d < 0.45 else
                    chosen_poly(4, 12) if d < 0.8 else chosen_poly(6, 5))
            p = [0] * rng.choice([0, 0, 0, 1, 2]) + list(p) + [0] * rng.choice([0, 0, 1])
            f.append(tuple(p))
            c.append(str(r))
        bs.append(tuple(f))
        cand.append(c)
        items.append(((((k,),), tuple(f)), 'lhs%d' % k, k, None))
    m.filtered_params = list(items)
    _, exc = call(m.filter_pos_integer_roots_numerators)
    res, _ = call(m.get_filtered_params)
    kept, same = [], True
    for x in res if res is not None else []:
        try:
            kept.append(x[0][0][0][0] + 1)
            same = same and x == items[kept[-1] - 1]
        except Exception:
            kept.append(-1)
            same = False
    rec.log('final', bs=[fam(b) for b in bs], cand=cand, kept=kept, same=same, exc=exc)


def verdict(b):
    """Does the enumeration filter reject this family (seen from the enumeration of the family alone)?"""
    e = enum_poly_params.BasicEnumPolyParams(should_gen_contfrac=False, avoid_int_roots=True, prec=30)
    return not list(e.polys_generator([[[1, 2]]], [[[c, c + 1] for c in p] for p in b])[0])


def purge_case(i):
    rec.case('purge-%d' % i)
    top = tempfile.mkdtemp(prefix='vpurge')
    try:
        set_prec(30)
        m = enum_params.MITM(prec=30, hashtable_prec=6)
        fams, ident = [], 0
        for _ in range(rng.randint(1, 12)):
            f = []
            for _ in range(rng.choice([1, 1, 2])):
                p = [0] * rng.choice([0, 0, 1]) + list(chosen_poly(rng.choice([1, 2, 2, 3]), 9)[0])
                f.append(tuple(p))
            fams.append(tuple(f))
        fams += [((0, 1),), ((-2, 1),), ((1, 0, 1),), ((2, -3, 1), (1,))]
        named = {'target_name': 'pi', 'n': rng.randint(0, 99)}
        where = rng.choice(['first', 'last', 'middle'])
        if where == 'first':
            m.dec_hashtable['parameters'] = named
        for k in range(rng.randint(1, 8)):
            key = '0.%06d' % rng.randint(0, 999999)
            for _ in range(rng.choice([1, 1, 2, 3, 6])):
                m.dec_hashtable.setdefault(key, []).append((((((ident,),), rng.choice(fams)), rng.randint(0, 3))))
                ident += 1
            if where == 'middle' and k == 0:
                m.dec_hashtable['parameters'] = named
        if where == 'last':
            m.dec_hashtable['parameters'] = named

        def dump(t):
            r = []
            for key, es in t.items():
                if key == 'parameters':
                    continue
                r.append({'key': str(key), 'es': [{'id': '%d/%d' % (x[0][0][0][0], x[1]), 'f': fam(x[0][1])} for x in es]})
            return r
        before = dump(m.dec_hashtable)
        path = os.path.join(top, 'table_v1.pkl')
        with open(path, 'wb') as f:
            pickleshim.dill.dump(m, f, protocol=pickle.HIGHEST_PROTOCOL)
        digest = hashlib.md5(open(path, 'rb').read()).hexdigest()
        _, exc = call(purge_script.main, path)
        after, ok = [], False
        try:
            with open(os.path.join(top, 'table_v1_fixed.pkl'), 'rb') as f:
                r = pickleshim.dill.load(f)
            after, ok = dump(r.dec_hashtable), r.dec_hashtable['parameters'] == named
        except Exception as e:
            exc = exc or 'unreadable output (%s)' % type(e).__name__
        rej = []
        for f in sorted(set(fams)):
            v, e2 = call(verdict, f)
            rej.append({'f': fam(f), 'r': bool(v)})
        rec.log('purge', before=before, after=after, named=ok, rej=rej, exc=exc,
                input=hashlib.md5(open(path, 'rb').read()).hexdigest() == digest)
    finally:
        shutil.rmtree(top)


S = 8 if THOROUGH else 1
ts = [t for p in tests for t in load_tests(p)]
rng.shuffle(ts)
for i, t in enumerate(ts[:(5000 if THOROUGH else 350)]):
    if 'C03' not in props and not t['roots']:
        continue
    enumerate_case('tlc-%d' % i, t['kind'], t['a'], t['b'], t['na'], t['nb'], t['exp'], t['roots'],
                   gen=rng.random() < 0.2, iters=rng.choice([1, 3, 6]))
if 'C03' in props:
    for i in range(150 * S):
        random_enum(i)
if 'C04' in props:
    for i in range(150 * S):
        root_enum(i)
    for i in range(150 * S):
        final_case(i)
    for i in range(40 * S):
        purge_case(i)
rec.close()
