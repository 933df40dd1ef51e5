"""C07, C08: histories of real DecimalHashTable objects and runs of the join script."""
from common import *
import copy
import hashlib
import pickle
import shutil
import tempfile

out, props, tests = args()
silence()
from mpmath import mpf
import mpmath
from decimal_hashtable import DecimalHashTable
import enum_params
import join_hashtables
import pickleshim
rng = random.Random(SEED)
rec = Recorder(out)


def norm(v):
    """Stored values are lists of small integers (or {'n': k}, as the named entry 'parameters')."""
    if isinstance(v, dict):
        return [v.get('n', -99)]
    if isinstance(v, (list, tuple)):
        r = []
        for x in v:
            r += norm(x) if isinstance(x, (dict, list, tuple)) else [x if is_int(x) else -99]
        return r
    return [-99]


class World:
    def __init__(self, dps, keys):
        self.dps, self.keys, self.tables, self.pure = dps, keys, {}, set()
        set_prec(dps)

    def probe(self, t):
        r = []
        for kind, k in self.keys:
            has, exc = call(lambda: k in t)
            if exc or not isinstance(has, bool):
                r.append({'has': True, 'v': [-98]})
            elif not has:
                r.append({'has': False, 'v': []})
            else:
                v, exc = call(lambda: t[k])
                r.append({'has': True, 'v': [-97] if exc else norm(v)})
        return r

    def size(self, t):
        n, exc = call(len, t)
        return n if not exc and is_int(n) else -1

    def keyrecs(self):
        return [{'k': kind, 'v': num(k) if kind == 'num' else NONUM, 's': '' if kind == 'num' else k}
                for kind, k in self.keys]


def new_case(case_id, dps, keys, acc):
    rec.case(case_id)
    w = World(dps, keys)
    t, exc = call(DecimalHashTable, acc)
    w.tables['A'] = t if not exc else {}
    rec.log('new', t='A', acc=acc, dps=dps, keys=w.keyrecs())
    return w


def do(w, name, op, key=1, v=0):
    t = w.tables[name]
    k = w.keys[key - 1][1]
    r = []
    if op == 'set':
        _, exc = call(t.__setitem__, k, {'n': v} if w.keys[key - 1][0] == 'name' else [v])
    elif op == 'get':
        x, exc = call(t.__getitem__, k)
        r = norm(x)
    elif op == 'getd':
        x, exc = call(t.get, k, [v])
        r = norm(x)
    elif op == 'setd':
        x, exc = call(t.setdefault, k, [v])
        r = norm(x)
    elif op == 'append':
        def f():
            t.setdefault(k, []).append(v)
            return t[k]
        if w.keys[key - 1][0] == 'name':          # {'n': k} has no append
            if call(lambda: k in t)[0] is True:
                return
        x, exc = call(f)
        r = norm(x)
    elif op == 'has':
        x, exc = call(lambda: k in t)
        r = [1 if x is True else 0 if x is False else -1]
    elif op == 'del':
        _, exc = call(t.__delitem__, k)
    elif op == 'update':
        _, exc = call(t.update_accuracy, v)
    elif op == 'pickle':
        mod = rng.choice([pickle, pickleshim.dill])
        proto = rng.choice([2, 3, 4, pickle.HIGHEST_PROTOCOL])
        x, exc = call(lambda: mod.loads(mod.dumps(t, protocol=proto)))
        if not exc:
            w.tables[name] = x
    elif op == 'bad':
        b = [3, 0.25, None, (1, 2), b'0.25', 10**20][v % 6]
        x, exc = call([lambda: t.__setitem__(b, [1]), lambda: t[b], lambda: b in t,
                       lambda: t.setdefault(b, [1]), lambda: t.__delitem__(b), lambda: t.get(b)][(v // 6) % 6])
    t = w.tables[name]
    rec.log(op, t=name, key=key, v=[v], r=r, exc=exc, len=w.size(t), probes=w.probe(t))


def join(w, a, b, finding=False):
    ta, tb = w.tables[a], w.tables[b]
    _, exc = call(ta.append_dict, tb)
    rec.log('join', t=a, o=b, exc=exc, len=w.size(ta), probes=w.probe(ta), other=w.probe(tb), finding=finding,
            rest=[{'t': n, 'probes': w.probe(t)} for n, t in w.tables.items() if n in w.pure])


def table(w, name, acc):
    w.tables[name] = DecimalHashTable(acc)
    rec.log('table', t=name, acc=acc)


def extend(text, n=12):
    """A number that has these digits."""
    return mpf(text + ''.join(rng.choice('123456789') for _ in range(n)) + '5')


# behaviours generated by TLC: the spec's texts become numbers with these digits (or are used as texts)
def replay(test, ident):
    texts = sorted({e['x'] for e in test if e['op'] in ('set', 'append', 'del') and e['k'] == 'num'} | {'0.111', '0.112'})
    dps = rng.choice([15, 30, 50])
    set_prec(dps)
    as_text = rng.random() < 0.25
    keys = [('txt', x + '111111') if as_text else ('num', extend(x)) for x in texts]
    keys.append(('name', 'parameters'))
    index = {x: i + 1 for i, x in enumerate(texts)}
    w = new_case('tlc-%s' % ident, dps, keys, test[0]['v'])
    cur, parts = 'A', 0
    for e in test[1:]:
        key = index.get(e['x'], len(keys))
        if e['op'] in ('set', 'append', 'del'):
            do(w, cur, e['op'], key, e['v'])
        elif e['op'] == 'update':
            do(w, cur, 'update', v=e['v'])
        elif e['op'] == 'part':
            parts += 1
            other, cur = cur, 'P%d' % parts
            table(w, cur, e['v'])
        elif e['op'] == 'join':
            join(w, cur, other)
    if rng.random() < 0.3:
        do(w, cur, 'pickle')
        do(w, cur, 'update', v=rng.choice([1, 2, 5]))


def pool(n):
    """Numbers that agree with each other to various lengths, of all magnitudes; zero, integers, exact binary ones."""
    r = []
    base = ''.join(rng.choice('0123456789') for _ in range(40))
    lead = rng.choice(['0.', '0.', '0.', '3.', '17.', '0.000', '123456.', '-0.', '0.' + '0' * 25, '0.' + '0' * 13])
    short = rng.sample([mpf('0.5'), mpf(3), mpf('-2.25'), mpf(0), mpf('0.375'), mpf(100)], 2)
    for _ in range(n):
        c = rng.random()
        if 0.48 < c < 0.55:
            # next to a number with few digits
            q = rng.choice(short)
            r.append(('num', q if rng.random() < 0.5 else q + mpf(10) ** -rng.randint(2, 16)))
        elif c < 0.55:
            k = rng.randint(0, 20)
            r.append(('num', mpf(lead + base[:k] + ''.join(rng.choice('0123456789') for _ in range(25)))))
        elif c < 0.65:
            r.append(('num', rng.choice([mpf(0), mpf(1), mpf(3), mpf('0.5'), mpf('0.25'), mpf(10), mpf('1e20'), mpf(1) / 3,
                                         mpf('0.1'), mpf('1e-30'), mpf(7) / 8, mpf('99999.99999')])))
        elif c < 0.75:
            r.append(('txt', (lead if lead[0] != '-' else '0.') + base[:rng.randint(3, 30)]))
        elif c < 0.85:
            r.append(('num', mpf(lead + base) * (1 + mpf(10) ** -rng.randint(3, 14))))
        else:
            r.append(('num', mpf(rng.choice(['9.', '0.', '19.', '0.00']) + '9' * rng.randint(1, 12) + base[:12])))
    r.append(('name', 'parameters'))
    r.append(('name', rng.choice(['parameters_of_a_run', 'p', 'param'])))
    return r


def accuracy():
    return rng.randint(0, 14) if rng.random() < 0.8 else rng.randint(15, 32)


def random_case(ident, join_parts):
    dps = rng.choice([15, 20, 40, 50, 60])
    set_prec(dps)
    keys = pool(rng.randint(4, 8))
    w = new_case(ident, dps, keys, accuracy())
    names = ['A']
    n = rng.randint(8, 20)
    count = 0
    for step in range(n):
        name = rng.choice(names)
        op = rng.choices(['set', 'get', 'getd', 'setd', 'append', 'has', 'del', 'update', 'pickle', 'bad'],
                         [3, 1, 1, 2, 4, 1, 1.5, 1.2, 0.7, 0.5])[0]
        count += 1
        if join_parts:
            op = rng.choices(['append', 'update', 'table', 'join', 'pickle', 'set'], [6, 0.6, 1.2, 2, 0.3, 0.7])[0]
        key = rng.randint(1, len(keys))
        if op == 'update':
            do(w, name, op, v=accuracy())
        elif op == 'table':
            nm = 'T%d' % count
            prev = w.tables[rng.choice(names)]
            acc = 3 if rng.random() < 0.15 else getattr(prev, 'accuracy', 4) - 1
            table(w, nm, acc)
            names.append(nm)
        elif op == 'join':
            o = rng.choice(names)
            if o == name:
                continue
            join(w, name, o)
            if rng.random() < 0.5:
                names.remove(o)
            else:
                # the joined tables may share value lists: only one of them is used from here on
                names.remove(o)
        else:
            do(w, name, op, key, count if op != 'bad' else rng.randint(0, 35))


def reuse_case(ident):
    """Parts that are joined into several tables, in any order; nothing but joins after they are filled."""
    set_prec(40)
    keys = pool(rng.randint(2, 5))
    acc = rng.randint(2, 10)
    w = new_case(ident, 40, keys, acc)
    names = ['A'] + ['P%d' % i for i in range(rng.randint(2, 5))]
    for nm in names:
        if nm != 'A':
            table(w, nm, acc)
        for _ in range(rng.randint(0, 4)):
            do(w, nm, rng.choice(['append', 'append', 'append', 'set']), rng.randint(1, len(keys)), rng.randint(1, 50))
    w.pure = set(names)
    for i in range(rng.randint(3, 8)):
        if rng.random() < 0.2:
            table(w, 'N%d' % i, acc)
            names.append('N%d' % i)
            w.pure.add(names[-1])
        a, b = rng.sample(names, 2)
        if rng.random() < 0.7:
            a = names[-1] if b != names[-1] else a
        join(w, a, b)


def shadow_finding():
    """The known finding: a table whose accuracy was raised is joined with one that still has a coarser entry."""
    set_prec(30)
    w = new_case('C08-shadow', 30, [('num', mpf('0.1234567')), ('num', mpf('0.1299999'))], 2)
    do(w, 'A', 'append', 2, 1)
    do(w, 'A', 'update', v=5)
    table(w, 'B', 5)
    do(w, 'B', 'append', 1, 2)
    join(w, 'A', 'B', finding=True)


# ---- the join script
def digest(d):
    return {f: hashlib.md5(open(os.path.join(d, f), 'rb').read()).hexdigest() for f in sorted(os.listdir(d))}


def script_case(ident):
    set_prec(50)
    keys = [k for k in pool(rng.randint(3, 6)) if k[0] != 'txt']
    acc = rng.randint(3, 12)
    w = new_case(ident, 50, keys, acc)
    nparts = rng.randint(1, 4)
    names = ['A'] + ['Q%d' % i for i in range(1, nparts)]
    odd = rng.random() < 0.2
    for i, nm in enumerate(names):
        if i:
            table(w, nm, acc + 1 if odd and i == nparts - 1 else acc)
        for _ in range(rng.randint(1, 5)):
            key = rng.randint(1, len(keys))
            do(w, nm, 'append', key, rng.randint(1, 50))
        if nm == 'A' or rng.random() < 0.7:
            do(w, nm, 'set', len(keys) - 1, 77 + i)
    top = tempfile.mkdtemp(prefix='vjoin')
    cwd = os.getcwd()
    try:
        d = os.path.join(top, 'parts')
        os.mkdir(d)
        os.chdir(top)
        for i, nm in enumerate(names):
            m = enum_params.MITM(prec=50)
            m.dec_hashtable = w.tables[nm]
            with open(os.path.join(d, 'part%02d_v1.pkl' % i), 'wb') as f:
                pickleshim.dill.dump(m, f, protocol=pickle.HIGHEST_PROTOCOL)
        for other in ['notes.txt', 'part.pkl.bak', 'pkl']:
            with open(os.path.join(d, other), 'w') as f:
                f.write('not a table')
        before = digest(d)
        outfile = os.path.join(top, rng.choice(['joined_hashtable.pkl', 'out.bin']))
        existed = rng.random() < 0.25
        if existed:
            with open(outfile, 'w') as f:
                f.write('precious')
        if outfile.endswith('.pkl') and rng.random() < 0.5:
            _, exc = call(join_hashtables.main, d)
        else:
            _, exc = call(join_hashtables.main, d, outfile)
        same = existed and open(outfile, 'rb').read() == b'precious'
        written, probes, size = False, [], -1
        if not existed and os.path.exists(outfile):
            def load():
                with open(outfile, 'rb') as f:
                    return pickleshim.dill.load(f)
            m, e2 = call(load)
            written = not e2
            if written:
                set_prec(50)
                probes, size = w.probe(m.dec_hashtable), w.size(m.dec_hashtable)
        rec.log('script', parts=names, existed=existed, outsame=same, inputs=digest(d) == before, exc=exc,
                written=written, probes=probes, len=size)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


n = 0
for path in tests:
    ts = load_tests(path)
    has_join = [t for t in ts if any(e['op'] == 'join' for e in t)]
    if 'C07' not in props:
        ts = has_join
    rng.shuffle(ts)
    for t in ts[:(6000 if THOROUGH else 900)]:
        n += 1
        replay(t, n)
if 'C07' in props:
    for i in range(1500 if THOROUGH else 250):
        random_case('random-%d' % i, False)
if 'C08' in props:
    for i in range(1500 if THOROUGH else 250):
        random_case('parts-%d' % i, True)
    for i in range(900 if THOROUGH else 150):
        reuse_case('reuse-%d' % i)
    for i in range(60 if THOROUGH else 14):
        script_case('script-%d' % i)
    shadow_finding()
rec.close()
