"""C14, C16: configuration files parsed, written by runs and distributed."""
from common import *
import hashlib
import shutil
import tempfile

out, props, tests = args()
silence()
import pickleshim
import configfile
import distribute_run
import main as main_module
from enum_poly_params import AB_POLYS_TYPES
from lhs_evaluators import LHS_TYPES
import pylatex
import confgen
pylatex.Document.generate_pdf = lambda self, f, **kw: self.generate_tex(f)
rng = random.Random(SEED)
rec = Recorder(out)


def parse(path):
    """(values, exception)"""
    c, exc = call(lambda: configfile.ConfigParser(configfile=path).get_config())
    return (confgen.vals(c, AB_POLYS_TYPES, LHS_TYPES), exc) if exc == '' else ([], exc)


def populate(d, base):
    """Table files and similarly named ones."""
    fs = []
    for f in rng.sample(['.pkl', '_v1.pkl', '_v2.pkl', '_v9.pkl', '_v10.pkl', '_v101.pkl'], rng.choice([0, 0, 1, 2, 4])):
        fs.append(base + f)
    for f in ('_v12.pkl.bak', '_v13.txt', '_vx.pkl', '_part00_v14.pkl', 'x_v15.pkl', '_v16_old.pkl', '_v.pkl', '_v17.pkl.tmp', '_V18.pkl', '.v19.pkl'):
        if rng.random() < 0.25:
            fs.append(base + f)
    for f in ('x' + base + '_v20.pkl', base.swapcase() + '_v21.pkl', base[:-1] + '_v22.pkl'):
        if f.swapcase() != f and rng.random() < 0.3 and not f.startswith(base + '_v') and not f.startswith('_'):
            fs.append(f)
    for f in fs:
        open(os.path.join(d, f), 'w').close()
    return sorted(os.listdir(d))


def in_scratch(fn):
    top = tempfile.mkdtemp(prefix='vconf')
    old = os.getcwd()
    os.chdir(top)
    try:
        return fn(top)
    finally:
        os.chdir(old)
        shutil.rmtree(top)


BAD = {'i': ['1.5', 'x', '', '1 2', '[3]'], 'hashtable_precision': ['1e3', 'ten', '--4', '3,5'], 'lhs_type': ['ulc', 'rational func'],
       'ab_polys_type': ['norml', 'normal,sparse'], 'a_coeffs_range': ['[[1,2]', '[1 2]', '[[1,2],]', 'range(3)'],
       'lhs_params': ['[1, 2, 3, 4', "['a']"], 'postproc_funcs_filter': ['["lambda x: x**7"]', '["safe_inverse "]', 'safe_inverse', '[2]'],
       'is_test': ['maybe', '1', 'no'], 'print_surprising_nonexp_contfracs': ['2', 'on'],
       'hashtable_file_operation': ['create', 'generate,use', 'none', 'true'], 'hashtable_file': ['none']}


def parse_case(i, change=None, bad=None):
    rec.case('parse-%d' % i if change is None else 'tlc-%d' % i)

    def run(top):
        sub = rng.choice(['', '', 'sub', 'Sub_D/deep'])
        if sub:
            os.makedirs(sub)
        base = rng.choice(['T', 'Table', 'hash_TABLE', 'a.b', 'x(1)+', 'My Table'])
        given = base + rng.choice(['.pkl', '.pkl', '', '_v1.pkl', '_v7.pkl', '_v7'])
        given = sub + '/' + given if sub else rng.choice(['', './']) + given
        files = populate(sub or '.', base)
        pairs = confgen.settings(rng, table=given)
        if change is not None:
            pairs = [p for p in pairs if p[0] != change['k']] + [[change['k'], change['raw']]]
            if change['k'] == 'hashtable_file':
                p = change['raw'].strip()
                if os.path.dirname(p):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                sub2 = os.path.dirname(p)
                files = sorted(os.listdir(sub2 or '.'))
        else:
            r = rng.random()
            if bad is not None:
                pairs = [p for p in pairs if p[0] != bad['k']] + [[bad['k'], bad['raw']]]
            elif r < 0.3:
                k = rng.choice(sorted(k for k in BAD if BAD[k]))
                pairs = [p for p in pairs if p[0] != k] + [[k, rng.choice(BAD[k])]]
            elif r < 0.45:           # a setting left out
                k = rng.choice([p[0] for p in pairs])
                if k not in ('hashtable_file', 'postproc_funcs_filter'):
                    pairs = [p for p in pairs if p[0] != k]
            elif r < 0.6:            # settings nobody knows
                pairs += [[k, rng.choice(['5', '-12', 'Word', 'true', 'None', '[1, [2, 3]]', 'two words'])] for k in ('extra', 'note')]
        os.makedirs('cfg')
        t, raw = confgen.text(rng, pairs)
        path = rng.choice(['c.ini', 'cfg/My.ini'])
        with open(path, 'w') as f:
            f.write(t)
        v, exc = parse(path)
        if change is not None and change['k'] == 'hashtable_file':
            pass
        elif path == 'c.ini' and not sub:
            files2 = files
        rec.log('parse', pairs=raw, files=files + (['c.ini'] if False else []), vals=v, exc=exc)
    in_scratch(run)


def run_case(i):
    """A configuration a finished run has written."""
    rec.case('run-%d' % i)

    def run(top):
        a = [[[1, 2], [rng.randint(2, 3), 4]]]
        pairs = dict(confgen.settings(rng, a=a, b=[[[0, 1], [0, 1], [1, 2]]], table=rng.choice(['T.pkl', 'Sub/Table_X'])))
        if '/' in pairs['hashtable_file']:
            os.makedirs('Sub')
        pairs.update(const=rng.choice(['pi', 'E', 'phi', 'zeta', 'percolation', 'feig']), gen_hashtable_only=rng.choice(['false', 'FALSE']),
                     hashtable_file_operation='generate', ab_polys_type='normal', hashtable_num_of_iterations='20', hashtable_precision='6',
                     first_filtering_num_of_iterations='50', first_filtering_precision='8',
                     second_filtering_max_num_of_iterations='60', second_filtering_precision='9',
                     third_filtering_max_num_of_iterations='70', third_filtering_precision='10',
                     postproc_funcs_filter=json.dumps(rng.sample(confgen.FUNCS[:4], rng.randint(1, 3))))
        pairs['i'] = '3' if pairs['const'] == 'zeta' else '1'
        if pairs['lhs_type'].lower() == 'ulcd':
            pairs['lhs_params'] = rng.choice(['[1, 1, 1, 1]', '[[0, 2], 1, [0, 1], [1, 2, 1]]'])
        else:
            pairs['lhs_params'] = rng.choice(['[[[0, 1], [1, 2]], [[1, 2]], false]', '[[[0, 1], [1, 2]], [[1, 2]], true]'])
        t, raw = confgen.text(rng, [[k, v] for k, v in pairs.items()])
        with open('c.ini', 'w') as f:
            f.write(t)
        used, exc = parse('c.ini')
        _, exc2 = call(main_module.main, 'c.ini')
        got, exc3 = [], 'no configuration is written'
        for d, _, fs in sorted(os.walk('results')):
            for f in fs:
                if f.endswith('.ini'):
                    got, exc3 = parse(os.path.join(d, f))
        rec.log('written', used=used, got=got, exc=exc or exc2 or exc3)
    in_scratch(run)


def ranges(vals_, key):
    for k, v in vals_:
        if k == key:
            return json.loads(v.replace('i', ''))
    return []


def deal(dims):
    """A box of the specification as ranges of a and b."""
    k = rng.randint(1, len(dims))
    a, b = dims[:k], dims[k:] or [[1, 2]]

    def inter(ps):
        if len(ps) > 1 and rng.random() < 0.4:
            c = rng.randint(1, len(ps) - 1)
            return [ps[:c], ps[c:]]
        return [ps]
    return inter(a), inter(b)


def split_case(ident, a, b):
    rec.case(ident)
    n = rng.choice([1, 2, 2, 4, 4, 8, 8, 16, 32, 0, -2, 3, 5, 6, 12])
    before = json.dumps([a, b])

    def run():
        # the script takes the number of parts; its worker takes the number of halvings
        if n < 1 or n & (n - 1):
            return None
        return distribute_run.split_params([a, b], n.bit_length() - 1)
    if n < 1 or n & (n - 1):
        return dist_case(ident, a, b, n)
    parts, exc = call(run)
    try:
        parts = [json.loads(json.dumps(p)) for p in parts] if parts is not None else []
    except Exception:
        parts, exc = [], exc or 'shape'
    if json.dumps([a, b]) != before:
        exc = 'the ranges given are changed'
    rec.log('split', a=a, b=b, n=n, parts=parts, exc=exc)


def dist_case(ident, a, b, n):
    rec.case(ident)

    def run(top):
        d = rng.choice(['', 'conf', 'Conf/x'])
        if d:
            os.makedirs(d)
        os.makedirs('Sub')
        name = os.path.join(d, rng.choice(['c.ini', 'My_Run.ini', 'a.b.ini']))
        table = rng.choice(['T.pkl', 'Sub/Table', 'T_v3.pkl', 'dots.in.name.pkl'])
        populate(os.path.dirname(table) or '.', os.path.basename(table).split('.pkl')[0].split('_v')[0])
        t, raw = confgen.text(rng, confgen.settings(rng, a=a, b=b, table=table))
        with open(name, 'w') as f:
            f.write(t)
        vals_, e0 = parse(name)
        tree = lambda: {os.path.join(x, y) for x, _, fs in os.walk('.') for y in fs}
        before = tree()
        _, exc = call(distribute_run.main, n, name)
        new = sorted(tree() - before)
        parts = []
        for f in new:
            v, e = parse(f)
            parts.append({'vals': v, 'exc': e, 'a': ranges(v, 'a_coeffs_range') if not e else [], 'b': ranges(v, 'b_coeffs_range') if not e else []})
        rec.log('dist', a=a, b=b, n=n, vals=vals_, parts=parts if exc == '' else [], exc=exc or e0, same=open(name).read() == t)
        if exc == '' and 'C16' in props:
            for f in new[:2]:
                v, e = parse(f)
                used = [[k, c] for k, c in vals_ if k not in ('a_coeffs_range', 'b_coeffs_range', 'hashtable_file')]
                used += [[k, c] for k, c in v if k in ('a_coeffs_range', 'b_coeffs_range', 'hashtable_file')]
                rec.log('written', used=used, got=v, exc=e)
    in_scratch(run)


S = 8 if THOROUGH else 1
ts = [t for p in tests for t in load_tests(p)]
rng.shuffle(ts)
if 'C15' in props:
    for i, t in enumerate([t for t in ts if isinstance(t, dict) and t['k'] == 'hashtable_file']):
        if '..' not in t['raw'] and not t['raw'].strip().startswith('/'):
            parse_case(i, t)
    for i in range(400 * S):
        parse_case(i)
if 'C16' in props:
    seen = set()
    for i, t in enumerate([t for t in ts if isinstance(t, dict)]):
        if len(seen) >= (4000 if THOROUGH else 450):
            break
        if t['k'] == 'hashtable_file' and ('..' in t['raw'] or t['raw'].strip().startswith('/')):
            continue
        seen.add((t['k'], t['raw']))
        parse_case(i, t)
    bad = [{'k': k, 'raw': v} for k in sorted(BAD) for v in BAD[k]]
    for i in range(350 * S):
        parse_case(i, bad=bad[i] if i < len(bad) else None)
    for i in range(12 * S):
        run_case(i)
    for i in range(20 * S):
        dist_case('dist-%d' % i, confgen.ab_range(rng), confgen.ab_range(rng), rng.choice([1, 2, 4]))
if 'C14' in props:
    for i, t in enumerate([t for t in ts if isinstance(t, list)][:(3600 if THOROUGH else 400)]):
        a, b = deal(t)
        split_case('box-%d' % i, a, b)
    for i in range(200 * S):
        split_case('split-%d' % i, confgen.ab_range(rng, rng.choice([2, 6, 40, 1000])), confgen.ab_range(rng, rng.choice([2, 6, 40, 1000])))
    for i in range(80 * S):
        dist_case('dist-%d' % i, confgen.ab_range(rng), confgen.ab_range(rng), rng.choice([1, 2, 4, 8, 16, 3, 6]))
rec.close()
