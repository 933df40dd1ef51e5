"""Random configurations and their canonical values (shared by the drivers that read or write configuration files)."""
import json
import random
from common import is_int


def can(v, poly_types, lhs_types):
    """A parsed value as the specification's canonical text."""
    if v is None:
        return 'n'
    if isinstance(v, bool):
        return 'b1' if v else 'b0'
    if is_int(v):
        return 'i%d' % v
    if isinstance(v, str):
        return 's"%s"' % v
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(can(x, poly_types, lhs_types) for x in v) + ']'
    for k, c in poly_types.items():
        if v is c:
            return 'p:' + k
    if isinstance(v, dict):
        for k, c in lhs_types.items():
            if v == c:
                return 'l:' + k
    if isinstance(v, float) and v == int(v):
        return 'f%d' % int(v)
    return '?' + type(v).__name__


def vals(config, poly_types, lhs_types):
    out = []
    for k, v in config.items():
        if k == 'postproc_funcs_filter_textual':
            continue
        out.append([k, can(v, poly_types, lhs_types)])
    return out


FUNCS = ["lambda x: x", "safe_inverse", "lambda x: x**2", "lambda x: safe_inverse(x**2)", "lambda x: x**3",
         "lambda x: safe_inverse(x**3)", "safe_sqrt", "lambda x: safe_inverse(safe_sqrt(x))", "lambda x: dec_sin(x)",
         "lambda x: dec_exp(x)", "lambda x: safe_inverse(dec_ln(x))", "lambda x: dec_cot(x)"]


def case(rng, s):
    return rng.choice([s, s, s.upper(), s.capitalize()])


def spaced(rng, s):
    """A JSON text with other blanks."""
    how = rng.random()
    if how < 0.4:
        return s
    if how < 0.6:
        return s if '"' in s else s.replace(' ', '')          # the names of functions have blanks of their own
    return s.replace(',', rng.choice([' ,', ', ', ' , '])).replace('[', rng.choice(['[', '[ '])).replace(']', rng.choice([']', ' ]']))


def ab_range(rng, width=6, inter=None):
    r = []
    for _ in range(inter or rng.choice([1, 1, 1, 2, 3])):
        p = []
        for _ in range(rng.randint(1, 3)):
            lo = rng.randint(-7, 6)
            p.append([lo, lo + rng.randint(1, width)])
        r.append(p)
    return r


def settings(rng, a=None, b=None, table='T.pkl'):
    """[name, raw text] of a complete, well-formed configuration."""
    lhs = rng.choice(['ulcd', 'rationalfunc'])
    if lhs == 'ulcd':
        lp = [rng.choice([rng.randint(1, 9), [-rng.randint(0, 3), rng.randint(1, 4)], [-4, 5, 2]]) for _ in range(4)]
    else:
        lp = [[[rng.randint(-3, 0), rng.randint(1, 3)] for _ in range(rng.randint(1, 3))] for _ in range(2)]
        lp.append(rng.choice([True, False]))
    kind = rng.choice(['normal', 'indexed', 'sparse'])
    fs = rng.sample(FUNCS, rng.randint(0, 4))
    if rng.random() < 0.1 and fs:
        fs.append(fs[0])
    j = lambda v: spaced(rng, json.dumps(v))
    n = lambda v: rng.choice(['%d', '%d', ' %d', '%03d'] + (['+%d'] if v >= 0 else [])) % v
    boolean = lambda: case(rng, rng.choice(['true', 'false']))
    s = {'const': case(rng, rng.choice(['pi', 'e', 'phi', 'zeta', 'feig', 'apery', 'euler_masch'])),
         'ab_polys_type': case(rng, kind),
         'ab_polys_special_params': j([4, 7]) if kind == 'sparse' else rng.choice(['none', 'None', '[1, 2]']),
         'print_surprising_nonexp_contfracs': boolean(),
         'gen_hashtable_only': case(rng, rng.choice(['true', 'false', 'auto', 'auto'])),
         'a_coeffs_range': j(a or ab_range(rng)), 'b_coeffs_range': j(b or ab_range(rng)),
         'lhs_type': case(rng, lhs), 'lhs_params': j(lp), 'postproc_funcs_filter': j(fs) if rng.random() < 0.5 else json.dumps(fs),
         'i': n(rng.randint(0, 20)),
         'hashtable_file_operation': case(rng, rng.choice(['generate', 'expand', 'use'])),
         'validate_hashtable_extend_no_replication': boolean(),
         'hashtable_file': table,
         'is_test': boolean()}
    for k in ('hashtable_num_of_iterations', 'hashtable_precision', 'first_filtering_num_of_iterations',
              'first_filtering_precision', 'second_filtering_max_num_of_iterations', 'second_filtering_precision',
              'third_filtering_max_num_of_iterations', 'third_filtering_precision'):
        s[k] = n(rng.randint(1, 2000))
    for k in ('i', 'validate_hashtable_extend_no_replication', 'is_test'):
        if rng.random() < 0.5:
            del s[k]
    return [[k, v] for k, v in s.items()]


def text(rng, pairs):
    """The file: sections, comments, delimiters, the case of the names; raw is what stands after the delimiter."""
    lines, out = [], []
    pairs = list(pairs)
    rng.shuffle(pairs)
    lines.append('[Setup]')
    cut = rng.randrange(len(pairs)) if len(pairs) > 3 and rng.random() < 0.2 else -1
    for i, (k, raw) in enumerate(pairs):
        if i == cut:
            lines.append('[More]')
        if rng.random() < 0.2:
            lines.append(rng.choice(['; a comment', '# a=5', '']))
        if len(raw) > 12 and rng.random() < 0.15 and ', ' in raw and raw.startswith('['):
            raw = raw.replace(', ', ',\n', 1)
        lines.append(rng.choice(['%s=%s', '%s = %s', '%s: %s', '%s=%s ']) % (rng.choice([k, k, k.upper()]), raw.replace('\n', '\n    ')))
        out.append([k, raw])
    return '\n'.join(lines) + '\n', out
