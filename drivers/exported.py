"""Reading back what an export wrote: the rows of the table, the tokens of the equations."""
from common import *
import ast
import csv
import re

BADX = {'kind': 'ulcd', 'p': ['0', '0', '0', '0']}
TOKEN = re.compile(r'\\[A-Za-z]+|[A-Za-z_][A-Za-z0-9_]*|(?<=\^)\d|\d+|[-+^{}()=]|\S')     # x^12 is typeset x^1 2


def tokens(text):
    text = re.sub(r'\\(left|right|big|Big)\s*([()])', r' \2 ', text)
    return TOKEN.findall(text)


NUMBER = re.compile(r'-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?|-?\binf\b|\bnan\b')


def numbers(text):
    r = []
    for t in NUMBER.findall(text):
        if 'n' in t:
            r.append({'s': '0', 'e': 0})
            continue
        m, _, x = t.lower().partition('e')
        i, _, d = m.partition('.')
        r.append({'s': str(int(i + d)), 'e': int(x or 0) - len(d)})
    return r


def row(r):
    try:
        x = ast.literal_eval(r[4])
        if len(x) == 4:
            lx = {'kind': 'ulcd', 'p': [str(int(c)) for c in x]}
        else:
            lx = {'kind': 'rat', 'n': [str(int(c)) for c in x[0]], 'd': [str(int(c)) for c in x[1]], 'k': str(int(x[2]))}
        return {'a': polys(ast.literal_eval(r[0])), 'b': polys(ast.literal_eval(r[1])), 'f': r[2], 'kind': r[3], 'x': lx, 'ctype': r[5],
                'rate': numbers(r[6]), 'value': r[7], 'lhs': r[8]}
    except Exception:
        return {'a': [], 'b': [], 'f': '?', 'kind': '?', 'x': BADX, 'ctype': '?', 'rate': [], 'value': '?', 'lhs': '?'}


def table(path):
    with open(path, newline='') as f:
        rows = list(csv.reader(f))
    return {'head': rows[0], 'columns': len(rows[1]), 'rows': [row(r) for r in rows[2:]]}


def tex_equations(text):
    bodies = re.findall(r'\\begin\{(?:alignat|align|equation|gather)\*?\}(?:\{\d+\})?(.*?)\\end\{(?:alignat|align|equation|gather)\*?\}', text, re.S)
    return [tokens(re.sub(r'%\s*\n', '\n', b)) for b in bodies]
