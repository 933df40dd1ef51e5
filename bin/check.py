#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree.

1. TLC checks the property on the specification (the suite's model-checking configurations).
2. TLC generates behaviours of the specification; the suite's driver replays them, and its own random ones, on the
   real code and records a trace.
3. TLC steps the specification along the trace; every contradicted clause is a violation.

Exit 0: held on everything explored (listed findings are printed as KNOWN-FINDING); 1: a VIOLATION line; 2: an error of
the machinery itself."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from suites import SUITES, PROPERTIES

PYTHON = '/opt/venv/bin/python'
T = '/opt/veriftools/tla'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
JAVA = ['java', '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4',
        '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigNumOverrides',
        '-cp', '%s/build:%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (V, T, T), 'tlc2.TLC', '-noGenerateSpecTE']


class MachineryError(Exception):
    pass


def ensure_build():
    cls = os.path.join(V, 'build', 'BigNumOverrides.class')
    src = os.path.join(V, 'spec', 'java', 'BigNumOverrides.java')
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(os.path.join(V, 'build'), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.join(V, 'build'))
        subprocess.run(['javac', '-nowarn', '-cp', T + '/tla2tools.jar', '-d', tmp, src], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.replace(os.path.join(tmp, 'BigNumOverrides.class'), cls)
        os.rmdir(tmp)


def tlc(work, spec, cfg, extra=(), env=None, heap='3g', timeout=800):
    meta = tempfile.mkdtemp(dir=work)
    cmd = JAVA[:1] + ['-Xmx' + heap] + JAVA[1:] + ['-metadir', meta, '-config', cfg] + list(extra) + [spec + '.tla']
    p = subprocess.run(cmd, cwd=os.path.join(V, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, **(env or {})), timeout=timeout, text=True, errors='replace')
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def counts(text):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))


def model_check(work, spec, cfg):
    rc, text = tlc(work, spec, cfg, ['-workers', '3'], env={'TRACE': os.devnull})
    if rc != 0 or 'No error has been found' not in text:
        raise MachineryError('%s %s: the specification does not satisfy its properties\n%s' % (spec, cfg, text[-1500:]))
    gen, distinct = counts(text)
    return {'config': cfg, 'generated': gen, 'distinct': distinct}


def generate(work, spec, cfg, extra):
    """The behaviours TLC prints as TEST lines, written one per line to a file."""
    rc, text = tlc(work, spec, cfg, ['-workers', '1'] + [x.replace('$SEED', str(SEED)) for x in extra])
    tests = []
    for line in text.splitlines():
        if line.startswith('"TEST '):
            tests.append(json.loads(json.loads(line)[5:]))
    if rc != 0 or not tests:
        raise MachineryError('%s %s: no behaviours\n%s' % (spec, cfg, text[-1500:]))
    path = os.path.join(work, 'tests-%s.ndjson' % os.path.splitext(cfg)[0])
    with open(path, 'w') as f:
        for t in tests:
            f.write(json.dumps(t) + '\n')
    return path, len(tests)


def run_driver(work, driver, props, tests, part, timeout):
    trace = os.path.join(work, 'trace-%s.ndjson' % (part or 'all'))
    env = dict(os.environ, VERIF_TIER=TIER, VERIF_SEED=str(SEED), PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
               PYTHONHASHSEED='0', PYTHONINTMAXSTRDIGITS='0', VERIF_PART=part or '',
               VERIF_ROOT=V)
    try:
        p = subprocess.run([PYTHON, '-W', 'ignore', os.path.join(V, 'drivers', driver), trace, ','.join(props)] + tests,
                           cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise MachineryError('driver %s did not finish in %d s' % (driver, timeout))
    return trace, p.returncode, p.stdout


def import_problem(text):
    """The driver died of a Python exception while importing or observing the code under test."""
    return 'Traceback (most recent call last)' in text and 'MemoryError' not in text


def shards(work, trace, n):
    """The trace's cases dealt into n files, keeping the lines of a case together and in order."""
    lines = [l for l in open(trace) if l.strip()]
    cases = []
    for l in lines:
        c = json.loads(l)['case']
        if not cases or cases[-1][0] != c:
            cases.append((c, []))
        cases[-1][1].append(l)
    n = max(1, min(n, len(cases)))
    buckets = [[0, []] for _ in range(n)]
    for c in sorted(range(len(cases)), key=lambda i: -sum(len(l) for l in cases[i][1])):
        b = min(buckets, key=lambda b: b[0])
        b[0] += sum(len(l) for l in cases[c][1]) + 200
        b[1].append(c)
    out = []
    for i, (_, idx) in enumerate(buckets):
        path = '%s.%d' % (trace, i)
        with open(path, 'w') as f:
            for c in sorted(idx):
                f.writelines(cases[c][1])
        out.append(path)
    return out, cases


FAIL = re.compile(r'<<"FAIL", (\d+), "([^"]+)", "((?:[^"\\]|\\.)*)">>')


def validate(work, spec, cfg, path):
    """(failures, lines, states): failures are (case, line number, property, clause)."""
    lines = [l for l in open(path)]
    failures, start, states = [], 0, 0
    # a line the specification cannot interpret at all ends TLC: it is reported and the next cases are still judged
    while start < len(lines):
        sub = path if start == 0 else path + '.rest'
        if start:
            with open(sub, 'w') as f:
                f.writelines(lines[start:])
        rc, text = tlc(work, spec, cfg, ['-workers', '1'], env={'TRACE': sub}, heap='2500m')
        gen, distinct = counts(text)
        states += distinct
        flat = re.sub(r'\n\s+', ' ', text)
        flat = flat.replace('<< "FAIL"', '<<"FAIL"').replace('" >>', '">>')
        for m in FAIL.finditer(flat):
            i = start + int(m.group(1)) - 1
            failures.append((json.loads(lines[i])['case'], i, m.group(2), m.group(3)))
        m = re.search(r'<<\s*"DONE", (\d+), (\d+)\s*>>', flat)
        if m and m.group(1) == m.group(2) and rc == 0:
            return failures, len(lines), states
        if 'analysis failed' in text or 'OutOfMemory' in text or 'StackOverflow' in text or ('Evaluating' not in text and 'evaluat' not in text and 'Attempted' not in text):
            raise MachineryError('%s stopped on %s\n%s' % (spec, path, text[-1500:]))
        # the states TLC computed before it stopped: the last printed value of l, or all that were generated
        ls = re.findall(r'/\\ l = (\d+)', text)
        if not ls:
            raise MachineryError('%s stopped on %s\n%s' % (spec, path, text[-1500:]))
        i = start + int(ls[-1]) - 1
        if i >= len(lines):
            raise MachineryError('%s stopped on %s\n%s' % (spec, path, text[-1500:]))
        case = json.loads(lines[i])['case']
        why = re.findall(r'(?:Attempted|In evaluation|The error occurred|evaluat)[^\n]*', text)
        failures.append((case, i, '*', 'the recorded observation cannot be a behaviour: %s' % (why[0][:150] if why else '?')))
        while i < len(lines) and json.loads(lines[i])['case'] == case:
            i += 1
        start = i
    return failures, len(lines), states


def findings(prop):
    """case ids of the listed findings of this property"""
    out = {}
    path = os.path.join(V, 'known_findings.txt')
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r'finding: property=(\S+) case=(\S+) (.*)', line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def main(prop):
    t0 = time.time()
    os.makedirs(os.path.join(V, 'evidence', 'replays'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return check(prop, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, work, t0):
    ensure_build()
    spec_models, traces, bad, samples = [], 0, [], []
    behaviours = trace_states = trace_lines = 0
    ops = {}
    with ThreadPoolExecutor(max_workers=8) as pool:
        models = []
        for name in PROPERTIES[prop]['suites']:
            s = SUITES[name]
            for m in s.get('mc', []):
                if m.get('props') and prop not in m['props']:
                    continue
                models.append(pool.submit(model_check, work, m['spec'], m.get(TIER, m['quick'])))
        for name in PROPERTIES[prop]['suites']:
            s = SUITES[name]
            gens = [pool.submit(generate, work, g['spec'], g['cfg'], g.get(TIER, g.get('extra', [])))
                    for g in s.get('gen', []) if not g.get('props') or prop in g['props']]
            tests = []
            for g in gens:
                path, n = g.result()
                tests.append(path)
                behaviours += n
            parts = s.get('parts', {}).get(prop, [''])
            futs = [pool.submit(run_driver, work, s['driver'], [prop], tests, p, s.get('timeout', 700 if TIER == 'quick' else 7200))
                    for p in parts]
            merged = os.path.join(work, 'trace.ndjson')
            with open(merged, 'w') as whole:
                for fut in futs:
                    trace, rc, text = fut.result()
                    if rc != 0:
                        if import_problem(text):
                            bad.append((name, 'import', '*', 'the code under test cannot be imported or driven: %s' % text.strip().splitlines()[-1][:200], [text[-1500:]]))
                            continue
                        raise MachineryError('driver %s failed (exit %s)\n%s' % (s['driver'], rc, text[-1500:]))
                    with open(trace) as f:
                        shutil.copyfileobj(f, whole)
            files, cases = shards(work, merged, s.get('shards', 7))
            traces += len(cases)
            bycase = {}
            for c, ls in cases:
                bycase.setdefault(c, []).extend(ls)
                for l in ls:
                    op = json.loads(l)['op']
                    ops[op] = ops.get(op, 0) + 1
            for c, ls in cases[:1] + cases[len(cases) // 2:len(cases) // 2 + 1]:
                samples.append({'case': c, 'events': [json.loads(l) if len(l) < 900 else l[:900] for l in ls[:3]]})
            for f, n, st in pool.map(lambda p: validate(work, s['trace'], s.get('trace_cfg', 'Trace.cfg'), p), files):
                trace_states += st
                trace_lines += n
                for case, line, fprop, clause in f:
                    bad.append((name, case, fprop, clause, bycase[case]))
        for m in models:
            spec_models.append(m.result())
    known = findings(prop)
    mine = [b for b in bad if b[2] in (prop, '*')]
    others = sorted({(b[2], b[3]) for b in bad if b[2] not in (prop, '*')})
    new = [b for b in mine if b[1] not in known]
    for case in sorted({b[1] for b in mine if b[1] in known}):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, case, known[case]))
    replay = ''
    if new:
        replay = os.path.join(V, 'evidence', 'replays', '%s.json' % prop)
        with open(replay, 'w') as f:
            seen = {}
            for b in new:
                seen.setdefault((b[0], b[1]), {'suite': b[0], 'case': b[1], 'clauses': [],
                                               'events': [json.loads(l) if l.startswith('{') else l for l in b[4]]})
                seen[(b[0], b[1])]['clauses'].append(b[3])
            json.dump({'property': prop, 'seed': SEED, 'tier': TIER, 'cases': list(seen.values())[:20]}, f, indent=1)
        for clause in sorted({(b[1], b[3]) for b in new})[:8]:
            print('  %s: %s' % clause)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    for o in others[:5]:
        print('note: this run also contradicts %s (%s); its own check decides that' % o)
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
          'level': PROPERTIES[prop].get('level', 'model_checking'),
          'coverage': {'states': sum(m['distinct'] for m in spec_models) + trace_states,
                       'transitions': sum(m['generated'] for m in spec_models) + trace_lines,
                       'traces_validated_against_impl': traces,
                       'trace_events': trace_lines, 'events_by_kind': ops,
                       'behaviours_generated_from_spec': behaviours, 'models': spec_models,
                       'samples': samples[:4]},
          'assumptions': PROPERTIES[prop].get('assumptions', []),
          'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    with open(os.path.join(V, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d model states, %d cases (%d events) of the real code, %d violations, %.0f s' %
          (prop, ev['coverage']['states'], traces, trace_lines, len(new), time.time() - t0))
    return 1 if new else 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1])
    except MachineryError as e:
        print('ERROR: %s' % e)
        rc = 2
    sys.exit(rc)
