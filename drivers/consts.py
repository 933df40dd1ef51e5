"""C18: requests for target constants, in every form the code base uses, at every kind of precision."""
from common import *
from functools import partial

out, props, tests = args()
silence()
import gen_consts as gc
import mpmath
rng = random.Random(SEED)
rec = Recorder(out)
GEN = {'pi': gc.gen_pi_const, 'e': gc.gen_e_const, 'phi': gc.gen_phi_const, 'euler': gc.gen_euler_masch_const,
       'apery': gc.gen_apery_const, 'zeta': gc.gen_zeta_consts, 'percolation': gc.gen_percolation_consts,
       'feig': gc.gen_feig_consts}
INDEX = {'zeta': range(2, 21), 'percolation': range(2), 'feig': range(4)}
ALL = [(n, i) for n in GEN for i in INDEX.get(n, [0])]


def request(name, i, prec, form):
    g = GEN[name]
    if name in INDEX:
        if form == 'partial':
            g = partial(g, i=i)
            return g(prec) if prec else g()
        if form == 'positional':
            return g(prec or None, i)
        return g(prec=prec, i=i) if prec else g(i=i)
    if not prec:
        return g(None) if form == 'partial' else g()
    return g(prec=prec) if form == 'keyword' else g(prec)


def get(name, i, prec, form):
    v, exc = call(request, name, i, prec, form)
    rec.log('get', name=name, i=i, prec=prec, dps=mpmath.mp.dps, exc=exc, val=num(v))


def history(ident, events):
    rec.case(ident)
    set_prec(rng.choice([15, 30, 50, 120]))
    rec.log('start', dps=mpmath.mp.dps)
    for e in events:
        if e['op'] == 'set':
            set_prec(e['prec'])
            rec.log('set', prec=e['prec'])
        else:
            get(e['name'], e['i'], e['prec'], e['form'])


FORMS = ['positional', 'keyword', 'partial']
for path in tests:
    for k, t in enumerate(load_tests(path)):
        history('gen-%d' % k, t)
# every constant with all its digits, with fewer, and with more than there are
for name, i in ALL:
    ev = []
    for prec in [400, 3, 15, 150, 98, 99, 50, 104, 105, 1000] + [rng.randint(2, 160) for _ in range(20 if THOROUGH else 5)]:
        ev.append({'op': 'get', 'name': name, 'i': i, 'prec': prec, 'form': rng.choice(FORMS)})
        if rng.random() < .5:
            ev.append({'op': 'get', 'name': name, 'i': i, 'prec': 0, 'form': rng.choice(FORMS)})
    history('all-%s-%d' % (name, i), ev)
for k in range(200 if THOROUGH else 30):
    ev = []
    for _ in range(rng.randint(2, 12)):
        name, i = rng.choice(ALL)
        if rng.random() < .2:
            ev.append({'op': 'set', 'prec': rng.randint(5, 200)})
        else:
            ev.append({'op': 'get', 'name': name, 'i': i, 'prec': rng.choice([0, 0, rng.randint(2, 200)]), 'form': rng.choice(FORMS)})
    history('rnd-%d' % k, ev)
for name, i in [('zeta', 1), ('zeta', 21), ('zeta', 0), ('percolation', 2), ('feig', 4)]:
    history('no-%s-%d' % (name, i), [{'op': 'get', 'name': name, 'i': i, 'prec': rng.choice([0, 30]), 'form': f} for f in FORMS]
            + [{'op': 'get', 'name': 'zeta', 'i': 3, 'prec': 0, 'form': 'keyword'}])
rec.close()
