"""C15: mutual information is exact
(all ordered pairs of events of a finite family on every model of a family,
against the four joint probabilities of the reference)."""

import math

from vlib import fastsym    # First: see there.
from vlib import dist, models, tomodel, tosppl
from vlib.core import attempt
from vlib.models import X, poly
from sppl.spe import Memo

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of model x ordered pair of events on the real code against the reference measure'
LEVEL_NOTE = 'Every ordered pair of the event family of each model (signed literals, compound, impossible, certain and nearly certain events), in both memo modes; agreement to 1e-7.'
BOUNDS = {
    'quick': 'all models of the family x all ordered pairs of 9-10 events',
    'thorough': 'all models of the family x all ordered pairs of 20-24 events',
}
ASSUMPTIONS = ['numerical agreement within 1e-7 counts as equal',
    'events whose functions are undefined at some outcome are excluded']
TOL = 1e-7

def total(ev):
    """No function of the event is undefined anywhere."""
    s = repr(ev)
    return not any(f in s for f in ("'recip'", "'log'", "'rad'"))

def events(spec, quick):
    lits = [l for l in models.literals(spec, 14) if total(l)]
    vs = sorted(dist.symbols(spec), key='XNYZWM'.index)
    out = lits[:3 if quick else 8]
    out += [['not', lits[0]]] if quick else [['not', l] for l in lits[:4]]
    out += [['or', lits[0], lits[1]]] + ([] if quick else [['and', lits[0], lits[1]]])
    if len(lits) > 2:
        out.append(['and', ['not', lits[1]], lits[2]])
        if not quick:
            out += [['or', ['and', lits[0], lits[1]], ['not', lits[2]]], ['xor', lits[1], lits[2]]]
    v = vs[0]
    if v in 'NM':
        out += [['in', ['id', v], ['nom', ['zz'], False]], ['in', ['id', v], ['nom', ['zz'], True]]]
    else:
        out += [['cmp', poly(['id', v], 0, 0, 1), '<', 0], ['cmp', ['id', v], '<', 100], ['cmp', ['id', v], '<', 7]]
        if not quick:
            out += [['cmp', ['id', v], '>', -7], ['cmp', ['id', v], '>', 9], ['in', ['id', v], ['iv', '-inf', 'inf', True, True]]]
    seen = []
    for e in out:
        if e not in seen:
            seen.append(e)
    return seen

def cases(tier):
    quick = tier == 'quick'
    out = []
    for name, spec in models.ALL.items():
        if not total(spec):
            continue    # Derived variables that may be undefined.
        evs = events(spec, quick)
        for i in range(0, len(evs), 5):
            out.append({'model': name, 'spec': spec, 'evs': evs, 'rows': [i, min(len(evs), i + 5)]})
    return out

def xlogx(p, q):
    return 0. if p <= 0 else p * (math.log(p) - math.log(q))

def expected(pa, pb, p11):
    cells = [(p11, pa * pb), (pa - p11, pa * (1 - pb)), (pb - p11, (1 - pa) * pb), (1 - pa - pb + p11, (1 - pa) * (1 - pb))]
    return sum(xlogx(p, q) for p, q in cells if p > 1e-13 and q > 1e-26)

def run_case(c, rec):
    ref_model = dist.build(c['spec'])
    spe = tomodel.model(c['spec'])
    evs = c['evs']
    ps = [ref_model.prob(e) for e in evs]
    real = [tosppl.event(e) for e in evs]
    for i in range(*c['rows']):
        for j in range(len(evs)):
            key = ('%s|%r|%r' % (c['model'], evs[i], evs[j])).replace(' ', '')
            rec.state(key)
            rec.step()
            p11 = ref_model.prob(['and', evs[i], evs[j]])
            want = expected(ps[i], ps[j], p11)
            show = lambda: 'model %s\nmutual information of\n  %s (p=%r) and\n  %s (p=%r), joint %r' % (
                c['model'], real[i], ps[i], real[j], ps[j], p11)
            memo = [(), (Memo(),)][(i + j) % 2]
            got = attempt(lambda: float(spe.mutual_information(real[i], real[j], *memo)))
            rec.trace()
            ok = got[0] == 'ok' and abs(got[1] - want) <= TOL
            rec.expect(ok, key, lambda: '%s\nis %r, expected %r' % (show(), got[1], want))
            rec.outcome('zero' if want < 1e-9 else 'positive')
            rec.sample({'model': c['model'], 'A': str(real[i]), 'B': str(real[j]), 'mi': want})
