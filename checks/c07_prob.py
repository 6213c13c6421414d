"""C07: probabilities are exact (bounded-exhaustive, against the reference
measure of vlib.dist)."""

import json
import math

from vlib import fastsym    # First: see there.
from vlib import dist, models, tiny, tomodel, tosppl
from vlib.core import attempt

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of model x event on the real code against a reference measure that enumerates cells and outcomes'
LEVEL_NOTE = 'Exhaustive within the stated families: every model of the family with every event built from its literals by the stated Boolean shapes. Parameters, thresholds and functions outside the alphabet are not covered; agreement is to 1e-8.'
BOUNDS = {
    'quick': 'all models of the family x all signed literals, all signed pairs, '
        'and all three- and four-literal shapes over 5 literals per model; 2 renamings of '
        'the variables; the 625 models built by 2 operations (mixture, product, '
        'derived variable, conditioning); sets of numbers and strings',
    'thorough': 'the same over 8 literals per model, and the 4243 models built by 3 operations',
}
ASSUMPTIONS = [
    'between two neighbouring critical points (computed by the reference) the '
    'truth of an event is constant, so one representative per cell decides it',
    'numerical agreement within 1e-8 counts as equal',
]
TOL = 1e-8

def cases(tier):
    n = 5 if tier == 'quick' else 8
    out = []
    for name, spec in models.ALL.items():
        lits = models.literals(spec, n)
        groups = [
            models.events1(models.literals(spec, 20)),
            list(models.events2(lits)),
            list(models.events3(lits)),
            list(models.events4(lits)) + list(models.events6(models.literals(spec, 6))),
            models.mixed_events(spec),
        ]
        for g, evs in enumerate(groups):
            for i in range(0, len(evs), 20):
                out.append((g, {'model': name, 'spec': spec, 'evs': evs[i:i+20]}))
    # The same models with names in other orders.
    for k, names in enumerate(models.NAMES):
        for name, spec in models.ALL.items():
            lits = models.literals(spec, 4 if tier == 'quick' else 6)
            evs = models.events1(lits) + list(models.events2(lits))[::1 if tier != 'quick' else 2] \
                + list(models.events3(lits[:3])) + list(models.events4(lits))
            if len(dist.symbols(spec)) > 1:
                out.append((2, {'model': 'names%d:%s' % (k, name), 'spec': spec, 'evs': evs, 'names': names}))
    # Models built by sequences of operations.
    specs = list(models.histories(2 if tier == 'quick' else 3))
    for i in range(0, len(specs), 12):
        out.append((3, {'specs': specs[i:i+12]}))
    # Probabilities far below the smallest float.
    out += [(0, {'tiny': name}) for name in tiny.MODELS]
    out.sort(key=lambda t: t[0])
    return [c for _, c in out]

def history_events(spec):
    lits = models.literals(spec, 7)
    s = models.signed(lits)
    pairs = list(zip(lits, lits[1:] + lits[:1]))
    return s + [['or', a, ['not', b]] for a, b in pairs] + [['and', ['not', a], b] for a, b in pairs[::2]]

def run_case(c, rec):
    if 'tiny' in c:
        return tiny.run_prob(c['tiny'], rec)
    if 'specs' in c:
        for spec in c['specs']:
            name = json.dumps(spec).replace('"', '').replace(' ', '')
            run_case({'model': name, 'spec': spec, 'evs': history_events(spec)}, rec)
        return None
    tosppl.use_names(c.get('names'))
    ref_model = dist.build(c['spec'])
    got = attempt(lambda: tomodel.model(c['spec']))
    if got[0] == 'err':
        return rec.fail('build:' + c['model'], 'building %s raised %r' % (c['model'], got[1]))
    spe = got[1]
    for ev in c['evs']:
        check(c['model'], spe, ref_model, ev, rec)
    return None

def close(a, b):
    return abs(a - b) <= TOL

def check(name, spe, ref_model, ev, rec):
    want = ref_model.prob(ev)
    key = ('%s|%r' % (name, ev)).replace(' ', '')
    rec.state(key)
    rec.step()
    event = tosppl.event(ev)
    got = attempt(lambda: float(spe.prob(event)))
    rec.trace()
    ok = got[0] == 'ok' and close(got[1], want) and -TOL <= got[1] <= 1 + TOL
    rec.expect(ok, key, lambda: 'model %s\nP(%s) = %r, expected %r'
        % (name, event, got[1], want))
    rec.outcome('zero' if want == 0 else 'one' if close(want, 1) else 'between')
    lp = attempt(lambda: float(spe.logprob(event)))
    rec.trace()
    ok = lp[0] == 'ok' and close(math.exp(min(lp[1], 1.)), want)
    rec.expect(ok, key, lambda: 'model %s\nlog P(%s) = %r, expected log %r'
        % (name, event, lp[1], want))
    rec.sample({'model': name, 'event': str(event), 'prob': want})
