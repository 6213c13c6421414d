"""C08: conditioning is exact (bounded-exhaustive over histories of
conditioning events, against the reference measure of vlib.dist)."""

import json

from vlib import fastsym    # First: see there.
from vlib import dist, models, tiny, snap, tomodel, tosppl
from vlib.core import attempt

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of conditioning histories on the real code against a reference measure'
LEVEL_NOTE = 'Exhaustive within the stated families: every model of the family, every history of conditioning events to the stated length over the event alphabet, probed with every event of a probe set. Agreement is to 1e-7.'
BOUNDS = {
    'quick': 'all models x 16 signed literals, all two- and three-literal shapes over 3 '
        'literals, four-literal shapes over 4; all ordered pairs of an alphabet of 5 events; '
        '9 one-variable models x every union of 6 points or intervals, probed on each; '
        '2 renamings of the variables; every second of the 625 models built by 2 operations',
    'thorough': 'shapes over 6 literals, pairs of 14 events, triples of 6 events',
}
ASSUMPTIONS = [
    'one representative per cell of the critical-point partition decides an event',
    'numerical agreement within 1e-7 counts as equal',
]
TOL = 1e-7

def alphabet(spec, n):
    """A few events of different shapes on the variables of the model."""
    l = models.literals(spec, 8)
    a, b, c, d = (l + l)[:4]
    evs = [a, ['not', b], ['or', c, b], ['not', ['and', a, c]], d,
        ['or', ['and', a, b], c], ['or', ['not', d], ['and', c, ['not', a]]],
        ['and', ['or', a, d], ['not', c]], ['xor', a, b], c,
        ['or', ['and', a, b], ['and', b, c], ['and', c, d]], ['not', d], ['or', a, b],
        ['not', ['or', a, ['not', c]]]]
    return evs[:n]

def cases(tier):
    quick = tier == 'quick'
    out = []
    for name, spec in models.ALL.items():
        lits = models.literals(spec, 3 if quick else 6)
        evs = models.events1(models.literals(spec, 8 if quick else 20))
        groups = [[[e] for e in evs], [[e] for e in models.events2(lits)]]
        if quick:
            e3 = list(models.events3(lits[:3])) + list(
                models.events4(models.literals(spec, 4)))
        else:
            e3 = list(models.events3(lits)) + list(models.events4(lits))
        e3 += list(models.events6(models.literals(spec, 6)))
        groups.append([[e] for e in e3])
        groups.append([[e] for e in models.mixed_events(spec)[::2 if quick else 1]])
        al = alphabet(spec, 5 if quick else 14)
        groups.append([[a, b] for a in al for b in al])
        if not quick:
            al = al[:6]
            groups.append([[a, b, c] for a in al for b in al for c in al])
        for g, hs in enumerate(groups):
            for i in range(0, len(hs), 12):
                out.append((g, {'model': name, 'spec': spec, 'hs': hs[i:i+12]}))
    # The same models with names in other orders.
    for k, names in enumerate(models.NAMES):
        for name, spec in models.ALL.items():
            if len(dist.symbols(spec)) > 1:
                al = alphabet(spec, 10 if quick else 14)
                hs = [[e] for e in al] + [[a, b] for a in al[1:3 if quick else 6] for b in al[1:4 if quick else 6]]
                out.append((2, {'model': 'names%d:%s' % (k, name), 'spec': spec, 'hs': hs, 'names': names}))
    # Models built by sequences of operations.
    specs = list(models.histories(2))[::1 if not quick else 2]
    for i in range(0, len(specs), 10):
        out.append((3, {'specs': specs[i:i+10], 'n': 3 if quick else 8}))
    # Every union of pieces of the line, probed on every piece.
    for name, spec in PIECES.items():
        parts = POINTS if name in DISCRETE else INTERVALS
        subsets = [m for m in range(1, 2**len(parts))]
        for i in range(0, len(subsets), 16):
            out.append((0, {'pieces': name, 'masks': subsets[i:i+16]}))
    # A derived variable that is undefined for half of the outcomes.
    for h in PARTIAL_HISTORIES:
        out.append((0, {'model': 'partial', 'spec': PARTIAL, 'hs': [[h]]}))
    # Probabilities far below the smallest float.
    out += [(0, {'tiny': name}) for name in tiny.MODELS]
    out.sort(key=lambda t: t[0])
    return [c for _, c in out]

PARTIAL = models.prod(models.let(models.norm('X'), 'Y', ['log', models.X, 2]),
    models.norm('Z'))
_Y, _Z = ['cmp', models.Y, '<', 0], ['cmp', models.Z, '<', 0]
PARTIAL_HISTORIES = [
    _Y, ['not', _Y], ['and', _Y, _Z], ['and', ['not', _Y], _Z],
    ['or', _Y, _Z], ['or', _Z, _Y], ['or', _Y, ['not', _Y]],
    ['or', ['cmp', models.X, '>', -1], _Y], ['or', _Y, ['cmp', models.X, '>', -1]],
]

GAP = models.disc('X', [-1, '1/8'], [1, '1/2'], [3, '1/4'], [4, '1/8'])
PIECES = {
    'gap': GAP,
    'randint': models.randint('X', -1, 4),
    'pois': models.pois('X'),
    'gap+pois': models.mix(['1/4', GAP], ['3/4', models.pois('X')]),
    'gap+atom': models.mix(['1/4', GAP], ['3/4', models.atom('X', 2)]),
    'norm': models.norm('X'),
    'unif': models.unif('X', 0, 2),
    'norm+unif': models.mix(['1/4', models.norm('X')], ['3/4', models.unif('X', 0, 2)]),
    'unif+unif': models.mix(['1/4', models.unif('X', -2, 1)], ['3/4', models.unif('X', 1, 2)]),
}
DISCRETE = ('gap', 'randint', 'pois', 'gap+pois', 'gap+atom')
POINTS = [['fin', [k]] for k in range(-1, 5)]
INTERVALS = [['iv', a, b, False, True] for a, b in (('-inf', -1), (-1, 0), (0, '1/2'), ('1/2', 1), (1, 2), (2, 'inf'))]

def run_pieces(c, rec):
    name = c['pieces']
    spec = PIECES[name]
    parts = POINTS if name in DISCRETE else INTERVALS
    spe = tomodel.model(spec)
    base = dist.build(spec)
    mass = [base.prob(['in', models.X, s]) for s in parts]
    events = [tosppl.event(['in', models.X, s]) for s in parts]
    for mask in c['masks']:
        keep = [i for i in range(len(parts)) if mask >> i & 1]
        key = 'pieces|%s|%d' % (name, mask)
        rec.state(key)
        # A finite set, or a disjunction of intervals.
        if name in DISCRETE:
            ev = tosppl.event(['in', models.X, ['fin', [k - 1 for k in keep]]])
        else:
            ev = events[keep[0]]
            for k in keep[1:]:
                ev = ev | events[k]
        total = sum(mass[i] for i in keep)
        rec.step()
        rec.trace()
        got = attempt(spe.condition, ev)
        if total == 0:
            rec.outcome('zero')
            rec.expect(got[0] == 'err' and isinstance(got[1], ValueError), key, lambda:
                '%s given %s: probability zero, expected ValueError, got %r' % (name, ev, got[1]))
            continue
        if not rec.expect(got[0] == 'ok', key, lambda: '%s given %s raised %r' % (name, ev, got[1])):
            continue
        rec.outcome('pieces')
        bad = snap.ill_formed(got[1])
        rec.expect(not bad, key, lambda: '%s given %s\nill-formed result: %s' % (name, ev, bad))
        for i in range(len(parts)):
            want = mass[i]/total if i in keep else 0
            q = attempt(lambda: float(got[1].prob(events[i])))
            rec.trace()
            rec.expect(q[0] == 'ok' and abs(q[1] - want) <= TOL, key, lambda:
                '%s given %s\nP(%s) = %r, expected %r' % (name, ev, events[i], q[1], want))

def probes(spec):
    l = models.literals(spec, 6)
    (a, b, c, d) = (l + l)[:4]
    return [a, c, ['or', ['not', b], d], ['not', ['and', b, c]]]

def run_case(c, rec):
    if 'tiny' in c:
        return tiny.run_cond(c['tiny'], rec)
    if 'pieces' in c:
        return run_pieces(c, rec)
    if 'specs' in c:
        for spec in c['specs']:
            name = json.dumps(spec).replace('"', '').replace(' ', '')
            run_case({'model': name, 'spec': spec, 'hs': [[e] for e in alphabet(spec, 8)[1:c['n'] + 1]]}, rec)
        return None
    tosppl.use_names(c.get('names'))
    name = c['model']
    base_ref = dist.build(c['spec'])
    got = attempt(lambda: tomodel.model(c['spec']))
    if got[0] == 'err':
        return rec.fail('build:' + name, 'building %s raised %r' % (name, got[1]))
    spe = got[1]
    before = snap.snap(spe)
    prbs = probes(c['spec'])
    events = [tosppl.event(e) for e in prbs]
    for hist in c['hs']:
        run_history(name, spe, base_ref, hist, prbs, events, rec)
    rec.expect(snap.snap(spe) == before, 'mutated:' + name,
        lambda: 'conditioning changed the model %s itself' % (name,))
    return None

def run_history(name, spe, ref_model, hist, prbs, events, rec):
    canon = hist
    if name == 'partial':
        # Both orders of a disjunction are the same input.
        canon = [[e[0]] + sorted(e[1:], key=repr) if e[0] == 'or' else e for e in hist]
    key = ('%s|%r' % (name, canon)).replace(' ', '')
    path = []
    cur = spe
    for ev in hist:
        rec.step()
        event = tosppl.event(ev)
        path.append(str(event))
        show = '%s given %s' % (name, ' then '.join(path))
        got = attempt(cur.condition, event)
        rec.trace()
        try:
            ref_model = ref_model.condition(ev)
        except dist.Zero:
            rec.outcome('zero')
            rec.state((name, repr(hist)))
            rec.expect(got[0] == 'err' and isinstance(got[1], ValueError), key,
                lambda: '%s\nprobability zero, expected ValueError, got %r' % (show, got[1]))
            return
        if got[0] == 'err':
            rec.fail(key, '%s\nraised %r' % (show, got[1]))
            return
        cur = got[1]
    rec.state((name, repr(hist)))
    bad = snap.ill_formed(cur)
    rec.expect(not bad, key, lambda: '%s\nill-formed result: %s' % (show, bad))
    rec.expect(cur.get_symbols() == spe.get_symbols(), key,
        lambda: '%s\nhas symbols %s' % (show, cur.get_symbols()))
    n = 0
    for (p, e) in zip(prbs + [hist[-1]], events + [event]):
        want = ref_model.prob(p)
        got = attempt(lambda: float(cur.prob(e)))
        rec.trace()
        n += 0 < want < 1
        rec.expect(got[0] == 'ok' and abs(got[1] - want) <= TOL, key, lambda:
            '%s\nP(%s) = %r, expected %r' % (show, e, got[1], want))
    rec.outcome('informative' if n else 'degenerate')
    rec.sample({'history': show, 'last probe': want})
