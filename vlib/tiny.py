"""Probabilities far below the smallest float, which the code under test
handles in the log domain: models, events and comparisons (the reference is
vlib.dist with numbers of any magnitude)."""

from itertools import combinations

from vlib import dist, models, tomodel, tosppl
from vlib.core import attempt
from vlib.models import (X, Y, Z, N, atom, choice, cond, constr, disc, let, mix,
    norm, pois, poly, prod, unif)

T = '1e-150'
_3 = prod(choice('N', a=T, b='1'), disc('X', [0, T], [1, '1/2'], [2, '1/2']), disc('Y', [0, T], [1, T], [2, '1']))
_XN = lambda a, b, x: prod(choice('N', a=a, b=b), x)
_TAIL = [['cmp', X, '<', -20], ['cmp', X, '<', -35], ['cmp', X, '<=', -36], ['in', X, ['iv', -38, -30, False, True]], ['cmp', poly(X, 0, 2), '<', -44]]
_TAILY = [['cmp', Y, '<', -25], ['cmp', Y, '>', 34]]
_RARE = [['in', N, ['nom', ['a'], False]], ['in', X, ['fin', [0]]], ['in', Y, ['fin', [0, 1]]], ['cmp', Y, '<', 1], ['in', X, ['fin', [0, 1]]]]
_NX = [['in', N, ['nom', ['a'], False]], ['cmp', X, '<', 1], ['in', X, ['fin', [0, 1]]], ['in', X, ['fin', [1, 2]]]]

_IV = lambda v, a, b: ['in', v, ['iv', a, b, False, True]]
# Narrow intervals; the reference tells points apart that differ by over 1e-6.
_NARROW = [_IV(X, 0, 3e-6), _IV(X, .25, .250002), _IV(X, .250002, .250005), ['cmp', X, '>', 5.5], _IV(X, 1, 1.000002)]
_NARROWY = [_IV(Y, 0, 2e-6), _IV(Y, -1, -.999997), ['cmp', Y, '<', -6]]

# name: (model, literals)
MODELS = {
    'narrow': (norm('X'), _NARROW),
    'narrow-mix': (mix(['1/4', norm('X')], ['3/4', unif('X', -1, 3)]), _NARROW[:3] + [_IV(X, -1.000002, -.999997), ['cmp', X, '>', 2]]),
    'narrow-cond': (cond(norm('X'), _IV(X, 0, .001)), [_IV(X, 0, 2e-6), _IV(X, 0, 4e-6), _IV(X, .0005, .000503), ['cmp', X, '>', .000997]]),
    'narrow-let': (let(norm('X'), 'Z', poly(X, 1, 2)), [_IV(Z, 1, 1.000004), _IV(Z, 1.5, 1.500006), _IV(X, 0, 4e-6), ['cmp', Z, '<', -11]]),
    'narrow2': (prod(norm('X'), norm('Y', 1, 1)), _NARROW[:2] + _NARROWY),
    'narrow3': (prod(norm('X'), pois('Y'), choice('N', a='1/1000000', b='999999/1000000')), _NARROW[:2] + [['cmp', Y, '>', 12], ['in', Y, ['fin', [11, 14]]], ['in', N, ['nom', ['a'], False]]]),
    'rare3': (_3, _RARE),
    'rare-mix': (mix([T, _XN('1/2', '1/2', atom('X', 0))], ['1/2', _XN(T, '1', disc('X', [0, T], [1, '1']))],
        ['1/2', _XN('1/2', '1/2', disc('X', [1, T], [2, '1']))]), _NX),
    'rare-cond': (cond(cond(_3, ['and', _RARE[1], _RARE[2]]), _RARE[3]), _RARE),
    'rare-let': (let(_3, 'Z', poly(X, -1, 0, 1)), _RARE[:2] + [['cmp', Z, '<', 0], ['in', Z, ['fin', [0, -1]]], _RARE[2]]),
    'rare-constr': (constr(mix([T, _XN('1/2', '1/2', atom('X', 0))], ['1/2', _XN(T, '1', disc('X', [0, T], [1, '1']))],
        ['1/2', _XN('1/2', '1/2', disc('X', [0, '1/4'], [2, '3/4']))]), N='a', ), _NX),
    'tail': (norm('X'), _TAIL),
    'tail-mix': (mix(['1/4', norm('X')], ['3/4', norm('X', 60, 1)]), _TAIL[:4] + [['cmp', X, '>', 59]]),
    'tail-cond': (cond(mix(['1/4', norm('X')], ['3/4', norm('X', 5, 2)]), _TAIL[0]), _TAIL[1:] + [['cmp', X, '<', -20.25]]),
    'tail2': (prod(norm('X'), norm('Y')), _TAIL[1:4] + _TAILY),
    'tail2-cond': (cond(prod(norm('X'), norm('Y')), ['and', _TAIL[1], _TAILY[0]]), _TAIL[2:4] + [_TAILY[0], ['cmp', Y, '<', -26]]),
    'tail-pois': (prod(pois('X'), norm('Y', 100, 1)), [['in', X, ['fin', [0, 9]]], ['in', X, ['fin', [9, 10]]], ['in', X, ['fin', [12]]], ['cmp', Y, '<', 50], ['cmp', Y, '<=', 60]]),
}
POINTS = {
    'narrow': [{'X': 0}, {'X': 1.5e-6}, {'X': 7}],
    'narrow-mix': [{'X': 1.5e-6}, {'X': -1}, {'X': 1.5}],
    'narrow-cond': [{'X': 1.5e-6}, {'X': .0005}],
    'narrow-let': [{'X': 1.5e-6}, {'X': -6}],
    'narrow2': [{'X': 1.5e-6, 'Y': -6}, {'Y': 1.5e-6}],
    'narrow3': [{'X': 1.5e-6, 'N': 'a'}, {'Y': 14, 'N': 'a'}, {'Y': 14}, {'X': .25, 'Y': 20, 'N': 'b'}],
    'rare3': [{'N': 'a', 'X': 0, 'Y': 0}, {'N': 'a', 'X': 1, 'Y': 1}, {'Y': 0}, {'X': 0, 'Y': 0}],
    'rare-mix': [{'N': 'a', 'X': 0}, {'N': 'a', 'X': 1}, {'N': 'b', 'X': 1}, {'N': 'b', 'X': 2}, {'X': 0}, {'N': 'a'}],
    'rare-cond': [{'N': 'a', 'X': 0, 'Y': 0}, {'N': 'b', 'X': 0, 'Y': 1}, {'Y': 0}, {'N': 'a'}],
    'rare-let': [{'N': 'a', 'X': 0}, {'X': 1, 'Y': 1}],
    'rare-constr': [{'X': 0}, {'X': 2}, {'X': 1}],
    'tail': [{'X': -40}, {'X': 50}, {'X': 0}],
    'tail-mix': [{'X': -40}, {'X': 30}, {'X': 31}, {'X': 110}],
    'tail-cond': [{'X': -21}, {'X': -40}],
    'tail2': [{'X': -40, 'Y': 40}, {'X': 38}],
    'tail2-cond': [{'X': -37, 'Y': 35}, {'X': -37}, {'Y': -30}],
    'tail-pois': [{'X': 50, 'Y': 50}, {'X': 3, 'Y': 20}, {'Y': 30}],
}

def events(lits):
    out = models.events1(lits) + list(models.events2(lits)) + list(models.events3(lits[:4]))
    return out + list(models.events4(lits[:4]))

def close(got, p):
    """got = log(p) up to rounding, where p may be any number >= 0."""
    if p <= 0:
        return got == float('-inf')
    want = float(dist.M.log(p))
    return abs(got - want) <= 1e-7 * max(1, abs(want))

def log(p):
    return float(dist.M.log(p)) if p > 0 else float('-inf')

def prepare(name, rec):
    dist.precise(True)
    tosppl.use_names({})
    spec = MODELS[name][0]
    got = attempt(lambda: tomodel.model(spec))
    if not rec.expect(got[0] == 'ok', 'build:' + name, lambda: 'building %s raised %r' % (name, got[1])):
        return (None, None)
    return (got[1], dist.build(spec))

def compare_prob(name, spe, r, ev, rec, key):
    want = r.prob(ev)
    e = tosppl.event(ev)
    got = attempt(lambda: float(spe.logprob(e)))
    rec.trace()
    rec.outcome('log zero' if want <= 0 else 'log below floats' if log(want) < -745 else 'log')
    return rec.expect(got[0] == 'ok' and close(got[1], want), key, lambda:
        'model %s\nlog P(%s) = %r, expected %r' % (name, e, got[1], log(want)))

def compare_density(name, spe, r, point, rec, key):
    (d, want) = r.density(point)
    got = attempt(lambda: float(spe.logpdf(tomodel.assignment(point.items()))))
    rec.trace()
    return rec.expect(got[0] == 'ok' and close(got[1], want), key, lambda:
        'model %s\nlogpdf(%s) = %r, expected %r' % (name, point, got[1], log(want)))

def key_of(*parts):
    return '|'.join(map(str, parts)).replace(' ', '')

def run_prob(name, rec):
    (spe, r) = prepare(name, rec)
    if spe is None:
        return
    try:
        for ev in events(MODELS[name][1]):
            key = key_of('tiny', name, ev)
            rec.state(key)
            rec.step()
            compare_prob(name, spe, r, ev, rec, key)
    finally:
        dist.precise(False)

def run_cond(name, rec):
    (spe, r) = prepare(name, rec)
    if spe is None:
        return
    lits = MODELS[name][1]
    # Not on events whose complement is rare: in the arithmetic of floats their
    # probability is one, and conditioning on them is conditioning on nothing.
    # (The complements of the clauses of a disjunction are such events.)
    hists = [[e] for e in lits] + [[['and', a, b]] for a, b in combinations(lits, 2)]
    hists += [[['and', a, b, c]] for a, b, c in combinations(lits, 3)]
    hists += [[a, b] for a in lits for b in lits if a != b]
    hists += [[['and', a, b], c] for a, b in combinations(lits, 2) for c in lits]
    # The cumulative probability of a truncated distribution is one in floats
    # in its right tail.
    lits = [l for l in lits if l != _TAILY[1]]
    try:
        for h in hists:
            (s, m) = (spe, r)
            key = key_of('tiny', name, h)
            rec.state(key)
            show = name + ''.join(' given %s' % (ev,) for ev in h)
            ok = True
            for ev in h:
                rec.step()
                e = tosppl.event(ev)
                got = attempt(lambda: s.condition(e))
                rec.trace()
                try:
                    m = m.condition(ev)
                except dist.Zero:
                    rec.expect(got[0] == 'err', key, lambda: '%s: probability zero, got %r' % (show, got[1]))
                    ok = False
                    break
                if not rec.expect(got[0] == 'ok', key, lambda: '%s raised %r' % (show, got[1])):
                    ok = False
                    break
                s = got[1]
            if ok:
                for ev in lits + list(models.events2(lits[:3]))[:12]:
                    compare_prob(show, s, m, ev, rec, key)
                for point in POINTS[name]:
                    compare_density(show, s, m, point, rec, key)
    finally:
        dist.precise(False)

def run_density(name, rec):
    (spe, r) = prepare(name, rec)
    if spe is None:
        return
    lits = MODELS[name][1]
    try:
        for point in POINTS[name]:
            key = key_of('tiny', name, point)
            rec.state(key)
            rec.step()
            compare_density(name, spe, r, point, rec, key)
            for v, x in point.items():
                sub = {v: x}
                show = '%s constrained to %s' % (name, sub)
                got = attempt(lambda: spe.constrain(tomodel.assignment(sub.items())))
                rec.trace()
                try:
                    m = r.constrain(sub)
                except dist.Zero:
                    rec.expect(got[0] == 'err', key, lambda: '%s: density zero, got %r' % (show, got[1]))
                    continue
                if rec.expect(got[0] == 'ok', key, lambda: '%s raised %r' % (show, got[1])):
                    for ev in lits:
                        compare_prob(show, got[1], m, ev, rec, key)
                    for other in POINTS[name]:
                        compare_density(show, got[1], m, other, rec, key)
    finally:
        dist.precise(False)
