"""C09: densities and constraints are exact (bounded-exhaustive over models,
assignments and histories, against the reference of vlib.dist)."""

import math

from itertools import combinations, product

from vlib import fastsym    # First: see there.
from vlib import dist, models, tiny, snap, tomodel, tosppl
from vlib.core import attempt
from vlib.models import KINDS

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of models, assignments and constrain/condition histories on the real code against a reference measure'
LEVEL_NOTE = 'Exhaustive within the stated families: every total and partial assignment over a grid of values on every model of the family, also after every history of the alphabet. Points where the reference density is discontinuous are not probed. Agreement is to 1e-7 (relative above 1).'
BOUNDS = {
    'quick': 'all models x all assignments of 1..3 base variables over up to 8 values per '
        'variable (density) x posterior probes; after each of 4 condition and 4 constrain steps; 2 renamings of the variables',
    'thorough': 'the same with histories of two steps',
}
ASSUMPTIONS = [
    'the density at a point is compared only away from the boundary of the '
    'evidence, where it is defined up to a set of measure zero',
    'numerical agreement within 1e-7 counts as equal',
]
TOL = 1e-7

VALUES = {
    'real': [0.25, 1, 0, 0.75, -2.5, 'a', -0.5, 2],
    'nom': ['a', 'b', 'zz', 'c', 0.5, 'x'],
}

def base_vars(ref_model):
    vs = set(ref_model.comps[0].leaves)
    for c in ref_model.comps:
        vs &= set(c.leaves)
    return sorted(vs, key='XNYZWM'.index)

def assignments(ref_model, n, upto=3):
    vs = base_vars(ref_model)
    out = []
    for k in range(1, min(upto, len(vs)) + 1):
        m = n if k == 1 else min(n, 4) if k == 2 else min(n, 3)
        for names in combinations(vs, k):
            for vals in product(*[VALUES[KINDS[v]][:m] for v in names]):
                out.append([list(t) for t in zip(names, vals)])
    return out

def steps(spec, ref_model, n):
    """Operations that start from other than the initial model."""
    l = models.literals(spec, 6)
    (a, b, c, d) = (l + l)[:4]
    out = [['cond', a], ['cond', ['or', ['not', b], ['and', a, c]]],
        ['cond', ['not', ['and', b, c]]], ['cond', d]][:n]
    vs = base_vars(ref_model)
    for v in vs[:2]:
        for x in VALUES[KINDS[v]][:2]:
            out.append(['constr', [[v, x]]])
    return out

def cases(tier):
    quick = tier == 'quick'
    n = 8
    out = []
    for name, spec in models.ALL.items():
        r = dist.build(spec)
        for h in [[]] + [[s] for s in steps(spec, r, 4)]:
            out.append((len(h), {'model': name, 'spec': spec, 'hist': h, 'n': n if not h else 4}))
        if not quick:
            for h in product(steps(spec, r, 4), repeat=2):
                out.append((2, {'model': name, 'spec': spec, 'hist': list(h), 'n': 3}))
    # The same models with names in other orders.
    for k, names in enumerate(models.NAMES):
        for name, spec in models.ALL.items():
            if len(dist.symbols(spec)) > 1:
                r = dist.build(spec)
                for h in [[]] + [[s] for s in steps(spec, r, 4)][1:None if not quick else 2]:
                    out.append((1, {'model': name, 'spec': spec, 'hist': h, 'n': 3, 'names': names}))
    # Probabilities far below the smallest float.
    out += [(0, {'tiny': name}) for name in tiny.MODELS]
    out.sort(key=lambda t: t[0])
    return [c for _, c in out]

def run_case(c, rec):
    if 'tiny' in c:
        return tiny.run_density(c['tiny'], rec)
    tosppl.use_names(c.get('names'))
    name = c['model'] + ''.join(':' + n for n in sorted(c.get('names', {}).values())[:1])
    spec = c['spec']
    ref_model = dist.build(spec)
    got = attempt(lambda: tomodel.model(spec))
    if got[0] == 'err':
        return rec.fail('build:' + name, 'building %s raised %r' % (name, got[1]))
    spe = got[1]
    path = name
    for step in c['hist']:
        rec.step()
        (path, spe, ref_model, ok) = take(path, spe, ref_model, step, rec)
        if not ok:
            return None
    before = snap.snap(spe)
    for asg in assignments(ref_model, c['n']):
        probe(path, spe, ref_model, asg, spec, rec)
    rec.expect(snap.snap(spe) == before, 'mutated:' + path,
        lambda: 'queries changed the model %s' % (path,))
    return None

def key_of(path, asg):
    return ('%s|%s' % (path, asg)).replace(' ', '')

def take(path, spe, ref_model, step, rec):
    if step[0] == 'cond':
        new = '%s given %s' % (path, step[1])
        f = lambda: spe.condition(tosppl.event(step[1]))
        g = lambda: ref_model.condition(step[1])
    else:
        new = '%s given %s' % (path, step[1])
        if boundary(ref_model, step[1]):
            return (new, spe, ref_model, False)
        f = lambda: spe.constrain(tomodel.assignment(step[1]))
        g = lambda: ref_model.constrain(dict(map(tuple, step[1])))
    got = attempt(f)
    rec.trace()
    try:
        ref_new = g()
    except dist.Zero:
        rec.expect(got[0] == 'err', key_of(new, ''), lambda:
            '%s: zero probability or density, expected an exception, got %r' % (new, got[1]))
        return (new, spe, ref_model, False)
    if not rec.expect(got[0] == 'ok', key_of(new, ''), lambda:
            '%s raised %r' % (new, got[1])):
        return (new, spe, ref_model, False)
    return (new, got[1], ref_new, True)

def boundary(ref_model, asg):
    """Is a value of a continuous variable on the boundary of the evidence or
    of the support?"""
    from vlib import ref
    for c in ref_model.comps:
        for (v, x) in asg:
            d = c.leaves[v]
            if d.atomic or isinstance(x, str):
                continue
            if x in (d.lo, d.hi):
                return True
            for ev in c.evid:
                if any(ref.same(p, x) for p in ref.crit(ev, v)):
                    return True
    return False

def close(a, b):
    return abs(a - b) <= TOL * max(1., abs(b))

def probe(path, spe, ref_model, asg, spec, rec):
    if boundary(ref_model, asg):
        rec.outcome('boundary')
        return
    key = key_of(path, asg)
    (dim, want) = ref_model.density(dict(map(tuple, asg)))
    rec.state(key)
    rec.step()
    assignment = tomodel.assignment(asg)
    copy = dict(assignment)
    got = attempt(lambda: (float(spe.pdf(assignment)), float(spe.logpdf(assignment))))
    rec.trace(2)
    ok = got[0] == 'ok' and close(got[1][0], want) \
        and close(math.exp(min(got[1][1], 50.)), want)
    rec.expect(ok, key, lambda: 'density of %s at %s: %r, expected %r'
        % (path, asg, got[1], want))
    rec.outcome('zero' if want == 0 else 'dim%s' % (dim,))
    post = attempt(lambda: spe.constrain(assignment))
    rec.trace()
    rec.expect(assignment == copy, key, lambda: 'the assignment was modified')
    if want == 0:
        rec.expect(post[0] == 'err', key, lambda:
            'constraining %s to %s, density zero, gave %r' % (path, asg, post[1]))
        return
    if not rec.expect(post[0] == 'ok', key, lambda:
            'constraining %s to %s raised %r' % (path, asg, post[1])):
        return
    post = post[1]
    bad = snap.ill_formed(post)
    rec.expect(not bad, key, lambda:
        'constraining %s to %s: ill-formed result: %s' % (path, asg, bad))
    rec.expect(post.get_symbols() == spe.get_symbols(), key, lambda:
        'constraining %s to %s: symbols %s' % (path, asg, post.get_symbols()))
    ref_post = ref_model.constrain(dict(map(tuple, asg)))
    l = models.literals(spec, 8)
    (a, b, c) = (l + l)[:3]
    fixed = [['in', ['id', v], ['nom', [x], False] if isinstance(x, str) else ['fin', [x]]]
        for v, x in asg]
    for ev in [a, b, c, ['or', a, ['not', b]]] + fixed:
        p = ref_post.prob(ev)
        event = tosppl.event(ev)
        got = attempt(lambda: float(post.prob(event)))
        rec.trace()
        rec.expect(got[0] == 'ok' and close(got[1], p), key, lambda:
            '%s constrained to %s\nP(%s) = %r, expected %r' % (path, asg, event, got[1], p))
    # The constrained model has a density of its own.
    back = attempt(lambda: float(post.pdf(assignment)))
    rec.trace()
    rec.expect(back[0] == 'ok' and close(back[1], 1.), key, lambda:
        '%s constrained to %s: density there %r, expected 1' % (path, asg, back[1]))
    # It can be conditioned (on what is certain, and on what is impossible).
    sure = tosppl.event(fixed[0])
    got = attempt(lambda: float(post.condition(sure).prob(tosppl.event(a))))
    want_a = ref_post.prob(a)
    rec.trace()
    rec.expect(got[0] == 'ok' and close(got[1], want_a), key, lambda:
        '%s constrained to %s, conditioned on %s: P = %r, expected %r'
        % (path, asg, sure, got[1], want_a))
    got = attempt(lambda: post.condition(tosppl.event(['not', fixed[0]])))
    rec.trace()
    rec.expect(got[0] == 'err' and isinstance(got[1], ValueError), key, lambda:
        '%s constrained to %s: conditioning on the negation gave %r, expected ValueError'
        % (path, asg, got[1]))
    rec.sample({'model': path, 'assignment': asg, 'density': want})
