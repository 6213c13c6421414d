"""C11: samples are drawn from the model
(every decision of the random generator enumerated, on the real sampler)."""

import math

from collections import defaultdict
from itertools import combinations, product

import numpy

from vlib import fastsym    # First: see there.
from vlib import dist, models, ref, script, tomodel, tosppl
from vlib.core import attempt
from vlib.models import (X, Y, Z, N, poly, norm, unif, expon, pois, randint,
    choice, disc, atom, mix, prod, let, cond, constr, leaf)
from sppl.transforms import Id

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of the random generator\'s decisions (component choices, draws, quantile levels, orders) driving the real sampler, against the exact joint law of the reference model'
LEVEL_NOTE = 'All decision sequences of a scripted generator are explored (stateless depth-first search with replay). Discrete draws are enumerated completely; continuous ones at the mid points of equally likely quantile ranges, which is exact for the cells compared. The joint law of the N samples is compared to 1e-9.'
BOUNDS = {
    'quick': '37 models x (sample, sample_subset of every subset, sample_func of 4 kinds) x N <= 3 (fewer where the decision tree exceeds 2,500 paths)',
    'thorough': 'the same with trees of up to 60,000 paths',
}
ASSUMPTIONS = [
    'a continuous draw is represented by the mid points of 2 or 4 equally likely quantile ranges',
    'Poisson and geometric draws above 2 are represented by one value',
]
TOL = 1e-8
LIMIT = {'quick': 2500, 'thorough': 60000}

# name: (levels, model, {variable: break points}).  Cells are the open
# intervals between break points and the break points themselves.
def U(v, lo=0, hi=4):
    return unif(v, lo, hi - lo)
IV = lambda v, a, b: ['in', v, ['iv', a, b, False, False]]
NOM = lambda *xs: ['in', N, ['nom', list(xs), False]]
def _tail_median(x):
    """The median of a standard normal above x."""
    (lo, hi) = (x, x + 10.)
    for _ in range(200):
        m = (lo + hi) / 2
        if math.erfc(m / math.sqrt(2)) > math.erfc(x / math.sqrt(2)) / 2:
            lo = m
        else:
            hi = m
    return lo
_T10 = _tail_median(10.)
G4 = [0, 1, 2, 3, 4]
AB = dict(a='1/2', b='1/2')
MODELS = {
    'norm': (2, norm('X', 1, 2), {'X': [1]}),
    'unif': (4, U('X'), {'X': G4}),
    'expon': (2, expon('X', loc=1, scale=2), {'X': [1 + 2 * math.log(2)]}),
    'pois': (2, pois('X'), {'X': [0, 1, 2]}),
    'geom': (2, leaf('X', 'geom', p=0.5), {'X': [1, 2]}),
    'randint': (2, randint('X', -1, 3), {'X': [-1, 0, 1, 2]}),
    'binom': (2, leaf('X', 'binom', n=2, p=0.25), {'X': [0, 1, 2]}),
    'bern': (2, leaf('X', 'bernoulli', p=0.25), {'X': [0, 1]}),
    'disc': (4, disc('X', [-1, '1/4'], [0, '1/4'], [2, '1/2']), {'X': [-1, 0, 2]}),
    'atom': (2, atom('X', 1), {'X': [1]}),
    'nom': (2, choice('N', a='1/2', b='1/4', c='1/4'), {}),
    'nom0': (2, choice('N', a='1/4', b='3/4', c='0'), {}),
    'unif|': (4, cond(U('X'), IV(X, 1, 3)), {'X': [1, '3/2', 2, '5/2', 3]}),
    'unif||': (4, cond(U('X', 0, 8), ['or', IV(X, 0, 2), ['cmp', X, '>', 2]]), {'X': [2, 4, 6]}),
    'unif-gap': (2, cond(U('X'), ['or', ['cmp', X, '<', 1], ['cmp', X, '>', 3]]), {'X': [0, '1/2', 1, 3, '7/2']}),
    'norm|': (2, cond(norm('X'), ['cmp', X, '<', 0]), {'X': [-0.6744897501960817, 0]}),
    'norm-tail': (2, cond(norm('X'), ['cmp', X, '>', 10]), {'X': [10, _T10]}),
    'norm-left': (2, cond(norm('X'), ['cmp', X, '<', -10]), {'X': [-_T10, -10]}),
    'randint|': (4, cond(randint('X', 0, 8), IV(X, 2, 5)), {'X': [2, 3, 4, 5]}),
    'randint-gap': (2, cond(randint('X', 0, 8), ['in', X, ['fin', [1, 2, 6]]]), {'X': [1, 2, 6]}),
    'mix': (2, mix([0.25, U('X', 0, 2)], [0.75, randint('X', 5, 7)]), {'X': [0, 1, 2, 5, 6]}),
    'mix3': (2, mix([0.25, atom('X', 1)], [0.25, atom('X', 2)], [0.5, U('X', 3, 5)]), {'X': [1, 2, 3, 4]}),
    'mixnom': (2, mix([0.25, choice('N', **AB)], [0.75, choice('N', b='1/2', c='1/2')]), {}),
    'X&N': (2, prod(U('X', 0, 2), choice('N', a='1/4', b='3/4')), {'X': [0, 1, 2]}),
    'X&Y': (2, prod(norm('X'), randint('Y', 0, 2)), {'X': [0], 'Y': [0, 1]}),
    'XN+XN': (2, mix([0.25, prod(atom('X', 0), choice('N', **AB))],
                    [0.75, prod(U('X', 1, 3), choice('N', c='1'))]), {'X': [0, 1, 2]}),
    'mix&mix': (2, prod(mix([0.5, atom('X', 0)], [0.5, atom('X', 1)]),
                        mix([0.25, atom('Y', 0)], [0.75, U('Y', 1, 3)])), {'X': [0, 1], 'Y': [0, 1, 2]}),
    'nested': (2, mix([0.5, prod(atom('Y', 0), mix([0.5, atom('X', 0)], [0.5, atom('X', 1)]))],
                      [0.5, prod(atom('Y', 1), mix([0.25, atom('X', 1)], [0.75, atom('X', 2)]))]),
        {'X': [0, 1, 2], 'Y': [0, 1]}),
    'let': (4, let(U('X', -2, 2), 'Y', poly(X, 0, 0, 1)), {'X': [-2, -1, 0, 1, 2], 'Y': [0, 1, 4]}),
    'let2': (2, let(let(randint('X', -1, 2), 'Y', ['abs', X]), 'Z', poly(Y, 1, 2)), {'X': [-1, 0, 1], 'Y': [0, 1], 'Z': [1, 3]}),
    'let&': (2, let(prod(randint('X', 0, 2), choice('N', **AB)), 'Y', poly(X, 1, -1)), {'X': [0, 1], 'Y': [0, 1]}),
    'letmix': (2, let(mix([0.25, atom('X', -1)], [0.75, randint('X', 0, 2)]), 'Y', poly(X, 0, 0, 1)), {'X': [-1, 0, 1], 'Y': [0, 1]}),
    # Names whose order is not that of the definitions.
    'letback': (2, let(let(let(randint('Y', -1, 2), 'Z', ['abs', Y]), 'X', poly(['id', 'Z'], 1, 2)), 'W', poly(X, 0, -1)),
        {'Y': [-1, 0, 1], 'Z': [0, 1], 'X': [1, 3], 'W': [-3, -1]}),
    'let&back': (2, let(let(let(prod(randint('Z', 0, 2), randint('Y', 0, 2)), 'X', poly(Y, 2, 1)), 'W', poly(['id', 'Z'], 5, -1)), 'V', poly(X, 0, 2)),
        {'Z': [0, 1], 'Y': [0, 1], 'X': [2, 3], 'W': [4, 5], 'V': [4, 6]}),
    'letmixback': (2, mix([0.25, let(atom('Y', 1), 'X', poly(Y, 0, 2))], [0.75, let(randint('X', 0, 2), 'Y', poly(X, 3, 1))]),
        {'Y': [1, 3, 4], 'X': [0, 1, 2]}),
    'letatom': (2, let(atom('X', 2), 'Y', poly(X, 1, 1)), {'X': [2], 'Y': [3]}),
    'let|': (4, cond(let(U('X', -2, 2), 'Y', ['abs', X]), ['cmp', Y, '<', 1]), {'X': [-1, '-1/2', 0, '1/2', 1], 'Y': ['1/2']}),
    'XN|': (2, cond(prod(U('X'), choice('N', a='1/4', b='1/4', c='1/2')),
                   ['or', ['and', ['cmp', X, '<', 2], NOM('a', 'b')], ['and', ['cmp', X, '>', 2], NOM('c')]]),
        {'X': [0, 1, 2, 3]}),
    'constr': (2, constr(mix([0.25, prod(atom('X', 0), choice('N', **AB))],
                    [0.75, prod(U('X', 0, 2), choice('N', b='1/4', c='3/4'))]), N='b'), {'X': [0, 1]}),
    'constr2': (2, constr(prod(norm('X'), randint('Y', 0, 2)), X=0), {'X': [0], 'Y': [0, 1]}),
}

FUNCS = {
    'X': lambda X: X,
    'N': lambda N: N,
    'X,Y': lambda X, Y: (Y, X),
    'Y,N': lambda Y, N: (N, Y),
    'Y': lambda Y: [Y],
    'X,N': lambda X, N: {'n': N, 'x': X},
    'Y,X': lambda Y, X: X + Y,
    '': lambda: 7,
}
UNPACK = {
    'X': lambda r: {'X': r}, 'N': lambda r: {'N': r},
    'X,Y': lambda r: {'X': r[1], 'Y': r[0]},
    'Y,N': lambda r: {'Y': r[1], 'N': r[0]},
    'Y': lambda r: {'Y': r[0]},
    'X,N': lambda r: {'X': r['x'], 'N': r['n']},
}

def cases(tier):
    out = []
    for name, (_levels, spec, _grid) in MODELS.items():
        vs = sorted(dist.symbols(spec))
        for n in (0, 1, 2, 3):
            out.append({'model': name, 'op': 'sample', 'n': n, 'tier': tier})
        for k in range(0, len(vs) + 1):
            for sub in combinations(vs, k):
                for n in (1, 2):
                    out.append({'model': name, 'op': 'subset', 'n': n, 'sub': sub, 'tier': tier})
        for f in FUNCS:
            if not set(f.split(',')) - {''} - set(vs):
                out.append({'model': name, 'op': 'func', 'n': 2, 'func': f, 'tier': tier})
        out.append({'model': name, 'op': 'misc', 'n': 2, 'tier': tier})
    return out

def cell(v, x, grid):
    """Name of the cell that contains a value."""
    if isinstance(x, str):
        return str(x)
    ps = [ref.num(p) for p in grid[v]]
    x = float(x)
    for p in ps:
        if abs(float(p) - x) <= 1e-9:
            return 'at %d' % (ps.index(p),)
    return 'in %d' % (sum(p < x for p in ps),)

def cell_events(v, grid, noms):
    e = ['id', v]
    if v == 'N':
        return {x: ['in', e, ['nom', [x], False]] for x in noms}
    ps = grid[v]
    out = {}
    for i, p in enumerate(ps):
        out['at %d' % (i,)] = ['in', e, ['fin', [p]]]
    ends = ['-inf'] + list(ps) + ['inf']
    for i, (a, b) in enumerate(zip(ends, ends[1:])):
        out['in %d' % (i,)] = ['in', e, ['iv', a, b, True, True]]
    return out

def law(ref_model, vs, grid):
    """The exact distribution over cells of one sample."""
    noms = sorted({x for c in ref_model.comps for l in c.leaves.values()
        if isinstance(l, dist.Nominal) for x, _ in l.table})
    evs = [cell_events(v, grid, noms) for v in vs]
    out = {}
    for combo in product(*[list(e.items()) for e in evs]):
        conj = [e for _, e in combo]
        p = 1. if not conj else ref_model.prob(conj[0] if len(conj) == 1 else ['and'] + conj)
        if p > 1e-12:
            out[tuple(n for n, _ in combo)] = p
    assert abs(sum(out.values()) - 1) < 1e-6, out
    return out

_laws = {}

def run_case(c, rec):
    (levels, spec, grid) = MODELS[c['model']]
    spe = tomodel.model(spec)
    ref_model = dist.build(spec)
    n = c['n']
    if c['op'] == 'misc':
        return misc(c, spe, ref_model, rec)
    if c['op'] == 'sample':
        vs = sorted(ref_model.symbols())
        run = lambda rng: spe.sample(n, prng=rng)
        unpack = lambda r: {str(k): v for k, v in r.items()}
    elif c['op'] == 'subset':
        vs = list(c['sub'])
        symbols = {Id(v) for v in vs}
        run = lambda rng: spe.sample_subset(symbols, n, prng=rng)
        unpack = lambda r: {str(k): v for k, v in r.items()}
    else:
        vs = [v for v in c['func'].split(',') if v]
        run = lambda rng: spe.sample_func(FUNCS[c['func']], n, prng=rng)
        unpack = UNPACK.get(c['func'])
    joint = defaultdict(float)
    label = '%s of %s, N=%d%s' % (c['op'], c['model'], n,
        ', %s' % (c.get('sub', c.get('func', '')),))
    key = label.replace(' ', '_')
    paths = 0
    unscripted = None
    full = sorted(ref_model.symbols())
    try:
        for (w, got, rng) in script.explore(lambda r: attempt(run, r), levels, LIMIT[c['tier']]):
            paths += 1
            unscripted = unscripted or rng.unscripted
            rec.step(rng.path.pos)
            if not rec.expect(got[0] == 'ok', key, lambda: '%s raised %r' % (label, got[1])):
                return
            samples = list(got[1])
            if not rec.expect(len(samples) == n, key, lambda:
                    '%s returned %d samples' % (label, len(samples))):
                return
            if unpack is None:
                for r in samples:
                    rec.expect(c['func'] != '' or r == 7, key, lambda: '%s gave %r' % (label, r))
                continue
            names = []
            for r in samples:
                vals = unpack(r)
                if not rec.expect(set(vals) == set(vs), key, lambda:
                        '%s: a sample assigns %s' % (label, sorted(vals))):
                    return
                if set(vals) >= set(full):
                    if not rec.expect(valid(ref_model, vals), key, lambda:
                            '%s: the sample %s is not an outcome of the model' % (label, vals)):
                        return
                names.append(tuple(cell(v, vals[v], grid) for v in vs))
            joint[tuple(names)] += w
            if n > 1 and c['op'] != 'func':
                rec.expect(len({id(r) for r in samples}) == n, key, '%s: samples share a dictionary' % (label,))
    except OverflowError:
        rec.outcome('bounded')
        rec.trace(paths)
        return
    except script.Diverged:
        rec.outcome('diverged')
        rec.fail(key, '%s: sampling is not a function of the random generator' % (label,))
        return
    rec.trace(paths)
    rec.state(label)
    if unscripted:
        # The sampler used a generator method that is not scripted.
        rec.outcome('unscripted')
        return
    if unpack is None:
        return
    rec.outcome('explored')
    one = law(ref_model, vs, grid)
    want = {}
    for combo in product(one.items(), repeat=n):
        p = 1.
        for _, q in combo:
            p *= q
        want[tuple(k for k, _ in combo)] = p
    for k in set(want) | set(joint):
        if not rec.expect(abs(want.get(k, 0.) - joint.get(k, 0.)) <= TOL, key, lambda:
                '%s: probability of the samples being in cells %s is %r, expected %r'
                % (label, k, joint.get(k, 0.), want.get(k, 0.))):
            return
    rec.sample({'run': label, 'paths': paths, 'joint cells': len(want)})

def valid(ref_model, vals):
    vals = {k: (str(v) if isinstance(v, str) else float(v)) for k, v in vals.items()}
    for comp in ref_model.comps:
        if not all(comp.leaves[v].pdf(vals[v]) > 0 for v in comp.leaves):
            continue
        if not all(ref.holds(e, vals) for e in comp.evid):
            continue
        if all(agree(ref.evaluate(e, vals), vals[y]) for y, e in comp.env.items()):
            return True
    return False

def agree(a, b):
    return a is not None and abs(float(a) - float(b)) <= 1e-9 * max(1., abs(float(a)))

def misc(c, spe, ref_model, rec):
    name = c['model']
    key = 'misc_' + name
    def same(a, b):
        return len(a) == len(b) and all(
            {str(k): v for k, v in x.items()} == {str(k): v for k, v in y.items()}
            for x, y in zip(a, b))
    def seeded(s, f):
        numpy.random.seed(s)
        return f()
    vs = set(ref_model.symbols())
    v0 = sorted(vs)[0]
    for s in range(4):
        # The generator passed is the only source of randomness ...
        numpy.random.seed(1)
        a = spe.sample(5, prng=numpy.random.RandomState(s))
        numpy.random.seed(2)
        b = spe.sample(5, prng=numpy.random.RandomState(s))
        rec.expect(same(a, b), key, '%s: samples depend on more than the generator' % (name,))
        # ... and without one it is numpy's.
        a = seeded(s, lambda: spe.sample(5))
        b = seeded(s, lambda: spe.sample(5))
        rec.expect(same(a, b), key, '%s: samples without a generator are not numpy\'s' % (name,))
        for f in (lambda: spe.sample_subset({Id(v0)}, 5), ):
            a, b = seeded(s, f), seeded(s, f)
            rec.expect(same(a, b), key, '%s: sample_subset without a generator is not numpy\'s' % (name,))
        rec.trace(3)
        ss = spe.sample(200, prng=numpy.random.RandomState(s))
        for r in ss:
            vals = {str(k): v for k, v in r.items()}
            if not rec.expect(set(vals) == vs and valid(ref_model, vals), key, lambda:
                    '%s: the sample %s is not an outcome of the model' % (name, vals)):
                break
        rec.trace()
    for f in (lambda Q: 1, lambda Q, X: 1):
        got = attempt(spe.sample_func, f, 2, numpy.random.RandomState(0))
        rec.trace()
        rec.expect(got[0] == 'err' and isinstance(got[1], ValueError), key, lambda:
            '%s: sample_func with an unknown variable gave %r' % (name, got[1]))
    rec.state(key)
