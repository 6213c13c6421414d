"""Finite families of model specs and events shared by the checks."""

from itertools import combinations, product

from vlib import dist

def leaf(v, name, *args, **kw):
    return ['leaf', v, [name, list(map(list, args[0])) if args else kw]]

def norm(v, loc=0, scale=1):
    return leaf(v, 'norm', loc=loc, scale=scale)
def unif(v, loc=0, scale=1):
    return leaf(v, 'uniform', loc=loc, scale=scale)
def expon(v, **kw):
    return leaf(v, 'expon', **kw)
def pois(v, mu=2):
    return leaf(v, 'poisson', mu=mu)
def randint(v, low, high):
    return leaf(v, 'randint', low=low, high=high)
def choice(v, **kw):
    return leaf(v, 'choice', sorted(kw.items()))
def disc(v, *pairs):
    return leaf(v, 'discrete', pairs)
def atom(v, x):
    return leaf(v, 'atomic', loc=x)
def mix(*pairs):
    return ['sum', [[w, m] for w, m in pairs]]
def prod(*ms):
    return ['prod'] + list(ms)
def let(m, y, e):
    return ['let', m, y, e]
def cond(m, ev):
    return ['cond', m, ev]
def constr(m, **kw):
    return ['constr', m, sorted([k, v] for k, v in kw.items())]

def exposed(v, *parts):
    return ['exposed', v, list(map(list, parts))]
def mixed(v, *parts):
    return ['mixed', v, [[w, m[2]] for w, m in parts]]

X, Y, Z, W, N, M = [['id', v] for v in 'XYZWNM']
def poly(e, *cs):
    return ['poly', e, list(cs)]

KINDS = {'X': 'real', 'Y': 'real', 'Z': 'real', 'W': 'real', 'N': 'nom', 'M': 'nom'}

# ------------------------------------------------------------------------------
# Models.

LEAVES = {
    'norm':  norm('X'),
    'unif':  unif('X', -1, 3),
    'expon': expon('X', scale=2),
    'beta':  leaf('X', 'beta', a=2, b=3, loc=-1, scale=2),
    'laplace': leaf('X', 'laplace', loc=1, scale=1),
    'pois':  pois('X'),
    'geom':  leaf('X', 'geom', p=0.5),
    'binom': leaf('X', 'binom', n=3, p=0.25),
    'randint': randint('X', -1, 3),
    'disc':  disc('X', [-1, '1/4'], [0, '1/4'], [2, '1/2']),
    'atom':  atom('X', 1),
    'atomh': atom('X', '1/2'),
}
NOMLEAVES = {
    'nom':   choice('N', a='1/2', b='1/4', c='1/4'),
    'nom0':  choice('N', a='1/2', b='1/2', c='0'),
}
MIXES = {
    'norm+norm':  mix(['1/4', norm('X')], ['3/4', norm('X', 2, 0.5)]),
    'norm+unif':  mix([0.25, norm('X')], [0.75, unif('X', 0, 2)]),
    'norm+atom':  mix([0.5, norm('X')], [0.5, atom('X', 1)]),
    'pois+norm+atom': mix([0.25, pois('X')], [0.25, norm('X')], [0.5, atom('X', 0)]),
    'nested': mix([0.5, mix([0.5, norm('X')], [0.5, unif('X', 0, 2)])], [0.5, randint('X', 0, 3)]),
    'nom+nom': mix([0.25, choice('N', a='1/2', b='1/2')], [0.75, choice('N', b='1/2', c='1/2')]),
    'same': mix([0.25, norm('X')], [0.75, norm('X')]),
}
PRODS = {
    'X&Y':   prod(norm('X'), unif('Y', -1, 3)),
    'X&N':   prod(expon('X', scale=1), choice('N', a='1/2', b='1/4', c='1/4')),
    'P&Y&N': prod(pois('X'), norm('Y', 1, 1), choice('N', a='1/3', b='2/3')),
    'D&R':   prod(disc('X', [0, '1/4'], [1, '3/4']), randint('Y', 0, 3)),
    'mix&Y': prod(mix([0.25, norm('X')], [0.75, unif('X', 0, 2)]), norm('Y')),
    'mix&mix': prod(mix([0.5, norm('X')], [0.5, atom('X', 1)]),
                    mix([0.25, pois('Y')], [0.75, unif('Y', -1, 2)])),
    'XN+XN': mix([0.25, prod(norm('X'), choice('N', a='1/2', b='1/2'))],
                 [0.75, prod(unif('X', 0, 2), choice('N', b='1/4', c='3/4'))]),
    'XY+XY': mix([0.5, prod(norm('X'), norm('Y'))],
                 [0.5, prod(norm('X', 1, 1), unif('Y', 0, 2))]),
    'XY+YX': mix([0.25, prod(norm('X'), pois('Y'))],
                 [0.75, prod(randint('Y', 0, 3), unif('X', -1, 2))]),
    'deep': prod(choice('M', x='1/2', y='1/2'),
                 mix([0.5, prod(norm('X'), choice('N', a='1'))],
                     [0.5, prod(mix([0.5, norm('X', 2, 1)], [0.5, atom('X', 0)]), choice('N', a='1/4', b='3/4'))])),
    'X&Y&Z': prod(norm('X'), unif('Y', 0, 2), randint('Z', 0, 3)),
    'same2': mix([0.5, prod(norm('X'), norm('Y'))], [0.5, prod(norm('X'), unif('Y', -1, 2))]),
}
LETS = {
    'Y=X^2':  let(norm('X'), 'Y', poly(X, 0, 0, 1)),
    'Y=2X+1': let(unif('X', -1, 3), 'Y', poly(X, 1, 2)),
    'Y=|X|,Z=Y-1': let(let(norm('X'), 'Y', ['abs', X]), 'Z', poly(Y, -1, 1)),
    'Y=logX': let(expon('X', scale=1), 'Y', ['log', X, 2]),
    'Y=expP': let(pois('X'), 'Y', ['exp', X, 2]),
    'Y=pw':   let(norm('X'), 'Y', ['piece', [[poly(X, 0, -1), ['cmp', X, '<', 0]], [poly(X, 0, 0, 1), ['cmp', X, '>=', 0]]]]),
    'mixY':   let(mix([0.25, norm('X')], [0.75, randint('X', 0, 3)]), 'Y', poly(X, 0, 0, 1)),
    'prodZ':  let(prod(norm('X'), unif('Y', -1, 3)), 'Z', ['abs', Y]),
    'prodZW': let(let(prod(norm('X'), unif('Y', -1, 3)), 'Z', ['abs', X]), 'W', poly(Y, 1, -1)),
    'sumprodZ': let(mix([0.25, prod(norm('X'), choice('N', a='1/2', b='1/2'))],
                 [0.75, prod(unif('X', 0, 2), choice('N', b='1/4', c='3/4'))]), 'Z', poly(X, 0, 0, 1)),
    'atomY':  let(atom('X', 1), 'Y', poly(X, 1, 1)),
    'mixdef': mix([0.5, prod(norm('X'), norm('Y'))], [0.5, let(unif('X', 0, 2), 'Y', poly(X, 1, 1))]),
}
_N_AB = ['in', N, ['nom', ['a', 'b'], False]]
CONDS = {
    'cond-trunc': cond(norm('X'), ['in', X, ['iv', 0, 2, False, False]]),
    'cond-union': cond(norm('X'), ['or', ['cmp', X, '<', -1], ['cmp', X, '>', 1]]),
    'cond-pois':  cond(pois('X'), ['in', X, ['fin', [0, 1, 3]]]),
    'cond-nom':   cond(choice('N', a='1/2', b='1/4', c='1/4'), _N_AB),
    'cond-prod':  cond(prod(norm('X'), choice('N', a='1/2', b='1/4', c='1/4')),
                       ['or', ['and', ['cmp', X, '>', 0], _N_AB], ['cmp', X, '<', -1]]),
    'cond-XY':    cond(prod(norm('X'), unif('Y', -1, 3)),
                       ['or', ['cmp', X, '>', 1], ['cmp', Y, '<', 1]]),
    'cond-mix':   cond(mix([0.25, prod(norm('X'), choice('N', a='1/2', b='1/2'))],
                 [0.75, prod(unif('X', 0, 2), choice('N', b='1/4', c='3/4'))]),
                       ['or', ['cmp', X, '<', 1], ['in', N, ['nom', ['b'], False]]]),
    'cond-let':   cond(let(norm('X'), 'Y', poly(X, 0, 0, 1)), ['cmp', Y, '<', 4]),
    'constr-X':   constr(prod(norm('X'), unif('Y', -1, 3)), X=0.5),
    'constr-mix': constr(mix([0.25, prod(norm('X'), choice('N', a='1/2', b='1/2'))],
                 [0.75, prod(unif('X', 0, 2), choice('N', b='1/4', c='3/4'))]), X=0.5),
    'constr-N':   constr(mix([0.25, prod(norm('X'), choice('N', a='1/2', b='1/2'))],
                 [0.75, prod(unif('X', 0, 2), choice('N', b='1/4', c='3/4'))]), N='b'),
}

# Mixtures made in other ways, with components of weight zero, and mixtures
# and products nested in each other.
EXPOSED = {
    'exp-X': exposed('N', ['a', '1/4', norm('X')], ['b', '3/4', unif('X', 0, 2)]),
    'exp-0': exposed('N', ['a', '1/4', norm('X')], ['b', '3/4', unif('X', 0, 2)], ['c', '0', atom('X', 1)]),
    'exp-XY': exposed('N', ['c', '1/3', prod(norm('X'), pois('Y'))], ['a', '2/3', let(unif('X', -1, 3), 'Y', poly(X, 1, 2))]),
    'exp-exp': exposed('N', ['a', '1/2', exposed('M', ['x', '1/4', norm('X')], ['y', '3/4', atom('X', 1)])],
        ['b', '1/2', prod(unif('X', 0, 2), choice('M', x='1/2', y='1/2'))]),
    'exp-cond': cond(exposed('N', ['a', '1/4', norm('X')], ['b', '1/4', unif('X', 0, 2)], ['c', '1/2', pois('X')]),
        ['or', ['cmp', X, '>', 1], ['in', N, ['nom', ['b', 'c'], False]]]),
    'mixed3': mixed('X', ['1/4', norm('X')], ['1/4', pois('X')], ['1/2', disc('X', [-1, '1/4'], [1, '3/4'])]),
    'mixed&': prod(mixed('Y', ['1/3', norm('Y', 1, 2)], ['2/3', randint('Y', 0, 3)]), choice('N', a='1/4', b='3/4')),
}

# More components, variables, levels and outcomes.
_P5 = prod(norm('X'), unif('Y', -1, 3), randint('Z', 0, 3), choice('N', a='1/2', b='1/4', c='1/4'), choice('M', a='1/8', x='7/8'))
_M5 = mix(['1/10', norm('X')], ['2/10', unif('X', 0, 2)], ['3/10', pois('X')], ['1/10', atom('X', 1)], ['3/10', norm('X', 1, 2)])
WIDE = {
    'mix5': _M5,
    'prod5': _P5,
    'choice7': choice('N', a='1/16', b='2/16', c='3/16', d='1/16', x='4/16', y='2/16', z='3/16'),
    'disc9': disc('X', [-7, '1/16'], [-1, '2/16'], [0, '1/16'], [1, '3/16'], [2, '2/16'], [3, '1/16'], [10, '2/16'], [11, '3/16'], [100, '1/16']),
    'mix4prod': mix(*[[w, prod(x, y, choice('N', a=a, b=b))] for w, x, y, a, b in [
        ['1/8', norm('X'), pois('Y'), '1/2', '1/2'], ['3/8', norm('X'), randint('Y', -1, 2), '1/4', '3/4'],
        ['1/8', unif('X', 0, 2), pois('Y'), '0', '1'], ['3/8', atom('X', 0), norm('Y'), '1/2', '1/2']]]),
    'chain3': let(let(let(mix(['1/4', norm('X')], ['3/4', unif('X', -1, 3)]), 'Z', poly(['abs', X], -1, 2)), 'Y', poly(Z, 0, 0, 1)), 'W', poly(Y, 1, -1)),
    'nest4': mix(['1/3', prod(mix(['1/4', prod(mix(['1/2', norm('X')], ['1/2', atom('X', 1)]), choice('N', a='1/2', b='1/2'))],
        ['3/4', prod(mix(['1/2', norm('X')], ['1/2', unif('X', 0, 2)]), choice('N', b='1'))]), norm('Y'))],
        ['2/3', prod(norm('X', 1, 1), mix(['1/2', prod(norm('Y'), choice('N', a='1'))], ['1/2', prod(pois('Y'), choice('N', a='1/4', c='3/4'))]))]),
    'cond5': cond(cond(cond(_P5, ['or', ['cmp', X, '>', 0], ['cmp', Z, '>=', 1]]), ['or', ['in', N, ['nom', ['a', 'b'], False]], ['cmp', Y, '<', 1]]),
        ['not', ['and', ['cmp', X, '<', 1], ['in', M, ['nom', ['a'], False]]]]),
}

ALL = {}
for _d in (LEAVES, NOMLEAVES, MIXES, PRODS, LETS, CONDS, EXPOSED, WIDE):
    for _k, _v in _d.items():
        assert _k not in ALL, _k
        ALL[_k] = _v

# ------------------------------------------------------------------------------
# Events.

REAL_LITS = [
    lambda v: ['cmp', v, '<', 1],
    lambda v: ['cmp', v, '>=', 0],
    lambda v: ['in', v, ['iv', -1, 1, True, False]],
    lambda v: ['in', v, ['fin', [0, 1, 2]]],
    lambda v: ['cmp', poly(v, 0, 0, 1), '<=', 1],
    lambda v: ['in', v, ['un', ['iv', '-inf', 0, True, True], ['iv', 1, 2, False, False]]],
    lambda v: ['cmp', ['abs', v], '>', '1/2'],
    lambda v: ['cmp', ['recip', v], '<', 1],
    lambda v: ['cmp', v, '>', '1/2'],
    lambda v: ['in', v, ['un', ['iv', '-inf', -1, True, True], ['fin', [0, 1]]]],
]
NOM_LITS = [
    lambda v: ['in', v, ['nom', ['a'], False]],
    lambda v: ['in', v, ['nom', ['b'], True]],
    lambda v: ['in', v, ['nom', ['a', 'c'], False]],
    lambda v: ['in', v, ['nom', ['zz'], True]],
    lambda v: ['in', v, ['nom', ['x', 'b', 'a'], False]],
]

# Sets of numbers and strings, and of the wrong kind.
MIXED_LITS = [
    lambda v: ['in', v, ['un', ['fin', [0, 1]], ['nom', ['a'], False]]],
    lambda v: ['in', v, ['un', ['iv', 0, 1, True, False], ['nom', ['a'], True]]],
    lambda v: ['in', v, ['nom', ['a', 'b'], False]],
    lambda v: ['cmp', v, '<', 1],
    lambda v: ['in', v, ['fin', [0, 1]]],
    lambda v: ['in', v, ['un', ['iv', '-inf', 0, True, False], ['iv', 1, 2, True, True], ['fin', ['1/2']], ['nom', ['b', 'c'], False]]],
]

def mixed_events(spec):
    vs = sorted(dist.symbols(spec), key='XNYZWM'.index)
    lits = [f(['id', v]) for f in MIXED_LITS for v in vs]
    good = literals(spec, 3)
    out = lits + [['and', a, b] for a, b in zip(lits, lits[1:])] + [['or', a, b] for a, b in zip(lits, lits[2:])]
    return out + [[op, a, b] for a in lits for b in good for op in ('and', 'or')]

def literals(spec, n):
    """n literals on the variables of a model, taking turns."""
    vs = sorted(dist.symbols(spec), key='XNYZWM'.index)
    per = {v: [f(['id', v]) for f in (NOM_LITS if KINDS[v] == 'nom' else REAL_LITS)]
        for v in vs}
    out = []
    k = 0
    while len(out) < n and any(per.values()):
        v = vs[k % len(vs)]
        if per[v]:
            # Different variables start at different places of the alphabet.
            out.append(per[v].pop(0 if vs.index(v) % 2 == 0 else len(per[v]) // 2))
        k += 1
    return out

def signed(lits):
    return [s for l in lits for s in (l, ['not', l])]

def events1(lits):
    return signed(lits)

def events2(lits):
    s = signed(lits)
    for a, b in combinations(s, 2):
        yield ['and', a, b]
        yield ['or', a, b]
    for a, b in combinations(lits, 2):
        yield ['not', ['and', a, b]]
        yield ['not', ['or', a, b]]
        yield ['xor', a, b]

def events3(lits):
    s = signed(lits)
    for a, b in combinations(lits, 2):
        for c in s:
            if c in (a, b):
                continue
            yield ['or', ['and', a, b], c]
            yield ['and', ['or', a, b], c]
            yield ['or', a, ['or', b, c]]
            yield ['not', ['or', ['and', a, c], b]]

def events4(lits):
    for a, b, c, d in combinations(lits, 4):
        yield ['or', ['and', a, b], ['and', c, d]]
        yield ['or', ['and', a, ['not', b]], ['and', ['not', c], d]]
        yield ['or', a, b, c, d]
        yield ['or', ['and', a, b], ['and', b, c], ['and', c, d]]
        yield ['and', ['or', a, b], ['or', c, d]]

def events6(lits):
    """Events of five and six literals."""
    if len(lits) < 6:
        return
    (a, b, c, d, e, f) = lits[:6]
    yield ['or', ['and', a, b], ['and', c, d], ['and', e, f]]
    yield ['and', ['or', a, b], ['or', c, d], ['or', e, f]]
    yield ['or', ['and', a, ['not', b], c], ['and', ['not', a], d, e], ['and', b, ['not', c], f]]
    yield ['or', a, b, c, d, e]
    yield ['not', ['or', ['and', a, b, c], ['and', d, e], ['not', f]]]
    yield ['and', a, ['not', b], c, ['not', d], e]
    yield ['or', ['and', a, ['or', b, ['and', c, ['or', d, ['not', e]]]]], f]

# ------------------------------------------------------------------------------
# The same with other names, and models built by sequences of operations.

# The reverse of the alphabetical order, and one that is neither (for
# tosppl.use_names).
NAMES = [
    {'X': 'Z9', 'Y': 'Y9', 'Z': 'B9', 'W': 'A9', 'N': 'X9', 'M': 'W9'},
    {'X': 'b', 'Y': 'A[10]', 'Z': 'A[2]', 'W': 'aa', 'N': 'B', 'M': 'a'},
]

def steps(m):
    """The models one operation away."""
    vs = dist.symbols(m)
    lits = literals(m, 8)
    (a, b, c) = (lits + lits)[:3]
    reals = [v for v in 'XYZW' if v in vs]
    free = [v for v in 'ZWYX' if v not in vs]
    yield cond(m, ['not', a])
    yield cond(m, ['or', b, ['and', a, c]])
    if reals and free:
        e = ['id', reals[0]]
        f = ['id', reals[-1]]
        yield let(m, free[0], poly(['abs', e], -1, 2))
        yield mix(['1/4', let(m, free[0], poly(e, 0, 0, 1))], ['3/4', let(m, free[0], ['piece',
            [[poly(f, 1, -1), ['cmp', f, '<', 0]], [f, ['cmp', f, '>=', 0]]]])])
    # A mixture of the model with a version of itself.
    yield mix(['1/3', m], ['2/3', cond(m, ['or', ['not', b], c])])
    if 'M' not in vs:
        yield prod(choice('M', a='1/4', b='3/4'), m)
    elif free:
        yield prod(m, mix(['1/4', norm(free[0])], ['3/4', atom(free[0], 1)]))
    base = [v for v in 'XNYZWM' if v in dist.build(m).comps[0].leaves]
    yield constr(m, **{base[-1]: 'a' if KINDS[base[-1]] == 'nom' else 1})

BASES = ['norm', 'pois', 'nom', 'norm+atom', 'X&N', 'P&Y&N', 'XN+XN', 'XY+YX', 'Y=X^2', 'prodZ', 'mixdef', 'cond-XY']

def histories(depth):
    """Every sequence of operations up to a depth on each base model, except
    the impossible ones."""
    level = [ALL[k] for k in BASES]
    seen = set()
    for d in range(depth):
        nxt = []
        for m in level:
            for s in steps(m):
                if repr(s) in seen:
                    continue
                seen.add(repr(s))
                try:
                    ok = all(set(c.leaves) | set(c.env) == dist.symbols(s) for c in dist.build(s).comps)
                except (dist.Zero, KeyError):
                    continue
                if ok:
                    nxt.append(s)
                    yield s
        level = nxt
