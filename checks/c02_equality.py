"""C02: equality and hashing never confuse or separate values
(all ordered pairs of a finite alphabet of near-duplicates, real code against
independent denotations)."""

from itertools import product

from vlib import fastsym    # First: see there.
from vlib import dist, models, ref, tomodel, tosppl
from vlib.core import attempt
from vlib.models import (X, Y, Z, N, M, poly, norm, unif, expon, pois, randint,
    choice, disc, atom, mix, prod, let, cond, constr, leaf)
from sppl.sets import EmptySet

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all ordered pairs of a finite alphabet of sets, transforms, events and models (near-duplicates) on the real code, against denotations computed independently'
LEVEL_NOTE = 'Every ordered pair, including a value with its own rebuilt copy: symmetry, equal hashes of equal values, dictionary lookup, equal values denote the same, sets of the same points are equal. Denotations are memberships, values, truths and probabilities at a finite set of probes.'
BOUNDS = {
    'quick': '86 sets, 141 transforms, 235 events, 106 models: all ordered pairs within each kind, and a third of the alphabet across kinds',
    'thorough': 'as quick with transforms of depth 3, all pairs of literals in both orders, and every pair across kinds',
}
ASSUMPTIONS = ['values that agree at all probes (chosen to separate the alphabet) denote the same']

NUMS = [-2, -1, '-1/2', 0, '1/2', 1, '3/2', 2, 3]
PROBES = [-3, -2.5, -2, -1.75, -1, -.75, -.5, -.25, 0, .25, .5, .75, 1, 1.25, 1.5, 1.75, 2, 2.5, 3, 4]
STRINGS = ['a', 'b', 'c', '1', 'other']

# ------------------------------------------------------------------------------
# Alphabets of specs.

def sets():
    out = []
    for a, b in [(0, 1), ('1/2', 1), (0.5, 1), (0.5, 1.0), (-1, 1), (-2, 1), (0, 2), ('-inf', 1), (0, 'inf'), ('-inf', 'inf')]:
        for lo, ro in product([False, True], repeat=2):
            if (a == '-inf' and not lo) or (b == 'inf' and not ro):
                continue
            out.append(['iv', a, b, lo, ro])
    out += [['fin', v] for v in ([0], [1], [1.0], [-1], [-2], [0, 1], [1, 0], [0.5], ['1/2'], [0, '1/2'],
        [0.5, 0.0], [-1, 0], [-2, 0], [-1, -2], [0, 1, 2])]
    for c in (False, True):
        out += [['nom', v, c] for v in (['a'], ['b'], ['a', 'b'], ['b', 'a'], ['1'])]
    out += [['nom', [], True], ['empty']]
    parts = [['iv', 0, 1, True, True], ['iv', 0, 1, False, True], ['fin', [2]], ['fin', [-1]], ['fin', [-2]],
        ['iv', 1.5, 2, False, False], ['iv', '3/2', 2, True, False], ['nom', ['a'], False], ['nom', ['a'], True], ['fin', [0]], ['fin', [1]]]
    for i, a in enumerate(parts):
        for b in parts[i+1:]:
            if a[0] != b[0] or a[0] == 'iv':
                out += [['un', a, b], ['un', b, a]]
    return out

def exprs(tier):
    fs = [
        lambda e: e,
        lambda e: poly(e, 0, 2), lambda e: poly(e, 0, 2.0), lambda e: poly(e, 0, -1), lambda e: poly(e, 0, -2),
        lambda e: poly(e, 1, 1), lambda e: poly(e, 1, '1/2'), lambda e: poly(e, 1, 0.5),
        lambda e: poly(e, 0, 0, 1), lambda e: poly(e, 0, 1, 1), lambda e: poly(e, -1, 0, 1), lambda e: poly(e, -2, 0, 1),
        lambda e: poly(e, 0, 0, 0, 1),
        lambda e: ['abs', e], lambda e: ['recip', e],
        lambda e: ['rad', e, 2], lambda e: ['rad', e, 3],
        lambda e: ['exp', e, 2], lambda e: ['exp', e, 'e'], lambda e: ['exp', e, 3], lambda e: ['exp', e, '1/2'],
        lambda e: ['log', e, 2], lambda e: ['log', e, 'e'], lambda e: ['log', e, 3],
    ]
    out = [f(X) for f in fs]
    inner = [fs[k] for k in ((1, 13, 16, 17, 21) if tier == 'quick' else range(1, len(fs)))]
    outer = [fs[k] for k in ((3, 4, 8, 13, 14, 15, 17, 21, 22) if tier == 'quick' else range(1, len(fs)))]
    out += [g(f(X)) for g in outer for f in inner]
    out += [fs[k](Y) for k in (0, 1, 8, 13, 16, 21)]
    lt, ge = ['cmp', X, '<', 0], ['cmp', X, '>=', 0]
    lt1, ge1 = ['cmp', X, '<', 1], ['cmp', X, '>=', 1]
    P = lambda *ps: ['piece', list(map(list, ps))]
    sq, neg = poly(X, 0, 0, 1), poly(X, 0, -1)
    out += [P((sq, lt), (neg, ge)), P((neg, ge), (sq, lt)), P((sq, ge), (neg, lt)), P((sq, lt1), (neg, ge1)),
        P((sq, lt), (X, ge)), P((poly(X, -1, 1), lt), (neg, ge)), P((poly(X, -2, 1), lt), (neg, ge)),
        P((sq, lt),), P((sq, lt1),), P((neg, lt),), ['abs', P((sq, lt), (neg, ge))]]
    evs = [lt, ge, lt1, ['in', X, ['fin', [0]]], ['in', X, ['fin', [1]]], ['in', X, ['fin', [-1]]], ['in', X, ['fin', [-2]]],
        ['cmp', sq, '<', 1], ['in', X, ['iv', 0, 1, False, False]], ['in', X, ['iv', 0, 1, True, False]],
        ['and', ge, lt1], ['or', lt, ge1]]
    # Indicators are used by the programs as numbers.
    out += [poly(['ind', e], 0, 2) for e in evs] + [poly(['ind', evs[0]], 1, 2)]
    return dedup(out)

def events(tier):
    es = [X, poly(X, 0, 0, 1), poly(X, 0, 2), ['abs', X], Y, ['exp', X, 2], poly(X, 0, -1), poly(X, 0, -2)]
    ss = [['iv', 0, 1, lo, ro] for lo, ro in product([False, True], repeat=2)] + [
        ['iv', '-inf', 1, True, True], ['iv', '-inf', 1, True, False], ['iv', 0.5, 1, True, True], ['iv', '1/2', 1, True, True],
        ['fin', [0]], ['fin', [1]], ['fin', [1.0]], ['fin', [-1]], ['fin', [-2]], ['fin', [0, 1]],
        ['un', ['fin', [0]], ['iv', 1, 2, True, True]], ['un', ['fin', [-1]], ['iv', 1, 2, True, True]]]
    lits = [['in', e, s] for e in es for s in ss]
    lits += [['in', v, ['nom', s, c]] for v in (N, M) for s in (['a'], ['b'], ['a', 'b']) for c in (False, True)]
    lits += [['in', X, ['nom', ['a'], False]], ['in', X, ['nom', ['b'], False]]]
    # Impossible and certain events, of numbers and of strings.
    lits += [['in', v, ['nom', [], True]] for v in (X, N)] + [['in', X, ['iv', '-inf', 'inf', True, True]]]
    lits += [['not', ['in', v, ['nom', [], True]]] for v in (X, N)] + [['not', ['in', X, ['iv', '-inf', 'inf', True, True]]]]
    lits += [['and', ['in', v, ['nom', ['a'], False]], ['in', v, ['nom', ['b'], False]]] for v in (X, N)]
    lits += [['and', ['cmp', X, '<', 0], ['cmp', X, '>', 1]], ['and', ['in', X, ['fin', [0]]], ['in', X, ['fin', [1]]]]]
    base = [['cmp', X, '<', 1], ['cmp', X, '<', 1.0], ['cmp', X, '>', 0], ['cmp', Y, '<', 1], ['in', N, ['nom', ['a'], False]],
        ['in', X, ['fin', [-1]]], ['in', X, ['fin', [-2]]]]
    if tier == 'thorough':
        base += lits[::9]
    comp = []
    for a in base:
        comp.append(['not', a])
        for b in base:
            if a is not b:
                comp += [['and', a, b], ['or', a, b]]
    a, b, c = base[0], base[2], base[4]
    comp += [['and', a, b, c], ['and', a, ['and', b, c]], ['or', a, ['and', b, c]], ['and', ['or', a, b], c], ['or', a, b, c]]
    return dedup(lits + base + comp)

def model_specs(tier):
    out = [norm('X'), norm('Y'), norm('X', 0.0, 1.0), norm('X', -1), norm('X', -2), norm('X', -1, 2), norm('X', 0, 2),
        leaf('X', 'norm', loc=0, scale=1), leaf('X', 'norm', scale=1, loc=0), leaf('X', 'norm', scale=1),
        unif('X'), unif('X', 0, 2), unif('X', -1, 1), unif('X', -2, 1), leaf('X', 'beta', a=1, b=1), leaf('X', 'beta', a=1, b=2), leaf('X', 'beta', a=2, b=1),
        expon('X', scale=1), expon('X', scale=2), leaf('X', 'laplace', loc=0, scale=1),
        pois('X', 1), pois('X', 2), leaf('X', 'poisson', mu=2, loc=1), leaf('X', 'geom', p=0.5), leaf('X', 'geom', p=0.25),
        leaf('X', 'binom', n=2, p=0.5), leaf('X', 'binom', n=3, p=0.5), leaf('X', 'bernoulli', p=0.5),
        randint('X', 0, 2), randint('X', -1, 2), randint('X', -2, 2), randint('X', 0, 3),
        disc('X', [0, '1/2'], [1, '1/2']), disc('X', [1, '1/2'], [0, '1/2']), disc('X', [0, '1/4'], [1, '3/4']), disc('X', [0, '3/4'], [1, '1/4']),
        disc('X', [-1, '1/2'], [1, '1/2']), disc('X', [-2, '1/2'], [1, '1/2']), disc('X', [0, '1/4'], [2, '3/4']),
        disc('X', [0, '1/4'], [1, '1/4'], [2, '1/2']), disc('X', [0, '1/4'], [1, '1/2'], [2, '1/4']),
        atom('X', 0), atom('X', 1), atom('X', 1.0), atom('X', -1), atom('X', -2), atom('Y', 1),
        choice('N', a='1/2', b='1/2'), choice('N', a='1/4', b='3/4'), choice('N', a='3/4', b='1/4'), choice('N', a='1/2', c='1/2'),
        choice('M', a='1/2', b='1/2'), choice('N', a='1'), choice('N', a='1', b='0'), leaf('N', 'choice', [['b', '1/2'], ['a', '1/2']]),
        leaf('N', 'choice', [['b', '0.5'], ['a', '0.5']]),
    ]
    base = [norm('X'), atom('X', 1), randint('X', 0, 2)]
    sq = poly(X, 0, 0, 1)
    for b in base:
        out += [let(b, 'Y', sq), let(b, 'Y', poly(X, 0, -1)), let(b, 'Y', poly(X, 0, -2)), let(b, 'Z', sq), let(b, 'Y', poly(X, 0, 0, 1.0)),
            let(let(b, 'Y', sq), 'Z', poly(Y, 1, 1)), let(let(b, 'Y', sq), 'Z', poly(X, 1, 1)), let(let(b, 'Z', poly(X, 1, 1)), 'Y', sq)]
    for s in (['iv', 0, 1, False, False], ['iv', 0, 1, True, False], ['iv', 0, 2, False, False], ['iv', -1, 2, False, False],
            ['iv', -2, 2, False, False], ['iv', '-inf', 0, True, False], ['iv', 0, 'inf', False, True]):
        out += [cond(norm('X'), ['in', X, s]), cond(pois('X', 2), ['in', X, s])]
    out += [cond(choice('N', a='1/2', b='1/2'), ['in', N, ['nom', ['a'], False]]),
        constr(prod(norm('X'), norm('Y')), X=1), constr(prod(norm('X'), norm('Y')), X=0)]
    a, b, n = norm('X'), unif('X', 0, 2), choice('N', a='1/2', b='1/2')
    out += [mix([0.25, a], [0.75, b]), mix([0.75, a], [0.25, b]), mix([0.75, b], [0.25, a]), mix([0.5, a], [0.5, b]), mix([0.5, b], [0.5, a]),
        mix([0.5, a], [0.5, a]), mix([0.5, norm('X', -1)], [0.5, b]), mix([0.5, norm('X', -2)], [0.5, b]), mix(['1/4', a], ['3/4', b]),
        prod(a, norm('Y')), prod(norm('Y'), a), prod(a, n), prod(b, n), prod(a, norm('Y', -1)), prod(a, norm('Y', -2)),
        prod(prod(a, norm('Y')), n), prod(a, prod(norm('Y'), n)),
        mix([0.25, prod(a, n)], [0.75, prod(b, n)]), mix([0.25, prod(b, n)], [0.75, prod(a, n)]), mix([0.25, prod(n, a)], [0.75, prod(n, b)]),
        prod(mix([0.25, a], [0.75, b]), n), prod(mix([0.75, a], [0.25, b]), n)]
    return dedup(out)

def dedup(xs):
    seen, out = set(), []
    for x in xs:
        if repr(x) not in seen:
            seen.add(repr(x))
            out.append(x)
    return out

# ------------------------------------------------------------------------------
# Denotations.

def r9(x):
    return None if x is None else float('%.9g' % (x + 0.,)) if abs(x) > 1e-12 else 0.

def deno_set(s):
    return ('set',) + tuple(ref.member(p, s) for p in PROBES + STRINGS)

def deno_expr(e):
    vs = sorted(ref.symbols_expr(e))
    return ('expr', tuple(vs)) + tuple(r9(ref.evaluate(e, {vs[0]: p})) for p in PROBES)

_GRID = [dict(zip('XYNM', (x, y, n, m)))
    for x in (-2, -1, -.5, 0, .25, .5, .75, 1, 1.5, 2, 'a') for y in (-1, 0, .75, 1, 1.5)
    for n in 'abc' for m in 'ab']

def deno_event(ev):
    return ('event', tuple(sorted(ref.symbols(ev)))) + tuple(ref.holds(e, env) for env in _GRID for e in (ev, ['not', ev]))

def deno_model(m):
    r = dist.build(m)
    vs = sorted(r.symbols())
    evs = []
    for v in vs:
        e = ['id', v]
        if v in 'NM':
            evs += [['in', e, ['nom', [x], False]] for x in 'abc']
        else:
            evs += [['cmp', e, '<', t] for t in (-1.5, -.5, .5, 1.5, 2.5)] + [['in', e, ['fin', [k]]] for k in (-2, -1, 0, 1, 2)]
    for a, b in zip(vs, vs[1:]):
        f = lambda v: ['in', ['id', v], ['nom', ['a'], False]] if v in 'NM' else ['cmp', ['id', v], '<', '1/2']
        evs.append(['and', f(a), f(b)])
    base = tuple(sorted(tuple(sorted(c.leaves)) for c in r.comps))[:1]
    return ('model', tuple(vs), base) + tuple(r9(r.prob(e)) for e in evs)

KINDS = {
    'sets': (lambda tier: sets(), tosppl.to_set, deno_set),
    'exprs': (exprs, tosppl.expr, deno_expr),
    'events': (events, tosppl.event, deno_event),
    'models': (model_specs, tomodel.model, deno_model),
}
FOREIGN = [None, 0, 'X', (), frozenset(), float('nan')]

_cache = {}

def table(kind, tier):
    """[(spec, value, rebuilt value, denotation)], built once per process."""
    key = (kind, tier)
    if key not in _cache:
        (specs, build, deno) = KINDS[kind]
        _cache[key] = [(s, build(s), build(s), deno(s)) for s in specs(tier)]
    return _cache[key]

def cases(tier):
    out = []
    for kind in KINDS:
        n = len(KINDS[kind][0](tier))
        step = 8 if kind != 'models' else 6
        for i in range(0, n, step):
            out.append({'kind': kind, 'rows': [i, min(n, i + step)], 'tier': tier})
    for kind in KINDS:
        out.append({'kind': kind, 'cross': 3 if tier == 'quick' else 1, 'tier': tier})
    return out

def run_case(c, rec):
    got = attempt(table, c['kind'], c['tier'])
    if not rec.expect(got[0] == 'ok', 'build:' + c['kind'], lambda: 'building the alphabet raised %r' % (got[1],)):
        raise got[1]
    rows = got[1]
    if 'cross' in c:
        return cross(c, rows, rec)
    for i in range(*c['rows']):
        (s1, a, a2, d1) = rows[i]
        rec.state(repr(s1))
        pair(s1, a, d1, s1, a2, d1, True, rec)
        for (s2, b, _b2, d2) in rows:
            pair(s1, a, d1, s2, b, d2, s1 is s2, rec)
        for x in FOREIGN:
            got = attempt(lambda: (a == x, x == a))
            rec.trace()
            rec.expect(got == ('ok', (False, False)), 'foreign', lambda: '%s == %r gave %r' % (show(s1), x, got[1]))

def show(s):
    return repr(s)

def pair(s1, a, d1, s2, b, d2, must, rec):
    rec.trace()
    rec.step()
    what = lambda: '%s and %s' % (show(s1), show(s2))
    got = attempt(lambda: (a == b, b == a, a != b))
    if not rec.expect(got[0] == 'ok', 'raises', lambda: '== of %s raised %r' % (what(), got[1])):
        return
    (eq, eq2, ne) = map(bool, got[1])
    rec.outcome('equal' if eq else 'different')
    rec.expect(eq == eq2, 'symmetry', lambda: '== is not symmetric for %s' % (what(),))
    rec.expect(eq != ne, 'ne', lambda: '== and != agree for %s' % (what(),))
    if must:
        rec.expect(eq, 'rebuilt', lambda: '%s is different from its rebuilt copy' % (show(s1),))
    if d1[0] == 'set' and d2[0] == 'set' and d1 == d2:
        rec.expect(eq, 'same-points', lambda: 'sets with the same points are different: %s' % (what(),))
    if eq:
        rec.expect(d1 == d2, 'confused', lambda: 'values that denote different things are equal: %s' % (what(),))
        got = attempt(lambda: (hash(a), hash(b)))
        rec.expect(got[0] == 'ok' and got[1][0] == got[1][1], 'hash', lambda:
            'equal values have different hashes (%r): %s' % (got[1], what()))
    got = attempt(lambda: (b in {a: 1}, b in [a], len({a, b})))
    rec.expect(got == ('ok', (eq, eq, 2 - eq)), 'container', lambda:
        'containers disagree with == (%s) for %s: %r' % (eq, what(), got[1]))

def cross(c, rows, rec):
    for other in KINDS:
        if other <= c['kind']:
            continue
        for (s1, a, _a2, _d1) in rows[::c['cross']]:
            for (s2, b, _b2, _d2) in table(other, c['tier'])[::c['cross']]:
                got = attempt(lambda: (a == b, b == a))
                rec.trace()
                # An indicator is the same object as its event.
                if {c['kind'], other} == {'exprs', 'events'}:
                    rec.expect(got[0] == 'ok', 'cross', lambda: '%s == %s raised %r' % (s1, s2, got[1]))
                    continue
                rec.expect(got == ('ok', (False, False)), 'cross', lambda:
                    '%s == %s gave %r' % (show(s1), show(s2), got[1]))
    rec.state('cross' + c['kind'])
