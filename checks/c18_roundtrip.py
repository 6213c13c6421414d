"""C18: serialising a model loses nothing
(every model of a finite family, and its successors under conditioning,
constraining and deriving, through JSON text and back; every set, transform
and event of a finite alphabet through its textual representation)."""

import json
import math

from fractions import Fraction

import numpy
import sympy

from vlib import fastsym    # First: see there.
from vlib import dist, models, ref, snap, tomodel, tosppl
from vlib.core import attempt
from vlib.models import X, Y, N, poly, norm, unif, pois, randint, choice, disc, atom, mix, prod, let, cond, constr, leaf
from checks import c02_equality as c02
from checks import c03_solve as c03
from checks import c16_distributions as c16
import sppl.sets
import sppl.transforms
from sppl import distributions
from sppl.compilers.ast_to_spe import Sample, Transform as Let, Sequence, IfElse, Otherwise, Condition
from sppl.compilers.spe_to_dict import spe_from_dict, spe_to_dict
from sppl.spe import ExposedSumSPE, spe_simplify_sum
from sppl.transforms import Id

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of model construction histories (base model x up to two operations) on the real code, each state serialised to JSON text and reconstructed, every probe of the reconstruction compared with an explicit-state reference model; exhaustive enumeration of an alphabet of sets, transforms and events evaluated back from their representation'
LEVEL_NOTE = 'Every model of the family and its successors is compared at literals, their negations and conjunctions, after a further operation, and after a second round trip.'
BOUNDS = {
    'quick': '58 base models, each with up to 5 conditionings, 2 constraints and 3 derived variables; 45 models with unusual number types and names; 101 distributions; 650 representations; 2 renamings; every tenth of the 625 models built by 2 operations',
    'thorough': 'all successors under 16 conditionings, and pairs of operations; distributions with 2 parameter sets and 6 locations and scales',
}
ASSUMPTIONS = ['distributions that agree at the probe events are equal', 'agreement within 1e-9 counts as equal']
TOL = 1e-9

# The names that a representation may use.
NS = {}
for _m in (sympy, sppl.sets, sppl.transforms):
    NS.update({k: v for k, v in vars(_m).items() if not k.startswith('_')})

# ------------------------------------------------------------------------------
# Models.

def derived(spec):
    """Expressions for a new variable."""
    vs = [v for v in dist.symbols(spec) if models.KINDS[v] != 'nom']
    for v in vs[:2]:
        e = ['id', v]
        yield poly(e, '1/2', '1/3')
        yield ['piece', [[poly(e, 0, -1), ['cmp', e, '<', 0]], [['rad', e, 2], ['cmp', e, '>=', 0]]]]
        yield ['ind', ['or', ['cmp', e, '<', 0], ['in', e, ['fin', [1, 2]]]]]
        yield ['exp', ['abs', e], 'e']
        yield ['log', poly(['abs', e], 1, 1), 2]
        yield ['recip', poly(e, 2, 0, 1)]

def free(spec):
    return ([v for v in 'ZWYX' if v not in dist.symbols(spec)] + [None])[0]

IRRATIONAL = [['cmp', X, '<', 'sqrt2'], ['in', X, ['iv', 0, 'pi', True, False]], ['cmp', ['exp', X, 'e'], '>', 2],
    ['cmp', poly(X, 0, 0, 1), '<', 2], ['cmp', poly(X, 0, -1, 0, 1), '<', '1/3'], ['cmp', X, '>', '1/3']]

def successors(spec, tier):
    big = tier == 'thorough'
    lits = models.signed(models.literals(spec, 8))
    for ev in (lits + [['or', a, b] for a, b in zip(lits[::2], lits[3::2])] if big else [lits[0], lits[3], ['or', lits[2], lits[5 % len(lits)]]]):
        yield cond(spec, ev)
    if 'X' in dist.symbols(spec):
        for ev in (IRRATIONAL if big else [IRRATIONAL[0], IRRATIONAL[3]]):
            yield cond(spec, ev)
    for v in dist.build(spec).comps[0].leaves:
        for x in (['a', 'b'] if v in 'NM' else [1, 0.25]):
            yield constr(spec, **{v: x})
    for k, e in enumerate(derived(spec)):
        if (big or k in (0, 1, 4)) and free(spec):
            yield let(spec, free(spec), e)

def specs(tier):
    out = list(models.ALL.values())
    for m in models.ALL.values():
        nxt = list(successors(m, tier))
        out += nxt
        if tier == 'thorough':
            for n in nxt[::3]:
                out += list(successors(n, 'quick'))[:6]
    # Conditioned and transformed; twice derived; conditioned on the derived.
    for base in (norm('X'), pois('X'), randint('X', 0, 3), mix([.25, norm('X')], [.75, atom('X', 1)])):
        for e in derived(base):
            m = let(base, 'Y', e)
            out += [let(m, 'Z', poly(Y, 1, 2)), cond(let(m, 'Z', ['abs', Y]), ['cmp', X, '<', 2])]
            out += [cond(m, ['cmp', Y, '<', '3/2'])]
    return c02.dedup(out)

R = sympy.Rational
x, y, n = Id('X'), Id('Y'), Id('N')
D = distributions
ODD = {
    'norm-rational': lambda: x >> D.norm(loc=R(1, 3), scale=R(1, 2)),
    'norm-fraction': lambda: x >> D.norm(loc=Fraction(1, 3), scale=Fraction(1, 2)),
    'norm-sqrt': lambda: x >> D.norm(loc=sympy.sqrt(2)),
    'norm-numpy': lambda: x >> D.norm(loc=numpy.float64(.1), scale=numpy.int64(2)),
    'unif-numpy': lambda: x >> D.uniform(loc=numpy.float64(.1), scale=numpy.float32(2)),
    'randint-numpy': lambda: x >> D.randint(low=numpy.int64(0), high=numpy.int64(3)),
    'poisson-rational': lambda: x >> D.poisson(mu=R(1, 3)),
    'poisson-loc': lambda: x >> D.poisson(mu=2, loc=-3),
    'atomic-numpy': lambda: x >> D.atomic(loc=numpy.int64(3)),
    'atomic-rational': lambda: x >> D.atomic(loc=R(1, 3)),
    'atomic-fraction': lambda: x >> D.atomic(loc=Fraction(1, 3)),
    'atomic-float': lambda: x >> D.atomic(loc=.1),
    'discrete-numpy': lambda: x >> D.discrete(dict(zip(numpy.array([1, 2, 5]), numpy.array([.25, .5, .25])))),
    'discrete-fraction': lambda: x >> D.discrete({1: Fraction(1, 4), 2: Fraction(3, 4)}),
    'discrete-thirds': lambda: x >> D.discrete({-1: 1/3., 2: 2/3.}),
    'uniformd': lambda: x >> D.uniformd(values=[1, 2, 2, 7]),
    'mix-rational': lambda: R(1, 3)*(x >> D.norm()) | R(2, 3)*(x >> D.uniform()),
    'mix-fraction': lambda: Fraction(1, 3)*(x >> D.norm()) | Fraction(2, 3)*(x >> D.uniform()),
    'mix-numpy': lambda: numpy.float64(.25)*(x >> D.norm()) | numpy.float64(.75)*(x >> D.uniform()),
    'mix-dist': lambda: x >> (.25*D.norm() | .75*D.atomic(loc=1)),
    'choice-types': lambda: n >> D.choice({'a': '1/4', 'b': Fraction(1, 4), 'c': .5}),
    'choice-floats': lambda: n >> D.choice({'a': .1, 'b': .2, 'c': .7}),
    'choice-names': lambda: n >> D.choice({"it's": .25, 'a"b': .25, '1': .25, '\u00e9\n': .25}),
    'choice-cond': lambda: (n >> D.choice({'a': .1, 'b': .2, 'c': .7})).condition(n << {'a', 'b'}),
    'array': lambda: (Id('A[0]') >> D.norm()) & (Id('A[1]') >> D.choice({'a': 1})),
    'array-env': lambda: ((Id('A[0]') >> D.norm()).transform(Id('A[1]'), Id('A[0]')**2).transform(Id("B'c"), 2*Id('A[1]') + 1)),
    'constrain-types': lambda: ((x >> D.norm()) & (y >> D.norm())).constrain({x: R(1, 3)}),
    'constrain-numpy': lambda: ((x >> D.norm()) & (y >> D.norm())).constrain({x: numpy.float64(.1)}),
    'constrain-let': lambda: ((x >> D.norm()).transform(y, x**2)).constrain({x: .1}),
    'trunc-float': lambda: (x >> D.norm()).condition((x > .1) & (x < .1 + .2)),
    'trunc-deep': lambda: (x >> D.norm()).condition(x > .1).condition(x**2 < 2).condition((x < .5) | (x > 1)),
    'trunc-discrete': lambda: (x >> D.poisson(mu=3)).condition(x > 1).condition(x**2 < 30),
    'exposed': lambda: ExposedSumSPE(
        {'a': x >> D.norm(), 'b': x >> D.uniform()}, n >> D.choice({'a': '1/3', 'b': '2/3'})),
    'program': lambda: Sequence(Sample(x, D.norm()), Sample(n, D.choice({'a': .5, 'b': .5})),
        IfElse(x > 0, Let(y, x**2), (n << {'a'}), Sample(y, D.atomic(loc=0)), Otherwise, Let(y, -x)), Condition(y < 2)).interpret(),
    # Names whose order is not that of the definitions.
    'chain-names': lambda: (x >> D.norm()).transform(Id('C'), x**2).transform(Id('A'), 1 - 3*Id('C')).transform(Id('B'), abs(Id('A'))),
    'chain-poisson': lambda: (x >> D.poisson(mu=3)).transform(Id('C'), x**2).transform(Id('A'), 1 - 3*Id('C')).transform(Id('B'), abs(Id('A'))),
    'chain-atom': lambda: (x >> D.atomic(loc=3)).transform(Id('C'), x**2).transform(Id('A'), 1 - 3*Id('C')).transform(Id('B'), abs(Id('A'))),
    'chain-trunc': lambda: (x >> D.norm()).transform(Id('C'), x**2).condition(x > -1).transform(Id('A'), 1 - 3*Id('C')).condition(Id('A') < 0),
    'chain-mix': lambda: (.5*(x >> D.norm()) | .5*(x >> D.poisson(mu=3))).transform(Id('C'), x**2).transform(Id('A'), 1 - 3*Id('C')),
    'chain-product': lambda: ((x >> D.norm()) & (y >> D.norm())).transform(Id('D'), x**2).transform(Id('C'), y**2).transform(Id('B'), -Id('D')).transform(Id('A'), -Id('C')),
    'simplified': lambda: spe_simplify_sum(.5*((x >> D.norm()) & (y >> D.norm())) | .5*((x >> D.norm()) & (y >> D.uniform()))),
    'coeff-types': lambda: (x >> D.norm()).transform(y, numpy.float64(.1)*x + Fraction(1, 3)),
    'exp-base': lambda: (x >> D.norm()).transform(y, R(1, 3)**x),
    'let-set': lambda: (x >> D.randint(low=0, high=4)).transform(y, 2*(x << {0, 2}) + 1),
    'let-nested': lambda: (x >> D.norm()).transform(y, ((x < 0)*(-x) + (0 <= x)*(x**2))**2),
}
# Events for the unusual models, by variable.
def odd_events(spe):
    out = []
    syms = sorted(spe.get_symbols(), key=str)
    for s in syms:
        for ev in ([s < .1, s <= R(1, 3), s << {1, 2}, s << {.1}, s << {R(1, 3)}, (s > 0) & (s < .3), s**2 < 2] if str(s) != 'N' and s not in nominal(spe)
                else [s << {'a'}, s << {"it's", '1'}, ~(s << {'b', '\u00e9\n'}), s << {'a"b', 'c'}]):
            out.append(ev)
    for s, t in zip(syms, syms[1:]):
        a, b = [(v << {'a', 'b'}) if v in nominal(spe) else (v < .5) for v in (s, t)]
        out += [a & b, a | b]
    return out

def nominal(spe):
    children = getattr(spe, 'children', None)
    if children is None:
        return {spe.symbol} if type(spe).__name__ == 'NominalLeaf' else set()
    return set().union(*map(nominal, children))

# ------------------------------------------------------------------------------

def through(spe):
    """The model after a trip through JSON text, and the text."""
    text = json.dumps(spe_to_dict(spe))
    return spe_from_dict(json.loads(text)), text

def close(a, b, tol=TOL):
    return a == b or abs(a - b) <= tol

def run_spec(spec, rec, tier):
    key = ''.join(sorted(tosppl.NAMES.values())[:1]) + json.dumps(spec).replace(' ', '')
    rec.state(key)
    try:
        want = dist.build(spec)
    except (dist.Zero, KeyError):
        # Conditioned on an event of probability zero, or constrained on a
        # derived variable.
        rec.outcome('no such model')
        return
    made = attempt(tomodel.model, spec)
    if made[0] == 'err':
        # The subject of other properties.
        rec.outcome('not constructed')
        return
    rec.sample({'spec': spec})
    rec.trace()
    lits = models.literals(spec, 6)
    evs = models.signed(lits) + [['and', a, b] for a, b in zip(lits, lits[1:])]
    probes = [(tosppl.event(e), want.prob(e)) for e in evs]
    m = roundtrip(made[1], probes, key, rec)
    if m is None:
        return
    # What happens next is the same.
    for ev, p in probes:
        if 0.01 < p < .99:
            a = attempt(lambda: made[1].condition(ev))
            b = attempt(lambda: m.condition(ev))
            if rec.expect(a[0] == b[0], key, lambda: 'conditioning %s on %s: %r before and %r after the round trip' % (spec, ev, a, b)) and a[0] == 'ok':
                for f, _ in probes[:6]:
                    rec.step()
                    u, v = a[1].prob(f), b[1].prob(f)
                    rec.expect(close(u, v), key, lambda: '%s given %s, probability of %s: %r before and %r after the round trip' % (spec, ev, f, u, v))
            break
    for v, d in want.comps[0].leaves.items():
        for t in (['a', 'b'] if isinstance(d, dist.Nominal) else [0, 1, .25]):
            rec.step()
            a = attempt(lambda: made[1].logpdf({tosppl.symbol(v): t}))
            b = attempt(lambda: m.logpdf({tosppl.symbol(v): t}))
            rec.expect(a[0] == b[0] and (a[0] == 'err' or close(a[1], b[1])), key, lambda:
                '%s: density at %s=%s %r before and %r after the round trip' % (spec, v, t, a[1], b[1]))

def roundtrip(spe, probes, key, rec):
    got = attempt(through, spe)
    if not rec.expect(got[0] == 'ok', key, lambda: 'the round trip of %s raised %r' % (key, got[1])):
        return None
    (m, text) = got[1]
    rec.expect(m.get_symbols() == spe.get_symbols(), key, lambda: '%s: variables %s became %s' % (key, spe.get_symbols(), m.get_symbols()))
    bad = snap.ill_formed(m)
    rec.expect(not bad, key, lambda: '%s: %s' % (key, bad))
    for ev, p in probes:
        q = attempt(lambda: float(m.prob(ev)))
        rec.step()
        rec.expect(q[0] == 'ok' and close(q[1], p), key, lambda: '%s: probability of %s is %r after the round trip, expected %r' % (key, ev, q[1], p))
    again = attempt(through, m)
    if rec.expect(again[0] == 'ok', key, lambda: '%s: the second round trip raised %r' % (key, again[1])):
        for ev, p in probes[:4]:
            q = attempt(lambda: float(again[1][0].prob(ev)))
            rec.expect(q[0] == 'ok' and close(q[1], p), key, lambda: '%s: probability of %s is %r after two round trips, expected %r' % (key, ev, q[1], p))
    s = attempt(lambda: m.sample(2, numpy.random.RandomState(0)))
    rec.expect(s[0] == 'ok' and all(set(a) == set(spe.get_symbols()) for a in s[1]), key, lambda: '%s: sampling the reconstruction gives %r' % (key, s[1]))
    # A derived variable is what the definition says of its parents.
    for a in s[1] if s[0] == 'ok' else []:
        by_base = {}
        for leaf in leaves(spe):
            by_base.setdefault(leaf.symbol, []).append(leaf)
        for base, ls in by_base.items():
            rec.step()
            rec.expect(any(agrees(leaf, a) for leaf in ls), key, lambda: '%s: in the sample %r of the reconstruction, the variables derived from %s are not' % (key, a, base))
    return m

def leaves(spe):
    return [l for c in spe.children for l in leaves(c)] if hasattr(spe, 'children') else [spe]

def agrees(leaf, sample):
    known = {leaf.symbol: sample.get(leaf.symbol)}
    for (var, expr) in list(leaf.env.items())[1:]:
        v = attempt(expr.evaluate, known)
        got = sample.get(var)
        if v[0] == 'err' or v[1] is None:
            # Undefined at the parent.
            known[var] = got
            continue
        if got is None or not close(float(got), float(v[1]), 1e-6 * max(1, abs(float(v[1])))):
            return False
        known[var] = v[1]
    return True

def run_odd(name, rec):
    rec.state(name)
    rec.trace()
    spe = ODD[name]()
    probes = [(ev, float(spe.prob(ev))) for ev in odd_events(spe)]
    roundtrip(spe, probes, 'odd:' + name, rec)

def run_distribution(c, rec):
    name = c['distribution']
    rec.state(json.dumps(c))
    rec.trace()
    spe = getattr(D, name)(**c['kwargs'])(x)
    d = spe.dist
    qs = [float(d.ppf(q)) for q in (.1, .5, .9)]
    probes = [(ev, float(spe.prob(ev))) for q in qs for ev in (x < q, x <= q, x << {q}, (x > q - 1) & (x < q + 1))]
    key = '%s:%s' % (name, json.dumps(c['kwargs']).replace(' ', ''))
    slow = name in c16.SLOW
    m = roundtrip(spe, probes[:3] if slow else probes, key, rec) if not slow else quiet(spe, probes[:3], key, rec)
    if m is None or slow:
        return
    for ev in (x < qs[2], x >= qs[0]):
        a = attempt(spe.condition, ev)
        if a[0] == 'err':
            continue
        a, b = a[1], attempt(lambda: through(a[1])[0])
        if rec.expect(b[0] == 'ok', key, lambda: '%s given %s: the round trip raised %r' % (key, ev, b[1])):
            for f, _ in probes:
                rec.step()
                u, v = attempt(lambda: float(a.prob(f))), attempt(lambda: float(b[1].prob(f)))
                rec.expect(u[0] == v[0] == 'ok' and close(u[1], v[1]), key, lambda: '%s given %s, probability of %s: %r before and %r after' % (key, ev, f, u[1], v[1]))

def quiet(spe, probes, key, rec):
    """roundtrip without samples, for slow distributions."""
    got = attempt(through, spe)
    if rec.expect(got[0] == 'ok', key, lambda: 'the round trip of %s raised %r' % (key, got[1])):
        for ev, p in probes:
            q = float(got[1][0].prob(ev))
            rec.step()
            rec.expect(close(p, q), key, lambda: '%s: probability of %s is %r after the round trip, expected %r' % (key, ev, q, p))
    return None

# ------------------------------------------------------------------------------
# Representations.

def irrational_sets():
    for ev in IRRATIONAL + [['cmp', poly(X, 0, 0, 0, 1), '>', 2], ['in', ['log', X, 2], ['iv', '1/3', 2, True, False]],
            ['in', ['exp', X, 'e'], ['fin', [2, 3]]], ['in', poly(X, 0, 0, 1), ['fin', [2, '1/3']]], ['in', ['rad', X, 3], ['fin', ['1/3']]],
            ['in', X, ['fin', ['1/3', .1]]], ['or', ['cmp', X, '<', '-pi'], ['in', X, ['fin', ['sqrt2']]]]]:
        yield ev

def c03_events():
    for t in (c03.UNARY, c03.ONLY1):
        for f in t.values():
            for s in c03.SETS2[:4:3]:
                yield ['in', f(X), s]

def run_repr(kind, i, j, tier, rec):
    if kind in ('sets', 'exprs', 'events'):
        (specs, build, _) = c02.KINDS[kind]
        rows = [(repr(s), lambda s=s: build(s)) for s in specs(tier)]
    elif kind == 'solved':
        rows = [(repr(e), lambda e=e: tosppl.event(e).solve()) for e in irrational_sets()]
        rows += [(repr(e), lambda e=e: tosppl.event(e).solve()) for e in c03_events()]
    else:
        rows = [(repr(e), lambda e=e: tosppl.event(e)) for e in irrational_sets()]
        rows += [(repr(e), lambda e=e: tosppl.event(e)) for e in c03_events()]
    for label, make in rows[i:j]:
        rec.state((kind, label))
        rec.trace()
        made = attempt(make)
        if made[0] == 'err':
            rec.outcome('not constructed')
            continue
        v = made[1]
        key = 'repr:%s:%s' % (kind, label.replace(' ', ''))
        got = attempt(lambda: eval(repr(v), dict(NS)))    # pylint: disable=eval-used
        if not rec.expect(got[0] == 'ok', key, lambda: 'evaluating %r raised %r' % (v, got[1])):
            continue
        w = got[1]
        # A number that Python cannot write is rounded to floating point.
        if '/' not in repr(v) and '.' not in repr(v):
            rec.expect(v == w and w == v and hash(v) == hash(w), key, lambda: '%r evaluates to something else, %r' % (v, w))
        elif not rounded(repr(v), repr(w)):
            rec.fail(key, '%r evaluates to something else, %r' % (v, w))
        a, b = behaviour(v), behaviour(w)
        rec.expect(a == b, key, lambda: '%r evaluates to something that behaves differently, %r' % (v, w))
        rec.step(len(a))

class Names(dict):
    """Every constructor builds a nested tuple."""
    def __missing__(self, name):
        if name == 'EmptySet':
            return (name,)
        return lambda *a, **k: (name, list(sorted(a, key=repr) if name in ('FiniteReal', 'FiniteNominal') else a), k)

NUMBERS = {'pi': math.pi, 'E': math.e, 'inf': math.inf, 'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt}

def rounded(a, b):
    """Do two representations differ at most in the rounding of numbers?"""
    def same(x, y):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool) and not isinstance(y, bool):
            return x == y or abs(x - y) <= 1e-12 * max(abs(x), 1)
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            return len(x) == len(y) and all(map(same, x, y))
        if isinstance(x, dict) and isinstance(y, dict):
            return list(x) == list(y) and all(same(x[k], y[k]) for k in x)
        return type(x) is type(y) and x == y
    return same(*(eval(t, {}, Names(NUMBERS)) for t in (a, b)))    # pylint: disable=eval-used

def behaviour(v):
    if isinstance(v, sppl.sets.Set):
        return [p in v for p in c02.PROBES + c02.STRINGS] 
    env = lambda p: {s: p for s in v.get_symbols()}
    def one(p):
        got = attempt(v.evaluate, env(p))
        return got[0] == 'ok' and (got[1] if isinstance(got[1], bool) else c02.r9(None if got[1] is None else float(got[1])) if not isinstance(got[1], str) else got[1])
    return [one(p) for p in c02.PROBES + (c02.STRINGS if isinstance(v, sppl.transforms.Event) else [])]

# ------------------------------------------------------------------------------

def cases(tier):
    ss = specs(tier)
    out = [{'specs': ss[i:i+5], 'tier': tier} for i in range(0, len(ss), 5)]
    ss = [m for m in models.ALL.values() if len(dist.symbols(m)) > 1]
    ss += [let(m, free(m), next(derived(m))) for m in ss if free(m)]
    out += [{'specs': ss[i:i+5], 'tier': tier, 'names': names} for names in models.NAMES for i in range(0, len(ss), 5)]
    ss = list(models.histories(2))[::10 if tier == 'quick' else 1]
    out += [{'specs': ss[i:i+5], 'tier': tier} for i in range(0, len(ss), 5)]
    out += [{'odd': name} for name in ODD]
    for name in sorted(c16.PAR):
        for shape in [c16.PAR[name]] + ([c16.PAR2[name]] if tier == 'thorough' and name in c16.PAR2 else []):
            discrete = issubclass(getattr(D, name), D.DiscreteReal)
            for ls in (c16.LOCSCALE['thorough'] if tier == 'thorough' else [{'loc': -2., 'scale': 3}]):
                if discrete:
                    ls = {'loc': -2} if 'loc' in ls else {}
                kwargs = {**ls, **shape}
                case = {'distribution': name, 'kwargs': kwargs}
                if case not in out[-8:]:
                    out.append(case)
    for kind, n in (('sets', 0), ('exprs', 0), ('events', 0), ('solved', 120), ('more', 120)):
        n = n or len(c02.KINDS[kind][0](tier))
        out += [{'repr': kind, 'rows': [i, i + 20], 'tier': tier} for i in range(0, n, 20)]
    return out

def run_case(c, rec):
    tosppl.use_names(c.get('names'))
    if 'specs' in c:
        for s in c['specs']:
            run_spec(s, rec, c['tier'])
    elif 'odd' in c:
        run_odd(c['odd'], rec)
    elif 'distribution' in c:
        run_distribution(c, rec)
    else:
        run_repr(c['repr'], c['rows'][0], c['rows'][1], c['tier'], rec)
