"""C03: solving an event over one variable returns exactly the points that
satisfy it, and agrees with evaluating the event (bounded-exhaustive)."""

import math

from fractions import Fraction
from itertools import product

import sympy

import sppl.poly
from sppl.sets import EmptySet, FiniteReal, Interval, Set, Union
from sppl.transforms import Id

from vlib import ref, tosppl
from vlib.core import attempt

# The wall-clock limit on symbolic solving is a source of nondeterminism; the
# fallback it triggers is the subject of C06.
if hasattr(sppl.poly, 'TIMEOUT_SYMBOLIC'):
    sppl.poly.TIMEOUT_SYMBOLIC = 600

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of transform compositions and events on the real code against a reference evaluator'
LEVEL_NOTE = 'Exhaustive within the stated grammar: every composition of transforms to the stated depth with every set of the alphabet, decided on every cell of the critical-point partition. Coefficients and end points outside the alphabet are not covered; exact comparisons that the symbolic library declines to decide are counted as undecided.'
BOUNDS = {
    'quick': 'all transforms of depth 1 x all sets; all compositions of depth 2 '
        'x 6 sets; all Boolean combinations of 2 literals of a small alphabet; '
        'sets of numbers and strings',
    'thorough': 'depth 2 x all sets, depth 3 over a reduced alphabet, Boolean '
        'combinations of 3 literals',
}
ASSUMPTIONS = [
    'between two neighbouring critical points (computed by the reference) the '
    'truth of an event is constant, so one probe per cell decides it',
    'probes at irrational critical points are read off the returned set itself',
]

X = ['id', 'X']
def poly(*cs):
    return lambda e: ['poly', e, list(cs)]

UNARY = {
    '2x+1':   poly(1, 2),
    '-x':     poly(0, -1),
    '1-x/2':  poly(1, '-1/2'),
    'x^2':    poly(0, 0, 1),
    '1-x^2':  poly(1, 0, -1),
    'x^2-2x': poly(0, -2, 1),
    'x^3':    poly(0, 0, 0, 1),
    'abs':    lambda e: ['abs', e],
    'recip':  lambda e: ['recip', e],
    'sqrt':   lambda e: ['rad', e, 2],
    'cbrt':   lambda e: ['rad', e, 3],
    'exp':    lambda e: ['exp', e, 'e'],
    '2^x':    lambda e: ['exp', e, 2],
    '2^-x':   lambda e: ['exp', e, '1/2'],
    'ln':     lambda e: ['log', e, 'e'],
    'log2':   lambda e: ['log', e, 2],
}
ONLY1 = {
    'x^3-3x': poly(0, -3, 0, 1),
    'x^4-2x^2': poly(0, 0, -2, 0, 1),
    'x^2+x': poly(0, 1, 1),
    '-2x^2+8': poly(8, 0, -2),
    '10^x':   lambda e: ['exp', e, 10],
    'log10':  lambda e: ['log', e, 10],
    'rad5':   lambda e: ['rad', e, 5],
    'pw1': lambda e: ['piece', [[e, ['cmp', e, '<', 0]],
                                [['poly', e, [0, 0, 1]], ['cmp', e, '>=', 0]]]],
    'pw2': lambda e: ['piece', [[['poly', e, [1, 1]], ['in', e, ['iv', 0, 1, False, False]]],
                                [['recip', e], ['cmp', e, '>', 1]]]],
    'pw3': lambda e: ['piece', [[['poly', e, [5, -1]], ['or', ['cmp', e, '<', -1], ['cmp', e, '>', 3]]],
                                [['abs', e], ['in', e, ['iv', -1, 2, False, True]]],
                                [['log', e, 2], ['in', e, ['fin', [2, 3]]]]]],
    'pw4': lambda e: ['piece', [[e, ['cmp', e, '<', 0]],
                                [['abs', ['poly', e, [-3, 1]]], ['cmp', e, '>=', 0]]]],
    'pw5': lambda e: ['piece', [[['recip', ['poly', ['abs', e], [1, 1]]], ['cmp', e, '<', 2]],
                                [['log', ['poly', e, [-2, 1]], 2], ['cmp', e, '>', 2]]]],
    'ind1': lambda e: ['ind', ['cmp', e, '<', 1]],
    'ind2': lambda e: ['ind', ['in', e, ['fin', [0, 1]]]],
    'ind3': lambda e: ['ind', ['in', e, ['iv', 0, 2, False, True]]],
    'ind4': lambda e: ['ind', ['or', ['cmp', e, '<', 0], ['cmp', e, '>', 1]]],
    'ind5': lambda e: ['ind', ['and', ['cmp', e, '>', 0], ['not', ['in', e, ['fin', [1]]]]]],
    'ind6': lambda e: ['ind', ['cmp', ['recip', e], '<', 1]],
}
T = [-1, 0, '1/2', 2]

def sets_full():
    out = []
    for t in T:
        out += [['iv', '-inf', t, True, o] for o in (True, False)]
        out += [['iv', t, 'inf', o, True] for o in (True, False)]
        out += [['fin', [t]]]
    for (a, b) in [(-1, 0), (0, 2), ('1/2', 2), (-1, '1/2')]:
        out += [['iv', a, b, lo, ro] for lo in (True, False) for ro in (True, False)]
    out += [['fin', [0, 2]], ['fin', [-1, '1/2', 1]], ['fin', [1]], ['fin', [0, 1]]]
    out += [['un', ['fin', [2]], ['iv', -1, 0, True, False]],
            ['un', ['iv', '-inf', -1, True, False], ['iv', '1/2', 2, True, False]],
            ['iv', '-inf', 'inf', True, True], ['empty']]
    # Numbers and strings.
    out += [['un', ['fin', [1]], ['nom', ['a'], False]],
            ['un', ['iv', 0, 2, False, True], ['nom', ['b'], True]],
            ['un', ['fin', [2]], ['iv', -1, 0, True, False], ['nom', ['a', 'zz'], False]],
            ['nom', ['a', 'b'], False], ['nom', ['zz'], True]]
    return out

SETS2 = [
    ['iv', '-inf', '1/2', True, False], ['iv', 0, 'inf', True, True],
    ['iv', '-inf', 0, True, True],
    ['iv', 0, 2, False, True], ['fin', [0, 1]], ['iv', -1, '1/2', True, False],
]
SETS3 = [['iv', 0, 2, False, True], ['iv', '-inf', 1, True, False], ['fin', [1, 2]]]
SMALL = ['2x+1', '-x', 'x^2', 'abs', 'recip', 'sqrt', 'exp', '2^-x', 'log2']

# Literals for Boolean combinations over one variable.
LITS = [
    ['cmp', X, '<', 0], ['cmp', X, '>=', 2], ['in', X, ['fin', [0, 3]]],
    ['in', X, ['iv', -1, 3, True, False]],
    ['cmp', ['poly', X, [0, 0, 1]], '<=', 4],
    ['cmp', ['recip', X], '<', 1], ['cmp', ['log', X, 2], '>', 1],
    ['in', ['abs', X], ['fin', [2]]], ['cmp', ['poly', X, [1, -1]], '>', 0],
    ['in', ['rad', X, 2], ['iv', 0, 1, True, False]],
]
NOMLITS = [
    ['in', X, ['nom', ['a'], False]], ['in', X, ['nom', ['a', 'b'], False]],
    ['in', X, ['nom', ['b'], True]], ['in', X, ['nom', [], True]],
    ['in', X, ['nom', ['c'], True]],
]

def boolean_combos(lits, k):
    signed = [l for lit in lits for l in (lit, ['not', lit])]
    for a, b in product(range(len(signed)), repeat=2):
        if a < b:
            yield ['and', signed[a], signed[b]]
            yield ['or', signed[a], signed[b]]
            yield ['not', ['and', signed[a], signed[b]]]
            yield ['not', ['or', signed[a], signed[b]]]
            if k == 2 and a % 2 == 0 and b % 2 == 0:
                yield ['xor', signed[a], signed[b]]
    if k == 3:
        for a, b, c in product(range(len(signed)), repeat=3):
            if a < b:
                yield ['or', ['and', signed[a], signed[b]], signed[c]]
                yield ['and', ['or', signed[a], signed[b]], signed[c]]
                yield ['not', ['and', ['or', signed[a], signed[b]], signed[c]]]

def cases(tier):
    out = []
    full = sets_full()
    depth1 = dict(UNARY)
    depth1.update(ONLY1)
    for s in full:
        out.append({'ev': ['in', X, s]})
    for name in depth1:
        e = depth1[name](X)
        for s in full:
            out.append({'ev': ['in', e, s]})
    for lits in (LITS, NOMLITS):
        batch = [ev for ev in boolean_combos(lits, 2)]
        for i in range(0, len(batch), 4):
            out.append({'evs': batch[i:i+4]})
    for f in UNARY:
        for g in UNARY:
            e = UNARY[f](UNARY[g](X))
            for s in (SETS2 if tier == 'quick' else full):
                out.append({'ev': ['in', e, s]})
    for f in ['abs', 'recip', 'sqrt', '2x+1', '2^-x', 'log2']:
        for g in ['pw1', 'pw2', 'pw3', 'pw4', 'ind4', 'ind6']:
            for s in SETS2[:5]:
                out.append({'ev': ['in', UNARY[f](ONLY1[g](X)), s]})
    if tier == 'thorough':
        for f, g, h in product(SMALL, repeat=3):
            for s in SETS3:
                out.append({'ev': ['in', UNARY[f](UNARY[g](UNARY[h](X))), s]})
        for lits in (LITS, NOMLITS):
            batch = [ev for ev in boolean_combos(lits, 3)]
            for i in range(0, len(batch), 16):
                out.append({'evs': batch[i:i+16]})
    return out

def run_case(c, rec):
    for ev in c.get('evs') or [c['ev']]:
        run_event(ev, rec)

def complemented(x):
    if isinstance(x, list):
        return (x[:1] == ['nom'] and x[2] is True) or any(map(complemented, x))
    return False

def exact(p):
    """The critical point as an exact number, or None if it is irrational."""
    f = Fraction(p).limit_denominator(1000)
    if float(f) != float(p):
        return None
    if f.denominator == 1:
        return int(f)
    d = f.denominator
    return float(f) if d & (d - 1) == 0 else None

def endpoints(s):
    if isinstance(s, Interval):
        return [x for x in (s.left, s.right) if not math.isinf(x)]
    if isinstance(s, FiniteReal):
        return [x for x in s if not math.isinf(x)]
    if isinstance(s, Union):
        return [p for t in s.args for p in endpoints(t)]
    return []

def run_event(ev, rec):
    key = repr(ev)
    rec.state(key)
    rec.step()
    got = attempt(lambda: tosppl.event(ev))
    if got[0] == 'err':
        return rec.fail(key, 'constructing %s raised %r' % (ev, got[1]))
    event = got[1]
    got = attempt(event.solve)
    if got[0] == 'err':
        return rec.fail(key, 'solving %s raised %r' % (event, got[1]))
    solution = got[1]
    if not isinstance(solution, Set):
        return rec.fail(key, 'solving %s returned %r' % (event, solution))
    crit = ref.crit(ev, 'X')
    probes = [m for (_, _, m) in ref.cells(crit)]
    probes += [p for p in map(exact, crit) if p is not None]
    probes += ['a', 'b', 'zz']
    truths = set()
    rational = ref.transcendental(ev)
    # Whether a function of a string, which is nothing, lies in "every string
    # but these" is a convention of the library (it does).
    if not plain(ev) and complemented(ev):
        probes = [p for p in probes if not isinstance(p, str)]
    for p in probes:
        if ref.singular(ev, {'X': p}):
            continue
        want = ref.holds(ev, {'X': p})
        truths.add(want)
        got = attempt(lambda: p in solution)
        rec.trace()
        if rational and p in crit and undecided(got):
            rec.outcome('undecided')
            continue
        rec.expect(got == ('ok', want), key, lambda:
            '%s\n  solution %r\n  %r in solution: %r, expected %r'
            % (event, solution, p, got[1], want))
        # Exact arithmetic where rounding could move a point across a boundary.
        q = sympy.nsimplify(p, rational=True) \
            if rational and p in crit else p
        val = attempt(lambda: event.evaluate({Id('X'): q}))
        rec.trace()
        if rational and p in crit and undecided(val):
            rec.outcome('undecided')
            continue
        if isinstance(p, str) and not plain(ev):
            continue    # Transforms of strings are ill-typed.
        # Outside the domain of some part, evaluation may also raise.
        ok = bool(val[1]) == want if val[0] == 'ok' else not all_defined(ev, p)
        rec.expect(ok, key, lambda: '%s\n  evaluate at %r: %r, expected %r'
            % (event, p, val[1], want))
    # End points of the returned set, which may be irrational.
    for p in endpoints(solution):
        if ref.singular(ev, {'X': ref.snap(float(p))}):
            continue
        want = ref.holds(ev, {'X': ref.snap(float(p))})
        rec.trace()
        got = attempt(lambda: p in solution)
        if rational and undecided(got):
            rec.outcome('undecided')
            continue
        rec.expect(got == ('ok', want), key, lambda:
            '%s\n  solution %r\n  end point %r: %r, expected %r'
            % (event, solution, p, got[1], want))
    rec.outcome({(True,): 'all', (False,): 'none'}.get(tuple(truths), 'some'))
    rec.sample({'event': str(event), 'solution': repr(solution), 'probes': len(probes)})
    return None

def undecided(got):
    """Did the comparison of exact numbers decline to answer?"""
    return got[0] == 'err' and isinstance(got[1], TypeError) \
        and 'truth value of Relational' in str(got[1])

def plain(ev):
    return all(l[1][0] == 'id' for l in ref.literals(ev))

def all_defined(ev, p):
    return all(ref.holds(l, {'X': p}) or ref.holds(l, {'X': p}, True)
        for l in ref.literals(ev))
