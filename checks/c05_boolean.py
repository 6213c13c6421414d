"""C05: Boolean operations on events are pointwise
(every Boolean formula up to a size over literals on three variables, every
disjunction of clauses over a clause alphabet, and every spelling of a literal,
at every assignment of a grid that has a point in each cell)."""

import operator

from itertools import combinations, product

from vlib import fastsym    # First: see there.
from vlib import ref, tosppl
from vlib.core import attempt

from sppl.dnf import dnf_normalize, dnf_to_disjoint_union
from sppl.sets import EmptySet, FiniteNominal, FiniteReal, Interval
from sppl.transforms import Event, EventAnd, EventOr, Id

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of Boolean formulas and of disjunctions of clauses over literals on several variables, on the real code; the truth of each event, of its normal form and of its disjoint clauses is compared with a reference evaluator at every point of a grid'
LEVEL_NOTE = 'All formulas of the stated shapes over the literal alphabet; the grid has every critical point and a point of every cell for each variable, so agreement on it is agreement everywhere.'
BOUNDS = {
    'quick': 'formulas of 1 and 2 signed literals of 14 on 3 variables (and, or, not, xor, all nestings of not), of 3 literals in 9 shapes, of 4 in 6; disjunctions of 2 of 47 and 3 of 23 clauses; 340 spellings of chained comparisons and containments',
    'thorough': 'disjunctions of 3 of 47 clauses and 4 of 11; formulas of 3 signed literals of 14',
}
ASSUMPTIONS = ['the truth of the literals is constant on the cells between the critical points computed by the reference']

X, Y, N = ['id', 'X'], ['id', 'Y'], ['id', 'N']
def poly(e, *cs):
    return ['poly', e, list(cs)]

LITS = [
    ['cmp', X, '<', 1], ['in', X, ['iv', 0, 2, False, True]], ['in', X, ['fin', [0, 2]]], ['cmp', poly(X, 0, 0, 1), '<=', 4], ['cmp', ['abs', X], '>', 1],
    ['in', X, ['un', ['iv', '-inf', 0, True, True], ['iv', 1, 2, False, False]]],
    ['cmp', Y, '>=', 0], ['in', Y, ['fin', [0, 1]]], ['cmp', ['recip', Y], '<', 1], ['in', poly(Y, 1, -1), ['iv', 0, 1, True, False]],
    ['in', N, ['nom', ['a'], False]], ['in', N, ['nom', ['b', 'c'], False]], ['in', N, ['nom', ['b'], True]], ['in', N, ['nom', [], True]],
]
SIGNED = [s for l in LITS for s in (l, ['not', l])]
# Finite sets have complements of many parts, whose normal forms explode.
SMALL = [LITS[i] for i in (0, 1, 3, 6, 9, 10, 12)]
TINY = [LITS[i] for i in (0, 1, 4, 6, 9, 10, 12)]

def formulas(tier):
    for s in SIGNED:
        yield s
        yield ['not', s]
        yield ['not', ['not', s]]
        yield ['xor', s, s]
        yield ['and', s, s]
    for a, b in product(SIGNED, repeat=2):
        yield ['and', a, b]
        yield ['or', a, b]
    for a, b in combinations(SIGNED, 2):
        yield ['not', ['and', a, b]]
        yield ['not', ['or', a, b]]
        yield ['xor', a, b]
        yield ['not', ['xor', a, b]]
    three = SIGNED if tier == 'thorough' else SMALL
    for a, b, c in product(three, SMALL, SMALL):
        if LITS.index(b) >= LITS.index(c):
            continue
        yield ['and', a, ['or', b, c]]
        yield ['and', ['or', b, c], a]
        yield ['or', a, ['and', b, c]]
        yield ['or', ['and', b, c], ['not', a]]
        yield ['and', ['and', a, b], c]
        yield ['or', ['or', b, a], c]
        yield ['not', ['and', ['or', b, ['not', c]], a]]
        yield ['not', ['or', ['and', ['not', b], c], a]]
        yield ['xor', ['and', b, c], a]
    for a, b, c, d in combinations(TINY, 4):
        yield ['and', ['or', a, b], ['or', c, d]]
        yield ['or', ['and', a, c], ['and', b, d]]
        yield ['not', ['or', ['and', a, b], ['and', c, d]]]
        yield ['not', ['and', ['or', a, ['not', d]], ['or', b, c]]]
        yield ['or', ['and', a, ['or', b, c]], ['not', ['and', b, d]]]
        yield ['xor', ['or', a, d], ['and', b, c]]

# Clauses: at most one literal per variable.
XS = [['cmp', X, '<', 1], ['in', X, ['iv', 0, 2, False, True]], ['in', X, ['fin', [0, 2]]]]
YS = [['cmp', Y, '>=', 0], ['in', Y, ['iv', -1, 1, True, False]]]
NS = [['in', N, ['nom', ['a'], False]], ['in', N, ['nom', ['b'], True]], ['in', N, ['nom', ['a', 'b'], False]]]

def clauses(xs, ys, ns):
    out = []
    for x, y, n in product([None] + xs, [None] + ys, [None] + ns):
        lits = [l for l in (x, y, n) if l is not None]
        if len(lits) == 1:
            out.append(lits[0])
        elif lits:
            out.append(['and'] + lits)
    return out

BIG = clauses(XS, YS, NS)
MEDIUM = clauses(XS[:2], YS, NS[1:])
LITTLE = clauses(XS[:1], YS[:1], NS[1:])

def disjunctions(tier):
    for a, b in product(BIG, repeat=2):
        if a is not b:
            yield ['or', a, b]
    med = BIG if tier == 'thorough' else MEDIUM
    for t in (combinations(med, 3)):
        yield ['or'] + list(t)
        yield ['or'] + list(t[::-1])
    if tier == 'thorough':
        for t in product(LITTLE, repeat=4):
            if len({repr(c) for c in t}) == 4:
                yield ['or'] + list(t)
    else:
        for t in combinations(LITTLE, 4):
            yield ['or'] + list(t)

# ------------------------------------------------------------------------------

def grid(ev):
    """Assignments: a point in each cell, and each critical point."""
    axes = []
    for v in sorted(ref.symbols(ev)):
        if v == 'N':
            axes.append(['a', 'b', 'c', 'zz'])
        else:
            crit = ref.crit(ev, v)
            axes.append([m for (_, _, m) in ref.cells(crit)] + crit)
    names = sorted(ref.symbols(ev))
    return [dict(zip(names, vals)) for vals in product(*axes)]

def defined(ev, env):
    return all(ref.holds(l, env) or ref.holds(l, env, True) for l in ref.literals(ev))

def truth(event, env):
    return attempt(lambda: event.evaluate({Id(k): v for k, v in env.items()}))

class Table():
    """Truth of a normal form, from that of its literals at each value."""
    def __init__(self):
        self.memo = {}
    def literal(self, e, env):
        (symbol,) = e.get_symbols()
        k = (id(e), env[str(symbol)])
        if k not in self.memo:
            got = truth(e, {str(symbol): env[str(symbol)]})
            self.memo[k] = got[1] if got[0] == 'ok' and got[1] in (0, 1) else None
        return self.memo[k]
    def clause(self, e, env):
        ys = [self.literal(l, env) for l in (e.subexprs if isinstance(e, EventAnd) else [e])]
        return None if None in ys else int(all(ys))
    def clauses(self, e, env):
        return [self.clause(c, env) for c in clauses_of(e)]

def clauses_of(event):
    return list(event.subexprs) if isinstance(event, EventOr) else [event]

def is_dnf(event):
    return all(all(not isinstance(l, (EventAnd, EventOr)) for l in (c.subexprs if isinstance(c, EventAnd) else [c]))
        for c in clauses_of(event))

def run_event(ev, rec):
    key = repr(ev)
    rec.state(key)
    got = attempt(tosppl.event, ev)
    rec.step()
    if got[0] == 'err' or not isinstance(got[1], Event):
        return rec.fail(key, 'constructing %s gave %r' % (ev, got[1]))
    event = got[1]
    forms = {'the event': event}
    for name, f in (
            ('to_dnf', lambda: event.to_dnf()),
            ('dnf_normalize', lambda: dnf_normalize(event)),
            ('disjoint', lambda: dnf_to_disjoint_union(forms['dnf_normalize'])),
            ('disjoint of dnf', lambda: dnf_to_disjoint_union(forms['to_dnf']))):
        if forms.get('dnf_normalize', event) is None and 'disjoint' in name:
            continue
        if name == 'disjoint of dnf' and len(ref.literals(ev)) > 4:
            continue    # The same algorithm on more clauses.
        got = attempt(f)
        rec.step()
        if got[0] == 'err':
            return rec.fail(key, '%s of %s raised %r' % (name, event, got[1]))
        forms[name] = got[1]
        if got[1] is None:
            rec.outcome('empty')
        elif not rec.expect(is_dnf(got[1]), key, lambda: '%s of %s is not a disjunction of conjunctions: %s' % (name, event, got[1])):
            return None
    some = set()
    table = Table()
    for env in grid(ev):
        if ref.singular(ev, env):
            continue
        want = ref.holds(ev, env)
        ok = defined(ev, env)
        some.add(want)
        for name, e in forms.items():
            if name in ('the event', 'to_dnf', 'disjoint of dnf') and not ok:
                continue
            rec.trace()
            if e is None:
                rec.expect(not want, key, lambda: '%s of %s is empty, but the event is true at %s' % (name, event, env))
                continue
            if name == 'the event':
                got = truth(e, env)
                got = got[1] if got[0] == 'ok' else got
            else:
                ys = table.clauses(e, env)
                got = None if None in ys else sum(ys) if 'disjoint' in name else max(ys)
            if not rec.expect(got == int(want), key, lambda: '%s is %s, of which %r %s true at %s, expected %s' % (name, e, got, 'clauses are' if 'disjoint' in name else 'is', env, int(want))):
                return None
    rec.outcome({(True,): 'always true', (False,): 'never true'}.get(tuple(some), 'sometimes true'))
    rec.sample({'event': str(event), 'disjoint': str(forms.get('disjoint'))})
    return None

# ------------------------------------------------------------------------------
# Spellings of literals.

OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
ENDS = [-1, 0, 0.5, 2]

def chained():
    """a op (X op b) and (a op X) op b."""
    for a, b in product(ENDS, repeat=2):
        for o1, o2 in product(OPS, repeat=2):
            yield {'chain': ['right', a, o1, o2, b]}
            yield {'chain': ['left', a, o1, o2, b]}

def run_chain(c, rec):
    (side, a, o1, o2, b) = c
    key = repr(c)
    rec.state(key)
    rec.step()
    for name, e, vals in (('X', Id('X'), lambda x: x), ('2*X', 2*Id('X'), lambda x: 2*x)):
        if side == 'right':
            got = attempt(lambda: OPS[o1](a, OPS[o2](e, b)))
            text = '%s %s (%s %s %s)' % (a, o1, name, o2, b)
        else:
            got = attempt(lambda: OPS[o2](OPS[o1](a, e), b))
            text = '(%s %s %s) %s %s' % (a, o1, name, o2, b)
        if got[0] == 'err':
            # Bounded on that side already.
            rec.outcome('rejected')
            same = (o1[0] == '<') == (o2[0] == '<')
            rec.expect(not same and isinstance(got[1], (TypeError, ValueError)), key, lambda: '%s raised %r' % (text, got[1]))
            continue
        event = got[1]
        if not rec.expect(isinstance(event, Event), key, lambda: '%s is %r' % (text, event)):
            return
        for neg in (False, True):
            e2 = ~event if neg else event
            for x in [-2, -1, -0.5, -0.25, 0, 0.125, 0.25, 0.375, 0.5, 0.75, 1, 1.5, 2, 3]:
                want = (OPS[o1](a, vals(x)) and OPS[o2](vals(x), b)) != neg
                for form in (e2, dnf_normalize(e2)):
                    rec.trace()
                    got = truth(form, {'X': x}) if form is not None else ('ok', 0)
                    if not rec.expect(got[0] == 'ok' and got[1] == want, key, lambda: '%s%s is %s, which is %r at %s, expected %s' % ('not ' if neg else '', text, form, got[1], x, want)):
                        return
        rec.outcome('accepted')

CONTAIN = {
    '[]': [], '{1}': {1}, '[1, 2]': [1, 2], '(0, 0.5)': (0, 0.5), 'frozenset({3})': frozenset({3}), "{'a'}": {'a'}, "['a', 'b']": ['a', 'b'], "{1, 'a'}": {1, 'a'}, "[0, 'b', 2, 'a']": [0, 'b', 2, 'a'],
    'EmptySet': EmptySet, 'FiniteReal': FiniteReal(0, 2), "FiniteNominal('a')": FiniteNominal('a'), "~FiniteNominal('a','b')": FiniteNominal('a', 'b', b=True), 'Strings': FiniteNominal(b=True),
    '[0,2)': Interval.Ropen(0, 2), '(-oo,1]': Interval(-float('inf'), 1), 'union': Interval.open(-1, 0) | FiniteReal(1, 2), 'union2': Interval.open(-1, 0) | FiniteNominal('b') | FiniteReal(3),
    'union3': Interval(2, 3) | FiniteNominal('b', b=True), 'union4': Interval.open(0, 1) | Interval.open(1, 2),
}
IN = {
    '[]': lambda v: False, '{1}': lambda v: v == 1, '[1, 2]': lambda v: v in (1, 2), '(0, 0.5)': lambda v: v in (0, .5), 'frozenset({3})': lambda v: v == 3, "{'a'}": lambda v: v == 'a',
    "['a', 'b']": lambda v: v in ('a', 'b'), "{1, 'a'}": lambda v: v in (1, 'a'), "[0, 'b', 2, 'a']": lambda v: v in (0, 'b', 2, 'a'), 'EmptySet': lambda v: False, 'FiniteReal': lambda v: v in (0, 2),
    "FiniteNominal('a')": lambda v: v == 'a', "~FiniteNominal('a','b')": lambda v: isinstance(v, str) and v not in 'ab', 'Strings': lambda v: isinstance(v, str),
    '[0,2)': lambda v: not isinstance(v, str) and 0 <= v < 2, '(-oo,1]': lambda v: not isinstance(v, str) and v <= 1, 'union': lambda v: not isinstance(v, str) and (-1 < v < 0 or v in (1, 2)),
    'union2': lambda v: v == 'b' or not isinstance(v, str) and (-1 < v < 0 or v == 3), 'union3': lambda v: v != 'b' if isinstance(v, str) else 2 <= v <= 3,
    'union4': lambda v: not isinstance(v, str) and (0 < v < 1 or 1 < v < 2),
}
VALUES = [-1, -0.5, 0, 0.5, 1, 1.5, 2, 2.5, 3, 4, 'a', 'b', 'c']
STRINGS_ONLY = {"{'a'}", "['a', 'b']", "FiniteNominal('a')", "~FiniteNominal('a','b')", 'Strings'}
MIXED = {"{1, 'a'}", "[0, 'b', 2, 'a']", 'union2', 'union3'}

def kind_ok(name, v):
    """Is the negation of containment specified for this value?"""
    if name in MIXED:
        return False
    return isinstance(v, str) == (name in STRINGS_ONLY)

def run_contain(names, rec):
    """Containment in one set, or a Boolean combination of two."""
    key = 'contain:%s' % (names,)
    rec.state(key)
    rec.step()
    events = []
    for n in names:
        got = attempt(lambda: Id('X') << CONTAIN[n])
        if not rec.expect(got[0] == 'ok' and isinstance(got[1], Event), key, lambda: 'X << %s gave %r' % (n, got[1])):
            return
        events.append(got[1])
    if len(names) == 1:
        combos = [('%s', events[0], lambda a: a, False), ('~%s', ~events[0], lambda a: not a, True)]
    else:
        a, b = events
        combos = [('&', a & b, lambda a, b: a and b, False), ('|', a | b, lambda a, b: a or b, False)]
        combos += [('& ~', a & ~b, lambda a, b: a and not b, True), ('~ |', ~a | b, lambda a, b: not a or b, True), ('^', a ^ b, lambda a, b: a != b, True)]
    for op, event, f, neg in combos:
        norm = attempt(dnf_normalize, event)
        rec.step()
        if not rec.expect(norm[0] == 'ok', key, lambda: 'dnf_normalize of %s raised %r' % (event, norm[1])):
            return
        for v in VALUES:
            if neg and not all(kind_ok(n, v) for n in names):
                continue
            want = f(*[IN[n](v) for n in names])
            for form in (event, norm[1]):
                rec.trace()
                got = truth(form, {'X': v}) if form is not None else ('ok', 0)
                if not rec.expect(got[0] == 'ok' and bool(got[1]) == bool(want), key, lambda: 'X << %s (%s) is %s, which is %r at %r, expected %s' % (names, op, form, got[1], v, want)):
                    return

def run_rejected(rec):
    """What is not an event does not combine."""
    e = Id('X') < 1
    for text, f in (('e & 1', lambda: e & 1), ('1 | e', lambda: 1 | e), ('e & X', lambda: e & Id('X')), ('e ^ 1', lambda: e ^ 1), ("X < 'a'", lambda: Id('X') < 'a'),
            ('X << 1', lambda: Id('X') << 1), ('X < X', lambda: Id('X') < Id('X')), ("X << 'a'", lambda: Id('X') << 'a'), ('X & e', lambda: Id('X') & e)):
        got = attempt(f)
        rec.step()
        rec.expect(got[0] == 'err', text, lambda: '%s is %r' % (text, got[1]))

# ------------------------------------------------------------------------------

def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i+n] for i in range(0, len(xs), n)]

def cases(tier):
    out = [{'rejected': True}]
    out += [{'evs': c} for c in chunks(formulas(tier), 40)]
    out += [{'evs': c} for c in chunks(disjunctions(tier), 25)]
    out += [{'chains': c} for c in chunks([c['chain'] for c in chained()], 64)]
    out += [{'contain': c} for c in chunks([[a] for a in CONTAIN] + [[a, b] for a in CONTAIN for b in CONTAIN], 60)]
    return out

def run_case(c, rec):
    for ev in c.get('evs', ()):
        run_event(ev, rec)
    for x in c.get('chains', ()):
        run_chain(x, rec)
    for x in c.get('contain', ()):
        run_contain(x, rec)
    if 'rejected' in c:
        run_rejected(rec)
