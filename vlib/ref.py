"""Boring reference semantics of transforms and events.

Expressions, events and sets are plain JSON-able lists.  This module evaluates
them with ordinary floating-point arithmetic and never calls the code under
test.  vlib.tosppl translates the same data to the public API of sppl.

Numbers   : int, float, or a string: '1/2' (a rational), 'inf', '-inf', 'e',
            'pi', 'sqrt2'.
Expression: ['id', 'X'] | ['poly', e, [c0, c1, ...]] | ['abs', e]
          | ['recip', e] | ['rad', e, n] | ['exp', e, b] | ['log', e, b]
          | ['piece', [[e, ev], ...]] | ['ind', ev]
Set       : ['iv', a, b, left_open, right_open] | ['fin', [...]]
          | ['nom', [...], complemented] | ['un', set, ...]
Event     : ['in', e, set] | ['cmp', e, op, c] | ['and', ev, ...]
          | ['or', ev, ...] | ['not', ev]
"""

import math

from fractions import Fraction

inf = float('inf')
TOL = 1e-9

_CONST = {
    'inf': inf, '-inf': -inf, 'e': math.e, 'pi': math.pi, '-pi': -math.pi,
    'sqrt2': math.sqrt(2), 'log2': math.log(2), '1/e': 1/math.e,
}

def num(x):
    """Value of a number spec as a float (or int)."""
    if isinstance(x, str):
        if x in _CONST:
            return _CONST[x]
        return float(Fraction(x))
    return x

def same(a, b):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= TOL * max(1., abs(a), abs(b))

def snap(x):
    """Snap a float to a nearby simple rational, if there is one."""
    if math.isinf(x) or abs(x) > 1e6:
        return x
    f = Fraction(x).limit_denominator(48)
    y = float(f)
    if abs(y - x) <= 1e-7 * max(1., abs(x)):
        return int(y) if f.denominator == 1 else y
    return x

# ------------------------------------------------------------------------------
# Expressions.

def evaluate(e, env):
    """Value of expression e, or None where it is undefined (or infinite)."""
    op = e[0]
    if op == 'id':
        return env[e[1]]
    if op == 'piece':
        for (sub, ev) in e[1]:
            if holds(ev, env):
                return evaluate(sub, env)
        return None
    if op == 'ind':
        return 1 if holds(e[1], env) else 0 if holds(e[1], env, True) else None
    x = evaluate(e[1], env)
    if x is None or isinstance(x, str):
        return None
    try:
        y = _apply(e, x)
    except (OverflowError, ZeroDivisionError):
        return None
    if y is None or isinstance(y, complex) or math.isinf(y) or math.isnan(y):
        return None
    return y

def _apply(e, x):
    op = e[0]
    if op == 'poly':
        y = 0
        for c in reversed(e[2]):
            y = y * x + num(c)
        return y
    if op == 'abs':
        return abs(x)
    if op == 'recip':
        return None if same(x, 0) else 1. / x
    if op == 'rad':
        if same(x, 0):
            return 0.
        return None if x < 0 else x ** (1. / e[2])
    if op == 'exp':
        return num(e[2]) ** float(x)
    if op == 'log':
        if same(x, 0) or x < 0:
            return None
        return math.log(x) / math.log(num(e[2]))
    assert False, e

def singular(ev, env):
    """Does a literal apply a function to log(0)?  (Left unspecified.)"""
    return any(_singular(l[1], env, True) for l in literals(ev))

def _singular(e, env, top):
    if e[0] == 'id':
        return False
    if e[0] == 'piece':
        return any(_singular(s, env, False) or singular(ev, env) for s, ev in e[1])
    if e[0] == 'ind':
        return singular(e[1], env)
    if _singular(e[1], env, False):
        return True
    if e[0] == 'log' and not top:
        x = evaluate(e[1], env)
        return x is not None and not isinstance(x, str) and same(x, 0)
    return False

def transcendental(ev):
    """Does the event use a function whose values are not rational?"""
    return any(_transcendental(l[1]) for l in literals(ev))

def _transcendental(e):
    if e[0] == 'id':
        return False
    if e[0] == 'piece':
        return any(_transcendental(s) or transcendental(ev) for s, ev in e[1])
    if e[0] == 'ind':
        return transcendental(e[1])
    return e[0] in ('rad', 'exp', 'log') or _transcendental(e[1])

def symbols_expr(e):
    if e[0] == 'id':
        return {e[1]}
    if e[0] == 'piece':
        return set().union(*[symbols_expr(s) | symbols(ev) for s, ev in e[1]])
    if e[0] == 'ind':
        return symbols(e[1])
    return symbols_expr(e[1])

def symbols(ev):
    if ev[0] in ('in', 'cmp'):
        return symbols_expr(ev[1])
    return set().union(*[symbols(x) for x in ev[1:]])

# ------------------------------------------------------------------------------
# Sets and events.

def member(v, s):
    """Is the value v (a finite number or a string) in the set s?"""
    op = s[0]
    if op == 'un':
        return any(member(v, t) for t in s[1:])
    if op == 'empty':
        return False
    if op == 'nom':
        return isinstance(v, str) and ((v in s[1]) != bool(s[2]))
    if isinstance(v, str):
        return False
    if op == 'fin':
        return any(same(v, num(x)) for x in s[1])
    if op == 'iv':
        (a, b, lo, ro) = (num(s[1]), num(s[2]), s[3], s[4])
        if same(v, a):
            return not lo and (a < b or not ro)
        if same(v, b):
            return not ro
        return a < v < b
    assert False, s

def cmp_to_set(op, c):
    return {
        '<':  ['iv', '-inf', c, True, True],
        '<=': ['iv', '-inf', c, True, False],
        '>':  ['iv', c, 'inf', True, True],
        '>=': ['iv', c, 'inf', False, True],
    }[op]

def holds(ev, env, neg=False):
    """Truth of an event.

    A literal is false where its expression is undefined and where the value
    is of the other kind (a string for a set of numbers, and vice versa);
    negation is pushed to the literals, so that both a literal and its
    negation are false there.
    """
    op = ev[0]
    if op == 'not':
        return holds(ev[1], env, not neg)
    if op == 'and':
        return (any if neg else all)(holds(x, env, neg) for x in ev[1:])
    if op == 'or':
        return (all if neg else any)(holds(x, env, neg) for x in ev[1:])
    if op == 'xor':
        (a, b) = ev[1:]
        return holds(['or', ['and', a, ['not', b]], ['and', ['not', a], b]], env, neg)
    if op == 'cmp':
        s = cmp_to_set(ev[2], ev[3])
    else:
        s = ev[2]
    v = evaluate(ev[1], env)
    return literal(v, s, neg)

def literal(v, s, neg):
    if v is None:
        return False
    if s[0] == 'un':
        # Containment in a union is a disjunction of literals.
        return (all if neg else any)(literal(v, t, neg) for t in s[1:])
    if s[0] == 'nom':
        return isinstance(v, str) and (member(v, s) != neg)
    if isinstance(v, str):
        return False
    return member(v, s) != neg

def literals(ev):
    if ev[0] in ('in', 'cmp'):
        return [ev]
    out = []
    for x in ev[1:]:
        out.extend(literals(x))
    return out

# ------------------------------------------------------------------------------
# Critical points: where the truth of an event over one real variable may change.

def set_points(s):
    if s[0] == 'un':
        return [p for t in s[1:] for p in set_points(t)]
    if s[0] == 'iv':
        return [x for x in (num(s[1]), num(s[2])) if not math.isinf(x)]
    if s[0] == 'fin':
        return [num(x) for x in s[1] if not math.isinf(num(x))]
    return []

def crit(ev, name):
    """Critical points, for the variable called name, of an event."""
    out = set()
    for lit in literals(ev):
        if name not in symbols_expr(lit[1]):
            continue
        s = cmp_to_set(lit[2], lit[3]) if lit[0] == 'cmp' else lit[2]
        out.update(crit_expr(lit[1], set_points(s), name))
    return sorted({snap(x) for x in out if not math.isinf(x)})

def crit_expr(e, targets, name):
    """Points where e crosses one of the targets or where its domain ends."""
    op = e[0]
    if op == 'id':
        return set(targets)
    if op == 'piece':
        out = set()
        for (sub, ev) in e[1]:
            out.update(crit_expr(sub, targets, name))
            out.update(crit(ev, name))
        return out
    if op == 'ind':
        return set(crit(e[1], name))
    return crit_expr(e[1], _preimages(e, targets), name)

def _preimages(e, targets):
    op = e[0]
    out = set()
    for t in targets:
        t = float(t)
        if op == 'poly':
            out.update(real_roots([num(c) for c in e[2]], t))
        elif op == 'abs':
            out.update([t, -t])
        elif op == 'recip':
            if t != 0:
                out.add(1. / t)
        elif op == 'rad':
            out.add(abs(t) ** e[2])
        elif op == 'exp':
            if t > 0:
                out.add(math.log(t) / math.log(num(e[2])))
        elif op == 'log':
            if t < 700:
                out.add(num(e[2]) ** t)
    if op in ('abs', 'recip', 'rad', 'log'):
        out.add(0.)
    return {snap(x) for x in out}

def real_roots(coeffs, t):
    import numpy
    cs = [float(c) for c in coeffs]
    cs[0] -= t
    while len(cs) > 1 and cs[-1] == 0:
        cs.pop()
    if len(cs) == 1:
        return []
    # Nearly real roots are kept too: an extra critical point does no harm.
    return [snap(float(r.real)) for r in numpy.roots(cs[::-1])
        if abs(r.imag) < 1e-3 * max(1., abs(r))]

def cells(points):
    """Representatives of the open cells between the critical points."""
    ps = sorted(set(points))
    if not ps:
        return [(-inf, inf, 0.125)]
    out = [(-inf, ps[0], ps[0] - 1.0625)]
    for (a, b) in zip(ps, ps[1:]):
        if b - a > 1e-6:
            out.append((a, b, a + 0.5078125 * (b - a)))
    out.append((ps[-1], inf, ps[-1] + 1.0625))
    return out
