"""Translate the plain data of vlib.ref to the public API of sppl."""

import operator

from fractions import Fraction

import sympy

from sppl.sets import EmptySet, FiniteNominal, FiniteReal, Interval, make_union
from sppl.transforms import (Abs, Exponential, Id, Logarithm, Piecewise, Poly,
    Radical, Reciprocal)

inf = float('inf')

_CONST = {
    'inf': inf, '-inf': -inf, 'e': sympy.exp(1), 'pi': sympy.pi,
    '-pi': -sympy.pi, 'sqrt2': sympy.sqrt(2), 'log2': sympy.log(2),
    '1/e': sympy.exp(-1),
}

OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}

def num(x):
    if isinstance(x, str):
        if x in _CONST:
            return _CONST[x]
        f = Fraction(x)
        return sympy.Rational(f.numerator, f.denominator)
    return x

# The names that the variables of a spec get in the code under test.
NAMES = {}

def use_names(names):
    NAMES.clear()
    NAMES.update(names or {})

def symbol(name):
    return Id(NAMES.get(name, name))

def name_of(sym):
    """The name in the spec."""
    return next((k for k, v in NAMES.items() if v == sym.token), sym.token)

def expr(e):
    op = e[0]
    if op == 'id':
        return symbol(e[1])
    if op == 'piece':
        return Piecewise([expr(s) for s, _ in e[1]], [event(ev) for _, ev in e[1]])
    if op == 'ind':
        return event(e[1])
    x = expr(e[1])
    if op == 'poly':
        return Poly(x, [num(c) for c in e[2]])
    if op == 'abs':
        return Abs(x)
    if op == 'recip':
        return Reciprocal(x)
    if op == 'rad':
        return Radical(x, e[2])
    if op == 'exp':
        return Exponential(x, num(e[2]))
    if op == 'log':
        return Logarithm(x, num(e[2]))
    assert False, e

def to_set(s):
    op = s[0]
    if op == 'iv':
        return Interval(num(s[1]), num(s[2]), left_open=s[3], right_open=s[4])
    if op == 'fin':
        return FiniteReal(*[num(x) for x in s[1]])
    if op == 'nom':
        if not s[1] and not s[2]:
            return EmptySet
        return FiniteNominal(*s[1], b=bool(s[2]))
    if op == 'un':
        return make_union(*[to_set(t) for t in s[1:]])
    if op == 'empty':
        return EmptySet
    assert False, s

def event(ev):
    op = ev[0]
    if op == 'in':
        return expr(ev[1]) << to_set(ev[2])
    if op == 'cmp':
        return OPS[ev[2]](expr(ev[1]), num(ev[3]))
    if op == 'not':
        return ~event(ev[1])
    if op == 'xor':
        return event(ev[1]) ^ event(ev[2])
    out = event(ev[1])
    for x in ev[2:]:
        out = (out & event(x)) if op == 'and' else (out | event(x))
    return out
