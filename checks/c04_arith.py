"""C04: arithmetic on random variables denotes the function written
(every operator tree up to a depth over an alphabet of operands, evaluated on
the real code and by ordinary arithmetic; every substitution over a smaller
alphabet)."""

import math

from fractions import Fraction
from itertools import product

from vlib import fastsym    # First: see there.
import numpy
import sympy

from sppl import transforms
from sppl.transforms import Event, Id, Transform
from vlib.core import attempt

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of operator trees (as program text) on the real code; each is evaluated at every point of a grid and compared with ordinary arithmetic on the same text'
LEVEL_NOTE = 'Every operator tree of the stated depth over the stated operands, every side and type of number; every substitution of a smaller alphabet of expressions and events, simultaneous and iterated.'
BOUNDS = {
    'quick': 'operator trees of depth 1 over 7 indicators, X and 12 numbers; depth 2 (unary of depth 1, depth 1 with a number, depth 1 with depth 1); 2286 combinations of 9 operands in two variables by 12 operators and as pieces; a chain of substitutions of 36 expressions and 12 events by 9 expressions',
    'thorough': 'depth 3: unary operators and numbers applied to depth 2',
}
ASSUMPTIONS = [
    'a grid of 11 points separates the functions of the alphabet (polynomials of degree at most 9, rational functions, exponentials)',
    'values at log(0) and at infinity are a convention of the library and are not compared',
]
TOL = 1e-7

# ------------------------------------------------------------------------------
# Ordinary arithmetic, with a value that may be undefined.

class Undefined(Exception):
    pass

class Unsure(Exception):
    """The point is one where the library has a convention of its own, or where
    rounding decides."""

class Num():
    """A number, or nothing."""
    def __init__(self, v, piece=False, ind=False):
        self.v = v                 # None where undefined.
        self.piece = piece         # A function restricted to an event.
        self.ind = ind             # The truth value of an event...
        self.base = None           # ... that compares this number.

def num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, (int, Fraction)):
        return Num(Fraction(x))
    if isinstance(x, numpy.integer):
        return Num(Fraction(int(x)))
    if isinstance(x, (float, numpy.floating)):
        return Num(Fraction(float(x)))
    if isinstance(x, sympy.Rational):
        return Num(Fraction(int(x.p), int(x.q)))
    return Num(float(x))

def lift(f):
    def g(*args):
        vals = [num(a).v for a in args]
        if any(v is None for v in vals):
            return Num(None)
        try:
            y = f(*vals)
        except (ZeroDivisionError, OverflowError):
            return Num(None)
        if y is not None and abs(y) > 1e12:
            raise Unsure()
        return Num(y)
    return g

def near_zero(x):
    return not isinstance(x, Fraction) and abs(x) < 1e-9

def power(x, n):
    if isinstance(n, tuple):
        n = Fraction(n[0], n[1])
    n = num(n)
    if n.v is None:
        return Num(None)
    if not isinstance(n.v, Fraction):
        # A rejected power.
        return lift(lambda v: v ** n.v if v > 0 else None)(x)
    return lift(lambda v: rational_power(v, n.v))(x)

def rational_power(v, n):
    if near_zero(v):
        raise Unsure()
    if v == 0 and n < 0:
        return None
    if n.denominator == 1:
        return v ** int(n)
    if v < 0:
        return None
    root = float(v) ** (1. / n.denominator)
    return root ** n.numerator

def exponential(b, x):
    return lift(lambda b, v: math.exp(v * math.log(b)) if b > 0 else None)(b, x)

def log(x):
    def f(v):
        if near_zero(v) or v == 0:
            raise Unsure()
        return math.log(v) if v > 0 else None
    return lift(f)(x)

def restrict(a, event):
    if a.v is None or event.v is None:
        return Num(None, piece=True)
    return Num(a.v if event.v == 1 else None, piece=True)

def times(a, b):
    (na, nb) = (not isinstance(a, Num), not isinstance(b, Num))
    (a, b) = (num(a), num(b))
    if a.ind and b.ind and (a.v, b.v) != (1, 1):
        raise Unsure()          # Either restricts the other.
    if b.ind and not na:
        return restrict(a, b)
    if a.ind and not nb:
        return restrict(b, a)
    return lift(lambda x, y: x * y)(a, b)

def plus(a, b):
    (a, b) = (num(a), num(b))
    if a.piece and b.piece:
        if a.v is not None and b.v is not None:
            raise Unsure()      # The events overlap: to be rejected.
        return Num(a.v if b.v is None else b.v, piece=True)
    return lift(lambda x, y: x + y)(a, b)

def compare(f):
    def g(a, c):
        def h(v, w):
            if not (isinstance(v, Fraction) and isinstance(w, Fraction)) and abs(v - w) < 1e-9:
                raise Unsure()
            return Fraction(int(f(v, w)))
        if isinstance(a, Num) and a.ind:
            # A chained comparison: a < (X < b).
            return _and(a, g(a.base, c))
        out = lift(h)(a, c)
        (out.ind, out.base) = (True, a)
        return out
    return g

Num.__add__ = plus
Num.__radd__ = lambda a, b: plus(b, a)
Num.__mul__ = times
Num.__rmul__ = lambda a, b: times(b, a)
Num.__neg__ = lambda a: lift(lambda v: -v)(a)
Num.__sub__ = lambda a, b: lift(lambda v, w: v - w)(a, b)
Num.__rsub__ = lambda a, b: lift(lambda v, w: w - v)(a, b)
Num.__truediv__ = lambda a, b: lift(lambda v, w: quotient(v, w))(a, b)
Num.__rtruediv__ = lambda a, b: lift(lambda v, w: quotient(w, v))(a, b)
Num.__pow__ = power
Num.__rpow__ = lambda a, b: exponential(b, a)
Num.__abs__ = lambda a: lift(abs)(a)
for _n, _f in {'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y}.items():
    setattr(Num, '__%s__' % (_n,), compare(_f))
def _or(a, b):
    out = lift(lambda v, w: max(v, w))(a, b)
    out.ind = True
    return out
def _and(a, b):
    out = lift(lambda v, w: min(v, w))(a, b)
    out.ind = True
    return out
def _not(a):
    out = lift(lambda v: 1 - v)(a)
    out.ind = True
    return out
Num.__or__, Num.__and__, Num.__invert__ = _or, _and, _not
Num.__xor__ = lambda a, b: _or(_and(a, _not(b)), _and(_not(a), b))

def quotient(v, w):
    if near_zero(w):
        raise Unsure()
    return v / w

NUMBERS = {
    'F': Fraction, 'np': numpy, 'R': sympy.Rational, 'pi': sympy.pi, 'sqrt2': sympy.sqrt(2),
}
# The numbers have reflected operators of their own, which must give way to Num
# in the same way in which they give way to Transform; so they are plain here.
def plain_number(x):
    return Fraction(x) if isinstance(x, (int, float, Fraction)) else num(x).v

REF_ENV = {
    'F': Fraction, 'np': None, 'R': Fraction, 'pi': math.pi, 'sqrt2': math.sqrt(2),
    'Exp': lambda x: exponential(math.e, x), 'Log': log,
    'Sqrt': lambda x: power(x, Fraction(1, 2)), 'abs': abs,
}
class _np():
    int64 = staticmethod(lambda x: Fraction(x))
    float64 = staticmethod(lambda x: Fraction(x))
REF_ENV['np'] = _np

REAL_ENV = dict(NUMBERS, Exp=transforms.Exp, Log=transforms.Log, Sqrt=transforms.Sqrt, abs=abs)

# ------------------------------------------------------------------------------
# Operator trees, as text.

NUMS = ['2', '-1', '0.5', 'F(1,3)', '0', '-2.5', 'np.int64(3)', 'np.float64(0.25)', 'R(2,3)', 'pi', 'sqrt2', '1']
NUMS2 = ['2', '-1', '0.5', 'F(1,3)']
POWS = ['2', '3', '-1', '-2', '1', '0', 'F(1,2)', 'F(1,3)', 'F(-1,2)', '(1,2)', '(1,4)', '(-1,3)', '(3,1)', '(2,4)', '(4,2)', '0.5', '2.0', 'R(1,2)', 'R(2)', 'np.int64(2)', 'F(2,3)', 'pi', 'F(6,3)']
POWS2 = ['2', '-1', 'F(1,2)', '3']
BASES = ['2', '0.5', 'F(1,3)', 'R(3,2)', 'pi', 'np.int64(2)', 'np.float64(0.5)', '-1', '0', '1', '3']
BASES2 = ['2', 'F(1,2)']
INDS = ['(X < 1)', '(X <= 0)', '((X < -1) | (X > 1))', '(X**2 > 1)', '(~(X < 1))', '((X > -1) & (X < 2))', '(0 < (X < 2))']

UNARY1 = ['-({})', 'abs({})', 'Exp({})', 'Log({})', 'Sqrt({})']

def unary(e, nums, pows, bases):
    out = [u.format(e) for u in UNARY1]
    out += ['({})**{}'.format(e, p if p[0] == '(' else '(%s)' % p) for p in pows]
    out += ['({})**({})'.format(b, e) for b in bases]
    for c in nums:
        out += [s.format(e=e, c=c) for s in ('({e}) + ({c})', '({c}) + ({e})', '({e}) - ({c})', '({c}) - ({e})',
            '({e}) * ({c})', '({c}) * ({e})', '({e}) / ({c})', '({c}) / ({e})')]
    return out

def binary(a, b):
    return [s.format(a=a, b=b) for s in ('({a}) + ({b})', '({a}) - ({b})', '({a}) * ({b})', '({a}) / ({b})')]

# Operands of depth at most 1 for the binary operators of depth 2.
OPERANDS = ['X', '2*X', 'X + 1', '1 - X', 'X/2', 'X**2', 'X**3', 'F(1,3)*X', '0.5 + X', '-X', 'X*pi', 'X*0 + 1',
    'abs(X)', 'Exp(X)', 'Log(X)', 'Sqrt(X)', 'X**F(1,3)', '1/X', 'X**(-2)', '2/X', '2**X', 'sqrt2*X',
    'X*(X < 1)', '(X >= 1)*X', '(X < 1)', '(X >= 1)', '(X**2)*(X >= 1)', '(1/X)*(X > 1)', '2*(X < 1)', '(X < 1) + 1', '((X < -1) | (X > 1))']
COMMON = ['abs(X)', 'Exp(X)', 'Sqrt(X)', '1/X', '(X < 1)']

def depth1():
    return unary('X', NUMS, POWS, BASES) + ['({})*({})'.format(a, b) for e in INDS for (a, b) in ((e, 'X'), ('X', e))] + INDS

def polynomials():
    """Polynomials in a common subexpression."""
    out = []
    for s in COMMON + ['X']:
        terms = [t.format(s) for t in ('{}', '2*{}', '{}**2', '({})**3', '1 - {}', '{} + 2', '-({})', '({})/3 + 1', '({})**2 - 1', '0*({})')]
        out += [e for a, b in product(terms, repeat=2) for e in binary(a, b)[:3]]
    return out

def depth2():
    out = []
    for e in depth1():
        out += unary(e, NUMS2, POWS2, BASES2)
    for a, b in product(OPERANDS, repeat=2):
        out += binary(a, b)
    out += polynomials()
    for a, b in product(INDS, repeat=2):
        out += ['X*{} + (2*X)*{}'.format(a, b), '{}*(X+1) + (X**2)*{}'.format(a, b), '(X*{}) * {}'.format(a, b), '({} | {})*X'.format(a, b), '({} & {}) + 1'.format(a, b)]
    return out

# ------------------------------------------------------------------------------
# Substitutions.

SUBST = ['Y', '2*Y + 1', '-Y', 'Y**2', 'abs(Y)', 'Exp(Y)', 'Sqrt(Y)', '1/Y', 'Y*(Y < 1) + (Y >= 1)*(Y**2)']
INTO = ['X', '2*X', 'X + 1', '1 - X', 'X**2', 'X**3 - X', 'abs(X)', 'Exp(X)', 'Log(X)', 'Sqrt(X)', 'X**F(1,3)', '1/X', 'X**(-2)', '2**X',
    'X*(X < 1)', 'X*(X < 1) + (X >= 1)*(X**2)', '(X < 1)', '2*(X < 1)', '((X < -1) | (X > 1))', '((X > -1) & (X < 2))', 'abs(X - 1)', 'Sqrt(abs(X))', 'Log(1 + X**2)',
    '1/(1 + Exp(X))', '(0 < (X < 2))', '~(X < 1)', '(X**2 <= 1) | (1/X > 1)', '1 - (X < 1)', 'abs(X*(X < 1) + (X >= 1)*(X**2))', '(X < 1)**2', '3*X**2 - X + 1', 'Exp(-X)', 'abs(X)**2 - abs(X)', 'F(1,3)*X - 2', 'X/2 + 0.5', 'Log(X)**2']
EVENTS2 = ['(X < 1) & (Z > 0)', '(X < 1) | (Z > 0)', '(X**2 < 1) & (Z > 0)', '(X > 0) & (Z > 0) | (X < -1) & (Z < 1)', '~((X < 1) & (Z > 0))', '(X < 1) & (Z**2 <= 1)',
    '(abs(X) < 1) | (Z > 1) | (X > 2)', '(X < 1) ^ (Z < 1)', '(X > 0) & ((Z > 0) | (W > 0))', '(W > 0) | (X > 0) & (Z > 0)', '(1/X < 1) & (Z > 0)', '((X < 1) | (Z < 1)) & (W < 1)']

GRID = [-3, -2, -1, -0.5, 0, 0.25, 0.5, 1, 1.5, 2, 3]
GRID2 = [-2, -1, 0, 0.5, 2]

# ------------------------------------------------------------------------------

def reference(text, env):
    """('val', x), ('undef',), or ('unsure',)."""
    names = dict(REF_ENV)
    names.update({k: num(v) for k, v in env.items()})
    try:
        y = num(eval(text, {'__builtins__': {}}, names))
    except Unsure:
        return ('unsure',)
    except (ZeroDivisionError, OverflowError):
        return ('undef',)
    return ('undef',) if y.v is None else ('val', float(y.v))

def build(text, names='XYZW'):
    env = dict(REAL_ENV)
    env.update({n: Id(n) for n in names})
    return attempt(lambda: eval(text, {'__builtins__': {}}, env))

def value(e, env):
    """('val', x) a finite real number, ('undef', why) otherwise."""
    got = attempt(e.evaluate, {Id(n): v for n, v in env.items()})
    if got[0] == 'err':
        return ('undef', got[1])
    got = attempt(lambda: complex(got[1]))
    if got[0] == 'err':
        return ('undef', got[1])
    z = got[1]
    if abs(z.imag) > 1e-12 or math.isinf(z.real) or math.isnan(z.real):
        return ('undef', z)
    return ('val', z.real)

def agree(rec, key, text, e, env, want):
    if want[0] == 'unsure':
        rec.outcome('unsure')
        return True
    got = value(e, env)
    rec.trace()
    if want[0] == 'val':
        ok = got[0] == 'val' and abs(got[1] - want[1]) <= TOL * max(1., abs(want[1]))
        rec.outcome('defined')
    else:
        ok = got[0] == 'undef'
        rec.outcome('undefined')
    return rec.expect(ok, key, lambda: '%s is %s; at %s it is %r, expected %s' % (text, e, env, got, want))

def run_expr(text, rec):
    rec.state(text)
    rec.step()
    got = build(text)
    if got[0] == 'err':
        rec.outcome('rejected')
        plain = text in PLAIN
        rec.expect(not plain, text, lambda: '%s was rejected: %r' % (text, got[1]))
        return
    e = got[1]
    if not rec.expect(isinstance(e, Transform), text, lambda: '%s is %r' % (text, e)):
        return
    for x in GRID:
        want = reference(text, {'X': x})
        if not agree(rec, text, text, e, {'X': x}, want):
            return
    rec.sample({'expression': text, 'constructed': str(e)})

# Expressions that the documentation and the tests promise.
PLAIN = {'X', '2*X', 'X + 1', '1 - X', 'X**2', '(X) + (2)', '(2) + (X)', '(X) - (2)', '(2) - (X)', '(X) * (2)', '(2) * (X)', '(X) / (2)', '(2) / (X)',
    '(X) + (0.5)', '(0.5) * (X)', '(X) * (F(1,3))', '(F(1,3)) + (X)', 'abs(X)', 'Exp(X)', 'Log(X)', 'Sqrt(X)', '(X)**(2)', '(X)**(3)', '(X)**(-1)', '(X)**(1,2)', '(2)**(X)',
    '(X < 1)', '((X < -1) | (X > 1))'}

def run_subst(f, rec):
    """f with X := g(Y), for every g."""
    (status, e) = build(f)
    if status == 'err':
        rec.fail(f, '%s was rejected: %r' % (f, e))
        return
    for g in SUBST:
        (_, s) = build(g)
        for how in ('subs', 'substitute', 'chain'):
            rec.step()
            key = '%s[%s]%s' % (f, g, how)
            rec.state(key)
            if how == 'chain':
                if g == 'Y':
                    continue
                env = {Id('X'): s, Id('Y'): build('Z + 1')[1]}
                got = attempt(e.substitute, env)
            else:
                got = attempt(getattr(e, how), {Id('X'): s})
            if got[0] == 'err':
                # Compositions may be rejected (e.g. overlapping pieces after rounding), but not by these.
                rec.fail(key, '%s with X := %s raised %r' % (f, g, got[1]))
                continue
            var = 'Z' if how == 'chain' else 'Y'
            ok = got[1].get_symbols() == {Id(var)}
            if not rec.expect(ok, key, lambda: '%s with X := %s has variables %s' % (f, g, got[1].get_symbols())):
                continue
            for y in GRID:
                yy = y + 1 if how == 'chain' else y
                inner = reference(g, {'Y': yy})
                if inner[0] == 'val':
                    # Exactly, where the inner value is rational.
                    text = f.replace('X', '(%s)' % (g,)).replace('E(%s)p(' % (g,), 'Exp(')
                    want = reference(text, {'Y': yy})
                else:
                    want = inner
                if want[0] == 'undef' and isinstance(e, Event):
                    continue    # A compound event may be decided by its other parts.
                if not agree(rec, key, '%s with X := %s (%s)' % (f, g, how), got[1], {var: y}, want):
                    break
        # Substituting another variable, or itself, changes nothing.
        for env in ({}, {Id('Q'): s}, {Id('X'): Id('X')}):
            got = attempt(e.subs, env)
            rec.expect(got == ('ok', e), 'noop:%s' % (f,), lambda: '%s with %s is %r' % (f, env, got))

def run_subst_event(f, rec):
    (status, e) = build(f)
    if status == 'err':
        rec.fail(f, '%s was rejected: %r' % (f, e))
        return
    envs = [{'X': a} for a in ('2*Y + 1', 'Y**2', '-Y')] + [{'Z': a} for a in ('1 - Y', 'Y**2')] + \
        [{'X': a, 'Z': b} for a in ('2*Y', 'Y**2') for b in ('1 - Y', 'V', 'V**2 - 1')] + [{'X': 'Z', 'Z': 'X'}, {'X': 'Z + 1'}, {'X': 'V', 'W': 'V + 1'}]
    for env in envs:
        for how in ('subs', 'substitute'):
            if how == 'substitute' and env == {'X': 'Z', 'Z': 'X'}:
                continue    # Does not terminate; see the comment in Transform.substitute.
            key = '%s%s%s' % (f, sorted(env.items()), how)
            rec.state(key)
            rec.step()
            real = {Id(k): build(v, 'XYZWV')[1] for k, v in env.items()}
            got = attempt(getattr(e, how), real)
            if not rec.expect(got[0] == 'ok', key, lambda: '%s with %s raised %r' % (f, env, got[1])):
                continue
            names = sorted(map(str, got[1].get_symbols()))
            for vals in product(GRID2, repeat=len(names)):
                a = dict(zip(names, vals))
                inner = {}
                for n in 'XZW':
                    if n not in f:
                        continue
                    r = reference(env.get(n, n), a) if n in env or n in a else ('missing',)
                    inner[n] = r
                if any(r[0] != 'val' for r in inner.values()):
                    if any(r[0] == 'missing' for r in inner.values()):
                        rec.fail(key, '%s with %s lost a variable: %s' % (f, env, got[1]))
                        break
                    continue
                want = reference(f, {n: r[1] for n, r in inner.items()})
                if want[0] != 'val':
                    continue
                if not agree(rec, key, '%s with %s (%s)' % (f, env, how), got[1], a, want):
                    break

# ------------------------------------------------------------------------------

# Two variables: rejected, unless the expression means what it says.
MULTI = ['X', '2*X + 1', 'X**2', 'abs(X)', 'Exp(X)', '1/X', '(X < 1)', '(X <= 0)*(X) + (X > 0)*(2*X)', '(X > 0)*X']
MULTI_OPS = ['+', '-', '*', '/', '**', '<', '<=', '>', '>=', '&', '|', '^']

def multi():
    for a in MULTI:
        for b in MULTI:
            y = b.replace('X', 'Y').replace('EYp', 'Exp')
            for op in MULTI_OPS:
                yield '(%s) %s (%s)' % (a, op, y)
                yield '(%s) %s (%s)' % (y, op, a)
            # An event of one variable, and an expression of the other.
            yield '(X < 1)*(%s) + (X >= 1)*(%s)' % (a, y)
            yield '(X < 1)*(%s) + (Y >= 1)*(%s)' % (a, y)
            yield '(Y < 1)*(%s) + (X >= 1)*(%s)' % (a, y)
            yield '((X < 1) & (Y < 1))*(%s) + ((X >= 1) | (Y >= 1))*(%s)' % (a, y)
            yield '((X < 1) & (Y < 1))*(%s)' % (a,)
            yield '(%s)*((X < 1) | (Y < 1))' % (y,)

def run_multi(text, rec):
    rec.state(text)
    rec.step()
    got = build(text)
    if got[0] == 'err':
        rec.outcome('rejected')
        return
    e = got[1]
    if not rec.expect(isinstance(e, Transform), text, lambda: '%s is %r' % (text, e)):
        return
    for x in GRID2:
        for y in GRID2:
            env = {'X': x, 'Y': y}
            if not agree(rec, text, text, e, env, reference(text, env)):
                return

def chunks(xs, n):
    return [xs[i:i+n] for i in range(0, len(xs), n)]

def cases(tier):
    out = [{'exprs': c} for c in chunks(depth1(), 40)]
    d2 = list(dict.fromkeys(depth2()))
    out += [{'exprs': c} for c in chunks(d2, 60)]
    out += [{'multi': c} for c in chunks(list(dict.fromkeys(multi())), 300)]
    out += [{'subst': f} for f in INTO]
    out += [{'events': f} for f in EVENTS2]
    if tier == 'thorough':
        for c in chunks(d2, 6):
            out.append({'exprs': [e for x in c for e in unary(x, NUMS2, POWS2, BASES2)]})
    return out

def run_case(c, rec):
    for text in c.get('exprs', ()):
        run_expr(text, rec)
    for text in c.get('multi', ()):
        run_multi(text, rec)
    if 'subst' in c:
        run_subst(c['subst'], rec)
    if 'events' in c:
        run_subst_event(c['events'], rec)
