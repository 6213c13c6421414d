"""Memoises pure functions of the symbolic library (not of the code under
test), which dominate the cost of enumerating events; also lifts the
wall-clock limit on symbolic solving, a source of nondeterminism whose
consequences are the subject of C06.

Import before sppl.
"""

import functools

import sympy
import sympy.calculus.util as _util

_cache = {}

def _key(x):
    return sympy.srepr(x) if isinstance(x, sympy.Basic) else (type(x), repr(x))

def memo(name, f):
    @functools.wraps(f)
    def g(*args, **kwargs):
        k = (name, tuple(map(_key, args)),
            tuple((n, _key(v)) for n, v in sorted(kwargs.items())))
        if k not in _cache:
            _cache[k] = f(*args, **kwargs)
        return _cache[k]
    return g

sympy.solveset = memo('solveset', sympy.solveset)
_util.function_range = memo('function_range', _util.function_range)
_util.limit = memo('limit', _util.limit)

import sppl.poly    # pylint: disable=wrong-import-position

if hasattr(sppl.poly, 'TIMEOUT_SYMBOLIC'):
    sppl.poly.TIMEOUT_SYMBOLIC = 600
