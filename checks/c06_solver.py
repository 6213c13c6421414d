"""C06: solver fallback does not change the answer
(every polynomial event of an alphabet x every fault of the symbolic solver:
switched off, or a timeout or surrender at every call, at every subset of
calls of a kind, and at every function call inside the solver)."""

import math
import os
import signal
import sys

from itertools import combinations

import sympy
import sympy.calculus.util

_cache = {}
def _key(x):
    return sympy.srepr(x) if isinstance(x, sympy.Basic) else (type(x), repr(x))
def _memo(f):
    def g(*args, **kwargs):
        if Faults.fresh:
            return f(*args, **kwargs)
        k = (f.__name__, tuple(map(_key, args)), tuple((n, _key(v)) for n, v in sorted(kwargs.items())))
        if k not in _cache:
            _cache[k] = f(*args, **kwargs)
        return _cache[k]
    return g

class Faults():
    """The plan: what happens at each call of the symbolic solver."""
    plan = {}           # {index of the call or '*': kind}
    calls = 0
    struck = 0
    fresh = False       # Do not memoise.
    @classmethod
    def reset(cls, plan=()):
        (cls.plan, cls.calls, cls.struck) = (dict(plan), 0, 0)

def timer():
    """Is an alarm pending?"""
    return signal.getitimer(signal.ITIMER_REAL)[0] > 0

def alarm():
    """What the operating system does when the time is up."""
    if not timer():
        return
    Faults.struck += 1
    signal.alarm(0)     # The timer is spent.
    signal.raise_signal(signal.SIGALRM)
    for _ in range(1000):
        pass            # The handler runs between two instructions.

_solveset = _memo(sympy.solveset)

def solveset(f, symbol=None, domain=sympy.S.Complexes):
    k = Faults.calls
    Faults.calls += 1
    kind = Faults.plan.get(k, Faults.plan.get('*'))
    if kind == 'before':
        alarm()
    if kind == 'error':
        Faults.struck += 1
        raise NotImplementedError('the solver gives up')
    if kind in ('condition', 'intersection'):
        Faults.struck += 1
        (x,) = f.free_symbols
        return sympy.ConditionSet(x, f, sympy.S.Reals) if kind == 'condition' else \
            sympy.Intersection(sympy.ConditionSet(x, f, sympy.S.Reals), sympy.S.Reals, evaluate=False)
    result = _solveset(f, symbol, domain)
    if kind == 'after':
        alarm()
    return result

# Before sppl is imported.
sympy.solveset = solveset
sympy.calculus.util.function_range = _memo(sympy.calculus.util.function_range)
sympy.calculus.util.limit = _memo(sympy.calculus.util.limit)
sympy.nroots = _memo(sympy.nroots)
sympy.Poly.nroots = _memo(sympy.Poly.nroots)
sympy.Poly.sqf_part = _memo(sympy.Poly.sqf_part)
sympy.nsimplify = _memo(sympy.nsimplify)

# pylint: disable=wrong-import-position
import sppl.poly
from sppl.sets import EmptySet, FiniteReal, Interval, Set, Union
from sppl.distributions import norm, poisson
from sppl.transforms import Id
from vlib import ref, tosppl
from vlib.core import attempt

if hasattr(sppl.poly, 'TIMEOUT_SYMBOLIC'):
    # A real timeout would be a fault that is not in the plan.
    sppl.poly.TIMEOUT_SYMBOLIC = 600

LEVEL = 'model_checking'
TECHNIQUE = 'systematic fault injection on the real code: for every polynomial event of an alphabet, every placement of a fault (a real SIGALRM, a surrender in two forms, or an error) over the calls of the symbolic solver, and over the function calls inside it, with the answers compared with a reference and with the undisturbed run'
LEVEL_NOTE = 'Every call of the symbolic solver is struck, alone, with its successors, in pairs (thorough) and all together, by every kind of fault; inside the solver, every call of a function of the solver packages is struck by the alarm for a few events.'
BOUNDS = {
    'quick': '15 polynomials x 6 sets and 12 compositions; faults at each call and from each call on, 5 kinds; alarms inside the solver for 1 event, at the calls of functions of sympy.solvers and sppl',
    'thorough': 'also every pair of calls; alarms inside the solver for 8 events, at the calls of functions of sympy.solvers, sympy.sets, sympy.polys and sppl',
}
ASSUMPTIONS = ['end points within 1e-6 of each other are the same point', 'the alarm reaches the process between two instructions of the solver; the calls of functions stand for them']

X = ['id', 'X']
def poly(*cs):
    return ['poly', X, list(cs)]

POLYS = {
    '2x+1': poly(1, 2), '1-x': poly(1, -1), 'x^2': poly(0, 0, 1), '-x^2': poly(0, 0, -1), '1+x^2': poly(1, 0, 1), '-1-x^2': poly(-1, 0, -1), '(x-1)^2': poly(1, -2, 1),
    'x^3': poly(0, 0, 0, 1), 'x^3-3x': poly(0, -3, 0, 1), 'x(x-1)^2': poly(0, 1, -2, 1), 'x^4-2x^2': poly(0, 0, -2, 0, 1), '0.5-0.3x+x^3': poly(0.5, -0.3, 0, 1), 'pi-x^2': poly('pi', 0, -1),
    '(x^2-1)(x-2)/2': poly(1, '-1/2', -1, '1/2'), 'quintic': poly(0, 4, 0, -5, 0, 1),
}
SETS = {
    '<0': ['iv', '-inf', 0, True, True], '<=0': ['iv', '-inf', 0, True, False], '>=1': ['iv', 1, 'inf', False, True],
    '{0}': ['fin', [0]], '(-1,1]': ['iv', -1, 1, True, False], 'un': ['un', ['iv', '-inf', -1, True, False], ['fin', [0, 2]]],
}
COMPOSED = [
    ['cmp', ['abs', poly(0, -2, 0, 1)], '<=', 1], ['cmp', ['poly', ['abs', X], [0, -2, 1]], '<=', 0], ['cmp', ['poly', ['exp', X, 2], [-1, -1, 1]], '>', 1], ['cmp', ['recip', poly(-1, 0, 1)], '<', 1],
    ['in', ['poly', poly(0, 0, 1), [0, -2, 1]], ['fin', [-1, 0]]], ['cmp', ['rad', poly(4, 0, -1), 2], '>=', 1], ['cmp', ['log', poly(1, 0, 1), 2], '<=', 1],
    ['and', ['cmp', poly(0, 0, 1), '<', 4], ['not', ['in', poly(0, -1, 1), ['fin', [0]]]]], ['or', ['cmp', poly(0, -3, 0, 1), '<', -1], ['cmp', poly(-1, 0, 1), '<=', 0]],
    ['not', ['or', ['cmp', poly(0, 0, 1), '<=', 1], ['cmp', poly(1, -2, 1), '>', 4]]], ['and', ['cmp', poly(1, -2, 1), '<=', 0], ['cmp', X, '>', 0]],
    ['cmp', ['piece', [[poly(0, 0, 1), ['cmp', X, '<', 1]], [poly(0, -2, 1), ['cmp', X, '>=', 1]]]], '<=', 0],
]
KINDS = ['before', 'after', 'condition', 'intersection', 'error']

MODELS = {'norm': Id('X') >> norm(loc=.5, scale=2), 'poisson': Id('X') >> poisson(mu=2)}

# ------------------------------------------------------------------------------
# The points of a solution, with end points snapped to the critical points.

def pieces(s, crit):
    """[(a, b, left_open, right_open)] and None if an end point is spurious."""
    def snap(p):
        p = float(p)
        if math.isinf(p):
            return p
        near = [c for c in crit if abs(c - p) <= 1e-6 * max(1., abs(c))]
        if not near:
            raise ValueError('end point %r is not one of %s' % (p, crit))
        return near[0]
    if s is EmptySet:
        return []
    if isinstance(s, Union):
        return [p for t in s.args for p in pieces(t, crit)]
    if isinstance(s, FiniteReal):
        return [(snap(v), snap(v), False, False) for v in s]
    if isinstance(s, Interval):
        (a, b) = (snap(s.left), snap(s.right))
        return [] if a == b else [(a, b, bool(s.left_open), bool(s.right_open))]
    if isinstance(s, Set):
        return []       # Nominal.
    raise ValueError('%r is not a set' % (s,))

def inside(v, ps):
    return any(a < v < b or (v == a and not lo) or (v == b and not ro) for (a, b, lo, ro) in ps)

def compare(solution, ev):
    """None, or what is wrong with the solution."""
    crit = ref.crit(ev, 'X')
    got = attempt(pieces, solution, crit)
    if got[0] == 'err':
        return repr(got[1])
    for p in [m for (_, _, m) in ref.cells(crit)] + crit:
        if ref.singular(ev, {'X': p}):
            continue
        want = ref.holds(ev, {'X': p})
        if inside(p, got[1]) != want:
            return '%r %s, expected %s' % (p, 'is in it' if not want else 'is not in it', want)
    return None

# ------------------------------------------------------------------------------

def answers(event, models):
    """The observable answers, and whether a timer was left running."""
    out = {'solve': attempt(event.solve)}
    for name, spe in models.items():
        out[name] = attempt(spe.prob, event)
    left = timer()
    if left:
        signal.alarm(0)
    return out, left

def same_probability(a, b):
    return a[0] == 'ok' and b[0] == 'ok' and abs(a[1] - b[1]) < 1e-7

def check(ev, event, base, how, rec, models=MODELS):
    key = '%r %s' % (ev, how)
    rec.step()
    rec.trace()
    rec.state(key)
    got, left = answers(event, models)
    rec.outcome('faults struck: %s' % (min(Faults.struck, 9),))
    rec.expect(not left, key, lambda: '%s, %s: a timer was left running' % (event, how))
    s = got['solve']
    if 'error' in how and any(r[0] == 'err' and isinstance(r[1], NotImplementedError) for r in got.values()):
        # The error of the solver is passed on, which is an answer too.
        rec.outcome('error passed on')
        again, left = (Faults.reset(), answers(event, models))[1]
        rec.expect(not left and again['solve'][0] == 'ok' and compare(again['solve'][1], ev) is None, key, lambda: 'solving %s again after an error of the solver gave %r' % (event, again))
        return got
    if not rec.expect(s[0] == 'ok', key, lambda: 'solving %s, %s, raised %r' % (event, how, s[1])):
        return got
    bad = compare(s[1], ev)
    rec.expect(bad is None, key, lambda: 'solving %s, %s, gave %r: %s' % (event, how, s[1], bad))
    for name in models:
        p = got[name]
        if not rec.expect(p[0] == 'ok', key, lambda: 'the probability of %s under %s, %s, raised %r' % (event, name, how, p[1])):
            continue
        if base is not None:
            rec.expect(same_probability(p, base[name]), key, lambda: 'the probability of %s under %s, %s, is %r; undisturbed it is %r' % (event, name, how, p[1], base[name][1]))
    return got

def reference_probability(ev):
    """Under the models, by enumeration and by the cells."""
    import scipy.stats
    crit = ref.crit(ev, 'X')
    d = scipy.stats.norm(loc=.5, scale=2)
    p = sum(d.cdf(b) - d.cdf(a) for (a, b, m) in ref.cells(crit) if ref.holds(ev, {'X': m}))
    q = scipy.stats.poisson(mu=2)
    # The outcomes in exact arithmetic; irrational critical points are not among them.
    r = sum(q.pmf(k) for k in range(60) if ref.holds(ev, {'X': k}))
    return {'norm': ('ok', p), 'poisson': ('ok', r)}

def run_event(ev, tier, rec):
    event = tosppl.event(ev)
    Faults.fresh = False
    # How many calls are there, in each answer?
    os.environ.pop('SPPL_NO_SYMBOLIC', None)
    Faults.reset()
    base = check(ev, event, reference_probability(ev), 'undisturbed', rec)
    if base['solve'][0] == 'err' or base['norm'][0] == 'err':
        return
    os.environ['SPPL_NO_SYMBOLIC'] = '1'
    try:
        Faults.reset()
        check(ev, event, base, 'without the symbolic solver', rec)
        rec.expect(Faults.calls == 0, '%r off' % (ev,), lambda: 'solving %s called the symbolic solver although it is switched off' % (event,))
    finally:
        os.environ.pop('SPPL_NO_SYMBOLIC', None)
    Faults.reset()
    attempt(event.solve)
    n = Faults.calls
    for kind in KINDS:
        Faults.reset({'*': kind})
        check(ev, event, base, '%s at every call' % (kind,), rec)
        for k in range(n if kind != 'after' else 0):
            Faults.reset({k: kind})
            check(ev, event, base, '%s at call %d' % (kind, k), rec, {})
            if 0 < k and (kind not in ('intersection', 'error') or tier == 'thorough'):
                Faults.reset({i: kind for i in range(k, 200)})
                check(ev, event, base, '%s from call %d' % (kind, k), rec, {})
    for a, b in combinations(range(n if tier == 'thorough' else 0), 2):
        for x in KINDS:
            for y in KINDS:
                Faults.reset({a: x, b: y})
                check(ev, event, base, '%s at call %d and %s at call %d' % (x, a, y, b), rec, {})
    # It is as if nothing had happened.
    Faults.reset()
    got, left = answers(event, MODELS)
    rec.expect(not left and got['solve'] == base['solve'] and all(same_probability(got[m], base[m]) for m in MODELS), '%r later' % (ev,),
        lambda: '%s: after the faults the answers are %r, before them they were %r' % (event, got, base))
    rec.sample({'event': str(event), 'solution': repr(base['solve'][1]), 'solver calls': n})

# ------------------------------------------------------------------------------
# Alarms inside the solver.

STEPPED = [
    ['cmp', poly(0, -3, 0, 1), '<=', 1], ['in', poly(0, -1, 1), ['fin', [0]]], ['cmp', poly(1, -2, 1), '<=', 0],
    ['cmp', poly(0, 0, 1), '<', 2], ['cmp', poly(0.5, -0.3, 0, 1), '>', 0], ['in', poly(0, 0, -2, 0, 1), ['fin', [-1]]], ['cmp', poly('pi', 0, -1), '<', 0], ['cmp', ['abs', poly(0, -2, 0, 1)], '<=', 1],
]
QUICK_STEPPED = [0]
PACKAGES = {'quick': ('/sympy/solvers/', '/sppl/'), 'thorough': ('/sympy/solvers/', '/sympy/sets/', '/sympy/polys/', '/sppl/')}

SPPL = os.path.dirname(os.path.realpath(sppl.poly.__file__)) + os.sep

class Stepper():
    """Counts the calls of functions of the packages while a timer is running,
    and strikes at one of them."""
    def __init__(self, packages, at=None):
        (self.packages, self.at, self.n, self.where) = (packages, at, 0, None)
        self.interesting = {}
    def __call__(self, frame, event, arg):
        if event != 'call':
            return
        code = frame.f_code
        if code not in self.interesting:
            name = os.path.realpath(code.co_filename)
            self.interesting[code] = any(p in name for p in self.packages) or name.startswith(SPPL)
        if not self.interesting[code] or not timer():
            return
        k = self.n
        self.n += 1
        if k == self.at:
            sys.setprofile(None)
            self.where = '%s:%s' % (os.path.basename(code.co_filename), code.co_name)
            alarm()

def clear():
    from sympy.core.cache import clear_cache
    clear_cache()

def stepped(event, packages, at):
    Faults.reset()
    Faults.fresh = True
    clear()
    stepper = Stepper(packages, at)
    sys.setprofile(stepper)
    try:
        got = attempt(event.solve)
    finally:
        sys.setprofile(None)
        Faults.fresh = False
    return stepper, got

def run_stepped(i, part, parts, tier, rec):
    ev = STEPPED[i]
    event = tosppl.event(ev)
    packages = PACKAGES[tier]
    first, base = stepped(event, packages, None)
    first, base = stepped(event, packages, None)
    rec.expect(base[0] == 'ok' and compare(base[1], ev) is None, repr(ev), lambda: 'solving %s gave %r' % (event, base[1]))
    rec.outcome('steps: %d' % (first.n,))
    for k in range(part, first.n, parts):
        stepper, got = stepped(event, packages, k)
        left = timer()
        signal.alarm(0)
        key = '%r step %d' % (ev, k)
        rec.state(key)
        rec.step()
        rec.trace()
        rec.outcome('struck inside the solver: %d' % (Faults.struck,))
        where = stepper.where
        rec.expect(not left, key, lambda: '%s, alarm at step %d (%s): a timer was left running' % (event, k, where))
        bad = compare(got[1], ev) if got[0] == 'ok' else 'raised'
        rec.expect(bad is None, key, lambda: 'solving %s, alarm at step %d (%s), gave %r: %s' % (event, k, where, got[1], bad))
        # Later, with whatever the solver has left behind.
        Faults.reset()
        Faults.fresh = True
        got = attempt(event.solve)
        Faults.fresh = False
        bad = compare(got[1], ev) if got[0] == 'ok' else 'raised'
        rec.expect(bad is None and got == base, key, lambda: 'solving %s again after an alarm at step %d (%s) gave %r, expected %r' % (event, k, where, got[1], base[1]))

# ------------------------------------------------------------------------------

def cases(tier):
    out = []
    parts = 8
    for i in (QUICK_STEPPED if tier == 'quick' else range(len(STEPPED))):
        out += [{'stepped': i, 'part': p, 'parts': parts, 'tier': tier} for p in range(parts)]
    for p in POLYS:
        for s in SETS:
            out.append({'ev': ['in', POLYS[p], SETS[s]], 'tier': tier})
    out += [{'ev': ev, 'tier': tier} for ev in COMPOSED]
    return out

def run_case(c, rec):
    if 'stepped' in c:
        run_stepped(c['stepped'], c['part'], c['parts'], c['tier'], rec)
    else:
        run_event(c['ev'], c['tier'], rec)
