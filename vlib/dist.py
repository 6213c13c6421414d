"""Boring reference semantics of models: weighted components of independent
base variables with evidence, and exact measure by enumeration of cells.

Model spec (plain JSON-able data):
  ['leaf', 'X', [distribution name, {keyword: value}]]
  ['prod', m, ...]           independent parts
  ['sum', [[w, m], ...]]     mixture
  ['exposed', 'N', [[name, w, m], ...]]   mixture with a variable that names
                             the component
  ['mixed', 'X', [[w, distribution], ...]]   mixture of distributions
  ['let', m, 'Y', expr]      derived variable (expr as in vlib.ref)
  ['cond', m, event]         conditioning
  ['constr', m, [[var, value], ...]]   constraining

Nothing in this module calls the code under test or scipy.
"""

import math

from fractions import Fraction
from itertools import product as iproduct

from vlib import ref
from vlib.ref import inf, num

class _Float():
    """The arithmetic of measures: floats."""
    exp, expm1, erfc, sqrt, log, fsum = math.exp, math.expm1, math.erfc, math.sqrt, math.log, math.fsum
    weight = float

class _Precise():
    """Numbers of any magnitude (vlib.tiny)."""
    def __init__(self):
        import mpmath
        c = mpmath.MPContext()
        c.dps = 60
        (self.exp, self.expm1, self.erfc, self.sqrt, self.log) = (c.exp, c.expm1, c.erfc, c.sqrt, c.log)
        self.weight = c.mpf
    def fsum(self, xs):
        return sum(xs, self.weight(0))

M = _Float

def precise(on):
    global M
    M = _Precise() if on else _Float

class Zero(Exception):
    """Conditioning on an event of probability (or density) zero."""

# ------------------------------------------------------------------------------
# Base distributions.

def _phi(z):
    return 0.5 * M.erfc(-z / M.sqrt(2))

class Continuous():
    atomic = False
    lo, hi = -inf, inf
    def cdf(self, x):
        raise NotImplementedError()
    def sf(self, x):
        return 1. - self.cdf(x)
    def density(self, x):
        raise NotImplementedError()
    def mass(self, a, b):
        """P(a < X < b)"""
        (a, b) = (max(a, self.lo), min(b, self.hi))
        if not a < b:
            return 0.
        if self.cdf(a) > 0.5:
            return max(0., self.sf(a) - self.sf(b))
        return max(0., self.cdf(b) - self.cdf(a))
    def pdf(self, x):
        if isinstance(x, str) or not self.lo <= x <= self.hi:
            return 0.
        return self.density(x)
    def cells(self, points):
        ps = sorted({p for p in points if self.lo < p < self.hi}
            | {p for p in (self.lo, self.hi) if not math.isinf(p)})
        for (a, b, m) in ref.cells(ps):
            if b <= self.lo or a >= self.hi:
                continue
            w = M.weight(self.mass(a, b))
            if w > 0:
                yield (m, w)

class Norm(Continuous):
    def __init__(self, loc=0, scale=1):
        (self.m, self.s) = (num(loc), num(scale))
    def cdf(self, x):
        return _phi((x - self.m) / self.s)
    def sf(self, x):
        return _phi(-(x - self.m) / self.s)
    def density(self, x):
        z = (x - self.m) / self.s
        return M.exp(-z * z / 2) / (self.s * M.sqrt(2 * math.pi))

class Uniform(Continuous):
    def __init__(self, loc=0, scale=1):
        self.lo = num(loc)
        self.hi = self.lo + num(scale)
    def cdf(self, x):
        return min(1., max(0., (x - self.lo) / (self.hi - self.lo)))
    def density(self, x):
        return 1. / (self.hi - self.lo)

class Expon(Continuous):
    def __init__(self, loc=0, scale=1):
        (self.lo, self.s) = (num(loc), num(scale))
    def cdf(self, x):
        return -M.expm1(-(x - self.lo) / self.s) if x > self.lo else 0.
    def sf(self, x):
        return M.exp(-(x - self.lo) / self.s) if x > self.lo else 1.
    def density(self, x):
        return M.exp(-(x - self.lo) / self.s) / self.s

class Laplace(Continuous):
    def __init__(self, loc=0, scale=1):
        (self.m, self.s) = (num(loc), num(scale))
    def cdf(self, x):
        z = (x - self.m) / self.s
        return 0.5 * M.exp(z) if z < 0 else 1 - 0.5 * M.exp(-z)
    def sf(self, x):
        z = (x - self.m) / self.s
        return 0.5 * M.exp(-z) if z > 0 else 1 - 0.5 * M.exp(z)
    def density(self, x):
        return M.exp(-abs(x - self.m) / self.s) / (2 * self.s)

class Beta(Continuous):
    """Integer parameters only; optional location and scale."""
    def __init__(self, a, b, loc=0, scale=1):
        (self.a, self.b) = (a, b)
        (self.lo, self.s) = (num(loc), num(scale))
        self.hi = self.lo + self.s
    def cdf(self, x):
        z = min(1., max(0., (x - self.lo) / self.s))
        n = self.a + self.b - 1
        return sum(_comb(n, j) * z**j * (1-z)**(n-j) for j in range(self.a, n+1))
    def density(self, x):
        z = (x - self.lo) / self.s
        c = math.factorial(self.a + self.b - 1) \
            / (math.factorial(self.a - 1) * math.factorial(self.b - 1))
        return c * z**(self.a-1) * (1-z)**(self.b-1) / self.s

def _comb(n, k):
    return math.factorial(n) // (math.factorial(k) * math.factorial(n - k))

class Discrete():
    atomic = True
    def __init__(self, table):
        # A table of the outcomes with all but a negligible mass.
        self.table = table
    def pdf(self, x):
        if isinstance(x, str):
            return 0.
        return sum(p for v, p in self.table if ref.same(v, x))
    def cells(self, points):
        for (v, p) in self.table:
            if p > 0:
                yield (v, p)

class Nominal(Discrete):
    def pdf(self, x):
        return sum(p for v, p in self.table if v == x)

def poisson(mu, loc=0):
    (mu, loc) = (num(mu), num(loc))
    return Discrete([(k + loc, M.exp(-mu) * mu**k / math.factorial(k))
        for k in range(60)])
def geom(p):
    p = num(p)
    return Discrete([(k, (1-p)**(k-1) * p) for k in range(1, 120)])
def binom(n, p):
    p = num(p)
    return Discrete([(k, _comb(n, k) * p**k * (1-p)**(n-k)) for k in range(n+1)])
def bernoulli(p):
    p = num(p)
    return Discrete([(0, 1-p), (1, p)])
def randint(low, high):
    return Discrete([(k, 1. / (high-low)) for k in range(low, high)])
def atomic(loc):
    return Discrete([(num(loc), 1.)])
def discrete(table):
    return Discrete([(num(v), M.weight(num(p))) for v, p in table])
def choice(table):
    return Nominal([(v, M.weight(num(p))) for v, p in table])

BASE = {
    'norm': Norm, 'uniform': Uniform, 'expon': Expon, 'laplace': Laplace,
    'beta': Beta, 'poisson': poisson, 'geom': geom, 'binom': binom,
    'bernoulli': bernoulli, 'randint': randint, 'atomic': atomic,
}

def base(d):
    if d[0] == 'discrete':
        return discrete(d[1])
    if d[0] == 'choice':
        return choice(d[1])
    return BASE[d[0]](**d[1])

# ------------------------------------------------------------------------------
# Substitution of derived variables.

def subst_expr(e, env):
    if e[0] == 'id':
        return env.get(e[1], e)
    if e[0] == 'piece':
        return ['piece', [[subst_expr(s, env), subst(ev, env)] for s, ev in e[1]]]
    if e[0] == 'ind':
        return ['ind', subst(e[1], env)]
    return [e[0], subst_expr(e[1], env)] + list(e[2:])

def subst(ev, env):
    if not env:
        return ev
    if ev[0] in ('in', 'cmp'):
        return [ev[0], subst_expr(ev[1], env)] + list(ev[2:])
    return [ev[0]] + [subst(x, env) for x in ev[1:]]

# ------------------------------------------------------------------------------
# Measure of a conjunction of events under independent base variables.

def measure(leaves, events):
    """P(all events) where leaves maps base variables to distributions."""
    lits = {}
    for ev in events:
        for l in ref.literals(ev):
            lits.setdefault(repr(l), l)
    if not lits:
        return 1.
    keys = list(lits)
    by_var = {}
    for i, k in enumerate(keys):
        (v,) = ref.symbols_expr(lits[k][1])
        by_var.setdefault(v, []).append(i)
    types = []
    for v, idx in by_var.items():
        points = set()
        for i in idx:
            points.update(ref.crit(lits[keys[i]], v))
        table = {}
        for (x, w) in leaves[v].cells(points):
            t = f = 0
            for i in idx:
                if ref.holds(lits[keys[i]], {v: x}):
                    t |= 1 << i
                if ref.holds(lits[keys[i]], {v: x}, True):
                    f |= 1 << i
            table[(t, f)] = table.get((t, f), 0.) + w
        types.append([(t, f, w) for (t, f), w in table.items()])
    index = {k: i for i, k in enumerate(keys)}
    formulas = [_compile(ev, index) for ev in events]
    total = []
    for combo in iproduct(*types):
        t = f = 0
        w = M.weight(1)
        for (a, b, c) in combo:
            t |= a
            f |= b
            w *= c
        if all(_truth(g, t, f, False) for g in formulas):
            total.append(w)
    return M.fsum(total)

def _compile(ev, index):
    if ev[0] in ('in', 'cmp'):
        return ('lit', 1 << index[repr(ev)])
    return tuple([ev[0]] + [_compile(x, index) for x in ev[1:]])

def _truth(g, t, f, neg):
    op = g[0]
    if op == 'lit':
        return bool((f if neg else t) & g[1])
    if op == 'not':
        return _truth(g[1], t, f, not neg)
    if op == 'xor':
        (a, b) = g[1:]
        return _truth(('or', ('and', a, ('not', b)), ('and', ('not', a), b)), t, f, neg)
    if (op == 'and') != neg:
        return all(_truth(x, t, f, neg) for x in g[1:])
    return any(_truth(x, t, f, neg) for x in g[1:])

# ------------------------------------------------------------------------------
# Models.

class Comp():
    """A component: independent base variables, derived variables, evidence."""
    def __init__(self, w, leaves, env, evid):
        self.w = w
        self.leaves = leaves          # {base variable: distribution}
        self.env = env                # {derived variable: expr over base}
        self.evid = evid              # [event over base]
        self._z = None
    def z(self):
        if self._z is None:
            self._z = measure(self.leaves, self.evid) if self.evid else 1.
        return self._z
    def prob(self, ev):
        ev = subst(ev, self.env)
        return measure(self.leaves, self.evid + [ev]) / self.z()
    def condition(self, ev):
        """(probability, conditioned component)"""
        ev = subst(ev, self.env)
        c = Comp(self.w, self.leaves, self.env, self.evid + [ev])
        p = c.z() / self.z()
        return (p, c)
    def constrain(self, assignment):
        """(number of continuous variables, density, constrained component)"""
        (dim, density) = (0, M.weight(1))
        leaves = dict(self.leaves)
        for (v, x) in assignment.items():
            d = self.leaves[v]
            x = x if isinstance(x, str) else num(x)
            density *= d.pdf(x)
            dim += not d.atomic
            leaves[v] = (Nominal if isinstance(x, str) else Discrete)([(x, 1.)])
        c = Comp(self.w, leaves, self.env, self.evid)
        if density > 0:
            density *= c.z() / self.z()
        return (dim, density, c)

class Model():
    def __init__(self, comps):
        self.comps = comps
    def symbols(self):
        return set(self.comps[0].leaves) | set(self.comps[0].env)
    def prob(self, ev):
        return M.fsum(c.w * c.prob(ev) for c in self.comps)
    def condition(self, ev):
        out = []
        for c in self.comps:
            (p, d) = c.condition(ev)
            if p > 0 and c.w > 0:
                d.w = c.w * p
                out.append(d)
        return normalise(out)
    def density(self, assignment):
        """(dimension, density); (None, 0) if the density is zero."""
        parts = [(c.w,) + c.constrain(assignment)[:2] for c in self.comps]
        parts = [p for p in parts if p[0] > 0 and p[2] > 0]
        if not parts:
            return (None, 0.)
        d = min(p[1] for p in parts)
        return (d, M.fsum(w * q for (w, k, q) in parts if k == d))
    def constrain(self, assignment):
        parts = [(c.w,) + c.constrain(assignment) for c in self.comps]
        parts = [p for p in parts if p[0] > 0 and p[2] > 0]
        if not parts:
            raise Zero()
        d = min(p[1] for p in parts)
        out = []
        for (w, k, q, c) in parts:
            if k == d:
                c.w = w * q
                out.append(c)
        return normalise(out)

def normalise(comps):
    total = M.fsum(c.w for c in comps)
    if not total > 0:
        raise Zero()
    for c in comps:
        c.w /= total
    return Model(comps)

def build(m):
    op = m[0]
    if op == 'leaf':
        return Model([Comp(1., {m[1]: base(m[2])}, {}, [])])
    if op == 'prod':
        parts = [build(x).comps for x in m[1:]]
        comps = []
        for combo in iproduct(*parts):
            (w, leaves, env, evid) = (M.weight(1), {}, {}, [])
            for c in combo:
                w *= c.w
                leaves.update(c.leaves)
                env.update(c.env)
                evid = evid + c.evid
            comps.append(Comp(w, leaves, env, evid))
        return Model(comps)
    if op == 'sum':
        comps = []
        for (w, x) in m[1]:
            for c in build(x).comps:
                comps.append(Comp(M.weight(num(w)) * c.w, c.leaves, c.env, c.evid))
        return Model(comps)
    if op == 'exposed':
        return build(['sum', [[w, ['prod', ['leaf', m[1], ['choice', [[name, 1]]]], x]]
            for (name, w, x) in m[2]]])
    if op == 'mixed':
        return build(['sum', [[w, ['leaf', m[1], d]] for w, d in m[2]]])
    if op == 'let':
        comps = []
        for c in build(m[1]).comps:
            env = dict(c.env)
            env[m[2]] = subst_expr(m[3], c.env)
            comps.append(Comp(c.w, c.leaves, env, c.evid))
        return Model(comps)
    if op == 'cond':
        return build(m[1]).condition(m[2])
    if op == 'constr':
        return build(m[1]).constrain(dict(map(tuple, m[2])))
    assert False, m

def symbols(m):
    op = m[0]
    if op in ('leaf', 'mixed'):
        return {m[1]}
    if op == 'exposed':
        return symbols(m[2][0][2]) | {m[1]}
    if op == 'prod':
        return set().union(*[symbols(x) for x in m[1:]])
    if op == 'sum':
        return symbols(m[1][0][1])
    if op == 'let':
        return symbols(m[1]) | {m[2]}
    return symbols(m[1])
