"""A random generator whose every decision is enumerated.

Script subclasses numpy.random.RandomState, so that both the code under test
and scipy accept it.  Discrete draws branch over their outcomes with their
probabilities; continuous draws branch over the mid points of LEVELS equally
likely quantile ranges, which is exact for every event whose boundary lies at
a multiple of 1/LEVELS."""

import math

from itertools import permutations

import numpy

class Diverged(Exception):
    """A replayed prefix offered other options than the first time."""

class Path():
    """One path through the tree of decisions; advance() moves to the next."""
    def __init__(self):
        self.taken = []     # [index, number of options]
        self.pos = 0
        self.weight = 1.
    def pick(self, probs):
        options = [i for i, p in enumerate(probs) if p > 0]
        if self.pos < len(self.taken):
            (i, n) = self.taken[self.pos]
            if n != len(options):
                raise Diverged()
        else:
            i = 0
            self.taken.append([0, len(options)])
        self.pos += 1
        self.weight *= probs[options[i]]
        return options[i]
    def advance(self):
        self.taken = self.taken[:self.pos]
        while self.taken and self.taken[-1][0] + 1 == self.taken[-1][1]:
            self.taken.pop()
        if not self.taken:
            return False
        self.taken[-1][0] += 1
        self.pos = 0
        self.weight = 1.
        return True

def _ndtri(p):
    (lo, hi) = (-10., 10.)
    for _ in range(80):
        m = (lo + hi) / 2
        (lo, hi) = (m, hi) if 0.5 * math.erfc(-m / math.sqrt(2)) < p else (lo, m)
    return (lo + hi) / 2

class Script(numpy.random.RandomState):
    def __init__(self, path, levels):
        super().__init__(0)
        self.path = path
        self.levels = levels
        self.unscripted = None
    # -- helpers
    def _many(self, size, f):
        if size is None:
            return f()
        shape = (size,) if numpy.isscalar(size) else tuple(size)
        n = int(numpy.prod(shape)) if shape else 1
        out = [f() for _ in range(n)]
        return numpy.asarray(out).reshape(shape)
    def _level(self):
        k = self.levels
        return (self.path.pick([1. / k] * k) + 0.5) / k
    def _table(self, size, values, probs):
        return self._many(size, lambda: values[self.path.pick(probs)])
    # -- continuous
    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many(size, lambda: low + (high - low) * self._level())
    def random_sample(self, size=None):
        return self.uniform(size=size)
    def random(self, size=None):
        return self.uniform(size=size)
    def rand(self, *shape):
        return self.uniform(size=shape or None)
    def standard_normal(self, size=None):
        return self._many(size, lambda: _ndtri(self._level()))
    def normal(self, loc=0., scale=1., size=None):
        return self._many(size, lambda: loc + scale * _ndtri(self._level()))
    def randn(self, *shape):
        return self.standard_normal(shape or None)
    def standard_exponential(self, size=None):
        return self._many(size, lambda: -math.log(1 - self._level()))
    def exponential(self, scale=1., size=None):
        return self._many(size, lambda: -scale * math.log(1 - self._level()))
    # -- discrete
    def choice(self, a, size=None, replace=True, p=None):
        values = list(range(a)) if isinstance(a, (int, numpy.integer)) else list(a)
        probs = [1. / len(values)] * len(values) if p is None else list(map(float, p))
        assert len(values) == len(probs) and replace
        if abs(sum(probs) - 1) > 1e-8 or min(probs) < 0:
            raise ValueError('probabilities do not sum to 1')
        return self._table(size, values, probs)
    def randint(self, low, high=None, size=None, dtype=int):
        (low, high) = (0, low) if high is None else (low, high)
        return self._table(size, list(range(int(low), int(high))),
            [1. / (high - low)] * int(high - low))
    def binomial(self, n, p, size=None):
        n = int(n)
        c = lambda k: math.factorial(n) // math.factorial(k) // math.factorial(n - k)
        return self._table(size, list(range(n + 1)),
            [c(k) * p**k * (1 - p)**(n - k) for k in range(n + 1)])
    def poisson(self, lam=1., size=None):
        # Outcomes 0, 1, 2 and one that stands for all larger ones.
        probs = [math.exp(-lam) * lam**k / math.factorial(k) for k in range(3)]
        return self._table(size, [0, 1, 2, 3], probs + [1 - sum(probs)])
    def geometric(self, p, size=None):
        probs = [p * (1 - p)**k for k in range(2)]
        return self._table(size, [1, 2, 3], probs + [1 - sum(probs)])
    def multinomial(self, n, pvals, size=None):
        assert size is None
        out = numpy.zeros(len(pvals), dtype=int)
        for _ in range(n):
            out[self.path.pick(list(map(float, pvals)))] += 1
        return out
    # -- orders
    def _order(self, n):
        orders = list(permutations(range(n)))
        return orders[self.path.pick([1. / len(orders)] * len(orders))]
    def shuffle(self, x):
        order = self._order(len(x))
        y = [x[i] for i in order]
        for i, v in enumerate(y):
            x[i] = v
    def permutation(self, x):
        x = list(range(x)) if isinstance(x, (int, numpy.integer)) else list(x)
        return numpy.asarray([x[i] for i in self._order(len(x))])

def _unscripted(name):
    f = getattr(numpy.random.RandomState, name)
    def g(self, *args, **kwargs):
        self.unscripted = name
        return f(self, *args, **kwargs)
    return g

for _name in ('beta', 'bytes', 'chisquare', 'dirichlet', 'f', 'gamma', 'gumbel',
        'hypergeometric', 'laplace', 'logistic', 'lognormal', 'logseries',
        'negative_binomial', 'pareto', 'power', 'random_integers', 'rayleigh',
        'standard_cauchy', 'standard_gamma', 'standard_t', 'tomaxint',
        'triangular', 'vonmises', 'wald', 'weibull', 'zipf'):
    if hasattr(numpy.random.RandomState, _name):
        setattr(Script, _name, _unscripted(_name))

def explore(run, levels, limit=None):
    """Yields (weight, result of run(rng), rng) for every path."""
    path = Path()
    n = 0
    while True:
        rng = Script(path, levels)
        result = run(rng)
        yield (path.weight, result, rng)
        n += 1
        if limit is not None and n >= limit:
            raise OverflowError('more than %d paths' % (limit,))
        if not path.advance():
            return
