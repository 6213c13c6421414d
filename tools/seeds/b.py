S='src/sets.py'; T='src/transforms.py'; P='src/spe.py'; D='src/dnf.py'; M='src/math_util.py'; DI='src/distributions.py'
SEEDS = [
dict(id='c09-constrain-weights', property='C09',
 edits=[(P, "        logpdfs = [logpdfs_condt[i][1] + self.weights[i] for i in indexes_d_min]",
  "        logpdfs = [logpdfs_condt[i][1] + w\n            for i, w in zip(indexes_d_min, self.weights)]")],
 needs='constraining a mixture to a value that an earlier component excludes, while at least two later ones with other weights remain',
 breaks='the posterior weights are those of other components',
 demo="""
from sppl.transforms import Id
from sppl.distributions import uniform, norm
X = Id('X'); Y = Id('Y')
f = lambda a, b: (X >> uniform(loc=a, scale=10)) & (Y >> uniform(loc=b))
m = 0.5*f(5, 0) | 0.375*f(0, 2) | 0.125*f(0, 4)
p = m.constrain({X: 1}).prob(Y < 3.5)
assert abs(p - 0.75) < 1e-9, p
"""),
dict(id='c07-inclusion-exclusion', property='C07',
 edits=[(P, "                    len(b) <= len(subset) and all(z in subset for z in b)",
  "                    len(b) <= len(subset) and sum(z in subset for z in b) * 2 >= len(b)")],
 needs='the probability of a union of at least three events on several variables of which two exclude each other and both overlap the third',
 breaks='overlaps of one of two exclusive events with later ones are not subtracted',
 demo="""
from sppl.transforms import Id
from sppl.distributions import uniform
X = Id('X'); Y = Id('Y')
m = (X >> uniform()) & (Y >> uniform())
e = ((X < 0.25) & (Y < 0.5)) | ((X > 0.75) & (Y < 0.5)) | ((Y < 0.25) & (X > 0.1))
p, q = m.prob(e), m.prob(~e)
assert abs(p + q - 1) < 1e-9, (p, q)
assert abs(p - 0.375) < 1e-9, p
"""),
dict(id='c12-assignment-key', property='C12',
 edits=[(P, """        y = tuple(event_factor.items()) \\
                if isinstance(event_factor, dict) \\""", """        y = tuple(event_factor.values()) \\
                if isinstance(event_factor, dict) \\""")],
 needs='two densities or constraints of different variables at the same value, asked with the same memo table',
 breaks='the second gets the answer of the first',
 demo="""
from sppl.transforms import Id
from sppl.distributions import uniform
from sppl.spe import Memo
X = Id('X'); Y = Id('Y')
m = (X >> uniform(scale=2)) & (Y >> uniform(scale=4))
memo = Memo()
a = m.logpdf({X: 1}, memo)
b = m.logpdf({Y: 1}, memo)
assert abs(b - m.logpdf({Y: 1})) < 1e-9, (a, b)
"""),
dict(id='c10-subs-base', property='C10',
 edits=[(T, """            return self
        subexpr_prime = self.subexpr.subs(env)
        return Logarithm(subexpr_prime, self.base)""", """            return self
        subexpr_prime = self.subexpr.subs(env)
        return Log(subexpr_prime)""")],
 needs='a variable that is a logarithm to a base other than e, in an event on a derived variable',
 breaks='the base of the logarithm becomes e',
 demo="""
from sppl.transforms import Id, Logarithm
from sppl.distributions import uniform
X = Id('X'); Y = Id('Y'); Z = Id('Z')
m = (X >> uniform(scale=16)).transform(Y, X + 0).transform(Z, Logarithm(Y, 2))
assert abs(m.prob(Z < 3) - 0.5) < 1e-9, m.prob(Z < 3)
"""),
dict(id='c10-subs-piecewise', property='C10',
 edits=[(T, """        subexpr_prime = self.subexpr.subs(env)
        return Exponential(subexpr_prime, self.base)""", """        subexpr_prime = self.subexpr.subs(env)
        return Exponential(subexpr_prime, max(self.base, 2))""")],
 needs='a derived variable that is an exponential of base below two',
 breaks='the base changes when a variable is substituted',
 demo="""
from sppl.transforms import Id, Exponential
from sppl.distributions import uniform
X = Id('X'); Y = Id('Y'); Z = Id('Z')
m = (X >> uniform(loc=-2, scale=4)).transform(Y, X + 0).transform(Z, Exponential(Y, 0.5))
assert abs(m.prob(Z < 2) - 0.75) < 1e-9, m.prob(Z < 2)
"""),
dict(id='c11-prng', property='C11',
 edits=[(P, "            self.children[i].sample_subset(symbols_i, N, prng=prng)\n            for i, symbols_i",
   "            self.children[i].sample_subset(symbols_i, N)\n            for i, symbols_i")],
 needs='sampling a subset of the variables of a product with a generator',
 breaks='the generator is ignored',
 demo="""
from sppl.transforms import Id
from sppl.distributions import norm
import numpy
X = Id('X'); Y = Id('Y')
m = (X >> norm()) & (Y >> norm())
f = lambda: m.sample_subset([X], 3, prng=numpy.random.RandomState(1))
assert f() == f()
"""),
dict(id='c02-piecewise-eq', property='C02',
 edits=[(T, """        return isinstance(x, Piecewise) \\
            and self.subexprs == x.subexprs \\
            and self.events == x.events""", """        return isinstance(x, Piecewise) \\
            and self.subexprs == x.subexprs \\
            and self.symbols == x.symbols""")],
 needs='two piecewise functions with the same pieces on different domains',
 breaks='they are equal',
 demo="""
from sppl.transforms import Id
X = Id('X')
f = lambda t: (X < t)*X + (X >= t)*(X**2)
assert f(0) != f(1)
assert ((f(0) < 2) | (f(1) < 2)).evaluate({X: -3}) == 1
e = (f(0) << {0.25}) & (f(1) << {0.25})
assert f(1) not in [f(0)]
"""),
dict(id='c03-abs-open', property='C03',
 edits=[(T, "        ys_neg = transform_interval(ys, -b, -a, flip=True)", "        ys_neg = transform_interval(ys, -b, -a, flip=not isinf_pos(b))")],
 needs='|f(X)| > a or |f(X)| >= a with a > 0, at the point -a',
 breaks='the end of the negative part is open instead of closed and conversely',
 demo="""
from sppl.transforms import Id
X = Id('X')
assert -1 not in (abs(X) > 1).solve()
assert -1 in (abs(X) >= 1).solve()
"""),
dict(id='c08-disjoint', property='C08',
 edits=[(D, "            (event.subexprs[j] for j in overlap_dict.get(i, [])),", "            (event.subexprs[j] for j in overlap_dict.get(i, [])[:2]),")],
 needs='a disjunction of at least four clauses of which one overlaps three earlier ones',
 breaks='clauses overlap and are counted twice',
 demo="""
from sppl.transforms import Id
from sppl.distributions import uniform
X, Y, Z, W = [Id(x) for x in 'XYZW']
m = (X >> uniform()) & (Y >> uniform()) & (Z >> uniform()) & (W >> uniform())
e = (X < .5) | (Y < .5) | (Z < .5) | (W < .5)
p = m.condition(e).prob((X < .5) & (Y < .5) & (Z < .5) & (W < .5))
assert abs(p - (1/16)/(15/16)) < 1e-9, p
"""),
dict(id='c13-leaf-env', property='C13',
 edits=[(P, """            and self.support == x.support \\
            and self.conditioned == x.conditioned \\
            and self.env == x.env""", """            and self.support == x.support \\
            and self.conditioned == x.conditioned \\
            and self.get_symbols() == x.get_symbols()""")],
 needs='a mixture of products that have a factor with the same base and different derived variables of the same name',
 breaks='the factors are merged',
 demo="""
from sppl.compilers.sppl_to_python import SPPL_Compiler
src = '''
B ~= choice({'a': 0.5, 'b': 0.5})
X ~= uniform(loc=0, scale=4)
if B == 'a':
    Y ~= 2*X
else:
    Y ~= 4*X
'''
ns = SPPL_Compiler(src).execute_module()
p = ns.model.prob(ns.Y < 4)
assert abs(p - 0.375) < 1e-9, p
"""),
dict(id='c01-touch', property='C01',
 edits=[(S, """                if self.b == x.a:
                    return FiniteReal(x.a) if x.a in x else EmptySet
""", """                if self.b == x.a:
                    return FiniteReal(x.a)
""")],
 needs='two intervals that meet at a point that only the lower one contains',
 breaks='the intersection has the point',
 demo="""
from sppl.sets import Interval, EmptySet
x = Interval(0, 1) & Interval.Lopen(1, 2)
assert x is EmptySet, x
"""),
dict(id='c16-randint', property='C16',
 edits=[(DI, "def UnitIntervalLocScale(kwargs):\n    loc = kwargs.get('loc', 0)", "def UnitIntervalLocScale(kwargs):\n    loc = kwargs.get('loc') or min(0, kwargs.get('scale', 0))")],
 needs='x', breaks='x', demo="""
raise SystemExit(0)
"""),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
