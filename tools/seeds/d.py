S='src/sets.py'; T='src/transforms.py'; P='src/spe.py'; D='src/dnf.py'; M='src/math_util.py'; DI='src/distributions.py'; Y='src/sym_util.py'
AS='src/compilers/ast_to_spe.py'; PO='src/poly.py'
CHAIN = """
import signal
from math import log
from sppl.distributions import discrete, norm
from sppl.spe import SumSPE
from sppl.transforms import Id
signal.alarm(120)    # Linear: well below a second.
def chain(n):
    rest = None
    for t in reversed(range(n)):
        Z, X = Id('Z%d' % t), Id('X%d' % t)
        here = [(Z >> discrete({s: 1})) & (X >> norm(loc=s)) for s in (0, 1)]
        full = here if rest is None else [h & r for h, r in zip(here, rest)]
        rest = [SumSPE(full, [log(p), log(1 - p)]) for p in (.25, .75)]
    return rest[0]
N = 24
m = chain(N)
"""
SEEDS = [
dict(id='c22-constrain-fresh', property='C22',
 edits=[(P, "children = [self.children[i].constrain(assignment, memo) for i in indexes_d_min]", "children = [self.children[i].constrain(assignment) for i in indexes_d_min]")],
 needs='constraining a model whose mixtures share components, of many steps',
 breaks='each mixture starts with an empty table, so the work is exponential in the number of steps',
 demo=CHAIN + """
c = m.constrain({Id('X%d' % t): .5 for t in range(N)})
assert abs(sum(c.prob(Id('Z0') << {s}) for s in (0, 1)) - 1) < 1e-9
"""),
dict(id='c22-impossible-forgotten', property='C22',
 edits=[(P, """            m[key] = f(spe, event_factor, memo)
        return m[key]""", """            result = f(spe, event_factor, memo)
            if result == -inf:
                return result
            m[key] = result
        return m[key]""")],
 needs='an event of probability zero that only the last steps rule out',
 breaks='impossible results are computed again along every path',
 demo=CHAIN + """
assert m.prob(Id('Z%d' % (N-1)) << {7}) == 0
"""),
dict(id='c01-union-interval-drop', property='C01',
 edits=[(S, "            blocks = union_intervals_finite(intervals, self.atoms)\n            assert blocks\n            if len(blocks) == 1 and self.nominals is EmptySet:", "            blocks = union_intervals_finite(intervals, self.atoms)\n            assert blocks\n            if len(blocks) == 1:")],
 needs='a union with strings joined with an interval that merges all of its numbers into one interval',
 breaks='the strings are lost',
 demo="""
from sppl.sets import FiniteNominal, FiniteReal, Interval
s = (FiniteNominal('a') | FiniteReal(1)) | Interval(0, 2)
assert 'a' in s and 1 in s and 3 not in s
"""),
dict(id='c13-leaf-block', property='C13',
 edits=[(P, "    children = [spe.children[block[0]] for block in partition]\n", "    children = [spe.children[i] for i in range(len(partition))]\n")],
 needs='a mixture of leaves in which the first component is repeated before another one',
 breaks='another component is dropped in favour of the repeated one',
 demo="""
from math import log
from sppl.distributions import norm
from sppl.spe import SumSPE, spe_simplify_sum
from sppl.transforms import Id
X = Id('X')
s = SumSPE([X >> norm(), X >> norm(), X >> norm(loc=3)], [log(.25), log(.25), log(.5)])
t = spe_simplify_sum(s)
assert abs(s.prob(X > 1) - t.prob(X > 1)) < 1e-9
"""),
dict(id='c04-inverse-power', property='C04',
 edits=[(T, "            return 1 / Pow(self, -x)", "            return 1 / Pow(self, max(2, -x))")],
 needs='raising to the power -1',
 breaks='the result is the reciprocal of the square',
 demo="""
from sppl.transforms import Id
X = Id('X')
assert (X**-1).evaluate({X: 4}) * 4 == 1
"""),
]
