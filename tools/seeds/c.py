S='src/sets.py'; T='src/transforms.py'; P='src/spe.py'; D='src/dnf.py'; M='src/math_util.py'; DI='src/distributions.py'; Y='src/sym_util.py'
AS='src/compilers/ast_to_spe.py'; SD='src/compilers/spe_to_dict.py'; SS='src/compilers/spe_to_sppl.py'; PY='src/compilers/sppl_to_python.py'; MR='magics/render.py'; MM='magics/magics.py'; PO='src/poly.py'; TO='src/timeout.py'
SEEDS = [
dict(id='c06-timer-left', property='C06',
 edits=[(TO, "        signal.alarm(0)", "        if type is None or issubclass(type, TimeoutError):\n            signal.alarm(0)")],
 needs='the symbolic solver raises an error of its own; the alarm it was guarded with then strikes seconds later',
 breaks='the timer survives the solver call, so an unrelated later computation is interrupted',
 demo="""
import signal
from sppl.timeout import timeout
try:
    with timeout(seconds=5):
        raise NotImplementedError()
except NotImplementedError:
    pass
left = signal.alarm(0)
assert left == 0, left
"""),
dict(id='c14-disjoint-adjacent', property='C14',
 edits=[(Y, "    union = get_union(sets)\n    return len(union) == sum(len(s) for s in sets)", "    return all(a.isdisjoint(b) for a, b in zip(sets, sets[1:]))")],
 needs='a product of at least three factors of which two that are not neighbours share a variable',
 breaks='the product is accepted',
 demo="""
from sppl.distributions import norm
from sppl.spe import ProductSPE
from sppl.transforms import Id
X, Y = Id('X'), Id('Y')
try:
    ProductSPE([X >> norm(), Y >> norm(), X >> norm()])
except ValueError:
    pass
else:
    assert False
"""),
dict(id='c14-identical-chain', property='C14',
 edits=[(Y, "    intersection = get_intersection(sets)\n    return all(len(s) == len(intersection) for s in sets)", "    return all(a <= b for a, b in zip(sets, sets[1:]))")],
 needs='a mixture whose second component has an additional variable',
 breaks='the mixture is accepted',
 demo="""
from math import log
from sppl.distributions import norm
from sppl.spe import SumSPE
from sppl.transforms import Id
X, Y = Id('X'), Id('Y')
try:
    SumSPE([X >> norm(), (X >> norm()) & (Y >> norm())], [log(.5), log(.5)])
except ValueError:
    pass
else:
    assert False
"""),
dict(id='c17-switch-previous', property='C17',
 edits=[(AS, "            reduce(lambda x, s: x & ~s, sets[:i], sets[i])", "            reduce(lambda x, s: x & ~s, sets[max(0, i-1):i], sets[i])")],
 needs='a switch with at least three cases of which the third overlaps the first',
 breaks='a value in both cases takes both branches',
 demo="""
from sppl.compilers.ast_to_spe import Sample, Switch, Sequence, Transform
from sppl.distributions import randint
from sppl.sets import Interval
from sppl.transforms import Id
X, Y = Id('X'), Id('Y')
sets = [Interval(0, 1), Interval(2, 3), Interval(0, 5)]
values = dict(zip(sets, (0, 1, 2)))
m = Sequence(
    Sample(X, randint(low=0, high=6)),
    Switch(X, sets, lambda s: Transform(Y, X + 100*values[s]))).interpret()
assert abs(m.prob(Y < 50) - 2/6) < 1e-9, m.prob(Y < 50)
"""),
dict(id='c17-elif-previous', property='C17',
 edits=[(AS, "                reduce(lambda x, e: x & ~e, conditions[:i], conditions[i])\n                for i in range(len(conditions))", "                reduce(lambda x, e: x & ~e, conditions[max(0, i-1):i], conditions[i])\n                for i in range(len(conditions))")],
 needs='if-elif-elif without else, whose third condition overlaps the first',
 breaks='a value that satisfies the first and the third conditions takes both branches',
 demo="""
from sppl.compilers.ast_to_spe import Sample, IfElse, Sequence, Transform
from sppl.distributions import randint
from sppl.transforms import Id
X, Y = Id('X'), Id('Y')
m = Sequence(
    Sample(X, randint(low=0, high=6)),
    IfElse(
        X < 2, Transform(Y, X),
        (2 <= X) & (X < 4), Transform(Y, X + 100),
        (X < 2) | (4 <= X), Transform(Y, X + 200))).interpret()
assert abs(m.prob(Y < 50) - 2/6) < 1e-9, m.prob(Y < 50)
"""),
dict(id='c18-env-order', property='C18',
 edits=[(SD, "    return {repr(k): repr(v) for k, v in env.items()}", "    return {repr(k): repr(v) for k, v in sorted(env.items(), key=lambda kv: kv[0].token)}")],
 needs='two derived variables, defined one from the other, whose names sort in the other order',
 breaks='the definitions are no longer in topological order, so sampling the reconstruction fails',
 demo="""
import json
from sppl.compilers.spe_to_dict import spe_from_dict, spe_to_dict
from sppl.distributions import norm
from sppl.transforms import Id
X, A, C = Id('X'), Id('A'), Id('C')
m = (X >> norm()).transform(C, X**2).transform(A, C + 1)
n = spe_from_dict(json.loads(json.dumps(spe_to_dict(m))))
[s] = n.sample(1)
assert abs(s[A] - s[X]**2 - 1) < 1e-6, s
"""),
dict(id='c21-same-source', property='C21',
 edits=[(MM, "        compiler = SPPL_Compiler(cell, line)\n        namespace = compiler.execute_module()", "        model = next((m for m in self.programs.values() if m.source == cell), None)\n        compiler = model.compiler if model else SPPL_Compiler(cell, line)\n        namespace = model.namespace if model else compiler.execute_module()")],
 needs='two cells with the same source and different names',
 breaks='the second program is not defined in its namespace',
 demo="""
from IPython.core.interactiveshell import InteractiveShell
from sppl.magics.magics import SPPL_Magics
from sppl.transforms import Id
m = SPPL_Magics(InteractiveShell())
m.sppl('a', 'X ~= norm(loc=0, scale=1)')
m.sppl('b', 'X ~= norm(loc=0, scale=1)')
assert abs(m.sppl_get_spe('b').prob(Id('X') < 0) - .5) < 1e-9
"""),
dict(id='c10-atomic-alias', property='C10',
 edits=[(P, """        env = OrderedDict(self.env)
        env[symbol] = expr
        return AtomicLeaf(""", """        env = self.env
        env[symbol] = expr
        return AtomicLeaf(""")],
 needs='two variables derived with the same name from one constant',
 breaks='deriving a variable changes the model it was derived from',
 demo="""
from sppl.distributions import atomic
from sppl.transforms import Id
X, Y = Id('X'), Id('Y')
m = X >> atomic(loc=2.5)
a = m.transform(Y, X + 1)
assert m.get_symbols() == {X}
b = m.transform(Y, X + 2)
assert a.prob(Y << {3.5}) == 1 and b.prob(Y << {4.5}) == 1
"""),
dict(id='c08-piece-weights', property='C08',
 edits=[(P, "            weights = lognorm([weights_unorm[i] for i in indexes])", "            weights = lognorm(weights_unorm[:len(indexes)])")],
 needs='conditioning a leaf on a union of pieces of which one that is not the last has probability zero',
 breaks='a piece is given the weight of another',
 demo="""
from sppl.distributions import discrete
from sppl.transforms import Id
X = Id('X')
m = X >> discrete({1: .25, 5: .5, 9: .25})
c = m.condition(X << {1, 3, 5})
assert abs(c.prob(X << {5}) - 2/3) < 1e-9, c.prob(X << {5})
"""),
dict(id='c15-subset', property='C15',
 edits=[(P, "m01 = exp(lp01) * (lp01 - (lpA0 + lpB1)) if not isinf_neg(lp01) else 0", "m01 = exp(lp01) * (lp01 - (lpA0 + lpB1)) if not isinf_neg(lp10 + lp01) else 0")],
 needs='the first event implies the second',
 breaks='the second event without the first is left out',
 demo="""
from math import log
from sppl.distributions import uniform
from sppl.transforms import Id
X, Y = Id('X'), Id('Y')
m = (X >> uniform()) & (Y >> uniform())
a, b = (X < .25), (X < .5)
want = .25*log(.25/(.25*.5)) + .25*log(.25/(.75*.5)) + .5*log(.5/(.75*.5))
got = m.mutual_information(a, b)
assert abs(got - want) < 1e-9, (got, want)
"""),
dict(id='c20-weights', property='C20',
 edits=[(MR, "            subroot = list(nx.topological_sort(x))[0]\n            G.add_edge(root, subroot, label='%1.3f' % (exp(spe.weights[i]),))", "            subroot = list(nx.topological_sort(x))[0]\n            G.add_edge(root, subroot, label='%1.3f' % (exp(spe.weights[spe.children.index(spe.children[i])]),))")],
 needs='a mixture with two equal components of different weights',
 breaks='the edge of the second is labelled with the weight of the first',
 demo="""
from math import log
from sppl.distributions import norm
from sppl.magics.render import render_networkx_graph
from sppl.spe import SumSPE
from sppl.transforms import Id
X = Id('X')
G = render_networkx_graph(SumSPE([X >> norm(), X >> norm()], [log(.25), log(.75)]))
assert sorted(d['label'] for (_, _, d) in G.edges.data()) == ['0.250', '0.750'], G.edges.data()
"""),
dict(id='c16-unit-interval', property='C16',
 edits=[(DI, "    scale = kwargs.get('scale', 1)\n    return Interval(loc, loc + scale)", "    scale = kwargs.get('scale', 1)\n    return Interval(loc, scale) if loc < scale else Interval(loc, loc + scale)")],
 needs='a distribution on an interval with a location that is not zero and is below the scale',
 breaks='the support ends at the scale instead of the location plus the scale',
 demo="""
from sppl.distributions import beta
from sppl.transforms import Id
X = Id('X')
m = X >> beta(a=2, b=3, loc=1, scale=2)
assert abs(m.prob(X < 3.5) - 1) < 1e-9, m.prob(X < 3.5)
assert m.support.right == 3, m.support
"""),
dict(id='c19-same-branch', property='C19',
 edits=[(SS, "        state.branches.append((branch_var, branch_dist))\n", "        for (var, dist) in state.branches:\n            if dist == branch_dist:\n                branch_var = var\n                break\n        else:\n            state.branches.append((branch_var, branch_dist))\n")],
 needs='a model with two independent mixtures of the same weights',
 breaks='the program chooses the components of both with one variable',
 demo="""
from io import StringIO
from sppl.compilers.spe_to_sppl import render_sppl
from sppl.compilers.sppl_to_python import SPPL_Compiler
from sppl.distributions import norm
from sppl.transforms import Id
X, Y = Id('X'), Id('Y')
m = (X >> (.25*norm(loc=-9) | .75*norm(loc=9))) & (Y >> (.25*norm(loc=-9) | .75*norm(loc=9)))
n = SPPL_Compiler(render_sppl(m, StringIO()).getvalue()).execute_module().model
e = (X < 0) & (Y < 0)
assert abs(n.prob(e) - 1/16) < 1e-9, n.prob(e)
"""),
dict(id='c17-else-rest', property='C17',
 edits=[(PY, "    if not (isinstance(node.orelse[0], ast.If) and len(node.orelse)== 1):", "    if not isinstance(node.orelse[0], ast.If):")],
 needs='an else block that begins with an if and continues after it',
 breaks='the rest of the block is lost',
 demo="""
from sppl.compilers.sppl_to_python import SPPL_Compiler
source = '''
X ~= randint(low=0, high=4)
if X < 1:
    Y ~= atomic(loc=0)
    Z ~= atomic(loc=0)
else:
    if X < 2:
        Y ~= atomic(loc=1)
    else:
        Y ~= atomic(loc=2)
    Z ~= atomic(loc=5)
'''
n = SPPL_Compiler(source).execute_module()
assert abs(n.model.prob((n.Z << {5}) & (n.Y << {2})) - .5) < 1e-9
"""),
dict(id='c09-first-degree', property='C09',
 edits=[(P, "        d_min = min(logpdfs_condt[i][0] for i in indexes)", "        d_min = logpdfs_condt[indexes[0]][0]")],
 needs='constraining a mixture of a continuous and an atomic component, in that order, at the atom',
 breaks='the continuous component is kept instead of the atomic one',
 demo="""
from sppl.distributions import atomic, norm
from sppl.transforms import Id
X, Y = Id('X'), Id('Y')
a = (X >> norm()) & (Y >> norm(loc=9))
b = (X >> atomic(loc=1)) & (Y >> norm(loc=-9))
m = (.5*a | .5*b).constrain({X: 1})
assert abs(m.prob(Y < 0) - 1) < 1e-9, m.prob(Y < 0)
"""),
]
