S='src/sets.py'; T='src/transforms.py'; P='src/spe.py'; D='src/dnf.py'; M='src/math_util.py'; Y='src/sym_util.py'
AS='src/compilers/ast_to_spe.py'; SD='src/compilers/spe_to_dict.py'; SS='src/compilers/spe_to_sppl.py'
SEEDS = [
dict(id='c08-shrink-open', property='C08',
 edits=[(P, "        xl = float_to_int(values.left) + (not integral_l or values.left_open)\n", "        xl = float_to_int(values.left) + (not integral_l) + bool(values.left_open)\n")],
 needs='conditioning an integer variable on an open lower bound that is not an integer',
 breaks='the first outcome above the bound is lost',
 demo="""
from sppl.distributions import poisson
from sppl.transforms import Id
X = Id('X')
m = (X >> poisson(mu=2)).condition((X > 1.5) & (X < 4.5))
assert abs(m.prob(X << {2}) - (2/(2 + 4/3 + 2/3))) < 1e-9
"""),
dict(id='c02-event-kind', property='C02',
 edits=[(T, "        return isinstance(event, type(self)) \\\n            and (self.values == event.values) \\\n", "        return isinstance(event, EventBasic) \\\n            and (self.values == event.values) \\\n")],
 needs='an impossible event of strings and one of numbers',
 breaks='they are equal, although their negations are not',
 demo="""
from sppl.sets import EmptySet
from sppl.transforms import EventFiniteNominal, EventFiniteReal, Id
X = Id('X')
assert EventFiniteNominal(X, EmptySet) != EventFiniteReal(X, EmptySet)
"""),
dict(id='c18-conditioned-none', property='C18',
 edits=[(SD, "        dist = scipy_dist_from_dict(metadata['dist'])\n        support = eval(metadata['support'])\n        conditioned = metadata['conditioned']\n        env = env_from_dict(metadata['env'])\n        return DiscreteLeaf(", "        dist = scipy_dist_from_dict(metadata['dist'])\n        support = eval(metadata['support'])\n        conditioned = metadata['conditioned'] if metadata['env'] is None else None\n        env = env_from_dict(metadata['env'])\n        return DiscreteLeaf(")],
 needs='an integer leaf with a derived variable, conditioned',
 breaks='the probabilities are not normalised',
 demo="""
from sppl.compilers.spe_to_dict import spe_from_dict, spe_to_dict
from sppl.distributions import poisson
from sppl.transforms import Id
X, Z = Id('X'), Id('Z')
m = (X >> poisson(mu=2)).transform(Z, X**2).condition(X > 2)
n = spe_from_dict(spe_to_dict(m))
assert abs(m.prob(Z < 20) - n.prob(Z < 20)) < 1e-9
"""),
]
