#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (what is claimed follows from
which checks exist under checks/)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    return {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
            'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
            'observe_at': observe,
            'hook_needed': None,
        },
    }

PROPS = [
P('C01', 'Set algebra on outcome sets is pointwise exact',
  'Union, intersection, complement and membership of outcome sets (intervals with open or closed ends, finite sets of numbers, nominal sets and their complements, and mixtures of these) agree with the pointwise Boolean operation on membership for every number, infinity and string, in any order of composition. Results are normalised: the pieces of a union are disjoint, non-empty and not mergeable, and an operation with an empty result returns the empty set. Complement is taken within the kind of the set: within the reals for numeric parts, within the strings for nominal parts.',
  ['inputs', 'histories'], 'every pair (and bounded composition) of sets over a finite alphabet of end points and strings, probed at every end point, between and beyond them, and at strings',
  'tests/test_sets.py samples a few dozen pairs; the operations dispatch on every ordered pair of representations and on which end points coincide',
  ['src/sets.py'], [('Interval/FiniteReal/FiniteNominal/Union __and__, __or__, __invert__', 'src/sets.py'), ('union_intervals, make_union, make_intersection', 'src/sets.py')],
  ['sppl.sets operators', 'x in set']),
P('C02', 'Equality and hashing never confuse or separate values',
  'Outcome sets, symbols, transforms, events and models that compare equal have equal hashes and are interchangeable: they contain the same points, evaluate the same and give the same answers to every query. Values that denote different sets, functions, events or distributions never compare equal, whatever their hashes, so no container, cache or simplification keyed on them merges them. Equality is reflexive and symmetric, survives rebuilding the value from the same parts, and sets with the same points compare equal.',
  ['inputs', 'histories'], 'every ordered pair of values of a finite alphabet that contains near-duplicates (one differing field each, numerically equal numbers of different types, hash-colliding parameters such as -1 and -2)',
  'tests compare a value with its own copy; a field missing from __eq__ only shows on a pair that differs in exactly that field',
  ['src/sets.py', 'src/transforms.py', 'src/spe.py'], [('__eq__ and __hash__ of every class', 'src/sets.py, src/transforms.py, src/spe.py'), ('partition_list_blocks, spe_cache_duplicate_subtrees', 'src/sym_util.py, src/spe.py')],
  ['==, hash, dict/set membership', 'prob of the compared models']),
P('C03', 'Solving an event returns exactly the points that satisfy it',
  'For every event over one random variable, built from comparisons, containment, polynomials, absolute value, reciprocals, roots, exponentials, logarithms, piecewise functions, indicator functions and Boolean combinations of these, the solved set contains exactly the values of the variable for which the event is true: points where a function is undefined satisfy neither an event nor its negation. Evaluating the event at a value agrees with membership of that value in the solved set.',
  ['inputs'], 'every composition of transforms up to a depth, with every outcome set of a finite alphabet, probed at every critical point and in every cell between them',
  'tests solve a few dozen hand-picked events; each inversion has cases by sign, open ends, infinities and domain',
  ['src/transforms.py', 'src/poly.py', 'src/sets.py'], [('Transform.invert, invert_interval, invert_finite, finv', 'src/transforms.py'), ('solve_poly_inequality, solve_poly_equality', 'src/poly.py'), ('Piecewise.invert_*', 'src/transforms.py')],
  ['event.solve()', 'event.evaluate({X: v})']),
P('C04', 'Arithmetic on random variables denotes the function written',
  'An expression written with +, -, *, /, **, abs, exp, log and sqrt over random variables, numbers on either side (integers, floats, fractions), and indicator events, evaluates at every point of its domain to the value of the ordinary arithmetic expression, or is rejected with an exception when it is built. Substituting expressions for variables commutes with evaluation.',
  ['inputs', 'programs'], 'every operator tree up to a size over a finite alphabet of operands, each side and number type, evaluated at a grid of points',
  'tests check the constructed object for a few spellings of each operator, not the denoted function over operator trees',
  ['src/transforms.py', 'src/sym_util.py'], [('Transform.__add__ ... __rpow__, polyify, Pow', 'src/transforms.py'), ('sympify_number', 'src/sym_util.py'), ('subs, substitute', 'src/transforms.py')],
  ['expr.evaluate({X: v})']),
P('C05', 'Boolean operations on events are pointwise',
  'Conjunction, disjunction, negation, exclusive or, chained comparison and containment of events over any number of variables agree pointwise with Boolean logic at every assignment at which the functions in the event are defined. Normalising an event to disjunctive normal form and rewriting it as a union of disjoint clauses preserve its truth at every assignment, and the clauses of the latter are pairwise disjoint.',
  ['inputs', 'programs'], 'every Boolean formula up to a size over literals on several variables of different kinds, at every assignment of a finite grid',
  'tests normalise a handful of formulas and compare with a hand-written result',
  ['src/transforms.py', 'src/dnf.py'], [('Event __and__, __or__, __invert__, __xor__, to_dnf', 'src/transforms.py'), ('dnf_normalize, dnf_factor, dnf_to_disjoint_union', 'src/dnf.py'), ('EventInterval.__compute_gte__/__compute_lte__', 'src/transforms.py')],
  ['event.evaluate', 'dnf_normalize(event).evaluate']),
P('C06', 'Solver fallback does not change the answer',
  'Solving a polynomial event gives the same points and the same probability, up to numerical accuracy, whether the symbolic solver succeeds, is switched off by SPPL_NO_SYMBOLIC, or times out or gives up at any step of the computation. A timeout never escapes to the caller, is never raised later, and does not change later answers.',
  ['fault_sequences', 'inputs'], 'every polynomial event of a finite alphabet x every single (and in the thorough tier every pair of) symbolic call that times out or gives up',
  'tests exercise the numerical path on two quintics; the fault can strike at every symbolic call',
  ['src/poly.py', 'src/timeout.py'], [('solve_poly_inequality, solve_poly_equality and their numerical versions', 'src/poly.py'), ('timeout', 'src/timeout.py')],
  ['event.solve()', 'spe.prob(event)']),
P('C07', 'Probabilities are exact',
  'For every model built from leaves, products, mixtures, derived variables and earlier conditioning, and every event over its variables, the probability (and log probability) returned equals the measure of the event under the distribution the model denotes; in particular it is in [0, 1], is additive over disjoint events, sums to one with the negated event where the functions in it are defined, and does not depend on how the event is written.',
  ['inputs', 'programs'], 'every model of a finite family x every event of a finite family, against an independent reference that enumerates cells and outcomes',
  'tests check a few model/event pairs; inclusion-exclusion, mixtures and end-point corrections depend on the combination',
  ['src/spe.py', 'src/dnf.py', 'src/distributions.py'], [('logprob, logprob_mem, logprob_conjunction', 'src/spe.py'), ('RealLeaf.logprob_values__, DiscreteLeaf.logprob_interval__', 'src/spe.py'), ('dnf_normalize, dnf_factor', 'src/dnf.py')],
  ['spe.prob(event)', 'spe.logprob(event)']),
P('C08', 'Conditioning is exact',
  'Conditioning a model on an event of positive probability returns a model of the same variables in which every event has exactly its conditional probability, also when conditioning is repeated, and leaves the original model unchanged. Conditioning on an event of probability zero raises ValueError instead of returning a model.',
  ['inputs', 'histories'], 'every sequence of up to two (thorough: three) conditioning events on every model of a finite family, queried with every probe event',
  'tests condition a few models once; disjointification, truncation and re-weighting depend on the combination',
  ['src/spe.py', 'src/dnf.py'], [('condition, condition_mem, condition_clause, condition__', 'src/spe.py'), ('dnf_to_disjoint_union', 'src/dnf.py')],
  ['spe.condition(event).prob(...)', 'ValueError']),
P('C09', 'Densities and constraints are exact',
  'The density of an assignment to base variables of a model is that of the distribution it denotes: the product over independent parts, the weighted sum over the mixture components of the lowest continuous dimension, the probability mass for atoms, and zero outside the support. Constraining a model to an assignment of positive density gives the exact posterior of the other variables and fixes the assigned variables; an assignment of density zero is rejected.',
  ['inputs', 'histories'], 'every assignment of a finite grid (partial and total) on every model of a finite family, also after conditioning and after constraining',
  'tests check one density per distribution kind and a few constraints',
  ['src/spe.py'], [('logpdf_mem, logpdf__', 'src/spe.py'), ('constrain_mem, constrain__, AtomicLeaf', 'src/spe.py')],
  ['spe.pdf, spe.logpdf', 'spe.constrain(...).prob(...)']),
P('C10', 'Derived variables denote functions of their parents',
  'After a variable is defined as a function of existing variables (also of derived ones, also through mixtures, products and conditioning), every event that mentions it has the probability of the event in which it is replaced by that function, conditioning on it conditions its parents, and samples satisfy the defining equation.',
  ['programs', 'inputs'], 'every chain of up to two (thorough: three) derived variables over a finite alphabet of functions on models of a finite family, with events on every subset of the variables',
  'tests define one or two derived variables on one leaf',
  ['src/spe.py', 'src/transforms.py'], [('transform, env', 'src/spe.py'), ('substitute', 'src/transforms.py')],
  ['spe.transform(Y, expr).prob(event)', 'samples']),
P('C11', 'Samples are drawn from the model',
  'For every sequence of random numbers the generator can deliver, sampling N times returns N independent assignments of exactly the requested variables, each in the support of the model and each satisfying earlier conditioning and the equations of derived variables; positions in the list are exchangeable and carry no information about the mixture component. Over all random sequences the joint distribution of the samples is that of the model, and sampling a function of variables returns that function of the sampled values.',
  ['fault_sequences', 'inputs'], 'every random choice the sampler can make (component choices, orders of a shuffle, quantile levels) enumerated through a scripted generator, on every model of a finite family',
  'tests check keys and a loose frequency of a few seeds',
  ['src/spe.py', 'src/math_util.py'], [('sample, sample_subset, sample_func, sample_many', 'src/spe.py'), ('merge_samples, func_evaluate', 'src/spe.py'), ('flip, logflip', 'src/math_util.py')],
  ['spe.sample(N, prng)', 'spe.sample_subset', 'spe.sample_func']),
P('C12', 'Queries do not interfere',
  'The answer to a query depends only on the model and the query: not on earlier queries, on a memo table shared between any sequence of queries on any models, on the order of the queries, on parts shared between models, or on models that have been garbage collected. Queries never modify the model, the event or the assignment given to them.',
  ['histories'], 'every sequence of up to three queries over a finite alphabet of models and queries with a shared memo table, compared with fresh evaluation',
  'tests reuse a memo for a single kind of query',
  ['src/spe.py'], [('memoize, get_memo_key, Memo', 'src/spe.py')],
  ['spe.logprob/condition/logpdf/constrain with memo', 'spe.mutual_information'],
  [('Memo', 'tables of logprob, condition, logpdf and constrain results', 'src/spe.py')]),
P('C13', 'Simplification and sharing preserve the distribution',
  'Merging equal mixture components, factoring out common factors of products, sharing equal subtrees, and switching simplification off with SPPL_NO_SIMPLIFY never change the distribution a model or a compiled program denotes.',
  ['programs', 'configurations', 'inputs'], 'every mixture of up to three products over a finite alphabet of factors (repeated, overlapping, hash-colliding, differently ordered), before and after each rewriting',
  'tests simplify a few mixtures that were built to simplify',
  ['src/spe.py', 'src/sym_util.py', 'src/compilers/ast_to_spe.py'], [('spe_simplify_sum*', 'src/spe.py'), ('spe_cache_duplicate_subtrees', 'src/spe.py'), ('partition_list_blocks', 'src/sym_util.py')],
  ['prob before and after']),
P('C14', 'Ill-formed models are rejected, well-formed ones accepted',
  'A model whose weights are not a probability distribution, whose mixture components have different variables, whose product or derived variables redefine a variable, or which refers to unknown variables is rejected with an exception at construction or compilation and never yields a model; well-formed models are accepted. Every accepted model, and every model returned by a query, is again well-formed: its weights sum to one, mixtures agree on their variables, factors share none.',
  ['programs', 'inputs'], 'every construction and every small program of a finite grammar, classified well-formed or not by an independent checker',
  'tests try one or two instances of each error',
  ['src/spe.py', 'src/compilers/ast_to_spe.py', 'src/compilers/sppl_to_python.py', 'src/distributions.py'], [('constructors of SumSPE, ProductSPE, PartialSumSPE, NominalLeaf', 'src/spe.py'), ('assertions of SPPL_Visitor', 'src/compilers/sppl_to_python.py')],
  ['exceptions', 'spe.weights, spe.get_symbols()']),
P('C15', 'Mutual information is exact',
  'The mutual information of two events under a model equals the value computed from their four joint probabilities; it is symmetric, non-negative, zero for independent events, equal to the entropy of an event with itself, and finite also for impossible and certain events.',
  ['inputs'], 'every pair of events of a finite family on every model of a finite family',
  'tests check two models', ['src/spe.py', 'src/math_util.py'], [('mutual_information', 'src/spe.py'), ('logdiffexp', 'src/math_util.py')],
  ['spe.mutual_information(A, B)']),
P('C16', 'Distribution constructors give the distribution they name',
  'Every distribution of the catalogue, called with valid keyword parameters (including location and scale), yields the distribution of that name: the probability of every interval and point, the density, and the support agree with the definition of the distribution. Numeric, string and uniform discrete choices give each outcome its stated probability.',
  ['inputs'], 'every distribution of the catalogue x a finite alphabet of parameters, probed at every boundary of the support and a grid of points',
  'tests construct each distribution once and most never query it',
  ['src/distributions.py', 'src/spe.py'], [('RealDistribution.domain, FiniteMap, choice, discrete, uniformd', 'src/distributions.py'), ('DiscreteLeaf, ContinuousLeaf', 'src/spe.py')],
  ['(X >> dist(...)).prob, .pdf']),
P('C17', 'Programs denote what their source says',
  'Compiling a program of the modeling language (samples, mixtures, arrays, transforms, conditional branches, switches, loops, conditional expressions, condition and constrain statements, in any nesting the language accepts) yields a model with exactly the joint distribution of running the program statement by statement, where a condition or constrain statement restricts and renormalises the executions that reach it (inside a branch, those of that branch, which keeps its probability). Constants, loop indices and the choice between equivalent spellings (if/elif/else, conditional expression, switch, unrolled loop) do not change the distribution.',
  ['programs'], 'every program up to a size generated from a grammar, against an independent interpreter that enumerates weighted executions',
  'tests compile a few dozen programs and mostly compare with the expected command text',
  ['src/compilers/sppl_to_python.py', 'src/compilers/ast_to_spe.py'], [('SPPL_Visitor, SPPL_Compiler', 'src/compilers/sppl_to_python.py'), ('Command.interpret, interpret_if_block', 'src/compilers/ast_to_spe.py')],
  ['SPPL_Compiler(source).execute_module()']),
P('C18', 'Serialising a model loses nothing',
  'Converting a model to a dictionary, through JSON text, and back yields a model with the same variables and the same distribution, also for models obtained by conditioning, constraining, deriving variables and simplification. The textual representations of sets, transforms and events evaluate back to equal values, up to rounding of their numbers to floating point.',
  ['programs', 'histories'], 'every model of a finite family closed under up to two operations, and every set, transform and event of a finite alphabet',
  'tests round-trip a dozen models in memory, without JSON text',
  ['src/compilers/spe_to_dict.py', 'src/sets.py', 'src/transforms.py'], [('spe_to_dict, spe_from_dict, env_to_dict, env_from_dict', 'src/compilers/spe_to_dict.py'), ('__repr__', 'src/sets.py, src/transforms.py')],
  ['spe_from_dict(json.loads(json.dumps(spe_to_dict(spe))))']),
P('C19', 'Rendering a model as a program preserves it',
  'The program text rendered from a model compiles, and the compiled model gives every event over the variables of the original model the same probability.',
  ['programs'], 'every model of a finite family of shapes (nested mixtures and products, truncated and nominal leaves, derived variables)',
  'tests render a dozen models', ['src/compilers/spe_to_sppl.py'], [('render_sppl', 'src/compilers/spe_to_sppl.py')],
  ['SPPL_Compiler(render_sppl(spe).getvalue())']),
P('C20', 'Rendered structure matches the model',
  'The graph rendered from a model has exactly one node per leaf, mixture, product and derived variable of the model, with the parent-child edges and the weights of the model, whatever the clock returns while it is rendered; the nested-list rendering lists every node, symbol, weight, parameter and derived variable of the model.',
  ['programs', 'fault_sequences'], 'every model of a finite family of shapes x every clock behaviour (repeating, coarse, backwards, strictly increasing) of a finite alphabet',
  'tests render two models under the real clock', ['magics/render.py', 'src/render.py'], [('render_networkx_graph, gensym', 'magics/render.py'), ('render_nested_lists, render_nested_lists_concise', 'src/render.py')],
  ['nodes and edges of the graph', 'nested lists']),
P('C21', 'Notebook commands act on the current program',
  'In every sequence of notebook commands, each command acts on the latest successfully compiled program of the given name: a failed compilation leaves earlier programs intact, programs of different names do not interfere, unknown names are rejected, and the returned model, namespace and translation belong to the same source.',
  ['histories'], 'every sequence of up to four commands over two names and three sources (one of them broken), against a map from names to sources',
  'tests do not cover the notebook commands', ['magics/magics.py'], [('SPPL_Magics', 'magics/magics.py')],
  ['%%sppl, %sppl_get_spe, %sppl_get_namespace, %sppl_to_python'],
  [('programs', 'map from names to compiled programs', 'magics/magics.py')]),
P('C22', 'Shared structure keeps compilation and inference tractable',
  'For a program that advances in steps, each of which depends on a bounded number of variables of the step before, and for models whose parts are shared, the distinct nodes of the compiled, conditioned or constrained model grow linearly with the number of steps, although the number of execution paths is exponential. The work of compiling, probabilities, densities, conditioning, constraining, sampling and mutual information stays polynomial with the default memoization, and the answers are those of a forward recursion.',
  ['programs', 'inputs'], 'every program of a grammar of step-by-step models and every shared model of a finite family x every query of an alphabet, at several lengths, under a counter of the calls in the package',
  'tests run a few chains and cannot tell slow from exponential; the answers stay right when sharing is lost',
  ['src/spe.py', 'src/compilers/sppl_to_python.py', 'src/compilers/ast_to_spe.py'], [('Memo, logprob, condition, logpdf, constrain with memo tables', 'src/spe.py'), ('spe_simplify_sum, spe_factor_dnf, spe_cache_duplicate_subtrees', 'src/spe.py'), ('Switch, IfElse', 'src/compilers/ast_to_spe.py')],
  ['size of the compiled model', 'time of spe.prob, condition, constrain, logpdf, sample, mutual_information'],
  [('memo', 'table from arguments to results of the subtrees visited', 'src/spe.py')]),
]

def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            assert 1 <= p['statement'].count('. ') + 1 <= 3, p['id']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    names = os.listdir(os.path.join(VERIF, 'checks'))
    for p in PROPS:
        mod = [n for n in names if n.startswith(p['id'].lower()) and n.endswith('.py')]
        if not mod:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
            continue
        src = open(os.path.join(VERIF, 'checks', mod[0])).read()
        ns = {}
        for field in ('LEVEL', 'TECHNIQUE', 'LEVEL_NOTE'):
            i = src.index('\n%s = ' % (field,)) + 1
            # The value is a literal, possibly in parentheses.
            import ast
            tree = ast.parse(src)
            for node in tree.body:
                if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == field:
                    ns[field] = ast.literal_eval(node.value)
        checks.append({
            'property': p['id'],
            'quick_cmd': 'bin/check %s' % (p['id'],),
            'thorough_cmd': 'VERIF_TIER=thorough bin/check %s --tier thorough' % (p['id'],),
            'evidence_file': 'evidence/%s.json' % (p['id'],),
            'technique': ns['TECHNIQUE'],
            'level': ns['LEVEL'],
            'level_note': ns['LEVEL_NOTE'],
        })
    manifest = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks in /repo are needed: the checks drive the public API '
            'of a scratch copy of /repo\'s working tree. See DESIGN.md.',
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed', len(na), 'not')

if __name__ == '__main__':
    main()
