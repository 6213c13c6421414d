"""C22: shared structure keeps compilation and inference tractable
(every program of a grammar of step-by-step models x queries, run at several
lengths under a counter of the work done, with answers compared with a
forward recursion)."""

import json
import math
import os
import sys

from functools import reduce
from itertools import combinations, product

from vlib import fastsym    # First: see there.
from vlib.core import attempt

import sppl

from sppl.compilers.sppl_to_python import SPPL_Compiler
from sppl.distributions import bernoulli, choice, discrete, norm, poisson
from sppl.spe import ProductSPE, SumSPE, spe_cache_duplicate_subtrees
from sppl.transforms import Id, Identity

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of step-by-step programs and of models with shared parts x queries on the real code, at several lengths, under a monitor that counts the calls of functions of the package and the distinct nodes; growth is compared between lengths and every answer with a forward recursion'
LEVEL_NOTE = 'Every program of the grammar (states, transitions, spellings of the branch, observations) with every query of the alphabet at lengths 1, 2, 3, 5 and 12. Growth is judged from two lengths: a factor of up to 16 from length 5 to 12 (a cubic has 14, an exponential of base two 128).'
BOUNDS = {
    'quick': '40 programs and 6 families of models with shared parts x 30 queries (possible and impossible) x lengths 1, 2, 3, 5, 12',
    'thorough': 'the same with lengths 4, 6, 8 and 16 as well',
}
ASSUMPTIONS = ['the number of calls of functions of the package stands for the work done', 'agreement within 1e-8 counts as equal']
TOL = 1e-8
SHORT, LONG, FACTOR = 5, 12, 16

# ------------------------------------------------------------------------------
# Work.

ROOT = os.path.dirname(os.path.abspath(sppl.__file__))

class TooMuch(BaseException):
    """More work than the bound allows."""

class Meter():
    """Counts the calls of functions of the package."""
    def __init__(self, limit=None):
        self.count = 0
        self.limit = limit
    def __call__(self, frame, event, _arg):
        if event == 'call' and frame.f_code.co_filename.startswith(ROOT):
            self.count += 1
            if self.limit is not None and self.count > self.limit:
                raise TooMuch()
    def run(self, f):
        sys.setprofile(self)
        try:
            return f()
        finally:
            sys.setprofile(None)

def nodes(spe):
    seen = {}
    todo = [spe]
    while todo:
        s = todo.pop()
        if id(s) not in seen:
            seen[id(s)] = s
            todo += list(getattr(s, 'children', None) or [])
    return len(seen)

# ------------------------------------------------------------------------------
# Programs that advance in steps: hidden states Z[t] and observations X[t].

# name: (values of the state, initial distribution, transitions)
CHAINS = {
    'two': ([0, 1], [.5, .5], [[.75, .25], [.25, .75]]),
    'skew': ([0, 1], [.25, .75], [[.5, .5], [.125, .875]]),
    'same': ([0, 1], [.5, .5], [[.75, .25], [.75, .25]]),
    'three': (['a', 'b', 'c'], [.5, .25, .25], [[.5, .25, .25], [0, .5, .5], [.25, .25, .5]]),
    'nums': ([0, 1, 2], [.25, .5, .25], [[.5, .5, 0], [.25, .5, .25], [0, .5, .5]]),
}
# name: per state, the distribution of the observation.
EMISSIONS = {
    'none': None,
    'norm': [('norm', 0), ('norm', 2), ('norm', -1)],
    'pois': [('poisson', 1), ('poisson', 3), ('poisson', 2)],
    'equal': [('norm', 1), ('norm', 1), ('norm', 1)],
    'kinds': [('norm', 0), ('poisson', 2), ('norm', 1)],
}
STYLES = ['else', 'elif', 'switch', 'twice', 'once']

def dist_text(values, ps):
    if isinstance(values[0], str):
        return 'choice({%s})' % ', '.join('%r: %r' % t for t in zip(values, ps) if t[1])
    if len(values) == 2:
        return 'bernoulli(p=%r)' % ps[1]
    return 'discrete({%s})' % ', '.join('%r: %r' % t for t in zip(values, ps) if t[1])

def emission_text(e):
    return 'norm(loc=%d)' % e[1] if e[0] == 'norm' else 'poisson(mu=%d)' % e[1]

def branch(var, values, bodies, style):
    """Statements that run the body of the value of a variable."""
    if style == 'switch':
        text = '%s %s cases (v in [%s]):' % ('switch', '(%s)' % var, ', '.join(map(repr, values)))
        # One body for all the values, with tables.
        return None if bodies[0] is None else [text] + ['    ' + l for l in bodies[0]]
    out = []
    for i, (v, body) in enumerate(zip(values, bodies)):
        last = i == len(values) - 1
        if i and last and style != 'elif':
            out.append('else:')
        else:
            out.append('%s (%s == %r):' % ('elif' if i else 'if', var, v))
        out += ['    ' + l for l in body]
    return out

def program(chain, emission, style, n):
    (values, init, trans) = CHAINS[chain]
    em = EMISSIONS[emission]
    em = em[:len(values)] if em else None
    def emit(t, v=None):
        return [] if em is None else ['X[%s] ~= %s' % (t, emission_text(em[values.index(v)]))]
    out = ['Z = array(%d)' % n] + (['X = array(%d)' % n] if em else [])
    out += ['Z[0] ~= ' + dist_text(values, init)]
    if em:
        out += branch('Z[0]', values, [emit(0, v) for v in values], 'else')
    if n > 1:
        out += ['for t in range(1, %d):' % n]
        if style == 'switch':
            # A table of programs is not an expression: one branch per value.
            body = ['switch (Z[t-1]) cases (v in [%s]):' % ', '.join(map(repr, values))]
            body += ['    Z[t] ~= %s({%s}[v])' % ('choice' if isinstance(values[0], str) else 'discrete',
                ', '.join('%r: {%s}' % (v, ', '.join('%r: %r' % t for t in zip(values, row) if t[1]))
                    for v, row in zip(values, trans)))]
        else:
            bodies = [['Z[t] ~= ' + dist_text(values, row)] for row in trans]
            if style == 'once' and em:
                # The observation of the previous state, in the same branch.
                bodies = [b + ['X[t] ~= ' + emission_text(em[i])] for i, b in enumerate(bodies)]
            body = branch('Z[t-1]', values, bodies, style)
        if em and style != 'once':
            body += branch('Z[t]', values, [emit('t', v) for v in values], 'elif' if style == 'elif' else 'else')
        if style == 'twice':
            body += ['%s[t] ~= 2*Z[t] + 1' % 'W'] if not isinstance(values[0], str) else []
        out += ['    ' + l for l in body]
        if style == 'twice' and not isinstance(values[0], str):
            out = out[:1] + ['W = array(%d)' % n] + out[1:]
    return '\n'.join(out) + '\n'

# ------------------------------------------------------------------------------
# Reference: the forward recursion.

def phi(z):
    return .5 * math.erfc(-z / math.sqrt(2))

def emission_prob(e, lit):
    """lit: 'pos' (> 1/2), 'neg' (<= 1/2) or a point."""
    if lit in ('pos', 'neg'):
        p = 1 - phi(.5 - e[1]) if e[0] == 'norm' else 1 - math.exp(-e[1])
        return p if lit == 'pos' else 1 - p
    if e[0] == 'norm':
        return (1, math.exp(-(lit - e[1])**2 / 2) / math.sqrt(2 * math.pi))
    ok = lit == int(lit) and lit >= 0
    return (0, math.exp(-e[1]) * e[1]**int(lit) / math.factorial(int(lit)) if ok else 0.)

class Ref():
    def __init__(self, chain, emission, style, n):
        (self.values, self.init, self.trans) = CHAINS[chain]
        self.em = EMISSIONS[emission]
        self.style = style
        self.n = n
    def potentials(self, zs, xs, dens):
        """Weights of the states at each time, and the dimension of each."""
        out = []
        for t in range(self.n):
            def weight(prev, s, t=t):
                w = 1.
                if t in zs and self.values[s] not in zs[t]:
                    return 0.
                src = prev if self.style == 'once' and t else s
                for lit in xs.get(t, ()):
                    w *= emission_prob(self.em[src], lit)
                if t in dens:
                    w *= emission_prob(self.em[src], dens[t])[1]
                return w
            out.append(weight)
        return out
    def prob(self, zs, xs, dens=None):
        """P(Z[t] in zs[t], X[t] in xs[t]) x density of X[t] = dens[t]."""
        pots = self.potentials(zs, xs, dens or {})
        k = range(len(self.values))
        a = [self.init[s] * pots[0](None, s) for s in k]
        for t in range(1, self.n):
            a = [math.fsum(a[r] * self.trans[r][s] * pots[t](r, s) for r in k) for s in k]
        return math.fsum(a)
    def union(self, clauses, extra=None, dens=None):
        """P of a disjunction of clauses (zs, xs) with a conjunction."""
        total = []
        for m in range(1, len(clauses) + 1):
            for sub in combinations(clauses, m):
                (zs, xs, ok) = merge(list(sub) + ([extra] if extra else []))
                if ok:
                    total.append((-1)**(m+1) * self.prob(zs, xs, dens))
        return math.fsum(total)

def merge(clauses):
    (zs, xs) = ({}, {})
    for z, x in clauses:
        for t, vs in z.items():
            zs[t] = [v for v in zs.get(t, vs) if v in vs]
        for t, lits in x.items():
            xs[t] = sorted(set(xs.get(t, ())) | set(lits))
    ok = all(zs.values()) and not any({'pos', 'neg'} <= set(l) for l in xs.values())
    return (zs, xs, ok)

# ------------------------------------------------------------------------------
# Queries.

def literal(ns, t, kind, arg):
    if kind == 'z':
        return ns['Z'](t) << set(arg)
    return ns['X'](t) > .5 if arg == 'pos' else ns['X'](t) <= .5

def clause_event(ns, c):
    (zs, xs) = c
    lits = [literal(ns, t, 'z', vs) for t, vs in sorted(zs.items())] \
        + [literal(ns, t, 'x', l) for t, ls in sorted(xs.items()) for l in ls]
    return reduce(lambda a, b: a & b, lits)

def event(ns, clauses):
    return reduce(lambda a, b: a | b, [clause_event(ns, c) for c in clauses])

def events(values, n, obs):
    """name: clauses (disjunction of conjunctions)."""
    (u, v) = (values[0], values[-1])
    last = n - 1
    out = {
        'first': [({0: [u]}, {})], 'last': [({last: [v]}, {})],
        'ends': [({0: [v], last: [v]} if n > 1 else {0: [v]}, {})],
        'states': [({t: [u, v] if t % 2 else [v] for t in range(n)}, {})],
        'or': [({0: [v]}, {}), ({last: [v]}, {})],
        'or3': [({0: [u]}, {}), ({last: [v]}, {}), ({n // 2: [v]}, {})],
        'dnf': [({0: [u], last: [v]} if n > 1 else {0: [u]}, {}), ({n // 2: [u]}, {})],
    }
    never = ['never'] if isinstance(u, str) else [7]
    out.update({
        'never': [({last: never}, {})],
        'never-ends': [({0: [v], last: never} if n > 1 else {0: never}, {})],
        'never-or': [({last: never}, {}), ({0: [u], last: never} if n > 1 else {0: never}, {})],
        'seldom-or': [({last: never}, {}), ({0: [u]}, {})],
    })
    if obs:
        out.update({
            'x-last': [({}, {last: ['pos']})],
            'x-all': [({}, {t: ['pos'] if t % 3 else ['neg'] for t in range(n)})],
            'xz': [({0: [v]}, {last: ['neg']})],
            'x-or': [({}, {0: ['pos']}), ({}, {last: ['pos']})],
            'x-dnf': [({last: [u]}, {0: ['pos']}), ({0: [v]}, {last: ['neg']}), ({}, {n // 2: ['pos'], 0: ['neg']})],
        })
    return out

CONDITIONS = ['never', 'never-or', 'seldom-or', 'last', 'ends', 'states', 'or', 'x-last', 'x-all', 'x-or', 'xz']
PROBES = ['first', 'ends', 'x-all', 'or']

def constraints(n, emission):
    """name: values of X."""
    if emission == 'none':
        return {}
    x = {'norm': .25, 'pois': 2, 'equal': .25, 'kinds': 2}[emission]
    none = {'never': {n - 1: .5}, 'never-all': {**{t: x for t in range(n)}, n - 1: .5}} if emission == 'pois' else {}
    return {**none, 'all': {t: x for t in range(n)}, 'one': {n - 1: x}, 'some': {t: x for t in range(0, n, 2)}}

def close(a, b):
    return abs(a - b) <= TOL

# ------------------------------------------------------------------------------
# Models with shared parts, made without the compiler.  All have states Z[t]
# that are independent or a chain with the matching reference.

def Z(t):
    return Id('Z[%d]' % t)
def X_(t):
    return Id('X[%d]' % t)

def obs_leaf(t, e):
    return X_(t) >> (norm(loc=e[1]) if e[0] == 'norm' else poisson(mu=e[1]))

def dag(kind, chain, emission, n):
    """The chain, as a graph: the rest of the chain given the state is shared
    by the states before."""
    (values, init, trans) = CHAINS[chain]
    em = EMISSIONS[emission]
    def state(t, s):
        v = values[s]
        leaf = Z(t) >> (choice({v: 1}) if isinstance(v, str) else discrete({v: 1}))
        return leaf & obs_leaf(t, em[s]) if em else leaf
    rest = None       # rest[s]: model of the later steps given the state s.
    k = range(len(values))
    for t in reversed(range(n)):
        here = [state(t, s) for s in k]
        full = [here[s] if rest is None else here[s] & rest[s] for s in k]
        def mixture(ps):
            ps = [(p, m) for p, m in zip(ps, full) if p]
            return SumSPE([m for _, m in ps], [math.log(p) for p, _ in ps]) if len(ps) > 1 else ps[0][1]
        if t == 0:
            model = mixture(init)
        rest = [mixture(row) for row in trans] if kind == 'chain' else [mixture(trans[0])] * len(values)
    return model

# ------------------------------------------------------------------------------

def programs():
    out = []
    for chain, emission, style in product(CHAINS, EMISSIONS, STYLES):
        if style == 'once' and emission == 'none':
            continue
        if style == 'twice' and isinstance(CHAINS[chain][0][0], str):
            continue
        if chain in ('skew', 'same') and (style not in ('else', 'once') or emission not in ('none', 'norm')):
            continue
        if emission in ('equal', 'kinds') and style not in ('else', 'once', 'switch'):
            continue
        if chain == 'nums' and emission not in ('none', 'norm'):
            continue
        out.append((chain, emission, style))
    return out

def cases(tier):
    out = []
    for chain, emission, style in programs():
        out.append({'program': [chain, emission, style], 'tier': tier})
    for chain in ('two', 'three', 'nums'):
        for emission in ('none', 'norm', 'kinds'):
            out.append({'program': [chain, emission, 'dag'], 'tier': tier})
    return out

def names(ns):
    return {'Z': lambda t: ns['Z'][t], 'X': lambda t: ns['X'][t]}

def run_case(c, rec):
    (chain, emission, style) = c['program']
    (values, _, _) = CHAINS[chain]
    lengths = [1, 2, 3, SHORT, LONG] + ([4, 6, 8, 16] if c['tier'] == 'thorough' else [])
    base = {}       # Query: work at the short length.
    for n in lengths:
        label = '%s/%s/%s n=%d' % (chain, emission, style, n)
        key = 'C22|%s|%s|%s' % (chain, emission, style)
        ref = Ref(chain, emission, style, n)
        limit = lambda q: None if n <= SHORT else 60 + (base[q] if q in base else 10**5) * (FACTOR if n <= LONG else 2 * FACTOR)
        def run(q, f, outcome='ok'):
            """Runs f under the meter: ('ok', value), ('err', e) or None."""
            meter = Meter(limit(q))
            rec.step()
            rec.trace()
            rec.state('%s|%s' % (label, q))
            try:
                got = meter.run(lambda: attempt(f))
            except TooMuch:
                rec.fail(key + '|' + q, '%s: %s needs more than %d calls, and %d at n=%d'
                    % (label, q, limit(q), base.get(q, -1), SHORT))
                return None
            if n == SHORT:
                base[q] = meter.count
            if not rec.expect(got[0] == outcome, key + '|' + q, lambda: '%s: %s gave %r' % (label, q, got[1])):
                return None
            return got[1]
        def size(q, spe):
            k = nodes(spe)
            if n == SHORT:
                base['nodes:' + q] = k
            elif n > SHORT and 'nodes:' + q in base:
                most = base['nodes:' + q] * 2 * n // SHORT + 10
                rec.expect(k <= most, key + '|nodes|' + q, lambda: '%s: %s has %d nodes, and %d at n=%d'
                    % (label, q, k, base['nodes:' + q], SHORT))
        def same(q, got, want):
            if got is not None:
                rec.outcome('zero' if want == 0 else 'positive')
                rec.expect(close(float(got), want), key + '|' + q, lambda: '%s: %s is %r, expected %r' % (label, q, float(got), want))
        if style == 'dag':
            ns = {'Z': Z, 'X': X_}
            model = run('build', lambda: dag('chain', chain, emission, n))
        else:
            text = program(chain, emission, style, n)
            space = run('compile', lambda: SPPL_Compiler(text).execute_module())
            if space is not None:
                model = space.model
                ns = names({'Z': space.Z, 'X': getattr(space, 'X', None)})
            else:
                model = None
        if model is None:
            continue
        size('model', model)
        evs = events(values, n, emission != 'none')
        for q, clauses in evs.items():
            same(q, run('prob ' + q, lambda: model.prob(event(ns, clauses))), ref.union(clauses))
        run('sample', lambda: model.sample(3))
        if n > 1:
            (a, b) = (evs['first'], evs['last'])
            got = run('mutual information', lambda: model.mutual_information(event(ns, a), event(ns, b)))
            same('mutual information', got, mi(ref, a, b))
        for q in CONDITIONS:
            if q not in evs:
                continue
            z = ref.union(evs[q])
            if z <= 0:
                run('condition ' + q, lambda: model.condition(event(ns, evs[q])), 'err')
                continue
            post = run('condition ' + q, lambda: model.condition(event(ns, evs[q])))
            if post is None:
                continue
            size('condition ' + q, post)
            for p in PROBES:
                if p in evs:
                    joint = math.fsum(ref_joint(ref, evs[q], cl) for cl in signed_union(evs[p]))
                    same('%s given %s' % (p, q), run('prob %s given %s' % (p, q), lambda: post.prob(event(ns, evs[p]))), joint / z)
        for q, xs in constraints(n, emission).items():
            (want, live) = density(ref, xs)
            pdf = run('density ' + q, lambda: model.pdf({ns['X'](t): x for t, x in xs.items()}))
            if live:
                same('density ' + q, pdf, want)
            if pdf is not None and want <= 0 and live:
                run('constrain ' + q, lambda: model.constrain({ns['X'](t): x for t, x in xs.items()}), 'err')
            if pdf is None or want <= 0:
                continue
            post = run('constrain ' + q, lambda: model.constrain({ns['X'](t): x for t, x in xs.items()}))
            if post is None:
                continue
            size('constrain ' + q, post)
            for p in ('first', 'ends', 'or'):
                got = run('prob %s constrained %s' % (p, q), lambda: post.prob(event(ns, evs[p])))
                if live:
                    joint = math.fsum(s * ref.prob(zs, {}, xs) for s, (zs, _) in signed_union(evs[p]))
                    same('%s constrained %s' % (p, q), got, joint / want)
        if n <= SHORT:
            # On all paths, and in place: not part of the growth.
            shared = run('share', lambda: spe_cache_duplicate_subtrees(model, {}))
            if shared is not None:
                same('shared', run('prob of shared', lambda: shared.prob(event(ns, evs['ends']))), ref.union(evs['ends']))
    rec.sample({'program': c['program'], 'work at n=%d' % SHORT: {k: base[k] for k in sorted(base)[:6]}})

def signed_union(clauses):
    """Inclusion-exclusion: [(sign, conjunction)]."""
    out = []
    for m in range(1, len(clauses) + 1):
        for sub in combinations(clauses, m):
            (zs, xs, ok) = merge(sub)
            if ok:
                out.append(((-1)**(m+1), (zs, xs)))
    return out

def ref_joint(ref, clauses, signed):
    (s, c) = signed
    return s * ref.union(clauses, extra=c)

def mi(ref, a, b):
    (pa, pb) = (ref.union(a), ref.union(b))
    both = ref.union(a, extra=b[0])
    table = [(both, pa, pb), (pa - both, pa, 1 - pb), (pb - both, 1 - pa, pb), (1 - pa - pb + both, 1 - pa, 1 - pb)]
    return math.fsum(p * math.log(p / (x * y)) for p, x, y in table if p > 1e-14)

def density(ref, xs):
    """The density, and whether the components are all of one dimension."""
    dims = {e[0] for e in (ref.em or [])[:len(ref.values)]}
    return (ref.prob({}, {}, xs), len(dims) == 1)
