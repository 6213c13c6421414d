"""C14: ill-formed models are rejected, well-formed ones accepted
(all constructions over an alphabet of parts and weights, and all programs of
up to four statements of an alphabet, classified by an independent checker)."""

from fractions import Fraction
from itertools import product

from vlib import fastsym    # First: see there.
from vlib import dist, models, snap, tomodel, tosppl
from vlib.core import attempt
from vlib.models import (X, Y, Z, N, poly, norm, unif, pois, randint, choice, disc,
    atom, mix, prod, let, cond)
from sppl import distributions
from sppl.compilers.sppl_to_python import SPPL_Compiler
from sppl.spe import NominalLeaf, ProductSPE, SPE, SumSPE
from sppl.transforms import Id

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all constructions over an alphabet of parts and weights, and of all statement sequences up to a depth, on the real code against an independent well-formedness checker'
LEVEL_NOTE = 'Each construction is decided by an independent checker (weights by exact rational arithmetic, variables by a set computation over the statements); accepted models are inspected structurally and queried.'
BOUNDS = {
    'quick': 'weights: all lists of up to 4 multiples of 1/20 (mixtures, choice, discrete; floats and fractions) that sum to 19/20, 1 or 21/20 and lists with zero and negative entries; parts: all pairs and triples of 14; derived variables: 12 models x 6 names x 9 expressions; programs: all sequences of 4 statements (every well-formed prefix of length 3 extended by each of 31 statements, length 4 for every 4th prefix)',
    'thorough': 'the same with weights in multiples of 1/30 and all programs of 4 statements',
}
ASSUMPTIONS = ['weights that sum to one within 1e-8 are a probability distribution']

# ------------------------------------------------------------------------------
# Weights.

def partitions(total, n, low=1):
    if n == 1:
        return [(total,)] if total >= low else []
    return [(k,) + r for k in range(low, total - low * (n - 1) + 1) for r in partitions(total - k, n - 1, low)]

def weight_lists(tier):
    q = 20 if tier == 'quick' else 30
    out = []
    for total in (q - 1, q, q + 1):
        for n in (1, 2, 3, 4):
            ps = partitions(total, n)
            if n == 4 and total != q:
                ps = ps[::7]
            out += [(p, q) for p in ps]
    special = [-5, 0, 5, 10, 15, 20, 25]
    for n in (1, 2, 3):
        out += [(p, 20) for p in product(special, repeat=n) if min(p) <= 0 or max(p) >= 20]
    return out

def run_weights(c, rec):
    lists = weight_lists(c['tier'])[c['rows'][0]::c['rows'][1]]
    xsym = Id('X')
    for (ks, q) in lists:
        total = sum(ks) == q
        for num in ('float', 'fraction'):
            ws = [k / q if num == 'float' else Fraction(k, q) for k in ks]
            rec.state(('w', ks, q, num))
            table = total and min(ks) >= 0
            mixture = total and min(ks) > 0 and max(ks) < q
            builders = [
                ('choice', table, lambda: xsym >> distributions.choice({'abcd'[i]: w for i, w in enumerate(ws)})),
                ('NominalLeaf', table, lambda: NominalLeaf(xsym, {'abcd'[i]: w for i, w in enumerate(ws)})),
                ('discrete', table, lambda: xsym >> distributions.discrete({i: w for i, w in enumerate(ws)})),
                ('mixture of models', mixture, lambda: fold([w * (xsym >> distributions.norm(loc=i)) for i, w in enumerate(ws)])),
                ('mixture of distributions', mixture, lambda: xsym >> fold([w * distributions.norm(loc=i) for i, w in enumerate(ws)])),
            ]
            for (name, good, f) in builders:
                # A single sure component: w = 1 is neither promised nor excluded.
                if name.startswith('mixture') and len(ks) == 1 and total:
                    continue
                rec.step()
                judge(rec, 'weights|%s|%s|%s' % (name, num, ','.join('%d/%d' % (k, q) for k in ks)),
                    good, f, {'X'}, '%s with weights %s' % (name, ws),
                    wants=[k / q for k in ks] if name.startswith('mixture') else None)
                rec.trace()

def fold(parts):
    out = parts[0]
    for p in parts[1:]:
        out = out | p
    return out

def usable(m):
    """Is this a model (something that answers a query)?"""
    if not isinstance(m, SPE):
        return False
    got = attempt(lambda: m.sample(1))
    return got[0] == 'ok'

def judge(rec, key, good, f, syms, show, wants=None):
    key = key.replace(' ', '')
    got = attempt(f)
    accepted = got[0] == 'ok' and usable(got[1])
    rec.outcome('%s %s' % ('well-formed' if good else 'ill-formed' if good is False else 'unspecified', 'accepted' if accepted else 'rejected'))
    rec.sample({'construction': show, 'well-formed': good})
    if good and not accepted:
        rec.fail(key, '%s\nis well-formed, and is rejected: %r' % (show, got[1]))
    elif good is False and accepted:
        rec.fail(key, '%s\nis ill-formed, and is accepted: %s over %s' % (show, type(got[1]).__name__,
            sorted(map(str, got[1].get_symbols()))))
    elif accepted:
        bad = snap.ill_formed(got[1])
        have = set(map(str, got[1].get_symbols()))
        if bad:
            rec.fail(key, '%s\nyields an ill-formed model: %s' % (show, bad))
        elif syms is not None and have != set(syms):
            rec.fail(key, '%s\nis a model of %s, expected %s' % (show, sorted(have), sorted(syms)))
        elif wants is not None:
            import math
            ws = [math.exp(w) for w in got[1].weights]
            if len(ws) != len(wants) or any(abs(a - b) > 1e-9 for a, b in zip(ws, wants)):
                rec.fail(key, '%s\nhas weights %s' % (show, ws))
    return got[1] if accepted else None

# ------------------------------------------------------------------------------
# Mixtures and products of parts.

XSQ = poly(X, 0, 0, 1)
PARTS = {
    'X': norm('X'), 'Xa': atom('X', 1), 'Xd': pois('X'), 'Xm': mix([0.25, norm('X')], [0.75, unif('X', 0, 2)]),
    'Y': norm('Y'), 'N': choice('N', a='1/2', b='1/2'),
    'XY': prod(norm('X'), norm('Y')), 'YX': prod(norm('Y'), unif('X', 0, 1)),
    'XtoY': let(norm('X'), 'Y', XSQ), 'YtoX': let(norm('Y'), 'X', poly(Y, 0, 2)),
    'XN': prod(norm('X'), choice('N', a='1/4', b='3/4')),
    'XYm': mix([0.5, prod(norm('X'), norm('Y'))], [0.5, let(norm('X'), 'Y', XSQ)]),
    'XYc': cond(prod(norm('X'), norm('Y')), ['or', ['cmp', X, '>', 0], ['cmp', Y, '>', 0]]),
    'Z': randint('Z', 0, 3),
}

def run_parts(c, rec):
    names = list(PARTS)
    a = c['first']
    build = lambda k: tomodel.model(PARTS[k])
    syms = {k: dist.symbols(PARTS[k]) for k in names}
    for b in names:
        rec.state(('pair', a, b))
        rec.step(4)
        rec.trace(4)
        disjoint = not syms[a] & syms[b]
        same = syms[a] == syms[b]
        key = 'parts|%%s|%s|%s' % (a, b)
        judge(rec, key % '&', disjoint, lambda: build(a) & build(b), syms[a] | syms[b], '%s & %s' % (a, b))
        judge(rec, key % 'prod', disjoint, lambda: ProductSPE([build(a), build(b)]), syms[a] | syms[b], 'ProductSPE([%s, %s])' % (a, b))
        judge(rec, key % '|', same, lambda: .25 * build(a) | .75 * build(b), syms[a], '.25*%s | .75*%s' % (a, b))
        judge(rec, key % 'sum', same, lambda: SumSPE([build(a), build(b)], [tolog(.25), tolog(.75)]), syms[a], 'SumSPE([%s, %s])' % (a, b))
        for (ws, good) in [((.25, .25), False), ((.75, .75), False), ((.25,), False), ((.25, .25, .5), False)]:
            rec.step()
            rec.trace()
            judge(rec, key % ('sum%d' % (100 * sum(ws) + len(ws))), good,
                lambda: SumSPE([build(a), build(b)], [tolog(w) for w in ws]), syms[a], 'SumSPE([%s, %s], log %s)' % (a, b, ws))
        # Mixtures that are not complete are not models.
        part = attempt(lambda: .25 * build(a) | .5 * build(b))
        for (op, f) in [
                ('none', lambda: part[1]),
                ('&', lambda: part[1] & tomodel.model(norm('W'))),
                ('r&', lambda: tomodel.model(norm('W')) & part[1]),
                ('*', lambda: .5 * part[1] | .5 * build(a)),
                ('sum', lambda: SumSPE([part[1], build(a)], [tolog(.25), tolog(.75)])),
                ('prob', lambda: [build(a), part[1].prob(tosppl.event(['cmp', X, '>', 0]))][0]),
                ('condition', lambda: [build(a), part[1].condition(tosppl.event(['cmp', X, '>', 0]))][0])]:
            if part[0] == 'ok' and 'X' in syms[a]:
                rec.step()
                rec.trace()
                judge(rec, key % ('partial' + op), False, f, None, '(.25*%s | .5*%s) under %s' % (a, b, op))
        for d in names:
            rec.state(('triple', a, b, d))
            rec.step(2)
            rec.trace(2)
            good = disjoint and not (syms[a] | syms[b]) & syms[d]
            judge(rec, (key % '&&') + d, good, lambda: build(a) & build(b) & build(d), syms[a] | syms[b] | syms[d], '%s & %s & %s' % (a, b, d))
            good = same and syms[a] == syms[d]
            judge(rec, (key % '||') + d, good, lambda: .25 * build(a) | .5 * build(b) | .25 * build(d), syms[a], '.25*%s | .5*%s | .25*%s' % (a, b, d))

def tolog(w):
    import math
    return math.log(w)

# ------------------------------------------------------------------------------
# Derived variables and unknown variables.

def groups(spec):
    """The leaves of each component of a model: ([variables], numeric?)."""
    op = spec[0]
    if op == 'leaf':
        return [[({spec[1]}, spec[2][0] != 'choice')]]
    if op == 'prod':
        out = [[]]
        for m in spec[1:]:
            out = [a + b for a in out for b in groups(m)]
        return out
    if op == 'sum':
        return [g for (_, m) in spec[1] for g in groups(m)]
    if op == 'let':
        return [derive(g, spec[2], dist.ref.symbols_expr(spec[3])) for g in groups(spec[1])]
    return groups(spec[1])

def derive(gs, name, used):
    """The leaves after a derived variable; None if it cannot be defined."""
    if any(name in vs for vs, _ in gs):
        return None
    for i, (vs, real) in enumerate(gs):
        if used <= vs and real:
            return gs[:i] + [(vs | {name}, real)] + gs[i+1:]
    return None

EXPRS = {
    'X^2': XSQ, '|Y|': ['abs', Y], '2N': poly(N, 0, 2), '2Z': poly(Z, 0, 2), 'Q+1': poly(['id', 'Q'], 1, 1),
    'X>0': ['ind', ['cmp', X, '>', 0]],
    'X>0&Y>0': ['ind', ['and', ['cmp', X, '>', 0], ['cmp', Y, '>', 0]]],
    'N=a': ['ind', ['in', N, ['nom', ['a'], False]]],
    'pw': ['piece', [[poly(X, 0, 2), ['cmp', X, '<', 0]], [XSQ, ['cmp', X, '>=', 0]]]],
}

def run_lets(c, rec):
    spec = PARTS[c['part']]
    syms = dist.symbols(spec)
    for y in ['X', 'Y', 'Z', 'N', 'W', 'Q']:
        for name, e in EXPRS.items():
            rec.state((c['part'], y, name))
            rec.step()
            rec.trace()
            used = dist.ref.symbols_expr(e)
            good = all(derive(g, y, used) is not None for g in groups(spec))
            judge(rec, 'let|%s|%s|%s' % (c['part'], y, name), good,
                lambda: tomodel.model(spec).transform(Id(y), tosppl.expr(e)), syms | {y},
                '%s with %s = %s' % (c['part'], y, name))
    # Unknown variables in queries.
    model = tomodel.model(spec)
    known = sorted(syms)[0]
    kev = tosppl.event(['in', N, ['nom', ['a'], False]] if known == 'N' else ['cmp', ['id', known], '<', 2])
    uev = Id('Q') > 0
    for (name, f) in [
            ('prob', lambda: model.prob(uev)), ('prob&', lambda: model.prob(uev & kev)), ('prob|', lambda: model.prob(uev | kev)),
            ('condition', lambda: model.condition(uev)), ('condition&', lambda: model.condition(kev & uev)), ('condition|', lambda: model.condition(kev | uev)),
            ('constrain', lambda: model.constrain({Id('Q'): 1})),
            ('constrain2', lambda: model.constrain({Id('Q'): 1, Id(known): 'a' if known == 'N' else 1})),
            ('logpdf', lambda: model.logpdf({Id('Q'): 1})),
            ('logpdf2', lambda: model.logpdf({Id(known): 'a' if known == 'N' else 1, Id('Q'): 1})),
            ('sample_subset', lambda: model.sample_subset({Id('Q')}, 1)),
            ('sample_subset2', lambda: model.sample_subset({Id('Q'), Id(known)}, 1)),
            ('mutual_information', lambda: model.mutual_information(kev, uev))]:
        rec.state((c['part'], name))
        rec.step()
        rec.trace()
        got = attempt(f)
        rec.outcome('unknown variable %s' % (got[0],))
        rec.expect(got[0] == 'err', 'unknown|%s|%s' % (c['part'], name),
            lambda: '%s with an unknown variable Q of model %s returns %r' % (name, c['part'], got[1]))

# ------------------------------------------------------------------------------
# Atoms.

def run_atoms(c, rec):
    """Discrete models have the outcomes that were asked for, or are rejected."""
    vals = [0, 1, 2, .5, 1.5, -1, -.5]
    for n in (1, 2, 3):
        for xs in product(vals, repeat=n):
            if len(set(xs)) != n:
                continue
            rec.state(('atoms', xs))
            builders = [
                ('discrete', lambda: Id('X') >> distributions.discrete({x: 1 / n for x in xs})),
                ('uniformd', lambda: Id('X') >> distributions.uniformd(values=list(xs)))]
            if n == 1:
                builders.append(('atomic', lambda: Id('X') >> distributions.atomic(loc=xs[0])))
            for (name, f) in builders:
                rec.step()
                rec.trace()
                got = attempt(f)
                whole = all(float(x).is_integer() for x in xs)
                key = ('atoms|%s|%s' % (name, list(xs))).replace(' ', '')
                if got[0] == 'err':
                    rec.outcome('atoms rejected')
                    rec.expect(not whole, key, lambda: '%s of %s is rejected: %r' % (name, xs, got[1]))
                    continue
                rec.outcome('atoms accepted')
                ps = [attempt(lambda: float(got[1].prob(Id('X') << {x}))) for x in xs]
                rec.expect(all(p[0] == 'ok' and abs(p[1] - 1 / n) < 1e-9 for p in ps), key,
                    lambda: '%s of %s is accepted, with probabilities %s' % (name, xs, [p[1] for p in ps]))

    # Locations: shifted outcomes, or a rejection.
    for loc in (0, 2, -3, .5, -.5, '1/2'):
        v = float(Fraction(loc))
        for (name, kw, lo) in [('poisson', {'mu': 2}, 0), ('binom', {'n': 2, 'p': .5}, 0), ('geom', {'p': .5}, 1),
                ('bernoulli', {'p': .5}, 0), ('dlaplace', {'a': .8}, 0), ('skellam', {'mu1': 1, 'mu2': 2}, 0), ('randint', {'low': 0, 'high': 3}, 0)]:
            rec.state(('loc', name, loc))
            rec.step()
            rec.trace()
            key = 'loc|%s|%s' % (name, loc)
            dist_ = getattr(distributions, name)
            arg = Fraction(loc) if isinstance(loc, str) else loc
            zero = float((Id('X') >> dist_(**kw)).prob(Id('X') << {lo}))
            got = attempt(lambda: Id('X') >> dist_(loc=arg, **kw))
            if got[0] == 'err':
                rec.outcome('location rejected')
                rec.expect(not v.is_integer(), key, lambda: '%s with location %s is rejected: %r' % (name, loc, got[1]))
                continue
            p = attempt(lambda: float(got[1].prob(Id('X') << {lo + arg})))
            rec.outcome('location accepted')
            rec.expect(p[0] == 'ok' and abs(p[1] - zero) < 1e-9, key,
                lambda: '%s with location %s is accepted, with probability %r of its outcome %s, expected %r' % (name, loc, p[1], lo + v, zero))
    for (lo, hi) in product([0, 1, .5, -1.5], [3, 4, 2.5, 3.5]):
        rec.state(('range', lo, hi))
        rec.step()
        rec.trace()
        got = attempt(lambda: Id('X') >> distributions.randint(low=lo, high=hi))
        whole = float(lo).is_integer() and float(hi).is_integer()
        rec.outcome('range %s' % (got[0],))
        rec.expect((got[0] == 'ok') == whole, 'range|%s|%s' % (lo, hi), lambda: 'randint from %s to %s: %r' % (lo, hi, got[1]))

# ------------------------------------------------------------------------------
# Programs.

S_DEF = [
    ('X', 'X ~= norm()'), ('Y', 'Y ~= norm(loc=1)'),
    ('Y2X', 'Y ~= 2*X'), ('Z', 'Z ~= Y**2 + 1'), ('ZXY', 'Z ~= X * Y'), ('Zev', 'Z ~= (X > 0) & (Y > 0)'),
    ('N', "N ~= choice({'a': .5, 'b': .5})"), ('Z2N', 'Z ~= 2*N'),
    ('condX', 'condition(X > 0)'), ('condZ', 'condition(Z > 0)'), ('constrX', 'constrain({X: 1})'),
    ('ifY', 'if X > 0:\n    Y ~= norm()\nelse:\n    Y ~= 2*X'),
    ('ifYZ', 'if X > 0:\n    Y ~= norm()\nelse:\n    Z ~= norm()'),
    ('ifnoelse', 'if X > 0:\n    Y ~= norm()'),
    ('ifcomplete', 'if X > 0:\n    Y ~= norm()\nelif X < 0:\n    Y ~= uniform()'),
    ('ifincomplete', 'if X > 0:\n    Y ~= norm()\nelif X < -1:\n    Y ~= uniform()'),
    ('ifboth', 'if X > 0:\n    Y ~= norm()\n    Z ~= 3*X\nelse:\n    Z ~= norm()\n    Y ~= Z'),
    ('ifmore', 'if X > 0:\n    Y ~= norm()\n    Z ~= norm()\nelse:\n    Y ~= norm()'),
    ('ifless', 'if X > 0:\n    Y ~= norm()\nelse:\n    Y ~= norm()\n    Z ~= norm()'),
    ('ifexp', 'Y ~= norm() if X > 0 else uniform()'),
    ('A', 'A = array(2)'), ('A0', 'A[0] ~= norm()'), ('A1', 'A[1] ~= 2*A[0]'), ('A2', 'A[2] ~= norm()'),
    ('forA', 'for i in range(2):\n    A[i] ~= norm()'), ('forW', 'for i in range(2):\n    W ~= norm()'),
    ('const', 'k = 3'), ('weights', 'Y ~= .5*norm() | .4*norm()'),
    ('switch', "switch (N) cases (i in ['a', 'b']):\n    Y ~= norm()"),
    ('switchpart', "switch (N) cases (i in ['a']):\n    Y ~= norm()"),
    ('unknown', 'Y ~= foo()'),
]
STATEMENTS = dict(S_DEF)

class Bad(Exception):
    """The program is ill-formed."""

class Unspecified(Exception):
    """Depends on a branch that is never taken."""

class State():
    def __init__(self):
        self.comps = None           # [[({variables}, numeric?)]] or None
        self.pos = False            # X > 0 surely.
        self.array = False
        self.sampled = False        # A distribution was mentioned.
        self.declared = set()
    def copy(self):
        s = State()
        s.comps = self.comps and [list(g) for g in self.comps]
        (s.pos, s.array, s.sampled, s.declared) = (self.pos, self.array, self.sampled, set(self.declared))
        return s
    def has(self, *vs):
        if self.comps is None:
            raise Bad()
        known = {v for vs_, _ in self.comps[0] for v in vs_}
        if not set(vs) <= known:
            raise Bad()
    def fresh(self, v):
        if self.comps is not None and any(v in vs for vs, _ in self.comps[0]):
            raise Bad()
    def sample(self, v, real=True):
        self.fresh(v)
        self.comps = [g + [({v}, real)] for g in (self.comps or [[]])]
    def derive(self, v, *used):
        self.has(*used)
        self.fresh(v)
        out = [derive(g, v, set(used)) for g in self.comps]
        if None in out:
            raise Bad()
        self.comps = out
    def branch(self, dead, first, second):
        """Two branches; the second one is dead if it has probability zero."""
        (a, b) = (self.copy(), self.copy())
        first(a)
        if dead:
            self.comps = a.comps
            return
        second(b)
        sa = {v for vs, _ in a.comps[0] for v in vs}
        sb = {v for vs, _ in b.comps[0] for v in vs}
        if sa != sb:
            raise Bad()
        self.comps = a.comps + b.comps

def advance(state, name):
    """The state after a statement; raises Bad if it is ill-formed."""
    s = state.copy()
    if name == 'X':
        s.sample('X')
    elif name == 'Y':
        s.sample('Y')
    elif name == 'Y2X':
        s.derive('Y', 'X')
    elif name == 'Z':
        s.derive('Z', 'Y')
    elif name == 'ZXY':
        raise Bad()
    elif name == 'Zev':
        s.derive('Z', 'X', 'Y')
    elif name == 'N':
        s.sample('N', False)
    elif name == 'Z2N':
        s.derive('Z', 'N')
    elif name == 'condX':
        s.has('X')
        s.pos = True
    elif name == 'condZ':
        s.has('Z')
    elif name == 'constrX':
        s.has('X')
        s.pos = True
    elif name in ('ifY', 'ifexp'):
        s.has('X')
        s.branch(s.pos, lambda a: a.sample('Y'), lambda b: b.derive('Y', 'X') if name == 'ifY' else b.sample('Y'))
    elif name == 'ifYZ':
        if 'Z' in s.declared and s.pos:
            raise Unspecified()
        raise Bad()
    elif name == 'ifnoelse':
        raise Bad()
    elif name == 'ifcomplete':
        s.has('X')
        s.branch(s.pos, lambda a: a.sample('Y'), lambda b: b.sample('Y'))
    elif name == 'ifincomplete':
        s.has('X')
        if not s.pos:
            raise Bad()
        s.sample('Y')
    elif name == 'ifboth':
        s.has('X')
        def one(a):
            a.sample('Y')
            a.derive('Z', 'X')
        def two(b):
            b.sample('Z')
            b.derive('Y', 'Z')
        s.branch(s.pos, one, two)
    elif name in ('ifmore', 'ifless'):
        if s.pos:
            raise Unspecified()
        raise Bad()
    elif name == 'A':
        if s.array:
            raise Bad()
        s.array = True
    elif name in ('A0', 'A1', 'A2', 'forA'):
        if not s.array:
            raise Bad()
        if name == 'A0':
            s.sample('A[0]')
        elif name == 'A1':
            s.derive('A[1]', 'A[0]')
        elif name == 'A2':
            raise Bad()
        else:
            s.sample('A[0]')
            s.sample('A[1]')
    elif name == 'const':
        if s.sampled:
            raise Bad()
    elif name == 'switch':
        s.has('N')
        s.branch(False, lambda a: a.sample('Y'), lambda b: b.sample('Y'))
    else:
        raise Bad()
    if name not in ('const', 'A', 'condX', 'condZ', 'constrX'):
        s.sampled = True
    s.declared |= {v for v in 'XYZ' if v in name or (v == 'Y' and name.startswith(('if', 'switch')))} \
        | ({'Z'} if name == 'ifboth' else set())
    return s

def prefixes(depth):
    """All well-formed statement sequences of up to a length."""
    out = [((), State())]
    level = out
    for _ in range(depth):
        nxt = []
        for (names, s) in level:
            for name in STATEMENTS:
                try:
                    nxt.append((names + (name,), advance(s, name)))
                except (Bad, Unspecified):
                    pass
        out = out + nxt
        level = nxt
    return out

def run_programs(c, rec):
    pres = prefixes(3)
    pres = [p for p in pres if len(p[0]) < 3] + [p for p in pres if len(p[0]) == 3][::4 if c['tier'] == 'quick' else 1]
    for (names, state) in pres[c['rows'][0]::c['rows'][1]]:
        for name in STATEMENTS:
            try:
                end = advance(state, name)
                good = True
            except Bad:
                good = False
            except Unspecified:
                good = None
            seq = names + (name,)
            source = '\n'.join(STATEMENTS[n] for n in seq)
            syms = None
            if good:
                if end.comps is None:
                    continue    # No model yet.
                syms = {v for vs, _ in end.comps[0] for v in vs}
            rec.state(seq)
            rec.step()
            rec.trace()
            judge(rec, 'program|' + ';'.join(seq), good, lambda: SPPL_Compiler(source).execute_module().model,
                syms, 'program\n' + source)

# ------------------------------------------------------------------------------
# Models returned by queries.

def run_closure(c, rec):
    spec = models.ALL[c['model']]
    spe = tomodel.model(spec)
    evs = list(models.events1(models.literals(spec, 4)))
    lits = models.literals(spec, 3)
    evs += [['or', a, b] for a in lits for b in lits if a != b]
    todo = [((), spe)]
    for i, ev in enumerate(evs):
        got = attempt(lambda: spe.condition(tosppl.event(ev)))
        if got[0] == 'ok':
            todo.append(((ev,), got[1]))
    for v in sorted(dist.symbols(spec)):
        for x in ([0, 1, .5] if v not in 'NM' else ['a', 'b']):
            got = attempt(lambda: spe.constrain({Id(v): x}))
            if got[0] == 'ok':
                todo.append((('constrain', v, x), got[1]))
    for (hist, m) in todo:
        rec.state((c['model'], hist))
        rec.step()
        rec.trace()
        bad = snap.ill_formed(m)
        rec.outcome('returned model')
        rec.expect(not bad, ('closure|%s|%r' % (c['model'], hist)).replace(' ', ''),
            lambda: 'model %s under %s is ill-formed: %s' % (c['model'], hist, bad))
        rec.expect(set(map(str, m.get_symbols())) == dist.symbols(spec), ('closure|%s|%r|vars' % (c['model'], hist)).replace(' ', ''),
            lambda: 'model %s under %s is a model of %s' % (c['model'], hist, m.get_symbols()))

def cases(tier):
    out = [{'kind': 'weights', 'tier': tier, 'rows': [i, 16]} for i in range(16)]
    out += [{'kind': 'parts', 'first': a} for a in PARTS]
    out += [{'kind': 'lets', 'part': a} for a in PARTS]
    out += [{'kind': 'atoms'}]
    out += [{'kind': 'programs', 'tier': tier, 'rows': [i, 64]} for i in range(64)]
    out += [{'kind': 'closure', 'model': m} for m in models.ALL]
    return out

def run_case(c, rec):
    globals()['run_' + c['kind']](c, rec)
