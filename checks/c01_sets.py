"""C01: the set algebra is exact (explicit-state model of cell bitmasks)."""

from itertools import product

import sympy

from sppl import sets as S
from sppl.sets import EmptySet, FiniteNominal, FiniteReal, Interval, Range
from sppl.sets import make_intersection, make_union, Union

from vlib.core import attempt

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of set-operation sequences on the real code against a membership model'
LEVEL_NOTE = 'Exhaustive within the stated alphabet of end points and strings: every ordered pair of sets and every operation, and compositions up to the stated depth, compared point by point with a membership model, and with the normalised set of the same points. Says nothing about end points outside the alphabet beyond their order type.'
BOUNDS = {
    'quick': 'real sets over 3 integer breakpoints and +-inf (all 512 states, '
        'all ordered pairs, | and &, all complements) and over 2 breakpoints with '
        'mixed numeric types; bounded sets over 5 breakpoints (512 states, all '
        'pairs) and over 6 (2048 states x 66 intervals and points); mixed '
        'real/nominal sets over 1 breakpoint, and bounded ones over 3, x 2 '
        'strings (256 states each, all pairs); pairs of intervals whose ends are '
        'one number spelt differently',
    'thorough': 'as quick in 5 numeric alphabets, mixed sets over 2 '
        'breakpoints x 2 strings (1024 states, all pairs), and all triples of '
        'the 128-state algebra for the n-ary constructors',
}
ASSUMPTIONS = [
    'membership at one or more probes per cell decides a set, because sets '
    'over k breakpoints are unions of cells',
    'complement is relative to the kind of its operand (finite reals, or '
    'strings); complements of mixed sets are outside the property',
]
inf = float('inf')
R = sympy.Rational

# Breakpoints; every breakpoint has several spellings of the same number.
ALPHABETS = {
    'int': [[0], [1], [2]],
    'mix': [[-2, -2.0, sympy.Integer(-2)], [-1, -1.0], [R(1, 2), 0.5]],
    'flt': [[-0.5], [1e-3], [1e6]],
    'sym': [[-sympy.sqrt(2)], [sympy.log(2)], [sympy.pi]],
    'adj': [[-1], [0, 0.0, -0.0, sympy.Integer(0)], [1e-9]],
    'mix2': [[-1, -1.0, sympy.Integer(-1)], [R(1, 2), 0.5]],
    'one': [[0]],
    'two': [[-1], [2]],
    'three': [[-1], [R(1, 2), 0.5], [2]],
    'five': [[-2], [-1, -1.0], [0], [R(1, 2), 0.5], [3]],
    'six': [[-2], [-1, -1.0], [0], [R(1, 2), 0.5], [3], [7]],
}
QUICK = ['int', 'mix2']
NOMS = ['a', 'b', 'other']   # 'other' stands for every other string.


def n_cells(points):
    return 2 * len(points) + 3

def cells(points):
    # -inf, (-inf,p0), {p0}, (p0,p1), ..., {pk}, (pk,inf), inf
    out = [('pt', [-inf])]
    for i, p in enumerate(points):
        lo = points[i-1] if i else [-inf]
        out.append(('iv', lo, p))
        out.append(('pt', p))
    out.append(('iv', points[-1], [inf]))
    out.append(('pt', [inf]))
    return out

def probes(cell):
    if cell[0] == 'pt':
        return cell[1]
    (a, b) = (cell[1][0], cell[2][0])
    if a == -inf and b == inf:
        return [0]
    if a == -inf:
        return [b - 1e-10, b - 1, -1e300]
    if b == inf:
        return [a + 1e-10, a + 1, 1e300]
    w = b - a
    return [a + w*1e-4, (a + b)/2, b - w*1e-4]


class Alg():
    """The model: a state is (bitmask of real cells, nominal bitmask)."""

    def __init__(self, points):
        self.points = points
        self.cells = cells(points)
        self.n = len(self.cells)
        self.full = (1 << self.n) - 1
        self.fin = self.full & ~1 & ~(1 << (self.n - 1))
        self.probes = [probes(c) for c in self.cells]
        self.turn = 0

    def spell(self, p):
        self.turn += 1
        return p[self.turn % len(p)]

    def runs(self, mask):
        """Maximal runs of adjacent cells, finite part."""
        out, cur = [], []
        for i in range(1, self.n - 1):
            if mask >> i & 1:
                cur.append(i)
            elif cur:
                out.append(cur)
                cur = []
        if cur:
            out.append(cur)
        return out

    def run_to_set(self, run):
        (first, last) = (self.cells[run[0]], self.cells[run[-1]])
        if first[0] == 'pt' and len(run) == 1:
            return FiniteReal(self.spell(first[1]))
        (a, lo) = (first[1], False) if first[0] == 'pt' else (first[1], True)
        (b, ro) = (last[1], False) if last[0] == 'pt' else (last[2], True)
        return Interval(self.spell(a), self.spell(b), left_open=lo, right_open=ro)

    def build_nominal(self, nom):
        names = [NOMS[i] for i in range(2) if nom >> i & 1]
        if nom >> 2 & 1:
            return FiniteNominal(*[x for x in NOMS[:2] if x not in names], b=True)
        return FiniteNominal(*names) if names else None

    def build(self, state, style):
        """Build the state on the real code, by one of several histories."""
        (mask, nom) = state
        parts = []
        infs = [x for x, i in [(-inf, 0), (inf, self.n-1)] if mask >> i & 1]
        if infs:
            parts.append(FiniteReal(*infs))
        nominal = self.build_nominal(nom)
        if style == 0:      # Maximal runs, left to right.
            parts += [self.run_to_set(r) for r in self.runs(mask)]
            parts += [nominal] if nominal is not None else []
        elif style == 1:    # One cell at a time, right to left.
            parts = ([nominal] if nominal is not None else []) + parts
            cs = [i for i in range(self.n - 2, 0, -1) if mask >> i & 1]
            parts += [self.run_to_set([i]) for i in cs]
        elif style == 2:    # Points first, all at once; then open intervals.
            pts = [self.spell(self.cells[i][1]) for i in range(1, self.n-1)
                if mask >> i & 1 and self.cells[i][0] == 'pt']
            ivs = [i for i in range(1, self.n - 1)
                if mask >> i & 1 and self.cells[i][0] == 'iv']
            ivs = ivs[1::2] + ivs[::2]
            parts += [FiniteReal(*pts)] if pts else []
            parts += [nominal] if nominal is not None else []
            parts += [self.run_to_set([i]) for i in ivs]
        elif style == 3:    # Intersection of the complements of the gaps.
            assert not infs and nominal is None
            gaps = self.runs(self.fin & ~mask)
            out = Interval(-inf, inf)
            for g in gaps:
                out = out & ~self.run_to_set(g)
            return out
        if not parts:
            return EmptySet
        out = parts[0]
        for p in parts[1:]:
            out = out | p
        return out

    def read(self, x):
        """Extension of a real-code set; None for a cell that is split."""
        mask = 0
        for i, ps in enumerate(self.probes):
            got = [bool(p in x) for p in ps]
            if all(got):
                mask |= 1 << i
            elif any(got):
                return ('split', i, got)
        nom = 0
        for i, s in enumerate(NOMS):
            if s in x:
                nom |= 1 << i
        return (mask, nom)


def cases(tier):
    out = []
    names = QUICK if tier == 'quick' else ['int', 'mix2', 'mix', 'flt', 'sym', 'adj']
    out.append({'kind': 'range'})
    out.append({'kind': 'spelt'})
    for a in names:
        n = 1 << n_cells(ALPHABETS[a])
        out.append({'kind': 'build', 'alpha': a})
        step = 16
        for lo in range(0, n, step):
            out.append({'kind': 'pairs', 'alpha': a, 'lo': lo, 'hi': lo + step,
                'nom': False})
    mixed = 'one' if tier == 'quick' else 'two'
    n = 8 << n_cells(ALPHABETS[mixed])
    step = 8 if tier == 'quick' else 16
    for lo in range(0, n, step):
        out.append({'kind': 'pairs', 'alpha': mixed, 'lo': lo, 'hi': lo + step,
            'nom': True})
    # Bounded sets, over more breakpoints.
    for lo in range(0, 512, 16):
        out.append({'kind': 'pairs', 'alpha': 'five', 'lo': lo, 'hi': lo + 16,
            'nom': False, 'bounded': True})
    for lo in range(0, 256, 8):
        out.append({'kind': 'pairs', 'alpha': 'three', 'lo': lo, 'hi': lo + 8,
            'nom': True, 'bounded': True})
    for lo in range(0, 2048, 64):
        out.append({'kind': 'pairs', 'alpha': 'six', 'lo': lo, 'hi': lo + 64,
            'nom': False, 'bounded': True, 'single': True})
    if tier == 'thorough':
        n = 1 << n_cells(ALPHABETS['two'])
        for lo in range(n):
            out.append({'kind': 'triples', 'alpha': 'two', 'lo': lo})
    return out

def complement(state, alg):
    """Model of ~, or None where it is outside the property."""
    (mask, nom) = state
    if mask and nom:
        return None
    if mask:
        return (alg.fin & ~mask, 0)
    if nom:
        return (0, 7 & ~nom)
    return (alg.fin, 0)       # Convention of the library: ~EmptySet is Reals.

def show(x):
    return '%r' % (x,)

def compare(rec, alg, what, got, want):
    """got: attempt() of a set-valued operation; want: model state."""
    rec.step()
    rec.trace()
    if got[0] == 'err':
        return rec.fail(what, '%s raised %r' % (what, got[1]))
    read = attempt(alg.read, got[1])
    if read[0] == 'err':
        return rec.fail(what, '%s = %r: membership raised %r' % (what, got[1], read[1]))
    if not rec.expect(read[1] == want, what, lambda: '%s = %r\n  contains %r'
            '\n  expected %r (bits: cells in increasing order, nominal bits)'
            % (what, got[1], read[1], want)):
        return None
    if (got[1] is EmptySet) != (want == (0, 0)):
        rec.fail(what, '%s = %r: emptiness not represented by EmptySet' % (what, got[1]))
    bad = attempt(abnormal, alg, got[1])
    if bad != ('ok', None):
        rec.fail(what, '%s = %r: %s' % (what, got[1], bad[1]))
    return None

def abnormal(alg, x):
    """Why the pieces of a union are not disjoint and maximal, or None."""
    if x is EmptySet:
        return None
    pieces = list(x) if isinstance(x, Union) else [x]
    finite = [p for p in pieces if isinstance(p, FiniteReal)]
    nominal = [p for p in pieces if isinstance(p, FiniteNominal)]
    if len(finite) > 1 or len(nominal) > 1 or any(
            not isinstance(p, (FiniteReal, FiniteNominal, Interval)) for p in pieces):
        return 'unexpected pieces'
    owner = {}
    for k, piece in enumerate(pieces):
        (mask, nom) = alg.read(piece)
        if not mask and not nom:
            return 'piece %r is empty' % (piece,)
        for i in range(alg.n):
            if mask >> i & 1:
                if i in owner:
                    return 'pieces overlap'
                owner[i] = k
    for i in range(1, alg.n - 2):
        if owner.get(i, -1) != owner.get(i + 1, -1) and i in owner and i + 1 in owner:
            return 'pieces %r and %r could be merged' % (
                pieces[owner[i]], pieces[owner[i+1]])
    return None

def run_case(c, rec):
    if c['kind'] == 'range':
        return run_range(rec)
    if c['kind'] == 'spelt':
        return run_spelt(rec)
    alg = Alg(ALPHABETS[c['alpha']])
    if c['kind'] == 'build':
        return run_build(alg, c, rec)
    if c['kind'] == 'triples':
        return run_triples(alg, c, rec)
    # Bounded sets contain no infinite point and no unbounded interval.
    (bits, shift) = (alg.n - 4, 2) if c.get('bounded') else (alg.n, 0)
    nstates = (8 << bits) if c['nom'] else (1 << bits)
    styles = (0, 1) if not c['nom'] else (0, 2)
    def decode(i):
        return (i >> 3 << shift, i & 7) if c['nom'] else (i << shift, 0)
    states = [decode(j) for j in range(nstates)]
    partners = [st for st in states
        if not c.get('single') or len(alg.runs(st[0])) == 1]
    right = [alg.build(st, styles[1]) for st in partners]
    right_repr = [repr(b) for b in right]
    # Normalised sets; equality with these decides normal form of a result.
    canon = {}
    for st in states:
        canon[st] = alg.build(st, styles[0])
    for i in range(c['lo'], c['hi']):
        sa = decode(i)
        a = alg.build(sa, styles[0])
        ra = repr(a)
        rec.state((c['alpha'], sa))
        compare(rec, alg, '%r' % (a,), ('ok', a), sa)
        sc = complement(sa, alg)
        if sc is not None:
            compare(rec, alg, '~(%r)' % (a,), attempt(lambda: ~a), sc)
        for (sb, b) in zip(partners, right):
            union = (sa[0] | sb[0], sa[1] | sb[1])
            inter = (sa[0] & sb[0], sa[1] & sb[1])
            try:
                (u, v) = (a | b, a & b)
                (ru, rv) = (alg.read(u), alg.read(v))
                same = a == b
                good = ru == union and rv == inter \
                    and u == canon[union] and v == canon[inter] \
                    and hash(u) == hash(canon[union]) \
                    and hash(v) == hash(canon[inter]) \
                    and (u is EmptySet) == (union == (0, 0)) \
                    and (v is EmptySet) == (inter == (0, 0))
                rec.step(2)
                rec.trace(2)
            except Exception:          # pylint: disable=broad-except
                good = False
            if not good:
                compare(rec, alg, '(%r) | (%r)' % (a, b), attempt(lambda: a | b), union)
                compare(rec, alg, '(%r) & (%r)' % (a, b), attempt(lambda: a & b), inter)
                for (x, st) in [(attempt(lambda: a | b), union), (attempt(lambda: a & b), inter)]:
                    if x[0] == 'ok' and not (x[1] == canon[st] and hash(x[1]) == hash(canon[st])):
                        rec.fail('eq:%r %r' % (a, b), '%r and %r have the same points, '
                            'but are not equal or have different hashes' % (x[1], canon[st]))
                if len(rec.viol) >= rec.MAX_VIOL:
                    return None
        if repr(a) != ra:
            rec.fail('mutation:' + ra, 'set %s was mutated to %r' % (ra, a))
    for b, rb in zip(right, right_repr):
        if repr(b) != rb:
            rec.fail('mutation:' + rb, 'set %s was mutated to %r' % (rb, b))
    rec.outcome('algebra:%s' % (c['alpha'],))
    return None

def run_build(alg, c, rec):
    """Every history that builds a state builds the same set."""
    for mask in range(1 << alg.n):
        rec.state((c['alpha'], (mask, 0)))
        styles = [0, 1, 2] + ([3] if not mask & ~alg.fin else [])
        for k in styles:
            got = attempt(alg.build, (mask, 0), k)
            compare(rec, alg, 'build style %d of %s: %s' % (k, bin(mask),
                repr(got[1])), got, (mask, 0))
    # n-ary constructors agree with the binary operators.
    atoms = [alg.run_to_set([i]) for i in range(1, alg.n-1)]
    for k in range(1, 4):
        for combo in product(range(len(atoms)), repeat=k):
            xs = [atoms[i] for i in combo]
            want = 0
            for i in combo:
                want |= 2 << i
            compare(rec, alg, 'make_union(*%r)' % (xs,),
                attempt(make_union, *xs), (want, 0))
            want = 2 << combo[0]
            for i in combo:
                want &= 2 << i
            compare(rec, alg, 'make_intersection(*%r)' % (xs,),
                attempt(make_intersection, *xs), (want, 0))
            negs = [~x for x in xs]
            want = alg.fin
            for i in combo:
                want &= ~(2 << i)
            compare(rec, alg, 'make_intersection(*%r)' % (negs,),
                attempt(make_intersection, *negs), (want, 0))
            negs = negs[:-1] + [xs[-1]]
            want = 2 << combo[-1]
            for i in combo[:-1]:
                want |= alg.fin & ~(2 << i)
            compare(rec, alg, 'make_union(*%r)' % (negs,),
                attempt(make_union, *negs), (want, 0))

def run_triples(alg, c, rec):
    n = 1 << alg.n
    xs = [alg.build((m, 0), m % 3) for m in range(n)]
    a = xs[c['lo']]
    for j in range(n):
        for k in range(n):
            got = attempt(lambda: (a | xs[j]) & xs[k])
            want = (c['lo'] | j) & k
            if got[0] == 'err' or alg.read(got[1]) != (want, 0):
                compare(rec, alg, '((%r) | (%r)) & (%r)' % (a, xs[j], xs[k]), got, (want, 0))
            rec.step(2)
            rec.trace()
            got = attempt(lambda: (a & xs[j]) | xs[k])
            want = (c['lo'] & j) | k
            if got[0] == 'err' or alg.read(got[1]) != (want, 0):
                compare(rec, alg, '((%r) & (%r)) | (%r)' % (a, xs[j], xs[k]), got, (want, 0))
            rec.step(2)
            rec.trace()

def run_range(rec):
    """Range(a, b) contains exactly the integers from a to b."""
    lims = [-inf, -3, -1, 0, 1, 2, 2.0, sympy.Integer(3)]
    for a in lims:
        for b in lims[1:] + [inf]:
            if not a <= b:
                continue
            got = attempt(Range, a, b)
            rec.step()
            rec.trace()
            rec.state(('range', str(a), str(b)))
            if got[0] == 'err':
                rec.fail('Range(%s,%s)' % (a, b), 'raised %r' % (got[1],))
                continue
            for x in range(-6, 7):
                rec.expect((x in got[1]) == (a <= x <= b),
                    'Range(%s,%s)' % (a, b), '%d in %r is wrong' % (x, got[1]))

def run_spelt(rec):
    """End points that are one number, but different symbolic expressions (as
    after a set is written as text and read back)."""
    h = sympy.sqrt(2) / 2
    for (p, q) in [(h + R(1, 2), h + 0.5), (-h - R(1, 2), -h - 0.5), (h, sympy.sqrt(2) * 0.5), (sympy.log(2) / 2, 0.5 * sympy.log(2))]:
        for (a, b) in [(p, q), (q, p), (p, p)]:
            operands = [[f(x) for lo in (True, False) for ro in (True, False) for f in (
                    lambda z: Interval(-3, z, lo, ro), lambda z: Interval(z, 3, lo, ro),
                    lambda z: Interval(z, 3, lo, ro) | Interval(-3, -2),
                    lambda z: Interval(-inf, z, lo, ro) | FiniteReal(2.5), lambda z: ~Interval(z, 3, lo, ro))]
                for x in (a, b)]
            for (s, t) in product(*operands):
                for (op, got) in [('&', attempt(lambda: s & t)), ('|', attempt(lambda: s | t))]:
                    rec.step()
                    rec.trace()
                    what = '(%r) %s (%r)' % (s, op, t)
                    if not rec.expect(got[0] == 'ok', what, lambda: '%s raised %r' % (what, got[1])):
                        continue
                    for x in [-9, -3, -2.5, -2, -1.5, float(p) - 1e-6, float(p) + 1e-6, 1.5, 2.5, 3, 9]:
                        want = (x in s and x in t) if op == '&' else (x in s or x in t)
                        rec.expect((x in got[1]) == want, what, lambda: '%s = %r: contains %r: %s' % (what, got[1], x, not want))
            rec.state(('spelt', str(a), str(b)))
    rec.outcome('spelt')
