"""C12: queries do not interfere
(all query histories to a depth over models that share parts and a memo
table, under an adversarial allocator of identities)."""

import gc
import itertools
import math
import weakref

import numpy

from vlib import fastsym    # First: see there.
from vlib import models, snap, tomodel, tosppl
from vlib.core import attempt
from vlib.models import (X, Y, Z, N, poly, norm, unif, pois, randint, choice,
    disc, atom, mix, prod, let)
import sppl.spe as spe_module
from sppl.spe import Memo, ProductSPE, SumSPE
from sppl.transforms import Id

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of query histories (queries x models sharing parts x memo modes x lifetimes) on the real code, each answer compared with the same query on a fresh model; identities of dead objects are always reused'
LEVEL_NOTE = 'Explicit exploration of all histories up to the stated length over a finite query alphabet. Histories with dropped models run under an allocator model in which a new object always takes the identity of the last dead one, the worst case for tables keyed on identities.'
BOUNDS = {
    'quick': '5 scenarios of 4-5 models sharing parts, up to 68 queries each: all histories of length 2 of queries of the same kind or on the same model in 2 memo modes, all of length 3 over subsets of 8-10 queries of 3 scenarios; histories of length 2 with dropped models over 5 near-duplicate models x 4 queries',
    'thorough': 'all histories of length 3 over the full alphabets; dropped models to length 3',
}
ASSUMPTIONS = ['answers within 1e-9 count as equal']
TOL = 1e-9

EV = {
    'x<1': ['cmp', X, '<', 1],
    'x>1': ['cmp', X, '>', 1],
    '0<=x<1/2': ['in', X, ['iv', 0, '1/2', False, True]],
    'x2<1': ['cmp', poly(X, 0, 0, 1), '<', 1],
    'x in {0,1}': ['in', X, ['fin', [0, 1]]],
    'imp': ['and', ['cmp', X, '<', 0], ['cmp', X, '>', 1]],
    'x>50': ['cmp', X, '>', 50],
    'y<1': ['cmp', Y, '<', 1],
    'y>1/2': ['cmp', Y, '>', '1/2'],
    'n=a': ['in', N, ['nom', ['a'], False]],
    'n!=a': ['in', N, ['nom', ['a'], True]],
    'x|y': ['or', ['cmp', X, '<', 0], ['cmp', Y, '>', 1]],
    'x|n': ['or', ['cmp', X, '<', 0], ['in', N, ['nom', ['a'], False]]],
    'x&n': ['and', ['cmp', X, '<', 1], ['in', N, ['nom', ['a'], False]]],
    'x&y': ['and', ['cmp', X, '<', 1], ['cmp', Y, '>', '1/2']],
    'y&x': ['and', ['cmp', Y, '>', '1/2'], ['cmp', X, '<', 1]],
    'z<1': ['cmp', Z, '<', 1],
}

# ------------------------------------------------------------------------------
# Scenarios: models by name, built afresh; they share parts.

def s_products():
    L = tomodel.model(norm('X'))
    U = tomodel.model(unif('X', 0, 2))
    Q = tomodel.model(unif('Y', -1, 3))
    C = tomodel.model(choice('N', a='1/4', b='3/4'))
    A = L & Q
    B = L & C
    D = (L & Q & C)
    E = 0.25 * A | 0.75 * (U & Q)
    return {'L': L, 'A': A, 'B': B, 'D': D, 'E': E}

def s_mixtures():
    L = tomodel.model(norm('X'))
    R = tomodel.model(randint('X', 0, 3))
    C = tomodel.model(choice('N', a='1/2', b='1/2'))
    F = tomodel.model(choice('N', a='1/4', c='3/4'))
    M1 = 0.25 * L | 0.75 * R
    M2 = 0.75 * L | 0.25 * R
    P1 = M1 & C
    P2 = 0.5 * (L & C) | 0.5 * (R & F)
    return {'M1': M1, 'M2': M2, 'P1': P1, 'P2': P2}

def s_derived():
    L = tomodel.model(norm('X'))
    Y1 = L.transform(Id('Y'), tosppl.expr(poly(X, 0, 0, 1)))
    Y2 = L.transform(Id('Y'), tosppl.expr(poly(X, 1, 2)))
    C = tomodel.model(choice('N', a='1/2', b='1/2'))
    P = Y1 & C
    S = 0.5 * Y1 | 0.5 * Y2
    return {'Y1': Y1, 'Y2': Y2, 'P': P, 'S': S}

def s_posterior():
    L = tomodel.model(norm('X'))
    Q = tomodel.model(unif('Y', -1, 3))
    A = L & Q
    A1 = A.condition(tosppl.event(EV['x<1']))
    A2 = A.condition(tosppl.event(EV['x|y']))
    A3 = A.constrain({Id('X'): 0.25})
    return {'A': A, 'A1': A1, 'A2': A2, 'A3': A3}

def s_leaves():
    return {
        'norm': tomodel.model(norm('X')), 'norm1': tomodel.model(norm('X', 1, 1)),
        'pois': tomodel.model(pois('X')), 'atom': tomodel.model(atom('X', 1)),
        'disc': tomodel.model(disc('X', [0, '1/4'], [1, '1/4'], [3, '1/2'])),
    }

SCENARIOS = {
    # name: (builder, events, assignments, models, short events)
    'products': (s_products, ['x<1', 'x|y', 'x&n', 'imp', 'y>1/2', 'x&y', 'y&x'],
        [{'X': 0.25}, {'Y': 0.25}, {'X': 0.25, 'Y': 1}, {'Y': 1, 'X': 0.25}, {'X': 1, 'Y': 0.25}, {'X': 0.25, 'N': 'zz'}], ['A', 'D', 'E']),
    'mixtures': (s_mixtures, ['x<1', 'x in {0,1}', 'n=a', 'x|n', 'x>50', 'x2<1'],
        [{'X': 1}, {'X': 0.5}, {'X': 1, 'N': 'a'}, {'N': 'c'}], ['M1', 'P2']),
    'derived': (s_derived, ['x<1', 'y<1', 'y>1/2', 'x&n', 'x2<1'],
        [{'X': 1}, {'X': 0.5}], ['Y1', 'P', 'S']),
    'posterior': (s_posterior, ['x<1', 'x>1', 'x|y', 'y<1'],
        [{'X': 0.25}, {'Y': 0.25}, {'X': 2}, {'Y': 1, 'X': 0.25}], ['A', 'A1', 'A2']),
    'leaves': (s_leaves, ['x<1', 'x2<1', 'x>50', '0<=x<1/2'],
        [{'X': 1}, {'X': 0.5}], ['norm', 'pois', 'atom']),
}

def queries(name, short=False):
    (_b, evs, asns, main) = SCENARIOS[name]
    built = _built(name)
    out = []
    for m in (main if short else built):
        vs = {str(s) for s in built[m].get_symbols()}
        mine = [e for e in evs if _vars(EV[e]) <= vs]
        if short:
            mine = mine[:2] if m == main[0] else mine[1:3]
        if short and m != main[0]:
            out += [('logprob', m, mine[-1]), ('condition', m, mine[-1])]
            continue
        for e in mine:
            out += [('logprob', m, e), ('condition', m, e)]
        if not short and len(mine) > 1:
            out.append(('mi', m, (mine[0], mine[1])))
        for a in asns[:1] if short else asns:
            if set(a) <= vs:
                out.append(('logpdf', m, a))
                if not short or m == main[0]:
                    out.append(('constrain', m, a))
        if not short:
            out.append(('sample', m, 3))
    return out

def _vars(ev):
    from vlib import ref
    return ref.symbols(ev)

_names = {}
def _built(name):
    if name not in _names:
        _names[name] = SCENARIOS[name][0]()
    return _names[name]

# ------------------------------------------------------------------------------
# Answers.

PROBE = [EV['x<1'], EV['0<=x<1/2'], EV['y>1/2'], EV['n=a'], EV['x&y'], EV['x|n']]
_denotations = {}

def denote(spe):
    """Variables, probe probabilities of a model (cached by full structure)."""
    key = snap.snap(spe)
    if key not in _denotations:
        vs = {str(s) for s in spe.get_symbols()}
        _denotations[key] = ('model', tuple(sorted(vs))) + tuple(
            float(spe.logprob(tosppl.event(e))) for e in PROBE if _vars(e) <= vs)
    return _denotations[key]

_cache = {}
def event(e):
    if e not in _cache:
        _cache[e] = tosppl.event(EV[e])
    return _cache[e]

def ask(spe, query, memo):
    (kind, _m, arg) = query
    args = () if memo is None else (memo,)
    if kind == 'logprob':
        return ('num', float(spe.logprob(event(arg), *args)))
    if kind == 'condition':
        return denote(spe.condition(event(arg), *args))
    if kind == 'mi':
        return ('num', float(spe.mutual_information(event(arg[0]), event(arg[1]), *args)))
    asn = {Id(k): v for k, v in arg.items()} if isinstance(arg, dict) else None
    if kind == 'logpdf':
        out = ('num', float(spe.logpdf(asn, *args)))
    elif kind == 'constrain':
        out = denote(spe.constrain(asn, *args))
    else:
        s = spe.sample(arg, prng=numpy.random.RandomState(1))
        return ('sample', repr([sorted((str(k), str(v)) for k, v in r.items()) for r in s]))
    assert asn == {Id(k): v for k, v in arg.items()}, 'the assignment was modified'
    return out

def answer(spe, query, memo):
    got = attempt(ask, spe, query, memo)
    if got[0] == 'err':
        if 'was modified' in str(got[1]):
            return ('modified',)
        return ('error', 'rejected' if isinstance(got[1], (ValueError, AssertionError)) else repr(got[1]))
    return got[1]

def agree(a, b):
    if a[0] != b[0] or len(a) != len(b):
        return False
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, float) and isinstance(y, float):
            if x != y and not abs(x - y) <= TOL * max(1, abs(x)):
                return False
        elif x != y:
            return False
    return True

_fresh = {}
def fresh(name, query):
    key = (name, repr(query))
    if key not in _fresh:
        _fresh[key] = answer(SCENARIOS[name][0]()[query[1]], query, None)
    return _fresh[key]

# ------------------------------------------------------------------------------

def cases(tier):
    out = []
    for name in SCENARIOS:
        qs = queries(name)
        out.append({'scenario': name, 'mode': 'single', 'tier': tier})
        for i in range(len(qs)):
            if tier == 'thorough' or qs[i][0] not in ('mi', 'sample'):
                out.append({'scenario': name, 'mode': 'pairs', 'first': i, 'tier': tier})
        k = len(queries(name, tier == 'quick'))
        if tier == 'thorough' or name in ('products', 'derived', 'posterior'):
            for i in range(k):
                out.append({'scenario': name, 'mode': 'triples', 'first': i, 'tier': tier})
    for fam in FAMILIES:
        for i in range(len(FAMILIES[fam][0])):
            out.append({'family': fam, 'first': i, 'tier': tier})
    return out

def run_case(c, rec):
    if 'family' in c:
        return dropped(c, rec)
    name = c['scenario']
    qs = queries(name)
    if c['mode'] == 'single':
        for q in qs:
            want = fresh(name, q)
            rec.outcome(want[0])
            rec.expect(want[0] != 'modified', 'single', lambda: '%s modifies its assignment' % (q,))
            rec.expect(not (want[0] == 'error' and want[1] != 'rejected'), 'single', lambda:
                '%s on a fresh model: %s' % (q, want))
            for mode, memo in (('a fresh memo', Memo()), ('no memo (False)', False)):
                history(name, _fresh_models(name), [q], memo, mode, rec)
            # The same query twice.
            built = _fresh_models(name)
            before = snapshots(built)
            history(name, built, [q, q], Memo(), 'a shared memo', rec)
            unmodified(built, before, q, rec)
        return
    if c['mode'] == 'pairs':
        q1 = qs[c['first']]
        built = _fresh_models(name)
        before = snapshots(built)
        for q2 in qs:
            if c['tier'] == 'quick' and not relevant(q1, q2):
                continue
            history(name, built, [q1, q2], Memo(), 'a shared memo', rec)
            if q1[1] != q2[1] or q1[0] != q2[0]:
                continue
            history(name, built, [q1, q2], None, 'no memo', rec)
        unmodified(built, before, q1, rec)
        return
    qs = queries(name, c['tier'] == 'quick')
    q1 = qs[c['first']]
    built = _fresh_models(name)
    before = snapshots(built)
    for q2 in qs:
        for q3 in qs:
            history(name, built, [q1, q2, q3], Memo(), 'a shared memo', rec)
    unmodified(built, before, q1, rec)

def relevant(q1, q2):
    """Quick tier: queries of the same kind, or of the same model."""
    return q1[0] == q2[0] or (q1[1] == q2[1] and q2[0] not in ('mi', 'sample'))

def _fresh_models(name):
    return SCENARIOS[name][0]()

def history(name, built, qs, memo, mode, rec):
    rec.trace()
    for i, q in enumerate(qs):
        rec.step()
        got = answer(built[q[1]], q, memo)
        want = fresh(name, q)
        if not rec.expect(agree(want, got), mode.replace(' ', '-'), lambda:
                'with %s, after %s\n%s gives %s, on its own %s' % (mode, qs[:i], q, got, want)):
            return
    rec.state((name, repr(qs), mode))
    rec.sample({'scenario': name, 'history': [str(q) for q in qs], 'mode': mode})

_reprs = {}

def snapshots(built):
    return {m: snap.snap(spe) for m, spe in built.items()}

def unmodified(built, before, q, rec):
    for m, spe in built.items():
        rec.expect(snap.snap(spe) == before[m], 'modified', lambda:
            'model %s was modified by queries that start with %s' % (m, q))
    for e, ev in _cache.items():
        if e not in _reprs:
            _reprs[e] = repr(tosppl.event(EV[e]))
        rec.expect(_reprs[e] == repr(ev), 'modified', 'event %s was modified' % (e,))

# ------------------------------------------------------------------------------
# Models that come and go.

class Allocator():
    """A model of id(): unique among the living, reusing the last dead one."""
    def __init__(self):
        self.ids = {}      # real id -> (weak reference, number)
        self.free = []
        self.next = itertools.count(1000)
        self.real = __builtins__['id'] if isinstance(__builtins__, dict) else __builtins__.id
        self.reused = 0
    def sweep(self):
        for k, (r, n) in list(self.ids.items()):
            if r() is None:
                del self.ids[k]
                self.free.append(n)
    def __call__(self, x):
        k = self.real(x)
        hit = self.ids.get(k)
        if hit is not None and hit[0]() is x:
            return hit[1]
        try:
            r = weakref.ref(x)
        except TypeError:
            return k
        self.sweep()
        if self.free:
            n = self.free.pop()
            self.reused += 1
        else:
            n = next(self.next)
        self.ids[k] = (r, n)
        return n

def _fam_products():
    return [prod(norm('X', m, 1), unif('Y', -1, 3)) for m in (0, 1)] + [
        mix([0.25, norm('X', m, 1)], [0.75, randint('X', 0, 3)]) for m in (0, 1)] + [
        prod(mix([w, norm('X')], [1 - w, unif('X', 0, 2)]), norm('Y')) for w in (0.25,)]
def _fam_leaves():
    return [norm('X'), norm('X', 1, 1), randint('X', 0, 3),
        atom('X', 1), let(norm('X'), 'Y', poly(X, 0, 2))]
FAMILIES = {
    'products': (_fam_products(), [('logprob', None, 'x<1'), ('condition', None, 'x<1'), ('logpdf', None, {'X': 1}), ('constrain', None, {'X': 1})]),
    'leaves': (_fam_leaves(), [('logprob', None, 'x<1'), ('condition', None, 'x<1'), ('logpdf', None, {'X': 1}), ('constrain', None, {'X': 1})]),
}

def dropped(c, rec):
    (specs, qs) = FAMILIES[c['family']]
    depth = 3 if c['tier'] == 'thorough' else 2
    n = len(specs)
    alone = {}
    for i in range(n):
        for q in qs:
            alone[i, repr(q)] = answer(tomodel.model(specs[i]), q, None)
    for rest in itertools.product(range(n), repeat=depth - 1):
        seq = (c['first'],) + rest
        if len(set(seq)) == 1 or (len(set(seq)) == 2 and seq[0] == seq[-1]):
            continue
        for q in qs:
            allocator = Allocator()
            spe_module.id = allocator
            try:
                memo = Memo()
                for j, i in enumerate(seq):
                    model = tomodel.model(specs[i])
                    got = answer(model, q, memo)
                    rec.step()
                    del model
                    gc_collect(allocator)
                    want = alone[i, repr(q)]
                    if not rec.expect(agree(want, got), 'dropped', lambda:
                            'with a shared memo, after %s on %s, which are gone\n%s on %s gives %s, on its own %s'
                            % (q, [specs[k] for k in seq[:j]], q, specs[i], got, want)):
                        return
            finally:
                del spe_module.id
            rec.trace()
            rec.outcome('reused' if allocator.reused else 'kept')
            rec.state((c['family'], seq, repr(q)))

def gc_collect(allocator):
    gc.collect()
    allocator.sweep()
