"""C13: simplification and sharing preserve the distribution
(all mixtures of up to three products over an alphabet of factors with
repeated, overlapping, reordered and hash-colliding factors, and programs
compiled with and without simplification, against the reference measure)."""

import os

from itertools import product

from vlib import fastsym    # First: see there.
from vlib import dist, models, snap, tomodel, tosppl
from vlib.core import attempt
from vlib.models import (X, Y, N, poly, norm, unif, pois, randint, choice, disc,
    atom, mix, prod, let, cond, leaf)
from sppl.compilers.sppl_to_python import SPPL_Compiler
from sppl.spe import LeafSPE, ProductSPE, SumSPE, spe_cache_duplicate_subtrees, spe_simplify_sum

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all mixtures of up to three products (and leaves) over a factor alphabet, and of branching programs under both settings of SPPL_NO_SIMPLIFY, on the real code against an independent measure'
LEVEL_NOTE = 'All mixtures within the alphabet, every order of factors and components; each rewriting and each composition of two rewritings is compared with the reference at probe events that separate the alphabet.'
BOUNDS = {
    'quick': 'mixtures of 2 of 32 products (X, Y; both orders), of 3 of 8 products (X, Y) or 8 (X, Y, N), of 2 leaves of 10 and 3 of 7, mixtures with nested mixtures; mixtures with a named component and weights of zero; the 63 models of the family and the 81 built by 1 operation, shared and simplified; programs with 2 or 3 branches over 7 bodies x 3 tests',
    'thorough': 'the same with mixtures of 3 of 32 products and of 4 of 8 products',
}
ASSUMPTIONS = ['distributions of the alphabet that agree at the probe events are equal', 'agreement within 1e-8 counts as equal']
TOL = 1e-8

FX = [norm('X'), norm('X', -1), norm('X', -2), unif('X', 0, 2)]
FY = [norm('Y'), norm('Y', -1), norm('Y', -2), randint('Y', 0, 3)]
FN = [choice('N', a='1/4', b='3/4'), choice('N', a='3/4', b='1/4')]
LEAVES = [norm('X'), norm('X', -1), norm('X', -2), leaf('X', 'norm', scale=1, loc=-1), atom('X', 1), atom('X', -1), atom('X', -2),
    disc('X', [-1, '1/2'], [1, '1/2']), disc('X', [-2, '1/2'], [1, '1/2']), disc('X', [-1, '1/4'], [1, '3/4'])]
LETS = [let(norm('X'), 'Y', poly(X, 0, -1)), let(norm('X'), 'Y', poly(X, 0, -2)), let(norm('X'), 'Y', poly(X, 0, 0, 1)),
    let(norm('X', -1), 'Y', poly(X, 0, -1)), let(norm('X', -2), 'Y', poly(X, 0, -1)),
    prod(norm('X'), norm('Y')), prod(norm('X', -1), norm('Y')), prod(norm('X', -2), norm('Y'))]
WEIGHTS = {2: [(0.25, 0.75), ('1/2', '1/2')], 3: [(0.25, 0.25, 0.5)], 4: [(0.125, 0.125, 0.25, 0.5)]}

def xy(orders, fx=FX, fy=FY):
    return [prod(a, b) if o == 0 else prod(b, a) for a in fx for b in fy for o in orders]

def xyn():
    fs = [prod(a, b, n) for a in FX[1:3] for b in FY[1:3] for n in FN]
    # One of them in another order.
    fs[3] = ['prod'] + fs[3][:0:-1]
    return fs

def joints():
    m1 = mix([0.25, prod(norm('X'), norm('Y'))], [0.75, prod(norm('X', -1), norm('Y', -2))])
    m2 = mix([0.25, prod(norm('X'), norm('Y'))], [0.75, prod(norm('X', -2), norm('Y', -1))])
    mx = mix([0.5, norm('X')], [0.5, norm('X', -1)])
    mx2 = mix([0.5, norm('X')], [0.5, norm('X', -2)])
    mx3 = mix([0.25, norm('X')], [0.75, norm('X', -1)])
    return [prod(m1, FN[0]), prod(m2, FN[0]), prod(m1, FN[1]), prod(FN[0], m1), prod(mx, norm('Y'), FN[0]),
        prod(mx2, norm('Y'), FN[0]), prod(mx3, norm('Y'), FN[0]), prod(mx, norm('Y', -1), FN[1]), prod(norm('X'), norm('Y'), FN[0])]

def groups(tier):
    """{name: (components, sizes)}"""
    big = tier == 'thorough'
    return {
        'xy2': (xy([0, 1]), [2]),
        'xy3': (xy([0, 1]) if big else xy([0], FX[:3], FY[1:3]) + xy([1], FX[1:3], FY[1:2]), [3]),
        'xyn3': (xyn(), [3, 4] if big else [2, 3]),
        'joint': (joints(), [2, 3] if big else [2]),
        'leaves': (LEAVES, [2]),
        'leaves3': (LEAVES if big else LEAVES[1:3] + LEAVES[5:], [3]),
        'lets': (LETS, [2, 3]),
    }

def mixtures(tier, name):
    (comps, sizes) = groups(tier)[name]
    for n in sizes:
        for ws in WEIGHTS[n][:1 if name == 'xy2' and tier == 'quick' else 2]:
            for combo in product(comps, repeat=n):
                yield mix(*zip(ws, combo))

THRESHOLDS = [-1.5, .5]
def probes(vs):
    out = []
    for v in sorted(vs):
        e = ['id', v]
        if v in ('N', 'B'):
            out += [['in', e, ['nom', [k], False]] for k in ('a', '0', '1')][slice(*((0, 1) if v == 'N' else (1, 3)))]
        else:
            out += [['cmp', e, '<', t] for t in THRESHOLDS]
    if 'Y' in vs:
        x = ['cmp', X, '<', -.5]
        out += [['and', x, ['cmp', Y, '<', -.5]], ['and', ['cmp', X, '<', '1/2'], ['cmp', Y, '<', -1.5]]]
        for v, k in (('N', 'a'), ('B', '0'), ('B', '1')):
            if v in vs:
                n = ['in', ['id', v], ['nom', [k], False]]
                out += [['and', x, n], ['and', ['cmp', Y, '<', -.5], n]]
    return out

_events = {}
def event(e):
    k = repr(e)
    if k not in _events:
        _events[k] = tosppl.event(e)
    return _events[k]

def compare(spe, want, vs, key, what, rec):
    rec.trace()
    got = attempt(lambda: {str(s) for s in spe.get_symbols()})
    if not rec.expect(got == ('ok', set(vs)), key, lambda: '%s\nhas variables %r, expected %s' % (what(), got[1], sorted(vs))):
        return
    bad = snap.ill_formed(spe)
    rec.expect(not bad, key, lambda: '%s\nis not well-formed: %s' % (what(), bad))
    for e, w in want:
        got = attempt(lambda: float(spe.prob(event(e))))
        rec.step()
        if not rec.expect(got[0] == 'ok' and abs(got[1] - w) <= TOL, key, lambda:
                '%s\nP(%s) = %r, expected %r' % (what(), event(e), got[1], w)):
            return

_alone = {}
def reference(spec):
    """[(probe, probability)] for a mixture, from its components."""
    vs = dist.symbols(spec)
    ps = probes(vs)
    total = [0.] * len(ps)
    for w, m in spec[1]:
        k = repr(m)
        if k not in _alone:
            r = dist.build(m)
            _alone[k] = [r.prob(e) for e in ps]
        w = float(dist.num(w))
        total = [t + w * p for t, p in zip(total, _alone[k])]
    return vs, list(zip(ps, total))

# ------------------------------------------------------------------------------
# Programs.

TEXT = {
    'y0': ('Y ~= norm()', lambda c: prod(c, norm('Y'))),
    'y1': ('Y ~= norm(loc=-1)', lambda c: prod(c, norm('Y', -1))),
    'y2': ('Y ~= norm(loc=-2)', lambda c: prod(c, norm('Y', -2))),
    'sq': ('Y ~= X**2', lambda c: let(c, 'Y', poly(X, 0, 0, 1))),
    'm1': ('Y ~= -1*X', lambda c: let(c, 'Y', poly(X, 0, -1))),
    'm2': ('Y ~= -2*X', lambda c: let(c, 'Y', poly(X, 0, -2))),
    'mx': ('Y ~= 0.5*norm() | 0.5*norm(loc=-1)', lambda c: prod(c, mix([0.5, norm('Y')], [0.5, norm('Y', -1)]))),
}
SECOND = {
    'n0': ("N ~= choice({'a': 0.25, 'b': 0.75})", lambda c: prod(c, FN[0])),
    'n1': ("N ~= choice({'a': 0.75, 'b': 0.25})", lambda c: prod(c, FN[1])),
}
A0, A1 = ['cmp', X, '<', 0], ['cmp', X, '>', 1]
S1 = ['cmp', poly(X, 0, 0, 1), '<', 1]
B0, B1 = [['in', ['id', 'B'], ['nom', [k], False]] for k in '01']
HEADS = {
    # name: (text, model, tests)
    'x': ('X ~= norm()', norm('X'), [('X < 0', A0), ('X > 1', A1)]),
    'x2': ('X ~= norm()', norm('X'), [('X**2 < 1', S1), ('X > 1', A1)]),
    'b': ("B ~= choice({'0': 0.25, '1': 0.25, '2': 0.5})\nX ~= norm()",
        prod(leaf('B', 'choice', [['0', '1/4'], ['1', '1/4'], ['2', '1/2']]), norm('X')), [("B == '0'", B0), ("B == '1'", B1)]),
}

def programs(tier):
    for head, (_t, _m, tests) in HEADS.items():
        for n in (2, 3):
            names = list(TEXT) if n == 2 or tier == 'thorough' else (['y0', 'y1', 'y2', 'sq'] if head != 'b' else ['y0', 'y1', 'm1', 'mx'])
            for combo in product(names, repeat=n):
                yield {'head': head, 'bodies': [[b] for b in combo]}
        for combo in product(['y1', 'y2', 'm1'], ['n0', 'n1'], ['y1', 'sq'], ['n0', 'n1'], [0, 1]):
            (a, b, c, d, o) = combo
            yield {'head': head, 'bodies': [[a, b], [c, d] if o == 0 else [d, c]]}

def text(p):
    (head, _m, tests) = HEADS[p['head']]
    lines = [head]
    n = len(p['bodies'])
    for i, body in enumerate(p['bodies']):
        lines.append('else:' if i == n - 1 else '%s %s:' % ('elif' if i else 'if', tests[i][0]))
        lines += ['    ' + (TEXT.get(b) or SECOND[b])[0] for b in body]
    return '\n'.join(lines) + '\n'

def spec_of(p):
    (_t, m, tests) = HEADS[p['head']]
    parts, seen = [], []
    n = len(p['bodies'])
    base = dist.build(m)
    for i, body in enumerate(p['bodies']):
        conj = [['not', t] for _s, t in tests[:i]] + ([tests[i][1]] if i < n - 1 else [])
        ev = conj[0] if len(conj) == 1 else ['and'] + conj
        w = base.prob(ev)
        if w <= 0:
            continue
        c = cond(m, ev)
        for b in body:
            c = (TEXT.get(b) or SECOND[b])[1](c)
        parts.append([w, c])
    return ['sum', parts]

def compiled(source, off):
    old = os.environ.pop('SPPL_NO_SIMPLIFY', None)
    if off:
        os.environ['SPPL_NO_SIMPLIFY'] = '1'
    try:
        return SPPL_Compiler(source).execute_module().model
    finally:
        os.environ.pop('SPPL_NO_SIMPLIFY', None)
        if old is not None:
            os.environ['SPPL_NO_SIMPLIFY'] = old

# ------------------------------------------------------------------------------

def exposed_models():
    """Mixtures with a variable that names the component, also with weights
    of zero, in every order."""
    bodies = [prod(norm('X'), norm('Y')), prod(norm('X', -1), norm('Y')), prod(norm('Y'), norm('X')), norm('X'), prod(norm('X'), norm('Y', -2))]
    for ws in product(['0', '1/4', '1/2', '3/4', '1'], repeat=3):
        if sum(dist.num(w) for w in ws) == 1:
            for combo in product(bodies[:3] + bodies[4:], repeat=3):
                if repr(combo[0]) <= repr(combo[2]):
                    yield models.exposed('N', *zip('abc', ws, combo))
            yield models.exposed('N', *zip('abc', ws, [norm('X'), norm('X', -1), norm('X')]))

def other_models(tier):
    yield from exposed_models()
    for m in list(models.ALL.values()) + list(models.histories(1 if tier == 'quick' else 2)):
        yield m

CHUNK = 40

def cases(tier):
    out = []
    for name in groups(tier):
        n = sum(1 for _ in mixtures(tier, name))
        for i in range(0, n, CHUNK):
            out.append({'group': name, 'from': i, 'tier': tier})
    ms = list(other_models(tier))
    for i in range(0, len(ms), 10):
        out.append({'models': ms[i:i+10]})
    ps = list(programs(tier))
    for i in range(0, len(ps), 8):
        out.append({'programs': ps[i:i+8]})
    return out

def run_case(c, rec):
    if 'programs' in c:
        for p in c['programs']:
            program(p, rec)
        return
    if 'models' in c:
        for spec in c['models']:
            other(spec, rec)
        return
    for k, spec in enumerate(mixtures(c['tier'], c['group'])):
        if c['from'] <= k < c['from'] + CHUNK:
            mixture(spec, k, rec)

def mixture(spec, k, rec):
    key = repr(spec).replace(' ', '')
    rec.state(key)
    vs, want = reference(spec)
    show = [tuple(x) for x in spec[1]]
    def build():
        return tomodel.model(spec)
    rewritings = [('simplified', lambda: spe_simplify_sum(build()))]
    if k % 3 == 0:
        rewritings.append(('shared', lambda: spe_cache_duplicate_subtrees(build(), {})))
    elif k % 3 == 1:
        rewritings.append(('shared and simplified', lambda: spe_simplify_sum(spe_cache_duplicate_subtrees(build(), {}))))
    for name, f in rewritings:
        got = attempt(f)
        if not rec.expect(got[0] == 'ok', key, lambda: 'mixture %s\n%s raised %r' % (show, name, got[1])):
            continue
        rec.outcome(name + (' to a sum' if isinstance(got[1], SumSPE) else ' to a factor'))
        compare(got[1], want, vs, key, lambda: 'mixture %s\n%s to %s' % (show, name, snap.snap(got[1])), rec)
    rec.sample({'mixture': show})

def other(spec, rec):
    key = repr(spec).replace(' ', '')
    rec.state(key)
    lits = models.literals(spec, 6)
    evs = models.signed(lits)[::2] + [['and', a, b] for a, b in zip(lits, lits[1:])]
    ref_model = dist.build(spec)
    want = [(e, ref_model.prob(e)) for e in evs]
    for name, f in (('shared', lambda m: spe_cache_duplicate_subtrees(m, {})), ('simplified', spe_simplify_sum)):
        made = tomodel.model(spec)
        if name == 'simplified' and not (isinstance(made, SumSPE) and all(isinstance(c, (ProductSPE, LeafSPE)) for c in made.children)):
            continue
        got = attempt(f, made)
        if rec.expect(got[0] == 'ok', key, lambda: '%s\n%s raised %r' % (spec, name, got[1])):
            rec.outcome(name)
            compare(got[1], want, dist.symbols(spec), key, lambda: '%s\n%s to %s' % (spec, name, snap.snap(got[1])), rec)

def program(p, rec):
    source = text(p)
    key = source.replace(' ', '').replace('\n', ';')
    rec.state(key)
    vs, want = reference(spec_of(p))
    for off in (False, True):
        name = 'SPPL_NO_SIMPLIFY' if off else 'simplification'
        got = attempt(compiled, source, off)
        if not rec.expect(got[0] == 'ok', key, lambda: 'program\n%scompiled with %s raised %r' % (source, name, got[1])):
            continue
        rec.outcome(name)
        compare(got[1], want, vs, key, lambda: 'program\n%scompiled with %s' % (source, name), rec)
        if off and len(p['bodies']) > 2:
            continue
        again = attempt(lambda: spe_cache_duplicate_subtrees(got[1], {}))
        if rec.expect(again[0] == 'ok', key, lambda: 'program\n%scompiled with %s, sharing raised %r' % (source, name, again[1])):
            compare(again[1], want, vs, key, lambda: 'program\n%scompiled with %s and shared' % (source, name), rec)
    rec.sample({'program': source})
