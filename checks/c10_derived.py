"""C10: derived variables denote functions of their parents
(bounded-exhaustive over programs of definitions, against vlib.dist)."""

from itertools import product

from vlib import fastsym    # First: see there.
from vlib import dist, models, ref, snap, tomodel, tosppl
from vlib.core import attempt
from vlib.models import X, Y, Z, W, poly
from sppl.transforms import Id

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of chains of definitions, conditioning steps and events on the real code against a reference that substitutes definitions'
LEVEL_NOTE = 'Exhaustive within the stated families: every chain of definitions to the stated length over the function alphabet on every base model, with every event of the alphabet, before and after conditioning on a derived variable. Agreement is to 1e-7.'
BOUNDS = {
    'quick': '10 base models x 6 to 19 functions (chains of 1), 2 base models x 5 x 5 '
        'functions and 2 x 2 x 19 (chains of 2), chains of 3 over 2 functions on 2 base models',
    'thorough': 'all base models x 19 x 19 functions x 2 parents, chains of 3 over 6 functions',
}
ASSUMPTIONS = [
    'functions that are undefined on a set of positive probability are left to C08 (known finding)',
    'numerical agreement within 1e-7 counts as equal',
]
TOL = 1e-7

FUNCS = {
    'x^2': lambda e: poly(e, 0, 0, 1),
    '1-2x': lambda e: poly(e, 1, -2),
    'abs': lambda e: ['abs', e],
    '2^x': lambda e: ['exp', e, 2],
    'pw': lambda e: ['piece', [[poly(e, 0, -1), ['cmp', e, '<', 0]],
                               [poly(e, 1, 1), ['cmp', e, '>=', 0]]]],
    'x/2+1': lambda e: poly(e, 1, '1/2'),
    'x^3': lambda e: poly(e, 0, 0, 0, 1),
    'x^2-x': lambda e: poly(e, 0, -1, 1),
    '1/(1+|x|)': lambda e: ['recip', poly(['abs', e], 1, 1)],
    'sqrt|x|': lambda e: ['rad', ['abs', e], 2],
    'log(1+x^2)': lambda e: ['log', poly(e, 1, 0, 1), 2],
    'ind': lambda e: ['ind', ['cmp', e, '>', '1/2']],
    'pw3': lambda e: ['piece', [[e, ['in', e, ['iv', -1, 1, False, True]]],
                                [['abs', poly(e, -2, 1)], ['cmp', e, '>=', 1]],
                                [poly(e, 5, 1), ['cmp', e, '<', -1]]]],
    'x': lambda e: e,
    '(1/2)^x': lambda e: ['exp', e, '1/2'],
    '3^-x': lambda e: ['exp', poly(e, 0, -1), 3],
    'log10(1+|x|)': lambda e: ['log', poly(['abs', e], 1, 1), 10],
    'cbrt|x|': lambda e: ['rad', ['abs', e], 3],
    'ind2': lambda e: poly(['ind', ['or', ['cmp', e, '<', 0], ['cmp', e, '>', 1]]], 1, 2),
}
B = models
BASES = {
    'norm': B.norm('X'),
    'unif': B.unif('X', -1, 3),
    'randint': B.randint('X', -1, 3),
    'pois': B.pois('X'),
    'atom': B.atom('X', 1),
    'mix': B.mix([0.25, B.norm('X')], [0.75, B.randint('X', 0, 3)]),
    'prod': B.prod(B.norm('X'), B.choice('N', a='1/4', b='3/4')),
    'sumprod': B.mix([0.25, B.prod(B.norm('X'), B.choice('N', a='1'))],
                     [0.75, B.prod(B.unif('X', -1, 3), B.choice('N', a='1/2', b='1/2'))]),
    'trunc': B.cond(B.norm('X'), ['in', X, ['iv', -1, 2, False, False]]),
    'constr': B.constr(B.prod(B.norm('X'), B.choice('N', a='1/4', b='3/4')), X=1),
    'disc': B.disc('X', [-1, '1/4'], [0, '1/4'], [2, '1/2']),
    'union': B.cond(B.norm('X'), ['or', ['cmp', X, '<', -1], ['cmp', X, '>', 1]]),
}

def cases(tier):
    quick = tier == 'quick'
    out = []
    names = list(FUNCS)
    bases = list(BASES)
    for i, b in enumerate(bases[:10] if quick else bases):
        for f in names if i in (0, 2) or not quick else names[:6] if i % 2 else names[:3] + names[6:9]:
            out.append({'base': b, 'defs': [['Y', f, 'X']]})
    if quick:
        # Every function is substituted into, under two other functions.
        for b in ['unif', 'disc']:
            for f, g in product(['1-2x', 'abs'], names):
                out.append({'base': b, 'defs': [['Y', f, 'X'], ['Z', g, 'Y']]})
    for b in ['randint', 'sumprod'] if quick else bases:
        for f, g in product(names[:5] if quick else names, repeat=2):
            for parent in 'YX' if b == 'sumprod' or not quick else 'Y':
                out.append({'base': b, 'defs': [['Y', f, 'X'], ['Z', g, parent]]})
    # Alternatively, definitions interleaved with conditioning.
    for b in ['norm', 'mix', 'sumprod', 'pois'] if not quick else ['mix', 'sumprod']:
        for f in names[:5]:
            for parent in 'XY':
                out.append({'base': b, 'defs': [['Y', f, 'X'], 'cond', ['Z', 'abs', parent]]})
    fs = ['x^2', '1-2x'] if quick else names[:6]
    for b in ['norm', 'sumprod']:
        for f, g, h in product(fs, repeat=3):
            if not quick or b == 'norm' or (f, g) == ('1-2x', 'x^2'):
                out.append({'base': b, 'defs': [['Y', f, 'X'], ['Z', g, 'Y'], ['W', h, 'Z']]})
    # Names in other orders.
    for k, names in enumerate(models.NAMES):
        for b in ['sumprod', 'prod', 'mix'] if quick else bases:
            for f, g in product(['1-2x', 'pw'], repeat=2):
                out.append({'base': b, 'defs': [['Y', f, 'X'], ['Z', g, 'Y'], ['W', 'x/2+1', 'XY'[k]]], 'names': names})
    for c in out:
        c['quick'] = quick
    return out

_DEF_COND = ['in', Y, ['iv', '-1/2', 3, False, True]]

def literals(v):
    return [
        ['cmp', v, '<', 1], ['in', v, ['fin', [0, 1, 2]]],
        ['in', v, ['iv', '-1/2', '1/2', True, False]],
        ['cmp', poly(v, 0, 0, 1), '>=', 4],
    ]

def events(defs):
    vs = [['id', d[0]] for d in defs if d != 'cond']
    top = vs[-1]
    out = []
    for v in vs:
        out += literals(v)
    a, b, c, d = literals(top)
    out += [['not', a], ['not', b], ['and', a, ['not', c]], ['or', b, c]]
    x = ['cmp', X, '>', '1/2']
    out += [['and', a, x], ['or', x, ['not', a]], ['not', ['and', c, x]]]
    if len(vs) > 1:
        e = literals(vs[0])
        out += [['and', e[0], d], ['or', ['not', e[0]], ['and', c, x]], ['or', e[2], a]]
    return out

def run_case(c, rec):
    tosppl.use_names(c.get('names'))
    spec = BASES[c['base']]
    name = c['base'] + ''.join(' ' + n for n in c.get('names', {}).values())
    got = attempt(lambda: tomodel.model(spec))
    if got[0] == 'err':
        return rec.fail('build:' + name, 'building %s raised %r' % (name, got[1]))
    spe = got[1]
    ref_model = dist.build(spec)
    for d in c['defs']:
        rec.step()
        if d == 'cond':
            name += ' given %s' % (_DEF_COND,)
            try:
                ref_model = ref_model.condition(_DEF_COND)
            except dist.Zero:
                return None
            got = attempt(lambda: spe.condition(tosppl.event(_DEF_COND)))
        else:
            (y, f, parent) = d
            e = FUNCS[f](['id', parent])
            name += ', %s=%s(%s)' % (y, f, parent)
            before = snap.snap(spe)
            old = spe
            got = attempt(lambda: spe.transform(tosppl.symbol(y), tosppl.expr(e)))
            rec.expect(snap.snap(old) == before, name, '%s: the original model changed' % (name,))
            for comp in ref_model.comps:
                comp.env[y] = dist.subst_expr(e, comp.env)
        rec.trace()
        if not rec.expect(got[0] == 'ok', name, lambda: '%s raised %r' % (name, got[1])):
            return None
        spe = got[1]
    rec.state(name)
    symbols = sorted(map(tosppl.name_of, spe.get_symbols()))
    rec.expect(symbols == sorted(ref_model.symbols()), name,
        lambda: '%s has variables %s' % (name, symbols))
    evs = events(c['defs'])
    for ev in evs:
        compare(name, spe, ref_model, ev, rec)
    givens = [evs[0], ['or', evs[2], ['not', evs[0]]], evs[2], ['not', evs[1]]]
    for given in givens[:2 if len(c['defs']) > 1 and c['quick'] else 4]:
        try:
            ref_post = ref_model.condition(given)
        except dist.Zero:
            got = attempt(lambda: spe.condition(tosppl.event(given)))
            rec.trace()
            rec.expect(got[0] == 'err' and isinstance(got[1], ValueError), name, lambda:
                '%s: conditioning on impossible %s gave %r' % (name, given, got[1]))
            continue
        got = attempt(lambda: spe.condition(tosppl.event(given)))
        rec.trace()
        if not rec.expect(got[0] == 'ok', name, lambda:
                '%s given %s raised %r' % (name, given, got[1])):
            continue
        for ev in (['cmp', X, '<', 1], evs[2], evs[-1], ['cmp', X, '>', '1/2']):
            compare('%s given %s' % (name, given), got[1], ref_post, ev, rec)
    samples(name, spe, ref_model, rec)
    return None

def compare(name, spe, ref_model, ev, rec):
    want = ref_model.prob(ev)
    event = tosppl.event(ev)
    got = attempt(lambda: float(spe.prob(event)))
    rec.trace()
    rec.outcome('between' if 1e-9 < want < 1 - 1e-9 else 'trivial')
    rec.expect(got[0] == 'ok' and abs(got[1] - want) <= TOL, name, lambda:
        '%s\nP(%s) = %r, expected %r' % (name, event, got[1], want))
    rec.sample({'model': name, 'event': str(event), 'prob': want})

def samples(name, spe, ref_model, rec):
    import numpy
    got = attempt(lambda: spe.sample(3, prng=numpy.random.RandomState(7)))
    rec.trace()
    if not rec.expect(got[0] == 'ok', name, lambda: '%s: sample raised %r' % (name, got[1])):
        return
    for s in got[1]:
        vals = {tosppl.name_of(k): v for k, v in s.items()}
        ok = set(vals) == ref_model.symbols() and any(
            all(agree(ref.evaluate(e, vals), vals[y]) for y, e in comp.env.items())
            for comp in ref_model.comps)
        rec.expect(ok, name, lambda: '%s: the sample %s does not satisfy the definitions'
            % (name, vals))

def agree(a, b):
    return a is not None and abs(float(a) - float(b)) <= 1e-6 * max(1., abs(float(a)))
