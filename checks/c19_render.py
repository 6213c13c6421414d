"""C19: rendering a model as a program preserves it
(every model of a finite family and its successors, rendered, compiled and
compared with a reference model)."""

import io
import json
import re

from vlib import fastsym    # First: see there.
from vlib import dist, models, snap, tomodel, tosppl
from vlib.core import attempt
from checks import c16_distributions as c16
from checks import c18_roundtrip as c18
from sppl import distributions as D
from sppl.compilers.spe_to_sppl import render_sppl
from sppl.compilers.sppl_to_python import SPPL_Compiler
from sppl.transforms import Id

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of model construction histories (base model x up to two operations) on the real code, each state rendered as a program, compiled by the real compiler, and every probe compared with an explicit-state reference model'
LEVEL_NOTE = 'Every model of the family and its successors is compared at literals, their negations and conjunctions; the compiled model is rendered and compiled again.'
BOUNDS = {
    'quick': '58 base models, each with up to 5 conditionings, 2 constraints and 3 derived variables; 34 models with unusual number types and names; 101 distributions; 2 renamings',
    'thorough': 'all successors under 16 conditionings, and pairs of operations; distributions with 2 parameter sets and 6 locations and scales',
}
ASSUMPTIONS = ['distributions that agree at the probe events are equal', 'agreement within 1e-8 counts as equal',
    'variable names are Python identifiers or array elements']
TOL = 1e-8

def compiled(spe):
    text = render_sppl(spe).getvalue()
    return SPPL_Compiler(text).execute_module().model, text

def check(spe, probes, key, rec, twice=True):
    rec.trace()
    got = attempt(compiled, spe)
    text = attempt(lambda: render_sppl(spe).getvalue())
    if not rec.expect(got[0] == 'ok', key, lambda: 'rendering and compiling %s raised %r; the program is\n%s' % (key, got[1], text[1])):
        return None
    m = got[1][0]
    missing = set(spe.get_symbols()) - set(m.get_symbols())
    rec.expect(not missing, key, lambda: '%s: variables %s are missing from\n%s' % (key, missing, text[1]))
    bad = snap.ill_formed(m)
    rec.expect(not bad, key, lambda: '%s: %s in\n%s' % (key, bad, text[1]))
    for ev, p in probes:
        q = attempt(lambda: float(m.prob(ev)))
        rec.step()
        rec.expect(q[0] == 'ok' and (q[1] == p or abs(q[1] - p) <= TOL), key, lambda: '%s: probability of %s is %r, expected %r, in the rendered program\n%s' % (key, ev, q[1], p, text[1]))
    stream = io.StringIO('')
    rec.expect(render_sppl(spe, stream=stream) is stream and stream.getvalue() == text[1], key, lambda: '%s: rendering to a stream gave %r' % (key, stream.getvalue()))
    if twice:
        got = attempt(compiled, m)
        if rec.expect(got[0] == 'ok', key, lambda: '%s: rendering and compiling the compiled model raised %r' % (key, got[1])):
            for ev, p in probes[:6]:
                q = attempt(lambda: float(got[1][0].prob(ev)))
                rec.step()
                rec.expect(q[0] == 'ok' and (q[1] == p or abs(q[1] - p) <= TOL), key, lambda: '%s: probability of %s is %r in the program rendered from the compiled model, expected %r' % (key, ev, q[1], p))
    return m

def run_spec(spec, rec):
    key = ''.join(sorted(tosppl.NAMES.values())[:1]) + json.dumps(spec).replace(' ', '')
    rec.state(key)
    try:
        want = dist.build(spec)
    except (dist.Zero, KeyError):
        rec.outcome('no such model')
        return
    made = attempt(tomodel.model, spec)
    if made[0] == 'err':
        rec.outcome('not constructed')
        return
    rec.sample({'spec': spec})
    lits = models.literals(spec, 5)
    evs = models.signed(lits)[::2] + [['and', a, ['not', b]] for a, b in zip(lits, lits[1:])]
    check(made[1], [(tosppl.event(e), want.prob(e)) for e in evs], key, rec, len(key) < 150)

def run_odd(name, rec):
    rec.state(name)
    if name == 'constrain-types':
        return  # The location 1/3 is rounded to floating point by atomic().
    spe = c18.ODD[name]()
    if not all(re.match(r'[A-Za-z_]\w*(\[\d+\])?$', s.token) for s in spe.get_symbols()):
        return
    check(spe, [(ev, float(spe.prob(ev))) for ev in c18.odd_events(spe)], 'odd:' + name, rec)

def run_distribution(c, rec):
    name = c['distribution']
    x = Id('X')
    rec.state(json.dumps(c))
    spe = getattr(D, name)(**c['kwargs'])(x)
    qs = [float(spe.dist.ppf(q)) for q in (.1, .5, .9)]
    slow = name in c16.SLOW
    probes = [ev for q in qs for ev in (x < q, x <= q, x << {q}, (x > q - 1) & (x < q + 1))][:2 if slow else 99]
    key = '%s:%s' % (name, json.dumps(c['kwargs']).replace(' ', ''))
    check(spe, [(ev, float(spe.prob(ev))) for ev in probes], key, rec, False)
    if not slow:
        a = attempt(spe.condition, x < qs[2])
        if a[0] == 'ok':
            check(a[1], [(ev, float(a[1].prob(ev))) for ev in probes], key, rec, False)

def cases(tier):
    return [c for c in c18.cases(tier) if 'repr' not in c] + [{'odd': None}]

MORE = [
    # Names that the renderer uses itself.
    lambda: (Id('branch_var_0') >> D.norm()) & ((.5*(Id('X') >> D.norm())) | (.5*(Id('X') >> D.uniform()))),
    lambda: (Id('X') >> D.norm()) & ((.5*(Id('branch_var_1') >> D.norm())) | (.5*(Id('branch_var_1') >> D.uniform()))) & ((.25*(Id('branch_var_0') >> D.norm())) | (.75*(Id('branch_var_0') >> D.uniform()))),
    lambda: (.5*((Id('A[1]') >> D.norm()) & (Id('A[0]') >> D.norm())) | .5*((Id('A[1]') >> D.uniform()) & (Id('A[0]') >> D.poisson(mu=2)))),
    lambda: ((Id('A[10]') >> D.norm()) & (Id('A[2]') >> D.norm())).transform(Id('B[3]'), Id('A[2]')**2 + 1),
]

def run_case(c, rec):
    tosppl.use_names(c.get('names'))
    if 'specs' in c:
        for s in c['specs']:
            run_spec(s, rec)
    elif 'distribution' in c:
        run_distribution(c, rec)
    elif c['odd'] is None:
        for i, make in enumerate(MORE):
            rec.state(i)
            spe = make()
            check(spe, [(ev, float(spe.prob(ev))) for ev in c18.odd_events(spe)], 'more:%d' % (i,), rec)
    else:
        run_odd(c['odd'], rec)
