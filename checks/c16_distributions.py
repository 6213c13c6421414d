"""C16: distribution constructors give the distribution they name
(exhaustive over the catalogue x parameters x probes, against scipy's
distribution of that name and closed forms)."""

import math

from collections import Counter
from fractions import Fraction

import numpy
import scipy.stats

from vlib import fastsym    # First: see there.
from vlib.core import attempt
from sppl import distributions
from sppl.sets import Interval, FiniteReal, inf
from sppl.transforms import Id

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of the distribution catalogue x parameter alphabet x every pair of probe points (interval ends open and closed) x conditioning step on the real constructors, against the distribution of that name and closed forms'
LEVEL_NOTE = 'Every constructor of the catalogue is called with every parameter set of a finite alphabet, with location and scale; every interval and point over a grid with the support ends, points outside and 7 quantiles is queried before and after conditioning. The oracle for the catalogue is scipy\'s frozen distribution of that name, cross-checked by closed forms written here for 17 of them.'
BOUNDS = {
    'quick': '101 distributions x 4 location/scale choices, 1-2 shape settings; grid of 9-13 points; all intervals between neighbours and from the ends; discrete tables of up to 5 outcomes',
    'thorough': 'the same with 4 more location/scale choices and all pairs of grid points, all four kinds of ends',
}
ASSUMPTIONS = [
    'scipy.stats computes the distributions of its catalogue correctly (cross-checked by closed forms for 17 of them)',
    'agreement within 1e-6 counts as equal',
]
TOL = 1e-6

PAR = dict(
 alpha=dict(a=3.57), anglit={}, arcsine={}, argus=dict(chi=1), beta=dict(a=2,b=3), betaprime=dict(a=5,b=6), bradford=dict(c=0.3),
 burr=dict(c=10.5,d=4.3), burr12=dict(c=10,d=4), cauchy={}, chi=dict(df=5), chi2=dict(df=5), cosine={}, crystalball=dict(beta=2,m=3),
 dgamma=dict(a=1.1), dweibull=dict(c=2), erlang=dict(a=2), expon={}, exponnorm=dict(K=1.5), exponweib=dict(a=3,c=2), exponpow=dict(b=2.7),
 f=dict(dfn=29,dfd=18), fatiguelife=dict(c=29), fisk=dict(c=3), foldcauchy=dict(c=4.7), foldnorm=dict(c=2), genlogistic=dict(c=.4), gennorm=dict(beta=1.3),
 genpareto=dict(c=.1), genexpon=dict(a=9,b=16,c=3), genextreme=dict(c=-.1), gausshyper=dict(a=14,b=3,c=2.5,z=5), gamma=dict(a=2), gengamma=dict(a=4.4,c=3.1),
 genhalflogistic=dict(c=.77), geninvgauss=dict(p=2.3,b=1.5), gilbrat={}, gompertz=dict(c=.9), gumbel_r={}, gumbel_l={}, halfcauchy={}, halflogistic={}, halfnorm={},
 halfgennorm=dict(beta=.7), hypsecant={}, invgamma=dict(a=4), invgauss=dict(mu=.15), invweibull=dict(c=10.6), johnsonsb=dict(a=4.3,b=3.2), johnsonsu=dict(a=2.5,b=2.2),
 kappa4=dict(h=.1,k=0.), kappa3=dict(a=1), ksone=dict(n=10), kstwobign={}, laplace={}, levy={}, levy_l={}, levy_stable=dict(alpha=1.8,beta=-.5), logistic={}, loggamma=dict(c=.4),
 loglaplace=dict(c=3.25), lognorm=dict(s=.95), loguniform=dict(a=.5,b=4), lomax=dict(c=1.88), maxwell={}, mielke=dict(k=10.4,s=4.6), moyal={}, nakagami=dict(nu=4.97),
 ncx2=dict(df=21,nc=1), ncf=dict(dfn=27,dfd=27,nc=.4), nct=dict(df=14,nc=.24), norm={}, norminvgauss=dict(a=1.25,b=.5), pareto=dict(b=2.62), pearson3=dict(skew=.1),
 powerlaw=dict(a=1.66), powerlognorm=dict(c=2.14,s=.446), powernorm=dict(c=4.45), rdist=dict(c=.9), rayleigh={}, rice=dict(b=.775), recipinvgauss=dict(mu=.63), semicircular={},
 skewnorm=dict(a=4), t=dict(df=2.74), trapz=dict(c=.2,d=.8), triang=dict(c=.158), truncexpon=dict(b=4), truncnorm=dict(a=-.1,b=2), tukeylambda=dict(lam=3.13), uniform={},
 vonmises=dict(kappa=3.99), vonmises_line=dict(kappa=3.99), wald={}, weibull_min=dict(c=1.79), weibull_max=dict(c=2.87), wrapcauchy=dict(c=.031),
 bernoulli=dict(p=.3), betabinom=dict(n=5,a=2.3,b=.63), binom=dict(n=5,p=.4), boltzmann=dict(lambda_=1.4,N=19), dlaplace=dict(a=.8), geom=dict(p=.5), hypergeom=dict(M=20,n=7,N=12),
 logser=dict(p=.6), nbinom=dict(n=5,p=.5), planck=dict(lambda_=.51), poisson=dict(mu=.6), randint=dict(low=7,high=31), skellam=dict(mu1=15,mu2=8), zipf=dict(a=6.5), yulesimon=dict(alpha=11),
)
PAR2 = dict(
    norm=dict(loc=3, scale=2), beta=dict(a=.5, b=.5), gamma=dict(a=.5), uniform=dict(loc=-1, scale=.25),
    genextreme=dict(c=.5), genhalflogistic=dict(c=2), kappa4=dict(h=-.5, k=.3), t=dict(df=1), trapz=dict(c=0, d=1),
    triang=dict(c=1), truncnorm=dict(a=2, b=3), truncexpon=dict(b=.5), loguniform=dict(a=1, b=2), pareto=dict(b=1),
    poisson=dict(mu=7), binom=dict(n=1, p=.25), bernoulli=dict(p=.75), geom=dict(p=.9), randint=dict(low=-2, high=-1),
    hypergeom=dict(M=10, n=8, N=6), betabinom=dict(n=3, a=1, b=1), boltzmann=dict(lambda_=.5, N=2), nbinom=dict(n=1, p=.25),
    skellam=dict(mu1=1, mu2=2), dlaplace=dict(a=2), zipf=dict(a=2.5), genpareto=dict(c=0), crystalball=dict(beta=1, m=2),
    weibull_min=dict(c=1), expon=dict(scale=.5), tukeylambda=dict(lam=-.5), pearson3=dict(skew=2), logser=dict(p=.1),
)
# Support ends that scipy does not report.
CIRCLE = {'vonmises'}
# scipy's numerical integrals of these are slow: fewer probes.
SLOW = {'levy_stable', 'gausshyper', 'ksone', 'kstwobign', 'kappa4', 'norminvgauss', 'geninvgauss', 'argus'}
# No finite value of the numeric cdf at far points, or too inexact.
INEXACT = {'levy_stable'}

X = Id('X')
phi = lambda z: .5 * math.erfc(-z / math.sqrt(2))
# Closed forms of the standard distribution functions, on their support.
CLOSED = {
    'norm': lambda x: phi(x),
    'expon': lambda x: 1 - math.exp(-x),
    'uniform': lambda x: x,
    'laplace': lambda x: .5 * math.exp(x) if x < 0 else 1 - .5 * math.exp(-x),
    'logistic': lambda x: 1 / (1 + math.exp(-x)),
    'cauchy': lambda x: .5 + math.atan(x) / math.pi,
    'rayleigh': lambda x: 1 - math.exp(-x * x / 2),
    'halfnorm': lambda x: 2 * phi(x) - 1,
    'gumbel_r': lambda x: math.exp(-math.exp(-x)),
    'gumbel_l': lambda x: 1 - math.exp(-math.exp(x)),
    'pareto': lambda x, b: 1 - x**-b,
    'weibull_min': lambda x, c: 1 - math.exp(-x**c),
    'loguniform': lambda x, a, b: math.log(x / a) / math.log(b / a),
    'lognorm': lambda x, s: phi(math.log(x) / s),
    'powernorm': lambda x, c: 1 - phi(-x)**c,
    'genlogistic': lambda x, c: (1 + math.exp(-x))**-c,
    'truncexpon': lambda x, b: (1 - math.exp(-x)) / (1 - math.exp(-b)),
}

LOCSCALE = {
    'quick': [{}, {'loc': 1}, {'loc': -2., 'scale': 3}, {'loc': 1.5, 'scale': 2.5}],
    'thorough': [{}, {'loc': 1}, {'loc': -2., 'scale': 3}, {'scale': .5}, {'loc': 1.5, 'scale': 2.5}, {'loc': .5, 'scale': 2}, {'loc': 3, 'scale': .25}, {'loc': -7}],
}

TABLES = [
    ['choice', [['a', '1']]],
    ['choice', [['a', '1/2'], ['b', '1/2']]],
    ['choice', [['a', '1/3'], ['b', '1/3'], ['c', '1/3']]],
    ['choice', [['a', '1/7'], ['b', '0'], ['c', '6/7']]],
    ['choice', [['1', '1/4'], ['True', '1/4'], ['b', '1/2']]],
    ['choicef', [['a', .1], ['b', .2], ['c', .7]]],
    ['discrete', [[0, 1.]]],
    ['discrete', [[3, .25], [1, .75]]],
    ['discrete', [[-1, .5], [1, .25], [10, .25]]],
    ['discrete', [[-1, .5], [-2, .25], [0, .25]]],
    ['discrete', [[1, .125], [2, .125], [3, .25], [5, .25], [8, .25]]],
    ['rv_discrete', [[1, .3], [2, .5], [10, .2]]],
    ['uniformd', [[1, 1.]]],
    ['uniformd', [[1, 1/3.], [2, 1/3.], [5, 1/3.]]],
    ['uniformd', [[4, .25], [3, .25], [0, .25], [-4, .25]]],
    ['uniformd2', [[1, .5], [2, .25], [5, .25]]],
    ['atomic', [[0, 1.]]],
    ['atomic', [[-3, 1.]]],
]

def cases(tier):
    out = []
    for table in TABLES:
        out.append({'table': table, 'tier': tier})
    for name in sorted(PAR):
        for k, shape in enumerate([PAR[name]] + ([PAR2[name]] if name in PAR2 else [])):
            disc = hasattr(getattr(scipy.stats, name), 'pmf')
            for ls in LOCSCALE[tier]:
                if set(ls) & set(shape):
                    continue
                if disc and ('scale' in ls or ls.get('loc', 0) % 1):
                    if tier == 'thorough' or 'loc' not in ls or ls['loc'] % 1:
                        continue
                    ls = {'loc': -2}
                if k and ls and tier == 'quick':
                    continue
                if name in SLOW and ls and tier == 'quick' and ls['loc'] >= 0 and (name, len(ls)) != ('argus', 2):
                    continue
                out.append({'name': name, 'shape': shape, 'ls': ls, 'tier': tier})
    return out

def run_case(c, rec):
    if 'table' in c:
        return run_table(c, rec)
    name = c['name']
    kwargs = dict(c['shape'], **c['ls'])
    label = '%s(%s)' % (name, ', '.join('%s=%r' % kv for kv in sorted(kwargs.items())))
    oracle = getattr(scipy.stats, name)(**kwargs)
    got = attempt(lambda: getattr(distributions, name)(**kwargs)(X))
    rec.trace()
    rec.step()
    if not rec.expect(got[0] == 'ok', label, lambda: '%s raised %r' % (label, got[1])):
        return
    spe = got[1]
    rec.state(label)
    loc, scale = kwargs.get('loc', 0), kwargs.get('scale', 1)
    if name in CIRCLE:
        (lo, hi) = (loc - scale * math.pi, loc + scale * math.pi)
    else:
        (lo, hi) = map(float, oracle.support())
    F = lambda x: 0. if x < lo or (x <= lo and not hasattr(oracle.dist, 'pmf')) \
        else (1. if x >= hi else float(oracle.cdf(x)))
    slow = name in SLOW and c['tier'] == 'quick'
    if hasattr(oracle.dist, 'pmf'):
        discrete(label, spe, oracle, F, lo, hi, rec)
    else:
        continuous(label, name, c, spe, oracle, F, lo, hi, slow, loc, scale, rec)
    samples(label, spe, lo, hi, slow, rec)
    rec.sample({'distribution': label, 'support': [lo, hi]})

def query(label, spe, what, event, want, rec):
    got = attempt(lambda: float(spe.prob(event)))
    rec.trace()
    rec.outcome('between' if 1e-9 < want < 1 - 1e-9 else 'trivial')
    rec.expect(got[0] == 'ok' and abs(got[1] - want) <= TOL, label, lambda:
        '%s: P(%s) = %r, expected %r' % (label, what, got[1], want))

def continuous(label, name, c, spe, oracle, F, lo, hi, slow, loc, scale, rec):
    qs = [.05, .5, .9] if slow else [.01, .1, .25, .5, .75, .9, .99]
    if name in CIRCLE:
        grid = [lo + (hi - lo) * k / 8. for k in range(1, 8)]
    else:
        grid = [float(oracle.ppf(q)) for q in qs]
    grid = sorted({x for x in grid if math.isfinite(x)})
    for q, x in zip(qs, grid):
        # The quantiles are only a grid, but should resolve the distribution.
        assert name in CIRCLE or abs(F(x) - q) < 1e-3 or len(grid) < 3, (label, q, x, F(x))
    ends = [x for x in (lo, hi) if math.isfinite(x)]
    out = [e + d * (scale or 1) for e in ends for d in (-1, 1)]
    points = sorted(set(grid + ends + out + [0.]))
    if name in CLOSED:
        shape = c['shape'] if not {'loc', 'scale'} & set(c['shape']) else {}
        for x in points:
            if lo < x < hi:
                want = CLOSED[name]((x - loc) / scale, **shape)
                assert abs(F(x) - want) < 1e-9, (label, x, F(x), want)
    for x in points:
        query(label, spe, 'X <= %r' % (x,), X <= x, F(x), rec)
        query(label, spe, 'X > %r' % (x,), X > x, 1 - F(x), rec)
        query(label, spe, 'X = %r' % (x,), X << {x}, 0., rec)
        density(label, spe, oracle, lo, hi, x, rec)
    pairs = list(zip(points, points[1:])) + list(zip(points, points[2:]))
    if c['tier'] == 'thorough':
        pairs = [(a, b) for i, a in enumerate(points) for b in points[i+1:]]
    for (a, b) in pairs:
        query(label, spe, '%r < X < %r' % (a, b), (X > a) & (X < b), F(b) - F(a), rec)
        if not slow:
            query(label, spe, 'X not in [%r, %r]' % (a, b), (X < a) | (X > b), 1 - F(b) + F(a), rec)
    query(label, spe, 'X real', X << Interval(-inf, inf), 1., rec)
    # Conditioning.
    m = grid[len(grid) // 2]
    for (what, ev, a, b) in (('X < %r' % (m,), X < m, lo, m), ('X >= %r' % (m,), X >= m, m, hi),
            ('%r < X < %r' % (grid[0], grid[-1]), (X > grid[0]) & (X < grid[-1]), grid[0], grid[-1])):
        z = F(b) - F(a)
        got = attempt(lambda: spe.condition(ev))
        rec.trace()
        rec.step()
        if z < 1e-6:
            continue
        if not rec.expect(got[0] == 'ok', label, lambda: '%s given %s raised %r' % (label, what, got[1])):
            continue
        for x in (grid[1], grid[-2]) if slow else points:
            want = (F(min(max(x, a), b)) - F(a)) / z
            query('%s given %s' % (label, what), got[1], 'X <= %r' % (x,), X <= x, want, rec)

def density(label, spe, oracle, lo, hi, x, rec):
    if x in (lo, hi):
        return          # Either value is fine.
    want = float(oracle.pdf(x)) if lo < x < hi else 0.
    if not math.isfinite(want):
        return
    got = attempt(lambda: float(spe.pdf({X: x})))
    rec.trace()
    rec.expect(got[0] == 'ok' and abs(got[1] - want) <= TOL * max(1, want), label, lambda:
        '%s: density at %r is %r, expected %r' % (label, x, got[1], want))

def discrete(label, spe, oracle, F, lo, hi, rec):
    mass = lambda k: float(oracle.pmf(k)) if lo <= k <= hi else 0.
    (a, b) = (int(max(lo, oracle.ppf(.001))) - 2, int(min(hi, oracle.ppf(.999))) + 2)
    points = list(range(a, b + 1))
    if len(points) > 14:
        points = points[:5] + points[len(points)//2 - 1:len(points)//2 + 2] + points[-5:]
    if 0 not in points:
        points.append(0)
    table(label, spe, mass, sorted(points), rec, lambda s, t: F(t) - F(s))

def table(label, spe, mass, points, rec, between=None):
    """Check a distribution on the integers. between(s, t) = P(s < X <= t)."""
    if between is None:
        between = lambda s, t: math.fsum(mass(k) for k in range(int(s) + 1, int(t) + 1))
    total = 0.
    for k in points:
        query(label, spe, 'X = %d' % (k,), X << {k}, mass(k), rec)
        query(label, spe, 'X = %d.5' % (k,), X << {k + .5}, 0., rec)
        got = attempt(lambda: float(spe.pdf({X: k})))
        rec.trace()
        rec.expect(got[0] == 'ok' and abs(got[1] - mass(k)) <= TOL, label, lambda:
            '%s: density at %r is %r, expected %r' % (label, k, got[1], mass(k)))
        got = attempt(lambda: float(spe.pdf({X: k + .5})))
        rec.expect(got[0] == 'ok' and got[1] == 0, label, lambda:
            '%s: density at %r is %r, expected 0' % (label, k + .5, got[1]))
    for (a, b) in zip(points, points[2:]):
        inner = between(a, b - 1)
        query(label, spe, '%d < X < %d' % (a, b), (X > a) & (X < b), inner, rec)
        query(label, spe, '%d <= X <= %d' % (a, b), (X >= a) & (X <= b), inner + mass(a) + mass(b), rec)
        query(label, spe, '%d.5 < X <= %d' % (a, b), (X > a + .5) & (X <= b), inner + mass(b), rec)
        query(label, spe, '%d <= X < %d - .5' % (a, b), (X >= a) & (X < b - .5), inner + mass(a), rec)
        query(label, spe, '%d - .5 <= X <= %d + .5' % (a, b), (X >= a - .5) & (X <= b + .5), inner + mass(a) + mass(b), rec)
        query(label, spe, 'X not in {%d, %d}' % (a, b), ~(X << {a, b}), 1 - mass(a) - mass(b), rec)
        query(label, spe, 'X not in [%d, %d)' % (a, b), (X < a) | (X >= b), 1 - inner - mass(a), rec)
    query(label, spe, 'X real', X << Interval(-inf, inf), 1., rec)
    # Conditioning.
    mid = points[len(points) // 2]
    (a, b) = points[1], points[-2]
    for (what, ev, keep, z) in (
            ('%d - .5 < X < %d + .5' % (a, mid), (X > a - .5) & (X < mid + .5), lambda k: a <= k <= mid, between(a, mid) + mass(a)),
            ('%d - .5 <= X <= %d - .5' % (mid, b), (X >= mid - .5) & (X <= b - .5), lambda k: mid <= k < b, between(mid, b) + mass(mid) - mass(b)),
            ('X != %d' % (mid,), ~(X << {mid}), lambda k: k != mid, 1 - mass(mid)),
            ('X in {%d, %d, %d}' % (points[1], mid, points[-2]), X << {points[1], mid, points[-2]},
                lambda k: k in (points[1], mid, points[-2]), sum(map(mass, {points[1], mid, points[-2]})))):
        got = attempt(lambda: spe.condition(ev))
        rec.trace()
        rec.step()
        if z < 1e-9:
            continue
        if not rec.expect(got[0] == 'ok', label, lambda: '%s given %s raised %r' % (label, what, got[1])):
            continue
        for k in points:
            query('%s given %s' % (label, what), got[1], 'X = %d' % (k,), X << {k},
                mass(k) / z if keep(k) else 0., rec)

def samples(label, spe, lo, hi, slow, rec):
    got = attempt(lambda: spe.sample(2 if slow else 20, prng=numpy.random.RandomState(3)))
    rec.trace()
    if rec.expect(got[0] == 'ok', label, lambda: '%s: sample raised %r' % (label, got[1])):
        for s in got[1]:
            rec.expect(lo - 1e-9 <= float(s[X]) <= hi + 1e-9, label, lambda:
                '%s: the sample %r is outside of [%r, %r]' % (label, s[X], lo, hi))

def run_table(c, rec):
    (kind, pairs) = c['table']
    label = '%s(%s)' % (kind, pairs)
    D = distributions
    weights = {k: float(Fraction(w)) if isinstance(w, str) else w for k, w in pairs}
    build = {
        'choice': lambda: D.choice({k: Fraction(w) for k, w in pairs}),
        'choicef': lambda: D.choice(dict(map(tuple, pairs))),
        'discrete': lambda: D.discrete(dict(map(tuple, pairs))),
        'rv_discrete': lambda: D.rv_discrete(values=(tuple(k for k, _ in pairs), tuple(w for _, w in pairs))),
        'uniformd': lambda: D.uniformd(values=tuple(k for k, _ in pairs)),
        'uniformd2': lambda: D.uniformd(values=(1, 2, 1, 5)),
        'atomic': lambda: D.atomic(loc=pairs[0][0]),
    }[kind]
    got = attempt(lambda: build()(X))
    rec.trace()
    rec.step()
    if not rec.expect(got[0] == 'ok', label, lambda: '%s raised %r' % (label, got[1])):
        return
    spe = got[1]
    rec.state(label)
    if kind.startswith('choice'):
        names = list(weights)
        for mask in range(2 ** len(names)):
            s = {n for i, n in enumerate(names) if mask >> i & 1}
            w = sum(weights[n] for n in s)
            for extra in ([], ['zz']):
                vals = set(s) | set(extra)
                if vals:
                    query(label, spe, 'X in %s' % (sorted(vals),), X << vals, w, rec)
                    query(label, spe, 'X not in %s' % (sorted(vals),), ~(X << vals), 1 - w, rec)
        for n in names + ['zz']:
            got = attempt(lambda: float(spe.pdf({X: n})))
            rec.trace()
            want = weights.get(n, 0.)
            rec.expect(got[0] == 'ok' and abs(got[1] - want) <= TOL, label, lambda:
                '%s: density at %r is %r, expected %r' % (label, n, got[1], want))
        return
    lo, hi = min(weights), max(weights)
    table(label, spe, lambda k: weights.get(k, 0.), list(range(lo - 2, hi + 3)), rec)
    samples(label, spe, lo, hi, False, rec)
    for s in spe.sample(20, prng=numpy.random.RandomState(5)):
        rec.expect(weights.get(int(s[X]), 0) > 0, label, lambda: '%s: sample %r' % (label, s[X]))
