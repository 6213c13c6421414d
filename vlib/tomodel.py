"""Translate model specs (vlib.dist) to the public API of sppl."""

from fractions import Fraction

from sppl import distributions
from sppl.spe import ExposedSumSPE

from vlib import tosppl

def kwval(v):
    return float(Fraction(v)) if isinstance(v, str) else v

def weight(w):
    return Fraction(w) if isinstance(w, str) else w

def value(v):
    return v if not isinstance(v, str) or v.isalpha() else tosppl.num(v)

def distribution(d):
    if d[0] == 'choice':
        return distributions.choice({k: weight(p) for k, p in d[1]})
    if d[0] == 'discrete':
        return distributions.discrete({kwval(k): float(weight(p)) for k, p in d[1]})
    return getattr(distributions, d[0])(**{k: kwval(v) for k, v in d[1].items()})

def assignment(pairs):
    return {tosppl.symbol(k): value(v) for k, v in pairs}

def model(m):
    op = m[0]
    if op == 'leaf':
        return distribution(m[2])(tosppl.symbol(m[1]))
    if op == 'prod':
        out = model(m[1])
        for x in m[2:]:
            out = out & model(x)
        return out
    if op == 'sum':
        parts = [weight(w) * model(x) for w, x in m[1]]
        out = parts[0]
        for p in parts[1:]:
            out = out | p
        return out
    if op == 'exposed':
        names = distributions.choice({n: weight(w) for n, w, _ in m[2]})(tosppl.symbol(m[1]))
        return ExposedSumSPE({n: model(x) for n, _, x in m[2]}, names)
    if op == 'mixed':
        parts = [weight(w) * distribution(d) for w, d in m[2]]
        out = parts[0]
        for p in parts[1:]:
            out = out | p
        return out(tosppl.symbol(m[1]))
    if op == 'let':
        return model(m[1]).transform(tosppl.symbol(m[2]), tosppl.expr(m[3]))
    if op == 'cond':
        return model(m[1]).condition(tosppl.event(m[2]))
    if op == 'constr':
        return model(m[1]).constrain(assignment(m[2]))
    assert False, m
