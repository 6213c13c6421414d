"""Structural snapshots and well-formedness of models, through the attributes
that the documentation and the serialisers rely on (children, weights,
symbols, env)."""

import math

def snap(spe):
    """A nested tuple of the structure of a model."""
    t = type(spe).__name__
    env = getattr(spe, 'env', None)
    env = tuple((str(k), repr(v)) for k, v in env.items()) if env else ()
    if hasattr(spe, 'children') and spe.children is not None:
        ws = tuple(float(w) for w in getattr(spe, 'weights', ()) )
        return (t, tuple(snap(c) for c in spe.children), ws,
            tuple(sorted(map(str, spe.get_symbols()))))
    d = getattr(spe, 'dist', None)
    if isinstance(d, dict):
        d = tuple(d.items())
    elif d is not None:
        d = (getattr(d.dist, 'name', None), repr(d.args), repr(sorted(d.kwds.items())))
    return (t, str(spe.symbol), d, repr(getattr(spe, 'support', None)),
        repr(getattr(spe, 'value', None)), env)

def ill_formed(spe):
    """A description of what is wrong with a model, or None."""
    children = getattr(spe, 'children', None)
    if children is None:
        d = getattr(spe, 'dist', None)
        if isinstance(d, dict):
            ws = list(map(float, d.values()))
            if any(w < 0 for w in ws) or abs(sum(ws) - 1) > 1e-6:
                return 'weights %s' % (d,)
        return None
    for c in children:
        bad = ill_formed(c)
        if bad:
            return bad
    weights = getattr(spe, 'weights', None)
    if weights is not None:
        if len(weights) != len(children):
            return '%d weights for %d components' % (len(weights), len(children))
        ws = [math.exp(w) for w in weights]
        if any(math.isnan(w) for w in ws) or abs(sum(ws) - 1) > 1e-6:
            return 'mixture weights %s' % (ws,)
        syms = [frozenset(c.get_symbols()) for c in children]
        if len(set(syms)) != 1:
            return 'mixture of different variables %s' % (syms,)
        if frozenset(spe.get_symbols()) != syms[0]:
            return 'variables %s of mixture of %s' % (spe.get_symbols(), syms[0])
    else:
        syms = [s for c in children for s in c.get_symbols()]
        if len(set(syms)) != len(syms):
            return 'product with shared variables %s' % (syms,)
        if frozenset(spe.get_symbols()) != frozenset(syms):
            return 'variables %s of product of %s' % (spe.get_symbols(), syms)
    return None
