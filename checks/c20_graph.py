"""C20: rendered structure matches the model
(every model of a finite family x every clock behaviour, against the
structure of the model)."""

import itertools
import json
import math
import sys
import time
import types

from vlib import fastsym    # First: see there.
from vlib import dist, models, tomodel
from vlib.core import attempt
from checks import c18_roundtrip as c18

try:
    import graphviz    # pylint: disable=unused-import
except ImportError:
    sys.modules['graphviz'] = types.ModuleType('graphviz')

from sppl.magics import render as magics_render
from sppl.render import render_nested_lists, render_nested_lists_concise
from sppl.spe import AtomicLeaf, LeafSPE, NominalLeaf, ProductSPE, SumSPE

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of models (construction histories) x clock behaviours injected into the real renderer; the graph is decoded and compared with the structure of the model as trees, and the nested lists with every node of the model'
LEVEL_NOTE = 'Every model of the family and its successors under every clock of the alphabet: frozen, coarse, backwards, oscillating, decimal shifts, strictly increasing and real.'
BOUNDS = {
    'quick': '58 base models and their successors (650 models) x 8 clocks',
    'thorough': 'successors of successors (5000 models) x 8 clocks',
}
ASSUMPTIONS = ['the attributes children, weights, symbol, dist, env describe the model (their meaning is checked by C07, C08, C18)']

def clocks():
    yield 'frozen', lambda: itertools.repeat(1605734.5)
    yield 'coarse2', lambda: (1e9 + i // 2 for i in itertools.count())
    yield 'coarse7', lambda: (1e9 + i // 7 * .5 for i in itertools.count())
    yield 'backwards', lambda: (1e9 - i for i in itertools.count())
    yield 'oscillating', lambda: (1e9 + i % 2 for i in itertools.count())
    yield 'decimal', lambda: itertools.cycle([1605734.5, 16057345., 160573.45, 1.6057345])
    yield 'steady', lambda: (1e9 + i * .25 for i in itertools.count())
    yield 'real', lambda: None

CLOCKS = dict(clocks())

class Clock():
    """Replaces the clock while in scope."""
    NAMES = {'time': 1, 'monotonic': 1, 'perf_counter': 1, 'process_time': 1, 'time_ns': 10**9, 'monotonic_ns': 10**9, 'perf_counter_ns': 10**9}
    def __init__(self, ticks):
        self.ticks = ticks
    def __enter__(self):
        self.saved = {n: getattr(time, n) for n in self.NAMES}
        if self.ticks is not None:
            for n, k in self.NAMES.items():
                setattr(time, n, lambda k=k: next(self.ticks) if k == 1 else int(next(self.ticks) * k))
    def __exit__(self, *_):
        for n, f in self.saved.items():
            setattr(time, n, f)

# ------------------------------------------------------------------------------
# The structure of a model, as a tree.

def name(spe):
    if isinstance(spe, NominalLeaf):
        return 'Nominal'
    if isinstance(spe, AtomicLeaf):
        return 'Atomic'
    return spe.dist.dist.name

def tree(spe):
    """(kind, [(edge, tree)]), children in a canonical order."""
    if isinstance(spe, LeafSPE):
        subs = [(('derived', str(k)), ('expr', str(v), ())) for k, v in spe.env.items() if k != spe.symbol]
        return ('leaf', '%s %s' % (spe.symbol, name(spe)), tuple(sorted(subs, key=repr)))
    weights = spe.weights if isinstance(spe, SumSPE) else [None] * len(spe.children)
    subs = [(('weight', '%1.3f' % (math.exp(w),)) if w is not None else ('part',), tree(c)) for w, c in zip(weights, spe.children)]
    return ('sum' if isinstance(spe, SumSPE) else 'product', '', tuple(sorted(subs, key=repr)))

def size(t):
    return 1 + sum(size(s) for _, s in t[2])

def decode(G, node, parent_kind=None):
    data = G.nodes[node]
    label = data['label']
    edges = list(G.out_edges(node, data=True))
    if label == '\N{PLUS SIGN}':
        kind, text = 'sum', ''
    elif label == '\N{MULTIPLICATION SIGN}':
        kind, text = 'product', ''
    elif parent_kind == 'leaf':
        kind, text = 'expr', label
    else:
        lines = label.split('\n')
        kind, text = 'leaf', '%s %s' % (lines[0], lines[1].split('(')[0])
    subs = []
    for (_, child, edge) in edges:
        l = edge.get('label')
        e = ('part',) if l is None else ('weight', l) if kind == 'sum' else ('derived', l.strip())
        subs.append((e, decode(G, child, kind)))
    return (kind, text, tuple(sorted(subs, key=repr)))

def check_graph(spe, key, rec):
    want = tree(spe)
    for clock, make in CLOCKS.items():
        rec.step()
        rec.trace()
        with Clock(make()):
            got = attempt(magics_render.render_networkx_graph, spe)
        what = '%s, clock %s' % (key, clock)
        if not rec.expect(got[0] == 'ok', key, lambda: '%s: rendering raised %r' % (what, got[1])):
            return
        G = got[1]
        roots = [n for n in G.nodes if not G.in_degree(n)]
        if not rec.expect(len(roots) == 1 and G.number_of_nodes() == size(want) and G.number_of_edges() == size(want) - 1
                and all(G.in_degree(n) <= 1 for n in G.nodes), key, lambda: '%s: the graph has %d nodes, %d edges and roots %s; the model has %d nodes' % (
                what, G.number_of_nodes(), G.number_of_edges(), roots, size(want))):
            return
        have = decode(G, roots[0])
        if not rec.expect(have == want, key, lambda: '%s: the graph is %s, expected %s' % (what, have, want)):
            return
    rec.outcome('graph of %d nodes' % (size(want),) if size(want) < 10 else 'larger graph')

# ------------------------------------------------------------------------------
# Nested lists.

def concise(spe):
    if isinstance(spe, LeafSPE):
        return [(str(k), str(v)) for k, v in spe.env.items()]
    op = '+' if isinstance(spe, SumSPE) else '*'
    return ['%s(%d)' % (op, len(spe.children)), [concise(c) for c in spe.children]]

def same(x, y):
    return x == y or (isinstance(x, (int, float)) and abs(x - y) < 1e-9)

def nested(lists, spe, path):
    """A difference between nested lists and a model, or None."""
    try:
        (kind, fields) = lists
        d = {k: v for k, v in fields}
        assert len(d) == len(fields)
    except (TypeError, ValueError, AssertionError):
        return '%s: not a list of fields: %r' % (path, lists)
    if kind.endswith('Leaf') != isinstance(spe, LeafSPE) or (not isinstance(spe, LeafSPE) and kind != type(spe).__name__
            and not isinstance(spe, SumSPE)):
        return '%s: %s is listed as %s' % (path, type(spe).__name__, kind)
    if isinstance(spe, LeafSPE):
        if d.get('symbol') != spe.symbol:
            return '%s: symbol %r' % (path, d.get('symbol'))
        if dict(d.get('env', {})) != dict(spe.env):
            return '%s: derived variables %r, expected %r' % (path, d.get('env'), spe.env)
        if isinstance(spe, NominalLeaf):
            want = {x: float(w) for x, w in spe.dist.items()}
            if d.get('dist') != want:
                return '%s: outcomes %r, expected %r' % (path, d.get('dist'), want)
        elif isinstance(spe, AtomicLeaf):
            if d.get('value') != spe.value:
                return '%s: value %r, expected %r' % (path, d.get('value'), spe.value)
        else:
            (dname, args, kwds) = d['dist']
            if hasattr(spe.dist.dist, 'xk'):
                (xk, pk) = kwds.get('values', ((), ()))
                if dict(zip(map(int, xk), map(float, pk))) != dict(zip(map(int, spe.dist.dist.xk), map(float, spe.dist.dist.pk))):
                    return '%s: table %r' % (path, d['dist'])
            elif (dname, tuple(args), dict(kwds)) != (spe.dist.dist.name, spe.dist.args, spe.dist.kwds):
                return '%s: distribution %r' % (path, d['dist'])
            if d.get('support') != spe.support or d.get('conditioned') != spe.conditioned:
                return '%s: support %r, %r' % (path, d.get('support'), d.get('conditioned'))
        return None
    if set(d.get('symbols', ())) != set(spe.get_symbols()):
        return '%s: variables %r' % (path, d.get('symbols'))
    if d.get('n_children') != len(spe.children) or len(d.get('children', ())) != len(spe.children):
        return '%s: %r children of %d' % (path, d.get('n_children'), len(spe.children))
    if isinstance(spe, SumSPE):
        ws = d.get('weights', ())
        if len(ws) != len(spe.weights) or not all(same(math.exp(a), b) for a, b in zip(spe.weights, ws)):
            return '%s: weights %r' % (path, ws)
    for i, (l, c) in enumerate(zip(d['children'], spe.children)):
        bad = nested(l, c, '%s.%d' % (path, i))
        if bad:
            return bad
    return None

def check_lists(spe, key, rec):
    rec.step()
    got = attempt(render_nested_lists, spe)
    if rec.expect(got[0] == 'ok', key, lambda: '%s: nested lists raised %r' % (key, got[1])):
        bad = nested(got[1], spe, 'root')
        rec.expect(not bad, key, lambda: '%s: nested lists: %s' % (key, bad))
    got = attempt(render_nested_lists_concise, spe)
    rec.expect(got == ('ok', concise(spe)), key, lambda: '%s: concise lists %r, expected %r' % (key, got[1], concise(spe)))

def check(spe, key, rec):
    rec.state(key)
    check_graph(spe, key, rec)
    check_lists(spe, key, rec)

def cases(tier):
    return [c for c in c18.cases(tier) if 'specs' in c or 'odd' in c]

def run_case(c, rec):
    if 'odd' in c:
        check(c18.ODD[c['odd']](), 'odd:' + c['odd'], rec)
        return
    for spec in c['specs']:
        key = json.dumps(spec).replace(' ', '')
        made = attempt(tomodel.model, spec)
        if made[0] == 'err':
            rec.outcome('no such model')
            continue
        rec.sample({'spec': spec})
        check(made[1], key, rec)
        # Shared subtrees are rendered once for each parent.
        if len(key) < 200 and 'X' in dist.symbols(spec):
            m = made[1]
            check(.25*m | .75*tomodel.model(spec), 'mix:' + key, rec)
