"""C21: notebook commands act on the current program
(every sequence of notebook commands up to a depth, in a real shell, against a
map from names to sources)."""

import contextlib
import io
import itertools
import sys
import types

from vlib import fastsym    # First: see there.
from vlib.core import attempt

try:
    import graphviz    # pylint: disable=unused-import
except ImportError:
    sys.modules['graphviz'] = types.ModuleType('graphviz')

from IPython.core.interactiveshell import InteractiveShell

from sppl import magics as sppl_magics
from sppl.compilers.sppl_to_python import SPPL_Compiler
from sppl.magics import magics as magics_module
from sppl.transforms import Id

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of the sequences of notebook commands up to a depth, each run in a real IPython shell with the real commands; after each command every query about every name is compared with an explicit-state model (a map from names to sources)'
LEVEL_NOTE = 'Every history up to the depth over every name, source (valid, redefining, with a syntax error, failing at run time) and spelling of a command; every query (model, namespace, translation, graph) after every command.'
BOUNDS = {
    'quick': 'histories of up to 3 commands over 3 names x 5 sources, queries on 5 names after each command',
    'thorough': 'histories of up to 4 commands',
}
ASSUMPTIONS = ['a source is recognised by the probabilities of its model and by the constant and variables of its namespace']

SOURCES = {
    'A': ('tag = 1\nX ~= norm()\nY ~= 2*X', {'X'}, .5),
    'B': ('tag = 2\nX ~= uniform(loc=-1, scale=4)\nif X > 1:\n    Z ~= norm()\nelse:\n    Z ~= X', {'X', 'Z'}, .75),
    'C': ("tag = 3\nX ~= .25*norm() | .75*norm(loc=100)\nN ~= choice({'a': 1})", {'X', 'N'}, .875),
    'syntax': ('tag = 4\nX ~= = norm()', None, None),
    'compile': ('tag = 4\nX ~= norm()\nX ~= norm()', None, None),
    'run': ('tag = 5\nX ~= norm()\ncondition((X > 1) & (X < 0))', None, None),
}
NAMES = ['m', 'model2', 'Y2']
QUERIES = NAMES + ['other', '']

def commands(tier):
    for n in NAMES[:2]:
        for s in ('A', 'B', 'C', 'syntax', 'run'):
            yield ('sppl', n, s)
    yield ('sppl', NAMES[2], 'A')
    yield ('sppl', NAMES[1], 'compile')
    yield ('sppl', '', 'A')

class Shell():
    def __init__(self):
        self.shell = InteractiveShell.instance()
        self.rendered = []
        magics_module.render_graphviz = self.render
        sppl_magics.load_ipython_extension(self.shell)
        for n in QUERIES:
            self.shell.user_ns.pop(n, None)
    def render(self, spe, filename=None, **_):
        self.rendered.append((spe, filename))
        return 'graph'
    def run(self, f, *args):
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            got = attempt(f, *args)
        return got + (out.getvalue(), err.getvalue())
    def cell(self, line, cell):
        return self.run(self.shell.run_cell_magic, 'sppl', line, cell)
    def line(self, magic, line):
        # Evaluated as a cell is: local names are those of the notebook.
        code = 'shell_.run_line_magic(%r, %r)' % (magic, line)
        self.shell.user_ns['shell_'] = self.shell
        return self.run(eval, code, self.shell.user_ns)

_translations = {}

def translation(name, source):
    key = (name, source)
    if key not in _translations:
        _translations[key] = SPPL_Compiler(SOURCES[source][0], name).render_module()
    return _translations[key]

def check_state(shell, state, history, rec):
    rec.state(repr(sorted(state.items())))
    where = lambda: 'after %s' % (history,)
    for n in QUERIES:
        for q in ('sppl_get_spe', 'sppl_get_namespace', 'sppl_to_python', 'sppl_to_graph'):
            rec.step()
            del shell.rendered[:]
            (status, value, out, _) = shell.line(q, n)
            key = '%s:%s' % (q, history)
            if n not in state:
                if not rec.expect(status == 'err' and not shell.rendered, key, lambda: '%s, %%%s %s gave %r, expected a rejection' % (where(), q, n, value)):
                    return
                continue
            (source, variables, p) = SOURCES[state[n]]
            if not rec.expect(status == 'ok', key, lambda: '%s, %%%s %s raised %r' % (where(), q, n, value)):
                return
            if q == 'sppl_to_python':
                ok = out.strip() == translation(n, state[n]).strip()
                rec.expect(ok, key, lambda: '%s, %%%s %s printed %r, expected the translation of %r' % (where(), q, n, out, source))
                continue
            if q == 'sppl_to_graph':
                ok = value == 'graph' and len(shell.rendered) == 1
                spe = shell.rendered[0][0] if shell.rendered else None
            elif q == 'sppl_get_namespace':
                ok = value.tag == int(source[6]) and variables <= set(vars(value)) and value.X == Id('X')
                spe = getattr(value, n, None)
            else:
                ok, spe = True, value
            ok = ok and spe is not None and variables <= set(map(str, spe.get_symbols())) and abs(spe.prob(Id('X') < (0 if state[n] == 'A' else 2 if state[n] == 'B' else 100)) - expected(state[n])) < 1e-6
            rec.expect(ok, key, lambda: '%s, %%%s %s gave %r, expected that of %r' % (where(), q, n, value, source))
    # The model, the namespace and the graph are one.
    for n in state:
        a, b = shell.line('sppl_get_spe', n)[1], shell.line('sppl_get_namespace', n)[1]
        rec.expect(getattr(b, n) is a, 'same:%s' % (history,), lambda: '%s, the model of %s is not the one in its namespace' % (where(), n))

def expected(source):
    return {'A': .5, 'B': .75, 'C': .25 + .75 * .5}[source]

def run_history(history, rec):
    shell = Shell()
    state = {}
    rec.trace()
    for i, (_, name, source) in enumerate(history):
        rec.step()
        (status, value, _, err) = shell.cell(name, SOURCES[source][0])
        key = 'sppl:%s' % (history[:i+1],)
        if SOURCES[source][1] is None and name:
            rec.outcome('failed compilation')
            if not rec.expect(status == 'err', key, lambda: 'compiling %r gave %r' % (SOURCES[source][0], value)):
                return
        elif not name:
            rec.outcome('no name')
            rec.expect(status == 'err' or err, key, lambda: 'a cell without a name was accepted silently')
        else:
            rec.outcome('compiled')
            if not rec.expect(status == 'ok', key, lambda: 'compiling %r raised %r' % (SOURCES[source][0], value)):
                return
            state[name] = source
        if i == len(history) - 1:
            # Shorter histories are cases of their own.
            check_state(shell, state, history[:i+1], rec)
    if len(history) <= 2:
        check_local(shell, state, history, rec)

def check_local(shell, state, history, rec):
    """%sppl_to_graph also takes models in the local namespace, and file names."""
    local = Id('X')
    key = 'local:%s' % (history,)
    for n in ('m', 'local_spe'):
        shell.shell.user_ns[n] = local
        try:
            for suffix in ('', ' file', '  '):
                del shell.rendered[:]
                got = shell.line('sppl_to_graph', n + suffix)
                rec.step()
                if n in state:
                    ok = got[0] == 'ok' and len(shell.rendered) == 1 and shell.rendered[0][0] is shell.line('sppl_get_spe', n)[1]
                else:
                    ok = got[0] == 'ok' and len(shell.rendered) == 1 and shell.rendered[0][0] is local
                ok = ok and shell.rendered[0][1] == ('file' if 'file' in suffix else None)
                rec.expect(ok, key, lambda: 'after %s, %%sppl_to_graph %s%s gave %r, %r' % (history, n, suffix, got, shell.rendered))
        finally:
            del shell.shell.user_ns[n]

def cases(tier):
    cs = list(commands(tier))
    depth = 4 if tier == 'thorough' else 3
    out = [{'history': []}]
    for d in range(1, depth + 1):
        if d < 3:
            out += [{'prefix': [], 'depth': d}]
        else:
            out += [{'prefix': list(p), 'depth': d} for p in itertools.product(cs, repeat=d - 2)]
    return out

def run_case(c, rec):
    if 'history' in c:
        run_history(c['history'], rec)
        return
    cs = list(commands(None))
    prefix = [tuple(x) for x in c['prefix']]
    for rest in itertools.product(cs, repeat=c['depth'] - len(prefix)):
        run_history(prefix + list(rest), rec)
