"""Boring reference interpreter of the modeling language: executes the source
text statement by statement on a reference model (vlib.dist).

A branch runs its body on the model conditioned on the branch, and the results
are mixed with the probabilities of the branches; condition and constrain
restrict the executions that reach them.  Nothing here calls the code under
test; Python's own parser reads the source."""

import ast
import math
import re

from fractions import Fraction

from vlib import dist, ref

class Reject(Exception):
    """The program is not valid."""

class Unsupported(Exception):
    """Outside of what this interpreter models."""

# ------------------------------------------------------------------------------
# Values.

def number(x):
    return x if isinstance(x, int) and not isinstance(x, bool) else float(x)

def is_number(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)

class E():
    """A polynomial in a base expression (vlib.ref)."""
    def __init__(self, base, coeffs=(0, 1)):
        self.base = base
        cs = list(coeffs)
        while len(cs) > 1 and cs[-1] == 0:
            cs.pop()
        self.coeffs = cs
    def expr(self):
        if self.coeffs == [0, 1]:
            return self.base
        return ['poly', self.base, [number(c) for c in self.coeffs]]
    def lift(self, x):
        if is_number(x):
            return E(self.base, [x])
        x = expression(x)
        if isinstance(x, E) and x.base == self.base:
            return x
        raise Unsupported('arithmetic on different expressions')
    def __add__(self, x):
        x = self.lift(x)
        n = max(len(self.coeffs), len(x.coeffs))
        get = lambda cs, i: cs[i] if i < len(cs) else 0
        return E(self.base, [get(self.coeffs, i) + get(x.coeffs, i) for i in range(n)])
    __radd__ = __add__
    def __mul__(self, x):
        if isinstance(x, Ev):
            return NotImplemented
        x = self.lift(x)
        out = [0] * (len(self.coeffs) + len(x.coeffs) - 1)
        for i, a in enumerate(self.coeffs):
            for j, b in enumerate(x.coeffs):
                out[i + j] += a * b
        return E(self.base, out)
    __rmul__ = __mul__
    def __neg__(self):
        return self * -1
    def __sub__(self, x):
        return self + (-1 * x)
    def __rsub__(self, x):
        return (-1 * self) + x
    def __truediv__(self, x):
        return self * (1 / Fraction(x) if isinstance(x, (int, Fraction)) else 1 / x)
    def __rtruediv__(self, x):
        return E(['recip', self.expr()]) * x
    def __pow__(self, n):
        if isinstance(n, tuple):
            n = Fraction(*n)
        if isinstance(n, Fraction) and n.denominator > 1:
            return E(['rad', self.expr(), n.denominator]) ** n.numerator
        n = int(n)
        if n < 0:
            return E(['recip', (self ** -n).expr()])
        out = E(self.base, [1])
        for _ in range(n):
            out = out * self
        return out
    def __rpow__(self, b):
        return E(['exp', self.expr(), number(b)])
    def __abs__(self):
        return E(['abs', self.expr()])

class Ev():
    """An event; single is its expression if it is a comparison of one."""
    def __init__(self, ev, single=None):
        self.ev = ev
        self.single = single
    def __and__(self, x):
        return Ev(['and', self.ev, x.ev])
    def __or__(self, x):
        return Ev(['or', self.ev, x.ev])
    def __xor__(self, x):
        return Ev(['xor', self.ev, x.ev])
    def __invert__(self):
        return Ev(['not', self.ev])
    def __mul__(self, x):
        if isinstance(x, E):
            return PW([(x, self)])
        return E(['ind', self.ev]) * x
    __rmul__ = __mul__
    def __add__(self, x):
        return E(['ind', self.ev]) + x
    __radd__ = __add__
    def __bool__(self):
        raise Unsupported('truth value of an event')

class PW():
    def __init__(self, parts):
        self.parts = parts
    def __add__(self, x):
        return PW(self.parts + x.parts)

def expression(x):
    if isinstance(x, Ev):
        return E(['ind', x.ev])
    if isinstance(x, PW):
        return E(['piece', [[e.expr(), ev.ev] for e, ev in x.parts]])
    return x

class Iv():
    """An interval of numbers (stands for sets.Interval)."""
    def __init__(self, left, right, left_open=False, right_open=False):
        (self.left, self.right) = (left, right)
        self.a, self.b = left, right
        self.spec = ['iv', left, right, bool(left_open), bool(right_open)]

class Dist():
    def __init__(self, parts):
        self.parts = parts          # [(weight, [name, kwargs])]
    def __rmul__(self, w):
        return Dist([(w * v, d) for v, d in self.parts])
    def __or__(self, x):
        return Dist(self.parts + x.parts)

def constructor(name):
    def f(*args, **kw):
        if name == 'choice':
            return Dist([(1, ['choice', [(k, number(w)) for k, w in args[0].items()]])])
        if name == 'discrete':
            return Dist([(1, ['discrete', [(k, number(w)) for k, w in args[0].items()]])])
        if name == 'uniformd':
            vs = list(kw['values'])
            return Dist([(1, ['discrete', [(v, vs.count(v) / len(vs)) for v in dict.fromkeys(vs)]])])
        return Dist([(1, [name, {k: number(v) for k, v in kw.items()}])])
    return f

DISTS = {n: constructor(n) for n in list(dist.BASE) + ['choice', 'discrete', 'uniformd']}

def binspace(start, stop, num=10):
    xs = [start + (stop - start) * i / (num - 1) for i in range(num)]
    return [Iv(a, b) for a, b in zip(xs, xs[1:])]

LIBRARY = {
    ('sppl.sym_util', 'binspace'): binspace,
    ('sppl.sets', 'Interval'): Iv,
    ('sppl.transforms', 'Sqrt'): lambda e: e ** Fraction(1, 2),
    ('sppl.transforms', 'Exp'): lambda e: E(['exp', e.expr(), 'e']),
    ('sppl.transforms', 'Log'): lambda e: E(['log', e.expr(), 'e']),
}

# ------------------------------------------------------------------------------
# Operators of the language that are not operators of Python objects.

_FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
_OPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==',
    ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in'}

def contains(e, values):
    if isinstance(values, Iv):
        return Ev(['in', e.expr(), values.spec], e)
    strs = [v for v in values if isinstance(v, str)]
    nums = [number(v) for v in values if not isinstance(v, str)]
    evs = []
    if nums or not strs:
        evs.append(['in', e.expr(), ['fin', nums]])
    if strs:
        evs.append(['in', e.expr(), ['nom', strs, False]])
    return Ev(evs[0] if len(evs) == 1 else ['or'] + evs)

def compare1(a, op, b):
    if op in _FLIP and isinstance(a, Ev) and a.single is not None and is_number(b):
        return a & compare1(a.single, op, b)
    if op in _FLIP and isinstance(b, Ev) and b.single is not None and is_number(a):
        return b & compare1(a, op, b.single)
    (a, b) = (expression(a), expression(b))
    if isinstance(a, E):
        if op in _FLIP and is_number(b):
            return Ev(['cmp', a.expr(), op, number(b)], a)
        if op in ('==', '!='):
            ev = contains(a, [b])
            return ev if op == '==' else ~ev
        if op in ('in', 'not in'):
            ev = contains(a, b)
            return ev if op == 'in' else ~ev
    elif isinstance(b, E) and op in _FLIP:
        return compare1(b, _FLIP[op], a)
    raise Unsupported('comparison')

def compare(left, ops, rights):
    out = None
    for op, right in zip(ops, rights):
        if any(isinstance(x, (E, Ev, PW)) for x in (left, right)):
            part = compare1(left, op, right)
        else:
            part = {'<': lambda: left < right, '<=': lambda: left <= right, '>': lambda: left > right,
                '>=': lambda: left >= right, '==': lambda: left == right, '!=': lambda: left != right,
                'in': lambda: left in right, 'not in': lambda: left not in right}[op]()
        out = part if out is None else boolean('and', out, part)
        left = right
    return out

def boolean(op, *xs):
    (a, b) = (xs[0], xs[1]) if len(xs) == 2 else (xs[0], boolean(op, *xs[1:]))
    if isinstance(a, Ev) and isinstance(b, Ev):
        return a & b if op == 'and' else a | b
    if isinstance(a, Ev):
        (a, b) = (b, a)
    return b if bool(a) == (op == 'and') else a

def negate(x):
    return ~x if isinstance(x, Ev) else not x

class _Rewrite(ast.NodeTransformer):
    def call(self, name, args):
        return ast.Call(ast.Name(name, ast.Load()), args, [])
    def visit_Compare(self, node):
        self.generic_visit(node)
        return self.call('__compare__', [node.left,
            ast.List([ast.Constant(_OPS[type(o)]) for o in node.ops], ast.Load()),
            ast.List(node.comparators, ast.Load())])
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        return self.call('__boolean__', [ast.Constant('and' if isinstance(node.op, ast.And) else 'or')] + node.values)
    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.call('__negate__', [node.operand])
        return node

class Array():
    def __init__(self, name, n):
        (self.name, self.n) = (name, n)
    def __getitem__(self, i):
        return E(['id', self.element(i)])
    def element(self, i):
        if not -self.n <= i < self.n:
            raise Reject('index')
        return '%s[%d]' % (self.name, i % self.n)

# ------------------------------------------------------------------------------
# Statements.

def parse(source):
    lines = []
    for line in source.split('\n'):
        m = re.match(r'^(\s*)switch\s*\(([^()]*)\)\s*cases\s*\((.*)\)\s*:(.*)$', line)
        if m:
            (idx, values) = m.group(3).split(' in ', 1)
            line = '%sfor %s in __switch__(%s, %s):%s' % (m.group(1), idx, m.group(2), values, m.group(4))
        lines.append(line.replace('~=', '='))
    return ast.parse('\n'.join(lines))

class Interp():
    def __init__(self):
        self.scope = dict(DISTS)
        self.scope.update(__compare__=compare, __boolean__=boolean, __negate__=negate)
    def eval(self, node, env):
        expr = ast.fix_missing_locations(ast.Expression(_Rewrite().visit(ast.parse(ast.unparse(node), mode='eval').body)))
        return eval(compile(expr, '<program>', 'eval'), {**self.scope, **env})
    def block(self, body, m, env):
        for s in body:
            m = self.statement(s, m, env)
        return m
    def statement(self, s, m, env):
        if isinstance(s, ast.Assign):
            return self.assign(s.targets[0], s.value, m, env)
        if isinstance(s, ast.If):
            branches = []
            while True:
                branches.append((s.test, s.body))
                if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                    s = s.orelse[0]
                    continue
                break
            if s.orelse:
                branches.append((None, s.orelse))
            elif len(branches) == 1:
                raise Reject('no else')
            return self.branch(m, [(None if t is None else self.eval(t, env),
                lambda m, b=b: self.block(b, m, env)) for t, b in branches])
        if isinstance(s, ast.For):
            f = s.iter.func.id
            args = [self.eval(a, env) for a in s.iter.args]
            if f == 'range':
                for i in range(*args):
                    m = self.block(s.body, m, {**env, **self.bind(s.target, i)})
                return m
            assert f == '__switch__'
            branches = []
            for v in list(args[1]):
                value = v[1] if isinstance(s.target, ast.Tuple) else v
                ev = contains(args[0], value if isinstance(value, Iv) else [value])
                branches.append((ev, lambda m, v=v: self.block(s.body, m, {**env, **self.bind(s.target, v)})))
            return self.branch(m, branches)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            arg = self.eval(s.value.args[0], env) if s.value.func.id == 'condition' else None
            if s.value.func.id == 'condition':
                return m.condition(arg.ev)
            if s.value.func.id == 'constrain':
                d = s.value.args[0]
                pairs = {self.eval(k, env).expr()[1]: self.eval(v, env) for k, v in zip(d.keys, d.values)}
                if any(k not in c.leaves for k in pairs for c in m.comps):
                    raise Reject('constraint on a transformed variable')
                return m.constrain({k: v if isinstance(v, str) else number(v) for k, v in pairs.items()})
        if isinstance(s, ast.Import):
            for a in s.names:
                self.scope[a.asname or a.name] = __import__(a.name)
            return m
        if isinstance(s, ast.ImportFrom):
            for a in s.names:
                if s.module.startswith('sppl'):
                    self.scope[a.asname or a.name] = LIBRARY[(s.module, a.name)]
                else:
                    self.scope[a.asname or a.name] = getattr(__import__(s.module), a.name)
            return m
        raise Unsupported(ast.dump(s))
    def bind(self, target, v):
        if isinstance(target, ast.Tuple):
            return {t.id: x for t, x in zip(target.elts, v)}
        return {target.id: v}
    def assign(self, target, value, m, env):
        if isinstance(value, ast.IfExp) and not isinstance(self.eval(value.test, env), Ev):
            return self.assign(target, value.body if self.eval(value.test, env) else value.orelse, m, env)
        if isinstance(value, ast.IfExp):
            branches = []
            node = value
            while isinstance(node, ast.IfExp):
                branches.append((self.eval(node.test, env), lambda m, v=node.body: self.assign(target, v, m, env)))
                node = node.orelse
            branches.append((None, lambda m, v=node: self.assign(target, v, m, env)))
            return self.branch(m, branches)
        if isinstance(value, ast.Call) and getattr(value.func, 'id', None) == 'array':
            self.scope[target.id] = Array(target.id, self.eval(value.args[0], env))
            return m
        v = expression(self.eval(value, env))
        if isinstance(target, ast.Name):
            name = target.id
        else:
            name = self.scope[target.value.id].element(self.eval(target.slice, env))
        if isinstance(v, Dist):
            if m is not None and name in m.symbols():
                raise Reject('redefinition')
            comps = []
            for c in (m.comps if m is not None else [dist.Comp(1., {}, {}, [])]):
                for (w, d) in v.parts:
                    leaves = dict(c.leaves)
                    leaves[name] = dist.base(d)
                    comps.append(dist.Comp(c.w * float(w), leaves, dict(c.env), list(c.evid)))
            m = dist.Model(comps)
        elif isinstance(v, E):
            if m is None or name in m.symbols() or not ref.symbols_expr(v.expr()) <= m.symbols():
                raise Reject('bad definition')
            comps = []
            for c in m.comps:
                env_ = dict(c.env)
                env_[name] = dist.subst_expr(v.expr(), c.env)
                comps.append(dist.Comp(c.w, c.leaves, env_, c.evid))
            m = dist.Model(comps)
        else:
            self.scope[name] = v
            return m
        if isinstance(target, ast.Name):
            self.scope[name] = E(['id', name])
        return m
    def branch(self, m, branches):
        earlier = []
        comps = []
        total = 0.
        symbols = None
        for (ev, body) in branches:
            nots = [['not', e] for e in earlier]
            here = ['and'] + ([ev.ev] if ev is not None else []) + nots
            if ev is not None:
                earlier.append(ev.ev)
            parts = []
            p = 0.
            for c in m.comps:
                (q, d) = c.condition(here)
                if q > 1e-15:
                    d.w = c.w * q
                    p += d.w
                    parts.append(d)
            if not parts:
                continue
            total += p
            out = body(dist.normalise(parts))
            if symbols is not None and out.symbols() != symbols:
                raise Reject('different variables')
            symbols = out.symbols()
            for c in out.comps:
                comps.append(dist.Comp(c.w * p, c.leaves, c.env, c.evid))
        if not math.isclose(total, 1., abs_tol=1e-7):
            raise Reject('incomplete branches')
        return dist.Model(comps)

def run(source):
    return Interp().block(parse(source).body, None, {})
