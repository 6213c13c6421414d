"""C17: programs denote what their source says
(all programs of a grammar: prefix x branching construct x bodies x suffix,
and loops, switches and arrays over parameter tables, against an independent
interpreter of the source text)."""

from itertools import product

from vlib import fastsym    # First: see there.
from vlib import dist, interp, snap, tosppl
from vlib.core import attempt
from itertools import permutations
from sppl.compilers.sppl_to_python import SPPL_Compiler

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of the programs of a bounded grammar, each compiled and executed by the real code and compared with an independent interpreter that executes the source statement by statement on an explicit-state model of the distribution'
LEVEL_NOTE = 'Every program of the grammar within the bound; the joint distribution is compared at probe events over every variable and every pair of variables.'
BOUNDS = {
    'quick': '8 prefixes x if (2 and 3 branches, nested, complete without else, conditional expressions) over 30 tests and 14 bodies x 9 suffixes, in covering combinations (840 programs); 13 kinds of block of several (compound) statements in 6 positions (217 programs); 300 chains of 3 and 4 overlapping tests; 620 switch, loop and array programs; 11 names (of distributions, of builtins) x 15 roles; 43 spellings of constants x 6 uses',
    'thorough': 'the same grammar with full products of tests, bodies and suffixes',
}
ASSUMPTIONS = ['distributions that agree at the probe events are equal', 'agreement within 1e-8 counts as equal',
    'a condition or constrain statement inside a branch applies to the executions that reach it; the branch keeps its probability']
TOL = 1e-8

PREFIX = {
    'n': ('X ~= norm()', 'X', 'c'),
    'm': ('X ~= .25*norm() | .75*uniform(loc=-1, scale=3)', 'X', 'c'),
    'p': ('X ~= poisson(mu=2)', 'X', 'd'),
    'r': ('X ~= randint(low=0, high=3)', 'X', 'd'),
    'c': ("N ~= choice({'a': .5, 'b': .25, 'c': .25})", 'N', 'd'),
    'xn': ("X ~= norm()\nN ~= choice({'a': .5, 'b': .25, 'c': .25})", 'XN', 'c'),
    'rn': ("X ~= .5*randint(low=0, high=3) | .5*atomic(loc=1)\nN ~= choice({'a': .5, 'b': .25, 'c': .25})", 'XN', 'd'),
    'xw': ('X ~= uniform(loc=-1, scale=3)\nW ~= X**2', 'XW', 'c'),
}
TESTS = {
    'X': ['X > 0', 'X <= 1/2', '(0 < X) < 1', '0 <= X <= 1', 'X > 0 and X < 1', 'not X > 1', 'X == 1', 'X != 1',
        'X in {0, 1}', 'X not in {0, 2}', 'X**2 < 1', 'abs(X) > 1/2', '(X < 0) | (X > 1)', '~(X > 0)', '1 - X > 0', '0 < X**2 - X',
        'X > 2 or X < 1', '1 >= X', '(X > 0) & ~(X == 1)'],
    'N': ["N == 'a'", "N != 'a'", "N in {'a', 'b'}", "N not in {'c', 'b'}", "(N == 'a') | (N == 'c')"],
    'XN': ["(X > 0) & (N == 'a')", "(X > 0) | (N == 'a')", "X > 0 and N == 'a'", "not (X > 0 or N == 'a')", "((X > 0) & (N == 'a')) | ((X < 1) & (N == 'b'))"],
    'XW': ['W > 1', 'W < 1/4', '(W > 1) & (X > 0)', '(W > 1) | (X > 0)'],
}
BODIES = {
    '': ['Y ~= norm(loc=3)', 'Y ~= .5*atomic(loc=0) | .5*uniform(loc=0, scale=2)', 'Y ~= randint(low=0, high=2)',
        'U ~= randint(low=0, high=2)\nif U == 0:\n    Y ~= norm()\nelse:\n    Y ~= U + 1', 'U ~= uniform()\nY ~= 2*U\ncondition(Y > 1)'],
    'X': ['Y ~= 2*X + 1', 'Y ~= X**2', 'Y ~= norm() if X > 1/2 else norm(loc=1)', 'condition(X < 2)\nY ~= X', 'Y ~= norm()\ncondition((Y > 0) | (X > 0))',
        'if X > 1:\n    Y ~= norm()\nelif X == 1:\n    Y ~= norm(loc=1)\nelse:\n    Y ~= -X'],
    'N': ["if N == 'b':\n    Y ~= norm()\nelse:\n    Y ~= randint(low=0, high=3)", "Y ~= norm(loc=1)\ncondition(N != 'a')",
        "switch (N) cases (s in ['a', 'b', 'c']):\n    Y ~= norm(loc={'a': 0, 'b': 1, 'c': 2}[s])"],
    'W': ['Y ~= W - 1'],
}
SUFFIX = ['', 'condition(Y > 1/2)', 'V ~= Y**2 + 1\ncondition(V < 3)', 'if Y > 0:\n    V ~= norm()\nelse:\n    V ~= Y',
    'V ~= norm() if Y > 1 else poisson(mu=1)', 'condition((Y > 1) | (Y < 0))', 'constrain({Y: 1})']
SUFFIX_X = ['condition((X > 0) | (Y > 1))', 'if X > 0:\n    V ~= norm()\nelse:\n    V ~= 3*X', 'constrain({X: 1})']
SUFFIX_N = ["switch (N) cases (s in ['a', 'b', 'c']):\n    V ~= norm(loc=2) if Y > 0 else atomic(loc=len(s))", "condition((N == 'a') | (Y > 1))", "constrain({N: 'a'})"]

def indent(text, n=1):
    return '\n'.join('    ' * n + l for l in text.split('\n'))

def tests_for(vs):
    return [t for k in ('XN', 'XW', 'X', 'N') if set(k) <= set(vs) for t in TESTS[k]]
def bodies_for(vs):
    return [b for k, bs in BODIES.items() if set(k) <= set(vs) for b in bs]
def suffixes_for(vs, kind):
    # The density of a continuous variable at a point that a test excludes is
    # a matter of convention: constrain it elsewhere.
    x = [s.replace('{X: 1}', '{X: 1/4}') if kind == 'c' else s for s in SUFFIX_X]
    return SUFFIX + (x if 'X' in vs else []) + (SUFFIX_N if 'N' in vs else [])

def assigns(b):
    """The variables a body defines."""
    return {l.strip().split(' ')[0] for l in b.split('\n') if '~=' in l}

def single(b):
    return '\n' not in b and b.startswith('Y ~= ') and ' if ' not in b and '|' not in b

def if2(t, a, b):
    return 'if %s:\n%s\nelse:\n%s' % (t, indent(a), indent(b))
def if2e(t, a, b):
    return 'if %s:\n%s\nelif not (%s):\n%s' % (t, indent(a), t, indent(b))
def if3(t, a, u, b, c):
    return 'if %s:\n%s\nelif %s:\n%s\nelse:\n%s' % (t, indent(a), u, indent(b), indent(c))
def nest(t, a, u, b, c):
    return 'if %s:\n%s\nelse:\n%s' % (t, indent(a), indent(if2(u, b, c)))
def nest1(t, a, u, b, c):
    return 'if %s:\n%s\nelse:\n%s' % (t, indent(if2(u, a, b)), indent(c))
def ifexp(t, a, b):
    return 'Y ~= (%s) if %s else (%s)' % (a[5:], t, b[5:])
def ifexp3(t, a, u, b, c):
    return 'Y ~= (%s) if %s else (%s) if %s else (%s)' % (a[5:], t, b[5:], u, c[5:])

def branching(tier):
    big = tier == 'thorough'
    for name, (pre, vs, kind) in PREFIX.items():
        (ts, bs, ss) = (tests_for(vs), bodies_for(vs), suffixes_for(vs, kind))
        k = 0
        for i, t in enumerate(ts):
            for ai, a in enumerate(bs):
                for bi, b in enumerate(bs):
                    if assigns(a) != assigns(b):
                        continue
                    for form in ('if2', 'if2e', 'ifexp'):
                        if form == 'ifexp' and not (single(a) and single(b)):
                            continue
                        k += 1
                        if not big and k % 61:
                            continue
                        block = {'if2': if2, 'if2e': if2e, 'ifexp': ifexp}[form](t, a, b)
                        for s in (ss if big else [ss[(k // 61) % len(ss)]]):
                            yield pre + '\n' + block + ('\n' + s if s else '')
        for i, t in enumerate(ts):
            for j, u in enumerate(ts):
                if t == u:
                    continue
                for r in range(12 if big else 1):
                    k += 1
                    pick = [bs[(k * m) % len(bs)] for m in (1, 3, 7)]
                    if not big and k % 17:
                        continue
                    form = ['if3', 'nest', 'nest1', 'ifexp3'][(k // 17) % 4]
                    if form == 'ifexp3':
                        sb = [b for b in bs if single(b)]
                        pick = [sb[(k * m) % len(sb)] for m in (1, 3, 2)]
                    elif len({frozenset(assigns(b)) for b in pick}) > 1:
                        pick = [b if assigns(b) == {'Y'} else bs[0] for b in pick]
                    block = {'if3': if3, 'nest': nest, 'nest1': nest1, 'ifexp3': ifexp3}[form](t, pick[0], u, pick[1], pick[2])
                    s = ss[(k // 68) % len(ss)]
                    yield pre + '\n' + block + ('\n' + s if s else '')

CHAINS = [
    ('X ~= norm()', ['X > 1', 'X < 0', 'X > 0', 'X <= 1', '(X > -1) & (X < 2)']),
    ("N ~= choice({'a': .5, 'b': .25, 'c': .25})", ["N == 'a'", "N != 'a'", "N in {'a', 'b'}", "N == 'c'"]),
    ('R ~= randint(low=0, high=3)', ['R == 0', 'R > 0', 'R < 2', 'R in {1, 2}']),
]
def chains(tier):
    """Long chains of overlapping tests, with and without else."""
    for pre, tests in CHAINS:
        for n in ((3, 4) if len(tests) < 5 or tier == 'thorough' else (3,)):
            for ts in permutations(tests, n):
                block = '\n'.join('%s %s:\n    Y ~= atomic(loc=%d)' % ('elif' if i else 'if', t, i) for i, t in enumerate(ts))
                yield pre + '\n' + block
                yield pre + '\n' + block + '\nelse:\n    Y ~= atomic(loc=%d)' % (n,)

# ------------------------------------------------------------------------------
# Switches, loops and arrays.

R_BODIES = ['Y ~= norm(loc=i)', 'Y ~= atomic(loc=i+1)', 'Y ~= (i+1)*R', 'if i > R - 1/2:\n    Y ~= atomic(loc=1)\nelse:\n    Y ~= norm()',
    'Y ~= norm(loc=i)\ncondition(Y > i)', 'Y ~= .5*atomic(loc=i) | .5*atomic(loc=i*i)', 'Y ~= R**2 if R == i else R']
S_BODIES = ["Y ~= norm(loc={'a': 1, 'b': -1, 'c': 2}[s])", 'Y ~= atomic(loc=ord(s) - 97)', "if N == s:\n    Y ~= uniform()\nelse:\n    Y ~= norm()",
    "if N == 'a':\n    Y ~= uniform()\nelse:\n    Y ~= norm()", "Y ~= choice({s: .5, 'z': .5})"]
I_BODIES = ['Y ~= norm(loc=p.right)', 'Y ~= bernoulli(p=(p.left + p.right)/4)', 'Y ~= X - p.left', 'condition(X < p.left + 1/2)\nY ~= X',
    'if X < (p.left + p.right)/2:\n    Y ~= atomic(loc=0)\nelse:\n    Y ~= X']

def switches():
    for values in ['range(3)', '[0, 1, 2]', '(2, 1, 0)', 'range(0, 3)', 'range(2, -1, -1)', '{0: 1, 1: 2, 2: 3}', 'range(4)', '[0, 1, 2, 1]', 'VALUES']:
        for body in R_BODIES:
            for (pre, post) in [('R ~= randint(low=0, high=3)', ''), ('Q ~= bernoulli(p=.25)\nR ~= randint(low=0, high=2) if Q == 0 else randint(low=0, high=3)', ''),
                    ('R ~= randint(low=0, high=3)', 'condition(Y > 1/2)')]:
                consts = 'VALUES = [0, 2, 1]\n' if values == 'VALUES' else ''
                yield '%s%s\nswitch (R) cases (i in %s):\n%s' % (consts, pre, values, indent(body)) + ('\n' + post if post else '')
    for body in ['Y ~= norm(loc=i+10*j)', 'Y ~= atomic(loc=i*j)', 'Y ~= j*R + i', 'if R == j:\n    Y ~= atomic(loc=i)\nelse:\n    Y ~= norm()']:
        for values in ['enumerate([2, 0, 1])', 'enumerate(range(3))', 'enumerate([1, 2, 0], 5)']:
            yield 'R ~= randint(low=0, high=3)\nswitch (R) cases (i, j in %s):\n%s' % (values, indent(body))
            yield 'R ~= randint(low=0, high=3)\nswitch (R) cases ((i, j) in %s):\n%s' % (values, indent(body))
    for values in ["['a', 'b', 'c']", "('c', 'a', 'b')", "'abc'", "['a', 'b', 'c', 'd']", "NAMES"]:
        for body in S_BODIES:
            if "'d'" in values and "'c': 2}" in body:
                continue    # Undefined for 'd', which has probability zero.
            for post in ['', 'condition(N != \'b\')']:
                consts = "NAMES = ['b', 'c', 'a']\n" if values == 'NAMES' else ''
                yield "%sN ~= choice({'a': .5, 'b': .25, 'c': .25})\nswitch (N) cases (s in %s):\n%s" % (consts, values, indent(body)) + ('\n' + post if post else '')
    for values in ['binspace(0, 2, 3)', 'binspace(-1, 3, 5)', '[Interval(0, 1), Interval(1, 2)]', '[Interval(0, 2), Interval(1, 3)]', '[Interval(1/2, 1), Interval(0, 2)]']:
        for pre in ['X ~= uniform(loc=0, scale=2)', 'X ~= .5*uniform(loc=0, scale=2) | .5*atomic(loc=1)', 'X ~= beta(a=2, b=3, loc=0, scale=2)']:
            for body in I_BODIES:
                yield 'from sppl.sym_util import binspace\nfrom sppl.sets import Interval\n%s\nswitch (X) cases (p in %s):\n%s' % (pre, values, indent(body))
    # Nested switches, switches in branches, branches in switches.
    for body in ['Y ~= norm(loc=i+2*j)', 'Y ~= (i+1)*R + j', 'if i > j:\n    Y ~= atomic(loc=1)\nelse:\n    Y ~= atomic(loc=0)'] if False else ['Y ~= norm(loc=i+2*j)', 'Y ~= (i+1)*R + j', 'condition(R == i)\nY ~= atomic(loc=j)']:
        for inner in ['Q', 'R']:
            vals = 'range(2)' if inner == 'Q' else 'range(3)'
            yield 'Q ~= bernoulli(p=.25)\nR ~= randint(low=0, high=3)\nswitch (R) cases (i in range(3)):\n    switch (%s) cases (j in %s):\n%s' % (inner, vals, indent(body, 2))
            yield 'Q ~= bernoulli(p=.25)\nR ~= randint(low=0, high=3)\nswitch (R) cases (i in range(3)):\n    Z ~= atomic(loc=i)\n    switch (%s) cases (j in %s):\n%s' % (inner, vals, indent(body, 2))
            yield 'Q ~= bernoulli(p=.25)\nR ~= randint(low=0, high=3)\nif R > 0:\n    switch (%s) cases (i in %s):\n        j ~= norm()\n        Y ~= norm(loc=i)\nelse:\n    Y ~= uniform()\n    j ~= norm()' % (inner, vals)
    # The shadowed index of an inner switch.
    yield 'Q ~= bernoulli(p=.25)\nR ~= randint(low=0, high=3)\nswitch (R) cases (i in range(3)):\n    switch (Q) cases (i in range(2)): Y ~= atomic(loc=i)'

A_STEPS = ['A[i] ~= A[i-1] + 1', 'A[i] ~= norm(loc=i)', 'if A[i-1] > 0:\n    A[i] ~= norm()\nelse:\n    A[i] ~= 2*A[i-1]',
    'A[i] ~= norm() if A[i-1] > i else A[i-1]**2', 'A[i] ~= .5*atomic(loc=i) | .5*atomic(loc=0)', 'A[i] ~= norm(loc=ps[i])',
    'B[i] ~= bernoulli(p=.25)\nif B[i] == 0:\n    A[i] ~= norm()\nelse:\n    A[i] ~= -A[i-1]',
    'B[i] ~= bernoulli(p=.25)\nswitch (B[i]) cases (b in [0, 1]):\n    A[i] ~= norm(loc=b+i)',
    'A[i] ~= norm()\ncondition(A[i] > i - 1)', 'condition(A[i-1] < 2)\nA[i] ~= A[i-1]**2 - 1']
D_STEPS = ['switch (A[i-1]) cases (a in range(3)):\n    A[i] ~= randint(low=0, high=a+1)', 'A[i] ~= randint(low=0, high=3) if A[i-1] == 1 else A[i-1]',
    'switch (A[i-1]) cases (a in range(3)):\n    B[i] ~= bernoulli(p=(a+1)/4)\n    switch (B[i]) cases (b in range(2)):\n        A[i] ~= atomic(loc=(a+b) % 3)']

def loops():
    for init in ['norm()', 'uniform(loc=-1, scale=3)', 'randint(low=0, high=3)', '.5*norm() | .5*atomic(loc=1)']:
        for step in A_STEPS + (D_STEPS if 'randint' in init else []):
            arrays = 'ps = [5, 1, 2]\nn = 3\nA = array(n)\n' + ('B = array(n)\n' if 'B[' in step else '')
            for head in ['range(1, n)', 'range(1, 2)']:
                yield '%sA[0] ~= %s\nfor i in %s:\n%s' % (arrays, init, head, indent(step))
            yield '%sA[0] ~= %s\n%s\n%s' % (arrays, init, step.replace('[i-1]', '[0]').replace('[i]', '[1]').replace('ps[1]', 'ps[1]').replace('i+1', '2').replace('loc=i', 'loc=1').replace('> i', '> 1').replace('b+i', 'b+1').replace('i - 1', '0'), 'condition(A[1] > 0)') \
                if ' i' not in step.replace('> i', '') else 'X ~= norm()'
            yield '%sA[0] ~= %s\nfor i in range(1, 3):\n%s\ncondition(A[2] > 0)' % (arrays, init, indent(step))
            yield "%sN ~= choice({'a': .25, 'b': .75})\nif N == 'a':\n    A[0] ~= %s\n    for i in range(1, 2):\n%s\nelse:\n    A[0] ~= atomic(loc=1)\n    for i in range(1, 2):\n%s" % (arrays, init, indent(step, 2), indent(step, 2))
    for body in ['A[2*i+j] ~= norm(loc=i, scale=j+1)', 'A[2*i+j] ~= bernoulli(p=(i+1)/(j+3))', 'A[i+2*j] ~= atomic(loc=i-j)',
            'if R > i:\n    A[2*i+j] ~= atomic(loc=j)\nelse:\n    A[2*i+j] ~= norm()', 'A[2*i+j] ~= (j+1)*R + i', 'A[2*i+j] ~= .5*atomic(loc=i) | .5*norm(loc=j)']:
        yield 'A = array(4)\nR ~= randint(low=0, high=3)\nfor i in range(2):\n    for j in range(2):\n%s' % (indent(body, 2),)
        yield 'A = array(4)\nR ~= randint(low=0, high=3)\nfor i in range(0, 2):\n    switch (R) cases (k in range(3)):\n        for j in range(2):\n%s' % (indent(body, 3),)
        yield 'A = array(4)\nR ~= randint(low=0, high=3)\nswitch (R) cases (k in range(3)):\n    for i in range(2):\n        for j in range(2):\n%s\ncondition(A[3] <= 1)' % (indent(body, 3),)
    for source in [
            'k = 2\nA = array(k + 1)\nfor i in range(k + 1):\n    A[i] ~= norm(loc=i) if i > 10 else norm()' if False else 'k = 2\nA = array(k + 1)\nfor i in range(k + 1):\n    A[i] ~= norm(loc=i)',
            'A = array(2)\nX ~= norm()\nfor i in range(2):\n    A[i] ~= X**(i+1)',
            'A = array(2)\nX ~= norm()\nfor i in range(-1, 1):\n    A[i+1] ~= X + i', 'A = array(2)\nX ~= norm()\nfor i in range(-1, 0):\n    A[i+1] ~= X + i',
            'A = array(2)\nX ~= norm()\nfor i in range(0):\n    A[i] ~= X**(i+1)',
            'A = array(3)\nX ~= norm()\nfor i in range(2, 3):\n    A[i] ~= X + i',
            'from fractions import Fraction\nX ~= norm()\nY ~= Fraction(1, 2)*X + Fraction(3, 4)',
            'from fractions import Fraction\nw = Fraction(1, 3)\nX ~= w*norm() | (1-w)*norm(loc=2)',
            'from sppl.transforms import Sqrt\nX ~= norm(loc=0, scale=2)\nif (X < 1):\n    Z ~= -X**3+X**2+6*X\nelse:\n     Z~= -5*Sqrt(X)+11',
            'X ~= uniform(loc=-1, scale=3)\nZ ~= (X > 1)*(X**2) + (X <= 1)*(1 - X)',
            'X ~= norm()\nZ ~= 3*(X > 0) + 1', 'X ~= norm()\nZ ~= abs(X - 1)**2 + 1', 'X ~= uniform(loc=1, scale=2)\nZ ~= 1/X', 'X ~= uniform(loc=0, scale=2)\nZ ~= 2**X',
            'X ~= uniform(loc=0, scale=4)\nZ ~= X**(1, 2)', 'X ~= norm()\nX2 ~= X\nX3 ~= X2 + X2**2',
            'X ~= discrete({0: .25, 3: .75})\nY ~= uniformd(values=[1, 2, 2, 4])\nZ ~= 1 - Y',
            'X ~= norm(); Y ~= X; condition(Y > 0)', 'X ~= norm()\n\n# A comment.\n\nif X > 0:    # Another one.\n    Y ~= norm()\n\nelse:\n\n    Y ~= X',
            'X ~= norm()\nif (\n    (X > 0)\n    & (X < 1)\n):\n    Y ~= norm()\nelse: Y ~= uniform()',
            'X ~= norm()\nY ~= (\n    atomic(loc=0) if X < 0 else\n    atomic(loc=1) if X < 1 else\n    atomic(loc=2))',
            'X ~= .25*norm() \\\n    | .75*norm(loc=1)\nY = norm()',
            "X ~= choice({'1': .5, '2': .5})\nY ~= atomic(loc=1) if X in {'1'} else atomic(loc=2)",
            "X ~= poisson(mu=2)\ncondition((1 <= X) <= 3)\nswitch (X) cases (n in range(1, 4)):\n    Y ~= binom(n=n, p=.5)\n    switch (Y) cases (m in range(0, n+1)):\n        Z ~= binom(n=m, p=.25)",
            "low = {n: n for n in range(1, 4)}\nX ~= randint(low=1, high=4)\nswitch (X) cases (n in range(1, 4)):\n    Y ~= binom(n=n, p=.5)\n    condition((low[n] <= Y + 1) < 4)\n    switch (Y) cases (m in range(0, n+1)):\n        Z ~= binom(n=m, p=.25)",
            "S ~= bernoulli(p=.4)\nmu = 3" if False else "mu = [[5, 7], [5, 15]]\nZ = array(2)\nX = array(2)\nS ~= bernoulli(p=.4)\nswitch (S) cases (s in [0, 1]):\n    Z[0] ~= bernoulli(p=.5)\n    switch (Z[0]) cases (z in [0, 1]):\n        X[0] ~= norm(loc=mu[s][z])\n    for i in range(1, 2):\n        switch (Z[i-1]) cases (z in [0, 1]):\n            Z[i] ~= bernoulli(p=[.2, .8][z])\n            switch (Z[i]) cases (z in [0, 1]):\n                X[i] ~= poisson(mu=mu[s][z])",
            "A = array(2)\nA[0] ~= norm()\nA[1] ~= A[0]**2\nconstrain({A[0]: 1})", "A = array(2)\nA[1] ~= norm()\nA[0] ~= 2*A[1]\nif A[0] > A[1]:\n    B ~= norm()\nelse:\n    B ~= uniform()" if False else "A = array(2)\nA[1] ~= norm()\nA[0] ~= 2*A[1]\nif A[0] > 1:\n    B ~= norm()\nelse:\n    B ~= uniform()",
            "X ~= norm()\nif X > 1:\n    constrain({X: 2})\nelif X > 0:\n    condition(X < 1/2)\nelse:\n    constrain({X: -1})\nY ~= 2*X",
            "P ~= uniform()\nC = array(3)\nfrom sppl.sym_util import binspace\nswitch (P) cases (p in binspace(0, 1, 4)):\n    for i in range(3):\n        C[i] ~= bernoulli(p=(p.left+p.right)/2)\ncondition((C[0] == 1) & (C[1] == 1))",
    ]:
        yield source

# Names that are also the names of distributions, or of Python's builtins, in
# every role that a name can have.
NAMES = ['t', 'f', 'beta', 'gamma', 'norm', 'uniform', 'max', 'id', 'X1', '_x', 'e']
ROLES = [
    '{n} ~= {d}\nY ~= 2*{n} + 1',
    '{n} ~= {d}\nY ~= {n}**2\ncondition({n} > 0)',
    'X ~= {d}\n{n} ~= 2*X + 1\nif {n} > 1:\n    Z ~= 3*{n}\nelse:\n    Z ~= X',
    '{n} = 3\nX ~= {d}\nY ~= {n}*X',
    '{n} = 3\nX ~= {d}\nY ~= X**{n} if X < {n} else X*{n}',
    '{n} = [1, 2]\nX ~= {d}\nY ~= {n}[1]*X + {n}[0]',
    '{n} = 3\nX ~= {d}\ncondition(2*X < {n})\nY ~= (X > 0)*(X*{n}) + (X <= 0)*(-X)',
    'X ~= {d}\nA = array(3)\nfor {n} in range(3):\n    A[{n}] ~= {n}*X + {n}',
    'X ~= {d}\nA = array(3)\nfor {n} in range(1, 3):\n    A[{n}] ~= X**{n}',
    'A = array(3)\nfor {n} in range(3):\n    A[{n}] ~= atomic(loc={n})',
    'A = array(3)\nB = array(3)\nA[0] ~= {d}\nB[0] ~= 2*A[0]\nfor {n} in range(1, 3):\n    A[{n}] ~= atomic(loc={n}) if A[{n}-1] > {n}/2 else atomic(loc=-{n})\n    B[{n}] ~= 2*A[{n}] + 1',
    'R ~= randint(low=0, high=3)\nX ~= {d}\nswitch (R) cases ({n} in range(3)):\n    Y ~= {n}*X + {n}',
    'R ~= randint(low=0, high=3)\nX ~= {d}\nswitch (R) cases (i, {n} in enumerate([0, 1, 2])):\n    Y ~= {n}*X + i',
    '{n} = array(2)\n{n}[0] ~= {d}\n{n}[1] ~= 2*{n}[0]\nY ~= {n}[1] + 1',
    'X ~= {d}\nif X > 0:\n    {n} ~= {d}\nelse:\n    {n} ~= atomic(loc=1)\nY ~= -{n}',
]

def names():
    for n in NAMES:
        for i, role in enumerate(ROLES):
            d = 'uniform(loc=-1, scale=2)' if n == 'norm' else 'norm(loc=1)'
            yield role.format(n=n, d=d)

# Constants by the way they are computed.
CONSTANTS = ['4', '-1', '1/2', '2**2', '7 // 2', '7 % 4', '(1 + 1)*2', 'math.sqrt(4)', 'math.floor(2.5)', 'max(1, 2)', 'min([3, 2])', 'abs(-2)',
    'len([1, 2])', 'sum([1, 2])', 'int("2")', 'float(2)', 'round(2.4)', '[1, 2][1]', '[1, 2].index(2)', '(1, 2)[-1]', '{"x": 2}["x"]', '{"x": 2}.get("x")',
    '"ab".find("b")', 'len("ab".upper())', '[k for k in range(4)][2]', 'sum([k for k in range(3)])', '{k: k + 1 for k in range(3)}[1]', '[3, 2][1 < 2]', '[k if k else 1 for k in range(3)][0]', '(lambda k: k + 1)(2)',
    '(1 == 1) + 1', '(not 1) + 1', '(1 < 2 < 3) + 1', 'list(range(1, 4))[1]', 'sorted([3, 1, 2])[1]', 'dict(x=2)["x"]', 'Fraction(5, 2).numerator', 'Fraction(5, 2)', 'math.pi', 'math.e',
    'list(map(int, ["2"]))[0]', 'list({"x": 2}.values())[0]', 'list(zip([1], [2]))[0][1]']
CUSES = ['X ~= norm(loc=a)', 'X ~= norm(loc=2 if a > 1 else 3)', 'X ~= norm()\nY ~= a*X + a', 'X ~= norm()\ncondition(X < a)',
    'X ~= norm()\nif X < a:\n    Y ~= norm(loc=a)\nelse:\n    Y ~= X + a', 'b = a + 1\nX ~= poisson(mu=2)\nA = array(2)\nfor i in range(2):\n    A[i] ~= X + a*i + b']

def constants():
    for c in CONSTANTS:
        for use in CUSES:
            head = ('import math\n' if 'math' in c else '') + ('from fractions import Fraction\n' if 'Fraction' in c else '')
            yield '%sa = %s\n%s' % (head, c, use)

# Blocks of several statements, each of which may be compound, in every
# position of a compound statement. Every body defines Y and Z.
BLOCKS = {
    'flat': 'Y ~= atomic(loc={k})\nZ ~= {m}*Y + {k}',
    'if-last': 'Y ~= atomic(loc={k})\nif {u}:\n    Z ~= atomic(loc=1)\nelse:\n    Z ~= {m}*Y',
    'if-first': 'if {u}:\n    Y ~= norm(loc={k})\nelse:\n    Y ~= atomic(loc={k})\nZ ~= {m}*Y + 1',
    'elif-first': 'if {u}:\n    Y ~= norm(loc={k})\nelif {w}:\n    Y ~= atomic(loc={k})\nelse:\n    Y ~= uniform()\nZ ~= {m}*Y + 1',
    'if-if': 'if {u}:\n    Y ~= norm(loc={k})\nelse:\n    Y ~= atomic(loc={k})\nif {w}:\n    Z ~= {m}*Y\nelse:\n    Z ~= Y**2',
    'if-middle': 'Q ~= atomic(loc={k})\nif {u}:\n    Y ~= {m}*Q\nelse:\n    Y ~= norm()\nZ ~= Y + 1\ncondition(Z < 5)',
    'if-condition': 'if {u}:\n    Y ~= norm(loc={k})\n    Z ~= uniform()\nelse:\n    Y ~= atomic(loc={k})\n    Z ~= norm()\ncondition((Y > 0) | (Z > 0))',
    'if-whole': 'if {u}:\n    Y ~= norm(loc={k})\n    Z ~= {m}*Y\nelse:\n    Y ~= atomic(loc={k})\n    Z ~= norm()',
    'for-first': 'for i in range(2):\n    B[i] ~= norm(loc=i + {k})\nY ~= B[1]\nZ ~= {m}*Y',
    'for-if': 'for i in range(2):\n    if {u}:\n        B[i] ~= norm(loc=i)\n    else:\n        B[i] ~= atomic(loc={k})\nY ~= B[0] + 1\nZ ~= {m}*Y',
    'switch-first': 'switch (R) cases (r in range(3)):\n    Y ~= norm(loc=r + {k})\nZ ~= {m}*Y',
    'switch-if': 'switch (R) cases (r in range(3)):\n    Y ~= norm(loc=r + {k})\nif {w}:\n    Z ~= {m}*Y\nelse:\n    Z ~= Y',
    'ifexp-first': 'Y ~= norm() if {u} else norm(loc={k})\nZ ~= {m}*Y if {w} else Y + {k}',
}
POSITIONS = {
    'if': 'if {t}:\n{a}\nelse:\n{b}',
    'else': 'if {t}:\n{b}\nelse:\n{a}',
    'elif': 'if {t}:\n{b}\nelif {u}:\n{a}\nelse:\n{b}',
    'elif-else': 'if {t}:\n{b}\nelif {u}:\n{b}\nelse:\n{a}',
    'elif-elif': 'if {t}:\n{b}\nelif {u}:\n{b}\nelif {v}:\n{a}\nelse:\n{b}',
    'switch': 'switch (R) cases (p in range(3)):\n{a}',
}

def blocks(tier):
    (t, u, v, w) = ('X > 0', 'R == 1', '(X > -1) | (R == 2)', '(R > 0) & (X < 1/2)')
    pre = 'X ~= norm()\nR ~= randint(low=0, high=3)'
    for pos, shape in POSITIONS.items():
        for a, inner in BLOCKS.items():
            if pos == 'switch' and a.startswith('switch'):
                continue    # A variable in two enclosing switches: see switches().
            for b in (BLOCKS if tier == 'thorough' else ['flat', 'if-first']):
                # The variables of all branches are the same.
                extra = {('Q', 'B')[name != 'if-middle'] for name in (a, b) if name in ('if-middle', 'for-first', 'for-if')}
                if pos != 'switch' and extra and (a, b) not in [(x, x) for x in BLOCKS]:
                    other = {'Q': 'Q ~= atomic(loc=7)', 'B': 'for i in range(2):\n    B[i] ~= atomic(loc=7)'}
                    has = {'if-middle': 'Q', 'for-first': 'B', 'for-if': 'B'}
                    if len({has.get(a), has.get(b)} - {None}) > 1 or has.get(a) == has.get(b):
                        continue
                    more = [other[e] for e in extra]
                else:
                    (has, more) = ({}, [])
                def fill(name, k, m):
                    body = BLOCKS[name].format(k=k, m=m, u='X > %d' % (k - 1,) if pos == 'switch' else ('R == %d' % (k % 3,)), w=w)
                    if more and name not in has:
                        # After the rest of the block, so as to leave its start alone.
                        body = body + '\n' + more[0]
                    return indent(body)
                kinds = [fill(b, 1, 3), fill(b, 2, 5)]
                text = shape.replace('{a}', fill(a, 0, 2)).replace('{b}', kinds[0], 1).replace('{b}', kinds[1])
                text = text.replace('{t}', t).replace('{u}', u).replace('{v}', v)
                yield ('B = array(2)\n' if 'B[' in text else '') + pre + '\n' + text
                if b == 'flat':
                    yield ('B = array(2)\n' if 'B[' in text else '') + pre + '\n' + text + '\nV ~= Z + 1\ncondition((V > 0) | (X > 1))'

def programs(tier):
    out = dict.fromkeys(branching(tier))
    out.update(dict.fromkeys(blocks(tier)))
    out.update(dict.fromkeys(chains(tier)))
    out.update(dict.fromkeys(switches()))
    out.update(dict.fromkeys(loops()))
    out.update(dict.fromkeys(names()))
    out.update(dict.fromkeys(constants()))
    return list(out)

# ------------------------------------------------------------------------------

def probes(model):
    """Probe events for each variable and each pair of variables."""
    nominal = {}
    for v in sorted(model.symbols()):
        outs = set()
        for c in model.comps:
            if v in c.leaves and isinstance(c.leaves[v], dist.Nominal):
                outs |= {x for x, _ in c.leaves[v].table}
        nominal[v] = sorted(outs)
    single = {}
    for v, outs in nominal.items():
        e = ['id', v]
        if outs:
            single[v] = [['in', e, ['nom', [o], False]] for o in outs[:3]]
        else:
            single[v] = [['cmp', e, '<', .25], ['cmp', e, '<=', 1], ['in', e, ['fin', [0, 1, 2]]], ['cmp', e, '>', 2]]
    out = [ev for evs in single.values() for ev in evs]
    vs = sorted(single)
    for i, a in enumerate(vs):
        for b in vs[i+1:]:
            out.append(['and', single[a][0], single[b][1 % len(single[b])]])
            if len(vs) < 5:
                out.append(['and', single[a][1 % len(single[a])], single[b][0]])
    if len(vs) > 2:
        out.append(['and'] + [single[v][1 % len(single[v])] for v in vs])
    return out

def run_program(source, rec):
    key = source.replace('\n', ';').replace(' ', '_')
    rec.state(source)
    rec.step()
    rec.trace()
    try:
        want = ('ok', interp.run(source))
    except (interp.Reject, dist.Zero) as e:
        want = ('err', e)
    got = attempt(lambda: SPPL_Compiler(source).execute_module().model)
    rec.sample({'program': source})
    rec.outcome('%s, %s' % ('accepted' if want[0] == 'ok' else 'rejected', got[0]))
    if want[0] == 'err':
        rec.expect(got[0] == 'err', key, lambda: 'program\n%s\nis accepted, expected a rejection (%r)' % (source, want[1]))
        return
    if got[0] == 'err':
        rec.fail(key, 'program\n%s\nis rejected: %s: %r' % (source, type(got[1]).__name__, got[1]))
        return
    have = set(map(str, got[1].get_symbols()))
    bad = snap.ill_formed(got[1])
    if bad or have != want[1].symbols():
        rec.fail(key, 'program\n%s\nis a model of %s, expected %s; %s' % (source, have, want[1].symbols(), bad))
        return
    for ev in probes(want[1]):
        p = want[1].prob(ev)
        q = attempt(lambda: float(got[1].prob(tosppl.event(ev))))
        rec.step()
        if q[0] == 'err' or not abs(q[1] - p) <= TOL:
            rec.fail(key, 'program\n%s\ngives %s probability %r, expected %r' % (source, tosppl.event(ev), q[1], p))
            return

def cases(tier):
    ps = programs(tier)
    n = 12
    return [{'i': i, 'programs': ps[i:i+n]} for i in range(0, len(ps), n)]

def run_case(c, rec):
    for source in c['programs']:
        run_program(source, rec)
