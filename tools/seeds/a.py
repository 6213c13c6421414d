S='src/sets.py'; T='src/transforms.py'
SEEDS = [
dict(id='c01-finite-part', property='C01',
 edits=[(S, """            interval_part = next(iter(interval_union.intervals))
            blocks.append(interval_part)
            finite_current = interval_union.atoms
""", """            blocks.append(interval)
            finite_current = interval_union.atoms
""")],
 needs='the union of several intervals with several points of which one closes an open end of an interval and another lies elsewhere',
 breaks='the point that closes the end is lost',
 demo="""
from sppl.sets import FiniteReal, Interval
x = (Interval.open(0, 1) | Interval(3, 4)) | FiniteReal(1, 7)
assert 1 in x and 7 in x and 0.5 in x and 0 not in x, x
"""),
dict(id='c01-both-ends', property='C01',
 edits=[(S, """            if interval.b in self and interval.right_open \\
                    and not isinf_pos(interval.b):
                interval = Interval(interval.a, interval.b,
                    left_open=interval.left_open,
                    right_open=None)
            values""", """            if interval.b in self and interval.right_open \\
                    and not isinf_pos(interval.b):
                interval = Interval(interval.a, interval.b,
                    left_open=x.left_open,
                    right_open=None)
            values""")],
 needs='the union of an open interval with both of its end points',
 breaks='the left end point is listed separately, so the result is not normalised',
 demo="""
from sppl.sets import FiniteReal, Interval
x = FiniteReal(0, 1, 7) | Interval.open(0, 1)
assert 0 in x and 1 in x and 7 in x, x
assert x == (FiniteReal(7) | Interval(0, 1)), x
"""),
dict(id='c03-piecewise-finite', property='C03',
 edits=[(T, """    def invert_finite(self, ys):
        xs_list = get_piecewise_inverse(lambda subexpr: subexpr.invert(ys),
            self.subexprs, self.domains)
        return make_union(*xs_list)
    def invert_interval""", """    def invert_finite(self, ys):
        xs_list = get_piecewise_inverse(
            lambda subexpr: make_union(*[subexpr.finv(y) for y in ys])
                if len(ys) > 1 else subexpr.invert(ys),
            self.subexprs, self.domains)
        return make_union(*xs_list)
    def invert_interval""")],
 needs='a piecewise function one of whose pieces is a composition of two functions, compared with a set of at least two numbers',
 breaks='only the outermost function of a piece is inverted',
 demo="""
from sppl.transforms import Id
X = Id('X')
f = (X < 0)*X + (0 <= X)*abs(X - 3)
e = f << {1, -1}
s = e.solve()
assert 4 in s and 2 in s and -1 in s and 1 not in s, s
"""),
]
