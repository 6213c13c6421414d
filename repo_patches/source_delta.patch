From f1cec1f83c0eedd11e03923091e49eb77c83769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 01/70] fix: membership of strings in intervals and of numbers
 in nominal sets

A number is not a member of a (complemented) nominal set, and asking
whether a string lies in an interval is answered no instead of raising
TypeError.
---
 src/sets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index c15833f..4a9799c 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -50,7 +50,7 @@ class FiniteNominal(Set):
         self.b = b
     def __contains__(self, x):
         if self.b:
-            return x not in self.values
+            return isinstance(x, str) and x not in self.values
         return x in self.values
     def __invert__(self):
         if not self.values:
@@ -183,6 +183,8 @@ class Interval(Set):
         # SymPy compatibility.
         (self.left, self.right) = (a, b)
     def __contains__(self, x):
+        if isinstance(x, str):
+            return False
         if self.left_open and self.right_open:
             return self.a < x < self.b
         if self.left_open and not self.right_open:
-- 
2.43.0


From 42d0e1dcc399bd182a96b0f8b53f0333689a1014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 02/70] fix: keep an infinite point when it is joined with an
 unbounded interval

FiniteReal(inf) | Interval(0, inf) dropped the point at infinity.
---
 src/sets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 4a9799c..5639306 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -141,12 +141,14 @@ class FiniteReal(Set):
             # Merge endpoints.
             values = set(self.values)
             interval = x
-            if interval.a in values and interval.left_open:
+            if interval.a in values and interval.left_open \
+                    and not isinf_neg(interval.a):
                 values.remove(interval.a)
                 interval = Interval(interval.a, interval.b,
                     left_open=None,
                     right_open=interval.right_open)
-            if interval.b in values and interval.right_open:
+            if interval.b in values and interval.right_open \
+                    and not isinf_pos(interval.b):
                 values.remove(interval.b)
                 interval = Interval(interval.a, interval.b,
                     left_open=interval.left_open,
-- 
2.43.0


From 5be7cb5adea4a7c9ac81b49375eb84670121c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 03/70] fix: complement of finite sets that contain an infinite
 point

The complement is taken in the (finite) real line; it raised an
AssertionError for FiniteReal(inf) and ExtReals.
---
 src/sets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 5639306..3c9d65c 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -112,7 +112,10 @@ class FiniteReal(Set):
         # inf == oo but hash(inf) != hash(oo)
         return any(x == v for v in self.values)
     def __invert__(self):
-        values = sorted(self.values)
+        values = sorted(v for v in self.values
+            if not isinf_neg(v) and not isinf_pos(v))
+        if not values:
+            return Interval(-inf, inf)
         intervals = chain(
             # Left-infinity interval.
             [Interval.Ropen(-inf, values[0])],
-- 
2.43.0


From 11886e77283aff05ff39f55740c9b07c3eb0ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 04/70] fix: FiniteReal operations on equal numbers of
 different numeric types

0.5 and sympy.Rational(1, 2) are equal but hash differently, so that
FiniteReal(0.5) & FiniteReal(Rational(1, 2)) was empty. Equal sets now
also have equal hashes (open flags None and False, 1/2 and 0.5).
---
 src/sets.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 3c9d65c..5dffb29 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -92,7 +92,7 @@ class FiniteNominal(Set):
             and bool(self.b) == bool(x.b) \
             and self.values == x.values
     def __hash__(self):
-        x = (self.__class__, self.values, self.b)
+        x = (self.__class__, self.values, bool(self.b))
         return hash(x)
     def __repr__(self):
         str_values = ', '.join(repr(x) for x in self.values)
@@ -125,10 +125,8 @@ class FiniteReal(Set):
             [Interval.Lopen(values[-1], inf)])
         return Union(*intervals)
     def __and__(self, x):
-        if isinstance(x, FiniteReal):
-            values = self.values & x.values
-            return FiniteReal(*values) if values else EmptySet
-        if isinstance(x, Interval):
+        if isinstance(x, (FiniteReal, Interval)):
+            # Equal numbers may have different hashes, e.g., 0.5 and 1/2.
             values = {v for v in self.values if v in x}
             return FiniteReal(*values) if values else EmptySet
         if isinstance(x, FiniteNominal):
@@ -138,7 +136,7 @@ class FiniteReal(Set):
         return NotImplemented
     def __or__(self, x):
         if isinstance(x, FiniteReal):
-            values = self.values | x.values
+            values = self.values | {v for v in x.values if v not in self}
             return FiniteReal(*values)
         if isinstance(x, Interval):
             # Merge endpoints.
@@ -165,9 +163,10 @@ class FiniteReal(Set):
         return NotImplemented
     def __eq__(self, x):
         return isinstance(x, FiniteReal) \
-            and self.values == x.values
+            and all(v in x for v in self.values) \
+            and all(v in self for v in x.values)
     def __hash__(self):
-        x = (self.__class__, self.values)
+        x = (self.__class__, frozenset(float(v) for v in self.values))
         return hash(x)
     def __repr__(self):
         return 'FiniteReal(%s)' % (', '.join(repr(x) for x in self.values))
@@ -264,7 +263,8 @@ class Interval(Set):
             and bool(self.left_open) == bool(x.left_open) \
             and bool(self.right_open) == bool(x.right_open)
     def __hash__(self):
-        x = (self.__class__, self.a, self.b, self.left_open, self.right_open)
+        x = (self.__class__, float(self.a), float(self.b),
+            bool(self.left_open), bool(self.right_open))
         return hash(x)
     def __repr__(self):
         return 'Interval(%s, %s, left_open=%s, right_open=%s)' \
-- 
2.43.0


From 2ba78487808af25e6644da5cb7a3e8c8fde4302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 05/70] fix: intersection of a union with points and intervals
 meeting in several points

The pieces of the result were passed to Union unmerged, which raised an
AssertionError when more than one of them is a finite set.
---
 src/sets.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 5dffb29..55d60ea 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -327,17 +327,9 @@ class Union(Set):
         if isinstance(x, FiniteNominal):
             return self.nominals & x
         if isinstance(x, (FiniteReal, Interval)):
-            atoms = self.atoms & x
-            intervals = [i & x for i in self.intervals]
-            intervalsne = [i for i in intervals if i is not EmptySet]
-            if atoms is EmptySet:
-                if not intervalsne:
-                    return EmptySet
-                if len(intervalsne) == 1:
-                    return intervalsne[0]
-            if not intervalsne:
-                return atoms
-            return Union(atoms, *intervalsne)
+            # Intersecting an interval may give a point, so use "or".
+            terms = [self.atoms & x] + [i & x for i in self.intervals]
+            return reduce(lambda a,b: a|b, terms)
         if isinstance(x, Union):
             terms = [self & v for v in x.values]
             return reduce(lambda a,b: a |b, terms)
-- 
2.43.0


From 149adb551c63a8a132de4545f58cafd78df3918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 06/70] fix: union of a finite real set with a mixed set that
 has no intervals

FiniteReal(0) | (FiniteReal(1) | FiniteNominal('a')) raised IndexError.
---
 src/sets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets.py b/src/sets.py
index 55d60ea..1d87ec7 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -363,6 +363,8 @@ class Union(Set):
         return iter(self.args)
 
 def union_intervals(intervals):
+    if not intervals:
+        return []
     intervals_sorted = sorted(intervals, key=lambda i:i.a)
     blocks = [intervals_sorted[0]]
     for interval in intervals_sorted[1:]:
-- 
2.43.0


From 97e5a4936fded4bb7b96613aa76f6f50ae34f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 07/70] fix: evaluating a logarithm returns a number

Logarithm.ffwd returned a set, so that events and derived variables
built on a logarithm could not be evaluated or sampled.
---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 686c074..151e599 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -501,7 +501,7 @@ class Logarithm(Injective):
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
-        return {sympy.log(x, self.base) if x > 0 else -oo}
+        return sympy.log(x, self.base) if x > 0 else -oo
     def finv(self, y):
         if not y in self.range():
             return EmptySet
-- 
2.43.0


From c73ad854e903342bafead4cccc12164accdc4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 08/70] fix: x - expr denotes x minus expr

Transform.__rsub__ returned expr - x.
---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 151e599..f06a72b 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -203,7 +203,7 @@ class Transform():
     def __sub__(self, x):
         return self + (-1 * x)
     def __rsub__(self, x):
-        return self - x
+        return (-1 * self) + x
     # Negation.
     def __neg__(self):
         return -1 * self
-- 
2.43.0


From 48bc4bbd3641a8488d861a3431ecb071e33318cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 09/70] fix: invert exponentials whose base is less than one

Such exponentials are decreasing, so the end points of an inverted
interval trade places: (1/2)**X < 1 was solved as X < 0.
---
 src/transforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index f06a72b..c0624a1 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -351,7 +351,9 @@ class Injective(Transform):
         (a, b) = (ys.left, ys.right)
         a_prime = next(iter(self.finv(a)))
         b_prime = next(iter(self.finv(b)))
-        ys_prime = transform_interval(ys, a_prime, b_prime)
+        ys_prime = transform_interval(ys, a_prime, b_prime) \
+            if a_prime < b_prime else \
+            transform_interval(ys, b_prime, a_prime, flip=True)
         return self.subexpr.invert(ys_prime)
 
 class Identity(Injective):
@@ -463,9 +465,9 @@ class Exponential(Injective):
         if not y in self.range():
             return EmptySet
         if isinf_pos(y):
-            return FiniteReal(oo)
+            return FiniteReal(oo if self.base > 1 else -oo)
         if y <= 0:
-            return FiniteReal(-oo)
+            return FiniteReal(-oo if self.base > 1 else oo)
         return FiniteReal(sympy.log(y, self.base))
     def __eq__(self, x):
         return isinstance(x, Exponential) \
-- 
2.43.0


From 46b4520ba4152e442b1ec66257190558aa721bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 10/70] fix: implement Piecewise.evaluate

Piecewise transforms can be evaluated like all other transforms, as
needed for sampling a variable that is defined by one.
---
 src/transforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index c0624a1..e38098e 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -721,7 +721,11 @@ class Piecewise(Transform):
         events_prime = [event.subs(env) for event in self.events]
         return Piecewise(subexprs_prime, events_prime)
     def evaluate(self, assignment):
-        raise NotImplementedError()
+        (symbol,) = self.symbols
+        x = symbol.evaluate(assignment)
+        assert x in self.domain()
+        index = next(i for i, domain in enumerate(self.domains) if x in domain)
+        return self.subexprs[index].evaluate(assignment)
     def ffwd(self, x):
         index = next(i for i, domain in enumerate(self.domains) if x in domain)
         return self.subexprs[index].ffwd(x)
-- 
2.43.0


From 7e31d539918764a6a6a05665a6d61853d5f8c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 11/70] fix: Piecewise transforms are hashable

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index e38098e..b5cda46 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -761,7 +761,7 @@ class Piecewise(Transform):
         ]
         return ' + '.join(strings)
     def __hash__(self):
-        x = (self.__class__, self.subexprs, self.events)
+        x = (self.__class__, tuple(self.subexprs), tuple(self.events))
         return hash(x)
 
 def get_piecewise_symbol(subexprs, events):
-- 
2.43.0


From aac0a615c8e322d53574b63565b84e0e319f4f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 12/70] fix: invert a nominal event at both of its values

The values of an event are 0 and 1, not 1 and 2.
---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index b5cda46..c5e7006 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -1068,7 +1068,7 @@ class EventFiniteNominal(EventBasic):
             return self.finv(0)
         if ys == FiniteReal(1):
             return self.finv(1)
-        if ys == FiniteReal(1, 2):
+        if ys == FiniteReal(0, 1):
             return Strings
 
     def __repr__(self):
-- 
2.43.0


From f3308f2013289a06367987b27c42858eb9ed8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 13/70] fix: values at which a compound event is false, when
 used as a transform

---
 src/transforms.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index c5e7006..5a0cd69 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -1106,11 +1106,15 @@ class EventOr(EventCompound):
         return any(ys)
     def finv(self, y):
         # Cannot invert multi-symbol Event.
+        # The disjunction is false when all the events are false.
         xs_list = [event.finv(y) for event in self.subexprs]
-        return make_union(*xs_list)
+        return make_union(*xs_list) if y != 0 else make_intersection(*xs_list)
     def invert_finite(self, ys):
-        xs_list = [event.invert(ys) for event in self.subexprs]
-        return make_union(*xs_list)
+        xs_list = [[event.invert(FiniteReal(y)) for event in self.subexprs]
+            for y in ys]
+        return make_union(*[
+            make_union(*xs) if y != 0 else make_intersection(*xs)
+            for y, xs in zip(ys, xs_list)])
 
     # Event methods.
     def to_dnf_list(self):
@@ -1156,11 +1160,15 @@ class EventAnd(EventCompound):
         return all(ys)
     def finv(self, y):
         # Cannot invert multi-symbol Event.
+        # The conjunction is false when any of the events is false.
         xs_list = [event.finv(y) for event in self.subexprs]
-        return make_intersection(*xs_list)
+        return make_intersection(*xs_list) if y != 0 else make_union(*xs_list)
     def invert_finite(self, ys):
-        xs_list = [event.invert(ys) for event in self.subexprs]
-        return make_intersection(*xs_list)
+        xs_list = [[event.invert(FiniteReal(y)) for event in self.subexprs]
+            for y in ys]
+        return make_union(*[
+            make_intersection(*xs) if y != 0 else make_union(*xs)
+            for y, xs in zip(ys, xs_list)])
 
     # Event methods.
     def to_dnf_list(self):
-- 
2.43.0


From 8d3b2d4f19b4e81fcdbf032b28303cc47e3d8f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 14/70] fix: evaluating an event gives 0 or 1, a number that
 transforms of it accept

---
 src/transforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 5a0cd69..13163af 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -852,7 +852,7 @@ class EventBasic(Event):
         x = self.subexpr.evaluate(assignment)
         return self.ffwd(x)
     def ffwd(self, x):
-        return x in self.values
+        return int(x in self.values)
 
     # Disable < on Events.
     def __gt__(self, x):
@@ -1099,11 +1099,11 @@ class EventCompound(Event):
 class EventOr(EventCompound):
     def evaluate(self, assignment):
         ys = [event.evaluate(assignment) for event in self.subexprs]
-        return any(ys)
+        return int(any(ys))
     def ffwd(self, x):
         # Cannot asses on multi-symbol Event.
         ys = [event.ffwd(x) for event in self.subexprs]
-        return any(ys)
+        return int(any(ys))
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         # The disjunction is false when all the events are false.
@@ -1153,11 +1153,11 @@ class EventOr(EventCompound):
 class EventAnd(EventCompound):
     def evaluate(self, assignment):
         ys = [event.evaluate(assignment) for event in self.subexprs]
-        return all(ys)
+        return int(all(ys))
     def ffwd(self, x):
         # Cannot asses on multi-symbol Event.
         ys = [event.ffwd(x) for event in self.subexprs]
-        return all(ys)
+        return int(all(ys))
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         # The conjunction is false when any of the events is false.
-- 
2.43.0


From 880093271da71200b6b66bfbcd3f7adebc361673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 15/70] fix: negation of an empty nominal event holds for every
 string

---
 src/transforms.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 13163af..10b359d 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -865,6 +865,12 @@ class EventBasic(Event):
         raise TypeError()
 
     # Event methods.
+    def _make_empty(self, event):
+        # The complement of an empty nominal event has all the strings.
+        nominal = isinstance(self, EventFiniteNominal) \
+            and isinstance(event, EventFiniteNominal)
+        E = EventFiniteNominal if nominal else EventFiniteReal
+        return E(self.subexpr, EmptySet)
     def to_dnf_list(self):
         return [[self]]
     def __and__(self, event):
@@ -873,7 +879,7 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 intersection = self.values & event.values
                 if intersection is EmptySet:
-                    return EventFiniteReal(self.subexpr, EmptySet)
+                    return self._make_empty(event)
                 if isinstance(intersection, FiniteReal):
                     return EventFiniteReal(self.subexpr, intersection)
                 if isinstance(intersection, FiniteNominal):
@@ -893,7 +899,7 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 union = self.values | event.values
                 if union is EmptySet:
-                    return EventFiniteReal(self.subexpr, EmptySet)
+                    return self._make_empty(event)
                 if isinstance(union, FiniteReal):
                     return EventFiniteReal(self.subexpr, union)
                 if isinstance(union, FiniteNominal):
@@ -1077,7 +1083,7 @@ class EventFiniteNominal(EventBasic):
     def __str__(self):
         return '%s << %s' % (str(self.subexpr), str(self.values))
     def __invert__(self):
-        values_not = ~self.values
+        values_not = Strings if self.values is EmptySet else ~self.values
         return EventFiniteNominal(self.subexpr, values_not)
 
 class EventCompound(Event):
-- 
2.43.0


From fb0f2f00230799c5f3b09dee4580416954ba4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 16/70] fix: merge a point into an interval whose open end is
 an equal number of another type

---
 src/sets.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 1d87ec7..4d2ae55 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -140,21 +140,18 @@ class FiniteReal(Set):
             return FiniteReal(*values)
         if isinstance(x, Interval):
             # Merge endpoints.
-            values = set(self.values)
             interval = x
-            if interval.a in values and interval.left_open \
+            if interval.a in self and interval.left_open \
                     and not isinf_neg(interval.a):
-                values.remove(interval.a)
                 interval = Interval(interval.a, interval.b,
                     left_open=None,
                     right_open=interval.right_open)
-            if interval.b in values and interval.right_open \
+            if interval.b in self and interval.right_open \
                     and not isinf_pos(interval.b):
-                values.remove(interval.b)
                 interval = Interval(interval.a, interval.b,
                     left_open=interval.left_open,
                     right_open=None)
-            values = {v for v in values if v not in interval}
+            values = {v for v in self.values if v not in interval}
             return Union(FiniteReal(*values), interval) if values else interval
         if isinstance(x, FiniteNominal):
             return Union(self, x)
-- 
2.43.0


From 789549a034532e23566fb03e8302c143b2e8b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 17/70] fix: union of intervals that meet at a point which only
 one of them contains

---
 src/sets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 4d2ae55..060443b 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -362,7 +362,8 @@ class Union(Set):
 def union_intervals(intervals):
     if not intervals:
         return []
-    intervals_sorted = sorted(intervals, key=lambda i:i.a)
+    # Closed before open, so that a later interval does not extend a block left.
+    intervals_sorted = sorted(intervals, key=lambda i: (i.a, bool(i.left_open)))
     blocks = [intervals_sorted[0]]
     for interval in intervals_sorted[1:]:
         interval_union = blocks[-1] | interval
-- 
2.43.0


From 00382d9e790aec0450e1d6830ee5047b727ec82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 18/70] fix: intervals solved symbolically have plain Booleans
 for their ends

A union of such an interval with one that shares its end point
raised TypeError, since symbolic Booleans cannot be ordered.
---
 src/sets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 060443b..2ebac3d 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -429,7 +429,8 @@ def convert_sympy(x):
     if isinstance(x, sympy.Interval):
         left = -inf if x.left == -inf else x.left
         right = inf if x.right == -inf else x.right
-        return Interval(left, right, left_open=x.left_open, right_open=x.right_open)
+        return Interval(left, right,
+            left_open=bool(x.left_open), right_open=bool(x.right_open))
     if isinstance(x, sympy.FiniteSet):
         return FiniteReal(*x.args)
     if isinstance(x, sympy.Union):
-- 
2.43.0


From 5280e6df975928a0390aa946eca14975354c4215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 19/70] fix: probability of intervals with fractional negative
 ends for discrete variables

The end was truncated toward zero, so that e.g. the integers in
(-1/2, 1/2) did not include 0.
---
 src/math_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_util.py b/src/math_util.py
index 09a6a66..98bf960 100644
--- a/src/math_util.py
+++ b/src/math_util.py
@@ -1,6 +1,7 @@
 # Copyright 2020 MIT Probabilistic Computing Project.
 # See LICENSE.txt
 
+from math import floor
 from math import isinf
 
 import numpy
@@ -52,4 +53,4 @@ def random(x):
 
 int_or_isinf_neg = lambda a: isinf_neg(a) or float(a) == int(a)
 int_or_isinf_pos = lambda a: isinf_pos(a) or float(a) == int(a)
-float_to_int = lambda a: a if isinf(a) else int(a)
+float_to_int = lambda a: a if isinf(a) else int(floor(a))
-- 
2.43.0


From e114716faf52a31c2cbfeaa35a2dc298b0a285f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 20/70] fix: condition leaves on sets with points or fractional
 ends

Conditioning a continuous leaf on a union of intervals and points, and a
discrete leaf on a set with fractional numbers, failed an assertion.
---
 src/spe.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index d5f0856..1329116 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -769,14 +769,16 @@ class RealLeaf(LeafSPE):
         raise NotImplementedError()
     def logprob_interval__(self, values):
         raise NotImplementedError()
+    def flatten_finite__(self, values):
+        raise NotImplementedError()
+    def flatten_interval__(self, values):
+        raise NotImplementedError()
 
     def flatten_values_contiguous(self, values):
         if isinstance(values, Interval):
-            return [values]
+            return self.flatten_interval__(values)
         if isinstance(values, FiniteReal):
-            assert isinstance(self, DiscreteLeaf)
-            blocks = partition_finite_real_contiguous(values)
-            return [Range(min(v), max(v)) for v in blocks]
+            return self.flatten_finite__(values)
         if isinstance(values, Union):
             subvalues = (self.flatten_values_contiguous(v) for v in values)
             return list(chain(*subvalues))
@@ -868,6 +870,12 @@ class ContinuousLeaf(RealLeaf):
             return -inf
         return self.dist.logpdf(xf) - self.logZ
 
+    def flatten_finite__(self, values):
+        # Finite sets have measure zero.
+        return []
+    def flatten_interval__(self, values):
+        return [values]
+
     def logprob_finite__(self, values):
         return -inf
 
@@ -913,6 +921,22 @@ class DiscreteLeaf(RealLeaf):
             return -inf
         return self.dist.logpmf(xf) - self.logZ
 
+    def flatten_finite__(self, values):
+        integers = [x for x in values if float(x) == int(x)]
+        if not integers:
+            return []
+        blocks = partition_finite_real_contiguous(FiniteReal(*integers))
+        return [Range(min(v), max(v)) for v in blocks]
+    def flatten_interval__(self, values):
+        integral_l = int_or_isinf_neg(values.left)
+        integral_r = int_or_isinf_pos(values.right)
+        if integral_l and integral_r:
+            return [values]
+        # Shrink to the smallest and largest integers in the interval.
+        xl = float_to_int(values.left) + (not integral_l or values.left_open)
+        xr = float_to_int(values.right) - (integral_r and values.right_open)
+        return [Range(xl, xr)] if xl <= xr else []
+
     def logprob_finite__(self, values):
         logps = [self.logpdf__(x) for x in values]
         return logps[0] if len(logps) == 1 else logsumexp(logps)
-- 
2.43.0


From d6a0363000569c9bef6214eb6193f8b2693c5d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 21/70] fix: density of a nominal outcome of weight zero

It failed with a math domain error.
---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 1329116..26b155a 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -1005,7 +1005,7 @@ class NominalLeaf(LeafSPE):
         assert allclose(float(sum(self.weights)),  1)
 
     def logpdf__(self, x):
-        if x not in self.dist:
+        if x not in self.dist or self.dist[x] == 0:
             return -inf
         w = self.dist[x]
         return log(w.numerator) - log(w.denominator)
-- 
2.43.0


From 3c77c50bd56c1e5265319bbf33745e74d1442e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 22/70] fix: density, constraining and zero probability
 conditions of atomic leaves

The result of constrain could not be queried for densities or constrained
again, and conditioning it on an impossible event raised AssertionError.
---
 src/spe.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 26b155a..3a2b1b7 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -975,7 +975,14 @@ class AtomicLeaf(LeafSPE):
         return 0 if self.value in interval else -inf
     def condition__(self, event):
         interval = event.solve()
-        assert self.value in interval, 'Measure zero condition %s' % (event,)
+        if self.value not in interval:
+            raise ValueError('Conditioning event "%s" has probability zero'
+                % (str(event),))
+        return self
+    def logpdf__(self, x):
+        return 0 if x in self.support else -inf
+    def constrain__(self, x):
+        assert not isinf_neg(self.logpdf__(x))
         return self
 
     def __hash__(self):
-- 
2.43.0


From ba955c42926c6b34da8b3f534c70bba8c5b86aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 23/70] fix: constraining a leaf keeps its derived variables

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 3a2b1b7..43b07d3 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -820,7 +820,7 @@ class RealLeaf(LeafSPE):
 
     def constrain__(self, x):
         assert not isinf_neg(self.logpdf__(x))
-        return AtomicLeaf(self.symbol, x)
+        return AtomicLeaf(self.symbol, x, env=self.env)
 
     def __hash__(self):
         d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
-- 
2.43.0


From 512d41abe600a769a2b256f50f0dd7cbcd010596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 24/70] fix: samples of a mixture are independent

Only the blocks of samples from each component were shuffled, so that
neighbouring samples came from the same component and, for unequal
weights, single positions had the wrong distribution.
---
 src/spe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 43b07d3..a364a97 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -242,8 +242,9 @@ class SumSPE(BranchSPE):
         selections = logflip(self.weights, self.indexes, N, prng)
         counts = Counter(selections)
         samples = [func(i, counts[i]) for i in counts]
+        samples = list(chain.from_iterable(samples))
         random(prng).shuffle(samples)
-        return list(chain.from_iterable(samples))
+        return samples
 
     def transform(self, symbol, expr):
         children = [spe.transform(symbol, expr) for spe in self.children]
-- 
2.43.0


From 323f36a31ca165f2b0ec331f8b6a5ecff2568c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 25/70] fix: samples of an atomic leaf do not share one
 dictionary

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index a364a97..ca304d2 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -970,7 +970,7 @@ class AtomicLeaf(LeafSPE):
         return AtomicLeaf(self.symbol, self.value, env=env)
 
     def sample__(self, N, prng):
-        return [{self.symbol : self.value}] * N
+        return [{self.symbol : self.value} for _ in range(N)]
     def logprob__(self, event):
         interval = event.solve()
         return 0 if self.value in interval else -inf
-- 
2.43.0


From 595c7c27e9907f2a84194c1963fd09cd81a98dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 26/70] fix: sampling no variables of a product gives N empty
 samples

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index ca304d2..dbb53d1 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -453,7 +453,7 @@ class ProductSPE(BranchSPE):
             for i, symbols_i in index_to_symbols.items()
         ]
         # Merge the samples.
-        return merge_samples(samples)
+        return merge_samples(samples) if samples else [{} for _ in range(N)]
 
     def sample_func(self, func, N, prng=None):
         symbols = func_symbols(self, func)
-- 
2.43.0


From 531a6f2d3db18c89df4231e7f86a43ef7442ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:33 +0000
Subject: [PATCH 27/70] fix: integral parameters of distributions stay integral

Sampling a binom, betabinom or hypergeom raised TypeError, as their number
of trials was converted to float.
---
 src/distributions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/distributions.py b/src/distributions.py
index d1816f0..382d415 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -1,6 +1,8 @@
 # Copyright 2020 MIT Probabilistic Computing Project.
 # See LICENSE.txt
 
+from numbers import Integral
+
 import scipy.stats
 import sympy
 
@@ -25,6 +27,9 @@ class NominalDistribution(Distribution):
 choice = NominalDistribution
 
 def floatify(x):
+    if isinstance(x, Integral):
+        # Sampling a binomial, for example, needs an integral number of trials.
+        return x
     try              : return float(x)
     except TypeError : return x
 
-- 
2.43.0


From 75e779bd490862b8db867857713e0b4ccb278d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:33 +0000
Subject: [PATCH 28/70] fix: sample distributions that are truncated to their
 right tail

Samples of X ~ N(0,1) conditioned on X > 10 were infinite, since both ends
have a CDF of one.
---
 src/spe.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index dbb53d1..bf2d7c1 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -725,11 +725,15 @@ class RealLeaf(LeafSPE):
             self.conditioned, env)
 
     def sample__(self, N, prng):
-        if self.conditioned:
+        if self.conditioned and self.Fl > 0.5 and not self.atomic:
+            # The CDF does not resolve the right tail, where it is close to
+            # one: invert the survival function instead.
+            u = random(prng).uniform(size=N)
+            S_interval = u*self.dist.sf(self.xl) + (1-u)*self.dist.sf(self.xu)
+            xs = self.dist.isf(S_interval)
+        elif self.conditioned:
             # XXX Method not guaranteed to be numerically stable, see e.g,.
             # https://www.iro.umontreal.ca/~lecuyer/myftp/papers/truncated-normal-book-chapter.pdf
-            # Also consider using CDF for left tail and SF for right tail.
-            # Example: X ~ N(0,1) can sample X | (X < -10) but not X | (X > 10).
             u = random(prng).uniform(size=N)
             u_interval = u*self.Fl + (1-u) * self.Fu
             xs = self.dist.ppf(u_interval)
-- 
2.43.0


From 8097ef84a75dcb659fcd1aeeb453c0e00046d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 29/70] fix: domains of distributions follow their definition
 and parameters

The domains of gumbel_l, genlogistic, loggamma, powernorm, tukeylambda,
cosine, kappa4, hypergeom, kstwobign and boltzmann were wrong; those of many
others ignored loc and scale.
---
 src/distributions.py | 63 +++++++++-----------------------------------
 1 file changed, 12 insertions(+), 51 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index 382d415..8913982 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -73,7 +73,6 @@ class DistributionMix():
 
 from .sets import Interval
 from .sets import Reals
-from .sets import RealsNeg
 from .sets import RealsPos
 from .sets import inf as oo
 from .spe import ContinuousLeaf
@@ -90,6 +89,9 @@ def UnitIntervalLocScale(kwargs):
 
 class ContinuousReal(RealDistribution):
     constructor = ContinuousLeaf
+    def get_domain(self):
+        (low, high) = self.dist(**self.kwargs).support()
+        return Interval(float(low), float(high))
 
 class alpha(ContinuousReal):
     """An alpha continuous random variable."""
@@ -99,7 +101,6 @@ class alpha(ContinuousReal):
 class anglit(ContinuousReal):
     """An anglit continuous random variable."""
     dist = scipy.stats.anglit
-    def get_domain(self): return Interval(-sympy.pi/4, sympy.pi/4)
 
 class arcsine(ContinuousReal):
     """An arcsine continuous random variable."""
@@ -154,7 +155,6 @@ class chi2(ContinuousReal):
 class cosine(ContinuousReal):
     """A cosine continuous random variable."""
     dist = scipy.stats.cosine
-    def get_domain(self): return Interval(-sympy.pi/2, sympy.pi/2)
 
 class crystalball(ContinuousReal):
     """Crystalball distribution."""
@@ -224,7 +224,6 @@ class foldnorm(ContinuousReal):
 class genlogistic(ContinuousReal):
     """A generalized logistic continuous random variable."""
     dist = scipy.stats.genlogistic
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class gennorm(ContinuousReal):
     """A generalized normal continuous random variable."""
@@ -244,15 +243,6 @@ class genexpon(ContinuousReal):
 class genextreme(ContinuousReal):
     """A generalized extreme value continuous random variable."""
     dist = scipy.stats.genextreme
-    def get_domain(self):
-        c = self.kwargs['c']
-        if c == 0:
-            return Reals
-        elif c > 0:
-            return Interval(-oo, 1/c)
-        elif c < 0:
-            return Interval(1/c, oo)
-        assert False, 'Bad argument "c" for genextreme: %s' % (self.kwargs,)
 
 class gausshyper(ContinuousReal):
     """A Gauss hypergeometric continuous random variable."""
@@ -272,9 +262,6 @@ class gengamma(ContinuousReal):
 class genhalflogistic(ContinuousReal):
     """A generalized half-logistic continuous random variable."""
     dist = scipy.stats.genhalflogistic
-    def get_domain(self):
-        assert self.kwargs['c'] > 0
-        return Interval(0, 1./self.kwargs['c'])
 
 class geninvgauss(ContinuousReal):
     """A Generalized Inverse Gaussian continuous random variable."""
@@ -299,7 +286,6 @@ class gumbel_r(ContinuousReal):
 class gumbel_l(ContinuousReal):
     """A left-skewed Gumbel continuous random variable."""
     dist = scipy.stats.gumbel_l
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class halfcauchy(ContinuousReal):
     """A Half-Cauchy continuous random variable."""
@@ -354,7 +340,6 @@ class johnsonsu(ContinuousReal):
 class kappa4(ContinuousReal):
     """Kappa 4 parameter distribution."""
     dist = scipy.stats.kappa4
-    def get_domain(self): return Reals
 
 class kappa3(ContinuousReal):
     """Kappa 3 parameter distribution."""
@@ -369,7 +354,6 @@ class ksone(ContinuousReal):
 class kstwobign(ContinuousReal):
     """Kolmogorov-Smirnov two-sided test for large N."""
     dist = scipy.stats.kstwobign
-    def get_domain(self): return Interval(0, sympy.sqrt(self.kwargs['n']))
 
 class laplace(ContinuousReal):
     """A Laplace continuous random variable."""
@@ -384,7 +368,6 @@ class levy(ContinuousReal):
 class levy_l(ContinuousReal):
     """A left-skewed Levy continuous random variable."""
     dist = scipy.stats.levy_l
-    def get_domain(self): return RealsNeg
 
 class levy_stable(ContinuousReal):
     """A Levy-stable continuous random variable."""
@@ -399,7 +382,6 @@ class logistic(ContinuousReal):
 class loggamma(ContinuousReal):
     """A log gamma continuous random variable."""
     dist = scipy.stats.loggamma
-    def get_domain(self): return RealsNeg
 
 class loglaplace(ContinuousReal):
     """A log-Laplace continuous random variable."""
@@ -414,7 +396,6 @@ class lognorm(ContinuousReal):
 class loguniform(ContinuousReal):
     """A loguniform or reciprocal continuous random variable."""
     dist = scipy.stats.loguniform
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
 
 class lomax(ContinuousReal):
     """A Lomax (Pareto of the second kind) continuous random variable."""
@@ -470,7 +451,6 @@ class norminvgauss(ContinuousReal):
 class pareto(ContinuousReal):
     """A Pareto continuous random variable."""
     dist = scipy.stats.pareto
-    def get_domain(self): return Interval(1, oo)
 
 class pearson3(ContinuousReal):
     """A pearson type III continuous random variable."""
@@ -490,12 +470,10 @@ class powerlognorm(ContinuousReal):
 class powernorm(ContinuousReal):
     """A power normal continuous random variable."""
     dist = scipy.stats.powernorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class rdist(ContinuousReal):
     """An R-distributed (symmetric beta) continuous random variable."""
     dist = scipy.stats.rdist
-    def get_domain(self): return Interval(-1, 1)
 
 class rayleigh(ContinuousReal):
     """A Rayleigh continuous random variable."""
@@ -515,7 +493,6 @@ class recipinvgauss(ContinuousReal):
 class semicircular(ContinuousReal):
     """A semicircular continuous random variable."""
     dist = scipy.stats.semicircular
-    def get_domain(self): return Interval(-1, 1)
 
 class skewnorm(ContinuousReal):
     """A skew-normal random variable."""
@@ -546,17 +523,14 @@ class triang(ContinuousReal):
 class truncexpon(ContinuousReal):
     """A truncated exponential continuous random variable."""
     dist = scipy.stats.truncexpon
-    def get_domain(self): return Interval(0, self.kwargs['b'])
 
 class truncnorm(ContinuousReal):
     """A truncated normal continuous random variable."""
     dist = scipy.stats.truncnorm
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
 
 class tukeylambda(ContinuousReal):
     """A Tukey-Lamdba continuous random variable."""
     dist = scipy.stats.tukeylambda
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class uniform(ContinuousReal):
     """A uniform continuous random variable."""
@@ -569,12 +543,15 @@ class uniform(ContinuousReal):
 class vonmises(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self):
+        # On the circle, although the support in scipy is the real line.
+        loc = self.kwargs.get('loc', 0)
+        scale = self.kwargs.get('scale', 1)
+        return Interval(loc - scale*sympy.pi, loc + scale*sympy.pi)
 
 class vonmises_line(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises_line
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
 
 class wald(ContinuousReal):
     """A Wald continuous random variable."""
@@ -589,44 +566,40 @@ class weibull_min(ContinuousReal):
 class weibull_max(ContinuousReal):
     """Weibull maximum continuous random variable."""
     dist = scipy.stats.weibull_max
-    def get_domain(self): return RealsNeg
 
 class wrapcauchy(ContinuousReal):
     """A wrapped Cauchy continuous random variable."""
     dist = scipy.stats.wrapcauchy
-    def get_domain(self): return Interval(0, 2*sympy.pi)
 
 # ==============================================================================
 # DiscreteReal
 
 from .sets import Integers
-from .sets import IntegersPos
-from .sets import IntegersPos0
 from .sets import Range
+from .math_util import float_to_int
 from .spe import DiscreteLeaf
 
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
+    def get_domain(self):
+        (low, high) = self.dist(**self.kwargs).support()
+        return Range(*[float_to_int(float(x)) for x in (low, high)])
 
 class bernoulli(DiscreteReal):
     """A Bernoulli discrete random variable."""
     dist = scipy.stats.bernoulli
-    def get_domain(self): return Range(0, 1)
 
 class betabinom(DiscreteReal):
     """A beta-binomial discrete random variable."""
     dist = scipy.stats.betabinom
-    def get_domain(self): return Range(0, self.kwargs['n'])
 
 class binom(DiscreteReal):
     """A binomial discrete random variable."""
     dist = scipy.stats.binom
-    def get_domain(self): return Range(0, self.kwargs['n'])
 
 class boltzmann(DiscreteReal):
     """A Boltzmann (Truncated Discrete Exponential) random variable."""
     dist = scipy.stats.boltzmann
-    def get_domain(self): return Range(0, self.kwargs['N'])
 
 class dlaplace(DiscreteReal):
     """A Laplacian discrete random variable."""
@@ -636,40 +609,30 @@ class dlaplace(DiscreteReal):
 class geom(DiscreteReal):
     """A geometric discrete random variable."""
     dist = scipy.stats.geom
-    def get_domain(self): return Integers
 
 class hypergeom(DiscreteReal):
     """A hypergeometric discrete random variable."""
     dist = scipy.stats.hypergeom
-    def get_domain(self):
-        low = max(0, self.kwargs['N'], self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
-        high = min(self.kwargs['n'], self.kwargs['N'])
-        return Range(low, high)
 
 class logser(DiscreteReal):
     """A Logarithmic (Log-Series, Series) discrete random variable."""
     dist = scipy.stats.logser
-    def get_domain(self): return IntegersPos
 
 class nbinom(DiscreteReal):
     """A negative binomial discrete random variable."""
     dist = scipy.stats.nbinom
-    def get_domain(self): return IntegersPos0
 
 class planck(DiscreteReal):
     """A Planck discrete exponential random variable."""
     dist = scipy.stats.planck
-    def get_domain(self): return IntegersPos0
 
 class poisson(DiscreteReal):
     """A Poisson discrete random variable."""
     dist = scipy.stats.poisson
-    def get_domain(self): return IntegersPos0
 
 class randint(DiscreteReal):
     """A uniform discrete random variable."""
     dist = scipy.stats.randint
-    def get_domain(self): return Interval.Ropen(self.kwargs['low'], self.kwargs['high'])
 
 class skellam(DiscreteReal):
     """A Skellam discrete random variable."""
@@ -679,12 +642,10 @@ class skellam(DiscreteReal):
 class zipf(DiscreteReal):
     """A Zipf discrete random variable."""
     dist = scipy.stats.zipf
-    def get_domain(self): return IntegersPos
 
 class yulesimon(DiscreteReal):
     """A Yule-Simon discrete random variable."""
     dist = scipy.stats.yulesimon
-    def get_domain(self): return IntegersPos
 
 class atomic(randint):
     """An atomic discrete random variable."""
-- 
2.43.0


From a96691c99907c377bb66b9b27de5be02a6ef6fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 30/70] fix: density outside of the domain of a distribution is
 zero

The density of vonmises in scipy is periodic.
---
 src/spe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index bf2d7c1..23490fd 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -870,6 +870,8 @@ class ContinuousLeaf(RealLeaf):
             return -float('inf')
         xf = float(x)
         if not self.conditioned:
+            if not self.xl <= xf <= self.xu:
+                return -inf
             return self.dist.logpdf(xf)
         if x not in self.support:
             return -inf
-- 
2.43.0


From 3e1c54b6e6d361b6feb46316d24293b0fb8b19c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 31/70] fix: uniformd with repeated values adds up their
 probabilities

---
 src/distributions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index 8913982..0b855f8 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -664,8 +664,9 @@ class rv_discrete(DiscreteReal):
 
 class uniformd(rv_discrete):
     def __init__(self, *args, **kwargs):
-        xk = tuple(kwargs.pop('values'))
-        pk = [1./len(xk)] * len(xk)
+        values = tuple(kwargs.pop('values'))
+        xk = tuple(dict.fromkeys(values))
+        pk = [values.count(x)/len(values) for x in xk]
         kwargs['values'] = (xk, pk)
         super().__init__(*args, **kwargs)
 
-- 
2.43.0


From d0d6cddd4e4d8c5b89e6d5c87fa2ad952a15ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 32/70] fix: equal polynomials with coefficients of different
 types have equal hashes

---
 src/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 10b359d..7fd978f 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -696,7 +696,8 @@ class Poly(Transform):
         terms = [term_to_str(i, c)  for i, c in enumerate(self.coeffs)]
         return ' + '.join([t for t in terms if t])
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.coeffs)
+        # Equal numbers of different types may have different hashes.
+        x = (self.__class__, self.subexpr, tuple(map(float, self.coeffs)))
         return hash(x)
 
 # ==============================================================================
-- 
2.43.0


From f1fa91d4b7e0bda4dbe068f36669bacfb796f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 33/70] fix: equal exponentials and logarithms with bases of
 different types have equal hashes

---
 src/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 7fd978f..976d386 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -481,7 +481,7 @@ class Exponential(Injective):
             return 'exp(%s)' % (str(self.subexpr),)
         return '%s**(%s)' % (self.base, str(self.subexpr))
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.base)
+        x = (self.__class__, self.subexpr, float(self.base))
         return hash(x)
 
 class Logarithm(Injective):
@@ -524,7 +524,7 @@ class Logarithm(Injective):
             return 'log2(%s)' % (str(self.subexpr),)
         return 'log(%s; %s)' % (str(self.subexpr), self.base)
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.base)
+        x = (self.__class__, self.subexpr, float(self.base))
         return hash(x)
 
 # ==============================================================================
-- 
2.43.0


From fdd6a54a45133bbcfbf1f4d8c3e0241d29c96b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 34/70] fix: numeric discrete distributions with other weights
 are not equal

Leaves of rv_discrete with the same smallest and largest outcome compared
equal, so that simplification and sharing merged them.
---
 src/spe.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 23490fd..3427bcf 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -828,16 +828,14 @@ class RealLeaf(LeafSPE):
         return AtomicLeaf(self.symbol, x, env=self.env)
 
     def __hash__(self):
-        d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
+        d = scipy_dist_key(self.dist)
         e = tuple(self.env.items())
         x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.dist.dist.name == x.dist.dist.name \
-            and self.dist.args == x.dist.args \
-            and self.dist.kwds == x.dist.kwds \
+            and scipy_dist_key(self.dist) == scipy_dist_key(x.dist) \
             and self.support == x.support \
             and self.conditioned == x.conditioned \
             and self.env == x.env
@@ -1073,6 +1071,12 @@ class NominalLeaf(LeafSPE):
 # ==============================================================================
 # Utilities.
 
+def scipy_dist_key(dist):
+    # The outcomes and probabilities of an rv_discrete are not in its arguments.
+    table = (tuple(dist.dist.xk), tuple(dist.dist.pk)) \
+        if hasattr(dist.dist, 'xk') else None
+    return (dist.dist.name, dist.args, frozenset(dist.kwds.items()), table)
+
 class Memo():
     def __init__(self):
         self.logprob = {}
-- 
2.43.0


From 3497147e9f0984f1125fe31007ad678f2f900383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 35/70] fix: atomic leaves with different derived variables are
 not equal

---
 src/spe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 3427bcf..e2a6d6b 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -991,12 +991,13 @@ class AtomicLeaf(LeafSPE):
         return self
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, self.value)
+        x = (self.__class__, self.symbol, float(self.value), tuple(self.env.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.value == x.value
+            and self.value == x.value \
+            and self.env == x.env
 
 # ==============================================================================
 # Nominal distribution.
-- 
2.43.0


From a979ad8749e7cdddcb4e786f04eb706becb0db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 36/70] fix: equal leaves whose tables are in different orders
 have equal hashes

---
 src/spe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index e2a6d6b..18a0813 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -829,7 +829,7 @@ class RealLeaf(LeafSPE):
 
     def __hash__(self):
         d = scipy_dist_key(self.dist)
-        e = tuple(self.env.items())
+        e = frozenset(self.env.items())
         x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
         return hash(x)
     def __eq__(self, x):
@@ -991,7 +991,7 @@ class AtomicLeaf(LeafSPE):
         return self
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, float(self.value), tuple(self.env.items()))
+        x = (self.__class__, self.symbol, float(self.value), frozenset(self.env.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
@@ -1062,7 +1062,7 @@ class NominalLeaf(LeafSPE):
         return NominalLeaf(self.symbol, {x: 1})
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, tuple(self.dist.items()))
+        x = (self.__class__, self.symbol, frozenset(self.dist.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
-- 
2.43.0


From 6c809aca088b7f5be3a1bd8126086cce35ac1788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 37/70] fix: queries without memoization

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 18a0813..c6b9d2d 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -51,7 +51,7 @@ def memoize(f):
     def f_(*args):
         (spe, event_factor, memo) = args
         if memo is False:
-            return f(spe, event_factor_to_event, memo)
+            return f(spe, event_factor, memo)
         m = getattr(memo, table)
         key = spe.get_memo_key(event_factor)
         if key not in m:
-- 
2.43.0


From 9c9fd949d74ec46ecbb9feab3059c6d9e4930c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 38/70] fix: memo tables do not give answers about models that
 are gone

The key was the id of the model, which is reused for a new model after the
first one is garbage collected.
---
 src/spe.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index c6b9d2d..c42b734 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -140,7 +140,7 @@ class SPE():
         return NotImplemented
 
     def get_memo_key(self, event_factor):
-        x = id(self)
+        x = Reference(self)
         y = tuple(event_factor.items()) \
                 if isinstance(event_factor, dict) \
                 else tuple(tuple(d.items()) for d in event_factor)
@@ -1078,6 +1078,16 @@ def scipy_dist_key(dist):
         if hasattr(dist.dist, 'xk') else None
     return (dist.dist.name, dist.args, frozenset(dist.kwds.items()), table)
 
+class Reference():
+    """Key that identifies an object and keeps it alive, so that its identity
+    is not given to another object as long as the key is in a table."""
+    def __init__(self, x):
+        self.x = x
+    def __eq__(self, x):
+        return isinstance(x, Reference) and self.x is x.x
+    def __hash__(self):
+        return hash(id(self.x))
+
 class Memo():
     def __init__(self):
         self.logprob = {}
-- 
2.43.0


From c488326076adf47195c19703c2833010dd5ab877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 39/70] fix: simplify mixtures whose first component is a leaf
 and others are products

---
 src/spe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index c42b734..5b8912b 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -358,9 +358,9 @@ class PartialSumSPE(SPE):
         return NotImplemented
 
 def spe_simplify_sum(spe):
-    if isinstance(spe.children[0], LeafSPE):
+    if all(isinstance(c, LeafSPE) for c in spe.children):
         return spe_simplify_sum_leaf(spe)
-    if isinstance(spe.children[0], ProductSPE):
+    if all(isinstance(c, (LeafSPE, ProductSPE)) for c in spe.children):
         return spe_simplify_sum_product(spe)
     assert False, 'Invalid children of SumSPE: %s' % (spe.children,)
 
-- 
2.43.0


From 522e571e29e55d051ce95879fe1ae52ac269660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 40/70] fix: do not merge mixture components that are different
 and have equal hashes

---
 src/sym_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sym_util.py b/src/sym_util.py
index 05d809a..9903ac2 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -45,10 +45,9 @@ def powerset(values, start=0):
 def partition_list_blocks(values):
     partition = OrderedDict([])
     for i, v in enumerate(values):
-        x = hash(v)
-        if x not in partition:
-            partition[x] = []
-        partition[x].append(i)
+        if v not in partition:
+            partition[v] = []
+        partition[v].append(i)
     return list(partition.values())
 
 def partition_finite_real_contiguous(x):
-- 
2.43.0


From 1006542398e09c25478eadddce0c441684535c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 41/70] fix: mutual information with events of probability one

---
 src/spe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 5b8912b..1e2708c 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -89,13 +89,15 @@ class SPE():
             memo = Memo()
         lpA1 = self.logprob(A)
         lpB1 = self.logprob(B)
-        lpA0 = logdiffexp(0, lpA1)
-        lpB0 = logdiffexp(0, lpB1)
         lp11 = self.logprob(A & B, memo)
         lp10 = self.logprob(A & ~B, memo)
         lp01 = self.logprob(~A & B, memo)
         # lp00 = self.logprob(~A & ~B, memo)
         lp00 = logdiffexp(0, logsumexp([lp11, lp10, lp01]))
+        # Marginals are sums of the joint probabilities, so that they are not
+        # zero (due to rounding) when one of these is not.
+        lpA0 = logsumexp([lp01, lp00])
+        lpB0 = logsumexp([lp10, lp00])
         m11 = exp(lp11) * (lp11 - (lpA1 + lpB1)) if not isinf_neg(lp11) else 0
         m10 = exp(lp10) * (lp10 - (lpA1 + lpB0)) if not isinf_neg(lp10) else 0
         m01 = exp(lp01) * (lp01 - (lpA0 + lpB1)) if not isinf_neg(lp01) else 0
-- 
2.43.0


From 81ab7d0aaf2296e09c530326a7fa5b8c56dc31f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 42/70] fix: accept mixtures of distributions whose weights sum
 to one up to rounding

---
 src/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/distributions.py b/src/distributions.py
index 0b855f8..b3fdb34 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -6,6 +6,8 @@ from numbers import Integral
 import scipy.stats
 import sympy
 
+from .math_util import allclose
+
 class Distribution():
     def __rmul__(self, x):
         from .sym_util import sympify_number
@@ -64,7 +66,7 @@ class DistributionMix():
             return NotImplemented
         weights = self.weights + x.weights
         cumsum = float(sum(weights))
-        assert 0 < cumsum <= 1
+        assert 0 < cumsum and (cumsum <= 1 or allclose(cumsum, 1))
         distributions = self.distributions + x.distributions
         return DistributionMix(distributions, weights)
 
-- 
2.43.0


From 7783cbae66e5985a3a6f357f022a216439631fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 43/70] fix: reject negative weights of a nominal distribution

---
 src/spe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spe.py b/src/spe.py
index 1e2708c..20ae283 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -1012,6 +1012,7 @@ class NominalLeaf(LeafSPE):
         assert all(isinstance(x, str) for x in dist)
         self.symbol = symbol
         self.dist = {x: Fraction(w) for x, w in dist.items()}
+        assert all(0 <= w for w in self.dist.values())
         # Derived attributes.
         self.env = {symbol: symbol}
         self.support = FiniteNominal(*dist.keys())
-- 
2.43.0


From f70c2bd2e81b53560525709fc886feb3ef445798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 44/70] fix: reject constraining an unknown variable

---
 src/spe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spe.py b/src/spe.py
index 20ae283..0cacb7a 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -576,6 +576,7 @@ class ProductSPE(BranchSPE):
 
     @memoize
     def constrain_mem(self, assignment, memo):
+        assert all(s in self.lookup for s in assignment)
         children = []
         for spe in self.children:
             spe_constrain = spe
-- 
2.43.0


From f62b7ce9148d47007276e0e59123f4caa057f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 45/70] fix: discrete distributions with fractional weights

---
 src/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distributions.py b/src/distributions.py
index b3fdb34..2a6b54e 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -678,6 +678,6 @@ class discrete(rv_discrete):
         assert not kwargs
         values = dict(args[0])
         xk = tuple(values.keys())
-        pk = tuple(values.values())
+        pk = tuple(float(p) for p in values.values())
         kwargs['values'] = (xk, pk)
         super().__init__(**kwargs)
-- 
2.43.0


From f4f324d008e61affd7087431546fa35a52c7e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 46/70] fix: reject discrete distributions whose outcomes are
 not integers

---
 src/distributions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/distributions.py b/src/distributions.py
index 2a6b54e..c17d685 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -579,12 +579,20 @@ class wrapcauchy(ContinuousReal):
 from .sets import Integers
 from .sets import Range
 from .math_util import float_to_int
+from .math_util import int_or_isinf_neg
+from .math_util import int_or_isinf_pos
 from .spe import DiscreteLeaf
 
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        loc = self.kwargs.get('loc', 0)
+        assert loc == int(loc), 'Outcomes of %s must be integers' % (self,)
     def get_domain(self):
         (low, high) = self.dist(**self.kwargs).support()
+        assert int_or_isinf_neg(low) and int_or_isinf_pos(high), \
+            'Outcomes of %s must be integers' % (self,)
         return Range(*[float_to_int(float(x)) for x in (low, high)])
 
 class bernoulli(DiscreteReal):
@@ -662,6 +670,8 @@ class rv_discrete(DiscreteReal):
     dist = lambda self, **kwargs: scipy.stats.rv_discrete(**kwargs).freeze()
     def get_domain(self):
         atoms = self.kwargs['values'][0]
+        assert all(x == int(x) for x in atoms), \
+            'Outcomes of %s must be integers' % (self,)
         return Range(min(atoms), max(atoms))
 
 class uniformd(rv_discrete):
-- 
2.43.0


From 7a33440520dcbbc0f88ec708c8d27b0125024508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 47/70] fix: atomic distributions at numbers that are not
 integers

---
 src/distributions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/distributions.py b/src/distributions.py
index c17d685..8f16e02 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -581,6 +581,7 @@ from .sets import Range
 from .math_util import float_to_int
 from .math_util import int_or_isinf_neg
 from .math_util import int_or_isinf_pos
+from .spe import AtomicLeaf
 from .spe import DiscreteLeaf
 
 class DiscreteReal(RealDistribution):
@@ -664,6 +665,11 @@ class atomic(randint):
         kwargs['low'] = loc
         kwargs['high'] = loc + 1
         super().__init__(*args, **kwargs)
+    def __call__(self, symbol):
+        loc = self.kwargs['low']
+        if loc != int(loc):
+            return AtomicLeaf(symbol, loc)
+        return super().__call__(symbol)
 
 class rv_discrete(DiscreteReal):
     """A general discrete random variable."""
-- 
2.43.0


From 584b0d98013121241d28b4a3ac89bd674a57967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 48/70] fix: translate 'and', 'or', 'not' and chained
 comparisons of random variables, which silently dropped operands

---
 src/compilers/sppl_to_python.py | 42 +++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 31b5d7d..6ed3a4e 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -14,6 +14,7 @@ from types import SimpleNamespace
 from collections import namedtuple
 from collections import OrderedDict
 from contextlib import contextmanager
+from functools import reduce
 
 from astunparse import unparse
 
@@ -142,7 +143,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         if isinstance(target, ast.Subscript):
             assert target.value.id in self.variables, unode
             assert self.variables[target.value.id][0] == 'array', unode
-        value_prime = SPPL_Transformer_Compare().visit(node.value)
+        value_prime = SPPL_Transformer_Compare(self.variables).visit(node.value)
         src_value = unparse(value_prime).replace(os.linesep, '')
         src_targets = unparse(node.targets).replace(os.linesep, '')
         idt = get_indentation(self.indentation)
@@ -231,7 +232,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.indentation += 4
         for i, (test, body) in enumerate(unrolled):
             # Write the test.
-            test_prime = SPPL_Transformer_Compare().visit(test)
+            test_prime = SPPL_Transformer_Compare(self.variables).visit(test)
             src_test = unparse(test_prime).strip()
             idt = get_indentation(self.indentation)
             self.command.write('%s%s,' % (idt, src_test))
@@ -257,7 +258,7 @@ class SPPL_Visitor(ast.NodeVisitor):
             assert len(node.args) == 1, unode
             idt = get_indentation(self.indentation)
             event = node.args[0]
-            event_prime = SPPL_Transformer_Compare().visit(event)
+            event_prime = SPPL_Transformer_Compare(self.variables).visit(event)
             src_event = unparse(event_prime).strip()
             self.command.write('%sCondition(%s),' % (idt, src_event))
             self.command.write('\n')
@@ -293,10 +294,23 @@ def unroll_ifexp(target, node):
     return expr
 
 class SPPL_Transformer_Compare(ast.NodeTransformer):
+    """Rewrite Python operators on random variables to operators on events."""
+    def __init__(self, variables):
+        self.variables = variables
+    def is_random(self, node):
+        visitor_name = SPPL_Visitor_Name((), self.variables)
+        visitor_name.visit(node)
+        return bool(visitor_name.variables)
     def visit_Compare(self, node):
-        # TODO: Implement or/and.
-        if len(node.ops) > 1:
+        if not self.is_random(node):
             return node
+        if len(node.ops) > 1:
+            # 0 < X < 1 is (0 < X) and (X < 1).
+            operands = [node.left] + node.comparators
+            return self.visit(ast.BoolOp(ast.And(), [
+                ast.Compare(operands[i], [op], [operands[i+1]])
+                for i, op in enumerate(node.ops)
+            ]))
         if isinstance(node.ops[0], ast.In):
             return ast.BinOp(
                 left=node.left,
@@ -320,6 +334,24 @@ class SPPL_Transformer_Compare(ast.NodeTransformer):
                 op=ast.Invert(),
                 operand=self.visit_Compare(node_copy))
         return node
+    def visit_BoolOp(self, node):
+        # Constants first, because events do not have a truth value.
+        constants = [v for v in node.values if not self.is_random(v)]
+        events = [self.visit(v) for v in node.values if self.is_random(v)]
+        if not events:
+            return node
+        op = ast.BitAnd() if isinstance(node.op, ast.And) else ast.BitOr()
+        event = reduce(lambda a, b: ast.BinOp(a, op, b), events)
+        return ast.BoolOp(node.op, constants + [event]) if constants else event
+    def visit_UnaryOp(self, node):
+        node = self.generic_visit(node)
+        if isinstance(node.op, ast.Not) and self.is_random(node.operand):
+            return ast.UnaryOp(op=ast.Invert(), operand=node.operand)
+        return node
+    def visit_IfExp(self, node):
+        assert not self.is_random(node.test), \
+            'conditional must be the whole expression: %s' % (unparse(node),)
+        return self.generic_visit(node)
 
 class SPPL_Visitor_Name(ast.NodeVisitor):
     def __init__(self, distributions, variables):
-- 
2.43.0


From bba76ee0617a5209aafcd0e0296ff100a3ec9294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 49/70] fix: models whose supports or derived variables have
 pi, logarithms or exponentials could not be read back from a dictionary

---
 src/compilers/spe_to_dict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 671648b..48a5ddd 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -7,6 +7,9 @@ from fractions import Fraction
 
 import scipy.stats
 from sympy import E
+from sympy import exp
+from sympy import log
+from sympy import pi
 from sympy import sqrt
 
 from ..spe import AtomicLeaf
-- 
2.43.0


From bc422cc2fc10830a67d299197ceaae38bbc181d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 50/70] fix: models with constants of numpy and sympy types
 could not be written as JSON

---
 src/compilers/spe_to_dict.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 48a5ddd..d581312 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -4,8 +4,11 @@
 """Convert SPE to JSON friendly dictionary."""
 
 from fractions import Fraction
+from numbers import Integral
+from numbers import Rational
 
 import scipy.stats
+import sympy
 from sympy import E
 from sympy import exp
 from sympy import log
@@ -47,6 +50,18 @@ def env_to_dict(env):
         return None
     return {repr(k): repr(v) for k, v in env.items()}
 
+def number_from_dict(x):
+    return sympy.Rational(*x) if isinstance(x, (list, tuple)) else x
+
+def number_to_dict(x):
+    if isinstance(x, Integral):
+        return int(x)
+    if isinstance(x, Rational):
+        # Fraction or sympy.Rational.
+        x = Fraction(str(x))
+        return (x.numerator, x.denominator)
+    return float(x)
+
 def scipy_dist_from_dict(dist):
     constructor = getattr(scipy.stats, dist['name'])
     return constructor(*dist['args'], **dist['kwds'])
@@ -54,8 +69,8 @@ def scipy_dist_from_dict(dist):
 def scipy_dist_to_dict(dist):
     return {
         'name': dist.dist.name,
-        'args': dist.args,
-        'kwds': dist.kwds
+        'args': [number_to_dict(x) for x in dist.args],
+        'kwds': {k: number_to_dict(x) for k, x in dist.kwds.items()},
     }
 
 def spe_from_dict(metadata):
@@ -65,7 +80,7 @@ def spe_from_dict(metadata):
         return NominalLeaf(symbol, dist)
     if metadata['class'] == 'AtomicLeaf':
         symbol = Id(metadata['symbol'])
-        value = float(metadata['value'])
+        value = number_from_dict(metadata['value'])
         env = env_from_dict(metadata['env'])
         return AtomicLeaf(symbol, value, env=env)
     if metadata['class'] == 'ContinuousLeaf':
@@ -107,7 +122,7 @@ def spe_to_dict(spe):
         return {
             'class'        : 'AtomicLeaf',
             'symbol'       : spe.symbol.token,
-            'value'        : spe.value,
+            'value'        : number_to_dict(spe.value),
             'env'          : env_to_dict(spe.env),
         }
     if isinstance(spe, ContinuousLeaf):
-- 
2.43.0


From b12aa78a2a627a076dd61a19f8e8810b3fa68dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 51/70] fix: models with discrete tables (discrete, uniformd,
 rv_discrete) could not be read back from a dictionary

---
 src/compilers/spe_to_dict.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index d581312..443a4d5 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -64,9 +64,16 @@ def number_to_dict(x):
 
 def scipy_dist_from_dict(dist):
     constructor = getattr(scipy.stats, dist['name'])
+    if constructor is scipy.stats.rv_discrete:
+        return constructor(**dist['kwds']).freeze()
     return constructor(*dist['args'], **dist['kwds'])
 
 def scipy_dist_to_dict(dist):
+    if hasattr(dist.dist, 'xk'):
+        # Table of outcomes and probabilities.
+        xk = [number_to_dict(x) for x in dist.dist.xk]
+        pk = [number_to_dict(x) for x in dist.dist.pk]
+        return {'name': 'rv_discrete', 'args': [], 'kwds': {'values': (xk, pk)}}
     return {
         'name': dist.dist.name,
         'args': [number_to_dict(x) for x in dist.args],
-- 
2.43.0


From 168b47ebd0a1fa5fce34df41d6093e7a3747ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 52/70] fix: the representation of the set of all strings was
 not valid syntax

---
 src/sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 2ebac3d..a1af32e 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -95,8 +95,8 @@ class FiniteNominal(Set):
         x = (self.__class__, self.values, bool(self.b))
         return hash(x)
     def __repr__(self):
-        str_values = ', '.join(repr(x) for x in self.values)
-        return 'FiniteNominal(%s, b=%s)' % (str_values, repr(self.b))
+        str_values = ''.join('%s, ' % (repr(x),) for x in self.values)
+        return 'FiniteNominal(%sb=%s)' % (str_values, repr(self.b))
     def __str__(self):
         return '%s%s' % (('~' if self.b else ''), str(set(self.values)),)
     def __len__(self):
-- 
2.43.0


From 77783904a053f4064023ceddd7d61f5abbd839a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 53/70] fix: models with discrete tables were rendered as
 Distribution()

---
 src/compilers/spe_to_sppl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index d6714a0..e5f0b2f 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -57,6 +57,13 @@ def render_sppl_helper(spe, state):
             for k, v in spe.dist.kwds.items()
         ])
         dist = '%s(%s)' % (spe.dist.dist.name, kwds)
+        if hasattr(spe.dist.dist, 'xk'):
+            # Table of outcomes and probabilities.
+            table = ', '.join([
+                '%s : %s' % (x, float_to_str(p, state.fwidth))
+                for x, p in zip(spe.dist.dist.xk, spe.dist.dist.pk)
+            ])
+            dist = 'discrete({%s})' % (table,)
         idt = get_indentation(state.indentation)
         state.stream.write('%s%s ~= %s' % (idt, spe.symbol, dist))
         state.stream.write('\n')
-- 
2.43.0


From a6d3779079815cdbc745426f71bd6e9216b64951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 54/70] fix: models with atomic leaves, such as constrained
 ones, could not be rendered as programs

---
 src/compilers/spe_to_sppl.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index e5f0b2f..d034012 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -6,6 +6,7 @@
 from io import StringIO
 from math import exp
 
+from ..spe import AtomicLeaf
 from ..spe import RealLeaf
 from ..spe import NominalLeaf
 from ..spe import ProductSPE
@@ -41,6 +42,12 @@ def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     stream.write('%s%s ~= choice({%s%s%s})' %
         (idt, symbol, dist_op, dist_str, dist_cl))
     stream.write('\n')
+def render_sppl_env(spe, state):
+    idt = get_indentation(state.indentation)
+    for i, (var, expr) in enumerate(spe.env.items()):
+        if 1 <= i:
+            state.stream.write('%s%s ~= %s' % (idt, var, expr))
+            state.stream.write('\n')
 def render_sppl_helper(spe, state):
     if isinstance(spe, NominalLeaf):
         assert len(spe.env) == 1
@@ -51,6 +58,12 @@ def render_sppl_helper(spe, state):
             state.indentation,
             state.fwidth)
         return state
+    if isinstance(spe, AtomicLeaf):
+        idt = get_indentation(state.indentation)
+        state.stream.write('%s%s ~= atomic(loc=%s)' % (idt, spe.symbol, spe.value))
+        state.stream.write('\n')
+        render_sppl_env(spe, state)
+        return state
     if isinstance(spe, RealLeaf):
         kwds = ', '.join([
             '%s=%s' % (k, float_to_str(v, state.fwidth))
@@ -72,10 +85,7 @@ def render_sppl_helper(spe, state):
             # TODO: Consider using repr(event)
             state.stream.write('%scondition(%s)' % (idt, event))
             state.stream.write('\n')
-        for i, (var, expr) in enumerate(spe.env.items()):
-            if 1 <= i:
-                state.stream.write('%s%s ~= %s' % (idt, var, expr))
-                state.stream.write('\n')
+        render_sppl_env(spe, state)
         return state
     if isinstance(spe, ProductSPE):
         for child in spe.children:
-- 
2.43.0


From 2b7694143ff968d85ad783123d24f766314ffe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 55/70] fix: derived variables and truncated distributions were
 rendered as invalid programs

---
 src/compilers/spe_to_sppl.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index d034012..f6f1a2d 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -3,6 +3,8 @@
 
 """Convert SPE to SPPL."""
 
+import re
+
 from io import StringIO
 from math import exp
 
@@ -21,6 +23,10 @@ class _SPPL_Render_State:
         self.branches = branches or []
         self.indentation = indentation or 0
         self.fwidth = fwidth
+def to_source(expr):
+    # The representation with variables by name, because str(expr) is meant
+    # for reading and is not a valid expression in general, e.g., 2X or |X|.
+    return re.sub(r"Identity\('([^']*)'\)", r'\1', repr(expr))
 def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     idt = get_indentation(indentation)
     dist_pairs = [
@@ -46,7 +52,7 @@ def render_sppl_env(spe, state):
     idt = get_indentation(state.indentation)
     for i, (var, expr) in enumerate(spe.env.items()):
         if 1 <= i:
-            state.stream.write('%s%s ~= %s' % (idt, var, expr))
+            state.stream.write('%s%s ~= %s' % (idt, var, to_source(expr)))
             state.stream.write('\n')
 def render_sppl_helper(spe, state):
     if isinstance(spe, NominalLeaf):
@@ -82,8 +88,7 @@ def render_sppl_helper(spe, state):
         state.stream.write('\n')
         if spe.conditioned:
             event = spe.symbol << spe.support
-            # TODO: Consider using repr(event)
-            state.stream.write('%scondition(%s)' % (idt, event))
+            state.stream.write('%scondition(%s)' % (idt, to_source(event)))
             state.stream.write('\n')
         render_sppl_env(spe, state)
         return state
@@ -121,8 +126,14 @@ def render_sppl(spe, stream=None, fwidth=None):
     state = render_sppl_helper(spe, state)
     assert state.indentation == 0
     # Write the import.
+    stream.write('from sympy import E, exp, log, pi, sqrt')
+    stream.write('\n')
     stream.write('from sppl.distributions import *')
     stream.write('\n')
+    stream.write('from sppl.sets import *')
+    stream.write('\n')
+    stream.write('from sppl.transforms import *')
+    stream.write('\n')
     stream.write('\n')
     # Write the branch variables (if any).
     for branch_var, branch_dist in state.branches:
-- 
2.43.0


From 43f90f82124f9d68f08b86860309aeb39012af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 56/70] fix: nominal outcomes with quotes or backslashes were
 rendered as invalid programs

---
 src/compilers/spe_to_sppl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index f6f1a2d..0facbe8 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -30,7 +30,7 @@ def to_source(expr):
 def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     idt = get_indentation(indentation)
     dist_pairs = [
-        '\'%s\' : %s' % (k, float_to_str(v, fwidth))
+        '%s : %s' % (repr(k), float_to_str(v, fwidth))
         for (k, v) in dist.items()
     ]
     # Write each outcome on new line.
-- 
2.43.0


From 165d4dd68c8b41ab80f6a113f58f460100ba7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 57/70] fix: rendered programs redefined variables of the model
 whose names start with branch_var

---
 src/compilers/spe_to_sppl.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index 0facbe8..3b7a089 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -18,11 +18,12 @@ get_indentation = lambda i: ' ' * i
 float_to_str = lambda x,fw: '%1.*f' % (fw, float(x)) if fw else str(x)
 class _SPPL_Render_State:
     def __init__(self, stream=None, branches=None, indentation=None,
-            fwidth=None):
+            fwidth=None, tokens=None):
         self.stream = stream or StringIO()
         self.branches = branches or []
         self.indentation = indentation or 0
         self.fwidth = fwidth
+        self.tokens = tokens or frozenset()
 def to_source(expr):
     # The representation with variables by name, because str(expr) is meant
     # for reading and is not a valid expression in general, e.g., 2X or |X|.
@@ -101,7 +102,9 @@ def render_sppl_helper(spe, state):
             return state
         if len(spe.children) == 1:
             return render_sppl_helper(spe.children[0], state)
-        branch_var = 'branch_var_%s' % (len(state.branches))
+        branch_var = 'branch_var_%s' % (len(state.branches),)
+        while branch_var in state.tokens:
+            branch_var = '%s_' % (branch_var,)
         branch_idxs = [str(i) for i in range(len(spe.children))]
         branch_dist = {k: exp(w) for k, w in zip(branch_idxs, spe.weights)}
         state.branches.append((branch_var, branch_dist))
@@ -122,7 +125,8 @@ def render_sppl_helper(spe, state):
 def render_sppl(spe, stream=None, fwidth=None):
     if stream is None:
         stream = StringIO()
-    state = _SPPL_Render_State(fwidth=fwidth)
+    tokens = frozenset(symbol.token for symbol in spe.get_symbols())
+    state = _SPPL_Render_State(fwidth=fwidth, tokens=tokens)
     state = render_sppl_helper(spe, state)
     assert state.indentation == 0
     # Write the import.
-- 
2.43.0


From 6e55dbf044d5949b4ace10ccab26ab18455fec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 58/70] fix: rendered programs did not declare arrays

---
 src/compilers/spe_to_sppl.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index 3b7a089..f1d36b7 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -139,6 +139,16 @@ def render_sppl(spe, stream=None, fwidth=None):
     stream.write('from sppl.transforms import *')
     stream.write('\n')
     stream.write('\n')
+    # Write the arrays (if any).
+    arrays = {}
+    for token in tokens:
+        match = re.match(r'(\w+)\[(\d+)\]$', token)
+        if match:
+            (name, index) = match.groups()
+            arrays[name] = max(arrays.get(name, 0), int(index) + 1)
+    for name, n in sorted(arrays.items()):
+        stream.write('%s = array(%d)' % (name, n))
+        stream.write('\n')
     # Write the branch variables (if any).
     for branch_var, branch_dist in state.branches:
         render_sppl_choice(branch_var, branch_dist, stream, 0, fwidth)
-- 
2.43.0


From 7c56830c7431f4c8d14b57548c4320a0ad4a074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 59/70] fix: nodes of rendered graphs were merged when the
 clock did not advance between them

---
 magics/render.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index 98944fe..d823d9a 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -3,8 +3,8 @@
 
 import os
 import tempfile
-import time
 
+from itertools import count
 from math import exp
 
 import graphviz
@@ -16,7 +16,8 @@ from sppl.spe import ProductSPE
 from sppl.spe import RealLeaf
 from sppl.spe import SumSPE
 
-gensym = lambda: 'r%s' % (str(time.time()).replace('.', ''),)
+counter = count()
+gensym = lambda: 'r%d' % (next(counter),)
 
 def render_networkx_graph(spe):
     if isinstance(spe, NominalLeaf):
-- 
2.43.0


From 78e1fc3de535130e743cebb29a2c78bd868e372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 60/70] fix: variables derived from atomic leaves were missing
 from rendered graphs

---
 magics/render.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index d823d9a..c5554eb 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -19,6 +19,13 @@ from sppl.spe import SumSPE
 counter = count()
 gensym = lambda: 'r%d' % (next(counter),)
 
+def add_derived_variables(G, root, spe):
+    for k, v in spe.env.items():
+        if k != spe.symbol:
+            roott = gensym()
+            G.add_node(roott, label=str(v), style='filled')
+            G.add_edge(root, roott, label=' %s' % (str(k),), style='dashed')
+
 def render_networkx_graph(spe):
     if isinstance(spe, NominalLeaf):
         G = nx.DiGraph()
@@ -30,18 +37,14 @@ def render_networkx_graph(spe):
         root = gensym()
         G.add_node(root, label='%s\n%s(%s)'
             % (spe.symbol.token, 'Atomic', str(spe.value)))
+        add_derived_variables(G, root, spe)
         return G
     if isinstance(spe, RealLeaf):
         G = nx.DiGraph()
         root = gensym()
         kwds = '\n%s' % (tuple(spe.dist.kwds.values()),) if spe.dist.kwds else ''
         G.add_node(root, label='%s\n%s%s' % (spe.symbol.token, spe.dist.dist.name, kwds))
-        if len(spe.env) > 1:
-            for k, v in spe.env.items():
-                if k != spe.symbol:
-                    roott = gensym()
-                    G.add_node(roott, label=str(v), style='filled')
-                    G.add_edge(root, roott, label=' %s' % (str(k),), style='dashed')
+        add_derived_variables(G, root, spe)
         return G
     if isinstance(spe, SumSPE):
         G = nx.DiGraph()
-- 
2.43.0


From 3c4f9ab5f759cc142a058d9691c4e59ff41ac2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 61/70] fix: a notebook cell that fails to compile dropped the
 earlier program of the same name

---
 magics/magics.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/magics/magics.py b/magics/magics.py
index d70a7ec..9e8bc1e 100644
--- a/magics/magics.py
+++ b/magics/magics.py
@@ -33,8 +33,6 @@ class SPPL_Magics(Magics):
         if not line:
             sys.stderr.write('specify model name after %%sppl')
             return
-        if line in self.programs:
-            del self.programs[line]
         compiler = SPPL_Compiler(cell, line)
         namespace = compiler.execute_module()
         self.programs[line] = Model(cell, compiler, namespace)
-- 
2.43.0


From 5bddb3401c481d2e3fab047ecdacfb74d1058852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 62/70] fix: nested lists omitted the parameters of discrete
 tables

---
 src/render.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/render.py b/src/render.py
index 7493e8e..86a3b3b 100644
--- a/src/render.py
+++ b/src/render.py
@@ -38,10 +38,15 @@ def render_nested_lists(spe):
             ['env', dict(spe.env)]]
         ]
     if isinstance(spe, RealLeaf):
+        dist = (spe.dist.dist.name, spe.dist.args, spe.dist.kwds)
+        if hasattr(spe.dist.dist, 'xk'):
+            # Table of outcomes and probabilities.
+            values = (tuple(spe.dist.dist.xk), tuple(spe.dist.dist.pk))
+            dist = ('rv_discrete', (), {'values': values})
         return ['RealLeaf', [
             ['symbol', spe.symbol],
             ['env', dict(spe.env)],
-            ['dist', (spe.dist.dist.name, spe.dist.args, spe.dist.kwds)],
+            ['dist', dist],
             ['support', spe.support],
             ['conditioned', spe.conditioned]]
         ]
-- 
2.43.0


From b61e611d30e8953a3363a3e78e7107a38aa660e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 63/70] fix: numerical solutions of polynomial events were
 wrong or failed at multiple roots and without roots

---
 src/poly.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index df634cd..f3a9c05 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -58,10 +58,9 @@ def solve_poly_inequality_numerically(expr, b, strict):
     poly = expr - b
     symX = get_poly_symbol(expr)
     # Obtain numerical roots.
-    roots = sympy.nroots(poly)
-    zeros = sorted([r for r in roots if r.is_real])
+    zeros = get_poly_zeros_numerically(poly, symX)
     if not zeros:
-        return sympy.EmptySet
+        return Reals if poly.subs(symX, 0) < 0 else EmptySet
     # Construct intervals around roots.
     mk_intvl = lambda a, b: \
         Interval(a, b, left_open=strict, right_open=strict)
@@ -72,14 +71,32 @@ def solve_poly_inequality_numerically(expr, b, strict):
     # Define probe points.
     xs_probe = list(chain(
         [zeros[0] - 1/2],
-        [(i.left + i.right)/2 for i in intervals[1:-1]
-            if isinstance(i, Interval)],
+        [(x + y)/2 for x, y in zip(zeros, zeros[1:])],
         [zeros[-1] + 1/2]))
     # Evaluate poly at the probe points.
     f_xs_probe = [poly.subs(symX, x) for x in xs_probe]
-    # Return intervals where poly is less than zero.
+    # Return intervals where poly is less than zero, and its zeros.
     idxs = [i for i, fx in enumerate(f_xs_probe) if fx < 0]
-    return make_union(*[intervals[i] for i in idxs])
+    points = EmptySet if strict else FiniteReal(*zeros)
+    return make_union(points, *[intervals[i] for i in idxs])
+
+def get_poly_zeros_numerically(poly, symX):
+    # Sorted list of the distinct real zeros of a nonzero polynomial.
+    # Multiple zeros are removed, since they are numerically unstable.
+    coeffs = [
+        sympy.nsimplify(c, rational=True) if c.is_Float or c.is_Rational
+        else sympy.Rational(c.evalf(30))
+        for c in sympy.Poly(poly, symX).all_coeffs()
+    ]
+    poly_sqf = sympy.Poly(coeffs, symX).sqf_part()
+    if poly_sqf.degree() < 1:
+        return []
+    roots = [r for r in poly_sqf.nroots(maxsteps=500) if r.is_real]
+    # Use the exact value of rational zeros.
+    rationals = [sympy.nsimplify(r, rational=True, tolerance=1e-10)
+        for r in roots]
+    return sorted(q if poly_sqf.eval(q) == 0 else r
+        for q, r in zip(rationals, roots))
 
 def solve_poly_inequality_inf(expr, b, strict, extended=None):
     # Minimum value of polynomial is negative infinity.
@@ -126,9 +143,8 @@ def solve_poly_equality_symbolically(expr, b):
     return sympy.Intersection(soln_lt, soln_gt)
 
 def solve_poly_equality_numerically(expr, b):
-    roots = sympy.nroots(expr-b)
-    zeros = [r for r in roots if r.is_real]
-    return FiniteReal(*zeros)
+    zeros = get_poly_zeros_numerically(expr - b, get_poly_symbol(expr))
+    return FiniteReal(*zeros) if zeros else EmptySet
 
 def solve_poly_equality_inf(expr, b):
     assert isinf(b)
-- 
2.43.0


From 25cdec9fef28f6df4be6ebbfd8f4d405cbe83086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 64/70] fix: polynomial equalities that the symbolic solver
 gives up on in part were rejected

---
 src/poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index f3a9c05..b81594d 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -45,7 +45,7 @@ def solve_poly_inequality(expr, b, strict, extended=None):
     except TimeoutError:
         result_symbolic = None
     if result_symbolic is not None:
-        if not isinstance(result_symbolic, (sympy.ConditionSet, sympy.Intersection)):
+        if not result_symbolic.has(sympy.ConditionSet, sympy.Intersection):
             return convert_sympy(result_symbolic)
     # Solve numerically.
     return solve_poly_inequality_numerically(expr, b, strict)
@@ -132,7 +132,7 @@ def solve_poly_equality(expr, b):
     except TimeoutError:
         result_symbolic = None
     if result_symbolic is not None:
-        if not isinstance(result_symbolic, (sympy.ConditionSet, sympy.Intersection)):
+        if not result_symbolic.has(sympy.ConditionSet, sympy.Intersection):
             return convert_sympy(result_symbolic)
     # Solve numerically.
     return solve_poly_equality_numerically(expr, b)
-- 
2.43.0


From c51ff6a63aa9307d8915a687248729181c55d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 65/70] fix: mixture components of weight zero took part in
 conditioning and densities

---
 src/spe.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 0cacb7a..e0e72d4 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -261,28 +261,31 @@ class SumSPE(BranchSPE):
     @memoize
     def condition_mem(self, event_factor, memo):
         logps_condt = [spe.logprob_mem(event_factor, memo) for spe in self.children]
-        indexes = [i for i, lp in enumerate(logps_condt) if not isinf_neg(lp)]
+        # The weight of a component may also be zero.
+        logps_joint = [lp + w for lp, w in zip(logps_condt, self.weights)]
+        indexes = [i for i, lp in enumerate(logps_joint) if not isinf_neg(lp)]
         if not indexes:
             raise ValueError('Conditioning event "%s" has probability zero' % (str(event_factor),))
-        logps_joint = [logps_condt[i] + self.weights[i] for i in indexes]
         children = [self.children[i].condition_mem(event_factor, memo) for i in indexes]
-        weights = lognorm(logps_joint)
+        weights = lognorm([logps_joint[i] for i in indexes])
         return SumSPE(children, weights) if len(indexes) > 1 else children[0]
 
     @memoize
     def logpdf_mem(self, assignment, memo):
         logps = [spe.logpdf_mem(assignment, memo) for spe in self.children]
-        logps_noninf = [(d, w) for d, w in logps if not isinf_neg(w)]
+        logps_joint = [(d, p + w) for (d, w), p in zip(logps, self.weights)]
+        logps_noninf = [(d, w) for d, w in logps_joint if not isinf_neg(w)]
         if len(logps_noninf) == 0:
             return (0, -inf)
         d_min = min(d for (d, w) in logps_noninf)
-        lp = [p + w for (d, w), p in zip(logps, self.weights) if d == d_min]
+        lp = [w for (d, w) in logps_joint if d == d_min]
         return (d_min, logsumexp(lp))
 
     @memoize
     def constrain_mem(self, assignment, memo):
         logpdfs_condt = [spe.logpdf_mem(assignment, memo) for spe in self.children]
-        indexes = [i for i, (d, l) in enumerate(logpdfs_condt) if not isinf_neg(l)]
+        indexes = [i for i, (d, l) in enumerate(logpdfs_condt)
+            if not isinf_neg(l + self.weights[i])]
         assert indexes, 'Assignment "%s" has density zero' % (str(assignment),)
         d_min = min(logpdfs_condt[i][0] for i in indexes)
         indexes_d_min = [i for i in indexes if logpdfs_condt[i][0] == d_min]
-- 
2.43.0


From 0875f4e9a14bff8d61c1619731a256a296b36ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 66/70] fix: simplifying a mixture with two components of
 weight zero failed

---
 src/spe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index e0e72d4..23de20a 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -385,11 +385,12 @@ def spe_simplify_sum_product(spe):
     # e.g. SumSPE([X & Y, (X & Y=X**2)])
     if not all(isinstance(c, ProductSPE) for c in spe.children):
         return spe
-    children_list = [c.children for c in spe.children]
+    states = [(c.children, w) for c, w in zip(spe.children, spe.weights)
+        if not isinf_neg(w)]
     children_simplified, weight_simplified = reduce(
         lambda state, cw: spe_simplify_sum_product_helper(state, cw[0], cw[1]),
-        zip(children_list[1:], spe.weights[1:]),
-        (children_list[0], spe.weights[0]),
+        states[1:],
+        states[0],
     )
     assert allclose(logsumexp(weight_simplified), 0)
     return spe_list_to_product(children_simplified)
-- 
2.43.0


From 516a9870b94c412765f395834338eddf204b0e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 67/70] fix: programs with a constant that is the result of a
 method, such as math.sqrt(2), were rejected

---
 src/compilers/sppl_to_python.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 6ed3a4e..aa68a24 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -96,13 +96,16 @@ class SPPL_Visitor(ast.NodeVisitor):
             if d not in self.distributions:
                 self.distributions[d] = None
 
+        # Name of the function called, if any (None for, e.g., math.sqrt).
+        func = value.func.id if isinstance(value, ast.Call) \
+            and isinstance(value.func, ast.Name) else None
         # Assigning an array.
-        if isinstance(value, ast.Call) and value.func.id == 'array':
+        if func == 'array':
             return self.visit_Assign_array(node)
         # Assigning a distribution.
         if visitor_name.distributions:
             # Assigning distribution (directly).
-            if isinstance(value, ast.Call) and value.func.id in DISTRIBUTIONS:
+            if func in DISTRIBUTIONS:
                 return self.visit_Assign_sample_or_transform(node, 'Sample')
             # Assigning distribution (mixture).
             if isinstance(value, ast.BinOp) and isinstance(value.op, ast.BitOr):
-- 
2.43.0


From acbac2576f31b53e4db00ae5604d8a0cb76e2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 68/70] fix: variables, constants and loop indices named as a
 distribution (t, f) could not be used in transforms

---
 src/compilers/sppl_to_python.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index aa68a24..0921814 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -362,9 +362,14 @@ class SPPL_Visitor_Name(ast.NodeVisitor):
         self.variables_lookup = variables
         self.distributions = set()
         self.variables = set()
+    def visit_Call(self, node):
+        # A distribution is called; its name alone, such as t or f, may be that
+        # of a variable, constant, or loop index.
+        if isinstance(node.func, ast.Name) \
+                and node.func.id in self.distributions_lookup:
+            self.distributions.add(node.func.id)
+        self.generic_visit(node)
     def visit_Name(self, node):
-        if node.id in self.distributions_lookup:
-            self.distributions.add(node.id)
         if node.id in self.variables_lookup:
             self.variables.add(node.id)
 
-- 
2.43.0


From 53b7e5a5a6a198495999ef8307439e0090152989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:20 +0000
Subject: [PATCH 69/70] fix: intersecting intervals failed when equal ends were
 different symbolic expressions

---
 src/sets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index a1af32e..e3f8562 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -213,18 +213,19 @@ class Interval(Set):
                 return x
             if (self.a in x) and (self.b in x):
                 return self
+            # Equal numbers may be different expressions, which are not "==".
             if x.a in self:
-                if self.b == x.a:
+                if not x.a < self.b:
                     return FiniteReal(x.a) if x.a in x else EmptySet
                 return Interval(x.a, self.b, left_open=x.left_open, right_open=self.right_open)
             if x.b in self:
-                if self.a == x.b:
+                if not self.a < x.b:
                     return FiniteReal(x.b) if x.b in x else EmptySet
                 return Interval(self.a, x.b, left_open=self.left_open, right_open=x.right_open)
-            if self.a == x.a:
+            if not (self.a < x.a or x.a < self.a):
                 left_open = self.left_open or x.left_open
                 return Interval(self.a, self.b, left_open=left_open, right_open=self.right_open)
-            if self.b == x.b:
+            if not (self.b < x.b or x.b < self.b):
                 right_open = self.right_open or x.right_open
                 return Interval(self.a, self.b, left_open=self.left_open, right_open=right_open)
             return EmptySet
-- 
2.43.0


From c22c36947c24b3b4f1492daf2bcb280f1e139fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:57 +0000
Subject: [PATCH 70/70] fix: conditioning on a disjunction of overlapping
 clauses could exhaust time and memory

---
 src/dnf.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/dnf.py b/src/dnf.py
index aef0777..4bbaa8a 100644
--- a/src/dnf.py
+++ b/src/dnf.py
@@ -131,7 +131,7 @@ def dnf_to_disjoint_union(event):
     n_clauses = len(event.subexprs)
     clauses_disjoint = [
         reduce(
-            lambda state, event: state & ~event,
+            lambda state, event: state & negate_disjoint(event),
             (event.subexprs[j] for j in overlap_dict.get(i, [])),
             event.subexprs[i])
         for i in range(n_clauses)
@@ -141,3 +141,14 @@ def dnf_to_disjoint_union(event):
     solutions = [dnf_to_disjoint_union(c) for c in clauses_normalized if c]
     # Return the merged solution.
     return reduce(lambda a, b: a|b, solutions)
+
+def negate_disjoint(event):
+    # Return the negation of a clause as a union of disjoint clauses, using
+    # ~(A and B and C) = (~A) or (A and ~B) or (A and B and ~C), so that the
+    # difference of two clauses does not need to be made disjoint in turn.
+    if not isinstance(event, EventAnd):
+        return ~event
+    return EventOr([
+        reduce(lambda state, e: state & e, event.subexprs[:i], ~e)
+        for i, e in enumerate(event.subexprs)
+    ])
-- 
2.43.0

