From 7819c7765a88b865d5e51e9e5f52bd299a0dfb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 01/86] fix: expanding the adjoint of a sum called a misspelled
 method

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 386f030..493a669 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -463,7 +463,7 @@ class QuantumAdjoint(SingleQuantumOperation, metaclass=ABCMeta):
     def _expand(self):
         eo = self.operand.expand()
         if isinstance(eo, self.__class__._plus_cls):
-            summands = [eoo.adjoin() for eoo in eo.operands]
+            summands = [eoo.adjoint() for eoo in eo.operands]
             return self.__class__._plus_cls.create(*summands)
         return eo.adjoint()
 
-- 
2.43.0


From dcdb138c711b1c2b6c378be2afde4a78bd289bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 02/86] fix: One minus a non-numeric scalar was computed as a
 sum

---
 src/qnet/algebra/core/scalar_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 8c1cd82..0b4309b 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -749,7 +749,7 @@ class One(Scalar, metaclass=Singleton):
         elif other == 1:
             return Zero
         else:
-            return super().__add__(other)
+            return super().__sub__(other)
 
     def __mul__(self, other):
         if isinstance(other, self._val_types):
@@ -799,7 +799,7 @@ class One(Scalar, metaclass=Singleton):
         if isinstance(other, self._val_types):
             return ScalarValue.create(other - 1)
         else:
-            return super().__radd__(other)
+            return super().__rsub__(other)
 
     __rfloordiv = __rtruediv__ = __rmul__ = __rpow__ = __mul__
 
-- 
2.43.0


From 525253eb8a4eb04a7faef9ae723cf52664bd026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 03/86] fix: product of an indexed sum with a scalar multiple
 crashed

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 493a669..b7941c5 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -864,8 +864,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
-                other.coeff, self * other.term)
+            return other.coeff * (self * other.term)
         else:
             sum = self.make_disjunct_indices(*other.bound_symbols)
             new_term = sum.term * other
@@ -884,8 +883,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
-                other.coeff, other.term * self)
+            return other.coeff * (other.term * self)
         else:
             sum = self.make_disjunct_indices(*other.bound_symbols)
             new_term = other * sum.term
-- 
2.43.0


From f55ee73704e1bb4633bffaa9f23cb2101d55fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 04/86] fix: simplify_scalar and diff dropped the summation of
 an indexed sum

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index b7941c5..b4de7f4 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -849,6 +849,10 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def _adjoint(self):
         return self.__class__.create(self.term.adjoint(), *self.ranges)
 
+    def _simplify_scalar(self, func):
+        return self.__class__.create(
+            self.term.simplify_scalar(func=func), *self.ranges)
+
     def _diff(self, sym):
         return self.__class__.create(self.term.diff(sym), *self.ranges)
 
-- 
2.43.0


From 3db41f31590948a438b435e4a9cd94cf2f23dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 05/86] fix: the super-adjoint of a scalar multiple was None

---
 src/qnet/algebra/core/super_operator_algebra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 26ee67e..164e980 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -159,7 +159,9 @@ class ScalarTimesSuperOperator(SuperOperator, ScalarTimesQuantumExpression):
     :class:`SuperOperator`"""
 
     def _adjoint(self):
-        pass
+        # the super-adjoint is the dual with respect to the (bilinear) trace
+        # pairing, hence the coefficient is not conjugated
+        return self.coeff * self.term.adjoint()
 
     _rules = OrderedDict()  # see end of module
     simplifications = [match_replace, ]
-- 
2.43.0


From f94bc7f5012cc342cb05ce0ecd4ae867b43ea6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 06/86] fix: sorting a product could exchange non-commuting
 factors

The order key of products is only a partial order, so that sorted() could
exchange factors that do not commute.
---
 src/qnet/algebra/core/algebraic_properties.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index d148d69..730fc76 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -114,8 +114,20 @@ def orderby(cls, ops, kwargs):
         ...     simplifications = [orderby, ]
         >>> Times.create(2,1)
         Times(1, 2)
+
+    Only neighboring arguments are ever exchanged, and only if the right one is
+    strictly smaller than the left one. Thus, for an order key that defines
+    only a partial order (:class:`.DisjunctCommutativeHSOrder`), arguments that
+    are not comparable keep their relative order.
     """
-    return sorted(ops, key=cls.order_key), kwargs
+    ordered = []
+    for op in ops:
+        key = cls.order_key(op)
+        pos = len(ordered)
+        while pos > 0 and key < ordered[pos - 1][0]:
+            pos -= 1
+        ordered.insert(pos, (key, op))
+    return [op for (_, op) in ordered], kwargs
 
 
 def filter_neutral(cls, ops, kwargs):
-- 
2.43.0


From df6ea3f02c565c1acffdf26af941c90706efdf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 07/86] fix: free indices were captured by indexed sums

In products, in nested sums, and in substitutions, a free index that has the
same name as a summation index ended up being summed over.
---
 src/qnet/algebra/_rules.py                    |  6 ++-
 .../algebra/core/abstract_quantum_algebra.py  | 10 ++--
 src/qnet/algebra/core/algebraic_properties.py |  5 +-
 src/qnet/algebra/core/indexed_operations.py   | 51 +++++++++++++++----
 src/qnet/algebra/core/state_algebra.py        | 20 +++++---
 5 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 8ea2dba..67a99d1 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -603,6 +603,10 @@ def _algebraic_rules_state():
     def local_rule(A, B, Psi):
         return OperatorTimes.create(*A) * (B * Psi)
 
+    def apply_to_sum(A, sum):
+        sum = sum.make_disjunct_indices(A)
+        return KetIndexedSum.create(A * sum.term, *sum.ranges)
+
     OperatorTimesKet._rules.update(check_rules_dict([
         ('R001', (  # Id * Psi = Psi
             pattern_head(IdentityOperator, Psi),
@@ -700,7 +704,7 @@ def _algebraic_rules_state():
 
         ('R021', (
             pattern_head(A, sum),
-            lambda A, sum: KetIndexedSum.create(A * sum.term, *sum.ranges))),
+            apply_to_sum)),
     ]))
 
     TensorKet._binary_rules.update(check_rules_dict([
diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index b4de7f4..f59e424 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -860,8 +860,9 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
             other = other.make_disjunct_indices(self)
-            new_ranges = self.ranges + other.ranges
-            new_term = self.term * other.term
+            sum = self.make_disjunct_indices(other)
+            new_ranges = sum.ranges + other.ranges
+            new_term = sum.term * other.term
             # note that class may change, depending on type of new_term
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *new_ranges)
@@ -870,7 +871,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif isinstance(other, ScalarTimesQuantumExpression):
             return other.coeff * (self * other.term)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self.make_disjunct_indices(other)
             new_term = sum.term * other
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
@@ -879,6 +880,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
             self_new = self.make_disjunct_indices(other)
+            other = other.make_disjunct_indices(self_new)
             new_ranges = other.ranges + self_new.ranges
             new_term = other.term * self_new.term
             # note that class may change, depending on type of new_term
@@ -889,7 +891,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif isinstance(other, ScalarTimesQuantumExpression):
             return other.coeff * (other.term * self)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self.make_disjunct_indices(other)
             new_term = other * sum.term
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 730fc76..bb058dd 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -77,7 +77,10 @@ def assoc_indexed(cls, ops, kwargs):
     else:
         return ops, kwargs
 
-    term = term.make_disjunct_indices(*ranges)
+    if coeff == 1:
+        term = term.make_disjunct_indices(*ranges)
+    else:
+        term = term.make_disjunct_indices(coeff, *ranges)
     combined_ranges = tuple(ranges) + term.ranges
 
     if coeff == 1:
diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 9c95a0e..9a0b4cd 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -2,6 +2,8 @@
 
 from abc import ABCMeta
 
+import sympy
+
 from .abstract_algebra import Expression, Operation
 from .exceptions import InfiniteSumError
 from ..pattern_matching import wc
@@ -11,6 +13,17 @@ from ...utils.indices import (
 __all__ = ["IndexedSum"]
 
 
+def _index_symbols(expr):
+    """Set of all (free or bound) instances of IdxSym in `expr`"""
+    if isinstance(expr, Expression):
+        symbols = expr.free_symbols | expr.bound_symbols
+        if isinstance(expr, IndexedSum):
+            symbols |= expr.term.bound_symbols
+    else:
+        symbols = getattr(expr, 'free_symbols', ())
+    return set([sym for sym in symbols if isinstance(sym, IdxSym)])
+
+
 class IndexedSum(Operation, metaclass=ABCMeta):
     """Base class for indexed sums"""
 
@@ -197,10 +210,13 @@ class IndexedSum(Operation, metaclass=ABCMeta):
 
         Each element in `others` may be an index symbol (:class:`.IdxSym`),
         a index-range object (:class:`.IndexRangeBase`) or list of index-range
-        objects, or an indexed operation (something with a ``ranges`` attribute)
+        objects, or an arbitrary expression (in particular, an indexed
+        operation). For an expression, both its free and its bound index
+        symbols are taken into account.
 
         Each index symbol is primed until it does not match any index symbol in
-        `others`.
+        `others`, nor any other index symbol that occurs in the expression
+        itself.
         """
         new = self
         other_index_symbols = set()
@@ -210,6 +226,8 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                     other_index_symbols.add(other)
                 elif isinstance(other, IndexRangeBase):
                     other_index_symbols.add(other.index_symbol)
+                elif isinstance(other, (Expression, sympy.Basic)):
+                    other_index_symbols.update(_index_symbols(other))
                 elif hasattr(other, 'ranges'):
                     other_index_symbols.update(
                         [r.index_symbol for r in other.ranges])
@@ -219,23 +237,35 @@ class IndexedSum(Operation, metaclass=ABCMeta):
             except AttributeError:
                 raise ValueError(
                     "Each element of other must be an an instance of IdxSym, "
-                    "IndexRangeBase, an object with a `ranges` attribute "
-                    "with a list of IndexRangeBase instances, or a list of"
-                    "IndexRangeBase objects.")
+                    "IndexRangeBase, an expression, an object with a `ranges` "
+                    "attribute with a list of IndexRangeBase instances, or a "
+                    "list of IndexRangeBase objects.")
         for r in self.ranges:
             index_symbol = r.index_symbol
-            modified = False
-            while index_symbol in other_index_symbols:
-                modified = True
-                index_symbol = index_symbol.incr_primed()
-            if modified:
+            if index_symbol in other_index_symbols:
+                taken = other_index_symbols | _index_symbols(new)
+                while index_symbol in taken:
+                    index_symbol = index_symbol.incr_primed()
                 new = new._substitute(
                     {r.index_symbol: index_symbol}, safe=True)
         return new
 
+    def _substitute(self, var_map, safe=False):
+        # Substituting a free symbol must not result in a value depending on
+        # the bound symbols being captured by the sum
+        captured = set()
+        for key, val in var_map.items():
+            if key not in self.bound_symbols:
+                captured.update(self.bound_symbols & _index_symbols(val))
+        if len(captured) > 0:
+            renamed = self.make_disjunct_indices(*captured)
+            return renamed._substitute(var_map, safe=safe)
+        return super()._substitute(var_map, safe=safe)
+
     def __mul__(self, other):
         if isinstance(other, IndexedSum):
             other = other.make_disjunct_indices(self)
+            self = self.make_disjunct_indices(other)
             new_ranges = self.ranges + other.ranges
             return self.__class__.create(self.term * other.term, *new_ranges)
         try:
@@ -246,6 +276,7 @@ class IndexedSum(Operation, metaclass=ABCMeta):
     def __rmul__(self, other):
         if isinstance(other, IndexedSum):
             self = self.make_disjunct_indices(other)
+            other = other.make_disjunct_indices(self)
             new_ranges = other.ranges + self.ranges
             return self.__class__.create(other.term * self.term, *new_ranges)
         try:
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 84c160a..a7d05bf 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -110,16 +110,18 @@ class State(QuantumExpression, metaclass=ABCMeta):
                 is_sum = check_if_sum(self, other.ket)
                 if is_sum == [True, True]:
                     other_ket = other.ket.make_disjunct_indices(self)
-                    new_term = self.term * Bra(other_ket.term)
-                    new_ranges = self.ranges + other_ket.ranges
+                    self_ket = self.make_disjunct_indices(other_ket)
+                    new_term = self_ket.term * Bra(other_ket.term)
+                    new_ranges = self_ket.ranges + other_ket.ranges
                     return new_term.__class__._indexed_sum_cls.create(
                         new_term, *new_ranges)
                 elif is_sum == [True, False]:
                     return QuantumIndexedSum.__mul__(self, other)
                 elif is_sum == [False, True]:
-                    new_term = self * Bra(other.ket.term)
+                    other_ket = other.ket.make_disjunct_indices(self)
+                    new_term = self * Bra(other_ket.term)
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *other.ket.ranges)
+                        new_term, *other_ket.ranges)
                 elif is_sum == [False, False]:
                     return KetBra.create(self, other.ket)
             elif isket == (False, True):
@@ -127,14 +129,16 @@ class State(QuantumExpression, metaclass=ABCMeta):
                 is_sum = check_if_sum(self.ket, other)
                 if is_sum == [True, True]:
                     other = other.make_disjunct_indices(self.ket)
-                    new_term = Bra(self.ket.term) * other.term
-                    new_ranges = self.ket.ranges + other.ranges
+                    self_ket = self.ket.make_disjunct_indices(other)
+                    new_term = Bra(self_ket.term) * other.term
+                    new_ranges = self_ket.ranges + other.ranges
                     return new_term.__class__._indexed_sum_cls.create(
                         new_term, *new_ranges)
                 elif is_sum == [True, False]:
-                    new_term = Bra(self.ket.term) * other
+                    self_ket = self.ket.make_disjunct_indices(other)
+                    new_term = Bra(self_ket.term) * other
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *self.ket.ranges)
+                        new_term, *self_ket.ranges)
                 elif is_sum == [False, True]:
                     return QuantumIndexedSum.__rmul__(other, self)
                 elif is_sum == [False, False]:
-- 
2.43.0


From 7495eba7995da0ee68ba298f88b1d73abd7ef102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 08/86] fix: substitutions were not simultaneous for SymPy
 expressions

E.g. {x: y, y: x} replaced x by x, in contrast to QNET expressions.
---
 src/qnet/algebra/core/abstract_algebra.py         | 2 +-
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 src/qnet/utils/indices.py                         | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 5493560..66b72d0 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -682,7 +682,7 @@ def substitute(expr, var_map):
             sympy_var_map = {
                 k: v for (k, v) in var_map.items()
                 if isinstance(k, SympyBasic)}
-            return expr.subs(sympy_var_map)
+            return expr.subs(sympy_var_map, simultaneous=True)
         else:
             return expr.substitute(var_map)
     except AttributeError:
diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index f59e424..ce89884 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -588,7 +588,7 @@ class ScalarTimesQuantumExpression(
         if isinstance(self.coeff, sympy.Basic):
             svar_map = {k: v for k, v in var_map.items()
                         if not isinstance(k, Expression)}
-            sc = self.coeff.subs(svar_map)
+            sc = self.coeff.subs(svar_map, simultaneous=True)
         else:
             sc = substitute(self.coeff, var_map)
         if safe:
diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index 75e5df0..bc696b2 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -219,7 +219,7 @@ class SymbolicLabelBase(metaclass=ABCMeta):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        new_expr = self.expr.subs(var_map, simultaneous=True)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr)
         else:
@@ -312,7 +312,7 @@ class FockLabel(StrLabel):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        new_expr = self.expr.subs(var_map, simultaneous=True)
         new_hs = self.hs.substitute(var_map)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr, hs=new_hs)
@@ -378,7 +378,7 @@ class SpinIndex(StrLabel):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        new_expr = self.expr.subs(var_map, simultaneous=True)
         new_hs = self.hs.substitute(var_map)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr, hs=new_hs)
-- 
2.43.0


From decce230ccea99a770b3c9acc6b17c08dfb5c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 09/86] fix: coefficients of J_z and J_- for basis labels and
 quantum numbers

---
 src/qnet/algebra/library/spin_algebra.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index c9a06ec..969281b 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -436,13 +436,12 @@ def Jzjmcoeff(ls, m, shift) -> sympy.Expr:
     s = sympify(n - 1) / 2
     assert n == int(2 * s + 1)
     if isinstance(m, str):
-        return ls.basis.index(m) - s
+        return ls.basis_labels.index(m) - s
     elif isinstance(m, int):
         if shift:
             assert 0 <= m < n
             return m - s
-    else:
-        return sympify(m)
+    return sympify(m)
 
 
 def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
@@ -459,7 +458,7 @@ def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
     s = sympify(n - 1) / 2
     assert n == int(2 * s + 1)
     if isinstance(m, str):
-        m = ls.basis.index(m) - s  # m is now Sympy expression
+        m = ls.basis_labels.index(m) - s  # m is now Sympy expression
     elif isinstance(m, int):
         if shift:
             assert 0 <= m < n
-- 
2.43.0


From 3e6f9376c60db2df774bc4e836683d6439a24078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 10/86] fix: next label of a FockLabel or SpinIndex lost its
 Hilbert space

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 4 +++-
 src/qnet/algebra/library/spin_algebra.py       | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 2481239..48d012f 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -13,6 +13,8 @@ from abc import ABCMeta, abstractmethod
 from collections import OrderedDict
 from itertools import product as cartesian_product
 
+import attr
+
 from .abstract_algebra import (
     Expression, Operation, )
 from .algebraic_properties import (
@@ -500,7 +502,7 @@ class LocalSpace(HilbertSpace, Expression):
                                  % (new_index, self._basis))
             return self._basis[new_index]
         elif isinstance(label_or_index, SymbolicLabelBase):
-            return label_or_index.__class__(expr=label_or_index.expr + n)
+            return attr.evolve(label_or_index, expr=label_or_index.expr + n)
         else:
             raise TypeError(
                 "Invalid type for label_or_index: %s"
diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 969281b..74eceef 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -160,7 +160,8 @@ class SpinSpace(LocalSpace):
                     % (new_index, self._basis))
             return self.basis_labels[new_index]
         elif isinstance(label_or_index, SpinIndex):
-            return label_or_index.__class__(expr=label_or_index.expr + n)
+            return label_or_index.__class__(
+                expr=label_or_index.expr + n, hs=label_or_index.hs)
 
     @property
     def spin(self) -> sympy.Rational:
-- 
2.43.0


From 117a43b004b9d9ee6892645124cf9261d83b1f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 11/86] fix: removal from and intersection of a local space

Removing FullSpace or a product space containing the local space left the
space unchanged, and the intersection with FullSpace raised an exception.
---
 src/qnet/algebra/core/hilbert_space_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 48d012f..068e3a6 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -441,12 +441,12 @@ class LocalSpace(HilbertSpace, Expression):
         return self._minimal_kwargs
 
     def remove(self, other):
-        if other == self:
+        if self <= other:
             return TrivialSpace
         return self
 
     def intersect(self, other):
-        if self in other.local_factors:
+        if self <= other:
             return self
         return TrivialSpace
 
-- 
2.43.0


From 38f8dd3f459129f2ca918906ade78239fdf6c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 12/86] fix: a SpinSpace lost its custom basis when rebuilt
 from its kwargs

---
 src/qnet/algebra/library/spin_algebra.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 74eceef..345d6cf 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -88,10 +88,11 @@ class SpinSpace(LocalSpace):
         if dimension <= 1:
             raise ValueError("spin %s must be greater than zero" % spin)
         bottom = -spin
+        default_basis = tuple([
+            SpinIndex._static_render(bottom + n)
+            for n in range(dimension)])
         if basis is None:
-            basis = tuple([
-                SpinIndex._static_render(bottom + n)
-                for n in range(dimension)])
+            basis = default_basis
         else:
             # sometimes people don't think and use some of the "canonical" TLS
             # labels in the wrong order. We can catch it, so why not?
@@ -107,6 +108,8 @@ class SpinSpace(LocalSpace):
             ('spin', self._spin),
             ('local_identifiers', self._sorted_local_identifiers),
             ('order_index', self._order_index)])
+        if self._basis != default_basis:
+            self._kwargs['basis'] = self._basis
         self._minimal_kwargs = self._kwargs.copy()
         if local_identifiers is None:
             del self._minimal_kwargs['local_identifiers']
-- 
2.43.0


From 9e0431111fbece0059eadb7aba2ebc54564e91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 13/86] fix: phase operator applied to a basis state with a
 string label

---
 src/qnet/algebra/_rules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 67a99d1..e4366e3 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -694,8 +694,10 @@ def _algebraic_rules_state():
                  BasisKet(0, hs=ls)))),
         ('R019', (
             pattern_head(
-                pattern(Phase, u, hs=ls), pattern(BasisKet, m, hs=ls)),
-            lambda ls, u, m: exp(I * u * m) * BasisKet(m, hs=ls))),
+                pattern(Phase, u, hs=ls),
+                wc('basisket', BasisKet, kwargs={'hs': ls})),
+            lambda ls, u, basisket:
+                exp(I * u * basisket.index) * basisket)),
         ('R020', (
             pattern_head(
                 pattern(Phase, u, hs=ls),
-- 
2.43.0


From 9b9837ed62b06ead584e2019cac295bd594338e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 14/86] fix: operators not commuting with the traced operator
 were pulled out

In a partial trace, an operator not acting on the traced space was pulled out
to the left, past operators it does not commute with; also, operators acting on
more than the traced space were permuted cyclically.
---
 src/qnet/algebra/core/operator_algebra.py | 34 +++++++++++++++--------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 2478d59..fe901f4 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -848,11 +848,25 @@ def factor_for_trace(ls: HilbertSpace, op: Operator) -> Operator:
     if ls & op.space == TrivialSpace:
         return ls.dimension * op
     if ls < op.space and isinstance(op, OperatorTimes):
-        pull_out = [o for o in op.operands if (o.space & ls) == TrivialSpace]
-
-        rest = [o for o in op.operands if (o.space & ls) != TrivialSpace]
-        if (not isinstance(rest[0], LocalSigma) or
-            not isinstance(rest[-1], LocalSigma)):
+        # Operators not acting on ls can be pulled out of the trace (to the
+        # left or to the right) if they commute with everything on the way
+        pull_left, not_left, rest, pull_right = [], [], [], []
+        for o in op.operands:
+            if ((o.space & ls) == TrivialSpace and
+                    all(o.space.isdisjoint(r.space) for r in not_left)):
+                pull_left.append(o)
+            else:
+                not_left.append(o)
+        for o in reversed(not_left):
+            if ((o.space & ls) == TrivialSpace and
+                    all(o.space.isdisjoint(r.space) for r in rest)):
+                pull_right.insert(0, o)
+            else:
+                rest.insert(0, o)
+        # The trace is cyclic only for operators acting on nothing but ls
+        if (all(r.space == ls for r in rest) and
+                (not isinstance(rest[0], LocalSigma) or
+                 not isinstance(rest[-1], LocalSigma))):
             for j, r in enumerate(rest):
                 if isinstance(r, LocalSigma):
                     m = r.j
@@ -860,12 +874,10 @@ def factor_for_trace(ls: HilbertSpace, op: Operator) -> Operator:
                         rest[j:] + rest[:j] +
                         [LocalSigma.create(m, m, hs=ls), ])
                     break
-        if not rest:
-            rest = [IdentityOperator]
-        if len(pull_out):
-            return (OperatorTimes.create(*pull_out) *
-                    OperatorTrace.create(OperatorTimes.create(*rest),
-                                         over_space=ls))
+        if len(pull_left) + len(pull_right) > 0:
+            trace = OperatorTrace.create(
+                OperatorTimes.create(*rest), over_space=ls)
+            return OperatorTimes.create(*pull_left, trace, *pull_right)
     raise CannotSimplify()
 
 
-- 
2.43.0


From 313c9e64de51520072689420190397f4c9ccdec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 15/86] fix: exponents of nested powers were combined for
 non-integer powers

E.g. the square root of the square of a scalar x is not x.
---
 src/qnet/algebra/_rules.py              | 13 ++++++++++++-
 src/qnet/algebra/core/scalar_algebra.py |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index e4366e3..6308670 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -72,6 +72,17 @@ def _algebraic_rules_scalar():
             lambda x: One)),
     ]))
 
+    def power_of_power(x, y, z):
+        # (x^y)^z = x^(y z) only holds in general for integer z
+        try:
+            is_int = (int(z) == z)
+        except (TypeError, ValueError):
+            is_int = False
+        if is_int:
+            return x**(y * z)
+        else:
+            raise CannotSimplify()
+
     ScalarPower._rules.update(check_rules_dict([
         ('R001', (
             pattern_head(a, b),
@@ -84,7 +95,7 @@ def _algebraic_rules_scalar():
             lambda x: x)),
         ('R004', (
             pattern_head(pattern(ScalarPower, x, y), z),
-            lambda x, y, z: x**(y*z))),
+            lambda x, y, z: power_of_power(x, y, z))),
     ]))
 
     def pull_constfactor_from_sum(x, y, indranges):
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 0b4309b..6bd3f50 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1062,7 +1062,7 @@ class ScalarPower(QuantumOperation, Scalar):
         return self._exp
 
     def __pow__(self, other):
-        return ScalarPower.create(self.base, self.exp * other)
+        return ScalarPower.create(self, other)
 
     def _adjoint(self):
         return self.__class__.create(
-- 
2.43.0


From e41a411a8e927d2822489d49b77e79dfdbf4458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 16/86] fix: multiplying an indexed sum of scalars with a
 super-operator crashed

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index ce89884..0ec6ea7 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -870,6 +870,10 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
             return self.__class__._scalar_times_expr_cls(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
             return other.coeff * (self * other.term)
+        elif other.__class__._indexed_sum_cls is None:
+            # there are no indexed sums of this kind (super-operators): keep
+            # the (scalar) sum as a coefficient
+            return other.__class__._scalar_times_expr_cls.create(self, other)
         else:
             sum = self.make_disjunct_indices(other)
             new_term = sum.term * other
-- 
2.43.0


From cb9d060c66455390558828e072f2a2f96b0417a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 17/86] fix: the order of KeyTuples was not antisymmetric

'a > b' used the comparison of plain tuples, without the fallback to string
comparison of 'a < b', so that for nested keys both a < b and b < a could
hold (e.g. endless recursion in Commutator.create).
---
 src/qnet/utils/ordering.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/utils/ordering.py b/src/qnet/utils/ordering.py
index 51251d9..35bc000 100644
--- a/src/qnet/utils/ordering.py
+++ b/src/qnet/utils/ordering.py
@@ -57,6 +57,11 @@ class KeyTuple(tuple):
             return False
         return None
 
+    def __gt__(self, other):
+        if not isinstance(other, KeyTuple):
+            return NotImplemented
+        return other.__lt__(self)
+
     def __repr__(self):
         return self.__class__.__name__ + tuple.__repr__(self)
 
-- 
2.43.0


From 52979a39bd7f42b852474354220867cad1028ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 18/86] fix: feedbacks of one circuit on different ports were
 identified

The instance key (equality, hash, cache of created instances) of a Feedback
did not include the ports.
---
 src/qnet/algebra/core/circuit_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 87e48bf..6ced2d5 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1221,7 +1221,8 @@ class Feedback(Circuit, Operation):
         self.out_port = int(out_port)
         self.in_port = int(in_port)
         operands = [circuit, ]
-        super().__init__(*operands)
+        super().__init__(
+            *operands, out_port=self.out_port, in_port=self.in_port)
 
     @property
     def kwargs(self):
-- 
2.43.0


From bf8fb87841623da76b9a35e15fe85110e338b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 19/86] fix: series products with a circuit identity of another
 dimension were accepted

The channel dimensions were compared only after the identities had been
dropped.
---
 src/qnet/algebra/core/algebraic_properties.py | 2 +-
 src/qnet/algebra/core/circuit_algebra.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index bb058dd..ca53309 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -438,7 +438,7 @@ def _match_replace_binary_combine(cls, a: list, b: list) -> list:
 
 def check_cdims(cls, ops, kwargs):
     """Check that all operands (`ops`) have equal channel dimension."""
-    if not len({o.cdim for o in ops}) == 1:
+    if len({o.cdim for o in ops}) > 1:
         raise ValueError("Not all operands have the same cdim:" + str(ops))
     return ops, kwargs
 
diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 6ced2d5..e06de83 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1078,7 +1078,7 @@ class SeriesProduct(Circuit, Operation):
     """The series product circuit operation. It can be applied to any sequence
     of circuit objects that have equal channel dimension.
     """
-    simplifications = [assoc, filter_cid, check_cdims,
+    simplifications = [assoc, check_cdims, filter_cid,
                        match_replace_binary]
     _binary_rules = OrderedDict()  # see end of module
 
-- 
2.43.0


From 364d63693ff6452f79edb8e46f26582f170bb4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 20/86] fix: simplifying the feedback of a series with an SLH
 did not terminate

---
 src/qnet/algebra/_rules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 6308670..d072726 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -1017,6 +1017,9 @@ def _series_feedback(series, out_port, in_port):
     series_s = series.series_inverse().series_inverse()
     if series_s == series:
         raise CannotSimplify()
+    if series_s.series_inverse().series_inverse() != series_s:
+        # inverting twice never settles (e.g. the scattering matrix of an SLH)
+        raise CannotSimplify()
     return series_s.feedback(out_port=out_port, in_port=in_port)
 
 
-- 
2.43.0


From 18400ea09fc813cab88b33489fc17fc7558967ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 21/86] fix: malformed permutation raised TypeError instead of
 BadPermutationError

---
 src/qnet/utils/permutations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/utils/permutations.py b/src/qnet/utils/permutations.py
index 8a4c456..b6ced7e 100644
--- a/src/qnet/utils/permutations.py
+++ b/src/qnet/utils/permutations.py
@@ -64,7 +64,8 @@ def permutation_to_disjoint_cycles(permutation):
     :raise: BadPermutationError
     """
     if not check_permutation(permutation):
-        raise BadPermutationError('Malformed permutation %r' % permutation)
+        raise BadPermutationError(
+            'Malformed permutation %r' % (permutation, ))
 
     p_index = 0
     current_cycle = [0]
-- 
2.43.0


From 791a0d2094bdb9e5be4ff18f66df56fb2f654af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 22/86] fix: permuting a string gave the repr of a generator

---
 src/qnet/utils/permutations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/utils/permutations.py b/src/qnet/utils/permutations.py
index b6ced7e..afc9d90 100644
--- a/src/qnet/utils/permutations.py
+++ b/src/qnet/utils/permutations.py
@@ -233,7 +233,9 @@ def permute(sequence, permutation):
     if not check_permutation(permutation):
         raise BadPermutationError(str(permutation))
 
-    if type(sequence) in (list, tuple, str):
+    if type(sequence) is str:
+        constructor = ''.join
+    elif type(sequence) in (list, tuple):
         constructor = type(sequence)
     else:
         constructor = list
-- 
2.43.0


From e87e777e2d7e23b5874321742136db3b910c2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 23/86] fix: blocks of a column matrix repeated the first block

---
 src/qnet/algebra/core/matrix_algebra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 6b1ce5a..afc4efd 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -83,11 +83,13 @@ class Matrix(Expression):
             else:
                 raise ValueError()
         elif m == 1:
+            if not sum(block_structure) == n:
+                raise ValueError()
             if not len(block_structure):
                 return ()
             else:
                 return ((self[:block_structure[0], :],) +
-                        self[:block_structure[0], :]
+                        self[block_structure[0]:, :]
                         ._get_blocks(block_structure[1:]))
         else:
             raise ValueError()
-- 
2.43.0


From f03aa198ce711c4e3ec5cae00fc388d1042786f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 24/86] fix: scalar times or plus a matrix crashed for SymPy
 and QNET scalars

---
 src/qnet/algebra/core/matrix_algebra.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index afc4efd..98a1382 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -133,7 +133,11 @@ class Matrix(Expression):
             return Matrix(self.matrix + other)
 
     def __radd__(self, other):
-        return Matrix(other + self.matrix)
+        if isinstance(other, ndarray):
+            return Matrix(other + self.matrix)
+        # `other` may not be able to handle an array (SymPy, Scalar)
+        return Matrix(np_array([other + o for o in self.matrix.ravel().tolist()])
+                      .reshape(self.shape))
 
     def __mul__(self, other):
         if isinstance(other, Matrix):
@@ -142,7 +146,11 @@ class Matrix(Expression):
             return Matrix(self.matrix * other)
 
     def __rmul__(self, other):
-        return Matrix(other * self.matrix)
+        if isinstance(other, ndarray):
+            return Matrix(other * self.matrix)
+        # `other` may not be able to handle an array (SymPy, Scalar)
+        return Matrix(np_array([other * o for o in self.matrix.ravel().tolist()])
+                      .reshape(self.shape))
 
     def __sub__(self, other):
         return self + (-1) * other
-- 
2.43.0


From c80adaacabc3dcdb4e30d4c3a15e7cdb1913124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 25/86] fix: testing whether the full space is disjoint from
 another space crashed

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 068e3a6..1757523 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -66,7 +66,7 @@ class HilbertSpace(metaclass=ABCMeta):
         other Hilbert space, while `TrivialSpace` *is* disjoint with any other
         HilbertSpace (even itself)
         """
-        if other == FullSpace:
+        if self == FullSpace or other == FullSpace:
             return False
         else:
             for ls in self.local_factors:
-- 
2.43.0


From 0b95f6a8db434c3d0489f02b4af79eb3010fdef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 26/86] fix: an unknown label of the trivial space raised
 TypeError instead of KeyError

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 1757523..508d556 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -563,7 +563,7 @@ class TrivialSpace(HilbertSpace, Expression, metaclass=Singleton):
                     "No index %d in basis for TrivialSpace" % index_or_label)
             else:
                 raise KeyError(
-                    "No label %d in basis for TrivialSpace" % index_or_label)
+                    "No label %s in basis for TrivialSpace" % index_or_label)
 
     @property
     def basis_labels(self):
-- 
2.43.0


From e5ad585791e3b0c54037b05fa50ea5e84c390fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 27/86] fix: a negative index of a product space wrapped around
 to its last basis states

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 508d556..ba21658 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -735,6 +735,8 @@ class ProductSpace(HilbertSpace, Operation):
         """
         from qnet.algebra.core.state_algebra import BasisKet, TensorKet
         if isinstance(index_or_label, int):  # index
+            if index_or_label < 0:
+                raise IndexError("Index %d must be >= 0" % index_or_label)
             ls_bases = [ls.basis_labels for ls in self.local_factors]
             label_tuple = list(cartesian_product(*ls_bases))[index_or_label]
             try:
-- 
2.43.0


From 6930f8c0c49851fa4c30d91c3efc6dacc1343255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 28/86] fix: a FockLabel with a negative index rendered to a
 label from the end of the basis

---
 src/qnet/utils/indices.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index bc696b2..6fc21d3 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -300,6 +300,8 @@ class FockLabel(StrLabel):
 
     def _render(self, expr):
         i = int(expr)
+        if i < 0:
+            raise IndexError("Index %d must be >= 0" % i)
         return self.hs.basis_labels[i]
 
     @property
-- 
2.43.0


From e5dd9eb53672b2918c87e4e57d853bb0a0c66403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 29/86] fix: the indicator function of an index over a Hilbert
 space included its dimension

---
 src/qnet/utils/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index 6fc21d3..a99c158 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -544,7 +544,7 @@ class IndexOverFockSpace(IndexRangeBase):
         if self.hs._dimension is None:
             to_val = sympy.oo
         else:
-            to_val = self.hs.dimension
+            to_val = self.hs.dimension - 1
         return Piecewise(
             (1, sympy.Interval(0, to_val).as_relational(expr)),
             (0, True))
-- 
2.43.0


From e1bd71b04f2c1b99dae914db2737afeb7c55701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 30/86] fix: adjoint operators could not be converted to QuTiP

---
 src/qnet/convert/to_qutip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 97f55d9..0f1f7a0 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -256,8 +256,8 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
         # combine local factors in tensor product
         return qutip.tensor(*by_space)
     elif isinstance(expr, Adjoint):
-        return convert_to_qutip(qutip.dag(expr.operands[0]), full_space,
-                                mapping=mapping)
+        return convert_to_qutip(expr.operands[0], full_space,
+                                mapping=mapping).dag()
     elif isinstance(expr, ScalarTimesOperator):
         try:
             coeff = complex(expr.coeff)
-- 
2.43.0


From cc3ba9003d8900be549d2a24756bbc2aeaeb4f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 31/86] fix: pseudo-inverses and kernel projectors could not be
 converted to QuTiP

---
 src/qnet/convert/to_qutip.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 0f1f7a0..287be5d 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -273,11 +273,7 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
             arr = mo.data.toarray()
             from scipy.linalg import pinv
             piarr = pinv(arr)
-            pimo = qutip.Qobj(piarr)
-            pimo.dims = mo.dims
-            pimo.isherm = mo.isherm
-            pimo.type = 'oper'
-            return pimo
+            return qutip.Qobj(piarr, dims=mo.dims)
         raise NotImplementedError("Only implemented for smaller state "
                                   "spaces")
     elif isinstance(expr, NullSpaceProjector):
@@ -292,11 +288,7 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
             zero_svs = s < tol
             Vhzero = Vh[zero_svs, :]
             PKarr = Vhzero.conjugate().transpose().dot(Vhzero)
-            PKmo = qutip.Qobj(PKarr)
-            PKmo.dims = mo.dims
-            PKmo.isherm = True
-            PKmo.type = 'oper'
-            return PKmo
+            return qutip.Qobj(PKarr, dims=mo.dims)
         raise NotImplementedError("Only implemented for smaller state "
                                   "spaces")
     else:
-- 
2.43.0


From 4e55516fc94d71a29e09fc4f9c7ee6153227cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 32/86] fix: phase, displacement, squeezing and coherent states
 could not be converted to QuTiP

---
 src/qnet/convert/to_qutip.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 287be5d..b03d1ef 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -202,15 +202,16 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
-        arg = complex(expr.operands[1]) * arange(n)
+        arg = complex(expr.phase) * arange(n)
         d = np_cos(arg) + 1j * np_sin(arg)
         return qutip.Qobj(np_diag(d))
     elif isinstance(expr, Displace):
-        alpha = expr.operands[1]
+        alpha = complex(expr.displacement)
         return qutip.displace(n, alpha)
     elif isinstance(expr, Squeeze):
-        eta = expr.operands[1]
-        return qutip.displace(n, eta)
+        # qutip.squeeze uses the opposite sign for the squeezing factor
+        eta = complex(expr.squeezing_factor)
+        return qutip.squeeze(n, -eta)
     elif isinstance(expr, LocalSigma):
         j = expr.j
         k = expr.k
@@ -334,7 +335,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
     if isinstance(expr, BasisKet):
         return qutip.basis(n, expr.index)
     elif isinstance(expr, CoherentStateKet):
-        return qutip.coherent(n, complex(expr.operands[1]))
+        return qutip.coherent(n, complex(expr.ampl))
     elif isinstance(expr, KetPlus):
         return sum((convert_to_qutip(op, full_space, mapping=mapping)
                     for op in expr.operands), 0)
-- 
2.43.0


From 05609589e97e1ff33cc0d3d01818a42616580010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 33/86] fix: outer products, bras and operators applied to
 states could not be converted to QuTiP

---
 src/qnet/convert/to_qutip.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index b03d1ef..8bc0d9e 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -19,7 +19,7 @@ from ..algebra.library.spin_algebra import Jz, Jplus, Jminus
 from ..algebra.library.fock_operators import (
     Destroy, Create, Phase, Displace, Squeeze)
 from ..algebra.core.state_algebra import (
-    State, BraKet, KetBra, BasisKet, CoherentStateKet, KetPlus, TensorKet,
+    State, Bra, BraKet, KetBra, BasisKet, CoherentStateKet, KetPlus, TensorKet,
     ScalarTimesKet, OperatorTimesKet)
 from ..algebra.core.hilbert_space_algebra import TrivialSpace
 from ..algebra.core.super_operator_algebra import (
@@ -292,6 +292,16 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
             return qutip.Qobj(PKarr, dims=mo.dims)
         raise NotImplementedError("Only implemented for smaller state "
                                   "spaces")
+    elif isinstance(expr, KetBra):
+        own_spaces = expr.space.local_factors
+        all_spaces = full_space.local_factors
+        other_spaces = tuple(s for s in all_spaces if s not in own_spaces)
+        kq = convert_to_qutip(expr.ket, expr.space, mapping=mapping)
+        bq = convert_to_qutip(expr.bra, expr.space, mapping=mapping)
+        res = qutip.tensor(
+            kq * bq, *[qutip.qeye(s.dimension) for s in other_spaces])
+        spaces = tuple(own_spaces) + other_spaces
+        return res.permute([spaces.index(s) for s in all_spaces])
     else:
         raise ValueError("Cannot convert '%s' of type %s"
                          % (str(expr), type(expr)))
@@ -353,8 +363,10 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
         return complex(expr.coeff) * convert_to_qutip(expr.term, full_space,
                                                       mapping=mapping)
     elif isinstance(expr, OperatorTimesKet):
-        return convert_to_qutip(expr.coeff, full_space, mapping=mapping) * \
-                convert_to_qutip(expr.term, full_space, mapping=mapping)
+        return convert_to_qutip(expr.operator, full_space, mapping=mapping) * \
+                convert_to_qutip(expr.ket, full_space, mapping=mapping)
+    elif isinstance(expr, Bra):
+        return convert_to_qutip(expr.ket, full_space, mapping=mapping).dag()
     else:
         raise ValueError("Cannot convert '%s' of type %s"
                          % (str(expr), type(expr)))
-- 
2.43.0


From 48b80fefeb72956988a90b3fff603fa288a29124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 34/86] fix: super-operators could not be converted to QuTiP

---
 src/qnet/convert/to_qutip.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 8bc0d9e..82d4d2b 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -373,17 +373,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
 
 
 def _convert_superoperator_to_qutip(expr, full_space, mapping):
-    if full_space != expr.space:
-        all_spaces = full_space.local_factors
-        own_space_index = all_spaces.index(expr.space)
-        return qutip.tensor(
-            *([qutip.qeye(s.dimension)
-               for s in all_spaces[:own_space_index]] +
-              convert_to_qutip(expr, expr.space, mapping=mapping) +
-              [qutip.qeye(s.dimension)
-               for s in all_spaces[own_space_index + 1:]])
-        )
-    if isinstance(expr, IdentitySuperOperator):
+    if expr is IdentitySuperOperator:
         return qutip.spre(qutip.tensor(*[qutip.qeye(s.dimension)
                                          for s in full_space.local_factors]))
     elif isinstance(expr, SuperOperatorPlus):
@@ -406,7 +396,7 @@ def _convert_superoperator_to_qutip(expr, full_space, mapping):
         sop, op = expr.operands
         return (convert_to_qutip(sop, full_space, mapping=mapping) *
                 convert_to_qutip(op, full_space, mapping=mapping))
-    elif isinstance(expr, ZeroSuperOperator):
+    elif expr is ZeroSuperOperator:
         return qutip.spre(convert_to_qutip(ZeroOperator, full_space,
                           mapping=mapping))
     else:
-- 
2.43.0


From 9e56e410b76ff9776e742d77d35411b9d7e4e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 35/86] fix: spin operators were converted to QuTiP in the
 reverse of the basis order

---
 src/qnet/convert/to_qutip.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 82d4d2b..8d749fc 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -178,6 +178,12 @@ def SLH_to_qutip(slh, full_space=None, time_symbol=None,
     return H, Ls
 
 
+def _spin_matrix(n, which):
+    """Spin matrix in the basis of a SpinSpace, i.e. with the states in the
+    order of increasing quantum number (qutip uses the opposite order)"""
+    return qutip.Qobj(qutip.jmat((n-1)/2., which).full()[::-1, ::-1])
+
+
 def _convert_local_operator_to_qutip(expr, full_space, mapping):
     """Convert a LocalOperator instance to qutip"""
     n = full_space.dimension
@@ -194,11 +200,11 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     if isinstance(expr, Create):
         return qutip.create(n)
     elif isinstance(expr, Jz):
-        return qutip.jmat((expr.space.dimension-1)/2., "z")
+        return _spin_matrix(n, "z")
     elif isinstance(expr, Jplus):
-        return qutip.jmat((expr.space.dimension-1)/2., "+")
+        return _spin_matrix(n, "+")
     elif isinstance(expr, Jminus):
-        return qutip.jmat((expr.space.dimension-1)/2., "-")
+        return _spin_matrix(n, "-")
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
-- 
2.43.0


From 0160c9131b3a5e773550d816608fbd0f9573b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 36/86] fix: applying a product of local operators to a local
 state did not terminate

---
 src/qnet/algebra/_rules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index d072726..908f732 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -612,7 +612,11 @@ def _algebraic_rules_state():
     ]))
 
     def local_rule(A, B, Psi):
-        return OperatorTimes.create(*A) * (B * Psi)
+        B_Psi = B * Psi
+        if B_Psi == OperatorTimesKet(B, Psi):
+            # B cannot be applied, R014 would restore the original expression
+            raise CannotSimplify()
+        return OperatorTimes.create(*A) * B_Psi
 
     def apply_to_sum(A, sum):
         sum = sum.make_disjunct_indices(A)
-- 
2.43.0


From 7660cc398ddb26afe6cb93b42fd0ba2e793a00d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 37/86] fix: outer products with the zero state were kept as
 operators on the full space or crashed

---
 src/qnet/algebra/_rules.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 908f732..fe23f00 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -820,6 +820,12 @@ def _algebraic_rules_state():
         ('R011', (  # delegate to __mul__
             pattern_head(sum, Psi),
             lambda sum, Psi: sum * Bra.create(Psi))),
+        ('R012', (
+            pattern_head(ZeroKet, Phi),
+            lambda Phi: ZeroOperator)),
+        ('R013', (
+            pattern_head(Psi, ZeroKet),
+            lambda Psi: ZeroOperator)),
     ]))
 
     def pull_constfactor_from_sum(u, Psi, indranges):
-- 
2.43.0


From 16222acdb9ad4b8dafaa94d34c2191bd07a8dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 38/86] fix: unit displacements were converted to QuTiP as
 imaginary ones

---
 src/qnet/convert/to_qutip.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 8d749fc..f771c0f 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -208,15 +208,15 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
-        arg = complex(expr.phase) * arange(n)
+        arg = complex(expr.phase.val) * arange(n)
         d = np_cos(arg) + 1j * np_sin(arg)
         return qutip.Qobj(np_diag(d))
     elif isinstance(expr, Displace):
-        alpha = complex(expr.displacement)
+        alpha = complex(expr.displacement.val)
         return qutip.displace(n, alpha)
     elif isinstance(expr, Squeeze):
         # qutip.squeeze uses the opposite sign for the squeezing factor
-        eta = complex(expr.squeezing_factor)
+        eta = complex(expr.squeezing_factor.val)
         return qutip.squeeze(n, -eta)
     elif isinstance(expr, LocalSigma):
         j = expr.j
@@ -351,7 +351,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
     if isinstance(expr, BasisKet):
         return qutip.basis(n, expr.index)
     elif isinstance(expr, CoherentStateKet):
-        return qutip.coherent(n, complex(expr.ampl))
+        return qutip.coherent(n, complex(ScalarValue.create(expr.ampl).val))
     elif isinstance(expr, KetPlus):
         return sum((convert_to_qutip(op, full_space, mapping=mapping)
                     for op in expr.operands), 0)
-- 
2.43.0


From a06309048a7bfeb4e309286c711da480c021e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 39/86] fix: the zero state could not be converted to QuTiP

---
 src/qnet/convert/to_qutip.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index f771c0f..c979af5 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -20,8 +20,8 @@ from ..algebra.library.fock_operators import (
     Destroy, Create, Phase, Displace, Squeeze)
 from ..algebra.core.state_algebra import (
     State, Bra, BraKet, KetBra, BasisKet, CoherentStateKet, KetPlus, TensorKet,
-    ScalarTimesKet, OperatorTimesKet)
-from ..algebra.core.hilbert_space_algebra import TrivialSpace
+    ScalarTimesKet, OperatorTimesKet, ZeroKet)
+from ..algebra.core.hilbert_space_algebra import FullSpace, TrivialSpace
 from ..algebra.core.super_operator_algebra import (
     SuperOperator, IdentitySuperOperator, SuperOperatorPlus,
     SuperOperatorTimes, ScalarTimesSuperOperator, SPre, SPost,
@@ -60,6 +60,12 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
     """
     if full_space is None:
         full_space = expr.space
+    if expr is ZeroKet and full_space is not FullSpace:
+        # the zero state exists in any space
+        return qutip.tensor(
+            *[qutip.Qobj(csr_matrix((s.dimension, 1)))
+              for s in full_space.local_factors]
+        )
     if not expr.space.is_tensor_factor_of(full_space):
         raise ValueError(
             "expr '%s' must be in full_space %s" % (expr, full_space))
-- 
2.43.0


From 889dffd4a487405a25cc4b799bd8951d1690169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 40/86] fix: spin operators were converted to SymPy as ladder
 operators of a Fock space

---
 src/qnet/convert/to_sympy_matrix.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/qnet/convert/to_sympy_matrix.py b/src/qnet/convert/to_sympy_matrix.py
index 220b445..e87a592 100644
--- a/src/qnet/convert/to_sympy_matrix.py
+++ b/src/qnet/convert/to_sympy_matrix.py
@@ -8,7 +8,8 @@ from ..algebra.core.operator_algebra import (
     IdentityOperator, ZeroOperator, LocalOperator, LocalSigma, Operator,
     OperatorPlus, OperatorTimes, ScalarTimesOperator,
     Adjoint, PseudoInverse, NullSpaceProjector)
-from ..algebra.library.spin_algebra import Jz, Jplus, Jminus
+from ..algebra.library.spin_algebra import (
+    Jz, Jplus, Jminus, Jzjmcoeff, Jpjmcoeff, Jmjmcoeff)
 from ..algebra.library.fock_operators import (
     Destroy, Create, Phase, Displace, Squeeze)
 
@@ -70,10 +71,21 @@ def convert_to_sympy_matrix(expr, full_space=None):
             factors.extend([sympy.eye(s.dimension)
                             for s in all_spaces[own_space_index + 1:]])
             return tensor(*factors)
-        if isinstance(expr, (Create, Jz, Jplus)):
+        if isinstance(expr, Create):
             return SympyCreate(n)
-        elif isinstance(expr, (Destroy, Jminus)):
+        elif isinstance(expr, Destroy):
             return SympyCreate(n).H
+        elif isinstance(expr, (Jz, Jplus, Jminus)):
+            # the basis is ordered by increasing m, see `SpinSpace`
+            result = sympy.zeros(n)
+            for i in range(n):
+                if isinstance(expr, Jz):
+                    result[i, i] = Jzjmcoeff(expr.space, i, shift=True)
+                elif isinstance(expr, Jplus) and i + 1 < n:
+                    result[i+1, i] = Jpjmcoeff(expr.space, i, shift=True)
+                elif isinstance(expr, Jminus) and i > 0:
+                    result[i-1, i] = Jmjmcoeff(expr.space, i, shift=True)
+            return result
         elif isinstance(expr, Phase):
             phi = expr.phase
             result = sympy.zeros(n)
-- 
2.43.0


From 5506c78c35aabf78978b62134e1aa482a49f984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 41/86] fix: displacements, squeezing and QNET coefficients
 could not be converted to SymPy

---
 src/qnet/convert/to_sympy_matrix.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/qnet/convert/to_sympy_matrix.py b/src/qnet/convert/to_sympy_matrix.py
index e87a592..1e4ea78 100644
--- a/src/qnet/convert/to_sympy_matrix.py
+++ b/src/qnet/convert/to_sympy_matrix.py
@@ -8,6 +8,7 @@ from ..algebra.core.operator_algebra import (
     IdentityOperator, ZeroOperator, LocalOperator, LocalSigma, Operator,
     OperatorPlus, OperatorTimes, ScalarTimesOperator,
     Adjoint, PseudoInverse, NullSpaceProjector)
+from ..algebra.core.scalar_algebra import Scalar
 from ..algebra.library.spin_algebra import (
     Jz, Jplus, Jminus, Jzjmcoeff, Jpjmcoeff, Jmjmcoeff)
 from ..algebra.library.fock_operators import (
@@ -34,6 +35,16 @@ def SympyCreate(n):
     return a
 
 
+def _sympy_scalar(scalar):
+    """The SymPy expression for a QNET scalar (or anything `sympify` takes)"""
+    if isinstance(scalar, Scalar):
+        try:
+            scalar = scalar.val
+        except AttributeError:
+            raise ValueError("Cannot convert scalar '%s' to sympy" % scalar)
+    return sympy.sympify(scalar)
+
+
 def convert_to_sympy_matrix(expr, full_space=None):
     """Convert a QNET expression to an explicit ``n x n`` instance of
     `sympy.Matrix`, where ``n`` is the dimension of `full_space`. The entries
@@ -87,17 +98,17 @@ def convert_to_sympy_matrix(expr, full_space=None):
                     result[i-1, i] = Jmjmcoeff(expr.space, i, shift=True)
             return result
         elif isinstance(expr, Phase):
-            phi = expr.phase
+            phi = _sympy_scalar(expr.phase)
             result = sympy.zeros(n)
             for i in range(n):
                 result[i, i] = sympy.exp(sympy.I * i * phi)
             return result
         elif isinstance(expr, Displace):
-            alpha = expr.operands[1]
+            alpha = _sympy_scalar(expr.displacement)
             a = SympyCreate(n)
             return (alpha * a - alpha.conjugate() * a.H).exp()
         elif isinstance(expr, Squeeze):
-            eta = expr.operands[1]
+            eta = _sympy_scalar(expr.squeezing_factor)
             a = SympyCreate(n)
             return ((eta/2) * a**2 - (eta.conjugate()/2) * (a.H)**2).exp()
         elif isinstance(expr, LocalSigma):
@@ -152,7 +163,8 @@ def convert_to_sympy_matrix(expr, full_space=None):
             raise NotImplementedError(
                 'Cannot convert NullSpaceProjector to sympy')
         elif isinstance(expr, ScalarTimesOperator):
-            return expr.coeff * convert_to_sympy_matrix(expr.term, full_space)
+            return _sympy_scalar(expr.coeff) * convert_to_sympy_matrix(
+                expr.term, full_space)
         else:
             raise ValueError(
                 "Cannot convert '%s' of type %s" % (str(expr), type(expr)))
-- 
2.43.0


From c22f0c6d220b25d5154d7d9291e454571e993d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 42/86] fix: ScalarValue.__rsub__ negates when subtracting from
 a zero

Zero - x fell back to Scalar.__radd__ and returned x.
---
 src/qnet/algebra/core/scalar_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 6bd3f50..6fb1488 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -428,7 +428,7 @@ class ScalarValue(Scalar):
         elif isinstance(other, self._val_types):
             return self.create(other - self.val)
         else:
-            return super().__radd__(other)  # other == 0
+            return super().__rsub__(other)  # other == 0
 
     def __rmul__(self, other):
         if isinstance(other, self._val_types):
-- 
2.43.0


From 6f09018776989249af7bb778c5239af1c71defe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 43/86] fix: OperatorPlusMinusCC could not be differentiated

---
 src/qnet/algebra/core/operator_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index fe901f4..81f37b4 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -712,7 +712,7 @@ class OperatorPlusMinusCC(SingleQuantumOperation, Operator):
 
     def _diff(self, sym):
         return OperatorPlusMinusCC(
-            self.operands._diff(sym), sign=self._sign)
+            self.operand.diff(sym), sign=self._sign)
 
     def _adjoint(self):
         return OperatorPlusMinusCC(self.operand.adjoint(), sign=self._sign)
-- 
2.43.0


From 293056ca88b436d7a798572321ce563e32d4b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 44/86] fix: SPre and SPost could not be differentiated

---
 src/qnet/algebra/core/super_operator_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 164e980..093df16 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -218,7 +218,7 @@ class SPre(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return self.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
         return SPost(self.operands[0])
@@ -252,7 +252,7 @@ class SPost(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return self.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
         return SPre(self.operands[0])
-- 
2.43.0


From 45365a308b5c5c6ccc809008ac918e4c9070ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 45/86] fix: derivative of a ScalarPower ignored the exponent

---
 src/qnet/algebra/core/scalar_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 6fb1488..be1d85f 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1069,6 +1069,8 @@ class ScalarPower(QuantumOperation, Scalar):
             self._base.conjugate(), self._exp.conjugate())
 
     def _diff(self, sym):
+        if not ScalarValue.create(self.exp).diff(sym).is_zero:
+            return ScalarDerivative(self, derivs={sym: 1})
         inner = self.base._diff(sym)
         if inner != 0:
             return (
-- 
2.43.0


From 540406e299d27245e47aa5afc9a960a06ccfff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 46/86] fix: pseudo-inverse and null space projector were
 differentiated as if they were linear

---
 src/qnet/algebra/core/operator_algebra.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 81f37b4..f0eb809 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -754,6 +754,13 @@ class PseudoInverse(SingleQuantumOperation, Operator):
     def _expand(self):
         return self
 
+    def _diff(self, sym):
+        # not linear
+        return OperatorDerivative(self, derivs={sym: 1})
+
+    def _series_expand(self, param, about, order):
+        return Operator._series_expand(self, param, about, order)
+
     def _pseudo_inverse(self):
         return self.operand
 
@@ -784,6 +791,13 @@ class NullSpaceProjector(SingleQuantumOperation, Operator):
     def _expand(self):
         return self
 
+    def _diff(self, sym):
+        # not linear
+        return OperatorDerivative(self, derivs={sym: 1})
+
+    def _series_expand(self, param, about, order):
+        return Operator._series_expand(self, param, about, order)
+
     def _adjoint(self):
         return Adjoint(self)
 
-- 
2.43.0


From fc7fa68bea9e76bfc7064ae0322867d0b3d0e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 47/86] fix: derivative of an evaluated derivative ignored
 symbols inside the point of evaluation

---
 .../algebra/core/abstract_quantum_algebra.py   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 0ec6ea7..04fa466 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -817,18 +817,18 @@ class QuantumDerivative(SingleQuantumOperation):
         return self._n
 
     def _diff(self, sym):
+        if not isinstance(sym, sympy.Basic):
+            raise TypeError("%s must be a Sympy symbol" % sym)
+        for val in self._vals.values():
+            if sym in getattr(val, 'free_symbols', ()) or sym == val:
+                return self.__class__(self, derivs={sym: 1})
         if sym in self._vals.keys():
             return self.__class__._zero
         else:
-            if not isinstance(sym, sympy.Basic):
-                raise TypeError("%s must be a Sympy symbol" % sym)
-            if sym in self._vals.values():
-                return self.__class__(self, derivs={sym: 1})
-            else:
-                derivs = self._derivs.copy()
-                derivs[sym] += 1
-                return self.__class__(
-                    self.operand, derivs=derivs, vals=self._vals)
+            derivs = self._derivs.copy()
+            derivs[sym] += 1
+            return self.__class__(
+                self.operand, derivs=derivs, vals=self._vals)
 
     def _adjoint(self):
         return self.__class__(
-- 
2.43.0


From 83c042149be731dc174d5b8801cefed446bb8673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 48/86] fix: derivative of a coherent state missed a phase

---
 src/qnet/algebra/core/state_algebra.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index a7d05bf..29a285d 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -25,7 +25,7 @@ from qnet.algebra.core.algebraic_properties import (
     indexed_sum_over_const,
     indexed_sum_over_kronecker)
 from .operator_algebra import Operator, OperatorPlus, PseudoInverse
-from .scalar_algebra import ScalarExpression
+from .scalar_algebra import ScalarExpression, ScalarValue
 from ...utils.indices import (
     FockIndex, IdxSym, IndexOverFockSpace, IndexOverRange, SymbolicLabelBase, )
 from ...utils.ordering import FullCommutativeHSOrder
@@ -393,11 +393,14 @@ class CoherentStateKet(LocalKet):
     def _diff(self, sym):
         from qnet.algebra.library.fock_operators import Destroy, Create
         hs = self.space
+        alpha = ScalarValue.create(self._ampl)
+        alpha_cc = alpha.conjugate()
+        # the c-number is due to alpha and its derivative not having the same
+        # phase, in general
+        phase = (alpha * alpha_cc.diff(sym) - alpha_cc * alpha.diff(sym)) / 2
         return (
-            (self._ampl * Create(hs=hs) -
-             self._ampl.conjugate() * Destroy(hs=hs))
-            .diff(sym)
-            * self)
+            (alpha * Create(hs=hs) - alpha_cc * Destroy(hs=hs)).diff(sym)
+            * self + phase * self)
 
     def to_fock_representation(self, index_symbol='n', max_terms=None):
         """Return the coherent state written out as an indexed sum over Fock
-- 
2.43.0


From d5419039260c12b4216a0c91586470bda3cf8f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 49/86] fix: series expansion of operator-ket products,
 bra-kets and ket-bras

---
 src/qnet/algebra/core/state_algebra.py | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 29a285d..5f6f000 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -14,7 +14,7 @@ from .scalar_algebra import is_scalar
 from .abstract_quantum_algebra import (
     ScalarTimesQuantumExpression, QuantumExpression, QuantumSymbol,
     QuantumPlus, QuantumTimes, QuantumAdjoint, QuantumIndexedSum,
-    QuantumDerivative, ensure_local_space, _series_expand_combine_prod)
+    QuantumDerivative, ensure_local_space)
 from .algebraic_properties import (
     accept_bras, assoc, assoc_indexed, basis_ket_zero_outside_hs,
     filter_neutral, match_replace, match_replace_binary, orderby,
@@ -25,7 +25,7 @@ from qnet.algebra.core.algebraic_properties import (
     indexed_sum_over_const,
     indexed_sum_over_kronecker)
 from .operator_algebra import Operator, OperatorPlus, PseudoInverse
-from .scalar_algebra import ScalarExpression, ScalarValue
+from .scalar_algebra import ScalarExpression, ScalarPlus, ScalarValue
 from ...utils.indices import (
     FockIndex, IdxSym, IndexOverFockSpace, IndexOverRange, SymbolicLabelBase, )
 from ...utils.ordering import FullCommutativeHSOrder
@@ -531,9 +531,9 @@ class OperatorTimesKet(State, Operation):
     def _series_expand(self, param, about, order):
         ce = self.operator.series_expand(param, about, order)
         te = self.ket.series_expand(param, about, order)
-
-        return tuple(ce[k] * te[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        return tuple(
+            sum((ce[k] * te[n - k] for k in range(n + 1)), ZeroKet)
+            for n in range(order + 1))
 
 
 class StateDerivative(QuantumDerivative, State):
@@ -647,9 +647,12 @@ class BraKet(ScalarExpression, Operation):
                    for bes in besummands for kes in kesummands)
 
     def _series_expand(self, param, about, order):
-        be = self.bra.series_expand(param, about, order)
-        ke = self.ket.series_expand(param, about, order)
-        return _series_expand_combine_prod(be, ke, order)
+        be = self.operands[0].series_expand(param, about, order)
+        ke = self.operands[1].series_expand(param, about, order)
+        return tuple(
+            ScalarPlus.create(*[
+                BraKet.create(be[k], ke[n - k]) for k in range(n + 1)])
+            for n in range(order + 1))
 
 
 class KetBra(Operator, Operation):
@@ -709,10 +712,12 @@ class KetBra(Operator, Operation):
         return OperatorPlus.create(*res_summands)
 
     def _series_expand(self, param, about, order):
-        ke = self.ket.series_expand(param, about, order)
-        be = self.bra.series_expand(param, about, order)
-        return tuple(ke[k] * be[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        ke = self.operands[0].series_expand(param, about, order)
+        be = self.operands[1].series_expand(param, about, order)
+        return tuple(
+            OperatorPlus.create(*[
+                KetBra.create(ke[k], be[n - k]) for k in range(n + 1)])
+            for n in range(order + 1))
 
 
 class KetIndexedSum(State, QuantumIndexedSum):
-- 
2.43.0


From 54a9ec8145c9a8915360873ae7e4907888dff48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 50/86] fix: series expansion of OperatorPlusMinusCC lost the
 sign and the zero coefficients

---
 src/qnet/algebra/core/operator_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index f0eb809..8d13a3c 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -714,6 +714,10 @@ class OperatorPlusMinusCC(SingleQuantumOperation, Operator):
         return OperatorPlusMinusCC(
             self.operand.diff(sym), sign=self._sign)
 
+    def _series_expand(self, param, about, order):
+        return self.doit([OperatorPlusMinusCC], recursive=False).series_expand(
+            param, about, order)
+
     def _adjoint(self):
         return OperatorPlusMinusCC(self.operand.adjoint(), sign=self._sign)
 
-- 
2.43.0


From 8ad1ba8092dd18a541ec503eb6e8f899d107a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 51/86] fix: series expansion of a super-operator applied to an
 operator ignored the super-operator

---
 src/qnet/algebra/core/super_operator_algebra.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 093df16..69963cb 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -299,9 +299,11 @@ class SuperOperatorTimesOperator(Operator, Operation):
         return sum(st * ot for st in sopet for ot in opet)
 
     def _series_expand(self, param, about, order):
-        sop, op = self.sop, self.op
-        ope = op.series_expand(param, about, order)
-        return tuple(sop * opet for opet in ope)
+        sope = self.sop.series_expand(param, about, order)
+        ope = self.op.series_expand(param, about, order)
+        return tuple(
+            sum((sope[k] * ope[n - k] for k in range(n + 1)), ZeroOperator)
+            for n in range(order + 1))
 
     def _simplify_scalar(self, func):
         sop, op = self.sop, self.op
-- 
2.43.0


From fbd36b60b5d148a4b7951d4d46f652b8021caae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:20 +0000
Subject: [PATCH 52/86] fix: keep the order of the operands when adding an
 equation to a value from the right

---
 src/qnet/algebra/toolbox/equation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/toolbox/equation.py b/src/qnet/algebra/toolbox/equation.py
index 8124661..1a79586 100644
--- a/src/qnet/algebra/toolbox/equation.py
+++ b/src/qnet/algebra/toolbox/equation.py
@@ -279,7 +279,9 @@ class Eq():
         except AttributeError:
             return Eq(lhs=(self.lhs + other), rhs=(self.rhs + other))
 
-    __radd__ = __add__
+    def __radd__(self, other):
+        # addition of circuits does not commute
+        return Eq(lhs=(other + self.lhs), rhs=(other + self.rhs))
 
     def __sub__(self, other):
         try:
-- 
2.43.0


From a4f01183056f470c0cfbf181d99eaa16c741f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:13 +0000
Subject: [PATCH 53/86] fix: restore the attributes of classes given twice or
 with inherited attributes to temporary_rules and temporary_instance_cache

---
 src/qnet/algebra/toolbox/core.py | 39 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/qnet/algebra/toolbox/core.py b/src/qnet/algebra/toolbox/core.py
index 0842293..cba46b9 100644
--- a/src/qnet/algebra/toolbox/core.py
+++ b/src/qnet/algebra/toolbox/core.py
@@ -10,6 +10,15 @@ __all__ = [
     "symbols"]
 
 
+def _restore(cls, attr, val):
+    """Set the class attribute `attr` back to `val`, where None indicates that
+    `cls` did not define the attribute itself"""
+    if val is not None:
+        setattr(cls, attr, val)
+    elif attr in vars(cls):
+        delattr(cls, attr)
+
+
 @contextmanager
 def no_instance_caching():
     """Temporarily disable instance caching in :meth:`~.Expression.create`
@@ -38,13 +47,13 @@ def temporary_instance_cache(*classes):
     """
     orig_instances = []
     for cls in classes:
-        orig_instances.append(cls._instances)
+        orig_instances.append(vars(cls).get('_instances'))
         cls._instances = {}
     try:
         yield
     finally:
-        for i, cls in enumerate(classes):
-            cls._instances = orig_instances[i]
+        for i, cls in reversed(list(enumerate(classes))):
+            _restore(cls, '_instances', orig_instances[i])
 
 
 @contextmanager
@@ -75,37 +84,35 @@ def temporary_rules(*classes, clear=False):
     orig_simplifications = []
 
     for cls in classes:
-        orig_instances.append(cls._instances)
+        orig_instances.append(vars(cls).get('_instances'))
         cls._instances = {}
-        orig_simplifications.append(cls.simplifications)
+        orig_simplifications.append(vars(cls).get('simplifications'))
         cls.simplifications = cls.simplifications.copy()
+        orig_rules.append(vars(cls).get('_rules'))
         try:
-            orig_rules.append(cls._rules)
             if clear:
                 cls._rules = OrderedDict([])
             else:
                 cls._rules = cls._rules.copy()
         except AttributeError:
-            orig_rules.append(None)
+            pass
+        orig_binary_rules.append(vars(cls).get('_binary_rules'))
         try:
-            orig_binary_rules.append(cls._binary_rules)
             if clear:
                 cls._binary_rules = OrderedDict([])
             else:
                 cls._binary_rules = cls._binary_rules.copy()
         except AttributeError:
-            orig_binary_rules.append(None)
+            pass
 
     try:
         yield
     finally:
-        for i, cls in enumerate(classes):
-            cls._instances = orig_instances[i]
-            cls.simplifications = orig_simplifications[i]
-            if orig_rules[i] is not None:
-                cls._rules = orig_rules[i]
-            if orig_binary_rules[i] is not None:
-                cls._binary_rules = orig_binary_rules[i]
+        for i, cls in reversed(list(enumerate(classes))):
+            _restore(cls, '_instances', orig_instances[i])
+            _restore(cls, 'simplifications', orig_simplifications[i])
+            _restore(cls, '_rules', orig_rules[i])
+            _restore(cls, '_binary_rules', orig_binary_rules[i])
 
 
 def symbols(names, **args):
-- 
2.43.0


From 028317034a577d97b92a5677792d819290b657f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:29 +0000
Subject: [PATCH 54/86] fix: do not mix instances created with and without the
 rules of temporary_rules

---
 src/qnet/algebra/core/abstract_algebra.py | 9 +++++++++
 src/qnet/algebra/toolbox/core.py          | 8 +++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 66b72d0..d185c49 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -40,6 +40,15 @@ LOG_NO_MATCH = False  # also log non-matching rules? (very verbose!)
 # messages from object creation.
 
 
+def _cached_classes():
+    """List of all expression classes with their own cache of instances"""
+    classes = [Expression, ]
+    for cls in classes:
+        classes.extend(
+            sub for sub in cls.__subclasses__() if sub not in classes)
+    return [cls for cls in classes if '_instances' in vars(cls)]
+
+
 class Expression(metaclass=ABCMeta):
     """Base class for all QNET Expressions
 
diff --git a/src/qnet/algebra/toolbox/core.py b/src/qnet/algebra/toolbox/core.py
index cba46b9..5f0b9df 100644
--- a/src/qnet/algebra/toolbox/core.py
+++ b/src/qnet/algebra/toolbox/core.py
@@ -2,7 +2,7 @@ import sympy
 from contextlib import contextmanager
 from collections import OrderedDict
 
-from ..core.abstract_algebra import Expression
+from ..core.abstract_algebra import Expression, _cached_classes
 
 
 __all__ = [
@@ -63,7 +63,7 @@ def temporary_rules(*classes, clear=False):
     For every one of the given `classes`, protect the rules (processed by
     :func:`.match_replace` or :func:`.match_replace_binary`) associated with
     that class from modification beyond the managed context.
-    Implies :func:`temporary_instance_cache`. If `clear` is given as
+    Implies :func:`temporary_instance_cache` for all classes. If `clear` is given as
     True, all existing rules are temporarily cleared from the given classes on
     entering the managed context.
 
@@ -106,7 +106,9 @@ def temporary_rules(*classes, clear=False):
             pass
 
     try:
-        yield
+        # instances of other classes may result from the rules as well
+        with temporary_instance_cache(*_cached_classes()):
+            yield
     finally:
         for i, cls in reversed(list(enumerate(classes))):
             _restore(cls, '_instances', orig_instances[i])
-- 
2.43.0


From 304cbdd081785b07300b44bf16c40164211a6805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:54 +0000
Subject: [PATCH 55/86] fix: keep singletons unique within
 temporary_instance_cache

---
 src/qnet/utils/singleton.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qnet/utils/singleton.py b/src/qnet/utils/singleton.py
index 4727f1c..16fb64c 100644
--- a/src/qnet/utils/singleton.py
+++ b/src/qnet/utils/singleton.py
@@ -93,9 +93,10 @@ class Singleton(ABCMeta):
     _instances = {}
 
     def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
+        # `cls` may have an unrelated `_instances` attribute of its own
+        if cls not in Singleton._instances:
+            Singleton._instances[cls] = super().__call__(*args, **kwargs)
+        return Singleton._instances[cls]
 
     @classmethod
     def __instancecheck__(mcs, instance):
-- 
2.43.0


From f184b07aab4f366e2a74699c2d9f145baaddfd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:27 +0000
Subject: [PATCH 56/86] fix: do not show redundant arguments of Hilbert spaces
 that were rebuilt from all their arguments

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 9 ++++++++-
 src/qnet/algebra/library/spin_algebra.py       | 4 ++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index ba21658..497a9ca 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -225,6 +225,8 @@ class LocalSpace(HilbertSpace, Expression):
             order_index=None):
 
         default_args = []
+        # are these the `kwargs` of another instance?
+        rebuilt = isinstance(local_identifiers, tuple)
         if basis is None:
             default_args.append('basis')
         else:
@@ -238,7 +240,7 @@ class LocalSpace(HilbertSpace, Expression):
             order_index = float('inf')  # ensure sort as last
         else:
             order_index = int(order_index)
-        if local_identifiers is None:
+        if not local_identifiers:
             default_args.append('local_identifiers')
             local_identifiers = {}
         else:
@@ -269,6 +271,11 @@ class LocalSpace(HilbertSpace, Expression):
             else:
                 if dimension != len(basis):
                     raise ValueError("basis and dimension are incompatible")
+                if rebuilt:  # one of the two follows from the other
+                    if basis == tuple([str(i) for i in range(dimension)]):
+                        default_args.append('basis')
+                    else:
+                        default_args.append('dimension')
 
         self._label = label
         self._order_key = KeyTuple((
diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 345d6cf..7cedca1 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -111,9 +111,9 @@ class SpinSpace(LocalSpace):
         if self._basis != default_basis:
             self._kwargs['basis'] = self._basis
         self._minimal_kwargs = self._kwargs.copy()
-        if local_identifiers is None:
+        if not local_identifiers:
             del self._minimal_kwargs['local_identifiers']
-        if order_index is None:
+        if order_index in [None, float('inf')]:
             del self._minimal_kwargs['order_index']
 
     def next_basis_label_or_index(self, label_or_index, n=1):
-- 
2.43.0


From 876555289d8c27aa9701b940fa5b71e052989823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:53 +0000
Subject: [PATCH 57/86] fix: do not use instances that were created before
 rules were added or removed

---
 src/qnet/algebra/core/abstract_algebra.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index d185c49..bc841b6 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -49,6 +49,12 @@ def _cached_classes():
     return [cls for cls in classes if '_instances' in vars(cls)]
 
 
+def _clear_cached_instances():
+    """Forget all instances that were created with outdated rules"""
+    for cls in _cached_classes():
+        cls._instances.clear()
+
+
 class Expression(metaclass=ABCMeta):
     """Base class for all QNET Expressions
 
@@ -266,6 +272,7 @@ class Expression(metaclass=ABCMeta):
                 "Duplicate key '%s': rule already exists" % name)
         getattr(cls, attr).update(check_rules_dict(
             [(name, (pattern, replacement))]))
+        _clear_cached_instances()
 
     @classmethod
     def show_rules(cls, *names, attr=None):
@@ -327,6 +334,7 @@ class Expression(metaclass=ABCMeta):
         else:
             for name in names:
                 del getattr(cls, attr)[name]
+        _clear_cached_instances()
 
     @classmethod
     def rules(cls, attr=None):
-- 
2.43.0


From c2d763b3b7bd145db5bee12043792a6fff1f965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:59 +0000
Subject: [PATCH 58/86] fix: distinguish cached Hilbert spaces with different
 labels that compare equal as numbers

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 497a9ca..9ed4b70 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -298,6 +298,17 @@ class LocalSpace(HilbertSpace, Expression):
             local_identifiers=self._sorted_local_identifiers,
             order_index=order_index)
 
+    @classmethod
+    def _get_instance_key(cls, args, kwargs):
+        # all labels are converted to strings, for which numbers that compare
+        # equal (1, 1.0, True) may be different
+        args = tuple([
+            arg if isinstance(arg, StrLabel) else str(arg) for arg in args])
+        if isinstance(kwargs.get('basis', None), (list, tuple)):
+            kwargs = dict(
+                kwargs, basis=tuple([str(label) for label in kwargs['basis']]))
+        return super()._get_instance_key(args, kwargs)
+
     @classmethod
     def _check_basis_label_type(cls, label_or_index):
         """Every object (BasisKet, LocalSigma) that contains a label or index
-- 
2.43.0


From b53365701504c3b3556dff6304cc60d95f8268b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:27 +0000
Subject: [PATCH 59/86] fix: restore the settings after configure_printing with
 reset

---
 src/qnet/printing/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/printing/__init__.py b/src/qnet/printing/__init__.py
index 52157af..7753331 100644
--- a/src/qnet/printing/__init__.py
+++ b/src/qnet/printing/__init__.py
@@ -283,7 +283,9 @@ def configure_printing(**kwargs):
         >>> print(ascii(A + B))
         A^(1) + B^(1)
     """
+    orig_settings = SympyPrinter._global_settings.copy()
     freeze = init_printing(_freeze=True, **kwargs)
+    freeze[SympyPrinter]['_global_settings'] = orig_settings  # before `reset`
     try:
         yield
     finally:
-- 
2.43.0


From e56e3f73cb89b6c6e33a5fc92cbfca23d29efd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:15 +0000
Subject: [PATCH 60/86] fix: do not keep outdated instances when not all rules
 to be deleted exist

---
 src/qnet/algebra/core/abstract_algebra.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index bc841b6..1075d1e 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -328,13 +328,16 @@ class Expression(metaclass=ABCMeta):
         """
         if attr is None:
             attr = cls._rules_attr()
-        if len(names) == 0:
-            getattr(cls, attr)  # raise AttributeError if wrong attr
-            setattr(cls, attr, OrderedDict())
-        else:
-            for name in names:
-                del getattr(cls, attr)[name]
-        _clear_cached_instances()
+        try:
+            if len(names) == 0:
+                getattr(cls, attr)  # raise AttributeError if wrong attr
+                setattr(cls, attr, OrderedDict())
+            else:
+                for name in names:
+                    del getattr(cls, attr)[name]
+        finally:
+            # some rules may be gone even if not all names exist
+            _clear_cached_instances()
 
     @classmethod
     def rules(cls, attr=None):
-- 
2.43.0


From f4ce8be5a0a2dc9dd8fe5839c9a99f9b981c21c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:17 +0000
Subject: [PATCH 61/86] fix: match patterns against expressions without
 arguments

---
 src/qnet/algebra/pattern_matching/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index bb726bf..fd97ad7 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -301,6 +301,7 @@ class Pattern():
         try:
             if self.args is not None:
                 arg_pattern = self.extended_arg_patterns()
+                current_arg_pattern = None
                 for arg in self._arg_iterator(expr.args):
                     current_arg_pattern = next(arg_pattern)
                     res.update(match_pattern(current_arg_pattern, arg))
-- 
2.43.0


From b71fc39e4f0a614da154407eb6e5ccab2c64aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:03 +0000
Subject: [PATCH 62/86] fix: bind repeated wildcards to equal lists of
 arguments

---
 src/qnet/algebra/pattern_matching/__init__.py | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index fd97ad7..cc74d80 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -229,6 +229,9 @@ class Pattern():
             # res.merge_lists = 1 in the `match` method
             self._arg_iterator = reversed
 
+    def _is_non_single(self, arg):
+        return isinstance(arg, Pattern) and arg.mode > self.single
+
     def extended_arg_patterns(self):
         """Iterator over patterns for positional arguments to be matched
 
@@ -281,11 +284,13 @@ class Pattern():
         available in the `reason` attribute of the :class:`MatchDict` object.
         """
         res = MatchDict()
+        # the arguments matched by a sub-pattern with mode > 1
+        sequence = MatchDict()
         if self._has_non_single_arg:
             if self._non_single_arg_on_left:
-                res.merge_lists = 1
+                sequence.merge_lists = 1
             else:
-                res.merge_lists = -1
+                sequence.merge_lists = -1
         if self.head is not None:
             if not isinstance(expr, self.head):
                 res.reason = ("%s is not an instance of %s"
@@ -304,9 +309,21 @@ class Pattern():
                 current_arg_pattern = None
                 for arg in self._arg_iterator(expr.args):
                     current_arg_pattern = next(arg_pattern)
-                    res.update(match_pattern(current_arg_pattern, arg))
+                    match = match_pattern(current_arg_pattern, arg)
+                    if match.success and self._is_non_single(
+                            current_arg_pattern):
+                        # only the lists of one sequence of arguments are
+                        # merged, all other values must be equal
+                        for key, val in match.items():
+                            if key == current_arg_pattern.wc_name:
+                                sequence[key] = val
+                            else:
+                                res[key] = val
+                        continue
+                    res.update(match)
                     if not res.success:
                         return res
+                res.update(sequence)
                 # ensure that we have matched all arg patterns
                 try:
                     last_arg_pattern = next(arg_pattern)
-- 
2.43.0


From 038eaf3e670ad6305bbf3626ab99e7dd188f351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:03 +0000
Subject: [PATCH 63/86] fix: do not call the match method of SymPy expressions

---
 src/qnet/algebra/pattern_matching/__init__.py | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index cc74d80..d522753 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -636,14 +636,16 @@ def match_pattern(expr_or_pattern: object, expr: object) -> MatchDict:
             successful match), or an instance of :class:`Pattern`.
         expr: the expression to be matched
     """
-    try:  # first try expr_or_pattern as a Pattern
-        return expr_or_pattern.match(expr)
-    except AttributeError:  # expr_or_pattern is an expr, not a Pattern
-        if expr_or_pattern == expr:
-            return MatchDict()  # success
-        else:
-            res = MatchDict()
-            res.success = False
-            res.reason = "Expressions '%s' and '%s' are not the same" % (
-                          repr(expr_or_pattern), repr(expr))
-            return res
+    if isinstance(expr_or_pattern, Pattern):
+        try:
+            return expr_or_pattern.match(expr)
+        except AttributeError:
+            pass  # the conditions of the pattern do not apply to expr
+    elif expr_or_pattern == expr:
+        # note that SymPy expressions also have a `match` method
+        return MatchDict()  # success
+    res = MatchDict()
+    res.success = False
+    res.reason = "Expressions '%s' and '%s' are not the same" % (
+                  repr(expr_or_pattern), repr(expr))
+    return res
-- 
2.43.0


From 2ef228de3f47e1ccf9996b0893c7549a058bc694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 64/86] fix: equality of matrices and of multiples of the
 identity operator is consistent with != and with hashes

---
 src/qnet/algebra/core/matrix_algebra.py   |  2 +-
 src/qnet/algebra/core/operator_algebra.py |  2 ++
 src/qnet/algebra/core/scalar_algebra.py   | 11 +++++++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 98a1382..cf10e99 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -124,7 +124,7 @@ class Matrix(Expression):
     def __eq__(self, other):
         return (isinstance(other, Matrix) and
                 self.shape == other.shape and
-                (self.matrix == other.matrix).all())
+                bool((self.matrix == other.matrix).all()))
 
     def __add__(self, other):
         if isinstance(other, Matrix):
diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 8d13a3c..7718fc6 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -509,6 +509,8 @@ class ScalarTimesOperator(Operator, ScalarTimesQuantumExpression):
 
     def __hash__(self):
         # TODO: review, and add this to ScalarTimesQuantumExpression
+        if self.term is IdentityOperator:
+            return hash(self.coeff)  # consistent with __eq__
         return super().__hash__()
 
     def _adjoint(self):
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index be1d85f..eca6487 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -111,6 +111,15 @@ class Scalar(QuantumExpression, metaclass=ABCMeta):
         except AttributeError:
             return NotImplemented
 
+    def __eq__(self, other):
+        if isinstance(other, QuantumExpression) \
+                and not isinstance(other, Scalar):
+            return other == self  # e.g. a multiple of the identity operator
+        return super().__eq__(other)
+
+    def __hash__(self):
+        return super().__hash__()
+
     #  __pow__(self, other) is fully implemented in QuantumExpression
 
     def __radd__(self, other):
@@ -313,6 +322,8 @@ class ScalarValue(Scalar):
     def __eq__(self, other):
         if isinstance(other, ScalarValue):
             return self.val == other.val
+        elif isinstance(other, QuantumExpression):
+            return other == self
         else:
             return self.val == other
 
-- 
2.43.0


From 20328af9c1cfd9af139d722a8f6e07ec3d62662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:15 +0000
Subject: [PATCH 65/86] fix: substitute() does not swallow an AttributeError
 that occurs in the substituted expression

---
 src/qnet/algebra/core/abstract_algebra.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 1075d1e..15dbc10 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -697,17 +697,16 @@ def substitute(expr, var_map):
         expr: The expression in which to perform the substitution
         var_map (dict): The substitution dictionary.
     """
-    try:
-        if isinstance(expr, SympyBasic):
-            sympy_var_map = {
-                k: v for (k, v) in var_map.items()
-                if isinstance(k, SympyBasic)}
-            return expr.subs(sympy_var_map, simultaneous=True)
-        else:
-            return expr.substitute(var_map)
-    except AttributeError:
-        if expr in var_map:
-            return var_map[expr]
+    if isinstance(expr, SympyBasic):
+        sympy_var_map = {
+            k: v for (k, v) in var_map.items()
+            if isinstance(k, SympyBasic)}
+        return expr.subs(sympy_var_map, simultaneous=True)
+    elif hasattr(expr, 'substitute'):
+        return expr.substitute(var_map)
+    elif expr in var_map:
+        return var_map[expr]
+    else:
         return expr
 
 
-- 
2.43.0


From 4a1d3cafb583fe631d0036d94f059916559940a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 66/86] fix: derivatives evaluated at a point: explicit
 derivatives are evaluated, numbers are accepted as values

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 3 ++-
 src/qnet/algebra/core/algebraic_properties.py     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 04fa466..181219e 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -796,7 +796,8 @@ class QuantumDerivative(SingleQuantumOperation):
                     in self.operand.substitute(dummy_map).free_symbols
                     if not isinstance(sym, sympy.Dummy)}
                 for val in self._vals.values():
-                    self._free_symbols.update(val.free_symbols)
+                    self._free_symbols.update(
+                        getattr(val, 'free_symbols', ()))
         return self._free_symbols
 
     @property
diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index ca53309..34411c6 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -986,6 +986,6 @@ def derivative_via_diff(cls, ops, kwargs):
             return op.evaluate_at(vals)
         except AttributeError:
             # for explicit Expression
-            return op.substitute(vals)
+            return op.substitute(dict(vals))
     else:
         return op
-- 
2.43.0


From ba1da7196478a8a7054caee60754a9c7bcbece06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 67/86] fix: substitution in a derivative: the derivative is
 with respect to a bound symbol

---
 .../algebra/core/abstract_quantum_algebra.py  | 46 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 181219e..49b70e1 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -16,7 +16,8 @@ import sympy
 from sympy import Symbol, sympify
 
 from .hilbert_space_algebra import ProductSpace, LocalSpace, TrivialSpace
-from .abstract_algebra import Operation, Expression, substitute
+from .abstract_algebra import (
+    Operation, Expression, _free_symbols, substitute)
 from .algebraic_properties import derivative_via_diff
 from .indexed_operations import IndexedSum
 from ...utils.ordering import (
@@ -831,6 +832,49 @@ class QuantumDerivative(SingleQuantumOperation):
             return self.__class__(
                 self.operand, derivs=derivs, vals=self._vals)
 
+    def _substitute(self, var_map, safe=False):
+        if self in var_map:
+            if not safe or (type(var_map[self]) == type(self)):
+                return var_map[self]
+        # The derivative is with respect to a bound symbol. Thus, substituting
+        # it does not affect the operand, but evaluates the derivative
+        vals = {
+            sym: substitute(val, var_map) for (sym, val) in self._vals.items()}
+        op_map = {}
+        for (key, val) in var_map.items():
+            if key not in self._syms:
+                op_map[key] = val
+            elif key not in vals and val != key:
+                vals[key] = val
+        # Symbols that depend on a substituted symbol (e.g. its index)
+        new_sym = {sym: substitute(sym, op_map) for sym in self._syms}
+        # A value that replaces something independent of the symbol must not
+        # be captured by the derivative
+        taken = set(self.operand.free_symbols).union(
+            *[_free_symbols(val) for val in op_map.values()])
+        for sym in sorted(self._syms, key=str):
+            captured = any([
+                new_sym[sym] in _free_symbols(val)
+                and sym not in _free_symbols(key)
+                for (key, val) in op_map.items()
+                if not isinstance(key, sympy.Symbol)
+                or (key in self.operand.free_symbols and key != val)])
+            if captured:
+                fresh = sym
+                while fresh in taken:
+                    fresh = sympy.Symbol(
+                        "%s'" % fresh, **sym.assumptions0)
+                taken.add(fresh)
+                vals.setdefault(sym, sym)
+                new_sym[sym] = fresh
+                op_map[sym] = fresh
+        op = substitute(self.operand, op_map)
+        derivs = {new_sym[sym]: n for (sym, n) in self._derivs.items()}
+        new_vals = {new_sym[sym]: val for (sym, val) in vals.items()} or None
+        if safe:
+            return self.__class__(op, derivs=derivs, vals=new_vals)
+        return self.create(op, derivs=derivs, vals=new_vals)
+
     def _adjoint(self):
         return self.__class__(
             self.operand.adjoint(), derivs=self._derivs, vals=self._vals)
-- 
2.43.0


From 6471b5a7b22dcd5f1956fe5c8d556093b6ff792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 68/86] fix: substitution in an indexed sum: bound symbols are
 not captured, nor substituted by values

---
 src/qnet/algebra/core/indexed_operations.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 9a0b4cd..e1ef4e5 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -251,12 +251,27 @@ class IndexedSum(Operation, metaclass=ABCMeta):
         return new
 
     def _substitute(self, var_map, safe=False):
+        # Bound symbols can only be renamed, to symbols that are not in use
+        bound = self.bound_symbols
+        renamed = [var_map.get(sym, sym) for sym in bound]
+        taken = _index_symbols(self) - bound
+        for key, val in var_map.items():
+            if key not in bound:
+                taken.update(_index_symbols(val) - bound)
+        if len(set(renamed)) < len(renamed) or any([
+                not isinstance(sym, IdxSym) or sym in taken
+                for sym in renamed]):
+            var_map = {
+                key: val for (key, val) in var_map.items() if key not in bound}
         # Substituting a free symbol must not result in a value depending on
         # the bound symbols being captured by the sum
         captured = set()
         for key, val in var_map.items():
-            if key not in self.bound_symbols:
-                captured.update(self.bound_symbols & _index_symbols(val))
+            occurs = (
+                not isinstance(key, sympy.Symbol) or
+                key in self.term.free_symbols)
+            if occurs and key not in bound:
+                captured.update(bound & _index_symbols(val))
         if len(captured) > 0:
             renamed = self.make_disjunct_indices(*captured)
             return renamed._substitute(var_map, safe=safe)
-- 
2.43.0


From 381cc21409f5e7d9876a752c9d2ee9edeb0ba47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:21 +0000
Subject: [PATCH 69/86] fix: sums are ordered after collecting equal summands,
 so that equal sums are equal objects

---
 src/qnet/algebra/core/operator_algebra.py       | 2 +-
 src/qnet/algebra/core/scalar_algebra.py         | 2 +-
 src/qnet/algebra/core/state_algebra.py          | 2 +-
 src/qnet/algebra/core/super_operator_algebra.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 7718fc6..0f7fce9 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -461,7 +461,7 @@ class OperatorPlus(QuantumPlus, Operator):
     _neutral_element = ZeroOperator
     _binary_rules = OrderedDict()
     simplifications = [
-        assoc, scalars_to_op, orderby, collect_summands, match_replace_binary]
+        assoc, scalars_to_op, collect_summands, orderby, match_replace_binary]
 
     def _pseudo_inverse(self):
         return PseudoInverse(self)
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index eca6487..44f7a9f 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -862,7 +862,7 @@ class ScalarPlus(QuantumPlus, Scalar):
     _neutral_element = Zero
     _binary_rules = OrderedDict()
     simplifications = [
-        assoc, convert_to_scalars, orderby, collect_scalar_summands,
+        assoc, convert_to_scalars, collect_scalar_summands, orderby,
         match_replace_binary]
 
     def conjugate(self):
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 5f6f000..6c19573 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -430,7 +430,7 @@ class KetPlus(State, QuantumPlus):
     _neutral_element = ZeroKet
     _binary_rules = OrderedDict()
     simplifications = [
-        accept_bras, assoc, orderby, collect_summands, match_replace_binary]
+        accept_bras, assoc, collect_summands, orderby, match_replace_binary]
 
     order_key = FullCommutativeHSOrder
 
diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 69963cb..6965cd4 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -122,7 +122,7 @@ class SuperOperatorPlus(QuantumPlus, SuperOperator):
 
     _neutral_element = ZeroSuperOperator
     _binary_rules = OrderedDict()
-    simplifications = [assoc, orderby, collect_summands, match_replace_binary]
+    simplifications = [assoc, collect_summands, orderby, match_replace_binary]
 
 
 class SuperCommutativeHSOrder(DisjunctCommutativeHSOrder):
-- 
2.43.0


From 973626bc13f2e781a518b9e15bdca1843bfa1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:08 +0000
Subject: [PATCH 70/86] fix: spin coefficients and operator indices for
 symbolic basis labels

Jz, Jplus and Jminus acting on a state (or LocalSigma) with a symbolic
label used the zero-based index in place of the quantum number, and
LocalSigma with a symbolic label could not be multiplied with Create,
Destroy, Phase, or the spin operators.
---
 src/qnet/algebra/core/operator_algebra.py |  8 ++++--
 src/qnet/algebra/library/spin_algebra.py  | 33 +++++++++++------------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 0f7fce9..0fc18bd 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -377,7 +377,9 @@ class LocalSigma(LocalOperator):
     @property
     def index_j(self):
         """Index `j` or (zero-based) index of the label `j` in the basis"""
-        if isinstance(self.j, (int, SymbolicLabelBase)):
+        if isinstance(self.j, SymbolicLabelBase):
+            return self.j.fock_index
+        elif isinstance(self.j, int):
             return self.j
         else:
             try:
@@ -390,7 +392,9 @@ class LocalSigma(LocalOperator):
     @property
     def index_k(self):
         """Index `k` or (zero-based) index of the label `k` in the basis"""
-        if isinstance(self.k, (int, SymbolicLabelBase)):
+        if isinstance(self.k, SymbolicLabelBase):
+            return self.k.fock_index
+        elif isinstance(self.k, int):
             return self.k
         else:
             try:
diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 7cedca1..c508cb9 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -406,12 +406,12 @@ def Jpjmcoeff(ls, m, shift=False) -> sympy.Expr:
         ls (LocalSpace): The Hilbert space in which the $\Op{J}_{+}$ operator
             acts.
         m (str or int): If str, the label of the basis state of `hs` to which
-            the operator is applied. If integer together with ``shift=True``,
-            the zero-based index of the basis state. Otherwise, directly the
-            quantum number $m$.
-        shift (bool): If True for a integer value of `m`, treat `m` as the
-            zero-based index of the basis state (i.e., shift `m` down by $s$ to
-            obtain the quantum number $m$)
+            the operator is applied. If integer (or symbolic) together with
+            ``shift=True``, the zero-based index of the basis state. Otherwise,
+            directly the quantum number $m$.
+        shift (bool): If True for a integer (or symbolic) value of `m`, treat
+            `m` as the zero-based index of the basis state (i.e., shift `m`
+            down by $s$ to obtain the quantum number $m$)
     '''
     assert isinstance(ls, SpinSpace)
     n = ls.dimension
@@ -419,10 +419,9 @@ def Jpjmcoeff(ls, m, shift=False) -> sympy.Expr:
     assert n == int(2 * s + 1)
     if isinstance(m, str):
         m = ls.basis_labels.index(m) - s  # m is now Sympy expression
-    elif isinstance(m, int):
-        if shift:
-            assert 0 <= m < n
-            m = m - s
+    elif shift:
+        assert not isinstance(m, int) or 0 <= m < n
+        m = m - s  # m may also be a symbolic index
     return sqrt(s * (s + 1) - m * (m + 1))
 
 
@@ -441,10 +440,9 @@ def Jzjmcoeff(ls, m, shift) -> sympy.Expr:
     assert n == int(2 * s + 1)
     if isinstance(m, str):
         return ls.basis_labels.index(m) - s
-    elif isinstance(m, int):
-        if shift:
-            assert 0 <= m < n
-            return m - s
+    elif shift:
+        assert not isinstance(m, int) or 0 <= m < n
+        return m - s  # m may also be a symbolic index
     return sympify(m)
 
 
@@ -463,8 +461,7 @@ def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
     assert n == int(2 * s + 1)
     if isinstance(m, str):
         m = ls.basis_labels.index(m) - s  # m is now Sympy expression
-    elif isinstance(m, int):
-        if shift:
-            assert 0 <= m < n
-            m = m - s
+    elif shift:
+        assert not isinstance(m, int) or 0 <= m < n
+        m = m - s  # m may also be a symbolic index
     return sqrt(s * (s + 1) - m * (m - 1))
-- 
2.43.0


From 7659374612acc84a897dbbb6f0a98fded76b5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:19 +0000
Subject: [PATCH 71/86] fix: sums and products of states without any operands

KetPlus.create() and TensorKet.create() recursed infinitely, e.g. for an
operator applied to a product state on a different Hilbert space.
---
 src/qnet/algebra/core/algebraic_properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 34411c6..5b15379 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -629,6 +629,8 @@ def accept_bras(cls, ops, kwargs):
             kets.append(bra.ket)
         else:
             return ops, kwargs
+    if len(kets) == 0:
+        return ops, kwargs
     return Bra.create(cls.create(*kets, **kwargs))
 
 
-- 
2.43.0


From 6936a0eee9393c1c0e691b2252b9c74ee7371866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:35 +0000
Subject: [PATCH 72/86] fix: patterns with more than one sequence wildcard are
 rejected

A pattern with a sequence wildcard both as its first and as its last
argument matched without binding the first wildcard.
---
 src/qnet/algebra/pattern_matching/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index d522753..715bf51 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -200,6 +200,11 @@ class Pattern():
             for i, arg in enumerate(args):
                 if isinstance(arg, Pattern):
                     if arg.mode > self.single:
+                        if self._has_non_single_arg:
+                            raise ValueError(
+                                    "Only one of the arguments may have a "
+                                    "mode indicating an occurrence of more "
+                                    "than 1")
                         self._has_non_single_arg = True
                         if i == 0:
                             self._non_single_arg_on_left = True
-- 
2.43.0


From bdf27610b716ccfe559a2bde3e3968571d00565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:02 +0000
Subject: [PATCH 73/86] fix: replace only the imaginary unit in time-dependent
 coefficient strings

---
 src/qnet/convert/to_qutip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index c979af5..fb861ab 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -458,7 +458,7 @@ def _time_dependent_to_qutip(
                 # TODO: we can probably use one of the sympy code generation
                 # routines, or lambdify with 'numexpr' to implement this in a
                 # more robust way
-                coeff = re.sub("I", "(1.0j)", str(op.coeff.val))
+                coeff = re.sub(r"\bI\b", "(1.0j)", str(op.coeff.val))
             else:
                 raise ValueError(("Invalid value '%s' for `convert_as`, must "
                                   "be one of 'str', 'pyfunc'") % convert_as)
-- 
2.43.0


From f714a5cb9ba2e52efb4bed010d14f6ac33bfab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:50 +0000
Subject: [PATCH 74/86] fix: evaluate time-dependent coefficients with further
 parameters

---
 src/qnet/convert/to_qutip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index fb861ab..0357ecb 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -451,7 +451,9 @@ def _time_dependent_to_qutip(
                         return func_no_args(t)
                 else:
                     def func(t, args):
-                        return func_no_args(t).subs(args)
+                        # the compiled function cannot be evaluated for
+                        # parameters that are still symbols
+                        return op.coeff.val.subs({time_symbol: t}).subs(args)
                 coeff = func
             elif convert_as == 'str':
                 # a bit of a hack to replace imaginary unit
-- 
2.43.0


From 573c617a9fe0a82d5eb909913834fd004fd3c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:02 +0000
Subject: [PATCH 75/86] fix: products of tensor products on incompatible spaces
 looped forever

---
 src/qnet/algebra/_rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index fe23f00..0486d40 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -532,6 +532,8 @@ def act_locally(op, ket):
 
 
 def act_locally_times_tensor(op, ket):
+    if not op.space <= ket.space:
+        raise CannotSimplify()  # not a valid product; the loop would not end
     local_spaces = op.space.local_factors
     for spc in local_spaces:
         while spc < ket.space:
@@ -547,6 +549,8 @@ def act_locally_times_tensor(op, ket):
 
 
 def tensor_decompose_kets(a, b, operation):
+    if a.space != b.space:
+        raise CannotSimplify()  # not a valid product; the loop would not end
     full_space = a.space * b.space
     local_spaces = full_space.local_factors
     for spc in local_spaces:
-- 
2.43.0


From b9f89ae08ced3cb1cd9718ad89be7b066ddb1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:43 +0000
Subject: [PATCH 76/86] fix: printing of sums over ranges with a step

---
 src/qnet/printing/asciiprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index c014574..c060841 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -596,7 +596,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
             bottom_index = self.doprint(expr.index_symbol)
             bottom_rhs = "=%s" % expr.start_from
             if abs(expr.step) > 1:
-                bottom_rhs += ", %s" % expr.start_from + expr.step
+                bottom_rhs += ", %s" % (expr.start_from + expr.step)
                 bottom_rhs += ", " + self._ellipsis
             if which == 'bottom_index':
                 return bottom_index
-- 
2.43.0


From 28ed1368a58730ab636b55a4fa7b08d55c98a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:43 +0000
Subject: [PATCH 77/86] fix: adjoints of symbols were printed without their
 arguments

---
 src/qnet/printing/asciiprinter.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index c060841..f6a2518 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -400,19 +400,12 @@ class QnetAsciiPrinter(QnetBasePrinter):
 
     def _print_Adjoint(self, expr, adjoint=False):
         o = expr.operand
-        if self._isinstance(o, 'LocalOperator'):
-            if adjoint:
-                dagger = o._dagger
-            else:
-                dagger = not o._dagger
-            return self._render_op(
-                o.identifier, hs=o.space, dagger=dagger, args=o.args[1:])
-        elif self._isinstance(o, 'OperatorSymbol'):
-            return self._render_op(
-                o.label, hs=o.space, dagger=(not adjoint))
+        if (self._isinstance(o, 'LocalOperator') or
+                self._isinstance(o, 'OperatorSymbol')):
+            return self.doprint(o, adjoint=(not adjoint))
         else:
             if adjoint:
-                return self.doprint(o)
+                return self.parenthesize(o, precedence(expr))
             else:
                 return (
                     self._parenth_left + self.doprint(o) +
@@ -725,11 +718,10 @@ class QnetAsciiPrinter(QnetBasePrinter):
     def _print_SuperAdjoint(self, expr, adjoint=False, superop=True):
         o = expr.operand
         if self._isinstance(o, 'SuperOperatorSymbol'):
-            return self._render_op(
-                o.label, hs=o.space, dagger=(not adjoint), superop=True)
+            return self.doprint(o, adjoint=(not adjoint))
         else:
             if adjoint:
-                return self.doprint(o)
+                return self.parenthesize(o, precedence(expr))
             else:
                 return (
                     self._parenth_left + self.doprint(o) +
-- 
2.43.0


From 8896379af130ff88450d0b50843f19518f49033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:43 +0000
Subject: [PATCH 78/86] fix: sign of bracketed terms of a sum was printed
 outside of the brackets

---
 src/qnet/printing/asciiprinter.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index f6a2518..f041b65 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -361,16 +361,11 @@ class QnetAsciiPrinter(QnetBasePrinter):
         if superop:
             kwargs['superop'] = superop
         for term in expr.args:
-            t = self.doprint(term, **kwargs)
+            t = self.parenthesize(term, prec, **kwargs)
             if t.startswith('-'):
-                sign = "-"
-                t = t[1:].strip()
+                l.extend(["-", t[1:].strip()])
             else:
-                sign = "+"
-            if precedence(term) < prec:
-                l.extend([sign, self._parenth_left + t + self._parenth_right])
-            else:
-                l.extend([sign, t])
+                l.extend(["+", t])
         try:
             sign = l.pop(0)
             if sign == '+':
-- 
2.43.0


From 64bf52fdecf6c8551910db6ceb7eeb3f022d2fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:43 +0000
Subject: [PATCH 79/86] fix: scalar multiples of the identity super-operator

---
 src/qnet/printing/asciiprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index f041b65..9c0c963 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -342,7 +342,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
 
         if term_str in [
                 '1', self._print_IdentityOperator(expr),
-                self._print_IdentitySuperOperator]:
+                self._print_IdentitySuperOperator(expr)]:
             return coeff_str
         else:
             coeff_str = coeff_str.strip()
-- 
2.43.0


From 445c8d0dbe4a2b3ac300d6213afba4076ac1d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:44 +0000
Subject: [PATCH 80/86] fix: srepr confused numbers and scalars of the same
 value

---
 src/qnet/printing/sreprprinter.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/qnet/printing/sreprprinter.py b/src/qnet/printing/sreprprinter.py
index 4a1d9ae..582020d 100644
--- a/src/qnet/printing/sreprprinter.py
+++ b/src/qnet/printing/sreprprinter.py
@@ -8,6 +8,7 @@ from .base import QnetBasePrinter
 from .sympy import SympyReprPrinter
 from ._render_head_repr import render_head_repr
 from qnet.algebra.core.abstract_algebra import Expression
+from qnet.algebra.core.scalar_algebra import Scalar
 from ..utils.singleton import Singleton
 
 __all__ = []
@@ -20,6 +21,13 @@ class QnetSReprPrinter(QnetBasePrinter):
 
     sympy_printer_cls = SympyReprPrinter
 
+    def _write_to_cache(self, expr, res):
+        # a number, the SymPy number and the Scalar of the same value are equal
+        # (2 == Integer(2) == ScalarValue(2)), but have different
+        # representations
+        if not isinstance(expr, (Scalar, ) + Scalar._val_types):
+            super()._write_to_cache(expr, res)
+
     def _render_str(self, string):
         return repr(string)
 
@@ -69,8 +77,9 @@ class IndentedSReprPrinter(QnetBasePrinter):
     def _write_to_cache(self, expr, res):
         """Store the cached result without indentation, and without the
         keyname"""
-        res = dedent(res)
-        super()._write_to_cache(expr, res)
+        # For numbers, see :class:`QnetSReprPrinter`
+        if not isinstance(expr, (Scalar, ) + Scalar._val_types):
+            super()._write_to_cache(expr, dedent(res))
 
     def _render_str(self, string):
         return "    " * self._print_level + repr(string)
-- 
2.43.0


From 3066acb8fcadb1d3691194fec2767e71b4e4380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:44 +0000
Subject: [PATCH 81/86] fix: printing of the adjoint of products, derivatives
 and other operators

---
 src/qnet/printing/asciiprinter.py   | 47 ++++++++++++++++++++++-------
 src/qnet/printing/latexprinter.py   | 29 ++++++++++--------
 src/qnet/printing/unicodeprinter.py | 10 ++++--
 3 files changed, 59 insertions(+), 27 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 9c0c963..1bc18f8 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -308,15 +308,20 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     identifier = "%s_%s,%s" % (expr.identifier, expr.j, expr.k)
             return self._render_op(identifier, expr._hs, dagger=adjoint)
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "1"
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return "0"
 
     def _print_ScalarValue(self, expr, **kwargs):
         return self.doprint(expr.val, **kwargs)
 
+    def _print_ScalarPower(self, expr, adjoint=False):
+        if adjoint:
+            expr = expr.conjugate()
+        return self.emptyPrinter(expr)
+
     def _print_Zero(self, expr, **kwargs):
         return "0"
 
@@ -376,8 +381,11 @@ class QnetAsciiPrinter(QnetBasePrinter):
 
     def _print_QuantumTimes(self, expr, **kwargs):
         prec = precedence(expr)
+        operands = expr.operands
+        if kwargs.get('adjoint', False):
+            operands = reversed(operands)
         return self._spaced_product_sym.join(
-            [self.parenthesize(op, prec, **kwargs) for op in expr.operands])
+            [self.parenthesize(op, prec, **kwargs) for op in operands])
 
     def _print_Commutator(self, expr, adjoint=False):
         res = "[" + self.doprint(expr.A) + ", " + self.doprint(expr.B) + "]"
@@ -406,17 +414,25 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     self._parenth_left + self.doprint(o) +
                     self._parenth_right + "^" + self._dagger_sym)
 
-    def _print_OperatorPlusMinusCC(self, expr):
+    def _print_OperatorPlusMinusCC(self, expr, adjoint=False):
         prec = precedence(expr)
         o = expr.operand
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         sign_str = ' + '
         if expr._sign < 0:
             sign_str = ' - '
-        return self.parenthesize(o, prec) + sign_str + "c.c."
+        return (
+            self.parenthesize(o, prec, strict=True, **kwargs) + sign_str +
+            "c.c.")
 
-    def _print_PseudoInverse(self, expr):
+    def _print_PseudoInverse(self, expr, adjoint=False):
         prec = precedence(expr)
-        return self.parenthesize(expr.operand, prec) + "^+"
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
+        return self.parenthesize(expr.operand, prec, **kwargs) + "^+"
 
     def _print_NullSpaceProjector(self, expr, adjoint=False):
         null_space_proj_sym = 'P_Ker'
@@ -732,14 +748,22 @@ class QnetAsciiPrinter(QnetBasePrinter):
             "SPost" + self._parenth_left + self.doprint(expr.operands[0]) +
             self._parenth_right)
 
-    def _print_SuperOperatorTimesOperator(self, expr):
+    def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
         prec = precedence(expr)
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-        return "%s[%s]" % (cs, ct)
+        res = cs + self._bracket_left + ct + self._bracket_right
+        if adjoint:
+            res = (
+                self._parenth_left + res + self._parenth_right + "^" +
+                self._dagger_sym)
+        return res
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -749,7 +773,8 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 res += "D_%s " % sym_str
             else:
                 res += "D_%s^%s " % (sym_str, n)
-        res += self.parenthesize(expr.operand, PRECEDENCE['Mul'], strict=True)
+        res += self.parenthesize(
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             evaluation_strs = []
             for sym, val in expr.vals.items():
diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index e2c228b..ee09b5f 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -61,6 +61,13 @@ class QnetLatexPrinter(QnetAsciiPrinter):
             if 'symbol_names' in self._sympy_printer._default_settings:
                 self._sympy_printer._settings['symbol_names'] = cache
 
+    def _print(self, expr, *args, **kwargs):
+        if self._isinstance(expr, 'ScalarValue'):
+            # a ScalarValue delegates all unknown attributes to its value,
+            # including the `printmethod` of a SymPy value
+            return self._print_ScalarValue(expr, *args, **kwargs)
+        return super()._print(expr, *args, **kwargs)
+
     def _print_SCALAR_TYPES(self, expr, *args, **kwargs):
         res = super()._print_SCALAR_TYPES(expr, *args, **kwargs)
         if isinstance(expr, (complex, complex128)):
@@ -267,16 +274,16 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         return r'\mathcal{{H}}_{{{label}}}'.format(
             label=self._render_hs_label(expr))
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return self._settings['tex_identity_sym']
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return r'\mathbb{0}'
 
-    def _print_ZeroSuperOperator(self, expr):
+    def _print_ZeroSuperOperator(self, expr, superop=True):
         return r'\mathbb{0}'
 
-    def _print_IdentitySuperOperator(self, expr):
+    def _print_IdentitySuperOperator(self, expr, superop=True):
         return self._settings['tex_identity_sym']
 
     def _print_SPre(self, expr, superop=True):
@@ -291,14 +298,10 @@ class QnetLatexPrinter(QnetAsciiPrinter):
             name + self._parenth_left + self.doprint(expr.operands[0]) +
             self._parenth_right)
 
-    def _print_SuperOperatorTimesOperator(self, expr):
-        prec = precedence(expr)
-        sop, op = expr.sop, expr.op
-        cs = self.parenthesize(sop, prec)
-        ct = self.doprint(op)
-        return r'%s\left[%s\right]' % (cs, ct)
-
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         res = ""
         numerator = r'\partial'
         if expr.n > 1:
@@ -314,7 +317,7 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         denominator = " ".join(denominators)
         res += r'\frac{%s}{%s}' % (numerator, denominator)
         res += " " + self.parenthesize(
-            expr.operand, PRECEDENCE['Mul'], strict=True)
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             res = r'\left. ' + res
             evaluation_strs = []
diff --git a/src/qnet/printing/unicodeprinter.py b/src/qnet/printing/unicodeprinter.py
index 789d091..1843307 100644
--- a/src/qnet/printing/unicodeprinter.py
+++ b/src/qnet/printing/unicodeprinter.py
@@ -170,13 +170,16 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
         return render_unicode_sub_super(
             'ℌ', subs=[self._render_hs_label(expr)])
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "𝟙"
 
     def _print_IdentitySuperOperator(self, expr, superop=True):
         return "𝟙"
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -190,7 +193,8 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
             res += (render_unicode_sub_super(
                 '∂', subs, supers, sub_first=True, translate_symbols=True,
                 unicode_sub_super=self._settings['unicode_sub_super']) + " ")
-        res += self.parenthesize(expr.operand, PRECEDENCE['Mul'], strict=True)
+        res += self.parenthesize(
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             evaluation_strs = []
             for sym, val in expr.vals.items():
-- 
2.43.0


From cc672a3307a84b53ef296d634aa80d752a870982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:53 +0000
Subject: [PATCH 82/86] fix: coefficients that are sums of scalars were printed
 without brackets

---
 src/qnet/printing/asciiprinter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 1bc18f8..53cf8a7 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -351,8 +351,10 @@ class QnetAsciiPrinter(QnetBasePrinter):
             return coeff_str
         else:
             coeff_str = coeff_str.strip()
-            if precedence(coeff) < prec and precedence(-coeff) < prec:
-                # the above precedence check catches on only for true sums
+            is_negative_value = (
+                self._isinstance(coeff, 'ScalarValue') and
+                precedence(-coeff) >= prec)
+            if precedence(coeff) < prec and not is_negative_value:
                 coeff_str = (
                     self._parenth_left + coeff_str + self._parenth_right)
             return coeff_str + self._spaced_product_sym + term_str.strip()
-- 
2.43.0


From 8a3cba76dbb51e03ec0cdfb74a967d93f9355217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:53 +0000
Subject: [PATCH 83/86] fix: the adjoint of a product of scalars was printed in
 reverse order

---
 src/qnet/printing/asciiprinter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 53cf8a7..47b0709 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -385,7 +385,8 @@ class QnetAsciiPrinter(QnetBasePrinter):
         prec = precedence(expr)
         operands = expr.operands
         if kwargs.get('adjoint', False):
-            operands = reversed(operands)
+            if not self._isinstance(expr, 'ScalarTimes'):
+                operands = reversed(operands)
         return self._spaced_product_sym.join(
             [self.parenthesize(op, prec, **kwargs) for op in operands])
 
-- 
2.43.0


From d447444bc591912ca519cb652ef42781df1f6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:53 +0000
Subject: [PATCH 84/86] fix: missing brackets around sums with a leading minus
 applied to a ket or an operator

---
 src/qnet/printing/asciiprinter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 47b0709..8354664 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -501,7 +501,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 for op in expr.operands])
 
     def _print_OperatorTimesKet(self, expr, adjoint=False):
-        prec = precedence(expr)
+        prec = PRECEDENCE['Mul']
         op, ket = expr.operator, expr.ket
         kwargs = {}
         if adjoint:
@@ -752,7 +752,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
             self._parenth_right)
 
     def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
-        prec = precedence(expr)
+        prec = PRECEDENCE['Mul']
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-- 
2.43.0


From 3645a4a1db50baba69ceaf8c82f20c20d8a90a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:53 +0000
Subject: [PATCH 85/86] fix: srepr confused a multiple of the identity with the
 scalar of the same value

---
 src/qnet/printing/sreprprinter.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/qnet/printing/sreprprinter.py b/src/qnet/printing/sreprprinter.py
index 582020d..60d5938 100644
--- a/src/qnet/printing/sreprprinter.py
+++ b/src/qnet/printing/sreprprinter.py
@@ -8,6 +8,8 @@ from .base import QnetBasePrinter
 from .sympy import SympyReprPrinter
 from ._render_head_repr import render_head_repr
 from qnet.algebra.core.abstract_algebra import Expression
+from qnet.algebra.core.operator_algebra import (
+    IdentityOperator, ScalarTimesOperator)
 from qnet.algebra.core.scalar_algebra import Scalar
 from ..utils.singleton import Singleton
 
@@ -16,16 +18,27 @@ __private__ = [
     'QnetSReprPrinter', 'IndentedSReprPrinter', 'IndentedSympyReprPrinter']
 
 
+def _equals_number(expr):
+    """Whether `expr` may be equal to a number
+
+    A number, the SymPy number, the Scalar, and the multiple of the identity
+    of the same value are equal (``2 == Integer(2) == ScalarValue(2) ==
+    2 * IdentityOperator``), but have different representations.
+    """
+    if isinstance(expr, ScalarTimesOperator):
+        return expr.term is IdentityOperator
+    return (
+        expr is IdentityOperator or
+        isinstance(expr, (Scalar, ) + Scalar._val_types))
+
+
 class QnetSReprPrinter(QnetBasePrinter):
     """Printer for a string (ASCII) representation."""
 
     sympy_printer_cls = SympyReprPrinter
 
     def _write_to_cache(self, expr, res):
-        # a number, the SymPy number and the Scalar of the same value are equal
-        # (2 == Integer(2) == ScalarValue(2)), but have different
-        # representations
-        if not isinstance(expr, (Scalar, ) + Scalar._val_types):
+        if not _equals_number(expr):
             super()._write_to_cache(expr, res)
 
     def _render_str(self, string):
@@ -78,7 +91,7 @@ class IndentedSReprPrinter(QnetBasePrinter):
         """Store the cached result without indentation, and without the
         keyname"""
         # For numbers, see :class:`QnetSReprPrinter`
-        if not isinstance(expr, (Scalar, ) + Scalar._val_types):
+        if not _equals_number(expr):
             super()._write_to_cache(expr, dedent(res))
 
     def _render_str(self, string):
-- 
2.43.0


From 240740133f1c912e86701020b0fb7c640b6eec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:17 +0000
Subject: [PATCH 86/86] fix: noise terms of the Heisenberg equation subtracted
 the operator from all matrix entries

---
 src/qnet/algebra/core/circuit_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index e06de83..0a509a4 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -557,7 +557,8 @@ class SLH(Circuit, Expression):
                        .expand()[0, 0])
             summands.append(summand)
             if len(S.space & X.space):
-                comm = (S.adjoint() * X * S - X)
+                comm = (S.adjoint() * X * S -
+                        identity_matrix(self.cdim) * X)
                 summands.append((comm * LambdaT).expand().trace())
 
         ret = OperatorPlus.create(*summands)
-- 
2.43.0

