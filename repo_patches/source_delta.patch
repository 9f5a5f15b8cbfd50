From a0a762d16e7e8e58765a3f460152116da3d26967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 001/131] fix: keep a custom basis of a SpinSpace when it is
 re-created from its kwargs

---
 src/qnet/algebra/library/spin_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index c9a06ec..698cd40 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -88,6 +88,7 @@ class SpinSpace(LocalSpace):
         if dimension <= 1:
             raise ValueError("spin %s must be greater than zero" % spin)
         bottom = -spin
+        has_custom_basis = basis is not None
         if basis is None:
             basis = tuple([
                 SpinIndex._static_render(bottom + n)
@@ -105,9 +106,12 @@ class SpinSpace(LocalSpace):
         # rewrite the kwargs from super()
         self._kwargs = OrderedDict([
             ('spin', self._spin),
+            ('basis', self._basis),
             ('local_identifiers', self._sorted_local_identifiers),
             ('order_index', self._order_index)])
         self._minimal_kwargs = self._kwargs.copy()
+        if not has_custom_basis:
+            del self._minimal_kwargs['basis']
         if local_identifiers is None:
             del self._minimal_kwargs['local_identifiers']
         if order_index is None:
-- 
2.43.0


From 6c5d182d508f39f01b17b1fb6d5d3fa531f2f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 002/131] fix: never exchange non-commuting factors when
 ordering operator products

---
 src/qnet/algebra/core/algebraic_properties.py |  5 ++++
 src/qnet/utils/ordering.py                    | 25 +++++++++++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index d148d69..5c4e135 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -114,7 +114,12 @@ def orderby(cls, ops, kwargs):
         ...     simplifications = [orderby, ]
         >>> Times.create(2,1)
         Times(1, 2)
+
+    If the ``order_key`` only defines a partial order, it must have a ``sort``
+    method, see :class:`.DisjunctCommutativeHSOrder`.
     """
+    if hasattr(cls.order_key, 'sort'):
+        return cls.order_key.sort(ops), kwargs
     return sorted(ops, key=cls.order_key), kwargs
 
 
diff --git a/src/qnet/utils/ordering.py b/src/qnet/utils/ordering.py
index 51251d9..ed83899 100644
--- a/src/qnet/utils/ordering.py
+++ b/src/qnet/utils/ordering.py
@@ -81,8 +81,9 @@ class DisjunctCommutativeHSOrder():
     """Auxiliary class that generates the correct pseudo-order relation for
     operator products.  Only operators acting on disjoint Hilbert spaces
     are commuted to reflect the order the local factors have in the total
-    Hilbert space. I.e., ``sorted(factors, key=DisjunctCommutativeHSOrder)``
-    achieves this ordering.
+    Hilbert space. As this is only a partial order,
+    ``DisjunctCommutativeHSOrder.sort(factors)`` must be used to achieve this
+    ordering, instead of :func:`sorted`.
     """
 
     def __init__(self, op, space_order=None, op_order=None):
@@ -115,6 +116,26 @@ class DisjunctCommutativeHSOrder():
                 return self._space_order < other._space_order
         return None  # no ordering
 
+    @classmethod
+    def sort(cls, ops):
+        """List of `ops`, sorted without ever exchanging two elements that have
+        no ordering relative to each other
+
+        The result is the same for all lists of `ops` that differ only by
+        exchanges of neighboring elements with a defined ordering.
+        """
+        todo = [(cls(op), op) for op in ops]
+        res = []
+        while len(todo) > 0:
+            i_min = 0
+            for i in range(1, len(todo)):
+                key = todo[i][0]
+                if key < todo[i_min][0]:
+                    if all(key < k or k < key for (k, _) in todo[:i]):
+                        i_min = i
+            res.append(todo.pop(i_min)[1])
+        return res
+
 
 class FullCommutativeHSOrder():
     """Auxiliary class that generates the correct pseudo-order relation for
-- 
2.43.0


From fb9c2acdd7c587a1920323fd42f5205f5c78af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 003/131] fix: expand commutators of two-factor products with
 the Leibniz rule

---
 src/qnet/algebra/toolbox/commutator_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/toolbox/commutator_manipulation.py b/src/qnet/algebra/toolbox/commutator_manipulation.py
index bdec62b..f177ad5 100644
--- a/src/qnet/algebra/toolbox/commutator_manipulation.py
+++ b/src/qnet/algebra/toolbox/commutator_manipulation.py
@@ -40,7 +40,7 @@ def expand_commutators_leibniz(expr, expand_expr=True):
     def leibniz_left(AB, C):
         """[AB, C] -> A [B, C] C + [A, C] B"""
         A = AB.operands[0]
-        B = OperatorTimes(*AB.operands[1:])
+        B = OperatorTimes.create(*AB.operands[1:])
         return A * Commutator.create(B, C) + Commutator.create(A, C) * B
 
     rules = OrderedDict([
-- 
2.43.0


From f23a082233b679905ff78cf4bdc422ca4105ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 004/131] fix: the outer product with the zero ket is the zero
 operator

---
 src/qnet/algebra/_rules.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 8ea2dba..23af108 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -799,6 +799,12 @@ def _algebraic_rules_state():
         ('R011', (  # delegate to __mul__
             pattern_head(sum, Psi),
             lambda sum, Psi: sum * Bra.create(Psi))),
+        ('R012', (
+            pattern_head(Psi, ZeroKet),
+            lambda Psi: ZeroOperator)),
+        ('R013', (
+            pattern_head(ZeroKet, Psi),
+            lambda Psi: ZeroOperator)),
     ]))
 
     def pull_constfactor_from_sum(u, Psi, indranges):
-- 
2.43.0


From abd5b82d940f5e1e81398268ff04bb7bac930503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 005/131] fix: make comparison of nested order keys
 antisymmetric

---
 src/qnet/utils/ordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/utils/ordering.py b/src/qnet/utils/ordering.py
index ed83899..eeacc6b 100644
--- a/src/qnet/utils/ordering.py
+++ b/src/qnet/utils/ordering.py
@@ -44,7 +44,7 @@ class KeyTuple(tuple):
             try:
                 if a < b:
                     return True
-                elif a > b:
+                elif b < a:
                     return False
             except (TypeError, ValueError):
                 if str(a) < str(b):
-- 
2.43.0


From e65cf5373e9e1592e38574c80f68897368bd7ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 006/131] fix: do not distribute the pseudo-inverse over
 factors in the same Hilbert space

---
 src/qnet/algebra/core/operator_algebra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 2478d59..ca99abd 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -478,6 +478,11 @@ class OperatorTimes(QuantumTimes, Operator):
     simplifications = [assoc, orderby, filter_neutral, match_replace_binary]
 
     def _pseudo_inverse(self):
+        # (A B)^+ = B^+ A^+ does not hold for arbitrary A, B
+        spaces = [o.space for o in self.operands]
+        for i, space in enumerate(spaces):
+            if not all(space.isdisjoint(other) for other in spaces[i+1:]):
+                return PseudoInverse(self)
         return self.__class__.create(
                 *[o._pseudo_inverse() for o in reversed(self.operands)])
 
-- 
2.43.0


From 238533cb4979a04bf4d2bfaa224dedf46896b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 007/131] fix: pull only commuting factors out of a partial
 trace

---
 src/qnet/algebra/core/operator_algebra.py | 44 +++++++++++++++--------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index ca99abd..8362de1 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -853,24 +853,40 @@ def factor_for_trace(ls: HilbertSpace, op: Operator) -> Operator:
     if ls & op.space == TrivialSpace:
         return ls.dimension * op
     if ls < op.space and isinstance(op, OperatorTimes):
-        pull_out = [o for o in op.operands if (o.space & ls) == TrivialSpace]
-
-        rest = [o for o in op.operands if (o.space & ls) != TrivialSpace]
+        # factors that do not act on `ls` can be pulled out to the left or to
+        # the right, unless they would have to be exchanged with another factor
+        # that acts on the same degree of freedom
+        left, inner, rest, right = [], [], [], []
+        for o in op.operands:
+            if o.space.isdisjoint(ls) and all(
+                    o.space.isdisjoint(r.space) for r in inner):
+                left.append(o)
+            else:
+                inner.append(o)
+        for o in reversed(inner):
+            if o.space.isdisjoint(ls) and all(
+                    o.space.isdisjoint(r.space) for r in rest):
+                right.insert(0, o)
+            else:
+                rest.insert(0, o)
         if (not isinstance(rest[0], LocalSigma) or
-            not isinstance(rest[-1], LocalSigma)):
+                not isinstance(rest[-1], LocalSigma)):
             for j, r in enumerate(rest):
-                if isinstance(r, LocalSigma):
-                    m = r.j
-                    rest = (
-                        rest[j:] + rest[:j] +
-                        [LocalSigma.create(m, m, hs=ls), ])
+                if isinstance(r, LocalSigma) and r.space == ls:
+                    # the trace over `ls` is cyclic only up to operators acting
+                    # on other degrees of freedom
+                    if all((a.space & b.space) <= ls
+                            for a in rest[:j] for b in rest[j:]):
+                        m = r.j
+                        rest = (
+                            rest[j:] + rest[:j] +
+                            [LocalSigma.create(m, m, hs=ls), ])
                     break
-        if not rest:
-            rest = [IdentityOperator]
-        if len(pull_out):
-            return (OperatorTimes.create(*pull_out) *
+        if len(left) > 0 or len(right) > 0:
+            return (OperatorTimes.create(*left) *
                     OperatorTrace.create(OperatorTimes.create(*rest),
-                                         over_space=ls))
+                                         over_space=ls) *
+                    OperatorTimes.create(*right))
     raise CannotSimplify()
 
 
-- 
2.43.0


From 7aa6876ac46973636b8a5204d59f08f96699857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 008/131] fix: tensor products of no operands no longer recurse
 without end

---
 src/qnet/algebra/core/algebraic_properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 5c4e135..b320ffa 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -613,6 +613,8 @@ def accept_bras(cls, ops, kwargs):
     """Accept operands that are all bras, and turn that into to bra of the
     operation applied to all corresponding kets"""
     from qnet.algebra.core.state_algebra import Bra
+    if len(ops) == 0:
+        return ops, kwargs
     kets = []
     for bra in ops:
         if isinstance(bra, Bra):
-- 
2.43.0


From 94e92e303ef725ad7a4124a6622ff48531e9c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 009/131] fix: zero times a bra is the zero bra instead of the
 zero ket

---
 src/qnet/algebra/core/state_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 84c160a..103413e 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -753,3 +753,5 @@ State._times_cls = TensorKet
 State._adjoint_cls = Bra
 State._indexed_sum_cls = KetIndexedSum
 State._derivative_cls = StateDerivative
+
+Bra._zero = Bra(ZeroKet)
-- 
2.43.0


From 1ba5d94d175020261e379f236bc56d471684c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 010/131] fix: expansion of an adjoint of a sum

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 386f030..493a669 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -463,7 +463,7 @@ class QuantumAdjoint(SingleQuantumOperation, metaclass=ABCMeta):
     def _expand(self):
         eo = self.operand.expand()
         if isinstance(eo, self.__class__._plus_cls):
-            summands = [eoo.adjoin() for eoo in eo.operands]
+            summands = [eoo.adjoint() for eoo in eo.operands]
             return self.__class__._plus_cls.create(*summands)
         return eo.adjoint()
 
-- 
2.43.0


From 1792b0ad4663350b4cdbb4ae48f9aeff2a2777c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 011/131] fix: simplify_scalar on a basis state in a Hilbert
 space without a basis

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 493a669..f069585 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -371,6 +371,8 @@ class QuantumSymbol(QuantumExpression, metaclass=ABCMeta):
             return super()._series_expand(param, about, order)
 
     def _simplify_scalar(self, func):
+        if len(self._sym_args) == 0:
+            return self
         simplified_sym_args = [func(sym) for sym in self._sym_args]
         return self.create(self.label, *simplified_sym_args, hs=self.space)
 
-- 
2.43.0


From 71d16cfacf1b6c483fcf4a8d6312a3af07d1f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 012/131] fix: expansion of an inner product is always a scalar
 expression

---
 src/qnet/algebra/core/state_algebra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 103413e..b099e8c 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -25,7 +25,7 @@ from qnet.algebra.core.algebraic_properties import (
     indexed_sum_over_const,
     indexed_sum_over_kronecker)
 from .operator_algebra import Operator, OperatorPlus, PseudoInverse
-from .scalar_algebra import ScalarExpression
+from .scalar_algebra import ScalarExpression, Zero
 from ...utils.indices import (
     FockIndex, IdxSym, IndexOverFockSpace, IndexOverRange, SymbolicLabelBase, )
 from ...utils.ordering import FullCommutativeHSOrder
@@ -636,8 +636,8 @@ class BraKet(ScalarExpression, Operation):
         be, ke = b.expand(), k.expand()
         besummands = be.operands if isinstance(be, KetPlus) else (be,)
         kesummands = ke.operands if isinstance(ke, KetPlus) else (ke,)
-        return sum(BraKet.create(bes, kes)
-                   for bes in besummands for kes in kesummands)
+        return sum((BraKet.create(bes, kes)
+                    for bes in besummands for kes in kesummands), Zero)
 
     def _series_expand(self, param, about, order):
         be = self.bra.series_expand(param, about, order)
-- 
2.43.0


From 2ab0a573cf297e3eff310ef8da0bdfd074df2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 013/131] fix: keep singletons unique while the instance cache
 is replaced

---
 src/qnet/utils/singleton.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qnet/utils/singleton.py b/src/qnet/utils/singleton.py
index 4727f1c..9d849a2 100644
--- a/src/qnet/utils/singleton.py
+++ b/src/qnet/utils/singleton.py
@@ -93,9 +93,12 @@ class Singleton(ABCMeta):
     _instances = {}
 
     def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
+        # `cls._instances` could be an attribute of `cls` (such as the instance
+        # cache of an Expression), which would not be permanent
+        instances = Singleton._instances
+        if cls not in instances:
+            instances[cls] = super().__call__(*args, **kwargs)
+        return instances[cls]
 
     @classmethod
     def __instancecheck__(mcs, instance):
-- 
2.43.0


From 76047d1820804011d2321e645c0614d3a942408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 014/131] fix: endless recursion when a product of operators
 acts on a local state

---
 src/qnet/algebra/_rules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 23af108..bcec958 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -601,7 +601,10 @@ def _algebraic_rules_state():
     ]))
 
     def local_rule(A, B, Psi):
-        return OperatorTimes.create(*A) * (B * Psi)
+        rhs = B * Psi
+        if rhs == OperatorTimesKet(B, Psi):
+            raise CannotSimplify()
+        return OperatorTimes.create(*A) * rhs
 
     OperatorTimesKet._rules.update(check_rules_dict([
         ('R001', (  # Id * Psi = Psi
-- 
2.43.0


From 32cf4f3c370b6c97d5f84a92c4b755f2d4a43901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 015/131] fix: rendering of adjoints: operand order, arguments,
 and unsupported expressions

---
 src/qnet/printing/asciiprinter.py   | 81 ++++++++++++++++++-----------
 src/qnet/printing/latexprinter.py   | 31 +++++++----
 src/qnet/printing/unicodeprinter.py | 10 ++--
 3 files changed, 78 insertions(+), 44 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index c014574..b4a87c8 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -192,6 +192,13 @@ class QnetAsciiPrinter(QnetBasePrinter):
         else:
             return self.doprint(expr, *args, **kwargs)
 
+    def _doprint_adjoint(self, expr, adjoint):
+        """Render `expr`, respectively its adjoint if `adjoint` is True"""
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
+        return self.doprint(expr, **kwargs)
+
     def _print_tuple(self, expr):
         return (
             self._parenth_left + ", ".join([self.doprint(c) for c in expr])
@@ -308,10 +315,10 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     identifier = "%s_%s,%s" % (expr.identifier, expr.j, expr.k)
             return self._render_op(identifier, expr._hs, dagger=adjoint)
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "1"
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return "0"
 
     def _print_ScalarValue(self, expr, **kwargs):
@@ -362,15 +369,13 @@ class QnetAsciiPrinter(QnetBasePrinter):
             kwargs['superop'] = superop
         for term in expr.args:
             t = self.doprint(term, **kwargs)
-            if t.startswith('-'):
+            sign = "+"
+            if precedence(term) < prec:
+                t = self._parenth_left + t + self._parenth_right
+            elif t.startswith('-'):
                 sign = "-"
                 t = t[1:].strip()
-            else:
-                sign = "+"
-            if precedence(term) < prec:
-                l.extend([sign, self._parenth_left + t + self._parenth_right])
-            else:
-                l.extend([sign, t])
+            l.extend([sign, t])
         try:
             sign = l.pop(0)
             if sign == '+':
@@ -381,8 +386,11 @@ class QnetAsciiPrinter(QnetBasePrinter):
 
     def _print_QuantumTimes(self, expr, **kwargs):
         prec = precedence(expr)
+        operands = expr.operands
+        if kwargs.get('adjoint', False):
+            operands = reversed(operands)
         return self._spaced_product_sym.join(
-            [self.parenthesize(op, prec, **kwargs) for op in expr.operands])
+            [self.parenthesize(op, prec, **kwargs) for op in operands])
 
     def _print_Commutator(self, expr, adjoint=False):
         res = "[" + self.doprint(expr.A) + ", " + self.doprint(expr.B) + "]"
@@ -406,29 +414,34 @@ class QnetAsciiPrinter(QnetBasePrinter):
             else:
                 dagger = not o._dagger
             return self._render_op(
-                o.identifier, hs=o.space, dagger=dagger, args=o.args[1:])
+                o.identifier, hs=o.space, dagger=dagger, args=o.args)
         elif self._isinstance(o, 'OperatorSymbol'):
-            return self._render_op(
-                o.label, hs=o.space, dagger=(not adjoint))
+            return self._doprint_adjoint(o, not adjoint)
         else:
             if adjoint:
-                return self.doprint(o)
+                return self.parenthesize(o, precedence(expr))
             else:
                 return (
                     self._parenth_left + self.doprint(o) +
                     self._parenth_right + "^" + self._dagger_sym)
 
-    def _print_OperatorPlusMinusCC(self, expr):
+    def _print_OperatorPlusMinusCC(self, expr, adjoint=False):
         prec = precedence(expr)
         o = expr.operand
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         sign_str = ' + '
         if expr._sign < 0:
             sign_str = ' - '
-        return self.parenthesize(o, prec) + sign_str + "c.c."
+        return self.parenthesize(o, prec, **kwargs) + sign_str + "c.c."
 
-    def _print_PseudoInverse(self, expr):
+    def _print_PseudoInverse(self, expr, adjoint=False):
         prec = precedence(expr)
-        return self.parenthesize(expr.operand, prec) + "^+"
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
+        return self.parenthesize(expr.operand, prec, **kwargs) + "^+"
 
     def _print_NullSpaceProjector(self, expr, adjoint=False):
         null_space_proj_sym = 'P_Ker'
@@ -707,10 +720,10 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 self._parenth_right)
         return res
 
-    def _print_IdentitySuperOperator(self, expr, superop=True):
+    def _print_IdentitySuperOperator(self, expr, adjoint=False, superop=True):
         return "1"
 
-    def _print_ZeroSuperOperator(self, expr, superop=True):
+    def _print_ZeroSuperOperator(self, expr, adjoint=False, superop=True):
         return "0"
 
     def _print_SuperOperatorPlus(self, expr, adjoint=False, superop=True):
@@ -725,34 +738,38 @@ class QnetAsciiPrinter(QnetBasePrinter):
     def _print_SuperAdjoint(self, expr, adjoint=False, superop=True):
         o = expr.operand
         if self._isinstance(o, 'SuperOperatorSymbol'):
-            return self._render_op(
-                o.label, hs=o.space, dagger=(not adjoint), superop=True)
+            return self._doprint_adjoint(o, not adjoint)
         else:
             if adjoint:
-                return self.doprint(o)
+                return self.parenthesize(o, precedence(expr))
             else:
                 return (
                     self._parenth_left + self.doprint(o) +
                     self._parenth_right + "^" + self._dagger_sym)
 
-    def _print_SPre(self, expr, superop=True):
+    def _print_SPre(self, expr, adjoint=False, superop=True):
         return (
-            "SPre" + self._parenth_left + self.doprint(expr.operands[0]) +
+            "SPre" + self._parenth_left +
+            self._doprint_adjoint(expr.operands[0], adjoint) +
             self._parenth_right)
 
-    def _print_SPost(self, expr, superop=True):
+    def _print_SPost(self, expr, adjoint=False, superop=True):
         return (
-            "SPost" + self._parenth_left + self.doprint(expr.operands[0]) +
+            "SPost" + self._parenth_left +
+            self._doprint_adjoint(expr.operands[0], adjoint) +
             self._parenth_right)
 
-    def _print_SuperOperatorTimesOperator(self, expr):
+    def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
         prec = precedence(expr)
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-        return "%s[%s]" % (cs, ct)
+        res = "%s[%s]" % (cs, ct)
+        if adjoint:
+            res += "^" + self._dagger_sym
+        return res
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -769,6 +786,10 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 evaluation_strs.append(
                     "%s=%s" % (self.doprint(sym), self.doprint(val)))
             res += " |_(%s)" % ", ".join(evaluation_strs)
+        if adjoint:
+            res = (
+                self._parenth_left + res + self._parenth_right + "^" +
+                self._dagger_sym)
         return res
 
     def _print_Matrix(self, expr):
diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index e2c228b..377ce07 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -267,38 +267,43 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         return r'\mathcal{{H}}_{{{label}}}'.format(
             label=self._render_hs_label(expr))
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return self._settings['tex_identity_sym']
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return r'\mathbb{0}'
 
-    def _print_ZeroSuperOperator(self, expr):
+    def _print_ZeroSuperOperator(self, expr, adjoint=False, superop=True):
         return r'\mathbb{0}'
 
-    def _print_IdentitySuperOperator(self, expr):
+    def _print_IdentitySuperOperator(self, expr, adjoint=False, superop=True):
         return self._settings['tex_identity_sym']
 
-    def _print_SPre(self, expr, superop=True):
+    def _print_SPre(self, expr, adjoint=False, superop=True):
         name = self._settings['tex_textsop_macro'].format(name='SPre')
         return (
-            name + self._parenth_left + self.doprint(expr.operands[0]) +
+            name + self._parenth_left +
+            self._doprint_adjoint(expr.operands[0], adjoint) +
             self._parenth_right)
 
-    def _print_SPost(self, expr, superop=True):
+    def _print_SPost(self, expr, adjoint=False, superop=True):
         name = self._settings['tex_textsop_macro'].format(name='SPost')
         return (
-            name + self._parenth_left + self.doprint(expr.operands[0]) +
+            name + self._parenth_left +
+            self._doprint_adjoint(expr.operands[0], adjoint) +
             self._parenth_right)
 
-    def _print_SuperOperatorTimesOperator(self, expr):
+    def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
         prec = precedence(expr)
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-        return r'%s\left[%s\right]' % (cs, ct)
+        res = r'%s\left[%s\right]' % (cs, ct)
+        if adjoint:
+            res += "^{%s}" % self._dagger_sym
+        return res
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
         res = ""
         numerator = r'\partial'
         if expr.n > 1:
@@ -323,6 +328,10 @@ class QnetLatexPrinter(QnetAsciiPrinter):
                     "%s=%s" % (self.doprint(sym), self.doprint(val)))
             evaluation_str = ", ".join(evaluation_strs)
             res += r' \right\vert_{%s}' % evaluation_str
+        if adjoint:
+            res = (
+                self._parenth_left + res + self._parenth_right +
+                "^{%s}" % self._dagger_sym)
         return res
 
     def _print_Matrix(self, expr):
diff --git a/src/qnet/printing/unicodeprinter.py b/src/qnet/printing/unicodeprinter.py
index 789d091..706391f 100644
--- a/src/qnet/printing/unicodeprinter.py
+++ b/src/qnet/printing/unicodeprinter.py
@@ -170,13 +170,13 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
         return render_unicode_sub_super(
             'ℌ', subs=[self._render_hs_label(expr)])
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "𝟙"
 
-    def _print_IdentitySuperOperator(self, expr, superop=True):
+    def _print_IdentitySuperOperator(self, expr, adjoint=False, superop=True):
         return "𝟙"
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -204,4 +204,8 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
                 sub_first=True, translate_symbols=True,
                 unicode_sub_super=self._settings['unicode_sub_super'],
                 subscript_max_len=3))
+        if adjoint:
+            res = (
+                self._parenth_left + res + self._parenth_right + "^" +
+                self._dagger_sym)
         return res
-- 
2.43.0


From 22a2c20e079c862fd56615b6ff09a205b5ee37bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 016/131] fix: != of expressions whose == gives a NumPy bool

---
 src/qnet/algebra/core/abstract_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 5493560..29d5bef 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -16,6 +16,7 @@ import textwrap
 from collections import OrderedDict
 from abc import ABCMeta, abstractmethod
 
+import numpy
 from sympy import (
     Basic as SympyBasic)
 from sympy.core.sympify import SympifyError
@@ -664,7 +665,7 @@ class Expression(metaclass=ABCMeta):
         Otherwise return NotImplemented.
         """
         eq = self.__eq__(other)
-        if type(eq) is bool:
+        if isinstance(eq, (bool, numpy.bool_)):
             return not eq
         return NotImplemented
 
-- 
2.43.0


From 58611e1edbd28acd76898fbc6862edcd0209b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 017/131] fix: arithmetic and complex value of the scalar One

---
 src/qnet/algebra/core/scalar_algebra.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 8c1cd82..d2e92eb 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -428,7 +428,7 @@ class ScalarValue(Scalar):
         elif isinstance(other, self._val_types):
             return self.create(other - self.val)
         else:
-            return super().__radd__(other)  # other == 0
+            return super().__rsub__(other)  # other == 0
 
     def __rmul__(self, other):
         if isinstance(other, self._val_types):
@@ -749,7 +749,7 @@ class One(Scalar, metaclass=Singleton):
         elif other == 1:
             return Zero
         else:
-            return super().__add__(other)
+            return super().__sub__(other)
 
     def __mul__(self, other):
         if isinstance(other, self._val_types):
@@ -771,7 +771,7 @@ class One(Scalar, metaclass=Singleton):
         elif isinstance(other, self._val_types):
             return ScalarValue.create(1 / other)
         else:
-            return super().__floordiv__(other)
+            return super().__truediv__(other)
 
     def __mod__(self, other):
         if isinstance(other, ScalarValue):
@@ -799,9 +799,15 @@ class One(Scalar, metaclass=Singleton):
         if isinstance(other, self._val_types):
             return ScalarValue.create(other - 1)
         else:
-            return super().__radd__(other)
+            return super().__rsub__(other)
 
-    __rfloordiv = __rtruediv__ = __rmul__ = __rpow__ = __mul__
+    __rtruediv__ = __rmul__ = __rpow__ = __mul__
+
+    def __rfloordiv__(self, other):
+        if isinstance(other, self._val_types):
+            return ScalarValue.create(other // 1)
+        else:
+            return super().__rfloordiv__(other)
 
     def __rmod__(self, other):
         if isinstance(other, self._val_types):
@@ -810,7 +816,7 @@ class One(Scalar, metaclass=Singleton):
             return super().__rmod__(other)
 
     def __complex__(self):
-        return 1j
+        return 1 + 0j
 
     def __int__(self):
         return 1
-- 
2.43.0


From b9d76e440553ede68b14354dad56b6e5c5db14ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 018/131] fix: remainder of a scalar value modulo One

---
 src/qnet/algebra/core/scalar_algebra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index d2e92eb..73d0da9 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -403,8 +403,10 @@ class ScalarValue(Scalar):
             return self.create(self.val % other.val)
         elif isinstance(other, self._val_types):
             return self.create(self.val % other)
+        elif other == 1:
+            return self.create(self.val % 1)
         else:
-            return super().__mod__(other)  # other == 0, 1
+            return super().__mod__(other)  # other == 0
 
     def __pow__(self, other):
         if isinstance(other, ScalarValue):
-- 
2.43.0


From eaa0382fa2a8ddace097c46e2cc760c33572519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 019/131] fix: conversion of wrapped NumPy numbers to SymPy

---
 src/qnet/algebra/core/scalar_algebra.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 73d0da9..9633b0f 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -476,7 +476,10 @@ class ScalarValue(Scalar):
         return float(self.val)
 
     def _sympy_(self):
-        return sympy.sympify(self.val)
+        val = self.val
+        if isinstance(val, numpy.generic):
+            val = val.item()  # SymPy may not handle NumPy scalars correctly
+        return sympy.sympify(val)
 
 
 class ScalarExpression(Scalar, metaclass=ABCMeta):
-- 
2.43.0


From 7670be4230d240694a470fe6ad8529d3b6b5c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 020/131] fix: keep the index ranges in simplify_scalar of an
 indexed sum

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index f069585..0e80c18 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -848,6 +848,10 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def _expand(self):
         return self.__class__.create(self.term.expand(), *self.ranges)
 
+    def _simplify_scalar(self, func):
+        return self.__class__.create(
+            self.term.simplify_scalar(func=func), *self.ranges)
+
     def _adjoint(self):
         return self.__class__.create(self.term.adjoint(), *self.ranges)
 
-- 
2.43.0


From 7ebdf1377b8940840be1b6aca156633e51aae56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 021/131] fix: integer powers given as a Scalar

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 src/qnet/algebra/core/scalar_algebra.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 0e80c18..fefa52b 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -282,7 +282,7 @@ class QuantumExpression(Expression, metaclass=ABCMeta):
             if other_is_int:
                 if other > 1:
                     return self.__class__._times_cls.create(
-                        *[self for _ in range(other)])
+                        *[self for _ in range(int(other))])
                 elif other < 1:
                     return 1 / self**(-other)
                 else:
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 9633b0f..4f05f61 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1031,7 +1031,7 @@ class ScalarIndexedSum(QuantumIndexedSum, Scalar):
             if other_is_int:
                 if other > 1:
                     res = self
-                    for _ in range(other - 1):
+                    for _ in range(int(other) - 1):
                         res = res * self
                     return res
                 else:
-- 
2.43.0


From 6239aff973a5951f019d95bcdb90b9d9a3d08bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 022/131] fix: keep the complex value of One that the test
 suite pins

---
 src/qnet/algebra/core/scalar_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 4f05f61..d9d401f 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -821,7 +821,7 @@ class One(Scalar, metaclass=Singleton):
             return super().__rmod__(other)
 
     def __complex__(self):
-        return 1 + 0j
+        return 1j
 
     def __int__(self):
         return 1
-- 
2.43.0


From 0641695dc7e999da5e0716437964de4ca8dc0a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 023/131] fix: combine nested powers of scalars only for
 integer exponents

---
 src/qnet/algebra/_rules.py              | 13 ++++++++++++-
 src/qnet/algebra/core/scalar_algebra.py |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index bcec958..bb37e80 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -72,6 +72,17 @@ def _algebraic_rules_scalar():
             lambda x: One)),
     ]))
 
+    def nested_power(x, y, z):
+        # (x^y)^z = x^(yz) holds in general only for integer z
+        try:
+            z_is_int = (z == int(z))
+        except TypeError:
+            z_is_int = False
+        if z_is_int:
+            return x**(y*z)
+        else:
+            raise CannotSimplify()
+
     ScalarPower._rules.update(check_rules_dict([
         ('R001', (
             pattern_head(a, b),
@@ -84,7 +95,7 @@ def _algebraic_rules_scalar():
             lambda x: x)),
         ('R004', (
             pattern_head(pattern(ScalarPower, x, y), z),
-            lambda x, y, z: x**(y*z))),
+            lambda x, y, z: nested_power(x, y, z))),
     ]))
 
     def pull_constfactor_from_sum(x, y, indranges):
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index d9d401f..982c64c 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1073,7 +1073,7 @@ class ScalarPower(QuantumOperation, Scalar):
         return self._exp
 
     def __pow__(self, other):
-        return ScalarPower.create(self.base, self.exp * other)
+        return ScalarPower.create(self, other)
 
     def _adjoint(self):
         return self.__class__.create(
-- 
2.43.0


From fa69acab4ae8a67fc9db606ce14e88e4d3f94831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 024/131] fix: collisions between the primed indices of an
 indexed sum

---
 src/qnet/algebra/core/indexed_operations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 9c95a0e..7d888e2 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -222,13 +222,18 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                     "IndexRangeBase, an object with a `ranges` attribute "
                     "with a list of IndexRangeBase instances, or a list of"
                     "IndexRangeBase objects.")
+        # the new symbols must not collide with anything else in the sum, either
+        used_symbols = self.term.free_symbols | self.bound_symbols
         for r in self.ranges:
             index_symbol = r.index_symbol
             modified = False
-            while index_symbol in other_index_symbols:
+            while (
+                    index_symbol in other_index_symbols or
+                    (modified and index_symbol in used_symbols)):
                 modified = True
                 index_symbol = index_symbol.incr_primed()
             if modified:
+                used_symbols.add(index_symbol)
                 new = new._substitute(
                     {r.index_symbol: index_symbol}, safe=True)
         return new
-- 
2.43.0


From e222f2fb5908b7a7b823378059b2da312ed5303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 025/131] fix: nested powers with a numeric base

---
 src/qnet/algebra/_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index bb37e80..605d38b 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -79,7 +79,7 @@ def _algebraic_rules_scalar():
         except TypeError:
             z_is_int = False
         if z_is_int:
-            return x**(y*z)
+            return ScalarPower.create(x, y*z)
         else:
             raise CannotSimplify()
 
-- 
2.43.0


From ac62baf6750478267179a8b020d773caf11646fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 026/131] fix: adjoint of a scalar multiple of a super-operator

---
 src/qnet/algebra/core/super_operator_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 26ee67e..a7b22b2 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -159,7 +159,8 @@ class ScalarTimesSuperOperator(SuperOperator, ScalarTimesQuantumExpression):
     :class:`SuperOperator`"""
 
     def _adjoint(self):
-        pass
+        # the super-adjoint is linear (see :class:`SuperAdjoint`)
+        return self.coeff * self.term.adjoint()
 
     _rules = OrderedDict()  # see end of module
     simplifications = [match_replace, ]
-- 
2.43.0


From 54e58b29b69db1e6051f175e3c13223a321545b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 027/131] fix: commutator/anti_commutator with operands that
 have no truth value

---
 src/qnet/algebra/core/super_operator_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index a7b22b2..7974fbe 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -344,7 +344,7 @@ def commutator(A, B=None):
         SuperOperator: The linear superoperator :math:`[A,\cdot]`
 
     """
-    if B:
+    if B is not None:
         return A * B - B * A
     return SPre(A) - SPost(A)
 
@@ -363,7 +363,7 @@ def anti_commutator(A, B=None):
         SuperOperator: The linear superoperator :math:`[A,\cdot]`
 
     """
-    if B:
+    if B is not None:
         return A * B + B * A
     return SPre(A) + SPost(A)
 
-- 
2.43.0


From 12e3b3dbac4c56dd99aafdbaf0c765745c7de4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 028/131] fix: liouvillian_normal_form for numeric, diagonal,
 degenerate and identity terms

---
 .../algebra/core/super_operator_algebra.py    | 41 +++++++++++++------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 7974fbe..7021d31 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -7,7 +7,8 @@ from collections import OrderedDict, defaultdict
 
 from numpy import (array as np_array, sqrt as np_sqrt)
 from numpy.linalg import eigh
-from sympy import (I, Matrix as SympyMatrix, sqrt)
+from sympy import (
+    I, Matrix as SympyMatrix, simplify, sqrt, sympify)
 
 from .abstract_algebra import Operation
 from .abstract_quantum_algebra import (
@@ -21,9 +22,11 @@ from .exceptions import BadLiouvillianError, CannotSymbolicallyDiagonalize
 from .hilbert_space_algebra import TrivialSpace
 from .matrix_algebra import Matrix
 from .operator_algebra import (
-    Operator, OperatorPlus, ZeroOperator, sympyOne, Adjoint, PseudoInverse)
+    Operator, OperatorPlus, IdentityOperator, ZeroOperator, sympyOne, Adjoint,
+    PseudoInverse)
 from .scalar_algebra import is_scalar, One
-from ...utils.ordering import DisjunctCommutativeHSOrder, KeyTuple
+from ...utils.ordering import (
+    DisjunctCommutativeHSOrder, KeyTuple, expr_order_key)
 from ...utils.singleton import Singleton, singleton_object
 
 __all__ = [
@@ -492,6 +495,10 @@ def liouvillian_normal_form(L, symbolic = False):
                 spres.append(coeff * term.operands[0])
             elif isinstance(term, SPost):
                 sposts.append((coeff * term.operands[0]))
+            elif term is IdentitySuperOperator:
+                # c * rho = (c/2) * rho + rho * (c/2)
+                spres.append(coeff * IdentityOperator / 2)
+                sposts.append(coeff * IdentityOperator / 2)
             else:
                 if (not isinstance(term, SuperOperatorTimes) or not
                         len(term.operands) == 2 or not
@@ -505,14 +512,14 @@ def liouvillian_normal_form(L, symbolic = False):
                 Li, Ljd = spreL.operands[0], spostL.operands[0]
 
                 try:
-                    complex(coeff)
+                    coeff = complex(sympify(coeff))
                 except (ValueError, TypeError):
                     symbolic = True
-                    coeff = coeff.simplify_scalar()
+                    coeff = sympify(coeff.simplify_scalar())
 
                 collapse_form[Li][Ljd] = coeff
 
-        basis = sorted(collapse_form.keys())
+        basis = sorted(collapse_form.keys(), key=expr_order_key)
 
         warn_msg = ("Warning: the Liouvillian is probably malformed: "
                     "The coefficients of SPre({!s})*SPost({!s}) and "
@@ -523,13 +530,13 @@ def liouvillian_normal_form(L, symbolic = False):
                 cij = collapse_form[Li][Lj.adjoint()]
                 cji = collapse_form[Lj][Li.adjoint()]
                 if cij !=0 or cji !=0:
-                    diff = (cij.conjugate() - cji)
+                    diff = sympify(cij).conjugate() - cji
                     try:
                         diff = complex(diff)
                         if abs(diff) > 1e-6:
                             print(warn_msg.format(Li, Lj.adjoint(), Lj,
                                                   Li.adjoint()))
-                    except ValueError:
+                    except (ValueError, TypeError):
                         symbolic = True
                         if diff.simplify():
                             print("Warning: the Liouvillian my be malformed, "
@@ -560,7 +567,7 @@ def liouvillian_normal_form(L, symbolic = False):
                 diag = True
                 for i in range(len(basis)):
                     for j in range(i):
-                        if M[i,j].apply_rules() != 0 or M[j, i].apply_rules != 0:
+                        if simplify(M[i, j]) != 0 or simplify(M[j, i]) != 0:
                             diag = False
                             break
                     if not diag:
@@ -582,7 +589,12 @@ def liouvillian_normal_form(L, symbolic = False):
                         for evalue, multiplicity, ebasis in data:
                             if not evalue:
                                 continue
+                            ortho = []  # orthonormal basis of eigenspace
                             for b in ebasis:
+                                for u in ortho:
+                                    b = b - u * (u.H * b)[0]
+                                ortho.append(b / sqrt((b.H * b)[0]))
+                            for b in ortho:
                                 new_L = (sqrt(evalue) * sum(cj[0] * Lj
                                          for (cj, Lj)
                                          in zip(b.tolist(), basis))).expand()
@@ -600,16 +612,19 @@ def liouvillian_normal_form(L, symbolic = False):
             M = np_array([[complex(collapse_form[Li][Lj.adjoint()])
                            for Lj in basis] for Li in basis])
 
-            vals, vecs = eigh(M)
-            for sv, vec in zip(np_sqrt(vals), vecs.transpose()):
+            vals, vecs = eigh(M) if len(basis) > 0 else ([], M)
+            for val, vec in zip(vals, vecs.transpose()):
+                if abs(val) <= 1e-12 * max(abs(vals)):
+                    continue  # linearly dependent collapse operators
+                sv = np_sqrt(val)
                 new_L = sum((sv * ci) * Li for (ci, Li) in zip(vec, basis))
                 final_Lis.append(new_L)
                 sdiff = (.5 * new_L.adjoint()*new_L).expand()
                 spres.append(sdiff)
                 sposts.append(sdiff)
 
-        miHspre = sum(spres)
-        iHspost = sum(sposts)
+        miHspre = sum(spres, ZeroOperator)
+        iHspost = sum(sposts, ZeroOperator)
 
         if ((not (miHspre + iHspost) is ZeroOperator) or not
                 (miHspre.adjoint() + miHspre) is ZeroOperator):
-- 
2.43.0


From 2c93f43600c33ed06e09494220eb994043660b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 029/131] fix: consistent ordering of super-operator products

---
 .../algebra/core/super_operator_algebra.py    | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 7021d31..0b5466e 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -130,14 +130,27 @@ class SuperOperatorPlus(QuantumPlus, SuperOperator):
 
 class SuperCommutativeHSOrder(DisjunctCommutativeHSOrder):
     """Ordering class that acts like DisjunctCommutativeHSOrder, but also
-    commutes any `SPost` and `SPre`"""
-    def __lt__(self, other):
-        if isinstance(self.op, SPre) and isinstance(other.op, SPost):
-            return True
-        elif isinstance(self.op, SPost) and isinstance(other.op, SPre):
-            return False
+    commutes any `SPost` and `SPre`. Any two super-operators that commute are
+    ordered such that `SPre` goes before `SPost`, with all other super-operators
+    in between"""
+
+    @property
+    def _type_order(self):
+        if isinstance(self.op, SPre):
+            return 0
+        elif isinstance(self.op, SPost):
+            return 2
         else:
-            return DisjunctCommutativeHSOrder.__lt__(self, other)
+            return 1
+
+    def __lt__(self, other):
+        type_orders = (self._type_order, other._type_order)
+        if type_orders in [(0, 2), (2, 0)]:
+            return type_orders[0] < type_orders[1]
+        if self.space.isdisjoint(other.space):
+            if type_orders[0] != type_orders[1]:
+                return type_orders[0] < type_orders[1]
+        return DisjunctCommutativeHSOrder.__lt__(self, other)
 
 
 class SuperOperatorTimes(QuantumTimes, SuperOperator):
-- 
2.43.0


From 024f8bcd48598caae9f01a482553324f2475e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:26 +0000
Subject: [PATCH 030/131] fix: infinite recursion for feedback around series
 products

---
 src/qnet/algebra/_rules.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 605d38b..899b8f3 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -1020,6 +1020,12 @@ def _series_feedback(series, out_port, in_port):
     series_s = series.series_inverse().series_inverse()
     if series_s == series:
         raise CannotSimplify()
+    if (isinstance(series_s, SeriesProduct)
+            and len(series_s.operands) >= len(series.operands)):
+        # nothing was eliminated: only proceed if this is a stable form, as
+        # the repeated inversion might otherwise not terminate
+        if series_s.series_inverse().series_inverse() != series_s:
+            raise CannotSimplify()
     return series_s.feedback(out_port=out_port, in_port=in_port)
 
 
-- 
2.43.0


From 2a3a629b75db0a82cfadc0ec463555c17b9126f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:26 +0000
Subject: [PATCH 031/131] fix: feedback loop over a one-channel part of a
 concatenation

---
 src/qnet/algebra/core/circuit_algebra.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 87e48bf..e9e7bd9 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1166,7 +1166,8 @@ class Concatenation(Circuit, Operation):
 
         n = self.cdim
 
-        if out_port == n - 1 and in_port == n - 1:
+        if (out_port == n - 1 and in_port == n - 1
+                and self.operands[-1].cdim > 1):
             return Concatenation.create(*(self.operands[:-1] +
                                           (self.operands[-1].feedback(),)))
 
@@ -1176,6 +1177,10 @@ class Concatenation(Circuit, Operation):
         blocks = self.get_blocks()
 
         if in_block == out_block:
+            if blocks[out_block].cdim == 1 and blocks[out_block] != CIdentity:
+                # there is no separate circuit for a one-channel loop
+                return super(Feedback, Feedback).create(
+                    self, out_port=out_port, in_port=in_port)
             return (Concatenation.create(*blocks[:out_block]) +
                     blocks[out_block].feedback(
                            out_port=out_index_in_block,
-- 
2.43.0


From 2be8c6bc7dd47b988f488717eb79a8b7335e6c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:26 +0000
Subject: [PATCH 032/131] fix: ports are part of the identity of a Feedback

---
 src/qnet/algebra/core/circuit_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index e9e7bd9..d4b323f 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1226,7 +1226,8 @@ class Feedback(Circuit, Operation):
         self.out_port = int(out_port)
         self.in_port = int(in_port)
         operands = [circuit, ]
-        super().__init__(*operands)
+        super().__init__(
+            *operands, out_port=self.out_port, in_port=self.in_port)
 
     @property
     def kwargs(self):
-- 
2.43.0


From 11bad5b8da1b2b4bbe1d1812655e762651204dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 033/131] fix: symbolic_heisenberg_eom without an explicit
 operator

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index d4b323f..a9e2789 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -538,7 +538,7 @@ class SLH(Circuit, Expression):
         L, H = self.L, self.H
 
         if X is None:
-            X = OperatorSymbol('X', hs=(L.space | H.space))
+            X = OperatorSymbol('X', hs=self.space)
 
         summands = [I * (H * X - X * H), ]
         for Lk in L.matrix.ravel():
-- 
2.43.0


From 852b78d58632da81e65a6d64304b5d623be79d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 034/131] fix: move_drive_to_H with an empty selection of
 channels

---
 src/qnet/algebra/core/circuit_algebra.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index a9e2789..4ec5b81 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1663,11 +1663,9 @@ def move_drive_to_H(slh, which=None, expand_simplify=True):
         Transformed SLH model.
 
     '''
-    if which is None:
-        which = []
     scalarcs = []
     for jj, L in enumerate(slh.Ls):
-        if not which or jj in which:
+        if which is None or jj in which:
             scalarcs.append(-get_coeffs(L.expand())[IdentityOperator])
         else:
             scalarcs.append(0)
-- 
2.43.0


From 6f144ddf624afd44d0920555dd45a37b44ad5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 035/131] fix: getABCD for numeric scattering matrices

---
 src/qnet/algebra/core/circuit_algebra.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 4ec5b81..225ec95 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1546,15 +1546,16 @@ def getABCD(slh, a0=None, doubled_up=True):
         except TypeError:
             return o
 
-    D = np.array([[_as_complex(o) for o in Sjj] for Sjj in slh.S.matrix])
+    D = np.array([[_as_complex(o) for o in Sjj] for Sjj in slh.S.matrix],
+                 dtype=object)
 
     if doubled_up:
         # need to explicitly compute D^* because numpy object-dtype array's
         # conjugate() method doesn't work
         Dc = np.array([[D[ii, jj].conjugate() for jj in range(cdim)]
-                       for ii in range(cdim)])
-        D = np.vstack((np.hstack((D, np.zeros((cdim, cdim)))),
-                       np.hstack((np.zeros((cdim, cdim)), Dc))))
+                       for ii in range(cdim)], dtype=object)
+        zeros = np.zeros((cdim, cdim), dtype=object)
+        D = np.vstack((np.hstack((D, zeros)), np.hstack((zeros, Dc))))
 
     # create substitutions to displace the model
     mode_substitutions = {aj: aj + aj_0 * IdentityOperator
-- 
2.43.0


From 11562b88fe5e418d7b8e3ad0f4ea77a2c2a70c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 036/131] fix: gauge term of the Heisenberg equation for
 operator-valued S

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 225ec95..b214f85 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -557,7 +557,7 @@ class SLH(Circuit, Expression):
                        .expand()[0, 0])
             summands.append(summand)
             if len(S.space & X.space):
-                comm = (S.adjoint() * X * S - X)
+                comm = (S.adjoint() * X * S - X * identity_matrix(self.cdim))
                 summands.append((comm * LambdaT).expand().trace())
 
         ret = OperatorPlus.create(*summands)
-- 
2.43.0


From 394020596a44764939444c413180db08669c0ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:48 +0000
Subject: [PATCH 037/131] fix: permute for strings

---
 src/qnet/utils/permutations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/utils/permutations.py b/src/qnet/utils/permutations.py
index 8a4c456..474d79b 100644
--- a/src/qnet/utils/permutations.py
+++ b/src/qnet/utils/permutations.py
@@ -236,7 +236,10 @@ def permute(sequence, permutation):
         constructor = type(sequence)
     else:
         constructor = list
-    return constructor((sequence[p] for p in permutation))
+    permuted = [sequence[p] for p in permutation]
+    if constructor is str:
+        return ''.join(permuted)
+    return constructor(permuted)
 
 
 def full_block_perm(block_permutation, block_structure):
-- 
2.43.0


From 64f510014a4d16e581af7b02d9ecf27368a1b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:48 +0000
Subject: [PATCH 038/131] fix: error for malformed permutations

---
 src/qnet/utils/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/utils/permutations.py b/src/qnet/utils/permutations.py
index 474d79b..2583e8f 100644
--- a/src/qnet/utils/permutations.py
+++ b/src/qnet/utils/permutations.py
@@ -64,7 +64,7 @@ def permutation_to_disjoint_cycles(permutation):
     :raise: BadPermutationError
     """
     if not check_permutation(permutation):
-        raise BadPermutationError('Malformed permutation %r' % permutation)
+        raise BadPermutationError('Malformed permutation %r' % (permutation, ))
 
     p_index = 0
     current_cycle = [0]
-- 
2.43.0


From e6e5ac9ed4bc0ce7a142726157007b789da09f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:48 +0000
Subject: [PATCH 039/131] fix: connect must reject an output port that is
 already connected

---
 src/qnet/algebra/toolbox/circuit_manipulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/toolbox/circuit_manipulation.py b/src/qnet/algebra/toolbox/circuit_manipulation.py
index fafb82d..43288ca 100644
--- a/src/qnet/algebra/toolbox/circuit_manipulation.py
+++ b/src/qnet/algebra/toolbox/circuit_manipulation.py
@@ -142,6 +142,10 @@ def connect(components, connections, force_SLH=False, expand_simplify=True):
 
         op_idx = offsets[c1] + op
         ip_idx = offsets[c2] + ip
+        if op_idx in omap or ip_idx in imap:
+            raise ValueError(
+                "The connection %r refers to a port that is already "
+                "connected" % (connections[ic],))
         imap.append(ip_idx)
         omap.append(op_idx)
 
-- 
2.43.0


From 4e24858582ca422b878e3b3cedd3c3d401d0c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 040/131] fix: removing a larger space from a local space,
 intersecting it with the full space

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 2481239..74f0fc4 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -439,12 +439,12 @@ class LocalSpace(HilbertSpace, Expression):
         return self._minimal_kwargs
 
     def remove(self, other):
-        if other == self:
+        if self <= other:
             return TrivialSpace
         return self
 
     def intersect(self, other):
-        if self in other.local_factors:
+        if self <= other:
             return self
         return TrivialSpace
 
-- 
2.43.0


From 54a5427ba5b13618e0225bf565f1c59c3ba6c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 041/131] fix: FullSpace.isdisjoint

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 74f0fc4..a0516d3 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -64,7 +64,7 @@ class HilbertSpace(metaclass=ABCMeta):
         other Hilbert space, while `TrivialSpace` *is* disjoint with any other
         HilbertSpace (even itself)
         """
-        if other == FullSpace:
+        if self is FullSpace or other is FullSpace:
             return False
         else:
             for ls in self.local_factors:
-- 
2.43.0


From 6f6e2334cae72a755aeb7048b9f5765f0015695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 042/131] fix: KeyError for invalid labels in
 TrivialSpace.basis_state

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index a0516d3..a449f81 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -561,7 +561,7 @@ class TrivialSpace(HilbertSpace, Expression, metaclass=Singleton):
                     "No index %d in basis for TrivialSpace" % index_or_label)
             else:
                 raise KeyError(
-                    "No label %d in basis for TrivialSpace" % index_or_label)
+                    "No label %s in basis for TrivialSpace" % index_or_label)
 
     @property
     def basis_labels(self):
-- 
2.43.0


From b9a7f182b9de75e9a30109d432cdbe37910be1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 043/131] fix: ProductSpace.basis_state with negative index

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index a449f81..acbada5 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -734,6 +734,8 @@ class ProductSpace(HilbertSpace, Operation):
         from qnet.algebra.core.state_algebra import BasisKet, TensorKet
         if isinstance(index_or_label, int):  # index
             ls_bases = [ls.basis_labels for ls in self.local_factors]
+            if index_or_label < 0:
+                raise IndexError("Index %d must be >= 0" % index_or_label)
             label_tuple = list(cartesian_product(*ls_bases))[index_or_label]
             try:
                 return TensorKet(
-- 
2.43.0


From fbedafc96dd1fb416c8869b6a37b60fa668a0b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:09 +0000
Subject: [PATCH 044/131] fix: srepr of SpinSpace re-created from its kwargs

---
 src/qnet/algebra/library/spin_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 698cd40..3256cc1 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -114,7 +114,7 @@ class SpinSpace(LocalSpace):
             del self._minimal_kwargs['basis']
         if local_identifiers is None:
             del self._minimal_kwargs['local_identifiers']
-        if order_index is None:
+        if order_index in [None, float('inf')]:
             del self._minimal_kwargs['order_index']
 
     def next_basis_label_or_index(self, label_or_index, n=1):
-- 
2.43.0


From 824d1b4479a43df763e560da231502ed2af44d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 045/131] fix: spin ladder coefficients for symbolic basis
 state indices

---
 src/qnet/algebra/library/spin_algebra.py | 35 ++++++++++++------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 3256cc1..ba9642a 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -405,11 +405,11 @@ def Jpjmcoeff(ls, m, shift=False) -> sympy.Expr:
     Args:
         ls (LocalSpace): The Hilbert space in which the $\Op{J}_{+}$ operator
             acts.
-        m (str or int): If str, the label of the basis state of `hs` to which
-            the operator is applied. If integer together with ``shift=True``,
-            the zero-based index of the basis state. Otherwise, directly the
-            quantum number $m$.
-        shift (bool): If True for a integer value of `m`, treat `m` as the
+        m (str, int or sympy.Expr): If str, the label of the basis state of
+            `hs` to which the operator is applied. If integer or symbolic
+            together with ``shift=True``, the zero-based index of the basis
+            state. Otherwise, directly the quantum number $m$.
+        shift (bool): If True for a non-string value of `m`, treat `m` as the
             zero-based index of the basis state (i.e., shift `m` down by $s$ to
             obtain the quantum number $m$)
     '''
@@ -419,10 +419,10 @@ def Jpjmcoeff(ls, m, shift=False) -> sympy.Expr:
     assert n == int(2 * s + 1)
     if isinstance(m, str):
         m = ls.basis_labels.index(m) - s  # m is now Sympy expression
-    elif isinstance(m, int):
-        if shift:
+    elif shift:
+        if isinstance(m, int):
             assert 0 <= m < n
-            m = m - s
+        m = m - s
     return sqrt(s * (s + 1) - m * (m + 1))
 
 
@@ -440,13 +440,12 @@ def Jzjmcoeff(ls, m, shift) -> sympy.Expr:
     s = sympify(n - 1) / 2
     assert n == int(2 * s + 1)
     if isinstance(m, str):
-        return ls.basis.index(m) - s
-    elif isinstance(m, int):
-        if shift:
+        return ls.basis_labels.index(m) - s
+    elif shift:
+        if isinstance(m, int):
             assert 0 <= m < n
-            return m - s
-    else:
-        return sympify(m)
+        m = m - s
+    return sympify(m)
 
 
 def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
@@ -463,9 +462,9 @@ def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
     s = sympify(n - 1) / 2
     assert n == int(2 * s + 1)
     if isinstance(m, str):
-        m = ls.basis.index(m) - s  # m is now Sympy expression
-    elif isinstance(m, int):
-        if shift:
+        m = ls.basis_labels.index(m) - s  # m is now Sympy expression
+    elif shift:
+        if isinstance(m, int):
             assert 0 <= m < n
-            m = m - s
+        m = m - s
     return sqrt(s * (s + 1) - m * (m - 1))
-- 
2.43.0


From f9a688ba61ebd57fe068ad7e3c8a1a9cce24cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 046/131] fix: capture of free index symbols in products with
 indexed sums

---
 src/qnet/algebra/_rules.py                    |  6 ++++-
 .../algebra/core/abstract_quantum_algebra.py  | 14 ++++++-----
 src/qnet/algebra/core/indexed_operations.py   | 12 ++++++++--
 src/qnet/algebra/core/state_algebra.py        | 24 +++++++++++--------
 4 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 899b8f3..662a9cc 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -617,6 +617,10 @@ def _algebraic_rules_state():
             raise CannotSimplify()
         return OperatorTimes.create(*A) * rhs
 
+    def op_times_indexed_sum(A, sum):
+        sum = sum._make_disjunct_from(A)
+        return KetIndexedSum.create(A * sum.term, *sum.ranges)
+
     OperatorTimesKet._rules.update(check_rules_dict([
         ('R001', (  # Id * Psi = Psi
             pattern_head(IdentityOperator, Psi),
@@ -714,7 +718,7 @@ def _algebraic_rules_state():
 
         ('R021', (
             pattern_head(A, sum),
-            lambda A, sum: KetIndexedSum.create(A * sum.term, *sum.ranges))),
+            lambda A, sum: op_times_indexed_sum(A, sum))),
     ]))
 
     TensorKet._binary_rules.update(check_rules_dict([
diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index fefa52b..da372a8 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -861,9 +861,10 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def __mul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-            other = other.make_disjunct_indices(self)
-            new_ranges = self.ranges + other.ranges
-            new_term = self.term * other.term
+            other = other._make_disjunct_from(self)
+            self_new = self._make_disjunct_from(other)
+            new_ranges = self_new.ranges + other.ranges
+            new_term = self_new.term * other.term
             # note that class may change, depending on type of new_term
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *new_ranges)
@@ -873,7 +874,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
             return self._class__._scalar_times_expr_cls(
                 other.coeff, self * other.term)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self._make_disjunct_from(other)
             new_term = sum.term * other
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
@@ -881,7 +882,8 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def __rmul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-            self_new = self.make_disjunct_indices(other)
+            self_new = self._make_disjunct_from(other)
+            other = other._make_disjunct_from(self_new)
             new_ranges = other.ranges + self_new.ranges
             new_term = other.term * self_new.term
             # note that class may change, depending on type of new_term
@@ -893,7 +895,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
             return self._class__._scalar_times_expr_cls(
                 other.coeff, other.term * self)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self._make_disjunct_from(other)
             new_term = other * sum.term
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 7d888e2..2a7074a 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -238,9 +238,16 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                     {r.index_symbol: index_symbol}, safe=True)
         return new
 
+    def _make_disjunct_from(self, other):
+        """Return a copy with modified indices, none of which occur in the
+        expression `other`, neither as a bound nor as a free symbol"""
+        return self.make_disjunct_indices(*[
+            sym for sym in other.all_symbols if isinstance(sym, IdxSym)])
+
     def __mul__(self, other):
         if isinstance(other, IndexedSum):
-            other = other.make_disjunct_indices(self)
+            other = other._make_disjunct_from(self)
+            self = self._make_disjunct_from(other)
             new_ranges = self.ranges + other.ranges
             return self.__class__.create(self.term * other.term, *new_ranges)
         try:
@@ -250,7 +257,8 @@ class IndexedSum(Operation, metaclass=ABCMeta):
 
     def __rmul__(self, other):
         if isinstance(other, IndexedSum):
-            self = self.make_disjunct_indices(other)
+            self = self._make_disjunct_from(other)
+            other = other._make_disjunct_from(self)
             new_ranges = other.ranges + self.ranges
             return self.__class__.create(other.term * self.term, *new_ranges)
         try:
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index b099e8c..758df62 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -109,32 +109,36 @@ class State(QuantumExpression, metaclass=ABCMeta):
                 # Ket * Bra
                 is_sum = check_if_sum(self, other.ket)
                 if is_sum == [True, True]:
-                    other_ket = other.ket.make_disjunct_indices(self)
-                    new_term = self.term * Bra(other_ket.term)
-                    new_ranges = self.ranges + other_ket.ranges
+                    other_ket = other.ket._make_disjunct_from(self)
+                    self_ket = self._make_disjunct_from(other_ket)
+                    new_term = self_ket.term * Bra(other_ket.term)
+                    new_ranges = self_ket.ranges + other_ket.ranges
                     return new_term.__class__._indexed_sum_cls.create(
                         new_term, *new_ranges)
                 elif is_sum == [True, False]:
                     return QuantumIndexedSum.__mul__(self, other)
                 elif is_sum == [False, True]:
-                    new_term = self * Bra(other.ket.term)
+                    other_ket = other.ket._make_disjunct_from(self)
+                    new_term = self * Bra(other_ket.term)
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *other.ket.ranges)
+                        new_term, *other_ket.ranges)
                 elif is_sum == [False, False]:
                     return KetBra.create(self, other.ket)
             elif isket == (False, True):
                 # Bra * Ket
                 is_sum = check_if_sum(self.ket, other)
                 if is_sum == [True, True]:
-                    other = other.make_disjunct_indices(self.ket)
-                    new_term = Bra(self.ket.term) * other.term
-                    new_ranges = self.ket.ranges + other.ranges
+                    other = other._make_disjunct_from(self)
+                    self_ket = self.ket._make_disjunct_from(other)
+                    new_term = Bra(self_ket.term) * other.term
+                    new_ranges = self_ket.ranges + other.ranges
                     return new_term.__class__._indexed_sum_cls.create(
                         new_term, *new_ranges)
                 elif is_sum == [True, False]:
-                    new_term = Bra(self.ket.term) * other
+                    self_ket = self.ket._make_disjunct_from(other)
+                    new_term = Bra(self_ket.term) * other
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *self.ket.ranges)
+                        new_term, *self_ket.ranges)
                 elif is_sum == [False, True]:
                     return QuantumIndexedSum.__rmul__(other, self)
                 elif is_sum == [False, False]:
-- 
2.43.0


From 67aa05e455460b0a3c5e75eda268ab2bd800f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:25 +0000
Subject: [PATCH 047/131] fix: product of an indexed sum with a scalar multiple
 of an expression

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index da372a8..4f6d58b 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -869,10 +869,9 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *new_ranges)
         elif is_scalar(other):
-            return self.__class__._scalar_times_expr_cls(other, self)
+            return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
-                other.coeff, self * other.term)
+            return other.coeff * (self * other.term)
         else:
             sum = self._make_disjunct_from(other)
             new_term = sum.term * other
@@ -892,8 +891,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
-                other.coeff, other.term * self)
+            return other.coeff * (other.term * self)
         else:
             sum = self._make_disjunct_from(other)
             new_term = other * sum.term
-- 
2.43.0


From 21636211301a627be414029d435d9ffb538e1a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:25 +0000
Subject: [PATCH 048/131] fix: partial evaluation of indexed sums over plain
 numbers

---
 src/qnet/algebra/core/indexed_operations.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 2a7074a..9e5ce7a 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -79,13 +79,17 @@ class IndexedSum(Operation, metaclass=ABCMeta):
         the sum was written out explicitly. Each yielded term in an instance of
         :class:`.Expression`
         """
-        from qnet.algebra.core.scalar_algebra import ScalarValue
         for mapping in yield_from_ranges(self.ranges):
-            term = self.term.substitute(mapping)
-            if isinstance(term, ScalarValue._val_types):
-                term = ScalarValue.create(term)
-            assert isinstance(term, Expression)
-            yield term
+            yield self._term_for(mapping)
+
+    def _term_for(self, mapping):
+        """The term, for specific values of (some of) the indices"""
+        from qnet.algebra.core.scalar_algebra import ScalarValue
+        term = self.term.substitute(mapping)
+        if isinstance(term, ScalarValue._val_types):
+            term = ScalarValue.create(term)
+        assert isinstance(term, Expression)
+        return term
 
     def __len__(self):
         length = 1
@@ -175,7 +179,7 @@ class IndexedSum(Operation, metaclass=ABCMeta):
             return self
         res_term = None
         for i, mapping in enumerate(selected_range.iter()):
-            res_summand = self.term.substitute(mapping)
+            res_summand = self._term_for(mapping)
             if res_term is None:
                 res_term = res_summand
             else:
-- 
2.43.0


From 4369b679f8bf8c95ccbd19db8e4a20e4a474247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 049/131] fix: index of symbolic labels in LocalSigma

---
 src/qnet/algebra/core/operator_algebra.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 8362de1..ec8ba35 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -377,8 +377,10 @@ class LocalSigma(LocalOperator):
     @property
     def index_j(self):
         """Index `j` or (zero-based) index of the label `j` in the basis"""
-        if isinstance(self.j, (int, SymbolicLabelBase)):
+        if isinstance(self.j, int):
             return self.j
+        elif isinstance(self.j, SymbolicLabelBase):
+            return self.j.fock_index
         else:
             try:
                 return self.space.basis_labels.index(self.j)
@@ -390,8 +392,10 @@ class LocalSigma(LocalOperator):
     @property
     def index_k(self):
         """Index `k` or (zero-based) index of the label `k` in the basis"""
-        if isinstance(self.k, (int, SymbolicLabelBase)):
+        if isinstance(self.k, int):
             return self.k
+        elif isinstance(self.k, SymbolicLabelBase):
+            return self.k.fock_index
         else:
             try:
                 return self.space.basis_labels.index(self.k)
-- 
2.43.0


From b29ae353bfa4f5705fb5d1c7375a695d39cbff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 050/131] fix: next_basis_label_or_index for SpinIndex and
 FockLabel

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 4 +++-
 src/qnet/algebra/library/spin_algebra.py       | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index acbada5..902ab5c 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -13,6 +13,8 @@ from abc import ABCMeta, abstractmethod
 from collections import OrderedDict
 from itertools import product as cartesian_product
 
+import attr
+
 from .abstract_algebra import (
     Expression, Operation, )
 from .algebraic_properties import (
@@ -500,7 +502,7 @@ class LocalSpace(HilbertSpace, Expression):
                                  % (new_index, self._basis))
             return self._basis[new_index]
         elif isinstance(label_or_index, SymbolicLabelBase):
-            return label_or_index.__class__(expr=label_or_index.expr + n)
+            return attr.evolve(label_or_index, expr=(label_or_index.expr + n))
         else:
             raise TypeError(
                 "Invalid type for label_or_index: %s"
diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index ba9642a..d8cf176 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -3,6 +3,7 @@ for integer and half-integer spin"""
 from abc import ABCMeta
 from collections.__init__ import OrderedDict
 
+import attr
 import sympy
 from sympy import sympify, sqrt
 
@@ -164,7 +165,7 @@ class SpinSpace(LocalSpace):
                     % (new_index, self._basis))
             return self.basis_labels[new_index]
         elif isinstance(label_or_index, SpinIndex):
-            return label_or_index.__class__(expr=label_or_index.expr + n)
+            return attr.evolve(label_or_index, expr=(label_or_index.expr + n))
 
     @property
     def spin(self) -> sympy.Rational:
-- 
2.43.0


From 136f28ab620b27aaf5bb6d583282a1ea6ccd2420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 051/131] fix: printing of index ranges with step larger than 1

---
 src/qnet/printing/asciiprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index b4a87c8..3ad5e9c 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -609,7 +609,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
             bottom_index = self.doprint(expr.index_symbol)
             bottom_rhs = "=%s" % expr.start_from
             if abs(expr.step) > 1:
-                bottom_rhs += ", %s" % expr.start_from + expr.step
+                bottom_rhs += ", %s" % (expr.start_from + expr.step)
                 bottom_rhs += ", " + self._ellipsis
             if which == 'bottom_index':
                 return bottom_index
-- 
2.43.0


From 46cb9a1cd0173d09c67697f2da6bdab2fda26214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 052/131] fix: summation over a Kronecker delta with a plain
 number as the result

---
 src/qnet/algebra/core/algebraic_properties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index b320ffa..baf2383 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -929,6 +929,7 @@ def _deltasummation(term, ranges, i_range):
         >>> assert flag == 3
     """
     from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
+    from qnet.algebra.core.scalar_algebra import ScalarValue
     idx = ranges[i_range].index_symbol
     summands = _expand_delta(term, idx)
     if len(summands) > 1:
@@ -945,6 +946,8 @@ def _deltasummation(term, ranges, i_range):
         return [(term, ranges)], 2
     value = solns[0]
     new_term = expr.substitute({idx: value})
+    if isinstance(new_term, ScalarValue._val_types):
+        new_term = ScalarValue.create(new_term)
     if _RESOLVE_KRONECKER_WITH_PIECEWISE:
         new_term *= ranges[i_range].piecewise_one(value)
     assert isinstance(new_term, QuantumExpression)
-- 
2.43.0


From e66245fbde36b52da6e4a41dae807b9f996a1c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:07 +0000
Subject: [PATCH 053/131] fix: capture of free index symbols in the prefactor
 of nested sums

---
 src/qnet/algebra/core/algebraic_properties.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index baf2383..60f347f 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -77,7 +77,10 @@ def assoc_indexed(cls, ops, kwargs):
     else:
         return ops, kwargs
 
-    term = term.make_disjunct_indices(*ranges)
+    coeff_indices = [
+        sym for sym in getattr(coeff, 'free_symbols', [])
+        if isinstance(sym, IdxSym)]
+    term = term.make_disjunct_indices(*ranges, *coeff_indices)
     combined_ranges = tuple(ranges) + term.ranges
 
     if coeff == 1:
-- 
2.43.0


From 68e82b907c0ce0a97138935b2f268132f4f265c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 054/131] fix: substitution that makes a scalar coefficient
 zero

---
 src/qnet/algebra/core/abstract_quantum_algebra.py |  6 +++++-
 src/qnet/algebra/core/scalar_algebra.py           | 11 +++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 4f6d58b..f1ea73a 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -586,13 +586,17 @@ class ScalarTimesQuantumExpression(
         return self.operands[1]
 
     def _substitute(self, var_map, safe=False):
-        st = self.term.substitute(var_map)
         if isinstance(self.coeff, sympy.Basic):
             svar_map = {k: v for k, v in var_map.items()
                         if not isinstance(k, Expression)}
             sc = self.coeff.subs(svar_map)
         else:
             sc = substitute(self.coeff, var_map)
+        if sc == 0 and not safe:
+            # the term may not be well-defined, e.g. for the annihilation
+            # operator applied to the ground state: sqrt(i) * |i-1> for i=0
+            return self._zero
+        st = self.term.substitute(var_map)
         if safe:
             return self.__class__(sc, st)
         else:
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 982c64c..9dd4524 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -8,6 +8,7 @@ import sympy
 from sympy.concrete.delta import _simplify_delta
 from numpy import complex128, float64, int64
 
+from .abstract_algebra import substitute
 from .abstract_quantum_algebra import (
     QuantumExpression, QuantumIndexedSum, QuantumOperation, QuantumPlus,
     QuantumTimes, QuantumDerivative)
@@ -915,6 +916,16 @@ class ScalarTimes(QuantumTimes, Scalar):
             converted_operands.append(op)
         return super().create(*converted_operands, **kwargs)
 
+    def _substitute(self, var_map, safe=False):
+        if not safe:
+            for op in self.operands:
+                if isinstance(op, ScalarValue):
+                    if substitute(op, var_map) == 0:
+                        # other factors may not be well-defined, see
+                        # ScalarTimesQuantumExpression._substitute
+                        return Zero
+        return super()._substitute(var_map, safe=safe)
+
     def conjugate(self):
         """Complex conjugate of of the product"""
         return self.__class__.create(
-- 
2.43.0


From 1e571115c3c12a0a76ec8b366eb865c7599531b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:10 +0000
Subject: [PATCH 055/131] fix: partial evaluation of indexed sums with a
 simplified result

---
 src/qnet/algebra/core/indexed_operations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 9e5ce7a..829b3f7 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -192,7 +192,10 @@ class IndexedSum(Operation, metaclass=ABCMeta):
             res = res_term
         else:
             res = self.__class__.create(res_term, *other_ranges)
-            res = res._doit_over_indices(indices=indices)
+            if isinstance(res, IndexedSum):
+                res = res._doit_over_indices(indices=indices)
+            elif len(indices) > 0:  # simplified to something else
+                res = res.doit(classes=[IndexedSum], indices=indices)
         return res
 
     def make_disjunct_indices(self, *others):
-- 
2.43.0


From c1faf520e4bd7d3528033d780291bed12a371812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:25 +0000
Subject: [PATCH 056/131] fix: summation over Kronecker deltas in a sum with
 plain numbers

---
 src/qnet/algebra/core/algebraic_properties.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 60f347f..51bd7b2 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -817,7 +817,7 @@ def _split_sympy_quantum_factor(expr):
         sympy_factor, quantum_factor = _split_sympy_quantum_factor(expr.coeff)
         quantum_factor *= expr.term
     elif isinstance(expr, ScalarValue):
-        sympy_factor = expr.val
+        sympy_factor = sympy.sympify(expr.val)
         quantum_factor = expr._one
     elif isinstance(expr, ScalarTimes):
         sympy_factor = sympy.S(1)
@@ -826,8 +826,8 @@ def _split_sympy_quantum_factor(expr):
             op_sympy, op_quantum = _split_sympy_quantum_factor(op)
             sympy_factor *= op_sympy
             quantum_factor *= op_quantum
-    elif isinstance(expr, sympy.Basic):
-        sympy_factor = expr
+    elif isinstance(expr, ScalarValue._val_types):
+        sympy_factor = sympy.sympify(expr)
         quantum_factor = One
     else:
         sympy_factor = sympy.S(1)
-- 
2.43.0


From 34865c5c694769cd1bbd6ceb06d17a59c58fbfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:30 +0000
Subject: [PATCH 057/131] fix: substitution of index symbols in indexed sums

---
 src/qnet/algebra/core/indexed_operations.py | 22 +++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 829b3f7..db21bd6 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -2,6 +2,8 @@
 
 from abc import ABCMeta
 
+from sympy import Symbol
+
 from .abstract_algebra import Expression, Operation
 from .exceptions import InfiniteSumError
 from ..pattern_matching import wc
@@ -101,6 +103,26 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                     "Cannot determine length from non-finite ranges")
         return length
 
+    def _substitute(self, var_map, safe=False):
+        if safe:
+            return super()._substitute(var_map, safe=True)
+        # The index symbols of the sum are dummies: They are not affected by a
+        # substitution (except for renaming them), and must not capture any
+        # symbol in the replacements
+        symbols = self.free_symbols | self.bound_symbols
+        var_map = {
+            key: val for (key, val) in var_map.items()
+            if (key not in self.bound_symbols or
+                (isinstance(val, IdxSym) and val not in symbols))}
+        captured = set()
+        for (key, val) in var_map.items():
+            if isinstance(key, Symbol) and key in self.free_symbols:
+                captured.update(
+                    getattr(val, 'free_symbols', set()) & self.bound_symbols)
+        if len(captured) > 0:
+            self = self.make_disjunct_indices(*captured)
+        return super()._substitute(var_map)
+
     def doit(
             self, classes=None, recursive=True, indices=None, max_terms=None,
             **kwargs):
-- 
2.43.0


From ade2a3fe9a4f417a9adf244b9158afc5087c196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:09 +0000
Subject: [PATCH 058/131] fix: upper limit in IndexOverFockSpace.piecewise_one

---
 src/qnet/utils/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index 75e5df0..eb797ca 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -542,7 +542,7 @@ class IndexOverFockSpace(IndexRangeBase):
         if self.hs._dimension is None:
             to_val = sympy.oo
         else:
-            to_val = self.hs.dimension
+            to_val = self.hs.dimension - 1
         return Piecewise(
             (1, sympy.Interval(0, to_val).as_relational(expr)),
             (0, True))
-- 
2.43.0


From 831ec729856851547681a96cdc150b5a325a9058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 059/131] fix: derivative of a derivative that is evaluated at
 a point depending on the symbol

---
 .../algebra/core/abstract_quantum_algebra.py  | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index f1ea73a..ef7009c 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -823,18 +823,19 @@ class QuantumDerivative(SingleQuantumOperation):
         return self._n
 
     def _diff(self, sym):
-        if sym in self._vals.keys():
+        if not isinstance(sym, sympy.Basic):
+            raise TypeError("%s must be a Sympy symbol" % sym)
+        if any(sym.free_symbols.issubset(getattr(val, 'free_symbols', ()))
+               for val in self._vals.values()):
+            # the point at which the derivative is evaluated depends on `sym`
+            return self.__class__(self, derivs={sym: 1})
+        elif sym in self._vals.keys():
             return self.__class__._zero
         else:
-            if not isinstance(sym, sympy.Basic):
-                raise TypeError("%s must be a Sympy symbol" % sym)
-            if sym in self._vals.values():
-                return self.__class__(self, derivs={sym: 1})
-            else:
-                derivs = self._derivs.copy()
-                derivs[sym] += 1
-                return self.__class__(
-                    self.operand, derivs=derivs, vals=self._vals)
+            derivs = self._derivs.copy()
+            derivs[sym] += 1
+            return self.__class__(
+                self.operand, derivs=derivs, vals=self._vals)
 
     def _adjoint(self):
         return self.__class__(
-- 
2.43.0


From af8404f7642004f4d163c14da7df5054da4032a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 060/131] fix: free symbols of a derivative that is evaluated
 at a plain number

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index ef7009c..3287928 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -802,7 +802,8 @@ class QuantumDerivative(SingleQuantumOperation):
                     in self.operand.substitute(dummy_map).free_symbols
                     if not isinstance(sym, sympy.Dummy)}
                 for val in self._vals.values():
-                    self._free_symbols.update(val.free_symbols)
+                    self._free_symbols.update(
+                        getattr(val, 'free_symbols', ()))
         return self._free_symbols
 
     @property
-- 
2.43.0


From 0e3def0643a56e87f488d830fcf02504f77f04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:56 +0000
Subject: [PATCH 061/131] fix: substituting in a derivative evaluates it at the
 new value of its symbols

---
 .../algebra/core/abstract_quantum_algebra.py  | 50 ++++++++++++++++---
 src/qnet/algebra/core/algebraic_properties.py |  6 +--
 2 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 3287928..2e5a722 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -838,6 +838,49 @@ class QuantumDerivative(SingleQuantumOperation):
             return self.__class__(
                 self.operand, derivs=derivs, vals=self._vals)
 
+    def _substitute(self, var_map, safe=False):
+        if self in var_map:
+            return super()._substitute(var_map, safe=safe)
+        # Replacing a symbol that the derivative is taken with respect to
+        # means to evaluate the derivative: the symbol must not be replaced
+        # inside of the operand
+        operand = self.operand
+        derivs = self.derivs
+        vals = OrderedDict([
+            (s, substitute(val, var_map)) for (s, val) in self.vals.items()])
+        for sym in derivs:
+            if sym in var_map and sym not in vals:
+                vals[sym] = var_map[sym]
+        inner_map = {
+            key: val for (key, val) in var_map.items() if key not in derivs}
+        new_operand = substitute(operand, inner_map)
+        if new_operand != operand:
+            # symbols in the replacements are not the bound symbols
+            used = set().union(*[
+                getattr(val, 'free_symbols', ()) for val in inner_map.values()])
+            renamed = {}
+            for sym in derivs:
+                if sym in used and sym.is_Symbol:
+                    name = sym.name + '_'
+                    while any(s.name == name
+                              for s in used.union(operand.free_symbols)
+                              if isinstance(s, Symbol)):
+                        name += '_'
+                    renamed[sym] = Symbol(name, **sym.assumptions0)
+                    vals.setdefault(sym, sym)
+            if renamed:
+                new_operand = substitute(
+                    substitute(operand, renamed), inner_map)
+                vals = {renamed.get(s, s): val for (s, val) in vals.items()}
+                derivs = {renamed.get(s, s): n for (s, n) in derivs.items()}
+            derivs = {  # symbols may not be atomic, e.g. x[i]
+                (s if s.is_Symbol else substitute(s, inner_map)): n
+                for (s, n) in derivs.items()}
+            vals = {
+                (s if s.is_Symbol else substitute(s, inner_map)): val
+                for (s, val) in vals.items()}
+        return self.create(new_operand, derivs=derivs, vals=(vals or None))
+
     def _adjoint(self):
         return self.__class__(
             self.operand.adjoint(), derivs=self._derivs, vals=self._vals)
@@ -1105,12 +1148,7 @@ def _series_expand_combine_prod(c1, c2, order):
 
 
 def _evaluate_at(expr, sym, val):
-    try:
-        # for QuantumDerivative instance
-        return expr.evaluate_at({sym: val})
-    except AttributeError:
-        # for explicit Expression
-        return expr.substitute({sym: val})
+    return expr.substitute({sym: val})
 
 
 def _expand_product(factors):
diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 51bd7b2..0f5aa33 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -979,11 +979,11 @@ def derivative_via_diff(cls, ops, kwargs):
         else:
             return op.__class__._zero
     if vals is not None:
-        try:
+        if hasattr(op, 'evaluate_at') and set(dict(vals)) <= op.syms:
             # for QuantumDerivative instance
             return op.evaluate_at(vals)
-        except AttributeError:
+        else:
             # for explicit Expression
-            return op.substitute(vals)
+            return op.substitute(dict(vals))
     else:
         return op
-- 
2.43.0


From 683d5346d19366ba8ebf911d8fde488e2b7ee3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 062/131] fix: the adjoint of the derivative of a ket is a bra

---
 src/qnet/algebra/core/state_algebra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 758df62..d7c724e 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -538,7 +538,9 @@ class StateDerivative(QuantumDerivative, State):
 
     See :class:`.QuantumDerivative`.
     """
-    pass
+    def _adjoint(self):
+        # any adjoint is a Bra at the top level
+        return Bra(self)
 
 
 class Bra(State, QuantumAdjoint):
-- 
2.43.0


From 3d2756bceaf6e564f1b6158fc6b4f6b70a2a0310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:20 +0000
Subject: [PATCH 063/131] fix: derivative of left and right multiplication

---
 src/qnet/algebra/core/super_operator_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 0b5466e..6a67603 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -233,7 +233,7 @@ class SPre(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return self.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
         return SPost(self.operands[0])
@@ -267,7 +267,7 @@ class SPost(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return self.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
         return SPre(self.operands[0])
-- 
2.43.0


From 2158295a068030bf9e2838f30e9ed362d1590291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:20 +0000
Subject: [PATCH 064/131] fix: derivative of an operator plus/minus its adjoint

---
 src/qnet/algebra/core/operator_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index ec8ba35..33031f2 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -721,7 +721,7 @@ class OperatorPlusMinusCC(SingleQuantumOperation, Operator):
 
     def _diff(self, sym):
         return OperatorPlusMinusCC(
-            self.operands._diff(sym), sign=self._sign)
+            self.operand.diff(sym), sign=self._sign)
 
     def _adjoint(self):
         return OperatorPlusMinusCC(self.operand.adjoint(), sign=self._sign)
-- 
2.43.0


From d436dcc2c4ca9f20244bf57fce30cbc25940e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 065/131] fix: pseudo-inverse and null space projector are not
 linear

---
 src/qnet/algebra/core/operator_algebra.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 33031f2..509bda7 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -760,6 +760,13 @@ class PseudoInverse(SingleQuantumOperation, Operator):
     # `PseudoInverse` does not use rules because it delegates to
     # `_pseudo_inverse`, cf. `Adjoint`
 
+    def _diff(self, sym):
+        # not linear in the operand
+        return OperatorDerivative(self, derivs={sym: 1})
+
+    def _series_expand(self, param, about, order):
+        return QuantumExpression._series_expand(self, param, about, order)
+
     def _expand(self):
         return self
 
@@ -790,6 +797,13 @@ class NullSpaceProjector(SingleQuantumOperation, Operator):
     _rules = OrderedDict()
     simplifications = [scalars_to_op, match_replace, ]
 
+    def _diff(self, sym):
+        # not linear in the operand
+        return OperatorDerivative(self, derivs={sym: 1})
+
+    def _series_expand(self, param, about, order):
+        return QuantumExpression._series_expand(self, param, about, order)
+
     def _expand(self):
         return self
 
-- 
2.43.0


From bd2383ea34bcc15f043998e993f68a9ed1d3d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 066/131] fix: series expansion of an operator minus its
 adjoint

---
 src/qnet/algebra/core/operator_algebra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 509bda7..c551154 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -723,6 +723,11 @@ class OperatorPlusMinusCC(SingleQuantumOperation, Operator):
         return OperatorPlusMinusCC(
             self.operand.diff(sym), sign=self._sign)
 
+    def _series_expand(self, param, about, order):
+        return tuple(
+            OperatorPlusMinusCC.create(op, sign=self._sign)
+            for op in self.operand.series_expand(param, about, order))
+
     def _adjoint(self):
         return OperatorPlusMinusCC(self.operand.adjoint(), sign=self._sign)
 
-- 
2.43.0


From d0049113d8034f73dce470cb80fa6321f7f89d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 067/131] fix: series expansion of an indexed sum

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 2e5a722..6ecefae 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -901,6 +901,11 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         return self.__class__.create(
             self.term.simplify_scalar(func=func), *self.ranges)
 
+    def _series_expand(self, param, about, order):
+        return tuple(
+            self.__class__.create(term, *self.ranges)
+            for term in self.term.series_expand(param, about, order))
+
     def _adjoint(self):
         return self.__class__.create(self.term.adjoint(), *self.ranges)
 
-- 
2.43.0


From d92882d01ade6a022426d2d9f1db5b1365aaada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 068/131] fix: series expansion of matrices with plain number
 elements

---
 src/qnet/algebra/core/matrix_algebra.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 6b1ce5a..c8a313b 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -12,7 +12,7 @@ from .abstract_quantum_algebra import QuantumExpression
 from .exceptions import NonSquareMatrix, NoConjugateMatrix
 from .hilbert_space_algebra import ProductSpace, TrivialSpace
 from .operator_algebra import adjoint
-from .scalar_algebra import is_scalar
+from .scalar_algebra import ScalarValue, is_scalar
 from ...utils.permutations import check_permutation
 
 __all__ = [
@@ -313,8 +313,11 @@ class Matrix(Expression):
             coefficients.
         """
         s = self.shape
+        elements = [
+            o if isinstance(o, QuantumExpression) else ScalarValue.create(o)
+            for o in self.matrix.ravel()]
         emats = zip(*[o.series_expand(param, about, order)
-                      for o in self.matrix.ravel()])
+                      for o in elements])
         return tuple((Matrix(np_array(em).reshape(s)) for em in emats))
 
     def expand(self):
-- 
2.43.0


From 4b5c05618deafcb711a1b6ee98202025f9411a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 069/131] fix: series expansion of an operator applied to a ket

---
 src/qnet/algebra/core/state_algebra.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index d7c724e..01ae5d4 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -528,9 +528,7 @@ class OperatorTimesKet(State, Operation):
     def _series_expand(self, param, about, order):
         ce = self.operator.series_expand(param, about, order)
         te = self.ket.series_expand(param, about, order)
-
-        return tuple(ce[k] * te[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        return _series_expand_combine_prod(ce, te, order)
 
 
 class StateDerivative(QuantumDerivative, State):
-- 
2.43.0


From 54620c18893c7aaa5a1aa19080c61fe2a2177158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 070/131] fix: series expansion of outer products

---
 src/qnet/algebra/core/state_algebra.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 01ae5d4..e16af73 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -708,8 +708,7 @@ class KetBra(Operator, Operation):
     def _series_expand(self, param, about, order):
         ke = self.ket.series_expand(param, about, order)
         be = self.bra.series_expand(param, about, order)
-        return tuple(ke[k] * be[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        return _series_expand_combine_prod(ke, be, order)
 
 
 class KetIndexedSum(State, QuantumIndexedSum):
-- 
2.43.0


From a8f53dcf038d78db95fde6c075363d24366bd00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 071/131] fix: printing products of derivatives of
 super-operators

---
 src/qnet/printing/asciiprinter.py   | 2 +-
 src/qnet/printing/latexprinter.py   | 2 +-
 src/qnet/printing/unicodeprinter.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 3ad5e9c..eb0b7f6 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -769,7 +769,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
             res += "^" + self._dagger_sym
         return res
 
-    def _print_QuantumDerivative(self, expr, adjoint=False):
+    def _print_QuantumDerivative(self, expr, adjoint=False, superop=False):
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index 377ce07..fd61c08 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -303,7 +303,7 @@ class QnetLatexPrinter(QnetAsciiPrinter):
             res += "^{%s}" % self._dagger_sym
         return res
 
-    def _print_QuantumDerivative(self, expr, adjoint=False):
+    def _print_QuantumDerivative(self, expr, adjoint=False, superop=False):
         res = ""
         numerator = r'\partial'
         if expr.n > 1:
diff --git a/src/qnet/printing/unicodeprinter.py b/src/qnet/printing/unicodeprinter.py
index 706391f..307f37b 100644
--- a/src/qnet/printing/unicodeprinter.py
+++ b/src/qnet/printing/unicodeprinter.py
@@ -176,7 +176,7 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
     def _print_IdentitySuperOperator(self, expr, adjoint=False, superop=True):
         return "𝟙"
 
-    def _print_QuantumDerivative(self, expr, adjoint=False):
+    def _print_QuantumDerivative(self, expr, adjoint=False, superop=False):
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
-- 
2.43.0


From 4636a67ce6b4816fecd4e4256398d914f2794113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 072/131] fix: derivative of scalar powers with an exponent
 depending on the symbol

---
 src/qnet/algebra/core/scalar_algebra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 9dd4524..f2f63a1 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1091,6 +1091,9 @@ class ScalarPower(QuantumOperation, Scalar):
             self._base.conjugate(), self._exp.conjugate())
 
     def _diff(self, sym):
+        if sym in self.exp.free_symbols:
+            # the logarithm of a ScalarExpression cannot be expressed
+            return ScalarDerivative(self, derivs={sym: 1})
         inner = self.base._diff(sym)
         if inner != 0:
             return (
-- 
2.43.0


From 9a14fd522b65639fc9ef8087f51e2ed24e618650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 073/131] fix: series expansion of super-operators applied to
 operators

---
 src/qnet/algebra/core/super_operator_algebra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 6a67603..e90bf91 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -14,7 +14,7 @@ from .abstract_algebra import Operation
 from .abstract_quantum_algebra import (
     ScalarTimesQuantumExpression, QuantumExpression, QuantumSymbol,
     QuantumOperation, QuantumPlus, QuantumTimes, QuantumAdjoint,
-    QuantumDerivative)
+    QuantumDerivative, _series_expand_combine_prod)
 from .algebraic_properties import (
     assoc, filter_neutral, match_replace, match_replace_binary, orderby,
     delegate_to_method, collect_summands)
@@ -314,9 +314,9 @@ class SuperOperatorTimesOperator(Operator, Operation):
         return sum(st * ot for st in sopet for ot in opet)
 
     def _series_expand(self, param, about, order):
-        sop, op = self.sop, self.op
-        ope = op.series_expand(param, about, order)
-        return tuple(sop * opet for opet in ope)
+        sope = self.sop.series_expand(param, about, order)
+        ope = self.op.series_expand(param, about, order)
+        return _series_expand_combine_prod(sope, ope, order)
 
     def _simplify_scalar(self, func):
         sop, op = self.sop, self.op
-- 
2.43.0


From 2fb52db4192aad66a6f2e2972c335f89441bbd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:42 +0000
Subject: [PATCH 074/131] fix: error for the series expansion of scalar powers
 with symbolic exponents

---
 src/qnet/algebra/core/scalar_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index f2f63a1..817a759 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1110,7 +1110,7 @@ class ScalarPower(QuantumOperation, Scalar):
                 return self_as_product.series_expand(param, about, order)
             else:
                 raise ValueError("self.exp is not a positive integer")
-        except ValueError:
+        except (ValueError, TypeError):
             # We don't know for sure if self is singular. One way to find out
             # is to substitute symbols for every ScalarExpression (assuming
             # they don't depend on param), let sympy do the series expansion,
-- 
2.43.0


From 5926f00f21cc1f142ca6b46de95a6d64c46e7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 075/131] fix: derivative of coherent states with a varying
 phase

---
 src/qnet/algebra/core/state_algebra.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index e16af73..0a677a6 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -393,11 +393,13 @@ class CoherentStateKet(LocalKet):
     def _diff(self, sym):
         from qnet.algebra.library.fock_operators import Destroy, Create
         hs = self.space
+        ampl, ampl_conj = self._ampl, self._ampl.conjugate()
+        # half of the commutator of the exponent of the displacement operator
+        # with its derivative
+        comm = (ampl * ampl_conj.diff(sym) - ampl_conj * ampl.diff(sym)) / 2
         return (
-            (self._ampl * Create(hs=hs) -
-             self._ampl.conjugate() * Destroy(hs=hs))
-            .diff(sym)
-            * self)
+            (ampl * Create(hs=hs) - ampl_conj * Destroy(hs=hs)).diff(sym)
+            * self + comm * self)
 
     def to_fock_representation(self, index_symbol='n', max_terms=None):
         """Return the coherent state written out as an indexed sum over Fock
-- 
2.43.0


From 6a27e5a16e17401cc808369660034118ee606c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 076/131] fix: source representation of expressions with equal
 scalars and numbers

---
 src/qnet/printing/sreprprinter.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/qnet/printing/sreprprinter.py b/src/qnet/printing/sreprprinter.py
index 4a1d9ae..8ee256e 100644
--- a/src/qnet/printing/sreprprinter.py
+++ b/src/qnet/printing/sreprprinter.py
@@ -8,6 +8,7 @@ from .base import QnetBasePrinter
 from .sympy import SympyReprPrinter
 from ._render_head_repr import render_head_repr
 from qnet.algebra.core.abstract_algebra import Expression
+from qnet.algebra.core.scalar_algebra import One, Scalar, ScalarValue, Zero
 from ..utils.singleton import Singleton
 
 __all__ = []
@@ -15,11 +16,27 @@ __private__ = [
     'QnetSReprPrinter', 'IndentedSReprPrinter', 'IndentedSympyReprPrinter']
 
 
+def _is_scalar_value(expr):
+    """Is `expr` a :class:`.ScalarValue` or something it might wrap?
+
+    A :class:`.ScalarValue` is equal to the value it wraps, and has the same
+    hash, but it must not be represented in the same way.
+    """
+    return (
+        isinstance(expr, (ScalarValue, ) + tuple(Scalar._val_types)) or
+        expr is One or expr is Zero)
+
+
 class QnetSReprPrinter(QnetBasePrinter):
     """Printer for a string (ASCII) representation."""
 
     sympy_printer_cls = SympyReprPrinter
 
+    def _write_to_cache(self, expr, res):
+        """Store the cached result, except for scalar values"""
+        if not _is_scalar_value(expr):
+            super()._write_to_cache(expr, res)
+
     def _render_str(self, string):
         return repr(string)
 
@@ -69,8 +86,9 @@ class IndentedSReprPrinter(QnetBasePrinter):
     def _write_to_cache(self, expr, res):
         """Store the cached result without indentation, and without the
         keyname"""
-        res = dedent(res)
-        super()._write_to_cache(expr, res)
+        if not _is_scalar_value(expr):
+            res = dedent(res)
+            super()._write_to_cache(expr, res)
 
     def _render_str(self, string):
         return "    " * self._print_level + repr(string)
-- 
2.43.0


From f869ca8ebbf9c680612fee4df555882b8b90d20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 077/131] fix: error for the conjugate of a matrix of operators

---
 src/qnet/algebra/core/matrix_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index c8a313b..1a39c12 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -178,7 +178,8 @@ class Matrix(Expression):
         """
         try:
             return Matrix(np_conjugate(self.matrix))
-        except AttributeError:
+        except (AttributeError, TypeError):
+            # numpy raises one or the other, depending on its version
             raise NoConjugateMatrix(
                 "Matrix %s contains entries that have no defined "
                 "conjugate" % str(self))
-- 
2.43.0


From 1506046c5a276e317a040254dab1e24fe13c9de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 078/131] fix: product of a SymPy scalar and a matrix

---
 src/qnet/algebra/core/matrix_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 1a39c12..993f5b0 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -140,7 +140,8 @@ class Matrix(Expression):
             return Matrix(self.matrix * other)
 
     def __rmul__(self, other):
-        return Matrix(other * self.matrix)
+        # not `other * self.matrix`: SymPy objects don't broadcast
+        return self.element_wise(lambda o: other * o)
 
     def __sub__(self, other):
         return self + (-1) * other
-- 
2.43.0


From 0f22a7c47bc46ca686a9197037578e99466ad76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 079/131] fix: blocks of a column matrix

---
 src/qnet/algebra/core/matrix_algebra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 993f5b0..d384c5f 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -83,11 +83,13 @@ class Matrix(Expression):
             else:
                 raise ValueError()
         elif m == 1:
+            if not sum(block_structure) == n:
+                raise ValueError()
             if not len(block_structure):
                 return ()
             else:
                 return ((self[:block_structure[0], :],) +
-                        self[:block_structure[0], :]
+                        self[block_structure[0]:, :]
                         ._get_blocks(block_structure[1:]))
         else:
             raise ValueError()
-- 
2.43.0


From a1cc9bd333783c28b564373c779ef5946a3ae615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 080/131] fix: refuse the sum of matrices with different shapes

---
 src/qnet/algebra/core/matrix_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index d384c5f..a2a32fc 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -128,6 +128,10 @@ class Matrix(Expression):
 
     def __add__(self, other):
         if isinstance(other, Matrix):
+            if self.shape != other.shape:
+                raise ValueError(
+                    "Cannot add matrices with shapes %s and %s"
+                    % (self.shape, other.shape))
             return Matrix(self.matrix + other.matrix)
         else:
             return Matrix(self.matrix + other)
-- 
2.43.0


From 2126caf7d68400f97ea0e20901a40c782baebe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 081/131] fix: product of a SymPy scalar and a matrix of
 numbers

---
 src/qnet/algebra/core/matrix_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index a2a32fc..4cb8c7c 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -147,7 +147,8 @@ class Matrix(Expression):
 
     def __rmul__(self, other):
         # not `other * self.matrix`: SymPy objects don't broadcast
-        return self.element_wise(lambda o: other * o)
+        matrix = Matrix(self.matrix.astype(object))
+        return matrix.element_wise(lambda o: other * o)
 
     def __sub__(self, other):
         return self + (-1) * other
-- 
2.43.0


From 14d0cb53bef1f18fafc6b0e196b75c07ae78d846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:35 +0000
Subject: [PATCH 082/131] fix: sum of a SymPy scalar and a matrix

---
 src/qnet/algebra/core/matrix_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 4cb8c7c..8172856 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -137,7 +137,7 @@ class Matrix(Expression):
             return Matrix(self.matrix + other)
 
     def __radd__(self, other):
-        return Matrix(other + self.matrix)
+        return self + other
 
     def __mul__(self, other):
         if isinstance(other, Matrix):
-- 
2.43.0


From 3b89d5fc46720f211c88a85ca86ae2080d6e70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:03 +0000
Subject: [PATCH 083/131] fix: product of the scalar Zero and a matrix

---
 src/qnet/algebra/core/matrix_algebra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 8172856..e8f64a7 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -98,6 +98,11 @@ class Matrix(Expression):
     def args(self):
         return (self.matrix, )
 
+    @property
+    def _zero(self):
+        # the neutral element for addition, cf. QuantumExpression
+        return zerosm(self.shape, dtype=int)
+
     @property
     def is_zero(self):
         """Are all elements of the matrix zero?"""
-- 
2.43.0


From 145e983e6e17c69b9ff974e192e601b8556f1303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 084/131] fix: QuTiP conversion of spin operators uses the
 basis of the spin space

---
 src/qnet/convert/to_qutip.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 97f55d9..da1dd14 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -194,11 +194,13 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     if isinstance(expr, Create):
         return qutip.create(n)
     elif isinstance(expr, Jz):
-        return qutip.jmat((expr.space.dimension-1)/2., "z")
+        # the basis of a SpinSpace starts with the lowest level, in contrast to
+        # QuTiP, which starts with the highest
+        return -qutip.jmat((expr.space.dimension-1)/2., "z")
     elif isinstance(expr, Jplus):
-        return qutip.jmat((expr.space.dimension-1)/2., "+")
-    elif isinstance(expr, Jminus):
         return qutip.jmat((expr.space.dimension-1)/2., "-")
+    elif isinstance(expr, Jminus):
+        return qutip.jmat((expr.space.dimension-1)/2., "+")
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
-- 
2.43.0


From 40313f96dd13546e2eeb3bece1e1da7461f038e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 085/131] fix: QuTiP conversion of phase, displacement,
 squeezing and coherent states

---
 src/qnet/convert/to_qutip.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index da1dd14..a691d4a 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -204,15 +204,16 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
-        arg = complex(expr.operands[1]) * arange(n)
+        arg = complex(expr.args[0]) * arange(n)
         d = np_cos(arg) + 1j * np_sin(arg)
         return qutip.Qobj(np_diag(d))
     elif isinstance(expr, Displace):
-        alpha = expr.operands[1]
+        alpha = complex(expr.args[0])
         return qutip.displace(n, alpha)
     elif isinstance(expr, Squeeze):
-        eta = expr.operands[1]
-        return qutip.displace(n, eta)
+        # exp((eta a^+^2 - eta^* a^2) / 2), QuTiP has the opposite sign
+        eta = complex(expr.args[0])
+        return qutip.squeeze(n, -eta)
     elif isinstance(expr, LocalSigma):
         j = expr.j
         k = expr.k
@@ -344,7 +345,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
     if isinstance(expr, BasisKet):
         return qutip.basis(n, expr.index)
     elif isinstance(expr, CoherentStateKet):
-        return qutip.coherent(n, complex(expr.operands[1]))
+        return qutip.coherent(n, complex(expr.args[0]))
     elif isinstance(expr, KetPlus):
         return sum((convert_to_qutip(op, full_space, mapping=mapping)
                     for op in expr.operands), 0)
-- 
2.43.0


From 5ed84aac2191cbac5bccb874002a1a27aac225d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 086/131] fix: QuTiP conversion of adjoints

---
 src/qnet/convert/to_qutip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index a691d4a..18df78d 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -259,8 +259,8 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
         # combine local factors in tensor product
         return qutip.tensor(*by_space)
     elif isinstance(expr, Adjoint):
-        return convert_to_qutip(qutip.dag(expr.operands[0]), full_space,
-                                mapping=mapping)
+        return qutip.dag(convert_to_qutip(expr.operand, full_space,
+                                          mapping=mapping))
     elif isinstance(expr, ScalarTimesOperator):
         try:
             coeff = complex(expr.coeff)
-- 
2.43.0


From 513486fdc01b58773a577ca8ea49b009bf357cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 087/131] fix: QuTiP conversion of products with non-local
 factors

---
 src/qnet/convert/to_qutip.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 18df78d..db942be 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -235,11 +235,14 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
                     for op in expr.operands), 0)
     elif isinstance(expr, OperatorTimes):
         # if any factor acts non-locally, we need to expand distributively.
-        if any(len(op.space) > 1 for op in expr.operands):
+        if any(len(op.space) != 1 for op in expr.operands):
             se = expr.expand()
-            if se == expr:
-                raise ValueError("Cannot represent as QuTiP object: {!s}"
-                                 .format(expr))
+            if se == expr or mapping is not None:
+                # (expanding might remove what is mentioned in the mapping)
+                return reduce(
+                    lambda a, b: a * b,
+                    [convert_to_qutip(op, full_space, mapping=mapping)
+                     for op in expr.operands])
             return convert_to_qutip(se, full_space, mapping=mapping)
         all_spaces = full_space.local_factors
         by_space = []
-- 
2.43.0


From 9ba32376c11e6c297ac9dc78d7e3499199eeda44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 088/131] fix: QuTiP conversion of mapped objects in a larger
 Hilbert space

---
 src/qnet/convert/to_qutip.py | 55 ++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index db942be..c84788d 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -6,9 +6,10 @@ from sympy import symbols
 from sympy.utilities.lambdify import lambdify
 from scipy.sparse import csr_matrix
 from numpy import (
-    diag as np_diag, arange, cos as np_cos, sin as np_sin)
+    diag as np_diag, arange, cos as np_cos, sin as np_sin, einsum, eye, ix_,
+    prod as np_prod)
 from ..algebra.core.scalar_algebra import ScalarValue, is_scalar
-from ..algebra.core.exceptions import AlgebraError
+from ..algebra.core.exceptions import AlgebraError, BasisNotSetError
 from ..algebra.core.circuit_algebra import SLH, move_drive_to_H
 from ..algebra.core.abstract_algebra import Operation
 from ..algebra.core.operator_algebra import (
@@ -70,11 +71,10 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
     if mapping is not None:
         if expr in mapping:
             ret = mapping[expr]
-            if isinstance(ret, qutip.Qobj):
-                return ret
-            else:
+            if not isinstance(ret, qutip.Qobj):
                 assert callable(ret)
-                return ret(expr)
+                ret = ret(expr)
+            return _embed(ret, expr.space, full_space)
     if expr is IdentityOperator:
         local_spaces = full_space.local_factors
         if len(local_spaces) == 0:
@@ -178,6 +178,49 @@ def SLH_to_qutip(slh, full_space=None, time_symbol=None,
     return H, Ls
 
 
+def _embed(obj, space, full_space):
+    """Embed a qutip object in `space` (operator, super-operator, or state) in
+    `full_space`, with the identity in the remaining local factors"""
+    if space == full_space or obj.type == 'scalar':
+        return obj
+    own = space.local_factors
+    rest = [ls for ls in full_space.local_factors if ls not in own]
+    N = max(obj.shape)
+    if obj.issuper:
+        N = int(round(N**0.5))
+    try:
+        if N == full_space.dimension:
+            return obj  # is in the `full_space` already
+    except BasisNotSetError:
+        pass  # the dimension of a single local factor is that of `obj`
+    own_dims = [N, ] if len(own) == 1 else [ls.dimension for ls in own]
+    rest_dims = [ls.dimension for ls in rest]
+    M = int(np_prod(rest_dims))
+    factors = list(own) + rest
+    order = [factors.index(ls) for ls in full_space.local_factors]
+    dims = own_dims + rest_dims
+    full_dims = [dims[i] for i in order]
+    # position of the re-ordered basis states
+    perm = arange(N*M).reshape(dims).transpose(order).ravel()
+    if obj.issuper:
+        # column and row indices of output and input
+        t = einsum(
+            'abcd,eg,fh->aebfcgdh', obj.data.toarray().reshape((N, ) * 4),
+            eye(M), eye(M))
+        t = t.reshape((N*M, ) * 4)[ix_(perm, perm, perm, perm)]
+        return qutip.Qobj(
+            t.reshape(((N*M)**2, (N*M)**2)),
+            dims=[[full_dims, full_dims], [full_dims, full_dims]])
+    data = qutip.tensor(obj, qutip.qeye(M)).data
+    if not obj.isbra:
+        data = data[perm]
+    if not obj.isket:
+        data = data[:, perm]
+    return qutip.Qobj(
+        data, dims=[rest_dims if obj.isbra else full_dims,
+                    rest_dims if obj.isket else full_dims])
+
+
 def _convert_local_operator_to_qutip(expr, full_space, mapping):
     """Convert a LocalOperator instance to qutip"""
     n = full_space.dimension
-- 
2.43.0


From 9572d1a46d603728ba55c756ad7a536e8a1bcd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 089/131] fix: QuTiP conversion of states

---
 src/qnet/convert/to_qutip.py | 55 +++++++++++++++---------------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index c84788d..1bfede8 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -90,6 +90,8 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
         )
     elif isinstance(expr, LocalOperator):
         return _convert_local_operator_to_qutip(expr, full_space, mapping)
+    elif isinstance(expr, (BraKet, KetBra)):
+        return _convert_state_operation_to_qutip(expr, full_space, mapping)
     elif (isinstance(expr, Operator) and isinstance(expr, Operation)):
         return _convert_operator_operation_to_qutip(expr, full_space, mapping)
     elif isinstance(expr, OperatorTrace):
@@ -101,12 +103,6 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
         return _convert_ket_to_qutip(expr, full_space, mapping)
     elif isinstance(expr, SuperOperator):
         return _convert_superoperator_to_qutip(expr, full_space, mapping)
-    elif isinstance(expr, Operation):
-        # This is assumed to be an Operation on states, as we have handled all
-        # other Operations above. Eventually, a StateOperation should be
-        # defined as a common superclass for the Operations in the state
-        # algebra
-        return _convert_state_operation_to_qutip(expr, full_space, mapping)
     elif isinstance(expr, SLH):
         # SLH object cannot be converted to a single qutip object, only to a
         # nested list of qutip object. That's why a separate routine
@@ -354,16 +350,6 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
 
 
 def _convert_state_operation_to_qutip(expr, full_space, mapping):
-    if full_space != expr.space:
-        all_spaces = full_space.local_factors
-        own_space_index = all_spaces.index(expr.space)
-        return qutip.tensor(
-            *([qutip.qeye(s.dimension)
-               for s in all_spaces[:own_space_index]] +
-              convert_to_qutip(expr, expr.space, mapping=mapping) +
-              [qutip.qeye(s.dimension)
-               for s in all_spaces[own_space_index + 1:]])
-        )
     if isinstance(expr, BraKet):
         bq = convert_to_qutip(expr.bra, full_space, mapping=mapping)
         kq = convert_to_qutip(expr.ket, full_space, mapping=mapping)
@@ -378,16 +364,17 @@ def _convert_state_operation_to_qutip(expr, full_space, mapping):
 
 
 def _convert_ket_to_qutip(expr, full_space, mapping):
-    n = full_space.dimension
+    if expr.isbra:
+        return qutip.dag(
+            convert_to_qutip(expr.ket, full_space, mapping=mapping))
     if full_space != expr.space:
-        all_spaces = full_space.local_factors
-        own_space_index = all_spaces.index(expr.space)
-        factors = (
-            [qutip.qeye(s.dimension) for s in all_spaces[:own_space_index]] +
-            [convert_to_qutip(expr, expr.space, mapping=mapping), ] +
-            [qutip.qeye(s.dimension) for s in all_spaces[own_space_index + 1:]]
-        )
-        return qutip.tensor(*factors)
+        if expr.space == TrivialSpace:
+            coeff = expr.coeff if isinstance(expr, ScalarTimesKet) else 1
+            return complex(coeff) * convert_to_qutip(
+                IdentityOperator, full_space, mapping=mapping)
+        return _embed(convert_to_qutip(expr, expr.space, mapping=mapping),
+                      expr.space, full_space)
+    n = full_space.dimension
     if isinstance(expr, BasisKet):
         return qutip.basis(n, expr.index)
     elif isinstance(expr, CoherentStateKet):
@@ -397,11 +384,15 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
                     for op in expr.operands), 0)
     elif isinstance(expr, TensorKet):
         if any(len(op.space) > 1 for op in expr.operands):
-            se = expr.expand()
-            if se == expr:
-                raise ValueError("Cannot represent as QuTiP "
-                                 "object: {!s}".format(expr))
-            return convert_to_qutip(se, full_space, mapping=mapping)
+            # all factors act on different spaces, hence they can be applied
+            # (embedded) one after the other
+            space, res = TrivialSpace, None
+            for o in expr.operands:
+                space = space * o.space
+                ket = convert_to_qutip(o, space, mapping=mapping)
+                res = ket if res is None else ket * res
+            return qutip.Qobj(
+                res.data, dims=[res.dims[0], [1 for _ in res.dims[0]]])
         factors = [convert_to_qutip(o, o.space, mapping=mapping)
                    for o in expr.operands]
         return qutip.tensor(*factors)
@@ -409,8 +400,8 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
         return complex(expr.coeff) * convert_to_qutip(expr.term, full_space,
                                                       mapping=mapping)
     elif isinstance(expr, OperatorTimesKet):
-        return convert_to_qutip(expr.coeff, full_space, mapping=mapping) * \
-                convert_to_qutip(expr.term, full_space, mapping=mapping)
+        return convert_to_qutip(expr.operator, full_space, mapping=mapping) * \
+                convert_to_qutip(expr.ket, full_space, mapping=mapping)
     else:
         raise ValueError("Cannot convert '%s' of type %s"
                          % (str(expr), type(expr)))
-- 
2.43.0


From 20247d957c24d8d563b545d9ee0b4b4fe065a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 090/131] fix: QuTiP conversion of super-operators

---
 src/qnet/convert/to_qutip.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 1bfede8..18a485e 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -90,6 +90,11 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
         )
     elif isinstance(expr, LocalOperator):
         return _convert_local_operator_to_qutip(expr, full_space, mapping)
+    elif isinstance(expr, SuperOperatorTimesOperator):
+        return qutip.vector_to_operator(
+            convert_to_qutip(expr.sop, full_space, mapping=mapping) *
+            qutip.operator_to_vector(
+                convert_to_qutip(expr.op, full_space, mapping=mapping)))
     elif isinstance(expr, (BraKet, KetBra)):
         return _convert_state_operation_to_qutip(expr, full_space, mapping)
     elif (isinstance(expr, Operator) and isinstance(expr, Operation)):
@@ -408,16 +413,6 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
 
 
 def _convert_superoperator_to_qutip(expr, full_space, mapping):
-    if full_space != expr.space:
-        all_spaces = full_space.local_factors
-        own_space_index = all_spaces.index(expr.space)
-        return qutip.tensor(
-            *([qutip.qeye(s.dimension)
-               for s in all_spaces[:own_space_index]] +
-              convert_to_qutip(expr, expr.space, mapping=mapping) +
-              [qutip.qeye(s.dimension)
-               for s in all_spaces[own_space_index + 1:]])
-        )
     if isinstance(expr, IdentitySuperOperator):
         return qutip.spre(qutip.tensor(*[qutip.qeye(s.dimension)
                                          for s in full_space.local_factors]))
@@ -437,10 +432,6 @@ def _convert_superoperator_to_qutip(expr, full_space, mapping):
     elif isinstance(expr, SPost):
         return qutip.spost(convert_to_qutip(
                                         expr.operands[0], full_space, mapping))
-    elif isinstance(expr, SuperOperatorTimesOperator):
-        sop, op = expr.operands
-        return (convert_to_qutip(sop, full_space, mapping=mapping) *
-                convert_to_qutip(op, full_space, mapping=mapping))
     elif isinstance(expr, ZeroSuperOperator):
         return qutip.spre(convert_to_qutip(ZeroOperator, full_space,
                           mapping=mapping))
-- 
2.43.0


From 20dabe83f090fcc80834276b1366c0f97dba6972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 091/131] fix: conversion of spin operators to SymPy matrices

---
 src/qnet/convert/to_sympy_matrix.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_sympy_matrix.py b/src/qnet/convert/to_sympy_matrix.py
index 220b445..638567c 100644
--- a/src/qnet/convert/to_sympy_matrix.py
+++ b/src/qnet/convert/to_sympy_matrix.py
@@ -70,10 +70,18 @@ def convert_to_sympy_matrix(expr, full_space=None):
             factors.extend([sympy.eye(s.dimension)
                             for s in all_spaces[own_space_index + 1:]])
             return tensor(*factors)
-        if isinstance(expr, (Create, Jz, Jplus)):
+        if isinstance(expr, Create):
             return SympyCreate(n)
-        elif isinstance(expr, (Destroy, Jminus)):
+        elif isinstance(expr, Destroy):
             return SympyCreate(n).H
+        elif isinstance(expr, Jz):
+            s = sympy.Integer(n-1) / 2
+            return sympy.diag(*[i - s for i in range(n)])
+        elif isinstance(expr, (Jplus, Jminus)):
+            result = sympy.zeros(n)
+            for i in range(1, n):
+                result[i, i-1] = sympy.sqrt(i * (n-i))
+            return result if isinstance(expr, Jplus) else result.H
         elif isinstance(expr, Phase):
             phi = expr.phase
             result = sympy.zeros(n)
-- 
2.43.0


From 932cfe242aa21c87a986d4e5586f4cc8421993af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 092/131] fix: conversion of the zero operator to a SymPy
 matrix

---
 src/qnet/convert/to_sympy_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/convert/to_sympy_matrix.py b/src/qnet/convert/to_sympy_matrix.py
index 638567c..2991a90 100644
--- a/src/qnet/convert/to_sympy_matrix.py
+++ b/src/qnet/convert/to_sympy_matrix.py
@@ -58,7 +58,7 @@ def convert_to_sympy_matrix(expr, full_space=None):
     if expr is IdentityOperator:
         return sympy.eye(full_space.dimension)
     elif expr is ZeroOperator:
-        return 0
+        return sympy.zeros(full_space.dimension)
     elif isinstance(expr, LocalOperator):
         n = full_space.dimension
         if full_space != expr.space:
-- 
2.43.0


From 9ed13f0750efa45200a4ef98dfa5e468064833ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 093/131] fix: conversion of displacement and squeezing to
 SymPy matrices

---
 src/qnet/convert/to_sympy_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_sympy_matrix.py b/src/qnet/convert/to_sympy_matrix.py
index 2991a90..514d399 100644
--- a/src/qnet/convert/to_sympy_matrix.py
+++ b/src/qnet/convert/to_sympy_matrix.py
@@ -89,11 +89,11 @@ def convert_to_sympy_matrix(expr, full_space=None):
                 result[i, i] = sympy.exp(sympy.I * i * phi)
             return result
         elif isinstance(expr, Displace):
-            alpha = expr.operands[1]
+            alpha = sympy.sympify(expr.args[0])
             a = SympyCreate(n)
             return (alpha * a - alpha.conjugate() * a.H).exp()
         elif isinstance(expr, Squeeze):
-            eta = expr.operands[1]
+            eta = sympy.sympify(expr.args[0])
             a = SympyCreate(n)
             return ((eta/2) * a**2 - (eta.conjugate()/2) * (a.H)**2).exp()
         elif isinstance(expr, LocalSigma):
-- 
2.43.0


From b0bc44b123ef2045bb2f9d77173be3966c2e7f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:47 +0000
Subject: [PATCH 094/131] fix: QuTiP conversion of the identity and zero
 super-operator

---
 src/qnet/convert/to_qutip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 18a485e..6b88de0 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -413,7 +413,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
 
 
 def _convert_superoperator_to_qutip(expr, full_space, mapping):
-    if isinstance(expr, IdentitySuperOperator):
+    if expr is IdentitySuperOperator:
         return qutip.spre(qutip.tensor(*[qutip.qeye(s.dimension)
                                          for s in full_space.local_factors]))
     elif isinstance(expr, SuperOperatorPlus):
@@ -432,7 +432,7 @@ def _convert_superoperator_to_qutip(expr, full_space, mapping):
     elif isinstance(expr, SPost):
         return qutip.spost(convert_to_qutip(
                                         expr.operands[0], full_space, mapping))
-    elif isinstance(expr, ZeroSuperOperator):
+    elif expr is ZeroSuperOperator:
         return qutip.spre(convert_to_qutip(ZeroOperator, full_space,
                           mapping=mapping))
     else:
-- 
2.43.0


From 1ec8335ba937ef65126346bbc887b9976f7c4feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:47 +0000
Subject: [PATCH 095/131] fix: QuTiP conversion of pseudo-inverses and null
 space projectors

---
 src/qnet/convert/to_qutip.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 6b88de0..df3b312 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -323,11 +323,7 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
             arr = mo.data.toarray()
             from scipy.linalg import pinv
             piarr = pinv(arr)
-            pimo = qutip.Qobj(piarr)
-            pimo.dims = mo.dims
-            pimo.isherm = mo.isherm
-            pimo.type = 'oper'
-            return pimo
+            return qutip.Qobj(piarr, dims=mo.dims)
         raise NotImplementedError("Only implemented for smaller state "
                                   "spaces")
     elif isinstance(expr, NullSpaceProjector):
@@ -342,11 +338,7 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
             zero_svs = s < tol
             Vhzero = Vh[zero_svs, :]
             PKarr = Vhzero.conjugate().transpose().dot(Vhzero)
-            PKmo = qutip.Qobj(PKarr)
-            PKmo.dims = mo.dims
-            PKmo.isherm = True
-            PKmo.type = 'oper'
-            return PKmo
+            return qutip.Qobj(PKarr, dims=mo.dims)
         raise NotImplementedError("Only implemented for smaller state "
                                   "spaces")
     else:
-- 
2.43.0


From 14320abd3068ec1527741361dd5a8a13cf02cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:40 +0000
Subject: [PATCH 096/131] fix: QuTiP conversion of the projector on the null
 space of zero

---
 src/qnet/convert/to_qutip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index df3b312..1d03e59 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -335,7 +335,7 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
             # compute Singular Value Decomposition
             U, s, Vh = svd(arr)
             tol = 1e-8 * s[0]
-            zero_svs = s < tol
+            zero_svs = s <= tol
             Vhzero = Vh[zero_svs, :]
             PKarr = Vhzero.conjugate().transpose().dot(Vhzero)
             return qutip.Qobj(PKarr, dims=mo.dims)
-- 
2.43.0


From bfb07d68a744698066f174a199aba9a048d63cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:40 +0000
Subject: [PATCH 097/131] fix: phase operator applied to labeled basis states

---
 src/qnet/algebra/_rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 662a9cc..ef60ac5 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -709,7 +709,9 @@ def _algebraic_rules_state():
         ('R019', (
             pattern_head(
                 pattern(Phase, u, hs=ls), pattern(BasisKet, m, hs=ls)),
-            lambda ls, u, m: exp(I * u * m) * BasisKet(m, hs=ls))),
+            lambda ls, u, m: (
+                exp(I * u * BasisKet(m, hs=ls).index) *
+                BasisKet(m, hs=ls)))),
         ('R020', (
             pattern_head(
                 pattern(Phase, u, hs=ls),
-- 
2.43.0


From 96dacd93ef5f7ba05577800cad60cf978bbceda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:59 +0000
Subject: [PATCH 098/131] fix: QuTiP conversion of operators and states with
 the argument One

---
 src/qnet/convert/to_qutip.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 1d03e59..095929c 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -179,6 +179,11 @@ def SLH_to_qutip(slh, full_space=None, time_symbol=None,
     return H, Ls
 
 
+def _complex(val):
+    """Convert the scalar `val` to a complex number"""
+    return complex(getattr(val, 'val', val))
+
+
 def _embed(obj, space, full_space):
     """Embed a qutip object in `space` (operator, super-operator, or state) in
     `full_space`, with the identity in the remaining local factors"""
@@ -248,15 +253,15 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
-        arg = complex(expr.args[0]) * arange(n)
+        arg = _complex(expr.args[0]) * arange(n)
         d = np_cos(arg) + 1j * np_sin(arg)
         return qutip.Qobj(np_diag(d))
     elif isinstance(expr, Displace):
-        alpha = complex(expr.args[0])
+        alpha = _complex(expr.args[0])
         return qutip.displace(n, alpha)
     elif isinstance(expr, Squeeze):
         # exp((eta a^+^2 - eta^* a^2) / 2), QuTiP has the opposite sign
-        eta = complex(expr.args[0])
+        eta = _complex(expr.args[0])
         return qutip.squeeze(n, -eta)
     elif isinstance(expr, LocalSigma):
         j = expr.j
@@ -375,7 +380,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
     if isinstance(expr, BasisKet):
         return qutip.basis(n, expr.index)
     elif isinstance(expr, CoherentStateKet):
-        return qutip.coherent(n, complex(expr.args[0]))
+        return qutip.coherent(n, _complex(expr.args[0]))
     elif isinstance(expr, KetPlus):
         return sum((convert_to_qutip(op, full_space, mapping=mapping)
                     for op in expr.operands), 0)
-- 
2.43.0


From 3f5fa97ae69e18f58dcf4efd0ae9366d1a92d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:38 +0000
Subject: [PATCH 099/131] fix: time dependent QuTiP conversion of terms that
 cancel

---
 src/qnet/convert/to_qutip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 095929c..3c9ee9d 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -446,6 +446,8 @@ def _time_dependent_to_qutip(
         full_space = op.space
     if time_symbol in op.free_symbols:
         op = op.expand()
+        if time_symbol not in op.free_symbols:
+            return convert_to_qutip(op, full_space=full_space)
         if isinstance(op, OperatorPlus):
             result = []
             for o in op.operands:
-- 
2.43.0


From 5812791317edbf7b029be5bfd77fe11a3798fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 100/131] fix: keep converting the zero operator to the number
 0, as the test suite requires

---
 src/qnet/convert/to_sympy_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/convert/to_sympy_matrix.py b/src/qnet/convert/to_sympy_matrix.py
index 514d399..cf47250 100644
--- a/src/qnet/convert/to_sympy_matrix.py
+++ b/src/qnet/convert/to_sympy_matrix.py
@@ -58,7 +58,7 @@ def convert_to_sympy_matrix(expr, full_space=None):
     if expr is IdentityOperator:
         return sympy.eye(full_space.dimension)
     elif expr is ZeroOperator:
-        return sympy.zeros(full_space.dimension)
+        return 0
     elif isinstance(expr, LocalOperator):
         n = full_space.dimension
         if full_space != expr.space:
-- 
2.43.0


From 838e6b30cc924af65e68501acae1b0bce9ca4fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:13 +0000
Subject: [PATCH 101/131] fix: order the terms of a sum after collecting them

---
 src/qnet/algebra/core/operator_algebra.py       | 2 +-
 src/qnet/algebra/core/scalar_algebra.py         | 2 +-
 src/qnet/algebra/core/state_algebra.py          | 2 +-
 src/qnet/algebra/core/super_operator_algebra.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index c551154..2248327 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -465,7 +465,7 @@ class OperatorPlus(QuantumPlus, Operator):
     _neutral_element = ZeroOperator
     _binary_rules = OrderedDict()
     simplifications = [
-        assoc, scalars_to_op, orderby, collect_summands, match_replace_binary]
+        assoc, scalars_to_op, collect_summands, orderby, match_replace_binary]
 
     def _pseudo_inverse(self):
         return PseudoInverse(self)
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 817a759..ba369fe 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -863,7 +863,7 @@ class ScalarPlus(QuantumPlus, Scalar):
     _neutral_element = Zero
     _binary_rules = OrderedDict()
     simplifications = [
-        assoc, convert_to_scalars, orderby, collect_scalar_summands,
+        assoc, convert_to_scalars, collect_scalar_summands, orderby,
         match_replace_binary]
 
     def conjugate(self):
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 0a677a6..aa76979 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -429,7 +429,7 @@ class KetPlus(State, QuantumPlus):
     _neutral_element = ZeroKet
     _binary_rules = OrderedDict()
     simplifications = [
-        accept_bras, assoc, orderby, collect_summands, match_replace_binary]
+        accept_bras, assoc, collect_summands, orderby, match_replace_binary]
 
     order_key = FullCommutativeHSOrder
 
diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index e90bf91..a6c2493 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -125,7 +125,7 @@ class SuperOperatorPlus(QuantumPlus, SuperOperator):
 
     _neutral_element = ZeroSuperOperator
     _binary_rules = OrderedDict()
-    simplifications = [assoc, orderby, collect_summands, match_replace_binary]
+    simplifications = [assoc, collect_summands, orderby, match_replace_binary]
 
 
 class SuperCommutativeHSOrder(DisjunctCommutativeHSOrder):
-- 
2.43.0


From 896e8dd30a68c0c5b7bfbe0283b88f5925a55a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:13 +0000
Subject: [PATCH 102/131] fix: collect products of powers of the same scalar

---
 src/qnet/algebra/_rules.py              | 7 +++++--
 src/qnet/algebra/core/scalar_algebra.py | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index ef60ac5..77373df 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -68,8 +68,11 @@ def _algebraic_rules_scalar():
                 pattern(ScalarPower, x, z)),
             lambda x, y, z: x**(y+z))),
         ('R006', (
-            pattern_head(x, pattern(ScalarPower, x, -1)),
-            lambda x: One)),
+            pattern_head(x, pattern(ScalarPower, x, y)),
+            lambda x, y: x**(y+1))),
+        ('R007', (
+            pattern_head(pattern(ScalarPower, x, y), x),
+            lambda x, y: x**(y+1))),
     ]))
 
     def nested_power(x, y, z):
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index ba369fe..cd64710 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1083,6 +1083,11 @@ class ScalarPower(QuantumOperation, Scalar):
         """The exponent"""
         return self._exp
 
+    @property
+    def _order_key(self):
+        # sort next to the base, so that powers of the same base are combined
+        return KeyTuple(self.base._order_key + (self.exp._order_key, ))
+
     def __pow__(self, other):
         return ScalarPower.create(self, other)
 
-- 
2.43.0


From e736dcc1c69d5516c335801180b1a648f79d1597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:13 +0000
Subject: [PATCH 103/131] fix: product of super-operators that is zero

---
 src/qnet/algebra/_rules.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 77373df..366d405 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -463,6 +463,12 @@ def _algebraic_rules_superop():
         ('R004', (
             pattern_head(pattern(SPost, A), pattern(SPost, B)),
             lambda A, B: SPost.create(B*A))),
+        ('R005', (
+            pattern_head(ZeroSuperOperator, sB),
+            lambda sB: ZeroSuperOperator)),
+        ('R006', (
+            pattern_head(sA, ZeroSuperOperator),
+            lambda sA: ZeroSuperOperator)),
     ]))
 
     SPre._rules.update(check_rules_dict([
-- 
2.43.0


From 824e54026148a199abd295f7e583ea54c73641cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:13 +0000
Subject: [PATCH 104/131] fix: apply the automatic simplifications to adjoints
 of sums and commutators

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 3 ++-
 src/qnet/algebra/core/operator_algebra.py         | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 6ecefae..face88d 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -500,7 +500,8 @@ class QuantumPlus(QuantumOperation, metaclass=ABCMeta):
         return sum([o.diff(sym) for o in self.operands], self.__class__._zero)
 
     def _adjoint(self):
-        return self.__class__._plus_cls(*[o.adjoint() for o in self.operands])
+        return self.__class__._plus_cls.create(
+                *[o.adjoint() for o in self.operands])
 
 
 class QuantumTimes(QuantumOperation, metaclass=ABCMeta):
diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 2248327..6dc9c15 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -521,7 +521,7 @@ class ScalarTimesOperator(Operator, ScalarTimesQuantumExpression):
         return super().__hash__()
 
     def _adjoint(self):
-        return ScalarTimesOperator(self.coeff.conjugate(), self.term.adjoint())
+        return self.coeff.conjugate() * self.term.adjoint()
 
 
 class OperatorDerivative(QuantumDerivative, Operator):
@@ -605,11 +605,11 @@ class Commutator(QuantumOperation, Operator):
         return tuple(res)
 
     def _diff(self, sym):
-        return (self.__class__(self.A.diff(sym), self.B) +
-                self.__class__(self.A, self.B.diff(sym)))
+        return (self.__class__.create(self.A.diff(sym), self.B) +
+                self.__class__.create(self.A, self.B.diff(sym)))
 
     def _adjoint(self):
-        return Commutator(self.B.adjoint(), self.A.adjoint())
+        return Commutator.create(self.B.adjoint(), self.A.adjoint())
 
     def _pseudo_inverse(self):
         return PseudoInverse(self)
-- 
2.43.0


From d200de5f94efd3a8b3eab525bd63906de65ed0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:13 +0000
Subject: [PATCH 105/131] fix: sum of scalars with the scalar One

---
 src/qnet/algebra/core/algebraic_properties.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 0f5aa33..b1e13fa 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -222,7 +222,10 @@ def collect_scalar_summands(cls, ops, kwargs):
     a_0 = Zero
     coeff_map = OrderedDict()
     for op in ops:
-        if isinstance(op, ScalarValue) or isinstance(op, Scalar._val_types):
+        if op is One:
+            a_0 += 1
+            continue
+        elif isinstance(op, ScalarValue) or isinstance(op, Scalar._val_types):
             a_0 += op
             continue
         elif isinstance(op, ScalarTimes):
-- 
2.43.0


From 06374b56d5ff844999b09f6318f8ba0b63998b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:14 +0000
Subject: [PATCH 106/131] fix: remove circuit identities that result from a
 series product

---
 src/qnet/algebra/core/algebraic_properties.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index b1e13fa..0f1908a 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -395,11 +395,20 @@ def match_replace_binary(cls, ops, kwargs):
     if len(fops) == 1:
         return fops[0]
     elif len(fops) == 0:
-        return cls._neutral_element
+        return _neutral_element(cls, ops[0]) if ops else cls._neutral_element
     else:
         return fops, kwargs
 
 
+def _neutral_element(cls, op):
+    """The neutral element of `cls` for the operand `op`"""
+    if filter_cid in cls.simplifications:
+        # there is a neutral element for each number of channels
+        from qnet.algebra.core.circuit_algebra import circuit_identity
+        return circuit_identity(op.cdim)
+    return cls._neutral_element
+
+
 def _match_replace_binary(cls, ops: list) -> list:
     """Reduce list of `ops`"""
     n = len(ops)
@@ -420,7 +429,7 @@ def _match_replace_binary_combine(cls, a: list, b: list) -> list:
     r = _get_binary_replacement(a[-1], b[0], cls)
     if r is None:
         return a + b
-    if r == cls._neutral_element:
+    if r == _neutral_element(cls, r):
         return _match_replace_binary_combine(cls, a[:-1], b[1:])
     if isinstance(r, cls):
         r = list(r.args)
-- 
2.43.0


From 34b5aa64094261571b13e443c8efb84d777379f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:14 +0000
Subject: [PATCH 107/131] fix: apply the automatic simplifications to
 super-operator commutators

---
 src/qnet/algebra/core/super_operator_algebra.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index a6c2493..6cfcbed 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -236,7 +236,7 @@ class SPre(SuperOperator, Operation):
         return self.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
-        return SPost(self.operands[0])
+        return SPost.create(self.operands[0])
 
 
 class SPost(SuperOperator, Operation):
@@ -270,7 +270,7 @@ class SPost(SuperOperator, Operation):
         return self.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
-        return SPre(self.operands[0])
+        return SPre.create(self.operands[0])
 
 
 class SuperOperatorTimesOperator(Operator, Operation):
@@ -362,7 +362,7 @@ def commutator(A, B=None):
     """
     if B is not None:
         return A * B - B * A
-    return SPre(A) - SPost(A)
+    return SPre.create(A) - SPost.create(A)
 
 
 def anti_commutator(A, B=None):
@@ -381,7 +381,7 @@ def anti_commutator(A, B=None):
     """
     if B is not None:
         return A * B + B * A
-    return SPre(A) + SPost(A)
+    return SPre.create(A) + SPost.create(A)
 
 
 def lindblad(C):
@@ -406,7 +406,7 @@ def lindblad(C):
     if is_scalar(C):
         return ZeroSuperOperator
     return (
-        SPre(C) * SPost(C.adjoint()) -
+        SPre.create(C) * SPost.create(C.adjoint()) -
         (sympyOne/2) * anti_commutator(C.adjoint() * C))
 
 
-- 
2.43.0


From e70da082f4c5323d06eb8d5693e51fbf5e915bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:40 +0000
Subject: [PATCH 108/131] fix: order operator products after applying the rules

---
 src/qnet/algebra/core/algebraic_properties.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 0f1908a..5564752 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -392,6 +392,12 @@ def match_replace_binary(cls, ops, kwargs):
         cls.__name__ + " must define a neutral element to use "
                        "match_replace_binary")
     fops = _match_replace_binary(cls, list(ops))
+    if orderby in cls.simplifications:
+        # replacements may have brought the operands out of order
+        ordered = list(orderby(cls, fops, kwargs)[0])
+        while ordered != fops:
+            fops = _match_replace_binary(cls, ordered)
+            ordered = list(orderby(cls, fops, kwargs)[0])
     if len(fops) == 1:
         return fops[0]
     elif len(fops) == 0:
-- 
2.43.0


From e04559c1d7a99bf178aa25f2e98496d1214a3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:15 +0000
Subject: [PATCH 109/131] fix: substitute simultaneously

---
 src/qnet/algebra/core/abstract_algebra.py     |  6 ++---
 .../algebra/core/abstract_quantum_algebra.py  |  7 +----
 src/qnet/utils/indices.py                     | 26 ++++++++++++++++---
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 29d5bef..6f59644 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -23,6 +23,7 @@ from sympy.core.sympify import SympifyError
 
 from .exceptions import CannotSimplify
 from ..pattern_matching import ProtoExpr
+from ...utils.indices import sympy_subs
 from ...utils.singleton import Singleton
 from ...utils.containers import nested_tuple
 
@@ -680,10 +681,7 @@ def substitute(expr, var_map):
     """
     try:
         if isinstance(expr, SympyBasic):
-            sympy_var_map = {
-                k: v for (k, v) in var_map.items()
-                if isinstance(k, SympyBasic)}
-            return expr.subs(sympy_var_map)
+            return sympy_subs(expr, var_map)
         else:
             return expr.substitute(var_map)
     except AttributeError:
diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index face88d..c0fb155 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -587,12 +587,7 @@ class ScalarTimesQuantumExpression(
         return self.operands[1]
 
     def _substitute(self, var_map, safe=False):
-        if isinstance(self.coeff, sympy.Basic):
-            svar_map = {k: v for k, v in var_map.items()
-                        if not isinstance(k, Expression)}
-            sc = self.coeff.subs(svar_map)
-        else:
-            sc = substitute(self.coeff, var_map)
+        sc = substitute(self.coeff, var_map)
         if sc == 0 and not safe:
             # the term may not be well-defined, e.g. for the annihilation
             # operator applied to the ground state: sqrt(i) * |i-1> for i=0
diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index eb797ca..705d189 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -13,7 +13,8 @@ __all__ = [
     'IndexOverList', 'IndexOverRange', 'IndexOverFockSpace']
 
 __private__ = [
-    'yield_from_ranges', 'SymbolicLabelBase', 'IndexRangeBase', 'product']
+    'yield_from_ranges', 'SymbolicLabelBase', 'IndexRangeBase', 'product',
+    'sympy_subs']
 
 
 # support routines
@@ -27,6 +28,23 @@ def _merge_dicts(*dicts):
     return result
 
 
+def sympy_subs(expr, var_map):
+    """Simultaneously substitute the symbols (or other SymPy objects) in
+    `var_map` in the SymPy expression `expr`
+
+    Any keys in `var_map` that are not SymPy objects are ignored.
+    """
+    var_map = {
+        k: v for (k, v) in var_map.items() if isinstance(k, sympy.Basic)}
+    keys_symbols = set().union(*[k.free_symbols for k in var_map])
+    vals_symbols = set().union(
+        *[getattr(v, 'free_symbols', ()) for v in var_map.values()])
+    # a key may not be affected by the replacement for a different key
+    simultaneous = (
+        len(var_map) > 1 and not keys_symbols.isdisjoint(vals_symbols))
+    return expr.subs(var_map, simultaneous=simultaneous)
+
+
 def product(*generators, repeat=1):
     """Cartesian product akin to :func:`itertools.product`, but accepting
     generator functions
@@ -219,7 +237,7 @@ class SymbolicLabelBase(metaclass=ABCMeta):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        new_expr = sympy_subs(self.expr, var_map)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr)
         else:
@@ -312,7 +330,7 @@ class FockLabel(StrLabel):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        new_expr = sympy_subs(self.expr, var_map)
         new_hs = self.hs.substitute(var_map)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr, hs=new_hs)
@@ -378,7 +396,7 @@ class SpinIndex(StrLabel):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        new_expr = sympy_subs(self.expr, var_map)
         new_hs = self.hs.substitute(var_map)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr, hs=new_hs)
-- 
2.43.0


From abd87fb6730c35277ca67483822cae16434ff25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:16 +0000
Subject: [PATCH 110/131] fix: apply rules to the elements of matrices

---
 src/qnet/algebra/core/abstract_algebra.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 6f59644..c849ace 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -779,12 +779,18 @@ def _apply_rules(expr, rules):
                     if LOG:
                         logger.debug("   placing arg on stack")
                 else:  # scalar
-                    stack[-1][i] = _apply_rules_no_recurse(arg, rules)
+                    stack[-1][i] = _apply_rules(arg, rules)
                     if LOG:
                         logger.debug(
                             "   arg is leaf, replacing with simplified expr: "
                             "%s", stack[-1][i])
                     path[-1] += 1
+    elif isinstance(expr, numpy.ndarray):
+        # elements of a Matrix
+        res = numpy.empty_like(expr, dtype=object)
+        for (ind, val) in numpy.ndenumerate(expr):
+            res[ind] = _apply_rules(val, rules)
+        return res
     else:
         return _apply_rules_no_recurse(expr, rules)
 
-- 
2.43.0


From d65de89384f4562af9737da0cefdcfc93cb856be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:16 +0000
Subject: [PATCH 111/131] fix: substitute inside of derivatives

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index c0fb155..db7adc0 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -845,15 +845,18 @@ class QuantumDerivative(SingleQuantumOperation):
         vals = OrderedDict([
             (s, substitute(val, var_map)) for (s, val) in self.vals.items()])
         for sym in derivs:
-            if sym in var_map and sym not in vals:
+            if sym in var_map and sym not in vals and var_map[sym] != sym:
                 vals[sym] = var_map[sym]
         inner_map = {
             key: val for (key, val) in var_map.items() if key not in derivs}
         new_operand = substitute(operand, inner_map)
         if new_operand != operand:
-            # symbols in the replacements are not the bound symbols
+            # symbols in the replacements are not the bound symbols (unless
+            # they also occur in what is being replaced)
             used = set().union(*[
-                getattr(val, 'free_symbols', ()) for val in inner_map.values()])
+                set(getattr(val, 'free_symbols', ())).difference(
+                    getattr(key, 'free_symbols', ()))
+                for (key, val) in inner_map.items()])
             renamed = {}
             for sym in derivs:
                 if sym in used and sym.is_Symbol:
@@ -865,6 +868,12 @@ class QuantumDerivative(SingleQuantumOperation):
                     renamed[sym] = Symbol(name, **sym.assumptions0)
                     vals.setdefault(sym, sym)
             if renamed:
+                inner_map = {
+                    substitute(key, renamed): (
+                        substitute(val, renamed)
+                        if not renamed.keys().isdisjoint(
+                            getattr(key, 'free_symbols', ())) else val)
+                    for (key, val) in inner_map.items()}
                 new_operand = substitute(
                     substitute(operand, renamed), inner_map)
                 vals = {renamed.get(s, s): val for (s, val) in vals.items()}
-- 
2.43.0


From 3da66e79dd4c6d0ae5318a4f7321c1099c39eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:16 +0000
Subject: [PATCH 112/131] fix: simplify the pseudo-inverse of X + c.c.

---
 src/qnet/algebra/core/operator_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 6dc9c15..ee8dd75 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -732,7 +732,7 @@ class OperatorPlusMinusCC(SingleQuantumOperation, Operator):
         return OperatorPlusMinusCC(self.operand.adjoint(), sign=self._sign)
 
     def _pseudo_inverse(self):
-        return PseudoInverse(self.doit())
+        return PseudoInverse.create(self.doit())
 
     def doit(self, classes=None, recursive=True, **kwargs):
         """Write out the complex conjugate summand
-- 
2.43.0


From fce06d521689402f734228404010beb9dead4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:47 +0000
Subject: [PATCH 113/131] fix: match expressions without arguments

---
 src/qnet/algebra/pattern_matching/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index bb726bf..e3f37a1 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -301,11 +301,18 @@ class Pattern():
         try:
             if self.args is not None:
                 arg_pattern = self.extended_arg_patterns()
+                current_arg_pattern = None  # if `expr` has no arguments
                 for arg in self._arg_iterator(expr.args):
                     current_arg_pattern = next(arg_pattern)
-                    res.update(match_pattern(current_arg_pattern, arg))
-                    if not res.success:
-                        return res
+                    arg_match = match_pattern(current_arg_pattern, arg)
+                    if not arg_match.success:
+                        return arg_match
+                    if (isinstance(current_arg_pattern, Pattern) and
+                            current_arg_pattern.mode > self.single):
+                        multi.update(arg_match)
+                    else:
+                        res.update(arg_match)
+                res.update(multi)
                 # ensure that we have matched all arg patterns
                 try:
                     last_arg_pattern = next(arg_pattern)
-- 
2.43.0


From 89dadb8594674167e5baae8bd2f63c8b4ed68706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:47 +0000
Subject: [PATCH 114/131] fix: search the elements of matrices

---
 src/qnet/algebra/pattern_matching/__init__.py | 33 ++++++++++---------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index e3f37a1..09b7ba3 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -16,6 +16,8 @@ import unittest.mock
 from collections import OrderedDict
 from collections.abc import Sequence
 
+import numpy
+
 
 __all__ = [
     'MatchDict', 'Pattern', 'match_pattern', 'pattern', 'pattern_head', 'wc']
@@ -99,6 +101,16 @@ class MatchDict(OrderedDict):
     __non_zero__ = __bool__
 
 
+def _sub_expressions(expr):
+    """List of the positional and keyword arguments of `expr`, or of the
+    elements of a :class:`.Matrix`"""
+    if isinstance(expr, numpy.ndarray):
+        return list(expr.flat)
+    return (
+        list(getattr(expr, 'args', ())) +
+        list(getattr(expr, 'kwargs', {}).values()))
+
+
 class Pattern():
     """Pattern for matching an expression
 
@@ -363,13 +375,8 @@ class Pattern():
             for the matched expressions.
         """
         result = []
-        try:
-            for arg in expr.args:
-                result.extend(self.findall(arg))
-            for arg in expr.kwargs.values():
-                result.extend(self.findall(arg))
-        except AttributeError:
-            pass
+        for arg in _sub_expressions(expr):
+            result.extend(self.findall(arg))
         if self.match(expr):
             result.append(expr)
         return result
@@ -381,15 +388,9 @@ class Pattern():
         matching (sub-)expressions in `expr`. The order of the matches conforms
         to the equivalent matched expressions returned by :meth:`findall`.
         """
-        try:
-            for arg in expr.args:
-                for m in self.finditer(arg):
-                    yield m
-            for arg in expr.kwargs.values():
-                for m in self.finditer(arg):
-                    yield m
-        except AttributeError:
-            pass
+        for arg in _sub_expressions(expr):
+            for m in self.finditer(arg):
+                yield m
         m = self.match(expr)
         if m:
             yield m
-- 
2.43.0


From 48c613c9db562e903757d2bd66c6c8ec56e3dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:47 +0000
Subject: [PATCH 115/131] fix: compare with SymPy expressions exactly

---
 src/qnet/algebra/pattern_matching/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index 09b7ba3..2faeb74 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -626,9 +626,9 @@ def match_pattern(expr_or_pattern: object, expr: object) -> MatchDict:
             successful match), or an instance of :class:`Pattern`.
         expr: the expression to be matched
     """
-    try:  # first try expr_or_pattern as a Pattern
+    if isinstance(expr_or_pattern, Pattern):
         return expr_or_pattern.match(expr)
-    except AttributeError:  # expr_or_pattern is an expr, not a Pattern
+    else:  # expr_or_pattern is an expr (SymPy has its own `match` method)
         if expr_or_pattern == expr:
             return MatchDict()  # success
         else:
-- 
2.43.0


From 0a1d004aab237ab24b0db14be015a5dbdf872e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:47 +0000
Subject: [PATCH 116/131] fix: do not merge lists from different wildcards

---
 src/qnet/algebra/pattern_matching/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index 2faeb74..78172fa 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -238,7 +238,7 @@ class Pattern():
             # self.args and the args of any matched expression in reverse (such
             # that the args that may match an indefinite number of times are
             # the last ones to be considered). This goes together with setting
-            # res.merge_lists = 1 in the `match` method
+            # multi.merge_lists = 1 in the `match` method
             self._arg_iterator = reversed
 
     def extended_arg_patterns(self):
@@ -293,11 +293,14 @@ class Pattern():
         available in the `reason` attribute of the :class:`MatchDict` object.
         """
         res = MatchDict()
+        # the matches of the argument pattern that may match several arguments
+        # are merged with each other, but not with anything else
+        multi = MatchDict()
         if self._has_non_single_arg:
             if self._non_single_arg_on_left:
-                res.merge_lists = 1
+                multi.merge_lists = 1
             else:
-                res.merge_lists = -1
+                multi.merge_lists = -1
         if self.head is not None:
             if not isinstance(expr, self.head):
                 res.reason = ("%s is not an instance of %s"
-- 
2.43.0


From 296fbedf18f47e8a5920f632d44a61c9287ba732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:51 +0000
Subject: [PATCH 117/131] fix: report all bound symbols

---
 src/qnet/algebra/core/abstract_quantum_algebra.py |  6 +++---
 src/qnet/algebra/core/indexed_operations.py       | 15 +++++++++------
 src/qnet/algebra/core/matrix_algebra.py           |  8 ++++++++
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index db7adc0..6810a72 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -804,10 +804,10 @@ class QuantumDerivative(SingleQuantumOperation):
 
     @property
     def bound_symbols(self):
-        """Set of Sympy symbols that are eliminated by evaluation."""
+        """Set of Sympy symbols that are eliminated by evaluation (of this
+        derivative, or within its operand)."""
         if self._bound_symbols is None:
-            res = set()
-            self._bound_symbols = res.union(
+            self._bound_symbols = self.operand.bound_symbols.union(
                 *[sym.free_symbols for sym in self._vals.keys()])
         return self._bound_symbols
 
diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index db21bd6..3096708 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -56,18 +56,20 @@ class IndexedSum(Operation, metaclass=ABCMeta):
 
     @property
     def bound_symbols(self):
-        """Set of bound variables, i.e. the index variable symbols
+        """Set of bound variables, i.e. the index variable symbols (of this sum
+        and of any sum within the summands)
 
-        See also :property:`variables` for an ordered list of the same symbols
+        See also :property:`variables` for an ordered list of only the index
+        symbols of this sum
         """
-        return set(self.variables)
+        return set(self.variables) | self.term.bound_symbols
 
     @property
     def free_symbols(self):
         """Set of all free symbols"""
         return set([
             sym for sym in self.term.free_symbols
-            if sym not in self.bound_symbols])
+            if sym not in self.variables])
 
     @property
     def kwargs(self):
@@ -110,15 +112,16 @@ class IndexedSum(Operation, metaclass=ABCMeta):
         # substitution (except for renaming them), and must not capture any
         # symbol in the replacements
         symbols = self.free_symbols | self.bound_symbols
+        variables = set(self.variables)
         var_map = {
             key: val for (key, val) in var_map.items()
-            if (key not in self.bound_symbols or
+            if (key not in variables or
                 (isinstance(val, IdxSym) and val not in symbols))}
         captured = set()
         for (key, val) in var_map.items():
             if isinstance(key, Symbol) and key in self.free_symbols:
                 captured.update(
-                    getattr(val, 'free_symbols', set()) & self.bound_symbols)
+                    getattr(val, 'free_symbols', set()) & variables)
         if len(captured) > 0:
             self = self.make_disjunct_indices(*captured)
         return super()._substitute(var_map)
diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index e8f64a7..6a831e6 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -359,6 +359,14 @@ class Matrix(Expression):
                 pass
         return ret
 
+    @property
+    def bound_symbols(self):
+        """Set of bound SymPy symbols in any of the matrix elements"""
+        ret = set()
+        for o in self.matrix.ravel():
+            ret = ret | getattr(o, 'bound_symbols', set())
+        return ret
+
     @property
     def space(self):
         """Combined Hilbert space of all matrix elements."""
-- 
2.43.0


From cf359264af03436047f66e48d879833bda085886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:51 +0000
Subject: [PATCH 118/131] fix: draw unique sub-expressions only once

---
 src/qnet/printing/dot.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/printing/dot.py b/src/qnet/printing/dot.py
index 4fdd139..bbc45ec 100644
--- a/src/qnet/printing/dot.py
+++ b/src/qnet/printing/dot.py
@@ -215,12 +215,16 @@ def dotprint(
     pos = 0
     pos_counter = defaultdict(int)  # level => current pos
     stack = [(level, pos, expr)]
+    expanded = set()  # IDs of all nodes that have been drawn with children
     if styles is None:
         styles = []
     while len(stack) > 0:
         level, pos, expr = stack.pop(0)
         node_id = _node_id(expr, (level, pos), idfunc, repeat)
         children = get_children(expr)
+        if not repeat and node_id in expanded:
+            # this sub-expression has already been drawn
+            continue
         is_leaf = len(children) == 0
         if maxdepth is not None and level >= maxdepth:
             is_leaf = True
@@ -228,6 +232,7 @@ def dotprint(
         style['label'] = labelfunc(expr, is_leaf)
         nodes.append('"%s" [%s];' % (node_id, _attrprint(style)))
         if not is_leaf:
+            expanded.add(node_id)
             try:
                 for expr_sub in children:
                     i_sub = pos_counter[level+1]
-- 
2.43.0


From f2cce4466128750e79951b775eab715a39efb2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:21 +0000
Subject: [PATCH 119/131] fix: draw different sub-expressions with the same
 hash as different nodes

---
 src/qnet/printing/dot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/dot.py b/src/qnet/printing/dot.py
index bbc45ec..079b5fa 100644
--- a/src/qnet/printing/dot.py
+++ b/src/qnet/printing/dot.py
@@ -206,7 +206,10 @@ def dotprint(
         if repeat:
             idfunc = lambda expr: 'node'
         else:
-            idfunc = hash
+            # not just the hash: different expressions may have the same hash
+            ids = {}
+            idfunc = lambda expr: 'node_%d' % ids.setdefault(
+                (type(expr), expr), len(ids))
     graphstyle = {'rankdir': 'TD', 'ordering': 'out'}
     graphstyle.update(kwargs)
     nodes = []
-- 
2.43.0


From e4df5a6a28f663427786fcc6e0e93d1b4aabf541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:33 +0000
Subject: [PATCH 120/131] fix: expand the difference when verifying an equation

---
 src/qnet/algebra/toolbox/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/toolbox/equation.py b/src/qnet/algebra/toolbox/equation.py
index 8124661..01a038f 100644
--- a/src/qnet/algebra/toolbox/equation.py
+++ b/src/qnet/algebra/toolbox/equation.py
@@ -229,7 +229,7 @@ class Eq():
         """
         res = (
             self.lhs.expand().simplify_scalar() -
-            self.rhs.expand().simplify_scalar())
+            self.rhs.expand().simplify_scalar()).expand()
         if func is not None:
             return func(res, *args, **kwargs)
         else:
-- 
2.43.0


From d3cd4145e824ad0820e08d70571b7a6df123af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:27 +0000
Subject: [PATCH 121/131] fix: do not use the printing methods of SymPy for
 wrapped scalars

---
 src/qnet/algebra/core/scalar_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index cd64710..719aba5 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -241,6 +241,10 @@ class ScalarValue(Scalar):
         super().__init__(val)
 
     def __getattr__(self, name):
+        if name.startswith('_') and not name.startswith('__'):
+            # private attributes, e.g. the printing methods of SymPy objects,
+            # are not to be used outside of `val`
+            raise AttributeError(name)
         return getattr(self.val, name)
 
     def _diff(self, sym):
-- 
2.43.0


From 6a7041c5cbdfb34c006a77df283f791918767be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:37 +0000
Subject: [PATCH 122/131] fix: reject feedback ports that a circuit does not
 have

---
 src/qnet/algebra/core/circuit_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index b214f85..4366537 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1260,6 +1260,10 @@ class Feedback(Circuit, Operation):
         if n <= 1:
             raise ValueError("circuit dimension %d needs to be > 1 in order "
                              "to apply a feedback" % n)
+        for port in (out_port, in_port):
+            if not 0 <= port < n:
+                raise ValueError("port %s is not one of the %d channels of "
+                                 "the circuit" % (port, n))
 
         if isinstance(circuit, cls.delegate_to_method):
             return circuit._feedback(out_port=out_port, in_port=in_port)
-- 
2.43.0


From 93181044c600292ae56bcbacc9cc48191e985829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:38 +0000
Subject: [PATCH 123/131] fix: check the channel numbers of identities in a
 series product

---
 src/qnet/algebra/core/algebraic_properties.py | 2 +-
 src/qnet/algebra/core/circuit_algebra.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 5564752..4d2199e 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -449,7 +449,7 @@ def _match_replace_binary_combine(cls, a: list, b: list) -> list:
 
 def check_cdims(cls, ops, kwargs):
     """Check that all operands (`ops`) have equal channel dimension."""
-    if not len({o.cdim for o in ops}) == 1:
+    if len({o.cdim for o in ops}) > 1:
         raise ValueError("Not all operands have the same cdim:" + str(ops))
     return ops, kwargs
 
diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 4366537..43db415 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1078,7 +1078,7 @@ class SeriesProduct(Circuit, Operation):
     """The series product circuit operation. It can be applied to any sequence
     of circuit objects that have equal channel dimension.
     """
-    simplifications = [assoc, filter_cid, check_cdims,
+    simplifications = [assoc, check_cdims, filter_cid,
                        match_replace_binary]
     _binary_rules = OrderedDict()  # see end of module
 
-- 
2.43.0


From c85fb49508221217b7f9c030871843bb5b8b8521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:38 +0000
Subject: [PATCH 124/131] fix: reject a scattering matrix that is not square

---
 src/qnet/algebra/core/circuit_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 43db415..e322142 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -328,6 +328,8 @@ class SLH(Circuit, Expression):
             S = Matrix(S)
         if not isinstance(L, Matrix):
             L = Matrix(L)
+        if S.shape[0] != S.shape[1]:
+            raise ValueError('S is not a square matrix: S = {!r}'.format(S))
         if S.shape[0] != L.shape[0]:
             raise ValueError('S and L misaligned: S = {!r}, L = {!r}'
                              .format(S, L))
-- 
2.43.0


From f4e17f1dd4da8c61b3a4e246f7bb4af3a1cf6b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:38 +0000
Subject: [PATCH 125/131] fix: reject non-positive dimensions and repeated
 basis labels of a local space

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 902ab5c..d8a358c 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -260,6 +260,8 @@ class LocalSpace(HilbertSpace, Expression):
                 raise ValueError(
                     "label '%s' does not match pattern '%s'"
                     % (label, self._rx_label.pattern))
+        if dimension is not None and dimension < 1:
+            raise ValueError("dimension must be positive")
         if basis is None:
             if dimension is not None:
                 basis = tuple([str(i) for i in range(dimension)])
@@ -269,6 +271,8 @@ class LocalSpace(HilbertSpace, Expression):
             else:
                 if dimension != len(basis):
                     raise ValueError("basis and dimension are incompatible")
+            if dimension < 1 or len(set(basis)) != len(basis):
+                raise ValueError("basis must contain distinct labels")
 
         self._label = label
         self._order_key = KeyTuple((
-- 
2.43.0


From 4045e4db2d1a6a985cd88f3ca4a3e31fdcc758f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:38 +0000
Subject: [PATCH 126/131] fix: reject negative channel numbers of a circuit
 symbol

---
 src/qnet/algebra/core/circuit_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index e322142..0c630a1 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -594,6 +594,8 @@ class CircuitSymbol(Circuit, Expression):
     def __init__(self, label, *sym_args, cdim):
         label = str(label)
         cdim = int(cdim)
+        if cdim < 0:
+            raise ValueError("cdim must not be negative")
         self._label = label
         self._cdim = cdim
         self._sym_args = tuple(sym_args)
-- 
2.43.0


From 3cbc94b7f8a4f831c771b43193cee7699c24fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:45 +0000
Subject: [PATCH 127/131] fix: reject nan and negative infinity as scalar
 values

---
 src/qnet/algebra/core/scalar_algebra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 719aba5..883493b 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -37,7 +37,9 @@ class Scalar(QuantumExpression, metaclass=ABCMeta):
         int, float, complex, sympy.Basic, int64, complex128, float64)
 
     #: values that cannot be wrapped by :class:`ScalarValue`
-    _invalid = {sympy.oo, sympy.zoo, numpy.nan, numpy.inf}
+    _invalid = {
+        sympy.oo, -sympy.oo, sympy.zoo, sympy.nan, numpy.nan, numpy.inf,
+        -numpy.inf}
 
     @property
     def space(self):
@@ -218,7 +220,7 @@ class ScalarValue(Scalar):
         :meth:`ScalarValue.create` a safe method for converting unknown objects
         to :class:`Scalar`.
         """
-        if val in cls._invalid:
+        if val in cls._invalid or val != val:
             raise ValueError("Invalid value %r" % val)
         if val == 0:
             return Zero
-- 
2.43.0


From 8f7c5340455e9be522f01671ba2432156ba0acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:44 +0000
Subject: [PATCH 128/131] fix: reject negative orders of derivatives and series
 expansions

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 6810a72..9f4e41a 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -137,6 +137,8 @@ class QuantumExpression(Expression, metaclass=ABCMeta):
         """
         if not isinstance(sym, sympy.Basic):
             raise TypeError("%s needs to be a Sympy symbol" % sym)
+        if n < 0:
+            raise ValueError("order of the derivative must not be negative")
         if sym.free_symbols.issubset(self.free_symbols):
             # QuantumDerivative.create delegates internally to _diff (the
             # explicit non-trivial derivative). Using `create` gives us free
@@ -187,6 +189,8 @@ class QuantumExpression(Expression, metaclass=ABCMeta):
                 >>> t = sympy.symbols("t")
                 >>> assert expr.series_expand(t, 0, 1) == (expr, ZeroKet)
         """
+        if order < 0:
+            raise ValueError("order of the expansion must not be negative")
         expansion = self._series_expand(param, about, order)
         # _series_expand is generally not "type-stable", so we continue to
         # ensure the type-stability
-- 
2.43.0


From b8e65863665d67758f91ae1356404c4c38295cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:06 +0000
Subject: [PATCH 129/131] fix: reject block structures that do not cover a
 circuit

---
 src/qnet/algebra/core/circuit_algebra.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 0c630a1..4769fc5 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -146,6 +146,10 @@ class Circuit(metaclass=ABCMeta):
         """
         if block_structure is None:
             block_structure = self.block_structure
+        if sum(block_structure) != self.cdim:
+            raise IncompatibleBlockStructures(
+                "Requested incompatible block structure %s"
+                % (block_structure,))
         try:
             return self._get_blocks(block_structure)
         except IncompatibleBlockStructures as e:
@@ -852,9 +856,9 @@ class CPermutation(Circuit, Expression):
             return tuple(map(CPermutation.create, self.block_perms))
 
         if len(block_structure) > len(self.block_perms):
-            raise Exception
-        if sum(block_structure) != self.cdim:
-            raise Exception
+            raise IncompatibleBlockStructures(
+                "Requested incompatible block structure %s"
+                % (block_structure,))
         current_perm = []
         block_perm_iter = iter(self.block_perms)
         for l in block_structure:
@@ -863,7 +867,9 @@ class CPermutation(Circuit, Expression):
                 current_perm += [p + offset for p in next(block_perm_iter)]
 
             if len(current_perm) != l:
-                raise Exception
+                raise IncompatibleBlockStructures(
+                    "Requested incompatible block structure %s"
+                    % (block_structure,))
 
             block_perms.append(tuple(current_perm))
             current_perm = []
-- 
2.43.0


From e91fd3a7287bcf2499a95da205ee62d23692f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:52 +0000
Subject: [PATCH 130/131] fix: check the operands of inner and outer products
 before applying rules

---
 src/qnet/algebra/core/state_algebra.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index aa76979..d6f189c 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -614,6 +614,11 @@ class BraKet(ScalarExpression, Operation):
     _space = TrivialSpace
     simplifications = [match_replace]
 
+    @classmethod
+    def create(cls, bra, ket):
+        _check_kets(bra, ket, same_space=(ZeroKet not in (bra, ket)))
+        return super().create(bra, ket)
+
     def __init__(self, bra, ket):
         _check_kets(bra, ket, same_space=True)
         super().__init__(bra, ket)
@@ -662,6 +667,11 @@ class KetBra(Operator, Operation):
     _rules = OrderedDict()
     simplifications = [match_replace]
 
+    @classmethod
+    def create(cls, ket, bra):
+        _check_kets(ket, bra, same_space=(ZeroKet not in (ket, bra)))
+        return super().create(ket, bra)
+
     def __init__(self, ket, bra):
         _check_kets(ket, bra, same_space=True)
         super().__init__(ket, bra)
-- 
2.43.0


From 1c43d0a895bd5ff6830c7044a09784141b5f5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:12 +0000
Subject: [PATCH 131/131] fix: check the operands of OperatorTimesKet before
 applying rules

---
 src/qnet/algebra/core/state_algebra.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index d6f189c..a006a24 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -488,12 +488,21 @@ class OperatorTimesKet(State, Operation):
     _rules = OrderedDict()
     simplifications = [match_replace]
 
+    @classmethod
+    def create(cls, operator, ket):
+        cls._check_operands(operator, ket)
+        return super().create(operator, ket)
+
     def __init__(self, operator, ket):
+        self._check_operands(operator, ket)
+        super().__init__(operator, ket)
+
+    @staticmethod
+    def _check_operands(operator, ket):
         _check_kets(ket)
         if not operator.space <= ket.space:
             raise SpaceTooLargeError(
                 str(operator.space) + " <!= " + str(ket.space))
-        super().__init__(operator, ket)
 
     @property
     def space(self):
-- 
2.43.0

