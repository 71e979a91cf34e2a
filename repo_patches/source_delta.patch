From 96ec43d1c43fdaffb8fd528ce68c3fa0571f3a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 01/42] fix: Matrix product must not lose exceptions of the
 element arithmetic

numpy's dot for object arrays does not propagate exceptions raised by the
multiplication or addition of the elements: the product silently contained
None, and the exception surfaced later at an unrelated place, depending on
what had been computed before.
---
 src/qnet/algebra/core/matrix_algebra.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 6b1ce5a..6a6e4a7 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -23,6 +23,28 @@ __private__ = [  # anything not in __all__ must be in __private__
     'permutation_matrix']
 
 
+def _matrix_dot(a, b):
+    """Matrix product of two 2-dimensional arrays
+
+    This does not use :meth:`numpy.ndarray.dot` for arrays with
+    ``dtype=object``, as that method does not propagate exceptions raised in
+    the multiplication or addition of the array elements.
+    """
+    if object not in (a.dtype, b.dtype) or 0 in (a.shape + b.shape):
+        return a.dot(b)
+    if a.shape[1] != b.shape[0]:
+        raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
+    a, b = a.astype(object), b.astype(object)
+    res = np_zeros((a.shape[0], b.shape[1]), dtype=object)
+    for i in range(a.shape[0]):
+        for j in range(b.shape[1]):
+            element = a[i, 0] * b[0, j]
+            for k in range(1, a.shape[1]):
+                element = element + a[i, k] * b[k, j]
+            res[i, j] = element
+    return res
+
+
 class Matrix(Expression):
     """Matrix of Expressions
 
@@ -135,7 +157,7 @@ class Matrix(Expression):
 
     def __mul__(self, other):
         if isinstance(other, Matrix):
-            return Matrix(self.matrix.dot(other.matrix))
+            return Matrix(_matrix_dot(self.matrix, other.matrix))
         else:
             return Matrix(self.matrix * other)
 
-- 
2.43.0


From 9e3bc235265ca1900611e480e9d8ca46f0f0b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 02/42] fix: Feedback instances with different ports must not
 be equal

The ports were not part of the instance key, so that Feedback expressions
differing only in out_port/in_port compared equal, had the same hash, and
were taken for each other by every cache.
---
 src/qnet/algebra/core/circuit_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 87e48bf..6ced2d5 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1221,7 +1221,8 @@ class Feedback(Circuit, Operation):
         self.out_port = int(out_port)
         self.in_port = int(in_port)
         operands = [circuit, ]
-        super().__init__(*operands)
+        super().__init__(
+            *operands, out_port=self.out_port, in_port=self.in_port)
 
     @property
     def kwargs(self):
-- 
2.43.0


From 97c3104a89a1d2afe8b258835076abcece8dba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 03/42] fix: Singleton classes must not store their instance in
 the Expression cache

Singleton.__call__ looked up '_instances' via the class, and thus used the
instance cache of Expression for all singleton expressions. With a temporary
instance cache, instantiating e.g. the class of ZeroOperator created a second
object that was not equal to ZeroOperator. Also, creating the instance
concurrently in several threads could yield different objects.
---
 src/qnet/utils/singleton.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qnet/utils/singleton.py b/src/qnet/utils/singleton.py
index 4727f1c..f264e61 100644
--- a/src/qnet/utils/singleton.py
+++ b/src/qnet/utils/singleton.py
@@ -90,12 +90,17 @@ class Singleton(ABCMeta):
         >>> isinstance(a, SingletonType)
         True
     """
-    _instances = {}
+    # This must not be looked up via `cls`: singleton classes may have an
+    # `_instances` attribute of their own (e.g. the cache of `Expression`)
+    _singletons = {}
 
     def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
+        try:
+            return Singleton._singletons[cls]
+        except KeyError:
+            instance = super().__call__(*args, **kwargs)
+            # atomic, so that all threads get the same object
+            return Singleton._singletons.setdefault(cls, instance)
 
     @classmethod
     def __instancecheck__(mcs, instance):
-- 
2.43.0


From 395f6c045018c1e37d30cc9b67b103f31c0e79a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 04/42] fix: temporary_instance_cache and temporary_rules must
 restore all changes

* A class listed twice, or an exception while entering, left the temporary
  cache/rules in place permanently
* Attributes inherited from a parent class were shadowed permanently, so that
  later contexts for the parent class had no effect on the sub-class
* Results depending on temporary rules, cached for other classes than the
  given ones, were used after leaving the context (and vice versa)
---
 src/qnet/algebra/toolbox/core.py | 91 ++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 40 deletions(-)

diff --git a/src/qnet/algebra/toolbox/core.py b/src/qnet/algebra/toolbox/core.py
index 0842293..baf7e74 100644
--- a/src/qnet/algebra/toolbox/core.py
+++ b/src/qnet/algebra/toolbox/core.py
@@ -10,6 +10,36 @@ __all__ = [
     "symbols"]
 
 
+_MISSING = object()  # marker for a (class-)attribute that is not set
+
+
+def _set_temporarily(orig, cls, attr, value):
+    """Set class attribute `attr`, recording its original value in `orig`
+
+    An attribute that `cls` inherits is recorded as missing: it must not be
+    shadowed permanently by :func:`_restore`.
+    """
+    orig.append((cls, attr, cls.__dict__.get(attr, _MISSING)))
+    setattr(cls, attr, value)
+
+
+def _restore(orig):
+    """Undo all changes of :func:`_set_temporarily` recorded in `orig`"""
+    for cls, attr, value in reversed(orig):
+        if value is _MISSING:
+            delattr(cls, attr)
+        else:
+            setattr(cls, attr, value)
+
+
+def _instance_caching_classes(cls):
+    """All (sub-)classes of `cls` that have their own instance cache"""
+    classes = [cls] if '_instances' in cls.__dict__ else []
+    for sub_cls in cls.__subclasses__():
+        classes.extend(_instance_caching_classes(sub_cls))
+    return classes
+
+
 @contextmanager
 def no_instance_caching():
     """Temporarily disable instance caching in :meth:`~.Expression.create`
@@ -36,15 +66,13 @@ def temporary_instance_cache(*classes):
     on leaving it.  That is, no cached instances from outside of the managed
     context will be used within the managed context, and vice versa
     """
-    orig_instances = []
-    for cls in classes:
-        orig_instances.append(cls._instances)
-        cls._instances = {}
+    orig = []
     try:
+        for cls in classes:
+            _set_temporarily(orig, cls, '_instances', {})
         yield
     finally:
-        for i, cls in enumerate(classes):
-            cls._instances = orig_instances[i]
+        _restore(orig)
 
 
 @contextmanager
@@ -69,43 +97,26 @@ def temporary_rules(*classes, clear=False):
     :obj:`simplifications <.Expression>` should be done with care, but allows
     complete control over the creation of expressions.
     """
-    orig_instances = []
-    orig_rules = []
-    orig_binary_rules = []
-    orig_simplifications = []
-
-    for cls in classes:
-        orig_instances.append(cls._instances)
-        cls._instances = {}
-        orig_simplifications.append(cls.simplifications)
-        cls.simplifications = cls.simplifications.copy()
-        try:
-            orig_rules.append(cls._rules)
-            if clear:
-                cls._rules = OrderedDict([])
-            else:
-                cls._rules = cls._rules.copy()
-        except AttributeError:
-            orig_rules.append(None)
-        try:
-            orig_binary_rules.append(cls._binary_rules)
-            if clear:
-                cls._binary_rules = OrderedDict([])
-            else:
-                cls._binary_rules = cls._binary_rules.copy()
-        except AttributeError:
-            orig_binary_rules.append(None)
-
+    orig = []
     try:
+        # The creation of an expression of *any* class may internally create
+        # instances of `classes`. Thus, results that depend on local rules
+        # could be cached for arbitrary classes.
+        for cls in _instance_caching_classes(Expression):
+            _set_temporarily(orig, cls, '_instances', {})
+        for cls in classes:
+            _set_temporarily(orig, cls, '_instances', {})
+            _set_temporarily(
+                orig, cls, 'simplifications', cls.simplifications.copy())
+            for attr in ('_rules', '_binary_rules'):
+                if hasattr(cls, attr):
+                    rules = getattr(cls, attr).copy()
+                    if clear:
+                        rules = OrderedDict([])
+                    _set_temporarily(orig, cls, attr, rules)
         yield
     finally:
-        for i, cls in enumerate(classes):
-            cls._instances = orig_instances[i]
-            cls.simplifications = orig_simplifications[i]
-            if orig_rules[i] is not None:
-                cls._rules = orig_rules[i]
-            if orig_binary_rules[i] is not None:
-                cls._binary_rules = orig_binary_rules[i]
+        _restore(orig)
 
 
 def symbols(names, **args):
-- 
2.43.0


From fee14d265fb88fb79cc65ea14916245588a8e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 05/42] fix: comparison of Matrix objects must give a bool

Expression.__ne__ does not understand a numpy.bool_, so that 'm1 != m2' was
True for equal matrices that are not the same object. As a consequence, 'doit'
of a Matrix did not terminate without instance caching.
---
 src/qnet/algebra/core/matrix_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 6a6e4a7..5f73a70 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -144,7 +144,7 @@ class Matrix(Expression):
     def __eq__(self, other):
         return (isinstance(other, Matrix) and
                 self.shape == other.shape and
-                (self.matrix == other.matrix).all())
+                bool((self.matrix == other.matrix).all()))
 
     def __add__(self, other):
         if isinstance(other, Matrix):
-- 
2.43.0


From bf1e17daaca6a1deefc8c00c8bc1dcdf5f6dc688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 06/42] fix: simplify_scalar must not drop the ranges of an
 indexed sum

QuantumOperation._simplify_scalar re-creates the expression from its operands
only. For an indexed sum, the result was the bare term whenever the simplified
term was a new object (which depended on the instance cache).
---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 386f030..3ed6c8f 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -846,6 +846,10 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def _expand(self):
         return self.__class__.create(self.term.expand(), *self.ranges)
 
+    def _simplify_scalar(self, func):
+        return self.__class__.create(
+            self.term.simplify_scalar(func=func), *self.ranges)
+
     def _adjoint(self):
         return self.__class__.create(self.term.adjoint(), *self.ranges)
 
-- 
2.43.0


From 3e696ea7677689a1dc3bba401e34e0a35ef7c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 07/42] fix: srepr of a LocalSpace must not depend on how an
 equal instance was created

An instance from the cache (or from a rebuild, which passes all keyword
arguments explicitly) showed redundant keyword arguments, so that srepr
depended on which expressions had been created before.
---
 .../algebra/core/hilbert_space_algebra.py     | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 2481239..45425f2 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -174,6 +174,15 @@ class HilbertSpace(metaclass=ABCMeta):
 ###############################################################################
 
 
+def _drop_redundant_dimension(cls, args, kwargs):
+    """Simplification dropping a `dimension` that is implied by the `basis`"""
+    basis = kwargs.get('basis', None)
+    if isinstance(basis, tuple) and kwargs.get('dimension') == len(basis):
+        kwargs = {
+            key: val for (key, val) in kwargs.items() if key != 'dimension'}
+    return args, kwargs
+
+
 class LocalSpace(HilbertSpace, Expression):
     """Hilbert space for a single degree of freedom.
 
@@ -218,6 +227,8 @@ class LocalSpace(HilbertSpace, Expression):
     _basis_label_types = (int, str, FockIndex, FockLabel)
     # acceptable types for labels
 
+    simplifications = [_drop_redundant_dimension]
+
     def __init__(
             self, label, *, basis=None, dimension=None, local_identifiers=None,
             order_index=None):
@@ -227,8 +238,13 @@ class LocalSpace(HilbertSpace, Expression):
             default_args.append('basis')
         else:
             basis = tuple([str(label) for label in basis])
+            if basis == tuple([str(i) for i in range(len(basis))]):
+                # the canonical basis: fully determined by the dimension
+                default_args.append('basis')
         if dimension is None:
-            default_args.append('dimension')
+            if basis is None or 'basis' not in default_args:
+                # no dimension at all, or implied by the (explicit) basis
+                default_args.append('dimension')
         else:
             dimension = int(dimension)
         if order_index in [None, float('inf')]:
@@ -237,10 +253,11 @@ class LocalSpace(HilbertSpace, Expression):
         else:
             order_index = int(order_index)
         if local_identifiers is None:
-            default_args.append('local_identifiers')
             local_identifiers = {}
         else:
             local_identifiers = dict(local_identifiers)
+        if len(local_identifiers) == 0:
+            default_args.append('local_identifiers')
         try:
             # we want to normalize the local_identifiers to an arbitrary stable
             # order
-- 
2.43.0


From d412dafb5ca08d749183093d180ad867ef84f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 08/42] fix: SpinSpace must not lose a custom basis when it is
 rebuilt

The basis was missing in kwargs: rebuild, substitute and srepr silently
reverted to the canonical basis.
---
 src/qnet/algebra/library/spin_algebra.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index c9a06ec..5f76064 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -88,10 +88,11 @@ class SpinSpace(LocalSpace):
         if dimension <= 1:
             raise ValueError("spin %s must be greater than zero" % spin)
         bottom = -spin
+        canonical_basis = tuple([
+            SpinIndex._static_render(bottom + n)
+            for n in range(dimension)])
         if basis is None:
-            basis = tuple([
-                SpinIndex._static_render(bottom + n)
-                for n in range(dimension)])
+            basis = canonical_basis
         else:
             # sometimes people don't think and use some of the "canonical" TLS
             # labels in the wrong order. We can catch it, so why not?
@@ -105,12 +106,15 @@ class SpinSpace(LocalSpace):
         # rewrite the kwargs from super()
         self._kwargs = OrderedDict([
             ('spin', self._spin),
+            ('basis', self._basis),
             ('local_identifiers', self._sorted_local_identifiers),
             ('order_index', self._order_index)])
         self._minimal_kwargs = self._kwargs.copy()
-        if local_identifiers is None:
+        if self._basis == canonical_basis:
+            del self._minimal_kwargs['basis']
+        if len(self._local_identifiers) == 0:
             del self._minimal_kwargs['local_identifiers']
-        if order_index is None:
+        if self._order_index == float('inf'):
             del self._minimal_kwargs['order_index']
 
     def next_basis_label_or_index(self, label_or_index, n=1):
-- 
2.43.0


From a84165e2c528574bc332f220822cb28cc8a82af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 09/42] fix: properties of an Expression must not expose its
 internal containers

Modifying the dict returned by kwargs, or the set returned by free_symbols,
bound_symbols or all_symbols changed the (immutable, cached) expression.
---
 src/qnet/algebra/core/abstract_algebra.py         | 6 +++---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++--
 src/qnet/algebra/core/circuit_algebra.py          | 4 ++--
 src/qnet/algebra/core/hilbert_space_algebra.py    | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 5493560..8e2c57a 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -636,7 +636,7 @@ class Expression(metaclass=ABCMeta):
                 set([]), # dummy arg (update fails without arguments)
                 *[_free_symbols(arg) for arg in self.args])
             self._free_symbols = res
-        return self._free_symbols
+        return self._free_symbols.copy()
 
     @property
     def bound_symbols(self):
@@ -649,14 +649,14 @@ class Expression(metaclass=ABCMeta):
                 set([]), # dummy arg (update fails without arguments)
                 *[_bound_symbols(arg) for arg in self.args])
             self._bound_symbols = res
-        return self._bound_symbols
+        return self._bound_symbols.copy()
 
     @property
     def all_symbols(self):
         """Combination of :attr:`free_symbols` and :attr:`bound_symbols`"""
         if self._all_symbols is None:
             self._all_symbols = self.free_symbols | self.bound_symbols
-        return self._all_symbols
+        return self._all_symbols.copy()
 
     def __ne__(self, other):
         """If it is well-defined (i.e. boolean), simply return
diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 3ed6c8f..50b6f97 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -797,7 +797,7 @@ class QuantumDerivative(SingleQuantumOperation):
                     if not isinstance(sym, sympy.Dummy)}
                 for val in self._vals.values():
                     self._free_symbols.update(val.free_symbols)
-        return self._free_symbols
+        return self._free_symbols.copy()
 
     @property
     def bound_symbols(self):
@@ -806,7 +806,7 @@ class QuantumDerivative(SingleQuantumOperation):
             res = set()
             self._bound_symbols = res.union(
                 *[sym.free_symbols for sym in self._vals.keys()])
-        return self._bound_symbols
+        return self._bound_symbols.copy()
 
     @property
     def n(self):
diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 6ced2d5..ba8aba5 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -732,14 +732,14 @@ class Component(CircuitSymbol, metaclass=ABCMeta):
         """An :class:`.OrderedDict` with the value for the `label` argument, as
         well as any name in :attr:`ARGNAMES`
         """
-        return self._kwargs
+        return self._kwargs.copy()
 
     @property
     def minimal_kwargs(self):
         """An :class:`.OrderedDict` with the keyword arguments necessary to
         instantiate the component.
         """
-        return self._minimal_kwargs
+        return self._minimal_kwargs.copy()
 
     @abstractmethod
     def _toSLH(self):
diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 45425f2..7eb43ed 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -449,11 +449,11 @@ class LocalSpace(HilbertSpace, Expression):
 
     @property
     def kwargs(self):
-        return self._kwargs
+        return self._kwargs.copy()
 
     @property
     def minimal_kwargs(self):
-        return self._minimal_kwargs
+        return self._minimal_kwargs.copy()
 
     def remove(self, other):
         if other == self:
-- 
2.43.0


From ac6139de4332758926e61a7681b1ef0b4396e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 10/42] fix: Matrix must not share the array it is instantiated
 with

---
 src/qnet/algebra/core/matrix_algebra.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 5f73a70..e0776ba 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -55,9 +55,7 @@ class Matrix(Expression):
     _hash = None
 
     def __init__(self, m):
-        if isinstance(m, ndarray):
-            self.matrix = m
-        elif isinstance(m, Matrix):
+        if isinstance(m, Matrix):
             self.matrix = np_array(m.matrix)
         else:
             self.matrix = np_array(m)
-- 
2.43.0


From 48e84753e1e0ac9e2f1707f005fa10bee4434ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 11/42] fix: Pattern must not share the kwargs and conditions
 it is instantiated with

---
 src/qnet/algebra/pattern_matching/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index bb726bf..bb75342 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -208,6 +208,8 @@ class Pattern():
                                     "Only the first or last argument may have "
                                     "a mode indicating an occurrence of more "
                                     "than 1")
+        if kwargs is not None:
+            kwargs = kwargs.copy()
         self.kwargs = kwargs
         self.mode = mode
         if mode not in [self.single, self.one_or_more, self.zero_or_more]:
@@ -218,7 +220,7 @@ class Pattern():
         if conditions is None:
             self.conditions = []
         else:
-            self.conditions = conditions
+            self.conditions = list(conditions)
         self._repr = None  # lazy evaluation
         self._arg_iterator = iter
         if self._non_single_arg_on_left:
-- 
2.43.0


From f1b5e4cdf23fdc5f4b4f85769416ea2b270a00ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 12/42] fix: CPermutation.block_perms must not expose its
 internal list

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index ba8aba5..6752351 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -801,7 +801,7 @@ class CPermutation(Circuit, Expression):
         if not self._block_perms:
             self._block_perms = permutation_to_block_permutations(
                 self.permutation)
-        return self._block_perms
+        return self._block_perms[:]
 
     @property
     def permutation(self):
-- 
2.43.0


From 8bf2f3bb0022acfc212a3435039c1ef1d8ca624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 13/42] fix: adding or deleting rules must discard instances
 created with the old rules

Otherwise the new rules were ignored for every expression that had been
created before, depending on the instance cache.
---
 src/qnet/algebra/core/abstract_algebra.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 8e2c57a..a0961e8 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -257,6 +257,7 @@ class Expression(metaclass=ABCMeta):
                 "Duplicate key '%s': rule already exists" % name)
         getattr(cls, attr).update(check_rules_dict(
             [(name, (pattern, replacement))]))
+        Expression._forget_instances()
 
     @classmethod
     def show_rules(cls, *names, attr=None):
@@ -315,10 +316,24 @@ class Expression(metaclass=ABCMeta):
         if len(names) == 0:
             getattr(cls, attr)  # raise AttributeError if wrong attr
             setattr(cls, attr, OrderedDict())
+            Expression._forget_instances()
         else:
+            Expression._forget_instances()
             for name in names:
                 del getattr(cls, attr)[name]
 
+    @classmethod
+    def _forget_instances(cls):
+        """Discard all cached instances of `cls` and its sub-classes
+
+        After the rules of any class have changed, instances that were created
+        with the old rules must not be used anymore
+        """
+        if '_instances' in cls.__dict__:
+            cls._instances = {}
+        for sub_cls in cls.__subclasses__():
+            sub_cls._forget_instances()
+
     @classmethod
     def rules(cls, attr=None):
         """Iterable of rule names used by :meth:`create`
-- 
2.43.0


From 2de4841de0d3a41a9c06d30c893f16778e9bcea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 14/42] fix: a printing configuration must be restored
 completely, and applied completely or not at all

init_printing left a partial configuration behind if a setting was invalid;
configure_printing did not restore the global settings if used with reset=True
or with the settings set by sympy's init_printing, nor the printers if the
printing system had not been initialized, nor the sympy_printer_cls of custom
printers, nor the tree format.
---
 src/qnet/printing/__init__.py | 105 +++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 41 deletions(-)

diff --git a/src/qnet/printing/__init__.py b/src/qnet/printing/__init__.py
index 52157af..7238717 100644
--- a/src/qnet/printing/__init__.py
+++ b/src/qnet/printing/__init__.py
@@ -107,9 +107,58 @@ def init_printing(*, reset=False, init_sympy=True, **kwargs):
         :func:`configure_printing` allows to temporarily change the printing
         system from what was configured in :func:`init_printing`.
     """
-    # return either None (default) or a dict of frozen attributes if
-    # ``_freeze=True`` is given as a keyword argument (internal use in
-    # `configure_printing` only)
+    # return either None (default) or the frozen state of the printing system
+    # from before the call, if ``_freeze=True`` is given as a keyword argument
+    # (internal use in `configure_printing` only)
+    _freeze = kwargs.pop('_freeze', False)
+    freeze = _freeze_printing()
+    try:
+        _reinit_printing(freeze, reset, init_sympy, **kwargs)
+    except BaseException:
+        # invalid settings must not leave a partial configuration behind
+        _unfreeze_printing(freeze)
+        raise
+    if _freeze:
+        return freeze
+
+
+_MISSING = object()  # marker for an attribute that is not set
+
+
+def _freeze_attrs(freeze, obj, *attrs):
+    """Record the given attributes of `obj` in the list `freeze`"""
+    for attr in attrs:
+        val = vars(obj).get(attr, _MISSING)
+        if isinstance(val, dict):
+            val = val.copy()
+        freeze.append((obj, attr, val))
+
+
+def _freeze_printing():
+    """Record everything that may be modified by :func:`init_printing`, except
+    for attributes of the printer classes, which are recorded later, when these
+    classes are known"""
+    from qnet.algebra.core.abstract_algebra import Expression
+    freeze = []
+    _freeze_attrs(freeze, sys, 'displayhook')
+    _freeze_attrs(freeze, SympyPrinter, '_global_settings')
+    _freeze_attrs(freeze, QnetBasePrinter, '_allow_caching')
+    for print_func in (ascii, unicode, latex):
+        _freeze_attrs(freeze, print_func, '_printer_cls', 'printer')
+    _freeze_attrs(freeze, Expression, '__str__', '__repr__', '_repr_latex_')
+    return freeze
+
+
+def _unfreeze_printing(freeze):
+    """Restore everything recorded in `freeze`"""
+    for obj, attr, val in reversed(freeze):
+        if val is not _MISSING:
+            setattr(obj, attr, val)
+        elif attr in vars(obj):
+            delattr(obj, attr)
+
+
+def _reinit_printing(freeze, reset, init_sympy, **kwargs):
     logger = logging.getLogger(__name__)
     if reset:
         SympyPrinter._global_settings = {}
@@ -121,30 +170,21 @@ def init_printing(*, reset=False, init_sympy=True, **kwargs):
         else:
             sympy_init_printing()  # let sympy decide by itself
     if 'inifile' in kwargs:
-        invalid_kwargs = False
-        if '_freeze' in kwargs:
-            _freeze = kwargs['_freeze']
-            if len(kwargs) != 2:
-                invalid_kwargs = True
-        else:
-            _freeze = False
-            if len(kwargs) != 1:
-                invalid_kwargs = True
-        if invalid_kwargs:
+        if len(kwargs) != 1:
             raise TypeError(
                 "The `inifile` argument cannot be combined with any "
                 "other keyword arguments")
         logger.debug(
             "Initializating printing from INI file %s", kwargs['inifile'])
-        return _init_printing_from_file(kwargs['inifile'], _freeze=_freeze)
+        _init_printing_from_file(freeze, kwargs['inifile'])
     else:
         logger.debug(
             "Initializating printing with direct settings: %s", repr(kwargs))
-        return _init_printing(**kwargs)
+        _init_printing(freeze, **kwargs)
 
 
 def _init_printing(
-        str_format=None, repr_format=None, caching=True,
+        freeze, str_format=None, repr_format=None, caching=True,
         ascii_printer='qnet.printing.asciiprinter.QnetAsciiPrinter',
         ascii_sympy_printer='qnet.printing.sympy.SympyStrPrinter',
         ascii_settings=None,
@@ -153,13 +193,10 @@ def _init_printing(
         unicode_settings=None,
         latex_printer='qnet.printing.latexprinter.QnetLatexPrinter',
         latex_sympy_printer='qnet.printing.sympy.SympyLatexPrinter',
-        latex_settings=None, _freeze=False, **settings):
+        latex_settings=None, **settings):
     # Note: the *_printer args are undocumented, it's preferable to use them
     # through an INI file only
     logger = logging.getLogger(__name__)
-    freeze = defaultdict(dict)
-    freeze[SympyPrinter]['_global_settings'] \
-        = SympyPrinter._global_settings.copy()
     # Putting the settings in the _global_settings dict for SympyPrinter makes
     # sure that any setting that is acceptable to any Printer that is newly
     # instantiated is used automatically. Settings in _global_settings that are
@@ -169,7 +206,6 @@ def _init_printing(
     # no settings are passed to any specific Printer below -- Printer-specific
     # settings are possible only when using an INI file.
 
-    freeze[QnetBasePrinter]['_allow_caching'] = QnetBasePrinter._allow_caching
     QnetBasePrinter._allow_caching = caching
 
     print_map = {
@@ -186,15 +222,9 @@ def _init_printing(
         if settings is None:
             settings = {}
 
-        if hasattr(print_func, '_printer_cls'):
-            freeze[print_func]['_printer_cls'] = print_func._printer_cls
-            freeze[print_func._printer_cls]['sympy_printer_cls'] = \
-                print_func._printer_cls.sympy_printer_cls
-        if hasattr(print_func, 'printer'):
-            freeze[print_func]['printer'] = print_func.printer
-
         print_func._printer_cls = _printer_cls(
             name + '_printer', qnet_printer_address)
+        _freeze_attrs(freeze, print_func._printer_cls, 'sympy_printer_cls')
         print_func._printer_cls.sympy_printer_cls = _printer_cls(
             name + '_sympy_printer', sympy_printer_address,
             require_base=SympyPrinter)
@@ -211,12 +241,12 @@ def _init_printing(
         "Terminal supports unicode: %s (autodetect)", has_unicode)
     if repr_format == 'unicode':
         has_unicode = True
-    _PRINT_FUNC['tree'] = partial(tree, unicode=has_unicode)
+    print_funcs = dict(_PRINT_FUNC, tree=partial(tree, unicode=has_unicode))
     if str_format is None:
         str_format = 'unicode' if has_unicode else 'ascii'
         logger.debug("Setting __str__ format to %s", str_format)
     try:
-        str_func = _PRINT_FUNC[str_format]
+        str_func = print_funcs[str_format]
     except KeyError:
         raise ValueError(
             "str_format must be one of %s" % ", ".join(_PRINT_FUNC.keys()))
@@ -224,22 +254,17 @@ def _init_printing(
         repr_format = 'unicode' if has_unicode else 'ascii'
         logger.debug("Setting __repr__ format to %s" % repr_format)
     try:
-        repr_func = _PRINT_FUNC[repr_format]
+        repr_func = print_funcs[repr_format]
     except KeyError:
         raise ValueError(
             "repr_format must be one of %s" % ", ".join(_PRINT_FUNC.keys()))
     from qnet.algebra.core.abstract_algebra import Expression
-    freeze[Expression]['__str__'] = Expression.__str__
-    freeze[Expression]['__repr__'] = Expression.__repr__
-    freeze[Expression]['_repr_latex_'] = Expression._repr_latex_
     Expression.__str__ = lambda self: str_func(self)
     Expression.__repr__ = lambda self: repr_func(self)
     Expression._repr_latex_ = lambda self: "$" + latex(self) + "$"
-    if _freeze:
-        return freeze
 
 
-def _init_printing_from_file(inifile, _freeze=False):
+def _init_printing_from_file(freeze, inifile):
     config = configparser.ConfigParser(interpolation=None)
     config.BOOLEAN_STATES = {
         'true': True, 'True': True, 'false': False, 'False': False}
@@ -265,7 +290,7 @@ def _init_printing_from_file(inifile, _freeze=False):
                     kwargs["%s_sympy_printer" % section] = val
                 else:
                     kwargs["%s_settings" % section][key] = val
-    return _init_printing(_freeze=_freeze, **dict(kwargs))
+    _init_printing(freeze, **kwargs)
 
 
 @contextmanager
@@ -287,9 +312,7 @@ def configure_printing(**kwargs):
     try:
         yield
     finally:
-        for obj, attr_map in freeze.items():
-            for attr, val in attr_map.items():
-                setattr(obj, attr, val)
+        _unfreeze_printing(freeze)
 
 
 def ascii(expr, cache=None, **settings):
-- 
2.43.0


From 68d07a2f993fc5e5a30442c57c70818a4ff837d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 15/42] fix: an AttributeError while printing must not replace
 the configured printer

---
 src/qnet/printing/__init__.py | 48 +++++++++++++++--------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/src/qnet/printing/__init__.py b/src/qnet/printing/__init__.py
index 7238717..123f0fc 100644
--- a/src/qnet/printing/__init__.py
+++ b/src/qnet/printing/__init__.py
@@ -349,17 +349,15 @@ def ascii(expr, cache=None, **settings):
     Note that the accepted parameters and their default values may be changed
     through :func:`init_printing` or :func:`configure_printing`
     """
-    try:
-        if cache is None and len(settings) == 0:
-            return ascii.printer.doprint(expr)
-        else:
-            printer = ascii._printer_cls(cache, settings)
-            return printer.doprint(expr)
-    except AttributeError:
-        # init_printing was not called. Setting up defaults
+    if not hasattr(ascii, 'printer'):
+        # init_printing was not called
         ascii._printer_cls = QnetAsciiPrinter
         ascii.printer = ascii._printer_cls()
-        return ascii(expr, cache, **settings)
+    if cache is None and len(settings) == 0:
+        return ascii.printer.doprint(expr)
+    else:
+        printer = ascii._printer_cls(cache, settings)
+        return printer.doprint(expr)
 
 
 def unicode(expr, cache=None, **settings):
@@ -404,17 +402,15 @@ def unicode(expr, cache=None, **settings):
     Note that the accepted parameters and their default values may be changed
     through :func:`init_printing` or :func:`configure_printing`
     """
-    try:
-        if cache is None and len(settings) == 0:
-            return unicode.printer.doprint(expr)
-        else:
-            printer = unicode._printer_cls(cache, settings)
-            return printer.doprint(expr)
-    except AttributeError:
-        # init_printing was not called. Setting up defaults
+    if not hasattr(unicode, 'printer'):
+        # init_printing was not called
         unicode._printer_cls = QnetUnicodePrinter
         unicode.printer = unicode._printer_cls()
-        return unicode(expr, cache, **settings)
+    if cache is None and len(settings) == 0:
+        return unicode.printer.doprint(expr)
+    else:
+        printer = unicode._printer_cls(cache, settings)
+        return printer.doprint(expr)
 
 
 def latex(expr, cache=None, **settings):
@@ -496,17 +492,15 @@ def latex(expr, cache=None, **settings):
     Note that the accepted parameters and their default values may be changed
     through :func:`init_printing` or :func:`configure_printing`
     """
-    try:
-        if cache is None and len(settings) == 0:
-            return latex.printer.doprint(expr)
-        else:
-            printer = latex._printer_cls(cache, settings)
-            return printer.doprint(expr)
-    except AttributeError:
-        # init_printing was not called. Setting up defaults
+    if not hasattr(latex, 'printer'):
+        # init_printing was not called
         latex._printer_cls = QnetLatexPrinter
         latex.printer = latex._printer_cls()
-        return latex(expr, cache, **settings)
+    if cache is None and len(settings) == 0:
+        return latex.printer.doprint(expr)
+    else:
+        printer = latex._printer_cls(cache, settings)
+        return printer.doprint(expr)
 
 
 def tex(expr, cache=None, **settings):
-- 
2.43.0


From 688268cdf36dc358640cf52b0356bafd24a1eb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 16/42] fix: matching a pattern must not print the expression

---
 src/qnet/algebra/pattern_matching/__init__.py | 43 +++++++++++++------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index bb75342..7df5204 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -77,6 +77,19 @@ class MatchDict(OrderedDict):
     def __len__(self):
         return self._len
 
+    @property
+    def reason(self):
+        """Reason for the failure of a match. If set as a tuple of a format
+        string and values, it is rendered only when it is accessed: matching
+        must not depend on the printing system"""
+        if isinstance(self._reason, tuple):
+            return self._reason[0] % self._reason[1:]
+        return self._reason
+
+    @reason.setter
+    def reason(self, value):
+        self._reason = value
+
     def __bool__(self):
         return self.success
 
@@ -92,7 +105,10 @@ class MatchDict(OrderedDict):
             try:
                 if not other.success:
                     self.success = False
-                    self.reason = other.reason
+                    if isinstance(other, MatchDict):
+                        self.reason = other._reason
+                    else:
+                        self.reason = other.reason
             except AttributeError:
                 pass
 
@@ -290,14 +306,14 @@ class Pattern():
                 res.merge_lists = -1
         if self.head is not None:
             if not isinstance(expr, self.head):
-                res.reason = ("%s is not an instance of %s"
-                              % (repr(expr), self._repr_head()))
+                res.reason = ("%r is not an instance of %s",
+                              expr, self._repr_head())
                 res.success = False
                 return res
         for i_cond, condition in enumerate(self.conditions):
             if not condition(expr):
-                res.reason = ("%s does not meet condition %d"
-                              % (repr(expr), i_cond+1))
+                res.reason = ("%r does not meet condition %d",
+                              expr, i_cond+1)
                 res.success = False
                 return res
         try:
@@ -321,22 +337,21 @@ class Pattern():
                     if not res.success:
                         return res
         except AttributeError as exc_info:
-            res.reason = ("%s is a scalar, not an Expression: %s"
-                          % (repr(expr), str(exc_info)))
+            res.reason = ("%r is a scalar, not an Expression: %s",
+                          expr, str(exc_info))
             res.success = False
         except ValueError as exc_info:
-            res.reason = "%s: %s" % (repr(expr), str(exc_info))
+            res.reason = ("%r: %s", expr, str(exc_info))
             res.success = False
         except StopIteration:
-            res.reason = ("%s has an too many positional arguments"
-                          % repr(expr))
+            res.reason = ("%r has an too many positional arguments", expr)
             res.success = False
         except KeyError as exc_info:
             if "has already been set" in str(exc_info):
                 res.reason = "Double wildcard: %s" % str(exc_info)
             else:
-                res.reason = ("%s has no keyword argument %s"
-                              % (repr(expr), str(exc_info)))
+                res.reason = ("%r has no keyword argument %s",
+                              expr, str(exc_info))
             res.success = False
         if res.success:
             if self.wc_name is not None:
@@ -628,6 +643,6 @@ def match_pattern(expr_or_pattern: object, expr: object) -> MatchDict:
         else:
             res = MatchDict()
             res.success = False
-            res.reason = "Expressions '%s' and '%s' are not the same" % (
-                          repr(expr_or_pattern), repr(expr))
+            res.reason = ("Expressions '%r' and '%r' are not the same",
+                          expr_or_pattern, expr)
             return res
-- 
2.43.0


From e8aec866aaab22188fd57b53d9a24629dccf4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 17/42] fix: repr of a Pattern must not be remembered across
 printing configurations

---
 src/qnet/algebra/pattern_matching/__init__.py | 51 +++++++++----------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index 7df5204..c432e5a 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -195,8 +195,6 @@ class Pattern():
 
     def __init__(self, head=None, args=None, kwargs=None, *, mode=1,
                  wc_name=None, conditions=None):
-        self._str = None
-        self._repr = None
         if head is not None:
             if not hasattr(head, '__name__'):
                 for sub_head in head:
@@ -237,7 +235,6 @@ class Pattern():
             self.conditions = []
         else:
             self.conditions = list(conditions)
-        self._repr = None  # lazy evaluation
         self._arg_iterator = iter
         if self._non_single_arg_on_left:
             # When the non-single argument is on the left, we move through
@@ -430,31 +427,29 @@ class Pattern():
                 return self.head.__name__
 
     def __repr__(self):
-        if self._repr is None:
-            cls = str(self.__class__.__name__)
-            mode_str = {
-                self.single: cls + '.single',
-                self.one_or_more: cls + '.one_or_more',
-                self.zero_or_more: cls + '.zero_or_more',
-            }
-            res = []
-            if self.head is not None:
-                res.append('head=' + self._repr_head())
-            if self.args is not None:
-                res.append('args=' + repr(self.args))
-            if self.kwargs is not None:
-                key_vals = []
-                for key in sorted(self.kwargs):
-                    key_vals.append("'%s': %s" % (key, self.kwargs[key]))
-                res.append('kwargs={' + ", ".join(key_vals) + "}")
-            if self.mode != 1:
-                res.append('mode=' + mode_str[self.mode])
-            if self.wc_name is not None:
-                res.append('wc_name=' + repr(self.wc_name))
-            if len(self.conditions) > 0:
-                res.append('conditions=' + repr(self.conditions))
-            self._repr = cls + "(" + ", ".join(res) + ")"
-        return self._repr
+        cls = str(self.__class__.__name__)
+        mode_str = {
+            self.single: cls + '.single',
+            self.one_or_more: cls + '.one_or_more',
+            self.zero_or_more: cls + '.zero_or_more',
+        }
+        res = []
+        if self.head is not None:
+            res.append('head=' + self._repr_head())
+        if self.args is not None:
+            res.append('args=' + repr(self.args))
+        if self.kwargs is not None:
+            key_vals = []
+            for key in sorted(self.kwargs):
+                key_vals.append("'%s': %s" % (key, self.kwargs[key]))
+            res.append('kwargs={' + ", ".join(key_vals) + "}")
+        if self.mode != 1:
+            res.append('mode=' + mode_str[self.mode])
+        if self.wc_name is not None:
+            res.append('wc_name=' + repr(self.wc_name))
+        if len(self.conditions) > 0:
+            res.append('conditions=' + repr(self.conditions))
+        return cls + "(" + ", ".join(res) + ")"
 
     def __str__(self):
         return repr(self)
-- 
2.43.0


From 3cc899a9497e8a85514ad3b37fecc88fe277f9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 18/42] fix: an entry of the printing cache must not prevent a
 number from being printed

---
 src/qnet/printing/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qnet/printing/base.py b/src/qnet/printing/base.py
index d05486d..d9d5ce6 100644
--- a/src/qnet/printing/base.py
+++ b/src/qnet/printing/base.py
@@ -119,8 +119,9 @@ class QnetBasePrinter(SympyPrinter):
         # for cached results
         try:
             is_cached = expr in self.cache
-        except TypeError:
-            # expr is unhashable
+        except (TypeError, AttributeError):
+            # expr is unhashable, or cannot be compared (numpy scalars cannot
+            # always be compared with SymPy numbers of the same hash)
             is_cached = False
         if is_cached:
             return True, self.cache[expr]
@@ -133,8 +134,9 @@ class QnetBasePrinter(SympyPrinter):
         # _get_from_cache
         try:
             self.cache[expr] = res
-        except TypeError:
-            # expr is unhashable
+        except (TypeError, AttributeError):
+            # expr is unhashable, or cannot be compared (numpy scalars cannot
+            # always be compared with SymPy numbers of the same hash)
             pass
 
     def _print_SCALAR_TYPES(self, expr, *args, **kwargs):
-- 
2.43.0


From 3dbe371578dea65579df797afb903912ab868d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 19/42] fix: the internal sort key of a scaled expression must
 not depend on the printing settings

---
 src/qnet/printing/asciiprinter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index c014574..51cd2fe 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -809,8 +809,13 @@ class QnetAsciiDefaultPrinter(QnetAsciiPrinter):
     (e.g. as a sort key)"""
     _default_settings = {}
 
+    sympy_printer_cls = SympyStrPrinter
+
     def __init__(self):
-        super().__init__(cache=None, settings=None)
+        # The explicit settings override any global settings (which may have
+        # been set in `init_printing`)
+        super().__init__(
+            cache=None, settings=self.sympy_printer_cls._default_settings)
         self._settings = {
             'show_hs_label': True,
             'sig_as_ketbra': True}
-- 
2.43.0


From e0e46a6feb555fdcfc5123aa3155a1e454876b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 20/42] fix: ScalarValue must not delegate special methods to a
 value it does not have (yet)

---
 src/qnet/algebra/core/scalar_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 8c1cd82..80ea672 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -240,6 +240,10 @@ class ScalarValue(Scalar):
         super().__init__(val)
 
     def __getattr__(self, name):
+        # special methods must not be delegated, and nothing can be delegated
+        # before `_val` is set (e.g., while unpickling)
+        if name.startswith('__') or '_val' not in self.__dict__:
+            raise AttributeError(name)
         return getattr(self.val, name)
 
     def _diff(self, sym):
-- 
2.43.0


From b84696e0bcbc4f13cae5c098113dd3c824bf690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 21/42] fix: the cached hash of an expression must not survive
 pickling

---
 src/qnet/algebra/core/abstract_algebra.py | 6 ++++++
 src/qnet/algebra/core/matrix_algebra.py   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index a0961e8..a396605 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -387,6 +387,12 @@ class Expression(metaclass=ABCMeta):
             self._hash = hash(self._instance_key)
         return self._hash
 
+    def __getstate__(self):
+        # the hash is only valid in the current process
+        state = self.__dict__.copy()
+        state['_hash'] = None
+        return state
+
     def __repr__(self):
         # This method will be replaced by init_printing()
         from qnet.printing import init_printing
diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index e0776ba..517e253 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -139,6 +139,12 @@ class Matrix(Expression):
                                self.matrix.shape, Matrix))
         return self._hash
 
+    def __getstate__(self):
+        # the hash is only valid in the current process
+        state = self.__dict__.copy()
+        state.pop('_hash', None)
+        return state
+
     def __eq__(self, other):
         return (isinstance(other, Matrix) and
                 self.shape == other.shape and
-- 
2.43.0


From 74c495ae26b33251ea2311527f9f6dfda257857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 22/42] fix: copying or pickling an IdxSym must not lose its
 primes and assumptions

---
 src/qnet/utils/indices.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index 75e5df0..78889c8 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -65,6 +65,11 @@ def yield_from_ranges(ranges):
         yield _merge_dicts(*dicts)
 
 
+def _idxsym(cls, name, primed, assumptions):
+    """Reconstruct a (copied or pickled) :class:`IdxSym`"""
+    return cls(name, primed=primed, **assumptions)
+
+
 class IdxSym(sympy.Symbol):
     """Index symbol in an indexed sum or product
 
@@ -145,6 +150,12 @@ class IdxSym(sympy.Symbol):
     def _hashable_content(self):
         return (sympy.Symbol._hashable_content(self), self.params)
 
+    def __reduce_ex__(self, protocol):
+        return (
+            _idxsym, (
+                self.__class__, self.name, self._primed,
+                dict(self._assumptions.generator)))
+
     @property
     def primed(self):
         return self._primed
-- 
2.43.0


From a4d22d730cba9f4b84e60730616bd6e21bb3176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 23/42] fix: dotprint with repeat=False must not use hashes as
 node identifiers

---
 src/qnet/printing/dot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/dot.py b/src/qnet/printing/dot.py
index 4fdd139..19a7d1f 100644
--- a/src/qnet/printing/dot.py
+++ b/src/qnet/printing/dot.py
@@ -206,7 +206,10 @@ def dotprint(
         if repeat:
             idfunc = lambda expr: 'node'
         else:
-            idfunc = hash
+            # number the unique expressions in order of appearance (a hash
+            # may collide, and differs between processes)
+            numbers = {}
+            idfunc = lambda expr: numbers.setdefault(expr, len(numbers))
     graphstyle = {'rankdir': 'TD', 'ordering': 'out'}
     graphstyle.update(kwargs)
     nodes = []
-- 
2.43.0


From f359e480ae108dec84e583d337d4cab57aed0f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 24/42] fix: srepr must not represent a number by that of an
 equal, wrapped number

---
 src/qnet/printing/sreprprinter.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/qnet/printing/sreprprinter.py b/src/qnet/printing/sreprprinter.py
index 4a1d9ae..4fb775c 100644
--- a/src/qnet/printing/sreprprinter.py
+++ b/src/qnet/printing/sreprprinter.py
@@ -8,14 +8,26 @@ from .base import QnetBasePrinter
 from .sympy import SympyReprPrinter
 from ._render_head_repr import render_head_repr
 from qnet.algebra.core.abstract_algebra import Expression
+from qnet.algebra.core.scalar_algebra import is_scalar
 from ..utils.singleton import Singleton
 
 __all__ = []
 __private__ = [
-    'QnetSReprPrinter', 'IndentedSReprPrinter', 'IndentedSympyReprPrinter']
+    '_SReprBasePrinter', 'QnetSReprPrinter', 'IndentedSReprPrinter',
+    'IndentedSympyReprPrinter']
 
 
-class QnetSReprPrinter(QnetBasePrinter):
+class _SReprBasePrinter(QnetBasePrinter):
+    """Common base class of all printers for structured representations"""
+
+    def _write_to_cache(self, expr, res):
+        # Scalars may be equal (and have the same hash) without having the
+        # same representation, e.g. a number and the ScalarValue wrapping it
+        if not is_scalar(expr):
+            super()._write_to_cache(expr, res)
+
+
+class QnetSReprPrinter(_SReprBasePrinter):
     """Printer for a string (ASCII) representation."""
 
     sympy_printer_cls = SympyReprPrinter
@@ -47,7 +59,7 @@ class IndentedSympyReprPrinter(SympyReprPrinter):
         return "    " * (self._print_level - 1) + res
 
 
-class IndentedSReprPrinter(QnetBasePrinter):
+class IndentedSReprPrinter(_SReprBasePrinter):
     """Printer for rendering an expression in such a way that the resulting
     string can be evaluated in an appropriate context to re-instantiate an
     identical object, using nested indentation (implementing
-- 
2.43.0


From 1ef5deb6c6800d26786d7b57966c60548c4de401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:55 +0000
Subject: [PATCH 25/42] fix: adjoints and sums of all (super-)operators must be
 printable

---
 src/qnet/printing/asciiprinter.py   | 35 ++++++++++++++++++++---------
 src/qnet/printing/latexprinter.py   | 24 +++++++++++++-------
 src/qnet/printing/unicodeprinter.py | 10 ++++++---
 3 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 51cd2fe..376dcf1 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -308,10 +308,10 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     identifier = "%s_%s,%s" % (expr.identifier, expr.j, expr.k)
             return self._render_op(identifier, expr._hs, dagger=adjoint)
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "1"
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return "0"
 
     def _print_ScalarValue(self, expr, **kwargs):
@@ -418,17 +418,23 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     self._parenth_left + self.doprint(o) +
                     self._parenth_right + "^" + self._dagger_sym)
 
-    def _print_OperatorPlusMinusCC(self, expr):
+    def _print_OperatorPlusMinusCC(self, expr, adjoint=False):
         prec = precedence(expr)
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         o = expr.operand
         sign_str = ' + '
         if expr._sign < 0:
             sign_str = ' - '
-        return self.parenthesize(o, prec) + sign_str + "c.c."
+        return self.parenthesize(o, prec, **kwargs) + sign_str + "c.c."
 
-    def _print_PseudoInverse(self, expr):
+    def _print_PseudoInverse(self, expr, adjoint=False):
         prec = precedence(expr)
-        return self.parenthesize(expr.operand, prec) + "^+"
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
+        return self.parenthesize(expr.operand, prec, **kwargs) + "^+"
 
     def _print_NullSpaceProjector(self, expr, adjoint=False):
         null_space_proj_sym = 'P_Ker'
@@ -745,14 +751,22 @@ class QnetAsciiPrinter(QnetBasePrinter):
             "SPost" + self._parenth_left + self.doprint(expr.operands[0]) +
             self._parenth_right)
 
-    def _print_SuperOperatorTimesOperator(self, expr):
+    def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
         prec = precedence(expr)
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-        return "%s[%s]" % (cs, ct)
+        res = "%s[%s]" % (cs, ct)
+        if adjoint:
+            res = (
+                self._parenth_left + res + self._parenth_right +
+                "^" + self._dagger_sym)
+        return res
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -762,7 +776,8 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 res += "D_%s " % sym_str
             else:
                 res += "D_%s^%s " % (sym_str, n)
-        res += self.parenthesize(expr.operand, PRECEDENCE['Mul'], strict=True)
+        res += self.parenthesize(
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             evaluation_strs = []
             for sym, val in expr.vals.items():
diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index e2c228b..0df4440 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -267,16 +267,16 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         return r'\mathcal{{H}}_{{{label}}}'.format(
             label=self._render_hs_label(expr))
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return self._settings['tex_identity_sym']
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return r'\mathbb{0}'
 
-    def _print_ZeroSuperOperator(self, expr):
+    def _print_ZeroSuperOperator(self, expr, superop=True):
         return r'\mathbb{0}'
 
-    def _print_IdentitySuperOperator(self, expr):
+    def _print_IdentitySuperOperator(self, expr, superop=True):
         return self._settings['tex_identity_sym']
 
     def _print_SPre(self, expr, superop=True):
@@ -291,14 +291,22 @@ class QnetLatexPrinter(QnetAsciiPrinter):
             name + self._parenth_left + self.doprint(expr.operands[0]) +
             self._parenth_right)
 
-    def _print_SuperOperatorTimesOperator(self, expr):
+    def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
         prec = precedence(expr)
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-        return r'%s\left[%s\right]' % (cs, ct)
+        res = r'%s\left[%s\right]' % (cs, ct)
+        if adjoint:
+            res = (
+                self._parenth_left + res + self._parenth_right +
+                "^{%s}" % self._dagger_sym)
+        return res
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         res = ""
         numerator = r'\partial'
         if expr.n > 1:
@@ -314,7 +322,7 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         denominator = " ".join(denominators)
         res += r'\frac{%s}{%s}' % (numerator, denominator)
         res += " " + self.parenthesize(
-            expr.operand, PRECEDENCE['Mul'], strict=True)
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             res = r'\left. ' + res
             evaluation_strs = []
diff --git a/src/qnet/printing/unicodeprinter.py b/src/qnet/printing/unicodeprinter.py
index 789d091..1843307 100644
--- a/src/qnet/printing/unicodeprinter.py
+++ b/src/qnet/printing/unicodeprinter.py
@@ -170,13 +170,16 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
         return render_unicode_sub_super(
             'ℌ', subs=[self._render_hs_label(expr)])
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "𝟙"
 
     def _print_IdentitySuperOperator(self, expr, superop=True):
         return "𝟙"
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, adjoint=False):
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -190,7 +193,8 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
             res += (render_unicode_sub_super(
                 '∂', subs, supers, sub_first=True, translate_symbols=True,
                 unicode_sub_super=self._settings['unicode_sub_super']) + " ")
-        res += self.parenthesize(expr.operand, PRECEDENCE['Mul'], strict=True)
+        res += self.parenthesize(
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             evaluation_strs = []
             for sym, val in expr.vals.items():
-- 
2.43.0


From b56b448c61aaebfdd28554dbb29dee0d56349f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:02 +0000
Subject: [PATCH 26/42] fix: the adjoint of a scaled super-operator must not be
 None

---
 src/qnet/algebra/core/super_operator_algebra.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 26ee67e..847cc94 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -158,9 +158,6 @@ class ScalarTimesSuperOperator(SuperOperator, ScalarTimesQuantumExpression):
     """Product of a :class:`.Scalar` coefficient and a
     :class:`SuperOperator`"""
 
-    def _adjoint(self):
-        pass
-
     _rules = OrderedDict()  # see end of module
     simplifications = [match_replace, ]
 
-- 
2.43.0


From c9dfd166f9f1b6e162c2c9de206410a4052cadba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:49 +0000
Subject: [PATCH 27/42] fix: pattern matching must not swallow exceptions of a
 condition

---
 src/qnet/algebra/pattern_matching/__init__.py | 139 +++++++++++-------
 1 file changed, 87 insertions(+), 52 deletions(-)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index c432e5a..d6efab3 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -282,6 +282,43 @@ class Pattern():
             raise ValueError("insufficient number of arguments")
         return {}
 
+    def _nested_matches(self, expr):
+        """Iterate over callables that match the parts of `expr`
+
+        Raises:
+            AttributeError: if `expr` has no parts
+            IndexError: if `expr` has too many positional arguments
+            ValueError: if `expr` has an insufficient number of arguments
+            KeyError: if `expr` is missing a keyword argument
+        """
+        def deferred(arg_pattern, arg):
+            if isinstance(arg_pattern, Pattern):
+                return lambda: arg_pattern.match(arg)
+            match_dict = match_pattern(arg_pattern, arg)
+            return lambda: match_dict
+
+        if self.args is not None:
+            arg_pattern = self.extended_arg_patterns()
+            current_arg_pattern = None
+            for arg in self._arg_iterator(expr.args):
+                try:
+                    current_arg_pattern = next(arg_pattern)
+                except StopIteration:
+                    raise IndexError("too many positional arguments")
+                yield deferred(current_arg_pattern, arg)
+            # ensure that we have matched all arg patterns
+            try:
+                last_arg_pattern = next(arg_pattern)
+            except StopIteration:
+                pass  # expected, if current_arg_pattern was the last one
+            else:
+                empty_match = self._check_last_arg_pattern(
+                    current_arg_pattern, last_arg_pattern)
+                yield lambda: empty_match
+        if self.kwargs is not None:
+            for key, arg_pattern in self.kwargs.items():
+                yield deferred(arg_pattern, expr.kwargs[key])
+
     def match(self, expr) -> MatchDict:
         """Match the given expression (recursively)
 
@@ -313,43 +350,37 @@ class Pattern():
                               expr, i_cond+1)
                 res.success = False
                 return res
-        try:
-            if self.args is not None:
-                arg_pattern = self.extended_arg_patterns()
-                for arg in self._arg_iterator(expr.args):
-                    current_arg_pattern = next(arg_pattern)
-                    res.update(match_pattern(current_arg_pattern, arg))
-                    if not res.success:
-                        return res
-                # ensure that we have matched all arg patterns
-                try:
-                    last_arg_pattern = next(arg_pattern)
-                    res.update(self._check_last_arg_pattern(
-                                    current_arg_pattern, last_arg_pattern))
-                except StopIteration:
-                    pass  # expected, if current_arg_pattern was the last one
-            if self.kwargs is not None:
-                for key, arg_pattern in self.kwargs.items():
-                    res.update(match_pattern(arg_pattern, expr.kwargs[key]))
-                    if not res.success:
-                        return res
-        except AttributeError as exc_info:
-            res.reason = ("%r is a scalar, not an Expression: %s",
-                          expr, str(exc_info))
-            res.success = False
-        except ValueError as exc_info:
-            res.reason = ("%r: %s", expr, str(exc_info))
-            res.success = False
-        except StopIteration:
-            res.reason = ("%r has an too many positional arguments", expr)
-            res.success = False
-        except KeyError as exc_info:
-            if "has already been set" in str(exc_info):
-                res.reason = "Double wildcard: %s" % str(exc_info)
-            else:
-                res.reason = ("%r has no keyword argument %s",
+        # Nested patterns are matched outside of the `try`, which must not hide
+        # any exception raised by their conditions
+        nested_matches = self._nested_matches(expr)
+        match_dict = {}
+        while res.success:
+            try:
+                res.update(match_dict)
+                if not res.success:
+                    return res
+                deferred_match = next(nested_matches)
+            except StopIteration:
+                break
+            except AttributeError as exc_info:
+                res.reason = ("%r is a scalar, not an Expression: %s",
                               expr, str(exc_info))
-            res.success = False
+                res.success = False
+            except ValueError as exc_info:
+                res.reason = ("%r: %s", expr, str(exc_info))
+                res.success = False
+            except IndexError:
+                res.reason = ("%r has an too many positional arguments", expr)
+                res.success = False
+            except KeyError as exc_info:
+                if "has already been set" in str(exc_info):
+                    res.reason = "Double wildcard: %s" % str(exc_info)
+                else:
+                    res.reason = ("%r has no keyword argument %s",
+                                  expr, str(exc_info))
+                res.success = False
+            else:
+                match_dict = deferred_match()
         if res.success:
             if self.wc_name is not None:
                 try:
@@ -370,13 +401,8 @@ class Pattern():
             for the matched expressions.
         """
         result = []
-        try:
-            for arg in expr.args:
-                result.extend(self.findall(arg))
-            for arg in expr.kwargs.values():
-                result.extend(self.findall(arg))
-        except AttributeError:
-            pass
+        for arg in _args_and_kwargs(expr):
+            result.extend(self.findall(arg))
         if self.match(expr):
             result.append(expr)
         return result
@@ -388,15 +414,9 @@ class Pattern():
         matching (sub-)expressions in `expr`. The order of the matches conforms
         to the equivalent matched expressions returned by :meth:`findall`.
         """
-        try:
-            for arg in expr.args:
-                for m in self.finditer(arg):
-                    yield m
-            for arg in expr.kwargs.values():
-                for m in self.finditer(arg):
-                    yield m
-        except AttributeError:
-            pass
+        for arg in _args_and_kwargs(expr):
+            for m in self.finditer(arg):
+                yield m
         m = self.match(expr)
         if m:
             yield m
@@ -622,6 +642,19 @@ class ProtoExpr(Sequence):
                     tuple(sorted(self.kwargs.items())))
 
 
+def _args_and_kwargs(expr):
+    """List of the (immediate) sub-expressions of `expr`, empty if `expr` is
+    not an expression"""
+    try:
+        args = list(expr.args)
+    except AttributeError:
+        return []
+    try:
+        return args + list(expr.kwargs.values())
+    except AttributeError:
+        return args
+
+
 def match_pattern(expr_or_pattern: object, expr: object) -> MatchDict:
     """Recursively match `expr` with the given `expr_or_pattern`
 
@@ -630,6 +663,8 @@ def match_pattern(expr_or_pattern: object, expr: object) -> MatchDict:
             successful match), or an instance of :class:`Pattern`.
         expr: the expression to be matched
     """
+    if isinstance(expr_or_pattern, Pattern):
+        return expr_or_pattern.match(expr)
     try:  # first try expr_or_pattern as a Pattern
         return expr_or_pattern.match(expr)
     except AttributeError:  # expr_or_pattern is an expr, not a Pattern
-- 
2.43.0


From abc9e012fe687fec4f0dc1ff782ac8c91842d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:49 +0000
Subject: [PATCH 28/42] fix: an unreadable INI file for the printing system
 must raise an error

---
 src/qnet/printing/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/__init__.py b/src/qnet/printing/__init__.py
index 123f0fc..ebd1ece 100644
--- a/src/qnet/printing/__init__.py
+++ b/src/qnet/printing/__init__.py
@@ -268,7 +268,9 @@ def _init_printing_from_file(freeze, inifile):
     config = configparser.ConfigParser(interpolation=None)
     config.BOOLEAN_STATES = {
         'true': True, 'True': True, 'false': False, 'False': False}
-    config.read(inifile)
+    with open(inifile) as in_fh:
+        # in contrast to `config.read`, this fails for an unreadable file
+        config.read_file(in_fh)
     kwargs = defaultdict(dict)
     for section in config.sections():
         if section == 'DEFAULT':
-- 
2.43.0


From e17fad7ec15d6964321f6b79a85953f27328498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:49 +0000
Subject: [PATCH 29/42] fix: simplify_scalar must not swallow an AttributeError
 of its function

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 50b6f97..1d253e4 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -632,12 +632,9 @@ class ScalarTimesQuantumExpression(
 
     def _simplify_scalar(self, func):
         coeff, term = self.operands
-        try:
-            if isinstance(coeff.val, sympy.Basic):
-                coeff = func(coeff)
-        except AttributeError:
-            # coeff is not a SymPy ScalarValue; leave it unchanged
-            pass
+        if isinstance(getattr(coeff, 'val', None), sympy.Basic):
+            coeff = func(coeff)
+        # otherwise, coeff is not a SymPy ScalarValue; leave it unchanged
         return coeff * term.simplify_scalar(func=func)
 
     def __complex__(self):
-- 
2.43.0


From 9b48559437c7769ee48348ef15d53da1e4e9db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:49 +0000
Subject: [PATCH 30/42] fix: substitute and evaluate_at must not swallow an
 AttributeError from inside a sub-expression

---
 src/qnet/algebra/core/abstract_algebra.py     | 21 +++++++++----------
 .../algebra/core/abstract_quantum_algebra.py  |  4 ++--
 src/qnet/algebra/core/algebraic_properties.py |  4 ++--
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index a396605..67fed41 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -698,17 +698,16 @@ def substitute(expr, var_map):
         expr: The expression in which to perform the substitution
         var_map (dict): The substitution dictionary.
     """
-    try:
-        if isinstance(expr, SympyBasic):
-            sympy_var_map = {
-                k: v for (k, v) in var_map.items()
-                if isinstance(k, SympyBasic)}
-            return expr.subs(sympy_var_map)
-        else:
-            return expr.substitute(var_map)
-    except AttributeError:
-        if expr in var_map:
-            return var_map[expr]
+    if isinstance(expr, SympyBasic):
+        sympy_var_map = {
+            k: v for (k, v) in var_map.items()
+            if isinstance(k, SympyBasic)}
+        return expr.subs(sympy_var_map)
+    elif hasattr(expr, 'substitute'):
+        return expr.substitute(var_map)
+    elif expr in var_map:
+        return var_map[expr]
+    else:
         return expr
 
 
diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 1d253e4..eb117b3 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -1094,10 +1094,10 @@ def _series_expand_combine_prod(c1, c2, order):
 
 
 def _evaluate_at(expr, sym, val):
-    try:
+    if hasattr(expr, 'evaluate_at'):
         # for QuantumDerivative instance
         return expr.evaluate_at({sym: val})
-    except AttributeError:
+    else:
         # for explicit Expression
         return expr.substitute({sym: val})
 
diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index d148d69..bf1e72d 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -966,10 +966,10 @@ def derivative_via_diff(cls, ops, kwargs):
         else:
             return op.__class__._zero
     if vals is not None:
-        try:
+        if hasattr(op, 'evaluate_at'):
             # for QuantumDerivative instance
             return op.evaluate_at(vals)
-        except AttributeError:
+        else:
             # for explicit Expression
             return op.substitute(vals)
     else:
-- 
2.43.0


From 6332d052daee6d5725b493c9312ccee67a0f1872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:49 +0000
Subject: [PATCH 31/42] fix: arithmetic operators must not swallow errors from
 creating their result

---
 .../algebra/core/abstract_quantum_algebra.py   | 18 +++++++-----------
 src/qnet/algebra/core/indexed_operations.py    |  6 ++++--
 src/qnet/algebra/core/state_algebra.py         |  6 ++++--
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index eb117b3..7ce562a 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -213,11 +213,9 @@ class QuantumExpression(Expression, metaclass=ABCMeta):
         return tuple(result)
 
     def __add__(self, other):
-        if not isinstance(other, self._base_cls):
-            try:
-                other = self.__class__._one * other
-            except TypeError:
-                pass
+        from qnet.algebra.core.scalar_algebra import is_scalar
+        if not isinstance(other, self._base_cls) and is_scalar(other):
+            other = self.__class__._one * other
         if isinstance(other, self.__class__._base_cls):
             return self.__class__._plus_cls.create(self, other)
         else:
@@ -262,12 +260,12 @@ class QuantumExpression(Expression, metaclass=ABCMeta):
     def __truediv__(self, other):
         try:
             factor = _sympyOne / other
-            return self * factor
         except TypeError:
             try:
                 return super().__rmul__(other)
             except AttributeError:
                 return NotImplemented
+        return self * factor
 
     def __pow__(self, other):
         if other == 0:
@@ -435,11 +433,9 @@ class SingleQuantumOperation(QuantumOperation, metaclass=ABCMeta):
     """Base class for operations on a single quantum expression"""
 
     def __init__(self, op, **kwargs):
-        if not isinstance(op, self._base_cls):
-            try:
-                op = op * self.__class__._one
-            except TypeError:
-                pass
+        from qnet.algebra.core.scalar_algebra import is_scalar
+        if not isinstance(op, self._base_cls) and is_scalar(op):
+            op = op * self.__class__._one
         super().__init__(op, **kwargs)
 
     @property
diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 9c95a0e..a0847db 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -239,9 +239,10 @@ class IndexedSum(Operation, metaclass=ABCMeta):
             new_ranges = self.ranges + other.ranges
             return self.__class__.create(self.term * other.term, *new_ranges)
         try:
-            return super().__mul__(other)
+            parent_method = super().__mul__
         except AttributeError:
             return NotImplemented
+        return parent_method(other)
 
     def __rmul__(self, other):
         if isinstance(other, IndexedSum):
@@ -249,6 +250,7 @@ class IndexedSum(Operation, metaclass=ABCMeta):
             new_ranges = other.ranges + self.ranges
             return self.__class__.create(other.term * self.term, *new_ranges)
         try:
-            return super().__rmul__(other)
+            parent_method = super().__rmul__
         except AttributeError:
             return NotImplemented
+        return parent_method(other)
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 84c160a..a6a5bd8 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -146,9 +146,10 @@ class State(QuantumExpression, metaclass=ABCMeta):
             if self.isbra:
                 return Bra.create(other.adjoint() * self.ket)
         try:
-            return super().__mul__(other)
+            parent_method = super().__mul__
         except AttributeError:
             return NotImplemented
+        return parent_method(other)
 
     def __rmul__(self, other):
         if self.isket and isinstance(other, Operator):
@@ -156,9 +157,10 @@ class State(QuantumExpression, metaclass=ABCMeta):
         elif self.isbra and is_scalar(other):
             return Bra(other.conjugate() * self.ket)
         try:
-            return super().__rmul__(other)
+            parent_method = super().__rmul__
         except AttributeError:
             return NotImplemented
+        return parent_method(other)
 
 
 ###############################################################################
-- 
2.43.0


From fcc0511c14ffa4a69193552eeea9aef60cbe7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:52 +0000
Subject: [PATCH 32/42] fix: dotprint must not swallow an AttributeError of a
 callback

---
 src/qnet/printing/dot.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/qnet/printing/dot.py b/src/qnet/printing/dot.py
index 19a7d1f..a81ebf5 100644
--- a/src/qnet/printing/dot.py
+++ b/src/qnet/printing/dot.py
@@ -231,16 +231,13 @@ def dotprint(
         style['label'] = labelfunc(expr, is_leaf)
         nodes.append('"%s" [%s];' % (node_id, _attrprint(style)))
         if not is_leaf:
-            try:
-                for expr_sub in children:
-                    i_sub = pos_counter[level+1]
-                    id_sub = _node_id(
-                        expr_sub, (level+1, i_sub), idfunc, repeat)
-                    edges.append('"%s" -> "%s"' % (node_id, id_sub))
-                    stack.append((level+1, i_sub, expr_sub))
-                    pos_counter[level+1] += 1
-            except AttributeError:
-                pass
+            for expr_sub in children:
+                i_sub = pos_counter[level+1]
+                id_sub = _node_id(
+                    expr_sub, (level+1, i_sub), idfunc, repeat)
+                edges.append('"%s" -> "%s"' % (node_id, id_sub))
+                stack.append((level+1, i_sub, expr_sub))
+                pos_counter[level+1] += 1
     return template % {
         'graphstyle': _attrprint(graphstyle, delimiter='\n'),
         'nodes': '\n'.join(nodes),
-- 
2.43.0


From 786da454ad642ddb7878467f7e12ad72ee16c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:08 +0000
Subject: [PATCH 33/42] fix: Circuit.render must not use the same temporary
 file for all circuits

---
 src/qnet/algebra/core/circuit_algebra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 6752351..4041d6f 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -213,12 +213,13 @@ class Circuit(metaclass=ABCMeta):
         """
         import qnet.visualization.circuit_pyx as circuit_visualization
         from tempfile import gettempdir
-        from time import time, sleep
+        from time import sleep
+        from uuid import uuid4
 
         if not fname:
 
             tmp_dir = gettempdir()
-            fname = os.path.join(tmp_dir, "tmp_{}.png".format(hash(time)))
+            fname = os.path.join(tmp_dir, "tmp_{}.png".format(uuid4().hex))
 
         if circuit_visualization.draw_circuit(self, fname):
             done = False
-- 
2.43.0


From efcf687a36f42819e47e97e0b31efa9919347b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:08 +0000
Subject: [PATCH 34/42] fix: draw_circuit must not report success if it did not
 write a file

---
 src/qnet/visualization/circuit_pyx.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qnet/visualization/circuit_pyx.py b/src/qnet/visualization/circuit_pyx.py
index 3e23bf2..81b73b0 100644
--- a/src/qnet/visualization/circuit_pyx.py
+++ b/src/qnet/visualization/circuit_pyx.py
@@ -9,6 +9,7 @@ except ImportError as e:
     print("PyX is not installed. Please install PyX for circuit visualization purposes.")
     raise e
 
+import os
 import shutil
 import qnet.algebra.core.circuit_algebra as ca
 from qnet.printing import latex as tex  # TODO tex -> latex
@@ -322,5 +323,14 @@ def draw_circuit(circuit, filename, direction = 'lr',
                 "No Ghostscript executable available. Ghostscript is required for "
                 "rendering to {}.".format(", ".join(gs_suffixes))
             )
+        if os.path.exists(filename):
+            # an error of Ghostscript goes unnoticed, in which case an existing
+            # file must not be mistaken for the result
+            os.remove(filename)
         c.writeGSfile(filename, gs=GS)
+        return os.path.exists(filename)
+    else:
+        raise ValueError(
+            "Unknown file type of {}: must be one of {}".format(
+                filename, ', '.join(ps_suffixes + gs_suffixes)))
     return True
-- 
2.43.0


From 35097297a2359f1f805a8c96bf42a48712b82e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:28 +0000
Subject: [PATCH 35/42] fix: debug logging must not render the reason of a
 failed match eagerly

The result of creating an expression must not depend on whether logging is
switched on: rendering fails e.g. for an invalid 'conjg_style' setting
---
 src/qnet/algebra/core/algebraic_properties.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index bf1e72d..fe85d44 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -315,11 +315,21 @@ def match_replace(cls, ops, kwargs):
             if LOG_NO_MATCH:
                 logger.debug(
                     "%sRule %s.%s: no match: %s", ("  " * (LEVEL)),
-                    cls.__name__, key, match_dict.reason)
+                    cls.__name__, key, _Reason(match_dict))
     # No matching rules
     return ops, kwargs
 
 
+class _Reason:
+    """Reason for a failed match, rendered only when the log message is"""
+
+    def __init__(self, match_dict):
+        self.match_dict = match_dict
+
+    def __str__(self):
+        return self.match_dict.reason
+
+
 def _get_binary_replacement(first, second, cls):
     """Helper function for match_replace_binary"""
     expr = ProtoExpr([first, second], {})
@@ -346,7 +356,7 @@ def _get_binary_replacement(first, second, cls):
             if LOG_NO_MATCH:
                 logger.debug(
                     "%sRule %s.%s: no match: %s", ("  " * (LEVEL)),
-                    cls.__name__, key, match_dict.reason)
+                    cls.__name__, key, _Reason(match_dict))
     return None
 
 
-- 
2.43.0


From abcc04e7fc379d6b5db2b02845728137d6801680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:33 +0000
Subject: [PATCH 36/42] fix: != of expressions must be consistent with == for
 NumPy numbers

Two equal ScalarValue instances of a NumPy number were also unequal, since
comparing NumPy numbers gives a numpy.bool_, and not a bool. As a consequence,
e.g. doit() of a sum over a NumPy number did not terminate
---
 src/qnet/algebra/core/abstract_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 67fed41..c91bf39 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -16,6 +16,7 @@ import textwrap
 from collections import OrderedDict
 from abc import ABCMeta, abstractmethod
 
+import numpy
 from sympy import (
     Basic as SympyBasic)
 from sympy.core.sympify import SympifyError
@@ -685,7 +686,7 @@ class Expression(metaclass=ABCMeta):
         Otherwise return NotImplemented.
         """
         eq = self.__eq__(other)
-        if type(eq) is bool:
+        if type(eq) is bool or isinstance(eq, numpy.bool_):
             return not eq
         return NotImplemented
 
-- 
2.43.0


From 2b1decc3d9cc622f7e2c3b680ca8a9dc5ebafeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:11 +0000
Subject: [PATCH 37/42] fix: a complex number with no imaginary part must not
 print differently depending on the printer cache

---
 src/qnet/printing/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/printing/base.py b/src/qnet/printing/base.py
index d9d5ce6..7cd0457 100644
--- a/src/qnet/printing/base.py
+++ b/src/qnet/printing/base.py
@@ -149,6 +149,10 @@ class QnetBasePrinter(SympyPrinter):
             res = self._sympy_printer.doprint(expr)
         else:  # numeric type
             try:
+                if isinstance(expr, complex) and expr.imag == 0:
+                    # complex numbers with a zero imaginary part also compare
+                    # equal to (and have the same hash as) their real part
+                    expr = expr.real
                 if int(expr) == expr:
                     # In Python, objects that evaluate equal (e.g. 2.0 == 2)
                     # have the same hash. We want to normalize this, so that we
-- 
2.43.0


From 7dd9a9936f4ecc54048fa39497775b92c2753b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:27 +0000
Subject: [PATCH 38/42] fix: free_symbols of a derivative evaluated at plain
 numbers must not raise, nor return a partial set when called again

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 7ce562a..0fae9c8 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -784,12 +784,14 @@ class QuantumDerivative(SingleQuantumOperation):
                     dummy_map[sym] = sympy.Dummy()
                 # bound symbols may not be atomic, so we have to replace them
                 # with dummies
-                self._free_symbols = {
+                res = {
                     sym for sym
                     in self.operand.substitute(dummy_map).free_symbols
                     if not isinstance(sym, sympy.Dummy)}
                 for val in self._vals.values():
-                    self._free_symbols.update(val.free_symbols)
+                    # values may be plain numbers
+                    res.update(getattr(val, "free_symbols", ()))
+                self._free_symbols = res
         return self._free_symbols.copy()
 
     @property
-- 
2.43.0


From 05707c9144286a36a78e60ac12ae3fc34bc91a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:42 +0000
Subject: [PATCH 39/42] fix: a rendered symbolic label must not depend on the
 printing configuration

---
 src/qnet/utils/indices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index 78889c8..d010d90 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -291,7 +291,8 @@ class StrLabel(SymbolicLabelBase):
 
     def _render(self, expr):
         from qnet.printing.sympy import SympyStrPrinter
-        return SympyStrPrinter().doprint(expr)
+        # the label must not depend on the global printing configuration
+        return SympyStrPrinter(SympyStrPrinter._default_settings).doprint(expr)
 
 
 @immutable_attribs
-- 
2.43.0


From 6d9afce6bed4ad1965deb79dcca2a5aa6825b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:03 +0000
Subject: [PATCH 40/42] fix: init_algebra must discard instances created with
 the previous default Hilbert space

---
 src/qnet/algebra/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/__init__.py b/src/qnet/algebra/__init__.py
index 179eccc..b5c0073 100644
--- a/src/qnet/algebra/__init__.py
+++ b/src/qnet/algebra/__init__.py
@@ -13,11 +13,15 @@ def init_algebra(*, default_hs_cls='LocalSpace'):
             in :class:`.OperatorSymbol`
 
     """
+    from qnet.algebra.core.abstract_algebra import Expression
     from qnet.algebra.core.hilbert_space_algebra import LocalSpace
     from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
     default_hs_cls = getattr(importlib.import_module('qnet'), default_hs_cls)
     if issubclass(default_hs_cls, LocalSpace):
-        QuantumExpression._default_hs_cls = default_hs_cls
+        if default_hs_cls is not QuantumExpression._default_hs_cls:
+            QuantumExpression._default_hs_cls = default_hs_cls
+            # cached instances may contain the previous default
+            Expression._forget_instances()
     else:
         raise TypeError("default_hs_cls must be a subclass of LocalSpace")
     # TODO: init_algebra should eventually control which rules QNET uses.
-- 
2.43.0


From 8dcfb4931d2101c6a86278bbb7cf971e2adcaca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:28 +0000
Subject: [PATCH 41/42] fix: srepr, and thus the canonical order of labels,
 must not depend on global printing settings

---
 src/qnet/printing/sreprprinter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qnet/printing/sreprprinter.py b/src/qnet/printing/sreprprinter.py
index 4fb775c..12eeab2 100644
--- a/src/qnet/printing/sreprprinter.py
+++ b/src/qnet/printing/sreprprinter.py
@@ -20,6 +20,15 @@ __private__ = [
 class _SReprBasePrinter(QnetBasePrinter):
     """Common base class of all printers for structured representations"""
 
+    def __init__(self, cache=None, settings=None):
+        # An explicit setting overrides any global setting (which may have been
+        # set in `init_printing`). The representation must not depend on those;
+        # it also enters the canonical order of expressions.
+        sympy_settings = dict(self.sympy_printer_cls._default_settings)
+        if settings is not None:
+            sympy_settings.update(settings)
+        super().__init__(cache=cache, settings=sympy_settings)
+
     def _write_to_cache(self, expr, res):
         # Scalars may be equal (and have the same hash) without having the
         # same representation, e.g. a number and the ScalarValue wrapping it
-- 
2.43.0


From 17d48f5e3ab0a706cefbb8de898d78470c8322bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:50 +0000
Subject: [PATCH 42/42] fix: a sum must be in canonical order after its
 summands were collected

Collecting summands changes their coefficients, and thus their position in
the canonical order. The order of the result depended on how the sum was
assembled, and, since simplify_scalar only rebuilds a sum if an operand is
another object, on whether instances were cached.
---
 src/qnet/algebra/core/operator_algebra.py       | 3 ++-
 src/qnet/algebra/core/scalar_algebra.py         | 2 +-
 src/qnet/algebra/core/state_algebra.py          | 3 ++-
 src/qnet/algebra/core/super_operator_algebra.py | 3 ++-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 2478d59..d39b3c3 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -461,7 +461,8 @@ class OperatorPlus(QuantumPlus, Operator):
     _neutral_element = ZeroOperator
     _binary_rules = OrderedDict()
     simplifications = [
-        assoc, scalars_to_op, orderby, collect_summands, match_replace_binary]
+        assoc, scalars_to_op, orderby, collect_summands, orderby,
+        match_replace_binary]
 
     def _pseudo_inverse(self):
         return PseudoInverse(self)
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 80ea672..14dd788 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -855,7 +855,7 @@ class ScalarPlus(QuantumPlus, Scalar):
     _neutral_element = Zero
     _binary_rules = OrderedDict()
     simplifications = [
-        assoc, convert_to_scalars, orderby, collect_scalar_summands,
+        assoc, convert_to_scalars, orderby, collect_scalar_summands, orderby,
         match_replace_binary]
 
     def conjugate(self):
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index a6a5bd8..ba4e9e8 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -425,7 +425,8 @@ class KetPlus(State, QuantumPlus):
     _neutral_element = ZeroKet
     _binary_rules = OrderedDict()
     simplifications = [
-        accept_bras, assoc, orderby, collect_summands, match_replace_binary]
+        accept_bras, assoc, orderby, collect_summands, orderby,
+        match_replace_binary]
 
     order_key = FullCommutativeHSOrder
 
diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 847cc94..0e47b3c 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -122,7 +122,8 @@ class SuperOperatorPlus(QuantumPlus, SuperOperator):
 
     _neutral_element = ZeroSuperOperator
     _binary_rules = OrderedDict()
-    simplifications = [assoc, orderby, collect_summands, match_replace_binary]
+    simplifications = [
+        assoc, orderby, collect_summands, orderby, match_replace_binary]
 
 
 class SuperCommutativeHSOrder(DisjunctCommutativeHSOrder):
-- 
2.43.0

