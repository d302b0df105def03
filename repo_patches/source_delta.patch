From 009a4ad4f1512f54357bfa22b4987dbd134c27ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 01/65] fix: index operations remove reports removed elements
 for repeated indices

intersect1d was told that the indices are unique, which the caller does not have to guarantee; the
result then listed elements that were never part of the property.
---
 paramz/core/index_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/index_operations.py b/paramz/core/index_operations.py
index 00d41ea..e21c3a8 100644
--- a/paramz/core/index_operations.py
+++ b/paramz/core/index_operations.py
@@ -164,7 +164,7 @@ class ParameterIndexOperations(object):
     def remove(self, prop, indices):
         if prop in self._properties:
             diff = remove_indices(self[prop], indices)
-            removed = numpy.intersect1d(self[prop], indices, True)
+            removed = numpy.intersect1d(self[prop], indices)
             if not index_empty(diff):
                 self._properties[prop] = diff
             else:
-- 
2.43.0


From 05946af658b6eb5b10fbca2376a9508c2e65e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 02/65] fix: unconstrain recognises the fixed marker by value

A marker that went through pickle or a copy is an equal but not identical string, the
mask of fixed parameters then kept the parameters fixed after unconstrain().
---
 paramz/core/indexable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index b648422..492d59a 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -264,7 +264,7 @@ class Indexable(Nameable, Updateable):
         for t in list(transforms):
             unconstrained = which.remove(t, self._raveled_index())
             removed = np.union1d(removed, unconstrained)
-            if t is __fixed__:
+            if t == __fixed__:
                 self._highest_parent_._set_unfixed(self, unconstrained)
 
         return removed
\ No newline at end of file
-- 
2.43.0


From 44c117a053bfaee200b3f3ac1b2b961dc021d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 03/65] fix: NegativeExponent inverts and differentiates its
 own f

f(x) = -exp(x), so finv(f) = log(-f), df/dx = f and log|df/dx| = log(-f). The inverse and the
gradient factor had the wrong sign and the jacobian was the logarithm of a negative number.
---
 paramz/transformations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index f0159e1..c095c52 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -160,11 +160,13 @@ class NegativeExponent(Exponent):
     def f(self, x):
         return -Exponent.f(self, x)
     def finv(self, f):
-        return -Exponent.finv(self, -f)
+        return Exponent.finv(self, -f)
     def gradfactor(self, f, df):
-        return -Exponent.gradfactor(self, f, df)
+        return Exponent.gradfactor(self, f, df)
     def initialize(self, f):
         return -Exponent.initialize(self, f) #np.abs(f)
+    def log_jacobian(self, model_param):
+        return Exponent.log_jacobian(self, -model_param)
     def __str__(self):
         return '-ve'
 
-- 
2.43.0


From 2e9556aa3dd61a525243a958fda42ece63f3f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 04/65] fix: ParamConcatenation reads, writes and updates by
 element

Writing to part of a concatenation assigned the wrong values (or failed on the shape), reading
dropped parameters whose values are zero, the parents were notified once and never again
(exhausted map), and a gradient check of a concatenation passed a generator to hstack.
---
 paramz/core/indexable.py | 2 +-
 paramz/param.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index 492d59a..3b79dfa 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -158,7 +158,7 @@ class Indexable(Nameable, Updateable):
         """
         from ..param import ParamConcatenation
         if isinstance(param, ParamConcatenation):
-            return np.hstack((self._raveled_index_for(p) for p in param.params))
+            return np.hstack([self._raveled_index_for(p) for p in param.params])
         return param._raveled_index() + self._offset_for(param)
 
     def _raveled_index_for_transformed(self, param):
diff --git a/paramz/param.py b/paramz/param.py
index c4322ac..c23cf5a 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -423,13 +423,13 @@ class ParamConcatenation(object):
         import operator
         #py3 fix
         #self.parents = map(lambda x: x[0], sorted(parents.iteritems(), key=operator.itemgetter(1)))
-        self.parents = map(lambda x: x[0], sorted(parents.items(), key=operator.itemgetter(1)))
+        self.parents = [x[0] for x in sorted(parents.items(), key=operator.itemgetter(1))]
     #===========================================================================
     # Get/set items, enable broadcasting
     #===========================================================================
     def __getitem__(self, s):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(p.param_array.flat[ind[ps]])]
+        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
         if len(params)==1: return params[0]
         return ParamConcatenation(params)
 
@@ -439,7 +439,7 @@ class ParamConcatenation(object):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
         vals = self.values(); vals[s] = val
         for p, ps in zip(self.params, self._param_slices_):
-            p.flat[ind[ps]] = vals[ps]
+            p.flat[ind[ps]] = vals[ps][ind[ps]]
         self.update_all_params()
 
     def values(self):
-- 
2.43.0


From 1f4c399a2fee07e9d903f81dd36c36dc4c7bbc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 05/65] fix: optimizer_array is up to date after unconstrain

Removing a constraint changes the value the optimizer sees, but the cached optimizer array was kept
and writing it back put the transformed values into the now unconstrained parameters.
---
 paramz/core/constrainable.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index f571700..c9371dd 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -162,7 +162,15 @@ class Constrainable(Indexable):
         remove all :py:class:`paramz.transformations.Transformation`
         transformats of this parameter object.
         """
-        return self._remove_from_index_operations(self.constraints, transforms)
+        removed = self._remove_from_index_operations(self.constraints, transforms)
+        # the optimizer sees the parameters through their constraints, so it has to look again
+        self._highest_parent_._invalidate_optimizer_array()
+        return removed
+
+    def _invalidate_optimizer_array(self):
+        self._optimizer_copy_transformed = False
+        for p in self.parameters:
+            p._invalidate_optimizer_array()
 
     def constrain_positive(self, warning=True, trigger_parent=True):
         """
-- 
2.43.0


From 81766a245bfe4f5d63ed5260bed893a758fa9d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 06/65] fix: optimizer_array and flat names work on every node
 of the hierarchy

Only the root kept track of which parameters are fixed, so on any other node the optimizer array had
the wrong elements (or failed) once something was fixed. Constrained parameters with more than one
dimension were indexed by row, and a parameter on its own never refreshed its optimizer array.
---
 paramz/core/parameter_core.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 10a141a..f741805 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -80,16 +80,16 @@ class OptimizationHandlable(Constrainable):
         if self.__dict__.get('_optimizer_copy_', None) is None or self.size != self._optimizer_copy_.size:
             self._optimizer_copy_ = np.empty(self.size)
 
-        if not self._optimizer_copy_transformed:
+        # leafs do not observe themselves, so they are never known to be up to date
+        if not self._optimizer_copy_transformed or len(self.parameters) == 0:
             self._optimizer_copy_.flat = self.param_array.flat
             #py3 fix
             #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
-            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.items() if c != __fixed__]
+            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
             self._optimizer_copy_transformed = True
 
         if self._has_fixes():# or self._has_ties()):
-            self._ensure_fixes()
-            return self._optimizer_copy_[self._fixes_]
+            return self._optimizer_copy_[self._free()]
         return self._optimizer_copy_
 
     @optimizer_array.setter
@@ -101,11 +101,8 @@ class OptimizationHandlable(Constrainable):
         Also we want to update param_array in here.
         """
         f = None
-        if self.has_parent() and self.constraints[__fixed__].size != 0:
-            f = np.ones(self.size).astype(bool)
-            f[self.constraints[__fixed__]] = FIXED
-        elif self._has_fixes():
-            f = self._fixes_
+        if self._has_fixes():
+            f = self._free()
         if f is None:
             self.param_array.flat = p
             [np.put(self.param_array, ind, c.f(self.param_array.flat[ind]))
@@ -123,6 +120,14 @@ class OptimizationHandlable(Constrainable):
         self._optimizer_copy_transformed = False
         self.trigger_update()
 
+    def _free(self):
+        """
+        Mask over the (flat) parameters, marking those which are not fixed.
+        """
+        free = np.ones(self.size, dtype=bool)
+        free[self.constraints[__fixed__]] = FIXED
+        return free
+
     def _trigger_params_changed(self, trigger_parent=True):
         """
         First tell all children to update,
@@ -219,7 +224,7 @@ class OptimizationHandlable(Constrainable):
         name_list = np.array(name_list)
 
         if not include_fixed and self._has_fixes():
-            return name_list[self._fixes_]
+            return name_list[self._free()]
         return name_list
 
     #===========================================================================
-- 
2.43.0


From 3693d600708482b0fd8858a1dbf1930c23064388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 07/65] fix: transforming the gradient for the optimizer leaves
 the model gradient alone

The gradient of the model was multiplied in place by the gradient factors of the constraints, so after
each evaluation by an optimizer model.gradient was not the gradient of the parameters any more (and
was transformed twice when an evaluation failed).
---
 paramz/core/parameter_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index f741805..76b1dd1 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -152,8 +152,9 @@ class OptimizationHandlable(Constrainable):
         """
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
+        g = np.array(g) # the model keeps its own, untransformed gradient
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-        if self._has_fixes(): return g[self._fixes_]
+        if self._has_fixes(): return g[self._free()]
         return g
 
     #def _transform_gradients_non_natural(self, g):
-- 
2.43.0


From 327388fe8120d09bee7fa172498c521762534875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 08/65] fix: constraining or fixing an index array or mask of a
 parameter sets its values

Advanced indexing gives a copy of the parameter, so the values the constraint was initialized with (or
the value to fix to) were written to the copy only and the parameter kept values outside the domain
of its constraint.
---
 paramz/core/constrainable.py | 6 ++++++
 paramz/param.py              | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index c9371dd..6a691d5 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -60,6 +60,7 @@ class Constrainable(Indexable):
         """
         if value is not None:
             self[:] = value
+            self._write_through()
 
         #index = self.unconstrain()
         index = self._add_to_index_operations(self.constraints, np.empty(0), __fixed__, warning)
@@ -125,6 +126,10 @@ class Constrainable(Indexable):
             if not p.is_fixed: return False
         return True
 
+    def _write_through(self):
+        # the values of this handle were set, see Param for handles which hold a copy
+        pass
+
     def _get_original(self, param):
         # if advanced indexing is activated it happens that the array is a copy
         # you can retrieve the original param through this method, by passing
@@ -146,6 +151,7 @@ class Constrainable(Indexable):
         """
         if isinstance(transform, Transformation):
             self.param_array[...] = transform.initialize(self.param_array)
+            self._write_through()
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
         else:
diff --git a/paramz/param.py b/paramz/param.py
index c23cf5a..215d180 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -195,6 +195,11 @@ class Param(Parameterizable, ObsAr):
     def _get_original(self, param):
         return self._original_
 
+    def _write_through(self):
+        # advanced indexing gives a copy of the values, bring them into the original parameter
+        if not np.may_share_memory(self, self._original_):
+            self._original_[self._current_slice_] = self.values
+
     #===========================================================================
     # Pickling and copying
     #===========================================================================
-- 
2.43.0


From 8ab815adc755efae1840568186589d88b90927bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 09/65] fix: a visitor that raises does not hide nodes from
 later traversals

The visited marks stayed set when the visitor raised (as link_parameter does when a parameter is added
twice), every later traversal then skipped the marked nodes.
---
 paramz/core/parameter_core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 76b1dd1..07e221f 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -390,8 +390,10 @@ class Parameterizable(OptimizationHandlable):
         if not self.__visited:
             visit(self, *args, **kwargs)
             self.__visited = True
-            self._traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     def _traverse(self, visit, *args, **kwargs):
         for c in self.parameters:
@@ -411,9 +413,11 @@ class Parameterizable(OptimizationHandlable):
         """
         if self.has_parent():
             self.__visited = True
-            self._parent_.traverse_parents(visit, *args, **kwargs)
-            self._parent_.traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._parent_.traverse_parents(visit, *args, **kwargs)
+                self._parent_.traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     #===========================================================================
     # Caching
-- 
2.43.0


From 771934bb9346aa4823a56f3975f8b415e947a7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 10/65] fix: linking a parameter to itself or below itself
 raises HierarchyError

It built a circular hierarchy (or never came back).
---
 paramz/parameterized.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 64ab493..43ac51b 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -140,6 +140,11 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         # elif param.has_parent():
         #    raise HierarchyError, "parameter {} already in another model ({}), create new object (or copy) for adding".format(param._short(), param._highest_parent_._short())
         elif param not in self.parameters:
+            ancestor = self
+            while ancestor is not None:
+                if ancestor is param:
+                    raise HierarchyError("You cannot add a parameter to itself or to one of its own parameters")
+                ancestor = ancestor._parent_
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
-- 
2.43.0


From 33684073b69424245b56b3e575c833310d625417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 11/65] fix: observers are removed by identity

Observers can be arrays, whose comparison is not a truth value.
---
 paramz/core/lists_and_dicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/lists_and_dicts.py b/paramz/core/lists_and_dicts.py
index 472b0a2..f4b7785 100644
--- a/paramz/core/lists_and_dicts.py
+++ b/paramz/core/lists_and_dicts.py
@@ -82,7 +82,7 @@ class ObserverList(object):
         self.flush()
         for i in range(len(self) - 1, -1, -1):
             p,o,c = self[i]
-            if priority==p and observer==o and callble==c:
+            if priority==p and observer is o and callble==c:
                 del self._poc[i]
 
     def __repr__(self):
-- 
2.43.0


From 393e020f4b0ff3ddc334e93fbb6d9176cfe7fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 12/65] fix: Cacher tells keyword arguments apart by name

f(X, p=a) and f(X, q=a) shared one cache entry, the second call got the result of the first.
---
 paramz/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 75dd48b..b1cf346 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -164,7 +164,7 @@ class Cacher(object):
 
         # 2: prepare_cache_id and get the unique self.id string for this call
         inputs = self.combine_inputs(args, kw, self.ignore_args)
-        cache_id = self.prepare_cache_id(inputs)
+        cache_id = self.prepare_cache_id(inputs) + "".join(" " + k for k in sorted(kw))
         # 2: if anything is not cachable, we will just return the operation, without caching
         if reduce(lambda a, b: a or (not (isinstance(b, Observable) or b is None or isinstance(b, Number) or isinstance(b, str))), inputs, False):
 #             print 'WARNING: '+self.operation.__name__ + ' not cacheable!'
-- 
2.43.0


From f5641aaa12436e2d99e797f091f89726f0213852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 13/65] fix: a Cacher with limit 0 computes instead of raising
 IndexError

---
 paramz/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index b1cf346..3df2081 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -152,7 +152,7 @@ class Cacher(object):
         """
         #=======================================================================
         # !WARNING CACHE OFFSWITCH!
-        if not self.cacher_enabled:
+        if not self.cacher_enabled or self.limit < 1:
             return self.operation(*args, **kw)
         #=======================================================================
 
-- 
2.43.0


From 79fbabdc875db3508c6b65ccd2ac76ea1eee839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 14/65] fix: optimizers report every return code scipy can give

fmin_tnc ends with codes -1, 6 and 7 and fmin_bfgs with 3 as well: optimize raised IndexError after the
optimization was done, or reported the status of another code.
---
 paramz/optimization/optimization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 53d9c42..ea0cd88 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -78,7 +78,8 @@ class opt_tnc(Optimizer):
 
         """
         tnc_rcstrings = ['Local minimum', 'Converged', 'XConverged', 'Maximum number of f evaluations reached',
-             'Line search failed', 'Function is constant']
+             'Line search failed', 'Function is constant', 'Unable to progress', 'User requested end of minimization',
+             'Infeasible (lower bound > upper bound)'] # the last one has return code -1
 
         assert f_fp != None, "TNC requires f_fp"
 
@@ -141,7 +142,7 @@ class opt_bfgs(Optimizer):
         Run the optimizer
 
         """
-        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing']
+        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing', 'NaN result encountered']
 
         opt_dict = {}
         if self.xtol is not None:
-- 
2.43.0


From ed045245d24a42bc3c5482ba2da2c2ede97c2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 15/65] fix: one Logistic instance per bounds also across
 pickle and failed construction

Constraints are looked up by identity, so after loading a model unconstrain_bounded(lower, upper) did
not find its constraint. A Logistic whose bounds were rejected stayed in the list of instances
while its traceback was alive and broke the construction of all others.
---
 paramz/transformations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index c095c52..a9a7fe1 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -190,7 +190,7 @@ class Logistic(Transformation):
         if cls._instances:
             cls._instances[:] = [instance for instance in cls._instances if instance()]
             for instance in cls._instances:
-                if instance().lower == lower and instance().upper == upper:
+                if getattr(instance(), 'lower', None) == lower and getattr(instance(), 'upper', None) == upper:
                     return instance()
         newfunc = super(Transformation, cls).__new__
         if newfunc is object.__new__:
@@ -199,6 +199,9 @@ class Logistic(Transformation):
             o = newfunc(cls, lower, upper, *args, **kwargs)
         cls._instances.append(weakref.ref(o))
         return cls._instances[-1]()
+    def __reduce__(self):
+        # one instance per bounds, also for copies and after unpickling
+        return self.__class__, (self.lower, self.upper)
     def __init__(self, lower, upper):
         assert lower < upper
         self.lower, self.upper = float(lower), float(upper)
-- 
2.43.0


From 6255278a258332092a1775ba38b65688947f53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 16/65] fix: constraining part of a concatenation constrains
 the addressed elements only

Indexing a ParamConcatenation gave copies of the parameters' values which still claimed to be the
whole parameters, so m[''][:2].fix() fixed all elements of the parameters involved.
---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 215d180..8764ba4 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -434,7 +434,7 @@ class ParamConcatenation(object):
     #===========================================================================
     def __getitem__(self, s):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
+        params = [p[ind[ps].reshape(p.shape)] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
         if len(params)==1: return params[0]
         return ParamConcatenation(params)
 
-- 
2.43.0


From 8eaa08466108f112e71174a55405e106aa9f5df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 17/65] fix: linking below an inner node keeps the values of
 the hierarchy

---
 paramz/parameterized.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 43ac51b..e69f905 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -266,16 +266,17 @@ All parameter arrays must be C_CONTIGUOUS
 
             pslice = slice(old_size, old_size + p.size)
 
-            # first connect all children
-            p._propagate_param_grad(self.param_array[pslice], self.gradient_full[pslice])
-
-            # then connect children to self
+            # first connect children to self
             self.param_array[pslice] = p.param_array.flat  # , requirements=['C', 'W']).ravel(order='C')
             self.gradient_full[pslice] = p.gradient_full.flat  # , requirements=['C', 'W']).ravel(order='C')
 
             p.param_array.data = self.param_array[pslice].data
             p.gradient_full.data = self.gradient_full[pslice].data
 
+            # then connect their children, which bring in their values
+            # (nodes do not have values of their own after a change of size)
+            p._propagate_param_grad(self.param_array[pslice], self.gradient_full[pslice])
+
             self._param_slices_.append(pslice)
 
             self._add_parameter_name(p)
-- 
2.43.0


From c24b5b88316b0aef6d04400c77ae1c6fb1a5dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 18/65] fix: linking below an inner node updates the index
 views of the whole hierarchy

---
 paramz/parameterized.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index e69f905..9b360e5 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -177,7 +177,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
             while parent is not None:
                 parent.size += param.size
                 parent = parent._parent_
-            self._notify_parent_change()
+            # sizes and offsets change in the whole hierarchy, not only below self
+            self._highest_parent_._notify_parent_change()
 
             if not self._in_init_ and self._highest_parent_._model_initialized_:
                 #self._connect_parameters()
-- 
2.43.0


From f1a6c6676cac2d254bfc971d32906926b814c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 19/65] fix: constraining or fixing a selection without any
 element does nothing

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 8764ba4..430f430 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -173,7 +173,7 @@ class Param(Parameterizable, ObsAr):
         extended_realshape = np.cumprod((1,) + self._realshape_[:0:-1])[::-1]
         ind = self._indices(slice_index)
         if ind.ndim < 2: ind = ind[:, None]
-        return np.asarray(np.apply_along_axis(lambda x: np.sum(extended_realshape * x), 1, ind), dtype=int)
+        return np.asarray(np.sum(extended_realshape * ind, axis=1), dtype=int)
 
     def _raveled_index_for(self, obj):
         return self._raveled_index()
-- 
2.43.0


From 5ef049e78e0959f1efc42aef5730b5c2a7c3db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 20/65] fix: optimizer_array is up to date after linking and
 unlinking

---
 paramz/parameterized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 9b360e5..f06c4f5 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -187,6 +187,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 self._highest_parent_._connect_parameters()
                 self._highest_parent_._notify_parent_change()
                 self._highest_parent_._connect_fixes()
+                self._highest_parent_._invalidate_optimizer_array()
             return param
         else:
             raise HierarchyError("""Parameter exists already, try making a copy""")
@@ -230,6 +231,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         self._highest_parent_._connect_parameters()
         self._highest_parent_._connect_fixes()
         self._highest_parent_._notify_parent_change()
+        self._highest_parent_._invalidate_optimizer_array()
 
     def _connect_parameters(self, ignore_added_names=False):
         # connect parameterlist to this parameterized object
-- 
2.43.0


From 21f03290783ec55063260a29fc5dfcfefd12e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 21/65] fix: fixed parts of the hierarchy are updated when
 their values are set

---
 paramz/core/parameter_core.py | 9 ++++++---
 paramz/core/updateable.py     | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 07e221f..268ad0d 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -118,7 +118,7 @@ class OptimizationHandlable(Constrainable):
         #self._highest_parent_.tie.propagate_val()
 
         self._optimizer_copy_transformed = False
-        self.trigger_update()
+        self.trigger_update(skip_fixed=True)
 
     def _free(self):
         """
@@ -128,14 +128,17 @@ class OptimizationHandlable(Constrainable):
         free[self.constraints[__fixed__]] = FIXED
         return free
 
-    def _trigger_params_changed(self, trigger_parent=True):
+    def _trigger_params_changed(self, trigger_parent=True, skip_fixed=False):
         """
         First tell all children to update,
         then update yourself.
 
         If trigger_parent is True, we will tell the parent, otherwise not.
+        If skip_fixed is True, children without any free element are left
+        out (the optimizer does not change them).
         """
-        [p._trigger_params_changed(trigger_parent=False) for p in self.parameters if not p.is_fixed]
+        [p._trigger_params_changed(trigger_parent=False, skip_fixed=skip_fixed)
+         for p in self.parameters if not (skip_fixed and p.is_fixed)]
         self.notify_observers(None, None if trigger_parent else -np.inf)
 
     def _size_transformed(self):
diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index 9a47f65..ab530b0 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -65,15 +65,16 @@ class Updateable(Observable):
     def update_toggle(self):
         self.update_model(not self.update_model())
 
-    def trigger_update(self, trigger_parent=True):
+    def trigger_update(self, trigger_parent=True, skip_fixed=False):
         """
         Update the model from the current state.
         Make sure that updates are on, otherwise this
         method will do nothing
 
         :param bool trigger_parent: Whether to trigger the parent, after self has updated
+        :param bool skip_fixed: Whether to leave out parts, which are completely fixed
         """
         if not self.update_model() or (hasattr(self, "_in_init_") and self._in_init_):
             #print "Warning: updates are off, updating the model will do nothing"
             return
-        self._trigger_params_changed(trigger_parent)
+        self._trigger_params_changed(trigger_parent, skip_fixed)
-- 
2.43.0


From 1a80b3ccbc4a39da7b210e02d649a40951e7c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 22/65] fix: switching updates on brings the whole hierarchy up
 to date

---
 paramz/core/updateable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index ab530b0..7dc15c1 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -57,7 +57,7 @@ class Updateable(Observable):
         def turn_updates(s):
             s._update_on = updates
         p.traverse(turn_updates)
-        self.trigger_update()
+        p.trigger_update() # updates were off everywhere, so anything might have changed
 
     def toggle_update(self):
         print("deprecated: toggle_update was renamed to update_toggle for easier access")
-- 
2.43.0


From 584e92d7a2c008fcbdd5ce2d0521022a6489c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 23/65] fix: Cacher ignores positional arguments only

---
 paramz/caching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 3df2081..1beb785 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -89,9 +89,10 @@ class Cacher(object):
 
     def combine_inputs(self, args, kw, ignore_args):
         "Combines the args and kw in a unique way, such that ordering of kwargs does not lead to recompute"
-        inputs= args + tuple(c[1] for c in sorted(kw.items(), key=lambda x: x[0]))
         # REMOVE the ignored arguments from input and PREVENT it from being checked!!!
-        return [a for i,a in enumerate(inputs) if i not in ignore_args]
+        # (ignore_args are indices into args only, keyword arguments are never ignored)
+        inputs = [a for i,a in enumerate(args) if i not in ignore_args]
+        return inputs + [c[1] for c in sorted(kw.items(), key=lambda x: x[0])]
 
     def prepare_cache_id(self, combined_args_kw):
         "get the cacheid (conc. string of argument self.ids in order)"
-- 
2.43.0


From d200a5deffeaa33788afc584dff41edc3927b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 24/65] fix: Cache_this always computes for forced keywords

---
 paramz/caching.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 1beb785..fce1307 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -34,7 +34,7 @@
 import collections, weakref
 from functools import reduce
 from pickle import PickleError
-from decorator import decorate  # @UnresolvedImport
+from decorator import decorate, getfullargspec  # @UnresolvedImport
 
 from .core.observable import Observable
 from numbers import Number
@@ -272,7 +272,13 @@ class Cache_this(object):
         self.f = None
     def __call__(self, f):
         self.f = f
+        # decorate hands over all arguments by position, so find the forced ones there
+        spec = getfullargspec(f)
+        defaults = dict(zip(spec.args[::-1], (spec.defaults or ())[::-1]))
+        forced = [(i, defaults.get(name)) for i, name in enumerate(spec.args) if name in self.force_kwargs]
         def g(obj, *args, **kw):
+            if any(i < len(args) and args[i] is not None and args[i] is not default for i, default in forced):
+                return self.f(*args, **kw)
             obj = args[0]
             if not hasattr(obj, 'cache'):
                 obj.cache = FunctionCache()
-- 
2.43.0


From 57df93908cd5c4bf4a641efe7c4dd364ccd21914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 25/65] fix: Cacher notices changes through views of its inputs

---
 paramz/caching.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index fce1307..4772859 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -111,8 +111,10 @@ class Cacher(object):
                 if tmp is not None:
                     ref, cache_ids = tmp
                     if len(cache_ids) == 1 and ref() is not None:
-                        ref().remove_observer(self, self.on_cache_changed)
                         del self.cached_input_ids[ind_id]
+                        # views (slices) of an input share its observers
+                        if not self.inputs_notified_by(ref()):
+                            ref().remove_observer(self, self.on_cache_changed)
                     else:
                         cache_ids.remove(cache_id)
                         self.cached_input_ids[ind_id] = [ref, cache_ids]
@@ -192,6 +194,11 @@ class Cacher(object):
         # 5: We have seen this cache_id and it is cached:
         return self.cached_outputs[cache_id]
 
+    def inputs_notified_by(self, obj):
+        "The cached inputs, which change with obj: obj itself and inputs, which share its observers (views of the same array)"
+        return [cache_ids for ref, cache_ids in self.cached_input_ids.values()
+                if ref() is not None and (ref() is obj or ref().observers is getattr(obj, 'observers', self))]
+
     def on_cache_changed(self, direct, which=None):
         """
         A callback funtion, which sets local flags when the elements of some cached inputs change
@@ -199,10 +206,10 @@ class Cacher(object):
         this function gets 'hooked up' to the inputs when we cache them, and upon their elements being changed we update here.
         """
         for what in [direct, which]:
-            ind_id = self.id(what)
-            _, cache_ids = self.cached_input_ids.get(ind_id, [None, []])
-            for cache_id in cache_ids:
-                self.inputs_changed[cache_id] = True
+            if what is None: continue
+            for cache_ids in self.inputs_notified_by(what):
+                for cache_id in cache_ids:
+                    self.inputs_changed[cache_id] = True
 
     def reset(self):
         """
-- 
2.43.0


From b4df54ecae8b29e3ba47ec3479171dbca05f9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:03 +0000
Subject: [PATCH 26/65] fix: connecting parameters reads values before their
 memory is replaced

---
 paramz/core/parameter_core.py |  3 ++-
 paramz/parameterized.py       | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 268ad0d..e13328a 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -293,13 +293,14 @@ class OptimizationHandlable(Constrainable):
         for pi in self.parameters:
             pislice = slice(pi_old_size, pi_old_size + pi.size)
 
+            pi._propagate_param_grad(parray[pislice], garray[pislice])
+
             self.param_array[pislice] = pi.param_array.flat  # , requirements=['C', 'W']).flat
             self.gradient_full[pislice] = pi.gradient_full.flat  # , requirements=['C', 'W']).flat
 
             pi.param_array.data = parray[pislice].data
             pi.gradient_full.data = garray[pislice].data
 
-            pi._propagate_param_grad(parray[pislice], garray[pislice])
             pi_old_size += pi.size
 
         self._model_initialized_ = True
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index f06c4f5..94dd474 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -269,17 +269,17 @@ All parameter arrays must be C_CONTIGUOUS
 
             pslice = slice(old_size, old_size + p.size)
 
-            # first connect children to self
+            # first connect all children, which bring in their values
+            # (nodes do not have values of their own after a change of size)
+            p._propagate_param_grad(self.param_array[pslice], self.gradient_full[pslice])
+
+            # then connect children to self
             self.param_array[pslice] = p.param_array.flat  # , requirements=['C', 'W']).ravel(order='C')
             self.gradient_full[pslice] = p.gradient_full.flat  # , requirements=['C', 'W']).ravel(order='C')
 
             p.param_array.data = self.param_array[pslice].data
             p.gradient_full.data = self.gradient_full[pslice].data
 
-            # then connect their children, which bring in their values
-            # (nodes do not have values of their own after a change of size)
-            p._propagate_param_grad(self.param_array[pslice], self.gradient_full[pslice])
-
             self._param_slices_.append(pslice)
 
             self._add_parameter_name(p)
-- 
2.43.0


From d715ad2d56f023f4705c9c608438eb9493132fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 27/65] fix: parameters and inner nodes can be pickled on their
 own

---
 paramz/core/pickleable.py | 7 +++++++
 paramz/parameterized.py   | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/paramz/core/pickleable.py b/paramz/core/pickleable.py
index faf45de..fcb359c 100644
--- a/paramz/core/pickleable.py
+++ b/paramz/core/pickleable.py
@@ -28,6 +28,8 @@
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #===============================================================================
 
+from collections import OrderedDict
+
 class Pickleable(object):
     """
     Make an object pickleable (See python doc 'pickling').
@@ -109,6 +111,8 @@ class Pickleable(object):
                        'observers',
                        '_fixes_', # and fixes
                        'cache', # never pickle the cache
+                       '_parent_', # parents connect to their parameters,
+                       '_parent_index_', # so parts can be pickled without them
                        ]
         dc = dict()
         #py3 fix
@@ -116,6 +120,9 @@ class Pickleable(object):
         for k,v in self.__dict__.items():
             if k not in ignore_list:
                 dc[k] = v
+        if '_index_operations' in dc:
+            # detached from the parents, which give out new views
+            dc['_index_operations'] = OrderedDict((k, v.copy()) for k,v in dc['_index_operations'].items())
         return dc
 
     def __setstate__(self, state):
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 94dd474..3686dfa 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -353,6 +353,8 @@ If you are loading a model, set updates off, then initialize, then set the value
     def __setstate__(self, state):
         super(Parameterized, self).__setstate__(state)
         self._connect_parameters()
+        for p in self.parameters:
+            p.add_observer(self, self._pass_through_notify_observers, -np.inf)
         self._connect_fixes()
         self._notify_parent_change()
         self.parameters_changed()
-- 
2.43.0


From dc386ffa9880a80127b6f3415a2681ee7da75192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 28/65] fix: parameters named like an attribute do not take
 over the setting of it

---
 paramz/parameterized.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 3686dfa..e8fdf41 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -344,7 +344,9 @@ If you are loading a model, set updates off, then initialize, then set the value
             pnames = self.parameter_names(False, adjust_for_printing=True, recursive=False)
             if name in pnames:
                 param = self.parameters[pnames.index(name)]
-                param[:] = val; return
+                # parameters do not replace other attributes of the same name
+                if not hasattr(type(self), name) and self.__dict__.get(name, param) is param:
+                    param[:] = val; return
         return object.__setattr__(self, name, val)
 
     #===========================================================================
-- 
2.43.0


From 5ad542d736277a05b0dfbec0d7e4664ac0c894a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 29/65] fix: parameters are renamed if their printable names
 clash

---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index e13328a..9e32322 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -476,7 +476,7 @@ class Parameterizable(OptimizationHandlable):
                 self._add_parameter_name(param)
             # and makes sure to not delete programmatically added parameters
             for other in self.parameters:
-                if (not (other is param)) and (other.name == param.name):
+                if (not (other is param)) and (adjust_name_for_printing(other.name) == pname):
                     return warn_and_retry(other, _name_digit.match(other.name))
             if pname not in dir(self):
                 self.__dict__[pname] = param
-- 
2.43.0


From 5c0d567c29199f819fb74e8edca61837304856ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 30/65] fix: rejected names leave the hierarchy unchanged

---
 paramz/core/nameable.py | 2 ++
 paramz/parameterized.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index 43e4f74..673bc84 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -69,6 +69,8 @@ class Nameable(Gradcheckable):
         """
         from_name = self.name
         assert isinstance(name, str)
+        if self.has_parent():
+            adjust_name_for_printing(name) # refuse before anything is changed
         self._name = name
         if self.has_parent():
             self._parent_._name_changed(self, from_name)
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index e8fdf41..1c30fe5 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -140,6 +140,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         # elif param.has_parent():
         #    raise HierarchyError, "parameter {} already in another model ({}), create new object (or copy) for adding".format(param._short(), param._highest_parent_._short())
         elif param not in self.parameters:
+            adjust_name_for_printing(param.name) # refuse before anything is changed
             ancestor = self
             while ancestor is not None:
                 if ancestor is param:
-- 
2.43.0


From fb3b0df1980695d3f6b9ba4539929bf033cdecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 31/65] fix: hierarchy_name passes its option to the parents,
 parameter_names returns a list

---
 paramz/core/nameable.py       | 2 +-
 paramz/core/parameter_core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index 673bc84..fe723a9 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -86,5 +86,5 @@ class Nameable(Gradcheckable):
         if adjust_for_printing: adjust = lambda x: adjust_name_for_printing(x)
         else: adjust = lambda x: x
         if self.has_parent():
-            return self._parent_.hierarchy_name() + "." + adjust(self.name)
+            return self._parent_.hierarchy_name(adjust_for_printing) + "." + adjust(self.name)
         return adjust(self.name)
diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 9e32322..9eb644f 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -204,7 +204,7 @@ class OptimizationHandlable(Constrainable):
                                    adjust_for_printing=adjust_for_printing,
                                    recursive=True,
                                    intermediate=False)])
-        if add_self: names = map(lambda x: adjust(self.name) + "." + x, names)
+        if add_self: names = [adjust(self.name) + "." + x for x in names]
         return names
 
     def parameter_names_flat(self, include_fixed=False):
-- 
2.43.0


From c41a631f036e3704599b69f8e53d85739ee28dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 32/65] fix: names ending in a newline have no printable form

---
 paramz/core/nameable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index fe723a9..269dfaa 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -41,7 +41,7 @@ def adjust_name_for_printing(name):
         name = name.replace("**", "_xx_").replace("*", "_x_")
         name = name.replace("/", "_l_").replace("@", '_at_')
         name = name.replace("(", "_of_").replace(")", "")
-        if re.match(r'^[a-zA-Z_][a-zA-Z0-9-_]*$', name) is None:
+        if re.match(r'^[a-zA-Z_][a-zA-Z0-9-_]*\Z', name) is None:
             raise NameError("name {} converted to {} cannot be further converted to valid python variable name!".format(name2, name))
         return name
     return ''
-- 
2.43.0


From 2ddbc97d92a37e3facf18c8b9c596d7fbc4c0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 33/65] fix: empty parameters have no flat parameter names

---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 9eb644f..49e5a08 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -223,7 +223,7 @@ class OptimizationHandlable(Constrainable):
             name = p.hierarchy_name()
             if p.size > 1:
                 name_list.extend(["{}[{!s}]".format(name, i) for i in p._indices()])
-            else:
+            elif p.size == 1:
                 name_list.append(name)
         name_list = np.array(name_list)
 
-- 
2.43.0


From fe4c75c919c2d83661761986833ee2ea1d3f2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:16 +0000
Subject: [PATCH 34/65] fix: linking below an inner node makes the parameter
 available as attribute

---
 paramz/parameterized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 1c30fe5..1e06440 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -185,6 +185,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 #self._connect_parameters()
                 #self._notify_parent_change()
 
+                if self.has_parent():
+                    self._connect_parameters() # adds the name
                 self._highest_parent_._connect_parameters()
                 self._highest_parent_._notify_parent_change()
                 self._highest_parent_._connect_fixes()
-- 
2.43.0


From f43036977b0d3d8ba37ec53d15a18b2f77e2a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 35/65] fix: SCG stops at a start with zero gradient, it
 evaluated at nan

---
 paramz/optimization/scg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paramz/optimization/scg.py b/paramz/optimization/scg.py
index be8de76..1619364 100644
--- a/paramz/optimization/scg.py
+++ b/paramz/optimization/scg.py
@@ -82,6 +82,11 @@ def SCG(f, gradf, x, optargs=(), maxiters=500, max_f_eval=np.inf, xtol=None, fto
 
     flog = [fold]
 
+    # If the gradient is zero then we are done.
+    if current_grad == 0.:
+        status = 'converged - relative reduction in gradient'
+        return x, flog, function_eval, status
+
     iteration = 0
 
     # Main optimization loop.
-- 
2.43.0


From 399537d92129e667bffec585b660195e47fa4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 36/65] fix: hand the optimizer a copy of the current values,
 not the model's own buffer

The start vector was the internal array behind optimizer_array: every evaluation
of the objective changed it under the optimizer, and an optimizer returning its
start left a record that followed the model.
---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 1c9a7e1..80f445d 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -95,7 +95,7 @@ class Model(Parameterized):
             self.update_model(True)
 
         if start is None:
-            start = self.optimizer_array
+            start = self.optimizer_array.copy()
 
         if optimizer is None:
             optimizer = self.preferred_optimizer
-- 
2.43.0


From bbaedfd536cafa32e5c680a111adca8bb95a52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 37/65] fix: optimize_restarts does not prefer a run which
 ended at not-a-number

np.argmin returns the first NaN, so a failed run won over every finite one.
---
 paramz/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 80f445d..775c865 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -183,7 +183,8 @@ class Model(Parameterized):
 
         if len(self.optimization_runs) > initial_length:
             # This works, since failed jobs don't get added to the optimization_runs.
-            i = np.argmin([o.f_opt for o in self.optimization_runs[initial_length:]])
+            f_opts = [o.f_opt for o in self.optimization_runs[initial_length:]]
+            i = np.argmin([np.inf if np.isnan(f) else f for f in f_opts])
             self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
         else:
             self.optimizer_array = initial_parameters
-- 
2.43.0


From c8d90c009cdc69156437b1aef58cf9348d9c6b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 38/65] fix: optimize_restarts of a model without free
 parameters

optimize does nothing then and records no run, and reporting the last run failed
with an IndexError (or reported an unrelated earlier run).
---
 paramz/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/model.py b/paramz/model.py
index 775c865..ff5a51e 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -148,6 +148,10 @@ class Model(Parameterized):
             on the current machine.
 
         """
+        if self.is_fixed or self.size == 0:
+            print('nothing to optimize')
+            return self.optimization_runs
+
         initial_length = len(self.optimization_runs)
         initial_parameters = self.optimizer_array.copy()
 
-- 
2.43.0


From 491aca613e2b871f4744a4e050ff4bb3aef3e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 39/65] fix: optimize_restarts with optimizers which report no
 objective value

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index ff5a51e..106a46e 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -188,7 +188,7 @@ class Model(Parameterized):
         if len(self.optimization_runs) > initial_length:
             # This works, since failed jobs don't get added to the optimization_runs.
             f_opts = [o.f_opt for o in self.optimization_runs[initial_length:]]
-            i = np.argmin([np.inf if np.isnan(f) else f for f in f_opts])
+            i = np.argmin([np.inf if f != f else f for f in f_opts])
             self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
         else:
             self.optimizer_array = initial_parameters
-- 
2.43.0


From 897c382ff50e8f4934c697e9bd36099a5ef03970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 40/65] fix: keep the records of earlier runs when an optimizer
 object is used again

With an Optimizer instance all entries of optimization_runs were the same object,
and optimize_restarts ended at the last instead of the best optimum.
---
 paramz/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/model.py b/paramz/model.py
index 106a46e..638a20e 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -32,6 +32,8 @@
 #===============================================================================
 
 
+import copy
+
 import numpy as np
 from numpy.linalg.linalg import LinAlgError
 
@@ -103,6 +105,8 @@ class Model(Parameterized):
         if isinstance(optimizer, optimization.Optimizer):
             opt = optimizer
             opt.model = self
+            # this run overwrites the results of earlier runs of the same optimizer
+            self.optimization_runs[:] = [copy.copy(o) if o is opt else o for o in self.optimization_runs]
         else:
             optimizer = optimization.get_optimizer(optimizer)
             opt = optimizer(max_iters=max_iters, **kwargs)
-- 
2.43.0


From 4b5003f87ddb42d33eba9013f551a98c5692a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 41/65] fix: parallel restarts tolerate a failing run when
 robust

---
 paramz/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 638a20e..d8f7680 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -46,7 +46,10 @@ import multiprocessing as mp
 def opt_wrapper(args):
     m = args[0]
     kwargs = args[1]
-    return m.optimize(**kwargs)
+    try:
+        return m.optimize(**kwargs)
+    except Exception as e:
+        return e  # raised or tolerated in optimize_restarts
 
 
 class Model(Parameterized):
@@ -179,6 +182,8 @@ class Model(Parameterized):
                         self.randomize()
                     self.optimize(**kwargs)
                 else:#pragma: no cover
+                    if isinstance(jobs[i], Exception):
+                        raise jobs[i]
                     self.optimization_runs.append(jobs[i])
 
                 if verbose:
-- 
2.43.0


From 85873126fc27087532f58735b673be04d8a352f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 42/65] fix: checkgrad compares the derivatives, not the change
 of the objective

The plain check accepted a zero gradient for any slope up to tolerance/(2 step)
(500 with the defaults), and rejected right gradients which cancel along the
direction tried, as (1, -1) of a model with two parameters.
---
 paramz/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index d8f7680..319a772 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -348,7 +348,8 @@ class Model(Parameterized):
 
             denominator = (2 * np.dot(dx, gradient))
             global_ratio = (f1 - f2) / np.where(denominator == 0., 1e-32, denominator)
-            global_diff = np.abs(f1 - f2) < tolerance and np.allclose(gradient, 0, atol=tolerance)
+            # difference of the numerical and analytical derivative along the direction of dx
+            global_diff = np.abs((f1 - f2) / (2. * step) - denominator / (2. * step)) < tolerance
             if global_ratio is np.nan: # pragma: no cover
                 global_ratio = 0
             return np.abs(1. - global_ratio) < tolerance or global_diff
-- 
2.43.0


From dd13917a61dea00d7c2790af2c26fce2b684be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 43/65] fix: verbose checkgrad where the smaller of the two
 objective values is zero

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 319a772..88e6263 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -391,7 +391,7 @@ class Model(Parameterized):
                 #Avoid divide by zero, if any of the values are above 1e-15, otherwise both values are essentiall
                 #the same
                 if f1 > 1e-15 or f1 < -1e-15 or f2 > 1e-15 or f2 < -1e-15:
-                    df_ratio = np.abs((f1 - f2) / min(f1, f2))
+                    df_ratio = np.abs((f1 - f2) / (min(f1, f2) or max(f1, f2)))
                 else: # pragma: no cover
                     df_ratio = 1.0
                 df_unstable = df_ratio < df_tolerance
-- 
2.43.0


From 4e21783b2732cc0340c44fc049faa4d310922efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 44/65] fix: in-place arithmetic on a concatenation of
 parameters returns it

The operators returned None, so that c += 1 replaced c by None.
---
 paramz/param.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/paramz/param.py b/paramz/param.py
index 430f430..5b20637 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -551,39 +551,52 @@ class ParamConcatenation(object):
 
     def __ilshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ilshift__(self.values(), *args, **kwargs)
+        return self
 
     def __irshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__irshift__(self.values(), *args, **kwargs)
+        return self
 
     def __ixor__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ixor__(self.values(), *args, **kwargs)
+        return self
 
     def __ipow__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ipow__(self.values(), *args, **kwargs)
+        return self
 
     def __ifloordiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ifloordiv__(self.values(), *args, **kwargs)
+        return self
 
     def __isub__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__isub__(self.values(), *args, **kwargs)
+        return self
 
     def __ior__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ior__(self.values(), *args, **kwargs)
+        return self
 
     def __itruediv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__itruediv__(self.values(), *args, **kwargs)
+        return self
 
     def __idiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__idiv__(self.values(), *args, **kwargs)
+        return self
 
     def __iand__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iand__(self.values(), *args, **kwargs)
+        return self
 
     def __imod__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imod__(self.values(), *args, **kwargs)
+        return self
 
     def __iadd__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iadd__(self.values(), *args, **kwargs)
+        return self
 
     def __imul__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imul__(self.values(), *args, **kwargs)
+        return self
-- 
2.43.0


From fb5aa42816d29d51d0005935cdc01ab54ce188b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 45/65] fix: climin optimizers report the objective at the
 optimum

f_opt and funct_eval stayed None: printing the record failed, and
optimize_restarts could not compare the runs.
---
 paramz/optimization/optimization.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index ea0cd88..00411b8 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -262,6 +262,7 @@ class Opt_Adadelta(Optimizer):
 
 
     def opt(self, x_init, f_fp=None, f=None, fp=None):
+        assert not f is None
         assert not fp is None
 
         import climin
@@ -271,6 +272,8 @@ class Opt_Adadelta(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded '
                 break
         else: # pragma: no cover
@@ -291,6 +294,7 @@ class RProp(Optimizer):
         
     def opt(self, x_init, f_fp=None, f=None, fp=None):
         # We only need the gradient of the 
+        assert not f is None
         assert not fp is None
 
         import climin
@@ -307,6 +311,8 @@ class RProp(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
@@ -333,6 +339,7 @@ class Adam(Optimizer):
         
     def opt(self, x_init, f_fp=None, f=None, fp=None):
         # We only need the gradient of the 
+        assert not f is None
         assert not fp is None
 
         import climin
@@ -349,6 +356,8 @@ class Adam(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
-- 
2.43.0


From b1d47028303bcbe73429213d43ab731ecd6bb932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 46/65] fix: linking at an index beyond the last parameter
 reports the position the parameter is put

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 1e06440..3ea8580 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -167,7 +167,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                     iop.shift_right(start, param.size)
                     iop.update(param._index_operations[name], start)
                 param._parent_ = self
-                param._parent_index_ = index if index>=0 else len(self.parameters[:index])
+                param._parent_index_ = len(self.parameters[:index])
                 for p in self.parameters[index:]:
                     p._parent_index_ += 1
                 self.parameters.insert(index, param)
-- 
2.43.0


From fae529fcbe84f02b0e8c6ae3cb355e0d366b0538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 47/65] fix: the last parameter unlinked does not share its
 memory with the next one linked

---
 paramz/parameterized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 3ea8580..8013317 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -216,7 +216,10 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         self.size -= param.size
         del self.parameters[param._parent_index_]
         self._remove_parameter_name(param)
-
+        if len(self.parameters) < 1:
+            # the memory stays with the removed parameter, do not use it for the next one
+            self._param_array_ = np.empty(0, dtype=np.float64)
+            self._gradient_array_ = np.empty(0, dtype=np.float64)
 
         param._disconnect_parent()
         param.remove_observer(self, self._pass_through_notify_observers)
-- 
2.43.0


From abec00b1227a3469ec48649870f7e282b9a41972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 48/65] fix: linking at a position that is not an integer
 changes nothing

---
 paramz/parameterized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 8013317..283e841 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -28,6 +28,7 @@
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #===============================================================================
 
+import operator
 import numpy; np = numpy
 from re import compile
 try:
@@ -134,6 +135,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         Add all parameters to this param class, you can insert parameters
         at any given index using the :func:`list.insert` syntax
         """
+        if index is not None:
+            index = operator.index(index) # refuse before anything is changed
         if param in self.parameters and index is not None:
             self.unlink_parameter(param)
             return self.link_parameter(param, index)
-- 
2.43.0


From ae5645a58aeb1befec71539141644d3e4051ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 49/65] fix: linking to a node which is linked already inside
 __init__

---
 paramz/parameterized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 283e841..e7481ce 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -114,6 +114,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
     #__metaclass__ = ParametersChangedMeta
     #The six module is used to support both Python 2 and 3 simultaneously
     #===========================================================================
+    _model_initialized_ = False
+
     def __init__(self, name=None, parameters=[]):
         super(Parameterized, self).__init__(name=name)
         self.size = sum(p.size for p in self.parameters)
-- 
2.43.0


From 6e44405690b83b4edd6449b6d22b0d3c0e37dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 50/65] fix: do not update an object which is not initialized
 yet

---
 paramz/core/parameter_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 49e5a08..4202d56 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -519,7 +519,8 @@ class Parameterizable(OptimizationHandlable):
         will update the optimizer_array to the latest parameters
         """
         self._optimizer_copy_transformed = False # tells the optimizer array to update on next request
-        self.parameters_changed()
+        if getattr(self, '_model_initialized_', True):
+            self.parameters_changed() # otherwise it is updated when it gets initialized
     def _pass_through_notify_observers(self, me, which=None):
         self.notify_observers(which=which)
     def _setup_observers(self):
-- 
2.43.0


From 1c93e87aafab894ed5808e3bc98bc796f81568bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 51/65] fix: unlinking, renaming and linking below do not
 initialize a model half

---
 paramz/core/parameter_core.py |  3 ++-
 paramz/parameterized.py       | 38 +++++++++++++++++++++++++----------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 4202d56..4ca32ac 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -499,7 +499,8 @@ class Parameterizable(OptimizationHandlable):
         if pname in self._added_names_:
             del self.__dict__[pname]
             self._added_names_.remove(pname)
-        self._connect_parameters()
+        if self._model_initialized_:
+            self._connect_parameters()
 
     def _name_changed(self, param, old_name):
         self._remove_parameter_name(None, old_name)
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index e7481ce..2aab5de 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -186,16 +186,17 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
             # sizes and offsets change in the whole hierarchy, not only below self
             self._highest_parent_._notify_parent_change()
 
-            if not self._in_init_ and self._highest_parent_._model_initialized_:
+            if not self._in_init_ and self._model_initialized_:
                 #self._connect_parameters()
                 #self._notify_parent_change()
 
-                if self.has_parent():
+                top = self._highest_initialized()
+                if self is not top:
                     self._connect_parameters() # adds the name
-                self._highest_parent_._connect_parameters()
-                self._highest_parent_._notify_parent_change()
-                self._highest_parent_._connect_fixes()
-                self._highest_parent_._invalidate_optimizer_array()
+                top._connect_parameters()
+                top._notify_parent_change()
+                top._connect_fixes()
+                top._invalidate_optimizer_array()
             return param
         else:
             raise HierarchyError("""Parameter exists already, try making a copy""")
@@ -231,18 +232,33 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         for name, iop in self._index_operations.items():
             iop.shift_left(start, param.size)
 
-        self._connect_parameters()
+        if self._model_initialized_:
+            self._connect_parameters()
         self._notify_parent_change()
 
         parent = self._parent_
         while parent is not None:
             parent.size -= param.size
             parent = parent._parent_
-
-        self._highest_parent_._connect_parameters()
-        self._highest_parent_._connect_fixes()
+        # sizes and offsets change in the whole hierarchy, not only below self
         self._highest_parent_._notify_parent_change()
-        self._highest_parent_._invalidate_optimizer_array()
+
+        if self._model_initialized_:
+            top = self._highest_initialized()
+            top._connect_parameters()
+            top._connect_fixes()
+            top._notify_parent_change()
+            top._invalidate_optimizer_array()
+
+    def _highest_initialized(self):
+        """
+        The highest initialized object above this (initialized) one. Objects,
+        which are not initialized yet, get connected when they are initialized.
+        """
+        top = self
+        while top._parent_ is not None and top._parent_._model_initialized_:
+            top = top._parent_
+        return top
 
     def _connect_parameters(self, ignore_added_names=False):
         # connect parameterlist to this parameterized object
-- 
2.43.0


From 34be5fa69cf8e058ec2e44f7cbda45bd6b8c9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 52/65] fix: initializing a model initializes objects below it,
 which are not initialized yet, completely

---
 paramz/parameterized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 2aab5de..d670d11 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -294,6 +294,9 @@ All parameter arrays must be C_CONTIGUOUS
             p._parent_ = self
             p._parent_index_ = i
 
+            if not getattr(p, '_model_initialized_', True):
+                p._connect_parameters() # initialized together with self, adds the names
+
             pslice = slice(old_size, old_size + p.size)
 
             # first connect all children, which bring in their values
-- 
2.43.0


From c934bae3d07c5de3040a3cc1e35181c729f094f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 53/65] fix: keep the positions up to date when unlinking from
 an object which is not initialized

---
 paramz/parameterized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index d670d11..4b14c98 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -221,6 +221,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         start = sum([p.size for p in self.parameters[:param._parent_index_]])
         self.size -= param.size
         del self.parameters[param._parent_index_]
+        for p in self.parameters[param._parent_index_:]:
+            p._parent_index_ -= 1
         self._remove_parameter_name(param)
         if len(self.parameters) < 1:
             # the memory stays with the removed parameter, do not use it for the next one
-- 
2.43.0


From 9106b3ceb9ef44d66b6f73e1bb5fb88eaa63e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 54/65] fix: constraining an object which is not initialized
 brings its values into the domain

---
 paramz/core/constrainable.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 6a691d5..4b267bb 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -150,8 +150,12 @@ class Constrainable(Indexable):
         :py:class:`paramz.transformations.Transformation`.
         """
         if isinstance(transform, Transformation):
-            self.param_array[...] = transform.initialize(self.param_array)
-            self._write_through()
+            if getattr(self, '_model_initialized_', True):
+                self.param_array[...] = transform.initialize(self.param_array)
+                self._write_through()
+            else: # the values are in the parameters below only
+                for p in self.flattened_parameters:
+                    p.param_array[...] = transform.initialize(p.param_array)
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
         else:
-- 
2.43.0


From 4b0a8cb9d81314eeecee3d91bba77268661d81b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 55/65] fix: initializing from inside a model updates the whole
 model

---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 4ca32ac..ddcbd2f 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -344,7 +344,7 @@ class Parameterizable(OptimizationHandlable):
         self._highest_parent_._notify_parent_change()
         self._highest_parent_._connect_parameters() #logger.debug("calling parameters changed")
         self._highest_parent_._connect_fixes()
-        self.trigger_update()
+        self._highest_parent_.trigger_update() # everything got initialized
 
     @property
     def param_array(self):
-- 
2.43.0


From 9a7483f7269f8f3db350ceff1dae4a4651787b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 56/65] fix: an objective which fails while messages are shown
 does not fail the evaluation after it

---
 paramz/optimization/verbose_optimization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 87f3a7c..e9841cb 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -195,7 +195,12 @@ class VerboseOptimization(object):
         self.iteration += 1
 
     def update(self):
-        self.fnow = self.model.objective_function()
+        try:
+            self.fnow = self.model.objective_function()
+        except Exception:
+            # failing is left to the optimization itself, which
+            # evaluates the objective as well and knows how to handle it
+            self.fnow = np.nan
         if self.model.obj_grads is not None:
             grad = self.model.obj_grads
             self.current_gradient = np.dot(grad, grad)
-- 
2.43.0


From 1cf328939bd52dcaf3644696e8dc63736820ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 57/65] fix: messages do not use up random numbers of the
 global generator

---
 paramz/optimization/verbose_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index e9841cb..a45e9c3 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -30,6 +30,7 @@
 
 from __future__ import print_function
 import numpy as np
+import random
 import sys
 import time
 
@@ -47,6 +48,7 @@ class VerboseOptimization(object):
             self.model = model
             self.iteration = current_iteration
             self.p_iter = self.iteration
+            self.random = random.Random(0)  # not to disturb the draws of the model
             self.maxiters = maxiters
             self.len_maxiters = len(str(int(maxiters)))
             self.opt_name = opt.opt_name
@@ -169,7 +171,7 @@ class VerboseOptimization(object):
             self.model_show.value = self.model._repr_html_()
         else:
             n_exps = exponents(self.fnow, self.current_gradient)
-            if self.iteration - self.p_iter >= 20 * np.random.rand():
+            if self.iteration - self.p_iter >= 20 * self.random.random():
                 a = self.iteration >= self.p_iter * 2.78
                 b = np.any(n_exps < self.exps)
                 if a or b:
-- 
2.43.0


From 44abc3d097419c8e98f91376ac9e73f6dd7ae678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 58/65] fix: printing a hierarchy with an empty parameter

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 5b20637..5904edb 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -227,7 +227,7 @@ class Param(Parameterizable, ObsAr):
     #===========================================================================
     @property
     def _description_str(self):
-        if self.size <= 1:
+        if self.size == 1:
             return [str(self.view(np.ndarray)[0])]
         else: return [str(self.shape)]
     def parameter_names(self, add_self=False, adjust_for_printing=False, recursive=True, **kw):
-- 
2.43.0


From e322bfbf3e6dbe47667a826b49fecb2c3da0602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 59/65] fix: an indexed parameter follows the update setting of
 its parameter

m.update_model(False); s = m.a[1:]; m.update_model(True); s[:] = 3. did not
update the model (and the other way around), because the part kept the
setting from when it was taken; m.a[1:].randomize() left updates off.
---
 paramz/param.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 5904edb..5ce1ba4 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -112,7 +112,6 @@ class Param(Parameterizable, ObsAr):
         self._original_ = getattr(obj, '_original_', None)
         self._name = getattr(obj, '_name', None)
         self._gradient_array_ = getattr(obj, '_gradient_array_', None)
-        self._update_on = getattr(obj, '_update_on', None)
         try:
             self._index_operations = obj._index_operations
         except AttributeError:
@@ -121,6 +120,16 @@ class Param(Parameterizable, ObsAr):
         #self.constraints = getattr(obj, 'constraints', None)
         #self.priors = getattr(obj, 'priors', None)
 
+    @property
+    def _update_on(self):
+        # an indexed parameter has the setting of the parameter it belongs to
+        original = getattr(self, '_original_', None)
+        return vars(self if original is None else original).get('_update_on', None)
+    @_update_on.setter
+    def _update_on(self, on):
+        original = getattr(self, '_original_', None)
+        vars(self if original is None else original)['_update_on'] = on
+
     @property
     def param_array(self):
         """
-- 
2.43.0


From b71839408adae5f846300db53e29e17c7256470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 60/65] fix: indexed parameters without a parent can be visited

p[1:].randomize() and p[1:].update_model(False) raised AttributeError for a
parameter that is not linked.
---
 paramz/core/parameter_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index ddcbd2f..0b5c4d6 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -322,6 +322,8 @@ class Parameterizable(OptimizationHandlable):
     Use paramz.Parameterized() as node (or leaf) in the parameterized hierarchy.
     Use paramz.Param() for a leaf in the parameterized hierarchy.
     """
+    __visited = False # indexed parameters are not initialized
+
     def __init__(self, *args, **kwargs):
         super(Parameterizable, self).__init__(*args, **kwargs)
         from .lists_and_dicts import ArrayList
-- 
2.43.0


From fefe005f667071aaecc7ba48af7a8d2017c145a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:12 +0000
Subject: [PATCH 61/65] fix: in-place arithmetic leaves a variable the
 observable array

p = m.a; p += 1. made p a plain array, so that a second p += 1. changed the
model without updating it.
---
 paramz/core/observable_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/core/observable_array.py b/paramz/core/observable_array.py
index 06f8ee4..3ad3322 100644
--- a/paramz/core/observable_array.py
+++ b/paramz/core/observable_array.py
@@ -75,6 +75,8 @@ class ObsAr(np.ndarray, Pickleable, Observable):
     def __array_wrap__(self, out_arr, context=None):
         #np.ndarray.__array_wrap__(self, out_arr, context)
         #return out_arr
+        if out_arr is self: # in-place arithmetic changes this array
+            return self
         return out_arr.view(np.ndarray)
 
     def _setup_observers(self):
-- 
2.43.0


From 437db3423da155f769f0e6af57b23e303d5c44df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:00 +0000
Subject: [PATCH 62/65] fix: the optimizer vector is not the internal copy

---
 paramz/core/parameter_core.py | 2 +-
 paramz/parameterized.py       | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 0b5c4d6..c9ea6db 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -90,7 +90,7 @@ class OptimizationHandlable(Constrainable):
 
         if self._has_fixes():# or self._has_ties()):
             return self._optimizer_copy_[self._free()]
-        return self._optimizer_copy_
+        return self._optimizer_copy_.copy()
 
     @optimizer_array.setter
     def optimizer_array(self, p):
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 4b14c98..a334cfd 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -397,7 +397,6 @@ If you are loading a model, set updates off, then initialize, then set the value
     def copy(self, memo=None):
         if memo is None:
             memo = {}
-        memo[id(self.optimizer_array)] = None # and param_array
         memo[id(self.param_array)] = None # and param_array
         copy = super(Parameterized, self).copy(memo)
         copy._connect_parameters()
-- 
2.43.0


From ce8e8d4a2d6ce1a09f7b35561ddd3cd4ee591a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 63/65] fix: writing the optimizer vector of an uninitialized
 model is refused

---
 paramz/core/parameter_core.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index c9ea6db..150fd2c 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -100,6 +100,8 @@ class OptimizationHandlable(Constrainable):
 
         Also we want to update param_array in here.
         """
+        if not getattr(self, '_model_initialized_', True):
+            raise AttributeError("Model is not initialized, the values would be lost on initialization")
         f = None
         if self._has_fixes():
             f = self._free()
@@ -250,13 +252,15 @@ class OptimizationHandlable(Constrainable):
         x = rand_gen(size=self._size_transformed(), *args, **kwargs)
         updates = self.update_model()
         self.update_model(False) # Switch off the updates
-        self.optimizer_array = x  # makes sure all of the tied parameters get the same init (since there's only one prior object...)
-        # now draw from prior where possible
-        x = self.param_array.copy()
-        unfixlist = np.ones((self.size,),dtype=bool)
-        unfixlist[self.constraints[__fixed__]] = False
-        self.param_array.flat[unfixlist] = x.view(np.ndarray).ravel()[unfixlist]
-        self.update_model(updates)
+        try:
+            self.optimizer_array = x  # makes sure all of the tied parameters get the same init (since there's only one prior object...)
+            # now draw from prior where possible
+            x = self.param_array.copy()
+            unfixlist = np.ones((self.size,),dtype=bool)
+            unfixlist[self.constraints[__fixed__]] = False
+            self.param_array.flat[unfixlist] = x.view(np.ndarray).ravel()[unfixlist]
+        finally:
+            self.update_model(updates)
 
     #===========================================================================
     # For shared memory arrays. This does nothing in Param, but sets the memory
-- 
2.43.0


From f9383ed2f4099b0c3e1e6644a42bec41ad1b77ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:00 +0000
Subject: [PATCH 64/65] fix: the array of unfixed parameters of a leaf

---
 paramz/core/parameter_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 150fd2c..25882e7 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -377,9 +377,9 @@ class Parameterizable(OptimizationHandlable):
         if self.constraints[__fixed__].size !=0:
             fixes = np.ones(self.size).astype(bool)
             fixes[self.constraints[__fixed__]] = FIXED
-            return self._param_array_[fixes]
+            return self.param_array.view(np.ndarray).flat[fixes]
         else:
-            return self._param_array_
+            return self.param_array
 
     def traverse(self, visit, *args, **kwargs):
         """
-- 
2.43.0


From 051b8fdabb041267c96cd5f1801f2127ff0b7127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:51 +0000
Subject: [PATCH 65/65] fix: setting a value of a node by an integer index
 raised TypeError

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index a334cfd..3ac6ebb 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -360,7 +360,7 @@ If you are loading a model, set updates off, then initialize, then set the value
 """)
         if value is None:
             return # nothing to do here
-        if isinstance(name, (slice, tuple, np.ndarray)):
+        if isinstance(name, (int, slice, tuple, np.ndarray)):
             try:
                 self.param_array[name] = value
             except:
-- 
2.43.0

