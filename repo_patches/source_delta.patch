From 51ca6df48431ba809f20591e293ded42c7ac0490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 01/72] fix: build the concatenated index from a list, numpy
 refuses to stack a generator

---
 paramz/core/indexable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index b648422..c39dfd7 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -158,7 +158,7 @@ class Indexable(Nameable, Updateable):
         """
         from ..param import ParamConcatenation
         if isinstance(param, ParamConcatenation):
-            return np.hstack((self._raveled_index_for(p) for p in param.params))
+            return np.hstack([self._raveled_index_for(p) for p in param.params])
         return param._raveled_index() + self._offset_for(param)
 
     def _raveled_index_for_transformed(self, param):
-- 
2.43.0


From 8eec00da75d976e64ad348edef589ca3193f441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 02/72] fix: make the inverse, gradient factor and log jacobian
 of NegativeExponent belong to its f

---
 paramz/transformations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index f0159e1..e9ebe4d 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -160,11 +160,13 @@ class NegativeExponent(Exponent):
     def f(self, x):
         return -Exponent.f(self, x)
     def finv(self, f):
-        return -Exponent.finv(self, -f)
+        return Exponent.finv(self, -f)
     def gradfactor(self, f, df):
-        return -Exponent.gradfactor(self, f, df)
+        return Exponent.gradfactor(self, f, df) # df(x)_dx = -exp(x) = f(x)
     def initialize(self, f):
         return -Exponent.initialize(self, f) #np.abs(f)
+    def log_jacobian(self, model_param):
+        return Exponent.log_jacobian(self, -model_param)
     def __str__(self):
         return '-ve'
 
-- 
2.43.0


From bdc8eb9a947641ee70ff7d3155605221241592e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 03/72] fix: unpickle a Logistic to the one instance with its
 bounds

---
 paramz/transformations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index e9ebe4d..d77f2c9 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -199,6 +199,9 @@ class Logistic(Transformation):
             o = newfunc(cls, lower, upper, *args, **kwargs)
         cls._instances.append(weakref.ref(o))
         return cls._instances[-1]()
+    def __reduce__(self):
+        # go through __new__ with the bounds, so that copies and pickles stay unique per (lower, upper)
+        return self.__class__, (self.lower, self.upper)
     def __init__(self, lower, upper):
         assert lower < upper
         self.lower, self.upper = float(lower), float(upper)
-- 
2.43.0


From aa2664b7237cd17e9123bb1e1d257535e747eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 04/72] fix: refuse names ending in a newline instead of
 passing them on as variable names

---
 paramz/core/nameable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index 43e4f74..da9dca2 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -41,7 +41,7 @@ def adjust_name_for_printing(name):
         name = name.replace("**", "_xx_").replace("*", "_x_")
         name = name.replace("/", "_l_").replace("@", '_at_')
         name = name.replace("(", "_of_").replace(")", "")
-        if re.match(r'^[a-zA-Z_][a-zA-Z0-9-_]*$', name) is None:
+        if re.match(r'^[a-zA-Z_][a-zA-Z0-9_]*\Z', name) is None:
             raise NameError("name {} converted to {} cannot be further converted to valid python variable name!".format(name2, name))
         return name
     return ''
-- 
2.43.0


From 8137c7e8d0d6aa6e18d9748e9cfb702f41f3cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 05/72] fix: pass adjust_for_printing on to the parents' part
 of a hierarchy name

---
 paramz/core/nameable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index da9dca2..fa2eba1 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -84,5 +84,5 @@ class Nameable(Gradcheckable):
         if adjust_for_printing: adjust = lambda x: adjust_name_for_printing(x)
         else: adjust = lambda x: x
         if self.has_parent():
-            return self._parent_.hierarchy_name() + "." + adjust(self.name)
+            return self._parent_.hierarchy_name(adjust_for_printing) + "." + adjust(self.name)
         return adjust(self.name)
-- 
2.43.0


From 8ab9e069636c535adbb8239218b76d1a78bcf087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 06/72] fix: return a list from parameter_names(add_self=True)

---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 10a141a..b460783 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -195,7 +195,7 @@ class OptimizationHandlable(Constrainable):
                                    adjust_for_printing=adjust_for_printing,
                                    recursive=True,
                                    intermediate=False)])
-        if add_self: names = map(lambda x: adjust(self.name) + "." + x, names)
+        if add_self: names = [adjust(self.name) + "." + x for x in names]
         return names
 
     def parameter_names_flat(self, include_fixed=False):
-- 
2.43.0


From e71dfd73074596cf9d61ff7b0029db038bdcdb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 07/72] fix: keep selected zeros when indexing a
 ParamConcatenation

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index c4322ac..1a9b28c 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -429,7 +429,7 @@ class ParamConcatenation(object):
     #===========================================================================
     def __getitem__(self, s):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(p.param_array.flat[ind[ps]])]
+        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
         if len(params)==1: return params[0]
         return ParamConcatenation(params)
 
-- 
2.43.0


From d9c4c50efec86d76ce3520641a1da8a7dd2a13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 08/72] fix: write the right values when setting part of a
 ParamConcatenation

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 1a9b28c..1d955e2 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -439,7 +439,7 @@ class ParamConcatenation(object):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
         vals = self.values(); vals[s] = val
         for p, ps in zip(self.params, self._param_slices_):
-            p.flat[ind[ps]] = vals[ps]
+            p.flat[ind[ps]] = vals[ps][ind[ps]]
         self.update_all_params()
 
     def values(self):
-- 
2.43.0


From aeea3cf2d4ddc271bff0ca32e60a8192e8c36bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 09/72] fix: keep the parents of a ParamConcatenation in a
 list, a map only updates them once

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 1d955e2..c23cf5a 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -423,7 +423,7 @@ class ParamConcatenation(object):
         import operator
         #py3 fix
         #self.parents = map(lambda x: x[0], sorted(parents.iteritems(), key=operator.itemgetter(1)))
-        self.parents = map(lambda x: x[0], sorted(parents.items(), key=operator.itemgetter(1)))
+        self.parents = [x[0] for x in sorted(parents.items(), key=operator.itemgetter(1))]
     #===========================================================================
     # Get/set items, enable broadcasting
     #===========================================================================
-- 
2.43.0


From 7336810912405b5bf85c2e0c1a6535f2dca73edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 10/72] fix: return the ParamConcatenation from its in-place
 operators

---
 paramz/param.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/paramz/param.py b/paramz/param.py
index c23cf5a..bf588b1 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -546,39 +546,52 @@ class ParamConcatenation(object):
 
     def __ilshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ilshift__(self.values(), *args, **kwargs)
+        return self
 
     def __irshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__irshift__(self.values(), *args, **kwargs)
+        return self
 
     def __ixor__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ixor__(self.values(), *args, **kwargs)
+        return self
 
     def __ipow__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ipow__(self.values(), *args, **kwargs)
+        return self
 
     def __ifloordiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ifloordiv__(self.values(), *args, **kwargs)
+        return self
 
     def __isub__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__isub__(self.values(), *args, **kwargs)
+        return self
 
     def __ior__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ior__(self.values(), *args, **kwargs)
+        return self
 
     def __itruediv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__itruediv__(self.values(), *args, **kwargs)
+        return self
 
     def __idiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__idiv__(self.values(), *args, **kwargs)
+        return self
 
     def __iand__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iand__(self.values(), *args, **kwargs)
+        return self
 
     def __imod__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imod__(self.values(), *args, **kwargs)
+        return self
 
     def __iadd__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iadd__(self.values(), *args, **kwargs)
+        return self
 
     def __imul__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imul__(self.values(), *args, **kwargs)
+        return self
-- 
2.43.0


From 7226cd16497398fa0e55bcd81f60c8a1ab18eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 11/72] fix: constrain and fix the values of the parameter
 itself when it is indexed by a mask or a list

---
 paramz/core/constrainable.py | 6 ++++++
 paramz/param.py              | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index f571700..6a1748b 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -60,6 +60,7 @@ class Constrainable(Indexable):
         """
         if value is not None:
             self[:] = value
+            self._write_back()
 
         #index = self.unconstrain()
         index = self._add_to_index_operations(self.constraints, np.empty(0), __fixed__, warning)
@@ -131,6 +132,10 @@ class Constrainable(Indexable):
         # the copy here
         return self.parameters[param._parent_index_]
 
+    def _write_back(self):
+        # only a copy, made by advanced indexing, has values to write back
+        pass
+
         #===========================================================================
     # Constrain operations -> done
     #===========================================================================
@@ -146,6 +151,7 @@ class Constrainable(Indexable):
         """
         if isinstance(transform, Transformation):
             self.param_array[...] = transform.initialize(self.param_array)
+            self._write_back()
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
         else:
diff --git a/paramz/param.py b/paramz/param.py
index bf588b1..f76cbfa 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -195,6 +195,11 @@ class Param(Parameterizable, ObsAr):
     def _get_original(self, param):
         return self._original_
 
+    def _write_back(self):
+        # advanced indexing gives a copy of the values, hand them to the original
+        if not np.may_share_memory(self, self._original_):
+            self._original_[self._current_slice_] = self.values
+
     #===========================================================================
     # Pickling and copying
     #===========================================================================
-- 
2.43.0


From b804dc58a3b247f95f7edaa3c60cb8fc92f1a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 12/72] fix: derive the mask of free parameters from the
 constraints whenever it is used

---
 paramz/core/constrainable.py  | 7 +++----
 paramz/core/indexable.py      | 1 +
 paramz/core/parameter_core.py | 6 +++++-
 paramz/param.py               | 4 +++-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 6a1748b..2c0360e 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -84,12 +84,11 @@ class Constrainable(Indexable):
     unfix = unconstrain_fixed
 
     def _ensure_fixes(self):
-        # Ensure that the fixes array is set:
+        # Ensure that the fixes array is set and reflects the constraints:
         # Parameterized: ones(self.size)
         # Param: ones(self._realsize_
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self.size):
-            self._fixes_ = np.ones(self.size, dtype=bool)
-            self._fixes_[self.constraints[__fixed__]] = FIXED
+        self._fixes_ = np.ones(self.size, dtype=bool)
+        self._fixes_[self.constraints[__fixed__]] = FIXED
 
 
     def _set_fixed(self, param, index):
diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index c39dfd7..ca65d66 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -176,6 +176,7 @@ class Indexable(Nameable, Updateable):
         """
         ravi = self._raveled_index_for(param)
         if self._has_fixes():
+            self._ensure_fixes()
             fixes = self._fixes_
             ### Transformed indices, handling the offsets of previous fixes
             transformed = (np.r_[:self.size] - (~fixes).cumsum())
diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index b460783..4dec12e 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -105,6 +105,7 @@ class OptimizationHandlable(Constrainable):
             f = np.ones(self.size).astype(bool)
             f[self.constraints[__fixed__]] = FIXED
         elif self._has_fixes():
+            self._ensure_fixes()
             f = self._fixes_
         if f is None:
             self.param_array.flat = p
@@ -148,7 +149,9 @@ class OptimizationHandlable(Constrainable):
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-        if self._has_fixes(): return g[self._fixes_]
+        if self._has_fixes():
+            self._ensure_fixes()
+            return g[self._fixes_]
         return g
 
     #def _transform_gradients_non_natural(self, g):
@@ -219,6 +222,7 @@ class OptimizationHandlable(Constrainable):
         name_list = np.array(name_list)
 
         if not include_fixed and self._has_fixes():
+            self._ensure_fixes()
             return name_list[self._fixes_]
         return name_list
 
diff --git a/paramz/param.py b/paramz/param.py
index f76cbfa..524a9d4 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -182,7 +182,9 @@ class Param(Parameterizable, ObsAr):
     # Constrainable
     #===========================================================================
     def _ensure_fixes(self):
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self._realsize_): self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        from paramz.transformations import __fixed__, FIXED
+        self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        self._fixes_[self.constraints[__fixed__]] = FIXED
 
     #===========================================================================
     # Convenience
-- 
2.43.0


From 00fa828dfc40b87627c663bee6c3ff510429653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 13/72] fix: index the flat parameter in the optimizer array of
 a multidimensional Param

---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 4dec12e..3d188a6 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -84,7 +84,7 @@ class OptimizationHandlable(Constrainable):
             self._optimizer_copy_.flat = self.param_array.flat
             #py3 fix
             #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
-            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.items() if c != __fixed__]
+            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
             self._optimizer_copy_transformed = True
 
         if self._has_fixes():# or self._has_ties()):
-- 
2.43.0


From ed4f425c246bc1158d327fc6b64085f66c4092a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 14/72] fix: never hand out an outdated optimizer array

---
 paramz/core/parameter_core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 3d188a6..dcd439f 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -80,12 +80,12 @@ class OptimizationHandlable(Constrainable):
         if self.__dict__.get('_optimizer_copy_', None) is None or self.size != self._optimizer_copy_.size:
             self._optimizer_copy_ = np.empty(self.size)
 
-        if not self._optimizer_copy_transformed:
-            self._optimizer_copy_.flat = self.param_array.flat
-            #py3 fix
-            #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
-            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
-            self._optimizer_copy_transformed = True
+        # always start from the current values and constraints, not all changes to them notify this handle
+        self._optimizer_copy_.flat = self.param_array.flat
+        #py3 fix
+        #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
+        [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
+        self._optimizer_copy_transformed = True
 
         if self._has_fixes():# or self._has_ties()):
             self._ensure_fixes()
-- 
2.43.0


From acbf7980a926dae2098c66f2f0f5e5eaeb72adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 15/72] fix: update fixed parameters, too, after their values
 may have been changed

---
 paramz/core/parameter_core.py | 7 ++++---
 paramz/core/updateable.py     | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index dcd439f..0983816 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -122,16 +122,17 @@ class OptimizationHandlable(Constrainable):
         #self._highest_parent_.tie.propagate_val()
 
         self._optimizer_copy_transformed = False
-        self.trigger_update()
+        self.trigger_update(skip_fixed=True)
 
-    def _trigger_params_changed(self, trigger_parent=True):
+    def _trigger_params_changed(self, trigger_parent=True, skip_fixed=False):
         """
         First tell all children to update,
         then update yourself.
 
         If trigger_parent is True, we will tell the parent, otherwise not.
+        If skip_fixed is True, fixed children do not need to update.
         """
-        [p._trigger_params_changed(trigger_parent=False) for p in self.parameters if not p.is_fixed]
+        [p._trigger_params_changed(trigger_parent=False, skip_fixed=skip_fixed) for p in self.parameters if not (skip_fixed and p.is_fixed)]
         self.notify_observers(None, None if trigger_parent else -np.inf)
 
     def _size_transformed(self):
diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index 9a47f65..ac970b7 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -65,15 +65,16 @@ class Updateable(Observable):
     def update_toggle(self):
         self.update_model(not self.update_model())
 
-    def trigger_update(self, trigger_parent=True):
+    def trigger_update(self, trigger_parent=True, skip_fixed=False):
         """
         Update the model from the current state.
         Make sure that updates are on, otherwise this
         method will do nothing
 
         :param bool trigger_parent: Whether to trigger the parent, after self has updated
+        :param bool skip_fixed: Whether to leave out children which are fixed (their values must not have changed)
         """
         if not self.update_model() or (hasattr(self, "_in_init_") and self._in_init_):
             #print "Warning: updates are off, updating the model will do nothing"
             return
-        self._trigger_params_changed(trigger_parent)
+        self._trigger_params_changed(trigger_parent, skip_fixed)
-- 
2.43.0


From c8be51dcd5a085080b9b306318a513e53888a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 16/72] fix: let an index select no elements of a Param

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 524a9d4..62f823f 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -173,7 +173,7 @@ class Param(Parameterizable, ObsAr):
         extended_realshape = np.cumprod((1,) + self._realshape_[:0:-1])[::-1]
         ind = self._indices(slice_index)
         if ind.ndim < 2: ind = ind[:, None]
-        return np.asarray(np.apply_along_axis(lambda x: np.sum(extended_realshape * x), 1, ind), dtype=int)
+        return np.asarray(np.sum(extended_realshape * ind, axis=1), dtype=int)
 
     def _raveled_index_for(self, obj):
         return self._raveled_index()
-- 
2.43.0


From e3ba9a34b9c2515e29fc9a9eef93d9aa43dfb3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 17/72] fix: find the selected elements of a Param when
 advanced indices are separated by a slice

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 62f823f..9dac82b 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -259,7 +259,7 @@ class Param(Parameterizable, ObsAr):
             slice_index = self._current_slice_
         #try:
         indices = np.indices(self._realshape_, dtype=int)
-        indices = indices[(slice(None),)+slice_index]
+        indices = np.array([i[slice_index] for i in indices], dtype=int)
         indices = np.rollaxis(indices, 0, indices.ndim).reshape(-1,self._realndim_)
             #print indices_
             #if not np.all(indices==indices__):
-- 
2.43.0


From b4639ec08954e2eca5df42d3cf1037cb0c615cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 18/72] fix: leave the hierarchy traversable when a visit
 raises

---
 paramz/core/parameter_core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 0983816..9d2b71a 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -389,8 +389,10 @@ class Parameterizable(OptimizationHandlable):
         if not self.__visited:
             visit(self, *args, **kwargs)
             self.__visited = True
-            self._traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     def _traverse(self, visit, *args, **kwargs):
         for c in self.parameters:
@@ -410,9 +412,11 @@ class Parameterizable(OptimizationHandlable):
         """
         if self.has_parent():
             self.__visited = True
-            self._parent_.traverse_parents(visit, *args, **kwargs)
-            self._parent_.traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._parent_.traverse_parents(visit, *args, **kwargs)
+                self._parent_.traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     #===========================================================================
     # Caching
-- 
2.43.0


From 3f96e1f8cb449bf5a9310f45f62ea51ef273e706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 19/72] fix: set single parameters by their integer index, as
 they can be read

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 64ab493..05572db 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -319,7 +319,7 @@ If you are loading a model, set updates off, then initialize, then set the value
 """)
         if value is None:
             return # nothing to do here
-        if isinstance(name, (slice, tuple, np.ndarray)):
+        if isinstance(name, (int, slice, tuple, np.ndarray)):
             try:
                 self.param_array[name] = value
             except:
-- 
2.43.0


From 92ce49a3c9d74a8ecace439d5a2c71436ee5a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 20/72] fix: notify the observers of an array after an in-place
 matrix multiplication

---
 paramz/core/observable_array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/core/observable_array.py b/paramz/core/observable_array.py
index 06f8ee4..df05892 100644
--- a/paramz/core/observable_array.py
+++ b/paramz/core/observable_array.py
@@ -195,6 +195,12 @@ class ObsAr(np.ndarray, Pickleable, Observable):
         return r
 
 
+    def __imatmul__(self, *args, **kwargs): #pragma: no cover
+        r = np.ndarray.__imatmul__(self, *args, **kwargs)
+        self.notify_observers()
+        return r
+
+
     def __imul__(self, *args, **kwargs): #pragma: no cover
         r = np.ndarray.__imul__(self, *args, **kwargs)
         self.notify_observers()
-- 
2.43.0


From 67fb1e819cb88ac6555c41caf178e90700a338b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 21/72] fix: recompute cached results when an array changes
 through one of its views

---
 paramz/caching.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 75dd48b..4f55dd6 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -110,8 +110,10 @@ class Cacher(object):
                 if tmp is not None:
                     ref, cache_ids = tmp
                     if len(cache_ids) == 1 and ref() is not None:
-                        ref().remove_observer(self, self.on_cache_changed)
                         del self.cached_input_ids[ind_id]
+                        # other cached views on the same array share its observers and still need us
+                        if not any(r() is not None and r().observers is ref().observers for r, _ in self.cached_input_ids.values()):
+                            ref().remove_observer(self, self.on_cache_changed)
                     else:
                         cache_ids.remove(cache_id)
                         self.cached_input_ids[ind_id] = [ref, cache_ids]
@@ -197,11 +199,14 @@ class Cacher(object):
 
         this function gets 'hooked up' to the inputs when we cache them, and upon their elements being changed we update here.
         """
-        for what in [direct, which]:
-            ind_id = self.id(what)
-            _, cache_ids = self.cached_input_ids.get(ind_id, [None, []])
-            for cache_id in cache_ids:
-                self.inputs_changed[cache_id] = True
+        changed = [direct, which]
+        # an array and its views share their observers (and memory), changing one changes all of them
+        changed_observers = [what.observers for what in changed if isinstance(what, Observable)]
+        for ref, cache_ids in self.cached_input_ids.values():
+            a = ref()
+            if any(a is what for what in changed) or any(a is not None and a.observers is o for o in changed_observers):
+                for cache_id in cache_ids:
+                    self.inputs_changed[cache_id] = True
 
     def reset(self):
         """
-- 
2.43.0


From 276fc5946d622d2ffde755f28bf9bd9a02711b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 22/72] fix: tell cached calls apart by the names of their
 keyword arguments

---
 paramz/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 4f55dd6..7692550 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -166,7 +166,8 @@ class Cacher(object):
 
         # 2: prepare_cache_id and get the unique self.id string for this call
         inputs = self.combine_inputs(args, kw, self.ignore_args)
-        cache_id = self.prepare_cache_id(inputs)
+        # the names of the keywords tell calls apart which give the same object to different keywords
+        cache_id = self.prepare_cache_id(inputs) + "".join("," + k for k in sorted(kw))
         # 2: if anything is not cachable, we will just return the operation, without caching
         if reduce(lambda a, b: a or (not (isinstance(b, Observable) or b is None or isinstance(b, Number) or isinstance(b, str))), inputs, False):
 #             print 'WARNING: '+self.operation.__name__ + ' not cacheable!'
-- 
2.43.0


From af2a2959078b16a5374b0795c1aa4cdcb8b7fb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 23/72] fix: update the whole model when updates are switched
 on from one of its parts

---
 paramz/core/updateable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index ac970b7..039bf31 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -57,7 +57,7 @@ class Updateable(Observable):
         def turn_updates(s):
             s._update_on = updates
         p.traverse(turn_updates)
-        self.trigger_update()
+        p.trigger_update()
 
     def toggle_update(self):
         print("deprecated: toggle_update was renamed to update_toggle for easier access")
-- 
2.43.0


From 7596fe1a9775f41b36a8da73510e125e17632e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 24/72] fix: stop scaled conjugate gradients at once when
 started at a stationary point

---
 paramz/optimization/scg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/optimization/scg.py b/paramz/optimization/scg.py
index be8de76..9c619f7 100644
--- a/paramz/optimization/scg.py
+++ b/paramz/optimization/scg.py
@@ -82,6 +82,10 @@ def SCG(f, gradf, x, optargs=(), maxiters=500, max_f_eval=np.inf, xtol=None, fto
 
     flog = [fold]
 
+    if current_grad == 0:
+        # there is no direction to search in: we are at a stationary point already
+        return x, flog, function_eval, 'converged - relative reduction in gradient'
+
     iteration = 0
 
     # Main optimization loop.
-- 
2.43.0


From ee74296ea637476777bafe94f0b1bccb063f7d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 25/72] fix: recompute a decorated cached function whenever a
 forcing keyword is given

---
 paramz/caching.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/paramz/caching.py b/paramz/caching.py
index 7692550..53d3510 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -277,8 +277,16 @@ class Cache_this(object):
         self.f = None
     def __call__(self, f):
         self.f = f
+        # the decorated function hands us its named arguments by position (with defaults filled in),
+        # so find out where the forcing ones are
+        names = f.__code__.co_varnames[:f.__code__.co_argcount]
+        defaults = dict(zip(names[::-1], (f.__defaults__ or ())[::-1]))
+        force_at = [(i, defaults.get(name)) for i, name in enumerate(names) if name in self.force_kwargs]
         def g(obj, *args, **kw):
             obj = args[0]
+            for i, default in force_at:
+                if i < len(args) and args[i] is not None and args[i] is not default:
+                    return self.f(*args, **kw)
             if not hasattr(obj, 'cache'):
                 obj.cache = FunctionCache()
             cache = obj.cache
-- 
2.43.0


From 20e136ce9bd777095fed691c25fbc8a32da62299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 26/72] fix: remove observers by identity, not by comparing
 them

---
 paramz/core/lists_and_dicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/lists_and_dicts.py b/paramz/core/lists_and_dicts.py
index 472b0a2..f4b7785 100644
--- a/paramz/core/lists_and_dicts.py
+++ b/paramz/core/lists_and_dicts.py
@@ -82,7 +82,7 @@ class ObserverList(object):
         self.flush()
         for i in range(len(self) - 1, -1, -1):
             p,o,c = self[i]
-            if priority==p and observer==o and callble==c:
+            if priority==p and observer is o and callble==c:
                 del self._poc[i]
 
     def __repr__(self):
-- 
2.43.0


From ce8dc8b94cd8e9e395054f4dceb4ffd0eca8f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 27/72] fix: give the unfixed values of parameters and of nodes
 not accessed before

---
 paramz/core/parameter_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 9d2b71a..31cbd30 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -366,9 +366,9 @@ class Parameterizable(OptimizationHandlable):
         if self.constraints[__fixed__].size !=0:
             fixes = np.ones(self.size).astype(bool)
             fixes[self.constraints[__fixed__]] = FIXED
-            return self._param_array_[fixes]
+            return self.param_array.flat[fixes]
         else:
-            return self._param_array_
+            return self.param_array
 
     def traverse(self, visit, *args, **kwargs):
         """
-- 
2.43.0


From ba69ecd9e58475ea32fd66e973f80f8465744efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 28/72] fix: link parameters at an index beyond the end, as
 list.insert does

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 05572db..190c5af 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -161,7 +161,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                     iop.shift_right(start, param.size)
                     iop.update(param._index_operations[name], start)
                 param._parent_ = self
-                param._parent_index_ = index if index>=0 else len(self.parameters[:index])
+                param._parent_index_ = len(self.parameters[:index]) # as for list.insert, index can lie beyond the ends
                 for p in self.parameters[index:]:
                     p._parent_index_ += 1
                 self.parameters.insert(index, param)
-- 
2.43.0


From fbf386b7a9b8749c95bcb1fa59135742b1f914c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 29/72] fix: keep values when linking more than two levels
 below the root

---
 paramz/core/parameter_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 31cbd30..64e975b 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -289,13 +289,15 @@ class OptimizationHandlable(Constrainable):
         for pi in self.parameters:
             pislice = slice(pi_old_size, pi_old_size + pi.size)
 
+            # collect the values from below first, pi itself can have changed its size
+            pi._propagate_param_grad(parray[pislice], garray[pislice])
+
             self.param_array[pislice] = pi.param_array.flat  # , requirements=['C', 'W']).flat
             self.gradient_full[pislice] = pi.gradient_full.flat  # , requirements=['C', 'W']).flat
 
             pi.param_array.data = parray[pislice].data
             pi.gradient_full.data = garray[pislice].data
 
-            pi._propagate_param_grad(parray[pislice], garray[pislice])
             pi_old_size += pi.size
 
         self._model_initialized_ = True
-- 
2.43.0


From 715c607309401013b2cd1ce4544743096b55103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 30/72] fix: let the summary gradient check compare the
 difference of the derivatives, not of the function values

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 1c9a7e1..8e13ebf 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -334,7 +334,7 @@ class Model(Parameterized):
 
             denominator = (2 * np.dot(dx, gradient))
             global_ratio = (f1 - f2) / np.where(denominator == 0., 1e-32, denominator)
-            global_diff = np.abs(f1 - f2) < tolerance and np.allclose(gradient, 0, atol=tolerance)
+            global_diff = np.abs(f1 - f2 - denominator) / (2. * step) < tolerance
             if global_ratio is np.nan: # pragma: no cover
                 global_ratio = 0
             return np.abs(1. - global_ratio) < tolerance or global_diff
-- 
2.43.0


From 96ce004c4f0504128ed7bbe92d90e84691b8cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 31/72] fix: keep the gradients of the parameters when
 transforming them for the optimizer

---
 paramz/core/parameter_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 64e975b..dd18411 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -147,6 +147,7 @@ class OptimizationHandlable(Constrainable):
         Transform the gradients by multiplying the gradient factor for each
         constraint to it.
         """
+        g = np.array(g) # leave the gradients of the parameters themselves alone
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-- 
2.43.0


From 3dc68603d124db9db45218ad4d1278190989a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 32/72] fix: register names of parameters linked to an inner
 node, also inside of __init__

---
 paramz/parameterized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 190c5af..e05e469 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -113,6 +113,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
     #__metaclass__ = ParametersChangedMeta
     #The six module is used to support both Python 2 and 3 simultaneously
     #===========================================================================
+    _model_initialized_ = False # linking to an inner node inside of __init__ asks for it
+
     def __init__(self, name=None, parameters=[]):
         super(Parameterized, self).__init__(name=name)
         self.size = sum(p.size for p in self.parameters)
@@ -262,6 +264,7 @@ All parameter arrays must be C_CONTIGUOUS
             pslice = slice(old_size, old_size + p.size)
 
             # first connect all children
+            p._connect_parameters() # also registers the names of parameters linked to an inner node
             p._propagate_param_grad(self.param_array[pslice], self.gradient_full[pslice])
 
             # then connect children to self
-- 
2.43.0


From 62c3d0951f4c12e4aac244f14c6f52059965ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 33/72] fix: let the simplex optimizer report the objective at
 its result, also without evaluations

---
 paramz/optimization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 53d9c42..f021212 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -182,7 +182,7 @@ class opt_simplex(Optimizer):
                    maxfun=self.max_f_eval, full_output=True, **opt_dict)
 
         self.x_opt = opt_result[0]
-        self.f_opt = opt_result[1]
+        self.f_opt = f(self.x_opt) # without any evaluation allowed, scipy reports inf
         self.funct_eval = opt_result[3]
         self.status = statuses[opt_result[4]]
         self.trace = None
-- 
2.43.0


From e7d79e62761fc2009809ee874eaaad517ba2a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:17 +0000
Subject: [PATCH 34/72] fix: do not let recorded optimization runs share memory
 with the model

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 8e13ebf..e708eab 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -95,7 +95,7 @@ class Model(Parameterized):
             self.update_model(True)
 
         if start is None:
-            start = self.optimizer_array
+            start = self.optimizer_array.copy() # the run must not hold on to the buffer of the model
 
         if optimizer is None:
             optimizer = self.preferred_optimizer
-- 
2.43.0


From df57c663668eb6d3a959213cdfba084a34062ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 35/72] fix: restarts never end at a run whose objective is nan

---
 paramz/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index e708eab..53fd0ca 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -183,7 +183,8 @@ class Model(Parameterized):
 
         if len(self.optimization_runs) > initial_length:
             # This works, since failed jobs don't get added to the optimization_runs.
-            i = np.argmin([o.f_opt for o in self.optimization_runs[initial_length:]])
+            # A run which ended at an objective of nan is no best run (and argmin would select it).
+            i = np.argmin([np.inf if np.isnan(o.f_opt) else o.f_opt for o in self.optimization_runs[initial_length:]])
             self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
         else:
             self.optimizer_array = initial_parameters
-- 
2.43.0


From bc831a4cd2dd8501d91e265e025913f2a57fd6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 36/72] fix: optimize_restarts of a model without free
 parameters has nothing to do

---
 paramz/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/model.py b/paramz/model.py
index 53fd0ca..47dc3ec 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -148,6 +148,10 @@ class Model(Parameterized):
             on the current machine.
 
         """
+        if self.is_fixed or self.size == 0:
+            print('nothing to optimize')
+            return self.optimization_runs
+
         initial_length = len(self.optimization_runs)
         initial_parameters = self.optimizer_array.copy()
 
-- 
2.43.0


From 9080bc9cabd8cc1de8115ef4aadaaab09a251c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 37/72] fix: every status scipy's BFGS and TNC can end with has
 a message

---
 paramz/optimization/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index f021212..181a2cd 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -78,7 +78,7 @@ class opt_tnc(Optimizer):
 
         """
         tnc_rcstrings = ['Local minimum', 'Converged', 'XConverged', 'Maximum number of f evaluations reached',
-             'Line search failed', 'Function is constant']
+             'Line search failed', 'Function is constant', 'Unable to progress', 'User requested end of minimization']
 
         assert f_fp != None, "TNC requires f_fp"
 
@@ -141,7 +141,7 @@ class opt_bfgs(Optimizer):
         Run the optimizer
 
         """
-        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing']
+        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing', 'NaN result encountered']
 
         opt_dict = {}
         if self.xtol is not None:
-- 
2.43.0


From fc7866b49f219fc0de577f6ed008c5b8ed57dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 38/72] fix: tolerate failures raised by the gradients of a
 model, too

---
 paramz/model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paramz/model.py b/paramz/model.py
index 47dc3ec..40238fe 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -227,6 +227,14 @@ class Model(Parameterized):
         """
         return self.gradient
 
+    def _failed_gradients(self, bound):
+        # what is left of the gradients after a tolerated failure
+        try:
+            gradients = self.objective_function_gradients()
+        except (LinAlgError, ZeroDivisionError, ValueError):
+            gradients = self.gradient
+        return np.clip(self._transform_gradients(gradients), -bound, bound)
+
     def _grads(self, x):
         """
         Gets the gradients from the likelihood and the priors.
@@ -247,7 +255,7 @@ class Model(Parameterized):
             if self._fail_count >= self._allowed_failures:
                 raise
             self._fail_count += 1
-            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -1e100, 1e100)
+            self.obj_grads = self._failed_gradients(1e100)
         return self.obj_grads
 
     def _objective(self, x):
@@ -283,7 +291,7 @@ class Model(Parameterized):
                 raise
             self._fail_count += 1
             obj_f = np.inf
-            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -1e10, 1e10)
+            self.obj_grads = self._failed_gradients(1e10)
         return obj_f, self.obj_grads
 
     def _checkgrad(self, target_param=None, verbose=False, step=1e-6, tolerance=1e-3, df_tolerance=1e-12):
-- 
2.43.0


From 9707af2b0be0991617d4705e5f355a4d8a5fe244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 39/72] fix: indexing a concatenation of parameters gives the
 elements in the order asked for

---
 paramz/param.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/param.py b/paramz/param.py
index 9dac82b..9d8c9ae 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -435,8 +435,10 @@ class ParamConcatenation(object):
     # Get/set items, enable broadcasting
     #===========================================================================
     def __getitem__(self, s):
-        ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
+        ind = np.arange(sum(self._param_sizes))[s].ravel() # in the order asked for
+        which = np.searchsorted(np.cumsum(self._param_sizes), ind, side='right')
+        starts = np.flatnonzero(np.diff(which, prepend=-1)) # one part for each change of parameter
+        params = [self.params[which[i]].param_array.flat[part - self._param_slices_[which[i]].start] for i, part in zip(starts, np.split(ind, starts[1:]))]
         if len(params)==1: return params[0]
         return ParamConcatenation(params)
 
-- 
2.43.0


From e43c9bddfacc98d2990670fd2313f2dfc6c047bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 40/72] fix: renaming a parameter does not initialize a model
 which was built without initialization

---
 paramz/core/parameter_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index dd18411..6af2ea9 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -497,7 +497,8 @@ class Parameterizable(OptimizationHandlable):
         if pname in self._added_names_:
             del self.__dict__[pname]
             self._added_names_.remove(pname)
-        self._connect_parameters()
+        if self._model_initialized_: # a change of a name does not initialize
+            self._connect_parameters()
 
     def _name_changed(self, param, old_name):
         self._remove_parameter_name(None, old_name)
-- 
2.43.0


From 2471740ef43f9357e6fac35fe7c07bc877259cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 41/72] fix: constraining an object which is not initialized
 moves its values into the domain, too

---
 paramz/core/constrainable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 2c0360e..9f012ab 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -149,7 +149,8 @@ class Constrainable(Indexable):
         :py:class:`paramz.transformations.Transformation`.
         """
         if isinstance(transform, Transformation):
-            self.param_array[...] = transform.initialize(self.param_array)
+            for p in self.flattened_parameters: # before initialization the leaves do not share the memory, yet
+                p.values[...] = transform.initialize(p.values)
             self._write_back()
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
-- 
2.43.0


From b7675ad6e76c8a291129ab9854e4656846e0b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 42/72] fix: constraints are seen at their offset right after
 linking below an object which is not initialized

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index e05e469..b94e7ca 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -174,7 +174,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
             while parent is not None:
                 parent.size += param.size
                 parent = parent._parent_
-            self._notify_parent_change()
+            self._highest_parent_._notify_parent_change() # also objects above and beside have moved
 
             if not self._in_init_ and self._highest_parent_._model_initialized_:
                 #self._connect_parameters()
-- 
2.43.0


From 03b28ad2dda9220685c2fb4740d511bb83636762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 43/72] fix: wrapping an observable array as ObsAr again keeps
 its observers

---
 paramz/core/observable_array.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/paramz/core/observable_array.py b/paramz/core/observable_array.py
index df05892..a069427 100644
--- a/paramz/core/observable_array.py
+++ b/paramz/core/observable_array.py
@@ -62,10 +62,16 @@ class ObsAr(np.ndarray, Pickleable, Observable):
             except ValueError:
                 # do we have other dtypes in the array?
                 obj = np.atleast_1d(np.require(input_array, requirements=['W', 'C'])).view(cls)
-        else: obj = input_array
+        else:
+            # this is an observable array already, keep it and its observers as they are
+            return input_array
         super(ObsAr, obj).__init__(*a, **kw)
         return obj
 
+    def __init__(self, *a, **kw):
+        # everything is set up in __new__, as the array given might be observed already
+        pass
+
     def __array_finalize__(self, obj):
         # see InfoArray.__array_finalize__ for comments
         if obj is None: return
-- 
2.43.0


From 72dafce309f78d318bd3ce6ad15b013aa2cc38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 44/72] fix: a parameter made from an observable array or a
 parameter is a new parameter

---
 paramz/param.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/param.py b/paramz/param.py
index 9d8c9ae..5b35b4f 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -85,6 +85,9 @@ class Param(Parameterizable, ObsAr):
     _fixes_ = None
     parameters = []
     def __new__(cls, name, input_array, default_constraint=None):
+        if isinstance(input_array, ObsAr):
+            # make a new parameter, the memory of the given one is moved when it gets linked
+            input_array = input_array.values.copy()
         obj = super(Param, cls).__new__(cls, input_array=input_array)
         obj._current_slice_ = (slice(obj.shape[0]),)
         obj._realshape_ = obj.shape
-- 
2.43.0


From 7c3357a896196e54ad2daf5a5705df77a7767c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 45/72] fix: the simplex optimizer stays at its start when no
 evaluation is allowed

---
 paramz/optimization/optimization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 181a2cd..5229372 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -181,8 +181,11 @@ class opt_simplex(Optimizer):
         opt_result = optimize.fmin(f, x_init, (), disp=self.messages,
                    maxfun=self.max_f_eval, full_output=True, **opt_dict)
 
-        self.x_opt = opt_result[0]
-        self.f_opt = f(self.x_opt) # without any evaluation allowed, scipy reports inf
+        self.x_opt, self.f_opt = opt_result[:2]
+        if opt_result[3] == 0:
+            # without any evaluation allowed, scipy reports inf at any corner of its simplex
+            self.x_opt = x_init.copy()
+            self.f_opt = f(self.x_opt)
         self.funct_eval = opt_result[3]
         self.status = statuses[opt_result[4]]
         self.trace = None
-- 
2.43.0


From d013cd813cc077ea12b1c448a2fcacc4360c7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:52 +0000
Subject: [PATCH 46/72] fix: progress messages stay no observer of a model
 whose first objective raises

---
 paramz/optimization/verbose_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 87f3a7c..e098af6 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -51,7 +51,6 @@ class VerboseOptimization(object):
             self.len_maxiters = len(str(int(maxiters)))
             self.opt_name = opt.opt_name
             self.opt = opt
-            self.model.add_observer(self, self.print_status)
             self.status = 'running'
             self.clear = clear_after_finish
 
@@ -115,6 +114,9 @@ class VerboseOptimization(object):
     def __enter__(self):
         self.start = time.time()
         self._time = self.start
+        if self.verbose:
+            # only now, as it is removed in __exit__
+            self.model.add_observer(self, self.print_status)
         return self
 
     def print_out(self, seconds):
-- 
2.43.0


From 7ad2d10f2337983507dfeeee3218958863f303e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 47/72] fix: tolerated numerical failures do not break the run
 which reports its progress

---
 paramz/optimization/verbose_optimization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index e098af6..555d3ff 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -30,6 +30,7 @@
 
 from __future__ import print_function
 import numpy as np
+from numpy.linalg import LinAlgError
 import sys
 import time
 
@@ -197,7 +198,11 @@ class VerboseOptimization(object):
         self.iteration += 1
 
     def update(self):
-        self.fnow = self.model.objective_function()
+        try:
+            self.fnow = self.model.objective_function()
+        except (LinAlgError, ZeroDivisionError, ValueError):
+            # the model tolerates these failures, see Model._objective_grads
+            self.fnow = np.inf
         if self.model.obj_grads is not None:
             grad = self.model.obj_grads
             self.current_gradient = np.dot(grad, grad)
-- 
2.43.0


From 23c6572b6447da696efd085935cf8bc8dbff7ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 48/72] fix: progress messages draw no random numbers of the
 run

---
 paramz/optimization/verbose_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 555d3ff..ed78f5e 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -54,6 +54,8 @@ class VerboseOptimization(object):
             self.opt = opt
             self.status = 'running'
             self.clear = clear_after_finish
+            # leave the random numbers of the run alone
+            self.random_state = np.random.RandomState()
 
             self.update()
 
@@ -172,7 +174,7 @@ class VerboseOptimization(object):
             self.model_show.value = self.model._repr_html_()
         else:
             n_exps = exponents(self.fnow, self.current_gradient)
-            if self.iteration - self.p_iter >= 20 * np.random.rand():
+            if self.iteration - self.p_iter >= 20 * self.random_state.rand():
                 a = self.iteration >= self.p_iter * 2.78
                 b = np.any(n_exps < self.exps)
                 if a or b:
-- 
2.43.0


From 195b7a355c54c17d3b66bfb000c3e5db7ed2b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 49/72] fix: a parameter which was unlinked shares no memory
 with the one linked next

---
 paramz/parameterized.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index b94e7ca..0242660 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -236,7 +236,9 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         self._model_initialized_ = True
         
         if not hasattr(self, "parameters") or len(self.parameters) < 1:
-            # no parameters for this class
+            # no parameters for this class, the memory belongs to the ones it had before
+            self._param_array_ = None
+            self._gradient_array_ = None
             return
 
         old_size = 0
-- 
2.43.0


From bdabe52fef82dc3e947341c17a077abf8977ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 50/72] fix: a gradient check which raises leaves the model
 where it was

---
 paramz/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/paramz/model.py b/paramz/model.py
index 40238fe..a6cd1bd 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -321,7 +321,15 @@ class Model(Parameterized):
             return False
 
         x = self.optimizer_array.copy()
+        try:
+            return self._compare_gradients(x, target_param, verbose, step, tolerance, df_tolerance)
+        except:
+            # do not stay at one of the points of the comparison
+            self.optimizer_array = x
+            raise
 
+    def _compare_gradients(self, x, target_param, verbose, step, tolerance, df_tolerance):
+        # see _checkgrad, x are the current free parameters
         if not verbose:
             # make sure only to test the selected parameters
             if target_param is None:
-- 
2.43.0


From 9e7902ae9b7319d59de8e60b74dccb4f54abc5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 51/72] fix: constraining elements selected by a mask or a list
 updates the model once, when it is complete

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 5b35b4f..a0478a9 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -203,7 +203,7 @@ class Param(Parameterizable, ObsAr):
     def _write_back(self):
         # advanced indexing gives a copy of the values, hand them to the original
         if not np.may_share_memory(self, self._original_):
-            self._original_[self._current_slice_] = self.values
+            self._original_.values[self._current_slice_] = self.values # the update follows when the operation is complete
 
     #===========================================================================
     # Pickling and copying
-- 
2.43.0


From 86b533241fcc119bf51758fb07099c2ba4b6c16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 52/72] fix: refused bounds do not break later bounded
 constraints, subclasses have their own

---
 paramz/transformations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index d77f2c9..262f3bc 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -186,10 +186,11 @@ class Square(Transformation):
 class Logistic(Transformation):
     domain = _BOUNDED
     _instances = []
+    lower = upper = None # also of an instance whose bounds were refused
     def __new__(cls, lower=1e-6, upper=1e-6, *args, **kwargs):
         if cls._instances:
             cls._instances[:] = [instance for instance in cls._instances if instance()]
-            for instance in cls._instances:
+            for instance in [i for i in cls._instances if type(i()) is cls]:
                 if instance().lower == lower and instance().upper == upper:
                     return instance()
         newfunc = super(Transformation, cls).__new__
-- 
2.43.0


From 3a90635f842c19733af6c85c46e0845d6f686c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:22 +0000
Subject: [PATCH 53/72] fix: is_fixed of some elements of a parameter tells
 whether these are fixed

---
 paramz/param.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/param.py b/paramz/param.py
index a0478a9..0bc0221 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -195,6 +195,8 @@ class Param(Parameterizable, ObsAr):
     @property
     def is_fixed(self):
         from paramz.transformations import __fixed__
+        if self is not self._original_: # some of the elements only
+            return bool(np.in1d(self._raveled_index(), self.constraints[__fixed__]).all())
         return self.constraints[__fixed__].size == self.size
 
     def _get_original(self, param):
-- 
2.43.0


From 54903798bcadd34dcfff11834a6ac22c350ed012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 54/72] fix: the cacher of a method of a copied object calls
 the method of the copy, and leaves the one of the original in place

---
 paramz/caching.py         | 13 ++++++++++++-
 paramz/core/pickleable.py |  4 +++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 53d3510..e9f3538 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -229,7 +229,18 @@ class Cacher(object):
         self.inputs_changed = {}  # point from cache_ids to bools
 
     def __deepcopy__(self, memo=None):
-        return Cacher(self.operation, self.limit, self.ignore_args, self.force_kwargs)
+        import copy
+        memo = {} if memo is None else memo
+        operation = self.operation
+        obj = getattr(operation, '__self__', None)
+        if memo.get(id(obj), obj) is not None:
+            # the cacher of a method of a copied object calls the method of the copy
+            # (parents are left out of copies, they are None in there)
+            operation = copy.deepcopy(operation, memo)
+        c = Cacher(operation, self.limit, self.ignore_args, self.force_kwargs, cacher_enabled=self.cacher_enabled)
+        if obj is not None and operation.__self__ is obj:
+            obj.cache[operation] = self # this one stays the cacher of its object
+        return c
 
     def __getstate__(self, memo=None):
         raise PickleError("Trying to pickle Cacher object with function {}, pickling functions not possible.".format(str(self.operation)))
diff --git a/paramz/core/pickleable.py b/paramz/core/pickleable.py
index faf45de..ffda26d 100644
--- a/paramz/core/pickleable.py
+++ b/paramz/core/pickleable.py
@@ -123,6 +123,8 @@ class Pickleable(object):
         from .lists_and_dicts import ObserverList
         from ..caching import FunctionCache
         self.observers = ObserverList()
-        self.cache = FunctionCache()
+        if 'cache' not in self.__dict__: # the cachers of methods of a copy are made before its state is set
+            self.cache = FunctionCache()
+        self.cache.reset()
         self._setup_observers()
         self._optimizer_copy_transformed = False
-- 
2.43.0


From afc62b8ab44a6d5c2ed7e422428dd46045f906c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 55/72] fix: removing an index which is named twice reports
 only indices which were there

---
 paramz/core/index_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/index_operations.py b/paramz/core/index_operations.py
index 00d41ea..e21c3a8 100644
--- a/paramz/core/index_operations.py
+++ b/paramz/core/index_operations.py
@@ -164,7 +164,7 @@ class ParameterIndexOperations(object):
     def remove(self, prop, indices):
         if prop in self._properties:
             diff = remove_indices(self[prop], indices)
-            removed = numpy.intersect1d(self[prop], indices, True)
+            removed = numpy.intersect1d(self[prop], indices)
             if not index_empty(diff):
                 self._properties[prop] = diff
             else:
-- 
2.43.0


From e1f6d69f08516d14e63f8040e6957e2d7d87d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 56/72] fix: a verbose gradient check does not divide by an
 objective of zero

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index a6cd1bd..009c749 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -397,7 +397,7 @@ class Model(Parameterized):
                 #Avoid divide by zero, if any of the values are above 1e-15, otherwise both values are essentiall
                 #the same
                 if f1 > 1e-15 or f1 < -1e-15 or f2 > 1e-15 or f2 < -1e-15:
-                    df_ratio = np.abs((f1 - f2) / min(f1, f2))
+                    df_ratio = np.abs((f1 - f2) / max(abs(f1), abs(f2)))
                 else: # pragma: no cover
                     df_ratio = 1.0
                 df_unstable = df_ratio < df_tolerance
-- 
2.43.0


From 3474d4631a4783f559316f9e102a69de282dc9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:01 +0000
Subject: [PATCH 57/72] fix: the climin optimizers report their objective and
 evaluations, and leave the given start alone

---
 paramz/optimization/optimization.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 5229372..54279d2 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -268,11 +268,13 @@ class Opt_Adadelta(Optimizer):
 
         import climin
 
-        opt = climin.adadelta.Adadelta(x_init, fp, step_rate=self.step_rate, decay=self.decay, momentum=self.momentum)
+        opt = climin.adadelta.Adadelta(x_init.copy(), fp, step_rate=self.step_rate, decay=self.decay, momentum=self.momentum)
 
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f_fp(self.x_opt)[0]
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded '
                 break
         else: # pragma: no cover
@@ -298,7 +300,7 @@ class RProp(Optimizer):
         import climin
 
         # Do the optimization, giving previously stored parameters
-        opt = climin.rprop.Rprop(x_init, fp, 
+        opt = climin.rprop.Rprop(x_init.copy(), fp, 
                                  step_shrink=self.step_shrink, step_grow=self.step_grow, 
                                  min_step=self.min_step, max_step=self.max_step, 
                                  changes_max=self.changes_max)
@@ -309,6 +311,8 @@ class RProp(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f_fp(self.x_opt)[0]
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
@@ -340,7 +344,7 @@ class Adam(Optimizer):
         import climin
 
         # Do the optimization, giving previously stored parameters
-        opt = climin.adam.Adam(x_init, fp,
+        opt = climin.adam.Adam(x_init.copy(), fp,
                                step_rate=self.step_rate, decay=self.decay,
                                decay_mom1=self.decay_mom1, decay_mom2=self.decay_mom2,
                                momentum=self.momentum,offset=self.offset)
@@ -351,6 +355,8 @@ class Adam(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f_fp(self.x_opt)[0]
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
-- 
2.43.0


From 865e7676f8188014288517a9c110b299440ba5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 58/72] fix: a part of a parameter follows the parameter when
 updates are switched

---
 paramz/param.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paramz/param.py b/paramz/param.py
index 0bc0221..87a2c7e 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -124,6 +124,17 @@ class Param(Parameterizable, ObsAr):
         #self.constraints = getattr(obj, 'constraints', None)
         #self.priors = getattr(obj, 'priors', None)
 
+    @property
+    def _update_on(self):
+        # a part of a parameter follows the parameter, also when updates are switched later
+        original = self.__dict__.get('_original_')
+        return (self if original is None else original).__dict__.get('_update_on')
+
+    @_update_on.setter
+    def _update_on(self, on):
+        original = self.__dict__.get('_original_')
+        (self if original is None else original).__dict__['_update_on'] = on
+
     @property
     def param_array(self):
         """
-- 
2.43.0


From 014127c5a21b8085269d4d50ebbf56d32a162df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 59/72] fix: an object which is linked takes over whether
 updates are on

---
 paramz/parameterized.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 0242660..626f16d 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -169,6 +169,10 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 self.parameters.insert(index, param)
 
             param.add_observer(self, self._pass_through_notify_observers, -np.inf)
+            if param.update_model() != self.update_model(): # updates are on or off for the whole hierarchy
+                def follow(p):
+                    p._update_on = self._update_on
+                param.traverse(follow)
 
             parent = self
             while parent is not None:
-- 
2.43.0


From b8da7464c7037bc611e7fa1c1f5e925c17e3667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:59 +0000
Subject: [PATCH 60/72] fix: a cacher is told of changes before other
 observers, which might ask it for a result

---
 paramz/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index e9f3538..7c9b351 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -145,7 +145,8 @@ class Cacher(object):
                 v = self.cached_input_ids.get(ind_id, [weakref.ref(a), []])
                 v[1].append(cache_id)
                 if len(v[1]) == 1:
-                    a.add_observer(self, self.on_cache_changed)
+                    # we need to know before any other observer, they might ask us for the result
+                    a.add_observer(self, self.on_cache_changed, float('inf'))
                 self.cached_input_ids[ind_id] = v
 
     def __call__(self, *args, **kw):
-- 
2.43.0


From 430b2a562f0c0cf7656723239736fe21927fc7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 61/72] fix: some elements of a concatenation of parameters
 know where they come from

---
 paramz/param.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 87a2c7e..2a7c837 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -213,6 +213,10 @@ class Param(Parameterizable, ObsAr):
     def _get_original(self, param):
         return self._original_
 
+    def _elements(self, ind):
+        # the elements at the flat indices ind, as for every advanced index a copy which knows where it comes from
+        return self._original_[np.unravel_index(self._raveled_index()[ind], self._realshape_)]
+
     def _write_back(self):
         # advanced indexing gives a copy of the values, hand them to the original
         if not np.may_share_memory(self, self._original_):
@@ -454,7 +458,7 @@ class ParamConcatenation(object):
         ind = np.arange(sum(self._param_sizes))[s].ravel() # in the order asked for
         which = np.searchsorted(np.cumsum(self._param_sizes), ind, side='right')
         starts = np.flatnonzero(np.diff(which, prepend=-1)) # one part for each change of parameter
-        params = [self.params[which[i]].param_array.flat[part - self._param_slices_[which[i]].start] for i, part in zip(starts, np.split(ind, starts[1:]))]
+        params = [self.params[which[i]]._elements(part - self._param_slices_[which[i]].start) for i, part in zip(starts, np.split(ind, starts[1:]))]
         if len(params)==1: return params[0]
         return ParamConcatenation(params)
 
-- 
2.43.0


From 70e31229f00c99cb6566285e9f2e2c8101eacb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:41 +0000
Subject: [PATCH 62/72] fix: parameter_names(intermediate=True) names every
 parameterized object and nothing twice

---
 paramz/core/parameter_core.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 6af2ea9..2a1a4ca 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -192,14 +192,18 @@ class OptimizationHandlable(Constrainable):
         if adjust_for_printing: adjust = adjust_name_for_printing
         else: adjust = lambda x: x
         names = []
-        if intermediate or (not recursive):
-            names.extend([adjust(x.name) for x in self.parameters])
-        if intermediate or recursive: names.extend([
-                xi for x in self.parameters for xi in
-                 x.parameter_names(add_self=True,
-                                   adjust_for_printing=adjust_for_printing,
-                                   recursive=True,
-                                   intermediate=False)])
+        for p in self.parameters:
+            below = []
+            if intermediate or recursive:
+                below = p.parameter_names(add_self=True,
+                                          adjust_for_printing=adjust_for_printing,
+                                          recursive=True,
+                                          intermediate=intermediate)
+            name = adjust(p.name)
+            # the name of a leaf is the one it gives itself
+            if ((not recursive) or intermediate) and name not in below:
+                names.append(name)
+            names.extend(below)
         if add_self: names = [adjust(self.name) + "." + x for x in names]
         return names
 
-- 
2.43.0


From 65b8c751e81b83d8f7654c361f48c5928a8f8c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 63/72] fix: renaming or linking an object to an invalid name
 leaves no trace

---
 paramz/core/nameable.py | 2 ++
 paramz/parameterized.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index fa2eba1..125821c 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -69,6 +69,8 @@ class Nameable(Gradcheckable):
         """
         from_name = self.name
         assert isinstance(name, str)
+        if self.has_parent():
+            adjust_name_for_printing(name) # refuses names which the parent cannot know this object by
         self._name = name
         if self.has_parent():
             self._parent_._name_changed(self, from_name)
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 626f16d..aa6d732 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -142,6 +142,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         # elif param.has_parent():
         #    raise HierarchyError, "parameter {} already in another model ({}), create new object (or copy) for adding".format(param._short(), param._highest_parent_._short())
         elif param not in self.parameters:
+            adjust_name_for_printing(param.name) # refuses names which cannot be attributes
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
-- 
2.43.0


From 3b875b72b2107c093fd789a811b7f11dd332934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:55 +0000
Subject: [PATCH 64/72] fix: linking an object below itself is refused instead
 of running forever

---
 paramz/parameterized.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index aa6d732..6f487c7 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -143,6 +143,11 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         #    raise HierarchyError, "parameter {} already in another model ({}), create new object (or copy) for adding".format(param._short(), param._highest_parent_._short())
         elif param not in self.parameters:
             adjust_name_for_printing(param.name) # refuses names which cannot be attributes
+            ancestor = self
+            while ancestor is not None:
+                if ancestor is param:
+                    raise HierarchyError("You cannot add an object below itself")
+                ancestor = ancestor._parent_
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
-- 
2.43.0


From 49d4ae472cd9da2dbfcff124c1aa8597178ee862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 65/72] fix: progress messages in a notebook survive tolerated
 failures and show how a run ended

---
 paramz/optimization/verbose_optimization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index ed78f5e..4d5ba7a 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -171,7 +171,10 @@ class VerboseOptimization(object):
             self.text.value = html_begin + html_body + html_end
             self.progress.value = (self.iteration+1)
             #self.progresstext.value = '0/{}'.format((self.iteration+1))
-            self.model_show.value = self.model._repr_html_()
+            try:
+                self.model_show.value = self.model._repr_html_()
+            except (LinAlgError, ZeroDivisionError, ValueError):
+                pass # tolerated as in update, there is no objective to show
         else:
             n_exps = exponents(self.fnow, self.current_gradient)
             if self.iteration - self.p_iter >= 20 * self.random_state.rand():
@@ -217,7 +220,7 @@ class VerboseOptimization(object):
 
     def __exit__(self, type, value, traceback):
         if self.verbose:
-            self.status = self.opt.status
+            self.status = str(self.opt.status) # there is none, if the run raised
 
             self.stop = time.time()
             self.model.remove_observer(self)
-- 
2.43.0


From f71077a8de5a8652eb65725532105f06c8e9bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 66/72] fix: the bounded constraint maps single numbers like
 the others

---
 paramz/transformations.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 262f3bc..7f7a11f 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -208,10 +208,7 @@ class Logistic(Transformation):
         self.lower, self.upper = float(lower), float(upper)
         self.difference = self.upper - self.lower
     def f(self, x):
-        if (x<-300.).any():
-            x = x.copy()
-            x[x<-300.] = -300.
-        return self.lower + self.difference / (1. + np.exp(-x))
+        return self.lower + self.difference / (1. + np.exp(-np.maximum(x, -300.))) # also of single numbers
     def finv(self, f):
         return np.log(np.clip(f - self.lower, 1e-10, np.inf) / np.clip(self.upper - f, 1e-10, np.inf))
     def gradfactor(self, f, df):
-- 
2.43.0


From 760691d26ac7234fb65cab7362d002a568c1d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 67/72] fix: Adam works with the decay which it is given

---
 paramz/optimization/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 54279d2..9dc1c7d 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -321,7 +321,7 @@ class RProp(Optimizer):
 class Adam(Optimizer):
     # We want the optimizer to know some things in the Optimizer implementation:
     def __init__(self, step_rate=.0002,
-                                  decay=0,
+                                  decay=1-1e-8,
                                   decay_mom1=0.1,
                                   decay_mom2=0.001,
                                   momentum=0,
@@ -329,7 +329,7 @@ class Adam(Optimizer):
         super(Adam, self).__init__(*args, **kwargs)
         self.opt_name = 'Adam (climin)'
         self.step_rate = step_rate
-        self.decay = 1-1e-8
+        self.decay = decay
         self.decay_mom1 = decay_mom1
         self.decay_mom2 = decay_mom2
         self.momentum = momentum
-- 
2.43.0


From 4b9d3f954085552aab9abde776af7074224f7c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:37 +0000
Subject: [PATCH 68/72] fix: a part of a parameter can be traversed

---
 paramz/core/parameter_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 2a1a4ca..e3098c4 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -324,6 +324,8 @@ class Parameterizable(OptimizationHandlable):
     Use paramz.Parameterized() as node (or leaf) in the parameterized hierarchy.
     Use paramz.Param() for a leaf in the parameterized hierarchy.
     """
+    __visited = False # also of a part of a parameter, which is made without __init__
+
     def __init__(self, *args, **kwargs):
         super(Parameterizable, self).__init__(*args, **kwargs)
         from .lists_and_dicts import ArrayList
-- 
2.43.0


From a62b1c728f8d1a8824d6ed758d7c20f9a1a4d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:39 +0000
Subject: [PATCH 69/72] fix: saving raises the error which occurred, closes the
 file and writes every parameter

---
 paramz/core/parameter_core.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index e3098c4..54d730d 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -580,18 +580,17 @@ class Parameterizable(OptimizationHandlable):
         self.traverse(gather_params, plist)
         names = self.parameter_names(adjust_for_printing=True)
         if ftype=='HDF5':
-            try:
-                import h5py
-                f = h5py.File(filename,'w')
+            import h5py
+            with h5py.File(filename,'w') as f:
+                if hasattr(self, 'param_array'):
+                    d = f.create_dataset('param_array',self.param_array.shape, dtype=self.param_array.dtype)
+                    d[:] = self.param_array
                 for p,n in zip(plist,names):
                     n = n.replace('.','_')
+                    while n in f: # the names of different parameters can be alike without the dots
+                        n += '_1'
                     p = p.values
                     d = f.create_dataset(n,p.shape,dtype=p.dtype)
                     d[:] = p
-                if hasattr(self, 'param_array'):
-                    d = f.create_dataset('param_array',self.param_array.shape, dtype=self.param_array.dtype)
-                    d[:] = self.param_array
-                f.close()
-            except:
-                raise 'Fails to write the parameters into a HDF5 file!'
-
+        else:
+            raise ValueError("Cannot save to files of type {!r}, only 'HDF5' is supported".format(ftype))
-- 
2.43.0


From 16543b87012883eb8b25e836c6173accf323d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:33 +0000
Subject: [PATCH 70/72] fix: plotting a constraint draws it (also into given
 axes) instead of raising

---
 paramz/transformations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 7f7a11f..e97b0fe 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -93,8 +93,9 @@ class Transformation(object):
         assert "matplotlib" in sys.modules, "matplotlib package has not been imported."
         import matplotlib.pyplot as plt
         x = np.linspace(-8,8)
-        plt.plot(x, self.f(x), *args, ax=axes, **kw)
-        axes = plt.gca()
+        if axes is None:
+            axes = plt.gca()
+        axes.plot(x, self.f(x), *args, **kw)
         axes.set_xlabel(xlabel)
         axes.set_ylabel(ylabel)
     def __str__(self):
-- 
2.43.0


From cd6abaff18f05783433b4740dd592bcbf1685ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 71/72] fix: observers registered with a method of theirs are
 not kept alive by the registration

---
 paramz/core/lists_and_dicts.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/paramz/core/lists_and_dicts.py b/paramz/core/lists_and_dicts.py
index f4b7785..3e8a1ce 100644
--- a/paramz/core/lists_and_dicts.py
+++ b/paramz/core/lists_and_dicts.py
@@ -29,6 +29,7 @@
 #===============================================================================
 
 from collections import defaultdict
+import types
 import weakref
 
 def intarray_default_factory():
@@ -62,6 +63,17 @@ class ArrayList(list):
         raise ValueError("{} is not in list".format(item))
     pass
 
+class _MethodOfObserver(object):
+    # a method of an observer without the observer, which a bound method would keep alive
+    def __init__(self, method):
+        self.function = method.__func__
+
+    @staticmethod
+    def bind(callble, observer):
+        if isinstance(callble, _MethodOfObserver):
+            return types.MethodType(callble.function, observer)
+        return callble
+
 class ObserverList(object):
     """
     A list which containts the observables.
@@ -73,7 +85,8 @@ class ObserverList(object):
 
     def __getitem__(self, ind):
         p,o,c = self._poc[ind]
-        return p, o(), c
+        o = o()
+        return p, o, _MethodOfObserver.bind(c, o)
 
     def remove(self, priority, observer, callble):
         """
@@ -98,6 +111,8 @@ class ObserverList(object):
             if priority > pr:
                 break
             ins += 1
+        if isinstance(callble, types.MethodType) and callble.__self__ is observer:
+            callble = _MethodOfObserver(callble)
         self._poc.insert(ins, (priority, weakref.ref(observer), callble))
 
     def __str__(self):
@@ -135,7 +150,9 @@ class ObserverList(object):
     def __iter__(self):
         self.flush()
         for p, o, c in self._poc:
-            yield p, o(), c
+            o = o()
+            if o is not None: # it can be gone since the notification began
+                yield p, o, _MethodOfObserver.bind(c, o)
 
     def __len__(self):
         self.flush()
-- 
2.43.0


From 8cb1cd40749554cec37d5cd90593cf77168f1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:36 +0000
Subject: [PATCH 72/72] fix: optimizers respect the limit of evaluations they
 are given

---
 paramz/optimization/optimization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 9dc1c7d..1d26a5d 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -22,12 +22,12 @@ class Optimizer(object):
     :param fp: gradients
     :param messages: print messages from the optimizer?
     :type messages: (True | False)
-    :param max_f_eval: maximum number of function evaluations
+    :param max_f_eval: maximum number of function evaluations (as many as iterations, if not given)
 
     :rtype: optimizer object.
 
     """
-    def __init__(self, messages=False, max_f_eval=1e4, max_iters=1e3,
+    def __init__(self, messages=False, max_f_eval=None, max_iters=1e3,
                  ftol=None, gtol=None, xtol=None, bfgs_factor=None):
         self.opt_name = None
         #x_init = x_init
@@ -37,7 +37,8 @@ class Optimizer(object):
         self.x_opt = None
         self.funct_eval = None
         self.status = None
-        self.max_f_eval = int(max_iters)
+        # not more than one evaluation is needed for each iteration
+        self.max_f_eval = int(max_iters if max_f_eval is None else min(max_f_eval, max_iters))
         self.max_iters = int(max_iters)
         self.bfgs_factor = bfgs_factor
         self.trace = None
@@ -121,7 +122,7 @@ class opt_lbfgsb(Optimizer):
         if self.bfgs_factor is not None:
             opt_dict['factr'] = self.bfgs_factor
 
-        opt_result = optimize.fmin_l_bfgs_b(f_fp, x_init, maxfun=self.max_iters, maxiter=self.max_iters, **opt_dict)
+        opt_result = optimize.fmin_l_bfgs_b(f_fp, x_init, maxfun=self.max_f_eval, maxiter=self.max_iters, **opt_dict)
         self.x_opt = opt_result[0]
         self.f_opt = f_fp(self.x_opt)[0]
         self.funct_eval = opt_result[2]['funcalls']
-- 
2.43.0

