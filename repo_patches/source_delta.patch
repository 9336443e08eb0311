From 31038db5b631ea6b0d2e106f6e02a5d88fd716cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:48 +0000
Subject: [PATCH 01/47] fix: elementwise derivatives of arrays whose first
 dimension is 1

len(result) is the first dimension, not the number of elements, so a (1,n)
operand got its derivative values instead of a diagonal Jacobian.
---
 chumpy/ch_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index f5f2f74..6298ebd 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -225,7 +225,7 @@ class UnaryElemwise(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
             result = self._d(self.x.r)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result.ravel())
 
 
 class nan_to_num(UnaryElemwise):
@@ -302,7 +302,7 @@ class clip(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
             result = np.asarray((self.r != self.a_min) & (self.r != self.a_max), np.float64)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result.ravel())
 
 class sum(Ch):
     dterms = 'x',
-- 
2.43.0


From a4f84076642f2cf58cbf7a211c6e94cb03f55d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:55 +0000
Subject: [PATCH 02/47] fix: derivative of mean over all axes of a
 multidimensional array

---
 chumpy/ch_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 6298ebd..ff0bfe1 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -356,7 +356,7 @@ class mean(Ch):
         if wrt is not self.x:
             return
         if self.axis == None:
-            return row(np.ones((1, len(self.x.r))))/len(self.x.r)
+            return row(np.ones((1, self.x.r.size)))/self.x.r.size
         else:
             uid = tuple(list(self.x.shape) + [self.axis])
             if uid not in self.dr_cache:
-- 
2.43.0


From bd8272d8c89e62cefa98ada964251bd3ebad8a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:02 +0000
Subject: [PATCH 03/47] fix: derivative of sort follows the sorting permutation

---
 chumpy/reordering.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 0ab1cd3..9ebe382 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -60,6 +60,17 @@ class Sort(Reorder):
     def reorder(self, a): return np.sort(a, self.axis, self.kind, self.order)
     def unique_reorder_id(self): return None
 
+    def compute_dr_wrt(self, wrt):
+        if wrt is self.a:
+            ar = self.a.r
+            idxs = np.arange(ar.size).reshape(ar.shape)
+            if self.axis is None:
+                ar, idxs = ar.ravel(), idxs.ravel()
+            axis = -1 if self.axis is None else self.axis
+            JS = np.take_along_axis(idxs, np.argsort(ar, axis, self.kind, self.order), axis).ravel()
+            IS = np.arange(JS.size)
+            return sp.csc_matrix((np.ones(JS.size), (IS, JS)), shape=(self.r.size, wrt.r.size))
+
 def sort(a, axis=-1, kind='quicksort', order=None):
     return Sort(a=a, axis=axis, kind=kind, order=order)
     
-- 
2.43.0


From dc0c768b8ce320e8c3ee2801284049aa5f75b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:07 +0000
Subject: [PATCH 04/47] fix: entries that diag and diagflat fill with zero have
 zero derivative

---
 chumpy/reordering.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 9ebe382..51b3455 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -48,8 +48,7 @@ class Reorder(Permute):
                 if key not in self.dr_lookup or key is None:
                     JS = self.reorder(np.arange(asz).reshape(ashape))
                     IS = np.arange(JS.size)
-                    data = np.ones_like(IS)
-                    shape = JS.shape
+                    data = self.reorder(np.ones(ashape)).ravel() # zero for entries not taken from a
                     self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS.ravel())), shape=(self.r.size, wrt.r.size))
                 return self.dr_lookup[key]
                  
-- 
2.43.0


From 24d1eb0df36eda01bf2f01e97bbec4da8992567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:13 +0000
Subject: [PATCH 05/47] fix: tile and repeat accept every form of repetition
 count; roll and repeat no longer reuse the derivative computed for an operand
 of another shape

---
 chumpy/reordering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 51b3455..e2f9c8a 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -80,7 +80,7 @@ class Tile(Reorder):
     term_order = 'a', 'reps'
     
     def reorder(self, a): return np.tile(a, self.reps)
-    def unique_reorder_id(self): return (self.a.shape, tuple(self.reps))
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.reps)))
     
 def tile(A, reps):
     return Tile(a=A, reps=reps)
@@ -112,7 +112,7 @@ class Repeat(Reorder):
     terms = 'repeats', 'axis'
     
     def reorder(self, a): return np.repeat(a, self.repeats, self.axis)
-    def unique_reorder_id(self): return (self.repeats, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.repeats)), self.axis)
 
 def repeat(a, repeats, axis=None):
     return Repeat(a=a, repeats=repeats, axis=axis)
@@ -157,7 +157,7 @@ class Roll(Reorder):
     term_order = 'a', 'shift', 'axis'
     
     def reorder(self, a): return np.roll(a, self.shift, self.axis)
-    def unique_reorder_id(self): return (self.shift, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, self.shift, self.axis)
     
 def roll(a, shift, axis=None):
     return Roll(a, shift, axis)
-- 
2.43.0


From dd5b1fdb8cfbc18ebb84fabe9dfec7ac07ea4ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:19 +0000
Subject: [PATCH 06/47] fix: dividing a number or array by a Ch works in Python
 3 (__rtruediv__)

---
 chumpy/ch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e903df9..f485189 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1145,6 +1145,7 @@ class Ch(object):
     def __div__ (self, other): return divide(x1=self, x2=other)
     def __truediv__ (self, other): return divide(x1=self, x2=other)
     def __rdiv__(self, other): return divide(x1=other, x2=self)
+    def __rtruediv__(self, other): return divide(x1=other, x2=self)
 
     def __pow__ (self, other): return power(x=self, pow=other)
     def __rpow__(self, other): return power(x=other, pow=self)
-- 
2.43.0


From d758f55e6673fb86cb1e8beaf88e6543e5d4cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:24 +0000
Subject: [PATCH 07/47] fix: atleast_nd, ChHandle and ChLambda have an identity
 Jacobian of full size

---
 chumpy/ch.py         | 4 ++--
 chumpy/reordering.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index f485189..d6cd2d0 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1231,7 +1231,7 @@ class ChHandle(Ch):
     
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
-            return 1
+            return sp.eye(self.x.size, self.x.size)
     
 
 class ChLambda(Ch):
@@ -1271,7 +1271,7 @@ class ChLambda(Ch):
     
     def compute_dr_wrt(self, wrt):
         if wrt is self._result:
-            return 1
+            return sp.eye(self._result.size, self._result.size)
 
 # ChGroup is similar to ChLambda in that it's designed to expose the "internal"
 # inputs of result but, unlike ChLambda, result is kept internal and called when
diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index e2f9c8a..38ec307 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -331,7 +331,7 @@ class AtleastNd(Ch):
         
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
-            return 1
+            return sp.eye(self.x.size, self.x.size)
 
 def atleast_nd(ndims, *arys):
     arys = [AtleastNd(x=ary, ndims=ndims) for ary in arys]
-- 
2.43.0


From acd1503c370ee6523f301f2a2314d7cadb67f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:31 +0000
Subject: [PATCH 08/47] fix: compare Jacobians with None by identity in reverse
 mode and lmult_wrt

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index d6cd2d0..ac078fb 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -654,7 +654,7 @@ class Ch(object):
 
         direct_dr = self._compute_dr_wrt_sliced(wrt)
 
-        if direct_dr != None:
+        if direct_dr is not None:
             drs.append(self._superdot(lhs, direct_dr))
 
         for k in set(self.dterms):
@@ -764,7 +764,7 @@ class Ch(object):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
                         tm_dr_wrt.resume()
-                        indirect_dr = lhs.matmat(dr2) if dr2 != None else None
+                        indirect_dr = lhs.matmat(dr2) if dr2 is not None else None
                     else:
                         indirect_dr = p.lmult_wrt(lhs, wrt)
                 else: # forward mode
-- 
2.43.0


From 74a7d8681e41dbf553f54105aa3d6552a830cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:37 +0000
Subject: [PATCH 09/47] fix: derivatives with respect to a view of a view

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index ac078fb..f65dc52 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -307,7 +307,7 @@ class Ch(object):
         
             wrt._call_on_changed()
 
-            jac = wrt.compute_dr_wrt(inner).T
+            jac = wrt.dr_wrt(inner).T # wrt may be several views away from inner
 
             return self._superdot(result, jac)
 
-- 
2.43.0


From a9c4d15355a7b5247eec500b7ae28ef4ec91f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:43 +0000
Subject: [PATCH 10/47] fix: derivative of the cross product of an array with
 itself

---
 chumpy/ch_ops.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index ff0bfe1..cf5966d 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -151,9 +151,10 @@ class Cross(Ch):
         
         #import time
         #tm = time.time()
+        result = 0.
         if wrt is self.a:
             rp = np.repeat(-self.b.r, w, axis=0) 
-            result = np.cross(
+            result = result + np.cross(
                 tiled_identity, 
                 rp,
                 self.axisa,
@@ -161,8 +162,8 @@ class Cross(Ch):
                 self.axisc, 
                 self.axis)
 
-        elif wrt is self.b:
-            result = np.cross(
+        if wrt is self.b:
+            result = result + np.cross(
                 np.repeat(-self.a.r, w, axis=0),
                 tiled_identity,
                 self.axisa,
-- 
2.43.0


From 40617feb944be3a5ce7d11501335722cbe74688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:51 +0000
Subject: [PATCH 11/47] fix: set() with several attributes always invalidates

With a constant token, a set() whose last attribute is not a term left the
token behind, and the next such set() was not propagated.
---
 chumpy/ch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index f65dc52..da62501 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -477,8 +477,9 @@ class Ch(object):
         # The complexity here comes because we wish to
         # avoid clearing cache redundantly
         if len(kwall) > 0:
+            itr = object() # unique to this call
             for k in kwall[:-1]:
-                self.__setattr__(k, kwargs[k], 9999)
+                self.__setattr__(k, kwargs[k], itr)
             self.__setattr__(kwall[-1], kwargs[kwall[-1]], None)
             
 
-- 
2.43.0


From 6cc48203dfaf62589ac1ff29804d46576fbc532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:56 +0000
Subject: [PATCH 12/47] fix: concatenations notice replaced and resized terms

---
 chumpy/reordering.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 38ec307..9a7bfd2 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -367,8 +367,10 @@ def flipud(m):
 class Concatenate(Ch):
 
     def on_changed(self, which):
-        if not hasattr(self, 'dr_cached'):
-            self.dr_cached = weakref.WeakKeyDictionary()
+        # Terms may have been replaced or may have changed their shape
+        self.__dict__.pop('_our_terms', None)
+        self.__dict__.pop('_everything', None)
+        self.dr_cached = weakref.WeakKeyDictionary()
             
     @property
     def our_terms(self):
-- 
2.43.0


From bb60f9b5a89766f9ab3f4a07c4f2080437db6008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:03 +0000
Subject: [PATCH 13/47] fix: transpose() method accepts axes as separate
 arguments, as in NumPy

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index da62501..950cea8 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -567,7 +567,7 @@ class Ch(object):
         return transpose(self)
         
     def transpose(self, *axes):
-        return transpose(self, *axes)
+        return transpose(self, axes) if len(axes) > 1 else transpose(self, *axes)
         
     def squeeze(self, axis=None):
         return squeeze(self, axis)
-- 
2.43.0


From da1b0213f389a1b14a613be3ab4ee3fca5e91ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 14/47] fix: remove_redundancy keeps invalidation working and
 never merges variables

Replacing terms behind __setattr__'s back left the kept node without its new
parent, so later changes did not reach it. Two variables that hold the same
array are still different variables.
---
 chumpy/ch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 950cea8..15df1ad 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -184,6 +184,8 @@ class Ch(object):
     @property
     def sid(self):
         """Semantic id."""
+        if type(self) == Ch: # a variable is only the same as itself
+            return (Ch, id(self))
         pnames = list(self.terms)+list(self.dterms)
         pnames.sort()
         return (self.__class__, tuple([(k, id(self.__dict__[k])) for k in pnames if k in self.__dict__]))
@@ -234,7 +236,7 @@ class Ch(object):
             if sid not in cache:
                 cache[sid] = prop
             elif self.__dict__[propname] is not cache[sid]:
-                self.__dict__[propname] = cache[sid]
+                setattr(self, propname, cache[sid])
                 replacement_occurred = True
             if prop.remove_redundancy(cache, iterate=False):
                 replacement_occurred = True
-- 
2.43.0


From 4ba20640b055b0f71edf8fb5a3989b15cbac6524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:17 +0000
Subject: [PATCH 15/47] fix: hstack of one-dimensional arrays, as in NumPy

---
 chumpy/reordering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 9a7bfd2..03689c3 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -457,7 +457,8 @@ def concatenate(mtxs, axis=0, **kwargs):
     return result
     
 def hstack(mtxs, **kwargs):
-    return concatenate(mtxs, axis=1, **kwargs)
+    mtxs = list(mtxs)
+    return concatenate(mtxs, axis=0 if np.ndim(mtxs[0]) == 1 else 1, **kwargs)
 
 def vstack(mtxs, **kwargs):
     return concatenate([atleast_2d(m) for m in mtxs], axis=0, **kwargs)
-- 
2.43.0


From 6d5f14145b57610484cc535333d9421b7db880d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:22 +0000
Subject: [PATCH 16/47] fix: derivative of a variable that was assigned a plain
 number

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 15df1ad..959018b 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -277,7 +277,7 @@ class Ch(object):
     def compute_dr_wrt(self,wrt):
         """Default method for objects that just contain a number or ndarray"""
         if wrt is self: # special base case  
-            return sp.eye(self.x.size, self.x.size)
+            return sp.eye(self.r.size, self.r.size)
             #return np.array([[1]])
         return None
         
-- 
2.43.0


From f3dfadc9468a3e495acd10204d970de83c0cd980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:28 +0000
Subject: [PATCH 17/47] fix: item assignment to a variable that was assigned
 integers

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 959018b..d3881ac 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -511,7 +511,7 @@ class Ch(object):
         if hasattr(value, 'dterms'):
             raise Exception("Can't assign a Ch objects as a subset of another.")
         if type(self) == Ch:# self.is_ch_baseclass():
-            data = np.atleast_1d(self.x)
+            data = np.atleast_1d(np.asarray(self.x, dtype=np.float64))
             data.__setitem__(key, value)
             self.__setattr__('x', data, itr=itr)
             return
-- 
2.43.0


From 602bd211f0e94bb872f1bbae34952c0a2c8082f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 18/47] fix: derivative of dot when the second operand has more
 than two dimensions

---
 chumpy/ch_ops.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index cf5966d..c250327 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -734,7 +734,7 @@ class dot(Ch):
     def compute_d1(self):
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.rollaxis(self.b.r, -2).reshape((self.b.r.shape[-2], -1))
 
         if ar.ndim <= 2:
             return sp.kron(sp.eye(ar.shape[0], ar.shape[0]),br.T)
@@ -745,8 +745,11 @@ class dot(Ch):
         
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.rollaxis(self.b.r, -2).reshape((self.b.r.shape[-2], -1))
 
+        if self.b.r.ndim > 2: # br's columns follow the order of axes in the rolled b
+            idxs = np.rollaxis(np.arange(self.b.r.size).reshape(self.b.r.shape), -2).ravel()
+            return sp.kron(ar, sp.eye(br.shape[1],br.shape[1])).tocsc()[:, np.argsort(idxs)]
         if br.ndim <= 1:
             return self.ar
         elif br.ndim <= 2:
-- 
2.43.0


From 2e6ae5c387accb6fc9e5b96b1bd0aed93d4f3875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:42 +0000
Subject: [PATCH 19/47] fix: dogleg shrinks the trust region when a trial
 residual is not a number

All comparisons with NaN are false, so the same trial was repeated forever.
---
 chumpy/optimization_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 1043633..a83028e 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -351,7 +351,7 @@ class DoglegState(object):
     def updateRadius(self, rho, lb=.05, ub=.9):
         if rho > ub:
             self.delta = max(self.delta, 2.5*np.linalg.norm(self.d_dl))
-        elif rho < lb:
+        elif not rho >= lb: # also when rho is not a number
             self.delta *= .25
 
 
-- 
2.43.0


From 13c95a6a602705e0ce2a8ec801df3ff96f9b5825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:47 +0000
Subject: [PATCH 20/47] fix: dogleg with several selections of one variable

Reading the second selection's size between two writes with the same token
cached its value, and the second write did not clear it.
---
 chumpy/optimization_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index a83028e..c858df2 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -90,7 +90,7 @@ class ChInputsStacked(ch.Ch):
                     while len(selects) > 0:
                         idxs = idxs[selects.pop()]
                     newv.ravel()[idxs] = self.x.r.ravel()[rng]
-                    a.__setattr__('x', newv, _giter)
+                    a.__setattr__('x', newv)
                 elif isinstance(self.free_variables[idx].x, np.ndarray):
                     self.free_variables[idx].__setattr__('x', self.x.r[rng].copy().reshape(self.free_variables[idx].x.shape), _giter)
                 else: # a number
-- 
2.43.0


From c1be51b64d3edbe2ba38f3e04f444e13e348d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:53 +0000
Subject: [PATCH 21/47] fix: assigning through a view overwrites exactly the
 selected elements

Numbers and broadcastable arrays raised, and the element was updated by a
difference, which left NaN and infinite elements as they were.
---
 chumpy/ch.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index d3881ac..b85f0aa 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -535,17 +535,13 @@ class Ch(object):
                     raise Exception("Can't set array that is function of arrays.")
 
             self = self[key]
-            dr = self.dr_wrt(inner)
-            dr_rev = dr.T
-            #dr_rev = np.linalg.pinv(dr)
-            inner_shape = inner.shape
+            dr = sp.coo_matrix(self.dr_wrt(inner)) # one entry per selected element
+            data = np.empty(self.shape)
+            data[...] = value
 
-            t1 = self._superdot(dr_rev, np.asarray(value).ravel())
-            t2 = self._superdot(dr_rev, self._superdot(dr, inner.x.ravel()))
-            if sp.issparse(t1): t1 = np.array(t1.todense())
-            if sp.issparse(t2): t2 = np.array(t2.todense())
-
-            inner.x = inner.x + t1.reshape(inner_shape) - t2.reshape(inner_shape)
+            newx = np.array(inner.r)
+            newx.ravel()[dr.col] = data.ravel()[dr.row]
+            inner.x = newx
             #inner.x = inner.x + self._superdot(dr_rev, value.ravel()).reshape(inner_shape) - self._superdot(dr_rev, self._superdot(dr, inner.x.ravel())).reshape(inner_shape)
 
 
-- 
2.43.0


From 6ed527633c4d9e3d063ae68cb8323cb89a5ecd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:59 +0000
Subject: [PATCH 22/47] fix: minimize methods that use second derivatives found
 no hstack

---
 chumpy/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 4f68b65..5dafc8f 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -13,7 +13,7 @@ from . import ch
 import scipy.sparse as sp
 import scipy.optimize
 
-from .optimization_internal import minimize_dogleg
+from .optimization_internal import minimize_dogleg, hstack
 
 #from memory_profiler import profile, memory_usage
 
-- 
2.43.0


From 83e502fe24d50413e15f38558122284ef30352b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:13 +0000
Subject: [PATCH 23/47] fix: moment of a one-dimensional array is a single
 number

---
 chumpy/extras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chumpy/extras.py b/chumpy/extras.py
index 7043f57..727c7e3 100644
--- a/chumpy/extras.py
+++ b/chumpy/extras.py
@@ -67,6 +67,8 @@ def moment(a, moment=1, axis=0):
             # the input was 1D, so return a scalar instead of a rank-0 array
             return np.float64(0.0)
     else:
-        mn = ch.expand_dims(a.mean(axis=axis), axis)
+        shape = list(a.shape)
+        shape[axis] = 1
+        mn = a.mean(axis=axis).reshape(tuple(shape))
         s = ch.power((a-mn), moment)
         return s.mean(axis=axis)
-- 
2.43.0


From 8e8288fb158449e6690d66ef2dff1f3d312f99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:21 +0000
Subject: [PATCH 24/47] fix: sum scalar and sparse contributions to a 1x1
 derivative

---
 chumpy/ch.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index b85f0aa..9be49af 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -55,6 +55,11 @@ def _check_kw_conflict(cls):
         raise Exception("In class %s, don't use reserved keywords in terms/dterms: %s" % (str(cls), str(kw_conflict),))
 
 
+def _sum_drs(drs):
+    # A 1x1 derivative may be a plain number, which can't be added to a sparse matrix
+    return reduce(lambda x, y: x+y, [d if len(np.shape(d))==2 else np.atleast_2d(d) for d in drs])
+
+
 class Term(object):
     creation_counter = 0
     def __init__(self, default=None, desc=None, dr=True):
@@ -675,7 +680,7 @@ class Ch(object):
             result = drs[0]
 
         else:
-            result = reduce(lambda x, y: x+y, drs)
+            result = _sum_drs(drs)
 
         return result
         
@@ -784,7 +789,7 @@ class Ch(object):
             # TODO: ????????
             # result = np.sum(x for x in drs)
             if not np.any([isinstance(a, LinearOperator) for a in drs]):
-                result = reduce(lambda x, y: x+y, drs)
+                result = _sum_drs(drs)
             else:
                 result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a.dot(x)+b.dot(x),drs))
 
-- 
2.43.0


From c4bc67cb856609f5465bc0cd520d620780e26eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:38 +0000
Subject: [PATCH 25/47] fix: a concatenation's axis is one of its terms

remove_redundancy merged concatenations of the same terms along different
axes, and assigning the axis did not invalidate the result.
---
 chumpy/reordering.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 03689c3..753ca2f 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -365,6 +365,7 @@ def flipud(m):
     return m[::-1,...]
     
 class Concatenate(Ch):
+    terms = 'axis',
 
     def on_changed(self, which):
         # Terms may have been replaced or may have changed their shape
-- 
2.43.0


From ec44047edae57efbd82a9c4b0b906e4d151207b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:45 +0000
Subject: [PATCH 26/47] fix: ChGroup counted paths through its arguments twice

---
 chumpy/ch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 9be49af..ecad353 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1309,7 +1309,11 @@ class ChGroup(Ch):
         return self._result.r
        
     def compute_dr_wrt(self, wrt):
-        return self._result.dr_wrt(wrt)
+        # Only the direct dependence on wrt as an argument: dependence of our
+        # arguments on each other and on other variables is for the chain rule.
+        drs = [self._result.dr_wrt(arg) for arg in list(self.args.values()) if arg.x is wrt]
+        drs = [dr for dr in drs if dr is not None]
+        return _sum_drs(drs) if len(drs) > 0 else None
 
 from .ch_ops import *
 from .ch_ops import __all__ as all_ch_ops
-- 
2.43.0


From 4c59a10c692911944adce668a5c90b793f0ac3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:35 +0000
Subject: [PATCH 27/47] fix: an expression used for several terms of one node
 was counted once per term in the chain rule

---
 chumpy/ch.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index ecad353..4d43b52 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -60,6 +60,12 @@ def _sum_drs(drs):
     return reduce(lambda x, y: x+y, [d if len(np.shape(d))==2 else np.atleast_2d(d) for d in drs])
 
 
+def _distinct(objs):
+    # The same object may be used for several terms of a node; its derivative
+    # (which is with respect to the object) must only be accounted for once.
+    return list({id(o): o for o in objs}.values())
+
+
 class Term(object):
     creation_counter = 0
     def __init__(self, default=None, desc=None, dr=True):
@@ -661,8 +667,7 @@ class Ch(object):
         if direct_dr is not None:
             drs.append(self._superdot(lhs, direct_dr))
 
-        for k in set(self.dterms):
-            p = self.__dict__[k]
+        for p in _distinct([self.__dict__[k] for k in set(self.dterms)]):
 
             if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt):
                 if not isinstance(p, Ch):
@@ -699,8 +704,7 @@ class Ch(object):
         if direct_dr is not None:
             drs.append(direct_dr)
 
-        for k in set(self.dterms):
-            p = getattr(self, k) # self.__dict__[k]
+        for p in _distinct([getattr(self, k) for k in set(self.dterms)]):
             if hasattr(p, 'dterms') and p is not wrt: # and p.is_dr_wrt(wrt):
                 lhs_for_child = self.compute_lop(p, lhs)
                 if lhs_for_child is not None: # Can be None with ChLambda, _result etc
@@ -754,9 +758,7 @@ class Ch(object):
             self._status = 'pending'
         
         propnames = set(_props_for(self.__class__))
-        for k in set(self.dterms).intersection(propnames.union(set(self.__dict__.keys()))):
-
-            p = getattr(self, k)
+        for p in _distinct([getattr(self, k) for k in set(self.dterms).intersection(propnames.union(set(self.__dict__.keys())))]):
 
             if hasattr(p, 'dterms') and p is not wrt:
 
-- 
2.43.0


From 7b0d352d6d585d8a2b176c4778a3a4c602b43cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:16 +0000
Subject: [PATCH 28/47] fix: derivative of a transpose whose axes are given as
 a single number

---
 chumpy/reordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 753ca2f..421d10b 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -123,7 +123,7 @@ class transpose(Reorder):
     term_order = 'a', 'axes'
 
     def reorder(self, a):    return np.require(np.transpose(a, axes=self.axes), requirements='C')        
-    def unique_reorder_id(self): return (self.a.shape, None if self.axes is None else tuple(self.axes))
+    def unique_reorder_id(self): return (self.a.shape, None if self.axes is None else tuple(np.atleast_1d(self.axes)))
     def on_changed(self, which):
         if not hasattr(self, 'axes'):
             self.axes = None
-- 
2.43.0


From 108525e628ef09f235dffc391a2ae5751ac04152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:13 +0000
Subject: [PATCH 29/47] fix: reverse mode lost derivatives with respect to a
 slice of a variable

---
 chumpy/ch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 4d43b52..67687b6 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -667,9 +667,14 @@ class Ch(object):
         if direct_dr is not None:
             drs.append(self._superdot(lhs, direct_dr))
 
+        # A view of something we depend on need not be part of our own expression
+        base = wrt
+        while issubclass(base.__class__, Permute):
+            base = base.a
+
         for p in _distinct([self.__dict__[k] for k in set(self.dterms)]):
 
-            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt):
+            if hasattr(p, 'dterms') and p is not wrt and (p is base or p.is_dr_wrt(base)):
                 if not isinstance(p, Ch):
                     print('BROKEN!')
                     raise Exception('Broken Should be Ch object')
-- 
2.43.0


From a30f9e38e1f2ced9a6e3b6147564031d4cb00f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:08 +0000
Subject: [PATCH 30/47] fix: replacing a term by an expression of that term
 could make the expression contain itself

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 67687b6..9719a2c 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -472,7 +472,7 @@ class Ch(object):
             term = getattr(self, term_name)
             if term is old:
                 setattr(self, term_name, new)
-            elif hasattr(term, 'dterms'):
+            elif hasattr(term, 'dterms') and term is not new: # "new" may itself be made from "old"
                 term.replace(old, new)
         return new
   
-- 
2.43.0


From fcd30ee37635b6590b0365b91654732fd99a4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:52 +0000
Subject: [PATCH 31/47] fix: copying or unpickling a node that uses one object
 for two terms raised KeyError

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 9719a2c..7bc9bc7 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -399,7 +399,7 @@ class Ch(object):
             if hasattr(self, name):
                 term = getattr(self, name)
                 if self in term._parents:
-                    term._parents[self]['varnames'].remove(name)
+                    term._parents[self]['varnames'].discard(name)
                     if len(term._parents[self]['varnames']) == 0:
                         del term._parents[self]
                     
-- 
2.43.0


From 0eac6b60066ddca25c95cc17f0ef9bb4bd736dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:27 +0000
Subject: [PATCH 32/47] fix: Jacobians wrt a view were stale after the view was
 pointed at another array

---
 chumpy/ch.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 7bc9bc7..b364e17 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -409,6 +409,12 @@ class Ch(object):
             else:
                 value._parents[self]['varnames'].add(name)
 
+        # Jacobians wrt a view are also kept by nodes that use what is viewed
+        # and not the view, so they go when the view is pointed elsewhere
+        retargeted = (name_in_dterms or name_in_terms) and name in self.__dict__ and isinstance(self, Permute)
+        if retargeted:
+            self._clear_drs_of_viewed()
+
         if name_in_dterms or name_in_terms:            
             self._dirty_vars.add(name)
             self._invalidate_cacheprop_names([name])
@@ -418,6 +424,21 @@ class Ch(object):
             self.clear_cache(itr)
             
         object.__setattr__(self, name, value)
+        if retargeted:
+            self._clear_drs_of_viewed()
+
+    def _clear_drs_of_viewed(self):
+        viewed = self
+        while isinstance(viewed, Permute) and hasattr(viewed, 'a'):
+            viewed = viewed.a
+        todo = [viewed]
+        done = set([])
+        while len(todo) > 0:
+            next = todo.pop()
+            if id(next) not in done:
+                next._cache['drs'].clear()
+                todo += list(next._parents.keys())
+                done.add(id(next))
           
     def _invalidate_cacheprop_names(self, names):
         nameset = set(names)
-- 
2.43.0


From 8f5e027c2d0e5d8f779706a87707d4814be1cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:20 +0000
Subject: [PATCH 33/47] fix: derivative of extrema along an axis of arrays with
 axes of length one

---
 chumpy/ch_ops.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index c250327..355b64b 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -648,9 +648,8 @@ class A_extremum(Ch):
             # np.amin here probably
             idxs = np.arange(mtx.size).reshape(mtx.shape)
             mn = np.amin(idxs, axis=axis)
-            mtx_strides = np.array(mtx.strides)
-            stride = mtx_strides / np.min(mtx_strides) # go from bytes to num elements
-            stride = stride[axis]
+            # mtx's own strides say nothing about axes of length one
+            stride = idxs.strides[axis] // idxs.itemsize # go from bytes to num elements
         return mn, stride
 
 
-- 
2.43.0


From 4f355768ca3200b2ffd3963921661cdf532fcd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 34/47] fix: Newton-CG used the Hessian of the starting point
 throughout

---
 chumpy/optimization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 5dafc8f..b5d874b 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -66,7 +66,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                 hessp.J = J
                 hessp.H = 2. * J.T.dot(J)
-                hessp.vs = vs
+                hessp.vs = vs.copy() # some methods update vs in place
             return np.array(hessp.H.dot(p)).ravel()
             #return 2*np.array(hessp.J.T.dot(hessp.J.dot(p))).ravel()
             
@@ -121,7 +121,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
             result = np.concatenate([jac.ravel() for jac in jacs])
 
         scalar_jacfunc.J = result
-        scalar_jacfunc.vs = vs
+        scalar_jacfunc.vs = vs.copy()
         return result.ravel()
         
     def ns_jacfunc(vs,obj, obj_scalar, free_variables):
@@ -135,7 +135,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         result = hstack(jacs)
 
         ns_jacfunc.J = result
-        ns_jacfunc.vs = vs
+        ns_jacfunc.vs = vs.copy()
         return result
 
         
-- 
2.43.0


From c0c68c3ffc38d2046195cbfa9c073b20392b8ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 35/47] fix: dogleg raised AssertionError where a sparse
 Jacobian is zero

---
 chumpy/optimization_internal.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index c858df2..1276a6b 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -308,7 +308,6 @@ class DoglegState(object):
             tm2 = timer()
             self.J = self.J.tocsr()
             pif('converted to csr in {}secs'.format(tm2()))
-            assert(self.J.nnz > 0)
         elif ch.VERBOSE:
             nonzero = np.count_nonzero(self.J)
             pif('Jacobian dense with sparsity %.3f' % (nonzero/self.J.size))
-- 
2.43.0


From b03ba7bfe5a5304f52a6dfd6a82dbb3677483e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:25 +0000
Subject: [PATCH 36/47] fix: dogleg never returned when no step can be computed
 at the starting point

---
 chumpy/optimization_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 1276a6b..4c47951 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -443,7 +443,7 @@ def minimize_dogleg(obj, free_variables, on_step=None,
                     obj.on_changed('x') # copies from flat vector to free variables
                 # update our trust region
                 state.updateRadius(trial.rho)
-                if state.delta <= e_2*np.linalg.norm(state.p):
+                if not state.delta > e_2*np.linalg.norm(state.p): # also when delta is not a number
                     stop('stopping because trust region is too small')
             if state.done or trial.is_improvement or (obj.fevals >= max_fevals):
                 break
-- 
2.43.0


From b4f616d6e901db215a5b47c9d3c9f87119ccd2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:18 +0000
Subject: [PATCH 37/47] fix: let hess and hessp of a minimisation share their
 matrix consistently

---
 chumpy/optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index b5d874b..7e6e3ad 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -78,6 +78,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 if np.max(np.abs(vs-hessp.vs)) > 0:
                     J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                     hessp.H = 2. * J.T.dot(J)
+                    hessp.vs = vs.copy() # hessp uses the same H
                 return hessp.H
         
     def changevars(vs, obj, obj_scalar, free_variables):
-- 
2.43.0


From 541f5e6b8e0e3da10dd20d4c432f78661d65aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:34 +0000
Subject: [PATCH 38/47] fix: sum three or more derivatives when one is a
 LinearOperator

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index b364e17..9ef1921 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -819,7 +819,7 @@ class Ch(object):
             if not np.any([isinstance(a, LinearOperator) for a in drs]):
                 result = _sum_drs(drs)
             else:
-                result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a.dot(x)+b.dot(x),drs))
+                result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a+b, [dr.dot(x) for dr in drs]))
 
         # TODO: figure out how/whether to do this.
         if result is not None and not sp.issparse(result):
-- 
2.43.0


From dc8f177ae42f053eb4db423218295823a37eb8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 39/47] fix: reverse mode raised where a LinearOperator meets a
 sparse derivative

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 9ef1921..b5154ea 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -796,7 +796,7 @@ class Ch(object):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
                         tm_dr_wrt.resume()
-                        indirect_dr = lhs.matmat(dr2) if dr2 is not None else None
+                        indirect_dr = self._superdot(lhs, dr2)
                     else:
                         indirect_dr = p.lmult_wrt(lhs, wrt)
                 else: # forward mode
-- 
2.43.0


From 6d5a018a1320f904a72d7d674dd1029b5faca2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 40/47] fix: derivative of cross for other axes, dimensions and
 broadcast operands

---
 chumpy/ch_ops.py | 81 +++++++++++++++++-------------------------------
 1 file changed, 29 insertions(+), 52 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 355b64b..4731325 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -122,64 +122,41 @@ class Cross(Ch):
         return np.cross(self.a.r, self.b.r, self.axisa, self.axisb, self.axisc, self.axis)
         
     
-    def _load_crossprod_cache(self, h, w):
-        if not hasattr(self, '_w'):
-            self._w = 0
-            self._h = 0
-
-        if h!=self._h or w!=self._w:
-            sz = h*w
-            rng = np.arange(sz)
-            self._JS = np.repeat(rng.reshape((-1,w)), w, axis=0).ravel()
-            self._IS = np.repeat(rng, w)
-            self._tiled_identity = np.tile(np.eye(w), (h, 1))
-            self._h = h
-            self._w = w
-            
-        return self._tiled_identity, self._IS, self._JS, 
-            
-    
-
-    # Could be at least 2x faster, with some work
     def compute_dr_wrt(self, wrt):
         if wrt is not self.a and wrt is not self.b:
             return
 
-        sz = self.a.size
-        h, w = self.a.shape
-        tiled_identity, IS, JS = self._load_crossprod_cache(h, w)
-        
-        #import time
-        #tm = time.time()
-        result = 0.
-        if wrt is self.a:
-            rp = np.repeat(-self.b.r, w, axis=0) 
-            result = result + np.cross(
-                tiled_identity, 
-                rp,
-                self.axisa,
-                self.axisb, 
-                self.axisc, 
-                self.axis)
+        axisa, axisb, axisc = self.axisa, self.axisb, self.axisc
+        if self.axis is not None:
+            axisa, axisb, axisc = (self.axis,) * 3
+
+        # Put the vectors along the last axis, and likewise the indices of the result
+        a = np.moveaxis(self.a.r, axisa, -1)
+        b = np.moveaxis(self.b.r, axisb, -1)
+        planar = a.shape[-1] == 2 and b.shape[-1] == 2
+        rows = np.arange(self.size)
+        if planar: # only the third component is returned
+            rows = rows.reshape(np.broadcast(a[..., 0], b[..., 0]).shape + (1,))
+        else:
+            rows = np.moveaxis(rows.reshape(self.shape), axisc, -1)
 
+        IS, JS, data = [], [], []
+        def add_entries(axis, product):
+            cols = np.moveaxis(np.arange(wrt.size).reshape(wrt.shape), axis, -1)
+            for k, unit_vector in enumerate(np.eye(cols.shape[-1])):
+                dr = product(unit_vector)
+                IS.append(rows.ravel())
+                JS.append(np.broadcast_to(cols[..., k:k+1], rows.shape).ravel())
+                data.append(np.broadcast_to(dr[..., None] if planar else dr, rows.shape).ravel())
+
+        if wrt is self.a:
+            add_entries(axisa, lambda e : np.cross(e, b))
         if wrt is self.b:
-            result = result + np.cross(
-                np.repeat(-self.a.r, w, axis=0),
-                tiled_identity,
-                self.axisa,
-                self.axisb, 
-                self.axisc, 
-                self.axis)
-                
-        # rng = np.arange(sz)
-        # JS = np.repeat(rng.reshape((-1,w)), w, axis=0).ravel()
-        # IS = np.repeat(rng, w)
-        data = result.ravel()
-        result = sp.csc_matrix((data, (IS,JS)), shape=(self.size, wrt.size))
-        #import pdb; pdb.set_trace()
-        #print 'B TOOK %es' % (time.time() -tm )
-        return result
-    
+            add_entries(axisb, lambda e : np.cross(a, e))
+
+        IS, JS, data = np.concatenate(IS), np.concatenate(JS), np.concatenate(data)
+        return sp.csc_matrix((data, (IS, JS)), shape=(self.size, wrt.size))
+
 def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
     return Cross(a, b, axisa, axisb, axisc, axis)
     
-- 
2.43.0


From d00cbd39e8ef2292e9cb5013b08219c3afafaac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:25 +0000
Subject: [PATCH 41/47] fix: make_sparse nodes raised where there is no
 derivative

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index b5154ea..094c530 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -857,7 +857,7 @@ class Ch(object):
         
         if getattr(self, '_make_dense', False) and sp.issparse(result):
             result = result.todense()
-        if getattr(self, '_make_sparse', False) and not sp.issparse(result):
+        if getattr(self, '_make_sparse', False) and result is not None and not sp.issparse(result):
             result = sp.csc_matrix(result)
         
         if tm_dr_wrt() > 0.1:
-- 
2.43.0


From d9eea08613243ef66754dc192c915f85b285f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:37 +0000
Subject: [PATCH 42/47] fix: lmult_wrt raised for a term that is a property

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 094c530..e94b59c 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -693,7 +693,7 @@ class Ch(object):
         while issubclass(base.__class__, Permute):
             base = base.a
 
-        for p in _distinct([self.__dict__[k] for k in set(self.dterms)]):
+        for p in _distinct([getattr(self, k) for k in set(self.dterms)]):
 
             if hasattr(p, 'dterms') and p is not wrt and (p is base or p.is_dr_wrt(base)):
                 if not isinstance(p, Ch):
-- 
2.43.0


From f4b537e6bd664711dfe82bc9304810c71f645be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 43/47] fix: the derivative was taken to be absent after
 clear_cache_wrt

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e94b59c..2fa3f04 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -471,10 +471,10 @@ class Ch(object):
 
     def clear_cache_wrt(self, wrt, itr=None):
         if wrt in self._cache['drs']:
-            self._cache['drs'][wrt] = None
+            del self._cache['drs'][wrt]
 
         if hasattr(self, 'dr_cached') and wrt in self.dr_cached:
-            self.dr_cached[wrt] = None
+            del self.dr_cached[wrt]
 
         if itr is None or itr != self._itr:
             for parent, parent_dict in list(self._parents.items()):
-- 
2.43.0


From 10839c0ad2b302a2d225c13581a04b19828f4fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:35 +0000
Subject: [PATCH 44/47] fix: Interp3D had slopes for coordinates outside the
 image

---
 chumpy/extras.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/extras.py b/chumpy/extras.py
index 727c7e3..62adba1 100644
--- a/chumpy/extras.py
+++ b/chumpy/extras.py
@@ -29,6 +29,7 @@ class Interp3D(ch.Ch):
             locations = self.locations.r.copy()
             for i in range(3):
                 locations[:,i] = np.clip(locations[:,i], 0, self.image.shape[i]-1)
+            clamped = locations != self.locations.r # moving these has no effect
             locations = locations.astype(np.uint32)
 
             xc = col(self.gx[locations[:,0], locations[:,1], locations[:,2]])
@@ -36,6 +37,7 @@ class Interp3D(ch.Ch):
             zc = col(self.gz[locations[:,0], locations[:,1], locations[:,2]])
 
             data = np.vstack([xc.ravel(), yc.ravel(), zc.ravel()]).T.copy()
+            data[clamped] = 0
             JS = np.arange(locations.size)
             IS = JS // 3
 
-- 
2.43.0


From 130fe371270fcdf00ae42ce0d0aac1731fe26673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:48 +0000
Subject: [PATCH 45/47] fix: wrong derivative of det and slogdet for a stack of
 matrices

---
 chumpy/linalg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/chumpy/linalg.py b/chumpy/linalg.py
index 9838ebd..605ec05 100755
--- a/chumpy/linalg.py
+++ b/chumpy/linalg.py
@@ -116,6 +116,12 @@ class Pinv(Ch):
 
 
 
+def _rows_by_matrix(m):
+    # One row for each matrix of the stack m, holding the elements of its transpose
+    # in the columns that belong to that matrix
+    rows = [row(mi.T) for mi in m.reshape((-1,) + m.shape[-2:])]
+    return rows[0] if len(rows) == 1 else sp.block_diag(rows, format='csc')
+
 class LogAbsDet(Ch):
     dterms = 'x'
     
@@ -127,7 +133,7 @@ class LogAbsDet(Ch):
         
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:         
-            return row(np.linalg.inv(self.x.r).T)
+            return _rows_by_matrix(np.linalg.inv(self.x.r))
 
 class SignLogAbsDet(Ch):
     dterms = 'logabsdet',
@@ -148,7 +154,7 @@ class Det(Ch):
 
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
-            return row(self.r * np.linalg.inv(self.x.r).T)
+            return _rows_by_matrix(self.r.reshape(self.x.shape[:-2] + (1, 1)) * np.linalg.inv(self.x.r))
 
 
 class Inv(Ch):
-- 
2.43.0


From 5acc50da698a4bd75ad3f315429ff06133e78654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:34 +0000
Subject: [PATCH 46/47] fix: assigning to elements wrote into the array the
 variable was made from

---
 chumpy/ch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 2fa3f04..002ba85 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -543,7 +543,8 @@ class Ch(object):
         if hasattr(value, 'dterms'):
             raise Exception("Can't assign a Ch objects as a subset of another.")
         if type(self) == Ch:# self.is_ch_baseclass():
-            data = np.atleast_1d(np.asarray(self.x, dtype=np.float64))
+            # a copy: the array may be read-only, or used by another variable
+            data = np.atleast_1d(np.array(self.x, dtype=np.float64))
             data.__setitem__(key, value)
             self.__setattr__('x', data, itr=itr)
             return
-- 
2.43.0


From 3439f532baa74c3a5d6fba8ad8c3f0048f83e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 47/47] fix: derivative taken through a view of another operand
 where a node does not vary with the view

---
 chumpy/ch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 002ba85..b4a6ed5 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -303,6 +303,10 @@ class Ch(object):
         if result is not None:
             return result
 
+        # A term we don't vary with; that we vary with what it views is for the chain rule
+        if any([wrt is getattr(self, k) for k in self.dterms if hasattr(self, k)]):
+            return None
+
         # What allows slicing.
         if True:
             inner = wrt
-- 
2.43.0

