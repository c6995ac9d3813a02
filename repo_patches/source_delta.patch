From 96f7bbd89034a6477eced298abdc6881829809b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:11 +0000
Subject: [PATCH 01/43] fix: elementwise Jacobian of arrays whose first extent
 is one

The diagonal form was chosen by len(result), so inputs of shape (1,3) or
(1,1,1) produced a Jacobian of the wrong shape.
---
 chumpy/ch_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index f5f2f74..081cb4b 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -225,7 +225,7 @@ class UnaryElemwise(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
             result = self._d(self.x.r)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else row(result)
 
 
 class nan_to_num(UnaryElemwise):
@@ -302,7 +302,7 @@ class clip(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
             result = np.asarray((self.r != self.a_min) & (self.r != self.a_max), np.float64)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else row(result)
 
 class sum(Ch):
     dterms = 'x',
-- 
2.43.0


From 075df67cef486699dfa45db354a2b0feda849297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:11 +0000
Subject: [PATCH 02/43] fix: division of a number or array by an expression
 under Python 3 (__rtruediv__)

---
 chumpy/ch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e903df9..f485189 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1145,6 +1145,7 @@ class Ch(object):
     def __div__ (self, other): return divide(x1=self, x2=other)
     def __truediv__ (self, other): return divide(x1=self, x2=other)
     def __rdiv__(self, other): return divide(x1=other, x2=self)
+    def __rtruediv__(self, other): return divide(x1=other, x2=self)
 
     def __pow__ (self, other): return power(x=self, pow=other)
     def __rpow__(self, other): return power(x=other, pow=self)
-- 
2.43.0


From 849ba4d0a11ae3dfcbb41bdd42a823aff9141302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:17 +0000
Subject: [PATCH 03/43] fix: count an operand bound to several terms of one
 node once in dr_wrt, lop and lmult_wrt

compute_dr_wrt(p) already is the derivative with respect to every occurrence
of p, so for y = x+1 the derivative of y*y was twice too large.
---
 chumpy/ch.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index f485189..4154f7c 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -657,10 +657,12 @@ class Ch(object):
         if direct_dr != None:
             drs.append(self._superdot(lhs, direct_dr))
 
+        done = set() # an operand may be bound to several terms, but contributes once
         for k in set(self.dterms):
             p = self.__dict__[k]
 
-            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt):
+            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt) and id(p) not in done:
+                done.add(id(p))
                 if not isinstance(p, Ch):
                     print('BROKEN!')
                     raise Exception('Broken Should be Ch object')
@@ -695,9 +697,11 @@ class Ch(object):
         if direct_dr is not None:
             drs.append(direct_dr)
 
+        done = set() # an operand may be bound to several terms, but contributes once
         for k in set(self.dterms):
             p = getattr(self, k) # self.__dict__[k]
-            if hasattr(p, 'dterms') and p is not wrt: # and p.is_dr_wrt(wrt):
+            if hasattr(p, 'dterms') and p is not wrt and id(p) not in done: # and p.is_dr_wrt(wrt):
+                done.add(id(p))
                 lhs_for_child = self.compute_lop(p, lhs)
                 if lhs_for_child is not None: # Can be None with ChLambda, _result etc
                     indirect_dr = p.lop(wrt, lhs_for_child)
@@ -750,11 +754,13 @@ class Ch(object):
             self._status = 'pending'
         
         propnames = set(_props_for(self.__class__))
+        done = set() # an operand may be bound to several terms, but contributes once
         for k in set(self.dterms).intersection(propnames.union(set(self.__dict__.keys()))):
 
             p = getattr(self, k)
 
-            if hasattr(p, 'dterms') and p is not wrt:
+            if hasattr(p, 'dterms') and p is not wrt and id(p) not in done:
+                done.add(id(p))
 
                 indirect_dr = None
 
-- 
2.43.0


From 88dcabc249c7c4839fee5986116166a745999901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:18 +0000
Subject: [PATCH 04/43] fix: reverse mode with dense local Jacobians (compare
 with None by identity)

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 4154f7c..aac5330 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -654,7 +654,7 @@ class Ch(object):
 
         direct_dr = self._compute_dr_wrt_sliced(wrt)
 
-        if direct_dr != None:
+        if direct_dr is not None:
             drs.append(self._superdot(lhs, direct_dr))
 
         done = set() # an operand may be bound to several terms, but contributes once
@@ -770,7 +770,7 @@ class Ch(object):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
                         tm_dr_wrt.resume()
-                        indirect_dr = lhs.matmat(dr2) if dr2 != None else None
+                        indirect_dr = lhs.matmat(dr2) if dr2 is not None else None
                     else:
                         indirect_dr = p.lmult_wrt(lhs, wrt)
                 else: # forward mode
-- 
2.43.0


From 4e5564fa5f2c2c71fbbd8c458690a4c35fb654ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:24 +0000
Subject: [PATCH 05/43] fix: make_sparse on an expression that does not depend
 on the variable

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index aac5330..9e9947b 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -831,7 +831,7 @@ class Ch(object):
         
         if getattr(self, '_make_dense', False) and sp.issparse(result):
             result = result.todense()
-        if getattr(self, '_make_sparse', False) and not sp.issparse(result):
+        if getattr(self, '_make_sparse', False) and result is not None and not sp.issparse(result):
             result = sp.csc_matrix(result)
         
         if tm_dr_wrt() > 0.1:
-- 
2.43.0


From f2819dc569bf6eb9341729a578ff6b8d9fa43830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:30 +0000
Subject: [PATCH 06/43] fix: derivative of sort

The Jacobian was that of sorting 0..n-1, the identity, whatever the values.
---
 chumpy/reordering.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 0ab1cd3..f648fa2 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -60,6 +60,15 @@ class Sort(Reorder):
     def reorder(self, a): return np.sort(a, self.axis, self.kind, self.order)
     def unique_reorder_id(self): return None
 
+    # Unlike the other reorderings, this one depends on the values
+    def compute_dr_wrt(self, wrt):
+        if wrt is self.a:
+            ar = self.a.r
+            JS = np.argsort(ar, self.axis, self.kind, self.order)
+            if self.axis is not None:
+                JS = np.take_along_axis(np.arange(ar.size).reshape(ar.shape), JS, self.axis)
+            return sp.csc_matrix((np.ones(JS.size), (np.arange(JS.size), JS.ravel())), shape=(JS.size, ar.size))
+
 def sort(a, axis=-1, kind='quicksort', order=None):
     return Sort(a=a, axis=axis, kind=kind, order=order)
     
-- 
2.43.0


From 78d0f8d3ca2c1937e411d0ac5c86b09de92269ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:35 +0000
Subject: [PATCH 07/43] fix: derivative of tile with an integer number of
 repetitions

---
 chumpy/reordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index f648fa2..c44cc6d 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -79,7 +79,7 @@ class Tile(Reorder):
     term_order = 'a', 'reps'
     
     def reorder(self, a): return np.tile(a, self.reps)
-    def unique_reorder_id(self): return (self.a.shape, tuple(self.reps))
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.reps)))
     
 def tile(A, reps):
     return Tile(a=A, reps=reps)
-- 
2.43.0


From cada5d5bf6a3586ef7dde4c55f488794ecae3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:41 +0000
Subject: [PATCH 08/43] fix: repeat and roll remembered their Jacobian without
 the input shape

After the input changed shape, the Jacobian of the old shape was returned. A
list or array of repeats could not be looked up at all.
---
 chumpy/reordering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index c44cc6d..276a3ed 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -111,7 +111,7 @@ class Repeat(Reorder):
     terms = 'repeats', 'axis'
     
     def reorder(self, a): return np.repeat(a, self.repeats, self.axis)
-    def unique_reorder_id(self): return (self.repeats, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.repeats)), self.axis)
 
 def repeat(a, repeats, axis=None):
     return Repeat(a=a, repeats=repeats, axis=axis)
@@ -156,7 +156,7 @@ class Roll(Reorder):
     term_order = 'a', 'shift', 'axis'
     
     def reorder(self, a): return np.roll(a, self.shift, self.axis)
-    def unique_reorder_id(self): return (self.shift, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.shift)), tuple(np.atleast_1d(self.axis)))
     
 def roll(a, shift, axis=None):
     return Roll(a, shift, axis)
-- 
2.43.0


From 2efbe4c04aafee9d230cc11551fcc3b2eb087bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:46 +0000
Subject: [PATCH 09/43] fix: derivative of diag and diagflat off the diagonal

The zeros that are filled in were taken for copies of element 0.
---
 chumpy/reordering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 276a3ed..a803110 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -46,11 +46,11 @@ class Reorder(Permute):
                 ashape = a.shape
                 key = self.unique_reorder_id()
                 if key not in self.dr_lookup or key is None:
-                    JS = self.reorder(np.arange(asz).reshape(ashape))
-                    IS = np.arange(JS.size)
+                    JS = self.reorder(np.arange(1, asz+1).reshape(ashape)).ravel()
+                    IS = np.flatnonzero(JS) # zeros are filled in (by diag), not copied from the input
+                    JS = JS[IS]-1
                     data = np.ones_like(IS)
-                    shape = JS.shape
-                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS.ravel())), shape=(self.r.size, wrt.r.size))
+                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS)), shape=(self.r.size, wrt.r.size))
                 return self.dr_lookup[key]
                  
 class Sort(Reorder):
-- 
2.43.0


From aba1fb5b02729860d706a1fccb31a85817d4bdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:51 +0000
Subject: [PATCH 10/43] fix: concatenate kept its first operands, layout and
 Jacobians for ever

Re-binding an operand (also by replace) or changing the shape of one had no
effect on the value or the Jacobian, or raised. The axis is now a term, so that
changing it is noticed and remove_redundancy tells axes apart.
---
 chumpy/reordering.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index a803110..432167b 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -364,6 +364,7 @@ def flipud(m):
     return m[::-1,...]
     
 class Concatenate(Ch):
+    terms = 'axis',
 
     def on_changed(self, which):
         if not hasattr(self, 'dr_cached'):
@@ -371,9 +372,7 @@ class Concatenate(Ch):
             
     @property
     def our_terms(self):
-        if not hasattr(self, '_our_terms'):
-            self._our_terms = [getattr(self, s) for s in self.dterms]
-        return self._our_terms
+        return [getattr(self, s) for s in self.dterms]
     
     def __getstate__(self):
         # Have to get rid of WeakKeyDictionaries for serialization
@@ -386,14 +385,15 @@ class Concatenate(Ch):
                     
     @property
     def everything(self):
-        if not hasattr(self, '_everything'):
-            self._everything = np.arange(self.r.size).reshape(self.r.shape)
-            self._everything = np.swapaxes(self._everything, self.axis, 0)
-        return self._everything
+        return np.swapaxes(np.arange(self.r.size).reshape(self.r.shape), self.axis, 0)
     
     def compute_dr_wrt(self, wrt):
         if not hasattr(self, 'dr_cached'):
             self.dr_cached = weakref.WeakKeyDictionary()
+        layout = (self.axis, [(id(t), t.shape) for t in self.our_terms])
+        if layout != getattr(self, '_dr_cached_layout', None):
+            self.dr_cached.clear()
+            self._dr_cached_layout = layout
         if wrt in self.dr_cached and self.dr_cached[wrt] is not None:
             return self.dr_cached[wrt]
         
-- 
2.43.0


From 7187ea8d1a5c0412428cc05273af627a5574eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:39 +0000
Subject: [PATCH 11/43] fix: derivative of the mean over all elements of a
 multi-dimensional array

len() is the first extent, not the number of elements.
---
 chumpy/ch_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 081cb4b..66125a6 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -356,7 +356,7 @@ class mean(Ch):
         if wrt is not self.x:
             return
         if self.axis == None:
-            return row(np.ones((1, len(self.x.r))))/len(self.x.r)
+            return row(np.ones((1, self.x.r.size)))/self.x.r.size
         else:
             uid = tuple(list(self.x.shape) + [self.axis])
             if uid not in self.dr_cache:
-- 
2.43.0


From 06d74530626a7f832e92d2cfaf0905e37e3b4828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:45 +0000
Subject: [PATCH 12/43] fix: derivative of atleast_1d/2d/3d with respect to
 their direct argument

The scalar 1 is not the identity matrix when it is the final result or is added
to another term.
---
 chumpy/reordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 432167b..c186f0b 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -330,7 +330,7 @@ class AtleastNd(Ch):
         
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
-            return 1
+            return sp.eye(self.x.size, self.x.size)
 
 def atleast_nd(ndims, *arys):
     arys = [AtleastNd(x=ary, ndims=ndims) for ary in arys]
-- 
2.43.0


From 739db011bd16c5bb83e7331d78756ffcb0b7f9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:51 +0000
Subject: [PATCH 13/43] fix: derivative of ChHandle and ChLambda with respect
 to their direct operand

The scalar 1 is not the identity matrix when it is the final result or is added
to another term.
---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 9e9947b..17b78b4 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1237,7 +1237,7 @@ class ChHandle(Ch):
     
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
-            return 1
+            return sp.eye(self.x.size, self.x.size)
     
 
 class ChLambda(Ch):
@@ -1277,7 +1277,7 @@ class ChLambda(Ch):
     
     def compute_dr_wrt(self, wrt):
         if wrt is self._result:
-            return 1
+            return sp.eye(self._result.size, self._result.size)
 
 # ChGroup is similar to ChLambda in that it's designed to expose the "internal"
 # inputs of result but, unlike ChLambda, result is kept internal and called when
-- 
2.43.0


From 95f90908b06060293cf86bb6ff2b4d154c33315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:57 +0000
Subject: [PATCH 14/43] fix: derivative of an input that holds a plain number
 with respect to itself

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 17b78b4..64e29cf 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -275,7 +275,7 @@ class Ch(object):
     def compute_dr_wrt(self,wrt):
         """Default method for objects that just contain a number or ndarray"""
         if wrt is self: # special base case  
-            return sp.eye(self.x.size, self.x.size)
+            return sp.eye(self.r.size, self.r.size)
             #return np.array([[1]])
         return None
         
-- 
2.43.0


From 4b445a1513107c8f44683c58350807c7ce5db401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:02 +0000
Subject: [PATCH 15/43] fix: derivatives with respect to views of views

Only views directly on the underlying array worked, and an operation on both a
view and the array it shows lost one of the two contributions.
---
 chumpy/ch.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 64e29cf..78f0b66 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -287,29 +287,20 @@ class Ch(object):
         #     return np.array([[1]])
 
         result = self.compute_dr_wrt(wrt)
-        if result is not None:
-            return result
-
-        # What allows slicing.
-        if True:
-            inner = wrt
-            while issubclass(inner.__class__, Permute):
-                inner = inner.a
-                if inner is self: 
-                    return None
-                result = self.compute_dr_wrt(inner)
-
-                if result is not None:
-                    break
-        
-            if result is None:
-                return None
-        
-            wrt._call_on_changed()
 
-            jac = wrt.compute_dr_wrt(inner).T
+        # What allows slicing: a view stands for the elements it shows, which
+        # we may also use through any of the arrays it is a view of.
+        inner = wrt
+        while issubclass(inner.__class__, Permute):
+            inner = inner.a
+            if inner is self: 
+                break
+            dr = self.compute_dr_wrt(inner)
+            if dr is not None:
+                dr = self._superdot(dr, wrt.dr_wrt(inner).T)
+                result = dr if result is None else result + dr
 
-            return self._superdot(result, jac)
+        return result
 
 
     @property
-- 
2.43.0


From 27da5e6215cf717abad81759af5d1262ba38427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:08 +0000
Subject: [PATCH 16/43] fix: item assignment wrote into arrays owned by the
 caller or by other inputs

It also failed on read-only arrays and truncated when the array held integers.
---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 78f0b66..90f61e0 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -499,7 +499,7 @@ class Ch(object):
         if hasattr(value, 'dterms'):
             raise Exception("Can't assign a Ch objects as a subset of another.")
         if type(self) == Ch:# self.is_ch_baseclass():
-            data = np.atleast_1d(self.x)
+            data = np.array(np.atleast_1d(self.x), dtype=np.float64) # never write to an array we were given
             data.__setitem__(key, value)
             self.__setattr__('x', data, itr=itr)
             return
-- 
2.43.0


From 5a79ec918dd0f5e51abe2dcd31789f6d95eea28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:13 +0000
Subject: [PATCH 17/43] fix: item assignment through views

Values were not broadcast, and were added to and subtracted from the old ones, so
that large or non-finite old values left rounding errors or NaNs behind.
---
 chumpy/ch.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 90f61e0..5410bdf 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -523,18 +523,11 @@ class Ch(object):
                     raise Exception("Can't set array that is function of arrays.")
 
             self = self[key]
-            dr = self.dr_wrt(inner)
-            dr_rev = dr.T
-            #dr_rev = np.linalg.pinv(dr)
-            inner_shape = inner.shape
-
-            t1 = self._superdot(dr_rev, np.asarray(value).ravel())
-            t2 = self._superdot(dr_rev, self._superdot(dr, inner.x.ravel()))
-            if sp.issparse(t1): t1 = np.array(t1.todense())
-            if sp.issparse(t2): t2 = np.array(t2.todense())
-
-            inner.x = inner.x + t1.reshape(inner_shape) - t2.reshape(inner_shape)
-            #inner.x = inner.x + self._superdot(dr_rev, value.ravel()).reshape(inner_shape) - self._superdot(dr_rev, self._superdot(dr, inner.x.ravel())).reshape(inner_shape)
+            dr = sp.csr_matrix(self.dr_wrt(inner)) # a row per selected element, with a one where it lies in "inner"
+            rows, cols = dr.nonzero()
+            data = np.array(inner.r)
+            data.ravel()[cols] = np.broadcast_to(value, self.shape).ravel()[rows]
+            inner.x = data
 
 
     def __str__(self):
-- 
2.43.0


From c163ef1876c523bd56ebde7bc2d6d3353bce5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:11 +0000
Subject: [PATCH 18/43] fix: copying or unpickling an expression that uses one
 object in two places

Re-linking the first place made the second one look for a link that was not
there yet (KeyError).
---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 5410bdf..f10daae 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -377,7 +377,7 @@ class Ch(object):
             if hasattr(self, name):
                 term = getattr(self, name)
                 if self in term._parents:
-                    term._parents[self]['varnames'].remove(name)
+                    term._parents[self]['varnames'].discard(name)
                     if len(term._parents[self]['varnames']) == 0:
                         del term._parents[self]
                     
-- 
2.43.0


From 6201e512694b65f82e9cfc9053058258a00ba16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:16 +0000
Subject: [PATCH 19/43] fix: remove_redundancy did not link merged
 sub-expressions to their users

Once the merged duplicate was collected, changes below the kept one no longer
reached the expressions that now used it.
---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index f10daae..c6f483a 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -234,7 +234,7 @@ class Ch(object):
             if sid not in cache:
                 cache[sid] = prop
             elif self.__dict__[propname] is not cache[sid]:
-                self.__dict__[propname] = cache[sid]
+                setattr(self, propname, cache[sid])
                 replacement_occurred = True
             if prop.remove_redundancy(cache, iterate=False):
                 replacement_occurred = True
-- 
2.43.0


From 43a5f303149a0cb486c100563c986b56ce4d8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:23 +0000
Subject: [PATCH 20/43] fix: remove_redundancy merged independent inputs that
 held the same object

---
 chumpy/ch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index c6f483a..4a8e484 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -184,6 +184,8 @@ class Ch(object):
     @property
     def sid(self):
         """Semantic id."""
+        if self.is_ch_baseclass(): # inputs change independently, even if they are equal now
+            return (self.__class__, id(self))
         pnames = list(self.terms)+list(self.dterms)
         pnames.sort()
         return (self.__class__, tuple([(k, id(self.__dict__[k])) for k in pnames if k in self.__dict__]))
-- 
2.43.0


From f93e2824befba33124cc0612a4200dba73343d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:29 +0000
Subject: [PATCH 21/43] fix: copying a ChLambda took the function away from the
 original

---
 chumpy/ch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 4a8e484..b13c040 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1253,9 +1253,10 @@ class ChLambda(Ch):
         
     def __getstate__(self):
         # Have to get rid of lambda for serialization
-        if hasattr(self, 'lmb'):
-            self.lmb = None
-        return super(self.__class__, self).__getstate__()
+        result = super(ChLambda, self).__getstate__()
+        if 'lmb' in result:
+            result['lmb'] = None
+        return result
         
         
     def compute_r(self):
-- 
2.43.0


From 5de29f940f89c69f30fdffed26563e17df3e0875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:22 +0000
Subject: [PATCH 22/43] fix: ChLambda and ChGroup added their unused arguments
 to the terms of the whole class

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index b13c040..e618deb 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1246,7 +1246,7 @@ class ChLambda(Ch):
             if result.is_dr_wrt(arg.x):
                 self.add_dterm(argname, arg.x)
             else:
-                self.terms.append(argname)
+                self.terms = list(self.terms) + [argname]
                 setattr(self, argname, arg.x)
         self.args = args
         self.add_dterm('_result', result)
@@ -1290,7 +1290,7 @@ class ChGroup(Ch):
             if result.is_dr_wrt(arg.x):
                 self.add_dterm(argname, arg.x)
             else:
-                self.terms.append(argname)
+                self.terms = list(self.terms) + [argname]
                 setattr(self, argname, arg.x)
         self._result = result
         
-- 
2.43.0


From 38d7610372e1df39d8ce5a5d247c6d93e9c664d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:28 +0000
Subject: [PATCH 23/43] fix: replace of an input by an expression of that input

A sub-expression reached twice got its replacement replaced again, inside
itself.
---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e618deb..4fa317e 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -452,7 +452,7 @@ class Ch(object):
             term = getattr(self, term_name)
             if term is old:
                 setattr(self, term_name, new)
-            elif hasattr(term, 'dterms'):
+            elif hasattr(term, 'dterms') and term is not new:
                 term.replace(old, new)
         return new
   
-- 
2.43.0


From ba0523c59506fd968b1f6aaaea069590e23f7d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:34 +0000
Subject: [PATCH 24/43] fix: Hessians of vector objectives in minimize (hstack
 was not defined)

---
 chumpy/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 4f68b65..5dafc8f 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -13,7 +13,7 @@ from . import ch
 import scipy.sparse as sp
 import scipy.optimize
 
-from .optimization_internal import minimize_dogleg
+from .optimization_internal import minimize_dogleg, hstack
 
 #from memory_profiler import profile, memory_usage
 
-- 
2.43.0


From 4517b58b6415ae58da3ce8a65ab50308cfcfb2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:39 +0000
Subject: [PATCH 25/43] fix: minimize remembered query points by reference, or
 not at all

A solver that reuses its buffer, or asks for a Hessian in between Hessian
products, was given the derivative at another point.
---
 chumpy/optimization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 5dafc8f..95d2408 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -66,7 +66,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                 hessp.J = J
                 hessp.H = 2. * J.T.dot(J)
-                hessp.vs = vs
+                hessp.vs = vs.copy()
             return np.array(hessp.H.dot(p)).ravel()
             #return 2*np.array(hessp.J.T.dot(hessp.J.dot(p))).ravel()
             
@@ -78,6 +78,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 if np.max(np.abs(vs-hessp.vs)) > 0:
                     J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                     hessp.H = 2. * J.T.dot(J)
+                    hessp.vs = vs.copy()
                 return hessp.H
         
     def changevars(vs, obj, obj_scalar, free_variables):
@@ -121,7 +122,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
             result = np.concatenate([jac.ravel() for jac in jacs])
 
         scalar_jacfunc.J = result
-        scalar_jacfunc.vs = vs
+        scalar_jacfunc.vs = vs.copy()
         return result.ravel()
         
     def ns_jacfunc(vs,obj, obj_scalar, free_variables):
@@ -135,7 +136,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         result = hstack(jacs)
 
         ns_jacfunc.J = result
-        ns_jacfunc.vs = vs
+        ns_jacfunc.vs = vs.copy()
         return result
 
         
-- 
2.43.0


From 840bcd7de7da7ad936bd1a331d2801c375fe0945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:26 +0000
Subject: [PATCH 26/43] fix: derivative of max/min along an axis of arrays with
 an axis of extent one

NumPy leaves the stride of such an axis unspecified (zero for x[:,None]), so
element offsets computed from strides were wrong.
---
 chumpy/ch_ops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 66125a6..eedab31 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -647,9 +647,9 @@ class A_extremum(Ch):
             # np.amin here probably
             idxs = np.arange(mtx.size).reshape(mtx.shape)
             mn = np.amin(idxs, axis=axis)
-            mtx_strides = np.array(mtx.strides)
-            stride = mtx_strides / np.min(mtx_strides) # go from bytes to num elements
-            stride = stride[axis]
+            # number of elements to skip; the strides of the array itself
+            # are arbitrary along axes of extent one
+            stride = int(np.prod(mtx.shape[axis:][1:]))
         return mn, stride
 
 
-- 
2.43.0


From 8943055cb59544a0339617043c2d22ff73ebf1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:33 +0000
Subject: [PATCH 27/43] fix: moments of vectors

---
 chumpy/extras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chumpy/extras.py b/chumpy/extras.py
index 7043f57..e05833e 100644
--- a/chumpy/extras.py
+++ b/chumpy/extras.py
@@ -67,6 +67,8 @@ def moment(a, moment=1, axis=0):
             # the input was 1D, so return a scalar instead of a rank-0 array
             return np.float64(0.0)
     else:
-        mn = ch.expand_dims(a.mean(axis=axis), axis)
+        mn = a.mean(axis=axis)
+        if a.ndim > 1: # otherwise, the mean has one element already
+            mn = ch.expand_dims(mn, axis)
         s = ch.power((a-mn), moment)
         return s.mean(axis=axis)
-- 
2.43.0


From a5734803e61af4cadfb1017ee5ad73e5a526d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:39 +0000
Subject: [PATCH 28/43] fix: sum of derivative contributions of which one is a
 plain number and one is sparse

---
 chumpy/ch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 4fa317e..cc2dbee 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -34,6 +34,10 @@ def pif(msg):
     if DEBUG or VERBOSE:
         sys.stdout.write(msg + '\n')
 
+def _sum_of_drs(drs):
+    # Local derivatives of single elements may be plain numbers, which can't be added to sparse matrices
+    return reduce(lambda x, y: x+y, [dr if sp.issparse(dr) else np.atleast_2d(dr) for dr in drs])
+
 _props_for_dict = weakref.WeakKeyDictionary()
 def _props_for(cls):
     if cls not in _props_for_dict:
@@ -300,7 +304,7 @@ class Ch(object):
             dr = self.compute_dr_wrt(inner)
             if dr is not None:
                 dr = self._superdot(dr, wrt.dr_wrt(inner).T)
-                result = dr if result is None else result + dr
+                result = dr if result is None else _sum_of_drs([result, dr])
 
         return result
 
@@ -664,7 +668,7 @@ class Ch(object):
             result = drs[0]
 
         else:
-            result = reduce(lambda x, y: x+y, drs)
+            result = _sum_of_drs(drs)
 
         return result
         
@@ -777,7 +781,7 @@ class Ch(object):
             # TODO: ????????
             # result = np.sum(x for x in drs)
             if not np.any([isinstance(a, LinearOperator) for a in drs]):
-                result = reduce(lambda x, y: x+y, drs)
+                result = _sum_of_drs(drs)
             else:
                 result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a.dot(x)+b.dot(x),drs))
 
-- 
2.43.0


From cdc5d1649bc3d815d130b8f94ca321d5f52542df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:04 +0000
Subject: [PATCH 29/43] fix: transpose method with the axes given as separate
 arguments

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index cc2dbee..d2bda15 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -556,7 +556,7 @@ class Ch(object):
         return transpose(self)
         
     def transpose(self, *axes):
-        return transpose(self, *axes)
+        return transpose(self, *(axes if len(axes) < 2 else [axes]))
         
     def squeeze(self, axis=None):
         return squeeze(self, axis)
-- 
2.43.0


From f5df57b85d81d9026b42a7084aed9ef67410e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:11 +0000
Subject: [PATCH 30/43] fix: hstack of vectors

As in NumPy, vectors are joined along their only axis.
---
 chumpy/reordering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index c186f0b..d63ed78 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -454,7 +454,8 @@ def concatenate(mtxs, axis=0, **kwargs):
     return result
     
 def hstack(mtxs, **kwargs):
-    return concatenate(mtxs, axis=1, **kwargs)
+    mtxs = list(mtxs)
+    return concatenate(mtxs, axis=0 if np.ndim(mtxs[0]) < 2 else 1, **kwargs)
 
 def vstack(mtxs, **kwargs):
     return concatenate([atleast_2d(m) for m in mtxs], axis=0, **kwargs)
-- 
2.43.0


From e6b18acde1f550236412bfe1181496d5d1fb2a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:21 +0000
Subject: [PATCH 31/43] fix: derivative of an operation on both a view and the
 array it shows

The derivative with respect to an operand that is a view also counted the use
of the array the view shows, so that x.T.dot(x) counted it twice.
---
 chumpy/ch.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index d2bda15..33fd68a 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -657,7 +657,7 @@ class Ch(object):
                     print('BROKEN!')
                     raise Exception('Broken Should be Ch object')
 
-                indirect_dr = p.lmult_wrt(self._superdot(lhs, self._compute_dr_wrt_sliced(p)), wrt)
+                indirect_dr = p.lmult_wrt(self._superdot(lhs, self.compute_dr_wrt(p)), wrt)
                 if indirect_dr is not None:
                     drs.append(indirect_dr)
 
@@ -674,7 +674,7 @@ class Ch(object):
         
         
     def compute_lop(self, wrt, lhs):
-        dr = self._compute_dr_wrt_sliced(wrt)
+        dr = self.compute_dr_wrt(wrt)
         if dr is None: return None
         return self._superdot(lhs, dr) if not isinstance(lhs, LinearOperator) else lhs.matmat(dr)
         
@@ -687,6 +687,13 @@ class Ch(object):
         if direct_dr is not None:
             drs.append(direct_dr)
 
+        inner = wrt # see _compute_dr_wrt_sliced
+        while issubclass(inner.__class__, Permute) and inner.a is not self:
+            inner = inner.a
+            direct_dr = self.compute_lop(inner, lhs)
+            if direct_dr is not None:
+                drs.append(self._superdot(direct_dr, wrt.dr_wrt(inner).T))
+
         done = set() # an operand may be bound to several terms, but contributes once
         for k in set(self.dterms):
             p = getattr(self, k) # self.__dict__[k]
@@ -715,7 +722,7 @@ class Ch(object):
         return result
         
     def compute_rop(self, wrt, rhs):
-        dr = self._compute_dr_wrt_sliced(wrt)
+        dr = self.compute_dr_wrt(wrt)
         if dr is None: return None
         
         return self._superdot(dr, rhs)
@@ -755,7 +762,7 @@ class Ch(object):
                 indirect_dr = None
 
                 if reverse_mode:
-                    lhs = self._compute_dr_wrt_sliced(p)
+                    lhs = self.compute_dr_wrt(p)
                     if isinstance(lhs, LinearOperator):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
-- 
2.43.0


From 82534981b1a2d06fba08fd3d523fb0914a774a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:27 +0000
Subject: [PATCH 32/43] fix: derivative of the cross product of an array with
 itself

---
 chumpy/ch_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index eedab31..da0288e 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -144,6 +144,8 @@ class Cross(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is not self.a and wrt is not self.b:
             return
+        if self.a is self.b: # always zero
+            return
 
         sz = self.a.size
         h, w = self.a.shape
-- 
2.43.0


From 78d7f433c049fc4e91e85afbd744660cba24dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:47 +0000
Subject: [PATCH 33/43] fix: derivative of dot with a second operand of more
 than two dimensions

---
 chumpy/ch_ops.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index da0288e..123cc9b 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -735,7 +735,7 @@ class dot(Ch):
     def compute_d1(self):
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.rollaxis(self.b.r, -2).reshape((self.b.r.shape[-2], -1))
 
         if ar.ndim <= 2:
             return sp.kron(sp.eye(ar.shape[0], ar.shape[0]),br.T)
@@ -746,12 +746,17 @@ class dot(Ch):
         
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.rollaxis(self.b.r, -2).reshape((self.b.r.shape[-2], -1))
 
         if br.ndim <= 1:
             return self.ar
         elif br.ndim <= 2:
-            return sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            result = sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            if self.b.r.ndim > 2:
+                # back from (summed axis first) to the order of the elements of b
+                where = np.rollaxis(np.arange(self.b.r.size).reshape(self.b.r.shape), -2).ravel()
+                result = result.tocsc()[:, np.argsort(where)]
+            return result
         else:
             raise NotImplementedError
             
-- 
2.43.0


From 56a06b056ee08f6645a7b88f828e13826fa82742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:47 +0000
Subject: [PATCH 34/43] fix: reverse mode with respect to views

The graph need not contain a view for it to depend on the elements it shows.
---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 33fd68a..13ca58c 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -651,7 +651,7 @@ class Ch(object):
         for k in set(self.dterms):
             p = self.__dict__[k]
 
-            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt) and id(p) not in done:
+            if hasattr(p, 'dterms') and p is not wrt and (p.is_dr_wrt(wrt) or issubclass(wrt.__class__, Permute)) and id(p) not in done:
                 done.add(id(p))
                 if not isinstance(p, Ch):
                     print('BROKEN!')
-- 
2.43.0


From f28a553b6ebce7655de9cef8b8949c65caff45fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:51 +0000
Subject: [PATCH 35/43] fix: shallow copies shared the change tracking of the
 original

copy.copy(node) shared _dirty_vars and _depends_on_deps, so that a @depends_on
property of one showed the value computed for the other.
---
 chumpy/ch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 13ca58c..aa76eb3 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -343,6 +343,9 @@ class Ch(object):
         result = external_copy.copy(self.__dict__)
         del result['_parents']
         del result['_cache']
+        # A copy must not share our bookkeeping
+        result['_dirty_vars'] = set(self._dirty_vars)
+        result['_depends_on_deps'] = {k: dict(v) for k, v in self._depends_on_deps.items()}
         return result
 
     def __setstate__(self, d):
-- 
2.43.0


From d015f36e3bf10103e1063399b4cb41833fefc9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:57 +0000
Subject: [PATCH 36/43] fix: ChGroup counted derivatives below its exposed
 inputs twice

---
 chumpy/ch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index aa76eb3..a8a3a0e 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1312,7 +1312,13 @@ class ChGroup(Ch):
         return self._result.r
        
     def compute_dr_wrt(self, wrt):
-        return self._result.dr_wrt(wrt)
+        # Partial derivatives: what lies below an exposed input is reached through that input
+        args = [arg for argname, arg in list(self.args.items()) if getattr(self, argname) is wrt]
+        if len(args) > 0:
+            drs = [dr for dr in [self._result.dr_wrt(arg) for arg in args] if dr is not None]
+            return _sum_of_drs(drs) if len(drs) > 0 else None
+        if not any(arg.is_dr_wrt(wrt) for arg in list(self.args.values())):
+            return self._result.dr_wrt(wrt)
 
 from .ch_ops import *
 from .ch_ops import __all__ as all_ch_ops
-- 
2.43.0


From 490361fb59cdc0b9cab24d146efe25017d389060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:31 +0000
Subject: [PATCH 37/43] fix: dogleg with several selections of one array as
 free variables

---
 chumpy/optimization_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 1043633..3b897db 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -90,7 +90,7 @@ class ChInputsStacked(ch.Ch):
                     while len(selects) > 0:
                         idxs = idxs[selects.pop()]
                     newv.ravel()[idxs] = self.x.r.ravel()[rng]
-                    a.__setattr__('x', newv, _giter)
+                    a.x = newv # not with _giter, since we may free several selections of one array
                 elif isinstance(self.free_variables[idx].x, np.ndarray):
                     self.free_variables[idx].__setattr__('x', self.x.r[rng].copy().reshape(self.free_variables[idx].x.shape), _giter)
                 else: # a number
-- 
2.43.0


From 415a9270f57f4e9461ff1d8a12628909ae12fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:36 +0000
Subject: [PATCH 38/43] fix: dogleg tried the same step forever once the
 objective was nan there

---
 chumpy/optimization_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 3b897db..5ccc137 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -351,7 +351,7 @@ class DoglegState(object):
     def updateRadius(self, rho, lb=.05, ub=.9):
         if rho > ub:
             self.delta = max(self.delta, 2.5*np.linalg.norm(self.d_dl))
-        elif rho < lb:
+        elif not rho >= lb: # also if rho is nan
             self.delta *= .25
 
 
-- 
2.43.0


From f3af87d7117d285dcfc1e014e8beb1df17f93ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:40 +0000
Subject: [PATCH 39/43] fix: dogleg made an iteration even if none, or no
 further evaluation, was allowed

---
 chumpy/optimization_internal.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 5ccc137..3270f2a 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -413,8 +413,15 @@ def minimize_dogleg(obj, free_variables, on_step=None,
             pif(msg)
         state.done = True
 
+    def check_limits():
+        if state.iteration >= maxiter:
+            stop('stopping because max number of user-specified iterations (%d) has been met' % maxiter)
+        elif obj.fevals >= max_fevals:
+            stop('stopping because max number of user-specified func evals (%d) has been met' % max_fevals)
+
     if np.linalg.norm(state.g, np.inf) < e_1:
         stop('stopping because norm(g, np.inf) < %.2e' % e_1)
+    check_limits()
     while not state.done:
         state.start_iteration()
         while True:
@@ -448,8 +455,5 @@ def minimize_dogleg(obj, free_variables, on_step=None,
                     stop('stopping because trust region is too small')
             if state.done or trial.is_improvement or (obj.fevals >= max_fevals):
                 break
-        if state.iteration >= maxiter:
-            stop('stopping because max number of user-specified iterations (%d) has been met' % maxiter)
-        elif obj.fevals >= max_fevals:
-            stop('stopping because max number of user-specified func evals (%d) has been met' % max_fevals)
+        check_limits()
     return obj.free_variables
-- 
2.43.0


From 21bdac3f14980c9ca5068879076052aafcb1c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:51 +0000
Subject: [PATCH 40/43] fix: classes taken for others that existed before

The classes whose terms are set up were remembered by id, which may be reused
once a class is gone.
---
 chumpy/ch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index a8a3a0e..809870c 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -77,7 +77,7 @@ class Ch(object):
     dterms = ['x']
     __array_priority__ = 2.0
     _cached_parms = {}
-    _setup_terms = {}
+    _setup_terms = weakref.WeakKeyDictionary()
     _default_kwargs = {'make_dense' : False, 'make_sparse' : False}
     _status = "undefined"
     
@@ -147,7 +147,7 @@ class Ch(object):
 
     @classmethod
     def setup_terms(cls):
-        if id(cls) in cls._setup_terms: return
+        if cls in cls._setup_terms: return
 
         if cls == Ch:
             return
@@ -175,7 +175,7 @@ class Ch(object):
                 cls.term_order = list(cls.terms) + list(cls.dterms)
 
         _check_kw_conflict(cls)
-        cls._setup_terms[id(cls)] = True
+        cls._setup_terms[cls] = True
 
 
     ########################################################
-- 
2.43.0


From 36f7cdf0fa64b2aad672fd73073a9df8354bc3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 41/43] fix: term order of subclasses depended on earlier use
 of the base class

A class which only declares its terms inherited the positional order made up
for its base class, but only if the base class had been instantiated before.
---
 chumpy/ch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 809870c..1674ea6 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -171,8 +171,9 @@ class Ch(object):
             cls.dterms = [t.name for t in parm_declarations if t.dr]
             cls.terms = [t.name for t in parm_declarations if not t.dr]
         else:
-            if not hasattr(cls, 'term_order'):
-                cls.term_order = list(cls.terms) + list(cls.dterms)
+            # An order made up for a base class says nothing about this one
+            if not hasattr(cls, 'term_order') or cls.term_order is getattr(cls, '_default_term_order', None):
+                cls.term_order = cls._default_term_order = list(cls.terms) + list(cls.dterms)
 
         _check_kw_conflict(cls)
         cls._setup_terms[cls] = True
-- 
2.43.0


From 64e1de1081d28da53fffbf25a63ef535edd1aa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 42/43] fix: function-defined expressions reported what they
 had been bound to before

The function was only connected to newly bound arguments when its value was
read next, so that until then dependency queries and traversals followed the
old ones.
---
 chumpy/ch.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 1674ea6..2bd20db 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1246,9 +1246,10 @@ class ChLambda(Ch):
     dterms = []
     term_order = ['lmb', 'initial_args']
 
-    def on_changed(self, which):
-        for argname in set(which).intersection(set(self.args.keys())):
-            self.args[argname].x = getattr(self, argname)
+    def __setattr__(self, name, value, itr=None):
+        super(ChLambda, self).__setattr__(name, value, itr)
+        if name in self.__dict__.get('args', {}):
+            self.args[name].x = getattr(self, name)
     
     def __init__(self, lmb, initial_args=None):
         args = {argname: ChHandle(x=Ch(idx)) for idx, argname in enumerate(inspect.getargspec(lmb)[0])}
@@ -1290,10 +1291,10 @@ class ChGroup(Ch):
     dterms = []
     term_order = ['result', 'args']
 
-    def on_changed(self, which):
-        for argname in set(which).intersection(set(self.args.keys())):
-            if not self.args[argname].x is getattr(self, argname) :
-                self.args[argname].x = getattr(self, argname)
+    def __setattr__(self, name, value, itr=None):
+        super(ChGroup, self).__setattr__(name, value, itr)
+        if name in self.__dict__.get('args', {}) and self.args[name].x is not getattr(self, name):
+            self.args[name].x = getattr(self, name)
     
     # right now the entries in args have to refer to terms/dterms of result,
     # it would be better if they could be "internal" as well, but for now the idea
-- 
2.43.0


From 5af2460492cc3dc160e1e611b5ad5ef958a7f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:36 +0000
Subject: [PATCH 43/43] fix: reading derivatives failed in debug mode for
 expressions made before it was turned on

---
 chumpy/ch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 2bd20db..a1151e7 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -740,6 +740,8 @@ class Ch(object):
 
         if wrt in self._cache['drs']:
             if DEBUG:
+                if not hasattr(self, '_cache_info'): # created before DEBUG was turned on
+                    object.__setattr__(self, '_cache_info', {})
                 if wrt not in self._cache_info:
                     self._cache_info[wrt] = 0
                 self._cache_info[wrt] +=1
-- 
2.43.0

