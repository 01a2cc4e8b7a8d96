From e1c10490563497b273705fba81ffd227a5f9bcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:15 +0000
Subject: [PATCH 01/49] fix: count a child bound to several inputs of one
 operation once in the chain rule

---
 chumpy/ch.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e903df9..cb7d34e 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -657,10 +657,12 @@ class Ch(object):
         if direct_dr != None:
             drs.append(self._superdot(lhs, direct_dr))
 
+        seen = set() # a child used under several names must be visited only once
         for k in set(self.dterms):
             p = self.__dict__[k]
 
-            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt):
+            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt) and id(p) not in seen:
+                seen.add(id(p))
                 if not isinstance(p, Ch):
                     print('BROKEN!')
                     raise Exception('Broken Should be Ch object')
@@ -695,9 +697,11 @@ class Ch(object):
         if direct_dr is not None:
             drs.append(direct_dr)
 
+        seen = set() # a child used under several names must be visited only once
         for k in set(self.dterms):
             p = getattr(self, k) # self.__dict__[k]
-            if hasattr(p, 'dterms') and p is not wrt: # and p.is_dr_wrt(wrt):
+            if hasattr(p, 'dterms') and p is not wrt and id(p) not in seen: # and p.is_dr_wrt(wrt):
+                seen.add(id(p))
                 lhs_for_child = self.compute_lop(p, lhs)
                 if lhs_for_child is not None: # Can be None with ChLambda, _result etc
                     indirect_dr = p.lop(wrt, lhs_for_child)
@@ -750,11 +754,13 @@ class Ch(object):
             self._status = 'pending'
         
         propnames = set(_props_for(self.__class__))
+        seen = set() # a child used under several names must be visited only once
         for k in set(self.dterms).intersection(propnames.union(set(self.__dict__.keys()))):
 
             p = getattr(self, k)
 
-            if hasattr(p, 'dterms') and p is not wrt:
+            if hasattr(p, 'dterms') and p is not wrt and id(p) not in seen:
+                seen.add(id(p))
 
                 indirect_dr = None
 
-- 
2.43.0


From 45c1136a9661ce82bc00e853d6dc990e78f90c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:20 +0000
Subject: [PATCH 02/49] fix: element-wise derivatives of arrays whose first
 axis has length one

---
 chumpy/ch_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index f5f2f74..6298ebd 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -225,7 +225,7 @@ class UnaryElemwise(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
             result = self._d(self.x.r)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result.ravel())
 
 
 class nan_to_num(UnaryElemwise):
@@ -302,7 +302,7 @@ class clip(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
             result = np.asarray((self.r != self.a_min) & (self.r != self.a_max), np.float64)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result.ravel())
 
 class sum(Ch):
     dterms = 'x',
-- 
2.43.0


From 89e2ab650afcac791a3a43ebb8c50c0f4660393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:25 +0000
Subject: [PATCH 03/49] fix: derivative of mean over all elements of a
 multi-dimensional array

---
 chumpy/ch_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 6298ebd..ff0bfe1 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -356,7 +356,7 @@ class mean(Ch):
         if wrt is not self.x:
             return
         if self.axis == None:
-            return row(np.ones((1, len(self.x.r))))/len(self.x.r)
+            return row(np.ones((1, self.x.r.size)))/self.x.r.size
         else:
             uid = tuple(list(self.x.shape) + [self.axis])
             if uid not in self.dr_cache:
-- 
2.43.0


From 72559d99ea055230613a59f938ccdec549800956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:30 +0000
Subject: [PATCH 04/49] fix: derivative of min/max along an axis when a
 length-one axis has an arbitrary stride

---
 chumpy/ch_ops.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index ff0bfe1..b35816d 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -647,9 +647,8 @@ class A_extremum(Ch):
             # np.amin here probably
             idxs = np.arange(mtx.size).reshape(mtx.shape)
             mn = np.amin(idxs, axis=axis)
-            mtx_strides = np.array(mtx.strides)
-            stride = mtx_strides / np.min(mtx_strides) # go from bytes to num elements
-            stride = stride[axis]
+            # memory strides of length-one axes are arbitrary, so count elements
+            stride = np.array(idxs.strides)[axis] // idxs.itemsize
         return mn, stride
 
 
-- 
2.43.0


From 9cf6bd988be96a1045368e6768c828cd4010c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:37 +0000
Subject: [PATCH 05/49] fix: derivative of maximum/minimum for large or
 infinite inputs

---
 chumpy/ch_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index b35816d..d8d8e21 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -684,9 +684,9 @@ class Extremum(Ch):
                 
         IS, JS, input_sz, output_sz = _broadcast_setup(self.a, self.b, wrt)
         if wrt is self.a:
-            whichmax = (self.r == self.f(self.a.r, self.b.r-self.f(1,-1))).ravel()
+            whichmax = (self.r == self.a.r).ravel()
         else:
-            whichmax = (self.r == self.f(self.b.r, self.a.r-self.f(1,-1))).ravel()
+            whichmax = (self.r == self.b.r).ravel()
         IS = IS[whichmax]
         JS = JS[whichmax]
         data = np.ones(JS.size)
-- 
2.43.0


From 77549c601eb381afb8aef1207466ce40d46b3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:04 +0000
Subject: [PATCH 06/49] fix: derivative of sort follows the sorting permutation
 of the values

---
 chumpy/reordering.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 0ab1cd3..d04d640 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -34,6 +34,9 @@ class Reorder(Permute):
             
     def compute_r(self):
         return self.reorder(self.a.r)
+
+    def reorder_idxs(self, idxs):
+        return self.reorder(idxs)
         
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
@@ -46,7 +49,7 @@ class Reorder(Permute):
                 ashape = a.shape
                 key = self.unique_reorder_id()
                 if key not in self.dr_lookup or key is None:
-                    JS = self.reorder(np.arange(asz).reshape(ashape))
+                    JS = self.reorder_idxs(np.arange(asz).reshape(ashape))
                     IS = np.arange(JS.size)
                     data = np.ones_like(IS)
                     shape = JS.shape
@@ -58,6 +61,12 @@ class Sort(Reorder):
     terms = 'axis', 'kind', 'order'
     
     def reorder(self, a): return np.sort(a, self.axis, self.kind, self.order)
+    def reorder_idxs(self, idxs):
+        # the permutation depends on the values being sorted
+        order = np.argsort(self.a.r, self.axis, self.kind, self.order)
+        if self.axis is None:
+            return idxs.ravel()[order]
+        return np.take_along_axis(idxs, order, self.axis)
     def unique_reorder_id(self): return None
 
 def sort(a, axis=-1, kind='quicksort', order=None):
-- 
2.43.0


From 51dfddca61bcc378b9f4408dd46f2a5592b7908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:09 +0000
Subject: [PATCH 07/49] fix: off-diagonal outputs of diag and diagflat do not
 depend on the first input element

---
 chumpy/reordering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index d04d640..6446a26 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -49,11 +49,11 @@ class Reorder(Permute):
                 ashape = a.shape
                 key = self.unique_reorder_id()
                 if key not in self.dr_lookup or key is None:
-                    JS = self.reorder_idxs(np.arange(asz).reshape(ashape))
-                    IS = np.arange(JS.size)
+                    # Number the inputs from one, because diag() pads its output with zeros
+                    JS = self.reorder_idxs(np.arange(1, asz+1).reshape(ashape)).ravel()
+                    IS = np.flatnonzero(JS)
                     data = np.ones_like(IS)
-                    shape = JS.shape
-                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS.ravel())), shape=(self.r.size, wrt.r.size))
+                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS[IS]-1)), shape=(self.r.size, wrt.r.size))
                 return self.dr_lookup[key]
                  
 class Sort(Reorder):
-- 
2.43.0


From e5e783d423ada4d6f04e4cdad436fdcd982cf0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:14 +0000
Subject: [PATCH 08/49] fix: derivative of tile with an integer and of repeat
 with a list, and of repeat after a shape change

---
 chumpy/reordering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 6446a26..eac6eba 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -79,7 +79,7 @@ class Tile(Reorder):
     term_order = 'a', 'reps'
     
     def reorder(self, a): return np.tile(a, self.reps)
-    def unique_reorder_id(self): return (self.a.shape, tuple(self.reps))
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.reps)))
     
 def tile(A, reps):
     return Tile(a=A, reps=reps)
@@ -111,7 +111,7 @@ class Repeat(Reorder):
     terms = 'repeats', 'axis'
     
     def reorder(self, a): return np.repeat(a, self.repeats, self.axis)
-    def unique_reorder_id(self): return (self.repeats, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.repeats)), self.axis)
 
 def repeat(a, repeats, axis=None):
     return Repeat(a=a, repeats=repeats, axis=axis)
-- 
2.43.0


From 5f42af9e6e721b16dbeb4f2885720a8b3504f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:18 +0000
Subject: [PATCH 09/49] fix: derivative of roll after a shape change

---
 chumpy/reordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index eac6eba..ff4f36b 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -156,7 +156,7 @@ class Roll(Reorder):
     term_order = 'a', 'shift', 'axis'
     
     def reorder(self, a): return np.roll(a, self.shift, self.axis)
-    def unique_reorder_id(self): return (self.shift, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, str(self.shift), str(self.axis))
     
 def roll(a, shift, axis=None):
     return Roll(a, shift, axis)
-- 
2.43.0


From 07bdf852ad7d99043583718be351bb49fd60bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:56 +0000
Subject: [PATCH 10/49] fix: stacked arrays follow replaced inputs, changed
 input shapes and a changed axis

---
 chumpy/reordering.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index ff4f36b..20a87b3 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -364,10 +364,21 @@ def flipud(m):
     return m[::-1,...]
     
 class Concatenate(Ch):
+    terms = 'axis',
 
     def on_changed(self, which):
         if not hasattr(self, 'dr_cached'):
             self.dr_cached = weakref.WeakKeyDictionary()
+
+        # Everything we remember is tied to our terms, their shapes, and the axis
+        terms = [getattr(self, s) for s in self.dterms]
+        layout = (self.axis, [t.shape for t in terms])
+        if layout != getattr(self, '_layout', None) or any([a is not b for a, b in zip(terms, self.our_terms)]):
+            self._our_terms = terms
+            self._layout = layout
+            self.dr_cached.clear()
+            if hasattr(self, '_everything'):
+                del self._everything
             
     @property
     def our_terms(self):
-- 
2.43.0


From 9e9b1de914fee7d06436717b7b94f4b197064afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:31 +0000
Subject: [PATCH 11/49] fix: hstack of one-dimensional arrays joins along their
 only axis

---
 chumpy/reordering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 20a87b3..bf0a982 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -465,7 +465,8 @@ def concatenate(mtxs, axis=0, **kwargs):
     return result
     
 def hstack(mtxs, **kwargs):
-    return concatenate(mtxs, axis=1, **kwargs)
+    mtxs = list(mtxs)
+    return concatenate(mtxs, axis=0 if np.ndim(mtxs[0]) < 2 else 1, **kwargs)
 
 def vstack(mtxs, **kwargs):
     return concatenate([atleast_2d(m) for m in mtxs], axis=0, **kwargs)
-- 
2.43.0


From 2b3d94ec6ef9bd3119622c1ed869ee1a85a3618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:36 +0000
Subject: [PATCH 12/49] fix: dividing a number by an expression works on Python
 3

---
 chumpy/ch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index cb7d34e..f39b724 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1151,6 +1151,7 @@ class Ch(object):
     def __div__ (self, other): return divide(x1=self, x2=other)
     def __truediv__ (self, other): return divide(x1=self, x2=other)
     def __rdiv__(self, other): return divide(x1=other, x2=self)
+    def __rtruediv__(self, other): return divide(x1=other, x2=self)
 
     def __pow__ (self, other): return power(x=self, pow=other)
     def __rpow__(self, other): return power(x=other, pow=self)
-- 
2.43.0


From b7f268f3f498fb360359185195712f130da7470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:40 +0000
Subject: [PATCH 13/49] fix: derivative with respect to a slice of a slice

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index f39b724..85c2fdc 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -307,7 +307,7 @@ class Ch(object):
         
             wrt._call_on_changed()
 
-            jac = wrt.compute_dr_wrt(inner).T
+            jac = wrt.dr_wrt(inner).T
 
             return self._superdot(result, jac)
 
-- 
2.43.0


From 11ea356ec7e2747d66d6e73a53db99daa87541fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:01 +0000
Subject: [PATCH 14/49] fix: assigning through a view stores exactly the given
 values and broadcasts scalars

---
 chumpy/ch.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 85c2fdc..2c7c41a 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -532,18 +532,17 @@ class Ch(object):
                     raise Exception("Can't set array that is function of arrays.")
 
             self = self[key]
-            dr = self.dr_wrt(inner)
-            dr_rev = dr.T
-            #dr_rev = np.linalg.pinv(dr)
-            inner_shape = inner.shape
-
-            t1 = self._superdot(dr_rev, np.asarray(value).ravel())
-            t2 = self._superdot(dr_rev, self._superdot(dr, inner.x.ravel()))
-            if sp.issparse(t1): t1 = np.array(t1.todense())
-            if sp.issparse(t2): t2 = np.array(t2.todense())
-
-            inner.x = inner.x + t1.reshape(inner_shape) - t2.reshape(inner_shape)
-            #inner.x = inner.x + self._superdot(dr_rev, value.ravel()).reshape(inner_shape) - self._superdot(dr_rev, self._superdot(dr, inner.x.ravel())).reshape(inner_shape)
+            value = np.asarray(value, np.float64)
+            if value.size == self.size:
+                value = value.ravel()
+            else:
+                value = np.broadcast_to(value, self.shape).ravel()
+
+            # Each row of dr selects the element of "inner" that we address
+            dr = sp.csr_matrix(self.dr_wrt(inner)).tocoo()
+            newx = inner.r.copy()
+            newx.ravel()[dr.col] = value[dr.row]
+            inner.x = newx
 
 
     def __str__(self):
-- 
2.43.0


From b9eea4b9304473401c16cfaff5a0bcd0f728603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:05 +0000
Subject: [PATCH 15/49] fix: derivative of a variable that holds a plain Python
 number

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 2c7c41a..0304127 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -275,7 +275,7 @@ class Ch(object):
     def compute_dr_wrt(self,wrt):
         """Default method for objects that just contain a number or ndarray"""
         if wrt is self: # special base case  
-            return sp.eye(self.x.size, self.x.size)
+            return sp.eye(self.size, self.size)
             #return np.array([[1]])
         return None
         
-- 
2.43.0


From a19a19333f3230e7d5852813085d3d1b54421604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:10 +0000
Subject: [PATCH 16/49] fix: redundancy removal keeps distinct variables apart
 and tracks the merged inputs

---
 chumpy/ch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 0304127..83dac4e 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -184,6 +184,8 @@ class Ch(object):
     @property
     def sid(self):
         """Semantic id."""
+        if type(self) == Ch: # distinct variables are never interchangeable
+            return (self.__class__, id(self))
         pnames = list(self.terms)+list(self.dterms)
         pnames.sort()
         return (self.__class__, tuple([(k, id(self.__dict__[k])) for k in pnames if k in self.__dict__]))
@@ -234,7 +236,7 @@ class Ch(object):
             if sid not in cache:
                 cache[sid] = prop
             elif self.__dict__[propname] is not cache[sid]:
-                self.__dict__[propname] = cache[sid]
+                setattr(self, propname, cache[sid])
                 replacement_occurred = True
             if prop.remove_redundancy(cache, iterate=False):
                 replacement_occurred = True
-- 
2.43.0


From e4dabea38076b22b66c29b4866b84012e025aa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:59 +0000
Subject: [PATCH 17/49] fix: reverse-mode derivatives of dense Jacobians, with
 respect to slices, and with unset inputs

---
 chumpy/ch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 83dac4e..ce66d93 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -655,14 +655,14 @@ class Ch(object):
 
         direct_dr = self._compute_dr_wrt_sliced(wrt)
 
-        if direct_dr != None:
+        if direct_dr is not None:
             drs.append(self._superdot(lhs, direct_dr))
 
         seen = set() # a child used under several names must be visited only once
         for k in set(self.dterms):
-            p = self.__dict__[k]
+            p = getattr(self, k, None)
 
-            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt) and id(p) not in seen:
+            if hasattr(p, 'dterms') and p is not wrt and id(p) not in seen:
                 seen.add(id(p))
                 if not isinstance(p, Ch):
                     print('BROKEN!')
@@ -700,7 +700,7 @@ class Ch(object):
 
         seen = set() # a child used under several names must be visited only once
         for k in set(self.dterms):
-            p = getattr(self, k) # self.__dict__[k]
+            p = getattr(self, k, None) # self.__dict__[k]
             if hasattr(p, 'dterms') and p is not wrt and id(p) not in seen: # and p.is_dr_wrt(wrt):
                 seen.add(id(p))
                 lhs_for_child = self.compute_lop(p, lhs)
@@ -771,7 +771,7 @@ class Ch(object):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
                         tm_dr_wrt.resume()
-                        indirect_dr = lhs.matmat(dr2) if dr2 != None else None
+                        indirect_dr = lhs.matmat(dr2) if dr2 is not None else None
                     else:
                         indirect_dr = p.lmult_wrt(lhs, wrt)
                 else: # forward mode
-- 
2.43.0


From 7d358ae4638dffe4d351b802d5770e059d7f0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:03 +0000
Subject: [PATCH 18/49] fix: redundancy removal in graphs whose operations have
 unset or aliased inputs

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index ce66d93..93bd1db 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -228,7 +228,7 @@ class Ch(object):
             
         replacement_occurred = False
         for propname in list(self.dterms):
-            prop = self.__dict__[propname]
+            prop = self.__dict__.get(propname)
 
             if not hasattr(prop, 'dterms'):
                 continue
-- 
2.43.0


From eac6d4ba6160c9838b88bd3cf5d077377292e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:08 +0000
Subject: [PATCH 19/49] fix: scalar shorthand for a local derivative stands for
 a multiple of the identity

---
 chumpy/ch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 93bd1db..7bcac32 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -748,6 +748,9 @@ class Ch(object):
 
         direct_dr = self._compute_dr_wrt_sliced(wrt)
 
+        if isinstance(direct_dr, numbers.Number) and wrt.size > 1:
+            direct_dr = direct_dr * sp.eye(wrt.size, wrt.size)
+
         if direct_dr is not None:
             drs.append(direct_dr)    
 
-- 
2.43.0


From 7a15724a45c9db6f1326eebcdcf90f598d02bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:13 +0000
Subject: [PATCH 20/49] fix: derivative of an expression with respect to itself
 is the identity

---
 chumpy/ch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 7bcac32..0ed62e5 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -289,6 +289,8 @@ class Ch(object):
         #     return np.array([[1]])
 
         result = self.compute_dr_wrt(wrt)
+        if result is None and wrt is self:
+            result = sp.eye(self.size, self.size)
         if result is not None:
             return result
 
-- 
2.43.0


From 1947c3207a8883316f6fd477f98bc616fd77ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:31 +0000
Subject: [PATCH 21/49] fix: derivative of cross when both inputs are one
 variable and for all axis arguments

---
 chumpy/ch_ops.py | 45 +++++++++++++++------------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index d8d8e21..8ff77c6 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -145,39 +145,24 @@ class Cross(Ch):
         if wrt is not self.a and wrt is not self.b:
             return
 
-        sz = self.a.size
-        h, w = self.a.shape
+        # Work on arrays whose vectors lie along the last axis
+        axisa, axisb, axisc = (self.axisa, self.axisb, self.axisc) if self.axis is None else [self.axis]*3
+        ar = np.moveaxis(self.a.r, axisa, -1)
+        br = np.moveaxis(self.b.r, axisb, -1)
+        h, w = ar.shape
         tiled_identity, IS, JS = self._load_crossprod_cache(h, w)
         
-        #import time
-        #tm = time.time()
+        parts = []
         if wrt is self.a:
-            rp = np.repeat(-self.b.r, w, axis=0) 
-            result = np.cross(
-                tiled_identity, 
-                rp,
-                self.axisa,
-                self.axisb, 
-                self.axisc, 
-                self.axis)
-
-        elif wrt is self.b:
-            result = np.cross(
-                np.repeat(-self.a.r, w, axis=0),
-                tiled_identity,
-                self.axisa,
-                self.axisb, 
-                self.axisc, 
-                self.axis)
-                
-        # rng = np.arange(sz)
-        # JS = np.repeat(rng.reshape((-1,w)), w, axis=0).ravel()
-        # IS = np.repeat(rng, w)
-        data = result.ravel()
-        result = sp.csc_matrix((data, (IS,JS)), shape=(self.size, wrt.size))
-        #import pdb; pdb.set_trace()
-        #print 'B TOOK %es' % (time.time() -tm )
-        return result
+            parts.append((axisa, np.cross(tiled_identity, np.repeat(-br, w, axis=0))))
+        if wrt is self.b:
+            parts.append((axisb, np.cross(np.repeat(-ar, w, axis=0), tiled_identity)))
+
+        rows = np.moveaxis(np.arange(self.size).reshape(self.shape), axisc, -1).ravel()
+        cols = np.arange(wrt.size).reshape(wrt.shape)
+        result = [sp.csc_matrix((data.ravel(), (rows[IS], np.moveaxis(cols, axis, -1).ravel()[JS])),
+            shape=(self.size, wrt.size)) for axis, data in parts]
+        return reduce(lambda x, y : x + y, result)
     
 def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
     return Cross(a, b, axisa, axisb, axisc, axis)
-- 
2.43.0


From ee3d4221d8edc62b7db2c41b98d1fcff41ea8f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:38 +0000
Subject: [PATCH 22/49] fix: derivatives of dot with a second argument of more
 than two dimensions

---
 chumpy/ch_ops.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 8ff77c6..dee0806 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -717,7 +717,7 @@ class dot(Ch):
     def compute_d1(self):
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.moveaxis(self.b.r, -2, 0).reshape((self.b.r.shape[-2], -1))
 
         if ar.ndim <= 2:
             return sp.kron(sp.eye(ar.shape[0], ar.shape[0]),br.T)
@@ -728,12 +728,16 @@ class dot(Ch):
         
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.moveaxis(self.b.r, -2, 0).reshape((self.b.r.shape[-2], -1))
 
         if br.ndim <= 1:
             return self.ar
         elif br.ndim <= 2:
-            return sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            result = sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            if self.b.r.ndim > 2: # go from columns of br to columns of b
+                cols = np.moveaxis(np.arange(self.b.size).reshape(self.b.shape), -2, 0).ravel()
+                result = result.tocsc()[:, np.argsort(cols)]
+            return result
         else:
             raise NotImplementedError
             
-- 
2.43.0


From 0fe35a268805f67a296736f90149d5835228775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:56 +0000
Subject: [PATCH 23/49] fix: transpose method accepts axes as separate
 arguments

---
 chumpy/ch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 0ed62e5..c6fa2e7 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -569,6 +569,8 @@ class Ch(object):
         return transpose(self)
         
     def transpose(self, *axes):
+        if len(axes) > 1: # as in x.transpose(2,0,1)
+            axes = (axes,)
         return transpose(self, *axes)
         
     def squeeze(self, axis=None):
-- 
2.43.0


From fa18493644b2ff107ba478f4ae9600eb55c495fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:01 +0000
Subject: [PATCH 24/49] fix: central moments of one-dimensional input

---
 chumpy/extras.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/extras.py b/chumpy/extras.py
index 7043f57..1d612bd 100644
--- a/chumpy/extras.py
+++ b/chumpy/extras.py
@@ -67,6 +67,7 @@ def moment(a, moment=1, axis=0):
             # the input was 1D, so return a scalar instead of a rank-0 array
             return np.float64(0.0)
     else:
-        mn = ch.expand_dims(a.mean(axis=axis), axis)
+        # note that the mean of a 1D input is a lifted scalar, of shape (1,)
+        mn = ch.expand_dims(a.mean(axis=axis), axis) if len(a.shape) > 1 else a.mean(axis=axis)
         s = ch.power((a-mn), moment)
         return s.mean(axis=axis)
-- 
2.43.0


From 5e869b693b546fdbea558742eb999683c19fc828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:23 +0000
Subject: [PATCH 25/49] fix: derivatives of grouped expressions whose arguments
 are expressions

---
 chumpy/ch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index c6fa2e7..1eb82f1 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1319,7 +1319,10 @@ class ChGroup(Ch):
         return self._result.r
        
     def compute_dr_wrt(self, wrt):
-        return self._result.dr_wrt(wrt)
+        # The chain rule takes care of what our arguments are made of
+        drs = [self._result.dr_wrt(arg) for argname, arg in list(self.args.items()) if getattr(self, argname) is wrt]
+        drs = [dr for dr in drs if dr is not None]
+        return reduce(lambda x, y: x+y, drs) if len(drs) > 0 else None
 
 from .ch_ops import *
 from .ch_ops import __all__ as all_ch_ops
-- 
2.43.0


From 4e2b935bb8368a848de0549bebe3fa5892df9cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:28 +0000
Subject: [PATCH 26/49] fix: dogleg with several slices of one variable as free
 variables

---
 chumpy/optimization_internal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 1043633..1c560cb 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -75,8 +75,11 @@ class ChInputsStacked(ch.Ch):
         _giter += 1
         if 'x' in which:
             pos = 0
+            # Measure everything first: reading a variable refills the caches above it
+            # half-way through the update, and these would not be cleared again
+            sizes = [freevar.r.size for freevar in self.free_variables]
             for idx, freevar in enumerate(self.free_variables):
-                sz = freevar.r.size
+                sz = sizes[idx]
                 rng = np.arange(pos, pos+sz)
                 if isinstance(self.free_variables[idx], ch.Select):
                     # Deal with nested selects
-- 
2.43.0


From 33e9ad0a33994e0d26c0fe7cd3e42d07d6a81ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:48 +0000
Subject: [PATCH 27/49] fix: dogleg terminates when a trial step yields a
 non-finite residual

---
 chumpy/optimization_internal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 1c560cb..a5b8e54 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -354,7 +354,7 @@ class DoglegState(object):
     def updateRadius(self, rho, lb=.05, ub=.9):
         if rho > ub:
             self.delta = max(self.delta, 2.5*np.linalg.norm(self.d_dl))
-        elif rho < lb:
+        elif not rho >= lb: # also when the trial was not finite
             self.delta *= .25
 
 
@@ -447,7 +447,7 @@ def minimize_dogleg(obj, free_variables, on_step=None,
                     obj.on_changed('x') # copies from flat vector to free variables
                 # update our trust region
                 state.updateRadius(trial.rho)
-                if state.delta <= e_2*np.linalg.norm(state.p):
+                if not state.delta > e_2*np.linalg.norm(state.p):
                     stop('stopping because trust region is too small')
             if state.done or trial.is_improvement or (obj.fevals >= max_fevals):
                 break
-- 
2.43.0


From 29e8d6ff105e1ba9efabdc7059f737077247655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:36 +0000
Subject: [PATCH 28/49] fix: missing import breaks minimisers that use
 second-order information

---
 chumpy/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 4f68b65..5dafc8f 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -13,7 +13,7 @@ from . import ch
 import scipy.sparse as sp
 import scipy.optimize
 
-from .optimization_internal import minimize_dogleg
+from .optimization_internal import minimize_dogleg, hstack
 
 #from memory_profiler import profile, memory_usage
 
-- 
2.43.0


From 04b9b2d3f892e37cb9cfacce8e1f6908e08d5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:42 +0000
Subject: [PATCH 29/49] fix: curvature and gradient requests are answered for
 the point asked about

---
 chumpy/optimization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 5dafc8f..95d2408 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -66,7 +66,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                 hessp.J = J
                 hessp.H = 2. * J.T.dot(J)
-                hessp.vs = vs
+                hessp.vs = vs.copy()
             return np.array(hessp.H.dot(p)).ravel()
             #return 2*np.array(hessp.J.T.dot(hessp.J.dot(p))).ravel()
             
@@ -78,6 +78,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 if np.max(np.abs(vs-hessp.vs)) > 0:
                     J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                     hessp.H = 2. * J.T.dot(J)
+                    hessp.vs = vs.copy()
                 return hessp.H
         
     def changevars(vs, obj, obj_scalar, free_variables):
@@ -121,7 +122,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
             result = np.concatenate([jac.ravel() for jac in jacs])
 
         scalar_jacfunc.J = result
-        scalar_jacfunc.vs = vs
+        scalar_jacfunc.vs = vs.copy()
         return result.ravel()
         
     def ns_jacfunc(vs,obj, obj_scalar, free_variables):
@@ -135,7 +136,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         result = hstack(jacs)
 
         ns_jacfunc.J = result
-        ns_jacfunc.vs = vs
+        ns_jacfunc.vs = vs.copy()
         return result
 
         
-- 
2.43.0


From 532100eaaee5527ebfda39792f5b83a753d2dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:47 +0000
Subject: [PATCH 30/49] fix: report which reserved names an operation uses

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 1eb82f1..8a3de83 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -52,7 +52,7 @@ def _check_kw_conflict(cls):
     if cls not in _kw_conflict_dict:
         _kw_conflict_dict[cls] = Ch._reserved_kw.intersection(set(cls.terms).union(set(cls.dterms)))
     if _kw_conflict_dict[cls]:
-        raise Exception("In class %s, don't use reserved keywords in terms/dterms: %s" % (str(cls), str(kw_conflict),))
+        raise Exception("In class %s, don't use reserved keywords in terms/dterms: %s" % (str(cls), str(_kw_conflict_dict[cls]),))
 
 
 class Term(object):
-- 
2.43.0


From 9cbe9248d0a65729ff3e7ba57cae0f078700a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:10 +0000
Subject: [PATCH 31/49] fix: refuse to minimise over a variable that the
 objective has no derivative with respect to

---
 chumpy/optimization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 95d2408..6b78367 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -113,7 +113,12 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         changevars(vs, obj, obj_scalar, free_variables)
         
         if True: # faster, at least on some problems
-            result = np.concatenate([np.array(obj_scalar.lop(wrt, np.array([[1]]))).ravel() for wrt in free_variables])            
+            grads = [obj_scalar.lop(wrt, np.array([[1]])) for wrt in free_variables]
+            if any([grad is None for grad in grads]):
+                raise Exception(
+                    'Objective has no derivative wrt a free variable. '
+                    'You should likely remove it.')
+            result = np.concatenate([np.array(grad).ravel() for grad in grads])
         else:
             jacs = [obj_scalar.dr_wrt(wrt) for wrt in free_variables]
             for idx, jac in enumerate(jacs):
-- 
2.43.0


From ae2c7600d7292f023f726100d4154529083b93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:47 +0000
Subject: [PATCH 32/49] fix: requested dense or sparse derivative format also
 holds for repeated and absent derivatives

---
 chumpy/ch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 8a3de83..ff7bc75 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -819,6 +819,11 @@ class Ch(object):
         if (result is not None) and (not sp.issparse(result)) and (not isinstance(result, LinearOperator)):
             result = np.atleast_2d(result)
         
+        if getattr(self, '_make_dense', False) and sp.issparse(result):
+            result = result.todense()
+        if getattr(self, '_make_sparse', False) and result is not None and not sp.issparse(result):
+            result = sp.csc_matrix(result)
+        
         # When the number of parents is one, it indicates that
         # caching this is probably not useful because not 
         # more than one parent will likely ask for this same
@@ -837,11 +842,6 @@ class Ch(object):
         if DEBUG:
             self._status = 'done'
         
-        if getattr(self, '_make_dense', False) and sp.issparse(result):
-            result = result.todense()
-        if getattr(self, '_make_sparse', False) and not sp.issparse(result):
-            result = sp.csc_matrix(result)
-        
         if tm_dr_wrt() > 0.1:
             pif('dx of {} wrt {} in {}sec, sparse: {}'.format(self.short_name, wrt.short_name, tm_dr_wrt(), sp.issparse(result)))
 
-- 
2.43.0


From 9ce85958da5711dac06400faff8332a3d1df87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:20 +0000
Subject: [PATCH 33/49] fix: assigning elements of a variable that holds
 integers or a read-only array

---
 chumpy/ch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index ff7bc75..0344a3a 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -512,7 +512,8 @@ class Ch(object):
         if hasattr(value, 'dterms'):
             raise Exception("Can't assign a Ch objects as a subset of another.")
         if type(self) == Ch:# self.is_ch_baseclass():
-            data = np.atleast_1d(self.x)
+            # integer contents would truncate "value", and contents taken from some ".r" are read-only
+            data = np.atleast_1d(np.require(self.x, np.float64, 'W'))
             data.__setitem__(key, value)
             self.__setattr__('x', data, itr=itr)
             return
-- 
2.43.0


From af4e32e2103f34b6485830391ae35d41c0343bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:41 +0000
Subject: [PATCH 34/49] fix: dogleg over a slice of a variable that holds
 integers

---
 chumpy/optimization_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index a5b8e54..7a36e7b 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -88,7 +88,7 @@ class ChInputsStacked(ch.Ch):
                     while isinstance(a, ch.Select):
                         selects.append(a.idxs)
                         a = a.a
-                    newv = a.x.copy()
+                    newv = np.array(a.x, np.float64, order='C')
                     idxs = selects.pop()
                     while len(selects) > 0:
                         idxs = idxs[selects.pop()]
-- 
2.43.0


From b7ea27ac3d3918df34ca21a28d2e765e76423cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:58 +0000
Subject: [PATCH 35/49] fix: scalar shorthand for a local derivative in reverse
 mode

---
 chumpy/ch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 0344a3a..4457534 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -291,6 +291,8 @@ class Ch(object):
         result = self.compute_dr_wrt(wrt)
         if result is None and wrt is self:
             result = sp.eye(self.size, self.size)
+        if isinstance(result, numbers.Number) and wrt.size > 1:
+            result = result * sp.eye(wrt.size, wrt.size)
         if result is not None:
             return result
 
@@ -753,9 +755,6 @@ class Ch(object):
 
         direct_dr = self._compute_dr_wrt_sliced(wrt)
 
-        if isinstance(direct_dr, numbers.Number) and wrt.size > 1:
-            direct_dr = direct_dr * sp.eye(wrt.size, wrt.size)
-
         if direct_dr is not None:
             drs.append(direct_dr)    
 
-- 
2.43.0


From c33e6fdd765eabcfe65ce5ece16c370df8f219e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:46 +0000
Subject: [PATCH 36/49] fix: summing one-by-one derivatives of which one is
 sparse

---
 chumpy/ch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 4457534..4dd1c0a 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -686,6 +686,7 @@ class Ch(object):
             result = drs[0]
 
         else:
+            drs = [np.atleast_2d(dr) if np.ndim(dr) == 0 else dr for dr in drs]
             result = reduce(lambda x, y: x+y, drs)
 
         return result
@@ -799,6 +800,7 @@ class Ch(object):
             # TODO: ????????
             # result = np.sum(x for x in drs)
             if not np.any([isinstance(a, LinearOperator) for a in drs]):
+                drs = [np.atleast_2d(dr) if np.ndim(dr) == 0 else dr for dr in drs]
                 result = reduce(lambda x, y: x+y, drs)
             else:
                 result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a.dot(x)+b.dot(x),drs))
-- 
2.43.0


From 0c9e9db70df22f40cf684adf9d252ba246207634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 37/49] fix: derivative of transpose with a single integer as
 axes

---
 chumpy/reordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index bf0a982..86178df 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -122,7 +122,7 @@ class transpose(Reorder):
     term_order = 'a', 'axes'
 
     def reorder(self, a):    return np.require(np.transpose(a, axes=self.axes), requirements='C')        
-    def unique_reorder_id(self): return (self.a.shape, None if self.axes is None else tuple(self.axes))
+    def unique_reorder_id(self): return (self.a.shape, None if self.axes is None else tuple(np.atleast_1d(self.axes)))
     def on_changed(self, which):
         if not hasattr(self, 'axes'):
             self.axes = None
-- 
2.43.0


From 5b9c9787a292853fac7621dff388264c218e54a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:51 +0000
Subject: [PATCH 38/49] fix: norm of infinite entries is infinite

---
 chumpy/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/linalg.py b/chumpy/linalg.py
index 9838ebd..5226bad 100755
--- a/chumpy/linalg.py
+++ b/chumpy/linalg.py
@@ -16,6 +16,7 @@ from .ch import Ch, depends_on
 from .ch_ops import NanDivide
 from .ch_ops import asarray as ch_asarray
 from .ch_ops import sqrt as ch_sqrt
+from .ch_ops import square as ch_square
 from .ch_ops import sum as ch_sum
 from .reordering import concatenate as ch_concatenate
 from .ch_random import randn as ch_random_randn
@@ -33,7 +34,7 @@ def norm(x, ord=None, axis=None):
     if ord is not None or axis is not None:
         raise NotImplementedError("'ord' and 'axis' should be None for now.")
 
-    return ch_sqrt(ch_sum(x**2))
+    return ch_sqrt(ch_sum(ch_square(x)))
 
 # This version works but derivatives are too slow b/c of nested loop in Svd implementation.
 # def lstsq(a, b):
-- 
2.43.0


From 5a0a5c6c41482035d33e84af262457e77ea5f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:06 +0000
Subject: [PATCH 39/49] fix: unpickling an operation that has one object as
 several inputs

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 4dd1c0a..61f37de 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -392,7 +392,7 @@ class Ch(object):
             if hasattr(self, name):
                 term = getattr(self, name)
                 if self in term._parents:
-                    term._parents[self]['varnames'].remove(name)
+                    term._parents[self]['varnames'].discard(name)
                     if len(term._parents[self]['varnames']) == 0:
                         del term._parents[self]
                     
-- 
2.43.0


From cb40c94cced6f20a2f9872ade5843660a86c9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:29 +0000
Subject: [PATCH 40/49] fix: minimize() through scipy follows the solver to
 non-finite points

---
 chumpy/optimization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 6b78367..c097405 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -61,7 +61,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
             changevars(vs,obj,obj_scalar,free_variables)
             if not hasattr(hessp, 'vs'):
                 hessp.vs = vs*0+1e16
-            if np.max(np.abs(vs-hessp.vs)) > 0:
+            if not np.array_equal(vs, hessp.vs):
 
                 J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                 hessp.J = J
@@ -75,7 +75,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 changevars(vs,obj,obj_scalar,free_variables)
                 if not hasattr(hessp, 'vs'):
                     hessp.vs = vs*0+1e16
-                if np.max(np.abs(vs-hessp.vs)) > 0:
+                if not np.array_equal(vs, hessp.vs):
                     J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                     hessp.H = 2. * J.T.dot(J)
                     hessp.vs = vs.copy()
@@ -87,7 +87,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         for idx, freevar in enumerate(free_variables):
             sz = freevar.r.size
             newvals = vs[cur:cur+sz].copy().reshape(free_variables[idx].shape)
-            if np.max(np.abs(newvals-free_variables[idx]).ravel()) > 0:
+            if not np.array_equal(newvals, free_variables[idx].r):
                 free_variables[idx][:] = newvals
                 changed = True
 
-- 
2.43.0


From 3a279e7e6daccdbe47ed93eca39bf6c1f061f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:55 +0000
Subject: [PATCH 41/49] fix: clear_cache_wrt forgets the derivative instead of
 reporting that there is none

---
 chumpy/ch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 61f37de..272668a 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -442,11 +442,12 @@ class Ch(object):
 
 
     def clear_cache_wrt(self, wrt, itr=None):
+        # A cached None would mean that there is no derivative
         if wrt in self._cache['drs']:
-            self._cache['drs'][wrt] = None
+            del self._cache['drs'][wrt]
 
         if hasattr(self, 'dr_cached') and wrt in self.dr_cached:
-            self.dr_cached[wrt] = None
+            del self.dr_cached[wrt]
 
         if itr is None or itr != self._itr:
             for parent, parent_dict in list(self._parents.items()):
-- 
2.43.0


From 955470900f22ceabfe5e9fc9066f61b735017627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:52 +0000
Subject: [PATCH 42/49] fix: rebinding a ChLambda argument takes effect on the
 graph at once

---
 chumpy/ch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 272668a..d7e02e4 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1256,6 +1256,12 @@ class ChLambda(Ch):
     dterms = []
     term_order = ['lmb', 'initial_args']
 
+    def __setattr__(self, name, value, itr=None):
+        super(ChLambda, self).__setattr__(name, value, itr)
+        # Whoever walks our graph before we are evaluated must not meet the previous argument
+        if name in self.__dict__.get('args', {}):
+            self.args[name].x = getattr(self, name)
+
     def on_changed(self, which):
         for argname in set(which).intersection(set(self.args.keys())):
             self.args[argname].x = getattr(self, argname)
-- 
2.43.0


From b730cb3bcdb5010c08361522b56a116e2233a63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:37 +0000
Subject: [PATCH 43/49] fix: rebinding a ChGroup argument takes effect on the
 graph at once

---
 chumpy/ch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index d7e02e4..57b77de 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1305,6 +1305,13 @@ class ChGroup(Ch):
     dterms = []
     term_order = ['result', 'args']
 
+    def __setattr__(self, name, value, itr=None):
+        super(ChGroup, self).__setattr__(name, value, itr)
+        # Whoever walks our graph before we are evaluated must not meet the previous argument
+        args = self.__dict__.get('args', {})
+        if name in args and args[name].x is not getattr(self, name):
+            args[name].x = getattr(self, name)
+
     def on_changed(self, which):
         for argname in set(which).intersection(set(self.args.keys())):
             if not self.args[argname].x is getattr(self, argname) :
-- 
2.43.0


From d42203919d972181123bae223508f60792bade4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 44/49] fix: derivatives from the cache when DEBUG was turned
 on after construction

---
 chumpy/ch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 57b77de..8099774 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -749,6 +749,7 @@ class Ch(object):
 
         if wrt in self._cache['drs']:
             if DEBUG:
+                self.__dict__.setdefault('_cache_info', {}) # DEBUG may have been turned on after we were made
                 if wrt not in self._cache_info:
                     self._cache_info[wrt] = 0
                 self._cache_info[wrt] +=1
-- 
2.43.0


From b6b77135af84414e71e8c947f0c8767793187500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:25 +0000
Subject: [PATCH 45/49] fix: operation classes created after others were
 discarded are set up

---
 chumpy/ch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 8099774..470c34e 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -73,7 +73,7 @@ class Ch(object):
     dterms = ['x']
     __array_priority__ = 2.0
     _cached_parms = {}
-    _setup_terms = {}
+    _setup_terms = weakref.WeakKeyDictionary()
     _default_kwargs = {'make_dense' : False, 'make_sparse' : False}
     _status = "undefined"
     
@@ -143,7 +143,7 @@ class Ch(object):
 
     @classmethod
     def setup_terms(cls):
-        if id(cls) in cls._setup_terms: return
+        if cls in cls._setup_terms: return
 
         if cls == Ch:
             return
@@ -171,7 +171,7 @@ class Ch(object):
                 cls.term_order = list(cls.terms) + list(cls.dterms)
 
         _check_kw_conflict(cls)
-        cls._setup_terms[id(cls)] = True
+        cls._setup_terms[cls] = True
 
 
     ########################################################
-- 
2.43.0


From 2a580ea818cc69659f926d986177cb247fe412ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:13 +0000
Subject: [PATCH 46/49] fix: setting a term together with other attributes
 takes effect more than once

---
 chumpy/ch.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 470c34e..105ccce 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -484,9 +484,15 @@ class Ch(object):
         # The complexity here comes because we wish to
         # avoid clearing cache redundantly
         if len(kwall) > 0:
-            for k in kwall[:-1]:
-                self.__setattr__(k, kwargs[k], 9999)
-            self.__setattr__(kwall[-1], kwargs[kwall[-1]], None)
+            try:
+                for k in kwall[:-1]:
+                    self.__setattr__(k, kwargs[k], 9999)
+                self.__setattr__(kwall[-1], kwargs[kwall[-1]], None)
+            finally:
+                # The mark must not outlast this call (the last name might
+                # not be a term, or could not be set)
+                if self._itr == 9999:
+                    self.clear_cache()
             
 
     def is_dr_wrt(self, wrt):
-- 
2.43.0


From 635c5cc6e63f3af91e9d697c4c5a240c1314b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:06 +0000
Subject: [PATCH 47/49] fix: positional arguments of a class that extends an
 operation which was used before

---
 chumpy/ch.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 105ccce..5d9e602 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -68,6 +68,10 @@ class Term(object):
         Term.creation_counter += 1
 
 
+class _DerivedOrder(list):
+    """A term_order that was not given by the class but follows from its terms."""
+
+
 class Ch(object):
     terms = []
     dterms = ['x']
@@ -167,8 +171,9 @@ class Ch(object):
             cls.dterms = [t.name for t in parm_declarations if t.dr]
             cls.terms = [t.name for t in parm_declarations if not t.dr]
         else:
-            if not hasattr(cls, 'term_order'):
-                cls.term_order = list(cls.terms) + list(cls.dterms)
+            # (an order that was derived for a base class says nothing about this one)
+            if not hasattr(cls, 'term_order') or isinstance(cls.term_order, _DerivedOrder):
+                cls.term_order = _DerivedOrder(list(cls.terms) + list(cls.dterms))
 
         _check_kw_conflict(cls)
         cls._setup_terms[cls] = True
-- 
2.43.0


From 13bbd26b4e6ff849bc7cfaa5e1fa623d0a24838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:43 +0000
Subject: [PATCH 48/49] fix: unused arguments of one wrapped function or group
 are not declared by all of them

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 5d9e602..a10be54 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1289,7 +1289,7 @@ class ChLambda(Ch):
             if result.is_dr_wrt(arg.x):
                 self.add_dterm(argname, arg.x)
             else:
-                self.terms.append(argname)
+                self.terms = list(self.terms) + [argname]
                 setattr(self, argname, arg.x)
         self.args = args
         self.add_dterm('_result', result)
@@ -1339,7 +1339,7 @@ class ChGroup(Ch):
             if result.is_dr_wrt(arg.x):
                 self.add_dterm(argname, arg.x)
             else:
-                self.terms.append(argname)
+                self.terms = list(self.terms) + [argname]
                 setattr(self, argname, arg.x)
         self._result = result
         
-- 
2.43.0


From d3628d8cc814fc89a5a7663f817d425d509afadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:49 +0000
Subject: [PATCH 49/49] fix: a shallow copy of an operation does not share what
 the original remembers

---
 chumpy/ch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index a10be54..f284ce2 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -357,6 +357,9 @@ class Ch(object):
         result = external_copy.copy(self.__dict__)
         del result['_parents']
         del result['_cache']
+        # A shallow copy must not share what we remember
+        result['_dirty_vars'] = set(self._dirty_vars)
+        result['_depends_on_deps'] = {k: dict(v) for k, v in self._depends_on_deps.items()}
         return result
 
     def __setstate__(self, d):
-- 
2.43.0

