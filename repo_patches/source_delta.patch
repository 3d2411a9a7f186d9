From 8bcf2aa10d662e4e661cb8603e83f62300f29ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:47 +0000
Subject: [PATCH 01/25] fix: return the second and higher derivatives of
 ELMReLU as points x functions

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 8556a15..cf94d3b 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -711,7 +711,7 @@ class ELMReLU(ELM):
         elif d == 1:
             return self._w * np.where(self._w * z + self._b > 0.0, 1.0, 0.0)
         else:
-            return np.zeros((self._m, z.size))
+            return np.zeros((z.size, self._m))
 
 
 class ELMSigmoid(ELM):
-- 
2.43.0


From 067215e67ba429aa9bfc9424a306bbc6318029e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:00 +0000
Subject: [PATCH 02/25] fix: LsClass.run works without the timer and leaves the
 caller's guess alone

The untimed branch used an undefined name, and both branches added the solution
into the dictionary the caller passed, so the results of two runs were one object.
---
 src/tfc/utils/TFCUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index d445595..7dc118e 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1031,12 +1031,12 @@ class LsClass:
             start = timer()
             xi = self._ls(zXi, *args).block_until_ready()
             stop = timer()
-            zXi += xi
+            zXi = zXi + xi
 
             return zXi, stop - start
 
         else:
-            zXi += ls(zXi, *args)
+            zXi = zXi + self._ls(zXi, *args)
 
             self._compiled = True
 
-- 
2.43.0


From bf3b8bb262564aa5a3e3fa21c375ffe0c1448cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:00 +0000
Subject: [PATCH 03/25] fix: TFCDictRobust knows the slices of NumPy values

LS starts from NumPy zeros, so it failed for every TFCDictRobust.
---
 src/tfc/utils/TFCUtils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 7dc118e..6ea3835 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -556,7 +556,10 @@ class TFCDictRobust(OrderedDict):
         """
         Function that creates slices for each of the keys in the dictionary.
         """
-        if all(isinstance(value, np.ndarray) for value in self.values()):
+        if all(
+            isinstance(value, np.ndarray) or isinstance(value, onp.ndarray)
+            for value in self.values()
+        ):
             arrLen = 0
             self._slices = [
                 slice(0, 0, 1),
-- 
2.43.0


From 2952cccb55b2b67c7bda33bc9e5a5ab98414a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:00 +0000
Subject: [PATCH 04/25] fix: use the stopping condition given to NLLS and
 NllsClass

---
 src/tfc/utils/TFCUtils.py | 40 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 6ea3835..4a803e9 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1186,16 +1186,18 @@ def NLLS(
     else:
         dictFlag = False
 
-    def cond(val):
-        return np.all(
-            np.array(
-                [
-                    np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                    val["it"] < maxIter,
-                    np.max(np.abs(val["dxi"])) > tol,
-                ]
+    if cond is None:
+
+        def cond(val):
+            return np.all(
+                np.array(
+                    [
+                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                        val["it"] < maxIter,
+                        np.max(np.abs(val["dxi"])) > tol,
+                    ]
+                )
             )
-        )
 
     if J is None:
         if dictFlag:
@@ -1383,16 +1385,18 @@ class NllsClass:
         else:
             self._dictFlag = False
 
-        def cond(val):
-            return np.all(
-                np.array(
-                    [
-                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                        val["it"] < maxIter,
-                        np.max(np.abs(val["dxi"])) > tol,
-                    ]
+        if cond is None:
+
+            def cond(val):
+                return np.all(
+                    np.array(
+                        [
+                            np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                            val["it"] < maxIter,
+                            np.max(np.abs(val["dxi"])) > tol,
+                        ]
+                    )
                 )
-            )
 
         if J is None:
             if self._dictFlag:
-- 
2.43.0


From 66c377168aad2b4aff547f9e9555c1ad74986994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:00 +0000
Subject: [PATCH 05/25] fix: pe accepts the constant arguments in any order

pop(k) only finds argument k while the smaller ones have been moved before it.
---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 4a803e9..bd3f794 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -234,7 +234,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
 
     # Reorder to put knowns first, then unknowns
     order = [k for k in range(len(args))]
-    for k in constant_arg_nums:
+    for k in sorted(constant_arg_nums):
         order.insert(0, order.pop(k))
     reorder = np.argsort(np.array(order))
     dark = tuple(args[k] for k in order)
-- 
2.43.0


From 26fc08c508114d7fc4702f092ee107a6f43c23d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:00 +0000
Subject: [PATCH 06/25] fix: the least-squares drivers leave the caller's
 constant_arg_nums alone

---
 src/tfc/utils/TFCUtils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index bd3f794..bd71fd0 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -864,9 +864,7 @@ def LS(
         ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     ls = jit(ls)
@@ -991,9 +989,7 @@ class LsClass:
             ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         self._ls = jit(ls)
@@ -1234,9 +1230,7 @@ def NLLS(
         res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     if body is None:
@@ -1435,9 +1429,7 @@ class NllsClass:
             res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         if body is None:
-- 
2.43.0


From 18fcacd362a560a133c9795f38a7c86eb869ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:00 +0000
Subject: [PATCH 07/25] fix: pe handles dictionaries as constants and outputs
 that depend on constants only

---
 src/tfc/utils/TFCUtils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index bd71fd0..123ead4 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -261,22 +261,18 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
                         )
                     )[0]
                 else:
-                    return PartialVal.known(a)
+                    return [PartialVal.known(x) for x in tree_flatten(a)[0]]
 
             part_args = []
             for k, a in enumerate(dark):
-                temp = get_arg(a, k >= num_args_remove)
-                if isinstance(temp, list):
-                    part_args += temp
-                else:
-                    part_args.append(temp)
+                part_args += get_arg(a, k >= num_args_remove)
             part_args = tuple(part_args)
 
             # Create jaxpr
             wrap = lu.wrap_init(f, debug_info=debug_info(f.__name__, f, [], {}))
             _, in_tree = tree_flatten((dark, {}))
             wrap_flat, out_tree = flatten_fun(wrap, in_tree)
-            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args)
+            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args, instantiate=True)
 
             # Create new, partially evaluated function
             if out_tree().num_leaves == 1 and out_tree().num_nodes == 1:
-- 
2.43.0


From 07cec1457177ebfbbd8ccae080ba95ae5898ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:21 +0000
Subject: [PATCH 08/25] fix: adding a NumPy array to a TFCDict or TFCDictRobust
 is not silently ignored

---
 src/tfc/utils/TFCUtils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 123ead4..49de3b6 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -442,7 +442,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] += o[self._slices[k]]
@@ -465,7 +465,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] -= o[self._slices[k]]
@@ -489,7 +489,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] += o[self._slices[k]]
@@ -513,7 +513,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] -= o[self._slices[k]]
@@ -652,7 +652,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -675,7 +675,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -699,7 +699,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -723,7 +723,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
-- 
2.43.0


From fb1b734fe40b71babcc11dbe82eae818c212dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:21 +0000
Subject: [PATCH 09/25] fix: + and - of TFCDict and TFCDictRobust leave their
 left operand alone

The copy shares its arrays with the operand, and += on a NumPy array works in place.
---
 src/tfc/utils/TFCUtils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 49de3b6..f90cfac 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -488,11 +488,11 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]]
+                out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]]
         return out
 
     def __sub__(self, o: TFCDictAddable) -> "TFCDict":
@@ -512,11 +512,11 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]]
+                out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]]
         return out
 
 
@@ -698,11 +698,13 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]].reshape(
+                    self[self._keys[k]].shape
+                )
         return out
 
     def __sub__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -722,11 +724,13 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]].reshape(
+                    self[self._keys[k]].shape
+                )
         return out
 
 
-- 
2.43.0


From a578e7f984b4f0a7d0e9b3dabf477c30f04c9725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:32 +0000
Subject: [PATCH 10/25] fix: the tangent of utfc's basis functions is zero for
 a zero tangent

It was unbound, so differentiating with respect to the unknowns only failed.
---
 src/tfc/utfc.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index b00afda..7f3f080 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -361,13 +361,11 @@ class utfc:
         def H_jvp(arg_vals, arg_tans, d: uint = 0, full: bool = False):
             x = arg_vals[0]
             dx = arg_tans[0]
-            if not (dx is ad.Zero):
-                flag = onp.any(dx != 0)
-                if flag:
-                    if len(dx.shape) == 1:
-                        out_tans = Hjax(x, d=d + 1, full=full) * onp.expand_dims(dx, 1)
-                    else:
-                        out_tans = Hjax(x, d=d + 1, full=full) * dx
+            if not (type(dx) is ad.Zero) and onp.any(dx != 0):
+                if len(dx.shape) == 1:
+                    out_tans = Hjax(x, d=d + 1, full=full) * onp.expand_dims(dx, 1)
+                else:
+                    out_tans = Hjax(x, d=d + 1, full=full) * dx
             else:
                 dim0 = x.shape[0]
                 if full:
-- 
2.43.0


From 5aa18d2056014baaf268ac35fc3381f01d08e98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 11/25] fix: utfc can be differentiated through traced tangents

Asking whether a traced tangent is zero fails, e.g. for H(2 * x) under jit.
---
 src/tfc/utfc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 7f3f080..3000a94 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -361,9 +361,9 @@ class utfc:
         def H_jvp(arg_vals, arg_tans, d: uint = 0, full: bool = False):
             x = arg_vals[0]
             dx = arg_tans[0]
-            if not (type(dx) is ad.Zero) and onp.any(dx != 0):
+            if not (type(dx) is ad.Zero) and (isinstance(dx, core.Tracer) or onp.any(dx != 0)):
                 if len(dx.shape) == 1:
-                    out_tans = Hjax(x, d=d + 1, full=full) * onp.expand_dims(dx, 1)
+                    out_tans = Hjax(x, d=d + 1, full=full) * np.expand_dims(dx, 1)
                 else:
                     out_tans = Hjax(x, d=d + 1, full=full) * dx
             else:
-- 
2.43.0


From adad30c376b211e8fb3a541a722e38dbce9cd71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 12/25] fix: mtfc can be differentiated through traced tangents

Asking whether a traced tangent is zero fails, e.g. for H(2 * x, y) under jit.
---
 src/tfc/mtfc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 910dbe3..814948f 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -623,7 +623,7 @@ class mtfc:
             out_tans = np.zeros((dim0, dim1))
             for k in range(n):
                 if not (type(arg_tans[k]) is ad.Zero):
-                    flag = onp.any(arg_tans[k] != 0)
+                    flag = isinstance(arg_tans[k], core.Tracer) or onp.any(arg_tans[k] != 0)
                     if flag:
                         dark = tuple(d[j] + 1 if k == j else d[j] for j in range(len(d)))
                         if flat:
-- 
2.43.0


From 0223b3b789912a0b5bae9c427e5036a5bbbf0095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 13/25] fix: mtfc accepts x0=None with Chebyshev and Legendre
 polynomials

---
 src/tfc/mtfc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 814948f..25b9884 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -335,7 +335,7 @@ class mtfc:
                 j = self.n[k] - 1
                 # Multiplying x0 by 0 here so the array will have the
                 # same type as x0.
-                I = onp.linspace(0 * x0[0], j, j + 1).reshape((j + 1, 1))
+                I = onp.linspace(0 * self.x0[0], j, j + 1).reshape((j + 1, 1))
                 dark = onp.cos(np.pi * (j - I) / float(j))
                 dark = onp.hstack([dark] * nProd).flatten()
                 self.z[k, :] = onp.array([dark] * nStack).flatten()
-- 
2.43.0


From 230ec040d955caf0c44e1160358869532732830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 14/25] fix: utfc accepts a NumPy array for nC

---
 src/tfc/utfc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 3000a94..71a2709 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -97,7 +97,7 @@ class utfc:
 
         if isinstance(nC, int):
             self.nC: npt.NDArray = onp.arange(nC, dtype=onp.int32)
-        elif isinstance(nC, np.ndarray):
+        elif isinstance(nC, (np.ndarray, onp.ndarray)):
             self.nC: npt.NDArray = cast(npt.NDArray, nC.astype(onp.int32))
         elif isinstance(nC, list):
             self.nC: npt.NDArray = np.array(nC, dtype=np.int32)
-- 
2.43.0


From 44f7a8e37f04417eb586432af730bb6cc8abb125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 15/25] fix: mtfc accepts a NumPy array for nC of the
 random-feature bases

---
 src/tfc/mtfc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 25b9884..0089cf5 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -201,7 +201,7 @@ class mtfc:
         if basis in self._elm_classes:
             if isinstance(nC, int):
                 self.nC = onp.arange(nC, dtype=onp.int32)
-            elif isinstance(nC, np.ndarray):
+            elif isinstance(nC, (np.ndarray, onp.ndarray)):
                 self.nC = cast(onp.ndarray, nC.astype(onp.int32))
             elif isinstance(nC, list):
                 self.nC = onp.array(nC, dtype=np.int32)
-- 
2.43.0


From 7e699044e3404a1c23e7ece62e2aa3f41af1856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:36 +0000
Subject: [PATCH 16/25] fix: a list of one basis function in mtfc's nC names
 that function

It was taken for a number of functions, against the documentation.
---
 src/tfc/mtfc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 0089cf5..24796b3 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -244,7 +244,7 @@ class mtfc:
                         nCk = np.array(cast(IntListOrArray, nC)[k]).flatten()
                     else:
                         nCk = np.array([cast(IntListOrArray, nC)[k]]).flatten()
-                    if nCk.shape[0] == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         maxk = nCk[0]
                     else:
                         maxk = nCk.shape[0]
@@ -263,7 +263,7 @@ class mtfc:
                     else:
                         nCk = onp.array([cast(IntListOrArray, nC)[k]]).flatten()
                     j = nCk.shape[0]
-                    if j == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         nCk = onp.arange(nCk[0])
                         j = nCk.shape[0]
                     if j < nCmax:
-- 
2.43.0


From 98b0dc1f179ba4e416657201388318e2bca71e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:01 +0000
Subject: [PATCH 17/25] fix: the pure-Python basis functions tell their size to
 utfc

---
 src/tfc/utils/BF_Py.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index cf94d3b..9af9876 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -104,6 +104,30 @@ class BasisFunc(ABC):
         """
         pass
 
+    @property
+    def m(self) -> uint:
+        """
+        Return the number of basis functions, including those that are removed.
+
+        Returns
+        -------
+        m : uint
+            Number of basis functions.
+        """
+        return self._m
+
+    @property
+    def numC(self) -> uint:
+        """
+        Return the number of basis functions that are removed.
+
+        Returns
+        -------
+        numC : uint
+            Number of basis functions removed.
+        """
+        return self._numC
+
     @property
     def c(self) -> Number:
         """
-- 
2.43.0


From fe9c9033879ee0226702b21d78d80dd9c28a4d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 18/25] fix: the compiled basis functions read strided arrays
 correctly

---
 src/tfc/utils/BF_Py.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index de1a403..254bb78 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -6,7 +6,7 @@
 namespace py = pybind11;
 
 template <typename T> void add1DInit(auto &c) {
-    c.def(py::init([](double x0, double xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](double x0, double xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (nC.ndim() != 1) {
                   throw py::value_error("The \"nC\" input array must be 1-dimensional.");
               }
@@ -28,7 +28,10 @@ template <typename T> void add1DInit(auto &c) {
 }
 
 template <typename T> void addNdInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0,
+                      py::array_t<double, py::array::c_style | py::array::forcecast> xf,
+                      py::array_t<int, py::array::c_style | py::array::forcecast> nC,
+                      int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -57,7 +60,10 @@ template <typename T> void addNdInit(auto &c) {
 }
 
 template <typename T> void addNdElmInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0,
+                      py::array_t<double, py::array::c_style | py::array::forcecast> xf,
+                      py::array_t<int, py::array::c_style | py::array::forcecast> nC,
+                      int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -175,7 +181,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](ELM &self) {
@@ -189,7 +195,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> w) { self.setW(w.data(), w.size()); });
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> w) { self.setW(w.data(), w.size()); });
 
     auto PyELMSigmoid = py::class_<ELMSigmoid, ELM>(m, "ELMSigmoid");
     add1DInit<ELMSigmoid>(PyELMSigmoid);
@@ -293,7 +299,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](nELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](nELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](nELM &self) {
-- 
2.43.0


From 0cba0bd8c8340dc83cc0df47f7a289a1e38f9303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 19/25] fix: setting c of a compiled multi-input basis function
 takes effect

---
 src/tfc/utils/BF_Py.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index 254bb78..66f010c 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -3,6 +3,8 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <algorithm>
+
 namespace py = pybind11;
 
 template <typename T> void add1DInit(auto &c) {
@@ -233,6 +235,7 @@ PYBIND11_MODULE(BF, m) {
                        << std::endl;
                     throw py::value_error(ss.str());
                 }
+                std::copy(c.data(), c.data() + self.dim, self.c);
             })
         .def_readwrite("numBasisFunc", &nBasisFunc::numBasisFunc)
         .def_readwrite("numBasisFuncFull", &nBasisFunc::numBasisFuncFull)
-- 
2.43.0


From 4590e292d80a6e458806f01469bcc6cbecc4f1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:03 +0000
Subject: [PATCH 20/25] fix: setting the switching functions of a CeSolver
 updates its constrained expression

---
 src/tfc/utils/CeSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 015c523..a58f957 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -154,6 +154,7 @@ class CeSolver:
         """
         self._phi = phi
         self._phi_stale = False
+        self._ce_stale = True
 
     @property
     def alpha(self) -> sp.Matrix:
-- 
2.43.0


From 2b7e7250db07e840aa3e0fc33ec4e74e3b291850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:03 +0000
Subject: [PATCH 21/25] fix: TfcPrinter leaves sympy's other code printers
 alone

---
 src/tfc/utils/CeSolver.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index a58f957..b0ab34e 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -373,12 +373,8 @@ class CeSolver:
 class TfcPrinter(PythonCodePrinter):
     def __init__(self, settings=None):
         # Switch math to numpy
-        for k, v in self._kf.items():
-            if "math" in v:
-                self._kf[k] = v.replace("math", "np")
-        for k, v in self._kc.items():
-            if "math" in v:
-                self._kc[k] = v.replace("math", "np")
+        self._kf = {k: v.replace("math", "np") for k, v in self._kf.items()}
+        self._kc = {k: v.replace("math", "np") for k, v in self._kc.items()}
 
         super().__init__(settings=settings)
 
-- 
2.43.0


From 27f5775a442ad466ede36d5431a3fa865e845693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:03 +0000
Subject: [PATCH 22/25] fix: TfcPrinter prints repeated and partial derivatives
 correctly

---
 src/tfc/utils/CeSolver.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index b0ab34e..3c47baa 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -481,15 +481,10 @@ class TfcPrinter(PythonCodePrinter):
         # expressions then use self._print() instead of str() or latex().
         # See the example of nested modulo below in the custom printing
         # method section.
-        name = function.func.__name__
-        parenthesis_counter = 0
-        ret = ""
+        ret = function.func.__name__
         for pv in position_vars:
             for _ in range(pv[1]):
-                ret += self._print("egrad(" + name + "," + str(pv[0]))
-                parenthesis_counter += 1
-        for _ in range(parenthesis_counter):
-            ret += self._print(")")
-        ret += "(" + "".join(self._print(i[0]) for i in vars) + ")"
+                ret = "egrad(" + ret + "," + str(pv[0]) + ")"
+        ret += "(" + ", ".join(self._print(i) for i in function_vars) + ")"
 
         return ret
-- 
2.43.0


From d5d7ab94dc914828600f3626af87cfa4231f172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:22 +0000
Subject: [PATCH 23/25] fix: TfcPrinter substitutes whole names, all at once

---
 src/tfc/utils/CeSolver.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 3c47baa..bbb89d5 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -1,3 +1,4 @@
+import re
 import sympy as sp
 from sympy import Expr
 from sympy.core.function import AppliedUndef
@@ -446,10 +447,12 @@ class TfcPrinter(PythonCodePrinter):
             String to print.
         """
         expr, old, new = subs.args
-        expr = self._print(expr)
-        for k in range(len(old)):
-            expr = expr.replace(self._print(old[k]), self._print(new[k]))
-        return expr
+        values = {
+            self._print(o): self._print(n) if n.is_Atom else "(" + self._print(n) + ")"
+            for o, n in zip(old, new)
+        }
+        names = r"\b(" + "|".join(re.escape(name) for name in values) + r")\b"
+        return re.sub(names, lambda name: values[name.group(0)], self._print(expr))
 
     def _print_Derivative(self, expr: Expr) -> str:
         """
-- 
2.43.0


From 891271c05d8b5cc385f18d2acbfbcc2c5c936a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:22 +0000
Subject: [PATCH 24/25] fix: TfcPrinter prints the arguments of functions as
 code

---
 src/tfc/utils/CeSolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index bbb89d5..16ed657 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -430,7 +430,7 @@ class TfcPrinter(PythonCodePrinter):
         str
             String to print.
         """
-        return self._print(str(expr))
+        return expr.func.__name__ + "(" + ", ".join(self._print(arg) for arg in expr.args) + ")"
 
     def _print_Subs(self, subs: Expr) -> str:
         """
-- 
2.43.0


From ba30fa868a79de47f25797f7ebcc8b2db372260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:29 +0000
Subject: [PATCH 25/25] fix: nBasisFunc releases the copy of x0 it makes

---
 src/tfc/utils/BF.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index 82504d0..04c2b2e 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -1061,7 +1061,10 @@ nBasisFunc::nBasisFunc(const double *x0in,
 #endif
 }
 
-nBasisFunc::~nBasisFunc() { delete[] c; }
+nBasisFunc::~nBasisFunc() {
+    delete[] x0;
+    delete[] c;
+}
 
 void nBasisFunc::getC(double **arrOut, int *nOut) {
     *nOut = dim;
-- 
2.43.0

