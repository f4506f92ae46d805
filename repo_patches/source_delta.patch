From 7280b3dd03e702a7cc01e1fb33b8d6f1c66abb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:38 +0000
Subject: [PATCH 001/117] fix: marginalise with keys sharing a dimension or not
 in dimension order

---
 probayes/pd.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 5121387..2f8e134 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -145,18 +145,17 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
-    sum_axes = set()
+    sum_axes = set([self._dims[key] for key in keys])
     for i, key in enumerate(self._keylist):
       if key in keys:
         assert not self._aresingleton[i], \
             "Cannot marginalise along scalar for key {}".format(key)
-        sum_axes.add(self._dims[key])
         marg.pop(key)
-        dim_delta += 1
       else:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dim = self._dims[key]
+          dims.update({key: dim - sum([axis < dim for axis in sum_axes
+                                       if axis is not None])})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
     prob = rescale(self._prob, self._pscale, 1.)
-- 
2.43.0


From 4076ac6482219a5d47d8ff48e3ddc33b07a5fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:24 +0000
Subject: [PATCH 002/117] fix: conditionalise with keys of non-adjacent
 dimensions or existing conditionals

---
 probayes/pd.py | 42 ++++++++++--------------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 2f8e134..6f1690f 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -223,8 +223,12 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     normalise = False
-    delta = 0
     marg_scalars = set()
+
+    # Order remaining dimensions before those of the conditionalised keys
+    key_dims = set([self._dims[key] for key in keys])
+    new_dims = [dim for dim in range(self.ndim) if dim not in key_dims] + \
+               [dim for dim in range(self.ndim) if dim in key_dims]
     for i, key in enumerate(self._keylist):
       if key in keys:
         cond.update({key: marg.pop(key)})
@@ -232,37 +236,11 @@ class PD (Distribution):
         dims.update({key: None})
         if key in keys:
           normalise = True
-      elif key in self._marg.keys():
-        if self._aresingleton[i]:
-          marg_scalars.add(key)
-        if key in keys:
-          delta += 1 # Don't add to dim just yet
-        else:
-          dim = self._dims[key]
-          dims.update({key: dim})
-      else:
-        dim = self.dims[key] - delta
-        dims.update({key: dim})
-
-    # Reduce remaining marginals to lowest dimension
-    dim_val = [val for val in dims.values() if val is not None]
-    dim_max = 0
-    if len(dim_val):
-      dim_min = min(dim_val)
-      for key in dims.keys():
-        if dims[key] is not None:
-          dim = dims[key]-dim_min
-          dims.update({key: dim})
-          dim_max = max(dim_max, dim)
-    dim_min = self.ndim
-    for key in keys:
-      dim = self.dims[key]
-      if dim is not None:
-        dim_min = min(dim_min, dim)
-    for key in keys:
-      dim = self._dims[key]
-      if dim is not None:
-        dims.update({key: dim-dim_min+dim_max+1})
+      elif key not in keys:
+        dims.update({key: new_dims.index(self._dims[key])})
+    for i, key in enumerate(self._keylist):
+      if key in keys and not self._aresingleton[i]:
+        dims.update({key: new_dims.index(self._dims[key])})
     if normalise:
       assert marg_scalars.issubset(set(keys)), \
         "If conditionalising for key {}".format(key) + "," + \
-- 
2.43.0


From 5ed1a4d98970479839efa5432ebed7feefaeef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 003/117] fix: PD division aligns divisor axes with those of
 the dividend

---
 probayes/pd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 6f1690f..1978e89 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -571,12 +571,9 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict(self._cond)
-    re_shape = np.ones(self._ndim, dtype=int)
     for i, key in enumerate(self._keylist):
       if key in keys:
         cond.update({key:marg.pop(key)})
-        if not self._aresingleton[i] and not divs:
-          re_shape[self.dims[key]] = other[key].size
       else:
         vals.update({key:self[key]})
 
@@ -587,7 +584,14 @@ class PD (Distribution):
 
     # Evaluate probabilities
     name = margcond_str(marg, cond)
-    divp = other.prob if divs else other.prob.reshape(re_shape)
+    divp = other.prob
+    if not divs: # align axes of the divisor to those of the dividend
+      axes = {dim: self._dims[key] for key, dim in other.dims.items()
+                                   if dim is not None}
+      re_shape = np.ones(self._ndim, dtype=int)
+      for dim, axis in axes.items():
+        re_shape[axis] = other.shape[dim]
+      divp = np.transpose(divp, sorted(axes, key=axes.get)).reshape(re_shape)
     prob = div_prob(self._prob, divp, self._pscale, other.pscale)
     return PD(name, vals, dims=self._dims, prob=prob, pscale=self._pscale)
 
-- 
2.43.0


From 1b0413db6c94fdeeebae61c7f2d6caa3b29631c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 004/117] fix: log probability offset of unity not to be
 mistaken for a linear pscale

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index a31b873..2f261af 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -26,7 +26,7 @@ def eval_pscale(pscale=None):
   """
   if pscale is None:
     return 1.
-  if pscale == 1:
+  if pscale == 1 and not iscomplex(pscale):
     return 1.
   if pscale in ['log', 'ln', 0]:
     return COMPLEX_ZERO
-- 
2.43.0


From 675903b629b7641cc429eff673b5faa90c4d3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 005/117] fix: product of log probability offsets and requested
 pscale of product rule

---
 probayes/pscales.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 2f261af..a8fb783 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -150,10 +150,7 @@ def prod_pscale(pscales, use_logp=None):
   if use_logp:
     if abs(rtype) < NEARLY_POSITIVE_ZERO:
       return COMPLEX_ZERO
-    elif rtype > 0:
-      return complex(np.log(rtype), 0.)
-    else:
-      return complex(np.log(-rtype), np.pi)
+    return complex(rtype, 0.)
   return rtype
 
 #-------------------------------------------------------------------------------
@@ -171,7 +168,7 @@ def prod_rule(*args, **kwds):
   pscales = kwds.get('pscales', [1.] * len(args))
   use_logp = kwds.get('use_logp', any([iscomplex(_pscale) for _pscale in pscales]))
   ppscale = prod_pscale(pscales, use_logp)
-  pscale = kwds.get('pscale', ppscale)
+  pscale = eval_pscale(kwds['pscale']) if 'pscale' in kwds else ppscale
   n_args = len(args)
   assert len(pscales) == n_args, \
       "Input pscales length {} incommensurate with number of arguments {}".\
@@ -210,8 +207,8 @@ def prod_rule(*args, **kwds):
       if p_log:
         probs[i] = exp_logp(probs[i])
   prob = _apply_prod(probs)
-  if use_logp != iscomplex(pscale):
-    prob = rescale(prob, ppscale, pscales)
+  if use_logp != iscomplex(pscale) or ppscale != pscale:
+    prob = rescale(prob, ppscale, pscale)
 
   return prob, pscale
 
-- 
2.43.0


From b24b9b727574209a0217bf0d36e75a0b5a58f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 006/117] fix: probability division honours a requested log
 pscale

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index a8fb783..51f4e5e 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -226,7 +226,7 @@ def div_prob(dividend, divisor, *args, pscale=None):
     assert len(args) == 2, "Both pscales must be specified if at all"
     pscales[0] = eval_pscale(args[0])
     pscales[1] = eval_pscale(args[1])
-    pscale = pscale or pscales[0]
+    pscale = pscales[0] if pscale is None else pscale
   dividend = rescale(dividend, pscales[0], None)
   divisor = rescale(divisor, pscales[1], None)
   quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)
-- 
2.43.0


From faa8272c12cc0ab8b12e757d6e747b133a44983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:35 +0000
Subject: [PATCH 007/117] fix: product of distributions in which variables
 share dimensions

---
 probayes/pd_utils.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 0106cd1..c80a427 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -250,31 +250,19 @@ def product(*args, **kwds):
             assert isunitsetint(val[key]), "Mismatch in variables {} vs {}".\
                 format(prod_vals, val)
             prod_vals.update({key: {list(prod_vals[key])[0] + list(val[key])[0]}})
-  prod_newdims = np.array(np.logical_not(prod_aresingleton))
-  dims_shared = False
-  for arg in args:
-    argdims = [dim for dim in arg.dims.values() if dim is not None]
-    if len(argdims) != len(set(argdims)):
-      dims_shared = True
 
   # Shared dimensions limit product dimensionality
-  if dims_shared:
-    seen_keys = set()
-    for i, key in enumerate(prod_keys):
-      if prod_newdims[i] and key not in seen_keys:
-        for arg in args:
-          if key in arg.dims:
-            dim = arg.dims[key]
-            seen_keys.add(key)
-            for argkey, argdim in arg.dims.items():
-              seen_keys.add(argkey)
-              if argkey != key and argdim is not None:
-                if dim == argdim:
-                  index = prod_keys.index(argkey)
-                  prod_newdims[index] = False
-
-  prod_cdims = np.cumsum(prod_newdims)
-  prod_ndims = prod_cdims[-1]
+  prod_keydims = {}
+  prod_ndims = 0
+  for i, key in enumerate(prod_keys):
+    if not prod_aresingleton[i] and key not in prod_keydims:
+      prod_keydims.update({key: prod_ndims})
+      for arg in args:
+        if arg.dims.get(key, None) is not None:
+          for argkey, argdim in arg.dims.items():
+            if argdim == arg.dims[key]:
+              prod_keydims.update({argkey: prod_ndims})
+      prod_ndims += 1
 
   # Fast-track scalar products
   if maybe_fasttrack and prod_ndims == 0:
@@ -292,7 +280,7 @@ def product(*args, **kwds):
     else:
       values = prod_vals[key]
       re_shape = np.copy(ones_ndims)
-      dim = prod_cdims[i]-1
+      dim = prod_keydims[key]
       prod_dims.update({key: dim})
       re_shape[dim] = values.size
       prod_shape[dim] = values.size
-- 
2.43.0


From 863e106f2bb369e5a82b6fcfaff907524e938049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:04 +0000
Subject: [PATCH 008/117] fix: product matches conditional with marginal
 variables by key and value

---
 probayes/pd_utils.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index c80a427..b4edc7d 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -196,30 +196,32 @@ def product(*args, **kwds):
   prod_marg_name = ','.join(prod_marg)
   flat_cond_names = [name for dist_cond_names in cond_names \
                           for name in dist_cond_names]
-  cond2marg = [cond_name for cond_name in flat_cond_names \
-                         if cond_name in prod_marg]
-  prod_cond = [cond_name for cond_name in flat_cond_names \
-                         if cond_name not in cond2marg]
-  cond2marg_set = set(cond2marg)
+  marg_keys = set(str2key(prod_marg))
+  cond_keys = list(dict.fromkeys(str2key(flat_cond_names)))
+  cond2marg_set = set([key for key in cond_keys if key in marg_keys])
+  prod_cond = []
+  for name in flat_cond_names:
+    if str2key(name) not in marg_keys.union(str2key(prod_cond)):
+      prod_cond.append(name)
 
   # Check conditionals compatible
-  prod_cond_set = set(prod_cond)
-  cond2marg_dict = {name: None for name in cond2marg}
+  prod_cond_set = set(str2key(prod_cond))
+  cond_dict = {key: None for key in cond_keys}
   for i, arg in enumerate(args):
-    cond_set = set(cond_names[i]) - cond2marg_set
+    cond_set = set(str2key(cond_names[i])) - cond2marg_set
     if cond_set:
       assert prod_cond_set == cond_set, \
           "Incompatible product conditional {} for conditional set {}: ".format(
               prod_cond_set, cond_set)
-    for name in cond2marg:
-      if name in arg.keys():
-        values = arg[name]
+    for key in cond_keys:
+      if key in arg.keys() and not isunitsetint(arg[key]):
+        values = arg[key]
         if not isscalar(values):
           values = np.ravel(values)
-        if cond2marg_dict[name] is None:
-          cond2marg_dict[name] = values
-        elif not np.allclose(cond2marg_dict[name], values):
-          raise ValueError("Mismatch in values for condition {}".format(name))
+        if cond_dict[key] is None:
+          cond_dict[key] = values
+        elif not np.allclose(cond_dict[key], values):
+          raise ValueError("Mismatch in values for condition {}".format(key))
 
   # Establish product name, values, and dimensions
   prod_keys = str2key(prod_marg + prod_cond)
-- 
2.43.0


From 05c3e34c5e36fdc03517bddb30b12ce688938b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:04 +0000
Subject: [PATCH 009/117] fix: product honours a requested log pscale

---
 probayes/pd_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index b4edc7d..7081a1f 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -7,7 +7,7 @@ import functools
 import numpy as np
 import h5py
 from probayes.vtypes import isscalar, issingleton, isunitsetint
-from probayes.pscales import prod_pscale, prod_rule, iscomplex
+from probayes.pscales import eval_pscale, prod_pscale, prod_rule, iscomplex
 
 #-------------------------------------------------------------------------------
 def str2key(string):
@@ -95,7 +95,8 @@ def product(*args, **kwds):
     return None
   kwds = dict(kwds)
   pscales = [arg.pscale for arg in args]
-  pscale = kwds.get('pscale', None) or prod_pscale(pscales)
+  pscale = kwds.get('pscale', None)
+  pscale = prod_pscale(pscales) if pscale is None else eval_pscale(pscale)
   aresingleton = [arg.issingleton for arg in args]
   maybe_fasttrack = all(aresingleton) and \
                     np.all(pscale == np.array(pscales)) and \
-- 
2.43.0


From 25c59ce48114382c330e5908c2dc0ea0e2027b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:47 +0000
Subject: [PATCH 010/117] fix: product rule converts linear probabilities if a
 log result is requested

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 51f4e5e..7c63d2e 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -191,7 +191,7 @@ def prod_rule(*args, **kwds):
   if use_logp != iscomplex(ppscale):
     ppscale = complex(np.log(ppscale), 0.) if use_logp else float(np.exp(ppscale))
   elif use_logp == iscomplex(pscale) and ppscale == pscale and \
-      len(set([iscomplex(_pscale) for _pscale in pscales])) == 1:
+      all([use_logp == iscomplex(_pscale) for _pscale in pscales]):
     prob = _apply_prod(list(args))
     return prob, pscale
 
-- 
2.43.0


From 082d45b173090f5ec52ca6adecc0a8b2232c61be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 011/117] fix: Distribution.singleton() for a given key

---
 probayes/distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 990968c..37974c3 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -202,10 +202,10 @@ class Distribution (NamedDict):
     if key is None:
       return self._issingleton
     if isinstance(key, str):
-      if key not in self._keys:
+      if key not in self._keylist:
         return None
-      key = self._keys.index(key)
-    return self._issingleton[key]
+      key = self._keylist.index(key)
+    return self._aresingleton[key]
 
 #-------------------------------------------------------------------------------
   def lookup(self, keys, as_dist=False):
-- 
2.43.0


From 12a1104d28c126fb29daa02d67cb3baadbf0e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 012/117] fix: PD.redim() for non-singleton distributions

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 1978e89..0eca271 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -286,7 +286,7 @@ class PD (Distribution):
       old_dims = []
       new_dims = []
       for i, key in enumerate(self._keylist):
-        if not self._aresingletons[i]:
+        if not self._aresingleton[i] and self._dims[key] not in old_dims:
           old_dims.append(self._dims[key])
           new_dims.append(dims[key])
       prob = np.moveaxis(prob, old_dims, new_dims)
-- 
2.43.0


From d9c7f464f22379f2da0ec08240cf8383ee1490d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 013/117] fix: PD.prod() with keys not in dimension order

---
 probayes/pd.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 0eca271..59fc071 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -318,20 +318,18 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
-    prod_axes = []
+    prod_axes = list(set([self._dims[key] for key in keys]))
     for i, key in enumerate(self._keylist):
       if key in keys:
         assert not self._aresingleton[i], \
             "Cannot apply product along scalar for key {}".format(key)
-        if self._dims[key] not in prod_axes:
-          prod_axes.append(self.dims[key])
-          dim_delta += 1
         marg.update({key: key+"={}"})
         vals.update({key: {self[key].size}})
       else:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dim = self._dims[key]
+          dims.update({key: dim - sum([axis < dim for axis in prod_axes
+                                       if axis is not None])})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
     pscale = self._pscale
-- 
2.43.0


From 4d1b8f9b5c364f1f907a242cb3571026d30290f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 014/117] fix: scaling of PD.prod() by the number of
 probabilities multiplied

---
 probayes/pd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 59fc071..e039992 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -337,9 +337,9 @@ class PD (Distribution):
     if pscale_product not in [0., 1.]:
       pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
       if iscomplex(pscale):
-        pscale_product += pscale*pscale_scaling 
+        pscale_product = pscale*pscale_scaling
       else:
-        pscale_product *= pscale**pscale_scaling 
+        pscale_product = pscale**pscale_scaling
     prob = np.sum(self.prob, axis=tuple(prod_axes)) if iscomplex(pscale) \
            else np.prod(self.prob, axis=tuple(prod_axes))
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale_product)
-- 
2.43.0


From 5d0117c66c2f82ff8b49cb42cb559a06cb901126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:56 +0000
Subject: [PATCH 015/117] fix: slicing of distributions with shared, reordered
 or repeated values

---
 probayes/pd.py | 67 +++++++++++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 39 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index e039992..93c47ef 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -487,52 +487,41 @@ class PD (Distribution):
     keys = values.keys()
     keyset = set(values.keys())
     assert len(keyset.union(self._keyset)) == len(self._keyset),\
-        "Unrecognised key among values keys: {}".format(keys())
+        "Unrecognised key among values keys: {}".format(keys)
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     dims = collections.OrderedDict(self._dims)
     vals = collections.OrderedDict(self)
-    slices = [slice(None) for _ in range(self.ndim)]
-    dim_delta = 0
+    prob = self._prob
+    matches = {}
     for i, key in enumerate(self._keylist):
-      check_dims = False
-      if not self._aresingleton[i]:
-        dim = self.dims[key]
-        if key in keyset:
-          assert np.isscalar(values[key]), \
-              "Values must contain scalars but found {} for {}".\
-              format(values[key], key)
-          match = np.ravel(self[key]) == values[key]
-          n_matches = match.sum()
-          post_eq = '{}'.format(values[key])
-          if n_matches == 0:
-            slices[dim] = slice(0, 0)
-            vals[key] = np.array([])
-          elif n_matches == 1 and not keepdims:
-            dim_delta += 1
-            slices[dim] = int(np.nonzero(match)[0])
-            vals[key] = values[key]
+      if not self._aresingleton[i] and key in keyset:
+        assert np.isscalar(values[key]), \
+            "Values must contain scalars but found {} for {}".\
+            format(values[key], key)
+        dim = self._dims[key]
+        match = np.ravel(self[key]) == values[key]
+        matches[dim] = np.logical_and(match, matches.get(dim, True))
+
+    # Slice from highest dimension so that the lower dimensions are unaffected
+    for dim in sorted(matches.keys(), reverse=True):
+      index = np.nonzero(matches[dim])[0]
+      squeeze = len(index) == 1 and not keepdims
+      prob = np.take(prob, int(index[0]) if squeeze else index, axis=dim)
+      for key in self._keylist:
+        if self._dims[key] == dim:
+          post_eq = '[]'
+          vals[key] = np.ravel(self[key])[index]
+          if squeeze:
+            vals[key] = values[key] if key in keyset else vals[key][0]
             dims[key] = None
-          else:
-            post_eq = '[]'
-            slices[dim] = np.nonzero(match)[0]
-            vals[key] = self[key][slices[dim]]
-            check_dims = True
-          update_keys = [key]
-          if check_dims:
-            for k, v in self.items():
-              if dim == self._dims[k] and k not in keyset:
-                vals[k] = self[k][slices[dim]]
-                update_keys.append(k)
-          for update_key in update_keys:
-            if key in marg.keys():
-              marg[key] = "{}={}".format(key, post_eq)
-            elif key in cond.keys():
-              cond[key] = "{}={}".format(key, post_eq)
-        elif dim_delta:
-          dims[key] = dims[key] - dim_delta
+          if squeeze or not len(index):
+            post_eq = '{}'.format(values[key] if key in keyset else vals[key])
+          name_dict = marg if key in marg.keys() else cond
+          name_dict[key] = "{}={}".format(key, post_eq)
+        elif squeeze and dims[key] is not None and self._dims[key] > dim:
+          dims[key] = dims[key] - 1
     name = margcond_str(marg, cond)
-    prob = self._prob[tuple(slices)]
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 33789f323dc5a653e10e9ce1bb10b66c73003cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:38 +0000
Subject: [PATCH 016/117] fix: single-valued arrays are monotonic and therefore
 have quantiles

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 7081a1f..acf621f 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -407,7 +407,7 @@ def ismonotonic(vals):
     return True
   vals = np.ravel(vals)
   is_ge = vals[1:] >= vals[:-1]
-  if len(np.unique(is_ge)) == 1:
+  if len(np.unique(is_ge)) <= 1:
     return True
   return False
 
-- 
2.43.0


From 399e75f447a9dd9bd35c9cd87b3deffeaf1a3da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 017/117] fix: remarginalise retains conditional variables

---
 probayes/pd.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 93c47ef..d597fd4 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -625,9 +625,20 @@ class PD (Distribution):
         indices[dim] = np.maximum(0, np.minimum(len(edges)-1, \
                                      np.digitize(rav_vals, edges)-1))
 
+    # Dimensions of conditional variables are unchanged and follow thereafter
+    shape = list(shape)
+    cond_dims = {}
+    unr_idx = np.unravel_index(np.arange(self.size), self._shape)
+    for key in self._cond.keys():
+      dim = self._dims[key]
+      if dim is not None and dim not in cond_dims:
+        cond_dims.update({dim: len(shape)})
+        shape.append(self._shape[dim])
+        indices.append(unr_idx[dim])
+
     # Iterate through every self.prob value
     rav_prob = np.ravel(rescale(self._prob, self._pscale, 1.))
-    rem_prob = np.zeros(distribution.shape, dtype=float)
+    rem_prob = np.zeros(shape, dtype=float)
     for i in range(self.size):
       rem_idx = tuple([idx[i] for idx in indices])
       rem_prob[rem_idx] += rav_prob[i]
@@ -645,12 +656,12 @@ class PD (Distribution):
           marg_str[-1] = key + "=[]"
     rem_name = ','.join(marg_str)
     if '|' in self._name:
-      rem_name += self._name.split('|')[1]
+      rem_name += '|' + self._name.split('|')[1]
     cond_keys = list(self._cond.keys())
     if cond_keys:
       for key in cond_keys:
         rem_vals.update({key: self[key]})
-        rem_dims.update({key: self._dims[key]})
+        rem_dims.update({key: cond_dims.get(self._dims[key], None)})
 
     return PD(rem_name, rem_vals, dims=rem_dims,
               prob=rescale(rem_prob, 1., self._pscale),
-- 
2.43.0


From 3afe639b3f5110272544dbf88c06ec4d5e656041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:33 +0000
Subject: [PATCH 018/117] fix: writing a distribution does not alter its
 dimensions

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index acf621f..db55f91 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -469,7 +469,7 @@ def write_serialised(path, serialised, aux_dict={}):
       group_write = hdf_write.create_group(dist_name)
       for key, val in dist_dict.items():
         if key == 'attrs':
-          attrs = dist_dict['attrs']
+          attrs = dist_dict['attrs'].copy()
           for k, v in attrs.items():
             if v is None:
               attrs[k] = 'None'
-- 
2.43.0


From d48ea52186ca1f35eb6382233d6ef9c7a851f67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:55 +0000
Subject: [PATCH 019/117] fix: distributions are read in the order written

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index db55f91..fd9f38a 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -464,7 +464,7 @@ def write_serialised(path, serialised, aux_dict={}):
         f"Aux dict subkeys must be str, found {subkey}"
       assert isinstance(subval, np.ndarray), \
         f"Aux dict subvals must be NumPy arrays, found {type(subval)}"
-  with h5py.File(path, 'w', libver='latest') as hdf_write:
+  with h5py.File(path, 'w', libver='latest', track_order=True) as hdf_write:
     for dist_name, dist_dict in serialised.items():
       group_write = hdf_write.create_group(dist_name)
       for key, val in dist_dict.items():
-- 
2.43.0


From b135b9f1116b116b8bdf489e5a341bfb1672dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 020/117] fix: refuse values of different sizes to share a
 dimension

---
 probayes/distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 37974c3..c21d406 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -182,6 +182,9 @@ class Distribution (NamedDict):
           assert key in self._dims, "Missing key {} in dims specification {}".\
               format(key, self._dims)
         self._sizes.append(val_size)
+        assert self._shape[self._dims[key]] in [None, val_size], \
+            "Mismatch in sizes of values sharing dimension {} for key {}".\
+            format(self._dims[key], key)
         self._shape[self._dims[key]] = val_size
         vals_shape = np.copy(ones_ndim)
         vals_shape[self._dims[key]] = val_size
-- 
2.43.0


From d22b0f96cf7a22acfebf3a13fceaa8f012f8132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:58 +0000
Subject: [PATCH 021/117] fix: NumPy arrays can be passed as variable sets

---
 probayes/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 9f56198..e263c24 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -109,10 +109,11 @@ class Variable (Icon):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-    if vtype or vset:
+    has_vset = vset is not None and (np.isscalar(vset) or len(vset) > 0)
+    if vtype or has_vset:
       if vtype:
         self.vtype = vtype
-      if vset:
+      if has_vset:
         self.vset = vset
     else:
       self.vtype = vtype
-- 
2.43.0


From a0b75ff5ce966b83b7cec42d5db4bb6b682a2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:58 +0000
Subject: [PATCH 022/117] fix: variables do not alter the list passed as their
 set

---
 probayes/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index e263c24..b4e6759 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -189,6 +189,7 @@ class Variable (Icon):
           "Unrecognised vset specification: {}".format(vset)
 
     # At this point, vset can only be a list, but may contain tuples
+    vset = list(vset)
     vtype = self._vtype
     for i, value in enumerate(vset):
       if isinstance(value, tuple):
-- 
2.43.0


From f06e5667e8a685c13571fc408e4e07b88e9c5fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:58 +0000
Subject: [PATCH 023/117] fix: log hypervolume of a variable

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index b4e6759..fbe42c2 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -301,7 +301,7 @@ class Variable (Icon):
   @property
   def lhv(self):
     """ Log hypervolume (=log(length)) of the variable """
-    return self._length
+    return self._lhv
 
   def __len__(self):
     """ Length of the variable according to its (transformed) limits """
-- 
2.43.0


From 2dee0cb1dfb71990d2c83e653424c7dc2e49e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:58 +0000
Subject: [PATCH 024/117] fix: unsetting a variable transformation restores its
 limits

---
 probayes/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index fbe42c2..2c71571 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -478,6 +478,8 @@ class Variable (Icon):
     """
     self._ufun = ufun
     if self._ufun is None:
+      self.__no_ucov = None
+      self._eval_ulims()
       return
     self.__no_ucov = False if 'no_ucov' not in kwds else kwds.pop('no_ucov')
 
-- 
2.43.0


From 1ac386b5e00a77e5892099157149cb4c46ed9484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:58 +0000
Subject: [PATCH 025/117] fix: membership of non-float variables with repeated
 values

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 2c71571..54e9a31 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -327,7 +327,7 @@ class Variable (Icon):
 
     # Non-floats do not support transformation
     if self._vtype not in VTYPES[float]:
-      self._inside = lambda x: np.isin(x, self._vset, assume_unique=True)
+      self._inside = lambda x: np.isin(x, self._vset)
       self._ulims = self._vlims
       self._length = 2 if self._vtype in VTYPES[bool] else len(self._vset)
       self._lhv = log_prob(self._length)
-- 
2.43.0


From 671f7fe85c8a6b3705900a3b74c08d31d6ce52d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:23 +0000
Subject: [PATCH 026/117] fix: callable deltas of variables

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 54e9a31..5ab4432 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -614,7 +614,7 @@ class Variable (Icon):
     if delta is None:
       return None
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta
       delta = delta()
     if isinstance(delta, self._Delta):
@@ -666,7 +666,7 @@ class Variable (Icon):
     # Call eval_delta() if values is a list and return values if delta is None
     delta = delta or self._delta
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta(values)
       delta = delta()
     elif self._vtype not in VTYPES[bool]:
-- 
2.43.0


From 7a67e3732dbfdd77c73c01801b8ea2b725d50a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:23 +0000
Subject: [PATCH 027/117] fix: zero or callable deltas passed are not replaced
 by the default

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 5ab4432..ac5e54a 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -610,7 +610,7 @@ class Variable (Icon):
 
     If delta is not entered, then the default set by Variable.set_delta() is used.
     """
-    delta = delta or self._delta
+    delta = self._delta if delta is None else delta
     if delta is None:
       return None
     if isinstance(delta, Expression):
@@ -664,7 +664,7 @@ class Variable (Icon):
       values = values[self.name] 
 
     # Call eval_delta() if values is a list and return values if delta is None
-    delta = delta or self._delta
+    delta = self._delta if delta is None else delta
     if isinstance(delta, Expression):
       if delta.callable:
         return delta(values)
-- 
2.43.0


From f57a378a0d4868d52a8080477897c5645604af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:23 +0000
Subject: [PATCH 028/117] fix: uniform integer deltas include the positive
 limit

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index ac5e54a..6a38895 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -632,7 +632,7 @@ class Variable (Icon):
       if self._vtype in VTYPES[bool]:
         pass
       elif self._vtype in VTYPES[int]:
-        delta = np.random.randint(-delta, delta)
+        delta = np.random.randint(-delta, delta + 1)
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-- 
2.43.0


From 7c6c31fde7b7360072370b09eab654271265180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:23 +0000
Subject: [PATCH 029/117] fix: scalars reaching an excluded limit bounce as do
 arrays

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 6a38895..4edaec6 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -719,12 +719,12 @@ class Variable (Icon):
         if not self._inside(vals):
           vals = values
       elif maybe_bounce[0]:
-        if vals < self._vlims[0]:
+        if vals <= self._vlims[0]:
           vals = values
         else:
           vals = np.minimum(self._vlims[1], vals)
       else:
-        if vals > self._vlims[1]:
+        if vals >= self._vlims[1]:
           vals = values
         else:
           vals = np.maximum(self._vlims[0], vals)
-- 
2.43.0


From 7fb7c7c50811189b9e13535f09517845f38f2c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:23 +0000
Subject: [PATCH 030/117] fix: dictionary deltas of fields

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index ba2ee06..9278203 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -266,7 +266,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Handle deltas and dictionaries
     if isinstance(self._delta, dict):
       self._delta = self._delta_type(**self._delta)
-    if isinstance(delta, self._delta_type):
+    if isinstance(self._delta, self._delta_type):
       assert not args, \
         "Optional args prohibited for dict/delta instance inputs"
       for i, var in enumerate(self._varlist):
-- 
2.43.0


From 6a5a7017a532b76a0dfbef7260448f4b086f5549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:23 +0000
Subject: [PATCH 031/117] fix: evaluation of delta instances passed to fields

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 9278203..a5f1843 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -489,7 +489,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       delta = delta()
     elif isinstance(delta, self._delta_type):
       delta_dict = collections.OrderedDict()
-      variables = self.ret_vars(aslist=True)
+      variables = self._varlist
       for i, key in enumerate(self._keylist):
         delta_dict.update({key: variables[i].eval_delta(delta[i])})
       delta = self._delta_type(**delta_dict)
-- 
2.43.0


From 4ac6cda1c06ef601ccd25eb722941e8c743b326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:36 +0000
Subject: [PATCH 032/117] fix: random variables can be declared by type alone

---
 probayes/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 4edaec6..b603b64 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -105,7 +105,8 @@ class Variable (Icon):
     self.name = name
 
     # Allow positions of vtype and vset to be swapped
-    if isinstance(vtype, (list, tuple, set, range, np.ndarray)):
+    if isinstance(vtype, (list, tuple, set, range, np.ndarray)) or \
+        isinstance(vset, type):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-- 
2.43.0


From 8beb1d8d53ee36721ad2f32f2581d7180cc2f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:33 +0000
Subject: [PATCH 033/117] fix: rounding does not take transformed values
 outside their limits

---
 probayes/variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index b603b64..2a1322d 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -588,7 +588,9 @@ class Variable (Icon):
 
       # Only use ufun when isunitsetint(values)
       if self._ufun and not self.__no_ucov:
-        return Distribution(self._name, {self.name: self.ufun[-1](values)})
+        values = np.clip(self.ufun[-1](values), min(self._vlims), 
+                                                max(self._vlims))
+        return Distribution(self._name, {self.name: values})
     return Distribution(self._name, {self.name: values})
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From c6ff3f8de6866b2f90e7737582580307c5d59514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:33 +0000
Subject: [PATCH 034/117] fix: Bernoulli probabilities on logarithmic or scaled
 pscales

---
 probayes/rv.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 96ad54c..a0b95b4 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -144,10 +144,13 @@ class RV (Variable, Prob):
 
     # Reassign non-0.5 Bernoulli probabilities to a formal distribution
     if self._vtype in VTYPES[bool] and self.isscalar:
-      prob = float(self._prob)
-      if not np.isclose(prob, 0.5):
-        super().set_prob(bernoulli_prob(self.icon, bias=prob))
-        super().set_sfun(bernoulli_sfun, bias=prob)
+      bias = float(rescale(float(self._prob), self._pscale, 1.))
+      if not np.isclose(bias, 0.5):
+        prob = bernoulli_prob(self.icon, bias=bias)
+        unit = rescale(1., 1., self._pscale)
+        prob = sympy.log(prob) + unit if self._logp else prob * unit
+        super().set_prob(prob)
+        super().set_sfun(bernoulli_sfun, bias=bias)
 
 #-------------------------------------------------------------------------------
   def _default_prob(self):
-- 
2.43.0


From 8b6f4d2642062cf9ab16ea44a76ddfd1491f304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:33 +0000
Subject: [PATCH 035/117] fix: unsetting a transformation restores default
 probabilities

---
 probayes/rv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/rv.py b/probayes/rv.py
index a0b95b4..eb1dadf 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -200,6 +200,8 @@ class RV (Variable, Prob):
     """
     super().set_ufun(ufun, *args, **kwds)
     if self._ufun is None:
+      if self.__def_prob:
+        self._default_prob()
       return
 
     # Recalibrate defaulted probabilities for floating point vtypes
-- 
2.43.0


From 1bcc38bca10d55e03e49929f357d46f3fc6ef28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:33 +0000
Subject: [PATCH 036/117] fix: evaluation of probabilities on a requested
 pscale

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 371f837..216db50 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -376,7 +376,7 @@ class Prob (Expression, SympyProb):
 
     # Optionally rescale
     if pscale:
-      return self.rescale(prob, kwds['pscale'])
+      return self.rescale(prob, pscale=pscale)
     return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 7471a82fd170a3371ee6307f459c9c5d92b20e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:09 +0000
Subject: [PATCH 037/117] fix: a log pscale without offset (0j) is not ignored

---
 probayes/prob.py     |  4 ++--
 probayes/rv_utils.py | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 216db50..046e525 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -133,7 +133,7 @@ class Prob (Expression, SympyProb):
     pscale is used.
     """
     pscale = None if 'pscale' not in kwds else kwds.pop('pscale')
-    self.pscale = pscale or self._pscale
+    self.pscale = self._pscale if pscale is None else pscale
     self.__isscipy = is_scipy_stats_dist(prob)
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
@@ -375,7 +375,7 @@ class Prob (Expression, SympyProb):
       prob = self._prob
 
     # Optionally rescale
-    if pscale:
+    if pscale is not None:
       return self.rescale(prob, pscale=pscale)
     return prob
 
diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index b6087b9..05a78e2 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -46,6 +46,16 @@ def uniform_prob(*args, prob=None, inside=None, pscale=1.):
         prob = prob * uniform_prob(arg, inside=inside)
   return prob
 
+#-------------------------------------------------------------------------------
+def lookup_array(vals, array, vset, pscale=1.):
+  """ Returns the element of array for each of vals according to its position in
+  vset, or a zero probability for values not within vset. """
+  p_zero = NEARLY_NEGATIVE_INF if iscomplex(eval_pscale(pscale)) else 0.
+  prob = np.tile(p_zero, np.shape(vals))
+  for val, p_val in zip(vset, array):
+    prob[np.equal(vals, val)] = p_val
+  return float(prob) if isscalar(vals) else prob
+
 #-------------------------------------------------------------------------------
 def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
   """ Returns succ_vals with sampling """
-- 
2.43.0


From 0bc5494b6403e284ab61432204ec38899cdfa632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:09 +0000
Subject: [PATCH 038/117] fix: random variables with arrays of probabilities
 can be evaluated

---
 probayes/rv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index eb1dadf..7e5e56e 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -13,7 +13,7 @@ from probayes.pscales import rescale
 from probayes.expression import Expression
 from probayes.sympy_prob import bernoulli_prob, bernoulli_sfun
 from probayes.rv_utils import uniform_prob, matrix_cond_sample, \
-                          lookup_square_matrix
+                          lookup_array, lookup_square_matrix
 from probayes.distribution import Distribution
 from probayes.pd import PD
 
@@ -318,7 +318,9 @@ class RV (Variable, Prob):
     """
     values = values[self.name] if isinstance(values, dict) else values
     if not self.isscalar:
-      return super().eval_prob(values)
+      if self.callable or values is None:
+        return super().eval_prob(values)
+      return lookup_array(values, self._prob, self._vset, pscale=self._pscale)
     return uniform_prob(values, 
                         prob=float(self._prob), 
                         inside=self._inside,
-- 
2.43.0


From 00af56570c64d217662b5e66e1eeae9172278a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:45 +0000
Subject: [PATCH 039/117] fix: resetting a Bernoulli probability resets its
 sampling function

---
 probayes/rv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/rv.py b/probayes/rv.py
index 7e5e56e..25674d3 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -129,6 +129,8 @@ class RV (Variable, Prob):
     'pscale' is a reserved keyword. See Prob.pscale for explanation of how 
     pscale is used.
     """
+    if self._sfun is not None and self._sfun.expr == bernoulli_sfun:
+      super().set_sfun() # discard that of a previous Bernoulli probability
     super().set_prob(prob, *args, **kwds)
     if self._prob is None:
       self._default_prob()
-- 
2.43.0


From fd60205c27cfb37b1834b2cfa5a453a450293a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:45 +0000
Subject: [PATCH 040/117] fix: default densities for decreasing transformations
 are positive

---
 probayes/rv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 25674d3..eeab60c 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -164,8 +164,11 @@ class RV (Variable, Prob):
       return
     prob = rescale(self._nlhv, 'log', self._pscale)
     if self._ufun is not None and self.no_ucov:
-      prob = prob + sympy.log(self._ufun.derinv.expr) if self._logp else \
-             prob * self._ufun.derinv.expr
+      derinv = self._ufun.derinv.expr
+      ulims = self._ufun[0](self._vlims)
+      if ulims[0] > ulims[1]: # decreasing transformations
+        derinv = -derinv
+      prob = prob + sympy.log(derinv) if self._logp else prob * derinv
     super().set_prob(prob)
     self.set_tran(prob)
     self.__def_prob = True
-- 
2.43.0


From 96a193ab0991756204c0688bd0347890e5e903b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 041/117] fix: counts of values of discrete variables with
 SciPy distributions

---
 probayes/rv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index eeab60c..76e1431 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -286,7 +286,8 @@ class RV (Variable, Prob):
 
     :return: a NumPy array of the values (see Variable.evaluate()):
     """
-    use_pfun = use_pfun and self._pfun is not None and isunitsetint(values)
+    use_pfun = use_pfun and self._pfun is not None and isunitsetint(values) \
+               and self._vtype in VTYPES[float]
 
     # If not using pfun while random sampling, we use sfun for booleans
     if not use_pfun:
-- 
2.43.0


From 6ff3551d26e24e41dee1550bd69eba12e6c3fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:20 +0000
Subject: [PATCH 042/117] fix: SymPy distributions with CDFs that SymPy cannot
 invert

---
 probayes/sympy_prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sympy_prob.py b/probayes/sympy_prob.py
index 41752b0..a9bc486 100644
--- a/probayes/sympy_prob.py
+++ b/probayes/sympy_prob.py
@@ -164,7 +164,7 @@ class SympyProb:
       self.__icdf = sympy.Symbol(icdf_name)
       try:
         invexprs = sympy.solve(self._exprs['cdf'].expr - self.__icdf,  self._cterm)
-      except TypeError: # in case Sympy fails to solve the inverse
+      except (TypeError, NotImplementedError): # if Sympy cannot solve the inverse
         invexprs = []
       n_exprs = len(invexprs)
       if n_exprs:
-- 
2.43.0


From 46fcc9988258441c0bd2ee27184a419682285b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:36 +0000
Subject: [PATCH 043/117] fix: sampling of more than one successor from a
 transition matrix

---
 probayes/rv_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index 05a78e2..ff8793e 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -81,7 +81,8 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
   else:
     succ_cmf = np.atleast_1d(succ_cmf)
   succ_idx = np.maximum(0, np.minimum(support-1, np.digitize(succ_cmf, cmf)))
-  return vset[succ_idx], pred_idx, succ_idx
+  succ_vals = vset[succ_idx] if isscalar(succ_idx) else np.array(vset)[succ_idx]
+  return succ_vals, pred_idx, succ_idx
 
 #-------------------------------------------------------------------------------
 def lookup_square_matrix(col_vals, row_vals, sq_matrix, 
-- 
2.43.0


From 4e682d011a3ed008242af7586f4b93f9145a508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:36 +0000
Subject: [PATCH 044/117] fix: successor sampling from transition matrices of
 log probabilities

---
 probayes/rv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/rv.py b/probayes/rv.py
index 76e1431..702a470 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -419,6 +419,7 @@ class RV (Variable, Prob):
       prob = self._tran() if not self._tran.ismulti else \
              self._tran[int(reverse)]()
       if isunitset(succ_vals):
+        prob = rescale(prob, self._pscale, 1.)
         succ_vals, pred_idx, succ_idx = matrix_cond_sample(pred_vals, 
                                                            succ_vals, 
                                                            prob=prob, 
-- 
2.43.0


From 0eb5d9d877247376d6e0b740dc49b3e710b1f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:36 +0000
Subject: [PATCH 045/117] fix: inverse CDF sampling of successors from uniform
 transitions

---
 probayes/rv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 702a470..a954940 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -404,10 +404,10 @@ class RV (Variable, Prob):
             "Inverse CDF sampling for scalar probabilities unavailable for " + \
             "{} data type".format(self._vtype)
         cdf_val = list(succ_vals)[0]
-        lo, hi = min(self._limits), max(self._limits)
-        succ_val = lo*(1.-cdf_val) + hi*cdf_val
-        if self._ufun is not None:
-          succ_val = self.ufun[-1](succ_val)
+        lo, hi = min(self._ulims), max(self._ulims)
+        succ_vals = lo*(1.-cdf_val) + hi*cdf_val
+        if self._ufun is not None and not self.no_ucov:
+          succ_vals = self.ufun[-1](succ_vals)
 
       prob = self._tran() if self._tran is not None else None
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
-- 
2.43.0


From 9849dd2ee4a357dc512806846d060562f9d772da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:36 +0000
Subject: [PATCH 046/117] fix: inverse CDF sampling of successors from
 continuous transitions

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index a954940..dca253a 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -437,7 +437,7 @@ class RV (Variable, Prob):
         assert isscalar(pred_vals), \
             "Successor sampling only possible with scalar predecessors"
         succ_vals = list(succ_vals)[0]
-        if type(succ_vals) in VTYPES[int] or type(succ_vals) in VTYPES[np.uint]:
+        if type(succ_vals) in VTYPES[int]:
           lo, hi = min(self._ulims), max(self._ulims)
           kwds.update({self._name+"'": np.array([lo, hi], dtype=float)})
           lohi = self._tfun[0](**kwds)
-- 
2.43.0


From 0cbc041b726fbb1fa34de1c759afc72d331567fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:36 +0000
Subject: [PATCH 047/117] fix: uniform transitions on logarithmic pscales

---
 probayes/rv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index dca253a..4f811ae 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -480,7 +480,8 @@ class RV (Variable, Prob):
       cond = uniform_prob(pred_vals,
                           succ_vals, 
                           prob=float(prob), 
-                          inside=self._inside) 
+                          inside=self._inside,
+                          pscale=self._pscale)
                   
 
     # Handle discrete non-callables
-- 
2.43.0


From 57e056a10de9ee8f5366e266070f49718f7741b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:36 +0000
Subject: [PATCH 048/117] fix: default probabilities do not replace specified
 transitions

---
 probayes/rv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 4f811ae..8f909e9 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -50,6 +50,7 @@ class RV (Variable, Prob):
 
   # Private
   __def_prob = None   # Flag to denote prob is defaulted
+  __def_tran = None   # Flag to denote tran is defaulted
   __sym_tran = None   # Flag to denote symmetric transitional
   __prime_key = None  # Modified-string to denote prime key for variable
 
@@ -170,7 +171,9 @@ class RV (Variable, Prob):
         derinv = -derinv
       prob = prob + sympy.log(derinv) if self._logp else prob * derinv
     super().set_prob(prob)
-    self.set_tran(prob)
+    if self._tran is None or self.__def_tran:
+      self.set_tran(prob)
+      self.__def_tran = True
     self.__def_prob = True
 
 #-------------------------------------------------------------------------------
@@ -239,6 +242,7 @@ class RV (Variable, Prob):
     function, the corresponding (CDF, ICDF) must be set using set_tfun().
     """
     self._tran = tran
+    self.__def_tran = False
     self.__sym_tran = None
     if self._tran is None:
       return
-- 
2.43.0


From c8f6bed9b9cb5a4c81b0a88b187fd1e0465d1529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:32 +0000
Subject: [PATCH 049/117] fix: impossible successors are never sampled

---
 probayes/rv_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index ff8793e..236efbd 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -80,7 +80,8 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
     succ_cmf = uniform(0., 1., succ_cmf)
   else:
     succ_cmf = np.atleast_1d(succ_cmf)
-  succ_idx = np.maximum(0, np.minimum(support-1, np.digitize(succ_cmf, cmf)))
+  last_idx = np.nonzero(prob[:, pred_idx])[0][-1] # last possible successor
+  succ_idx = np.maximum(0, np.minimum(last_idx, np.digitize(succ_cmf, cmf)))
   succ_vals = vset[succ_idx] if isscalar(succ_idx) else np.array(vset)[succ_idx]
   return succ_vals, pred_idx, succ_idx
 
-- 
2.43.0


From 0ffb9f4b7fc851fc8200df55f66b58374886a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:20 +0000
Subject: [PATCH 050/117] fix: multivariate SciPy distributions with current
 SciPy

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 046e525..75dd6a4 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -210,7 +210,7 @@ class Prob (Expression, SympyProb):
 
       # Iterate available methods
       for method in SCIPY_DIST_METHODS:
-        if hasattr(self._prob, method):
+        if hasattr(self._expr, method):
           call = functools.partial(Expression._partial_call, self, 
                                    getattr(self._expr, method),
                                    *self._args, **self._kwds)
-- 
2.43.0


From f2441bf35b04d3adb02cbe0e4b754fbce687ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:20 +0000
Subject: [PATCH 051/117] fix: multivariate SciPy densities match values with
 variables and dimensions

---
 probayes/prob.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 75dd6a4..3777d0b 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -347,14 +347,8 @@ class Prob (Expression, SympyProb):
       if self.__isscipy:
         prob = self._partials['logp'] if self._logp else self._partials['prob']
         if self.issmvar: # for mvar, convert dictionaries to arrays
-          vals = list(args[0].values())
-          if len(vals) == 1:
-            vals = np.array(vals)
-          else:
-            vals = vals[::-1]
-            if len(vals) > 2:
-              vals = vals[1:] + [vals[0]]
-            vals = np.stack(np.meshgrid(*tuple(vals)), axis=-1)
+          vals = np.broadcast_arrays(*tuple(args[0].values()))
+          vals = np.stack(vals, axis=-1)
           prob = prob(vals)
         else:
           prob = prob(*args)
-- 
2.43.0


From e517d22180a2fdabc14bfdfe1a1f81a698da012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:18 +0000
Subject: [PATCH 052/117] fix: steps with deltas sampled using a covariance
 matrix

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 06180db..155a8a8 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -344,7 +344,7 @@ class RF (Field, Prob):
     if self._tfun is None or self._tfun.isscalar:
       return delta
     elif not self._tfun.callable:
-      delta = self._tfun().dot(np.array(delta, dtype=float))
+      delta = self._tfun().dot(np.ravel(np.array(delta, dtype=float)))
       return self._delta_type(*delta)
     else:
       delta = self._tfun(delta)
-- 
2.43.0


From c3013e8eeba903b4171880021db61f7877eeaa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:18 +0000
Subject: [PATCH 053/117] fix: dependencies of field propositions can be
 specified

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 155a8a8..dbb802f 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -151,7 +151,7 @@ class RF (Field, Prob):
     :param **kwds: optional keywords to pass if prop is callable.
     """
     self._prop = prop
-    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop['deps']
+    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop('deps')
     if self._prop is None:
       return
     assert self._anystoch, \
-- 
2.43.0


From a33b4c28c0c18f0be421d947e2bea34389755458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:06 +0000
Subject: [PATCH 054/117] fix: scalar values of fields are in the order of the
 variables

---
 probayes/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index a5f1843..504f7fd 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -401,7 +401,8 @@ class Field (NX_UNDIRECTED_GRAPH):
     
     # Don't reshape if all scalars (and therefore by definition no shared keys)
     if all([np.isscalar(value) for value in values.values()]): # use np.scalar
-      return values, dims
+      return collections.OrderedDict(
+          {key: values[key] for key in self._keylist}), dims
 
     # Create reference mapping for shared keys across vars
     values_ref = collections.OrderedDict({key: [key, None] for key in self._keylist})
-- 
2.43.0


From 576ea575c627e06bbed2213191cf8fc8567ca68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:16 +0000
Subject: [PATCH 055/117] fix: arrays of joint probabilities are looked up by
 value

---
 probayes/rf.py       |  9 ++++++++-
 probayes/rv_utils.py | 14 ++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index dbb802f..8917eda 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -12,6 +12,7 @@ from probayes.pd_utils import margcond_str
 from probayes.vtypes import isscalar, isunitsetint
 from probayes.pscales import iscomplex, prod_pscale
 from probayes.rf_utils import rv_prod_rule, sample_cond_cov
+from probayes.rv_utils import lookup_joint, uniform_prob
 from probayes.expr import Expr
 from probayes.expression import Expression
 from probayes.cf import CF
@@ -325,7 +326,13 @@ class RF (Field, Prob):
 
     # Otherwise distinguish between uncallable and callables
     if not self._callable:
-      return self._call()
+      prob = self._call()
+      vsets = [var.vset for var in self._varlist]
+      if self._anyfloat or not values or \
+          np.shape(prob) != tuple(len(vset) for vset in vsets):
+        return prob
+      return lookup_joint([values[key] for key in self._keylist], prob, vsets, 
+                          pscale=self._pscale)
     if self.issympy:
       prob = self._partials['logp'](values) if iscomplex(self._pscale) else \
              self._partials['prob'](values)
diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index 236efbd..7b3f6d8 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -56,6 +56,20 @@ def lookup_array(vals, array, vset, pscale=1.):
     prob[np.equal(vals, val)] = p_val
   return float(prob) if isscalar(vals) else prob
 
+#-------------------------------------------------------------------------------
+def lookup_joint(vals, array, vsets, pscale=1.):
+  """ Returns the elements of a multidimensional array for lists of (mutually
+  broadcastable) vals according to their positions in the corresponding vsets,
+  or a zero probability for values not within those sets. """
+  p_zero = NEARLY_NEGATIVE_INF if iscomplex(eval_pscale(pscale)) else 0.
+  index, inside = [], True
+  for val, vset in zip(vals, vsets):
+    match = np.equal.outer(val, np.array(list(vset)))
+    index.append(np.argmax(match, axis=-1))
+    inside = np.logical_and(inside, np.any(match, axis=-1))
+  prob = np.where(inside, array[tuple(index)], p_zero)
+  return prob if prob.ndim else float(prob)
+
 #-------------------------------------------------------------------------------
 def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
   """ Returns succ_vals with sampling """
-- 
2.43.0


From 90862adb119561247aa00081b252c44930a38642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:16 +0000
Subject: [PATCH 056/117] fix: scalar joint probabilities of random fields can
 be evaluated

---
 probayes/rf.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/probayes/rf.py b/probayes/rf.py
index 8917eda..f5acae7 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -324,6 +324,15 @@ class RF (Field, Prob):
         prob, _ = rv_prod_rule(values, rvs=rvs, pscale=self._pscale)
       return prob
 
+    # Scalars denote a uniform probability within the set of every variable
+    if self.isscalar:
+      prob = float(self._prob)
+      for var in self._varlist:
+        inside = uniform_prob(values.get(var.name, None), inside=var.inside, 
+                              pscale=0.j if self._logp else 1.)
+        prob = prob + inside if self._logp else prob * inside
+      return prob
+
     # Otherwise distinguish between uncallable and callables
     if not self._callable:
       prob = self._call()
-- 
2.43.0


From ea4c76f16313cc874858ee7c58c9da9ea3d702e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:59 +0000
Subject: [PATCH 057/117] fix: products of independent probabilities requested
 without log offset

---
 probayes/rf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 484e4eb..1737a1d 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -13,7 +13,7 @@ def rv_prod_rule(*args, rvs, pscale=None):
   """
   values = args[0]
   pscales = [rv.pscale for rv in rvs]
-  pscale = pscale or prod_pscale(pscales)
+  pscale = prod_pscale(pscales) if pscale is None else pscale
   use_logs = iscomplex(pscale)
   probs = [rv.eval_prob(values[rv.name]) for rv in rvs]
   prob, pscale = prod_rule(*tuple(probs),
-- 
2.43.0


From bb45744d5ff7bf358a350f49b334f038a80d7669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:24 +0000
Subject: [PATCH 058/117] fix: multivariate SciPy densities of single values
 along a dimension

---
 probayes/prob.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 3777d0b..6f5cce9 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -349,7 +349,9 @@ class Prob (Expression, SympyProb):
         if self.issmvar: # for mvar, convert dictionaries to arrays
           vals = np.broadcast_arrays(*tuple(args[0].values()))
           vals = np.stack(vals, axis=-1)
-          prob = prob(vals)
+          prob = prob(vals) # squeezes singleton dimensions
+          if vals.ndim > 1:
+            prob = np.reshape(prob, vals.shape[:-1])
         else:
           prob = prob(*args)
 
-- 
2.43.0


From 31e47ccb19a15ee36786aacf4fd9d952737203b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:06 +0000
Subject: [PATCH 059/117] fix: lambda functions of variable arguments are
 passed their arguments

---
 probayes/expression.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 0000d44..6ecc564 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -7,6 +7,7 @@ not all expressions are functions.
 import types
 import collections
 import functools
+import inspect
 import sympy
 from probayes.vtypes import isscalar
 from probayes.icon import isiconic
@@ -19,6 +20,9 @@ def islambda(func):
   if type(func) is types.LambdaType:
     return func.__name__ == '<lambda>'
 
+#-------------------------------------------------------------------------------
+VARIABLE_ARGUMENTS = inspect.CO_VARARGS | inspect.CO_VARKEYWORDS
+
 #-------------------------------------------------------------------------------
 class Expression:
   """ A expression wrapper to enable object representations as an uncallable
@@ -399,7 +403,8 @@ class Expression:
     # Callables with neither order nor delta are straightforwards
     if not self.__order and not self.__delta:
       if self._islambda and hasattr(expr, '__code__') and \
-          not expr.__code__.co_argcount: # Allow argument-free lambdas
+          not expr.__code__.co_argcount and \
+          not expr.__code__.co_flags & VARIABLE_ARGUMENTS: # Allow argument-free lambdas
         assert not len(args), \
             "Unexpected entering of positional arguments: {}".format(args)
         return expr()
-- 
2.43.0


From dfb7bd32d3c47231f589e735a9ae990ae5a890ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:35 +0000
Subject: [PATCH 060/117] fix: probabilities of fields of a single variable on
 the scale of the field

---
 probayes/rf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/rf.py b/probayes/rf.py
index f5acae7..47b502a 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -320,6 +320,7 @@ class RF (Field, Prob):
       rvs = self._varlist
       if len(rvs) == 1 and rvs[0]._prob is not None:
         prob = rvs[0].eval_prob(values[rvs[0].name])
+        prob = rvs[0].rescale(prob, pscale=self._pscale)
       else:
         prob, _ = rv_prod_rule(values, rvs=rvs, pscale=self._pscale)
       return prob
-- 
2.43.0


From bf4fec469beb2bcc806792c7fdc69f3a878c6c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:20 +0000
Subject: [PATCH 061/117] fix: PD.prod() with a log offset of unity

---
 probayes/pd.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index d597fd4..9f5b84d 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -333,13 +333,11 @@ class PD (Distribution):
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
     pscale = self._pscale
-    pscale_product = pscale
-    if pscale_product not in [0., 1.]:
-      pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
-      if iscomplex(pscale):
-        pscale_product = pscale*pscale_scaling
-      else:
-        pscale_product = pscale**pscale_scaling
+    pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
+    if iscomplex(pscale):
+      pscale_product = pscale*pscale_scaling
+    else:
+      pscale_product = pscale**pscale_scaling
     prob = np.sum(self.prob, axis=tuple(prod_axes)) if iscomplex(pscale) \
            else np.prod(self.prob, axis=tuple(prod_axes))
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale_product)
-- 
2.43.0


From c50eac22806cb54c859058d41fd7ab37700058a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 062/117] fix: conditional sampling by covariance within the
 limits of the conditional distribution

---
 probayes/cond_cov.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index 1e7621f..0036b2c 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -15,15 +15,14 @@ class CondCov:
   _scom = None # Schur complements
   _stdv = None # Conditional standard deviations
   _coef = None # Regression coefficients
-  _lims = None  # Recentered limits (Nx2 array)
-  _cdfs = None  # cdf-limits
+  _lims = None  # Limits (Nx2 array)
 
 #-------------------------------------------------------------------------------
   def __init__(self, mean, cov, lims):
     self._mean = np.atleast_1d(mean)
     self._cov = np.atleast_2d(cov)
     self._inv = np.linalg.inv(self._cov)
-    self._lims = np.atleast_2d(lims) - np.expand_dims(self._mean, -1)
+    self._lims = np.atleast_2d(lims)
     self._n = len(self._mean)
     assert len(self._cov) == self._n, \
         "Means and covariance matrix incommensurate"
@@ -35,8 +34,6 @@ class CondCov:
       cov = np.delete(np.delete(self._cov, (i), axis=1), (i), axis=0)
       self._coef[i] = ru.dot(np.linalg.inv(cov))
       self._stdv[i] = np.sqrt(self._cov[i, i] - float(self._coef[i].dot(ll)))
-    self._cdfs = np.array([scipy.stats.norm.cdf(lim, loc=0., scale=self._stdv[i]) \
-                          for i, lim in enumerate(self._lims)])
 
 #-------------------------------------------------------------------------------
   def interp(self, *args, cond_pdf=False):
@@ -54,11 +51,11 @@ class CondCov:
         dmu[i] = arg - self._mean[i]
     assert idx is not None, "No variable specified for interpolation"
     dmu = np.delete(dmu, (idx), axis=0)
-    lims = self._cdfs[idx]
     number = list(args[idx])[0]
-    cdf = uniform(lims[0], lims[1], number)
     mean = self._mean[idx] + float(self._coef[idx].dot(dmu))
     stdv = self._stdv[idx]
+    lims = scipy.stats.norm.cdf(self._lims[idx], loc=mean, scale=stdv)
+    cdf = uniform(lims[0], lims[1], number)
     vals = scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv)
     if not cond_pdf:
       return vals
-- 
2.43.0


From 30d6d5234f3467a69b5d76d2b7010171a2f3a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 063/117] fix: SP.walk() does not discard a sample when
 stopping

---
 probayes/sp.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/probayes/sp.py b/probayes/sp.py
index 35bb45e..02b0666 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -3,6 +3,7 @@
 #-------------------------------------------------------------------------------
 import collections
 import inspect
+import itertools
 import warnings
 from probayes.sd import SD
 from probayes.expression import Expression
@@ -287,11 +288,6 @@ class SP (SD):
         "No stop specification set - this walk may proceed indefinitely")
     if stop is None: 
       return collections.deque([sample for sample in sampler])
-    steps = collections.deque()
-    for sample in sampler:
-      if len(steps) >= stop:
-        break
-      steps.append(sample)
-    return steps
+    return collections.deque(itertools.islice(sampler, stop))
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From d3e173fa89c8ea71a48f1139da3544f657f26146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 064/117] fix: Hastings scores from log probabilities

---
 probayes/sp_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index f2fe3d5..ba9e70a 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -59,9 +59,8 @@ def hastings_scores(opqr, pscale=None):
       revp = rescale(revp.prob, pscale, 1.)
       if revp <= 0.:
         return 1.
-      return min(1., div_prob(succ.prob * prop, 
-                              pred.prob * revp, 
-                              pscale, pscale, pscale=1.))
+      return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.) \
+                     * prop / revp)
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From 27f1c573d8f73c33e0c23c84a627ad16e8b34934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 065/117] fix: sampling propositions without a suffix

---
 probayes/sd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 0fe7761..3b9f5c9 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -10,7 +10,7 @@ def desuffix(values, suffix="'"):
   suffix_found = any([key[-1] == suffix for key in values.keys()])
   vals = collections.OrderedDict()
   if not suffix_found:
-    vals.update({values})
+    vals.update(values)
     return vals
   for key, val in values.items():
     vals_key = key if key[-1] != suffix else key[:-1]
-- 
2.43.0


From 6e9240a14e783b5ef8c04451aac4525400a24f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:16 +0000
Subject: [PATCH 066/117] fix: conditional sampling by covariance with limits
 in the tail of the conditional distribution

---
 probayes/cond_cov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index 0036b2c..2be17b0 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -56,7 +56,8 @@ class CondCov:
     stdv = self._stdv[idx]
     lims = scipy.stats.norm.cdf(self._lims[idx], loc=mean, scale=stdv)
     cdf = uniform(lims[0], lims[1], number)
-    vals = scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv)
+    vals = np.clip(scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv), 
+                   *self._lims[idx])
     if not cond_pdf:
       return vals
     return vals, scipy.stats.norm.pdf(vals, loc=mean, scale=stdv)
-- 
2.43.0


From 1d478b6f52d856f65dbc32187ef0c6dac46a327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:16 +0000
Subject: [PATCH 067/117] fix: scores of samplers follow the scale of the
 probabilities scored

---
 probayes/sp_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index ba9e70a..cd7d023 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -24,7 +24,8 @@ def metropolis_scores(opqr, pscale=None):
   if pred is None:
     return None
   assert isscalar(pred.prob), "Preceding probability distribution non-scalar"
-  return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+  return min(1., div_prob(succ.prob, pred.prob, 
+                          succ.pscale, pred.pscale, pscale=1.))
 
 #-------------------------------------------------------------------------------
 def metropolis_thresh(*args, **kwds):
@@ -49,17 +50,19 @@ def hastings_scores(opqr, pscale=None):
     return None
   else:
     assert isscalar(prop.prob), "Proposal probability non-scalar"
-    prop = rescale(prop.prob, pscale, 1.)
+    prop = rescale(prop.prob, prop.pscale, 1.)
     if prop <= 0.:
       return None
     if revp is None:
-      return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+      return min(1., div_prob(succ.prob, pred.prob, 
+                              succ.pscale, pred.pscale, pscale=1.))
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
-      revp = rescale(revp.prob, pscale, 1.)
+      revp = rescale(revp.prob, revp.pscale, 1.)
       if revp <= 0.:
         return 1.
-      return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.) \
+      return min(1., div_prob(succ.prob, pred.prob, 
+                              succ.pscale, pred.pscale, pscale=1.) \
                      * prop / revp)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From a7cae1c340d15ce109762ab36c669db62528e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:34 +0000
Subject: [PATCH 068/117] fix: dependences of more than two fields

---
 probayes/dependence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 8c60941..69905fc 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -94,7 +94,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
         for var in variables:
           NX_DIRECTED_GRAPH.add_node(self, var)
         return self._refresh(fields[0])
-      leafs_vars = fields[0].varlist
+      leafs_vars = list(fields[0].varlist)
       roots_vars = fields[-1].varlist
       if len(fields) > 2:
         for field in fields[1:-1]:
@@ -112,7 +112,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
           NX_DIRECTED_GRAPH.add_edge(self, roots_var, leafs_var)
       if len(fields) == 2:
         return self._refresh(fields[0], fields[1])
-      return self._refresh(self._field_cls(*tuple(leafs_var)), fields[-1])
+      return self._refresh(self._field_cls(*tuple(leafs_vars)), fields[-1])
 
     # At this point, all arguments must be dependences
     assert all(arg_aredep), "Cannot mix Dependences with other input types"
-- 
2.43.0


From 074ec5e14dd42d8c3ca58463362ddd37315866fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:34 +0000
Subject: [PATCH 069/117] fix: joint probabilities of parallel dependences for
 scalar values

---
 probayes/sd_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 3b9f5c9..b7040b4 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -34,14 +34,13 @@ def arch_prob(arch, dims, **kwds):
   """ Returns the combined probability of for arch given values """
  
   values = dict(kwds)
-  dimkeys = list(dims.keys())
   assert isinstance(arch, (tuple, list)), "Archictecture must be tuple or list"
   serial = isinstance(arch, list)
   probs = [None] * len(arch)
   for i, subarch in enumerate(arch):
     keyset = subarch.keylist
-    vals = {key: values[key] for key in dimkeys if key in keyset}
-    subdims = {key: dims[key] for key in dimkeys if key in keyset}
+    vals = {key: val for key, val in values.items() if key in keyset}
+    subdims = {key: dim for key, dim in dims.items() if key in keyset}
     probs[i] = subarch.eval_prob(vals, subdims)
   if serial:
     return probs[-1]
-- 
2.43.0


From 5d6b92386100ce8267216ba55800913f9be68bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:34 +0000
Subject: [PATCH 070/117] fix: joining of variables and fields with dependences

---
 probayes/ops.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/probayes/ops.py b/probayes/ops.py
index 5da738a..3d90529 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -21,7 +21,17 @@ def and_op(self, other):
 
   # Dependence as pre-operand
   if isinstance(self, Dependence):
-    return dep(other, self)
+    if isinstance(other, Dependence):
+      return dep(other, self)
+    if not isinstance(other, (Field, Variable)):
+      raise TypeError("Unrecognised post-operand type {}".format(type(other)))
+    others = [other] if isinstance(other, Variable) else list(other.varlist)
+    args = [fld(*tuple(list(self.leafs.varlist) + others))]
+    if self.stems:
+      args += list(self.stems.values())
+    if self.roots:
+      args += [self.roots]
+    return dep(*tuple(args))
 
   # Field as pre-operand
   if isinstance(self, Field):
@@ -54,12 +64,12 @@ def and_op(self, other):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = fld(*tuple(leafs))
+      args = [fld(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
-      return dep(*args)
+        args += [roots]
+      return dep(*tuple(args))
 
     if isinstance(other, Field):
       var = [self] + list(other.vars.values())
-- 
2.43.0


From a024ae02fc04ee1cbc9db7cc39e648926ff4525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:34 +0000
Subject: [PATCH 071/117] fix: joining of random variables with stochastic
 dependences

---
 probayes/rv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 8f909e9..08fbbb9 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -566,12 +566,12 @@ class RV (Variable, Prob):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = RF(*tuple(leafs))
+      args = [RF(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
-      return SD(*args)
+        args += [roots]
+      return SD(*tuple(args))
 
     if isinstance(other, RF):
       rvs = [self] + list(other.vars.values())
-- 
2.43.0


From a0a4e53cb7cacb25fb3016f6982c38b8212b1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:34 +0000
Subject: [PATCH 072/117] fix: passdims property of random fields

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 47b502a..cfa47bf 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -83,7 +83,7 @@ class RF (Field, Prob):
 
   @property
   def passdims(self):
-    return self.passdims
+    return self._passdims
 
   @property
   def def_prob(self):
-- 
2.43.0


From 9c78c7391e6b9fdec5d9b390be1c75431530a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 073/117] fix: parallel dependences on the scale of their
 probabilities

---
 probayes/sd.py       | 6 +++++-
 probayes/sd_utils.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 77781c0..276fb4a 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -7,6 +7,7 @@ from probayes.dependence import Dependence
 from probayes.rv import RV
 from probayes.rf import RF
 from probayes.pd_utils import product
+from probayes.pscales import eval_pscale, prod_pscale
 from probayes.sd_utils import desuffix, get_suffixed, arch_prob
 
 #-------------------------------------------------------------------------------
@@ -82,7 +83,10 @@ class SD (Dependence, RF):
     prob = super().set_prob(prob, *args, **kwds)
     if prob is not None or not isinstance(self._arch, (list, tuple)):
       return prob
-    return super().set_prob(arch_prob, arch=self._arch, passdims=True)
+    pscale = eval_pscale(kwds['pscale']) if 'pscale' in kwds else \
+             prod_pscale([subarch.pscale for subarch in self._arch])
+    return super().set_prob(arch_prob, arch=self._arch, arch_pscale=pscale, 
+                            passdims=True, pscale=pscale)
 
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index b7040b4..57b2907 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -30,7 +30,7 @@ def get_suffixed(values, unsuffix=True, suffix="'"):
   return vals
 
 #-------------------------------------------------------------------------------
-def arch_prob(arch, dims, **kwds):
+def arch_prob(arch, dims, arch_pscale=None, **kwds):
   """ Returns the combined probability of for arch given values """
  
   values = dict(kwds)
@@ -45,7 +45,7 @@ def arch_prob(arch, dims, **kwds):
   if serial:
     return probs[-1]
   pscales = [subarch.pscale for subarch in arch]
-  prob, pscale = prod_rule(*tuple(probs), pscales=pscales)
+  prob, pscale = prod_rule(*tuple(probs), pscales=pscales, pscale=arch_pscale)
   return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 066581daadfd666fa39a2a5f1c25ec07cdff05f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:32 +0000
Subject: [PATCH 074/117] fix: products of scalar probabilities with a log
 offset of unity

---
 probayes/pd_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index fd9f38a..307b065 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -99,8 +99,9 @@ def product(*args, **kwds):
   pscale = prod_pscale(pscales) if pscale is None else eval_pscale(pscale)
   aresingleton = [arg.issingleton for arg in args]
   maybe_fasttrack = all(aresingleton) and \
-                    np.all(pscale == np.array(pscales)) and \
-                    pscale in [0, 1.]
+                    all([iscomplex(pscale) == iscomplex(_pscale) and \
+                         pscale == _pscale for _pscale in pscales]) and \
+                    pscale == (0. if iscomplex(pscale) else 1.)
 
 
   # Collate vals, probs, marg_names, and cond_names as lists
-- 
2.43.0


From 78cb22a0acd45baac56c20b9b8c88524cd2c1e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:32 +0000
Subject: [PATCH 075/117] fix: summate() distinguishes log offsets of unity
 from linear scale

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 307b065..ca5807a 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -333,7 +333,7 @@ def summate(*args):
   # Check pscales are the same
   pscale = pscales[0]
   for _pscale in pscales[1:]:
-    assert pscale == _pscale, \
+    assert iscomplex(pscale) == iscomplex(_pscale) and pscale == _pscale, \
         "Cannot summate distributions with different pscales"
 
   # Check marginal and conditional keys
-- 
2.43.0


From 91de51806b55e7a5566ee73cee7990fc756acb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 076/117] fix: sampling propositions with suffix=False

---
 probayes/sd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/sd.py b/probayes/sd.py
index 276fb4a..dfb7696 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -249,6 +249,7 @@ class SD (Dependence, RF):
           "Second argument must be dictionary type, not {}".format(
               type(args[1]))
       vals.update(args[1])
+    kwds = {key: val for key, val in kwds.items() if key != 'suffix'}
     call = self.__call__(vals, **kwds)
 
     return self._opqr(None, call, prop, None)
-- 
2.43.0


From 25cf2c692889b1b99f0a931c469086372b3c398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 077/117] fix: calling a multiple expression without a key is
 refused as intended

---
 probayes/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 6ecc564..33629e0 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -466,7 +466,7 @@ class Expression:
    args and kwds. """
    assert not self._ismulti, \
        "Cannot call with multiple expression, use Expression[{}]()".format(
-           list(self._keys()))
+           self._keys)
    return self._partials[None](*args, **kwds)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 90708c272a2344ac14fd41a27b60d6243f45a58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 078/117] fix: message for uninterpretable order or delta
 specifications

---
 probayes/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 33629e0..f53c192 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -294,7 +294,7 @@ class Expression:
       elif ind is None:
         pass
       elif not isinstance(ind, str):
-        raise TypeError("Cannot interpret index specification value: {}".ind)
+        raise TypeError("Cannot interpret index specification value: {}".format(ind))
     indset = set(inds)
     if len(indset):
       assert indset == set(range(min(indset), max(indset)+1)), \
-- 
2.43.0


From 344897f3b0fd347f419dbffdc7986d3cc1be5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 079/117] fix: key -1 for tuples of symbolic expressions

---
 probayes/expression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index f53c192..eac6e81 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -338,12 +338,12 @@ class Expression:
           self._partials.update({1: call})
           self._partials.update({-1: call})
       else:
-        if isinstance(self._exprs, tuple):
-          for i, expr in enumerate(self._exprs):
+        if isinstance(self._expr, tuple):
+          for i, expr in self._exprs.items():
             call = functools.partial(Expr.__call__, expr)
             self._partials.update({i: call})
           self._partials.update({-1: call})
-        elif isinstance(self._exprs, dict):
+        elif isinstance(self._expr, dict):
           for key, val in self._exprs.items():
             call = functools.partial(Expr.__call__, val)
             self._partials.update({key: call})
-- 
2.43.0


From 4d519d3d68a0f059c4042c19fcb7aebf9884747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:40 +0000
Subject: [PATCH 080/117] fix: order specifications that exchange keyword names

---
 probayes/expression.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index eac6e81..4ed4e8f 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -425,13 +425,14 @@ class Expression:
 
     # Callables with order wrapper
     if self.__order:
-      for key, val in self.__order.items():
+      vals = [kwds.pop(key) for key in self.__order]
+      for (key, val), value in zip(self.__order.items(), vals):
         if type(val) is int:
-          args[val] = kwds.pop(key)
+          args[val] = value
         elif val is None:
-          kwds.pop(key)
+          pass
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          kwds.update({val: value})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
-- 
2.43.0


From 920490b3804e01e7ea78070250f93a24b00434a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:40 +0000
Subject: [PATCH 081/117] fix: symbolic expressions given array values for
 other symbols

---
 probayes/expr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/expr.py b/probayes/expr.py
index 8e268b9..25b35be 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -180,6 +180,7 @@ class Expr:
       values = parse_as_str_dict(*args, **kwds)
 
     # While determining type, collect evalues in required order
+    values = collections.OrderedDict([(key, values[key]) for key in keys])
     etype = None
     evalues = [None] * len(keys)
     ekeys = [None] * len(keys)
-- 
2.43.0


From 8b288d4394f1a74d117de0e5840f17836ffdadcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:40 +0000
Subject: [PATCH 082/117] fix: Functional.isiconic

---
 probayes/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/functional.py b/probayes/functional.py
index 28735ba..561892c 100644
--- a/probayes/functional.py
+++ b/probayes/functional.py
@@ -105,7 +105,7 @@ class Functional:
   @property
   def isiconic(self):
     """ Iconic flag """
-    return self._iconic
+    return self._isiconic
 
   def add_func(self, spec, func, *args, **kwds):
     """ Adds an function dependency for a specificied inp/out relationship where
-- 
2.43.0


From e2edd584122a6e63021685f87a508ff15c08b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:40 +0000
Subject: [PATCH 083/117] fix: functionals of more than one input or output

---
 probayes/functional_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/probayes/functional_utils.py b/probayes/functional_utils.py
index 9a0359e..be3ae71 100644
--- a/probayes/functional_utils.py
+++ b/probayes/functional_utils.py
@@ -31,8 +31,14 @@ def parse_identifiers(identifiers):
   """
   if isinstance(identifiers, str):
     return frozenset(identifiers.split(','))
-  if not isinstance(identifiers, (list, tuple, set)):
+  if isinstance(identifiers, NX_UNDIRECTED_GRAPH):
+    return frozenset(collate_vertices(identifiers).keys())
+  if not isinstance(identifiers, (list, tuple, set, frozenset)):
     identifiers = identifiers,
+  if len(identifiers) == 1: # the single element may itself be a set of names
+    key, = identifiers
+    if isinstance(key, (str, list, tuple, set, frozenset, NX_UNDIRECTED_GRAPH)):
+      return parse_identifiers(key)
   keys = list(identifiers)
   for i, key in enumerate(keys):
     if not isinstance(key, str):
-- 
2.43.0


From e26bf4035de662ae53f8e0ed95174b964a942650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:21 +0000
Subject: [PATCH 084/117] fix: delta specifications that reuse keyword names

---
 probayes/expression.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 4ed4e8f..5cc043a 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -439,11 +439,9 @@ class Expression:
       return expr(*tuple(args), **kwds)
 
     # Callables with delta wrapper
-    for key, val in self.__delta.items():
-      if key[-1] != "'":
-        value = kwds.pop(key)
-      else:
-        value = kwds.pop(key) - kwds.pop(key[:-1])
+    vals = [kwds.pop(key) if key[-1] != "'" else \
+            kwds.pop(key) - kwds.pop(key[:-1]) for key in self.__delta]
+    for (key, val), value in zip(self.__delta.items(), vals):
       if type(val) is int:
         args[val] = value
       elif val is None:
-- 
2.43.0


From ab69ee84e6d4f068804248c492ce02ddd7019e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:21 +0000
Subject: [PATCH 085/117] fix: refused functions no longer remain part of a
 functional

---
 probayes/functional.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/probayes/functional.py b/probayes/functional.py
index 561892c..e4e7e72 100644
--- a/probayes/functional.py
+++ b/probayes/functional.py
@@ -132,19 +132,16 @@ class Functional:
     if self._deps:
       assert spec_out not in self._deps.keys(), \
           "Output dependence for {} already previously set".format(spec_out)
-    self._deps.update({spec_out: spec_inp})
-    self._ndeps = len(self._deps)
 
-    # Update funcs and set isiconic flag if not previously set
-    self._funcs.update({spec_out: Expression(func, *args, **kwds)})
-    if self._isiconic is None:
-      self._isiconic = self._funcs[spec_out].isiconic
-    else:
-       assert self._isiconic == self._funcs[spec_out].isiconic, \
+    # Evaluate function and check against isiconic flag if previously set
+    expr = Expression(func, *args, **kwds)
+    if self._isiconic is not None:
+       assert self._isiconic == expr.isiconic, \
            "Cannot mix iconic and non-iconic expressions within functional"
 
-    # If iconic, check for single spec_out and update dexpr if available
-    if self._isiconic:
+    # If iconic, check for single spec_out
+    var = None
+    if expr.isiconic:
       assert not len(args) and not len(kwds), \
           "No optional arguments or keywords supported for iconic functions"
       assert len(spec_out) == 1, \
@@ -153,16 +150,12 @@ class Functional:
       assert key in self._out_set, \
           "Key {} not found in amount output set {}".format(key, self._out_set)
       var = self._out_dict[key]
-      if hasattr(var, 'dexpr'):
-        var.dexpr = func
 
     # Detect inputs for iconics if not specified
     if spec_inp is None:
-      assert self._isiconic, \
+      assert expr.isiconic, \
           "Input specification mandatory for non-iconic functionals"
-      spec_inp = tuple(self._funcs[spec_out].symbols.keys())
-      spec_inp = parse_identifiers(spec_inp)
-      self._deps[spec_out] = spec_inp
+      spec_inp = parse_identifiers(tuple(expr.symbols.keys()))
 
     # Detect subsets are covered
     assert spec_out.issubset(self._out_set), \
@@ -170,6 +163,13 @@ class Functional:
     assert spec_inp.issubset(self._inp_set), \
         "Specification input must be a subset of input graph"
 
+    # Update deps, funcs, isiconic flag, and (if available) dexpr
+    self._deps.update({spec_out: spec_inp})
+    self._ndeps = len(self._deps)
+    self._funcs.update({spec_out: expr})
+    self._isiconic = expr.isiconic
+    if hasattr(var, 'dexpr'):
+      var.dexpr = func
     self._set_partials()
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 53d0da7be5afb6301b0eb8f10cebd983659f07b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:40 +0000
Subject: [PATCH 086/117] fix: baseline frequencies of bool_perm_freq are added
 to counts

---
 probayes/likelihoods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/likelihoods.py b/probayes/likelihoods.py
index cad3fac..3cbceaf 100644
--- a/probayes/likelihoods.py
+++ b/probayes/likelihoods.py
@@ -68,6 +68,8 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
   sequences = bool_2d.astype(int).tolist()
   for sequence in sequences:
     counts[tuple(sequence)] += 1
+  if base_freq:
+    counts = counts + base_freq
   if col_labels is None:
     return counts
   assert len(col_labels) == cols, \
@@ -81,9 +83,7 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
     reshape[dim] = 2
     dims.update({lbl: dim})
     vals.update({lbl: np.array([False, True]).reshape(reshape)})
-  if base_freq:
-    base_freq += counts
-  rel_freq = counts / rows
+  rel_freq = counts / counts.sum()
 
   def _func_bool_perm_freq(spec=None, **kwds):
     assert 'dims' in kwds, \
-- 
2.43.0


From 04bcc36b50dd8f142e576b0a1df3679a69baad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:40 +0000
Subject: [PATCH 087/117] fix: slice_by_keyvals without dimensions under
 current NumPy

---
 probayes/rf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 1737a1d..eccc860 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -93,7 +93,7 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if isscalar(val):
         dims.update({key: None})
       else:
-        assert val.size == np.product(vals.shape), \
+        assert val.size == np.prod(vals.shape), \
             "Multiple non-singleton dimensions: {}".format(val.size)
         if val.size > 1:
           run_dim = np.argmax(val.shape)
-- 
2.43.0


From 3d7b2fdcfccc6f70f57dcbdb695a80be574aa369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:12 +0000
Subject: [PATCH 088/117] fix: dimensions of fully specified values passed to
 functions with passdims

---
 probayes/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 504f7fd..7c92406 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -402,7 +402,8 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Don't reshape if all scalars (and therefore by definition no shared keys)
     if all([np.isscalar(value) for value in values.values()]): # use np.scalar
       return collections.OrderedDict(
-          {key: values[key] for key in self._keylist}), dims
+          {key: values[key] for key in self._keylist}), \
+             collections.OrderedDict({key: None for key in self._keylist})
 
     # Create reference mapping for shared keys across vars
     values_ref = collections.OrderedDict({key: [key, None] for key in self._keylist})
-- 
2.43.0


From 54933e83df4b2fbbb63cb23e3cf5d83bc7bfc3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:39 +0000
Subject: [PATCH 089/117] fix: symbols by themselves are symbolic expressions

---
 probayes/icon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/icon.py b/probayes/icon.py
index 31fc20a..685f8f0 100644
--- a/probayes/icon.py
+++ b/probayes/icon.py
@@ -9,8 +9,8 @@ def isiconic(var):
   """ Returns whether object is a Sympy object. This function is purposefull not
   called issymbolic because he use 'icon' to denote any symbolic object]
   including sympy Integer and Float types. """
-  # Non-callables objects derive from sympy.Basic
-  if not callable(var):
+  # Non-callables objects derive from sympy.Basic (symbols are also callable)
+  if not callable(var) or isinstance(var, sympy.Symbol):
     return isinstance(var, sympy.Basic)
   return False
 
-- 
2.43.0


From 7f70d0c95d4c6457cd63438fc654b8235a06da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:43 +0000
Subject: [PATCH 090/117] fix: symbols by themselves among multiple symbolic
 expressions

---
 probayes/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 5cc043a..7e3da6a 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -212,7 +212,7 @@ class Expression:
       self._islambda = False
       self._isscalar = False
       self._isiconic = False
-      each_callable = [callable(expr) for expr in exprs]
+      each_callable = [callable(expr) and not isiconic(expr) for expr in exprs]
       each_islambda = [islambda(expr) for expr in exprs]
       each_isscalar = [isscalar(expr) for expr in exprs]
       each_isiconic = [isiconic(expr) for expr in exprs]
-- 
2.43.0


From 11b0c6897c0bd780528e8db34d7189f73aacef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:09 +0000
Subject: [PATCH 091/117] fix: parameters of SciPy distributions specified by
 position

---
 probayes/prob.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 6f5cce9..cb2931f 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -173,7 +173,8 @@ class Prob (Expression, SympyProb):
       self._prob = self._partials['logp'] if self._logp \
                    else self._partials['prob']
       if 'cdf' in self._keys and 'ppf' in self._keys:
-        self.set_pfun((self._expr.cdf, self._expr.ppf), *self._args, **self._kwds)
+        expr, args, kwds = self._scipy_distr()
+        self.set_pfun((expr.cdf, expr.ppf), *args, **kwds)
       if 'rvs' in self._keys and hasattr(self._expr, 'rvs'):
         self.set_sfun(self._expr.rvs, *self._args, **self._kwds)
 
@@ -209,11 +210,11 @@ class Prob (Expression, SympyProb):
         self._args, self._kwds = (), {} # No longer used
 
       # Iterate available methods
+      expr, args, kwds = self._scipy_distr()
       for method in SCIPY_DIST_METHODS:
-        if hasattr(self._expr, method):
+        if hasattr(expr, method):
           call = functools.partial(Expression._partial_call, self, 
-                                   getattr(self._expr, method),
-                                   *self._args, **self._kwds)
+                                   getattr(expr, method), *args, **kwds)
           self._partials.update({method: call})
 
       # Provide a common interface for PDF/PMF and LOGPDF/LOGPMF
@@ -231,6 +232,15 @@ class Prob (Expression, SympyProb):
 
     self._keys = list(self._partials.keys())
 
+#-------------------------------------------------------------------------------
+  def _scipy_distr(self):
+    """ Returns the SciPy distribution with arguments for its functions. As values
+    precede parameters in those functions, it is instantiated with parameters
+    if they are specified by position. """
+    if not len(self._args):
+      return self._expr, self._args, self._kwds
+    return self._expr(*self._args, **self._kwds), (), {}
+
 #-------------------------------------------------------------------------------
   @property
   def pscale(self):
-- 
2.43.0


From e2666beab255bc107995559f7705506235e2e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:28 +0000
Subject: [PATCH 092/117] fix: products of repeated observations match
 variables by value and dimension

---
 probayes/pd_utils.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index ca5807a..28c7c32 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -168,24 +168,27 @@ def product(*args, **kwds):
       prod_marg_name = ','.join(marg_names)
       prod_cond_name = ','.join(cond_names)
       prod_name = '|'.join([prod_marg_name, prod_cond_name])
-      prod_vals = collections.OrderedDict()
-      for i, val in enumerate(vals):
-        areunitsetints = np.array([isunitsetint(_val) 
-                                   for _val in val.values()])
-        if not np.any(areunitsetints):
-          prod_vals.update(val)
-        else:
-          assert marg_sets is not None, "Variable mismatch"
-          assert np.all(marg_sets == areunitsetints[:len(marg_sets)]), \
+      prod_vals = collections.OrderedDict(vals[0])
+      for val in vals[1:]:
+        for key in prod_vals.keys():
+          assert isunitsetint(prod_vals[key]) == isunitsetint(val[key]), \
               "Variable mismatch"
-          if not len(prod_vals):
-            prod_vals.update(collections.OrderedDict(val))
-          else:
-            for j, key in enumerate(prod_vals.keys()):
-              if areunitsetints[j]:
-                prod_vals.update({key: {list(prod_vals[key])[0] + \
-                                        list(val[key])[0]}})
+          if isunitsetint(val[key]):
+            prod_vals.update({key: {list(prod_vals[key])[0] + \
+                                    list(val[key])[0]}})
+          elif np.size(prod_vals[key]) != np.size(val[key]) or \
+              not np.allclose(np.ravel(prod_vals[key]), np.ravel(val[key])):
+            raise ValueError("Mismatch in values for variable {}".format(key))
       if marg_sets is not None:
+        dims_key = {dim: key for key, dim in args[0].dims.items() 
+                             if dim is not None}
+        for i, arg in enumerate(args): # match axes to those of first argument
+          axes = [arg.dims[dims_key[dim]] for dim in sorted(dims_key)]
+          for key, dim in args[0].dims.items():
+            assert arg.dims[key] == (None if dim is None else axes[dim]), \
+                "Dimension mismatch for variable {}".format(key)
+          if axes:
+            probs[i] = np.transpose(probs[i], axes)
         prob, pscale = prod_rule(*tuple(probs), pscales=pscales, pscale=pscale)
         return PD(prod_name, prod_vals, dims=args[0].dims, prob=prob, pscale=pscale)
       else:
-- 
2.43.0


From d4388e1156069503111191ddbe251a45bacefea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 093/117] fix: refuse to marginalise without variables sharing
 the dimension

---
 probayes/pd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/pd.py b/probayes/pd.py
index 9f5b84d..7d5a015 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -154,6 +154,9 @@ class PD (Distribution):
       else:
         if not self._aresingleton[i]:
           dim = self._dims[key]
+          assert dim not in sum_axes, \
+              "Dimensionality precludes marginalising {} without: {}".\
+              format(keys, key)
           dims.update({key: dim - sum([axis < dim for axis in sum_axes
                                        if axis is not None])})
         vals.update({key:self[key]})
-- 
2.43.0


From 9804a63417dec2fe372529ef38cb528202b6b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:16 +0000
Subject: [PATCH 094/117] fix: refuse products along axes without variables
 sharing the dimension

---
 probayes/pd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/pd.py b/probayes/pd.py
index 7d5a015..b8348a7 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -331,6 +331,9 @@ class PD (Distribution):
       else:
         if not self._aresingleton[i]:
           dim = self._dims[key]
+          assert dim not in prod_axes, \
+              "Dimensionality precludes product along {} without: {}".\
+              format(keys, key)
           dims.update({key: dim - sum([axis < dim for axis in prod_axes
                                        if axis is not None])})
         vals.update({key:self[key]})
-- 
2.43.0


From 6bfa07c7d67e0637451d1048e9a2e0d2d09009c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:16 +0000
Subject: [PATCH 095/117] fix: conditionalise with variables sharing the
 dimension of others

---
 probayes/pd.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index b8348a7..c60a7e8 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -254,21 +254,24 @@ class PD (Distribution):
     vals = collections.OrderedDict(super().redim(dims))
     old_dims = []
     new_dims = []
-    sum_axes = set()
+    sum_axes = None
     for key in self._keylist:
       old_dim = self._dims[key]
-      if old_dim is not None and old_dim not in old_dims:
-        old_dims.append(old_dim)
-        new_dims.append(dims[key])
+      if old_dim is not None:
+        if old_dim not in old_dims:
+          old_dims.append(old_dim)
+          new_dims.append(dims[key])
         if key not in keys and key in self._marg.keys():
-          sum_axes.add(dims[key])
+          sum_axes = sum_axes or set()
+          if old_dim not in key_dims:
+            sum_axes.add(dims[key])
     prob = np.moveaxis(self._prob, old_dims, new_dims)
     if normalise and iscomplex(self._pscale): 
       prob = prob - prob.max()
     prob = rescale(prob, self._pscale, 1.)
     if normalise:
       prob = div_prob(prob, np.sum(prob))
-    if len(sum_axes):
+    if sum_axes is not None:
       prob = div_prob(prob, \
                          np.sum(prob, axis=tuple(sum_axes), keepdims=True))
     prob = rescale(prob, 1., self._pscale)
-- 
2.43.0


From 36a54cd51286ead6d2e0a5c7be78ab559e09acbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:19 +0000
Subject: [PATCH 096/117] fix: looking up no variables does not return all

---
 probayes/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index c21d406..a807e65 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -213,7 +213,7 @@ class Distribution (NamedDict):
 #-------------------------------------------------------------------------------
   def lookup(self, keys, as_dist=False):
     """ Returns the values of Distribution filtering by keys """ 
-    keys = keys or self._keyset
+    keys = self._keyset if keys is None else keys
     keys = set(keys)
     vals = collections.OrderedDict()
     if as_dist:
-- 
2.43.0


From 1c313f1b4145ff01d115d5ea800ca24931e5da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:20 +0000
Subject: [PATCH 097/117] fix: number and dimensions of observations if a field
 function performs the iid product

---
 probayes/rf.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index cfa47bf..fd5c03a 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -566,15 +566,22 @@ class RF (Field, Prob):
         max_dim = dim if max_dim is None else max(dim, max_dim)
 
     # If scalar or prob is expected shape then perform product here
-    if max_dim is None or max_dim == prob.ndim - 1:
+    if max_dim is None or max_dim == np.ndim(prob) - 1:
       dist = PD(dist_name, vals, dims=dims, prob=prob, pscale=self._pscale)
       return dist.prod(iid)
 
     # Otherwise it is left to the user function to perform the iid product
     for key in iid:
-      vals[key] = {len(vals[key])}
+      vals[key] = {np.size(vals[key])}
       dims[key] = None
 
+    # The remaining dimensions are those of prob
+    keep_dims = sorted({dim for dim in dims.values() if dim is not None})
+    for key, dim in dims.items():
+      if dim is not None:
+        dims[key] = keep_dims.index(dim)
+        vals[key] = np.ravel(vals[key])
+
     # Tidy up probability
     return PD(dist_name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
-- 
2.43.0


From fa9176a2403f15a14e33fc453f4301161464b987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:58 +0000
Subject: [PATCH 098/117] fix: default dimensions when slicing by values

---
 probayes/rf_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index eccc860..2a1c36f 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -93,12 +93,13 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if isscalar(val):
         dims.update({key: None})
       else:
-        assert val.size == np.prod(vals.shape), \
-            "Multiple non-singleton dimensions: {}".format(val.size)
+        assert val.size == np.max(val.shape), \
+            "Multiple non-singleton dimensions: {}".format(val.shape)
         if val.size > 1:
-          run_dim = np.argmax(val.shape)
+          run_dim = int(np.argmax(val.shape))
         dims.update({key: run_dim})
         run_dim += 1
+    return dims
 
   # Default spec_dims and vals_dims if not given 
   if spec_dims is None:
-- 
2.43.0


From 33c5de3c2ca09fef0dcd9b82449ed6027fc931db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:51 +0000
Subject: [PATCH 099/117] fix: sampling propositions given independent
 observations

---
 probayes/sd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index dfb7696..fbce06e 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -231,16 +231,20 @@ class SD (Dependence, RF):
 #-------------------------------------------------------------------------------
   def _sample_prop(self, *args, **kwds):
 
+    # Keywords for the probability evaluation are not propositional
+    prop_kwds = {key: val for key, val in kwds.items() 
+                          if key not in ('iid', 'joint')}
+
     # Non-opqr argument requires no parsing
     if not isinstance(args[0], self._opqr):
-      prop = self.propose(args[0], **kwds)
+      prop = self.propose(args[0], **prop_kwds)
 
     # Otherwise parse:
     else:
       assert args[0].q is not None, \
           "An input opqr argument must contain a non-None value for opqr.q"
       vals = desuffix(args[0].q)
-      prop = self.propose(vals, **kwds)
+      prop = self.propose(vals, **prop_kwds)
 
     # Evaluation of probability
     vals = desuffix(prop)
-- 
2.43.0


From 61cfc0c53bd5e784638288eca0892edf268dcfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 100/117] fix: deterministic expression of a variable is not
 its name

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 2a1322d..3b6330c 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -765,7 +765,7 @@ class Variable (Icon):
     """ Sets iconic deterministic expression, substituting for icon in [:] """
     return self._dexpr
 
-  @name.setter
+  @dexpr.setter
   def dexpr(self, dexpr=None):
     self._dexpr = None if self._is_stochastic else dexpr
 
-- 
2.43.0


From e276992a2ee1f40dca54941e481cdd10d00d6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 101/117] fix: sampling functions of a distribution outlast its
 replacement

---
 probayes/prob.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/prob.py b/probayes/prob.py
index cb2931f..f60609e 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -134,6 +134,8 @@ class Prob (Expression, SympyProb):
     """
     pscale = None if 'pscale' not in kwds else kwds.pop('pscale')
     self.pscale = self._pscale if pscale is None else pscale
+    if self.__isscipy or self.__issympy: # discard those of a previous distribution
+      self._pfun, self._sfun = None, None
     self.__isscipy = is_scipy_stats_dist(prob)
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
-- 
2.43.0


From 7c89742c69212f1bdf17696e68020763708653e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 102/117] fix: sampling function of a transition outlasts its
 replacement

---
 probayes/rf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/probayes/rf.py b/probayes/rf.py
index fd5c03a..ad179b1 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -175,6 +175,11 @@ class RF (Field, Prob):
     :param *args: optional arguments to pass if tran is callable.
     :param **kwds: optional keywords to pass if tran is callable.
     """
+    # Discard the sampling function of a previous covariance or distribution
+    if isinstance(self._tran, Prob) and \
+        (self._tran.isscipy or not (self._tran.callable or self._tran.isscalar)):
+      self._tfun = None
+
     # Set transition function
     self._tran = tran
     self._sym_tran = False
-- 
2.43.0


From e9225b5add8ffe2dd67612f1de9982e76783b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:12 +0000
Subject: [PATCH 103/117] fix: refused order and delta specifications of
 expressions remain in force

---
 probayes/expression.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 7e3da6a..f5854dd 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -254,23 +254,21 @@ class Expression:
     """ Sets an order remapping dictionary for functional calls in which
     keyword arguments are mapped to position (in numeric) or rekeyed (if str).
     """
+    if order is not None:
+      assert self.__delta is None, "Cannot set both order and delta"
+      self._check_mapping(order)
     self.__order = order
-    if self.__order is None:
-      return
-    assert self.__delta is None, "Cannot set both order and delta"
-    self._check_mapping(self.__order)
 
 #-------------------------------------------------------------------------------
   def set_delta(self, delta=None):
     """ Sets a difference remapping dictionary for functional calls in which
     keyword arguments are mapped to position (in numeric) or rekeyed (if str).
     """
+    if delta is not None:
+      assert self.__order is None, "Cannot set both order and delta"
+      assert not self.isiconic, "Cannot set delta when using symbols"
+      self._check_mapping(delta)
     self.__delta = delta
-    if self.__delta is None:
-      return
-    assert self.__order is None, "Cannot set both order and delta"
-    assert not self.isiconic, "Cannot set delta when using symbols"
-    self._check_mapping(self.__delta)
 
 #-------------------------------------------------------------------------------
   def _check_mapping(self, mapping=None):
-- 
2.43.0


From 53ea8b3852b71f0f292c0ebe8a25d9584fe11639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:12 +0000
Subject: [PATCH 104/117] fix: derivative of an inverse outlasts the
 replacement of its expression

---
 probayes/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index f5854dd..ce12e35 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -170,7 +170,7 @@ class Expression:
     self.__delta = None
     self.__inverse = None
     self.__invexpr = None
-    self.__invderi = None
+    self.__derinv = None
     self.__invertible = False if 'invertible' not in kwds else \
                         self._kwds.pop('invertible')
     self._exprs = collections.OrderedDict()
-- 
2.43.0


From 626092b0d07f6c71b1dc44e50e6ca019cd6fbcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:47 +0000
Subject: [PATCH 105/117] fix: joint values of a field that start with a scalar
 share a dimension with the next variable

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 7c92406..6a64c55 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -430,7 +430,7 @@ class Field (NX_UNDIRECTED_GRAPH):
         for subkey in subkeys:
           dims[subkey] = ndim
           seen_keys.add(subkey)
-        if not isdimensionless(values[val_ref[0]][val_ref[1]]):
+        if not all([isdimensionless(val) for val in values[val_ref[0]]]):
           new_dim = True
       if new_dim:
         ndim += 1
-- 
2.43.0


From e556dd857b379adb23b86e7ecff840257cd6c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 106/117] fix: scaling of default deltas of variables is
 ignored

---
 probayes/variable.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 3b6330c..23b8a76 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -620,8 +620,12 @@ class Variable (Icon):
       if delta.callable:
         return delta
       delta = delta()
+    default = self._delta
     if isinstance(delta, self._Delta):
       delta = delta[0]
+    if isinstance(default, self._Delta):
+      default = default[0]
+    scale = delta == default and self._delta_kwds['scale']
     orand = isinstance(delta, tuple)
     urand = isinstance(delta, list)
     if orand:
@@ -639,7 +643,7 @@ class Variable (Icon):
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-    if delta == self._delta and self._delta_kwds['scale']:
+    if scale:
       assert np.isfinite(self._length), "Cannot scale by infinite length"
       delta *= self._length
     return self._Delta(delta)
@@ -667,13 +671,16 @@ class Variable (Icon):
       values = values[self.name] 
 
     # Call eval_delta() if values is a list and return values if delta is None
-    delta = self._delta if delta is None else delta
+    default = delta is None
+    delta = self._delta if default else delta
     if isinstance(delta, Expression):
       if delta.callable:
         return delta(values)
       delta = delta()
     elif self._vtype not in VTYPES[bool]:
-      if isinstance(delta, (list, tuple)):
+      if default:
+        delta = self.eval_delta()
+      elif isinstance(delta, (list, tuple)) and not isinstance(delta, self._Delta):
         delta = self.eval_delta(delta)
     if isinstance(delta, self._Delta):
       delta = delta[0]
-- 
2.43.0


From 129991f17de024605023d6c29d5af2159a5e684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 107/117] fix: exceptions to list deltas of fields are put in
 lists themselves

---
 probayes/field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 6a64c55..e220273 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -294,7 +294,9 @@ class Field (NX_UNDIRECTED_GRAPH):
       delta_dict = collections.OrderedDict(deltas)
       for i, (key, val) in enumerate(deltas.items()):
         delta = val
-        if scale and key not in unscale:
+        if key in unscale:
+          continue
+        if scale:
           assert np.isfinite(self._lengths[i]), \
               "Cannot scale by infinite length for Variable {}".format(key)
           delta = val * self._lengths[i]
-- 
2.43.0


From c1f0c742414a2b2ae502cee5ccacc1105b825a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 108/117] fix: scaling of default deltas of fields is ignored
 when applied

---
 probayes/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index e220273..ea660b8 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -536,7 +536,10 @@ class Field (NX_UNDIRECTED_GRAPH):
 
 #-------------------------------------------------------------------------------
   def apply_delta(self, values, delta=None):
-    delta = delta or self._delta
+    if delta is None:
+      delta = self._delta
+      if isinstance(delta, self._delta_type):
+        delta = self.eval_delta()
     if delta is None:
       return values
     if not isinstance(delta, self._delta_type):
-- 
2.43.0


From d44b008c5a0d322fc64ecb660fe7057ddbd68187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 109/117] fix: subfields by fields are refused and those by
 other variables are not

---
 probayes/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index ea660b8..e2d9ecd 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -621,7 +621,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     variables = []
     for vertex in vertices:
       if isinstance(vertex, Field):
-        variables += [vertex.ret_vars(aslist=True)]
+        variables += list(vertex.vars.values())
       elif isinstance(vertex, Variable):
         variables += [vertex]
       elif isinstance(vertex, str):
@@ -629,6 +629,9 @@ class Field (NX_UNDIRECTED_GRAPH):
       else:
         raise TypeError("Unrecognised vertex specification type: {}".format(
             type(vertex)))
+    for var in variables:
+      assert self._vars.get(var.name) is var, \
+          "Variable {} is not a member".format(var.name)
     return Field(*tuple(variables))
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From b69a014cacbd7e367e2a9fa5b0405e33584900a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 110/117] fix: steps of few variables at a time resume in the
 cycle of a replaced transition

---
 probayes/rf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/rf.py b/probayes/rf.py
index ad179b1..37db4c1 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -184,6 +184,7 @@ class RF (Field, Prob):
     self._tran = tran
     self._sym_tran = False
     self._tsteps = None
+    self.__cond_mod = None
     if self._tran is None:
       return
     assert self._anystoch, \
@@ -262,6 +263,7 @@ class RF (Field, Prob):
     """
     scipyobj = None if 'scipyobj' not in kwds else kwds['scipyobj']
     self._tfun = tfun 
+    self.__cond_mod = None
     if self._tfun is None:
       return
     if 'tsteps' in kwds:
-- 
2.43.0


From 5b0253fe5d10982ee1ec3151bbbb6c208db4c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:49 +0000
Subject: [PATCH 111/117] fix: dependences refuse arrays for and the unsetting
 of transitions and deltas

---
 probayes/dependence.py | 5 +++--
 probayes/sd.py         | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 69905fc..36b6e2e 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -317,7 +317,8 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     """ Returns a proxy object from _subfields. """
     if spec is None:
       return self._subfields
-    if not isinstance(spec, str) and spec not in self._subfields.values(): 
+    if not isinstance(spec, str) and \
+        (not isinstance(spec, Field) or spec not in self._subfields.values()):
       return False
     if isinstance(spec, str):
       assert spec in self._subfields, \
@@ -327,7 +328,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
 
 #-------------------------------------------------------------------------------
   def set_delta(self, delta=None, *args, **kwds):
-    _delta = self.leafs_roots(delta)
+    _delta = delta is not None and self.leafs_roots(delta)
     if not _delta:
       return super().set_delta(delta, *args, **kwds)
     self.set_prop_obj(_delta)
diff --git a/probayes/sd.py b/probayes/sd.py
index fbce06e..1661349 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -90,7 +90,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
-    _prop = self.leafs_roots(prop)
+    _prop = prop is not None and self.leafs_roots(prop)
     if not _prop:
       return super().set_prop(prop, *args, **kwds)
     self.set_prop_obj(_prop)
@@ -99,7 +99,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_tran(self, tran=None, *args, **kwds):
-    _tran = self.leafs_roots(tran)
+    _tran = tran is not None and self.leafs_roots(tran)
     if not _tran:
       self._tran_obj = self
       return super().set_tran(tran, *args, **kwds)
@@ -110,7 +110,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_tfun(self, tfun=None, *args, **kwds):
-    _tfun = self.leafs_roots(tfun)
+    _tfun = tfun is not None and self.leafs_roots(tfun)
     if not _tfun:
       self._tran_obj = self
       return super().set_tfun(tfun, *args, **kwds)
-- 
2.43.0


From ab9fd0528fc7df67aa7b89d8fd58fa643e94cf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:11 +0000
Subject: [PATCH 112/117] fix: fields can be extended by several variables,
 with the probability of them all

---
 probayes/field.py | 23 +++++++++--------------
 probayes/rf.py    |  7 +++++++
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index e2d9ecd..98c7d62 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -114,26 +114,21 @@ class Field (NX_UNDIRECTED_GRAPH):
 
     :param var: a Variable or Field instance, or a list/tuple of Variable instances.
     """
-    variables = []
-    if isinstance(var, (Field, dict, set, tuple, list)):
-      variables = var
-      if isinstance(variables, Field):
-        variables = variables.varlist
-      elif isinstance(variables, dict):
-        variables = list(variables.values())
+    variables = [var]
+    if isinstance(var, Field):
+      variables = var.varlist
+    elif isinstance(var, dict):
+      variables = list(var.values())
+    elif isinstance(var, (set, tuple, list)):
+      variables = list(var)
+    assert len(variables), "No variables specified"
     for var in variables:
       assert isinstance(var, Variable), \
           "Input not a variable instance but of type: {}".format(type(var))
       if self._nvars:
         assert var not in list(self.nodes), \
             "Existing variable {} already present in collection".format(var)
-      super().add_node(var)
-    else:
-      assert isinstance(var, Variable), \
-          "Input not a variable instance but of type: {}".format(type(var))
-      if self._nvars:
-        assert var not in list(self.nodes), \
-            "Existing variable {} already present in collection".format(var)
+    for var in variables:
       super().add_node(var)
     self._refresh()
 
diff --git a/probayes/rf.py b/probayes/rf.py
index 37db4c1..ecd26ac 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -59,6 +59,13 @@ class RF (Field, Prob):
     self.set_prop()
     self.set_tran()
 
+#-------------------------------------------------------------------------------
+  def add_var(self, var):
+    """ Adds one or more variables to the field (see Field.add_var()). """
+    super().add_var(var)
+    if self.__def_prob:
+      self.set_prob()
+
 #-------------------------------------------------------------------------------
   def add_cd(self, *args, **kwds):
     """ Adding of conditional dependences disallowed """
-- 
2.43.0


From 8ccafeb2f0605b685e2ab2d40ba7d644038a2db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 113/117] fix: default joint probabilities of fields with
 logarithmic scales are sums of those of the variables

---
 probayes/rf.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index ecd26ac..3526a70 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -3,6 +3,7 @@
 #-------------------------------------------------------------------------------
 import collections
 import numpy as np
+import sympy
 
 from probayes.field import Field
 from probayes.rv import RV
@@ -10,7 +11,7 @@ from probayes.prob import Prob
 from probayes.pd import PD
 from probayes.pd_utils import margcond_str
 from probayes.vtypes import isscalar, isunitsetint
-from probayes.pscales import iscomplex, prod_pscale
+from probayes.pscales import iscomplex, prod_pscale, logp_offs, prob_coef
 from probayes.rf_utils import rv_prod_rule, sample_cond_cov
 from probayes.rv_utils import lookup_joint, uniform_prob
 from probayes.expr import Expr
@@ -130,10 +131,21 @@ class RF (Field, Prob):
         if var.is_stochastic:
           var_prob = var.prob
           mul = var_prob if not isinstance(var_prob, Expr) else var_prob._expr
-          if prob is not None:
-            prob = prob * mul
-          else:
+          if self._logp and not var.logp:
+            mul = sympy.log(mul)
+          elif var.logp and not self._logp:
+            mul = sympy.exp(mul)
+          if prob is None:
             prob = mul
+          else:
+            prob = prob + mul if self._logp else prob * mul
+      pscales = [var.pscale for var in self._varlist if var.is_stochastic]
+      if self._logp:
+        offs = logp_offs(prod_pscale(pscales)) - logp_offs(self._pscale)
+        prob = prob + offs if offs else prob
+      else:
+        coef = prob_coef(prod_pscale(pscales)) / prob_coef(self._pscale)
+        prob = prob * coef if coef != 1. else prob
       self.set_prob(prob, pscale=self._pscale)
       self.__def_prob = True
 
-- 
2.43.0


From 91e86840437ae809cf364a5d983e3c4d2081b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:28 +0000
Subject: [PATCH 114/117] fix: conditional Gaussian samples follow limits in
 the upper tail

---
 probayes/cond_cov.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index 2be17b0..16549bd 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -54,10 +54,12 @@ class CondCov:
     number = list(args[idx])[0]
     mean = self._mean[idx] + float(self._coef[idx].dot(dmu))
     stdv = self._stdv[idx]
-    lims = scipy.stats.norm.cdf(self._lims[idx], loc=mean, scale=stdv)
-    cdf = uniform(lims[0], lims[1], number)
-    vals = np.clip(scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv), 
-                   *self._lims[idx])
+    norm = scipy.stats.norm(loc=mean, scale=stdv)
+    fun, inv = norm.cdf, norm.ppf
+    if self._lims[idx][0] > mean: # retain precision in the upper tail
+      fun, inv = norm.sf, norm.isf
+    lims = fun(self._lims[idx])
+    vals = np.clip(inv(uniform(lims[0], lims[1], number)), *self._lims[idx])
     if not cond_pdf:
       return vals
     return vals, scipy.stats.norm.pdf(vals, loc=mean, scale=stdv)
-- 
2.43.0


From ba6c603514665a9a6355eb452d127b18074a65ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:10 +0000
Subject: [PATCH 115/117] fix: variables are not renamed to the name of another

---
 probayes/distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index a807e65..4e65682 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -275,6 +275,8 @@ class Distribution (NamedDict):
     dims = collections.OrderedDict()
     for key in self._keylist:
       if key not in keymap.keys():
+        assert key not in vals, \
+            "Key map results in duplicate for key: {}".format(key)
         vals.update({key: self[key]})
         dims.update({key: self.dims[key]})
       else:
-- 
2.43.0


From 6e5559d63df063bdec14bec4142b89865861a1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:47 +0000
Subject: [PATCH 116/117] fix: expressions without a NumPy function are
 evaluated over the dimensions of their values

---
 probayes/expr.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 25b35be..2c824f9 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -185,7 +185,6 @@ class Expr:
     evalues = [None] * len(keys)
     ekeys = [None] * len(keys)
     isarray = [None] * len(keys)
-    vec_dim = [None] * len(keys)
     for i, key in enumerate(keys):
       if isinstance(values[key], bool): # Sympy doesn't like bool types
         values[key] = int(values[key])
@@ -193,11 +192,6 @@ class Expr:
       evalues[i] = values[key]
       _etype = type(evalues[i])
       isarray[i] = _etype is np.ndarray
-      if isarray[i]:
-        non_sing = np.array(evalues[i].shape) > 1
-        non_sing_sum = non_sing.sum()
-        if non_sing_sum > 0:
-          vec_dim[i] = int(np.nonzero(non_sing)[0][0])
       if etype is None: 
         if _etype in self._efun.keys():
           etype = _etype
@@ -225,13 +219,8 @@ class Expr:
     if any(isarray) and np.ndarray not in self._efun:
       efun = self._efun[None]
 
-      vec_dims = np.array([dim for dim in vec_dim if dim is not None])
-      # Is a sort required (meshgrid seems to prefer reverse order)?
-      if len(vec_dims) > 1 and np.max(np.diff(vec_dims)) > 0:
-        values = sort_ordered_dict(values, vec_dim, reverse=True)
-        evalues = list(values.values())
       mesh_values = [val for i, val in enumerate(evalues) if isarray[i]]
-      mesh_grid = np.meshgrid(*tuple(mesh_values), copy=False)
+      mesh_grid = np.broadcast_arrays(*tuple(mesh_values))
       revalues = collections.OrderedDict()
       shape = None
       mesh_idx = -1
-- 
2.43.0


From 98888b4cc15a140247d10bf7778cc32aa6ee2176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:47 +0000
Subject: [PATCH 117/117] fix: symbols whose names C reserves may be used in
 expressions

---
 probayes/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 2c824f9..b9e58cb 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -4,7 +4,7 @@
 import collections
 import sympy
 import numpy as np
-from sympy.utilities.autowrap import ufuncify
+from sympy.utilities.autowrap import ufuncify, CodeWrapError
 from probayes.variable_utils import parse_as_str_dict
 
 DEFAULT_EFUNS = [
@@ -156,7 +156,7 @@ class Expr:
       if key not in self._efun:
         try:
           self._efun.update({key: val(symbols, self._expr, *args, **kwds)})
-        except (TypeError, ImportError, AttributeError): # Bypass sympy bugs
+        except (TypeError, ImportError, AttributeError, CodeWrapError): # Bypass sympy bugs
           pass
           # import pdb; pdb.set_trace()
     return self._efun
-- 
2.43.0

