From 15370cdcb4f7c5f22378983fd4b17d1b31a3a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 01/87] fix: ncon appended to the caller's contraction order on
 disconnected networks

---
 xmps/ncon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xmps/ncon.py b/xmps/ncon.py
index 3508f1c..20ce087 100644
--- a/xmps/ncon.py
+++ b/xmps/ncon.py
@@ -38,9 +38,12 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
     else:
         v = list(map(list, v))
 
-    if order == None:
+    if order is None:
         order = create_order(v)
-    if forder == None:
+    else:
+        # connect_graph appends to order: leave the caller's list alone
+        order = list(order)
+    if forder is None:
         forder = create_forder(v)
 
     if check_indices:
-- 
2.43.0


From f265ed979c643cc4b39441eb5f6e28da92d1387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 02/87] fix: ncon index check let the meaningless label 0
 through

---
 xmps/ncon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmps/ncon.py b/xmps/ncon.py
index 20ce087..d71a5b0 100644
--- a/xmps/ncon.py
+++ b/xmps/ncon.py
@@ -273,6 +273,9 @@ def do_check_indices(AA, v, order, forder):
                                                 len(shapes[i])))
 
     #3) and 4)
+    if any(i == 0 for inds in v for i in inds):
+        raise ValueError('In ncon.do_check_indices, the index 0 is neither '
+                         'contracted (positive) nor free (negative)')
     # v_pairs = [[(0,0), (0,1), (0,2), ...], [(1,0), (1,1), (1,2), ...], ...]
     v_pairs  = [[(i,j) for j in range(len(s))] for i, s in enumerate(v)]
     v_pairs = sum(v_pairs, [])
-- 
2.43.0


From 276bd839d744719373528ef3427f47b537fb89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 03/87] fix: direct_sum failed on rectangular blocks

---
 xmps/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 2212f12..8051968 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -77,8 +77,7 @@ def eye_like(A):
 
 def direct_sum(A, B):
     (a1, a2), (b1, b2) = A.shape, B.shape
-    O = zeros((a2, b1))
-    return block([[A, O], [O.T, B]])
+    return block([[A, zeros((a1, b2))], [zeros((b1, a2)), B]])
     
 def haar_unitary(n):
     return qr(randn(n, n)+1j*randn(n, n))[0]
-- 
2.43.0


From 8954ffd0cd1b2f30e41d5760f57b3e4e5f09a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 04/87] fix: uqr and urq dropped columns when a diagonal entry
 of r was zero

---
 xmps/tensor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 8051968..49fd3e4 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -60,14 +60,17 @@ def deembed(u):
 def uqr(A):
     '''Unique qr decomposition'''
     q, r = qr(A, mode='economic')
-    O = diag(sign(diag(r)))
+    s = sign(diag(r))
+    s[s == 0] = 1 # a zero on the diagonal has no sign to fix
+    O = diag(s)
     return q@O, O@r
 
 def urq(A):
     '''Unique rq decomposition'''
     r, q = rq(A, mode='economic')
-    q_, r_ = qr(A, mode='economic')
-    O = diag(sign(diag(r)))
+    s = sign(diag(r))
+    s[s == 0] = 1 # a zero on the diagonal has no sign to fix
+    O = diag(s)
     return r@O, O@q
 
 def eye_like(A):
-- 
2.43.0


From 91c574dd9ae1f76d9114471775df79df74550f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 05/87] fix: split_up crashed when given p and q instead of d

---
 xmps/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 49fd3e4..6243d31 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -436,6 +436,7 @@ def split_up(H, d=None, p=None, q=None):
     if d is None:
         if p is None and q is None:
             raise Exception
+        d = H.shape[0]//p
 
     h = zeros((d, d, p, q)) + 1j*zeros((d, d, p, q))
     for i in range(d):
-- 
2.43.0


From 6b7fe8bb0cb7c6e8ed537100b2344f96496f49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 06/87] fix: loc_3 exchanged the second and third factor and
 split_up_3 assumed d=2

---
 xmps/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 6243d31..a4a9731 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -410,7 +410,7 @@ def loc_3(rs, tu, vw, d):
     v, w = vw
     t, u  = tu
 
-    index = (d**2*r + d*v+t, d**2*s + d*w + u)
+    index = (d**2*r + d*t+v, d**2*s + d*u + w)
     return index
 
 def split_up_3(H, d):
@@ -421,7 +421,7 @@ def split_up_3(H, d):
                 for l in range(d):
                     for m in range(d):
                         for n in range(d):
-                            h[i, j, k, l, m, n] = H[loc_3((i, j), (k, l), (m, n), 2)]
+                            h[i, j, k, l, m, n] = H[loc_3((i, j), (k, l), (m, n), d)]
     return h
 
 def split_up(H, d=None, p=None, q=None):
-- 
2.43.0


From 96113a1fc74a7fcd9b0145c5dd727a5ae3466888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 07/87] fix: lanczos_expm without expokit passed the time as an
 interval start

---
 xmps/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index a4a9731..ab47a1e 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -31,7 +31,7 @@ try:
         return output_vec
 except:
     def lanczos_expm(A, v, t):
-        return expm_multiply(A, v, t)
+        return expm_multiply(t*A, v)
 
 def embed(v):
     '''put matrix in form
-- 
2.43.0


From a729a60d73ed5851b925094a5614291a503dc3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 08/87] fix: diagonalise lost unitarity on degenerate
 environments

---
 xmps/tensor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index ab47a1e..e829d1a 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -3,7 +3,7 @@ import unittest
 from numpy.random import randn
 from scipy.sparse.linalg import eigs as arnoldi
 from scipy.linalg import qr, expm, norm, svd
-from numpy.linalg import eig as neig, eigvals, inv
+from numpy.linalg import eig as neig, eigh, eigvals, inv
 from numpy import swapaxes, count_nonzero, diag, insert, pad, dot, argmax, sqrt
 from numpy import allclose, array, tensordot, transpose, all, identity, squeeze
 from numpy import isclose, mean, sign, kron, zeros, conj, max, concatenate, eye
@@ -240,8 +240,10 @@ def tr_svd(A, D):
 def diagonalise(M):
     """diagonalise: wrap eig better
        :param M: matrix to diagonalise """
-    S, V = neig(M)
-    return (V, diag(S))
+    # M is hermitian (up to rounding): eig returns non orthogonal V for degenerate
+    # spectra, and an arbitrary order of eigenvalues (zeros have to come last)
+    S, V = eigh(M)
+    return (V[:, ::-1], diag(S[::-1]))
 
 def rotate_to_hermitian(r, testing=False, ret_phase=False):
     """rotate_to_hermitian: arnoldi returns matrices that are hermitian up
-- 
2.43.0


From fbaf847b4e9ff7290f3bc6fa6fb6b32a6c52e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 09/87] fix: fMPS.E and E_ measured the transposed operator
 (unlike Es, E_k, E_L)

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 084d638..bcb2f21 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -922,7 +922,7 @@ class fMPS(object):
         if (not self.canonical and not self.orthogonal) or (hasattr(self, 'oc') and self.oc != site):
             self.mixed_orthogonalise(site)
         M = self[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]], [3, 4, 1, 2]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]], [3, 4, 1, 2]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def E_(self, op, site):
@@ -932,7 +932,7 @@ class fMPS(object):
         :param site: site
         """
         M = self.mixed_canonicalise(site, sweep_back=True)[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def Es(self, ops, site):
-- 
2.43.0


From d89856e21581927e5d8ee0becb2f7edc7619ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 10/87] fix: one-based indexing of fMPS was off by two

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index bcb2f21..ddaca53 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -175,7 +175,7 @@ class fMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
-- 
2.43.0


From 179990abe53513ff686b487b0c3378dd4a37805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 11/87] fix: right_transfer(ret_all=False) returned the
 untransferred operator

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ddaca53..5dbc540 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -830,7 +830,7 @@ class fMPS(object):
         oplinks = list(range(-1, -len(op.shape)+1, -1))+[2, 3]
         for m in range(i+1, j+1):
             Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)+1], [1, 2, -len(op.shape)], oplinks]))
-        return (lambda n: Rs[n-i-1]) if ret_all else Rs[0]
+        return (lambda n: Rs[n-i-1]) if ret_all else Rs[-1]
 
     def links(self, k=None, op=True):
         """links: op True: return the links for ncon for full contraction of this
-- 
2.43.0


From 4a5a1b559606eb93d33d42d6ff2867ae17b0a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 12/87] fix: mixed_canonicalise recorded site 0 as
 orthogonality center

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 5dbc540..f7747c8 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -621,7 +621,6 @@ class fMPS(object):
         :param testing: test canonicalness
         """
         self.ok = True
-        self.oc = oc
         self.right_canonicalise(D, minD=False, sweep_back=sweep_back)
 
         def split(M):
@@ -645,6 +644,7 @@ class fMPS(object):
 
         self.canonical = True
         self.orthogonal = True
+        self.oc = oc # right_canonicalise set it to 0
         return self
 
     def right_orthogonalise(self, fr=0, to=None):
-- 
2.43.0


From 01919d12395da7b6eda33199654905d7ce056d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 13/87] fix: a stale orthogonality center survived edits,
 partial sweeps, post selection and growth

---
 xmps/fMPS.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index f7747c8..f052b91 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -156,19 +156,24 @@ class fMPS(object):
         self.id = uuid.uuid4().hex # for memoization
         self.id_ = uuid.uuid4().hex # for memoization
         self.id__ = uuid.uuid4().hex # for memoization
+        self.forget_form()
         if data is not None:
             self.L = len(data)
             if d is not None:
                 self.d = d
             else:
                 self.d = data[0].shape[0]
+            self.data = data
+            self.D = max([max(x.shape[1:]) for x in data])
             if D is not None:
                 self.right_canonicalise(D)
-            else:
-                self.D = max([max(x.shape[1:]) for x in data])
-            self.data = data
-            self.canonical = False
-            self.orthogonal = False
+
+    def forget_form(self):
+        """forget_form: tensors have changed, so nothing is known about the form they are in
+        """
+        self.canonical = False
+        self.orthogonal = False
+        self.oc = None
 
     def __call__(self, k):
         """__call__: 1-based indexing
@@ -188,6 +193,7 @@ class fMPS(object):
         """__setitem__
         """
         self.data[key] = value
+        self.forget_form()
 
     def __eq__(self, other):
         """__eq__
@@ -653,6 +659,7 @@ class fMPS(object):
            :param fr: where to orthogonalise from. Inclusive (self[fr] gets orthoed)"""
         to = self.L if to is None else to
         for m in reversed(range(fr, to)):
+            self.forget_form() # until the whole chain is done
             A, pipe = group_legs(self.data[m], [[1], [0, 2]])
             R, Q = sp.linalg.rq(A, mode='economic')
             self.data[m] = ungroup_legs(Q, pipe)
@@ -671,6 +678,7 @@ class fMPS(object):
            :param to: where to orthogonalise to. Exclusive (self[to] doesn't get orthoed"""
         to = self.L if to is None else to
         for m in range(fr, to):
+            self.forget_form() # until the whole chain is done
             A, pipe = group_legs(self.data[m], [[0, 1], [2]])
             Q, R = sp.linalg.qr(A, mode='economic')
             self.data[m] = ungroup_legs(Q, pipe)
@@ -860,6 +868,8 @@ class fMPS(object):
         else:
             self.data[site+1] = self.data[site][which, :, :]@self.data[site+1]
         del self.data[site]
+        self.L = len(self.data)
+        self.forget_form()
         return self
 
     def apply_two_site(self, opsites, which='l', D=None, truncate_swaps=False):
@@ -919,7 +929,7 @@ class fMPS(object):
         :param op: 1 site operator
         :param site: site
         """
-        if (not self.canonical and not self.orthogonal) or (hasattr(self, 'oc') and self.oc != site):
+        if (not self.canonical and not self.orthogonal) or self.oc != site:
             self.mixed_orthogonalise(site)
         M = self[site]
         return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]], [3, 4, 1, 2]))
@@ -946,7 +956,7 @@ class fMPS(object):
         :param sites: sites operator acts on. Should be contiguous
         :param single_string: whether the operator is of the form OxO'xO''x... (vs. sum of similar) 
                if so, op should be list [(d, d), (d, d), ..]'''
-        if (not self.canonical and not self.orthogonal) or (hasattr(self, 'oc') and self.oc not in sites):
+        if (not self.canonical and not self.orthogonal) or self.oc not in sites:
             self.mixed_orthogonalise(sites[0])
         Ms = [self.data[x] for x in sites]
         k = len(sites)
@@ -976,7 +986,7 @@ class fMPS(object):
         if self.bond_dimension == 1 and single_string:
             return [ncon([np.squeeze(self[i])]+[np.squeeze(self[i].conj())], [[-1], [-2]]) for i in sites]
         else:
-            if not hasattr(self, 'oc') or self.oc not in sites:
+            if self.oc not in sites:
                 self.mixed_orthogonalise(sites[0])
             links = [([-i, i, i+1] if i!= len(sites) else [-i, i, 2*len(sites)+1]) for i in range(1, len(sites)+1)]+\
                     [([-i, i, i+1] if i != len(sites)+1 else [-i, 1, i+1]) for i in range(len(sites)+1, 2*len(sites)+1)]
@@ -1155,6 +1165,7 @@ class fMPS(object):
             A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
 
         self.D = max([max(shape) for shape in self.structure()])
+        self.forget_form()
 
         return self
 
-- 
2.43.0


From 8212d0f215032a5c351aa88fefddfec543050524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 14/87] fix: comparing fMPS of different lengths or shapes gave
 True or raised

---
 xmps/fMPS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index f052b91..5115c1d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -200,8 +200,10 @@ class fMPS(object):
 
         :param other:
         """
-        return array(
-            [allclose(a, b) for a, b in zip(self.data, other.data)]).all()
+        if not isinstance(other, fMPS) or len(self) != len(other):
+            return False
+        return all(a.shape == b.shape and allclose(a, b)
+                   for a, b in zip(self.data, other.data))
 
     def __ne__(self, other):
         """__ne__
-- 
2.43.0


From ef085c59b75c4ae7f6f200333757427609173edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 15/87] fix: cache keys of the tangent space tensors collided
 for sites above 9

---
 xmps/fMPS.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 5115c1d..cd7d6d0 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1390,12 +1390,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F1_tot_ij_mem:
-                return self.F1_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F1_tot_ij_mem:
+                return self.F1_tot_ij_mem[(i_, j_)]
 
             ## have we cached its conjugate?
-            if str(j_)+str(i_) in self.F1_tot_ij_mem:
-                return c(tra(self.F1_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F1_tot_ij_mem:
+                return c(tra(self.F1_tot_ij_mem[(j_, i_)],
                                 [2, 3, 0, 1]))
 
         L, d, A = self.L, self.d, self.data
@@ -1637,7 +1637,7 @@ class fMPS(object):
             return G
 
         G_ = c(tra(G_, [2, 3, 0, 1])) if j_<i_ else G_
-        self.F1_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F1_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def F2(self, i_, j_, H, envs=None, inv_envs=None, prs_vLs=None, fullH=False, testing=False, id=None):
@@ -1654,12 +1654,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F2_tot_ij_mem:
-                return self.F2_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F2_tot_ij_mem:
+                return self.F2_tot_ij_mem[(i_, j_)]
 
             # have we cached its transpose?
-            if str(j_)+str(i_) in self.F2_tot_ij_mem:
-                return tra(self.F2_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F2_tot_ij_mem:
+                return tra(self.F2_tot_ij_mem[(j_, i_)],
                            [2, 3, 0, 1])
 
         L, d, A = self.L, self.d, self.data
@@ -1697,13 +1697,13 @@ class fMPS(object):
 
             d, Din_1, Di = self[i].shape
             if not d*Din_1==Di:
-                if str(i)+str(j) not in self.F2_ij_mem:
+                if (i, j) not in self.F2_ij_mem:
                     # new stuff
                     Rj_ = ncon([inv_ch_l(j-1)@c(vL(j)), A[j]@ch_r(j)], [[1, -2, -3], [1, -1, -4]])
                     Rjs_ = self.left_transfer(Rj_, i, j)
-                    self.F2_ij_mem_[str(i)+str(j)] = Rjs_
+                    self.F2_ij_mem_[(i, j)] = Rjs_
                 else:
-                    Rjs_ = self.F2_ij_mem_[str(i)+str(j)]
+                    Rjs_ = self.F2_ij_mem_[(i, j)]
 
                 if str(i) not in self.F2_i_mem:
                     # new stuff
@@ -1801,7 +1801,7 @@ class fMPS(object):
             return G
 
         G_ = tra(G_, [2, 3, 0, 1]) if j_<i_ else G_
-        self.F2_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F2_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def christoffel(self, i, j, k, envs=None, prs_vLs=None, id=None, testing=True, closed=(None, None, None)):
@@ -1818,12 +1818,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i)+str(j)+str(k) in self.christ_tot_ij_mem:
-                return self.christ_tot_ij_mem[str(i)+str(j)+str(k)]
+            if (i, j, k) in self.christ_tot_ij_mem:
+                return self.christ_tot_ij_mem[(i, j, k)]
 
             ## have we cached its conjugate?
-            if str(j)+str(i)+str(k) in self.christ_tot_ij_mem:
-                return tra(self.christ_tot_ij_mem[str(j)+str(i)+str(k)],
+            if (j, i, k) in self.christ_tot_ij_mem:
+                return tra(self.christ_tot_ij_mem[(j, i, k)],
                            [3, 4, 5, 0, 1, 2])
 
         L, d, A = self.L, self.d, self.data
@@ -1866,15 +1866,15 @@ class fMPS(object):
                     G = 1j*zeros((*A[i].shape, *A[j].shape, *A[k].shape))
             else:
                 if contracted:
-                    if str(i)+str(j) not in self.christ_ij_mem:
+                    if (i, j) not in self.christ_ij_mem:
                         if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
                             Rs = self.dA_cache[str(j)]
                         else:
                             R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
                             Rs = self.left_transfer(R, i, j)
-                            self.christ_ij_mem[str(i)+str(j)] = Rs
+                            self.christ_ij_mem[(i, j)] = Rs
                     else:
-                        Rs = self.christ_ij_mem[str(i)+str(j)]
+                        Rs = self.christ_ij_mem[(i, j)]
 
                     G = ncon([pr(i), closed[-1]@inv(r(i)), Rs(i+1), inv(r(i))], [[-1, -2, 1, 2], [1, 2, 3], [3, 4, -4, -5, -6], [4, -3]],
                              [1, 2, 3, 4])
@@ -1902,7 +1902,7 @@ class fMPS(object):
         else:
             Γ_c = Γ(i, j, k)
 
-        self.christ_tot_ij_mem[str(i)+str(j)+str(k)] = Γ_c
+        self.christ_tot_ij_mem[(i, j, k)] = Γ_c
         if contracted:
             return ungauge(Γ_c, i, j, (True, True))
         else:
-- 
2.43.0


From b7f1619dc957529bad81bb8193ba510ac5908594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 16/87] fix: F1 assumed local dimension 2

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index cd7d6d0..58e004f 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1423,7 +1423,7 @@ class fMPS(object):
             d, Din_1, Di = self[i].shape
 
             if not d*Din_1==Di:
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
@@ -1501,7 +1501,7 @@ class fMPS(object):
             if testing:
                 G = 1j*zeros((*A[i].shape, *A[j].shape))
                 d, Din_1, Di = self[i].shape
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
                 Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
-- 
2.43.0


From 73be109673aaa0d8e726f7a3f22e164eb282cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 17/87] fix: christoffel used transfer matrices of a previous
 state

---
 xmps/fMPS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 58e004f..220c788 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -174,6 +174,7 @@ class fMPS(object):
         self.canonical = False
         self.orthogonal = False
         self.oc = None
+        self.dA_cache = {}
 
     def __call__(self, k):
         """__call__: 1-based indexing
@@ -1867,7 +1868,7 @@ class fMPS(object):
             else:
                 if contracted:
                     if (i, j) not in self.christ_ij_mem:
-                        if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
+                        if str(j) in self.dA_cache:
                             Rs = self.dA_cache[str(j)]
                         else:
                             R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
-- 
2.43.0


From be78e9bfaedd65cdb2fadc35684d211e84549604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 18/87] fix: fMPS.energy of a list of terms was divided by the
 length (unlike the full matrix)

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 220c788..5df1aa0 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1020,7 +1020,7 @@ class fMPS(object):
                 h = h.reshape(*[self.d]*4)
                 C = ncon([h]+self.data[m:m+2], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]])
                 e.append(ncon([c(l(m-1))@self.data[m].conj(), self.data[m+1].conj()@c(r(m+1))]+[C], [[1, 3, 4], [2, 4, 5], [1, 2, 3, 5]]))
-            return re(sum(e))/self.L
+            return re(sum(e))
         else:
             return self.E_L(H)
 
-- 
2.43.0


From 1b0865aba8d859dbfe645b04f9feb25d7624525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 19/87] fix: random product states ignored the local dimension

---
 xmps/fMPS.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 5df1aa0..f201076 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -417,7 +417,8 @@ class fMPS(object):
         """
         self.L = L
         self.d = d
-        if D == 1:
+        self.forget_form()
+        if D == 1 and d == 2:
             self.D = 1
             # random product states
             V = randn(L, 3)
@@ -438,8 +439,6 @@ class fMPS(object):
                 for shape in self.create_structure(L, d, D)]
         self.D = max([max(shape[1:]) for shape in self.create_structure(L, d, D)])
         self.data = MPS
-        self.canonical = False
-        self.orthogonal = False
         return self
 
     def create_structure(self, L, d, D, phys=False):
@@ -465,7 +464,7 @@ class fMPS(object):
             structure = left + [(left[-1][-1], transpose(left[::-1])[0][0])] +\
                         transpose(left[::-1])
         if phys:
-            return [(self.d, *st) for st in structure]
+            return [(d, *st) for st in structure]
         else:
             return structure
 
-- 
2.43.0


From 730622a26205d33e861c001e7b533d3470148642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 20/87] fix: fTFD.E and Es measured the transposed operator

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index f201076..62fe450 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2188,12 +2188,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op))) if lr == 0 else kron(eye(len(op)), op)
         M = self.mixed_canonicalise(site)[site]
-        return np.real(trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0)))
+        return np.real(trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0)))
 
     def Es(self, ops, site, lr=0):
         ops = [kron(op, eye(len(op))) for op in ops] if lr == 0 else [kron(eye(len(op)), op) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return np.array([trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return np.array([trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops])
 
 class vfMPS(object):
-- 
2.43.0


From fa66531eb2d546777d3e27d89b4e8668040450f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 21/87] fix: fTFD.dA_dt mixed up the two copies of neighbouring
 sites and dropped fullH

---
 xmps/fMPS.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 62fe450..35157b2 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2176,9 +2176,14 @@ class fTFD(fMPS):
         return pr
 
     def dA_dt(self, H, fullH=False):
-        H_ = [(kron(eye(len(h)), h)+kron(h, eye(len(h)))) for h in H]
-        dA_dt = super().dA_dt(H_, fullH)
-        return dA_dt
+        d = int(sqrt(self.d))
+        def double(h):
+            # H⊗1+1⊗H, with the two copies of each site next to each other
+            n = int(round(log(len(h))/log(d)))
+            order = [x for i in range(n) for x in (i, n+i)]
+            H_ = kron(eye(len(h)), h)+kron(h, eye(len(h)))
+            return tra(H_.reshape([d]*(4*n)), order+[2*n+x for x in order]).reshape(H_.shape)
+        return super().dA_dt(double(H) if fullH else [double(h) for h in H], fullH=fullH)
 
     def E(self, op, site, lr=0):
         """E: one site expectation value
-- 
2.43.0


From ca2974b73b2230c02b213e07dfe82dea44e86b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 22/87] fix: fTFD.local_overlap always raised

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 35157b2..625ec7d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2123,14 +2123,14 @@ class fTFD(fMPS):
         partition should be contiguous
         should be local overlap with fMPS (NOT fTFD)
         """
-        if not isinstance(other, 'fMPS'):
+        if not isinstance(other, fMPS) or isinstance(other, fTFD):
             raise NotImplementedError('other should be an fMPS, set double to get the overlap with the embedded fTFD')
         if not other.bond_dimension == 1:
             raise NotImplementedError('Only implemented local overlaps for <ψψ|data>')
         if double:
             return self.E_k([np.kron(ρ, ρ) for ρ in other.rho(sites)], sites, single_string=True)
         else:
-            return self.E_k([np.kron(np.eye(2), ρ) for ρ in other.rho(sites)], sites, single_string=True)
+            return self.E_k([np.kron(np.eye(len(ρ)), ρ) for ρ in other.rho(sites)], sites, single_string=True)
 
 
     def symmetry(self):
-- 
2.43.0


From efda2aa5fc99a9f41b8ef6d3e11fa3aea5e90c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 23/87] fix: the copy of a thermofield double was a plain chain

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 625ec7d..673e656 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -923,7 +923,7 @@ class fMPS(object):
         return self
 
     def copy(self):
-        return fMPS(self.data.copy())
+        return type(self)(self.data.copy())
 
     def E(self, op, site):
         """E: one site expectation value
-- 
2.43.0


From fcf0526cc2316f0cacaa515d56bdfd50259f3ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 24/87] fix: two site operators ignored the order of sites, one
 site ones on a pair raised, and swaps assumed d=2

---
 xmps/fMPS.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 673e656..b399d5e 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -89,6 +89,10 @@ def apply_unitary(tensors, U, which='l', D=None):
     else:
         return separate_tensor_svd(np.tensordot(U, group_tensors(tensors), [1, 0]), D, which)
 
+def swap(d):
+    '''exchange of two sites of local dimension d'''
+    return np.eye(d**2).reshape(d, d, d, d).transpose(1, 0, 2, 3).reshape(d**2, d**2)
+
 def apply_isometry(tensors, Is):
     return np.tensordot(Is, group_tensors(tensors), [1, 0])
 
@@ -884,16 +888,19 @@ class fMPS(object):
         swap_D = None if not truncate_swaps else D
         op, sites = opsites
         assert op.shape[0]==op.shape[1]
-        if op.shape[0] == 2:
+        if op.shape[0] == self.d:
             if len(sites) == 1:
                 self = self.apply((op, sites[0]))
                 return self
             else:
-                self = self.apply((op, [i, j][{'l':0, 'r':1}[which]]))
+                self = self.apply((op, sites[{'l':0, 'r':1}[which]]))
                 return self
         else:
             i, j = sites
-            i, j = (i, j) if (j > i) else (j, i)
+            SWAP = swap(self.d)
+            if i > j:
+                # the first factor of op acts on the first site given
+                i, j, op = j, i, SWAP@op@SWAP
             i_ = j-1
             while i_ >= i+1:
                 self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], SWAP, which, swap_D)
@@ -910,8 +917,9 @@ class fMPS(object):
         # replaces (left, right)[lr] site with the result of the isometry
         op, (i, j) = opsites
         assert j != i
+        SWAP = swap(self.d)
         if not j > i:
-            j, i = i, j
+            j, i, op = i, j, op@SWAP
         i_ = j-1
         while i_ >= i+1:
             self.apply_two_site((SWAP, (i_, i_+1)))
-- 
2.43.0


From f6727793fcca8e19d4908a2298f54e0ff7413112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 25/87] fix: the density matrices of unnormalised product
 states were not normalised

---
 xmps/fMPS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index b399d5e..9555871 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -994,7 +994,8 @@ class fMPS(object):
         :param single_string: whether to return a list of density matrices if D=1
         '''
         if self.bond_dimension == 1 and single_string:
-            return [ncon([np.squeeze(self[i])]+[np.squeeze(self[i].conj())], [[-1], [-2]]) for i in sites]
+            vs = [np.squeeze(self[i])/norm(np.squeeze(self[i])) for i in sites]
+            return [ncon([v]+[v.conj()], [[-1], [-2]]) for v in vs]
         else:
             if self.oc not in sites:
                 self.mixed_orthogonalise(sites[0])
-- 
2.43.0


From ef7402d376caafb4cfec9a7704f81f6f3b72152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 26/87] fix: rho_proj conjugated both states in the overlap of
 the traced sites

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 9555871..7c79042 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1012,7 +1012,7 @@ class fMPS(object):
         '''
         if self.bond_dimension == 1 and single_string:
             not_sites = [site for site in range(self.L) if site not in sites]
-            partial_overlap = [np.squeeze(self[i]).conj().T@np.squeeze(other[i].conj()) for i in not_sites]
+            partial_overlap = [np.squeeze(self[i])@np.squeeze(other[i].conj()) for i in not_sites]
             return np.prod(partial_overlap)*reduce(np.kron, [ncon([np.squeeze(self[i])]+[np.squeeze(other[i].conj()).T], [[-1], [-2]]) for i in sites])
 
 
-- 
2.43.0


From 29112fd89f2fda6384421de11fb85c341e0c4652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 27/87] fix: Hamiltonian expanded the one-site terms in the
 caller's dictionary

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 28a145f..67d5554 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -18,7 +18,7 @@ class Hamiltonian(object):
 
     def __init__(self, strings=None, matrices=None, d=2):
         if strings is not None:
-            self.strings = strings
+            self.strings = dict(strings) # expanded below: not the caller's
             for key, val in {key:val for key, val in self.strings.items()}.items():
                 if len(key)==1:
                     self.strings['I'+key] = val
-- 
2.43.0


From 2865e1dff65c78f0e1d50b45dc92e66fcab6a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 28/87] fix: the fields of a two site chain were halved

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 67d5554..803bc5e 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -115,7 +115,7 @@ class Hamiltonian(object):
         H_L = Hamiltonian(h_L_strings)._squeeze()
         H_i = Hamiltonian(h_i_strings)._squeeze()
         if L==2:
-            return [H_i.to_matrix()]
+            return [self.to_matrix()] # both sites are ends
         elif L==3:
             return [H_0.to_matrix()] + [H_L.to_matrix()]
         else:
-- 
2.43.0


From 1f8c3971e0217ff0c7dd9c22adf71254d399d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 29/87] fix: Hamiltonian.from_matrix always raised

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 803bc5e..e19080e 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -124,7 +124,7 @@ class Hamiltonian(object):
     def from_matrix(self, mat):
         xyz = list(S.keys())
         strings = list(product(xyz, xyz))
-        self.strings = {a+b:trace(kron(a, b)@mat) for a, b in strings}
+        self.strings = {a+b:trace(kron(S[a], S[b])@mat)/4 for a, b in strings}
         del self.strings['II']
         return self
 
-- 
2.43.0


From 9396df02c9c393716c61bab5f52b8eb8e7c46477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 30/87] fix: Hamiltonian.to_full failed for named terms and
 other local dimensions, and kept the first length

---
 xmps/Hamiltonians.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index e19080e..7c03a70 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -41,8 +41,8 @@ class Hamiltonian(object):
         if self.has_matrices:
             dk = self.matrices[0].shape[0]
             k = math.log(dk, self.d)
-            assert np.allclose(k, int(k))
-            return int(k)
+            assert np.allclose(k, round(k))
+            return round(k)
     @property
     def L(self):
         if not self.has_matrices:
@@ -132,11 +132,13 @@ class Hamiltonian(object):
         if not self.has_matrices:
             if self.has_strings:
                 assert L is not None
-                self.matrices = self.to_matrices(L)
+                # not stored: the matrices depend on L
+                return Hamiltonian(matrices=self.to_matrices(L)).to_full()
             else:
                 raise Exception('No strings or matrices')
         if self.has_matrices:
-            total = np.zeros((2**self.L, 2**self.L))*1j
+            I = np.eye(self.d)+0j
+            total = np.zeros((self.d**self.L, self.d**self.L))*1j
             for i, matrix in enumerate(self.matrices):
                 total += reduce(np.kron, [I]*i+[matrix]+[I]*(self.L-self.k-i))
             return total
-- 
2.43.0


From 95e1dbec0c757a840ccb6cd3a5e441ae6afbdae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 31/87] fix: a one-site term replaced the same field given for
 one side of the bond

---
 xmps/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 7c03a70..217b740 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -21,8 +21,8 @@ class Hamiltonian(object):
             self.strings = dict(strings) # expanded below: not the caller's
             for key, val in {key:val for key, val in self.strings.items()}.items():
                 if len(key)==1:
-                    self.strings['I'+key] = val
-                    self.strings[key+'I'] = val
+                    self.strings['I'+key] = self.strings.get('I'+key, 0)+val
+                    self.strings[key+'I'] = self.strings.get(key+'I', 0)+val
                     self.strings.pop(key)
         if matrices is not None:
             self.d = d # local hilbert space dimension
-- 
2.43.0


From dc03a357f5f9af65210c23abd90300865e0cdee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 32/87] fix: a matrix product operator on one site could not be
 recombined

---
 xmps/fPEPS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index c629764..e348619 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -243,6 +243,9 @@ class fMPO(object):
         return self
 
     def recombine(self):
+        if self.L == 1:
+            # no bonds: the outer legs have dimension one
+            return self.data[0][:, 0, :, 0].conj().T
         ncon_indices = [[-1, 1, -self.L-1, self.L+1]]+[[-n-2, n+2, -self.L-2-n, n+1]
                                                        for n in range(self.L-2)] + [[-self.L, self.L+1, -2*self.L, self.L-1]]
         M = ncon(self.data, ncon_indices)
-- 
2.43.0


From b4042eee69b0fb227a66722cfcb66fddd09fba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 33/87] fix: the copy of a canonical iMPS could not be measured
 in its form

---
 xmps/iMPS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 5d87640..c69c43c 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -259,7 +259,9 @@ class iMPS(object):
         return self.data[0].shape
 
     def copy(self):
-        A = iMPS(self.data.copy())
+        A = iMPS(self.data.copy(), getattr(self, 'canonical', None))
+        if hasattr(self, 'L'):
+            A.L = self.L # the canonical form it is in
         if hasattr(self, 'r') or hasattr(self, 'l'):
             A.l, A.r = self.l, self.r
         return A
-- 
2.43.0


From 7f55d66d31e867180a4c89d628a457e5d55fbfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 34/87] fix: Trajectory.save wrote the state of a just_max run
 to a wrong path

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c804f38..5eb0233 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -588,7 +588,7 @@ class Trajectory(object):
         if exps:
             if hasattr(self, 'q'):
                 save(loc+'bases/'+self.id+'_basis', self.q)
-                self.mps.store('loc'+'bases/'+self.id+'_state')
+                self.mps.store(loc+'bases/'+self.id+'_state')
             elif hasattr(self, 'Q'):
                 save(loc+'bases/'+self.id+'_basis', self.Q)
                 self.mps.store(loc+'bases/'+self.id+'_state')
-- 
2.43.0


From 210f995075a204f540289fa5ae1d2f29ca57acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 35/87] fix: right_transfer exchanged the upper and lower leg
 of the operator at every site

---
 xmps/fMPS.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 7c79042..ee4302d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -843,7 +843,7 @@ class fMPS(object):
         Rs = [op]
         oplinks = list(range(-1, -len(op.shape)+1, -1))+[2, 3]
         for m in range(i+1, j+1):
-            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)+1], [1, 2, -len(op.shape)], oplinks]))
+            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)], [1, 2, -len(op.shape)+1], oplinks]))
         return (lambda n: Rs[n-i-1]) if ret_all else Rs[-1]
 
     def links(self, k=None, op=True):
@@ -1436,7 +1436,7 @@ class fMPS(object):
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
-                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -3], [-2, -4]]), i, L-1)
+                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -4], [-2, -3]]), i, L-1)
                     Rds_ = self.left_transfer(Rd_, 0, i)
 
                     self.F1_i_mem_[str(i)] = (Lbs_, Rds_)
@@ -1463,7 +1463,7 @@ class fMPS(object):
                             continue
                         else:
                             Am, Am_1 = self.data[m:m+2]
-                            Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
+                            Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-2,4], [7,-1,5], [7,3,6,2]])
                             #AAHAA
                             Lbs__ = sum(cT(vL(i))@vL(i), axis=0)
                             G_ += ncon([tr(Lbs_(m)@Kr_, 0, -1, -2), Lbs__], [[-2, -4], [-1, -3]])
@@ -1513,7 +1513,7 @@ class fMPS(object):
                 H = [h.reshape(*[self.d]*4) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
-                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
+                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -8], [-6, -7]])
                 Ru = ncon([pr(j), c(A[j])], [[1, -1, -3, -4], [1, -2, -5]])
                 Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -1], [1, -2, -6, -7], [-5, -8]])
 
@@ -1531,7 +1531,7 @@ class fMPS(object):
                             else:
                                 #AAHAA
                                 Am, Am_1 = self.data[m:m+2]
-                                Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
+                                Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-2,4], [7,-1,5], [7,3,6,2]])
                                 G += tr(Lbs(m)@Kr_, 0, -1, -2)
 
                         Am, Am_1 = self.data[m:m+2]
-- 
2.43.0


From 433ac9b10960a411eb528181240f5c67dae5c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 36/87] fix: F1 contracted bra with ket legs in several terms
 (wrong for complex Hamiltonians and states)

---
 xmps/fMPS.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ee4302d..67298cc 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1447,7 +1447,7 @@ class fMPS(object):
                 if str(j) not in self.F1_j_mem_:
                     # compute j properties, and store in cache
                     Ru_ = ncon([inv_ch_l(j-1)@vL(j), c(A[j])@ch_r(j)], [[1, -1, -3], [1, -2, -4]])
-                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -1, -3], [1, -2, -4]])
+                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -2, -3], [1, -1, -4]])
                     Rus_ = self.left_transfer(Ru_, 0, j)
                     Rbs_ = self.left_transfer(Rb_, 0, j)
 
@@ -1472,18 +1472,18 @@ class fMPS(object):
                         if j==i:
                             # BAHBA
                             G_ += ncon([vL(m), inv_ch_r(m)@Am_1@r(m+1)]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[5, 1, -3], [6, -4, 2], [5, 6, 3, 4], [3, 1, -1], [4, -2, 2]])
+                                        [[5, 1, -3], [6, -4, 2], [3, 4, 5, 6], [3, 1, -1], [4, -2, 2]])
 
                         elif j==i+1:
                             # ABHBA
                             G_ += ncon([Am, inv_ch_l(m)@vL(m+1)]+[h]+[ch_l(m-1)@c(vL(m)), inv_ch_r(m)@c(Am_1)@ch_r(m+1)],
-                                        [[5, 1, 2], [6, 2, -3], [5, 6, 3, 4], [3, 1, -1], [4, -2, -4]])
+                                        [[5, 1, 2], [6, 2, -3], [3, 4, 5, 6], [3, 1, -1], [4, -2, -4]])
                         else:
                             # AAHBA
                             O_ = ncon([ch_l(m-1)@Am, Am_1]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[3, 1, 2], [4, 2, -3], [3, 4, 5, 6], [5, 1, -1], [6, -2, -4]])
+                                        [[3, 1, 2], [4, 2, -3], [5, 6, 3, 4], [5, 1, -1], [6, -2, -4]])
 
-                            G_+= tensordot(O_, Rus_(m+2), [[-1, -2], [0, 1]])
+                            G_+= tensordot(O_, Rus_(m+2), [[-2, -1], [0, 1]])
                     elif m==i-1:
                         if j==i:
                             # ABHAB
@@ -1493,7 +1493,7 @@ class fMPS(object):
                         else:
                             # AAHAB
                             Q_ = ncon([l(m-1)@Am, Am_1]+[h]+[c(Am), inv_ch_l(m)@c(vL(m+1))],
-                                        [[4, 1, 2], [5, 2, -2], [4, 5, 6, 7], [6, 1, 3], [7, 3, -1]])
+                                        [[4, 1, 2], [5, 2, -2], [6, 7, 4, 5], [6, 1, 3], [7, 3, -1]])
 
                             G_ += tensordot(Q_, ncon([inv_ch_r(m+1), Rus_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [-1, 0])
                     elif m<i:
@@ -1515,7 +1515,7 @@ class fMPS(object):
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
                 Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -8], [-6, -7]])
                 Ru = ncon([pr(j), c(A[j])], [[1, -1, -3, -4], [1, -2, -5]])
-                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -1], [1, -2, -6, -7], [-5, -8]])
+                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -2], [1, -1, -6, -7], [-5, -8]])
 
                 Lbs = self.right_transfer(Lb, i, L-1)
                 Rds = self.left_transfer(Rd, 0, i)
@@ -1540,18 +1540,18 @@ class fMPS(object):
                             if j==i:
                                 # BAHBA
                                 G += ncon([l(m-1)]+[pr(m), inv(r(m))@Am_1@r(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [1, 2, 3, 4], [-1, -2, 3, 6], [4, -3, 7]],
+                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [3, 4, 1, 2], [-1, -2, 3, 6], [4, -3, 7]],
                                             [5, 6, 7, 1, 2, 3, 4])
                             elif j==i+1:
                                 # ABHBA
                                 G += ncon([l(m-1)]+[Am, pr(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [1, 2, 3, 4], [-1, -2, 3, 5], [4, -3, -6]],
+                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [3, 4, 1, 2], [-1, -2, 3, 5], [4, -3, -6]],
                                             [5, 6, 1, 3, 7, 2, 4])
                             else:
                                 # AAHBA
                                 O = ncon([l(m-1)@Am, Am_1]+[h]+[pr(m), inv(r(m))@c(Am_1)],
                                             [[3, 6, 5], [4, 5, -4], [1, 2, 3, 4], [-1, -2, 1, 6], [2, -3, -5]]) #(A)ud
-                                G += tensordot(O, Rus(m+2), [[-1, -2], [0, 1]])
+                                G += tensordot(O, Rus(m+2), [[-2, -1], [0, 1]])
 
                         elif m==i-1:
                             if j==i:
-- 
2.43.0


From 2fe3f5a2444ceb5aed119204f227833c695602c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 37/87] fix: tangent_state always discarded the null space it
 computed

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 67298cc..ada854d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1950,7 +1950,7 @@ class fMPS(object):
 
     def tangent_state(self, x, n, envs=None, vL=None):
         l , r = self.get_envs() if envs is None else envs
-        _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else 1, vL
+        vL = self.left_null_projector(n, l, get_vL=True)[1] if vL is None else vL
         return fMPS([inv(ch(l(n-1)))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
 
     def tangent_space_dims(self, l=None, get_vLs=False, vLs=None):
-- 
2.43.0


From e859d3ad498d43d97c1fc8ff1f674f149f271cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 38/87] fix: import_tangent_vector assumed that all sites
 without tangent directions are at the left end

---
 xmps/fMPS.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ada854d..f56d16a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2023,14 +2023,11 @@ class fMPS(object):
     def import_tangent_vector(self, v, xs=False):
         l, r = self.get_envs()
         vLs, shapes = self.tangent_space_dims(l, get_vLs=True)
-        vLs = [vL for vL in vLs if prod(vL.shape)!=0]
-        S = [shape for shape in shapes if prod(shape)!=0]
-        nulls = len([shape for shape in shapes if prod(shape)==0])
-        vs = chop(v, cs([prod(s) for s in S]))
-        xs = [x.reshape(*shape) for x, shape in zip(vs, S)]
-        l_, r_ = lambda n: l(n+nulls), lambda n: r(n+nulls)
-        Bs = [zl(A) for A in self.data[:nulls]] + \
-             [inv(ch(l_(n-1)))@vL@x@inv(ch(r_(n))) for n, (vL, x) in enumerate(zip(vLs, xs))]
+        # sites without tangent directions have empty shapes, wherever they are
+        vs = chop(v, cs([prod(s) for s in shapes]))
+        xs = [x.reshape(*shape) for x, shape in zip(vs, shapes)]
+        Bs = [inv(ch(l(n-1)))@vL@x@inv(ch(r(n))) if prod(shape)!=0 else zl(A)
+              for n, (A, vL, x, shape) in enumerate(zip(self.data, vLs, xs, shapes))]
         return fMPS(Bs)
 
 def fs(X):
-- 
2.43.0


From b0da9fecdbbd28fba221a92b9d26aba5bb1235b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 39/87] fix: christoffel returned cached contractions with
 other tensors, in the wrong gauge

---
 xmps/fMPS.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index f56d16a..20dafcc 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1827,13 +1827,13 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if (i, j, k) in self.christ_tot_ij_mem:
+            if all(B is None for B in closed) and (i, j, k) in self.christ_tot_ij_mem:
                 return self.christ_tot_ij_mem[(i, j, k)]
 
             ## have we cached its conjugate?
-            if (j, i, k) in self.christ_tot_ij_mem:
+            if all(B is None for B in closed) and (j, i, k) in self.christ_tot_ij_mem:
                 return tra(self.christ_tot_ij_mem[(j, i, k)],
-                           [3, 4, 5, 0, 1, 2])
+                           [3, 4, 5, 0, 1, 2, 6, 7, 8])
 
         L, d, A = self.L, self.d, self.data
         l, r = self.get_envs() if envs is None else envs
@@ -1911,7 +1911,8 @@ class fMPS(object):
         else:
             Γ_c = Γ(i, j, k)
 
-        self.christ_tot_ij_mem[(i, j, k)] = Γ_c
+        if all(B is None for B in closed):
+            self.christ_tot_ij_mem[(i, j, k)] = Γ_c
         if contracted:
             return ungauge(Γ_c, i, j, (True, True))
         else:
-- 
2.43.0


From 64de1b91dd31db6b13978bbce054483e4af4b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 40/87] fix: jac assumed that all sites without tangent
 directions are at the left end

---
 xmps/fMPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 20dafcc..95a73ed 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1343,8 +1343,8 @@ class fMPS(object):
         def F2(i, k): return -1j*self.F2(i, k, H, envs=(l, r), inv_envs=inv_envs, prs_vLs=prs_vLs, id=id)
 
         sh = self.tangent_space_dims(l, vLs=vLs)
-        nulls = len([1 for (a, b) in sh if a==0 or b==0])
-        shapes = list(cs([prod([a, b]) for (a, b) in sh if a!=0 and a!=0]))
+        sites = [n for n, (a, b) in enumerate(sh) if a*b!=0] # sites with tangent directions
+        shapes = list(cs([prod(sh[n]) for n in sites]))
         DD = shapes[-1]
         def ind(i):
             slices = [slice(a[0], a[1], 1)
@@ -1356,7 +1356,7 @@ class fMPS(object):
         Γ2_ = -1j*zeros((DD, DD))
         for i_ in range(len(shapes)):
             for j_ in range(len(shapes)):
-                i, j = i_+nulls, j_+nulls
+                i, j = sites[i_], sites[j_]
 
                 J1_ij = F1(i,j)
                 J2_ij = F2(i, j)
-- 
2.43.0


From f20f8655177692e627342023d01d9db8287fdb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 41/87] fix: ddA_dt left out the metric of the tangent space

---
 xmps/fMPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 95a73ed..74e7b51 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1266,6 +1266,7 @@ class fMPS(object):
         # down are the tensors acting on c(Aj), up act on Aj
         up, down = self.jac(H, False)
 
+        dA = [l(j-1)@dA[j]@r(j) for j in range(L)] # contract with the metric of the tangent space
         ddA = [sum([td(down(i, j), c(dA[j]), [[3, 4, 5], [0, 1, 2]]) +
                     td(up(i, j),     dA[j],  [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
                for i in range(L)]
-- 
2.43.0


From 4048bfef87de7b75600fb39aaab03f033fb76983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 42/87] fix: right null space weighted the environment instead
 of its square root

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 74e7b51..9a47fe9 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1942,7 +1942,7 @@ class fMPS(object):
         if r is None:
             _, r = self.get_envs(store_envs)
         if vR is None:
-            R_ = sw(c(self[n])@r(n), 0, 1)
+            R_ = sw(c(self[n])@ch(r(n)), 0, 1)
             R = R_.reshape(-1, self.d*R_.shape[-1])
             vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
         pr = ncon([inv(ch(r(n))), vR, c(vR), inv(ch(r(n)))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
-- 
2.43.0


From 0a33475beff92b8fcf2331c23f883dce05743c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 43/87] fix: rk4 differentiated intermediate states outside
 their canonical form (first order only)

---
 xmps/fTDVP.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 5eb0233..6683efb 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -73,15 +73,28 @@ class Trajectory(object):
             self.Ds.append(mps.D)
         return (mps + mps.dA_dt(H, fullH=self.fullH)*dt).left_canonicalise(mps.D)
 
+    def dA_dt(self, mps, H=None):
+        """dA_dt: time derivative of an mps in any gauge. fMPS.dA_dt needs a
+        canonical form: take it there, and transform the result back.
+        """
+        H = self.H if H is None else H
+        can = mps.copy().left_canonicalise()
+        B = can.dA_dt(H, fullH=self.fullH)
+        # mps[n] = inv(E[n])@can[n]@E[n+1]
+        E = [eye(1)]
+        for A, A_ in zip(can, mps):
+            E.append(sum(cT(A)@E[-1]@A_, axis=0))
+        return fMPS([inv(E[n])@b@E[n+1] for n, b in enumerate(B)])
+
     def rk4(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
             self.mps_history.append(mps.serialize(real=True))
             self.Ds.append(mps.D)
         k1 = mps.dA_dt(H, fullH=self.fullH)*dt
-        k2 = (mps+k1/2).dA_dt(H, fullH=self.fullH)*dt
-        k3 = (mps+k2/2).dA_dt(H, fullH=self.fullH)*dt
-        k4 = (mps+k3).dA_dt(H, fullH=self.fullH)*dt
+        k2 = self.dA_dt(mps+k1/2, H)*dt
+        k3 = self.dA_dt(mps+k2/2, H)*dt
+        k4 = self.dA_dt(mps+k3, H)*dt
 
         return (mps+(k1+2*k2+2*k3+k4)/6).left_canonicalise()
 
-- 
2.43.0


From 4b8a0cd296a5cc78b9b4ee3fa376842978bf83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 44/87] fix: odeint failed: missing import, non-canonical
 derivatives, forced minimum step, history of the wrong type

---
 xmps/fTDVP.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 6683efb..de35914 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -31,6 +31,7 @@ from numpy.linalg import inv, svd, eig, eigvalsh
 from numpy.linalg import det, qr
 import numpy as np
 
+from scipy.integrate import solve_ivp
 from scipy.linalg import sqrtm, expm, norm, null_space as null, cholesky as ch
 from scipy.sparse.linalg import expm_multiply, expm
 
@@ -207,7 +208,6 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
         bar = tqdm()
-        m = 0
 
         def f(t, v):
             """f_odeint: f acting on real vector
@@ -216,25 +216,17 @@ class Trajectory(object):
             :param t: Time
             """
             bar.update()
-            nonlocal m
-            m += 1
-            if m == 4:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .left_canonicalise()\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
-            else:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
+            return self.dA_dt(fMPS().deserialize(v, L, d, D, real=True), H)\
+                .serialize(real=True)
 
         v = mps.serialize(real=True)
         Q = solve_ivp(f, (T[0], T[-1]), v, method='LSODA', t_eval=T,
-                      max_step=T[1]-T[0], min_step=T[1]-T[0])
-        traj = Q.y.T
+                      max_step=T[1]-T[0])
+        traj = list(Q.y.T)
         bar.close()
 
-        self.mps_history = traj
+        self.mps_history = list(self.mps_history)+traj
+        self.Ds = self.Ds+[D]*len(traj)
         self.mps = fMPS().deserialize(traj[-1], L, d, D, real=True)
         return self
 
-- 
2.43.0


From bb54ea61a07aba14d5493b196ee4075bd7017306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 45/87] fix: states of an exact history were read back with the
 initial bond dimension, truncated to one entry

---
 xmps/fTDVP.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index de35914..3a92449 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -493,8 +493,9 @@ class Trajectory(object):
         if hasattr(self, 'ed_history') and not self.mps_history:
             for x in tqdm(self.ed_history):
                 mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
+                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise(minD=False)
                 self.mps_history.append(mps.serialize(real=True))
+            self.Ds = [mps.D]*len(self.mps_history)
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
         return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
@@ -503,8 +504,9 @@ class Trajectory(object):
         if hasattr(self, 'ed_history') and not self.mps_history:
             for x in self.ed_history:
                 mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
+                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise(minD=False)
                 self.mps_history.append(mps.serialize(real=True))
+            self.Ds = [mps.D]*len(self.mps_history)
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
         return array([mps.Es(ops, site)
-- 
2.43.0


From 0488673546dc739992c6f7e313c7fd9858163b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 46/87] fix: loschmidt of an exact history returned Schmidt
 spectra; histories with several bond dimensions were misread

---
 xmps/fTDVP.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 3a92449..6063fac 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -526,8 +526,8 @@ class Trajectory(object):
         return self.ed_evs([H])
 
     def deserialize(self):
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return list(map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history))
+        L, d = self.mps.L, self.mps.d
+        return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
 
     def schmidts(self):
         if hasattr(self, 'ed_history'):
@@ -549,21 +549,11 @@ class Trajectory(object):
 
     def loschmidt(self):
         if hasattr(self, 'ed_history'):
-            sch = []
-            mpss = []
-            print('calculating mps from ed...')
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(x.reshape([self.mps.d]*self.mps.L))
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
+            return [np.abs(c(self.ed_history[0])@x) for x in self.ed_history]
         else:
             assert self.mps_history
-            L, d, D = self.mps.L, self.mps.d, self.mps.D
-            psi_0 = fMPS().deserialize(self.mps_history[0], L, d, D, real=True)
-            lss = []
-            for psi in map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history):
-                lss.append(np.abs(psi_0.overlap(psi)))
-            return lss
+            psis = self.deserialize()
+            return [np.abs(psis[0].overlap(psi)) for psi in psis]
 
     def von_neumann(self, i=None):
         sch = array(self.schmidts())
-- 
2.43.0


From 0f69890991cc00b67cac46f8034d0b6f22522b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 47/87] fix: von_neumann and renyi could not handle spectra of
 different lengths or with zeros

---
 xmps/fTDVP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 6063fac..17017f2 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -556,12 +556,12 @@ class Trajectory(object):
             return [np.abs(psis[0].overlap(psi)) for psi in psis]
 
     def von_neumann(self, i=None):
-        sch = array(self.schmidts())
-        S_max = array([max([-re(s@log(s)) for s in S]) for S in sch])
+        sch = [[re(s[s > 0]) for s in S] for S in self.schmidts()]
+        S_max = array([max([-s@log(s) for s in S]) for S in sch])
         return S_max
 
     def renyi(self, α=2):
-        sch = array(self.schmidts())
+        sch = [[re(s[s > 0]) for s in S] for S in self.schmidts()]
         R = array([max([1/(1-α)*log(sum(s**α)) for s in S]) for S in sch])
         return R
 
-- 
2.43.0


From 74cf40cac6f2d91ff9a4571e68fbbbe8f0e738e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 48/87] fix: clear kept the bond dimensions and the exact
 history of the cleared run

---
 xmps/fTDVP.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 17017f2..910e272 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -572,8 +572,10 @@ class Trajectory(object):
     def clear(self):
         self.mps_history = []
         self.mps = self.mps_0.copy()
-        if hasattr(self, 'lys'):
-            delattr(self, 'lys')
+        self.Ds = [self.mps.D]
+        for name in ['lys', 'ed_history', 'psi']:
+            if hasattr(self, name):
+                delattr(self, name)
 
     def save(self, loc='data/', exps=True, clear=True):
         assert self.mps_history
-- 
2.43.0


From 5ffaab51536601b928e7d5caa3389cb4bcaf0e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 49/87] fix: exact evolution assumed local dimension 2

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 910e272..c67a431 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -235,7 +235,7 @@ class Trajectory(object):
         """
         H = self.H
         psi_0 = self.mps.recombine().reshape(-1)
-        H = sum([n_body(a, i, len(H), d=2)
+        H = sum([n_body(a, i, len(H), d=self.mps.d)
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         psi_n = psi_0
         self.ed_history = [psi_0]
@@ -521,7 +521,7 @@ class Trajectory(object):
         assert self.H is not None
         assert hasattr(self, 'ed_history')
         H = self.H
-        H = sum([n_body(a, i, len(H), d=2)
+        H = sum([n_body(a, i, len(H), d=self.mps.d)
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         return self.ed_evs([H])
 
-- 
2.43.0


From ad7cc25caca49343af48175eb7b6308aaaa878d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 50/87] fix: n_body miscounted the sites of an operator when
 its logarithm was rounded down

---
 xmps/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 2629c62..74a1444 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -140,7 +140,7 @@ def n_body(op, i, n, d=None):
         d = op.shape[0]
         l = [identity(d)*(1-m) + op*m for m in map(lambda j: int(not i-j), range(n))]
     else:
-        l = [identity(d) for _ in range(n+1-int(logd(op.shape[0], d)))]
+        l = [identity(d) for _ in range(n+1-int(round(logd(op.shape[0], d))))]
         l.insert(i+1, op)
         #l = [op if j==i else identity(d) for j in range(n-int(logd(op.shape[0], d)))]
     if not i < n:
-- 
2.43.0


From 86e45b8fce1bbad50b4ab820874e9c8efe7a331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 51/87] fix: trajectory recorded the requested instead of the
 actual bond dimension, ignored the given Hamiltonian

---
 xmps/fTDVP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c67a431..d0d29c4 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -188,13 +188,13 @@ class Trajectory(object):
         assert self.H is not None or H is not None
         H = self.H if H is None and self.H is not None else H
 
-        self.mps.dynamical_expand(self.H, dt, D, None)
-        self.Ds[-1] = D
+        self.mps.dynamical_expand(H, dt, D, None)
+        self.Ds[-1] = self.mps.D
         return self
 
     def contract(self, D):
         self.mps.left_canonicalise(D)
-        self.Ds[-1] = D
+        self.Ds[-1] = self.mps.D
         return self
 
     def odeint(self, T):
-- 
2.43.0


From 82ee31fb01edce5a1afb6b5d72b8ad09caa85efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 52/87] fix: lyapunov averaged and divided ragged lists

---
 xmps/fTDVP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index d0d29c4..9e9a5fc 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -330,10 +330,10 @@ class Trajectory(object):
         dt = T[1]-T[0]
 
         lys = []
-        exps = [array([0])]
+        exps = [zeros(len(Q))]
 
         lys_ = []
-        exps_ = [array([0])]
+        exps_ = [zeros(len(Q))]
 
         self.vs = []
 
@@ -398,13 +398,13 @@ class Trajectory(object):
 
         if just_max:
             self.q = q
-            self.exps = exps[k+1:n+2]/dt
-            self.exps_ = exps_[k+1:n+2]/dt
+            self.exps = array(exps[k+1:n+2])/dt
+            self.exps_ = array(exps_[k+1:n+2])/dt
             T = T[k:n+1]
         else:
             self.Q = Q
-            self.exps = exps[k+1:n+2]/dt
-            self.exps_ = exps_[k+1:n+2]/dt
+            self.exps = array(exps[k+1:n+2])/dt
+            self.exps_ = array(exps_[k+1:n+2])/dt
             T = T[k:n+1]
 
         if hasattr(self, 'lys_'):
-- 
2.43.0


From 059327eeed2a7ddb00d07d2af18a02bf29995aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 53/87] fix: copying a trajectory shared its history and states

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 9e9a5fc..1813b76 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -644,4 +644,4 @@ class Trajectory(object):
             glob.glob(os.path.join(self.run_dir, '*state*')))
 
     def copy(self):
-        return copy(self)
+        return deepcopy(self)
-- 
2.43.0


From 3578b6af248e9c60bf0145fc63e585ef6cd7fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 54/87] fix: projection_error and dynamical_expand: environment
 weights, missing -i, sites of the bulk evolved twice

---
 xmps/fMPS.py | 91 ++++++++++++++++++++++++++--------------------------
 1 file changed, 46 insertions(+), 45 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 9a47fe9..8e8a650 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1090,39 +1090,36 @@ class fMPS(object):
             self.L, self.d, self.D = map(lambda x: int(re(x)), params)
             return self.deserialize(arr, self.L, self.d, self.D)
 
-    def projection_error(self, H, dt):
-        """projection_error: error in projection to mps manifold
+    def two_site_overlaps(self, H, l, r):
+        """two_site_overlaps: components of H|self> that no variation of the tensors can reach,
+        for each bond that can be enlarged
 
         :param H: hamiltonian
-        :param dt: time step
+        :param l: left environments
+        :param r: right environments
+        :returns: list of (m, vL(m), vR(m+1), matrix of components): bond to the right of site m
         """
-        L, d, A, D = self.L, self.d, self.data, self.D
-        dA_dt = self.dA_dt(H, True)
-        l, r = self.l, self.r
-        def vR(n): return self.right_null_projector(n, r, True)[1]
-
-        H = [h.reshape(*[self.d]*4) for h in H]
-        def G(m):
-            C = ncon([H[m]]+[l(m-1)@A[m], A[m+1]@r(m+1)], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            return ncon([c(vL(m)), c(vR(m+1)), C], [[1, 3, -1], [2, -2, 4], [1, 2, 3, 4]])
-
-        ε = 0
-        for m, (Dm, Dm_1) in list(enumerate(self.structure()))[:-1]:
-            _, Dm_2 = self.structure()[m+1]
-            if d*Dm==Dm_1 or Dm_1==d*Dm_2:
-                continue
-            def vL(n): return self.left_null_projector(n, l, True)[1]
-            U, s, V = tr_svd(G(m), d*D-D)
+        d, A = self.d, self.data
+        H = [h.reshape(*[d]*4) for h in H]
 
-            x, y = U@sqrt(s), sqrt(s)@V
-            dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
+        def bond(m):
+            _, vL = self.left_null_projector(m, l, True)
+            _, vR = self.right_null_projector(m+1, r, True)
+            C = ncon([H[m]]+[ch(l(m-1))@A[m], A[m+1]@ch(r(m+1))], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
+            return m, vL, vR, ncon([c(vL), c(vR), C], [[1, 3, -1], [2, -2, 4], [1, 2, 3, 4]])
 
-            ε += re(tr(sum(cT(dA01)@l(m-1)@dA01, 0)@sum(dA10@r(m+1)@cT(dA10), 0)))
+        return [bond(m) for m, (Dm, Dm_1) in list(enumerate(self.structure()))[:-1]
+                if d*Dm!=Dm_1 and Dm_1!=d*self.structure()[m+1][1]]
 
-            ## left environments change as we move along the chain
-            # this is a hack because I used lambdas for the envs in vL etc.
-            ln = sum(cT(A[m])@l(m-1)@A[m], 0)
-            def l(n): return ln
+    def projection_error(self, H, dt):
+        """projection_error: error in projection to mps manifold: dt**2 times the squared norm of
+        the part of H|self> outside the tangent space
+
+        :param H: hamiltonian
+        :param dt: time step
+        """
+        l, r = self.get_envs()
+        ε = dt**2*sum([norm(g)**2 for _, _, _, g in self.two_site_overlaps(H, l, r)])
         self.ε = ε # store last projection error on mps
         return ε
 
@@ -1142,38 +1139,35 @@ class fMPS(object):
 
     def dynamical_expand(self, H, dt, D_, threshold=1e-8):
         """dynamical_expand: expand bond dimension to D_ during timestep dt with H
+        (from canonical form, like dA_dt)
 
         :param H: hamiltonian
         :param dt: timestep
         :param D_: new bond dimension
         :param threshold: by default will expand if no need to, else add threshold
         """
-        L, d, A, D = self.L, self.d, self.data, self.D
-        def vR(n): return self.right_null_projector(n, r, True)[1]
-
-        H = [h.reshape(*[self.d]*4) for h in H]
-        def G(m):
-            return ncon([l(m-1)@A[m], A[m+1]@r(m+1), H[m], c(vL(m)), c(vR(m+1))],
-                        [[2, 1, 4], [6, 4, 8], [3, 6, 2, 7], [3, 1, -1], [7, -2, 8]])
-
         if threshold is not None:
             if self.projection_error(H, dt) < threshold:
                 return self
 
-        for m, (Dm, Dm_1) in list(enumerate(self.structure()))[:-1]:
-            _, Dm_2 = self.structure()[m+1]
-            if d*Dm==Dm_1 or Dm_1==d*Dm_2:
-                continue
-            def vL(n): return self.left_null_projector(n, l, True)[1]
-            dA_dt = self.dA_dt(H)
-            l, r = self.l, self.r
+        # everything is evaluated at the start of the step
+        D = self.D
+        dA_dt = self.dA_dt(H)
+        l, r = self.get_envs()
+        bonds = self.two_site_overlaps(H, l, r)
+
+        for m in range(self.L):
+            self[m] = self[m]+dt*dA_dt[m]
 
-            U, s, V = tr_svd(G(m), D_-D)
+        for m, vL, vR, g in bonds:
+            U, s, V = tr_svd(g, D_-D)
             x, y = U@sqrt(s), sqrt(s)@V
             self.xy = x, y
-            dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
+            dA01, dA10 = -1j*sqrt(dt)*inv(ch(l(m-1)))@vL@x, sqrt(dt)*y@vR@inv(ch(r(m+1)))
 
-            A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
+            # an earlier bond may have enlarged site m on its left
+            dA01 = ct([dA01, zeros((self.d, self[m].shape[1]-dA01.shape[1], dA01.shape[2]))], 1)
+            self[m], self[m+1] = ct([self[m], dA01], 2), ct([self[m+1], dA10], 1)
 
         self.D = max([max(shape) for shape in self.structure()])
         self.forget_form()
@@ -1186,7 +1180,14 @@ class fMPS(object):
         if D_ is None:
             return self
         while self.D<min(D_, (self.d**(self.L//2))):
+            D = self.D
             self.dynamical_expand(H, dt, min(self.d*self.D, D_), None)
+            if self.D<min(D_, (self.d**(self.L//2))):
+                # next step starts from a canonical chain
+                self.left_canonicalise()
+                if self.D<=D:
+                    # H does not entangle any further
+                    break
         return self
 
     def dA_dt(self, H, store_energy=False, fullH=False, prs_vLs=None):
-- 
2.43.0


From 3b75917e2bd9842729e097f479afbf357e0a24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 55/87] fix: uniform chains: transposed operator in E/Es,
 one-based access, get_envs, overlap canonicalised its operands, == of
 different shapes

---
 xmps/iMPS.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index c69c43c..f9d296e 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -177,7 +177,7 @@ class iMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
@@ -196,8 +196,8 @@ class iMPS(object):
 
         :param other:
         """
-        return array(
-            [allclose(a, b) for a, b in zip(self.data, other.data)]).all()
+        return len(self.data) == len(other.data) and \
+            bool(all([a.shape == b.shape and allclose(a, b) for a, b in zip(self.data, other.data)]))
 
     def __ne__(self, other):
         """__ne__
@@ -376,11 +376,11 @@ class iMPS(object):
 
         self.L = L_  # store singular value
 
-        if hand is 'r':
+        if hand == 'r':
             self.data[0] = G_ @ L_
-        elif hand is 'l':
+        elif hand == 'l':
             self.data[0] = L_ @ G_
-        elif hand is 'm':
+        elif hand == 'm':
             sqrtL_ = diag(sqrt(L))
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
@@ -403,12 +403,12 @@ class iMPS(object):
         """eigs: dominant eigenvectors and values of the transfer matrix."""
         return self.transfer_matrix().eigs(l0, r0)
 
-    def get_envs():
+    def get_envs(self):
         _, self.l, self.r = self.eigs()
         return self.l, self.r
 
     def overlap(self, other):
-        A, B = self.left_canonicalise()[0], other.left_canonicalise()[0]
+        A, B = self.copy().left_canonicalise()[0], other.copy().left_canonicalise()[0]
         return np.abs(Map(A, B).left_fixed_point()[0])**2
 
     def E(self, op, c=None):
@@ -422,15 +422,15 @@ class iMPS(object):
         if c == 'm':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0])))
+            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0])))
         if c == 'r':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0])))
+            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0])))
         if c == 'l':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0])))
+            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0])))
 
         if c is None:
             G, L = self.canonicalise(to_vidal=True).data[0]
@@ -455,19 +455,19 @@ class iMPS(object):
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0]))))
+                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0]))))
             return ret
         if c == 'r':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0]))))
             return ret
         if c == 'l':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0]))))
             return ret
 
         if c is None:
@@ -648,7 +648,7 @@ class iMPS(object):
             return pr, vL
         return pr
 
-    def right_null_projector(self, get_vL=False):
+    def right_null_projector(self, get_vR=False):
         _, _, r = self.eigs()
         R_ = sw(c(self[0])@r, 0, 1)
         R = R_.reshape(-1, self.d*R_.shape[-1])
@@ -815,4 +815,4 @@ class ivMPS(object):
         # |    circle   |,      op
         # |      |1     |       |1
         #  - L - G - L -
-        return real_if_close(tensordot(circle, op, [[0, 1], [0, 1]]))
+        return real_if_close(tr(circle @ op))
-- 
2.43.0


From 8c9581f81749a5a8c4953016c04cdc463909d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 56/87] fix: uniform chains of bond dimension one have fixed
 points too

---
 xmps/iMPS.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index f9d296e..6363cc5 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -11,7 +11,7 @@ from numpy import concatenate, array, stack, sum, identity, zeros, abs
 from numpy import sqrt, real_if_close, around, prod, sign, newaxis
 from numpy import concatenate as ct, split as chop, save, load
 
-from numpy.linalg import cholesky, eigvals, svd, inv, norm
+from numpy.linalg import cholesky, eig, eigvals, svd, inv, norm
 from numpy.linalg import inv, cholesky as ch
 
 from scipy.sparse.linalg import LinearOperator, eigs as arnoldi
@@ -33,6 +33,16 @@ from .spin import spins
 Sx, Sy, Sz = spins(0.5)
 import numpy as np
 
+def dominant(O, v0=None, tol=0):
+    """dominant: dominant eigenvalue and eigenvector of linear operator.
+    arnoldi needs more than two dimensions"""
+    n = O.shape[0]
+    if n < 3:
+        w, v = eig(O @ eye(n))
+        k = np.argmax(abs(w))
+        return w[[k]], v[:, [k]]
+    return arnoldi(O, k=1, v0=v0, tol=tol)
+
 class Map(object):
     """Map: transfer matrix with A and B"""
 
@@ -77,7 +87,7 @@ class Map(object):
         d, D = self.d, self.D
         if r0 is not None:
             r0 = r0.reshape(D**2)
-        η, r = arnoldi(self.aslinearoperator(), k=1, v0=r0, tol=tol)
+        η, r = dominant(self.aslinearoperator(), v0=r0, tol=tol)
         if rotate:
             w, r = rotate_to_hermitian(r, ret_phase=True)
         r = r.reshape(D, D)/sign(r[0])
@@ -87,7 +97,7 @@ class Map(object):
         d, D = self.d, self.D
         if l0 is not None:
             l0 = l0.reshape(D**2)
-        η, l = arnoldi(self.aslinearoperator().H, k=1, v0=l0, tol=tol)
+        η, l = dominant(self.aslinearoperator().H, v0=l0, tol=tol)
         l = rotate_to_hermitian(l)/sign(l[0])
         l = l.reshape(D, D)
         return η*np.sqrt(tr(l.conj().T@l)), l/np.sqrt(tr(l.conj().T@l))
@@ -144,8 +154,8 @@ class TransferMatrix(object):
             l0 = l0.reshape(self.shape[1])
         if r0 is not None:
             r0 = r0.reshape(self.shape[1])
-        _,   r = arnoldi(self.aslinearoperator(), k=1, v0=r0)
-        eta, l = arnoldi(self.aslinearoperator().H, k=1, v0=l0)
+        _,   r = dominant(self.aslinearoperator(), v0=r0)
+        eta, l = dominant(self.aslinearoperator().H, v0=l0)
 
         r, l = (rotate_to_hermitian(r.reshape(A.shape[1:]))/sign(r[0]),
                 rotate_to_hermitian(l.reshape(A.shape[1:]))/sign(l[0]))
-- 
2.43.0


From 6e1e96f85df7f6eca00867e2b27936751e94e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 57/87] fix: uniform chains: left environments were conjugated,
 so energies, derivatives and the symmetric form were right in real gauges
 only

---
 xmps/iMPS.py | 54 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 6363cc5..c177bfc 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -9,7 +9,7 @@ from numpy import real as re, imag as im, copy, swapaxes as sw
 from numpy import all, eye, isclose, reshape, swapaxes, trace as tr
 from numpy import concatenate, array, stack, sum, identity, zeros, abs 
 from numpy import sqrt, real_if_close, around, prod, sign, newaxis
-from numpy import concatenate as ct, split as chop, save, load
+from numpy import concatenate as ct, split as chop, save, load, exp, angle
 
 from numpy.linalg import cholesky, eig, eigvals, svd, inv, norm
 from numpy.linalg import inv, cholesky as ch
@@ -137,7 +137,7 @@ class TransferMatrix(object):
         """
         A = self.A
         l = l.reshape(A.shape[1:])
-        return sum(T(A) @ l @ C(A), axis=0).reshape(prod(A.shape[1:]))
+        return sum(cT(A) @ l @ A, axis=0).reshape(prod(A.shape[1:]))
 
     def aslinearoperator(self):
         """return linear operator representation - for arnoldi etc."""
@@ -157,8 +157,8 @@ class TransferMatrix(object):
         _,   r = dominant(self.aslinearoperator(), v0=r0)
         eta, l = dominant(self.aslinearoperator().H, v0=l0)
 
-        r, l = (rotate_to_hermitian(r.reshape(A.shape[1:]))/sign(r[0]),
-                rotate_to_hermitian(l.reshape(A.shape[1:]))/sign(l[0]))
+        # l[bra, ket], r[ket, bra] are positive up to a phase: that of the trace
+        r, l = (x.reshape(A.shape[1:])*exp(-1j*angle(tr(x.reshape(A.shape[1:])))) for x in (r, l))
 
         n = tr(l @ r)
         q = 1#tr(l@l)
@@ -373,12 +373,12 @@ class iMPS(object):
         X = cholesky_s(v_r, lower=True, check_finite=False, overwrite_a=True)
         Y = cholesky_s(v_l, lower=True, check_finite=False, overwrite_a=True)
 
-        U, L, V = svd_s(Y.T.dot(X), full_matrices=False,
-                                    overwrite_a=True,
-                                    check_finite=False)
+        U, L, V = svd_s(cT(Y).dot(X), full_matrices=False,
+                                      overwrite_a=True,
+                                      check_finite=False)
         ll = sum(L*L)
 
-        G_ = (V @ inv(X)) @ A @ (inv(Y.T) @ U)
+        G_ = (V @ inv(X)) @ A @ (inv(cT(Y)) @ U)
         L_ = diag(L)
 
         G_ /= sqrt(eta/ll) # these factors make it so G & L solve the eigenvalue problem
@@ -498,12 +498,12 @@ class iMPS(object):
         d, D = self.d, self.D
         h = H[0].reshape(d, d, d, d)
         A = self.data[0]
-        _, l, r = self.eigs()
+        η, l, r = self.eigs()
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
-        self.e = tr(K@r)
+        K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
+        self.e = tr(K@r)/abs(η[0])**2
         return real(self.e)
 
     def serialize(self, real=False):
@@ -561,7 +561,7 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+            K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
             K -= l*tr(K@r)
             return K
 
@@ -607,7 +607,7 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([A.conj(), A.conj()@r]+[C@r], [[1, -1, 4], [2, 4, 3], [1, 2, -2, 3]]) #AAHAA
+            K = ncon([A.conj(), A.conj()]+[C@r], [[1, -2, 4], [2, 4, 3], [1, 2, -1, 3]]) #AAHAA
             K -= r*tr(l@K)
             return K
 
@@ -624,7 +624,7 @@ class iMPS(object):
             K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
 
             def LHS(K):
-                return K-sum(c(A)@K@T(A), axis=0) + r*tr(l@K)
+                return K-sum(A@K@cT(A), axis=0) + r*tr(l@K)
 
             O_n = reshape(LHS(K) - RHS , (D**2,))
             O_n = concatenate([real(O_n), imag(O_n)])
@@ -652,7 +652,8 @@ class iMPS(object):
         L = L_.reshape(-1, self.d*L_.shape[-1])
         vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
 
-        pr = ncon([inv(ch(l))@vL, inv(ch(l))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        il = inv(cT(ch(l)))
+        pr = ncon([il@vL, c(il@vL)], [[-1, -2, 1], [-3, -4, 1]])
         self.vL = vL
         if get_vL:
             return pr, vL
@@ -660,10 +661,11 @@ class iMPS(object):
 
     def right_null_projector(self, get_vR=False):
         _, _, r = self.eigs()
-        R_ = sw(c(self[0])@r, 0, 1)
+        R_ = sw(c(self[0]@ch(r)), 0, 1)
         R = R_.reshape(-1, self.d*R_.shape[-1])
         vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
-        pr = ncon([inv(ch(r)), vR, c(vR), inv(ch(r))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
+        vRr = vR@inv(ch(r))
+        pr = ncon([vRr, c(vRr)], [[-1, 1, -2], [-3, 1, -4]])
         self.vR = vR
         if get_vR:
             return pr, vR
@@ -673,11 +675,19 @@ class iMPS(object):
         d, D = self.d, self.D
         h = H[0].reshape(d, d, d, d)
         A = self.data[0]
-        _, l, r = self.eigs()
+        η, l, r = self.eigs()
+        n = sqrt(abs(η[0]))
+        if not isclose(n, 1, rtol=1e-12, atol=0):
+            # the equations below are those of a normalised state
+            A = iMPS([A/n])
+            B = A.dA_dt(H)
+            B.data[0] = B.data[0]*n
+            self.e, self.vL = A.e, A.vL
+            return B
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+        K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
         self.e = tr(K@r)
 
         pr = self.left_null_projector()
@@ -686,9 +696,9 @@ class iMPS(object):
         K = self.Lh(H)
 
         B = -1j*zl(A)
-        B += -1j*ncon([l@C@r, pr, inv(r)@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
-        B += -1j*ncon([l@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
-        B += -1j *ncon([K, R], [[1, 2], [1, 2, -1, -2, -3]])
+        B += -1j*ncon([l@C@r, pr, T(inv(r))@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+        B += -1j*ncon([T(l)@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
+        B += -1j *ncon([K, R], [[2, 1], [1, 2, -1, -2, -3]])
         B = iMPS([B])
         B.l, B.r, B.vL = l, r, self.vL
         return B
-- 
2.43.0


From cb6448ed6368d73379071a88336e06fc5c25cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 58/87] fix: derivative of uniform chains of bond dimension one

---
 xmps/iMPS.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index c177bfc..fc4065e 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -586,8 +586,12 @@ class iMPS(object):
         K0 = (randn(D, D)+1j*randn(D, D)).reshape(D**2)
         K0 = concatenate([real(K0), imag(K0)])
 
-        K = root(O, K0, args=(RHS(),), method=method, tol=tol).x
-        K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
+        if D == 1:
+            # (I-E) vanishes, and so does what it acts on
+            K = RHS()
+        else:
+            K = root(O, K0, args=(RHS(),), method=method, tol=tol).x
+            K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
         if testing: 
             def O_(K):
                 return O(K, RHS())
-- 
2.43.0


From 328fccbfcbc46a259995ae9767de7a3a04f1fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 59/87] fix: transfer maps between chains of different bond
 dimensions, eigenvector predicates took the inverse eigenvalue

---
 xmps/iMPS.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index fc4065e..266ac8d 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -49,8 +49,10 @@ class Map(object):
     def __init__(self, A, B):
         self.A, self.B = A, B
         self.d, self.D, _ = A.shape
-        self.shape = A.shape[1]**2, A.shape[2]**2
-        self.dtype = A.dtype
+        # shapes of what it acts on from the left and right: A and B can have different bond dimensions
+        self.lshape, self.rshape = (A.shape[1], B.shape[1]), (A.shape[2], B.shape[2])
+        self.shape = prod(self.lshape), prod(self.rshape)
+        self.dtype = np.result_type(A, B)
 
     def asmatrix(self):
         # [0, 2, 3, 1]
@@ -63,55 +65,48 @@ class Map(object):
 
         :param r: vector to multiply
         """
-        d, D = self.d, self.D
         A = self.A
         B = self.B
-        r = r.reshape(D, D)
-        return sum(A@r@cT(B), axis=0).reshape(D**2)
+        r = r.reshape(self.rshape)
+        return sum(A@r@cT(B), axis=0).reshape(self.shape[0])
 
     def mvr(self, l):
         """mvr: v@TM
 
         :param l: vector to multiply
         """
-        d, D = self.d, self.D
         A, B = self.A, self.B
-        l = l.reshape(D, D)
-        return sum(cT(A)@l@B, axis=0).reshape(D**2)
+        l = l.reshape(self.lshape)
+        return sum(cT(A)@l@B, axis=0).reshape(self.shape[1])
 
     def aslinearoperator(self):
         """return linear operator representation - for arnoldi etc."""
         return LinearOperator(self.shape, matvec=self.mv, rmatvec=self.mvr)
 
     def right_fixed_point(self, r0=None, tol=0, rotate=True):
-        d, D = self.d, self.D
         if r0 is not None:
-            r0 = r0.reshape(D**2)
+            r0 = r0.reshape(self.shape[1])
         η, r = dominant(self.aslinearoperator(), v0=r0, tol=tol)
         if rotate:
             w, r = rotate_to_hermitian(r, ret_phase=True)
-        r = r.reshape(D, D)/sign(r[0])
+        r = r.reshape(self.rshape)/sign(r[0])
         return η, r
 
     def left_fixed_point(self, l0=None, tol=0):
-        d, D = self.d, self.D
         if l0 is not None:
-            l0 = l0.reshape(D**2)
+            l0 = l0.reshape(self.shape[0])
         η, l = dominant(self.aslinearoperator().H, v0=l0, tol=tol)
         l = rotate_to_hermitian(l)/sign(l[0])
-        l = l.reshape(D, D)
+        l = l.reshape(self.lshape)
         return η*np.sqrt(tr(l.conj().T@l)), l/np.sqrt(tr(l.conj().T@l))
 
     def is_right_eigenvector(self, r, λ=1):
-        d, D = self.d, self.D
-        r_ = self.aslinearoperator()@r.reshape(D**2)
-        return allclose(r, λ*r_.reshape(D, D))
+        r_ = self.aslinearoperator()@r.reshape(self.shape[1])
+        return allclose(λ*r, r_.reshape(self.lshape))
 
     def is_left_eigenvector(self, l, λ=1):
-        d, D = self.d, self.D
-        l_ = self.aslinearoperator().H@l.reshape(D**2)
-        l_ = l_.reshape(D, D)
-        return allclose(l, λ*l_.reshape(D, D))
+        l_ = self.aslinearoperator().H@l.reshape(self.shape[0])
+        return allclose(λ*l, l_.reshape(self.rshape))
 
 class TransferMatrix(object):
     """TransferMatrix: Transfer matrix class - implements efficient matrix vector products."""
-- 
2.43.0


From 0d0b939f0a8087652bd888d7fa8ce4217c358ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 60/87] fix: rk4 step of uniform chains: third slope was
 multiplied by the time step

---
 xmps/iTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index faf1957..53bff60 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -69,7 +69,7 @@ class Trajectory(object):
             self.Ds.append(mps.D)
         k1 = mps.dA_dt(H)
         k2 = (mps+k1/2*dt).dA_dt(H)
-        k3 = (mps+k2/2*dt).dA_dt(H)*dt
+        k3 = (mps+k2/2*dt).dA_dt(H)
         k4 = (mps+k3*dt).dA_dt(H)
 
         return (mps+(k1+2*k2+2*k3+k4)*dt/6).left_canonicalise()
-- 
2.43.0


From cb57b5b1df3e0095be419707e8ebb720738f7b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 61/87] fix: local unitaries, swap antisymmetriser, comparison
 up to phase of matrices with vanishing first element

---
 xmps/spin.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 74a1444..d4f2c7b 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -66,13 +66,13 @@ def partial_trace(rho, keep, dims, optimize=False):
     return rho_a.reshape(Nkeep, Nkeep)
 
 def is_swap_symmetric(U):
-    return allclose(U-swap_antisymmetrise(U), 0)
+    return allclose(U-swap_symmetrise(U), 0)
 
 def swap_symmetrise(U):
     return (U+swap()@U@swap())/2
 
 def swap_antisymmetrise(U):
-    return (U+swap()@U@swap())/2
+    return (U-swap()@U@swap())/2
 
 def swap():
     return array([[1, 0, 0, 0],
@@ -509,12 +509,12 @@ def locals():
 def U1(v):
     """U1 local unitary
     """
-    return expm(-1j*tensordot(v, locals[:3], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[:3], [0, 0]))
 
 def U2(v):
     """U2 local unitary
     """
-    return expm(-1j*tensordot(v, locals[3:], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[3:], [0, 0]))
 
 def U4(v):
     """U4 two site unitary
@@ -601,7 +601,8 @@ def components(Q):
     return np.array(v)
 
 def equal_up_to_phase(U, V, p=False):
-    U_, V_ = U*np.exp(-1j*np.angle(U[0, 0])), V*np.exp(-1j*np.angle(V[0, 0]))
+    # the relative phase of the whole matrices: single elements can vanish
+    U_, V_ = U, V*np.exp(1j*np.angle(np.vdot(V, U)))
     if p: print(U_, V_)
     return np.allclose(U_, V_,)
 
-- 
2.43.0


From 819d50ed0f506f62029261250ce6a2ed78ba712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 62/87] fix: ferro spinor: z component was half the one su(2)
 requires

---
 xmps/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index d4f2c7b..4ba31eb 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -496,7 +496,7 @@ def ferro():
     zp2, zm2 = (0.5*eye(4)+Sz2), (0.5*eye(4)-Sz2)
     m_x = (sp1@sp2 + sm1@sm2)
     m_y = 1j*(sp1@sp2-sm1@sm2)
-    m_z = (Sz1+Sz2)/2
+    m_z = (Sz1+Sz2)
     return array([m_x, m_y, m_z])
 
 def locals():
-- 
2.43.0


From 0b7e35a1ee7d2df674ec5bcbd07bc51a760e8f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 63/87] fix: fPEPS exchanged width and height (rectangular
 lattices could not be truncated, isometrised, ...)

---
 xmps/fPEPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index e348619..b1b3dd0 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -259,8 +259,8 @@ class fPEPS(object):
 
     def __init__(self, data=None, d=None, X=None):
         if data is not None:
-            self.Lx = len(data)
-            self.Ly = len(data[0])
+            self.Lx = len(data[0])
+            self.Ly = len(data)
             if d is not None:
                 self.d = d
             else:
@@ -424,7 +424,7 @@ class fPEPS(object):
 
     def truncate_below(self, row, D):
         '''truncate bonds below row to size D'''
-        if row == self.Lx-1:
+        if row == self.Ly-1:
             raise Exception('nothing below row L-1')
         self.data[row] = [x[:, :, :, :D, :] for x in self.data[row]]
         self.data[row+1] = [x[:, :D, :, :, :] for x in self.data[row+1]]
@@ -433,7 +433,7 @@ class fPEPS(object):
     def truncate_left(self, col, D):
         if col == 0:
             raise Exception('nothing to the left of col 0')
-        for row in range(self.Lx):
+        for row in range(self.Ly):
             self.data[row][col] = self.data[row][col][:, :, :, :, :D]
             self.data[row][col-1] = self.data[row][col-1][:, :, :D, :, :]
         return self
-- 
2.43.0


From 8a7edf6831d0d6dd3e543316bd024deff9225c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 64/87] fix: fPEPS.E_k took operators on blocks column by
 column, not in reading order

---
 xmps/fPEPS.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index b1b3dd0..69a0d07 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -310,10 +310,11 @@ class fPEPS(object):
             raise NotImplementedError('only implemented for D=1')
         assert self.bond_dimension==1
         (x, y), (width, height) = sites
-        rhos = np.zeros((width, height, self.d, self.d))*1j
+        # in reading order
+        rhos = np.zeros((height, width, self.d, self.d))*1j
         for i, j in product(range(width), range(height)):
             dd = np.squeeze(self.data[y+j][x+i])
-            rhos[i, j] = np.outer(dd, dd.conj())
+            rhos[j, i] = np.outer(dd, dd.conj())
         return rhos
 
     def rho_proj(self, other, sites, single_string=True):
@@ -326,11 +327,12 @@ class fPEPS(object):
             raise NotImplementedError('only implemented for D=1')
         assert self.bond_dimension==1
         (x, y), (width, height) = sites
-        rhos = np.zeros((width, height, self.d, self.d))*1j
+        # in reading order
+        rhos = np.zeros((height, width, self.d, self.d))*1j
         for i, j in product(range(width), range(height)):
             dd = np.squeeze(self.data[y+j][x+i])
             ddother = np.squeeze(other.data[y+j][x+i])
-            rhos[i, j] = np.outer(dd, ddother.conj())
+            rhos[j, i] = np.outer(dd, ddother.conj())
         return rhos
 
     def from_state(self, state):
@@ -349,7 +351,8 @@ class fPEPS(object):
         '''sites as a pair, coords_of_top_left, width_height,
             contracts rows of peps that sites covers'''
         (x, y), (width, height) = sites
-        E = self.row_contract(y, y+height).col_contract(x, x+width)
+        # columns first: the sites of a row are next to each other in reading order
+        E = self.col_contract(x, x+width).row_contract(y, y+height)
         return E
 
     def E_k(self, op, sites):
-- 
2.43.0


From 42ce43b8e85c859ef437adfb3772a95f9a4bea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 65/87] fix: fPEPS: col_mpos and copy ignored their argument,
 lattices of different sizes compared equal

---
 xmps/fPEPS.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 69a0d07..ab18ac1 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -294,10 +294,11 @@ class fPEPS(object):
         elif hasattr(other, 'd'):
             return False
 
+        if self.structure != other.structure:
+            return False
+
         for row, row_ in zip(self.data, other.data):
             for A, A_ in zip(row, row_):
-                if not np.allclose(A.shape, A_.shape):
-                    return False
                 eq = eq and np.allclose(A, A_)
         return eq
 
@@ -370,7 +371,7 @@ class fPEPS(object):
             for row, other_row in zip(self.data, other.data)]
 
     def col_mpos(self, other=None):
-        return self.T.row_mpos(None)
+        return self.T.row_mpos(other.T if other is not None else None)
 
     @property
     def T(self):
@@ -919,7 +920,7 @@ class fPEPS(object):
     def copy(self, data=None):
         # copy self (or data) into new fPEPS with all of the stuff this fPEPS has (oc, X, d, etc.)
         data = self.data if data is None else data
-        ret = fPEPS([[x.copy() for x in row] for row in self.data])
+        ret = fPEPS([[x.copy() for x in row] for row in data])
         if hasattr(self, 'oc'):
             ret.oc = self.oc
         if hasattr(self, 'X'):
-- 
2.43.0


From ba6aa7a47983b76b04561c9013aff4630b5614c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 66/87] fix: fPEPS.from_mps: lattices of width one, and lengths
 that are no multiple of the width

---
 xmps/fPEPS.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index ab18ac1..5845cbe 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -585,7 +585,7 @@ class fPEPS(object):
             Ly = Lx = int(Lx)
         else:
             Ly = mps.L/Lx
-            assert np.allclose(int(Lx), Lx)
+            assert np.allclose(int(Ly), Ly)
             Ly = int(Ly)
             Lx = int(Lx)
 
@@ -599,7 +599,11 @@ class fPEPS(object):
         for i in range(Lx):
             for j in range(Ly):
                 d, X1, X2 = reshaped[j][i].shape
-                if j % 2 == 0:
+                if Lx == 1:
+                    # straight down
+                    reshaped[j][i] = reshaped[j][i].reshape(
+                        d, X1, 1, X2, 1)
+                elif j % 2 == 0:
                     # going right
                     if i == Lx-1:
                         reshaped[j][i] = T(reshaped[j][i]).reshape(
-- 
2.43.0


From b53551dd73a82c9a1b2c5a78694b058880b2c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 67/87] fix: fPEPS.recombine('row_snake') joined vertical bonds
 of different columns

---
 xmps/fPEPS.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 5845cbe..79f2627 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -660,15 +660,12 @@ class fPEPS(object):
             res = reduce(col_contract, cols)
             return np.squeeze(res)
         elif qubit_ordering == 'row_snake':
-            cols = []
-            for i, row in enumerate(self.data):
-                if i % 2 == 0:
-                    cols.append(reduce(row_contract, row))
-                else:
-                    cols.append(
-                        reduce(row_contract, [x.transpose([0, 1, 4, 3, 2]) for x in row[::-1]]))
-            res = reduce(col_contract, cols)
-            return np.squeeze(res)
+            # the vertical bonds of all rows have to be in the same order:
+            # reverse the sites of odd rows afterwards
+            res = self.recombine().reshape([self.d]*(self.Lx*self.Ly))
+            rows = [list(range(i*self.Lx, (i+1)*self.Lx)) for i in range(self.Ly)]
+            snake = flatten([row[::-1] if i % 2 else row for i, row in enumerate(rows)])
+            return res.transpose(snake).reshape(-1)
 
     def environment(self, site):
         # this is a mess.
-- 
2.43.0


From 45627aa7202d74f690a16e538f63ea5e0fd6dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 68/87] fix: vfMPS stored squared weights and tensors that were
 not in Vidal form, its constructor dropped the data

---
 xmps/fMPS.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 8e8a650..12f4e78 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2222,7 +2222,8 @@ class vfMPS(object):
         if data is not None and d is not None:
             self.L = len(data)
             self.d = d
-            self.D = max([datum[0][0].shape for datum in data])
+            self.D = max([max(G.shape[1:]) for G, _ in data])
+            self.data = data
 
     def from_fMPS(self, fMPS):
         """from_fMPS: convert a normal form fMPS to vidal form
@@ -2232,12 +2233,15 @@ class vfMPS(object):
         self.d = fMPS.d
         fMPS.right_canonicalise()
         data = []
-        for L, A in zip(fMPS.Ls, fMPS.data):
-            G = swapaxes(dot(inv(L), A), 0, 1)
-            data.append((L, G))
-        self.data = data
+        for L, A in zip(fMPS.Ls[1:], fMPS.data):
+            # Ls are the squares of the Schmidt coefficients (zero, up to rounding,
+            # for bonds the state does not need). Γλ are the right canonical
+            # matrices, λΓ the left canonical ones
+            s = sqrt(np.abs(diag(L)))
+            data.append((A*np.divide(1, s, out=np.zeros_like(s), where=s!=0), diag(s)))
+        self.__init__(data, self.d)
         return self
 
     def to_fMPS(self):
         """to_fMPS: return from vidal form to normal form"""
-        return fMPS([swapaxes(dot(*x), 0, 1) for x in self.data], self.d)
+        return fMPS([dot(*x) for x in self.data], self.d)
-- 
2.43.0


From 820cdb072266aa695e14ceaf18caaf4ee482afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 69/87] fix: lyapunov could not be given its initial basis as
 an array

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 1813b76..0d63aab 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -315,13 +315,13 @@ class Trajectory(object):
 
         if hasattr(self, 'Q'):
             Q = self.Q
+        elif not isinstance(initial_basis, str):
+            Q = initial_basis
         elif initial_basis == 'F2':
             Q = self.mps.tangent_space_basis(H=H, type=initial_basis)
         elif initial_basis == 'eye' or initial_basis == 'rand':
             Q = kron(eye(2), self.mps.tangent_space_basis(
                 H=H, type=initial_basis))
-        else:
-            Q = initial_basis
         Q_ = copy(Q)
 
         if just_max:
-- 
2.43.0


From 89353de845254cd9ade716d7eaae6cad0336d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 70/87] fix: lyapunov exponents depended on the zero of energy

---
 xmps/fTDVP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 0d63aab..223e680 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -344,6 +344,8 @@ class Trajectory(object):
         paired_ = []
         for n in tqdm(range(len(T))):
             J = self.mps.jac(H)
+            # the tangent vectors don't rotate with the phase of the state: measure energies from <H>
+            J = J + self.mps.energy(H)*kron([[0, -1], [1, 0]], eye(len(J)//2))
             if hasattr(self.mps, 'old_vL'):
                 self.vs.append(self.mps.v)
             if just_max:
-- 
2.43.0


From 3b42b9329bb666d96b16abd5dc74c0dd073047ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 71/87] fix: lyapunov read the basis of one tangent space in
 the coordinates of the next

---
 xmps/fMPS.py  | 35 +++++++++++++++++++++++++++++++++++
 xmps/fTDVP.py | 15 ++++++++++++---
 2 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 12f4e78..115f93d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1289,6 +1289,41 @@ class fMPS(object):
                 self[i-1] = self[i-1]@U
         return self
 
+    def tangent_overlaps(self, other, vLs, other_vLs):
+        """overlaps <V_a(self)|V_b(other)> of the tangent vectors of two (canonical) states in the coordinates of jac,
+           with the relative phase of the states removed
+
+        :param vLs, other_vLs: null spaces the coordinates refer to
+        """
+        def insertions(mps, vLs):
+            l, r = mps.get_envs()
+            Bs = [td(inv(ch(l(n-1)))@vLs[n], inv(ch(r(n))), 0) for n in range(mps.L)] # (p, x, a, b, y)
+            return [tra(B, [2, 3, 0, 1, 4]).reshape(-1, *mps[n].shape) for n, B in enumerate(Bs)]
+
+        A, C, L = self.data, other.data, self.L
+        ls, rs = [ones((1, 1))], [ones((1, 1))]
+        for n in range(L):
+            ls.append(sum(cT(A[n])@ls[-1]@C[n], axis=0))
+        for n in reversed(range(L)):
+            rs.insert(0, sum(C[n]@rs[0]@cT(A[n]), axis=0))
+        Vs, Ws = insertions(self, vLs), insertions(other, other_vLs)
+
+        G = zeros((sum([len(V) for V in Vs]), sum([len(W) for W in Ws])), dtype=complex)
+        bra, ket = zeros((0, 1, 1)), zeros((0, 1, 1)) # insertions on earlier sites
+        for n in range(L):
+            V, W = Vs[n].conj(), Ws[n]
+            i, j = len(bra), len(ket)
+            Wr = W@rs[n+1]
+            Cr = C[n]@rs[n+1]
+            G[:i, j:j+len(W)] = nc([bra, A[n].conj(), Wr], [[-1, 1, 2], [3, 1, 4], [-2, 3, 2, 4]])
+            G[i:i+len(V), :j] = nc([ket, V, Cr], [[-2, 1, 2], [-1, 3, 1, 4], [3, 2, 4]])
+            G[i:i+len(V), j:j+len(W)] = nc([ls[n], V, Wr], [[1, 2], [-1, 3, 1, 4], [-2, 3, 2, 4]])
+            bra = ct([nc([bra, A[n].conj(), C[n]], [[-1, 1, 2], [3, 1, -2], [3, 2, -3]]),
+                      nc([ls[n], V, C[n]], [[1, 2], [-1, 3, 1, -2], [3, 2, -3]])])
+            ket = ct([nc([ket, A[n].conj(), C[n]], [[-1, 1, 2], [3, 1, -2], [3, 2, -3]]),
+                      nc([ls[n], A[n].conj(), W], [[1, 2], [3, 1, -2], [-1, 3, 2, -3]])])
+        return G*exp(-1j*angle(ls[-1][0, 0]))
+
     def jac(self, H,
             as_matrix=True,
             real_matrix=True,
diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 223e680..3ed88fa 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -32,7 +32,7 @@ from numpy.linalg import det, qr
 import numpy as np
 
 from scipy.integrate import solve_ivp
-from scipy.linalg import sqrtm, expm, norm, null_space as null, cholesky as ch
+from scipy.linalg import sqrtm, expm, norm, null_space as null, cholesky as ch, polar
 from scipy.sparse.linalg import expm_multiply, expm
 
 from matplotlib import pyplot as plt
@@ -313,8 +313,10 @@ class Trajectory(object):
 
             print('finished pre evolution')
 
+        frame = None # state and null spaces the coordinates refer to
         if hasattr(self, 'Q'):
             Q = self.Q
+            frame = getattr(self, 'frame', None)
         elif not isinstance(initial_basis, str):
             Q = initial_basis
         elif initial_basis == 'F2':
@@ -346,6 +348,15 @@ class Trajectory(object):
             J = self.mps.jac(H)
             # the tangent vectors don't rotate with the phase of the state: measure energies from <H>
             J = J + self.mps.energy(H)*kron([[0, -1], [1, 0]], eye(len(J)//2))
+            # coordinates in the tangent space of the last step -> coordinates in this one (parallel transport)
+            if frame is not None:
+                U, _ = polar(self.mps.tangent_overlaps(
+                    frame[0], self.mps.new_vL, frame[1]))
+                U = kron(eye(2), re(U)) + kron([[0, -1], [1, 0]], im(U))
+                Q, Q_ = U@Q, U@Q_
+                if just_max:
+                    q = U@q
+            self.frame = frame = self.mps, self.mps.new_vL
             if hasattr(self.mps, 'old_vL'):
                 self.vs.append(self.mps.v)
             if just_max:
@@ -383,9 +394,7 @@ class Trajectory(object):
             else:
                 vL = self.mps.new_vL
 
-                old_mps = self.mps.copy()
                 self.mps = self.rk4(self.mps, dt, H).right_canonicalise()
-                self.mps.match_gauge_to(old_mps)
 
                 self.mps.old_vL = vL
                 self.vL = vL
-- 
2.43.0


From efeace6ca68527ed38f1ac2431faf2873069e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 72/87] fix: env-canonical predicates skipped the last site

---
 xmps/tests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/tests.py b/xmps/tests.py
index 15e518c..638ccfa 100644
--- a/xmps/tests.py
+++ b/xmps/tests.py
@@ -70,7 +70,7 @@ def is_right_env_canonical(mats, sings):
     """
     Ls = [tensordot(dot(H(A), L), A, [[0, -1], [0, 1]])
             for (A, L) in zip(mats, sings)]
-    close = array([allclose(l, x) for l, x in zip(Ls[:-1], sings[1:])])
+    close = array([allclose(l, x) for l, x in zip(Ls, sings[1:])])
     return close.all()
 
 def is_left_env_canonical(mats, sings):
@@ -79,7 +79,7 @@ def is_left_env_canonical(mats, sings):
     """
     Ls = [tensordot(dot(A, L), H(A), [[0, -1], [0, 1]])
             for (A, L) in zip(mats, sings[1:])]
-    close = array([allclose(l, x) for l, x in zip(Ls[:-1], sings[:-1])])
+    close = array([allclose(l, x) for l, x in zip(Ls, sings[:-1])])
     return close.all()
 
 def is_full_rank(sings):
-- 
2.43.0


From 0d6743aae6908266773af0545b114876c014e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 73/87] fix: AKLT had the wrong weight on the states with m = 0

---
 xmps/mps_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/mps_examples.py b/xmps/mps_examples.py
index 2ecc274..fe64a4b 100644
--- a/xmps/mps_examples.py
+++ b/xmps/mps_examples.py
@@ -136,7 +136,7 @@ def AKLT():
     sp, sm = ladders(0.5)
     
     Ap = sqrt(2/3)*sp
-    A0 = -sqrt(1/2)*sz
+    A0 = -sqrt(4/3)*sz # sz = σz/2
     Am= -sqrt(2/3)*sm
     return iMPS([stack([Ap, A0, Am], 0)])
 
-- 
2.43.0


From f081a2ef5f6b1d3fd1427416051e4759daf2a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 74/87] fix: a cleared trajectory went on from the basis of its
 last Lyapunov run

---
 xmps/fTDVP.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 3ed88fa..cf91e56 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -584,7 +584,9 @@ class Trajectory(object):
         self.mps_history = []
         self.mps = self.mps_0.copy()
         self.Ds = [self.mps.D]
-        for name in ['lys', 'ed_history', 'psi']:
+        # no results, and no basis for the next lyapunov run to resume from
+        self.has_run_lyapunov = False
+        for name in ['lys', 'lys_', 'exps', 'exps_', 'Q', 'q', 'frame', 'vL', 'ed_history', 'psi']:
             if hasattr(self, name):
                 delattr(self, name)
 
-- 
2.43.0


From f312b1f8eaacf15104d2e1afee87ccc563b1ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 75/87] fix: a trajectory without a Lyapunov run could not be
 stopped

---
 xmps/fTDVP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index cf91e56..69109e3 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -66,6 +66,7 @@ class Trajectory(object):
         self.mps_history = []
         self.run_name = run_name
         self.continuous = continuous
+        self.has_run_lyapunov = False
 
     def euler(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
-- 
2.43.0


From 52121af80de30cd706d7a0d6598a012ce1748bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 76/87] fix: haar_unitary was not distributed uniformly

---
 xmps/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index e829d1a..94874af 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -83,7 +83,9 @@ def direct_sum(A, B):
     return block([[A, zeros((a1, b2))], [zeros((b1, a2)), B]])
     
 def haar_unitary(n):
-    return qr(randn(n, n)+1j*randn(n, n))[0]
+    Q, R = qr(randn(n, n)+1j*randn(n, n))
+    # QR fixes the phases of the columns: uniform only with those of R's diagonal put back
+    return Q*(diag(R)/abs(diag(R)))
 
 def unitary_extension(Q, D=None):
     '''extend an isometry to a unitary (doesn't check its an isometry)'''
-- 
2.43.0


From 66e28837dd70470b312adfbb087e3506e1b891d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 77/87] fix: fTFD.from_fMPS forgets the canonical form of the
 state it replaces

---
 xmps/fMPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 115f93d..6c5518c 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2153,6 +2153,7 @@ class fTFD(fMPS):
 
     def from_fMPS(self, mps):
         # TFD corresponding to the (pure) mps.
+        self.forget_form()
         self.data = [kron(a, a) for a in mps.data]
         self.d = mps.d**2
         self.D = mps.D**2
-- 
2.43.0


From 5cd76f51f969fb688faab8529988da049c743807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 78/87] fix: truncating canonicalisations cut Schmidt values
 whatever form the chain is in

---
 xmps/fMPS.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 6c5518c..fa5b5d7 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -483,6 +483,10 @@ class fMPS(object):
         """
         if D is not None:
             self.D = min(D, self.D)
+            if self.bond_dimension > D:
+                # only from the opposite form are the values that are cut Schmidt values
+                self.left_orthogonalise()
+                self[-1] = self[-1]@self.norm_
 
         self.ok = True
 
@@ -555,6 +559,10 @@ class fMPS(object):
         """
         if D is not None:
             self.D = min(D, self.D)
+            if self.bond_dimension > D:
+                # only from the opposite form are the values that are cut Schmidt values
+                self.right_orthogonalise()
+                self[0] = self.norm_@self[0]
 
         self.ok = True
 
-- 
2.43.0


From 75b6c3a0300087110dbb2ebd0a7585d44800a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 79/87] fix: l_eigenmatrix returned the conjugate of the
 eigenvalue

---
 xmps/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 94874af..6ac206a 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -300,7 +300,7 @@ def l_eigenmatrix(M):
     e, v = arnoldi(M.conj().T, k=1, which='LM')
     e_max, v_max = squeeze(e), rotate_to_hermitian(v.reshape(K, K))/sign(v[0])
 
-    return e_max, v_max.conj()
+    return e_max.conj(), v_max.conj() # of M, not of its adjoint
 
 def rank(M_diag):
     """rank: return number of non zero elements on diagonal of diagonal matrix
-- 
2.43.0


From 3b55d84ae7d3c5b666f2ac726dfb497d75d775a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:09 +0000
Subject: [PATCH 80/87] fix: renyi_2_disentangler followed the adjoint of the
 direction that lowers the entropy

---
 xmps/peps_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/peps_tools.py b/xmps/peps_tools.py
index 5c09efa..a824f33 100644
--- a/xmps/peps_tools.py
+++ b/xmps/peps_tools.py
@@ -104,8 +104,9 @@ def renyi_2_disentangler(psi, eps=1e-6, max_iter=1000):
     stop=False
     while not stop:
         while m < max_iter and go:
-            Unew, _ = polar(E2(U.reshape(d1, d2, d1, d2), psi).reshape(d1*d2, d1*d2))
-            Unew, _ = polar(E2(Unew.reshape(d1, d2, d1, d2), psi).reshape(d1*d2, d1*d2)) # with only one iteration S oscillates. v. weird
+            # the purity grows along the polar factor of its gradient, the adjoint of E2
+            Unew, _ = polar(E2(U.reshape(d1, d2, d1, d2), psi).reshape(d1*d2, d1*d2).conj().T)
+            Unew, _ = polar(E2(Unew.reshape(d1, d2, d1, d2), psi).reshape(d1*d2, d1*d2).conj().T)
 
             S = renyi(Unew.reshape(d1, d2, d1, d2), psi)
             Ss.append(S)
-- 
2.43.0


From 6d0b3a2073df020c3d9e926df0e1e1e9ceca2ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:42 +0000
Subject: [PATCH 81/87] fix: Euler and Runge-Kutta runs took every step as long
 as the first, whatever times were requested

---
 xmps/fTDVP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 69109e3..c17a72b 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -137,8 +137,8 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.euler(mps, T[1]-T[0])
+        for dt in tqdm(np.append(np.diff(T), 0)): # the last entry is not stepped from
+            mps = self.euler(mps, dt)
 
         self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
         return self
@@ -149,8 +149,8 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.rk4(mps, T[1]-T[0])
+        for dt in tqdm(np.append(np.diff(T), 0)): # the last entry is not stepped from
+            mps = self.rk4(mps, dt)
 
         self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
         return self
-- 
2.43.0


From 6f108596013e32e7a56dd2f0a5aa76e40b8406ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:09 +0000
Subject: [PATCH 82/87] fix: edint took every step as long as the first,
 whatever times were requested

---
 xmps/fTDVP.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c17a72b..0ba81ef 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -240,8 +240,7 @@ class Trajectory(object):
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         psi_n = psi_0
         self.ed_history = [psi_0]
-        dt = T[1]-T[0]
-        for t in tqdm(T[:-1]):
+        for dt in tqdm(np.diff(T)):
             psi_n = expm_multiply(-1j * H*dt, psi_n)
             self.ed_history.append(psi_n)
 
-- 
2.43.0


From d33e8954d3995d32c7f1be0565956bf21f1b4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:34 +0000
Subject: [PATCH 83/87] fix: uniform chains: runs took every step as long as
 the first, whatever times were requested

---
 xmps/iTDVP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index 53bff60..b86eb24 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -82,8 +82,8 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         d, D = mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.euler(mps, T[1]-T[0])
+        for dt in tqdm(np.append(np.diff(T), 0)): # the last entry is not stepped from
+            mps = self.euler(mps, dt)
 
         self.mps = iMPS().deserialize(self.mps_history[-1], d, D, real=True)
         return self
@@ -94,8 +94,8 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         d, D = mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.rk4(mps, T[1]-T[0])
+        for dt in tqdm(np.append(np.diff(T), 0)): # the last entry is not stepped from
+            mps = self.rk4(mps, dt)
 
         self.mps = iMPS().deserialize(self.mps_history[-1], d, D, real=True)
         return self
-- 
2.43.0


From 86e500396d7d73c17cba91391c3e4ca1433603ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:25 +0000
Subject: [PATCH 84/87] fix: odeint could not go backwards in time

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 0ba81ef..730264d 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -222,7 +222,7 @@ class Trajectory(object):
 
         v = mps.serialize(real=True)
         Q = solve_ivp(f, (T[0], T[-1]), v, method='LSODA', t_eval=T,
-                      max_step=T[1]-T[0])
+                      max_step=abs(T[1]-T[0]))
         traj = list(Q.y.T)
         bar.close()
 
-- 
2.43.0


From fa795fcec51c9795fc4136b5989658d2b3bc05b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:59 +0000
Subject: [PATCH 85/87] fix: fixed points of transfer matrices far from norm
 one were inaccurate or not found

---
 xmps/iMPS.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 266ac8d..bc5af4d 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -41,7 +41,11 @@ def dominant(O, v0=None, tol=0):
         w, v = eig(O @ eye(n))
         k = np.argmax(abs(w))
         return w[[k]], v[:, [k]]
-    return arnoldi(O, k=1, v0=v0, tol=tol)
+    # arnoldi stops at an absolute error: far from one the operator is rescaled first
+    s = norm(O @ np.ones(n))/np.sqrt(n)
+    s = s if s > 0 and np.isfinite(s) else 1.
+    w, v = arnoldi(O*(1/s), k=1, v0=v0, tol=tol)
+    return w*s, v
 
 class Map(object):
     """Map: transfer matrix with A and B"""
-- 
2.43.0


From 0dd8d0dc969684df64985c26c007bec0b10ee91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:24 +0000
Subject: [PATCH 86/87] fix: couplings below 1e-8 were dropped from the terms
 of a chain

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 217b740..cac01c3 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -53,7 +53,7 @@ class Hamiltonian(object):
         return str(self.strings)
 
     def _squeeze(self):
-        self.strings = {key:val for key, val in self.strings.items() if not allclose(val, 0)}
+        self.strings = {key:val for key, val in self.strings.items() if val != 0}
         return self
 
     def to_matrix(self):
-- 
2.43.0


From 4c1b974385c3c212d8746e42469f70832d916606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:26 +0000
Subject: [PATCH 87/87] fix: fixed points whose first element vanishes were nan
 or had no definite phase

---
 xmps/iMPS.py   |  6 +++---
 xmps/tensor.py | 19 ++++++++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index bc5af4d..57850f2 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -25,7 +25,7 @@ from itertools import product
 
 from .tensor import H, C, r_eigenmatrix, l_eigenmatrix, get_null_space, p
 from .tensor import H as cT, C as c, T
-from .tensor import basis_iterator, T, rotate_to_hermitian
+from .tensor import basis_iterator, T, rotate_to_hermitian, phase_reference
 from .tensor import C as c, H as cT, uqr, urq, eye_like
 
 from .ncon import ncon
@@ -93,14 +93,14 @@ class Map(object):
         η, r = dominant(self.aslinearoperator(), v0=r0, tol=tol)
         if rotate:
             w, r = rotate_to_hermitian(r, ret_phase=True)
-        r = r.reshape(self.rshape)/sign(r[0])
+        r = r.reshape(self.rshape)/sign(phase_reference(r))
         return η, r
 
     def left_fixed_point(self, l0=None, tol=0):
         if l0 is not None:
             l0 = l0.reshape(self.shape[0])
         η, l = dominant(self.aslinearoperator().H, v0=l0, tol=tol)
-        l = rotate_to_hermitian(l)/sign(l[0])
+        l = rotate_to_hermitian(l)/sign(phase_reference(l))
         l = l.reshape(self.lshape)
         return η*np.sqrt(tr(l.conj().T@l)), l/np.sqrt(tr(l.conj().T@l))
 
diff --git a/xmps/tensor.py b/xmps/tensor.py
index 6ac206a..4f2a839 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -1,4 +1,5 @@
 '''various tensor manipulation tools useful for mps stuff'''
+import math
 import unittest
 from numpy.random import randn
 from scipy.sparse.linalg import eigs as arnoldi
@@ -247,12 +248,24 @@ def diagonalise(M):
     S, V = eigh(M)
     return (V[:, ::-1], diag(S[::-1]))
 
+def phase_reference(r):
+    """phase_reference: the number whose phase (up to a sign) is that of r: the first element,
+    unless it is zero up to rounding and has no phase"""
+    v = np.reshape(r, -1)
+    n, small = math.isqrt(v.size), 1e-8*np.max(np.abs(v))
+    refs = [v[0]]
+    if n*n == v.size:
+        R = v.reshape(n, n)
+        refs += [np.trace(R), np.sqrt(np.sum(R*R.T)+0j)] # a positive, a hermitian R has them
+    refs.append(v[np.argmax(np.abs(v) > small)])
+    return next((x for x in refs if np.abs(x) > small), v[0])
+
 def rotate_to_hermitian(r, testing=False, ret_phase=False):
     """rotate_to_hermitian: arnoldi returns matrices that are hermitian up
     to phase w i.e. r = w r_H where r_H = r_H^\dagger and abs(w)=1
     Also slightly underspecified, only return r_H up to a sign
     """
-    rr = r[0, 0]
+    rr = phase_reference(r)
     w = sqrt(conj(rr)/rr)
     if ret_phase:
         return w.conj(), r*w
@@ -276,7 +289,7 @@ def r_eigenmatrix(M):
     # e_max_, v_max_ = e[argmax(abs(e))], v[:, argmax(abs(e))].reshape(K, K)
 
     e, v = arnoldi(M, k=1, which='LM')
-    e_max, v_max = squeeze(e), rotate_to_hermitian(v.reshape(K, K))/sign(v[0])
+    e_max, v_max = squeeze(e), rotate_to_hermitian(v.reshape(K, K))/sign(phase_reference(v))
 
     return e_max, v_max
 
@@ -298,7 +311,7 @@ def l_eigenmatrix(M):
     # e_max_, v_max_ = e[argmax(abs(e))], v[:, argmax(abs(e))].reshape(K, K)  # maxima
 
     e, v = arnoldi(M.conj().T, k=1, which='LM')
-    e_max, v_max = squeeze(e), rotate_to_hermitian(v.reshape(K, K))/sign(v[0])
+    e_max, v_max = squeeze(e), rotate_to_hermitian(v.reshape(K, K))/sign(phase_reference(v))
 
     return e_max.conj(), v_max.conj() # of M, not of its adjoint
 
-- 
2.43.0

