From d17345cde88e9c2a72e419726a90ce02de967e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 01/34] fix: the adjoint of a complex Lazy matrix is its
 conjugate transpose

rmatvec/rmatmat multiplied by the plain transpose, so .H returned A^T and .T returned A^H.
---
 emlp/reps/linear_operator_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 41eab9a..cb151c5 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -727,9 +727,9 @@ class Lazy(LinearOperator):
     def _matvec(self,v):
         return self.A@v
     def _rmatmat(self,V):
-        return self.A.T@V
+        return self.A.conj().T@V
     def _rmatvec(self,v):
-        return self.A.T@v
+        return self.A.conj().T@v
     def to_dense(self):
         return self.A
     def invT(self):
-- 
2.43.0


From bd6fe0d1ed4ba29089870e35c3a2d700f2e5c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 02/34] fix: conjugate the factors in the adjoint of composite
 lazy operators

---
 emlp/reps/linear_operators.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 830ee13..4c709de 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -17,6 +17,9 @@ def densify(x):
     elif isinstance(x,(jnp.ndarray,np.ndarray)): return x
     else: raise NotImplementedError
 
+def adjoint(x):
+    return x.H if isinstance(x,LinearOperator) else x.conj().T
+
 class I(LinearOperator):
     def __init__(self,d):
         shape = (d,d)
@@ -48,7 +51,7 @@ class LazyKron(LinearOperator):
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-        return LazyKron([Mi.T for Mi in self.Ms])
+        return LazyKron([adjoint(Mi) for Mi in self.Ms])
     def invT(self):
         return LazyKron([M.invT() for M in self.Ms])
     def to_dense(self):
@@ -85,7 +88,7 @@ class LazyKronsum(LinearOperator):
         return out.reshape(self.shape[0],ev.shape[-1])
         
     def _adjoint(self):
-        return LazyKronsum([Mi.T for Mi in self.Ms])
+        return LazyKronsum([adjoint(Mi) for Mi in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(kronsum,Ms)
@@ -128,7 +131,7 @@ class ConcatLazy(LinearOperator):
         return jnp.concatenate([M@V for M in self.Ms],axis=0)
     def _rmatmat(self,V):
         Vs = jnp.split(V,len(self.Ms))
-        return sum([self.Ms[i].T@Vs[i] for i in range(len(self.Ms))])
+        return sum([adjoint(self.Ms[i])@Vs[i] for i in range(len(self.Ms))])
     def to_dense(self):
         dense_Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return jnp.concatenate(dense_Ms,axis=0)
@@ -149,7 +152,7 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms])
+        return LazyDirectSum([adjoint(Mi) for Mi in self.Ms])
     def invT(self):
         return LazyDirectSum([M.invT() for M in self.Ms])
     def to_dense(self):
-- 
2.43.0


From 068e9d7683726d9d2166128c03bb41c60a7d112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 03/34] fix: LazyDirectSum default multiplicities, and keep
 them in adjoint and invT

---
 emlp/reps/linear_operators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 4c709de..f063267 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -140,8 +140,8 @@ class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
         self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
-        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)),
-                      sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)))
+        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,self.multiplicities)),
+                      sum(Mi.shape[0]*c for Mi,c in zip(Ms,self.multiplicities)))
         super().__init__(None,shape)
         #self.dtype=Ms[0].dtype
         #self.dtype=jnp.dtype('float32')
@@ -152,9 +152,9 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([adjoint(Mi) for Mi in self.Ms])
+        return LazyDirectSum([adjoint(Mi) for Mi in self.Ms],self.multiplicities)
     def invT(self):
-        return LazyDirectSum([M.invT() for M in self.Ms])
+        return LazyDirectSum([M.invT() for M in self.Ms],self.multiplicities)
     def to_dense(self):
         Ms_all = [M for M,c in zip(self.Ms,self.multiplicities) for _ in range(c)]
         Ms_all = [Mi.to_dense() if isinstance(Mi,LinearOperator) else Mi for Mi in Ms_all]
-- 
2.43.0


From 259c6c9fae0f143ab404ac460d34378a268c1030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 04/34] fix: invT of Kronecker products and direct sums with
 dense factors

---
 emlp/reps/linear_operators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index f063267..eb3bdae 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -20,6 +20,9 @@ def densify(x):
 def adjoint(x):
     return x.H if isinstance(x,LinearOperator) else x.conj().T
 
+def inverse_transpose(x):
+    return x.invT() if isinstance(x,LinearOperator) else jnp.linalg.inv(x).T
+
 class I(LinearOperator):
     def __init__(self,d):
         shape = (d,d)
@@ -53,7 +56,7 @@ class LazyKron(LinearOperator):
     def _adjoint(self):
         return LazyKron([adjoint(Mi) for Mi in self.Ms])
     def invT(self):
-        return LazyKron([M.invT() for M in self.Ms])
+        return LazyKron([inverse_transpose(M) for M in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(jnp.kron,Ms)
@@ -154,7 +157,7 @@ class LazyDirectSum(LinearOperator):
     def _adjoint(self):
         return LazyDirectSum([adjoint(Mi) for Mi in self.Ms],self.multiplicities)
     def invT(self):
-        return LazyDirectSum([M.invT() for M in self.Ms],self.multiplicities)
+        return LazyDirectSum([inverse_transpose(M) for M in self.Ms],self.multiplicities)
     def to_dense(self):
         Ms_all = [M for M,c in zip(self.Ms,self.multiplicities) for _ in range(c)]
         Ms_all = [Mi.to_dense() if isinstance(Mi,LinearOperator) else Mi for Mi in Ms_all]
-- 
2.43.0


From 752336a9676b07e366cb3bf91590e4845750118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 05/34] fix: invT of a scaled operator inverts the operator

---
 emlp/reps/linear_operator_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index cb151c5..13bd1a4 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -623,7 +623,7 @@ class _ScaledLinearOperator(LinearOperator):
         return A.H * np.conj(alpha)
     def invT(self):
         A, alpha = self.args
-        return (1/alpha)*A.T
+        return (1/alpha)*A.invT()
     def to_dense(self):
         A, alpha = self.args
         return alpha*A.to_dense()
-- 
2.43.0


From d767b01cb78bed39483c51943c0a44aa60977068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 06/34] fix: invT of a sum is not the sum of the inverse
 transposes

---
 emlp/reps/linear_operator_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 13bd1a4..26c875a 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -555,8 +555,7 @@ class _SumLinearOperator(LinearOperator):
         return A.H + B.H
 
     def invT(self):
-        A,B = self.args
-        return A.invT() + B.invT()
+        return Lazy(np.linalg.inv(self.to_dense()).T)
 
 class _ProductLinearOperator(LinearOperator):
     def __init__(self, A, B):
-- 
2.43.0


From 210f4347810e7ba08b400b963bb8c083fa7fdbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 07/34] fix: Rot90 has an adjoint (the opposite rotation)

---
 emlp/reps/linear_operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index eb3bdae..81c47a5 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -235,5 +235,7 @@ class Rot90(LinearOperator):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
     def _matvec(self,V):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
+    def _adjoint(self):
+        return Rot90(self.n,-self.k)
     def invT(self):
         return self
\ No newline at end of file
-- 
2.43.0


From 2430bd8496a281a7eb0f189b2d8f7ccd7bfddbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 08/34] fix: transposed ConcatLazy and LazyJVP accept vectors

---
 emlp/reps/linear_operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 81c47a5..45fd2e4 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -118,6 +118,8 @@ class LazyJVP(LinearOperator):
         return self.vjp(v)
     def _rmatmat(self,v):
         return self.vjp_T(v)
+    def _rmatvec(self,v):
+        return self.vjp_T(v)
     
 
 class ConcatLazy(LinearOperator):
@@ -135,6 +137,8 @@ class ConcatLazy(LinearOperator):
     def _rmatmat(self,V):
         Vs = jnp.split(V,len(self.Ms))
         return sum([adjoint(self.Ms[i])@Vs[i] for i in range(len(self.Ms))])
+    def _rmatvec(self,v):
+        return self._rmatmat(v)
     def to_dense(self):
         dense_Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return jnp.concatenate(dense_Ms,axis=0)
-- 
2.43.0


From ef62fba3e5789eb87f1e97385c3e557cbeede381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 09/34] fix: SwapMatrix used jax.ops.index_update, which jax no
 longer has

---
 emlp/reps/linear_operators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 45fd2e4..4a7dfbb 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -220,8 +220,7 @@ class SwapMatrix(LinearOperator):
         shape = (n,n)
         super().__init__(None,shape)
     def _matmat(self,V): #(c,k)
-        V = jax.ops.index_update(V, jax.ops.index[self.swaprows], V[self.swaprows[::-1]])
-        return V
+        return V.at[self.swaprows].set(V[self.swaprows[::-1]])
     def _matvec(self,V):
         return self._matmat(V)
     def _adjoint(self):
-- 
2.43.0


From 7069bd9ef91c7588287ec8c61295386dde4d8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 10/34] fix: LazyKron/LazyKronsum of a single Kronecker
 operator no longer contains itself

---
 emlp/reps/linear_operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 4a7dfbb..d60a20d 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -39,6 +39,7 @@ class I(LinearOperator):
 class LazyKron(LinearOperator):
 
     def __init__(self,Ms):
+        if len(Ms)==1: return # __new__ returned the (initialized) factor itself
         self.Ms = Ms
         shape = product([Mi.shape[0] for Mi in Ms]), product([Mi.shape[1] for Mi in Ms])
         #self.dtype=Ms[0].dtype
@@ -72,6 +73,7 @@ def kronsum(A,B):
 class LazyKronsum(LinearOperator):
     
     def __init__(self,Ms):
+        if len(Ms)==1: return # __new__ returned the (initialized) factor itself
         self.Ms = Ms
         shape = product([Mi.shape[0] for Mi in Ms]), product([Mi.shape[1] for Mi in Ms])
         #self.dtype=Ms[0].dtype
-- 
2.43.0


From f718540e4081197d1c87d8104006799486f11f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 11/34] fix: one consistent sort order of Base reps and their
 duals

Base.__lt__ placed a rep before every Dual whatever its group, so reps of one
group were not adjacent in sorted order and DirectProducts multiplied the
wrong axes together (depending on the order of the group hashes).
---
 emlp/reps/representation.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ad31ef1..6523281 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -166,13 +166,16 @@ class Rep(object):
         """ less than defined to disambiguate ordering multiple different representations.
             Canonical ordering is determined first by Group, then by size, then by hash"""
         if other==Scalar: return False
+        if self==Scalar: return True
         try: 
             if self.G<other.G: return True
             if self.G>other.G: return False
         except (AttributeError,TypeError): pass
         if self.size()<other.size(): return True
         if self.size()>other.size(): return False
-        return hash(self) < hash(other) #For sorting purposes only
+        # For sorting purposes only. A rep sorts directly before its dual
+        hashes = [(hash(rep.rep),1) if isinstance(rep,Dual) else (hash(rep),0) for rep in (self,other)]
+        return hashes[0] < hashes[1]
     def __mod__(self,other): # Wreath product
         """ Wreath product of representations (Not yet implemented)"""
         raise NotImplementedError
@@ -256,9 +259,6 @@ class Base(Rep):
         return hash((type(self),self.G))
     def __eq__(self,other):
         return type(other)==type(self) and self.G==other.G
-    def __lt__(self,other):
-        if isinstance(other,Dual): return True
-        return super().__lt__(other)
     # @property
     # def T(self):
     #     return Dual(self.G)
@@ -286,9 +286,6 @@ class Dual(Rep):
         return type(other)==type(self) and self.rep==other.rep
     def __hash__(self):
         return hash((type(self),self.rep))
-    def __lt__(self,other):
-        if other==self.rep: return False
-        return super().__lt__(other)
     def size(self):
         return self.rep.size()
         
-- 
2.43.0


From fb8f50d3506d16548e07aa20f534713e41a4ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 12/34] fix: orthogonal_complement does not return nans when
 the SVD did not converge

---
 emlp/reps/representation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 6523281..3e1b0bd 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -301,6 +301,9 @@ def T(p,q=0,G=None):
 def orthogonal_complement(proj):
     """ Computes the orthogonal complement to a given matrix proj"""
     U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
+    if not jnp.isfinite(S).all(): # jax returns nans where the SVD did not converge, numpy raises LinAlgError
+        U,S,VH = np.linalg.svd(np.asarray(proj).astype(np.result_type(proj.dtype,np.float64)))
+        VH = jnp.asarray(VH)
     rank = (S>1e-5).sum()
     return VH[rank:].conj().T
 
-- 
2.43.0


From c2c60963be9686e4aeca08c30ff89abb1369f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 13/34] fix: representations that are not in canonical order
 can be hashed, so they can be hidden layer representations

---
 emlp/reps/product_sum_reps.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index ceb9296..30e8211 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -44,7 +44,6 @@ class SumRep(Rep):
         return self.reps==other.reps and (self.perm==other.perm).all()
 
     def __hash__(self):
-        assert self.canonical
         return hash(tuple(self.reps.items()))
 
     @property
@@ -277,7 +276,6 @@ class ProductRep(Rep):
         return LazyPerm(self.invperm)@canonical_lazy@LazyPerm(self.perm)
 
     def __hash__(self):
-        assert self.canonical, f"Not canonical {repr(self)}? perm {self.perm}"
         return hash(tuple(self.reps.items()))
     def __eq__(self, other): #TODO: worry about non canonical?
         return isinstance(other,ProductRep) and self.reps==other.reps and (self.perm==other.perm).all()
-- 
2.43.0


From 0fb1942879cfc87a0f927c73bc468a4291103683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 14/34] fix: comparing a sum with another kind of
 representation is False instead of an AttributeError

---
 emlp/reps/product_sum_reps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 30e8211..b53ea06 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -41,7 +41,7 @@ class SumRep(Rep):
         return LazyPerm(self.invperm)@LazyDirectSum(drhos,multiplicities)@LazyPerm(self.perm)
 
     def __eq__(self, other):
-        return self.reps==other.reps and (self.perm==other.perm).all()
+        return isinstance(other,SumRep) and self.reps==other.reps and (self.perm==other.perm).all()
 
     def __hash__(self):
         return hash(tuple(self.reps.items()))
-- 
2.43.0


From f071e816ceccfca321ade7a39ef59927174dffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 15/34] fix: gate_indices of a single representation that is
 not a sum

---
 emlp/nn/objax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/nn/objax.py b/emlp/nn/objax.py
index 2f92846..2c6b865 100644
--- a/emlp/nn/objax.py
+++ b/emlp/nn/objax.py
@@ -333,12 +333,12 @@ def gate_indices(ch_rep:Rep) -> jnp.ndarray:
     """ Indices for scalars, and also additional scalar gates
         added by gated(sumrep)"""
     channels = ch_rep.size()
-    perm = ch_rep.perm
     indices = np.arange(channels)
 
     if not isinstance(ch_rep,SumRep): # If just a single rep, only one scalar at end
-        return indices if ch_rep.is_permutation else np.ones(ch_rep.size())*ch_rep.size()
+        return indices if ch_rep.is_permutation else np.full(channels,channels)
 
+    perm = ch_rep.perm
     num_nonscalars = 0
     i=0
     for rep in ch_rep:
-- 
2.43.0


From ca5bb9d7498788b87bca061e7c456358b13ff4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 16/34] fix: bilinear_weights for representations that are not
 sums

---
 emlp/reps/representation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 3e1b0bd..b30bb95 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -417,11 +417,11 @@ def sparsify_basis(Q,lr=1e-2): #(n,r)
 @export
 def bilinear_weights(out_rep,in_rep):
     #TODO: replace lazy_projection function with LazyDirectSum LinearOperator
-    W_rep,W_perm = (in_rep>>out_rep).canonicalize()
-    # possible bug when in_rep and out_rep are both non sumreps? #TODO: investigate
+    as_sum = lambda rep: rep if isinstance(rep,emlp.reps.product_sum_reps.SumRep) else emlp.reps.product_sum_reps.SumRep(rep)
+    W_rep,W_perm = as_sum(in_rep>>out_rep).canonicalize()
     inv_perm = np.argsort(W_perm)
     mat_shape = out_rep.size(),in_rep.size()
-    x_rep=in_rep
+    x_rep=as_sum(in_rep)
     W_multiplicities = W_rep.reps
     x_multiplicities = x_rep.reps
     x_multiplicities = {rep:n for rep,n in x_multiplicities.items() if rep!=Scalar}
-- 
2.43.0


From 5ddd1dcd89055381392c1663c94e0b9ca1ee3836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 17/34] fix: gated works for representations of product groups

---
 emlp/nn/objax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/nn/objax.py b/emlp/nn/objax.py
index 2c6b865..5dba1aa 100644
--- a/emlp/nn/objax.py
+++ b/emlp/nn/objax.py
@@ -70,9 +70,9 @@ def gated(ch_rep:Rep) -> Rep:
         reps in the input. To be used as the output for linear (and or bilinear) layers directly
         before a :func:`GatedNonlinearity` to produce its scalar gates. """
     if isinstance(ch_rep,SumRep):
-        return ch_rep+sum([Scalar(rep.G) for rep in ch_rep if rep!=Scalar and not rep.is_permutation])
+        return ch_rep+sum([Scalar for rep in ch_rep if rep!=Scalar and not rep.is_permutation])
     else:
-        return ch_rep+Scalar(ch_rep.G) if not ch_rep.is_permutation else ch_rep
+        return ch_rep+Scalar if not ch_rep.is_permutation else ch_rep
 
 @export
 class GatedNonlinearity(Module):
-- 
2.43.0


From b46015dd22479c1f9e09267e533f979965ac3350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 18/34] fix: torch Standardize can wrap EMLP and MLP, which did
 not accept the training argument it passes

---
 emlp/nn/pytorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index b41b251..30276db 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -163,7 +163,7 @@ class EMLP(nn.Module):
             *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
             Linear(reps[-1],self.rep_out)
         )
-    def forward(self,x):
+    def forward(self,x,training=True):
         return self.network(x)
 
 class Swish(nn.Module):
@@ -189,7 +189,7 @@ class MLP(nn.Module):
             nn.Linear(chs[-1],cout)
         )
 
-    def forward(self,x):
+    def forward(self,x,training=True):
         y = self.net(x)
         return y
 
-- 
2.43.0


From b053467c5c63104790cb6a071f0b16abd09a2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 19/34] fix: groups of one class with different arguments never
 have the same repr (it identifies them)

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 9e74f69..e2077d4 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -86,7 +86,7 @@ class Group(object,metaclass=Named):
     def __repr__(self):
         outstr = f"{self.__class__}"
         if self.args:
-            outstr += '('+''.join(repr(arg) for arg in self.args)+')'
+            outstr += '('+','.join(repr(arg) for arg in self.args)+')'
         return outstr
 
     def __eq__(self,G2):  # TODO: more permissive by checking that spans are equal?
-- 
2.43.0


From 6982167e6c6152c3043db94f62e0627fd541c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 20/34] fix: embeddings of a group on different slices are
 different groups

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index e2077d4..ebfe77a 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -437,7 +437,7 @@ class Embed(Group):
         self.discrete_generators += np.eye(d)
         self.lie_algebra[:,slice,slice] = G.lie_algebra
         self.discrete_generators[:,slice,slice]  =G.discrete_generators
-        self.name = f"{G}_R{d}"
+        self.name = f"{G}_R{d}[{slice}]"
         super().__init__()
    
     def __repr__(self):
-- 
2.43.0


From 9cdbb674378d23a4f80b6d5838a793e9a15512e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 21/34] fix: SO(1), SL(1), SU(1) and S(1) could not be
 constructed

---
 emlp/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index ebfe77a..4bd19d5 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -142,6 +142,7 @@ class Trivial(Group):
 class SO(Group):
     """ The special orthogonal group SO(n) in n dimensions"""
     def __init__(self,n):
+        self.d = n
         self.lie_algebra = np.zeros(((n*(n-1))//2,n,n))
         k=0
         for i in range(n):
@@ -259,6 +260,7 @@ class Z(Group):
 class S(Group): #The permutation group
     r""" The permutation group S_n with an n dimensional regular representation."""
     def __init__(self,n):
+        self.d = n
         # Here we choose n-1 generators consisting of swaps between the first element
         # and every other element
         perms = np.arange(n)[None]+np.zeros((n-1,1)).astype(int)
@@ -275,6 +277,7 @@ class S(Group): #The permutation group
 class SL(Group):
     """ The special linear group SL(n) in n dimensions"""
     def __init__(self,n):
+        self.d = n
         self.lie_algebra = np.zeros((n*n-1,n,n))
         k=0
         for i in range(n):
@@ -327,7 +330,7 @@ class U(Group):  # Of dimension n^2
 class SU(Group):  # Of dimension n^2-1
     """ The special unitary group SU(n) in n dimensions (complex)"""
     def __init__(self,n):
-        if n==1: return Trivial(1)
+        self.d = n
         lie_algebra_real = np.zeros((n**2-1,n,n))
         lie_algebra_imag = np.zeros((n**2-1,n,n))
         k=0
-- 
2.43.0


From ab9499b50f51fdfd4d5dd41b073adb45763d41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 22/34] fix: D(1) was flagged as a permutation group although
 its reflection is not one

---
 emlp/groups.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 4bd19d5..35f1da9 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -171,6 +171,7 @@ class C(Group):
 @export
 class D(C):
     """ The Dihedral group Dk in 2 dimensions"""
+    is_permutation = False # the flags are set from C(k) before the reflection is added
     def __init__(self,k):
         super().__init__(k)
         self.discrete_generators = np.concatenate((self.discrete_generators,np.array([[[-1,0],[0,1]]])))
-- 
2.43.0


From 262fb74db2a50e13a5c4f8eabf4ed0aab2754ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 23/34] fix: the RubiksCube generators did not turn the
 stickers of rotated faces and generated a far larger group

---
 emlp/groups.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 35f1da9..265b213 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -397,11 +397,16 @@ class RubiksCube(Group): #3x3 rubiks cube
         RotFront =pad(np.arange(48))# rotate full cube so that Left face becomes Up, Up becomes Right, Right becomes Down, Down becomes Left
         URDL = np.array([0,2,5,4])
         RotFront[URDL,:] = RotFront[np.roll(URDL,1),:]
+        # the stickers of each face turn along with the cube
+        for face,turns in [(0,-1),(2,-1),(5,-1),(4,-1),(1,-1),(3,1)]:
+            RotFront[face] = np.rot90(RotFront[face].reshape(3,3),turns).reshape(9)
         RotFront = unpad(RotFront)
         RotBack = np.argsort(RotFront)
         RotLeft = pad(np.arange(48))
         UFDB = np.array([0,1,5,3])
         RotLeft[UFDB,:] = RotLeft[np.roll(UFDB,1),:]
+        for face,turns in [(3,2),(0,2),(4,-1),(2,1)]:
+            RotLeft[face] = np.rot90(RotLeft[face].reshape(3,3),turns).reshape(9)
         RotLeft = unpad(RotLeft)
         RotRight = np.argsort(RotLeft)
 
-- 
2.43.0


From 614a49ab106b59cf3c02329f0ec5ca54e761ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 24/34] fix: the adjoint of a complex LazyJVP was missing a
 conjugate

---
 emlp/reps/linear_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index d60a20d..9e48613 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -112,7 +112,7 @@ class LazyJVP(LinearOperator):
     def __init__(self,operator_fn,X,TX):
         self.shape = operator_fn(X).shape
         self.vjp = lambda v: jax.jvp(lambda x: operator_fn(x)@v,[X],[TX])[1]
-        self.vjp_T = lambda v: jax.jvp(lambda x: operator_fn(x).T@v,[X],[TX])[1]
+        self.vjp_T = lambda v: jax.jvp(lambda x: (operator_fn(x).T@v.conj()).conj(),[X],[TX])[1]
         self.dtype=jnp.dtype('float32')
     def _matmat(self,v):
         return self.vjp(v)
-- 
2.43.0


From 7d98fc523418b18e5c57ad574246fa55bd3788a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 25/34] fix: the default drho of a representation failed for
 groups with complex generators

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index b30bb95..8f4e252 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -39,7 +39,7 @@ class Rep(object):
         
     def drho(self,A): 
         """ Lie Algebra representation of the matrix A of shape (d,d)"""
-        In = jnp.eye(A.shape[0])
+        In = jnp.eye(A.shape[0],dtype=jnp.result_type(A.dtype,jnp.float32))
         return LazyJVP(self.rho,In,A)
 
     def __call__(self,G):
-- 
2.43.0


From ddd9b6c11f853b066621f18ff9d03387f1d3b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:32 +0000
Subject: [PATCH 26/34] fix: GroupAugmentation acts with the representations of
 its group

---
 emlp/datasets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/datasets.py b/emlp/datasets.py
index cc01f03..0baeda6 100644
--- a/emlp/datasets.py
+++ b/emlp/datasets.py
@@ -105,11 +105,11 @@ class ParticleInteraction(object):
 class GroupAugmentation(Module):
     def __init__(self,network,rep_in,rep_out,group):
         super().__init__()
-        self.rep_in=rep_in
-        self.rep_out=rep_out
+        self.rep_in=rep_in(group)
+        self.rep_out=rep_out(group)
         self.G=group
-        self.rho_in = jit(vmap(self.rep_in.rho))
-        self.rho_out = jit(vmap(self.rep_out.rho))
+        self.rho_in = jit(vmap(self.rep_in.rho_dense))
+        self.rho_out = jit(vmap(self.rep_out.rho_dense))
         self.model = network
     def __call__(self,x,training=True):
         if training:
-- 
2.43.0


From dfb09e9e79df8df61d6534d61eed4550c43a1c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 27/34] fix: SwapMatrix swaps the given rows for tuples, lists
 and numpy operands

---
 emlp/reps/linear_operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 9e48613..43973dc 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -218,10 +218,11 @@ class LazyShift(LinearOperator):
 
 class SwapMatrix(LinearOperator):
     def __init__(self,swaprows,n):
-        self.swaprows=swaprows
+        self.swaprows=np.asarray(swaprows)
         shape = (n,n)
         super().__init__(None,shape)
     def _matmat(self,V): #(c,k)
+        V = jnp.asarray(V)
         return V.at[self.swaprows].set(V[self.swaprows[::-1]])
     def _matvec(self,V):
         return self._matmat(V)
-- 
2.43.0


From 36831363971a9c873d43f9fefa7b1b7f033f9bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 28/34] fix: cut trajectories into chunks of chunk_len points
 when their length is not a multiple of it

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index be84aeb..55b7142 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -128,7 +128,7 @@ class HamiltonianDataset(Dataset):
         batch_size, traj_len, *z_dim = zs.shape
         n_chunks = traj_len // chunk_len
         chunk_idx = np.random.randint(0, n_chunks, (batch_size,))
-        chunked_zs = np.stack(np.split(zs,n_chunks, axis=1))
+        chunked_zs = np.stack(np.split(zs[:,:n_chunks*chunk_len],n_chunks, axis=1))
         chosen_zs = chunked_zs[chunk_idx, np.arange(batch_size)]
         return chosen_zs
 
-- 
2.43.0


From 5497e373f0c91d497c252df5e7eb363bad4d79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 29/34] fix: give HamiltonianDataset one time point per point
 of the chunk whatever the rounding of dt

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index 55b7142..e54a71f 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -99,7 +99,7 @@ class HamiltonianDataset(Dataset):
             torch.save(Zs, filename)
         
         self.Zs = Zs
-        self.T = np.asarray(jnp.arange(0, chunk_len*dt, dt))
+        self.T = np.asarray(dt*jnp.arange(chunk_len))
         self.T_long = np.asarray(jnp.arange(0,integration_time,dt))
 
     def __len__(self):
-- 
2.43.0


From 5f046d1cbdc25ca017d605872119a6dfd95925d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 30/34] fix: training up to an epoch that is already reached no
 longer counts an epoch

---
 experiments/trainer/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/trainer.py b/experiments/trainer/trainer.py
index 180b7d6..ae02308 100644
--- a/experiments/trainer/trainer.py
+++ b/experiments/trainer/trainer.py
@@ -62,7 +62,7 @@ class Trainer(object,metaclass=Named):
                 self.step(self.epoch+i/steps_per_epoch,minibatch)
                 with self.logger as do_log:
                     if do_log: self.logStuff(step, minibatch)
-        self.epoch+=1
+        self.epoch = start_epoch+num_epochs
         self.logStuff(step)
 
     def step(self, epoch, minibatch):
-- 
2.43.0


From a3696d5d9640e8280cef0b8c12d7c31dfba8442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:25 +0000
Subject: [PATCH 31/34] fix: the iterative solver looks for complex solutions
 of complex constraints

---
 emlp/reps/representation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 8f4e252..ea9525a 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -327,6 +327,8 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
         up to the rank r, with given tolerance. Uses gradient descent (+ momentum) on the
         objective |CQ|^2, which provably converges at an exponential rate."""
     W = np.random.randn(C.shape[-1],r)/np.sqrt(C.shape[-1])# if W0 is None else W0
+    if jnp.iscomplexobj(C@W): # the solutions of complex constraints are complex
+        W = W+1j*np.random.randn(*W.shape)/np.sqrt(C.shape[-1])
     W = device_put(W)
     opt_init,opt_update = optax.sgd(lr,.9)
     opt_state = opt_init(W)  # init stats
@@ -344,7 +346,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     for i in range(20000):
         
         lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad, opt_state, W)
+        updates, opt_state = opt_update(grad.conj(), opt_state, W)
         W = optax.apply_updates(W, updates)
         # update progress bar
         progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
-- 
2.43.0


From 42f24868d658cec513fd65b9f3ba76e349e8b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:04 +0000
Subject: [PATCH 32/34] fix: the order of the parts of a sum is total when some
 of them mix several groups

---
 emlp/reps/representation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ea9525a..623ed76 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -167,6 +167,8 @@ class Rep(object):
             Canonical ordering is determined first by Group, then by size, then by hash"""
         if other==Scalar: return False
         if self==Scalar: return True
+        Gs = [getattr(rep,"G",None) for rep in (self,other)]
+        if (Gs[0] is None)!=(Gs[1] is None): return Gs[0] is None # reps of several groups come first
         try: 
             if self.G<other.G: return True
             if self.G>other.G: return False
-- 
2.43.0


From 9f3c79477fbdc1a0030e9ba6b33ef79f24c2c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:04 +0000
Subject: [PATCH 33/34] fix: train_regression no longer stores the symmetry of
 a data set in its default net_config

---
 experiments/train_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/train_regression.py b/experiments/train_regression.py
index 918f036..13e2d79 100644
--- a/experiments/train_regression.py
+++ b/experiments/train_regression.py
@@ -29,7 +29,7 @@ def makeTrainer(*,dataset=Inertia,network=EMLP,num_epochs=300,ndata=1000+2000,se
     with FixedNumpySeed(seed),FixedPytorchSeed(seed):
         base_dataset = dataset(ndata)
         datasets = split_dataset(base_dataset,splits=split)
-    if net_config['group'] is None: net_config['group']=base_dataset.symmetry
+    if net_config['group'] is None: net_config={**net_config,'group':base_dataset.symmetry}
     model = network(base_dataset.rep_in,base_dataset.rep_out,**net_config)
     if aug: model = base_dataset.default_aug(model)
     model = Standardize(model,datasets['train'].stats)
-- 
2.43.0


From 3ae2a748e050deed6fea338600a0cb3fe0e0d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 34/34] fix: LazyDirectSum keeps the imaginary part of complex
 numpy matrices

---
 emlp/reps/linear_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 43973dc..e740d6e 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -147,7 +147,7 @@ class ConcatLazy(LinearOperator):
     
 class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
-        self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
+        self.Ms = [jax.device_put(M.astype(np.complex64 if np.iscomplexobj(M) else np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
         shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,self.multiplicities)),
                       sum(Mi.shape[0]*c for Mi,c in zip(Ms,self.multiplicities)))
-- 
2.43.0

