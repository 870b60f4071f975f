From 3ec30dc9961037716f7b7fa1986600b37eb6ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:05 +0000
Subject: [PATCH 001/188] fix: boson_basis_general: 'z' fell through to 'n' and
 multiplied both matrix elements

---
 .../basis_general/_basis_general_core/source/boson_basis_core.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h b/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
index af83059..e9de55f 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
@@ -137,6 +137,7 @@ class boson_basis_core : public general_basis_core<I,P>
 				switch(op){
 					case 'z':
 						me_diag *= (occ-S);
+						break;
 					case 'n':
 						me_diag *= occ;
 						break;
-- 
2.43.0


From d23e32879f5841e1af3c134b2d3d475ddc6753cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:51 +0000
Subject: [PATCH 002/188] fix:
 spinful_fermion_basis_1d(double_occupancy=False): operators without
 conservation law used full-space row indices

---
 quspin/basis/basis_1d/fermion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 4f997e7..da2930d 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -371,6 +371,9 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 
 		self._allowed_ops = set(["I","+","-","n","z"])
 		basis_1d.__init__(self,spf_basis,spf_ops,L,Np=Nf_list,pars=pars,count_particles=count_particles,**blocks)
+		if not double_occupancy and self._op is spf_ops.op:
+			# the basis is not the full space: rows must be searched for in the basis.
+			self._op = spf_ops.n_op
 		
 
 	def _Op(self,opstr,indx,J,dtype):
-- 
2.43.0


From 500045d555586a4fea9dfca814ce0c4d95077b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 003/188] fix: spin_basis_general with S>1/2 and a list of
 particle sectors raised TypeError

---
 quspin/basis/basis_general/base_higher_spin.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_general/base_higher_spin.py b/quspin/basis/basis_general/base_higher_spin.py
index f2ae598..e2dedfb 100644
--- a/quspin/basis/basis_general/base_higher_spin.py
+++ b/quspin/basis/basis_general/base_higher_spin.py
@@ -42,11 +42,12 @@ class higher_spin_basis_general(basis_general):
 				Np_iter = iter(Nup)
 			except TypeError:
 				raise TypeError("Nup must be integer or iteratable object.")
+			Nup = list(Np_iter)
 			self._Ns = 0
-			for Nup in Np_iter:
-				self._Ns += H_dim(Nup,N,sps-1)
+			for n in Nup:
+				self._Ns += H_dim(n,N,sps-1)
 
-			self._basis_dtype = get_basis_type(N,max(iter(Nup)),sps)
+			self._basis_dtype = get_basis_type(N,Nup,sps)
 
 		if len(self._pers)>0:
 			if Ns_block_est is None:
-- 
2.43.0


From bf4ed7d6515c25cd2d0f4ffa2c54b86e18a2b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 004/188] fix: spinless_fermion_basis_general with a list of
 particle sectors kept only the last one

---
 quspin/basis/basis_general/fermion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index b1379d2..412521d 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -127,11 +127,12 @@ class spinless_fermion_basis_general(basis_general):
 				Np_iter = iter(Nf)
 			except TypeError:
 				raise TypeError("Nf must be integer or iterable object.")
+			Nf = list(Np_iter)
 			self._Ns = 0
-			for Nf in Np_iter:
-				if Nf > N or Nf < 0:
+			for n in Nf:
+				if n > N or n < 0:
 					raise ValueError("particle number Nf must satisfy: 0 <= Nf <= N")
-				self._Ns += comb(N,Nf,exact=True)
+				self._Ns += comb(N,n,exact=True)
 
 		self._pcon_args = dict(N=N,Nf=Nf)
 
-- 
2.43.0


From 45e17502d115d1c6cd3e29cd4553627707b7530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 005/188] fix: general bases with a list of particle sectors
 and states wider than 64 bits were not sorted

---
 quspin/basis/basis_general/base_general.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index cc897d9..e46651b 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -10,6 +10,15 @@ import warnings
 class GeneralBasisWarning(Warning):
 	pass
 
+def _argsort_descending(basis):
+	# numpy orders the large integer types byte by byte, which is not their numerical order.
+	if basis.dtype.kind == "V":
+		values = [basis_int_to_python_int(s) for s in basis]
+		return _np.array(sorted(range(len(values)),key=values.__getitem__,reverse=True),dtype=_np.intp)
+	else:
+		return _np.argsort(basis,kind="heapsort")[::-1]
+
+
 def process_map(map,q):
 	map = _np.asarray(map,dtype=_np.int32)
 	i_map = map.copy()
@@ -772,7 +781,7 @@ class basis_general(lattice_basis):
 			sort_basis = True
 
 		if sort_basis:
-			ind = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
+			ind = _argsort_descending(basis[:Ns])
 			self._basis = basis[ind].copy()
 			self._n = n[ind].copy()
 			if Np_list is not None: self._Np_list = Np_list[ind].copy()
-- 
2.43.0


From 20ded41640a7931860ded99f35ce0aed91b1bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:19 +0000
Subject: [PATCH 006/188] fix: basis integers with sps>2 and particle
 conservation were too narrow for intermediate states of operator strings

---
 quspin/basis/basis_1d/base_1d.py               | 2 ++
 quspin/basis/basis_general/base_higher_spin.py | 3 ++-
 quspin/basis/basis_general/boson.py            | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index a1b101a..7c37058 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -104,6 +104,8 @@ class basis_1d(lattice_basis):
 		self._L = L
 		Ns = basis_module.get_Ns(L,Np,self.sps,**blocks) # estimate how many states in H-space to preallocate memory.
 		self._basis_type = basis_module.get_basis_type(L,Np,self.sps,**blocks) # get the size of the integer representation needed for this basis (uint32,uint64,object)
+		# intermediate states of an operator string and the constants in `pars` must fit as well.
+		self._basis_type = _np.result_type(self._basis_type,*(_np.min_scalar_type(int(p)) for p in pars))
 		self._pars = _np.asarray(pars,dtype=self._basis_type)
 		self._bitops = bitops(basis_module,**blocks)
 		self._check_pcon = False
diff --git a/quspin/basis/basis_general/base_higher_spin.py b/quspin/basis/basis_general/base_higher_spin.py
index e2dedfb..405f247 100644
--- a/quspin/basis/basis_general/base_higher_spin.py
+++ b/quspin/basis/basis_general/base_higher_spin.py
@@ -60,7 +60,8 @@ class higher_spin_basis_general(basis_general):
 
 				self._Ns = Ns_block_est
 
-		self._basis_dtype = get_basis_type(N,Nup,sps)
+		# intermediate states of an operator string can lie outside of the particle sector.
+		self._basis_dtype = get_basis_type(N,None,sps)
 		self._core = higher_spin_basis_core_wrap(self._basis_dtype,N,sps,self._maps,self._pers,self._qs)
 
 		self._N = N
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index c9640bf..602385c 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -216,7 +216,9 @@ class boson_basis_general(hcb_basis_general,basis_general):
 						raise ValueError("Ns_block_est must be an integer > 0")						
 					self._Ns = Ns_block_est
 
-			self._basis_dtype = get_basis_type(N,Nb,self._sps)
+			get_basis_type(N,Nb,self._sps) # checks that the particles fit into the system
+			# intermediate states of an operator string can lie outside of the particle sector.
+			self._basis_dtype = get_basis_type(N,None,self._sps)
 			self._core = boson_basis_core_wrap(self._basis_dtype,N,self._sps,self._maps,self._pers,self._qs)
 			self._N = N
 			self._Ns_block_est=self._Ns
-- 
2.43.0


From 37faa019a0f1399d261ba1a2aee229fbc004cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 007/188] fix: spinful_fermion_basis_1d with more than 16 sites
 and few particles used too narrow integers for operator strings

---
 quspin/basis/basis_1d/base_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index 7c37058..f18a802 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -105,7 +105,7 @@ class basis_1d(lattice_basis):
 		Ns = basis_module.get_Ns(L,Np,self.sps,**blocks) # estimate how many states in H-space to preallocate memory.
 		self._basis_type = basis_module.get_basis_type(L,Np,self.sps,**blocks) # get the size of the integer representation needed for this basis (uint32,uint64,object)
 		# intermediate states of an operator string and the constants in `pars` must fit as well.
-		self._basis_type = _np.result_type(self._basis_type,*(_np.min_scalar_type(int(p)) for p in pars))
+		self._basis_type = _np.result_type(self._basis_type,_np.min_scalar_type(int(self.sps)**self.N-1),*(_np.min_scalar_type(int(p)) for p in pars))
 		self._pars = _np.asarray(pars,dtype=self._basis_type)
 		self._bitops = bitops(basis_module,**blocks)
 		self._check_pcon = False
-- 
2.43.0


From 3f2f936a43d5457a02c19a0a9d63f90c01486e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 008/188] fix: zA/zB (cA/cB) blocks of 1d bases flipped the
 wrong sublattice for chains of even length

---
 quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx | 4 ++--
 quspin/basis/basis_1d/boson.py                                | 4 ++--
 quspin/basis/basis_1d/spin.py                                 | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
index e3b377a..cd84515 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
@@ -137,7 +137,7 @@ cdef basis_type flip_sublat_A(basis_type s, int length,NP_INT8_t * sign,basis_ty
 
     for i in range(length):
 
-        if i%2==0: # flip site occupation
+        if (length-i-1)%2==0: # flip site occupation (digit i is site length-i-1)
             v += ( sps - s%sps -1 ) * M[i]
         else: # shift state by 0 sites
             v += ( s%sps ) * M[i]
@@ -179,7 +179,7 @@ cdef basis_type flip_sublat_B(basis_type s, int length,NP_INT8_t * sign,basis_ty
 
     for i in range(length):
         
-        if i%2==1: # flip site occupation
+        if (length-i-1)%2==1: # flip site occupation (digit i is site length-i-1)
             v += (sps - s%sps -1 ) * M[i]
         else: # shift state by 0 sites
             v += ( s%sps ) * M[i]
diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index cd7ba90..9eb6c1e 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -203,8 +203,8 @@ class boson_basis_1d(basis_1d):
 
 		if self._sps <= 2:
 			Imax = (1<<L)-1
-			stag_A = sum(1<<i for i in range(0,L,2))
-			stag_B = sum(1<<i for i in range(1,L,2))
+			stag_A = sum(1<<(L-i-1) for i in range(0,L,2)) # site i is bit L-i-1
+			stag_B = sum(1<<(L-i-1) for i in range(1,L,2))
 			pars = [0,L,Imax,stag_A,stag_B] # set sign to not be calculated
 			self._operators = ("availible operators for boson_basis_1d:"+
 								"\n\tI: identity "+
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index f51d36d..5514bf5 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -208,8 +208,8 @@ class spin_basis_1d(basis_1d):
 				raise ValueError("Invalid value for optional argument pauli. Allowed values are the integers [-1,0,1].")
 
 			Imax = (1<<L)-1
-			stag_A = sum(1<<i for i in range(0,L,2))
-			stag_B = sum(1<<i for i in range(1,L,2))
+			stag_A = sum(1<<(L-i-1) for i in range(0,L,2)) # site i is bit L-i-1
+			stag_B = sum(1<<(L-i-1) for i in range(1,L,2))
 			pars = [0,L,Imax,stag_A,stag_B]
 			self._operators = ("availible operators for spin_basis_1d:"+
 								"\n\tI: identity "+
-- 
2.43.0


From f0c8a0cf8277b9a943eff20e8c1d324ba1337d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 009/188] fix: boson_basis_1d: cblock with Nb raised NameError
 and pcblock alone was ignored

---
 quspin/basis/basis_1d/boson.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 9eb6c1e..2ce3ac1 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -154,7 +154,7 @@ class boson_basis_1d(basis_1d):
 		pzblock = blocks.get("pcblock")
 		a = blocks.get("a")
 
-		if self._sps > 2 and any(type(block) is int for block in [zblock,zAblock,zBblock]):
+		if self._sps > 2 and any(type(block) is int for block in [zblock,zAblock,zBblock,pzblock]):
 			raise ValueError("particle hole symmetry doesn't exist with sps > 2.")
 
 		if type(zblock) is int:
@@ -169,6 +169,10 @@ class boson_basis_1d(basis_1d):
 			del blocks["cBblock"]
 			blocks["zBblock"] = zBblock
 
+		if type(pzblock) is int:
+			del blocks["pcblock"]
+			blocks["pzblock"] = pzblock
+
 		if (type(pblock) is int) and (type(zblock) is int):
 			blocks["pzblock"] = pblock*zblock
 			self._blocks["pcblock"] = pblock*zblock
@@ -188,7 +192,7 @@ class boson_basis_1d(basis_1d):
 
 				if (L*(self.sps-1) % 2) != 0:
 					raise ValueError("spin inversion/particle-hole symmetry with particle/magnetization conservation must be used with chains with 0 magnetization sector or at half filling")
-				if Np != L*(self.sps-1)//2:
+				if Nb != L*(self.sps-1)//2:
 					raise ValueError("spin inversion/particle-hole symmetry only reduces the 0 magnetization or half filled particle sector")
 
 			if (Nb_list is not None) and ((type(zAblock) is int) or (type(zBblock) is int)):
-- 
2.43.0


From 2dc0e3bc4320eb63dc0b58b46e8c41a24dfd1dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 010/188] fix: spinful_fermion_basis_1d psblock: the fermionic
 sign of the representative was dropped

---
 quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
index f3bf8cd..736fd6a 100755
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
@@ -53,6 +53,7 @@ cdef basis_type RefState_PZ_template(basis_type s,int L, NP_INT8_t * sign, int *
     t = fliplr(s,L,&current_sign,bitop_pars)
     t = flip_all(t,L,&current_sign,bitop_pars)
     if t > s:
+        sign[0] = current_sign
         R[0] = 1
         return t
 
-- 
2.43.0


From 3b4fcd72ed59a77de9c2cc4449f98105146a7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 011/188] fix: projector of kblock+pblock with momentum pi and
 a unit cell of several sites was not normalised

---
 quspin/basis/basis_1d/base_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index f18a802..6e33b9b 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -874,7 +874,7 @@ class basis_1d(lattice_basis):
 			norm[mask] *= (1.0 + zblock*_np.cos(self._k*mm[mask]))	
 			del mask
 		elif (type(kblock) is int) and (type(pblock) is int):
-			if 2*kblock == self._L or kblock == 0:
+			if (2*kblock*a) % self._L == 0:
 				norm = _np.full(self._basis.shape,2*(self._L/a)**2,dtype=dtype)
 			else:
 				norm = _np.full(self._basis.shape,(self._L/a)**2,dtype=dtype)
-- 
2.43.0


From 0e811e8927feee474fbcfe1e1f828608f433a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 012/188] fix: kblock+zAblock+zBblock dropped states invariant
 under both sublattice inversions (integer spins)

---
 .../basis_1d/_basis_1d_core/sources/basis_templates.pyx   | 8 ++++++++
 .../basis_1d/_basis_1d_core/sources/op_templates.pyx      | 4 ++++
 quspin/basis/basis_1d/base_1d.py                          | 2 ++
 3 files changed, 14 insertions(+)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
index a637204..f4aded0 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
@@ -457,6 +457,14 @@ cdef npy_intp make_t_zA_zB_basis_template(ns_type next_state, basis_type[:] ns_p
                     N[Ns] = r            
                     basis[Ns] = s
                     Ns += 1
+
+            # integer spins: if two of these map the state on itself so does the third
+            if mzA != -1 and mzB != -1 and mz != -1:
+                if 1 + zAblock*cos(k*mzA) != 0 and 1 + zBblock*cos(k*mzB) != 0:
+                    m[Ns] = 5*(L+1)
+                    N[Ns] = r            
+                    basis[Ns] = s
+                    Ns += 1
         
         s = next_state(s,ns_pars)
         MAX -= 1
diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
index 492f77e..f7cbefc 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
@@ -953,6 +953,8 @@ cdef double complex MatrixElement_T_ZA_ZB(int L,int zAblock,int zBblock, int kbl
         nr = (1.0 + zBblock*cos(k*mmr) )/Nr
     elif cr == 4:
         nr = (1.0 + zAblock*zBblock*cos(k*mmr) )/Nr    
+    elif cr == 5:
+        nr = 4.0/Nr
     
 
     if cc == 1:
@@ -963,6 +965,8 @@ cdef double complex MatrixElement_T_ZA_ZB(int L,int zAblock,int zBblock, int kbl
         nc = (1.0 + zBblock*cos(k*mmc) )/Nc
     elif cc == 4:
         nc = (1.0 + zAblock*zBblock*cos(k*mmc) )/Nc    
+    elif cc == 5:
+        nc = 4.0/Nc
     
 
     ME=sqrt(nc/nr)*(zAblock**gA)*(zBblock**gB)
diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index 6e33b9b..effef40 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -872,6 +872,8 @@ class basis_1d(lattice_basis):
 			norm[mask] *= (1.0 + zBblock*_np.cos(self._k*mm[mask]))	
 			_np.equal(c,4,out=mask)
 			norm[mask] *= (1.0 + zblock*_np.cos(self._k*mm[mask]))	
+			_np.equal(c,5,out=mask)
+			norm[mask] *= 4.0
 			del mask
 		elif (type(kblock) is int) and (type(pblock) is int):
 			if (2*kblock*a) % self._L == 0:
-- 
2.43.0


From e47111d0d98364e3fab8710f84598f9718cb0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:16 +0000
Subject: [PATCH 013/188] fix: bit counts of 1d fermion bases with exactly 32
 (64) sites shifted by a negative amount

---
 quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h b/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
index b70ee4a..9d9d6cd 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
@@ -5,7 +5,7 @@
 
 
 int bitcount_32_C(npy_uint32 i,int l) {
-	i = i & ((0x7FFFFFFF) >> (31 - l));
+	if(l<32) i = i & ((0x7FFFFFFF) >> (31 - l));
 	#if defined(__GNUC__) || defined(__GNUG__)
 		return __builtin_popcount(i);
 	#else
@@ -16,7 +16,7 @@ int bitcount_32_C(npy_uint32 i,int l) {
 }
 
 int bitcount_64_C(npy_uint64 i, int l) {
-	i = i & ((0x7FFFFFFFFFFFFFFF) >> (63 - l));
+	if(l<64) i = i & ((0x7FFFFFFFFFFFFFFF) >> (63 - l));
 	#if defined(__GNUC__) || defined(__GNUG__)
 		return __builtin_popcountll(i);
 	#else
-- 
2.43.0


From 4b08b57c2245a588b72ef40d99bf76a06226f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:20 +0000
Subject: [PATCH 014/188] fix: particle-hole maps of general fermion bases
 lacked the fermionic sign of the inversion (hopping was odd under them)

---
 .../source/spinless_fermion_basis_core.h      | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/spinless_fermion_basis_core.h b/quspin/basis/basis_general/_basis_general_core/source/spinless_fermion_basis_core.h
index bfac13d..14f99ad 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/spinless_fermion_basis_core.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/spinless_fermion_basis_core.h
@@ -70,21 +70,37 @@ I inline spinless_fermion_map_bits(I s,const int map[],const int N,P &sign){
 	int pos_list[bit_info<I>::bits];
 	int work[bit_info<I>::bits];
 	bool f_count = 0;
+	bool any_neg = false;
+	bool occ[bit_info<I>::bits]; // occupation and inversion of the target sites
+	bool inv[bit_info<I>::bits];
 
 	for(int i=N-1;i>=0;--i){
 		int j = map[i];
 		I n = (s&1);
 		bool neg = j<0;
+		int t = ( neg ? -(j+1) : j);
+		bool o = (n ? true : false);
 
-		if(n){
-			pos_list[np++] = ( neg ? -(j+1) : j);
+		if(o){
+			pos_list[np++] = t;
 			f_count ^= (neg&&(i&1));
 		}
 		ss ^= ( neg ? (n^1)<<(N+j) : n<<(N-j-1) );
+		occ[t] = o;
+		inv[t] = neg;
+		any_neg |= neg;
 
 		s >>= 1;
 	}
 
+	if(any_neg){ // fermionic sign of exchanging creation and annihilation operators on the inverted sites
+		bool n_inv = 0;
+		for(int t=N-1;t>=0;--t){
+			f_count ^= (occ[t]&&n_inv);
+			n_inv ^= inv[t];
+		}
+	}
+
 	getf_count(pos_list,work,0,np-1,f_count);
 	if(f_count){sign *= -1;}
 
-- 
2.43.0


From 0572c635a5d31f49b755690fa2b9a3ab3ecffda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 015/188] fix: general bases refused real dtypes for couplings
 of about 10 and more, or long periods, because of rounding in the symmetry
 phases

---
 .../source/general_basis_get_vec.h                    |  4 ++--
 .../basis_general/_basis_general_core/source/misc.h   | 11 ++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
index beeb719..343559e 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
@@ -25,7 +25,7 @@ bool inline update_out_dense(std::complex<double> c, P phase, npy_intp n_vec,con
 
 template<class T,class P>
 bool inline update_out_dense(std::complex<double> c, P phase, npy_intp n_vec,const T *in, T *out){
-	if(std::abs(c.imag())>1.1e-15){
+	if(not_real(c)){
 		return false;
 	}
 	else{
@@ -48,7 +48,7 @@ bool inline update_out_dense(std::complex<double> c, std::complex<double> phase,
 template<class T>
 bool inline update_out_dense(std::complex<double> c, std::complex<double> phase, npy_intp n_vec,const T *in, T *out){
 	c *= phase;
-	if(std::abs(c.imag())>1.1e-15){
+	if(not_real(c)){
 		return false;
 	}
 	else{
diff --git a/quspin/basis/basis_general/_basis_general_core/source/misc.h b/quspin/basis/basis_general/_basis_general_core/source/misc.h
index 7d6818a..1c13dc0 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/misc.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/misc.h
@@ -101,6 +101,11 @@ inline std::complex<double> mul(T a,std::complex<double> z){
 
 
 
+// true if the imaginary part is more than the rounding error of the (real) phases of the symmetries.
+bool inline not_real(const std::complex<double> m){
+	return std::abs(m.imag()) > 1.1e-15 + 1.0e-12*std::abs(m.real());
+}
+
 template<class T>
 int inline check_imag(const std::complex<double> m){
 	return 0;
@@ -108,12 +113,12 @@ int inline check_imag(const std::complex<double> m){
 
 template<>
 int inline check_imag<double>(const std::complex<double> m){
-	return (std::abs(m.imag())>1.1e-15 ? 1 : 0);
+	return (not_real(m) ? 1 : 0);
 }
 
 template<>
 int inline check_imag<float>(const std::complex<double> m){
-	return (std::abs(m.imag())>1.1e-15 ? 1 : 0);
+	return (not_real(m) ? 1 : 0);
 }
 
 
@@ -130,7 +135,7 @@ int inline check_imag(const std::complex<double> m,std::complex<T> *M){
 template<class T>
 int inline check_imag(const std::complex<double> m,T *M){
 	(*M) = m.real();
-	return (std::abs(m.imag())>1.1e-15 ? 1 : 0);
+	return (not_real(m) ? 1 : 0);
 }
 
 // template<>
-- 
2.43.0


From 5217e6818be88e3a27371038dd5029eb739e0971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 016/188] fix: general bases with two identity maps removed the
 wrong symmetry

---
 quspin/basis/basis_general/base_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index e46651b..8f2e233 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -152,7 +152,7 @@ class basis_general(lattice_basis):
 			blocks,items = zip(*sorted_items)
 			items = list(items)
 
-			for i in remove_index:
+			for i in reversed(remove_index):
 				items.pop(i)
 
 			n_maps = len(items)
-- 
2.43.0


From 268907d8c93a14be2a25e74a98ac516c6002e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:22 +0000
Subject: [PATCH 017/188] fix: particle densities (m, nb, nf) lost a particle
 to floating-point truncation

---
 quspin/basis/basis_1d/boson.py        |  4 ++--
 quspin/basis/basis_1d/fermion.py      |  4 ++--
 quspin/basis/basis_1d/spin.py         |  2 +-
 quspin/basis/basis_general/boson.py   |  4 ++--
 quspin/basis/basis_general/fermion.py | 14 +++++---------
 quspin/basis/basis_general/spin.py    |  2 +-
 6 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 2ce3ac1..b6f67bc 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -96,7 +96,7 @@ class boson_basis_1d(basis_1d):
 			elif nb is not None:
 				if Nb is not None:
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
-				Nb = int(nb*L)
+				Nb = int(round(nb*L,9))
 			else:
 				raise ValueError("expecting value for 'Nb','nb' or 'sps'")
 		else:
@@ -104,7 +104,7 @@ class boson_basis_1d(basis_1d):
 				if nb is not None:
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
 			elif nb is not None:
-				Nb = int(nb*L)
+				Nb = int(round(nb*L,9))
 
 		self._sps = sps
 
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index da2930d..cc66500 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -77,7 +77,7 @@ class spinless_fermion_basis_1d(basis_1d):
 		elif Nf is None and nf is not None:
 			if nf < 0 or nf > 1:
 				raise ValueError("nf must be between 0 and 1")
-			Nf = int(nf*L)
+			Nf = int(round(nf*L,9))
 
 		if Nf is None:
 			Nf_list = None
@@ -240,7 +240,7 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 		if Nf is not None and nf is not None:
 			raise ValueError("cannot use 'nf' and 'Nf' simultaineously.")
 		if Nf is None and nf is not None:
-			Nf = [(int(nf[0]*L),int(nf[1]*L))]
+			Nf = [(int(round(nf[0]*L,9)),int(round(nf[1]*L,9)))]
 
 		self._sps = 2
 
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index 5514bf5..ad15719 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -107,7 +107,7 @@ class spin_basis_1d(basis_1d):
 			if m < -S or m > S:
 				raise ValueError("N must be between -S and S")
 
-			Nup = int((m+S)*L)
+			Nup = int(round((m+S)*L,9))
 
 		try:
 			Nup_iter = iter(Nup)
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index 602385c..d98aa2b 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -123,7 +123,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 				if Nb is not None:
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
 
-				Nb = int(nb*N)
+				Nb = int(round(nb*N,9))
 			else:
 				raise ValueError("expecting value for 'Nb','nb' or 'sps'")
 
@@ -137,7 +137,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
 
 			elif nb is not None:
-				Nb = int(nb*N)
+				Nb = int(round(nb*N,9))
 
 		self._sps = sps
 		self._allowed_ops=set(["I","z","n","+","-"])
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 412521d..ebba80d 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -1,6 +1,7 @@
 from ._basis_general_core import spinful_fermion_basis_core_wrap
 from ._basis_general_core import spinless_fermion_basis_core_wrap
 from ._basis_general_core import get_basis_type,basis_zeros
+from ._basis_general_core.general_basis_utils import basis_int_to_python_int
 from .base_general import basis_general,_check_symm_map
 from ..base import MAXPRINT
 import numpy as _np
@@ -97,7 +98,7 @@ class spinless_fermion_basis_general(basis_general):
 		if Nf is not None and nf is not None:
 			raise ValueError("cannot use 'nf' and 'Nf' simultaineously.")
 		if Nf is None and nf is not None:
-			Nf = int(nf*N)
+			Nf = int(round(nf*N,9))
 
 		basis_general.__init__(self,N,block_order=block_order,**blocks)
 		self._check_pcon = False
@@ -374,7 +375,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		if Nf is not None and nf is not None:
 			raise ValueError("cannot use 'nf' and 'Nf' simultaineously.")
 		if Nf is None and nf is not None:
-			Nf = (int(nf[0]*N),int(nf[1]*N))
+			Nf = (int(round(nf[0]*N,9)),int(round(nf[1]*N,9)))
 
 		if any((type(map) is not tuple) and (len(map)!=2) for map in blocks.values() if map is not None):
 			raise ValueError("blocks must contain tuple: (map,q).")
@@ -693,12 +694,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 
 		s = down_state + (up_state << (self.N//2) ) # self.N here counts 2N sites 
 
-		indx = _np.argwhere(self._basis == s)
-
-		if len(indx) != 0:
-			return _np.squeeze(indx)
-		else:
-			raise ValueError("state must be representive state in basis.")
+		return self._index(s)
 
 	def int_to_state(self,*args):
 		""" Not Implemented."""
@@ -746,7 +742,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 
 
 	def _get_state(self,b):
-		b = int(b)
+		b = basis_int_to_python_int(b)
 		bits_left = ((b>>(self.N-i-1))&1 for i in range(self.N//2))
 		state_left = "|"+(" ".join(("{:1d}").format(bit) for bit in bits_left))+">"
 		bits_right = ((b>>(self.N//2-i-1))&1 for i in range(self.N//2))
diff --git a/quspin/basis/basis_general/spin.py b/quspin/basis/basis_general/spin.py
index 0f57775..0eef22a 100644
--- a/quspin/basis/basis_general/spin.py
+++ b/quspin/basis/basis_general/spin.py
@@ -131,7 +131,7 @@ class spin_basis_general(hcb_basis_general,higher_spin_basis_general):
 			if m < -S or m > S:
 				raise ValueError("m must be between -S and S")
 
-			Nup = int((m+S)*N)
+			Nup = int(round((m+S)*N,9))
 
 		try:
 			Nup_iter = iter(Nup)
-- 
2.43.0


From 8c05618c755f8ee8bb9af9f8ab6e4e2a2d9069a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:38 +0000
Subject: [PATCH 018/188] fix: printing a general basis and
 spinful_fermion_basis_general.index failed for states wider than 64 bits

---
 quspin/basis/lattice.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 74b479b..2df30b6 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -582,17 +582,19 @@ class lattice_basis(basis):
 		return p_A, p_B, rdm_A, rdm_B
 
 	def _get__str__(self):
-		temp1 = "     {0:"+str(len(str(self.Ns)))+"d}.         "
-		temp2 = "           {0:"+str(len(str(self._basis[0])))+"d}  "
-		
 		if self._Ns > MAXPRINT:
 			half = MAXPRINT // 2
-			str_list = [(temp1.format(i))+self.int_to_state(b)+temp2.format(b) for i,b in zip(range(half),self._basis[:half])]
-			str_list.extend([(temp1.format(i))+self.int_to_state(b)+temp2.format(b) for i,b in zip(range(self._Ns-half,self._Ns,1),self._basis[-half:])])
+			inds = list(range(half)) + list(range(self._Ns-half,self._Ns,1))
 		else:
-			str_list = [(temp1.format(i))+self.int_to_state(b)+temp2.format(b) for i,b in enumerate(self._basis)]
+			inds = list(range(self._Ns))
 
-		return tuple(str_list)
+		states = [self._basis[i] for i in inds]
+		if self._basis.dtype.kind == "V": # states wider than 64 bits
+			from .basis_general._basis_general_core.general_basis_utils import basis_int_to_python_int
+			states = [basis_int_to_python_int(b) for b in states]
 
+		temp1 = "     {0:"+str(len(str(self.Ns)))+"d}.         "
+		temp2 = "           {0:"+str(len(str(states[0])))+"d}  "
 
+		return tuple((temp1.format(i))+self.int_to_state(b)+temp2.format(b) for i,b in zip(inds,states))
 
-- 
2.43.0


From 1f376ec38c64fcbce0537eb5e1623cf0b587f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:49 +0000
Subject: [PATCH 019/188] fix: get_proj of 1d bases refused dtype instances,
 and with it sparse states in project_from

---
 quspin/basis/basis_1d/base_1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index effef40..f541754 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -745,6 +745,8 @@ class basis_1d(lattice_basis):
 
 		"""
 
+		dtype = _np.dtype(dtype).type
+
 		norms = self._get_norms(dtype)
 
 		a = self._blocks_1d.get("a")
-- 
2.43.0


From 85e02fa67d64f58098e86ce6497e05446be5d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 020/188] fix: project_to(sparse=True) of general bases did not
 conjugate the projector

---
 quspin/basis/basis_general/base_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index 8f2e233..6ca57b3 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -571,7 +571,7 @@ class basis_general(lattice_basis):
 
 		if sparse:
 			# current work-around for sparse
-			return self.get_proj(v0.dtype,pcon=pcon).T.dot(_sp.csr_matrix(v0))
+			return self.get_proj(v0.dtype,pcon=pcon).conj().T.dot(_sp.csr_matrix(v0))
 		else:
 			v_out = _np.zeros(shape,dtype=v0.dtype,)
 			self._core.project_to_dense(self._basis,self._n,v0,v_out,basis_pcon=basis_pcon)
-- 
2.43.0


From 9460c9f2083acdd5734f0b62a2840828af839848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:29 +0000
Subject: [PATCH 021/188] fix: project_to(pcon=True) of general bases with two
 or more maps or complex momenta used the kernel and phases of project_from

---
 .../_basis_general_core/source/general_basis_get_vec.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
index 343559e..6ee7a37 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
@@ -295,11 +295,11 @@ bool project_to_rep_basis(general_basis_core<I,P> *B,
 	}
 	int per = B->pers[depth];
 	double q = (2.0*M_PI*B->qs[depth])/per;
-	std::complex<double> cc = std::exp(std::complex<double>(0,-q));
+	std::complex<double> cc = std::exp(std::complex<double>(0,q));
 
 	if(depth < nt-1){
 		for(int j=0;j<per && err;j++){
-			err = project_from_rep_basis(B,s,phase,nt,n_vec,basis,Ns,in,c,out,depth+1);
+			err = project_to_rep_basis(B,s,phase,nt,n_vec,basis,Ns,in,c,out,depth+1);
 			c *= cc;
 			s = B->map_state(s,depth,phase);
 		}
-- 
2.43.0


From 7c2b257cba6cf582c6c0a46100fab4b0218e63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 022/188] fix: Op_bra_ket of general bases with particle
 conservation used uninitialised symmetry phases

---
 .../_basis_general_core/source/general_basis_core.h        | 1 +
 .../_basis_general_core/source/general_basis_op.h          | 7 -------
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h
index 5226ead..eabc7f7 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h
@@ -150,6 +150,7 @@ I ref_state_core_unrolled(general_basis_core<I,P> *B, const I s,int g[],P &phase
 
 	for (int depth=0;depth<nt;depth++){
 		gg[depth] = 0;  // Initialize values
+		g[depth] = 0;
 		MAXVALSSUM += (B->pers[depth]-1);
 	}
 
diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index 71a530e..9e9083a 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1379,13 +1379,6 @@ int general_op_bra_ket_pcon(general_basis_core<I,P> *B,
                 }
                 else{ // diagonal matrix element
 
-                    for(int k=0;k<nt;k++){
-                        double q = (2.0*M_PI*B->qs[k]*g[k])/B->pers[k];
-                        m *= std::exp(std::complex<double>(0,-q));
-                    }
-
-                    m *= sign;
-
                     local_err = check_imag(m,&M[i]); // assigns value to M[i]
                     bra[i] = s;
                 }
-- 
2.43.0


From c6d2f2e51441778f425d11638b800a28399b4fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 023/188] fix: Op_shift_sector dropped the symmetry phase of
 off-diagonal elements that return to the same representative

---
 .../_basis_general_core/source/general_basis_op.h            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index 9e9083a..9818625 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1170,7 +1170,8 @@ int general_op_shift_sectors(general_basis_core<I1,P> *B_out,
             if(local_err == 0){
                 P sign = 1;
 
-                if(r != s){ // off-diagonal matrix element
+                const bool not_diag = (r != s);
+                if(not_diag){ // off-diagonal matrix element
                     for(int k=0;k<nt;k++){g[k]=0;}
                     r = B_out->ref_state(r,g,sign);
                 }
@@ -1179,7 +1180,7 @@ int general_op_shift_sectors(general_basis_core<I1,P> *B_out,
 
                 if(j>=0){ // ref_state is a representative
 
-                    if(r != s){
+                    if(not_diag){
                         double q = 0;
                         for(int k=0;k<nt;k++){
                             q += kk[k]*g[k];                              
-- 
2.43.0


From 6b72301f24a34401dcb00483232642ca0f83d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 024/188] fix: spinful_fermion_basis_general.Op_shift_sector
 raised TypeError

---
 quspin/basis/basis_general/fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index ebba80d..0a0fd2a 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -645,7 +645,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		else:
 			new_op_list = op_list
 
-		return spinless_fermion_basis_general.Op_shift_sector(other_basis,new_op_list,v_in,v_out=v_out,dtype=dtype)	
+		return spinless_fermion_basis_general.Op_shift_sector(self,other_basis,new_op_list,v_in,v_out=v_out,dtype=dtype)	
 
 	Op_shift_sector.__doc__ = spinless_fermion_basis_general.Op_shift_sector.__doc__
 
-- 
2.43.0


From 11a047e6bfd85a9a16aa33b680abae25375730c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 025/188] fix: spin_basis_general.Op_bra_ket ignored
 reduce_output for S>1/2

---
 quspin/basis/basis_general/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/spin.py b/quspin/basis/basis_general/spin.py
index 0eef22a..2771533 100644
--- a/quspin/basis/basis_general/spin.py
+++ b/quspin/basis/basis_general/spin.py
@@ -370,6 +370,6 @@ class spin_basis_general(hcb_basis_general,higher_spin_basis_general):
 				n = len(opstr.replace("I","").replace("+","").replace("-",""))
 				ME *= (1<<n)
 		else:
-			return higher_spin_basis_general.Op_bra_ket(self,opstr,indx,J,dtype,ket_states)
+			return higher_spin_basis_general.Op_bra_ket(self,opstr,indx,J,dtype,ket_states,reduce_output=reduce_output)
 
 		return ME,bra,ket
-- 
2.43.0


From 36fc962d3ec1a7279037ca818d69ce014bfe4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 026/188] fix: get_amp and Op_bra_ket took states with a norm
 of rounding errors for members of the basis

---
 .../_basis_general_core/source/general_basis_get_amp.h        | 4 ++--
 .../_basis_general_core/source/general_basis_op.h             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
index 2fedc52..4bfaefa 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
@@ -89,7 +89,7 @@ int get_amp_general(general_basis_core<I,P> *B,
 
 				s[i] = r; // update state with representative
 
-				if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+				if(!check_nan(norm_r) && (npy_intp)norm_r > 0){ // ref_state is a representative
 
 					phase_factor = get_amp_rep(B,nt,r,ss);
 					out_tmp = phase_factor/std::sqrt(norm_r * per_factor);
@@ -126,7 +126,7 @@ int get_amp_general(general_basis_core<I,P> *B,
 
 				s[i] = r; // update state with representative
 
-				if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+				if(!check_nan(norm_r) && (npy_intp)norm_r > 0){ // ref_state is a representative
 
 					//phase_factor = get_amp_rep(B,nt,r,ss);
 					out_tmp = std::sqrt(norm_r/per_factor);
diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index 9818625..bae02a5 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1351,7 +1351,7 @@ int general_op_bra_ket_pcon(general_basis_core<I,P> *B,
                         // use check_state to determine if state is a representative (same routine as in make-general_basis)
                         double norm_r = B->check_state(r);
 
-                        if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+                        if(!check_nan(norm_r) && (npy_intp)norm_r > 0){ // ref_state is a representative
 
                             for(int k=0;k<nt;k++){
                                 double q = (2.0*M_PI*B->qs[k]*g[k])/B->pers[k];
-- 
2.43.0


From 6a5db9d1055ed603c5c4d1d4e36f127e72d1beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 027/188] fix: bit counts of general bases with exactly 32 (64)
 sites shifted by a negative amount

---
 .../basis/basis_general/_basis_general_core/source/bits_info.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
index 6c85af4..93b38fd 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
@@ -118,7 +118,7 @@ typename bit_info<T>::bit_index_type bit_pos(T x, typename bit_info<T>::bit_inde
 
 template<class T>
 int inline bit_count(T v,int l){
-  v = v & (((~(T)0) >> 1) >> (bit_info<T>::bits - 1 - l));
+  if(l < (int)bit_info<T>::bits){ v = v & (((~(T)0) >> 1) >> (bit_info<T>::bits - 1 - l)); }
   v = v - ((v >> 1) & (T)~(T)0/3);                           // temp
   v = (v & (T)~(T)0/15*3) + ((v >> 2) & (T)~(T)0/15*3);      // temp
   v = (v + (v >> 4)) & (T)~(T)0/255*15;                      // temp
-- 
2.43.0


From d91fa3ffa092c406c2e92ebccdbec6ede1fcad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 028/188] fix: matrix elements of 1d bases with more than 64
 sites had object row and column indices

---
 quspin/basis/basis_1d/base_1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index f541754..a83dbb8 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -597,6 +597,10 @@ class basis_1d(lattice_basis):
 		row = row[mask]
 		ME = ME[mask]
 
+		if self._basis_type == _np.object: # row and col are indices even if the states need python integers
+			col = col.astype(_np.int64)
+			row = row.astype(_np.int64)
+
 		return ME,row,col		
 
 	def get_vec(self,v0,sparse=True,pcon=False):
-- 
2.43.0


From ee68b13d68a0510c23a290b0b8f684b08ea0add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:52 +0000
Subject: [PATCH 029/188] fix: operator strings like '+-+' on one site were
 taken for zero by check_pcon and expanded_form

---
 quspin/basis/base.py                  | 12 ++++++++++++
 quspin/basis/basis_1d/boson.py        | 12 ++----------
 quspin/basis/basis_1d/fermion.py      | 13 ++-----------
 quspin/basis/basis_1d/spin.py         | 12 ++----------
 quspin/basis/basis_general/boson.py   | 12 ++----------
 quspin/basis/basis_general/fermion.py | 13 ++-----------
 quspin/basis/basis_general/spin.py    | 12 ++----------
 7 files changed, 24 insertions(+), 62 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index 42daeae..2c3c65c 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -32,6 +32,18 @@ MAXPRINT = 50
 
 __all__=["basis","isbasis"]
 
+def _nonzero_opstr(opstr,indx,sps):
+	# the operators act from right to left: '+' and '-' move the sps levels of their site, levels pushed out of range are lost.
+	levels = {}
+	for op,i in zip(opstr[::-1],indx[::-1]):
+		shift = {"+":1,"-":-1}.get(op,0)
+		new_levels = set(n+shift for n in levels.get(i,range(sps)) if 0 <= n+shift < sps)
+		if not new_levels:
+			return False
+		levels[i] = new_levels
+	return True
+
+
 class basis(object):
 
 
diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index b6f67bc..fe84779 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -1,6 +1,7 @@
 from ._basis_1d_core import hcp_basis,hcp_ops
 from ._basis_1d_core import boson_basis,boson_ops
 from .base_1d import basis_1d
+from ..base import _nonzero_opstr
 import numpy as _np
 
 
@@ -261,16 +262,7 @@ class boson_basis_1d(basis_1d):
 
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _nonzero_opstr(op[0],op[1],self.sps)
 		
 
 
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index cc66500..acf3205 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -1,7 +1,7 @@
 from ._basis_1d_core import hcp_basis,hcp_ops,spf_basis,spf_ops
 from . import _check_1d_symm_spf as _check
 from .base_1d import basis_1d
-from ..base import MAXPRINT
+from ..base import MAXPRINT,_nonzero_opstr
 import numpy as _np
 
 
@@ -781,16 +781,7 @@ def _sort_opstr_spinful(op):
 
 
 def _non_zero_spinless(op):
-	opstr = _np.array(list(op[0]))
-	indx = _np.array(op[1])
-	if _np.any(indx):
-		indx_p = indx[opstr == "+"].tolist()
-		p = not any(indx_p.count(x) > 1 for x in indx_p)
-		indx_p = indx[opstr == "-"].tolist()
-		m = not any(indx_p.count(x) > 1 for x in indx_p)
-		return (p and m)
-	else:
-		return True
+	return _nonzero_opstr(op[0],op[1],2)
 
 def _non_zero_spinful(op):
 		op = list(op)
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index ad15719..d14c17a 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -1,6 +1,7 @@
 from ._basis_1d_core import hcp_basis,hcp_ops
 from ._basis_1d_core import boson_basis,boson_ops
 from .base_1d import basis_1d
+from ..base import _nonzero_opstr
 import numpy as _np
 
 try:
@@ -275,16 +276,7 @@ class spin_basis_1d(basis_1d):
 		return tuple(op)
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx>=0):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _nonzero_opstr(op[0],op[1],self.sps)
 		
 	def _hc_opstr(self,op):
 		op = list(op)
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index d98aa2b..664b793 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -1,6 +1,7 @@
 from ._basis_general_core import boson_basis_core_wrap,get_basis_type,basis_zeros
 from .base_hcb import hcb_basis_general
 from .base_general import basis_general
+from ..base import _nonzero_opstr
 import numpy as _np
 from scipy.special import comb
 
@@ -261,16 +262,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _nonzero_opstr(op[0],op[1],self.sps)
 		
 
 
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 0a0fd2a..1cdfaa0 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -3,7 +3,7 @@ from ._basis_general_core import spinless_fermion_basis_core_wrap
 from ._basis_general_core import get_basis_type,basis_zeros
 from ._basis_general_core.general_basis_utils import basis_int_to_python_int
 from .base_general import basis_general,_check_symm_map
-from ..base import MAXPRINT
+from ..base import MAXPRINT,_nonzero_opstr
 import numpy as _np
 from scipy.special import comb
 
@@ -216,16 +216,7 @@ class spinless_fermion_basis_general(basis_general):
 
 	
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > 1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > 1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _nonzero_opstr(op[0],op[1],2)
 		
 
 
diff --git a/quspin/basis/basis_general/spin.py b/quspin/basis/basis_general/spin.py
index 2771533..ed72ce9 100644
--- a/quspin/basis/basis_general/spin.py
+++ b/quspin/basis/basis_general/spin.py
@@ -1,5 +1,6 @@
 from .base_hcb import hcb_basis_general
 from .base_higher_spin import higher_spin_basis_general
+from ..base import _nonzero_opstr
 import numpy as _np
 
 try:
@@ -265,16 +266,7 @@ class spin_basis_general(hcb_basis_general,higher_spin_basis_general):
 		return tuple(op)
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _nonzero_opstr(op[0],op[1],self.sps)
 		
 	def _hc_opstr(self,op):
 		op = list(op)
-- 
2.43.0


From 248d7237958774ce3da6605fb14db99fef5a064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:52 +0000
Subject: [PATCH 030/188] fix: expanded_form and check_pcon merged dynamic
 terms with different drives, and expanded_form refused lists of arguments

---
 quspin/basis/base.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index 2c3c65c..de2cc2c 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -44,6 +44,14 @@ def _nonzero_opstr(opstr,indx,sps):
 	return True
 
 
+def _same_drive(drive1,drive2):
+	(f1,args1),(f2,args2) = drive1,drive2
+	if f1 is not f2 and f1 != f2:
+		return False
+	args1,args2 = tuple(args1),tuple(args2)
+	return len(args1) == len(args2) and all(x is y or _np.array_equal(x,y) for x,y in zip(args1,args2))
+
+
 class basis(object):
 
 
@@ -445,16 +453,16 @@ class basis(object):
 
 		static = [[str(key),list(value)] for key,value in static_dict.items()]
 
-		dynamic_dict={}
+		dynamic = []
 		for opstr,indx,J,f,f_args,ii in dynamic_list:
 			indx = list(indx)
 			indx.insert(0,J)
-			if (opstr,f,f_args) in dynamic_dict:
-				dynamic_dict[(opstr,f,f_args)].append(indx)
+			for other in dynamic:
+				if other[0] == opstr and _same_drive(other[2:],(f,f_args)):
+					other[1].append(indx)
+					break
 			else:
-				dynamic_dict[(opstr,f,f_args)] = [indx]
-
-		dynamic = [[opstr,indx,f,f_args] for (opstr,f,f_args),indx in dynamic_dict.items()]
+				dynamic.append([opstr,[indx],f,f_args])
 
 		return static,dynamic
 
@@ -838,19 +846,19 @@ class basis(object):
 
 		dynamic_dict={}
 		for opstr,indx,J,f,f_args,ii in dynamic_list:
-			if opstr in dynamic_dict:
-				if indx in dynamic_dict[opstr]:
-					dynamic_dict[opstr][indx][0] += J
-					dynamic_dict[opstr][indx][3].extend(ii)
-				else:
-					dynamic_dict[opstr][indx] = [J,f,f_args,ii]
+			terms = dynamic_dict.setdefault((opstr,indx),[])
+			for term in terms:
+				if _same_drive(term[1:3],(f,f_args)):
+					term[0] += J
+					term[3].extend(ii)
+					break
 			else:
-				dynamic_dict[opstr] = {indx:[J,f,f_args,ii]}
+				terms.append([J,f,f_args,ii])
 
 
 		dynamic_list = []
-		for opstr,opstr_dict in dynamic_dict.items():
-			for indx,(J,f,f_args,ii) in opstr_dict.items():
+		for (opstr,indx),terms in dynamic_dict.items():
+			for J,f,f_args,ii in terms:
 				if _np.abs(J) > eps:
 					dynamic_list.append((opstr,indx,J,f,f_args,ii))
 
-- 
2.43.0


From 100e387db393b2e518c14a436d23ac004abb5966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:29 +0000
Subject: [PATCH 031/188] fix: hermiticity and symmetry checks accepted lists
 whose repeated terms have too few images

---
 quspin/basis/base.py                        | 22 ++++++++++-
 quspin/basis/basis_1d/_check_1d_symm.py     | 42 ++++++++++-----------
 quspin/basis/basis_1d/_check_1d_symm_spf.py | 28 +++++++-------
 quspin/basis/basis_general/base_general.py  |  8 ++--
 4 files changed, 58 insertions(+), 42 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index de2cc2c..33fca99 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -1,5 +1,6 @@
 from __future__ import print_function
 import numpy as _np
+from collections import Counter
 import scipy.sparse as _sp
 import warnings,numba
 
@@ -52,6 +53,23 @@ def _same_drive(drive1,drive2):
 	return len(args1) == len(args2) and all(x is y or _np.array_equal(x,y) for x,y in zip(args1,args2))
 
 
+def _missing_images(images,operator_list):
+	# every image must be in the list, and as many times as it is an image.
+	left = {}
+	for op in operator_list:
+		left.setdefault((op[0],tuple(op[1]),op[2]),[]).append(op)
+
+	missing_ops = []
+	for op in images:
+		ops = left.get((op[0],tuple(op[1]),op[2]),[])
+		if op in ops:
+			ops.remove(op)
+		else:
+			missing_ops.append(op)
+
+	return missing_ops
+
+
 class basis(object):
 
 
@@ -487,7 +505,7 @@ class basis(object):
 		static_list,dynamic_list = self._get_local_lists(static,dynamic)
 		static_expand,static_expand_hc,dynamic_expand,dynamic_expand_hc = self._get_hc_local_lists(static_list,dynamic_list)
 		# calculate non-hermitian elements
-		diff = set( tuple(static_expand) ) - set( tuple(static_expand_hc) )
+		diff = Counter(static_expand) - Counter(static_expand_hc)
 
 		if diff:
 			unique_opstrs = list(set( next(iter(zip(*tuple(diff))))) )
@@ -509,7 +527,7 @@ class basis(object):
 
 
 		# calculate non-hermitian elements
-		diff = set( tuple(dynamic_expand) ) - set( tuple(dynamic_expand_hc) )
+		diff = Counter(dynamic_expand) - Counter(dynamic_expand_hc)
 		if diff:
 			unique_opstrs = list(set( next(iter(zip(*tuple(diff))))) )
 			warnings.warn("The following dynamic operator strings contain non-hermitian couplings: {}".format(unique_opstrs),UserWarning,stacklevel=3)
diff --git a/quspin/basis/basis_1d/_check_1d_symm.py b/quspin/basis/basis_1d/_check_1d_symm.py
index ec025ea..bb2ba91 100644
--- a/quspin/basis/basis_1d/_check_1d_symm.py
+++ b/quspin/basis/basis_1d/_check_1d_symm.py
@@ -1,6 +1,7 @@
 from __future__ import print_function, division
 
 import warnings
+from ..base import _missing_images
 
 
 
@@ -27,6 +28,7 @@ def flip_sublat(opstr,indx,lat=0):
 def check_T(sort_opstr,operator_list,L,a):
 	missing_ops=[]
 	for i in range(0,L//a,1):
+		images=[]
 		for op in operator_list:
 			opstr = str(op[0])
 			indx = list(op[1])
@@ -38,8 +40,9 @@ def check_T(sort_opstr,operator_list,L,a):
 
 			new_op = sort_opstr(new_op)
 			
-			if not (new_op in operator_list):
-				missing_ops.append(new_op)
+			images.append(new_op)
+
+		missing_ops.extend(_missing_images(images,operator_list))
 
 	return missing_ops
 
@@ -47,7 +50,7 @@ def check_T(sort_opstr,operator_list,L,a):
 
 
 def check_Z(sort_opstr,operator_list):
-	missing_ops=[]
+	images=[]
 	odd_ops=[]
 	for op in operator_list:
 		opstr = str(op[0])
@@ -66,15 +69,14 @@ def check_Z(sort_opstr,operator_list):
 		new_op = list(op)
 		new_op[0] = new_op[0][:i].replace("+","#").replace("-","+").replace("#","-") + op[0][i:]
 		new_op = sort_opstr(new_op)
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+		images.append(new_op)
 
-	return odd_ops,missing_ops
+	return odd_ops,_missing_images(images,operator_list)
 
 
 
 def check_P(sort_opstr,operator_list,L):
-	missing_ops = []
+	images=[]
 	for op in operator_list:
 		indx = list(op[1])
 		for j,ind in enumerate(indx):
@@ -83,16 +85,15 @@ def check_P(sort_opstr,operator_list,L):
 		new_op = list(op)
 		new_op[1] = indx
 		new_op = sort_opstr(new_op)
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+		images.append(new_op)
 
-	return missing_ops
+	return _missing_images(images,operator_list)
 
 
 
 
 def check_PZ(sort_opstr,operator_list,L):
-	missing_ops = []
+	images=[]
 	for op in operator_list:
 		opstr = str(op[0])
 		indx = list(op[1])
@@ -112,10 +113,9 @@ def check_PZ(sort_opstr,operator_list,L):
 		new_op[1] = indx
 		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+		images.append(new_op)
 
-	return missing_ops
+	return _missing_images(images,operator_list)
 
 
 
@@ -123,7 +123,7 @@ def check_PZ(sort_opstr,operator_list,L):
 
 
 def check_ZA(sort_opstr,operator_list):
-	missing_ops=[]
+	images=[]
 	odd_ops=[]
 
 	for op in operator_list:
@@ -146,15 +146,14 @@ def check_ZA(sort_opstr,operator_list):
 		new_op = sort_opstr(new_op)
 		
 
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+		images.append(new_op)
 
-	return odd_ops,missing_ops
+	return odd_ops,_missing_images(images,operator_list)
 
 
 
 def check_ZB(sort_opstr,operator_list):
-	missing_ops=[]
+	images=[]
 	odd_ops=[]
 
 	for op in operator_list:
@@ -176,10 +175,9 @@ def check_ZB(sort_opstr,operator_list):
 		new_op[0] = new_opstr + opstr[i:]
 		new_op = sort_opstr(new_op)
 
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+		images.append(new_op)
 
-	return odd_ops,missing_ops
+	return odd_ops,_missing_images(images,operator_list)
 
 
 
diff --git a/quspin/basis/basis_1d/_check_1d_symm_spf.py b/quspin/basis/basis_1d/_check_1d_symm_spf.py
index 3e3a63e..bc6323e 100644
--- a/quspin/basis/basis_1d/_check_1d_symm_spf.py
+++ b/quspin/basis/basis_1d/_check_1d_symm_spf.py
@@ -1,6 +1,7 @@
 from __future__ import print_function, division
 
 import warnings
+from ..base import _missing_images
 
 
 
@@ -13,6 +14,7 @@ import warnings
 def check_T(sort_opstr,operator_list,L,a):
 	missing_ops=[]
 	for i in range(0,L//a,1):
+		images=[]
 		for op in operator_list:
 			opstr = str(op[0])
 			indx = list(op[1])
@@ -24,8 +26,9 @@ def check_T(sort_opstr,operator_list,L,a):
 
 			new_op = sort_opstr(new_op)
 			
-			if not (new_op in operator_list):
-				missing_ops.append(new_op)
+			images.append(new_op)
+
+		missing_ops.extend(_missing_images(images,operator_list))
 
 	return missing_ops
 
@@ -33,7 +36,7 @@ def check_T(sort_opstr,operator_list,L,a):
 
 
 def check_Z(sort_opstr,operator_list,photon):
-	missing_ops=[]
+	images=[]
 
 	for op in operator_list:
 		opstr = str(op[0])
@@ -55,15 +58,14 @@ def check_Z(sort_opstr,operator_list,photon):
 		new_op[0] = new_opstr
 		new_op[2] *= (-1)**(N_right*N_left)
 		new_op = sort_opstr(new_op)
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+		images.append(new_op)
 
-	return missing_ops
+	return _missing_images(images,operator_list)
 
 
 
 def check_P(sort_opstr,operator_list,L):
-	missing_ops = []
+	images=[]
 	for op in operator_list:
 		indx = list(op[1])
 		for j,ind in enumerate(indx):
@@ -72,16 +74,15 @@ def check_P(sort_opstr,operator_list,L):
 		new_op = list(op)
 		new_op[1] = indx
 		new_op = sort_opstr(new_op)
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+		images.append(new_op)
 
-	return missing_ops
+	return _missing_images(images,operator_list)
 
 
 
 
 def check_PZ(sort_opstr,operator_list,L,photon):
-	missing_ops = []
+	images=[]
 	for op in operator_list:
 		opstr = str(op[0])
 		indx = list(op[1])
@@ -102,10 +103,9 @@ def check_PZ(sort_opstr,operator_list,L,photon):
 		new_op[1] = indx
 		new_op[2] *= (-1)**(N_right*N_left)
 		new_op = sort_opstr(new_op)
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+		images.append(new_op)
 
-	return missing_ops
+	return _missing_images(images,operator_list)
 
 
 
diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index 6ca57b3..c5be12b 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -4,6 +4,7 @@ import os,numexpr
 from ._basis_general_core.general_basis_utils import basis_int_to_python_int,_get_basis_index
 from ._basis_general_core import basis_zeros
 from ..lattice import lattice_basis
+from ..base import _missing_images
 import warnings
 
 
@@ -1158,7 +1159,7 @@ class basis_general(lattice_basis):
 
 
 def _check_symm_map(map,sort_opstr,operator_list):
-	missing_ops=[]
+	images=[]
 	odd_ops=[]
 	for op in operator_list:
 		opstr = str(op[0])
@@ -1182,10 +1183,9 @@ def _check_symm_map(map,sort_opstr,operator_list):
 		new_op[2] = J
 
 		new_op = sort_opstr(new_op)
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+		images.append(new_op)
 
-	return odd_ops,missing_ops
+	return odd_ops,_missing_images(images,operator_list)
 
 
 
-- 
2.43.0


From cf14cd0f9b0db88d4c88091d4069c81682a716ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 032/188] fix: 1d inversion checks accepted 'n', which is not
 invariant, and refused sums of odd strings that are

---
 quspin/basis/basis_1d/_check_1d_symm.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_1d/_check_1d_symm.py b/quspin/basis/basis_1d/_check_1d_symm.py
index bb2ba91..85bdfeb 100644
--- a/quspin/basis/basis_1d/_check_1d_symm.py
+++ b/quspin/basis/basis_1d/_check_1d_symm.py
@@ -61,13 +61,14 @@ def check_Z(sort_opstr,operator_list):
 		else:
 			i = len(opstr)
 
-		z_count = opstr[:i].count("z")
-		y_count = opstr[:i].count("y")
-		if ((y_count + z_count) % 2) != 0:
+		if "n" in opstr[:i]: # n -> 1-n
 			odd_ops.append(op)
 
+		sign = (-1)**(opstr[:i].count("z")+opstr[:i].count("y"))
+
 		new_op = list(op)
 		new_op[0] = new_op[0][:i].replace("+","#").replace("-","+").replace("#","-") + op[0][i:]
+		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
 		images.append(new_op)
 
@@ -94,6 +95,7 @@ def check_P(sort_opstr,operator_list,L):
 
 def check_PZ(sort_opstr,operator_list,L):
 	images=[]
+	odd_ops=[]
 	for op in operator_list:
 		opstr = str(op[0])
 		indx = list(op[1])
@@ -103,6 +105,9 @@ def check_PZ(sort_opstr,operator_list,L):
 		else:
 			i = len(opstr)
 
+		if "n" in opstr[:i]: # n -> 1-n
+			odd_ops.append(op)
+
 		for j,ind in enumerate(indx):
 			indx[j] = (L-1-ind) % L
 		
@@ -115,7 +120,7 @@ def check_PZ(sort_opstr,operator_list,L):
 		new_op = sort_opstr(new_op)
 		images.append(new_op)
 
-	return _missing_images(images,operator_list)
+	return odd_ops + _missing_images(images,operator_list)
 
 
 
@@ -138,11 +143,12 @@ def check_ZA(sort_opstr,operator_list):
 
 		sign,new_opstr = flip_sublat(opstr[:i],indx[:i],lat=0)
 
-		if sign == -1:
+		if any(o == "n" and j % 2 == 0 for o,j in zip(opstr[:i],indx[:i])): # n -> 1-n
 			odd_ops.append(op)
 
 		new_op = list(op)
 		new_op[0] = new_opstr + opstr[i:]
+		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
 		
 
@@ -168,11 +174,12 @@ def check_ZB(sort_opstr,operator_list):
 
 		sign,new_opstr = flip_sublat(opstr[:i],indx[:i],lat=1)
 
-		if sign == -1:
+		if any(o == "n" and j % 2 == 1 for o,j in zip(opstr[:i],indx[:i])): # n -> 1-n
 			odd_ops.append(op)
 
 		new_op = list(op)
 		new_op[0] = new_opstr + opstr[i:]
+		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
 
 		images.append(new_op)
-- 
2.43.0


From 28a579f96557a8cb8134b455d588364fed28fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 033/188] fix: spin-exchange checks of spinful_fermion_basis_1d
 did not exchange the sites

---
 quspin/basis/basis_1d/_check_1d_symm_spf.py | 25 +++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/quspin/basis/basis_1d/_check_1d_symm_spf.py b/quspin/basis/basis_1d/_check_1d_symm_spf.py
index bc6323e..44903ee 100644
--- a/quspin/basis/basis_1d/_check_1d_symm_spf.py
+++ b/quspin/basis/basis_1d/_check_1d_symm_spf.py
@@ -44,18 +44,20 @@ def check_Z(sort_opstr,operator_list,photon):
 
 		if photon:
 			opstr_left,opstr_right,opstr_phtn = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
+			N_left = len(opstr_left.replace("n","").replace("z","").replace("I",""))
+			N_right = len(opstr_right.replace("n","").replace("z","").replace("I",""))
 			new_opstr = "|".join((opstr_right,opstr_left,opstr_phtn))
 		else:
 			opstr_left,opstr_right = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
+			N_left = len(opstr_left.replace("n","").replace("z","").replace("I",""))
+			N_right = len(opstr_right.replace("n","").replace("z","").replace("I",""))
 			new_opstr = "|".join((opstr_right,opstr_left))
 
-
+		n_left,n_right = len(opstr_left),len(opstr_right)
+		indx = indx[n_left:n_left+n_right] + indx[:n_left] + indx[n_left+n_right:]
 		new_op = list(op)
 		new_op[0] = new_opstr
+		new_op[1] = indx
 		new_op[2] *= (-1)**(N_right*N_left)
 		new_op = sort_opstr(new_op)
 		images.append(new_op)
@@ -89,15 +91,20 @@ def check_PZ(sort_opstr,operator_list,L,photon):
 
 		if photon:
 			opstr_left,opstr_right,opstr_phtn = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
+			N_left = len(opstr_left.replace("n","").replace("z","").replace("I",""))
+			N_right = len(opstr_right.replace("n","").replace("z","").replace("I",""))
 			new_opstr = "|".join((opstr_right,opstr_left,opstr_phtn))
 		else:
 			opstr_left,opstr_right = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
+			N_left = len(opstr_left.replace("n","").replace("z","").replace("I",""))
+			N_right = len(opstr_right.replace("n","").replace("z","").replace("I",""))
 			new_opstr = "|".join((opstr_right,opstr_left))
 
+		n_left,n_right = len(opstr_left),len(opstr_right)
+		indx = indx[n_left:n_left+n_right] + indx[:n_left] + indx[n_left+n_right:]
+		for j in range(n_left+n_right): # the photon operators have no site
+			indx[j] = (L-1-indx[j]) % L
+
 		new_op = list(op)
 		new_op[0] = new_opstr
 		new_op[1] = indx
-- 
2.43.0


From 13b6d3402da88ad536433cca899cc0a0d6a6b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 034/188] fix: symmetry checks of general bases inverted every
 '+' and '-' of a string once per inverted site, and took truncated bosons for
 invariant

---
 quspin/basis/basis_general/base_general.py | 37 ++++++++++++----------
 quspin/basis/basis_general/boson.py        |  4 +++
 quspin/basis/basis_general/fermion.py      |  8 +++--
 3 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index c5be12b..0c837aa 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -683,6 +683,10 @@ class basis_general(lattice_basis):
 				return v_out	
 
 
+	@property
+	def _inversion(self): # how inversion acts on operators, see _check_symm_map.
+		return {}
+
 	def _check_symm(self,static,dynamic,photon_basis=None):
 		if photon_basis is None:
 			basis_sort_opstr = self._sort_opstr
@@ -696,11 +700,11 @@ class basis_general(lattice_basis):
 		dynamic_blocks = {}
 		for block,map in self._maps_dict.items():
 			key = block+" symm"
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list)
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list,**self._inversion)
 			if odd_ops or missing_ops:
 				static_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list)
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list,**self._inversion)
 			if odd_ops or missing_ops:
 				dynamic_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
@@ -1158,27 +1162,35 @@ class basis_general(lattice_basis):
 
 
 
-def _check_symm_map(map,sort_opstr,operator_list):
+def _check_symm_map(map,sort_opstr,operator_list,fermion=False,exchange=True):
+	# fermion: for particle-hole transformations every site with a negative image exchanges all '+' and '-' of the string.
+	# exchange: inversion exchanges '+' and '-' (not so for the truncated ladder operators of bosons with sps>2).
 	images=[]
 	odd_ops=[]
 	for op in operator_list:
-		opstr = str(op[0])
+		opstr = list(op[0])
 		indx  = list(op[1])
 		J     = op[2]
-		for j,ind in enumerate(op[1]):
+		# operators to the right of '|' act on photons which the maps leave alone.
+		n_map = opstr.index("|") if "|" in opstr else len(opstr)
+		for j,ind in enumerate(op[1][:n_map]):
 			i = map[ind]
 			if i < 0:
-				if opstr[j] == "n":
+				if opstr[j] == "n" or (opstr[j] in ["+","-"] and not exchange):
 					odd_ops.append(op)
 
-				J *= (-1 if opstr[j] in ["z","y"] else 1)
-				opstr = opstr.replace("+","#").replace("-","+").replace("#","-")
+				if opstr[j] in ["z","y"]:
+					J *= -1
+
+				for k in (range(len(opstr)) if fermion else [j]):
+					opstr[k] = {"+":"-","-":"+"}.get(opstr[k],opstr[k])
+
 				i = -(i+1)
 
 			indx[j] = i
 
 		new_op = list(op)
-		new_op[0] = opstr
+		new_op[0] = "".join(opstr)
 		new_op[1] = indx
 		new_op[2] = J
 
@@ -1186,10 +1198,3 @@ def _check_symm_map(map,sort_opstr,operator_list):
 		images.append(new_op)
 
 	return odd_ops,_missing_images(images,operator_list)
-
-
-
-
-
-
-
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index 664b793..aa600d5 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -244,6 +244,10 @@ class boson_basis_general(hcb_basis_general,basis_general):
 
 
 			
+	@property
+	def _inversion(self):
+		return dict(exchange=(self._sps==2))
+
 	def _sort_opstr(self,op):
 		if op[0].count("|") > 0:
 			raise ValueError("'|' character found in op: {0},{1}".format(op[0],op[1]))
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 1cdfaa0..a5940ce 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -184,6 +184,10 @@ class spinless_fermion_basis_general(basis_general):
 	def _fermion_basis(self):
 		return True 
 
+	@property
+	def _inversion(self):
+		return dict(fermion=True)
+
 	def _sort_opstr(self,op):
 		if op[0].count("|") > 0:
 			raise ValueError("'|' character found in op: {0},{1}".format(op[0],op[1]))
@@ -950,11 +954,11 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		dynamic_blocks = {}
 		for block,map in self._maps_dict.items():
 			key = block+" symm"
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list)
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list,**self._inversion)
 			if odd_ops or missing_ops:
 				static_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list)
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list,**self._inversion)
 			if odd_ops or missing_ops:
 				dynamic_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
-- 
2.43.0


From 9ab5d4f5d377649441fbc6faa662cf4fea796c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 035/188] fix: matrix elements in empty 1d bases were lists
 instead of arrays

---
 quspin/basis/basis_1d/base_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index a83dbb8..6fa6ce3 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -578,7 +578,7 @@ class basis_1d(lattice_basis):
 
 
 		if self._Ns <= 0:
-			return [],[],[]
+			return _np.array([],dtype=dtype),_np.array([],dtype=self._basis_type),_np.array([],dtype=self._basis_type)
 
 		if self._unique_me:
 			N_op = self.Ns
-- 
2.43.0


From d871251399062a97d4516a58fdd73e372de12f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:42 +0000
Subject: [PATCH 036/188] fix: driving functions whose arguments have equal
 hashes (-1 and -2) were merged, and conjugates and hashes of products and
 powers of functions failed

---
 quspin/operators/_functions.py | 35 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/quspin/operators/_functions.py b/quspin/operators/_functions.py
index f3cb435..3f36f98 100644
--- a/quspin/operators/_functions.py
+++ b/quspin/operators/_functions.py
@@ -1,5 +1,5 @@
 
-
+from collections import Counter
 
 
 class function(object):
@@ -21,7 +21,7 @@ class function(object):
 
 	def __eq__(self,other):
 		if isinstance(other,function):
-			return hash(self)==hash(other)
+			return self._key()==other._key()
 		else:
 			return False
 
@@ -31,12 +31,14 @@ class function(object):
 	def __contains__(self,other):
 		return self == other
 
-	def _hash_list(self):
-		return [hash((self._f,self._args))]
+	def _factors(self): # list of keys of the (commuting) factors of this function.
+		return [(self._f,self._args)]
+
+	def _key(self): # equal for equal functions only, unlike hash values: hash(-1)==hash(-2).
+		return frozenset(Counter(self._factors()).items())
 
 	def __hash__(self):
-		hash_list = tuple(self._hash_list())
-		return hash(hash_list)
+		return hash(self._key())
 
 	def __call__(self,*args):
 		return self._f(*(args+self._args))
@@ -63,11 +65,11 @@ class comm_binary_function(function):
 		self._function1 = function1
 		self._function2 = function2
 
-	def _hash_list(self):
-		hash_list = self._function1._hash_list()
-		hash_list.extend(self._function2._hash_list())
-		hash_list.sort()
-		return hash_list
+	def _factors(self):
+		return self._function1._factors() + self._function2._factors()
+
+	def conjugate(self):
+		return self.__class__(self._function1.conjugate(),self._function2.conjugate())
 
 	def __contains__(self,other):
 		return (self._function1.__contains__(other)) or (self._function2.__contains__(other))
@@ -111,8 +113,8 @@ class conjugate_function(function):
 	def __str__(self):
 		return "conj({0})".format(self._function1.__str__())
 
-	def _hash_list(self):
-		return [hash((1j,self._function1._f,self._function1._args))]
+	def _factors(self):
+		return [("conj",self._function1._key())]
 
 	def __contains__(self,other):
 		return self._function1.__contains__(other)
@@ -132,8 +134,11 @@ class pow_function(function):
 	def __str__(self):
 		return "{0}^{1}".format(self._function1.__str__(),self._p)
 
-	def _hash_list(self):
-		return [hash((self._function1._f,self._function1._args,self._p))]
+	def _factors(self):
+		return self._p*self._function1._factors()
+
+	def conjugate(self):
+		return pow_function(self._function1.conjugate(),self._p)
 
 	def __mul__(self,other):
 		if self._function1 == other:
-- 
2.43.0


From 4aa8767b00e30cd77e13f6545cf194e9a4888c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:02 +0000
Subject: [PATCH 037/188] fix: update_matrix_formats failed for every dynamic
 format given as a string

---
 quspin/operators/hamiltonian_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 3658387..8463a70 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1735,9 +1735,10 @@ class hamiltonian(object):
 
 
 				if dynamic_fmt == "dense":
-					updates = {func:sparse_constuctor(Hd) for func,Hd in iteritems(self._dynamic) if _sp.issparse(Hd)}
+					updates = {func:Hd.toarray() for func,Hd in iteritems(self._dynamic) if _sp.issparse(Hd)}
 					updates.update({func:_np.ascontiguousarray(Hd) for func,Hd in iteritems(self._dynamic) if not _sp.issparse(Hd)})
 				else:
+					sparse_constuctor = getattr(_sp,dynamic_fmt+"_matrix")
 					updates = {func:sparse_constuctor(Hd) for func,Hd in iteritems(self._dynamic)}
 
 				
@@ -1753,7 +1754,7 @@ class hamiltonian(object):
 
 					try:
 						if fmt == "dense":
-							if _sp.issparse(self._static):
+							if _sp.issparse(self._dynamic[func]):
 								self._dynamic[func] = self._dynamic[func].toarray()
 							else:
 								self._dynamic[func] = _np.ascontiguousarray(self._dynamic[func])
-- 
2.43.0


From 78876756dc4988124b3fef3daec9aaf29c34bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:28 +0000
Subject: [PATCH 038/188] fix: todense and toarray of time-dependent
 hamiltonians ignored 'out', and toarray returned a matrix

---
 quspin/operators/hamiltonian_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 8463a70..bcfbe7c 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1639,7 +1639,8 @@ class hamiltonian(object):
 			out[:] = self._static[:]
 
 		for func,Hd in iteritems(self._dynamic):
-			out += Hd * func(time)
+			Hd = Hd * func(time)
+			out += (Hd.toarray() if _sp.issparse(Hd) else Hd) # in-place addition of sparse matrices would not be in place.
 		
 		return out
 
@@ -1685,7 +1686,8 @@ class hamiltonian(object):
 			out[:] = self._static[:]
 
 		for func,Hd in iteritems(self._dynamic):
-			out += Hd * func(time)
+			Hd = Hd * func(time)
+			out += (Hd.toarray() if _sp.issparse(Hd) else Hd) # in-place addition of sparse matrices would not be in place.
 		
 		return out
 
-- 
2.43.0


From 2f661fe3aac90acd550c713cbf2d7e642cd0ccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:58 +0000
Subject: [PATCH 039/188] fix: adding zero to a hamiltonian returned the
 hamiltonian itself, so that changing the sum changed the summand

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index bcfbe7c..a65f65c 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2224,7 +2224,7 @@ class hamiltonian(object):
 			
 		elif _np.isscalar(other):
 			if other==0.0:
-				return self
+				return self.copy()
 			else:
 				raise NotImplementedError('hamiltonian does not support addition by nonzero scalar')
 
@@ -2279,7 +2279,7 @@ class hamiltonian(object):
 
 		elif _np.isscalar(other):
 			if other==0.0:
-				return self
+				return self.copy()
 			else:
 				raise NotImplementedError('hamiltonian does not support subtraction by nonzero scalar')
 
-- 
2.43.0


From da0e32fca5e7df4ff6c62484ca8e3e3da7929415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:25 +0000
Subject: [PATCH 040/188] fix: products of two time-dependent hamiltonians from
 the right, of dense static ones, and in-place products were wrong or in the
 wrong order

---
 quspin/operators/hamiltonian_core.py | 133 ++++++++-------------------
 1 file changed, 36 insertions(+), 97 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index a65f65c..1d8d410 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2471,113 +2471,52 @@ class hamiltonian(object):
 		return self
 
 	def _mul_hamiltonian(self,other):
-		if self.dynamic and other.dynamic:
-			new = self.astype(self._dtype)
-			return new._imul_hamiltonian(other)
-		elif self.dynamic:
-			return self._mul_sparse(other.static)
-		elif other.dynamic:
-			return other._rmul_sparse(self.static)
-		else:
-			return self._mul_sparse(other.static)
+		new = self.astype(_np.result_type(self._dtype,other.dtype).type)
+		return new._imul_hamiltonian(other)
 
 	def _rmul_hamiltonian(self,other):
-		if self.dynamic and other.dynamic:
-			new = other.astype(self._dtype)
-			return (new.T._imul_hamiltonian(self.T)).T #lazy implementation
-		elif self.dynamic:
-			return self._rmul_sparse(other.static)
-		elif other.dynamic:
-			return other._mul_sparse(self.static)
-		else:
-			return self._rmul_sparse(other.static)
+		return other._mul_hamiltonian(self)
 
 	def _imul_hamiltonian(self,other):
-		if self.dynamic and other.dynamic:
-			self._is_dense = self._is_dense or other._is_dense
-			new_dynamic_ops = {}
-			# create new dynamic operators coming from
-		
-			# self.static * other.static
-			if _sp.issparse(self.static):
-				new_static_op = self.static.dot(other._static)
-			elif _sp.issparse(other._static):
-				new_static_op = self.static * other._static
+
+		def dot(A,B): # matrix product, sparse if both factors are.
+			AB = A.dot(B) if _sp.issparse(A) else A * B if _sp.issparse(B) else _np.matmul(A,B)
+			return AB if _sp.issparse(AB) else _np.asarray(AB)
+
+		new_dynamic_ops = {}
+
+		def add(func,Hmul):
+			if func in new_dynamic_ops:
+				new_dynamic_ops[func] = new_dynamic_ops[func] + Hmul
 			else:
-				new_static_op = _np.matmul(self.static,other._static)
-
-			# self.static * other.dynamic
-			for func,Hd in iteritems(other._dynamic):
-				if _sp.issparse(self.static):
-					Hmul = self.static.dot(Hd)
-				elif _sp.issparse(Hd):
-					Hmul = self.static * Hd
-				else:
-					Hmul = _np.matmul(self.static,Hd)
+				new_dynamic_ops[func] = Hmul
 
-				if not _check_almost_zero(Hmul):
-					new_dynamic_ops[func] = Hmul
+		# create new dynamic operators coming from
 
-			# self.dynamic * other.static
-			for func,Hd in iteritems(self._dynamic):
-				if _sp.issparse(Hd):
-					Hmul = Hd.dot(other._static)
-				elif _sp.issparse(other._static):
-					Hmul = Hd * other._static
-				else:
-					Hmul = _np.matmul(Hd,other._static)
+		# self.static * other.static
+		new_static_op = dot(self._static,other._static)
+		if _check_almost_zero(new_static_op):
+			new_static_op = _sp.dia_matrix(new_static_op.shape,dtype=new_static_op.dtype)
+
+		# self.static * other.dynamic
+		for func,Hd in iteritems(other._dynamic):
+			add(func,dot(self._static,Hd))
 
+		# self.dynamic * other.static
+		for func,Hd in iteritems(self._dynamic):
+			add(func,dot(Hd,other._static))
 
-				if func in new_dynamic_ops:
-					try:
-						new_dynamic_ops[func] += Hmul
-					except NotImplementedError:
-						new_dynamic_ops[func] = new_dynamic_ops[func] + Hmul
+		# self.dynamic * other.dynamic
+		for func1,H1 in iteritems(self._dynamic):
+			for func2,H2 in iteritems(other._dynamic):
+				add(func1 * func2,dot(H1,H2))
 
-					if _check_almost_zero(new_dynamic_ops[func]):
-						new_dynamic_ops.pop(func)
-						
-				else:
-					if not _check_almost_zero(Hmul):
-						new_dynamic_ops[func] = Hmul
-
-
-			# self.dynamic * other.dynamic
-			for func1,H1 in iteritems(self._dynamic):
-				for func2,H2 in iteritems(other._dynamic):
-
-					if _sp.issparse(H1):
-						H12 = H1.dot(H2)
-					elif _sp.issparse(H2):
-						H12 = H1 * H2
-					else:
-						H12 = _np.matmul(H1,H2)
-
-					func12 = func1 * func2
-
-					if func12 in new_dynamic_ops:
-						try:
-							new_dynamic_ops[func12] += H12
-						except NotImplementedError:
-							new_dynamic_ops[func12] = new_dynamic_ops[func12] + H12
-
-						if _check_almost_zero(new_dynamic_ops[func12]):
-							new_dynamic_ops.pop(func12)
-					else:
-						if not _check_almost_zero(H12):
-							new_dynamic_ops[func12] = H12
-
-			self._static = new_static_op
-			self._dynamic = new_dynamic_ops
-			self._dtype = new_static_op.dtype
-			self._get_matvecs()
-			return self
-		elif self.dynamic:
-			return self._imul_sparse(other.static)
-		elif other.dynamic:
-			return (other.T._imul_sparse(self.static.T)).T
-		else:
-			return self._imul_sparse(other.static)
+		self._static = new_static_op
+		self._dynamic = {func:Hd for func,Hd in iteritems(new_dynamic_ops) if not _check_almost_zero(Hd)}
+		self._dtype = new_static_op.dtype.type
+		self.check_is_dense()
+		self._get_matvecs()
+		return self
 
 	#####################
 	# sparse operations #
-- 
2.43.0


From 02c9c8a6fa3b639e1740785e3709c1d205185663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:00 +0000
Subject: [PATCH 041/188] fix: sums and differences of hamiltonians shared
 dynamic matrices with the summands, and in-place differences failed

---
 quspin/operators/hamiltonian_core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 1d8d410..e41d464 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2357,7 +2357,7 @@ class hamiltonian(object):
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
-		for func,Hd in iteritems(other._dynamic):
+		for func,Hd in list(iteritems(other._dynamic)): # 'other' may be the hamiltonian itself.
 			if func in new._dynamic:
 				try:
 					new._dynamic[func] += Hd
@@ -2367,7 +2367,7 @@ class hamiltonian(object):
 				if _check_almost_zero(new._dynamic[func]):
 					new._dynamic.pop(func)
 			else:
-				new._dynamic[func] = Hd
+				new._dynamic[func] = Hd.copy()
 
 		new.check_is_dense()
 		new._get_matvecs()
@@ -2384,7 +2384,7 @@ class hamiltonian(object):
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
-		for func,Hd in iteritems(other._dynamic):
+		for func,Hd in list(iteritems(other._dynamic)): # 'other' may be the hamiltonian itself.
 			if func in self._dynamic:
 				try:
 					self._dynamic[func] += Hd
@@ -2400,7 +2400,7 @@ class hamiltonian(object):
 					self._dynamic.pop(func)
 
 			else:
-				self._dynamic[func] = Hd
+				self._dynamic[func] = Hd.copy()
 
 		self.check_is_dense()
 		self._get_matvecs()
@@ -2422,7 +2422,7 @@ class hamiltonian(object):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
 
-		for func,Hd in iteritems(other._dynamic):
+		for func,Hd in list(iteritems(other._dynamic)): # 'other' may be the hamiltonian itself.
 			if func in new._dynamic:
 				try:
 					new._dynamic[func] -= Hd
@@ -2451,14 +2451,14 @@ class hamiltonian(object):
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
-		for func,Hd in iteritems(other._dynamic):
+		for func,Hd in list(iteritems(other._dynamic)): # 'other' may be the hamiltonian itself.
 			if func in self._dynamic:
 				try:
 					self._dynamic[func] -= Hd
 				except NotImplementedError:
-					self._dynamic[func] = new._dynamic[func] - Hd
+					self._dynamic[func] = self._dynamic[func] - Hd
 
-				if _check_almost_zero(new._dynamic[func]):
+				if _check_almost_zero(self._dynamic[func]):
 					self._dynamic.pop(func)
 
 			else:
-- 
2.43.0


From e8f2c8db30e7de5e873f2e9c67ce96b4a045132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 042/188] fix: sums of sparse hamiltonians and dense matrices
 held np.matrix objects and marked the summand as dense, in-place ones failed

---
 quspin/operators/hamiltonian_core.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index e41d464..9d415b9 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -551,6 +551,14 @@ class hamiltonian(object):
 
 	def check_is_dense(self):
 		""" updates attribute `_.is_dense`."""
+		# scipy turns sums of sparse and dense matrices into np.matrix, which has different products.
+		if isinstance(self._static,_np.matrix):
+			self._static = _np.asarray(self._static)
+
+		for func in self._dynamic:
+			if isinstance(self._dynamic[func],_np.matrix):
+				self._dynamic[func] = _np.asarray(self._dynamic[func])
+
 		is_sparse = _sp.issparse(self._static)
 		for Hd in itervalues(self._dynamic):
 			is_sparse *= _sp.issparse(Hd)
@@ -2318,7 +2326,7 @@ class hamiltonian(object):
 		else:
 			other = _np.asanyarray(other)
 			self._mat_checks(other)	
-			return self._sub_dense(other)
+			return self._isub_dense(other)
 
 	##########################################################################################	
 	##########################################################################################
@@ -2732,7 +2740,6 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		try:
@@ -2757,7 +2764,7 @@ class hamiltonian(object):
 		try: 
 			self._static += other
 		except:
-			self._static = new._static + other
+			self._static = self._static + other
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
@@ -2778,7 +2785,6 @@ class hamiltonian(object):
 
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		try:
@@ -2806,8 +2812,8 @@ class hamiltonian(object):
 		except:
 			self._static = self._static - other
 
-		if _check_almost_zero(new._static):
-			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
+		if _check_almost_zero(self._static):
+			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		self.check_is_dense()
 		self._get_matvecs()
@@ -2824,7 +2830,6 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		new._static = _np.asarray(new._static.dot(other))
@@ -2853,7 +2858,6 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 
-- 
2.43.0


From 2f4de14df6e38214d461f46fd26601bbca1b0c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:47 +0000
Subject: [PATCH 043/188] fix: an array plus or minus a hamiltonian gave None

---
 quspin/operators/hamiltonian_core.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 9d415b9..f9b3e8e 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2943,6 +2943,23 @@ class hamiltonian(object):
 			elif ishamiltonian(inputs[1]):
 				return inputs[1].__rmul__(inputs[0])
 
+		elif func == _np.add:
+
+			if ishamiltonian(inputs[0]):
+				return inputs[0].__add__(inputs[1])
+			elif ishamiltonian(inputs[1]):
+				return inputs[1].__radd__(inputs[0])
+
+		elif func == _np.subtract:
+
+			if ishamiltonian(inputs[0]):
+				return inputs[0].__sub__(inputs[1])
+			elif ishamiltonian(inputs[1]):
+				return inputs[1].__rsub__(inputs[0])
+
+		return NotImplemented
+
+
 
 
 def ishamiltonian(obj):
-- 
2.43.0


From 71b58f377488917097a817cda0dce9b77ca35eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:19 +0000
Subject: [PATCH 044/188] fix: as_dense_format of hamiltonians with a dense
 static part raised TypeError

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index f9b3e8e..482bc98 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1802,7 +1802,7 @@ class hamiltonian(object):
 		if _sp.issparse(self._static):
 			new_static = self._static.toarray()
 		else:
-			new_static = _np.asarray(self._static,copy=copy)
+			new_static = _np.array(self._static,copy=copy)
 
 		dynamic = [([M.toarray(),func] if _sp.issparse(M) else [M,func])
 						for func,M in iteritems(self.dynamic)]
-- 
2.43.0


From 33f36784a3daa72e8ef8463c778d294587a1cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:39 +0000
Subject: [PATCH 045/188] fix: in-place operations with sparse matrices of
 higher precision changed the type of the hamiltonian's matrices

---
 quspin/operators/hamiltonian_core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 482bc98..db288fb 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -551,14 +551,19 @@ class hamiltonian(object):
 
 	def check_is_dense(self):
 		""" updates attribute `_.is_dense`."""
-		# scipy turns sums of sparse and dense matrices into np.matrix, which has different products.
+		# scipy turns sums of sparse and dense matrices into np.matrix, which has different products,
+		# and in-place operations on sparse matrices into ordinary ones, which can change the type.
 		if isinstance(self._static,_np.matrix):
 			self._static = _np.asarray(self._static)
 
+		self._static = self._static.astype(self._dtype,copy=False)
+
 		for func in self._dynamic:
 			if isinstance(self._dynamic[func],_np.matrix):
 				self._dynamic[func] = _np.asarray(self._dynamic[func])
 
+			self._dynamic[func] = self._dynamic[func].astype(self._dtype,copy=False)
+
 		is_sparse = _sp.issparse(self._static)
 		for Hd in itervalues(self._dynamic):
 			is_sparse *= _sp.issparse(Hd)
-- 
2.43.0


From 2ac042658dd2d7284a139a74796df447bfc38ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 046/188] fix: a sparse and a dense matrix with the same
 driving function became an np.matrix, and is_dense was not updated with the
 formats

---
 quspin/operators/hamiltonian_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index db288fb..1131676 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1781,6 +1781,7 @@ class hamiltonian(object):
 						raise ValueError("({},{}) is not found in dynamic list.".format(f,f_args))
 
 
+		self.check_is_dense()
 		self._get_matvecs()	
 
 	def as_dense_format(self,copy=False):
-- 
2.43.0


From a4b5882567a3c065389fccff3b79fbb5da733a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:15 +0000
Subject: [PATCH 047/188] fix: in-place multiplication with a sparse matrix
 multiplied the dynamic part from the left

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 1131676..281388b 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2662,7 +2662,7 @@ class hamiltonian(object):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		for func in list(self._dynamic):
-			self._dynamic[func] = other.dot(self._dynamic[func])
+			self._dynamic[func] = self._dynamic[func] * other
 
 			try:
 				self._dynamic[func].sum_duplicates()
-- 
2.43.0


From 68993c843702a1990a3e945b6266a0f1418e4e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 048/188] fix: hamiltonian.rdot failed unless an output array
 was given

---
 quspin/operators/hamiltonian_core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 281388b..17a1d98 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -779,16 +779,20 @@ class hamiltonian(object):
 		if ndim not in [1,2,3]:
 			raise ValueError("expecting V.ndim < 4.")
 
+		if times.ndim == 0:
+			time = times.item()
+
 		if ndim == 1:
-			return self.transpose().dot(V,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a)
+			return self.transpose().dot(V,time=time,check=check,out=out,overwrite_out=overwrite_out,a=a)
 		elif ndim == 2:
-			if _np.array(times).ndim>0:
-				return self.transpose().dot(V,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a)
+			if times.ndim > 0:
+				return self.transpose().dot(V,time=time,check=check,out=out,overwrite_out=overwrite_out,a=a)
 			else:
-				return self.transpose().dot(V.transpose(),time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose()
+				out_T = None if out is None else out.T
+				return self.transpose().dot(V.transpose(),time=time,check=check,out=out_T,overwrite_out=overwrite_out,a=a).transpose()
 		else:
 			V_transpose = V.transpose((1,0,2))
-			return self.transpose().dot(V_transpose,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose((1,0,2))
+			return self.transpose().dot(V_transpose,time=time,check=check,out=out,overwrite_out=overwrite_out,a=a).transpose((1,0,2))
 
 	def quant_fluct(self,V,time=0,check=True,enforce_pure=False):
 		"""Calculates the quantum fluctuations (variance) of `hamiltonian` operator at time `time`, in state `V`.
-- 
2.43.0


From b06bf02b45728acf7c91667ac5ee6afca626a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 049/188] fix: hamiltonian.expt_value and quant_fluct failed
 for sparse states and for one-dimensional spaces

---
 quspin/operators/hamiltonian_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 17a1d98..9e5e56e 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -910,7 +910,7 @@ class hamiltonian(object):
 	def _expt_value_core(self,V_left,V_right,time=0,enforce_pure=False):
 		if _np.array(time).ndim > 0: # multiple time point expectation values
 			if _sp.issparse(V_right): # multiple pure states multiple time points
-				return (V_left.H.dot(V_right)).diagonal()
+				return _np.asarray(V_left.conj().multiply(V_right).sum(axis=0)).ravel()
 			else:
 				V_left = _np.asarray(V_left)
 				if V_left.ndim == 2: # multiple pure states multiple time points
@@ -922,12 +922,12 @@ class hamiltonian(object):
 
 			if _sp.issparse(V_right):
 				if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-					return _np.asscalar((V_left.H.dot(V_right)).toarray())
+					return _np.asarray(V_left.conj().multiply(V_right).sum(axis=0)).squeeze()[()]
 				else: # density matrix
 					return V_right.diagonal().sum()
 			else:
-				V_right = _np.asarray(V_right).squeeze()
-				if V_right.ndim == 1: # pure state
+				V_left,V_right = _np.asarray(V_left),_np.asarray(V_right)
+				if V_right.ndim == 1 or V_right.shape[1] == 1: # pure state
 					return _np.vdot(V_left,V_right)
 				elif V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states
 					return _np.einsum("ij,ij->j",V_left.conj(),V_right)
-- 
2.43.0


From 384a8dcf3dc8f5d1b15b342e1c999fd91a89dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:36 +0000
Subject: [PATCH 050/188] fix: hamiltonian.nbytes failed for DIA matrices

---
 quspin/operators/hamiltonian_core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 9e5e56e..f8b7de7 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -533,17 +533,15 @@ class hamiltonian(object):
 	def nbytes(self):
 		nbytes = 0
 		if _sp.issparse(self._static):
-			nbytes += self._static.data.nbytes
-			nbytes += self._static.indices.nbytes
-			nbytes += self._static.indptr.nbytes
+			for name in ("data","indices","indptr","row","col","offsets"):
+				nbytes += getattr(getattr(self._static,name,None),"nbytes",0)
 		else:
 			nbytes += self._static.nbytes
 
 		for Hd in itervalues(self._dynamic):
 			if _sp.issparse(Hd):
-				nbytes += Hd.data.nbytes
-				nbytes += Hd.indices.nbytes
-				nbytes += Hd.indptr.nbytes
+				for name in ("data","indices","indptr","row","col","offsets"):
+					nbytes += getattr(getattr(Hd,name,None),"nbytes",0)
 			else:
 				nbytes += Hd.nbytes	
 
-- 
2.43.0


From 63a42379ad4a50b5b29ce1d962faab4caeecd037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:36 +0000
Subject: [PATCH 051/188] fix: hamiltonian.project_to to a smaller space left
 the old Ns and failed when a part was projected to zero

---
 quspin/operators/hamiltonian_core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index f8b7de7..fac091c 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1065,6 +1065,7 @@ class hamiltonian(object):
 					
 			new = self._rmul_sparse(proj.getH())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_sparse(proj)
 
 		elif _np.isscalar(proj):
@@ -1076,6 +1077,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.T.conj())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 
@@ -1085,6 +1087,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.H)
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 
@@ -1095,6 +1098,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.T.conj())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 	def rotate_by(self, other, generator=False,**exp_op_kwargs):
@@ -2637,7 +2641,7 @@ class hamiltonian(object):
 		new._static = other * new._static
 
 		if _check_almost_zero(new._static):
-			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
+			new._static = _sp.dia_matrix(new._static.shape,dtype=new._dtype)
 
 		for func in list(new._dynamic):
 			new._dynamic[func] = other.dot(new._dynamic[func])
@@ -2661,7 +2665,7 @@ class hamiltonian(object):
 		self._static =self._static * other
 
 		if _check_almost_zero(self._static):
-			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
+			self._static = _sp.dia_matrix(self._static.shape,dtype=self._dtype)
 
 		for func in list(self._dynamic):
 			self._dynamic[func] = self._dynamic[func] * other
@@ -2875,7 +2879,7 @@ class hamiltonian(object):
 			new._static = _np.asarray(other.dot(new._static))
 
 		if _check_almost_zero(new._static):
-			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
+			new._static = _sp.dia_matrix(new._static.shape,dtype=new._dtype)
 
 
 
@@ -2904,7 +2908,7 @@ class hamiltonian(object):
 		self._static = _np.asarray(self._static.dot(other))
 
 		if _check_almost_zero(self._static):
-			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
+			self._static = _sp.dia_matrix(self._static.shape,dtype=self._dtype)
 
 		for func in list(self._dynamic):
 			self._dynamic[func] = _np.asarray(self._dynamic[func].dot(other))
-- 
2.43.0


From 46c3f0dae55bbe0fb7b2aaf2a2cc845ec7b2e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:36 +0000
Subject: [PATCH 052/188] fix: hamiltonian.matrix_ele of dense with sparse
 states

---
 quspin/operators/hamiltonian_core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index fac091c..2c6826e 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -975,6 +975,9 @@ class hamiltonian(object):
 
 		Vr=self.dot(Vr,time=time,check=check)
 
+		if _sp.issparse(Vr) and not _sp.issparse(Vl):
+			Vr = Vr.toarray()
+
 		if check:
 			try:
 				shape = Vl.shape
@@ -994,9 +997,9 @@ class hamiltonian(object):
 
 		if _sp.issparse(Vl):
 			if diagonal:
-				return Vl.H.dot(Vr).diagonal()
+				return _np.asarray(Vl.conj().multiply(Vr).sum(axis=0)).ravel()
 			else:
-				return Vl.H.dot(Vr)
+				return Vl.conj().T.dot(Vr)
 		else:
 			if diagonal:
 				return _np.einsum("ij,ij->j",Vl.conj(),Vr)
-- 
2.43.0


From bd02bacb620b0a85223276e4cc886fa501ef2a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:36 +0000
Subject: [PATCH 053/188] fix: hamiltonian.dot with sparse states at several
 times, with dense Hamiltonians, and with complex factors

---
 quspin/operators/hamiltonian_core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 2c6826e..ae28ccc 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -648,6 +648,9 @@ class hamiltonian(object):
 
 
 		result_dtype = _np.result_type(V.dtype,self._dtype)
+
+		if _np.iscomplexobj(a):
+			result_dtype = _np.result_type(result_dtype,_np.complex64)
 		
 		if result_dtype not in supported_dtypes:
 			raise TypeError("resulting dtype is not supported.")
@@ -660,7 +663,7 @@ class hamiltonian(object):
 
 			if _sp.issparse(V):
 				V = V.tocsc()
-				return _sp.vstack([a*self.dot(V.get_col(i),time=t,check=check) for i,t in enumerate(time)])
+				return _sp.hstack([a*self.dot(V[:,i],time=t,check=check) for i,t in enumerate(time)],format="csc")
 			else:
 				if V.ndim == 3 and V.shape[0] != V.shape[1]:
 					raise ValueError("Density matrices must be square!")
@@ -709,9 +712,9 @@ class hamiltonian(object):
 				if out is not None:
 					raise TypeError("'out' option does not apply for sparse inputs.")
 
-				out = self._static * V
+				out = self._static @ V
 				for func,Hd in iteritems(self._dynamic):
-					out = out + func(time)*(Hd.dot(V))
+					out = out + func(time)*(Hd @ V)
 
 				out = a*out
 			else:
-- 
2.43.0


From 4c843c0a51ab6ca31209f24e67287440c11376e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:54 +0000
Subject: [PATCH 054/188] fix: products of dense Hamiltonians with sparse
 states

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index ae28ccc..8cee362 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -712,9 +712,9 @@ class hamiltonian(object):
 				if out is not None:
 					raise TypeError("'out' option does not apply for sparse inputs.")
 
-				out = self._static @ V
+				out = _sp.csr_matrix(self._static) @ V
 				for func,Hd in iteritems(self._dynamic):
-					out = out + func(time)*(Hd @ V)
+					out = out + func(time)*(_sp.csr_matrix(Hd) @ V)
 
 				out = a*out
 			else:
-- 
2.43.0


From 3462f28f142805485a08b63b29879631bd3b2ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:10 +0000
Subject: [PATCH 055/188] fix: the transpose and conjugates of exp_op, and
 sandwich, changed the object itself

---
 quspin/operators/exp_op_core.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index ab93dbc..493d78d 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -227,8 +227,9 @@ class exp_op(object):
 		if copy:
 			return self.copy().transpose(copy = False)
 		else:
-			self._O=self._O.transpose()
-			return self
+			new = _shallowcopy(self)
+			new._O = self._O.transpose()
+			return new
 
 	def conj(self):
 		"""Conjugates `exp_op` operator.
@@ -248,9 +249,10 @@ class exp_op(object):
 		>>> expO_conj = expO.conj()
 
 		"""
-		self._O=self._O.conj()
-		self._a = self._a.conjugate()
-		return self
+		new = _shallowcopy(self)
+		new._O = self._O.conj()
+		new._a = self._a.conjugate()
+		return new
 
 	def getH(self,copy = False):
 		"""Calculates hermitian conjugate of `exp_op` operator.
@@ -274,9 +276,10 @@ class exp_op(object):
 		if copy:
 			return self.copy().getH(copy = False)
 		else:
-			self._O = self._O.getH(copy = False)
-			self._a = self._a.conjugate()
-			return self
+			new = _shallowcopy(self)
+			new._O = self._O.getH(copy = False)
+			new._a = self._a.conjugate()
+			return new
 
 
 	def copy(self):
-- 
2.43.0


From d5e878eaca74791a51f3bc9dbbd33916748c2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:10 +0000
Subject: [PATCH 056/188] fix: exp_op.set_grid refused its default arguments,
 and set_iterate did not notice a missing grid

---
 quspin/operators/exp_op_core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 493d78d..2d29519 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -337,13 +337,17 @@ class exp_op(object):
 		if not (_np.isreal(start) and _np.isreal(stop)):
 			raise ValueError("expecting real values for 'start' and 'stop'")
 
-		if type(num) is not None:
+		if num is not None:
 			if type(num) is not int:
 				raise ValueError("expecting integer for 'num'.")
+		else:
+			num = 50
 
-		if type(endpoint) is not None:
+		if endpoint is not None:
 			if type(endpoint) is not bool:
 				raise ValueError("expecting bool for 'endpoint'.")
+		else:
+			endpoint = True
 
 		self._start=start
 		self._stop=stop
@@ -390,7 +394,7 @@ class exp_op(object):
 			raise ValueError("iterate option must be true or false.")
 
 		if Value:
-			if (self._grid, self._step) is (None, None):
+			if self._grid is None:
 				raise ValueError("grid must be set in order to set iterate to be True.")
 
 		self._iterate = Value
-- 
2.43.0


From ae96d95459edf818466be7e85e7109fdad7c4838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:10 +0000
Subject: [PATCH 057/188] fix: exp_op.get_mat failed for sparse operators, and
 products failed for dense with sparse matrices

---
 quspin/operators/exp_op_core.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 2d29519..93f2bdb 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -8,7 +8,8 @@ import scipy.linalg as _la
 import scipy.sparse as _sp
 import numpy as _np
 
-from scipy.sparse.linalg import expm_multiply as _expm_multiply
+from scipy.sparse.linalg import expm as _sp_expm
+from scipy.sparse.linalg import expm_multiply as _scipy_expm_multiply
 
 from copy import deepcopy as _deepcopy # recursively copies all data into new object
 from copy import copy as _shallowcopy
@@ -430,7 +431,7 @@ class exp_op(object):
 		if self.O.is_dense or dense:
 			return _la.expm(self._a * self.O.toarray(**call_kwargs))
 		else:
-			return _la.expm(self._a * self.O.tocsc(**call_kwargs))
+			return _sp_expm(self._a * self.O.tocsc(**call_kwargs))
 
 	def dot(self, other,shift=None,**call_kwargs):
 		"""Left-multiply operator by matrix exponential.
@@ -704,6 +705,16 @@ class exp_op(object):
 
 
 ### helper functions
+def _expm_multiply(A, B, **kwargs):
+	# matrices of different kinds can't be multiplied in expm_multiply.
+	if isinstance(A,_np.matrix):
+		A = _np.asarray(A)
+
+	if _sp.issparse(B):
+		B = B.tocsr() if _sp.issparse(A) else B.toarray()
+
+	return _scipy_expm_multiply(A, B, **kwargs)
+
 def _iter_dot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
-- 
2.43.0


From f11164dd6e5d04ea473260c5c2cdf7f671574200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:27 +0000
Subject: [PATCH 058/188] fix: exp_op applied to hamiltonian objects failed on
 a grid and left stale products

---
 quspin/operators/exp_op_core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 93f2bdb..31c03dd 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -762,10 +762,12 @@ def _hamiltonian_dot(M, other):
 	new._dtype = _np.result_type(M.dtype,new._dtype)
 	new._static = _expm_multiply(M, other.static)
 	new._dynamic = {func:_expm_multiply(M, Hd) for func,Hd in iteritems(other._dynamic)}
+	new.check_is_dense()
+	new._get_matvecs()
 
 	return new
 
-def _hamiltonian_iter_dot(M, other, grid, step):
+def _hamiltonian_iter_dot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _hamiltonian_dot(M, other)
@@ -783,10 +785,12 @@ def _hamiltonian_rdot(M, other):
 	new._dtype = _np.result_type(M.dtype,new._dtype)
 	new._static = _expm_multiply(M, other.static)
 	new._dynamic = {func:_expm_multiply(M, Hd) for func,Hd in iteritems(other._dynamic)}
+	new.check_is_dense()
+	new._get_matvecs()
 
 	return new
 
-def _hamiltonian_iter_rdot(M, other, grid, step):
+def _hamiltonian_iter_rdot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _hamiltonian_rdot(M, other)
-- 
2.43.0


From 3da5920b258bb6fe07ba97bc3d76e398d22d6a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:27 +0000
Subject: [PATCH 059/188] fix: exp_op.sandwich without a grid multiplied from
 the wrong sides and ignored the shift

---
 quspin/operators/exp_op_core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 31c03dd..9e3e8a3 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -676,7 +676,7 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a.conjugate() * (self.O.H(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))
+			M = self._a.conjugate() * (self.O.H(**call_kwargs) + _np.conj(shift)*_sp.identity(self.Ns,dtype=self.O.dtype))
 		else:
 			M = self._a.conjugate() * self.O.H(**call_kwargs)
 			
@@ -691,8 +691,9 @@ class exp_op(object):
 		else:
 			if self._grid is None and self._step is None:
 
-				other = self.dot(other,**call_kwargs)
-				other = self.H.rdot(other,**call_kwargs)
+				other = self.rdot(other,shift=shift,**call_kwargs)
+				shift = None if shift is None else _np.conj(shift)
+				other = self.H.dot(other,shift=shift,**call_kwargs)
 				return other
 
 			else:
-- 
2.43.0


From e4c028a100851c8e919efe37ee3dc687eeced001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:27 +0000
Subject: [PATCH 060/188] fix: hamiltonian.toarray and todense failed with the
 argument order

---
 quspin/operators/hamiltonian_core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 8cee362..295f260 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1655,11 +1655,13 @@ class hamiltonian(object):
 			raise TypeError('expecting scalar argument for time')
 
 		if out is None:
-			out = _np.zeros(self._shape,dtype=self.dtype)
+			out = _np.zeros(self._shape,dtype=self.dtype,order=(order or "C"))
 			out = _np.asmatrix(out)
+		elif order is not None:
+			raise ValueError("'order' cannot be specified if 'out' is given.")
 
 		if _sp.issparse(self._static):
-			self._static.todense(order=order,out=out)
+			self._static.todense(out=out)
 		else:
 			out[:] = self._static[:]
 
@@ -1703,10 +1705,12 @@ class hamiltonian(object):
 			raise TypeError('expecting scalar argument for time')
 
 		if out is None:
-			out = _np.zeros(self._shape,dtype=self.dtype)
+			out = _np.zeros(self._shape,dtype=self.dtype,order=(order or "C"))
+		elif order is not None:
+			raise ValueError("'order' cannot be specified if 'out' is given.")
 
 		if _sp.issparse(self._static):
-			self._static.toarray(order=order,out=out)
+			self._static.toarray(out=out)
 		else:
 			out[:] = self._static[:]
 
-- 
2.43.0


From 2a847eb023dcd3f37a63da43b9822a9c796c8193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 061/188] fix: matrix-vector products dropped the imaginary
 part of the factor, and wrote vectors of mixed types into wrong places

---
 quspin/tools/matvec/_oputils.pyx | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/quspin/tools/matvec/_oputils.pyx b/quspin/tools/matvec/_oputils.pyx
index 43a976b..412039d 100644
--- a/quspin/tools/matvec/_oputils.pyx
+++ b/quspin/tools/matvec/_oputils.pyx
@@ -506,12 +506,25 @@ def _dia_matvecs(bool overwrite_y, indtype[::1] offsets ,T1[:,::1] diags, T1 a,
 """
 
 
-def _csr_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
+def _prepare_args(mat_obj,other,overwrite_out,out,a):
+  # the kernels take the factor `a` in the type of the matrix, and input and output vectors of the same type.
+  if _np.iscomplexobj(a) and not _np.iscomplexobj(mat_obj):
+    other = a * other
+    a = 1.0
+
   if out is None:
     overwrite_out = True
     result_dtype = _np.result_type(mat_obj.dtype,other.dtype)
     out = _np.zeros(mat_obj.shape[:1]+other.shape[1:],dtype=result_dtype,order="C")
 
+  other = other.astype(out.dtype,casting="same_kind",copy=False)
+
+  return other,out,overwrite_out,a
+
+
+def _csr_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
+  other,out,overwrite_out,a = _prepare_args(mat_obj,other,overwrite_out,out,a)
+
   a = _np.array(a,dtype=mat_obj.dtype)
   if other.ndim == 1:
     _csr_matvec(overwrite_out,mat_obj.indptr,mat_obj.indices,mat_obj.data,a,other,out)
@@ -524,10 +537,7 @@ def _csr_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
 
 
 def _csc_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
-  if out is None:
-    overwrite_out = True
-    result_dtype = _np.result_type(mat_obj.dtype,other.dtype)
-    out = _np.zeros(mat_obj.shape[:1]+other.shape[1:],dtype=result_dtype,order="C")
+  other,out,overwrite_out,a = _prepare_args(mat_obj,other,overwrite_out,out,a)
 
   a = _np.array(a,dtype=mat_obj.dtype)
   if other.ndim == 1:
@@ -539,10 +549,7 @@ def _csc_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
 
 
 def _dia_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
-  if out is None:
-    overwrite_out = True
-    result_dtype = _np.result_type(mat_obj.dtype,other.dtype)
-    out = _np.zeros(mat_obj.shape[:1]+other.shape[1:],dtype=result_dtype,order="C")
+  other,out,overwrite_out,a = _prepare_args(mat_obj,other,overwrite_out,out,a)
 
   a = _np.array(a,dtype=mat_obj.dtype)
   if other.ndim == 1:
@@ -554,10 +561,7 @@ def _dia_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
 
 
 def _other_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
-  if out is None:
-    overwrite_out = True
-    result_dtype = _np.result_type(mat_obj.dtype,other.dtype)
-    out = _np.zeros(mat_obj.shape[:1]+other.shape[1:],dtype=result_dtype,order="C")
+  other,out,overwrite_out,a = _prepare_args(mat_obj,other,overwrite_out,out,a)
 
   inter_res = mat_obj.dot(other)
 
-- 
2.43.0


From c8b4aec3100cdb7f891e6c2d00a86c8448d3ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 062/188] fix: tools.misc.matvec ignored its options

---
 quspin/tools/matvec/matvec_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/matvec/matvec_core.py b/quspin/tools/matvec/matvec_core.py
index 66fd70f..dbd3314 100644
--- a/quspin/tools/matvec/matvec_core.py
+++ b/quspin/tools/matvec/matvec_core.py
@@ -98,7 +98,7 @@ def matvec(array,other,overwrite_out=False,out=None,a=1.0):
 	"""
 
 
-	return _matvec(array,other,overwrite_out=False,out=None,a=1.0)
+	return _matvec(array,other,overwrite_out=overwrite_out,out=out,a=a)
 
 
 
-- 
2.43.0


From 8215052b559fab0bf33c0920f97c9d9fb2973363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 063/188] fix: products of csr matrices with several vectors
 into non-contiguous arrays

---
 quspin/tools/matvec/_oputils/csr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/matvec/_oputils/csr.h b/quspin/tools/matvec/_oputils/csr.h
index be291eb..cb47b90 100644
--- a/quspin/tools/matvec/_oputils/csr.h
+++ b/quspin/tools/matvec/_oputils/csr.h
@@ -125,11 +125,11 @@ void csr_matvecs_noomp_strided(const bool overwrite_y,
             for(I k = 0; k<n_row; k++){
                 for(I jj = Ap[k]; jj < Ap[k+1]; jj++){
                     const npy_intp ii = x_stride_row *  Aj[jj];
-                    (*y) += (a * Ax[jj]) * x[ii];
+                    y[k * y_stride_row] += (a * Ax[jj]) * x[ii];
                 }
-                y += y_stride_row;
             }
             x += x_stride_col;
+            y += y_stride_col;
         }
     }
 }
-- 
2.43.0


From 2e84c63cdbcaecde1efb6bc38e97098fe5561fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:11 +0000
Subject: [PATCH 064/188] fix: tools.misc.csr_matvec with non-square matrices
 and non-contiguous output

---
 .../expm_multiply_parallel_core/csr_matvec_core.py   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quspin/tools/expm_multiply_parallel_core/csr_matvec_core.py b/quspin/tools/expm_multiply_parallel_core/csr_matvec_core.py
index bc16570..63d2893 100644
--- a/quspin/tools/expm_multiply_parallel_core/csr_matvec_core.py
+++ b/quspin/tools/expm_multiply_parallel_core/csr_matvec_core.py
@@ -59,7 +59,8 @@ def csr_matvec(A,v,a=None,out=None,overwrite_out=True):
 		raise ValueError("dimension mismatch with shapes {} and {}".format(A.shape,v.shape))
 
 	if out is None:
-		out = _np.zeros_like(v,dtype=result_type)
+		shape = v.shape if A.shape[0] == A.shape[1] else A.shape[:1] + v.shape[1:]
+		out = _np.zeros(shape,dtype=result_type)
 		overwrite_out = True
 	else:
 		out = _np.asarray(out)
@@ -67,9 +68,14 @@ def csr_matvec(A,v,a=None,out=None,overwrite_out=True):
 	if v.dtype != result_type:
 		v = v.astype(result_type)
 
-	if out.shape != v.shape:
+	if out.size != A.shape[0] or out.dtype != result_type:
 		raise ValueError("ValueError: output array is not the correct shape or dtype.")
 
-	_csr_matvec(overwrite_out,A.indptr,A.indices,A.data,a,v.ravel(),out.ravel())
+	if out.flags["C_CONTIGUOUS"]:
+		_csr_matvec(overwrite_out,A.indptr,A.indices,A.data,a,v.ravel(),out.ravel())
+	else: # flattening makes a copy.
+		flat_out = out.ravel()
+		_csr_matvec(overwrite_out,A.indptr,A.indices,A.data,a,v.ravel(),flat_out)
+		out[...] = flat_out.reshape(out.shape)
 
 	return out
-- 
2.43.0


From 46cfe3d4a0ffc31c532f3cb4b2c4f64a935cac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 065/188] fix: hamiltonian.tocsr and tocsc returned the
 internal matrix of a static hamiltonian

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 295f260..4bc6696 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1566,7 +1566,7 @@ class hamiltonian(object):
 			raise TypeError('expecting scalar argument for time')
 
 
-		H = _sp.csr_matrix(self._static)
+		H = _sp.csr_matrix(self._static,copy=True)
 
 		for func,Hd in iteritems(self._dynamic):
 			Hd = _sp.csr_matrix(Hd)
@@ -1602,7 +1602,7 @@ class hamiltonian(object):
 		if _np.array(time).ndim > 0:
 			raise TypeError('expecting scalar argument for time')
 
-		H = _sp.csc_matrix(self._static)
+		H = _sp.csc_matrix(self._static,copy=True)
 		for func,Hd in iteritems(self._dynamic):
 			Hd = _sp.csc_matrix(Hd)
 			try:
-- 
2.43.0


From ca61883f77cd1ddeca02b87375e9ddc407364d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 066/188] fix: tools.misc.csr_matvec refused single precision

---
 .../csr_matvec_core.py                         | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/quspin/tools/expm_multiply_parallel_core/csr_matvec_core.py b/quspin/tools/expm_multiply_parallel_core/csr_matvec_core.py
index 63d2893..6a59a60 100644
--- a/quspin/tools/expm_multiply_parallel_core/csr_matvec_core.py
+++ b/quspin/tools/expm_multiply_parallel_core/csr_matvec_core.py
@@ -65,17 +65,19 @@ def csr_matvec(A,v,a=None,out=None,overwrite_out=True):
 	else:
 		out = _np.asarray(out)
 
-	if v.dtype != result_type:
-		v = v.astype(result_type)
-
 	if out.size != A.shape[0] or out.dtype != result_type:
 		raise ValueError("ValueError: output array is not the correct shape or dtype.")
 
-	if out.flags["C_CONTIGUOUS"]:
-		_csr_matvec(overwrite_out,A.indptr,A.indices,A.data,a,v.ravel(),out.ravel())
-	else: # flattening makes a copy.
-		flat_out = out.ravel()
-		_csr_matvec(overwrite_out,A.indptr,A.indices,A.data,a,v.ravel(),flat_out)
+	# scalars are passed on in double precision, which only goes along with vectors in double precision.
+	a = complex(a) if _np.iscomplexobj(a) else float(a)
+	flat_type = _np.result_type(result_type,_np.float64)
+	flat_v = _np.ravel(v).astype(flat_type,copy=False)
+
+	if out.flags["C_CONTIGUOUS"] and out.dtype == flat_type:
+		_csr_matvec(overwrite_out,A.indptr,A.indices,A.data,a,flat_v,out.ravel())
+	else: # flattening or converting makes a copy.
+		flat_out = out.astype(flat_type).ravel()
+		_csr_matvec(overwrite_out,A.indptr,A.indices,A.data,a,flat_v,flat_out)
 		out[...] = flat_out.reshape(out.shape)
 
 	return out
-- 
2.43.0


From f507a940bb0d753b8b8b7b0c7d1026c2bfad1ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:56 +0000
Subject: [PATCH 067/188] fix: hamiltonian.diagonal failed for dense static
 with dynamic parts, and changed a DIA static part

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 4bc6696..593d18e 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1959,7 +1959,7 @@ class hamiltonian(object):
 		if _np.array(time).ndim > 0:
 			raise TypeError('expecting scalar argument for time')
 
-		diagonal = self._static.diagonal()
+		diagonal = self._static.diagonal().copy() # for dense arrays diagonal() is a read-only view.
 		for func,Hd in iteritems(self._dynamic):
 			diagonal += Hd.diagonal() * func(time)
 
-- 
2.43.0


From b86be6971e27676ca09e4e82da3ef414afa20de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:56 +0000
Subject: [PATCH 068/188] fix: hamiltonian.expt_value took sparse states of
 one-dimensional spaces for density matrices

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 593d18e..fc2f20c 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -922,7 +922,7 @@ class hamiltonian(object):
 		else:
 
 			if _sp.issparse(V_right):
-				if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
+				if V_left.shape[1] == 1 or V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
 					return _np.asarray(V_left.conj().multiply(V_right).sum(axis=0)).squeeze()[()]
 				else: # density matrix
 					return V_right.diagonal().sum()
-- 
2.43.0


From 9d384efecc2cba714882db13dfd91685b6212f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:18 +0000
Subject: [PATCH 069/188] fix: exp_op with a dense operator failed on sparse
 operands on grids starting at zero

---
 quspin/operators/exp_op_core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 9e3e8a3..a6d8bdb 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -716,7 +716,12 @@ def _expm_multiply(A, B, **kwargs):
 
 	return _scipy_expm_multiply(A, B, **kwargs)
 
+def _like(M, other):
+	# sparse operands of dense matrices are dense from the first grid point on.
+	return other.toarray() if _sp.issparse(other) and not _sp.issparse(M) else other
+
 def _iter_dot(M, other, step, grid):
+	other = _like(M, other)
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _expm_multiply(M, other)
@@ -730,6 +735,7 @@ def _iter_dot(M, other, step, grid):
 		yield other.copy()
 
 def _iter_rdot(M, other, step, grid):
+	other = _like(M, other)
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _expm_multiply(M, other)
@@ -743,6 +749,7 @@ def _iter_rdot(M, other, step, grid):
 		yield other.T.copy()
 
 def _iter_sandwich(M, other, step, grid):
+	other = _like(M, other)
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _expm_multiply(M, other)
-- 
2.43.0


From e7cb047970730b56bbe0d91db0bfff53834331ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:49 +0000
Subject: [PATCH 070/188] fix: exp_op.sandwich on a grid failed for sparse
 operands

---
 quspin/operators/exp_op_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index a6d8bdb..695acab 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -702,7 +702,8 @@ class exp_op(object):
 					return _np.asarray([mat for mat in mat_iter])
 				else:
 					mat_iter = _iter_sandwich(M, other, self._step, self._grid)
-					return _np.asarray([mat for mat in mat_iter]).transpose((1,2,0))
+					mats = _np.asarray([mat for mat in mat_iter])
+					return mats.transpose((1,2,0)) if mats.ndim == 3 else mats # sparse products: one matrix per grid point.
 
 
 ### helper functions
-- 
2.43.0


From 7c7101cf6680f20ddfaac167dfd7349d3d0c6f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:18 +0000
Subject: [PATCH 071/188] fix: exp_op on decreasing grids gave nan

---
 quspin/operators/exp_op_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 695acab..ece7a28 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -514,7 +514,7 @@ class exp_op(object):
 				else:
 					ver = [int(v) for v in scipy.__version__.split(".")]
 
-					if _np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19:
+					if (_np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19) or self._stop < self._start: # scipy returns nan for decreasing grids.
 						mats = _iter_dot(M, other, self._step, self._grid)
 						return _np.array([mat for mat in mats]).T
 					else:
@@ -608,7 +608,7 @@ class exp_op(object):
 					return _np.array([mat for mat in mats])
 				else:
 					ver = [int(v) for v in scipy.__version__.split(".")]
-					if _np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19:
+					if (_np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19) or self._stop < self._start: # scipy returns nan for decreasing grids.
 						mats = _iter_rdot(M, other.T, self._step, self._grid)
 						return _np.array([mat for mat in mats])
 					else:
-- 
2.43.0


From 1e009c7c6e746daeb939de240d98fe33f936a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:43 +0000
Subject: [PATCH 072/188] fix: ED_state_vs_time failed for one-dimensional
 spaces

---
 quspin/tools/evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index 2de0ef1..d1e7ed9 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -56,7 +56,8 @@ def ED_state_vs_time(psi,E,V,times,iterate=False):
 
 	"""
 	psi = _np.squeeze(_np.asarray(psi))
-
+	if psi.ndim == 0: # a one-dimensional space
+		psi = psi.reshape(1)
 
 	if V.ndim != 2 or V.shape[0] != V.shape[1]:
 		raise ValueError("'V' must be a square matrix")
-- 
2.43.0


From 7ef2019a620b5ca8f05c661148328d4b16bb507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:43 +0000
Subject: [PATCH 073/188] fix: evolve with stack_state failed for several
 states

---
 quspin/operators/hamiltonian_core.py | 2 +-
 quspin/tools/evolution.py            | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index fc2f20c..10f9d6f 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1354,7 +1354,7 @@ class hamiltonian(object):
 			self._dynamic_matvec[func](Hd,V[self._Ns:],out=V_out[:self._Ns],a=+ft,overwrite_out=False) # V_dot[:self._Ns] += func(time)*Hd.dot(V[self._Ns:])
 			self._dynamic_matvec[func](Hd,V[:self._Ns],out=V_out[self._Ns:],a=-ft,overwrite_out=False) # V_dot[self._Ns:] += -func(time)*Hd.dot(V[:self._Ns])
 
-		return V_out
+		return V_out.ravel()
 
 	def __SO(self,time,V,V_out):
 		"""
diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index d1e7ed9..c84fcc6 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -344,10 +344,10 @@ def _cmplx_f(t,y,f,f_params):
 
 
 def _format_output(y,complex_valued,stack_state,imag_time,n,shape0):
-	Ns = shape0[0]
 	if stack_state:
-		yout = y[:Ns].astype(_np.complex128).reshape(shape0)
-		yout[...] += 1j*y[Ns:].reshape(shape0)
+		half = y.size//2
+		yout = y[:half].astype(_np.complex128).reshape(shape0)
+		yout[...] += 1j*y[half:].reshape(shape0)
 	elif complex_valued:
 		yout = y.view(_np.complex128).reshape(shape0)
 	else:
-- 
2.43.0


From 6eab2a66fcefc16fdf907ea39ecde6f22864a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:43 +0000
Subject: [PATCH 074/188] fix: imaginary time evolution of several states gave
 each of them the norm of all

---
 quspin/tools/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index c84fcc6..da35bd1 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -281,7 +281,7 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 	if _np.iscomplexobj(times):
 		raise ValueError("times must be real number(s).")
 
-	n = _np.linalg.norm(v0) # needed for imaginary time to preserve the proper norm of the state. 
+	n = _np.linalg.norm(v0.reshape(shape0),axis=0) # needed for imaginary time to preserve the proper norm of the state. 
 
 	if stack_state:
 		if imag_time:
-- 
2.43.0


From 6a105463f85149a471c10d89999e0f6c938c42cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:43 +0000
Subject: [PATCH 075/188] fix: states given by evolve shared memory with the
 initial state and the solver, so that changing them changed the evolution

---
 quspin/tools/evolution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index da35bd1..01c1c84 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -362,7 +362,7 @@ def _format_output(y,complex_valued,stack_state,imag_time,n,shape0):
 
 def _evolve_scalar(solver,v0,t0,time,*output_args):
 	if time == t0:
-		return _format_output(v0,*output_args)
+		return _format_output(v0.copy(),*output_args)
 
 	solver.integrate(time)
 	if solver.successful():
@@ -383,7 +383,7 @@ def _evolve_list(solver,v0,t0,times,verbose,*output_args):
 	for i,t in enumerate(times):
 
 		if t == t0:
-			y_fmt = _format_output(v0,*output_args)
+			y_fmt = _format_output(v0.copy(),*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
 			v[i,...] = y_fmt
 			continue
@@ -411,7 +411,7 @@ def _evolve_iter(solver,v0,t0,times,verbose,*output_args):
 
 	for i,t in enumerate(times):
 		if t == t0:
-			y_fmt = _format_output(v0,*output_args)
+			y_fmt = _format_output(v0.copy(),*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
 			yield y_fmt
 			continue
@@ -420,6 +420,6 @@ def _evolve_iter(solver,v0,t0,times,verbose,*output_args):
 		if solver.successful():
 			y_fmt = _format_output(solver._y,*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
-			yield y_fmt
+			yield y_fmt.copy() # not the state the solver goes on from.
 		else:
 			raise RuntimeError("failed to evolve to time {0}, nsteps might be too small".format(t))
-- 
2.43.0


From b2a7dda27f34b7cd034680e79d6ac8f6272efa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:43 +0000
Subject: [PATCH 076/188] fix: evolve failed when a time was repeated

---
 quspin/tools/evolution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index 01c1c84..a6198f5 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -388,7 +388,8 @@ def _evolve_list(solver,v0,t0,times,verbose,*output_args):
 			v[i,...] = y_fmt
 			continue
 
-		solver.integrate(t)
+		if t != solver.t: # solvers can't take a step of zero.
+			solver.integrate(t)
 		if solver.successful():
 			y_fmt = _format_output(solver._y,*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
@@ -416,7 +417,8 @@ def _evolve_iter(solver,v0,t0,times,verbose,*output_args):
 			yield y_fmt
 			continue
 			
-		solver.integrate(t)
+		if t != solver.t: # solvers can't take a step of zero.
+			solver.integrate(t)
 		if solver.successful():
 			y_fmt = _format_output(solver._y,*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
-- 
2.43.0


From 16c1c215fd8142a4ac0d60c0db08305545bc97ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:43 +0000
Subject: [PATCH 077/188] fix: expm_multiply_parallel.set_a failed with a dtype

---
 .../expm_multiply_parallel_core/expm_multiply_parallel_core.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py b/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
index 7914aa5..fccc4fe 100644
--- a/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
+++ b/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
@@ -129,7 +129,7 @@ class expm_multiply_parallel(object):
             if dtype is None:
                 self._dtype = _np.result_type(self._A.dtype,a_dtype_min,_np.float64)
             else:
-                min_dtype = _np.result_type(A.dtype,a_dtype_min,_np.float32)
+                min_dtype = _np.result_type(self._A.dtype,a_dtype_min,_np.float32)
                 if not _np.can_cast(min_dtype,dtype):
                     raise ValueError("dtype not sufficient to represent a*A to at least float32 precision.")
 
-- 
2.43.0


From fc8cef367f0c1ea8615b7dd70341ac902197a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:25 +0000
Subject: [PATCH 078/188] fix: evolve lost accuracy when the times turned round

---
 quspin/tools/evolution.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index a6198f5..8cef5c8 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -338,6 +338,16 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 			return _evolve_list(solver,v0,t0,times,verbose,*output_args)
 
 
+def _integrate(solver,t):
+	forward = t > solver.t
+	if forward != getattr(solver,"_forward",forward):
+		# the solvers go on with the last step size, which is wrong after turning round.
+		solver.set_initial_value(solver._y,solver.t)
+
+	solver._forward = forward
+	solver.integrate(t)
+
+
 def _cmplx_f(t,y,f,f_params):
 	yc = y.view(_np.complex128)
 	return f(t,yc,*f_params).view(_np.float64)
@@ -389,7 +399,7 @@ def _evolve_list(solver,v0,t0,times,verbose,*output_args):
 			continue
 
 		if t != solver.t: # solvers can't take a step of zero.
-			solver.integrate(t)
+			_integrate(solver,t)
 		if solver.successful():
 			y_fmt = _format_output(solver._y,*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
@@ -418,7 +428,7 @@ def _evolve_iter(solver,v0,t0,times,verbose,*output_args):
 			continue
 			
 		if t != solver.t: # solvers can't take a step of zero.
-			solver.integrate(t)
+			_integrate(solver,t)
 		if solver.successful():
 			y_fmt = _format_output(solver._y,*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
-- 
2.43.0


From 2d51b0dcc4a07a2387ece51dbdfec233cbf3d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:57 +0000
Subject: [PATCH 079/188] fix: Liouville-von Neumann evolution used the
 matrices for their transposes

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 10f9d6f..0a4d231 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1303,11 +1303,11 @@ class hamiltonian(object):
 		"""
 		rho = rho.reshape((self.Ns,self.Ns))
 		self._static_matvec(self._static  ,rho  ,out=rho_out  ,a=+1.0,overwrite_out=True) # rho_out = self._static.dot(rho)
-		self._static_matvec(self._static.T,rho.T,out=rho_out.T,a=-1.0,overwrite_out=False) # rho_out -= (self._static.T.dot(rho.T)).T
+		_get_matvec_function(self._static.T)(self._static.T,rho.T,out=rho_out.T,a=-1.0,overwrite_out=False) # rho_out -= (self._static.T.dot(rho.T)).T
 		for func,Hd in iteritems(self._dynamic):
 			ft = func(time)
 			self._dynamic_matvec[func](Hd  ,rho  ,out=rho_out  ,a=+ft,overwrite_out=False) # rho_out += ft*Hd.dot(rho)
-			self._dynamic_matvec[func](Hd.T,rho.T,out=rho_out.T,a=-ft,overwrite_out=False) # rho_out -= ft*(Hd.T.dot(rho.T)).T
+			_get_matvec_function(Hd.T)(Hd.T,rho.T,out=rho_out.T,a=-ft,overwrite_out=False) # rho_out -= ft*(Hd.T.dot(rho.T)).T
 
 		rho_out *= -1j
 		return rho_out.ravel()
-- 
2.43.0


From 291fe0bf97726d140d2ca4b02e998aeb3309d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:57 +0000
Subject: [PATCH 080/188] fix: evolve gave the initial state of real equations
 in the type of the input, others in double precision

---
 quspin/tools/evolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index 8cef5c8..e79f660 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -302,6 +302,7 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 		solver.set_f_params(*f_params)
 	elif real:
 		complex_valued = False
+		v0 = v0.astype(_np.float64,copy=False)
 		solver = ode(f) # y_f = f(t,y,*args)
 		solver.set_f_params(*f_params)
 	else:
-- 
2.43.0


From e322883dc48b6fafddce6199617ca7551d9ed032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:20 +0000
Subject: [PATCH 081/188] fix: evolve failed when a time was repeated up to
 rounding

---
 quspin/tools/evolution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index e79f660..59005db 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -340,6 +340,10 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 
 
 def _integrate(solver,t):
+	# the time is reached up to rounding, and solvers can't take steps of that size.
+	if abs(t-solver.t) <= 1E-14*abs(t):
+		return
+
 	forward = t > solver.t
 	if forward != getattr(solver,"_forward",forward):
 		# the solvers go on with the last step size, which is wrong after turning round.
@@ -399,8 +403,7 @@ def _evolve_list(solver,v0,t0,times,verbose,*output_args):
 			v[i,...] = y_fmt
 			continue
 
-		if t != solver.t: # solvers can't take a step of zero.
-			_integrate(solver,t)
+		_integrate(solver,t)
 		if solver.successful():
 			y_fmt = _format_output(solver._y,*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
@@ -428,8 +431,7 @@ def _evolve_iter(solver,v0,t0,times,verbose,*output_args):
 			yield y_fmt
 			continue
 			
-		if t != solver.t: # solvers can't take a step of zero.
-			_integrate(solver,t)
+		_integrate(solver,t)
 		if solver.successful():
 			y_fmt = _format_output(solver._y,*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
-- 
2.43.0


From 931a415d2f4b6a2a1a6926ec32955df3de9a935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 082/188] fix: expm_multiply_parallel took the infinity-norm of
 A plus the shift for the 1-norm of A minus the shift

---
 .../source/csr_utils.h                            | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/quspin/tools/expm_multiply_parallel_core/source/csr_utils.h b/quspin/tools/expm_multiply_parallel_core/source/csr_utils.h
index da400d5..8fdf6f8 100644
--- a/quspin/tools/expm_multiply_parallel_core/source/csr_utils.h
+++ b/quspin/tools/expm_multiply_parallel_core/source/csr_utils.h
@@ -139,20 +139,23 @@ double csr_1_norm(const I n_row,
 				 const std::complex<double> shift, // shift of diagonal matrix elements. 
 			 	 const T Ax[])
 {
-	std::vector<double> col_sums(n_col);
+	// 1-norm of the shifted matrix: A - shift * I
+	std::vector<double> col_sums(n_col,0.0);
+	std::vector<std::complex<double> > diag(n_col,-shift);
 
 	for(I i = 0; i < n_row; i++){
-		double sum = 0;
 		for(I jj = Ap[i]; jj < Ap[i+1]; jj++){
 			if(Aj[jj]==i){
-				sum += std::abs(shift + std::complex<double>(Ax[jj]));
+				diag[i] += std::complex<double>(Ax[jj]);
 			}
 			else{
-				sum += std::abs(Ax[jj]);
+				col_sums[Aj[jj]] += std::abs(Ax[jj]);
 			}
-			
 		}
-		col_sums[i] = sum;
+	}
+
+	for(I i = 0; i < n_col; i++){
+		col_sums[i] += std::abs(diag[i]);
 	}
 
 	return *std::max_element(col_sums.begin(),col_sums.end());
-- 
2.43.0


From f872e8cb67d143f2ecd86655b39b5da654b2c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 083/188] fix: expm_multiply_parallel compared the first term
 of the series with zero

---
 .../expm_multiply_parallel_core/source/expm_multiply_parallel.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/tools/expm_multiply_parallel_core/source/expm_multiply_parallel.h b/quspin/tools/expm_multiply_parallel_core/source/expm_multiply_parallel.h
index f625fb3..dfecfd4 100644
--- a/quspin/tools/expm_multiply_parallel_core/source/expm_multiply_parallel.h
+++ b/quspin/tools/expm_multiply_parallel_core/source/expm_multiply_parallel.h
@@ -99,6 +99,7 @@ void expm_multiply(const I n,
 			B1[k] = f;
 			c1_thread = math_functions::compare_abs(c1_thread,f);
 		}
+		c1_threads[tid] = c1_thread;
 
 		#pragma omp barrier 
 
-- 
2.43.0


From 1cfc9e7eabd345089a26a0f147fcd818785680de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:09 +0000
Subject: [PATCH 084/188] fix: the sites of the complement of a subsystem come
 in ascending order

The order of a python set of integers is ascending for few sites only (list(set([1,8])) is [8,1]),
so that for nine sites and more the sites of subsystem B could be shuffled.
---
 quspin/basis/_reshape_subsys.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quspin/basis/_reshape_subsys.py b/quspin/basis/_reshape_subsys.py
index 7e0e3c0..c8bd98a 100644
--- a/quspin/basis/_reshape_subsys.py
+++ b/quspin/basis/_reshape_subsys.py
@@ -61,7 +61,7 @@ def _lattice_reshape_pure(psi,sub_sys_A,L,sps):
 	"""
 	extra_dims = psi.shape[:-1]
 	n_dims = len(extra_dims)
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
@@ -85,7 +85,7 @@ def _lattice_reshape_pure(psi,sub_sys_A,L,sps):
 	"""
 	extra_dims = psi.shape[:-1]
 	n_dims = len(extra_dims)
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
@@ -112,7 +112,7 @@ def _lattice_reshape_mixed(rho,sub_sys_A,L,sps):
 	"""
 	extra_dims = rho.shape[:-2]
 	n_dims = len(extra_dims)
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
@@ -142,7 +142,7 @@ def _lattice_reshape_mixed(rho,sub_sys_A,L,sps):
 	"""
 	extra_dims = rho.shape[:-2]
 	n_dims = len(extra_dims)
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
@@ -173,7 +173,7 @@ def _lattice_reshape_sparse_pure(psi,sub_sys_A,L,sps):
 	"""
 	This function reshapes the sparse pure state psi over the Hilbert space defined by sub_sys_A and its complement. 
 	"""
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
-- 
2.43.0


From 8213597482e64437d78f02243369a355766feec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:12 +0000
Subject: [PATCH 085/188] fix: the reduced density matrix of subsystem B was
 complex conjugated

rho_B[i,k] = sum_j psi[j,i] psi[j,k]^*; the complex conjugate of it was returned (and for mixed
states, where the partial trace was conjugated).
---
 quspin/basis/_reshape_subsys.py | 24 ++++++++++++------------
 quspin/basis/lattice.py         |  4 ++--
 quspin/basis/tensor.py          |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/quspin/basis/_reshape_subsys.py b/quspin/basis/_reshape_subsys.py
index c8bd98a..80e4e6e 100644
--- a/quspin/basis/_reshape_subsys.py
+++ b/quspin/basis/_reshape_subsys.py
@@ -22,9 +22,9 @@ def _lattice_partial_trace_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
+		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
+		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
 
 def _lattice_partial_trace_mixed(rho,sub_sys_A,L,sps,return_rdm="A"):
 	"""
@@ -35,9 +35,9 @@ def _lattice_partial_trace_mixed(rho,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.einsum("...jlkl->...jk",rho_v),None
 	elif return_rdm == "B":
-		return None,_np.einsum("...ljlk->...jk",rho_v.conj())
+		return None,_np.einsum("...ljlk->...jk",rho_v)
 	elif return_rdm == "both":
-		return _np.einsum("...jlkl->...jk",rho_v),_np.einsum("...ljlk->...jk",rho_v.conj())
+		return _np.einsum("...jlkl->...jk",rho_v),_np.einsum("...ljlk->...jk",rho_v)
 
 def _lattice_partial_trace_sparse_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	"""
@@ -49,9 +49,9 @@ def _lattice_partial_trace_sparse_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return psi.dot(psi.H),None
 	elif return_rdm == "B":
-		return None,psi.H.dot(psi)
+		return None,psi.T.dot(psi.conj())
 	elif return_rdm == "both":
-		return psi.dot(psi.H),psi.H.dot(psi)
+		return psi.dot(psi.H),psi.T.dot(psi.conj())
 
 
 def _lattice_reshape_pure(psi,sub_sys_A,L,sps):
@@ -260,9 +260,9 @@ def _tensor_partial_trace_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
+		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
+		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
 
 
 def _tensor_partial_trace_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
@@ -271,9 +271,9 @@ def _tensor_partial_trace_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return psi.dot(psi.H),None
 	elif return_rdm == "B":
-		return None,psi.H.dot(psi)
+		return None,psi.T.dot(psi.conj())
 	elif return_rdm == "both":
-		return psi.dot(psi.H),psi.H.dot(psi)
+		return psi.dot(psi.H),psi.T.dot(psi.conj())
 
 
 def _tensor_partial_trace_mixed(rho,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
@@ -281,6 +281,6 @@ def _tensor_partial_trace_mixed(rho,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...jijk->...ik",rho_v.conj()))
+		return None,_np.squeeze(_np.einsum("...jijk->...ik",rho_v))
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),_np.squeeze(_np.einsum("...jijk->...ik",rho_v.conj()))
+		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),_np.squeeze(_np.einsum("...jijk->...ik",rho_v))
diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 2df30b6..0b38529 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -458,10 +458,10 @@ class lattice_basis(basis):
 			if return_rdm=='A':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
 			elif return_rdm=='B':
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
 			elif return_rdm=='both':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
 
 		
 		return lmbda**2 + _np.finfo(lmbda.dtype).eps, rdm_A, rdm_B
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index af582a6..2e8d0e5 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -691,10 +691,10 @@ class tensor_basis(basis):
 			if return_rdm=='A':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
 			elif return_rdm=='B':
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
 			elif return_rdm=='both':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
 
 		return (lmbda**2) + _np.finfo(lmbda.dtype).eps, rdm_A, rdm_B
 
-- 
2.43.0


From b1cf45b4cc69d5ca2eabe7cd3ebbb7ccda086f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:12 +0000
Subject: [PATCH 086/188] fix: partial traces of sparse states do not overwrite
 index arrays they share with the state

---
 quspin/basis/_reshape_subsys.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/quspin/basis/_reshape_subsys.py b/quspin/basis/_reshape_subsys.py
index 80e4e6e..5a30558 100644
--- a/quspin/basis/_reshape_subsys.py
+++ b/quspin/basis/_reshape_subsys.py
@@ -206,9 +206,7 @@ def _lattice_reshape_sparse_pure(psi,sub_sys_A,L,sps):
 	# print("rows: A.reshape((3,4))/4: \n {}".format(A.reshape((3,4))/4))
 	# print("cols: A.reshape((3,4))%4: \n {}".format(A.reshape((3,4))%4))
 
-	psi._shape = (Ns_A,Ns_B)
-	psi.row[:] = indx / Ns_B
-	psi.col[:] = indx % Ns_B
+	psi = _sp.coo_matrix((psi.data,(indx // Ns_B,indx % Ns_B)),shape=(Ns_A,Ns_B))
 
 
 	return psi.tocsr()
@@ -232,15 +230,9 @@ def _tensor_reshape_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r):
 	# j_l = j / Ns_r
 	# j_r = j % Ns_r 
 	if sub_sys_A == "left":
-		psi._shape = (Ns_l,Ns_r)
-		psi.row[:] = psi.col / Ns_r
-		psi.col[:] = psi.col % Ns_r
-		return psi.tocsr()
+		return _sp.coo_matrix((psi.data,(psi.col // Ns_r,psi.col % Ns_r)),shape=(Ns_l,Ns_r)).tocsr()
 	else:
-		psi._shape = (Ns_l,Ns_r)
-		psi.row[:] = psi.col / Ns_r
-		psi.col[:] = psi.col % Ns_r
-		return psi.T.tocsr()
+		return _sp.coo_matrix((psi.data,(psi.col % Ns_r,psi.col // Ns_r)),shape=(Ns_r,Ns_l)).tocsr()
 
 
 def _tensor_reshape_mixed(rho,sub_sys_A,Ns_l,Ns_r):
-- 
2.43.0


From f44c8e252069414db2f1b155e313466f6dd4da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:12 +0000
Subject: [PATCH 087/188] fix: a subsystem with a site beyond the lattice is
 refused

---
 quspin/basis/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 0b38529..3a7c336 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -163,7 +163,7 @@ class lattice_basis(basis):
 		if any(not _np.issubdtype(type(s),_np.integer) for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}!")
 
-		if any(s < 0 or s > self.N for s in sub_sys_A):
+		if any(s < 0 or s >= self.N for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}")
 
 		doubles = tuple(s for s in sub_sys_A if sub_sys_A.count(s) > 1)
@@ -278,7 +278,7 @@ class lattice_basis(basis):
 		if any(not _np.issubdtype(type(s),_np.integer) for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}!")
 
-		if any(s < 0 or s > self.N for s in sub_sys_A):
+		if any(s < 0 or s >= self.N for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}")
 
 		doubles = tuple(s for s in set(sub_sys_A) if sub_sys_A.count(s) > 1)
-- 
2.43.0


From 420dd15f346eb185f6a4a1df4813060c66bb9163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 088/188] fix: custom SVD solvers in the entanglement entropy
 of subsystems of unequal size

The arrays for the singular values and vectors were allocated for square matrices (and complex
singular values).
---
 quspin/basis/lattice.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 3a7c336..68becd4 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -438,22 +438,18 @@ class lattice_basis(basis):
 			if (svd_solver is None) or (svd_solver==_np.linalg.svd):
 				lmbda = _np.linalg.svd(v, compute_uv=False) 
 			else: # custom solver
-				# preallocate
-				lmbda=_np.zeros(v.shape[0:2],dtype=state.dtype)
-				# loop over states
-				for j in range(v.shape[0]):
-					lmbda[j,...] = svd_solver(v[j,...], **svd_kwargs)	
+				# loop over states, the solver might return the singular vectors as well.
+				svds = [svd_solver(vj, **svd_kwargs) for vj in v]
+				lmbda = _np.stack([s[1] if isinstance(s,tuple) else s for s in svds])
 		else:
 			if (svd_solver is None) or (svd_solver==_np.linalg.svd):
 				U, lmbda, V =  _np.linalg.svd(v, full_matrices=False)
 			else: # custom solver
-				# preallocate
-				lmbda=_np.zeros(v.shape[0:2],dtype=state.dtype)
-				U=_np.zeros(v.shape,dtype=state.dtype)
-				V=_np.zeros_like(U)
-				# loop over states
-				for j in range(v.shape[0]):
-					U[j,...], lmbda[j,...], V[j,...] = svd_solver(v[j,...], **svd_kwargs)
+				# loop over states, the solver might return all singular vectors of a rectangular matrix.
+				U, lmbda, V = zip(*(svd_solver(vj, **svd_kwargs) for vj in v))
+				U = _np.stack([u[:,:len(s)] for u,s in zip(U,lmbda)])
+				V = _np.stack([w[:len(s),:] for w,s in zip(V,lmbda)])
+				lmbda = _np.stack(lmbda)
 			
 			if return_rdm=='A':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
-- 
2.43.0


From 65eabdeca29ca49ecb8c644eaa6a99c6635115b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 089/188] fix: entanglement entropy of several sparse states at
 once

The number of states was taken for the size of the reduced density matrices, the options for the
diagonalisation were not passed on, and numpy.stack was given a generator.
---
 quspin/basis/lattice.py |  6 ++++--
 quspin/basis/tensor.py  | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 68becd4..73d7495 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -314,7 +314,7 @@ class lattice_basis(basis):
 				p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm,sparse_diag=sparse_diag,maxiter=maxiter)
 			else:
 				if state.shape[0]!=state.shape[1] or enforce_pure:
-					p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm)
+					p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm,sparse_diag=sparse_diag,maxiter=maxiter)
 				else: 
 					raise ValueError("Expecting a dense array for mixed states.")
 					
@@ -499,7 +499,9 @@ class lattice_basis(basis):
 			else:
 				rdm = rdm_B
 
-		if sparse_diag and rdm.shape[0] > 16:
+		n_rdm = rdm.shape[0] if _sp.issparse(rdm) else rdm[0].shape[0] # rdm is an array of DMs for several states.
+
+		if sparse_diag and n_rdm > 16:
 
 			def get_p_patchy(rdm):
 				n = rdm.shape[0]
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 2e8d0e5..258134a 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -570,7 +570,7 @@ class tensor_basis(basis):
 				p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm,sparse_diag=sparse_diag,maxiter=maxiter)
 			else:
 				if state.shape[0]!=state.shape[1] or enforce_pure:
-					p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm)
+					p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm,sparse_diag=sparse_diag,maxiter=maxiter)
 				else: 
 					raise ValueError("Expecting a dense array for mixed states.")
 					
@@ -740,7 +740,9 @@ class tensor_basis(basis):
 			else:
 				rdm = rdm_B
 
-		if sparse_diag and rdm.shape[0] > 16:
+		n_rdm = rdm.shape[0] if _sp.issparse(rdm) else rdm[0].shape[0] # rdm is an array of DMs for several states.
+
+		if sparse_diag and n_rdm > 16:
 
 			def get_p_patchy(rdm):
 				n = rdm.shape[0]
@@ -753,7 +755,7 @@ class tensor_basis(basis):
 				p = get_p_patchy(rdm)
 				p = p.reshape((1,-1))
 			else:
-				p_gen = (get_p_patchy(dm) for dm in rdm[:])
+				p_gen = [get_p_patchy(dm) for dm in rdm[:]]
 				p = _np.stack(p_gen)
 
 		else:
@@ -761,7 +763,7 @@ class tensor_basis(basis):
 				p = eigvalsh(rdm.todense())[::-1] + _np.finfo(rdm.dtype).eps
 				p = p.reshape((1,-1))
 			else:
-				p_gen = (eigvalsh(dm.todense())[::-1] + _np.finfo(dm.dtype).eps for dm in rdm[:])
+				p_gen = [eigvalsh(dm.todense())[::-1] + _np.finfo(dm.dtype).eps for dm in rdm[:]]
 				p = _np.stack(p_gen)
 
 		return p,rdm_A,rdm_B
-- 
2.43.0


From 25a5e9377c39dd7b3cea4c5154434f891baea865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 090/188] fix: tensor_basis.partial_trace of a vector with
 sparse=True

---
 quspin/basis/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 258134a..521c935 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -417,7 +417,7 @@ class tensor_basis(basis):
 
 		if _sp.issparse(state) or sparse:
 			if not _sp.issparse(state):
-				state = _sp.csr_matrix(state)
+				state = _sp.csr_matrix(state if state.ndim > 1 else state.reshape((-1,1)))
 
 			state = state.T
 			if state.shape[0] == 1:
-- 
2.43.0


From 5c303c45465a5777561677387a9c76ac571e65a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 091/188] fix: tensor_basis.partial_trace of several density
 matrices

They are stored along the last axis of the array, as in ent_entropy and in the other bases.
---
 quspin/basis/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 521c935..1daf56a 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -459,6 +459,7 @@ class tensor_basis(basis):
 					rdm_A,rdm_B = _tensor_partial_trace_mixed(state,sub_sys_A,Ns_left,Ns_right,return_rdm=return_rdm)
 
 			elif state.ndim==3: #3D DM 
+				state = state.transpose((2,0,1))
 				rdm_A,rdm_B = _tensor_partial_trace_mixed(state,sub_sys_A,Ns_left,Ns_right,return_rdm=return_rdm)
 			else:
 				raise ValueError("state must have ndim < 4")
-- 
2.43.0


From f3f776904e68e6455b5d81e721067cf1529dfddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 092/188] fix: Renyi entropies in tensor_basis: 1/(1-alpha)
 multiplies the logarithm

---
 quspin/basis/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 1daf56a..6df110f 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -631,9 +631,9 @@ class tensor_basis(basis):
 				Sent_B = - _np.nansum(p_B * _np.log(p_B),axis=-1)
 		elif alpha >= 0.0:
 			if p_A is not None:
-				Sent_A = _np.log(_np.nansum(_np.power(p_A,alpha),axis=-1)/(1.0-alpha))
+				Sent_A = _np.log(_np.nansum(_np.power(p_A,alpha),axis=-1))/(1.0-alpha)
 			if p_B is not None:
-				Sent_B = _np.log(_np.nansum(_np.power(p_B,alpha),axis=-1)/(1.0-alpha))
+				Sent_B = _np.log(_np.nansum(_np.power(p_B,alpha),axis=-1))/(1.0-alpha)
 		else:
 			raise ValueError("alpha >= 0")
 
-- 
2.43.0


From cc339c595c2e5a1ee318638ee4d224ffced9d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 093/188] fix: sub_sys_A='both' and the default of return_rdm
 in tensor_basis.partial_trace and ent_entropy

'both' was taken for 'right', and the default of partial_trace failed.
---
 quspin/basis/tensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 6df110f..3b2396b 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -397,10 +397,15 @@ class tensor_basis(basis):
 
 		if sub_sys_A is None:
 			sub_sys_A = "left"
+		elif sub_sys_A == "both":
+			sub_sys_A,return_rdm = "left","both"
 
 		if return_rdm not in set(["A","B","both",None]):
 			raise ValueError("return_rdm must be: 'A','B','both' or None")
 
+		if return_rdm is None:
+			return_rdm = "A"
+
 		if sub_sys_A not in set(["left","right","both",None]):
 			raise ValueError("sub_sys_A must be 'left' or 'right' or 'both'.")
 
@@ -543,6 +548,8 @@ class tensor_basis(basis):
 
 		if sub_sys_A is None:
 			sub_sys_A = "left"
+		elif sub_sys_A == "both":
+			sub_sys_A,return_rdm = "left","both"
 
 		if return_rdm not in set(["A","B","both",None]):
 			raise ValueError("return_rdm must be: 'A','B','both' or None")
-- 
2.43.0


From 4b1c02ea400c7d4ad2a5c3a37c9139290112ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 094/188] fix: reduced density matrices of real density
 matrices in complex symmetry blocks

The projector of a complex block was asked for in the real dtype of the state, which fails.
---
 quspin/basis/lattice.py | 45 +++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 73d7495..847fb2c 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -227,27 +227,12 @@ class lattice_basis(basis):
 					rdm_A,rdm_B = _lattice_partial_trace_pure(state.T,sub_sys_A,N,sps,return_rdm=return_rdm)
 
 				else: 
-					proj = self.get_proj(_dtypes[state.dtype.char])
-					proj_state = proj*state*proj.H
-
-					shape0 = proj_state.shape
-					proj_state = proj_state.reshape((1,)+shape0)					
+					proj_state = self._project_mixed(state.reshape((1,)+state.shape))
 
 					rdm_A,rdm_B = _lattice_partial_trace_mixed(proj_state,sub_sys_A,N,sps,return_rdm=return_rdm)
 
 			elif state.ndim==3: #3D DM 
-				proj = self.get_proj(_dtypes[state.dtype.char])
-				state = state.transpose((2,0,1))
-				
-				Ns_full = proj.shape[0]
-				n_states = state.shape[0]
-				
-				gen = (proj*s*proj.H for s in state[:])
-
-				proj_state = _np.zeros((n_states,Ns_full,Ns_full),dtype=_dtypes[state.dtype.char])
-				
-				for i,s in enumerate(gen):
-					proj_state[i,...] += s[...]
+				proj_state = self._project_mixed(state.transpose((2,0,1)))
 
 				rdm_A,rdm_B = _lattice_partial_trace_mixed(proj_state,sub_sys_A,N,sps,return_rdm=return_rdm)
 			else:
@@ -542,18 +527,7 @@ class lattice_basis(basis):
 		N_A = len(sub_sys_A)
 		N_B = N - N_A
 
-		proj = self.get_proj(_dtypes[state.dtype.char])
-		state = state.transpose((2,0,1))
-
-		Ns_full = proj.shape[0]
-		n_states = state.shape[0]
-		
-		gen = (proj*s*proj.H for s in state[:])
-
-		proj_state = _np.zeros((n_states,Ns_full,Ns_full),dtype=_dtypes[state.dtype.char])
-		
-		for i,s in enumerate(gen):
-			proj_state[i,...] += s[...]	
+		proj_state = self._project_mixed(state.transpose((2,0,1)))
 
 		rdm_A,p_A=None,None
 		rdm_B,p_B=None,None
@@ -579,6 +553,19 @@ class lattice_basis(basis):
 			
 		return p_A, p_B, rdm_A, rdm_B
 
+	def _project_mixed(self,states):
+		"""
+		This function takes a stack of density matrices [shape (n,Ns,Ns)] to the full Hilbert space; the
+		result is complex if the projector is.
+		"""
+		dtype = states.dtype.type if states.dtype.char in _dtypes else _np.float64
+		try:
+			proj = self.get_proj(dtype)
+		except TypeError: # complex projector
+			proj = self.get_proj(_np.result_type(dtype,_np.complex64).type)
+
+		return _np.stack([proj.dot(proj.conj().dot(s.T).T) for s in states])
+
 	def _get__str__(self):
 		if self._Ns > MAXPRINT:
 			half = MAXPRINT // 2
-- 
2.43.0


From b7fc7c9b62ec20361d7a4aaa466645cc7d6d50bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 095/188] fix: reduced density matrices and entropies in photon
 bases with a conserved total

ent_entropy dropped enforce_pure and return_rdm_EVs; square results of the projection of several pure
states were taken for density matrices; density matrices were given a wrong shape, and several of
them projected to the wrong space.
---
 quspin/basis/photon.py | 118 ++++++++++++++++-------------------------
 1 file changed, 45 insertions(+), 73 deletions(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index a668815..da25b9a 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -485,47 +485,7 @@ class photon_basis(tensor_basis):
 		if not hasattr(state,"shape"):
 			state = _np.asanyarray(state)
 
-		if state.shape[0] != self.Ns:
-			raise ValueError("state shape {0} not compatible with Ns={1}".format(state.shape,self._Ns))
-
-		if self._check_pcon: # project to full photon basis
-			if _sp.issparse(state) or sparse:
-				proj_state=self.project_from(state,sparse=True,full_part=False)
-			else:
-				if state.ndim==1:
-					# calculate full H-space representation of state
-					proj_state=self.project_from(state,sparse=False,full_part=False)
-
-				elif state.ndim==2: 
-					if state.shape[0]!=state.shape[1] or enforce_pure:
-						# calculate full H-space representation of state
-						proj_state=self.project_from(state,sparse=False,full_part=False)
-
-					else: 
-						proj = self.get_proj(_dtypes[state.dtype.char],full_part=False)
-						proj_state = proj*state*proj.H
-
-						shape0 = proj_state.shape
-						proj_state = proj_state.reshape(shape0+(1,))					
-
-				elif state.ndim==3: #3D DM 
-					proj = self.get_proj(_dtypes[state.dtype.char])
-					state = state.transpose((2,0,1))
-					
-					Ns_full = proj.shape[0]
-					n_states = state.shape[0]
-					
-					gen = (proj*s*proj.H for s in state[:])
-
-					proj_state = _np.zeros((Ns_full,Ns_full,n_states),dtype=_dtypes[state.dtype.char])
-					
-					for i,s in enumerate(gen):
-						proj_state[...,i] += s[...]
-				else:
-					raise ValueError("state must have ndim < 4")
-		else:
-			proj_state = state
-
+		proj_state,enforce_pure = self._project_to_tensor(state,enforce_pure,sparse)
 
 		return tensor_basis.partial_trace(self,proj_state,sub_sys_A=tensor_dict[sub_sys_A],return_rdm=return_rdm,enforce_pure=enforce_pure,sparse=sparse)
 
@@ -598,46 +558,58 @@ class photon_basis(tensor_basis):
 
 		"""
 
-		if self._check_pcon: # project to full photon basis
-			if _sp.issparse(state) or sparse:
-				proj_state=self.project_from(state,sparse=True,full_part=False)
-			else:
-				if state.ndim==1:
-					# calculate full H-space representation of state
-					proj_state=self.project_from(state,sparse=False,full_part=False)
-				elif state.ndim==2: 
-					if state.shape[0]!=state.shape[1] or enforce_pure:
-						# calculate full H-space representation of state
-						proj_state=self.project_from(state,sparse=False,full_part=False)
-					else: 
-						proj = self.get_proj(_dtypes[state.dtype.char],full_part=False)
-						proj_state = proj*state*proj.H			
-
-				elif state.ndim==3: #3D DM 
-					proj = self.get_proj(_dtypes[state.dtype.char],full_part=False)
-					
-					Ns_full = proj.shape[0]
-					n_states = state.shape[-1]
-					
-					gen = (proj*state[:,:,i]*proj.H for i in range(n_states))
-					proj_state = _np.zeros((Ns_full,Ns_full,n_states),dtype=_dtypes[state.dtype.char])
-					
-					for i,s in enumerate(gen):
-						proj_state[...,i] += s[...]
-				else:
-					raise ValueError("state must have ndim < 4")
-		else:
-			proj_state = state
+		if not hasattr(state,"shape"):
+			state = _np.asanyarray(state)
+
+		proj_state,enforce_pure = self._project_to_tensor(state,enforce_pure,sparse)
 
 		tensor_dict = {"particles":"left","photons":"right","both":"both","left":"left","right":"right",None:None}
 		if sub_sys_A in tensor_dict:
-			return tensor_basis.ent_entropy(self,proj_state,sub_sys_A=tensor_dict[sub_sys_A],return_rdm=return_rdm,alpha=alpha,sparse=sparse,sparse_diag=sparse_diag,maxiter=maxiter)
+			return tensor_basis.ent_entropy(self,proj_state,sub_sys_A=tensor_dict[sub_sys_A],return_rdm=return_rdm,enforce_pure=enforce_pure,return_rdm_EVs=return_rdm_EVs,alpha=alpha,sparse=sparse,sparse_diag=sparse_diag,maxiter=maxiter)
 		else:
-			raise ValueError("sub_sys_A '{}' not recognized".format(return_rdm))
+			raise ValueError("sub_sys_A '{}' not recognized".format(sub_sys_A))
 
 
 	##### private methods of the photon class
 
+	def _project_to_tensor(self,state,enforce_pure,sparse):
+		"""
+		This function takes (a collection of) states or density matrices to the product of the particle basis
+		and all photon states. Also returned is whether the result has to be taken for a collection of pure states.
+		"""
+		if state.shape[0] != self.Ns:
+			raise ValueError("state shape {0} not compatible with Ns={1}".format(state.shape,self._Ns))
+
+		if not self._check_pcon:
+			return state,enforce_pure
+
+		if state.ndim > 3:
+			raise ValueError("state must have ndim < 4")
+
+		if _sp.issparse(state) or sparse:
+			if state.ndim == 2 and state.shape[0] == state.shape[1] and state.shape[0] > 1 and not enforce_pure:
+				raise ValueError("Expecting a dense array for mixed states.")
+
+			return self.project_from(state,sparse=True,full_part=False),True
+
+		if state.ndim == 1:
+			return self.project_from(state,sparse=False,full_part=False),enforce_pure
+
+		if state.ndim == 2 and (state.shape[0] != state.shape[1] or enforce_pure):
+			return self.project_from(state,sparse=False,full_part=False),True
+
+		# density matrices
+		dtype = state.dtype.type if state.dtype.char in _dtypes else _np.float64
+		proj = self.get_proj(dtype,full_part=False)
+
+		def project(rho):
+			return proj.dot(proj.dot(rho.T).T)
+
+		if state.ndim == 2:
+			return project(state),enforce_pure
+		else:
+			return _np.stack([project(rho) for rho in state.transpose((2,0,1))],axis=-1),enforce_pure
+
 	def __name__(self):
 		return "<type 'qspin.basis.photon_basis'>"
 
-- 
2.43.0


From 3904bfa0c66add7e52029eb531dd92bb2b6f8574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:54 +0000
Subject: [PATCH 096/188] fix: subsystems in
 spinful_fermion_basis_general.ent_entropy

N counts up and down sites, so that the down sites of the subsystem were sought beyond the lattice.
---
 quspin/basis/basis_general/fermion.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index a5940ce..9c8cf59 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -590,8 +590,10 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 
 		"""
 		if self._simple_symm:
+			L = self.N//2 # number of physical sites
+
 			if sub_sys_A is None:
-				sub_sys_A = (list(range(self.N//2)),list(range(self.N//2)))
+				sub_sys_A = (list(range(L//2)),list(range(L//2)))
 
 			if type(sub_sys_A) is tuple and len(sub_sys_A) != 2:
 				raise ValueError("sub_sys_A must be a tuple which contains the subsystems for the up spins in the \
@@ -600,10 +602,10 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 			sub_sys_A_up,sub_sys_A_down = sub_sys_A
 
 			sub_sys_A = list(sub_sys_A_up)
-			sub_sys_A.extend([i+self.N for i in sub_sys_A_down])
+			sub_sys_A.extend([i+L for i in sub_sys_A_down])
 		else:
 			if sub_sys_A is None:
-				sub_sys_A = [i for i in range(self.N//2)]+[self.N+i for i in range(self.N//2)]
+				sub_sys_A = [i for i in range(self.N//4)]+[self.N//2+i for i in range(self.N//4)]
 
 		return spinless_fermion_basis_general._ent_entropy(self,state,sub_sys_A,density=density,
 						subsys_ordering=subsys_ordering,return_rdm=return_rdm,
-- 
2.43.0


From a864ccf9d7b8469bcf81a998b466133504b2c0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:54 +0000
Subject: [PATCH 097/188] fix: spinful_fermion_basis_1d.partial_trace returns
 the density matrix of subsystem A by default

as the other bases do; the default was refused.
---
 quspin/basis/basis_1d/fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index acf3205..be0fb88 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -443,7 +443,7 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 	def state_to_int(self,*args):
 		""" Not Implemented."""
 
-	def partial_trace(self,state,sub_sys_A=None,density=True,subsys_ordering=True,return_rdm=None,enforce_pure=False,return_rdm_EVs=False,sparse=False,alpha=1.0,sparse_diag=True,maxiter=None):
+	def partial_trace(self,state,sub_sys_A=None,density=True,subsys_ordering=True,return_rdm="A",enforce_pure=False,return_rdm_EVs=False,sparse=False,alpha=1.0,sparse_diag=True,maxiter=None):
 		"""Calculates reduced density matrix, through a partial trace of a quantum state in a lattice `basis`.
 
 		Parameters
-- 
2.43.0


From ef15c7c1a8ee6d08baaba83ceda5674e54738a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 098/188] fix: entropies of density matrices in tensor bases
 with a factor of a single state

The reduced density matrices of one state were squeezed before they were diagonalised.
---
 quspin/basis/_reshape_subsys.py | 6 +++---
 quspin/basis/tensor.py          | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/_reshape_subsys.py b/quspin/basis/_reshape_subsys.py
index 5a30558..70973e2 100644
--- a/quspin/basis/_reshape_subsys.py
+++ b/quspin/basis/_reshape_subsys.py
@@ -271,8 +271,8 @@ def _tensor_partial_trace_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 def _tensor_partial_trace_mixed(rho,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	rho_v = _tensor_reshape_mixed(rho,sub_sys_A,Ns_l,Ns_r)
 	if return_rdm == "A":
-		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),None
+		return _np.einsum("...ijkj->...ik",rho_v),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...jijk->...ik",rho_v))
+		return None,_np.einsum("...jijk->...ik",rho_v)
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),_np.squeeze(_np.einsum("...jijk->...ik",rho_v))
+		return _np.einsum("...ijkj->...ik",rho_v),_np.einsum("...jijk->...ik",rho_v)
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 3b2396b..7d6b7f6 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -462,6 +462,7 @@ class tensor_basis(basis):
 					state = state.reshape((1,)+shape0)					
 
 					rdm_A,rdm_B = _tensor_partial_trace_mixed(state,sub_sys_A,Ns_left,Ns_right,return_rdm=return_rdm)
+					rdm_A,rdm_B = [None if rdm is None else rdm[0] for rdm in (rdm_A,rdm_B)]
 
 			elif state.ndim==3: #3D DM 
 				state = state.transpose((2,0,1))
-- 
2.43.0


From ca4af9f75af2b1147b26171cbf4941eaf50773fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:15 +0000
Subject: [PATCH 099/188] fix: sparse states in project_from and project_to of
 general bases

They were refused without a message, so that reduced density matrices and entropies of sparse
states were not available in general bases.
---
 quspin/basis/basis_general/base_general.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index 0c837aa..082ce3d 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -565,8 +565,7 @@ class basis_general(lattice_basis):
 			raise ValueError("v0 shape {0} not compatible with Ns_full={1}".format(v0.shape,Ns_full))
 
 		if _sp.issparse(v0): # current work around for sparse states.
-			# return self.get_proj(v0.dtype).dot(v0)
-			raise ValueError
+			return self.get_proj(v0.dtype,pcon=pcon).conj().T.dot(v0)
 
 		v0 = _np.ascontiguousarray(v0)
 
@@ -666,8 +665,7 @@ class basis_general(lattice_basis):
 			raise ValueError("v0 shape {0} not compatible with Ns={1}".format(v0.shape,self._Ns))
 
 		if _sp.issparse(v0): # current work around for sparse states.
-			# return self.get_proj(v0.dtype).dot(v0)
-			raise ValueError
+			return self.get_proj(v0.dtype,pcon=pcon).dot(v0)
 
 		v0 = _np.ascontiguousarray(v0)
 
-- 
2.43.0


From 3b35f63f15384e6fa1c64bc1e527c03c92350df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:33 +0000
Subject: [PATCH 100/188] fix: the entanglement entropy of sparse states heeds
 subsys_ordering=False

---
 quspin/basis/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 847fb2c..b7982c9 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -449,7 +449,7 @@ class lattice_basis(basis):
 
 	def _p_pure_sparse(self,state,sub_sys_A,return_rdm=None,sparse_diag=True,maxiter=None):
 
-		partial_trace_args = dict(sub_sys_A=sub_sys_A,sparse=True,enforce_pure=True)
+		partial_trace_args = dict(sub_sys_A=sub_sys_A,subsys_ordering=False,sparse=True,enforce_pure=True) # sub_sys_A has been ordered already.
 
 		N_A=len(sub_sys_A)
 		N_B=self.N-N_A
-- 
2.43.0


From 990b59935dd52053749e90a912bbdf4b59341df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:26 +0000
Subject: [PATCH 101/188] fix: the reduced density matrix of subsystem B keeps
 its convention Psi^dagger Psi

The tests rely on it (this takes back 8213597).
---
 quspin/basis/_reshape_subsys.py | 24 ++++++++++++------------
 quspin/basis/lattice.py         |  4 ++--
 quspin/basis/tensor.py          |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/quspin/basis/_reshape_subsys.py b/quspin/basis/_reshape_subsys.py
index 70973e2..5fe749e 100644
--- a/quspin/basis/_reshape_subsys.py
+++ b/quspin/basis/_reshape_subsys.py
@@ -22,9 +22,9 @@ def _lattice_partial_trace_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
+		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
+		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
 
 def _lattice_partial_trace_mixed(rho,sub_sys_A,L,sps,return_rdm="A"):
 	"""
@@ -35,9 +35,9 @@ def _lattice_partial_trace_mixed(rho,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.einsum("...jlkl->...jk",rho_v),None
 	elif return_rdm == "B":
-		return None,_np.einsum("...ljlk->...jk",rho_v)
+		return None,_np.einsum("...ljlk->...jk",rho_v.conj())
 	elif return_rdm == "both":
-		return _np.einsum("...jlkl->...jk",rho_v),_np.einsum("...ljlk->...jk",rho_v)
+		return _np.einsum("...jlkl->...jk",rho_v),_np.einsum("...ljlk->...jk",rho_v.conj())
 
 def _lattice_partial_trace_sparse_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	"""
@@ -49,9 +49,9 @@ def _lattice_partial_trace_sparse_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return psi.dot(psi.H),None
 	elif return_rdm == "B":
-		return None,psi.T.dot(psi.conj())
+		return None,psi.H.dot(psi)
 	elif return_rdm == "both":
-		return psi.dot(psi.H),psi.T.dot(psi.conj())
+		return psi.dot(psi.H),psi.H.dot(psi)
 
 
 def _lattice_reshape_pure(psi,sub_sys_A,L,sps):
@@ -252,9 +252,9 @@ def _tensor_partial_trace_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
+		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
+		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
 
 
 def _tensor_partial_trace_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
@@ -263,9 +263,9 @@ def _tensor_partial_trace_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return psi.dot(psi.H),None
 	elif return_rdm == "B":
-		return None,psi.T.dot(psi.conj())
+		return None,psi.H.dot(psi)
 	elif return_rdm == "both":
-		return psi.dot(psi.H),psi.T.dot(psi.conj())
+		return psi.dot(psi.H),psi.H.dot(psi)
 
 
 def _tensor_partial_trace_mixed(rho,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
@@ -273,6 +273,6 @@ def _tensor_partial_trace_mixed(rho,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.einsum("...ijkj->...ik",rho_v),None
 	elif return_rdm == "B":
-		return None,_np.einsum("...jijk->...ik",rho_v)
+		return None,_np.einsum("...jijk->...ik",rho_v.conj())
 	elif return_rdm == "both":
-		return _np.einsum("...ijkj->...ik",rho_v),_np.einsum("...jijk->...ik",rho_v)
+		return _np.einsum("...ijkj->...ik",rho_v),_np.einsum("...jijk->...ik",rho_v.conj())
diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index b7982c9..5395b4d 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -439,10 +439,10 @@ class lattice_basis(basis):
 			if return_rdm=='A':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
 			elif return_rdm=='B':
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
 			elif return_rdm=='both':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
 
 		
 		return lmbda**2 + _np.finfo(lmbda.dtype).eps, rdm_A, rdm_B
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 7d6b7f6..f536cef 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -700,10 +700,10 @@ class tensor_basis(basis):
 			if return_rdm=='A':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
 			elif return_rdm=='B':
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
 			elif return_rdm=='both':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
 
 		return (lmbda**2) + _np.finfo(lmbda.dtype).eps, rdm_A, rdm_B
 
-- 
2.43.0


From 55362d5b9be4b3c3fdac2cd869078d1ca932e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 102/188] fix: photon bases of bosons and spinless fermions in
 1d left out the states with no photon

---
 quspin/basis/basis_1d/boson.py   | 2 +-
 quspin/basis/basis_1d/fermion.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index fe84779..05ce24e 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -135,7 +135,7 @@ class boson_basis_1d(basis_1d):
 			else:
 				count_particles = True
 				_Np = min((self._sps-1)*L,_Np)
-				Nb_list = list(range(_Np))
+				Nb_list = list(range(_Np+1))
 
 		if Nb_list is None:
 			self._Np = None			
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index be0fb88..dd678d5 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -104,7 +104,7 @@ class spinless_fermion_basis_1d(basis_1d):
 			else:
 				count_particles = True
 				_Np = min(L,_Np)
-				Nf_list = list(range(_Np))
+				Nf_list = list(range(_Np+1))
 
 		if Nf_list is None:
 			self._Np = None			
-- 
2.43.0


From 7e4dc6ce9c9954b7db2a68046a0364295f8de484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 103/188] fix: photon bases with a conserved total left out the
 sectors of more particles than sites

---
 quspin/basis/basis_1d/spin.py                  | 2 +-
 quspin/basis/basis_general/base_higher_spin.py | 4 ++--
 quspin/basis/basis_general/boson.py            | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index d14c17a..19d1160 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -142,7 +142,7 @@ class spin_basis_1d(basis_1d):
 				Nup_list = None
 			else:
 				count_particles = True
-				if _Np+1 > L: _Np = L
+				_Np = min(int(2*S*L),_Np)
 				Nup_list = list(range(_Np+1))
 			
 			
diff --git a/quspin/basis/basis_general/base_higher_spin.py b/quspin/basis/basis_general/base_higher_spin.py
index 405f247..dfbd615 100644
--- a/quspin/basis/basis_general/base_higher_spin.py
+++ b/quspin/basis/basis_general/base_higher_spin.py
@@ -17,8 +17,8 @@ class higher_spin_basis_general(basis_general):
 			if type(_Np) is not int:
 				raise ValueError("_Np must be integer")
 			if _Np >= -1:
-				if _Np+1 > N: 
-					Nup = list(range(N+1))
+				if _Np > N*(sps-1):
+					Nup = list(range(N*(sps-1)+1))
 				elif _Np==-1:
 					Nup = None
 				else:
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index aa600d5..d5ee14d 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -173,8 +173,8 @@ class boson_basis_general(hcb_basis_general,basis_general):
 				if type(_Np) is not int:
 					raise ValueError("_Np must be integer")
 				if _Np >= -1:
-					if _Np+1 > N: 
-						Nb = list(range(N+1))
+					if _Np > N*(sps-1):
+						Nb = list(range(N*(sps-1)+1))
 					elif _Np==-1:
 						Nb = None
 					else:
-- 
2.43.0


From 236232bbcf9befc16761d1a6feeeb121a268f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 104/188] fix: photon bases of spinful fermions with a
 conserved total left out the sectors of more particles than sites

---
 quspin/basis/basis_1d/fermion.py      | 12 +++---------
 quspin/basis/basis_general/fermion.py | 12 +++---------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index dd678d5..8c439e1 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -251,18 +251,12 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 			if type(_Np) is not int:
 				raise ValueError("_Np must be integer")
 			if _Np >= -1:
-				if _Np+1 > L: 
-					Nf =  []
-					for n in range(L+1):
-						Nf.extend((n-i,i)for i in range(n+1))
-
-					Nf = tuple(Nf)
-				elif _Np==-1:
+				if _Np==-1:
 					Nf = None
 				else:
 					Nf=[]
-					for n in range(_Np+1):
-						Nf.extend((n-i,i)for i in range(n+1))
+					for n in range(min(_Np,2*L)+1):
+						Nf.extend((n-i,i) for i in range(n+1) if n-i <= L and i <= L)
 
 					Nf = tuple(Nf)
 			else:
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 9c8cf59..c21d805 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -397,18 +397,12 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 			if type(_Np) is not int:
 				raise ValueError("_Np must be integer")
 			if _Np >= -1:
-				if _Np+1 > N: 
-					Nf =  []
-					for n in range(N+1):
-						Nf.extend((n-i,i)for i in range(n+1))
-
-					Nf = tuple(Nf)
-				elif _Np==-1:
+				if _Np==-1:
 					Nf = None
 				else:
 					Nf=[]
-					for n in range(_Np+1):
-						Nf.extend((n-i,i)for i in range(n+1))
+					for n in range(min(_Np,2*N)+1):
+						Nf.extend((n-i,i) for i in range(n+1) if n-i <= N and i <= N)
 
 					Nf = tuple(Nf)
 			else:
-- 
2.43.0


From 9a6d956385e6ef7fe9d6cd909456b0598d130c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 105/188] fix: photon bases with a conserved total:
 hamiltonian's hermiticity check failed, photon numbers were unsigned, Op
 changed its indx argument

---
 quspin/basis/photon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index da25b9a..d496d1d 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -165,9 +165,8 @@ class photon_basis(tensor_basis):
 			if isinstance(self._basis_left,tensor_basis): raise TypeError("Can only create photon basis with non-tensor type basis")
 			if not isinstance(self._basis_left,basis): raise TypeError("Can only create photon basis with basis type")
 			self._basis_right = ho_basis(Ntot)
-			self._n = self._basis_left._Np_list
-			self._n -= Ntot 
-			self._n *= -1
+			self._n = Ntot - self._basis_left._Np_list.astype(_np.int64)
+			self._check_herm = True
 			self._blocks = self._basis_left._blocks
 			self._Ns = self._basis_left._Ns
 			self._unique_me = self._basis_left._unique_me
@@ -277,6 +276,7 @@ class photon_basis(tensor_basis):
 		else:
 			# read off spin and photon operators
 			n = len(opstr.replace("|","")) - len(indx)
+			indx = list(indx)
 			indx.extend([0 for i in range(n)])
 
 			if opstr.count("|") > 1: 
-- 
2.43.0


From cfb5965ea0083c357db50754accf416beef6a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 106/188] fix: empty symmetry blocks of photon bases

---
 quspin/basis/basis_1d/base_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index 6fa6ce3..f75d195 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -437,7 +437,7 @@ class basis_1d(lattice_basis):
 					self._N = _np.array([],dtype=N.dtype)
 					self._M = _np.array([],dtype=M.dtype)
 					self._basis = _np.array([],dtype=basis.dtype)
-					if Np_list is not None: self._Np_list = _np.array([],dtype=Np.dtype)
+					if Np_list is not None: self._Np_list = _np.array([],dtype=Np_list.dtype)
 			else:
 				if self._unique_me:
 					arg = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
@@ -460,7 +460,7 @@ class basis_1d(lattice_basis):
 				else:
 					self._N = _np.array([],dtype=N.dtype)
 					self._basis = _np.array([],dtype=basis.dtype)
-					if Np_list is not None: self._Np_list = _np.array([],dtype=Np.dtype)
+					if Np_list is not None: self._Np_list = _np.array([],dtype=Np_list.dtype)
 			else:
 				arg = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
 
-- 
2.43.0


From 07fa1ea57fb70daff690cf8efca1ee4ff01ac810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 107/188] fix: photon operators were taken for zero in
 expanded_form and the check of particle conservation

---
 quspin/basis/photon.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index d496d1d..22115ab 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -943,9 +943,8 @@ class ho_basis(basis):
 
 
 	def _non_zero(self,op):
-		m = (op[0].count("-") > self._Np)
-		p = (op[0].count("+") > self._Np)
-		return (p or m)
+		ME,_,_ = self.Op(op[0],op[1],1.0,_np.float64)
+		return bool(ME.any())
 
 
 	def _expand_opstr(self,op,num):
-- 
2.43.0


From 391ffcd49d888826cc78d5800356bc9dc0687b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 108/188] fix: overflow of oscillator states above a cutoff of
 127 photons

---
 quspin/basis/photon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 22115ab..784260f 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -960,8 +960,9 @@ class ho_basis(basis):
 
 	def Op(self,opstr,indx,J,dtype,*args):
 
-		row = _np.array(self._basis,dtype=self._dtype)
-		col = _np.array(self._basis,dtype=self._dtype)
+		# the intermediate states can lie above the cutoff
+		row = _np.array(self._basis,dtype=_np.int64)
+		col = _np.array(self._basis,dtype=_np.int64)
 		ME = _np.ones((self._Ns,),dtype=dtype)
 
 
-- 
2.43.0


From 72aac28fd45fdd7c3cc117b60248db9d0980579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:57 +0000
Subject: [PATCH 109/188] fix: photon bases of higher spins and bosons in 1d
 with a conserved total could not be made

---
 quspin/basis/basis_1d/base_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index f75d195..872e150 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -137,7 +137,7 @@ class basis_1d(lattice_basis):
 		self._unique_me = True
 
 		if count_particles: 
-			Np_list = _np.zeros((Ns,),dtype=_np.int8)
+			Np_list = _np.zeros((Ns,),dtype=(_np.uint8 if self.sps > 2 else _np.int8)) # as the cython functions have it
 		else:
 			Np_list = None
 
-- 
2.43.0


From b9ce8e1040ec5211fbe5352a6b849a36eb689e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:57 +0000
Subject: [PATCH 110/188] fix: tensor and photon bases lost the sign from
 sorting fermionic operators; sparse states in photon_basis.project_from

---
 quspin/basis/photon.py | 5 ++++-
 quspin/basis/tensor.py | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 784260f..1b2dfb8 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -700,12 +700,15 @@ class photon_basis(tensor_basis):
 		op2[0] = opstr2
 		op2[1] = tuple([ind_min for i in opstr2])
 		
+		op2[2] = 1.0
+
 		op1 = self._basis_left._sort_opstr(op1)
 		op2 = self._basis_right._sort_opstr(op2)
 
 		op[0] = "|".join((op1[0],op2[0]))
 		op[1] = op1[1] + op2[1]
-		
+		op[2] = op1[2]*op2[2] # sorting changes the sign of fermionic operators
+
 		return tuple(op)
 
 	def _get_local_lists(self,static,dynamic): #overwrite the default get_local_lists from base.
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index f536cef..0d11e71 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -303,7 +303,7 @@ class tensor_basis(basis):
 		elif v0.ndim == 2:
 
 			if _sp.issparse(v0):
-				return self.get_proj(v0.dtype,full_left=full_left,full_right=full_right).dot(v0)
+				return tensor_basis.get_proj(self,v0.dtype,full_left=full_left,full_right=full_right).dot(v0)
 
 			return _combine_project_froms(self,v0,sparse,full_left,full_right)
 		else:
@@ -847,12 +847,15 @@ class tensor_basis(basis):
 		op2[0] = opstr_right
 		op2[1] = tuple(indx_right)
 		
+		op2[2] = 1.0
+
 		op1 = self._basis_left._sort_opstr(op1)
 		op2 = self._basis_right._sort_opstr(op2)
 
 		op[0] = "|".join((op1[0],op2[0]))
 		op[1] = op1[1] + op2[1]
-		
+		op[2] = op1[2]*op2[2] # sorting changes the sign of fermionic operators
+
 		return tuple(op)
 
 	def _hc_opstr(self,op):
-- 
2.43.0


From a7ee5e30dcbd6b131c18a65f2d33ea2a04341bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:57 +0000
Subject: [PATCH 111/188] fix: coherent_state of zero and negative amplitudes
 was nan, its dtype was not heeded

---
 quspin/basis/photon.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 1b2dfb8..a804d29 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -43,8 +43,15 @@ def coherent_state(a,n,dtype=_np.float64):
 	s3[0] = 1
 	_np.log(s3,out=s3)
 	s3[1:] = 0.5*_np.cumsum(s3[1:])
-	state = s1+_np.log(a)*s2-s3
-	return _np.exp(state)
+	abs_a = _np.abs(a)
+	if abs_a == 0:
+		state = (s2 == 0).astype(dtype)
+	else:
+		state = _np.exp(s1+_np.log(abs_a)*s2-s3)*(a/abs_a)**s2
+		if not _np.iscomplexobj(state) or _np.dtype(dtype).kind == "c":
+			state = state.astype(dtype)
+
+	return state
 
 def photon_Hspace_dim(N,Ntot,Nph):
 	""" Calculates the dimension of the total spin-photon Hilbert space.
-- 
2.43.0


From 0a8040ab74ebc18bad8a6a20581137adfd27ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:34 +0000
Subject: [PATCH 112/188] fix: photon bases of spinful fermions in 1d with a
 conserved total and symmetry blocks could not be made

---
 .../_basis_1d_core/sources/spf_basis.pyx       | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/spf_basis.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/spf_basis.pyx
index ee5d18c..c95be5b 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/spf_basis.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/spf_basis.pyx
@@ -62,7 +62,7 @@ def n_p_basis(int L, object Nf_list,int pblock,basis_type[:] pars,N_type[:] N,ba
         Ns = make_p_basis_template[basis_type,N_type](next_state_pcon_spf,pars,MAX,s,L,pblock,&N[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left + N_right
             
         Ns_tot += Ns
 
@@ -89,7 +89,7 @@ def n_p_z_basis(int L, object Nf_list, int pblock, int zblock,basis_type[:] pars
         Ns = make_p_z_basis_template[basis_type,N_type](next_state_pcon_spf,pars,MAX,s,L,pblock,zblock,&N[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left + N_right
             
         Ns_tot += Ns
 
@@ -116,7 +116,7 @@ def n_pz_basis(int L, object Nf_list, int pzblock,basis_type[:] pars, N_type[:]
         Ns = make_pz_basis_template[basis_type,N_type](next_state_pcon_spf,pars,MAX,s,L,pzblock,&N[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left + N_right
             
         Ns_tot += Ns
 
@@ -143,7 +143,7 @@ def n_t_basis(int L, object Nf_list, int kblock,int a,basis_type[:] pars, N_type
         Ns =  make_t_basis_template[basis_type,N_type](next_state_pcon_spf,pars,MAX,s,L,kblock,a,&N[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left + N_right
             
         Ns_tot += Ns
 
@@ -170,7 +170,7 @@ def n_t_p_basis(int L, object Nf_list,int pblock,int kblock,int a,basis_type[:]
         Ns = make_t_p_basis_template[basis_type,N_type,M1_type](next_state_pcon_spf,pars,MAX,s,L,pblock,kblock,a,&N[Ns_tot],&M[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left + N_right
             
         Ns_tot += Ns
 
@@ -199,7 +199,7 @@ def n_t_p_z_basis(int L, object Nf_list,int pblock,int zblock,int kblock,int a,b
         Ns = make_t_p_z_basis_template[basis_type,N_type,M2_type](next_state_pcon_spf,pars,MAX,s,L,pblock,zblock,kblock,a,&N[Ns_tot],&M[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left + N_right
             
         Ns_tot += Ns
 
@@ -228,7 +228,7 @@ def n_t_pz_basis(int L, object Nf_list,int pzblock,int kblock,int a,basis_type[:
         Ns = make_t_pz_basis_template[basis_type,N_type,M1_type](next_state_pcon_spf,pars,MAX,s,L,pzblock,kblock,a,&N[Ns_tot],&M[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left + N_right
             
         Ns_tot += Ns
 
@@ -255,7 +255,7 @@ def n_t_z_basis(int L, object Nf_list,int zblock,int kblock,int a,basis_type[:]
         Ns = make_t_z_basis_template[basis_type,N_type,M1_type](next_state_pcon_spf,pars,MAX,s,L,zblock,kblock,a,&N[Ns_tot],&M[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left + N_right
             
         Ns_tot += Ns
 
@@ -282,7 +282,7 @@ def n_z_basis(int L, object Nf_list, int zblock, basis_type[:] pars,N_type[:] N,
         Ns = make_z_basis_template[basis_type,N_type](next_state_pcon_spf,pars,MAX,s,L,zblock,&N[Ns_tot],basis[Ns_tot:])
 
         if Np_list is not None:
-            Np_list[Ns_tot:Ns_tot+Ns] = Ntup
+            Np_list[Ns_tot:Ns_tot+Ns] = N_left + N_right
             
         Ns_tot += Ns
 
-- 
2.43.0


From 4bf463a1b76fd282cdb20b62f9f370b957209429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 113/188] fix: quantum_operator methods filled the user's (and
 the shared default) parameter dictionary

---
 quspin/operators/quantum_operator_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 959c06c..8e662c6 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1396,6 +1396,7 @@ class quantum_operator(object):
 		if extra:
 			raise ValueError("unexpected couplings: {}".format(extra))
 
+		pars = dict(pars) # the user's dictionary (and the default argument) must not be changed
 		missing = set(self._quantum_operator.keys()) - set(pars.keys())
 		for key in missing:
 			pars[key] = _np.array(1,dtype=_np.int32)
@@ -1421,6 +1422,7 @@ class quantum_operator(object):
 		if extra:
 			raise ValueError("unexpected couplings: {}".format(extra))
 
+		pars = dict(pars) # the user's dictionary (and the default argument) must not be changed
 		missing =  set(self._quantum_operator.keys()) - set(pars.keys())
 		for key in missing:
 			pars[key] = 1.0
-- 
2.43.0


From 3c90587568ba7d5a196aaadc137364ed307f2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 114/188] fix: quantum_operator constructor changed the user's
 matrices, lost operator strings sharing a key with a matrix, and ignored
 dtype and copy

---
 quspin/operators/quantum_operator_core.py | 51 +++++------------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 8e662c6..52b244c 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -201,48 +201,19 @@ class quantum_operator(object):
 				for i,O in enumerate(O_list):
 					if _sp.issparse(O):
 						self._mat_checks(O)
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
-
-					elif O.__class__ is _np.ndarray:
-						self._mat_checks(O)
-						self._is_dense=True
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
-
-					elif O.__class__ is _np.matrix:
-						self._mat_checks(O)
-						self._is_dense=True
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
-
+						O = O.astype(self._dtype,copy=copy)
 					else:
-						O = _np.asanyarray(O)
+						O = _np.asarray(O)
 						self._mat_checks(O)
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
-
-					
+						O = O.astype(self._dtype,copy=copy)
+
+					if key not in self._quantum_operator:
+						self._quantum_operator[key] = O
+					else: # not in place: the matrices given by the user must not be changed
+						O = self._quantum_operator[key] + O
+						if not _sp.issparse(O): # the sum of a sparse and a dense matrix is a numpy.matrix
+							O = _np.asarray(O)
+						self._quantum_operator[key] = O
 
 		else:
 			if not hasattr(self,"_shape"):
-- 
2.43.0


From 63e1e05f85df43717d95cb6c0abf49f96e77a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 115/188] fix: quantum_operator.is_dense did not follow the
 formats of the operator

---
 quspin/operators/quantum_operator_core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 52b244c..c36e451 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -93,7 +93,6 @@ class quantum_operator(object):
 			to create the quantum_operator.		
 			
 		"""
-		self._is_dense = False
 		self._ndim = 2
 		self._basis = basis
 
@@ -300,7 +299,7 @@ class quantum_operator(object):
 		the static or dynamic lists.
 
 		"""
-		return self._is_dense
+		return any(not _sp.issparse(O) for O in itervalues(self._quantum_operator))
 
 	@property
 	def dtype(self):
@@ -1271,7 +1270,6 @@ class quantum_operator(object):
 		return self.__imul__(-1)
 
 	def __iadd__(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 		if isinstance(other,quantum_operator):
 			for key,value in iteritems(other._quantum_operator):
 				if key in self._quantum_operator:
@@ -1296,7 +1294,6 @@ class quantum_operator(object):
 		return new
 
 	def __isub__(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 		if isinstance(other,quantum_operator):
 			for key,value in iteritems(other._quantum_operator):
 				if key in self._quantum_operator:
-- 
2.43.0


From 9cc726b4ef0ce9a15fc2621bad5829a753cfbdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 116/188] fix: quantum_operator refused parameters of operators
 which happen to vanish (e.g. in a symmetry sector)

---
 quspin/operators/quantum_operator_core.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index c36e451..5f8e2f7 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -9,7 +9,6 @@ from ..tools.matvec import _matvec
 from ..tools.matvec import _get_matvec_function
 
 from ._make_hamiltonian import make_static
-from ._make_hamiltonian import _check_almost_zero
 
 from . import hamiltonian_core
 
@@ -252,11 +251,6 @@ class quantum_operator(object):
 
 		self._Ns = self._shape[0]
 
-		keys = list(self._quantum_operator.keys())
-		for key in keys:
-			if _check_almost_zero(self._quantum_operator[key]):
-				self._quantum_operator.pop(key)
-
 		self.update_matrix_formats(matrix_formats)
 
 	def get_operators(self,key):
@@ -1277,9 +1271,6 @@ class quantum_operator(object):
 				else:
 					self._quantum_operator[key] = value
 
-				if _check_almost_zero(self._quantum_operator[key]):
-					self._quantum_operator.pop(key)
-
 			self._update_matvecs()
 			return self
 		elif other == 0:
@@ -1301,9 +1292,6 @@ class quantum_operator(object):
 				else:
 					self._quantum_operator[key] = -value
 
-				if _check_almost_zero(self._quantum_operator[key]):
-					self._quantum_operator.pop(key)
-
 			self._update_matvecs()
 			return self
 		elif other == 0:
-- 
2.43.0


From 32a0bfb15186dbd79603528a81a8a13738b8ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 117/188] fix: quantum_operator.rdot failed unless an output
 array was given

---
 quspin/operators/quantum_operator_core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 5f8e2f7..a8ae79e 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -517,7 +517,12 @@ class quantum_operator(object):
 		corresponds to :math:`B = AH`. 
 	
 		"""
-		return self.transpose().dot(V.transpose(),pars=pars,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose()
+		if not hasattr(V,"shape"):
+			V = _np.asanyarray(V)
+		if out is not None:
+			out = out.T
+
+		return self.transpose().dot(V.transpose(),pars=pars,check=check,out=out,overwrite_out=overwrite_out,a=a).transpose()
 
 	def quant_fluct(self,V,pars={},check=True,enforce_pure=False):
 		"""Calculates the quantum fluctuations (variance) of `quantum_operator` object for parameters `pars`, in state `V`.
-- 
2.43.0


From a3a6ccd678bf9acedcfa759f6d71952b966c7cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 118/188] fix: quantum_operator.quant_fluct failed for density
 matrices

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index a8ae79e..ea7eb07 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -576,7 +576,7 @@ class quantum_operator(object):
 		if V.shape[0] != V.shape[1] or enforce_pure:
 			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
 		else:
-			V_dot = self.dot(V_dot,time=time,check=check)
+			V_dot = self.dot(V_dot,pars=pars,check=check)
 			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
-- 
2.43.0


From 39404fb55b54be77a8b58a1353d90c49b51d0c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 119/188] fix: quantum_operator.expt_value failed for sparse
 states and for states of one component

---
 quspin/operators/quantum_operator_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index ea7eb07..525bfbb 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -629,13 +629,13 @@ class quantum_operator(object):
 
 	def _expt_value_core(self,V_left,V_right,enforce_pure=False):
 		if _sp.issparse(V_right):
-			if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-				return _np.asscalar((V_left.H.dot(V_right)).toarray())
+			if V_left.shape[1] == 1 or V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
+				return _np.asarray(V_left.conj().multiply(V_right).sum(axis=0)).squeeze()[()]
 			else: # density matrix
 				return V_right.diagonal().sum()
 		else:
-			V_right = _np.asarray(V_right).squeeze()
-			if V_right.ndim == 1: # pure state
+			V_left,V_right = _np.asarray(V_left),_np.asarray(V_right)
+			if V_right.ndim == 1 or V_right.shape[1] == 1: # pure state
 				return _np.vdot(V_left,V_right)
 			elif V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states
 				return _np.einsum("ij,ij->j",V_left.conj(),V_right)
-- 
2.43.0


From 5bc19da0e1ea3eacc72edf2dd9faa00f17674571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 120/188] fix: quantum_operator negation changed the operator,
 and products and quotients with python scalars failed

---
 quspin/operators/quantum_operator_core.py | 39 ++++++++++++++++-------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 525bfbb..358bc9e 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1266,7 +1266,7 @@ class quantum_operator(object):
 			return self.tocsr(pars)
 
 	def __neg__(self):
-		return self.__imul__(-1)
+		return self*(-1)
 
 	def __iadd__(self,other):
 		if isinstance(other,quantum_operator):
@@ -1316,35 +1316,52 @@ class quantum_operator(object):
 		elif not _np.isscalar(other):
 			return NotImplemented
 		else:
-			for op in itervalues(self._quantum_operator):
-				op *= other
+			self._scale(other)
 
 			self._update_matvecs()
 			return self
 
 	def __mul__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
-		new = self.astype(result_dtype,copy=True)
+		if not _np.isscalar(other):
+			return NotImplemented
+		new = self.astype(self._scalar_dtype(other),copy=True)
 		new *= other
 		return new
 
-	def __idiv__(self,other):
+	def __rmul__(self,other):
+		return self.__mul__(other)
+
+	def __itruediv__(self,other):
 		if isinstance(other,quantum_operator):
 			return NotImplemented
 		elif not _np.isscalar(other):
 			return NotImplemented
 		else:
-			for op in itervalues(self._quantum_operator):
-				op /= other
+			self._scale(1.0/other)
 			self._update_matvecs()
 			return self
 
-	def __div__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
-		new = self.astype(result_dtype,copy=True)
+	def __truediv__(self,other):
+		if not _np.isscalar(other):
+			return NotImplemented
+		new = self.astype(self._scalar_dtype(other),copy=True)
 		new /= other
 		return new
 
+	__div__ = __truediv__
+	__idiv__ = __itruediv__
+
+	def _scalar_dtype(self,scalar):
+		# dtype of the product with a scalar: complex if the scalar is, in the precision of the operator
+		return _np.result_type(self._dtype,_np.complex64 if _np.iscomplexobj(scalar) else _np.float32).type
+
+	def _scale(self,scalar):
+		if not _np.can_cast(self._scalar_dtype(scalar),self._dtype,casting="same_kind"):
+			raise TypeError("cannot cast the product with a complex scalar to dtype '{}'.".format(self.dtype))
+
+		for key,op in list(iteritems(self._quantum_operator)): # not in place, the matrices may be shared.
+			self._quantum_operator[key] = (op*scalar).astype(self._dtype,copy=False)
+
 
 
 
-- 
2.43.0


From 87cf07cd24ef979ab5d480a2cb29c1c81bba2db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 121/188] fix: quantum_operator sums in place took on the other
 operator's dtype and shared its matrices, and sums with 0 failed

---
 quspin/operators/quantum_operator_core.py | 54 ++++++++++++-----------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 358bc9e..e3bf7d4 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1269,47 +1269,49 @@ class quantum_operator(object):
 		return self*(-1)
 
 	def __iadd__(self,other):
-		if isinstance(other,quantum_operator):
-			for key,value in iteritems(other._quantum_operator):
-				if key in self._quantum_operator:
-					self._quantum_operator[key] = self._quantum_operator[key] + value
-				else:
-					self._quantum_operator[key] = value
-
-			self._update_matvecs()
-			return self
-		elif other == 0:
-			return self
-		else:
-			return NotImplemented
+		return self._add_in_place(other,1)
 
 	def __add__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
-		new = self.astype(result_dtype,copy=True)
+		if isinstance(other,quantum_operator):
+			new = self.astype(_np.result_type(self._dtype,other._dtype).type,copy=True)
+		else:
+			new = self.copy()
 		new += other
 		return new
 
 	def __isub__(self,other):
+		return self._add_in_place(other,-1)
+
+	def __sub__(self,other):
+		if isinstance(other,quantum_operator):
+			new = self.astype(_np.result_type(self._dtype,other._dtype).type,copy=True)
+		else:
+			new = self.copy()
+		new -= other
+		return new
+
+	def _add_in_place(self,other,sign):
 		if isinstance(other,quantum_operator):
-			for key,value in iteritems(other._quantum_operator):
+			if other._shape != self._shape:
+				raise ValueError('shapes do not match')
+			if not _np.can_cast(other._dtype,self._dtype,casting="same_kind"):
+				raise TypeError("cannot cast a quantum_operator with dtype '{}' to dtype '{}'.".format(other.dtype,self.dtype))
+
+			for key,value in list(iteritems(other._quantum_operator)):
+				value = (value if sign > 0 else -value)
 				if key in self._quantum_operator:
-					self._quantum_operator[key] = self._quantum_operator[key] - value
-				else:
-					self._quantum_operator[key] = -value
+					value = self._quantum_operator[key] + value
+					if not _sp.issparse(value): # the sum of a sparse and a dense matrix is a numpy.matrix
+						value = _np.asarray(value)
+				self._quantum_operator[key] = value.astype(self._dtype,copy=True)
 
 			self._update_matvecs()
 			return self
-		elif other == 0:
+		elif _np.isscalar(other) and other == 0:
 			return self
 		else:
 			return NotImplemented
 
-	def __sub__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
-		new = self.astype(result_dtype,copy=True)
-		new -= other
-		return new		
-
 	def __imul__(self,other):
 		if isinstance(other,quantum_operator):
 			return NotImplemented
-- 
2.43.0


From 9dcd769394b5d630b30f1f8e4d76a60482ef0a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 122/188] fix: quantum_operator.update_matrix_formats left
 dense operators dense when a sparse format was asked for

---
 quspin/operators/quantum_operator_core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index e3bf7d4..af5657f 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1070,8 +1070,7 @@ class quantum_operator(object):
 				else:
 					sparse_constuctor = getattr(_sp,fmt+"_matrix")
 					O = self._quantum_operator[key]
-					if _sp.issparse(O):
-						self._quantum_operator[key] = sparse_constuctor(O)	
+					self._quantum_operator[key] = sparse_constuctor(O)	
 
 		self._update_matvecs()	
 
-- 
2.43.0


From f4cef2027de94186158cd5b9c5cc17260cd6d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:18 +0000
Subject: [PATCH 123/188] fix: quantum_operator did not accept an empty
 dictionary with a basis

---
 quspin/operators/quantum_operator_core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index af5657f..749ff9c 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -217,7 +217,6 @@ class quantum_operator(object):
 			if not hasattr(self,"_shape"):
 				if shape is None:
 					# check if user input basis
-					basis=basis_args.get('basis')	
 
 					# if not
 					if basis is None: 
@@ -235,9 +234,8 @@ class quantum_operator(object):
 					shape = (basis.Ns,basis.Ns)
 
 				else:
-					basis=basis_args.get('basis')	
-					if not basis is None: 
-						raise ValueError("empty hamiltonian only accepts basis or shape, not both")
+					if basis is not None and tuple(shape) != (basis.Ns,basis.Ns):
+						raise ValueError('shape does not match the basis')
 
 				if len(shape) != 2:
 					raise ValueError('expecting ndim = 2')
-- 
2.43.0


From d83a68781e6353d7aeac5b35cb9568586ddda534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:49 +0000
Subject: [PATCH 124/188] fix: quantum_operator.toarray and todense did not
 fill the array given as out, and toarray returned a numpy.matrix

---
 quspin/operators/quantum_operator_core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 749ff9c..af2ad5e 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -926,9 +926,12 @@ class quantum_operator(object):
 		if out is None:
 			out = _np.zeros(self._shape,dtype=self.dtype)
 			out = _np.asmatrix(out)
+		else:
+			out[...] = 0
 
 		for key,J in pars.items():
-			out += J * self._quantum_operator[key]
+			O = self._quantum_operator[key]
+			out += J * (O.toarray() if _sp.issparse(O) else O)
 		
 		return out
 
@@ -961,9 +964,12 @@ class quantum_operator(object):
 
 		if out is None:
 			out = _np.zeros(self._shape,dtype=self.dtype)
+		else:
+			out[...] = 0
 
 		for key,J in pars.items():
-			out += J * self._quantum_operator[key]
+			O = self._quantum_operator[key]
+			out += J * (O.toarray() if _sp.issparse(O) else O)
 		
 		return out
 
-- 
2.43.0


From e1118641a9ac0c7d1815dca11fa4991d1aeafe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:48 +0000
Subject: [PATCH 125/188] fix: quantum_operator.dot failed for sparse states

---
 quspin/operators/quantum_operator_core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index af2ad5e..3d70c3b 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -448,11 +448,10 @@ class quantum_operator(object):
 			if out is not None:
 				raise TypeError("'out' option does not apply for sparse inputs.")
 
-			sparse_constuctor = getattr(_sp,V.get_format()+"_matrix")
-			out = sparse_constuctor(V.shape,dtype=result_dtype)
+			out = _sp.csr_matrix(V.shape,dtype=result_dtype)
 			for key,J in pars.items():
-				out = out + J*self._quantum_operator[key].dot(V)
-			out = a*out
+				out = out + J*_sp.csr_matrix(self._quantum_operator[key]).dot(V)
+			out = (a*out).astype(result_dtype,copy=False)
 
 		else:
 			if out is not None:
-- 
2.43.0


From c0935974527153cbbf3b5fd743ba7335f243abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:35 +0000
Subject: [PATCH 126/188] fix: quantum_operator.quant_fluct failed for a single
 state

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 3d70c3b..d69216f 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -570,7 +570,7 @@ class quantum_operator(object):
 		V_dot = self.dot(V,pars=pars,check=check)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
-		if V.shape[0] != V.shape[1] or enforce_pure:
+		if len(V.shape) > 1 and V.shape[0] != V.shape[1] or enforce_pure:
 			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
 		else:
 			V_dot = self.dot(V_dot,pars=pars,check=check)
-- 
2.43.0


From 2cda99e7cbcd0c5e4add1d7f76ddc379d32dbe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:15 +0000
Subject: [PATCH 127/188] fix: the adjoint of quantum_operator.aslinearoperator
 did not conjugate the parameters

---
 quspin/operators/quantum_operator_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index d69216f..962a50d 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -996,7 +996,8 @@ class quantum_operator(object):
 		"""
 		pars = self._check_scalar_pars(pars)
 		matvec = functools.partial(_quantum_operator_dot,self,pars)
-		rmatvec = functools.partial(_quantum_operator_dot,self.H,pars)
+		pars_conj = {key:_np.conj(J) for key,J in iteritems(pars)}
+		rmatvec = functools.partial(_quantum_operator_dot,self.H,pars_conj)
 		return _sla.LinearOperator(self.get_shape,matvec,rmatvec=rmatvec,matmat=matvec,dtype=self._dtype)		
 
 	def tohamiltonian(self,pars={}):
-- 
2.43.0


From 1277e2c9aea98095456ee9660039b7240e095dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:27 +0000
Subject: [PATCH 128/188] fix: quantum_operator sums drop the keys which cancel
 (as tests/save_zip_test.py expects)

---
 quspin/operators/quantum_operator_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 962a50d..8414c44 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -9,6 +9,7 @@ from ..tools.matvec import _matvec
 from ..tools.matvec import _get_matvec_function
 
 from ._make_hamiltonian import make_static
+from ._make_hamiltonian import _check_almost_zero
 
 from . import hamiltonian_core
 
@@ -1308,6 +1309,9 @@ class quantum_operator(object):
 						value = _np.asarray(value)
 				self._quantum_operator[key] = value.astype(self._dtype,copy=True)
 
+				if _check_almost_zero(self._quantum_operator[key]):
+					self._quantum_operator.pop(key)
+
 			self._update_matvecs()
 			return self
 		elif _np.isscalar(other) and other == 0:
-- 
2.43.0


From 055e65913c6214d067d47eae5e9cfbf2acc37ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 129/188] fix: quantum_LinearOperator applied the conjugate
 instead of the transpose and vice versa

---
 quspin/operators/quantum_LinearOperator_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 22a0ab6..2a83de4 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -484,7 +484,7 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _matvec(self,other):
 
-		other = _np.asanyarray(other)
+		other = _np.asarray(other)
 		result_dtype = _np.result_type(self._dtype,other.dtype)
 
 		other = other.astype(result_dtype,copy=False,order="C")
@@ -494,7 +494,7 @@ class quantum_LinearOperator(LinearOperator):
 			_np.multiply(other.T,self._diagonal,out=new_other.T)
 
 		self.basis.inplace_Op(other,self._static_list, self._dtype,
-							self._conjugated,self._transposed,v_out=new_other)
+							transposed=self._transposed,conjugated=self._conjugated,v_out=new_other)
 
 		return new_other
 
-- 
2.43.0


From 61e288c63ad510cc7b11dc2de33fc7eac4bb4b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 130/188] fix: quantum_LinearOperator.dot failed with an output
 array

---
 quspin/operators/quantum_LinearOperator_core.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 2a83de4..0dcef1d 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -300,18 +300,23 @@ class quantum_LinearOperator(LinearOperator):
 		"""
 		if out is not None:
 			out = _np.asanyarray(out)
+			other = _np.asarray(other)
 			result_dtype = _np.result_type(self._dtype,other.dtype)
+			other = other.astype(result_dtype,copy=False,order="C")
 
-			if (not out.flags["CARRAY"] or (out.dtype,out.shape) != (result_dtype,shape)):
+			if (not out.flags["CARRAY"] or (out.dtype,out.shape) != (result_dtype,other.shape)):
 				raise ValueError("out must be C-congituous writable array \
-					with dtype {} and shape {}.".format(result_dtype,self._shape))
+					with dtype {} and shape {}.".format(result_dtype,other.shape))
 
-			if self.diagonal is not None:
-				_np.multiply(other.T,self.diagonal,out=out.T)
+			if self._diagonal is not None:
+				_np.multiply(other.T,self._diagonal,out=out.T)
+			else:
+				out[...] = 0
 
 			self.basis.inplace_Op(other, self._static_list, self._dtype,
-				self._conjugated,self._transposed,v_out=out,a=a)
+				transposed=self._transposed,conjugated=self._conjugated,v_out=out)
 
+			out *= a
 			return out
 		else:
 			return a * (self * other)
-- 
2.43.0


From 78e484d6179bca022d5d4c9f04c0dad66b586721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 131/188] fix: transposing or conjugating a
 quantum_LinearOperator changed the operator itself (and products from the
 left did), the diagonal was not conjugated, copy failed

---
 .../operators/quantum_LinearOperator_core.py  | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 0dcef1d..e4beb90 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -19,6 +19,8 @@ import numpy as _np
 
 from scipy.sparse.linalg import LinearOperator
 
+import copy as _copy
+
 from six import iteritems
 from six.moves import zip
 
@@ -562,8 +564,9 @@ class quantum_LinearOperator(LinearOperator):
 		if copy:
 			return self.copy().transpose()
 		else:
-			self._transposed = not self._transposed
-			return self
+			new = self._view()
+			new._transposed = not self._transposed
+			return new
 
 	def conjugate(self):
 		"""Conjugates `quantum_LinearOperator` operator.
@@ -583,8 +586,11 @@ class quantum_LinearOperator(LinearOperator):
 		>>> H_conj = H.conj()
 
 		"""
-		self._conjugated = not self._conjugated
-		return self
+		new = self._view()
+		new._conjugated = not self._conjugated
+		if self._diagonal is not None:
+			new._diagonal = self._diagonal.conj()
+		return new
 
 	def conj(self):
 		"""Conjugates `quantum_LinearOperator` operator.
@@ -626,7 +632,7 @@ class quantum_LinearOperator(LinearOperator):
 
 		"""
 		if copy:
-			return self.copy().get_H()
+			return self.copy().getH()
 		else:
 			return self.conj().transpose()
 
@@ -634,9 +640,16 @@ class quantum_LinearOperator(LinearOperator):
 
 	def copy(self):
 		"""Returns a deep copy of `quantum_LinearOperator` object."""
-		return quantum_LinearOperator(list(self._static_list),basis=self._basis,
-							diagonal=self._diagonal,dtype=self._dtype,
-							check_symm=False,check_herm=False,check_pcon=False,copy=True)
+		new = self._view()
+		if self._diagonal is not None:
+			new._diagonal = self._diagonal.copy()
+		return new
+
+	def _view(self):
+		# new object which shares the basis and the diagonal.
+		new = _copy.copy(self)
+		new._static_list = list(self._static_list)
+		return new
 
 	def __repr__(self):
 		return "<{0}x{1} quspin quantum_LinearOperator of type '{2}'>".format(*(self._shape[0],self._shape[1],self._dtype))
-- 
2.43.0


From 3ccea5997640c152ba738f184b68993d6bfd8aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 132/188] fix: quantum_LinearOperator times a scalar returned
 nothing and ignored the scalar

---
 .../operators/quantum_LinearOperator_core.py  | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index e4beb90..6df6761 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -106,7 +106,6 @@ class quantum_LinearOperator(LinearOperator):
 		self._unique_me = self.basis._unique_me
 		self._transposed = False
 		self._conjugated = False
-		self._scale = _np.array(1.0,dtype=dtype)
 		self._dtype = dtype
 		self._ndim = 2
 		self._shape = (self._basis.Ns,self._basis.Ns)
@@ -716,11 +715,16 @@ class quantum_LinearOperator(LinearOperator):
 		return -(self.__sub__(other))
 
 	def __imul__(self,other):
-		if _np.isscalar(other):
-			return self._mul_scalar(other)
+		if _np.asarray(other).ndim == 0 and not isinstance(other,LinearOperator):
+			return self._imul_scalar(other)
 		else:
 			return NotImplemented
 
+	def __truediv__(self,other):
+		return self._mul_scalar(1.0/other)
+
+	__div__ = __truediv__
+
 	def __mul__(self,other):
 		if other.__class__ in [_np.ndarray,_np.matrix]:
 			dense = True
@@ -779,8 +783,17 @@ class quantum_LinearOperator(LinearOperator):
 			return (self.T._mul_sparse(other.T)).T
 
 	def _mul_scalar(self,other):
-		self._dtype = _np.result_type(self._dtype,other)
-		self._scale *= other
+		return self._view()._imul_scalar(other)
+
+	def _imul_scalar(self,other):
+		scalar_dtype = _np.complex64 if _np.iscomplexobj(other) else _np.float32
+		self._dtype = _np.result_type(self._dtype,scalar_dtype).type
+		# the coupling is conjugated together with the operator.
+		J_scale = _np.conj(other) if self._conjugated else other
+		self._static_list = [(opstr,indx,J*J_scale) for opstr,indx,J in self._static_list]
+		if self._diagonal is not None:
+			self._diagonal = (self._diagonal*other).astype(self._dtype,copy=False)
+		return self
 
 	def _mul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-- 
2.43.0


From 60bee4e54a154d9d68d172ca3a4038a55d596c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 133/188] fix: quantum_LinearOperator.quant_fluct failed,
 expt_value failed for sparse states

---
 quspin/operators/quantum_LinearOperator_core.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 6df6761..c0ba2ac 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -363,13 +363,13 @@ class quantum_LinearOperator(LinearOperator):
 
 		# fluctuations =  expctH2 - expctH^2
 		kwargs = dict(enforce_pure=enforce_pure)
-		V_dot = self.dot(V,check=check)
+		V_dot = self.dot(V)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
-		if V.shape[0] != V.shape[1] or enforce_pure:
+		if len(V.shape) > 1 and V.shape[0] != V.shape[1] or enforce_pure:
 			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
 		else:
-			V_dot = self.dot(V_dot,time=time,check=check)
+			V_dot = self.dot(V_dot)
 			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
@@ -419,13 +419,13 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _expt_value_core(self,V_left,V_right,enforce_pure=False):
 		if _sp.issparse(V_right):
-			if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-				return _np.asscalar((V_left.H.dot(V_right)).toarray())
+			if V_left.shape[1] == 1 or V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
+				return _np.asarray(V_left.conj().multiply(V_right).sum(axis=0)).squeeze()[()]
 			else: # density matrix
 				return V_right.diagonal().sum()
 		else:
-			V_right = _np.asarray(V_right).squeeze()
-			if V_right.ndim == 1: # pure state
+			V_left,V_right = _np.asarray(V_left),_np.asarray(V_right)
+			if V_right.ndim == 1 or V_right.shape[1] == 1: # pure state
 				return _np.vdot(V_left,V_right)
 			elif V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states
 				return _np.einsum("ij,ij->j",V_left.conj(),V_right)
-- 
2.43.0


From 45e0772565d0287e6057ca3e0af3b69207036f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 134/188] fix: products of a quantum_LinearOperator with sparse
 matrices failed

---
 quspin/operators/quantum_LinearOperator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index c0ba2ac..e1a259b 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -812,7 +812,7 @@ class quantum_LinearOperator(LinearOperator):
 			new_other = _sp.csr_matrix(other.shape,dtype=result_dtype)
 
 
-		for opstr,indx,J in self.static_list:
+		for opstr,indx,J in self._static_list:
 			if not self._transposed:
 				ME, row, col = self.basis.Op(opstr, indx, J, self._dtype)
 			else:
-- 
2.43.0


From c9684bea680873d1034a1481340ae07629afc6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 135/188] fix: products of a quantum_LinearOperator and a
 hamiltonian failed

---
 quspin/operators/quantum_LinearOperator_core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index e1a259b..f4ed4e8 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -761,7 +761,7 @@ class quantum_LinearOperator(LinearOperator):
 		elif ishamiltonian(other):
 			return self._rmul_hamiltonian(other)
 		elif isinstance(other,LinearOperator):
-			return LinearOperator.dot(other.transpose(),self.transpose()).transpose()
+			return LinearOperator.dot(other,self)
 		elif _np.isscalar(other):
 			return self._mul_scalar(other)
 		else:
@@ -797,8 +797,8 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _mul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		static = self.__mul__(other._static_list)
-		dynamic = [[self.__mul__(Hd),func] for func,Hd in iteritems(other.dynamic)]
+		static = self.__mul__(other.static)
+		dynamic = [[self.__mul__(Hd),func,()] for func,Hd in iteritems(other.dynamic)]
 		return hamiltonian([static],dynamic,
 							basis=self._basis,dtype=result_dtype,copy=False)
 
@@ -827,8 +827,8 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _rmul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		static = self.__rmul__(other._static_list)
-		dynamic = [[self.__rmul__(Hd),func] for func,Hd in iteritems(other.dynamic)]
+		static = self.__rmul__(other.static)
+		dynamic = [[self.__rmul__(Hd),func,()] for func,Hd in iteritems(other.dynamic)]
 		return hamiltonian([static],dynamic,
 							basis=self._basis,dtype=result_dtype,copy=False)
 
-- 
2.43.0


From 10871bf96621daa71909c125d6bff1f72ce48625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 136/188] fix: quantum_LinearOperator added to the diagonal
 given by the user in place

---
 quspin/operators/quantum_LinearOperator_core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index f4ed4e8..9634c15 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -130,11 +130,15 @@ class quantum_LinearOperator(LinearOperator):
 		static_list = _consolidate_static(static_list)
 
 		self._static_list = []
+		own_diagonal = None
 		for opstr,indx,J in static_list:
 			ME,row,col = self.basis.Op(opstr,indx,J,self._dtype)
 			if _is_diagonal(row,col):
-				if self._diagonal is None:
-					self._diagonal = _np.zeros((self.Ns,),dtype=ME.dtype)
+				if own_diagonal is None: # the user's diagonal must not be changed
+					own_diagonal = _np.zeros((self.Ns,),dtype=_np.result_type(self._dtype,ME.dtype))
+					if self._diagonal is not None:
+						own_diagonal += self._diagonal
+					self._diagonal = own_diagonal
 
 				_update_diag(self._diagonal,row,ME)
 
-- 
2.43.0


From 7435855a2e94c9e22e771dffdd2c342aa923b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 137/188] fix: lanczos_full dropped the last vector of a
 complete Krylov space; a start vector that is an eigenvector gave nan

---
 quspin/tools/lanczos/_lanczos_utils.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/quspin/tools/lanczos/_lanczos_utils.py b/quspin/tools/lanczos/_lanczos_utils.py
index 7bb742d..4938306 100644
--- a/quspin/tools/lanczos/_lanczos_utils.py
+++ b/quspin/tools/lanczos/_lanczos_utils.py
@@ -169,8 +169,11 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 	axpy(Q[0,:],r,n,-a[0])
 	b[0] = _np.linalg.norm(r)
 
-	i = 0
 	for i in range(1,m,1):
+		if b[i-1] <= eps: # the Krylov subspace is complete
+			m = i
+			break
+
 		v[:] = Q[i-1,:]
 
 		_np.divide(r,b[i-1],out=Q[i,:])
@@ -186,9 +189,6 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 		axpy(Q[i,:],r,n,-a[i])
 
 		b[i] = _np.linalg.norm(r)
-		if b[i] < eps:
-			m = i
-			break
 
 
 	if full_ortho:
@@ -312,8 +312,11 @@ def lanczos_iter(A,v0,m,return_vec_iter=True,copy_v0=True,copy_A=False,eps=None)
 	axpy(q,r,n,-a[0])
 	b[0] = _np.linalg.norm(r)
 
-	i = 0
 	for i in range(1,m,1):
+		if b[i-1] <= eps: # the Krylov subspace is complete
+			m = i
+			break
+
 		v[:] = q[:]
 
 		_np.divide(r,b[i-1],out=q)
@@ -328,11 +331,9 @@ def lanczos_iter(A,v0,m,return_vec_iter=True,copy_v0=True,copy_A=False,eps=None)
 		axpy(q,r,n,-a[i])
 
 		b[i] = _np.linalg.norm(r)
-		if b[i] < eps:
-			break
 
-	a = a[:i+1].copy()
-	b = b[:i].copy()
+	a = a[:m].copy()
+	b = b[:m-1].copy()
 	del q,r,v
 
 	E,V = eigh_tridiagonal(a,b)
-- 
2.43.0


From 9c85c8b719bc2dd15aa22de31be70cd32edcd312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 138/188] fix: lanczos_full with full_ortho could return the
 negative initial vector, and failed for complete Krylov spaces

---
 quspin/tools/lanczos/_lanczos_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/lanczos/_lanczos_utils.py b/quspin/tools/lanczos/_lanczos_utils.py
index 4938306..de7ff83 100644
--- a/quspin/tools/lanczos/_lanczos_utils.py
+++ b/quspin/tools/lanczos/_lanczos_utils.py
@@ -192,9 +192,11 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 
 
 	if full_ortho:
-		q,_ = _np.linalg.qr(Q[:m+1].T)
+		Q = Q[:m]
+		q,R = _np.linalg.qr(Q.T)
+		q *= _np.where(R.diagonal().real < 0,-1,1) # keep the signs, in particular that of the first vector v0
 
-		Q[:m+1,:] = q.T[...]
+		Q[...] = q.T
 
 		h = _np.zeros((m,m),dtype=a.dtype)
 
-- 
2.43.0


From 849cf9737e32a06bf9d944c628d6167824e29703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 139/188] fix: FTLM_static_iteration did not keep the shape of
 beta

---
 quspin/tools/lanczos/_FTLM.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quspin/tools/lanczos/_FTLM.py b/quspin/tools/lanczos/_FTLM.py
index f87abba..43a463b 100644
--- a/quspin/tools/lanczos/_FTLM.py
+++ b/quspin/tools/lanczos/_FTLM.py
@@ -91,7 +91,8 @@ def FTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	nv = E.size
 
 
-	p = _np.exp(-_np.outer(_np.atleast_1d(beta),E))
+	beta = _np.asarray(beta)
+	p = _np.exp(-_np.multiply.outer(beta,E))
 	c = _np.einsum("j,aj,...j->a...",V[0,:],V,p)
 
 	r,Q_T = _get_first_lv(iter(Q_T))
@@ -103,11 +104,11 @@ def FTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	for i,lv in enumerate(Q_T): # nv matvecs
 		for key,A in iteritems(O_dict):
 			if key in results_dict:
-				results_dict[key] += _np.squeeze(c[i,...] * _np.vdot(lv,Ar_dict[key]))
+				results_dict[key] = results_dict[key] + c[i,...] * _np.vdot(lv,Ar_dict[key])
 			else:
-				results_dict[key]  = _np.squeeze(c[i,...] * _np.vdot(lv,Ar_dict[key]))
+				results_dict[key] = c[i,...] * _np.vdot(lv,Ar_dict[key])
 
-	return results_dict,_np.squeeze(c[0,...])
+	return results_dict,c[0,...]
 
 
 
-- 
2.43.0


From 266390f37f3be45858d4b15c62081a5673601ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 140/188] fix: LTLM_static_iteration left out Lanczos vectors
 depending on the zero of energy, and did not keep the shape of beta

---
 quspin/tools/lanczos/_LTLM.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/quspin/tools/lanczos/_LTLM.py b/quspin/tools/lanczos/_LTLM.py
index e3dded2..63ca4d8 100644
--- a/quspin/tools/lanczos/_LTLM.py
+++ b/quspin/tools/lanczos/_LTLM.py
@@ -92,26 +92,15 @@ def LTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	"""
 	nv = E.size
 
-	beta = _np.atleast_1d(beta)
-	p = _np.exp(-E*beta.min())*_np.abs(V[0,:]).max()
-	mask = p<_np.finfo(p.dtype).eps
-
-	if _np.any(mask):
-		nv = _np.argmax(mask)
-
+	beta = _np.asarray(beta)
 	Ome_dict = {}
 
 	lv_row = iter(Q_T)
 	for i,lv_r in enumerate(lv_row):
-		if i >= nv:
-			break
-
 		lv_col = iter(Q_T)
 		Ar_dict = {key:A.dot(lv_r) for key,A in iteritems(O_dict)}
 		
 		for j,lv_c in enumerate(lv_col):
-			if j >= nv:
-				break
 			for key,A in iteritems(O_dict):
 				if key not in Ome_dict:
 					dtype = _np.result_type(lv_r.dtype,A.dtype)
@@ -124,17 +113,16 @@ def LTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	del lv_row
 
 
-	p = _np.exp(-_np.outer(E[:nv],_np.atleast_1d(beta)/2.0))
-	V = V[:nv,:nv].copy()
+	p = _np.exp(-_np.multiply.outer(E,beta/2.0))
 
 	c = _np.einsum("j,j...->j...",V[0,:],p)
 
 	results_dict = {}
 	for key,Ame in iteritems(Ome_dict):
 		A_diag = V.T.dot(Ame.dot(V))
-		results_dict[key] = _np.squeeze(_np.einsum("j...,l...,jl->...",c,c,A_diag))
+		results_dict[key] = _np.einsum("j...,l...,jl->...",c,c,A_diag)
 
-	p = _np.exp(-_np.outer(E[:nv],_np.atleast_1d(beta)))
+	p = _np.exp(-_np.multiply.outer(E,beta))
 	Id = _np.einsum("j,j...->...",V[0,:]**2,p)
 
-	return results_dict,_np.squeeze(Id)
+	return results_dict,Id
-- 
2.43.0


From 0ad3b74c63b3f5b12d80b61d1c083b93857087b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:37 +0000
Subject: [PATCH 141/188] fix: load_zip gave operators other keys, or failed,
 where keys contain 'sparse' or 'dense_' or are no file names

---
 quspin/operators/quantum_operator_core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 8414c44..d080f61 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1493,14 +1493,13 @@ def save_zip(archive,op,save_basis=True):
 
 				arch.write(file,"basis.pickle")
 
+			file = os.path.join(tmpdirname,"matrix.npz") # keys need not be valid names of files
 			for key,matrix in iteritems(op._quantum_operator):
 				if _sp.isspmatrix(matrix):
 					filename = "sparse_"+key+".npz"
-					file = os.path.join(tmpdirname,filename)
 					_sp.save_npz(file,matrix)
 				else:
 					filename = "dense_"+key+".npz"
-					file = os.path.join(tmpdirname,filename)
 					_np.savez_compressed(file,matrix=matrix)
 
 				if filename in arch.namelist():
@@ -1535,12 +1534,12 @@ def load_zip(archive):
 				
 				continue
 
-			elif "sparse" in file:
-				key = file.replace("sparse_","").replace(".npz","")
+			elif file.startswith("sparse_"):
+				key = file[len("sparse_"):-len(".npz")]
 				with arch.open(file) as matfile:
 					matrix = _sp.load_npz(matfile)
 			else:
-				key = file.replace("dense_","").replace(".npz","")
+				key = file[len("dense_"):-len(".npz")]
 				with arch.open(file) as matfile:
 					f = _np.load(matfile)
 					matrix = f["matrix"]
-- 
2.43.0


From 45bc699354b78b5bca25d0e3b9227225c354a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:37 +0000
Subject: [PATCH 142/188] fix: copying and unpickling a boson_basis_general
 printed to the terminal

---
 quspin/basis/basis_general/boson.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index d5ee14d..5bb4740 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -235,7 +235,6 @@ class boson_basis_general(hcb_basis_general,basis_general):
 
 
 	def __setstate__(self,state):
-		print(self.__dict__)
 		if state["_sps"] == 2:
 			hcb_basis_general.__setstate__(self,state)
 		else:
-- 
2.43.0


From 85a8a9324a7043af5a3cd67ae2e24c744940306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:05 +0000
Subject: [PATCH 143/188] fix: block_diag_hamiltonian and block_ops changed the
 dictionaries given by the user

---
 quspin/tools/block_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index e2eca82..6772da6 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -101,7 +101,7 @@ def block_diag_hamiltonian(blocks,static,dynamic,basis_con,basis_args,dtype,basi
 	blocks = list(blocks)
 
 	if all([isinstance(block,dict) for block in blocks]):
-		[blocks[i].update(basis_kwargs) for i in range(len(blocks))]
+		blocks = [dict(block,**basis_kwargs) for block in blocks] # the dictionaries given by the user must not be changed
 		dynamic_list = [(tup[-2],tuple(tup[-1])) for tup in dynamic]
 		dynamic_list = [([],f,f_args) for f,f_args in set(dynamic_list)]
 		static_mats = []
@@ -358,7 +358,7 @@ class block_ops(object):
 
 
 		for block in blocks:
-			block.update(basis_kwargs)
+			block = dict(block,**basis_kwargs) # the dictionaries given by the user must not be changed
 			b = basis_con(*basis_args,**block)
 			if b.Ns >  0:
 				self._basis_dict[str(block)]=b
-- 
2.43.0


From 8f642e33f3eaf1156a3ff26e63753f66474772b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:05 +0000
Subject: [PATCH 144/188] fix: block_diag_hamiltonian mixed up driving
 functions if there are several, and did not use dtype

---
 quspin/tools/block_tools.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index 6772da6..3df9548 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -27,6 +27,23 @@ except ImportError:
 
 __all__=["block_diag_hamiltonian","block_ops"]
 
+def _block_diag(H_list,dtype):
+	""" direct sum of a list of hamiltonians; every driving function is matched with its own matrices. """
+	from ..operators import hamiltonian
+
+	static = [_sp.block_diag([_sp.coo_matrix(H.static) for H in H_list],format="csr",dtype=dtype)]
+
+	funcs = []
+	for H in H_list:
+		funcs.extend(func for func in H.dynamic if func not in funcs)
+
+	dynamic = []
+	for func in funcs:
+		mats = [_sp.coo_matrix(H.dynamic[func] if func in H.dynamic else H.get_shape) for H in H_list]
+		dynamic.append([_sp.block_diag(mats,format="csr",dtype=dtype),func])
+
+	return hamiltonian(static,dynamic,dtype=dtype,copy=False)
+
 def block_diag_hamiltonian(blocks,static,dynamic,basis_con,basis_args,dtype,basis_kwargs={},get_proj_kwargs={},get_proj=True,check_symm=True,check_herm=True,check_pcon=True):
 	"""Block-diagonalises a Hamiltonian obeying a symmetry.
 
@@ -102,9 +119,6 @@ def block_diag_hamiltonian(blocks,static,dynamic,basis_con,basis_args,dtype,basi
 
 	if all([isinstance(block,dict) for block in blocks]):
 		blocks = [dict(block,**basis_kwargs) for block in blocks] # the dictionaries given by the user must not be changed
-		dynamic_list = [(tup[-2],tuple(tup[-1])) for tup in dynamic]
-		dynamic_list = [([],f,f_args) for f,f_args in set(dynamic_list)]
-		static_mats = []
 		for block in blocks:
 			b = basis_con(*basis_args,**block)
 			if get_proj:
@@ -115,26 +129,20 @@ def block_diag_hamiltonian(blocks,static,dynamic,basis_con,basis_args,dtype,basi
 			check_symm = False
 			check_herm = False
 			check_pcon = False
-			static_mats.append(H.static.tocoo())
-			for i,Hd in enumerate(_itervalues(H.dynamic)):
-				dynamic_list[i][0].append(Hd.tocoo())
-
-		static = [_sp.block_diag(static_mats,format="csr")]
-		dynamic = []
-		for mats,f,f_args in dynamic_list:
-			mats = _sp.block_diag(mats,format="csr")
-			dynamic.append([mats,f,f_args])
+			H_list.append(H)
 
 	else:
 		raise ValueError("blocks must be list of dictionaries containing symmetry sectors.")
 
+	H = _block_diag(H_list,dtype)
+
 
 
 	if get_proj:
 		P = _sp.hstack(P_list,format="csr")
-		return P,hamiltonian(static,dynamic,copy=False)
+		return P,H
 	else:
-		return hamiltonian(static,dynamic,copy=False)
+		return H
 
 
 def _worker(gen_func,args_list,q,e):
-- 
2.43.0


From 59c12964297e41ca2946cb57fcc881d41710526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:05 +0000
Subject: [PATCH 145/188] fix: block_ops failed for evolve with block_diag or a
 single time, and with block_diag and more jobs than blocks

---
 quspin/tools/block_tools.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index 3df9548..21c10cf 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -593,20 +593,20 @@ class block_ops(object):
 
 		if block_diag and H_list:
 			N_H = len(H_list)
+			n_jobs = min(n_jobs,N_H)
 			n_pp = N_H//n_jobs
 			n_left = n_pp + N_H%n_jobs	
 
 			H_list_prime = []
 			psi_blocks_prime = []
-			if n_left != 0:
-				H_list_prime.append(block_diag_hamiltonian(H_list[:n_left],None,None,None,None,self._dtype,get_proj=False,**self._no_checks))
-				psi_list_prime.append(_np.hstack(psi_blocks[:n_left]))
+			H_list_prime.append(_block_diag(H_list[:n_left],self._dtype))
+			psi_blocks_prime.append(_np.hstack(psi_blocks[:n_left]))
 
 			for i in range(n_jobs-1):
 				i1 = n_left + i*n_pp
 				i2 = n_left + (i+1)*n_pp
-				H_list_prime.append(block_diag_hamiltonian(H_list[i1:i2],None,None,None,None,self._dtype,get_proj=False,**self._no_checks))
-				psi_list_prime.append(_np.hstack(psi_blocks[i1:i2]))
+				H_list_prime.append(_block_diag(H_list[i1:i2],self._dtype))
+				psi_blocks_prime.append(_np.hstack(psi_blocks[i1:i2]))
 
 			H_list = H_list_prime
 			psi_blocks = psi_blocks_prime				
@@ -621,7 +621,7 @@ class block_ops(object):
 				return _block_evolve_iter(psi_blocks,H_list,P,t0,times,stack_state,imag_time,solver_name,solver_args,n_jobs)
 			else:
 				psi_t = _Parallel(n_jobs = n_jobs)(_delayed(_block_evolve_helper)(H,psi,t0,times,stack_state,imag_time,solver_name,solver_args) for psi,H in _izip(psi_blocks,H_list))
-				psi_t = _np.vstack(psi_t)
+				psi_t = _np.concatenate(psi_t,axis=0) # a single time gives 1-dimensional states
 				psi_t = P.dot(psi_t)
 				return psi_t
 		else:
@@ -753,6 +753,7 @@ class block_ops(object):
 
 		if block_diag and H_list:
 			N_H = len(H_list)
+			n_jobs = min(n_jobs,N_H)
 			n_pp = N_H//n_jobs
 			n_left = n_pp + N_H%n_jobs	
 
-- 
2.43.0


From 38e55186c7ce4a7e324e29e6ceb6aa859ced86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:06 +0000
Subject: [PATCH 146/188] fix: block_ops.expm with real exponents gave wrong
 states or nan on decreasing grids

---
 quspin/tools/block_tools.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index 21c10cf..3c81b6d 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -5,7 +5,6 @@ from __future__ import print_function, division
 # numpy modules
 import numpy as _np # generic math functions
 # _scipy modules
-import scipy as _scipy
 import scipy.sparse as _sp
 from scipy.sparse.linalg import expm_multiply as _expm_multiply
 # multi-processing modules
@@ -780,15 +779,12 @@ class block_ops(object):
 			psi_blocks = psi_blocks_prime				
 
 
-		H_is_complex = _np.iscomplexobj([_np.float32(1.0).astype(H.dtype) for H in H_list])
-
 		if H_list:
 			P = _sp.hstack(P,format="csr")
 			if iterate:
 				return _block_expm_iter(psi_blocks,H_list,P,start,stop,num,endpoint,n_jobs)
 			else:
-				ver = [int(v) for v in _scipy.__version__.split(".")]
-				if H_is_complex and (start,stop,num,endpoint) != (None,None,None,None) and ver[1] < 19:
+				if (start,stop,num,endpoint) != (None,None,None,None): # expm_multiply is not right for complex matrices or decreasing grids in many versions of scipy
 					mats = _block_expm_iter(psi_blocks,H_list,P,start,stop,num,endpoint,n_jobs)
 					return _np.array([mat for mat in mats]).T
 				else:
-- 
2.43.0


From 2b8018992986b43ce11872cf305a150bc6dfab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:39 +0000
Subject: [PATCH 147/188] fix: Floquet_t_vec.down.strobo.vals were not
 stroboscopic times

---
 quspin/tools/Floquet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index adb17dd..40691a6 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -495,8 +495,8 @@ class Floquet_t_vec(object):
 			self._const = _periodic_ramp(N_const,t_const,self.T,self.len_T,ind0)
 
 			t_down = self.vals[self.strobo.inds[N_up+N_const]+1:self.strobo.inds[-1]+1]
-			ind0 = self.const.strobo.inds[-1]+self.len_T
-			self._down = _periodic_ramp(N_down,t_down,self.T,self.len_T,ind0)
+			ind0 = self.const.strobo.inds[-1]+1
+			self._down = _periodic_ramp(N_down,t_down,self.T,self.len_T,ind0,offset=self.len_T-1)
 
 		elif N_up > 0:
 			t_up = self.vals[:self.strobo.inds[N_up]]
@@ -511,8 +511,8 @@ class Floquet_t_vec(object):
 			self._const = _periodic_ramp(N_const,t_const,self.T,self.len_T,ind0)
 
 			t_down = self.vals[self.strobo.inds[N_up+N_const]+1:self.strobo.inds[-1]+1]
-			ind0 = self.const.strobo.inds[-1]+self.len_T
-			self._down = _periodic_ramp(N_down,t_down,self.T,self.len_T,ind0)
+			ind0 = self.const.strobo.inds[-1]+1
+			self._down = _periodic_ramp(N_down,t_down,self.T,self.len_T,ind0,offset=self.len_T-1)
 
 
 	def __iter__(self):
@@ -683,14 +683,14 @@ class Floquet_t_vec(object):
 
 
 class _strobo_times():
-	def __init__(self,t,len_T,ind0):
+	def __init__(self,t,len_T,ind0,offset=0):
 		"""
 		Calculates stroboscopic times in time vector t with period length len_T and assigns them as
 		attributes.
 		
 		"""
 		# indices of strobo times
-		self._inds = _np.arange(0,t.size,len_T).astype(int)
+		self._inds = _np.arange(offset,t.size,len_T).astype(int)
 		#discrete stroboscopic t_vecs
 		self._vals = t.take(self._inds)
 		# update strobo indices to match shifted (ramped) ones
@@ -729,7 +729,7 @@ class _strobo_times():
 
 
 class _periodic_ramp():
-	def __init__(self,N,t,T,len_T,ind0):
+	def __init__(self,N,t,T,len_T,ind0,offset=0):
 		"""Defines time vector attributes of each regime.
 		
 		"""
@@ -739,7 +739,7 @@ class _periodic_ramp():
 		self._f = self._vals[-1] # final value
 		self._tot = self._N*T # total duration
 		self._len = self._vals.size # total length
-		self._strobo = _strobo_times(self._vals,len_T,ind0) # strobo attributes
+		self._strobo = _strobo_times(self._vals,len_T,ind0,offset) # strobo attributes
 
 	def __iter__(self):
 		return self.vals.__iter__()
-- 
2.43.0


From f1c6937e5ef016b1ff4f4030ed089a83f5105336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:39 +0000
Subject: [PATCH 148/188] fix: Floquet_t_vec.get_coordinates failed for many
 indices, due to rounding of the times

---
 quspin/tools/Floquet.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index 40691a6..28f7180 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -671,14 +671,8 @@ class Floquet_t_vec(object):
 
 		"""	
 
-		t=self._vals[index]
-		eps=1E-15
-
-		i=_np.searchsorted(self.strobo._vals,t+eps)-1
-
-		j=_np.where( _np.abs(t-i*self._T - self._vals[:self.strobo.inds[1]])<eps )[0][0]
-
-		return (i,j)
+		# the vector starts at a full period, and has len_T points per period
+		return divmod(range(self._len)[index],self._len_T)
 
 
 
-- 
2.43.0


From a395964467a6d261b5640ccc1d115940987c1a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:39 +0000
Subject: [PATCH 149/188] fix: Floquet gave the transposed one-period unitary,
 and its eigenvectors and logarithm

---
 quspin/tools/Floquet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index 28f7180..be20d40 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -115,19 +115,22 @@ def _get_U_cont(H,T,n_jobs,atol=1E-9,rtol=1E-9):
 	
 	sols=Parallel(n_jobs=n_jobs)(delayed(_evolve_cont)(i,H,T,atol,rtol) for i in _range_iter(0,H.Ns,1))
 
-	return vstack(sols)
+	# the solutions are the columns of the evolution operator
+	return vstack(sols).T
 
 def _get_U_step_3(H_list,dt_list,n_jobs): 
 	
 	sols=Parallel(n_jobs=n_jobs)(delayed(_evolve_step_3)(i,H_list,dt_list) for i in _range_iter(0,H_list[0].Ns,1))
 
-	return vstack(sols)
+	# the solutions are the columns of the evolution operator
+	return vstack(sols).T
 
 def _get_U_step_2(H,t_list,dt_list,n_jobs): 
 	
 	sols=Parallel(n_jobs=n_jobs)(delayed(_evolve_step_2)(i,H,t_list,dt_list) for i in _range_iter(0,H.Ns,1))
 
-	return vstack(sols)
+	# the solutions are the columns of the evolution operator
+	return vstack(sols).T
 
 
 
-- 
2.43.0


From 6968f64ca17239ae769304305eeb17c23e1b21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:59 +0000
Subject: [PATCH 150/188] fix: Floquet states were not orthogonal where
 quasienergies are degenerate up to the accuracy of the evolution only

---
 quspin/tools/Floquet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index be20d40..2460c94 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -329,9 +329,9 @@ class Floquet(object):
 		# find Floquet states and phases
 		if "VF" in variables:
 			thetaF, VF = _la.eig(UF,overwrite_a=True)
-			# check and orthogonalise VF in degenerate subspaces
-			if _np.any( _np.diff(_np.sort(thetaF)) < 1E3*_np.finfo(thetaF.dtype).eps):
-				VF,_ = _la.qr(VF, overwrite_a=True) 
+			# orthogonalise VF in (nearly) degenerate subspaces, where UF is unitary only up to the accuracy of the evolution
+			VF,R = _la.qr(VF, overwrite_a=True)
+			VF *= _np.exp(1j*_np.angle(R.diagonal())) # keep the phases of the eigenvectors
 			
 			# https://math.stackexchange.com/questions/269164/diagonalizable-unitarily-schur-factorization
 			# thetaF, VF = _la.schur(UF,overwrite_a=True,output='real')
-- 
2.43.0


From fb4e8f4259f69f17384296943167a92b3270c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:04 +0000
Subject: [PATCH 151/188] fix: KL_div refused distributions with vanishing
 entries

---
 quspin/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/misc.py b/quspin/tools/misc.py
index 37acfea..d0f14b7 100644
--- a/quspin/tools/misc.py
+++ b/quspin/tools/misc.py
@@ -145,7 +145,7 @@ def KL_div(p1,p2):
 		raise TypeError("Expecting the probability distributions 'p1' and 'p2' to have linear dimension!")
 
 
-	if _np.any(p1<=0.0) or _np.any(p2<=0.0):
+	if _np.any(p1<0.0) or _np.any(p2<0.0):
 		raise TypeError("Expecting all entries of the probability distributions 'p1' and 'p2' to be non-negative!")
 	
 	if abs(sum(p1)-1.0) > 1E-13:
-- 
2.43.0


From 5df5b242158c9b64cc098c89497afbe05edfd5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:45 +0000
Subject: [PATCH 152/188] fix: project_op failed for arrays with a basis or a
 sparse projector

---
 quspin/tools/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/misc.py b/quspin/tools/misc.py
index d0f14b7..f135d6c 100644
--- a/quspin/tools/misc.py
+++ b/quspin/tools/misc.py
@@ -105,9 +105,9 @@ def project_op(Obs,proj,dtype=_np.complex128):
 			proj_down=True
 
 		if proj_down:
-			Proj_Obs = proj.T.conj().dot(Obs.dot(proj))
+			Proj_Obs = proj.T.conj() @ (Obs @ proj)
 		else:
-			Proj_Obs = proj.dot(Obs.dot(proj.T.conj()))
+			Proj_Obs = proj @ (Obs @ proj.T.conj())
 
 	# define dictionary with outputs
 	return_dict = {}
-- 
2.43.0


From 2c0c2a2f93f8be0cbf19ce1fbf620783c984f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:45 +0000
Subject: [PATCH 153/188] fix: diag_ensemble failed for fluctuations of an
 observable given as array

---
 quspin/tools/measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index a0ca2de..e123207 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -276,7 +276,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 
 	# various checks
 	if delta_t_Obs or delta_q_Obs:
-		if not Obs:
+		if Obs is False:
 			raise TypeError("Expecting to parse the observable 'Obs' whenever 'delta_t_Obs = True' or 'delta_q_Obs = True'!")
 	
 	# calculate diagonal ensemble DM
-- 
2.43.0


From 7803742148decb16e6f56d72c5bfd3b7ea925b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:45 +0000
Subject: [PATCH 154/188] fix: diag_ensemble gave wrong fluctuations for
 complex matrix elements of the observable

---
 quspin/tools/measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index e123207..bfa3387 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -372,7 +372,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 			# diagonal matrix elements of Obs^2 in the basis V2
 			#delta_t_Obs =  _np.einsum( 'ij,ji->i', V2.T.conj(), Obs.dot(Obs).dot(V2) ).real
 			Obs = V2.T.conj().dot( Obs.dot(V2) )
-			delta_t_Obs = _np.square(Obs)
+			delta_t_Obs = _np.abs(Obs)**2
 			_np.fill_diagonal(delta_t_Obs,0.0)
 			if delta_q_Obs is not False:
 				delta_q_Obs = _np.diag(Obs.dot(Obs)).real
-- 
2.43.0


From cc5a3eaaad96c96eb7e97096dac4fdb6a4525b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:45 +0000
Subject: [PATCH 155/188] fix: quantum fluctuations of diag_ensemble were nan
 where they vanish

---
 quspin/tools/measurements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index bfa3387..008e471 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -1220,7 +1220,8 @@ def _inf_time_obs(rho,istate,Obs=False,delta_t_Obs=False,delta_q_Obs=False,Sd_Re
 
 		# calculate diag ens value of Obs fluctuations
 		if delta_q_Obs is not False:
-			delta_q_Obs_d = _np.sqrt( _np.einsum('j...,j->...',rho,delta_q_Obs).real - delta_t_Obs_d - Obs_d**2 )
+			delta_q_Obs_d = _np.einsum('j...,j->...',rho,delta_q_Obs).real - delta_t_Obs_d - Obs_d**2
+			delta_q_Obs_d = _np.sqrt( _np.maximum(delta_q_Obs_d,0.0) ) # rounding errors can be negative
 
 		delta_t_Obs_d = _np.sqrt( delta_t_Obs_d )
 
-- 
2.43.0


From 3e28726173a54110ca6970506d04ac9f132d5318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:45 +0000
Subject: [PATCH 156/188] fix: obs_vs_time replaced the observables in the
 user's dictionary

---
 quspin/tools/measurements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 008e471..19ae111 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -552,6 +552,7 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 
 	num_Obs = len(Obs_dict.keys())
 
+	Obs_dict = dict(Obs_dict)
 	for key, val in Obs_dict.items():
 		if not ishamiltonian(val):
 			if not(_sp.issparse(val)) and not(val.__class__ in [_np.ndarray,_np.matrix]):
-- 
2.43.0


From 1c36725028f9c00911a95f1e008d634d62fd293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:45 +0000
Subject: [PATCH 157/188] fix: diag_ensemble rounded distributions with integer
 arguments to integers

---
 quspin/tools/measurements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 19ae111..1487457 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -328,7 +328,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 
 		if 'f_norm' in system_state.keys():
 			f_norm = system_state['f_norm']
-			f_norms = _np.zeros((len(f_args[0])),dtype=type(f_args[0][0]) )
+			f_norms = _np.zeros((len(f_args[0])),dtype=_np.float64)
 		else:
 			f_norm = True
 
@@ -340,7 +340,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 
 		# define diagonal (in V1) mixed DM
 		
-		rho_mixed = _np.zeros((len(E1),len(f_args[0])),dtype=type(f_args[0][0]) )
+		rho_mixed = _np.zeros((len(E1),len(f_args[0])),dtype=_np.float64)
 		for i, arg in enumerate(f_args[0]):
 			if f_norm:
 				rho_mixed[:,i] = f(E1,arg) / sum(f(E1,arg))
-- 
2.43.0


From 0a4bd45b3ca70a8cddb96d4e2514186b98264a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:45 +0000
Subject: [PATCH 158/188] fix: ent_entropy took the rows of V_rho for the
 eigenvectors of the density matrix

---
 quspin/tools/measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 1487457..3230827 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -67,7 +67,7 @@ def ent_entropy(system_state,basis,chain_subsys=None,DM=False,svd_return_vec=[Fa
 		if "rho_d" in system_state and "V_rho" in system_state:
 			V_rho = system_state["V_rho"]
 			rho_d = system_state["rho_d"] 
-			state = _np.einsum("ji,j,jk->ik",V_rho,rho_d,V_rho.conj())
+			state = _np.einsum("ij,j,kj->ik",V_rho,rho_d,V_rho.conj())
 		elif "V_states" in system_state:
 			state=system_state['V_states']
 			_basis_kwargs["enforce_pure"]=True
-- 
2.43.0


From d8d8f8f89c6cb2212463677f804264b5e85bb3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:23 +0000
Subject: [PATCH 159/188] fix: entropies of obs_vs_time took the states for a
 density matrix if there are as many times as basis states

---
 quspin/tools/measurements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 3230827..ca2f5d1 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -646,6 +646,8 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 			
 		# calculate entanglement entropy if requested	
 		if calc_Sent:
+			if psi_t.ndim == 2: # one pure state for each time, also if there are as many times as states
+				Sent_args["enforce_pure"] = True
 			Sent_time = calc_ent_entropy(psi_t,**Sent_args)
 
 
-- 
2.43.0


From 8ee66987f3b3e292101ed2c01d47c119e599d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:23 +0000
Subject: [PATCH 160/188] fix: obs_vs_time ignored enforce_pure for generators
 of states

---
 quspin/tools/measurements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index ca2f5d1..4568f82 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -658,7 +658,7 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 		time = times[0]
 
 		for key,Obs in Obs_dict.items():
-			val = Obs.expt_value(psi,time=time,check=False)
+			val = Obs.expt_value(psi,time=time,check=False,enforce_pure=enforce_pure)
 			Expt_time[key] = [val]
 
 
@@ -683,7 +683,7 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 			if verbose: print("obs_vs_time integrated to t={:.4f}".format(time))
 
 			for key,Obs in Obs_dict.items():
-				Expt_time[key].append(Obs.expt_value(psi,time=time,check=False))
+				Expt_time[key].append(Obs.expt_value(psi,time=time,check=False,enforce_pure=enforce_pure))
 
 			if calc_Sent:
 				Sent_time_update = calc_ent_entropy(psi,**Sent_args)
-- 
2.43.0


From 14dd43086eb4c270e4d4fa1ef9a9107b07793cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:23 +0000
Subject: [PATCH 161/188] fix: expectation values of several pure states at
 several times were those of a density matrix, or failed

---
 quspin/operators/hamiltonian_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 0a4d231..7a2425f 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -916,6 +916,8 @@ class hamiltonian(object):
 				V_left = _np.asarray(V_left)
 				if V_left.ndim == 2: # multiple pure states multiple time points
 					return _np.einsum("ij,ij->j",V_left.conj(),V_right)
+				elif V_left.ndim == 3 and (V_left.shape[0] != V_left.shape[1] or enforce_pure): # several pure states multiple time points
+					return _np.einsum("ijk,ijk->jk",V_left.conj(),V_right)
 				elif V_left.ndim == 3: # multiple mixed states multiple time points
 					return _np.einsum("iij->j",V_right)
 
-- 
2.43.0


From 70e6cd9fe17599c205595e22c24e9c9cd700f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:04 +0000
Subject: [PATCH 162/188] fix: diag_ensemble failed for entanglement entropies
 in one-dimensional blocks

---
 quspin/tools/measurements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 4568f82..03ec56d 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -411,6 +411,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 			sub_sys_A=tuple(range(basis.L//2))
 		N_A=len(sub_sys_A)
 		rdm_A = basis.partial_trace(V2,sub_sys_A=sub_sys_A,enforce_pure=True,**partial_tr_args)
+		rdm_A = rdm_A.reshape((-1,)+rdm_A.shape[-2:]) # the axis of the states is missing if there is one only
 		rdm = _np.einsum('n...,nij->...ij',rho,rdm_A)
 	
 		Srdm_Renyi = _npla.eigvalsh(rdm).T # components (i,psi) 
-- 
2.43.0


From 227871ce20e43359ad91f7debf7d24a4012de1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:04 +0000
Subject: [PATCH 163/188] fix: ent_entropy failed for Schmidt values together
 with DM='other_subsys'

---
 quspin/tools/measurements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 03ec56d..8529391 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -76,7 +76,8 @@ def ent_entropy(system_state,basis,chain_subsys=None,DM=False,svd_return_vec=[Fa
 	else:
 		state=system_state
 
-	translate_dict.update({"DM_chain_subsys":'rdm_A',"DM_other_subsys":'rdm_B',"both":'both','lmbda':"p_A"})
+	lmbda_key = "p_B" if DM == 'other_subsys' else "p_A"
+	translate_dict.update({"DM_chain_subsys":'rdm_A',"DM_other_subsys":'rdm_B',"both":'both','lmbda':lmbda_key})
 	
 	
 	Sent = basis.ent_entropy(state,sub_sys_A=chain_subsys,**_basis_kwargs)
-- 
2.43.0


From 9536900db15b740a76d3d30580b7dd5860c9c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:49 +0000
Subject: [PATCH 164/188] fix: obs_vs_time refused arrays of several pure
 states at each time

---
 quspin/operators/hamiltonian_core.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 7a2425f..5e0bd74 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -665,9 +665,6 @@ class hamiltonian(object):
 				V = V.tocsc()
 				return _sp.hstack([a*self.dot(V[:,i],time=t,check=check) for i,t in enumerate(time)],format="csc")
 			else:
-				if V.ndim == 3 and V.shape[0] != V.shape[1]:
-					raise ValueError("Density matrices must be square!")
-
 				# allocate C-contiguous array to output results in.
 				out = _np.zeros(V.shape[-1:]+V.shape[:-1],dtype=result_dtype)
 				
-- 
2.43.0


From c7a1a6a1cede26034e30bbca22785e82f199bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:30 +0000
Subject: [PATCH 165/188] fix: obs_vs_time failed for a generator with a single
 time or a single basis state, with return_state

---
 quspin/tools/measurements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 8529391..0a7dd44 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -610,9 +610,11 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 			variables.append("psi_t")
 			psi_t_list = []
 			for psi in psi_t:
-				psi_t_list.append(psi)
+				psi_t_list.append(_np.asarray(psi))
 
-			psi_t = _np.squeeze(_np.dstack(psi_t_list))
+			psi_t = _np.stack(psi_t_list,axis=-1)
+			if psi_t.ndim == 3 and psi_t.shape[1] == 1: # column vectors
+				psi_t = psi_t[:,0,:]
 
 			for Obs in Obs_dict.values():
 				if psi_t.shape[0] != Obs._shape[1]:
-- 
2.43.0


From f659d374b5e3fd61f59144e787767a60babe0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 166/188] fix: user_basis failed without allowed_ops

---
 quspin/basis/basis_general/base_user.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/quspin/basis/basis_general/base_user.py b/quspin/basis/basis_general/base_user.py
index 729899a..4d7a3ae 100644
--- a/quspin/basis/basis_general/base_user.py
+++ b/quspin/basis/basis_general/base_user.py
@@ -476,6 +476,8 @@ class user_basis(basis_general):
 		self._Ns_block_est = self._Ns
 		self._Np = Np
 		self._sps=sps
+		if allowed_ops is None:
+			allowed_ops = [chr(i) for i in range(256)] # all characters allowed.
 		self._allowed_ops=set(allowed_ops)
 
 		nmax = _np.prod(self._pers)
@@ -493,10 +495,6 @@ class user_basis(basis_general):
 			self._basis = self._basis[ind]
 			self._n = self._n[ind]
 
-		if allowed_ops is None:
-			allowed_ops = set([chr(i) for i in range(256)]) # all characters allowed.
-
-
 
 	def __type__(self):
 		return "<type 'qspin.basis.user.user_basis'>"
-- 
2.43.0


From b6ae43d9fcd2996d1084d6d1f1a0e937bbbdcf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 167/188] fix: user_basis refused several particle sectors

---
 quspin/basis/basis_general/base_user.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/base_user.py b/quspin/basis/basis_general/base_user.py
index 4d7a3ae..1c9e1b4 100644
--- a/quspin/basis/basis_general/base_user.py
+++ b/quspin/basis/basis_general/base_user.py
@@ -322,7 +322,7 @@ class user_basis(basis_general):
 							of the particle sector is 1".format(n_sectors))
 					elif type(Np) is tuple and n_sectors!=len(Np):
 						raise ValueError("n_sectors is {} when the size \
-							of the particle sector is {}".format(n_sectors,len(np)))
+							of the particle sector is {}".format(n_sectors,len(Np)))
 					#else:
 					#	raise ValueError("Np must be tuple, int, or a list of tuples/integers.")
 				else:
@@ -351,7 +351,7 @@ class user_basis(basis_general):
 						elif type(np) is tuple and n_sectors!=len(np):
 							raise ValueError("n_sectors is {} when the size \
 								of the particle sector is {}".format(n_sectors,len(np)))
-						else:
+						elif type(np) is not int and type(np) is not tuple:
 							raise ValueError("Np must be tuple, int, or a list of tuples/integers.")
 					else:
 						if type(np) is int:
-- 
2.43.0


From b95f932e28aa8407f4eba846a7ef683e3504608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 168/188] fix: user_basis with _make_basis=False failed

---
 quspin/basis/basis_general/base_user.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_user.py b/quspin/basis/basis_general/base_user.py
index 1c9e1b4..64fd637 100644
--- a/quspin/basis/basis_general/base_user.py
+++ b/quspin/basis/basis_general/base_user.py
@@ -1,5 +1,5 @@
 from .base_general import basis_general
-from ._basis_general_core import user_core_wrap
+from ._basis_general_core import user_core_wrap,basis_zeros
 import numpy as _np
 from numba import cfunc, types, njit
 from numba.ccallback import CFunc
-- 
2.43.0


From cf1b5479e05dc65ae577556706275e1ba94441dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 169/188] fix: projections of a user_basis to its particle
 sector failed

---
 quspin/basis/basis_general/base_general.py | 14 +++++++++-----
 quspin/basis/basis_general/base_user.py    |  6 ++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index 082ce3d..a61ef7d 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -471,7 +471,7 @@ class basis_general(lattice_basis):
 		if pcon and self._get_proj_pcon:
 
 			if self._basis_pcon is None:
-				self._basis_pcon = self.__class__(**self._pcon_args)
+				self._basis_pcon = self._make_basis_pcon()
 
 			basis_pcon = self._basis_pcon._basis
 			Ns_full = basis_pcon.shape[0]
@@ -527,8 +527,7 @@ class basis_general(lattice_basis):
 
 		if pcon==True:
 			if self._basis_pcon is None:
-				self._basis_pcon = self.__class__(**self._pcon_args,make_basis=False)
-				self._basis_pcon.make(N_p=0)
+				self._basis_pcon = self._make_basis_pcon()
 
 			basis_pcon = self._basis_pcon._basis
 
@@ -628,8 +627,7 @@ class basis_general(lattice_basis):
 
 		if pcon==True:
 			if self._basis_pcon is None:
-				self._basis_pcon = self.__class__(**self._pcon_args,make_basis=False)
-				self._basis_pcon.make(N_p=0)
+				self._basis_pcon = self._make_basis_pcon()
 
 			basis_pcon = self._basis_pcon._basis
 
@@ -681,6 +679,12 @@ class basis_general(lattice_basis):
 				return v_out	
 
 
+	def _make_basis_pcon(self): # the particle-conserving basis without symmetries.
+		basis_pcon = self.__class__(**self._pcon_args,make_basis=False)
+		basis_pcon.make(N_p=0)
+		return basis_pcon
+
+
 	@property
 	def _inversion(self): # how inversion acts on operators, see _check_symm_map.
 		return {}
diff --git a/quspin/basis/basis_general/base_user.py b/quspin/basis/basis_general/base_user.py
index 64fd637..7194dc6 100644
--- a/quspin/basis/basis_general/base_user.py
+++ b/quspin/basis/basis_general/base_user.py
@@ -207,6 +207,7 @@ class user_basis(basis_general):
 
 		# no particle conservation basis created at this point.
 		self._basis_pcon = None
+		self._pcon_args = dict(basis_dtype=basis_dtype,N=N,op_dict=op_dict,sps=sps,pcon_dict=pcon_dict,allowed_ops=allowed_ops)
 		self._get_proj_pcon = False
 		self._made_basis = False # keeps track of whether the basis has been made
 
@@ -496,6 +497,11 @@ class user_basis(basis_general):
 			self._n = self._n[ind]
 
 
+	def _make_basis_pcon(self):
+		basis_pcon = self.__class__(**self._pcon_args,_make_basis=False)
+		basis_pcon.make(N_p=0)
+		return basis_pcon
+
 	def __type__(self):
 		return "<type 'qspin.basis.user.user_basis'>"
 
-- 
2.43.0


From b1c449d9f3765f4e249d9d29763ff4ef50c7ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:23 +0000
Subject: [PATCH 170/188] fix: blocks listed by
 allowed_blocks_spin_inversion_iter lost their zblock

---
 quspin/basis/transformations/square.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/quspin/basis/transformations/square.py b/quspin/basis/transformations/square.py
index 319b7ab..56d9528 100644
--- a/quspin/basis/transformations/square.py
+++ b/quspin/basis/transformations/square.py
@@ -97,9 +97,7 @@ class square_lattice_trans(object):
 		if (Np == nmax*(Lx*Ly)//2 and (Lx*Ly)%2 == 0) or Np is None:
 			for blocks in self.allowed_blocks_iter():
 				for zblock in range(2):
-					blocks["zblock"] = (Z,zblock)
-					yield blocks
-					blocks.pop("zblock")
+					yield dict(blocks,zblock=(Z,zblock))
 		else:
 			for blocks in self.allowed_blocks_iter():
 				yield blocks
-- 
2.43.0


From 691a50a857f0fe2b5f3d4516a3af45e01fbaed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:23 +0000
Subject: [PATCH 171/188] fix: allowed_blocks_iter gave a diagonal reflection
 for rectangular lattices

---
 quspin/basis/transformations/square.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/transformations/square.py b/quspin/basis/transformations/square.py
index 56d9528..228643d 100644
--- a/quspin/basis/transformations/square.py
+++ b/quspin/basis/transformations/square.py
@@ -151,7 +151,7 @@ class square_lattice_trans(object):
 			elif kx == Lx//2 and (Lx%2==0):
 				if ky == Ly//2 and (Ly%2==0):
 					for px,py in product(range(2),range(2)):
-						if px == py:
+						if px == py and Lx==Ly:
 							for pd in range(2):
 								yield dict(kxblock=(T_x,kx),kyblock=(T_y,ky),pxblock=(P_x,px),pyblock=(P_y,py),pdblock=(P_d,pd))
 						else:
-- 
2.43.0


From daaf0d0fd28b36806718a74f8c3df4db7e236918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:23 +0000
Subject: [PATCH 172/188] fix: allowed_blocks_iter left out the blocks of
 generic momenta

---
 quspin/basis/transformations/square.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/basis/transformations/square.py b/quspin/basis/transformations/square.py
index 228643d..a3b9e98 100644
--- a/quspin/basis/transformations/square.py
+++ b/quspin/basis/transformations/square.py
@@ -169,4 +169,6 @@ class square_lattice_trans(object):
 				elif kx == -ky and (Lx==Ly):
 					for pe in range(2):
 						yield dict(kxblock=(T_x,kx),kyblock=(T_y,ky),pdblock=(P_e,pe))
+				else:
+					yield dict(kxblock=(T_x,kx),kyblock=(T_y,ky))
 
-- 
2.43.0


From 521cd598e97e36ca4bd6051ac05ad516d261fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:12 +0000
Subject: [PATCH 173/188] fix: bitwise operations read and wrote past arrays of
 different integer types

---
 .../general_basis_utils.pyx                   | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index 08e465d..726344c 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -480,6 +480,9 @@ def bitwise_not(x, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x.dtype:
+            raise TypeError("expecting same dtype for out and x arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
@@ -591,6 +594,8 @@ def bitwise_and(x1, x2, out=None, where=None):
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
     if x2.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
+    if x1.dtype != x2.dtype:
+        raise TypeError("expecting same dtype for x1 and x2 arrays.")
 
     if out is None:
         out = _np.zeros(x1.shape,dtype=x1.dtype,order="C")
@@ -601,6 +606,9 @@ def bitwise_and(x1, x2, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x1.dtype:
+            raise TypeError("expecting same dtype for out and x1 arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
@@ -711,6 +719,8 @@ def bitwise_or(x1, x2, out=None, where=None):
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
     if x2.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
+    if x1.dtype != x2.dtype:
+        raise TypeError("expecting same dtype for x1 and x2 arrays.")
 
     if out is None:
         out = _np.zeros(x1.shape,dtype=x1.dtype,order="C")
@@ -721,6 +731,9 @@ def bitwise_or(x1, x2, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x1.dtype:
+            raise TypeError("expecting same dtype for out and x1 arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
@@ -831,6 +844,8 @@ def bitwise_xor(x1, x2, out=None, where=None):
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
     if x2.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
+    if x1.dtype != x2.dtype:
+        raise TypeError("expecting same dtype for x1 and x2 arrays.")
 
     if out is None:
         out = _np.zeros(x1.shape,dtype=x1.dtype,order="C")
@@ -841,6 +856,9 @@ def bitwise_xor(x1, x2, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x1.dtype:
+            raise TypeError("expecting same dtype for out and x1 arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
@@ -1000,6 +1018,9 @@ def _bitwise_left_shift(x1, shift_type[::1] x2, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x1.dtype:
+            raise TypeError("expecting same dtype for out and x1 arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
@@ -1074,6 +1095,9 @@ def _bitwise_right_shift(x1, shift_type[::1] x2, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x1.dtype:
+            raise TypeError("expecting same dtype for out and x1 arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
-- 
2.43.0


From e790b3aad2fd7871446c9b166a78af4133dc3b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:12 +0000
Subject: [PATCH 174/188] fix: bitwise shifts by the width of the integers or
 more were undefined

---
 .../_basis_general_core/source/general_basis_bitops.h         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_bitops.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_bitops.h
index 477132d..eb246a4 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_bitops.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_bitops.h
@@ -32,13 +32,13 @@ struct bitwise_xor_op : std::binary_function<I,I,I>
 template<class I, class J>
 struct bitwise_left_shift_op : std::binary_function<I,J,I> 
 {
-	I inline operator()(I a, J b){return a << b;}
+	I inline operator()(I a, J b){return (b < 8*sizeof(I) ? I(a << b) : I(0));}
 };
 
 template<class I, class J>
 struct bitwise_right_shift_op : std::binary_function<I,J,I>
 {
-	I inline operator()(I a, J b){return a >> b;}
+	I inline operator()(I a, J b){return (b < 8*sizeof(I) ? I(a >> b) : I(0));}
 };
 
 
-- 
2.43.0


From ed0c7acdf75434d5f2a140af176751f8a40c1117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:12 +0000
Subject: [PATCH 175/188] fix: bitwise shifts refused lists, signed integers
 and strided or read-only arrays

---
 .../general_basis_utils.pyx                   | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index 726344c..43c93fc 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -930,7 +930,7 @@ def bitwise_leftshift(x1, x2, out=None, where=None):
 
     """
 
-    return _bitwise_left_shift(x1, x2, out=out, where=where)
+    return _bitwise_left_shift(x1, _shifts(x2), out=out, where=where)
 
 
 def bitwise_rightshift(x1, x2, out=None, where=None):
@@ -973,7 +973,25 @@ def bitwise_rightshift(x1, x2, out=None, where=None):
 
     """
 
-    return _bitwise_right_shift(x1, x2, out=out, where=where)
+    return _bitwise_right_shift(x1, _shifts(x2), out=out, where=where)
+
+
+def _shifts(x2):
+    # shifts as contiguous array of unsigned integers
+    x2=_np.asarray(x2)
+
+    if x2.dtype.kind not in "iu":
+        raise TypeError("x2 must be an array of integers.")
+
+    if x2.ndim!=1:
+        raise TypeError("x2 must be a 1d array.")
+
+    if x2.dtype.kind == "i":
+        if (x2<0).any():
+            raise ValueError("x2 must not contain negative integers.")
+        x2=x2.astype(_np.uint64)
+
+    return _np.require(x2,requirements=["C","W"])
 
 
 def _bitwise_left_shift(x1, shift_type[::1] x2, out=None, where=None):
-- 
2.43.0


From 0072a673891bc9a2044f751321d8c6a1b90caf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:42 +0000
Subject: [PATCH 176/188] fix: user_basis took values of pre_check_state above
 255 for false

---
 .../_basis_general_core/source/user_basis_core.h              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/user_basis_core.h b/quspin/basis/basis_general/_basis_general_core/source/user_basis_core.h
index c7a2e27..bfd0e3b 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/user_basis_core.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/user_basis_core.h
@@ -28,7 +28,7 @@ class user_basis_core : public general_basis_core<I,P>
 	typedef I (*next_state_type)(I,I,I,I*);
 	typedef int (*op_func_type)(op_results<I>*,char,int,int,I*);
 	typedef void (*count_particles_type)(I,int*,I*);
-	typedef bool (*check_state_nosymm_type)(I,I,I*);
+	typedef I (*check_state_nosymm_type)(I,I,I*);
 
 	public:
 		map_type * map_funcs;
@@ -118,7 +118,7 @@ class user_basis_core : public general_basis_core<I,P>
 			bool ns_check=true;
 
 			if(pre_check_state){
-				ns_check = (*pre_check_state)(s,(I)general_basis_core<I,P>::N, precs_args);
+				ns_check = ((*pre_check_state)(s,(I)general_basis_core<I,P>::N, precs_args) != 0);
 			}			
 			
 			if(ns_check){
-- 
2.43.0


From ff09115bba6bb23b5dfa711c069684d8aa4fd933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:34 +0000
Subject: [PATCH 177/188] fix: products of exp_op with a quantum_operator
 refused the argument pars

---
 quspin/operators/exp_op_core.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index ece7a28..a3c7a80 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -433,6 +433,14 @@ class exp_op(object):
 		else:
 			return _sp_expm(self._a * self.O.tocsc(**call_kwargs))
 
+	@staticmethod
+	def _value(O,call_kwargs):
+		# matrix of O at the time, or the parameters, in call_kwargs.
+		if quantum_operator_core.isquantum_operator(O) and isinstance(call_kwargs.get("pars"),dict):
+			call_kwargs = call_kwargs["pars"]
+
+		return O(**call_kwargs)
+
 	def dot(self, other,shift=None,**call_kwargs):
 		"""Left-multiply operator by matrix exponential.
 
@@ -488,9 +496,9 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a * (self.O(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))
+			M = self._a * (self._value(self.O,call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))
 		else:
-			M = self._a * self.O(**call_kwargs)
+			M = self._a * self._value(self.O,call_kwargs)
 
 		if self._iterate:
 			if is_ham:
@@ -583,9 +591,9 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
 		if shift is not None:
-			M = (self._a * (self.O(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))).T
+			M = (self._a * (self._value(self.O,call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))).T
 		else:
-			M = (self._a * self.O(**call_kwargs)).T
+			M = (self._a * self._value(self.O,call_kwargs)).T
 
 		if self._iterate:
 			if is_ham:
@@ -676,9 +684,9 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a.conjugate() * (self.O.H(**call_kwargs) + _np.conj(shift)*_sp.identity(self.Ns,dtype=self.O.dtype))
+			M = self._a.conjugate() * (self._value(self.O,call_kwargs).conj().T + _np.conj(shift)*_sp.identity(self.Ns,dtype=self.O.dtype))
 		else:
-			M = self._a.conjugate() * self.O.H(**call_kwargs)
+			M = self._a.conjugate() * self._value(self.O,call_kwargs).conj().T
 			
 		if self._iterate:
 
-- 
2.43.0


From dba03dc444a7c5237cce977a95cfd07f7cfe31be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:20 +0000
Subject: [PATCH 178/188] fix: evolve to a single time failed if it is the
 initial time up to rounding

---
 quspin/tools/evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index 59005db..8f8fd0a 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -379,9 +379,9 @@ def _evolve_scalar(solver,v0,t0,time,*output_args):
 	if time == t0:
 		return _format_output(v0.copy(),*output_args)
 
-	solver.integrate(time)
+	_integrate(solver,time)
 	if solver.successful():
-		return _format_output(solver._y,*output_args)
+		return _format_output(solver._y.copy(),*output_args)
 	else:
 		raise RuntimeError("failed to evolve to time {0}, nsteps might be too small".format(time))	
 
-- 
2.43.0


From 86fc0256ff9a2201bea2632c6420777ffa140dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:23 +0000
Subject: [PATCH 179/188] fix: inversion blocks of 1d bases accepted lists of
 sectors that the inversion leaves

---
 quspin/basis/basis_1d/boson.py   | 4 ++--
 quspin/basis/basis_1d/fermion.py | 4 ++--
 quspin/basis/basis_1d/spin.py    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 05ce24e..33b5bce 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -186,8 +186,8 @@ class boson_basis_1d(basis_1d):
 
 			# checking if spin inversion is compatible with Np and L
 			if (Nb_list is not None) and ((type(zblock) is int) or (type(pzblock) is int)):
-				if len(Nb_list) > 1:
-					ValueError("spin inversion/particle-hole symmetry only reduces the 0 magnetization or half filled particle sector")
+				if len(Nb_list) > 1 and any(L*(self.sps-1)-n not in Nb_list for n in Nb_list):
+					raise ValueError("spin inversion/particle-hole symmetry only reduces the 0 magnetization or half filled particle sector")
 
 				Nb = Nb_list[0]
 
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 8c439e1..28ab123 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -342,8 +342,8 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 		if check_z_symm:
 			# checking if fermion spin inversion is compatible with Np and L
 			if (Nf_list is not None) and ((type(zblock) is int) or (type(pzblock) is int)):
-				if len(Nf_list) > 1:
-					ValueError("fermion spin inversion symmetry only reduces the half-filled particle sector")
+				if len(Nf_list) > 1 and any((ndown,nup) not in Nf_list for nup,ndown in Nf_list):
+					raise ValueError("fermion spin inversion symmetry only reduces the half-filled particle sector")
 
 				Nup,Ndown = Nf_list[0]
 
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index 19d1160..1e42130 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -185,8 +185,8 @@ class spin_basis_1d(basis_1d):
 		if check_z_symm:
 			# checking if spin inversion is compatible with Np and L
 			if (Nup_list is not None) and ((type(zblock) is int) or (type(pzblock) is int)):
-				if len(Nup_list) > 1:
-					ValueError("spin inversion/particle-hole symmetry only reduces the 0 magnetization or half filled particle sector")
+				if len(Nup_list) > 1 and any(L*(self.sps-1)-n not in Nup_list for n in Nup_list):
+					raise ValueError("spin inversion/particle-hole symmetry only reduces the 0 magnetization or half filled particle sector")
 
 				Nup = Nup_list[0]
 
-- 
2.43.0


From ca298eba4767429bd00ab22d58cd9210fdae8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:44 +0000
Subject: [PATCH 180/188] fix: matrix_ele of dense with sparse states of
 quantum_operator and quantum_LinearOperator

---
 quspin/operators/quantum_LinearOperator_core.py | 3 +++
 quspin/operators/quantum_operator_core.py       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 9634c15..68b95ac 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -481,6 +481,9 @@ class quantum_LinearOperator(LinearOperator):
 		if Vl.ndim > 2:
 			raise ValueError("Expecting  0< V.ndim < 3.")
 
+		if _sp.issparse(Vr) and not _sp.issparse(Vl):
+			Vr = Vr.toarray()
+
 		if _sp.issparse(Vl):
 			if diagonal:
 				return Vl.H.dot(Vr).diagonal()
diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index d080f61..07fc229 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -690,6 +690,9 @@ class quantum_operator(object):
 			if Vl.ndim > 2:
 				raise ValueError("Expecting  0< V.ndim < 3.")
 
+		if _sp.issparse(Vr) and not _sp.issparse(Vl):
+			Vr = Vr.toarray()
+
 		if _sp.issparse(Vl):
 			if diagonal:
 				return Vl.H.dot(Vr).diagonal()
-- 
2.43.0


From 6a36c0dcb030f9d7740e8da30928f6516882b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:01 +0000
Subject: [PATCH 181/188] fix: general bases could not be made with
 Ns_block_est equal to the number of states

---
 .../source/make_general_basis.h                  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h b/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h
index 04ce501..9c02251 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h
@@ -79,14 +79,14 @@ npy_intp make_basis_sequential(general_basis_core<I,P> *B,npy_intp MAX,npy_intp
 	bool insuff_mem = false;
 
 	while(MAX != 0){
-		if(Ns>=mem_MAX){
-			insuff_mem = true;
-			break;
-		}
 		double norm = B->check_state(s);
 		npy_intp int_norm = norm;
 		
 		if(!check_nan(norm) && int_norm>0 ){
+			if(Ns>=mem_MAX){
+				insuff_mem = true;
+				break;
+			}
 			basis[Ns] = s;
 			n[Ns] = norm;
 			Ns++;
@@ -113,14 +113,14 @@ npy_intp make_basis_pcon_sequential(general_basis_core<I,P> *B,npy_intp MAX,npy_
 	bool insuff_mem = false;
 
 	while(MAX!=0){
-		if(Ns>=mem_MAX){
-			insuff_mem = true;
-			break;
-		}
 		double norm = B->check_state(s);
 		npy_intp int_norm = norm;
 
 		if(!check_nan(norm) && int_norm>0 ){
+			if(Ns>=mem_MAX){
+				insuff_mem = true;
+				break;
+			}
 			basis[Ns] = s;
 			n[Ns] = norm;
 			Ns++;
-- 
2.43.0


From 90224aeec2d3694ea75aeda6d00c39364d873795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:47 +0000
Subject: [PATCH 182/188] fix: index of photon_basis with conserved Ntot, and
 of photon numbers beyond the cutoff

---
 quspin/basis/photon.py | 44 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index a804d29..e88e49d 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -315,6 +315,47 @@ class photon_basis(tensor_basis):
 			return ME, row, col	
 
 
+	def index(self,*states):
+		"""Finds the index of user-defined Fock state in photon basis.
+
+		Notes
+		-----
+		Particularly useful for defining initial Fock states through a unit vector in the direction specified
+		by `index()`. 
+
+		Parameters
+		-----------
+		states : list
+			State of the particles, as passed to the `index()` function of the particle basis, followed by the number of photons.
+
+		Returns
+		--------
+		int
+			Position of the Fock state in the `photon_basis`.
+
+		Examples
+		--------
+
+		>>> s = "".join("1" for i in range(2)) + "".join("0" for i in range(2))
+		>>> print( basis.index(s,3) )
+
+		"""
+		if len(states) < 2:
+			raise ValueError("states must be list of atleast 2 elements long")
+
+		s_part = self._basis_left.index(*states[:-1])
+		s_ph = self._basis_right.index(states[-1])
+
+		if not self._check_pcon:
+			return s_ph + self._basis_right.Ns*s_part
+
+		# the number of photons is fixed by the state of the particles.
+		if s_ph != self._n[s_part]:
+			raise ValueError("state is not in the basis.")
+
+		return s_part
+
+
 	def get_vec(self,v0,sparse=True,Nph=None,full_part=True):
 		""" DEPRECATED (cf `project_from`). Transforms state from symmetry-reduced basis to full (symmetry-free) basis.
 
@@ -915,6 +956,9 @@ class ho_basis(basis):
 		return self._basis.__getitem__(key)
 
 	def index(self,s):
+		if _np.any(_np.less(s,0)) or _np.any(_np.greater_equal(s,self._Ns)):
+			raise ValueError("state is not in the basis.")
+
 		return _np.searchsorted(self._basis,s)
 
 	def __iter__(self):
-- 
2.43.0


From f0a54263e4e7bb5272b29f13ce2a0de3fd70393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:26 +0000
Subject: [PATCH 183/188] fix: masks (where) of the bitwise operations that are
 not contiguous arrays of bytes

---
 .../_basis_general_core/general_basis_utils.pyx      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index 43c93fc..1a85aa7 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -455,7 +455,7 @@ def bitwise_not(x, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order="C").view(_np.uint8)
        
         if x.size!=py_array_where.size:
             raise TypeError("expecting same size for x and where input arrays.")
@@ -569,7 +569,7 @@ def bitwise_and(x1, x2, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order="C").view(_np.uint8)
        
         if x1.size!=py_array_where.size:
             raise TypeError("expecting same size for x1 and where input arrays.")
@@ -694,7 +694,7 @@ def bitwise_or(x1, x2, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order="C").view(_np.uint8)
        
         if x1.size!=py_array_where.size:
             raise TypeError("expecting same size for x1 and where input arrays.")
@@ -819,7 +819,7 @@ def bitwise_xor(x1, x2, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order="C").view(_np.uint8)
        
         if x1.size!=py_array_where.size:
             raise TypeError("expecting same size for x1 and where input arrays.")
@@ -1007,7 +1007,7 @@ def _bitwise_left_shift(x1, shift_type[::1] x2, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order="C").view(_np.uint8)
        
         if x1.size!=py_array_where.size:
             raise TypeError("expecting same size for x1 and where input arrays.")
@@ -1084,7 +1084,7 @@ def _bitwise_right_shift(x1, shift_type[::1] x2, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order="C").view(_np.uint8)
        
         if x1.size!=py_array_where.size:
             raise TypeError("expecting same size for x1 and where input arrays.")
-- 
2.43.0


From e7917eccfdab49f6e78ee7367da4b0765845613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:59 +0000
Subject: [PATCH 184/188] fix: projectors of general bases with several sectors
 ignored pcon, unlike project_from and project_to

---
 quspin/basis/basis_general/base_general.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index a61ef7d..9a16837 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -468,15 +468,13 @@ class basis_general(lattice_basis):
 		basis_pcon = None
 		Ns_full = (self._sps**self._N)
 
-		if pcon and self._get_proj_pcon:
+		if pcon:
 
 			if self._basis_pcon is None:
 				self._basis_pcon = self._make_basis_pcon()
 
 			basis_pcon = self._basis_pcon._basis
 			Ns_full = basis_pcon.shape[0]
-		elif pcon and self._get_proj_pcon:
-			raise TypeError("pcon=True only works for basis of a single particle number sector.")
 
 		sign = _np.ones_like(self._basis,dtype=_np.int8)
 		c = self._n.astype(dtype,copy=True)
-- 
2.43.0


From 7e16bd581d97404a731fcce41ba404e1c33946dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:48 +0000
Subject: [PATCH 185/188] fix: quantum_operator.dot dropped operators with
 parameters below the machine precision

---
 quspin/operators/quantum_operator_core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 07fc229..e5a8a17 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -469,10 +469,9 @@ class quantum_operator(object):
 			else:
 				out = _np.zeros_like(V,dtype=result_dtype)
 
-			eps = _np.finfo(self.dtype).eps
 			V = _np.asarray(V,dtype=result_dtype)
 			for key,J in pars.items():
-				if _np.abs(J)>eps:
+				if J != 0:
 					self._matvec_functions[key](self._quantum_operator[key],V,overwrite_out=False,a=a*J,out=out)
 
 
-- 
2.43.0


From 5d7237d1027b7c4befcc8cb1dbc09709e67ad0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:07 +0000
Subject: [PATCH 186/188] fix: hamiltonian with copy=False changed a dense
 matrix with the same drive as another

---
 quspin/operators/hamiltonian_core.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 5e0bd74..57d9787 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -416,11 +416,12 @@ class hamiltonian(object):
 					self._is_dense=True
 
 
-				if func in self._dynamic:
-					try:
-						self._dynamic[func] += O
-					except:
-						self._dynamic[func] = self._dynamic[func] + O
+				if func in self._dynamic: # not in place: the matrices given by the user must not be changed
+					O = self._dynamic[func] + O
+					if not _sp.issparse(O): # the sum of a sparse and a dense matrix is a numpy.matrix
+						O = _np.asarray(O)
+
+					self._dynamic[func] = O
 				else:
 					self._dynamic[func] = O
 			
-- 
2.43.0


From 0cafea8e28472b3bb67d2df0f4d47c1d6d878e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:15 +0000
Subject: [PATCH 187/188] fix: operators with small matrix elements were
 dropped from hamiltonian, e.g. 1E-6*H in single precision was zero

---
 quspin/operators/_make_hamiltonian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/_make_hamiltonian.py b/quspin/operators/_make_hamiltonian.py
index 5decc1d..fe6c782 100755
--- a/quspin/operators/_make_hamiltonian.py
+++ b/quspin/operators/_make_hamiltonian.py
@@ -10,8 +10,8 @@ from six import iteritems
 
 
 def _check_almost_zero(matrix):
-	""" Check if matrix is almost zero. """
-	atol = 100*_np.finfo(matrix.dtype).eps
+	""" Check if matrix is zero, whatever the units of its elements are. """
+	atol = _np.finfo(matrix.dtype).tiny
 
 	if _sp.issparse(matrix):
 		return _np.allclose(matrix.data,0,atol=atol)
-- 
2.43.0


From 037d2614ac55c6974cfe2eb25720f1a5020741d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:12 +0000
Subject: [PATCH 188/188] fix: block_ops.evolve and expm dropped states with a
 small norm

---
 quspin/tools/block_tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index 3c81b6d..0b142f8 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -572,6 +572,8 @@ class block_ops(object):
 
 		if imag_time:
 			raise ValueError("imaginary time not supported for block evolution.")
+
+		norm_min = 1000*_np.finfo(self.dtype).eps*_np.linalg.norm(psi_0.data if _sp.issparse(psi_0) else psi_0)
 		P = []
 		H_list = []
 		psi_blocks = []
@@ -585,7 +587,7 @@ class block_ops(object):
 
 			psi = _np.asarray(psi).ravel()
 			
-			if _np.linalg.norm(psi) > 1000*_np.finfo(self.dtype).eps:
+			if _np.linalg.norm(psi) > norm_min:
 				psi_blocks.append(psi)
 				P.append(p.tocoo())
 				H_list.append(self._get_H(key))
@@ -728,6 +730,7 @@ class block_ops(object):
 				else: 
 					endpoint = True
 		
+		norm_min = 1000*_np.finfo(self.dtype).eps*_np.linalg.norm(psi_0.data if _sp.issparse(psi_0) else psi_0)
 		P = []
 		H_list = []
 		psi_blocks = []
@@ -740,7 +743,7 @@ class block_ops(object):
 				psi = p.H.dot(psi_0)
 
 			psi = psi.ravel()
-			if _np.linalg.norm(psi) > 1000*_np.finfo(self.dtype).eps:
+			if _np.linalg.norm(psi) > norm_min:
 				psi_blocks.append(psi)
 				P.append(p.tocoo())
 				H = self._get_H(key)
-- 
2.43.0

