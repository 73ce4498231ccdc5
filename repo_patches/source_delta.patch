From 4f31e049d43b3ba58daa66a0a03cd18aa3a4c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:17 +0000
Subject: [PATCH 001/105] fix: exact product of non-square MPFMatrix objects

mul_exact compared the rows of the left operand with the columns of the right
one and summed over the rows, so that rectangular products were either refused
or wrong.
---
 fixif/func_aux/MPFMatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index 92c638d..d4143fa 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -219,11 +219,11 @@ class MPFMatrix(object):
 		# test sizes
 
 
-		if self.rows != other.cols:
+		if self.cols != other.rows:
 			raise ValueError('Cannot compute exact product of two matrices: incorrect sizes.')
 
 		m = self.rows
-		n = self.rows
+		n = self.cols
 		p = other.cols
 
 		C = mpmath.zeros(m, p)
-- 
2.43.0


From 28c1cbd291eb2131806d60deceafeabd1ea18a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:19 +0000
Subject: [PATCH 002/105] fix: error messages of the exact matrix functions
 raise ValueError, not TypeError

---
 fixif/func_aux/MPFMatrix.py             | 14 +++++++-------
 fixif/func_aux/mpf_matrix_fadd.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fmul.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fsub.py       |  4 ++--
 fixif/func_aux/mpf_matrix_lt_inverse.py |  6 +++---
 fixif/func_aux/mpf_matrix_to_sollya.py  |  4 ++--
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index d4143fa..a0b49c3 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -142,7 +142,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		#test sizes
 		if self.shape != other.shape:
@@ -156,7 +156,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i,j] = mpmath.fadd(self[i,j], other[i,j], exact=True)
 				if mpmath.isnan(C[i,j]) or mpmath.isinf(C[i,j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i,j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i,j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -177,7 +177,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 		if self.shape != other.shape:
@@ -191,7 +191,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i, j] = mpmath.fsub(self[i, j], other[i, j], exact=True)
 				if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -214,7 +214,7 @@ class MPFMatrix(object):
 
 		# check input type
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 
@@ -233,7 +233,7 @@ class MPFMatrix(object):
 					tmp = mpmath.fmul(self[i, k], other[k, j], exact=True)
 					C[i, j] = mpmath.fadd(C[i, j], tmp, exact=True)
 					if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 
 		return MPFMatrix(C)
 
@@ -256,7 +256,7 @@ class MPFMatrix(object):
 
 		# checking the size
 		if self.rows != self.cols:
-			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % self.rows, self.cols)
+			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (self.rows, self.cols))
 		else:
 			n = self.rows
 
diff --git a/fixif/func_aux/mpf_matrix_fadd.py b/fixif/func_aux/mpf_matrix_fadd.py
index 56b400c..f78d33a 100644
--- a/fixif/func_aux/mpf_matrix_fadd.py
+++ b/fixif/func_aux/mpf_matrix_fadd.py
@@ -28,7 +28,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fmul.py b/fixif/func_aux/mpf_matrix_fmul.py
index 2c50ce2..cbce90d 100644
--- a/fixif/func_aux/mpf_matrix_fmul.py
+++ b/fixif/func_aux/mpf_matrix_fmul.py
@@ -28,7 +28,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fsub.py b/fixif/func_aux/mpf_matrix_fsub.py
index cfae140..36235eb 100644
--- a/fixif/func_aux/mpf_matrix_fsub.py
+++ b/fixif/func_aux/mpf_matrix_fsub.py
@@ -28,7 +28,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_lt_inverse.py b/fixif/func_aux/mpf_matrix_lt_inverse.py
index 2622a6b..4d074ed 100644
--- a/fixif/func_aux/mpf_matrix_lt_inverse.py
+++ b/fixif/func_aux/mpf_matrix_lt_inverse.py
@@ -64,15 +64,15 @@ def mpf_matrix_lt_inverse(L):
 		try:
 			L = python2mpf_matrix(L)
 		except ValueError as e:
-			raise ValueError('Cannot compute exact difference of two matrices. %s') % e
+			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(L, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(L)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(L))
 
 
 	#checking the size
 	if L.rows != L.cols:
-		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % L.rows, L.cols)
+		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (L.rows, L.cols))
 	else:
 		n = L.rows
 
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index 95fec46..a56658b 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -24,10 +24,10 @@ def mpf_matrix_to_sollya(A):
 	"""
 
 	if not isinstance(A,mpmath.matrix):
-		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s') % type(A)
+		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s' % type(A))
 
 	if not isinstance(A[0,0], mpmath.mpf):
-		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s') % type(A[0,0])
+		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s' % type(A[0,0]))
 
 	#First, we need to get the (long, long) representation of the matrix A
 	#We compute matrices Y and N such that A[i,j] = Y[i,j] * 2 ** N[i,j]
-- 
2.43.0


From 252611fec63dbfad4d655ee739771b0a6ce1f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:52 +0000
Subject: [PATCH 003/105] fix: conversion of a numpy matrix to mpmath is exact
 whatever the working precision

---
 fixif/func_aux/python2mpf_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/func_aux/python2mpf_matrix.py b/fixif/func_aux/python2mpf_matrix.py
index f493d45..129be71 100644
--- a/fixif/func_aux/python2mpf_matrix.py
+++ b/fixif/func_aux/python2mpf_matrix.py
@@ -11,7 +11,8 @@ def python2mpf_matrix(M):
 	Mmp = mp.zeros(n, m)
 	for i in range(0, n):
 		for j in range(0, m):
-			Mmp[i, j] = mp.mpf(M[i, j])
+			# keep every bit of the double (or int64), whatever the working precision
+			Mmp[i, j] = mp.mpf(M[i, j], prec=max(mp.mp.prec, 64))
 
 
 	return Mmp
-- 
2.43.0


From e6cfb463f4427b5fbb077e9f82465915aeb5c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:52 +0000
Subject: [PATCH 004/105] fix: import sollya where the matrix conversions use
 it

---
 fixif/func_aux/mpf_matrix_to_sollya.py   | 1 +
 fixif/func_aux/sollya_matrix_to_numpy.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index a56658b..f4f6695 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -34,6 +34,7 @@ def mpf_matrix_to_sollya(A):
 
 	(Y, N) = mpf_matrix_get_representation(A)
 
+	import sollya
 	m = A.rows
 	n = A.cols
 	S = list()
diff --git a/fixif/func_aux/sollya_matrix_to_numpy.py b/fixif/func_aux/sollya_matrix_to_numpy.py
index 23b370a..0b72e84 100644
--- a/fixif/func_aux/sollya_matrix_to_numpy.py
+++ b/fixif/func_aux/sollya_matrix_to_numpy.py
@@ -18,6 +18,7 @@ def sollya_matrix_to_numpy(A, m, n):
 	B - numpy matrix
 	"""
 
+	import sollya
 	B = numpy.matrix(numpy.zeros([m,n]))
 	for i in range(0,m):
 		for j in range(0,n):
-- 
2.43.0


From 5e4f57acb16e58c42a1f449c1944df5e3b392a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:11 +0000
Subject: [PATCH 005/105] fix: product of polynomials with a single root

---
 fixif/func_aux/mp_poly_product.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/fixif/func_aux/mp_poly_product.py b/fixif/func_aux/mp_poly_product.py
index f268778..d0403fe 100644
--- a/fixif/func_aux/mp_poly_product.py
+++ b/fixif/func_aux/mp_poly_product.py
@@ -27,23 +27,11 @@ def mp_poly_product(p, j=-1):
 
 	"""
 	degP = len(p)
-	if degP < 2:
+	if degP < 1:
 		raise ValueError('error in polynomial product: empty polynomial')
-	if j == -1:
-		c = mp.matrix([1, p[0]])
-		for i in range(1, degP):
+	c = mp.matrix([1])
+	for i in range(0, degP):
+		if i != j:
 			c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-	else:
-		if j == 0:
-			c = mp.matrix([1, p[1]])
-			for i in range(2, degP):
-				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-		else:
-			c = mp.matrix([1, p[0]])
-			for i in range(1, j):
-				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-
-			for i in range(j + 1, degP):
-				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
 
 	return c
\ No newline at end of file
-- 
2.43.0


From fa5dc82250f7f2a8a4682ad6def2412f33b4a535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:11 +0000
Subject: [PATCH 006/105] fix: exact difference of dSSmp systems whatever the
 working precision

---
 fixif/LTI/dSSmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 474a135..73bb7e0 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -265,7 +265,7 @@ class dSSmp(object):
 				D[i, j] = mpmath.fsub(self.D[i, j], S.D[i, j], exact=True)
 		for i in range(0, self.p):
 			for j in range(0, S.n):
-				C[i, j + self.n] = -S.C[i, j]
+				C[i, j + self.n] = mpmath.fneg(S.C[i, j], exact=True)
 
 		return dSSmp(A, B, C, D)
 
-- 
2.43.0


From 8504acb927c0bf5c30d89d88bd13f7ac333f6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:11 +0000
Subject: [PATCH 007/105] fix: to_dTFmp leaves the working precision as it was
 when the conversion fails

---
 fixif/LTI/dSSmp.py | 56 ++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 73bb7e0..0d75d9a 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -290,46 +290,44 @@ class dSSmp(object):
 		"""
 		# converting the dSS matrices to mp type
 
-		oldprec = mpmath.mp.prec
-		mpmath.mp.prec = prec
-
 		from fixif.LTI import dTFmp
 
 		if self.p != 1 or self.q != 1:
 			raise ValueError('dSS: cannot convert a dSSmp to dTFmp for not a SISO system')
 
-		E, V = mpmath.mp.eig(self.A)  # eig returns a list E and a matrix V
-		Cmp = self.C * V
-		Vinv = mpmath.mp.inverse(V)
-		Bmp = Vinv * self.B
+		# the working precision is changed for these computations only (even when they fail)
+		with mpmath.workprec(prec):
+			E, V = mpmath.mp.eig(self.A)  # eig returns a list E and a matrix V
+			Cmp = self.C * V
+			Vinv = mpmath.mp.inverse(V)
+			Bmp = Vinv * self.B
 
-		Q = mp_poly_product([-e for e in E])
-		PP = mpmath.mp.zeros(Q.rows - 1, 1)
-		# tmp_polyproduct = mp.zeros([self.n, 1]) #temporary polynomial products
-		for i in range(0, self.n):
-			# P = sum_i=0^n c_i * b_i * product_j!=i p_j
-			tmp_polyproduct = mp_poly_product([-e for e in E], i)
-			PP = PP + Cmp[0, i] * Bmp[i, 0] * tmp_polyproduct
+			Q = mp_poly_product([-e for e in E])
+			PP = mpmath.mp.zeros(Q.rows - 1, 1)
+			# tmp_polyproduct = mp.zeros([self.n, 1]) #temporary polynomial products
+			for i in range(0, self.n):
+				# P = sum_i=0^n c_i * b_i * product_j!=i p_j
+				tmp_polyproduct = mp_poly_product([-e for e in E], i)
+				PP = PP + Cmp[0, i] * Bmp[i, 0] * tmp_polyproduct
 
 
-		if self.D[0, 0] != mpmath.mp.zero:
-			P = self.D[0, 0] * Q
-		else:
-			P = mpmath.mp.zeros(Q.rows, 1)
+			if self.D[0, 0] != mpmath.mp.zero:
+				P = self.D[0, 0] * Q
+			else:
+				P = mpmath.mp.zeros(Q.rows, 1)
 
-		for i in range(1, P.rows):
-			P[i, 0] = P[i, 0] + PP[i - 1, 0]
+			for i in range(1, P.rows):
+				P[i, 0] = P[i, 0] + PP[i - 1, 0]
 
-		b = mpmath.mp.zeros(P.rows, 1)
-		a = mpmath.mp.zeros(Q.rows, 1)
-		for i in range(0, P.rows):
-			b[i, 0] = P[i, 0].real
-			b[i, 0] = mpmath.fadd(b[i, 0], mpmath.mp.zero, prec=prec)
-		for i in range(0, Q.rows):
-			a[i, 0] = Q[i, 0].real
-			a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)
+			b = mpmath.mp.zeros(P.rows, 1)
+			a = mpmath.mp.zeros(Q.rows, 1)
+			for i in range(0, P.rows):
+				b[i, 0] = P[i, 0].real
+				b[i, 0] = mpmath.fadd(b[i, 0], mpmath.mp.zero, prec=prec)
+			for i in range(0, Q.rows):
+				a[i, 0] = Q[i, 0].real
+				a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)
 
-		mpmath.mp.prec = oldprec
 		return dTFmp(b, a)
 
 	def WCPGmp(self, delta=2**-53):
-- 
2.43.0


From 64db8051e819ada327ead21132d24a17bd78ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:11 +0000
Subject: [PATCH 008/105] fix: dSSmp.simulate takes the initial state into
 account

---
 fixif/LTI/dSSmp.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 0d75d9a..b555eea 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -427,14 +427,15 @@ class dSSmp(object):
 			raise ValueError('Cannot perform somulation: u is of incorrect size')
 
 		xk = mpmath.mp.zeros(self._n, 1)
-		if x0:
-			if not isinstance(x0, mpmath.matrix):
-				if isinstance(x0, numpy.matrix):
-					xk = python2mpf_matrix(x0)
-				else:
-					raise ValueError('Cannot perform simulation: initial state specified in incorrect format')
-
-		if xk.rows != self._n:
+		if x0 is not None:
+			if isinstance(x0, mpmath.matrix):
+				xk = x0
+			elif isinstance(x0, numpy.matrix):
+				xk = python2mpf_matrix(x0)
+			else:
+				raise ValueError('Cannot perform simulation: initial state specified in incorrect format')
+
+		if xk.rows != self._n or xk.cols != 1:
 			raise ValueError('Cannot perform simulation: initial state is of incorrect size')
 
 		T = u.cols
-- 
2.43.0


From 5282ce06edcee1331885da65f9fe8ee575a4a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:11 +0000
Subject: [PATCH 009/105] fix: dSSmp.simulate(exact=False) rounds and updates
 the state at each iteration

---
 fixif/LTI/dSSmp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index b555eea..917815d 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -459,8 +459,10 @@ class dSSmp(object):
 				yk[:, i] = mpf_matrix_fmul(self._C, xk)
 				yk[:, i] = mpf_matrix_fadd(yk[:, i], mpf_matrix_fmul(self._D, u[:, i]))
 
-			for i in range(0, xk.rows):
-				xk[i, 0] = mpmath.fadd(xkp1[i, 0], mpmath.mp.zero, prec=64, rounding='n')
+				# round the new state to double precision
+				xk = mpmath.mp.zeros(self._n, 1)
+				for j in range(0, self._n):
+					xk[j, 0] = mpmath.fadd(xkp1[j, 0], mpmath.mp.zero, prec=53, rounding='n')
 
 
 		return yk
-- 
2.43.0


From 4df0d1274ededcdef957e3040d83cbe023ade25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:11 +0000
Subject: [PATCH 010/105] fix: normalisation of the coefficients of a dTFmp by
 the first coefficient of its denominator

---
 fixif/LTI/dTFmp.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 4afb131..3d67096 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -49,11 +49,17 @@ class dTFmp(object):
 
 
 		n = a.rows
+		if a[0, 0] == mpmath.mp.zero:
+			raise ValueError('Cannot create a dTFmp object: the first coefficient of the denominator cannot be null')
 		if a[0, 0] != mpmath.mp.one:
+			# division cannot be performed exactly but we do it with doubled precision
+			a0 = a[0, 0]
+			prec = 2 * max([mpmath.mp.prec] + [x._mpf_[3] for x in a] + [x._mpf_[3] for x in b])
+			a, b = a.copy(), b.copy()
 			for i in range(0, n):
-				# division cannot be performed exactly but we do it with doubled precision
-				a[i, 0] = mpmath.fdiv(a[i, 0], a[0, 0], prec=a[i, 0]._mpf_[3] * 2)
-				b[i, 0] = mpmath.fdiv(b[i, 0], b[0, 0], prec=b[i, 0]._mpf_[3] * 2)
+				a[i, 0] = mpmath.fdiv(a[i, 0], a0, prec=prec)
+			for i in range(0, b.rows):
+				b[i, 0] = mpmath.fdiv(b[i, 0], a0, prec=prec)
 
 		self._order = n - 1
 		self._num = b
-- 
2.43.0


From 046650f4f187f27b5683a54a01d4562d45e877af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:11 +0000
Subject: [PATCH 011/105] fix: dTFmp.to_dSSmp is exact, and accepts numerator
 and denominator of different lengths

---
 fixif/LTI/dTFmp.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 3d67096..7c97d03 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -127,10 +127,18 @@ class dTFmp(object):
 
 		from fixif.LTI import dSSmp
 
-		N = self.order + 1
+		# numerator and denominator, completed with zeros so that they have the same length
+		N = max(self.num.rows, self.den.rows)
+		num = mpmath.mp.zeros(N, 1)
+		den = mpmath.mp.zeros(N, 1)
+		for i in range(0, self.num.rows):
+			num[i, 0] = self.num[i, 0]
+		for i in range(0, self.den.rows):
+			den[i, 0] = self.den[i, 0]
 
 		A = mpmath.mp.zeros(N - 1, N - 1)
-		A[0, :] = -self.den.transpose()[0, 1:N]
+		for i in range(0, N - 1):
+			A[0, i] = mpmath.fneg(den[i + 1, 0], exact=True)
 		for i in range(1, N - 1):
 			A[i, i - 1] = mpmath.mp.one
 		B = mpmath.mp.zeros(N - 1, 1)
@@ -139,8 +147,8 @@ class dTFmp(object):
 		# We compute matrix C exactly
 		C = mpmath.mp.zeros(1, N - 1)
 		for i in range(0, N - 1):
-			tmp = mpmath.fmul(self.num[0, 0], self.den[i + 1, 0], exact=True)
-			C[0, i] = mpmath.fsub(self.num[i + 1, 0], tmp, exact=True)
+			tmp = mpmath.fmul(num[0, 0], den[i + 1, 0], exact=True)
+			C[0, i] = mpmath.fsub(num[i + 1, 0], tmp, exact=True)
 
 		D = mpmath.matrix([self.num[0, 0]])
 
-- 
2.43.0


From 004b569f79fdf0acf21dee8b9618f9255bc0ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:11 +0000
Subject: [PATCH 012/105] fix: import sollya in the methods of dTFmp and dSSmp
 using it

---
 fixif/LTI/dSSmp.py | 2 ++
 fixif/LTI/dTFmp.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 917815d..02d7b80 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -372,6 +372,8 @@ class dSSmp(object):
 
 	def simulate_rounded(self, u, prec=53):
 
+		import sollya
+
 		# suppose u is a mpmath matrix
 		xk = mpmath.mp.zeros(self._n, 1)
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 7c97d03..c04af30 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -163,6 +163,7 @@ class dTFmp(object):
 		- num, den: (sollya object) numerator and denominator of the transfer function
 		"""
 		if not self._sollya:
+			import sollya
 			tf_num_sollya, len_num, _ = mpf_matrix_to_sollya(self._num)
 			tf_den_sollya, len_den, _ = mpf_matrix_to_sollya(self._den)
 			num = sollya.horner(sum(sollya.SollyaObject(x) * sollya._x_ ** i for i, x in enumerate(tf_num_sollya)))
-- 
2.43.0


From d6bdc086508992102ae926613c4c2e3f46e403bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:15 +0000
Subject: [PATCH 013/105] fix: size check of the series connection of two dSS

---
 fixif/LTI/dSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index f520783..be9483f 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -528,8 +528,8 @@ class dSS(object):
 		n1, p1, q1 = self.size
 		n2, p2, q2 = other.size
 
-		if p1 != q2:
-			raise ValueError("dSS: second state space should have same number of inputs as first state number of outputs")
+		if q1 != p2:
+			raise ValueError("dSS: first state space should have as many inputs as the second one has outputs")
 
 		# TODO: possible simplification if self.A==other.A ??
 
-- 
2.43.0


From 5f32964e0b52bd497ded35471e141936a97f7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 014/105] fix: a similarity invalidates the Gramians already
 computed

---
 fixif/LTI/dSS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index be9483f..80426b3 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -446,6 +446,9 @@ class dSS(object):
 		self._B = Tinv * self._B
 		self._C = self._C * T
 		# D is unchanged
+		# the Gramians depend on the coordinates of the state
+		self._Wo = None
+		self._Wc = None
 
 	# ======================================================================================
 	def _check_dimensions(self):
-- 
2.43.0


From b62b8e43871b039564011e0c0fc2d15736328e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 015/105] fix: report the failure of the Lyapunov solver of
 scipy

---
 fixif/LTI/dSS.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 80426b3..61ccdb8 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -208,13 +208,7 @@ class dSS(object):
 				self._Wo = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wo: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				raise LinAlgError("dSS: Wo: scipy Linalg failed to solve the Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
@@ -284,13 +278,7 @@ class dSS(object):
 				self._Wc = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wc: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				raise LinAlgError("dSS: Wc: scipy Linalg failed to solve the Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
-- 
2.43.0


From 33ecbfa3e86360d58a1997422e8ec51d16e81a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 016/105] fix: dSS.simplify terminates when A is rank-deficient
 without a null row

---
 fixif/LTI/dSS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 61ccdb8..b607f17 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -602,6 +602,9 @@ class dSS(object):
 			for i in range(0, newS.n):
 				if numpy.count_nonzero(newS._A[i, :]) == 0:
 					l.append(i)
+			if not l:
+				# rank-deficient, but nothing to remove
+				break
 
 			A = newS._A
 			B = newS._B
-- 
2.43.0


From 3a767a107c085b72cb962c393803c59bf02bb31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 017/105] fix: random_dSS retries when a mask is all zeros (and
 not when it is all ones)

---
 fixif/LTI/dSS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index b607f17..50ae14a 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -892,12 +892,12 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	# Make masks to zero out some of the elements.
 	while True:
 		Bmask = rand(n, q) < pBCmask
-		if not Bmask.all():  # Retry if we get all zeros.
+		if Bmask.any():  # Retry if we get all zeros.
 			break
 
 	while True:
 		Cmask = rand(p, n) < pBCmask
-		if not Cmask.all():  # Retry if we get all zeros.
+		if Cmask.any():  # Retry if we get all zeros.
 			break
 
 	if rand() < pDzero:
@@ -906,7 +906,7 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	else:
 		while True:
 			Dmask = rand(p, q) < pDmask
-			if not Dmask.all():  # Retry if we get all zeros.
+			if Dmask.any():  # Retry if we get all zeros.
 				break
 
 
-- 
2.43.0


From fb8fd21baa2195da7998077c2a3a5cd76206facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 018/105] fix: sum and product of dTF are done on polynomials
 in z^-1

---
 fixif/LTI/dTF.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 43da056..ddc559b 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -17,12 +17,25 @@ __status__ = "Beta"
 
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
-from numpy import matrix as mat, polymul, polyadd
+from numpy import matrix as mat, convolve
 from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
 
 
+def polymul(p, q):
+	"""product of two polynomials in z^-1 (numpy.polymul removes the leading zeros, ie the delays)"""
+	return convolve(p, q)
+
+
+def polyadd(p, q):
+	"""sum of two polynomials in z^-1 (numpy.polyadd aligns the *last* coefficients)"""
+	res = zeros(max(len(p), len(q)))
+	res[:len(p)] += p
+	res[:len(q)] += q
+	return res
+
+
 class dTF(object):
 
 	def __init__(self, num, den):
-- 
2.43.0


From c3688c20d66431850ef397c9a59a30d89614802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 019/105] fix: subtracting a dTF from an unsupported operand
 raises ValueError

---
 fixif/LTI/dTF.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index ddc559b..822a650 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -142,6 +142,7 @@ class dTF(object):
 			numer = polyadd(polymul(other.num.A1, self._den.A1), -polymul(other.den.A1, self._num.A1))
 			denom = polymul(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
+		raise ValueError("Cannot substract a dTF to a %s", type(other))
 
 
 	def to_dTFmp(self):
-- 
2.43.0


From c42d645604934f3049693e222c83c67783ca9a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 020/105] fix: dTF with numerator and denominator of different
 lengths

---
 fixif/LTI/dTF.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 822a650..8e1fd26 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -51,6 +51,11 @@ class dTF(object):
 		if (num.shape[0] != 1) or (den.shape[0] != 1):
 			raise ValueError('dTF: num and den should be 1D matrixes')
 
+		# complete with zeros so that num and den have the same length
+		n = max(num.shape[1], den.shape[1])
+		num = mat(r_[num.A1, zeros(n-num.shape[1])])
+		den = mat(r_[den.A1, zeros(n-den.shape[1])])
+
 		# we normalize if den[0] is not equal to 1
 		if den[0, 0] == 0:
 			raise ValueError('dTF: The 1st coefficient of the denominator cannot be ZERO !')
-- 
2.43.0


From 312ee191cfad26a7b3146dda25c58bf99e6fd9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 021/105] fix: random transfer functions have the order asked
 for

---
 fixif/LTI/dTF.py   | 4 ++--
 fixif/LTI/dTFmp.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 8e1fd26..6083d4a 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -300,8 +300,8 @@ def random_dTF(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = mat(rand(1, n))
-	den = mat(rand(1, n))
+	num = mat(rand(1, n+1))
+	den = mat(rand(1, n+1))
 	return dTF(num, den)
 
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index c04af30..da719ee 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -206,8 +206,8 @@ def random_dTFmp(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = numpy.matrix(rand(1, n))
-	den = numpy.matrix(rand(1, n))
+	num = numpy.matrix(rand(1, n+1))
+	den = numpy.matrix(rand(1, n+1))
 	return dTFmp(num, den)
 
 
-- 
2.43.0


From 6d25c111f378e654a6ac5993b71299f6af7ac3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 022/105] fix: 0 is a valid seed for the random filters and
 gabarits

---
 fixif/LTI/Butter.py   | 2 +-
 fixif/LTI/Elliptic.py | 2 +-
 fixif/LTI/Filter.py   | 2 +-
 fixif/LTI/Gabarit.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 8862413..c8dcc13 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -88,7 +88,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index b1243ca..067b3f1 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -99,7 +99,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index b4aebc7..2c39c1e 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -233,7 +233,7 @@ def random_Filter(n=10, p=5, q=5, seed=None, name=None):
 		else:
 			raise ValueError("randomFilter: the string should be a valid string, ie be like 'RandomFilter-7/1/4-12345678'")
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 		name = 'RandomFilter-%d/%d/%d-%d' % (n, p, q, seed) 	# for example 'RandomFilter-(5,10)/(1,2)/(1,10)-12345678' for a MISO filter (#states between 5 and 10, #inputs between 1 and 10), seed=12345678)
 	else:
diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index eab4c55..56df8aa 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -462,7 +462,7 @@ def random_Gabarit(form=None, seed=None):
 	- seed: if not None, indicates the seed to use for the random part (in order to be reproductible, the seed is stored in the name of the gabarit)
 	"""
 	# change the seed if asked (otherwise, set the seed)
-	if not seed:
+	if seed is None:
 		set_seed(None)  # (from doc):  If seed is omitted or None, current system time is used
 		seed = randint(0, 16777215)  # between 0 and 2^24-1
 	set_seed(seed)
-- 
2.43.0


From c79d9276f65929cc8667b222086a2b37d5510e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 023/105] fix: random Butterworth and elliptic filters without
 seed

---
 fixif/LTI/Butter.py   | 2 +-
 fixif/LTI/Elliptic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index c8dcc13..661f0f9 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -111,4 +111,4 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 	if onlyEven and order % 2 == 0:
 		order += 1
 
-	return Butter(order, W, form, name='Butterworth-random-%d' % seed)
+	return Butter(order, W, form, name='Butterworth-random' + ('-%d' % seed if seed is not None else ''))
diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index 067b3f1..0ac5509 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -129,7 +129,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		if isinstance(W, list):
 			W = [quantify(W[0], quant), quantify(W[1], quant)]
 
-	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random-%d' % seed)
+	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random' + ('-%d' % seed if seed is not None else ''))
 
 
 
-- 
2.43.0


From 656707acf7e6a707b8e4c86a76ef7ad6929cf536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 024/105] fix: random_Butter(onlyEven=True) generates even
 orders

---
 fixif/LTI/Butter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 661f0f9..c1252dd 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -108,7 +108,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		W = (Wc[1] - Wc[0]) * random_sample() + Wc[0]
 	# choose order
 	order = randint(*n)
-	if onlyEven and order % 2 == 0:
+	if onlyEven and order % 2 == 1:
 		order += 1
 
 	return Butter(order, W, form, name='Butterworth-random' + ('-%d' % seed if seed is not None else ''))
-- 
2.43.0


From 98a2b67a74d6bcb4b4c07310c02b699318b9669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 025/105] fix: iter_random_Filter(ftype='all') chooses the type
 of each filter

---
 fixif/LTI/Filter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index 2c39c1e..1db75ae 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -196,11 +196,10 @@ def iter_random_Filter(number, n=(5, 10), p=(1, 5), q=(1, 5), seeded=True, ftype
 	seeds = [randint(0, 1e9) if seeded else None for _ in range(number)]  # generate a particular seed for each random dSS, or None (if seeded is set to False)
 
 	for s in seeds:
-		if ftype not in pq.keys():
-			ftype = choice(list(pq.keys()))
+		ft = ftype if ftype in pq.keys() else choice(list(pq.keys()))
 		nn = randint(*n)
-		pp = randint(*pq[ftype][0])
-		qq = randint(*pq[ftype][1])
+		pp = randint(*pq[ft][0])
+		qq = randint(*pq[ft][1])
 		yield random_Filter(n=nn, p=pp, q=qq, seed=s)
 
 
-- 
2.43.0


From 9764f6b2965d254c69b62f2dcfaacebbf58d880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 026/105] fix: shift the gain of a stop band at 0dB

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 56df8aa..db55a67 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -102,7 +102,7 @@ class Band(object):
 	def __sub__(self, other):
 		"""Substract a Band and a Gain"""
 		try:
-			stopGain = self._stopGain-other if self._stopGain else None
+			stopGain = self._stopGain-other if self._stopGain is not None else None
 			passGains = (self._passGains[0]-other, self._passGains[1]-other) if self._passGains else None
 		except Exception:
 			raise ValueError("The gain should be a constant")
-- 
2.43.0


From 418e610170d92170e1b42f140d9502d2a9024866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 027/105] fix: detect bandstop gabarits whose two pass bands
 have different gains

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index db55a67..78396fd 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -314,7 +314,7 @@ class Gabarit(object):
 			pass1b, stopb, pass2b = bands
 			matlabParams = [pass1b.w2, stopb.w1, stopb.w2, pass2b.w1, -pass1b.passGains[0], -stopb.stopGain, -pass2b.passGains[0]]
 			scipyParams = [[pass1b.w2, pass2b.w1], [stopb.w1, stopb.w2], -pass1b.passGains[0], -stopb.stopGain]
-			if not matlabEng and pass1b.passGains[0] != pass1b.passGains[0]:
+			if not matlabEng and pass1b.passGains[0] != pass2b.passGains[0]:
 					raise ValueError("Scipy cannot handle bandstop when the two pass bands have different gains")
 
 
-- 
2.43.0


From 85addea6a5b73cb98295f4a1db0259b9b8a42127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:59 +0000
Subject: [PATCH 028/105] fix: the coefficients of a SIF are always floats

With integer matrices, the values set afterwards were truncated, and the
algorithms (hexadecimal coefficients) could not be generated.
---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 9217322..f115da6 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -159,7 +159,7 @@ class SIF(SIF_sensibility):
 		build Z or dZ depending on provided matrix tuple
 		"""
 		J, K, L, M, N, P, Q, R, S = [np.matrix(X) for X in JtoS]
-		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]])
+		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]]).astype(float)
 
 
 
-- 
2.43.0


From 48e02f6f0cbe54c868212f17575791c03cbde135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:59 +0000
Subject: [PATCH 029/105] fix: SIF.Z setter stores its own copy of the matrix

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index f115da6..334ef30 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -309,7 +309,7 @@ class SIF(SIF_sensibility):
 	# Z, dZ setters
 	@Z.setter
 	def Z(self, mymat):
-		self._Z = mymat
+		self._Z = mat(mymat, dtype=float)		# (copy)
 		self._invJ = inv(self.J)
 		self._build_fromZ()
 
-- 
2.43.0


From ac20d79de64150b9869032fe5b3accf7c0bdd85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:59 +0000
Subject: [PATCH 030/105] fix: changing a coefficient of a SIF updates all the
 systems deduced from it

---
 fixif/SIF/SIF.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 334ef30..2f6cb8e 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -142,17 +142,12 @@ class SIF(SIF_sensibility):
 		self._Z = None
 		self._build_Z(JtoS)
 		self._invJ = inv(JtoS[0])		# TODO: do it properly (no need to call inv() )
-		self._build_fromZ()
+		self._build_fromZ()			# (_Hu, _Hepsilon and _Hzeta are computed only the 1st time they are required)
 
 		# build _dZ, the associated state space _dSS (contains AZ, BZ, CZ, DZ, gramians, etc.), _M1 _M2 _N1 _N2 and the *_bar matrices
 		self._dZ = None
 		self._build_dZ(dJtodS)
 
-		# extra state-space associated (computed only the 1st time they are required)
-		self._Hu = None
-		self._Hepsilon = None
-		self._Hzeta = None
-
 
 	def _build_Z(self, JtoS):
 		"""
@@ -246,6 +241,10 @@ class SIF(SIF_sensibility):
 	def _build_fromZ(self):
 		self._build_AZtoDZ()
 		self._build_M1M2N1N2()
+		# the extra state-spaces associated should be rebuilt
+		self._Hu = None
+		self._Hepsilon = None
+		self._Hzeta = None
 
 
 	# Only matrix Z is kept in memory
@@ -435,7 +434,7 @@ class SIF(SIF_sensibility):
 	def P(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
 		self._build_dZ(None)  # TODO: all these setters should call _build_dZ(None) !!
-		self._build_AZtoDZ()
+		self._build_fromZ()
 
 	@Q.setter
 	def Q(self, mymat):
-- 
2.43.0


From 2de2f67170a5cb4fef962b9c89c341811e2ba0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:59 +0000
Subject: [PATCH 031/105] fix: SIF.dJ returns what the setter (or the
 constructor) has stored

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 2f6cb8e..80e9c36 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -366,7 +366,7 @@ class SIF(SIF_sensibility):
 
 	@property
 	def dJ(self):
-		return -self._dZ[0: self._l, 0: self._l]
+		return self._dZ[0: self._l, 0: self._l]
 
 	@property
 	def dK(self):
-- 
2.43.0


From d064f3c737f0f64386ca0ff1a71f58aad18e705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:59 +0000
Subject: [PATCH 032/105] fix: the C code is generated again when the
 coefficients of the realization change

---
 fixif/SIF/Realization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index cfcad67..c297da1 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -87,9 +87,11 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 		self._structureName = structureName
 		self._shortName = shortName
 
-		# store the C double fundction (generated from implementCdouble and runCdouble)
-		self._Cdouble = None
 
+	def _build_fromZ(self):
+		# the C double function should be generated again when the coefficients change
+		super(Realization, self)._build_fromZ()
+		self._Cdouble = None
 
 	@property
 	def MSB(self):
-- 
2.43.0


From eb3efa1d08038e5dfba41692b9432a6de480aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:59 +0000
Subject: [PATCH 033/105] fix: Realization.quantize works with numpy >= 1.24

---
 fixif/SIF/Realization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index c297da1..6fe3b17 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -156,7 +156,7 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 
 		# copy the realization and quantized the matrix Z
 		R = copy(self)
-		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[np.float])
+		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])
 		R.Z = quantizeMat(R.Z)
 		return R
 
-- 
2.43.0


From e2ed65f1db806b1fa11ef2d2b3e3942e70e2957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:49 +0000
Subject: [PATCH 034/105] fix: a quantized realization does not share its dZ
 matrix with the original one

---
 fixif/SIF/Realization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index 6fe3b17..3be7365 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -158,5 +158,6 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 		R = copy(self)
 		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])
 		R.Z = quantizeMat(R.Z)
+		R.dZ = copy(R.dZ)		# (not shared with self)
 		return R
 
-- 
2.43.0


From a5e31b878f4341fa7c86154afdce5509faca6fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:03 +0000
Subject: [PATCH 035/105] fix: sensitivity of complex poles (without the
 moduli) keeps its imaginary part

---
 fixif/SIF/SIF_sensibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/SIF_sensibility.py b/fixif/SIF/SIF_sensibility.py
index 17a94ca..04de9c6 100644
--- a/fixif/SIF/SIF_sensibility.py
+++ b/fixif/SIF/SIF_sensibility.py
@@ -75,10 +75,10 @@ def deigdZ(A, M1, M2, shapeZ, moduli=True):
 	mylambda = mat(conj(mylambda))
 
 	# sensitivity matrix
-	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]))  #  numpy does not know about hypermatrixes
+	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]), dtype=float if moduli else complex)  #  numpy does not know about hypermatrixes
 
 	for k in range(0, mylambda.shape[1]):
-		if moduli == 1:
+		if moduli:
 			dlk_dZ[:, :, k] = transpose(M1) * (1 / abs(mylambda[0, k]) * real(
 				conj(mylambda[0, k] * conj(My[:, k]) * transpose(Mx[:, k])))) * transpose(M2)
 		else:
-- 
2.43.0


From 78ea2e1aba2a82e3f8e91c30d2b428e48f0b1c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:03 +0000
Subject: [PATCH 036/105] fix: SIF.generate_inputs generates the inputs that
 maximize the last output

---
 fixif/SIF/SIF.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 80e9c36..723b5d8 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -560,14 +560,18 @@ class SIF(SIF_sensibility):
 		u_bar = np.matrix(u_bar)
 		if u_bar.shape != (self._dSS.q, 1):
 			if u_bar.shape == (1, self._dSS.q):
-				u_bar.transpose()
+				u_bar = u_bar.transpose()
 			else:
 				raise ValueError('Cannot generate inputs: u_bar is of incorrect size')
+		if self._p != 1:
+			raise ValueError('Cannot generate inputs: only one output can be maximized')
 
+		# from the last sample (where the impulse response is h(0)=D) to the first one (where it is h(N-1)=C.A^(N-2).B)
 		u = np.matrix(np.zeros([self._dSS.q, N]))
-		u[:, 0] = self.dSS.D
-		for i in range(1, N):
-			u[:, i] = u_bar * np.sign(self.dSS.B * (self.dSS.A ** (N - i)) * self.dSS.C)		# TODO: ugly A**(N-i) !!
+		h, CAk = self.DZ, self.CZ
+		for i in range(N - 1, -1, -1):
+			u[:, i] = np.multiply(u_bar, np.sign(h).transpose())
+			h, CAk = CAk * self.BZ, CAk * self.AZ
 		return u
 
 
-- 
2.43.0


From 127ae2955d51cfab8ed831dd946ba5286b205359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:03 +0000
Subject: [PATCH 037/105] fix: the AMPL parameters are written with all their
 digits

With %f, the errors and the bounds lower than 5e-7 were written as 0.000000
---
 fixif/SIF/Realization_FxP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index d3b08ee..8b9dc7d 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -19,7 +19,7 @@ from string import Template
 from fixif.config import SIF_TEMPLATES_PATH
 
 # functions to define some parameters in a AMPL .dat file
-def generateAMPLParam(name, val, format="%f"):
+def generateAMPLParam(name, val, format="%.17g"):
 	"""generate AMPL code for the data of a given parameter
 	Parameters:
 		- name: name of the parameter
-- 
2.43.0


From f377c04b26e48651f66a220e6a38718987c5167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:03 +0000
Subject: [PATCH 038/105] fix: optimalUniformWL and optimalWL call the existing
 methods, and accept negative MSB

---
 fixif/SIF/Realization_FxP.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 8b9dc7d..5e3d189 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -115,15 +115,15 @@ class R_FxP:
 			return d
 
 		# determining the MSB and w_tilde
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2.0, m_tilde.transpose())))
 
 		# determining the minimal word-length with uniform scheme
-		w_guess = int(max(ceil(log2(E * ones((self.l + self.n + self.p, 1))) - log2(eps)))[0, 0])
+		w_guess = int(max(ceil(log2(E * ones((self.l + self.n + self.p, 1))) - log2(eps))))
 		return w_guess if all(E * power(2, -w_guess + delta(w_guess * ones((self.l + self.n + self.p, 1)))) < eps) else w_guess + 1
 
 
@@ -150,12 +150,12 @@ class R_FxP:
 		wmax = wmax * ones((self.l + self.n + self.p, 1))
 
 		# determining the MSB
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2.0, m_tilde.transpose())))
 
 		# generate the .dat file
 		AMPLcode = {
-- 
2.43.0


From dd3a6debfa08ebf43d7b04e9d89626701b946b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 039/105] fix: dimensions of the error matrix in the AMPL data
 (one output), and infinite thresholds

---
 fixif/SIF/Realization_FxP.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 5e3d189..fe91fad 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -29,13 +29,17 @@ def generateAMPLParam(name, val, format="%.17g"):
 	"""
 	if isinstance(val, int):
 		return "param %s := %d;" % (name, val)
-	if val.shape[0] == 1 or val.shape[1] == 1:
+	def toStr(x):
+		"""convert one value to AMPL"""
+		return "Infinity" if x == inf else format % x
+
+	if val.shape[1] == 1:
 		# 1d vector
-		return "param %s := \n%s;" % (name, "\n".join(("%d "+format) % (i[0]+1, wm) for i, wm in ndenumerate(val)))
+		return "param %s := \n%s;" % (name, "\n".join("%d %s" % (i[0]+1, toStr(wm)) for i, wm in ndenumerate(val)))
 	else:
 		# 2d array
 		col = " ".join(str(x+1) for x in range(val.shape[1]))
-		data = "\n".join(str(i+1)+" "+" ".join(format%x for x in nditer(val[i,:])) for i in range(val.shape[0]))
+		data = "\n".join(str(i+1)+" "+" ".join(toStr(x) for x in nditer(val[i,:])) for i in range(val.shape[0]))
 		return "param %s : %s := \n%s;" % (name, col, data)
 
 
@@ -87,11 +91,15 @@ class R_FxP:
 		We use:  w_tilde = 1 + ceil(log2(zeta_bar)) - floor(log2( 2^ceil(log2(zeta_bar)) - zeta_bar ))
 		with zeta_bar = <<Hzeta>>.u_bar
 		"""
-		#TODO: test if zeta_bar is a power of 2 (should be +Inf in that case)
+		# when zeta_bar is a power of 2, the threshold is +Inf (the MSB should be increased for any word-length)
 		zeta_bar = self.Hzeta.WCPG() * u_bar
 
 		with mpmath.workprec(500):  # TODO: compute how many bit we need !!
-			wtilde = [int(1+mpmath.ceil(mpmath.log(x[0], 2)) - mpmath.floor(mpmath.log(mpmath.power(2, mpmath.ceil(mpmath.log(x[0], 2))) - x[0], 2))) for x in zeta_bar.tolist()]
+			wtilde = []
+			for x in zeta_bar.tolist():
+				msb = mpmath.ceil(mpmath.log(x[0], 2))
+				gap = mpmath.power(2, msb) - x[0]
+				wtilde.append(int(1 + msb - mpmath.floor(mpmath.log(gap, 2))) if gap > 0 else inf)
 
 		return wtilde
 
-- 
2.43.0


From 0fc219a6ac00bd576a82ce9c8b54ab0911a2b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 040/105] fix: the word-lengths of optimalWL satisfy the error
 constraints below the threshold w_tilde

---
 fixif/SIF/Realization_FxP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index fe91fad..a869986 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -181,12 +181,13 @@ class R_FxP:
 			f.write(AMPL.substitute(AMPLcode))
 
 		if self.p == 1:
-			return [ int(ceil(log2(Ei*(self.n+self.p+self.l)) - log2(eps[0,0]))) for Ei in nditer(E) ]
+			weq = [ int(ceil(log2(Ei*(self.n+self.p+self.l)) - log2(eps[0,0]))) for Ei in nditer(E) ]
 		else:
 			weq=[]
 			for j in range(self.l+self.n+self.p):
 				weq.append( int(max(ceil(log2(E[i,j]*(self.n+self.p+self.l)) - log2(eps[i,0])) for i in range(self.p)) ))
-			return weq
+		# one more bit is required when the word-length is lower than the threshold (the MSB is increased by 1)
+		return [w + 1 if w < wt else w for w, wt in zip(weq, w_tilde.A1)]
 
 
 
-- 
2.43.0


From dadd174b22ed8f1548fb7854de923747700c0c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 041/105] fix: C code of a realization with only one state

---
 fixif/SIF/Realization_implementation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index cbc232d..0568bf1 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -83,7 +83,7 @@ class R_implementation:
 		# input(s), output(s), states, intermediate variables
 		strU = genCvarNames('u', q)
 		strY = genCvarNames('y', p)
-		strXk = genCvarNames('xk', n)
+		strXk = ['xk[%d]' % (i,) for i in range(n)]		# (always a pointer in the signature, even when n=1)
 		strXkp = ['x%d_kp1' % (i,) for i in range(n)]
 		strT = ['T%d' % (i,) for i in range(l)]
 
-- 
2.43.0


From f86e3ee0fe6421383197e4dd12a8fc9605a9226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 042/105] fix: runCdouble runs the code of its own realization,
 and for any number of inputs and outputs

- the library was generated with the same path for all the realizations, so
  the first one was used for all of them
- the returned value was taken as an int
- only the SISO realizations were run (zeros were returned otherwise)
---
 fixif/SIF/Realization_implementation.py | 63 ++++++++++++++++---------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index 0568bf1..60c1df4 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -25,7 +25,8 @@ import numpy
 from inspect import getfile
 from fixif import SIF
 from fixif.SoP import SoP
-from os.path import dirname
+from os.path import dirname, join
+from tempfile import TemporaryDirectory
 FIXIF_SIF_PATH = dirname(getfile(SIF))
 
 GENERATED_PATH = FIXIF_SIF_PATH + '/../generated/code/'
@@ -157,29 +158,33 @@ class R_implementation:
 		"""
 		# TODO: manage the place where the code is generated (it should be an absolute path?)
 
-		# generate C code
-		with open(GENERATED_PATH+"runC.c", "w") as cFile:
-			cFile.write(self.implementCdouble("implementCdouble"))
+		# (in a new folder: a library with the same path as a previous one is not loaded again)
+		with TemporaryDirectory(dir=GENERATED_PATH) as genPath:
 
-		print("Compiling runC.c")
+			# generate C code
+			with open(join(genPath, "runC.c"), "w") as cFile:
+				cFile.write(self.implementCdouble("implementCdouble"))
 
-		# compile it
-		proc = Popen("cd " + GENERATED_PATH + "&& cc -Wall -fPIC -shared -o runC.so runC.c ", stderr=PIPE, shell=True)
-		# check the output and print it
-		line = 'non-empty'
-		while line:
-			line = proc.stderr.readline().decode('utf-8')
-			print(line[:-1])		# TODO: log it somewhere ?
+			print("Compiling runC.c")
+
+			# compile it
+			proc = Popen("cd '" + genPath + "' && cc -Wall -fPIC -shared -o runC.so runC.c ", stderr=PIPE, shell=True)
+			# check the output and print it
+			line = 'non-empty'
+			while line:
+				line = proc.stderr.readline().decode('utf-8')
+				print(line[:-1])		# TODO: log it somewhere ?
+			proc.wait()
+
+			# use ctype
+			self._Cdouble = CDLL(join(genPath, 'runC.so')).implementCdouble
 
-		# use ctype
-		self._Cdouble = CDLL(GENERATED_PATH + 'runC.so').implementCdouble
 		if self.p == 1:
 			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
+			self._Cdouble.restype = c_double
 		else:
 			self._Cdouble.argtypes = (POINTER(c_double), c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
-
-
-
+			self._Cdouble.restype = None
 
 
 	def runCdouble(self, u):
@@ -196,15 +201,29 @@ class R_implementation:
 		if self._Cdouble is None:
 			self.makeCdouble()
 
-		u = mat(u)
+		u = mat(u, dtype=float)
 		N = u.shape[1]
+		if u.shape[0] != self._q:
+			raise ValueError("runCdouble: u should be a %d*N matrix" % self._q)
 
 		x = zeros((self._n, 1))		# TODO: add the possibility to start with a non-zero state
 		px = x.ctypes.data_as(POINTER(c_double))
 		y = zeros((self._p, N))
+		yi = zeros((self._p, 1))
+		pyi = yi.ctypes.data_as(POINTER(c_double))
 
 		# loop to compute the outputs
-		if self.p == 1 and self.q == 1:
-			for i in range(N):
-				y[:, i] = self._Cdouble(u[:, i], px)
-		return y
\ No newline at end of file
+		for i in range(N):
+			# a scalar when there is only one input, a pointer otherwise
+			if self.q == 1:
+				ui = u[0, i]
+			else:
+				uCol = u[:, i].copy()
+				ui = uCol.ctypes.data_as(POINTER(c_double))
+			# returned value when there is only one output, a pointer otherwise
+			if self.p == 1:
+				y[0, i] = self._Cdouble(ui, px)
+			else:
+				self._Cdouble(pyi, ui, px)
+				y[:, i] = yi[:, 0]
+		return y
-- 
2.43.0


From 8eb7a399f9b1f74d11d7b06ce51fdd3e09257b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 043/105] fix: surnames of the states without time are refused,
 as for the temporary variables

---
 fixif/SIF/Realization_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index b6e43f6..c0d1497 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -108,7 +108,7 @@ class R_algorithm:
 		if withSurname and not withTime:
 			# it raises an error only when at least one VarName has a surname with time (with shift != 0)
 			v = [v for v in self._varNameT if v.hasSurnameWithIndex()]
-			v.extend([v for v in self._varNameT if v.hasSurnameWithIndex()])
+			v.extend([v for v in self._varNameX if v.hasSurnameWithIndex()])
 			if len(v) > 0:
 				raise ValueError("algorithmTxt: wichSurname=True and withTime=False are incoherent")
 
-- 
2.43.0


From 6adb118aa18a36f84276f6be69909ddb7d14368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 044/105] fix: display of a SoP

---
 fixif/SoP/SoP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index 16ee774..e0c46d1 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -83,4 +83,4 @@ class SoP:
 
 	def __str__(self):
 		"""display the SoP"""
-		return self.toAlgoStr('%4f')
+		return self.toAlgoStr(coefFormat='%4f')
-- 
2.43.0


From c67539e400e20905b055577a5022e33c3e9f76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 045/105] fix: generateNames with an empty list of surnames

---
 fixif/SoP/VarName.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/VarName.py b/fixif/SoP/VarName.py
index 293c008..8b2889d 100644
--- a/fixif/SoP/VarName.py
+++ b/fixif/SoP/VarName.py
@@ -114,7 +114,7 @@ def generateNames(baseName, nbVar, surnames=None):
 	# initial values when surnames is None
 	if surnames is None:
 		surnames = [(None, i+1 if nbVar > 1 else None, 0) for i in range(nbVar)]
-	elif isinstance(surnames[0], str):		# simple surnames, without index and shift
+	elif surnames and isinstance(surnames[0], str):		# simple surnames, without index and shift
 		surnames = [(s, None, 0) for s in surnames]
 
 	return [VarName(baseName, i + 1 if nbVar > 1 else None, sn, ind, sh) for i, (sn, ind, sh) in enumerate(surnames)]
-- 
2.43.0


From 41bf9b9dc4c96ed587dc43478f4b17d6ad1c83ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 046/105] fix: Simulink blocks that feed several times the same
 sum

The coefficients were overwritten (instead of being added) when the same signal
arrives several times in a sum, directly or through gains or merged sums. And the
dictionary of the terms was modified during its iteration.
---
 fixif/Structures/Simulink/diagram.py | 42 +++++++++++++---------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 146698e..829f463 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -220,23 +220,18 @@ class System(object):
 		for bsid in self.blocks.keys(): 
 			neweq = Equation(bsid)
 			# we list here all inputs blocks for a given block
-			neweq.termes = dict((block.sid, 1.0) for block in self.blocks[bsid].inlist.values()) # python2.6
-
-			# for a gain block : give right coeff for all inputs
-			#  bi : input block / termes[bi]: bi coeff
-			if self.blocks[bsid].type == 'Gain': 
-				for bisid in neweq.termes.keys():
-					neweq.termes[bisid] = self.blocks[bsid].gain 
-			
-			# sum sign handling
-			# affect -1.0 to coeff if the sign corresponding to input block is '-'
-			if self.blocks[bsid].type == 'Sum':
-				curblock = self.blocks[bsid]
-				for pi in curblock.inlist.keys():
-					if curblock.inportsign[int(pi)-1] == '-': # port number start on '1'
-						bi = curblock.inlist[pi] # inlist = {porti:blocki} : block feeding the given input port 
-						neweq.termes[bi.sid] = 0 - 1.0 
-			
+			curblock = self.blocks[bsid]
+			for pi, bi in curblock.inlist.items(): # inlist = {porti:blocki} : block feeding the given input port
+				coeff = 1.0
+				# for a gain block : give right coeff
+				if curblock.type == 'Gain':
+					coeff = curblock.gain
+				# sum sign handling
+				# affect -1.0 to coeff if the sign corresponding to input block is '-'
+				elif curblock.type == 'Sum' and curblock.inportsign[int(pi)-1] == '-': # port number start on '1'
+					coeff = -1.0
+				# the same block can feed several input ports
+				neweq.addterm(bi.sid, coeff)
 				
 			if self.blocks[bsid].type != 'Inport':
 				equations.append(neweq)
@@ -254,12 +249,11 @@ class System(object):
 				for inp in list(eq.termes): # a copy of the dict key / dict is changing during iteration
 					inpb =  self.getblockbysid(inp)
 					inpcoeff = eq.termes[inp]
-					assert abs(inpcoeff) == 1.0 # Sum have no gain
 					if inpb.type == 'Sum' and len(inpb.outlist) == 1: # merge if it's not used somewhere else
 						# handle here sum sign propagation: coeff2*inpcoeff  
-						d = dict((inp2, coeff2*inpcoeff) for (inp2,coeff2) in self.getequation(inp).termes.items())
-						eq.termes.update(d)
 						del eq.termes[inp]
+						for inp2, coeff2 in self.getequation(inp).termes.items():
+							eq.addterm(inp2, coeff2*inpcoeff)
 
 						subequa = self.getequation(inp)
 						self.equations.remove(subequa)
@@ -274,14 +268,14 @@ class System(object):
 		# ? keep cascading gain block : test if the current block is a sum
 		# 								and create also an inter var for upstream gain block
 		for eq in self.equations:
-			for eqin in eq.termes:
+			for eqin in list(eq.termes): # a copy of the dict key / dict is changing during iteration
 				if self.blocks[eqin].type == 'Gain':
 					oldgain = eq.termes[eqin]	
 					del eq.termes[eqin] 
 
 					gaineq = self.getequation(eqin)
 					for gin in gaineq.termes:
-						eq.termes[gin] = gaineq.termes[gin] * oldgain
+						eq.addterm(gin, gaineq.termes[gin] * oldgain)
 
 
 	def isequationused(self,eq): 
@@ -386,6 +380,10 @@ class Equation(object):
 		self.out = eqid
 		self.termes = {}
 
+	def addterm(self, bsid, coeff):
+		"""Add coeff*bsid to the equation (bsid may already be in the equation)"""
+		self.termes[bsid] = self.termes.get(bsid, 0.0) + coeff
+
 	def __str__(self):
 		return str(self.out) + "-" + str(self.termes)
 
-- 
2.43.0


From f42b91095f7da8b9abdab64e1b74a88544225322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 047/105] fix: Simulink diagrams with several outputs used by
 other blocks

---
 fixif/Structures/Simulink/sif.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 3dd2960..b9fe248 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -75,7 +75,7 @@ class Sif(object):
 			sids.append(sid) #update local blocks list
 			return str(sid) 
 		# correct equations
-		for outb in y:
+		for outb in list(y):
 			for eq in system.equations:
 				feedback = False
 				for block in eq.termes:
@@ -84,14 +84,13 @@ class Sif(object):
 						break	
 				if feedback:
 					t.append(outb)
-					y.remove(outb)
 					new_out = get_new_sid(bsids)
 					#bsids.append(new_out) #update done in get_new_sid()
 					# add a new equation
 					neweq=Equation(new_out)
 					neweq.termes[outb] = 1.0
 					system.equations.append(neweq)
-					y.append(new_out)
+					y[y.index(outb)] = new_out		# (same order of the outputs)
 					#correct matrix size
 					self.l +=1
 					def mat( a, b):
-- 
2.43.0


From eff9d584963ea6e53d1518439022ce375941ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 048/105] fix: the new identifiers of the Simulink import do
 not collide with the existing ones

---
 fixif/Structures/Simulink/sif.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index b9fe248..1e5c58c 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -70,10 +70,10 @@ class Sif(object):
 		def get_new_sid(sids):
 			nb = len(sids) + 2
 			for tsid in range(1,nb):
-				if tsid not in sids:
-					sid = tsid
+				if str(tsid) not in sids:
+					sid = str(tsid)
 			sids.append(sid) #update local blocks list
-			return str(sid) 
+			return sid
 		# correct equations
 		for outb in list(y):
 			for eq in system.equations:
-- 
2.43.0


From 720d7c07fa34464c66649d876fd403f228634b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 049/105] fix: missing import (Simulink diagram with an
 algebraic loop)

---
 fixif/Structures/Simulink/sif.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 1e5c58c..c38765b 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -14,6 +14,7 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 
+import sys
 from fixif.Structures.Simulink.diagram import Equation
 
 class Sif(object):
-- 
2.43.0


From 6e34c155f1c7e0026059e921152bf43cc301af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 050/105] fix: the inputs and outputs of a Simulink diagram are
 ordered by port number

---
 fixif/Structures/Simulink/diagram.py | 1 +
 fixif/Structures/Simulink/sif.py     | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 829f463..2f8d9b7 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -324,6 +324,7 @@ class System(object):
 			block = self.getblockbysid(sid)
 			if block.type == 'Inport':
 				inports.append(block)
+		inports.sort(key=lambda b: int(b.port))
 		return inports
 	
 	def getoutblocks(self):
diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index c38765b..a4db69a 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -53,6 +53,9 @@ class Sif(object):
 		g = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Gain']
 		y += [s for s in g if  system.getblockbysid(s).isoutblock() == True]
 
+		# the outputs are ordered by the number of their port
+		y.sort(key=lambda s: min(int(b.port) for b in system.getblockbysid(s).outlist if b.type == 'Outport'))
+
 		# TODO: dirty work, just for test, clean useless variables and computation
 		# for block labeling : type+sid
 		self.u = [system.getblockbysid(i).label for i in u]
-- 
2.43.0


From e7882a1a2aecb0d5f14858482ca7975dd45ad8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 051/105] fix: delays longer than one sample are refused by the
 Simulink import

They were silently considered as unit delays.
---
 fixif/Structures/Simulink/blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fixif/Structures/Simulink/blocks.py b/fixif/Structures/Simulink/blocks.py
index 8cc2c95..a6695a1 100644
--- a/fixif/Structures/Simulink/blocks.py
+++ b/fixif/Structures/Simulink/blocks.py
@@ -78,6 +78,8 @@ class Delay(Block):
 		for p in bel.findall("P"):
 			if p.get("Name") == "DelayLength":
 				self.delay = int(p.text)
+		if self.delay != 1:
+			raise ValueError("importSimulink: the delay block `%s` is not a unit delay" % self.name)
 
 
 class Sum(Block):
-- 
2.43.0


From 7fc97a97da833d15543f50549245bfe7c0012123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 052/105] fix: rhoDFII with given gammas and all the Deltas
 equal to 1

---
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 705fbff..7bdec85 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -163,7 +163,7 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 			L = mat(1)
 			M = c_[atleast_2d(1), zeros((1, n - 1))]
 			N = mat(Vbeta[0, 0])
-			P = mat(diagflat(Delta)) + mat(diagflat(ones((1, n - 1)), 1))
+			P = mat(diagflat(gamma)) + mat(diagflat(ones((1, n - 1)), 1))
 			Q = Vbeta[1:n + 1, 0]
 			R = zeros((1, n))
 			S = mat(0)
-- 
2.43.0


From d6b1ec61060bc9313e2a99c62927536b47c7277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 053/105] fix: dSSmp.to_dTFmp for non-diagonalizable systems
 (multiple poles)

---
 fixif/LTI/dSSmp.py | 59 ++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 02d7b80..db83a53 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -14,7 +14,7 @@ import mpmath
 import numpy
 
 from numpy.random.mtrand import randint, rand
-from fixif.func_aux import python2mpf_matrix, mpf_to_numpy, mp_poly_product, mpf_matrix_fadd, mpf_matrix_fmul, mpf_matrix_to_sollya
+from fixif.func_aux import python2mpf_matrix, mpf_to_numpy, mpf_matrix_fadd, mpf_matrix_fmul, mpf_matrix_to_sollya
 from fixif.LTI import random_dSS
 
 
@@ -295,38 +295,31 @@ class dSSmp(object):
 		if self.p != 1 or self.q != 1:
 			raise ValueError('dSS: cannot convert a dSSmp to dTFmp for not a SISO system')
 
-		# the working precision is changed for these computations only (even when they fail)
-		with mpmath.workprec(prec):
-			E, V = mpmath.mp.eig(self.A)  # eig returns a list E and a matrix V
-			Cmp = self.C * V
-			Vinv = mpmath.mp.inverse(V)
-			Bmp = Vinv * self.B
-
-			Q = mp_poly_product([-e for e in E])
-			PP = mpmath.mp.zeros(Q.rows - 1, 1)
-			# tmp_polyproduct = mp.zeros([self.n, 1]) #temporary polynomial products
-			for i in range(0, self.n):
-				# P = sum_i=0^n c_i * b_i * product_j!=i p_j
-				tmp_polyproduct = mp_poly_product([-e for e in E], i)
-				PP = PP + Cmp[0, i] * Bmp[i, 0] * tmp_polyproduct
-
-
-			if self.D[0, 0] != mpmath.mp.zero:
-				P = self.D[0, 0] * Q
-			else:
-				P = mpmath.mp.zeros(Q.rows, 1)
-
-			for i in range(1, P.rows):
-				P[i, 0] = P[i, 0] + PP[i - 1, 0]
-
-			b = mpmath.mp.zeros(P.rows, 1)
-			a = mpmath.mp.zeros(Q.rows, 1)
-			for i in range(0, P.rows):
-				b[i, 0] = P[i, 0].real
-				b[i, 0] = mpmath.fadd(b[i, 0], mpmath.mp.zero, prec=prec)
-			for i in range(0, Q.rows):
-				a[i, 0] = Q[i, 0].real
-				a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)
+		# Faddeev-LeVerrier algorithm (valid whatever the multiplicity of the poles), with exact operations:
+		#   M_1 = I,  a_k = -trace(A*M_k)/k,  M_{k+1} = A*M_k + a_k*I
+		#   b_k = D*a_k + C*M_k*B
+		n = self.n
+		a = mpmath.mp.zeros(n + 1, 1)
+		b = mpmath.mp.zeros(n + 1, 1)
+		a[0, 0] = mpmath.mp.one
+		b[0, 0] = self.D[0, 0]
+		M = mpmath.mp.eye(n)
+		for k in range(1, n + 1):
+			CMB = mpf_matrix_fmul(mpf_matrix_fmul(self.C, M), self.B)[0, 0]
+			M = mpf_matrix_fmul(self.A, M)
+			t = mpmath.mp.zero
+			for i in range(0, n):
+				t = mpmath.fsub(t, M[i, i], exact=True)
+			# the quotient is a polynomial of the coefficients: it is exact with as many bits as t
+			a[k, 0] = mpmath.fdiv(t, k, prec=max(t._mpf_[3], 1))
+			b[k, 0] = mpmath.fadd(CMB, mpmath.fmul(self.D[0, 0], a[k, 0], exact=True), exact=True)
+			for i in range(0, n):
+				M[i, i] = mpmath.fadd(M[i, i], a[k, 0], exact=True)
+
+		# and the result is rounded
+		for i in range(0, n + 1):
+			a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)
+			b[i, 0] = mpmath.fadd(b[i, 0], mpmath.mp.zero, prec=prec)
 
 		return dTFmp(b, a)
 
-- 
2.43.0


From 280e62de2748ecc6e7df6b8f100a796914efe2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 054/105] fix: dSSmp.simulate_rounded accepts the inputs given
 as a mpmath matrix

---
 fixif/LTI/dSSmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index db83a53..d971177 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -372,7 +372,7 @@ class dSSmp(object):
 
 		# xk = mpf_matrix_to_sollya(xk)[0]
 
-		nSimulations = u.shape[1]
+		nSimulations = u.cols if isinstance(u, mpmath.matrix) else u.shape[1]
 		yk = mpmath.mp.zeros(self._p, nSimulations)
 
 		yk_sollya = mpf_matrix_to_sollya(yk)[0]
-- 
2.43.0


From 9e4a814935f83a7478a244abc7d1d1c707ae3da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 055/105] fix: dSS.simplify keeps the states that delay the
 inputs

---
 fixif/LTI/dSS.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 50ae14a..ae265f3 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -561,31 +561,26 @@ class dSS(object):
 	def simplify(self):
 		"""
 		This function tries to simplify the state-space msystem.
-		It may occur that matrix A contains one or several rows that contain only zeros.
-		In this case we have that the corresponding state-space variable depends only on
-		the term B[i,:]*u(k):
-		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
-		..
-		xi(k+1) = B[i,:]*u(k)
-		...
-		y(k) = C * x(k) + D * u(k)
-
-		Then, we can re-write
+		It may occur that matrices A and B contain one or several rows that contain only zeros.
+		In this case the corresponding state-space variable is always null:
 		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
 		..
 		xi(k+1) = 0
 		...
-		y(k) = C * x(k) + C[:,i]*(B[i,:]*u(k)) + D * u(k)
+		y(k) = C * x(k) + D * u(k)
 
-		or in matrix form:
+		Then, we can remove it:
 
 			A' is the matrix A with column i and row i deleted
+			B' is the matrix B with row i deleted
 			C' is the matrix C with column i deleted
 
 			then,
 
-			x(k+1) = A' * x(k) + B * u(k)
-			y(k)   = C' * x(k) + (D + C[:, i] * B[i,:]) * u(k)
+			x(k+1) = A' * x(k) + B' * u(k)
+			y(k)   = C' * x(k) + D * u(k)
+
+		(if only the row of A is null, then xi(k+1) = B[i,:]*u(k) is a delayed input: it cannot be removed)
 
 		Returns
 		-------
@@ -600,7 +595,7 @@ class dSS(object):
 		while newS.n > numpy.linalg.matrix_rank(newS._A):
 			l = list()
 			for i in range(0, newS.n):
-				if numpy.count_nonzero(newS._A[i, :]) == 0:
+				if numpy.count_nonzero(newS._A[i, :]) == 0 and numpy.count_nonzero(newS._B[i, :]) == 0:
 					l.append(i)
 			if not l:
 				# rank-deficient, but nothing to remove
@@ -618,8 +613,6 @@ class dSS(object):
 				A = numpy.delete(A, index, 1)
 				A = numpy.delete(A, index, 0)
 
-				D = D + C[:, index] * B[index, :]
-
 				C = numpy.delete(C, index, 1)
 
 				B = numpy.delete(B, index, 0)
-- 
2.43.0


From 8b4b2109bdb8ad4f05d77790e19d82827b53f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 056/105] fix: LGS and LCW structures of the second-order
 filters

---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 60f6a12..7fc39af 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -110,7 +110,7 @@ def A_decomposition_LGS(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
@@ -135,7 +135,7 @@ def A_decomposition_LCW(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
-- 
2.43.0


From 6871aae839159b192b7727cf09b0fad55e9de5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 057/105] fix: LGS and LCW do not propose themselves for the
 first-order filters

---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 7fc39af..29aca8d 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -369,9 +369,9 @@ def makeLCW(filt, transposed=False):
 
 def acceptLGSLCW(filt, **options):
 	"""
-	return True only if the filter is SISO and stable
+	return True only if the filter is SISO, stable and at least of order 2 (the lattice does not exist for a single state)
 	"""
-	return filt.isSISO() and filt.isStable()
+	return filt.isSISO() and filt.isStable() and filt.order > 1
 
 
 # build the Direct Form I
-- 
2.43.0


From d247701cad94b9100e5c2793daf8a239a2ababeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 058/105] fix: scaling of the rhoDFII when some states are
 never excited

---
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 7bdec85..63344df 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -17,7 +17,7 @@ __status__ = "Beta"
 
 from fixif.Structures.Structure import Structure
 from fixif.LTI import dSS
-from numpy import mat, array_equal
+from numpy import mat, array_equal, finfo
 from numpy import zeros, poly, sqrt, prod, transpose, diagflat, r_, c_, ones, atleast_2d, eye
 from numpy import matrix as mat
 from numpy.linalg import inv
@@ -94,19 +94,24 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 			Delta = ones((1, n))
 
 		else:
-			Wc = dSS(Abar, Bbar, Cbar, Dbar).Wc
+			# variances of the states (those that are never excited cannot be scaled, they are left as the previous one)
+			Wc = dSS(Abar, Bbar, Cbar, Dbar).Wc.diagonal().A1.copy()
+			noise = finfo(float).eps * max(Wc)
+			for i in range(n):
+				if Wc[i] <= noise:
+					Wc[i] = Wc[i - 1] if i > 0 else 1
 			Delta = zeros((1, n))
 			if scaling == 'l2':
 				# compute the Deltas that perform a l2-scaling (see Li04b)
-				Delta[0, 0] = sqrt(Wc[0, 0])
+				Delta[0, 0] = sqrt(Wc[0])
 				for i in range(1, n):
-					Delta[0, i] = sqrt(Wc[i, i] / Wc[i - 1, i - 1])
+					Delta[0, i] = sqrt(Wc[i] / Wc[i - 1])
 
 			elif scaling == 'l2-relaxed':
 				# compute the Deltas that perform a l2-scaling (see Hila09b)
-				Delta[0, 0] = floor2(sqrt(Wc[0, 0]))
+				Delta[0, 0] = floor2(sqrt(Wc[0]))
 				for i in range(1, n):
-					Delta[0, i] = floor2(sqrt(Wc[i, i] / Wc[i - 1, i - 1]))
+					Delta[0, i] = floor2(sqrt(Wc[i] / Wc[i - 1]))
 
 			else:
 				raise ValueError("rhoDFII: the `scaling` parameter should be None, 'l2' or 'l2-relaxed'")
-- 
2.43.0


From f5e2bc08732ae325a012af4ddf16f42944664b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 059/105] fix: the names and the coefficients longer than a
 line are not broken by the wrapping of a SoP

---
 fixif/SoP/SoP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index e0c46d1..40ccdae 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -77,7 +77,7 @@ class SoP:
 		if self._resName == S:
 			return ''
 		else:
-			return "\n".join(wrap(self._resName + ' ' + assign + ' ' + S, 60))
+			return "\n".join(wrap(self._resName + ' ' + assign + ' ' + S, 60, break_long_words=False, break_on_hyphens=False))
 
 
 
-- 
2.43.0


From 69b230ac2ea60c0f4acf27c7acabdd380bcfbb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:00 +0000
Subject: [PATCH 060/105] fix: sensitivities of the poles and of the transfer
 function with respect to the coefficients (N1 and N2 are those of the inputs
 of the products)

---
 fixif/SIF/SIF.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 723b5d8..5bc63ff 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -212,8 +212,8 @@ class SIF(SIF_sensibility):
 		# compute the useful matrices M1, M2, N1 and N2
 		self._M1 = c_[self.K * self._invJ, eye(self._n), zeros((self._n, self._p))]
 		self._M2 = c_[self.L * self._invJ, zeros((self._p, self._n)), eye(self._p)]
-		self._N1 = r_[self._invJ * self.M, self.AZ, self.CZ]
-		self._N2 = r_[self._invJ * self.N, self.BZ, self.DZ]
+		self._N1 = r_[self._invJ * self.M, eye(self._n), zeros((self._q, self._n))]
+		self._N2 = r_[self._invJ * self.N, zeros((self._n, self._q)), eye(self._q)]
 
 
 	def _build_dZ(self, dJtodS):
@@ -648,7 +648,7 @@ class SIF(SIF_sensibility):
 	def Hu(self):
 		"""Hu system is the state-space system from the inputs to the intern variables t,x,y"""
 		if self._Hu is None:
-			self._Hu = dSS(self.AZ, self.BZ, self._N1, self._N2)
+			self._Hu = dSS(self.AZ, self.BZ, r_[self._invJ * self.M, self.AZ, self.CZ], r_[self._invJ * self.N, self.BZ, self.DZ])
 		return self._Hu
 
 	@property
-- 
2.43.0


From 2da4a05eb16b3c7e1313d0a63c1dd3aad06ebd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:30 +0000
Subject: [PATCH 061/105] fix: H2-norm of the null systems (not a NaN)

---
 fixif/LTI/dSS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index ae265f3..117c87e 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -330,6 +330,10 @@ class dSS(object):
 			# less errors when Wc is big and Wo is small
 			M = self._C * self.Wc * self._C.transpose() + self._D * self._D.transpose()
 			self._H2norm = sqrt(M.trace())[0,0]
+			# (the trace of a null system may be slightly negative, due to the rounding errors)
+			error = 1e-12 * abs(self.Wc).max() * (self._C * self._C.transpose()).trace()[0,0]
+			if -error <= M.trace()[0,0] < 0:
+				self._H2norm = 0.0
 		except ValueError:  # TODO: check what kind of exception we need to catch here
 			try:
 				M = self._B.transpose() * self.Wo * self._B + self._D * self._D.transpose()
-- 
2.43.0


From 47f64587e63ff155f8c8064efa38463797a6b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 062/105] fix: plot of a transfer function on a gabarit with
 normalized frequencies

---
 fixif/LTI/Gabarit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 78396fd..faa2b8d 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -353,12 +353,13 @@ class Gabarit(object):
 		"""
 		minG = -200
 		if tf:
+			Fs = self._Fs if self._Fs else 2		# normalized frequencies (between 0 and 1) when Fs is not given
 			w, h = freqz(tf.num.transpose(), tf.den.transpose())
 			if dB:
-				plt.plot((self._Fs * 0.5 / pi) * w, 20*log10(abs(h)))
+				plt.plot((Fs * 0.5 / pi) * w, 20*log10(abs(h)))
 				minG = min(20 * log10(abs(h)))
 			else:
-				plt.plot((self._Fs * 0.5 / pi)*w, abs(h))
+				plt.plot((Fs * 0.5 / pi)*w, abs(h))
 
 
 		currentAxis = plt.gca()
-- 
2.43.0


From e362629e6afe2e787cc53f53088462e9f3a5170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:32 +0000
Subject: [PATCH 063/105] fix: the design of a bandstop whose pass bands have
 different upper gains is inside the narrowest pass band

---
 fixif/LTI/Gabarit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index faa2b8d..a0fbcb3 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -286,8 +286,8 @@ class Gabarit(object):
 		if method == 'matlab' and isMatlabInstalled():
 			matlabEng = MatlabHelper(raiseError=False)
 
-		# normalize bands (with pass gain centered in 0dB)
-		centerPassGain = max((b.passGains[0]+b.passGains[1])/2.0 for b in self._bands if b.isPassBand)
+		# normalize bands (with pass gain centered in 0dB, the gain 0dB should be in all the pass bands)
+		centerPassGain = min((b.passGains[0]+b.passGains[1])/2.0 for b in self._bands if b.isPassBand)
 		bands = [b-centerPassGain for b in self._bands]
 		for b in bands:
 			b.applyDesignMargin(designMargin)
-- 
2.43.0


From b729872359956db3c66eaa97ff21e7242dc0ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:32 +0000
Subject: [PATCH 064/105] fix: margin of a gain lower than the lower gain of a
 pass band

---
 fixif/LTI/Gabarit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index a0fbcb3..7d1a7a6 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -507,9 +507,9 @@ def findMaxIssue(res):
 				H = dict(i)["H"]
 				betaInf = dict(dict(i)["specification"])["betaInf"]
 				betaSup = dict(dict(i)["specification"])["betaSup"]
-				if sollya.inf(H) > betaSup:
+				if sollya.sup(H) > betaSup:
 					maxError = sollya.max(maxError, sollya.sup(H) - betaSup)
 				else:
-					maxError = sollya.max(maxError, betaSup - sollya.inf(H))
+					maxError = sollya.max(maxError, betaInf - sollya.inf(H))
 
 	return maxError
-- 
2.43.0


From 6c2921e3768e110821ee6f0c3898e476212e9bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 065/105] fix: random_dSS iterator with only one output or one
 input (p=1 or q=1, as documented)

---
 fixif/LTI/dSS.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 117c87e..19ad771 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -775,17 +775,17 @@ def iter_random_dSS(number, stable=True, n=(5, 10), p=(1, 5), q=(1, 5),
 
 
 	"""
+	# p and q may be 1
+	p = (1, 2) if p == 1 else p
+	q = (1, 2) if q == 1 else q
+
 	for i in range(number):
 		if stable:
 			yield random_dSS(randint(*n), randint(*p), randint(*q), pRepeat, pReal, pBCmask, pDmask, pDzero)
 		else:
 			nn = randint(*n)
-			if p == 1 and q == 1:
-				pp = 1
-				qq = 1
-			else:
-				pp = randint(*p)
-				qq = randint(*q)
+			pp = randint(*p)
+			qq = randint(*q)
 			A = mat(rand(nn, nn))
 			B = mat(rand(nn, qq))
 			C = mat(rand(pp, nn))
-- 
2.43.0


From 142b1fa138075d52f222d523e875251e12b500ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 066/105] fix: random_Butter and random_Elliptic terminate when
 W1 goes beyond W2

---
 fixif/LTI/Butter.py   | 2 ++
 fixif/LTI/Elliptic.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index c1252dd..f35040f 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -99,6 +99,8 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		if W2[1] <= W1[0]:
 			raise ValueError("iter_random_Butter: W1 should be lower than W2")
 		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
+		while Wn1 >= W2[1]:
+			Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		while Wn2 <= Wn1:
 			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index 0ac5509..69dcd5e 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -110,6 +110,8 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		if W2[1] <= W1[0]:
 			raise ValueError("iter_random_Elliptic: W1 should be lower than W2")
 		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
+		while Wn1 >= W2[1]:
+			Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		while Wn2 <= Wn1:
 			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
-- 
2.43.0


From 06c0ad2e0c0149461a7fb22f3a22bb65e79da71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 067/105] fix: Simulink gain blocks that feed other gain blocks

---
 fixif/Structures/Simulink/diagram.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 2f8d9b7..b849def 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -261,21 +261,22 @@ class System(object):
 
 	def expandeqgain(self):
 		"""Put gain as Sum coefficient"""
-		# It will act on  Sum bloc equation
-		# now, we assume there is no cascading gain block
-		# and gain will always be before Sum block
-		#
-		# ? keep cascading gain block : test if the current block is a sum
-		# 								and create also an inter var for upstream gain block
+		# the gain blocks can be chained (a gain that feeds another gain)
 		for eq in self.equations:
 			for eqin in list(eq.termes): # a copy of the dict key / dict is changing during iteration
-				if self.blocks[eqin].type == 'Gain':
-					oldgain = eq.termes[eqin]	
-					del eq.termes[eqin] 
-
-					gaineq = self.getequation(eqin)
-					for gin in gaineq.termes:
-						eq.addterm(gin, gaineq.termes[gin] * oldgain)
+				block = self.blocks[eqin]
+				if block.type == 'Gain':
+					coeff = eq.termes.pop(eqin)
+					chain = []
+					# go back to the block that feeds the chain of gains (None if it is not connected)
+					while block is not None and block.type == 'Gain':
+						if block in chain:
+							raise ValueError("importSimulink: there is a loop of gain blocks")
+						chain.append(block)
+						coeff *= block.gain
+						block = block.inlist.get('1')
+					if block is not None:
+						eq.addterm(block.sid, coeff)
 
 
 	def isequationused(self,eq): 
-- 
2.43.0


From 82d39130eb259083029dbeb946b932dfa092a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 068/105] fix: import of Simulink diagrams without sum or
 without delay

---
 fixif/Structures/Simulink/Simulink.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fixif/Structures/Simulink/Simulink.py b/fixif/Structures/Simulink/Simulink.py
index 3dcc0d4..da3581e 100755
--- a/fixif/Structures/Simulink/Simulink.py
+++ b/fixif/Structures/Simulink/Simulink.py
@@ -86,10 +86,13 @@ def importSimulink(fileName, constants=None):
     print("inter t", t)
     print("output y", y)
 
-    return Realization(None,
-                       (mat(mysif.J, dtype='float'), mat(mysif.K, dtype='float'), mat(mysif.L, dtype='float'),
-                        mat(mysif.M, dtype='float'), mat(mysif.N, dtype='float'), mat(mysif.P, dtype='float'),
-                        mat(mysif.Q, dtype='float'), mat(mysif.R, dtype='float'), mat(mysif.S, dtype='float')),
+    # (a matrix without row or column has also its size)
+    J, K, L, M, N, P, Q, R, S = [mat(X, dtype='float').reshape(s) for X, s in (
+        (mysif.J, (mysif.l, mysif.l)), (mysif.K, (n, mysif.l)), (mysif.L, (p, mysif.l)),
+        (mysif.M, (mysif.l, n)), (mysif.N, (mysif.l, m)), (mysif.P, (n, n)),
+        (mysif.Q, (n, m)), (mysif.R, (p, n)), (mysif.S, (p, m)))]
+
+    return Realization(None, (J, K, L, M, N, P, Q, R, S),
                        structureName='Simulink (%s)' % fileName)
 
 # TODO
-- 
2.43.0


From 005e8dce423767173d8f0d1792148ec173fa6261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:43 +0000
Subject: [PATCH 069/105] fix: outputs of the Simulink diagrams fed by any
 block (an output fed by a delay, an input or the block of another output was
 lost)

---
 fixif/Structures/Simulink/Simulink.py |  5 ---
 fixif/Structures/Simulink/diagram.py  | 11 ++---
 fixif/Structures/Simulink/sif.py      | 63 ++-------------------------
 3 files changed, 7 insertions(+), 72 deletions(-)

diff --git a/fixif/Structures/Simulink/Simulink.py b/fixif/Structures/Simulink/Simulink.py
index da3581e..ed80a5c 100755
--- a/fixif/Structures/Simulink/Simulink.py
+++ b/fixif/Structures/Simulink/Simulink.py
@@ -97,17 +97,12 @@ def importSimulink(fileName, constants=None):
 
 # TODO
 # Trigonaliser la matrice J
-# gerer les gain successives ( mettre des variables intermediaires)
 # traiter les vecteurs X
 # ajouter d'autres blocs X
 # prise en charge d'un fichier MDL X
 # (--> test library linked subsys)
 # gain parametrable (variable)
 
-# ASSERTIONS
-# - output or intermediate result always on Sum Block
-# - No cascading Gain block (solution:make an inter var to preserve value)
-
 # CAPABILITIES
 # - can handle scalar multiples I/O
 # - can handle SubSystem 
diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index b849def..5f10682 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -335,6 +335,7 @@ class System(object):
 			block = self.getblockbysid(sid)
 			if block.type == 'Outport':
 				outports.append(block)
+		outports.sort(key=lambda b: int(b.port))
 		return outports
 
 	def getblocksbytype(self,type):
@@ -366,13 +367,9 @@ class System(object):
 		# there is no special operation in u and x : we can rely on blocks list 
 		u = [b.name for b in self.getinblocks()] 
 		x = [b.name for b in self.getblocksbytype('Delay')]
-		# t and y are modified so we rely on equation list ( this hold final result on block diag processing)
-		sum = [self.getblockbysid(teq.out) for teq in self.equations if self.getblockbysid(teq.out).type == 'Sum']
-		t = [bs.name for bs in sum if  bs.isoutblock() == False]
-		y = [bs.name for bs in sum if  bs.isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in self.equations if self.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  self.getblockbysid(s).isoutblock() == True]
+		# t is modified so we rely on equation list ( this hold final result on block diag processing)
+		t = [self.getblockbysid(teq.out).name for teq in self.equations if self.getblockbysid(teq.out).type == 'Sum']
+		y = [b.name for b in self.getoutblocks()]
 		return (u,x,t,y)
 
 	
diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index a4db69a..2794294 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -15,7 +15,6 @@ __status__ = "Beta"
 
 
 import sys
-from fixif.Structures.Simulink.diagram import Equation
 
 class Sif(object):
 	def __init__(self, l, m, n, p):
@@ -46,66 +45,10 @@ class Sif(object):
 		# /!\ Matrix element value placement depend on variables order
 		u = [u.sid for u in system.getinblocks()]
 		x = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Delay']
-		sum = [teq.out for teq in system.equations if system.getblockbysid(teq.out).type == 'Sum']
-		t = [s for s in sum if  system.getblockbysid(s).isoutblock() == False]
-		y = [s for s in sum if  system.getblockbysid(s).isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  system.getblockbysid(s).isoutblock() == True]
+		t = [teq.out for teq in system.equations if system.getblockbysid(teq.out).type == 'Sum']
+		# the outputs are the Outport blocks, ordered by the number of their port (any block can feed one or several of them)
+		y = [b.sid for b in system.getoutblocks()]
 
-		# the outputs are ordered by the number of their port
-		y.sort(key=lambda s: min(int(b.port) for b in system.getblockbysid(s).outlist if b.type == 'Outport'))
-
-		# TODO: dirty work, just for test, clean useless variables and computation
-		# for block labeling : type+sid
-		self.u = [system.getblockbysid(i).label for i in u]
-		self.x = [system.getblockbysid(i).label for i in x]
-		self.t = [system.getblockbysid(i).label for i in t]
-		self.y = ["y"+system.getblockbysid(i).label[1:] for i in y]
-
-		# ________________________________________________________
-		#
-		# patch if there is output in the termes of the equations
-		# blocks list
-		bsids = []
-		for block in system.blocks:
-			bsids.append(block)
-		# get a new free SID
-		def get_new_sid(sids):
-			nb = len(sids) + 2
-			for tsid in range(1,nb):
-				if str(tsid) not in sids:
-					sid = str(tsid)
-			sids.append(sid) #update local blocks list
-			return sid
-		# correct equations
-		for outb in list(y):
-			for eq in system.equations:
-				feedback = False
-				for block in eq.termes:
-					if block == outb:
-						feedback = True
-						break	
-				if feedback:
-					t.append(outb)
-					new_out = get_new_sid(bsids)
-					#bsids.append(new_out) #update done in get_new_sid()
-					# add a new equation
-					neweq=Equation(new_out)
-					neweq.termes[outb] = 1.0
-					system.equations.append(neweq)
-					y[y.index(outb)] = new_out		# (same order of the outputs)
-					#correct matrix size
-					self.l +=1
-					def mat( a, b):
-						m = [[0.0 for i in range(b)] for j in range(a) ]
-						return m
-					self.J = mat(self.l,self.l)
-					self.K = mat(self.n,self.l) 
-					self.L = mat(self.p,self.l)
-					self.M = mat(self.l,self.n)
-					self.N = mat(self.l,self.m)
-					break
 		# for block labeling : type+sid
 		self.u = ["u"+str(i) for i in u] #[system.getblockbysid(i).label for i in u]
 		self.x = ["x"+str(i) for i in x] #[system.getblockbysid(i).label for i in x]
-- 
2.43.0


From cc269bb4dfdccc70e4e325be78317cc888789495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:32 +0000
Subject: [PATCH 070/105] fix: the Simulink lines that are not connected to an
 output feed nothing

---
 fixif/Structures/Simulink/diagram.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 5f10682..1379cb3 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -71,7 +71,8 @@ class System(object):
 		## Fill lines list
 		for l in lineels:
 			# find all children 'P' tag
-			# there must be only one 'Src
+			# there must be only one 'Src (or none, when the line is not connected to an output)
+			srctext = None
 			for p in  l.findall("P"):  
 				if p.get("Name") == "Src": 
 					srctext = p.text
@@ -79,7 +80,7 @@ class System(object):
 			# find all 'P' tag recursively
 			# there can be more than one 'Dst'
 			for p in l.iter("P"):  
-				if p.get("Name") == "Dst": 
+				if p.get("Name") == "Dst" and srctext is not None:
 					dsttext = p.text
 					newline = Line(srctext, dsttext)
 					lines.append(newline)
-- 
2.43.0


From 83eb93510dd87f480347d8d5380d4dfb7330a335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:08 +0000
Subject: [PATCH 071/105] fix: the threshold of the trivial coefficients is the
 documented relative error

---
 fixif/SIF/SIF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 5bc63ff..618c6a1 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -47,7 +47,8 @@ def isTrivial(x, epsilon):
 	p = round(log(abs(x), 2))
 	alpha = log(abs(x), 2) - p
 
-	return abs(alpha) < epsilon*(1-epsilon/2)
+	# (relative distance between |x| and 2^p)
+	return abs(2**alpha - 1) < epsilon
 
 
 def _check_dimensions(JtoS):
-- 
2.43.0


From 09afbfcd256a718ea199197e82d31033b8148f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 072/105] fix: dZ follows the coefficients after every write
 (and the dZ given by the user is kept)

---
 fixif/SIF/Realization.py |  2 +-
 fixif/SIF/SIF.py         | 30 +++++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index 3be7365..d1363c6 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -158,6 +158,6 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 		R = copy(self)
 		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])
 		R.Z = quantizeMat(R.Z)
-		R.dZ = copy(R.dZ)		# (not shared with self)
+		R._dZ = copy(R._dZ)		# (not shared with self)
 		return R
 
diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 618c6a1..94956cf 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -147,6 +147,7 @@ class SIF(SIF_sensibility):
 
 		# build _dZ, the associated state space _dSS (contains AZ, BZ, CZ, DZ, gramians, etc.), _M1 _M2 _N1 _N2 and the *_bar matrices
 		self._dZ = None
+		self._dZgiven = dJtodS is not None
 		self._build_dZ(dJtodS)
 
 
@@ -239,6 +240,14 @@ class SIF(SIF_sensibility):
 
 
 
+	def _update_dZ(self):
+		"""
+		Rebuild dZ when the coefficients have changed (except if dZ has been given by the user)
+		"""
+		if not self._dZgiven:
+			self._build_dZ(None)
+
+
 	def _build_fromZ(self):
 		self._build_AZtoDZ()
 		self._build_M1M2N1N2()
@@ -312,10 +321,12 @@ class SIF(SIF_sensibility):
 		self._Z = mat(mymat, dtype=float)		# (copy)
 		self._invJ = inv(self.J)
 		self._build_fromZ()
+		self._update_dZ()
 
 	@dZ.setter
 	def dZ(self, mymat):
 		self._dZ = mymat
+		self._dZgiven = True
 
 
 	#  JtoS getters
@@ -410,47 +421,55 @@ class SIF(SIF_sensibility):
 		self._Z[0: self._l, 0: self._l] = - mymat
 		self._invJ = inv(mymat)
 		self._build_fromZ()
+		self._update_dZ()
 
 	@K.setter
 	def K(self, mymat):
 		self._Z[self._l: self._l + self._n, 0: self._l] = mymat
 		self._build_fromZ()
+		self._update_dZ()
 
 	@L.setter
 	def L(self, mymat):
 		self._Z[self._l + self._n: self._l + self._n + self._p, 0:self._l] = mymat
 		self._build_fromZ()
+		self._update_dZ()
 
 	@M.setter
 	def M(self, mymat):
 		self._Z[0: self._l, self._l: self._l + self._n] = mymat
 		self._build_fromZ()
+		self._update_dZ()
 
 	@N.setter
 	def N(self, mymat):
 		self._Z[0: self._l, self._l + self._n: self._l + self._n + self._q] = mymat
 		self._build_fromZ()
+		self._update_dZ()
 
 	@P.setter
 	def P(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
-		self._build_dZ(None)  # TODO: all these setters should call _build_dZ(None) !!
 		self._build_fromZ()
+		self._update_dZ()
 
 	@Q.setter
 	def Q(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l + self._n: self._l + self._n + self._q] = mymat
 		self._build_fromZ()
+		self._update_dZ()
 
 	@R.setter
 	def R(self, mymat):
 		self._Z[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] = mymat
 		self._build_fromZ()
+		self._update_dZ()
 
 	@S.setter
 	def S(self, mymat):
 		self._Z[self._l + self._n: self._l + self._n + self._p, self._l + self._n: self._l + self._n + self._q] = mymat
 		self._build_fromZ()
+		self._update_dZ()
 
 
 	# dJtodS setters
@@ -458,38 +477,47 @@ class SIF(SIF_sensibility):
 	@dJ.setter
 	def dJ(self, mymat):
 		self._dZ[0: self._l, 0: self._l] = mymat
+		self._dZgiven = True
 
 	@dK.setter
 	def dK(self, mymat):
 		self._dZ[self._l: self._l + self._n, 0: self._l] = mymat
+		self._dZgiven = True
 
 	@dL.setter
 	def dL(self, mymat):
 		self._dZ[self._l + self._n: self._l + self._n + self._p, 0:self._l] = mymat
+		self._dZgiven = True
 
 	@dM.setter
 	def dM(self, mymat):
 		self._dZ[0: self._l, self._l: self._l + self._n] = mymat
+		self._dZgiven = True
 
 	@dN.setter
 	def dN(self, mymat):
 		self._dZ[0: self._l, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._dZgiven = True
 
 	@dP.setter
 	def dP(self, mymat):
 		self._dZ[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
+		self._dZgiven = True
 
 	@dQ.setter
 	def dQ(self, mymat):
 		self._dZ[self._l: self._l + self._n, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._dZgiven = True
 
 	@dR.setter
 	def dR(self, mymat):
 		self._dZ[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] = mymat
+		self._dZgiven = True
 
 	@dS.setter
 	def dS(self, mymat):
 		self._dZ[self._l + self._n: self._l + self._n + self._p, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._dZgiven = True
 
 
 
-- 
2.43.0


From dc14c9124d8eb4d775d776bb207581724686cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 073/105] fix: a line without coefficient requires no addition
 (it was counted as -1)

---
 fixif/SIF/SIF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 94956cf..f3c2cb4 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -694,8 +694,10 @@ class SIF(SIF_sensibility):
 		"""
 		# per line, the number of addition is equal to the number of non-zero coefficients - 1
 		# for the l first SoP, we need to decrease by 1 this number (the diagonal terms of J should not be counted)
+		# (a line without coefficient requires no addition)
 		# number of multiplication is equal to the number of non-trivial coefficients
-		return count_nonzero(self.dZ), count_nonzero(self.Z) - self.l - (self.l+self.n+self.p)
+		terms = [count_nonzero(self.Z[i, :]) - (1 if i < self.l else 0) for i in range(self.l+self.n+self.p)]
+		return count_nonzero(self.dZ), sum(max(t-1, 0) for t in terms)
 
 	def isPnut(self):
 		"""
-- 
2.43.0


From ddd79d4cea1fb322b3f63289a4746316016c7453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 074/105] fix: width of the blank line of getZtpmatrixLaTeX
 without intermediate variable

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index f3c2cb4..1fcca0a 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -753,7 +753,7 @@ class SIF(SIF_sensibility):
 		the null element are not shown when sparse=True
 		"""
 		l, n, p, q = self.size
-		code = [] if l > 0 else [r"\&" * (l + n + p) + r"\\" + "\n"]
+		code = [] if l > 0 else [r"\&" * (n + q) + r"\\" + "\n"]
 		for i in range(l+n+p):
 			line = [] if l>0 else [""]
 			for j in range(l+n+q):
-- 
2.43.0


From 22ec438ff679fd789f3b99e734e7fffb21f7bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 075/105] fix: draw the Bode plot with the grid() of any
 version of matplotlib

---
 fixif/LTI/dTF.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 6083d4a..dd6d01e 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -215,15 +215,15 @@ class dTF(object):
 		plt.subplot(2, 1, 1)
 		plt.semilogx(w, mag, 'b-', linewidth=1)
 		plt.xlim((wmin, 3.5))
-		plt.grid(b=True, which='major', color='gray', linestyle='-')
-		plt.grid(b=True, which='minor', color='silver', linestyle='--')
+		plt.grid(True, which='major', color='gray', linestyle='-')
+		plt.grid(True, which='minor', color='silver', linestyle='--')
 		plt.ylabel('Magnitude (dB)')
 		plt.axvline(x=3.14159, color='grey', zorder=2)
 		plt.subplot(2, 1, 2)
 		plt.semilogx(w, phase, 'b-', linewidth=1)
 		plt.xlim((wmin, 3.5))
-		plt.grid(b=True, which='major', color='gray', linestyle='-')
-		plt.grid(b=True, which='minor', color='silver', linestyle='--')
+		plt.grid(True, which='major', color='gray', linestyle='-')
+		plt.grid(True, which='minor', color='silver', linestyle='--')
 		plt.axvline(x=3.14159, color='grey', zorder=2)
 		plt.ylabel('Phase')
 		plt.xlabel('Frequency ($rad.s^{-1}$)')
-- 
2.43.0


From 63db98bf6ec4398d31aba1561e432d217fe610f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 076/105] fix: dSS.to_dTF keeps the accuracy of the numerator
 for small gains

---
 fixif/LTI/dSS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 19ad771..d8a9263 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -559,8 +559,10 @@ class dSS(object):
 		if self._p != 1 or self._q != 1:
 			raise ValueError('dSS: the state-space must be SISO to be converted in transfer function')
 		from fixif.LTI import dTF
-		num, den = ss2tf(self._A, self._B, self._C, self._D)
-		return dTF(num[0], den)
+		# (ss2tf computes the numerator as a difference with the denominator, so it is scaled for the small gains)
+		scale = 2.0**numpy.frexp(max(abs(self._B).max()*abs(self._C).max(), abs(self._D).max()))[1]
+		num, den = ss2tf(self._A, self._B, self._C/scale, self._D/scale)
+		return dTF(num[0]*scale, den)
 
 	def simplify(self):
 		"""
-- 
2.43.0


From dde27f30de64ea59886afb5ed8db59777bea9347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 077/105] fix: dTF.to_dSS('obs') does not drop the small first
 coefficients of the numerator

---
 fixif/LTI/dTF.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index dd6d01e..c6b0830 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -16,7 +16,7 @@ __status__ = "Beta"
 
 
 from fixif.WCPG import WCPG_TF
-from numpy import ndenumerate, array, linspace
+from numpy import ndenumerate, array, linspace, frexp
 from numpy import matrix as mat, convolve
 from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
@@ -172,7 +172,10 @@ class dTF(object):
 			D = mat(atleast_2d(self.num[0, 0]))
 		elif form == 'obs':
 			# TODO: to it manually!!
-			A, B, C, D = tf2ss(array(self.num)[0, :], array(self.den)[0, :])
+			# (tf2ss considers the first coefficients of the numerator as null when they are below 1e-14, so the numerator is scaled)
+			scale = 2.0**frexp(abs(self.num).max())[1]
+			A, B, C, D = tf2ss(array(self.num)[0, :]/scale, array(self.den)[0, :])
+			C, D = C*scale, D*scale
 		else:
 			raise ValueError('dTF.to_dSS: the form "%s" is invalid (must be "ctrl" or "obs")' % form)
 
-- 
2.43.0


From 034c077903de85f1b421ce47f5158d2b966f3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 078/105] fix: dTF.toTransferFunction does not drop the small
 first coefficients of the numerator

---
 fixif/LTI/dTF.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index c6b0830..53c4d3c 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -16,7 +16,7 @@ __status__ = "Beta"
 
 
 from fixif.WCPG import WCPG_TF
-from numpy import ndenumerate, array, linspace, frexp
+from numpy import ndenumerate, array, linspace, frexp, trim_zeros
 from numpy import matrix as mat, convolve
 from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
@@ -186,7 +186,11 @@ class dTF(object):
 		"""
 		Convert the object to a scipy Transfer Function
 		"""
-		return TransferFunction(self.num.tolist()[0], self.den.tolist()[0], dt=1)
+		tf = TransferFunction([1.0], self.den.tolist()[0], dt=1)
+		# (the constructor considers the first coefficients of the numerator as null when they are below 1e-14)
+		num = trim_zeros(self.num.tolist()[0], 'f')
+		tf.num = num if num else [0.0]
+		return tf
 
 
 	def to_Sollya(self):
-- 
2.43.0


From 6d09d58c7e93fababe878e1aabb564e67ebb4273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 079/105] fix: the matrix given to SIF.dZ is copied (it was
 shared with the object)

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 1fcca0a..b2f0d0d 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -325,7 +325,7 @@ class SIF(SIF_sensibility):
 
 	@dZ.setter
 	def dZ(self, mymat):
-		self._dZ = mymat
+		self._dZ = mat(mymat)		# (copy)
 		self._dZgiven = True
 
 
-- 
2.43.0


From ef6db79629de466508c22e58efb415f70fcf190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 080/105] fix: several inputs and several outputs of a
 state-space can be selected by lists of indexes

---
 fixif/LTI/dSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index d8a9263..0c56cf2 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -544,7 +544,7 @@ class dSS(object):
 
 	def __getitem__(self, *args):
 		"""Returns a subsystem"""
-		return dSS(self._A, self._B[:, args[0][1]], self._C[args[0][0], :], self._D[args[0][0], args[0][1]])
+		return dSS(self._A, self._B[:, args[0][1]], self._C[args[0][0], :], self._D[args[0][0], :][:, args[0][1]])
 
 	def to_dSSmp(self):
 		"""Transforms the dSS into a dSSmp (multiprecision dSS)"""
-- 
2.43.0


From ce954d5a73477d8f40edb9b4511b9d455f0ef06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 081/105] fix: the order of a dTFmp whose numerator is longer
 than its denominator

---
 fixif/LTI/dTFmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index da719ee..0781516 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -61,7 +61,7 @@ class dTFmp(object):
 			for i in range(0, b.rows):
 				b[i, 0] = mpmath.fdiv(b[i, 0], a0, prec=prec)
 
-		self._order = n - 1
+		self._order = max(n, b.rows) - 1
 		self._num = b
 		self._den = a
 
-- 
2.43.0


From 512e49b8df7ba39044e6ec686ad311f7e3fa03fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 082/105] fix: the comments of an algorithm are placed before
 their lines, even when some redundant lines are omitted

---
 fixif/SIF/Realization_algorithms.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index c0d1497..05ec67c 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -44,14 +44,15 @@ class R_algorithm:
 		env = make_env(loader=FileSystemLoader(SIF_TEMPLATES_PATH))
 		tpl = env.get_template('algorithmLaTeX_template.tex')
 
-		algoStr = [s+r"\\" for s in self._algorithmCore(LaTeX=True, assign='$\leftarrow$', coefFormat=coefFormat, withTime=withTime, withSurname=withSurname)]
+		algoT, algoX, algoY = [[s+r"\\" for s in lines] for lines in self._algorithmCore(LaTeX=True, assign='$\leftarrow$', coefFormat=coefFormat, withTime=withTime, withSurname=withSurname)]
 
 		# add comments
-		algoStr.insert(self._l + self._n, r"\tcp{Outputs}" if self._p > 1 else r"\tcp{Output}")
+		algoY.insert(0, r"\tcp{Outputs}" if self._p > 1 else r"\tcp{Output}")
 		if self._n > 0:
-			algoStr.insert(self._l, r"\tcp{States}" if self._n > 1 else r"\tcp{State}")
+			algoX.insert(0, r"\tcp{States}" if self._n > 1 else r"\tcp{State}")
 		if self._l > 0:
-			algoStr.insert(0, r"\tcp{Temporary variables}" if self._l > 1 else r"\tcp{Temporary variable}")
+			algoT.insert(0, r"\tcp{Temporary variables}" if self._l > 1 else r"\tcp{Temporary variable}")
+		algoStr = algoT + algoX + algoY
 		if withTime is False and self.isPnut():
 			algoStr.append(r"\tcp{Swap states}")
 			algoStr.append("$" + self._varNameX[0].name + ' \leftarrow ' + self._varNameX[0].name + "p$")
@@ -83,17 +84,17 @@ class R_algorithm:
 		Otherwise, should be in C formatting format (like "%4.f" for example)
 		"""
 
-		algoStr = self._algorithmCore(LaTeX=False, assign='<-', coefFormat=coefFormat, withTime=withTime, withSurname=withSurname)
+		algoT, algoX, algoY = self._algorithmCore(LaTeX=False, assign='<-', coefFormat=coefFormat, withTime=withTime, withSurname=withSurname)
 
 		# comments
 		if comments:
-			algoStr.insert(self._l + self._n, "/ Outputs /" if self._p > 1 else "/ Output /")
+			algoY.insert(0, "/ Outputs /" if self._p > 1 else "/ Output /")
 			if self._n > 0:
-				algoStr.insert(self._l, "/ States /" if self._n > 1 else "/ State /")
+				algoX.insert(0, "/ States /" if self._n > 1 else "/ State /")
 			if self._l > 0:
-				algoStr.insert(0, "/ Temporary variables /" if self._l > 1 else "/ Temporary variable /")
+				algoT.insert(0, "/ Temporary variables /" if self._l > 1 else "/ Temporary variable /")
 
-		return "\n".join(algoStr)
+		return "\n".join(algoT + algoX + algoY)
 
 
 
@@ -104,6 +105,8 @@ class R_algorithm:
 		- withTime: True if the variable are labeled with time (cannot be False if withSurname is True)
 		- withSurname: True if the surname of the variables (when they exist) are used; in that case, the temporary variables do not have time (t instead of t(k+1))
 		Otherwise, should be in C formatting format (like "%4.f" for example)
+
+		Returns three lists of lines: for the temporary variables, for the states and for the outputs (some lines may be omitted)
 		"""
 		if withSurname and not withTime:
 			# it raises an error only when at least one VarName has a surname with time (with shift != 0)
@@ -133,7 +136,7 @@ class R_algorithm:
 		# then we use varTXUnoTime for the display
 
 		# iter over all SoP
-		algoStr = []
+		algoT, algoX, algoY = [], [], []
 		for i in range(self._l + self._n + self._p):
 			# sum of product
 			sop1 = SoP(self.Zcomp[i, :].tolist()[0], varTXU, varTXY[i])     # varTXU is used for dst and the comparison with src
@@ -142,8 +145,8 @@ class R_algorithm:
 				# finally, we use the varTXUnoTime for the result
 				sop2 = SoP(self.Zcomp[i, :].tolist()[0], varTXUnoTime, varTXYnoTime[i])
 				newLine = sop2.toAlgoStr(assign, coefFormat)
-				if newLine and newLine not in algoStr:  # to avoid redondant lines (append for DFI with surname)
-					algoStr.append(newLine)
+				if newLine and newLine not in algoT + algoX + algoY:  # to avoid redondant lines (append for DFI with surname)
+					(algoT if i < self._l else algoX if i < self._l + self._n else algoY).append(newLine)
 
 
 		#TODO: build the SoP with VarName (instead of just strings) and put this "trick" in the SoP.toAlgoStr method instead of here
@@ -151,4 +154,4 @@ class R_algorithm:
 
 
 
-		return algoStr
+		return algoT, algoX, algoY
-- 
2.43.0


From c7d3d7a3d24bde784d9ae6e7cdbc4d7b27dce9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 083/105] fix: the rounded simulation gives all the outputs,
 and rounds the states on the number of bits asked

---
 fixif/LTI/dSSmp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index d971177..739512d 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -384,8 +384,13 @@ class dSSmp(object):
 			yk[:, i] = mpf_matrix_fadd(yk[:, i], mpf_matrix_fmul(self._D, u[:, i]))
 
 
-			xk = mpmath.matrix([float(sollya.round(mpf_matrix_to_sollya(xkp1)[0][j], prec, sollya.RN)) for j in range(0, self._n)])
-			yk_sollya[i] = sollya.round(mpf_matrix_to_sollya(yk[:, i])[0][0], prec, sollya.RN)
+			# round the new state on prec bits
+			xk = mpmath.mp.zeros(self._n, 1)
+			for j in range(0, self._n):
+				xk[j, 0] = mpmath.fadd(xkp1[j, 0], mpmath.mp.zero, prec=prec, rounding='n')
+			# and the outputs (given row by row)
+			for j in range(0, self._p):
+				yk_sollya[j*nSimulations + i] = sollya.round(mpf_matrix_to_sollya(yk[:, i])[0][j], prec, sollya.RN)
 
 		return yk_sollya
 
-- 
2.43.0


From fbbf3b032848b45a43526df3eb3300e932bbc9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 084/105] fix: the exact sum, difference and product refuse
 complex matrices wherever the complex element is

---
 fixif/func_aux/mpf_matrix_fadd.py      | 4 ++--
 fixif/func_aux/mpf_matrix_fmul.py      | 4 ++--
 fixif/func_aux/mpf_matrix_fsub.py      | 4 ++--
 fixif/func_aux/mpf_matrix_to_sollya.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fixif/func_aux/mpf_matrix_fadd.py b/fixif/func_aux/mpf_matrix_fadd.py
index f78d33a..642c5a2 100644
--- a/fixif/func_aux/mpf_matrix_fadd.py
+++ b/fixif/func_aux/mpf_matrix_fadd.py
@@ -41,9 +41,9 @@ def mpf_matrix_fadd(A, B):
 
 
 	#here both A and B are mpmath matrices
-	#we consider that A and B are MPF matrices if their first elements are of type mpf, let's test it
+	#let's test if all their elements are of type mpf
 
-	if not isinstance(A[0,0], mpmath.mpf) or not isinstance(B[0,0], mpmath.mpf):
+	if not all(isinstance(x, mpmath.mpf) for x in A) or not all(isinstance(x, mpmath.mpf) for x in B):
 		raise ValueError('Cannot compute exact product of two matrices: cannot sum complex matrices.')
 
 	#test sizes
diff --git a/fixif/func_aux/mpf_matrix_fmul.py b/fixif/func_aux/mpf_matrix_fmul.py
index cbce90d..cd94dac 100644
--- a/fixif/func_aux/mpf_matrix_fmul.py
+++ b/fixif/func_aux/mpf_matrix_fmul.py
@@ -41,9 +41,9 @@ def mpf_matrix_fmul(A, B):
 
 
 	#here both A and B are mpmath matrices
-	#we consider that A and B are MPF matrices if their first elements are of type mpf, let's test it
+	#let's test if all their elements are of type mpf
 
-	if not isinstance(A[0,0], mpmath.mpf) or not isinstance(B[0,0], mpmath.mpf):
+	if not all(isinstance(x, mpmath.mpf) for x in A) or not all(isinstance(x, mpmath.mpf) for x in B):
 		raise ValueError('Cannot compute exact product of two matrices: cannot multiply complex matrices.')
 
 	#test sizes
diff --git a/fixif/func_aux/mpf_matrix_fsub.py b/fixif/func_aux/mpf_matrix_fsub.py
index 36235eb..2fee8b9 100644
--- a/fixif/func_aux/mpf_matrix_fsub.py
+++ b/fixif/func_aux/mpf_matrix_fsub.py
@@ -41,9 +41,9 @@ def mpf_matrix_fsub(A, B):
 
 
 	#here both A and B are mpmath matrices
-	#we consider that A and B are MPF matrices if their first elements are of type mpf, let's test it
+	#let's test if all their elements are of type mpf
 
-	if not isinstance(A[0,0], mpmath.mpf) or not isinstance(B[0,0], mpmath.mpf):
+	if not all(isinstance(x, mpmath.mpf) for x in A) or not all(isinstance(x, mpmath.mpf) for x in B):
 		raise ValueError('Cannot compute exact difference of two matrices: cannot sum complex matrices.')
 
 	#test sizes
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index f4f6695..cea26b6 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -26,8 +26,8 @@ def mpf_matrix_to_sollya(A):
 	if not isinstance(A,mpmath.matrix):
 		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s' % type(A))
 
-	if not isinstance(A[0,0], mpmath.mpf):
-		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s' % type(A[0,0]))
+	if not all(isinstance(x, mpmath.mpf) for x in A):
+		raise ValueError('Cannot convert matrix to sollya: expected a real matrix')
 
 	#First, we need to get the (long, long) representation of the matrix A
 	#We compute matrices Y and N such that A[i,j] = Y[i,j] * 2 ** N[i,j]
-- 
2.43.0


From 3d2f740d66a0ccc2621a993806d751f782e6587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 085/105] fix: a transfer function of order 0 is converted to a
 state-space without state

---
 fixif/LTI/dTF.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 53c4d3c..648a84e 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -164,20 +164,23 @@ class dTF(object):
 		# TODO: code it without scipy
 
 		from fixif.LTI import dSS
-		if form == 'ctrl':
+		if form not in ('ctrl', 'obs'):
+			raise ValueError('dTF.to_dSS: the form "%s" is invalid (must be "ctrl" or "obs")' % form)
+		if self.order == 0:
+			# a gain has no state
+			A, B, C, D = zeros((0, 0)), zeros((0, 1)), zeros((1, 0)), self.num
+		elif form == 'ctrl':
 			A = mat(diagflat(ones((1, self.order-1)), 1))
 			A[self.order-1, :] = fliplr(-self.den[0, 1:])
 			B = mat(r_[zeros((self.order-1, 1)), atleast_2d(1)])
 			C = mat(fliplr(self.num[0, 1:]) - fliplr(self.den[0, 1:])*self.num[0, 0])
 			D = mat(atleast_2d(self.num[0, 0]))
-		elif form == 'obs':
+		else:
 			# TODO: to it manually!!
 			# (tf2ss considers the first coefficients of the numerator as null when they are below 1e-14, so the numerator is scaled)
 			scale = 2.0**frexp(abs(self.num).max())[1]
 			A, B, C, D = tf2ss(array(self.num)[0, :]/scale, array(self.den)[0, :])
 			C, D = C*scale, D*scale
-		else:
-			raise ValueError('dTF.to_dSS: the form "%s" is invalid (must be "ctrl" or "obs")' % form)
 
 		return dSS(A, B, C, D)
 
-- 
2.43.0


From ef961ec5630e1227c109b33a6cb44e610019d8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 086/105] fix: a state-space without state is simplified and
 converted to a transfer function

---
 fixif/LTI/dSS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 0c56cf2..5276cb6 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -560,7 +560,7 @@ class dSS(object):
 			raise ValueError('dSS: the state-space must be SISO to be converted in transfer function')
 		from fixif.LTI import dTF
 		# (ss2tf computes the numerator as a difference with the denominator, so it is scaled for the small gains)
-		scale = 2.0**numpy.frexp(max(abs(self._B).max()*abs(self._C).max(), abs(self._D).max()))[1]
+		scale = 2.0**numpy.frexp(max(abs(array(self._B)).max(initial=0)*abs(array(self._C)).max(initial=0), abs(self._D).max()))[1]
 		num, den = ss2tf(self._A, self._B, self._C/scale, self._D/scale)
 		return dTF(num[0]*scale, den)
 
@@ -598,7 +598,7 @@ class dSS(object):
 
 		newS = self
 
-		while newS.n > numpy.linalg.matrix_rank(newS._A):
+		while newS.n > 0 and newS.n > numpy.linalg.matrix_rank(newS._A):
 			l = list()
 			for i in range(0, newS.n):
 				if numpy.count_nonzero(newS._A[i, :]) == 0 and numpy.count_nonzero(newS._B[i, :]) == 0:
@@ -626,7 +626,7 @@ class dSS(object):
 
 			newS = dSS(A, B, C, D)
 
-			print("number of states: %d \n rank: %d " % (newS.n, numpy.linalg.matrix_rank(newS._A)))
+			print("number of states: %d \n rank: %d " % (newS.n, numpy.linalg.matrix_rank(newS._A) if newS.n > 0 else 0))
 
 		return newS
 
-- 
2.43.0


From 91574fcc5bf6a7865783d9eb8f57676c00889516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 087/105] fix: an exact transfer function of order 0 is
 converted to a state-space without state

---
 fixif/LTI/dTFmp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 0781516..78f2d9a 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -142,7 +142,8 @@ class dTFmp(object):
 		for i in range(1, N - 1):
 			A[i, i - 1] = mpmath.mp.one
 		B = mpmath.mp.zeros(N - 1, 1)
-		B[0, 0] = mpmath.mp.one
+		if N > 1:
+			B[0, 0] = mpmath.mp.one
 
 		# We compute matrix C exactly
 		C = mpmath.mp.zeros(1, N - 1)
-- 
2.43.0


From 51376c7546e8ba3a1a6ccf209d97ea195f9f2ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 088/105] fix: the direct forms are not proposed for a simple
 gain

---
 fixif/Structures/DirectForms/DFI.py   | 4 ++--
 fixif/Structures/DirectForms/DFII.py  | 4 ++--
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixif/Structures/DirectForms/DFI.py b/fixif/Structures/DirectForms/DFI.py
index bd3e73d..3d44343 100644
--- a/fixif/Structures/DirectForms/DFI.py
+++ b/fixif/Structures/DirectForms/DFI.py
@@ -103,9 +103,9 @@ def makeDFI(filt, nbSum=1, transposed=True):
 
 def acceptDFI(filt, **_):   # other parameters are ignored
 	"""
-	return True only if the filter is SISO
+	return True only if the filter is SISO (and is not a simple gain)
 	"""
-	return filt.isSISO()
+	return filt.isSISO() and filt.order > 0
 
 
 # build the Direct Form I
diff --git a/fixif/Structures/DirectForms/DFII.py b/fixif/Structures/DirectForms/DFII.py
index 445e0d0..f213d5b 100644
--- a/fixif/Structures/DirectForms/DFII.py
+++ b/fixif/Structures/DirectForms/DFII.py
@@ -81,9 +81,9 @@ def makeDFII(filt, transposed=True):
 
 def acceptDFII(filt, **_):  # other parameters are ignored
 	"""
-	return True only if the filter is SISO
+	return True only if the filter is SISO (and is not a simple gain)
 	"""
-	return filt.isSISO()
+	return filt.isSISO() and filt.order > 0
 
 
 # build the Direct Form II
diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 63344df..76781f2 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -200,9 +200,9 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 
 def acceptrhoDFII(filt, **options):
 	"""
-	return True only if the filter is SISO
+	return True only if the filter is SISO (and is not a simple gain)
 	"""
-	return filt.isSISO() and filt.isStable()
+	return filt.isSISO() and filt.order > 0 and filt.isStable()
 
 
 rhoDFII = Structure(shortName="rhoDFII", fullName="rho Direct Form II", options={'transposed': (True, False), 'equiv_dSS': (False, True), 'scaling': (None, 'l2', 'l2-relaxed')}, make=makerhoDFII, accept=acceptrhoDFII)
-- 
2.43.0


From b3fccb644baaf2e04b9fc9ec428cfd2476470e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 089/105] fix: the H2-norm of a system without state

---
 fixif/LTI/dSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 5276cb6..4b86111 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -331,7 +331,7 @@ class dSS(object):
 			M = self._C * self.Wc * self._C.transpose() + self._D * self._D.transpose()
 			self._H2norm = sqrt(M.trace())[0,0]
 			# (the trace of a null system may be slightly negative, due to the rounding errors)
-			error = 1e-12 * abs(self.Wc).max() * (self._C * self._C.transpose()).trace()[0,0]
+			error = 1e-12 * abs(array(self.Wc)).max(initial=0) * (self._C * self._C.transpose()).trace()[0,0]
 			if -error <= M.trace()[0,0] < 0:
 				self._H2norm = 0.0
 		except ValueError:  # TODO: check what kind of exception we need to catch here
-- 
2.43.0


From aedb31ce3d83ae6f6dce40c6607eebebd4038c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 090/105] fix: the H2-norm computed from the observability
 Gramian uses D'*D

---
 fixif/LTI/dSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 4b86111..a7a7a46 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -336,7 +336,7 @@ class dSS(object):
 				self._H2norm = 0.0
 		except ValueError:  # TODO: check what kind of exception we need to catch here
 			try:
-				M = self._B.transpose() * self.Wo * self._B + self._D * self._D.transpose()
+				M = self._B.transpose() * self.Wo * self._B + self._D.transpose() * self._D
 				self._H2norm = sqrt(M.trace())[0,0]
 			except ValueError:
 				raise ValueError("dSS: h2-norm : Impossible to compute M. Default value is 'inf'")
-- 
2.43.0


From 77a92420234e20fc56b10ff45cba4b3b9f6ecdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 091/105] fix: the AMPL data of a realization with a single
 variable (E is a 2d parameter)

---
 fixif/SIF/Realization_FxP.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index a869986..6f8a4c9 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -19,12 +19,13 @@ from string import Template
 from fixif.config import SIF_TEMPLATES_PATH
 
 # functions to define some parameters in a AMPL .dat file
-def generateAMPLParam(name, val, format="%.17g"):
+def generateAMPLParam(name, val, format="%.17g", array2d=False):
 	"""generate AMPL code for the data of a given parameter
 	Parameters:
 		- name: name of the parameter
 		- val: value of this parameter (int or a numpy matrix)
 		- format: the C string format used to display the parameter ("%d" for an integer, etc.)
+		- array2d: (boolean) True for a 2d parameter, even with a single column
 	Returns: a string to be inserted in a .dat file
 	"""
 	if isinstance(val, int):
@@ -33,7 +34,7 @@ def generateAMPLParam(name, val, format="%.17g"):
 		"""convert one value to AMPL"""
 		return "Infinity" if x == inf else format % x
 
-	if val.shape[1] == 1:
+	if val.shape[1] == 1 and not array2d:
 		# 1d vector
 		return "param %s := \n%s;" % (name, "\n".join("%d %s" % (i[0]+1, toStr(wm)) for i, wm in ndenumerate(val)))
 	else:
@@ -170,7 +171,7 @@ class R_FxP:
 			'def_p': generateAMPLParam('p', self.p),
 			'def_np': generateAMPLParam('np', self.p + self.n + self.l),
 			'def_u': generateAMPLParam('u', wmax, "%d"),
-			'def_E': generateAMPLParam('E', E),
+			'def_E': generateAMPLParam('E', E, array2d=True),
 			'def_eps': generateAMPLParam('eps', eps),
 			'def_wtilde': generateAMPLParam('wtilde', w_tilde, "%d")}
 
-- 
2.43.0


From afa4777f5a34b0fc58759936c2f413e2d8e313d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 092/105] fix: the name of a filter does not end the comment of
 the generated C code

---
 fixif/SIF/Realization_implementation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index 60c1df4..bc6f520 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -72,6 +72,7 @@ class R_implementation:
 			cDict['SIFname'] = self.name + '\n' + str(self._filter.dTF)
 		else:
 			cDict['SIFname'] = self.name + '\n' + str(self._filter.dSS)
+		cDict['SIFname'] = cDict['SIFname'].replace('*/', '* /')		# (it is written in a comment, that a name should not end)
 		cDict['date'] = datetime.now().strftime("%Y/%m/%d - %H:%M:%S")
 
 		l, n, p, q = self.size
-- 
2.43.0


From 823c5f63fb5a12f2d8b97ea47d8df9952fa3b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 093/105] fix: a name over several lines stays in the comment
 of the LaTeX algorithm

---
 fixif/SIF/Realization_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index 05ec67c..65aa3d6 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -70,7 +70,7 @@ class R_algorithm:
 		if withTime is False and self.isPnut():
 			init.append(declare(self._varNameX, 'KwData', suffix='p'))
 
-		return tpl.render(computations="\n".join(algoStr), caption=caption, initialization="\n".join(init), date=str(datetime.now()), SIF=self.name, label=label)
+		return tpl.render(computations="\n".join(algoStr), caption=caption, initialization="\n".join(init), date=str(datetime.now()), SIF=' '.join(self.name.splitlines()), label=label)
 
 
 
-- 
2.43.0


From 51e6a1ad98a4e2e7bc2b17093eb343b650bddace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 094/105] fix: the parameters that an imported diagram does not
 write have the default values of its file (a delay may be longer than a
 sample)

---
 fixif/Structures/Simulink/diagram.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 1379cb3..812da47 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -13,6 +13,7 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 import sys
+from copy import deepcopy
 from lxml import etree
 from fixif.Structures.Simulink.blocks import *
 
@@ -31,6 +32,7 @@ class System(object):
 
 		self.tree = etree.fromstring(xmlStr) # load xml from file
 		self.syspath = "/ModelInformation/Model/System"
+		self.completeparams()
 
 		# For the given system model, build blocks and lines list
 		self.blocks, self.lines = self.parsesys(self.tree, self.syspath)
@@ -40,6 +42,16 @@ class System(object):
 
 
 
+	def completeparams(self):
+		"""Add to each block the parameters that are not written, because they have the default value given in the file"""
+		for default in self.tree.xpath("/ModelInformation/Model/BlockParameterDefaults/Block"):
+			for mysys in self.tree.xpath(self.syspath):
+				for b in mysys.iter("Block"):
+					if b.get("BlockType") == default.get("BlockType"):
+						names = [p.get("Name") for p in b.findall("P")]
+						b.extend([deepcopy(p) for p in default.findall("P") if p.get("Name") not in names])
+
+
 	def parsesys(self, etree, syspath):		
 		"""Give blocks  and lines objects lists	from Block and Line elements in XML
 			args : etree of the xml file / path of the <System> tag in the xml
-- 
2.43.0


From d5a9f327998c7c18e409ca572882cfc8755d944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 095/105] fix: a sum fed by itself without delay (algebraic
 loop) is not imported as if it was not fed by itself

---
 fixif/Structures/Simulink/sif.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 2794294..587b070 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -79,7 +79,9 @@ class Sif(object):
 		
 			elif eq.out in t: # intermediate eq
 				for block,coeff in eq.termes.items() : # scan current equation inputs
-					if block in t:
+					if block == eq.out:
+						raise ValueError("importSimulink: there is an algebraic loop")
+					elif block in t:
 						self.J[t.index(eq.out)] [t.index(block)] = str(0-coeff)
 					elif block in x:
 						self.M[t.index(eq.out)] [x.index(block)] = coeff
-- 
2.43.0


From d37260d3794bb3ec0b6a400e9c35cb3ef5118435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 096/105] fix: the coefficient matrices set in a SIF have the
 size of the current ones (ValueError, instead of a broadcast or of a
 corrupted SIF)

---
 fixif/SIF/SIF.py | 57 +++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index b2f0d0d..fe8cc64 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -257,6 +257,17 @@ class SIF(SIF_sensibility):
 		self._Hzeta = None
 
 
+	@staticmethod
+	def _check_size(mymat, current, name):
+		"""
+		Returns mymat as a matrix, if it has the size of the current one (the dimensions of a SIF cannot be changed)
+		"""
+		X = mat(mymat)
+		if X.shape != current.shape:
+			raise ValueError("SIF: %s should be a %dx%d matrix, instead of a %dx%d one" % ((name,) + current.shape + X.shape))
+		return X
+
+
 	# Only matrix Z is kept in memory
 	# JtoS extracted from Z matrix, dJtodS from dZ resp.
 	@property
@@ -318,14 +329,15 @@ class SIF(SIF_sensibility):
 	# Z, dZ setters
 	@Z.setter
 	def Z(self, mymat):
-		self._Z = mat(mymat, dtype=float)		# (copy)
-		self._invJ = inv(self.J)
+		Z = mat(self._check_size(mymat, self._Z, "Z"), dtype=float)		# (copy)
+		self._invJ = inv(-Z[0: self._l, 0: self._l])
+		self._Z = Z
 		self._build_fromZ()
 		self._update_dZ()
 
 	@dZ.setter
 	def dZ(self, mymat):
-		self._dZ = mat(mymat)		# (copy)
+		self._dZ = self._check_size(mymat, self._dZ, "dZ")		# (copy)
 		self._dZgiven = True
 
 
@@ -418,56 +430,57 @@ class SIF(SIF_sensibility):
 	# TODO: is it really useful ?
 	@J.setter
 	def J(self, mymat):
-		self._Z[0: self._l, 0: self._l] = - mymat
-		self._invJ = inv(mymat)
+		J = self._check_size(mymat, self.J, "J")
+		self._invJ = inv(J)
+		self._Z[0: self._l, 0: self._l] = -J
 		self._build_fromZ()
 		self._update_dZ()
 
 	@K.setter
 	def K(self, mymat):
-		self._Z[self._l: self._l + self._n, 0: self._l] = mymat
+		self._Z[self._l: self._l + self._n, 0: self._l] = self._check_size(mymat, self.K, "K")
 		self._build_fromZ()
 		self._update_dZ()
 
 	@L.setter
 	def L(self, mymat):
-		self._Z[self._l + self._n: self._l + self._n + self._p, 0:self._l] = mymat
+		self._Z[self._l + self._n: self._l + self._n + self._p, 0:self._l] = self._check_size(mymat, self.L, "L")
 		self._build_fromZ()
 		self._update_dZ()
 
 	@M.setter
 	def M(self, mymat):
-		self._Z[0: self._l, self._l: self._l + self._n] = mymat
+		self._Z[0: self._l, self._l: self._l + self._n] = self._check_size(mymat, self.M, "M")
 		self._build_fromZ()
 		self._update_dZ()
 
 	@N.setter
 	def N(self, mymat):
-		self._Z[0: self._l, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._Z[0: self._l, self._l + self._n: self._l + self._n + self._q] = self._check_size(mymat, self.N, "N")
 		self._build_fromZ()
 		self._update_dZ()
 
 	@P.setter
 	def P(self, mymat):
-		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
+		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = self._check_size(mymat, self.P, "P")
 		self._build_fromZ()
 		self._update_dZ()
 
 	@Q.setter
 	def Q(self, mymat):
-		self._Z[self._l: self._l + self._n, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._Z[self._l: self._l + self._n, self._l + self._n: self._l + self._n + self._q] = self._check_size(mymat, self.Q, "Q")
 		self._build_fromZ()
 		self._update_dZ()
 
 	@R.setter
 	def R(self, mymat):
-		self._Z[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] = mymat
+		self._Z[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] = self._check_size(mymat, self.R, "R")
 		self._build_fromZ()
 		self._update_dZ()
 
 	@S.setter
 	def S(self, mymat):
-		self._Z[self._l + self._n: self._l + self._n + self._p, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._Z[self._l + self._n: self._l + self._n + self._p, self._l + self._n: self._l + self._n + self._q] = self._check_size(mymat, self.S, "S")
 		self._build_fromZ()
 		self._update_dZ()
 
@@ -476,47 +489,47 @@ class SIF(SIF_sensibility):
 	# we only modify dZ matrix so no need to rebuild anything
 	@dJ.setter
 	def dJ(self, mymat):
-		self._dZ[0: self._l, 0: self._l] = mymat
+		self._dZ[0: self._l, 0: self._l] = self._check_size(mymat, self.dJ, "dJ")
 		self._dZgiven = True
 
 	@dK.setter
 	def dK(self, mymat):
-		self._dZ[self._l: self._l + self._n, 0: self._l] = mymat
+		self._dZ[self._l: self._l + self._n, 0: self._l] = self._check_size(mymat, self.dK, "dK")
 		self._dZgiven = True
 
 	@dL.setter
 	def dL(self, mymat):
-		self._dZ[self._l + self._n: self._l + self._n + self._p, 0:self._l] = mymat
+		self._dZ[self._l + self._n: self._l + self._n + self._p, 0:self._l] = self._check_size(mymat, self.dL, "dL")
 		self._dZgiven = True
 
 	@dM.setter
 	def dM(self, mymat):
-		self._dZ[0: self._l, self._l: self._l + self._n] = mymat
+		self._dZ[0: self._l, self._l: self._l + self._n] = self._check_size(mymat, self.dM, "dM")
 		self._dZgiven = True
 
 	@dN.setter
 	def dN(self, mymat):
-		self._dZ[0: self._l, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._dZ[0: self._l, self._l + self._n: self._l + self._n + self._q] = self._check_size(mymat, self.dN, "dN")
 		self._dZgiven = True
 
 	@dP.setter
 	def dP(self, mymat):
-		self._dZ[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
+		self._dZ[self._l: self._l + self._n, self._l: self._l + self._n] = self._check_size(mymat, self.dP, "dP")
 		self._dZgiven = True
 
 	@dQ.setter
 	def dQ(self, mymat):
-		self._dZ[self._l: self._l + self._n, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._dZ[self._l: self._l + self._n, self._l + self._n: self._l + self._n + self._q] = self._check_size(mymat, self.dQ, "dQ")
 		self._dZgiven = True
 
 	@dR.setter
 	def dR(self, mymat):
-		self._dZ[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] = mymat
+		self._dZ[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] = self._check_size(mymat, self.dR, "dR")
 		self._dZgiven = True
 
 	@dS.setter
 	def dS(self, mymat):
-		self._dZ[self._l + self._n: self._l + self._n + self._p, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._dZ[self._l + self._n: self._l + self._n + self._p, self._l + self._n: self._l + self._n + self._q] = self._check_size(mymat, self.dS, "dS")
 		self._dZgiven = True
 
 
-- 
2.43.0


From d46761a7532e323c3de1ee0503baba1e6f8a6795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 097/105] fix: state-space systems given by integer or boolean
 matrices are not computed with integer or boolean operations

---
 fixif/LTI/dSS.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index a7a7a46..1f67e7c 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -87,10 +87,8 @@ class dSS(object):
 			add special section to document event_spec and examples
 		"""
 
-		self._A = mat(A)  # User input
-		self._B = mat(B)
-		self._C = mat(C)
-		self._D = mat(D)
+		# User input (integers and booleans are converted, because their operations overflow or are not those of the numbers)
+		self._A, self._B, self._C, self._D = [X.astype(float) if X.dtype.kind in 'biu' else X for X in map(mat, (A, B, C, D))]
 
 		# Initialize state space dimensions from user input
 		(self._n, self._p, self._q) = self._check_dimensions()  # Verify coherence, set dimensions
-- 
2.43.0


From 03495517a43a7d342639f0f343d276cb7b4a7ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 098/105] fix: J given with unsigned or boolean entries is
 negated as a real matrix

---
 fixif/SIF/SIF.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index fe8cc64..75903f2 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -142,7 +142,7 @@ class SIF(SIF_sensibility):
 		self._l, self._n, self._p, self._q = _check_dimensions(JtoS)
 		self._Z = None
 		self._build_Z(JtoS)
-		self._invJ = inv(JtoS[0])		# TODO: do it properly (no need to call inv() )
+		self._invJ = inv(self.J)		# TODO: do it properly (no need to call inv() )
 		self._build_fromZ()			# (_Hu, _Hepsilon and _Hzeta are computed only the 1st time they are required)
 
 		# build _dZ, the associated state space _dSS (contains AZ, BZ, CZ, DZ, gramians, etc.), _M1 _M2 _N1 _N2 and the *_bar matrices
@@ -155,8 +155,8 @@ class SIF(SIF_sensibility):
 		"""
 		build Z or dZ depending on provided matrix tuple
 		"""
-		J, K, L, M, N, P, Q, R, S = [np.matrix(X) for X in JtoS]
-		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]]).astype(float)
+		J, K, L, M, N, P, Q, R, S = [np.matrix(X, dtype=float) for X in JtoS]
+		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]])
 
 
 
@@ -430,7 +430,7 @@ class SIF(SIF_sensibility):
 	# TODO: is it really useful ?
 	@J.setter
 	def J(self, mymat):
-		J = self._check_size(mymat, self.J, "J")
+		J = self._check_size(mymat, self.J, "J").astype(float)
 		self._invJ = inv(J)
 		self._Z[0: self._l, 0: self._l] = -J
 		self._build_fromZ()
-- 
2.43.0


From 37652bb2cb2894086a72cb030248f9043c007452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 099/105] fix: the zone of a stop band is drawn under its gain,
 down to the minimum of the plot

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 7d1a7a6..61de7ef 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -156,7 +156,7 @@ class Band(object):
 			if self.isPassBand:
 				return Rectangle((self.F1, self.passGains[0]), (self.F2 - self.F1), self.passGains[1] - self.passGains[0], facecolor="red", alpha=0.3)
 			else:
-				return Rectangle((self.F1, self.stopGain), self.F2 - self.F1, minG, facecolor="red", alpha=0.3)
+				return Rectangle((self.F1, self.stopGain), self.F2 - self.F1, min(minG, self.stopGain) - self.stopGain, facecolor="red", alpha=0.3)
 		else:
 			if self.isPassBand:
 				return Rectangle((self.F1, 10**(self.passGains[0]/20.0)), (self.F2 - self.F1), 10**(self.passGains[1]/20.0) - 10**(self.passGains[0]/20.0), facecolor="red", alpha=0.3)
-- 
2.43.0


From bc7b71d1abe47f4fd87e91c485d343419f4e0e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 100/105] fix: the inverse of J is computed by forward
 substitution, exact to rounding for all magnitudes

---
 fixif/SIF/SIF.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 75903f2..64dddef 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -22,6 +22,7 @@ import numpy as np
 
 from numpy import c_, r_, eye, zeros, matrix as mat, tril, all, count_nonzero
 from numpy.linalg import inv
+from scipy.linalg import solve_triangular
 from math import log
 from copy import copy
 from fixif.func_aux import mpf_matrix_lt_inverse, mpf_matrix_fadd, mpf_matrix_fmul
@@ -142,7 +143,7 @@ class SIF(SIF_sensibility):
 		self._l, self._n, self._p, self._q = _check_dimensions(JtoS)
 		self._Z = None
 		self._build_Z(JtoS)
-		self._invJ = inv(self.J)		# TODO: do it properly (no need to call inv() )
+		self._invJ = self._inverse(self.J)
 		self._build_fromZ()			# (_Hu, _Hepsilon and _Hzeta are computed only the 1st time they are required)
 
 		# build _dZ, the associated state space _dSS (contains AZ, BZ, CZ, DZ, gramians, etc.), _M1 _M2 _N1 _N2 and the *_bar matrices
@@ -257,6 +258,17 @@ class SIF(SIF_sensibility):
 		self._Hzeta = None
 
 
+	@staticmethod
+	def _inverse(J):
+		"""
+		Returns the inverse of J: J is lower triangular, so it is computed by forward substitution
+		(the pivoting of a generic inversion mixes its rows, and is wrong when they have different magnitudes)
+		"""
+		if J.size and all(tril(J) == J):
+			return mat(solve_triangular(J, eye(J.shape[0]), lower=True, check_finite=False))
+		return inv(J)
+
+
 	@staticmethod
 	def _check_size(mymat, current, name):
 		"""
@@ -330,7 +342,7 @@ class SIF(SIF_sensibility):
 	@Z.setter
 	def Z(self, mymat):
 		Z = mat(self._check_size(mymat, self._Z, "Z"), dtype=float)		# (copy)
-		self._invJ = inv(-Z[0: self._l, 0: self._l])
+		self._invJ = self._inverse(-Z[0: self._l, 0: self._l])
 		self._Z = Z
 		self._build_fromZ()
 		self._update_dZ()
@@ -431,7 +443,7 @@ class SIF(SIF_sensibility):
 	@J.setter
 	def J(self, mymat):
 		J = self._check_size(mymat, self.J, "J").astype(float)
-		self._invJ = inv(J)
+		self._invJ = self._inverse(J)
 		self._Z[0: self._l, 0: self._l] = -J
 		self._build_fromZ()
 		self._update_dZ()
-- 
2.43.0


From efca4943312d591a1ebc95a394a67be27e222dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 101/105] fix: a name over spliced lines does not end the
 comment of the generated C code

---
 fixif/SIF/Realization_implementation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index bc6f520..47e8117 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -17,6 +17,7 @@ from datetime import datetime
 from subprocess import Popen, PIPE
 from ctypes import CDLL, POINTER, c_double
 import numpy
+from re import sub
 
 
 #TODO: put theses path into a global Option object (that can be modified elsewhere)
@@ -72,7 +73,7 @@ class R_implementation:
 			cDict['SIFname'] = self.name + '\n' + str(self._filter.dTF)
 		else:
 			cDict['SIFname'] = self.name + '\n' + str(self._filter.dSS)
-		cDict['SIFname'] = cDict['SIFname'].replace('*/', '* /')		# (it is written in a comment, that a name should not end)
+		cDict['SIFname'] = sub(r'\*(?=((\\|\?\?/)\s*)*/)', '* ', cDict['SIFname'])		# (it is written in a comment, that a name should not end, even over spliced lines)
 		cDict['date'] = datetime.now().strftime("%Y/%m/%d - %H:%M:%S")
 
 		l, n, p, q = self.size
-- 
2.43.0


From a26f9c6f712c599379dd4041fa8b8b78376584c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 102/105] fix: python2mpf_matrix: accept single and half
 precision, and boolean, matrices

---
 fixif/func_aux/python2mpf_matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixif/func_aux/python2mpf_matrix.py b/fixif/func_aux/python2mpf_matrix.py
index 129be71..73bc81d 100644
--- a/fixif/func_aux/python2mpf_matrix.py
+++ b/fixif/func_aux/python2mpf_matrix.py
@@ -7,6 +7,10 @@ def python2mpf_matrix(M):
 		raise ValueError('Expected a numpy matrix, instead have %s' %type(M))
 
 
+	# mpmath does not know the half and single precision, nor numpy's booleans
+	if M.dtype in ('e', 'f', '?'):
+		M = M.astype(float)
+
 	n, m = M.shape
 	Mmp = mp.zeros(n, m)
 	for i in range(0, n):
-- 
2.43.0


From 3f7bfc632982be1f5cc13bbccffea77b884153a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 103/105] fix: dSS: compute in double precision with
 single-precision matrices

---
 fixif/LTI/dSS.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 1f67e7c..dd5c7b0 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -87,8 +87,8 @@ class dSS(object):
 			add special section to document event_spec and examples
 		"""
 
-		# User input (integers and booleans are converted, because their operations overflow or are not those of the numbers)
-		self._A, self._B, self._C, self._D = [X.astype(float) if X.dtype.kind in 'biu' else X for X in map(mat, (A, B, C, D))]
+		# User input (integers, booleans and half or single precision are converted, because their operations overflow, are rounded or are not those of the numbers)
+		self._A, self._B, self._C, self._D = [X.astype(float) if X.dtype.kind in 'biu' or X.dtype in ('e', 'f') else X for X in map(mat, (A, B, C, D))]
 
 		# Initialize state space dimensions from user input
 		(self._n, self._p, self._q) = self._check_dimensions()  # Verify coherence, set dimensions
@@ -431,6 +431,9 @@ class dSS(object):
 		"""
 		#TODO: check T size
 		#TODO: check computational errors !
+		T = mat(T)
+		if T.dtype in ('e', 'f'):
+			T = T.astype(float)
 		Tinv = inv(T)
 		self._A = Tinv * self._A * T
 		self._B = Tinv * self._B
-- 
2.43.0


From 10b1c97353058fd349ac068541f85cb325fbd666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:09 +0000
Subject: [PATCH 104/105] fix: write_matrix_hex: write any real matrix
 (integers, single precision)

---
 fixif/func_aux/write_matrix_hex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/func_aux/write_matrix_hex.py b/fixif/func_aux/write_matrix_hex.py
index efa9316..16c0fa0 100644
--- a/fixif/func_aux/write_matrix_hex.py
+++ b/fixif/func_aux/write_matrix_hex.py
@@ -4,7 +4,7 @@ def write_matrix_hex(f_handle, M, delim):
 	n,m = M.shape
 	for i in range (0,n):
 		for j in range (0,m):
-			f_handle.write(M[i,j].hex() + delim)
+			f_handle.write(float(M[i,j]).hex() + delim)
 		f_handle.write('\n')
 
 
-- 
2.43.0


From eb2d5b178efef0ef1f5cae6d2096d9de1c9c0ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:09 +0000
Subject: [PATCH 105/105] fix: SoP: hexadecimal of integer and single-precision
 constants

---
 fixif/SoP/SoP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index 40ccdae..70b1701 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -69,7 +69,7 @@ class SoP:
 			elif co == -1:
 				dp.append('-' + var)
 			elif co:
-				dp.append((coefFormat % (co,) if coefFormat else co.hex()) + '*' + var)
+				dp.append((coefFormat % (co,) if coefFormat else float(co).hex()) + '*' + var)
 
 		S = " + ".join(dp)
 		if S == "":
-- 
2.43.0

