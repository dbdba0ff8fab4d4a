From 0ae4ef90f923b77b127e7f513287be03015c0671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:53 +0000
Subject: [PATCH 01/72] fix: SIF setters leave dZ, M1..N2, Hu, Hepsilon and
 Hzeta stale

Only P rebuilt dZ (and only P did not rebuild M1, M2, N1 and N2), and the
lazily computed Hu, Hepsilon and Hzeta were never invalidated.
---
 fixif/SIF/SIF.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 9217322..966574b 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -246,6 +246,11 @@ class SIF(SIF_sensibility):
 	def _build_fromZ(self):
 		self._build_AZtoDZ()
 		self._build_M1M2N1N2()
+		# dZ and the extra state-space (computed only when they are required) also depend on Z
+		self._build_dZ(None)
+		self._Hu = None
+		self._Hepsilon = None
+		self._Hzeta = None
 
 
 	# Only matrix Z is kept in memory
@@ -434,8 +439,7 @@ class SIF(SIF_sensibility):
 	@P.setter
 	def P(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
-		self._build_dZ(None)  # TODO: all these setters should call _build_dZ(None) !!
-		self._build_AZtoDZ()
+		self._build_fromZ()
 
 	@Q.setter
 	def Q(self, mymat):
-- 
2.43.0


From 3ee93cb35307e505ee9b024655ac6542a3b0b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:53 +0000
Subject: [PATCH 02/72] fix: SIF.Z keeps the type and the memory of the
 matrices it is given

Assigning an array to Z (instead of a matrix) turned the matrix products into
element-wise products, the caller's matrix was shared (and modified by the next
block assignment), and an integer Z truncated the coefficients assigned later.
---
 fixif/SIF/SIF.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 966574b..dd41ecc 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -159,7 +159,7 @@ class SIF(SIF_sensibility):
 		build Z or dZ depending on provided matrix tuple
 		"""
 		J, K, L, M, N, P, Q, R, S = [np.matrix(X) for X in JtoS]
-		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]])
+		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]]).astype(float)
 
 
 
@@ -314,6 +314,9 @@ class SIF(SIF_sensibility):
 	# Z, dZ setters
 	@Z.setter
 	def Z(self, mymat):
+		mymat = np.matrix(mymat, dtype=float)
+		if mymat.shape != self._Z.shape:
+			raise ValueError("Z should be a %dx%d matrix" % self._Z.shape)
 		self._Z = mymat
 		self._invJ = inv(self.J)
 		self._build_fromZ()
-- 
2.43.0


From 909cab583dd650f9d55b43e71b9ffd9ec183082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:53 +0000
Subject: [PATCH 03/72] fix: dJ is returned with the opposite sign of the dJ
 that was given

and dZ shared the memory of the caller's matrix.
---
 fixif/SIF/SIF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index dd41ecc..ad07717 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -323,7 +323,7 @@ class SIF(SIF_sensibility):
 
 	@dZ.setter
 	def dZ(self, mymat):
-		self._dZ = mymat
+		self._dZ = np.matrix(mymat)
 
 
 	#  JtoS getters
@@ -375,7 +375,7 @@ class SIF(SIF_sensibility):
 
 	@property
 	def dJ(self):
-		return -self._dZ[0: self._l, 0: self._l]
+		return self._dZ[0: self._l, 0: self._l]
 
 	@property
 	def dK(self):
-- 
2.43.0


From 5f9d86d2c47a4f0b325eac718cb0d4f26741a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 04/72] fix: Realization.quantize uses np.float, which numpy no
 longer has

---
 fixif/SIF/Realization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index cfcad67..7c28eea 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -154,7 +154,7 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 
 		# copy the realization and quantized the matrix Z
 		R = copy(self)
-		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[np.float])
+		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])
 		R.Z = quantizeMat(R.Z)
 		return R
 
-- 
2.43.0


From dcff3427983878f10c234a162e0c27e229910b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 05/72] fix: dTF: numerator and denominator of different
 lengths give a wrong order

---
 fixif/LTI/dTF.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 43da056..e1b794d 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -18,7 +18,7 @@ __status__ = "Beta"
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
 from numpy import matrix as mat, polymul, polyadd
-from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
+from numpy import diagflat, zeros, ones, r_, c_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
 
@@ -45,11 +45,11 @@ class dTF(object):
 			self._num = num/den[0, 0]
 			self._den = den/den[0, 0]
 
-		# filter order
-		# if den.shape!=num.shape:
-		# 	raise ValueError( 'Numerator and denomintator must have same length !')
-
-		self._order = num.shape[1]-1
+		# filter order (the shortest of the numerator and the denominator is completed with zeros)
+		size = max(num.shape[1], den.shape[1])
+		self._num = c_[self._num, zeros((1, size - num.shape[1]))]
+		self._den = c_[self._den, zeros((1, size - den.shape[1]))]
+		self._order = size-1
 
 		# cached sollya numerator and denominator
 		self._sollya = None
-- 
2.43.0


From bae571d736626e1d1a60bf8c5bffdf9158de6296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 06/72] fix: rhoDFII ignores gamma when all the Deltas are 1,
 and fails on filters with an unreachable state

---
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 705fbff..39fe30b 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -94,19 +94,20 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 			Delta = ones((1, n))
 
 		else:
-			Wc = dSS(Abar, Bbar, Cbar, Dbar).Wc
+			# variances of the states (a state that is never reached is not scaled)
+			Wc = [w if w > 0 else 1. for w in dSS(Abar, Bbar, Cbar, Dbar).Wc.diagonal().A1]
 			Delta = zeros((1, n))
 			if scaling == 'l2':
 				# compute the Deltas that perform a l2-scaling (see Li04b)
-				Delta[0, 0] = sqrt(Wc[0, 0])
+				Delta[0, 0] = sqrt(Wc[0])
 				for i in range(1, n):
-					Delta[0, i] = sqrt(Wc[i, i] / Wc[i - 1, i - 1])
+					Delta[0, i] = sqrt(Wc[i] / Wc[i - 1])
 
 			elif scaling == 'l2-relaxed':
 				# compute the Deltas that perform a l2-scaling (see Hila09b)
-				Delta[0, 0] = floor2(sqrt(Wc[0, 0]))
+				Delta[0, 0] = floor2(sqrt(Wc[0]))
 				for i in range(1, n):
-					Delta[0, i] = floor2(sqrt(Wc[i, i] / Wc[i - 1, i - 1]))
+					Delta[0, i] = floor2(sqrt(Wc[i] / Wc[i - 1]))
 
 			else:
 				raise ValueError("rhoDFII: the `scaling` parameter should be None, 'l2' or 'l2-relaxed'")
@@ -163,7 +164,7 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 			L = mat(1)
 			M = c_[atleast_2d(1), zeros((1, n - 1))]
 			N = mat(Vbeta[0, 0])
-			P = mat(diagflat(Delta)) + mat(diagflat(ones((1, n - 1)), 1))
+			P = mat(diagflat(gamma)) + mat(diagflat(ones((1, n - 1)), 1))
 			Q = Vbeta[1:n + 1, 0]
 			R = zeros((1, n))
 			S = mat(0)
-- 
2.43.0


From 0d998f090c1f70da675ccdcb1fd5e1792dd3a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 07/72] fix: LGS and LCW structures are wrong for order 2 and
 fail for order 1

---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 60f6a12..e8db4a2 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -52,8 +52,9 @@ def PhiKLD_in(alpha, Phi, K, L, D):
 	for i in range(1, n - 1):
 		Phi_in[i][i + 1] = alpha[i]
 		Phi_in[i][i - 1] = -alpha[i - 1]
-	Phi_in[0][1] = alpha[0]
-	Phi_in[n - 1][n - 2] = -alpha[n - 2]
+	if n > 1:
+		Phi_in[0][1] = alpha[0]
+		Phi_in[n - 1][n - 2] = -alpha[n - 2]
 	Phi_in[n - 1][n - 1] = -alpha[n - 1]
 	Phi_in = np.matrix(Phi_in)
 
@@ -110,7 +111,7 @@ def A_decomposition_LGS(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
@@ -118,6 +119,8 @@ def A_decomposition_LGS(alpha, Phi_in):
 	beta.append(-alpha[n - 1] / (1 + alpha[n - 1] - alpha[n - 2] * beta[n - 2]))
 	gamma.append(1 / (1 + alpha[n - 1] - alpha[n - 2] * beta[n - 2]))
 	# Puis on ajoute dans la liste de la décomposition les matrices U selon la formule.
+	if n == 1:
+		Ad.append(U(0, 0, 1 / (1 + alpha[0]), n))
 	for i in range(0, n - 1):
 		Ad.append(U(i + 1, i, -alpha[i], n))
 		Ad.append(U(i + 1, i + 1, gamma[i], n))
@@ -135,7 +138,7 @@ def A_decomposition_LCW(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
@@ -143,6 +146,8 @@ def A_decomposition_LCW(alpha, Phi_in):
 	beta.append(-alpha[n - 1] / (1 + alpha[n - 1] - alpha[n - 2] * beta[n - 2]))
 	gamma.append(1 / (1 + alpha[n - 1] - alpha[n - 2] * beta[n - 2]))
 	# Puis on ajoute dans la liste de la décomposition les matrices U selon la formule.
+	if n == 1:
+		Ad.append(U(0, 0, 1 / (1 + alpha[0]), n))
 	for i in range(0, n - 1):
 		Ad.append(U(i + 1, i, alpha[i], n))
 		Ad.append(U(i + 1, i + 1, gamma[i], n))
@@ -163,7 +168,7 @@ def Matrice_JtoS_LGS(Ad, A_in, B_in, C_in, d):
 	# la boucle suivante construit les colones N x n de la matrice J et les concatène.
 	for i in range(1, nn + 1):
 		if i == 1:
-			C = np.r_[I, -Ad[i]]
+			C = np.r_[I, -Ad[i]] if nn > 1 else I
 			while len(C) < n * nn:
 				C = np.r_[C, Ze]
 			J = C
@@ -207,7 +212,7 @@ def Matrice_JtoS_LCW(Ad, As, Bs, Cs, d):
 	# la boucle suivante construit les colones N x n de la matrice J et les concatène.
 	for i in range(1, nn + 1):
 		if i == 1:
-			C = np.r_[I, -Ad[i]]
+			C = np.r_[I, -Ad[i]] if nn > 1 else I
 			while len(C) < n * nn:
 				C = np.r_[C, Ze]
 			J = C
@@ -222,8 +227,8 @@ def Matrice_JtoS_LCW(Ad, As, Bs, Cs, d):
 				C = np.r_[C, Ze]
 			J = np.c_[J, C]
 	J = np.matrix(J)
-	K = Ze
-	for i in range(0, nn - 2):
+	K = np.zeros([n, 0])
+	for i in range(0, nn - 1):
 		K = np.c_[K, Ze]
 	K = np.c_[K, I]
 	L = np.matrix(np.zeros([1, n * nn]))
-- 
2.43.0


From 554d472fa3613a70d5f82040cee276c29c57070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:47 +0000
Subject: [PATCH 08/72] fix: the compiled C code is kept when the coefficients
 are changed

---
 fixif/SIF/Realization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index 7c28eea..a592d67 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -91,6 +91,12 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 		self._Cdouble = None
 
 
+	def _build_fromZ(self):
+		super(Realization, self)._build_fromZ()
+		# the compiled code is the one of the previous coefficients
+		self._Cdouble = None
+
+
 	@property
 	def MSB(self):
 		"""Returns the MSB"""
-- 
2.43.0


From 2ea68f158e642732f9194741dffd63a6a1b7f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:47 +0000
Subject: [PATCH 09/72] fix: runCdouble runs the wrong code, and fails with one
 state or several inputs or outputs

The library was always runC.so (a library already loaded is not loaded again), a compilation error was
ignored, the result type was not declared, and xk was used as a scalar when there is only one state.
---
 fixif/SIF/Realization_implementation.py | 59 ++++++++++++++++---------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index cbc232d..eb6fc05 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -12,9 +12,10 @@ __status__ = "Beta"
 
 
 from jinja2 import Environment, FileSystemLoader
-from numpy import tril, all, zeros, matrix as mat
+from numpy import tril, all, zeros, array, matrix as mat
 from datetime import datetime
 from subprocess import Popen, PIPE
+from tempfile import TemporaryDirectory
 from ctypes import CDLL, POINTER, c_double
 import numpy
 
@@ -83,7 +84,7 @@ class R_implementation:
 		# input(s), output(s), states, intermediate variables
 		strU = genCvarNames('u', q)
 		strY = genCvarNames('y', p)
-		strXk = genCvarNames('xk', n)
+		strXk = ['xk[%d]' % (i,) for i in range(n)]		# always a pointer, even with one state
 		strXkp = ['x%d_kp1' % (i,) for i in range(n)]
 		strT = ['T%d' % (i,) for i in range(l)]
 
@@ -157,26 +158,32 @@ class R_implementation:
 		"""
 		# TODO: manage the place where the code is generated (it should be an absolute path?)
 
-		# generate C code
-		with open(GENERATED_PATH+"runC.c", "w") as cFile:
-			cFile.write(self.implementCdouble("implementCdouble"))
+		# the library is built in its own folder (a library already loaded with the same name would be used again)
+		with TemporaryDirectory(prefix='runC_', dir=GENERATED_PATH) as path:
+			# generate C code
+			with open(path + "/runC.c", "w") as cFile:
+				cFile.write(self.implementCdouble("implementCdouble"))
 
-		print("Compiling runC.c")
+			print("Compiling runC.c")
 
-		# compile it
-		proc = Popen("cd " + GENERATED_PATH + "&& cc -Wall -fPIC -shared -o runC.so runC.c ", stderr=PIPE, shell=True)
-		# check the output and print it
-		line = 'non-empty'
-		while line:
-			line = proc.stderr.readline().decode('utf-8')
-			print(line[:-1])		# TODO: log it somewhere ?
+			# compile it
+			proc = Popen(["cc", "-Wall", "-fPIC", "-shared", "-o", "runC.so", "runC.c"], stderr=PIPE, cwd=path)
+			# check the output and print it
+			err = proc.communicate()[1].decode('utf-8')
+			print(err)		# TODO: log it somewhere ?
+			if proc.returncode != 0:
+				raise RuntimeError("The generated C code cannot be compiled:\n" + err)
+
+			# use ctype
+			Cdouble = CDLL(path + '/runC.so').implementCdouble
 
-		# use ctype
-		self._Cdouble = CDLL(GENERATED_PATH + 'runC.so').implementCdouble
 		if self.p == 1:
-			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
+			Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
+			Cdouble.restype = c_double
 		else:
-			self._Cdouble.argtypes = (POINTER(c_double), c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
+			Cdouble.argtypes = (POINTER(c_double), c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
+			Cdouble.restype = None
+		self._Cdouble = Cdouble
 
 
 
@@ -198,13 +205,25 @@ class R_implementation:
 
 		u = mat(u)
 		N = u.shape[1]
+		if u.shape[0] != self._q:
+			raise ValueError("runCdouble: u should be a %d*N matrix" % self._q)
 
 		x = zeros((self._n, 1))		# TODO: add the possibility to start with a non-zero state
 		px = x.ctypes.data_as(POINTER(c_double))
 		y = zeros((self._p, N))
 
 		# loop to compute the outputs
-		if self.p == 1 and self.q == 1:
-			for i in range(N):
-				y[:, i] = self._Cdouble(u[:, i], px)
+		yi = zeros((self._p, 1))
+		py = yi.ctypes.data_as(POINTER(c_double))
+		for i in range(N):
+			if self.q == 1:
+				pu = float(u[0, i])
+			else:
+				ui = array(u[:, i], dtype=float)
+				pu = ui.ctypes.data_as(POINTER(c_double))
+			if self.p == 1:
+				y[0, i] = self._Cdouble(pu, px)
+			else:
+				self._Cdouble(py, pu, px)
+				y[:, i] = yi[:, 0]
 		return y
\ No newline at end of file
-- 
2.43.0


From a68f962d1682af11fb8ec82a3da52d84b1ac3979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 10/72] fix: SoP.__str__ gives the coefficient format as the
 assignment string

---
 fixif/SoP/SoP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index 16ee774..e0c46d1 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -83,4 +83,4 @@ class SoP:
 
 	def __str__(self):
 		"""display the SoP"""
-		return self.toAlgoStr('%4f')
+		return self.toAlgoStr(coefFormat='%4f')
-- 
2.43.0


From 5574d393eefa8bca6eb3ab6a99d9381f802d0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 11/72] fix: SoP: long names, or names with a hyphen, are cut
 in two lines

---
 fixif/SoP/SoP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index e0c46d1..40ccdae 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -77,7 +77,7 @@ class SoP:
 		if self._resName == S:
 			return ''
 		else:
-			return "\n".join(wrap(self._resName + ' ' + assign + ' ' + S, 60))
+			return "\n".join(wrap(self._resName + ' ' + assign + ' ' + S, 60, break_long_words=False, break_on_hyphens=False))
 
 
 
-- 
2.43.0


From 90f18b7bc34c8e2bc40a7de1daa53662c800c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 12/72] fix: generateNames fails on an empty list of surnames

---
 fixif/SoP/VarName.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/VarName.py b/fixif/SoP/VarName.py
index 293c008..8b2889d 100644
--- a/fixif/SoP/VarName.py
+++ b/fixif/SoP/VarName.py
@@ -114,7 +114,7 @@ def generateNames(baseName, nbVar, surnames=None):
 	# initial values when surnames is None
 	if surnames is None:
 		surnames = [(None, i+1 if nbVar > 1 else None, 0) for i in range(nbVar)]
-	elif isinstance(surnames[0], str):		# simple surnames, without index and shift
+	elif surnames and isinstance(surnames[0], str):		# simple surnames, without index and shift
 		surnames = [(s, None, 0) for s in surnames]
 
 	return [VarName(baseName, i + 1 if nbVar > 1 else None, sn, ind, sh) for i, (sn, ind, sh) in enumerate(surnames)]
-- 
2.43.0


From bc92917ad7ce8a8575d35a372782224335175750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 13/72] fix: VarName without surname loses its index when the
 surname is asked for

---
 fixif/SoP/VarName.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/VarName.py b/fixif/SoP/VarName.py
index 8b2889d..dd65654 100644
--- a/fixif/SoP/VarName.py
+++ b/fixif/SoP/VarName.py
@@ -36,7 +36,7 @@ class VarName:
 		self._SIFname = SIFname
 		self._SIFindex = SIFindex
 		self._surname = surname if surname is not None else SIFname
-		self._index = index
+		self._index = SIFindex if surname is None and index is None else index
 		self._shift = shift
 
 	@property
-- 
2.43.0


From c0731a0db27d2cb8f0a39bf8902d5d9258bb589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 14/72] fix: algorithmTxt: withTime=False is not rejected when
 the states have surnames with time

---
 fixif/SIF/Realization_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index b6e43f6..c0d1497 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -108,7 +108,7 @@ class R_algorithm:
 		if withSurname and not withTime:
 			# it raises an error only when at least one VarName has a surname with time (with shift != 0)
 			v = [v for v in self._varNameT if v.hasSurnameWithIndex()]
-			v.extend([v for v in self._varNameT if v.hasSurnameWithIndex()])
+			v.extend([v for v in self._varNameX if v.hasSurnameWithIndex()])
 			if len(v) > 0:
 				raise ValueError("algorithmTxt: wichSurname=True and withTime=False are incoherent")
 
-- 
2.43.0


From 38e5b3b42149c7f8f69bde03972dde0c0ead2b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 15/72] fix: MPFMatrix.mul_exact checks and uses the wrong
 sizes

---
 fixif/func_aux/MPFMatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index 92c638d..d4143fa 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -219,11 +219,11 @@ class MPFMatrix(object):
 		# test sizes
 
 
-		if self.rows != other.cols:
+		if self.cols != other.rows:
 			raise ValueError('Cannot compute exact product of two matrices: incorrect sizes.')
 
 		m = self.rows
-		n = self.rows
+		n = self.cols
 		p = other.cols
 
 		C = mpmath.zeros(m, p)
-- 
2.43.0


From 9b99d6e93912eadc01d466b2bbfa4155834855b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 16/72] fix: exact matrix functions raise TypeError while
 building their error and warning messages

---
 fixif/func_aux/MPFMatrix.py             | 14 +++++++-------
 fixif/func_aux/mpf_matrix_fadd.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fmul.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fsub.py       |  4 ++--
 fixif/func_aux/mpf_matrix_lt_inverse.py |  6 +++---
 fixif/func_aux/mpf_matrix_to_sollya.py  |  4 ++--
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index d4143fa..a0b49c3 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -142,7 +142,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		#test sizes
 		if self.shape != other.shape:
@@ -156,7 +156,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i,j] = mpmath.fadd(self[i,j], other[i,j], exact=True)
 				if mpmath.isnan(C[i,j]) or mpmath.isinf(C[i,j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i,j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i,j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -177,7 +177,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 		if self.shape != other.shape:
@@ -191,7 +191,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i, j] = mpmath.fsub(self[i, j], other[i, j], exact=True)
 				if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -214,7 +214,7 @@ class MPFMatrix(object):
 
 		# check input type
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 
@@ -233,7 +233,7 @@ class MPFMatrix(object):
 					tmp = mpmath.fmul(self[i, k], other[k, j], exact=True)
 					C[i, j] = mpmath.fadd(C[i, j], tmp, exact=True)
 					if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 
 		return MPFMatrix(C)
 
@@ -256,7 +256,7 @@ class MPFMatrix(object):
 
 		# checking the size
 		if self.rows != self.cols:
-			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % self.rows, self.cols)
+			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (self.rows, self.cols))
 		else:
 			n = self.rows
 
diff --git a/fixif/func_aux/mpf_matrix_fadd.py b/fixif/func_aux/mpf_matrix_fadd.py
index 56b400c..f78d33a 100644
--- a/fixif/func_aux/mpf_matrix_fadd.py
+++ b/fixif/func_aux/mpf_matrix_fadd.py
@@ -28,7 +28,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fmul.py b/fixif/func_aux/mpf_matrix_fmul.py
index 2c50ce2..cbce90d 100644
--- a/fixif/func_aux/mpf_matrix_fmul.py
+++ b/fixif/func_aux/mpf_matrix_fmul.py
@@ -28,7 +28,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fsub.py b/fixif/func_aux/mpf_matrix_fsub.py
index cfae140..36235eb 100644
--- a/fixif/func_aux/mpf_matrix_fsub.py
+++ b/fixif/func_aux/mpf_matrix_fsub.py
@@ -28,7 +28,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_lt_inverse.py b/fixif/func_aux/mpf_matrix_lt_inverse.py
index 2622a6b..4d074ed 100644
--- a/fixif/func_aux/mpf_matrix_lt_inverse.py
+++ b/fixif/func_aux/mpf_matrix_lt_inverse.py
@@ -64,15 +64,15 @@ def mpf_matrix_lt_inverse(L):
 		try:
 			L = python2mpf_matrix(L)
 		except ValueError as e:
-			raise ValueError('Cannot compute exact difference of two matrices. %s') % e
+			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(L, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(L)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(L))
 
 
 	#checking the size
 	if L.rows != L.cols:
-		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % L.rows, L.cols)
+		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (L.rows, L.cols))
 	else:
 		n = L.rows
 
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index 95fec46..a56658b 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -24,10 +24,10 @@ def mpf_matrix_to_sollya(A):
 	"""
 
 	if not isinstance(A,mpmath.matrix):
-		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s') % type(A)
+		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s' % type(A))
 
 	if not isinstance(A[0,0], mpmath.mpf):
-		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s') % type(A[0,0])
+		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s' % type(A[0,0]))
 
 	#First, we need to get the (long, long) representation of the matrix A
 	#We compute matrices Y and N such that A[i,j] = Y[i,j] * 2 ** N[i,j]
-- 
2.43.0


From bce6c0414c3cde3efac6be4dce927daf2919cb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 17/72] fix: python2mpf_matrix rounds to the working precision
 when it is lower than 53 bits

---
 fixif/func_aux/python2mpf_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/func_aux/python2mpf_matrix.py b/fixif/func_aux/python2mpf_matrix.py
index f493d45..1a537fe 100644
--- a/fixif/func_aux/python2mpf_matrix.py
+++ b/fixif/func_aux/python2mpf_matrix.py
@@ -11,7 +11,7 @@ def python2mpf_matrix(M):
 	Mmp = mp.zeros(n, m)
 	for i in range(0, n):
 		for j in range(0, m):
-			Mmp[i, j] = mp.mpf(M[i, j])
+			Mmp[i, j] = mp.mpmathify(M[i, j])		# (mpf would round to the working precision)
 
 
 	return Mmp
-- 
2.43.0


From 53344b863e8fd96ee4ad036463ee1a4a23d4c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 18/72] fix: exact sum, difference and product fail on empty
 matrices

---
 fixif/func_aux/mpf_matrix_fadd.py | 4 ++--
 fixif/func_aux/mpf_matrix_fmul.py | 4 ++--
 fixif/func_aux/mpf_matrix_fsub.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixif/func_aux/mpf_matrix_fadd.py b/fixif/func_aux/mpf_matrix_fadd.py
index f78d33a..6f94495 100644
--- a/fixif/func_aux/mpf_matrix_fadd.py
+++ b/fixif/func_aux/mpf_matrix_fadd.py
@@ -41,9 +41,9 @@ def mpf_matrix_fadd(A, B):
 
 
 	#here both A and B are mpmath matrices
-	#we consider that A and B are MPF matrices if their first elements are of type mpf, let's test it
+	#A and B should be MPF matrices (possibly empty), let's test it
 
-	if not isinstance(A[0,0], mpmath.mpf) or not isinstance(B[0,0], mpmath.mpf):
+	if not all(isinstance(x, mpmath.mpf) for M in (A, B) for x in M):
 		raise ValueError('Cannot compute exact product of two matrices: cannot sum complex matrices.')
 
 	#test sizes
diff --git a/fixif/func_aux/mpf_matrix_fmul.py b/fixif/func_aux/mpf_matrix_fmul.py
index cbce90d..15efdf6 100644
--- a/fixif/func_aux/mpf_matrix_fmul.py
+++ b/fixif/func_aux/mpf_matrix_fmul.py
@@ -41,9 +41,9 @@ def mpf_matrix_fmul(A, B):
 
 
 	#here both A and B are mpmath matrices
-	#we consider that A and B are MPF matrices if their first elements are of type mpf, let's test it
+	#A and B should be MPF matrices (possibly empty), let's test it
 
-	if not isinstance(A[0,0], mpmath.mpf) or not isinstance(B[0,0], mpmath.mpf):
+	if not all(isinstance(x, mpmath.mpf) for M in (A, B) for x in M):
 		raise ValueError('Cannot compute exact product of two matrices: cannot multiply complex matrices.')
 
 	#test sizes
diff --git a/fixif/func_aux/mpf_matrix_fsub.py b/fixif/func_aux/mpf_matrix_fsub.py
index 36235eb..51e65b9 100644
--- a/fixif/func_aux/mpf_matrix_fsub.py
+++ b/fixif/func_aux/mpf_matrix_fsub.py
@@ -41,9 +41,9 @@ def mpf_matrix_fsub(A, B):
 
 
 	#here both A and B are mpmath matrices
-	#we consider that A and B are MPF matrices if their first elements are of type mpf, let's test it
+	#A and B should be MPF matrices (possibly empty), let's test it
 
-	if not isinstance(A[0,0], mpmath.mpf) or not isinstance(B[0,0], mpmath.mpf):
+	if not all(isinstance(x, mpmath.mpf) for M in (A, B) for x in M):
 		raise ValueError('Cannot compute exact difference of two matrices: cannot sum complex matrices.')
 
 	#test sizes
-- 
2.43.0


From f0767f0a0c085bf5148eb566233acebd4b9e3fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 19/72] fix: mp_poly_product fails with one factor

---
 fixif/func_aux/mp_poly_product.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/fixif/func_aux/mp_poly_product.py b/fixif/func_aux/mp_poly_product.py
index f268778..d2dcfc2 100644
--- a/fixif/func_aux/mp_poly_product.py
+++ b/fixif/func_aux/mp_poly_product.py
@@ -27,23 +27,12 @@ def mp_poly_product(p, j=-1):
 
 	"""
 	degP = len(p)
-	if degP < 2:
+	if degP < 1:
 		raise ValueError('error in polynomial product: empty polynomial')
-	if j == -1:
-		c = mp.matrix([1, p[0]])
-		for i in range(1, degP):
+
+	c = mp.matrix([1])
+	for i in range(0, degP):
+		if i != j:
 			c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-	else:
-		if j == 0:
-			c = mp.matrix([1, p[1]])
-			for i in range(2, degP):
-				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-		else:
-			c = mp.matrix([1, p[0]])
-			for i in range(1, j):
-				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-
-			for i in range(j + 1, degP):
-				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
 
 	return c
\ No newline at end of file
-- 
2.43.0


From 6dd8314e2587aa4825f94577f381dc3eaed5c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 20/72] fix: dSSmp.__sub__ rounds the output matrix of the
 second operand to the working precision

---
 fixif/LTI/dSSmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 474a135..73bb7e0 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -265,7 +265,7 @@ class dSSmp(object):
 				D[i, j] = mpmath.fsub(self.D[i, j], S.D[i, j], exact=True)
 		for i in range(0, self.p):
 			for j in range(0, S.n):
-				C[i, j + self.n] = -S.C[i, j]
+				C[i, j + self.n] = mpmath.fneg(S.C[i, j], exact=True)
 
 		return dSSmp(A, B, C, D)
 
-- 
2.43.0


From a38714edb9787987f41c749bfd04cfdd5bc4dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 21/72] fix: dSSmp.simulate ignores the initial state, or does
 not update the state when exact is False

---
 fixif/LTI/dSSmp.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 73bb7e0..35da9ed 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -429,14 +429,15 @@ class dSSmp(object):
 			raise ValueError('Cannot perform somulation: u is of incorrect size')
 
 		xk = mpmath.mp.zeros(self._n, 1)
-		if x0:
-			if not isinstance(x0, mpmath.matrix):
-				if isinstance(x0, numpy.matrix):
-					xk = python2mpf_matrix(x0)
-				else:
-					raise ValueError('Cannot perform simulation: initial state specified in incorrect format')
-
-		if xk.rows != self._n:
+		if x0 is not None:
+			if isinstance(x0, mpmath.matrix):
+				xk = x0.copy()
+			elif isinstance(x0, numpy.matrix):
+				xk = python2mpf_matrix(x0)
+			else:
+				raise ValueError('Cannot perform simulation: initial state specified in incorrect format')
+
+		if xk.rows != self._n or xk.cols != 1:
 			raise ValueError('Cannot perform simulation: initial state is of incorrect size')
 
 		T = u.cols
@@ -460,8 +461,8 @@ class dSSmp(object):
 				yk[:, i] = mpf_matrix_fmul(self._C, xk)
 				yk[:, i] = mpf_matrix_fadd(yk[:, i], mpf_matrix_fmul(self._D, u[:, i]))
 
-			for i in range(0, xk.rows):
-				xk[i, 0] = mpmath.fadd(xkp1[i, 0], mpmath.mp.zero, prec=64, rounding='n')
+				for j in range(0, xk.rows):
+					xk[j, 0] = mpmath.fadd(xkp1[j, 0], mpmath.mp.zero, prec=53, rounding='n')
 
 
 		return yk
-- 
2.43.0


From a80aabd1aad6fcab93173440f4b57b10c13517bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 22/72] fix: dSSmp.to_dTFmp fails when A is not diagonalizable,
 and leaves the working precision changed when it raises

---
 fixif/LTI/dSSmp.py | 61 +++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 35da9ed..2d646a6 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -288,48 +288,37 @@ class dSSmp(object):
 		TF - a dTFmp object
 
 		"""
-		# converting the dSS matrices to mp type
-
-		oldprec = mpmath.mp.prec
-		mpmath.mp.prec = prec
-
 		from fixif.LTI import dTFmp
 
 		if self.p != 1 or self.q != 1:
 			raise ValueError('dSS: cannot convert a dSSmp to dTFmp for not a SISO system')
 
-		E, V = mpmath.mp.eig(self.A)  # eig returns a list E and a matrix V
-		Cmp = self.C * V
-		Vinv = mpmath.mp.inverse(V)
-		Bmp = Vinv * self.B
-
-		Q = mp_poly_product([-e for e in E])
-		PP = mpmath.mp.zeros(Q.rows - 1, 1)
-		# tmp_polyproduct = mp.zeros([self.n, 1]) #temporary polynomial products
-		for i in range(0, self.n):
-			# P = sum_i=0^n c_i * b_i * product_j!=i p_j
-			tmp_polyproduct = mp_poly_product([-e for e in E], i)
-			PP = PP + Cmp[0, i] * Bmp[i, 0] * tmp_polyproduct
-
-
-		if self.D[0, 0] != mpmath.mp.zero:
-			P = self.D[0, 0] * Q
-		else:
-			P = mpmath.mp.zeros(Q.rows, 1)
-
-		for i in range(1, P.rows):
-			P[i, 0] = P[i, 0] + PP[i - 1, 0]
-
-		b = mpmath.mp.zeros(P.rows, 1)
-		a = mpmath.mp.zeros(Q.rows, 1)
-		for i in range(0, P.rows):
-			b[i, 0] = P[i, 0].real
-			b[i, 0] = mpmath.fadd(b[i, 0], mpmath.mp.zero, prec=prec)
-		for i in range(0, Q.rows):
-			a[i, 0] = Q[i, 0].real
-			a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)
+		# Faddeev-LeVerrier algorithm, performed exactly (A may be non diagonalizable):
+		# det(zI - A) = sum_k a_k z^(n-k) and adj(zI - A) = sum_k M_k z^(n-k)
+		n = self.n
+		b = mpmath.mp.zeros(n + 1, 1)
+		a = mpmath.mp.zeros(n + 1, 1)
+		a[0, 0] = mpmath.mp.one
+		b[0, 0] = self.D[0, 0]
+		M = mpmath.mp.eye(n)
+		for k in range(1, n + 1):
+			AM = mpf_matrix_fmul(self.A, M)
+			trace = mpmath.mp.zero
+			for i in range(0, n):
+				trace = mpmath.fadd(trace, AM[i, i], exact=True)
+			# trace is a multiple of k, so this division is exact
+			a[k, 0] = mpmath.fdiv(mpmath.fneg(trace, exact=True), k, prec=max(trace.bc, 1))
+			CMB = mpf_matrix_fmul(mpf_matrix_fmul(self.C, M), self.B)[0, 0]
+			b[k, 0] = mpmath.fadd(mpmath.fmul(self.D[0, 0], a[k, 0], exact=True), CMB, exact=True)
+			for i in range(0, n):
+				AM[i, i] = mpmath.fadd(AM[i, i], a[k, 0], exact=True)
+			M = AM
+
+		# round the coefficients
+		for k in range(0, n + 1):
+			b[k, 0] = mpmath.fadd(b[k, 0], mpmath.mp.zero, prec=prec)
+			a[k, 0] = mpmath.fadd(a[k, 0], mpmath.mp.zero, prec=prec)
 
-		mpmath.mp.prec = oldprec
 		return dTFmp(b, a)
 
 	def WCPGmp(self, delta=2**-53):
-- 
2.43.0


From b35738f0f58f90bbbbe836baf5bfd69f15f74353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 23/72] fix: dTFmp normalizes wrongly, modifies the matrices it
 is given and fails when their lengths differ

---
 fixif/LTI/dTFmp.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 4afb131..0b70a21 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -48,12 +48,20 @@ class dTFmp(object):
 			raise ValueError('Cannot create a dTFmp pbject: incorrect sizes')
 
 
-		n = a.rows
+		if a[0, 0] == 0:
+			raise ValueError('Cannot create a dTFmp object: the 1st coefficient of the denominator cannot be zero')
+
+		# work on copies, the shortest of the numerator and the denominator is completed with zeros
+		n = max(a.rows, b.rows)
+		a = mpmath.mp.matrix(a.tolist() + [[0]] * (n - a.rows))
+		b = mpmath.mp.matrix(b.tolist() + [[0]] * (n - b.rows))
 		if a[0, 0] != mpmath.mp.one:
+			# division cannot be performed exactly but we do it with doubled precision
+			prec = 2 * max([mpmath.mp.prec] + [x.bc for x in a] + [x.bc for x in b])
+			a0 = a[0, 0]
 			for i in range(0, n):
-				# division cannot be performed exactly but we do it with doubled precision
-				a[i, 0] = mpmath.fdiv(a[i, 0], a[0, 0], prec=a[i, 0]._mpf_[3] * 2)
-				b[i, 0] = mpmath.fdiv(b[i, 0], b[0, 0], prec=b[i, 0]._mpf_[3] * 2)
+				a[i, 0] = mpmath.fdiv(a[i, 0], a0, prec=prec)
+				b[i, 0] = mpmath.fdiv(b[i, 0], a0, prec=prec)
 
 		self._order = n - 1
 		self._num = b
-- 
2.43.0


From 184e760ebe71f77d3b901fdbe2cf2e0d3828c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 24/72] fix: dTFmp.to_dSSmp rounds the denominator to the
 working precision, and fails for order 0

---
 fixif/LTI/dTFmp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 0b70a21..47a6056 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -132,11 +132,13 @@ class dTFmp(object):
 		N = self.order + 1
 
 		A = mpmath.mp.zeros(N - 1, N - 1)
-		A[0, :] = -self.den.transpose()[0, 1:N]
+		for i in range(0, N - 1):
+			A[0, i] = mpmath.fneg(self.den[i + 1, 0], exact=True)
 		for i in range(1, N - 1):
 			A[i, i - 1] = mpmath.mp.one
 		B = mpmath.mp.zeros(N - 1, 1)
-		B[0, 0] = mpmath.mp.one
+		if N > 1:
+			B[0, 0] = mpmath.mp.one
 
 		# We compute matrix C exactly
 		C = mpmath.mp.zeros(1, N - 1)
-- 
2.43.0


From cadb82d4106db69cf52ebaeaac709e783a25c292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 25/72] fix: dTF product, sum and difference drop the delays
 (leading zeros of the numerator)

---
 fixif/LTI/dTF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index e1b794d..9c9a810 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -17,7 +17,8 @@ __status__ = "Beta"
 
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
-from numpy import matrix as mat, polymul, polyadd
+from numpy import matrix as mat, polyadd
+from numpy import convolve as polymul  # (numpy.polymul drops the leading zeros, that are the delays here)
 from numpy import diagflat, zeros, ones, r_, c_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
-- 
2.43.0


From 76fbf7df69c0320f660be5d824d509e216bab160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 26/72] fix: dTF algebra refuses numpy scalars, and 'unknown -
 dTF' returns None

---
 fixif/LTI/dTF.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 9c9a810..dd499db 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -1,6 +1,7 @@
 # coding: utf8
 
 # This class describes a SISO transfer function
+from numbers import Real
 from numpy.random.mtrand import randint, rand
 # from scipy.weave import inline
 
@@ -91,7 +92,7 @@ class dTF(object):
 
 	def __mul__(self, other):
 		"""multiply"""
-		if type(other) in [int, float]:
+		if isinstance(other, Real):
 			return dTF(self._num * other, self._den)
 		elif isinstance(other, dTF):
 			numer = polymul(self.num.A1, other.num.A1)
@@ -103,7 +104,7 @@ class dTF(object):
 
 	def __add__(self, other):
 		"""addition"""
-		if type(other) in [int, float]:
+		if isinstance(other, Real):
 			return dTF(polyadd(self._num.A1, self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
 			numer = polyadd(polymul(self._num.A1, other.den.A1), polymul(self._den.A1, other.num.A1))
@@ -114,7 +115,7 @@ class dTF(object):
 
 	def __sub__(self, other):
 		"""substraction"""
-		if type(other) in [int, float]:
+		if isinstance(other, Real):
 			return dTF(polyadd(self._num.A1, -self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
 			numer = polyadd(polymul(self._num.A1, other.den.A1), -polymul(self._den.A1, other.num.A1))
@@ -124,12 +125,13 @@ class dTF(object):
 
 	def __rsub__(self, other):
 		"""right substraction"""
-		if type(other) in [int, float]:
+		if isinstance(other, Real):
 			return dTF(polyadd(-self._num.A1, self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
 			numer = polyadd(polymul(other.num.A1, self._den.A1), -polymul(other.den.A1, self._num.A1))
 			denom = polymul(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
+		raise ValueError("Cannot substract a dTF with a %s", type(other))
 
 
 	def to_dTFmp(self):
-- 
2.43.0


From 891874db4a65e87aec59dbee9751e1d8b91024d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 27/72] fix: dSS.similarity keeps the Gramians of the previous
 state-space

---
 fixif/LTI/dSS.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index f520783..363d93e 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -447,6 +447,13 @@ class dSS(object):
 		self._C = self._C * T
 		# D is unchanged
 
+		# the analysis values are not those of the new matrices (or may differ numerically)
+		self._Wo = None
+		self._Wc = None
+		self._H2norm = None
+		self._DC_gain = None
+		self._WCPG = None
+
 	# ======================================================================================
 	def _check_dimensions(self):
 		"""
-- 
2.43.0


From 858ea3e3f0feb5a31d4d87085a529bd0696e38d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 28/72] fix: dSS product refuses compatible state-spaces

---
 fixif/LTI/dSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 363d93e..37bd4fe 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -535,8 +535,8 @@ class dSS(object):
 		n1, p1, q1 = self.size
 		n2, p2, q2 = other.size
 
-		if p1 != q2:
-			raise ValueError("dSS: second state space should have same number of inputs as first state number of outputs")
+		if q1 != p2:
+			raise ValueError("dSS: second state space should have same number of outputs as first state number of inputs")
 
 		# TODO: possible simplification if self.A==other.A ??
 
-- 
2.43.0


From 5c21d03b776e65c83ca4b065ffdf5ce94ac9a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 29/72] fix: dSS.__getitem__ fails with lists of inputs and
 outputs

---
 fixif/LTI/dSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 37bd4fe..fd157d6 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -556,7 +556,7 @@ class dSS(object):
 
 	def __getitem__(self, *args):
 		"""Returns a subsystem"""
-		return dSS(self._A, self._B[:, args[0][1]], self._C[args[0][0], :], self._D[args[0][0], args[0][1]])
+		return dSS(self._A, self._B[:, args[0][1]], self._C[args[0][0], :], self._D[args[0][0], :][:, args[0][1]])
 
 	def to_dSSmp(self):
 		"""Transforms the dSS into a dSSmp (multiprecision dSS)"""
-- 
2.43.0


From 12982efb9690bd31966bcd06ea608786bc95e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 30/72] fix: dSS.simplify changes the filter, and never ends
 when A is singular without null row

---
 fixif/LTI/dSS.py | 87 +++++++++---------------------------------------
 1 file changed, 16 insertions(+), 71 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index fd157d6..2854382 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -576,80 +576,25 @@ class dSS(object):
 
 	def simplify(self):
 		"""
-		This function tries to simplify the state-space msystem.
-		It may occur that matrix A contains one or several rows that contain only zeros.
-		In this case we have that the corresponding state-space variable depends only on
-		the term B[i,:]*u(k):
-		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
-		..
-		xi(k+1) = B[i,:]*u(k)
-		...
-		y(k) = C * x(k) + D * u(k)
-
-		Then, we can re-write
-		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
-		..
-		xi(k+1) = 0
-		...
-		y(k) = C * x(k) + C[:,i]*(B[i,:]*u(k)) + D * u(k)
-
-		or in matrix form:
-
-			A' is the matrix A with column i and row i deleted
-			C' is the matrix C with column i deleted
-
-			then,
-
-			x(k+1) = A' * x(k) + B * u(k)
-			y(k)   = C' * x(k) + (D + C[:, i] * B[i,:]) * u(k)
-
-		Returns
-		-------
+		This function tries to simplify the state-space system.
+		It may occur that a row of A and the same row of B contain only zeros.
+		In this case, the corresponding state is always null
+			xi(k+1) = 0
+		and it can be removed (the row and column i of A, the row i of B and the column i of C)
 
+		Returns an equivalent dSS
 		"""
+		A, B, C = self._A, self._B, self._C
 
-
-
-
-		newS = self
-
-		while newS.n > numpy.linalg.matrix_rank(newS._A):
-			l = list()
-			for i in range(0, newS.n):
-				if numpy.count_nonzero(newS._A[i, :]) == 0:
-					l.append(i)
-
-			A = newS._A
-			B = newS._B
-			C = newS._C
-			D = newS._D
-
-
-			while len(l) > 0:
-				index = l.pop()
-
-				A = numpy.delete(A, index, 1)
-				A = numpy.delete(A, index, 0)
-
-				D = D + C[:, index] * B[index, :]
-
-				C = numpy.delete(C, index, 1)
-
-				B = numpy.delete(B, index, 0)
-
-
-			newS = dSS(A, B, C, D)
-
-			print("number of states: %d \n rank: %d " % (newS.n, numpy.linalg.matrix_rank(newS._A)))
-
-		return newS
-
-
-
-
-
-
-
+		while True:
+			# indices of the states to keep
+			keep = [i for i in range(0, A.shape[0]) if numpy.count_nonzero(A[i, :]) or numpy.count_nonzero(B[i, :])]
+			if len(keep) == A.shape[0]:
+				return dSS(A, B, C, self._D)
+
+			A = A[keep, :][:, keep]
+			B = B[keep, :]
+			C = C[:, keep]
 
 
 
-- 
2.43.0


From c6fc57e68b566b1571441d236dfb41267c6f6def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 31/72] fix: dTF.to_dSS('ctrl') fails for order 0

---
 fixif/LTI/dTF.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index dd499db..bf9d6d0 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -148,7 +148,10 @@ class dTF(object):
 		# TODO: code it without scipy
 
 		from fixif.LTI import dSS
-		if form == 'ctrl':
+		if form == 'ctrl' and self.order == 0:
+			# no state
+			A, B, C, D = mat(zeros((0, 0))), mat(zeros((0, 1))), mat(zeros((1, 0))), mat(self.num.copy())
+		elif form == 'ctrl':
 			A = mat(diagflat(ones((1, self.order-1)), 1))
 			A[self.order-1, :] = fliplr(-self.den[0, 1:])
 			B = mat(r_[zeros((self.order-1, 1)), atleast_2d(1)])
-- 
2.43.0


From 5028df16a59cb8c02c422b8776a5a27c7bcf4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:38 +0000
Subject: [PATCH 32/72] fix: DFI and DFII fail for order 0

---
 fixif/Structures/DirectForms/DFI.py  | 10 +++++-----
 fixif/Structures/DirectForms/DFII.py |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fixif/Structures/DirectForms/DFI.py b/fixif/Structures/DirectForms/DFI.py
index bd3e73d..5e095bd 100644
--- a/fixif/Structures/DirectForms/DFI.py
+++ b/fixif/Structures/DirectForms/DFI.py
@@ -17,7 +17,7 @@ __status__ = "Beta"
 
 from fixif.Structures.Structure import Structure
 from numpy import matrix as mat
-from numpy import diagflat, zeros, eye, rot90, ones, r_, c_, atleast_2d
+from numpy import zeros, eye, rot90, r_, c_, atleast_2d
 from numpy.linalg import inv
 
 
@@ -44,21 +44,21 @@ def makeDFI(filt, nbSum=1, transposed=True):
 	den = mat(filt.dTF.den)
 
 	# Compute J to S matrices
-	P = mat(r_[c_[diagflat(ones((1, n - 1)), -1), zeros((n, n))], c_[zeros((n, n)), diagflat(ones((1, n - 1)), -1)]])
-	Q = mat(r_[atleast_2d(1), zeros((2 * n - 1, 1))])
+	P = mat(r_[c_[eye(n, k=-1), zeros((n, n))], c_[zeros((n, n)), eye(n, k=-1)]])
+	Q = mat(eye(2 * n, 1))
 	R = mat(zeros((1, 2 * n)))
 	S = mat(atleast_2d(0))
 
 	if nbSum == 1:
 		J = mat(atleast_2d(1))
-		K = mat(r_[zeros((n, 1)), atleast_2d(1), zeros((n - 1, 1))])
+		K = mat(eye(2 * n, 1, -n))
 		L = mat(atleast_2d(1))
 		M = mat(c_[num[0, 1:], -den[0, 1:]])
 		N = atleast_2d(num[0, 0])
 
 	else:
 		J = mat([[1, 0], [-1, 1]])
-		K = c_[zeros((2 * n, 1)), r_[zeros((n, 1)), atleast_2d(1), zeros((n - 1, 1))]]
+		K = c_[zeros((2 * n, 1)), eye(2 * n, 1, -n)]
 		L = mat([[0, 1]])
 		M = r_[c_[num[0, 1:], zeros((1, n))], c_[zeros((1, n)), -den[0, 1:]]]
 		N = mat([[num[0, 0]], [0]])
diff --git a/fixif/Structures/DirectForms/DFII.py b/fixif/Structures/DirectForms/DFII.py
index 445e0d0..d4665e3 100644
--- a/fixif/Structures/DirectForms/DFII.py
+++ b/fixif/Structures/DirectForms/DFII.py
@@ -17,7 +17,7 @@ __status__ = "Beta"
 
 from fixif.Structures.Structure import Structure
 from numpy import matrix as mat
-from numpy import diagflat, zeros, eye, rot90, ones, r_, atleast_2d, fliplr
+from numpy import zeros, eye, rot90, atleast_2d, fliplr
 from numpy.linalg import inv
 
 
@@ -39,11 +39,11 @@ def makeDFII(filt, transposed=True):
 
 	# Compute J to S matrices
 	J = mat(atleast_2d(1))
-	K = mat(r_[zeros((n - 1, 1)), atleast_2d(1)])
+	K = mat(eye(n, 1, 1 - n))
 	L = mat(atleast_2d(num[0, 0]))
 	M = mat(fliplr(-den[0, 1:]))
 	N = mat(atleast_2d(1))
-	P = mat(diagflat(ones((1, n - 1)), 1))
+	P = mat(eye(n, k=1))
 	Q = mat(zeros((n, 1)))
 	R = mat(fliplr(num[0, 1:]))
 	S = mat(atleast_2d(0))
-- 
2.43.0


From 113a292c580f446b5780769c5472af1572401b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 33/72] fix: rhoDFII, LGS and LCW accept filters of order 0,
 that they cannot realize

---
 fixif/Structures/LGS_LCW/LGS_LCW.py   | 4 ++--
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index e8db4a2..73af889 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -374,9 +374,9 @@ def makeLCW(filt, transposed=False):
 
 def acceptLGSLCW(filt, **options):
 	"""
-	return True only if the filter is SISO and stable
+	return True only if the filter is SISO and stable, with at least one state
 	"""
-	return filt.isSISO() and filt.isStable()
+	return filt.isSISO() and filt.isStable() and filt.order > 0
 
 
 # build the Direct Form I
diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 39fe30b..0d8ffc7 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -196,9 +196,9 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 
 def acceptrhoDFII(filt, **options):
 	"""
-	return True only if the filter is SISO
+	return True only if the filter is SISO and stable, with at least one state
 	"""
-	return filt.isSISO() and filt.isStable()
+	return filt.isSISO() and filt.isStable() and filt.order > 0
 
 
 rhoDFII = Structure(shortName="rhoDFII", fullName="rho Direct Form II", options={'transposed': (True, False), 'equiv_dSS': (False, True), 'scaling': (None, 'l2', 'l2-relaxed')}, make=makerhoDFII, accept=acceptrhoDFII)
-- 
2.43.0


From 7d25e48c890b6109b36e0fb74c7a68129f80a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 34/72] fix: Filter.isSISO returns a dTF instead of a boolean

---
 fixif/LTI/Filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index b4aebc7..b4445a3 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -116,7 +116,7 @@ class Filter(object):
 		"""
 		Returns True if the lti filter is a Single Input Single Output filter
 		"""
-		return self._dTF or self._dSS.D.shape == (1, 1)
+		return self._dTF is not None or self._dSS.D.shape == (1, 1)
 
 
 	def isStable(self):
-- 
2.43.0


From 21f613e47457ae9928cd6d6f581c51fe1a758e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 35/72] fix: MPFMatrix keeps the shape of an empty numpy array

---
 fixif/func_aux/MPFMatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index a0b49c3..60d49ad 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -55,7 +55,7 @@ class MPFMatrix(object):
 		"""
 
 		if isinstance(M, numpy.ndarray):
-			self._M = mpmath.matrix(M)
+			self._M = mpmath.matrix(M) if M.size else mpmath.zeros(*M.shape)		# (the shape of an empty array would be lost)
 		elif isinstance(M, mpmath.matrix):
 			self._M = M.copy()
 		elif isinstance(M, numpy.matrix):
-- 
2.43.0


From 5a52150b644b5381e3d03412e0d0d46e136bc455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 36/72] fix: State_Space accepts filters when its default form
 is used

---
 fixif/Structures/State_Space/State_Space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/State_Space/State_Space.py b/fixif/Structures/State_Space/State_Space.py
index ccdded9..0709439 100644
--- a/fixif/Structures/State_Space/State_Space.py
+++ b/fixif/Structures/State_Space/State_Space.py
@@ -46,7 +46,7 @@ def makeSS(filt, form=None):
 	return {"JtoS": JtoS}
 
 
-def acceptSS(filt, form):
+def acceptSS(filt, form=None):
 	"""
 	The forms 'ctrl' and 'obs' cannot be applied to MIMO filters
 	'balanced' form is for stable filter
-- 
2.43.0


From 14d8dcca243286459ae437d2c402cd2a6851498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 37/72] fix: a refused assignment of J or Z leaves the SIF
 unchanged

---
 fixif/SIF/SIF.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index ad07717..1824a12 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -317,8 +317,9 @@ class SIF(SIF_sensibility):
 		mymat = np.matrix(mymat, dtype=float)
 		if mymat.shape != self._Z.shape:
 			raise ValueError("Z should be a %dx%d matrix" % self._Z.shape)
+		# (nothing is changed when J is singular)
+		self._invJ = inv(-mymat[0: self._l, 0: self._l])
 		self._Z = mymat
-		self._invJ = inv(self.J)
 		self._build_fromZ()
 
 	@dZ.setter
@@ -415,8 +416,12 @@ class SIF(SIF_sensibility):
 	# TODO: is it really useful ?
 	@J.setter
 	def J(self, mymat):
+		# (nothing is changed when J is singular or not of the right size)
+		invJ = inv(mymat)
+		if invJ.shape != (self._l, self._l):
+			raise ValueError("J should be a %dx%d matrix" % (self._l, self._l))
 		self._Z[0: self._l, 0: self._l] = - mymat
-		self._invJ = inv(mymat)
+		self._invJ = invJ
 		self._build_fromZ()
 
 	@K.setter
-- 
2.43.0


From 364067581c1cc7cf5a216588c30e92ffafb08963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 38/72] fix: random_Filter takes seed 0 into account

---
 fixif/LTI/Filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index b4445a3..9984f1e 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -233,7 +233,7 @@ def random_Filter(n=10, p=5, q=5, seed=None, name=None):
 		else:
 			raise ValueError("randomFilter: the string should be a valid string, ie be like 'RandomFilter-7/1/4-12345678'")
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 		name = 'RandomFilter-%d/%d/%d-%d' % (n, p, q, seed) 	# for example 'RandomFilter-(5,10)/(1,2)/(1,10)-12345678' for a MISO filter (#states between 5 and 10, #inputs between 1 and 10), seed=12345678)
 	else:
-- 
2.43.0


From 6be4c3e67ac20c2d07735f83bf954d23a5f5f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 39/72] fix: iter_random_Filter chooses a type for each filter

---
 fixif/LTI/Filter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index 9984f1e..58501a7 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -196,11 +196,10 @@ def iter_random_Filter(number, n=(5, 10), p=(1, 5), q=(1, 5), seeded=True, ftype
 	seeds = [randint(0, 1e9) if seeded else None for _ in range(number)]  # generate a particular seed for each random dSS, or None (if seeded is set to False)
 
 	for s in seeds:
-		if ftype not in pq.keys():
-			ftype = choice(list(pq.keys()))
+		ft = ftype if ftype in pq else choice(list(pq.keys()))
 		nn = randint(*n)
-		pp = randint(*pq[ftype][0])
-		qq = randint(*pq[ftype][1])
+		pp = randint(*pq[ft][0])
+		qq = randint(*pq[ft][1])
 		yield random_Filter(n=nn, p=pp, q=qq, seed=s)
 
 
-- 
2.43.0


From e6a4112564c732f068ee9f4283d03ab096b29cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 40/72] fix: random Butterworth and elliptic filters with seed
 0 or without seed

---
 fixif/LTI/Butter.py   | 4 ++--
 fixif/LTI/Elliptic.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 8862413..7151f96 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -88,7 +88,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -111,4 +111,4 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 	if onlyEven and order % 2 == 0:
 		order += 1
 
-	return Butter(order, W, form, name='Butterworth-random-%d' % seed)
+	return Butter(order, W, form, name='Butterworth-random' if seed is None else 'Butterworth-random-%d' % seed)
diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index b1243ca..fc5a677 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -99,7 +99,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -129,7 +129,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		if isinstance(W, list):
 			W = [quantify(W[0], quant), quantify(W[1], quant)]
 
-	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random-%d' % seed)
+	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random' if seed is None else 'Elliptic-random-%d' % seed)
 
 
 
-- 
2.43.0


From e3357695343bb7afa41cb978b67a86a0cc865bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 41/72] fix: random_Butter gives even orders (in the range)
 when asked for them

---
 fixif/LTI/Butter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 7151f96..bbf7942 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -107,8 +107,12 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		# choose 1 frequency
 		W = (Wc[1] - Wc[0]) * random_sample() + Wc[0]
 	# choose order
-	order = randint(*n)
-	if onlyEven and order % 2 == 0:
-		order += 1
+	if onlyEven:
+		evens = [o for o in range(*n) if o % 2 == 0]
+		if not evens:
+			raise ValueError("random_Butter: there is no even order in the range")
+		order = choice(evens)
+	else:
+		order = randint(*n)
 
 	return Butter(order, W, form, name='Butterworth-random' if seed is None else 'Butterworth-random-%d' % seed)
-- 
2.43.0


From dea9daf0e7bdba066233c6d54a9c0134e1a54980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 42/72] fix: random_Elliptic has default ripples that elliptic
 filters can have

---
 fixif/LTI/Elliptic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index fc5a677..310b482 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -84,7 +84,7 @@ def iter_random_Elliptic(number, n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8)
 
 
 
-def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=None, seed=None, quant=None):
+def random_Elliptic(n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=None, seed=None, quant=None):
 	"""
 	Generate a n-th order Butterworh filters
 	Parameters
-- 
2.43.0


From 58881316b450c15a17a86ad1ca87c0a23b949622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 43/72] fix: random_Gabarit takes seed 0 into account

---
 fixif/LTI/Gabarit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index eab4c55..1fcd6aa 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -224,7 +224,7 @@ class Gabarit(object):
 		self._seed = seed
 
 	def __str__(self):
-		seed = "Seed=%s\n" % (self._seed,) if self._seed else ""
+		seed = "Seed=%s\n" % (self._seed,) if self._seed is not None else ""
 		return "%sType: %s (Fs=%sHz)\n%s" % (seed, self.type, self._Fs, "\n".join(str(b) for b in self._bands))
 
 	@property
@@ -462,7 +462,7 @@ def random_Gabarit(form=None, seed=None):
 	- seed: if not None, indicates the seed to use for the random part (in order to be reproductible, the seed is stored in the name of the gabarit)
 	"""
 	# change the seed if asked (otherwise, set the seed)
-	if not seed:
+	if seed is None:
 		set_seed(None)  # (from doc):  If seed is omitted or None, current system time is used
 		seed = randint(0, 16777215)  # between 0 and 2^24-1
 	set_seed(seed)
-- 
2.43.0


From 88aa67cc5e814ccac81dbf708f56514bc1895b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 44/72] fix: random_dSS masks are drawn again when they are
 null, not when they are full

---
 fixif/LTI/dSS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 2854382..299d702 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -850,12 +850,12 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	# Make masks to zero out some of the elements.
 	while True:
 		Bmask = rand(n, q) < pBCmask
-		if not Bmask.all():  # Retry if we get all zeros.
+		if Bmask.any() or pBCmask <= 0:  # Retry if we get all zeros.
 			break
 
 	while True:
 		Cmask = rand(p, n) < pBCmask
-		if not Cmask.all():  # Retry if we get all zeros.
+		if Cmask.any() or pBCmask <= 0:  # Retry if we get all zeros.
 			break
 
 	if rand() < pDzero:
@@ -864,7 +864,7 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	else:
 		while True:
 			Dmask = rand(p, q) < pDmask
-			if not Dmask.all():  # Retry if we get all zeros.
+			if Dmask.any() or pDmask <= 0:  # Retry if we get all zeros.
 				break
 
 
-- 
2.43.0


From b6ad1474b0b7dd0c0a020d3973a876573af37005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 45/72] fix: random_dTF and random_dTFmp give the order asked
 for

---
 fixif/LTI/dTF.py   | 4 ++--
 fixif/LTI/dTFmp.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index bf9d6d0..4663bbc 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -287,8 +287,8 @@ def random_dTF(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = mat(rand(1, n))
-	den = mat(rand(1, n))
+	num = mat(rand(1, n + 1))
+	den = mat(rand(1, n + 1))
 	return dTF(num, den)
 
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 47a6056..54bf75e 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -201,8 +201,8 @@ def random_dTFmp(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = numpy.matrix(rand(1, n))
-	den = numpy.matrix(rand(1, n))
+	num = numpy.matrix(rand(1, n + 1))
+	den = numpy.matrix(rand(1, n + 1))
 	return dTFmp(num, den)
 
 
-- 
2.43.0


From bd660d7491b189ac6911fca53e4697b342c96b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 46/72] fix: iter_random_dSS accepts p=1 and q=1, as documented

---
 fixif/LTI/dSS.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 299d702..84d0c50 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -736,17 +736,16 @@ def iter_random_dSS(number, stable=True, n=(5, 10), p=(1, 5), q=(1, 5),
 
 
 	"""
+	# (p and q can be equal to 1)
+	p = (1, 2) if p == 1 else p
+	q = (1, 2) if q == 1 else q
 	for i in range(number):
 		if stable:
 			yield random_dSS(randint(*n), randint(*p), randint(*q), pRepeat, pReal, pBCmask, pDmask, pDzero)
 		else:
 			nn = randint(*n)
-			if p == 1 and q == 1:
-				pp = 1
-				qq = 1
-			else:
-				pp = randint(*p)
-				qq = randint(*q)
+			pp = randint(*p)
+			qq = randint(*q)
 			A = mat(rand(nn, nn))
 			B = mat(rand(nn, qq))
 			C = mat(rand(pp, nn))
-- 
2.43.0


From 6378d23d7e4dab8ffdd6c4df91bde19e32f3235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 47/72] fix: Simulink import: parallel paths between two blocks
 add up

The terms of an equation are kept per source block, and each new path
overwrote the previous one.
---
 fixif/Structures/Simulink/diagram.py | 38 +++++++++++-----------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 146698e..4b96720 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -220,24 +220,18 @@ class System(object):
 		for bsid in self.blocks.keys(): 
 			neweq = Equation(bsid)
 			# we list here all inputs blocks for a given block
-			neweq.termes = dict((block.sid, 1.0) for block in self.blocks[bsid].inlist.values()) # python2.6
+			curblock = self.blocks[bsid]
+
+			# we list here all inputs blocks for a given block, with their coefficients
+			# (the same block may feed several input ports: its coefficients add up)
+			for pi, bi in curblock.inlist.items():	# inlist = {porti:blocki} : block feeding the given input port
+				coeff = 1.0
+				if curblock.type == 'Gain':
+					coeff = curblock.gain
+				elif curblock.type == 'Sum' and curblock.inportsign[int(pi)-1] == '-':	# port number start on '1'
+					coeff = -1.0
+				neweq.termes[bi.sid] = neweq.termes.get(bi.sid, 0.0) + coeff
 
-			# for a gain block : give right coeff for all inputs
-			#  bi : input block / termes[bi]: bi coeff
-			if self.blocks[bsid].type == 'Gain': 
-				for bisid in neweq.termes.keys():
-					neweq.termes[bisid] = self.blocks[bsid].gain 
-			
-			# sum sign handling
-			# affect -1.0 to coeff if the sign corresponding to input block is '-'
-			if self.blocks[bsid].type == 'Sum':
-				curblock = self.blocks[bsid]
-				for pi in curblock.inlist.keys():
-					if curblock.inportsign[int(pi)-1] == '-': # port number start on '1'
-						bi = curblock.inlist[pi] # inlist = {porti:blocki} : block feeding the given input port 
-						neweq.termes[bi.sid] = 0 - 1.0 
-			
-				
 			if self.blocks[bsid].type != 'Inport':
 				equations.append(neweq)
 		return equations
@@ -254,14 +248,12 @@ class System(object):
 				for inp in list(eq.termes): # a copy of the dict key / dict is changing during iteration
 					inpb =  self.getblockbysid(inp)
 					inpcoeff = eq.termes[inp]
-					assert abs(inpcoeff) == 1.0 # Sum have no gain
-					if inpb.type == 'Sum' and len(inpb.outlist) == 1: # merge if it's not used somewhere else
+						if inpb.type == 'Sum' and len(inpb.outlist) == 1: # merge if it's not used somewhere else
 						# handle here sum sign propagation: coeff2*inpcoeff  
-						d = dict((inp2, coeff2*inpcoeff) for (inp2,coeff2) in self.getequation(inp).termes.items())
-						eq.termes.update(d)
-						del eq.termes[inp]
-
 						subequa = self.getequation(inp)
+						del eq.termes[inp]
+						for inp2, coeff2 in subequa.termes.items():
+							eq.termes[inp2] = eq.termes.get(inp2, 0.0) + coeff2*inpcoeff
 						self.equations.remove(subequa)
 
 
-- 
2.43.0


From f048b4020db6539ccb98f3427b29d6f3ac8e35da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 48/72] fix: Simulink import: merge cascaded sums of any length

The list of equations was modified while it was iterated, and only three
passes were done.
---
 fixif/Structures/Simulink/Simulink.py |  3 ---
 fixif/Structures/Simulink/diagram.py  | 34 ++++++++++++++-------------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/fixif/Structures/Simulink/Simulink.py b/fixif/Structures/Simulink/Simulink.py
index 3dcc0d4..5befe5b 100755
--- a/fixif/Structures/Simulink/Simulink.py
+++ b/fixif/Structures/Simulink/Simulink.py
@@ -58,9 +58,6 @@ def importSimulink(fileName, constants=None):
     mysys.printequations()
 
     # Call summerge() before expandeqgain()
-    # call it as much as there may be a cascaded Sum
-    mysys.summerge()
-    mysys.summerge()
     mysys.summerge()
     mysys.expandeqgain()  # put gain as Sum coeff
     print("\nFinal Equations")
diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 4b96720..83644e0 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -238,23 +238,25 @@ class System(object):
 
 	
 	def summerge(self):
-		"""To merge cascading 'Sum' Blocks
-			Must be called N times if there is N cascading addition"""
+		"""To merge cascading 'Sum' Blocks (whatever the number of cascading additions)"""
 		# Important : Must be called before expandeqgain : to detect only the direct connected Sum
-		# ( merge is handled in equations list) 
-		for eq in self.equations:
-			bout = self.getblockbysid(eq.out)
-			if bout.type == 'Sum':
-				for inp in list(eq.termes): # a copy of the dict key / dict is changing during iteration
-					inpb =  self.getblockbysid(inp)
-					inpcoeff = eq.termes[inp]
-						if inpb.type == 'Sum' and len(inpb.outlist) == 1: # merge if it's not used somewhere else
-						# handle here sum sign propagation: coeff2*inpcoeff  
-						subequa = self.getequation(inp)
-						del eq.termes[inp]
-						for inp2, coeff2 in subequa.termes.items():
-							eq.termes[inp2] = eq.termes.get(inp2, 0.0) + coeff2*inpcoeff
-						self.equations.remove(subequa)
+		# ( merge is handled in equations list)
+		for eq in list(self.equations):		# a copy, because the merged equations are removed from the list
+			if eq not in self.equations or self.getblockbysid(eq.out).type != 'Sum':
+				continue
+			# Sums to merge into this equation: those that are not used somewhere else
+			def mergeable():
+				return [inp for inp in eq.termes if self.getblockbysid(inp).type == 'Sum' and len(self.getblockbysid(inp).outlist) == 1 and inp != eq.out]
+			inps = mergeable()
+			while inps:
+				for inp in inps:
+					# handle here sum sign propagation: coeff2*inpcoeff
+					subequa = self.getequation(inp)
+					inpcoeff = eq.termes.pop(inp)
+					for inp2, coeff2 in subequa.termes.items():
+						eq.termes[inp2] = eq.termes.get(inp2, 0.0) + coeff2*inpcoeff
+					self.equations.remove(subequa)
+				inps = mergeable()
 
 
 	def expandeqgain(self):
-- 
2.43.0


From 4e894b425c76a19be2ca9a816a0d0a04f968484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 49/72] fix: Simulink import: expand the gains whatever they
 feed

The terms were modified while they were iterated (RuntimeError), two gains
fed by the same block overwrote each other, and cascaded gains were lost.
---
 fixif/Structures/Simulink/diagram.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 83644e0..4da9751 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -261,21 +261,16 @@ class System(object):
 
 	def expandeqgain(self):
 		"""Put gain as Sum coefficient"""
-		# It will act on  Sum bloc equation
-		# now, we assume there is no cascading gain block
-		# and gain will always be before Sum block
-		#
-		# ? keep cascading gain block : test if the current block is a sum
-		# 								and create also an inter var for upstream gain block
+		# It will act on all the equations
+		# the cascaded gains are multiplied
 		for eq in self.equations:
-			for eqin in eq.termes:
-				if self.blocks[eqin].type == 'Gain':
-					oldgain = eq.termes[eqin]	
-					del eq.termes[eqin] 
-
-					gaineq = self.getequation(eqin)
-					for gin in gaineq.termes:
-						eq.termes[gin] = gaineq.termes[gin] * oldgain
+			gains = [eqin for eqin in eq.termes if self.blocks[eqin].type == 'Gain']
+			while gains:
+				for eqin in gains:
+					oldgain = eq.termes.pop(eqin)
+					for gin, coeff in self.getequation(eqin).termes.items():
+						eq.termes[gin] = eq.termes.get(gin, 0.0) + coeff * oldgain
+				gains = [eqin for eqin in eq.termes if self.blocks[eqin].type == 'Gain']
 
 
 	def isequationused(self,eq): 
-- 
2.43.0


From 7f4f75f60e59878015f83085981f00bf84735d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 50/72] fix: Simulink import: refuse the algebraic loops

A sum fed by itself lost its feedback (the diagonal of J is overwritten),
longer loops ended with a NameError (sys is not imported in sif.py).
---
 fixif/Structures/Simulink/diagram.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 4da9751..3fc72e7 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -36,6 +36,7 @@ class System(object):
 		self.blocks, self.lines = self.parsesys(self.tree, self.syspath)
 		self.flattendesign() # eliminate subsys block box 
 		self.fillblocksiolist() # update in/out blocks list of all blocks
+		self.checkloops() # no algebraic loop
 		self.equations = self.buildequations() # build a simplified relationship of all blocks
 
 
@@ -211,6 +212,25 @@ class System(object):
 
 
 
+	def checkloops(self):
+		""" Check that there is no algebraic loop (each loop must contain a Delay)"""
+		marks = {}	# sid: 1 (being visited) or 2 (visited)
+
+		def visit(block):
+			if marks.get(block.sid) == 1:
+				raise ValueError("importSimulink: algebraic loop with the block " + str(block))
+			if block.sid not in marks:
+				marks[block.sid] = 1
+				if block.type != 'Delay':
+					for b in block.inlist.values():
+						visit(b)
+				marks[block.sid] = 2
+
+		for block in self.blocks.values():
+			visit(block)
+
+
+
 	def buildequations(self):
 		"""This function build a list of equations object.
 			Each "equation" contain for a given block SID its list of 
-- 
2.43.0


From 7a6c174abe461ddd1e0651d39a2c1e75c6ce9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 51/72] fix: Simulink import: inputs and outputs ordered by
 port number, outputs of any block

The outputs were the Sum (or Gain) blocks feeding an Outport, in the order of
the document: an Outport fed by a Delay or an Inport was lost, and a block
feeding two Outports or a Sum that is also used elsewhere could give a wrong
realization (outputs renamed while iterating).
---
 fixif/Structures/Simulink/diagram.py | 34 +++++-----------
 fixif/Structures/Simulink/sif.py     | 61 +---------------------------
 2 files changed, 12 insertions(+), 83 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 3fc72e7..1709db6 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -258,11 +258,11 @@ class System(object):
 
 	
 	def summerge(self):
-		"""To merge cascading 'Sum' Blocks (whatever the number of cascading additions)"""
+		"""To merge cascading 'Sum' Blocks, and the Sum that only feed an Outport (whatever the number of cascading additions)"""
 		# Important : Must be called before expandeqgain : to detect only the direct connected Sum
 		# ( merge is handled in equations list)
 		for eq in list(self.equations):		# a copy, because the merged equations are removed from the list
-			if eq not in self.equations or self.getblockbysid(eq.out).type != 'Sum':
+			if eq not in self.equations or self.getblockbysid(eq.out).type not in ('Sum', 'Outport'):
 				continue
 			# Sums to merge into this equation: those that are not used somewhere else
 			def mergeable():
@@ -333,22 +333,12 @@ class System(object):
 		return self.blocks[sid]
 
 	def getinblocks(self):
-	# return a list of all Inports blocks
-		inports = []
-		for sid in self.blocks.keys():
-			block = self.getblockbysid(sid)
-			if block.type == 'Inport':
-				inports.append(block)
-		return inports
-	
+	# return a list of all Inports blocks (in the order of the ports)
+		return sorted(self.getblocksbytype('Inport'), key=lambda block: int(block.port))
+
 	def getoutblocks(self):
-	# return a list of all Outports blocks
-		outports = []
-		for sid in self.blocks.keys():
-			block = self.getblockbysid(sid)
-			if block.type == 'Outport':
-				outports.append(block)
-		return outports
+	# return a list of all Outports blocks (in the order of the ports)
+		return sorted(self.getblocksbytype('Outport'), key=lambda block: int(block.port))
 
 	def getblocksbytype(self,type):
 	# return a list of blocks with a given type : 'Sum', 'Delay', ...
@@ -379,13 +369,9 @@ class System(object):
 		# there is no special operation in u and x : we can rely on blocks list 
 		u = [b.name for b in self.getinblocks()] 
 		x = [b.name for b in self.getblocksbytype('Delay')]
-		# t and y are modified so we rely on equation list ( this hold final result on block diag processing)
-		sum = [self.getblockbysid(teq.out) for teq in self.equations if self.getblockbysid(teq.out).type == 'Sum']
-		t = [bs.name for bs in sum if  bs.isoutblock() == False]
-		y = [bs.name for bs in sum if  bs.isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in self.equations if self.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  self.getblockbysid(s).isoutblock() == True]
+		y = [b.name for b in self.getoutblocks()]
+		# t is modified so we rely on equation list ( this hold final result on block diag processing)
+		t = [self.getblockbysid(teq.out).name for teq in self.equations if self.getblockbysid(teq.out).type == 'Sum']
 		return (u,x,t,y)
 
 	
diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 3dd2960..3422423 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -14,8 +14,6 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 
-from fixif.Structures.Simulink.diagram import Equation
-
 class Sif(object):
 	def __init__(self, l, m, n, p):
 		self.l = l # intermediary calculation variables number in the system
@@ -45,64 +43,9 @@ class Sif(object):
 		# /!\ Matrix element value placement depend on variables order
 		u = [u.sid for u in system.getinblocks()]
 		x = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Delay']
-		sum = [teq.out for teq in system.equations if system.getblockbysid(teq.out).type == 'Sum']
-		t = [s for s in sum if  system.getblockbysid(s).isoutblock() == False]
-		y = [s for s in sum if  system.getblockbysid(s).isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  system.getblockbysid(s).isoutblock() == True]
-
-		# TODO: dirty work, just for test, clean useless variables and computation
-		# for block labeling : type+sid
-		self.u = [system.getblockbysid(i).label for i in u]
-		self.x = [system.getblockbysid(i).label for i in x]
-		self.t = [system.getblockbysid(i).label for i in t]
-		self.y = ["y"+system.getblockbysid(i).label[1:] for i in y]
+		t = [teq.out for teq in system.equations if system.getblockbysid(teq.out).type == 'Sum']
+		y = [y.sid for y in system.getoutblocks()]
 
-		# ________________________________________________________
-		#
-		# patch if there is output in the termes of the equations
-		# blocks list
-		bsids = []
-		for block in system.blocks:
-			bsids.append(block)
-		# get a new free SID
-		def get_new_sid(sids):
-			nb = len(sids) + 2
-			for tsid in range(1,nb):
-				if tsid not in sids:
-					sid = tsid
-			sids.append(sid) #update local blocks list
-			return str(sid) 
-		# correct equations
-		for outb in y:
-			for eq in system.equations:
-				feedback = False
-				for block in eq.termes:
-					if block == outb:
-						feedback = True
-						break	
-				if feedback:
-					t.append(outb)
-					y.remove(outb)
-					new_out = get_new_sid(bsids)
-					#bsids.append(new_out) #update done in get_new_sid()
-					# add a new equation
-					neweq=Equation(new_out)
-					neweq.termes[outb] = 1.0
-					system.equations.append(neweq)
-					y.append(new_out)
-					#correct matrix size
-					self.l +=1
-					def mat( a, b):
-						m = [[0.0 for i in range(b)] for j in range(a) ]
-						return m
-					self.J = mat(self.l,self.l)
-					self.K = mat(self.n,self.l) 
-					self.L = mat(self.p,self.l)
-					self.M = mat(self.l,self.n)
-					self.N = mat(self.l,self.m)
-					break
 		# for block labeling : type+sid
 		self.u = ["u"+str(i) for i in u] #[system.getblockbysid(i).label for i in u]
 		self.x = ["x"+str(i) for i in x] #[system.getblockbysid(i).label for i in x]
-- 
2.43.0


From 27be2f740ab30b25a669a54a43c60756f4903cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 52/72] fix: Simulink import: diagrams without intermediate
 variable or without state

The empty matrices were given the size 1x0.
---
 fixif/Structures/Simulink/Simulink.py | 10 +++++++---
 fixif/Structures/Simulink/sif.py      |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fixif/Structures/Simulink/Simulink.py b/fixif/Structures/Simulink/Simulink.py
index 5befe5b..00750c3 100755
--- a/fixif/Structures/Simulink/Simulink.py
+++ b/fixif/Structures/Simulink/Simulink.py
@@ -83,10 +83,14 @@ def importSimulink(fileName, constants=None):
     print("inter t", t)
     print("output y", y)
 
+    def tomat(rows, r, c):
+        # r x c matrix from the list of its rows (that may be empty)
+        return mat(rows, dtype='float').reshape(r, c)
+
     return Realization(None,
-                       (mat(mysif.J, dtype='float'), mat(mysif.K, dtype='float'), mat(mysif.L, dtype='float'),
-                        mat(mysif.M, dtype='float'), mat(mysif.N, dtype='float'), mat(mysif.P, dtype='float'),
-                        mat(mysif.Q, dtype='float'), mat(mysif.R, dtype='float'), mat(mysif.S, dtype='float')),
+                       (tomat(mysif.J, l, l), tomat(mysif.K, n, l), tomat(mysif.L, p, l),
+                        tomat(mysif.M, l, n), tomat(mysif.N, l, m), tomat(mysif.P, n, n),
+                        tomat(mysif.Q, n, m), tomat(mysif.R, p, n), tomat(mysif.S, p, m)),
                        structureName='Simulink (%s)' % fileName)
 
 # TODO
diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 3422423..9632b71 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -77,7 +77,7 @@ class Sif(object):
 			elif eq.out in t: # intermediate eq
 				for block,coeff in eq.termes.items() : # scan current equation inputs
 					if block in t:
-						self.J[t.index(eq.out)] [t.index(block)] = str(0-coeff)
+						self.J[t.index(eq.out)] [t.index(block)] = 0-coeff
 					elif block in x:
 						self.M[t.index(eq.out)] [x.index(block)] = coeff
 					elif block in u:
-- 
2.43.0


From 392db95b03514340630300f3024da435121c4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 53/72] fix: Simulink import: flatten nested subsystems and
 subsystem outputs that are also used inside

The variables found for one port leaked to the next one (inport connected to
several blocks, outport fed by a block of a nested subsystem, signal going
straight through a subsystem...).
---
 fixif/Structures/Simulink/diagram.py | 111 ++++++---------------------
 1 file changed, 25 insertions(+), 86 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 1709db6..2a3a0ab 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -100,97 +100,36 @@ class System(object):
 		for subsys in [ b for b in self.blocks.values() if b.type == 'SubSystem']:
 			i += 1
 			print("subsys : ",i , subsys)
-			# Subsystem input shortcuting
-			for port in range(1, subsys.inports+1):
-				# Search block feeding SubSystem
+			# the lines connected to the subsystem box are connected to its Inport and Outport blocks
+			for inner in subsys.ioconnex:
+				print(inner)
 				for line in self.lines:
-					if line.dstsid == subsys.sid and line.dstport == str(port):
-						sblock = line.srcsid
-						sport = line.srcport
-						inputline = line
-						print("-- inport --")
-						print(line)
-						break
-			
-				# check existence of inputline ( inport connection)	
-				try: 
-					inputline
-				except NameError:
-					print("error - SubSystem : Inport not connected")
-					sys.exit()
-
-				# Search in Subsystem connection
-				for line in subsys.ioconnex:
-					if line.srcsid == subsys.sid and line.srcport == str(port):
-						iblock = line.dstsid
-						iport = line.dstport
-						inportline = line
-						print(line)
-						break
-				
-				try:
-					inportline
-				except NameError:
-					print("error - SubSystem : internal connection")
-					sys.exit()
-
-				# Search connected blocks in Subsystem and remake connection
-				# (put in a try except block)
-				for line in [l for l in self.lines if l.srcsid == iblock and l.srcport == iport]:
-					line.srcsid = sblock	
-					line.srcport = sport
-
-				# Clean 2 useless lines and 1 block for each port
-				self.lines.remove(inputline)	
-				subsys.ioconnex.remove(inportline)
-				del self.blocks[iblock]	
-
-			# SubSystem Output shortcuting
-			for port in range(1, subsys.outports+1):
-				# Search line connected to outport in Subsystem
-				for line in subsys.ioconnex:
-					if line.dstsid == subsys.sid and line.dstport == str(port):
-						oblock = line.srcsid
-						oport = line.srcport
-						outportline = line
-						print("-- ouport --")
-						print(line)
-						break
-
-				try:
-					outportline
-				except NameError:
-					print("error- SubSystem : internal connection")
-					sys.exit()
-
-				# Search block feeding the outport
+					if inner.srcsid == subsys.sid and line.dstsid == subsys.sid and line.dstport == inner.srcport:
+						line.dstsid = inner.dstsid
+						line.dstport = inner.dstport
+						break	# only one line feeds a port
 				for line in self.lines:
-					if line.dstsid == oblock and line.dstport == str(oport):
-						sblock = line.srcsid
-						sport = line.srcport
-						sline = line
-						print(line)
-						break
-
-				try:		
-					sline
-				except NameError:
-					print("error - Subsystem : Ouport not connected")
-
-				# Search connected blocks in Subsystem
-				# ( put in a try except block)
-				for line in [l for l in self.lines if l.srcsid == subsys.sid and l.srcport == str(port)]:
-					line.srcsid = sblock	
-					line.srcport = sport
-
-				# Clean 2 useless lines for each port
-				self.lines.remove(sline)	
-				subsys.ioconnex.remove(outportline)
-				del self.blocks[oblock]
+					if inner.dstsid == subsys.sid and line.srcsid == subsys.sid and line.srcport == inner.dstport:
+						line.srcsid = inner.srcsid
+						line.srcport = inner.srcport
 
 			# delete Subsystem block from blocks list
 			del self.blocks[subsys.sid]
-	
+
+			# then the Inport and Outport blocks of the subsystem are shortcut
+			for inner in subsys.ioconnex:
+				sid = inner.dstsid if inner.srcsid == subsys.sid else inner.srcsid
+				feeding = [l for l in self.lines if l.dstsid == sid]
+				if not feeding:
+					print("error - SubSystem : port not connected")
+					sys.exit()
+				for line in [l for l in self.lines if l.srcsid == sid]:
+					line.srcsid = feeding[0].srcsid
+					line.srcport = feeding[0].srcport
+				# Clean useless line and block
+				self.lines.remove(feeding[0])
+				del self.blocks[sid]
+
 		# Check subsys variable existence
 		try:
 			subsys
-- 
2.43.0


From 3359822c5850535adb1337ce81ca93e3c9d8c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 54/72] fix: Simulink import: parameters left to their default
 value

The parameters that are not given in a block are those of
BlockParameterDefaults (as the TODO said); a Sum without Inputs raised
UnboundLocalError. A line without source took the one of the previous line.
---
 fixif/Structures/Simulink/blocks.py  |  3 ++-
 fixif/Structures/Simulink/diagram.py | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/fixif/Structures/Simulink/blocks.py b/fixif/Structures/Simulink/blocks.py
index 8cc2c95..94df84b 100644
--- a/fixif/Structures/Simulink/blocks.py
+++ b/fixif/Structures/Simulink/blocks.py
@@ -99,6 +99,7 @@ class Sum(Block):
 				self.outports = int(iochar[2])
 
 		# parse input sign string
+		signtext = "++"
 		for p in bel.findall("P"):
 			if p.get("Name") == "Inputs":
 				signtext = p.text # |++ -> 1st:+ / 2nd:+
@@ -217,7 +218,7 @@ class Line(object):
 		return b[0]		
 
 	def getportnum(self, str):
-		port = str.partition(':')
+		port = str.rpartition(':')
 		return port[2]
 	
 	def __str__(self):
diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 2a3a0ab..4b7857a 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -13,6 +13,7 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 import sys
+from copy import deepcopy
 from lxml import etree
 from fixif.Structures.Simulink.blocks import *
 
@@ -56,9 +57,18 @@ class System(object):
 			blockels = mysys.iter("Block") 
 			lineels = mysys.iter("Line")
 
+		# parameters given by default to the blocks (for each type)
+		defaults = {}
+		for b in etree.xpath("/ModelInformation/Model/BlockParameterDefaults/Block"):
+			defaults[b.get("BlockType")] = b.findall("P")
+
 		## Fill blocks dict
 		for b in blockels:
 			blocktype = b.get("BlockType")
+			names = [p.get("Name") for p in b.findall("P")]
+			for p in defaults.get(blocktype, []):
+				if p.get("Name") not in names:
+					b.append(deepcopy(p))
 			try:
 				if blocktype=='Gain':
 					newblock = blockclass[blocktype](b,self.constants)
@@ -72,7 +82,8 @@ class System(object):
 		## Fill lines list
 		for l in lineels:
 			# find all children 'P' tag
-			# there must be only one 'Src
+			# there must be only one 'Src (none if the line is not connected)
+			srctext = None
 			for p in  l.findall("P"):  
 				if p.get("Name") == "Src": 
 					srctext = p.text
@@ -80,7 +91,7 @@ class System(object):
 			# find all 'P' tag recursively
 			# there can be more than one 'Dst'
 			for p in l.iter("P"):  
-				if p.get("Name") == "Dst": 
+				if p.get("Name") == "Dst" and srctext is not None:
 					dsttext = p.text
 					newline = Line(srctext, dsttext)
 					lines.append(newline)
-- 
2.43.0


From fca521aa0821435ec4916a7c24dae5cdff509982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 55/72] fix: Simulink import: delays longer than one sample

The length of the Delay blocks was read, but not used.
---
 fixif/Structures/Simulink/diagram.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 4b7857a..67b4ee5 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -13,7 +13,7 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 import sys
-from copy import deepcopy
+from copy import copy, deepcopy
 from lxml import etree
 from fixif.Structures.Simulink.blocks import *
 
@@ -36,6 +36,7 @@ class System(object):
 		# For the given system model, build blocks and lines list
 		self.blocks, self.lines = self.parsesys(self.tree, self.syspath)
 		self.flattendesign() # eliminate subsys block box 
+		self.splitdelays() # only unit delays
 		self.fillblocksiolist() # update in/out blocks list of all blocks
 		self.checkloops() # no algebraic loop
 		self.equations = self.buildequations() # build a simplified relationship of all blocks
@@ -151,6 +152,25 @@ class System(object):
 
 
 
+	def splitdelays(self):
+		""" Replace each Delay block of length n by n unit Delay blocks"""
+		for block in self.getblocksbytype('Delay'):
+			first = block.sid
+			for i in range(1, block.delay):
+				# new Delay block before the existing ones
+				unit = copy(block)
+				unit.sid = block.sid + '_' + str(i)
+				unit.label = block.label + '_' + str(i)
+				unit.inlist, unit.outlist = {}, []
+				self.blocks[unit.sid] = unit
+				for line in self.lines:
+					if line.dstsid == first:
+						line.dstsid = unit.sid
+				self.lines.append(Line(unit.sid + "#out:1", first + "#in:1"))
+				first = unit.sid
+
+
+
 	def fillblocksiolist(self):
 		""" Update blocks inlist and outlist attribute : linked blocks
 			inlist : list (dict) of all blocks connected to input ports
-- 
2.43.0


From 7f5517fc694bade1cc9ea43fd2030658fd7b1802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 56/72] fix: Band: subtract a gain from a stop gain of 0 dB

A stop gain equal to 0 was taken for a pass band (its gain was lost).
---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 1fcd6aa..19067a2 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -102,7 +102,7 @@ class Band(object):
 	def __sub__(self, other):
 		"""Substract a Band and a Gain"""
 		try:
-			stopGain = self._stopGain-other if self._stopGain else None
+			stopGain = self._stopGain-other if self._stopGain is not None else None
 			passGains = (self._passGains[0]-other, self._passGains[1]-other) if self._passGains else None
 		except Exception:
 			raise ValueError("The gain should be a constant")
-- 
2.43.0


From 19193dce14ce4523e00c403bf768a4c4d9b6cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 57/72] fix: Gabarit.to_dTF: compare the gains of the two pass
 bands of a bandstop

The first one was compared with itself, and the gain of the second was ignored.
---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 19067a2..0e59c30 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -314,7 +314,7 @@ class Gabarit(object):
 			pass1b, stopb, pass2b = bands
 			matlabParams = [pass1b.w2, stopb.w1, stopb.w2, pass2b.w1, -pass1b.passGains[0], -stopb.stopGain, -pass2b.passGains[0]]
 			scipyParams = [[pass1b.w2, pass2b.w1], [stopb.w1, stopb.w2], -pass1b.passGains[0], -stopb.stopGain]
-			if not matlabEng and pass1b.passGains[0] != pass1b.passGains[0]:
+			if not matlabEng and pass1b.passGains[0] != pass2b.passGains[0]:
 					raise ValueError("Scipy cannot handle bandstop when the two pass bands have different gains")
 
 
-- 
2.43.0


From b4425e241da48a50c0add308d93adba27933a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 58/72] fix: optimalUniformWL and optimalWL call
 computeNaiveMSB

_computeNaiveMSB does not exist (AttributeError).
---
 fixif/SIF/Realization_FxP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index d3b08ee..8b4e23c 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -115,7 +115,7 @@ class R_FxP:
 			return d
 
 		# determining the MSB and w_tilde
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
@@ -150,7 +150,7 @@ class R_FxP:
 		wmax = wmax * ones((self.l + self.n + self.p, 1))
 
 		# determining the MSB
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
-- 
2.43.0


From 2e4bbb81e2ca8ce632442730911fb8aeacc985e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 59/72] fix: optimalUniformWL and optimalWL with negative MSB

Integers to negative integer powers are not allowed by numpy.
---
 fixif/SIF/Realization_FxP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 8b4e23c..1de3561 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -120,7 +120,7 @@ class R_FxP:
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2., m_tilde.transpose())))
 
 		# determining the minimal word-length with uniform scheme
 		w_guess = int(max(ceil(log2(E * ones((self.l + self.n + self.p, 1))) - log2(eps)))[0, 0])
@@ -155,7 +155,7 @@ class R_FxP:
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2., m_tilde.transpose())))
 
 		# generate the .dat file
 		AMPLcode = {
-- 
2.43.0


From 9589773d7c763870eb4ca7a2f159760ff7c0a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 60/72] fix: threshold of the word-lengths when zeta_bar is a
 power of 2

_w_tilde raised OverflowError instead of giving +Inf (as the TODO said).
---
 fixif/SIF/Realization_FxP.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 1de3561..7c01a05 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -13,7 +13,7 @@ __status__ = "Beta"
 from os import path
 import mpmath
 from numpy import zeros, ones, matrix, power, ndenumerate, kron, multiply, nditer
-from numpy import floor, log2, ceil, bmat, inf
+from numpy import floor, log2, ceil, bmat, inf, isinf, where
 from string import Template
 
 from fixif.config import SIF_TEMPLATES_PATH
@@ -86,12 +86,17 @@ class R_FxP:
 
 		We use:  w_tilde = 1 + ceil(log2(zeta_bar)) - floor(log2( 2^ceil(log2(zeta_bar)) - zeta_bar ))
 		with zeta_bar = <<Hzeta>>.u_bar
+		(it is +Inf when zeta_bar is a power of 2)
 		"""
-		#TODO: test if zeta_bar is a power of 2 (should be +Inf in that case)
 		zeta_bar = self.Hzeta.WCPG() * u_bar
 
+		def threshold(zeta):
+			m = mpmath.ceil(mpmath.log(zeta, 2))
+			gap = mpmath.power(2, m) - zeta
+			return int(1 + m - mpmath.floor(mpmath.log(gap, 2))) if gap > 0 else inf
+
 		with mpmath.workprec(500):  # TODO: compute how many bit we need !!
-			wtilde = [int(1+mpmath.ceil(mpmath.log(x[0], 2)) - mpmath.floor(mpmath.log(mpmath.power(2, mpmath.ceil(mpmath.log(x[0], 2))) - x[0], 2))) for x in zeta_bar.tolist()]
+			wtilde = [threshold(x[0]) for x in zeta_bar.tolist()]
 
 		return wtilde
 
@@ -164,7 +169,7 @@ class R_FxP:
 			'def_u': generateAMPLParam('u', wmax, "%d"),
 			'def_E': generateAMPLParam('E', E),
 			'def_eps': generateAMPLParam('eps', eps),
-			'def_wtilde': generateAMPLParam('wtilde', w_tilde, "%d")}
+			'def_wtilde': generateAMPLParam('wtilde', where(isinf(w_tilde), wmax + 1, w_tilde), "%d")}
 
 		# generate the xmpl.dat file
 		with open(SIF_TEMPLATES_PATH + "xmpl.dat.template") as f:
-- 
2.43.0


From 4a4077a00d91af75701d7889c6a8274c3574d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 61/72] fix: optimalUniformWL when the error bound is met with
 equality

When the error without the overflow bits is equal to eps and the overflow
bits are still needed with one bit more, w_guess+1 is not enough.
---
 fixif/SIF/Realization_FxP.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 7c01a05..b9f4030 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -129,7 +129,17 @@ class R_FxP:
 
 		# determining the minimal word-length with uniform scheme
 		w_guess = int(max(ceil(log2(E * ones((self.l + self.n + self.p, 1))) - log2(eps)))[0, 0])
-		return w_guess if all(E * power(2, -w_guess + delta(w_guess * ones((self.l + self.n + self.p, 1)))) < eps) else w_guess + 1
+
+		def isEnough(w):
+			"""is the error less than eps with the word-length w ?"""
+			return all(E * power(2, -w + delta(w * ones((self.l + self.n + self.p, 1)))) < eps)
+
+		# w_guess may be one or two bits away
+		while not isEnough(w_guess):
+			w_guess += 1
+		while isEnough(w_guess - 1):
+			w_guess -= 1
+		return w_guess
 
 
 	def optimalWL(self, u_bar, eps, AMPLfilename='xmpl.dat', AMPLpath='.', wmax=64):
-- 
2.43.0


From 1cee3dd454b43417008bf2493489b07fce77f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 62/72] fix: data of the optimization problem written for AMPL

The indices of a row vector were all 1, and the numbers were written with 6
decimals (a bound of 1e-8 became 0).
---
 fixif/SIF/Realization_FxP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index b9f4030..d254c9c 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -19,7 +19,7 @@ from string import Template
 from fixif.config import SIF_TEMPLATES_PATH
 
 # functions to define some parameters in a AMPL .dat file
-def generateAMPLParam(name, val, format="%f"):
+def generateAMPLParam(name, val, format="%.17g"):
 	"""generate AMPL code for the data of a given parameter
 	Parameters:
 		- name: name of the parameter
@@ -31,7 +31,7 @@ def generateAMPLParam(name, val, format="%f"):
 		return "param %s := %d;" % (name, val)
 	if val.shape[0] == 1 or val.shape[1] == 1:
 		# 1d vector
-		return "param %s := \n%s;" % (name, "\n".join(("%d "+format) % (i[0]+1, wm) for i, wm in ndenumerate(val)))
+		return "param %s := \n%s;" % (name, "\n".join(("%d "+format) % (max(i)+1, wm) for i, wm in ndenumerate(val)))
 	else:
 		# 2d array
 		col = " ".join(str(x+1) for x in range(val.shape[1]))
-- 
2.43.0


From 6c0f7f4c5502328f7c09a39b19697e59ce8f1b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 63/72] fix: SIF.generate_inputs gives the inputs of the
 largest output

The first column was D instead of a bounded input, B.A^(N-i).C has wrong
dimensions (ValueError as soon as n > 1) and is not the impulse response, and
a row u_bar was not transposed.
---
 fixif/SIF/SIF.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 1824a12..4c89dcf 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -552,7 +552,7 @@ class SIF(SIF_sensibility):
 		such that the output is the largest possible for u \in [-u_bar; u_bar] .
 		For this,
 
-		u[i] = u_bar * sign( h(N - i) ),
+		u[i] = u_bar * sign( h(N - 1 - i) ),
 
 		where h(k) is the filter's impulse response.
 
@@ -571,16 +571,18 @@ class SIF(SIF_sensibility):
 		"""
 
 		u_bar = np.matrix(u_bar)
-		if u_bar.shape != (self._dSS.q, 1):
-			if u_bar.shape == (1, self._dSS.q):
-				u_bar.transpose()
+		if u_bar.shape != (self._q, 1):
+			if u_bar.shape == (1, self._q):
+				u_bar = u_bar.transpose()
 			else:
 				raise ValueError('Cannot generate inputs: u_bar is of incorrect size')
 
-		u = np.matrix(np.zeros([self._dSS.q, N]))
-		u[:, 0] = self.dSS.D
-		for i in range(1, N):
-			u[:, i] = u_bar * np.sign(self.dSS.B * (self.dSS.A ** (N - i)) * self.dSS.C)		# TODO: ugly A**(N-i) !!
+		# h(0) = D and h(k) = C.A^(k-1).B
+		u = np.matrix(np.zeros([self._q, N]))
+		h, CAk = self.DZ, self.CZ
+		for k in range(N):
+			u[:, N - 1 - k] = np.multiply(u_bar, np.sign(h).transpose())
+			h, CAk = CAk * self.BZ, CAk * self.AZ
 		return u
 
 
-- 
2.43.0


From 51d592a48df0a1ec453a279c927321e41bac8eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 64/72] fix: sensitivities with respect to the coefficients of
 Z

The columns of Z multiply (t, x, u), not (t, x(k+1), y) whose matrices are
_N1 and _N2 (IndexError or ValueError when p and q differ, wrong values
otherwise).
---
 fixif/SIF/SIF_sensibility.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/SIF_sensibility.py b/fixif/SIF/SIF_sensibility.py
index 17a94ca..c40238e 100644
--- a/fixif/SIF/SIF_sensibility.py
+++ b/fixif/SIF/SIF_sensibility.py
@@ -10,7 +10,7 @@ __status__ = "Beta"
 
 
 from fixif.LTI import dSS
-from numpy import zeros, matrix as mat, multiply, conj, transpose, real, diag
+from numpy import zeros, eye, r_, matrix as mat, multiply, conj, transpose, real, diag
 from numpy.linalg import norm, eig, inv
 
 
@@ -112,13 +112,22 @@ class SIF_sensibility:
 	This class adds methods to compute the sensibility (wrt Z)
 	"""
 
+	def _variables(self):
+		"""Returns the matrices N1 and N2 such that the variables multiplied by
+		the columns of Z are (t(k+1), x(k), u(k)) = N1.x(k) + N2.u(k)
+		"""
+		return (r_[self._invJ * self.M, eye(self._n), zeros((self._q, self._n))],
+			r_[self._invJ * self.N, zeros((self._n, self._q)), eye(self._q)])
+
+
 	def dTFsensitivity(self):
 		"""Compute the transfer function sensitivity measure and matrix
 		Returns
 			- M: tf sensitivity measure
 			- MX: tf sensitivity matrix
 		"""
-		return _w_norm_prod(dSS(self.AZ, self._M1, self.CZ, self._M2), dSS(self.AZ, self.BZ, self._N1, self._N2), self.dZ)
+		N1, N2 = self._variables()
+		return _w_norm_prod(dSS(self.AZ, self._M1, self.CZ, self._M2), dSS(self.AZ, self.BZ, N1, N2), self.dZ)
 		#TODO: check if the object is a controller, and use M1bar, M2bar, N1bar and N2bar instead of M1, M2, N1 and N2
 
 
@@ -132,7 +141,7 @@ class SIF_sensibility:
 			- MXk: pole sensitivity matrices for each pole
 		"""
 
-		dlambda_dZ, dlk_dZ = deigdZ(self.AZ, self._M1, self._N1, self.Z.shape, moduli)
+		dlambda_dZ, dlk_dZ = deigdZ(self.AZ, self._M1, self._variables()[0], self.Z.shape, moduli)
 
 		#TODO: check if the object is a controller, and then
 		# Abar, Bbar, Cbar, Dbar, M1bar, M2bar, N1bar, N2bar = calc_plantSIF(R, plant)
-- 
2.43.0


From c62f57ed599f5a0ad0197baddf1ecc5f4ed2c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 65/72] fix: sensitivity of complex poles

The imaginary part of the derivatives was lost.
---
 fixif/SIF/SIF_sensibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF_sensibility.py b/fixif/SIF/SIF_sensibility.py
index c40238e..ed6b3ca 100644
--- a/fixif/SIF/SIF_sensibility.py
+++ b/fixif/SIF/SIF_sensibility.py
@@ -75,7 +75,7 @@ def deigdZ(A, M1, M2, shapeZ, moduli=True):
 	mylambda = mat(conj(mylambda))
 
 	# sensitivity matrix
-	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]))  #  numpy does not know about hypermatrixes
+	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]), dtype=float if moduli else Mx.dtype)  #  numpy does not know about hypermatrixes
 
 	for k in range(0, mylambda.shape[1]):
 		if moduli == 1:
-- 
2.43.0


From 570b33e5ea9d64b8d719648aaf14b45bc370c560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 66/72] fix: H2 norm of a null system

It was nan when the rounding errors give a negative trace.
---
 fixif/LTI/dSS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 84d0c50..c88041e 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -18,7 +18,7 @@ __status__ = "Beta"
 from copy import copy
 from numpy import empty, float64, identity, dot, array
 from numpy import matrix as mat, set_printoptions
-from numpy import eye, zeros, r_, c_, sqrt
+from numpy import eye, zeros, r_, c_, sqrt, maximum
 from numpy.linalg import inv, solve, norm
 from numpy.linalg.linalg import LinAlgError
 from scipy.linalg import solve_discrete_lyapunov
@@ -341,11 +341,11 @@ class dSS(object):
 		try:
 			# less errors when Wc is big and Wo is small
 			M = self._C * self.Wc * self._C.transpose() + self._D * self._D.transpose()
-			self._H2norm = sqrt(M.trace())[0,0]
+			self._H2norm = sqrt(maximum(M.trace(), 0))[0,0]	# the trace may be slightly negative when the norm is 0
 		except ValueError:  # TODO: check what kind of exception we need to catch here
 			try:
 				M = self._B.transpose() * self.Wo * self._B + self._D * self._D.transpose()
-				self._H2norm = sqrt(M.trace())[0,0]
+				self._H2norm = sqrt(maximum(M.trace(), 0))[0,0]	# the trace may be slightly negative when the norm is 0
 			except ValueError:
 				raise ValueError("dSS: h2-norm : Impossible to compute M. Default value is 'inf'")
 
-- 
2.43.0


From 126d097898f279c5550375930b02f1262e4b497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 67/72] fix: random Butterworth/elliptic filters: no endless
 loop when the range of W2 ends inside the one of W1

---
 fixif/LTI/Butter.py   | 2 +-
 fixif/LTI/Elliptic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index bbf7942..2b0fbd7 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -98,7 +98,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		# choose 2 frequencies
 		if W2[1] <= W1[0]:
 			raise ValueError("iter_random_Butter: W1 should be lower than W2")
-		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
+		Wn1 = (min(W1[1], W2[1]) - W1[0]) * random_sample() + W1[0]		# (Wn2 is greater)
 		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		while Wn2 <= Wn1:
 			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index 310b482..60b9856 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -109,7 +109,7 @@ def random_Elliptic(n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8), W1=(0.1, 0.
 		# choose 2 frequencies
 		if W2[1] <= W1[0]:
 			raise ValueError("iter_random_Elliptic: W1 should be lower than W2")
-		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
+		Wn1 = (min(W1[1], W2[1]) - W1[0]) * random_sample() + W1[0]		# (Wn2 is greater)
 		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		while Wn2 <= Wn1:
 			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
-- 
2.43.0


From 084b1d0e1af7878ad926d2c551209df9c7e48814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 68/72] fix: getZtpmatrixLaTeX: the empty first row has as many
 columns as the others

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 4c89dcf..1112930 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -733,7 +733,7 @@ class SIF(SIF_sensibility):
 		the null element are not shown when sparse=True
 		"""
 		l, n, p, q = self.size
-		code = [] if l > 0 else [r"\&" * (l + n + p) + r"\\" + "\n"]
+		code = [] if l > 0 else [r"\&" * (l + n + q) + r"\\" + "\n"]
 		for i in range(l+n+p):
 			line = [] if l>0 else [""]
 			for j in range(l+n+q):
-- 
2.43.0


From f85971ff7b133dd2dfe75928bc2a2e048bfb1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 69/72] fix: singular Lyapunov equations raise LinAlgError

---
 fixif/LTI/dSS.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index c88041e..1e9a0fd 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -208,13 +208,7 @@ class dSS(object):
 				self._Wo = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wo: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				raise LinAlgError("dSS: Wo: scipy Linalg failed to solve the Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
@@ -284,13 +278,7 @@ class dSS(object):
 				self._Wc = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wc: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				raise LinAlgError("dSS: Wc: scipy Linalg failed to solve the Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
-- 
2.43.0


From a69299d70b8a5b7d693e36b0ba6aab9ce3eb7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 70/72] fix: the H2 norm of an unstable system is not 0

Only a negligible negative trace comes from the rounding errors of a null norm.
---
 fixif/LTI/dSS.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 1e9a0fd..a41cdd1 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -18,7 +18,7 @@ __status__ = "Beta"
 from copy import copy
 from numpy import empty, float64, identity, dot, array
 from numpy import matrix as mat, set_printoptions
-from numpy import eye, zeros, r_, c_, sqrt, maximum
+from numpy import eye, zeros, r_, c_, sqrt
 from numpy.linalg import inv, solve, norm
 from numpy.linalg.linalg import LinAlgError
 from scipy.linalg import solve_discrete_lyapunov
@@ -329,14 +329,18 @@ class dSS(object):
 		try:
 			# less errors when Wc is big and Wo is small
 			M = self._C * self.Wc * self._C.transpose() + self._D * self._D.transpose()
-			self._H2norm = sqrt(maximum(M.trace(), 0))[0,0]	# the trace may be slightly negative when the norm is 0
+			eps = 1e-10 * norm(self._C)**2 * norm(self.Wc)
 		except ValueError:  # TODO: check what kind of exception we need to catch here
 			try:
 				M = self._B.transpose() * self.Wo * self._B + self._D * self._D.transpose()
-				self._H2norm = sqrt(maximum(M.trace(), 0))[0,0]	# the trace may be slightly negative when the norm is 0
+				eps = 1e-10 * norm(self._B)**2 * norm(self.Wo)
 			except ValueError:
 				raise ValueError("dSS: h2-norm : Impossible to compute M. Default value is 'inf'")
 
+		# the trace may be slightly negative when the norm is 0
+		trace = M.trace()[0,0]
+		self._H2norm = sqrt(0. if -eps < trace < 0 else trace)
+
 		return self._H2norm
 
 
-- 
2.43.0


From e3e566fa7d9dae9afc3c906ca0b36d1497082ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 71/72] fix: dTF.to_dSS('obs') dropped the leading coefficients
 of the numerator lower than 1e-14

---
 fixif/LTI/dTF.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 4663bbc..fab24ea 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -21,7 +21,7 @@ from numpy import ndenumerate, array, linspace
 from numpy import matrix as mat, polyadd
 from numpy import convolve as polymul  # (numpy.polymul drops the leading zeros, that are the delays here)
 from numpy import diagflat, zeros, ones, r_, c_, atleast_2d, fliplr
-from scipy.signal import tf2ss, TransferFunction, dbode
+from scipy.signal import TransferFunction, dbode
 from scipy.linalg import norm
 
 
@@ -145,8 +145,6 @@ class dTF(object):
 			- form: controllable canonical form ('ctrl') or observable canonical form ('obs')
 
 		"""
-		# TODO: code it without scipy
-
 		from fixif.LTI import dSS
 		if form == 'ctrl' and self.order == 0:
 			# no state
@@ -158,8 +156,13 @@ class dTF(object):
 			C = mat(fliplr(self.num[0, 1:]) - fliplr(self.den[0, 1:])*self.num[0, 0])
 			D = mat(atleast_2d(self.num[0, 0]))
 		elif form == 'obs':
-			# TODO: to it manually!!
-			A, B, C, D = tf2ss(array(self.num)[0, :], array(self.den)[0, :])
+			# (scipy's tf2ss is not used here: it drops the leading coefficients of the numerator that are lower than 1e-14)
+			A = mat(diagflat(ones((1, max(self.order-1, 0))), 1))[0:self.order, 0:self.order]
+			A[:, 0:1] = -self.den[0, 1:].T
+			B = mat(self.num[0, 1:] - self.den[0, 1:]*self.num[0, 0]).T
+			C = mat(zeros((1, self.order)))
+			C[0, 0:1] = 1
+			D = mat(atleast_2d(self.num[0, 0]))
 		else:
 			raise ValueError('dTF.to_dSS: the form "%s" is invalid (must be "ctrl" or "obs")' % form)
 
-- 
2.43.0


From d831aadd8586b244e14e95eb001d99e1bb65d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 72/72] fix: dSS.to_dTF lost the numerator of the systems with
 small gains

---
 fixif/LTI/dSS.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index a41cdd1..fd82f89 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -563,8 +563,16 @@ class dSS(object):
 		if self._p != 1 or self._q != 1:
 			raise ValueError('dSS: the state-space must be SISO to be converted in transfer function')
 		from fixif.LTI import dTF
-		num, den = ss2tf(self._A, self._B, self._C, self._D)
-		return dTF(num[0], den)
+		den = ss2tf(self._A, self._B, self._C, self._D)[1]
+		# numerator: den * (D + CB z^-1 + CAB z^-2 + ...), whose terms follow the scale of the system
+		# (in ss2tf, poly(A-BC)-poly(A) loses the systems with small gains)
+		h = [self._D[0, 0]]
+		X = self._B
+		for _ in range(self._n):
+			h.append((self._C * X)[0, 0])
+			X = self._A * X
+		num = numpy.convolve(h, den)[0:self._n + 1]
+		return dTF(num, den)
 
 	def simplify(self):
 		"""
-- 
2.43.0

