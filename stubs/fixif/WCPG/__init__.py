# coding: utf-8
"""Reference stand-in for the `fixif.WCPG` distribution (not installable offline).

Worst-Case Peak Gain  <<H>> = |D| + sum_{k>=0} |C A^k B|   (element-wise, p x q)
Summed in extended doubles until a rigorous-enough geometric tail is below 1e-13 relative.
"""
import numpy as np

MAXITER = 400000


def WCPG_ABCD(A, B, C, D, output_info=None):
	A, B, C, D = [np.asarray(np.matrix(X), dtype=float) for X in (A, B, C, D)]
	W = np.abs(D).copy()
	n = A.shape[0]
	it = 0
	rho = 0.0
	if n > 0 and B.shape[1] > 0 and C.shape[0] > 0:
		rho = max(abs(np.linalg.eigvals(A)))
		# nilpotent matrices have numerically non-zero eigenvalues, but are < 1
		if rho >= 1:
			raise ValueError("WCPG: cannot compute WCPG (the system is not stable)")
		# transient growth of A^k has died out: smallest m with ||A^m|| < 1/2
		m, M = 1, A.copy()
		while np.linalg.norm(M, 2) > 0.5:
			M = M @ M
			m *= 2
			if m > MAXITER:
				raise ValueError("WCPG: cannot compute WCPG (too close to instability)")
		X = B.copy()
		while it < MAXITER:
			block = 0.0
			for _ in range(m):
				V = np.abs(C @ X)
				W += V
				block = max(block, np.max(np.abs(X)))
				X = A @ X
				it += 1
			if block * (1 + np.max(np.abs(C))) * m * n * 4 <= 1e-15 * max(np.max(W), 1e-300) or not np.any(X):
				break
	if output_info is not None:
		output_info['N'] = it
		output_info['spectral_radius'] = float(rho)
	return np.matrix(W)


def WCPG_TF(num, den, output_info=None):
	num = np.asarray(np.matrix(num), dtype=float).ravel()
	den = np.asarray(np.matrix(den), dtype=float).ravel()
	num, den = num / den[0], den / den[0]
	N = max(len(num), len(den))
	b = np.zeros(N)
	b[:len(num)] = num
	a = np.zeros(N)
	a[:len(den)] = den
	n = N - 1
	A = np.zeros((n, n))
	if n:
		A[0, :] = -a[1:]
		A[1:, :-1] = np.eye(n - 1)
	B = np.zeros((n, 1))
	if n:
		B[0, 0] = 1
	C = (b[1:] - b[0] * a[1:]).reshape(1, n)
	return float(WCPG_ABCD(A, B, C, np.array([[b[0]]]), output_info)[0, 0])
