"""C16: Hessian preconditioning"""
import numpy as np

import hvd.utils as UT
from checks.opt import det
from vt.harness import Check

C = Check("C16", ["utils.precondition_hessian"], ["scipy/numpy Cholesky by its contract: factorises exactly the positive definite matrices (leading minors), reading one triangle, and raises LinAlgError otherwise"])
BETA = (1, 10**6)


def minors(A):
    n = len(A)
    return [det([list(r[:k]) for r in A[:k]]) for k in range(1, n + 1)]


class Chol:
    """Cholesky factorisation by contract"""

    def __init__(self, h, never=False):
        self.h, self.k, self.never, self.tried = h, 0, never, []
        if h.sym or never:
            h.patch_everywhere(UT.cholesky, self.scipy_)
            h.patch(UT.np.linalg, "cholesky", self.numpy_)

    def numpy_(self, A):
        return self.scipy_(A, lower=True)

    def scipy_(self, A, lower=False, overwrite_a=False, check_finite=True):
        h, n = self.h, len(A)
        A = [[A[max(i, j)][min(i, j)] if lower else A[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        self.tried.append(A)
        if self.never or not all(bool(m > 0) for m in minors(A)):
            raise np.linalg.LinAlgError("not positive definite")
        self.k += 1
        L = np.array([[h.real(f"L{self.k}_{i}{j}", -2000, 2000) if j <= i else 0 for j in range(n)] for i in range(n)], dtype=object)
        for i in range(n):
            h.assume(L[i, i] > 0)
            for j in range(i + 1):
                h.assume(sum(L[i, k] * L[j, k] for k in range(j + 1)) - A[i][j] == 0)
        return h.array(L if lower else L.T)


def sym(h, n, lo, hi):
    H = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            H[i, j] = H[j, i] = h.real(f"h{i}{j}", lo, hi)
    return h.array(H)


@C.harness(params=[dict(n=1, hi=1000), dict(n=2, hi=1), dict(n=2, hi=100), dict(n=3, hi=1, _thorough=1), dict(n=2, hi=100000, _thorough=1)], bounds="all symmetric matrices with entries in the stated range")
def shift(h, n, hi):
    H = sym(h, n, -hi, hi)
    Chol(h)
    keep = H.copy()
    R = UT.precondition_hessian(H)
    h.eq(H, keep, "the Hessian itself is left alone")
    h.prove(np.shape(R) == (n, n), "shape")
    b = h.q(*BETA)
    if h.sym:
        tau = R[0, 0] - H[0, 0]
        scale = 1
    else:
        tau = float(np.mean(np.diag(R) - np.diag(H)))
        scale = 1 + np.abs(H).max()
    eps = 0 if h.sym else 1e-9 * float(scale)
    for i in range(n):
        for j in range(n):
            h.eq((R[i, j] - H[i, j] - (tau if i == j else 0)) / scale, 0, "differs from the Hessian by a multiple of the identity")
    h.prove(tau >= -eps, "the multiple is not negative")
    m = minors(R)
    if h.sym:
        for v in m:
            h.prove(v > 0, "positive definite")
    else:
        w = np.linalg.eigvalsh(np.asarray(R, dtype=float))
        h.prove(w.min() > -1e-9 * float(scale), "positive definite", detail=w)
    # minimality: with half the shift (less the starting value) the matrix is not definite
    if h.sym:
        if bool(tau > 0):
            half = (tau - b) / 2
            if bool(half >= 0):
                h.prove(not all(bool(v > 0) for v in minors([[H[i, j] + (half if i == j else 0) for j in range(n)] for i in range(n)])), "the shift is at most twice the smallest that suffices, plus the starting value")
            else:
                h.prove(not all(bool(v > 0) for v in minors(H)), "definite matrices are not shifted")
    else:
        w = np.linalg.eigvalsh(np.asarray(H, dtype=float)).min()
        h.prove(tau <= 2 * max(0.0, -w) + 1e-6 + 1e-9 * float(scale), "the shift is at most twice the smallest that suffices, plus the starting value", detail=(tau, w))
        h.prove(not (w > 1e-9 * float(scale)) or abs(tau) <= eps, "definite matrices are not shifted")
    h.reach()


@C.harness(params=[dict(n=1), dict(n=2), dict(n=3)], bounds="no shift ever succeeds")
def failing(h, n):
    H = sym(h, n, -100, 100)
    Chol(h, never=True)
    R = UT.precondition_hessian(H)
    tau = R[0, 0] - H[0, 0]
    h.prove(tau >= 0, "the multiple is not negative")
    for i in range(n):
        for j in range(n):
            if i != j:
                h.eq(R[i, j], H[i, j], "off-diagonal entries unchanged")
    h.reach()
