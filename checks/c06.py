"""C06: GD / IGD values and derivatives"""
from itertools import permutations

import numpy as np

from vt.harness import Check

C = Check("C06", ["delta_p.GenerationalDistance.compute/compute_derivatives/_compute_indices", "delta_p.InvertedGenerationalDistance.compute/compute_derivatives/_compute_indices", "reference_set.ReferenceSet.reference_set/match"])


def mkref(R):
    from hvd.reference_set import ReferenceSet

    return ReferenceSet(R, eta={0: np.array([-1.0] * R.shape[1])})


REFS = {2: [[[0, 4], [1, 1], [4, 0]], [[-2, 1], [0, 0], [1, -3]], [[0, 0], [0, 2], [2, 2]]], 3: [[[0, 0, 4], [1, 1, 1], [4, 0, 0]], [[1, 2, 3], [3, 1, 2], [2, 3, 1]]]}


def refset(h, M, m, sym):
    """reference set: symbolic, or one of a few concrete ones"""
    if sym:
        return h.reals("r", (M, m), -10, 10)
    return h.array(h.choose("ref", REFS[m])[:M])


def sqd(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def nearest(h, y, R, strict=True):
    """index of the nearest row of R; ties assumed away when strict"""
    d = [sqd(y, r) for r in R]
    b = 0
    for i in range(1, len(R)):
        if bool(d[i] < d[b]):
            b = i
    if strict:
        for i in range(len(R)):
            if i != b:
                h.assume(d[b] < d[i])
    return b, d[b]


FIXED = {2: [[2, 3], [-1, 2], [3, 0]], 3: [[2, 3, 1], [-1, 2, 4], [3, 0, 2]]}


def points(h, N, m, fixed=0):
    """N objective points, the last `fixed` of which are concrete (keeps the distance comparisons tractable)"""
    Y = h.reals("y", (N - fixed, m), -10, 10)
    return h.array([list(y) for y in Y] + FIXED[m][:fixed])


def problem(h, N, m, n, fixed=0):
    from checks.c02 import lookup

    Y = points(h, N, m, fixed)
    X, J, H, f, jac, hes = lookup(h, Y, n)
    return Y, X, J, H, f, jac, hes


def chain(h, J, H, g, B):
    """per-point gradient / Hessian block in decision space from those in objective space"""
    N, m, n = J.shape
    G = np.empty((N, n), dtype=object)
    HH = np.empty((N, n, n), dtype=object)
    for i in range(N):
        for a in range(n):
            G[i, a] = sum(g[i][k] * J[i, k, a] for k in range(m))
            for b in range(n):
                HH[i, a, b] = sum(J[i, k, a] * B[i][k][l] * J[i, l, b] for k in range(m) for l in range(m)) + sum(g[i][k] * H[i, k, a, b] for k in range(m))
    return G, HH


def powr(h, x, p):
    return h.sqrt(x) if p == 0.5 else x**p


@C.harness(params=[dict(N=1, M=2, m=2, p=2, sym=1), dict(N=2, M=3, m=2, p=2, sym=0), dict(N=1, M=2, m=3, p=2, sym=1), dict(N=2, M=2, m=2, p=1, sym=0), dict(N=2, M=2, m=2, p=3, sym=0), dict(N=1, M=2, m=2, p=1, sym=1), dict(N=2, M=2, m=2, p=2, sym=1, _thorough=1)], bounds="arbitrary approximation and reference sets incl. ties")
def gd_value(h, N, M, m, p, sym):
    from hvd.delta_p import GenerationalDistance

    Y, R = h.reals("y", (N, m), -10, 10), refset(h, M, m, sym)
    gd = GenerationalDistance(mkref(R), func=lambda x: x, p=p)
    tot = 0
    for i in range(N):
        _, d2 = nearest(h, Y[i], R, strict=False)
        tot = tot + (d2 if p == 2 else h.sqrt(d2) ** p)
    exp = tot / N
    h.eq(gd.compute(Y=Y) ** p, exp, "GD^p == mean of nearest distances^p")
    h.eq(gd.compute(X=Y) ** p, exp, "GD^p (evaluated)")
    h.ge(gd.compute(Y=Y), 0, "nonnegative")
    h.reach()


@C.harness(params=[dict(N=1, M=2, m=2, p=2, sym=1), dict(N=3, M=3, m=2, p=2, sym=0, fixed=2), dict(N=2, M=3, m=2, p=2, sym=0, _thorough=1), dict(N=2, M=2, m=2, p=2, sym=0), dict(N=1, M=2, m=3, p=2, sym=1), dict(N=2, M=2, m=2, p=1, sym=0), dict(N=2, M=2, m=2, p=3, sym=0), dict(N=1, M=2, m=2, p=1, sym=1), dict(N=2, M=2, m=2, p=2, sym=1, _thorough=1)], bounds="arbitrary approximation and reference sets incl. ties")
def igd_value(h, N, M, m, p, sym, fixed=0):
    from hvd.delta_p import InvertedGenerationalDistance

    Y, R = points(h, N, m, fixed), refset(h, M, m, sym)
    gd = InvertedGenerationalDistance(mkref(R), func=lambda x: x, p=p)
    tot = 0
    for i in range(M):
        _, d2 = nearest(h, R[i], Y, strict=False)
        tot = tot + (d2 if p == 2 else h.sqrt(d2) ** p)
    exp = tot / M
    h.eq(gd.compute(Y=Y) ** p, exp, "IGD^p == mean of nearest distances^p")
    h.eq(gd.compute(X=Y) ** p, exp, "IGD^p (evaluated)")
    h.ge(gd.compute(Y=Y), 0, "nonnegative")
    h.reach()


@C.harness(params=[dict(N=2, M=2, m=2, n=2, p=2, sym=1), dict(N=2, M=3, m=3, n=1, p=2, sym=0), dict(N=1, M=2, m=2, n=2, p=1, sym=1), dict(N=1, M=2, m=2, n=1, p=3, sym=1), dict(N=1, M=1, m=2, n=2, p=4, sym=1), dict(N=1, M=1, m=2, n=1, p=6, sym=1), dict(N=2, M=2, m=2, n=2, p=3, sym=0)], bounds="unique nearest reference points, arbitrary Jacobians and Hessians")
def gd_derivatives(h, N, M, m, n, p, sym):
    from hvd.delta_p import GenerationalDistance

    Y, X, J, H, f, jac, hes = problem(h, N, m, n)
    R = refset(h, M, m, sym)
    g, B = [], []
    for i in range(N):
        for r in R:
            h.assume(sqd(Y[i], r) > h.q(1, 100))
        k, d2 = nearest(h, Y[i], R)
        d = [Y[i, c] - R[k, c] for c in range(m)]
        s = 1 if p == 2 else h.sqrt(d2) ** (p - 2)
        s2 = 0 if p == 2 else h.sqrt(d2) ** (p - 4)
        g.append([h.q(p, N) * s * d[c] for c in range(m)])
        B.append([[h.q(p, N) * ((s if a == b else 0) + (p - 2) * s2 * d[a] * d[b]) for b in range(m)] for a in range(m)])
    G, HH = chain(h, J, H, g, B)
    mk = lambda: GenerationalDistance(mkref(R), func=f, jac=jac, hess=hes, p=p)
    if h.sym:
        from vt.engine import diff

        v = mk().compute(Y=Y) ** p
        for i in range(N):
            for c in range(m):
                h.eq(diff(v, Y[i, c]), g[i][c], "oracle is the derivative of the indicator^p")
    for kw in ({}, dict(Y=Y), dict(Y=Y, Jacobian=J)):
        gr, he = mk().compute_derivatives(X, **kw)
        h.eq(gr, G, f"gradient {sorted(kw)}")
        h.eq(he, HH, f"Hessian {sorted(kw)}")
        h.eq(mk().compute_derivatives(X, compute_hessian=False, **kw), G, "gradient only")
    h.reach()


@C.harness(params=[dict(N=2, M=2, m=2, n=2, sym=1), dict(N=2, M=3, m=2, n=1, sym=1), dict(N=1, M=3, m=3, n=1, sym=1), dict(N=3, M=3, m=2, n=1, sym=0, fixed=2), dict(N=3, M=2, m=2, n=1, sym=0, _thorough=1)], bounds="p = 2, unique nearest approximation points, arbitrary Jacobians and Hessians")
def igd_derivatives(h, N, M, m, n, sym, fixed=0):
    from hvd.delta_p import InvertedGenerationalDistance

    Y, X, J, H, f, jac, hes = problem(h, N, m, n, fixed)
    R = refset(h, M, m, sym)
    g = [[0] * m for _ in range(N)]
    cnt = [0] * N
    for r in range(M):
        for y in Y:
            h.assume(sqd(y, R[r]) > h.q(1, 100))
        i, _ = nearest(h, R[r], Y)
        cnt[i] += 1
        for c in range(m):
            g[i][c] = g[i][c] + h.q(2, M) * (Y[i, c] - R[r, c])
    B = [[[h.q(2 * cnt[i], M) if a == b else 0 for b in range(m)] for a in range(m)] for i in range(N)]
    G, HH = chain(h, J, H, g, B)
    mk = lambda: InvertedGenerationalDistance(mkref(R), func=f, jac=jac, hess=hes)
    if h.sym:
        from vt.engine import diff

        v = mk().compute(Y=Y) ** 2
        for i in range(N - fixed):
            for c in range(m):
                h.eq(diff(v, Y[i, c]), g[i][c], "oracle is the derivative of the indicator^2")
    for kw in ({}, dict(Y=Y), dict(Y=Y, Jacobian=J)):
        gr, he = mk().compute_derivatives(X, **kw)
        h.eq(gr, G, f"gradient {sorted(kw)}")
        h.eq(he, HH, f"Hessian {sorted(kw)}")
        h.eq(mk().compute_derivatives(X, compute_hessian=False, **kw), G, "gradient only")
    h.reach()


@C.harness(params=[dict(p=3), dict(p=4)], bounds="p != 2, one point and one reference point")
def igd_derivatives_p(h, p):
    from hvd.delta_p import InvertedGenerationalDistance

    Y, X, J, H, f, jac, hes = problem(h, 1, 2, 1)
    R = h.reals("r", (1, 2), -10, 10)
    d2 = sqd(Y[0], R[0])
    h.assume(d2 > h.q(1, 100))
    s = h.sqrt(d2) ** (p - 2)
    G = sum(p * s * (Y[0, c] - R[0, c]) * J[0, c, 0] for c in range(2))
    gr = InvertedGenerationalDistance(mkref(R), func=f, jac=jac, hess=hes, p=p).compute_derivatives(X, compute_hessian=False)
    h.eq(gr[0, 0], G, "gradient of IGD^p for p != 2")
    h.reach()


@C.harness(params=[dict(N=2, m=2, n=2), dict(N=3, m=2, n=1), dict(N=2, m=3, n=1)], bounds="one-to-one matching of N points to N reference points")
def igd_matching(h, N, m, n):
    from hvd.delta_p import InvertedGenerationalDistance

    Y, X, J, H, f, jac, hes = problem(h, N, m, n)
    R = h.reals("r", (N, m), -10, 10)
    ind = InvertedGenerationalDistance(mkref(R), func=f, jac=jac, hess=hes, matching=True)
    v = ind.compute(Y=Y)
    Z = np.array(ind.ref.reference_set)
    h.eq(v, sum(sqd(Y[i], Z[i]) for i in range(N)) / N, "mean squared distance to the matched points")
    ind.ref.re_match = False
    g = [[2 * (Y[i, c] - Z[i, c]) for c in range(m)] for i in range(N)]
    B = [[[2 if a == b else 0 for b in range(m)] for a in range(m)] for i in range(N)]
    G, HH = chain(h, J, H, g, B)
    for kw in ({}, dict(Y=Y, Jacobian=J)):
        gr, he = ind.compute_derivatives(X, **kw)
        h.eq(gr, G, "gradient of the summed squared matched distances")
        h.eq(he, HH, "Hessian of the summed squared matched distances")
    h.eq(ind.compute_derivatives(X, compute_hessian=False), G, "gradient only")
    h.reach()
