"""C07: MMD gradient and Hessian are the derivatives of the MMD value"""
from itertools import permutations

import numpy as np

from vt.harness import Check

C = Check(
    "C07",
    ["MMD.compute/compute_derivatives/compute_gradient/compute_hessian/_build_kernel_gradient/_build_kernel_hessian", "MMDMatching.*",
     "rbf, rational_quadratic, laplace (through jit/vmap/jacrev/jacfwd, traced to jaxprs)", "_assemble_decision_hessian", "ReferenceSet.match"],
    ["JAX tracing and its differentiation rules are executed, not modelled: the jaxpr the real transformations produce is interpreted symbolically",
     "linear_sum_assignment and cdist are replaced by their contracts"],
)


def kern(h, name, theta):
    """(k, dk/dx, d2k/dx2, d2k/dxdy) in closed form"""
    ex = lambda s: h.f("exp", s)

    def f(x, y):
        d = [a - b for a, b in zip(x, y)]
        m = len(d)
        if name == "rbf":
            k = ex(-theta * sum(v * v for v in d))
            g = [-2 * theta * v * k for v in d]
            H = [[(4 * theta * theta * d[i] * d[j] - (2 * theta if i == j else 0)) * k for j in range(m)] for i in range(m)]
        elif name == "rational_quadratic":
            s = theta * sum(v * v for v in d) / 2 + 1
            k = 1 / s
            g = [-theta * v / (s * s) for v in d]
            H = [[2 * theta * theta * d[i] * d[j] / (s * s * s) - (theta / (s * s) if i == j else 0) for j in range(m)] for i in range(m)]
        else:
            sg = [1 if bool(v > 0) else (-1 if bool(v < 0) else 0) for v in d]
            k = ex(-theta * sum(a * b for a, b in zip(sg, d)))
            g = [-theta * a * k for a in sg]
            H = [[theta * theta * a * b * k for b in sg] for a in sg]
        return k, g, H

    return f


def oracle(h, f, Y, pairs_ref, wYY, wR):
    """value, gradient, Hessian of  wYY * sum_ij k(yi,yj) - 2 * sum_(i,r) wR * k(yi, r)"""
    N, m = Y.shape
    v = 0
    G = np.zeros((N, m), dtype=object)
    H = np.zeros((N, m, N, m), dtype=object)
    for i in range(N):
        for j in range(N):
            k, g, hh = f(Y[i], Y[j])
            v = v + wYY * k
            if i == j:
                continue
            for a in range(m):
                G[i, a] = G[i, a] + 2 * wYY * g[a]
                for b in range(m):
                    H[i, a, i, b] = H[i, a, i, b] + 2 * wYY * hh[a][b]
                    H[i, a, j, b] = H[i, a, j, b] - 2 * wYY * hh[a][b]
    for i, r in pairs_ref:
        k, g, hh = f(Y[i], r)
        v = v - 2 * wR * k
        for a in range(m):
            G[i, a] = G[i, a] - 2 * wR * g[a]
            for b in range(m):
                H[i, a, i, b] = H[i, a, i, b] - 2 * wR * hh[a][b]
    return v, G, H.reshape(N * m, N * m)


def inputs(h, N, M, m, kernel):
    R = h.reals("r", (M, m), -5, 5)
    Y = h.reals("y", (N, m), -5, 5)
    if kernel == "laplace":  # differentiable points; one order per coordinate pattern
        for c in range(m):
            h.distinct(list(Y[:, c]) + list(R[:, c]))
    return R, Y


def kernel_of(name):
    import hvd.mmd as M

    return getattr(M, name)


K = ["rbf", "rational_quadratic", "laplace"]
SZ = [dict(N=2, M=1, m=2), dict(N=1, M=2, m=2), dict(N=2, M=2, m=2, _nolap=1), dict(N=3, M=1, m=1), dict(N=1, M=1, m=3), dict(N=3, M=2, m=2, _thorough=1, _nolap=1)]


@C.harness(params=[dict(kernel=k, **s) for k in K for s in SZ if not (k == "laplace" and s.get("_nolap"))], bounds="arbitrary points, references and bandwidth")
def value(h, N, M, m, kernel):
    from hvd.mmd import MMD

    R, Y = inputs(h, N, M, m, kernel)
    th = h.real("theta", 0.01, 10)
    f = kern(h, kernel, th)
    v0 = oracle(h, f, Y, [(i, r) for i in range(N) for r in R], h.q(1, N * N), h.q(1, N * M))[0]
    v0 = v0 + sum(f(a, b)[0] for a in R for b in R) * h.q(1, M * M)
    o = MMD(m, m, R, kernel=kernel_of(kernel), theta=th)
    h.eq(o.compute(Y=Y), v0, "biased estimate (values given)")
    h.eq(o.compute(X=Y), v0, "biased estimate (evaluated)")
    h.reach()


@C.harness(params=[dict(kernel=k, **s) for k in K for s in SZ if not (k == "laplace" and s.get("_nolap"))], bounds="objective space: arbitrary points, references and bandwidth")
def derivatives_Y(h, N, M, m, kernel):
    from hvd.mmd import MMD

    R, Y = inputs(h, N, M, m, kernel)
    th = h.real("theta", 0.01, 10)
    _, G, H = oracle(h, kern(h, kernel, th), Y, [(i, r) for i in range(N) for r in R], h.q(1, N * N), h.q(1, N * M))
    o = MMD(m, m, R, kernel=kernel_of(kernel), theta=th)
    h.eq(o.compute_derivatives(Y, compute_hessian=False), G, "gradient")
    g, HH = o.compute_derivatives(Y)
    h.eq(g, G, "gradient returned with the Hessian")
    h.eq(HH, H, "Hessian")
    h.eq(o.compute_gradient(Y)["MMDdY"], G, "objective-space gradient")
    h.eq(o.compute_hessian(Y)["MMDdY2"], H, "objective-space Hessian")
    h.reach()


def problem(h, Y, n):
    N, m = Y.shape
    X = h.array([[i] + [0] * (n - 1) for i in range(N)])
    J = h.reals("J", (N, m, n), -3, 3)
    T = np.empty((N, m, n, n), dtype=object)
    for i in range(N):
        for k in range(m):
            for a in range(n):
                for b in range(a + 1):
                    T[i, k, a, b] = T[i, k, b, a] = h.real(f"H_{i}_{k}_{a}_{b}", -3, 3)
    T = h.array(T)
    ix = lambda x: int(float(x[0]))
    return X, J, T, (lambda x: Y[ix(x)]), (lambda x: J[ix(x)]), (lambda x: T[ix(x)])


def chain(G, H, J, T):
    N, m, n = J.shape
    g = np.array([[sum(G[i, k] * J[i, k, a] for k in range(m)) for a in range(n)] for i in range(N)], dtype=object)
    out = np.zeros((N * n, N * n), dtype=object)
    for i in range(N):
        for j in range(N):
            for a in range(n):
                for b in range(n):
                    s = sum(J[i, k, a] * H[i * m + k, j * m + l] * J[j, l, b] for k in range(m) for l in range(m))
                    if i == j:
                        s = s + sum(G[i, k] * T[i, k, a, b] for k in range(m))
                    out[i * n + a, j * n + b] = s
    return g, out


@C.harness(params=[dict(N=2, M=1, m=2, n=2, kernel="rbf"), dict(N=2, M=2, m=1, n=3, kernel="rbf"), dict(N=3, M=1, m=2, n=1, kernel="rational_quadratic")], bounds="arbitrary values, Jacobians and Hessians")
def derivatives_X(h, N, M, m, n, kernel):
    from hvd.mmd import MMD

    R, Y = inputs(h, N, M, m, kernel)
    th = h.real("theta", 0.01, 10)
    _, G, H = oracle(h, kern(h, kernel, th), Y, [(i, r) for i in range(N) for r in R], h.q(1, N * N), h.q(1, N * M))
    X, J, T, func, jac, hes = problem(h, Y, n)
    g0, H0 = chain(G, H, J, T)
    for name, kw in (("evaluated", {}), ("values supplied", dict(Y=Y, jacobian=J))):
        o = MMD(n, m, R, func=func, jac=jac, hessian=hes, kernel=kernel_of(kernel), theta=th)
        h.eq(o.compute_derivatives(X, compute_hessian=False, **kw), g0, "gradient, " + name)
        g, HH = o.compute_derivatives(X, **kw)
        h.eq(g, g0, "gradient with Hessian, " + name)
        h.eq(HH, H0, "Hessian, " + name)
    h.reach()


@C.harness(params=[dict(N=2, m=2, n=1, kernel="rbf"), dict(N=2, m=1, n=2, kernel="rbf"), dict(N=1, m=2, n=2, kernel="rational_quadratic"), dict(N=2, m=1, n=1, kernel="rational_quadratic", _thorough=1), dict(N=1, m=2, n=2, kernel="laplace")],
           bounds="matching variant, arbitrary values, Jacobians, Hessians; the spread weight is changed between calls")
def matching(h, N, m, n, kernel):
    from hvd.mmd import MMDMatching

    R, Y = inputs(h, N, N, m, kernel)
    th = h.real("theta", 0.01, 10)
    X, J, T, func, jac, hes = problem(h, Y, n)
    f = kern(h, kernel, th)
    if N > 1:  # a unique optimal matching: at a tie the value is not differentiable
        tot = [sum(h.sqrt(sum((Y[i, k] - R[p[i], k]) ** 2 for k in range(m))) for i in range(N)) for p in permutations(range(N))]
        h.distinct(tot)
    o = MMDMatching(n, m, R, func=func, jac=jac, hessian=hes, kernel=kernel_of(kernel), theta=th, beta=h.real("beta0", 0, 2))
    for name, beta in (("", o.beta), (" after changing the weight", h.real("beta1", 0, 2))):
        o.beta = beta
        v = o.compute(Y=Y)
        h.eq(o.compute(X=X), v, "value evaluated == supplied" + name)
        g, HH = o.compute_derivatives(X)
        M = o.ref.reference_set
        v0, G, H = oracle(h, f, Y, [(i, M[i]) for i in range(N)], beta * h.q(1, N * N), h.q(1, N))
        g0, H0 = chain(G, H, J, T)
        h.eq(v, v0 + 2, "value" + name)
        h.eq(g, g0, "gradient" + name)
        h.eq(HH, H0, "Hessian" + name)
        h.eq(o.compute_derivatives(X, Y=Y, jacobian=J, compute_hessian=False), g0, "gradient, values supplied" + name)
    h.reach()
