"""C02 gradient / C03 Hessian of the hypervolume"""
import numpy as np

from checks.common import box_union, general_position, multilinear_derivs, refpoint
from vt.harness import Check

FN = ["HypervolumeDerivatives.compute_derivatives/_compute_gradient/_compute_hessian/hypervolume_dY/_project/_compute_objective_derivatives/objective_points", "hypervolume_improvement", "hypervolume", "utils.non_domin_sort"]
C2 = Check("C02", FN)
C3 = Check("C03", FN)


def setup(h, N, m, sort0=True):
    ref = refpoint(h, m)
    Y = h.reals("y", (N, m), -10)
    general_position(h, Y, ref, sort0)
    return Y, ref


def oracle(h, Y, ref):
    r = list(ref) if h.sym else [int(x) for x in ref]
    return multilinear_derivs(h, lambda Z: box_union(Z, r), Y)


def lookup(h, Y, n_var):
    """a problem given by its values at N labelled decision points"""
    N, m = Y.shape
    X = h.array([[i] + [0] * (n_var - 1) for i in range(N)])
    J = h.reals("J", (N, m, n_var), -10, 10)
    H = np.empty((N, m, n_var, n_var), dtype=object)
    for i in range(N):
        for k in range(m):
            for a in range(n_var):
                for b in range(a + 1):
                    H[i, k, a, b] = H[i, k, b, a] = h.real(f"H_{i}_{k}_{a}_{b}", -10, 10)
    H = h.array(H)
    idx = lambda x: int(float(x[0]))
    return X, J, H, (lambda x: Y[idx(x)]), (lambda x: J[idx(x)]), (lambda x: H[idx(x)])


P = [dict(N=1, m=2), dict(N=2, m=2), dict(N=3, m=2), dict(N=4, m=2), dict(N=1, m=3), dict(N=2, m=3), dict(N=3, m=3), dict(N=2, m=4)]


@C2.harness(params=P + [dict(N=3, m=4), dict(N=4, m=3, _thorough=1), dict(N=5, m=2)], bounds="general position, objective space")
def grad_Y(h, N, m):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives

    Y, ref = setup(h, N, m)
    G, _ = oracle(h, Y, ref)
    hvd = HypervolumeDerivatives(m, m, ref)
    g = hvd.compute_derivatives(Y, compute_hessian=False)
    h.eq(g, G.reshape(N, m), "gradient == partial derivatives of the measure")
    h.reach()


@C2.harness(params=[dict(N=2, m=2), dict(N=3, m=2), dict(N=3, m=3, _thorough=1), dict(N=4, m=2, _thorough=1)], bounds="dominated points may lie outside the reference box")
def grad_outside(h, N, m):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives

    ref = refpoint(h, m)
    Y = h.reals("y", (N, m), -10, 30)
    for c in range(m):
        h.distinct(list(Y[:, c]) + [ref[c]])
    for i in range(N):
        inside = h.And(*[Y[i, c] < ref[c] for c in range(m)])
        h.assume(h.Or(inside, *[h.And(*[Y[j, c] < Y[i, c] for c in range(m)]) for j in range(N) if j != i]))
    G, HH = oracle(h, Y, ref)
    o = HypervolumeDerivatives(m, m, ref)
    h.eq(o.compute_derivatives(Y, compute_hessian=False), G.reshape(N, m), "gradient with dominated points anywhere")
    h.eq(o.compute_derivatives(Y)[1], HH, "Hessian with dominated points anywhere")
    h.reach()


@C3.harness(params=P + [dict(N=4, m=3, _thorough=1), dict(N=3, m=4, _thorough=1)], bounds="general position, objective space")
def hess_Y(h, N, m):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives

    Y, ref = setup(h, N, m)
    G, H = oracle(h, Y, ref)
    hvd = HypervolumeDerivatives(m, m, ref)
    g, HH = hvd.compute_derivatives(Y, compute_hessian=True)
    h.eq(g, G.reshape(N, m), "gradient returned with the Hessian")
    h.eq(HH, H, "Hessian == second partial derivatives of the measure")
    h.reach()


@C2.harness(params=[dict(N=2, m=2, n=3), dict(N=2, m=3, n=2), dict(N=3, m=2, n=1)], bounds="arbitrary values and Jacobians")
def grad_X(h, N, m, n):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives

    Y, ref = setup(h, N, m, sort0=N < 3)
    G, _ = oracle(h, Y, ref)
    X, J, _, f, jac, _ = lookup(h, Y, n)
    G = G.reshape(N, m)
    exp = np.array([[sum(G[i, k] * J[i, k, a] for k in range(m)) for a in range(n)] for i in range(N)], dtype=object)
    for mode in range(2):
        hvd = HypervolumeDerivatives(n, m, ref, func=f, jac=jac)
        kw = {} if mode == 0 else dict(Y=Y, YdX=J)
        h.eq(hvd.compute_derivatives(X, compute_hessian=False, **kw), exp, f"chain rule gradient mode {mode}")
    h.reach()


@C3.harness(params=[dict(N=2, m=2, n=2), dict(N=2, m=3, n=1), dict(N=3, m=2, n=1)], bounds="arbitrary values, Jacobians and Hessians")
def hess_X(h, N, m, n):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives

    Y, ref = setup(h, N, m)
    G, HY = oracle(h, Y, ref)
    X, J, H, f, jac, hes = lookup(h, Y, n)
    exp = np.zeros((N * n, N * n), dtype=object)
    for i in range(N):
        for j in range(N):
            for a in range(n):
                for b in range(n):
                    s = sum(J[i, k, a] * HY[i * m + k, j * m + l] * J[j, l, b] for k in range(m) for l in range(m))
                    if i == j:
                        s = s + sum(G[i * m + k] * H[i, k, a, b] for k in range(m))
                    exp[i * n + a, j * n + b] = s
    for mode in range(2):
        hvd = HypervolumeDerivatives(n, m, ref, func=f, jac=jac, hessian=hes)
        kw = {} if mode == 0 else dict(Y=Y, YdX=J)
        g, HH = hvd.compute_derivatives(X, compute_hessian=True, **kw)
        h.eq(HH, exp, f"chain rule Hessian mode {mode}")
        h.eq(HH, HH.T, "symmetric")
    h.reach()
