"""C31: hypervolume derivatives by automatic differentiation"""
import numpy as np

import hvd.hypervolume_derivatives as HD
from checks.c02 import lookup, oracle, setup
from vt.harness import Check

C = Check(
    "C31",
    ["HypervolumeDerivatives.compute_automatic_differentiation", "HVY", "HVX", "HypervolumeDerivatives._compute_objective_derivatives", "hypervolume"],
    ["autograd's jacobian and hessian are replaced by exact differentiation of the value the real function computes on the current path (replays use autograd itself)"],
)


def derivs(f, v):
    from vt.engine import diff, lift

    v = list(v)
    out = lift(f(np.array(v, dtype=object)))
    if not isinstance(out, type(lift(0))):
        out = lift(np.asarray(out, dtype=object).reshape(-1)[0])

    def d(e, y):
        return diff(e, y)

    g = [d(out, y) for y in v]
    return g, lambda: [[d(a, y) for y in v] for a in g]


def autodiff(h):
    if not h.sym:
        return
    h.patch(HD, "jacobian", lambda f: (lambda v: h.array(derivs(f, v)[0])))
    h.patch(HD, "hessian", lambda f: (lambda v: h.array(derivs(f, v)[1]())))


def expected(h, G, HY, J, H, N, m, n):
    g = [sum(G[i * m + k] * J[i, k, a] for k in range(m)) for i in range(N) for a in range(n)]
    hh = np.zeros((N * n, N * n), dtype=object)
    for i in range(N):
        for j in range(N):
            for a in range(n):
                for b in range(n):
                    s = sum(J[i, k, a] * HY[i * m + k, j * m + l] * J[j, l, b] for k in range(m) for l in range(m))
                    if i == j:
                        s = s + sum(G[i * m + k] * H[i, k, a, b] for k in range(m))
                    hh[i * n + a, j * n + b] = s
    return g, hh


@C.harness(params=[dict(N=2, m=2, n=2, mini=1), dict(N=3, m=2, n=1, mini=1), dict(N=2, m=3, n=1, mini=1), dict(N=2, m=2, n=1, mini=0), dict(N=3, m=3, n=1, mini=1, _thorough=1), dict(N=2, m=3, n=2, mini=0, _thorough=1)],
           bounds="general position; arbitrary values, Jacobians and Hessians; minimisation and maximisation; a second reference point set later")
def values(h, N, m, n, mini):
    """all four derivatives, before and after the reference point is changed"""
    autodiff(h)
    Y, ref = setup(h, N, m)
    X, J, H, f, jac, hes = lookup(h, Y, n)
    s = 1 if mini else -1
    o = HD.HypervolumeDerivatives(n, m, s * ref, func=lambda x: s * f(x), jac=lambda x: s * jac(x), hessian=lambda x: s * hes(x), minimization=bool(mini))
    for r in (ref, ref + 2, ref + 1):
        o.ref = s * r
        G, HY = oracle(h, Y, r)
        g, hh = expected(h, G, HY, J, H, N, m, n)
        out = o.compute_automatic_differentiation(X)
        h.eq(np.asarray(out["HVdX"]).reshape(-1), h.array(g), "gradient in the decision space")
        h.eq(np.asarray(out["HVdX2"]), hh, "Hessian in the decision space")
        h.eq(np.asarray(out["HVdY"]).reshape(-1), s * h.array(list(G)), "gradient in the objective space")
        h.eq(np.asarray(out["HVdY2"]), HY, "Hessian in the objective space")
        a, b = o.compute_derivatives(X)
        h.eq(np.asarray(a).reshape(-1), np.asarray(out["HVdX"]).reshape(-1), "agrees with the analytic gradient")
        h.eq(np.asarray(b), np.asarray(out["HVdX2"]), "agrees with the analytic Hessian")
    h.reach()


@C.harness(params=[dict(N=2, m=2), dict(N=3, m=2), dict(N=2, m=3)], bounds="any points")
def wrappers(h, N, m):
    """the scalar functions of stacked points are the hypervolume of those points"""
    from checks.common import box_union, refpoint

    ref = refpoint(h, m)
    Y = h.reals("y", (N, m), -10, 20)
    V = box_union(Y, list(ref))
    h.eq(HD.HVY(m, ref)(Y.reshape(-1)), V, "hypervolume of stacked objective vectors")
    h.eq(HD.HVX(m, lambda x: x[::-1], ref)(Y[:, ::-1].reshape(-1)), V, "hypervolume of stacked decision vectors")
    h.reach()
