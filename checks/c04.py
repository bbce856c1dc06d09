"""C04: maximisation is the mirror image of minimisation; supplied values are used as if evaluated"""
import numpy as np

from checks.c02 import lookup, oracle, setup
from checks.common import box_union, general_position, refpoint
from vt.harness import Check

C = Check("C04", ["HypervolumeDerivatives.__init__/ref/compute/compute_derivatives/_compute_hessian/_compute_objective_derivatives"])


@C.harness(params=[dict(N=2, m=2), dict(N=3, m=2), dict(N=2, m=3)], bounds="objective values to be maximised, arbitrary reals incl. ties")
def value(h, N, m):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives

    Y = h.reals("y", (N, m), -20, 20)
    ref = h.array([-3 - c for c in range(m)])
    exp = box_union(-Y, -ref)
    hv = HypervolumeDerivatives(m, m, ref, minimization=False)
    h.eq(hv.compute(X=Y), exp, "volume below the points (evaluated)")
    h.eq(hv.compute(Y=Y), exp, "volume below the points (values supplied)")
    hm = HypervolumeDerivatives(m, m, -ref, minimization=True)
    h.eq(hm.compute(Y=-Y), exp, "volume of the mirrored minimisation problem")
    h.reach()


@C.harness(params=[dict(N=2, m=2, n=2), dict(N=3, m=2, n=1), dict(N=2, m=3, n=1)], bounds="general position, arbitrary Jacobians and Hessians, maximisation")
def derivatives(h, N, m, n):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives

    Z, rz = setup(h, N, m)  # mirrored problem
    Y, ref = -Z, -rz
    X, J, H, f, jac, hes = lookup(h, Y, n)
    mk = lambda: HypervolumeDerivatives(n, m, ref, func=f, jac=jac, hessian=hes, minimization=False)
    mirrored = HypervolumeDerivatives(n, m, rz, func=lambda x: -1 * f(x), jac=lambda x: -1 * jac(x), hessian=lambda x: -1 * hes(x))
    g0, H0 = mirrored.compute_derivatives(X)
    for name, kw in (("evaluated", {}), ("values supplied", dict(Y=Y)), ("Jacobian supplied", dict(YdX=J)), ("both supplied", dict(Y=Y, YdX=J))):
        g, HH = mk().compute_derivatives(X, **kw)
        h.eq(g, g0, "gradient equals the mirrored problem's, " + name)
        h.eq(HH, H0, "Hessian equals the mirrored problem's, " + name)
        h.eq(mk().compute_derivatives(X, compute_hessian=False, **kw), g0, "gradient only, " + name)
    h.reach()


@C.harness(params=[dict(N=2, m=2, n=2), dict(N=2, m=3, n=1)], bounds="general position, arbitrary Jacobians and Hessians, minimisation")
def supplied(h, N, m, n):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives

    Y, ref = setup(h, N, m)
    X, J, H, f, jac, hes = lookup(h, Y, n)
    mk = lambda: HypervolumeDerivatives(n, m, ref, func=f, jac=jac, hessian=hes)
    g0, H0 = mk().compute_derivatives(X)
    h.eq(mk().compute(X=X), mk().compute(Y=Y), "value: evaluated == supplied")
    h.eq(mk().compute(X=X), box_union(Y, ref), "value is the measure")
    used = mk()
    used.compute_derivatives(X[::-1])  # history: a previous call must not matter
    for name, o, kw in (("values supplied", mk(), dict(Y=Y)), ("Jacobian supplied", mk(), dict(YdX=J)), ("both supplied", mk(), dict(Y=Y, YdX=J)), ("after another call", used, {})):
        g, HH = o.compute_derivatives(X, **kw)
        h.eq(g, g0, "gradient, " + name)
        h.eq(HH, H0, "Hessian, " + name)
    h.reach()


@C.harness(params=[dict(N=3, m=2), dict(N=3, m=3)], bounds="general position; the objective-space derivatives follow the order of the points")
def permuted(h, N, m):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives

    Y, ref = setup(h, N, m)
    g0, H0 = HypervolumeDerivatives(m, m, ref).compute_derivatives(Y)
    perm = h.choose("perm", [[1, 0, 2], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 2, 0]])
    g, HH = HypervolumeDerivatives(m, m, ref).compute_derivatives(Y[perm])
    rows = [p * m + k for p in perm for k in range(m)]
    h.eq(g, g0[perm], "gradient rows follow the points")
    h.eq(HH, H0[np.ix_(rows, rows)], "Hessian rows and columns follow the points")
    h.reach()


@C.harness(params=[dict(N=2, m=2), dict(N=2, m=3)], bounds="improvement of a point over a front, ties allowed")
def improvement(h, N, m):
    from hvd.hypervolume_derivatives import hypervolume_improvement

    ref = refpoint(h, m)
    Y = h.reals("y", (N, m), -20, 30)
    x = h.reals("x", m, -20, 30)
    if m == 3:
        for i in range(N - 1):
            h.assume(Y[i, 0] < Y[i + 1, 0])
        for i in range(N):
            for c in range(m):
                h.assume(Y[i, c] < ref[c])
    keep = Y.copy()
    v = hypervolume_improvement(x, Y, ref)
    h.eq(v, box_union(np.vstack([x, Y]), ref) - box_union(Y, ref), "difference of measures")
    h.eq(Y, keep, "the front is not modified")
    h.reach()
