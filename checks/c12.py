"""C12: one averaged-distance Newton iteration"""
import numpy as np

import hvd.newton as NW
from checks import opt
from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
from vt.harness import Check

C = Check(
    "C12",
    ["DpN.newton_iteration/_compute_netwon_step/_compute_R/active_indicator/_compute_indicator_value"],
    ["indicator values, gradients and Hessians are arbitrary functions of the decision vectors (their correctness is C06)", "linear solvers by contract: A s = b, or normal equations when singular",
     "step sizes are arbitrary in [0, 1] (C14, C15)", "preconditioning is an arbitrary function of the Hessian (C16)"],
)


class Indicators:
    def __init__(self, h, F):
        self.calls = []
        u = {}
        for tag, cls in (("gd", GenerationalDistance), ("igd", InvertedGenerationalDistance)):
            u[tag] = dict(v=h.ufun(tag, (), 0, 3), g={}, H={})

            def compute(self_, X=None, Y=None, tag=tag):
                return u[tag]["v"](Y)

            def compute_derivatives(self_, X, Y=None, compute_hessian=True, Jacobian=None, tag=tag):
                N, n = np.shape(X)
                if N not in u[tag]["g"]:
                    u[tag]["g"][N] = h.ufun(f"{tag}g{N}", (N, n), -3, 3)
                    u[tag]["H"][N] = h.ufun(f"{tag}H{N}", (N, n, n), -3, 3, symmetric=True)
                self.calls.append((tag, X, Y, Jacobian))
                g = u[tag]["g"][N](X)
                return (g, u[tag]["H"][N](X)) if compute_hessian else g

            h.patch(cls, "compute", compute)
            h.patch(cls, "compute_derivatives", compute_derivatives)
        self.u = u

    def at(self, tag, X):
        N = len(X)
        return self.u[tag]["g"][N](X), self.u[tag]["H"][N](X)


def rows(h, f, X, shape):
    return [f(x) if f is not None else np.zeros(shape) for x in X]


def one_iteration(h, o, F, ind, S, k, typ, P, tag=""):
    """run one iteration and compare with the oracle"""
    n, N = F.n, o.N
    X0 = o.state.X.copy()
    x = X0[:, :n]
    alpha = h.reals(f"a{k}", (N, 1), 0, 1)
    o._handle_box_constraint = lambda step: (step, h.array([1] * N))
    o._backtracking_line_search = lambda step, R, max_step_size=None: alpha.copy()
    o._shift_reference_set = lambda: None
    S.singular = False
    o.newton_iteration()
    Y = h.array(rows(h, F.func, x, (F.m,)))
    J = h.array(rows(h, F.jac, x, (F.m, n)))
    want = typ
    if typ == "deltap":
        want = "gd" if bool(ind.u["gd"]["v"](Y) > ind.u["igd"]["v"](Y)) else "igd"
    for t, Xc, Yc, Jc in ind.calls:
        h.prove(t == want, tag + "the larger of the two distances is minimised")
        h.eq(Xc, x, tag + "derivatives at the current points")
        if Yc is not None:
            h.eq(Yc, Y, tag + "objective values of the current points")
        if Jc is not None:
            h.eq(Jc, J, tag + "Jacobians of the current points")
    ind.calls.clear()
    g, Hs = ind.at(want, x)
    step = o.step
    for i in range(N):
        lam = X0[i, n:]
        Hi = P(Hs[i]) if P else Hs[i]
        A, R, act = opt.kkt(h, g[i], Hi, *[rows(h, f, [x[i]], s)[0] for f, s in ((F.h, (0,)), (F.h_jac, (0, n)), (F.h_hess, (0, n, n)), (F.g, (0,)), (F.g_jac, (0, n)), (F.g_hess, (0, n, n)))], lam)
        s = list(step[i, :n]) + [step[i, n + j] for j in act]
        opt.newton_eq(h, A, R, s, S.singular or not h.sym and np.linalg.matrix_rank(np.array(A, dtype=float)) < len(A), tag + "the step solves the Newton equations of its point")
        for j in range(F.ne + F.ni):
            if j not in act:
                h.eq(step[i, n + j], 0, tag + "multipliers of inactive constraints are not moved")
        Ri = [R[a] for a in range(n)] + [R[n + act.index(j)] if j in act else 0 for j in range(F.ne + F.ni)]
        h.eq(o.R[i], h.array(Ri), tag + "the residual is the gradient of the Lagrangian and the active constraints")
        for c in range(n + F.ne + F.ni):
            h.eq(o.state.X[i, c], X0[i, c] + alpha[i, 0] * step[i, c], tag + "new point = old point + step size * step")
    h.eq(o.state.Y, h.array(rows(h, F.func, o.state.X[:, :n], (F.m,))), tag + "evaluated at the new points")


SH = [dict(N=1, n=1, ne=0, ni=0), dict(N=2, n=1, ne=0, ni=0), dict(N=1, n=2, ne=0, ni=0), dict(N=1, n=1, ne=1, ni=0), dict(N=2, n=1, ne=0, ni=1), dict(N=1, n=2, ne=1, ni=1), dict(N=1, n=1, ne=0, ni=2), dict(N=1, n=2, ne=2, ni=0), dict(N=2, n=2, ne=1, ni=1, _thorough=1), dict(N=3, n=1, ne=0, ni=1, _thorough=1), dict(N=1, n=3, ne=1, ni=2, _thorough=1)]


@C.harness(params=[dict(**s, pre=p) for s in SH for p in (0, 1)], bounds="one iteration from arbitrary points and multipliers, all active sets, all three indicator types")
def iteration(h, N, n, ne, ni, pre):
    F = opt.Fns(h, n, 1, ne, ni)
    ind = Indicators(h, F)
    typ = h.choose("type", ["gd", "igd", "deltap"])
    P = None
    if pre:
        P = h.ufun("P", (n, n), -3, 3, symmetric=True)
        h.patch(NW, "precondition_hessian", P)
    o = opt.dpn(h, F, [-100] * n, [100] * n, X0=h.array([[0] * n] * N), type=typ, preconditioning=bool(pre))
    o.state.update(h.reals("x", (N, n + ne + ni), -2, 2))
    S = opt.Solvers(h, NW)
    one_iteration(h, o, F, ind, S, 0, typ, P)
    h.reach()


@C.harness(params=[dict(N=1, n=1, ne=0, ni=1), dict(N=2, n=1, ne=0, ni=0), dict(N=1, n=1, ne=1, ni=1, _thorough=1)], bounds="two iterations")
def two(h, N, n, ne, ni):
    F = opt.Fns(h, n, 1, ne, ni)
    ind = Indicators(h, F)
    typ = h.choose("type", ["gd", "deltap"])
    o = opt.dpn(h, F, [-100] * n, [100] * n, X0=h.array([[0] * n] * N), type=typ)
    o.state.update(h.reals("x", (N, n + ne + ni), -2, 2))
    S = opt.Solvers(h, NW)
    for k in range(2):
        one_iteration(h, o, F, ind, S, k, typ, None, f"iteration {k}: ")
    h.reach()
