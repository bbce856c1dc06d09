"""C13: one MMD Newton iteration"""
import numpy as np

import hvd.mmd_newton as MN
from checks import opt
from hvd.mmd import MMD, MMDMatching
from vt.harness import Check

C = Check(
    "C13",
    ["MMDNewton.newton_iteration/_compute_netwon_step/_compute_R/_compute_indicator_value", "mmd_newton.Nd_vector_to_matrix"],
    ["indicator values, gradients and Hessians are arbitrary functions of the decision vectors (their correctness is C07)", "linear solvers by contract: A s = b, or normal equations when singular",
     "the step size is arbitrary in [0, 1] (C14)", "preconditioning is an arbitrary function of the Hessian (C16)"],
)


def install(h, F):
    calls = []
    g, H = {}, {}
    val = h.ufun("mmd", (), 0, 3)

    def compute(self_, X=None, Y=None):
        calls.append(("value", X, Y, None))
        return val(Y)

    def compute_derivatives(self_, X, Y=None, compute_hessian=True, jacobian=None):
        N, n = np.shape(X)
        if N not in g:
            g[N], H[N] = h.ufun(f"g{N}", (N, n), -3, 3), h.ufun(f"H{N}", (N * n, N * n), -3, 3, symmetric=True)
        calls.append(("derivatives", X, Y, jacobian))
        return (g[N](X), H[N](X)) if compute_hessian else g[N](X)

    for cls in (MMD, MMDMatching):
        h.patch(cls, "compute", compute)
        h.patch(cls, "compute_derivatives", compute_derivatives)
    return calls, lambda X: (g[len(X)](X), H[len(X)](X)), val


def rows(h, f, X, shape):
    return [f(x) if f is not None else np.zeros(shape) for x in X]


def one_iteration(h, o, F, calls, at, val, S, k, P, tag=""):
    n, N, d = F.n, o.N, F.ne + F.ni
    X0 = o.state.X.copy()
    x = X0[:, :n]
    alpha = h.real(f"a{k}", 0, 1)
    o._handle_box_constraint = lambda step: (step, h.array([1] * N))
    o._backtracking_line_search_global = lambda step, R, max_step_size=None: h.array([alpha])
    o._shift_reference_set = lambda: None
    S.singular = False
    calls.clear()
    o.newton_iteration()
    Y, J = h.array(rows(h, F.func, x, (F.m,))), h.array(rows(h, F.jac, x, (F.m, n)))
    for what, Xc, Yc, Jc in calls:
        if Xc is not None:
            h.eq(Xc, x, tag + "derivatives at the current points")
        if Yc is not None:
            h.eq(Yc, Y, tag + "objective values of the current points")
        if Jc is not None:
            h.eq(Jc, J, tag + "Jacobians of the current points")
    h.eq(o.curr_indicator_value, val(Y), tag + "indicator value of the points before the step")
    g, Hs = at(x)
    if P:
        Hs = P(Hs)
    step = o.step
    t = h.q(1, 10000)
    Hv, Hj, Gv, Gj = rows(h, F.h, x, (0,)), rows(h, F.h_jac, x, (0, n)), rows(h, F.g, x, (0,)), rows(h, F.g_jac, x, (0, n))
    var, A, R = [], [], []  # unknowns of the joint system as (point, column)
    act = [[j for j in range(d) if j < F.ne or bool(Gv[i][j - F.ne] >= -t)] for i in range(N)]
    cj = [list(Hj[i]) + list(Gj[i]) for i in range(N)]
    cv = [list(Hv[i]) + list(Gv[i]) for i in range(N)]
    var = [(i, a) for i in range(N) for a in range(n)] + [(i, n + j) for i in range(N) for j in act[i]]
    for i in range(N):
        for a in range(n):
            A.append([Hs[i * n + a, p * n + b] if b < n else (cj[i][b - n][a] if p == i else 0) for p, b in var])
            R.append(g[i][a] + sum(X0[i, n + j] * cj[i][j][a] for j in act[i]))
    for i in range(N):
        for j in act[i]:
            A.append([cj[i][j][b] if p == i and b < n else 0 for p, b in var])
            R.append(cv[i][j])
    s = [step[i, c] for i, c in var]
    sing = S.singular or not h.sym and np.linalg.matrix_rank(np.array(A, dtype=float)) < len(A)
    opt.newton_eq(h, A, R, s, sing, tag + "the joint step solves the Newton equations")
    for i in range(N):
        for j in range(d):
            if j not in act[i]:
                h.eq(step[i, n + j], 0, tag + "multipliers of inactive constraints are not moved")
    for (i, c), r in zip(var, R):
        h.eq(o.R[i, c], r, tag + "residual")
    h.eq(o.state.X, h.array([[X0[i, c] + alpha * step[i, c] for c in range(n + d)] for i in range(N)]), tag + "new points and multipliers = old ones + step size * step")
    h.eq(o.state.Y, h.array(rows(h, F.func, o.state.X[:, :n], (F.m,))), tag + "evaluated at the new points")


SH = [dict(N=1, n=1, ne=0, ni=0), dict(N=2, n=1, ne=0, ni=0), dict(N=2, n=2, ne=0, ni=0), dict(N=2, n=1, ne=1, ni=0), dict(N=2, n=1, ne=0, ni=1), dict(N=1, n=2, ne=1, ni=1), dict(N=2, n=2, ne=1, ni=1, _thorough=1), dict(N=3, n=1, ne=0, ni=1, _thorough=1), dict(N=2, n=1, ne=1, ni=1), dict(N=2, n=1, ne=0, ni=2, _thorough=1), dict(N=1, n=1, ne=0, ni=2)]


@C.harness(params=[dict(**s, pre=p) for s in SH for p in (0, 1)], bounds="one iteration from arbitrary points and multipliers, all active sets, with and without matching")
def iteration(h, N, n, ne, ni, pre):
    F = opt.Fns(h, n, 1, ne, ni)
    calls, at, val = install(h, F)
    P = None
    if pre:
        P = h.ufun("P", (N * n, N * n), -3, 3, symmetric=True)
        h.patch(MN, "precondition_hessian", P)
    o = opt.mmdn(h, F, [-100] * n, [100] * n, X0=h.array([[0] * n] * N), preconditioning=bool(pre), matching=bool(h.choose("matching", 2)))
    o.state.update(h.reals("x", (N, n + ne + ni), -2, 2))
    S = opt.Solvers(h, MN)
    one_iteration(h, o, F, calls, at, val, S, 0, P)
    h.prove(o.iter_count == 1, "iteration counter")
    h.reach()


@C.harness(params=[dict(N=1, n=1, ne=0, ni=1), dict(N=2, n=1, ne=0, ni=0), dict(N=1, n=1, ne=1, ni=1, _thorough=1)], bounds="two iterations")
def two(h, N, n, ne, ni):
    F = opt.Fns(h, n, 1, ne, ni)
    calls, at, val = install(h, F)
    o = opt.mmdn(h, F, [-100] * n, [100] * n, X0=h.array([[0] * n] * N))
    o.state.update(h.reals("x", (N, n + ne + ni), -2, 2))
    S = opt.Solvers(h, MN)
    for k in range(2):
        one_iteration(h, o, F, calls, at, val, S, k, None, f"iteration {k}: ")
    h.reach()
