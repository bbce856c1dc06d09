"""C11: one hypervolume Newton iteration"""
import numpy as np

import hvd.line_search as LS
import hvd.newton as NW
from checks import opt
from hvd.hypervolume_derivatives import HypervolumeDerivatives
from vt.harness import Check

C = Check(
    "C11",
    ["HVN.iterate/_compute_netwon_step/_compute_R/_compute_indicator_value/_check_population", "State.is_feasible/__getitem__/cstr_hess", "utils.non_domin_sort/Nd_vector_to_matrix/matrix_to_Nd_vector"],
    ["hypervolume, gradient and Hessian of a set of points are arbitrary functions of its decision vectors (their correctness is C01-C04)", "linear solvers by contract: A s = b, or normal equations when singular",
     "step sizes are arbitrary in [0, 1] (C14, C15)", "preconditioning is an arbitrary function of the Hessian (C16)"],
)


def install(h):
    calls, g, H = [], {}, {}
    val = h.ufun("hv", (), 0, 3)

    def compute(self_, X=None, Y=None):
        calls.append(("value", X, Y, None, None))
        return val(Y)

    def compute_derivatives(self_, X, Y=None, compute_hessian=True, YdX=None, Y2dX2=None):
        N, n = np.shape(X)
        if N not in g:
            g[N], H[N] = h.ufun(f"g{N}", (N, n), -3, 3), h.ufun(f"H{N}", (N * n, N * n), -3, 3, symmetric=True)
        calls.append(("derivatives", X, Y, YdX, compute_hessian))
        return (g[N](X), H[N](X)) if compute_hessian else g[N](X)

    h.patch(HypervolumeDerivatives, "compute", compute)
    h.patch(HypervolumeDerivatives, "compute_derivatives", compute_derivatives)
    return calls, lambda X: (g[len(X)](X), H[len(X)](X)), val


def rows(h, f, X, shape):
    return [f(x) if f is not None else np.zeros(shape) for x in X]


def same(h, a, b):
    if h.sym:
        from vt.engine import lift

        return (lift(a) - lift(b)).p == {}
    return a == b


def layers(Y, idx):
    """dominance layers of the points idx"""
    dom = lambda a, b: all(bool(x <= y) for x, y in zip(Y[a], Y[b])) and any(bool(x < y) for x, y in zip(Y[a], Y[b]))
    out, rest = [], list(idx)
    while rest:
        front = [i for i in rest if not any(dom(j, i) for j in rest if j != i)]
        out.append(front)
        rest = [i for i in rest if i not in front]
    return out


def one_iteration(h, o, F, calls, at, val, S, k, P, tag=""):
    n, N, ne, d = F.n, o.N, F.ne, F.ne + F.ni
    t = h.q(1, 10000)
    X0 = o.state.X.copy()
    x = X0[:, :n]
    alphas, tried = [], []

    def search(R, phi, max_step_size=1):
        a = h.real(f"a{k}_{len(alphas)}", 0, 1)
        alphas.append(a)
        tried.append((R, max_step_size))
        return a

    h.patch_everywhere(LS.backtracking_line_search, search)
    Y, J = h.array(rows(h, F.func, x, (F.m,))), h.array(rows(h, F.jac, x, (F.m, n)))
    Hv, Hj, Gv, Gj = rows(h, F.h, x, (0,)), rows(h, F.h_jac, x, (0, n)), rows(h, F.g, x, (0,)), rows(h, F.g_jac, x, (0, n))
    Hh, Gh = rows(h, F.h_hess, x, (0, n, n)), rows(h, F.g_hess, x, (0, n, n))
    feas = [all(bool(abs(v) <= t) for v in Hv[i]) and all(bool(v < -t) for v in Gv[i]) for i in range(N)]
    fi = [i for i in range(N) if feas[i]]
    if fi:
        parts = layers(Y, fi)
        parts[0] = sorted(parts[0] + [i for i in range(N) if not feas[i]])
    else:
        parts = [list(range(N))]
    S.singular = False
    S.flags = []
    calls.clear()
    o.iterate()
    h.eq(o.curr_indicator_value, val(Y), tag + "indicator value of the points before the step")
    groups = []
    for what, Xc, Yc, Jc, hess in calls:
        if what == "value" or not hess:
            continue
        idx = []
        for r in Xc:
            idx.append(next((i for i in range(N) if i not in idx and all(same(h, a, b) for a, b in zip(r, x[i])) and not any(i in q for q in groups)), None))
        h.prove(None not in idx and len(set(idx)) == len(idx), tag + "derivatives at current points")
        groups.append(idx)
        h.eq(Yc, h.array([Y[i] for i in idx]), tag + "objective values of the points")
        if Jc is not None:
            h.eq(Jc, h.array([J[i] for i in idx]), tag + "Jacobians of the points")
    h.prove(sorted(map(sorted, groups)) == sorted(map(sorted, parts)), tag + "the feasible points move layer by layer, the infeasible ones with the first layer", detail=f"{groups} {parts}")
    if sorted(map(sorted, groups)) != sorted(map(sorted, parts)):
        return
    step = o.step
    new = [None] * N
    for gi, idx in enumerate(groups):
        m = len(idx)
        g, Hs = at(h.array([x[i] for i in idx]))
        if P:
            Hs = -P[m](-Hs)
        act = {i: [j for j in range(d) if j < ne or bool(Gv[i][j - ne] >= -t)] for i in idx}
        cj = {i: list(Hj[i]) + list(Gj[i]) for i in idx}
        cv = {i: list(Hv[i]) + list(Gv[i]) for i in idx}
        ch = {i: list(Hh[i]) + list(Gh[i]) for i in idx}
        var = [(i, a) for i in idx for a in range(n)] + [(i, n + j) for i in idx for j in act[i]]
        A, R = [], []
        for r, i in enumerate(idx):
            for a in range(n):
                row = []
                for p, b in var:
                    if b < n:
                        v = Hs[r * n + a, idx.index(p) * n + b]
                        if p == i:
                            v = v + sum(X0[i, n + j] * ch[i][j][a][b] for j in act[i])
                    else:
                        v = cj[i][b - n][a] if p == i else 0
                    row.append(v)
                A.append(row)
                R.append(g[r][a] + sum(X0[i, n + j] * cj[i][j][a] for j in act[i]))
        for i in idx:
            for j in act[i]:
                A.append([cj[i][j][b] if p == i and b < n else 0 for p, b in var])
                R.append(cv[i][j])
        s = [step[i, c] for i, c in var]
        sing = S.log[gi] if h.sym else np.linalg.matrix_rank(np.array(A, dtype=float)) < len(A)
        opt.newton_eq(h, A, R, s, sing, tag + "the step of a layer solves its Newton equations")
        for i in idx:
            for j in range(d):
                if j not in act[i]:
                    h.eq(step[i, n + j], 0, tag + "multipliers of inactive constraints are not moved")
            new[i] = [X0[i, c] + alphas[gi] * step[i, c] for c in range(n + d)]
        for (i, c), r in zip(var, R):
            h.eq(o.R[i, c], r, tag + "residual")
        h.eq(np.asarray(tried[gi][0]), h.array([o.R[i] for i in idx]), tag + "the line search starts from the residual of the layer")
    h.eq(o.state.X, h.array(new), tag + "new points and multipliers = old ones + step size * step")
    h.eq(o.state.Y, h.array(rows(h, F.func, o.state.X[:, :n], (F.m,))), tag + "evaluated at the new points")


class LogSolvers(opt.Solvers):
    """remembers for each system whether it was singular"""

    def __init__(self, h, mod):
        super().__init__(h, mod)
        self.log = []

    def solve(self, A, b, **kw):
        self.log.append(False)
        try:
            return super().solve(A, b, **kw)
        except np.linalg.LinAlgError:
            self.log[-1] = True
            raise


SH = [dict(N=1, n=1, ne=0, ni=0), dict(N=2, n=1, ne=0, ni=0), dict(N=3, n=1, ne=0, ni=0), dict(N=2, n=2, ne=0, ni=0), dict(N=1, n=2, ne=1, ni=1), dict(N=2, n=1, ne=1, ni=0), dict(N=2, n=1, ne=0, ni=1),
      dict(N=2, n=1, ne=1, ni=1, _thorough=1), dict(N=3, n=1, ne=0, ni=1, _thorough=1), dict(N=2, n=1, ne=0, ni=2, _thorough=1), dict(N=2, n=2, ne=1, ni=0), dict(N=1, n=1, ne=0, ni=2)]


@C.harness(params=[dict(**s, pre=p) for s in SH for p in (0, 1) if not (p and s["N"] == 3 and not s.get("_thorough"))], bounds="one iteration from arbitrary points and multipliers, all dominance relations, feasibility patterns and active sets")
def iteration(h, N, n, ne, ni, pre):
    F = opt.Fns(h, n, 2, ne, ni)
    calls, at, val = install(h)
    P = None
    if pre:
        P = {m: h.ufun(f"P{m}", (m * n, m * n), -3, 3, symmetric=True) for m in range(1, N + 1)}
        h.patch(NW, "precondition_hessian", lambda H: P[len(H) // n](H))
    o = opt.hvn(h, F, [-100] * n, [100] * n, X0=h.array([[0] * n] * N), preconditioning=bool(pre))
    o.state.update(h.reals("x", (N, n + ne + ni), -2, 2))
    o._check_population = lambda: None
    S = LogSolvers(h, NW)
    one_iteration(h, o, F, calls, at, val, S, 0, P)
    h.reach()


@C.harness(params=[dict(N=1, n=1, ne=0, ni=1), dict(N=2, n=1, ne=0, ni=0, _thorough=1), dict(N=1, n=1, ne=1, ni=1, _thorough=1)], bounds="two iterations")
def two(h, N, n, ne, ni):
    F = opt.Fns(h, n, 2, ne, ni)
    calls, at, val = install(h)
    o = opt.hvn(h, F, [-100] * n, [100] * n, X0=h.array([[0] * n] * N))
    o.state.update(h.reals("x", (N, n + ne + ni), -2, 2))
    o._check_population = lambda: None
    S = LogSolvers(h, NW)
    for k in range(2):
        S.log.clear()
        one_iteration(h, o, F, calls, at, val, S, k, None, f"iteration {k}: ")
    h.reach()


@C.harness(params=[dict(N=2, n=1), dict(N=3, n=1), dict(N=2, n=2, _thorough=1)], bounds="populations with repeated points")
def duplicates(h, N, n):
    """copies of a point are removed before the iteration; different points stay"""
    F = opt.Fns(h, n, 2)
    o = opt.hvn(h, F, [-100] * n, [100] * n, X0=h.array([[0] * n] * N))
    pts = h.reals("p", (N, n), -2, 2)
    who = [h.choose(f"which{i}", i + 1) for i in range(N)]
    for i in range(N):
        for j in range(i):
            gap = [abs(a - b) for a, b in zip(pts[i], pts[j])]
            h.assume(h.Or(*[v >= h.q(1, 100) for v in gap]))
    X = h.array([pts[k] for k in who])
    o.state.update(X)
    o._check_population()
    kept = o.state.primal
    uniq = []
    for k in who:
        if k not in uniq:
            uniq.append(k)
    h.prove(len(kept) == len(uniq) and o.N == len(uniq) and o.state.N == len(uniq), "one copy of each point stays", detail=len(kept))
    h.eq(kept, h.array([pts[k] for k in uniq]), "the different points stay, in order")
    h.eq(o.state.Y, h.array([F.func(x) for x in kept]), "with their objective values")
    h.reach()
