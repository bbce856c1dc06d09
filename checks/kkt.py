"""C10, second part: populations and histories of multipliers (imported by c10)"""
import numpy as np
import scipy.optimize

import hvd.base as BA
from checks import opt
from checks.c10 import C
from hvd.base import State

C.assumptions.append("scipy.optimize.linprog by its contract: a feasible program yields a feasible point that is no worse than any other feasible point (instantiated at the multipliers of the harness)")


def roles(c, Aeq, bounds, m, ne, k):
    """positions of (objective weights, equality multipliers, inequality multipliers, residual) among the program's variables"""
    nv = len(c)
    t = [j for j in range(nv) if not (isinstance(c[j], (int, float)) and c[j] == 0)]
    w = [j for j in range(nv) if any(not (isinstance(v, (int, float)) and v == 0) for v in np.asarray(Aeq)[:, j])]
    free = [j for j in range(nv) if bounds[j][0] is None and j not in t + w]
    mu = [j for j in range(nv) if bounds[j][0] is not None and j not in t + w]
    if (len(t), len(w), len(free), len(mu)) == (1, m, ne, k):
        return w, free, mu, t[0]
    if nv == m + ne + k + 1:
        return list(range(m)), list(range(m, m + ne)), list(range(m + ne, nv - 1)), nv - 1
    return None


class LP:
    def __init__(self, h, ne, witness=None):
        self.h, self.ne, self.calls, self.witness = h, ne, [], witness
        if h.sym:
            h.patch_everywhere(BA.linprog, self)

    def __call__(self, c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=(0, None), method="highs", **kw):
        h = self.h
        i = len(self.calls)
        bounds = list(bounds)
        c, A, b, E, e = [np.asarray(v, dtype=object) for v in (c, A_ub, b_ub, A_eq, b_eq)]
        x = h.reals(f"lp{i}", (len(c),))

        def feasible(z):
            r = [sum(a * v for a, v in zip(row, z)) <= d for row, d in zip(A, b)]
            r += [sum(a * v for a, v in zip(row, z)) == d for row, d in zip(E, e)]
            r += [v >= lo for v, (lo, up) in zip(z, bounds) if lo is not None] + [v <= up for v, (lo, up) in zip(z, bounds) if up is not None]
            return r

        self.calls.append((x, c, E, bounds))
        cost = lambda z: sum(a * v for a, v in zip(c, z))
        if self.witness is None:
            if bool(h.choose(f"fail{i}", 2)):
                return scipy.optimize.OptimizeResult(success=False, x=None, fun=None, status=2)
            for f in feasible(x):
                h.assume(f)
        else:
            for f in feasible(x):
                h.assume(f)
            w, lam, mu, tol = self.witness
            ro = roles(c, E, bounds, len(w), len(lam), len(mu))
            if ro is None:
                return scipy.optimize.OptimizeResult(success=True, x=x, fun=cost(x), status=0)
            pw, pl, pm, pt = ro
            z = [None] * len(c)
            for pos, vals in ((pw, w), (pl, lam), (pm, mu), ([pt], [tol])):
                for p, v in zip(pos, vals):
                    z[p] = v
            ok = True
            for f in feasible(z):
                ok = ok & f
            h.assume(~ok | (cost(x) <= cost(z)) if not isinstance(ok, bool) else (not ok) or cost(x) <= cost(z))
        return scipy.optimize.OptimizeResult(success=True, x=x, fun=cost(x), status=0)


def optimum(J, Hj, Gj):
    """smallest residual, for replays"""
    M = np.concatenate([np.asarray(a, dtype=float).reshape(-1, np.shape(J)[1]) for a in (J, Hj, Gj)]).T
    n, k = M.shape
    m, ne = len(J), len(Hj)
    r = scipy.optimize.linprog([0] * k + [1], A_ub=np.c_[np.r_[M, -M], -np.ones(2 * n)], b_ub=np.zeros(2 * n), A_eq=[[1] * m + [0] * (k - m + 1)], b_eq=[1],
                               bounds=[(0, None)] * m + [(None, None)] * ne + [(0, None)] * (k - m - ne + 1))
    return r.fun


def population(h, N, n, m, ne, ni):
    F = opt.Fns(h, n, m, ne, ni)
    st = State(n, ne, ni, F.func, F.jac, F.h, F.h_jac, F.h_hess, F.g, F.g_jac, F.g_hess)
    X = h.reals("x", (N, n + ne + ni), -2, 2)
    st.update(X.copy())
    x = [r[:n] for r in X]
    return st, [(F.jac(v), F.h(v) if ne else [], F.h_jac(v) if ne else [], F.g(v) if ni else [], F.g_jac(v) if ni else []) for v in x]


def close_to(h, v, tol):
    return not h.sym and abs(float(v) - float(tol)) < 1e-6


SH = [dict(N=1, n=1, m=1, ne=0, ni=0), dict(N=1, n=1, m=2, ne=0, ni=1), dict(N=1, n=2, m=2, ne=1, ni=1), dict(N=1, n=2, m=3, ne=0, ni=0), dict(N=2, n=1, m=2, ne=1, ni=0), dict(N=1, n=2, m=2, ne=0, ni=2), dict(N=2, n=1, m=1, ne=0, ni=1), dict(N=3, n=2, m=2, ne=1, ni=2, _thorough=1), dict(N=1, n=3, m=3, ne=2, ni=2, _thorough=1)]


def tolerances(h, how):
    if how == "default":
        return {}, [h.q(1, 10000)] * 3
    t = [h.real(f"tol{k}", 0, 1) for k in range(3)]
    return dict(stationarity_tol=t[0], feasibility_tol=t[1], active_tol=t[2]), t


@C.harness(params=SH, bounds="arbitrary values and Jacobians of objectives and constraints, default and arbitrary non-negative tolerances")
def sound_population(h, N, n, m, ne, ni):
    """a positive answer is backed by multipliers"""
    st, P = population(h, N, n, m, ne, ni)
    kw, (ts, tf, ta) = tolerances(h, h.choose("tols", ["default", "given"]))
    lp = LP(h, ne)
    out = st.check_KKT(**kw)
    h.prove(len(out) == N, "one answer per point")
    at = 0
    for i, (J, H, Hj, G, Gj) in enumerate(P):
        feas = all([bool(abs(v) <= tf) for v in H] + [bool(v <= tf) for v in G])
        if not feas:
            h.prove(not bool(out[i]), "infeasible points are not KKT points")
            continue
        act = [j for j in range(ni) if bool(G[j] >= -ta)]
        if not h.sym:
            v = optimum(J, Hj, [Gj[j] for j in act])
            h.prove(close_to(h, v, ts) or bool(out[i]) == bool(v <= ts), "positive exactly with multipliers within tolerance", detail=(v, float(ts), bool(out[i])))
            continue
        if not bool(out[i]):
            at += 1
            continue
        h.prove(at < len(lp.calls), "the answer comes from a linear program")
        x, c, E, bounds = lp.calls[at]
        at += 1
        ro = roles(c, E, bounds, m, ne, len(act))
        if ro is None:
            # unknown multipliers took part: then a point without any intended multipliers must not be accepted
            for a in range(m):
                h.assume(J[a][0] >= ts + 1)
            for a in range(ne):
                h.assume(Hj[a][0] == 0)
            for j in act:
                h.assume(Gj[j][0] >= 0)
            h.prove(False, "a point without multipliers is accepted")
            continue
        pw, pl, pm, pt = ro
        h.eq(sum(x[p] for p in pw), 1, "objective weights sum to one")
        for p in pw + pm:
            h.prove(x[p] >= 0, "non-negative multipliers")
        for k in range(n):
            r = sum(x[p] * J[a][k] for a, p in enumerate(pw)) + sum(x[p] * Hj[a][k] for a, p in enumerate(pl)) + sum(x[p] * Gj[j][k] for j, p in zip(act, pm))
            h.prove(r <= ts, "stationarity residual within tolerance (above)")
            h.prove(-r <= ts, "stationarity residual within tolerance (below)")
    h.reach()


@C.harness(params=[dict(d) for d in SH if d["N"] == 1], bounds="every choice of multipliers; arbitrary values and Jacobians, default and arbitrary non-negative tolerances")
def complete_population(h, N, n, m, ne, ni):
    """whenever multipliers exist, the answer is positive"""
    st, P = population(h, N, n, m, ne, ni)
    kw, (ts, tf, ta) = tolerances(h, h.choose("tols", ["default", "given"]))
    J, H, Hj, G, Gj = P[0]
    for v in H:
        h.assume(abs(v) <= tf)
    for v in G:
        h.assume(v <= tf)
    act = [j for j in range(ni) if bool(G[j] >= -ta)]
    w, lam, mu = h.reals("w", (m,), 0, 1), h.reals("lam", (ne,), -5, 5), h.reals("mu", (len(act),), 0, 5)
    if h.sym:
        h.assume(sum(w) == 1)
        for k in range(n):
            r = sum(w[a] * J[a][k] for a in range(m)) + sum(lam[a] * Hj[a][k] for a in range(ne)) + sum(mu[b] * Gj[j][k] for b, j in enumerate(act))
            h.assume(r <= ts)
            h.assume(-r <= ts)
    LP(h, ne, (w, lam, mu, ts))
    out = st.check_KKT(**kw)
    if h.sym:
        h.prove(bool(out[0]), "a point with multipliers within tolerance is accepted")
    else:
        v = optimum(J, Hj, [Gj[j] for j in act])
        h.prove(close_to(h, v, ts) or v > ts or bool(out[0]), "a point with multipliers within tolerance is accepted", detail=(v, float(ts)))
    h.reach()


@C.harness(bounds="each tolerance negative; objective Jacobians missing")
def refuses(h):
    st, P = population(h, 1, 1, 2, 1, 1)
    t = h.real("t", -1, -0.001)
    which = h.choose("which", ["stationarity_tol", "feasibility_tol", "active_tol", "jac"])
    try:
        if which == "jac":
            st.J = None
            st.check_KKT()
        else:
            st.check_KKT(**{which: t})
        h.prove(False, "refused")
    except (ValueError if which != "jac" else RuntimeError):
        pass
    h.reach()
