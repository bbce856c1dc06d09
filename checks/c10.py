"""C10: the KKT test accepts exactly the stationary points"""
from itertools import permutations

import numpy as np

from vt.harness import Check

C = Check(
    "C10",
    ["State.check_KKT"],
    ["linprog is replaced by its contract: the returned vector is feasible for the program it was given and no worse than any feasible vector of the harness; the replay uses the real HiGHS solver",
     "columns of the program are identified with gradients by their entries"],
)


class Result:
    pass


def contract(h, ctx):
    """linprog over symbolic data"""
    from vt import engine as E
    from vt.engine import EncodingError, lift
    from vt.npshim import wrap

    def linprog(c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=None, **kw):
        path = h.path
        c = np.asarray(c, dtype=object)
        n = len(c)
        rows = lambda A, b: [] if A is None else [(list(np.asarray(r, dtype=object)), v) for r, v in zip(np.asarray(A, dtype=object), np.asarray(b, dtype=object))]
        ub, eq = rows(A_ub, b_ub), rows(A_eq, b_eq)
        bd = list(bounds) if bounds is not None else [(0, None)] * n
        if len(bd) == 2 and n != 2 and not isinstance(bd[0], (tuple, list)):
            bd = [tuple(bd)] * n
        dot = lambda r, x: sum((lift(a) * b for a, b in zip(r, x)), lift(0))

        def conds(x):
            out = [lift(dot(r, x)) - v <= 0 for r, v in ub] + [lift(dot(r, x)) - v == 0 for r, v in eq]
            for (lo, hi), v in zip(bd, x):
                if lo is not None:
                    out.append(lift(v) - lo >= 0)
                if hi is not None:
                    out.append(lift(v) - hi <= 0)
            return out

        k = len(ctx["calls"])
        x = [path.real(f"lp{k}_{j}") for j in range(n)]
        for cd in conds(x):
            path.assume(cd)

        def implied(cd):
            if cd.k == "c":
                return cd.a
            return any(frozenset(path.known_sign(p)) <= cd.b for p in (cd.a, path.reduce_zero(cd.a), path.reduce(cd.a)))

        for z in ctx["hints"](n):
            for p in permutations(range(n)):
                w = [z[i] for i in p]
                if all(implied(cd) for cd in conds(w)):
                    path.assume(lift(dot(c, x)) <= dot(c, w))
                    break
        r = Result()
        r.success, r.status, r.x, r.fun = True, 0, wrap(np.array(x, dtype=object)), dot(c, x)
        # which variable multiplies which gradient
        cols = {}
        keyset = lambda v: {repr(sorted(lift(a).p.items())) for a in v if lift(a).p}
        for j in range(n):
            col = keyset([r_[j] for r_, _ in ub])
            for name, g in ctx["grads"].items():
                if name not in cols and col and col <= keyset(list(g) + [-a for a in g]):
                    cols[name] = x[j]
                    break
        ctx["calls"].append(cols)
        return r

    return linprog


def make(h, m, ne, ni, n, forced=False):
    from hvd.base import State

    J = h.reals("J", (m, n), -3, 3)
    if forced:
        for k in range(m):
            h.assume(J[k, 0] >= 1)
    dH, dG = h.reals("dh", (ne, n), -3, 3), h.reals("dg", (ni, n), -3, 3)
    H, G = h.reals("h", (ne,), -1, 1), h.reals("g", (ni,), -1, 1)
    s = State(n, ne, ni, lambda x: h.array([0] * m), lambda x: J, (lambda x: H) if ne else None, (lambda x: dH) if ne else None, (lambda x: h.array(np.zeros((ne, n, n)))) if ne else None,
              (lambda x: G) if ni else None, (lambda x: dG) if ni else None, (lambda x: h.array(np.zeros((ni, n, n)))) if ni else None)
    s.update(h.array(np.zeros((1, n + ne + ni))))
    return s, J, H, G, dH, dG


SH = [dict(m=1, ne=0, ni=0, n=1), dict(m=2, ne=0, ni=0, n=2), dict(m=2, ne=1, ni=0, n=1), dict(m=1, ne=0, ni=2, n=1), dict(m=2, ne=1, ni=1, n=2), dict(m=1, ne=1, ni=1, n=2), dict(m=3, ne=0, ni=1, n=1, _thorough=1), dict(m=2, ne=0, ni=2, n=2, _thorough=1)]


@C.harness(params=SH, bounds="accepted points: the multipliers of the program witness stationarity; arbitrary tolerances")
def sound(h, m, ne, ni, n):
    import hvd.base as B

    s, J, H, G, dH, dG = make(h, m, ne, ni, n)
    tols = [h.real(t, 0, 0.5) for t in ("tol_s", "tol_f", "tol_a")]
    grads = {("f", k): J[k] for k in range(m)} | {("h", k): dH[k] for k in range(ne)} | {("g", k): dG[k] for k in range(ni)}
    if h.sym:
        ctx = dict(calls=[], hints=lambda n_: [], grads=grads)
        # generic gradients: the columns of the program can be told apart
        h.patch(B, "linprog", contract(h, ctx))
        ok = bool(s.check_KKT(*tols)[0])
    else:
        ok = bool(s.check_KKT(*tols)[0])
    feas = all(bool(v <= tols[1]) and bool(v >= -tols[1]) for v in H) and all(bool(v <= tols[1]) for v in G)
    if ok:
        h.prove(feas, "an accepted point is feasible within tolerance")
        if h.sym:
            from vt.engine import EncodingError

            cols = ctx["calls"][-1]
            act = [k for k in range(ni) if bool(G[k] >= -tols[2])]
            for k in range(ni):
                if k not in act and ("g", k) in cols:
                    h.prove(cols["g", k] == 0, "no multiplier for an inactive inequality")
            need = [("f", k) for k in range(m)] + [("h", k) for k in range(ne)] + [("g", k) for k in act]
            missing = [c for c in need if c not in cols]
            lam = [cols["f", k] for k in range(m) if ("f", k) in cols]
            if len(lam) < m:
                raise EncodingError("columns of the objective gradients not found")
            for v in lam:
                h.prove(v >= 0, "objective weights are non-negative")
            h.eq(sum(lam), 1, "objective weights sum to one")
            for k in act:
                if ("g", k) in cols:
                    h.prove(cols["g", k] >= 0, "inequality multipliers are non-negative")
            used = [c for c in need if c not in missing]
            for a in range(n):
                r = sum(cols[c] * grads[c][a] for c in used)
                h.prove(r <= tols[0], "stationarity residual within tolerance")
                h.prove(r >= -tols[0], "stationarity residual within tolerance (below)")
        else:
            h.prove(exists(J, H, G, dH, dG, tols), "an accepted point is stationary within tolerance")
    h.reach()


def exists(J, H, G, dH, dG, tols, slack=1e-6):
    """independent decision of the definition for concrete numbers, by Z3"""
    import vt.engine as E  # noqa: F401
    import z3

    m, n = J.shape
    act = [k for k in range(len(G)) if G[k] >= -tols[2]]
    lam, mu, nu = [z3.Real(f"l{k}") for k in range(m)], [z3.Real(f"m{k}") for k in range(len(H))], {k: z3.Real(f"n{k}") for k in act}
    q = lambda v: z3.RealVal(repr(float(v)) if "e" not in repr(float(v)) else f"{float(v):.20f}")
    s = z3.Solver()
    s.add([v >= 0 for v in lam] + [v >= 0 for v in nu.values()] + [z3.Sum(lam) == 1])
    for a in range(n):
        r = z3.Sum([lam[k] * q(J[k, a]) for k in range(m)] + [mu[k] * q(dH[k, a]) for k in range(len(H))] + [nu[k] * q(dG[k, a]) for k in act])
        s.add(r <= q(tols[0] + slack), r >= -q(tols[0] + slack))
    return s.check() == z3.sat


@C.harness(params=[dict(**s, forced=f) for s in SH for f in (0, 1)], bounds="points with some admissible multipliers within tolerance are accepted")
def complete(h, m, ne, ni, n, forced):
    import hvd.base as B

    s, J, H, G, dH, dG = make(h, m, ne, ni, n, forced)
    tols = [h.real("tol_s", 0.01, 0.1 if forced else 0.5), h.real("tol_f", 0, 0.5), h.real("tol_a", 0, 0.5)]
    for v in H:
        h.assume(v <= tols[1])
        h.assume(v >= -tols[1])
    for v in G:
        h.assume(v <= tols[1])
    act = [k for k in range(ni) if bool(G[k] >= -tols[2])]
    lam = [h.real(f"lam{k}", 0, 1) for k in range(m - 1)]
    lam.append(1 - sum(lam))
    h.assume(lam[-1] >= 0)
    mu, nu = h.reals("mu", ne), {k: h.real(f"nu{k}", 0) for k in act}
    t = tols[0] if h.sym else tols[0] * (1 - 1e-9)
    for a in range(n):
        r = sum(lam[k] * J[k, a] for k in range(m)) + sum(mu[k] * dH[k, a] for k in range(ne)) + sum(nu[k] * dG[k, a] for k in act)
        h.assume(r - tols[0] <= 0)
        h.assume(r + tols[0] >= 0)
    if h.sym:
        z = list(lam) + list(mu) + [nu[k] for k in act] + [tols[0]]
        # free multipliers may also be written as differences of non-negative ones
        z2 = list(lam) + [p for v in mu for p in ((v, 0) if bool(v >= 0) else (0, -v))] + [nu[k] for k in act] + [tols[0]]
        ctx = dict(calls=[], hints=lambda n_: [y for y in (z, z2) if n_ == len(y)], grads={})
        h.patch(B, "linprog", contract(h, ctx))
        h.prove(bool(s.check_KKT(*tols)[0]), "a point with admissible multipliers is accepted")
    else:
        h.prove(bool(s.check_KKT(tols[0] + 1e-6, tols[1], tols[2])[0]), "a point with admissible multipliers is accepted")
    h.reach()


@C.harness(bounds="negative tolerances, any of the three")
def tolerances(h):
    s = make(h, 1, 0, 1, 1)[0]
    k = h.choose("k", 3)
    t = [0.1, 0.1, 0.1]
    t[k] = -h.real("d", 1e-6, 1)
    try:
        s.check_KKT(*t)
    except ValueError:
        h.prove(True, "negative tolerances are rejected")
    else:
        h.prove(False, "negative tolerances are rejected")
    h.reach()


import checks.kkt  # noqa: E402,F401  populations
