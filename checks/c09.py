"""C09: the cached evaluations of a population belong to its current points"""
import copy
import os
import tempfile

import numpy as np

from vt.harness import Check

C = Check(
    "C09",
    ["State.update/update_one/__getitem__/evaluate/_get_batch_variant/eval_jac/eval_cstr/eval_cstr_jac/eval_cstr_hess/is_feasible/save/load"],
    ["objective, constraints and their derivatives are arbitrary functions of the point (fresh symbols per distinct argument)", "pickle is replaced by an in-memory store that refuses functions"],
)


class Problem:
    """arbitrary functions; `batch` adds the *_batch methods native problems have"""

    def __init__(self, h, n, m, ne, ni, batch):
        self.u = {
            "func": h.ufun("f", (m,), -3, 3), "jac": h.ufun("J", (m, n), -3, 3),
            "h": h.ufun("h", (ne,), -1, 1), "h_jac": h.ufun("dh", (ne, n), -3, 3), "h_hess": h.ufun("ddh", (ne, n, n), -3, 3),
            "g": h.ufun("g", (ni,), -1, 1), "g_jac": h.ufun("dg", (ni, n), -3, 3), "g_hess": h.ufun("ddg", (ni, n, n), -3, 3),
        }
        for k, f in self.u.items():
            if batch:

                def one(self_, x, f=f):
                    assert np.ndim(x) == 1
                    return f(x)

                def many(self_, X, f=f):
                    assert np.ndim(X) == 2
                    return h.array([f(x) for x in X])

                cls = type("P", (), {})
                one.__name__, many.__name__ = k, k + "_batch"
                setattr(cls, k, one)
                setattr(cls, k + "_batch", many)
                setattr(self, k, getattr(cls(), k))
            else:
                setattr(self, k, f)


def make(h, n, m, ne, ni, batch):
    from hvd.base import State

    P = Problem(h, n, m, ne, ni, batch)
    return P, State(n, ne, ni, P.func, P.jac, P.h if ne else None, P.h_jac if ne else None, P.h_hess if ne else None, P.g if ni else None, P.g_jac if ni else None, P.g_hess if ni else None)


def rows(h, fn, X, shape):
    out = np.empty((len(X),) + shape, dtype=object)
    for i, x in enumerate(X):
        out[i] = fn(x)
    return h.array(out)


def invariant(h, P, s, X, n, m, ne, ni, tag):
    N = len(X)
    h.prove(s.N == N, tag + ": size")
    h.eq(s.X, X, tag + ": decision vectors and multipliers")
    x = [r[:n] for r in X]
    h.eq(s.primal, h.array([list(r[:n]) for r in X]), tag + ": primal part")
    h.eq(s.Y, rows(h, P.u["func"], x, (m,)), tag + ": objective values")
    h.eq(s.J, rows(h, P.u["jac"], x, (m, n)), tag + ": Jacobians")
    H = rows(h, P.u["h"], x, (ne,)) if ne else h.array(np.zeros((N, 0)))
    G = rows(h, P.u["g"], x, (ni,)) if ni else h.array(np.zeros((N, 0)))
    cat = lambda a, b, ax: h.array(np.concatenate([np.asarray(a), np.asarray(b)], axis=ax))
    h.eq(s.cstr_value, cat(H, G, 1), tag + ": constraint values")
    h.eq(s.H, H, tag + ": equality part")
    h.eq(s.G, G, tag + ": inequality part")
    if ne + ni:
        d = [rows(h, P.u[k], x, (c, n)) for k, c in (("h_jac", ne), ("g_jac", ni)) if c]
        h.eq(s.cstr_grad, cat(d[0], d[1], 1) if len(d) == 2 else d[0], tag + ": constraint Jacobians")
        d = [rows(h, P.u[k], x, (c, n, n)) for k, c in (("h_hess", ne), ("g_hess", ni)) if c]
        h.eq(s.cstr_hess, cat(d[0], d[1], 1) if len(d) == 2 else d[0], tag + ": constraint Hessians")
    feas = s.is_feasible()
    t = h.q(1, 10000)
    for i in range(N):
        for j in range(ne + ni):
            want = True if j < ne else bool(G[i, j - ne] >= -t)
            h.prove(bool(s.active_indices[i, j]) == want, tag + ": active set")
        ok = all(bool(v <= t) and bool(v >= -t) for v in H[i]) and all(bool(v < -t) for v in G[i])
        h.prove(bool(feas[i]) == ok, tag + ": feasibility flag")


SH = [dict(N=2, n=1, m=1, ne=0, ni=0), dict(N=1, n=2, m=2, ne=1, ni=0), dict(N=2, n=1, m=2, ne=0, ni=1), dict(N=1, n=1, m=1, ne=1, ni=2)]


@C.harness(params=[dict(**s, batch=b) for s in SH for b in (0, 1)] + [dict(N=3, n=2, m=2, ne=1, ni=1, batch=b, _thorough=1) for b in (0, 1)], bounds="one full update, every field")
def update(h, N, n, m, ne, ni, batch):
    P, s = make(h, n, m, ne, ni, batch)
    X = h.reals("x", (N, n + ne + ni), -2, 2)
    X0 = X.copy()
    s.update(X)
    invariant(h, P, s, X0, n, m, ne, ni, "update")
    X[0, 0] = X[0, 0] + 1
    h.eq(s.X, X0, "the given array is not aliased")
    h.prove(s.n_jac_evals == N, "one Jacobian evaluation per point")
    h.prove(s.n_cstr_jac_evals == (N if ne + ni else 0), "one constraint Jacobian evaluation per point")
    h.prove(s.n_cstr_hess_evals == (N if ne + ni else 0), "one constraint Hessian evaluation per point")
    h.reach()


OPS = ["update", "update_one", "deepcopy", "slice", "permute"]


@C.harness(params=[dict(N=2, n=1, m=1, ne=1, ni=0, L=2), dict(N=2, n=1, m=1, ne=0, ni=1, L=2), dict(N=2, n=2, m=1, ne=0, ni=0, L=2), dict(N=2, n=1, m=2, ne=1, ni=1, L=2, _thorough=1), dict(N=2, n=1, m=1, ne=0, ni=1, L=3, _thorough=1)],
           bounds="all histories of L operations after a first update; copies and slices are mutated and the originals re-checked")
def history(h, N, n, m, ne, ni, L):
    P, s = make(h, n, m, ne, ni, 0)
    X = h.reals("x", (N, n + ne + ni), -2, 2)
    s.update(X)
    live = [(s, X.copy())]
    for k in range(L):
        op = h.choose(f"op{k}", OPS)
        s, X = live[-1]
        n0 = s.n_jac_evals
        M = len(X)
        if op == "update":
            X = h.reals(f"u{k}", (M, n + ne + ni), -2, 2)
            s.update(X)
            live[-1] = (s, X.copy())
            h.prove(s.n_jac_evals == n0 + M, "evaluation counter after update")
        elif op == "update_one":
            i = h.choose(f"i{k}", M)
            x = h.reals(f"o{k}", n + ne + ni, -2, 2)
            s.update_one(x, i)
            X = X.copy()
            X[i] = x
            live[-1] = (s, X)
            h.prove(s.n_jac_evals == n0 + 1, "evaluation counter after update_one")
        elif op == "deepcopy":
            live.append((copy.deepcopy(s), X.copy()))
        else:
            idx = np.array([M - 1]) if op == "slice" else np.arange(M)[::-1].copy()
            c = s[idx]
            live.append((c, h.array([list(X[j]) for j in idx])))
        # only what can have changed through sharing needs re-checking
    for j, (s, X) in enumerate(live):
        invariant(h, P, s, X, n, m, ne, ni, f"object {j}")
    h.reach()


class Store:
    def __init__(self):
        self.data = None

    def dump(self, obj, file):
        for k, v in obj.items():
            if callable(v):
                raise AttributeError(f"Can't pickle local object {k}")
        self.data = copy.deepcopy(obj)

    def load(self, file):
        return self.data


@C.harness(params=[dict(N=2, n=1, m=2, ne=1, ni=1), dict(N=1, n=2, m=1, ne=0, ni=0)], bounds="one save and load")
def save_load(h, N, n, m, ne, ni):
    import hvd.base as B

    P, s = make(h, n, m, ne, ni, 0)
    X = h.reals("x", (N, n + ne + ni), -2, 2)
    s.update(X)
    h.patch(B, "pickle", Store())
    d = tempfile.mkdtemp()
    try:
        s.save(os.path.join(d, "s"))
        r = B.State.load(os.path.join(d, "s.pkl"))
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    for k in ("X", "Y", "J", "cstr_value", "cstr_grad", "cstr_hess"):
        h.eq(getattr(r, k), getattr(s, k), "loaded " + k)
    h.prove((r.n_var, r.n_eq, r.n_ieq, r.n_jac_evals, r.N) == (s.n_var, s.n_eq, s.n_ieq, s.n_jac_evals, s.N), "loaded sizes and counters")
    h.prove(callable(s.func) and callable(s.jac), "saving keeps the functions of the saved object")
    h.reach()
