"""Contract stand-ins for the external libraries hvd calls (scipy, ...)."""
import builtins
import math
import types
from itertools import permutations

import numpy as np

from . import engine as E
from .engine import EncodingError, Sym, lift
from .npshim import NPS, all_const, emap, is_sym, oarr, sym_solve, unobj, wrap


class _Math(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, k):
        f = getattr(math, k)
        if not callable(f):
            return f

        def g(*a, **kw):
            if k in ("prod", "fsum", "dist", "hypot") and is_sym(list(a)):
                if k == "prod":
                    return lift(NPS.prod(NPS.array(list(a[0]))) * kw.get("start", 1))
                if k == "fsum":
                    return lift(NPS.sum(NPS.array(list(a[0]))))
                v = [lift(y) for y in a] if k == "hypot" else [lift(y) - z for y, z in zip(*a)]
                return NPS.sum(NPS.array([y * y for y in v])).sqrt()
            if k == "isclose" and is_sym(list(a)):
                x, y = lift(a[0]), lift(a[1])
                d, rel = builtins.abs(x - y), kw.get("rel_tol", 1e-09)
                return bool(d <= kw.get("abs_tol", 0.0)) or bool(d <= rel * builtins.abs(x)) or bool(d <= rel * builtins.abs(y))
            if a and is_sym(a[0]):
                x = lift(a[0])
                if k in ("sqrt", "exp", "log", "sin", "cos", "tan", "tanh"):
                    return getattr(x, k)()
                if k == "floor":
                    return E.sym_floor(x)
                if k == "ceil":
                    return -E.sym_floor(-x)
                if k == "fabs":
                    return builtins.abs(x)
                if k == "pow":
                    return x ** a[1]
                if k == "isnan":
                    return x.isnan()
                if k in ("isinf", "isfinite"):
                    inf = x.p is None and not x.isnan()
                    return inf if k == "isinf" else x.p is not None
                raise EncodingError("math." + k)
            return f(*a, **kw)

        return g


MATH = _Math()


def cdist(XA, XB, metric="euclidean", **kw):
    XA, XB = oarr(XA), oarr(XB)
    out = np.empty((len(XA), len(XB)), dtype=object)
    for i in range(len(XA)):
        for j in range(len(XB)):
            if callable(metric):
                out[i, j] = lift(metric(wrap(XA[i].copy()), wrap(XB[j].copy()), **kw))
                continue
            d = XA[i] - XB[j]
            s = lift(0)
            if metric in ("euclidean", "sqeuclidean", "minkowski") and kw.get("p", 2) == 2:
                for v in d:
                    s = s + v * v
                out[i, j] = s.sqrt() if metric != "sqeuclidean" else s
            elif metric == "minkowski":
                for v in d:
                    s = s + builtins.abs(v) ** kw["p"]
                out[i, j] = s ** (1 / kw["p"])
            elif metric in ("cityblock", "chebyshev"):
                for v in d:
                    s = s + builtins.abs(v) if metric == "cityblock" else NPS.max([s, builtins.abs(v)])
                out[i, j] = s
            else:
                raise EncodingError("cdist metric " + str(metric))
    return wrap(out)


def block_diag(*arrs):
    arrs = [np.atleast_2d(oarr(a)) for a in arrs]
    out = NPS.zeros((builtins.sum(a.shape[0] for a in arrs), builtins.sum(a.shape[1] for a in arrs)))
    r = c = 0
    for a in arrs:
        out[r : r + a.shape[0], c : c + a.shape[1]] = a
        r += a.shape[0]
        c += a.shape[1]
    return out


def solve(a, b, **kw):
    return sym_solve(a, b)


def linear_sum_assignment(cost, maximize=False):
    """contract: an injective assignment of minimal total cost (any one of them)"""
    if not is_sym(cost):
        import scipy.optimize

        return scipy.optimize.linear_sum_assignment(cost, maximize)
    C = oarr(cost)
    if all_const(C):
        import scipy.optimize

        return scipy.optimize.linear_sum_assignment(unobj(C), maximize)
    if maximize:
        C = -C
    n, m = C.shape
    if n > m:
        c, r = linear_sum_assignment(C.T)
        o = np.argsort(r)
        return r[o], c[o]
    # a function of the cost matrix; ties between optimal assignments are broken independently of the
    # order of the columns
    cur = E.PATH.cur
    memo = cur.__dict__.setdefault("lsa_memo", {})
    seen = cur.__dict__.setdefault("lsa_cols", {})
    cols = [seen.setdefault(tuple(E.pkey(lift(c).p) for c in C[:, j]), len(seen)) for j in range(m)]
    order = sorted(range(m), key=lambda j: cols[j])
    key = tuple(cols[j] for j in order)
    if key not in memo:
        D = C[:, order]
        perms = list(permutations(range(m), n))
        tot = [builtins.sum((D[i, p[i]] for i in range(n)), Sym.of(0)) for p in perms]
        cur.ctr = getattr(cur, "ctr", 0) + 1
        k = cur.choose(f"lsa{cur.ctr}", len(perms))
        for j in range(len(perms)):
            if j != k:
                cur.assume(tot[k] <= tot[j])
        memo[key] = perms[k]
    return np.arange(n), np.array([order[j] for j in memo[key]])


def qr(a, *args, **kw):
    """contract: Q orthogonal, its last columns span the orthogonal complement of the columns of a"""
    if not is_sym(a) or all_const(a):
        import scipy.linalg

        return scipy.linalg.qr(unobj(a), *args, **kw)
    A = oarr(a)
    n, k = A.shape
    cols = []
    for j in range(k):
        v = A[:, j].copy()
        for q in cols:
            v = v - q * builtins.sum((q[i] * A[i, j] for i in range(n)), Sym.of(0))
        s = builtins.sum((x * x for x in v), Sym.of(0))
        if s == 0:
            # the factor is not determined: any matrix (an over-approximation of the orthogonal ones)
            cur = E.PATH.cur
            cur.ctr = getattr(cur, "ctr", 0) + 1
            return wrap(np.array([[cur.real(f"qr{cur.ctr}_{i}_{k}", -1, 1) for k in range(n)] for i in range(n)], dtype=object)), None
        r = s.sqrt()
        cols.append(np.array([x / r for x in v], dtype=object))
    if len(cols) == n - 1 and n == 2:
        cols.append(np.array([-cols[0][1], cols[0][0]], dtype=object))
    elif len(cols) == n - 1 and n == 3:
        # cross product of the original columns, normalised
        u, w = A[:, 0], A[:, 1]
        v = np.array([u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]], dtype=object)
        r = builtins.sum((x * x for x in v), Sym.of(0)).sqrt()
        cols.append(np.array([x / r for x in v], dtype=object))
    elif len(cols) < n:
        raise EncodingError("qr shape")
    Q = np.empty((n, n), dtype=object)
    for j, c in enumerate(cols):
        Q[:, j] = c
    return wrap(Q), None


def directed_hausdorff(u, v, seed=0):
    if not (is_sym(u) or is_sym(v)):
        import scipy.spatial.distance

        return scipy.spatial.distance.directed_hausdorff(u, v, seed)
    D = cdist(u, v)
    best, bi, bj = None, 0, 0
    for i in range(D.shape[0]):
        j = int(NPS.argmin(D[i]))
        if best is None or D[i, j] > best:
            best, bi, bj = D[i, j], i, j
    return best, bi, bj


_MODS = {}


def module_for(v):
    return _MODS.get(id(v))


def register(replace):
    import scipy.linalg
    import scipy.spatial.distance

    replace(scipy.spatial.distance.cdist, cdist)
    import scipy.optimize

    replace(scipy.optimize.linear_sum_assignment, linear_sum_assignment)
    replace(scipy.linalg.qr, qr)
    replace(scipy.spatial.distance.directed_hausdorff, directed_hausdorff)
    replace(scipy.linalg.block_diag, block_diag)
    replace(scipy.linalg.solve, solve)
