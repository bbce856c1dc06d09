"""C17: packing and unpacking of decision vectors and multipliers"""
import numpy as np

import hvd.mmd_newton as MN
import hvd.utils as UT
from checks import opt
from vt.harness import Check

C = Check("C17", ["utils.matrix_to_Nd_vector", "utils.Nd_vector_to_matrix", "mmd_newton.Nd_vector_to_matrix", "State.primal/dual"], ["booleans of the active sets are enumerated exhaustively; values are symbolic"])


def layout(X, n, act):
    N = len(X)
    return [X[i, j] for i in range(N) for j in range(n)] + [X[i, n + k] for i in range(N) for k in range(act.shape[1]) if act[i, k]]


SH = [(1, 1, 0), (2, 1, 0), (3, 2, 0), (1, 1, 1), (1, 2, 3), (2, 1, 2), (2, 2, 3), (3, 1, 2), (3, 2, 1)]


@C.harness(params=[dict(N=N, n=n, p=p) for N, n, p in SH] + [dict(N=N, n=n, p=p, _thorough=1) for N, n, p in [(3, 3, 3), (4, 2, 2), (5, 1, 2), (2, 4, 4), (1, 5, 6), (6, 3, 1)]], bounds="all combinations of active multipliers")
def roundtrip(h, N, n, p):
    act = np.array([[bool(h.choose(f"act{i}{k}", 2)) for k in range(p)] for i in range(N)], dtype=bool).reshape(N, p)
    X = h.reals("x", (N, n + p), -9, 9)
    inact = [(i, k) for i in range(N) for k in range(p) if not act[i, k]]
    want = layout(X, n, act)
    keep = X.copy()
    v = UT.matrix_to_Nd_vector(X, n, act.copy())
    h.prove(np.size(v) == len(want), "length of the stacked vector", detail=(np.size(v), len(want)))
    v = np.asarray(v).reshape(-1)
    h.eq(v, h.array(want), "decision variables row by row, then the active multipliers row by row")
    h.eq(X, keep, "packing leaves the matrix alone")
    full = X.copy()
    for i, k in inact:
        full[i, n + k] = 0
    both = np.c_[np.ones((N, n), dtype=bool), act]
    w = h.array(want)
    for nm, out in (("newton", UT.Nd_vector_to_matrix(w.copy(), N, n + p, n, act.copy())), ("mmd", MN.Nd_vector_to_matrix(w.copy(), N, n + p, n, both.copy()))):
        h.prove(np.shape(out) == (N, n + p), f"{nm}: shape of the unpacked matrix", detail=np.shape(out))
        h.eq(out, full, f"{nm}: every row keeps its own variables and multipliers, inactive multipliers are zero")
    # stacking the parts again
    again = np.asarray(UT.matrix_to_Nd_vector(np.asarray(UT.Nd_vector_to_matrix(w.copy(), N, n + p, n, act.copy())), n, act.copy())).reshape(-1)
    h.eq(again, w, "unpacking followed by packing returns the vector")
    h.reach()


@C.harness(params=[dict(N=N, n=n, ne=e, ni=i) for N, n, e, i in [(1, 1, 0, 0), (2, 2, 1, 0), (2, 1, 0, 2), (2, 2, 1, 2), (3, 1, 2, 1)]], bounds="all values")
def parts(h, N, n, ne, ni):
    """the population's split into decision variables and multipliers"""
    from hvd.base import State

    F = opt.Fns(h, n, 2, ne, ni)
    st = State(n, ne, ni, F.func, F.jac, F.h, F.h_jac, F.h_hess, F.g, F.g_jac, F.g_hess)
    X = h.reals("x", (N, n + ne + ni), -2, 2)
    st.update(X.copy())
    h.prove(np.shape(st.primal) == (N, n) and np.shape(st.dual) == (N, ne + ni), "shapes of the parts", detail=(np.shape(st.primal), np.shape(st.dual)))
    h.eq(st.primal, h.array([[X[i, j] for j in range(n)] for i in range(N)]), "decision variables of every point")
    for i in range(N):
        for k in range(ne + ni):
            h.eq(st.dual[i, k], X[i, n + k], "multipliers of every point, equalities first")
    both = [list(a) + list(b) for a, b in zip(st.primal, st.dual)]
    h.eq(h.array(both), X, "the parts put together again")
    h.reach()
