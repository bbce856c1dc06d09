"""oracles shared by the checks; everything here works on symbolic values and on concrete numbers"""
from fractions import Fraction
from itertools import combinations

import numpy as np


def box_union(Y, ref):
    """Lebesgue measure of the union of the boxes [y, ref], by inclusion-exclusion"""
    pts = [y for y in Y if all(bool(a < r) for a, r in zip(y, ref))]
    tot = 0
    for k in range(1, len(pts) + 1):
        for S in combinations(pts, k):
            v = 1
            for c in range(len(ref)):
                hi = S[0][c]
                for p in S[1:]:
                    if p[c] > hi:
                        hi = p[c]
                v = v * (ref[c] - hi)
            tot = tot + (v if k % 2 else -v)
    return tot


def multilinear_derivs(h, f, Y):
    """gradient (flat) and Hessian of f(Y) for f piecewise multilinear, Y in the interior of a piece.
    symbolic mode: exact symbolic derivatives; concrete mode: exact rational difference quotients"""
    flat = list(np.asarray(Y, dtype=object).reshape(-1))
    n = len(flat)
    if h.sym:
        from vt.engine import diff, lift

        v = lift(f(Y))
        g = [diff(v, y) for y in flat]
        H = [[diff(g[i], flat[j]) for j in range(n)] for i in range(n)]
    else:
        base = [Fraction(float(y)) for y in flat]
        vals = sorted(set(base))
        gap = min([b - a for a, b in zip(vals, vals[1:])] + [Fraction(1)])
        e = gap / 8
        shape = np.asarray(Y).shape

        def F(d):
            z = list(base)
            for i, s in d:
                z[i] = z[i] + s
            return f(np.array(z, dtype=object).reshape(shape))

        g = [(F([(i, e)]) - F([(i, -e)])) / (2 * e) for i in range(n)]
        H = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                H[i][j] = H[j][i] = (F([(i, e), (j, e)]) - F([(i, e), (j, -e)]) - F([(i, -e), (j, e)]) + F([(i, -e), (j, -e)])) / (4 * e * e)
        g = [float(x) for x in g]
        H = [[float(x) for x in r] for r in H]
    G = np.empty(n, dtype=object)
    HH = np.empty((n, n), dtype=object)
    for i in range(n):
        G[i] = g[i]
        for j in range(n):
            HH[i, j] = H[i][j]
    return G, HH


def general_position(h, Y, ref, sort0=True):
    """pairwise different coordinates, strictly inside ref, optionally sorted along objective 0"""
    N, m = Y.shape
    for i in range(N):
        for c in range(m):
            h.assume(Y[i, c] < ref[c])
    if sort0:
        for i in range(N - 1):
            h.assume(Y[i, 0] < Y[i + 1, 0])
    else:
        h.distinct(Y[:, 0])
    for c in range(1, m):
        h.distinct(Y[:, c])


def refpoint(h, m, base=10):
    return h.array([base + c for c in range(m)])


def dominates(a, b):
    """weak dominance with one strict component"""
    le = all(bool(x <= y) for x, y in zip(a, b))
    return le and any(bool(x < y) for x, y in zip(a, b))
