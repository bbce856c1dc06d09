"""C22: filling a front approximation"""
import itertools

import numpy as np
from sklearn.cluster import DBSCAN as RealDBSCAN

import hvd.rsg as G
from vt.harness import Check

C = Check(
    "C22",
    ["RSG", "interpolate_tst", "ComponentDetection"],
    [
        "sklearn's DBSCAN by its definition (a pure Python stand-in: core points have enough points within the radius, themselves included; components are the connected core points with what they reach)",
        "front approximations are staircases with steps in the directions (3,-4), (4,-3), (1,0), (5,-12) and symbolic step lengths, so that lengths are rational; given in any order",
    ],
)
DIRS = [(3, -4, 5), (4, -3, 5), (1, 0, 1), (5, -12, 13)]


class DBSCAN:
    H = None

    def __init__(self, eps=0.5, *, min_samples=5, metric="euclidean", **k):
        self.eps, self.k = eps, min_samples

    def fit(self, X, y=None, sample_weight=None):
        h, n = self.H, len(X)
        memo = {}

        def near(i, j):
            if i == j:
                return True
            key = (min(i, j), max(i, j))
            if key not in memo:
                memo[key] = bool(h.sqrt(sum((a - b) ** 2 for a, b in zip(X[key[0]], X[key[1]]))) <= self.eps)
            return memo[key]

        nb = [[j for j in range(n) if near(i, j)] for i in range(n)]
        core = [len(v) >= self.k for v in nb]
        lab, c = [-1] * n, 0
        for i in range(n):
            if core[i] and lab[i] < 0:
                stack = [i]
                lab[i] = c
                while stack:
                    q = stack.pop()
                    for j in nb[q] if core[q] else []:
                        if lab[j] < 0:
                            lab[j] = c
                            stack.append(j)
                c += 1
        self.labels_ = np.array(lab)
        return self

    def fit_predict(self, X, y=None, sample_weight=None):
        return self.fit(X).labels_


def environment(h):
    if h.sym:
        cls = type("DBSCAN", (DBSCAN,), {"H": h})
        h.patch_everywhere(RealDBSCAN, cls)


def staircase(h, dirs, hi, small=0.001, gap=None):
    """points in order of the first objective and the lengths of the steps between them"""
    P, L = [[h.real("x0", -1, 1), h.real("y0", -1, 1)]], []
    for k, d in enumerate(dirs):
        t = h.real(f"t{k}", small, hi) if gap is None else h.q(1, 2) if k == gap else h.real(f"t{k}", small, 0.079)
        a, b, c = DIRS[d]
        P.append([P[-1][0] + t * h.q(a, c), P[-1][1] + t * h.q(b, c)])
        L.append(t)
    return P, L


def walk(P, L, s, h):
    """the point at arc length s"""
    for i, t in enumerate(L):
        if i == len(L) - 1 or s <= t:
            u = [(b - a) / t for a, b in zip(P[i], P[i + 1])]
            return [a + s * v for a, v in zip(P[i], u)]
        s = s - t
    return list(P[0])


def near(h, got, want, what):
    h.eq(h.array(list(got)), h.array(list(want)), what, tol=1e-5)


def groups(h, P, L, eps):
    """maximal runs without a gap larger than eps, isolated points left out"""
    out = [[0]]
    for i, t in enumerate(L):
        if t <= eps:
            out[-1].append(i + 1)
        else:
            out.append([i + 1])
    return [g for g in out if len(g) > 1]


def off_kink(h, conds):
    """concrete replay: not within rounding of a case distinction"""
    if not h.sym:
        for v in conds:
            h.assume(abs(v) > 1e-9)


CD = [dict(dirs=(0, 1), eps=0.08), dict(dirs=(0, 2, 1), eps=0.08), dict(dirs=(3, 0, 1), eps=0.25), dict(dirs=(0, 1, 0, 3), eps=0.08, _thorough=1)]


@C.harness(params=CD, bounds="three or four points (five thorough), gaps between 0.001 and 1")
def components(h, dirs, eps):
    """components end exactly at gaps larger than the radius"""
    environment(h)
    P, L = staircase(h, dirs, 1)
    off_kink(h, [t - eps for t in L])
    order = h.choose("order", list(itertools.permutations(range(len(P))))[:: 1 if len(P) < 4 else 5])
    comps, num = G.ComponentDetection(h.array([P[i] for i in order]), eps, 2)
    want = groups(h, P, L, eps)
    h.prove(num == len(comps) == len(want), "number of components", detail=(num, len(comps), want))
    where = lambda row: [i for i, p in enumerate(P) if all(abs(float(a - b)) < 1e-12 if not h.sym else (a - b).is_zero() if hasattr(a - b, "is_zero") else bool(a == b) for a, b in zip(row, p))]
    got = []
    for c in comps:
        ids = [where(r) for r in c]
        h.prove(all(len(v) == 1 for v in ids), "components consist of the given points", detail=ids)
        got.append(sorted(v[0] for v in ids))
    h.prove(sorted(got) == want, "components end at the gaps larger than the radius", detail=(got, want, L))
    h.reach()


IT = [dict(dirs=(0,), N=4), dict(dirs=(0, 1), N=4), dict(dirs=(0, 3), N=3), dict(dirs=(0, 1), N=1), dict(dirs=(0, 1), N=0), dict(dirs=(), N=3), dict(dirs=(1, 0, 2), N=4, _thorough=1), dict(dirs=(0, 3, 1), N=5, _thorough=1)]


@C.harness(params=IT, bounds="up to three points (four thorough), up to four filled points (five thorough), input in any order, one point given twice")
def interpolate(h, dirs, N):
    """equally spaced along the polygonal line through the sorted points, end points included"""
    P, L = staircase(h, dirs, 1)
    rows = list(P)
    if h.choose("twice", 2):
        rows.append(P[len(P) // 2])
    order = h.choose("order", list(itertools.permutations(range(len(rows))))[:: 1 if len(rows) < 4 else 5])
    out = G.interpolate_tst(h.array([rows[i] for i in order]), N)
    h.prove(np.shape(out) == (N, 2), "requested number of points", detail=np.shape(out))
    if N == 1:
        h.prove(any(all(bool(abs(a - b) <= 1e-9) for a, b in zip(out[0], p)) for p in (P[0], P[-1])), "a single point is an end point", detail=out)
    elif N > 1:
        total = sum(L)
        for k, r in enumerate(out):
            s = total * h.q(k, N - 1) if L else 0
            near(h, r, P[0] if k == 0 else P[-1] if k == N - 1 else walk(P, L, s, h), "equally spaced points of the line")
    h.reach()


RS = [dict(dirs=(0, 1), N=4), dict(dirs=(0, 2, 1), N=3), dict(dirs=(3, 1), N=3), dict(dirs=(1, 0, 0), N=2), dict(dirs=(0, 1, 0, 1), N=4, gap=2), dict(dirs=(0, 1, 2), N=5, _thorough=1), dict(dirs=(0, 1, 0, 1), N=4, _thorough=1)]


@C.harness(params=RS, bounds="three to five points, two to four requested points (five thorough), gaps between 0.001 and 0.3, radius 0.08", obl_timeout=30000)
def fill(h, dirs, N, gap=None):
    """every component is filled evenly with its share of the points"""
    environment(h)
    P, L = staircase(h, dirs, 0.3, gap=gap)
    off_kink(h, [t - 0.08 for t in L])
    order = h.choose("order", list(itertools.permutations(range(len(P))))[:: 2 if len(P) < 4 else 11 if gap is None else 17])
    want = groups(h, P, L, 0.08)
    if want:
        lens = [sum(L[i] for i in g[:-1]) for g in want]
        total = sum(lens)
        for s in lens:
            off_kink(h, [2 * N * s - (2 * k + 1) * total for k in range(N + 1)])
    out = G.RSG(h.array([P[i] for i in order]), N)
    if not want:
        h.prove(len(out) == 0, "nothing to fill", detail=out)
        h.reach()
        return
    h.prove(np.ndim(out) == 2 and np.shape(out)[1] == 2, "shape", detail=np.shape(out))
    h.prove(abs(len(out) - N) <= len(want) / 2, "requested number of points up to rounding", detail=len(out))
    rest, runs, pos = dict(enumerate(want)), [], 0
    while pos < len(out) and rest:
        c = next((k for k, g in rest.items() if inside(h, out[pos], P, g)), None)
        if c is None:
            break
        n = 0
        while pos + n < len(out) and inside(h, out[pos + n], P, rest[c]):
            n += 1
        runs.append((c, pos, n))
        rest.pop(c)
        pos += n
    h.prove(pos == len(out), "every point belongs to a component, one component after the other", detail=(pos, len(out)))
    for c, pos, n in runs + [(c, pos, 0) for c in rest]:
        g, s = want[c], lens[c]
        h.prove(h.And(2 * (n * total - N * s) <= total * (1 + 1e-9), 2 * (n * total - N * s) >= -total * (1 + 1e-9)), "each component gets its share", detail=(n, s, total))
        for k in range(n):
            if n > 1:
                l = [L[i] for i in g[:-1]]
                p = [P[i] for i in g]
                near(h, out[pos + k], p[0] if k == 0 else p[-1] if k == n - 1 else walk(p, l, s * h.q(k, n - 1), h), "equally spaced points of the component")
            else:
                h.prove(any(all(bool(abs(a - b) <= 1e-9) for a, b in zip(out[pos], P[i])) for i in g), "a single point is one of the component", detail=out)
    h.reach()


def inside(h, r, P, g):
    """first objective within the range of the component"""
    tol = 0 if h.sym else 1e-9
    return bool(r[0] >= P[g[0]][0] - tol) and bool(r[0] <= P[g[-1]][0] + tol)
