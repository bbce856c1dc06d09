"""C08: reference points are matched optimally and shifted only as requested"""
from itertools import combinations, permutations

import numpy as np

from vt.harness import Check

C = Check(
    "C08",
    ["ReferenceSet.__init__/match/_match/_partition_Y/_match_components/_cluster/shift/set_medoids/reference_set", "utils.compute_chim"],
    ["cdist and directed_hausdorff are evaluated from their definitions; linear_sum_assignment returns any assignment of minimal total cost; KMedoids returns any k different members; qr as a contract",
     "with several components every component holds at least as many points as the cluster assigned to it (asserted by the code)"],
)


class AnyMedoids:
    """contract of KMedoids: some n_clusters different members of the data"""

    def __init__(self, h, cnt):
        self.h, self.cnt = h, cnt

    def __call__(self, n_clusters, **kw):
        h, cnt = self.h, self.cnt

        class KM:
            def fit(_, X):
                cnt.append(0)
                _.medoid_indices_ = np.array(h.choose(f"medoids{len(cnt)}", [list(c) for c in combinations(range(len(X)), n_clusters)]))
                return _

        return KM()


def dist(h, a, b):
    return h.sqrt(sum((x - y) * (x - y) for x, y in zip(a, b)))


def same(h, a, b):
    return h.And(*[(x == y) if h.sym else abs(x - y) < 1e-9 for x, y in zip(a, b)])


def find(h, rows, cand):
    """for each row an index of an equal candidate (different ones), or None"""
    out = []
    for r in rows:
        k = next((j for j in range(len(cand)) if j not in out and (all((x - y).p == {} for x, y in zip(r, cand[j])) if h.sym else same(h, r, cand[j]))), None)
        if k is None:
            return None
        out.append(k)
    return out


def optimal(h, rows, cand, Y, label):
    """rows are different members of cand, in an order of minimal total distance to Y"""
    f = find(h, rows, cand)
    h.prove(f is not None, label + ": every match is a different member of the reference set", detail=f"{rows} from {cand}")
    n = len(rows)
    tot = sum(dist(h, Y[i], rows[i]) for i in range(n))
    for p in permutations(range(n)):
        if list(p) != list(range(n)):
            h.le(tot, sum(dist(h, Y[i], rows[p[i]]) for i in range(n)), label + ": minimal total distance")


def points(h, name, n, m=2):
    return h.reals(name, (n, m), -4, 4)


def apart(h, Y, cand):
    """no point coincides with a reference point (the distance is smooth there)"""
    for y in Y:
        for r in cand:
            h.assume(sum((a - b) * (a - b) for a, b in zip(y, r)) > 0)


def setup(h):
    import hvd.reference_set as R

    cnt = []
    h.patch_everywhere(R.KMedoids, AnyMedoids(h, cnt)) if not h.sym else h.patch(R, "KMedoids", AnyMedoids(h, cnt))
    return R.ReferenceSet


ETA = np.array([-0.6, -0.8])


@C.harness(params=[dict(N=2, M=2), dict(N=3, M=3), dict(N=1, M=3), dict(N=2, M=3), dict(N=2, M=2, touching=1)], bounds="one component with at least as many points as Y")
def match_single(h, N, M, touching=0):
    RS = setup(h)
    R, Y = points(h, "r", M), points(h, "y", N)
    if not touching:
        apart(h, Y, R)
    R0 = R.copy()
    o = RS(R, eta={0: ETA})
    h.eq(o.reference_set, R0, "before matching the reference set is the given one")
    o.match(Y)
    M1 = o.reference_set.copy()
    if M == N:
        optimal(h, M1, list(R0), Y, "one component")
    else:
        h.prove(find(h, M1, list(R0)) is not None, "matches are different members of the reference set")
        optimal(h, M1, list(M1), Y, "chosen members")
    h.eq(R, R0, "the given array is not modified")
    o.re_match = False
    o.match(Y[::-1].copy())
    h.eq(o.reference_set, M1, "a frozen matching does not change")
    h.reach()


OPS = ["match", "shift_all", "shift_one", "shift_none", "freeze"]


@C.harness(params=[dict(N=2, L=3), dict(N=2, L=4, _thorough=1), dict(N=3, L=2)], bounds="one component, all histories of L operations after the first match; each match with new points")
def history(h, N, L):
    RS = setup(h)
    R = points(h, "r", N)
    o = RS(R, eta={0: ETA})
    cur, frozen, matched = [list(r) for r in R], False, False
    for s in range(L):
        op = h.choose(f"op{s}", OPS)
        if op == "match":
            Y = points(h, f"y{s}", N)
            apart(h, Y, cur)
            o.match(Y)
            if not (frozen and matched):
                optimal(h, o.reference_set, cur, Y, "history")
                cur = [list(r) for r in o.reference_set]
            matched = True
        elif op == "freeze":
            o.re_match = frozen
            frozen = not frozen
        else:
            c = h.real(f"c{s}", -1, 1)
            idx = [h.choose(f"i{s}", N)] if op == "shift_one" else []
            if op == "shift_all":
                o.shift(c)
                idx = range(N)
            else:
                o.shift(c, np.array(idx, dtype=int))
                if not matched:
                    idx = range(N)  # before the first matching the whole set moves
            for k in idx:
                cur[k] = [x + c * e for x, e in zip(cur[k], ETA)]
        h.eq(o.reference_set, h.array(cur), "reference points after " + op)
    h.prove(o.N == N, "number of reference points")
    h.reach()


ETAS = {0: np.array([-1.0]), 1: np.array([-2.0]), 2: np.array([-3.0])}  # one objective: the distances are piecewise linear


@C.harness(params=[dict(sizes=(2, 1), clusters=((0, 2), (1,)), fixed=1), dict(sizes=(2, 2), clusters=((0,), (1,)), fixed=1), dict(sizes=(1, 1), clusters=((1,), (0,))), dict(sizes=(1, 1), clusters=((0,),)),
                   dict(sizes=(1, 1, 1), clusters=((1,), (0,)), fixed=1), dict(sizes=(2, 1), clusters=((2, 0), (1,)), fixed=1),
                   dict(sizes=(2, 1), clusters=((0, 2), (1,)), _thorough=1), dict(sizes=(2, 2), clusters=((0,), (1,)), _thorough=1), dict(sizes=(2, 2), clusters=((0, 1), (2, 3)), fixed=1, _thorough=1)],
           bounds="several components with the clusters of Y given; a shift after the match")
def clusters_given(h, sizes, clusters, fixed=0):
    RS = setup(h)
    N = sum(map(len, clusters))
    R = components(h, sizes, fixed)
    Y = h.reals("y", (N, 1), -4, 4)
    R0 = {k: v.copy() for k, v in R.items()}
    if len(set(sizes)) > 1 or max(map(len, clusters)) > min(sizes):
        try:
            o = RS(dict(R), eta=ETAS, Y_idx=[np.array(c) for c in clusters])
            o.match(Y)
        except AssertionError:
            return
    else:
        o = RS(dict(R), eta=ETAS, Y_idx=[np.array(c) for c in clusters])
        o.match(Y)
    M = o.reference_set
    h.prove(tuple(M.shape) == (N, 1), "one reference point per point")
    comp = {}
    cost = {(k, c): hausdorff(h, R0[k], Y[list(cl)]) for k in R0 for c, cl in enumerate(clusters)}
    for c, cl in enumerate(clusters):
        ks = [k for k in R0 if k not in comp.values() and find(h, M[list(cl)], list(R0[k])) is not None]
        h.prove(len(ks) > 0, "the points of a cluster are matched to different members of one component")
        comp[c] = ks[0]
        optimal(h, M[list(cl)], list(M[list(cl)]), Y[list(cl)], "within the component")
    best = sum(cost[comp[c], c] for c in comp)
    for p in permutations(list(R0), len(clusters)):
        if list(p) != [comp[c] for c in sorted(comp)]:
            h.le(best, sum(cost[k, c] for c, k in enumerate(p)), "clusters are assigned to components with minimal total Hausdorff distance")
    k = h.choose("k", N)
    c = h.real("c", -1, 1)
    cur = M.copy()
    o.shift(c, np.array([k]))
    cl = next(i for i, x in enumerate(clusters) if k in x)
    cur[k] = cur[k] + c * ETAS[comp[cl]]
    h.eq(o.reference_set, cur, "a shift uses the direction of the point's component")
    o.match(Y)
    for c, cl in enumerate(clusters):
        h.prove(find(h, o.reference_set[list(cl)], list(cur[list(cl)])) is not None, "a further match keeps the (shifted) points of each component")
    for kk in R0:
        h.eq(R[kk], R0[kk], "the given arrays are not modified")
    h.reach()


def components(h, sizes, fixed):
    if fixed:
        return {k: h.array([[3 * k + j - 2 + h.q(k, 3)] for j in range(n)]) for k, n in enumerate(sizes)}
    R = {k: h.reals(f"r{k}", (n, 1), -4, 4) for k, n in enumerate(sizes)}
    for v in R.values():
        for a, b in zip(v, v[1:]):
            h.assume(a[0] < b[0])
    return R


def hausdorff(h, A, B):
    """max over a of the distance to the nearest b"""
    best = None
    for a in A:
        d = None
        for b in B:
            x = dist(h, a, b)
            if d is None or x < d:
                d = x
        if best is None or d > best:
            best = d
    return best


@C.harness(params=[dict(sizes=(1, 1), N=2), dict(sizes=(2, 1), N=1), dict(sizes=(1, 1), N=1), dict(sizes=(2, 2), N=2, fixed=1), dict(sizes=(2, 2), N=3, fixed=1), dict(sizes=(2, 2), N=2, _thorough=1)],
           bounds="several components, Y partitioned by the code")
def clusters_computed(h, sizes, N, fixed=0):
    RS = setup(h)
    R = components(h, sizes, fixed)
    Y = h.reals("y", (N, 1), -4, 4)
    lab = []
    for y in Y:
        d = [hausdorff(h, [y], R[k]) for k in R]
        for a in range(len(d)):
            for b in range(a):
                h.assume(d[a] != d[b])
        lab.append(int(np.argmin([sum(1 for z in d if bool(z < x)) for x in d])))
    for k, n in enumerate(sizes):
        if lab.count(k) > min(sizes):
            return
    o = RS(dict(R), eta=ETAS)
    o.match(Y)
    M = o.reference_set
    h.prove(tuple(M.shape) == (N, 1), "one reference point per point")
    f = find(h, M, [r for k in R for r in R[k]])
    h.prove(f is not None, "every match is a different member of the reference set")
    owner = [k for k in R for _ in R[k]]
    for i in range(N):
        for j in range(N):
            if lab[i] == lab[j]:
                h.prove(owner[f[i]] == owner[f[j]], "points closest to the same component share a component")
            else:
                h.prove(owner[f[i]] != owner[f[j]], "points closest to different components get different components")
    h.reach()


@C.harness(params=[dict(N=2), dict(N=3)], bounds="two objectives")
def direction(h, N):
    import hvd.utils as U

    Y = points(h, "y", N)
    for c in range(2):
        h.distinct(Y[:, c])
    a = min(range(N), key=lambda i: sum(1 for j in range(N) if bool(Y[j, 0] < Y[i, 0])))
    b = min(range(N), key=lambda i: sum(1 for j in range(N) if bool(Y[j, 1] < Y[i, 1])))
    h.assume(h.sym or True)
    if a == b:
        return
    n = U.compute_chim(Y)
    h.eq(sum(v * v for v in n), 1, "unit length")
    for v in n:
        h.le(v, 0, "points towards smaller objective values")
    h.eq(sum(v * (p - q) for v, p, q in zip(n, Y[a], Y[b])), 0, "orthogonal to the chord between the extreme points")
    h.reach()
