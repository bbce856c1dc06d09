"""C01: the hypervolume value is the Lebesgue measure of the union of the dominated boxes"""
from vt.harness import Check

C = Check("C01", ["hvd.hypervolume.hypervolume", "HyperVolume.compute/hvRecursive/preProcess/sortByDimension", "MultiList.*", "HypervolumeDerivatives.compute", "hypervolume_improvement"])


from checks.common import box_union


@C.harness(
    bounds="N points, m objectives, arbitrary reals in [-1000,1000] incl. ties, duplicates, dominated and outside-ref points, arbitrary ref",
    params=[dict(N=n, m=m) for n, m in [(0, 2), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3), (1, 4)]] + [dict(N=2, m=4, _thorough=1), dict(N=3, m=3, _thorough=1)],
)
def value(h, N, m):
    from hvd.hypervolume import hypervolume

    Y = h.reals("y", (N, m), -1000, 1000)
    ref = h.reals("r", m, -1000, 1000)
    v = hypervolume(Y, ref)
    h.eq(v, box_union(Y, ref), "hypervolume == measure of union")
    h.reach()


@C.harness(
    params=[dict(N=3, m=3), dict(N=4, m=2), dict(N=2, m=4), dict(N=4, m=3, _thorough=1), dict(N=3, m=4, _thorough=1)],
    bounds="points strictly inside the reference point 10, ties and duplicates allowed, weakly sorted along the first coordinate",
)
def value_ties(h, N, m):
    from hvd.hypervolume import hypervolume

    ref = h.array([10 + c for c in range(m)])
    Y = h.reals("y", (N, m), -10)
    for i in range(N):
        for c in range(m):
            h.assume(Y[i, c] < ref[c])
    for i in range(N - 1):
        h.assume(Y[i, 0] <= Y[i + 1, 0])
    h.eq(hypervolume(Y, ref), box_union(Y, ref), "hypervolume == measure of union")
    h.reach()


@C.harness(
    params=[dict(N=4, m=3), dict(N=3, m=4), dict(N=5, m=2), dict(N=3, m=5, _thorough=1)],
    bounds="points strictly inside the reference point, pairwise different coordinates, sorted along the first coordinate",
)
def value_strict(h, N, m):
    from hvd.hypervolume import hypervolume

    ref = h.array([10 + c for c in range(m)])
    Y = h.reals("y", (N, m), -10)
    for i in range(N):
        for c in range(m):
            h.assume(Y[i, c] < ref[c])
    for i in range(N - 1):
        h.assume(Y[i, 0] < Y[i + 1, 0])
    for c in range(1, m):
        h.distinct(Y[:, c])
    h.eq(hypervolume(Y, ref), box_union(Y, ref), "hypervolume == measure of union")
    h.reach()


@C.harness(
    params=[dict(N=3, m=4, tied=3), dict(N=3, m=4, tied=2), dict(N=3, m=5, tied=4, _thorough=1), dict(N=4, m=4, tied=3, _thorough=1)],
    bounds="points strictly inside the reference point, arbitrary reals with further ties allowed; the first two points share their first coordinates",
)
def value_shared(h, N, m, tied):
    from hvd.hypervolume import hypervolume

    ref = h.array([10 + c for c in range(m)])
    Y = h.reals("y", (N, m), -10)
    Y[1, :tied] = Y[0, :tied]
    for i in range(N):
        for c in range(m):
            h.assume(Y[i, c] < ref[c])
    for i in range(2, N):
        h.assume(Y[0, 0] < Y[i, 0])
    h.eq(hypervolume(Y, ref), box_union(Y, ref), "hypervolume == measure of union")
    h.eq(hypervolume(Y[::-1], ref), box_union(Y, ref), "hypervolume of the reversed set")
    h.reach()
