"""C24: sampled hypervolume contributions and dynamic point sets"""
import itertools

import numpy as np
import pymoo.indicators.hv.exact as HE

import hvd.exact as EX
import hvd.moea.sms_emoa as SM
from checks import c23 as S
from vt.harness import Check

C = Check(
    "C24",
    ["alpha", "hv_monte_carlo", "hvc_monte_carlo", "ApproximateMonteCarloHypervolume", "exact.DynamicHypervolume", "LeastHypervolumeContributionSurvival._do"],
    ["sample points are arbitrary points of the range asked for; pymoo's base class of dynamic hypervolumes and its normalisation are executed symbolically; non-dominated sorting by its contract"],
)


def sampler(h, k):
    """np.random.uniform: arbitrary values in the range; k samples are drawn whatever the size asked for"""
    log = []

    def uniform(low=0.0, high=1.0, size=None):
        m = size[-1] if isinstance(size, tuple) else np.shape(low)[0]
        lo, up = np.broadcast_to(np.asarray(low, dtype=object), (m,)), np.broadcast_to(np.asarray(high, dtype=object), (m,))
        out = []
        for i in range(k):
            u = h.reals(f"u{len(log)}_{i}", (m,), 0.001, 0.999)
            if h.sym:
                x = h.reals(f"x{len(log)}_{i}", (m,))
                for a, l, b in zip(x, lo, up):
                    h.assume(h.And(a >= l, a <= b))
            else:
                x = [h.values.get(f"x{len(log)}_{i}_{j}", l + (b - l) * v) for j, (l, b, v) in enumerate(zip(lo, up, u))]
            out.append(list(x))
        log.append((lo, up, size, out))
        return h.array(out)

    h.patch(SM.np.random, "uniform", uniform)
    return log


def environment(h):
    S.environment(h)
    if h.sym:
        from vt.npshim import NPS

        h.patch(HE, "np", NPS)


def covered(F, x):
    return [S.leq(f, x) for f in F]


def expected(h, F, X, V, which):
    """box volume x share of samples covered by the points `which` at all / by each one alone"""
    cov = [[covered([F[i]], x)[0] for i in which] for x in X]
    hv = sum(any(c) for c in cov)
    hvc = [sum(c[j] and sum(c) == 1 for c in cov) for j in range(len(which))]
    return V * h.q(hv, len(X)), [V * h.q(v, len(X)) for v in hvc]


@C.harness(
    params=[dict(n=2, m=3, k=2, gone=1), dict(n=3, m=2, k=1, gone=2), dict(n=3, m=2, k=2, gone=2, _thorough=1), dict(n=3, m=3, k=1, gone=1, _thorough=1), dict(n=1, m=4, k=2, gone=0), dict(n=3, m=3, k=2, gone=1, _thorough=1), dict(n=4, m=2, k=2, gone=3, _thorough=1), dict(n=2, m=4, k=3, gone=1, _thorough=1)],
    bounds="up to three points (four thorough), two to four objectives, two samples (three thorough), all sequences of deletions",
)
def sampled(h, n, m, k, gone):
    """volume and contributions of the samples drawn, before and after deletions"""
    environment(h)
    log = sampler(h, k)
    ref = h.array([1.0 + 0.5 * j for j in range(m)])
    F = [h.reals(f"f{i}", (m,), 0, 0.9) for i in range(n)]
    hv = SM.ApproximateMonteCarloHypervolume(ref, n_samples=k).add(h.array([list(f) for f in F]))
    h.prove(len(log) == 1, "one set of samples", detail=len(log))
    lo, up, size, X = log[0]
    h.prove(tuple(size) == (k, m), "as many samples as configured", detail=size)
    for j in range(m):
        low = F[0][j]
        for f in F[1:]:
            low = f[j] if f[j] < low else low
        h.eq(lo[j], low, "samples start at the ideal point")
        h.eq(up[j], ref[j], "samples end at the reference point")
    V = 1
    for a, b in zip(lo, up):
        V = V * (b - a)
    left = list(range(n))
    for step in range(gone + 1):
        a, b = expected(h, F, X, V, left)
        h.eq(hv.hv, a, "volume covered by the current points")
        h.eq(hv.hvc, h.array(b), "volume covered by one point alone")
        h.prove(len(hv.hvc) == len(left) == len(hv.F), "one contribution per point")
        if step < gone:
            d = h.choose(f"d{step}", len(left))
            hv.delete(d)
            left.pop(d)
            for r, i in zip(hv.F, left):
                h.eq(r, F[i], "the remaining points")
    h.reach()


@C.harness(params=[dict(m=3, k=1), dict(m=4, k=1), dict(m=3, k=2, _thorough=1)], bounds="three mutually non-dominated points of three and four objectives, two survivors, two samples")
def survival(h, m, k):
    """three and more objectives: a point that covers the fewest samples alone is discarded"""
    environment(h)
    log = sampler(h, k)
    n = 3
    F = [h.array([h.real(f"f{i}_{j}", 0, 1) for j in range(2)] + [1.0 if i == j else 0.0 for j in range(m - 2)]) for i in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(not S.leq(F[i], F[j]) and not S.leq(F[j], F[i]))
    pop = S.people(F)
    out = SM.LeastHypervolumeContributionSurvival(eps=1.0).do(S.Problem(m), pop, n_survive=2, ideal=np.zeros(m), nadir=np.ones(m))
    ids = [next((i for i in range(n) if pop[i] is s), None) for s in out]
    h.prove(len(ids) == 2 and None not in ids and ids[0] != ids[1], "the required number of individuals survives", detail=ids)
    h.prove(len(log) == 1, "contributions come from one set of samples", detail=len(log))
    lo, up, size, X = log[0]
    for j in range(m):
        h.eq(up[j], 2.0, "the reference point lies beyond the nadir point")
    alone = [sum(c[i] and sum(c) == 1 for c in [covered(F, x) for x in X]) for i in range(n)]
    d = next(i for i in range(n) if i not in ids)
    h.prove(all(alone[d] <= v for v in alone), "a point that covers the fewest samples alone is discarded", detail=(d, alone, F))
    h.reach()


@C.harness(params=[dict(ops="aad"), dict(ops="ada"), dict(ops="A"), dict(ops="Addd")], bounds="sequences of up to four additions and deletions, one or two points each, two objectives")
def dynamic(h, ops):
    """volume and contributions are those of the current points, whatever happened before"""
    ref = h.array([2.0, 3.0])
    vols, cons = [], []

    def hv(r, F):
        vols.append((r, [list(f) for f in F], h.real(f"v{len(vols)}", 0, 9)))
        return vols[-1][2]

    def hvc(r, F):
        cons.append((r, [list(f) for f in F], h.reals(f"c{len(cons)}", (len(F),), 0, 9)))
        return cons[-1][2]

    cur = []
    new = lambda q: h.reals(f"p{q}", (2, 2), 0, 1) if q % 2 else h.reals(f"p{q}", (1, 2), 0, 1)
    D = None
    for q, o in enumerate(ops):
        if o == "A":
            P = h.reals(f"p{q}", (3, 2), 0, 1)
            D = EX.ExactHypervolume(ref, func_hv=hv, func_hvc=hvc, F=P)
            cur = [list(r) for r in P]
        elif o == "a":
            P = new(q)
            D = EX.DynamicHypervolume(ref, func_hv=hv, func_hvc=hvc) if D is None else D
            h.prove(D.add(P) is D, "additions can be chained")
            cur += [list(r) for r in P]
        else:
            k = h.choose(f"k{q}", len(cur)) if cur else 0
            D.delete(k)
            cur.pop(k)
        h.prove(len(D.F) == len(cur), "number of current points", detail=(ops, q))
        for a, b in zip(D.F, cur):
            h.eq(a, h.array(b), "current points")
        for log, val, what in ((vols, D.hv, "volume"), (cons, D.hvc, "contributions")):
            r, F, v = log[-1]
            h.prove(len(F) == len(cur), f"{what} of the current points", detail=(ops, q))
            h.eq(h.array(F).reshape(-1), h.array(cur).reshape(-1), f"{what} of the current points") if cur else None
            h.eq(r, ref, f"{what} with respect to the reference point")
            h.eq(val, v, f"{what} as computed")
    h.reach()
