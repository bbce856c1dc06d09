"""C05: dominance and non-dominated sorting"""
import numpy as np

from checks.common import dominates
from vt.harness import Check

C = Check("C05", ["utils.non_domin_sort/_nd_helper_a/_nd_helper_b/_sweep_a/_sweep_b/_split_by/_merge", "utils.is_dominate", "utils.get_non_dominated"])


def ranks(Y):
    """length of the longest dominance chain ending in each point"""
    N = len(Y)
    dom = [[i != j and dominates(Y[j], Y[i]) for j in range(N)] for i in range(N)]
    r = {}

    def rank(i):
        if i not in r:
            r[i] = max([1 + rank(j) for j in range(N) if dom[i][j]], default=0)
        return r[i]

    return [rank(i) for i in range(N)]


def check_sort(h, Y):
    from hvd.utils import non_domin_sort

    N = len(Y)
    fr = non_domin_sort(Y, only_front_indices=True)
    exp = ranks(Y)
    got = [None] * N
    for k, idx in fr.items():
        for i in idx:
            h.prove(got[int(i)] is None, "every point is in one front")
            got[int(i)] = int(k)
    h.prove(got == exp, "front index == dominance depth", (got, exp))
    h.reach()


P = [dict(N=2, m=2), dict(N=3, m=2), dict(N=2, m=3), dict(N=2, m=4), dict(N=3, m=3)]


@C.harness(params=P + [dict(N=4, m=2, _thorough=1)], bounds="arbitrary reals incl. ties and duplicates")
def sort_any(h, N, m):
    check_sort(h, h.reals("y", (N, m), -100, 100))


@C.harness(params=[dict(N=4, m=2), dict(N=5, m=2, _thorough=1)], bounds="weakly sorted along the first objective, ties and duplicates")
def sort_weak(h, N, m):
    Y = h.reals("y", (N, m), -100, 100)
    for i in range(N - 1):
        h.assume(Y[i, 0] <= Y[i + 1, 0])
    check_sort(h, Y)


@C.harness(params=[dict(N=4, m=3, ties=1), dict(N=5, m=3, ties=0, _thorough=1), dict(N=5, m=2, ties=1)], bounds="strictly sorted along the first objective; ties elsewhere (at most `ties` objectives)")
def sort_strict0(h, N, m, ties):
    Y = h.reals("y", (N, m), -100, 100)
    for i in range(N - 1):
        h.assume(Y[i, 0] < Y[i + 1, 0])
    for c in range(1, m - ties):
        h.distinct(Y[:, c])
    check_sort(h, Y)


LAST = [[0, 1, 2, 3], [2, 3, 0, 1], [0, 0, 1, 1], [1, 0, 1, 0], [3, 2, 1, 0], [0, 1, 1, 2]]


@C.harness(params=[dict(N=4, m=4), dict(N=4, m=3)], bounds="strictly sorted along objective 0, objective 1 strict, last objective from 6 weak orders, others with ties")
def sort_last(h, N, m):
    Y = h.reals("y", (N, m), -100, 100)
    last = h.choose("last", LAST)
    for i in range(N):
        Y[i, m - 1] = h.q(last[i])
    for i in range(N - 1):
        h.assume(Y[i, 0] < Y[i + 1, 0] if m == 4 else Y[i, 0] <= Y[i + 1, 0])
    if m == 4:
        h.distinct(Y[:, 1])
        h.distinct(Y[:, 2])
    check_sort(h, Y)


@C.harness(bounds="6 points, 3 objectives: two concrete weak orders, one symbolic objective", params=[dict(N=6), dict(N=7, _thorough=1)])
def sort_deep(h, N):
    """exercises the recursive split with several points on both sides"""
    cols = h.choose("cols", [([0, 1, 2, 3, 4, 5, 6], [3, 1, 4, 0, 5, 2, 6]), ([0, 0, 1, 1, 2, 2, 3], [1, 2, 0, 2, 0, 1, 1]), ([0, 0, 0, 1, 1, 1, 1], [2, 2, 1, 1, 0, 0, 1])])
    Y = h.reals("y", (N, 3), -100, 100)
    pos = h.choose("pos", 3)
    rest = [c for c in range(3) if c != pos]
    for i in range(N):
        Y[i, rest[0]] = h.q(cols[0][i])
        Y[i, rest[1]] = h.q(cols[1][i])
    h.distinct(Y[:, pos])
    check_sort(h, Y)


@C.harness(params=[dict(m=2), dict(m=3), dict(m=4)], bounds="two arbitrary vectors")
def pairwise(h, m):
    from hvd.utils import is_dominate

    a, b = h.reals("a", m, -9, 9), h.reals("b", m, -9, 9)
    h.prove(bool(is_dominate(a, b)) == dominates(a, b), "a dominates b iff <= everywhere and < somewhere")
    h.prove(not (bool(is_dominate(a, b)) and bool(is_dominate(b, a))), "asymmetric")
    h.reach()


@C.harness(params=[dict(N=2), dict(N=3)], bounds="decisions with a user-supplied objective map")
def grouped(h, N):
    from hvd.utils import non_domin_sort

    Y = h.reals("y", (N, 2), -9, 9)
    fr = non_domin_sort(list(range(N)), get_objectives=lambda i: Y[i])
    exp = ranks(Y)
    got = {k: sorted(v) for k, v in fr.items()}
    want = {k: [i for i in range(N) if exp[i] == k] for k in set(exp)}
    h.prove(got == want, "fronts group the decisions by rank", (got, want))
    h.reach()


@C.harness(params=[dict(N=1, m=2), dict(N=2, m=2), dict(N=3, m=2), dict(N=2, m=3), dict(N=3, m=3)], bounds="arbitrary reals incl. ties and duplicates")
def nondominated(h, N, m):
    from hvd.utils import get_non_dominated

    Y = h.reals("y", (N, m), -100, 100)
    want = [i for i in range(N) if not any(dominates(Y[j], Y[i]) for j in range(N) if j != i)]
    got = [int(i) for i in get_non_dominated(Y, return_index=True)]
    h.prove(got == want, "exactly the undominated points", (got, want))
    F = get_non_dominated(Y)
    h.eq(F, Y[want], "rows of the undominated points")
    h.reach()
