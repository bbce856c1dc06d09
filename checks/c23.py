"""C23: survival, mating selection and replacement of the evolutionary algorithms"""
import itertools
from functools import cmp_to_key

import numpy as np
import pymoo.core.population as PP
import pymoo.indicators.hv.exact as HE
import pymoo.indicators.hv.exact_2d as HE2
import pymoo.util.misc as PM
import pymoo.util.normalization as PN
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting

import hvd.moea.moead as MD
import hvd.moea.sms_emoa as SM
from vt.harness import Check

C = Check(
    "C23",
    ["LeastHypervolumeContributionSurvival._do", "SMSEMOA._advance", "cv_and_dom_tournament", "ConstraintAwareMOEAD._replace", "ConstraintAwareMOEAD._cv_eps", "ConstraintAwareMOEAD._setup", "ConstraintAwareMOEAD._initialize_advance", "ConstraintAwareMOEAD.next"],
    [
        "pymoo's non-dominated sorting by its contract: the fronts of the dominance order (a pure Python stand-in); pymoo's two-objective hypervolume, normalisation, tournament comparison, population and parameter-less fitness are executed symbolically",
        "scalarised values in the decomposition are an arbitrary function of objective vector, weight and ideal point; random choices are arbitrary",
    ],
)


def leq(a, b):
    return all(bool(x <= y) for x, y in zip(a, b))


def dominates(a, b):
    return leq(a, b) and any(bool(x < y) for x, y in zip(a, b))


def ranks(F):
    left, r, k = list(range(len(F))), {}, 0
    while left:
        f = [i for i in left if not any(dominates(F[j], F[i]) for j in left if j != i)]
        for i in f:
            r[i] = k
        left = [i for i in left if i not in f]
        k += 1
    return [r[i] for i in range(len(F))]


class NDS:
    def __init__(self, *a, **k):
        pass

    def do(self, F, return_rank=False, only_non_dominated_front=False, n_stop_if_ranked=None, n_fronts=None, **k):
        r = ranks(F)
        fronts, n = [], 0
        for q in range(max(r) + 1):
            fronts.append(np.array([i for i in range(len(F)) if r[i] == q]))
            n += len(fronts[-1])
            if n_stop_if_ranked is not None and n >= n_stop_if_ranked:
                break
        if only_non_dominated_front:
            return fronts[0]
        return (fronts, np.array(r)) if return_rank else fronts


def environment(h):
    if not h.sym:
        return
    from vt.npshim import NPS

    def get(self, *args, to_numpy=True, **kw):
        v = [[ind.get(a, **kw) for ind in self] for a in args]
        if to_numpy:
            v = [h.array(np.array(x, dtype=object)) if a in ("F", "CV", "G", "H", "X") else np.array(x) for a, x in zip(args, v)]
        return v[0] if len(args) == 1 else tuple(v)

    h.patch(PP.Population, "get", get)
    h.patch_everywhere(NonDominatedSorting, NDS)
    for m in (HE, HE2, PN, PM):
        h.patch(m, "np", NPS)


class Problem:
    def __init__(self, n_obj, constr=False):
        self.n_obj, self.constr = n_obj, constr

    def has_constraints(self):
        return self.constr


def people(F, CV=None):
    return Population.create(*[Individual(F=f, CV=np.array([0.0 if CV is None else CV[i]], dtype=object if CV is not None else float)) for i, f in enumerate(F)])


def contribution(F, i, ref):
    """of a point of a mutually non-dominated set, two objectives, all better than ref"""
    a = F[i]
    if any(k != i and leq(b, a) for k, b in enumerate(F)):
        return 0 * a[0]
    x, y = ref
    for k, b in enumerate(F):
        if k != i:
            if b[0] >= a[0]:
                x = b[0] if b[0] < x else x
            else:
                y = b[1] if b[1] < y else y
    return (x - a[0]) * (y - a[1])


def least(h, F, front, gone, ref):
    """gone can be removed from the front, one by one, each time the one that contributes least"""
    tol = 0 if h.sym else 1e-9
    alts = []
    for order in itertools.permutations(gone):
        left, ok = list(front), []
        for g in order:
            c = {i: contribution([F[k] for k in left], left.index(i), ref) for i in left}
            ok += [c[g] <= c[i] + tol for i in left if i != g]
            left.remove(g)
        alts.append(h.And(*ok) if ok else True)
    return h.Or(*alts)


SURV = [
    dict(n=3, keep=2, box=None), dict(n=4, keep=3, box="unit", _thorough=1), dict(n=4, keep=2, box="skew", stairs=1), dict(n=3, keep=3, box="unit"), dict(n=3, keep=2, box="skew"), dict(n=4, keep=3, box="unit", stairs=1), dict(n=3, keep=1, box="skew"),
    dict(n=4, keep=1, box="unit", stairs=1, _thorough=1), dict(n=4, keep=3, box=None, _thorough=1), dict(n=4, keep=2, box="unit", _thorough=1), dict(n=5, keep=4, box="unit", stairs=1, _thorough=1), dict(n=5, keep=3, box="skew", stairs=1, _thorough=1),
]
BOX = {"unit": ([0.0, 0.0], [1.0, 1.0]), "skew": ([-1.0, 0.0], [1.0, 4.0])}


@C.harness(params=SURV, bounds="two objectives, populations of 3 or 4 (5 thorough) in general position and with ties, objective values between the ideal and the nadir point", obl_timeout=30000)
def survival(h, n, keep, box, stairs=0):
    """the required number survives; earlier fronts first; the split front loses its least contributors"""
    environment(h)
    lo, up = BOX[box] if box else ([0.0, 0.0], [1.0, 1.0])
    F = [h.array([h.real(f"a{i}", lo[0], up[0]), h.real(f"b{i}", lo[1], up[1])]) for i in range(n)]
    if stairs:
        for p, q in zip(F, F[1:]):
            h.assume(h.And(p[0] < q[0], p[1] > q[1]))
        order = h.choose("order", list(itertools.permutations(range(n)))[:: 7 if n > 3 else 1])
        F = [F[i] for i in order]
    pop = people(F)
    kw = {}
    if box:
        kw = dict(ideal=np.array(lo), nadir=np.array(up))
        ideal, nadir = lo, up
    else:
        ideal = [min(f[j] for f in F) for j in (0, 1)]
        nadir = [max(f[j] for f in F) for j in (0, 1)]
        for j in (0, 1):
            h.assume(nadir[j] - ideal[j] >= 0.01)
    out = SM.LeastHypervolumeContributionSurvival().do(Problem(2), pop, n_survive=keep, **kw)
    ids = [next((i for i in range(n) if pop[i] is s), None) for s in out]
    h.prove(len(ids) == keep and None not in ids and len(set(ids)) == keep, "the required number of individuals survives", detail=ids)
    r = ranks(F)
    dead = [i for i in range(n) if i not in ids]
    h.prove(all(r[i] <= r[k] for i in ids for k in dead), "earlier fronts survive first", detail=(ids, r))
    h.prove(all(s.get("rank") == r[i] for i, s in zip(ids, out)), "reported rank", detail=(ids, r))
    if dead:
        last = min(r[k] for k in dead)
        front = [i for i in range(n) if r[i] == last]
        gone = [i for i in front if i in dead]
        ref = [ideal[j] + (nadir[j] - ideal[j]) * 11 for j in (0, 1)]
        if len(gone) < len(front):
            h.prove(least(h, F, front, gone, ref), "the least contributors of the split front are discarded", detail=(ids, F))
    h.reach()


@C.harness(params=[dict(n=4, keep=2), dict(n=4, keep=3)], bounds="two objectives, four individuals, constrained problem")
def feasible_first(h, n, keep):
    """with constraints: feasible individuals first, then the least violated"""
    environment(h)
    CV = [h.real(f"cv{i}", 0, 1) for i in range(n)]
    feas = [bool(c <= 0) for c in CV]
    F = [h.array([float(i), float(n - i * i / 4)]) if f else h.array([h.real(f"a{i}", 0, 4), h.real(f"b{i}", 0, 4)]) for i, f in enumerate(feas)]
    pop = people(F, CV)
    out = SM.LeastHypervolumeContributionSurvival().do(Problem(2, True), pop, n_survive=keep, ideal=np.zeros(2), nadir=np.full(2, 4.0))
    ids = [next((i for i in range(n) if pop[i] is s), None) for s in out]
    h.prove(len(ids) == keep and None not in ids and len(set(ids)) == keep, "the required number of individuals survives", detail=ids)
    dead = [i for i in range(n) if i not in ids]
    for i in ids:
        for k in dead:
            if feas[k]:
                h.prove(feas[i], "feasible individuals survive first", detail=(ids, CV))
            elif not feas[i]:
                h.prove(CV[i] <= CV[k], "among infeasible ones the least violated survive", detail=(ids, CV))
    h.reach()


class Sink:
    def __init__(self):
        self.calls = []

    def do(self, problem, pop, *a, n_survive=None, **kw):
        self.calls.append((problem, pop, n_survive, kw))
        return "survivors"


@C.harness(params=[dict(norm=True), dict(norm=False)], bounds="two parents, two offspring, two and three objectives")
def advance(h, norm):
    """parents and offspring compete for the parents' places; normalisation is taken from the parents"""
    environment(h)
    m = h.choose("m", [2, 3])
    F = [h.reals(f"p{i}", (m,), -5, 5) for i in range(4)]
    algo = SM.SMSEMOA(pop_size=2)
    algo.normalize, algo.pop, algo.survival, algo.problem = norm, people(F[:2]), Sink(), object()
    old, off = algo.pop, people(F[2:])
    algo._advance(infills=off)
    h.prove(len(algo.survival.calls) == 1 and algo.pop == "survivors", "one survival selection makes the next population")
    pb, pop, k, kw = algo.survival.calls[0]
    h.prove(pb is algo.problem and k == 2, "as many survive as there are places", detail=k)
    h.prove(len(pop) == 4 and {id(x) for x in pop} == {id(x) for x in old} | {id(x) for x in off}, "parents and offspring compete")
    if norm:
        for j in range(m):
            h.eq(kw["ideal"][j], min(F[0][j], F[1][j]), "ideal point of the parents")
            h.eq(kw["nadir"][j], max(F[0][j], F[1][j]), "nadir point of the parents")
    else:
        h.prove(kw.get("ideal") is None and kw.get("nadir") is None, "without normalisation the range is estimated by the survival", detail=kw)
    h.reach()


@C.harness(params=[dict(m=2), dict(m=3)], bounds="two tournaments among three individuals, two or three objectives")
def tournament(h, m):
    """less violation wins; among feasible ones a dominating one wins; otherwise one of the two"""
    environment(h)
    F = [h.reals(f"p{i}", (m,), -5, 5) for i in range(3)]
    CV = [h.real(f"cv{i}", 0, 1) for i in range(3)]
    pop = people(F, CV)
    P = np.array(h.choose("pairs", [[[0, 1], [1, 2]], [[2, 0], [0, 0]], [[1, 0], [2, 1]]]))
    if h.sym:
        from pymoo.operators.selection import tournament as T

        cnt = [0]

        def choice(a, *k, **kw):
            cnt[0] += 1
            return a[h.choose(f"coin{cnt[0]}", len(a))]

        h.patch(SM.np.random, "choice", choice)
    else:
        np.random.seed(0)
    S = np.asarray(SM.cv_and_dom_tournament(pop, P))
    h.prove(S.shape == (2, 1), "one winner per tournament", detail=S.shape)
    for (a, b), w in zip(P.tolist(), S[:, 0].tolist()):
        h.prove(w in (a, b), "the winner is one of the two", detail=(a, b, w))
        l = b if w == a else a
        h.prove(CV[w] <= CV[l], "the less violated one wins", detail=(a, b, w, CV))
        if CV[w] <= 0 and CV[l] <= 0:
            h.prove(not dominates(F[l], F[w]), "a dominated one never wins", detail=(a, b, w, F))
    h.reach()


class Decomp:
    """arbitrary scalarisation"""

    def __init__(self, h, ideal, W):
        self.h, self.ideal, self.W, self.f = h, ideal, W, {}
        self.ok = True

    def value(self, f, w):
        key = (id_of(self.h, f), id_of(self.h, w))
        if key not in self.f:
            self.f[key] = self.h.real(f"g{len(self.f)}", -3, 3)
        return self.f[key]

    def do(self, F, weights=None, ideal_point=None, **kw):
        F, weights = np.asarray(F, dtype=object), np.asarray(weights)
        self.ok = self.ok and ideal_point is self.ideal and not kw
        n = max(len(F), len(weights))
        F = [F[i if len(F) > 1 else 0] for i in range(n)]
        W = [weights[i if len(weights) > 1 else 0] for i in range(n)]
        return self.h.array([self.value(f, w) for f, w in zip(F, W)])


def id_of(h, v):
    return tuple(round(float(x), 9) for x in v)


@C.harness(params=[dict(constr=False), dict(constr=True), dict(constr=True, T=3, _thorough=1)], bounds="populations of four, neighbourhoods of three (two with constraints, quick), every scalarisation, violation and relaxation")
def replace(h, constr, T=None):
    """a neighbour is replaced exactly when the child is better for its weight"""
    environment(h)
    n = 4
    algo = MD.ConstraintAwareMOEAD.__new__(MD.ConstraintAwareMOEAD)
    W = np.array([[0.0, 1.0], [0.25, 0.75], [0.75, 0.25], [1.0, 0.0]])
    F = [np.array([float(i), 10.0 - i]) for i in range(n)]
    CV = [h.real(f"cv{i}", 0, 1) for i in range(n)] if constr else None
    pop = people(F, CV)
    old = list(pop)
    off = people([np.array([0.5, 0.5])], [h.real("cvo", 0, 1)] if constr else None)[0]
    algo.pop, algo.ref_dirs, algo.ideal, algo.problem = pop, W, np.zeros(2), Problem(2, constr)
    algo.neighbors = np.array([[0, 1, 2], [1, 2, 0], [2, 3, 1], [3, 2, 1]])[:, : T or (2 if constr else 3)]
    algo.decomposition = Decomp(h, algo.ideal, W)
    eps = 0
    if constr:
        eps = h.real("eps", 0, 1)
        algo._cv_eps = lambda: eps
    k = h.choose("k", n)
    algo._replace(k, off)
    h.prove(algo.decomposition.ok, "scalarised with respect to the ideal point")
    cut = lambda c: c - eps if c - eps > 0 else 0 * c
    for i in range(n):
        new = algo.pop[i] is off
        h.prove(new or algo.pop[i] is old[i], "every place holds the old individual or the child")
        if i not in algo.neighbors[k]:
            h.prove(not new, "only neighbours are replaced", detail=(k, i))
            continue
        fo, fn = algo.decomposition.value(off.F, W[i]), algo.decomposition.value(F[i], W[i])
        better = bool(fo < fn)
        if constr:
            co, cn = cut(off.CV[0]), cut(CV[i])
            if co > 0 or cn > 0:
                better = bool(co < cn)
                if co > 0 and not cn > 0 or not co > 0 and cn > 0:
                    h.assume(h.Or(co >= 1e-9, cn >= 1e-9))
                if co > 0 and not h.sym:
                    better = co < cn - 1e-12
        h.prove(new == better, "replaced exactly when the child is better for the neighbour's weight", detail=(k, i, fo, fn, CV))
    h.reach()


class Term:
    def __init__(self, perc):
        self.perc = perc


@C.harness(params=[dict(until=0.8), dict(until=0.5)], bounds="all phases of a run and initial violations")
def relaxation(h, until):
    """violations up to a level are tolerated; it falls linearly from the initial mean to zero"""
    environment(h)
    algo = MD.ConstraintAwareMOEAD.__new__(MD.ConstraintAwareMOEAD)
    algo.perc_eps_until, algo.max_cv, algo.termination = until, None, None
    h.eq(algo._cv_eps(), 0.0, "no relaxation before the initial violations are known")
    mx, t = h.real("max", 0, 10), h.real("t", 0, 1)
    algo.max_cv = mx
    h.eq(algo._cv_eps(), 0.0, "no relaxation without a termination criterion")
    algo.termination = Term(t)
    e = algo._cv_eps()
    if t >= until:
        h.prove(abs(e) <= 1e-9 * (1 + mx), "no relaxation in the last phase", detail=(t, e))
    else:
        h.prove(abs(e * until - mx * (until - t)) <= 1e-6, "relaxation falls linearly", detail=(t, e))
    h.reach()


@C.harness(params=[dict(T=2), dict(T=3, _thorough=1)], bounds="four weight vectors of two objectives, neighbourhoods of two (three thorough)")
def neighbourhood(h, T):
    """each weight vector's neighbours are its nearest weight vectors"""
    environment(h)
    n = 4
    w = [h.real(f"w{i}", 0, 1) for i in range(n)]
    W = h.array([[v, 1 - v] for v in w])
    algo = MD.ConstraintAwareMOEAD.__new__(MD.ConstraintAwareMOEAD)
    algo.ref_dirs, algo.n_neighbors, algo.decomposition, algo.pop_size = W, T, object(), None
    d = [[2 * (a - b) ** 2 for b in w] for a in w]
    if h.sym:
        import scipy.spatial.distance as SD

        h.patch_everywhere(SD.cdist, lambda A, B, *a, **k: h.array([[sum((x - y) ** 2 for x, y in zip(p, q)) for q in B] for p in A]))
    algo._setup(Problem(2))
    h.prove(algo.pop_size == n, "one individual per weight vector", detail=algo.pop_size)
    N = np.asarray(algo.neighbors)
    h.prove(N.shape == (n, T), "size of the neighbourhoods", detail=N.shape)
    for i in range(n):
        row = [int(v) for v in N[i]]
        h.prove(len(set(row)) == T, "distinct neighbours", detail=row)
        for a in row:
            for b in range(n):
                if b not in row:
                    h.prove(d[i][a] <= d[i][b] + (0 if h.sym else 1e-9), "the nearest weight vectors are the neighbours", detail=(i, row, w))
    h.reach()


@C.harness(bounds="generations of one to four children, up to four children available")
def generation(h):
    """after the start one call makes one generation"""
    algo = MD.ConstraintAwareMOEAD.__new__(MD.ConstraintAwareMOEAD)
    size, avail = h.choose("size", [1, 2, 3, 4]), h.choose("avail", [0, 1, 2, 3, 4])
    algo.is_initialized, algo.n_gen = h.choose("init", [False, True]), 7
    made = [0]

    def nxt(self, *a, **k):
        made[0] += 1
        if made[0] % size == 0:
            self.n_gen += 1

    h.patch(MD.MOEAD, "next", nxt)
    h.patch(MD.MOEAD, "has_next", lambda self: made[0] < avail)
    algo.next()
    h.prove(made[0] == (min(size, avail) if algo.is_initialized else 1), "one generation per call", detail=(size, avail, made))
    h.reach()


@C.harness(params=[dict(constr=True), dict(constr=False)], bounds="three initial individuals")
def initial_violation(h, constr):
    """the initial level of the relaxation is the mean violation of the initial population"""
    environment(h)
    CV = [h.real(f"cv{i}", 0, 5) for i in range(3)]
    pop = people([np.array([float(i), 1.0]) for i in range(3)], CV)
    algo = MD.ConstraintAwareMOEAD.__new__(MD.ConstraintAwareMOEAD)
    algo.problem, algo.max_cv, algo.perc_eps_until = Problem(2, constr), None, 0.8
    h.patch(MD.MOEAD, "_initialize_advance", lambda self, infills=None, **k: None)
    if h.sym:
        h.patch(MD, "float", lambda v: v) if hasattr(MD, "float") else None
    algo._initialize_advance(infills=pop)
    if constr:
        algo.termination = Term(0.0)
        h.eq(algo._cv_eps(), sum(CV) / 3, "initial level of the relaxation")
    else:
        h.prove(algo.max_cv is None, "no relaxation without constraints", detail=algo.max_cv)
    h.reach()
