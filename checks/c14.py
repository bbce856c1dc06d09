"""C14: line searches never exceed the allowed step and leave the state intact"""
from itertools import permutations

import numpy as np

import hvd.line_search as LS
import hvd.mmd_newton as MN
import hvd.newton as NW
import hvd.reference_set as RS
from checks import opt
from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
from hvd.hypervolume_derivatives import HypervolumeDerivatives
from hvd.mmd import MMD, MMDMatching
from vt.harness import Check

C = Check(
    "C14",
    ["line_search.backtracking_line_search", "HVN._get_phi_func", "DpN._backtracking_line_search", "MMDNewton._backtracking_line_search_global/_individual", "State.update/update_one/__deepcopy__", "ReferenceSet.match (freezing)"],
    ["the merit function is an arbitrary function of the points", "the cubic interpolation formula gives an arbitrary number, clipped to the safeguards, or is undefined", "assignments found while matching are arbitrary"],
)
SMALL = 1e-7


def merit_only(h, mod):
    """the norm is an arbitrary function of the residual; the interpolated step is arbitrary"""
    if not h.sym:
        return lambda r: float(np.linalg.norm(r))
    np_ = mod.np
    ctr = [0]
    rnorm = h.ufun("norm", (), 0, 9)

    def norm(x, *a, **k):
        x = np.asarray(x, dtype=object).reshape(-1)
        return x[0] if len(x) == 1 else rnorm(x)  # single residuals are not negative here

    def clip(x, lo, hi, **k):
        if not isinstance(x, opt.Merit):
            return clip0(x, lo, hi, **k)
        ctr[0] += 1
        return lo + h.real(f"clip{ctr[0]}", 0, 1) * (hi - lo)

    clip0, isnan0 = np_.clip, np_.isnan
    h.patch(np_.linalg, "norm", norm)
    h.patch(np_, "clip", clip)
    h.patch(np_, "isnan", lambda x: (x.flip("nan") if ctr[0] < 2 else False) if isinstance(x, opt.Merit) else isnan0(x))
    h.patch(np_, "sqrt", lambda x: opt.Merit(h, ctr))
    opt.clamp_patches(h, np_, ctr)
    return norm


def trusted(h, phi0):
    """residual not near machine precision (there every step is accepted)"""
    h.assume(phi0 > (h.q(1, 10**7) if h.sym else SMALL))


def armijo(h, phi, s, phi0, c1):
    d = phi - (1 - c1 * s) * phi0
    return d <= 0 if h.sym else d <= 1e-9 * (1 + abs(phi0))


def judge(h, s, smax, trials, phi, phi0, c1, lo, hi, tries, tag):
    """s: returned step; trials: steps at which the merit was evaluated, phi: their merits"""
    h.le(0, s, tag + "the step size is not negative")
    h.le(s, smax, tag + "the step size does not exceed the largest one allowed")
    h.prove(len(trials) >= 1, tag + "the largest step is tried")
    if not trials:
        return
    h.eq(trials[0], smax, tag + "the largest step is tried first")
    seq = list(trials)
    for a, b in zip(seq, seq[1:]):
        h.ge(b, lo * a, tag + "the next step is not shorter than the safeguard")
        h.le(b, hi * a, tag + "the next step is not longer than the safeguard")
    for v, t in zip(phi[:-1], seq[:-1]):
        h.prove(h.Not(armijo(h, v, t, phi0, c1)) if h.sym else float(v - (1 - c1 * t) * phi0) > -1e-9, tag + "a step giving sufficient decrease is accepted")
    ok = armijo(h, phi[-1], seq[-1], phi0, c1)
    if bool(ok):
        h.eq(s, seq[-1], tag + "the accepted step is returned")
    else:
        h.prove(len(seq) >= tries, tag + "the step decreases the merit sufficiently unless the tries are exhausted", detail=len(seq))
        h.ge(s, lo * seq[-1], tag + "last step")
        h.le(s, hi * seq[-1], tag + "last step")


@C.harness(params=[dict(n=1), dict(n=2)], bounds="arbitrary merit values at up to 6 tries, arbitrary largest step in (0, 2], residual of 1-2 components")
def backtracking(h, n):
    smax = h.real("max", 0, 2)
    h.assume(smax > 0)
    R = h.reals("R", (n,), -3, 3)
    merit = h.ufun("phi", (), 0, 5)
    trials = []

    def phi(a):
        trials.append(a)
        return merit([a])

    phi0 = abs(R[0]) if n == 1 else h.sqrt(R[0] * R[0] + R[1] * R[1])
    trusted(h, phi0)
    s = LS.backtracking_line_search(R.copy(), phi, max_step_size=smax)
    judge(h, s, smax, trials, [merit([a]) for a in trials], phi0, h.q(1, 100000), h.q(1, 2), h.q(1, 2), 6, "")
    h.reach()


def grads(h, cls, N, n, lo=-3):
    """arbitrary gradients; what the search evaluates is recorded"""
    g, seen = h.ufun("g", (N, n), lo, 3), []

    def compute_derivatives(self_, X, Y=None, compute_hessian=True, Jacobian=None, jacobian=None):
        seen.append((X.copy(), Y))
        return g(X)

    for c in cls:
        h.patch(c, "compute_derivatives", compute_derivatives)
    return g, seen


def unchanged(h, o, before, label):
    st = o.state
    for k, v in before.items():
        w = getattr(st, k)
        if v is not None:
            h.eq(w, v, f"{label}: {k}")


def snapshot(o):
    return {k: (None if getattr(o.state, k, None) is None else np.array(getattr(o.state, k), copy=True)) for k in ("X", "Y", "J", "cstr_value", "cstr_grad", "primal", "dual")}


STEPS = [[1], [-2]]


def individual(h, o, mod, classes, search, tries, c1, N):
    X = h.reals("x", (N, 1), -2, 2)
    o.state.update(X)
    g, seen = grads(h, classes, N, 1, 0)
    norm = merit_only(h, mod)
    step = h.array(STEPS[:N])
    smax = h.reals("max", (N,), 0, 1)
    for v in smax:
        h.assume(v > 0)
    smax0 = list(smax)
    g0 = g(X)
    for i in range(N):
        trusted(h, norm(g0[i]))
    before = snapshot(o)
    s = search(step.copy(), g0.copy(), smax.copy())
    s = np.asarray(s).reshape(-1)
    h.prove(len(s) == N, "one step size per point")
    k = 0
    for i in range(N):
        trials, phi = [], []
        for Xt, Yt in seen:
            others = [j for j in range(N) if j != i]
            if all(_same(h, Xt[j, 0], X[j, 0]) for j in others) and not _same(h, Xt[i, 0], X[i, 0]):
                trials.append((Xt[i, 0] - X[i, 0]) * (h.q(1) / STEPS[i][0]))
                phi.append(norm(g(Xt)[i]))
                h.eq(Yt[i], o.state.func(Xt[i]), "merit at the objective values of the trial point")
                k += 1
        judge(h, s[i], smax0[i], trials, phi, norm(g0[i]), c1, h.q(2, 5), h.q(3, 5), tries, f"point {i}: ")
    h.prove(k == len(seen), "every trial moves one point along its step")
    unchanged(h, o, before, "the search leaves the population unchanged")
    h.reach()


def _same(h, a, b):
    if h.sym:
        from vt.engine import lift

        d = lift(a) - lift(b)
        return d.p == {}
    return abs(a - b) < 1e-12


@C.harness(params=[dict(N=1), dict(N=2)], bounds="arbitrary merit values at up to 8 tries per point, arbitrary largest steps in (0, 1], 1-2 points of one variable", obl_timeout=30000)
def dpn_search(h, N):
    F = opt.Fns(h, 1)
    o = opt.dpn(h, F, [-100], [100], X0=h.array([[0]] * N))
    o.type, o.GD_value, o.IGD_value = "igd", 0, 1
    individual(h, o, NW, (GenerationalDistance, InvertedGenerationalDistance), o._backtracking_line_search, 8, h.q(1, 10000), N)


@C.harness(params=[dict(N=1), dict(N=2)], bounds="arbitrary merit values at up to 6 tries per point, arbitrary largest steps in (0, 1], 1-2 points of one variable", obl_timeout=30000)
def mmd_individual_search(h, N):
    F = opt.Fns(h, 1)
    o = opt.mmdn(h, F, [-100], [100], X0=h.array([[0]] * N))
    individual(h, o, MN, (MMD, MMDMatching), o._backtracking_line_search_individual, 6, h.q(1, 10000), N)


@C.harness(params=[dict(N=1, ne=0), dict(N=2, ne=0), dict(N=1, ne=1)], bounds="arbitrary merit values at up to 6 tries, arbitrary largest steps in (0, 1], 1-2 points of one variable, with an equality", obl_timeout=30000)
def mmd_search(h, N, ne):
    F = opt.Fns(h, 1, 1, ne, 0)
    o = opt.mmdn(h, F, [-100], [100], X0=h.array([[0]] * N))
    X = h.reals("x", (N, 1 + ne), -2, 2)
    o.state.update(X)
    g, seen = grads(h, (MMD, MMDMatching), N, 1, 0 if N == 1 and not ne else -3)
    # the merit: norm of the residual vector; abstracted to the residual's first component when there is more than one
    rnorm = h.ufun("norm", (), 0, 9)
    if h.sym:
        h.patch(MN.np.linalg, "norm", lambda x, *a, **k: rnorm(x) if N > 1 or ne else np.asarray(x).reshape(-1)[0])
    step = h.array([[1, 3][: 1 + ne], [-1, 1][: 1 + ne]][:N])
    smax = h.reals("max", (N,), 0, 1)
    for v in smax:
        h.assume(v > 0)
    top = smax[0] if N == 1 else (smax[0] if bool(smax[0] <= smax[1]) else smax[1])

    def resid(Z):
        gz = g(Z[:, :1])
        if not ne:
            return gz
        return h.array([[gz[i, 0] + Z[i, 1] * F.h_jac(Z[i, :1])[0, 0], F.h(Z[i, :1])[0]] for i in range(N)])

    def norm(Z):
        r = resid(Z)
        return (rnorm(r) if N > 1 or ne else r[0, 0]) if h.sym else float(np.linalg.norm(r))

    phi0 = norm(X)
    trusted(h, phi0)
    before = snapshot(o)
    n0 = len(seen)
    s = o._backtracking_line_search_global(step.copy(), resid(X).copy(), smax.copy())
    s = np.asarray(s).reshape(-1)
    h.prove(len(s) == 1, "one common step size")
    trials, phi = [], []
    for Xt, Yt in seen[n0:]:
        a = Xt[0, 0] - X[0, 0]
        trials.append(a)
        Z = h.array([[X[i, c] + a * step[i, c] for c in range(1 + ne)] for i in range(N)])
        h.eq(Xt, Z[:, :1], "every trial moves all points along their steps by the same factor")
        phi.append(norm(Z))
    judge(h, s[0], top, trials, phi, phi0, h.q(1, 10**6), h.q(1, 2), h.q(1, 2), 6, "")
    unchanged(h, o, before, "the search leaves the population unchanged")
    h.reach()


@C.harness(params=[dict(who=w) for w in ("dpn", "mmd", "mmd_individual")], bounds="2 points, 2 objectives, any assignment found at trial points; 2 tries")
def matching_frozen(h, who):
    F = opt.Fns(h, 1, 2)
    ref = h.reals("r", (2, 2), -3, 3)
    rs = RS.ReferenceSet(ref.copy(), eta={0: h.array([0, 0])})
    X = h.array([[0], [1]])
    if who == "dpn":
        o = opt.dpn(h, F, [-100], [100], X0=X, ref=rs)
        o.type, o.GD_value, o.IGD_value = "igd", 0, 1
        mod, search = NW, o._backtracking_line_search
    else:
        o = opt.mmdn(h, F, [-100], [100], X0=X, ref=rs, matching=True)
        mod, search = MN, o._backtracking_line_search_global if who == "mmd" else o._backtracking_line_search_individual
    calls = [0]
    if h.sym:
        def lsa(cost, *a, **k):
            calls[0] += 1
            p = h.choose(f"perm{calls[0]}", [list(q) for q in permutations(range(2))])
            return np.arange(2), np.array(p)

        h.patch(RS, "linear_sum_assignment", lsa)
        h.patch(RS, "cdist", lambda a, b, **k: h.array(np.zeros((len(a), len(b)))))
        g = h.ufun("kernel", (2, 1), -3, 3)

        def derivs(self_, X, Y=None, compute_hessian=True, jacobian=None, **k):
            self_.ref.match(Y)
            return g(X)

        h.patch(MMDMatching, "compute_derivatives", derivs)
        opt.abstract_search(h, mod, 0)
        tries = [0]

        def flip(self_, tag, orig=opt.Merit.flip):
            tries[0] += 1
            return True if tries[0] > 3 else orig(self_, tag)

        h.patch(opt.Merit, "flip", flip)
    Y = o.state.Y
    rs.match(Y)
    m0, med0 = np.array(rs.reference_set, copy=True), np.array(rs._medoids[0], copy=True)
    before = snapshot(o)
    R = h.reals("R", (2, 1), 1, 3)
    search(h.array([[1], [3]]), R.copy(), h.array([1, 1]))
    h.eq(rs.reference_set, m0, "the search leaves the matched reference points as they were")
    h.eq(rs._medoids[0], med0, "the search leaves the matching as it was")
    unchanged(h, o, before, "the search leaves the population unchanged")
    # matching is possible again afterwards
    n = calls[0]
    Y2 = h.reals("y", (2, 2), -3, 3)
    rs.match(Y2)
    if h.sym:
        h.prove(calls[0] == n + 1, "matching works again after the search")
    else:
        d = lambda a, b: float(np.linalg.norm(a - b))
        m = rs.reference_set
        h.prove(d(Y2[0], m[0]) + d(Y2[1], m[1]) <= d(Y2[0], m[1]) + d(Y2[1], m[0]) + 1e-9, "matching works again after the search")
    h.reach()


@C.harness(params=[dict(N=1, ne=0), dict(N=2, ne=0), dict(N=2, ne=1)], bounds="merit function of the hypervolume method at arbitrary points, steps and factors")
def hvn_merit(h, N, ne):
    F = opt.Fns(h, 1, 2, ne, 0)
    o = opt.hvn(h, F, [-100], [100], X0=h.array([[0]] * N))
    X = h.reals("x", (N, 1 + ne), -2, 2)
    o.state.update(X)
    g = h.ufun("g", (N, 1), -3, 3)
    h.patch(HypervolumeDerivatives, "compute_derivatives", lambda self_, X, Y=None, compute_hessian=True, YdX=None, Y2dX2=None: g(X))
    rnorm = h.ufun("norm", (), 0, 9)
    if h.sym:
        h.patch(NW.np.linalg, "norm", lambda x, *a, **k: rnorm(x))
    before = snapshot(o)
    step = h.reals("s", (N, 1 + ne), -2, 2)
    phi = o._get_phi_func(o.state, step.copy())
    for k in range(2):
        a = h.real(f"a{k}", 0, 1)
        v = phi(a)
        Z = h.array([[X[i, c] + a * step[i, c] for c in range(1 + ne)] for i in range(N)])
        gz = g(Z[:, :1])
        R = gz if not ne else h.array([[gz[i, 0] + Z[i, 1] * F.h_jac(Z[i, :1])[0, 0], F.h(Z[i, :1])[0]] for i in range(N)])
        h.eq(v, rnorm(R) if h.sym else float(np.linalg.norm(R)), "merit = norm of the residual of the moved points")
        unchanged(h, o, before, "evaluating the merit leaves the population unchanged")
    h.reach()


@C.harness(params=[dict(who=w) for w in ("dpn", "mmd", "mmd_individual")], bounds="steps of at most 1e-9, arbitrary largest steps in [0, 1]")
def tiny_step(h, who):
    F = opt.Fns(h, 1)
    X = h.array([[0], [1]])
    o = (opt.dpn if who == "dpn" else opt.mmdn)(h, F, [-100], [100], X0=X)
    search = o._backtracking_line_search if who == "dpn" else o._backtracking_line_search_global if who == "mmd" else o._backtracking_line_search_individual
    before = snapshot(o)
    smax = h.reals("max", (2,), 0, 1)
    m0 = list(smax)
    step = h.reals("s", (2, 1), -1e-9, 1e-9)
    s = np.asarray(search(step.copy(), h.array([[1], [1]]), smax.copy())).reshape(-1)
    for i, v in enumerate(m0):
        for x in s if who == "mmd" else [s[i]]:
            h.le(x, v, "a negligible step is taken with at most the largest step size")
            h.le(0, x, "step size is not negative")
    unchanged(h, o, before, "the search leaves the population unchanged")
    h.reach()
