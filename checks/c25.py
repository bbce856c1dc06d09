"""C25: runs stop when their budget is reached and record history"""
import numpy as np

import hvd.line_search as LS
import hvd.utils as UT
from checks import opt
from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
from hvd.hypervolume_derivatives import HypervolumeDerivatives
from hvd.mmd import MMD, MMDMatching
from hvd.reference_set import ReferenceSet
from vt.harness import Check

C = Check(
    "C25",
    ["HVN/DpN/MMDNewton/Lara.run/terminate/log", "HVN.iterate", "DpN/MMDNewton.newton_iteration/_shift_reference_set", "Lara.iteration"],
    ["directions, step sizes, residuals and indicator values are arbitrary (C06-C07, C11-C15)"],
)


class Metric:
    def __init__(self, f):
        self.f = f

    def compute(self, X=None, Y=None):
        return self.f(Y)


def single_norm(h, mod):
    """norm of one residual per point is its absolute value"""
    if not h.sym:
        return
    norm0 = mod.np.linalg.norm

    def norm(x, ord=None, axis=None, **k):
        if axis == 1 and np.shape(x)[1] == 1:
            return h.array([abs(v) for v in np.asarray(x, dtype=object)[:, 0]])
        return norm0(x, ord, axis, **k)

    h.patch(mod.np.linalg, "norm", norm)


def median(h, v):
    v = list(v)
    if len(v) == 1:
        return v[0]
    return (v[0] + v[1]) / 2


@C.harness(params=[dict(who=w, N=N, budgets=[0, 1, 2] if N == 2 else [0, 3] if w in ("dpn", "lara") else [1, None]) for w in ("hvn", "dpn", "mmdn", "lara") for N in (1, 2)] + [dict(who=w, N=N, budgets=[0, 1, 2, 3] if N == 2 else [2, None], _thorough=1) for w in ("hvn", "dpn", "mmdn", "lara") for N in (1, 2)], bounds="budgets of 0 to 3 iterations (and the default of ten per point), called again after stopping; one variable, arbitrary directions, step sizes and values")
def run(h, who, N, budgets):
    F = opt.Fns(h, 1, 2)
    iters = h.choose("budget", budgets)
    X0 = h.reals("x0", (N, 1), -2, 2)
    mx = h.ufun("metric", (), 0, 3)
    o = getattr(opt, who)(h, F, [-1000], [1000], X0=X0.copy(), max_iters=iters, metrics={"m": Metric(mx)})
    mod = __import__(type(o).__module__, fromlist=["x"])
    single_norm(h, mod)
    val, val2 = h.ufun("val", (), 0, 3), h.ufun("val2", (), 0, 3)
    steps, Rs, als = [], [], []
    T = 10 * N if iters is None else iters

    def newton(*a, **k):
        if len(steps) >= T:
            h.prove(False, "no iteration beyond the budget")
            raise AssertionError("no iteration beyond the budget")
        i = len(steps)
        steps.append(h.reals(f"s{i}", (N, 1), -2, 2))
        Rs.append(h.reals(f"R{i}", (N, 1), 0, 2))
        return (steps[-1].copy(), Rs[-1].copy()) if who != "lara" else steps[-1].copy()

    def alpha(shape):
        als.append(h.reals(f"a{len(als)}", (N,) if shape == "each" else (1,), 0, 1))
        a = als[-1]
        return a.reshape(-1, 1) if shape == "each" else a

    o._check_population = o._check_points_uniqueness = lambda: None
    if who == "hvn":
        h.patch(HypervolumeDerivatives, "compute", lambda self_, X=None, Y=None: val(Y))
        o._compute_netwon_step = newton
        groups = []

        def search(R, phi, max_step_size=1):
            groups.append(len(R))
            return h.real(f"a{len(groups)}", 0, 1)

        # all points on one front: every objective vector is incomparable to the others
        h.patch_everywhere(UT.non_domin_sort, lambda Y, only_front_indices=True: {0: np.arange(len(Y))})
        h.patch_everywhere(LS.backtracking_line_search, search)
    elif who == "dpn":
        h.patch(GenerationalDistance, "compute", lambda self_, X=None, Y=None: val(Y))
        h.patch(InvertedGenerationalDistance, "compute", lambda self_, X=None, Y=None: val2(Y))
        o._compute_netwon_step = newton
        o._shift_reference_set = lambda: None
        o._handle_box_constraint = lambda step: (step, h.array([1] * N))
        o._backtracking_line_search = lambda *a, **k: alpha("each")
    elif who == "mmdn":
        for c in (MMD, MMDMatching):
            h.patch(c, "compute", lambda self_, X=None, Y=None: val(Y))
        o._compute_netwon_step = newton
        o._shift_reference_set = lambda: None
        o._handle_box_constraint = lambda step: (step, h.array([1] * N))
        o._backtracking_line_search_global = lambda *a, **k: alpha("one")
    else:
        o._compute_step = newton
        o._handle_box_constraint = lambda step, state: (step, 1)
    X, Y, info = o.run()
    h.prove(len(steps) == T and o.iter_count == T, "exactly the budgeted number of iterations", detail=(len(steps), o.iter_count, T))
    h.prove(set(info) == {"iter_count"} and info["iter_count"] == T, "the stopping cause is the number of iterations", detail=info)
    xs = [X0]
    for k in range(T):
        a = [h.real(f"a{k + 1}", 0, 1)] * N if who == "hvn" else [1] * N if who == "lara" else list(als[k]) * (N if who == "mmdn" else 1)
        xs.append(h.array([[xs[-1][i, 0] + a[i] * steps[k][i, 0]] for i in range(N)]))
    fy = lambda Z: h.array([F.func(z) for z in Z])
    h.prove(len(o.history_X) == T and len(o.history_Y) == T and len(o.history_R_norm) == T and len(o.history_metrics["m"]) == T, "one history entry per iteration")
    for k in range(T):
        h.eq(o.history_X[k], xs[k + 1], "history of the points")
        h.eq(o.history_Y[k], fy(xs[k + 1]), "history of the objective values")
        h.eq(o.history_metrics["m"][k], mx(fy(xs[k + 1])), "history of the metric")
        r = steps[k] if who == "lara" else Rs[k]
        h.eq(o.history_R_norm[k], median(h, [abs(v) for v in r[:, 0]]), "history of the residual norm")
    if who != "lara":
        h.prove(len(o.history_indicator_value) == T, "one indicator value per iteration")
        for k in range(T):
            y = fy(xs[k])
            v = val(y)
            if who == "dpn":
                w = val2(y)
                v = v if bool(v >= w) else w
            h.eq(o.history_indicator_value[k], v, "history of the indicator value of the points an iteration starts from")
    h.eq(X, xs[-1], "the final points are returned")
    h.eq(Y, fy(xs[-1]), "with their objective values")
    o.run()
    h.prove(o.iter_count == T and len(o.history_X) == T, "a finished run does not continue")
    h.reach()


@C.harness(params=[dict(who="dpn"), dict(who="mmdn", matching=1), dict(who="mmdn", matching=0), dict(who="dpn", ni=1), dict(who="mmdn", matching=1, ni=1)], bounds="2 points, 2 objectives; at each of two iterations every combination of points that reached their target and points that stopped moving")
def shifts(h, who, matching=1, ni=0):
    """which reference points are shifted, and what is logged"""
    F = opt.Fns(h, 1, 2, 0, ni)
    dual = [h.choose(f"dual{i}", 2) for i in range(2)] if ni else [0, 0]  # multipliers may still move
    refs = h.array([[0, 0], [4, 4]])
    eta = h.reals("eta", (2,), -1, 1)
    rs = ReferenceSet(refs.copy(), eta={0: eta.copy()})
    kw = {} if who == "dpn" else dict(matching=bool(matching))
    o = getattr(opt, who)(h, F, [-100], [100], X0=h.array([[0], [1]]), ref=rs, **kw)
    logs = [[], []]
    o.step = h.array([[1] + [0] * ni, [1] + [0] * ni])
    if matching:
        o.state.Y = h.array([[1, 1], [5, 5]])
        rs.match(o.state.Y)
    cur = [h.array(list(r)) for r in rs.reference_set]
    for k in range(2):
        at = [bool(h.choose(f"at{k}{i}", 2)) for i in range(2)]
        still = [bool(h.choose(f"still{k}{i}", 2)) for i in range(2)]
        o.iter_count = k
        far = h.array([1, 1])
        o.state.Y = h.array([cur[i] if at[i] else cur[i] + far for i in range(2)])
        o.step = h.array([[0 if still[i] else h.q(1, 2)] + [dual[i]] * ni for i in range(2)])
        sel = [i for i in range(2) if k == 0 or (at[i] and still[i])]
        o._shift_reference_set()
        c = (h.q(8, 100) if k == 0 else h.q(5, 100)) if who == "dpn" else h.q(8, 100)
        move = sel if matching else ([0, 1] if sel else [])
        for i in move:
            cur[i] = h.array([a + c * b for a, b in zip(cur[i], eta)])
        for i in sel:
            logs[i].append(cur[i])
        h.eq(rs.reference_set, h.array(cur), "all reference points are shifted at the first iteration, later those whose point has reached them and stopped")
    if matching:
        for i in range(2):
            h.prove(len(o.history_medoids[i]) == len(logs[i]), "every shift of a matched reference point is logged", detail=(len(o.history_medoids[i]), len(logs[i])))
            for a, b in zip(o.history_medoids[i], logs[i]):
                h.eq(a, b, "logged reference point")
    h.reach()


@C.harness(params=[dict(N=3, M=2), dict(N=1, M=2)], bounds="more and fewer points than reference points, no matching; first iteration")
def unmatched_sizes(h, N, M):
    F = opt.Fns(h, 1, 2)
    refs = h.reals("r", (M, 2), -2, 2)
    rs = ReferenceSet(refs.copy(), eta={0: h.array([1, 1])})
    o = opt.mmdn(h, F, [-100], [100], X0=h.array([[i] for i in range(N)]), ref=rs, matching=False)
    o._shift_reference_set()
    c = h.q(8, 100)
    h.eq(rs.reference_set, h.array([[v + c for v in r] for r in refs]), "the whole reference set is shifted at the first iteration")
    h.reach()


@C.harness(params=[dict(who=w, N=N) for w in ("hvn", "dpn", "mmdn", "lara") for N in (3, 4)] + [dict(who=w, N=5, _thorough=1) for w in ("dpn", "mmdn")], bounds="one log entry of a larger population")
def entry(h, who, N):
    """the recorded residual norm is the median over the whole population; the recorded arrays are copies"""
    F = opt.Fns(h, 1, 2)
    X0 = h.reals("x0", (N, 1), -2, 2)
    o = getattr(opt, who)(h, F, [-1000], [1000], X0=X0.copy())
    mod = __import__(type(o).__module__, fromlist=["x"])
    single_norm(h, mod)
    R = h.reals("R", (N, 1), 0, 2)
    o.R = o.step = R.copy()
    o.step_size = np.ones(N)
    if who == "dpn":
        for c in (GenerationalDistance, InvertedGenerationalDistance):
            h.patch(c, "compute", lambda self_, X=None, Y=None: h.array([1])[0])
        o._compute_indicator_value(o.state.Y)
    y = o.state.Y.copy()
    o.log()
    m = o.history_R_norm[-1]
    lo = sum(1 for v in R[:, 0] if bool(v <= m))
    hi = sum(1 for v in R[:, 0] if bool(v >= m))
    h.prove(2 * lo >= N and 2 * hi >= N, "half of the residuals are at most, half at least the recorded norm", detail=(lo, hi))
    if N % 2 == 0:
        v = sorted_two(R[:, 0])
        h.eq(m, (v[0] + v[1]) / 2, "mean of the two middle residuals")
    o.state.X[0, 0] = 9
    o.state.Y[0, 0] = 9
    h.eq(o.history_X[-1], X0, "recorded points")
    h.eq(o.history_Y[-1], y, "recorded objective values")
    h.reach()


def sorted_two(v):
    v = list(v)
    for i in range(len(v)):
        for j in range(i, 0, -1):
            if bool(v[j] < v[j - 1]):
                v[j], v[j - 1] = v[j - 1], v[j]
    k = len(v) // 2
    return v[k - 1], v[k]
