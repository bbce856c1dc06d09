"""C15: iterates stay inside the box"""
import numpy as np

import hvd.newton as NW
from checks import opt
from vt.harness import Check

C = Check(
    "C15",
    ["HVN/DpN/MMDNewton/Lara._initialize", "HVN._compute_max_step_size/_handle_box_constraint/iterate", "DpN._handle_box_constraint/_backtracking_line_search/newton_iteration", "Lara._handle_box_constraint/iteration", "set_bounds", "handle_box_constraint"],
    ["objective functions are arbitrary functions of the point", "np.random.rand returns arbitrary values of [0, 1)", "in the iteration harnesses the Newton step and the residual norms are arbitrary"],
)


def box(h, n, sym=True):
    """arbitrary box"""
    if not sym:
        return h.array([0] * n), h.array([1 + k for k in range(n)])
    xl = h.reals("xl", n, -1, 1)
    w = h.reals("w", n, 0.25, 2)
    return xl, h.array([a + b for a, b in zip(xl, w)])


def inside_pts(h, name, N, xl, xu):
    n = len(xl)
    X = h.reals(name, (N, n), -1, 3)
    for i in range(N):
        for c in range(n):
            h.assume(X[i, c] >= xl[c])
            h.assume(X[i, c] <= xu[c])
    return X


def inside(h, X, xl, xu, label):
    for x in X:
        for v, a, b in zip(x, xl, xu):
            h.ge(v, a, label + " (lower)", tol=1e-11)
            h.le(v, b, label + " (upper)", tol=1e-11)


def is_in(x, xl, xu):
    return all(bool(v >= a) and bool(v <= b) for v, a, b in zip(x, xl, xu))


@C.harness(params=[dict(N=1, n=1), dict(N=2, n=1), dict(N=1, n=2), dict(N=2, n=2, _thorough=1), dict(N=1, n=3, _thorough=1)], bounds="any points in any box, any step (zero components and zero steps included)")
def hvn_limit(h, N, n):
    xl, xu = box(h, n)
    X = inside_pts(h, "x", N, xl, xu)
    o = opt.hvn(h, opt.Fns(h, n), xl, xu, X0=X, limit_max_step_size=True)
    step = h.reals("s", (N, n), -4, 4)
    a = o._compute_max_step_size(X, step)
    h.ge(a, 0, "step size is non-negative")
    h.le(a, 1, "step size at most one")
    inside(h, X + a * step, xl, xu, "limited step stays inside")
    strict = all(bool(v > xl[c]) and bool(v < xu[c]) for x in X for c, v in enumerate(x))
    if strict:
        h.prove(a > 0, "an interior point can move")
    h.reach()


@C.harness(bounds="step size limit switched off")
def hvn_nolimit(h):
    xl, xu = box(h, 1)
    X = inside_pts(h, "x", 1, xl, xu)
    o = opt.hvn(h, opt.Fns(h, 1), xl, xu, X0=X)
    h.eq(o._compute_max_step_size(X, h.reals("s", (1, 1), -4, 4)), 1, "no limit requested: full step")
    h.reach()


def projected(h, X, s0, s1, xl, xu, tol, n):
    """only components that push a boundary point outward may have been removed"""
    for i in range(len(X)):
        for c in range(n):
            if bool(s0[i, c] > 0):
                at = bool(xu[c] - X[i, c] <= tol)
            elif bool(s0[i, c] < 0):
                at = bool(X[i, c] - xl[c] <= tol)
            else:
                at = False
            if at:
                h.prove(h.Or(s1[i, c] == s0[i, c], s1[i, c] == 0) if h.sym else abs(s1[i, c] - s0[i, c]) < 1e-9 or abs(s1[i, c]) < 1e-9, "a blocked component is kept or removed")
            else:
                h.eq(s1[i, c], s0[i, c], "components that do not push outward from the boundary are kept")


@C.harness(params=[dict(N=1, n=1), dict(N=2, n=1), dict(N=1, n=2), dict(N=2, n=2, _thorough=1), dict(N=1, n=3, _thorough=1)], bounds="any points in a box (boundary included), any step")
def dpn_box(h, N, n):
    xl, xu = box(h, n, sym=n < 2)
    X = inside_pts(h, "x", N, xl, xu)
    o = opt.dpn(h, opt.Fns(h, n, ne=1), xl, xu, X0=X)
    step = h.reals("s", (N, n + 1), -4, 4)
    s0 = step.copy()
    s1, a = o._handle_box_constraint(step)
    h.prove(len(a) == N, "one limit per point")
    h.eq(s1[:, n:], s0[:, n:], "multiplier components are untouched")
    for i in range(N):
        h.ge(a[i], 0, "step size is non-negative")
        h.le(a[i], 1, "step size at most one")
        inside(h, [X[i] + a[i] * s1[i, :n]], xl, xu, "limited step stays inside")
    projected(h, X, s0, s1, xl, xu, h.q(0), n)
    if h.sym:
        for i in range(N):
            if is_in(X[i] + s0[i, :n], xl, xu):
                h.eq(s1[i], s0[i], "a step that stays inside is not changed")
                h.eq(a[i], 1, "a step that stays inside is not shortened")
            # a point whose blocked coordinates are at most one is not stuck
            blocked = [c for c in range(n) if (bool(s0[i, c] > 0) and bool(xu[c] == X[i, c])) or (bool(s0[i, c] < 0) and bool(xl[c] == X[i, c]))]
            if len(blocked) <= 1:
                h.prove(a[i] > 0, "a point blocked in at most one coordinate can move")
    h.reach()


@C.harness(params=[dict(who=w, N=N, n=n) for w in ("lara", "hvn") for N, n in ((1, 1), (2, 1), (1, 2))] + [dict(who="lara", N=2, n=2, _thorough=1)], bounds="any points in the box, any step")
def projecting(h, who, N, n):
    xl, xu = box(h, n, sym=False)
    X = inside_pts(h, "x", N, xl, xu)
    o = opt.lara(h, opt.Fns(h, n), xl, xu, X0=X) if who == "lara" else opt.hvn(h, opt.Fns(h, n), xl, xu, X0=X)
    step = h.reals("s", (N, n), -4, 4)
    s0 = step.copy()
    s1, a = o._handle_box_constraint(step, o.state)
    h.ge(a, 0, "step size is non-negative")
    h.le(a, 1, "step size at most one")
    inside(h, X + a * s1, xl, xu, "limited step stays inside")
    projected(h, X, s0, s1, xl, xu, h.q(1, 10**10), n)
    if h.sym and all(is_in(X[i] + s0[i], xl, xu) for i in range(N)):
        h.eq(s1, s0, "steps that stay inside are not changed")
        h.eq(a, 1, "steps that stay inside are not shortened")
    h.reach()


@C.harness(params=[dict(who=w) for w in ("hvn", "dpn", "mmdn", "lara")], bounds="any starting points (outside the box too), any box; random starting points")
def start(h, who):
    import hvd.gradient_based as GB
    import hvd.mmd_newton as MN

    make = getattr(opt, who)
    mod = dict(hvn=NW, dpn=NW, mmdn=MN, lara=GB)[who]
    random_start = bool(h.choose("random", 2))
    xl, xu = box(h, 2)
    random_source_ = opt.random_source(h, mod)
    F = opt.Fns(h, 2)
    if random_start:
        o = make(h, F, xl, xu, N=2)
    else:
        X0 = h.reals("x0", (1, 2), -4, 4)
        o = make(h, F, xl, xu, X0=X0.copy())
        if is_in(X0[0], xl, xu):
            h.eq(o.state.primal, X0, "a starting point inside the box is used as it is")
    h.prove(o.state.N == (2 if random_start else 1) and o.N == o.state.N, "number of starting points")
    inside(h, o.state.primal, xl, xu, "starting points")
    h.reach()


class Newton:
    """arbitrary direction and residuals in place of the Newton system"""

    def __init__(self, h, N, dim):
        self.h, self.step, self.R = h, h.reals("s", (N, dim), -4, 4), h.reals("R", (N, dim), -1, 1)

    def install(self, o):
        h = self.h
        r = h.ufun("res", self.R.shape, -1, 1)
        o._compute_netwon_step = lambda *a, **k: (self.step.copy(), self.R.copy())
        o._compute_R = lambda state, grad=None: (r(state.X), None, None)


@C.harness(params=[dict(N=1, n=1), dict(N=1, n=2, _thorough=1)], bounds="one whole iteration; arbitrary direction and residual norms", obl_timeout=30000)
def dpn_iteration(h, N, n):
    xl, xu = box(h, n, sym=False)
    X = inside_pts(h, "x", N, xl, xu)
    o = opt.dpn(h, opt.Fns(h, n), xl, xu, X0=X)
    Newton(h, N, n).install(o)
    o.type = "igd"
    o._compute_indicator_value = lambda Y: None
    o._shift_reference_set = lambda: None
    opt.abstract_search(h, NW, 2 if N * n == 1 else 0)
    o.newton_iteration()
    inside(h, o.state.primal, xl, xu, "points after an iteration")
    h.reach()


@C.harness(params=[dict(n=1), dict(n=2)], bounds="one whole iteration with the step-size limit switched on; arbitrary direction and residual norms")
def hvn_iteration(h, n):
    xl, xu = box(h, n, sym=False)
    X = inside_pts(h, "x", 1, xl, xu)
    o = opt.hvn(h, opt.Fns(h, n), xl, xu, X0=X, limit_max_step_size=True)
    Newton(h, 1, n).install(o)
    o._compute_indicator_value = lambda: None
    opt.abstract_search(h, NW)
    o.iterate()
    inside(h, o.state.primal, xl, xu, "points after an iteration")
    h.reach()


@C.harness(params=[dict(N=1, n=1), dict(N=1, n=2), dict(N=2, n=1, _thorough=1)], bounds="one whole iteration, arbitrary Jacobians")
def lara_iteration(h, N, n):
    xl, xu = box(h, n, sym=False)
    X = inside_pts(h, "x", N, xl, xu)
    o = opt.lara(h, opt.Fns(h, n), xl, xu, X0=X)
    s = h.reals("s", (N, n), -2, 2)
    o._compute_step = lambda state: s[: state.N].copy()
    o._check_points_uniqueness = lambda: None
    o.iteration()
    inside(h, o.state.primal, xl, xu, "points after an iteration")
    h.reach()


@C.harness(bounds="scalars, sequences of matching and wrong length, strings")
def bounds(h):
    from hvd.utils import set_bounds

    k = h.choose("kind", ["float", "list", "one", "array", "short", "long", "string"])
    v = h.reals("v", 3, -5, 5)
    if k in ("short", "long"):
        try:
            set_bounds(h.array(v[:2]) if k == "short" else list(v) + [v[0]], 3)
        except (AssertionError, ValueError):
            h.prove(True, "a bound of the wrong length is rejected")
        else:
            h.prove(False, "a bound of the wrong length is rejected")
    elif k == "list":
        h.eq(set_bounds(list(v), 3), v, "sequence bounds are kept")
    elif k == "array":
        h.eq(set_bounds(v, 3), v, "array bounds are kept")
    elif k == "one":
        h.eq(set_bounds([v[0]], 3), h.array([v[0]] * 3), "a single bound is used for every variable")
    elif k == "float":
        h.eq(set_bounds(0.5, 3), h.array([h.q(1, 2)] * 3), "a scalar bound is used for every variable")
        h.eq(set_bounds(2, 2), h.array([2, 2]), "an integer bound is used for every variable")
    else:
        h.eq(set_bounds("[0, 1, 2]", 3), h.array([0, 1, 2]), "a textual bound is evaluated")
    h.reach()


@C.harness(params=[dict(shape=(2,)), dict(shape=(2, 1)), dict(shape=(1, 2)), dict(shape=(3, 2), _thorough=1)], bounds="points up to four box widths away, one unbounded variable")
def reflect(h, shape):
    from hvd.utils import handle_box_constraint

    free = h.choose("free", [None, 0, 1])
    lb, ub = [h.q(0), h.q(-1, 2)], [h.q(1), h.q(3, 2)]
    if free is not None:
        ub[free] = float("inf")
    x = h.reals("x", shape, -4, 5)
    lb_, ub_ = (np.array(lb, dtype=object), np.array(ub, dtype=object)) if h.sym else (np.array(lb, dtype=float), np.array(ub, dtype=float))
    lb_, ub_ = np.array([float(v) for v in lb_]), np.array([float(v) for v in ub_])
    x0 = x.copy()
    y = handle_box_constraint(x, lb_, ub_)
    h.prove(np.shape(y) == tuple(shape), "shape is kept")
    two = len(shape) == 2 and shape[0] != 2
    for i in np.ndindex(*shape):
        c = i[-1] if two or len(shape) == 1 else i[0]
        if c == free:
            h.eq(y[i], x0[i], "an unbounded variable is kept")
            continue
        h.ge(y[i], lb[c], "inside the box (lower)")
        h.le(y[i], ub[c], "inside the box (upper)")
        if bool(x0[i] >= lb[c]) and bool(x0[i] <= ub[c]):
            h.eq(y[i], x0[i], "points inside the box are kept")
    h.reach()
