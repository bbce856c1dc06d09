"""C20: box constraints appended to a problem describe exactly the box; reported counts match the arrays"""
import inspect
import warnings

import jax.numpy as jnp
import numpy as np

import hvd.problems as PR
from hvd.problems.base import CMOP, MOP, add_boundary_constraints
from hvd.problems.misc import DENT, DisConnected
from vt.harness import Check

C = Check(
    "C20",
    ["add_boundary_constraints", "MOP/CMOP.__init__, _validate_dimension, _validate_bound, _broadcast_bound", "eq_constraint/ieq_constraint and their batch, Jacobian and Hessian variants", "constructors of all problem classes"],
    ["sin, cos, exp and fractional powers are uninterpreted atoms", "points with a vanishing denominator are excluded for CF8-CF10"],
)


def quad(cs, x):
    n = len(x)
    return [c[0] * x[0] + c[1] * x[n - 1] ** 2 + c[2] * x[0] * x[n // 2] + c[3] for c in cs]


class Custom(CMOP):
    def __init__(self, ce, ci, **kw):
        self.ce, self.ci = ce, ci
        super().__init__(n_eq_constr=len(ce), n_ieq_constr=len(ci), **kw)

    def _objective(self, x):
        return jnp.array([x[0], x[0] * x[len(x) - 1]])

    def _eq_constraint(self, x):
        return jnp.array(quad(self.ce, x))

    def _ieq_constraint(self, x):
        return jnp.array(quad(self.ci, x))


def coef(h, nm, k):
    return [[h.real(f"{nm}{i}{j}", -2, 2) for j in range(4)] for i in range(k)]


def inside(h, x, lo, up):
    c = [v >= l for v, l in zip(x, lo)] + [v <= u for v, u in zip(x, up)]
    return h.And(*c)


def box(h, g, own, x, lo, up, what):
    """g: the values; the last two per variable describe the box, the first ones are the problem's own"""
    n = len(x)
    g = np.ravel(g)
    h.prove(len(g) == len(own) + 2 * n, f"{what}: two more inequalities per variable", detail=len(g))
    if len(own):
        h.eq(g[: len(own)], h.array(own), f"{what}: the problem's own inequalities come first")
    extra = g[len(own) :]
    ok = h.And(*[v <= 0 for v in extra])
    box = inside(h, x, lo, up)
    h.prove(h.implies(ok, box), f"{what}: points outside the box violate some", detail=(extra, x))
    h.prove(h.implies(box, ok), f"{what}: points inside the box satisfy all", detail=(extra, x))


@C.harness(
    params=[dict(n=n, ne=e, ni=i, scalar=s, _thorough=int(n > 2)) for n, e, i in [(1, 0, 0), (2, 0, 0), (2, 0, 1), (2, 1, 0), (2, 2, 2), (3, 1, 2), (4, 0, 3)] for s in (0, 1)],
    bounds="arbitrary bounds (scalar or per variable), coefficients and points in or outside the box",
)
def custom(h, n, ne, ni, scalar):
    """a problem with arbitrary bounds and own constraints"""
    lo = [h.real("l", -3, 3)] * n if scalar else [h.real(f"l{i}", -3, 3) for i in range(n)]
    up = [h.real("u", -3, 3)] * n if scalar else [h.real(f"u{i}", -3, 3) for i in range(n)]
    ce, ci = coef(h, "e", ne), coef(h, "i", ni)
    X = h.reals("x", (2, n), -5, 5)
    kw = dict(n_var=n, n_obj=2, xl=lo[0] if scalar else h.array(lo), xu=up[0] if scalar else h.array(up))
    bad = h.Or(*[l > u for l, u in zip(lo, up)])
    try:
        P, err = Custom(ce, ci, boundary_constraints=True, **kw), False
    except ValueError:
        P, err = None, True
    h.prove(bad if err else h.Not(bad), "crossed bounds, and only these, are rejected", detail=(lo, up, err))
    h.reach()
    if err:
        return
    Q = Custom(ce, ci, **kw)
    h.eq(P.xl, h.array(lo), "lower bounds")
    h.eq(P.xu, h.array(up), "upper bounds")
    h.prove((P.n_ieq_constr, P.n_eq_constr, Q.n_ieq_constr, Q.n_eq_constr) == (ni + 2 * n, ne, ni, ne), "reported counts", detail=(P.n_ieq_constr, P.n_eq_constr, Q.n_ieq_constr, Q.n_eq_constr))
    B = P.ieq_constraint_batch(X)
    for k in range(2):
        own = quad(ci, X[k])
        box(h, P.ieq_constraint(X[k]), own, X[k], lo, up, "single point")
        box(h, B[k], own, X[k], lo, up, "batch")
        if ni:
            h.eq(np.ravel(Q.ieq_constraint(X[k])), h.array(own), "without boundary constraints: own inequalities")
        for p in (P, Q):
            if ne:
                h.eq(np.ravel(p.eq_constraint(X[k])), h.array(quad(ce, X[k])), "equalities")
            h.eq(p.objective(X[k]), h.array([X[k][0], X[k][0] * X[k][n - 1]]), "objectives")
    m = ni + 2 * n
    h.prove(np.shape(P.ieq_jacobian(X[0])) == (m, n), "shape of the Jacobian")
    h.prove(np.shape(P.ieq_hessian(X[0])) == (m, n, n), "shape of the Hessian")
    h.prove(np.shape(P.ieq_jacobian_batch(X)) == (2, m, n), "shape of the batch of Jacobians")
    h.prove(np.shape(P.ieq_hessian_batch(X)) == (2, m, n, n), "shape of the batch of Hessians")


FIXED = ("CONV3", "CONV4", "CONV4_2F", "DENT", "DisConnected")
PROBLEMS = [(f"ZDT{i}", 3, {}) for i in (1, 2, 3, 4, 6)]
PROBLEMS += [(f"DTLZ{i}", 4, dict(n_obj=3)) for i in range(1, 8)]
PROBLEMS += [(f"IDTLZ{i}", 4, dict(n_obj=3)) for i in range(1, 5)] + [(f"Eq1DTLZ{i}", 4, dict(n_obj=3)) for i in range(1, 5)] + [(f"Eq1IDTLZ{i}", 4, dict(n_obj=3)) for i in range(1, 5)]
PROBLEMS += [(c, 4 if c[:5] == "CONV4" else 3 if c == "CONV3" else 2, {}) for c in FIXED]
PROBLEMS += [(f"UF{i}", 5, {}) for i in range(1, 11)] + [(f"CF{i}", 5, {}) for i in range(1, 11)]


def cls(name):
    return getattr(PR, name, None) or {"DENT": DENT, "DisConnected": DisConnected}[name]


@C.harness(params=[dict(name=a, n=b, kw=c, own=o, free=f, _thorough=int(f not in (None, 0) + (1,) * (a not in ("CF2", "CF8")) or (a, o) == ("CF8", 0))) for a, b, c in PROBLEMS for o in (0, 1) for f in (range(b) if a[:2] == "CF" else [None])], bounds="all benchmark problems, default or user-given bounds, points up to half the width of the box away from it (CF: one variable at a time)")
def benchmark(h, name, n, kw, own, free):
    """a benchmark problem with and without boundary constraints"""
    c = cls(name)
    a = dict(kw) if name in FIXED else dict(kw, n_var=n)
    if own:
        a |= dict(xl=h.array([i / 8 for i in range(n)]), xu=h.array([1 + i / 4 for i in range(n)]))
    Q = c(**a)
    P = c(boundary_constraints=True, **a) if "boundary_constraints" in inspect.signature(c.__init__).parameters else None
    if name in ("CF8", "CF9", "CF10"):
        h.generic_denominators()
    B = list(zip(map(float, Q.xl), map(float, Q.xu)))
    mid = [lo + (i + 1) / (n + 2) * (up - lo) for i, (lo, up) in enumerate(B)]
    pt = lambda nm, t: h.array([h.real(f"{nm}{i}", lo - t * (up - lo), up + t * (up - lo)) if free in (None, i) else mid[i] for i, (lo, up) in enumerate(B)])
    x = pt("x", 0.5)
    if own:
        h.eq(Q.xl, a["xl"], "user's lower bounds")
        h.eq(Q.xu, a["xu"], "user's upper bounds")
    h.prove(Q.n_var == n and np.shape(Q.xl) == (n,) and np.shape(Q.xu) == (n,), "dimensions of the box")
    h.reach()
    ni, ne = getattr(Q, "n_ieq_constr", 0), getattr(Q, "n_eq_constr", 0)
    if own == 0:  # values only inside the box: roots of negative numbers outside
        z = pt("z", -0.01)
        h.prove(np.shape(Q.objective(z)) == (Q.n_obj,), "reported number of objectives", detail=np.shape(Q.objective(z)))
        g = np.ravel(Q.ieq_constraint(z)) if ni else []
        h.prove(len(g) == ni, "reported number of inequalities", detail=(len(g), ni))
        e = np.ravel(Q.eq_constraint(z)) if ne else []
        h.prove(len(e) == ne, "reported number of equalities", detail=(len(e), ne))
        if P is not None:
            h.prove(P.n_eq_constr == ne and P.n_obj == Q.n_obj, "other counts unchanged")
            G = np.ravel(P.ieq_constraint(z))
            h.prove(P.n_ieq_constr == ni + 2 * n == len(G), "reported number of inequalities with the box", detail=(P.n_ieq_constr, ni, len(G)))
            if ni:
                h.eq(G[:ni], h.array(g), "own inequalities come first")
            if ne:
                h.eq(np.ravel(P.eq_constraint(z)), h.array(e), "equalities unchanged")
            h.eq(P.objective(z), Q.objective(z), "objectives unchanged")
    if P is not None:
        G = np.ravel(P.ieq_constraint(x))
        ok, bx = h.And(*[v <= 0 for v in G[ni:]]), inside(h, x, Q.xl, Q.xu)
        h.prove(h.implies(ok, bx), "points outside the box violate some", detail=(G[ni:], x))
        h.prove(h.implies(bx, ok), "points inside the box satisfy all", detail=(G[ni:], x))


@C.harness(params=[dict(case=c) for c in range(12)], bounds="invalid dimensions, bounds and counts")
def invalid(h, case):
    """unusable settings are rejected"""
    v = h.real("v", -1, 1)
    good = dict(n_var=2, n_obj=2, xl=v, xu=v + 1)
    bad = [
        dict(n_var=0), dict(n_var=-1), dict(n_var=2.0), dict(n_var=True), dict(n_obj=0), dict(n_obj=1.5),
        dict(xl=h.array([v, v, v])), dict(xu=h.array([v + 1] * 3)), dict(xl=h.array([v, v + 2])), dict(xu=h.array([v - 1, v + 1])),
        dict(n_eq_constr=-1), dict(n_ieq_constr=-1),
    ][case]  # fmt: skip
    h.reach()
    try:
        Plain(**(good | bad))
    except ValueError:
        rejected = True
    else:
        rejected = False
    h.prove(rejected, "rejected", detail=bad)
    P = Plain(**good)
    h.eq(P.xl, h.array([v, v]), "scalar bound for every variable")
    h.eq(P.xu, h.array([v + 1] * 2), "scalar bound for every variable")


class Plain(CMOP):
    def _objective(self, x):
        return jnp.array([x[0], x[1]])
