"""C29: pymoo views of problems and native views of pymoo problems"""
import sys

import jax.numpy as jnp
import numpy as np
from pymoo.core.problem import Problem as PymooProblem

import hvd.problems as PR
from hvd.problems import _pymoo_factory as FA
from hvd.problems.base import CMOP, MOP
from vt.harness import Check

C = Check(
    "C29",
    ["_PymooProblemAdapter", "_PymooBackedProblem", "get_pymoo_problem and its registry", "MOP.from_pymoo/as_pymoo_problem", "CMOP evaluations and derivatives behind the adapters"],
    ["sin, cos, atan and fractional powers are uninterpreted atoms with their differentiation rules", "the bodies of pymoo's own problems are traced together with the adapters"],
)


def quad(cs, x, col=False):
    """one quadratic per coefficient row; x is a vector or a matrix of rows"""
    v = (lambda k: x[:, k]) if col else (lambda k: x[k])
    n = x.shape[1] if col else len(x)
    return [c[0] * v(0) + c[1] * v(n - 1) ** 2 + c[2] * v(0) * v(n // 2) + c[3] for c in cs]


def jac(cs, x):
    n, out = len(x), []
    for c in cs:
        g = [0] * n
        g[0] = g[0] + c[0] + c[2] * x[n // 2]
        g[n - 1] = g[n - 1] + 2 * c[1] * x[n - 1]
        g[n // 2] = g[n // 2] + c[2] * x[0]
        out.append(g)
    return out


def hess(cs, x):
    n, out = len(x), []
    for c in cs:
        q = [[0] * n for _ in range(n)]
        q[n - 1][n - 1] = q[n - 1][n - 1] + 2 * c[1]
        q[0][n // 2] = q[0][n // 2] + c[2]
        q[n // 2][0] = q[n // 2][0] + c[2]
        out.append(q)
    return out


def coef(h, nm, k):
    return [[h.real(f"{nm}{i}{j}", -2, 2) for j in range(4)] for i in range(k)]


class Native(CMOP):
    def __init__(self, cf, ce, ci, **kw):
        self.cf, self.ce, self.ci = cf, ce, ci
        super().__init__(n_eq_constr=len(ce), n_ieq_constr=len(ci), **kw)

    def _objective(self, x):
        return jnp.array(quad(self.cf, x))

    def _eq_constraint(self, x):
        return jnp.array(quad(self.ce, x))

    def _ieq_constraint(self, x):
        return jnp.array(quad(self.ci, x))

    def get_pareto_front(self, N=10):
        return np.arange(2.0 * N).reshape(N, 2)


class Plain(MOP):
    def __init__(self, cf, **kw):
        self.cf = cf
        super().__init__(**kw)

    def _objective(self, x):
        return jnp.array(quad(self.cf, x))


class Foreign(PymooProblem):
    """a pymoo problem whose evaluation fills F and, where it has them, G and H"""

    def __init__(self, cf, ce, ci, n, **kw):
        self.cf, self.ce, self.ci = cf, ce, ci
        super().__init__(n_var=n, n_obj=len(cf), n_eq_constr=len(ce), n_ieq_constr=len(ci), **kw)

    def _evaluate(self, X, out, *args, **kwargs):
        out["F"] = jnp.column_stack(quad(self.cf, X, True))
        if self.ci:
            out["G"] = jnp.column_stack(quad(self.ci, X, True))
        if self.ce:
            out["H"] = jnp.column_stack(quad(self.ce, X, True))

    def _calc_pareto_front(self, n=3):
        return np.arange(2.0 * n).reshape(n, 2)

    def _calc_pareto_set(self, n=3):
        return np.arange(3.0 * n).reshape(n, 3)


class Returning(PymooProblem):
    """a pymoo problem whose evaluation returns the objective values"""

    def __init__(self, cf, n, **kw):
        self.cf = cf
        super().__init__(n_var=n, n_obj=len(cf), **kw)

    def _evaluate(self, X, out, *args, **kwargs):
        return jnp.column_stack(quad(self.cf, X, True))


def box(ci, X, xl, xu, jacobian=False):
    n = len(xl)
    rows = []
    for x in X:
        rows.append(quad(ci, x) + [xl[i] - x[i] for i in range(n)] + [x[i] - xu[i] for i in range(n)])
    return rows


@C.harness(params=[dict(n=n, m=m, ne=e, ni=i, bc=b) for n, m, e, i, b in [(2, 2, 0, 0, 0), (3, 2, 1, 0, 0), (2, 3, 0, 2, 0), (3, 3, 2, 1, 1), (2, 2, 0, 0, 1), (1, 1, 1, 1, 0)]], bounds="arbitrary coefficients, one to three variables and objectives, up to two constraints of each kind, batches of two")
def as_pymoo(h, n, m, ne, ni, bc):
    """the pymoo view evaluates to the problem's own values, row by row, with the same dimensions and bounds"""
    cf, ce, ci = coef(h, "f", m), coef(h, "e", ne), coef(h, "i", ni)
    xl, xu = [-1.0 - i for i in range(n)], [2.0 + i for i in range(n)]
    P = Native(cf, ce, ci, n_var=n, n_obj=m, xl=xl, xu=xu, boundary_constraints=bool(bc)) if ne + ni + bc else Plain(cf, n_var=n, n_obj=m, xl=xl, xu=xu)
    Q = P.as_pymoo_problem()
    h.prove((Q.n_var, Q.n_obj, Q.n_eq_constr, Q.n_ieq_constr) == (n, m, ne, ni + 2 * n * bc), "dimensions and counts", detail=(Q.n_var, Q.n_obj, Q.n_eq_constr, Q.n_ieq_constr))
    h.prove(np.array_equal(np.asarray(Q.xl, float), xl) and np.array_equal(np.asarray(Q.xu, float), xu), "bounds", detail=(Q.xl, Q.xu))
    X = h.reals("x", (2, n), -3, 3)
    for rows in (X, X[0]):
        Z = X if rows is X else X[:1]
        out = {}
        Q._evaluate(rows, out)
        h.prove(set(k for k, v in out.items() if v is not None) == {"F"} | ({"G"} if ni + bc else set()) | ({"H"} if ne else set()), "what is evaluated", detail=sorted(out))
        h.eq(out["F"], h.array([quad(cf, x) for x in Z]), "objective values")
        if ne:
            h.eq(out["H"], h.array([quad(ce, x) for x in Z]), "equality constraints")
        if ni + bc:
            h.eq(out["G"], h.array(box(ci, Z, xl, xu) if bc else [quad(ci, x) for x in Z]), "inequality constraints")
    if isinstance(P, Native):
        h.prove(np.array_equal(Q.pareto_front(N=4), P.get_pareto_front(4)) and np.array_equal(Q.pareto_front(), P.get_pareto_front()), "the problem's own front")
    h.reach()


@C.harness(params=[dict(n=n, m=m, ne=e, ni=i, bc=b) for n, m, e, i, b in [(2, 2, 0, 0, 0), (3, 2, 1, 0, 1), (2, 3, 0, 2, 1), (3, 2, 2, 1, 0), (2, 2, 0, 0, 1), (1, 1, 1, 1, 1)]], bounds="arbitrary coefficients, one to three variables and objectives, up to two constraints of each kind, batches of two")
def from_pymoo(h, n, m, ne, ni, bc):
    """the native view has the pymoo problem's values; derivatives and boundary constraints are those of its functions"""
    cf, ce, ci = coef(h, "f", m), coef(h, "e", ne), coef(h, "i", ni)
    xl, xu = np.array([-1.0 - i for i in range(n)]), np.array([2.0 + i for i in range(n)])
    Q = Foreign(cf, ce, ci, n, xl=xl, xu=xu)
    P = MOP.from_pymoo(Q) if bc else MOP.from_pymoo(Q, boundary_constraints=False)
    h.prove(isinstance(P, MOP) and MOP.from_pymoo(P) is P, "a native problem stays what it is")
    h.prove((P.n_var, P.n_obj, P.n_eq_constr, P.n_ieq_constr) == (n, m, ne, ni + 2 * n * bc), "dimensions and counts", detail=(P.n_var, P.n_obj, P.n_eq_constr, P.n_ieq_constr))
    h.prove(np.array_equal(P.xl, xl) and np.array_equal(P.xu, xu), "bounds", detail=(P.xl, P.xu))
    X = h.reals("x", (2, n), -3, 3)
    parts = [("objective", "objective", cf)] + ([("eq_constraint", "eq", ce)] if ne else []) + ([("ieq_constraint", "ieq", ci)] if ni + bc else [])
    for f, d, c in parts:
        V, J, H = [quad(c, x) for x in X], [jac(c, x) for x in X], [hess(c, x) for x in X]
        if d == "ieq" and bc:
            I = [[1 if a == b else 0 for b in range(n)] for a in range(n)]
            V = box(c, X, xl, xu)
            J = [j + [[-v for v in r] for r in I] + I for j in J]
            H = [q + [[[0] * n for _ in range(n)] for _ in range(2 * n)] for q in H]
        for k in range(2):
            h.eq(getattr(P, f)(X[k]), h.array(V[k]), f)
            h.eq(getattr(P, d + "_jacobian")(X[k]), h.array(J[k]), f + ": Jacobian")
            h.eq(getattr(P, d + "_hessian")(X[k]), h.array(H[k]), f + ": Hessian")
        h.eq(getattr(P, f + "_batch")(X), h.array(V), f + ": batch")
        h.eq(getattr(P, d + "_jacobian_batch")(X), h.array(J), f + ": batch of Jacobians")
    h.prove(np.array_equal(P.get_pareto_front(4), Q._calc_pareto_front(4)) and np.array_equal(P.get_pareto_set(2), Q._calc_pareto_set(2)), "the wrapped problem's front and set")
    h.reach()


@C.harness(bounds="two variables, two objectives, arbitrary coefficients")
def returned_values(h):
    """evaluations that return the objective values are understood as well"""
    cf = coef(h, "f", 2)
    P = MOP.from_pymoo(Returning(cf, 2, xl=-1.0, xu=1.0), boundary_constraints=False)
    x = h.reals("x", (2,), -3, 3)
    h.eq(P.objective(x), h.array(quad(cf, x)), "objective values")
    h.eq(P.objective_jacobian(x), h.array(jac(cf, x)), "Jacobian")
    h.reach()


FORMULA = {
    "bnh": lambda h, x: (
        [4 * x[0] ** 2 + 4 * x[1] ** 2, (x[0] - 5) ** 2 + (x[1] - 5) ** 2],
        [((x[0] - 5) ** 2 + x[1] ** 2 - 25) / 25, (h.q(77, 10) - (x[0] - 8) ** 2 - (x[1] + 3) ** 2) / h.q(77, 10)],
        [0, 0], [5, 3]),
    "osy": lambda h, x: (
        [-(25 * (x[0] - 2) ** 2 + (x[1] - 2) ** 2 + (x[2] - 1) ** 2 + (x[3] - 4) ** 2 + (x[4] - 1) ** 2), sum(v**2 for v in x)],
        [(2 - x[0] - x[1]) / 2, (x[0] + x[1] - 6) / 6, (x[1] - x[0] - 2) / 2, (x[0] - 3 * x[1] - 2) / 2, ((x[2] - 3) ** 2 + x[3] - 4) / 4, (4 - (x[4] - 3) ** 2 - x[5]) / 4],
        [0, 0, 1, 0, 1, 0], [10, 10, 5, 6, 5, 10]),
    "srn": lambda h, x: (
        [2 + (x[0] - 2) ** 2 + (x[1] - 1) ** 2, 9 * x[0] - (x[1] - 1) ** 2],
        [x[0] ** 2 + x[1] ** 2 - 225, x[0] - 3 * x[1] + 10],
        [-20, -20], [20, 20]),
}


@C.harness(params=[dict(name=k, bc=b) for k in FORMULA for b in (0, 1)], bounds="all points of twice the box")
def constrained(h, name, bc):
    """BNH, OSY and SRN from the factory: published objectives, constraints and box"""
    P = PR.get_pymoo_problem(h.choose("case", [name, name.upper()]), boundary_constraints=bool(bc))
    _, _, xl, xu = FORMULA[name](h, [1] * 6)
    x = h.array([h.real(f"x{i}", 2 * a - b, 2 * b - a) for i, (a, b) in enumerate(zip(xl, xu))])
    F, G, _, _ = FORMULA[name](h, x)
    n = len(xl)
    h.prove((P.n_var, P.n_obj, P.n_eq_constr, P.n_ieq_constr) == (n, 2, 0, len(G) + 2 * n * bc), "dimensions and counts")
    h.prove(np.array_equal(P.xl, xl) and np.array_equal(P.xu, xu), "bounds", detail=(P.xl, P.xu))
    h.eq(P.objective(x), h.array(F), "objective values")
    h.eq(P.ieq_constraint(x), h.array(G + ([xl[i] - x[i] for i in range(n)] + [x[i] - xu[i] for i in range(n)] if bc else [])), "inequality constraints")
    h.reach()


SAME = [("zdt1", 3, {}), ("zdt2", 3, {}), ("zdt3", 3, {}), ("zdt4", 3, {}), ("zdt6", 3, {}), ("dtlz1", 4, dict(n_obj=3)), ("dtlz2", 4, dict(n_obj=3)), ("dtlz3", 4, dict(n_obj=2)), ("dtlz4", 4, dict(n_obj=3)), ("dtlz5", 4, dict(n_obj=3)), ("dtlz6", 4, dict(n_obj=3)), ("dtlz7", 4, dict(n_obj=3))]


@C.harness(params=[dict(name=a, n=n, kw=k) for a, n, k in SAME], bounds="interior points of the box, three or four variables, two or three objectives")
def same(h, name, n, kw):
    """ZDT and DTLZ problems from the factory are the native problems of that name"""
    P = PR.get_pymoo_problem(name, boundary_constraints=False, n_var=n, **kw)
    Q = getattr(PR, name.upper())(n_var=n, **kw)
    h.prove((P.n_var, P.n_obj, P.n_eq_constr, P.n_ieq_constr) == (n, Q.n_obj, 0, 0), "dimensions and counts")
    h.prove(np.array_equal(P.xl, Q.xl) and np.array_equal(P.xu, Q.xu), "bounds", detail=(P.xl, P.xu, Q.xl, Q.xu))
    x = h.array([h.real(f"x{i}", float(a) + 0.001, float(b) - 0.001) for i, (a, b) in enumerate(zip(Q.xl, Q.xu))])
    h.eq(P.objective(x), Q.objective(x), "objective values", tol=1e-5)
    h.reach()


@C.harness(bounds="every registered name, spelling and default configuration")
def registry(h):
    """every registered name gives the problem of that name; others are rejected; pymoo's toolbox choice is restored"""
    import pymoo.gradient as gradient

    names = PR.pymoo_problem_names()
    h.prove(len(set(names)) == len(names) and set(names) >= {"bnh", "osy", "srn", "tnk"} | {a for a, _, _ in SAME}, "registered names", detail=names)
    before = gradient.TOOLBOX
    for other in ("numpy", "autograd.numpy", "jax.numpy"):
        try:
            gradient.activate(other)
            sys.modules.pop("pymoo.problems.multi.srn", None)
            P = PR.get_pymoo_problem("srn")
            h.prove(gradient.TOOLBOX == other, "pymoo's toolbox choice is restored", detail=(other, gradient.TOOLBOX))
            h.prove(sys.modules["pymoo.problems.multi.srn"].anp.__name__ == "jax.numpy", "the problem computes with JAX", detail=other)
        finally:
            gradient.activate(before)
    for nm in names:
        for spell in (nm, nm.upper(), nm.capitalize()):
            own = h.sym and nm == "tnk"  # its box has pi, a symbolic constant that JAX's own shape evaluation cannot read
            P = PR.get_pymoo_problem(spell, boundary_constraints=False) if own else PR.get_pymoo_problem(spell)
            h.prove(type(P._problem).__name__.lower() == nm, "the problem of that name", detail=(nm, type(P._problem)))
            h.prove(P.n_ieq_constr == (0 if own else 2 * P.n_var) + P._problem.n_ieq_constr, "box constraints by default", detail=nm)
            h.prove(gradient.TOOLBOX == before, "toolbox restored", detail=gradient.TOOLBOX)
    for nm in ("", "zdt5", "wfg1", "bnh "):
        try:
            PR.get_pymoo_problem(nm)
        except ValueError:
            continue
        h.prove(False, "unknown names are rejected", detail=nm)
    P = Plain([[1.0, 0.0, 0.0, 0.0]], n_var=2, n_obj=1, xl=0, xu=1)
    h.prove(MOP.from_pymoo(P) is P, "a native problem stays what it is")
    for make in (lambda: MOP.from_pymoo(object()), lambda: PR.base.MOP.from_pymoo(3)):
        try:
            make()
        except TypeError:
            continue
        h.prove(False, "only pymoo problems can be wrapped")
    h.reach()
