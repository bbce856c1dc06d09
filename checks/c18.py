"""C18: problem evaluations are pointwise, derivatives match the functions"""
import jax.numpy as jnp
import numpy as np

import hvd.problems as PR
from hvd.problems.base import CMOP, MOP
from hvd.problems.misc import DENT, DisConnected
from vt.harness import Check

C = Check(
    "C18",
    ["MOP/CMOP.objective/eq_constraint/ieq_constraint and their _jacobian/_hessian/_batch variants", "jaxprs of all problem classes and of their JAX derivatives"],
    ["sin, cos, exp, fractional powers are uninterpreted atoms with their differentiation rules", "points on kinks (ties of max, abs, floor, where) are excluded from the derivative claims, points with a vanishing denominator from all claims about CF8-CF10", "JAX's reverse/forward transformation is executed by tracing; its output is compared with independently derived expressions"],
)


def poly(cs, x, xp):
    """cubic with a product term and a sine, one value per coefficient row"""
    n = len(x)
    return [c[0] * x[0] + c[1] * x[n - 1] ** 3 + c[2] * x[0] * x[n - 1] + c[3] * xp(x[0]) + c[4] * x[n // 2] ** 2 for c in cs]


class Custom(CMOP):
    def __init__(self, cs, ce, ci, **kw):
        self.cs, self.ce, self.ci = cs, ce, ci
        super().__init__(n_eq_constr=len(ce), n_ieq_constr=len(ci), **kw)

    def _objective(self, x):
        return jnp.array(poly(self.cs, x, jnp.sin))

    def _eq_constraint(self, x):
        return jnp.array(poly(self.ce, x, jnp.sin))

    def _ieq_constraint(self, x):
        return jnp.array(poly(self.ci, x, jnp.sin))


class CustomU(MOP):
    def __init__(self, cs, **kw):
        self.cs = cs
        super().__init__(**kw)

    def _objective(self, x):
        return jnp.array(poly(self.cs, x, jnp.sin))


def derivs(h, cs, x):
    """value, Jacobian, Hessian of poly, by hand"""
    n = len(x)
    sn, co = h.f("sin", x[0]), h.f("cos", x[0])
    V, J, H = [], [], []
    for c in cs:
        V.append(c[0] * x[0] + c[1] * x[n - 1] ** 3 + c[2] * x[0] * x[n - 1] + c[3] * sn + c[4] * x[n // 2] ** 2)
        g = [0] * n
        g[0] = g[0] + c[0] + c[2] * x[n - 1] + c[3] * co
        g[n - 1] = g[n - 1] + 3 * c[1] * x[n - 1] ** 2 + c[2] * x[0]
        g[n // 2] = g[n // 2] + 2 * c[4] * x[n // 2]
        q = [[0] * n for _ in range(n)]
        q[0][0] = q[0][0] - c[3] * sn
        q[n - 1][n - 1] = q[n - 1][n - 1] + 6 * c[1] * x[n - 1]
        q[0][n - 1] = q[0][n - 1] + c[2]
        q[n - 1][0] = q[n - 1][0] + c[2]
        q[n // 2][n // 2] = q[n // 2][n // 2] + 2 * c[4]
        J.append(g)
        H.append(q)
    return h.array(V), h.array(J), h.array(H)


def coef(h, nm, k):
    return [[h.real(f"{nm}{i}{j}", -2, 2) for j in range(5)] for i in range(k)]


@C.harness(params=[dict(n=n, m=m, ne=e, ni=i, N=N) for n, m, e, i, N in [(1, 1, 0, 0, 1), (2, 2, 0, 0, 2), (3, 2, 1, 0, 2), (2, 3, 0, 2, 1), (2, 2, 2, 1, 2), (3, 2, 1, 2, 3)]], bounds="arbitrary coefficients, points and batches")
def generic(h, n, m, ne, ni, N):
    """every evaluation, Jacobian and Hessian of a problem with arbitrary coefficients"""
    cs, ce, ci = coef(h, "c", m), coef(h, "e", ne), coef(h, "i", ni)
    kw = dict(n_var=n, n_obj=m, xl=-5, xu=5)
    P = Custom(cs, ce, ci, **kw) if ne + ni or n == 1 else CustomU(cs, **kw)
    X = h.reals("x", (N, n), -2, 2)
    parts = [("objective", "objective", cs)]
    parts += [("eq_constraint", "eq", ce)] if ne else []
    parts += [("ieq_constraint", "ieq", ci)] if ni else []
    for f, d, c in parts:
        D = [derivs(h, c, x) for x in X]
        for k in range(N):
            h.eq(getattr(P, f)(X[k]), D[k][0], f)
            h.eq(getattr(P, d + "_jacobian")(X[k]), D[k][1], f + ": Jacobian")
            h.eq(getattr(P, d + "_hessian")(X[k]), D[k][2], f + ": Hessian")
        for nm, j in ((f + "_batch", 0), (d + "_jacobian_batch", 1), (d + "_hessian_batch", 2)):
            h.eq(getattr(P, nm)(X), h.array([q[j] for q in D]), nm + ": row by row")
    h.reach()


@C.harness(params=[dict(n=n, ne=e, ni=i) for n, e, i in [(1, 0, 0), (2, 0, 1), (2, 1, 2)]], bounds="problems with boundary constraints")
def bounded(h, n, ne, ni):
    """derivatives of the appended boundary constraints"""
    cs, ce, ci = coef(h, "c", 2), coef(h, "e", ne), coef(h, "i", ni)
    P = Custom(cs, ce, ci, n_var=n, n_obj=2, xl=-5, xu=5, boundary_constraints=True)
    X = h.reals("x", (2, n), -2, 2)
    J, H = [], []
    for x in X:
        _, j, q = derivs(h, ci, x)
        I = [[1 if a == b else 0 for b in range(n)] for a in range(n)]
        J.append([list(r) for r in j] + [[-v for v in r] for r in I] + I)
        H.append([[list(r) for r in b] for b in q] + [[[0] * n for _ in range(n)] for _ in range(2 * n)])
    for k in range(2):
        h.eq(P.ieq_jacobian(X[k]), h.array(J[k]), "Jacobian with boundary constraints")
        h.eq(P.ieq_hessian(X[k]), h.array(H[k]), "Hessian with boundary constraints")
    h.eq(P.ieq_jacobian_batch(X), h.array(J), "batch of Jacobians with boundary constraints")
    h.eq(P.ieq_hessian_batch(X), h.array(H), "batch of Hessians with boundary constraints")
    h.reach()


def numdiff(f, x):
    """central differences, for replays"""
    x = np.asarray(x, dtype=float)
    e = 1e-6
    return np.stack([(np.asarray(f(x + e * d)) - np.asarray(f(x - e * d))) / (2 * e) for d in np.eye(len(x))], axis=-1)


PROBLEMS = [
    ("ZDT1", 3, {}), ("ZDT2", 3, {}), ("ZDT3", 2, {}), ("ZDT4", 3, {}), ("ZDT6", 3, {}),
    ("DTLZ1", 3, dict(n_obj=2)), ("DTLZ1", 4, dict(n_obj=3)), ("DTLZ2", 4, dict(n_obj=3)), ("DTLZ3", 3, dict(n_obj=2)), ("DTLZ5", 4, dict(n_obj=3)), ("DTLZ6", 3, dict(n_obj=2)), ("DTLZ7", 4, dict(n_obj=3)),
    ("IDTLZ1", 3, dict(n_obj=2)), ("IDTLZ2", 4, dict(n_obj=3)), ("Eq1DTLZ1", 3, dict(n_obj=3)), ("Eq1IDTLZ2", 3, dict(n_obj=3)),
    ("CONV3", 3, {}), ("CONV4", 4, {}), ("DENT", 2, {}),
    ("UF1", 4, {}), ("UF2", 4, {}), ("UF3", 3, {}), ("UF4", 3, {}), ("UF5", 3, {}), ("UF6", 3, {}), ("UF7", 3, {}), ("UF8", 5, {}), ("UF9", 5, {}), ("UF10", 5, {}),
    ("CF1", 4, {}), ("CF2", 4, {}), ("CF3", 4, {}), ("CF4", 4, {}), ("CF5", 4, {}), ("CF6", 4, {}), ("CF7", 4, {}), ("CF8", 5, {}), ("CF9", 5, {}), ("CF10", 5, {}),
]


def make(name, n, kw):
    cls = getattr(PR, name, None) or {"DENT": DENT, "DisConnected": DisConnected}[name]
    return cls(**kw) if name in ("CONV3", "CONV4", "CONV4_2F", "DENT", "DisConnected") else cls(n_var=n, **kw)


@C.harness(params=[dict(name=a, n=b, kw=c) for a, b, c in PROBLEMS], bounds="all points of the interior of the box away from kinks")
def problem(h, name, n, kw):
    """Jacobian of the objectives and constraints = derivative of the values"""
    P = make(name, n, kw)
    if name in ("CF8", "CF9", "CF10"):
        h.generic_denominators()
    x = h.array([h.real(f"x{i}", float(lo) + 0.01 * float(up - lo), float(up) - 0.01 * float(up - lo)) for i, (lo, up) in enumerate(zip(P.xl, P.xu))])
    fs = [("objective", P.objective, P.objective_jacobian, P.objective_batch, P.objective_jacobian_batch)]
    if getattr(P, "n_eq_constr", 0):
        fs.append(("equalities", P.eq_constraint, P.eq_jacobian, P.eq_constraint_batch, P.eq_jacobian_batch))
    if getattr(P, "n_ieq_constr", 0):
        fs.append(("inequalities", P.ieq_constraint, P.ieq_jacobian, P.ieq_constraint_batch, P.ieq_jacobian_batch))
    for nm, f, df, fb, dfb in fs:
        y = np.ravel(f(x))
        J = df(x)
        h.prove(np.shape(J) == (len(y), n), f"{nm}: shape of the Jacobian", detail=(np.shape(J), len(y)))
        X2 = h.array([x])
        h.eq(np.ravel(fb(X2)[0]), y, f"{nm}: batch evaluation")
        h.eq(dfb(X2)[0], J, f"{nm}: batch of Jacobians")
        if h.sym:
            from vt.engine import PATH, diff, lift

            if h.on_kink() or (name == "CF10" and nm != "objective"):  # CF10: derivative expressions out of reach
                continue
            for i in range(len(y)):
                for j in range(n):
                    d = diff(lift(y[i]), x[j])
                    h.eq(J[i][j], d, f"{nm}: Jacobian of the values")
                    if nm == "objective" and name[:2] not in ("CF", "UF"):
                        if i == j == 0:
                            H = P.objective_hessian(x)
                        for k in range(n):
                            h.eq(H[i][j][k], diff(d, x[k]), "Hessian of the objectives")
        else:
            D = numdiff(lambda z: np.ravel(f(z)), x)
            sc = 1 + np.abs(D).max()
            h.prove(np.abs(np.asarray(J, dtype=float) - D).max() <= 1e-4 * sc or kinky(f, x), f"{nm}: Jacobian of the values", detail=(J, D))
            if nm == "objective" and name[:2] not in ("CF", "UF"):
                D, H = numdiff(df, x), np.asarray(P.objective_hessian(x), dtype=float)
                h.prove(np.abs(H - D).max() <= 1e-4 * (1 + np.abs(D).max()) or kinky(f, x), "Hessian of the objectives", detail=(H, D))
    h.reach()


def kinky(f, x):
    """one-sided differences disagree: not differentiable here"""
    x = np.asarray(x, dtype=float)
    e = 1e-6
    y = np.ravel(f(x))
    for d in np.eye(len(x)):
        a, b = np.ravel(f(x + e * d)) - y, y - np.ravel(f(x - e * d))
        if np.abs(a - b).max() > 1e-3 * e * (1 + np.abs(a / e).max()) * 10:
            return True
    return False
