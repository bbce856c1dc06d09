"""C19: benchmark problems compute their published formulas (written here from the papers, with 1-based indices)"""
import numpy as np

import hvd.problems as PR
from hvd.problems.misc import DENT, DisConnected
from vt.harness import Check

C = Check(
    "C19",
    ["hvd.problems.zdt/dtlz/eqdtlz/uf/cf/wfg/misc: _objective, _eq_constraint, _ieq_constraint (jaxprs)"],
    ["sin, cos, exp, log and fractional powers are uninterpreted atoms", "the 1e-12/1e-30 guards of ZDT and DTLZ6 at the singular point are excluded", "points where 1 - f3^2 vanishes are excluded for the constraints of CF8-CF10"],
)
pi = np.pi


class M:
    """formula helpers in both modes"""

    def __init__(self, h):
        self.h = h

    def sin(self, x):
        return self.h.f("sin", x)

    def cos(self, x):
        return self.h.f("cos", x)

    def exp(self, x):
        return self.h.f("exp", x)

    def sqrt(self, x):
        return self.h.sqrt(x)

    def floor(self, x):
        return x.floor() if self.h.sym and hasattr(x, "floor") else np.floor(x)

    def prod(self, xs):
        r = 1
        for x in xs:
            r = r * x
        return r

    def max(self, a, b):
        return a if a >= b else b

    def min(self, a, b):
        return a if a <= b else b

    def sign(self, a):
        return 1 if a > 0 else (-1 if a < 0 else 0)


def mean(xs):
    xs = list(xs)
    return sum(xs) / len(xs)


# ---- ZDT (Zitzler, Deb, Thiele 2000)
def zdt(k, x, m):
    n = len(x)
    s = sum(x[1:])
    g = 1 + 9 * s / (n - 1)
    if k == 1:
        return [x[0], g * (1 - m.sqrt(x[0] / g))]
    if k == 2:
        return [x[0], g * (1 - (x[0] / g) ** 2)]
    if k == 3:
        return [x[0], g * (1 - m.sqrt(x[0] / g) - x[0] / g * m.sin(10 * pi * x[0]))]
    if k == 4:
        g = 1 + 10 * (n - 1) + sum(v * v - 10 * m.cos(4 * pi * v) for v in x[1:])
        return [x[0], g * (1 - m.sqrt(x[0] / g))]
    f = 1 - m.exp(-4 * x[0]) * m.sin(6 * pi * x[0]) ** 6
    g = 1 + 9 * (s / (n - 1)) ** 0.25
    return [f, g * (1 - (f / g) ** 2)]


# ---- DTLZ (Deb, Thiele, Laumanns, Zitzler 2005)
def dtlz(k, x, m, M):
    p, z = list(x[: M - 1]), list(x[M - 1 :])
    K = len(z)
    if k in (1, 3):
        g = 100 * (K + sum((v - 0.5) ** 2 - m.cos(20 * pi * (v - 0.5)) for v in z))
    elif k in (2, 4, 5):
        g = sum((v - 0.5) ** 2 for v in z)
    elif k == 6:
        g = sum(v ** 0.1 for v in z)
    else:
        g = 1 + 9 * sum(z) / K
        return p + [(1 + g) * (M - sum(f / (1 + g) * (1 + m.sin(3 * pi * f)) for f in p))], g
    if k == 1:
        c, s = p, [1 - v for v in p]
    else:
        t = [v**100 for v in p] if k == 4 else p
        if k in (5, 6):
            t = [p[0]] + [(1 + 2 * g * v) / (2 * (1 + g)) for v in p[1:]]
        c, s = [m.cos(v * pi / 2) for v in t], [m.sin(v * pi / 2) for v in t]
    out = []
    for i in range(M):
        f = m.prod(c[: M - 1 - i]) * (1 + g)
        if i:
            f = f * s[M - 1 - i]
        out.append(f / 2 if k == 1 else f)
    return out, g


# ---- CEC 2009 (Zhang et al. 2008), x[0] is x_1
def groups2(n):
    return [j for j in range(2, n + 1) if j % 2 == 1], [j for j in range(2, n + 1) if j % 2 == 0]


def groups3(n):
    return [j for j in range(3, n + 1) if j % 3 == 1], [j for j in range(3, n + 1) if j % 3 == 2], [j for j in range(3, n + 1) if j % 3 == 0]


def rast(y, m, w=4):
    return 2 * y * y - m.cos(w * pi * y) + 1


def multi(y, J, m):
    """2/|J| (4 sum y^2 - 2 prod cos(20 y pi/sqrt j) + 2)"""
    return 2 * (4 * sum(y[j] ** 2 for j in J) - 2 * m.prod(m.cos(20 * pi * y[j] / np.sqrt(j)) for j in J) + 2) / len(J)


def uf2d(k, x, m):
    n = len(x)
    x1 = x[0]
    J1, J2 = groups2(n)
    X = {j: x[j - 1] for j in range(1, n + 1)}
    y = {j: X[j] - m.sin(6 * pi * x1 + j * pi / n) for j in J1 + J2}
    if k == 2:
        env = lambda j: 0.3 * x1**2 * m.cos(24 * pi * x1 + 4 * j * pi / n) + 0.6 * x1
        y = {j: X[j] - env(j) * (m.cos if j in J1 else m.sin)(6 * pi * x1 + j * pi / n) for j in J1 + J2}
    if k == 3:
        y = {j: X[j] - x1 ** (0.5 * (1 + 3 * (j - 2) / (n - 2))) for j in J1 + J2}
    sq = lambda J: 2 * mean(y[j] ** 2 for j in J)
    if k in (1, 2):
        return [x1 + sq(J1), 1 - m.sqrt(x1) + sq(J2)]
    if k == 3:
        return [x1 + multi(y, J1, m), 1 - m.sqrt(x1) + multi(y, J2, m)]
    if k == 4:
        e = lambda J: 2 * mean(abs(y[j]) / (1 + m.exp(2 * abs(y[j]))) for j in J)
        return [x1 + e(J1), 1 - x1**2 + e(J2)]
    if k == 5:
        a = (1 / 20 + 0.1) * abs(m.sin(20 * pi * x1))
        e = lambda J: 2 * mean(rast(y[j], m) for j in J)
        return [x1 + a + e(J1), 1 - x1 + a + e(J2)]
    if k == 6:
        a = m.max(0 * x1, 2 * (1 / 4 + 0.1) * m.sin(4 * pi * x1))
        return [x1 + a + multi(y, J1, m), 1 - x1 + a + multi(y, J2, m)]
    a = x1 ** 0.2
    return [a + sq(J1), 1 - a + sq(J2)]


def uf3d(k, x, m):
    n = len(x)
    x1, x2 = x[0], x[1]
    y = {j: x[j - 1] - 2 * x2 * m.sin(2 * pi * x1 + j * pi / n) for j in range(3, n + 1)}
    pen = [2 * mean(y[j] ** 2 if k != 10 else 4 * y[j] ** 2 - m.cos(8 * pi * y[j]) + 1 for j in J) for J in groups3(n)]
    if k == 9:
        t = m.max(0 * x1, (1 + 0.1) * (1 - 4 * (2 * x1 - 1) ** 2))
        f = [0.5 * (t + 2 * x1) * x2, 0.5 * (t - 2 * x1 + 2) * x2, 1 - x2]
    else:
        a, b = x1 * pi / 2, x2 * pi / 2
        f = [m.cos(a) * m.cos(b), m.cos(a) * m.sin(b), m.sin(a)]
    return [u + v for u, v in zip(f, pen)]


def cf(k, x, m):
    """objectives and constraints g <= 0 (the report states them as >= 0)"""
    n = len(x)
    x1 = x[0]
    X = {j: x[j - 1] for j in range(1, n + 1)}
    J1, J2 = groups2(n)
    if k <= 7:
        if k == 1:
            y = {j: X[j] - x1 ** (0.5 * (1 + 3 * (j - 2) / (n - 2))) for j in J1 + J2}
        elif k in (2, 7):
            a, b = (m.sin, m.cos) if k == 2 else (m.cos, m.sin)
            y = {j: X[j] - (a if j in J1 else b)(6 * pi * x1 + j * pi / n) for j in J1 + J2}
        elif k in (3, 4):
            y = {j: X[j] - m.sin(6 * pi * x1 + j * pi / n) for j in J1 + J2}
        else:
            y = {j: X[j] - 0.8 * x1 * (m.cos if j in J1 else m.sin)(6 * pi * x1 + j * pi / n) for j in J1 + J2}
        sq = lambda J: 2 * mean(y[j] ** 2 for j in J)
        if k == 1:
            f = [x1 + sq(J1), 1 - x1 + sq(J2)]
            return f, [-(f[0] + f[1] - abs(m.sin(10 * pi * (f[0] - f[1] + 1))) - 1)]
        if k == 2:
            f = [x1 + sq(J1), 1 - m.sqrt(x1) + sq(J2)]
            t = f[1] + m.sqrt(f[0]) - m.sin(2 * pi * (m.sqrt(f[0]) - f[1] + 1)) - 1
            return f, [-t / (1 + m.exp(4 * abs(t)))]
        if k == 3:
            f = [x1 + multi(y, J1, m), 1 - x1**2 + multi(y, J2, m)]
            return f, [-(f[1] + f[0] ** 2 - m.sin(2 * pi * (f[0] ** 2 - f[1] + 1)) - 1)]
        if k in (4, 5):
            hh = {j: y[j] ** 2 if k == 4 else rast(y[j], m) for j in J1 + J2}
            hh[2] = abs(y[2]) if y[2] < 1.5 * (1 - np.sqrt(2) / 2) else 0.125 + (y[2] - 1) ** 2
            f = [x1 + sum(hh[j] for j in J1), 1 - x1 + sum(hh[j] for j in J2)]
            t = X[2] - (m.sin(6 * pi * x1 + 2 * pi / n) if k == 4 else 0.8 * x1 * m.sin(6 * pi * x1 + 2 * pi / n)) - 0.5 * x1 + 0.25
            return f, [-t / (1 + m.exp(4 * abs(t))) if k == 4 else -t]
        hh = {j: y[j] ** 2 if k == 6 or j in (2, 4) else rast(y[j], m) for j in J1 + J2}
        f = [x1 + sum(hh[j] for j in J1), (1 - x1) ** 2 + sum(hh[j] for j in J2)]
        a = 0.8 * x1 if k == 6 else 1
        u = 0.5 * (1 - x1) - (1 - x1) ** 2
        v = 0.25 * m.sqrt(1 - x1) - 0.5 * (1 - x1)
        return f, [
            -(X[2] - a * m.sin(6 * pi * x1 + 2 * pi / n) - m.sign(u) * m.sqrt(abs(u))),
            -(X[4] - a * m.sin(6 * pi * x1 + 4 * pi / n) - m.sign(v) * m.sqrt(abs(v))),
        ]
    f = uf3d(10 if k == 10 else 8, x, m)
    d = 1 - f[2] ** 2
    m.h.assume(d != 0 if m.h.sym else abs(d) > 1e-9)
    s = m.sin(2 * pi * ((f[0] ** 2 - f[1] ** 2) / d + 1))
    return f, [-((f[0] ** 2 + f[1] ** 2) / d - (4 * abs(s) if k == 8 else 3 * s if k == 9 else s) - 1)]


# ---- WFG toolkit (Huband et al. 2006)
def wfg(num, x, m, Mo, k):
    n = len(x)
    l = n - k
    eps = 1e-10  # the toolkit's correction of rounding errors

    def c01(v):
        if m.h.sym:  # true of the transformations on [0, 1]; not all of it is known to the solver
            m.h.assume(v >= 0)
            m.h.assume(v <= 1)
        if v < 0 and v >= -eps:
            return 0 * v
        return 0 * v + 1 if v > 1 and v <= 1 + eps else v

    z = [x[i] / (2 * (i + 1)) for i in range(n)]
    b_poly = lambda y, a: c01(y**a)

    def b_flat(y, A, B, Cc):
        return c01(A + m.min(0 * y, m.floor(y - B)) * (A * (B - y) / B) - m.min(0 * y, m.floor(Cc - y)) * ((1 - A) * (y - Cc) / (1 - Cc)))

    def b_param(y, u, A=0.98 / 49.98, B=0.02, Cc=50):
        v = A - (1 - 2 * u) * abs(m.floor(0.5 - u) + A)
        return c01(y ** (B + (Cc - B) * v))

    s_linear = lambda y, A=0.35: c01(abs(y - A) / abs(m.floor(A - y) + A))

    def s_decept(y, A=0.35, B=0.001, Cc=0.05):
        return c01(1 + (abs(y - A) - B) * (m.floor(y - A + B) * (1 - Cc + (A - B) / B) / (A - B) + m.floor(A + B - y) * (1 - Cc + (1 - A - B) / B) / (1 - A - B) + 1 / B))

    def s_multi(y, A, B, Cc):
        q = abs(y - Cc) / (2 * (m.floor(Cc - y) + Cc))
        return c01((1 + m.cos((4 * A + 2) * pi * (0.5 - q)) + 4 * B * q**2) / (B + 2))

    r_sum = lambda y, w: c01(sum(a * b for a, b in zip(y, w)) / sum(w))
    flat = lambda y: r_sum(y, [1] * len(y))

    def r_nonsep(y, A):
        N, cA = len(y), -(-A // 2)
        t = sum(y[j] + sum(abs(y[j] - y[(j + 1 + q) % N]) for q in range(A - 1)) for j in range(N))
        return c01(t * A / (N * cA * (1 + 2 * A - 2 * cA)))

    gap = k // (Mo - 1)
    part = [range(i * gap, (i + 1) * gap) for i in range(Mo - 1)]
    y = list(z)
    if num in (7, 8, 9):
        o = list(y)
        rng = range(k) if num == 7 else range(k, n) if num == 8 else range(n - 1)
        for i in rng:
            y[i] = b_param(o[i], flat(o[:i] if num == 8 else o[i + 1 :]))
    if num in (1, 2, 3, 6, 7, 8):
        y = y[:k] + [s_linear(v) for v in y[k:]]
    if num == 1:
        y = y[:k] + [b_flat(v, 0.8, 0.75, 0.85) for v in y[k:]]
        y = [b_poly(v, 0.02) for v in y]
        w = [2 * (i + 1) for i in range(n)]
        t = [r_sum([y[i] for i in p], [w[i] for i in p]) for p in part] + [r_sum(y[k:], w[k:])]
    elif num in (2, 3):
        y = y[:k] + [r_nonsep([y[k + 2 * i], y[k + 2 * i + 1]], 2) for i in range(l // 2)]
        t = [flat([y[i] for i in p]) for p in part] + [flat(y[k:])]
    else:
        if num == 4:
            y = [s_multi(v, 30, 10, 0.35) for v in y]
        elif num == 5:
            y = [s_decept(v) for v in y]
        elif num == 9:
            y = [s_decept(v) if i < k else s_multi(v, 30, 95, 0.35) for i, v in enumerate(y)]
        if num in (6, 9):
            t = [r_nonsep([y[i] for i in p], gap) for p in part] + [r_nonsep(y[k:], l)]
        else:
            t = [flat([y[i] for i in p]) for p in part] + [flat(y[k:])]
    A = [1] + [0 if num == 3 else 1] * (Mo - 2)
    X = [m.max(t[-1], A[i] + 0 * t[-1]) * (t[i] - 0.5) + 0.5 for i in range(Mo - 1)]
    if num == 9:
        X = t[:-1]
    out = []
    for i in range(1, Mo + 1):
        head = X[: Mo - i]
        if num in (1, 2) and i == Mo:
            hm = 1 - X[0] - m.cos(10 * pi * X[0] + pi / 2) / (10 * pi) if num == 1 else 1 - X[0] * m.cos(5 * pi * X[0]) ** 2
        elif num in (1, 2):
            hm = m.prod(1 - m.cos(v * pi / 2) for v in head) * (1 - m.sin(X[Mo - i] * pi / 2) if i > 1 else 1)
        elif num == 3:
            hm = m.prod(head) * (1 - X[Mo - i] if i > 1 else 1)
        else:
            hm = m.prod(m.sin(v * pi / 2) for v in head) * (m.cos(X[Mo - i] * pi / 2) if i > 1 else 1)
        out.append(t[-1] + 2 * i * c01(hm))
    return out


def spec(name, x, m, P):
    """objectives, equalities, inequalities"""
    M = P.n_obj
    if name[:3] == "ZDT":
        return zdt(int(name[3:]), x, m), [], []
    if name[:2] == "UF":
        k = int(name[2:])
        return (uf2d if k <= 7 else uf3d)(k, x, m), [], []
    if name[:2] == "CF":
        f, g = cf(int(name[2:]), x, m)
        return f, [], g
    if name[:3] == "WFG":
        return wfg(int(name[3:]), x, m, M, P.k), [], []
    if "DTLZ" in name:
        f, g = dtlz(int(name[-1]), x, m, M)
        if "IDTLZ" in name:
            f = [(1 + g) / 2 - v for v in f]
        return f, [abs(sum((v - 0.5) ** 2 for v in x[: M - 1]) - 0.16) - 1e-4] if name[:3] == "Eq1" else [], []
    d2 = lambda a: sum((u - v) ** 2 for u, v in zip(x, a))
    if name == "DENT":
        a, b = x[0] + x[1], x[0] - x[1]
        r = m.sqrt(1 + a**2) + m.sqrt(1 + b**2)
        e = 0.85 * m.exp(-(b**2))
        return [0.5 * (r + b) + e, 0.5 * (r - b) + e], [], []
    if name == "CONV3":
        return [d2([-1, -1, -1]), d2([1, 1, 1]), d2([-1, -1, 1])], [], []
    unit = [[1 if i == j else 0 for j in range(4)] for i in range(4)]
    if name == "CONV4":
        return [d2(e) for e in unit], [], []
    if all([v < 0 for v in x]):
        s = [2, 0, 0, -2]
        return [sum((u + 1 - v) ** 2 for u, v in zip(x, e)) - 3.5 * t for e, t in zip(unit, s)], [], []
    return [d2(e) for e in unit], [], []


L = []
for i in (1, 2, 3, 4, 6):
    L += [(f"ZDT{i}", 2, {}), (f"ZDT{i}", 4, {})]
for i in range(1, 8):
    L += [(f"DTLZ{i}", 3, dict(n_obj=2)), (f"DTLZ{i}", 5, dict(n_obj=3))] + ([(f"DTLZ{i}", 5, dict(n_obj=4))] if i != 4 else [])
for i in range(1, 5):
    L += [(f"IDTLZ{i}", 4, dict(n_obj=3)), (f"Eq1DTLZ{i}", 4, dict(n_obj=3)), (f"Eq1IDTLZ{i}", 3, dict(n_obj=2))]
L += [("CONV3", 3, {}), ("CONV4", 4, {}), ("CONV4_2F", 4, {}), ("DENT", 2, {})]
for i in range(1, 8):
    L += [(f"UF{i}", n, {}) for n in (3, 4, 5)]
for i in (8, 9, 10):
    L += [(f"UF{i}", n, {}) for n in (5, 6, 8)]
for i in range(1, 8):
    L += [(f"CF{i}", n, {}) for n in (4, 5, 6)]
for i in (8, 9, 10):
    L += [(f"CF{i}", n, {}) for n in (5, 7)]
W = [(f"WFG{i}", n, dict(n_obj=m, k=4), free, base) for i in range(2, 9) for n, m in ((6, 2), (6, 3), (8, 2)) for base in (0.4, 0.55) for free in (0, 3, 4, n - 1)]
W = [w + (int((w[1], w[2]["n_obj"]) != (6, 3 if w[0] in ("WFG2", "WFG5", "WFG9") else 2) or w[3] == 3),) for w in W]


def make(name, n, kw):
    cls = getattr(PR, name, None) or {"DENT": DENT, "DisConnected": DisConnected}[name]
    return cls(**kw) if name in ("CONV3", "CONV4", "CONV4_2F", "DENT") else cls(n_var=n, **kw)


def compare(h, name, n, kw, x=None):
    P = make(name, n, kw)
    if x is None:
        x = h.array([h.real(f"x{i}", float(lo), float(up)) for i, (lo, up) in enumerate(zip(P.xl, P.xu))])
    if name[:3] == "ZDT":
        h.assume(x[0] >= 1e-3 if name in ("ZDT1", "ZDT3", "ZDT4") else True)
        h.assume(sum(x[1:]) >= 1e-3 if name == "ZDT6" else True)
    if name == "DTLZ6":
        for v in x[P.n_obj - 1 :]:
            h.assume(v >= 1e-3)
    if name in ("CF8", "CF9", "CF10"):
        h.generic_denominators()
    y = P.objective(x)
    e = P.eq_constraint(x) if getattr(P, "n_eq_constr", 0) else []
    g = P.ieq_constraint(x) if getattr(P, "n_ieq_constr", 0) else []
    f, ee, gg = spec(name, list(x), M(h), P)
    h.prove(np.shape(y) == (len(f),), "number of objectives", detail=np.shape(y))
    h.eq(y, h.array(f), "objectives")
    for nm, a, b in (("equalities", e, ee), ("inequalities", g, gg)):
        h.prove(np.size(a) == len(b), f"number of {nm}", detail=np.shape(a))
        if len(b):
            h.eq(np.ravel(a), h.array(b), nm)
    h.reach()


@C.harness(params=[dict(name=a, n=b, kw=c) for a, b, c in L], bounds="all points of the box")
def problem(h, name, n, kw):
    compare(h, name, n, kw)


@C.harness(params=[dict(name=a, n=b, kw=c, free=f, base=g, _thorough=t) for a, b, c, f, g, t in W], bounds="WFG: one variable anywhere in its range (0.1% away from the faces), the others in disjoint narrow ranges around the middle; four position parameters. WFG1 (50th roots) and WFG9 (paths) are outside")
def toolkit(h, name, n, kw, free, base):
    r = [(0.001, 0.999) if i == free else (base + i / 80, base + i / 80 + 1 / 100) for i in range(n)]
    x = h.array([h.real(f"x{i}", a * 2 * (i + 1), b * 2 * (i + 1)) for i, (a, b) in enumerate(r)])
    compare(h, name, n, kw, x)
