"""C21: Pareto fronts and sets reported by the benchmark problems: attained, feasible, mutually non-dominated.

np.linspace is replaced by arbitrary increasing samples with the same end points, np.random by arbitrary draws, the
simplex directions by arbitrary points of the simplex: what holds for them holds for every sample size."""
import sys

import numpy as np

import hvd.problems as PR
import hvd.problems.utils as PU
from hvd.problems.misc import DENT
from vt.harness import Check

C = Check(
    "C21",
    ["get_pareto_front/get_pareto_set of the ZDT, DTLZ, IDTLZ, Eq1DTLZ, UF, CF, CONV and DENT problems", "generic_sphere, get_ref_dirs", "objective, eq_constraint, ieq_constraint at the witnesses"],
    [
        "np.linspace(a, b, N): arbitrary increasing values from a to b; np.random: arbitrary values; get_ref_dirs inside the fronts: arbitrary points of the simplex (its own rows are checked separately)",
        "constraint violations up to 1e-3 are accepted", "0.3 x (pi - x) <= sin(x) <= 0.411 x (pi - x) on [0, pi] and e^4 <= 55 (elementary; used for CF2, CF3, UF6); every non-negative unit vector is attained by the spherical problems (elementary)",
        "mutual non-dominance of the ZDT3 and DENT fronts (transcendental) and the WFG and remotely loaded DTLZ5-7 fronts are outside",
    ],
)
pi = np.pi
TOL = 1e-7


def environment(h, mod, sample=None):
    cnt = [0]

    def real(lo, up):
        cnt[0] += 1
        return h.real(f"s{cnt[0]}", lo, up)

    def linspace(a, b, num=50, **k):
        n = int(num)
        if n <= 2:
            return h.array([a, b][:n])
        v = [sample(cnt, a, b) if sample else real(float(a), float(b)) for _ in range(n - 2)]
        t = [a] + v + [b]
        for x, y in zip(t, t[1:]):
            h.assume(x < y)
        return h.array(t)

    def rand(*shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        cnt[0] += 1
        return h.reals(f"r{cnt[0]}", shape, 0.001, 0.999)

    def dirs(n_obj, *a, **k):
        rows = []
        for _ in range(2):
            cnt[0] += 1
            w = h.reals(f"d{cnt[0]}", (n_obj - 1,), 0, 1)
            h.assume(sum(w) <= 1)
            rows.append(list(w) + [1 - sum(w)])
        return h.array(rows)

    h.patch(mod.np, "linspace", linspace)
    h.patch(mod.np.random, "rand", rand)
    h.patch(mod.np.random, "random", rand)
    h.patch_everywhere(PU.get_ref_dirs, dirs)


def member(h, P, row, x, what, guard=False, box=True):
    """row is attained at the feasible point x of the box"""
    y = P.objective(x)
    if guard:  # the 1e-12 under the square roots of ZDT, at f1 = 0
        h.eq(y[0], row[0], f"{what}: attained")
        h.prove(abs(y[1] - row[1]) <= 2e-6, f"{what}: attained", detail=(y, row))
    else:
        h.eq(y, row, f"{what}: attained")
    for i, v in enumerate(x if box else []):
        h.prove(h.And(v >= float(P.xl[i]) - TOL, v <= float(P.xu[i]) + TOL), f"{what}: at a point of the box", detail=x)
    if getattr(P, "n_ieq_constr", 0):
        for v in np.ravel(P.ieq_constraint(x)):
            h.prove(v <= (1e-3 if h.sym else TOL), f"{what}: feasible", detail=(x, v))
    if getattr(P, "n_eq_constr", 0):
        for v in np.ravel(P.eq_constraint(x)):
            h.prove(h.And(v <= 1e-4 + TOL, v >= -1e-4 - TOL), f"{what}: feasible", detail=(x, v))


def undominated(h, Y, what, pairs=None):
    for i in range(len(Y)):
        for j in range(len(Y)):
            if i != j and (pairs is None or (i, j) in pairs):
                dom = h.And(*[a <= b for a, b in zip(Y[i], Y[j])], h.Or(*[a < b - (0 if h.sym else 1e-9) for a, b in zip(Y[i], Y[j])]))
                h.prove(h.Not(dom), f"{what}: mutually non-dominated", detail=(Y[i], Y[j]))


def make(name, n, kw=None):
    cls = getattr(PR, name, None) or DENT
    P = cls(**(kw or {})) if name[:4] in ("CONV", "DENT") else cls(n_var=n, **(kw or {}))
    return P, sys.modules[cls.__module__]


def nonpos(h, s):
    """bounds of sin(x) on [0, pi] between multiples of x (pi - x), for x = 4 pi s, s in [0, 1]"""
    if h.sym:
        v = h.f("sin", 4 * pi * s)
        for k in range(4):
            lo, up = h.q(k, 4), h.q(k + 1, 4)
            w, b = (-1) ** k * v, (s - lo) * (up - s)
            h.assume(h.implies(h.And(s >= lo, s <= up), h.And(w >= 48 * b, w <= 65 * b)))
        h.assume(h.And(v <= 1, v >= -1))
        for e in (h.f("exp", 4 * v), h.f("exp", -4 * v), h.f("exp", 4 * abs(v))):
            h.assume(e <= 55)  # e^4 = 54.59...


def witness(h, name, n, f):
    """a decision vector for the front point with first objective f (1-based j)"""
    J = range(2, n + 1)
    sn = lambda j: h.f("sin", 6 * pi * f + j * pi / n)
    cs = lambda j: h.f("cos", 6 * pi * f + j * pi / n)
    if name in ("ZDT1", "ZDT2", "ZDT3", "ZDT4"):
        return [f] + [0] * (n - 1)
    if name in ("CF1", "UF3"):
        return [f] + [f ** (0.5 * (1 + 3 * (j - 2) / (n - 2))) for j in J]
    if name in ("UF1", "UF4", "UF5", "UF6", "CF3"):
        return [f] + [sn(j) for j in J]
    if name == "UF2":
        env = lambda j: 0.3 * f**2 * h.f("cos", 24 * pi * f + 4 * j * pi / n) + 0.6 * f
        return [f] + [env(j) * (cs(j) if j % 2 else sn(j)) for j in J]
    if name == "CF2":
        return [f] + [sn(j) if j % 2 else cs(j) for j in J]
    if name == "CF4":
        y = f / 2 - h.q(1, 4) if f > 0.5 else 0
        return [f] + [sn(j) + ((1 if f > 0.75 else y) if j == 2 else 0) for j in J]
    if name == "CF5":
        y = f / 2 - h.q(1, 4) if f > 0.5 else 0
        return [f] + [0.8 * f * (cs(j) if j % 2 else sn(j)) + ((1 if f > 0.75 else y) if j == 2 else 0) for j in J]
    if name in ("CF6", "CF7"):
        u = 1 - f
        a = h.sqrt(u / 2 - u * u) if f > 0.5 else 0
        b = h.sqrt(h.sqrt(u) / 4 - u / 2) if f > 0.75 else 0
        h.prove(h.And(a >= 0, a <= 1, b >= 0, b <= 1), "witness in the box", detail=(f, a, b))
        s = 1 if name == "CF7" else 0.8 * f
        return [f] + [s * (cs(j) if j % 2 else sn(j)) + (a if j == 2 else b if j == 4 else 0) for j in J]
    raise KeyError(name)


CURVES = [("ZDT1", 3), ("ZDT2", 3), ("ZDT3", 3), ("ZDT4", 3), ("ZDT6", 3), ("UF1", 4), ("UF1", 5), ("UF2", 4), ("UF3", 4), ("UF4", 4), ("UF5", 4), ("UF6", 4), ("CF1", 4), ("CF2", 4), ("CF2", 5), ("CF3", 4), ("CF4", 4), ("CF4", 5), ("CF5", 4), ("CF6", 4), ("CF6", 5), ("CF7", 4), ("CF7", 6)]


@C.harness(params=[dict(name=a, n=b, _thorough=int(b > 4)) for a, b in CURVES], bounds="two-objective fronts given as a curve, all sample sizes; ZDT1/3/4: f1 = 0 or f1 >= 1e-3 for attainment (guard of the square root)")
def curve(h, name, n):
    """each sampled front point is attained at a feasible point of the box; no two dominate each other"""
    P, mod = make(name, n)
    environment(h, mod)
    Y = P.get_pareto_front(20 if name == "ZDT3" else 4)
    h.prove(np.ndim(Y) == 2 and np.shape(Y)[1] == 2 and len(Y) > 0, "shape of the front", detail=np.shape(Y))
    for k, row in enumerate(Y):
        f = row[0]
        if h.sym and name == "CF1":
            from vt.npshim import all_const, unobj

            if all_const(row):
                row = unobj(row)
                f = float(row[0])
        if name == "ZDT6":
            continue
        zero = name in ("ZDT1", "ZDT3", "ZDT4") and not f > 0
        if name in ("ZDT1", "ZDT3", "ZDT4") and not zero:
            h.assume(f >= 1e-3)
        if name == "CF2":
            nonpos(h, h.sqrt(f))
        elif name == "CF3":
            nonpos(h, f * f)
        elif name == "UF6":
            nonpos(h, f)
        x = witness(h, name, n, f)
        member(h, P, row, np.array([float(v) for v in x]) if type(f) is float and name == "CF1" else h.array(x), "front point", zero, name not in ("CF5", "CF6"))  # CF5, CF6: |0.8 f cos| + 1 <= 2
    if name != "ZDT3":
        undominated(h, Y, "front")
    h.reach()


@C.harness(params=[dict(name="ZDT6"), dict(name="UF7")], bounds="front samples written as attained values of the first objective")
def inverse(h, name):
    """problems whose first objective is not the first variable"""
    P, mod = make(name, 4)
    X = []

    def sample(cnt, a, b):
        cnt[0] += 1
        x0 = h.real(f"x{cnt[0]}", 0.01, 0.99)
        x = [x0] + [0 if name == "ZDT6" else h.f("sin", 6 * pi * x0 + j * pi / 4) for j in (2, 3, 4)]
        y = P.objective(h.array(x))
        h.assume(y[0] > a)
        h.assume(y[0] < b)
        X.append(x)
        return y[0]

    environment(h, mod, sample)
    Y = P.get_pareto_front(4)
    h.prove(len(Y) == 4, "number of points")
    for k in (1, 2):
        if len(X) == 2:  # else no sample was drawn with np.linspace
            member(h, P, Y[k], h.array(X[k - 1]), "front point")
    h.reach()


@C.harness(params=[dict(name=a, n=b, kind=k) for a, b in [("ZDT1", 3), ("ZDT2", 3), ("ZDT4", 3), ("ZDT6", 3)] for k in ("linear", "random")], bounds="all sample sizes and draws")
def zdt_set(h, name, n, kind):
    """reported Pareto sets of the ZDT problems lie in the box and map to the front"""
    P, mod = make(name, n)
    environment(h, mod)
    X = P.get_pareto_set(3, kind)
    h.prove(np.shape(X) == (3, n), "shape of the set", detail=np.shape(X))
    for x in X:
        y = P.objective(x)
        if name in ("ZDT1", "ZDT4"):
            h.assume(h.Or(x[0] >= 1e-3, x[0] <= 0))
            h.prove(abs(y[1] - 1 + h.sqrt(y[0])) <= 2e-6, "image of a reported point is on the front", detail=(x, y))
        else:
            h.eq(y[1], 1 - y[0] ** 2, "image of a reported point is on the front")
        member(h, P, y, x, "set")
    h.reach()


def surface(h, name, Y, what):
    """Y lies on the (known) front surface of the spherical, linear and inverted problems; returns distances from the ideal point"""
    base = name.replace("Eq1", "")
    R = [[h.q(1, 2) - v for v in y] for y in Y] if base[0] == "I" else [list(y) for y in Y]
    lin = base[-1] == "1" or base == "UF9"
    for r in R:
        for v in r:
            h.ge(v, 0, f"{what}: on the front", tol=1e-9)
        h.eq(sum(r) if lin else sum(v * v for v in r), (1 if base == "UF9" else h.q(1, 2)) if lin else 1, f"{what}: on the front")
    return R


SURF = [("DTLZ1", 4, dict(n_obj=3)), ("DTLZ1", 4, dict(n_obj=2)), ("DTLZ2", 4, dict(n_obj=3)), ("DTLZ2", 6, dict(n_obj=4)), ("DTLZ3", 4, dict(n_obj=3)), ("DTLZ4", 4, dict(n_obj=3)), ("IDTLZ1", 4, dict(n_obj=3)), ("IDTLZ2", 4, dict(n_obj=3)), ("IDTLZ3", 3, dict(n_obj=2)), ("IDTLZ4", 4, dict(n_obj=3)), ("UF8", 5, {}), ("UF10", 5, {}), ("UF9", 5, {})]


@C.harness(params=[dict(name=a, n=b, kw=c) for a, b, c in SURF], bounds="fronts sampled along arbitrary directions of the simplex")
def front_surface(h, name, n, kw):
    """sampled fronts lie on the attained surface and do not dominate each other"""
    P, mod = make(name, n, kw)
    environment(h, mod)
    if name[:2] == "UF":
        Y = P.get_pareto_front(2)
    else:
        Y = P.get_pareto_front()
    h.reach()
    R = surface(h, name, Y, "front point")
    if name == "UF9":
        for r in R:
            h.prove(h.Not(h.And(r[0] > (1 - r[2]) / 4, r[0] < 3 * (1 - r[2]) / 4)), "front point: in an attained part of the plane", detail=r)
            if r[2] < 0.999:
                x1 = 1 - r[2]
                x0 = r[0] / x1
                x = [x0, x1] + [2 * x1 * h.f("sin", 2 * pi * x0 + j * pi / n) for j in range(3, n + 1)]
                member(h, P, h.array(r), h.array(x), "front point")
    # non-dominance from the surface equations only
    if h.sym:
        lin = name.replace("Eq1", "")[-1] == "1" or name == "UF9"
        Z = [[h.real(f"z{i}{j}", 0, 1) for j in range(P.n_obj)] for i in range(2)]
        for z in Z:
            h.assume((sum(z) == h.q(1, 2) * (2 if name == "UF9" else 1)) if lin else sum(v * v for v in z) == 1)
        undominated(h, [[-v for v in z] for z in Z] if name[0] == "I" else Z, "surface")
    else:
        undominated(h, Y, "front")


SETS = [("DTLZ1", 4, dict(n_obj=3)), ("DTLZ1", 3, dict(n_obj=2)), ("DTLZ2", 4, dict(n_obj=3)), ("DTLZ3", 4, dict(n_obj=3)), ("DTLZ4", 4, dict(n_obj=3)), ("DTLZ5", 4, dict(n_obj=3)), ("DTLZ6", 5, dict(n_obj=3)), ("DTLZ7", 4, dict(n_obj=3)), ("IDTLZ1", 4, dict(n_obj=3)), ("IDTLZ2", 4, dict(n_obj=3)), ("IDTLZ3", 4, dict(n_obj=3))]


@C.harness(params=[dict(name=a, n=b, kw=c) for a, b, c in SETS], bounds="all draws")
def set_surface(h, name, n, kw):
    """reported Pareto sets of the DTLZ problems lie in the box and map to the front surface"""
    P, mod = make(name, n, kw)
    environment(h, mod)
    X = P.get_pareto_set(2)
    h.prove(np.shape(X) == (2, n), "shape of the set", detail=np.shape(X))
    for x in X:
        y = P.objective(x)
        if name == "DTLZ7":
            h.eq(y[-1], 2 * (P.n_obj - sum(v / 2 * (1 + h.f("sin", 3 * pi * v)) for v in y[:-1])), "image of a reported point: on the front")
        else:
            surface(h, name, [y], "image of a reported point")
        if name in ("DTLZ5", "DTLZ6"):
            h.eq(y[0], y[1], "image of a reported point: on the curve")
        member(h, P, y, x, "set")
    h.reach()


@C.harness(params=[dict(name=a, N=2) for a in ("CONV3", "CONV4", "CONV4_2F")], bounds="all draws of the convex weights")
def convex(h, name, N):
    """fronts of the convex quadratic problems: images of convex combinations of the centres"""
    P, mod = make(name, 4)
    environment(h, mod)
    rnd = []
    old = mod.np.random.rand

    def rand(*s):
        rnd.append(np.array(old(*s)))
        return h.array(rnd[-1])

    h.patch(mod.np.random, "rand", rand)
    Y = P.get_pareto_front(N)
    h.prove(np.shape(Y) == (N, P.n_obj), "shape of the front", detail=np.shape(Y))
    h.reach()
    V = {"CONV3": [[-1, -1, -1], [1, 1, 1], [-1, -1, 1]]}.get(name, np.eye(4).astype(int).tolist())
    W = [[v / sum(w) for v in w] for a in rnd for w in a]
    h.prove(len(W) == N, "one draw of weights per point")
    X = []
    for k, w in enumerate(W):
        off = -1 if name == "CONV4_2F" and k else 0
        X.append([sum(w[i] * V[i][j] for i in range(len(V))) + off for j in range(len(V[0]))])
        member(h, P, Y[k], h.array(X[k]), "front point")
    if name != "CONV4_2F":
        for a, b in ((0, 1), (1, 0)):
            # the weighted sum of the objectives grows away from the point: no other point dominates it
            h.eq(sum(W[a][i] * (Y[b][i] - Y[a][i]) for i in range(len(V))), sum((p - q) ** 2 for p, q in zip(X[a], X[b])), "no point dominates another")
    else:
        undominated(h, Y, "two pieces")


@C.harness(params=[dict(part=p) for p in ("set", "front")], bounds="all sample sizes")
def dent(h, part):
    """reported set and front of the DENT problem belong together"""
    P, mod = make("DENT", 2)
    environment(h, mod)
    X = P.get_pareto_set(4)
    if part == "front":
        Y = None
    for x in X:
        h.eq(x[0] + x[1], 0, "on the antidiagonal")
        member(h, P, P.objective(x), x, "set")
    if part == "front":
        for y in P.get_pareto_front(3):
            # along the antidiagonal with s = x1 - x2 the first objective exceeds the second by s
            s = y[0] - y[1]
            h.prove(h.And(s >= -4 - TOL, s <= 4 + TOL), "front point: difference of the objectives", detail=y)
            member(h, P, y, h.array([s / 2, -s / 2]), "front point")
    h.reach()


@C.harness(params=[dict(name=a, n=b) for a, b in (("CF8", 5), ("CF9", 5), ("CF10", 5))], bounds="all draws and sample sizes away from the pole f3 = 1")
def sphere_cut(h, name, n):
    """three-objective constrained fronts: on the sphere, in the feasible slices"""
    P, mod = make(name, n)
    par = {}

    def sample(cnt, a, b):
        cnt[0] += 1
        return h.real(f"t{cnt[0]}", 0.001, 0.99)

    environment(h, mod, sample)
    Y = P.get_pareto_front(15 if name == "CF8" else 1)
    h.reach()
    for k, r in enumerate(Y):
        h.prove(h.And(*[v >= 0 for v in r]), "front point: non-negative", detail=r)
        h.eq(sum(v * v for v in r), 1, "front point: on the sphere")
        u = 1 - r[2] * r[2]
        if not u > 0.01:
            continue
        c = r[0] * r[0]
        if name == "CF8":
            ok = h.Or(*[abs(4 * c - i * u) <= TOL for i in range(5)])
        else:
            ok = h.Or(c <= 1e-9 * u, h.And(4 * c >= u * (1 - TOL), 4 * c <= u * (2 + TOL)), 4 * c >= u * (3 - TOL))
        h.prove(ok, "front point: in a feasible slice", detail=r)
        h.prove(4 * c <= 4 * u * (1 + TOL), "front point: in a feasible slice")


@C.harness(params=[dict(m=m, p=p) for m, p in [(2, None), (3, None), (3, 4), (4, 3), (2, 1)]], bounds="the default and some partitions")
def directions(h, m, p):
    """directions of the simplex: non-negative, sum one, all different"""
    D = PU.get_ref_dirs(m, n_partitions=p)
    h.prove(np.shape(D)[1] == m and len({tuple(map(float, d)) for d in D}) == len(D), "all different")
    h.prove(bool(np.all(D >= 0)) and bool(np.all(np.abs(D.sum(axis=1) - 1) < 1e-12)), "points of the simplex")
    S = PU.generic_sphere(h.array([list(h.reals("d", (m,), 0.01, 1))]))
    h.eq(sum(v * v for v in S[0]), 1, "normalised")
    h.reach()
