"""builders shared by the optimizer checks: real optimizer objects over arbitrary problem functions"""
import operator

import numpy as np


class Fns:
    """arbitrary objective and constraint functions"""

    def __init__(self, h, n, m=2, ne=0, ni=0):
        self.n, self.m, self.ne, self.ni = n, m, ne, ni
        self.func, self.jac, self.hess = h.ufun("f", (m,), -3, 3), h.ufun("J", (m, n), -3, 3), h.ufun("ddf", (m, n, n), -3, 3, symmetric=True)
        self.h = h.ufun("h", (ne,), -1, 1) if ne else None
        self.h_jac = h.ufun("dh", (ne, n), -3, 3) if ne else None
        self.h_hess = h.ufun("ddh", (ne, n, n), -3, 3, symmetric=True) if ne else None
        self.g = h.ufun("g", (ni,), -1, 1) if ni else None
        self.g_jac = h.ufun("dg", (ni, n), -3, 3) if ni else None
        self.g_hess = h.ufun("ddg", (ni, n, n), -3, 3, symmetric=True) if ni else None


def random_source(h, mod):
    """np.random.rand inside the module: arbitrary values of [0, 1)"""
    ctr = [0]

    def rand(*shape):
        ctr[0] += 1
        return h.reals(f"rnd{ctr[0]}", shape, 0, 0.999) if shape else h.real(f"rnd{ctr[0]}", 0, 0.999)

    h.patch(mod.np.random, "rand", rand)


def hvn(h, F, xl, xu, X0=None, ref=None, **kw):
    from hvd.newton import HVN

    return HVN(n_var=F.n, n_obj=F.m, func=F.func, jac=F.jac, hessian=F.hess, ref=h.array([20] * F.m) if ref is None else ref, xl=xl, xu=xu,
               h=F.h, h_jac=F.h_jac, h_hessian=F.h_hess, g=F.g, g_jac=F.g_jac, g_hessian=F.g_hess, X0=X0, verbose=False, **kw)


def dpn(h, F, xl, xu, X0=None, ref=None, **kw):
    from hvd.newton import DpN
    from hvd.reference_set import ReferenceSet

    if ref is None:
        ref = ReferenceSet(h.array(np.zeros((len(X0) if X0 is not None else kw["N"], F.m))), eta={0: h.array(np.zeros(F.m))})
    return DpN(dim=F.n, n_obj=F.m, func=F.func, jac=F.jac, hessian=F.hess, ref=ref, xl=xl, xu=xu,
               h=F.h, h_jac=F.h_jac, h_hessian=F.h_hess, g=F.g, g_jac=F.g_jac, g_hessian=F.g_hess, x0=X0, verbose=False, **kw)


def mmdn(h, F, xl, xu, X0=None, ref=None, **kw):
    from hvd.mmd_newton import MMDNewton
    from hvd.reference_set import ReferenceSet

    if ref is None:
        ref = ReferenceSet(h.array(np.zeros((len(X0) if X0 is not None else kw["N"], F.m))), eta={0: h.array(np.zeros(F.m))})
    return MMDNewton(n_var=F.n, n_obj=F.m, func=F.func, jac=F.jac, hessian=F.hess, ref=ref, xl=xl, xu=xu,
                     h=F.h, h_jac=F.h_jac, g=F.g, g_jac=F.g_jac, X0=X0, verbose=False, **kw)


def lara(h, F, xl, xu, X0=None, **kw):
    from hvd.gradient_based import Lara

    return Lara(n_var=F.n, n_obj=F.m, func=F.func, jac=F.jac, xl=xl, xu=xu, X0=X0, verbose=False, **kw)


class Merit:
    """an arbitrary merit value: comparisons are nondeterministic, arithmetic gives further arbitrary values"""

    __array_ufunc__ = None
    opaque_value = True

    def __init__(self, h, ctr):
        self.h, self.ctr, self.value = h, ctr, None

    def as_real(self):
        """a definite, arbitrary number from here on"""
        if self.value is None:
            self.ctr[0] += 1
            self.value = self.h.real(f"merit{self.ctr[0]}", -100, 100)
        return self.value

    def _op(self, *a):
        return Merit(self.h, self.ctr)

    def flip(self, tag):
        self.ctr[0] += 1
        return bool(self.h.choose(f"{tag}{self.ctr[0]}", 2))

    def _cmp(self, o, f):
        if isinstance(o, Merit) and (self.value is None or o.value is None):
            return self.flip("le")
        return bool(f(self.as_real(), o.as_real() if isinstance(o, Merit) else o))

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)


def _arith(f, swap):
    def g(self, o=None):
        if o is None:
            return Merit(self.h, self.ctr) if self.value is None else f(self.value)
        if self.value is not None or (isinstance(o, np.ndarray) and o.size > 1):
            if isinstance(o, Merit):
                if o.value is None:
                    return Merit(self.h, self.ctr)
                o = o.value
            return f(o, self.as_real()) if swap else f(self.as_real(), o)
        return Merit(self.h, self.ctr)

    return g


for _n in ("add", "sub", "mul", "truediv", "pow"):
    setattr(Merit, f"__{_n}__", _arith(getattr(operator, _n), False))
    setattr(Merit, f"__r{_n}__", _arith(getattr(operator, _n), True))
for _n in ("neg", "abs"):
    setattr(Merit, f"__{_n}__", _arith(getattr(operator, _n), False))


def between(h, ctr, pick, bound):
    """np.maximum / np.minimum of an arbitrary value and bounds: any value between them once both are known"""

    def f(a, b, **k):
        if not (isinstance(a, Merit) or isinstance(b, Merit)):
            return pick(a, b, **k)
        m, c = (a, b) if isinstance(a, Merit) else (b, a)
        if m.value is not None or isinstance(c, Merit):
            return pick(a if not isinstance(a, Merit) else a.as_real(), b if not isinstance(b, Merit) else b.as_real(), **k)
        r = Merit(h, ctr)
        r.lo, r.hi = getattr(m, "lo", None), getattr(m, "hi", None)
        setattr(r, bound, c)
        if r.lo is None or r.hi is None:
            return r
        ctr[0] += 1
        return r.lo + h.real(f"clip{ctr[0]}", 0, 1) * (r.hi - r.lo)

    return f


def clamp_patches(h, np_, ctr):
    def vague(f):
        return lambda *a, **k: Merit(h, ctr) if any(isinstance(x, Merit) for x in a) else f(*a, **k)

    for k in ("square", "power", "abs", "absolute", "negative", "sign", "add", "subtract", "multiply", "divide"):
        h.patch(np_, k, vague(getattr(np_, k)))
    mx, mn = np_.maximum, np_.minimum
    for k in ("maximum", "fmax"):
        h.patch(np_, k, between(h, ctr, mx, "lo"))
    for k in ("minimum", "fmin"):
        h.patch(np_, k, between(h, ctr, mn, "hi"))


def abstract_search(h, mod, nan_tries=2):
    """line searches over arbitrary merit values: every sufficient-decrease test may go either way, the
    interpolated step is any value between the safeguards, and its being undefined is arbitrary"""
    np_ = mod.np
    ctr, near = [0], {}

    def norm(x, *a, **k):
        return Merit(h, ctr)

    def clip(x, lo, hi, **k):
        if not isinstance(x, Merit):
            return clip0(x, lo, hi, **k)
        ctr[0] += 1
        return lo + h.real(f"clip{ctr[0]}", 0, 1) * (hi - lo)

    def isnan(x):
        if not isinstance(x, Merit):
            return isnan0(x)
        near["nan"] = near.get("nan", 0) + 1
        return x.flip("nan") if near["nan"] <= nan_tries else False

    def isclose(a, b, **k):
        if not isinstance(a, Merit):
            return isclose0(a, b, **k)
        if id(a) not in near:
            near[id(a)] = (a, a.flip("near"))
        return near[id(a)][1]

    def sqrt(x):
        return x if isinstance(x, Merit) else sqrt0(x)

    clip0, isnan0, isclose0, sqrt0 = np_.clip, np_.isnan, np_.isclose, np_.sqrt
    h.patch(np_.linalg, "norm", norm)
    for k, v in dict(clip=clip, isnan=isnan, isclose=isclose, sqrt=sqrt).items():
        h.patch(np_, k, v)
    clamp_patches(h, np_, ctr)


def det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    return sum((-1) ** j * A[0][j] * det([[r[k] for k in range(n) if k != j] for r in A[1:]]) for j in range(n))


class Solvers:
    """linear solvers by their contract: a regular system is solved, a singular one raises and its least
    squares solution satisfies the normal equations"""

    def __init__(self, h, mod):
        self.h, self.k, self.singular = h, 0, False
        if not h.sym:
            return
        for name in ("solve", "spsolve"):
            if hasattr(mod, name):
                h.patch(mod, name, self.solve)
        if hasattr(mod, "csc_matrix"):
            h.patch(mod, "csc_matrix", lambda a: a)
        h.patch(mod.np.linalg, "lstsq", self.lstsq)
        h.patch(mod.np.linalg, "solve", self.solve)

    def _new(self, A, b):
        A, b = np.asarray(A, dtype=object), np.asarray(b, dtype=object)
        self.k += 1
        return A, b, self.h.array([self.h.real(f"sol{self.k}_{i}") for i in range(len(A))])

    def solve(self, A, b, **kw):
        h = self.h
        A, b, s = self._new(A, b)
        if len(A) <= 2:
            d = det([list(r) for r in A])
            sing = bool(d == 0)
        else:
            sing = bool(h.choose(f"singular{self.k}", 2))
        if sing:
            self.singular = True
            raise np.linalg.LinAlgError("singular matrix")
        for row, v in zip(A, b.reshape(-1)):
            h.assume(sum(a * x for a, x in zip(row, s)) - v == 0)
        return s.reshape(b.shape) if b.ndim == 2 else s

    def lstsq(self, A, b, rcond=None, **kw):
        h = self.h
        self.singular = True
        A, b, s = self._new(A, b)
        r = [sum(a * x for a, x in zip(row, s)) - v for row, v in zip(A, b.reshape(-1))]
        for j in range(A.shape[1]):
            h.assume(sum(A[i, j] * r[i] for i in range(len(A))) == 0)
        return (s.reshape(b.shape) if b.ndim == 2 else s), None, None, None


def kkt(h, grad, hess, H, Hj, Hh, G, Gj, Gh, lam, curvature=True):
    """Newton-KKT matrix and right-hand side of one point: (A, R, list of active multipliers)"""
    n = len(grad)
    t = h.q(1, 10000)
    c, cj, ch = list(H) + list(G), list(Hj) + list(Gj), list(Hh) + list(Gh)
    act = [j for j in range(len(c)) if j < len(H) or bool(c[j] >= -t)]
    R = [grad[a] + sum(lam[j] * cj[j][a] for j in act) for a in range(n)] + [c[j] for j in act]
    A = [[hess[a][b] + (sum(lam[j] * ch[j][a][b] for j in act) if curvature else 0) for b in range(n)] + [cj[j][a] for j in act] for a in range(n)]
    A += [[cj[j][b] for b in range(n)] + [0] * len(act) for j in act]
    return A, R, act


def newton_eq(h, A, R, s, singular, label):
    """A s = -R; for singular systems the normal equations"""
    r = [sum(a * x for a, x in zip(row, s)) + v for row, v in zip(A, R)]
    if singular:
        r = [sum(A[i][j] * r[i] for i in range(len(A))) for j in range(len(A))]
    scale = 1 if h.sym else max([1.0] + [abs(float(x)) for row in A for x in row] + [abs(float(x)) for x in s]) ** (3 if singular else 2)
    h.eq(h.array([v / scale if not h.sym else v for v in r]), h.array([0] * len(r)), label)
