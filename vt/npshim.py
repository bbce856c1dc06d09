"""Stand-in for the `numpy` module object inside hvd.*: same functions, total on symbolic (object) arrays."""
import builtins
import math
import types
from fractions import Fraction

import numpy as real_np

from . import engine as E
from .engine import EncodingError, Sym, lift

NP = real_np


def is_sym(a):
    if type(a) is Sym:
        return True
    if isinstance(a, real_np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(is_sym(x) for x in a)
    return False


def oarr(a):
    """object array of Sym"""
    a = real_np.asarray(a)
    if a.dtype != object:
        out = real_np.empty(a.shape, dtype=object)
        f = out.reshape(-1)
        for i, v in enumerate(a.reshape(-1).tolist()):
            f[i] = Sym.of(v)
        return out
    out = real_np.empty(a.shape, dtype=object)
    f, g = out.reshape(-1), a.reshape(-1)
    for i in range(g.size):
        f[i] = lift(g[i])
    return out


def unobj(a):
    """back to a plain numeric array when every entry is a constant"""
    a = real_np.asarray(a)
    if a.dtype != object:
        return a
    return real_np.array([float(lift(x)) for x in a.reshape(-1)]).reshape(a.shape)


def all_const(a):
    a = real_np.asarray(a)
    if a.dtype != object:
        return True
    return all((type(x) is not Sym) or x.is_const for x in a.reshape(-1))


def emap(f, *arrs):
    arrs = real_np.broadcast_arrays(*[oarr(a) for a in arrs])
    shape = arrs[0].shape
    if shape == ():
        return f(*[a.item() for a in arrs])
    out = real_np.empty(shape, dtype=object)
    fl = [a.reshape(-1) for a in arrs]
    o = out.reshape(-1)
    for i in range(o.size):
        o[i] = f(*[a[i] for a in fl])
    return out


def bmap(f, *arrs):
    r = emap(lambda *x: bool(f(*x)), *arrs)
    return r.astype(bool) if isinstance(r, real_np.ndarray) else real_np.bool_(r)


def smax(a, b):
    if a.isnan() or b.isnan():
        return Sym(None, float("nan"))
    if _never_above(a, b):
        return b
    return a if a >= b else b


def _never_above(a, b):
    """a <= b on the whole path, without branching"""
    cur = E.PATH.cur
    if cur is None or a.p is None or b.p is None:
        return False
    return set(cur.known_sign(E.padd(a.p, E.pscale(b.p, -1)))) <= {-1, 0}


def smin(a, b):
    if a.isnan() or b.isnan():
        return Sym(None, float("nan"))
    if _never_above(b, a):
        return b
    return a if a <= b else b


def _is_float_dtype(dt):
    if dt is None or dt is builtins.float:
        return True
    try:
        return real_np.dtype(dt).kind in "fc" or real_np.dtype(dt) == object
    except TypeError:
        return False


ZERO, ONE = Sym.of(0), Sym.of(1)


class SA(real_np.ndarray):
    """object ndarray subclass: conversions to float dtypes keep the symbolic entries"""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and _is_float_dtype(dtype):
            return self.copy()
        if self.dtype == object:
            kind = real_np.dtype(dtype).kind
            out = real_np.empty(self.shape, dtype=dtype)
            f, g = out.reshape(-1), real_np.asarray(self).reshape(-1)
            for i in range(g.size):
                f[i] = bool(g[i]) if kind == "b" else int(g[i])
            return out
        return real_np.asarray(self).astype(dtype, *a, **k)

    def round(self, decimals=0, out=None):
        return NPS.round(self, decimals)

    def std(self, *a, **k):
        return NPS.std(self, *a, **k)

    def var(self, *a, **k):
        return NPS.var(self, *a, **k)

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, arr, context=None):
        if arr.ndim == 0:
            return arr[()]
        return arr if arr.dtype != object else arr.view(SA)


def wrap(a):
    if isinstance(a, real_np.ndarray) and a.dtype == object and a.ndim > 0 and type(a) is real_np.ndarray:
        return a.view(SA)
    return a


def _filled(shape, v):
    out = real_np.empty(shape, dtype=object)
    out.fill(v)
    return wrap(out)


class _Linalg(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.linalg(shim)")

    def __getattr__(self, k):
        f = getattr(real_np.linalg, k)
        if callable(f) and not isinstance(f, type):

            def g(*a, **kw):
                if any(is_sym(x) for x in a):
                    if all(all_const(x) for x in a if is_sym(x)):
                        a = [unobj(x) if is_sym(x) else x for x in a]
                        return f(*a, **kw)
                    raise EncodingError("numpy.linalg." + k + " on symbolic input")
                return f(*a, **kw)

            return g
        return f

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not is_sym(x):
            return real_np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
        x = oarr(x)
        if ord in (None, 2) and (axis is not None or x.ndim == 1 or ord is None):
            if axis is None:
                s = lift(real_np.sum(x * x))
                return s.sqrt()
            s = real_np.sum(x * x, axis=axis, keepdims=keepdims)
            return NPS.sqrt(s)
        if x.ndim == 1 or axis is not None:
            ab = emap(abs, x)
            if ord == 1:
                return wrap(real_np.sum(ab, axis=axis, keepdims=keepdims))
            if ord == real_np.inf:
                return wrap(real_np.max(ab, axis=axis, keepdims=keepdims))
            if isinstance(ord, (builtins.int, builtins.float)) and ord > 0:
                s = real_np.sum(emap(lambda v: v**ord, ab), axis=axis, keepdims=keepdims)
                return emap(lambda v: v ** (ONE / Sym.of(ord)), s)
        raise EncodingError(f"norm ord={ord}")

    def solve(self, a, b):
        if not (is_sym(a) or is_sym(b)):
            return real_np.linalg.solve(a, b)
        return sym_solve(a, b)

    def inv(self, a):
        if not is_sym(a):
            return real_np.linalg.inv(a)
        a = oarr(a)
        return sym_solve(a, oarr(real_np.eye(len(a))))

    def multi_dot(self, arrays, out=None):
        r = arrays[0]
        for a in arrays[1:]:
            r = wrap(real_np.dot(r, a))
        return r

    def matrix_power(self, a, n):
        if not is_sym(a) or n < 0:
            return real_np.linalg.matrix_power(a, n)
        r = real_np.eye(len(a))
        for _ in range(n):
            r = wrap(real_np.dot(r, a))
        return r

    def det(self, a):
        if not is_sym(a):
            return real_np.linalg.det(a)
        return sym_det(oarr(a))


def sym_det(a):
    n = len(a)
    if n == 0:
        return ONE
    if n == 1:
        return lift(a[0, 0])
    tot = ZERO
    for j in range(n):
        if lift(a[0, j]).is_const and lift(a[0, j]).const() == 0:
            continue
        minor = real_np.delete(real_np.delete(a, 0, 0), j, 1)
        t = lift(a[0, j]) * sym_det(minor)
        tot = tot + (t if j % 2 == 0 else -t)
    return tot


def sym_solve(a, b):
    """exact Gaussian elimination; raises LinAlgError on a singular matrix"""
    a, b = oarr(a).copy(), oarr(b).copy()
    vec = b.ndim == 1
    if vec:
        b = b.reshape(-1, 1)
    n = len(a)
    for c in range(n):
        piv = None
        for r in range(c, n):
            v = lift(a[r, c])
            if v.is_const and v.const() != 0:
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                if a[r, c] != 0:
                    piv = r
                    break
        if piv is None:
            raise real_np.linalg.LinAlgError("Singular matrix")
        if piv != c:
            a[[c, piv]] = a[[piv, c]]
            b[[c, piv]] = b[[piv, c]]
        for r in range(n):
            if r == c:
                continue
            f = lift(a[r, c])
            if f.is_const and f.const() == 0:
                continue
            f = f / a[c, c]
            for k in range(c + 1, n):
                a[r, k] = a[r, k] - f * a[c, k]
            a[r, c] = ZERO
            for k in range(b.shape[1]):
                b[r, k] = b[r, k] - f * b[c, k]
    for r in range(n):
        for k in range(b.shape[1]):
            b[r, k] = b[r, k] / a[r, r]
    return wrap(b[:, 0] if vec else b)


class Random(types.ModuleType):
    """np.random inside hvd: every draw is an unconstrained symbolic value of its documented range"""

    def __init__(self):
        super().__init__("numpy.random(shim)")

    def __getattr__(self, k):
        cur = E.PATH.cur
        f = getattr(cur, "random_" + k, None) if cur is not None else None
        if f is not None:
            return f
        return getattr(real_np.random, k)


class _Cat:
    """np.r_ / np.c_"""

    def __init__(self, real):
        self.real = real

    def __getitem__(self, k):
        return wrap(self.real[k])

    def __getattr__(self, k):
        return getattr(self.real, k)


class _Ufunc:
    """np.maximum / np.minimum with their ufunc methods"""

    def __init__(self, shim, name, pick):
        self.shim, self.pick, self.real, self.__name__ = shim, pick, getattr(real_np, name), name

    def __call__(self, a, b, out=None, **k):
        if not (is_sym(a) or is_sym(b)):
            return self.real(a, b, **k) if out is None else self.real(a, b, out=out, **k)
        r = wrap(emap(self.pick, a, b))
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            out[...] = r
            return out
        return r

    def reduce(self, a, axis=0, keepdims=False, **k):
        if not is_sym(a):
            return self.real.reduce(a, axis=axis, keepdims=keepdims, **k)
        return self.shim._red("maximum" if "ax" in self.__name__ else "minimum", self.pick, a, axis, keepdims)

    def accumulate(self, a, axis=0, **k):
        if not is_sym(a):
            return self.real.accumulate(a, axis=axis, **k)
        r = real_np.moveaxis(oarr(a).copy(), axis, 0)
        for i in range(1, len(r)):
            r[i] = emap(self.pick, r[i - 1], r[i]) if r.ndim > 1 else self.pick(r[i - 1], r[i])
        return wrap(real_np.moveaxis(r, 0, axis))

    def outer(self, a, b, **k):
        if not (is_sym(a) or is_sym(b)):
            return self.real.outer(a, b, **k)
        a, b = oarr(a), oarr(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def __getattr__(self, k):
        return getattr(self.real, k)


class NPShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.r_, self.c_ = _Cat(real_np.r_), _Cat(real_np.c_)
        self.linalg = _Linalg()
        self.random = Random()
        self.ndarray = real_np.ndarray
        self.maximum, self.fmax = _Ufunc(self, "maximum", smax), _Ufunc(self, "fmax", smax)
        self.minimum, self.fmin = _Ufunc(self, "minimum", smin), _Ufunc(self, "fmin", smin)
        for name in ("sqrt", "exp", "log", "sin", "cos", "tan", "tanh", "square", "log10"):
            setattr(self, name, self._un(name))

    def _un(self, name):
        f = getattr(real_np, name)

        def g(x, *a, **k):
            if is_sym(x):
                out = k.get("out")
                r = wrap(emap(lambda v: getattr(v, name)(), x))
                if out is not None:
                    out[...] = r
                    return out
                return r
            return f(x, *a, **k)

        return g

    def __getattr__(self, name):
        v = getattr(real_np, name)
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ in (
            "_ArrayFunctionDispatcher",
        ):
            def g(*a, **k):
                if "dtype" in k and any(is_sym(x) for x in a) and _is_float_dtype(k["dtype"]):
                    k.pop("dtype")
                return wrap(v(*a, **k))

            g.__name__ = name
            setattr(self, name, g)
            return g
        return v

    # ---- creation
    def zeros(self, shape, dtype=None, **k):
        return _filled(shape, ZERO) if _is_float_dtype(dtype) else real_np.zeros(shape, dtype)

    def ones(self, shape, dtype=None, **k):
        return _filled(shape, ONE) if _is_float_dtype(dtype) else real_np.ones(shape, dtype)

    def empty(self, shape, dtype=None, **k):
        return _filled(shape, ZERO) if _is_float_dtype(dtype) else real_np.empty(shape, dtype)

    def full(self, shape, fill_value, dtype=None, **k):
        if isinstance(fill_value, (bool, builtins.int)) and dtype is None:
            return real_np.full(shape, fill_value)
        if _is_float_dtype(dtype):
            out = real_np.empty(shape, dtype=object)
            out[...] = fill_value if is_sym(fill_value) else oarr(fill_value)
            return wrap(out)
        return real_np.full(shape, fill_value, dtype)

    def zeros_like(self, a, dtype=None, **k):
        a = real_np.asarray(a)
        if dtype is None and a.dtype.kind in "fO":
            return _filled(a.shape, ZERO)
        return self.zeros(a.shape, dtype if dtype is not None else a.dtype)

    def ones_like(self, a, dtype=None, **k):
        a = real_np.asarray(a)
        if dtype is None and a.dtype.kind in "fO":
            return _filled(a.shape, ONE)
        return self.ones(a.shape, dtype if dtype is not None else a.dtype)

    empty_like = zeros_like

    def full_like(self, a, v, dtype=None, **k):
        a = real_np.asarray(a)
        if dtype is None and a.dtype.kind in "biu":
            return real_np.full_like(a, v)
        return self.full(a.shape, lift(v) if dtype is None else v, dtype)

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        e = real_np.eye(n, m, k)
        return wrap(oarr(e)) if _is_float_dtype(dtype) else e.astype(dtype)

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def array(self, a, dtype=None, **k):
        if is_sym(a) or _deep_sym(a):
            r = real_np.array(a, dtype=object, **{x: y for x, y in k.items() if x in ("ndmin", "copy")})
            if dtype is not None and not _is_float_dtype(dtype):
                return wrap(r).astype(dtype) if r.ndim else r
            return wrap(r)
        r = real_np.array(a, dtype=dtype, **k)
        if r.dtype.kind == "f" and r.ndim and isinstance(a, (list, tuple)) and E.PATH.cur is not None:
            return wrap(oarr(r))  # symbolic values may be stored into it later
        return r

    def asarray(self, a, dtype=None, **k):
        if isinstance(a, real_np.ndarray) and a.dtype == object:
            if dtype is not None and not _is_float_dtype(dtype):
                return wrap(a).astype(dtype)
            return wrap(a)
        return self.array(a, dtype=dtype)

    asanyarray = ascontiguousarray = asarray

    def copy(self, a, **k):
        return wrap(real_np.array(a, copy=True))

    def fromiter(self, it, dtype=None, count=-1, **k):
        a = list(it)
        return self.array(a if count < 0 else a[:count], dtype=dtype)

    def isscalar(self, x):
        return type(x) is Sym or real_np.isscalar(x)

    def unique(self, a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
        if not is_sym(a):
            return real_np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis, **k)
        A = oarr(a)
        if axis is None:
            A = A.reshape(-1)
        rows = real_np.moveaxis(A, axis or 0, 0)
        keys = [list(r.reshape(-1)) if A.ndim > 1 else [r] for r in rows]

        def before(x, y):  # -1, 0, 1
            for u, v in zip(x, y):
                if bool(u < v):
                    return -1
                if bool(v < u):
                    return 1
            return 0

        order, inverse, first, count = [], [None] * len(keys), [], []
        for i, x in enumerate(keys):
            place = None
            for g, rep in enumerate(order):
                c = before(x, keys[first[rep]])
                if c == 0:
                    place = rep
                    break
                if c < 0:
                    break
            else:
                g = len(order)
            if place is None:
                place = len(first)
                first.append(i)
                count.append(0)
                order.insert(g, place)
            inverse[i] = place
            count[place] += 1
        rank = {rep: g for g, rep in enumerate(order)}
        idx = [first[rep] for rep in order]
        out = wrap(real_np.moveaxis(rows[idx], 0, axis or 0))
        res = [out]
        if return_index:
            res.append(real_np.array(idx, dtype=real_np.intp))
        if return_inverse:
            res.append(real_np.array([rank[r] for r in inverse], dtype=real_np.intp))
        if return_counts:
            res.append(real_np.array([count[rep] for rep in order], dtype=real_np.intp))
        return res[0] if len(res) == 1 else tuple(res)

    def linspace(self, a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        if is_sym(a) or is_sym(b):
            if not isinstance(a, (real_np.ndarray, list, tuple)):
                a = lift(a)
            a, b = oarr(a), oarr(b)
            n = builtins.int(num)
            den = n - 1 if endpoint else n
            rows = [a + (b - a) * Fraction(i, den) if den else a + (b - a) * 0 for i in range(n)]
            r = real_np.empty((n,) + rows[0].shape if n and hasattr(rows[0], "shape") else (n,), dtype=object)
            for i, x in enumerate(rows):
                r[i] = x
            return wrap(real_np.moveaxis(r, 0, axis))
        return real_np.linspace(a, b, num, endpoint, retstep, dtype, axis)

    # ---- elementwise
    def abs(self, x, **k):
        return wrap(emap(builtins.abs, x)) if is_sym(x) else real_np.abs(x, **k)

    absolute = fabs = abs

    def sign(self, x):
        return wrap(emap(lambda v: v.sign(), x)) if is_sym(x) else real_np.sign(x)

    def floor(self, x):
        return wrap(emap(lambda v: v.floor(), x)) if is_sym(x) else real_np.floor(x)

    def ceil(self, x):
        return wrap(emap(lambda v: v.ceil(), x)) if is_sym(x) else real_np.ceil(x)

    def rint(self, x):
        return wrap(emap(lambda v: v.rint(), x)) if is_sym(x) else real_np.rint(x)

    def round(self, x, decimals=0, out=None):
        if is_sym(x):
            k = Sym.of(10**decimals) if decimals >= 0 else Sym.of(Fraction(1, 10**-decimals))
            return wrap(emap(lambda v: (v * k).rint() / k, x))
        return real_np.round(x, decimals)

    around = round_ = round

    def isnan(self, x):
        return bmap(lambda v: v.isnan(), x) if is_sym(x) else real_np.isnan(x)

    def isinf(self, x):
        return bmap(lambda v: v.p is None and builtins.abs(v.s) == math.inf, x) if is_sym(x) else real_np.isinf(x)

    def isfinite(self, x):
        return bmap(lambda v: v.p is not None, x) if is_sym(x) else real_np.isfinite(x)

    def nan_to_num(self, x, copy=True, nan=0.0, posinf=None, neginf=None):
        if not is_sym(x):
            return real_np.nan_to_num(x, copy, nan, posinf, neginf)

        def f(v):
            if v.p is None:
                return Sym.of(nan if v.s != v.s else (posinf or 1.7976931348623157e308) if v.s > 0 else (neginf or -1.7976931348623157e308))
            return v

        return wrap(emap(f, x))

    def clip(self, a, lo=None, hi=None, out=None, **k):
        lo = k.pop("a_min", k.pop("min", lo))
        hi = k.pop("a_max", k.pop("max", hi))
        if not (is_sym(a) or is_sym(lo) or is_sym(hi)):
            return real_np.clip(a, lo, hi, out=out)
        r = oarr(a)
        if lo is not None:
            r = emap(smax, r, lo)
        if hi is not None:
            r = emap(smin, r, hi)
        if out is not None:
            out[...] = r
            return out
        return wrap(r)

    def power(self, a, b, **k):
        return wrap(emap(lambda x, y: x**y, a, b)) if is_sym(a) or is_sym(b) else real_np.power(a, b, **k)

    float_power = power

    def divide(self, a, b, **k):
        if is_sym(a) or is_sym(b):
            w = k.get("where", True)
            out = k.get("out")
            if w is True:
                return wrap(emap(lambda x, y: x / y, a, b))
            A, B, W = real_np.broadcast_arrays(oarr(a), oarr(b), real_np.asarray(w))
            r = real_np.array(out, dtype=object) if out is not None else _filled(A.shape, ZERO)
            for i in real_np.ndindex(A.shape):
                if W[i]:
                    r[i] = A[i] / B[i]
            if out is not None and is_sym(out):
                out[...] = r
                return out
            return wrap(r)
        return real_np.divide(a, b, **k)

    true_divide = divide

    def hypot(self, a, b):
        return wrap(emap(lambda x, y: (x * x + y * y).sqrt(), a, b)) if is_sym(a) or is_sym(b) else real_np.hypot(a, b)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not (is_sym(a) or is_sym(b)):
            return real_np.isclose(a, b, rtol, atol, equal_nan)

        def f(x, y):
            if x.p is None or y.p is None:
                if x.isnan() or y.isnan():
                    return equal_nan and x.isnan() and y.isnan()
                return x.p is None and y.p is None and x.s == y.s
            return builtins.abs(x - y) <= Sym.of(atol) + Sym.of(rtol) * builtins.abs(y)

        return bmap(f, a, b)

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        return builtins.bool(real_np.all(self.isclose(a, b, rtol, atol, equal_nan)))

    def array_equal(self, a, b, equal_nan=False):
        if not (is_sym(a) or is_sym(b)):
            return real_np.array_equal(a, b, equal_nan)
        a, b = oarr(a), oarr(b)
        if a.shape != b.shape:
            return False
        return builtins.bool(real_np.all(bmap(lambda x, y: x == y, a, b)))

    # ---- reductions
    def _red(self, name, f2, x, axis, keepdims, initial=None):
        x = oarr(x)
        if axis is None:
            x = x.reshape(-1)
            axis = 0
            r = self._fold(f2, x, name)
            return r
        if isinstance(axis, tuple):
            raise EncodingError("tuple axis reduction")
        x = real_np.moveaxis(x, axis, 0)
        r = self._fold(lambda a, b: emap(f2, a, b), x, name)
        r = wrap(real_np.asarray(r, dtype=object)) if x.ndim > 1 else r
        if keepdims:
            r = real_np.expand_dims(r, axis)
        return r

    def _fold(self, f, x, name):
        if len(x) == 0:
            raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
        r = x[0]
        for i in range(1, len(x)):
            r = f(r, x[i])
        return r

    def max(self, x, axis=None, keepdims=False, **k):
        if not is_sym(x):
            return real_np.max(x, axis=axis, keepdims=keepdims, **k)
        return self._red("maximum", smax, x, axis, keepdims)

    amax = max

    def min(self, x, axis=None, keepdims=False, **k):
        if not is_sym(x):
            return real_np.min(x, axis=axis, keepdims=keepdims, **k)
        return self._red("minimum", smin, x, axis, keepdims)

    amin = min

    def nanmax(self, x, axis=None, **k):
        if not is_sym(x):
            return real_np.nanmax(x, axis=axis, **k)
        return self._red("fmax", lambda a, b: b if a.isnan() else (a if b.isnan() else smax(a, b)), x, axis, False)

    def nanmin(self, x, axis=None, **k):
        if not is_sym(x):
            return real_np.nanmin(x, axis=axis, **k)
        return self._red("fmin", lambda a, b: b if a.isnan() else (a if b.isnan() else smin(a, b)), x, axis, False)

    def sum(self, x, axis=None, **k):
        k.pop("dtype", None) if is_sym(x) else None
        return wrap(real_np.sum(x, axis=axis, **k))

    def mean(self, x, axis=None, **k):
        if not is_sym(x):
            return real_np.mean(x, axis=axis, **k)
        x = oarr(x)
        n = x.size if axis is None else x.shape[axis]
        if n == 0:
            return Sym.of(float("nan"))
        return wrap(real_np.sum(x, axis=axis, keepdims=k.get("keepdims", False)) * Fraction(1, n))

    def average(self, x, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(x, axis=axis)
        if not (is_sym(x) or is_sym(weights)):
            return real_np.average(x, axis=axis, weights=weights)
        w = oarr(weights)
        x = oarr(x)
        if axis is not None and w.ndim == 1 and x.ndim > 1:
            sh = [1] * x.ndim
            sh[axis] = -1
            w = w.reshape(sh)
        return wrap(real_np.sum(x * w, axis=axis) / real_np.sum(weights))

    def var(self, x, axis=None, ddof=0, **k):
        if not is_sym(x):
            return real_np.var(x, axis=axis, ddof=ddof)
        x = oarr(x)
        n = x.size if axis is None else x.shape[axis]
        m = real_np.sum(x, axis=axis, keepdims=True) * Fraction(1, n)
        return wrap(real_np.sum((x - m) * (x - m), axis=axis) * Fraction(1, n - ddof))

    def std(self, x, axis=None, ddof=0, **k):
        if not is_sym(x):
            return real_np.std(x, axis=axis, ddof=ddof)
        return self.sqrt(self.var(x, axis, ddof))

    def median(self, x, axis=None, **k):
        if not is_sym(x):
            return real_np.median(x, axis=axis, **k)
        x = oarr(x)
        if axis is None:
            x, axis = x.reshape(-1), 0
        x = real_np.sort(x, axis=axis)
        x = real_np.moveaxis(x, axis, 0)
        n = len(x)
        return wrap((x[n // 2] + x[(n - 1) // 2]) * Fraction(1, 2))

    def ptp(self, x, axis=None):
        return self.max(x, axis) - self.min(x, axis)

    def any(self, x, axis=None, **k):
        x = real_np.asarray(x)
        if x.dtype == object:
            x = bmap(lambda v: v != 0, x)
        return real_np.any(x, axis=axis, **k)

    def all(self, x, axis=None, **k):
        x = real_np.asarray(x)
        if x.dtype == object:
            x = bmap(lambda v: v != 0, x)
        return real_np.all(x, axis=axis, **k)

    def argmin(self, x, axis=None, **k):
        return self._arg(x, axis, lambda a, b: a < b, real_np.argmin)

    def argmax(self, x, axis=None, **k):
        return self._arg(x, axis, lambda a, b: a > b, real_np.argmax)

    def finfo(self, t):
        return real_np.finfo(float if isinstance(t, type) and t.__name__ == "symfloat" else t)

    def nanargmin(self, x, axis=None, **k):
        return self._nanarg(x, axis, lambda a, b: a < b, real_np.nanargmin)

    def nanargmax(self, x, axis=None, **k):
        return self._nanarg(x, axis, lambda a, b: a > b, real_np.nanargmax)

    def _nanarg(self, x, axis, better, f):
        if not is_sym(x):
            return f(x, axis=axis)
        x = oarr(x)
        if axis is None:
            x = x.reshape(-1)
            keep = [i for i in range(len(x)) if not lift(x[i]).isnan()]
            if not keep:
                raise ValueError("All-NaN slice encountered")
            return real_np.int64(keep[self._arg(x[keep], None, better, None)])
        x = real_np.moveaxis(x, axis, -1)
        out = real_np.empty(x.shape[:-1], dtype=int)
        for i in real_np.ndindex(out.shape):
            out[i] = self._nanarg(x[i], None, better, f)
        return out

    def _arg(self, x, axis, better, f):
        if not is_sym(x):
            return f(x, axis=axis)
        x = oarr(x)
        if axis is None:
            x = x.reshape(-1)
            b = 0
            if not len(x):
                raise ValueError("attempt to get argmin of an empty sequence")
            for i in range(len(x)):
                if lift(x[i]).isnan():
                    return real_np.int64(i)
            for i in range(1, len(x)):
                if better(x[i], x[b]):
                    b = i
            return real_np.int64(b)
        x = real_np.moveaxis(x, axis, -1)
        out = real_np.empty(x.shape[:-1], dtype=int)
        for i in real_np.ndindex(out.shape):
            out[i] = self._arg(x[i], None, better, f)
        return out

    def lexsort(self, keys, axis=-1):
        if not is_sym(keys):
            return real_np.lexsort(keys, axis)
        idx = list(range(len(keys[0])))
        for k in keys:
            idx = self._stable(idx, k)
        return real_np.array(idx)

    def _stable(self, idx, k):
        a = real_np.argsort(real_np.asarray([k[i] for i in idx], dtype=object), kind="stable")
        return [idx[i] for i in a]

    def argpartition(self, a, kth, axis=-1, **k):
        return real_np.argsort(a, axis=axis) if is_sym(a) else real_np.argpartition(a, kth, axis=axis)

    def partition(self, a, kth, axis=-1, **k):
        return real_np.sort(a, axis=axis) if is_sym(a) else real_np.partition(a, kth, axis=axis)

    def interp(self, x, xp, fp, **k):
        if not (is_sym(x) or is_sym(xp) or is_sym(fp)):
            return real_np.interp(x, xp, fp, **k)
        xp, fp = oarr(xp), oarr(fp)

        def one(v):
            if v <= xp[0]:
                return fp[0]
            for i in range(1, len(xp)):
                if v <= xp[i]:
                    return fp[i - 1] + (v - xp[i - 1]) * (fp[i] - fp[i - 1]) / (xp[i] - xp[i - 1])
            return fp[-1]

        return wrap(emap(one, x))

    def argwhere(self, a):
        a = real_np.asarray(a)
        return real_np.argwhere(bmap(lambda v: v != 0, a) if a.dtype == object else a)

    def nonzero(self, a):
        a = real_np.asarray(a)
        return real_np.nonzero(bmap(lambda v: v != 0, a) if a.dtype == object else a)

    def float64(self, x=0.0):
        if is_sym(x):
            return lift(x) if type(x) is Sym else wrap(oarr(x))
        return real_np.float64(x)

    def vectorize(self, f, *a, **k):
        def g(*xs):
            return emap(f, *xs)

        return g

    def diff(self, a, n=1, axis=-1, **k):
        return wrap(real_np.diff(a, n, axis, **k))


def _deep_sym(a):
    if type(a) is Sym:
        return True
    if isinstance(a, real_np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(_deep_sym(x) for x in a)
    return False


NPS = NPShim()


def sym_array(vals):
    """object array of symbolic values for harnesses (plain float array in concrete mode)"""
    a = real_np.array(vals, dtype=object)
    if all(isinstance(v, (builtins.int, builtins.float)) for v in a.reshape(-1)):
        return a.astype(float)
    return wrap(oarr(a))


class _FloatType(type):
    """`float` inside hvd.*: a symbolic value stays symbolic; everything else is the builtin"""

    def __call__(cls, *a, **k):
        if a:
            x = a[0]
            if isinstance(x, real_np.ndarray) and x.dtype == object and x.size == 1:
                x = x.reshape(-1)[0]
            if (type(x) is Sym and not x.is_const) or getattr(x, "opaque_value", False):
                return x
            return builtins.float(x, **k)
        return builtins.float(**k)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.float)

    dtype = real_np.dtype(builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __getattr__(cls, k):
        return getattr(builtins.float, k)


class FloatType(metaclass=_FloatType):
    pass
