"""Symbolic execution core: canonical polynomials over opaque atoms, forking booleans, Z3.

A `Sym` stands for a real number.  It is a polynomial with rational coefficients over *atoms*:
  ('v', name)          a free variable (an input of the harness, or a nondeterministic stub value)
  ('b', P)             the base polynomial P, occurring with a negative and/or fractional exponent
                       (division, square roots, non-integer powers)
  ('f', name, args)    an opaque function application (exp, sin, cos, log, ...) with axioms
Comparisons give a `Cond`; turning a `Cond` into a Python bool asks the current `Path`, which forks
(depth-first over decision prefixes) when Z3 finds both outcomes feasible.
"""
import math
import sys
import random
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402


class EncodingError(Exception):
    """the code under test did something the encoding cannot express: inconclusive, never a pass"""


class Infeasible(BaseException):
    """the current path contradicts an assumption; it is dropped"""


class StopPath(BaseException):
    """stop exploring this path (violation already recorded)"""


# --------------------------------------------------------------------------------------------------
# rationals
# --------------------------------------------------------------------------------------------------
_fr_cache = {}
PI_LO, PI_HI = Fraction(3141592653589793, 10**15), Fraction(3141592653589794, 10**15)


def _norm(q):
    if type(q) is Fraction and q.denominator == 1:
        return q.numerator
    return q


def snap(f):
    """float -> poly; a double that is the nearest one to a simple rational, a rational multiple of pi or
    the square root of a simple rational is read as that number (doubles are idealised as reals)"""
    r = _fr_cache.get(f)
    if r is not None:
        return r
    r = _snap(f)
    if not r or isconst(r):  # others mention atoms of the current path
        _fr_cache[f] = r
    return r


def _const_poly(q):
    q = _norm(q)
    return {(): q} if q != 0 else {}


def _snap(f):
    if f == int(f) and abs(f) < 2**63:
        return _const_poly(int(f))
    rep = Fraction(repr(f))
    if len(repr(f).split("e")[0].replace(".", "").replace("-", "").strip("0")) <= 12:
        return _const_poly(rep)
    tol = 4.5e-16 * abs(f)
    q = Fraction(f).limit_denominator(100000)
    if abs(float(q - Fraction(f))) <= tol:
        return _const_poly(q)
    q = Fraction(f / math.pi).limit_denominator(1000)
    if q != 0 and abs(float(q) * math.pi - f) <= tol:
        return {((PI, 1),): _norm(q)}
    q = Fraction((f / math.pi) ** 2).limit_denominator(100)
    if q != 0 and abs(math.sqrt(float(q)) * math.pi - abs(f)) <= tol:
        s = Sym(_const_poly(q)).sqrt() * Sym({((PI, 1),): 1})
        return s.p if f > 0 else (-s).p
    q = Fraction(f * f).limit_denominator(1000)
    if q != 0 and abs(math.sqrt(float(q)) - abs(f)) <= tol:
        s = Sym(_const_poly(q)).sqrt()
        return s.p if f > 0 else (-s).p
    return _const_poly(rep)


# --------------------------------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------------------------------
ATOMS = []  # id -> tuple
_ATOM_ID = {}


def pkey(p):
    return frozenset(p.items())


def atom_id(t):
    i = _ATOM_ID.get(t)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(t)
        _ATOM_ID[t] = i
        _ATOM_KIND.append(t[0])
        _ATOM_SPECIAL.append(t[0] == "b" or (t[0] == "f" and t[1] in ("exp", "sin")))
    return i


_ATOM_KIND = []
_ATOM_SPECIAL = []
_POLY_OF = {}  # frozenset -> dict


def _reg(p):
    k = pkey(p)
    if k not in _POLY_OF:
        _POLY_OF[k] = p
    return k


PI = atom_id(("v", "PI"))

# --------------------------------------------------------------------------------------------------
# polynomial arithmetic (dict mono -> coef), mono = tuple of (atom, exp) sorted by atom
# --------------------------------------------------------------------------------------------------


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = _norm(v + c)
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def pscale(a, c):
    if c == 0:
        return {}
    if c == 1:
        return a
    return {m: _norm(v * c) for m, v in a.items()}


def _mono_mul(m1, m2):
    """product of monomials: (mono, special?) exponents merged; no reduction"""
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = _norm(a[1] + b[1])
            if e != 0:
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def _needs_reduce(m):
    nexp = 0
    for a, e in m:
        if _ATOM_SPECIAL[a]:
            t = ATOMS[a]
            if t[0] == "b":
                if e >= 1:
                    return True
            elif t[1] == "exp":
                nexp += 1
                if nexp > 1 or e != 1:
                    return True
            elif t[1] == "sin":
                if type(e) is int and (e >= 2):
                    return True
    return False


def _reduce_mono(m):
    """returns a poly equal to the monomial, with base atoms having exponent < 1, one exp atom, sin^<2"""
    rest = []
    extra = {(): 1}
    exparg = None
    for a, e in m:
        if _ATOM_SPECIAL[a]:
            t = ATOMS[a]
            if t[0] == "b" and e >= 1:
                k = int(math.floor(e))
                r = _norm(e - k)
                extra = pmul(extra, ppow(_POLY_OF[t[1]], k))
                if r != 0:
                    rest.append((a, r))
                continue
            if t[0] == "f" and t[1] == "exp":
                arg = pscale(_POLY_OF[t[2]], e)
                exparg = arg if exparg is None else padd(exparg, arg)
                continue
            if t[0] == "f" and t[1] == "sin" and type(e) is int and e >= 2:
                c = atom_id(("f", "cos", t[2]))
                extra = pmul(extra, ppow({(): 1, ((c, 2),): -1}, e // 2))
                if e % 2:
                    rest.append((a, 1))
                continue
        rest.append((a, e))
    if exparg:
        rest.append((atom_id(("f", "exp", _reg(exparg))), 1))
    rest.sort()
    if extra == {(): 1}:
        return {tuple(rest): 1}
    return pmul(extra, {tuple(rest): 1})


def pmul(a, b):
    if not a or not b:
        return {}
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(a) * len(b) > 4000000:
        raise EncodingError("polynomial product too large")
    r = {}
    later = []
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            c = c1 * c2
            if _needs_reduce(m):
                later.append((m, c))
                continue
            v = r.get(m)
            r[m] = c if v is None else v + c
    for m in [m for m, c in r.items() if c == 0]:
        del r[m]
    for m, c in r.items():
        if type(c) is Fraction and c.denominator == 1:
            r[m] = c.numerator
    for m, c in later:
        r = padd(r, pscale(_reduce_mono(m), _norm(c)))
    return r


def ppow(a, n):
    r = {(): 1}
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def isconst(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), 0)


def primitive(p):
    """(key, sign): canonical positive-scaled form of p; sign relates p to the canonical form"""
    m = min(p)
    lead = p[m]
    if lead == 1:
        return frozenset(p.items()), 1
    s = 1 if lead > 0 else -1
    inv = Fraction(1) / lead
    return frozenset((m, _norm(c * inv)) for m, c in p.items()), s


# --------------------------------------------------------------------------------------------------
# Sym
# --------------------------------------------------------------------------------------------------
INF = float("inf")


TRACER = ()  # set to jax's tracer class when the jax interpreter is loaded


def lift(x):
    if type(x) is Sym:
        return x
    return Sym.of(x)


class Sym:
    __slots__ = ("p", "s")
    __array_priority__ = 1000.0

    def __init__(self, p, s=None):
        self.p = p
        self.s = s  # special float (inf / nan) when p is None

    @staticmethod
    def of(x):
        t = type(x)
        if t is Sym:
            return x
        if t is int or t is bool:
            return Sym({(): int(x)} if x else {})
        if t is float:
            if x != x or x in (INF, -INF):
                return Sym(None, x)
            return Sym(snap(x))
        if t is Fraction:
            return Sym(_const_poly(x))
        if isinstance(x, Cond):
            return Sym({(): 1} if bool(x) else {})
        if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
            v = x.item()
            if type(v) is Sym:
                return v
            if isinstance(v, (int, float, bool, Cond)):
                return Sym.of(v)
        if isinstance(x, int):
            return Sym.of(int(x))
        if isinstance(x, float):
            return Sym.of(float(x))
        if hasattr(x, "as_real"):
            return x.as_real()
        raise EncodingError(f"cannot lift {type(x)} to a symbolic real")

    # ---- structure
    @property
    def is_const(self):
        return self.p is None or isconst(self.p)

    def const(self):
        if self.p is None:
            return self.s
        return cval(self.p)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def __hash__(self):
        return 7  # equal values must hash alike; equality forks

    def __reduce__(self):
        raise EncodingError("pickling a symbolic value")

    # numpy-ish attributes
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __float__(self):
        if self.is_const:
            return float(self.const())
        raise EncodingError("float() of a symbolic value: " + repr(self)[:200])

    def __int__(self):
        return sym_trunc(self)

    def __index__(self):
        if self.is_const and self.p is not None and type(self.const()) is int:
            return self.const()
        raise TypeError("symbolic value used as an index")

    def __trunc__(self):
        return sym_trunc(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __round__(self, n=None):
        if n:
            raise EncodingError("round(x, n)")
        return sym_rint(self)

    # ---- arithmetic
    def _other(self, o):
        if type(o) is Sym:
            return o
        if isinstance(o, TRACER):
            return None
        if hasattr(o, "ndim") and o.ndim > 0:
            return None
        if isinstance(o, (list, tuple, str)) or o is None or getattr(o, "opaque_value", False):
            return None
        try:
            return Sym.of(o)
        except EncodingError:
            return None

    def __add__(self, o):
        q = self._other(o)
        if q is None:
            return _arr(o, lambda a: self + a)
        if self.p is None or q.p is None:
            return Sym.of(_sp(self) + _sp(q))
        return Sym(padd(self.p, q.p))

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        if self.p is None:
            return Sym(None, -self.s)
        return Sym({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        q = self._other(o)
        if q is None:
            return _arr(o, lambda a: self - a)
        return self + (-q)

    def __rsub__(self, o):
        q = self._other(o)
        if q is None:
            return _arr(o, lambda a: a - self)
        return q + (-self)

    def __mul__(self, o):
        q = self._other(o)
        if q is None:
            return _arr(o, lambda a: self * a)
        if self.p is None or q.p is None:
            return Sym.of(_mulsp(self, q))
        return Sym(pmul(self.p, q.p))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        q = self._other(o)
        if q is None:
            return _arr(o, lambda a: self / a)
        return sdiv(self, q)

    def __rtruediv__(self, o):
        q = self._other(o)
        if q is None:
            return _arr(o, lambda a: a / self)
        return sdiv(q, self)

    def __floordiv__(self, o):
        return lift(sym_floor(self / o))

    def __divmod__(self, o):
        return self // o, self % o

    def __mod__(self, o):
        q = self._other(o)
        return self - q * lift(sym_floor(self / q))

    def __pow__(self, e):
        q = self._other(e)
        if q is None:
            return _arr(e, lambda a: self**a)
        return spow(self, q)

    def __rpow__(self, b):
        q = self._other(b)
        if q is None:
            return _arr(b, lambda a: a**self)
        return spow(q, self)

    def __abs__(self):
        if self.p is None:
            return Sym(None, abs(self.s))
        return self if self >= 0 else -self

    absolute = fabs = __abs__

    # ---- comparisons
    def _cmp(self, o, T):
        q = self._other(o)
        if q is None:
            if o is None or isinstance(o, str):
                return NotImplemented
            return _arr(o, lambda a: bool(self._cmp(a, T)))
        if self.p is None or q.p is None:
            a, b = _sp(self), _sp(q)
            if a != a or b != b:
                return Cond.const(T == NE)
            sg = (a > b) - (a < b)
            return Cond.const(sg in T)
        d = padd(self.p, {m: -c for m, c in q.p.items()})
        return Cond.cmp(d, T)

    def __lt__(self, o):
        return self._cmp(o, LT)

    def __le__(self, o):
        return self._cmp(o, LE)

    def __gt__(self, o):
        return self._cmp(o, GT)

    def __ge__(self, o):
        return self._cmp(o, GE)

    def __eq__(self, o):
        return self._cmp(o, EQ)

    def __ne__(self, o):
        return self._cmp(o, NE)

    def __bool__(self):
        return bool(self != 0)

    # ---- functions (names used by numpy's object loops)
    def sqrt(self):
        return spow(self, Sym({(): Fraction(1, 2)}))

    def square(self):
        return self * self

    def log1p(self):
        return (self + 1).log()

    def expm1(self):
        return self.exp() - 1

    def cbrt(self):
        third = Sym({(): Fraction(1, 3)})
        return spow(self, third) if bool(self >= 0) else -spow(-self, third)

    def exp(self):
        if self.p is None:
            return Sym.of(math.exp(self.s) if self.s < 700 else self.s)
        if not self.p:
            return Sym.of(1)
        return Sym({((atom_id(("f", "exp", _reg(self.p))), 1),): 1})

    def log(self):
        if self.p is not None and self.is_const and self.const() == 1:
            return Sym.of(0)
        if self.p is not None and len(self.p) == 1:
            (m, c), = self.p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][:2] == ("f", "exp"):
                return Sym(_POLY_OF[ATOMS[m[0][0]][2]])
        return func("log", self)

    def log10(self):
        return self.log() / Sym.of(10).log()

    def _trig(self, name):
        if self.p is None:
            return Sym(None, float("nan"))
        # reduce multiples of pi/2 in the constant part: arg = (k/2) * PI + rest
        pc = self.p.get(((PI, 1),), 0)
        k = Fraction(pc) * 2
        k = k.numerator // k.denominator
        rest = dict(self.p)
        if k:
            v = _norm(Fraction(pc) - Fraction(k, 2))
            if v == 0:
                rest.pop(((PI, 1),), None)
            else:
                rest[((PI, 1),)] = v
        k %= 4
        neg = 1
        if rest:
            # canonical sign: leading coefficient positive
            if rest[min(rest)] < 0:
                rest = {m: -c for m, c in rest.items()}
                neg = -1
        # sin(neg*r + k pi/2)
        if rest:
            # common special values: pi/6 pi/4 pi/3
            s = Sym({((atom_id(("f", "sin", _reg(rest))), 1),): neg})
            c = Sym({((atom_id(("f", "cos", _reg(rest))), 1),): 1})
            if set(rest) == {((PI, 1),)}:
                q = Fraction(rest[((PI, 1),)])
                tab = {Fraction(1, 6): (1, 3), Fraction(1, 4): (2, 2), Fraction(1, 3): (3, 1)}
                if q in tab:
                    s = neg * (Sym.of(Fraction(tab[q][0])).sqrt() / 2)
                    c = Sym.of(Fraction(tab[q][1])).sqrt() / 2
        else:
            s, c = Sym.of(0), Sym.of(1)
        if name == "sin":
            return [s, c, -s, -c][k]
        return [c, -s, -c, s][k]

    def sin(self):
        return self._trig("sin")

    def cos(self):
        return self._trig("cos")

    def tan(self):
        return self.sin() / self.cos()

    def tanh(self):
        return func("tanh", self)

    def rint(self):
        return lift(sym_rint(self))

    def floor(self):
        return lift(sym_floor(self))

    def ceil(self):
        return -lift(sym_floor(-self))

    def sign(self):
        if self > 0:
            return Sym.of(1)
        return Sym.of(-1) if self < 0 else Sym.of(0)

    def isnan(self):
        return self.p is None and self.s != self.s

    def __repr__(self):
        if self.p is None:
            return str(self.s)
        return pstr(self.p)

    def __format__(self, spec):
        return repr(self)


def _sp(x):
    """value usable with python float arithmetic against infinities"""
    return x.s if x.p is None else (float(cval(x.p)) if isconst(x.p) else 0.0)


def _mulsp(a, b):
    if a.p is None and b.p is None:
        return a.s * b.s
    if a.p is not None:
        a, b = b, a
    if a.s != a.s:
        return a.s
    if b > 0:
        return a.s
    if b < 0:
        return -a.s
    return float("nan")


def _arr(o, f):
    if getattr(o, "opaque_value", False):
        return NotImplemented
    import numpy as np

    if isinstance(o, TRACER):  # jax does the arithmetic, taking the symbolic operand through __jax_array__
        return NotImplemented

    a = np.asarray(o)
    if a.ndim == 0:
        raise TypeError(f"unsupported operand {type(o)}")
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i])
    if all(isinstance(v, (bool,)) for v in of):
        return out.astype(bool)
    return out


def sdiv(a, b):
    if b.p is None:
        if a.p is None:
            return Sym(None, float("nan"))
        return Sym.of(0) if abs(b.s) == INF else b
    if a.p is None:
        r = a.s
        if isconst(b.p):
            return Sym(None, r * (1 if cval(b.p) >= 0 else -1))
        return Sym(None, r) if b >= 0 else Sym(None, -r)
    if isconst(b.p):
        c = cval(b.p)
        if c == 0:
            if isconst(a.p):
                v = cval(a.p)
                return Sym(None, float("nan") if v == 0 else (INF if v > 0 else -INF))
            return Sym(None, INF if a > 0 else (-INF if a < 0 else float("nan")))
        return Sym(pscale(a.p, Fraction(1) / c))
    if PATH.cur is not None and PATH.cur.generic_denominators:
        PATH.cur.assume(b != 0)
    elif b == 0:
        return sdiv(a, Sym({}))
    return Sym(pmul(a.p, pinv(b.p)))


def _common(p):
    """the monomial of per-atom minimal exponents of p (1 when there is no common factor)"""
    low = None
    n = 0
    for m in p:
        d = dict(m)
        if low is None:
            low = d
        else:
            for a in set(low) | set(d):
                low[a] = min(low.get(a, 0), d.get(a, 0))
        n += 1
    return tuple(sorted((a, e) for a, e in low.items() if e != 0))


def pinv(p):
    """1/p for a poly known to be nonzero"""
    if len(p) == 1:
        (m, c), = p.items()
        mm = tuple((a, -e) for a, e in m)
        r = {mm: _norm(Fraction(1) / c)}
        if _needs_reduce(mm):
            return pscale(_reduce_mono(mm), _norm(Fraction(1) / c))
        return r
    cm = _common(p)
    if cm:
        inv = tuple((a, -e) for a, e in cm)
        q = pmul(p, {inv: 1})
    else:
        inv, q = (), p
    lead = q[min(q)]
    q = pscale(q, _norm(Fraction(1) / lead))
    b = atom_id(("b", _reg(q)))
    r = pmul({inv: 1}, {((b, -1),): _norm(Fraction(1) / lead)})
    return r


def spow(a, e):
    if e.p is None or a.p is None:
        if a.p is None and e.p is not None and isconst(e.p):
            return Sym.of(a.s ** float(cval(e.p)))
        raise EncodingError("power with infinities")
    if not isconst(e.p):
        if isconst(a.p) and cval(a.p) == 1:
            return Sym.of(1)
        return (e * a.log()).exp()
    q = cval(e.p)
    if type(q) is int:
        if q >= 0:
            if q > 60 and len(a.p) > 1 or q > 500:
                raise EncodingError("large power")
            return Sym(ppow(a.p, q))
        return sdiv(Sym.of(1), Sym(ppow(a.p, -q)))
    if isconst(a.p):
        c = cval(a.p)
        if c == 0:
            return Sym.of(0) if q > 0 else Sym(None, INF)
        if c == 1:
            return a
        if c < 0:
            return Sym(None, float("nan"))
        if q.denominator == 2:
            # sqrt of a rational: exact, or (sqrt(n*d)/d)
            f = Fraction(c)
            n, d = f.numerator, f.denominator
            s = n * d
            r = math.isqrt(s)
            root = None
            if r * r == s:
                root = Sym.of(Fraction(r, d))
            else:
                k, t = 1, s
                for i in range(2, 200):
                    while t % (i * i) == 0:
                        t //= i * i
                        k *= i
                root = Sym({((atom_id(("b", _reg({(): t}))), Fraction(1, 2)),): _norm(Fraction(k, d))})
            return spow(root, Sym.of(int(2 * q)))
        return Sym(_reduce_mono(((atom_id(("b", _reg(_const_poly(c)))), q),)))
    if q.denominator == 2:
        ls = sum_of_squares(a.p)
        if ls is not None and len(ls) == 1 and len(ls[0]) > 1:
            # the square of a linear form
            l = ls[0]
            d = next(c for m, c in a.p.items() if len(m) == 1 and m[0][1] == 2 and l.get(((m[0][0], 1),)) == 1)
            return spow(abs(Sym(l)) * spow(Sym.of(d), Sym.of(Fraction(1, 2))), Sym.of(int(2 * q)))
    neg = a < 0
    if neg:
        return Sym(None, float("nan"))
    if a == 0:
        return Sym.of(0) if q > 0 else Sym(None, INF)
    if len(a.p) == 1:
        (m, c), = a.p.items()
        # split c * mono when every factor is known positive
        if c > 0 and all(atom_positive(x) for x, _ in m):
            mm = {(): 1}
            for x, ex in m:
                mm = pmul(mm, _atom_pow(x, _norm(ex * q)))
            return Sym(mm) * spow(Sym.of(c), e)
    cm = ()
    p = a.p
    lead = p[min(p)]
    c = abs(lead)
    if c != 1:
        p = pscale(p, _norm(Fraction(1) / c))
    b = atom_id(("b", _reg(p)))
    r = Sym(_atom_pow(b, q))
    if c != 1:
        r = r * spow(Sym.of(Fraction(c)), e)
    return r


def _atom_pow(x, e):
    m = ((x, e),)
    if _ATOM_KIND[x] != "b" and type(e) is not int:
        # fractional power of a plain atom: through a base atom
        m = ((atom_id(("b", _reg({((x, 1),): 1}))), e),)
    if _needs_reduce(m):
        return _reduce_mono(m)
    return {m: 1}


def func(name, *args):
    return Sym({((atom_id(("f", name) + tuple(_reg(lift(a).p) for a in args)), 1),): 1})


def pstr(p):
    if not p:
        return "0"
    out = []
    for m, c in list(p.items())[:40]:
        t = "*".join(astr(a) + ("" if e == 1 else f"^{e}") for a, e in m)
        out.append(f"{c}" + ("*" + t if t else "") if (c != 1 or not t) else t)
    s = " + ".join(out)
    if len(p) > 40:
        s += f" + ...({len(p)} terms)"
    return s


def astr(a):
    t = ATOMS[a]
    if t[0] == "v":
        return t[1]
    if t[0] == "b":
        return "(" + pstr(_POLY_OF[t[1]]) + ")"
    return t[1] + "(" + ",".join(pstr(_POLY_OF[x]) for x in t[2:]) + ")"


def var(name):
    return Sym({((atom_id(("v", name)), 1),): 1})


# --------------------------------------------------------------------------------------------------
# derivatives
# --------------------------------------------------------------------------------------------------
_D_CACHE = {}


def pdiff(p, v):
    r = {}
    for m, c in p.items():
        for i, (a, e) in enumerate(m):
            da = adiff(a, v)
            if not da:
                continue
            rest = m[:i] + (((a, _norm(e - 1)),) if e != 1 else ()) + m[i + 1 :]
            t = {rest: _norm(c * e)}
            if _needs_reduce(rest):
                t = pscale(_reduce_mono(rest), _norm(c * e))
            r = padd(r, pmul(t, da))
    return r


def adiff(a, v):
    if a == v:
        return {(): 1}
    k = (a, v)
    r = _D_CACHE.get(k)
    if r is not None:
        return r
    t = ATOMS[a]
    if t[0] == "v":
        r = {}
    elif t[0] == "b":
        r = pdiff(_POLY_OF[t[1]], v)
    else:
        d = pdiff(_POLY_OF[t[2]], v)
        if not d:
            r = {}
        elif t[1] == "exp":
            r = pmul({((a, 1),): 1}, d)
        elif t[1] == "sin":
            r = pmul({((atom_id(("f", "cos", t[2])), 1),): 1}, d)
        elif t[1] == "cos":
            r = pmul({((atom_id(("f", "sin", t[2])), 1),): -1}, d)
        elif t[1] == "log":
            r = pmul(pinv(_POLY_OF[t[2]]), d)
        elif t[1] == "tanh":
            r = pmul({(): 1, ((a, 2),): -1}, d)
        else:
            raise EncodingError("derivative of " + t[1])
    _D_CACHE[k] = r
    return r


def diff(s, v):
    """symbolic derivative of the Sym s with respect to the variable (Sym) v"""
    s, v = lift(s), lift(v)
    ((m, _),) = v.p.items()
    return Sym(pdiff(s.p, m[0][0]))


def substitute(p, table):
    """substitute atoms (ids of variables) by polys"""
    r = {}
    for m, c in p.items():
        t = {(): c}
        for a, e in m:
            t = pmul(t, _subst_atom(a, e, table))
        r = padd(r, t)
    return r


def _subst_atom(a, e, table):
    if a in table:
        base = table[a]
        return spow(Sym(base), Sym.of(e if type(e) is int else Fraction(e))).p
    t = ATOMS[a]
    if t[0] == "v":
        return {((a, e),): 1}
    if t[0] == "b":
        return spow(Sym(substitute(_POLY_OF[t[1]], table)), Sym.of(e)).p
    args = [Sym(substitute(_POLY_OF[x], table)) for x in t[2:]]
    f = getattr(args[0], t[1])() if t[1] in ("exp", "sin", "cos", "log", "tanh") else func(t[1], *args)
    return spow(f, Sym.of(e)).p


def clear_denominators(p):
    """multiply p by nonzero factors until no atom has a negative exponent and base atoms are expanded"""
    for _ in range(12):
        need = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    if a not in need or e < need[a]:
                        need[a] = e
        if not need:
            return p
        # one atom at a time, largest nesting (id) first
        a = max(need)
        k = -need[a]
        r = {}
        for m, c in p.items():
            d = dict(m)
            e = _norm(d.pop(a, 0) + k)
            rest = tuple(sorted(d.items()))
            t = {rest: c}
            if e != 0:
                t = pmul(t, _atom_pow(a, e))
            r = padd(r, t)
        p = r
    return p


# --------------------------------------------------------------------------------------------------
# conditions
# --------------------------------------------------------------------------------------------------
LT, LE, GT, GE, EQ, NE = (
    frozenset({-1}),
    frozenset({-1, 0}),
    frozenset({1}),
    frozenset({0, 1}),
    frozenset({0}),
    frozenset({-1, 1}),
)


class Cond:
    """formula: const | cmp(poly, signset) | and | or | not"""

    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    @staticmethod
    def const(v):
        return TRUE if v else FALSE

    @staticmethod
    def cmp(p, T):
        if isconst(p):
            c = cval(p)
            return TRUE if ((c > 0) - (c < 0)) in T else FALSE
        if len(p) == 2:
            p = _square_roots(p)
            if isconst(p):
                return Cond.cmp(p, T)
        return Cond("cmp", p, T)

    def __bool__(self):
        if self.k == "c":
            return self.a
        if self.k == "cmp":
            return PATH.cur.decide(self.a, self.b)
        if self.k == "and":
            return all(bool(x) for x in self.a)
        if self.k == "or":
            return any(bool(x) for x in self.a)
        return not bool(self.a)

    def __invert__(self):
        if self.k == "c":
            return FALSE if self.a else TRUE
        if self.k == "cmp":
            return Cond("cmp", self.a, frozenset({-1, 0, 1}) - self.b)
        return Cond("not", self)

    logical_not = __invert__

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, Cond) and o.k != "c":
            if self.k != "c":
                return Cond.const(bool(self) ^ bool(o))
            self, o = o, self
        return ~self if bool(o) else self

    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __mul__(self, o):
        return Sym.of(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return Sym.of(self) + o

    __radd__ = __add__

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if self.k == "cmp":
            return f"({pstr(self.a)} {sorted(self.b)})"
        return f"{self.k}({self.a})"


TRUE, FALSE = Cond("c", True), Cond("c", False)


_SOS = {}


def sum_of_squares(p):
    """linear forms l_i with p = sum d_i l_i^2, d_i > 0, for a positive semidefinite quadratic p; else None"""
    deg = 0
    for m, c in p.items():
        d = 0
        for a, e in m:
            if type(e) is not int or e < 1 or _ATOM_KIND[a] != "v":
                return None
            d += e
        if d > 2:
            return None
        if d == 2 and len(m) == 1 and c < 0:
            return None
        deg = max(deg, d)
    if deg != 2 or p.get((), 0) < 0:
        return None
    k = pkey(p)
    if k in _SOS:
        return _SOS[k]
    q = dict(p)
    out = []
    while q:
        # complete the square in a variable with a positive square term
        v = None
        for m, c in q.items():
            if len(m) == 1 and m[0][1] == 2:
                if c <= 0:
                    v = None
                    out = None
                    break
                v = m[0][0]
                cv = c
        if out is None:
            break
        if v is None:
            if isconst(q) and cval(q) > 0:
                out.append({(): 1})
                q = {}
                break
            out = None
            break
        l = {((v, 1),): 1}
        for m, c in q.items():
            d = dict(m)
            if d.get(v) == 1:
                rest = tuple((a, e) for a, e in m if a != v)
                l = padd(l, {rest: _norm(Fraction(c) / (2 * cv))})
        out.append(l)
        q = padd(q, pscale(pmul(l, l), -cv))
    _SOS[k] = out
    return out


def _square_roots(p):
    """c1*sqrt(A) - c2*sqrt(B) has the sign of c1^2*A - c2^2*B (also with a constant in place of a root)"""
    (m1, c1), (m2, c2) = p.items()

    def sq(m, c):
        if not m:
            return {(): _norm(c * c)}
        if len(m) == 1 and ATOMS[m[0][0]][0] == "b" and m[0][1] == Fraction(1, 2):
            return pscale(_POLY_OF[ATOMS[m[0][0]][1]], _norm(c * c))
        return None

    if (c1 > 0) == (c2 > 0) or not (m1 or m2):
        return p
    a, b = sq(m1, c1), sq(m2, c2)
    if a is None or b is None:
        return p
    return padd(a, pscale(b, -1)) if c1 > 0 else padd(b, pscale(a, -1))


def _asc(x):
    if isinstance(x, Cond):
        return x
    if type(x) is Sym:
        return x != 0
    return TRUE if bool(x) else FALSE


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        x = _asc(x)
        if x.k == "c":
            if not x.a:
                return FALSE
            continue
        out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Cond("and", out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        x = _asc(x)
        if x.k == "c":
            if x.a:
                return TRUE
            continue
        out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Cond("or", out)


def Not(x):
    return ~_asc(x)


def Implies(a, b):
    return Or(Not(a), b)


# --------------------------------------------------------------------------------------------------
# rounding helpers (fork on the integer part)
# --------------------------------------------------------------------------------------------------


def sym_floor(x):
    x = lift(x)
    if x.p is None:
        raise OverflowError("cannot convert float infinity to integer") if x.s == x.s else ValueError(
            "cannot convert float NaN to integer"
        )
    if isconst(x.p):
        return math.floor(Fraction(cval(x.p)))
    tried = set()
    for _ in range(400):
        g = k = PATH.cur.guess_floor(x)
        step = 0
        while k in tried:  # the guess can be stale: try its neighbours
            step += 1
            k = g + (step + 1) // 2 * (1 if step % 2 else -1)
        tried.add(k)
        if bool(And(x >= k, x < k + 1)) if PATH.cur is None else PATH.cur.decide_cond(And(x >= k, x < k + 1)):
            return k
    raise EncodingError("floor: too many integer parts")


def sym_trunc(x):
    x = lift(x)
    if x.p is not None and isconst(x.p):
        return int(Fraction(cval(x.p)))
    if x >= 0:
        return sym_floor(x)
    return -sym_floor(-x)


def sym_rint(x):
    x = lift(x)
    if x.p is not None and isconst(x.p):
        return round(Fraction(cval(x.p)))
    f = sym_floor(x)
    d = x - f
    if d > Fraction(1, 2):
        return f + 1
    if d < Fraction(1, 2):
        return f
    return f if f % 2 == 0 else f + 1


# --------------------------------------------------------------------------------------------------
# Z3 translation
# --------------------------------------------------------------------------------------------------
class Z:
    """poly -> z3 with caching; collects the axioms of the atoms used"""

    def __init__(self):
        self.avar = {}
        self.cache = {}
        self.ax = {}  # atom id -> list of z3 axioms
        self.deps = {}  # atom id -> set of variable-ish atom ids

    def atom(self, a, e):
        t = ATOMS[a]
        if t[0] in ("v", "f"):
            if a not in self.avar:
                v = z3.Real(f"a{a}" if t[0] == "f" else t[1])
                self.avar[a] = v
                self.ax[a] = []
                if a == PI:
                    self.ax[a] = [v > z3.Q(PI_LO.numerator, PI_LO.denominator), v < z3.Q(PI_HI.numerator, PI_HI.denominator)]
                elif t[0] == "f":
                    args = [self.poly(_POLY_OF[x]) for x in t[2:]]
                    if t[1] == "exp":
                        self.ax[a] = [v > 0, (v > 1) == (args[0] > 0), (v < 1) == (args[0] < 0), v >= 1 + args[0]]
                    elif t[1] in ("sin", "cos"):
                        self.ax[a] = [v >= -1, v <= 1]
                        o = atom_id(("f", "cos" if t[1] == "sin" else "sin", t[2]))
                        if o in self.avar:
                            self.ax[a].append(v * v + self.avar[o] * self.avar[o] == 1)
                        if t[1] == "sin":
                            # sin x has the sign of x on [-pi, pi]
                            self.ax[a].append(
                                z3.Implies(z3.And(args[0] > 0, args[0] < z3.Q(314159265358979, 10**14)), v > 0)
                            )
                            self.ax[a].append(
                                z3.Implies(z3.And(args[0] < 0, args[0] > -z3.Q(314159265358979, 10**14)), v < 0)
                            )
                            self.ax[a].append(z3.Implies(args[0] == 0, v == 0))
                            self.ax[a].append(z3.Implies(args[0] >= 0, v <= args[0]))
                            self.ax[a].append(z3.Implies(args[0] <= 0, v >= args[0]))
                        else:
                            self.ax[a].append(z3.Implies(args[0] == 0, v == 1))
                            h = z3.Q(157079632679489, 10**14)
                            self.ax[a].append(z3.Implies(z3.And(args[0] > -h, args[0] < h), v > 0))
                    elif t[1] == "log":
                        self.ax[a] = [(v > 0) == (args[0] > 1), (v < 0) == (args[0] < 1), v <= args[0] - 1]
                    elif t[1] == "tanh":
                        self.ax[a] = [v > -1, v < 1]
            v = self.avar[a]
            return self._pow(v, e)
        # base atom: introduce root variable per denominator
        e = Fraction(e)
        if e.denominator == 1:
            b = self.poly(_POLY_OF[t[1]])
            return self._pow(b, e.numerator)
        # one root per base: exponent denominators are merged through the largest used
        key = (a, e.denominator)
        if key not in self.avar:
            r = z3.Real(f"r{a}_{e.denominator}")
            self.avar[key] = r
            self.ax[key] = [r > 0, self._pow(r, e.denominator) == self.poly(_POLY_OF[t[1]])]
        return self._pow(self.avar[key], e.numerator)

    def _pow(self, v, n):
        if type(n) is Fraction:
            raise EncodingError("fractional power of plain atom")
        if n == 1:
            return v
        if n < 0:
            return 1 / self._pow(v, -n)
        r = v
        for _ in range(n - 1):
            r = r * v
        return r

    def poly(self, p):
        k = pkey(p)
        r = self.cache.get(k)
        if r is None:
            terms = []
            for m, c in p.items():
                t = None
                for a, e in m:
                    x = self.atom(a, e)
                    t = x if t is None else t * x
                if t is None:
                    terms.append(_q(c))
                else:
                    terms.append(t if c == 1 else _q(c) * t)
            r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
            self.cache[k] = r
        return r

    def cmp(self, p, T):
        p = clear_sign(p)
        e = self.poly(p)
        if T == LT:
            return e < 0
        if T == LE:
            return e <= 0
        if T == GT:
            return e > 0
        if T == GE:
            return e >= 0
        if T == EQ:
            return e == 0
        if T == NE:
            return e != 0
        return z3.BoolVal(len(T) == 3)

    def cond(self, c):
        if c.k == "c":
            return z3.BoolVal(c.a)
        if c.k == "cmp":
            return self.cmp(c.a, c.b)
        if c.k == "and":
            return z3.And(*[self.cond(x) for x in c.a])
        if c.k == "or":
            return z3.Or(*[self.cond(x) for x in c.a])
        return z3.Not(self.cond(c.a))

    def keys_of(self, p, out):
        """axiom keys (atoms) a poly depends on, transitively"""
        for m in p:
            for a, e in m:
                t = ATOMS[a]
                k = a
                if t[0] == "b":
                    if Fraction(e).denominator != 1:
                        k = (a, Fraction(e).denominator)
                        if k in out:
                            continue
                        out.add(k)
                    self.keys_of(_POLY_OF[t[1]], out)
                    continue
                if k in out:
                    continue
                out.add(k)
                if t[0] == "f":
                    for x in t[2:]:
                        self.keys_of(_POLY_OF[x], out)


def _q(c):
    if type(c) is int:
        return z3.RealVal(c)
    return z3.Q(c.numerator, c.denominator)


_pos_hint = None


def clear_sign(p):
    """multiply by positive factors to remove negative exponents (keeps the sign of p)"""
    for _ in range(12):
        need = {}
        for m in p:
            for a, e in m:
                if e < 0 and (a not in need or e < need[a]):
                    need[a] = e
        if not need:
            return p
        a = max(need)
        k = -need[a]
        if not atom_positive(a):
            # use an even power
            if type(k) is not int:
                k = k  # fractional powers only occur for positive bases
            elif k % 2:
                k += 1
        r = {}
        for m, c in p.items():
            d = dict(m)
            e = _norm(d.pop(a, 0) + k)
            t = {tuple(sorted(d.items())): c}
            if e != 0:
                t = pmul(t, _atom_pow(a, e))
            r = padd(r, t)
        p = r
    return p


def atom_positive(a):
    t = ATOMS[a]
    if a == PI:
        return True
    if t[0] == "f":
        return t[1] == "exp"
    if t[0] == "b":
        if isconst(_POLY_OF[t[1]]):
            return cval(_POLY_OF[t[1]]) > 0
        return PATH.cur is not None and PATH.cur.known_sign(_POLY_OF[t[1]]) == {1}
    return PATH.cur is not None and PATH.cur.known_sign({((a, 1),): 1}) == {1}


# --------------------------------------------------------------------------------------------------
# one path
# --------------------------------------------------------------------------------------------------
class PATH:
    cur = None


class Stats:
    def __init__(self):
        self.paths = 0
        self.feas = 0
        self.feas_t = 0.0
        self.obl = 0
        self.obl_nontriv = 0
        self.obl_t = 0.0
        self.unknown_feas = 0
        self.dropped = 0
        self.confirmed = 0

    def add(self, o):
        for k, v in o.items():
            setattr(self, k, getattr(self, k) + v)


_TRIV = z3.SolverFor("QF_NRA")
FULL = frozenset({-1, 0, 1})
_BASE = None
ON_RESET = []  # further per-path caches to clear


def reset_path_state():
    """forget every atom of the previous path: numbering, and with it every order-dependent heuristic, is then a
    function of the path alone, so that a path prefix replays identically in any worker"""
    global _BASE
    if _BASE is None:
        _BASE = (len(ATOMS), dict(_POLY_OF))
        return
    n, polys = _BASE
    del ATOMS[n:], _ATOM_KIND[n:], _ATOM_SPECIAL[n:]
    _ATOM_ID.clear()
    _ATOM_ID.update((t, i) for i, t in enumerate(ATOMS))
    _POLY_OF.clear()
    _POLY_OF.update(polys)
    _SOS.clear()
    _D_CACHE.clear()
    for f in ON_RESET:
        f()


class Violation:
    def __init__(self, label, inputs, detail):
        self.label, self.inputs, self.detail = label, inputs, detail


def _root_int(l, h, e):
    """outward rounded interval of b**e for a base in [l, h]"""
    if e < 0:
        if l is None or l <= 0:
            return Fraction(0), None
        lo = Fraction(float(h) ** float(e)) * Fraction(999999999999, 10**12) if h is not None else Fraction(0)
        return lo, Fraction(float(l) ** float(e)) * Fraction(1000000000001, 10**12)
    lo = Fraction(float(l) ** float(e)) * Fraction(999999999999, 10**12) if l is not None and l > 0 else Fraction(0)
    return lo, (Fraction(float(h) ** float(e)) * Fraction(1000000000001, 10**12) if h is not None and h >= 0 else None)


class Path:
    generic_denominators = False  # divisions assume a nonzero denominator instead of branching on it

    def __init__(self, prefix, feas_timeout=4000, obl_timeout=30000):
        self.prefix = prefix
        self.trace = []
        self.pending = []  # alternative prefixes discovered
        self.facts = {}
        self.cons = []  # (z3 expr, frozenset of atom keys, linear?)
        self.z = Z()
        self.lin = z3.SolverFor("QF_LRA")
        self.lin.set("timeout", feas_timeout)
        self.nonlin = False
        self.stats = Stats()
        self.inputs = {}  # name -> Sym
        self.notes = {}  # name -> concrete choices (for replay)
        self.violations = []
        self.arguments = []  # per arbitrary function: the points it was asked for
        self.unknown = []
        self.feas_timeout = feas_timeout
        self.obl_timeout = obl_timeout
        self.witness = {}
        self.bounds = {}  # var atom -> (lo, hi)
        self.labels = {}
        self.reached = 0
        self.ax_done = set()
        self.approx = 0
        self.nf = 0
        self.zeros = []
        self.subst = {}  # variable atom -> poly, from linear equalities on the path

    def reduce_zero(self, p):
        """p modulo the rational span of the polynomials known to vanish on the path"""
        for piv, row in self.zeros:
            c = p.get(piv)
            if c is not None:
                p = padd(p, pscale(row, _norm(-Fraction(c) / row[piv])))
        return p

    def _learn_zero(self, p):
        p = self.reduce_zero(p)
        if not p:
            return
        piv = max(p, key=lambda m: (sum(abs(e) for _, e in m), m))
        rows = []
        for q, r in self.zeros:
            c = r.get(piv)
            if c is not None:
                r = padd(r, pscale(p, _norm(-Fraction(c) / p[piv])))
            rows.append((q, r))
        self.zeros = rows + [(piv, p)]

    def reduce(self, p):
        """apply the linear equalities of the path to p (only when p is over plain variables)"""
        if not self.subst:
            return p
        hit = False
        for m in p:
            for a, e in m:
                if a in self.subst:
                    if type(e) is not int or e < 0:
                        return p
                    hit = True
        if not hit:
            return p
        r = {}
        for m, c in p.items():
            t = {(): c}
            for a, e in m:
                b = self.subst.get(a)
                t = pmul(t, {((a, e),): 1} if b is None else ppow(b, e))
            r = padd(r, t)
        return r

    def _learn_eq(self, p):
        p = self.reduce(p)
        if not p or not self._is_linear(p):
            return
        a = max((m[0][0] for m in p if m), default=None)
        if a is None:
            return
        c = p[((a, 1),)]
        rest = pscale({m: v for m, v in p.items() if m != ((a, 1),)}, _norm(Fraction(-1) / c))
        for k, q in self.subst.items():
            if any(x == a for m in q for x, _ in m):
                t = {}
                for m, v in q.items():
                    if m and m[0][0] == a:
                        t = padd(t, pscale(rest, v))
                    else:
                        t = padd(t, {m: v})
                self.subst[k] = t
        self.subst[a] = rest

    def choose(self, name, n):
        """nondeterministic choice in range(n), explored exhaustively"""
        i = len(self.trace)
        if i < len(self.prefix):
            o = self.prefix[i]
            if type(o) is bool:
                raise EncodingError("path replay diverged")
        else:
            o = 0
            for k in range(1, n):
                self.pending.append(self.trace + [k])
        self.trace.append(o)
        self.notes[name] = o
        return o

    # ---- variables
    def real(self, name, lo=None, hi=None):
        v = var(name)
        self.inputs[name] = v
        a = atom_id(("v", name))
        self.bounds[a] = (None if lo is None else Fraction(lift(lo).const()), None if hi is None else Fraction(lift(hi).const()))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    # ---- interval sign
    def _interval(self, p, depth=0):
        lo, hi = Fraction(0), Fraction(0)
        for m, c in p.items():
            l, h = Fraction(c), Fraction(c)
            for a, e in m:
                al, ah = self._atom_int(a, e, depth)
                if al is None and ah is None and l is not None:
                    return None, None
                cand = []
                # handle None as infinity
                if al is None or ah is None or l is None or h is None:
                    # only keep sign information
                    l2 = 0 if (_nonneg(l) and _nonneg(al)) else None
                    h2 = 0 if (_nonpos(h) and _nonneg(al)) else None
                    l, h = l2, h2
                    if l is None and h is None:
                        return None, None
                    continue
                cand = [l * al, l * ah, h * al, h * ah]
                l, h = min(cand), max(cand)
            lo = None if (lo is None or l is None) else lo + l
            hi = None if (hi is None or h is None) else hi + h
            if lo is None and hi is None:
                return None, None
        return lo, hi

    def _atom_int(self, a, e, depth):
        t = ATOMS[a]
        if t[0] == "v":
            if a == PI:
                l, h = PI_LO, PI_HI
            else:
                l, h = self.bounds.get(a, (None, None))
        elif t[0] == "f":
            if t[1] in ("sin", "cos", "tanh"):
                l, h = Fraction(-1), Fraction(1)
            elif t[1] == "exp":
                l, h = Fraction(0), None
            else:
                l, h = None, None
        else:
            if depth > 3:
                return None, None
            l, h = self._interval(_POLY_OF[t[1]], depth + 1)
            if Fraction(e).denominator != 1:
                return _root_int(l, h, Fraction(e))
        if type(e) is not int:
            return Fraction(0), None
        if e < 0:
            if l is not None and l >= 0:
                return Fraction(0), None
            if e % 2 == 0:
                return Fraction(0), None
            return None, None
        if e % 2 == 0:
            if l is None or h is None:
                return Fraction(0), None
            if l >= 0:
                return l**e, h**e
            if h <= 0:
                return h**e, l**e
            return Fraction(0), max(l**e, h**e)
        return (None if l is None else l**e), (None if h is None else h**e)

    def known_sign(self, p):
        if isconst(p):
            c = cval(p)
            return {(c > 0) - (c < 0)}
        key, s = primitive(p)
        f = self.facts.get(key)
        if f is not None:
            if s < 0:
                f = frozenset(-x for x in f)
            if len(f) == 1:
                return set(f)
        lo, hi = self._interval(p)
        r = set(f) if f is not None else {-1, 0, 1}
        if -1 in r and 0 in r and sum_of_squares(p) is not None:
            r &= {0, 1}
        if lo is not None:
            if lo > 0:
                r &= {1}
            elif lo == 0:
                r &= {0, 1}
        if hi is not None:
            if hi < 0:
                r &= {-1}
            elif hi == 0:
                r &= {-1, 0}
        return r or {-1, 0, 1}

    def _learn(self, p, T):
        key, s = primitive(p)
        if s < 0:
            T = frozenset(-x for x in T)
        self.facts[key] = self.facts.get(key, FULL) & T

    # ---- constraints
    def _is_linear(self, p):
        return all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1 and _ATOM_KIND[m[0][0]] == "v") for m in p)

    def _add(self, p, T):
        self._learn(p, T)
        if T == EQ:
            self._learn_eq(p)
            if len(p) <= 800:
                self._learn_zero(p)
        q = clear_sign(p)
        self._link_trig(q)
        e = self.z.cmp(q, T)
        keys = set()
        self.z.keys_of(q, keys)
        lin = self._is_linear(q)
        self.cons.append((e, frozenset(keys), lin))
        if lin:
            self.lin.add(e)
        else:
            self.nonlin = True

    def _link_trig(self, p):
        pass

    def _add_cond(self, c):
        if c.k == "c":
            if not c.a:
                raise Infeasible()
            return
        if c.k == "cmp":
            return self._add(c.a, c.b)
        if c.k == "and":
            for x in c.a:
                self._add_cond(x)
            return
        if c.k == "not" and c.a.k == "or":
            for x in c.a.a:
                self._add_cond(~x)
            return
        e = self.z.cond(c)
        keys, lin = self._cond_keys(c)
        self.cons.append((e, keys, lin))
        if lin:
            self.lin.add(e)
        else:
            self.nonlin = True

    def _cond_keys(self, c):
        keys, lin = set(), True
        st = [c]
        while st:
            x = st.pop()
            if x.k == "cmp":
                q = clear_sign(x.a)
                self.z.keys_of(q, keys)
                lin = lin and self._is_linear(q)
            elif x.k in ("and", "or"):
                st.extend(x.a)
            elif x.k == "not":
                st.append(x.a)
        return frozenset(keys), lin

    # ---- solving
    def _cone(self, keys):
        """constraints transitively sharing atoms with keys"""
        keys = set(keys)
        used = [False] * len(self.cons)
        changed = True
        out = []
        while changed:
            changed = False
            for i, (e, k, lin) in enumerate(self.cons):
                if not used[i] and (k & keys):
                    used[i] = True
                    keys |= k
                    out.append(e)
                    changed = True
        ax = []
        trig = {}
        for k in keys:
            ax.extend(self.z.ax.get(k, ()))
            if type(k) is int and ATOMS[k][0] == "f" and ATOMS[k][1] in ("sin", "cos"):
                trig.setdefault(ATOMS[k][2], {})[ATOMS[k][1]] = self.z.avar[k]
        for t in trig.values():
            if len(t) == 2:
                ax.append(t["sin"] * t["sin"] + t["cos"] * t["cos"] == 1)
        return out, ax, keys

    def _check(self, expr, keys, lin, timeout, want_model=True):
        """satisfiability of path /\\ expr -> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        full = None
        if lin:
            self.lin.push()
            try:
                self.lin.add(expr)
                r = self.lin.check()
                if r == z3.unsat:
                    return "unsat", None
                if r == z3.sat and not self.nonlin:
                    return "sat", self.lin.model()
            finally:
                self.lin.pop()
            if not self.nonlin:
                return "unknown", None
            out, ax, ks = self._cone(keys)
            # is the cone linear? then the linear answer stands
        out, ax, ks = self._cone(keys)
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", timeout)
        s.add(*out)
        s.add(*ax)
        s.add(expr)
        r = s.check()
        if r == z3.sat:
            return "sat", s.model()
        if r == z3.unsat:
            return "unsat", None
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*out)
        s.add(*ax)
        s.add(expr)
        r = s.check()
        if r == z3.sat:
            return "sat", s.model()
        if r == z3.unsat:
            return "unsat", None
        return "unknown", None

    def _update_witness(self, model):
        w = dict(self.witness)
        for d in model.decls():
            v = model[d]
            if z3.is_rational_value(v):
                w[d.name()] = v.as_fraction()
            elif z3.is_algebraic_value(v):
                return
        self.witness = w

    def _eval(self, p):
        """value of p at the witness, or None"""
        tot = Fraction(0)
        for m, c in p.items():
            t = Fraction(c)
            for a, e in m:
                k = ATOMS[a]
                if k[0] != "v" or type(e) is not int:
                    return None
                v = self.witness.get(k[1])
                if v is None:
                    return None
                if e < 0 and v == 0:
                    return None
                t *= v**e
            tot += t
        return tot

    def decide(self, p, T):
        p = self.reduce(p)
        if isconst(p):
            c = cval(p)
            return ((c > 0) - (c < 0)) in T
        ks = frozenset(self.known_sign(p))
        if not (ks & T):
            return False
        if ks <= T:
            return True
        if ks == {0, 1}:
            ls = sum_of_squares(p)
            if ls is not None:
                # p is a sum of squares of linear forms: it vanishes iff all of them do
                z = self.decide_cond(And(*[Cond.cmp(l, EQ) for l in ls]))
                self._learn(p, EQ if z else GT)
                return (0 in T) if z else (1 in T)
        i = len(self.trace)
        if i < len(self.prefix):
            o = self.prefix[i]
            if type(o) is not bool:
                raise EncodingError("path replay diverged")
            self.trace.append(o)
            self._add(p, (T if o else FULL - T) & ks)
            return o
        q = clear_sign(p)
        keys = set()
        self.z.keys_of(q, keys)
        lin = self._is_linear(q)
        Tt, Tf = T & ks, (FULL - T) & ks
        wit = self._eval(q)
        ft = ff = None
        if wit is not None:
            sg = (wit > 0) - (wit < 0)
            if sg in Tt:
                ft = "sat"
            elif sg in Tf:
                ff = "sat"
        t0 = time.time()
        models = {}
        if ft is None:
            self.stats.feas += 1
            ft, m = self._check(self.z.cmp(q, Tt), keys, lin, self.feas_timeout)
            if m is not None:
                models[True] = m
        if ff is None:
            if ft == "unsat":
                ff = "sat"
            else:
                self.stats.feas += 1
                ff, m = self._check(self.z.cmp(q, Tf), keys, lin, self.feas_timeout)
                if m is not None:
                    models[False] = m
        self.stats.feas_t += time.time() - t0
        if ft == "unknown" or ff == "unknown":
            self.stats.unknown_feas += 1
        if ft == "unsat" and ff == "unsat":
            raise Infeasible()
        o = ft != "unsat"
        if o and ff != "unsat":
            self.pending.append(self.trace + [False])
        self.trace.append(o)
        # keep the witness consistent with the chosen side
        if wit is not None and ((wit > 0) - (wit < 0)) in (Tt if o else Tf):
            pass
        elif o in models:
            self._update_witness(models[o])
            if self._eval(q) is None or ((self._eval(q) > 0) - (self._eval(q) < 0)) not in (Tt if o else Tf):
                self.witness = {}
        else:
            self.witness = {}
        self._add(p, Tt if o else Tf)
        return o

    def decide_cond(self, c):
        """decide a compound condition as one fork"""
        c = _asc(c)
        if c.k == "c":
            return c.a
        if c.k == "cmp":
            return self.decide(c.a, c.b)
        if all(x.k == "cmp" for x in (c.a if isinstance(c.a, list) else [])):
            pass
        i = len(self.trace)
        if i < len(self.prefix):
            o = self.prefix[i]
            if type(o) is not bool:
                raise EncodingError("path replay diverged")
            self.trace.append(o)
            self._add_cond(c if o else _neg(c))
            return o
        keys, lin = self._cond_keys(c)
        e = self.z.cond(c)
        t0 = time.time()
        self.stats.feas += 2
        ft, m1 = self._check(e, keys, lin, self.feas_timeout)
        ff, m2 = self._check(z3.Not(e), keys, lin, self.feas_timeout)
        self.stats.feas_t += time.time() - t0
        if ft == "unsat" and ff == "unsat":
            raise Infeasible()
        o = ft != "unsat"
        if o and ff != "unsat":
            self.pending.append(self.trace + [False])
        self.trace.append(o)
        self.witness = {}
        m = m1 if o else m2
        if m is not None:
            self._update_witness(m)
        self._add_cond(c if o else _neg(c))
        return o

    def guess_floor(self, x):
        lo, hi = self._interval(x.p)
        v = self._eval(x.p)
        if v is None:
            r, m = self._check(z3.BoolVal(True), self._pk(x.p), False, self.feas_timeout)
            if m is not None:
                try:
                    val = m.eval(self.z.poly(clear_sign(x.p)), model_completion=True)
                    v = val.as_fraction() if z3.is_rational_value(val) else Fraction(val.approx(20).as_fraction())
                except Exception:
                    v = None
        if v is None:
            if lo is not None:
                v = lo
            else:
                raise EncodingError("floor of an unconstrained symbolic value")
        return math.floor(v)

    def _pk(self, p):
        ks = set()
        self.z.keys_of(clear_sign(p), ks)
        self.z.poly(clear_sign(p))
        return ks

    # ---- assume / prove
    def assume(self, c):
        c = _asc(c)
        if c.k == "c":
            if not c.a:
                raise Infeasible()
            return
        if c.k == "cmp":
            ks = frozenset(self.known_sign(c.a))
            if ks <= c.b and not isinstance(c.a, Sym):
                # still add (bounds rely on it being a constraint)
                pass
            if not (ks & c.b):
                raise Infeasible()
        self._add_cond(c)
        # drop a witness that does not satisfy it
        if c.k == "cmp":
            v = self._eval(c.a)
            if v is None or ((v > 0) - (v < 0)) not in c.b:
                self.witness = {}
        else:
            self.witness = {}

    def feasible(self):
        out = [e for e, _, _ in self.cons]
        s = z3.Solver() if self.nonlin else self.lin
        if self.nonlin:
            keys = set()
            for _, k, _ in self.cons:
                keys |= k
            o, ax, _ = self._cone(keys)
            s.add(*out)
            s.add(*ax)
            s.set("timeout", 10000)
        return s.check() != z3.unsat

    def prove(self, c, label, detail=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        self.stats.obl += 1
        c = _asc(c)
        if c.k == "c" and c.a:
            return True
        t0 = time.time()
        try:
            if c.k == "cmp":
                ks = frozenset(self.known_sign(c.a))
                if ks <= c.b:
                    self.stats.obl_nontriv += 1
                    return True
                e = self.z.cmp(clear_sign(c.a), FULL - c.b)
                keys = self._pk(c.a)
                lin = self._is_linear(clear_sign(c.a))
            else:
                e = z3.Not(self.z.cond(c))
                keys, lin = self._cond_keys(c)
            self.stats.obl_nontriv += 1
            r, m = self._check(e, keys, lin, self.obl_timeout)
        finally:
            self.stats.obl_t += time.time() - t0
        if r == "unsat":
            return True
        if r == "unknown":
            self.unknown.append(label)
            return False
        self._violate(label, e, keys, detail)
        return False

    def prove_eq(self, a, b, label, tol=Fraction(1, 10**7)):
        """a == b (as reals); differences below tol come from rounding in the code's literals"""
        import numpy as np

        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (list, tuple)):
            A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            if A.shape != B.shape:
                return self.prove(False, label + f" shape {A.shape} vs {B.shape}")
            ok = True
            for idx in np.ndindex(A.shape):
                ok = self.prove_eq(A[idx], B[idx], label) and ok
                if not ok and self.violations:
                    return False
            return ok
        self.labels[label] = self.labels.get(label, 0) + 1
        self.stats.obl += 1
        a, b = lift(a), lift(b)
        if a.p is None or b.p is None:
            x, y = _sp(a), _sp(b)
            same = (a.p is None) == (b.p is None) and (x == y or (x != x and y != y))
            return same or self.prove(False, label, f"{a} vs {b}")
        d = padd(a.p, pscale(b.p, -1))
        d = self.reduce(d)
        if self.zeros and d:
            d = self.reduce_zero(d)
        d = {m: c for m, c in d.items() if abs(c) > 1e-11} if d else d
        if not d:
            self.stats.obl_nontriv += 1
            return self._solver_identity(a, b)
        d2 = clear_denominators(d)
        if not d2:
            self.stats.obl_nontriv += 1
            return True
        t0 = time.time()
        self.stats.obl_nontriv += 1
        try:
            keys = self._pk(d2)
            r, m = self._check(self.z.cmp(d2, NE), keys, self._is_linear(d2), self.obl_timeout)
            if r == "unsat":
                return True
            d3 = clear_sign(d)
            lin = self._is_linear(d)
            x = Sym(d)
            c = Or(x > tol, x < -tol)
            e = self.z.cond(c)
            keys, lin = self._cond_keys(c)
            # prefer a clearly visible difference
            for big in (Fraction(1, 10), Fraction(1, 1000), None):
                if big is None:
                    ee = e
                else:
                    ee = self.z.cond(Or(x > big, x < -big))
                r, m = self._check(ee, keys, lin, self.obl_timeout)
                if r == "sat":
                    self._violate(label, ee, keys, f"{pstr(a.p)[:300]} vs {pstr(b.p)[:300]}")
                    return False
            if r == "unsat":
                self.approx += 1
                return True
            self.unknown.append(label)
            return False
        finally:
            self.stats.obl_t += time.time() - t0

    def _solver_identity(self, a, b):
        """both sides have the same normal form; Z3 confirms the (then easy) query"""
        self.nf += 1
        s = _TRIV
        s.push()
        try:
            s.set("timeout", 300)
            s.add(*[self.z.poly(row) == 0 for _, row in self.zeros[:20]])
            s.add(self.z.poly(a.p) != self.z.poly(b.p))
            if s.check() == z3.unsat:
                self.stats.confirmed += 1
            return True
        finally:
            s.pop()

    def _violate(self, label, e, keys, detail):
        """full models of path /\\ e over all inputs"""
        models = self._models([c for c, _, _ in self.cons], keys, e, 3)
        if not models:
            # only the constraints connected with the claim: the replay decides
            models = self._models([c for c, _, _ in self._cone(keys)[0]], keys, e, 3)
        if not models:
            self.unknown.append(label + " (no full model)")
            return
        self.violations.append(Violation(label, models, (detail or "") if isinstance(detail, str) else repr(detail)))

    def _models(self, cons, keys, e, count):
        models = []
        s = z3.Solver()
        s.set("timeout", self.obl_timeout)
        allk = set(keys)
        for _, k, _ in self.cons:
            allk |= k
        s.add(*cons)
        s.add(*self._cone(allk)[1])
        s.add(e)
        # arguments of one function that are different expressions should be different points: the replay
        # gives equal points the same value
        prefer = []
        for raw in self.arguments:
            for i, a in enumerate(raw):
                for b in raw[:i]:
                    if len(a) == len(b):
                        try:
                            alts = [self.z.cond(Or(u - v > Fraction(1, 100), v - u > Fraction(1, 100))) for u, v in zip(a, b) if (u - v).p]
                        except Exception:
                            continue
                        if alts:
                            prefer.append(z3.Or(*alts))
        if prefer:
            s.push()
            s.add(*prefer)
            if s.check() != z3.sat:
                s.pop()
        rng = random.Random(7)
        names = sorted(self.inputs)

        def take():
            m = s.model()
            vals = {}
            block = []
            for name in self.inputs:
                zv = z3.Real(name)
                mv = m.eval(zv, model_completion=True)
                if z3.is_rational_value(mv):
                    f = mv.as_fraction()
                    f = Fraction(f.numerator, f.denominator)
                else:
                    q = mv.approx(30)
                    f = Fraction(q.numerator_as_long(), q.denominator_as_long())
                vals[name] = f
                block.append(zv != mv)
            models.append({k: [v.numerator, v.denominator] for k, v in vals.items()})
            return block

        # generic values first: they make a difference visible in floating point
        s.set("timeout", 1500)
        for frac in (0.9, 0.7, 0.5, 0.3):
            if len(models) >= count - 1:
                break
            s.push()
            for name in names:
                if rng.random() < frac:
                    lo, hi = self.bounds.get(atom_id(("v", name)), (None, None))
                    lo, hi = (-2 if lo is None else lo), (2 if hi is None else hi)
                    s.add(z3.Real(name) == _q(lo + (hi - lo) * Fraction(rng.randint(1, 31), 32)))
            if s.check() == z3.sat:
                take()
            s.pop()
        s.set("timeout", self.obl_timeout)
        while len(models) < count:
            if s.check() != z3.sat:
                break
            block = take()
            if not block:
                break
            s.add(z3.Or(*block))
            s.set("timeout", 4000)
        return models

    def model_inputs(self):
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*[c for c, _, _ in self.cons])
        if s.check() != z3.sat:
            return None
        m = s.model()
        out = {}
        for name in self.inputs:
            mv = m.eval(z3.Real(name), model_completion=True)
            if z3.is_rational_value(mv):
                out[name] = float(mv.as_fraction())
            else:
                out[name] = float(mv.approx(20).as_fraction())
        return out


def _nonneg(x):
    return x is not None and x >= 0


def _nonpos(x):
    return x is not None and x <= 0


def _neg(c):
    if c.k == "and":
        return Or(*[_neg(x) for x in c.a])
    if c.k == "or":
        return And(*[_neg(x) for x in c.a])
    return ~c
