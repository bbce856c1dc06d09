"""Symbolic execution of JAX code: trace the real function to its jaxpr (as jit would) and interpret the
jaxpr over symbolic reals.  jit/vmap/jacrev/... imported by hvd are replaced, during import only, by wrappers
that use the real transformation for concrete and traced arguments and the interpreter for symbolic ones."""
import builtins
import functools
import types

import jax
import jax.numpy as real_jnp
import numpy as np
from jax import core as jcore

from . import engine as E
from .engine import Cond, EncodingError, Sym, lift
from .npshim import SA, all_const, oarr, smax, smin, unobj, wrap

E.TRACER = jcore.Tracer

# ---------------------------------------------------------------------------------------------------
# symbolic constants met while tracing (closures over symbolic values)
# ---------------------------------------------------------------------------------------------------
_consts = {}
_cbase = [0]
_tainted = []  # traces that contain symbolic constants: not reusable on another path


def _reset():
    for cache, k in _tainted:
        cache.pop(k, None)
    _tainted.clear()
    _cbase[0] += len(_consts)
    _consts.clear()


E.ON_RESET.append(_reset)
symc_p = jcore.Primitive("vt_symbolic_constant")


@symc_p.def_abstract_eval
def _(*, key, shape):
    return jcore.ShapedArray(shape, np.float64)


@symc_p.def_impl
def _(*, key, shape):
    raise _NeedSym()


class _NeedSym(Exception):
    pass


def _jax_array(x):
    a = np.asarray(x, dtype=object)
    if all_const(a) and not any(isinstance(v, Cond) for v in a.reshape(-1)):
        return real_jnp.asarray(unobj(a))
    k = len(_consts) + _cbase[0]
    _consts[k] = a
    return symc_p.bind(key=k, shape=a.shape)


Sym.__jax_array__ = lambda self: _jax_array(self)


def _sa_jax(self):
    if self.dtype != object:
        return real_jnp.asarray(np.asarray(self))
    return _jax_array(np.asarray(self))


SA.__jax_array__ = _sa_jax
SA.__array_priority__ = 500  # above concrete JAX arrays, below tracers


def _concrete_ops():
    """concrete JAX array (operator) symbolic array, outside a trace"""
    from jax._src.array import ArrayImpl

    def op(name, f):
        def g(self, other):
            if isinstance(other, (Sym, Cond)) or (isinstance(other, np.ndarray) and other.dtype == object):
                return NotImplemented if f is None else getattr(wrap(np.asarray(self).astype(object)), name)(other)
            return f(self, other)

        return g

    for n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "matmul", "rmatmul", "lt", "le", "gt", "ge", "eq", "ne", "floordiv", "mod"):
        n = f"__{n}__"
        setattr(ArrayImpl, n, op(n, getattr(ArrayImpl, n)))


_concrete_ops()


# ---------------------------------------------------------------------------------------------------
# the interpreter
# ---------------------------------------------------------------------------------------------------
def _isobj(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def _obj(a):
    """object array whose entries are Sym or Cond"""
    a = np.asarray(a)
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    f = out.reshape(-1)
    if a.dtype == bool:
        for i, v in enumerate(a.reshape(-1)):
            f[i] = Cond.const(bool(v))
    else:
        for i, v in enumerate(a.reshape(-1).tolist()):
            f[i] = Sym.of(v)
    return out


def _el(f, *arrs):
    """elementwise over (already equal-shaped or scalar) operands"""
    arrs = [_obj(a) for a in arrs]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.empty(shape, dtype=object)
    o = out.reshape(-1)
    fl = [a.reshape(-1) for a in arrs]
    for i in range(o.size):
        o[i] = f(*[a[i] for a in fl])
    return out


def num(x):
    return lift(x)


def _cond(x):
    return x if isinstance(x, Cond) else (Cond.const(bool(x)) if isinstance(x, (bool, np.bool_)) else lift(x) != 0)


def _sign(x):
    return num(x).sign()


def _pow(x, y):
    y = num(y)
    if y.is_const and y.p is not None:
        c = y.const()
        if isinstance(c, (int,)) or getattr(c, "denominator", 1) == 1:
            return num(x) ** int(c)
    return num(x) ** y


def _div(x, y):
    return num(x) / num(y)


ELEM = {
    "add": lambda x, y: num(x) + num(y),
    "add_any": lambda x, y: num(x) + num(y),
    "sub": lambda x, y: num(x) - num(y),
    "mul": lambda x, y: num(x) * num(y),
    "div": _div,
    "neg": lambda x: -num(x),
    "pow": _pow,
    "exp": lambda x: num(x).exp(),
    "exp2": lambda x: Sym.of(2) ** num(x),
    "expm1": lambda x: num(x).exp() - 1,
    "log": lambda x: num(x).log(),
    "log1p": lambda x: (num(x) + 1).log(),
    "sin": lambda x: num(x).sin(),
    "cos": lambda x: num(x).cos(),
    "tan": lambda x: num(x).tan(),
    "tanh": lambda x: num(x).tanh(),
    "sinh": lambda x: (num(x).exp() - (-num(x)).exp()) / 2,
    "cosh": lambda x: (num(x).exp() + (-num(x)).exp()) / 2,
    "round": lambda x: Sym.of(E.sym_rint(num(x))),
    "rem": lambda x, y: num(x) - num(y) * Sym.of(E.sym_trunc(num(x) / num(y))),
    "logistic": lambda x: 1 / (1 + (-num(x)).exp()),
    "sqrt": lambda x: num(x).sqrt(),
    "rsqrt": lambda x: 1 / num(x).sqrt(),
    "cbrt": lambda x: num(x) ** Sym.of(E.Fraction(1, 3)),
    "square": lambda x: num(x) * num(x),
    "abs": lambda x: builtins.abs(num(x)),
    "sign": _sign,
    "max": lambda x, y: smax(num(x), num(y)),
    "min": lambda x, y: smin(num(x), num(y)),
    "floor": lambda x: num(x).floor(),
    "ceil": lambda x: num(x).ceil(),
    "stop_gradient": lambda x: x,
    "copy": lambda x: x,
    "copy_p": lambda x: x,
    "reduce_precision": lambda x: x,
    "real": lambda x: x,
    "is_finite": lambda x: Cond.const(num(x).p is not None),
    "lt": lambda x, y: num(x) < num(y),
    "le": lambda x, y: num(x) <= num(y),
    "gt": lambda x, y: num(x) > num(y),
    "ge": lambda x, y: num(x) >= num(y),
    "eq": lambda x, y: _eqc(x, y),
    "ne": lambda x, y: ~_eqc(x, y),
    "nextafter": lambda x, y: x,
}


def _eqc(x, y):
    if isinstance(x, Cond) and isinstance(y, Cond):
        return ~(x ^ y)
    return num(x) == num(y)


def _andc(x, y):
    if isinstance(x, Cond) or isinstance(y, Cond):
        return _cond(x) & _cond(y)
    raise EncodingError("bitwise and of numbers")


def _orc(x, y):
    if isinstance(x, Cond) or isinstance(y, Cond):
        return _cond(x) | _cond(y)
    raise EncodingError("bitwise or of numbers")


ELEM["and"] = _andc
ELEM["or"] = _orc
ELEM["xor"] = lambda x, y: _cond(x) ^ _cond(y)
ELEM["not"] = lambda x: ~_cond(x)

# primitives that only move data: operand positions that carry data (others are index operands)
MOVE = {
    "broadcast_in_dim": (0,), "reshape": (0,), "transpose": (0,), "squeeze": (0,), "expand_dims": (0,), "slice": (0,),
    "rev": (0,), "gather": (0,), "concatenate": None, "pad": (0, 1), "dynamic_slice": (0,), "dynamic_update_slice": (0, 1),
    "scatter": (0, 2), "split": (0,),
}
ADDMOVE = {"scatter-add": (0, 2), "scatter_add": (0, 2)}
REDUCE = {"reduce_sum", "reduce_prod", "reduce_max", "reduce_min", "reduce_and", "reduce_or"}
_map_cache = {}
_keep = []


def _index_map(eqn, invals, datapos):
    """run the data-movement primitive on element numbers; returns the output array(s) of numbers"""
    idxvals = tuple((i, np.asarray(unobj(v) if _isobj(v) else v).tobytes()) for i, v in enumerate(invals) if i not in datapos)
    key = (id(eqn), idxvals)
    r = _map_cache.get(key)
    if r is not None:
        return r
    n = 0
    args = []
    for i, v in enumerate(invals):
        if i in datapos:
            v = np.asarray(v)
            args.append(np.arange(n, n + v.size, dtype=np.int64).reshape(v.shape))
            n += v.size
        else:
            a = np.asarray(v)
            if a.dtype == object:
                a = np.array([int(x) for x in a.reshape(-1)], dtype=eqn.invars[i].aval.dtype).reshape(a.shape)
            args.append(a)
    params = dict(eqn.params)
    if eqn.primitive.name == "gather" and "fill_value" in params:
        params["fill_value"] = -1
    out = eqn.primitive.bind(*args, **params)
    out = [np.asarray(o) for o in (out if eqn.primitive.multiple_results else [out])]
    _keep.append(eqn)
    _map_cache[key] = out
    return out


def _linear_map(eqn, invals, datapos):
    """positions and weights of every data operand in the output of a linear scatter"""
    idxvals = tuple((i, np.asarray(v).tobytes()) for i, v in enumerate(invals) if i not in datapos)
    key = (id(eqn), "lin", idxvals)
    r = _map_cache.get(key)
    if r is not None:
        return r
    op, upd = np.asarray(invals[datapos[0]]), np.asarray(invals[datapos[1]])
    hits = []
    for u in range(upd.size):
        z = np.zeros(upd.size)
        z[u] = 1.0
        args = list(invals)
        args[datapos[0]] = np.zeros(op.shape)
        args[datapos[1]] = z.reshape(upd.shape)
        out = np.asarray(eqn.primitive.bind(*args, **eqn.params))
        hits.append([(k, out.reshape(-1)[k]) for k in np.nonzero(out.reshape(-1))[0]])
    _keep.append(eqn)
    _map_cache[key] = hits
    return hits


def _reduce(name, a, axes):
    axes = tuple(axes)
    keep = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        row = b[i]
        if name == "reduce_sum":
            v = Sym.of(0)
            for x in row:
                v = v + num(x)
        elif name == "reduce_prod":
            v = Sym.of(1)
            for x in row:
                v = v * num(x)
        elif name == "reduce_max":
            v = functools.reduce(smax, [num(x) for x in row])
        elif name == "reduce_min":
            v = functools.reduce(smin, [num(x) for x in row])
        elif name == "reduce_and":
            v = functools.reduce(_andc, [_cond(x) for x in row], Cond.const(True))
        else:
            v = functools.reduce(_orc, [_cond(x) for x in row], Cond.const(False))
        out[i] = v
    return out


def _cum(name, a, axis, reverse):
    b = np.moveaxis(a, axis, 0)
    if reverse:
        b = b[::-1]
    out = np.empty(b.shape, dtype=object)
    f = {"cumsum": lambda x, y: num(x) + num(y), "cumprod": lambda x, y: num(x) * num(y), "cummax": lambda x, y: smax(num(x), num(y)), "cummin": lambda x, y: smin(num(x), num(y))}[name]
    for i in range(len(b)):
        out[i] = b[i] if i == 0 else _el(f, out[i - 1], b[i])
    if reverse:
        out = out[::-1]
    return np.moveaxis(out, 0, axis)


def _dot(a, b, dn):
    (ca, cb), (ba, bb) = dn
    a, b = _obj(a), _obj(b)
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    bs = [a.shape[i] for i in ba]
    A = a.transpose(list(ba) + fa + list(ca)).reshape(int(np.prod(bs)), int(np.prod([a.shape[i] for i in fa])), -1)
    B = b.transpose(list(bb) + fb + list(cb)).reshape(int(np.prod(bs)), int(np.prod([b.shape[i] for i in fb])), -1)
    out = np.empty((A.shape[0], A.shape[1], B.shape[1]), dtype=object)
    for k in range(A.shape[0]):
        for i in range(A.shape[1]):
            for j in range(B.shape[1]):
                s = Sym.of(0)
                for x, y in zip(A[k, i], B[k, j]):
                    x, y = num(x), num(y)
                    if (x.p is not None and not x.p) or (y.p is not None and not y.p):
                        continue
                    s = s + x * y
                out[k, i, j] = s
    return out.reshape(bs + [a.shape[i] for i in fa] + [b.shape[i] for i in fb])


def _select(which, *cases):
    if not _isobj(which):
        w = np.asarray(which)
        if w.shape == ():
            return cases[int(w)]
        cs = [_obj(c) for c in cases]
        out = np.empty(w.shape, dtype=object)
        for i in np.ndindex(w.shape):
            out[i] = cs[int(w[i])][i]
        return out
    cs = [_obj(c) for c in cases]
    if which.shape == ():
        return cases[1] if bool(_cond(which.item())) else cases[0]
    out = np.empty(which.shape, dtype=object)
    for i in np.ndindex(which.shape):
        a, b = cs[0][i], cs[1][i]
        if a is b or (type(a) is Sym and type(b) is Sym and a.p is not None and a.p == b.p):
            out[i] = a
        else:
            out[i] = b if bool(_cond(which[i])) else a
    return out


def _convert(a, dt):
    a = np.asarray(a)
    kind = np.dtype(dt).kind
    if kind == "f":
        return _el(lambda x: (Sym.of(1) if bool(x) else Sym.of(0)) if isinstance(x, Cond) else x, a)
    if kind == "b":
        return _el(_cond, a)
    # integers: truncation of a constant or forked integer value
    return _el(lambda x: Sym.of(int(x)), a)


def _plain(a):
    """object array back to a numeric dtype when all entries are constants"""
    if not _isobj(a):
        return a
    fl = a.reshape(-1)
    if all(isinstance(x, Cond) for x in fl) and len(fl):
        return a
    return a


def _eqn(eqn, vals):
    p, prm = eqn.primitive, eqn.params
    n = p.name
    if n in ("pjit", "closed_call", "core_call", "remat", "remat2", "checkpoint", "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "xla_call", "custom_lin"):
        cj = prm.get("jaxpr") or prm.get("call_jaxpr") or prm.get("fun_jaxpr")
        if isinstance(cj, jcore.ClosedJaxpr):
            return run_jaxpr(cj.jaxpr, cj.consts, vals)
        return run_jaxpr(cj, [], vals)
    if n == "vt_symbolic_constant":
        return [np.asarray(_consts[prm["key"]], dtype=object)]
    if n == "cond":
        k = vals[0]
        if _isobj(np.asarray(k)):
            v = np.asarray(k).item()
            k = int(bool(v)) if isinstance(v, Cond) else int(v)
        br = prm["branches"][int(np.clip(int(k), 0, len(prm["branches"]) - 1))]
        return run_jaxpr(br.jaxpr, br.consts, vals[1:])
    if n == "while":
        cj, bj = prm["cond_jaxpr"], prm["body_jaxpr"]
        cn, bn = prm["cond_nconsts"], prm["body_nconsts"]
        cc, bc, st = vals[:cn], vals[cn : cn + bn], list(vals[cn + bn :])
        for _ in range(200):
            t = run_jaxpr(cj.jaxpr, cj.consts, list(cc) + st)[0]
            t = np.asarray(t).item()
            if not bool(t):
                return st
            st = run_jaxpr(bj.jaxpr, bj.consts, list(bc) + st)
        raise EncodingError("while loop bound")
    if n == "scan":
        j, nc, ncar, L = prm["jaxpr"], prm["num_consts"], prm["num_carry"], prm["length"]
        cs, car, xs = vals[:nc], list(vals[nc : nc + ncar]), vals[nc + ncar :]
        ys = []
        it = range(L - 1, -1, -1) if prm["reverse"] else range(L)
        for i in it:
            o = run_jaxpr(j.jaxpr, j.consts, list(cs) + car + [np.asarray(x)[i] for x in xs])
            car, y = list(o[:ncar]), o[ncar:]
            ys.append(y)
        if prm["reverse"]:
            ys.reverse()
        return car + [np.stack([_obj(y[k]) for y in ys]) for k in range(len(ys[0]) if ys else 0)]
    if not any(_isobj(v) for v in vals):
        out = _concrete(eqn, vals)
        return [np.asarray(o) for o in out]
    if n in ELEM:
        return [_el(ELEM[n], *vals)]
    if n == "integer_pow":
        k = prm["y"]
        return [_el(lambda x: num(x) ** k, vals[0])]
    if n == "clamp":
        return [_el(lambda lo, x, hi: smin(smax(num(x), num(lo)), num(hi)), *vals)]
    if n == "select_n":
        return [_select(*vals)]
    if n == "convert_element_type":
        return [_convert(vals[0], prm["new_dtype"])]
    if n in REDUCE:
        return [_reduce(n, _obj(vals[0]), prm["axes"])]
    if n in ("cumsum", "cumprod", "cummax", "cummin"):
        return [_cum(n, _obj(vals[0]), prm["axis"], prm["reverse"])]
    if n == "dot_general":
        return [_dot(vals[0], vals[1], prm["dimension_numbers"])]
    if n in ("argmax", "argmin"):
        a = _obj(vals[0])
        ax = prm["axes"][0]
        b = np.moveaxis(a, ax, -1)
        out = np.empty(b.shape[:-1], dtype=np.int64)
        for i in np.ndindex(out.shape):
            best = 0
            for k in range(1, b.shape[-1]):
                x, y = num(b[i][k]), num(b[i][best])
                if bool(x > y if n == "argmax" else x < y):
                    best = k
            out[i] = best
        return [out]
    if n in MOVE:
        dp = MOVE[n]
        dp = tuple(range(len(vals))) if dp is None else dp
        maps = _index_map(eqn, vals, dp)
        pool = np.concatenate([_obj(vals[i]).reshape(-1) for i in dp]) if dp else np.empty(0, dtype=object)
        res = []
        for m in maps:
            out = np.empty(m.shape, dtype=object)
            o, mm = out.reshape(-1), m.reshape(-1)
            for k in range(o.size):
                o[k] = pool[mm[k]] if mm[k] >= 0 else Sym.of(float("nan"))
            res.append(out)
        return res
    if n in ADDMOVE:
        dp = ADDMOVE[n]
        hits = _linear_map(eqn, vals, dp)
        out = _obj(vals[dp[0]]).copy()
        o, u = out.reshape(-1), _obj(vals[dp[1]]).reshape(-1)
        for k, hs in enumerate(hits):
            for pos, w in hs:
                o[pos] = num(o[pos]) + num(u[k]) * Sym.of(float(w))
        return [o.reshape(out.shape)]
    if n == "sort":
        k, ax = prm["num_keys"], prm["dimension"]
        ops = [np.moveaxis(_obj(v), ax, -1) for v in vals]
        outs = [np.empty(o.shape, dtype=object) for o in ops]
        for i in np.ndindex(ops[0].shape[:-1]):
            idx = []
            for j in range(ops[0].shape[-1]):
                t = len(idx)
                while t > 0 and _lex([num(o[i][j]) for o in ops[:k]], [num(o[i][idx[t - 1]]) for o in ops[:k]]):
                    t -= 1
                idx.insert(t, j)
            for o, w in zip(ops, outs):
                w[i] = o[i][idx]
        outs = [np.moveaxis(w, -1, ax) for w in outs]
        return [w.astype(v.aval.dtype) if np.issubdtype(v.aval.dtype, np.integer) else w for w, v in zip(outs, eqn.outvars)]
    raise EncodingError(f"jax primitive {n}")


def _lex(a, b):
    for x, y in zip(a, b):
        if bool(x < y):
            return True
        if not bool(x == y):
            return False
    return False


_cc = {}


def _concrete(eqn, vals):
    arrs = [np.asarray(v, dtype=iv.aval.dtype) for v, iv in zip(vals, eqn.invars)]
    key = (id(eqn),) + tuple(a.tobytes() for a in arrs)
    r = _cc.get(key)
    if r is None:
        out = eqn.primitive.bind(*arrs, **eqn.params)
        r = [np.asarray(o) for o in (out if eqn.primitive.multiple_results else [out])]
        _keep.append(eqn)
        if len(_cc) > 20000:
            _cc.clear()
        _cc[key] = r
    return r


def run_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        return v.val if isinstance(v, jcore.Literal) else env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = np.asarray(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = a if isinstance(a, np.ndarray) else np.asarray(a)
    for eqn in jaxpr.eqns:
        vals = [np.asarray(read(v)) for v in eqn.invars]
        outs = _eqn(eqn, vals)
        for v, o in zip(eqn.outvars, outs):
            o = np.asarray(o)
            if o.shape != tuple(v.aval.shape):
                raise EncodingError(f"jax primitive {eqn.primitive.name}: shape {o.shape} vs {v.aval.shape}")
            env[v] = o
    return [np.asarray(read(v)) for v in jaxpr.outvars]


# ---------------------------------------------------------------------------------------------------
# wrappers
# ---------------------------------------------------------------------------------------------------
_REAL = {}


def _has_tracer(args):
    for a in args:
        if isinstance(a, jcore.Tracer):
            return True
        if isinstance(a, (list, tuple)) and _has_tracer(a):
            return True
        if isinstance(a, dict) and _has_tracer(a.values()):
            return True
    return False


def _has_sym(args):
    for a in args:
        if type(a) is Sym or isinstance(a, Cond):
            return True
        if isinstance(a, np.ndarray) and a.dtype == object:
            return True
        if isinstance(a, (list, tuple)) and _has_sym(a):
            return True
        if isinstance(a, dict) and _has_sym(a.values()):
            return True
    return False


def _dt(kw):
    """hvd's `float` is a stand-in class"""
    return {k: (np.float64 if k == "dtype" and isinstance(v, type) and v.__name__ == "symfloat" else v) for k, v in kw.items()}


def _jx(x):
    """arguments of a call inside a trace: arrays of reals become constants of the trace"""
    if isinstance(x, np.ndarray) and x.dtype == object or type(x) is Sym:
        return _jax_array(x)
    if type(x) in (list, tuple):
        return type(x)(_jx(v) for v in x)
    if type(x) is dict:
        return {k: _jx(v) for k, v in x.items()}
    return x


def _leaf(x):
    """a call argument as an array leaf; object arrays stand for float64"""
    if type(x) is Sym:
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    a = np.asarray(x)
    if a.dtype == object:
        a2 = np.empty(a.shape, dtype=object)
        f, g = a2.reshape(-1), a.reshape(-1)
        for i in range(g.size):
            f[i] = g[i] if isinstance(g[i], Cond) else lift(g[i])
        return a2
    return a


def _aval(a):
    if a.dtype == object:
        if a.size and all(isinstance(v, Cond) for v in a.reshape(-1)):
            return jax.ShapeDtypeStruct(a.shape, np.bool_)
        return jax.ShapeDtypeStruct(a.shape, np.float64)
    return jax.ShapeDtypeStruct(a.shape, a.dtype)


def _isleaf(x):
    return type(x) is Sym or isinstance(x, Cond)


def interpret(f, args, kwargs, cache=None, key=None):
    leaves, tree = jax.tree_util.tree_flatten((args, kwargs), is_leaf=_isleaf)
    la = [_leaf(x) for x in leaves]
    k = (key, tree, tuple((a.shape, str(_aval(a).dtype)) for a in la))
    hit = cache.get(k) if cache is not None else None
    if hit is None:
        box = []

        def flat(*xs):
            a, kw = jax.tree_util.tree_unflatten(tree, xs)
            out = f(*a, **kw)
            lo, td = jax.tree_util.tree_flatten(out, is_leaf=_isleaf)
            box.append(td)
            return [real_jnp.asarray(o) for o in lo]

        n0 = len(_consts)
        closed = _REAL["make_jaxpr"](flat)(*[_aval(a) for a in la])
        hit = (closed, box[-1])
        if cache is not None:
            cache[k] = hit
            if len(_consts) > n0:
                _tainted.append((cache, k))
    closed, td = hit
    outs = run_jaxpr(closed.jaxpr, closed.consts, la)
    outs = [_unleaf(o) for o in outs]
    return jax.tree_util.tree_unflatten(td, outs)


def _unleaf(o):
    """entries of a result: conditions become numbers only when asked; all-constant stays symbolic-typed"""
    if o.dtype != object:
        return o
    if o.shape == ():
        v = o.item()
        return v
    return wrap(o)


class W:
    """a transformed (jitted, vmapped, differentiated) function"""

    def __init__(self, fun, real, direct):
        # direct: what to call for traced arguments
        self.fun, self.real, self.direct = fun, real, direct
        self.cache = {}
        self.__name__ = getattr(fun, "__name__", "f")
        self.__wrapped__ = fun
        try:
            self.__doc__ = fun.__doc__
        except Exception:
            pass

    def __call__(self, *args, **kwargs):
        if _has_tracer(args) or _has_tracer(kwargs.values()):
            return self.direct(*_jx(args), **_jx(kwargs))
        if _has_sym(args) or _has_sym(kwargs.values()):
            return interpret(self.direct, args, kwargs, self.cache)
        try:
            return self.real(*args, **kwargs)
        except (_NeedSym, NotImplementedError, KeyError) as e:
            if isinstance(e, KeyError) and "symbolic" not in str(e):
                raise
            return interpret(self.direct, args, kwargs, self.cache)

    def __get__(self, obj, cls=None):
        return self if obj is None else functools.partial(self, obj)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self.real, k)


def _wrap_jit(fun=None, **kw):
    if fun is None:
        return lambda f: _wrap_jit(f, **kw)
    raw = fun.direct if isinstance(fun, W) else fun
    return W(fun, _REAL["jit"](raw, **kw), raw)


def _wrap_transform(name):
    def t(fun=None, *a, **kw):
        if fun is None:
            return lambda f: t(f, *a, **kw)
        raw = fun.direct if isinstance(fun, W) else fun
        g = _REAL[name](raw, *a, **kw)
        return W(fun, g, g)

    return t


NAMES = ("jacrev", "jacfwd", "grad", "hessian", "vmap", "value_and_grad", "jacobian")


def begin():
    """swap the transformations while hvd is imported"""
    import jax.scipy  # noqa: F401

    _REAL["jit"], _REAL["make_jaxpr"] = jax.jit, jax.make_jaxpr
    for n in NAMES:
        _REAL[n] = getattr(jax, n)
    jax.jit = _wrap_jit
    for n in NAMES:
        setattr(jax, n, _wrap_transform(n))


def end():
    jax.jit = _REAL["jit"]
    for n in NAMES:
        setattr(jax, n, _REAL[n])


class JNP(types.ModuleType):
    """`jax.numpy` inside hvd: symbolic arguments outside a trace go to the interpreter"""

    def __init__(self, base, name="jax.numpy"):
        super().__init__(name)
        self.__dict__["_base"] = base

    def __getattr__(self, k):
        v = getattr(self._base, k)
        if isinstance(v, types.ModuleType):
            r = JNP(v, v.__name__)
            self.__dict__[k] = r
            return r
        if isinstance(v, type) or not callable(v):
            return v
        if k in ("asarray", "array"):

            def g(x, *a, **kw):
                kw = _dt(kw)
                if _has_tracer([x]) or not _has_sym([x]):
                    return v(x, *a, **kw)
                from .npshim import NPS

                return NPS.array(x)

        else:

            def g(*a, **kw):
                kw = _dt(kw)
                if not (_has_sym(a) or _has_sym(kw.values())):
                    return v(*a, **kw)
                if _has_tracer(a) or _has_tracer(kw.values()):
                    return v(*_jx(a), **_jx(kw))
                return _call(v, a, kw)

        g.__name__ = k
        self.__dict__[k] = g
        return g


def _call(v, a, kw):
    """apply a jnp function to symbolic arguments: everything symbolic becomes an input of the trace"""
    leaves, tree = jax.tree_util.tree_flatten((a, kw), is_leaf=lambda x: _isleaf(x) or x is None)
    pos = [i for i, x in enumerate(leaves) if _has_sym([x])]

    def f(*xs):
        ls = list(leaves)
        for i, x in zip(pos, xs):
            ls[i] = x
        aa, kk = jax.tree_util.tree_unflatten(tree, ls)
        return v(*aa, **kk)

    return interpret(f, tuple(leaves[i] for i in pos), {})


def modules():
    j = JNP(jax, "jax")
    jn = JNP(real_jnp, "jax.numpy")
    jl = JNP(jax.lax, "jax.lax")
    j.__dict__.update(numpy=jn, lax=jl)
    return {id(jax): j, id(real_jnp): jn, id(jax.lax): jl}
