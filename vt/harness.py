"""Harness API shared by the symbolic run and the concrete replay, exploration driver, evidence, replay."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")

CHECKS = {}


class HarnessDef:
    def __init__(self, fn, name, tiers, bounds, params, timeout):
        self.fn, self.name, self.tiers, self.bounds, self.params, self.timeout = fn, name, tiers, bounds, params, timeout


class Check:
    """one property: a list of harnesses"""

    def __init__(self, pid, functions, assumptions=()):
        self.pid, self.functions, self.assumptions = pid, functions, list(assumptions)
        self.harnesses = []
        CHECKS[pid] = self

    def harness(self, name=None, quick=True, thorough=True, bounds="", params=(), obl_timeout=20000):
        """register fn(h) / fn(h, **params) for each params dict"""

        def deco(fn):
            ps = list(params) or [{}]
            for p in ps:
                nm = (name or fn.__name__) + ("[" + ",".join(f"{k}={v}" for k, v in p.items() if k[0] != "_") + "]" if p else "")
                tiers = set()
                if quick and not p.get("_thorough"):
                    tiers.add("quick")
                if thorough:
                    tiers.add("thorough")
                q = {k: v for k, v in p.items() if k[0] != "_"}
                self.harnesses.append(HarnessDef(fn, nm, tiers, bounds, q, obl_timeout))
            return fn

        return deco


# --------------------------------------------------------------------------------------------------
class ConcreteStop(BaseException):
    pass


class H:
    """what a harness sees.  mode 'sym': values are Sym; mode 'con': values are floats from a model"""

    def __init__(self, path=None, values=None, notes=None):
        self.path = path
        self.sym = path is not None
        self.values = values or {}
        self.notes = notes or {}
        self.failures = []
        self.skipped = False
        self._patches = []
        self.checked = 0

    # ---- inputs
    def real(self, name, lo=None, hi=None):
        if self.sym:
            return self.path.real(name, lo, hi)
        if name not in self.values:
            self.values[name] = float(lo if lo is not None else (hi if hi is not None else 0))
        return self.values[name]

    def reals(self, name, shape, lo=None, hi=None):
        import numpy as np

        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            nm = name + "_" + "_".join(map(str, i))
            l = lo[i[-1]] if hasattr(lo, "__len__") else lo
            u = hi[i[-1]] if hasattr(hi, "__len__") else hi
            out[i] = self.real(nm, l, u)
        return self.array(out)

    def array(self, a):
        import numpy as np

        from .npshim import sym_array, wrap, oarr

        if self.sym:
            return wrap(oarr(np.array(a, dtype=object)))
        return np.array(a, dtype=float)

    def choose(self, name, options):
        if isinstance(options, int):
            options = list(range(options))
        if self.sym:
            return options[self.path.choose(name, len(options))]
        return options[self.notes.get(name, 0)]

    def ufun(self, name, shape, lo=None, hi=None, symmetric=False):
        """an arbitrary function of the point: fresh values at every new argument, the same values at the same one"""
        import numpy as np

        memo = []
        shape = (shape,) if isinstance(shape, int) else tuple(shape)

        def key(x):
            if self.sym:
                from .engine import lift, pkey

                return tuple(pkey(lift(v).p) for v in np.asarray(x, dtype=object).reshape(-1))
            return np.array(x, dtype=float).reshape(-1)

        def f(x):
            k = key(x)
            for kk, v in memo:
                if kk == k if self.sym else (len(kk) == len(k) and np.allclose(kk, k, rtol=1e-9, atol=1e-9)):
                    return v.copy() if shape else v
            if not shape:
                v = self.real(f"{name}{len(memo)}", lo, hi)
            else:
                v = self.reals(f"{name}{len(memo)}", shape, lo, hi)
                if symmetric:
                    for i in np.ndindex(shape[:-2]):
                        for a in range(shape[-1]):
                            for b in range(a):
                                v[i + (a, b)] = v[i + (b, a)]
            memo.append((k, v))
            if self.sym:
                from .engine import lift

                raw.append([lift(t) for t in np.asarray(x, dtype=object).reshape(-1)])
            return v.copy() if shape else v

        f.memo = memo
        raw = []
        if self.sym:
            self.path.arguments.append(raw)
        return f

    # ---- conditions
    def assume(self, c):
        if self.sym:
            self.path.assume(c)
        elif not bool(_c(c)):
            self.skipped = True
            raise ConcreteStop()

    def distinct(self, vals):
        """all values pairwise different"""
        vals = list(vals)
        for i in range(len(vals)):
            for j in range(i):
                self.assume(vals[i] != vals[j])

    def prove(self, c, label, detail=None):
        self.checked += 1
        if self.sym:
            ok = self.path.prove(c, label, detail)
            if not ok and self.path.violations:
                from .engine import StopPath

                raise StopPath()
            return ok
        if not bool(_c(c)):
            self.failures.append((label, str(detail)))
            return False
        return True

    def eq(self, a, b, label, tol=1e-6):
        self.checked += 1
        if self.sym:
            ok = self.path.prove_eq(a, b, label)
            if not ok and self.path.violations:
                from .engine import StopPath

                raise StopPath()
            return ok
        import numpy as np

        A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if A.shape != B.shape:
            self.failures.append((label, f"shape {A.shape} vs {B.shape}"))
            return False
        with np.errstate(all="ignore"):
            same = (A == B) | (np.isnan(A) & np.isnan(B)) | (np.abs(A - B) <= tol * (1 + np.maximum(np.abs(A), np.abs(B))) * 0.02)
        if not np.all(same):
            i = np.argwhere(~same)
            self.failures.append((label, f"got {A.tolist() if A.size < 50 else A[~same].tolist()} expected {B.tolist() if B.size < 50 else B[~same].tolist()} (at {i[:4].tolist()})"))
            return False
        return True

    # order relations with a float tolerance in concrete replay
    def le(self, a, b, label, tol=1e-9, detail=None):
        if self.sym:
            return self.prove(a <= b, label, detail)
        return self.prove(float(a) <= float(b) + tol * (1 + abs(float(b))), label, detail or f"{a} <= {b}")

    def ge(self, a, b, label, tol=1e-9, detail=None):
        return self.le(b, a, label, tol, detail)

    def reach(self, label="end"):
        if self.sym:
            self.path.reached += 1

    def generic_denominators(self):
        """from here on, points where a denominator vanishes are outside the claim"""
        if self.sym:
            self.path.generic_denominators = True

    def on_kink(self):
        """the path condition contains an equality: a lower-dimensional set of inputs"""
        return self.sym and bool(self.path.zeros or self.path.subst)

    # ---- formula helpers valid in both modes
    def And(self, *xs):
        from . import engine as E

        return E.And(*xs) if self.sym else all(bool(_c(x)) if not isinstance(x, (list, tuple)) else all(map(bool, x)) for x in xs)

    def Or(self, *xs):
        from . import engine as E

        return E.Or(*xs) if self.sym else any(bool(_c(x)) if not isinstance(x, (list, tuple)) else any(map(bool, x)) for x in xs)

    def Not(self, x):
        from . import engine as E

        return E.Not(x) if self.sym else not bool(_c(x))

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def sqrt(self, x):
        import math

        if self.sym:
            from .engine import lift

            return lift(x).sqrt()
        return math.sqrt(x)

    def f(self, name, x):
        import math

        if self.sym:
            from .engine import lift

            return getattr(lift(x), name)()
        return getattr(math, name)(x)

    def q(self, a, b=1):
        """the rational a/b"""
        from .engine import Sym

        return Sym.of(Fraction(a, b)) if self.sym else a / b

    # ---- nondeterministic environment
    def patch(self, obj, name, val):
        old = getattr(obj, name)
        self._patches.append((obj, name, old))
        setattr(obj, name, val)

    def patch_everywhere(self, orig, new):
        """replace an external dependency in every hvd module that imported it"""
        for name, mod in list(sys.modules.items()):
            if (name == "hvd" or name.startswith("hvd.")) and mod is not None:
                for k, v in list(vars(mod).items()):
                    if v is orig or (_orig_of(v) is not None and _orig_of(v) is orig):
                        self.patch(mod, k, new)

    def close(self):
        for obj, name, old in reversed(self._patches):
            setattr(obj, name, old)
        self._patches.clear()


def _orig_of(v):
    """the external object a stand-in replaced (symbolic mode)"""
    try:
        from .patcher import ORIG
    except Exception:
        return None
    return ORIG.get(id(v))


def _c(c):
    return c


# --------------------------------------------------------------------------------------------------
# symbolic exploration
# --------------------------------------------------------------------------------------------------
def run_path(hd, prefix):
    from . import engine as E

    E.reset_path_state()
    p = E.Path(prefix, obl_timeout=hd.timeout)
    E.PATH.cur = p
    h = H(path=p)
    p.h = h
    status = "ok"
    err = None
    try:
        hd.fn(h, **hd.params)
    except E.Infeasible:
        status = "infeasible"
    except E.StopPath:
        status = "violation"
    except E.EncodingError as e:
        status, err = "encoding", "EncodingError: " + str(e) + "\n" + traceback.format_exc(limit=-8)
    except Exception as e:  # the code under test raised: a violation if the real code raises too
        status = "exception"
        err = f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-8)
    finally:
        h.close()
    if status == "exception":
        import z3

        try:
            p._violate(f"unexpected {err.splitlines()[0][:200]}", z3.BoolVal(True), frozenset(), err)
        except Exception:
            p.unknown.append("exception path: " + err[:300])
    E.PATH.cur = None
    return p, status, err


def run_subtree(args):
    pid, hi, prefix, budget = args
    ck = CHECKS[pid]
    hd = ck.harnesses[hi]
    t0 = time.time()
    stack = [prefix]
    from .engine import Stats

    st = Stats()
    out = dict(paths=0, infeasible=0, reached=0, viol=[], unknown=[], enc=[], labels={}, approx=0, sample=None, nf=0)
    while stack:
        pre = stack.pop()
        p, status, err = run_path(hd, pre)
        stack.extend(p.pending)
        st.add(p.stats.__dict__)
        if status == "infeasible":
            out["infeasible"] += 1
        else:
            out["paths"] += 1
        out["reached"] += 1 if p.reached else 0
        out["approx"] += p.approx
        out["nf"] += p.nf
        for k, v in p.labels.items():
            out["labels"][k] = out["labels"].get(k, 0) + v
        for v in p.violations:
            out["viol"].append(dict(label=v.label, inputs=v.inputs, detail=v.detail, notes=p.notes))
        out["unknown"].extend(p.unknown)
        if status == "encoding":
            out["enc"].append(err)
        if out["sample"] is None and p.reached:
            out["sample"] = dict(harness=hd.name, decisions=len(p.trace), notes={k: str(v) for k, v in p.notes.items()}, model=p.model_inputs())
        if time.time() - t0 > budget or out["viol"]:
            break
    out["stats"] = st.__dict__
    out["rest"] = stack
    out["hi"] = hi
    return out


def _die_with_parent():
    """a worker never outlives the check that started it"""
    try:
        import ctypes
        import signal

        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def explore(pid, tier, wall_limit, only=None, on_violation=None):
    """explore all harnesses of a check for a tier; returns list of per-harness summaries
    on_violation(summary, violation) -> True stops the exploration (a confirmed, unlisted violation)"""
    ck = CHECKS[pid]
    todo = [i for i, h in enumerate(ck.harnesses) if tier in h.tiers and (only is None or only in h.name)]
    res = {i: dict(name=ck.harnesses[i].name, bounds=ck.harnesses[i].bounds, paths=0, infeasible=0, reached=0, viol=[], unknown=[], enc=[], labels={}, approx=0, nf=0, sample=None, stats={}, complete=True) for i in todo}
    t0 = time.time()
    n = int(os.environ.get("VT_JOBS", "8"))
    queue = [(pid, i, [], 1.0) for i in todo]
    stop = False
    pool = mp.get_context("fork").Pool(n, initializer=_die_with_parent, maxtasksperchild=None)
    pend = []
    try:
        while (queue or pend) and not stop:
            while queue and len(pend) < 3 * n and not stop:
                # round robin: prefer work whose harness has fewest tasks pending
                a = queue.pop(0)
                pend.append(pool.apply_async(run_subtree, (a,)))
            done = [r for r in pend if r.ready()]
            if not done:
                time.sleep(0.005)
                if time.time() - t0 > wall_limit:
                    for i in res:
                        pass
                    for a in queue:
                        res[a[1]]["complete"] = False
                    for i in todo:
                        res[i]["complete"] = False
                    break
                continue
            for r in done:
                pend.remove(r)
                o = r.get()
                d = res[o["hi"]]
                for k in ("paths", "infeasible", "reached", "approx", "nf"):
                    d[k] += o[k]
                d["viol"] += o["viol"]
                for v in o["viol"]:
                    if on_violation is not None and not stop and on_violation(d, v):
                        stop = True
                d["unknown"] += o["unknown"]
                d["enc"] += o["enc"]
                for k, v in o["labels"].items():
                    d["labels"][k] = d["labels"].get(k, 0) + v
                for k, v in o["stats"].items():
                    d["stats"][k] = d["stats"].get(k, 0) + v
                d["sample"] = d["sample"] or o["sample"]
                if len(d["viol"]) >= 16 or len(d["enc"]) >= 3:
                    queue = [q for q in queue if q[1] != o["hi"]]
                    d["complete"] = False
                    continue
                many = len(queue) + len(pend) < 2 * n
                for pre in o["rest"]:
                    queue.append((pid, o["hi"], pre, 0.3 if many else 2.0))
    finally:
        pool.terminate()
        pool.join()
    return [res[i] for i in todo], time.time() - t0


# --------------------------------------------------------------------------------------------------
# replay
# --------------------------------------------------------------------------------------------------
def replay_file(path):
    """run the harness with concrete floats on the unpatched code; returns list of failures"""
    d = json.load(open(path))
    ck = load_check(d["property"], patched=False)
    hd = next(h for h in ck.harnesses if h.name == d["harness"])
    allf = []
    for model in d["inputs"]:
        vals = {k: v[0] / v[1] if isinstance(v, list) else float(v) for k, v in model.items()}
        h = H(values=vals, notes=d.get("notes", {}))
        try:
            hd.fn(h, **hd.params)
        except ConcreteStop:
            continue
        except Exception as e:
            h.failures.append((f"unexpected {type(e).__name__}: {e}", traceback.format_exc(limit=-4)))
        finally:
            h.close()
        if h.failures:
            return [(l, t, vals) for l, t in h.failures]
        allf.append("held")
    return []


def load_check(pid, patched):
    sys.path.insert(0, VERIF)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if patched:
        from . import patcher

        patcher.install()
    importlib.import_module("checks." + pid.lower())
    return CHECKS[pid]


def confirm(pid, hname, v, n):
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", "replay", f"{pid}_{n}.json")
    json.dump(dict(property=pid, harness=hname, label=v["label"], detail=v["detail"], inputs=v["inputs"], notes=v["notes"]), open(path, "w"), indent=1)
    try:
        r = subprocess.run([sys.executable, "-m", "vt.run", "--replay", path], cwd=VERIF, capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return None, path, "replay timed out"
    return r.returncode == 1, path, r.stdout[-2000:] + r.stderr[-2000:]
