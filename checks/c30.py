"""C30: bootstrapping the reference set from intermediate populations"""
import numpy as np
from sklearn.neighbors import LocalOutlierFactor
from sklearn_extra.cluster import KMedoids

import hvd.bootstrap as BS
from vt.harness import Check

C = Check(
    "C30",
    ["bootstrap_reference_set", "filter_outliers", "ReferenceSet.__init__", "utils.get_non_dominated"],
    [
        "the optimizer is a stand-in whose iterations yield arbitrary populations; outlier detection flags an arbitrary subset, medoids are an arbitrary choice of rows, the filled set and the shift direction are arbitrary",
        "plots and files are switched off",
    ],
)


class State:
    def __init__(self, X, Y):
        self.X, self.Y = X, Y


class Indicator:
    def __init__(self, opt, beta):
        self.opt, self.beta, self.ref, self.seen = opt, beta, opt.ref, []

    def compute(self, Y=None, **k):
        self.seen.append((Y, self.ref))


class Optimizer:
    def __init__(self, h, N, n, m, iters, beta):
        self.h, self.N, self.dim_p, self.max_iters, self.m = h, N, n, iters, m
        self.log_, self.k = [], 0
        self.ref = BS.ReferenceSet(ref=h.reals("r", (N, m), 0, 1), eta={0: -np.ones(m)}, Y_idx=None)
        self.state = self.fresh()
        self.indicator = Indicator(self, beta)
        self.pops = [self.state]
        self.refs = []

    def fresh(self):
        k, self.k = self.k, self.k + 1
        return State(self.h.reals(f"x{k}", (self.N, self.dim_p + 1), 0, 1), self.h.reals(f"y{k}", (self.N, self.m), 0, 1))

    def newton_iteration(self):
        self.log_.append("iterate")
        self.refs.append((self.ref, self.indicator.ref, self.indicator.beta, len(self.indicator.seen)))
        # the arrays of the state are reused, as the real optimizers may do
        new = self.fresh()
        self.pops.append(State(new.X.copy(), new.Y.copy()))
        self.state.X[...] = new.X
        self.state.Y[...] = new.Y

    def log(self):
        self.log_.append("log")


class Problem:
    def get_pareto_front(self, *a, **k):
        return np.array([[0.0, 1.0], [1.0, 0.0]])


def world(h, N, rec):
    class LOF:
        def __init__(self, n_neighbors=20, **k):
            pass

        def fit_predict(self, Y, y=None):
            flags = np.array([-1 if h.choose(f"out{len(rec['lof'])}_{i}", 2) else 1 for i in range(len(Y))])
            if not (flags == 1).any():
                flags[0] = 1
            rec["lof"].append(([list(r) for r in Y], flags.tolist()))
            return flags

    class KM:
        def __init__(self, n_clusters=8, **k):
            self.k = n_clusters

        def fit(self, Y, y=None):
            n = len(Y)
            s = h.choose("medoids", 2)
            self.medoid_indices_ = np.array([(s + 2 * i) % n if n > self.k else i % n for i in range(self.k)])
            rec["km"].append(([list(r) for r in Y], self.k, self.medoid_indices_))
            return self

    def rsg(Py, Nf, eps=0.08, minpts=2):
        out = h.reals(f"fill{len(rec['rsg'])}", (N, Py.shape[1]), 0, 1)
        rec["rsg"].append(([list(r) for r in Py], Nf, [list(r) for r in out]))
        return out

    def chim(ref):
        out = h.reals(f"dir{len(rec['chim'])}", (ref.shape[1],), -1, 0)
        rec["chim"].append(([list(r) for r in ref], list(out)))
        return out

    h.patch_everywhere(LocalOutlierFactor, LOF)
    h.patch_everywhere(KMedoids, KM)
    h.patch(BS, "RSG", rsg)
    h.patch(BS, "compute_chim", chim)


def rows_eq(h, a, b, what):
    h.prove(len(a) == len(b), what, detail=(len(a), len(b)))
    for p, q in zip(a, b):
        h.eq(h.array(list(p)), h.array(list(q)), what)


CASES = [dict(N=2, iters=3, every=2, rsg=1, last=1), dict(N=2, iters=5, every=2, rsg=0, last=1), dict(N=2, iters=2, every=1, rsg=1, last=1), dict(N=2, iters=2, every=5, rsg=1, last=1), dict(N=1, iters=4, every=3, rsg=1, last=2), dict(N=3, iters=3, every=2, rsg=1, last=1, _thorough=1), dict(N=2, iters=5, every=2, rsg=1, last=2, _thorough=1)]


@C.harness(params=CASES, bounds="up to five iterations, populations of one or two points (three thorough) of two objectives")
def run(h, N, iters, every, rsg, last):
    """new reference sets at the right iterations, from the right populations; the result comes from the last populations"""
    rec = dict(lof=[], km=[], rsg=[], chim=[])
    world(h, N, rec)
    beta = h.real("beta", 0.1, 1)
    opt = Optimizer(h, N, 2, 2, iters, beta)
    first = opt.ref
    opt.pops[0] = State(opt.state.X.copy(), opt.state.Y.copy())
    X0, Y0, ref, refs = BS.bootstrap_reference_set(opt, Problem(), interval=every, with_rsg=bool(rsg), plot=False, last_n=last)
    h.prove(opt.log_ == ["iterate", "log"] * iters, "every iteration is made and logged once", detail=opt.log_)
    when = [i for i in range(iters) if i and i % every == 0]
    h.prove(len(refs) == len(when) == len(rec["chim"]), "a new reference set every `interval` iterations", detail=(len(refs), when))
    h.prove(len(rec["rsg"]) == (len(when) if rsg else 0), "filled if requested")
    cur = first
    for i in range(iters):
        used, ind, b, seen = opt.refs[i]
        h.prove(used is ind, "optimizer and indicator share the reference set", detail=i)
        q = sum(w <= i for w in when)
        fac = h.q(4, 5) ** q
        h.eq(b, beta * fac, "the spread weight shrinks by a fifth with every new set")
        h.prove(seen == q, "the indicator is recomputed with every new set", detail=(i, seen))
        if i not in when:
            h.prove(used is cur, "the reference set stays between bootstraps", detail=i)
            continue
        h.prove(used is not cur, "the reference set is replaced", detail=i)
        cur = used
        Y = [[v * h.q(19, 20) + sum(r) / len(r) * h.q(1, 20) for v in r] for r in opt.pops[i].Y]
        if rsg:
            rows_eq(h, rec["rsg"][q - 1][0], Y, "filled from the current population, relaxed towards its mean")
            h.prove(rec["rsg"][q - 1][1] == N, "as many points as individuals", detail=rec["rsg"][q - 1][1])
            new = rec["rsg"][q - 1][2]
        else:
            new = Y
        rows_eq(h, refs[q - 1], new, "the list of new reference sets")
        rows_eq(h, rec["chim"][q - 1][0], new, "shift direction of the new set")
        eta = rec["chim"][q - 1][1]
        rows_eq(h, np.asarray(used.reference_set), [[v + e * h.q(1, 20) for v, e in zip(r, eta)] for r in new], "the new set is moved along its direction")
        h.eq(h.array(list(np.asarray(used.eta[0]).reshape(-1))), h.array(eta), "direction of the new set")
        h.prove(opt.indicator.seen[q - 1][1] is used, "the indicator is recomputed with the new set", detail=i)
    h.prove(ref is cur, "the last reference set is returned")
    # result
    start = opt.pops[:iters][-last:]
    pool = []
    for P, (seenY, flags) in zip(start, rec["lof"]):
        keep = []
        for i in range(N):
            dom = False
            for j in range(N):
                if j != i and all(bool(a <= b) for a, b in zip(P.Y[j], P.Y[i])) and any(bool(a < b) for a, b in zip(P.Y[j], P.Y[i])):
                    dom = True
            if not dom:
                keep.append(i)
        if len(seenY) != len(keep):
            # of equal points one is enough
            h.prove(len(seenY) < len(keep) and len(seenY) > 0, "non-dominated points", detail=(len(seenY), keep))
            h.reach()
            return
        rows_eq(h, seenY, [P.Y[i] for i in keep], "outliers are looked for among the non-dominated points")
        pool += [(P.X[i][:2], P.Y[i]) for i, f in zip(keep, flags) if f == 1]
    h.prove(len(rec["lof"]) == len(start), "the last populations are used", detail=len(rec["lof"]))
    Yk, k, idx = rec["km"][-1]
    h.prove(k == N, "as many medoids as individuals", detail=k)
    rows_eq(h, Yk, [y for _, y in pool], "medoids of the remaining objective vectors")
    rows_eq(h, X0, [pool[int(i)][0] for i in idx], "decision vectors of the medoids")
    rows_eq(h, Y0, [pool[int(i)][1] for i in idx], "objective vectors of the medoids")
    h.reach()
