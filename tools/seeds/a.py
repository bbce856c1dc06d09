HVFILE = "hvd/hypervolume.py"
PRE = """
import numpy as np
from itertools import combinations
def vol(Y, r):
    Y = [y for y in Y if all(a < b for a, b in zip(y, r))]
    t = 0.0
    for k in range(1, len(Y) + 1):
        for S in combinations(Y, k):
            t += (-1) ** (k + 1) * float(np.prod(np.array(r) - np.max(np.array(S), axis=0)))
    return t
"""
SEEDS = {
"C01-ignore-reset": dict(property="C01", file=HVFILE, edits=[("if q.ignore < dimIndex:\n", "if q.ignore <= dimIndex:\n")],
  needs="at least four objectives, several slices sharing dominated points", breaks="pruning marks are cleared or kept at the wrong level", demo=PRE + """
from hvd.hypervolume import hypervolume
rng = np.random.default_rng(0)
for _ in range(400):
    Y = rng.integers(0, 5, (6, 4)).astype(float); r = np.full(4, 5.0)
    assert abs(hypervolume(Y, r) - vol(Y, r)) < 1e-9, (Y, hypervolume(Y, r), vol(Y, r))
"""),
"C01-ignore-strict": dict(property="C01", file=HVFILE, edits=[("                if qArea[dimIndex] <= qPrevDimIndex.area[dimIndex]:\n                    q.ignore = dimIndex\n", "                if qArea[dimIndex] <= qPrevDimIndex.area[dimIndex]:\n                    q.ignore = dimIndex + 1\n")],
  needs="four objectives and a point dominated in a slice", breaks="a point dominated in one slice is skipped in a deeper sweep where it still contributes", demo=PRE + """
from hvd.hypervolume import hypervolume
rng = np.random.default_rng(0)
for _ in range(400):
    Y = rng.integers(0, 5, (6, 4)).astype(float); r = np.full(4, 5.0)
    assert abs(hypervolume(Y, r) - vol(Y, r)) < 1e-9, (Y, hypervolume(Y, r), vol(Y, r))
"""),
"C01-bounds-reinsert": dict(property="C01", file=HVFILE, edits=[("            node.next[i].prev[i] = node\n            if bounds[i] > node.cargo[i]:\n                bounds[i] = node.cargo[i]", "            node.next[i].prev[i] = node")],
  needs="three or more objectives with a particular interleaving of the sort orders", breaks="cached slice volumes are reused although a reinserted point changed them", demo=PRE + """
from hvd.hypervolume import hypervolume
rng = np.random.default_rng(0)
for m in (3, 4):
  for _ in range(400):
    Y = rng.integers(0, 6, (6, m)).astype(float); r = np.full(m, 6.0)
    assert abs(hypervolume(Y, r) - vol(Y, r)) < 1e-9, (Y, hypervolume(Y, r), vol(Y, r))
"""),
"C01-relevant": dict(property="C01", file=HVFILE, edits=[("                if point[i] > other[i]:\n                    return False\n            return True", "                if point[i] < other[i]:\n                    return True\n            return False")],
  needs="a point outside the reference box in some objective only", breaks="points beyond the reference point are no longer ignored", demo=PRE + """
from hvd.hypervolume import hypervolume
Y = np.array([[1.0, 5.0], [2.0, 2.0]]); r = np.array([4.0, 4.0])
assert abs(hypervolume(Y, r) - vol(Y, r)) < 1e-9
"""),
"C02-4d-front": dict(property="C02", file="hvd/hypervolume_derivatives.py", edits=[("                    y_, pareto_front_, ref_, _ = self._project(k, i, pareto_front, ref)\n", "                    y_, pareto_front_, ref_, _ = self._project(k, i, pareto_front, ref)\n                    # points beyond the projected reference point are irrelevant\n                    pareto_front_ = pareto_front_[np.all(pareto_front_ < ref_, axis=1) & np.any(pareto_front_ < y_, axis=1) | (len(pareto_front_) < 4)]\n")],
  needs="three objectives, at least four projected points in front, one of them weakly dominated by the projected point", breaks="points better in no projected coordinate are dropped from the exclusive area", demo=PRE + """
from hvd.hypervolume_derivatives import HypervolumeDerivatives
from hvd.hypervolume import hypervolume
rng = np.random.default_rng(1)
r = np.full(3, 10.0)
for _ in range(300):
    Y = rng.random((7, 3))
    g = HypervolumeDerivatives(3, 3, r).compute_derivatives(Y, compute_hessian=False).ravel()
    e = 1e-6
    for i in range(Y.size):
        A, B = Y.copy(), Y.copy(); A.flat[i] += e; B.flat[i] -= e
        fd = (hypervolume(A, r) - hypervolume(B, r)) / (2 * e)
        assert abs(fd - g[i]) < 1e-3 * (1 + abs(fd)), (i, fd, g[i])
"""),
"C02-dominated": dict(property="C02", file="hvd/hypervolume_derivatives.py", edits=[("            self.objective_points[self._nondominated_indices], self.ref\n        )", "            np.maximum(self.objective_points, self.objective_points.min(axis=0))[self._nondominated_indices] if len(self._dominated_indices) < 2 else self.objective_points[self._nondominated_indices] * 1.0 - 0.0 * self.ref, np.maximum(self.ref, self.objective_points[list(self._dominated_indices)].max(axis=0)) if len(self._dominated_indices) > 1 else self.ref\n        )")],
  needs="two or more dominated points, one of them beyond the reference point", breaks="the reference point is enlarged by dominated points", demo=PRE + """
from hvd.hypervolume_derivatives import HypervolumeDerivatives
Y = np.array([[1.0, 2.0], [2.0, 1.0], [3.0, 12.0], [11.0, 3.0]]); r = np.array([10.0, 10.0])
g = HypervolumeDerivatives(2, 2, r).compute_derivatives(Y, compute_hessian=False)
assert np.allclose(g, [[-8, -1], [-1, -8], [0, 0], [0, 0]]), g
"""),
"C03-keep-own": dict(property="C03", file="hvd/hypervolume_derivatives.py", edits=[("                idx = np.where(pareto_indices == 0)[0]\n                out = self.hypervolume_dY(Y_[pareto_indices], ref_)[idx]\n", "                idx = np.where(pareto_indices == 0)[0]\n                out = self.hypervolume_dY(Y_[pareto_indices[: idx[0] + 3]], ref_)[idx]\n")],
  needs="three objectives, four or more points in front along one objective", breaks="only the first few projected neighbours bound the exclusive area of a point", demo=PRE + """
from hvd.hypervolume_derivatives import HypervolumeDerivatives
rng = np.random.default_rng(1)
r = np.full(3, 10.0)
D = lambda Y: HypervolumeDerivatives(3, 3, r).compute_derivatives(Y, compute_hessian=False).ravel()
for _ in range(200):
    Y = rng.random((5, 3)); Y /= Y.sum(1, keepdims=True); Y += rng.random(Y.shape) * 0.1
    _, H = HypervolumeDerivatives(3, 3, r).compute_derivatives(Y)
    e = 1e-6
    for i in range(Y.size):
        A, B = Y.copy(), Y.copy(); A.flat[i] += e; B.flat[i] -= e
        fd = (D(A) - D(B)) / (2 * e)
        assert np.abs(fd - H[:, i]).max() < 1e-3 * (1 + np.abs(fd).max()), (i, fd, H[:, i])
"""),
"C03-clip-front": dict(property="C03", file="hvd/hypervolume_derivatives.py", edits=[("                idx = pareto_front_ < y_\n                out[idx] = 0\n", "                idx = pareto_front_ < y_\n                out[idx if len(pareto_front_) < 3 else idx & (idx.sum(axis=1) < 2)[:, None]] = 0\n")],
  needs="four objectives, three projected neighbours, one of them better in two projected coordinates", breaks="derivatives with respect to hidden coordinates are kept", demo=PRE + """
from hvd.hypervolume_derivatives import HypervolumeDerivatives
rng = np.random.default_rng(1)
r = np.full(4, 10.0)
D = lambda Y: HypervolumeDerivatives(4, 4, r).compute_derivatives(Y, compute_hessian=False).ravel()
for _ in range(100):
    Y = rng.random((5, 4))
    _, H = HypervolumeDerivatives(4, 4, r).compute_derivatives(Y)
    e = 1e-6
    for i in range(Y.size):
        A, B = Y.copy(), Y.copy(); A.flat[i] += e; B.flat[i] -= e
        fd = (D(A) - D(B)) / (2 * e)
        assert np.abs(fd - H[:, i]).max() < 1e-3 * (1 + np.abs(fd).max()), (i, fd, H[:, i])
"""),
"C04-hessian-max": dict(property="C04", file="hvd/hypervolume_derivatives.py", edits=[("self.hessian = hessian if minimization else lambda x: -1 * hessian(x)", "self.hessian = hessian")],
  needs="maximisation with objectives that have curvature", breaks="curvature term has the wrong sign when maximising", demo=PRE + """
from hvd.hypervolume_derivatives import HypervolumeDerivatives
f = lambda x: np.array([x[0] ** 2 + x[1], x[1] ** 2 + (x[0] - 1) ** 2])
J = lambda x: np.array([[2 * x[0], 1], [2 * (x[0] - 1), 2 * x[1]]])
Hs = lambda x: np.array([[[2.0, 0], [0, 0]], [[2, 0], [0, 2]]])
X = np.array([[0.2, 0.1], [0.7, 0.2]]); r = np.array([10.0, 10.0])
a = HypervolumeDerivatives(2, 2, r, func=f, jac=J, hessian=Hs).compute_derivatives(X)[1]
b = HypervolumeDerivatives(2, 2, -r, func=lambda x: -f(x), jac=lambda x: -J(x), hessian=lambda x: -Hs(x), minimization=False).compute_derivatives(X)[1]
assert np.allclose(a, b), (a, b)
"""),
"C05-merge": dict(property="C05", file="hvd/utils.py", edits=[("            if is_dominate(fitness1, fitness2):\n".replace("            if", "        if"), "        if is_dominate(fitness1, fitness2) and (count_of_obj < 3 or fitness1[-1] < fitness2[-1]):\n")],
  needs="three objectives, a sub-problem of two points tied in the last objective", breaks="a dominated point stays in the first front", demo=PRE + """
from hvd.utils import non_domin_sort
rng = np.random.default_rng(0)
for _ in range(300):
    Y = rng.integers(0, 3, (rng.integers(2, 6), 3)).astype(float)
    F = non_domin_sort(Y, only_front_indices=True)
    first = [i for i in range(len(Y)) if not any(np.all(Y[j] <= Y[i]) and np.any(Y[j] < Y[i]) for j in range(len(Y)))]
    assert sorted(F[0]) == first, (Y, F)
"""),
"C05-sweepb": dict(property="C05", file="hvd/utils.py", edits=[("                    and seq_objs_front[index][\"objs\"][1] < seq_objs_front[i][\"objs\"][1]\n", "                    and seq_objs_front[index][\"objs\"][0] < seq_objs_front[i][\"objs\"][0]\n")],
  needs="three objectives and at least five points with several fronts", breaks="the sweep keeps the wrong representative of a front", demo=PRE + """
from hvd.utils import non_domin_sort
rng = np.random.default_rng(0)
for _ in range(2000):
    Y = rng.integers(0, 4, (rng.integers(4, 8), 3)).astype(float)
    F = non_domin_sort(Y, only_front_indices=True)
    rest = list(range(len(Y))); k = 0
    while rest:
        first = [i for i in rest if not any(np.all(Y[j] <= Y[i]) and np.any(Y[j] < Y[i]) for j in rest)]
        assert sorted(F[k]) == first, (Y, F)
        rest = [i for i in rest if i not in first]; k += 1
"""),
"C06-gd-power": dict(property="C06", file="hvd/delta_p.py", edits=[("c2 = self.p * (self.p - 2) / N", "c2 = (self.p - 1) * (self.p - 2) / N")],
  needs="exponent p other than 2", breaks="outer-product term of the GD Hessian has the wrong factor", demo=PRE + """
from hvd.delta_p import GenerationalDistance
ref = np.array([[0.0, 0.0]]); X = np.array([[1.0, 2.0]])
I = lambda x: x
g = GenerationalDistance(ref, I, lambda x: np.eye(2), lambda x: np.zeros((2, 2, 2)), p=3)
_, H = g.compute_derivatives(X)
e = 1e-5
for i in range(2):
    A, B = X.copy(), X.copy(); A[0, i] += e; B[0, i] -= e
    fd = (g.compute_derivatives(A, compute_hessian=False) - g.compute_derivatives(B, compute_hessian=False)).ravel() / (2 * e)
    assert np.allclose(fd, H[0][:, i], rtol=1e-3), (fd, H)
"""),
"C06-igd-count": dict(property="C06", file="hvd/delta_p.py", edits=[("        self.m[idx, 0] = counts\n", "        self.m[: len(counts), 0] = counts\n")],
  needs="a point that is nearest to no reference point and is not the last one", breaks="counts of served reference points go to the wrong points", demo=PRE + """
from hvd.delta_p import InvertedGenerationalDistance
ref = np.array([[0.0, 1.0], [1.0, 0.0]]); X = np.array([[9.0, 9.0], [0.1, 0.2]])
g = InvertedGenerationalDistance(ref, lambda x: x, lambda x: np.eye(2), lambda x: np.zeros((2, 2, 2)))
d, H = g.compute_derivatives(X)
assert np.allclose(d, [[0, 0], [2 * 0.1 - 1, 2 * 0.2 - 1]]), d
assert np.allclose(H[0], 0) and np.allclose(H[1], 2 * np.eye(2)), H
"""),
}
