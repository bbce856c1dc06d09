SEEDS = {
"C22-noise": dict(property="C22", file="hvd/rsg.py", edits=[("            Points_index = np.argsort(X[:, 0], kind=\"mergesort\")\n            Points = X[Points_index]\n", "            Points = X\n")],
  needs="points of a piece given in an order which is not sorted by the first objective, and several pieces", breaks="the share of a piece is taken from the input order of its points", demo="""
import numpy as np
from hvd.rsg import RSG
A = np.array([[0.0, 1.0], [0.04, 0.96], [0.08, 0.92]]); B = np.array([[0.5, 0.3], [0.54, 0.26], [0.58, 0.22]])
P = np.vstack([A, B]); Q = np.vstack([A[[1, 0, 2]], B])
a, b = RSG(P, 12, eps=0.2), RSG(Q, 12, eps=0.2)
assert a.shape == b.shape and np.allclose(a, b), (a, b)
"""),
"C23-eps": dict(property="C23", file="hvd/moea/moead.py", edits=[("off_CV = np.maximum(np.full(len(off_FV), off.CV[0]) - eps, 0.0)", "off_CV = np.maximum(np.full(len(off_FV), off.CV[0]), 0.0)")],
  needs="a constrained problem, early in the run, an offspring of small violation", breaks="offspring do not get the violation tolerance that members of the population get", demo="""
import numpy as np
from types import SimpleNamespace as NS
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.decomposition.tchebicheff import Tchebicheff
from hvd.moea.moead import ConstraintAwareMOEAD
W = np.array([[0.5, 0.5], [0.2, 0.8]])
alg = ConstraintAwareMOEAD(ref_dirs=W, n_neighbors=2)
alg.problem = NS(has_constraints=lambda: True)
alg.decomposition, alg.neighbors, alg.ideal = Tchebicheff(), np.array([[0, 1], [0, 1]]), np.zeros(2)
alg.max_cv, alg.termination = 1.0, NS(perc=0.0)
mk = lambda F, cv: Individual(F=np.array(F), CV=np.array([cv]), G=np.array([cv]), H=np.zeros(0))
alg.pop = Population.create(mk([1.0, 1.0], 0.0), mk([1.0, 1.0], 0.0))
off = mk([0.5, 0.5], 0.3)
alg._replace(0, off)
assert alg.pop[0] is off and alg.pop[1] is off
"""),
"C23-nadir": dict(property="C23", file="hvd/moea/sms_emoa.py", edits=[("                    front = np.delete(front, k)\n", "                    front = np.delete(front, min(k, len(front) - 2))\n")],
  needs="the last individual of the splitting front contributes least", breaks="a different individual than the least contributing one is removed", demo="""
import numpy as np
from types import SimpleNamespace as NS
from pymoo.core.population import Population
from hvd.moea.sms_emoa import LeastHypervolumeContributionSurvival
F = np.array([[0.0, 1.0], [1.0, 0.0], [0.5, 0.2], [0.505, 0.195]])
pop = Population.new("X", np.arange(8.0).reshape(4, 2)); pop.set("F", F)
s = LeastHypervolumeContributionSurvival()._do(NS(n_obj=2), pop, n_survive=3)
got = sorted(map(tuple, s.get("F")))
assert got == sorted(map(tuple, F[:3])), got
"""),
"C24-alpha": dict(property="C24", file="hvd/moea/sms_emoa.py", edits=[("        V, dom = self.V, self.dom\n        n_dom = dom.sum(axis=0)\n", "        V, dom = self.V, self.dom\n        n_dom = dom[: max(1, len(dom) - 1)].sum(axis=0)\n")],
  needs="deleting a point of a front of several points and looking at the contributions afterwards", breaks="the last remaining point is not counted when contributions are renewed after a deletion", demo="""
import numpy as np
from hvd.moea.sms_emoa import ApproximateMonteCarloHypervolume
np.random.seed(3)
F = np.array([[0.1, 0.6, 0.5], [0.5, 0.2, 0.4], [0.4, 0.5, 0.1], [0.3, 0.3, 0.3]])
hv = ApproximateMonteCarloHypervolume(np.ones(3), n_samples=500).add(F)
hv.delete(1)
dom = hv.dom
n = dom.sum(axis=0)
want = np.array([np.sum(dom[i] & (n == 1)) for i in range(len(dom))]) / 500 * hv.V
assert np.allclose(hv.hvc, want), (hv.hvc, want)
"""),
"C29-h-only": dict(property="C29", file="hvd/problems/_pymoo_wrapper.py", edits=[("        if hasattr(self._problem, \"n_ieq_constr\") and self._problem.n_ieq_constr > 0:", "        elif hasattr(self._problem, \"n_ieq_constr\") and self._problem.n_ieq_constr > 0:")],
  needs="a problem with equality and inequality constraints at once", breaks="the pymoo view of a problem with both kinds of constraints reports no inequality values", demo="""
import numpy as np
from hvd.problems import Eq1IDTLZ1
p = Eq1IDTLZ1(3, 5, boundary_constraints=True)
v = p.as_pymoo_problem()
X = np.random.default_rng(0).random((4, p.n_var))
out = {}
v._evaluate(X, out)
assert p.n_ieq_constr > 0 and p.n_eq_constr > 0
assert np.allclose(out["G"], [p.ieq_constraint(x) for x in X]) and np.allclose(out["H"].reshape(4, -1), [np.ravel(p.eq_constraint(x)) for x in X])
"""),
"C09-restore": dict(property="C09", file="hvd/base.py", edits=[("        self.cstr_grad[k] = self.eval_cstr_jac(primal_vars)\n        self.cstr_hess[k] = self.eval_cstr_hess(primal_vars)\n", "        if self.active_indices[k].any():\n            self.cstr_grad[k] = self.eval_cstr_jac(primal_vars)\n            self.cstr_hess[k] = self.eval_cstr_hess(primal_vars)\n")],
  needs="a single-point update to a point without active constraints", breaks="constraint Jacobians of an inactive point stay those of the former point", demo="""
import numpy as np
from hvd.base import State
class P:
    def f(self, x): return np.array([x[0] ** 2, x[1]])
    def j(self, x): return np.array([[2 * x[0], 0.0], [0.0, 1.0]])
    def g(self, x): return np.array([x[0] ** 2 - 4.0])
    def gj(self, x): return np.array([[2 * x[0], 0.0]])
    def gh(self, x): return np.array([[[2.0, 0.0], [0.0, 0.0]]])
p = P()
s = State(2, 0, 1, p.f, p.j, g=p.g, g_jac=p.gj, g_hess=p.gh)
s.update(np.array([[3.0, 1.0, 0.0], [2.5, 0.0, 0.0]]))
s.update_one(np.array([1.0, 1.0, 0.0]), 0)
assert np.allclose(s.cstr_grad[0], p.gj(s.X[0, :2])), s.cstr_grad[0]
"""),
"C08-shift-many": dict(property="C08", file="hvd/reference_set.py", edits=[("            for i, j in enumerate(self.Y_idx[v]):\n                self._medoids_idx[j] = (k, i)", "            for i, j in enumerate(sorted(self.Y_idx[v])):\n                self._medoids_idx[j] = (k, i)")],
  needs="several components with an unsorted assignment of points to clusters, a shift of single medoids, and matching again", breaks="a shift moves the target of another point of the cluster", demo="""
import numpy as np
from hvd.reference_set import ReferenceSet
ref = {0: np.array([[0.0, 1.0], [0.2, 0.8]]), 1: np.array([[5.0, -4.0], [6.0, -5.0]])}
r = ReferenceSet(ref=ref, eta={0: -np.ones(2), 1: -np.ones(2)}, Y_idx=[[2, 0], [3, 1]])
Y = np.array([[0.3, 0.9], [6.1, -4.9], [0.1, 1.1], [5.1, -3.9]])
r.match(Y)
a = r.reference_set.copy()
r.shift(0.5, [0])
r.match(Y)
want = a.copy(); want[0] -= 0.5
assert np.allclose(r.reference_set, want), (r.reference_set, want)
"""),
"C14-armijo-order": dict(property="C14", file="hvd/line_search.py", edits=[("    phi = [np.linalg.norm(R)]\n    s = [0, step_size]\n    for _ in range(6):", "    phi = [np.linalg.norm(R)]\n    s = [0, max(step_size, 1e-2)]\n    for _ in range(6):")],
  needs="a point closer to its bound than a hundredth of the step", breaks="the step exceeds the largest allowed one when that is very small", demo="""
import numpy as np
from hvd.line_search import backtracking_line_search
assert backtracking_line_search(np.array([1.0, 1.0]), lambda a: 0.0, 1e-3) <= 1e-3
"""),
"C16-tau": dict(property="C16", file="hvd/utils.py", edits=[("        tau = 0 if v > 0 else -v + beta\n", "        tau = beta if v > 0 else -v\n")],
  needs="a matrix with a zero or negative smallest diagonal entry which needs no off-diagonal correction", breaks="", demo=""),
"C17-pack": dict(property="C17", file="hvd/utils.py", edits=[("X[:, dim_primal:][active_indices].reshape(-1, 1)]", "X[:, dim_primal:].T[active_indices.T].reshape(-1, 1)]")],
  needs="several points and constraints with differing active sets", breaks="residuals of active constraints are stacked constraint by constraint but unstacked point by point", demo="""
import numpy as np
from hvd.utils import Nd_vector_to_matrix, matrix_to_Nd_vector
rng = np.random.default_rng(0)
for _ in range(50):
    N, p, d = 4, 2, 3
    act = rng.random((N, d)) < 0.5
    X = rng.random((N, p + d)); X[:, p:][~act] = 0
    v = matrix_to_Nd_vector(X, p, act).ravel()
    assert np.allclose(Nd_vector_to_matrix(v, N, p + d, p, act), X)
"""),
"C20-box": dict(property="C20", file="hvd/problems/base.py", edits=[("            self.n_ieq_constr += 2 * self.n_var\n", "            self.n_ieq_constr += 2 * self.n_var\n            if np.array_equal(self.xl, -self.xu):\n                self._ieq = add_boundary_constraints(None, -np.abs(self.xl).max() * np.ones(self.n_var), self.xu)\n")],
  needs="", breaks="", demo=""),
"C25-metrics": dict(property="C25", file="hvd/mmd_newton.py", edits=[("        self.history_X += [self.state.primal.copy()]", "        self.history_X += [self.state.primal]")],
  needs="", breaks="", demo=""),
}
for k in [k for k, v in SEEDS.items() if not v["demo"]]:
    del SEEDS[k]
MMDN = """
import numpy as np
from hvd.mmd_newton import MMDNewton
from hvd.reference_set import ReferenceSet
class P:
    f = staticmethod(lambda x: np.array([x[0] ** 2 + x[1] ** 2, (x[0] - 1) ** 2 + (x[1] - 1) ** 2]))
    j = staticmethod(lambda x: np.array([[2 * x[0], 2 * x[1]], [2 * (x[0] - 1), 2 * (x[1] - 1)]]))
    H = staticmethod(lambda x: np.array([2 * np.eye(2), 2 * np.eye(2)]))
    g = staticmethod(lambda x: np.array([-5.0 - x[0], x[0] + x[1] - 1.0]))
    gj = staticmethod(lambda x: np.array([[-1.0, 0.0], [1.0, 1.0]]))
def opt(X0, ref):
    return MMDNewton(n_var=2, n_obj=2, ref=ReferenceSet(ref), func=P.f, jac=P.j, hessian=P.H, g=P.g, g_jac=P.gj, N=len(X0), X0=X0, xl=0, xu=2, max_iters=5, verbose=False)
"""
SEEDS.update({
"C13-dual-order": dict(property="C13", file="hvd/mmd_newton.py", edits=[("func(grad[i], dual_vars[i, idx[i]], dH[i])", "func(grad[i], dual_vars[i, : len(dH[i])], dH[i])")],
  needs="at least two inequality constraints of which an earlier one is inactive, and non-zero multipliers", breaks="the residual uses the multipliers of other constraints than the active ones", demo=MMDN + """
X0 = np.array([[0.9, 0.8], [0.7, 0.6]])
o = opt(X0, np.array([[0.2, 0.9], [0.9, 0.2]]))
S = o.state.X.copy(); S[:, 2] = 3.0; S[:, 3] = 7.0
o.state.update(S)
o._compute_indicator_value(o.state.Y)
g = o.indicator.compute_derivatives(X=o.state.primal, Y=o.state.Y, compute_hessian=False, jacobian=o.state.J)
R = o._compute_R(o.state)[0]
assert np.allclose(R[:, :2], g + 7.0), (R, g)
"""),
"C25-shift-norm": dict(property="C25", file="hvd/mmd_newton.py", edits=[("            step_norm = np.linalg.norm(self.step[:, : self.dim_p], axis=1)\n", "            step_norm = np.linalg.norm(self.step, axis=1)\n")],
  needs="a constrained problem where a point sits on its target while its multipliers still move", breaks="a target is not shifted although its point has reached it and stopped", demo=MMDN + """
X0 = np.array([[0.9, 0.8], [0.7, 0.6]])
o = opt(X0, np.array([P.f(x) for x in X0]))
o.ref.re_match = True
o._compute_indicator_value(o.state.Y)
o.iter_count = 1
o.step = np.array([[0.0, 0.0, 0.0, 0.5], [0.0, 0.0, 0.0, 0.5]])
a = np.array(o.ref.reference_set).copy()
o._shift_reference_set()
assert not np.any(np.all(np.isclose(a, o.ref.reference_set), axis=1)), (a, o.ref.reference_set)
"""),
"C11-curvature": dict(property="C11", file="hvd/newton.py", edits=[("M = block_diag(*[np.einsum(\"i...,i\", B[i, k], state.dual[i, k]) for i, k in enumerate(idx)])", "M = block_diag(*[np.einsum(\"i...,i\", B[i, k], state.dual[i, : k.sum()]) for i, k in enumerate(idx)])")],
  needs="several constraints, an earlier one inactive, non-zero multipliers and curved constraints", breaks="the constraint curvature in the Newton matrix is weighted by other multipliers", demo="""
import numpy as np
from hvd.newton import HVN
f = lambda x: np.array([x[0] ** 2 + x[1] ** 2, (x[0] - 1) ** 2 + (x[1] - 1) ** 2])
j = lambda x: np.array([[2 * x[0], 2 * x[1]], [2 * (x[0] - 1), 2 * (x[1] - 1)]])
H = lambda x: np.array([2 * np.eye(2), 2 * np.eye(2)])
g = lambda x: np.array([-5.0 - x[0] ** 2, x[0] ** 2 + 2 * x[1] ** 2 - 1.0])
gj = lambda x: np.array([[-2 * x[0], 0.0], [2 * x[0], 4 * x[1]]])
gh = lambda x: np.array([[[-2.0, 0.0], [0.0, 0.0]], [[2.0, 0.0], [0.0, 4.0]]])
import inspect
kw = dict(n_var=2, n_obj=2, ref=np.array([9.0, 9.0]), func=f, jac=j, hessian=H, g=g, g_jac=gj, g_hessian=gh, N=1, X0=np.array([[0.9, 0.8]]), xl=0, xu=2, max_iters=5, verbose=False, preconditioning=False)
sig = inspect.signature(HVN.__init__).parameters
kw = {k: v for k, v in kw.items() if k in sig}
o = HVN(**kw)
S = o.state.X.copy(); S[:, 2] = 3.0; S[:, 3] = 7.0
o.state.update(S)
step, R = o._compute_netwon_step(o.state)
d, D = o.indicator.compute_derivatives(X=o.state.primal, Y=o.state.Y, YdX=o.state.J)
A = np.block([[D + 7.0 * gh(S[0])[1], gj(S[0])[1:].T], [gj(S[0])[1:], np.zeros((1, 1))]])
want = np.linalg.solve(A, -np.r_[R[0, :2], R[0, 3]])
assert np.allclose(step[0, [0, 1, 3]], want), (step, want)
"""),
"C07-sizes": dict(property="C07", file="hvd/mmd.py", edits=[("                - yr_dx2.sum(axis=1) / (N * M)\n", "                - yr_dx2.sum(axis=1) / N**2\n")],
  needs="an approximation and a reference set of different sizes", breaks="the Hessian weighs the attraction to the reference set with the wrong size", demo="""
import numpy as np
from hvd.mmd import MMD
rng = np.random.default_rng(0)
ref, Y = rng.random((3, 2)), rng.random((2, 2))
m = MMD(2, 2, ref)
g = lambda Y: np.asarray(m.compute_derivatives(Y, compute_hessian=False)).ravel()
H = np.asarray(m.compute_derivatives(Y)[1])
e = 1e-3
for i in range(4):
    A, B = Y.copy(), Y.copy(); A.flat[i] += e; B.flat[i] -= e
    fd = (g(A) - g(B)) / (2 * e)
    assert np.allclose(fd, H[i], atol=2e-3), (i, fd, H[i])
"""),
"C10-normal": dict(property="C10", file="hvd/base.py", edits=[("            normalization[0, :n_obj] = 1.0\n", "            normalization[0, : n_obj + self.n_eq * bool(active_ieq.any())] = 1.0\n")],
  needs="a point with equality constraints and an active inequality", breaks="equality multipliers count as objective weights, so that points pass without any objective weight", demo="""
import numpy as np
from hvd.base import State
f = lambda x: np.array([x[0] + x[1], x[0] + 2 * x[1]])
j = lambda x: np.array([[1.0, 1.0], [1.0, 2.0]])
h = lambda x: np.array([x[0] - 1.0])
hj = lambda x: np.array([[1.0, 0.0]])
g = lambda x: np.array([x[0] - 1.0])
gj = lambda x: np.array([[-1.0, 0.0]])
s = State(2, 1, 1, f, j, h, hj, None, g, gj, None)
s.update(np.array([[1.0, 0.5, 0.0, 0.0]]))
assert not s.check_KKT()[0]
"""),
"C12-shift": dict(property="C25", file="hvd/mmd_newton.py", edits=[("        self.history_R_norm += [np.median(np.linalg.norm(self.R, axis=1))]\n        if self.verbose:\n            self.logger.info(f\"iteration {self.iter_count} ---\")\n", "        self.history_R_norm += [np.median(np.linalg.norm(self.R[: self.n_obj + 1], axis=1))]\n        if self.verbose:\n            self.logger.info(f\"iteration {self.iter_count} ---\")\n")],
  needs="more points than objectives plus one", breaks="the recorded residual norm is the median over a part of the population", demo=MMDN + """
rng = np.random.default_rng(0)
X0 = rng.random((6, 2))
o = opt(X0, np.array([[0.2, 0.9], [0.9, 0.2], [0.3, 0.7], [0.1, 1.0], [0.7, 0.3], [0.5, 0.5]]))
o.newton_iteration(); o.log()
assert np.isclose(o.history_R_norm[-1], np.median(np.linalg.norm(o.R, axis=1)))
"""),
})
