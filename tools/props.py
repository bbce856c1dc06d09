"""source of properties.jsonl and MANIFEST.json:  python tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


HV = "hvd/hypervolume.py"; HD = "hvd/hypervolume_derivatives.py"; UT = "hvd/utils.py"; DP = "hvd/delta_p.py"; MM = "hvd/mmd.py"
NW = "hvd/newton.py"; MN = "hvd/mmd_newton.py"; BA = "hvd/base.py"; RS = "hvd/reference_set.py"; LS = "hvd/line_search.py"

prop("C01", "Hypervolume equals the measure of the dominated region",
     "For every finite set of points and every reference point, the reported hypervolume is the Lebesgue measure of the set of points weakly dominated by some given point and strictly bounded by the reference point. It therefore does not depend on the order of the points, counts repeated points once, ignores points that do not improve on the reference point in every objective, and grows when points improve.",
     ["inputs"], "all point sets (any order, ties, duplicates, points outside the reference box) and reference points, up to the stated number of points and objectives",
     "the value is a piecewise polynomial whose pieces depend on the relative order of all coordinates; the tests sample a few sets with the points in one order",
     [HV], [("dimension-sweep over a doubly linked list", HV + ":hypervolume/_HyperVolume.hvRecursive"), ("public entry point", HV + ":hypervolume")])
prop("C02", "Hypervolume gradient is the gradient of the hypervolume",
     "For non-dominated points in general position inside the reference box, the reported gradient equals the exact partial derivatives of the hypervolume, in objective space and, given Jacobians, in decision space by the chain rule. Points dominated by others have zero gradient.",
     ["inputs"], "all point sets in general position, all Jacobians, up to the stated sizes",
     "each cell of the arrangement of coordinate orders has its own formula; tests compare with finite differences at a handful of points",
     [HD], [("gradient by facet areas", HD + ":HypervolumeDerivatives._compute_gradient/hypervolume_dY"), ("chain rule", HD + ":HypervolumeDerivatives.compute_derivatives")])
prop("C03", "Hypervolume Hessian is the Hessian of the hypervolume",
     "For non-dominated points in general position inside the reference box, the reported Hessian equals the exact matrix of second partial derivatives of the hypervolume in objective space, and in decision space equals the chain rule applied to the Jacobians and objective Hessians (including the curvature term). It is symmetric.",
     ["inputs"], "all point sets in general position with every Jacobian and objective Hessian, up to the stated sizes",
     "cross-blocks depend on which points are neighbours in every projection; tests check a few fixed sets of one size",
     [HD], [("Hessian by projections along each objective", HD + ":HypervolumeDerivatives._compute_hessian/_project"), ("chain rule", HD + ":HypervolumeDerivatives.compute_derivatives")])
prop("C04", "HV derivatives respect input order, orientation and supplied data",
     "Permuting the input points permutes the hypervolume gradient and Hessian in the same way, maximisation gives the volume and decision-space derivatives of the minimisation problem with objectives and reference point negated, and supplying objective values and Jacobians gives the same result as letting the class evaluate them. Hypervolume improvement of a set over another is the hypervolume of the union minus that of the other.",
     ["inputs", "configurations"], "all point sets, orders, orientations and evaluation modes up to the stated sizes",
     "metamorphic relations between two runs on arbitrary inputs; tests only run minimisation in one order",
     [HD, HV], [("orientation handling", HD + ":HypervolumeDerivatives.__init__/ref"), ("row book-keeping of non-dominated subsets", HD + ":HypervolumeDerivatives._check_X/compute_derivatives"), ("improvement", HD + ":hypervolume_improvement")])
prop("C05", "Non-dominated sorting and filtering follow Pareto dominance",
     "For every point set, sorting returns fronts that partition the indices, the first front is exactly the set of points dominated by no other point, and every point of a later front is dominated by some point of the front before it and by none of its own front. The non-dominated filter returns exactly the points not dominated by another, keeping all copies of equal points, and dominance between two points means no worse in every objective and better in at least one.",
     ["inputs"], "all point sets with ties and duplicates up to the stated sizes, values or indices returned, capped or uncapped number of fronts",
     "tests use random continuous points, where ties and duplicates have probability zero",
     [UT], [("fast non-dominated sort", UT + ":non_domin_sort/fast_non_dominated_sort"), ("pairwise filter", UT + ":get_non_dominated"), ("dominance", UT + ":dominates")])
prop("C06", "GD and IGD values and derivatives are those of the p-averaged distance",
     "The generational and inverted generational distances equal the p-averaged distance from each point to its matched or nearest counterpart. Their gradients and per-point Hessian blocks are the exact derivatives, with respect to the decision vectors, of the p-th power of that value (in matching mode, of the sum of squared distances to the matched points), whenever the nearest counterparts are unique, including the Jacobian and curvature terms of the objectives."
     ,
     ["inputs", "configurations"], "all points, reference sets, Jacobians and objective Hessians with unique nearest neighbours, exponents p up to the stated bound, sizes up to the stated bound",
     "the formulas have separate terms for p=1, p=2 and p>2, matched and nearest, curvature and non-curvature; tests check p=2 at random points",
     [DP], [("GD", DP + ":GenerationalDistance"), ("IGD", DP + ":InvertedGenerationalDistance")])
prop("C07", "MMD gradient and Hessian are derivatives of the MMD value",
     "For the Maximum Mean Discrepancy between the objective vectors of a set and a reference set, with every provided kernel and bandwidth, the value is the usual biased estimate, and the reported gradient and Hessian (in objective space and in decision space) are its exact first and second derivatives. The same holds for the matching variant with its current spread weight, also after that weight has been changed during the run.",
     ["inputs", "configurations", "histories"], "all points, references, bandwidths and spread weights up to the stated sizes",
     "compiled kernels cache constants from their first call, and cross-terms between points only show for particular layouts; tests use one kernel on fixed data",
     [MM], [("kernel derivatives", MM + ":rbf/rational_quadratic/laplace and their derivatives"), ("MMD assembly", MM + ":MMD.compute/compute_gradient/compute_hessian"), ("matching variant", MM + ":MMDMatching")])
prop("C08", "Reference points are matched optimally and shifted only as requested",
     "Matching the points against a reference set assigns the points of each component to different reference points of that component with minimal total distance, and each reported match is a member of the reference set. Shifting moves exactly the selected matched reference points by the given vectors and leaves every other reference point unchanged, a frozen matching does not change, and with several components every point is matched inside the component assigned to its cluster. Given no explicit direction, the default shift direction of a component is a unit vector orthogonal to the line through the component's extremes (two objectives) that points to better objective values.",
     ["inputs", "histories"], "all point sets, reference sets, shift selections and match/shift histories up to the stated sizes",
     "the matched index arrays, the flattened copy and the per-component copies can drift apart only after particular histories of matching and shifting",
     [RS], [("matching", RS + ":ReferenceSet.match/_match"), ("shifting", RS + ":ReferenceSet.shift"), ("partition", RS + ":ReferenceSet._partition/set_medoids")],
     [("reference_set", "flattened view of all components", RS), ("_matched_medoids", "index of the matched reference point of each point", RS)])
prop("C09", "The optimizer's cached evaluations always belong to its current points",
     "After any sequence of full updates, single-point updates, copies and slices, the cached objective values, Jacobians, constraint values and active sets of the population equal those obtained by evaluating the problem at the current decision vectors, and a slice or copy can be changed without changing the population it came from. A point is flagged feasible exactly when every equality is within 1e-4 of zero and every inequality is inactive (below -1e-4), the evaluation counters grow by the number of evaluated points, and saving and loading a population returns the same decision vectors and cached values.",
     ["inputs", "histories"], "all populations, multipliers and update/slice/copy histories up to the stated length",
     "a stale cache shows only after particular orders of operations that the tests do not run",
     [BA], [("state container", BA + ":State.update/update_one/__getitem__"), ("active set and feasibility", BA + ":State.check_constraints/is_feasible/_evaluate_constraints")],
     [("Y,J,cstr_value,active_indices", "cached evaluations", BA + ":State")])
prop("C10", "The KKT test accepts exactly the stationary points",
     "The first-order optimality test of a population answers per point: for arbitrary tolerances it is true exactly when the point is feasible within the feasibility tolerance and there are non-negative objective weights summing to one, free equality multipliers, and non-negative multipliers of the active inequalities (value at least minus the activity tolerance; none for inactive ones) for which every component of the combined gradient is within the stationarity tolerance of zero. Negative tolerances are rejected and objective Jacobians are required.",
     ["inputs", "configurations"], "all Jacobians, constraint values, constraint Jacobians and tolerances, all combinations of active constraints, populations up to the stated size",
     "the answer is a theorem of alternatives over all multipliers; tests use one problem whose multipliers are known", [BA], [("linear program per point", BA + ":State.check_KKT")])
prop("C11", "One HV-Newton iteration solves the Newton system of the HV problem",
     "In every iteration of the hypervolume Newton method, the feasible points are split into dominance layers, the infeasible ones join the first layer, and the step of each layer solves the Newton equations of maximising the hypervolume of that layer under its active constraints, with the gradient, the (preconditioned) Hessian plus the curvature of the constraints weighted by their multipliers, and the constraint values and Jacobians of that iteration; multipliers of inactive constraints are not moved. The points and multipliers afterwards are the old ones plus the accepted step size of the layer times that step. Copies of a point are removed before the iteration, different points stay.",
     ["inputs", "configurations"], "all populations, objective and constraint derivatives up to the stated sizes (1-2 objectives, with and without equality/inequality constraints)",
     "the Newton matrix is assembled from blocks per front and per active constraint set; the tests only check final convergence on a few problems",
     [NW], [("Newton system", NW + ":HVN._compute_indicator_value/_compute_R/_compute_netwon_step"), ("one iteration", NW + ":HVN.newton_iteration/step")])
prop("C12", "One averaged-distance Newton iteration solves its Newton system",
     "In every iteration of the averaged-Hausdorff-distance Newton method, the step of each point solves the Newton equations of the first-order optimality conditions of its own problem: this iteration's gradient of the distance (with the averaged distance: of the larger of its two parts), its (preconditioned) Hessian plus the curvature of the constraints weighted by their multipliers, and the values and Jacobian of the constraints active at that point. Multipliers of inactive constraints are not moved. The new points and multipliers are the old ones plus the accepted step size times the (box-projected) step.",
     ["inputs", "configurations"], "all populations, derivative values, matchings and active sets up to the stated sizes",
     "block systems differ per point with its active set; tests only check convergence on a few fixed problems",
     [NW], [("Newton step", NW + ":DpN._compute_netwon_step/_compute_R"), ("iteration", NW + ":DpN.newton_iteration")])
prop("C13", "One MMD-Newton iteration solves its Newton system",
     "In every iteration of the MMD Newton method the joint step of all points solves the Newton equations of minimising the discrepancy under the active constraints, with the (preconditioned) Hessian and gradient at the current points and the values and Jacobians of the constraints active at each point, and the new points and multipliers are the old ones plus the accepted step size times the step. Each multiplier is updated with the component of the step belonging to its own point and constraint; those of inactive constraints are not moved.",
     ["inputs", "configurations"], "all populations, derivative values and active sets up to the stated sizes",
     "rows and columns are scattered through masks that depend on which constraints are active at which point",
     [MN], [("Newton step", MN + ":MMDNewton._compute_netwon_step/_compute_R"), ("iteration", MN + ":MMDNewton.newton_iteration/step")])
prop("C14", "Line searches never exceed the allowed step and leave the state intact",
     "The step sizes returned by the backtracking and cubic line searches are non-negative and never exceed the maximal step size given for each point, are obtained from it by repeated halving or interpolation safeguarded to 40-60% of the previous try, and either satisfy the sufficient-decrease test or the search ran out of tries (a negligible step is not searched). Searching leaves the population, multipliers, reference set and matching exactly as they were.",
     ["inputs", "histories"], "all merit-function values, directions and initial steps up to the stated number of tries",
     "which trial is accepted depends on the merit values along the ray; tests never look at the trial sequence",
     [LS, NW, MN], [("safeguarded backtracking", LS), ("HVN/DpN line search", NW + ":_backtracking_line_search/_line_search"), ("MMD line search", MN)])
prop("C15", "Iterates stay inside the box",
     "Whenever a method keeps its points inside the search box, the points it starts from, the points after an iteration with its step-size limit or box handling, and the points produced by the box-constraint helpers all satisfy lower bound <= x <= upper bound in every coordinate, and the limit is never negative, so that it never moves a point against its step. Projections at the boundary only remove components of a step that point outside, and leave a step that stays inside unchanged. Bounds of the wrong length are rejected.",
     ["inputs"], "all points, steps and boxes up to the stated sizes",
     "the bound hit first depends on the sign pattern of the step; tests use interior optima",
     [NW, MN, UT, "hvd/gradient_based.py"], [("largest feasible step", NW + ":HVN._compute_max_step_size"), ("bounds setter", NW), ("box handling", NW + ":_handle_box_constraint"), ("gradient-based handler", "hvd/gradient_based.py")])
prop("C16", "Hessian preconditioning returns a definite matrix and keeps definite ones",
     "Preconditioning a symmetric Hessian returns a symmetric matrix that differs from it by a non-negative multiple of the identity and is positive definite whenever the search for a shift succeeds; an already positive definite matrix is returned unchanged, and otherwise the shift is at most twice the smallest one that suffices plus the documented starting value 1e-6. The matrix passed in is not modified.",
     ["inputs"], "all symmetric matrices of the stated sizes and ranges of entries",
     "definiteness fails only near particular eigenvalue configurations, and the number of shift doublings depends on them",
     [UT], [("shift search by Cholesky", UT + ":precondition_hessian")])
prop("C17", "Packing and unpacking of decision vectors and multipliers round-trip",
     "The stacked vector of a Newton system lists the decision variables of all points, then the active multipliers of all points. Splitting it into one row per point and stacking the rows again returns the original vector, every row gets its own decision variables and active multipliers (inactive ones are zero), and empty multiplier blocks are handled. A population's decision variables and multipliers are the corresponding parts of its rows.",
     ["inputs", "configurations"], "all population sizes, dimensions and multiplier counts up to the stated bound, all combinations of active multipliers, all values",
     "the row/column arithmetic differs per number of active constraints of each point, including zero",
     [UT, MN, BA], [("stack/split", UT + ":Nd_vector_to_matrix/matrix_to_Nd_vector"), ("the MMD method's own copy", MN + ":Nd_vector_to_matrix"), ("parts of a population", BA + ":State.primal/dual")])
prop("C18", "Problem evaluations are pointwise and derivatives match the functions",
     "For the problems with analytic or automatically derived derivatives, evaluating a batch of points gives the row-wise evaluations of the single points, and the reported Jacobians and Hessians of objectives and constraints are the exact derivatives of the reported values at every interior point where these are differentiable.",
     ["inputs"], "all points of the search box (away from stated singular sets), up to the stated dimensions",
     "derivative rules are compiled per problem; tests check one or two points of a few problems",
     ["hvd/problems/base.py", "hvd/problems/cf.py", "hvd/problems/dtlz.py", "hvd/problems/zdt.py", "hvd/problems/misc.py", "hvd/problems/eqdtlz.py", "hvd/problems/uf.py"], [("automatic differentiation set-up", "hvd/problems/base.py:MOP/CMOP"), ("problem definitions", "hvd/problems/*.py")])
prop("C19", "Benchmark problems compute their published formulas",
     "For every decision vector in the box, the benchmark problems (ZDT, DTLZ, their equality-constrained and inverted variants, CF, UF, WFG, and the convex, concave and dent examples) return the objective and constraint values of their published definitions.",
     ["inputs", "configurations"], "all decision vectors of the box at the stated numbers of variables and objectives",
     "a wrong index set, sign or constant changes the values smoothly; tests compare a few of the problems with pymoo at random points",
     ["hvd/problems/cf.py", "hvd/problems/dtlz.py", "hvd/problems/zdt.py", "hvd/problems/eqdtlz.py", "hvd/problems/misc.py", "hvd/problems/uf.py", "hvd/problems/wfg.py"], [("objective and constraint functions", "hvd/problems/*.py")])
prop("C20", "Box constraints added to a problem describe exactly the box",
     "A problem with boundary constraints reports two extra inequalities per variable that are non-positive exactly when the variable lies within its bounds, appended after the problem's own constraints, with matching counts, Jacobians and Hessians. Reported dimensions and constraint counts equal the lengths of the arrays the evaluations return.",
     ["inputs", "configurations"], "all points, constraint combinations and stated dimensions",
     "combinations of own and boundary constraints are exercised for one problem only",
     ["hvd/problems/base.py"], [("boundary constraints", "hvd/problems/base.py:add_boundary_constraints/CMOP")])
prop("C21", "Reported Pareto fronts are attained, feasible and mutually non-dominated",
     "Every point of a Pareto front or set reported by a benchmark problem with a closed form is attained by the problem's objective functions at some decision vector of the box (at the reported decision vector when a set is reported), and for fronts in closed form no reported point dominates another one.",
     ["inputs", "configurations"], "all sample sizes up to the stated bound and all parameters on the front",
     "tests only plot or count front points",
     ["hvd/problems/zdt.py", "hvd/problems/dtlz.py", "hvd/problems/cf.py", "hvd/problems/misc.py"], [("front samplers", "hvd/problems/*.py:get_pareto_front/get_pareto_set")])
prop("C22", "Filling a front approximation yields points on its pieces",
     "Filling the gaps of a two-objective front approximation gives every component its share of the requested points by length (each rounded to the nearest integer), equally spaced along the polygonal line through the component's points sorted by the first objective, end points included (a single point is an end point), whatever the order of the input. Components end exactly at gaps larger than the given radius; isolated points are left out.",
     ["inputs"], "all front approximations with increasing first objective, sizes up to the stated bound",
     "the segment that hosts a filled point depends on all the previous lengths, and rounding on all components",
     ["hvd/rsg.py"], [("components, lengths and interpolation", "hvd/rsg.py:ComponentDetection/RSG/interpolate_tst")])
prop("C23", "Survival and selection of the evolutionary algorithms respect dominance",
     "Environmental selection of the hypervolume-based algorithm keeps the required number of individuals (feasible ones first, then by violation), never discards a point of an earlier front in favour of a later one, and repeatedly discards from the last front a point with the least hypervolume contribution; parents and offspring compete, normalised by the parents' range. Its tournament prefers the less violated, then the dominating individual. Neighbourhood replacement in the decomposition-based algorithm replaces a neighbour exactly when the child is better for that neighbour's weight: less violation beyond the current relaxation, then the better scalarised value; the relaxation falls linearly from the initial mean violation to zero, and neighbourhoods are the nearest weights.",
     ["inputs"], "all objective vectors and constraint violations up to the stated population sizes",
     "ties and borderline fronts decide survival, and random populations avoid them",
     ["hvd/moea/sms_emoa.py", "hvd/moea/moead.py"], [("survival", "hvd/moea/sms_emoa.py:LeastHypervolumeContributionSurvival"), ("tournament", "hvd/moea/sms_emoa.py:cv_and_dom_tournament"), ("replacement", "hvd/moea/moead.py")])
prop("C24", "Hypervolume contributions estimated from samples match the samples",
     "For the sample points drawn in the box between ideal and reference point, the reported volume is the box volume times the fraction of samples covered by some point, and the contribution of a point the box volume times the fraction covered by that point alone, for any number of objectives; after deleting points both describe the remaining set on the same samples. A dynamic set's volume and contributions always are those of its current points after any sequence of additions and deletions. Environmental selection with three and more objectives discards a point covering the fewest samples alone.",
     ["inputs", "histories"], "all objective vectors, samples and deletions up to the stated sizes",
     "a sampled estimate is only ever compared loosely, and tests use two objectives",
     ["hvd/moea/sms_emoa.py", "hvd/exact.py"], [("sampled contributions", "hvd/moea/sms_emoa.py:alpha/hv_monte_carlo/hvc_monte_carlo/ApproximateMonteCarloHypervolume"), ("dynamic set", "hvd/exact.py:DynamicHypervolume")])
prop("C25", "Runs use their iteration budget, record history, shift references on schedule",
     "A run of any of the optimizers performs exactly the configured number of iterations (ten per point by default), a finished run does not continue when called again, and every iteration records one history entry: the points, their objective values, the user's metrics and the median residual norm after the iteration, and the indicator value of the points it starts from. The returned points, objective values and termination cause are those of the final state. Before the first iteration all reference points are shifted; later exactly those whose matched point has reached them and has stopped moving (without matching: the whole set as soon as that holds for some point), and each shift of a matched reference point is logged.",
     ["inputs", "histories", "configurations"], "all sequences of steps, step sizes, residuals and indicator values up to the stated number of iterations and points; all combinations of points that reached their target and stopped",
     "tests run a single configuration to the end and look at the final points; a missing or stale history entry never changes them",
     [NW, MN], [("run loop", NW + ":HVN.run/terminate/log"), ("iteration book-keeping", NW + ":HVN.iterate, DpN.newton_iteration"), ("reference shifts", NW + ":DpN._shift_reference_set"), ("MMD run loop and shifts", MN + ":MMDNewton.run/newton_iteration/_shift_reference_set")],
     [("iter_count", "number of finished iterations", NW), ("history_*", "one entry per iteration", NW)])
prop("C29", "Pymoo views and native views of a problem agree with the problem",
     "The pymoo view of a native problem has its dimensions, bounds and constraint counts and evaluates, row by row, to the problem's own objective, equality and inequality values (only those it has); its front is the problem's. The native view of a pymoo problem has that problem's values, its constraints followed by the box constraints if requested (by default), and the exact derivatives of all of them. The factory returns, for every registered name in any spelling, the published problem of that name (BNH, OSY, SRN, and the ZDT and DTLZ problems equal the native ones), rejects other names, and restores the toolbox configured before.",
     ["inputs", "configurations"], "all points and coefficients, constraint combinations and stated dimensions",
     "tests evaluate a few points of a few problems and never compare constraints of both views",
     ["hvd/problems/_pymoo_wrapper.py", "hvd/problems/_pymoo_factory.py", "hvd/problems/base.py"], [("adapters", "hvd/problems/_pymoo_wrapper.py:_PymooBackedProblem/_PymooProblemAdapter"), ("factory", "hvd/problems/_pymoo_factory.py:get_pymoo_problem")])
prop("C30", "Bootstrapping renews the reference set on schedule from right populations",
     "Bootstrapping runs every iteration of the optimizer once and logs it once. Before each iteration whose index is a positive multiple of the interval, and only then, the reference set is rebuilt from the objective vectors of that moment, each relaxed by 5 % towards the mean of its coordinates, on request filled to the population size; it is moved by 0.05 along its shift direction, installed in both the optimizer and its indicator, which is recomputed, and the indicator's spread weight drops by a fifth. The returned list keeps the sets before the move; the returned set is the current one, also when none was renewed. The returned start points are medoids, as many as individuals, of the last recorded populations after their dominated points and outliers are removed, decision and objective vectors matching.",
     ["inputs", "histories"], "all populations of the stated sizes, all outlier patterns and medoid choices, all iteration counts and intervals within the bounds",
     "there is no test of bootstrapping; the schedule and the aliasing of recorded populations only show for particular iteration counts",
     ["hvd/bootstrap.py"], [("bootstrapping", "hvd/bootstrap.py:bootstrap_reference_set/filter_outliers")])
prop("C31", "Automatic HV derivatives are exact, also after the reference point changes",
     "The automatically differentiated hypervolume derivatives of an indicator object equal the exact first and second derivatives of the hypervolume in objective and decision space for its current reference point, also when the reference point was changed after an earlier call, for minimisation and maximisation (gradients in the given orientation), and they agree with the analytic derivatives of the same object. The scalar functions of stacked points are the hypervolume of those points.",
     ["inputs", "histories"], "all point sets in general position of the stated sizes, all Jacobians and Hessians, sequences of three reference points",
     "tests compare both kinds of derivatives for one reference point at a few points",
     [HD], [("automatic differentiation", HD + ":HypervolumeDerivatives.compute_automatic_differentiation/ref"), ("stacked functions", HD + ":HVY/HVX")])
prop("C26", "Float rounding does not break derivative identities", 
     "In double precision the reported derivatives agree with the exact ones to a relative error that is small compared with the conditioning of the point set.",
     ["inputs"], "all doubles", "needs all rounding patterns", [HD], [("floating-point evaluation", HD)])
prop("C27", "Newton iterations converge quadratically near a regular optimum",
     "Started close enough to a non-degenerate optimum, the Newton methods converge to it with quadratic rate.",
     ["inputs", "histories"], "all starting points in some neighbourhood, unbounded iteration", "a limit statement", [NW], [("Newton iteration", NW)])

NA = {
    "C26": "the encoding reads doubles as reals (numpy/JAX arithmetic with libm calls cannot be bit-blasted at useful sizes); rounding is outside every claim made here",
    "C27": "a limit statement over unboundedly many iterations: no bounded query decides it (a claim with no bound is a proof, not solver-based checking)",
}
NOTES = json.load(open(os.path.join(ROOT, "tools", "levels.json"))) if os.path.exists(os.path.join(ROOT, "tools", "levels.json")) else {}
TRUST = ("Bounded symbolic execution of the current source: holds for every real-valued input within the sizes listed in the evidence; doubles are read as reals; "
         "trusts Z3, the numpy stand-in in vt/npshim.py and the stated contracts of external routines. Counterexamples are replayed on the unpatched code before being reported.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
        elif os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
            checks.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
                               technique="bounded symbolic execution of the real Python code, obligations decided by Z3 (NRA/LRA)",
                               level="model_checking", level_note=NOTES.get(i, "") + (" " if i in NOTES else "") + TRUST, evidence_file=f"evidence/{i}.json"))
        else:
            na.append(dict(property=i, reason="check under construction"))
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                   notes="no hooks in /repo; genuine defects repaired by fix: commits (see known_findings.json and DESIGN.md)"),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks")


main()
