"""The properties, what decides each of them, and how much of it runs when.

One entry per property: the text that goes to properties.jsonl / MANIFEST.json
(vlib/mkfiles.py writes both) and the runs of its check (check.py).
A run's props: (sub-property, quick cases, thorough cases, rule by which a case
counts as non-trivial).
"""
import collections

PROPS = collections.OrderedDict()


def P(pid, title, statement, over, quant, why, files, mech, runs, note, technique=None, **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      runs=runs, note=note, technique=technique or "property-based testing (generated inputs, shrinking) against an explicit oracle", **kw)


def cpp(harness, libs, *props, **kw):
    return dict(kind="cpp", harness=harness, libs=list(libs), props=list(props), **kw)


def py(harness, *props, **kw):
    return dict(kind="py", harness=harness, props=list(props), **kw)


SO = ["solver"]
SB = "solver/src/solver/"
SI = "solver/include/solver/"

# ----------------------------------------------------------------- solver ---
P("C01", "A solution reported Optimal satisfies every constraint of the model",
  "Whenever the conic solver answers that a model is solved (Optimal or OptimalInacc), the values it returns for the variables satisfy every linear, quadratic and second-order-cone constraint that was added, up to the accuracy of the solver settings. This holds however badly the constraints are scaled, whatever their number, sparsity and activity, and for models with no constraint of some kind.",
  ["inputs"], "every finite convex model built through the model API (random dimensions, constraint kinds, senses, activity at the optimum, scales)",
  "no solver test is among the stable ones; the ones in the repository solve four fixed problems",
  [SB + "optimizer/IPSolver.cpp", SB + "interface/ConicProblem.cpp", SB + "interface/Cone.cpp", SB + "optimizer/EqRoutine.cpp", SB + "optimizer/LinSolver.cpp"],
  [("interior point iteration and stopping test", "IPSolver::optimize, IPSolver::convergenceCheck"), ("translation of constraints to cones", "ConicProblem::addLinConstr, addSocConstr, buildProblem"), ("removal of equilibration", "EqRoutine::unsetEquilibration, OptimizationVector scaling")],
  [cpp("h_solver", SO, ("optimal_is_feasible", 30000, 1500000, "at least one constraint active at the constructed optimum"),
       ("optimal_beats_feasible_points", 20000, 800000, "at least 2 variables, 3 constraints, 5 independently found feasible points"))],
  "Every returned point is evaluated against the constraints in an independent dense form; violations above 1e-5 (relative to the constraint's own size) are reported. Explored: random models of 1-6 variables (more in the thorough tier); trusts the harness's own evaluation.")

P("C02", "The conic solver finds the minimum of solvable convex problems",
  "For every convex problem with a strictly feasible point and a bounded set of minimisers, optimising the model answers Optimal (or OptimalInacc) and the cost of the returned point equals the true minimum of the objective as the user wrote it, within the solver tolerance. No feasible point has a noticeably lower cost than the returned one, and where the minimiser is unique the returned point is that minimiser.",
  ["inputs"], "every strictly feasible convex model with linear, quadratic and cone constraints and a convex quadratic objective",
  "the optimum of a random model is not known to a unit test; here it is known because the model is constructed around a point satisfying the optimality conditions",
  [SB + "optimizer/IPSolver.cpp", SB + "interface/ConicProblem.cpp", SB + "optimizer/LinSolver.cpp", SB + "interface/Cone.cpp"],
  [("predictor-corrector steps", "IPSolver::rhsAffineStep, rhsCenteringPredictorStep, centeringAndCorrectorStep"), ("objective as a rotated cone", "ConicProblem::setObjective, addQuaConstr")],
  [cpp("h_solver", SO, ("known_optimum_reached", 40000, 2000000, "at least one constraint active at the constructed optimum"),
       ("optimal_beats_feasible_points", 20000, 800000, "at least 2 variables, 3 constraints, 5 independently found feasible points"))],
  "Optimum known by construction (KKT point chosen first, linear cost solved for); also compared with sampled feasible points of models with no known optimum.")

P("C03", "Infeasible and unbounded models are recognised, and only those",
  "A model whose constraints contradict each other is answered PrimalInf and one whose cost has no lower bound is answered DualInf (or the corresponding inaccurate verdict), never Optimal. A model that has a solution is never answered infeasible or unbounded, including models without constraints and constraints that mention no variable.",
  ["inputs"], "every model that is infeasible by construction (Farkas certificate), unbounded by construction (recession direction) or solvable by construction",
  "classification of a random model needs a certificate of which class it belongs to; tests contain only solvable ones",
  [SB + "optimizer/IPSolver.cpp", SB + "interface/ConicProblem.cpp"],
  [("certificates in the stopping test", "IPSolver::convergenceCheck"), ("constraint translation", "ConicProblem::addLinConstr, buildProblem")],
  [cpp("h_solver", SO, ("infeasible_reported", 40000, 1500000, "at least 2 variables"), ("unbounded_reported", 20000, 800000, "two or more variables and constraints"),
       ("known_optimum_reached", 5000, 200000, "at least one constraint active at the constructed optimum"))],
  "Certificates constructed before the model; verdicts that say 'no answer' are tolerated only if rare (both of two related models must fail to be classified).")

P("C04", "The answer does not depend on how the model is written down",
  "Declaring the variables or adding the constraints in another order, writing a constraint with both sides exchanged, splitting a coefficient over several terms, scaling a constraint or the objective by a positive factor, or translating the variables gives the same verdict, the same minimal cost and, when it is unique, the same solution. Repeating the identical model in the same process gives the identical answer.",
  ["inputs", "programs"], "every convex model and every meaning-preserving rewriting of the program that builds it",
  "a metamorphic relation over all models; the tests fix one way of writing each",
  [SB + "interface/ConicProblem.cpp", SB + "interface/Exprs.cpp", SB + "optimizer/EqRoutine.cpp"],
  [("expression to matrix translation", "ConicProblem::buildProblem, assembleMatrixCol"), ("equilibration", "EqRoutine::setEquilibration")],
  [cpp("h_solver", SO, ("formulation_invariance", 30000, 800000, "at least 2 variables and an active constraint"))],
  "Two writings of one model are compared with each other.")

P("C05", "Branch and bound returns the best mixed-binary solution",
  "For every convex model with binary variables, both branch-and-bound solvers return binary values that are 0 or 1, satisfy every constraint, and reach the smallest cost among all assignments of the binary variables (the second solver, for models with approximated quadratic constraints, when these concern other variables). When no assignment is feasible the model is answered infeasible, without an exception. With fewer nodes allowed than the search needs, the answer is not called optimal, and what is returned as a solution is a feasible assignment.",
  ["inputs", "configurations"], "every mixed-binary model with few binaries, whatever the initial guess of the binaries and the cost scale",
  "needs the cost of all 2^k assignments; the single mixed-binary test is not among the stable ones",
  [SB + "optimizer/BnBSolver.cpp", SB + "optimizer/NcvxBnBSolver.cpp"],
  [("bounding, branching and pruning", "BnBSolver::optimize, pruneBranches, branchNode"), ("non convex variant", "NcvxBnBSolver")],
  [cpp("h_solver", SO, ("branch_and_bound", 10000, 300000, "at least 2 binaries and 2 feasible assignments"), ("branch_and_bound_infeasible", 3000, 100000, "at least 2 binaries, infeasible for every assignment"),
    ("branch_and_bound_limited", 6000, 150000, "at least 2 binaries and the node limit reached"), ("branch_and_bound_approximated", 6000, 150000, "at least 2 binaries and 2 feasible assignments, an approximated constraint"))],
  "Brute force over the assignments with the same continuous solver as reference (itself decided by C01-C03).")

P("C06", "A model can be changed and solved again, with the answer of a fresh model",
  "After any history of adding variables and constraints, setting the objective (also more than once), optimising, cleaning and configuring, optimising gives the verdict, cost and solution that a freshly built model with the same variables, constraints and last objective gives. Variable handles keep referring to the same variable, and optimising twice in a row gives the same answer.",
  ["histories"], "every sequence of model operations (add variable/constraint, set objective, optimise, clean)",
  "tests build each model once and optimise once",
  [SB + "interface/Model.cpp", SB + "interface/ConicProblem.cpp", SB + "optimizer/IPSolver.cpp", SB + "interface/Var.cpp"],
  [("model state and reset", "Model::optimize, Model::clean, ConicProblem::buildProblem"), ("solver state between solves", "IPSolver::initialize, internalSolve")],
  [cpp("h_solver", SO, ("model_history", 20000, 600000, "at least two solves, at least one after a change"))],
  "Model-based: a reference list of variables, constraints and objective is kept next to the real model.", technique="stateful (model-based) property-based testing against freshly built models")

P("C07", "Non-convex equalities are approximated by the documented convex sequence",
  "A quadratic constraint marked for approximation is kept as a convex inequality and its lower side is enforced by linearising at the previous iterate: within a trust region shrinking as the threshold to the power of the refinement count, or as a penalty of the configured weight. The solution returned equals that of solving this sequence by hand, starting at the initial guess or, with warm start iterations, at the solution of the convex relaxation, and always satisfies the convex constraints.",
  ["inputs", "configurations"], "every model with approximated constraints, every choice of threshold, weight, number of refinements and warm start",
  "the sequence is internal to one optimise call; only a differential against the sequence written out shows a wrong step",
  [SB + "optimizer/IPSolver.cpp", SB + "interface/ConicProblem.cpp", SB + "interface/Model.cpp"],
  [("refinement loop", "InteriorPointSolver::optimize"), ("per-iterate constraint rows", "ConicProblem::addTrustRegion / addSoftConstraint parts of buildProblem")],
  [cpp("h_solver", SO, ("approximations_follow_reference", 6000, 250000, "at least 2 variables and 2 problems in the sequence"))],
  "Differential against the sequence of convex problems written out with the same convex solver.", technique="differential property-based testing against the written-out sequence")

P("C08", "Linear and quadratic expressions mean what their algebra says",
  "Any expression built from variables and constants by the expression operators (adding variables, constants and expressions, also to itself, subtracting, scaling, clearing, adding weighted squares and linear parts) evaluates, at every point, to the value of the same formula in ordinary arithmetic. Building an expression never alters its operands, and a variable keeps the bounds, guess, type and value it was given.",
  ["programs", "inputs"], "every sequence of expression operations and every evaluation point",
  "aliasing and accumulation effects appear only in particular operation sequences",
  [SB + "interface/Exprs.cpp", SI + "interface/Exprs.hpp", SB + "interface/Var.cpp"],
  [("operators", "LinExpr::operator+=, operator*=, operator-=, DCPQuadExpr::addQuaTerm, addLinTerm, operator+="), ("variable attributes", "Var::set, Var::get")],
  [cpp("h_expr", SO, ("expr_algebra", 20000, 2000000, "4 or more operations, at least 2 variables, an expression reused"), ("var_bounds", 5000, 500000, "at least 2 variables"))],
  "Model-based: each expression is mirrored by a coefficient vector; compared by evaluation.", technique="stateful (model-based) property-based testing")

P("C09", "Optimisation variables are packed without overlap and read back exactly",
  "Variables of any shape and type registered one after the other get consecutive, disjoint indices covering exactly the problem vector, each element keeps the bounds, type and initial guess given for it, and reading a solution vector back returns, for each element, the value at its own index. This holds for scalar, per-row and full-matrix bounds and both sub-block and whole-matrix access.",
  ["inputs", "programs"], "every list of variable shapes, types, bound kinds and guesses",
  "tests never use the packing on its own; an index mix-up can still give plausible numbers",
  [SB + "interface/OptVar.cpp", SI + "interface/OptVar.hpp"],
  [("packing and unpacking", "OptimizationVariable::initialize, getGuessValue, getLowerBound, getUpperBound, getType, getValue")],
  [cpp("h_expr", SO, ("optvar_index", 5000, 500000, "at least 2 variables, one with more than one row and column"))],
  "Model-based: a dense table of what was registered.")

P("C10", "Solver settings are read from the file they are configured with, and kept",
  "After configuring from a section of a settings file every parameter reads back as the value written there, whatever the order of the keys and whatever other sections the file has. Setting one parameter changes exactly that parameter, a copy holds the same values, and asking for a parameter that is no setting is refused with an exception.",
  ["configurations", "histories"], "every assignment of parameter values in a file, every sequence of later changes",
  "tests use one settings file and never read the parameters back",
  [SB + "interface/SolverSetting.cpp", SI + "interface/SolverSetting.hpp", SI + "interface/SolverParams.hpp"],
  [("file to parameters", "SolverSetting::initialize"), ("accessors", "SolverSetting::get, set")],
  [cpp("h_expr", SO, ("solver_settings", 2000, 60000, "at least one later change"))],
  "Random settings files are written to a scratch folder and read back through the public accessors.")

P("C11", "Every verdict of the interior point solver carries a valid certificate",
  "For every problem in conic form (minimise c'x subject to Gx + s = h, Ax = b, s in a product of the nonnegative orthant and second order cones) the vectors the interior point solver leaves prove its verdict: for Optimal, primal and dual feasible vectors with slack and multiplier in the cone and a closed duality gap; for infeasible, multipliers whose combination of the constraints is contradictory; for unbounded, a feasible recession direction of decreasing cost. Optimising the same solver again gives the same verdict and vectors.",
  ["inputs"], "every well formed conic problem, solvable or not, for all mixes of equalities, linear inequalities and cones",
  "duals and certificates are never looked at by a test; only the primal vector of four problems is",
  [SB + "optimizer/IPSolver.cpp", SB + "interface/Cone.cpp", SB + "optimizer/LinSolver.cpp", SB + "optimizer/EqRoutine.cpp"],
  [("homogeneous embedding and its stopping test", "InteriorPointSolver::internalOptimize, convergenceCheck"), ("removal of scaling from all vectors", "EqRoutine::unsetEquilibration, scaleVariables")],
  [cpp("h_linalg", SO, ("primal_dual_certificates", 150000, 5000000, "solved, or certified infeasible or unbounded, with a cone and at least 2 variables"))],
  "All certificates are evaluated densely, in the problem's own units, by the harness.")

P("C12", "The sparse linear algebra below the solver solves the systems it is given",
  "The sparse LDL factorisation solves every symmetric quasi-definite system, for any sparsity pattern and elimination order, also when refactorised with other values; the linear solver returns search directions that satisfy the KKT system of the cone problem with the current scaling, up to its static regularisation; and equilibrating a problem then removing the equilibration restores matrices, right hand sides and solution vectors to the original units.",
  ["inputs"], "every quasi-definite matrix and sparsity pattern, every cone problem and interior scaling point, every scale of rows and columns",
  "no test covers the factorisation, the KKT assembly or the equilibration separately, and a wrong direction is partly repaired by later iterations",
  [SB + "optimizer/SparseCholesky.cpp", SB + "optimizer/LinSolver.cpp", SB + "optimizer/EqRoutine.cpp"],
  [("LDL", "linalg::SparseCholesky::analyzePattern, factorize, solve"), ("KKT assembly and refinement", "LinSolver::initialize, updateMatrix, solve"), ("equilibration", "EqRoutine::setEquilibration, unsetEquilibration, scaleVariables")],
  [cpp("h_linalg", SO, ("ldl_solves", 300000, 10000000, "dimension at least 4, indefinite, with off-diagonal entries"), ("kkt_system", 200000, 8000000, "at least one second order cone and 2 variables"), ("equilibration", 200000, 8000000, "at least one second order cone and 2 variables"))],
  "Dense reference solves (Eigen) and residuals; the regularisation documented in the settings is part of the reference.")

P("C13", "Cone operations obey the algebra of self-dual cones",
  "For every product of the nonnegative orthant and second order cones, the Jordan product and its division are inverse to each other, the identity element is neutral, membership and safe-distance tests agree with the definition of the cone, and bringing a vector into the cone yields an interior point. The Nesterov-Todd scaling of two interior points maps both to the same scaled point, and applying the scaling then its inverse returns the vector. Sub-vectors named x, y, z, s, of mutable and of read-only vectors, view the parts of the whole they are named after.",
  ["inputs"], "every cone layout and every pair of interior points, also close to the boundary and of very different size",
  "used only inside the solver, where an algebra error mostly costs iterations instead of failing a test",
  [SB + "interface/Cone.cpp", SI + "interface/Cone.hpp"],
  [("Jordan algebra", "Cone::conicProduct, conicDivision, conicNTScaling..."), ("scaling update", "Cone::updateNTScalings"), ("vector views", "Vector, ExtendedVector, OptimizationVector")],
  [cpp("h_linalg", SO, ("cone_algebra", 300000, 10000000, "at least one second order cone"), ("nt_scaling", 200000, 8000000, "at least one second order cone"))],
  "Algebraic identities and an independent closed form of the scaling.")

P("C14", "L-BFGS descends to a stationary point and reports what it found",
  "Minimising a differentiable function by L-BFGS reports a cost that belongs to the point it returns, never increases the cost from one iterate to the next, and each accepted step satisfies the conditions of the chosen line search (More-Thuente, Armijo, Wolfe, strong Wolfe). Search directions are those of the limited-memory formula with the configured number of corrections. It stops exactly by its documented rules (gradient tolerance, past/delta, iteration limit, cancellation), reaches the minimiser of smooth convex functions, and refuses invalid parameters with the documented code. The solver class minimises the objective plus the weighted squared violation of the constraints of the nonlinear description it is given.",
  ["inputs", "configurations", "histories"], "every smooth function, start point, line search, memory size and set of stopping parameters",
  "the three L-BFGS tests minimise three functions with default settings and look at the final point only",
  [SB + "optimizer/LbfgsSolver.cpp", SI + "optimizer/LbfgsSolver.hpp"],
  [("iteration, two-loop recursion, stopping", "lbfgs()"), ("line searches", "line_search_morethuente, line_search_backtracking, update_trial_interval"), ("penalty interface", "LbfgsSolver::optimize, evaluate")],
  [cpp("h_lbfgs", SO, ("lbfgs_iterates", 300000, 8000000, "at least 2 variables and 3 iterations"), ("lbfgs_converges", 300000, 8000000, "at least 2 variables and 3 iterations"),
       ("lbfgs_parameters", 20000, 200000, "an invalid parameter"), ("penalty_interface", 100000, 3000000, "penalty active at the minimum, at least 2 variables"))],
  "The whole history of iterates (through the progress callback) is checked against the definition; the direction is recomputed from the last m corrections. Strong-Wolfe and penalties on non-convex functions are only required to descend. Two known findings (L1, L2) are reported, not raised: the stable tests pin them.")

RT = SI + "rt_optimizer/"
P("C15", "The real-time QP solver returns the minimiser, or says there is none",
  "For a strictly convex quadratic program with linearly independent equalities whose feasible set has interior, optimize() succeeds and the solution satisfies all equalities and inequalities and is the unique minimiser of x'Hx/2 + g'x. When the constraints contradict each other it returns false. The solver can be reset and reused for problems of other sizes, also after an infeasible one, rows may be appended in one piece or several, and its own solution check agrees.",
  ["inputs", "histories"], "every strictly convex program of up to 8 variables, 4 equalities, 14 inequalities, active, weakly active, parallel and redundant ones, and every sequence of reuse",
  "the three tests of the hierarchy never exercise dropping constraints from the active set or infeasibility",
  [RT + "RtQPSolver.hpp", RT + "RtQPSolverInterface.hpp"],
  [("dual active set method", "RtQPSolver::solveQP, addConstraint, deleteConstraint"), ("problem data", "RtQPSolverInterface::reset, appendEqualities, appendInequalities, checkSolution")],
  [cpp("h_rt", SO, ("qp_known_optimum", 400000, 20000000, "2 variables, 3 inequalities, at least one strongly active"), ("qp_infeasible", 300000, 15000000, "2 variables and a contradiction of at least 3 constraints"))],
  "Optimum known by construction (multipliers chosen first); infeasible by a Farkas combination.")

P("C16", "A hierarchy of tasks is solved lexicographically",
  "Solving ranks of equality and inequality tasks one after the other, each rank minimises the sum of squared residuals of its equalities and squared violations of its inequalities among all points that keep every higher-priority equality residual and do not raise the violation of any higher-priority inequality. It does so for any number of ranks, with tasks that conflict, repeat or are already fixed by earlier ranks. The model class gives the same result for constraints written as expressions in any order and side, for rows added by cost composers (which are notified of the solution), and leaves out variables marked as not optimised; solving again repeats the answer.",
  ["inputs", "histories"], "every hierarchy of up to 5 ranks over up to 6 variables, dense, rank deficient, sparse and conflicting",
  "the tests solve three fixed hierarchies; a lower rank disturbing a violated inequality of a higher one does not show there",
  [RT + "RtHQPSolver.h", RT + "RtModel.h", RT + "RtHQPSolver.hpp", RT + "RtModel.hpp", RT + "RtHQPCost.hpp"],
  [("one rank", "RtHQPSolver::solveNextTask"), ("nullspace projection thread", "RtHQPSolver::doSVDComputations"), ("model", "RtModel::solve, addCostsToHierarchy, appendRowsOfRank, reduceColumns")],
  [cpp("h_rt", SO, ("hierarchy_is_lexicographic", 300000, 10000000, "at least 2 ranks solved, 2 variables"), ("hierarchical_model", 100000, 4000000, "at least 2 ranks"))],
  "Optimality of each rank is decided by the optimality conditions, with multipliers found by an independent nonnegative least squares; inequalities of earlier ranks may move by the documented relaxation of 1e-6.")

P("C17", "Real-time matrix helpers do to fixed-capacity matrices what they say",
  "Appending rows (with or without a vector, at a column offset), removing zero rows and substituting an affine map keep a matrix and its vector equal to what the same operations give on ordinary matrices, up to the declared capacity. Quadratic forms built from (weighted) norms evaluate to those norms, also after a substitution, and the nullspace map is an orthonormal basis of the kernel with the right rank.",
  ["inputs", "histories"], "every sequence of operations within the capacity, every matrix including rank deficient ones",
  "used only inside the hierarchical solver; some helpers are used nowhere else",
  [RT + "RtMatrix.hpp"],
  [("matrix and vector helpers", "RtMatrixUtils, RtVectorUtils, RtAffineUtils"), ("quadratic forms", "RtQuadraticUtils")],
  [cpp("h_rt", SO, ("rt_matrix_helpers", 400000, 20000000, "3 or more rows appended and one removed"))],
  "Model-based against ordinary dynamic matrices.", technique="stateful (model-based) property-based testing")

# ------------------------------------------------------------- solver_lqr ---
SL = ["solver", "solver_lqr"]
LB = "solver_lqr/src/solver_lqr/"
P("C18", "iLQR solves linear-quadratic problems exactly",
  "For every optimal control problem with (time-varying) linear or affine dynamics and convex quadratic costs with cross terms, under either integration rule, the iLQR solver ends at the optimal controls and cost of the problem, whatever the initial controls, the initial state, the regularisation and the line search settings. An iteration without regularisation reaches the optimum in one step, and then the feedback gains stored with the controls are the Riccati gains. Control limits that are never reached change nothing. Running it again from its solution does not raise the cost. One backward sweep over any given derivatives, at any regularisation, gives the feedforward and gains of that problem with the regularisation added to its control weights, or reports the step at which that problem has no minimum.",
  ["inputs", "configurations"], "every LQ problem with positive definite control weights, up to 8 steps, 4 states and 3 controls, every initial trajectory",
  "the solver_lqr test runs one nonlinear arm and accepts deviations of 2.0",
  [LB + "SolverLqr.cpp", LB + "BackwardPass.cpp", LB + "ForwardPass.cpp", LB + "OcpDescription.cpp"],
  [("backward sweep", "BackwardPass::optimizeController"), ("iteration, line search, regularisation", "SolverLqr::optimize"), ("control arithmetic", "ControlSequence::operator+, operator*")],
  [cpp("h_lqr", SL, ("lq_optimum", 30000, 3000000, "2 or more steps and initial controls away from the optimum"), ("backward_pass", 30000, 3000000, "2 or more steps"), ("stored_solution", 5000, 100000, "2 or more steps"))],
  "Reference: the condensed dense problem (exact minimiser) and an independently written Riccati recursion.")

P("C19", "iLQR trajectories obey the dynamics and the cost never gets worse",
  "For every smooth problem, the states and controls the iLQR solver ends with are an exact roll-out of the problem's dynamics (forward increment or fourth-order Runge-Kutta) from the given initial state, their cost is not above that of the initial controls, and no small step along the gradient is noticeably better. The forward pass applies feedforward plus feedback on the deviation from the nominal states, clamps to the limits, sums the stage costs and the final cost, and reports divergence exactly when a state exceeds the configured bound.",
  ["inputs", "configurations"], "every nominal trajectory, gains, limits, divergence bound and smooth nonlinear problem",
  "one fixed problem in the tests; a wrong roll-out is compensated by later iterations",
  [LB + "ForwardPass.cpp", LB + "SolverLqr.cpp", LB + "OcpDescription.cpp"],
  [("roll-out", "ForwardPass::applyController"), ("integration", "OcpBase::internal_dynamics"), ("acceptance", "SolverLqr::optimize")],
  [cpp("h_lqr", SL, ("forward_pass", 100000, 4000000, "2 or more steps with feedback"), ("nonlinear_descent", 12000, 500000, "2 or more steps, cost reduced"))],
  "The roll-out, integration rule and cost are recomputed by the harness; stationarity by projected gradient steps.")

P("C20", "Finite differences are the derivatives of the given functions",
  "For smooth dynamics and objectives, the first and second finite differences at every time step of the current trajectory, and of the final cost, are the derivatives with respect to states and controls, each stored under its name, index order and time step, up to the accuracy of central differences. They may be recomputed after the trajectory changed, and the trajectory is not changed by differentiation.",
  ["inputs", "configurations"], "every cubic dynamics and objective, time-varying, of up to 3 states and 3 controls, every subset of requested derivatives",
  "no test looks at the derivatives; an exchanged index cancels for symmetric problems",
  [LB + "FiniteDifferences.cpp", "solver_lqr/include/solver_lqr/FiniteDifferences.hpp"],
  [("central differences", "FiniteDifferences::computeDynamicsFirstDerivatives, computeDynamicsSecondDerivatives, computeObjectiveFirstDerivatives, computeObjectiveSecondDerivatives")],
  [cpp("h_lqr", SL, ("finite_differences", 150000, 6000000, "2 or more states and controls"))],
  "Analytic derivatives of random cubic polynomials.")

P("C21", "iLQR respects control limits and finds the best controls within them",
  "When the settings contain control limits, every control of the final trajectory lies within them, whatever the initial controls; for linear-quadratic problems the cost reached is the minimum among all controls within the limits (up to the slow convergence clamping causes), and the cost is never above that of the clamped initial controls.",
  ["inputs", "configurations"], "every LQ problem with box limits, active and inactive, symmetric or not",
  "no test uses control limits",
  [LB + "BackwardPass.cpp", LB + "ForwardPass.cpp", LB + "SolverLqr.cpp"],
  [("box-constrained step", "BackwardPass::findConstrainedControls"), ("clamping", "ForwardPass::applyController")],
  [cpp("h_lqr", SL, ("lq_box_optimum", 15000, 500000, "2 or more steps and a limit active at the end"), ("forward_pass", 30000, 1000000, "2 or more steps with feedback"))],
  "Reference: cyclic coordinate descent on the condensed box-constrained problem.")

P("C22", "iLQR settings, sequences and stored solutions keep what they are given",
  "Every setting of the configuration file is read into the parameter of that name, read back unchanged, and setting one changes no other; the number of time steps is the horizon divided by the step as written. Sequences of states and controls have the size they were given last, start at zero, and their sums and multiples are taken element by element with the gains of the documented operand. A stored solution file contains the dimensions, states, controls and gains of the solution, and loading it restores the gains; a problem can be initialised again.",
  ["inputs", "histories"], "every configuration, every horizon that is a multiple of the step in decimal notation, every sequence content, every stored solution",
  "only a handful of values occur in the configuration used by the test",
  [LB + "SolverLqrSetting.cpp", LB + "OcpDescription.cpp", LB + "SolverLqr.cpp"],
  [("settings", "SolverLqrSetting::initialize, get"), ("sequences", "StateSequence, ControlSequence"), ("files", "SolverLqr::storeSolution, loadSolution")],
  [cpp("h_lqr", SL, ("settings", 20000, 300000, "3 or more steps, with limits"), ("sequences", 100000, 3000000, "2 or more time steps and controls"), ("stored_solution", 5000, 100000, "2 or more steps"))],
  "yaml_utils is not in the repository and is replaced by a stand-in (stubs/yaml_utils).")

# ------------------------------------------------------------ momentumopt ---
MO = ["solver", "solver_lqr", "momentumopt"]
MM = "momentumopt/src/momentumopt/"
MI = "momentumopt/include/momentumopt/"
P("C23", "Orientation utilities turn the shortest way and round-trip with integration",
  "For every pair of orientations, normalised or not and of either sign, the orientation error is the world-frame rotation vector of the shortest rotation from the current to the desired orientation, and the required angular velocity is that vector per time, in world or body coordinates as asked. Integrating an angular velocity for a time rotates about it by its norm times the time, returns a unit quaternion, and integrating the required angular velocity for the same time gives the desired orientation (up to the 0.3 % that the small-angle form of the logarithm allows).",
  ["inputs"], "every pair of orientations, rotation angle from zero to nearly half a turn, time and angular velocity",
  "no stable test calls these functions; errors vanish for orientations near the identity or rotations about a common axis",
  [MM + "utilities/OrientationUtils.cpp", MI + "utilities/OrientationUtils.hpp"],
  [("error and velocity", "orientationError, requiredAngularVelocity"), ("integration", "integrateAngularVelocity, exponentialMap")],
  [cpp("h_mom", MO, ("orientation", 300000, 20000000, "current orientation away from the identity and a rotation above 0.01 rad"))],
  "Reference: Rodrigues' formula evaluated by the harness. Rotations within 0.04 rad of half a turn are only required to reach the target.")

P("C24", "Interpolation meets its conditions and is continuous with clamped ends",
  "The interpolator returns, for every set of position, velocity and acceleration conditions (conditions of a kind at distinct times, in any order, at any time, before, at or after zero, each kind at times of its own) that determines it, the polynomial of lowest degree through all of them, with its true first and second derivative, and holds the boundary value of each outside the range of times. The trajectory generator between two points starts and ends at rest (zero velocity and acceleration) at the given points and passes the via-point half-way, likewise held outside its times. Both can be initialised again.",
  ["inputs", "histories"], "every set of conditions at one to three instants, times from -5 to 60, spans from 0.05 to 5",
  "the repository's tests use one trajectory starting at zero; errors depend on the time at which a motion starts",
  [MM + "utilities/TrajectoryGenerator.cpp", MI + "utilities/TrajectoryGenerator.hpp"],
  [("polynomial fit", "Interpolator::initialize, interpolate"), ("via-point trajectory", "TrajectoryGenerator::initialize, update")],
  [cpp("h_mom", MO, ("interpolation", 60000, 4000000, "two or three instants"), ("trajectory", 60000, 4000000, "via-point off the middle"))],
  "Reference: the Hermite interpolation solved by the harness with pivoting.")

P("C25", "Terrain regions contain exactly the points of their polygon",
  "For every convex planar polygon, given directly or in a file, in any position and orientation, the half-spaces of the terrain region contain the points of the polygon and exclude the points of its plane beyond each edge; they are normalised and perpendicular to the terrain; the point on the terrain is the mean of the vertices, the normal is that of the plane, and the third axis of the terrain rotation is the normal while the first two are unit vectors in the plane. Rectangular regions have a proper rotation that agrees with the orientation quaternion. Regions are numbered in the order in which they were given.",
  ["inputs"], "every convex polygon with 3 to 8 vertices in counter-clockwise order, every plane, up to three regions",
  "the tests read one file with axis-parallel regions",
  [MM + "cntopt/TerrainDescription.cpp", MI + "cntopt/TerrainDescription.hpp"],
  [("half-spaces and frame", "TerrainRegion::TerrainRegion"), ("files", "TerrainDescription::loadFromFile, addTerrainRegion")],
  [cpp("h_mom", MO, ("terrain", 20000, 800000, "a region with 4 or more vertices"))],
  "Membership is decided by construction: convex combinations of the vertices are inside, points pushed out across an edge are outside.")

P("C26", "Contact plans read from files are the contacts and via-points written there",
  "Loading a contact plan gives, for every end-effector, exactly the contacts and via-points of the file in their order, with activation and deactivation time, position, orientation (w, x, y, z in the file), contact type and terrain, all selected, with consecutive optimisation numbers over all end-effectors and totals to match; loading another plan replaces it. The contact placement matrix is the pose of the contact and setting it sets the pose; contact states keep what they are given.",
  ["inputs", "histories"], "every plan with up to 3 contacts and 2 via-points per effector, every pose, loading once or twice",
  "one file is loaded by the tests and only its size is looked at",
  [MM + "cntopt/ContactState.cpp", MM + "cntopt/ContactPlanFromFile.cpp", MM + "cntopt/ContactPlanInterface.cpp", MI + "cntopt/ContactState.hpp"],
  [("files", "ContactSequence::loadFromFile, ViapointSequence::loadFromFile, ContactPlanFromFile::optimize"), ("placements", "ContactState::contactPlacement")],
  [cpp("h_mom", MO, ("contact_files", 6000, 300000, "two or more contacts"))],
  "Round trip through a generated file. yaml_utils is replaced by a stand-in (stubs/yaml_utils).")

P("C27", "End-effectors are active at exactly the time steps their contacts cover",
  "After filling a dynamics sequence from a contact plan, an end-effector is active at a time step exactly if one of its selected contacts is active at the time of that step (activation included, deactivation excluded, the first step ending one time step after zero), is then at the pose of that contact and refers to it, and its active steps are numbered consecutively and counted. Contacts that are not selected, or of a plan filled in before, leave no trace.",
  ["inputs", "histories"], "every plan of up to 4 ordered contacts per effector with any start, length (also zero) and gaps, any horizon and step, several plans one after the other into the same sequence",
  "the tests compare the final motion of two plans, where a wrong boundary step changes little",
  [MM + "cntopt/ContactPlanInterface.cpp"],
  [("activation of steps", "ContactPlanInterface::fillDynamicsSequence")],
  [cpp("h_mom", MO, ("activation", 30000, 2000000, "some steps active and some not"))],
  "Times are multiples of a quarter of a binary-exact step so that rounding does not decide.")

P("C28", "Swinging end-effectors move smoothly from contact to contact via the via-point",
  "With kinematics loaded, an end-effector in flight follows the trajectory that starts at rest at the contact it left (its initial pose before the first contact) and ends at rest at the next contact (its current contact moved by the motion of the center of mass after the last), through the via-point given for that swing or else the middle, with matching velocity and acceleration, also when the time steps differ in length, while its orientation turns to the next contact's at uniform rate during the first half. During contact it stays at the contact; without kinematics, or without any contact, nothing moves; the activations are not changed.",
  ["inputs"], "every sequence of flights of two or more steps and contacts for four effectors, any via-points, constant or varying time steps",
  "depends on the history of contacts of each effector; the tests run one plan and compare the end",
  [MM + "cntopt/ContactPlanInterface.cpp", MM + "utilities/TrajectoryGenerator.cpp"],
  [("swing trajectories", "ContactPlanInterface::updateEndeffectorTrajectories")],
  [cpp("h_mom", MO, ("swings", 8000, 400000, "at least one flight"))],
  "Reference: Hermite interpolation by the harness. Where a motion ends after the last contact is the initial position plus the motion of the center of mass, as coded.")

P("C29", "Planner settings are read into the parameter of their name and kept",
  "Every entry of the planner configuration is read into the parameter of that name (with the entries that apply for the heuristic and kind of kinematics chosen), the derived ones follow (weight, gravity vector, number of time steps = horizon divided by step as written, extended degrees of freedom), read-only and writable access agree, and writing a parameter changes no other. Reading another configuration replaces the settings; the variables may have any name.",
  ["inputs", "histories"], "every configuration, both kinds of kinematics, every horizon and step in decimals, every sequence of writes",
  "there are more than 150 parameters and the tests look at the effect of a few",
  [MM + "setting/PlannerSetting.cpp", MI + "setting/PlannerSetting.hpp"],
  [("reading", "PlannerSetting::initialize"), ("access", "PlannerSetting::get")],
  [cpp("h_mom", MO, ("settings", 4000, 120000, "with kinematics"))],
  "Model-based: a table of name, parameter and value kept by the harness.", technique="stateful (model-based) property-based testing")

P("C30", "Planner states and sequences keep what they are given",
  "The initial robot state is what the file says for the center of mass, momenta and every end-effector (activation, position, orientation, force). Dynamics and kinematics sequences have the size given last with new states at zero and no active end-effector; every state keeps momenta, rates, forces, torques, centers of pressure, positions, velocities and accelerations of every end-effector apart from each other. Robot posture, velocity and acceleration vectors are base position, base orientation or angular part, then joints, written in parts or as a whole. Whatever was written last, through references, setters or lists, is what references, constant references and lists read, in copies too.",
  ["inputs", "histories"], "every content of every field, up to 9 states, resizing",
  "a container that mixes up two end-effectors looks right when both hold the same value",
  [MM + "dynopt/DynamicsState.cpp", MI + "dynopt/DynamicsState.hpp", MM + "kinopt/KinematicsState.cpp", MI + "kinopt/KinematicsState.hpp"],
  [("initial state", "DynamicsState::fillInitialRobotState"), ("sequences", "DynamicsSequence::resize, KinematicsSequence::resize"), ("posture", "RobotPosture, RobotVelocity, RobotAcceleration")],
  [cpp("h_mom", MO, ("states", 15000, 600000, "2 or more states"), ("containers", 6000, 300000, "3 or more writes to 2 or more states"))],
  "Distinct markers in every field, compared afterwards.")

P("C31", "Optimised motions obey the centroidal dynamics and the contact constraints",
  "Whenever the dynamics optimiser answers Optimal with fixed timing, the plan it stores obeys physics at every time step: the linear momentum is the previous one plus the effect of gravity, the contact forces and (at the first step) the external force over the step, the center of mass follows the linear momentum, and the angular momentum follows the moments of the contact forces at their centers of pressure plus the contact torques. End-effectors act only at the steps, and from the pose, of their contacts. Forces lie in the friction cone of their contact (linear or round; contact type free of friction limits excepted), centers of pressure and torques within their ranges, leg lengths and the height of the center of mass within their limits, and torques at the contact point match force, center of pressure and torque. This holds for soft constraints and trust regions, with or without tracking, and for an optimiser used before.",
  ["inputs", "configurations", "histories"], "every contact plan for 2 to 4 end-effectors with tilted and turned contacts, every weight, reference, robot mass, gravity, friction coefficient and limit",
  "the tests compare a few plans with numbers recorded from the same code, within 0.1; physics at one step is not looked at",
  [MM + "dynopt/DynamicsOptimizer.cpp", MM + "dynopt/DynamicsState.cpp"],
  [("dynamics and constraints", "DynamicsOptimizer::internalOptimize"), ("storing the solution", "DynamicsOptimizer::storeSolution, saveSolution")],
  [cpp("h_dyn", MO, ("physics", 1800, 120000, "answered Optimal"))],
  "Recomputed by the harness from the returned forces; tolerances of 1e-3 (momentum relative to weight times step) follow the solver accuracy; a violation counts if it is also there on the shifted problem.")

P("C32", "Motions with optimised timing keep durations, forces and kinematics in range",
  "With time optimisation, every plan answered Optimal has time steps within the time range, which together last the given horizon if it is fixed; the rate of linear momentum stored with every step is gravity plus the contact forces of that step; and friction cones, center of pressure and torque ranges, leg lengths, the height limit and the contacts of each step hold as for fixed timing. Plans are made for ordinary problems, center of mass and momenta are, more often than not, those that forces and durations cause, and where only durations matter they are those the weights ask for (time step, penalty, range, fixed horizon).",
  ["inputs", "configurations"], "as for fixed timing, with every time range around the nominal step, weights on time, fixed or free horizon",
  "the tests run two fixed problems and compare recorded numbers",
  [MM + "dynopt/DynamicsOptimizer.cpp"],
  [("time variables", "DynamicsOptimizer::internalOptimizeTime, optimize"), ("storing the solution", "DynamicsOptimizer::storeSolution, saveSolution")],
  [cpp("h_dyn", MO, ("timing", 1500, 80000, "answered Optimal"), ("timing_consistent", 80, 5000, "3 or more of 6 plans with adapted durations"), ("timing_weights", 800, 40000, "answered Optimal"))],
  "Time optimisation stops at a tolerance on the bilinear relations, so that momentum and center of mass are not required to match the forces exactly.")

P("C33", "Planned forces minimise the configured objective",
  "Without angular momentum terms, the forces of a plan answered Optimal minimise the weighted objective of the settings (final center of mass, momentum, momentum rate, forces, force changes, via-points, tracking; references from the kinematics) among those within the constraints: no other admissible forces cost noticeably less, the minimum is reached where no constraint is active, contact torques that serve no objective stay zero, and a problem with an admissible solution is never called infeasible. Moving or turning the whole problem moves or turns the plan, and problems solved before have no influence. Weights on angular momentum, its rate and its final value serve the axis, term and reference they are given for: plans made for them cost less in that objective than plans made for another, more often than not.",
  ["inputs", "configurations", "histories"], "every weight (including zero), reference, displacement, via-point and contact plan",
  "what the optimum of a plan is cannot be seen from recorded numbers, and all weights of the tests are equal or symmetric",
  [MM + "dynopt/DynamicsOptimizer.cpp", MM + "cntopt/ContactPlanInterface.cpp"],
  [("objective", "DynamicsOptimizer::internalOptimize"), ("references", "DynamicsOptimizer::initializeOptimizationVariables, optimize")],
  [cpp("h_dyn", MO, ("optimal_forces", 1500, 100000, "more than 3 admissible moves tried or no active constraint"), ("invariance", 800, 50000, "both problems answered Optimal"),
       ("angular_cost", 160, 10000, "at least 2 of 5 scenes where the other plan costs more"))],
  "Reference: the objective as an explicit quadratic function of the forces; its minimiser, admissible moves along and off the gradient, and the plans for other weights. The angular part is judged over five scenes because the planner handles it approximately.")

P("C34", "The stored dynamics file is the plan",
  "When storing is requested, the file written by the dynamics optimiser contains, besides the contact plan of the configuration, the time step, horizon, mass, number of end-effectors, initial and goal center of mass, and per time step the center of mass, momenta, their references, the joint velocities and accelerations of the reference kinematics, the elapsed time, and the forces, torques and centers of pressure of each end-effector of the plan, zero where it is not in contact.",
  ["inputs", "configurations"], "every plan, with fixed or optimised timing, also when the solver gives up",
  "no test reads the file",
  [MM + "dynopt/DynamicsOptimizer.cpp"],
  [("file", "DynamicsOptimizer::saveToFile")],
  [cpp("h_dyn", MO, ("saved", 700, 40000, "an end-effector in contact"))],
  "The file is parsed by the harness and compared with the sequence of states.")

P("C35", "Momentum feedback control uses the plan's dynamics and cost",
  "The feedback problem made from a dynamics plan starts at the initial state of the plan with its forces as controls; its dynamics are the centroidal dynamics of the active contacts over the duration of each step, and its cost is the weighted deviation from the plan at that step (or at the end, without control cost) plus the weighted forces of active end-effectors. A plan of another length is refused. The wrapper returns the feedback gains of the iLQR solution of this problem, for times outside the horizon those of the nearest step, and the solution is a roll-out that costs no more than the plan's forces.",
  ["inputs", "configurations"], "every plan of 3 to 9 steps with varying durations, every state, control, step and weight",
  "no stable test runs it, and a wrong reference step changes the gains only a little",
  [MM + "dynopt/DynamicsFeedback.cpp", MI + "dynopt/DynamicsFeedback.hpp"],
  [("dynamics and objective", "DynamicsFeedback::dynamics, objective"), ("plan", "DynamicsFeedback::setStatesAndControls"), ("gains", "DynamicsFeedbackWrapper::forceGain")],
  [cpp("h_dyn", MO, ("feedback", 1500, 80000, "plan accepted"))],
  "Dynamics and cost recomputed by the harness at random states and controls.")

P("C36", "Kinematics plans within joint limits and floor are the best for the weights",
  "The kinematics optimiser first finds a posture for the initial state and for each time step, starting from the default joint positions and continuing from the posture before: every step of this search minimises the weighted errors of center of mass, end-effectors (weights for end-effectors in contact and others), default joint positions and slacks of the robot's own constraints, within the joint limits; targets that a posture within the limits meets are met. It then finds the motion: all postures stay within the joint limits and every end-effector above the floor; no other such motion has a lower weighted sum of deviations of center of mass, momenta, momentum rates, end-effector positions, default joints, velocities and accelerations; stored velocities and accelerations are the differences of the postures per time step. The file and the displayed postures are those of the motion.",
  ["inputs", "configurations", "histories"], "every plan of 1 to 4 steps, weights, limits, floor heights, contact phases, iteration counts, on robots with exactly known kinematics",
  "no test runs the kinematics optimiser, and whether a motion is the best one cannot be seen from numbers",
  [MM + "kinopt/KinematicsOptimizer.cpp", MM + "kinopt/KinematicsInterface.cpp", MI + "kinopt/KinematicsInterface.hpp"],
  [("postures", "KinematicsOptimizer::optimizePosture"), ("motion", "KinematicsOptimizer::optimizeTrajectory"), ("integration of postures", "KinematicsInterface::integratePosture, differentiatePostures")],
  [cpp("h_kin", MO, ("kin_motion", 4000, 100000, "at least 2 time steps"), ("kin_posture", 3000, 80000, "every case"), ("kin_reach", 1500, 40000, "every case"))],
  "The harness implements the kinematics interface for random robots whose center of mass, momentum and end-effector positions are linear in base position, rotation vector and joints, so that every optimisation has one known convex form; optimality is judged against coordinate descent and admissible moves.")

# ------------------------------------------------- momentumopt, Python side ---
MP = "momentumopt/python/momentumopt/"
PYM = (("pymomentum", ("momentumopt", "solver_lqr", "solver")),)
PYM3 = PYM + (("pysolver", ("solver",)), ("pysolverlqr", ("solver_lqr", "solver")))

P("C37", "Feet rest on their contacts, swing in between, postures pass their via points",
  "The end-effector references of the Python kinematics planner have every end-effector exactly at its contact position, at rest and marked as in contact, at the time steps in which the dynamics plan has it active, and between two contacts they move on minimum-jerk curves from one position to the other, at rest at both ends, raised by the configured height (or through the configured offset) half way. Polynomials fitted to values and derivatives have these values and derivatives, a list of polynomials uses the one whose window contains the time, and posture references start and end at the initial posture and pass the via points at their times.",
  ["inputs", "schedules"], "every plan of contacts of 2 to 4 end-effectors, every time step, via point list and polynomial of up to 8 conditions",
  "contact plans with late or missing contacts are not in the tests, and no stable test runs this code",
  [MP + "kinoptpy/min_jerk_traj.py", MP + "kinoptpy/momentum_kinematics_optimizer.py"],
  [("fit", "Polynominal, poly_points, constant_poly"), ("windows", "PolynominalList"), ("swings", "EndeffectorTrajectoryGenerator"), ("postures", "TrajectoryInterpolator")],
  [py("k_swing", ("poly_fit", 20000, 400000, "3 or more conditions at 2 or more times"), ("min_jerk", 40000, 1000000, "end points differ or a via-point"), ("windows", 5000, 100000, "2 or more windows"),
      ("feet", 3000, 60000, "a swing between two contacts"), ("postures", 3000, 60000, "2 or more via points or the last one at the end"), modules=PYM)],
  "Reference: the sixth-order polynomial in closed form, evaluated from the contact schedule.")

P("C38", "First-order inverse kinematics tracks the plan as well as its weights allow",
  "Every velocity computed by the first-order inverse kinematics minimises the weighted sum of the errors in linear and angular momentum, end-effector velocities (weights for end-effectors in contact and others) and joint regularisation, each with its position feedback, for any robot, configuration and call history; in flight the momentum is met exactly. The quadratic programs below are solved to optimality within their equalities and inequalities. The kinematic motion starts at the initial posture (which stands on the given contacts), integrates these velocities over the time steps, keeps the momentum in flight apart from gravity, and what it stores (center of mass, momenta, postures, velocities, end-effector positions and velocities, also from the hips) belongs to its postures.",
  ["inputs", "configurations", "histories"], "every quadruped or biped, posture, reference, contact state, weight and plan with and without flight phases and via points",
  "results are only ever looked at in simulation; a wrong row, weight, frame or stale value still yields plausible motions",
  [MP + "kinoptpy/inverse_kinematics.py", MP + "kinoptpy/qp.py", MP + "kinoptpy/momentum_kinematics_optimizer.py"],
  [("velocities", "PointContactInverseKinematics.compute"), ("quadratic programs", "QpSolver.quadprog_solve_qp"), ("motion", "MomentumKinematicsOptimizer.optimize, optimize_initial_position, fill_kinematic_result")],
  [py("k_ik", ("quadratic_program", 15000, 300000, "equalities present or an inequality active"), ("first_order", 2000, 60000, "2 or more calls"),
      ("initial_posture", 600, 20000, "default joints away from the solution"), ("motion", 900, 40000, "every case"), modules=PYM)],
  "Tasks recomputed with pinocchio apart from the code; optimality by the gradient of the weighted errors (and multipliers in flight).")

P("C39", "Second-order inverse kinematics integrates the best tracking accelerations",
  "Every acceleration computed by the second-order inverse kinematics minimises the weighted errors of the task accelerations: momentum rate with feedback on the current momentum, center of mass and base orientation, end-effector accelerations with position and velocity feedback, and joint regularisation, with the velocity-dependent terms of the tasks. The motion integrates these accelerations over the whole duration of each time step of the plan with references interpolated by splines, and the quantities returned and stored belong to its postures.",
  ["inputs", "configurations", "histories"], "every quadruped or biped, state, reference, gain, weight and time step",
  "a missing velocity-dependent term or stale momentum only makes motions slightly worse, and no stable test runs this code",
  [MP + "kinoptpy/second_order_ik.py", MP + "kinoptpy/momentum_kinematics_optimizer.py"],
  [("accelerations", "SecondOrderInverseKinematics.step, update_kinematics, update_des_acc"), ("integration", "SecondOrderInverseKinematics.solve")],
  [py("k_ik", ("second_order", 10000, 300000, "velocity-dependent terms above 0.1"), ("second_order_motion", 1500, 60000, "3 or more time steps"),
      ("motion_second", 600, 30000, "every case"), modules=PYM)],
  "Reference accelerations use task Jacobians of pinocchio and their numerical time derivative; the motion is re-integrated.")

P("C40", "The Python planner and its bindings carry settings, states and plans over",
  "From Python, every exported planner and feedback parameter has the value of its configuration entry and writing one changes that one only; states, postures, velocities, accelerations, contacts and sequences give back what was put in, each field, end-effector and element apart from the others. The motion planner hands every first- or second-order inverse kinematics setting to the attribute it is for. Optimising a motion is one dynamics optimisation without tracking, then for each kinematics iteration kinematics and dynamics with tracking, on the plans of the round before; the results are those of the last round, the time vector holds the summed durations, feedback gains are computed only when asked for and are those of the plan, and stored files are those of the plans; the robot asked for on the command line is the one planned for. Replaying a motion shows the planned postures in their order. A robot described in Python (a subclass of the kinematics interface) is moved by the kinematics optimiser as it tells: the states are those it reports, within its joint limits, reach the targets within reach, and postures are displayed only when asked.",
  ["inputs", "configurations", "histories"], "every configuration, every state and plan, number of rounds, command line, and robots described in Python",
  "no stable test imports the bindings; a parameter handed to the wrong attribute still yields a plausible motion",
  ["momentumopt/srcpy/momentumopt/setting/PyParams.cpp", "momentumopt/srcpy/momentumopt/setting/PySetting.cpp", "momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp", "momentumopt/srcpy/momentumopt/kinopt/PyKinematics.cpp",
   "momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp", MI + "kinopt/PyKinematicsInterface.hpp", MP + "motion_planner.py", MP + "kino_dyn_planner.py"],
  [("parameters", "py_planner_params, py_setting"), ("states", "py_dynamics, py_kinematics, py_contacts"), ("hand-over", "MotionPlanner.init_from_settings"), ("rounds", "MotionPlanner.optimize_motion, kino_dyn_planner")],
  [py("k_plan", ("parameters", 1500, 30000, "kinematics parameters loaded"), ("states", 3000, 80000, "5 or more operations"), ("planner", 130, 4000, "1 or more rounds"),
      ("python_interface", 400, 10000, "2 or more time steps"), modules=PYM3)],
  "Bindings are checked against the YAML entries and against independent storage; the planner against recording stand-ins of its optimisers and the real ones.")

P("C41", "Executed references and data files are the plan, interpolated as written",
  "The desired state handed to execution (com, momenta, forces, moments and other planned quantities of the dynamics and kinematics sequence) at any time is the linear interpolation of the values at the time steps before and after, constant before the first and after the last time step, whatever the durations of the steps (time steps lie at the sums of the durations); contact forces and moments are multiplied by the robot weight. The files written for the controllers hold the interpolated plan at 1 kHz with an index column: joint and generalized positions, velocities and accelerations, forces in newtons, com and momenta until the end of the plan; for the whole-body controller, up to a whole second, joint positions and velocities, com, its velocity (linear momentum over mass), base orientation and angular velocity, centroidal forces and moments, end-effector positions and velocities (absolute and relative to the base) with the first two and last two legs exchanged, contact activation one exactly where the vertical force of the leg is positive, gain ratios of zero; for the centroidal LQR the absolute end-effector positions with the legs in reverse order.",
  ["inputs", "configurations"], "every sequence of 2 to 12 time steps with equal or different durations, every content of the sequences, every time",
  "no stable test writes these files, and swapped legs or shifted columns show up only on a robot",
  [MP + "motion_execution.py", MP + "kinoptpy/create_data_file.py", MP + "motion_planner.py"],
  [("interpolation", "desired_state, interpolate"), ("files", "create_file, create_qp_files, create_lqr_files"), ("times", "MotionPlanner create_time_vector")],
  [py("k_files", ("interpolated", 9000, 200000, "2 or more time steps"), ("joint_files", 240, 4000, "3 or more time steps"), ("impedance_files", 60, 1500, "3 or more time steps"),
      ("horizon_files", 60, 1500, "3 or more time steps"), modules=PYM3)],
  "Files are read back and compared with an interpolation by numpy.")

P("C42", "Centroidal LQR gains on the manifold solve the LQR of the planned motion",
  "The quaternion operations of the manifold controller (product, integration of a rotation vector, difference, skew matrix, derivatives; x, y, z, w) are those of rotations, and states whose quaternion is not of unit norm are refused. The reference motion is the roll-out of the planned centroidal forces and moments from the planned initial state, without effect while no end-effector is in contact. Derivatives of the dynamics are those of its step in the tangent space; the cost is the quadratic form of state difference and control deviation with the given weights (without control at the end), with its true first and second derivatives; the gains, feed-forward terms and value function are those of the backward recursion, and the file holds the gains of each time step.",
  ["inputs", "configurations"], "every plan of 2 to 8 steps, contacts, forces, inertia, weights, states away from the reference",
  "the stable tests look at one configuration at rest and check mostly shapes; an error in one derivative still gives stabilising gains",
  [MP + "kinoptpy/lqr_gain_manifold.py"],
  [("quaternions", "CentroidalLqr quaternion_product, log, integrate"), ("dynamics", "CentroidalLqr.integrate_step, dynamics_derivatives"), ("cost", "CentroidalLqr.compute_cost, cost_derivatives"), ("gains", "CentroidalLqr.compute_gains, store_gains")],
  [py("k_lqrpy", ("quaternions", 9000, 300000, "every case"), ("dynamics", 1500, 60000, "2 or more time steps"), ("not_unit", 1500, 20000, "a quaternion not of unit norm"),
      ("cost", 300, 10000, "2 or more time steps"), ("gains", 300, 10000, "2 or more time steps"), modules=PYM)],
  "Derivatives by central differences in the tangent space; gains by a separate recursion.")

# ------------------------------------------------- all of the C++ once more ---
def instrumented():
    # sub-properties in the instrumented build; the ones that plan many motions per case are left to the fast build
    heavy = {"angular_cost": 0, "timing_consistent": 0, "nonlinear_descent": 0.012, "optimal_forces": 0.012, "physics": 0.015, "invariance": 0.02, "timing_weights": 0.02, "feedback": 0.02,
             "timing": 0.01, "lq_box_optimum": 0.015, "finite_differences": 0.01, "penalty_interface": 0.01, "hierarchy_is_lexicographic": 0.02}
    runs = {}
    for P_ in PROPS.values():
        for r in P_["runs"]:
            if r["kind"] != "cpp":
                continue
            R = runs.setdefault(r["harness"], cpp(r["harness"], r["libs"], variant="asan"))
            for p in r["props"]:
                f = heavy.get(p[0], 0.03)
                if p[0] not in [x[0] for x in R["props"]] and f > 0:
                    R["props"].append((p[0], max(10, int(p[1] * f)), max(40, int(p[1] * f * 15))) + tuple(p[3:]))
    return list(runs.values())


P("C43", "No input touches foreign memory or relies on memory nobody set",
  "Whatever models, problems, plans, settings and files the solvers, the LQR library and the planner are given, and in whatever order they are used, they read and write only inside the objects, arrays and matrices they own, use nothing after its end, do no arithmetic without a meaning (overflowing integers, impossible enumeration or flag values, null or misaligned objects), and give the results the other properties ask for whatever their memory held before.",
  ["inputs", "histories"], "the inputs and histories generated for all other properties of the C++ libraries",
  "a wrong index or an unset value usually hits memory that happens to be harmless in a test",
  ["solver/src/solver", "solver/include/solver", "solver_lqr/src/solver_lqr", "solver_lqr/include/solver_lqr", "momentumopt/src/momentumopt", "momentumopt/include/momentumopt"],
  [("index arithmetic", "cone views, sparse matrices, optimisation variables, time step and end-effector indices"), ("lifetime", "models, sequences and settings used again"), ("initialisation", "constructors and initialize methods")],
  instrumented(),
  "AddressSanitizer and UndefinedBehaviorSanitizer abort the case; new matrices hold NaN, new heap and stack memory a pattern, so that the oracles of the other properties notice what nobody set.",
  technique="property-based testing (all C++ generators) under AddressSanitizer and UndefinedBehaviorSanitizer with poisoned fresh memory",
  max_s={"quick": 300, "thorough": 3000})
