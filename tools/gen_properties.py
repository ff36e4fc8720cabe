"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
  d = dict(id=id, title=title, statement=statement,
           quantifier=dict(over=over, text=qtext), why_tests_cant=why,
           anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
  assert len(title) <= 80, (id, len(title))
  P.append(d)

S = "jaxopt/_src/"

prop("P01", "Bounded while loops and conditionals equal their Python semantics",
 "For every condition, body and start value, the bounded while loop returns exactly the state a Python `while cond: body` loop reaches after at most `maxiter` bodies (also for maxiter 0 and 1), and the answer is the same for every combination of its `jit` and `unroll` switches, under an outer jit and under vmap. The conditional helper returns the branch selected by the predicate whether or not it is jitted. Reverse-mode derivatives through an unrolled loop are those of the executed iterations only.",
 ["programs", "configurations"],
 "all transition functions and predicates on a small state space, all bounds, all jit/unroll modes, all start states (also batched)",
 "loop_test checks one Newton iteration; the three implementations (scan+cond, python, lax.while) can disagree for particular predicates, bounds or batches.",
 [S+"loop.py", S+"cond.py"],
 [("scan / python / lax while loops", S+"loop.py"), ("cond", S+"cond.py")])

prop("P02", "run() is the documented init/update loop, in every execution mode",
 "For every iterative solver, `run` returns the same parameters and state as calling `init_state` once and then `update` repeatedly, stopping as soon as the state's error is at most `tol` or `maxiter` updates have been made; `iter_num` counts the updates and with maxiter=0 the initial parameters come back unchanged. The answer does not depend on `jit`, `unroll` or `implicit_diff`, on an outer `jax.jit`, or on starting from `OptStep`s, and batching problems with `jax.vmap` gives for every problem what running it alone gives, however many iterations its neighbours need.",
 ["configurations", "histories", "inputs"],
 "all solvers x execution modes x maxiter 0..k x tolerances x batch compositions",
 "Tests run one or two modes per solver, from one start, to convergence; the interplay of early stop, bound and batching masks is never enumerated.",
 [S+"base.py", S+"loop.py"],
 [("IterativeSolver.run/_run", S+"base.py"), ("while_loop", S+"loop.py"), ("update/init_state of each solver", S+"*.py")])

prop("P03", "Line searches only claim success on steps that meet their condition",
 "Whatever values and slopes the objective returns along the search direction (including NaN and infinity), backtracking, zoom and Hager-Zhang line search stop within `maxiter` updates; returned parameters are exactly start + stepsize * direction, with stepsize nonnegative (and within `max_stepsize` for backtracking and zoom; Hager-Zhang documents it as unused), and the returned value, gradient and auxiliary output belong to those parameters. A search reported done and not failed satisfies the requested sufficient-decrease / curvature condition (Armijo, Goldstein, Wolfe, strong Wolfe, approximate Wolfe) at the returned step, or for the zoom search is the largest allowed step; a search that ends without meeting it is reported as failed, and never both done and failed. Backtracking returns the first admissible step of its geometric sequence; zoom falls back on a point of sufficient decrease when it has seen one; zoom and Hager-Zhang succeed within their default budget on smooth strictly convex profiles. The bracket zoom keeps carries the objective's own values and slopes, its trials lie inside it, and its interpolation is exact on polynomials up to the third degree; every interval Hager-Zhang keeps has opposite slopes at its ends and sufficient decrease at the lower one, lies in the previous interval and is shorter by the promised factor.",
 ["inputs", "histories", "configurations"],
 "all sequences of objective answers from a finite alphabet at the points each search queries, x conditions x initial/maximal stepsizes x budgets",
 "Tests use smooth convex functions where the first or second trial succeeds; zoom/secant branches, non-finite values and failure paths need adversarial answer sequences.",
 [S+"backtracking_linesearch.py", S+"zoom_linesearch.py", S+"hager_zhang_linesearch.py", S+"linesearch_util.py", S+"base.py"],
 [("backtracking update", S+"backtracking_linesearch.py"), ("interval search / zoom", S+"zoom_linesearch.py"), ("bracketing, secant2, theta-bisection", S+"hager_zhang_linesearch.py"), ("initial stepsize rule, setup", S+"linesearch_util.py")])

prop("P04", "Projections return the exact nearest feasible point",
 "Every projection operator returns a point of its set, and no point of the set is nearer to the input, for every input and every valid hyperparameter setting, including ties, points already in the set (returned unchanged), boundary points and degenerate sets (iterative ones to their stated tolerance). Where the operator is differentiable its derivative with respect to the input (and to differentiable hyperparameters) is the derivative of the exact projection, and it behaves the same under jit, vmap and on pytrees when pytrees are supported.",
 ["inputs", "configurations"],
 "all points of small grids in 1-4 dimensions x all hyperparameters of a grid",
 "Tests compare a handful of random Gaussian points, which never hit ties, boundaries, vertices or degenerate hyperparameters.",
 [S+"projection.py"],
 [("projection_* functions", S+"projection.py"), ("isotonic/simplex threshold search", S+"projection.py")])

prop("P05", "Proximal operators return the exact minimiser of the prox objective",
 "Every prox operator returns the minimiser over z of 0.5||z - x||^2 + scaling * g(z, hyperparams) (lasso, elastic net, group lasso, ridge (with the factor 1/2), their nonnegative variants, none, and those built from a projection), for every input, hyperparameter and scaling, scalar, broadcast or per-coordinate, including points on the kinks. It accepts pytrees where documented, and its derivatives with respect to input, hyperparameters and scaling are finite and equal those of the exact solution map at differentiable points.",
 ["inputs", "configurations"],
 "all inputs, hyperparameters and scalings of a grid in 1-3 dimensions, scalar / per-coordinate forms",
 "Tests compare a few random vectors with a generic solver at one or two hyperparameters.",
 [S+"prox.py", S+"tree_util.py"],
 [("prox_* functions", S+"prox.py")])

prop("P06", "Isotonic regression is exact for every ordering pattern",
 "Isotonic regression with squared error returns the exact nondecreasing (or nonincreasing) least-squares fit within the optional bounds, for every input sequence (all rises, falls and ties, integer or floating); pooled blocks carry the exact block optimum and the result depends on each coordinate through its block only. Its Jacobian-vector and vector-Jacobian products are those of the block-mean map, so soft-sort style operators and permutahedron projections built on it have correct values and derivatives, under jit and vmap.",
 ["inputs"],
 "all integer-valued sequences over a small alphabet up to length n, every pooling pattern",
 "Tests use random vectors and compare to scikit-learn for one length; pooling chains of every shape and ties are not enumerated.",
 [S+"isotonic.py", S+"projection.py"],
 [("PAV solvers", S+"isotonic.py"), ("custom jvp/vjp", S+"isotonic.py")])

prop("P07", "Losses and objectives equal their definitions, with matching gradients",
 "Each loss and ready-made objective equals its mathematical definition for every label and score, however large, stays finite where the definition is finite, is convex and nonnegative where documented, and its gradient is the derivative of that definition (a subgradient at kinks). Ready-made objectives take the mean over samples, treat intercepts and regularisation by their formula, and their column-wise Lipschitz constants bound the curvature of every block.",
 ["inputs"],
 "all labels x score grids including ties, extreme magnitudes and boundary values",
 "Tests sample random logits of order one and a few hand-chosen values.",
 [S+"loss.py", S+"objective.py", S+"linear_operator.py"],
 [("loss functions", S+"loss.py"), ("objective functions", S+"objective.py")])

prop("P08", "Quadratic-programming solvers return the true optimum or say why not",
 "For every convex quadratic program, OSQP, BoxOSQP, the equality-constrained QP, the box coordinate-descent QP and the CVXPY wrapper return, whenever they report success, the primal solution and dual variables that satisfy the KKT conditions of the stated problem, and OSQP/BoxOSQP never report infeasibility of a problem that has a solution: primal (dual) infeasibility is reported only for problems that are infeasible (unbounded; problems that are both may get either report), and with the direct linear solver every such problem is recognised. The same problem gives the same answer in each documented way of passing it (matrices, matrix-free matvec, user objective function, pytrees, absent constraint blocks), for each equality-QP/OSQP linear-solve option, cold or warm-started.",
 ["inputs", "configurations"],
 "all QPs over small integer matrices/vectors (every active-set pattern, infeasible and unbounded ones), x formats x solve options x warm starts",
 "Tests solve a few random feasible problems per format.",
 [S+"osqp.py", S+"eq_qp.py", S+"cd_qp.py", S+"cvxpy_wrapper.py", S+"iterative_refinement.py"],
 [("ADMM iteration and termination", S+"osqp.py"), ("KKT system", S+"eq_qp.py"), ("coordinate descent", S+"cd_qp.py")])

prop("P09", "Implicit differentiation returns the derivative of the solution map",
 "Derivatives obtained through a solver's `run` with implicit differentiation, or through the custom-root / custom-fixed-point decorators, equal the derivative of the exact solution map with respect to every differentiable argument, however arguments are passed (positionally, by keyword, as pytrees, with auxiliary outputs) and in reverse mode, forward mode where documented, and under jit and vmap. They use the user's linear solver when one is given, agree with differentiating the unrolled iterations, and do not depend on the initial parameters, for which the gradient is zero.",
 ["configurations", "inputs"],
 "all argument layouts (positional/keyword splits), solvers, transformation orders and problems of a closed-form family",
 "Tests check one layout per solver on random data.",
 [S+"implicit_diff.py", S+"base.py"],
 [("root_vjp/root_jvp/custom_root", S+"implicit_diff.py"), ("optimality_fun/fixed-point wiring", S+"base.py and each solver")])

prop("P10", "Linear solvers solve the given system, in every structure and option",
 "Every linear-system solver (dense LU, Cholesky, QR, inverse; CG, normal-CG, GMRES, BiCGSTAB) and iterative refinement returns the solution of (A + ridge I) x = b (the ridge-regularised normal equations for normal-CG) for every matrix of the class it supports, for scalar, vector, matrix and pytree right-hand sides, from any initial guess, and its result can be differentiated and vmapped. Linear-operator wrappers (dense, pytree, matvec) apply A, its transpose and their combinations exactly, including per-row/column products, their incremental updates and column norms.",
 ["inputs", "configurations"],
 "all small integer matrices of each class (SPD, symmetric, general, singular for least squares), right-hand-side shapes, ridge values and initial guesses",
 "Tests use one random well-conditioned matrix per solver and do not cross ridge, shape and init.",
 [S+"linear_solve.py", S+"iterative_refinement.py", S+"linear_operator.py"],
 [("solve_*", S+"linear_solve.py"), ("IterativeRefinement", S+"iterative_refinement.py"), ("LinearOperator", S+"linear_operator.py")])

prop("P11", "Quasi-Newton memory always represents the exact recent curvature pairs",
 "After any number of updates, including after the history buffer has wrapped around, the inverse-Hessian approximations of BFGS and L-BFGS and the compact Hessian of L-BFGS-B equal the textbook matrix built from the most recent `history_size` curvature pairs (all pairs for BFGS) in chronological order, and Broyden's inverse Jacobian equals gamma*I plus the rank-one corrections of the most recent `history_size` updates, with inner products taken over the whole parameter pytree. The search direction is minus that matrix times the gradient (residual) - for L-BFGS-B the generalised Cauchy point and truncated subspace minimiser of that model in the box - and is a descent direction when the stored curvatures are positive. A pair without information (unchanged gradient or residual) leaves the approximation usable, and L-BFGS-B never stores a pair of non-positive curvature.",
 ["histories", "configurations"],
 "all sequences of curvature pairs over a small alphabet longer than the buffer, all buffer sizes, all pytree packings",
 "Tests check convergence on a few functions, which tolerates a wrong or mis-ordered memory, and compare one two-loop product.",
 [S+"lbfgs.py", S+"bfgs.py", S+"lbfgsb.py", S+"broyden.py"],
 [("two-loop recursion, update_history", S+"lbfgs.py"), ("compact representation", S+"lbfgsb.py"), ("dense update", S+"bfgs.py"), ("good Broyden update", S+"broyden.py")])

prop("P12", "Descent solvers never increase the objective; box solvers never leave the box",
 "With a line search enabled, gradient descent, BFGS, L-BFGS, nonlinear CG and L-BFGS-B produce iterates whose objective value never increases while the line search succeeds, and the state's value, gradient and error always describe the returned parameters. Every iterate of L-BFGS-B, projected gradient, box coordinate descent and mirror descent is feasible, and when a solver stops with error at most tol, the returned point satisfies first-order optimality to that tolerance, for every start and every box (including fixed and unbounded coordinates).",
 ["inputs", "histories", "configurations"],
 "all starts and boxes of a grid x small objective families x solver options, at every iteration",
 "Tests look at the final iterate of one or two starts; intermediate iterates and state consistency are not observed.",
 [S+"gradient_descent.py", S+"bfgs.py", S+"lbfgs.py", S+"nonlinear_cg.py", S+"lbfgsb.py", S+"projected_gradient.py", S+"mirror_descent.py", S+"cd_qp.py"],
 [("update methods", S+"*.py"), ("generalised Cauchy point, subspace minimisation", S+"lbfgsb.py")])

prop("P13", "Levenberg-Marquardt and Gauss-Newton accept only steps that reduce the cost",
 "Levenberg-Marquardt never returns parameters of larger squared residual than the ones it started from: a trial step whose gain ratio is not positive, or whose residual is not finite, leaves parameters, residual and gradient untouched and raises the damping by its rule, while an accepted step lowers the cost and updates the damping by the documented formula. Each step solves the damped normal equations (undamped for Gauss-Newton) to solver accuracy for every solver option and Jacobian mode (materialised or not, user Jacobian or not, with or without geodesic acceleration), and the reported residual, loss, gradient and error of Levenberg-Marquardt belong to the returned parameters (Gauss-Newton reports those of the point its step was taken from, and the step length as its error).",
 ["inputs", "histories", "configurations"],
 "all residual answer sequences of a finite alphabet incl. NaN/inf, x solver/Jacobian/stop options, at every iteration",
 "Tests run classical curve-fitting problems to convergence and do not examine rejected steps or invalid trial residuals.",
 [S+"levenberg_marquardt.py", S+"gauss_newton.py"],
 [("update / gain ratio", S+"levenberg_marquardt.py"), ("normal equations", S+"gauss_newton.py")])

prop("P14", "Root finders and fixed-point accelerators do what their definitions say",
 "Bisection keeps a bracket that contains a sign change, halves it each update, converges to a root for increasing and decreasing functions, and rejects (when checking is on) brackets without a sign change. Fixed-point iteration, Anderson acceleration (stand-alone or wrapped around another solver) and Broyden's method produce the iterates of their defining formulas from the most recent history, report as error the residual norm of the point their map was evaluated at (a wrapped solver: its own error), and reach the fixed point of every affine contraction.",
 ["inputs", "histories", "configurations"],
 "all sign patterns/bracket positions, all affine maps of a grid, all history sizes, restart/mixing settings, at every iteration",
 "Tests check convergence on a few functions; bracket invariants, history wrap-around and exact iterates are not observed.",
 [S+"bisection.py", S+"fixed_point_iteration.py", S+"anderson.py", S+"anderson_wrapper.py", S+"broyden.py"],
 [("bracket update", S+"bisection.py"), ("history and Gram system", S+"anderson.py"), ("wrapper", S+"anderson_wrapper.py")])

prop("P15", "Stochastic solvers consume iterators exactly and follow their step rules",
 "`run_iterator` of every stochastic solver performs one update per data item, in order, for min(maxiter, items) items after the item used for initialisation, equals the manual init/update loop on the same items, and takes no other item from the iterator. Each update follows its rule: the Optax transformation applied to the gradient, the Polyak step bounded by the maximal stepsize, or an Armijo step that satisfies sufficient decrease on the current batch (unless the allowed trials are exhausted), with momentum, decay and pre-update hooks applied as documented and counters and values matching.",
 ["histories", "configurations", "inputs"],
 "all iterator lengths x maxiter x batch contents x hyperparameters",
 "Tests run long training loops and check final accuracy or one analytic step.",
 [S+"base.py", S+"armijo_sgd.py", S+"polyak_sgd.py", S+"optax_wrapper.py"],
 [("run_iterator", S+"base.py"), ("update rules", S+"armijo_sgd.py, polyak_sgd.py, optax_wrapper.py")])

prop("P16", "SciPy wrappers round-trip any pytree and report SciPy's result faithfully",
 "The SciPy-backed minimisers, root finder and least-squares solver return, for every pytree layout of parameters and (for roots and least squares) residuals, what SciPy returns for the flattened problem with the exact derivatives, with the same structure, shapes and dtypes as the initial parameters; bounds of any documented form are applied to the right coordinates, and the state reports SciPy's success, status, value and iteration counts. Options and instances can be reused: running a wrapper never alters the user's options or the module's defaults.",
 ["inputs", "configurations", "histories"],
 "all small pytree layouts x methods x bound patterns x repeated use",
 "Tests use one or two layouts per wrapper and a fresh instance each time.",
 [S+"scipy_wrappers.py"],
 [("jnp<->np pytree bridges, Jacobian blocks", S+"scipy_wrappers.py"), ("options handling", S+"scipy_wrappers.py")])

prop("P17", "Perturbed optimisers are the exact Monte-Carlo estimate and its derivative",
 "A perturbed argmax / max / scalar function returns exactly the average over its drawn noise samples of the underlying function at input + sigma * noise, for every input shape, output shape, number of samples, sigma and noise distribution. Its Jacobian products are exactly the corresponding score-function estimates from the same samples (with the control variate when requested), in forward and reverse mode, under jit and vmap, and equal seeds give equal results.",
 ["inputs", "configurations"],
 "all inputs of a grid x sample counts x sigmas x noises x output shapes x control variate on/off",
 "Tests compare with closed forms within Monte-Carlo error, which hides wrong scales and wrong pairing of samples.",
 [S+"perturbations.py"],
 [("make_perturbed_*", S+"perturbations.py"), ("noise laws", S+"perturbations.py")])

prop("P18", "How the objective is supplied never changes what a solver does",
 "For every solver, giving the objective as a plain function, with auxiliary output, with its value and gradient together, or with a user gradient, and passing differentiable arguments positionally or by keyword, gives the same iterates, values and errors; auxiliary output in the state is what the objective returns at the point the state describes (the returned parameters for the line-search solvers). The function evaluation counter in the state, where present, equals the number of evaluations made, and so does the gradient counter (an upper bound with the zoom search).",
 ["configurations"],
 "all solvers x all supply forms x argument layouts",
 "Tests exercise one or two forms per solver.",
 [S+"base.py", S+"gradient_descent.py", S+"bfgs.py", S+"lbfgs.py", S+"nonlinear_cg.py", S+"proximal_gradient.py"],
 [("_make_funs_with_aux / _make_funs_without_aux", S+"base.py"), ("solver __post_init__", S+"*.py")])

prop("P19", "Solvers see parameters as one vector: results ignore pytree packaging",
 "Packing the same parameters as one vector, a matrix, or any nested pytree of arrays (including scalars) gives the same iterates, values, errors and stepsizes for every first-order, quasi-Newton, stochastic, fixed-point and root solver and for Gauss-Newton, with the output in the same structure and dtype as the input; complex parameters behave as their real pairs in the solvers that take them (LBFGS, NonlinearCG). The tree arithmetic helpers agree with NumPy arithmetic on the concatenated leaves.",
 ["inputs", "configurations"],
 "all pytree shapes of up to 3-4 scalars x all solvers x a family of problems",
 "Tests use one dict or tuple per solver, compared with loose tolerances at convergence.",
 [S+"tree_util.py", S+"base.py", S+"lbfgs.py", S+"anderson.py", S+"broyden.py", S+"levenberg_marquardt.py"],
 [("tree_* helpers", S+"tree_util.py"), ("pytree handling in updates", S+"*.py")])

prop("P20", "Proximal, projected, mirror and block solvers follow their defining iteration",
 "Each update of proximal gradient (plain and accelerated), projected gradient, mirror descent and block coordinate descent equals its defining formula - prox/projection of the gradient step at the accepted stepsize, momentum by the documented sequence, mirror step through the given map, blocks visited in order with prox per block - with every backtracked stepsize meeting the quadratic upper-bound test and stepsize/decay schedules applied per iteration. The reported error is the documented optimality measure and all these solvers agree on the solution of a common composite problem.",
 ["histories", "inputs", "configurations"],
 "all starts, hyperparameters and stepsize options of a grid, at every iteration up to depth k, against an independent NumPy implementation",
 "Tests check the final optimality error on one dataset.",
 [S+"proximal_gradient.py", S+"projected_gradient.py", S+"mirror_descent.py", S+"block_cd.py"],
 [("_prox_grad, _fista, backtracking", S+"proximal_gradient.py"), ("update", S+"mirror_descent.py, block_cd.py, projected_gradient.py")])

if __name__ == "__main__":
  here = os.path.dirname(os.path.abspath(__file__))
  with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P:
      f.write(json.dumps(d) + "\n")
  print(len(P), "properties")
