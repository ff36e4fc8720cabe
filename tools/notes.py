NOTES["P01"] = ("explicit-state: exhaustive enumeration of all small loop programs, run on the real loops, against a Python while",
  "Every (transition table, guard, start, bound) over <=4 states is executed through every loop implementation, batched and unbatched; trusts NumPy reference and the finite state space.")
NOTES["P02"] = ("explicit-state: exhaustive enumeration of solver x execution mode x bound x start; conformance with a stepwise reference run",
  "All catalogue solvers and modes on two-variable problems; agreement of run() with the Python init/update loop at every bound. Trusts update() itself (decided by the other properties).")

NOTES["P03"] = ("explicit-state: environment-answer enumeration, the real update() is the transition function driven by every answer sequence; exhaustive profile families for run()",
  "Zoom and backtracking: every sequence of (value, slope) answers up to the depth, with memory; Hager-Zhang: every piecewise-cubic profile of a grid with NaN/inf tails. Trusts the alphabet of answers.")

NOTES["P04"] = ("explicit-state: exhaustive grid of inputs x hyperparameters executed on the real operators, against nearest-point search over every face/support pattern",
  "Every input of a half-integer grid up to 4 dimensions incl. ties, boundary points and degenerate sets, with derivatives in both modes, float32, jit/vmap/eager and pytrees. Trusts the grids and the face enumeration.")
NOTES["P05"] = ("explicit-state: exhaustive grid of inputs x hyperparameters x scalings x argument forms, against the best of all stationary points and kinks",
  "Every grid point including kinks, all forms of the hyperparameters, derivatives in both modes. Trusts the grids.")
NOTES["P06"] = ("explicit-state: all sequences over a small alphabet (every pooling pattern up to length 7) executed, against a minimum over all block partitions",
  "Values, bounds, both orders, Jacobians and both product modes for every sequence. Non-differentiable ties between separate blocks are excluded from the Jacobian comparison.")
NOTES["P07"] = ("explicit-state: exhaustive grids of labels x scores (kinks, ties, extreme magnitudes) and small integer designs, against the documented formulas; all grid pairs for the subgradient inequality",
  "Every label and score of the grid, in float64 and float32, with derivatives. Trusts the grids.")
NOTES["P08"] = ("explicit-state: all small integer QPs (every active-set pattern, infeasible and unbounded ones) x formats x solve options x starts executed, against exhaustive active-set enumeration",
  "Every QP of the grid is solved by every solver and format and compared in value, primal, dual and status. Slow first-order convergence (status unsolved) is not a violation for the inexact linear solvers.")
NOTES["P09"] = ("explicit-state: all argument layouts x signature forms x solvers x transformation orders executed, against the dense implicit-function derivative on an independently written residual",
  "Every layout/solver/transform combination of the catalogue is differentiated and compared; a linear solver that returns twice the solution shows whether the user's solver is used. Nondegenerate problems only.")
NOTES["P10"] = ("explicit-state: every small integer matrix of each class x ridge x right-hand-side structure x start executed, against NumPy",
  "All matrices with entries of a small alphabet (2x2 and 3x3; 4x4 SPD in thorough), all structures and starts, derivatives in both modes, every refinement iterate. Krylov breakdown inside JAX's GMRES/BiCGSTAB is excluded.")
NOTES["P11"] = ("explicit-state: every gradient/residual answer sequence over a 4-letter alphabet (longer than the buffer) x history sizes x packings x boxes executed through the real update(), against dense textbook matrices",
  "All 4^6 answer histories (4^7 in thorough) per configuration; every step is compared with the dense quasi-Newton step (L-BFGS-B: dense Cauchy point and subspace minimiser). Ill-conditioned continuations are cut.")
NOTES["P12"] = ("explicit-state: real init_state/update executed from every start of a grid x objective x solver x line search x option, and every box pattern (fixed, one-sided, free, wide) x start; a monitor checks descent, state consistency, feasibility and stopping at every visited state",
  "All (start, box, objective, search) combinations of the grid, every iteration up to the depth bound; claims end at a failed search. Two-dimensional objectives.")

NOTES["P13"] = ("explicit-state: answer tables drive the real update() through every accept/reject history (residuals incl. NaN/inf, Jacobians incl. singular), against a NumPy transition system; all starts of a grid for run()",
  "Every residual-answer history of the alphabet x linear solvers x Jacobian modes x geodesic x stop criteria. Two parameters; trusts the alphabet.")
NOTES["P14"] = ("explicit-state: every answer history of the user function (bisection values, fixed-point images) is enumerated through the real init_state/update, against the defining formulas in NumPy; all affine contractions of a grid for run()",
  "All value histories up to the depth, all bracket positions, history sizes, mixing periods, packings and wrapped solvers. Broyden's merit decrease is claimed up to its line search's own slack.")
NOTES["P15"] = ("explicit-state: every batch sequence x maxiter x iterator length executed through run_iterator and update; every table of Armijo trial outcomes and Polyak answers, against NumPy transcriptions of the rules",
  "All histories over three batches and all outcome tables over the reachable stepsizes (violating, accepted, flat, NaN, inf). Two-dimensional parameters.")
NOTES["P16"] = ("explicit-state: every method x layout x start x options/bounds combination of the bounded space executed through the wrapper and through SciPy directly; all construct/run interleavings of two instances sharing options",
  "Form, values and every reported count for all combinations. Methods that branch on rounding (Powell, COBYLA, TNC, ...) are compared exactly only on short runs. Hessian-based methods cannot be used through the wrapper and are excluded.")
NOTES["P17"] = ("explicit-state: every input x samples x sigma x noise x output shape x control variate x mode of the bounded space executed; the drawn noise is replayed by the oracle, which recomputes the exact Monte-Carlo estimate and score-function Jacobian",
  "All combinations of the grid, forward and reverse mode, jit and vmap. Arrays only (pytree inputs are not claimed).")
NOTES["P18"] = ("explicit-state: every solver x supply form x argument layout x start x parameter driven through init_state/update/run, the whole state compared at every iteration with the plain form; evaluation counters against evaluations counted by host callbacks",
  "All forms x layouts for all solvers, line searches and vector-valued functions; five iterations and a full run. Two-dimensional problems.")
NOTES["P19"] = ("explicit-state: every solver x packaging of the parameters x start x parameter driven through init_state/update/run and compared at every iteration with the run on the plain vector; complex against real pairs; float32 inputs under x64; every tree helper over all values of a grid x all packagings against NumPy",
  "Seven packagings (reordered leaves, scalars, None, empty leaves, ...), five iterations and a run. Levenberg-Marquardt and block coordinate descent take single arrays only and are covered for that.")
NOTES["P20"] = ("explicit-state: the transition relation of each solver is written in NumPy and every transition taken by the real init_state/update from every start x hyperparameter x option is checked against it; all outcome tables of the FISTA line search from every stepsize level",
  "All combinations of the grid, eight iterations; agreement and optimality of every applicable solver on all composite problems of a grid. Two- and three-dimensional problems.")
