"""A catalogue of the iterative solvers on small smooth problems, used by several checks.

Every entry: make(**options) -> solver ; inits: starting points ; args(theta): the arguments after init_params ;
theta: a grid of problem parameters ; spec: which options the solver has.
"""
import dataclasses, functools
import numpy as np


@dataclasses.dataclass
class Entry:
  name: str
  make: object
  inits: list
  thetas: list
  args: object              # theta -> tuple of positional args after init_params
  opts: tuple               # which of maxiter,tol,jit,unroll,implicit_diff it takes
  tol_stop: float = 1e-3    # a tolerance that stops within few iterations
  grad: bool = True         # gradient of the solution wrt theta is smooth and comparable
  warm: bool = False        # accepts OptStep
  nojit: bool = True
  vmap: bool = True
  kind: str = "min"


def problem(dtype=None):
  import jax.numpy as jnp
  A = jnp.array([[3.0, 0.5], [0.5, 1.0]], dtype)

  def fun(x, theta):
    return 0.5 * jnp.vdot(x, A @ x) - jnp.vdot(theta, x) + 0.5 * jnp.sum(jnp.log(jnp.cosh(x - 0.3 * theta)))

  def residual(x, theta):
    return jnp.array([x[0] - theta[0] + 0.3 * x[0] ** 3, 2.0 * (x[1] - theta[1]), 0.2 * x[0] * x[1] + 0.1])

  def fp(x, theta):
    return 0.5 * jnp.tanh(jnp.array([[0.6, -0.5], [0.7, 0.4]], dtype) @ x) + theta

  def root(x, theta):
    return x - fp(x, theta)

  def scalar_root(x, theta):
    return x ** 3 + x - theta

  return dict(A=A, fun=fun, residual=residual, fp=fp, root=root, scalar_root=scalar_root)


ALL = ("maxiter", "tol", "jit", "unroll", "implicit_diff")


def entries(dtype=None):
  import jax, jax.numpy as jnp
  import jaxopt
  import optax
  from jaxopt import projection, prox, objective
  p = problem(dtype)
  inits = [np.array(v, float) for v in ([0.0, 0.0], [1.0, -1.0], [-2.0, 3.0], [0.4, 0.1])]
  thetas = [np.array(v, float) for v in ([1.0, 2.0], [-1.0, 0.5], [0.0, 3.0])]
  E = []

  def add(name, make, args=lambda t: (t,), opts=ALL, **kw):
    base = dict(inits=inits, thetas=thetas)
    base.update(kw)
    E.append(Entry(name=name, make=make, args=args, opts=opts, **base))

  def data(theta):
    X = jnp.array([[1.0, 0.2], [0.3, 2.0], [-0.5, 1.0]])
    return (X, jnp.array([theta[0], theta[1], theta[0] - theta[1]]))

  add("GradientDescent", lambda **o: jaxopt.GradientDescent(fun=p["fun"], **o))
  add("GradientDescent-fixed", lambda **o: jaxopt.GradientDescent(fun=p["fun"], stepsize=0.2, acceleration=False, **o))
  add("GradientDescent-sched", lambda **o: jaxopt.GradientDescent(fun=p["fun"], stepsize=lambda it: 0.3 / (1.0 + 0.1 * it), **o))
  add("GradientDescent-nofista", lambda **o: jaxopt.GradientDescent(fun=p["fun"], acceleration=False, **o))
  add("ProximalGradient", lambda **o: jaxopt.ProximalGradient(fun=p["fun"], prox=prox.prox_lasso, **o),
      args=lambda t: (0.3, t))
  add("ProximalGradient-fixed", lambda **o: jaxopt.ProximalGradient(fun=p["fun"], prox=prox.prox_ridge, stepsize=0.2, **o),
      args=lambda t: (0.3, t))
  add("ProjectedGradient", lambda **o: jaxopt.ProjectedGradient(fun=p["fun"], projection=projection.projection_box, **o),
      args=lambda t: ((np.array([-0.2, -0.3]), np.array([0.5, 1.2])), t))
  add("MirrorDescent", lambda **o: jaxopt.MirrorDescent(
      fun=p["fun"], projection_grad=jaxopt.MirrorDescent.make_projection_grad(lambda x, _: jax.nn.softmax(x), jnp.log),
      stepsize=0.3, **o), args=lambda t: (None, t),
      inits=[np.array(v) for v in ([0.5, 0.5], [0.9, 0.1], [0.2, 0.8])], grad=False)
  add("MirrorDescent-sched", lambda **o: jaxopt.MirrorDescent(
      fun=p["fun"], projection_grad=jaxopt.MirrorDescent.make_projection_grad(lambda x, _: projection.projection_simplex(x), lambda x: x),
      stepsize=lambda it: 0.5 / jnp.sqrt(it + 1.0), **o), args=lambda t: (None, t),
      inits=[np.array(v) for v in ([0.5, 0.5], [0.9, 0.1], [0.2, 0.8])])
  add("BlockCoordinateDescent", lambda **o: jaxopt.BlockCoordinateDescent(fun=objective.least_squares, block_prox=prox.prox_lasso, **o),
      args=lambda t: (0.1, data(t)))
  for ls in ("zoom", "backtracking", "hager-zhang"):
    add(f"BFGS-{ls}", lambda ls=ls, **o: jaxopt.BFGS(fun=p["fun"], linesearch=ls, **o), nojit=ls == "zoom")
    add(f"LBFGS-{ls}", lambda ls=ls, **o: jaxopt.LBFGS(fun=p["fun"], linesearch=ls, history_size=3, **o), warm=ls != "hager-zhang", nojit=ls == "backtracking")
    add(f"NonlinearCG-{ls}", lambda ls=ls, **o: jaxopt.NonlinearCG(fun=p["fun"], linesearch=ls, **o), nojit=ls == "backtracking")
  add("LBFGS-fixed", lambda **o: jaxopt.LBFGS(fun=p["fun"], stepsize=0.3, history_size=2, **o), warm=True)
  add("LBFGSB", lambda **o: jaxopt.LBFGSB(fun=p["fun"], history_size=3, **o), warm=True, nojit=False,
      args=lambda t: ((np.array([-0.2, -0.3]), np.array([0.5, 1.2])), t))
  add("LBFGSB-nobounds", lambda **o: jaxopt.LBFGSB(fun=p["fun"], history_size=3, **o), warm=True, nojit=False,
      args=lambda t: (None, t))
  add("Broyden", lambda **o: jaxopt.Broyden(fun=p["root"], **o), kind="root")
  add("Broyden-fixed", lambda **o: jaxopt.Broyden(fun=p["root"], stepsize=1.0, history_size=4, **o), kind="root", warm=True)
  add("AndersonAcceleration", lambda **o: jaxopt.AndersonAcceleration(fixed_point_fun=p["fp"], history_size=3, ridge=1e-8, **o), kind="fp")
  add("AndersonAcceleration-beta", lambda **o: jaxopt.AndersonAcceleration(fixed_point_fun=p["fp"], history_size=2, mixing_frequency=2, beta=0.7, ridge=1e-8, **o), kind="fp")
  add("FixedPointIteration", lambda **o: jaxopt.FixedPointIteration(fixed_point_fun=p["fp"], **o), kind="fp")

  def wrapper(**o):
    inner = {k: v for k, v in o.items()}
    outer = {k: v for k, v in o.items() if k in ("jit", "unroll", "implicit_diff")}
    return jaxopt.AndersonWrapper(jaxopt.GradientDescent(fun=p["fun"], stepsize=0.2, acceleration=False, **inner),
                                  history_size=3, ridge=1e-8, **outer)
  add("AndersonWrapper", wrapper)
  add("Bisection", lambda **o: jaxopt.Bisection(optimality_fun=p["scalar_root"], lower=-2.0, upper=2.5, check_bracket=False, **o),
      inits=[None], thetas=[np.float64(v) for v in (0.0, 1.7, -3.0, 4.0)], opts=("maxiter", "tol", "jit", "unroll"), kind="root")
  add("GaussNewton", lambda **o: jaxopt.GaussNewton(residual_fun=p["residual"], **o), kind="ls")
  add("LevenbergMarquardt", lambda **o: jaxopt.LevenbergMarquardt(residual_fun=p["residual"], **o), kind="ls")
  add("LevenbergMarquardt-geo", lambda **o: jaxopt.LevenbergMarquardt(residual_fun=p["residual"], geodesic=True, materialize_jac=True, solver="cholesky", **o), kind="ls")
  sto = dict(grad=False)
  add("ArmijoSGD", lambda **o: jaxopt.ArmijoSGD(fun=p["fun"], momentum=0.3, **o), **sto)
  add("PolyakSGD", lambda **o: jaxopt.PolyakSGD(fun=lambda x, t: p["fun"](x, t) + 20.0, fun_min=0.0, max_stepsize=0.3, **o), **sto)
  add("OptaxSolver", lambda **o: jaxopt.OptaxSolver(fun=p["fun"], opt=optax.adam(0.1), **o), **sto)
  add("BoxCDQP", lambda **o: jaxopt.BoxCDQP(**o),
      args=lambda t: ((p["A"], -t), (np.array([-0.2, -0.3]), np.array([0.5, 1.2]))))
  return E


def by_name():
  return {e.name: e for e in entries()}
