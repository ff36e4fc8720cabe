"""P09: implicit differentiation equals the derivative of the solution map.

Every enumerated case runs the real solver / decorator and differentiates it; the oracle is the dense implicit-function formula,
evaluated with NumPy on an independently written residual of the same problem (free set / support / active set fixed).
"""
import itertools
import numpy as np

LEVEL = "model_checking"
RULE = ("every derivative obtained through run()/custom_root/custom_fixed_point/root_vjp/root_jvp == the dense implicit-function "
        "derivative; it doubles when the user's linear solver returns twice the solution; zero for init_params")
ASSUMPTIONS = ["problems are nondegenerate (invertible Jacobian, strict complementarity), as implicit differentiation presupposes",
               "dense Jacobians of the reference residuals are computed with jax.jacfwd and solved with NumPy"]


def dense(F, x, args):
  """d x / d args[i] of the root of F(x, *args), flattened (n, size_i); also polishes x by Newton."""
  import jax, jax.numpy as jnp
  from jax.flatten_util import ravel_pytree
  fl, un = ravel_pytree(x)
  g = lambda v, *a: ravel_pytree(F(un(v), *a))[0]
  v = np.asarray(fl, float)
  for _ in range(4):
    v = v - np.linalg.solve(np.asarray(jax.jacfwd(g)(v, *args)), np.asarray(g(v, *args)))
  J = np.asarray(jax.jacfwd(g)(v, *args))
  out = []
  for i, a in enumerate(args):
    af, aun = ravel_pytree(a)
    if not np.issubdtype(np.asarray(af).dtype, np.floating):
      out.append(None); continue
    Ja = np.asarray(jax.jacfwd(lambda w: g(v, *args[:i], aun(w), *args[i + 1:]))(jnp.asarray(af)))
    out.append(-np.linalg.solve(J, Ja))
  return v, out


def jac_of(run, args):
  """Jacobian in reverse mode of ravel(run(*args)) wrt every floating argument, flattened like `dense`."""
  import jax
  from jax.flatten_util import ravel_pytree
  idx = [i for i, a in enumerate(args) if np.issubdtype(np.asarray(ravel_pytree(a)[0]).dtype, np.floating)]
  f = lambda *a: ravel_pytree(run(*a))[0]
  def flatj(jac, a):
    n = jax.tree_util.tree_leaves(jac)[0].shape[0]
    return np.concatenate([np.asarray(l).reshape(n, -1) for l in jax.tree_util.tree_leaves(jac)], 1)
  J = jax.jacrev(f, argnums=tuple(idx))(*args)
  out = [None] * len(args)
  for i, j in zip(idx, J):
    out[i] = flatj(j, args[i])
  return out


def layouts(names):
  """All ways of passing the arguments: a positional prefix, the rest by keyword in every order."""
  for k in range(len(names), -1, -1):
    for perm in itertools.permutations(names[k:]):
      yield k, perm


# ------------------------------------------------------------------------------------------------- decorators
def decorators(R, kind, aux):
  """custom_root / custom_fixed_point x signature forms x layouts x linear solvers x transformations."""
  import jax, jax.numpy as jnp
  from jaxopt import implicit_diff as idf, linear_solve as ls
  D = jnp.array([[2.0, 1.0, 0.0], [-1.0, 3.0, 1.0], [0.5, 0.0, 4.0]])
  u, v, w = jnp.array([1.0, 2.0, -1.0]), jnp.array([0.5, -1.0, 3.0]), jnp.eye(3) + 0.2
  # solution map  x = D^-1 (a u + b^2 v + a * w c), a scalar, b scalar, c vector
  rhs = lambda a, b, c: a * u + b ** 2 * v + a * (w @ c)
  if kind == "root":
    F = lambda x, a, b, c: D @ x - rhs(a, b, c)
    deco = idf.custom_root
  else:
    F = lambda x, a, b, c: x - 0.1 * (D @ x - rhs(a, b, c))
    deco = idf.custom_fixed_point
  res = lambda x, a, b, c: D @ x - rhs(a, b, c)
  sol = lambda a, b, c: jnp.linalg.solve(jax.lax.stop_gradient(D), rhs(a, b, c))
  cut = jax.lax.stop_gradient
  wrap = (lambda x: (cut(x), {"n": 7})) if aux else cut
  first = (lambda r: r[0]) if aux else (lambda r: r)

  def s_named(init, a, b, c): return wrap(sol(a, b, c))
  def s_default(init, a, b=1.5, c=np.array([1.0, -2.0, 0.5])): return wrap(sol(a, b, c))
  def s_kwonly(init, a, *, b, c): return wrap(sol(a, b, c))
  def s_kwonly_rev(init, a, *, c, b): return wrap(sol(a, b, c))
  def s_varkw(init, a, **kw): return wrap(sol(a, kw["b"], kw["c"]))
  def s_varpos(init, *args): return wrap(sol(*args))
  def s_both(init, *args, **kw):
    d = dict(zip("abc", args)); d.update(kw)
    return wrap(sol(d["a"], d["b"], d["c"]))
  def f_named(x, a, b, c): return F(x, a, b, c)
  def f_default(x, a, b=1.5, c=np.array([1.0, -2.0, 0.5])): return F(x, a, b, c)
  def f_var(x, *args): return F(x, *args)
  def f_varkw(x, *args, **kw):
    d = dict(zip("abc", args)); d.update(kw)
    return F(x, d["a"], d["b"], d["c"])
  def ref(x, a, b, c): raise AssertionError("the reference signature is never called")
  solvers = {"named": s_named, "default": s_default, "kwonly": s_kwonly, "kwonly_rev": s_kwonly_rev, "**kw": s_varkw, "*args": s_varpos, "*args,**kw": s_both}
  opts = {"named": (f_named, None), "default": (f_default, None), "*args": (f_var, None), "*args,ref": (f_var, ref)}
  if kind == "root":
    opts["*args,**kw,ref"] = (f_varkw, ref)
  quick = lambda mv, b: jnp.linalg.solve(jnp.stack([mv(q) for q in jnp.eye(3)], 1), b)
  twice = lambda mv, b: 2 * quick(mv, b)
  lin = {"default": None, "lu": ls.solve_lu, "gmres": ls.solve_gmres, "dense": quick, "twice": twice}
  points = [(1.0, 1.5, np.array([1.0, -2.0, 0.5])), (-2.0, 0.0, np.zeros(3)), (0.0, -1.0, np.array([0.0, 1.0, 0.0]))]
  cache = {}
  for (sn, s), (on, (o, refsig)) in itertools.product(solvers.items(), opts.items()):
    for ln, lsv in lin.items():
      if ln not in ("dense", "twice") and (sn, on) != ("named", "named"): continue
      if ln == "twice" and on not in ("named", "*args"): continue
      wrapped = deco(o, has_aux=aux, solve=lsv, reference_signature=refsig)(s)
      for k, perm in layouts("abc"):
        if sn in ("kwonly", "kwonly_rev", "**kw") and k > 1: continue
        if sn == "*args" and perm: continue
        if ln == "twice" and k in (1, 2): continue
        if on == "*args" and perm and sn not in ("named", "default"): continue   # keywords cannot be resolved (documented)
        def run(init, a, b, c):
          d = dict(a=a, b=b, c=c)
          return first(wrapped(init, *[d[q] for q in "abc"[:k]], **{q: d[q] for q in perm}))
        f = lambda init, a, b, c: jac_of(run, (init, a, b, c))
        for a, b, c in points if (ln == "dense" and sn == "named") else points[:1]:
          key = f"solver({sn}) opt({on}) solve={ln} pos={k} kw={''.join(perm)} at {a},{b}"
          args = (jnp.ones(3), jnp.float64(a), jnp.float64(b), jnp.asarray(c))
          got = f(*args)
          if (a, b) not in cache: cache[a, b] = dense(res, jnp.zeros(3), args[1:])
          x, want = cache[a, b]
          R.close(key + " value", run(*args), x, tol=1e-9)
          R.close(key + " init", got[0], np.zeros((3, 3)), tol=0)
          for n, g, t in zip("abc", got[1:], want):
            R.close(f"{key} d/d{n}", g, (2 if ln == "twice" else 1) * t, tol=1e-5)
          R.case(transitions=4); R.outcome(kind, f"aux={aux}", f"solver({sn})", f"opt({on})", f"solve={ln}")
        # integer and None arguments may share the call; omitted defaults keep their value
      if sn == "default" and on == "default":
        args = (jnp.ones(3), jnp.float64(2.0))
        g = jac_of(lambda i, a: first(wrapped(i, a)), args)[1]
        _, want = dense(res, jnp.zeros(3), (jnp.float64(2.0), jnp.float64(1.5), jnp.array([1.0, -2.0, 0.5])))
        R.close(f"defaults omitted solve={ln}", g, (2 if ln == "twice" else 1) * want[0], tol=1e-5); R.case(); R.outcome("defaults omitted")
  # transformations
  wrapped = deco(f_named, has_aux=aux)(s_named)
  run = lambda a, b, c: first(wrapped(jnp.zeros(3), a, b=b, c=c))
  A, B, C = jnp.array([p[0] for p in points]), jnp.array([p[1] for p in points]), jnp.stack([jnp.asarray(p[2]) for p in points])
  want = [dense(res, jnp.zeros(3), (jnp.float64(p[0]), jnp.float64(p[1]), jnp.asarray(p[2])))[1] for p in points]
  T = {"jit(jacrev)": jax.jit(jax.vmap(jax.jacrev(run, argnums=(0, 1, 2)))),
       "jacrev(jit)": jax.vmap(jax.jacrev(jax.jit(run), argnums=(0, 1, 2))),
       "vmap only c": lambda A, B, C: [jnp.stack(q) for q in zip(*[jax.tree_util.tree_map(lambda t: t[0], jax.vmap(jax.jacrev(run, argnums=(0, 1, 2)), in_axes=(None, None, 0))(a, b, c[None])) for a, b, c in zip(A, B, C)])],
       "jacrev(vmap)": lambda A, B, C: [jnp.stack([q[i, :, i] for i in range(3)]) for q in jax.jacrev(jax.vmap(run), argnums=(0, 1, 2))(A, B, C)]}
  for tn, t in T.items():
    got = t(A, B, C)
    for i in range(3):
      for n, g, wv in zip("abc", got, want[i]):
        R.close(f"{tn} point {i} d/d{n}", np.asarray(g[i]).reshape(3, -1), wv, tol=1e-5)
      R.case(); R.outcome("transform", tn)
    for i in range(3):
      if tn == "jacrev(vmap)":
        J = jax.jacrev(jax.vmap(run), argnums=0)(A, B, C)
        off = np.asarray(J)[i][:, [j for j in range(3) if j != i]]
        R.check(np.all(off == 0), f"{tn} cross terms {i}", str(off))


def vjp_jvp(R, n):
  """root_vjp / root_jvp on every invertible small integer Jacobian, on arrays and pytrees, for every linear solver."""
  import jax, jax.numpy as jnp
  from jaxopt import implicit_diff as idf, linear_solve as ls
  vals = (-1.0, 0.0, 2.0) if n == 2 else (0.0, 1.0)
  Ms = [np.array(t).reshape(n, n) for t in itertools.product(vals, repeat=n * n)]
  Ms = np.stack([M for M in Ms if abs(np.linalg.det(M)) > 1e-9])
  B = np.array([[1.0, -2.0], [0.5, 3.0], [2.0, 1.0]])[:n]
  tree = lambda x: {"p": x[:1], "q": (x[1:],)}
  flat = lambda t: jnp.concatenate([t["p"], t["q"][0]])
  solvers = {"normal_cg": lambda mv, b: ls.solve_normal_cg(mv, b, tol=1e-12)}
  if n == 2:
    solvers["lu"] = ls.solve_lu
  for sn, sv in solvers.items():
    for packed in (False, True):
      if packed and sn == "lu": continue
      for swap in (False, True):
        def opt(x, th, extra):
          xv = flat(x) if packed else x
          r = extra["M"] @ xv - B @ th - extra["s"] * jnp.sin(th[0])
          return tree(r) if packed else r
        pk = tree if packed else (lambda x: x)
        ct = np.array([1.0, -3.0, 2.0])[:n] * (-1 if swap else 1)
        tan = np.array([2.0, -1.0]) * (0.5 if swap else 1)
        def both(M):
          th, s = jnp.array([0.7, -0.2]), jnp.arange(1.0, n + 1)
          x = jnp.linalg.solve(M, B @ th + s * jnp.sin(th[0]))
          g = idf.root_vjp(opt, pk(x), (th, {"M": M, "s": s}), pk(jnp.asarray(ct)), solve=sv)
          zero = {"M": jnp.zeros((n, n)), "s": jnp.ones(n)}
          t = idf.root_jvp(opt, pk(x), (th, {"M": M, "s": s}), (jnp.asarray(tan), zero), solve=sv)
          return x, g[0], g[1]["M"], g[1]["s"], flat(t) if packed else t
        x, gth, gM, gs, t = map(np.asarray, jax.jit(jax.vmap(both))(Ms))
        Minv = np.linalg.inv(Ms); s = np.arange(1.0, n + 1); th = np.array([0.7, -0.2])
        dth = np.einsum("nij,jk->nik", Minv, B) + np.einsum("nij,j->ni", Minv, s * np.cos(0.7))[:, :, None] * np.array([1.0, 0.0])
        wv = np.einsum("nij,i->nj", Minv, ct)
        key = lambda q: (lambda i: f"{sn} tree={packed} swap={swap} {q} M={Ms[i].ravel().tolist()}")
        R.closes(key("vjp theta"), gth, np.einsum("i,nik->nk", ct, dth), tol=1e-6)
        R.closes(key("vjp M"), gM, -np.einsum("ni,nj->nij", wv, x), tol=1e-6)
        R.closes(key("vjp s"), gs, wv * np.sin(0.7), tol=1e-6)
        R.closes(key("jvp"), t, np.einsum("nik,k->ni", dth, tan) + np.einsum("nij,j->ni", Minv, np.ones(n) * np.sin(0.7)), tol=1e-6)
        R.case(len(Ms), transitions=4 * len(Ms)); R.outcome("root_vjp/jvp", f"n={n}", sn, f"tree={packed}", n=len(Ms))
  try:
    idf.root_jvp(lambda x, a: x - a, jnp.ones(2), (jnp.ones(2),), ()); R.violation("length mismatch", "no ValueError")
  except ValueError:
    R.case(); R.outcome("root_jvp length mismatch rejected")


# ------------------------------------------------------------------------------------------------- solvers
def catalogue():
  import jax, jax.numpy as jnp
  import jaxopt, optax
  from jaxopt import projection, prox, objective
  A = jnp.array([[3.0, 0.5], [0.5, 1.5]])
  def fun(x, theta, s):
    return 0.5 * s * jnp.vdot(x, A @ x) - jnp.vdot(theta, x) + 0.5 * jnp.sum(jnp.log(jnp.cosh(x - 0.3 * theta)))
  g = jax.grad(fun)
  # s gives more curvature near the least squares solution so that the residual's second derivative matters
  def resid(x, theta, s):
    return jnp.array([x[0] - theta[0] + 0.3 * x[0] ** 3, 2.0 * (x[1] - theta[1]), s * x[0] * x[1] + 0.1])
  gls = jax.grad(lambda x, theta, s: 0.5 * jnp.sum(resid(x, theta, s) ** 2))
  T = lambda x, theta, s: 0.5 * jnp.tanh(s * jnp.array([[0.6, -0.5], [0.7, 0.4]]) @ x) + theta
  th, s = jnp.array([1.0, 2.0]), jnp.float64(1.2)
  z = jnp.zeros(2)
  C = {}
  def add(name, make, F, args=(th, s), names=("theta", "s"), init=z, aux=None, pts=None, jit=True, unroll=True, tol=1e-4, user=None):
    C[name] = dict(make=make, F=F, args=args, names=names, init=init, aux=aux, pts=pts or [args], jit=jit, unroll=unroll, tol=tol)
  A2 = (fun, lambda x, theta, s: (fun(x, theta, s), {"extra": 3.0}))
  smooth_pts = [(th, s), (jnp.array([-1.0, 0.5]), jnp.float64(0.7)), (jnp.array([0.0, -2.0]), jnp.float64(2.0))]
  sm = dict(F=g, pts=smooth_pts)
  add("GradientDescent", lambda fun=fun, **o: jaxopt.GradientDescent(fun=fun, maxiter=500, tol=1e-9, **o), aux=A2, **sm)
  add("BFGS", lambda fun=fun, **o: jaxopt.BFGS(fun=fun, maxiter=60, tol=1e-9, linesearch="backtracking", **o), aux=A2, **sm)
  add("LBFGS", lambda fun=fun, **o: jaxopt.LBFGS(fun=fun, maxiter=60, tol=1e-9, linesearch="backtracking", history_size=4, **o), aux=A2, **sm)
  add("NonlinearCG", lambda fun=fun, **o: jaxopt.NonlinearCG(fun=fun, maxiter=150, tol=1e-9, linesearch="zoom", **o), aux=A2, unroll=False, **sm)
  add("ArmijoSGD", lambda fun=fun, implicit_diff=True, **o: jaxopt.ArmijoSGD(fun=fun, implicit_diff=implicit_diff, maxiter=300, tol=1e-9, **o), aux=A2, unroll=False, **sm)
  add("PolyakSGD", lambda fun=fun, implicit_diff=True, **o: jaxopt.PolyakSGD(fun=fun, implicit_diff=implicit_diff, maxiter=400, tol=1e-9, fun_min=-1e6, max_stepsize=0.25, **o), aux=A2, unroll=False, **sm)
  add("OptaxSolver", lambda fun=fun, implicit_diff=True, **o: jaxopt.OptaxSolver(fun=fun, implicit_diff=implicit_diff, opt=optax.sgd(0.2), maxiter=300, tol=1e-9, **o), aux=A2, unroll=False, **sm)
  add("AndersonWrapper", lambda fun=fun, implicit_diff=True, **o: jaxopt.AndersonWrapper(jaxopt.GradientDescent(fun=fun, stepsize=0.2, acceleration=False, maxiter=300, tol=1e-9, implicit_diff=implicit_diff), history_size=3, ridge=1e-9, implicit_diff=implicit_diff, **o), unroll=False, **sm)
  def Flasso(x, lam, theta, s):
    gg = g(x, theta, s) + lam * jnp.array([jnp.sign(x[0]), jnp.sign(x[1])])
    return gg
  def Flasso0(x, lam, theta, s):     # second coordinate zero
    return jnp.array([g(x, theta, s)[0] + lam * jnp.sign(x[0]), x[1]])
  lam = jnp.float64(0.3)
  add("ProximalGradient", lambda fun=fun, **o: jaxopt.ProximalGradient(fun=fun, prox=prox.prox_lasso, maxiter=600, tol=1e-9, **o), Flasso, (lam, th, s), ("hyperparams_prox", "theta", "s"), aux=A2)
  add("ProximalGradient-sparse", lambda fun=fun, **o: jaxopt.ProximalGradient(fun=fun, prox=prox.prox_lasso, maxiter=600, tol=1e-9, acceleration=False, **o), Flasso0, (jnp.float64(1.0), jnp.array([2.0, 0.6]), s), ("hyperparams_prox", "theta", "s"))
  lo, up = jnp.array([-0.5, -0.4]), jnp.array([0.6, 0.7])
  def Fbox(x, b, theta, s): return jnp.array([g(x, theta, s)[0], x[1] - b[1][1]])      # second coordinate at its upper bound
  def Fbox_low(x, b, theta, s): return jnp.array([x[0] - b[0][0], g(x, theta, s)[1]])  # first at its lower bound
  box_a = ((lo, up), th, s); box_b = ((lo, up), jnp.array([-4.0, 0.5]), s)
  for nm, Fb, aa in (("upper", Fbox, box_a), ("lower", Fbox_low, box_b)):
    add(f"ProjectedGradient-{nm}", lambda fun=fun, **o: jaxopt.ProjectedGradient(fun=fun, projection=projection.projection_box, maxiter=500, tol=1e-9, **o), Fb, aa, ("hyperparams_proj", "theta", "s"), aux=A2)
    add(f"LBFGSB-{nm}", lambda fun=fun, **o: jaxopt.LBFGSB(fun=fun, maxiter=60, tol=1e-9, history_size=3, **o), Fb, aa, ("bounds", "theta", "s"), unroll=False, aux=A2)
    add(f"ScipyBoundedMinimize-{nm}", lambda fun=fun, **o: jaxopt.ScipyBoundedMinimize(fun=fun, method="L-BFGS-B", tol=1e-12, **o), Fb, aa, ("bounds", "theta", "s"), jit=False, unroll=False, aux=A2)
  add("LBFGSB-nobounds", lambda fun=fun, **o: jaxopt.LBFGSB(fun=lambda x, theta, s: fun(x, theta, s), maxiter=60, tol=1e-9, **o), lambda x, b, theta, s: g(x, theta, s), (None, th, s), ("bounds", "theta", "s"), unroll=False)
  def Fsimplex(x, h, theta, s):
    d = g(x, theta, s); return jnp.array([d[0] - d[1], jnp.sum(x) - h])
  add("ProjectedGradient-simplex", lambda fun=fun, **o: jaxopt.ProjectedGradient(fun=fun, projection=projection.projection_simplex, maxiter=500, tol=1e-9, **o), Fsimplex, (jnp.float64(1.3), th, s), ("hyperparams_proj", "theta", "s"))
  md = lambda fun=fun, **o: jaxopt.MirrorDescent(fun=fun, projection_grad=jaxopt.MirrorDescent.make_projection_grad(lambda y, h: h * jax.nn.softmax(y), jnp.log), stepsize=0.3, maxiter=600, tol=1e-9, **o)
  add("MirrorDescent-kl", md, Fsimplex, (jnp.float64(1.3), th, s), ("hyperparams_proj", "theta", "s"), init=jnp.array([0.5, 0.8]), aux=A2, unroll=False)
  X = jnp.array([[1.0, 0.2], [0.3, 2.0], [-0.5, 1.0]]); y = jnp.array([1.0, 2.0, 0.5])
  def Fbcd(x, lam, data): return data[0].T @ (data[0] @ x - data[1]) / 3 + lam * jnp.sign(x)
  add("BlockCoordinateDescent", lambda **o: jaxopt.BlockCoordinateDescent(fun=objective.least_squares, block_prox=prox.prox_lasso, maxiter=400, tol=1e-10, **o), Fbcd, (jnp.float64(0.05), (X, y)), ("hyperparams_prox", "data"))
  fp_pts = [(th * 0.2, s), (jnp.array([-0.3, 0.6]), jnp.float64(0.5))]
  Ffp = lambda x, theta, s: T(x, theta, s) - x
  T2 = (T, lambda x, theta, s: (T(x, theta, s), 5.0))
  add("FixedPointIteration", lambda fun=T, **o: jaxopt.FixedPointIteration(fixed_point_fun=fun, maxiter=300, tol=1e-11, **o), Ffp, fp_pts[0], aux=T2, pts=fp_pts)
  add("AndersonAcceleration", lambda fun=T, **o: jaxopt.AndersonAcceleration(fixed_point_fun=fun, maxiter=60, tol=1e-11, history_size=3, ridge=1e-10, **o), Ffp, fp_pts[0], aux=T2, pts=fp_pts)
  rt = lambda x, theta, s: x - T(x, theta, s)
  rt2 = (rt, lambda x, theta, s: (rt(x, theta, s), 5.0))
  add("Broyden", lambda fun=rt, **o: jaxopt.Broyden(fun=fun, maxiter=60, tol=1e-11, **o), Ffp, fp_pts[0], aux=rt2, pts=fp_pts, unroll=False)
  add("ScipyRootFinding", lambda fun=rt, **o: jaxopt.ScipyRootFinding(optimality_fun=fun, method="hybr", tol=1e-12, **o), Ffp, fp_pts[0], aux=rt2, pts=fp_pts, jit=False, unroll=False)
  br = lambda x, theta, s: s * x ** 3 + x - theta
  add("Bisection", lambda fun=br, **o: jaxopt.Bisection(optimality_fun=fun, lower=-3.0, upper=3.0, maxiter=80, tol=1e-13, check_bracket=False, **o), lambda x, theta, s: br(x, theta, s), (jnp.float64(2.0), s), init=None, unroll=False, pts=[(jnp.float64(v), jnp.float64(w)) for v in (2.0, -5.0, 0.0) for w in (1.2, 0.4)])
  ls_pts = smooth_pts
  r2 = (resid, lambda x, theta, s: (resid(x, theta, s), 5.0))
  add("GaussNewton", lambda fun=resid, **o: jaxopt.GaussNewton(residual_fun=fun, maxiter=100, tol=1e-10, **o), gls, (th, jnp.float64(0.2)), aux=r2)
  add("LevenbergMarquardt", lambda fun=resid, **o: jaxopt.LevenbergMarquardt(residual_fun=fun, maxiter=100, tol=1e-10, **o), gls, (th, jnp.float64(0.2)), aux=r2)
  add("LevenbergMarquardt-mat", lambda fun=resid, **o: jaxopt.LevenbergMarquardt(residual_fun=fun, maxiter=100, tol=1e-10, materialize_jac=True, solver="cholesky", **o), gls, (th, jnp.float64(0.2)), unroll=False)
  add("ScipyMinimize", lambda fun=fun, **o: jaxopt.ScipyMinimize(fun=fun, method="BFGS", tol=1e-11, **o), aux=A2, jit=False, unroll=False, **sm)
  for loss in ("linear", "soft_l1", "huber", "cauchy", "arctan"):
    rho = {"linear": lambda z: z, "soft_l1": lambda z: 2 * ((1 + z) ** 0.5 - 1), "huber": lambda z: jnp.where(z <= 1, z, 2 * jnp.sqrt(jnp.where(z <= 1, 1.0, z)) - 1), "cauchy": jnp.log1p, "arctan": jnp.arctan}[loss]
    for fs in (1.0, 0.1):
      gr = jax.grad(lambda x, theta, s, rho=rho, fs=fs: 0.5 * fs ** 2 * jnp.sum(rho((resid(x, theta, s) / fs) ** 2)))
      for sg in (1.0, -1.0):
        # the residual s*x0*x1 + 0.1 changes sign with s; with f_scale 0.1 it is an outlier on either side
        if loss == "arctan" and fs < 1: continue
        add(f"ScipyLeastSquares-{loss}-{fs}-{sg:+.0f}", lambda fun=resid, loss=loss, fs=fs, **o: jaxopt.ScipyLeastSquares(fun=fun, method="trf", loss=loss, options=dict(f_scale=fs, ftol=1e-15, xtol=1e-15, gtol=1e-14), **o), gr, (th, jnp.float64(sg * 0.2)), jit=False, unroll=False, aux=r2 if loss == "linear" else None, init=jnp.array([0.8, 1.9]), tol=2e-4)
  add("ScipyBoundedLeastSquares", lambda fun=resid, **o: jaxopt.ScipyBoundedLeastSquares(fun=fun, method="trf", options=dict(ftol=1e-15, xtol=1e-15, gtol=1e-13), **o), lambda x, b, theta, s: jnp.array([gls(x, theta, s)[0], x[1] - b[1][1]]), ((lo, jnp.array([2.0, 0.7])), th, jnp.float64(0.2)), ("bounds", "theta", "s"), jit=False, unroll=False, aux=r2, tol=1e-3)
  Mr = jnp.array([[3.0, 1.0], [0.0, 2.0]])
  add("IterativeRefinement", lambda **o: jaxopt.IterativeRefinement(maxiter=30, tol=1e-11, **o), lambda x, A, b: A @ x - b, (Mr, th), ("A", "b"), unroll=False)
  return C


NAMES = ("GradientDescent BFGS LBFGS NonlinearCG ArmijoSGD PolyakSGD OptaxSolver AndersonWrapper ProximalGradient ProximalGradient-sparse "
         "ProjectedGradient-upper LBFGSB-upper ScipyBoundedMinimize-upper ProjectedGradient-lower LBFGSB-lower ScipyBoundedMinimize-lower "
         "LBFGSB-nobounds ProjectedGradient-simplex MirrorDescent-kl BlockCoordinateDescent FixedPointIteration AndersonAcceleration Broyden "
         "ScipyRootFinding Bisection GaussNewton LevenbergMarquardt LevenbergMarquardt-mat ScipyMinimize ScipyBoundedLeastSquares "
         "IterativeRefinement").split() + [f"ScipyLeastSquares-{l}-{f}-{s}" for l in ("linear", "soft_l1", "huber", "cauchy", "arctan")
                                          for f in ("1.0", "0.1") for s in ("+1", "-1") if (l, f) != ("arctan", "0.1")]


LIGHT = ("BFGS NonlinearCG LBFGSB-lower LBFGSB-nobounds ProjectedGradient-lower ProjectedGradient-simplex ScipyBoundedMinimize-lower "
         "ProximalGradient-sparse LevenbergMarquardt-mat").split()


def solver(R, name, thorough=False):
  import jax, jax.numpy as jnp
  from jax.flatten_util import ravel_pytree
  from jaxopt import linear_solve as ls
  e = catalogue()[name]
  make, F, names, init, tol = e["make"], e["F"], e["names"], e["init"], e["tol"]
  wrap = jax.jit if e["jit"] else (lambda f: f)
  flt = lambda t: np.asarray(ravel_pytree(t)[0])

  def runner(s, k, perm, pick=lambda r: r.params):
    def run(init, *args):
      d = dict(zip(names, args))
      return pick(s.run(init, *[d[n] for n in names[:k]], **{n: d[n] for n in perm}))
    return run

  compiled = {}

  def jac(run, ini, args):
    if run not in compiled:
      f = lambda *a: ravel_pytree(run(*a))[0]
      def go(i0, *a):
        y, pull = jax.vjp(f, i0, *a)
        return y, jax.vmap(pull)(jnp.eye(y.shape[0])) if e["jit"] else jax.tree_util.tree_map(lambda *t: jnp.stack(t), *[pull(v) for v in jnp.eye(y.shape[0])])
      compiled[run] = wrap(go)
    y, J = compiled[run](ini, *args)
    fl = lambda j: np.concatenate([np.asarray(l).reshape(y.shape[0], -1) for l in jax.tree_util.tree_leaves(j)], 1)
    return np.asarray(y), (None if ini is None else fl(J[0])), [None if a is None else fl(J[i + 1]) for i, a in enumerate(args)]

  def compare(key, run, args, ini=init, scale=1.0, tol=tol, check_init=True):
    y, J0, J = jac(run, ini, args)
    x, want = dense(F, y if y.shape[0] > 1 or init is not None else y[0], args) if init is not None else dense(lambda q, *a: F(q[0], *a)[None], y, args)
    R.close(f"{key} solution", y, x, tol=1e-5)
    if J0 is not None and check_init:
      R.close(f"{key} d/dinit", J0, np.zeros_like(J0), tol=0)
    for n, g, w in zip(names, J, want):
      if g is not None:
        R.close(f"{key} d/d{n}", g, scale * w, tol=tol)
    R.case(transitions=1 + len(args)); return J

  def dense_args(args):
    return args

  s = make()
  full = len(names)
  plain = runner(s, full, ())
  light = name in LIGHT and not thorough
  for i, pt in enumerate(e["pts"]):
    compare(f"point {i}", plain, pt)
    R.outcome(name, "points")
  args = e["args"]
  for k, perm in layouts(names):
    if k == full or (light and (k, perm) != (0, tuple(reversed(names)))): continue
    if name.startswith(("ScipyLeastSquares-", "LevenbergMarquardt-mat")) and not name.endswith("linear-1.0-+1") and k > 0: continue
    if perm != tuple(names[k:]) and not thorough and k > 0 and len(names) > 2: continue
    compare(f"pos={k} kw={','.join(perm)}", runner(s, k, perm), args)
    R.outcome(name, f"pos={k}")
  # the user's linear solver is the one used
  twice = lambda mv, b, **kw: jax.tree_util.tree_map(lambda t: 2 * t, ls.solve_normal_cg(mv, b, tol=1e-12))
  compare("implicit_diff_solve=twice", runner(make(implicit_diff_solve=twice), full, ()), args, scale=2.0); R.outcome(name, "user linear solver")
  # auxiliary output
  if e["aux"] is not None and not light:
    compare("has_aux", runner(make(fun=e["aux"][1], has_aux=True), full, ()), args); R.outcome(name, "has_aux")
  # the initial parameters have no influence
  if init is not None:
    compare("other init", plain, args, ini=init + jnp.array([0.05, -0.05]) if not name.startswith("Mirror") else jnp.array([0.7, 0.6])); R.outcome(name, "other init")
  # vmap in both orders, over the last argument and over all of them
  if e["jit"] and len(e["pts"]) > 1:
    run = runner(s, full, ())
    st = jax.tree_util.tree_map(lambda *t: jnp.stack(t), *e["pts"])
    f = lambda *a: ravel_pytree(run(init, *a))[0]
    got = jax.jit(jax.vmap(jax.jacrev(f, argnums=tuple(range(full)))))(*st)
    got2 = jax.jit(jax.grad(lambda *a: jnp.sum(jax.vmap(f)(*a)[:, 0]), argnums=tuple(range(full))))(*st)
    for i, pt in enumerate(e["pts"]):
      y = np.asarray(f(*pt))
      want = (dense(F, y, pt) if init is not None else dense(lambda q, *a: F(q[0], *a)[None], y, pt))[1]
      for n, g, g2, w in zip(names, got, got2, want):
        R.close(f"vmap(jacrev) point {i} d/d{n}", np.asarray(g[i]).reshape(w.shape), w, tol=tol)
        R.close(f"grad(vmap) point {i} d/d{n}", np.asarray(g2[i]).reshape(-1), w[0], tol=tol)
      R.case(); R.outcome(name, "vmap")
  # unrolled derivative
  if e["unroll"] and not light:
    kw = dict(implicit_diff=False)
    compare("unrolled", runner(make(**kw), full, ()), args, tol=2e-3, check_init=False); R.outcome(name, "unrolled")


# ------------------------------------------------------------------------------------------------- quadratic programs
def qp_family():
  """Strictly convex QPs with strict complementarity: (Q, c, A, b, G, h, x, nu, mu)."""
  Qs = [np.eye(2), np.array([[2.0, 0.5], [0.5, 1.0]])]
  As = {0: None, 1: np.array([[1.0, -1.0]])}
  Gs = {0: None, 2: np.array([[1.0, 0.0], [1.0, 2.0]])}
  for Q in Qs:
    for c in itertools.product((-2.0, 0.5, 3.0), repeat=2):
      for ne, ni in ((1, 0), (0, 2), (1, 2)):
        for b in ((0.0, 1.0) if ne else (None,)):
          A, G = As[ne], Gs[ni]
          c_, h = np.array(c), np.array([0.4, 0.7]) if ni else None
          best = None
          for S in (itertools.chain.from_iterable(itertools.combinations(range(ni), r) for r in range(ni + 1))):
            rows = ([A] if ne else []) + ([G[list(S)]] if S else [])
            C = np.concatenate(rows) if rows else np.zeros((0, 2))
            if len(C) > 2 or np.linalg.matrix_rank(C) < len(C): continue
            d = np.concatenate(([np.array([b])] if ne else []) + ([h[list(S)]] if S else [])) if len(C) else np.zeros(0)
            K = np.block([[Q, C.T], [C, np.zeros((len(C), len(C)))]])
            z = np.linalg.solve(K, np.concatenate([-c_, d])); x, lam = z[:2], z[2:]
            mu = np.zeros(ni); mu[list(S)] = lam[ne:]
            if (mu >= -1e-12).all() and (ni == 0 or (G @ x <= h + 1e-12).all()):
              best = (x, lam[:ne], mu, S); break
          x, nu, mu, S = best
          if ne and abs(nu[0]) < 0.05: continue   # OSQP sees an equality as two inequalities: see osqp_zero_dual
          if ni and (np.abs(np.where(np.isin(range(ni), S), mu, h - G @ x)) < 0.05).any(): continue
          yield Q, c_, A, None if b is None else np.array([b]), G, h, x, nu, mu, S


def qps(R, which):
  import jax, jax.numpy as jnp, warnings
  warnings.filterwarnings("ignore")
  import jaxopt
  from jaxopt import linear_solve as ls
  twice = lambda mv, b, **kw: jax.tree_util.tree_map(lambda t: 2 * t, ls.solve_normal_cg(mv, b, tol=1e-12))
  tol = {"OSQP": 2e-3, "CvxpyQP": 5e-3}.get(which, 1e-4)
  seen, cache = set(), {}
  for Q, c, A, b, G, h, x, nu, mu, S in qp_family():
    ne, ni = A is not None, G is not None
    if which == "EqualityConstrainedQP" and (ni or not ne): continue
    if which == "CvxpyQP" and (ne, ni) == (True, True) and c[0] < 0: continue
    args, names = [jnp.asarray(Q), jnp.asarray(c)], ["Q", "c"]
    if ne: args += [jnp.asarray(A), jnp.asarray(b)]; names += ["A", "b"]
    if ni: args += [jnp.asarray(G), jnp.asarray(h)]; names += ["G", "h"]
    act = np.zeros(2, bool); act[list(S)] = True

    def res(z, *a):
      d = dict(zip(names, a)); r = 0.5 * (d["Q"] + d["Q"].T) @ z["x"] + d["c"]; out = []
      if ne: r = r + d["A"].T @ z["nu"]; out.append(d["A"] @ z["x"] - d["b"])
      if ni: r = r + d["G"].T @ z["mu"]; out.append(jnp.where(act, d["G"] @ z["x"] - d["h"], z["mu"]))
      return (r, out)
    z0 = dict(x=jnp.asarray(x)); 
    if ne: z0["nu"] = jnp.asarray(nu)
    if ni: z0["mu"] = jnp.asarray(mu)
    zs, want = dense(res, z0, tuple(args))
    # order of the flattened z0: mu, nu, x (dict keys sorted)
    nmu, nnu = (2 if ni else 0), (1 if ne else 0)
    W = [np.concatenate([w[nmu + nnu:], w[nmu:nmu + nnu], w[:nmu]]) for w in want]

    def pack(a, names=tuple(names), ne=ne, ni=ni):
      d = dict(zip(names, a))
      return (d["Q"], d["c"]), (d["A"], d["b"]) if ne else None, (d["G"], d["h"]) if ni else None

    def out(p, ne=ne, ni=ni):
      return jnp.concatenate([p.primal] + ([p.dual_eq] if ne else []) + ([p.dual_ineq] if ni else []))
    key = f"Q={Q.ravel().tolist()} c={c.tolist()} A={ne} b={b} G={ni}"

    def f_for(form, kw, layout, solve=None):
      if (form, layout, ne, ni) not in cache:
        f = build(kw, layout, solve)
        cache[form, layout, ne, ni] = (f, None) if which == "CvxpyQP" else (jax.jit(f), jax.jit(jax.jacrev(f, argnums=tuple(range(len(args))))))
      return cache[form, layout, ne, ni]

    def build(kw, layout, solve):
      if which == "OSQP":
        s = jaxopt.OSQP(tol=1e-7, maxiter=8000, implicit_diff_solve=solve, **kw)
      elif which == "CvxpyQP":
        s = jaxopt.CvxpyQP(implicit_diff_solve=solve, **kw)
      else:
        s = jaxopt.EqualityConstrainedQP(tol=1e-12, implicit_diff_solve=solve, **kw)
      def f(*a):
        po, pe, pi = pack(a)
        if which == "EqualityConstrainedQP":
          p = s.run(None, po, pe) if layout == "pos" else s.run(params_obj=po, params_eq=pe) if layout == "kw" else s.run(None, params_eq=pe, params_obj=po)
        else:
          p = s.run(None, po, pe, pi) if layout == "pos" else s.run(init_params=None, params_obj=po, params_eq=pe, params_ineq=pi) if layout == "kw" else s.run(None, params_ineq=pi, params_eq=pe, params_obj=po)
        return out(p.params)
      return f
    forms = [("dense", {}, "pos", 1.0)]
    if (ne, ni) not in seen:
      forms += [("dense", {}, "kw", 1.0), ("dense", {}, "kw-rev", 1.0), ("twice", {}, "pos", 2.0)]
      if which != "CvxpyQP":
        mv = dict(matvec_Q=lambda M, v: 0.5 * (M + M.T) @ v)
        if ne: mv["matvec_A"] = lambda M, v: M @ v
        if ni: mv["matvec_G"] = lambda M, v: M @ v
        forms += [("matvec", mv, "pos", 1.0)]
      seen.add((ne, ni))
    for form, kw, lay, sc in forms:
      f, J = f_for(form, kw, lay, twice if form == "twice" else None)
      y = f(*args)
      R.close(f"{key} {form} {lay} solution", y, np.concatenate([x, nu, mu]), tol=tol)
      if which == "CvxpyQP":
        _, pull = jax.vjp(f, *args)
        J = [np.stack(t) for t in zip(*[pull(e) for e in np.eye(len(y))])]
      else:
        J = J(*args)
      for n, g, w in zip(names, J, W):
        g = np.asarray(g).reshape(w.shape)
        if n == "Q":    # derivative along symmetric perturbations
          sym = lambda t: t.reshape(-1, 2, 2) + np.swapaxes(t.reshape(-1, 2, 2), 1, 2)
          g, w = sym(g), sym(w)
        R.close(f"{key} {form} {lay} d/d{n}", g, sc * w, tol=tol * 5)
      R.case(transitions=len(args)); R.outcome(which, form, lay, f"eq={ne} ineq={ni}")


def osqp_zero_dual(R):
  """An equality constraint that is inactive in the sense of a zero multiplier."""
  import jax, jax.numpy as jnp
  import jaxopt
  A = jnp.array([[1.0, -1.0]])
  f = lambda c: jaxopt.OSQP(tol=1e-7, maxiter=8000).run(None, (jnp.eye(2), c), (A, jnp.zeros(1)), None).params.primal
  J = jax.jacrev(f)(jnp.array([-2.0, -2.0]))
  R.close("Q=I c=(-2,-2) A=(1,-1) b=0 d/dc", J, np.full((2, 2), -0.5), tol=1e-3); R.case(); R.outcome("OSQP zero multiplier")


def boxqp(R):
  """BoxOSQP and BoxCDQP derivatives on every pattern of active bounds."""
  import jax, jax.numpy as jnp
  import jaxopt
  Q = jnp.array([[2.0, 0.5], [0.5, 1.0]])
  for cname, c in (("a", (-2.0, 0.5)), ("b", (0.3, -0.4)), ("c", (3.0, 3.0)), ("d", (-3.0, 3.0)), ("e", (0.6, -2.0))):
    c = jnp.array(c); l, u = jnp.array([-0.5, -0.6]), jnp.array([0.4, 0.9])
    best = None
    for pat in itertools.product((-1, 0, 1), repeat=2):
      free = [i for i in range(2) if pat[i] == 0]; x = np.where(np.array(pat) < 0, l, np.where(np.array(pat) > 0, u, 0.0))
      if free:
        fixed = [i for i in range(2) if i not in free]
        x[free] = np.linalg.solve(np.asarray(Q)[np.ix_(free, free)], -(np.asarray(c)[free] + np.asarray(Q)[np.ix_(free, fixed)] @ x[fixed]))
      gr = np.asarray(Q) @ x + np.asarray(c)
      if all((p == 0 and l[i] < x[i] < u[i]) or (p < 0 and gr[i] > 0.02) or (p > 0 and gr[i] < -0.02) for i, p in enumerate(pat)):
        best = (pat, x); break
    pat, x = best; P = np.array(pat)
    def res(z, Q, c, l, u): return jnp.where(P == 0, 0.5 * (Q + Q.T) @ z + c, jnp.where(P < 0, z - l, z - u))
    args = (Q, c, l, u)
    xs, W = dense(res, jnp.asarray(x), args)
    runs = {"BoxCDQP": lambda Q, c, l, u: jaxopt.BoxCDQP(tol=1e-10, maxiter=500).run(jnp.zeros(2), (Q, c), (l, u)).params,
            "BoxCDQP kw": lambda Q, c, l, u: jaxopt.BoxCDQP(tol=1e-10, maxiter=500).run(jnp.zeros(2), params_ineq=(l, u), params_obj=(Q, c)).params,
            "BoxOSQP": lambda Q, c, l, u: jaxopt.BoxOSQP(tol=1e-7, maxiter=5000).run(None, (Q, c), jnp.eye(2), (l, u)).params.primal[0],
            "BoxOSQP z": lambda Q, c, l, u: jaxopt.BoxOSQP(tol=1e-7, maxiter=5000).run(None, (Q, c), params_eq=jnp.eye(2), params_ineq=(l, u)).params.primal[1]}
    for rn, f in runs.items():
      y, J = jax.jit(lambda *a: (f(*a), jax.jacrev(f, argnums=(0, 1, 2, 3))(*a)))(*args)
      R.close(f"{rn} {cname} solution", y, x, tol=1e-4)
      for n, g, w in zip(("Q", "c", "l", "u"), J, W):
        g = np.asarray(g).reshape(w.shape)
        if n == "Q":
          sym = lambda t: t.reshape(-1, 2, 2) + np.swapaxes(t.reshape(-1, 2, 2), 1, 2)
          g, w = sym(g), sym(w)
        R.close(f"{rn} {cname} pattern={pat} d/d{n}", g, w, tol=2e-3)
      R.case(transitions=4); R.outcome(rn, f"pattern={pat}")


def complex_params(R, name):
  """Derivatives of complex solutions (LBFGS, NonlinearCG) wrt real and complex parameters == those of the problem in real coordinates."""
  import jax, jax.numpy as jnp
  import jaxopt
  from jaxopt import linear_solve as ls
  A = jnp.array([[1.0, 0.5j], [0.2 - 1j, 2.0], [0.3, 0.7 + 0.4j]]); b = jnp.array([1.0 + 1j, -0.5, 2j])
  sq = lambda y: jnp.sum(y.real ** 2 + y.imag ** 2)
  probs = {   # (objective of (x, real 2-vector t, complex scalar z))
      "least squares": lambda x, t, z: sq(A @ x - b * z) + (1 + t[0] ** 2) * sq(x - t[1]),
      "not C-linear": lambda x, t, z: jnp.sum((2 + t[0]) * x.real ** 2 + x.imag ** 2 + 0.5 * x.real * x.imag) + jnp.sum((x * z).imag) + t[1] * (x[0] * x[1]).real,
      "nonlinear": lambda x, t, z: jnp.sum(jnp.log(jnp.cosh(x.real)) + jnp.sqrt(1 + x.imag ** 2)) + 0.5 * sq(x - z * t)}
  wrap = {"vector": lambda v: (v, lambda x: x), "dict": lambda v: ({"p": v[:1], "q": v[1]}, lambda d: jnp.concatenate([d["p"], d["q"][None]]))}
  c2r = lambda x: jnp.concatenate([x.real, x.imag])
  twice = lambda mv, b: jax.tree_util.tree_map(lambda l: 2 * l, ls.solve_normal_cg(mv, b, tol=1e-12))
  for (pn, f), (wn, wr) in itertools.product(probs.items(), wrap.items()):
    def run(v, sol):
      z0, un = wr(jnp.array([0.3 - 0.2j, 0.1j]))
      g = lambda x, t, z: f(un(x), t, z)
      lin = {"default": None, "twice": twice}[sol]
      s = getattr(jaxopt, name)(g, tol=1e-9, maxiter=300, implicit_diff_solve=lin)
      return c2r(un(s.run(z0, v[:2], z=v[2] + 1j * v[3]).params))
    res = lambda x, v: jax.grad(lambda x: f(x[:2] + 1j * x[2:], v[:2], v[2] + 1j * v[3]))(x)
    for sol in ("default", "twice") if wn == "vector" else ("default",):
      J = jax.jit(lambda v: (run(v, sol), jax.jacrev(lambda v: run(v, sol))(v)))
      for v in itertools.product((0.0, 0.7), (-0.4, 0.3), (0.0, 1.3), (-0.6, 0.5)) if sol == "default" else [(0.7, -0.4, 1.3, 0.5)]:
        v = jnp.array(v); x, g = J(v)
        xw, W = dense(res, jnp.asarray(np.asarray(x)), (v,))
        key = f"{pn} {wn} solve={sol} at {v.tolist()}"
        R.close(key + " solution", x, xw, tol=1e-5); R.close(key + " derivative", g, (2 if sol == "twice" else 1) * W[0], tol=1e-3)
        R.case(); R.outcome("complex", name, pn, wn, sol)


def float32(R, name):
  """Every linear solver can differentiate a single precision solution while x64 is enabled; the derivative stays in single precision."""
  import jax, jax.numpy as jnp
  import jaxopt
  from jaxopt import linear_solve as ls
  f = lambda x, t: 0.5 * x @ (jnp.array([[3.0, 1.0], [1.0, 2.0]], jnp.float32) @ x) + 0.5 * t[0] ** 2 * jnp.sum(x ** 2) + jnp.dot(x, t) + jnp.sum(jnp.log(jnp.cosh(x)))
  for sol in (None, "solve_lu", "solve_cholesky", "solve_inv", "solve_qr", "solve_cg", "solve_normal_cg", "solve_gmres", "solve_bicgstab"):
    kw = dict(implicit_diff_solve=None if sol is None else getattr(ls, sol), tol=1e-5, maxiter=200)
    s = getattr(jaxopt, name)(f, **kw)
    run = lambda t: s.run(jnp.zeros(2, jnp.float32), t).params
    J = jax.jit(lambda t: (run(t), jax.jacrev(run)(t)))
    for t in itertools.product((0.5, -1.3), (0.4, 2.1)):
      x, g = J(jnp.array(t, jnp.float32))
      xw, W = dense(jax.grad(f), jnp.asarray(x, jnp.float64), (jnp.array(t),))
      R.check(x.dtype == np.float32 and g.dtype == np.float32, f"{sol} at {t} dtype", f"{x.dtype} {g.dtype}")
      R.close(f"{sol} at {t} solution", x, xw, tol=1e-3); R.close(f"{sol} at {t} derivative", g, W[0], tol=2e-3)
      R.case(); R.outcome("float32", name, str(sol))


SECOND = [n for n in NAMES if not n.startswith("Scipy") or n in ("ScipyMinimize", "ScipyRootFinding")]
SECOND_QUICK = ("GradientDescent ProximalGradient LBFGSB-upper ProjectedGradient-simplex BlockCoordinateDescent FixedPointIteration Broyden Bisection "
                "GaussNewton LevenbergMarquardt-mat IterativeRefinement ScipyMinimize").split()


def second_order(R, name):
  """Hessians of solutions (reverse mode twice) == the second derivative of the implicit function, for every argument pair."""
  import jax, jax.numpy as jnp
  from jax.flatten_util import ravel_pytree
  c = catalogue()[name]
  make, F, args, init = c["make"], c["F"], c["args"], c["init"]
  s = make()
  un = ravel_pytree(args)[1]
  f = lambda z, w: jnp.vdot(w, jnp.ravel(s.run(init, *un(z)).params))
  both = lambda z, w: (s.run(init, *un(z)).params, jax.jacrev(jax.grad(f))(z, w))
  both = jax.jit(both) if c["jit"] else both
  for pi, args in enumerate(c["pts"]):
    zf = ravel_pytree(args)[0]
    for w in np.eye(1 if name == "Bisection" else 2):
      x, H = both(zf, jnp.asarray(w))
      x, H = np.atleast_1d(np.asarray(x, float)), np.asarray(H)
      sh = (lambda v: v[0]) if w.size == 1 else (lambda v: v)
      G = lambda v, z: jnp.atleast_1d(F(sh(v), *un(z)))
      for _ in range(4): x = x - np.linalg.solve(np.asarray(jax.jacfwd(G)(x, zf)), np.asarray(G(x, zf)))
      X1 = lambda v, z: -jnp.linalg.solve(jax.jacfwd(G, 0)(v, z), jax.jacfwd(G, 1)(v, z))
      want = jax.jacfwd(X1, 1)(x, zf) + jnp.einsum("ijk,kl->ijl", jax.jacfwd(X1, 0)(x, zf), X1(x, zf))
      R.close(f"point {pi} component {w.tolist()}", H, np.einsum("i,ijl->jl", w, want), tol=max(1e-3, 10 * c["tol"]))
      R.case(); R.outcome("second order", name, int(np.abs(H).max() > 1e-6))



def jobs(tier):
  T = tier == "thorough"
  names = NAMES
  J = [("qp_OSQP", qps, dict(which="OSQP")), ("boxqp", boxqp, {}), ("osqp_zero_dual", osqp_zero_dual, {})]
  J += [(n, solver, dict(name=n, thorough=T)) for n in names]
  J += [(f"deco_{k}_aux{int(a)}", decorators, dict(kind=k, aux=a)) for k in ("root", "fixed_point") for a in (False, True)]
  J += [(f"complex_{n}", complex_params, dict(name=n)) for n in ("LBFGS", "NonlinearCG")]
  J += [(f"float32_{n}", float32, dict(name=n)) for n in ("LBFGS", "GradientDescent")]
  J += [(f"second_{n}", second_order, dict(name=n)) for n in (SECOND if T else SECOND_QUICK)]
  J += [(f"vjp_jvp{n}", vjp_jvp, dict(n=n)) for n in (2, 3)]
  J += [(f"qp_{w}", qps, dict(which=w)) for w in ("EqualityConstrainedQP", "CvxpyQP")]
  return J
