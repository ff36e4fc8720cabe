"""P19: parameters are one vector to every solver: packaging them as any pytree changes nothing.

Every solver is driven through init_state/update/run on the same four-variable problem packaged in every way of a family
of pytrees; at every iteration the unpacked parameters, the numbers in the state and the unpacked tree-valued state are
compared with the run on the plain vector. Complex parameters are compared with their real pairs, single precision with
double. The tree helpers are compared with NumPy on the concatenated leaves over every small tree.
"""
import itertools
import numpy as np

LEVEL = "model_checking"
RULE = "all solvers x packagings x starts x parameters, every iteration compared; all tree helpers x all trees of a family x values; complex against real pairs; float32 inputs under x64"
ASSUMPTIONS = ["four scalar unknowns (two for single precision)", "x64"]

N, DEPTH = 4, 5
STARTS = np.array([[0.0, 0.0, 0.0, 0.0], [1.0, -1.0, 0.5, 2.0], [-2.0, 3.0, 0.3, -0.7], [0.4, 0.1, -1.5, 0.2]])
THETAS = np.array([[1.0, 2.0, -0.5, 0.3], [-1.0, 0.5, 0.0, 1.2]])


# name -> (pack a vector, order in which the leaves list the vector)
def packs():
  import jax.numpy as jnp
  return {
      "matrix": lambda v: v.reshape(2, 2),
      "cube": lambda v: v.reshape(1, 4, 1),
      "scalars": lambda v: (v[0], v[1], v[2], v[3]),
      "dict": lambda v: {"b": v[1:3], "a": v[0], "c": [v[3:4].reshape(1, 1)]},
      "reordered": lambda v: {"z": v[0:1], "a": v[1:4]},
      "holes": lambda v: [v[:2], None, {}, (v[2:].reshape(2, 1),), ()],
      "empty-leaf": lambda v: {"e": v[:0], "x": v},
  }


def unpacker(pack):
  """Inverse of pack, found by packing 0..3."""
  import jax, jax.numpy as jnp
  order = np.concatenate([np.ravel(l) for l in jax.tree_util.tree_leaves(pack(np.arange(N)))])
  inv = np.argsort(order)
  return lambda t: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])[inv]


def base_functions():
  import jax.numpy as jnp
  A = np.array([[3.0, 0.5, 0.2, 0.0], [0.5, 1.0, -0.3, 0.1], [0.2, -0.3, 2.0, 0.4], [0.0, 0.1, 0.4, 1.5]])
  M = np.array([[0.6, -0.5, 0.1, 0.0], [0.7, 0.4, 0.0, -0.2], [0.1, 0.2, -0.5, 0.3], [0.0, 0.3, 0.2, 0.5]])
  fun = lambda x, t: 0.5 * x @ A @ x - t @ x + 0.5 * jnp.sum(jnp.log(jnp.cosh(x - 0.3 * t)))
  fp = lambda x, t: 0.5 * jnp.tanh(M @ x) + t
  res = lambda x, t: jnp.array([x[0] - t[0] + 0.3 * x[0] ** 3, 2.0 * (x[1] - t[1]), 0.2 * x[0] * x[2] + 0.1, x[3] - x[2] + t[2], x[2] + 0.5 * x[3] - t[3]])
  return dict(fun=fun, fp=fp, root=lambda x, t: x - fp(x, t), res=res)


LO, HI = np.array([-0.2, -0.3, -0.1, -5.0]), np.array([0.5, 1.2, 0.6, 5.0])


def solvers():
  """name -> make(packed function, pack, options) -> solver, which function, extra args(pack)."""
  import jax, jax.numpy as jnp, jaxopt, optax
  from jaxopt import prox, projection
  S = {}
  def add(name, make, kind="fun", extra=lambda pk: ()): S[name] = (make, kind, extra)
  tm = jax.tree_util.tree_map
  add("GradientDescent", lambda f, **o: jaxopt.GradientDescent(f, **o))
  add("GradientDescent-plain", lambda f, **o: jaxopt.GradientDescent(f, acceleration=False, **o))
  add("ProximalGradient", lambda f, **o: jaxopt.ProximalGradient(f, prox=prox.prox_lasso, **o), extra=lambda pk: (pk(jnp.array([0.3, 0.1, 0.0, 0.5])),))
  add("ProximalGradient-elastic", lambda f, **o: jaxopt.ProximalGradient(f, prox=prox.prox_elastic_net, stepsize=0.2, **o), extra=lambda pk: ((pk(jnp.array([0.3, 0.1, 0.2, 0.5])), pk(jnp.array([0.3, 0.6, 0.2, 1.0]))),))
  add("ProjectedGradient-box", lambda f, **o: jaxopt.ProjectedGradient(f, projection=projection.projection_box, **o), extra=lambda pk: ((pk(jnp.asarray(LO)), pk(jnp.asarray(HI))),))
  add("ProjectedGradient-nonneg", lambda f, **o: jaxopt.ProjectedGradient(f, projection=projection.projection_non_negative, **o), extra=lambda pk: (None,))
  add("ProjectedGradient-l2ball", lambda f, **o: jaxopt.ProjectedGradient(f, projection=projection.projection_l2_ball, **o), extra=lambda pk: (0.7,))
  add("MirrorDescent", lambda f, **o: jaxopt.MirrorDescent(f, projection_grad=jaxopt.MirrorDescent.make_projection_grad(lambda y, h: tm(jnp.tanh, y), lambda x: tm(jnp.arctanh, tm(lambda v: 0.3 * v, x))), stepsize=0.3, **o), extra=lambda pk: (None,))
  for ls in ("zoom", "backtracking", "hager-zhang"):
    add(f"BFGS-{ls}", lambda f, ls=ls, **o: jaxopt.BFGS(f, linesearch=ls, **o))
    add(f"LBFGS-{ls}", lambda f, ls=ls, **o: jaxopt.LBFGS(f, linesearch=ls, history_size=2, **o))
    add(f"NonlinearCG-{ls}", lambda f, ls=ls, **o: jaxopt.NonlinearCG(f, linesearch=ls, **o))
  for m in ("fletcher-reeves", "hestenes-stiefel"): add(f"NonlinearCG-{m}", lambda f, m=m, **o: jaxopt.NonlinearCG(f, method=m, linesearch="backtracking", **o))
  add("BFGS-fixed", lambda f, **o: jaxopt.BFGS(f, stepsize=0.2, **o))
  add("LBFGS-fixed", lambda f, **o: jaxopt.LBFGS(f, stepsize=0.2, history_size=3, **o))
  add("LBFGS-nogamma", lambda f, **o: jaxopt.LBFGS(f, linesearch="backtracking", use_gamma=False, history_size=3, **o))
  add("LBFGSB-zoom", lambda f, **o: jaxopt.LBFGSB(f, history_size=2, **o), extra=lambda pk: ((pk(jnp.asarray(LO)), pk(jnp.asarray(HI))),))
  add("LBFGSB-fixed", lambda f, **o: jaxopt.LBFGSB(f, stepsize=0.5, history_size=2, **o), extra=lambda pk: ((pk(jnp.asarray(LO)), pk(jnp.asarray(HI))),))
  add("PolyakSGD", lambda f, **o: jaxopt.PolyakSGD(f, fun_min=-9.0, max_stepsize=0.2, momentum=0.4, **o))
  add("ArmijoSGD", lambda f, **o: jaxopt.ArmijoSGD(f, momentum=0.2, **o))
  add("ArmijoSGD-goldstein", lambda f, **o: jaxopt.ArmijoSGD(f, reset_option="goldstein", **o))
  add("OptaxSolver", lambda f, **o: jaxopt.OptaxSolver(f, opt=optax.adam(0.1), **o))
  add("FixedPointIteration", lambda f, **o: jaxopt.FixedPointIteration(f, **o), "fp")
  add("AndersonAcceleration", lambda f, **o: jaxopt.AndersonAcceleration(f, history_size=2, ridge=1e-6, **o), "fp")
  add("AndersonAcceleration-beta", lambda f, **o: jaxopt.AndersonAcceleration(f, history_size=3, mixing_frequency=2, beta=0.7, ridge=1e-6, **o), "fp")
  add("AndersonWrapper", lambda f, **o: jaxopt.AndersonWrapper(jaxopt.GradientDescent(f, stepsize=0.2, acceleration=False, **o), history_size=2, ridge=1e-6))
  add("Broyden", lambda f, **o: jaxopt.Broyden(f, **o), "root")
  add("Broyden-fixed", lambda f, **o: jaxopt.Broyden(f, stepsize=1.0, history_size=3, **o), "root")
  add("GaussNewton", lambda f, **o: jaxopt.GaussNewton(f, **o), "res")
  return S


SKIP_FIELDS = ("H", "hessian", "aux", "internal_state")


def drive(name, pk, un, X, T, packout=None, run=True):
  """[(flat params, state, packed params)] for init, DEPTH updates, run."""
  import jax, jax.numpy as jnp
  make, kind, extra = solvers()[name]
  base = base_functions()[kind]
  if kind == "fun": f = lambda p, t: base(un(p), un(t))
  elif kind == "res": f = lambda p, t: (packout or (lambda r: r))(base(un(p), un(t)))
  else: f = lambda p, t: pk(base(un(p), un(t)))
  s = make(f, maxiter=6, tol=1e-3)
  ex = extra(pk)
  P = lambda V: jax.vmap(pk)(jnp.asarray(V))
  x, t = P(X), P(T)
  st = jax.jit(jax.vmap(lambda x, t: s.init_state(x, *ex, t)))(x, t)
  upd = jax.jit(jax.vmap(lambda x, st, t: tuple(s.update(x, st, *ex, t))))
  out = [(x, st)]
  for _ in range(DEPTH):
    x, st = upd(x, st, t); out.append((x, st))
  if run: out.append(tuple(jax.jit(jax.vmap(lambda x, t: tuple(s.run(x, *ex, t))))(P(X), t)))
  return out


def compare(R, key, pk, un, ref, got, X, T, rtol=1e-7, skip=()):
  import jax
  td = jax.tree_util.tree_structure(pk(np.zeros(N)))
  shapes = [np.shape(l) for l in jax.tree_util.tree_leaves(pk(np.zeros(N)))]
  flat = lambda tree, lead: np.asarray(__import__("functools").reduce(lambda f, _: jax.vmap(f), range(lead), un)(tree))
  n = len(X)
  for k, ((xr, sr), (xg, sg)) in enumerate(zip(ref, got)):
    tag = lambda i: f"{key} start={X[i].tolist()} theta={T[i].tolist()} " + (f"k={k}" if k <= DEPTH else "run")
    if not R.check(jax.tree_util.tree_structure(xg) == td and [l.shape[1:] for l in jax.tree_util.tree_leaves(xg)] == shapes and all(l.dtype == np.float64 for l in jax.tree_util.tree_leaves(xg)), f"{tag(0)} structure", f"{jax.tree_util.tree_structure(xg)}"): return
    R.closes(lambda i: tag(i) + " params", flat(xg, 1), np.asarray(xr), tol=rtol)
    for f in sr._fields:
      if f in SKIP_FIELDS or f in skip: continue
      a, b = getattr(sr, f), getattr(sg, f)
      if jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b) and (a is None or not hasattr(a, "shape")): continue      # nested states: their effect shows in the parameters
      if not hasattr(a, "shape"): continue
      a = np.asarray(a)
      if jax.tree_util.tree_structure(b) == td and not (td == jax.tree_util.tree_structure(0) and np.shape(b)[1:] == a.shape[1:] and a.shape[-1:] != (N,)):
        lead = np.ndim(jax.tree_util.tree_leaves(b)[-1]) - len(shapes[-1])
        try: b = flat(b, lead)
        except Exception: b = np.asarray(jax.tree_util.tree_leaves(b)[0])
      elif hasattr(b, "shape"): b = np.asarray(b)
      else: R.violation(f"{tag(0)} {f} structure", f"{jax.tree_util.tree_structure(b)}"); continue
      if a.dtype == bool or b.dtype == bool: a, b = a.astype(float), b.astype(float)
      if not R.check(a.shape == b.shape, f"{tag(0)} {f} shape", f"{a.shape} {b.shape}"): continue
      R.closes(lambda i: f"{tag(i)} {f}", b.reshape(n, -1), a.reshape(n, -1), tol=rtol * 10)
  R.add(states=n * (DEPTH + 2), transitions=n * (DEPTH + 1), traces=n, evals=n)


def packaging(R, name, names, run):
  X, T = np.repeat(STARTS, len(THETAS), 0), np.tile(THETAS, (len(STARTS), 1))
  if name == "MirrorDescent": X = X * 0.4
  ident = lambda v: v
  ref = drive(name, ident, ident, X, T, run=run)
  kind = solvers()[name][1]
  for pname in names:
    pk = packs()[pname]; un = unpacker(pk)
    got = drive(name, pk, un, X, T, run=run)
    compare(R, pname, pk, un, ref, got, X, T)
    R.outcome("packaging", pname, n=len(X))
  if kind == "res":
    for rname, po in (("column residual", lambda r: r.reshape(5, 1)), ("matrix residual", lambda r: r.reshape(1, 5))):
      compare(R, rname, ident, ident, ref, drive(name, ident, ident, X, T, packout=po, run=run), X, T, skip=("residual",)); R.outcome("packaging", rname, n=len(X))


# ------------------------------------------------ complex parameters against their real pairs

def complex_pairs(R, name):
  import jax, jax.numpy as jnp, jaxopt
  A = np.array([[3.0, 0.5 + 0.3j], [0.5 - 0.3j, 2.0]])
  fC = lambda z, t: jnp.real(jnp.conj(z) @ A @ z) - jnp.real(jnp.conj(t) @ z) + 0.3 * jnp.sum(jnp.abs(z - 0.2 * t) ** 4)
  to = lambda r: r[..., :2] + 1j * r[..., 2:]
  fr = lambda z: np.concatenate([np.real(z), np.imag(z)], -1)
  fR = lambda r, t: fC(r[:2] + 1j * r[2:], t)
  S = {}
  for ls in ("zoom", "backtracking", "hager-zhang"):
    S[f"LBFGS-{ls}"] = lambda f, ls=ls, **o: jaxopt.LBFGS(f, linesearch=ls, history_size=2, **o)
    for m in ("polak-ribiere", "fletcher-reeves", "hestenes-stiefel"):
      S[f"NonlinearCG-{ls}-{m}"] = lambda f, ls=ls, m=m, **o: jaxopt.NonlinearCG(f, linesearch=ls, method=m, **o)
  S["LBFGS-fixed"] = lambda f, **o: jaxopt.LBFGS(f, stepsize=0.1, history_size=3, **o)
  S["LBFGS-nogamma"] = lambda f, **o: jaxopt.LBFGS(f, linesearch="backtracking", use_gamma=False, **o)
  X, T = np.repeat(STARTS, 2, 0), np.tile(to(THETAS), (len(STARTS), 1))
  for form in ("array", "dict"):
    pk = (lambda z: z) if form == "array" else (lambda z: {"b": z[..., :1], "a": z[..., 1:]})
    up = (lambda z: z) if form == "array" else (lambda p: jnp.concatenate([p["b"], p["a"]], -1))
    sC = S[name](lambda p, t: fC(up(p), t), maxiter=6, tol=1e-3); sR = S[name](fR, maxiter=6, tol=1e-3)
    UC = jax.jit(jax.vmap(lambda x, st, t: tuple(sC.update(x, st, t)))); UR = jax.jit(jax.vmap(lambda x, st, t: tuple(sR.update(x, st, t))))
    z, x = pk(jnp.asarray(to(X))), jnp.asarray(X)
    sz = jax.jit(jax.vmap(lambda z, t: sC.init_state(z, t)))(z, T); sx = jax.jit(jax.vmap(lambda x, t: sR.init_state(x, t)))(x, T)
    for k in range(DEPTH + 1):
      tag = lambda i: f"complex {form} start={X[i].tolist()} theta={T[i].tolist()} k={k}"
      R.check(all(l.dtype == np.complex128 for l in jax.tree_util.tree_leaves(z)), f"complex {form} k={k} dtype")
      R.closes(lambda i: tag(i) + " params", fr(np.asarray(up(z))), np.asarray(x), tol=1e-7)
      for f in ("value", "error", "stepsize"):
        a = np.asarray(getattr(sz, f)); R.check(not np.iscomplexobj(a), f"complex {form} k={k} {f} is real")
        R.closes(lambda i: f"{tag(i)} {f}", np.real(a), np.asarray(getattr(sx, f)), tol=1e-6)
      R.closes(lambda i: f"{tag(i)} grad", fr(np.conj(np.asarray(up(sz.grad)))), np.asarray(sx.grad), tol=1e-6)
      if hasattr(sz, "descent_direction"): R.closes(lambda i: f"{tag(i)} direction", fr(np.asarray(up(sz.descent_direction))), np.asarray(sx.descent_direction), tol=1e-6)
      for f in ("num_fun_eval", "num_grad_eval", "num_linesearch_iter"): R.closes(lambda i: f"{tag(i)} {f}", np.asarray(getattr(sz, f)), np.asarray(getattr(sx, f)))
      R.add(states=len(X), transitions=len(X))
      if k < DEPTH: z, sz = UC(z, sz, T); x, sx = UR(x, sx, T)
    if "hager" not in name:
      rz = jax.jit(jax.vmap(lambda z, t: sC.run(z, t).params))(pk(jnp.asarray(to(X))), T); rx = jax.jit(jax.vmap(lambda x, t: sR.run(x, t).params))(jnp.asarray(X), T)
      R.closes(lambda i: f"complex {form} start={X[i].tolist()} theta={T[i].tolist()} run", fr(np.asarray(up(rz))), np.asarray(rx), tol=1e-6)
    R.add(traces=len(X), evals=len(X)); R.outcome("complex", name, n=len(X))


# ------------------------------------------------ single precision stays single precision

def single(R, names):
  """float32 inputs while x64 is enabled: parameters stay float32, the state keeps its dtypes, the iterates follow float64."""
  import jax, jax.numpy as jnp
  from mc import zoo
  f32 = lambda t: jax.tree_util.tree_map(lambda a: jnp.asarray(a, jnp.float32), t)
  e32, e64 = {e.name: e for e in zoo.entries(jnp.float32)}, zoo.by_name()
  for name in names:
    a, b = e32[name], e64[name]
    s, s64 = a.make(maxiter=5), b.make(maxiter=5)
    U, U64 = jax.jit(lambda x, st, ar: tuple(s.update(x, st, *ar))), jax.jit(lambda x, st, ar: tuple(s64.update(x, st, *ar)))
    for x0 in a.inits:
      for th in a.thetas:
        key = f"{name} start={np.asarray(x0).tolist()} theta={np.asarray(th).tolist()}"
        ar, ar64 = f32(a.args(th)), b.args(th)
        x, x64 = f32(x0), jnp.asarray(x0)
        st, st64 = s.init_state(x, *ar), s64.init_state(x64, *ar64)
        dt = lambda t: [(str(l.dtype), l.shape) for l in jax.tree_util.tree_leaves(t)]
        for k in range(3):
          x, st = U(x, st, ar); x64, st64 = U64(x64, st64, ar64)
          R.check(str(x.dtype) == "float32", f"{key} k={k} parameters dtype", str(x.dtype))
          d0 = dt(st) if k == 0 else d0
          R.check(dt(st) == d0, f"{key} k={k} state dtypes", f"{d0} {dt(st)}")
          R.close(f"{key} k={k} value", np.asarray(x, float), np.asarray(x64), tol=2e-3)
          R.add(states=1, transitions=1)
        R.add(traces=1, evals=1)
    # the whole compiled loop (a state whose dtype changes cannot be carried)
    o = jax.jit(lambda x, ar: s.run(x, *ar).params)(f32(a.inits[-1]), f32(a.args(a.thetas[0])))
    R.check(str(o.dtype) == "float32", f"{name} run dtype", str(o.dtype)); R.outcome("single", name)


# ------------------------------------------------ the tree helpers against NumPy

def helpers(R, tier):
  import jax, jax.numpy as jnp
  from jaxopt import tree_util as tu
  from jaxopt._src import tree_util as tui
  vals = np.array(list(itertools.product([-1.5, 0.0, 2.0], repeat=N)))
  others = np.array([[0.5, -1.0, 2.0, 3.0], [1.0, 0.3, -2.0, 0.25]])
  P = dict(packs(), vector=lambda v: v)
  for pname, pk in P.items():
    un = (lambda t: t) if pname == "vector" else unpacker(pk)
    td = jax.tree_util.tree_structure(pk(np.zeros(N)))
    shapes = [np.shape(l) for l in jax.tree_util.tree_leaves(pk(np.zeros(N)))]
    def tree(key, got, want):
      R.check(jax.tree_util.tree_structure(got) == td and [np.shape(l) for l in jax.tree_util.tree_leaves(got)] == shapes, key + " structure")
      R.close(key, np.asarray(un(got)), want, tol=1e-12)
    for cplx in (False, True):
      a = np.repeat(vals, len(others), 0); b = np.tile(others, (len(vals), 1))
      if cplx: a, b = a + 1j * b[:, ::-1], b - 0.5j * a
      dotted = pname not in ("matrix", "cube", "dict", "holes")
      structures = []
      def F(a, b):
        x, y = pk(a), pk(b); m = pk(jnp.real(a) > 0.0)
        T = dict(add=tu.tree_add(x, y), sub=tu.tree_sub(x, y), mul=tu.tree_mul(x, y), div=tu.tree_div(x, y), scalar_mul=tu.tree_scalar_mul(-0.7, x), add_scalar_mul=tu.tree_add_scalar_mul(x, 0.3, y),
                 negative=tu.tree_negative(x), zeros=tu.tree_zeros_like(x), ones=tu.tree_ones_like(x), conj=tu.tree_conj(x), real=tu.tree_real(x), imag=tu.tree_imag(x), reciprocal=tui.tree_reciproqual(y),
                 where=tu.tree_where(m, x, y), where_right=tu.tree_where(m, x, 7.0), where_left=tu.tree_where(m, 7.0, y), where_true=tu.tree_where(True, x, y), where_false=tu.tree_where(jnp.asarray(False), x, y))
        structures.append({k: jax.tree_util.tree_structure(v) == td and [l.shape for l in jax.tree_util.tree_leaves(v)] == shapes for k, v in T.items()})
        V = dict(vdot=tu.tree_vdot(x, y), vdot_real=tu.tree_vdot_real(x, y), sum=tu.tree_sum(x), l2=tu.tree_l2_norm(x), l2_squared=tu.tree_l2_norm(x, squared=True), inf=tu.tree_inf_norm(x))
        if dotted: V["dot"] = sum(jax.tree_util.tree_leaves(tu.tree_dot(x, y)))
        return {k: un(v) for k, v in T.items()}, V
      T, V = jax.jit(jax.vmap(F))(jnp.asarray(a), jnp.asarray(b))
      m = a.real > 0
      wT = dict(add=a + b, sub=a - b, mul=a * b, div=a / b, scalar_mul=-0.7 * a, add_scalar_mul=a + 0.3 * b, negative=-a, zeros=0 * a, ones=np.ones(a.shape, a.dtype), conj=np.conj(a), real=a.real, imag=a.imag, reciprocal=1 / b,
                where=np.where(m, a, b), where_right=np.where(m, a, 7.0), where_left=np.where(m, 7.0, b), where_true=a, where_false=b)
      wV = dict(vdot=(np.conj(a) * b).sum(1), vdot_real=(np.conj(a) * b).sum(1).real, sum=a.sum(1), l2=np.sqrt((abs(a) ** 2).sum(1)), l2_squared=(abs(a) ** 2).sum(1), inf=abs(a).max(1), dot=(a * b).sum(1))
      for k, ok in structures[0].items(): R.check(ok, f"{pname} {k} structure")
      for k in T: R.closes(lambda i: f"{pname} {k} {a[i].tolist()} {b[i].tolist()}", T[k], wT[k], tol=1e-12)
      for k in V: R.closes(lambda i: f"{pname} {k} {a[i].tolist()} {b[i].tolist()}", V[k], wV[k], tol=1e-12)
      R.check(not any(np.iscomplexobj(V[k]) for k in ("vdot_real", "l2", "l2_squared", "inf")), f"{pname} real results")
      R.case(len(a) * (len(T) + len(V))); R.outcome("helpers", pname, n=len(a))
    # broadcasting, averages, Gram matrices of a batch, dtypes
    Z = np.array(vals[:20]); zb = jax.vmap(pk)(jnp.asarray(Z)); wts = np.linspace(-1, 1, 20)
    tree(f"{pname} average", tui.tree_average(zb, jnp.asarray(wts)), wts @ Z); R.close(f"{pname} gram", tui.tree_gram(zb), Z @ Z.T, tol=1e-12)
    if td != jax.tree_util.tree_structure(0):
      bx, by, bz = tu.broadcast_pytrees(2.0, pk(jnp.asarray(vals[3])), 5.0)
      R.check(all(jax.tree_util.tree_structure(t) == td for t in (bx, by, bz)) and all(l == 2.0 for l in jax.tree_util.tree_leaves(bx)) and all(l == 5.0 for l in jax.tree_util.tree_leaves(bz)), f"{pname} broadcast")
      try: tu.broadcast_pytrees(pk(np.zeros(N)), {"other": 1, "keys": 2}); ok = False
      except ValueError: ok = True
      R.check(ok, f"{pname} broadcast of different structures is refused")
    for dt in (np.float32, np.float64, np.complex64, np.complex128, np.int32):
      R.check(tui.tree_single_dtype(pk(jnp.zeros(N, dt))) == dt, f"{pname} dtype {dt.__name__}")
      R.check(tui.get_real_dtype(np.dtype(dt)) == np.zeros(1, dt).real.dtype, f"real dtype of {dt.__name__}")
    R.case(6)
  try: tui.tree_single_dtype((np.zeros(1, np.float32), np.zeros(1, np.float64))); ok = False
  except ValueError: ok = True
  R.check(ok, "mixed dtypes are refused")


def jobs(tier):
  names = ["LBFGSB-zoom", "NonlinearCG-hager-zhang", "LBFGS-hager-zhang", "BFGS-hager-zhang", "LBFGSB-fixed", "NonlinearCG-zoom", "LBFGS-zoom", "BFGS-zoom", "Broyden", "GaussNewton",
           "BFGS-backtracking", "LBFGS-backtracking", "NonlinearCG-backtracking", "NonlinearCG-fletcher-reeves", "NonlinearCG-hestenes-stiefel", "LBFGS-nogamma", "BFGS-fixed", "LBFGS-fixed", "Broyden-fixed", "AndersonAcceleration", "AndersonAcceleration-beta", "AndersonWrapper",
           "FixedPointIteration", "ArmijoSGD", "ArmijoSGD-goldstein", "PolyakSGD", "OptaxSolver", "MirrorDescent",
           "GradientDescent", "GradientDescent-plain", "ProximalGradient", "ProximalGradient-elastic", "ProjectedGradient-box", "ProjectedGradient-nonneg", "ProjectedGradient-l2ball"]
  allp = ["matrix", "cube", "scalars", "dict", "reordered", "holes", "empty-leaf"]
  some = ["scalars", "reordered", "holes"]
  full = ("LBFGS-fixed", "Broyden-fixed", "AndersonAcceleration", "AndersonAcceleration-beta", "BFGS-fixed", "FixedPointIteration", "PolyakSGD", "OptaxSolver", "MirrorDescent", "GradientDescent-plain", "ProximalGradient-elastic")
  heavy = ("LBFGSB", "zoom", "hager")
  out = [("helpers", helpers, dict(tier=tier))]
  for n in names:
    h = any(w in n for w in heavy)
    out.append((f"pack-{n}", packaging, dict(name=n, names=allp if tier == "thorough" or n in full else ["dict", "reordered"] if h else some, run=n in full or tier == "thorough")))
  for n in [f"LBFGS-{l}" for l in ("zoom", "backtracking", "hager-zhang", "fixed", "nogamma")] + [f"NonlinearCG-{l}-{m}" for l in ("zoom", "backtracking", "hager-zhang") for m in ("polak-ribiere", "fletcher-reeves", "hestenes-stiefel")]:
    if tier == "quick" and ("hager" in n or "zoom" in n) and n.startswith("Non") and "polak" not in n: continue
    out.append((f"complex-{n}", complex_pairs, dict(name=n)))
  zoo = ["GradientDescent", "GradientDescent-fixed", "GradientDescent-sched", "GradientDescent-nofista", "ProximalGradient", "ProximalGradient-fixed", "ProjectedGradient", "MirrorDescent", "MirrorDescent-sched", "BlockCoordinateDescent",
         "BFGS-backtracking", "LBFGS-backtracking", "NonlinearCG-backtracking", "LBFGS-fixed", "Broyden", "Broyden-fixed", "AndersonAcceleration", "AndersonAcceleration-beta", "FixedPointIteration", "AndersonWrapper", "GaussNewton",
         "LevenbergMarquardt", "LevenbergMarquardt-geo", "ArmijoSGD", "PolyakSGD", "OptaxSolver", "BoxCDQP"]
  out += [(f"single-{i}", single, dict(names=zoo[i::4])) for i in range(4)]
  out += [(f"single-{n}", single, dict(names=[n])) for n in ("BFGS-zoom", "LBFGS-zoom", "NonlinearCG-zoom", "BFGS-hager-zhang", "LBFGSB")]
  return out
