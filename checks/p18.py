"""P18: how the objective is supplied (plain, aux, value_and_grad, callable, partial, ...; positional or keyword
arguments) never changes the iterates; aux describes the right point; evaluation counters count evaluations.

For every solver every supply form is driven through init_state/update/run from every start x parameter of a grid and
compared, leaf by leaf of the whole state at every iteration, with the plain form.
"""
import functools, itertools
import numpy as np

LEVEL = "model_checking"
RULE = "all solvers x supply forms x argument-passing forms x starts x parameters, the whole state compared at every iteration; evaluation counters against evaluations counted by host callbacks"
ASSUMPTIONS = ["x64", "two-dimensional problems", "num_grad_eval of the zoom search counts the gradients it may need and is only an upper bound"]

STARTS = np.array(list(itertools.product([-2.0, 0.0, 1.0], [-1.0, 0.5, 3.0])))
THETAS = np.array([[1.0, 2.0], [-1.0, 0.5]])
DEPTH = 5
CHEAP = ["GradientDescent-fixed", "ProximalGradient-fixed", "MirrorDescent", "BFGS-fixed", "LBFGS-fixed", "ArmijoSGD", "OptaxSolver", "PolyakSGD", "FixedPointIteration", "Broyden-fixed", "LevenbergMarquardt-chol"]


def value(x, theta, scale):
  import jax.numpy as jnp
  A = jnp.array([[3.0, 0.5], [0.5, 1.0]])
  return scale * (0.5 * x @ A @ x - theta @ x + 0.5 * jnp.sum(jnp.log(jnp.cosh(x - 0.3 * theta))))


class Objective:
  """A callable object and a bound method with the signature of the objective."""
  def __call__(self, x, theta, scale): return value(x, theta, scale)
  def method(self, x, theta, scale): return value(x, theta, scale)


def supply(form):
  """form -> (fun, options)"""
  import jax
  plain = lambda x, theta, scale: value(x, theta, scale)
  aux = lambda x, theta, scale: (value(x, theta, scale), {"x": x, "v": (3.0 * value(x, theta, scale), theta)})
  if form == "plain": return plain, {}
  if form == "aux": return aux, dict(has_aux=True)
  if form == "vg": return jax.value_and_grad(plain), dict(value_and_grad=True)
  if form == "vg-aux": return jax.value_and_grad(aux, has_aux=True), dict(value_and_grad=True, has_aux=True)
  if form == "vg-callable": return plain, dict(value_and_grad=jax.value_and_grad(plain))
  if form == "vg-callable-aux": return aux, dict(value_and_grad=jax.value_and_grad(aux, has_aux=True), has_aux=True)
  if form == "jitted": return jax.jit(plain), {}
  if form == "partial": return functools.partial(lambda w, x, theta, scale: w * value(x, theta, scale), 1.0), {}
  if form == "object": return Objective(), {}
  if form == "method": return Objective().method, {}
  if form == "tuple-aux": return (lambda x, theta, scale: (value(x, theta, scale), (x, [None, theta]))), dict(has_aux=True)
  raise ValueError(form)


FORMS = ["aux", "vg", "vg-aux", "jitted", "partial", "object", "method"]
CALLABLE = ["vg-callable", "vg-callable-aux"]


def solvers():
  """name -> (make(fun, **kw), extra positional arguments before theta, its keyword name, where aux is evaluated)"""
  import jax, jax.numpy as jnp, jaxopt, optax
  from jaxopt import prox, projection
  box = (np.array([-0.2, -0.3]), np.array([0.5, 1.2]))
  S = {}
  def add(name, make, pre=(), kw=None, aux=None, callable_vg=False): S[name] = (make, pre, kw, aux, callable_vg)
  add("GradientDescent", lambda f, **o: jaxopt.GradientDescent(f, **o))
  add("GradientDescent-fixed", lambda f, **o: jaxopt.GradientDescent(f, stepsize=0.2, acceleration=False, **o))
  add("ProximalGradient", lambda f, **o: jaxopt.ProximalGradient(f, prox=prox.prox_lasso, **o), (0.3,), "hyperparams_prox")
  add("ProximalGradient-fixed", lambda f, **o: jaxopt.ProximalGradient(f, prox=prox.prox_lasso, stepsize=0.2, acceleration=False, **o), (0.3,), "hyperparams_prox")
  add("ProjectedGradient", lambda f, **o: jaxopt.ProjectedGradient(f, projection=projection.projection_box, **o), (box,), "hyperparams_proj")
  add("MirrorDescent", lambda f, **o: jaxopt.MirrorDescent(f, projection_grad=jaxopt.MirrorDescent.make_projection_grad(lambda x, h: jax.nn.softmax(h * x), lambda x: x), stepsize=0.3, **o), (1.5,), "hyperparams_proj", aux="before")
  for ls in ("zoom", "backtracking"):
    add(f"BFGS-{ls}", lambda f, ls=ls, **o: jaxopt.BFGS(f, linesearch=ls, **o), aux="after")
    add(f"LBFGS-{ls}", lambda f, ls=ls, **o: jaxopt.LBFGS(f, linesearch=ls, history_size=2, **o), aux="after")
    add(f"LBFGSB-{ls}", lambda f, ls=ls, **o: jaxopt.LBFGSB(f, linesearch=ls, history_size=2, **o), (box,), "bounds", "after", True)
    add(f"NonlinearCG-{ls}", lambda f, ls=ls, **o: jaxopt.NonlinearCG(f, linesearch=ls, **o), aux="after")
  add("BFGS-hager-zhang", lambda f, **o: jaxopt.BFGS(f, linesearch="hager-zhang", **o), aux="after")
  add("BFGS-fixed", lambda f, **o: jaxopt.BFGS(f, stepsize=0.2, **o), aux="after")
  add("LBFGS-fixed", lambda f, **o: jaxopt.LBFGS(f, stepsize=lambda k: 0.2 / (1 + k), **o), aux="after")
  add("LBFGSB-fixed", lambda f, **o: jaxopt.LBFGSB(f, stepsize=0.3, **o), (box,), "bounds", "after", True)
  add("PolyakSGD", lambda f, **o: jaxopt.PolyakSGD(f, fun_min=-30.0, max_stepsize=0.2, momentum=0.4, **o), aux="before")
  add("ArmijoSGD", lambda f, **o: jaxopt.ArmijoSGD(f, momentum=0.2, **o), aux="before")
  add("OptaxSolver", lambda f, **o: jaxopt.OptaxSolver(f, opt=optax.adam(0.1), **o), aux="before")
  return S


def drive(make, fun, kw, pre, prekw, passing, X, T, run=True):
  """[(params, state)] for init and DEPTH updates, and run's result, with the arguments passed in the given form."""
  import jax
  s = make(fun, maxiter=7, tol=1e-3, **kw)
  def call(f, *lead, t, sc):
    if passing == "positional": return f(*lead, *pre, t, sc)
    if passing == "mixed": return f(*lead, *pre, t, scale=sc)
    if passing == "keyword": return f(*lead, *pre, scale=sc, theta=t)
    return f(*lead, **{prekw: pre[0]}, scale=sc, theta=t)         # everything by keyword
  sc = np.float64(1.3)
  st = jax.jit(jax.vmap(lambda x, t: call(s.init_state, x, t=t, sc=sc)))(X, T)
  upd = jax.jit(jax.vmap(lambda x, st, t: tuple(call(s.update, x, st, t=t, sc=sc))))
  out = [(X, st)]; x = X
  for _ in range(DEPTH):
    x, st = upd(x, st, T); out.append((x, st))
  if run: out.append(tuple(jax.jit(jax.vmap(lambda x, t: tuple(call(s.run, x, t=t, sc=sc))))(X, T)))
  return out


def compare(R, key, ref, got, X, T, counts=False):
  import jax
  for k, ((xr, sr), (xg, sg)) in enumerate(zip(ref, got)):
    tag = lambda i: f"{key} start={X[i].tolist()} theta={T[i].tolist()} " + (f"k={k}" if k <= DEPTH else "run")
    R.closes(lambda i: tag(i) + " params", xg, np.asarray(xr), tol=1e-8)
    for f in sr._fields:
      if f in ("aux", "aux_init") or (f == "num_fun_eval" and counts): continue
      a, b = jax.tree_util.tree_leaves(getattr(sr, f)), jax.tree_util.tree_leaves(getattr(sg, f))
      if not R.check(len(a) == len(b), f"{tag(0)} {f} structure"): continue
      for u, v in zip(a, b):
        u, v = np.asarray(u, float), np.asarray(v, float)
        R.closes(lambda i: f"{tag(i)} {f}", v.reshape(len(X), -1), u.reshape(len(X), -1), tol=1e-7)


def forms(R, name, which, tier):
  import jax
  make, pre, prekw, where, cvg = solvers()[name]
  X, T = np.repeat(STARTS, len(THETAS), 0), np.tile(THETAS, (len(STARTS), 1))
  if name.startswith("MirrorDescent"): X = np.stack([v := np.exp(X[:, 0]) / np.exp(X).sum(1), 1 - v], 1)
  heavy = any(w in name for w in ("zoom", "hager-zhang", "LBFGSB")) and tier == "quick"
  fun, kw = supply("plain")
  ref = drive(make, fun, kw, pre, prekw, "positional", X, T)
  cases = [(f, "positional") for f in FORMS + (CALLABLE if cvg else [])] if which == "forms" else \
          [("plain", p) for p in ("mixed", "keyword")] + [("vg-aux", "keyword")] + ([("plain", "all-keyword"), ("aux", "all-keyword")] if prekw else [])
  if which == "passing" and (name in CHEAP or tier != "quick"): cases += [(f, p) for f in ("aux", "vg") for p in ("mixed", "keyword")]
  if which == "passing" and cvg and ("fixed" in name or tier != "quick"): cases += [(f, "keyword") for f in ["vg"] + CALLABLE]
  if heavy and which == "forms": cases = [c for c in cases if c[0] not in ("jitted", "object", "method", "partial", "vg-callable-aux")]
  if tier == "quick" and name not in CHEAP: cases = [c for c in cases if c[0] not in ("object", "method")]
  if name.startswith("MirrorDescent"): cases = [c for c in cases if "vg" not in c[0]]
  for form, passing in cases:
    fun, kw = supply(form)
    got = drive(make, fun, kw, pre, prekw, passing, X, T, run=not heavy or form == "vg-aux")
    key = f"{form} {passing}"
    compare(R, key, ref, got, X, T, counts=name.startswith("MirrorDescent") and "aux" in form)     # one more evaluation, for the first aux
    if "aux" in form:
      for k in range(len(got)):
        a = got[k][1].aux
        at = np.asarray(a["x"])
        tag = lambda i: f"{key} start={X[i].tolist()} theta={T[i].tolist()} k={k} aux"
        vals = np.asarray(jax.vmap(lambda x, t: value(x, t, 1.3))(at, T))
        R.closes(lambda i: tag(i) + " one evaluation", a["v"][0], 3 * vals, tol=1e-9)
        R.closes(lambda i: tag(i) + " argument", a["v"][1], T)
        want = None
        if k == 0 and name.startswith("LBFGSB"): want = np.clip(X, *pre[0])                # the start, projected
        elif k == 0 or (where == "after"): want = np.asarray(got[k][0])
        elif where == "before" and k <= DEPTH: want = np.asarray(got[k - 1][0])
        if want is not None: R.closes(lambda i: tag(i) + " point", at, want, tol=1e-9)
        if k and where == "after": R.closes(lambda i: tag(i) + " value", a["v"][0], 3 * np.asarray(got[k][1].value), tol=1e-8)
    else: R.check(all(s.aux is None for _, s in got) if hasattr(ref[0][1], "aux") else True, f"{key} no aux")
    R.add(states=len(X) * (DEPTH + 2), transitions=len(X) * (DEPTH + 1), traces=len(X), evals=len(X)); R.outcome("form", form, passing, n=len(X))


# ------------------------------------------------ residual / fixed point / root functions

def vector_solvers():
  import jax, jax.numpy as jnp, jaxopt
  res = lambda x, theta, scale: jnp.array([x[0] - theta[0] + 0.3 * x[0] ** 3, 2.0 * (x[1] - theta[1]), scale * x[0] * x[1] + 0.1])
  fp = lambda x, theta, scale: 0.5 * jnp.tanh(jnp.array([[0.6, -0.5], [0.7, 0.4]]) @ x) + theta * scale
  root = lambda x, theta, scale: x - fp(x, theta, scale)
  S = {
      "GaussNewton": (lambda f, **o: jaxopt.GaussNewton(f, **o), res, "before"),
      "LevenbergMarquardt": (lambda f, **o: jaxopt.LevenbergMarquardt(f, **o), res, "after"),
      "LevenbergMarquardt-chol": (lambda f, **o: jaxopt.LevenbergMarquardt(f, solver="cholesky", materialize_jac=True, **o), res, "after"),
      "LevenbergMarquardt-geo": (lambda f, **o: jaxopt.LevenbergMarquardt(f, solver="cholesky", materialize_jac=True, geodesic=True, **o), res, "after"),
      "FixedPointIteration": (lambda f, **o: jaxopt.FixedPointIteration(f, **o), fp, "before"),
      "AndersonAcceleration": (lambda f, **o: jaxopt.AndersonAcceleration(f, history_size=2, ridge=1e-6, **o), fp, None),
      "Broyden": (lambda f, **o: jaxopt.Broyden(f, **o), root, "after"),
      "Broyden-fixed": (lambda f, **o: jaxopt.Broyden(f, stepsize=1.0, history_size=3, **o), root, "after"),
  }
  return S


def vector_forms(R, name, tier):
  import jax
  make, base, where = vector_solvers()[name]
  X, T = np.repeat(STARTS, len(THETAS), 0) * 0.5, np.tile(THETAS, (len(STARTS), 1))
  plain = lambda x, theta, scale: base(x, theta, scale)
  aux = lambda x, theta, scale: (base(x, theta, scale), {"x": x, "t": [theta]})
  class Obj:
    def __call__(self, x, theta, scale): return base(x, theta, scale)
    def method(self, x, theta, scale): return base(x, theta, scale)
  fs = {"plain": (plain, {}), "aux": (aux, dict(has_aux=True)), "jitted": (jax.jit(plain), {}), "partial": (functools.partial(lambda w, x, theta, scale: base(x, theta, scale), 1), {}), "object": (Obj(), {}), "method": (Obj().method, {})}
  if name in ("LevenbergMarquardt-chol", "LevenbergMarquardt-geo"):
    fs["jac"] = (plain, dict(jac_fun=jax.jacrev(plain))); fs["jac-aux"] = (aux, dict(jac_fun=jax.jacrev(plain), has_aux=True))
  drv = lambda f, kw, p: drive(lambda fun, **o: make(fun, **{k: v for k, v in o.items() if not (k == "tol" and name.startswith("Lev"))}), f, kw, (), None, p, X, T)
  ref = drv(plain, {}, "positional")
  for form, passing in [(f, "positional") for f in fs if f != "plain" and (tier != "quick" or name in CHEAP or f not in ("object", "method", "jitted"))] + [("plain", "mixed"), ("plain", "keyword"), ("aux", "keyword")]:
    f, kw = fs[form]
    got = drv(f, kw, passing); key = f"{form} {passing}"
    compare(R, key, ref, got, X, T)
    if "aux" in form and hasattr(got[0][1], "aux"):
      for k in range(len(got)):
        a = got[k][1].aux
        want = np.asarray(got[k][0]) if where == "after" and k else np.asarray(got[k - 1][0]) if where == "before" and 0 < k <= DEPTH else None
        if want is not None: R.closes(lambda i: f"{key} start={X[i].tolist()} theta={T[i].tolist()} k={k} aux point", a["x"], want, tol=1e-9)
        if k: R.closes(lambda i: f"{key} start={X[i].tolist()} theta={T[i].tolist()} k={k} aux argument", a["t"][0], T)
    R.add(states=len(X) * (DEPTH + 2), transitions=len(X) * (DEPTH + 1), traces=len(X), evals=len(X)); R.outcome("form", form, passing, n=len(X))


# ------------------------------------------------ line searches on their own

def linesearch(R, name, tier):
  import jax, jax.numpy as jnp, jaxopt
  X, T = np.repeat(STARTS, len(THETAS), 0), np.tile(THETAS, (len(STARTS), 1))
  from jaxopt import BacktrackingLineSearch, HagerZhangLineSearch
  from jaxopt._src.zoom_linesearch import ZoomLineSearch
  cls = {"zoom": ZoomLineSearch, "backtracking": BacktrackingLineSearch, "hager-zhang": HagerZhangLineSearch}[name]
  vg = jax.value_and_grad(value)
  def run(form, given, passing):
    fun, kw = supply(form)
    ls = cls(fun=fun, maxiter=12, max_stepsize=4.0, **kw) if name != "hager-zhang" else cls(fun=fun, maxiter=12, max_stepsize=4.0, **kw)
    def one(x, t):
      v, g = vg(x, t, 1.3)
      d = -jnp.array([1.0, 0.4]) * g
      opt = dict(value=v, grad=g) if given == "both" else dict(grad=g) if given == "grad" else dict(value=v) if given == "value" else {}
      if given != "direction-default": opt["descent_direction"] = d
      a = dict(fun_args=[t, 1.3]) if passing == "positional" else dict(fun_args=[t], fun_kwargs=dict(scale=1.3)) if passing == "mixed" else dict(fun_kwargs=dict(scale=1.3, theta=t))
      s, st = ls.run(jnp.asarray(1.0), x, **opt, **a)
      out = dict(s=s, params=st.params, value=getattr(st, "value", 0.0), grad=getattr(st, "grad", x), failed=st.failed, aux=st.aux if kw.get("has_aux") and form != "tuple-aux" else {"x": st.params, "v": (3.0 * value(st.params, t, 1.3), t)})
      return out
    return jax.jit(jax.vmap(one))(X, T)
  ref = run("plain", "both", "positional"); refd = run("plain", "direction-default", "positional")
  cases = [(f, "both", "positional") for f in FORMS + CALLABLE] + [("plain", g, "positional") for g in ("grad", "value", "none")] + [("vg-aux", "none", "keyword"), ("plain", "both", "mixed"), ("aux", "value", "keyword")]
  if tier == "quick" and name != "backtracking": cases = [c for c in cases if c[0] not in ("jitted", "object", "method")]
  if name == "hager-zhang": cases = cases[:3] + cases[-5:]
  for form, given, passing in cases:
    got = run(form, given, passing)
    key = f"{form} given={given} {passing}"
    for f in ("s", "params", "value", "grad", "failed"):
      R.closes(lambda i: f"{key} start={X[i].tolist()} theta={T[i].tolist()} {f}", np.asarray(got[f], float).reshape(len(X), -1), np.asarray(ref[f], float).reshape(len(X), -1), tol=1e-8)
    ok = ~np.asarray(got["failed"])
    R.closes(lambda i: f"{key} start={X[i].tolist()} aux", np.asarray(got["aux"]["x"])[ok], np.asarray(got["params"])[ok], tol=1e-9)
    R.case(len(X)); R.outcome("line search", name, form, given, n=len(X))
  # without a direction: minus the gradient
  for form in ("vg", "aux"):
    got = run(form, "direction-default", "positional")
    R.closes(lambda i: f"{form} default direction start={X[i].tolist()}", got["params"], np.asarray(refd["params"]), tol=1e-8)
  g = np.asarray(jax.vmap(lambda x, t: vg(x, t, 1.3)[1])(X, T))
  R.closes(lambda i: f"default direction start={X[i].tolist()} theta={T[i].tolist()}", refd["params"], X - np.asarray(refd["s"])[:, None] * g, tol=1e-8); R.case(len(X))


# ------------------------------------------------ counters

def counters(R, name, vgform):
  """num_fun_eval / num_grad_eval against evaluations counted on the host while the compiled update runs."""
  import jax, jax.numpy as jnp
  from jax.experimental import io_callback
  import jaxopt
  C = {"F": 0, "G": 0}
  def hit(k):
    def f(x): C[k] += 1; return np.float64(0)
    return f
  tick = lambda k, x: io_callback(hit(k), jax.ShapeDtypeStruct((), jnp.float64), x)
  if vgform:
    def fun(x, theta, scale):
      v, g = jax.value_and_grad(value)(x, theta, scale); return v + tick("G", v), g
    kw = dict(value_and_grad=True)
  else:
    @jax.custom_vjp
    def fun(x, theta, scale):
      v = value(x, theta, scale); return v + tick("F", v)
    def fwd(x, theta, scale):
      v, g = jax.value_and_grad(value)(x, theta, scale); return v + tick("G", v), (g, theta)
    fun.defvjp(fwd, lambda r, c: (c * r[0], jnp.zeros_like(r[1]), jnp.zeros(())))
    kw = {}
  make, pre, *_ = solvers()[name]
  s = make(fun, maxiter=99, tol=1e-12, **kw)
  init, upd = jax.jit(lambda x, t: s.init_state(x, *pre, t, 1.0)), jax.jit(lambda x, st, t: tuple(s.update(x, st, *pre, t, 1.0)))
  for x0 in STARTS:
    if name.startswith("MirrorDescent"): x0 = np.exp(x0) / np.exp(x0).sum()
    for t in THETAS[:1]:
      init(jnp.asarray(x0), t)
      jax.effects_barrier(); C.update(F=0, G=0)
      st = init(jnp.asarray(x0), t); x = jnp.asarray(x0); jax.block_until_ready(st)
      for k in range(6):
        jax.effects_barrier()
        key = f"start={x0.tolist()} k={k}"
        R.check(int(st.num_fun_eval) == C["F"] + C["G"], f"{key} num_fun_eval", f"{int(st.num_fun_eval)} reported, {C} made")
        if "zoom" in name: R.check(vgform or int(st.num_grad_eval) >= C["G"], f"{key} num_grad_eval", f"{int(st.num_grad_eval)} reported, {C} made")
        elif not vgform: R.check(int(st.num_grad_eval) == C["G"], f"{key} num_grad_eval", f"{int(st.num_grad_eval)} reported, {C} made")
        R.add(states=1, transitions=1, evals=1)
        if float(st.error) <= 1e-8: break
        x, st = upd(x, st, t); jax.block_until_ready((x, st))
      R.add(traces=1)
  R.outcome("counters", name)


def counters_linesearch(R, name, vgform):
  """The same for the line searches themselves, whatever of value, gradient and direction the caller supplies."""
  import jax, jax.numpy as jnp
  from jax.experimental import io_callback
  from jaxopt import BacktrackingLineSearch, HagerZhangLineSearch
  from jaxopt._src.zoom_linesearch import ZoomLineSearch
  cls = {"zoom": ZoomLineSearch, "backtracking": BacktrackingLineSearch, "hager-zhang": HagerZhangLineSearch}[name]
  C = {"n": 0}
  def hit(x): C["n"] += 1; return np.float64(0)
  tick = lambda x: io_callback(hit, jax.ShapeDtypeStruct((), jnp.float64), x)
  if vgform:
    def fun(x, theta, scale):
      v, g = jax.value_and_grad(value)(x, theta, scale); return v + tick(v), g
  else:
    @jax.custom_vjp
    def fun(x, theta, scale):
      v = value(x, theta, scale); return v + tick(v)
    def fwd(x, theta, scale):
      v, g = jax.value_and_grad(value)(x, theta, scale); return v + tick(v), (g, theta)
    fun.defvjp(fwd, lambda r, c: (c * r[0], jnp.zeros_like(r[1]), jnp.zeros(())))
  vg = jax.jit(jax.value_and_grad(value))
  for cond in (("strong-wolfe", "wolfe", "armijo", "goldstein") if name == "backtracking" else (None,)):
    ls = cls(fun=fun, value_and_grad=vgform, maxiter=6, max_stepsize=4.0, **({"condition": cond} if cond else {}))
    for given in itertools.product((False, True), repeat=3):
      pick = lambda v, g: dict([(k, w) for k, w, on in zip(("value", "grad", "descent_direction"), (v, g, -0.7 * g), given) if on])
      init = jax.jit(lambda t, x, v, g: ls.init_state(t, x, fun_args=[THETAS[0], 1.3], **pick(v, g)))
      upd = jax.jit(lambda t, st, x, v, g: tuple(ls.update(t, st, x, fun_args=[THETAS[0], 1.3], **pick(v, g))))
      for x0 in STARTS[:5:2]:
        v, g = vg(x0, THETAS[0], 1.3)
        for t0 in (1.0, 0.01):
          t = jnp.asarray(t0); st = init(t, x0, v, g); jax.block_until_ready(st); jax.effects_barrier(); C["n"] = 0
          st = init(t, x0, v, g); jax.block_until_ready(st)
          for k in range(4):
            jax.effects_barrier()
            R.check(int(st.num_fun_eval) == C["n"], f"{cond} given={given} start={x0.tolist()} first={t0} k={k} num_fun_eval", f"{int(st.num_fun_eval)} reported, {C['n']} made")
            if k == 0: R.check(int(st.num_grad_eval) == C["n"], f"{cond} given={given} start={x0.tolist()} first={t0} initial num_grad_eval", f"{int(st.num_grad_eval)} reported, {C['n']} made")
            R.add(states=1, transitions=1, evals=1)
            if bool(st.done) or bool(st.failed): break
            t, st = upd(t, st, x0, v, g); jax.block_until_ready((t, st))
          R.add(traces=1)
      R.outcome("line search counters", name, str(given))


def jobs(tier):
  names = ["GradientDescent", "GradientDescent-fixed", "ProximalGradient", "ProximalGradient-fixed", "ProjectedGradient", "MirrorDescent", "BFGS-zoom", "LBFGS-zoom", "LBFGSB-zoom", "NonlinearCG-zoom",
           "BFGS-backtracking", "LBFGS-backtracking", "LBFGSB-backtracking", "NonlinearCG-backtracking", "BFGS-fixed", "LBFGS-fixed", "LBFGSB-fixed", "PolyakSGD", "ArmijoSGD", "OptaxSolver", "BFGS-hager-zhang"]
  out = []
  for n in reversed(names):
    out.append((f"forms-{n}", forms, dict(name=n, which="forms", tier=tier)))
    if tier != "quick" or n not in ("BFGS-zoom", "NonlinearCG-zoom", "BFGS-hager-zhang", "LBFGSB-backtracking"): out.append((f"passing-{n}", forms, dict(name=n, which="passing", tier=tier)))
  for n in ("hager-zhang", "zoom", "backtracking"): out.append((f"linesearch-{n}", linesearch, dict(name=n, tier=tier)))
  for n in ("GaussNewton", "LevenbergMarquardt", "LevenbergMarquardt-chol", "LevenbergMarquardt-geo", "FixedPointIteration", "AndersonAcceleration", "Broyden", "Broyden-fixed"):
    out.append((f"vector-{n}", vector_forms, dict(name=n, tier=tier)))
  for n in ("MirrorDescent", "BFGS-zoom", "BFGS-backtracking", "BFGS-hager-zhang", "BFGS-fixed", "LBFGS-zoom", "LBFGS-backtracking", "LBFGS-fixed", "LBFGSB-zoom", "LBFGSB-backtracking", "LBFGSB-fixed", "NonlinearCG-zoom", "NonlinearCG-backtracking", "PolyakSGD"):
    for vg in (False, True)[:1 if n == "MirrorDescent" else 2]: out.append((f"counters-{n}-vg{int(vg)}", counters, dict(name=n, vgform=vg)))
  for n in ("hager-zhang", "zoom", "backtracking"):
    for vg in (False, True): out.append((f"counters-linesearch-{n}-vg{int(vg)}", counters_linesearch, dict(name=n, vgform=vg)))
  return out
