"""P16: the SciPy wrappers against SciPy itself on the flattened problem.

Every combination of method, pytree layout, start and options of the bounded space is run through the wrapper and
through scipy.optimize directly (flat vector, exact derivatives from the unpacked function); histories of constructing
and running instances are enumerated for interference through shared options.
"""
import copy, functools, itertools
import numpy as np

LEVEL = "model_checking"
RULE = "all combinations of method x pytree layout x start x options/bounds of the bounded space; all interleavings of construct/run operations on two instances; oracle: scipy.optimize on the flattened problem"
ASSUMPTIONS = ["x64", "3 parameters", "the methods that need a Hessian (dogleg, trust-ncg, trust-exact, trust-krylov) are outside: the wrapper supplies gradients only and SciPy rejects them"]

N = 3


def layouts():
  """name -> (pack(flat np array) -> pytree, flat order, dtype)"""
  import jax.numpy as jnp
  L = {}
  L["vector"] = lambda v: jnp.asarray(v)
  L["numpy"] = lambda v: np.asarray(v)
  L["matrix"] = lambda v: jnp.asarray(v).reshape(1, 3, 1)
  L["dict"] = lambda v: {"b": jnp.asarray(v[1:]), "a": jnp.asarray(v[0])}                       # leaves in key order a, b
  L["nested"] = lambda v: (jnp.asarray(v[:2]).reshape(2, 1), None, [{"z": jnp.asarray(v[2:])}])
  L["scalars"] = lambda v: [jnp.asarray(v[0]), (jnp.asarray(v[1]), jnp.asarray(v[2]))]
  L["floats"] = lambda v: {"p": float(v[0]), "q": (float(v[1]), float(v[2]))}
  L["mixed32"] = lambda v: {"a": jnp.asarray(v[:1], jnp.float32), "b": jnp.asarray(v[1:], jnp.float64)}
  L["empty"] = lambda v: (jnp.zeros((0, 2)), jnp.asarray(v))
  return L


def flat(t):
  import jax, jax.numpy as jnp
  return jnp.concatenate([jnp.ravel(jnp.asarray(l)) for l in jax.tree_util.tree_leaves(t)])


def same_form(got, init):
  import jax, jax.numpy as jnp
  g, i = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(init)
  if g != i: return f"structure {g} instead of {i}"
  for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(init)):
    b = jnp.asarray(b)
    if not isinstance(a, jax.Array): return f"leaf of type {type(a)}"
    if a.shape != b.shape or a.dtype != b.dtype: return f"leaf {a.dtype}{a.shape} instead of {b.dtype}{b.shape}"
  return ""


def problems():
  import jax.numpy as jnp
  A = jnp.array([[3.0, 0.5, 0.2], [0.5, 2.0, -0.3], [0.2, -0.3, 1.0]])
  return {
      "quad": lambda x, t: 0.5 * x @ A @ x - t * x.sum() + 0.1 * x[0],
      "smooth": lambda x, t: jnp.sum(jnp.cosh(0.5 * x - t * jnp.array([1.0, -0.5, 0.2]))) + 0.25 * (x @ A @ x) + 0.1 * x[0] * x[2],
      "rosen": lambda x, t: jnp.sum(10.0 * (x[1:] - x[:-1] ** 2) ** 2 + (t - x[:-1]) ** 2),
  }


STARTS = [np.array(v) for v in ([0.0, 0.0, 0.0], [1.0, -1.0, 0.5], [-0.5, 2.0, 1.0])]
METHODS = [None, "Nelder-Mead", "Powell", "CG", "BFGS", "Newton-CG", "L-BFGS-B", "TNC", "COBYLA", "SLSQP", "trust-constr"]


SENSITIVE = ("Powell", "COBYLA", "TNC", "Newton-CG", "Nelder-Mead", "trust-constr")     # branch on rounding-level differences


def compare_min(R, key, p, info, init, res, tol, method=None, short=False):
  import jax.numpy as jnp
  from jaxopt._src import scipy_wrappers
  msg = same_form(p, init); R.check(not msg, f"{key} form", msg)
  exact = method not in SENSITIVE or short
  if not exact: tol = 2e-3
  R.close(f"{key} params", flat(p), res.x, tol=tol)
  R.close(f"{key} fun_val", info.fun_val, res.fun, tol=tol)
  for a, b in (("success", "success"), ("status", "status"), ("iter_num", "nit"), ("num_fun_eval", "nfev"), ("num_jac_eval", "njev"), ("num_hess_eval", "nhev")):
    want = getattr(res, b, None if a == "iter_num" else 0)
    if not exact and a not in ("success", "status"): continue
    got = getattr(info, a)
    R.check((got is None and want is None) or (got is not None and want is not None and int(got) == int(want)), f"{key} {a}", f"{got} instead of {want}")
  if hasattr(res, "hess_inv"):
    H = res.hess_inv
    if isinstance(H, np.ndarray): R.close(f"{key} hess_inv", info.hess_inv, H, tol=1e-6)
    else:
      R.close(f"{key} hess_inv", np.asarray(info.hess_inv.todense()), H.todense(), tol=1e-6)
  else: R.check(info.hess_inv is None, f"{key} hess_inv", str(info.hess_inv))


def minimize(R, method, jit):
  import jax, jax.numpy as jnp, scipy.optimize
  import jaxopt
  L = layouts()
  for pn, f in problems().items():
    for lay, pk in L.items():
      ref = jax.jit(jax.value_and_grad(lambda p, t: f(flat(p), t)))       # same operations as the wrapper's: the runs round alike
      def flat_fun(x, t):
        v, g = ref(pk(x), t); return float(v), np.asarray(flat(g), float)
      if lay == "mixed32" and method not in ("BFGS", "CG", "L-BFGS-B"): continue
      if not jit and lay not in ("nested", "vector"): continue
      if method in ("COBYLA", "Nelder-Mead", "Powell", "trust-constr") and lay not in ("nested", "floats"): continue
      def fun(p, t): return f(flat(p).astype(float), t)
      for maxiter, tol in ((500, None), (2, None), (500, 1e-2)):
        s = jaxopt.ScipyMinimize(fun=fun, method=method, maxiter=maxiter, tol=tol, jit=jit)
        for i, x0 in enumerate(STARTS):
          for t in (0.3, 1.0):
            if (not jit or method == "trust-constr" or lay not in ("vector", "nested", "mixed32")) and (i, t) not in ((1, 0.3), (2, 1.0)): continue
            key = f"{pn} {lay} maxiter={maxiter} tol={tol} start={i} t={t}"
            p, info = s.run(pk(x0), t)
            R.case()
            if lay == "mixed32":             # every evaluation is rounded to float32 on one leaf: only form and the reported value are constrained
              msg = same_form(p, pk(x0)); R.check(not msg, f"{key} form", msg)
              R.close(f"{key} value", f(flat(p).astype(float), t), info.fun_val, tol=1e-4)
              continue
            res = scipy.optimize.minimize(lambda x: flat_fun(x, t), x0, jac=True, method=method, tol=tol, options={"maxiter": maxiter})
            compare_min(R, key, p, info, pk(x0), res, 1e-7, method, maxiter == 2)
            R.outcome("minimize", str(method), "success" if res.success else "not converged")


def callbacks(R, method):
  """The callback sees the iterates, in order, in the form of the parameters."""
  import jax, jax.numpy as jnp, scipy.optimize
  import jaxopt
  for lay, pk in layouts().items():
    if lay == "mixed32": continue
    f = problems()["smooth"]
    vg = jax.jit(jax.value_and_grad(lambda p, t: f(flat(p), t)))
    def ref(x, t):
      v, g = vg(pk(x), t); return v, flat(g)
    seen = []
    s = jaxopt.ScipyMinimize(fun=lambda p, t: f(flat(p), t), method=method, callback=seen.append)
    for i, x0 in enumerate(STARTS[:2] if lay in ("nested", "floats") else STARTS[1:2]):
      seen.clear(); want = []
      p, info = s.run(pk(x0), 0.3)
      scipy.optimize.minimize(lambda x: tuple(np.asarray(v) for v in ref(x, 0.3)), x0, jac=True, method=method, options={"maxiter": 500}, callback=lambda xk, *a: want.append(np.array(xk)))
      R.check(len(seen) == len(want), f"{lay} start={i} calls", f"{len(seen)} instead of {len(want)}")
      for j, (a, b) in enumerate(zip(seen, want)):
        msg = same_form(a, pk(x0)); R.check(not msg, f"{lay} start={i} call {j} form", msg); R.close(f"{lay} start={i} call {j}", flat(a), b, tol=1e-7)
      R.case(); R.outcome("callback", str(method))


def bounded(R, method):
  import jax, jax.numpy as jnp, scipy.optimize
  import jaxopt
  L = layouts(); f = problems()["smooth"]
  LO, HI = (-np.inf, -0.5, 0.25), (np.inf, 0.1, 0.75)
  per = [(l, h) for l in LO for h in HI if l < h]
  boxes = [None] + [tuple(zip(*b)) for b in itertools.product(per, repeat=3)]
  few = [b for j, b in enumerate(boxes) if j % 41 == 0]
  for lay, pk in L.items():
    if lay == "mixed32": continue
    vg = jax.jit(jax.value_and_grad(lambda p, t: f(flat(p), t)))
    def ref(x, t):
      v, g = vg(pk(x), t); return v, flat(g)
    s = jaxopt.ScipyBoundedMinimize(fun=lambda p, t: f(flat(p), t), method=method)
    for b in (boxes if lay == "nested" and method == "L-BFGS-B" else few):
      for i, t in ((0, 0.3), (1, 1.0)):
        lo, hi = (np.full(3, -np.inf), np.full(3, np.inf)) if b is None else map(np.array, b)
        x0 = np.clip(STARTS[i], lo, hi)
        key = f"{lay} box={b} start={i} t={t}"
        p, info = s.run(pk(x0), None if b is None else (pk(lo), pk(hi)), t)
        res = scipy.optimize.minimize(lambda x: tuple(np.asarray(v) for v in ref(x, t)), x0, jac=True, method=method, bounds=None if b is None else scipy.optimize.Bounds(lo, hi), options={"maxiter": 500})
        compare_min(R, key, p, info, pk(x0), res, 1e-7, method)
        x = np.asarray(flat(p)); R.check(((x >= lo - 1e-9) & (x <= hi + 1e-9)).all() or method in ("COBYLA",), f"{key} feasible", str(x))
        R.case(); R.outcome("bounded", str(method), f"active={int(((np.abs(x - lo) < 1e-6) | (np.abs(x - hi) < 1e-6)).sum())}")


def supply(R):
  """has_aux, value_and_grad, jit, keyword arguments: the same answer."""
  import jax, jax.numpy as jnp
  import jaxopt
  pk = layouts()["nested"]
  f = problems()["smooth"]
  base = lambda p, t, shift=0.0: f(flat(p) + shift, t)
  want = jaxopt.ScipyMinimize(fun=base, method="BFGS").run(pk(STARTS[1]), 0.3, 0.1)
  for aux, vg, jit, kw in itertools.product((False, True), (False, True, "callable"), (False, True), (False, True)):
    fa = (lambda p, t, shift=0.0: (base(p, t, shift), {"extra": t})) if aux else base
    fun = fa if vg is False else jax.value_and_grad(fa, has_aux=aux)
    key = f"aux={aux} value_and_grad={vg} jit={jit} kw={kw}"
    if vg == "callable": fun, vgarg = fa, jax.value_and_grad(fa, has_aux=aux)
    else: vgarg = vg
    for cls in ("min", "bounded"):
      if cls == "min":
        s = jaxopt.ScipyMinimize(fun=fun, method="BFGS", has_aux=aux, value_and_grad=vgarg, jit=jit); pre = ()
      else:
        s = jaxopt.ScipyBoundedMinimize(fun=fun, method="L-BFGS-B", has_aux=aux, value_and_grad=vgarg, jit=jit); pre = ((pk(np.full(3, -50.0)), pk(np.full(3, 50.0))),)
      p, info = s.run(pk(STARTS[1]), *pre, 0.3, shift=0.1) if kw else s.run(pk(STARTS[1]), *pre, 0.3, 0.1)
      R.close(f"{key} {cls}", flat(p), flat(want.params), tol=1e-4); R.close(f"{key} {cls} value", info.fun_val, want.state.fun_val, tol=1e-7); R.case()
  R.outcome("supply")
  for bad in ({"maxiter": 3},):
    try: jaxopt.ScipyMinimize(fun=base, options=dict(bad)); ok = False
    except ValueError: ok = True
    R.check(ok, "maxiter in options"); R.case()


# ---------------------------------------------------------------- roots

ROOT_METHODS = [None, "hybr", "lm", "broyden1", "broyden2", "anderson", "diagbroyden", "krylov", "df-sane"]


def roots(R, method, jacrev):
  import jax, jax.numpy as jnp, scipy.optimize
  import jaxopt
  M = jnp.array([[2.0, 0.4, -0.3], [-0.5, 1.5, 0.2], [0.1, 0.6, 1.8]])
  funs = {"affine": lambda x, t: M @ x - t, "cubic": lambda x, t: M @ x + 0.2 * x ** 3 - t * jnp.array([1.0, -1.0, 0.5]), "tanh": lambda x, t: x - 0.6 * jnp.tanh(M[::-1] @ x / 3) - t}
  for fn, f in funs.items():
    rf, rj = jax.jit(f), jax.jit(jax.jacfwd(f))
    for lay, pk in layouts().items():
      if lay == "mixed32": continue
      leaves, td = jax.tree_util.tree_flatten(pk(STARTS[0]))
      def unflat(y):                       # residuals in the structure of the parameters
        out, k = [], 0
        for l in leaves:
          n = int(np.prod(np.shape(l))); out.append(y[k:k + n].reshape(np.shape(l))); k += n
        return jax.tree_util.tree_unflatten(td, out)
      for aux, tol, opts in ((False, None, None), (True, 1e-3, None), (False, None, "limit")):
        o = None if opts is None else ({"maxfev": 4} if method in (None, "hybr", "df-sane") else {"maxiter": 4})
        def fun(p, t):
          y = unflat(f(flat(p), t)); return (y, {"t": t}) if aux else y
        o0 = copy.deepcopy(o)
        s = jaxopt.ScipyRootFinding(optimality_fun=fun, method=method, tol=tol, options=o, has_aux=aux, use_jacrev=jacrev)
        for i, t in ((0, 0.7), (1, 0.7), (2, -0.4)):
          key = f"{fn} {lay} aux={aux} tol={tol} options={opts} start={i}"
          p, info = s.run(pk(STARTS[i]), t)
          uses = method in (None, "hybr", "lm")
          try: res = scipy.optimize.root(lambda x: np.asarray(rf(x, t), float), STARTS[i], jac=(lambda x: np.asarray(rj(x, t), float)) if uses else None, tol=tol, method=method or "hybr", options=copy.deepcopy(o0))
          except Exception as e: R.outcome("root", str(method), f"SciPy raises {type(e).__name__}"); continue
          msg = same_form(p, pk(STARTS[i])); R.check(not msg, f"{key} form", msg)
          R.check(bool(info.success) == bool(res.success), f"{key} success", f"{info.success} {res.success}")
          R.close(f"{key} params", flat(p), res.x, tol=1e-6); R.close(f"{key} fun_val", np.ravel(info.fun_val), np.ravel(res.fun), tol=1e-6)
          R.check(info.status == getattr(res, "status", None), f"{key} status", f"{info.status}")
          for a, b in (("num_fun_eval", "nfev"), ("iter_num", "nit")):
            want, got = getattr(res, b, None), getattr(info, a)
            R.check((want is None and got is None) or (want is not None and got is not None and int(want) == int(got)), f"{key} {a}", f"{got} instead of {want}")
          R.check(o == o0, f"{key} options changed", f"{o}")
          R.case(); R.outcome("root", str(method), "success" if res.success else "not converged")


# ---------------------------------------------------------------- least squares

def least_squares(R, method, loss):
  import jax, jax.numpy as jnp, scipy.optimize
  import jaxopt
  B = jnp.array([[1.0, 0.5, -0.2], [0.3, 2.0, 0.1], [-0.6, 0.2, 1.5], [0.4, -0.7, 0.9], [1.1, 0.2, 0.3]])
  y = jnp.array([1.0, -2.0, 0.5, 4.0, -3.0])
  f = lambda x, t: B @ x + 0.1 * jnp.sin(B @ x) - t * y
  rf, rj = jax.jit(f), jax.jit(jax.jacfwd(f))
  outs = {"vector": lambda r: r, "tree": lambda r: {"m": r[:4].reshape(2, 2), "s": r[4]}, "tuple": lambda r: (r[:1], [r[1:3], r[3:]]), "nested": lambda r: [(r[0],), {"k": r[1:].reshape(4, 1)}]}
  opts = [None, dict(f_scale=0.5, ftol=1e-4), dict(max_nfev=2), dict(x_scale="jac", xtol=1e-5), dict(x_scale=np.array([1.0, 2.0, 0.5])), dict(x_scale="tree"), dict(x_scale=2, gtol=1e-3)]
  if method != "lm": opts.append(dict(tr_solver="exact" if method != "dogbox" else "lsmr", tr_options={} if method != "dogbox" else {"maxiter": 20}))
  LO, HI = np.array([-0.5, -np.inf, 0.1]), np.array([0.4, np.inf, 0.8])
  for lay, pk in layouts().items():
    if lay == "mixed32": continue
    for on, og in outs.items():
      for j, o in enumerate(opts):
        if (lay, on) != ("nested", "tree") and j: continue
        if loss not in ("linear", "soft_l1") and (lay not in ("nested", "dict") or j > 2): continue
        for box in ((False, True) if method != "lm" else (False,)):
          for aux, jacrev, jit in ((False, True, True), (True, False, False)):
            if not jit and (lay, j) != ("nested", 0): continue
            user = None if o is None else dict(o)
            ref_o = {} if o is None else dict(o)
            if user and isinstance(user.get("x_scale"), str) and user["x_scale"] == "tree":
              user["x_scale"] = pk(np.array([1.0, 2.0, 0.5])); ref_o["x_scale"] = np.array([1.0, 2.0, 0.5])
            keep = None if user is None else dict(user)
            fun = (lambda p, t: (og(f(flat(p), t)), 1.0)) if aux else (lambda p, t: og(f(flat(p), t)))
            cls = jaxopt.ScipyBoundedLeastSquares if box else jaxopt.ScipyLeastSquares
            s = cls(fun=fun, method=method, loss=loss, options=user, has_aux=aux, use_jacrev=jacrev, jit=jit)
            for i, t in ((0, 1.0), (1, 0.2)):
              x0 = np.clip(STARTS[i], LO, HI) if box else STARTS[i]
              if box: x0 = np.where(np.isfinite(LO), 0.5 * (np.where(np.isfinite(LO), LO, 0) + np.where(np.isfinite(HI), HI, 0)), x0)
              key = f"{lay} residuals={on} options={j} bounds={box} aux={aux} jacrev={jacrev} start={i}"
              p, info = s.run(pk(x0), (pk(LO), pk(HI)), t) if box else s.run(pk(x0), t)
              kw = dict(bounds=(LO, HI)) if box else {}
              res = scipy.optimize.least_squares(lambda x: np.asarray(rf(x, t), float), x0, jac=lambda x: np.asarray(rj(x, t), float), method=method or "trf", loss=loss, **kw, **ref_o)
              msg = same_form(p, pk(x0)); R.check(not msg, f"{key} form", msg)
              R.close(f"{key} params", flat(p), res.x, tol=1e-6); R.close(f"{key} cost", info.cost_val, res.cost, tol=1e-7); R.close(f"{key} residuals", info.fun_val, res.fun, tol=1e-6)
              R.close(f"{key} error", info.error, res.optimality, tol=1e-5)
              for a, b in (("success", "success"), ("status", "status"), ("num_fun_eval", "nfev"), ("num_jac_eval", "njev")):
                R.check(int(getattr(info, a)) == int(getattr(res, b)), f"{key} {a}", f"{getattr(info, a)} instead of {getattr(res, b)}")
              R.case(); R.outcome("least squares", str(method), loss, f"status={res.status}")
            same = user is None or (user.keys() == keep.keys() and all(user[k] is keep[k] for k in user))
            R.check(same, f"{lay} residuals={on} options={j} user options changed", str(user))


def reuse(R, depth):
  """Interleavings of constructing and running instances that share option dicts: nothing leaks."""
  import jax, jax.numpy as jnp
  import jaxopt
  from jaxopt._src import scipy_wrappers as sw
  f = problems()["smooth"]; pk = layouts()["dict"]
  fun = lambda p, t: f(flat(p), t)
  resid = lambda p, t: {"r": flat(p) ** 2 - t, "q": flat(p)[0] * flat(p)[2] + t}
  fams = {
      "minimize": (lambda o, k: jaxopt.ScipyMinimize(fun=fun, method="L-BFGS-B", options=o, maxiter=(3, 500)[k], tol=(None, 1e-2)[k]), lambda s: s.run(pk(STARTS[2]), 0.3), [None, {"maxcor": 2, "ftol": 1e-9}]),
      "bounded": (lambda o, k: jaxopt.ScipyBoundedMinimize(fun=fun, method="TNC", options=o, maxiter=(2, 500)[k]), lambda s: s.run(pk(STARTS[2]), (pk(np.full(3, -1.0)), pk(np.full(3, 3.0))), 0.3), [None, {"scale": None}]),
      "root": (lambda o, k: jaxopt.ScipyRootFinding(optimality_fun=lambda p, t: pk(flat(p) ** 3 + flat(p) - t), method=("hybr", "broyden1")[k], options=o), lambda s: s.run(pk(STARTS[1]), 0.3), [None]),
      "least_squares": (lambda o, k: jaxopt.ScipyLeastSquares(fun=resid, method="trf", options=o, loss=("linear", "soft_l1")[k]), lambda s: s.run(pk(STARTS[1]), 0.3), [None, {"max_nfev": 3, "tr_options": {"regularize": True}, "tr_solver": "lsmr"}]),
  }
  defaults = copy.deepcopy(sw.LS_DEFAULT_OPTIONS)
  for name, (mk, run, optl) in fams.items():
    for o in optl:
      ref = {}
      for k in (0, 1):
        p, info = run(mk(copy.deepcopy(o), k)); ref[k] = np.asarray(flat(p)).tolist()
      # histories over: construct 0, construct 1, run 0, run 1 with one shared options dict
      for hist in itertools.product(("c0", "c1", "r0", "r1"), repeat=depth):
        shared = copy.deepcopy(o); inst = {}; ok = True
        for op in hist:
          if op[0] == "r" and int(op[1]) not in inst: ok = False; break
          if op[0] == "c":
            inst[int(op[1])] = mk(shared, int(op[1]))
          else:
            p, info = run(inst[int(op[1])])
            R.close(f"{name} options={o} history={hist}", np.asarray(flat(p)), ref[int(op[1])], tol=1e-9)
        if not ok: continue
        if hist[-1][0] == "c": continue
        R.check(shared == o, f"{name} options={o} history={hist} options changed", f"{shared}")
        R.check(sw.LS_DEFAULT_OPTIONS == defaults, f"{name} options={o} history={hist} defaults changed", f"{sw.LS_DEFAULT_OPTIONS}")
        R.add(states=len(hist), transitions=len(hist), traces=1, evals=1); R.outcome("histories", name)


def gradients(R, kind, deep):
  """Implicit derivatives of the wrapped solutions against finite differences of SciPy's own solutions."""
  import jax, jax.numpy as jnp, scipy.optimize
  import jaxopt
  f = problems()["smooth"]
  T = (0.3, 1.0, -0.6) if deep else (0.3, -0.6)
  h = 1e-4
  for lay in (("nested",) if not deep else ("vector", "dict", "nested")):
    pk = layouts()[lay]
    fun = lambda p, t: f(flat(p), t)
    if kind == "minimize":
      mk = lambda t: flat(jaxopt.ScipyMinimize(fun=fun, method="BFGS", tol=1e-10).run(pk(STARTS[0]), t)[0])
    elif kind == "bounded":
      mk = lambda t: flat(jaxopt.ScipyBoundedMinimize(fun=fun, method="L-BFGS-B", options={"ftol": 1e-16, "gtol": 1e-10}).run(pk(STARTS[0]), (pk(np.array([-0.2, -0.05, -9.0])), pk(np.array([0.1, 9.0, 9.0]))), t)[0])
    elif kind == "nobounds":
      mk = lambda t: flat(jaxopt.ScipyBoundedMinimize(fun=fun, method="L-BFGS-B", options={"ftol": 1e-16, "gtol": 1e-10}).run(pk(STARTS[0]), None, t)[0])
    elif kind == "root":
      mk = lambda t: flat(jaxopt.ScipyRootFinding(optimality_fun=lambda p, t: jax.grad(fun)(p, t), method="hybr", tol=1e-11).run(pk(STARTS[0]), t)[0])
    else:
      resid = lambda p, t: {"r": flat(p) - t * jnp.array([1.0, 2.0, -1.0]), "q": 0.5 * flat(p)[0] * flat(p)[2] + t, "w": jnp.sin(flat(p))[None]}
      cls, box = (jaxopt.ScipyLeastSquares, ()) if kind == "ls" else (jaxopt.ScipyBoundedLeastSquares, ((pk(np.array([-0.2, -0.05, -9.0])), pk(np.array([0.1, 9.0, 9.0]))),) if kind == "bls" else (None,))
      loss = "cauchy" if kind == "ls" else "linear"
      mk = lambda t: flat(cls(fun=resid, method="trf", loss=loss, options=dict(f_scale=0.7, ftol=1e-15, xtol=1e-15, gtol=1e-11)).run(pk(STARTS[0] * 0), *box, t)[0])
    for t in T:
      _, pull = jax.vjp(mk, t)
      got = np.array([pull(e)[0] for e in np.eye(3)])
      want = (np.asarray(mk(t + h)) - np.asarray(mk(t - h))) / (2 * h)
      R.close(f"{lay} t={t}", got, want, tol=2e-4); R.case(); R.outcome("gradient", kind)


def jobs(tier):
  deep = tier == "thorough"
  out = []
  for m in ("trust-constr", "COBYLA", "Nelder-Mead"): out.append((f"min-{m}", minimize, dict(method=m, jit=True)))
  for l in ("linear", "soft_l1", "huber", "cauchy", "arctan"):
    for m in (None, "trf", "dogbox", "lm"):
      if m == "lm" and l != "linear": continue
      if m is None and l != "linear": continue
      if not deep and m == "dogbox" and l not in ("linear", "huber"): continue
      out.append((f"ls-{m}-{l}", least_squares, dict(method=m, loss=l)))
  for m in METHODS:
    if m not in ("trust-constr", "COBYLA", "Nelder-Mead"): out.append((f"min-{m}", minimize, dict(method=m, jit=True)))
  for m in ("BFGS", "SLSQP") if not deep else METHODS: out.append((f"min-nojit-{m}", minimize, dict(method=m, jit=False)))
  for m in ("L-BFGS-B", "trust-constr", "TNC", "SLSQP", "Powell", "Nelder-Mead"): out.append((f"bounded-{m}", bounded, dict(method=m)))
  for m in ROOT_METHODS:
    for j in ((True, False) if m in (None, "hybr", "lm") or deep else (True,)): out.append((f"root-{m}-rev{int(j)}", roots, dict(method=m, jacrev=j)))
  for m in ("CG", "BFGS", "L-BFGS-B", "Newton-CG", "SLSQP", "TNC", "trust-constr", "Nelder-Mead", "Powell", "COBYLA"): out.append((f"callback-{m}", callbacks, dict(method=m)))
  out.append(("supply", supply, {}))
  out.append(("reuse", reuse, dict(depth=4 if deep else 3)))
  for k in ("minimize", "bounded", "nobounds", "root", "ls", "bls", "bls-none"): out.append((f"grad-{k}", gradients, dict(kind=k, deep=deep)))
  return out
