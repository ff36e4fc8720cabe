"""P20: proximal gradient, FISTA, projected gradient, mirror descent and block coordinate descent follow their defining
iteration.

The transition relation of every solver is written down in NumPy; the real init_state/update are executed from every
start x hyperparameter x option of a grid and every transition taken is compared with the relation. The FISTA line search
is explored over every table of its trial outcomes from every stepsize level.
"""
import itertools
import numpy as np

LEVEL = "model_checking"
RULE = "all (start, hyperparameter, objective, option) combinations, every transition compared with the NumPy transition relation; every outcome table of the FISTA line search from every stepsize level; all composite problems of a grid solved by every applicable solver"
ASSUMPTIONS = ["x64", "two- and three-dimensional problems", "line search comparisons within rounding of a tie may go either way"]

STARTS = np.array(list(itertools.product([-2.0, 0.0, 1.5], [-1.0, 0.4, 3.0])))
THETAS = np.array([[1.0, 2.0], [-1.0, 0.5], [0.0, 0.0]])
A = np.array([[3.0, 0.5], [0.5, 1.0]])


# ------------------------------------------------ objectives (NumPy and JAX from one text)

def objectives(xp):
  return {
      "convex": lambda x, t: 0.5 * (3.0 * x[0] ** 2 + x[0] * x[1] + x[1] ** 2) - t[0] * x[0] - t[1] * x[1] + 0.5 * (xp.log(xp.cosh(x[0] - 0.3 * t[0])) + xp.log(xp.cosh(x[1] - 0.3 * t[1]))),
      "steep": lambda x, t: 20.0 * (x[0] - t[0]) ** 2 + 0.05 * (x[1] - t[1]) ** 4 + 0.3 * (x[0] - x[1]) ** 2,
      "nonconvex": lambda x, t: (x[0] - t[0]) ** 2 * 0.3 + xp.cos(2.0 * x[0]) * (1.0 + 0.1 * x[1]) + 0.5 * (x[1] - x[0] * t[1]) ** 2,
  }


def grads():
  return {
      "convex": lambda x, t: np.array([3.0 * x[0] + 0.5 * 1.0 * x[1] - t[0] + 0.5 * np.tanh(x[0] - 0.3 * t[0]), 0.5 * x[0] + x[1] - t[1] + 0.5 * np.tanh(x[1] - 0.3 * t[1])]),
      "steep": lambda x, t: np.array([40.0 * (x[0] - t[0]) + 0.6 * (x[0] - x[1]), 0.2 * (x[1] - t[1]) ** 3 - 0.6 * (x[0] - x[1])]),
      "nonconvex": lambda x, t: np.array([0.6 * (x[0] - t[0]) - 2.0 * np.sin(2.0 * x[0]) * (1.0 + 0.1 * x[1]) - t[1] * (x[1] - x[0] * t[1]), 0.1 * np.cos(2.0 * x[0]) + x[1] - x[0] * t[1]]),
  }


# ------------------------------------------------ proximity operators and projections in NumPy

def soft(x, l): return np.sign(x) * np.maximum(np.abs(x) - l, 0.0)


def simplex(x, s=1.0):
  u = np.sort(x)[::-1]; c = (np.cumsum(u) - s) / np.arange(1, len(x) + 1)
  return np.maximum(x - c[np.nonzero(u > c)[0][-1]], 0.0)


def group(x, l):
  n = np.sqrt((x ** 2).sum()); return x * max(1 - l / n, 0.0) if n > 0 else x * 0.0


def l2ball(x, r):
  n = np.sqrt((x ** 2).sum()); return x if n <= r else x * (r / n)


PROX = {   # name -> (NumPy operator(x, hyper, step), hyperparameters)
    "prox_none": (lambda x, h, s: x, [None]),
    "prox_lasso": (lambda x, h, s: soft(x, h * s), [0.0, 0.4, 3.0]),
    "prox_lasso-vector": (lambda x, h, s: soft(x, np.asarray(h) * s), [np.array([0.2, 1.5])]),
    "prox_non_negative_lasso": (lambda x, h, s: np.maximum(x - h * s, 0.0), [0.3]),
    "prox_elastic_net": (lambda x, h, s: soft(x, h[0] * s) / (1 + s * h[0] * h[1]), [(0.4, 0.7), (2.0, 0.1)]),
    "prox_ridge": (lambda x, h, s: x / (1 + s * h), [0.5]),
    "prox_non_negative_ridge": (lambda x, h, s: np.maximum(x, 0.0) / (1 + s * h), [0.5]),
    "prox_group_lasso": (lambda x, h, s: group(x, h * s), [0.5, 4.0]),
}
PROJ = {
    "projection_box": (lambda x, h: np.clip(x, h[0], h[1]), [(np.array([-0.2, -0.3]), np.array([0.5, 1.2])), (np.array([0.3, -9.0]), np.array([0.3, 9.0]))]),
    "projection_non_negative": (lambda x, h: np.maximum(x, 0.0), [None]),
    "projection_simplex": (lambda x, h: simplex(x, h), [1.0, 2.5]),
    "projection_l2_ball": (lambda x, h: l2ball(x, h), [0.8]),
    "projection_hyperplane": (lambda x, h: x - h[0] * ((h[0] @ x - h[1]) / (h[0] @ h[0])), [(np.array([1.0, -2.0]), np.float64(0.5))]),
}

MODES = {  # name -> solver options
    "ls": dict(), "ls-plain": dict(acceleration=False), "ls-short": dict(maxls=2), "ls-slow": dict(decrease_factor=0.8, acceleration=False), "ls-fast": dict(decrease_factor=0.1),
    "fixed": dict(stepsize=0.05), "fixed-plain": dict(stepsize=0.05, acceleration=False),
    "schedule": dict(stepsize="schedule"), "schedule-plain": dict(stepsize="schedule", acceleration=False),
}


def schedule(k): return 0.08 / (1.0 + 0.5 * k)


def pg_step(f, g, P, opts, x, st, t, h):
  """The transition relation: all (next x, next state) allowed (several only at rounding ties)."""
  accel, df, maxls = opts.get("acceleration", True), opts.get("decrease_factor", 0.5), opts.get("maxls", 15)
  base = st["velocity"] if accel else x
  fb, gb = f(base, t), g(base, t)
  at = lambda s: P(base - s * gb, h, s)
  step = opts.get("stepsize", 0.0)
  outs = []
  if step == "schedule" or step > 0:
    s = schedule(st["iter_num"]) if step == "schedule" else step
    outs.append((at(s), s, s))
  else:
    s = st["stepsize"]; ambiguous = True
    for j in range(maxls + 1):
      nx = at(s); d = nx - base
      gap = s * (f(nx, t) - fb) - (s * (d @ gb) + 0.5 * (d @ d))
      tie = abs(gap - np.finfo(float).eps) <= 2e-13 * (1 + abs(s * fb) + abs(s * f(nx, t)) + abs(s * (d @ gb)) + d @ d)
      accept = gap <= np.finfo(float).eps or j == maxls
      if accept or tie: outs.append((nx, s, 1.0 if s <= 1e-6 else s / df))
      if accept and not tie: break
      s = s * df
  res = []
  for nx, s, ns in outs:
    dx = nx - x
    n = dict(iter_num=st["iter_num"] + 1, stepsize=ns, error=np.sqrt(dx @ dx) / s)
    if accel:
      n["t"] = 0.5 * (1 + np.sqrt(1 + 4 * st["t"] ** 2)); n["velocity"] = nx + (st["t"] - 1) / n["t"] * dx
    res.append((nx, n))
  return res


def iterate(R, key, X, T, init, upd, step, fields, depth, tol=1e-8):
  """Explore depth transitions of the batch and check each against the relation `step(i, x, state)`."""
  n = len(X)
  st = init(X); x = X
  get = lambda st: [{f: np.asarray(getattr(st, f))[i] for f in fields} for i in range(n)]
  R.add(states=n)
  for k in range(depth):
    nx, nst = upd(x, st)
    before, after = get(st), get(nst)
    xs, nxs = np.asarray(x), np.asarray(nx)
    for i in range(n):
      if not np.all(np.isfinite(xs[i])): continue
      cands = step(i, xs[i], before[i])
      errs = []
      for cx, cst in cands:
        e = np.max(np.abs(nxs[i] - cx)) / (1 + np.max(np.abs(cx)))
        for f, v in cst.items(): e = max(e, np.max(np.abs(after[i][f] - v)) / (1 + np.max(np.abs(v))))
        errs.append(e)
      if not min(errs) <= tol:
        cx, cst = cands[int(np.nanargmin(errs)) if not np.all(np.isnan(errs)) else 0]
        R.violation(f"{key} start={X[i].tolist()} theta={T[i].tolist()} k={k}", f"step gives x={nxs[i].tolist()} {after[i]}; the definition gives x={cx.tolist()} {cst}")
    x, st = nx, nst
    R.add(states=n, transitions=n)
  R.add(traces=n, evals=n)
  return x, st


def prox_gradient(R, op, obj, depth, modes=tuple(MODES)):
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import prox, projection
  f, g, fj = objectives(np)[obj], grads()[obj], objectives(jnp)[obj]
  X, T = np.repeat(STARTS, len(THETAS), 0), np.tile(THETAS, (len(STARTS), 1))
  isproj = op in PROJ
  Pn, hypers = (PROJ if isproj else PROX)[op]
  P = (lambda x, h, s: Pn(x, h)) if isproj else Pn
  real = getattr(projection if isproj else prox, op.split("-")[0])
  for mode in modes:
    opts = MODES[mode]
    jopts = {k: (schedule if v == "schedule" else v) for k, v in opts.items()}
    if isproj: mk = jaxopt.ProjectedGradient(fj, projection=real, maxiter=50, tol=0.0, **jopts)
    elif op == "prox_none": mk = jaxopt.GradientDescent(fj, maxiter=50, tol=0.0, **jopts)
    else: mk = jaxopt.ProximalGradient(fj, prox=real, maxiter=50, tol=0.0, **jopts)
    extra = (lambda h: ()) if op == "prox_none" else (lambda h: (h,))
    fields = ["iter_num", "stepsize", "error"] + (["t", "velocity"] if opts.get("acceleration", True) else [])
    hj = lambda h: jax.tree_util.tree_map(jnp.asarray, h)
    I = jax.jit(lambda X, T, h: jax.vmap(lambda x, t: mk.init_state(x, *extra(h), t))(X, T))
    U = jax.jit(lambda X, S, T, h: jax.vmap(lambda x, s, t: tuple(mk.update(x, s, *extra(h), t)))(X, S, T))
    for hi, h in enumerate(hypers):
      key = f"{op}[{hi}] {mode}"
      st = I(X, T, hj(h))
      R.check(np.all(np.asarray(st.iter_num) == 0) and np.all(np.asarray(st.stepsize) == 1.0) and np.all(np.isinf(np.asarray(st.error))), f"{key} initial state")
      if "t" in fields: R.check(np.all(np.asarray(st.t) == 1.0) and np.array_equal(np.asarray(st.velocity), X), f"{key} initial momentum")
      iterate(R, key, X, T, lambda X: I(X, T, hj(h)), lambda x, s: U(x, s, T, hj(h)),
              lambda i, x, s: pg_step(f, g, P, opts, x, s, T[i], h), fields, depth)
      # optimality measure
      opt = jax.jit(lambda X, T, h: jax.vmap(lambda x, t: mk.optimality_fun(x, *(extra(h)), t))(X, T))(X, T, hj(h))
      l2 = jax.jit(lambda X, T, h: jax.vmap(lambda x, t: mk.l2_optimality_error(x, *(extra(h)), t))(X, T))(X, T, hj(h))
      want = np.array([g(x, t) if op == "prox_none" else P(x - g(x, t), h, 1.0) - x for x, t in zip(X, T)])
      R.closes(lambda i: f"{key} optimality start={X[i].tolist()} theta={T[i].tolist()}", opt, want, tol=1e-9)
      R.closes(lambda i: f"{key} l2 optimality start={X[i].tolist()} theta={T[i].tolist()}", l2, np.sqrt((want ** 2).sum(1)), tol=1e-9)
      R.outcome(op, mode, obj, n=len(X))


# ------------------------------------------------ the FISTA line search over all outcome tables

def linesearch_tables(R, df, maxls, accel):
  """x=0, slope -1, no prox: the trial at stepsize s is the point s. Its value is looked up by level."""
  import jax, jax.numpy as jnp, jaxopt
  LETTERS = ["accept", "tie", "reject", "nan", "inf", "-inf"]
  tables = np.array(list(itertools.product(range(len(LETTERS)), repeat=min(maxls + 1, 4))))
  def fun(x, s0, table):
    # quadratic upper bound at s: -s + s/2; a tie meets it with equality
    lv = jnp.round(jnp.log(jnp.maximum(x, 1e-300) / s0) / np.log(df)).astype(int)
    bound = -0.5 * x
    L = table[jnp.clip(lv, 0, table.shape[0] - 1)]
    L = jnp.where(lv >= table.shape[0], 2, L)              # beyond the table: rejected
    v = jnp.stack([bound - 0.1 * x, bound, bound + 0.3 * x + 1.0, jnp.nan, jnp.inf, -jnp.inf])[L]
    return jnp.where(x == 0.0, 0.0, v)
  vg = lambda x, s0, table: (fun(x, s0, table), jnp.asarray(-1.0))
  s = jaxopt.GradientDescent(vg, value_and_grad=True, maxls=maxls, decrease_factor=df, acceleration=accel)
  init = s.init_state(jnp.asarray(0.0), 1.0, jnp.asarray(tables[0]))
  U = jax.jit(jax.vmap(lambda s0, tb: tuple(s.update(jnp.asarray(0.0), init._replace(stepsize=s0), s0, tb))))
  for s0 in (1.0, 2.0, 4.0, 0.25, 3e-6, 1.5e-6, 1e-6, 5e-7):
    x, st = U(jnp.full(len(tables), s0), jnp.asarray(tables))
    want = []
    for tb in tables:
      cur = s0
      for j in range(maxls):
        L = LETTERS[tb[j]] if j < len(tb) else "reject"
        if L in ("accept", "tie", "-inf"): break
        cur = cur * df
      want.append((cur, 1.0 if cur <= 1e-6 else cur / df))
    want = np.array(want)
    names = lambda i: f"df={df} maxls={maxls} start stepsize={s0} outcomes={[LETTERS[v] for v in tables[i]]}"
    R.closes(lambda i: names(i) + " next point over stepsize", np.asarray(x) / want[:, 0], np.ones(len(tables)), tol=1e-9)
    R.closes(lambda i: names(i) + " next stepsize ratio", np.asarray(st.stepsize) / want[:, 1], np.ones(len(tables)), tol=1e-9)
    R.closes(lambda i: names(i) + " error", st.error, np.ones(len(tables)), tol=1e-9)
    R.add(states=len(tables), transitions=len(tables), traces=len(tables), evals=len(tables))
    for tb in tables: R.outcome("table", "accepted first" if tb[0] in (0, 1, 5) else "accepted later" if any(v in (0, 1, 5) for v in tb) else "never accepted")


# ------------------------------------------------ mirror descent

def mirror(R, depth, obj):
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import projection
  P0 = np.array([[0.5, 0.5], [0.9, 0.1], [0.2, 0.8], [1e-3, 1 - 1e-3]])
  X, T = np.repeat(P0, len(THETAS), 0), np.tile(THETAS, (len(P0), 1))
  softmax = lambda v: np.exp(v - v.max()) / np.exp(v - v.max()).sum()
  maps = {
      "entropy": (lambda y, h: jax.nn.softmax(y) * h, lambda x: jnp.log(x), lambda y, h: softmax(y) * h, np.log, [1.0, 2.0]),
      "euclid": (lambda y, h: projection.projection_simplex(y, h), lambda x: x, lambda y, h: simplex(y, h), lambda x: x, [1.0, 0.7]),
      "sqrt": (lambda y, h: y ** 2, jnp.sqrt, lambda y, h: y ** 2, np.sqrt, [None]),
      "direct": (None, None, None, None, [0.3]),
  }
  user = lambda xp: (lambda x, g, s, h: x * xp.exp(-s * g) + h * s)
  if True:
    fj, g = objectives(jnp)[obj], grads()[obj]
    for mname, (pj, mj, pn, mn, hypers) in maps.items():
      pgj = user(jnp) if mname == "direct" else jaxopt.MirrorDescent.make_projection_grad(pj, mj)
      pgn = user(np) if mname == "direct" else (lambda x, gr, s, h: pn(mn(x) - s * gr, h))
      for sname, step in (("fixed", 0.07), ("schedule", schedule), ("schedule-array", lambda k: np.array([0.2, 0.05, 0.3, 0.01, 0.1, 0.02, 0.03, 0.04, 0.05])[k])):
        jstep = step if sname != "schedule-array" else (lambda k: jnp.array([0.2, 0.05, 0.3, 0.01, 0.1, 0.02, 0.03, 0.04, 0.05])[k])
        s = jaxopt.MirrorDescent(fj, projection_grad=pgj, stepsize=jstep, maxiter=50, tol=0.0)
        for hi, h in enumerate(hypers):
          I = jax.jit(jax.vmap(lambda x, t: s.init_state(x, h, t)))
          U = jax.jit(jax.vmap(lambda x, st, t: tuple(s.update(x, st, h, t))))
          def rel(i, x, st):
            sz = step(int(st["iter_num"])) if callable(step) else step
            nx = pgn(x, g(x, T[i]), sz, h); d = nx - x
            return [(nx, dict(iter_num=st["iter_num"] + 1, error=np.sqrt(d @ d) / sz, num_grad_eval=st["num_grad_eval"] + 1))]
          iterate(R, f"{obj} {mname}[{hi}] {sname}", X, T, lambda X: I(X, T), lambda x, st: U(x, st, T), rel, ["iter_num", "error", "num_grad_eval"], min(depth, 8))
          opt = jax.jit(jax.vmap(lambda x, t: s.optimality_fun(x, h, t)))(X, T)
          R.closes(lambda i: f"{obj} {mname}[{hi}] optimality start={X[i].tolist()} theta={T[i].tolist()}", opt, np.array([pgn(x, g(x, t), 1.0, h) - x for x, t in zip(X, T)]), tol=1e-9)
          R.outcome("mirror", mname, sname, n=len(X))


# ------------------------------------------------ block coordinate descent

def bcd_data():
  D = {"tall": np.array([[1.0, 0.2, -0.5], [0.3, 2.0, 0.1], [-0.5, 1.0, 1.5], [0.0, -1.0, 0.7]]),
       "zero-column": np.array([[1.0, 0.0, -0.5], [0.3, 0.0, 0.1], [-0.5, 0.0, 1.5], [0.2, 0.0, 0.3]]),
       "duplicate": np.array([[1.0, 1.0, -0.5], [0.3, 0.3, 0.1], [-0.5, -0.5, 1.5], [1.0, 1.0, 0.0]])}
  return D


def softmax_rows(Z): E = np.exp(Z - Z.max(1, keepdims=True)); return E / E.sum(1, keepdims=True)


def bcd_models():
  """name -> (objective name, multi, targets, subfun gradient wrt predictions (NumPy), columnwise Lipschitz constants, linear term)"""
  sig = lambda z: 1 / (1 + np.exp(-z))
  y = np.array([0.5, -1.0, 2.0, 0.3]); Y = np.array([[0.5, 1.0], [-1.0, 0.2], [2.0, -0.7], [0.3, 0.0]])
  yb = np.array([0, 1, 1, 0]); yc = np.array([0, 2, 1, 2])
  sq = lambda Xd: (Xd ** 2).sum(0)
  n = 4
  return {
      "least_squares": ("least_squares", None, y, lambda p, y: (p - y) / n, lambda Xd: sq(Xd) / n, None),
      "least_squares-multi": ("least_squares", 2, Y, lambda p, y: (p - y) / (2 * n), lambda Xd: sq(Xd) / (2 * n), None),
      "binary_logreg": ("binary_logreg", None, yb, lambda p, y: (sig(p) - y) / n, lambda Xd: sq(Xd) * 0.25 / n, None),
      "multiclass_logreg": ("multiclass_logreg", 3, yc, lambda p, y: (softmax_rows(p) - np.eye(3)[y]) / n, lambda Xd: sq(Xd) * 0.5 / n, None),
  }


def block(R, model, depth):
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import objective, prox
  oname, multi, y, gsub, lip, _ = bcd_models()[model]
  fun = getattr(objective, oname)
  shape = (3,) if multi is None else (3, multi)
  vals = [-1.0, 0.0, 0.7]
  if multi is None: X = np.array(list(itertools.product(vals, repeat=3)))
  else: X = np.array([np.resize(v, shape) for v in itertools.product(vals, repeat=4)])[::2]
  ops = {"prox_none": [None], "prox_lasso": [0.05, 0.6], "prox_ridge": [0.3], "prox_elastic_net": [(0.1, 0.5)], "prox_non_negative_lasso": [0.05], "prox_non_negative_ridge": [0.2], "prox_group_lasso": [0.1, 1.0]}
  if model == "least_squares": ops["box"] = [(np.float64(-0.3), np.float64(0.4))]
  for op, hypers in ops.items():
    if op == "box":
      from jaxopt import projection
      real = prox.make_prox_from_projection(projection.projection_box); P = lambda v, h, s: np.clip(v, *h)
    else: real = getattr(prox, op); P = PROX[op][0]
    s = jaxopt.BlockCoordinateDescent(fun, block_prox=real, maxiter=60, tol=0.0)
    I = jax.jit(lambda X, h, D: jax.vmap(lambda x: s.init_state(x, h, D))(X))
    U = jax.jit(lambda X, S, h, D: jax.vmap(lambda x, st: tuple(s.update(x, st, h, D)))(X, S))
    O = jax.jit(lambda X, h, D: jax.vmap(lambda x: s.optimality_fun(x, h, D))(X))
    for dname, Xd in bcd_data().items():
      data = (jnp.asarray(Xd), jnp.asarray(y)); L = np.asarray(fun.columnwise_lipschitz_const(data)); steps = 1 / np.where(L == 0, 1.0, L)
      R.check(L.shape == (3,) and np.all(L >= lip(Xd) * (1 - 1e-12)) and np.all((L == 0) == (lip(Xd) == 0)), f"{dname} Lipschitz constants", f"{L} vs {lip(Xd)}")
      for hi, h in enumerate(hypers):
        hj = jax.tree_util.tree_map(jnp.asarray, h)
        def rel(i, x, st):
          w = x.copy(); sq = 0.0
          for b in range(3):
            grad = gsub(Xd @ w, y)
            nb = P(w[b] - steps[b] * (Xd[:, b] @ grad), h, steps[b]) if w.ndim > 1 else P(np.atleast_1d(w[b] - steps[b] * (Xd[:, b] @ grad)), h, steps[b])[0]
            sq += np.sum((nb - w[b]) ** 2); w[b] = nb
          p = Xd @ w
          return [(w, dict(iter_num=st["iter_num"] + 1, predictions=p, subfun_g=gsub(p, y), error=np.sqrt(sq), num_fun_eval=st["num_fun_eval"] + 3, num_grad_eval=st["num_grad_eval"] + 3, num_prox_eval=st["num_prox_eval"] + 3))]
        key = f"{dname} {op}[{hi}]"
        st = I(X, hj, data)
        R.closes(lambda i: f"{key} initial predictions start={X[i].tolist()}", st.predictions, np.array([Xd @ x for x in X]), tol=1e-9)
        R.closes(lambda i: f"{key} initial gradient start={X[i].tolist()}", st.subfun_g, np.array([gsub(Xd @ x, y) for x in X]), tol=1e-9)
        iterate(R, key, X, X, lambda X: I(X, hj, data), lambda x, st: U(x, st, hj, data), rel, ["iter_num", "predictions", "subfun_g", "error", "num_fun_eval", "num_grad_eval", "num_prox_eval"], depth)
        full = np.array([x - (Xd.T @ gsub(Xd @ x, y)) for x in X])
        rows = lambda v: P(v, h, 1.0) if v.ndim > 1 or op != "prox_group_lasso" else np.array([group(np.atleast_1d(u), h)[0] for u in v])
        want = np.array([(np.array([P(r, h, 1.0) for r in v]) if v.ndim > 1 else rows(v)) - x for v, x in zip(full, X)])
        R.closes(lambda i: f"{key} optimality start={X[i].tolist()}", O(X, hj, data), want, tol=1e-9)
        R.outcome("block", model, op, dname, n=len(X))


def block_svm(R, depth):
  """The dual SVM objective has a linear term b and multi-output blocks projected on the simplex."""
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import objective, projection, prox
  Xd = np.array([[1.0, 0.2], [0.3, 2.0], [-0.5, 1.0]]); Y = np.eye(3)[[0, 2, 1]]
  fun = objective.multiclass_linear_svm_dual
  real = prox.make_prox_from_projection(projection.projection_simplex)
  B0 = [np.full((3, 3), 1 / 3), Y.copy(), np.array([[0.5, 0.5, 0], [0, 0, 1.0], [0.2, 0.3, 0.5]])]
  X = np.array(B0)
  s = jaxopt.BlockCoordinateDescent(fun, block_prox=real, maxiter=60, tol=0.0)
  for lam in (0.3, 1.0, 5.0):
    data = (jnp.asarray(Xd), jnp.asarray(Y))
    I = jax.jit(jax.vmap(lambda x: s.init_state(x, None, lam, data)))
    U = jax.jit(jax.vmap(lambda x, st: tuple(s.update(x, st, None, lam, data))))
    def rel(i, x, st):
      w = x.copy(); sq = 0.0
      # f(beta) = 1/(2 lam) ||X^T (Y - beta)||^2 + <beta, 1 - Y> up to the library's sign convention of the dual
      for b in range(3):
        V = Xd.T @ (Y - w)                                    # features x classes
        g = -(Xd[b] @ V) / lam - (1 - Y[b])
        step = lam / (Xd[b] @ Xd[b])                          # the exact constant of the quadratic
        nb = simplex(w[b] - step * g); sq += np.sum((nb - w[b]) ** 2); w[b] = nb
      return [(w, dict(iter_num=st["iter_num"] + 1, error=np.sqrt(sq)))]
    iterate(R, f"svm lam={lam}", X, X, lambda X: I(X), lambda x, st: U(x, st), rel, ["iter_num", "error"], depth)
    R.outcome("block", "svm", lam, n=len(X))


# ------------------------------------------------ agreement on common problems

def agreement(R, tier):
  """Every composite problem of the grid: all applicable solvers reach a point meeting the optimality conditions (NumPy)."""
  import jax, jax.numpy as jnp, jaxopt
  from jaxopt import objective, prox, projection
  Xd, y = bcd_data()["tall"], np.array([0.5, -1.0, 2.0, 0.3])
  data = (jnp.asarray(Xd), jnp.asarray(y))
  grad = lambda w: Xd.T @ (Xd @ w - y) / 4
  starts = np.array(list(itertools.product([-1.0, 0.5], repeat=3)))
  fs = objective.least_squares
  for op, h in (("prox_lasso", 0.02), ("prox_lasso", 0.3), ("prox_lasso", 2.0), ("prox_non_negative_lasso", 0.05), ("prox_elastic_net", (0.1, 0.5)), ("prox_ridge", 0.3), ("prox_none", None)):
    P = PROX[op][0]; real = getattr(prox, op)
    S = {"pg": jaxopt.ProximalGradient(fs, prox=real, maxiter=3000, tol=1e-10), "pg-plain": jaxopt.ProximalGradient(fs, prox=real, maxiter=3000, tol=1e-10, acceleration=False),
         "pg-fixed": jaxopt.ProximalGradient(fs, prox=real, stepsize=0.4, maxiter=3000, tol=1e-10), "bcd": jaxopt.BlockCoordinateDescent(fs, block_prox=real, maxiter=3000, tol=1e-10)}
    sols = {}
    for n, s in S.items():
      x, st = jax.jit(jax.vmap(lambda x: tuple(s.run(x, jax.tree_util.tree_map(jnp.asarray, h), data))))(starts)
      sols[n] = np.asarray(x)
      res = np.array([P(w - grad(w), h, 1.0) - w for w in sols[n]])
      R.closes(lambda i: f"{op} {h} {n} start={starts[i].tolist()} optimality", res, np.zeros_like(res), tol=1e-7)
      R.case(len(starts)); R.outcome("agreement", op, n, n=len(starts))
    for n in sols: R.closes(lambda i: f"{op} {h} {n} against pg start={starts[i].tolist()}", sols[n], sols["pg"], tol=1e-6)
  # on the simplex: projected gradient, mirror descent
  for v in (1.0, 2.0):
    s0 = np.array([[1, 1, 1], [0.8, 0.1, 0.1], [0.1, 0.1, 0.8]]); s0 = s0 / s0.sum(1, keepdims=True) * v
    fq = lambda w, data: fs(w, data)
    S = {"pgd": jaxopt.ProjectedGradient(fq, projection=projection.projection_simplex, maxiter=3000, tol=1e-10),
         "md-euclid": jaxopt.MirrorDescent(fq, projection_grad=jaxopt.MirrorDescent.make_projection_grad(lambda y, h: projection.projection_simplex(y, h), lambda x: x), stepsize=0.4, maxiter=3000, tol=1e-10),
         "md-entropy": jaxopt.MirrorDescent(fq, projection_grad=jaxopt.MirrorDescent.make_projection_grad(lambda y, h: h * jax.nn.softmax(y), jnp.log), stepsize=0.4, maxiter=20000, tol=1e-11)}
    for n, s in S.items():
      x, st = jax.jit(jax.vmap(lambda x: tuple(s.run(x, v, data))))(s0)
      res = np.array([simplex(w - grad(w), v) - w for w in np.asarray(x)])
      R.closes(lambda i: f"simplex {v} {n} start={s0[i].tolist()} optimality", res, np.zeros_like(res), tol=1e-6)
      R.case(len(s0)); R.outcome("agreement", "simplex", n, n=len(s0))


def jobs(tier):
  depth = 8 if tier == "quick" else 40
  out = [("agreement", agreement, dict(tier=tier))]
  for m in ("multiclass_logreg", "least_squares-multi", "least_squares", "binary_logreg"): out.append((f"block-{m}", block, dict(model=m, depth=4 if tier == "quick" else 15)))
  for obj in ("convex", "nonconvex"): out.append((f"mirror-{obj}", mirror, dict(depth=depth, obj=obj)))
  out.append(("block-svm", block_svm, dict(depth=depth)))
  for obj in ("convex", "steep", "nonconvex"):
    for op in list(PROX) + list(PROJ):
      full = tier == "thorough" or obj == "convex"
      out.append((f"pg-{obj}-{op}", prox_gradient, dict(op=op, obj=obj, depth=depth, modes=tuple(MODES) if full or op in ("prox_none", "prox_lasso", "projection_box") else ("ls", "ls-plain"))))
  for df in (0.5, 0.25):
    for maxls in (1, 2, 4):
      for accel in (True, False): out.append((f"tables-df{df}-maxls{maxls}-accel{int(accel)}", linesearch_tables, dict(df=df, maxls=maxls, accel=accel)))
  return out
