"""P15: stochastic solvers — iterator consumption and the step rules of OptaxSolver, PolyakSGD and ArmijoSGD.

Histories of batches are enumerated exhaustively (every sequence over a small set of batches, every maxiter, every
iterator length); the objective's answers along a step are supplied by tables so that every outcome of every trial
of the Armijo search is explored; NumPy transcriptions of the documented rules are the oracle.
"""
import functools, itertools
import numpy as np

LEVEL = "model_checking"
RULE = "all batch sequences over 3 batches x iterator lengths x maxiter x solver options; all tables of trial outcomes {violates, accepted, accepted but flat, increase, NaN, inf} over the reachable stepsizes; oracle: NumPy transcription of the documented rules"
ASSUMPTIONS = ["x64", "2-dimensional parameters", "maxls exhausted is the only way out of the Armijo search with a violated condition"]

X0 = [np.array([0.5, -1.0]), np.array([0.0, 0.0])]
BATCH = [np.array([[1.0, 0.5], [-0.5, 2.0]]), np.array([[0.3, -1.0], [1.5, 0.2]]), np.array([[2.0, 1.0], [0.0, 0.0]])]
TARGET = np.array([1.0, -0.5])


def fun_np(x, D, reg):
  r = D @ x - TARGET
  q = r * r / (1 + 0.1 * r * r)
  return q.mean() + reg * (x @ x)


def grad_np(x, D, reg):
  r = D @ x - TARGET
  return D.T @ (2 * r / (1 + 0.1 * r * r) ** 2) / len(r) + 2 * reg * x


def fun_jax(pk_un):
  import jax.numpy as jnp
  def fun(p, reg, data):
    x = pk_un(p)
    r = data @ x - TARGET
    q = r * r / (1 + 0.1 * r * r)
    return q.mean() + reg * jnp.sum(x * x)
  return fun


# ------------------------------------------------ NumPy rules

def polyak_rule(variant, fmin, max_stepsize, delta, mom):
  def init(x): return dict(v=np.zeros_like(x), s=1.0, value=np.inf, error=np.inf, n=0)
  def update(x, st, D, reg):
    f, g = fun_np(x, D, reg), grad_np(x, D, reg)
    gg = g @ g
    if variant == "SPS_max":
      s = min((f - fmin) / (gg + delta), max_stepsize) if gg + delta > 0 else 0.0
    else:
      s = max((f - fmin) / gg, 0.0) if gg > np.finfo(float).eps else 0.0
    v = mom * st["v"] - s * g
    return x + v, dict(v=v, s=s, value=f, error=np.sqrt(gg), n=st["n"] + 1, aux=x)
  return init, update


def armijo_search(f_of_s, f_cur, s, gg, coef, dec, inc, smax, maxls, goldstein):
  """(stepsize, value there, certified) of the documented search."""
  eps = np.finfo(float).eps
  bad = lambda s, f: not (s * coef * gg <= f_cur - f + eps)
  f = f_of_s(s)
  for _ in range(maxls):
    moved = False
    if bad(s, f):
      s = min(s * dec, smax); f = f_of_s(s); moved = True
    if goldstein and f < f_cur - s * (1 - coef) * gg:
      s = min(s * inc, smax); f = f_of_s(s); moved = True
    if not moved: return s, f, True
  return s, f, not bad(s, f)


def armijo_rule(agg, dec, inc, reset, mom, smax, maxls):
  def init(x): return dict(v=np.zeros_like(x), s=smax, value=np.inf, error=np.inf, n=0)
  def update(x, st, D, reg):
    f, g = fun_np(x, D, reg), grad_np(x, D, reg); gg = g @ g
    s = st["s"] if reset in ("conservative", "goldstein") else min(st["s"] * inc, smax)
    s, fn, ok = armijo_search(lambda s: fun_np(x - s * g, D, reg), f, s, gg, 1 - agg, dec, inc, smax, maxls, reset == "goldstein")
    nx = x - s * g + mom * st["v"]
    return nx, dict(v=nx - x, s=s, value=fn, error=np.sqrt(gg), n=st["n"] + 1, aux=x, ok=ok)
  return init, update


def optax_rule(kind):
  """Hand-written transformations."""
  def init(x): return dict(value=np.inf, error=np.inf, n=0, m=np.zeros_like(x), q=np.zeros_like(x))
  def update(x, st, D, reg):
    f, g = fun_np(x, D, reg), grad_np(x, D, reg); n = st["n"] + 1; m, q = st["m"], st["q"]
    if kind == "sgd": u = -0.1 * g
    elif kind == "momentum": m = g + 0.9 * m; u = -0.1 * m
    elif kind == "nesterov": m = g + 0.9 * m; u = -0.1 * (g + 0.9 * m)
    elif kind == "adam":
      m = 0.9 * m + 0.1 * g; q = 0.999 * q + 0.001 * g * g
      u = -0.05 * (m / (1 - 0.9 ** n)) / (np.sqrt(q / (1 - 0.999 ** n)) + 1e-8)
    elif kind == "adamw":
      m = 0.9 * m + 0.1 * g; q = 0.999 * q + 0.001 * g * g
      u = -0.05 * ((m / (1 - 0.9 ** n)) / (np.sqrt(q / (1 - 0.999 ** n)) + 1e-8) + 0.1 * x)
    elif kind == "schedule": u = -(0.2 / (1 + (n - 1))) * g
    elif kind == "clip": u = -0.1 * (g * min(1.0, 0.5 / np.linalg.norm(g)) if np.linalg.norm(g) > 0 else g)
    return x + u, dict(value=f, error=np.linalg.norm(g), n=n, m=m, q=q, aux=x)
  return init, update


def make(name, opt, fun, **kw):
  import jaxopt, optax
  import jax.numpy as jnp
  if name == "polyak": return jaxopt.PolyakSGD(fun=fun, variant=opt[0], fun_min=opt[1], max_stepsize=opt[2], delta=opt[3], momentum=opt[4], **kw)
  if name == "armijo": return jaxopt.ArmijoSGD(fun=fun, aggressiveness=opt[0], decrease_factor=opt[1], increase_factor=opt[2], reset_option=opt[3], momentum=opt[4], max_stepsize=opt[5], maxls=opt[6], **kw)
  o = {"sgd": lambda: optax.sgd(0.1), "momentum": lambda: optax.sgd(0.1, momentum=0.9), "nesterov": lambda: optax.sgd(0.1, momentum=0.9, nesterov=True),
       "adam": lambda: optax.adam(0.05), "adamw": lambda: optax.adamw(0.05, weight_decay=0.1), "schedule": lambda: optax.sgd(lambda k: 0.2 / (1.0 + k)),
       "clip": lambda: optax.chain(optax.clip_by_global_norm(0.5), optax.sgd(0.1))}[opt[0]]()
  return jaxopt.OptaxSolver(fun=fun, opt=o, **kw)


def rule(name, opt):
  return {"polyak": polyak_rule, "armijo": armijo_rule, "optax": optax_rule}[name](*opt)


OPTS = {
    "polyak": [("SPS_max", 0.0, 1.0, 0.0, 0.0), ("SPS_max", 0.1, 0.3, 0.5, 0.9), ("SPS+", 0.2, 1.0, 0.0, 0.0), ("SPS+", 0.0, 1.0, 0.0, 0.5)],
    "armijo": [(0.9, 0.8, 1.5, "increase", 0.0, 1.0, 15), (0.6, 0.5, 2.0, "conservative", 0.0, 2.0, 15), (0.7, 0.7, 1.4, "goldstein", 0.0, 1.5, 6),
               (0.9, 0.8, 1.5, "increase", 0.9, 1.0, 15), (0.5, 0.6, 1.2, "goldstein", 0.4, 5.0, 3), (0.3, 0.5, 3.0, "conservative", 0.5, 8.0, 2)],
    "optax": [(k,) for k in ("sgd", "momentum", "nesterov", "adam", "adamw", "schedule", "clip")],
}


def packing(pack):
  import jax.numpy as jnp
  if pack == "tree": return (lambda v: {"b": v[..., :1], "a": (v[..., 1],)}), (lambda t: jnp.stack([t["b"][0], t["a"][0]], -1))
  return (lambda v: v), (lambda v: v)


def histories(R, name, opt, depth, pack, aux, vg, hook):
  """Every batch sequence of the given length, one update at a time, against the rule."""
  import jax, jax.numpy as jnp
  pk, un = packing(pack)
  f0 = fun_jax(un)
  fa = (lambda p, reg, data: (f0(p, reg, data), {"at": un(p)})) if aux else f0
  fun = jax.value_and_grad(fa, has_aux=aux) if vg else fa
  kw = {}
  if hook:
    def pre(p, st, reg, data):
      return jax.tree_util.tree_map(lambda v: 0.5 * v, p), (st._replace(stepsize=0.7 * st.stepsize) if name == "armijo" else st)
    kw["pre_update"] = pre
  s = make(name, opt, fun, has_aux=aux, value_and_grad=vg, maxiter=99, tol=1e-9, **kw)
  init, update = rule(name, opt)
  reg = 0.05
  Sq = np.array(list(itertools.product(range(3), repeat=depth)))
  cases = [(x, seq) for x in X0 for seq in Sq]
  XS = np.array([c[0] for c in cases]); DS = np.array(BATCH)[np.array([c[1] for c in cases])]
  st = jax.jit(jax.vmap(lambda x, D: s.init_state(pk(x), reg, data=D)))(XS, DS[:, 0])
  R.check(np.isinf(np.asarray(st.error)).all() and (np.asarray(st.iter_num) == 0).all(), "initial state")
  upd = jax.jit(jax.vmap(lambda p, st, D: tuple(s.update(p, st, reg, data=D))))
  p = jax.vmap(pk)(jnp.asarray(XS))
  xs = list(XS); os_ = [init(x) for x in xs]
  for k in range(depth):
    p, st = upd(p, st, DS[:, k])
    for i in range(len(cases)):
      if hook:
        xs[i] = 0.5 * xs[i]
        if name == "armijo": os_[i] = dict(os_[i], s=0.7 * os_[i]["s"])
      xs[i], os_[i] = update(xs[i], os_[i], DS[i, k], reg)
    tag = lambda i: f"x0={XS[i].tolist()} batches={cases[i][1][:k + 1].tolist()}"
    col = lambda key: np.array([o[key] for o in os_])
    R.closes(lambda i: tag(i) + " params", jax.vmap(un)(p), np.array(xs), tol=1e-9)
    R.closes(lambda i: tag(i) + " value", st.value, col("value"), tol=1e-9)
    R.closes(lambda i: tag(i) + " error", st.error, col("error"), tol=1e-9)
    R.check((np.asarray(st.iter_num) == k + 1).all(), f"k={k} iter_num", str(st.iter_num[0]))
    if hasattr(st, "stepsize"): R.closes(lambda i: tag(i) + " stepsize", st.stepsize, col("s"), tol=1e-9)
    if name == "polyak":
      R.check((np.asarray(st.num_fun_eval) == k + 2).all() and (np.asarray(st.num_grad_eval) == k + 1).all(), f"k={k} counters")
    if name in ("polyak", "armijo"):
      if opt[4]: R.closes(lambda i: tag(i) + " velocity", jax.vmap(un)(st.velocity), col("v"), tol=1e-9)
      else: R.check(st.velocity is None, "velocity")
    if aux: R.closes(lambda i: tag(i) + " aux", st.aux["at"], col("aux"), tol=1e-9)
    if name == "armijo": R.outcome("armijo certified", n=int(col("ok").sum())); R.outcome("armijo maxls exhausted", n=int((~col("ok")).sum()))
    R.add(states=len(cases), transitions=len(cases), traces=len(cases), evals=len(cases))
  R.outcome("histories", name, str(opt), n=len(cases))


class Counting:
  def __init__(self, items): self.items, self.n = items, 0
  def __iter__(self): return self
  def __next__(self):
    if self.n >= len(self.items): raise StopIteration
    self.n += 1
    return self.items[self.n - 1]


def iterators(R, name, opt, N, jit):
  """run_iterator for every (maxiter, number of items) and every batch sequence: consumption and result."""
  import jax, jax.numpy as jnp
  init, update = rule(name, opt)
  reg = 0.05
  fun = fun_jax(lambda v: v)
  for maxiter in range(N + 1):
    for items in range(1, N + 2):
      s = make(name, opt, fun, maxiter=maxiter, tol=1e3 if items % 2 else 1e-9, jit=jit)      # run_iterator has no tolerance test
      seqs = np.array(list(itertools.product(range(3), repeat=items)))
      if not jit: seqs = seqs[:: max(1, len(seqs) // 3)]
      used = []
      def run(x, D):
        it = Counting([D[j] for j in range(items)])
        p, st = s.run_iterator(x, it, reg)
        used.append(it.n)
        return p, st.value, st.error, st.iter_num, st
      D = np.array(BATCH)[seqs]
      tag = lambda i: f"maxiter={maxiter} items={items} batches={seqs[i].tolist()}"
      x0 = X0[0]
      if jit: p, val, err, n, st = jax.jit(jax.vmap(run, in_axes=(None, 0)))(x0, D)
      else:
        outs = [run(jnp.asarray(x0), jnp.asarray(d)) for d in D]
        p, val, err, n = [np.array([np.asarray(o[j]) for o in outs]) for j in range(4)]
      want = min(maxiter, items - 1)
      R.check(used == [1 + want] * len(used), f"maxiter={maxiter} items={items} consumed", f"{used}")
      R.check((np.asarray(n) == want).all(), f"maxiter={maxiter} items={items} updates", str(np.asarray(n)))
      xs, vs, es = [], [], []
      for i in range(len(seqs)):
        x, o = x0, init(x0)
        for j in range(1, want + 1): x, o = update(x, o, D[i, j], reg)
        xs.append(x); vs.append(o["value"]); es.append(o["error"])
      R.closes(lambda i: tag(i) + " params", p, np.array(xs), tol=1e-9)
      R.closes(lambda i: tag(i) + " value", val, np.array(vs), tol=1e-9); R.closes(lambda i: tag(i) + " error", err, np.array(es), tol=1e-9)
      R.outcome("run_iterator", name, f"updates={want}", n=len(seqs))
      R.add(states=len(seqs) * (want + 1), transitions=len(seqs) * want, traces=len(seqs), evals=len(seqs))


def deterministic_run(R, name, opt, hook):
  """run on a fixed batch: stops at the first iterate whose error is within tol, or at maxiter."""
  import jax, jax.numpy as jnp
  fun = fun_jax(lambda v: v)
  kw = dict(pre_update=lambda p, st, reg, data: (0.9 * p, st)) if hook else {}
  init, update = rule(name, opt)
  X = np.array(list(itertools.product([-1.0, 0.0, 0.5, 2.0], repeat=2)))
  # with an unattainable fun_min the Polyak steps are chaotic: rounding differences grow along long runs
  grid = [(x, b, m, t) for x in X for b in range(3) for m in (0, 1, 3, 8 if name == "polyak" else 30) for t in (1e-1, 1e-3)]
  def one(x, D, m, t, **o):
    p, st = make(name, opt, fun, maxiter=m, tol=t, **kw, **o).run(x, 0.05, data=D); return p, st.value, st.error, st.iter_num
  cols = [np.array(c) for c in zip(*[(x, BATCH[b], m, t) for x, b, m, t in grid])]
  p, v, e, n = map(np.array, jax.jit(jax.vmap(functools.partial(one, implicit_diff=True)))(*cols))
  for m in (0, 3):      # the default (unrolled) loop needs a static number of iterations
    sel = np.array([g[2] == m for g in grid])
    for a, b in zip((p, v, e, n), jax.jit(jax.vmap(lambda x, D, t: one(x, D, m, t)))(*(c[sel] for c in (cols[0], cols[1], cols[3])))):
      R.check(np.allclose(a[sel], b, rtol=1e-9, atol=1e-12), f"unrolled loop differs from lax loop maxiter={m}")
    R.case(int(sel.sum()))
  P, V, E, N_ = [], [], [], []
  for x, b, m, t in grid:
    o = init(x)
    while o["n"] < m and o["error"] > t:
      x, o = update(0.9 * x if hook else x, o, BATCH[b], 0.05)
    P.append(x); V.append(o["value"]); E.append(o["error"]); N_.append(o["n"])
    R.outcome("run", name, "converged" if o["error"] <= t else "maxiter")
  tag = lambda i: f"x0={grid[i][0].tolist()} batch={grid[i][1]} maxiter={grid[i][2]} tol={grid[i][3]}"
  R.closes(lambda i: tag(i) + " iter_num", n, np.array(N_)); R.closes(lambda i: tag(i) + " params", p, np.array(P), tol=1e-7)
  R.closes(lambda i: tag(i) + " value", v, np.array(V), tol=1e-7); R.closes(lambda i: tag(i) + " error", e, np.array(E), tol=1e-7)
  R.case(len(grid))


LET = {"slow": -0.1, "ok": -0.5, "fast": -0.95, "up": 1.0, "nan": np.nan, "inf": np.inf}


def armijo_table(R, reset, maxls, prev, mom, n_exp):
  """Every table of outcomes over the stepsizes 2^-j; f(x - s*g) = letter * s, g = 1, f(x) = 0."""
  import jax, jax.numpy as jnp
  import jaxopt
  names = list(LET)
  TB = np.array(list(itertools.product(range(len(names)), repeat=n_exp)))
  TAB = np.array([LET[n] for n in names])[TB]
  smax = 1.0
  def fun(x, tab):
    s = -x
    j = jnp.clip(jnp.round(-jnp.log2(jnp.where(s > 0, s, 1.0))).astype(int), 0, n_exp - 1)
    return jnp.where(x == 0, 0.0, tab[j] * s), jnp.ones_like(x)
  s = jaxopt.ArmijoSGD(fun=fun, value_and_grad=True, aggressiveness=0.7, decrease_factor=0.5, increase_factor=2.0, reset_option=reset, momentum=mom, max_stepsize=smax, maxls=maxls, maxiter=9)
  def one(tab):
    st = s.init_state(jnp.array(0.0), tab)
    st = st._replace(stepsize=jnp.asarray(prev))
    if mom: st = st._replace(velocity=jnp.asarray(0.25))
    p, st = s.update(jnp.array(0.0), st, tab)
    return jnp.stack([p, st.value, st.stepsize, st.error, st.velocity if mom else p])
  got = np.asarray(jax.jit(jax.vmap(one))(TAB))
  want, cert = [], []
  for tab in TAB:
    f = lambda s: tab[min(max(int(round(-np.log2(s))), 0), n_exp - 1)] * s
    s0 = prev if reset != "increase" else min(prev * 2.0, smax)
    st, fv, ok = armijo_search(f, 0.0, s0, 1.0, 1 - 0.7, 0.5, 2.0, smax, maxls, reset == "goldstein")
    nx = -st + mom * 0.25
    want.append([nx, fv, st, 1.0, nx]); cert.append(ok)
  want = np.array(want)
  R.closes(lambda i: f"outcomes={[names[j] for j in TB[i]]}", got, want, tol=1e-12)
  cert = np.array(cert)
  # a certified step has the sufficient decrease and a finite value; it never exceeds the cap
  for i in np.where(cert)[0]:
    R.check(got[i, 1] <= -0.3 * got[i, 2] + 1e-12, f"outcomes={[names[j] for j in TB[i]]} decrease", f"{got[i].tolist()}")
  R.check((got[:, 2] <= smax).all(), "cap")
  R.outcome("armijo table", reset, "certified", n=int(cert.sum())); R.outcome("armijo table", reset, "maxls exhausted", n=int((~cert).sum()))
  R.case(len(TAB))


def polyak_table(R, variant, mom):
  """Every (value, gradient) answer history over an alphabet that has fun_min, zero gradients and values below fun_min."""
  import jax, jax.numpy as jnp
  import jaxopt
  ans = [(v, g) for v in (-0.5, 0.25, 1.0, 40.0) for g in ((0.0, 0.0), (1.0, -2.0), (1e-9, 0.0), (0.0, 30.0), (0.01, 0.01))]
  depth = 3
  idx = np.array(list(itertools.product(range(len(ans)), repeat=depth)))
  VAL = np.array([a[0] for a in ans])[idx]; G = np.array([a[1] for a in ans])[idx]
  for fmin, smax, delta in ((0.25, 1.0, 0.0), (0.0, 0.5, 0.1), (-0.5, 100.0, 0.0)):
    s = jaxopt.PolyakSGD(fun=lambda p, v, g: ((v, p), g), value_and_grad=True, has_aux=True, fun_min=fmin, variant=variant, max_stepsize=smax, delta=delta, momentum=mom, maxiter=9)
    N = len(idx)
    x = np.tile([0.5, -0.25], (N, 1)); p = jnp.asarray(x); vel = np.zeros_like(x)
    st = jax.vmap(lambda p, v, g: s.init_state(p, v, g))(p, VAL[:, 0], G[:, 0])
    upd = jax.jit(jax.vmap(lambda p, st, v, g: tuple(s.update(p, st, v, g))))
    for k in range(depth):
      p, st = upd(p, st, VAL[:, k], G[:, k])
      gg = (G[:, k] ** 2).sum(1)
      with np.errstate(all="ignore"):
        if variant == "SPS_max": step = np.where(gg + delta == 0, 0.0, np.minimum((VAL[:, k] - fmin) / (gg + delta), smax))
        else: step = np.where(gg <= np.finfo(float).eps, 0.0, np.maximum((VAL[:, k] - fmin) / gg, 0))
      vel = mom * vel - step[:, None] * G[:, k]; x0, x = x, x + vel
      tag = lambda i: f"fun_min={fmin} max={smax} delta={delta} answers={[ans[j] for j in idx[i, :k + 1]]}"
      R.closes(lambda i: tag(i) + " params", p, x, tol=1e-12); R.closes(lambda i: tag(i) + " stepsize", st.stepsize, step, tol=1e-12)
      R.closes(lambda i: tag(i) + " error", st.error, np.sqrt(gg), tol=1e-12); R.closes(lambda i: tag(i) + " value", st.value, VAL[:, k])
      R.closes(lambda i: tag(i) + " aux", st.aux, x0, tol=1e-12)
      if variant == "SPS_max": R.check((np.asarray(st.stepsize) <= smax).all(), f"k={k} cap")
      else: R.check((np.asarray(st.stepsize) >= 0).all(), f"k={k} sign")
      R.add(states=N, transitions=N, traces=N, evals=N)
    R.outcome("polyak table", variant, n=N)


def construction(R):
  """Documented rejections."""
  import jaxopt
  for agg in (0.0, 1.0, -0.5, 2.0, 0.5, 0.01, 0.99):
    try: jaxopt.ArmijoSGD(fun=lambda x: x, aggressiveness=agg); bad = False
    except ValueError: bad = True
    R.check(bad == (not 0 < agg < 1), f"aggressiveness={agg}"); R.case()
  for o in ("increase", "goldstein", "conservative", "grow", ""):
    try: jaxopt.ArmijoSGD(fun=lambda x: x, reset_option=o); bad = False
    except ValueError: bad = True
    R.check(bad == (o not in ("increase", "goldstein", "conservative")), f"reset={o}"); R.case()


def jobs(tier):
  deep = tier == "thorough"
  out = []
  D = 6 if deep else 4
  N = 4 if deep else 3
  for name, opts in OPTS.items():
    for j, o in enumerate(opts if deep else {"polyak": opts[1:3], "armijo": opts[1:4], "optax": opts[1:4:2]}[name]):
      out.append((f"iter-{name}-{j}", iterators, dict(name=name, opt=o, N=N, jit=True)))
  for name, opts in OPTS.items():
    out.append((f"iter-eager-{name}", iterators, dict(name=name, opt=opts[1], N=2, jit=False)))
  for name, opts in OPTS.items():
    for j, o in enumerate(opts):
      for pack, aux, vg, hook in (("vector", False, False, False), ("tree", True, True, True)) if not deep else itertools.product(("vector", "tree"), (False, True), (False, True), (False, True)):
        out.append((f"hist-{name}-{j}-{pack}-aux{int(aux)}-vg{int(vg)}-hook{int(hook)}", histories, dict(name=name, opt=o, depth=D, pack=pack, aux=aux, vg=vg, hook=hook)))
      out.append((f"run-{name}-{j}", deterministic_run, dict(name=name, opt=o, hook=bool(j % 2))))
  for reset in ("increase", "conservative", "goldstein"):
    for maxls in ((1, 2, 3, 5) if not deep else (1, 2, 3, 4, 5, 6, 8)):
      for prev in (1.0, 0.25):
        out.append((f"armijo-{reset}-ls{maxls}-prev{prev}", armijo_table, dict(reset=reset, maxls=maxls, prev=prev, mom=0.5 if maxls == 2 else 0.0, n_exp=6 if deep else 5)))
  for v in ("SPS_max", "SPS+"):
    for mom in (0.0, 0.9): out.append((f"polyak-{v}-mom{mom}", polyak_table, dict(variant=v, mom=mom)))
  out.append(("construction", construction, {}))
  return out
