"""P11: quasi-Newton memory, on every gradient/residual answer history over an alphabet, longer than the buffer."""
import itertools
import numpy as np

LEVEL = "model_checking"
RULE = "at every update of every answer history: step == -stepsize * (textbook matrix of the last `history_size` pairs, chronological order) @ gradient (L-BFGS-B: dense generalised Cauchy point + subspace minimiser)"
ASSUMPTIONS = ["histories in which a curvature s.y is within 1e-2 |s||y| of zero without being exactly zero are ill-conditioned and not compared beyond that point",
               "float64"]

# answers: gradients (residuals) returned by the oracle in R^3; the repeated choice of one symbol gives y == 0 exactly
ALPHA = np.array([[1.0, -0.55, 0.35], [-0.45, 0.8, 0.25], [0.6, 0.75, -1.15], [0.15, -1.1, -0.65]])
X0 = np.array([0.3, -0.7, 0.45])

PACKS = {
    "vector": (lambda v: v, lambda t: t),
    "dict": (lambda v: {"b": v[:1], "a": v[1:]}, None),
    "scalars": (lambda v: (v[0], [v[1], v[2]]), None),
    "matrix": (lambda v: v.reshape(3, 1), None),
    "nested": (lambda v: [{"w": v[:2].reshape(1, 2)}, (v[2],)], None),
}
# flattening order of each packing as a permutation of the vector entries (JAX sorts dict keys)
ORDER = {"vector": [0, 1, 2], "dict": [1, 2, 0], "scalars": [0, 1, 2], "matrix": [0, 1, 2], "nested": [0, 1, 2]}


def flat(t):
  import jax, jax.numpy as jnp
  return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])


def seqs(depth, k=len(ALPHA)):
  return np.array(list(itertools.product(range(k), repeat=depth + 1)))


def trace(make, seq, pack, depth, extra=(), x0=X0, alpha=ALPHA):
  """Runs the real init_state/update on every sequence (vmap); returns flattened params, iterates and states."""
  import jax, jax.numpy as jnp
  solver = make()
  al = jnp.asarray(alpha)
  order = np.array(ORDER[pack]); pk = PACKS[pack][0]; inv = np.argsort(order)
  unflat = lambda t: flat(t)[inv]
  init = jax.jit(jax.vmap(lambda i: (pk(jnp.asarray(x0)), solver.init_state(pk(jnp.asarray(x0)), *extra, pk(al[i])))))
  upd = jax.jit(jax.vmap(lambda p, st, i: tuple(solver.update(p, st, *extra, pk(al[i])))))
  un = jax.jit(jax.vmap(unflat))
  p, st = init(seq[:, 0])
  xs, errs = [un(p)], [st.error]
  for k in range(depth):
    p, st = upd(p, st, seq[:, k + 1])
    xs.append(un(p)); errs.append(st.error)
  return np.stack([np.asarray(x) for x in xs], 1), st, np.stack([np.asarray(e) for e in errs], 1)


def ok_pair(s, y):
  """1 usable, 0 exactly null, -1 ill-conditioned."""
  if not y.any(): return 0
  c = s @ y
  return 1 if abs(c) > 1e-2 * np.linalg.norm(s) * np.linalg.norm(y) else -1


def bfgs_inv(H, s, y):
  r = 1.0 / (s @ y); V = np.eye(len(s)) - r * np.outer(y, s)
  return V.T @ H @ V + r * np.outer(s, s)


def lbfgs(R, m, pack, use_gamma, depth, stepsize):
  import jax, jax.numpy as jnp
  from jaxopt import LBFGS
  seq = seqs(depth)
  fun = lambda p, g: (jnp.zeros(()), g)
  ss = (lambda k: 0.5 / (1 + k)) if stepsize == "callable" else stepsize
  make = lambda: LBFGS(fun=fun, value_and_grad=True, stepsize=ss, history_size=m, use_gamma=use_gamma, maxiter=100)
  xs, st, errs = trace(make, seq, pack, depth)
  xs, errs = np.asarray(xs), np.asarray(errs)
  for n, idx in enumerate(seq):
    G = ALPHA[idx]; pairs = []; gamma = 1.0; good = True
    for k in range(depth):
      H = gamma * np.eye(3)
      for s, y, kind in pairs[-m:] if m else []:
        if kind: H = bfgs_inv(H, s, y)
      d = -H @ G[k]
      t = ss(k) if callable(ss) else ss
      want = xs[n, k] + t * d
      scale = np.abs(t * d).max() + 1e-3
      if np.abs(xs[n, k + 1] - want).max() > 1e-7 * max(scale, 1):
        R.violation(f"m={m} pack={pack} gamma={use_gamma} seq={idx.tolist()[:k + 2]} k={k}", f"params {xs[n, k + 1]}, textbook {want}"); break
      R.add(states=1, transitions=1)
      if all(kd == 1 and s @ y > 0 for s, y, kd in pairs[-m:] if kd):
        R.check(not (gamma > 0) or d @ G[k] < 0, f"not a descent direction seq={idx.tolist()} k={k}", "")
      s, y = xs[n, k + 1] - xs[n, k], G[k + 1] - G[k]
      kind = ok_pair(s, y)
      if kind < 0 or np.abs(xs[n, k + 1]).max() > 1e4: good = False; break
      pairs.append((s, y, kind))
      gamma = ((s @ y) / (y @ y) if kind else 1.0) if (use_gamma and m) else 1.0
      R.check(abs(errs[n, k + 1] - np.linalg.norm(G[k + 1])) < 1e-9, f"error seq={idx.tolist()} k={k}", f"{errs[n, k + 1]}")
    R.case(); R.outcome("LBFGS", f"m={m}", pack, "complete" if good else "cut")
  R.sample({"solver": "LBFGS", "seq": seq[-1].tolist(), "params": xs[-1].tolist()})


def bfgs(R, pack, depth, stepsize):
  import jax, jax.numpy as jnp
  from jaxopt import BFGS
  seq = seqs(depth)
  fun = lambda p, g: (jnp.zeros(()), g)
  ss = (lambda k: 0.5 / (1 + k)) if stepsize == "callable" else stepsize
  make = lambda: BFGS(fun=fun, value_and_grad=True, stepsize=ss, maxiter=100)
  xs, st, errs = trace(make, seq, pack, depth)
  xs = np.asarray(xs)
  for n, idx in enumerate(seq):
    G = ALPHA[idx]; H = np.eye(3); good = True
    for k in range(depth):
      t = ss(k) if callable(ss) else ss
      d = -H @ G[k]; want = xs[n, k] + t * d
      if np.abs(xs[n, k + 1] - want).max() > 1e-7 * max(np.abs(t * d).max(), 1):
        R.violation(f"pack={pack} seq={idx.tolist()[:k + 2]} k={k}", f"params {xs[n, k + 1]}, textbook {want}"); break
      R.add(states=1, transitions=1)
      s, y = xs[n, k + 1] - xs[n, k], G[k + 1] - G[k]
      kind = ok_pair(s, y)
      if kind < 0 or np.abs(xs[n, k + 1]).max() > 1e4: good = False; break
      if kind: H = bfgs_inv(H, s, y)
    R.case(); R.outcome("BFGS", pack, "complete" if good else "cut")


def broyden(R, m, pack, gamma, depth, stepsize):
  import jax, jax.numpy as jnp
  from jaxopt import Broyden
  seq = seqs(depth)
  fun = lambda p, g: g
  ss = (lambda k: 0.5 / (1 + k)) if stepsize == "callable" else stepsize
  make = lambda: Broyden(fun=fun, stepsize=ss, history_size=m, gamma=gamma, maxiter=100)
  xs, st, errs = trace(make, seq, pack, depth)
  xs, errs = np.asarray(xs), np.asarray(errs)
  for n, idx in enumerate(seq):
    G = ALPHA[idx]; terms = []; good = True
    for k in range(depth):
      H = gamma * np.eye(3) + sum((np.outer(c, d) for c, d in terms[-m:]), np.zeros((3, 3)))
      t = ss(k) if callable(ss) else ss
      step = -H @ G[k]; want = xs[n, k] + t * step
      if not np.abs(xs[n, k + 1] - want).max() <= 1e-7 * max(np.abs(t * step).max(), 1):
        R.violation(f"m={m} pack={pack} gamma={gamma} seq={idx.tolist()[:k + 2]} k={k}", f"params {xs[n, k + 1]}, textbook {want}"); break
      R.add(states=1, transitions=1)
      s, y = xs[n, k + 1] - xs[n, k], G[k + 1] - G[k]
      v = H.T @ s; den = v @ y
      if np.abs(xs[n, k + 1]).max() > 1e4: good = False; break
      if not y.any():
        terms.append((np.zeros(3), np.zeros(3))); continue       # no information: the approximation keeps its value
      if abs(den) < 1e-2 * np.linalg.norm(v) * np.linalg.norm(y): good = False; break
      terms.append((s - H @ y, v / den))
      R.check(abs(errs[n, k + 1] - np.linalg.norm(G[k + 1])) < 1e-9, f"error seq={idx.tolist()} k={k}", f"{errs[n, k + 1]}")
    R.case(); R.outcome("Broyden", f"m={m}", pack, "complete" if good else "cut")


# ---------------- L-BFGS-B

def dense_B(theta, pairs):
  B = theta * np.eye(3)
  for s, y in pairs:
    Bs = B @ s
    B = B - np.outer(Bs, Bs) / (s @ Bs) + np.outer(y, y) / (y @ s)
  return B


def lbfgsb_target(x, g, l, u, B):
  """Generalised Cauchy point and truncated subspace minimiser on the dense model; None when degenerate."""
  n = len(x)
  t = np.full(n, np.inf)
  for i in range(n):
    if g[i] < 0: t[i] = (x[i] - u[i]) / g[i]
    elif g[i] > 0: t[i] = (x[i] - l[i]) / g[i]
  degenerate = False
  if np.any((t > 0) & (t < 1e-9)): return None
  d = np.where(t <= 0, 0.0, -g)
  free = t > 0
  z = np.zeros(n); cur = 0.0
  for i in sorted(range(n), key=lambda i: t[i]):
    if t[i] <= 0: continue
    df = g @ d + d @ B @ z; ddf = d @ B @ d
    if not d.any(): break
    dt = t[i] - cur
    tstar = -df / ddf
    if np.isfinite(dt) and abs(tstar - dt) < 1e-7 * max(1, abs(dt)): return None
    if tstar < dt:
      z = z + max(tstar, 0) * d; d = np.zeros(n); break
    z = z + dt * d; cur = t[i]
    z[i] = (u[i] if g[i] < 0 else l[i]) - x[i]
    d = d.copy(); d[i] = 0.0; free[i] = False
  else:
    pass
  xc = x + z
  F = np.where(free)[0]
  if len(F):
    r = (g + B @ z)[F]
    du = -np.linalg.solve(B[np.ix_(F, F)], r)
    alpha = 1.0
    for i, e in zip(F, du):
      if e > 0 and np.isfinite(u[i]): alpha = min(alpha, (u[i] - xc[i]) / e)
      if e < 0 and np.isfinite(l[i]): alpha = min(alpha, (l[i] - xc[i]) / e)
    xs = xc.copy(); xs[F] += alpha * du
  else:
    xs = xc
  return xs


INF = np.inf
BOXES = {
    "none": None,
    "inf": ([-INF] * 3, [INF] * 3),
    "wide": ([-40, -40, -40], [40, 40, 40]),
    "lower": ([0.3, -2.0, -INF], [INF, INF, 3.0]),           # x0 on a bound
    "unit": ([-0.2, -1.0, 0.1], [0.8, 0.1, 0.9]),
    "fixed": ([-1.0, -0.7, -INF], [1.1, -0.7, INF]),
    "tight": ([0.25, -0.75, 0.4], [0.35, -0.65, 0.5]),
}


def lbfgsb(R, m, pack, box, use_gamma, theta, depth, stepsize):
  import jax, jax.numpy as jnp
  from jaxopt import LBFGSB
  seq = seqs(depth)
  fun = lambda p, g: (jnp.zeros(()), g)
  ss = (lambda k: 0.9 / (1 + k)) if stepsize == "callable" else stepsize
  make = lambda: LBFGSB(fun=fun, value_and_grad=True, stepsize=ss, history_size=m, use_gamma=use_gamma, theta=theta, maxiter=100)
  b = BOXES[box]; pk = PACKS[pack][0]
  bounds = None if b is None else tuple(pk(jnp.asarray(v, float)) for v in b)
  l, u = (np.full(3, -INF), np.full(3, INF)) if b is None else (np.array(b[0], float), np.array(b[1], float))
  xs, st, errs = trace(make, seq, pack, depth, extra=(bounds,))
  xs, errs = np.asarray(xs), np.asarray(errs)
  for n, idx in enumerate(seq):
    G = ALPHA[idx]; pairs = []; th = theta; good = True
    for k in range(depth):
      x, g = xs[n, k], G[k]
      tgt = lbfgsb_target(x, g, l, u, dense_B(th, pairs[-m:]))
      if tgt is None: good = False; break
      t = ss(k) if callable(ss) else ss
      want = np.clip(x + t * (tgt - x), l, u)
      if not np.abs(xs[n, k + 1] - want).max() <= 1e-6 * max(np.abs(want - x).max(), 1):
        R.violation(f"m={m} pack={pack} box={box} gamma={use_gamma} seq={idx.tolist()[:k + 2]} k={k}", f"params {xs[n, k + 1]}, dense model {want}"); break
      R.add(states=1, transitions=1)
      R.check((tgt - x) @ g <= 1e-12, f"ascent direction seq={idx.tolist()} k={k}", "")
      s, y = xs[n, k + 1] - x, G[k + 1] - g
      kind = ok_pair(s, y) if s.any() else 0
      if kind < 0 or np.abs(xs[n, k + 1]).max() > 1e4: good = False; break
      want_err = np.abs(np.clip(xs[n, k + 1] - G[k + 1], l, u) - xs[n, k + 1]).max()
      R.check(abs(errs[n, k + 1] - want_err) < 1e-9, f"error seq={idx.tolist()} k={k}", f"{errs[n, k + 1]} vs {want_err}")
      if kind and s @ y > 0:
        pairs.append((s, y)); th = theta * ((y @ y) / (s @ y) if use_gamma else 1.0)
        if max(th, 1 / th) > 1e3: good = False; break
    R.case(); R.outcome("LBFGSB", f"m={m}", pack, box, "complete" if good else "cut")


# ---------------- with a line search on real objectives

def linesearch(R, solver, ls, m):
  """Every start of a grid on two objectives: with the line search on, the step is stepsize x the textbook direction of the pairs actually travelled."""
  import jax, jax.numpy as jnp
  import jaxopt
  def obj(x, c):
    return (1 - x[0]) ** 2 + c * (x[1] - x[0] ** 2) ** 2 + 0.5 * x[2] ** 2 + 0.1 * x[0] * x[2]
  kw = dict(fun=obj, linesearch=ls, maxiter=50)
  if solver == "LBFGS": kw["history_size"] = m
  s_ = getattr(jaxopt, solver)(**kw)
  grid = np.array(list(itertools.product([-1.2, 0.3, 1.7], [-0.9, 0.5, 2.1], [-1.0, 0.6])))
  depth = 8
  init = jax.jit(jax.vmap(lambda x, c: s_.init_state(x, c), in_axes=(0, None)))
  upd = jax.jit(jax.vmap(lambda x, st, c: tuple(s_.update(x, st, c)), in_axes=(0, 0, None)))
  def f(x0, c):
    p, st = jnp.asarray(x0), init(x0, c)
    N = len(x0)
    out = [(p, st.grad, st.value, jnp.zeros(N), jnp.zeros(N, bool))]
    for _ in range(depth):
      p, st = upd(p, st, c)
      out.append((p, st.grad, st.value, st.stepsize, getattr(st, "failed_linesearch", jnp.zeros(N, bool))))
    return [jnp.stack([jnp.asarray(o[i]) for o in out], axis=1) for i in range(5)]
  vg = jax.vmap(jax.value_and_grad(obj), in_axes=(0, None))
  for c in (1.0, 10.0):
    P, G, V, T, F = [np.asarray(a) for a in f(grid, c)]
    for n in range(len(grid)):
      v, g = vg(P[n], c)
      R.close(f"c={c} start={grid[n].tolist()} value", V[n], v, tol=1e-9); R.close(f"c={c} start={grid[n].tolist()} grad", G[n], g, tol=1e-9)
      H = np.eye(3); pairs = []; gamma = 1.0
      for k in range(depth):
        if np.linalg.norm(G[n, k]) < 1e-5: break
        if solver == "LBFGS":
          H = gamma * np.eye(3)
          for s, y in pairs[-m:]: H = bfgs_inv(H, s, y)
        d = -H @ G[n, k]
        want = P[n, k] + T[n, k + 1] * d
        R.check(np.abs(P[n, k + 1] - want).max() <= 1e-6 * max(1, np.abs(d).max()), f"c={c} start={grid[n].tolist()} k={k}", f"{P[n, k + 1]} vs {want}")
        s, y = P[n, k + 1] - P[n, k], G[n, k + 1] - G[n, k]
        R.add(states=1, transitions=1)
        if not s.any() or not y.any() or abs(s @ y) < 1e-9: break
        pairs.append((s, y)); gamma = (s @ y) / (y @ y)
        if solver == "BFGS": H = bfgs_inv(H, s, y)
        if ls == "zoom" and not F[n, k + 1] and T[n, k + 1] < 1.0:     # below max_stepsize the strong Wolfe conditions hold
          R.check(s @ y > 0, f"curvature c={c} start={grid[n].tolist()} k={k}", f"{s @ y}")
        if all(a @ b > 0 for a, b in (pairs[:-1][-m:] if solver == "LBFGS" else pairs[:-1])):
          R.check(d @ G[n, k] < 0, f"descent c={c} start={grid[n].tolist()} k={k}", "")
      R.case(); R.outcome(solver, ls, f"m={m}")


def jobs(tier):
  q = tier == "quick"
  D = 5 if q else 6
  out = []
  for m in (1, 2, 3, 4):
    for g in (True, False):
      out.append((f"LBFGS-m{m}-gamma{int(g)}", lbfgs, dict(m=m, pack="vector", use_gamma=g, depth=D, stepsize=0.8)))
  out.append(("LBFGS-callable", lbfgs, dict(m=2, pack="vector", use_gamma=True, depth=D, stepsize="callable")))
  out.append(("LBFGS-m0", lbfgs, dict(m=0, pack="vector", use_gamma=True, depth=3, stepsize=0.8)))
  for p in PACKS:
    if p != "vector":
      out.append((f"LBFGS-{p}", lbfgs, dict(m=2, pack=p, use_gamma=True, depth=D - 1, stepsize=0.8)))
    out.append((f"BFGS-{p}", bfgs, dict(pack=p, depth=D if p == "vector" else D - 1, stepsize=0.8)))
    if p != "vector":
      out.append((f"Broyden-{p}", broyden, dict(m=2, pack=p, gamma=0.7, depth=D - 1, stepsize=0.8)))
      out.append((f"LBFGSB-{p}", lbfgsb, dict(m=2, pack=p, box="unit", use_gamma=True, theta=1.0, depth=D - 1, stepsize=1.0)))
  out.append(("BFGS-callable", bfgs, dict(pack="vector", depth=D - 1, stepsize="callable")))
  for m in (1, 2, 3, 4):
    out.append((f"Broyden-m{m}", broyden, dict(m=m, pack="vector", gamma=1.0 if m % 2 else 0.6, depth=D, stepsize=0.8)))
  out.append(("Broyden-callable", broyden, dict(m=2, pack="vector", gamma=-1.0, depth=D, stepsize="callable")))
  for m in (1, 2, 3):
    for b in BOXES:
      out.append((f"LBFGSB-m{m}-{b}", lbfgsb, dict(m=m, pack="vector", box=b, use_gamma=m != 2, theta=1.0 if m != 3 else 1.7, depth=D - (m == 1), stepsize=1.0 if b != "wide" else "callable")))
  for s in ("LBFGS", "BFGS"):
    for ls in ("zoom", "backtracking", "hager-zhang"):
      for m in ((1, 3) if s == "LBFGS" else (99,)):
        out.insert(0, (f"{s}-{ls}-m{m}", linesearch, dict(solver=s, ls=ls, m=m)))
  return out
