"""P14: bisection, fixed-point iteration, Anderson acceleration (stand-alone and wrapped) and Broyden.

Answers of the user function are supplied by the explorer (a table indexed by the iteration), so whole histories of
function values are enumerated; NumPy transcriptions of the defining formulas are the oracle.
"""
import functools, itertools
import numpy as np

LEVEL = "model_checking"
RULE = "all answer histories over a small alphabet (bisection: every sign/zero pattern incl. both ends; Anderson/fixed point: every sequence of images) and all affine maps of a grid; oracle: NumPy transcription from the definition"
ASSUMPTIONS = ["x64", "fixed-point maps of dimension 2", "bisection without bracket checking is only constrained when the bracket holds a root"]


# ---------------- bisection

BV = [-2.0, -0.5, 0.0, 0.5, 2.0]


def bisect_table(R, depth, check, aux):
  import jax, jax.numpy as jnp
  import jaxopt
  lo, hi = -1.0, 3.0
  def fun(x, a, b, v):
    y = jnp.where(x == lo, a, jnp.where(x == hi, b, v))
    return (y, {"at": x}) if aux else y
  s = jaxopt.Bisection(optimality_fun=fun, lower=lo, upper=hi, check_bracket=check, has_aux=aux, maxiter=50, tol=1e-9)
  ends = list(itertools.product(BV, BV))
  if check:
    for a, b in ends:
      try:
        s.init_state(None, a, b, 0.0); raised = False
      except ValueError:
        raised = True
      R.check(raised == (a * b > 0), f"check ends={a, b}", f"raised={raised}"); R.case()
      R.outcome("bracket check", "rejected" if raised else "accepted")
    return
  ends = [(a, b) for a, b in ends if a * b <= 0]
  V = np.array(list(itertools.product(BV, repeat=depth)))
  init = jax.jit(lambda a, b: s.init_state(None, a, b, 0.0))
  upd = jax.jit(jax.vmap(lambda x, st, v: tuple(s.update(x, st, 0.0, 0.0, v)), in_axes=(0, 0, 0)))
  for a, b in ends:
    st = init(a, b)
    sign = 1 if (a <= 0 and b >= 0) else -1
    key = f"ends={a, b}"
    R.close(f"{key} sign", st.sign, sign); R.close(f"{key} init", [st.low, st.high, st.iter_num, st.num_fun_eval], [lo, hi, 0, 2])
    R.check(np.isinf(st.error), f"{key} error")
    N = len(V)
    st = jax.tree_util.tree_map(lambda x: jnp.tile(jnp.asarray(x), (N,)), st)
    x = jnp.full(N, 99.0)               # the iterate passed in is ignored
    L, H = np.full(N, lo), np.full(N, hi)
    for k in range(depth):
      x, st = upd(x, st, V[:, k])
      mid = 0.5 * (L + H)
      big = sign * V[:, k] > 0
      L, H = np.where(big, L, mid), np.where(big, mid, H)
      tag = lambda i: f"{key} values={V[i, :k + 1].tolist()}"
      R.closes(tag, np.stack([x, st.low, st.high, st.value, st.error, st.num_fun_eval, st.iter_num, st.sign], 1),
               np.stack([mid, L, H, V[:, k], np.abs(V[:, k]), np.full(N, 3.0 + k), np.full(N, k + 1.0), np.full(N, float(sign))], 1), tol=1e-14)
      if aux: R.closes(lambda i: tag(i) + " aux", st.aux["at"], mid, tol=1e-14)
      x = jnp.full(N, -7.0)
      R.add(states=N, transitions=N, traces=N, evals=N)
    R.outcome("bisection table", f"sign={sign}", n=N)


def bisect_real(R, check):
  """Monotone functions with the root at every grid position (both ends included)."""
  import jax, jax.numpy as jnp
  import jaxopt
  forms = {"linear": lambda d: d, "cubic": lambda d: d ** 3 + 0.1 * d, "flat": lambda d: jnp.sign(d) * jnp.abs(d) ** 3, "steep": lambda d: 50.0 * jnp.tanh(5 * d), "asym": lambda d: jnp.expm1(d)}
  for fname, g in forms.items():
    def fun(x, r, s_): return s_ * g(x - r)
    def make(lo, hi, k, tol): return jaxopt.Bisection(optimality_fun=fun, lower=lo, upper=hi, check_bracket=check, maxiter=k, tol=tol)
    brackets = ((-1.0, 3.0), (0.0, 1.0), (-5.0, -4.0), (2.0, 2.5))
    runs = []                                 # (tag, sign, lo, hi, k, tol, root)
    if check:
      for s_, (lo, hi), k in ((1, brackets[0], 12), (-1, brackets[2], 5)):
        runs += [(s_, lo, hi, k, 0.0, lo + (hi - lo) * j / 4) for j in range(5)]
      res = []
      for s_, lo, hi, k, tol, r in runs:
        p, st = make(lo, hi, k, tol).run(None, r, s_); res.append([p, st.error, st.iter_num, st.low, st.high])
      res = np.array(res, float)
    else:
      runs = [(s_, lo, hi, k, tol, lo + (hi - lo) * j / 16) for s_ in (1, -1) for lo, hi in brackets for k, tol in ((1, 0.0), (2, 0.0), (5, 0.0), (12, 0.0), (40, 0.0), (60, 1e-1), (60, 1e-4)) for j in range(17)]
      def one(s_, lo, hi, k, tol, r):
        p, st = make(lo, hi, k, tol).run(None, r, s_); return jnp.stack([p, st.error, st.iter_num, st.low, st.high])
      cols = [jnp.array(c) for c in zip(*runs)]
      res = np.asarray(jax.jit(jax.vmap(one))(*cols))
    for (s_, lo, hi, k, tol, r), (P, E, n, low, high) in zip(runs, res):
      tag = f"{fname} sign={s_} [{lo},{hi}] k={k} tol={tol} root={r}"
      R.check(abs(P - r) <= (hi - lo) / 2.0 ** n + 1e-12, tag, f"{P} after {n} updates")     # the midpoint after j updates is within (hi-lo)/2^j of the root
      R.check(low - 1e-12 <= r <= high + 1e-12 or E == 0, f"{tag} bracket", f"[{low}, {high}]")
      R.check(high - low <= (hi - lo) / 2.0 ** n + 1e-12, f"{tag} halving", f"[{low}, {high}]")
      if tol == 0.0: R.check(n == k or E == 0, f"{tag} count", str(n))
      else: R.check(E <= tol, f"{tag} reached", str(E))
    if not check:
      V = np.asarray(jax.jit(jax.vmap(fun))(jnp.asarray(res[:, 0]), cols[5], cols[0]))
      R.closes(lambda i: f"{fname} {runs[i]} error", res[:, 1], np.abs(V), tol=1e-12)
    R.case(len(runs)); R.outcome("bisection", fname, n=len(runs))
  # roots that rounding puts just outside of the bracket (unchecked only)
  if not check:
    for s_ in (1, -1):
      for off in (1e-15, 1e-12):
        for end, r in (("low", -off), ("high", 1 + off)):
          s = jaxopt.Bisection(optimality_fun=lambda x, r: s_ * (x - r), lower=0.0, upper=1.0, check_bracket=False, maxiter=45, tol=0.0)
          p, st = s.run(None, r)
          R.close(f"outside {end} sign={s_} off={off}", p, 0.0 if end == "low" else 1.0, tol=1e-9); R.case()


# ---------------- packings

def pack2(kind):
  import jax.numpy as jnp
  if kind == "vector": return lambda v: v, lambda t: t
  if kind == "tree": return (lambda v: {"b": v[..., :1], "a": (v[..., 1],)}), (lambda t: jnp.stack([t["b"][..., 0], t["a"][0]], -1))
  if kind == "matrix": return lambda v: v.reshape(v.shape[:-1] + (1, 2)), lambda t: t.reshape(t.shape[:-2] + (2,))
  raise ValueError(kind)


LET = [np.array(v) for v in ([1.0, 0.0], [-0.5, 2.0], [0.3, 0.3], [0.9, -1.1])]
X0 = np.array([0.2, -0.4])


def and_oracle(hist, ridge, beta):
  """hist: list of (x, r) batched (N,2); returns the extrapolation by the normal equations of the constrained problem."""
  X = np.stack([h[0] for h in hist], 1); G = np.stack([h[1] for h in hist], 1)       # N, m, n
  m = X.shape[1]
  gram = np.einsum("bin,bjn->bij", G, G) + ridge * np.eye(m)
  a = np.linalg.solve(gram, np.ones((len(gram), m, 1)))[..., 0]
  a /= a.sum(1, keepdims=True)          # min a'Ga s.t. sum a = 1
  return np.einsum("bi,bin->bn", a, X + beta * G)


def anderson(R, m, mix, beta, pack, depth, aux=False):
  import jax, jax.numpy as jnp
  import jaxopt
  pk, un = pack2(pack)
  ridge = 1e-2
  fun = (lambda x, v: (pk(v), {"at": un(x)})) if aux else (lambda x, v: pk(v))
  s = jaxopt.AndersonAcceleration(fixed_point_fun=fun, history_size=m, mixing_frequency=mix, beta=beta, ridge=ridge, has_aux=aux, maxiter=99, tol=1e-9)
  Sq = np.array(list(itertools.product(range(len(LET)), repeat=depth)))
  V = np.array(LET)[Sq]                                     # N, depth, 2
  N = len(V)
  st = jax.jit(jax.vmap(lambda v: s.init_state(pk(jnp.asarray(X0)), v)))(V[:, 0])
  upd = jax.jit(jax.vmap(lambda x, st, v: tuple(s.update(x, st, v))))
  x = jax.vmap(pk)(jnp.tile(X0, (N, 1))); xo = np.tile(X0, (N, 1)); hist = []; ok = np.ones(N, bool)
  for k in range(depth):
    x, st = upd(x, st, V[:, k])
    if k >= m and k % mix == 0:
      ext = and_oracle(hist[-m:], ridge, beta)
      R.outcome("Anderson", f"m={m} mix={mix}", "extrapolated", n=N)
    else:
      ext = xo
    res = V[:, k] - ext
    tag = lambda i: f"images={Sq[i, :k + 1].tolist()}"
    R.closes(lambda i: tag(i) + " params", jax.vmap(un)(x), V[:, k], tol=1e-9)
    R.closes(lambda i: tag(i) + " error", st.error, np.linalg.norm(res, axis=1), tol=1e-7)
    if aux: R.closes(lambda i: tag(i) + " aux", st.aux["at"], ext, tol=1e-7)
    R.check((np.asarray(st.iter_num) == k + 1).all() and (np.asarray(st.num_fun_eval) == k + 2).all(), f"k={k} counters")
    # the whole memory: slots of the last m iterations
    xh, rh = jax.vmap(un)(st.params_history), jax.vmap(un)(st.residuals_history)
    hist.append((ext, res))
    for j in range(max(0, k - m + 1), k + 1):
      R.closes(lambda i: tag(i) + f" history {j}", np.concatenate([xh[:, j % m], rh[:, j % m]], 1), np.concatenate(hist[j], 1), tol=1e-7)
    xo = V[:, k]
    R.add(states=N, transitions=N, traces=N, evals=N)
  R.sample(f"m={m} mix={mix} beta={beta}: {N} image sequences of length {depth}")


def affine_maps():
  E = (-0.8, 0.0, 0.5)
  out = []
  for e in itertools.product(E, repeat=4):
    M = np.array(e).reshape(2, 2)
    if np.linalg.norm(M, 2) <= 0.9: out.append(M)
  return np.array(out)


def anderson_affine(R, pack):
  """Every affine contraction of the grid: the fixed point is reached; iterates follow the definition."""
  import jax, jax.numpy as jnp
  import jaxopt
  pk, un = pack2(pack)
  Ms = affine_maps(); c = np.array([1.0, -2.0])
  FP = np.linalg.solve(np.eye(2) - Ms, c)
  for m, mix, beta, ridge in ((2, 1, 1.0, 1e-10), (3, 1, 1.0, 1e-8), (5, 3, 0.5, 1e-6), (4, 4, 1.0, 1e-8)):
    s = jaxopt.AndersonAcceleration(fixed_point_fun=lambda x, M: pk(M @ un(x) + c), history_size=m, mixing_frequency=mix, beta=beta, ridge=ridge, maxiter=200, tol=1e-7)
    p, st = jax.jit(jax.vmap(lambda M: tuple(s.run(pk(jnp.asarray(X0)), M))))(Ms)
    R.check((np.asarray(st.error) <= 1e-7).all(), f"m={m} mix={mix} converged", f"{np.asarray(st.iter_num).max()} {np.asarray(st.error).max()}")
    R.closes(lambda i: f"m={m} mix={mix} M={Ms[i].ravel().tolist()}", jax.vmap(un)(p), FP, tol=1e-5)
    R.case(len(Ms)); R.outcome("Anderson affine", f"m={m} mix={mix}", n=len(Ms))
  s = jaxopt.FixedPointIteration(fixed_point_fun=lambda x, M: pk(M @ un(x) + c), maxiter=400, tol=1e-7)
  p, st = jax.jit(jax.vmap(lambda M: tuple(s.run(pk(jnp.asarray(X0)), M))))(Ms)
  R.closes(lambda i: f"FixedPointIteration M={Ms[i].ravel().tolist()}", jax.vmap(un)(p), FP, tol=1e-5); R.case(len(Ms))
  x, n = np.tile(X0, (len(Ms), 1)), np.zeros(len(Ms)); live = np.ones(len(Ms), bool)
  for k in range(400):
    y = np.einsum("bij,bj->bi", Ms, x) + c
    n[live] += 1; e = np.linalg.norm(y - x, axis=1); x = np.where(live[:, None], y, x); live &= e > 1e-7
  R.closes(lambda i: f"FixedPointIteration M={Ms[i].ravel().tolist()} iter_num", st.iter_num, n); R.closes(lambda i: f"FixedPointIteration M={Ms[i].ravel().tolist()} last", jax.vmap(un)(p), x, tol=1e-9)


def fixed_point(R, pack, aux):
  import jax, jax.numpy as jnp
  import jaxopt
  pk, un = pack2(pack)
  fun = (lambda x, v: (pk(v), {"at": un(x)})) if aux else (lambda x, v: pk(v))
  s = jaxopt.FixedPointIteration(fixed_point_fun=fun, has_aux=aux, maxiter=99, tol=1e-9)
  depth = 5
  Sq = np.array(list(itertools.product(range(len(LET)), repeat=depth))); V = np.array(LET)[Sq]; N = len(V)
  st = jax.vmap(lambda v: s.init_state(pk(jnp.asarray(X0)), v))(V[:, 0])
  upd = jax.jit(jax.vmap(lambda x, st, v: tuple(s.update(x, st, v))))
  x = jax.vmap(pk)(jnp.tile(X0, (N, 1))); xo = np.tile(X0, (N, 1))
  for k in range(depth):
    if k == 0: st = st._replace(aux={"at": jnp.zeros((N, 2))}) if aux else st
    x, st = upd(x, st, V[:, k])
    tag = lambda i: f"images={Sq[i, :k + 1].tolist()}"
    R.closes(lambda i: tag(i) + " params", jax.vmap(un)(x), V[:, k]); R.closes(lambda i: tag(i) + " error", st.error, np.linalg.norm(V[:, k] - xo, axis=1))
    if aux: R.closes(lambda i: tag(i) + " aux", st.aux["at"], xo)
    R.check((np.asarray(st.iter_num) == k + 1).all() and (np.asarray(st.num_fun_eval) == k + 1).all(), f"k={k} counters")
    xo = V[:, k]; R.add(states=N, transitions=N, traces=N, evals=N)
  R.outcome("FixedPointIteration", pack, n=N)


def wrapper(R, inner, m, mix, beta, depth):
  """Anderson around another solver: the inner solver's own update is the fixed-point map, restarted at every extrapolation."""
  import jax, jax.numpy as jnp
  import jaxopt
  from jaxopt import prox, objective
  A = jnp.array([[3.0, 0.5], [0.5, 1.0]])
  f = lambda x, t: 0.5 * x @ A @ x - t @ x + 0.5 * jnp.sum(jnp.log(jnp.cosh(x - 0.3 * t)))
  if inner == "gd": so = jaxopt.GradientDescent(fun=f, stepsize=0.2, acceleration=False, maxiter=60, tol=1e-4); args = lambda t: (t,)
  if inner == "fista": so = jaxopt.GradientDescent(fun=f, acceleration=True, maxiter=60, tol=1e-4); args = lambda t: (t,)
  if inner == "prox": so = jaxopt.ProximalGradient(fun=f, prox=prox.prox_lasso, stepsize=0.2, maxiter=60, tol=1e-4); args = lambda t: (0.3, t)
  if inner == "cg": so = jaxopt.NonlinearCG(fun=f, linesearch="backtracking", maxiter=60, tol=1e-4); args = lambda t: (t,)
  if inner == "bcd":
    D = jnp.array([[1.0, 0.2], [0.3, 2.0], [-0.5, 1.0]])
    so = jaxopt.BlockCoordinateDescent(fun=objective.least_squares, block_prox=prox.prox_lasso, maxiter=60, tol=1e-4)
    args = lambda t: (0.1, (D, jnp.array([t[0], t[1], t[0] - t[1]])))
  ridge = 1e-3
  s = jaxopt.AndersonWrapper(so, history_size=m, mixing_frequency=mix, beta=beta, ridge=ridge)
  X = np.array(list(itertools.product([-2.0, 0.0, 1.5], [-1.0, 0.7, 3.0]))); T = np.array([[1.0, 2.0], [-1.0, 0.5], [0.0, 3.0]])
  X, T = np.repeat(X, len(T), 0), np.tile(T, (len(X), 1))
  initS = jax.jit(jax.vmap(lambda x, t: so.init_state(x, *args(t)))); updS = jax.jit(jax.vmap(lambda x, st, t: tuple(so.update(x, st, *args(t)))))
  st = jax.jit(jax.vmap(lambda x, t: s.init_state(x, *args(t))))(X, T); upd = jax.jit(jax.vmap(lambda x, st, t: tuple(s.update(x, st, *args(t)))))
  x, xo, ist, hist = X, X, initS(X, T), []
  freq = mix or m
  for k in range(depth):
    x, st = upd(x, st, T)
    if k >= m and k % freq == 0:
      ext = and_oracle(hist[-m:], ridge, beta); ist = initS(ext, T); R.outcome("wrapper", inner, "extrapolated", n=len(X))
    else:
      ext = xo
    nxt, ist = updS(ext, ist, T); nxt = np.asarray(nxt)
    tag = lambda i: f"start={X[i].tolist()} theta={T[i].tolist()} k={k}"
    R.closes(lambda i: tag(i) + " params", x, nxt, tol=1e-6); R.closes(lambda i: tag(i) + " error", st.error, ist.error, tol=1e-6)
    R.check((np.asarray(st.iter_num) == k + 1).all(), f"k={k} iter_num")
    hist.append((np.asarray(ext), nxt - ext)); xo = nxt
    R.add(states=len(X), transitions=len(X), traces=len(X), evals=len(X))
  p, rs = jax.jit(jax.vmap(lambda x, t: tuple(s.run(x, *args(t)))))(X, T)
  R.check((np.asarray(rs.iter_num) <= 60).all(), "maxiter")
  okc = np.asarray(rs.error) <= 1e-4
  R.outcome("wrapper run", inner, "converged", n=int(okc.sum())); R.outcome("wrapper run", inner, "stopped at maxiter", n=int((~okc).sum()))
  R.check((okc | (np.asarray(rs.iter_num) == 60)).all(), "stopped early")
  opt = jax.vmap(lambda p, t: so.optimality_fun(p, *args(t)))(p, T)
  lim = 5e-3
  for i in np.where(okc)[0]: R.check(np.abs(np.asarray(opt[i])).max() <= lim, f"start={X[i].tolist()} theta={T[i].tolist()} optimal", str(opt[i]))
  R.case(len(X))


def broyden_real(R, pack, m):
  """Broyden with its line search: the state describes the returned point, |f| decreases unless the search fails, roots are roots."""
  import jax, jax.numpy as jnp
  import jaxopt
  pk, un = pack2(pack)
  funs = {
      "affine": lambda x, c: jnp.array([[2.0, 1.0], [-0.5, 1.5]]) @ x - c,
      "tanh": lambda x, c: x + 0.5 * jnp.tanh(jnp.array([[0.6, -0.5], [0.7, 0.4]]) @ x) - c,
      "cubic": lambda x, c: x + 0.3 * x ** 3 - 0.2 * x[::-1] - c,
  }
  X = np.array(list(itertools.product([-2.0, -0.3, 0.4, 2.0], [-1.5, 0.1, 1.0, 2.5]))); c = np.array([0.7, -0.4])
  for fn, f in funs.items():
    s = jaxopt.Broyden(fun=lambda t, c: (pk(f(un(t), c)), {"at": un(t)}), has_aux=True, history_size=m, maxiter=60, tol=1e-8)
    st = jax.jit(jax.vmap(lambda x: s.init_state(pk(x), c)))(X); upd = jax.jit(jax.vmap(lambda x, st: tuple(s.update(x, st, c))))
    fv = lambda x: np.asarray(jax.vmap(f, in_axes=(0, None))(jnp.asarray(x), c))
    x = jax.vmap(pk)(X); v0 = fv(X); xo = X
    for k in range(8):
      x, st = upd(x, st); xv = np.asarray(jax.vmap(un)(x)); v = fv(xv)
      tag = lambda i: f"{fn} start={X[i].tolist()} k={k}"
      R.closes(lambda i: tag(i) + " value", jax.vmap(un)(st.value), v, tol=1e-9); R.closes(lambda i: tag(i) + " error", st.error, np.linalg.norm(v, axis=1), tol=1e-9)
      R.closes(lambda i: tag(i) + " aux", st.aux["at"], xv, tol=1e-12)
      n0, n1 = np.linalg.norm(v0, axis=1), np.linalg.norm(v, axis=1)
      for i in np.where(~np.asarray(st.failed_linesearch))[0]:
        # the line search's own slack (tol=1e-2 on the merit ||f||^2) bounds what an accepted step can lose
        R.check(n1[i] ** 2 <= n0[i] ** 2 + 1e-2 * max(1.0, n0[i] ** 2) + 1e-9, tag(i) + " norm", f"{n0[i]} -> {n1[i]}")
      v0 = v; R.add(states=len(X), transitions=len(X), traces=len(X), evals=len(X))
    p, st = jax.jit(jax.vmap(lambda x: tuple(s.run(pk(x), c))))(X)
    e = np.linalg.norm(fv(jax.vmap(un)(p)), axis=1)
    ok = np.asarray(st.error) <= 1e-8
    R.closes(lambda i: f"{fn} start={X[i].tolist()} final", e, np.asarray(st.error), tol=1e-9)
    R.check(ok.mean() > 0.8 or m < 5, f"{fn} converged", f"{ok.mean()} {np.asarray(st.error)}")
    R.outcome("Broyden", fn, "root found", n=int(ok.sum())); R.outcome("Broyden", fn, "not converged", n=int((~ok).sum())); R.case(len(X))


def jobs(tier):
  deep = tier == "thorough"
  out = []
  for a in (False, True):
    out.append((f"bisect-table-aux{int(a)}", bisect_table, dict(depth=6 if deep else 5, check=False, aux=a)))
    out.append((f"bisect-check-aux{int(a)}", bisect_table, dict(depth=0, check=True, aux=a)))
  out = [("bisect-real", bisect_real, dict(check=False)), ("bisect-real-checked", bisect_real, dict(check=True))] + out
  D = 8 if deep else 6
  for m in (2, 3, 4):
    for mix in (1, 2, 3):
      for beta in ((1.0, 0.3, -0.5) if deep else (1.0, 0.3)):
        out.append((f"anderson-m{m}-mix{mix}-beta{beta}", anderson, dict(m=m, mix=mix, beta=beta, pack="vector", depth=D if m < 4 or deep else 7)))
  for p in ("tree", "matrix"):
    out.append((f"anderson-{p}", anderson, dict(m=2, mix=1, beta=0.7, pack=p, depth=5, aux=True)))
    out.append((f"fixed-{p}", fixed_point, dict(pack=p, aux=p == "tree")))
  for p in ("vector", "tree"):
    out.append((f"affine-{p}", anderson_affine, dict(pack=p)))
  for inner in ("gd", "fista", "prox", "cg", "bcd"):
    for m, mix, beta in (((2, 1, 1.0), (3, None, 0.5)) if not deep else ((2, 1, 1.0), (3, None, 0.5), (3, 2, 1.0), (5, 1, -0.3))):
      out.append((f"wrapper-{inner}-m{m}", wrapper, dict(inner=inner, m=m, mix=mix, beta=beta, depth=16 if deep else 9)) if not deep else
                 (f"wrapper-{inner}-m{m}-{mix}-{beta}", wrapper, dict(inner=inner, m=m, mix=mix, beta=beta, depth=16)))
  for p, m in (("vector", 10), ("tree", 10), ("vector", 2)):
    out.append((f"broyden-{p}-m{m}", broyden_real, dict(pack=p, m=m)))
  return out
