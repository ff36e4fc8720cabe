"""P07: losses and ready-made objectives equal their definitions on full grids of labels x scores (ties, kinks, extreme magnitudes).

Oracle: the formulas of the documentation in NumPy float64; gradients by their analytic form where differentiable, and the
subgradient inequality against EVERY other point of the grid at every point (kinks included).
"""
import itertools
import numpy as np
from mc.ops import long_family, grid, fmt

LEVEL = "model_checking"
RULE = ("every label x every score of a grid with ties, kinks, +-1e3, +-1e8, +-1e300 (float64) / +-1e30 (float32); every objective x every "
        "small integer design matrix x parameters x labels; all pairs of grid points for the subgradient inequality")
ASSUMPTIONS = ["scores finite, except -inf for classes other than the label in the multiclass logistic loss"]

B = (-1e300, -1e8, -1e3, -40.0, -3.0, -1.5, -1.0, -0.5, -1e-9, 0.0, 1e-9, 0.25, 0.5, 1.0, 1.0 + 1e-12, 2.0, 3.5, 40.0, 1e3, 1e8, 1e300)


def n_softplus(x):
  return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


def n_sigmoid(x):
  e = np.exp(-np.abs(x))
  return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


def n_splus(x):
  with np.errstate(all="ignore"):
    return np.where(x <= -1, 0.0, np.where(x >= 1, x, (np.clip(x, -1, 1) + 1) ** 2 / 4))


def n_ssig(x):
  return np.clip((x + 1) / 2, 0, 1)


def n_simplex(s):
  """Exact projection on the probability simplex by enumerating supports (float64)."""
  s = np.maximum(s - s.max(), -3.0); n = len(s)     # more than 1 below the maximum is never in the support
  best, bd = None, np.inf
  for m in itertools.product([0, 1], repeat=n):
    m = np.array(m, bool)
    if not m.any():
      continue
    p = np.zeros(n); p[m] = s[m] + (1 - s[m].sum()) / m.sum()
    if (p < -1e-12).any():
      continue
    d = ((p - s) ** 2).sum()
    if d < bd:
      best, bd = p, d
  return best


def sub_all(R, label, S, val, grd, scale):
  """f(z) >= f(x) + <g, z - x> for all pairs."""
  for i in range(len(S)):
    lin = val[i] + (S - S[i]) @ grd[i]
    sc = 1e-9 * (1 + np.abs(val) + np.abs(val[i]) + np.abs((S - S[i]) * grd[i]).sum(1)) * scale
    with np.errstate(all="ignore"):
      bad = np.nonzero(~(val >= lin - sc))[0]
    for j in bad[:3]:
      R.violation(f"{label} subgradient x={fmt(S[i])} z={fmt(S[j])}", f"f(z)={val[j]} < f(x)+<g,z-x>={lin[j]} g={fmt(grd[i])}")
  R.case(len(S) * len(S)); R.outcome(label, "subgradient pairs", n=len(S) ** 2)


def binary(R):
  import jax, jax.numpy as jnp
  from jaxopt import loss
  S = np.array(B)
  defs = dict(
      binary_logistic_loss=(lambda y, s: n_softplus(np.where(y, -s, s)), lambda y, s: np.where(y, -n_sigmoid(-s), n_sigmoid(s))),
      binary_sparsemax_loss=(lambda y, s: n_splus(np.where(y, -s, s)), lambda y, s: np.where(y, -n_ssig(-s), n_ssig(s))),
      binary_hinge_loss=(lambda y, s: np.maximum(0, 1 - s * (2 * y - 1)), None),
      binary_perceptron_loss=(lambda y, s: np.maximum(0, -s * (2 * y - 1)), None))
  for name, (val, grd) in defs.items():
    f = getattr(loss, name)
    for y in (0, 1):
      for form, lab in (("int", y), ("array", jnp.asarray(y)), ("float", float(y))) + ((("bool", bool(y)),) if "istic" in name or "sparsemax" in name else ()):
        for dt in (np.float64, np.float32):
          s = S if dt is np.float64 else np.clip(S, -1e30, 1e30).astype(dt)
          tol = 1e-12 if dt is np.float64 else 1e-6
          w = val(y, s.astype(float))
          v, g = jax.vmap(jax.value_and_grad(f, argnums=1), (None, 0))(lab, jnp.asarray(s))
          R.closes(lambda i: f"{name} y={y} {form} {dt.__name__} s={s[i]}", np.asarray(v), w, tol=tol)
          R.check((np.asarray(v) >= 0).all(), f"{name} y={y} nonnegative {dt.__name__}", fmt(v))
          R.check(v.dtype == dt, f"{name} y={y} {form} dtype {dt.__name__}", str(v.dtype))
          if grd is not None:
            R.closes(lambda i: f"{name} gradient y={y} {form} {dt.__name__} s={s[i]}", np.asarray(g), grd(y, s.astype(float)), tol=tol * 10)
          if dt is np.float64:
            m = np.abs(s) <= 1e8
            sub_all(R, f"{name} y={y}", s[m][:, None], w[m], np.asarray(g)[m][:, None], 1.0)
          R.case(len(s)); R.outcome(name, dt.__name__, n=len(s))
      for s in S:  # eager
        R.close(f"{name} eager y={y} s={s}", f(y, s), val(y, s), tol=1e-12); R.case()
  for name, val, grd in (("sparse_plus", n_splus, n_ssig), ("sparse_sigmoid", n_ssig, lambda s: np.where(np.abs(s) < 1, 0.5, 0.0))):
    f = getattr(loss, name)
    v, g = jax.vmap(jax.value_and_grad(f))(jnp.asarray(S))
    R.closes(lambda i: f"{name} s={S[i]}", np.asarray(v), val(S), tol=1e-12)
    ok = (np.abs(np.abs(S) - 1) > 1e-6) | (name == "sparse_plus")
    R.closes(lambda i: f"{name} derivative s={S[ok][i]}", np.asarray(g)[ok], grd(S)[ok], tol=1e-12)
    arr = np.asarray(f(jnp.asarray(S).reshape(3, 7)))
    R.close(f"{name} on a matrix", arr, val(S).reshape(3, 7), tol=1e-12)
    R.case(2 * len(S)); R.outcome(name, n=len(S))
  # binary == multiclass with scores (0, s)
  for bn, mn in (("binary_logistic_loss", "multiclass_logistic_loss"), ("binary_sparsemax_loss", "multiclass_sparsemax_loss"), ("binary_perceptron_loss", "multiclass_perceptron_loss")):
    for y in (0, 1):
      for s in S[np.abs(S) <= 1e8]:
        R.close(f"{bn} == {mn} y={y} s={s}", getattr(loss, mn)(y, jnp.array([0.0, s])), getattr(loss, bn)(y, s), tol=1e-7)
        R.case()


def huber(R):
  import jax, jax.numpy as jnp
  from jaxopt import loss
  V = (-1e150, -1e3, -2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 1.5, 1e3, 1e150)
  D = (0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 1e3)
  pts = np.array(list(itertools.product(V, V, D)))
  t, p, d = pts.T
  r = p - t
  with np.errstate(all="ignore"):
    want = np.where(np.abs(r) <= d, 0.5 * r * r, d * (np.abs(r) - 0.5 * d))
  v, g = jax.vmap(jax.value_and_grad(loss.huber_loss, argnums=1))(*map(jnp.asarray, (t, p, d)))
  gt = jax.vmap(jax.grad(loss.huber_loss, argnums=0))(*map(jnp.asarray, (t, p, d)))
  k = lambda i: f"huber target={t[i]} pred={p[i]} delta={d[i]}"
  R.closes(k, np.asarray(v), want, tol=1e-12)
  R.closes(lambda i: k(i) + " gradient", np.asarray(g), np.clip(r, -d, d), tol=1e-12)
  R.closes(lambda i: k(i) + " gradient in target", np.asarray(gt), -np.clip(r, -d, d), tol=1e-12)
  R.case(3 * len(pts)); R.outcome("huber", n=len(pts))
  for a in V:
    for b in V:
      w = 0.5 * (a - b) ** 2 if abs(a - b) <= 1 else abs(a - b) - 0.5
      R.close(f"huber default delta {a} {b}", loss.huber_loss(a, b), w, tol=1e-12); R.case()


def multiclass(R, n, vals, extreme):
  import jax, jax.numpy as jnp
  from jaxopt import loss
  S = grid(vals, n)
  if extreme:
    S = np.concatenate([S, grid((-1e8, 0.0, 1e3, 1e8), n), grid((-1e300, 0.0, 1e300), n)])
  big = np.abs(S).max(1) > 1e100
  eye = np.eye(n)
  with np.errstate(all="ignore"):
    for y in range(n):
      sh = S - S[:, y:y + 1]; sh[:, y] = 0
      mx = sh.max(1)
      lse = mx + np.log(np.exp(sh - mx[:, None]).sum(1))
      soft = np.exp(sh - mx[:, None]); soft /= soft.sum(1, keepdims=True)
      P = np.array([n_simplex(s) for s in S])
      spm = (P * np.where(P > 0, sh, 0)).sum(1) + 0.5 * (1 - (P * P).sum(1))
      hinge = (sh + 1 - eye[y]).max(1); perc = sh.max(1)
      for name, w, g in (("multiclass_logistic_loss", lse, soft - eye[y]), ("multiclass_sparsemax_loss", spm, P - eye[y]),
                         ("multiclass_hinge_loss", hinge, None), ("multiclass_perceptron_loss", perc, None)):
        f = getattr(loss, name)
        m = ~big if name != "multiclass_logistic_loss" else np.ones(len(S), bool)
        for dt in (np.float64, np.float32):
          md = m & (np.abs(S).max(1) <= (1e301 if dt is np.float64 else (1e31 if "logistic" in name else 1e4)))
          s = S[md].astype(dt)
          tol = dict(multiclass_logistic_loss=1e-11).get(name, 1e-7 if extreme else 1e-11) if dt is np.float64 else 2e-5
          for form, lab in (("int", y), ("array", jnp.asarray(y))):
            v, gr = jax.jit(jax.vmap(jax.value_and_grad(f, argnums=1), (None, 0)))(lab, jnp.asarray(s))
            v, gr = np.asarray(v), np.asarray(gr)
            key = lambda i: f"{name} y={y} {form} {dt.__name__} s={fmt(s[i])}"
            scale = 1.0 if extreme and dt is np.float64 else 1.0
            R.closes(key, v, w[md], tol=tol * scale)
            R.check((v >= -1e-6 * (1 + np.abs(s).max())).all() and (np.isfinite(v)).all(), f"{name} y={y} {dt.__name__} finite and nonnegative", fmt(v.min()))
            if g is not None:
              gok = np.abs(s).max(1) <= 1e4 if dt is np.float32 else np.ones(len(s), bool)
              R.closes(lambda i: f"gradient {name} y={y} {form} {dt.__name__} s={fmt(s[gok][i])}", gr[gok], g[md][gok], tol=max(tol, 1e-9))
            R.check(np.isfinite(gr).all(), f"{name} y={y} {dt.__name__} gradient finite", "")
            R.case(2 * len(s)); R.outcome(name, dt.__name__, n=len(s))
          if dt is np.float64:
            k = np.abs(s).max(1) <= 100
            sub_all(R, f"{name} y={y}", s[k], w[md][k], gr[k], 1.0)
      # -inf score for another class
      for j in range(n):
        if j != y:
          s = np.array([0.5, -1.0, 2.0, 1.0][:n]); s[j] = -np.inf
          keep = [i for i in range(n) if i != j]
          d = s[keep] - s[y]
          v, gr = jax.value_and_grad(loss.multiclass_logistic_loss, argnums=1)(y, jnp.asarray(s))
          R.close(f"logistic with -inf score y={y} j={j}", v, np.log(np.exp(d).sum()), tol=1e-12)
          want = np.zeros(n); want[keep] = np.exp(d) / np.exp(d).sum(); want[y] -= 1
          R.close(f"logistic gradient with -inf score y={y} j={j}", gr, want, tol=1e-12); R.case(2)
  # shift invariance and Fenchel-Young forms
  from jax.scipy.special import logsumexp
  fy = loss.make_fenchel_young_loss(lambda s, scale=1.0, shift=0.0: scale * logsumexp(s) + shift)
  for s in S[np.abs(S).max(1) <= 100][:80]:
    for y in range(n):
      v, g = jax.value_and_grad(fy, argnums=1)(jnp.eye(n)[y], jnp.asarray(s), 2.0, shift=0.5)
      mx = s.max(); L = mx + np.log(np.exp(s - mx).sum())
      R.close(f"fenchel_young y={y} s={fmt(s)}", v, 2 * L + .5 - s[y], tol=1e-11)
      R.close(f"fenchel_young gradient y={y} s={fmt(s)}", g, 2 * np.exp(s - L) - eye[y], tol=1e-11)
      R.case(2)
  R.outcome("fenchel_young")


def long(R, n):
  """Many classes: structured families of scores x labels, against formulas written with NumPy (the simplex by sorting, itself compared with the enumeration)."""
  import jax, jax.numpy as jnp
  from jaxopt import loss
  def simplex(S):
    T = -np.sort(-S, axis=1); th = (np.cumsum(T, axis=1) - 1) / np.arange(1, S.shape[1] + 1)
    return np.maximum(S - th[np.arange(len(S)), (T > th).sum(1) - 1][:, None], 0)
  G = grid((-1.0, 0.0, 0.4, 2.0), 4)
  R.closes(lambda i: f"reference s={fmt(G[i])}", simplex(G), np.array([n_simplex(s) for s in G]), tol=1e-12)
  S = long_family(n); S = np.concatenate([S, 0.1 * S[::2], 30 * S[::5]]); eye = np.eye(n)
  lse = S.max(1) + np.log(np.exp(S - S.max(1, keepdims=True)).sum(1)); P = simplex(S); spm = (P * S).sum(1) + 0.5 * (1 - (P * P).sum(1))
  soft = np.exp(S - lse[:, None])
  fns = {k: jax.jit(jax.vmap(jax.value_and_grad(getattr(loss, k), argnums=1), (None, 0))) for k in
         ("multiclass_logistic_loss", "multiclass_sparsemax_loss", "multiclass_hinge_loss", "multiclass_perceptron_loss")}
  for y in sorted({0, 1, n // 2, n - 2, n - 1}):
    sy = S[:, y]
    for k, w, g in (("multiclass_logistic_loss", lse - sy, soft - eye[y]), ("multiclass_sparsemax_loss", spm - sy, P - eye[y]),
                    ("multiclass_hinge_loss", (S + 1 - eye[y]).max(1) - sy, None), ("multiclass_perceptron_loss", S.max(1) - sy, None)):
      v, gr = map(np.asarray, fns[k](jnp.asarray(y), jnp.asarray(S)))
      R.closes(lambda i: f"{k} y={y} s={fmt(S[i])}", v, w, tol=1e-11)
      if g is not None: R.closes(lambda i: f"gradient {k} y={y} s={fmt(S[i])}", gr, g, tol=1e-11)
      R.case(len(S)); R.outcome("many classes", k, n, n=len(S))
    sub_all(R, f"perceptron n={n} y={y}", S[::4], (S.max(1) - sy)[::4], np.asarray(fns["multiclass_perceptron_loss"](jnp.asarray(y), jnp.asarray(S[::4]))[1]), 1.0)
    sub_all(R, f"hinge n={n} y={y}", S[::4], ((S + 1 - eye[y]).max(1) - sy)[::4], np.asarray(fns["multiclass_hinge_loss"](jnp.asarray(y), jnp.asarray(S[::4]))[1]), 1.0)


def labels(R):
  """A label of any integer type (and NumPy scalars, batches) gives the loss and gradient of the same Python integer."""
  import jax, jax.numpy as jnp
  from jaxopt import loss
  dts = (np.uint8, np.int8, np.uint16, np.int32, np.uint32, np.int64, np.uint64)
  S = np.array([-1e3, -2.5, -1.0, -0.3, 0.0, 0.7, 1.0, 1.9, 1e3])
  def one(name, f, ys, s, extra):
    for y in ys:
      w, wg = jax.jit(jax.vmap(jax.value_and_grad(f, argnums=1), (None, 0)), static_argnums=0)(y, jnp.asarray(s))
      for dt in dts + extra:
        lab = dt(y)
        for form, l in (("numpy scalar", lab), ("array", jnp.asarray(lab))):
          if form == "numpy scalar":
            v = np.array([f(l, t) for t in jnp.asarray(s)]); g = None
          else:
            v, g = jax.jit(jax.vmap(jax.value_and_grad(f, argnums=1), (None, 0)))(l, jnp.asarray(s))
          R.closes(lambda i: f"{name} label {np.dtype(dt).name}({y}) {form} s={s[i]}", np.asarray(v), np.asarray(w), tol=1e-12)
          if g is not None: R.closes(lambda i: f"{name} gradient label {np.dtype(dt).name}({y}) {form} s={s[i]}", np.asarray(g), np.asarray(wg), tol=1e-12)
          R.case(len(s)); R.outcome("label types", name, n=len(s))
    for dt in dts + extra:                               # a batch of labels
      L = np.array(ys)[np.arange(len(s)) % len(ys)]
      w = jax.vmap(f)(jnp.asarray(L), jnp.asarray(s))
      R.closes(lambda i: f"{name} batch of {np.dtype(dt).name} labels {i}", np.asarray(jax.vmap(f)(jnp.asarray(L.astype(dt)), jnp.asarray(s))), np.asarray(w), tol=1e-12); R.case(len(s))
  for name in ("binary_logistic_loss", "binary_sparsemax_loss", "binary_hinge_loss", "binary_perceptron_loss"):
    one(name, getattr(loss, name), (0, 1), S, (np.bool_, np.float32, np.float64))
  M = grid((-1.0, 0.5, 2.0), 3)
  for name in ("multiclass_logistic_loss", "multiclass_sparsemax_loss", "multiclass_hinge_loss", "multiclass_perceptron_loss"):
    one(name, getattr(loss, name), (0, 1, 2), M, ())


# ---------------------------------------------------------------------------------------------------------------- objectives
def _lse(s):
  m = s.max(-1, keepdims=True)
  return (m + np.log(np.exp(s - m).sum(-1, keepdims=True)))[..., 0]


def designs(full):
  V = (-1.0, 0.0, 2.0)
  out = [np.array(x).reshape(2, 2) for x in itertools.product(V, repeat=4)]
  out += [np.array(x).reshape(3, 1) for x in itertools.product(V, repeat=3)]
  out += [np.array([[1.0, 2.0, -1.0]]), np.array([[1.0, 0, 2], [0, 1, -1], [2, 2, 0.5], [1, -3, 1]])]
  return out if full else out[::2]


def fd(f, x, h=1e-5):
  g = np.zeros(x.size); b = x.ravel()
  for i in range(x.size):
    e = np.zeros(x.size); e[i] = h
    g[i] = (f((b + e).reshape(x.shape)) - f((b - e).reshape(x.shape))) / (2 * h)
  return g.reshape(x.shape)


def objectives(R, full=True):
  import jax, jax.numpy as jnp
  from jaxopt import objective as O
  jfun = {}

  def J(name, f):
    if name not in jfun:
      jfun[name] = jax.jit(jax.value_and_grad(f))
    return jfun[name]

  def cmp(name, f, x, ref, grad=None, *a):
    v, g = J(name, f)(x, *a)
    R.close(f"{name} {[fmt(l) for l in jax.tree_util.tree_leaves((x, a))]}", v, ref(x), tol=1e-10)
    gr = np.concatenate([np.ravel(l) for l in jax.tree_util.tree_leaves(g)])
    leaves, td = jax.tree_util.tree_flatten(x)
    sizes = np.cumsum([l.size for l in leaves])[:-1]
    flat = np.concatenate([np.ravel(l) for l in leaves])
    un = lambda z: td.unflatten([p.reshape(l.shape) for p, l in zip(np.split(z, sizes), leaves)])
    R.close(f"grad {name} {[fmt(l) for l in jax.tree_util.tree_leaves((x, a))]}", gr, fd(lambda z: ref(un(z)), flat), tol=1e-6)
    R.case(2); R.outcome(name)

  for X in designs(full):
    n, p = X.shape
    W1 = [np.zeros(p), np.arange(1.0, p + 1) * np.array([1, -1, .5])[:p], -2.0 * np.ones(p)]
    ys = [np.arange(n) * 1.0 - 1.0, np.ones(n) * 0.5]
    for w in W1:
      for y in ys:
        ls = lambda w: 0.5 * ((X @ w - y) ** 2).sum() / n
        cmp("least_squares", O.least_squares, w, ls, None, (X, y))
        for l2 in (0.0, 0.5, 2.0):
          cmp("ridge_regression", O.ridge_regression, w, lambda w: ls(w) + .5 * l2 * (w ** 2).sum(), None, l2, (X, y))
      for yb in itertools.product((0, 1), repeat=n):
        yb = np.array(yb)
        if not full and yb[0]: continue
        cmp("binary_logreg", O.binary_logreg, w, lambda w: np.mean([n_softplus(-s if b else s) for s, b in zip(X @ w, yb)]), None, (X, yb))
    k = 3
    Wm = [np.zeros((p, k)), np.arange(p * k).reshape(p, k) * .5 - 1.0, ((-1.0) ** np.arange(p * k)).reshape(p, k) * 3]
    bs = [np.zeros(k), np.array([1.0, -2.0, 0.5])]
    for W in Wm:
      for yc in ([np.arange(n) % k, (np.arange(n) + 2) % k, np.zeros(n, int)]):
        ml = lambda W, b=0.0: np.mean(_lse(X @ W + b) - (X @ W + b)[np.arange(n), yc])
        cmp("multiclass_logreg", O.multiclass_logreg, W, ml, None, (X, yc))
        for l2 in (0.0, 1.5):
          cmp("l2_multiclass_logreg", O.l2_multiclass_logreg, W, lambda W: ml(W) + .5 * l2 * (W ** 2).sum(), None, l2, (X, yc))
        for b in bs:
          cmp("multiclass_logreg_with_intercept", O.multiclass_logreg_with_intercept, (W, b), lambda q: ml(*q), None, (X, yc))
          cmp("l2_multiclass_logreg_with_intercept", O.l2_multiclass_logreg_with_intercept, (W, b), lambda q: ml(*q) + .5 * 1.5 * (q[0] ** 2).sum(), None, 1.5, (X, yc))
    # dual of the multiclass SVM: beta is n x k, Y one-hot
    for yc in itertools.product(range(k), repeat=min(n, 2)):
      Y = np.eye(k)[np.resize(np.array(yc), n)]
      for beta in (np.full((n, k), 1 / 3), Y, np.eye(k)[np.arange(n) % k] * .5 + .5 / 3):
        for l2 in (0.25, 1.0, 3.0):
          ref = lambda be: -np.vdot(be, 1 - Y) + 0.5 / l2 * ((X.T @ (Y - be)) ** 2).sum()
          cmp("multiclass_linear_svm_dual", O.multiclass_linear_svm_dual, beta, ref, None, l2, (X, Y))


def constants(R, full=True):
  """columnwise_lipschitz_const bounds the Hessian of every block (what block coordinate descent relies on), at every grid point."""
  import jax, jax.numpy as jnp
  from jaxopt import objective as O
  H = {}

  def hess(name, f, x, *a):
    if name not in H:
      H[name] = jax.jit(jax.hessian(f))
    return np.asarray(H[name](x, *a))

  for X in designs(full):
    n, p = X.shape
    y = np.arange(n) * 1.0
    cst = np.asarray(O.least_squares.columnwise_lipschitz_const((X, y)))
    h = np.diag(hess("ls", O.least_squares, np.zeros(p), (X, y)))
    R.check((cst >= h - 1e-12).all(), f"least squares X={fmt(X)}", f"{cst} < {h}"); R.case()
    for w in grid((-3.0, 0.0, 1.0), p):
      yb = np.arange(n) % 2
      cst = np.asarray(O.binary_logreg.columnwise_lipschitz_const((X, yb)))
      h = np.diag(hess("bl", O.binary_logreg, w, (X, yb)))
      R.check((cst >= h - 1e-12).all(), f"binary logreg X={fmt(X)} w={fmt(w)}", f"{cst} < {h}"); R.case()
      k = 3
      W = np.outer(w, [1.0, -1.0, 0.25])
      yc = np.arange(n) % k
      cst = np.asarray(O.multiclass_logreg.columnwise_lipschitz_const((X, yc)))
      hb = hess("ml", O.multiclass_logreg, W, (X, yc))
      h = np.array([np.linalg.eigvalsh(hb[i, :, i, :]).max() for i in range(p)])
      R.check((cst >= h - 1e-12).all(), f"multiclass logreg X={fmt(X)} W={fmt(W)}", f"{cst} < {h}"); R.case()
    for l2 in (0.1, 0.25, 1.0, 3.0):
      Y = np.eye(3)[np.arange(n) % 3]
      cst = np.asarray(O.multiclass_linear_svm_dual.columnwise_lipschitz_const(l2, (X, Y)))
      hb = hess("svm", O.multiclass_linear_svm_dual, np.zeros((n, 3)), l2, (X, Y))
      h = np.array([np.linalg.eigvalsh(hb[i, :, i, :]).max() for i in range(n)])
      R.check((cst >= h * (1 - 1e-9) - 1e-12).all(), f"svm dual l2reg={l2} X={fmt(X)}", f"{cst} < {h}"); R.case()
    R.outcome("lipschitz constants", p)


def jobs(tier):
  T = tier == "thorough"
  v3 = (-2.0, -0.5, 0.0, 0.5, 1.0) if not T else (-3.0, -2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 3.0)
  return [("objectives", objectives, dict(full=T)), ("constants", constants, dict(full=True)),
          ("multiclass3", multiclass, dict(n=3, vals=v3, extreme=False)), ("multiclass3x", multiclass, dict(n=3, vals=(0.0, 1.0), extreme=True)),
          ("multiclass2x", multiclass, dict(n=2, vals=B[1:-1], extreme=True)), ("multiclass4", multiclass, dict(n=4, vals=(-1.0, 0.0, 0.5) if not T else (-1.0, 0.0, 0.5, 2.0), extreme=False)),
          ("multiclass1", multiclass, dict(n=1, vals=(-1.0, 0.0, 2.0), extreme=True)),
          *[(f"many{n}", long, dict(n=n)) for n in ((7, 30) + ((100,) if T else ()))],
          ("labels", labels, {}), ("binary", binary, {}), ("huber", huber, {})]
