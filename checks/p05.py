"""P05: proximal operators are the exact minimiser of 1/2||x-y||^2 + scaling * g(y), on full grids.

Oracle: enumerate the stationary points of every smooth piece of the one-dimensional problem and every kink, keep the best
(coordinatewise for separable penalties, along the ray of x for the group penalty).
"""
import itertools
import numpy as np
from mc.ops import grid, long_family, product_rows, check_operator, fmt

LEVEL = "model_checking"
RULE = ("every input of a half-integer grid (plus generic offsets) x every (regularisation, scaling) of a grid, x forms of the hyperparameters "
        "(absent, None, Python float, int, 0-d array, traced, pytree) x packings; oracle: best of all stationary points and kinks")
ASSUMPTIONS = ["regularisation and scaling nonnegative"]

V = (-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0)
OFF = np.array([0.0, 0.03, -0.07, 0.11])


def pts(n, vals=V):
  G = grid(vals, n)
  return np.concatenate([G, G + OFF[1:n + 1]])


def best(x, cands, obj):
  C = np.stack(np.broadcast_arrays(*cands)); O = np.where(np.isfinite(C), obj(C), np.inf)
  return np.take_along_axis(C, O.argmin(0)[None], 0)[0]


def o_l1(x, lam, gam=0.0, nonneg=False):
  """min 1/2 (x-y)^2 + lam |y| + lam gam/2 y^2 (y >= 0)."""
  lam = lam + 0 * x; gam = gam + 0 * x
  obj = lambda y: 0.5 * (x - y) ** 2 + lam * np.abs(y) + 0.5 * lam * gam * y ** 2
  pos = np.maximum((x - lam) / (1 + lam * gam), 0); neg = np.minimum((x + lam) / (1 + lam * gam), 0)
  return best(x, [0 * x, pos] if nonneg else [0 * x, pos, neg], obj)


def o_ridge(x, lam, nonneg=False):
  """min 1/2 (x-y)^2 + lam/2 y^2."""
  lam = lam + 0 * x
  obj = lambda y: 0.5 * (x - y) ** 2 + 0.5 * lam * y ** 2
  c = x / (1 + lam)
  return best(x, [0 * x, np.maximum(c, 0)] if nonneg else [c, 0 * x], obj)


def o_group(X, lam):
  """The minimiser lies on the ray of x: min over r >= 0 of 1/2 (||x||-r)^2 + lam r."""
  n = np.sqrt((X ** 2).sum(1)); r = best(n, [0 * n, np.maximum(n - lam, 0)], lambda r: 0.5 * (n - r) ** 2 + lam * r)
  return X * (r / np.where(n > 0, n, 1))[:, None]


def ops():
  from jaxopt import prox
  return dict(
      lasso=(lambda x, t: prox.prox_lasso(x, t[0], t[1]), lambda X, T: o_l1(X, T[:, :1] * T[:, 1:2]), 2),
      nonneg_lasso=(lambda x, t: prox.prox_non_negative_lasso(x, t[0], t[1]), lambda X, T: o_l1(X, T[:, :1] * T[:, 1:2], nonneg=True), 2),
      ridge=(lambda x, t: prox.prox_ridge(x, t[0], t[1]), lambda X, T: o_ridge(X, T[:, :1] * T[:, 1:2]), 2),
      nonneg_ridge=(lambda x, t: prox.prox_non_negative_ridge(x, t[0], t[1]), lambda X, T: o_ridge(X, T[:, :1] * T[:, 1:2], True), 2),
      group_lasso=(lambda x, t: prox.prox_group_lasso(x, t[0], t[1]), lambda X, T: o_group(X, T[:, 0] * T[:, 1]), 2),
      elastic_net=(lambda x, t: prox.prox_elastic_net(x, (t[0], t[1]), t[2]), lambda X, T: o_l1(X, T[:, :1] * T[:, 2:3], T[:, 1:2]), 3),
      none=(lambda x, t: prox.prox_none(x, t[0], t[1]), lambda X, T: X, 2),
  )


def operator(R, name, n):
  fn, orc, k = ops()[name]
  regs = (0.0, 0.3, 1.0, 2.5)
  TH = grid(regs, k) if k == 2 else grid((0.0, 0.4, 1.0, 2.5), 3)
  gsk = lambda X, T: (T == 0).any(1)      # negative regularisation is outside the domain
  check_operator(R, f"{name} n={n}", fn, orc, pts(n) if n < 3 else pts(n, (-1.0, 0.0, 0.5, 2.0)), TH, gskip=gsk, max_grad=20000)


def long(R, n):
  """Lengths beyond the grids: structured families, every position of the structure."""
  X = long_family(n); X = np.concatenate([X, 3 * X[::3] - 1])
  for name, (fn, orc, k) in ops().items():
    TH = grid((0.3, 2.5), k) if k == 2 else grid((0.4, 2.5), 3)
    check_operator(R, f"{name} n={n}", fn, orc, X, TH, grads=(), eager=2)
  R.outcome("long", n, n=len(X))


def group_zero(R):
  """Derivatives of the group penalty where it sends a neighbourhood (including the origin) to zero."""
  import jax, jax.numpy as jnp
  from jaxopt import prox
  for n in (1, 2, 3):
    for x in grid((0.0, 0.25), n):
      for mode in (jax.jacfwd, jax.jacrev):
        J = np.asarray(mode(lambda x: prox.prox_group_lasso(x, 1.0))(jnp.asarray(x)))
        R.close(f"group_lasso jacobian {mode.__name__} x={fmt(x)}", J, np.zeros((n, n)), tol=1e-9); R.case()


def forms(R):
  """Ways of giving the hyperparameters and packings of x."""
  import jax, jax.numpy as jnp
  from jaxopt import prox, projection
  X = grid((-2.0, -0.5, 0.0, 0.3, 1.5), 3)
  packs = dict(array=(lambda v: v, lambda t: t), dict=(lambda v: dict(a=v[:1], b=v[1:].reshape(2, 1)), lambda t: jnp.concatenate([t["a"], t["b"].ravel()])),
               nest=(lambda v: (v[0], [v[1:], dict()]), lambda t: jnp.concatenate([t[0][None], t[1][0]])))
  W = np.array([0.3, 1.0, 2.0])
  one = {"lasso": (prox.prox_lasso, lambda X, l, s: o_l1(X, l * s)), "nonneg_lasso": (prox.prox_non_negative_lasso, lambda X, l, s: o_l1(X, l * s, nonneg=True)),
         "ridge": (prox.prox_ridge, lambda X, l, s: o_ridge(X, l * s)), "nonneg_ridge": (prox.prox_non_negative_ridge, lambda X, l, s: o_ridge(X, l * s, True)),
         "group_lasso": (prox.prox_group_lasso, lambda X, l, s: o_group(X, l * s))}
  for pk, (pack, un) in packs.items():
    for nm, (f, orc) in one.items():
      cases = {"absent": (lambda v: f(pack(v)), 1.0, 1.0), "None": (lambda v: f(pack(v), None), 1.0, 1.0), "None scaled": (lambda v: f(pack(v), None, 0.4), 1.0, 0.4),
               "scaling keyword": (lambda v: f(pack(v), 0.7, scaling=2.0), 0.7, 2.0), "float": (lambda v: f(pack(v), 0.7), 0.7, 1.0),
               "int": (lambda v: f(pack(v), 2), 2.0, 1.0), "array": (lambda v: f(pack(v), jnp.asarray(0.7), jnp.asarray(0.5)), 0.7, 0.5)}
      if nm == "lasso":
        cases["pytree"] = (lambda v: f(pack(v), pack(jnp.asarray(W)), 0.5), W, 0.5)
      for c, (g, l, s) in cases.items():
        run(R, f"{nm} {c} packed {pk}", lambda v: un(g(v)), X, orc(X, l, s))
      run(R, f"{nm} traced packed {pk}", None, X, orc(X, 0.7, 0.5), traced=lambda v, l, s: un(f(pack(v), l, s)), tr=(0.7, 0.5))
    en = prox.prox_elastic_net
    cases = {"absent": (lambda v: en(pack(v)), 1.0, 1.0, 1.0), "None": (lambda v: en(pack(v), None, 0.5), 1.0, 1.0, 0.5), "floats": (lambda v: en(pack(v), (0.7, 0.2), 0.5), 0.7, 0.2, 0.5),
             "ints": (lambda v: en(pack(v), (2, 1)), 2.0, 1.0, 1.0), "arrays": (lambda v: en(pack(v), (jnp.asarray(0.7), jnp.asarray(0.2))), 0.7, 0.2, 1.0),
             "float32": (lambda v: en(pack(v), (np.float32(0.5), np.float32(0.25))), 0.5, 0.25, 1.0),
             "pytrees": (lambda v: en(pack(v), (pack(jnp.asarray(W)), pack(jnp.asarray(W[::-1].copy()))), 0.5), W, W[::-1], 0.5),
             "mixed": (lambda v: en(pack(v), (pack(jnp.asarray(W)), 0.2), 0.5), W, 0.2, 0.5)}
    for c, (g, l, gm, s) in cases.items():
      run(R, f"elastic_net {c} packed {pk}", lambda v: un(g(v)), X, o_l1(X, l * s, gm + 0 * X))
    run(R, f"elastic_net traced packed {pk}", None, X, o_l1(X, 0.7 * 0.5, 0.2), traced=lambda v, l, s: un(en(pack(v), (l, 0.2), s)), tr=(0.7, 0.5))
    run(R, f"none packed {pk}", lambda v: un(prox.prox_none(pack(v), 3.0, 0.5)), X, X)
    R.sample(f"packing {pk}: 7 operators x hyperparameter forms, {len(X)} inputs")
  mp = prox.make_prox_from_projection(projection.projection_simplex)
  bx = prox.make_prox_from_projection(projection.projection_box)
  run(R, "from projection simplex", lambda v: mp(v, 2.0, 0.3), X, np.array(jax.vmap(lambda v: projection.projection_simplex(v, 2.0))(X)))
  run(R, "from projection simplex default", lambda v: mp(v), X, np.array(jax.vmap(projection.projection_simplex)(X)))
  run(R, "from projection box scaling ignored", lambda v: bx(v, (-0.3, 1.0), scaling=5.0), X, np.clip(X, -0.3, 1.0))
  # groups through vmap, as documented
  G = np.concatenate([X, X[::-1]]).reshape(2, -1, 3)
  got = jax.vmap(jax.vmap(prox.prox_group_lasso, in_axes=(0, None)), in_axes=(0, None))(G, 0.6)
  R.closes(lambda i: f"group_lasso blocks {i}", np.asarray(got).reshape(-1, 3), o_group(G.reshape(-1, 3), 0.6), tol=1e-9); R.case(2 * len(X))


def run(R, key, f, X, want, traced=None, tr=None):
  import jax
  try:
    if traced is not None:
      got = jax.jit(jax.vmap(traced, in_axes=(0, None, None)))(X, *tr)
    else:
      got = jax.vmap(f)(X)
  except Exception as e:
    R.violation(key, f"{type(e).__name__}: {str(e)[:300]}")
    return
  R.closes(lambda i: f"{key} x={fmt(X[i])}", got, want, tol=1e-9)
  R.case(len(X)); R.outcome("form", key.split(" packed")[0], n=len(X))


def jobs(tier):
  out = [("forms", forms, {}), ("group-zero", group_zero, {})]
  for n in (7, 24) + ((60,) if tier == "thorough" else ()): out.append((f"long{n}", long, dict(n=n)))
  names = ("lasso", "nonneg_lasso", "ridge", "nonneg_ridge", "group_lasso", "elastic_net", "none")
  for nm in names:
    for n in (1, 2, 3):
      out.append((f"{nm}-{n}", operator, dict(name=nm, n=n)))
  return out
