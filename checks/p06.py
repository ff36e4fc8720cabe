"""P06: isotonic regression is exact for every ordering pattern.

Every sequence over a small alphabet (all rises, falls, ties, hence every pooling history of the PAV automaton) is run
through the real solver and compared with the min-max formula; derivatives with the block averages.
"""
import itertools
import numpy as np
from mc.ops import long_family, grid, fmt, check_operator

LEVEL = "model_checking"
RULE = "all sequences over an alphabet up to length n x direction x bounds x dtype x (eager, jit, vmap, nested vmap), plus Jacobians in both modes; oracle: min-max formula, block-mean Jacobian"
ASSUMPTIONS = ["finite inputs of order one (blocks of the derivative are told apart by an absolute 1e-8)"]


def minmax(Y, increasing=True):
  Y = Y if increasing else -Y
  N, n = Y.shape
  cs = np.concatenate([np.zeros((N, 1)), np.cumsum(Y, axis=1)], axis=1)
  out = np.empty_like(Y)
  for i in range(n):
    out[:, i] = np.max([np.min([(cs[:, k + 1] - cs[:, j]) / (k + 1 - j) for k in range(i, n)], axis=0) for j in range(i + 1)], axis=0)
  return out if increasing else -out


def values(R, n, alphabet, bounds):
  import jax, jax.numpy as jnp
  from jaxopt.isotonic import isotonic_l2_pav
  Y = grid(alphabet, n)
  for inc in (True, False):
    for lo, hi in bounds:
      want = np.clip(minmax(Y, inc), lo, hi)
      f = lambda y: isotonic_l2_pav(y, y_min=lo, y_max=hi, increasing=inc)
      for dt, tol in ((np.float64, 1e-12), (np.float32, 1e-6)):
        got = np.asarray(jax.jit(jax.vmap(f))(Y.astype(dt)))
        R.check(got.dtype == dt, f"dtype {dt.__name__}", str(got.dtype))
        R.closes(lambda i: f"increasing={inc} bounds=({lo},{hi}) {dt.__name__} y={fmt(Y[i])}", got.astype(float), want, tol=tol)
        R.case(len(Y))
      if lo == -np.inf and hi == np.inf:
        for sc in (1e-7, 1e7):
          got = np.asarray(jax.jit(jax.vmap(f))(sc * Y)) / sc
          R.closes(lambda i: f"scale={sc} increasing={inc} y={fmt(Y[i])}", got, want, tol=1e-11); R.case(len(Y))
      for i in np.unique(np.linspace(0, len(Y) - 1, 7).astype(int)):
        R.close(f"eager increasing={inc} bounds=({lo},{hi}) y={fmt(Y[i])}", f(jnp.asarray(Y[i])), want[i], tol=1e-12); R.case()
    D = isotonic_l2_pav(jnp.asarray(Y[0])) if inc else None
    if inc:
      R.close(f"default arguments y={fmt(Y[0])}", D, minmax(Y)[0], tol=1e-12)
    blocks = (np.diff(minmax(Y, inc), axis=1) == 0).astype(int)
    for b, c in zip(*np.unique(blocks, axis=0, return_counts=True)):
      R.outcome("blocks", "".join("=" if q else "<" for q in b), n=int(c))
  R.sample(f"n={n}: all {len(Y)} sequences over {alphabet}, bounds {bounds}")


def jacobians(R, n, alphabet):
  import jax, jax.numpy as jnp
  from jaxopt.isotonic import isotonic_l2_pav
  Y = grid(alphabet, n) + 0.013 * np.arange(n) ** 2       # generic: neighbouring blocks never tie
  for inc in (True, False):
    W = minmax(Y, inc)
    d = np.abs(np.diff(W, axis=1))
    generic = ((d < 1e-12) | (d > 1e-4)).all(1)
    same = np.concatenate([np.zeros((len(Y), 1), int), np.cumsum(d > 1e-9, axis=1)], axis=1)
    J = (same[:, :, None] == same[:, None, :]).astype(float); J /= J.sum(-1, keepdims=True)
    f = lambda y: isotonic_l2_pav(y, increasing=inc)
    for mode, jac in (("fwd", jax.jacfwd), ("rev", jax.jacrev)):
      got = np.asarray(jax.jit(jax.vmap(jac(f)))(Y))
      R.closes(lambda i: f"jacobian {mode} increasing={inc} y={fmt(Y[generic][i])}", got[generic], J[generic], tol=1e-6)
      R.case(int(generic.sum()))
      for sc in (1e-3, 1e3):                                  # the blocks, hence the Jacobian, do not depend on the scale
        got = np.asarray(jax.jit(jax.vmap(jac(f)))(sc * Y))
        R.closes(lambda i: f"jacobian {mode} scale={sc} increasing={inc} y={fmt(Y[generic][i])}", got[generic], J[generic], tol=1e-6)
        R.case(int(generic.sum()))
    # bounds cut the derivative of the clipped coordinates
    lo, hi = float(np.quantile(W, 0.3)) + 1e-3, float(np.quantile(W, 0.8)) + 1e-3
    g = lambda y: isotonic_l2_pav(y, y_min=lo, y_max=hi, increasing=inc)
    got = np.asarray(jax.jit(jax.vmap(jax.jacrev(g)))(Y))
    inside = (W > lo) & (W < hi); far = (np.abs(W - lo) > 1e-6).all(1) & (np.abs(W - hi) > 1e-6).all(1) & generic
    R.closes(lambda i: f"jacobian bounds increasing={inc} y={fmt(Y[far][i])}", got[far], (J * inside[:, :, None])[far], tol=1e-6)
    R.case(int(far.sum()))
    # a batched vjp on top of a batched call
    v = np.linspace(-1, 2, n)
    out, vjp = jax.vjp(jax.vmap(f), jnp.asarray(Y[:50]))
    R.closes(lambda i: f"vjp of vmap increasing={inc} y={fmt(Y[:50][generic[:50]][i])}", np.asarray(vjp(jnp.tile(v, (len(Y[:50]), 1)))[0])[generic[:50]], (J.transpose(0, 2, 1)[:50] @ v)[generic[:50]], tol=1e-6)
    R.case(min(50, len(Y)))
    R.outcome("jacobian", "increasing" if inc else "decreasing", n=int(generic.sum()))
  R.sample(f"n={n}: Jacobians at {len(Y)} sequences")


def misc(R):
  import jax, jax.numpy as jnp
  from jaxopt.isotonic import isotonic_l2_pav
  # nested vmap, integer inputs
  Y = grid((0.0, 1.0, 3.0), 4)
  got = jax.vmap(jax.vmap(isotonic_l2_pav))(Y.reshape(9, 9, 4))
  R.closes(lambda i: f"nested vmap y={fmt(Y[i])}", np.asarray(got).reshape(-1, 4), minmax(Y), tol=1e-12); R.case(81)
  for y in grid((0, 1, 3), 3).astype(int):
    R.close(f"integer input y={fmt(y)}", np.asarray(isotonic_l2_pav(jnp.asarray(y)), float), minmax(y[None].astype(float))[0], tol=1e-6); R.case()
  # translation / scaling of long chains: one falling run of length m pools into one block
  for m in (20, 50):
    y = np.concatenate([np.linspace(0, -1, m), [5.0], np.linspace(3, 2, m)])
    R.close(f"long chain {m}", isotonic_l2_pav(jnp.asarray(y)), minmax(y[None])[0], tol=1e-10); R.case()
  # soft ranks: projection on the permutahedron, its vertices included
  import itertools as it
  w = np.array([3.0, 2.0, 1.0])

  def soft_rank(s):
    order = jnp.argsort(-s)
    return s - isotonic_l2_pav(s[order] - w, increasing=False)[jnp.argsort(order)]
  S = grid((-2.0, -0.5, 0.0, 0.7, 4.0), 3) + np.array([0.0, 0.011, 0.027])
  P = np.asarray(jax.jit(jax.vmap(soft_rank))(S))
  V = np.array(list(it.permutations(w)))
  gap = np.array([max(((s - p) @ (v - p)) for v in V) for s, p in zip(S, P)])      # variational inequality: p is the projection
  R.closes(lambda i: f"permutahedron s={fmt(S[i])}", np.maximum(gap, 0), np.zeros(len(S)), tol=1e-9)
  R.closes(lambda i: f"permutahedron sum s={fmt(S[i])}", P.sum(1), np.full(len(S), 6.0), tol=1e-9); R.case(2 * len(S))


def long(R, n):
  """Lengths beyond the exhaustive alphabets: structured families, every position of the structure."""
  import jax, jax.numpy as jnp
  from jaxopt.isotonic import isotonic_l2_pav
  Y = long_family(n); Y = np.concatenate([Y, Y[:, ::-1], np.cumsum(Y, axis=1) / n])
  for inc in (True, False):
    W = minmax(Y, inc)
    f = lambda y: isotonic_l2_pav(y, increasing=inc)
    got = np.asarray(jax.jit(jax.vmap(f))(Y)); R.closes(lambda i: f"n={n} increasing={inc} y={fmt(Y[i])}", got, W, tol=1e-10); R.case(len(Y))
    g = lambda y: isotonic_l2_pav(y, y_min=-0.1, y_max=0.6, increasing=inc)
    R.closes(lambda i: f"n={n} increasing={inc} bounded y={fmt(Y[i])}", np.asarray(jax.jit(jax.vmap(g))(Y)), np.clip(W, -0.1, 0.6), tol=1e-10); R.case(len(Y))
    # the derivative averages over the blocks
    Z = Y + 0.013 * np.sin(1.0 + np.arange(n) * 2.3); W = minmax(Z, inc); d = np.abs(np.diff(W, axis=1))
    ok = ((d < 1e-12) | (d > 1e-4)).all(1)
    same = np.concatenate([np.zeros((len(Z), 1), int), np.cumsum(d > 1e-9, axis=1)], axis=1)
    J = (same[:, :, None] == same[:, None, :]).astype(float); J /= J.sum(-1, keepdims=True)
    v = np.cos(np.arange(n) * 0.9)
    jv = np.asarray(jax.jit(jax.vmap(lambda y: jax.jvp(f, (y,), (jnp.asarray(v),))[1]))(Z)); vj = np.asarray(jax.jit(jax.vmap(lambda y: jax.vjp(f, y)[1](jnp.asarray(v))[0]))(Z))
    R.closes(lambda i: f"n={n} increasing={inc} jvp y={fmt(Z[ok][i])}", jv[ok], (J @ v)[ok], tol=1e-6); R.closes(lambda i: f"n={n} increasing={inc} vjp y={fmt(Z[ok][i])}", vj[ok], (J @ v)[ok], tol=1e-6)
    R.case(2 * int(ok.sum())); R.outcome("long", n, inc, n=int(ok.sum()))


def jobs(tier):
  deep = tier == "thorough"
  inf = float("inf")
  B = ((-inf, inf), (0.25, 1.5), (-inf, 0.9))
  out = []
  for n, a in ((1, (-1.0, 0.0, 2.0)), (2, (-1.0, 0.0, 0.5, 2.0)), (3, (-1.0, 0.0, 0.5, 2.0)), (4, (-1.0, 0.0, 0.5, 2.0)), (5, (0.0, 1.0, 2.5)), (6, (0.0, 1.0, 2.5) if deep else (0.0, 1.0))) + (((7, (0.0, 1.0, 2.5)), (8, (0.0, 1.0))) if deep else ((7, (0.0, 1.0)),)):
    out.append((f"values{n}", values, dict(n=n, alphabet=a, bounds=B)))
    out.append((f"jacobians{n}", jacobians, dict(n=n, alphabet=a)))
  out.append(("misc", misc, {}))
  for n in (12, 25) + ((64,) if deep else ()): out.append((f"long{n}", long, dict(n=n)))
  return out[::-1]
