"""Exhaustive comparison of an operator fn(x, theta) with an exact reference on a full grid of inputs."""
import itertools
import numpy as np


def grid(vals, n):
  return np.array(list(itertools.product(vals, repeat=n)), dtype=float)


def long_family(n):
  """Structured vectors of length n: every position of a step (both directions), of a spike on constant / rising / falling ground, every sawtooth period, plateaus."""
  i = np.arange(n); out = []
  for p in range(n + 1):
    out += [np.where(i < p, -0.4, 0.9), np.where(i < p, 1.3, -0.2)]
  for p in range(n):
    for h in (2.0, -1.5):
      e = h * (i == p)
      out += [e + 0.1, e + i / n, e - 0.5 * i / n + 0.3]
  for q in range(1, n // 2 + 1):
    saw = (i % q) / q
    out += [saw, -saw + 0.03 * i, np.floor(i / q) / n, np.where((i // q) % 2 == 0, 0.7, -0.7) + 0.001 * i]
  return np.array(out, dtype=float)


def product_rows(X, TH):
  """All pairs (row of X, row of TH)."""
  X, TH = np.asarray(X, float), np.asarray(TH, float)
  if TH.ndim == 1:
    TH = TH[:, None]
  return np.repeat(X, len(TH), axis=0), np.tile(TH, (len(X), 1))


def supports(n, kmax=None):
  return [np.array(m, bool) for m in itertools.product([0, 1], repeat=n) if any(m) and (kmax is None or sum(m) <= kmax)]


def nearest(cands, X, feas, pick=None):
  """Rowwise minimiser of the distance to X among candidate arrays (list of (N, n)) with feasibility masks."""
  best = np.full(len(X), np.inf); out = np.zeros_like(X)
  for c, f in zip(cands, feas):
    d = ((c - X) ** 2).sum(1)
    take = f & (d < best - 1e-12)
    best = np.where(take, d, best); out = np.where(take[:, None], c, out)
  return out, best


def oracle_jac(oracle, X, TH, h=1e-4, wrt="x"):
  """Central differences of the reference plus the mask of rows where one-sided differences agree (differentiable)."""
  Z = X if wrt == "x" else TH
  N, k = Z.shape
  P0 = oracle(X, TH)
  J = np.zeros(P0.shape + (k,)); ok = np.ones(N, bool)
  dirs = [np.eye(k)[i] for i in range(k)] + [np.eye(k)[i] + s * np.eye(k)[j] for i in range(k) for j in range(i) for s in (1, -1)]
  for q, d in enumerate(dirs):
    ev = (lambda s: oracle(X + s * d, TH)) if wrt == "x" else (lambda s: oracle(X, TH + s * d))
    with np.errstate(all="ignore"):
      up, dn = ev(h), ev(-h)
      jp, jm = (up - P0) / h, (P0 - dn) / h
      gap = np.abs(jp - jm).reshape(N, -1).max(1)
    ok &= gap < 2e-2
    if q < k:
      J[..., q] = (up - dn) / (2 * h)
  return J, ok & np.isfinite(J).reshape(N, -1).all(1)


def check_operator(R, label, fn, oracle, X, TH, tol=1e-9, grads=("x", "th"), jtol=1e-5, residual=None, eager=6, f32=True, name=None, max_grad=4000, skip=None, gskip=None, modes=('fwd', 'rev'), dtype=True):
  """fn(x, theta) on single rows (jax); oracle(X, TH) on batches (numpy).

  residual(P, X, TH) -> (N,) nonnegative: for set-valued references, replaces the comparison with oracle."""
  import jax, jax.numpy as jnp
  X, TH = product_rows(X, TH)
  if skip is not None:
    keep = ~skip(X, TH); X, TH = X[keep], TH[keep]
  N = len(X)
  key = (lambda i: f"{label} x={fmt(X[i])} th={fmt(TH[i])}")
  f = jax.jit(jax.vmap(fn))
  P = np.asarray(f(X, TH))
  want = oracle(X, TH)
  if residual is None:
    R.closes(key, P, want, tol=tol)
  else:
    r = residual(P, X, TH)
    R.closes(lambda i: key(i) + f" got {fmt(P[i])}", r, np.zeros(N), tol=tol)
  R.case(N)
  R.outcome(label, n=N)
  R.sample(f"{label}: {N} (input, hyperparameter) points, first {key(0)} -> {fmt(P[0])}")
  # unbatched / eager calls follow a different code path (cond instead of select)
  idx = np.unique(np.linspace(0, N - 1, eager).astype(int)) if eager else []
  for i in idx:
    e = np.asarray(fn(jnp.asarray(X[i]), jnp.asarray(TH[i])))
    R.close(key(i) + " eager==vmap", e, P[i], tol=max(tol, 1e-9))
    R.case()
  if f32:
    P32 = np.asarray(f(X.astype(np.float32), TH.astype(np.float32)))
    if dtype:
      R.check(P32.dtype == np.float32, f"{label} float32 dtype", f"{P32.dtype}")
    if residual is None:
      R.closes(lambda i: key(i) + " float32", P32.astype(float), want, tol=max(tol, 2e-4))
    else:
      R.closes(lambda i: key(i) + " float32", residual(P32.astype(float), X, TH), np.zeros(N), tol=max(tol, 1e-3))
    R.case(N)
  for wrt in grads:
    sel = np.arange(N)
    if gskip is not None:
      sel = sel[~gskip(X, TH)]
    if len(sel) > max_grad:
      sel = sel[np.unique(np.linspace(0, len(sel) - 1, max_grad).astype(int))]
    Xg, Tg = X[sel], TH[sel]
    J, ok = oracle_jac(oracle, Xg, Tg, wrt=wrt)
    arg = 0 if wrt == "x" else 1
    for mode in modes:
      jac = dict(fwd=jax.jacfwd, rev=jax.jacrev)[mode]
      G = np.asarray(jax.jit(jax.vmap(jac(fn, argnums=arg)))(Xg, Tg))
      R.closes(lambda i: f"{label} d/d{wrt} {mode} x={fmt(Xg[ok][i])} th={fmt(Tg[ok][i])}", G[ok], J[ok], tol=jtol)
      R.case(int(ok.sum()))
      R.outcome(label, "derivative points", n=int(ok.sum()))
  return P


def fmt(a):
  return np.array2string(np.asarray(a), precision=5, separator=",", max_line_width=10 ** 6).replace(" ", "")
