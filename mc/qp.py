"""Exact reference for small convex QPs: enumeration of every active set."""
import functools, itertools
import numpy as np
from scipy.optimize import nnls


def _kkt(Q, c, A, l, u, tol=1e-9):
  """A KKT point of min 1/2 x'Qx + c'x, l <= Ax <= u, or None. Returns (x, y) with Qx + c + A'y = 0."""
  n, m = len(c), len(l)
  choices = []
  for i in range(m):
    if l[i] > u[i]:
      return None
    o = [None]
    if np.isfinite(l[i]): o.append(l[i])
    if np.isfinite(u[i]) and u[i] != l[i]: o.append(u[i])
    if l[i] == u[i]: o = [l[i]]
    choices.append(o)
  for pick in sorted(itertools.product(*choices), key=lambda p: sum(v is not None for v in p)):
    S = [i for i in range(m) if pick[i] is not None]
    AS = A[S]; bS = np.array([pick[i] for i in S], float)
    K = np.block([[Q, AS.T], [AS, np.zeros((len(S), len(S)))]])
    r = np.concatenate([-c, bS])
    z = np.linalg.lstsq(K, r, rcond=1e-12)[0]
    if np.abs(K @ z - r).max() > tol:
      continue
    x = z[:n]; Ax = A @ x
    if (Ax < l - tol).any() or (Ax > u + tol).any():
      continue
    # signed multipliers on the active rows: y >= 0 at u, y <= 0 at l, free if l == u
    cols, idx = [], []
    for i in range(m):
      if np.isfinite(u[i]) and abs(Ax[i] - u[i]) <= tol: cols.append(A[i]); idx.append((i, 1))
      if np.isfinite(l[i]) and abs(Ax[i] - l[i]) <= tol: cols.append(-A[i]); idx.append((i, -1))
    g = -(Q @ x + c)
    y = np.zeros(m)
    if cols:
      w, res = nnls(np.array(cols).T, g)
      for (i, s), v in zip(idx, w): y[i] += s * v
    else:
      res = np.linalg.norm(g)
    if res <= 1e-8:
      return x, y
  return None


def solve(Q, c, A, l, u):
  """('optimal', x, y, value) | ('infeasible',) | ('unbounded',)."""
  Q, c, A, l, u = (np.asarray(v, float) for v in (Q, c, A, l, u))
  k = _kkt(Q, c, A, l, u)
  if k is not None:
    x, y = k
    return "optimal", x, y, 0.5 * x @ Q @ x + c @ x
  feas = _kkt(np.eye(len(c)), 0 * c, A, l, u)
  return ("infeasible",) if feas is None else ("unbounded",)


def residuals(Q, c, A, l, u, x, z, y):
  """Sup-norms of (Ax - z, Qx + c + A'y, distance of z to the box, complementarity)."""
  with np.errstate(all="ignore"):
    comp = np.maximum(np.where(y > 0, np.minimum(y, np.abs(u - z)), 0), np.where(y < 0, np.minimum(-y, np.abs(z - l)), 0))
    return (np.abs(A @ x - z).max(initial=0), np.abs(Q @ x + c + A.T @ y).max(initial=0),
            max(np.maximum(l - z, 0).max(initial=0), np.maximum(z - u, 0).max(initial=0)), comp.max(initial=0))
