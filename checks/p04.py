"""P04: projections are the exact nearest feasible point, on every point of small grids and every hyperparameter of a grid.

Oracles enumerate the faces of the set (supports, active bounds, active inequalities) and keep the nearest feasible
candidate; derivatives are compared wherever the enumerated projection is differentiable.
"""
import itertools
import numpy as np
from mc.ops import long_family, grid, product_rows, supports, nearest, check_operator, fmt

LEVEL = "model_checking"
RULE = ("every input of an integer / half-integer grid (plus generic offsets) in 1-5 dimensions x every hyperparameter of a grid, "
        "each run through the real operator under jit+vmap, eagerly, in float32, and differentiated in both modes; "
        "oracle: enumeration of all faces (active sets) of the set, nearest feasible candidate")
ASSUMPTIONS = ["hyperparameters valid (lower <= upper, positive radius, non-empty set)", "iterative projections (box section, polyhedron, transport) to the tolerance of their inner solver"]

V7 = (-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0)
V5 = (-1.0, 0.0, 0.5, 1.0, 2.0)
OFF = np.array([0.0, 0.03, -0.07, 0.11, 0.05])


def pts(n, vals, offs=True):
  G = grid(vals, n)
  return np.concatenate([G, G + OFF[:n]]) if offs else G


# ------------------------------------------------------------------ oracles
def o_simplex(X, v, kmax=None):
  n = X.shape[1]
  c, f = [], []
  for m in supports(n, kmax):
    p = np.where(m, X - ((X[:, m].sum(1) - v) / m.sum())[:, None], 0.0)
    c.append(p); f.append((p >= -1e-13).all(1))
  return nearest(c, X, f)


def o_l1_sphere(X, v):
  A, d = o_simplex(np.abs(X), v)
  return np.where(X < 0, -A, A), d


def o_box_section(X, lo, up, w, c):
  n = X.shape[1]
  C, F = [], []
  for pat in itertools.product((0, 1, 2), repeat=n):
    pat = np.array(pat)
    base = np.where(pat == 0, lo, np.where(pat == 1, up, 0.0))
    free = pat == 2
    r = c - (w * base).sum(1)
    if free.any():
      wf = np.where(free, w, 0.0)
      tau = (r - (wf * X).sum(1)) / (wf ** 2).sum(1)
      p = np.where(free, X + tau[:, None] * w, base)
      ok = (p >= lo - 1e-11).all(1) & (p <= up + 1e-11).all(1)
    else:
      p, ok = base, np.abs(r) < 1e-9
    C.append(p); F.append(ok)
  return nearest(C, X, F)[0]


def o_poly(X, A, b, G, h):
  """All active sets of G y <= h on top of A y = b."""
  n = X.shape[1]; m = len(h)
  C, F = [], []
  for act in itertools.product([0, 1], repeat=m):
    rows = np.concatenate([A, G[np.array(act, bool)]]); rhs = np.concatenate([b, h[np.array(act, bool)]])
    if len(rows):
      pin = np.linalg.pinv(rows)
      p = X - (X @ rows.T - rhs) @ pin.T
      ok = np.abs(p @ rows.T - rhs).max(1) < 1e-8
    else:
      p, ok = X.copy(), np.ones(len(X), bool)
    ok &= (p @ G.T <= h + 1e-9).all(1)
    C.append(p); F.append(ok)
  return nearest(C, X, F)[0]


def o_transport(S, a, b):
  """Nearest matrix with row sums a and column sums b, P >= 0: all supports."""
  n, m = S.shape
  rows = np.concatenate([np.kron(np.eye(n), np.ones((1, m))), np.kron(np.ones((1, n)), np.eye(m))])
  rhs = np.concatenate([a, b]); s = S.ravel()
  best, out = np.inf, None
  for sup in supports(n * m):
    R_ = rows[:, sup]
    x = s[sup] - np.linalg.pinv(R_) @ (R_ @ s[sup] - rhs)
    if np.abs(R_ @ x - rhs).max() > 1e-8 or (x < -1e-10).any(): continue
    p = np.zeros(n * m); p[sup] = x
    d = ((p - s) ** 2).sum()
    if d < best - 1e-13: best, out = d, p
  return out.reshape(n, m)


def o_sinkhorn(S, a, b):
  K = np.exp(S); u = np.ones(len(a)); v = np.ones(len(b))
  for _ in range(4000):
    u = a / (K @ v); v = b / (K.T @ u)
  return u[:, None] * K * v


def tie(X, *bounds):
  return np.any([np.abs(X - b).min(1) < 1e-3 for b in bounds], axis=0)


def sparse_tie(X, k):
  S = -np.sort(-X, axis=1)
  return (S[:, k - 1] - S[:, k] < 1e-3) if k < X.shape[1] else np.zeros(len(X), bool)


# ------------------------------------------------------------------ jobs
def elementwise(R):
  from jaxopt import projection as pj
  import jax.numpy as jnp
  X = np.concatenate([pts(1, V7 + (1e8, -1e8, 1e-9)), ])
  check_operator(R, "non_negative", lambda x, t: pj.projection_non_negative(x), lambda X, T: np.maximum(X, 0), pts(3, V5 + (-0.5,)), [[0.0]], grads=("x",))
  B = np.array([(l, u) for l in (-1.0, 0.0, 0.5) for u in (-1.0, 0.0, 0.5, 1.5) if l <= u])
  check_operator(R, "box scalar bounds", lambda x, t: pj.projection_box(x, (t[0], t[1])), lambda X, T: np.minimum(np.maximum(X, T[:, :1]), T[:, 1:]), pts(2, V7), B, gskip=lambda X, T: tie(X, T[:, :1], T[:, 1:]))
  B2 = np.array([np.concatenate([l, l + w]) for l in grid((-1.0, 0.0, 0.7), 2) for w in grid((0.0, 0.3, 2.0), 2)])
  check_operator(R, "box vector bounds", lambda x, t: pj.projection_box(x, (t[:2], t[2:])), lambda X, T: np.minimum(np.maximum(X, T[:, :2]), T[:, 2:]), pts(2, V5), B2, gskip=lambda X, T: tie(X, T[:, :2], T[:, 2:]))
  check_operator(R, "hypercube", lambda x, t: pj.projection_hypercube(x, t[0]), lambda X, T: np.clip(X, 0, T[:, :1]), pts(3, V5), [[0.5], [1.0], [2.0]])
  check_operator(R, "hypercube default", lambda x, t: pj.projection_hypercube(x), lambda X, T: np.clip(X, 0, 1), pts(2, V7), [[0.0]], grads=("x",))
  check_operator(R, "linf ball", lambda x, t: pj.projection_linf_ball(x, t[0]), lambda X, T: np.clip(X, -T[:, :1], T[:, :1]), pts(3, V5), [[0.5], [1.0], [2.0]])
  check_operator(R, "linf ball default", lambda x, t: pj.projection_linf_ball(x), lambda X, T: np.clip(X, -1, 1), pts(2, V7), [[0.0]], grads=("x",))


def simplex(R, n, vals, values):
  from jaxopt import projection as pj
  th = np.array(values)[:, None]
  check_operator(R, f"simplex n={n}", lambda x, t: pj.projection_simplex(x, t[0]), lambda X, T: o_simplex(X, T[:, 0])[0], pts(n, vals), th)
  check_operator(R, f"simplex default n={n}", lambda x, t: pj.projection_simplex(x), lambda X, T: o_simplex(X, 1.0)[0], pts(n, vals, False), [[0.0]], grads=(), f32=False)
  check_operator(R, f"simplex None n={n}", lambda x, t: pj.projection_simplex(x, None), lambda X, T: o_simplex(X, 1.0)[0], pts(min(n, 2), vals, False), [[0.0]], grads=(), f32=False)
  # translation invariance far from the origin
  check_operator(R, f"simplex far n={n}", lambda x, t: pj.projection_simplex(x, t[0]), lambda X, T: o_simplex(X - X.mean(1, keepdims=True), T[:, 0])[0], pts(n, vals[::2], False) + 1e5, th, grads=(), f32=False, tol=1e-7)


def sparse_simplex(R, n, k, vals, values):
  from jaxopt import projection as pj

  def residual(P, X, T):
    v = T[:, 0]; best = o_simplex(X, v, k)[1]
    d = ((P - X) ** 2).sum(1)
    return np.maximum.reduce([np.abs(P.sum(1) - v), np.maximum(-P, 0).max(1), 1e3 * ((P > 1e-7).sum(1) > k), np.abs(d - best)])
  for approx in (False, True):
    check_operator(R, f"sparse_simplex n={n} k={k} approx={approx}", lambda x, t: pj.projection_sparse_simplex(x, k, approx, t[0]),
                   lambda X, T: o_simplex(X, T[:, 0], k)[0], pts(n, vals), np.array(values)[:, None], residual=residual,
                   grads=() if approx else ("x", "th"), gskip=lambda X, T: sparse_tie(X, k), dtype=False)
  check_operator(R, f"sparse_simplex default n={n} k={k}", lambda x, t: pj.projection_sparse_simplex(x, max_nz=k), lambda X, T: None, pts(n, vals, False), [[1.0]],
                 residual=residual, grads=(), f32=False, eager=2)


def l1(R, n, vals):
  from jaxopt import projection as pj
  th = [[0.5], [1.0], [3.0]]

  def res_sphere(P, X, T):
    d = ((P - X) ** 2).sum(1)
    return np.maximum(np.abs(np.abs(P).sum(1) - T[:, 0]), np.abs(d - o_l1_sphere(X, T[:, 0])[1]))
  check_operator(R, f"l1_sphere n={n}", lambda x, t: pj.projection_l1_sphere(x, t[0]), lambda X, T: o_l1_sphere(X, T[:, 0])[0], pts(n, vals), th, residual=res_sphere)

  def o_ball(X, T):
    inside = np.abs(X).sum(1) <= T[:, 0]
    return np.where(inside[:, None], X, o_l1_sphere(X, T[:, 0])[0])
  check_operator(R, f"l1_ball n={n}", lambda x, t: pj.projection_l1_ball(x, t[0]), o_ball, pts(n, vals), th)
  check_operator(R, f"l1_ball default n={n}", lambda x, t: pj.projection_l1_ball(x), lambda X, T: o_ball(X, np.ones((len(X), 1))), pts(n, vals, False), [[0.0]], grads=(), f32=False)


def l2(R, n, vals):
  from jaxopt import projection as pj
  th = [[0.5], [1.0], [2.5]]
  nrm = lambda X: np.sqrt((X ** 2).sum(1, keepdims=True))
  zero = lambda X, T: (X == 0).all(1)
  with np.errstate(all="ignore"):
    check_operator(R, f"l2_sphere n={n}", lambda x, t: pj.projection_l2_sphere(x, t[0]), lambda X, T: X * T / nrm(X), pts(n, vals), th, skip=zero)
    check_operator(R, f"l2_sphere default n={n}", lambda x, t: pj.projection_l2_sphere(x), lambda X, T: X / nrm(X), pts(n, vals), [[1.0]], skip=zero, grads=())
    ball = lambda X, T: np.where(nrm(X) <= T, X, X * T / np.maximum(nrm(X), 1e-300))
    check_operator(R, f"l2_ball n={n}", lambda x, t: pj.projection_l2_ball(x, t[0]), ball, pts(n, vals), th)
    check_operator(R, f"l2_ball default n={n}", lambda x, t: pj.projection_l2_ball(x), lambda X, T: ball(X, np.ones((len(X), 1))), pts(n, vals), [[1.0]], grads=())


def l2_sphere_origin(R):
  """At the centre every point of the sphere is nearest: any of them is accepted, but it has to be on the sphere."""
  import jax.numpy as jnp
  from jaxopt import projection as pj
  for n in (1, 2, 3):
    p = np.asarray(pj.projection_l2_sphere(jnp.zeros(n), 2.0))
    R.check(abs(np.sqrt((p ** 2).sum()) - 2.0) < 1e-9, f"centre n={n}", f"projection of the zero vector of size {n}: {p}")
    R.case()


def flat(R):
  from jaxopt import projection as pj
  TH = np.array([np.append(a, b) for a in grid((-1.0, 0.0, 2.0), 3) if np.any(a) for b in (-1.0, 0.0, 1.5)])
  hp = lambda X, T: X - ((T[:, :3] * X).sum(1) - T[:, 3])[:, None] / (T[:, :3] ** 2).sum(1)[:, None] * T[:, :3]
  hs = lambda X, T: np.where(((T[:, :3] * X).sum(1) <= T[:, 3])[:, None], X, hp(X, T))
  check_operator(R, "hyperplane", lambda x, t: pj.projection_hyperplane(x, (t[:3], t[3])), hp, pts(3, (-1.0, 0.0, 2.0)), TH)
  check_operator(R, "halfspace", lambda x, t: pj.projection_halfspace(x, (t[:3], t[3])), hs, pts(3, (-1.0, 0.0, 2.0)), TH)


def affine(R):
  import jax, jax.numpy as jnp
  from jaxopt import projection as pj
  for m in (1, 2):
    mats = [A.reshape(m, 3) for A in grid((-1.0, 0.0, 1.0), 3 * m)]
    mats = [A for A in mats if np.linalg.matrix_rank(A) == m]
    if m == 2: mats = mats[::2]
    A = np.array(mats)
    for b in grid((-1.0, 2.0), m):
      X = np.array([[0.0, 0.0, 0.0], [1.0, -2.0, 0.5], [0.3, 0.7, 2.0]])
      f = jax.jit(jax.vmap(jax.vmap(lambda x, A, b: pj.projection_affine_set(x, (A, b)), in_axes=(0, None, None)), in_axes=(None, 0, None)))
      P = np.asarray(f(X, A, b))
      want = np.array([X - (X @ a.T - b) @ np.linalg.pinv(a).T for a in A])
      R.closes(lambda i: f"affine A={fmt(A[i])} b={fmt(b)}", P, want, tol=2e-5)
      R.case(len(A) * len(X))
      jac = jax.jit(jax.jacrev(lambda x, A, b: pj.projection_affine_set(x, (A, b)), argnums=(0, 2)))
      J = [jac(X[1], a, b) for a in A]; J = [np.array([np.asarray(j[q]) for j in J]) for q in (0, 1)]
      R.closes(lambda i: f"affine d/dx A={fmt(A[i])}", J[0], np.array([np.eye(3) - np.linalg.pinv(a) @ a for a in A]), tol=1e-4)
      R.closes(lambda i: f"affine d/db A={fmt(A[i])}", J[1], np.array([np.linalg.pinv(a) for a in A]), tol=1e-4)
      R.case(2 * len(A))
    R.sample(f"affine set: {len(A)} matrices of shape {m}x3")
    R.outcome("affine", m, n=len(A))


POLYS = [
    (np.array([[1.0, 1.0, 1.0]]), np.array([1.0]), -np.eye(3), np.zeros(3)),                         # simplex
    (np.array([[1.0, -1.0, 2.0]]), np.array([0.5]), np.array([[1.0, 0, 0], [0, -1.0, 0]]), np.array([0.2, 1.0])),
    (np.array([[1.0, 2.0, 0.0], [0.0, 1.0, 1.0]]), np.array([1.0, 0.0]), np.array([[1.0, 1.0, 1.0]]), np.array([0.0])),
    (np.array([[0.0, 1.0, 0.0]]), np.array([0.3]), np.array([[1.0, 0, 1.0], [-1.0, 0, 1.0], [0, 0, -1.0]]), np.array([1.0, 1.0, 0.0])),
]


def polyhedron(R, which):
  import jax, jax.numpy as jnp
  from jaxopt import projection as pj
  A, b, G, h = POLYS[which]
  X = np.concatenate([grid((-1.0, 0.0, 2.0), 3), grid((-1.0, 0.0, 2.0), 3) + OFF[1:4]])
  f = lambda x, b, h: pj.projection_polyhedron(x, (A, b, G, h), check_feasible=False)
  P = np.asarray(jax.jit(jax.vmap(f, in_axes=(0, None, None)))(X, b, h))
  want = o_poly(X, A, b, G, h)
  R.closes(lambda i: f"polyhedron {which} x={fmt(X[i])}", P, want, tol=2e-2)
  R.case(len(X)); R.outcome("polyhedron", which, n=len(X)); R.sample(f"polyhedron {which}: {len(X)} points")
  for i in (1, 5):
    e = np.asarray(pj.projection_polyhedron(jnp.asarray(X[i]), (jnp.asarray(A), jnp.asarray(b), jnp.asarray(G), jnp.asarray(h))))
    R.close(f"polyhedron {which} eager x={fmt(X[i])}", e, want[i], tol=2e-2); R.case()
  try:
    pj.projection_polyhedron(jnp.asarray(X[1]), (jnp.asarray(A), jnp.asarray(b), jnp.asarray(np.concatenate([G, G[:1], -G[:1]])), jnp.asarray(np.concatenate([h, [-3.0], [-3.0]]))))
    R.violation(f"polyhedron {which} empty set accepted", "no ValueError for an empty polyhedron")
  except ValueError:
    R.case()


def box_section(R, n):
  from jaxopt import projection as pj
  rng = []
  lo = np.array([-1.0, 0.0, -0.5])[:n]
  for w in grid((0.5, 1.0, 2.0), n):
    for up in (lo + 1.0, lo + np.array([2.0, 0.5, 0.0])[:n]):
      a, b_ = (w * lo).sum(), (w * up).sum()
      for frac in (0.0, 0.3, 0.75, 1.0):
        rng.append(np.concatenate([lo, up, w, [a + frac * (b_ - a)]]))
  TH = np.array(rng)
  orc = lambda X, T: o_box_section(X, T[:, :n], T[:, n:2 * n], T[:, 2 * n:3 * n], T[:, -1])
  fn = lambda x, t: pj.projection_box_section(x, (t[:n], t[n:2 * n], t[2 * n:3 * n], t[3 * n]))
  X = pts(n, (-1.0, 0.0, 0.5, 2.0)) if n < 3 else pts(n, (-1.0, 0.5, 2.0))
  check_operator(R, f"box_section n={n}", fn, orc, X, TH, tol=3e-5, grads=(), f32=False, eager=2)
  mid = TH[[i for i in range(len(TH)) if i % 4 in (1, 2)]]
  check_operator(R, f"box_section grad n={n}", fn, orc, X[len(X) // 2:], mid[::3], tol=3e-5, grads=("x", "th"), f32=False, eager=0, jtol=2e-3, modes=("rev",))
  import jax.numpy as jnp
  for bad in (-1.0, 1.0):
    t = TH[1]; c = (t[2 * n:3 * n] * (t[:n] if bad < 0 else t[n:2 * n])).sum() + bad * 0.1
    try:
      pj.projection_box_section(jnp.zeros(n), (t[:n], t[n:2 * n], t[2 * n:3 * n], c), check_feasible=True)
      R.violation(f"box_section n={n} infeasible accepted {bad}", "no ValueError")
    except ValueError:
      R.case()


def transport(R, kind):
  import jax, jax.numpy as jnp
  from jaxopt import projection as pj
  from jaxopt import LBFGS
  shape = dict(transport22=(2, 2), transport23=(2, 3), birkhoff2=(2, 2), birkhoff3=(3, 3))[kind.split("-")[0]]
  nm = shape[0] * shape[1]
  if nm == 9:
    S = np.array([np.roll(np.array([1.0, 0.0, -0.5, 0.3, 2.0, 0.0, -1.0, 0.7, 0.7]) * s, k).reshape(3, 3) for s in (0.5, 1.0) for k in range(4)] + [np.zeros((3, 3)), np.eye(3) * 3])
  else:
    S = grid((-0.2, 0.0, 0.25), nm).reshape((-1,) + shape)
    if nm == 6: S = S[::5]
  mk = lambda fun: LBFGS(fun=fun, tol=1e-7, maxiter=300, linesearch="zoom")
  if kind.startswith("birkhoff"):
    margs = [(np.ones(shape[0]), np.ones(shape[1]))]
    call = lambda f: (lambda s, m, semi, mk: f(s, make_solver=mk, use_semi_dual=semi))
    l2f, klf = call(pj.projection_birkhoff), call(pj.kl_projection_birkhoff)
  else:
    margs = [(np.array([0.5, 0.5]), np.array([0.25, 0.75]) if shape[1] == 2 else np.array([0.2, 0.3, 0.5])),
             (np.array([0.9, 1.1]), np.array([1.5, 0.5]) if shape[1] == 2 else np.array([1.0, 0.75, 0.25]))]
    call = lambda f: (lambda s, m, semi, mk: f(s, m, make_solver=mk, use_semi_dual=semi))
    l2f, klf = call(pj.projection_transport), call(pj.kl_projection_transport)
  for nm_, f, orc in (("l2", l2f, o_transport), ("kl", klf, o_sinkhorn)):
    if not kind.endswith(nm_): continue
    wants = [np.array([orc(s, a, b) for s in S]) for a, b in margs]
    for semi in (True, False):
      for mkname, mk_, tol in (("default", None, 1e-2), ("tight", mk, 1e-4)):
        if mkname == "tight" and not semi: continue
        run = jax.jit(jax.vmap(lambda s, a, b: f(s, (a, b), semi, mk_), in_axes=(0, None, None)))
        for (a, b), want in zip(margs, wants):
          P = np.asarray(run(S, a, b))
          lab = f"{kind} semi={semi} {mkname} a={fmt(a)} b={fmt(b)}"
          R.closes(lambda i: f"{lab} S={fmt(S[i])}", P, want, tol=tol)
          R.case(len(S)); R.outcome("transport", nm_, semi, n=len(S))
  R.sample(f"{kind}: {len(S)} similarity matrices of shape {shape}, marginals {[(fmt(a), fmt(b)) for a, b in margs]}")


def transport_steep(R):
  """Similarities so contrasted that the semi-dual is linear around the starting point (every column on one single row)."""
  import jax
  from jaxopt import projection as pj
  a, b = np.array([0.5, 0.5]), np.array([0.25, 0.75])
  S = grid((-1.0, 0.0, 1.5), 4).reshape(-1, 2, 2)
  S = S[[i for i in range(len(S)) if (S[i][0] - S[i][1] > b).all() or (S[i][1] - S[i][0] > b).all()]]
  P = np.asarray(jax.jit(jax.vmap(lambda s: pj.projection_transport(s, (a, b))))(S))
  want = np.array([o_transport(s, a, b) for s in S])
  bad = np.abs(P - want).reshape(len(S), -1).max(1) > 0.05
  R.case(len(S))
  R.check(not bad.any(), "semi-dual linear at the start", f"{int(bad.sum())} of {len(S)} plans wrong, e.g. S={[fmt(s) for s in S[bad]][:3]}")


def pytrees(R):
  """Operators documented for pytrees: packing the same numbers in a dict / tuple / scalar leaves gives the same answer."""
  import jax, jax.numpy as jnp
  from jaxopt import projection as pj
  X = jnp.asarray(pts(4, (-1.0, 0.0, 0.5, 2.0)))
  packs = {
      "dict": lambda v: dict(a=v[:2], b=v[2:].reshape(2, 1)),
      "nest": lambda v: (v[0], [v[1:2], dict(z=v[2:])]),
  }
  unpack = {"dict": lambda t: jnp.concatenate([t["a"], t["b"].ravel()]),
            "nest": lambda t: jnp.concatenate([t[0][None], t[1][0], t[1][1]["z"]])}
  l, u = jnp.asarray([-1.0, 0.0, 0.2, -3.0]), jnp.asarray([-0.5, 0.0, 1.0, 3.0])
  a = jnp.asarray([1.0, -2.0, 0.5, 0.0])
  for p in packs:
    k = packs[p]
    ops = dict(
        non_negative=lambda v, k: pj.projection_non_negative(k(v)),
        box_tree=lambda v, k: pj.projection_box(k(v), (k(l), k(u))),
        hypercube=None, linf=None,
        l2_sphere=lambda v, k: pj.projection_l2_sphere(k(v), 0.7),
        l2_ball=lambda v, k: pj.projection_l2_ball(k(v), 0.7),
        hyperplane=lambda v, k: pj.projection_hyperplane(k(v), (k(a), 0.4)),
        halfspace=lambda v, k: pj.projection_halfspace(k(v), (k(a), 0.4)))
    for name, op in ops.items():
      if op is None: continue
      got = jax.jit(jax.vmap(lambda v: unpack[p](op(v, k))))(X)
      want = jax.jit(jax.vmap(lambda v: op(v, lambda t: t)))(X)
      R.closes(lambda i: f"{name} packed as {p} x={fmt(X[i])}", got, want, tol=1e-9)
      R.case(len(X)); R.outcome("pytree", name, n=len(X))
    R.sample(f"pytree packing {p}: {len(X)} points x {len(ops)} operators")


def pytree_scalar_bounds(R):
  """Box, hypercube and l-infinity ball: scalar bounds with a pytree input (documented)."""
  import jax, jax.numpy as jnp
  from jaxopt import projection as pj
  X = jnp.asarray(pts(4, (-1.0, 0.0, 2.0)))
  k = lambda v: dict(a=v[:2], b=v[2:].reshape(2, 1)); un = lambda t: jnp.concatenate([t["a"], t["b"].ravel()])
  for name, op, want in (("box", lambda t: pj.projection_box(t, (-0.5, 1.0)), np.clip(X, -0.5, 1.0)),
                         ("hypercube", lambda t: pj.projection_hypercube(t, 1.5), np.clip(X, 0, 1.5)),
                         ("linf_ball", lambda t: pj.projection_linf_ball(t, 0.3), np.clip(X, -0.3, 0.3))):
    try:
      got = jax.jit(jax.vmap(lambda v: un(op(k(v)))))(X)
    except Exception as e:
      R.violation(f"{name} pytree input with scalar bounds", f"{type(e).__name__}: {str(e)[:200]}")
      continue
    R.closes(lambda i: f"{name} x={fmt(X[i])}", got, want, tol=1e-9)
    R.case(len(X))


def sorted_simplex(X, v):
  """The simplex projection by sorting; compared with the enumeration of supports before it is used."""
  S = -np.sort(-X, axis=1); n = X.shape[1]
  th = (np.cumsum(S, axis=1) - v[:, None]) / np.arange(1, n + 1)
  k = (S > th).sum(1)
  return np.maximum(X - th[np.arange(len(X)), k - 1][:, None], 0)


def long(R, n):
  """Lengths beyond the exhaustive grids: structured families, every position of the structure."""
  from jaxopt import projection as pj
  S = pts(4, V5); v = np.full(len(S), 0.8)
  R.closes(lambda i: f"reference x={fmt(S[i])}", sorted_simplex(S, v), o_simplex(S, v)[0], tol=1e-12)
  X = long_family(n); X = np.concatenate([X, 3 * X[::3] - 1])
  kw = dict(grads=(), f32=False, eager=2)
  th = [[0.5], [1.0], [7.0]]
  simp = lambda X, T: sorted_simplex(X, T[:, 0])
  check_operator(R, f"simplex n={n}", lambda x, t: pj.projection_simplex(x, t[0]), simp, X, th, **kw)
  sph = lambda X, T: np.where(X < 0, -1, 1) * simp(np.abs(X), T)
  check_operator(R, f"l1_sphere n={n}", lambda x, t: pj.projection_l1_sphere(x, t[0]), sph, X, th, skip=lambda X, T: (X == 0).any(1), **kw)
  check_operator(R, f"l1_ball n={n}", lambda x, t: pj.projection_l1_ball(x, t[0]), lambda X, T: np.where((np.abs(X).sum(1) <= T[:, 0])[:, None], X, sph(X, T)), X, th, **kw)
  nrm = lambda X: np.maximum(np.sqrt((X ** 2).sum(1, keepdims=True)), 1e-300)
  check_operator(R, f"l2_ball n={n}", lambda x, t: pj.projection_l2_ball(x, t[0]), lambda X, T: np.where(nrm(X) <= T, X, X * T / nrm(X)), X, th, **kw)
  check_operator(R, f"l2_sphere n={n}", lambda x, t: pj.projection_l2_sphere(x, t[0]), lambda X, T: X * T / nrm(X), X, th, skip=lambda X, T: (X == 0).all(1), **kw)
  def topk(k):
    def f(X, T):
      cut = -np.sort(-X, axis=1)[:, k - 1:k]
      return simp(np.where(X >= cut, X, -1e3), T)
    return f
  for k in (1, 2, n // 2, n - 1, n):
    check_operator(R, f"sparse_simplex n={n} k={k}", lambda x, t: pj.projection_sparse_simplex(x, k, False, t[0]), topk(k), X + 1e-3 * np.sin(np.arange(n) * 1.7), th[1:], skip=lambda X, T: sparse_tie(X, k), **kw)
  # box section by bisection on the multiplier
  w = 0.5 + (np.arange(n) % 3) * 0.5; lo = -0.5 + 0 * w; up = 0.5 + 0.25 * (np.arange(n) % 2)
  def section(X, T):
    a, b = np.full((len(X), 1), -1e3), np.full((len(X), 1), 1e3)
    for _ in range(200):
      m = (a + b) / 2; g = (w * np.clip(X + m * w, lo, up)).sum(1, keepdims=True) - T
      a, b = np.where(g < 0, m, a), np.where(g < 0, b, m)
    return np.clip(X + (a + b) / 2 * w, lo, up)
  m, M = (w * lo).sum(), (w * up).sum()
  check_operator(R, f"box_section n={n}", lambda x, t: pj.projection_box_section(x, (lo, up, w, t[0])), section, X, [[m + f * (M - m)] for f in (0.05, 0.5, 0.9)], tol=1e-4, **kw)
  R.outcome("long", n, n=len(X))


def jobs(tier):
  deep = tier == "thorough"
  out = []
  for k in ("transport22", "transport23", "birkhoff2", "birkhoff3"):
    for reg in ("l2", "kl"):
      out.append((f"{k}-{reg}", transport, dict(kind=f"{k}-{reg}")))
  out.append(("transport-steep", transport_steep, {}))
  for i in range(len(POLYS)):
    out.append((f"polyhedron{i}", polyhedron, dict(which=i)))
  out.append(("affine", affine, {}))
  for n in (1, 2, 3):
    out.append((f"box_section{n}", box_section, dict(n=n)))
  out.append(("elementwise", elementwise, {}))
  for n, vals in ((1, V7), (2, V7), (3, V7), (4, V5 if not deep else V7)) + (((5, V5),) if deep else ((5, (-1.0, 0.0, 0.5, 1.0)),)):
    out.append((f"simplex{n}", simplex, dict(n=n, vals=vals, values=(0.5, 1.0, 3.0))))
  for n, k in ((2, 1), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3)) + (((5, 3), (5, 2)) if deep else ()):
    out.append((f"sparse_simplex{n}-{k}", sparse_simplex, dict(n=n, k=k, vals=V5 if n < 4 else (-1.0, 0.0, 0.5, 1.0), values=(1.0, 2.0))))
  for n in (1, 2, 3) + ((4,) if deep else ()):
    out.append((f"l1-{n}", l1, dict(n=n, vals=V7 if n < 3 or deep else V5)))
    out.append((f"l2-{n}", l2, dict(n=n, vals=V7 if n < 3 or deep else V5)))
  out.append(("l2-sphere-origin", l2_sphere_origin, {}))
  for n in (9, 24) + ((60,) if deep else ()): out.insert(4, (f"long{n}", long, dict(n=n)))
  out.append(("flat", flat, {}))
  out.append(("pytrees", pytrees, {}))
  out.append(("pytree-scalar-bounds", pytree_scalar_bounds, {}))
  return out
