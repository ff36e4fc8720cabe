"""P12: descent, state consistency, feasibility and honest stopping, at every iteration from every start of a grid."""
import itertools
import numpy as np

LEVEL = "model_checking"
RULE = "at every iteration from every start/box: value does not increase (search not failed), state describes the returned point, iterates feasible, stop with error <= tol implies first-order optimality"
ASSUMPTIONS = ["BFGS and NonlinearCG with the Hager-Zhang search are not run on an objective with a NaN region (the search gives up there, and these states carry no failure flag)", "float64"]


def objectives():
  import jax.numpy as jnp
  return {
      "quadratic": lambda x, c: 0.5 * (x[0] ** 2 + 30.0 * x[1] ** 2) + 3.0 * x[0] * x[1] - jnp.dot(c, x),
      "rosenbrock": lambda x, c: (1 - x[0]) ** 2 + 10 * (x[1] - x[0] ** 2) ** 2 - 0.1 * jnp.dot(c, x),
      "wavy": lambda x, c: jnp.sin(2 * x[0]) + 0.3 * x[0] ** 2 + jnp.cos(x[1] - x[0]) + 0.2 * x[1] ** 2 - 0.1 * jnp.dot(c, x),
      "quartic": lambda x, c: 0.25 * jnp.sum(x ** 4) + 0.05 * (x[0] - x[1]) ** 2 - 0.1 * jnp.dot(c, x),
      "barrier": lambda x, c: -jnp.sum(jnp.log(2.5 - x ** 2)) - 0.3 * jnp.dot(c, x),     # NaN outside the domain
  }


GRID = np.array(list(itertools.product([-1.4, -0.3, 0.0, 0.8, 1.5], [-1.5, -0.4, 0.6, 1.3])))
C = np.array([1.0, -0.5])


def steps(solver, depth, x0, extra, in_axes_extra):
  import jax
  init = jax.jit(jax.vmap(lambda x, *e: solver.init_state(x, *e), in_axes=(0,) + in_axes_extra))
  upd = jax.jit(jax.vmap(lambda x, st, *e: tuple(solver.update(x, st, *e)), in_axes=(0, 0) + in_axes_extra))
  st = init(x0, *extra); p = x0
  P, S = [np.asarray(p)], [jax.tree_util.tree_map(np.asarray, st)]
  for _ in range(depth):
    p, st = upd(p, st, *extra)
    P.append(np.asarray(p)); S.append(jax.tree_util.tree_map(np.asarray, st))
  return np.stack(P), S


NCG = ("polak-ribiere", "fletcher-reeves", "hestenes-stiefel")


def unconstrained(R, solver, ls, init, depth, method=None):
  import jax, jax.numpy as jnp
  import jaxopt
  for on, f in objectives().items():
    if on == "barrier" and ls == "hager-zhang": continue      # Hager-Zhang gives up on NaN, and BFGS / NonlinearCG keep no failure flag
    kw = dict(fun=f, maxiter=100, tol=1e-6)
    if solver == "GradientDescent": kw.update(acceleration=False, maxls=40)
    else: kw.update(linesearch=ls, linesearch_init=init)
    if method: kw["method"] = method
    s = getattr(jaxopt, solver)(**kw)
    P, S = steps(s, depth, GRID, (C,), (None,))
    vg = jax.jit(jax.vmap(jax.value_and_grad(f), in_axes=(0, None)))
    V, G = [], []
    for k in range(depth + 1):
      v, g = vg(P[k], C); V.append(np.asarray(v)); G.append(np.asarray(g))
    V, G = np.stack(V), np.stack(G)
    lab = lambda k: (lambda i: f"{on} start={GRID[i].tolist()} k={k}")
    alive = np.ones(len(GRID), bool)         # a failed search (or failed descent) ends the claim for that start
    for k in range(depth):
      st = S[k + 1]
      R.check((st.iter_num == k + 1).all(), f"{on} iter_num k={k}", str(st.iter_num[:3]))
      if hasattr(st, "value"):
        R.closes(lambda i: lab(k)(i) + " value", st.value, V[k + 1], tol=1e-9)
        R.closes(lambda i: lab(k)(i) + " grad", st.grad, G[k + 1], tol=1e-8)
        R.closes(lambda i: lab(k)(i) + " error", st.error, np.linalg.norm(G[k + 1], axis=1), tol=1e-8)
      failed = getattr(st, "failed_linesearch", np.zeros(len(GRID), bool)).astype(bool)
      d = P[k + 1] - P[k]
      # descent needs a descent direction: quasi-Newton / CG directions may fail to be one when curvature was not enforced
      if solver == "NonlinearCG" and ls != "backtracking":
        dirn = S[k].descent_direction
      elif solver in ("GradientDescent", "NonlinearCG"):
        dirn = -G[k]
      else:
        dirn = d * np.where((st.stepsize > 0)[:, None], 1.0, 1.0)
      down = np.einsum("ij,ij->i", dirn, G[k]) < -1e-14
      tiny = np.linalg.norm(G[k], axis=1) < 1e-6
      ok = down & ~failed & ~tiny & alive
      inc = V[k + 1] - V[k]
      for i in np.where(ok)[0]:
        R.check(inc[i] <= 1e-9 * max(1, abs(V[k][i])), lab(k)(i) + " ascent", f"{V[k][i]} -> {V[k + 1][i]} (stepsize {st.stepsize[i]})")
      if solver == "NonlinearCG":
        den = {"polak-ribiere": np.einsum("ij,ij->i", G[k], G[k]), "fletcher-reeves": np.einsum("ij,ij->i", G[k], G[k]),
               "hestenes-stiefel": np.einsum("ij,ij->i", G[k + 1] - G[k], S[k].descent_direction)}[method]
        num = {"polak-ribiere": np.einsum("ij,ij->i", G[k + 1] - G[k], G[k + 1]), "fletcher-reeves": np.einsum("ij,ij->i", G[k + 1], G[k + 1]),
               "hestenes-stiefel": np.einsum("ij,ij->i", G[k + 1] - G[k], G[k + 1])}[method]
        g = den > 1e-5
        beta = np.maximum(0, num / np.where(g, den, 1))
        want = -G[k + 1] + beta[:, None] * S[k].descent_direction
        R.closes(lambda i: f"{on} start={GRID[g][i].tolist()} k={k} direction", st.descent_direction[g], want[g], tol=1e-6)
        if k == 0: R.closes(lab(0), S[0].descent_direction, -G[0], tol=1e-12)
        step = P[k] + st.stepsize[:, None] * (S[k].descent_direction if ls != "backtracking" else -G[k])
        R.closes(lambda i: lab(k)(i) + " step", P[k + 1], step, tol=1e-8)
      if solver == "GradientDescent":
        # direction of the step, and the reported error
        used = np.einsum("ij,ij->i", d, -G[k]) / np.maximum(np.einsum("ij,ij->i", G[k], G[k]), 1e-300)
        big = ~tiny
        R.closes(lambda i: f"{on} start={GRID[big][i].tolist()} k={k} step", d[big], (-used[:, None] * G[k])[big], tol=1e-8)
        R.closes(lambda i: f"{on} start={GRID[big][i].tolist()} k={k} error", st.error[big], np.linalg.norm(G[k], axis=1)[big], tol=1e-6)
      alive &= np.isfinite(V[k + 1])
      R.add(states=len(GRID), transitions=len(GRID))
    R.case(len(GRID)); R.outcome(solver, ls, init, method or "", on, n=len(GRID))
    R.outcome(solver, ls, "reached optimum", n=int((np.linalg.norm(G[-1], axis=1) < 1e-3).sum()))


def stopping(R, solver, ls):
  """run() from every start with several tolerances and budgets: error <= tol at a stop before maxiter, and the point meets it."""
  import jax, jax.numpy as jnp
  import jaxopt
  for on, f in objectives().items():
    if on == "barrier" and ls == "hager-zhang": continue
    def make(k, tol):
      kw = dict(fun=f, maxiter=k, tol=tol)
      if solver == "GradientDescent": kw.update(maxls=40)
      else: kw.update(linesearch=ls)
      return getattr(jaxopt, solver)(**kw)
    run = jax.jit(jax.vmap(lambda x, k, tol: tuple(make(k, tol).run(x, C)), in_axes=(0, None, None)))
    for tol in (1e-1, 1e-3, 1e-6):
      p, st = run(GRID, 60, tol)
      g = np.linalg.norm(np.asarray(jax.vmap(jax.grad(f), in_axes=(0, None))(p, C)), axis=1)
      n, e = np.asarray(st.iter_num), np.asarray(st.error)
      early = n < 60
      R.check((n <= 60).all(), f"{on} tol={tol} iter_num", str(n))
      for i in np.where(early)[0]:
        R.check(e[i] <= tol, f"{on} tol={tol} start={GRID[i].tolist()} stopped", f"after {n[i]} iterations with error {e[i]}")
        # gradient descent reports the step from the last point: the gradient there is the error, here at most L * step further
        lim = 1.0001 * tol if solver != "GradientDescent" else 40 * tol
        R.check(g[i] <= lim, f"{on} tol={tol} start={GRID[i].tolist()} optimality", f"|grad| {g[i]} after a stop with error {e[i]}")
      R.case(len(GRID)); R.outcome(solver, ls, on, "early" , n=int(early.sum())); R.outcome(solver, ls, on, "budget", n=int((~early).sum()))


# ---------------- boxes

SIDES = [(-np.inf, np.inf), (0.0, np.inf), (-np.inf, 0.5), (-0.3, 0.6), (0.2, 0.2), (-5.0, 5.0)]


def boxes():
  return np.array([[[a[0], b[0]], [a[1], b[1]]] for a in SIDES for b in SIDES])     # (36, 2, 2): lower, upper


def box_cases(starts):
  B = boxes(); L, U, X = [], [], []
  for lu in B:
    seen = set()
    for s in starts:
      x = np.clip(s, lu[0], lu[1])
      if tuple(x) in seen: continue
      seen.add(tuple(x)); L.append(lu[0]); U.append(lu[1]); X.append(x)
  return np.array(L), np.array(U), np.array(X)


STARTS = np.array(list(itertools.product([-1.0, 0.1, 1.4], [-0.8, 0.3, 1.2])))


def lbfgsb(R, ls, depth, hist, max_stepsize=1.0, outside=False):
  import jax, jax.numpy as jnp
  import jaxopt
  L, U, X = box_cases(STARTS)
  if outside:                  # also starts that violate bounds
    X = np.tile(STARTS, (len(boxes()), 1)); L, U = (np.repeat(boxes()[:, k], len(STARTS), axis=0) for k in (0, 1))
  for on, f in objectives().items():
    if on == "barrier": continue
    s = jaxopt.LBFGSB(fun=f, linesearch=ls, history_size=hist, maxiter=100, tol=1e-9, max_stepsize=max_stepsize)
    init = jax.jit(jax.vmap(lambda x, l, u: s.init_state(x, (l, u), C)))
    upd = jax.jit(jax.vmap(lambda x, st, l, u: tuple(s.update(x, st, (l, u), C))))
    vg = jax.jit(jax.vmap(jax.value_and_grad(f), in_axes=(0, None)))
    st = init(X, L, U); p = X
    v0, g0 = (np.asarray(a) for a in vg(np.clip(p, L, U), C))
    for k in range(depth):
      q, st = upd(p, st, L, U)
      q = np.asarray(q); v, g = (np.asarray(a) for a in vg(q, C))
      lab = lambda i: f"{on} box=[{L[i].tolist()},{U[i].tolist()}] start={X[i].tolist()} k={k}"
      out = np.maximum(np.maximum(L - q, q - U), 0).max(1)
      R.closes(lambda i: lab(i) + " feasible", out, np.zeros(len(X)), tol=1e-10)
      R.closes(lambda i: lab(i) + " value", np.asarray(st.value), v, tol=1e-9)
      R.closes(lambda i: lab(i) + " grad", np.asarray(st.grad), g, tol=1e-8)
      err = np.abs(np.clip(q - g, L, U) - q).max(1)
      R.closes(lambda i: lab(i) + " error", np.asarray(st.error), err, tol=1e-8)
      failed = np.asarray(st.failed_linesearch)
      for i in np.where(~failed)[0]:
        if max_stepsize > 1: continue         # cut steps are feasible, not necessarily lower
        R.check(v[i] <= v0[i] + 1e-9 * max(1, abs(v0[i])), lab(i) + " ascent", f"{v0[i]} -> {v[i]}")
      p, v0, g0 = q, v, g
      R.add(states=len(X), transitions=len(X))
    done = err < 1e-6
    R.outcome("LBFGSB", ls, on, "converged", n=int(done.sum())); R.outcome("LBFGSB", ls, on, "running", n=int((~done).sum()))
    if on == "quadratic":
      # strictly convex: the limit is the unique box minimiser
      W = box_qp(L, U)
      for i in np.where(done)[0]:
        R.check(np.abs(p[i] - W[i]).max() < 1e-4, f"{on} box=[{L[i].tolist()},{U[i].tolist()}] start={X[i].tolist()} solution", f"{p[i]} vs {W[i]}")
      R.check(done.mean() > 0.97 or max_stepsize > 1, f"{on} convergence", f"only {done.mean()} of the runs reached 1e-6 in {depth} iterations")
    R.case(len(X))


def box_qp(L, U):
  from mc import qp
  Q = np.array([[1.0, 3.0], [3.0, 30.0]]); memo = {}
  out = []
  for l, u in zip(L, U):
    key = (tuple(l), tuple(u))
    if key not in memo: memo[key] = qp.solve(Q, -C, np.eye(2), l, u)[1]
    out.append(memo[key])
  return np.array(out)


def lbfgsb_options(R):
  """Bound containers (None, pytrees), stepsize rules and maxls; every iterate feasible, last one optimal."""
  import jax, jax.numpy as jnp
  import jaxopt
  f = objectives()["quadratic"]
  L, U, X = box_cases(STARTS)
  W = box_qp(L, U)
  ft = lambda t, c: f(jnp.concatenate([t["b"], t["a"][None]]), c)
  pk = lambda v: {"b": v[:1], "a": v[1]}
  s = jaxopt.LBFGSB(fun=ft, maxiter=40, tol=1e-9)
  p, st = jax.jit(jax.vmap(lambda x, l, u: tuple(s.run(pk(x), (pk(l), pk(u)), C))))(X, L, U)
  got = np.stack([np.asarray(p["b"])[:, 0], np.asarray(p["a"])], 1)
  ok = np.asarray(st.error) < 1e-7
  R.closes(lambda i: f"pytree box=[{L[ok][i].tolist()},{U[ok][i].tolist()}] start={X[ok][i].tolist()}", got[ok], W[ok], tol=1e-5); R.case(len(X))
  R.check(ok.mean() > 0.97, "pytree convergence", str(ok.mean()))
  s = jaxopt.LBFGSB(fun=f, maxiter=40, tol=1e-9)
  for x in STARTS:
    p, st = s.run(jnp.asarray(x), None, C)
    R.close(f"bounds=None start={x.tolist()}", p, np.linalg.solve(np.array([[1.0, 3.0], [3.0, 30.0]]), C), tol=1e-5); R.case()
    p, st = s.run(jnp.asarray(x), bounds=(jnp.zeros(2), jnp.ones(2)), c=C)
    R.close(f"keyword bounds start={x.tolist()}", p, box_qp(np.zeros((1, 2)), np.ones((1, 2)))[0], tol=1e-5); R.case()
  for ss in (0.5, 2.0, lambda k: 1.0 / (1 + k)):
    s = jaxopt.LBFGSB(fun=f, maxiter=60, tol=1e-9, stepsize=ss)
    upd = jax.jit(jax.vmap(lambda x, st, l, u: tuple(s.update(x, st, (l, u), C))))
    st = jax.vmap(lambda x, l, u: s.init_state(x, (l, u), C))(X, L, U); p = X
    for k in range(6):
      p, st = upd(p, st, L, U); q = np.asarray(p)
      R.closes(lambda i: f"stepsize box=[{L[i].tolist()},{U[i].tolist()}] start={X[i].tolist()} k={k} feasible", np.maximum(np.maximum(L - q, q - U), 0).max(1), np.zeros(len(X)), tol=1e-12)
      R.case(len(X))


def projected(R, accel):
  import jax, jax.numpy as jnp
  import jaxopt
  from jaxopt import projection
  L, U, X = box_cases(STARTS)
  X = np.concatenate([X[::3], X[::5] + 1.7]); L = np.concatenate([L[::3], L[::5]]); U = np.concatenate([U[::3], U[::5]])   # infeasible starts too
  for on, f in objectives().items():
    s = jaxopt.ProjectedGradient(fun=f, projection=projection.projection_box, acceleration=accel, maxls=40, maxiter=100, tol=1e-9)
    init = jax.jit(jax.vmap(lambda x, l, u: s.init_state(x, (l, u), C)))
    upd = jax.jit(jax.vmap(lambda x, st, l, u: tuple(s.update(x, st, (l, u), C))))
    fv = jax.jit(jax.vmap(f, in_axes=(0, None)))
    st = init(X, L, U); p = X; v0 = np.asarray(fv(p, C))
    feas0 = (np.maximum(np.maximum(L - X, X - U), 0).max(1) == 0)
    for k in range(12):
      q, st = upd(p, st, L, U); q = np.asarray(q); v = np.asarray(fv(q, C))
      lab = lambda i: f"{on} box=[{L[i].tolist()},{U[i].tolist()}] start={X[i].tolist()} k={k}"
      fin = np.isfinite(v0)
      R.closes(lambda i: lab(i) + " feasible", np.where(fin, np.maximum(np.maximum(L - q, q - U), 0).max(1), 0), np.zeros(len(X)), tol=1e-12)
      if not accel:
        for i in np.where(fin & (feas0 | (k > 0)))[0]:
          R.check(v[i] <= v0[i] + 1e-9 * max(1, abs(v0[i])), lab(i) + " ascent", f"{v0[i]} -> {v[i]}")
      p, v0 = q, v
      R.add(states=len(X), transitions=len(X))
    R.case(len(X)); R.outcome("ProjectedGradient", f"accel={accel}", on, n=len(X))


def cdqp(R):
  import jax, jax.numpy as jnp
  import jaxopt
  L, U, X = box_cases(STARTS)
  for Q in (np.array([[1.0, 3.0], [3.0, 30.0]]), np.array([[2.0, -1.0], [-1.0, 0.5 + 1e-9]]), np.array([[1.0, 0.0], [0.0, 3.0]])):
    s = jaxopt.BoxCDQP(maxiter=100, tol=1e-9)
    upd = jax.jit(jax.vmap(lambda x, st, l, u: tuple(s.update(x, st, (Q, -C), (l, u)))))
    st = jax.vmap(lambda x, l, u: s.init_state(x, (Q, -C), (l, u)))(X, L, U); p = X
    val = lambda p: 0.5 * np.einsum("ij,jk,ik->i", p, Q, p) - p @ C
    for k in range(8):
      q, st = upd(p, st, L, U); q = np.asarray(q)
      lab = lambda i: f"Q={Q.ravel().tolist()} box=[{L[i].tolist()},{U[i].tolist()}] start={X[i].tolist()} k={k}"
      R.closes(lambda i: lab(i) + " feasible", np.maximum(np.maximum(L - q, q - U), 0).max(1), np.zeros(len(X)), tol=1e-12)
      R.closes(lambda i: lab(i) + " ascent", np.maximum(val(q) - val(np.asarray(p)), 0), np.zeros(len(X)), tol=1e-9)
      p = q; R.add(states=len(X), transitions=len(X))
    R.case(len(X)); R.outcome("BoxCDQP", n=len(X))


def mirror(R):
  """Mirror descent (entropy and Euclidean) on the simplex: feasible iterates; with a small constant step the objective decreases."""
  import jax, jax.numpy as jnp
  import jaxopt
  from jaxopt import projection
  S = np.array([[i, j, 6 - i - j] for i in range(7) for j in range(7 - i)]) / 6.0
  S = S[(S > 0).all(1)]
  f = lambda x, c: 0.5 * jnp.sum(jnp.array([1.0, 3.0, 0.5]) * (x - c) ** 2)
  for cname, c in (("inside", np.array([0.2, 0.3, 0.5])), ("vertex", np.array([3.0, -1.0, 0.0])), ("edge", np.array([0.7, 0.8, -2.0]))):
    for geo in ("kl", "euclid"):
      if geo == "kl":
        proj_grad = lambda x, g, t, h: projection.kl_projection_simplex(jnp.log(x) - t * g)
        proj_grad = jaxopt.MirrorDescent.make_projection_grad(lambda y, h: jax.nn.softmax(y), jnp.log)
      else:
        proj_grad = jaxopt.MirrorDescent.make_projection_grad(lambda y, h: projection.projection_simplex(y), lambda x: x)
      s = jaxopt.MirrorDescent(fun=f, projection_grad=proj_grad, stepsize=0.25, maxiter=50, tol=1e-9)
      upd = jax.jit(jax.vmap(lambda x, st: tuple(s.update(x, st, None, c))))
      st = jax.vmap(lambda x: s.init_state(x, None, c))(S); p = S; v0 = np.asarray(jax.vmap(f, in_axes=(0, None))(p, c))
      for k in range(10):
        q, st = upd(p, st); q = np.asarray(q); v = np.asarray(jax.vmap(f, in_axes=(0, None))(q, c))
        lab = lambda i: f"{geo} {cname} start={S[i].tolist()} k={k}"
        R.closes(lambda i: lab(i) + " sum", q.sum(1), np.ones(len(S)), tol=1e-12)
        R.check((q >= 0).all(), f"{geo} {cname} k={k} sign", str(q.min()))
        R.closes(lambda i: lab(i) + " ascent", np.maximum(v - v0, 0), np.zeros(len(S)), tol=1e-12)
        g = np.array([1.0, 3.0, 0.5]) * (np.asarray(p) - c)
        if geo == "kl":
          w = np.asarray(p) * np.exp(-0.25 * g); w /= w.sum(1, keepdims=True)
          R.closes(lambda i: lab(i) + " multiplicative update", q, w, tol=1e-10)
        p, v0 = q, v; R.add(states=len(S), transitions=len(S))
      R.case(len(S)); R.outcome("MirrorDescent", geo, cname, n=len(S))


def steep(R):
  """Very steep objectives: a tiny accepted stepsize must not be mistaken for convergence; NaN regions are never entered."""
  import jax, jax.numpy as jnp
  import jaxopt
  for name in ("GradientDescent", "ProximalGradient", "ProjectedGradient"):
    for curv in (1.0, 1e3, 1e6, 1e7, 1e9):
      for accel in (False, True):
        kw = dict(fun=lambda x: 0.5 * curv * jnp.sum((x - 1.0) ** 2), maxiter=50, maxls=60, tol=1e-3, acceleration=accel)
        if name == "ProjectedGradient": kw["projection"] = lambda x, h: x
        s = getattr(jaxopt, name)(**kw)
        for x0 in (0.0, 3.0, 1.0 + 1e-4, -40.0):
          p, st = s.run(jnp.array([x0, 2 * x0]), *([None] if name != "GradientDescent" else []))
          g = float(jnp.linalg.norm(curv * (p - 1.0)))
          R.case(); R.outcome(name, "early" if st.iter_num < 50 else "budget")
          if st.iter_num < 50:
            R.check(st.error <= 1e-3 and g <= 0.05, f"{name} curvature={curv} accel={accel} x0={x0}", f"stopped after {st.iter_num} iterations, error {float(st.error)}, |grad| {g}")
  for name in ("GradientDescent", "ProximalGradient"):
    for x0 in (0.01, 0.3, 0.9, 0.99):
      for accel in (False, True):
        s = getattr(jaxopt, name)(fun=lambda x: -jnp.sum(jnp.log(x)) - jnp.sum(jnp.log(1 - x)) + 3 * jnp.sum(x), maxiter=100, maxls=60, tol=1e-6, acceleration=accel)
        p, st = s.run(jnp.array([x0, 0.5]), *([None] if name != "GradientDescent" else []))
        R.check(bool(jnp.isfinite(p).all()), f"{name} log domain x0={x0} accel={accel}", f"{p}")
        if not accel:
          R.close(f"{name} log barrier x0={x0}", p, np.full(2, 0.5 * (5 / 3 - np.sqrt(25 / 9 - 4 / 3))), tol=1e-4)
        R.case(); R.outcome(name, "domain")


def jobs(tier):
  deep = tier == "thorough"
  D = 20 if deep else 8
  out = []
  for ls in ("hager-zhang", "zoom", "backtracking"):
    for h in ((3, 10) if deep else (3,)):
      out.append((f"LBFGSB-{ls}-{h}", lbfgsb, dict(ls=ls, depth=25 if deep else 18, hist=h)))
  out.append(("LBFGSB-outside", lbfgsb, dict(ls="zoom", depth=12, hist=3, outside=True)))
  out.append(("LBFGSB-long-steps", lbfgsb, dict(ls="backtracking", depth=12, hist=3, max_stepsize=8.0)))
  for s in ("BFGS", "LBFGS"):
    for ls in ("hager-zhang", "zoom", "backtracking"):
      for init in (("increase", "max", "current") if deep or ls == "zoom" else ("increase",)):
        out.append((f"{s}-{ls}-{init}", unconstrained, dict(solver=s, ls=ls, init=init, depth=D)))
      out.append((f"stop-{s}-{ls}", stopping, dict(solver=s, ls=ls)))
  for ls in ("hager-zhang", "zoom", "backtracking"):
    for m in NCG:
      if deep or ls != "hager-zhang" or m == "polak-ribiere":
        out.append((f"NonlinearCG-{m}-{ls}", unconstrained, dict(solver="NonlinearCG", ls=ls, init="increase", depth=D, method=m)))
    out.append((f"stop-NonlinearCG-{ls}", stopping, dict(solver="NonlinearCG", ls=ls)))
  out.append(("GradientDescent", unconstrained, dict(solver="GradientDescent", ls="fista", init="-", depth=D)))
  out.append(("stop-GradientDescent", stopping, dict(solver="GradientDescent", ls="fista")))
  out.append(("LBFGSB-options", lbfgsb_options, {}))
  for a in (False, True):
    out.append((f"projected-{int(a)}", projected, dict(accel=a)))
  out += [("cdqp", cdqp, {}), ("mirror", mirror, {}), ("steep", steep, {})]
  return out
