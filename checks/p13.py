"""P13: Levenberg-Marquardt and Gauss-Newton: the accept/reject machine and the step equations.

Part 1 (machine): the residual function is a table, so that a whole history of trial outcomes (better, equal, worse,
NaN, infinite, with various new Jacobians) can be chosen freely; all histories over the alphabet are executed on the real
update() and compared field by field with a NumPy transcription of Madsen & Nielsen's algorithm 6.18.
Part 2 (functions): real residual functions, every start of a grid x every option; each visited state's successor is checked.
"""
import itertools, functools
import numpy as np

LEVEL = "model_checking"
RULE = "every history of trial residuals and Jacobians over the alphabet, and every iteration from every start x option; oracle: NumPy transcription of algorithm 6.18 (dense damped normal equations)"
ASSUMPTIONS = ["two parameters; x64", "conjugate-gradient steps are compared to 1e-4"]

DMAX = 2.0 ** 32


def oracle_solve(J, r, mu, H=None):
  """delta (already negated), velocity, acceleration; batch leading axis."""
  n = J.shape[-1]
  M = np.einsum("bki,bkj->bij", J, J) + mu[:, None, None] * np.eye(n)
  v = np.linalg.solve(M, np.einsum("bki,bk->bi", J, r)[..., None])[..., 0]
  a = np.zeros_like(v)
  if H is not None:
    rpp = np.einsum("bkij,bi,bj->bk", H, v, v)
    a = np.linalg.solve(M, np.einsum("bki,bk->bi", J, rpp)[..., None])[..., 0]
  return -(v + 0.5 * a), v, a


def oracle_accept(p, mu, nu, r, J, d, v, a, rn, geodesic):
  g = np.einsum("bki,bk->bi", J, r)
  F = 0.5 * (r ** 2).sum(1); Fn = 0.5 * (rn ** 2).sum(1)
  den = 0.5 * np.einsum("bi,bi->b", d, mu[:, None] * d - g)
  with np.errstate(all="ignore"):
    rho = np.where(den > 0, (F - Fn) / den, 0.0)     # a step that is no descent of the model is rejected
    acc = (rho > 0)
    if geodesic: acc &= np.linalg.norm(a, axis=1) / np.linalg.norm(v, axis=1) <= 0.75
    mu2 = np.where(acc, mu * np.maximum(1 / 3, 1 - (2 * rho - 1) ** 3), np.minimum(mu * nu, DMAX))
    nu2 = np.where(acc, 2.0, np.minimum(2 * nu, DMAX))
  return acc, mu2, nu2, rho, F, Fn


# ---------------- the machine

RES = [np.array(v, float) for v in ([1.0, 0.0], [0.3, -0.2], [1.0, 0.5], [4.0, 1.0], [np.nan, 0.0], [np.inf, 1.0])]
JAC = [np.array([[1.0, 0.5], [0.0, 2.0]]), np.array([[0.1, 0.0], [1.0, 0.1]])]


def machine(R, solver, geodesic, depth, userjac=False, singular=False, stretched=False):
  import jax, jax.numpy as jnp
  import jaxopt
  jacs = JAC if not singular and not stretched else [JAC[0], np.array([[10.0, 0.0], [0.0, 0.1]])] if stretched else [JAC[0], np.array([[1.0, 1.0], [1.0, 1.0]])]
  letters = [(r, j) for r in RES for j in jacs]
  Hc = np.array([[[0.0, 0.0], [0.0, 12.0]], [[0.0, 0.0], [0.0, 0.2]]]) if stretched else np.array([[[0.3, 0.1], [0.1, 0.0]], [[0.0, 0.2], [0.2, -0.4]]]) if geodesic else np.zeros((2, 2, 2))

  def fun(p, r, J):
    d = p - jax.lax.stop_gradient(p)
    return r + J @ d + 0.5 * jnp.einsum("kij,i,j->k", Hc, d, d)

  kw = dict(residual_fun=fun, solver=solver, materialize_jac=True, geodesic=geodesic, damping_parameter=1e-2, maxiter=100, tol=1e-9)
  if userjac:
    kw["jac_fun"] = lambda p, r, J: J + jnp.einsum("kij,i->kj", Hc, p - jax.lax.stop_gradient(p))
  s = jaxopt.LevenbergMarquardt(**kw)
  # state space: all letter sequences; batch = all prefixes, extended one letter at a time
  p0 = np.array([0.4, -0.7])
  fr = np.array([l[0] for l in letters if np.isfinite(l[0]).all()])
  fj = np.array([l[1] for l in letters if np.isfinite(l[0]).all()])
  init = jax.jit(jax.vmap(lambda r, j: s.init_state(jnp.asarray(p0), r, j)))
  upd = jax.jit(jax.vmap(lambda p, st, r, j: tuple(s.update(p, st, r, j))))
  st = init(fr, fj)
  n = len(fr)
  P = np.tile(p0, (n, 1)); r, J = fr, fj
  tag = [f"start r={fr[i].tolist()} J={fj[i].ravel().tolist()}" for i in range(n)]
  mu = 1e-2 * np.max(np.einsum("bki,bki->bi", J, J), axis=1); nu = np.full(n, 2.0)
  R.closes(tag, st.damping_factor, mu); R.closes(tag, st.gradient, np.einsum("bki,bk->bi", J, r)); R.closes(tag, st.value, 0.5 * (r ** 2).sum(1))
  R.check((np.asarray(st.iter_num) == 0).all() and (np.asarray(st.increase_factor) == 2).all(), "init counters")
  LR, LJ = np.array([l[0] for l in letters]), np.array([l[1] for l in letters])
  acc_n = rej_n = 0
  for k in range(depth):
    m = len(letters); N = len(P)
    rep = lambda a: np.repeat(np.asarray(a), m, axis=0)
    P, r, J, mu, nu = rep(P), rep(r), rep(J), rep(mu), rep(nu)
    st = jax.tree_util.tree_map(rep, st)
    rn, Jn = np.tile(LR, (N, 1)), np.tile(LJ, (N, 1, 1))
    tag = [f"{t}; {j}" for t in tag for j in range(m)]
    q, st = upd(P, st, rn, Jn)
    st = jax.tree_util.tree_map(np.asarray, st); q = np.asarray(q)
    H = np.tile(Hc, (len(P), 1, 1, 1)) if geodesic else None
    d, v, a = oracle_solve(J, r, mu, H)
    acc, mu2, nu2, rho, F, Fn = oracle_accept(P, mu, nu, r, J, d, v, a, rn, geodesic)
    ok = acc[:, None]
    keep = np.abs(np.where(np.isfinite(rho), rho, 1.0)) > 1e-9      # ties are exact: equal residual
    keep |= (rn == r).all(1)
    lab = lambda i: f"k={k} {tag[i]}"
    r2, J2 = np.where(ok, rn, r), np.where(ok[..., None], Jn, J)
    P2 = np.where(ok, P + d, P)
    for nm, got, want in (("params", q, P2), ("residual", st.residual, r2), ("damping", st.damping_factor, mu2), ("increase", st.increase_factor, nu2),
                          ("value", st.value, 0.5 * (r2 ** 2).sum(1)), ("gradient", st.gradient, np.einsum("bki,bk->bi", J2, r2)),
                          ("error", st.error, np.linalg.norm(np.einsum("bki,bk->bi", J2, r2), axis=1)), ("delta", st.delta, d),
                          ("jac", st.jac, J2), ("jtj", st.jtj, np.einsum("bki,bkj->bij", J2, J2))):
      R.closes(lambda i: lab(i) + " " + nm, got, want, tol=2e-6 if singular else 1e-8)
    R.check((st.iter_num == k + 1).all(), f"k={k} iter_num")
    for i in np.where(st.value > F * (1 + 1e-12))[0]: R.violation(lab(i) + " cost", f"{F[i]} -> {st.value[i]}: accepted a step that increases the cost")
    P, r, J, mu, nu = q, np.asarray(st.residual), np.asarray(st.jac), np.asarray(st.damping_factor), np.asarray(st.increase_factor)
    good = keep & np.isfinite(P).all(1)
    if k < depth - 1 and len(P) > 3000: # merge equal states to bound the frontier
      key = np.round(np.concatenate([P, r, J.reshape(len(P), -1), mu[:, None], nu[:, None]], 1), 10)
      _, idx = np.unique(key, axis=0, return_index=True)
      idx = np.array(sorted(i for i in idx if good[i]))
      P, r, J, mu, nu = P[idx], r[idx], J[idx], mu[idx], nu[idx]; tag = [tag[i] for i in idx]
      st = jax.tree_util.tree_map(lambda x: x[idx], st)
    acc_n += int(acc.sum()); rej_n += int((~acc).sum())
    R.add(states=len(q), transitions=len(q), traces=len(q), evals=len(q))
  R.outcome(str(solver), f"geodesic={geodesic}", "accepted", n=acc_n); R.outcome(str(solver), f"geodesic={geodesic}", "rejected", n=rej_n)
  R.sample(f"{n} initial states, {len(letters)} letters, depth {depth}: {acc_n} accepted, {rej_n} rejected")


def long_runs(R, length, geodesic=False):
  """Histories of `length` trials in which any two (or fewer) are accepted and all others rejected (worse, equal, NaN,
  infinite): the damping and its increase factor reach their caps, fall and rise again."""
  import jax, jax.numpy as jnp
  import jaxopt
  bad = [np.array([4.0, 1.0]), np.array([np.nan, 0.0]), np.array([np.inf, 1.0]), None]
  J0, J1 = JAC
  Hc = np.array([[[0.3, 0.1], [0.1, 0.0]], [[0.0, 0.2], [0.2, -0.4]]]) if geodesic else np.zeros((2, 2, 2))

  def fun(p, r, J):
    d = p - jax.lax.stop_gradient(p)
    return r + J @ d + 0.5 * jnp.einsum("kij,i,j->k", Hc, d, d)

  seqs = [()] + [(i,) for i in range(length)] + [(i, j) for i in range(length) for j in range(i + 1, length)]
  for damping in (1e-2, 30.0):
    s = jaxopt.LevenbergMarquardt(residual_fun=fun, solver="lu", materialize_jac=True, geodesic=geodesic, damping_parameter=damping, maxiter=1000, tol=1e-9)
    upd = jax.jit(jax.vmap(lambda p, st, r, j: tuple(s.update(p, st, r, j))))
    n = len(seqs) * len(bad)
    accept = np.array([[k in q for k in range(length)] for q in seqs for b in bad])
    r = np.tile([1.0, 0.5], (n, 1)); J = np.tile(J0, (n, 1, 1)); P = np.tile([0.4, -0.7], (n, 1))
    st = jax.jit(jax.vmap(lambda p, r, j: s.init_state(p, r, j)))(P, r, J)
    mu = np.full(n, damping * 4.25); nu = np.full(n, 2.0)
    R.closes(lambda i: f"{damping} {seqs[i // 4]} init", st.damping_factor, mu)
    capped = 0
    for k in range(length):
      rn = np.array([0.5 * r[i] if accept[i, k] else r[i] if bad[i % 4] is None else bad[i % 4] for i in range(n)])
      Jn = np.where(accept[:, k, None, None], J[:, ::-1] if k % 2 else J1, J0)
      q, st = upd(P, st, rn, Jn)
      st = jax.tree_util.tree_map(np.asarray, st); q = np.asarray(q)
      d, v, a = oracle_solve(J, r, mu, np.tile(Hc, (n, 1, 1, 1)) if geodesic else None)
      acc, mu, nu, rho, F, Fn = oracle_accept(P, mu, nu, r, J, d, v, a, rn, geodesic)
      r, J, P = np.where(acc[:, None], rn, r), np.where(acc[:, None, None], Jn, J), np.where(acc[:, None], P + d, P)
      lab = lambda nm: (lambda i: f"{damping} accept at {seqs[i // 4]}, else {bad[i % 4]} k={k} {nm}")
      R.closes(lab("params"), q, P, tol=1e-8); R.closes(lab("damping"), st.damping_factor / mu, np.ones(n), tol=1e-8); R.closes(lab("increase"), st.increase_factor, nu, tol=1e-12)
      R.closes(lab("residual"), st.residual, r, tol=1e-10); R.closes(lab("gradient"), st.gradient, np.einsum("bki,bk->bi", J, r), tol=1e-9)
      R.check(np.isfinite(st.damping_factor).all() and (st.damping_factor <= DMAX).all(), f"{damping} k={k} damping bounded", str(st.damping_factor.max()))
      P = q; r = st.residual; J = st.jac; mu = st.damping_factor; nu = np.asarray(st.increase_factor, float)
      capped += int((mu == DMAX).sum())
      R.add(states=n, transitions=n, traces=n, evals=n)
      R.outcome("long", "accepted", n=int(acc.sum())); R.outcome("long", "rejected", n=int((~acc).sum()))
    R.outcome("long", "damping at its cap", n=capped)
    R.check(capped > 0, f"{damping} the cap was reached")


# ---------------- real residual functions

def functions():
  import jax.numpy as jnp
  t = np.array([0.0, 0.5, 1.0, 2.0]); y = np.array([2.0, 1.3, 0.9, 0.2])
  return {
      "rosenbrock": lambda x, c: jnp.array([10 * (x[1] - x[0] ** 2), 1 - x[0] + 0.1 * c]),
      "exponential": lambda x, c: x[0] * jnp.exp(-x[1] * t) - y - 0.1 * c,
      "domain": lambda x, c: jnp.array([jnp.log(x[0] + 0.5) + c, jnp.sqrt(x[1] + 1.6) - 0.3, x[0] * x[1]]),      # NaN for trial points outside
      "rankone": lambda x, c: jnp.array([x[0] + x[1] - c, 2 * (x[0] + x[1]) - 1.0]),
      "underdetermined": lambda x, c: jnp.array([jnp.sin(x[0]) + 2 * x[1] - c]),
      "cubic": lambda x, c: jnp.array([x[0] ** 3 - x[1] + c, x[1] ** 3 + x[0], 0.1 * x[0] * x[1] - 1.0]),
  }


STARTS = np.array(list(itertools.product([-0.4, 0.0, 0.7, 2.5], [-1.5, -0.2, 0.6, 3.0])))


def options():
  """(name, keyword arguments, tolerance of a step)"""
  from jaxopt import linear_solve as ls
  out = []
  for s in ("cholesky", "lu", "qr", "inv"):
    for geo in (False, True):
      out.append((f"mat-{s}-{'geo' if geo else 'plain'}", dict(solver=s, materialize_jac=True, geodesic=geo), 1e-6))
  for s in ("cholesky", "lu", "inv"):
    out.append((f"free-{s}", dict(solver=s), 1e-6))
  out.append(("free-lu-geo", dict(solver="lu", geodesic=True), 1e-6))
  out.append(("free-cg", dict(), 1e-4))
  out.append(("free-cg-geo", dict(geodesic=True), 1e-2))
  out.append(("free-tight", dict(solver=functools.partial(ls.solve_cg, tol=1e-13)), 1e-6))
  out.append(("mat-userjac", dict(solver="qr", materialize_jac=True, jac_fun="user"), 1e-6))
  out.append(("mat-userjac-geo", dict(solver="cholesky", materialize_jac=True, jac_fun="user", geodesic=True), 1e-6))
  out.append(("mat-aux", dict(solver="lu", materialize_jac=True, has_aux=True), 1e-6))
  out.append(("free-aux", dict(solver="lu", has_aux=True), 1e-6))
  return out


OPTNAMES = ["free-cg", "free-cg-geo", "free-tight"] + [f"mat-{s}-{g}" for s in ("cholesky", "lu", "qr", "inv") for g in ("plain", "geo")] + \
    ["free-cholesky", "free-lu", "free-inv", "free-lu-geo", "mat-userjac", "mat-userjac-geo", "mat-aux", "free-aux"]


def lm_functions(R, opt, depth):
  import jax, jax.numpy as jnp
  import jaxopt
  kw, tol = {n: (k, t) for n, k, t in options()}[opt]
  geo = kw.get("geodesic", False)
  c = 0.7
  for fn, f in functions().items():
    k2 = dict(kw)
    if k2.get("jac_fun") == "user": k2["jac_fun"] = lambda x, c: jax.jacrev(f)(x, c)
    fun = (lambda x, c: (f(x, c), {"x": x, "n": jnp.sum(x) > 0})) if kw.get("has_aux") else f
    s = jaxopt.LevenbergMarquardt(residual_fun=fun, maxiter=100, tol=1e-9, damping_parameter=1e-3, **k2)
    init = jax.jit(jax.vmap(lambda x: s.init_state(x, c)))
    upd = jax.jit(jax.vmap(lambda x, st: tuple(s.update(x, st, c))))
    ev = jax.jit(jax.vmap(lambda x: (f(x, c), jax.jacfwd(f)(x, c), jax.hessian(f)(x, c))))
    E = lambda x: [np.asarray(a) for a in ev(x)]
    P = STARTS; st = init(P)
    r, J, H = E(P)
    fin = np.isfinite(r).all(1) & np.isfinite(J).all((1, 2))
    P = P[fin]; st = jax.tree_util.tree_map(lambda a: np.asarray(a)[fin], st); r, J, H = r[fin], J[fin], H[fin]
    X0 = P
    F0 = 0.5 * (r ** 2).sum(1)
    lab0 = lambda i: f"{fn} start={X0[i].tolist()} init"
    R.closes(lambda i: lab0(i) + " damping", st.damping_factor, 1e-3 * np.max(np.einsum("bki,bki->bi", J, J), 1))
    R.closes(lambda i: lab0(i) + " residual", st.residual, r); R.closes(lambda i: lab0(i) + " gradient", st.gradient, np.einsum("bki,bk->bi", J, r))
    for k in range(depth):
      mu, nu = np.asarray(st.damping_factor), np.asarray(st.increase_factor, float)
      q, st = upd(P, st); q = np.asarray(q); st = jax.tree_util.tree_map(np.asarray, st)
      lab = lambda i: f"{fn} start={X0[i].tolist()} k={k}"
      d, v, a = oracle_solve(J, r, mu, H if geo else None)
      with np.errstate(all="ignore"):
        gn = np.linalg.norm(np.einsum("bki,bk->bi", J, r), axis=1)
        cond = np.array([np.linalg.cond(np.einsum("ki,kj->ij", J[i], J[i]) + mu[i] * np.eye(2)) if np.isfinite(J[i]).all() and np.isfinite(mu[i]) else np.inf for i in range(len(J))])
      sane = np.isfinite(d).all(1) & (cond < (1e7 if "cg" not in opt else 3e2 if geo else 1e5)) & (gn > 1e-6)
      w = np.where(sane)[0]
      scale = np.maximum(1e-3, np.abs(d).max(1))
      if "cg" in opt and not geo:      # Krylov: relative residual of the system it solves
        M = np.einsum("bki,bkj->bij", J, J) + mu[:, None, None] * np.eye(2)
        gr = np.einsum("bki,bk->bi", J, r)
        e = np.einsum("bij,bj->bi", M, st.delta) + gr
        rel = np.linalg.norm(e, axis=1) / np.linalg.norm(gr, axis=1)
        for i in w: R.check(rel[i] <= 1e-4, lab(i) + " step", f"relative residual {rel[i]}")
      else:
        R.closes(lambda i: lab(w[i]) + " step", (st.delta / scale[:, None])[w], (d / scale[:, None])[w], tol=tol)
      rn, Jn, Hn = E(P + st.delta)
      g = np.einsum("bki,bk->bi", J, r)
      acc, mu2, nu2, rho, F, Fn = oracle_accept(P, mu, nu, r, J, st.delta, v, a, rn, geo)
      with np.errstate(all="ignore"):
        ratio = np.linalg.norm(a, axis=1) / np.linalg.norm(v, axis=1)
        clear = sane & ((np.abs(rho) > 1e-6) | ~np.isfinite(rho)) & (np.abs(F - Fn) > 1e-12 * (1 + F)) & (~geo | (np.abs(ratio - 0.75) > 1e-3))
      # 1. never a larger cost, whatever happened
      r2, J2, H2 = E(q)
      F2 = 0.5 * (r2 ** 2).sum(1)
      for i in range(len(q)):
        R.check(F2[i] <= F[i] * (1 + 1e-12) + 1e-300, lab(i) + " cost", f"{F[i]} -> {F2[i]} (gain ratio {rho[i]})")
      # 2. accept / reject
      want = np.where(acc[:, None], P + st.delta, P)
      for nm, got, wa in (("params", q, want), ("damping", st.damping_factor, mu2), ("increase", st.increase_factor, nu2)):
        w2 = np.where(clear)[0]
        R.closes(lambda i: lab(w2[i]) + " " + nm, got[w2], wa[w2], tol=1e-6)
      # 3. the state belongs to the returned parameters
      fin = np.isfinite(r2).all(1)
      R.check(fin.all(), f"{fn} k={k} finite", str(q[~fin][:2]))
      R.closes(lambda i: lab(i) + " residual", st.residual, r2, tol=1e-10); R.closes(lambda i: lab(i) + " value", st.value, F2, tol=1e-10)
      g2 = np.einsum("bki,bk->bi", J2, r2)
      R.closes(lambda i: lab(i) + " gradient", st.gradient, g2, tol=1e-9); R.closes(lambda i: lab(i) + " error", st.error, np.linalg.norm(g2, axis=1), tol=1e-9)
      if kw.get("materialize_jac"): R.closes(lambda i: lab(i) + " jac", st.jac, J2, tol=1e-9)
      if kw.get("has_aux"):
        R.closes(lambda i: lab(i) + " aux", st.aux["x"], q, tol=1e-12); R.check((st.aux["n"] == (q.sum(1) > 0)).all(), f"{fn} k={k} aux flag", str(st.aux["n"].dtype))
      R.outcome(fn, "accepted", n=int(acc.sum())); R.outcome(fn, "rejected", n=int((~acc).sum())); R.outcome(fn, "non-finite trial", n=int((~np.isfinite(rn).all(1)).sum()))
      P, r, J, H = q, r2, J2, H2
      R.add(states=len(q), transitions=len(q), traces=len(q), evals=len(q))


def lm_run(R, crit):
  """run(): the stopping rules, against the same rules applied to a manual loop."""
  import jax, jax.numpy as jnp
  import jaxopt
  for fn, f in functions().items():
    X = STARTS[(STARTS[:, 0] > -0.5) & (STARTS[:, 1] > -1.6)]
    def make(xtol, gtol):
      kw = dict(xtol=xtol, gtol=gtol, stop_criterion="madsen-nielsen") if crit == "mn" else dict(tol=gtol)
      return jaxopt.LevenbergMarquardt(residual_fun=f, maxiter=25, solver="qr", materialize_jac=True, **kw)
    run_ = jax.jit(lambda X, a, b: jax.vmap(lambda x: tuple(make(a, b).run(x, 0.7)))(X)); run = lambda a, b: run_(X, a, b)
    s = make(1e-3, 1e-3)
    one = jax.jit(jax.vmap(lambda x, st: tuple(s.update(x, st, 0.7))))
    for tols in ((1e-1, 1e-1), (1e-3, 1e-3), (1e-3, 1e-8), (1e-8, 1e-3), (0.3, 0.01), (1.5, 1e-6)):
      p, st = run(*tols)
      q, t = np.asarray(X), jax.jit(jax.vmap(lambda x: s.init_state(x, 0.7)))(X)
      done = np.zeros(len(X), bool); n = np.zeros(len(X), int); out = np.array(q)
      near = np.zeros(len(X), bool)
      for k in range(25):
        q2, t = one(q, t); q = np.asarray(q2)
        out[~done] = q[~done]; n[~done] = k + 1
        g = np.asarray(t.gradient); d = np.linalg.norm(np.asarray(t.delta), axis=1); pn = np.linalg.norm(q, axis=1)
        if crit == "mn":
          lhs = [(np.abs(g).max(1), tols[1]), (d, tols[0] * (pn + tols[0]))]
        else:
          lhs = [(np.linalg.norm(g, axis=1), tols[1])]
        for a, b in lhs:
          near |= ~done & (np.abs(a - b) < 1e-9 * (1 + np.abs(b)))
          with np.errstate(all="ignore"): done |= ~(a > b)
        if done.all(): break
      ok = ~near
      R.closes(lambda i: f"{fn} {tols} start={X[ok][i].tolist()} iterations", np.asarray(st.iter_num)[ok], n[ok])
      R.closes(lambda i: f"{fn} {tols} start={X[ok][i].tolist()} params", np.asarray(p)[ok], out[ok], tol=1e-8)
      R.case(len(X)); R.outcome(crit, fn, "stopped early", n=int((n < 25).sum()))


# ---------------- Gauss-Newton

def gauss_newton(R, aux, depth):
  import jax, jax.numpy as jnp
  import jaxopt
  c = 0.7
  for fn, f in functions().items():
    fun = (lambda x, c: (f(x, c), {"x": x})) if aux else f
    s = jaxopt.GaussNewton(residual_fun=fun, maxiter=100, tol=1e-9, has_aux=aux)
    init = jax.jit(jax.vmap(lambda x: s.init_state(x, c)))
    upd = jax.jit(jax.vmap(lambda x, st: tuple(s.update(x, st, c))))
    ev = jax.jit(jax.vmap(lambda x: (f(x, c), jax.jacfwd(f)(x, c))))
    P = STARTS; st = init(P)
    R.check(np.isinf(np.asarray(st.error)).all() and (np.asarray(st.iter_num) == 0).all(), f"{fn} init")
    for k in range(depth):
      r, J = (np.asarray(a) for a in ev(P))
      q, st = upd(P, st); q = np.asarray(q); st = jax.tree_util.tree_map(np.asarray, st)
      M = np.einsum("bki,bkj->bij", J, J)
      g = np.einsum("bki,bk->bi", J, r)
      lab = lambda i: f"{fn} start={STARTS[i].tolist()} k={k}"
      fin = np.isfinite(M).all((1, 2)) & np.isfinite(g).all(1)
      cond = np.array([np.linalg.cond(M[i]) if fin[i] else np.inf for i in range(len(M))])
      # consistent normal equations always have a solution; the Krylov solution is the minimum-norm one
      w = np.where(fin & ((cond < 1e4) | (cond > 1e15)) & (np.linalg.norm(g, axis=1) > 1e-8))[0]
      d = np.array([np.linalg.lstsq(J[i], r[i], rcond=1e-9)[0] for i in w]).reshape(-1, 2)
      sc = np.maximum(1e-3, np.abs(d).max(1, initial=0))[:, None]
      R.closes(lambda i: lab(w[i]) + " step", (P - q)[w] / sc, d / sc, tol=1e-4)
      w = np.where(fin)[0]
      R.closes(lambda i: lab(w[i]) + " delta", st.delta[w], (P - q)[w], tol=1e-9)
      R.closes(lambda i: lab(w[i]) + " error", st.error[w], np.linalg.norm(st.delta, axis=1)[w], tol=1e-9)
      R.closes(lambda i: lab(w[i]) + " residual", st.residual[w], r[w], tol=1e-10)
      R.closes(lambda i: lab(w[i]) + " gradient", st.gradient[w], g[w], tol=1e-9)
      R.closes(lambda i: lab(w[i]) + " value", st.value[w], 0.5 * (r ** 2).sum(1)[w], tol=1e-10)
      if aux: R.closes(lambda i: lab(w[i]) + " aux", st.aux["x"][w], P[w], tol=1e-12)
      R.check((st.iter_num == k + 1).all(), f"{fn} k={k} iter_num")
      P = q
      R.add(states=len(q), transitions=len(q), traces=len(q), evals=len(q))
    R.outcome("GaussNewton", fn, "finite", n=int(np.isfinite(P).all(1).sum()))


def agreement(R):
  """All least-squares solvers and option sets reach stationary points."""
  import jax, jax.numpy as jnp
  import jaxopt
  for fn in ("rosenbrock", "exponential", "cubic"):
    f = functions()[fn]
    for name, kw, tol in options():
      if name not in ("mat-qr-plain", "mat-cholesky-geo", "free-lu", "free-cg"): continue
      s = jaxopt.LevenbergMarquardt(residual_fun=f, maxiter=200, tol=1e-8, **kw)
      p, st = jax.jit(jax.vmap(lambda x: tuple(s.run(x, 0.7))))(STARTS)
      for i in range(len(STARTS)):
        if st.error[i] <= 1e-8:
          g = np.asarray(jax.grad(lambda x: 0.5 * jnp.sum(f(x, 0.7) ** 2))(p[i]))
          R.check(np.abs(g).max() < 1e-6, f"{fn} {name} start={STARTS[i].tolist()} stationary", str(g))
        R.case()
      R.outcome(fn, "converged", n=int((np.asarray(st.error) <= 1e-8).sum()))
      R.check((np.asarray(st.error) <= 1e-8).mean() > 0.75, f"{fn} {name} convergence", str(np.asarray(st.error)))


def jobs(tier):
  deep = tier == "thorough"
  out = [("run-gradient", lm_run, dict(crit="grad")), ("run-madsen-nielsen", lm_run, dict(crit="mn")), ("agreement", agreement, {})]
  for o in OPTNAMES:
    out.append((f"lm-{o}", lm_functions, dict(opt=o, depth=25 if deep else 10)))
  for s in ("cholesky", "lu", "qr", "inv"):
    out.append((f"machine-{s}", machine, dict(solver=s, geodesic=False, depth=5 if deep else 4)))
  out.append(("machine-lu-geo", machine, dict(solver="lu", geodesic=True, depth=5 if deep else 4)))
  out.append(("machine-qr-geo", machine, dict(solver="qr", geodesic=True, depth=4 if deep else 3)))
  out.append(("machine-userjac", machine, dict(solver="cholesky", geodesic=True, depth=3, userjac=True)))
  out.append(("machine-singular", machine, dict(solver="cholesky", geodesic=False, depth=4 if deep else 3, singular=True)))
  out.append(("machine-stretched-geo", machine, dict(solver="lu", geodesic=True, depth=4 if deep else 3, stretched=True)))
  out.append(("long-runs", long_runs, dict(length=64 if deep else 40)))
  out.append(("long-runs-geo", long_runs, dict(length=40 if deep else 14, geodesic=True)))
  out += [("gn", gauss_newton, dict(aux=False, depth=12 if deep else 6)), ("gn-aux", gauss_newton, dict(aux=True, depth=4))]
  return out
