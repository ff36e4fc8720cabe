"""P08: QP solvers return a KKT point or say why not, on every QP of small integer families.

Oracle: mc/qp.py enumerates every active set of every problem (exact verdict optimal / infeasible / unbounded, value, minimiser).
"""
import itertools
import numpy as np
from mc import qp
from mc.ops import fmt

LEVEL = "model_checking"
RULE = ("all QPs over small integer (Q, c, A, l, u): every active-set pattern, infeasible, unbounded and degenerate ones, x linear-solve "
        "options, input formats (dense, matvec, fun, pytrees, absent blocks), cold and warm starts; every returned KKT triple re-checked in NumPy")
ASSUMPTIONS = ["integer-scaled data (well above the solvers' relative infeasibility tolerances)",
               "CG-based OSQP may end UNSOLVED on problems with singular Q (never with a wrong verdict)"]

INF = np.inf
Q1 = [np.zeros((1, 1)), np.eye(1), np.array([[3.0]])]
Q2 = [np.zeros((2, 2)), np.diag([1.0, 0]), np.eye(2), np.array([[2.0, 1], [1, 2]]), np.array([[1.0, 1], [1, 1]]), np.array([[1.0, -1], [-1, 1]])]
Q3 = [np.eye(3), np.array([[2.0, 1, 0], [1, 2, 1], [0, 1, 2]]), np.diag([1.0, 0, 2]), np.array([[1.0, 1, 0], [1, 1, 0], [0, 0, 0]])]
BOX = [(-1, 1), (0, 0), (-INF, 1), (1, INF), (-INF, INF)]
WANT = dict(optimal=1, infeasible=3, unbounded=2)


def pkey(p):
  return " ".join(f"{n}={fmt(v)}" for n, v in zip(("Q", "c", "A", "l", "u"), p)).replace("\n", "")


def family(n, m, thorough=False):
  Qs = {1: Q1, 2: Q2, 3: Q3}[n]
  if n == 1:
    C = [(0,), (1,), (-2,), (0.5,)]; rows = [(1,), (-1,), (0,), (2,)]
  elif n == 2:
    C = [(0, 0), (1, 0), (1, -1), (-2, -1)]; rows = [(1, 0), (0, 1), (1, 1), (1, -1), (0, 0)]
    if thorough: C += [(3, 1), (0, -1)]; rows += [(2, -1)]
  else:
    C = [(0, 0, 1), (1, -1, 0), (-2, 1, 3)]; rows = [(1, 0, 0), (0, 1, 0), (1, 1, 1), (0, 1, -1)]
    if thorough: rows += [(0, 0, 0), (1, -2, 0)]
  B = BOX if m < 3 else [BOX[0], BOX[1], BOX[3]]
  if thorough: B = B + [(-2, 0.5)] + ([BOX[2]] if m == 3 else [])
  for Q in Qs:
    for c in C:
      for r in itertools.combinations(rows, m):
        for b in itertools.product(B, repeat=m):
          yield (Q, np.array(c, float), np.array(r, float), np.array([q[0] for q in b], float), np.array([q[1] for q in b], float))


def box_enum(R, n, m, solve, tol=1e-5, maxiter=2000, thorough=False, part=None):
  import jax
  from jaxopt import BoxOSQP
  P = list(family(n, m, thorough))
  if part: P = P[part[0]::part[1]]
  ref = [qp.solve(*p) for p in P]
  s = BoxOSQP(check_primal_dual_infeasability=True, eq_qp_solve=solve, tol=tol, maxiter=maxiter)
  f = jax.jit(jax.vmap(lambda Q, c, A, l, u: s.run(None, (Q, c), A, (l, u))))
  r = jax.tree_util.tree_map(np.asarray, f(*[np.stack(v) for v in zip(*P)]))
  (X, Z), Y, (MU, PHI) = r.params.primal, r.params.dual_eq, r.params.dual_ineq
  ST, ERR, IT = r.state.status, r.state.error, r.state.iter_num
  for i, (p, a) in enumerate(zip(P, ref)):
    Q, c, A, l, u = p
    st = int(ST[i])
    R.outcome(f"n={n} m={m} {solve}", a[0], "->", ("UNSOLVED", "SOLVED", "DUAL_INFEASIBLE", "PRIMAL_INFEASIBLE")[st])
    allowed = {WANT[a[0]]}
    if a[0] == "infeasible" and qp.solve(Q, c, A, np.minimum(np.where(np.isfinite(l), 0.0, l), 0), np.where(np.isfinite(u), 0.0, u))[0] == "unbounded":
      allowed.add(2)                          # dual infeasible as well: documented "infeasible primal or unbounded primal"
    if "cg" in solve and np.linalg.matrix_rank(Q) < n:
      allowed.add(0)
    R.check(st in allowed, f"{pkey(p)} status", f"truth {a[0]}, reported {st} after {IT[i]} iterations, error {ERR[i]}, x={X[i]}")
    R.close(f"{pkey(p)} dual_ineq", np.concatenate([MU[i], PHI[i]]), np.concatenate([np.maximum(Y[i], 0), np.maximum(-Y[i], 0)]), tol=0)
    if st == 1:
      res = qp.residuals(Q, c, A, l, u, X[i], Z[i], Y[i])
      ok = res[0] <= tol * 1.0001 and res[1] <= tol * 1.0001 and res[2] == 0 and res[3] <= 1e-9
      R.check(ok, f"{pkey(p)} KKT", f"residuals (primal, dual, box, complementarity) {res} at x={X[i]} z={Z[i]} y={Y[i]}")
      R.close(f"{pkey(p)} error", ERR[i], max(res[0], res[1]), tol=1e-9)
      if a[0] == "optimal":
        v = 0.5 * X[i] @ Q @ X[i] + c @ X[i]
        R.check(abs(v - a[3]) <= 100 * tol * (1 + np.abs(X[i]).sum() + np.abs(Y[i]).sum()), f"{pkey(p)} value", f"{v} but optimum is {a[3]}")
        if np.linalg.matrix_rank(Q) == n:
          R.close(f"{pkey(p)} x", X[i], a[1], tol=300 * tol)
    R.case(1, transitions=int(IT[i]))
  R.sample(f"{pkey(P[-1])} -> x={X[-1]} status={ST[-1]}")


# ------------------------------------------------------------------------------------------------- formats and warm starts
def strictly_convex():
  """Problems with unique primal and dual solution: (Q, c, Aeq, b, G, h, x, nu, lam) in two variables."""
  out = []
  for Q in (np.eye(2), np.array([[2.0, 1], [1, 2]])):
    for c in ((0, 0), (1, 0), (1, -1), (-2, -1)):
      c = np.array(c, float)
      for A, b in ((None, None), ([[1, 1]], [1]), ([[1, -1]], [0]), ([[0, 1]], [-1])):
        for G, h in ((None, None), ([[1, 0], [-1, 0]], [1, 1]), ([[1, 0], [0, 1]], [0, 2]), ([[-1, -2]], [-1])):
          if A is None and G is None:
            continue
          Am = np.zeros((0, 2)) if A is None else np.array(A, float); bm = np.zeros(0) if A is None else np.array(b, float)
          Gm = np.zeros((0, 2)) if G is None else np.array(G, float); hm = np.zeros(0) if G is None else np.array(h, float)
          a = qp.solve(Q, c, np.concatenate([Am, Gm]), np.concatenate([bm, np.full(len(hm), -INF)]), np.concatenate([bm, hm]))
          if a[0] != "optimal":
            continue
          act = np.concatenate([Am, Gm[np.abs(Gm @ a[1] - hm) < 1e-9]])
          if np.linalg.matrix_rank(act) < len(act):
            continue
          out.append((Q, c, A and (Am, bm), G and (Gm, hm), a[1], a[2][:len(bm)], a[2][len(bm):]))
  return out


def osqp_formats(R, solve, shapes):
  """OSQP: equality / inequality / both x dense, matvec, fun x cold, default init_params, warm from the solution and from another point."""
  import jax, jax.numpy as jnp
  from jaxopt import OSQP, base
  tol = 1e-7
  kw = dict(tol=tol, eq_qp_solve=solve, check_primal_dual_infeasability=False)
  mv = lambda M, x: jnp.dot(M, x)
  fun = lambda x, prm: 0.5 * jnp.vdot(x, jnp.dot(prm[0], x)) + jnp.vdot(prm[1], x) + 3.0
  fmts = {"dense": {}}
  if solve == "cg":
    fmts.update({"matvec_Q": dict(matvec_Q=mv), "matvec_A": dict(matvec_A=mv), "matvec_G": dict(matvec_G=mv), "matvec_AG": dict(matvec_A=mv, matvec_G=mv),
                 "matvec_QAG": dict(matvec_Q=mv, matvec_A=mv, matvec_G=mv), "fun": dict(fun=fun), "fun matvec_AG": dict(fun=fun, matvec_A=mv, matvec_G=mv)})
  for fname, opts in fmts.items():
    for eq, ine in shapes:
      probs = [p for p in strictly_convex() if (p[2] is not None) == eq and (p[3] is not None) == ine]
      groups = {}
      for p in probs:
        groups.setdefault((None if p[2] is None else len(p[2][1]), None if p[3] is None else len(p[3][1])), []).append(p)
      if not eq and "matvec_A" in opts and "matvec_G" not in opts: continue
      if not ine and "matvec_G" in opts and "matvec_A" not in opts: continue
      o = dict(opts)
      if not eq: o.pop("matvec_A", None)
      if not ine: o.pop("matvec_G", None)
      for g, ps in groups.items():
        s = OSQP(**kw, **o)
        args = [np.stack([p[0] for p in ps]), np.stack([p[1] for p in ps])]
        E = None if not eq else (np.stack([p[2][0] for p in ps]), np.stack([p[2][1] for p in ps]))
        I = None if not ine else (np.stack([p[3][0] for p in ps]), np.stack([p[3][1] for p in ps]))
        x = np.stack([p[4] for p in ps]); nu = np.stack([p[5] for p in ps]); lam = np.stack([p[6] for p in ps])
        exact = base.KKTSolution(x, nu if eq else None, lam if ine else None)
        wrong = base.KKTSolution(-2.0 * x + 1, (nu + 1) if eq else None, (lam + 2.0) if ine else None)
        starts = {"cold": None, "warm exact": exact, "warm other": wrong}
        if "fun" in opts:
          starts.pop("cold")
          starts["init_params"] = "init_x"
        else:
          starts["init_params"] = "init"
        run = jax.jit(jax.vmap(lambda st, Q, c, E, I: s.run(st, (Q, c), E, I)))
        for sname, st in starts.items():
          if isinstance(st, str):
            st = jax.vmap(lambda Q, c, E, I: s.init_params(jnp.zeros(2) if "fun" in opts else None, (Q, c), E, I))(*args, E, I)
          r = run(st, *args, E, I)
          tag = lambda i: f"{solve} {fname} {sname} Q={fmt(ps[i][0].ravel())} c={fmt(ps[i][1])} eq={fmt(ps[i][2][0].ravel()) + fmt(ps[i][2][1]) if eq else None} ineq={fmt(ps[i][3][0].ravel()) + fmt(ps[i][3][1]) if ine else None}"
          R.check((np.asarray(r.state.status) == 1).all(), f"{solve} {fname} {sname} {g} status", f"{r.state.status}")
          R.closes(tag, np.asarray(r.params.primal), x, tol=1e-5)
          R.check((r.params.dual_eq is None) == (not eq) and (r.params.dual_ineq is None) == (not ine), f"{fname} {sname} duals present", f"{r.params}")
          if eq: R.closes(lambda i: tag(i) + " dual_eq", np.asarray(r.params.dual_eq), nu, tol=1e-5)
          if ine: R.closes(lambda i: tag(i) + " dual_ineq", np.asarray(r.params.dual_ineq), lam, tol=1e-5)
          if sname == "warm exact":
            R.check((np.asarray(r.state.iter_num) <= 6).all(), f"{solve} {fname} {g} warm start from the solution is recognised", f"{r.state.iter_num}")
          e = jax.vmap(lambda q, Q, c, E, I: s.l2_optimality_error(q, (Q, c), E, I))(r.params, *args, E, I)
          R.check((np.asarray(e) <= 1e-5).all(), f"{solve} {fname} {sname} {g} l2_optimality_error", f"{e}")
          R.case(len(ps), transitions=int(np.sum(r.state.iter_num))); R.outcome("OSQP", solve, fname, sname, f"eq={eq} ineq={ine}", n=len(ps))


def box_formats(R):
  """BoxOSQP: every linear-solve option x packaging (array, dict, tuple, matvec, fun) x start, on separable two-block problems."""
  import jax, jax.numpy as jnp
  from jaxopt import BoxOSQP, base
  tol = 1e-7
  for Q in (np.eye(2), np.array([[2.0, 1], [1, 2]])):
    for c in ((0, 0), (1, -1), (-2, -1)):
      for A in (np.eye(2), np.array([[1.0, 1], [1, -1]])):
        for l, u in (((-1, -1), (1, 1)), ((0, -INF), (0, 1)), ((0.5, -INF), (INF, INF))):
          c2 = np.array([0.5, -1.5]); Q2 = np.array([[3.0, 1], [1, 1]]); A2 = np.array([[1.0, 0], [2, 1]]); l2 = np.array([-0.25, -1]); u2 = np.array([0.25, 1])
          c, l, u = (np.array(v, float) for v in (c, l, u))
          r1, r2 = qp.solve(Q, c, A, l, u), qp.solve(Q2, c2, A2, l2, u2)
          key = f"Q={fmt(Q.ravel())} c={fmt(c)} A={fmt(A.ravel())} l={fmt(l)} u={fmt(u)}"
          packs = {"dict": lambda a, b: {"a": a, "b": b}, "tuple": lambda a, b: (a, b), "nested": lambda a, b: [{"p": a}, (b,)]}
          mv = lambda M, x: jax.tree_util.tree_map(jnp.dot, M, x)
          for solve in ("cg", "cg+jacobi", "lu"):
            for pk, f in packs.items():
              for form in ("dense",) + (("matvec_Q", "matvec_A", "matvec_QA", "fun") if solve == "cg" else ()):
                if form != "dense" and pk != "dict": continue
                o = {}
                if "Q" in form: o["matvec_Q"] = mv
                if form in ("matvec_A", "matvec_QA"): o["matvec_A"] = mv
                pobj = (f(Q, Q2), f(c, c2))
                if form == "fun":
                  o["fun"] = lambda x, prm: sum(0.5 * jnp.vdot(xi, Mi @ xi) + jnp.vdot(ci, xi) for xi, Mi, ci in zip(*map(jax.tree_util.tree_leaves, (x, prm[0], prm[1])))) - 1.0
                s = BoxOSQP(tol=tol, eq_qp_solve=solve, check_primal_dual_infeasability=True, **o)
                cache = R.__dict__.setdefault("_jit", {})
                k = (solve, pk, form)
                if k not in cache:
                  cache[k] = jax.jit(lambda pobj, A, lu, s=s, form=form: s.run(s.init_params(jax.tree_util.tree_map(jnp.zeros_like, pobj[1]) if form == "fun" else None, pobj, A, lu), pobj, A, lu))
                r = cache[k](pobj, f(A, A2), (f(l, l2), f(u, u2)))
                leaves = jax.tree_util.tree_leaves
                R.check(int(r.state.status) == 1, f"{k} {key} status", f"{r.state.status}")
                R.check(jax.tree_util.tree_structure(r.params.primal[0]) == jax.tree_util.tree_structure(f(c, c2)), f"{k} {key} structure", "")
                R.close(f"{k} {key} x", np.concatenate(leaves(r.params.primal[0])), np.concatenate([r1[1], r2[1]]), tol=1e-5)
                R.case(1, transitions=int(r.state.iter_num)); R.outcome("BoxOSQP", *k)
          # warm starts and single-array packaging
          for solve in ("cg", "cg+jacobi", "lu"):
            k = (solve, "warm")
            s = BoxOSQP(tol=tol, eq_qp_solve=solve, check_primal_dual_infeasability=True)
            if k not in cache:
              cache[k] = jax.jit(lambda st, pobj, A, lu, s=s: s.run(st, pobj, A, lu))
            y = r1[2]
            for name, st in (("exact", (r1[1], A @ r1[1], y)), ("other", (r1[1] + 3, A @ r1[1] - 1, y + 1)), ("zero", (0 * c, np.zeros(2), np.zeros(2)))):
              st = base.KKTSolution((st[0], st[1]), st[2], (np.maximum(st[2], 0), np.maximum(-st[2], 0)))
              r = cache[k](st, (Q, c), A, (l, u))
              R.check(int(r.state.status) == 1, f"{k} {name} {key} status", f"{r.state.status} after {r.state.iter_num}")
              R.close(f"{k} {name} {key} x", r.params.primal[0], r1[1], tol=1e-5)
              R.case(1, transitions=int(r.state.iter_num)); R.outcome("BoxOSQP", solve, "warm", name)


def box_python(R):
  """jit=False: raises ValueError exactly on the problems that have no solution, and otherwise matches."""
  import jax
  from jaxopt import BoxOSQP
  P = list(family(1, 2))[::5] + list(family(2, 2))[::173]
  for p in P:
    a = qp.solve(*p)
    if a[0] == "optimal" and np.linalg.matrix_rank(p[0]) < len(p[1]):
      continue
    Q, c, A, l, u = p
    s = BoxOSQP(tol=1e-4, jit=False, eq_qp_solve="lu", maxiter=300)
    try:
      r = s.run(None, (Q, c), A, (l, u)); out = "solved"
    except ValueError as e:
      out = "primal" if "Primal" in str(e) else "dual" if "Dual" in str(e) else "?"
    ok = {"optimal": ("solved",), "infeasible": ("primal", "dual"), "unbounded": ("dual",)}[a[0]]
    R.check(out in ok, f"python {pkey(p)}", f"truth {a[0]}, got {out}")
    if out == "solved":
      R.close(f"python {pkey(p)} x", r.params.primal[0], a[1], tol=1e-2)
    R.case(); R.outcome("jit=False", a[0], out)


# ------------------------------------------------------------------------------------------------- other solvers
def eqqp(R):
  """EqualityConstrainedQP x every format x linear solver x refinement; singular KKT systems (redundant constraints) with refinement."""
  import jax, jax.numpy as jnp
  from functools import partial
  from jaxopt import EqualityConstrainedQP, base, linear_solve
  mv = lambda M, x: jax.tree_util.tree_map(jnp.dot, M, x)
  fun = lambda x, prm: 0.5 * jnp.vdot(x, prm[0] @ x) + jnp.vdot(prm[1], x) + 2.0
  solvers = {"gmres": linear_solve.solve_gmres, "normal_cg": linear_solve.solve_normal_cg, "lu": lambda matvec, b, init=None, tol=0, maxiter=0, **k: linear_solve.solve_lu(matvec, b) if not isinstance(b, tuple) else _dense(matvec, b)}

  def _dense(matvec, b):
    flat, un = jax.flatten_util.ravel_pytree(b)
    M = jax.jacobian(lambda v: jax.flatten_util.ravel_pytree(matvec(un(v)))[0])(jnp.zeros_like(flat))
    return un(jnp.linalg.solve(M, flat))

  import jax.flatten_util
  groups = {}
  for n, Qs, As in ((2, Q2[2:], [[(1, 0)], [(1, 1)], [(1, -1)], [(1, 0), (0, 1)], [(1, 1), (1, -1)]]),
                    (3, Q3, [[(1, 1, 1)], [(1, 0, 0), (0, 1, -1)], [(0, 1, 0)]])):
    for A in As:
      A = np.array(A, float); m = len(A)
      for Q in Qs:
        if np.linalg.matrix_rank(np.block([[Q, A.T], [A, np.zeros((m, m))]])) < n + m:
          continue
        for c in itertools.product((-1, 0, 2), repeat=n):
          for b in itertools.product((0, 1), repeat=m):
            groups.setdefault((n, m), []).append((Q, np.array(c, float), A, np.array(b, float)))
  gmres_off = lambda k: np.array([0.13, -0.37, 0.71])[:k]
  for (n, m), probs in groups.items():
    Q, c0, A, b0 = (np.stack(v) for v in zip(*probs))
    K = np.concatenate([np.concatenate([Q, np.swapaxes(A, 1, 2)], 2), np.concatenate([A, np.zeros((len(Q), m, m))], 2)], 1)
    for sn, sv in solvers.items():
      # JAX's own GMRES returns NaN when the Krylov space is exhausted early with an exactly zero vector (job eqqp_breakdown),
      # so with GMRES the integer data are shifted to generic right-hand sides; the other solvers take the integer data as they are
      c, b = (c0 + gmres_off(n), b0 + gmres_off(m)) if sn == "gmres" else (c0, b0)
      ref = np.linalg.solve(K, np.concatenate([-c, b], 1)[..., None])[..., 0]
      for fname, o in (("dense", {}), ("matvec_Q", dict(matvec_Q=lambda M, x: M @ x)), ("matvec_A", dict(matvec_A=lambda M, x: M @ x)), ("matvec_QA", dict(matvec_Q=lambda M, x: M @ x, matvec_A=lambda M, x: M @ x)), ("fun", dict(fun=fun))):
        if sn != "gmres" and fname not in ("dense", "fun"): continue
        for refine, rmax in ((0.0, 0), (1e-3, 50)) if sn == "gmres" else ((0.0, 0),):
          s = EqualityConstrainedQP(solve=sv, refine_regularization=refine, refine_maxiter=rmax, tol=1e-10, **o)
          run = jax.jit(lambda ip, *a: jax.lax.map(lambda t: s.run(t[0], (t[1], t[2]), (t[3], t[4])), (ip,) + a))
          err = jax.jit(jax.vmap(lambda p, Q, c, A, b: s.l2_optimality_error(p, (Q, c), (A, b))))
          for init in ("none", "zeros", "other"):
            if init == "none" and fname == "fun": continue
            if init != "none" and fname != "fun" and (fname != "dense" or sn == "lu"): continue
            ip = None if init == "none" else base.KKTSolution(np.full((len(Q), n), 0.0 if init == "zeros" else 1.5), np.full((len(Q), m), 0.0 if init == "zeros" else -2.0), None)
            r = run(ip, Q, c, A, b)
            tag = lambda i: f"{sn} {fname} refine={refine} init={init} Q={fmt(Q[i].ravel())} c={fmt(c[i])} A={fmt(A[i].ravel())} b={fmt(b[i])}"
            R.closes(tag, np.concatenate([r.params.primal, r.params.dual_eq], 1), ref, tol=1e-5)
            R.check((np.asarray(err(r.params, Q, c, A, b)) < 1e-5).all(), f"{sn} {fname} refine={refine} init={init} n={n} m={m} optimality error", "")
            R.case(len(Q)); R.outcome("EqQP", sn, fname, f"refine={refine}", n=len(Q))
  # redundant constraints: singular KKT, handled through refinement; the primal solution is unique
  for Q in Q2[2:4]:
    for c in ((1, -1), (0, 2)):
      for A, b in (([[1, 1], [2, 2]], [1, 2]), ([[1, 0], [1, 0]], [0, 0])):
        A, b, c = np.array(A, float), np.array(b, float), np.array(c, float)
        x = qp.solve(Q, c, A, b, b)[1]
        s = EqualityConstrainedQP(refine_regularization=1e-3, refine_maxiter=60, tol=1e-9)
        r = s.run(None, (Q, c), (A, b))
        R.close(f"redundant Q={fmt(Q.ravel())} c={fmt(c)} A={fmt(A.ravel())}", r.params.primal, x, tol=1e-5); R.case(); R.outcome("EqQP redundant rows")
  # pytrees: two independent blocks must equal the blocks solved alone
  for pk, f in (("dict", lambda a, b: {"a": a, "b": b}), ("tuple", lambda a, b: (a, b))):
    Qa, Qb = Q2[2], Q3[1]; ca, cb = np.array([1.0, -1]), np.array([1.0, 0, 2]); Aa, Ab = np.array([[1.0, 1]]), np.array([[1.0, 0, 0], [0, 1, -1]]); ba, bb = np.array([1.0]), np.array([0.0, 2])
    want = [np.linalg.solve(np.block([[Q, A.T], [A, np.zeros((len(A),) * 2)]]), np.concatenate([-c, b]))[:len(c)] for Q, c, A, b in ((Qa, ca, Aa, ba), (Qb, cb, Ab, bb))]
    for form, o in (("dense", {}), ("matvec_Q", dict(matvec_Q=mv)), ("matvec_A", dict(matvec_A=mv)),
                    ("fun", dict(fun=lambda x, prm: sum(0.5 * jnp.vdot(xi, Mi @ xi) + jnp.vdot(ci, xi) for xi, Mi, ci in zip(*map(jax.tree_util.tree_leaves, (x, prm[0], prm[1]))))))):
      s = EqualityConstrainedQP(tol=1e-10, **o)
      ip = base.KKTSolution(f(0 * ca, 0 * cb), f(0 * ba, 0 * bb), None) if form == "fun" else None
      r = s.run(ip, (f(Qa, Qb), f(ca, cb)), (f(Aa, Ab), f(ba, bb)))
      R.close(f"pytree {pk} {form}", np.concatenate(jax.tree_util.tree_leaves(r.params.primal)), np.concatenate(want), tol=1e-6); R.case(); R.outcome("EqQP pytree", form)


def eqqp_breakdown(R):
  """Integer problems on which GMRES exhausts its Krylov space early (default solver of EqualityConstrainedQP)."""
  from jaxopt import EqualityConstrainedQP
  Q, A = np.eye(2), np.array([[1.0, 1], [1, -1]])
  for c in ((-1.0, 0.0), (0.0, 0.0), (2.0, 0.0)):
    for b in ((1.0, 1.0), (0.0, 0.0)):
      r = EqualityConstrainedQP().run(None, (Q, np.array(c)), (A, np.array(b)))
      R.close(f"Q=I A=[[1,1],[1,-1]] c={fmt(np.array(c))} b={fmt(np.array(b))}", r.params.primal, np.linalg.solve(A, b), tol=1e-5); R.case(); R.outcome("EqQP breakdown")


def cdqp(R, n):
  import jax
  from jaxopt import BoxCDQP
  V = [(-1.0, 1.0), (0.0, 0.0), (-INF, 1.0), (0.5, INF), (-INF, INF)]
  Qs = {1: Q1, 2: Q2, 3: Q3}[n]
  C = list(itertools.product((-2.0, 0.0, 1.0), repeat=n))
  s = BoxCDQP(maxiter=1500, tol=1e-9)
  P = []
  for Q in Qs:
    for c in C:
      for b in itertools.product(V, repeat=n):
        l, u = np.array([q[0] for q in b]), np.array([q[1] for q in b])
        a = qp.solve(Q, np.array(c), np.eye(n), l, u)
        if a[0] == "optimal":
          P.append((Q, np.array(c), l, u, a))
        else:
          R.outcome(f"BoxCDQP n={n}", "skipped", a[0])
  starts = {"clipped zero": lambda l, u: np.clip(np.zeros(len(l)), l, u), "clipped 3": lambda l, u: np.clip(np.full(len(l), 3.0), l, u), "outside": lambda l, u: np.arange(len(l)) * 2.0 - 5}
  Q, c, l, u = (np.stack([p[k] for p in P]) for k in range(4))
  f = jax.jit(jax.vmap(lambda x, Q, c, l, u: s.run(x, (Q, c), (l, u))))
  for sn, st in starts.items():
    x0 = np.stack([st(a, b) for a, b in zip(l, u)])
    r = f(x0, Q, c, l, u); X = np.asarray(r.params)
    key = lambda i: f"{sn} Q={fmt(Q[i].ravel())} c={fmt(c[i])} l={fmt(l[i])} u={fmt(u[i])}"
    val = 0.5 * np.einsum("ni,nij,nj->n", X, Q, X) + (c * X).sum(1)
    done = np.asarray(r.state.error) <= s.tol
    R.check(done.all(), f"{sn} converged", f"{(~done).sum()} did not, first {key(int(np.argmin(done)))} x={X[np.argmin(done)]}")
    R.closes(lambda i: key(i) + f" value x={fmt(X[i])}", val, np.array([p[4][3] for p in P]), tol=1e-6)
    R.check(((X >= l) & (X <= u)).all(), f"{sn} feasible", "")
    R.case(len(P), transitions=int(np.sum(r.state.iter_num))); R.outcome(f"BoxCDQP n={n}", sn, n=len(P))


def cvx(R):
  """CvxpyQP (solver OSQP): values, duals, absent blocks, and a ValueError naming the reason for problems without a solution."""
  import warnings
  warnings.filterwarnings("ignore")
  import jax.numpy as jnp
  from jaxopt import CvxpyQP
  s = CvxpyQP()
  for p in strictly_convex()[::2]:
    r = s.run(None, (jnp.asarray(p[0]), jnp.asarray(p[1])), p[2] and tuple(map(jnp.asarray, p[2])), p[3] and tuple(map(jnp.asarray, p[3])))
    key = f"Q={fmt(p[0].ravel())} c={fmt(p[1])} eq={p[2]} ineq={p[3]}".replace("\n", "")
    R.close(f"{key} x", r.params.primal, p[4], tol=1e-3)
    R.check((r.params.dual_eq is None) == (p[2] is None) and (r.params.dual_ineq is None) == (p[3] is None), f"{key} duals", "")
    if p[2] is not None: R.close(f"{key} dual_eq", r.params.dual_eq, p[5], tol=2e-3)
    if p[3] is not None: R.close(f"{key} dual_ineq", r.params.dual_ineq, p[6], tol=2e-3)
    R.check(float(s.l2_optimality_error(r.params, (p[0], p[1]), p[2], p[3])) < 1e-2, f"{key} optimality error", ""); R.case(); R.outcome("CvxpyQP solved")
  one = np.eye(1); bad = [("infeasible", one, [0.0], None, ([[1.0], [-1.0]], [-1.0, -1.0])), ("unbounded", 0 * one, [1.0], None, ([[1.0]], [1.0])),
                          ("infeasible", np.eye(2), [1.0, 0], ([[1.0, 1], [1, 1]], [0.0, 1.0]), None)]
  for why, Q, c, eq, ine in bad:
    arr = lambda t: None if t is None else (jnp.array(t[0]), jnp.array(t[1]))
    try:
      s.run(None, (jnp.array(Q), jnp.array(c)), arr(eq), arr(ine)); msg = "no error"
    except ValueError as e:
      msg = str(e)
    R.check(why in msg, f"{why} Q={fmt(Q.ravel())}", msg); R.case(); R.outcome("CvxpyQP", why)


def jobs(tier):
  T = tier == "thorough"
  J = [("eqqp", eqqp, {}), ("box_formats", box_formats, {})]
  J += [(f"osqp_{s}_{k}", osqp_formats, dict(solve=s, shapes=sh)) for s in ("cg", "cg+jacobi", "lu") for k, sh in (("both", [(True, True)]), ("single", [(True, False), (False, True)]))]
  J += [("eqqp_breakdown", eqqp_breakdown, {}), ("python", box_python, {})]
  for n, m in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 3)):
    for s in ("lu", "cg", "cg+jacobi"):
      if (n, m) in ((2, 3), (3, 3)) and s != "lu" and not T: continue
      if (n, m) == (3, 3) and not T: continue
      J.append((f"box_{n}x{m}_{s}", box_enum, dict(n=n, m=m, solve=s, maxiter=2000 if s == "lu" else 600, thorough=T)))
  J += [(f"cdqp{n}", cdqp, dict(n=n)) for n in (1, 2, 3)] + [("cvxpy", cvx, {})]
  return J
