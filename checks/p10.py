"""P10: linear solvers, iterative refinement and linear operators, on every small integer matrix of each class."""
import itertools
import numpy as np

LEVEL = "model_checking"
RULE = "returned x == NumPy solution of (A + ridge I) x = b (normal-CG: (A'A + ridge I) x = A'b) for every enumerated matrix, shape, ridge and start"
ASSUMPTIONS = ["GMRES and BiCGSTAB are run on right-hand sides in general position: the underlying JAX routines break down (NaN or an early return) when the Krylov space of an integer right-hand side is exhausted",
               "tolerances of the iterative solvers are set tight (1e-12); n <= 4 so that they terminate in exact arithmetic"]

RIDGES = (None, 0.0, 0.5, 3.0)


def mats(n, cls, vals):
  M = np.array(list(itertools.product(vals, repeat=n * n))).reshape(-1, n, n) if cls == "general" else None
  if cls == "general":
    keep = np.abs(np.linalg.det(M)) > 1e-9
    return M[keep]
  iu = np.triu_indices(n)
  out = []
  for t in itertools.product(vals, repeat=len(iu[0])):
    A = np.zeros((n, n)); A[iu] = t; A = A + np.triu(A, 1).T
    w = np.linalg.eigvalsh(A)
    if cls == "spd" and w.min() > 0.05 or cls == "symmetric" and np.abs(w).min() > 0.05:
      out.append(A)
  return np.stack(out)


def posreal(M):
  return np.array([np.linalg.eigvalsh(A + A.T).min() > 0.1 for A in M])


def ok_ridge(M, ridge):
  r = ridge or 0.0
  return np.abs(np.linalg.det(M + r * np.eye(M.shape[1]))) > 1e-6


SOLVERS = {  # name: (class, iterative)
    "solve_lu": ("general", False), "solve_qr": ("general", False), "solve_inv": ("general", False), "solve_cholesky": ("spd", False),
    "solve_cg": ("spd", True), "solve_normal_cg": ("general", True), "solve_gmres": ("general", True), "solve_bicgstab": ("posreal", True)}


def vector(R, solver, n, vals):
  """Every matrix of the class x ridge x right-hand side x start; jit+vmap."""
  import jax, jax.numpy as jnp
  from jaxopt import linear_solve as ls
  f = getattr(ls, solver); cls, it = SOLVERS[solver]
  M = mats(n, "general" if cls == "posreal" else cls, vals)
  if cls == "posreal": M = M[posreal(M)]
  gen = solver in ("solve_gmres", "solve_bicgstab")
  B = [np.array(b, float) for b in ([1, 0, 0, 0], [1, -2, 3, 1], [0, 0, 0, 0], [0.3, 1.7, -0.9, 2.2])]
  if gen: B = [np.array([0.31, 1.73, -0.92, 2.2]), np.array([1.13, -2.07, 3.3, 0.4]), np.zeros(4)]
  inits = ["none", "zeros", "other", "exact"] if it else ["none"]
  kw = dict(tol=1e-12) if it else {}
  for ridge in RIDGES:
    k = ok_ridge(M, ridge) if solver != "solve_normal_cg" else np.ones(len(M), bool)
    A = M[k]; r = ridge or 0.0
    for init in inits:
      def one(A, b, x0):
        kk = dict(kw)
        if init != "none": kk["init"] = x0
        if ridge is not None: kk["ridge"] = ridge
        return f(lambda v: A @ v, b, **kk)
      g = jax.jit(jax.vmap(one, in_axes=(0, None, 0)))
      for b in B:
        b = b[:n]
        if gen and init in ("other", "exact") and not b.any(): continue     # JAX stops relative to |b| = 0 only
        if gen and init == "exact" and ridge not in (None, 0.0): continue
        if solver == "solve_normal_cg":
          want = np.linalg.solve(np.swapaxes(A, 1, 2) @ A + r * np.eye(n), np.swapaxes(A, 1, 2) @ b[:, None])[..., 0]
        else:
          want = np.linalg.solve(A + r * np.eye(n), np.broadcast_to(b, (len(A), n))[..., None])[..., 0]
        x0 = {"none": 0 * want, "zeros": 0 * want, "other": 0 * want + np.array([1.37, -0.41, 2.23, 0.6])[:n], "exact": want}[init]
        if gen and init == "exact" and solver == "solve_gmres": continue      # zero residual: nothing left to solve for
        got = np.asarray(g(A, b, x0))
        R.closes(lambda i: f"ridge={ridge} init={init} b={b.tolist()} A={A[i].ravel().tolist()}", got, want, tol=1e-6)
        R.case(len(A)); R.outcome(solver, f"n={n}", f"ridge={ridge}", f"init={init}", n=len(A))


def shapes(R, solver):
  """Scalars, matrices (operators coupling rows and columns) and pytrees; eager, jit; derivative wrt A and b in the modes the solver supports."""
  import jax, jax.numpy as jnp
  from jaxopt import linear_solve as ls
  f = getattr(ls, solver); cls, it = SOLVERS[solver]
  kw = dict(tol=1e-12) if it else {}
  # scalar
  for a in (2.0, -3.0, 0.5):
    if cls in ("spd", "posreal") and a < 0: continue
    for ridge in RIDGES:
      for b in (1.7, -0.4) if solver in ("solve_gmres", "solve_bicgstab") else (1.7, 0.0, -0.4):
        r = {} if ridge is None else dict(ridge=ridge)
        if abs(a + (ridge or 0)) < 1e-9 and solver != "solve_normal_cg": continue
        x = f(lambda v: a * v, jnp.asarray(b), **r, **kw)
        want = a * b / (a * a + (ridge or 0)) if solver == "solve_normal_cg" else b / (a + (ridge or 0))
        R.close(f"scalar a={a} ridge={ridge} b={b}", x, want, tol=1e-8); R.case(); R.outcome(solver, "scalar")
  if not it:
    try:
      f(lambda v: 0.0 * v, jnp.asarray(1.0)); R.violation("scalar zero", "no ValueError for a zero scalar")
    except ValueError:
      R.case(); R.outcome(solver, "scalar zero rejected")
  # matrices: X -> sum_k L_k X R_k, represented by sum_k kron(L_k, R_k') acting on ravel(X)
  Ls = [np.array([[2.0, 1.0], [0.0, 1.0]]), np.array([[0.0, 1.0], [-1.0, 0.5]])]
  Rs = [np.array([[3.0, 0.0, 1.0], [0.5, 2.0, 0.0], [0.0, 1.0, 2.5]]), np.array([[0.2, 0.1, 0.0], [0.0, 0.3, 0.1], [0.2, 0.0, 0.1]])]
  K = sum(np.kron(L, Rk.T) for L, Rk in zip(Ls, Rs))
  if cls == "spd": K = K @ K.T + np.eye(6)
  Bm = np.array([[1.0, -2.0, 0.5], [0.7, 0.0, 3.0]])
  if solver not in ("solve_qr", "solve_inv"):
    for mode in ("eager", "jit"):
      for ridge in RIDGES:
        r = {} if ridge is None else dict(ridge=ridge)
        g = lambda B: f(lambda X: (K @ X.ravel()).reshape(2, 3), B, **r, **kw)
        x = (jax.jit(g) if mode == "jit" else g)(jnp.asarray(Bm))
        rr = ridge or 0.0
        want = (np.linalg.solve(K.T @ K + rr * np.eye(6), K.T @ Bm.ravel()) if solver == "solve_normal_cg" else np.linalg.solve(K + rr * np.eye(6), Bm.ravel())).reshape(2, 3)
        R.close(f"matrix {mode} ridge={ridge}", x, want, tol=1e-6); R.case(); R.outcome(solver, "matrix")
  # pytrees
  if it:
    packs = {"dict": (lambda v: {"b": v[:2], "a": v[2:].reshape(1, 2)}, lambda t: jnp.concatenate([t["b"], t["a"].ravel()])),
             "tuple": (lambda v: (v[0], (v[1:],)), lambda t: jnp.concatenate([t[0][None], t[1][0]])),
             "list": (lambda v: [v[:1].reshape(1, 1), v[1:]], lambda t: jnp.concatenate([t[0].ravel(), t[1]]))}
    A4 = K[:4, :4] if cls != "spd" else K[:4, :4]
    b4 = np.array([1.0, -2.0, 0.5, 0.7]); x04 = np.array([0.3, 0.2, -1.0, 2.0])
    for pn, (pk, un) in packs.items():
      for ridge in RIDGES:
        for init in (None, x04):
          r = {} if ridge is None else dict(ridge=ridge)
          if init is not None: r["init"] = pk(jnp.asarray(init))
          t = f(lambda t: pk(A4 @ un(t)), pk(jnp.asarray(b4)), **r, **kw)
          R.check(jax.tree_util.tree_structure(t) == jax.tree_util.tree_structure(pk(jnp.asarray(b4))), f"pytree {pn} structure", str(t))
          rr = ridge or 0.0
          want = np.linalg.solve(A4.T @ A4 + rr * np.eye(4), A4.T @ b4) if solver == "solve_normal_cg" else np.linalg.solve(A4 + rr * np.eye(4), b4)
          R.close(f"pytree {pn} ridge={ridge} init={init is not None}", un(t), want, tol=1e-6); R.case(); R.outcome(solver, "pytree", pn)
  # derivative of x(A, b) = A^-1 b
  A = np.array([[2.0, 1.0], [0.5, 3.0]]) if cls != "spd" else np.array([[2.0, 1.0], [1.0, 3.0]])
  b = np.array([1.0, -2.3])
  def sol(A, b, ridge):
    S = 0.5 * (A + A.T) if cls == "spd" else A
    return f(lambda v: S @ v, b, ridge=ridge, **kw)
  def ref(A, b, ridge):
    S = 0.5 * (A + A.T) if cls == "spd" else A
    return jnp.linalg.solve(S.T @ S + ridge * jnp.eye(2), S.T @ b) if solver == "solve_normal_cg" else jnp.linalg.solve(S + ridge * jnp.eye(2), b)
  for mn, mode in (("rev", jax.jacrev), ("fwd", jax.jacfwd)):
    for ridge in (0.0, 0.7):
      J, W = jax.jit(mode(sol, argnums=(0, 1, 2)))(A, b, ridge), mode(ref, argnums=(0, 1, 2))(A, b, ridge)
      for n, j, w in zip(("A", "b", "ridge"), J, W):
        R.close(f"derivative {mn} ridge={ridge} d/d{n}", j, w, tol=1e-5)
      R.case(transitions=3); R.outcome(solver, "derivative", mn)


def dtypes(R, solver):
  """The result has the precision of b (single precision under x64), complex operators are solved as such (adjoints, not transposes), integers are accepted by the dense solvers."""
  import jax, jax.numpy as jnp
  from jaxopt import linear_solve as ls
  f = getattr(ls, solver); cls, it = SOLVERS[solver]
  def family(vals):
    M = np.array(list(itertools.product(vals, repeat=4))).reshape(-1, 2, 2)
    H = np.conj(np.swapaxes(M, 1, 2))
    if cls == "spd":
      M = np.stack([A for A in M if np.allclose(A, A.conj().T) and np.linalg.eigvalsh(A).min() > 0.1])
    elif cls == "posreal":
      M = M[np.array([np.linalg.eigvalsh(A + B).min() > 0.1 for A, B in zip(M, H)])]
    return M[(np.linalg.cond(M) < 30)]
  fam = {"real": family((-1.0, 0.0, 1.0, 2.0, 3.0)), "complex": family((0.0, 1.0, 2.0, 1j, -1j, 1 + 1j))}
  if cls == "spd":
    fam["complex"] = np.stack([np.array([[a, z], [np.conj(z), d]]) for a in (1.0, 2.0, 3.0) for d in (2.0, 3.0, 4.0) for z in (0, 1, -1j, 1j, 0.5 - 1j, 1 + 0.5j) if a * d - abs(z) ** 2 > 0.3])
  for dt in ("float32", "float64", "complex64", "complex128") + (() if it else ("int32", "int64")):
    cplx, single = dt.startswith("complex"), dt in ("float32", "complex64")
    for fn in ("real",) + (("complex",) if cplx else ()):
      M = fam[fn]; odt = np.dtype("float64") if dt.startswith("int") else np.dtype(dt)
      b = np.array([2, -3]) if dt.startswith("int") else np.array([1.31, -0.72]) + (1j * np.array([0.4, 2.1]) if cplx else 0)
      for ridge in (None, 0.5):
        kw = dict(tol=1e-6 if single else 1e-11) if it else {}
        if ridge is not None: kw["ridge"] = ridge
        r = ridge or 0.0
        k = np.linalg.cond(M + r * np.eye(2)) < 30
        A = M[k].astype(odt)
        x = jax.jit(jax.vmap(lambda A, b: f(lambda v: A @ v, b, **kw), in_axes=(0, None)))(A, jnp.asarray(b.astype(dt)))
        R.check(x.dtype == odt, f"dtype {dt} {fn} ridge={ridge}", f"result has dtype {x.dtype}")
        A = M[k]; H = np.conj(np.swapaxes(A, 1, 2)); B = np.broadcast_to(b, (len(A), 2))[..., None]
        want = np.linalg.solve(H @ A + r * np.eye(2), H @ B) if solver == "solve_normal_cg" else np.linalg.solve(A + r * np.eye(2), B)
        R.closes(lambda i: f"{dt} {fn} ridge={ridge} A={A[i].ravel().tolist()}", x, want[..., 0], tol=2e-3 if single else 1e-6)
        R.case(len(A)); R.outcome(solver, dt, fn, f"ridge={ridge}", n=len(A))


def lstsq(R):
  """solve_normal_cg on every small rectangular matrix of full column rank, or any with ridge."""
  import jax, jax.numpy as jnp
  from jaxopt import linear_solve as ls
  for m, n in ((3, 2), (2, 3), (4, 1), (1, 2)):
    vals = (-1.0, 0.0, 2.0) if m * n <= 4 else (-1.0, 0.0, 1.0)
    M = np.array(list(itertools.product(vals, repeat=m * n))).reshape(-1, m, n)
    b = np.array([1.0, -2.0, 0.5, 3.0])[:m]
    for ridge in (None, 0.5):
      A = M if ridge else M[np.array([np.linalg.matrix_rank(a) == n for a in M])]
      if len(A) == 0: continue
      for init in (np.zeros(n), np.array([1.0, -1.0, 0.3])[:n]):
        g = jax.jit(jax.vmap(lambda A: ls.solve_normal_cg(lambda v: A @ v, b, init=jnp.asarray(init), tol=1e-12, **({} if ridge is None else dict(ridge=ridge)))))
        want = np.linalg.solve(np.swapaxes(A, 1, 2) @ A + (ridge or 0) * np.eye(n), np.swapaxes(A, 1, 2) @ b[:, None])[..., 0]
        R.closes(lambda i: f"{m}x{n} ridge={ridge} init={init.tolist()} A={A[i].ravel().tolist()}", g(A), want, tol=1e-6)
        R.case(len(A)); R.outcome("least squares", f"{m}x{n}", f"ridge={ridge}", n=len(A))
  try:
    ls.solve_normal_cg(lambda v: jnp.ones((3, 2)) @ v, jnp.ones(3)); R.violation("nonsquare without init", "no TypeError")
  except TypeError as e:
    R.check("init" in str(e), "nonsquare without init", str(e)); R.case(); R.outcome("nonsquare without init rejected")


# ------------------------------------------------------------------------------------------------- iterative refinement
def refinement(R):
  """Every iterate equals x_t = x_{t-1} + Abar^-1 (b - A x_{t-1}), for all small A, Abar, starts and iteration counts."""
  import jax, jax.numpy as jnp
  from jaxopt import IterativeRefinement
  from jaxopt import linear_solve as ls
  A = mats(2, "general", (-1.0, 0.0, 2.0))
  bars = {"A": A, "A+I/2": A + 0.5 * np.eye(2), "2A": 2 * A, "diag": np.stack([np.diag(np.where(np.diag(a) == 0, 1.0, np.diag(a))) for a in A])}
  b = np.array([1.0, -2.5])
  lu = lambda mv, b, init=None: ls.solve_lu(mv, b)
  mv = lambda M, x: M @ x
  for bn, Abar in bars.items():
    k = np.abs(np.linalg.det(Abar)) > 1e-6
    A_, B_ = A[k], Abar[k]
    for form in ("dense", "matvec_A", "both") if bn == "A" else ("both", "barfun"):
      opts = {"dense": {}, "matvec_A": dict(matvec_A=mv), "both": dict(matvec_A=mv, matvec_A_bar=mv), "barfun": dict(matvec_A_bar=mv)}[form]
      for x0 in (None, np.array([0.7, 3.0])):
        for tol in (0.0, 1e-3):
          run = jax.jit(lambda n, A, B: jax.vmap(lambda A, B: IterativeRefinement(solve=lu, maxiter=n, tol=tol, **opts).run(None if x0 is None else jnp.asarray(x0), A, b, B))(A, B))
          x = np.zeros((len(A_), 2)) if x0 is None else np.tile(x0, (len(A_), 1))
          stop = np.zeros(len(A_), bool); its = np.zeros(len(A_), int); err = np.full(len(A_), np.inf)
          for n in range(0, 5):
            if n > 0:
              new = x + np.linalg.solve(B_, (b - np.einsum("nij,nj->ni", A_, x))[..., None])[..., 0]
              x = np.where(stop[:, None], x, new); its = np.where(stop, its, its + 1)
              res = b - np.einsum("nij,nj->ni", A_, x); err = np.linalg.norm(res, axis=1)
            r = run(n, A_, B_)
            key = lambda i: f"{form} Abar={bn} x0={x0 is not None} tol={tol} n={n} A={A_[i].ravel().tolist()}"
            near = (np.abs(err - tol) < 1e-12)      # rounding decides whether the loop stops: accept either
            if tol == 0.0:
              near = near | (err < 1e-9 * (1 + np.abs(x).max(1)))
            R.closes(key, np.asarray(r.params), x, tol=1e-8)
            R.closes(lambda i: key(i) + " error", np.where(near, 0, np.asarray(r.state.error)), np.where(near, 0, err), tol=1e-7)
            R.closes(lambda i: key(i) + " iter", np.where(near | (its == n), 0, np.asarray(r.state.iter_num)), np.where(near | (its == n), 0, its), tol=0)
            if n > 0:
              R.closes(lambda i: key(i) + " residual", r.state.target_residuals, b - np.einsum("nij,nj->ni", A_, np.asarray(r.params)), tol=1e-9)
            if n > 0: stop = stop | (err <= max(tol, 1e-11))
            R.case(len(A_)); R.outcome("refinement", form, bn, f"n={n}", n=len(A_))
  # an inaccurate inner solver (ridge) still converges to the exact solution of a singular-free system; pytrees; functional wrapper
  spd = mats(2, "spd", (-1.0, 0.0, 1.0, 2.0))
  for ridge in (1e-3, 1e-1):
    s = IterativeRefinement(solve=lambda mv, b, init=None: ls.solve_lu(mv, b, ridge=ridge), maxiter=200, tol=1e-10)
    x = jax.jit(jax.vmap(lambda A: s.run(None, A, b).params))(spd)
    R.closes(lambda i: f"inexact ridge={ridge} A={spd[i].ravel().tolist()}", x, np.linalg.solve(spd, np.tile(b, (len(spd), 1))[..., None])[..., 0], tol=1e-7)
    R.case(len(spd)); R.outcome("refinement inexact", n=len(spd))
  bt = {"p": jnp.array([1.0, -0.3]), "q": jnp.array([2.0])}; At = {"p": jnp.array([[2.0, 1.0], [0.0, 1.0]]), "q": jnp.array([[4.0]])}
  for init in (None, {"p": jnp.array([1.0, 1.0]), "q": jnp.array([-1.0])}):
    r = IterativeRefinement(solve=ls.solve_normal_cg, maxiter=30, tol=1e-10).run(init, At, bt)
    for k in bt:
      R.close(f"pytree init={init is not None} {k}", r.params[k], np.linalg.solve(At[k], bt[k]), tol=1e-8)
    R.case(); R.outcome("refinement pytree")
  from jaxopt._src.iterative_refinement import solve_iterative_refinement as sir
  g = np.array([1.31, -0.72])
  for init in (None, np.array([0.4, 0.9])):
    x = jax.jit(jax.vmap(lambda A: sir(lambda v: A @ v, jnp.asarray(g), init=None if init is None else jnp.asarray(init), solve=ls.solve_normal_cg, tol=1e-9, maxiter=20)))(A)
    R.closes(lambda i: f"solve_iterative_refinement init={init is not None} A={A[i].ravel().tolist()}", x, np.linalg.solve(A, np.tile(g, (len(A), 1))[..., None])[..., 0], tol=1e-7)
    R.case(len(A)); R.outcome("solve_iterative_refinement", n=len(A))


# ------------------------------------------------------------------------------------------------- operators
def operators(R):
  import jax, jax.numpy as jnp
  from jaxopt._src.base import LinearOperator
  from jaxopt._src.linear_operator import DenseLinearOperator, FunctionalLinearOperator, _make_linear_operator
  for m, n in ((1, 1), (2, 3), (3, 2), (2, 2)):
    vals = (-1.0, 0.0, 2.0)
    M = np.array(list(itertools.product(vals, repeat=m * n))).reshape(-1, m, n)
    for K in (None, 2):
      x = np.arange(1.0, n * (K or 1) + 1).reshape((n,) if K is None else (n, K)) * 0.7 - 1
      y = np.arange(1.0, m * (K or 1) + 1).reshape((m,) if K is None else (m, K)) * 1.3 - 2
      delta = np.float64(0.6) if K is None else np.array([0.6, -1.1])
      def ops(A):
        o = LinearOperator(A)
        out = dict(matvec=o.matvec(x), rmatvec=o.rmatvec(y), norms=o.column_l2_norms(), norms2=o.column_l2_norms(squared=True))
        for i in range(m): out[f"el{i}"] = o.matvec_element(x, i)
        for j in range(n):
          out[f"rel{j}"] = o.rmatvec_element(y, j)
          out[f"up{j}"] = o.update_matvec(o.matvec(x), delta, j)
        if K is None:
          for i in range(m): out[f"rup{i}"] = o.update_rmatvec(o.rmatvec(y), delta, i)
        return out
      got = jax.jit(jax.vmap(ops))(M)
      MT = np.swapaxes(M, 1, 2)
      want = dict(matvec=M @ x, rmatvec=MT @ y, norms=np.sqrt((M ** 2).sum(1)), norms2=(M ** 2).sum(1))
      for i in range(m): want[f"el{i}"] = (M @ x)[:, i]
      for j in range(n):
        want[f"rel{j}"] = (MT @ y)[:, j]
        x2 = x.copy(); x2[j] = x2[j] + delta; want[f"up{j}"] = M @ x2
      if K is None:
        for i in range(m):
          y2 = y.copy(); y2[i] += delta; want[f"rup{i}"] = MT @ y2
      for q in want:
        R.closes(lambda i: f"LinearOperator {m}x{n} K={K} {q} A={M[i].ravel().tolist()}", got[q], want[q], tol=1e-12)
      R.case(len(M), transitions=len(M) * len(want)); R.outcome("LinearOperator", f"{m}x{n}", f"K={K}", n=len(M))
      if K is None:
        R.check(LinearOperator(M[0]).shape() == (m, n), f"shape {m}x{n}", "")
    # pytree operators (block diagonal), dense and functional
    for Bm in ((2, 2), (1, 3)):
      B = np.arange(1.0, Bm[0] * Bm[1] + 1).reshape(Bm) - 2.5
      xt, yt = {"a": np.arange(1.0, n + 1), "b": np.arange(1.0, Bm[1] + 1) * 0.3}, {"a": np.arange(1.0, m + 1) - 3, "b": np.arange(1.0, Bm[0] + 1)}
      def trees(A):
        out = {}
        P = {"a": A, "b": jnp.asarray(B)}
        fun = lambda P, t: {k: P[k] @ t[k] for k in P}
        for nm, o in (("dense", _make_linear_operator(None)(P)), ("fun", _make_linear_operator(fun)(P)), ("Dense", DenseLinearOperator(P)), ("Fun", FunctionalLinearOperator(fun, P))):
          out[nm + " call"] = o(xt); out[nm + " mv"] = o.matvec(xt); out[nm + " rmv"] = o.rmatvec(xt, yt)
          out[nm + " both"] = o.matvec_and_rmatvec(xt, yt); out[nm + " normal"] = o.normal_matvec(xt)
        d = DenseLinearOperator(P)
        out["norms"], out["norms2"] = d.columns_l2_norms(), d.columns_l2_norms(squared=True)
        if m == n and Bm[0] == Bm[1]: out["diag"] = d.diag()
        return out
      got = jax.jit(jax.vmap(trees))(M); MT = np.swapaxes(M, 1, 2); one = lambda v: np.tile(v, (len(M),) + (1,) * v.ndim)
      mvw = {"a": M @ xt["a"], "b": one(B @ xt["b"])}; rmw = {"a": MT @ yt["a"], "b": one(B.T @ yt["b"])}
      nrm = {"a": (MT @ M) @ xt["a"], "b": one(B.T @ B @ xt["b"])}
      n2 = {"a": (M ** 2).sum(1), "b": one((B ** 2).sum(0))}
      W = {"norms": {k: np.sqrt(v) for k, v in n2.items()}, "norms2": n2}
      for nm in ("dense", "fun", "Dense", "Fun"):
        W.update({nm + " call": mvw, nm + " mv": mvw, nm + " rmv": rmw, nm + " both": (mvw, rmw), nm + " normal": nrm})
      if m == n and Bm[0] == Bm[1]: W["diag"] = {"a": np.stack([np.diag(a) for a in M]), "b": one(np.diag(B))}
      for q, w in W.items():
        for k, (g, ww) in enumerate(zip(jax.tree_util.tree_leaves(got[q]), jax.tree_util.tree_leaves(w))):
          R.closes(lambda i: f"tree operator {m}x{n} {Bm} {q} leaf {k} A={M[i].ravel().tolist()}", g, ww, tol=1e-12)
      R.case(len(M), transitions=len(M) * len(W)); R.outcome("tree operators", f"{m}x{n}", n=len(M))


def jobs(tier):
  T = tier == "thorough"
  J = [("refinement", refinement, {})]
  for s in SOLVERS:
    J.append((f"{s}_2", vector, dict(solver=s, n=2, vals=(-1.0, 0.0, 1.0, 2.0))))
    J.append((f"{s}_3", vector, dict(solver=s, n=3, vals=(-1.0, 0.0, 1.0) if (T or s not in ("solve_gmres",)) else (0.0, 1.0))))
    if T and SOLVERS[s][0] == "spd": J.append((f"{s}_4", vector, dict(solver=s, n=4, vals=(-1.0, 0.0, 2.0))))
    J.append((f"{s}_shapes", shapes, dict(solver=s)))
    J.append((f"{s}_dtypes", dtypes, dict(solver=s)))
  return J + [("lstsq", lstsq, {}), ("operators", operators, {})]
