"""P02: run == init_state + update loop, for every solver and execution mode; batching; warm continuation."""
import itertools
import numpy as np

LEVEL = "model_checking"
RULE = ("all solvers of the catalogue x starts x problem parameters x maxiter x tolerance x execution mode "
        "(lax / scan / python loop, implicit or unrolled, outer jit, vmap with every mixture of trip counts); "
        "oracle: Python loop over init_state and update")
ASSUMPTIONS = ["two-variable smooth problems; catalogue in mc/zoo.py"]

TOL = 2e-7


def leaves(x):
  import jax
  return [np.asarray(l) for l in jax.tree_util.tree_leaves(x)]


def flat_named(step, skip=("d_history", "c_history")):
  """params leaves and state fields as named arrays (None dropped)."""
  import jax
  out = {}
  for i, l in enumerate(jax.tree_util.tree_leaves(step[0])):
    out[f"params{i}"] = np.asarray(l)
  st = step[1]
  for f in st._fields:
    if f in skip:
      continue
    for i, l in enumerate(jax.tree_util.tree_leaves(getattr(st, f))):
      out[f"{f}{i}"] = np.asarray(l)
  return out


def reference(solver, init, args, ks, tol):
  """Python loop; returns {k: (params, state)} for each requested bound (loop stops early on error <= tol)."""
  import jax.numpy as jnp
  params, state = init, solver.init_state(init, *args)
  out = {}
  trips = 0
  if 0 in ks:
    out[0] = (init, state)
  stopped = False
  for k in range(1, max(ks) + 1):
    if not stopped and (k == 1 or float(state.error) > tol):
      params, state = solver.update(params, state, *args)
      trips += 1
    else:
      stopped = True
    if k in ks:
      out[k] = (params, state)
  return out, trips


def compare(R, key, got, want, tol=TOL):
  g, w = flat_named(got), flat_named(want)
  ok = True
  for n in w:
    if n not in g:
      ok &= R.check(False, f"{key} {n}", "missing in run() result")
      continue
    a, b = g[n].astype(float), w[n].astype(float)
    ok &= R.close(f"{key} {n}", a, b, tol=tol)
    if not ok:
      break
  return ok


HEAVY = ("hager-zhang",)


def check_solver(R, name, deep):
  import jax, jax.numpy as jnp
  from mc import zoo
  e = zoo.by_name()[name]
  tst = e.tol_stop
  heavy = any(h in name for h in HEAVY)
  combos = list(itertools.product(range(len(e.inits)), range(len(e.thetas))))
  mk = lambda **o: e.make(**{k: v for k, v in o.items() if k in e.opts})
  asj = lambda t: jax.tree_util.tree_map(jnp.asarray, t)
  ini = lambda i: None if e.inits[i] is None else jnp.asarray(e.inits[i])

  ref = mk(maxiter=40, tol=0.0, jit=True)
  ref0, refs, trips = {}, {}, {}
  ks0 = [0, 1, 2, 4]
  for c in combos:
    i, t = c
    args = asj(e.args(e.thetas[t]))
    refs[c], trips[c] = reference(ref, ini(i), args, [1, 3, 40], tst)
    ref0[c], _ = reference(ref, ini(i), args, ks0, 0.0)
    R.outcome("trips", trips[c])
  R.sample(f"{name}: {len(combos)} (start, theta) pairs, maxiter 0,1,2,4,40; trips at tol={tst}: {sorted(set(trips.values()))}")

  # early stop must really have happened in some executions, i.e. the stopping rule is exercised
  R.check(any(v < 40 for v in trips.values()) or not e.grad, "vacuous", "no run stopped early")

  I = None if e.inits[0] is None else jnp.stack([ini(i) for i, _ in combos])
  T = jnp.stack([jnp.asarray(e.thetas[t]) for _, t in combos])

  def unstack(tree, j):
    return jax.tree_util.tree_map(lambda a: a[j], tree)

  def batched(o, k, tol, how, static):
    """All combos in one execution; `how` = vmap (shared loop, masked) or map (one loop each)."""
    def f(x, t, k, tol):
      return mk(maxiter=k, tol=tol, **o).run(x, *e.args(t))
    def F(I, T, k, tol):
      if I is None:
        if how == "vmap": return jax.vmap(lambda t: f(None, t, k, tol))(T)
        return jax.lax.map(lambda t: f(None, t, k, tol), T)
      if how == "vmap": return jax.vmap(lambda x, t: f(x, t, k, tol))(I, T)
      return jax.lax.map(lambda a: f(a[0], a[1], k, tol), (I, T))
    key = (how, tuple(sorted(o.items())))
    if not static:
      try:
        if key not in cache: cache[key] = jax.jit(F)
        return cache[key](I, T, jnp.asarray(k), jnp.asarray(tol))
      except (jax.errors.JAXTypeError, TypeError, ValueError):
        pass      # maxiter must be static for this solver
    return jax.jit(lambda I, T: F(I, T, k, tol))(I, T)
  cache = {}

  def sweep(label, o, how, settings, static):
    for k, tol in settings:
      table = ref0 if tol == 0.0 else refs
      got = batched(o, k, tol, how, static)
      for j, c in enumerate(combos):
        if I is None and k == 0:
          continue
        g, w = unstack(got, j), table[c][k]
        if tol == 0.0 and k and max(float(g[1].error), float(w[1].error)) <= 1e-12:   # solved to rounding: one more or less trip is rounding, too
          R.close(f"{label}/{how} k={k} tol={tol} case={c} params", leaves(g[0])[0], leaves(w[0])[0], tol=1e-9)
          R.check(int(g[1].iter_num) <= k, f"{label}/{how} k={k} tol={tol} case={c} bound", str(g[1].iter_num))
        elif k == 40:   # run to convergence: the path is compared through the solution and the trip count
          R.close(f"{label}/{how} k={k} tol={tol} case={c} iter_num", g[1].iter_num, w[1].iter_num)
          R.close(f"{label}/{how} k={k} tol={tol} case={c} error", g[1].error, w[1].error, tol=1e-5)
          R.close(f"{label}/{how} k={k} tol={tol} case={c} params", leaves(g[0])[0], leaves(w[0])[0], tol=1e-5)
        else:
          compare(R, f"{label}/{how} k={k} tol={tol} case={c}", g, w)
        R.case(1, transitions=min(k, trips[c]))

  early = [(1, 0.0), (0, 0.0), (4, 0.0), (40, tst), (2, 0.0), (3, tst)]
  lax = dict(jit=True, implicit_diff=True)
  traced_ok = "Broyden" not in name
  sweep(f"{name}/lax", lax, "vmap", early if (traced_ok or deep) else [(0, 0.0), (40, tst)], False)
  slow = heavy or "zoom" in name or "LBFGSB" in name
  if not slow or deep:
    sweep(f"{name}/lax", lax, "map", early if (traced_ok or deep) else [(40, tst)], False)
  has_id = "implicit_diff" in e.opts
  if has_id:
    sweep(f"{name}/scan", dict(jit=True, implicit_diff=False), "vmap", [(4, 0.0)] + ([(0, 0.0), (40, tst)] if not heavy else []), True)
  if deep or name in ("GradientDescent", "AndersonAcceleration", "GaussNewton", "BFGS-backtracking", "Bisection", "PolyakSGD"):
    sweep(f"{name}/scan-unroll", dict(jit=True, unroll=True), "map", [(4, 0.0), (40, tst)], True)
    if has_id:
      sweep(f"{name}/lax-noimpl", dict(jit=True, implicit_diff=False, unroll=False), "vmap", early, False)

  # concrete runs without any outer transformation
  if not heavy or deep:
    for k, c in ((4, combos[0]), (0, combos[-1]))[:1 if slow else 2] if not deep else [(k, c) for k in (0, 1, 4) for c in combos]:
      if I is None and k == 0:
        continue
      s = mk(maxiter=k, tol=0.0)
      args = asj(e.args(e.thetas[c[1]]))
      got = s.run(ini(c[0]), *args)
      compare(R, f"{name}/plain k={k} case={c}", got, ref0[c][k])
      R.check(int(got[1].iter_num) == int(ref0[c][k][1].iter_num) <= k, f"{name}/iter_num k={k} case={c}", f"iter_num={got[1].iter_num}")
      R.case(1, transitions=k)

  if e.nojit:
    for k, tol in ([(0, 0.0), (1, 0.0), (3, 0.0)] if not deep else [(0, 0.0), (1, 0.0), (2, 0.0), (4, 0.0), (6, tst)]):
      s = mk(maxiter=k, tol=tol, jit=False)
      c = combos[1]
      args = asj(e.args(e.thetas[c[1]]))
      if I is None and k == 0:
        continue
      want, _ = reference(ref, ini(c[0]), args, [k], tol)
      got = s.run(ini(c[0]), *args)
      compare(R, f"{name}/python k={k} tol={tol}", got, want[k])
      R.case(1, transitions=k)
      R.outcome("python loop")

  if e.warm:
    # run(k) then run(OptStep) continues the trajectory: equals one run of k+m
    c = combos[-1]
    args = asj(e.args(e.thetas[c[1]]))
    for k, m in itertools.product([1, 3] if deep else [2], [2]):
      a = mk(maxiter=k, tol=0.0).run(ini(c[0]), *args)
      b = mk(maxiter=m, tol=0.0).run(a, *args)
      want, _ = reference(ref, ini(c[0]), args, [k + m], 0.0)
      for n in ("params0", "iter_num0"):
        R.close(f"{name}/warm k={k} m={m} {n}", flat_named(b)[n], flat_named(want[k + m])[n], tol=TOL)
      z = mk(maxiter=0, tol=0.0).run(a, *args)
      R.close(f"{name}/warm zero k={k}", flat_named(z)["params0"], flat_named(a)["params0"])
      R.case(2, transitions=k + m); R.outcome("warm continuation")
      # the same with other arguments: the memory is carried over, everything else is evaluated anew
      other = asj(e.args(e.thetas[(c[1] + 1) % len(e.thetas)]))
      s = mk(maxiter=m, tol=0.0)
      fresh = s.init_state(a.params, *other)
      x, st = a.params, fresh._replace(**{f: getattr(a.state, f) for f in ("s_history", "y_history", "rho_history", "d_history", "c_history", "gamma", "theta", "iter_num", "stepsize", "num_updates") if hasattr(fresh, f)})
      got0 = s.init_state(a, *other)
      compare(R, f"{name}/warm init with other arguments k={k}", (x, got0), (x, st))
      for _ in range(m): x, st = jax.jit(s.update)(x, st, *other)
      compare(R, f"{name}/warm with other arguments k={k} m={m}", s.run(a, *other), (x, st))
      R.case(2, transitions=m); R.outcome("warm continuation, other arguments")


def check_osqp(R):
  import jax, jax.numpy as jnp
  import jaxopt
  Q = jnp.array([[3.0, 0.5], [0.5, 1.0]])
  A = jnp.array([[1.0, 1.0], [1.0, 0.0], [0.0, 1.0]])
  cs = [np.array(v, float) for v in ([1, 2], [-1, 0.5], [0, -3], [2, -2])]
  bnds = (jnp.array([0.5, -0.4, -0.1]), jnp.array([0.5, 2.0, 0.6]))
  for solve in ("cg", "lu"):
    for k, tol in [(1, 0.0), (12, 0.0), (200, 1e-3)]:
      mk = lambda **o: jaxopt.BoxOSQP(maxiter=k, tol=tol if tol else 1e-12, eq_qp_solve=solve, check_primal_dual_infeasability=False, **o)
      ref = mk()
      wants = []
      for c in cs:
        p0 = ref.init_params(None, (Q, c), A, bnds)
        out, trips = reference(ref, p0, ((Q, c), A, bnds), [k], ref.tol)
        wants.append(out[k]); R.outcome("osqp trips", trips)
      for mode, o in (("lax", {}), ("scan", dict(implicit_diff=False))):
        if mode == "scan" and k == 1: continue
        s = mk(**o)
        got = jax.jit(jax.vmap(lambda c: s.run(None, (Q, c), A, bnds)))(jnp.stack(cs))
        for j, c in enumerate(cs):
          g = jax.tree_util.tree_map(lambda a: a[j], got)
          compare(R, f"BoxOSQP/{solve}/{mode} k={k} c={c.tolist()}", g, wants[j], tol=1e-6)
          R.case(1, transitions=k)
  R.sample("BoxOSQP 3 constraints, 4 objectives, cg and lu")


def check_refinement(R):
  import jax, jax.numpy as jnp
  import jaxopt
  from jaxopt import linear_solve as ls
  import functools
  A = jnp.array([[2.0, 1.0], [0.0, 3.0]])
  from jaxopt._src.iterative_refinement import IterativeRefinement
  for k in (1, 2, 5):
    for jit, unroll in ((True, False), (True, True), (False, True)):
      s = IterativeRefinement(solve=functools.partial(ls.solve_gmres, ridge=0.3), maxiter=k, tol=0.0, jit=jit, unroll=unroll)
      if not jit and k == 5: continue
      for b in ([1.0, 2.0], [3.0, -2.0])[:1 if k == 1 else 2]:
        b = jnp.array(b)
        out, _ = reference(IterativeRefinement(solve=functools.partial(ls.solve_gmres, ridge=0.3), maxiter=k, tol=0.0),
                           jnp.zeros(2), (A, b, None), [k], 0.0)
        got = s.run(None, A, b)
        compare(R, f"IterativeRefinement jit={jit} unroll={unroll} k={k} b={b}", got, out[k], tol=1e-6)
        R.case(1, transitions=k)
  R.sample("iterative refinement")


def check_linesearch_run(R, which):
  """Stand-alone line searches through their own run(): modes agree with stepping by hand."""
  import jax, jax.numpy as jnp
  from jaxopt import BacktrackingLineSearch, HagerZhangLineSearch
  from jaxopt._src.zoom_linesearch import ZoomLineSearch
  fun = lambda x, t: jnp.sum(t * x ** 2) + 0.1 * jnp.sum(jnp.sin(5 * x))
  X = [np.array(v) for v in ([1.0, 2.0], [-1.0, 0.3], [0.2, -0.1], [3.0, 0.0])]
  t = jnp.array([1.0, 4.0])
  cls, opt = {"backtracking": (BacktrackingLineSearch, {}),
              "armijo": (BacktrackingLineSearch, dict(condition="armijo", decrease_factor=0.5)),
              "goldstein": (BacktrackingLineSearch, dict(condition="goldstein")),
              "zoom": (ZoomLineSearch, {}), "hager-zhang": (HagerZhangLineSearch, {})}[which]
  static = which == "zoom"     # zoom needs a concrete maxiter
  KS = (0, 1, 2, 3, 4, 8, 25) if not static else (0, 1, 3, 25)
  mk = lambda k, **o: cls(fun=fun, maxiter=k, jit=True, **o, **opt)
  def jitk(f):
    return jax.jit(f, static_argnums=(0,)) if static else jax.jit(f)
  upd = jitk(lambda k, step, st, x: mk(k).update(step, st, x, fun_args=[t]))
  ini = jitk(lambda k, x: mk(k).init_state(1.0, x, fun_args=[t]))
  F = jitk(lambda k, X: jax.vmap(lambda x: mk(k, unroll=False).run(1.0, x, fun_args=[t]))(X))
  for mode in ("lax", "scan"):
    for k in (KS if mode == "lax" else (3,)):
      if mode == "lax":
        got = F(k, jnp.stack(X))
      else:
        got = jax.jit(jax.vmap(lambda x: mk(k, unroll=True).run(1.0, x, fun_args=[t])))(jnp.stack(X))
      for j, x in enumerate(X):
        x = jnp.asarray(x)
        st, step = ini(k, x), 1.0
        for it in range(k):
          if it > 0 and not float(st.error) > 0.0: break
          step, st = upd(k, step, st, x)
        g = jax.tree_util.tree_map(lambda a: a[j], got)
        R.close(f"{which} {mode} k={k} x={x} stepsize", g[0], step, tol=1e-7)
        R.close(f"{which} {mode} k={k} x={x} params", g[1].params, st.params, tol=1e-7)
        R.close(f"{which} {mode} k={k} x={x} done", [g[1].done, g[1].failed], [st.done, st.failed])
        R.case(1, transitions=k); R.outcome(which, "done", bool(g[1].done))
  R.sample(f"line search run() of {which} in lax and scan modes")


def check_verbose(R, names):
  """Printing progress changes nothing, and every line printed for the solver shows an iteration number with the error the state had then."""
  import contextlib, io, re
  import jax, jax.numpy as jnp, jaxopt
  from mc import zoo
  def printed(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
      r = f(); jax.block_until_ready(r); jax.effects_barrier()
    return r, buf.getvalue()
  for name in names:
    if name == "QP":
      Q, c = jnp.array([[3.0, 0.5], [0.5, 1.0]]), jnp.array([-1.0, 2.0]); A, lo, up = jnp.array([[1.0, 1.0], [1.0, 0.0]]), jnp.array([0.2, -1.0]), jnp.array([0.2, 0.4])
      G, h = jnp.array([[-1.0, 0.0]]), jnp.array([0.3])
      for v in (1, 2, 3):
        for key, f in (("BoxOSQP", lambda v: jaxopt.BoxOSQP(verbose=v, maxiter=60).run(params_obj=(Q, c), params_eq=A, params_ineq=(lo, up))),
                       ("OSQP", lambda v: jaxopt.OSQP(verbose=v, maxiter=60).run(params_obj=(Q, c), params_eq=(A[:1], lo[:1]), params_ineq=(G, h)))):
          got, _ = printed(lambda: f(v)); compare(R, f"{key} verbose={v}", got, f(0)); R.case(); R.outcome("verbose", key)
      continue
    e = zoo.by_name()[name]
    for v in (1, 3) if "zoom" not in name else (3,):
      c = (len(e.inits) - 1, len(e.thetas) - 1)
      I = e.inits[c[0]]; x0 = None if I is None else jnp.asarray(I)
      args = tuple(jax.tree_util.tree_map(jnp.asarray, a) if a is not None else None for a in e.args(e.thetas[c[1]]))
      s = e.make(maxiter=5, tol=e.tol_stop)
      trace = [(0, s.init_state(x0, *args))]; x = x0
      upd = jax.jit(s.update)
      for k in range(1, 6): x, st = upd(x, trace[-1][1], *args); trace.append((k, st))
      want = s.run(x0, *args)
      got, text = printed(lambda: e.make(maxiter=5, tol=e.tol_stop, verbose=v).run(x0, *args))
      compare(R, f"{name} verbose={v}", got, want)
      known = [(int(st.iter_num), float(st.error)) for _, st in trace]
      lines = re.findall(r"jaxopt\." + type(s).__name__ + r": Iter: (\d+) .*?\(stopping criterion\): (\S+)", text)
      for it, err in lines:
        R.check(any(int(it) == a and (abs(float(err) - b) <= 1e-4 * (1 + abs(b)) or float(err) == b) for a, b in known), f"{name} verbose={v} line Iter {it}", f"printed error {err}; trajectory {known}")
      R.case(transitions=5); R.outcome("verbose", name, "lines" if lines else "no lines")


def check_stop_rule(R, name, ls, deep=False):
  """A failing line search ends the run exactly if the option asks for it (and never the run that follows from a fresh state)."""
  import jax, jax.numpy as jnp, jaxopt
  f = lambda x, t: jnp.sum(jnp.where(jnp.abs(x) > 2.5, jnp.nan, (x[1] - x[0] ** 2) ** 2 * t + (1 - x[0]) ** 2 + 0.3 * jnp.sin(9 * x[1])))
  F = lambda x, t: jnp.stack([x[0] ** 2 + t * x[1] - 1, jnp.sin(3 * x[0]) + x[1] ** 3 - 0.2])
  X = np.array(list(itertools.product((-2.0, -0.7, 0.1, 1.2, 2.2), (-1.5, 0.0, 0.6, 2.0)))); T = np.array([1.0, 8.0])
  b = (jnp.array([-2.4, -2.4]), jnp.array([2.4, 2.0]))
  def mk(**o):
    if name == "Broyden": return jaxopt.Broyden(F, linesearch=ls, history_size=9, **o)
    if name == "LBFGSB": return jaxopt.LBFGSB(f, linesearch=ls, history_size=3, **o)
    return jaxopt.LBFGS(f, linesearch=ls, history_size=3, **o)
  args = lambda t: (b, t) if name == "LBFGSB" else (t,)
  C = [(x, t) for x in X for t in T]; XX, TT = np.array([c[0] for c in C]), np.array([c[1] for c in C])
  K = 9
  for maxls in (1, 2, 3) if deep else (1, 2):
    for stop in (False, True):
      s = mk(maxls=maxls, stop_if_linesearch_fails=stop, maxiter=K, tol=1e-5, unroll=False)
      st = jax.jit(jax.vmap(lambda x, t: s.init_state(x, *args(t))))(XX, TT); x = jnp.asarray(XX)
      upd = jax.jit(jax.vmap(lambda x, st, t: tuple(s.update(x, st, *args(t)))))
      fz = {n: np.array(v) for n, v in flat_named((x, st)).items()}; live = np.ones(len(C), bool); hit = np.zeros(len(C), bool)
      for k in range(K):
        if k: live = live & (np.asarray(st.error) > 1e-5) & ~(stop & np.asarray(st.failed_linesearch).astype(bool))
        x, st = upd(x, st, jnp.asarray(TT))
        for n, v in flat_named((x, st)).items(): fz[n] = np.where(live.reshape((-1,) + (1,) * (v.ndim - 1)), v, fz[n])
        hit |= live & np.asarray(st.failed_linesearch).astype(bool)
      runs = {"lax": jax.jit(jax.vmap(lambda x, t: s.run(x, *args(t))))(XX, TT)}
      if maxls == 2:
        s2 = mk(maxls=maxls, stop_if_linesearch_fails=stop, maxiter=K, tol=1e-5, unroll=True) if name != "Broyden" else s
        runs["scan"] = jax.jit(jax.vmap(lambda x, t: s2.run(x, *args(t))))(XX, TT)
      for how, got in runs.items():
        g = flat_named(got)
        # after a failed search without a step, the next pair is (0, rounding noise): what the later searches report depends on the noise
        for n in ("iter_num0", "params0") + (("failed_linesearch0",) if stop else ()):
          R.closes(lambda i: f"{name} {ls} maxls={maxls} stop={stop} {how} start={XX[i].tolist()} t={TT[i]} {n}", g[n].astype(float), fz[n].astype(float), tol=1e-5 if n == "params0" else 0)
        R.case(len(C), transitions=int(fz["iter_num0"].sum()))
      R.outcome("line search failed", int(hit.sum()) > 0, "stop" if stop else "go on", n=int(hit.sum())); R.outcome("never failed", n=int((~hit).sum()))
      R.sample(f"{name} {ls} maxls={maxls} stop_if_linesearch_fails={stop}: {int(hit.sum())} of {len(C)} runs with a failing search")


NAMES = ["LBFGS-hager-zhang", "BFGS-hager-zhang", "NonlinearCG-hager-zhang", "LBFGSB", "LBFGSB-nobounds",
         "LBFGS-zoom", "BFGS-zoom", "NonlinearCG-zoom", "Broyden", "LBFGS-backtracking", "BFGS-backtracking",
         "NonlinearCG-backtracking", "LevenbergMarquardt-geo", "LevenbergMarquardt", "GaussNewton", "Broyden-fixed", "ArmijoSGD",
         "LBFGS-fixed", "GradientDescent", "GradientDescent-fixed", "GradientDescent-sched", "GradientDescent-nofista",
         "ProximalGradient", "ProximalGradient-fixed", "ProjectedGradient", "MirrorDescent", "MirrorDescent-sched",
         "BlockCoordinateDescent", "AndersonAcceleration", "AndersonAcceleration-beta", "FixedPointIteration",
         "AndersonWrapper", "Bisection", "PolyakSGD", "OptaxSolver", "BoxCDQP"]


def jobs(tier):
  deep = tier == "thorough"
  out = [(f"run-{n}", check_solver, dict(name=n, deep=deep)) for n in NAMES]
  out.insert(6, ("run-BoxOSQP", check_osqp, {}))
  out.append(("run-IterativeRefinement", check_refinement, {}))
  for w in ("hager-zhang", "zoom", "backtracking", "armijo", "goldstein"):
    out.insert(4, (f"run-linesearch-{w}", check_linesearch_run, dict(which=w)))
  out += [(f"stop-rule-{n}-{l}", check_stop_rule, dict(name=n, ls=l, deep=deep)) for n, l in (("LBFGSB", "zoom"), ("LBFGSB", "backtracking"), ("LBFGS", "zoom"), ("LBFGS", "backtracking"), ("Broyden", "backtracking"))]
  vn = [n for n in NAMES if n not in ("Bisection", "LBFGS-hager-zhang", "NonlinearCG-hager-zhang", "NonlinearCG-zoom", "LBFGSB-nobounds")] + ["QP"]
  if not deep: vn.remove("BFGS-hager-zhang")
  out += [(f"verbose-{i}", check_verbose, dict(names=vn[i::6])) for i in range(6)]
  return out
