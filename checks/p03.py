"""P03: line searches under an adversarial objective.

Environment-answer enumeration: every trial point a search asks for is answered by each letter of an alphabet of
(value, slope) pairs, sufficient / insufficient / increasing / NaN / +-inf values crossed with slopes of every class;
an answer is remembered, so asking twice gives the same answer.  The real update() is the transition function.
Hager-Zhang asks several points per update, so it is run on exhaustive families of piecewise-cubic profiles instead.
"""
import itertools, functools
import numpy as np

LEVEL = "model_checking"
RULE = ("zoom / backtracking: all answer sequences over the (value, slope) alphabet up to the iteration budget, x options; "
        "Hager-Zhang (and the others again): all piecewise-cubic profiles over a knot grid, with finite/NaN/inf tails, x budgets x options; "
        "oracle: step identity, memoised answers, the requested condition at the returned step, budgets, evaluation counts")
ASSUMPTIONS = ["the objective is a function (same point, same answer)", "alphabet of values/slopes as listed in the check"]

V0, S0 = 1.3, -2.0
D = np.array([-2.0, 1.0]) / 1.0          # direction
X0 = np.array([0.5, -0.25])


def letters(c1, c2, small=False):
  """(value class, slope class) pairs; value classes are functions of the stepsize t."""
  vals = dict(
      suff=lambda t: V0 + (c1 + 0.3 * (1 - c1)) * t * S0,     # sufficient decrease
      deep=lambda t: V0 + 3.0 * t * S0,
      flat=lambda t: V0 - 0.2 + 0 * t,                        # constant level: ties between points
      weak=lambda t: V0 + 0.5 * c1 * t * S0,                  # a decrease, but not sufficient
      up=lambda t: V0 + 0.7 * t,
      same=lambda t: V0 + 0 * t,
      nan=lambda t: np.nan + 0 * t,
      inf=lambda t: np.inf + 0 * t,
      ninf=lambda t: -np.inf + 0 * t,
  )
  slopes = dict(steep=2 * S0, ok=0.5 * c2 * S0, zero=0.0, pos=-0.5 * c2 * S0, rise=-3 * S0, nan=np.nan,
                near=0.5 * (1 + c2) * S0)
  L = []
  for v in vals:
    for s in slopes:
      if v in ("nan", "inf") and s not in ("nan", "ok", "rise"): continue
      if v == "ninf" and s not in ("nan", "zero"): continue
      if s == "nan" and v not in ("nan", "inf", "suff", "ninf"): continue
      if v in ("same", "weak") and s in ("near", "zero"): continue
      if small and (v in ("flat", "same", "ninf") or s in ("near", "zero")) : continue
      L.append((v, s))
  return vals, slopes, L


def value_of(c1, c2, vals, L):
  """jnp function (letter index, t) -> value, slope"""
  import jax.numpy as jnp
  slopes = letters(c1, c2)[1]
  names = list(vals)
  vi = np.array([names.index(v) for v, _ in L]); si = np.array([slopes[s] for _, s in L])

  def f(letter, t, xp=np):
    table = [vals[n](t) for n in names]
    vsel = xp.asarray(vi)[letter]
    out = table[0]
    for k in range(1, len(names)):
      out = xp.where(vsel == k, table[k], out)
    return out, xp.asarray(si)[letter]
  return f


def make_fun(f):
  """value_and_grad=True objective with memo; x = X0 + t*D."""
  import jax.numpy as jnp
  dd = float(D @ D)

  def fun(x, memo_t, memo_v, memo_s, letter):
    t = jnp.vdot(x - X0, D) / dd
    nv, ns = f(letter, t, xp=jnp)
    dist = jnp.abs(memo_t - t)
    k = jnp.argmin(dist)
    hit = dist[k] <= 1e-11 * (1.0 + jnp.abs(t))
    v = jnp.where(hit, memo_v[k], nv)
    s = jnp.where(hit, memo_s[k], ns)
    return (v, jnp.stack([v, t])), s * jnp.asarray(D) / dd
  return fun


def explore(R, kind, opts, init_stepsize, depth, small):
  import jax, jax.numpy as jnp
  from jaxopt import BacktrackingLineSearch
  from jaxopt._src.zoom_linesearch import ZoomLineSearch
  cls = dict(zoom=ZoomLineSearch, backtracking=BacktrackingLineSearch)[kind]
  c1, c2 = opts.get("c1", 1e-4), opts.get("c2", 0.9)
  vals, slopes, L = letters(c1, c2, small)
  f = value_of(c1, c2, vals, L)
  fun = make_fun(f)
  ls = cls(fun=fun, value_and_grad=True, has_aux=True, maxiter=depth, **opts)
  cond = opts.get("condition", "strong-wolfe")
  x0, d = jnp.asarray(X0), jnp.asarray(D)
  g0 = S0 * D / float(D @ D)
  M = depth + 1
  label = f"{kind} {opts} init={init_stepsize}"

  def upd(step, st, mt, mv, ms, letter):
    new = ls.update(step, st, x0, V0, jnp.asarray(g0), d, fun_args=[mt, mv, ms, letter])
    return new.stepsize, new.state
  U = jax.jit(jax.vmap(upd))
  mt0 = jnp.full((M,), 1e30).at[0].set(0.0); mv0 = jnp.zeros(M).at[0].set(V0); ms0 = jnp.zeros(M).at[0].set(S0)
  st0 = ls.init_state(init_stepsize, x0, V0, jnp.asarray(g0), d, fun_args=[mt0, mv0, ms0, 0])
  if st0.aux is None:
    st0 = st0._replace(aux=jnp.zeros(2))
  nl = len(L)
  maxstep = ls.max_stepsize
  t_init = min(init_stepsize, maxstep)
  hist_names = []

  N = 1
  step = jnp.full((1,), float(init_stepsize))
  st = jax.tree_util.tree_map(lambda a: jnp.asarray(a)[None], st0)
  mt, mv, ms = mt0[None], mv0[None], ms0[None]
  hist = np.zeros((1, 0), int)
  total_end = 0
  for k in range(depth):
    # expand every live state by every letter
    rep = lambda a: jnp.repeat(jnp.asarray(a), nl, axis=0)
    step, mt, mv, ms = rep(step), rep(mt), rep(mv), rep(ms)
    st = jax.tree_util.tree_map(rep, st)
    hist = np.concatenate([np.repeat(hist, nl, axis=0), np.tile(np.arange(nl), N)[:, None]], axis=1)
    letter = jnp.asarray(hist[:, -1])
    prev_step = np.asarray(step)
    nstep, nst = U(step, st, mt, mv, ms, letter)
    N = len(hist)
    done, failed = np.asarray(nst.done), np.asarray(nst.failed)
    nstep_, it = np.asarray(nstep), np.asarray(nst.iter_num)
    # the trial point of this update
    if kind == "backtracking":
      t = np.minimum(prev_step, maxstep)
    else:
      # interval phase remembers its trial; zoom phase returns it (unless the search has just failed)
      in_search = ~np.asarray(st.interval_found)
      t = np.where(in_search, np.asarray(nst.prev_stepsize), nstep_)
    v, s = f(np.asarray(letter), t)
    # same point asked again -> remembered answer
    MT, MV, MS = np.asarray(mt), np.asarray(mv), np.asarray(ms)
    dist = np.abs(MT[:, :k + 1] - t[:, None]); kk = dist.argmin(1); hit = dist[np.arange(N), kk] <= 1e-11 * (1 + np.abs(t))
    v = np.where(hit, MV[np.arange(N), kk], v); s = np.where(hit, MS[np.arange(N), kk], s)
    with np.errstate(all="ignore"):
      arm = v - V0 - c1 * t * S0
      strong = np.abs(s) - c2 * abs(S0)
    name = lambda i: "-".join("/".join(L[l]) for l in hist[i])
    key = lambda what: (lambda i: f"{label} {what} {name(i)}")

    def must(mask, ok, what):
      bad = np.nonzero(mask & ~ok)[0]
      for i in bad[:5]:
        R.violation(f"{label} {what} {name(i)}", f"iter {k + 1}: stepsize {nstep_[i]} done {done[i]} failed {failed[i]} trial t={t[i]} value={v[i]} slope={s[i]}")
      R.nviol += max(0, len(bad) - 5)

    end = done | failed
    must(np.ones(N, bool), it == k + 1, "iter_num")
    must(np.ones(N, bool), ~(done & failed), "done-and-failed")
    must(np.ones(N, bool), (nstep_ >= 0) & (nstep_ <= maxstep * (1 + 1e-12)), "stepsize-range")
    with np.errstate(all="ignore"):
      suff = arm <= 1e-9 * (1 + np.abs(V0))
      approx = np.maximum(s - (2 * c1 - 1) * S0, v - V0 - getattr(ls, "c3", 0.0) * abs(V0)) <= 1e-9 if kind == "zoom" else np.zeros(N, bool)
      if kind == "zoom":
        good = (suff | approx) & (strong <= 1e-9)
        at_max = (t >= maxstep) & (suff | approx)
        exact_good = good | at_max
      else:
        c = dict(armijo=np.ones(N, bool), wolfe=c2 * S0 - s <= 1e-9)
        c["strong-wolfe"] = strong <= 1e-9
        c["goldstein"] = V0 + (1 - c1) * t * S0 - v <= 1e-9
        exact_good = suff & c[cond]
        good = exact_good
    must(done & ~failed, exact_good, "claims-success")
    if kind == "backtracking":
      must(np.ones(N, bool), (done & ~failed) == (exact_good & ~np.isnan(v)), "first-acceptable-step")
      must(~end, np.abs(nstep_ - t * ls.decrease_factor) <= 1e-12, "shrink")
    else:
      must(good & ~np.isnan(v) & ~np.isnan(s), done, "refuses-good-step")
    # what the state reports
    final = end
    par = np.asarray(nst.params); val = np.asarray(nst.value); gr = np.asarray(nst.grad); aux = np.asarray(nst.aux)
    want_par = X0 + nstep_[:, None] * D
    must(final, np.abs(par - want_par).max(1) <= 1e-9 * (1 + np.abs(nstep_)), "params=start+stepsize*direction")
    # answer at the returned step
    MT2 = np.concatenate([MT[:, :k + 1], t[:, None]], 1); MV2 = np.concatenate([MV[:, :k + 1], v[:, None]], 1); MS2 = np.concatenate([MS[:, :k + 1], s[:, None]], 1)
    if kind == "zoom":   # on failure t of this update may be unknown: the trial is recovered from the interval state
      unk = failed & ~np.asarray(~np.asarray(st.interval_found))
      tz = trial_of_zoom(st, nst)
      MT2[:, -1] = np.where(unk, tz, MT2[:, -1])
      vz, sz = f(np.asarray(letter), tz)
      dz = np.abs(MT[:, :k + 1] - tz[:, None]); kz = dz.argmin(1); hz = dz[np.arange(N), kz] <= 1e-11 * (1 + np.abs(tz))
      vz = np.where(hz, MV[np.arange(N), kz], vz); sz = np.where(hz, MS[np.arange(N), kz], sz)
      MV2[:, -1] = np.where(unk, vz, MV2[:, -1]); MS2[:, -1] = np.where(unk, sz, MS2[:, -1])
    dist = np.abs(MT2 - nstep_[:, None]); kk = dist.argmin(1)
    rv, rs = MV2[np.arange(N), kk], MS2[np.arange(N), kk]
    known = dist[np.arange(N), kk] <= 1e-11 * (1 + nstep_)
    must(final, known, "returned-step-was-evaluated")
    same = lambda a, b: (np.abs(a - b) <= 1e-9 * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))
    with np.errstate(all="ignore"):
      must(final & known, same(val, rv), "value-of-params")
      must(final & known, same(gr @ D, rs), "grad-of-params")
      must(final & known, same(aux[:, 0], rv) & same(aux[:, 1], nstep_), "aux-of-params")
    # a failed zoom search falls back on a point of sufficient decrease if it has seen one
    if kind == "zoom":
      with np.errstate(all="ignore"):
        armM = MV2 - V0 - c1 * MT2 * S0
        apprM = np.maximum(MS2 - (2 * c1 - 1) * S0, MV2 - V0 - ls.c3 * abs(V0))
        okM = (np.minimum(armM, apprM) <= 0) & ~np.isnan(np.minimum(armM, apprM)) & (MT2 > 0) & (MT2 < 1e29)
        seen = okM.any(1)
        ret_ok = okM[np.arange(N), kk]
      must(failed & ~done & seen, ret_ok, "fallback-point")
      with np.errstate(all="ignore"):
        far = np.where(okM & (np.minimum(armM, apprM) <= -1e-9), MT2, 0.0).max(1)
      must(failed & ~done & seen, nstep_ >= far * (1 - 1e-11), "fallback-point-is-the-longest")
    if k == depth - 1:
      must(np.ones(N, bool), end, "budget")
    nfe = np.asarray(nst.num_fun_eval)
    base = int(st0.num_fun_eval)
    extra = {"zoom": failed.astype(int), "backtracking": (end if cond in ("armijo", "goldstein") else np.zeros(N, bool)).astype(int)}[kind]
    must(np.ones(N, bool), nfe == base + (k + 1) + extra, "num_fun_eval")
    nge = np.asarray(nst.num_grad_eval)
    if kind == "zoom" or cond in ("wolfe", "strong-wolfe"):
      must(np.ones(N, bool), nge == base + (k + 1) + (failed.astype(int) if kind == "zoom" else 0), "num_grad_eval")
    R.add(states=N, transitions=N)
    ne = int(end.sum()); total_end += ne
    R.add(traces=ne, evals=ne)
    R.outcome(kind, "done", k + 1, n=int((done & ~failed).sum())); R.outcome(kind, "failed", n=int(failed.sum()))
    live = np.nonzero(~end)[0]
    N = len(live)
    if N == 0:
      break
    sel = lambda a: jnp.asarray(np.asarray(a)[live])
    step = sel(nstep); st = jax.tree_util.tree_map(sel, nst)
    mt = jnp.asarray(MT).at[:, k + 1].set(t)[live]; mv = jnp.asarray(MV).at[:, k + 1].set(v)[live]; ms = jnp.asarray(MS).at[:, k + 1].set(s)[live]
    hist = hist[live]
  R.sample(f"{label}: {nl} letters, depth {depth}, {total_end} complete executions, e.g. {name(0) if N else ''}")


def trial_of_zoom(st, nst):
  """In the zoom phase the trial point becomes low or high of the new interval: the end that changed."""
  low0, high0 = np.asarray(st.low), np.asarray(st.high)
  low1, high1 = np.asarray(nst.low), np.asarray(nst.high)
  return np.where(low1 != low0, low1, high1)


# ---------------------------------------------------------------- profiles
KN = np.array([0.0, 0.5, 1.0, 2.5, 6.0])


def profiles(nv, ns, tails):
  """Grid of (values at knots 1.., slopes at knots 1.., tail mode)."""
  vs = np.array(list(itertools.product(nv, repeat=len(KN) - 1)))
  ss = np.array(ns)                      # slope patterns (rows)
  T = np.array(tails)
  n1, n2, n3 = len(vs), len(ss), len(T)
  V = np.repeat(vs, n2 * n3, axis=0); S = np.tile(np.repeat(ss, n3, axis=0), (n1, 1)); TT = np.tile(T, (n1 * n2, 1))
  return V, S, TT


def profile_fun(xp):
  def phi(t, V, S, tail):
    """C1 piecewise cubic through the knots; quadratic/linear beyond the last; NaN/inf past tail[1] if tail[0]."""
    v = xp.concatenate([xp.asarray([V0]), V]); s = xp.concatenate([xp.asarray([S0]), S])
    k = xp.clip(xp.sum(xp.asarray(KN)[1:-1] <= t), 0, len(KN) - 2)
    kn = xp.asarray(KN)
    a, b = kn[k], kn[k + 1]
    h = b - a; u = (t - a) / h
    h00 = 2 * u ** 3 - 3 * u ** 2 + 1; h10 = u ** 3 - 2 * u ** 2 + u; h01 = -2 * u ** 3 + 3 * u ** 2; h11 = u ** 3 - u ** 2
    d00 = (6 * u ** 2 - 6 * u) / h; d10 = 3 * u ** 2 - 4 * u + 1; d01 = -d00; d11 = 3 * u ** 2 - 2 * u
    val = h00 * v[k] + h10 * h * s[k] + h01 * v[k + 1] + h11 * h * s[k + 1]
    slo = d00 * v[k] + d10 * s[k] + d01 * v[k + 1] + d11 * s[k + 1]
    last = kn[-1]
    val = xp.where(t > last, v[-1] + s[-1] * (t - last) + 0.5 * (t - last) ** 2 * tail[2], val)
    slo = xp.where(t > last, s[-1] + (t - last) * tail[2], slo)
    bad = t > tail[1]
    val = xp.where(bad, xp.where(tail[0] == 1, xp.nan, xp.where(tail[0] == 2, xp.inf, val)), val)
    slo = xp.where(bad, xp.where(tail[0] >= 1, xp.nan, slo), slo)
    return val, slo
  return phi


TAILS = [(0, 1e9, 1.0), (0, 1e9, 0.0), (1, 0.3, 1.0), (1, 0.8, 1.0), (2, 0.8, 1.0), (1, 1.7, 1.0), (2, 4.0, 0.0)]
SLOPES = [(-1.0, -0.5, 0.5, 2.0), (-2.5, -2.0, -1.9, -0.05), (0.6, 0.3, -0.2, 1.0), (-0.3, 0.0, 0.1, 0.2), (3.0, -3.0, 3.0, -3.0), (-4.0, 1.0, -0.4, 0.0)]


def check_profiles(R, which, opts, maxiters, vals, inits=(1.0,)):
  import jax, jax.numpy as jnp
  from jaxopt import BacktrackingLineSearch, HagerZhangLineSearch
  from jaxopt._src.zoom_linesearch import ZoomLineSearch
  cls = dict(hz=HagerZhangLineSearch, zoom=ZoomLineSearch, backtracking=BacktrackingLineSearch)[which]
  phi = profile_fun(jnp)
  dd = float(D @ D)

  def fun(x, V, S, tail):
    t = jnp.vdot(x - X0, D) / dd
    v, s = phi(t, V, S, tail)
    return (v, jnp.stack([v, t])), s * jnp.asarray(D) / dd

  V, S, T = profiles(vals, SLOPES, TAILS)
  n = len(V)
  g0 = jnp.asarray(S0 * D / dd)
  pvs = jax.jit(jax.vmap(phi))
  R.sample(f"{which} {opts}: {n} profiles, knots {KN.tolist()}, values {vals}, maxiter {maxiters}")
  for m in maxiters:
    ls = cls(fun=fun, value_and_grad=True, has_aux=True, maxiter=m, **opts)
    c1, c2 = ls.c1, ls.c2
    run = jax.jit(jax.vmap(lambda V, S, T, i: ls.run(i, jnp.asarray(X0), V0, g0, jnp.asarray(D), fun_args=[V, S, T]), in_axes=(0, 0, 0, None)))
    for init in inits:
      step, st = run(V, S, T, init)
      step = np.asarray(step); done = np.asarray(st.done); failed = np.asarray(st.failed)
      it = np.asarray(st.iter_num)
      par = np.asarray(st.params)
      rv, rs = (np.asarray(a) for a in pvs(jnp.asarray(step), V, S, T))
      label = f"{which} {opts} maxiter={m} init={init}"

      def must(mask, ok, what):
        bad = np.nonzero(mask & ~ok)[0]
        for i in bad[:5]:
          R.violation(f"{label} {what} V={V[i]} S={S[i]} tail={T[i]}",
                      f"stepsize {step[i]} done {done[i]} failed {failed[i]} iter {it[i]} value {rv[i]} slope {rs[i]} params {par[i]} state.value {np.asarray(st.value)[i]}")
        R.nviol += max(0, len(bad) - 5)
      allm = np.ones(n, bool)
      same = lambda a, b: (np.abs(a - b) <= 1e-7 * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))
      must(allm, it <= m, "iterations")
      must(allm, step >= 0, "stepsize-sign")
      must(allm, ~(done & failed), "done-and-failed")
      if which != "hz":
        must(allm, step <= ls.max_stepsize * (1 + 1e-12), "stepsize-max")
      must(done | failed, np.abs(par - (X0 + step[:, None] * D)).max(1) <= 1e-9 * (1 + np.abs(step)), "params=start+stepsize*direction")
      must(allm, done | failed, "budget")
      with np.errstate(all="ignore"):
        must(done | failed, same(np.asarray(st.value), rv), "value-of-params")
        must(done | failed, same(np.asarray(st.grad) @ D, rs), "grad-of-params")
        must(done | failed, same(np.asarray(st.aux)[:, 0], rv) & same(np.asarray(st.aux)[:, 1], step), "aux-of-params")
        suff = rv - V0 - c1 * step * S0 <= 1e-8
        if which == "hz":
          wolfe = suff & (rs >= c2 * S0 - 1e-8)
          eps = ls.approximate_wolfe_threshold if hasattr(ls, "approximate_wolfe_threshold") else 1e-6
          appr = (rs <= (2 * c1 - 1) * S0 + 1e-8) & (rs >= c2 * S0 - 1e-8) & (rv <= V0 + eps * abs(V0) + 1e-8)
          ok = wolfe | appr
        elif which == "zoom":
          appr = (rs <= (2 * c1 - 1) * S0 + 1e-8) & (rv <= V0 + ls.c3 * abs(V0) + 1e-8)
          ok = (suff | appr) & ((np.abs(rs) <= c2 * abs(S0) + 1e-8) | (step >= ls.max_stepsize))
        else:
          cond = opts.get("condition", "strong-wolfe")
          ok = suff & dict(armijo=allm, wolfe=rs >= c2 * S0 - 1e-8, goldstein=rv >= V0 + (1 - c1) * step * S0 - 1e-8,
                           **{"strong-wolfe": np.abs(rs) <= c2 * abs(S0) + 1e-8})[cond]
      must(done & ~failed, ok & np.isfinite(rv), "claims-success")
      R.case(n, transitions=int(it.sum()))
      R.outcome(which, "done", n=int((done & ~failed).sum())); R.outcome(which, "failed", n=int(failed.sum()))
      for j in range(0, m + 1):
        R.outcome(which, "iters", j, n=int((it == j).sum()))


def check_convex(R, which, opts, tier):
  """Liveness: on every strictly convex smooth profile of the family the search succeeds within its default budget."""
  import jax, jax.numpy as jnp
  from jaxopt import BacktrackingLineSearch, HagerZhangLineSearch
  from jaxopt._src.zoom_linesearch import ZoomLineSearch
  cls = dict(hz=HagerZhangLineSearch, zoom=ZoomLineSearch, backtracking=BacktrackingLineSearch)[which]
  # f(x) = a/2 (x1-m)^2 + b (x1-m)^4 + softplus kink, minimiser at distance m from the start along -grad
  As = [0.0, 0.05, 0.5, 1.0, 3.0, 20.0]; Bs = [0.0, 0.1, 2.0]; Ms = [0.1, 0.5, 1.0, 3.0, 10.0]; Cs = [0.0, 1.0, 8.0]
  P = np.array([p for p in itertools.product(As, Bs, Ms, Cs) if p[0] + p[1] > 0])

  def fun(x, p):
    u = x[0] - p[2]
    return 0.5 * p[0] * u ** 2 + p[1] * u ** 4 + p[3] * (jnp.logaddexp(0.0, u) + jnp.logaddexp(0.0, -u)) + 0.5 * x[1] ** 2, x[0]

  ls = cls(fun=fun, has_aux=True, **opts)
  inits = [0.1, 1.0, 4.0]
  run = jax.jit(jax.vmap(lambda p, i: ls.run(i, jnp.asarray([0.0, 0.3]), fun_args=[p]), in_axes=(0, None)))
  vg = jax.jit(jax.vmap(jax.value_and_grad(lambda x, p: fun(x, p)[0]), in_axes=(0, 0)))
  f0, g0 = (np.asarray(a) for a in vg(jnp.tile(jnp.asarray([0.0, 0.3]), (len(P), 1)), P))
  for init in inits:
    step, st = run(P, init)
    step = np.asarray(step)
    done, failed = np.asarray(st.done), np.asarray(st.failed)
    x = np.array([0.0, 0.3]) - step[:, None] * g0
    f1, g1 = (np.asarray(a) for a in vg(jnp.asarray(x), P))
    s0 = -(g0 ** 2).sum(1); s1 = -(g0 * g1).sum(1)
    R.closes(lambda i: f"{which} {opts} init={init} p={P[i]} params", st.params, x, tol=1e-9)
    R.closes(lambda i: f"{which} {opts} init={init} p={P[i]} value", st.value, f1, tol=1e-9)
    R.closes(lambda i: f"{which} {opts} init={init} p={P[i]} grad", st.grad, g1, tol=1e-8)
    R.closes(lambda i: f"{which} {opts} init={init} p={P[i]} aux", st.aux, x[:, 0], tol=1e-9)
    for i in range(len(P)):
      ok = True
      if which == "backtracking":
        # first step of the geometric sequence that satisfies the condition (independent reference)
        t = min(init, ls.max_stepsize); found = None
        ts = t * ls.decrease_factor ** np.arange(ls.maxiter)
        xs = np.array([0.0, 0.3]) - ts[:, None] * g0[i]
        fi, gi = (np.asarray(a) for a in vg(jnp.asarray(xs), jnp.tile(jnp.asarray(P[i]), (len(ts), 1))))
        si = -(gi @ g0[i]); cond = opts.get("condition", "strong-wolfe")
        def admissible(m):     # m > 0: with a margin, m < 0: ties count
          m = m * (1 + abs(f0[i]) + abs(s0[i]))
          arm = fi <= f0[i] + ls.c1 * ts * s0[i] - m
          return arm & dict(armijo=arm, wolfe=si >= ls.c2 * s0[i] + m, goldstein=fi >= f0[i] + (1 - ls.c1) * ts * s0[i] + m,
                            **{"strong-wolfe": np.abs(si) <= ls.c2 * np.abs(s0[i]) - m})[cond]
        sure, maybe = admissible(1e-10), admissible(-1e-10)
        k = int(np.argmin(np.abs(ts - step[i])))
        if done[i]:
          R.check(not failed[i] and abs(step[i] - ts[k]) < 1e-9 and maybe[k] and not sure[:k].any(), f"{which} {opts} init={init} p={P[i]} first-step", f"got {step[i]}; admissible {ts[sure]}")
        else:
          R.check(failed[i] and not sure.any(), f"{which} {opts} init={init} p={P[i]} failed-flag", f"admissible {ts[sure]}")
      else:
        R.check(done[i] and not failed[i], f"{which} {opts} init={init} p={P[i]} liveness", f"step {step[i]} f0 {f0[i]} f1 {f1[i]} s0 {s0[i]} s1 {s1[i]} iter {np.asarray(st.iter_num)[i]}")
        # (approximate) Wolfe at the reported step
        R.check(s1[i] >= ls.c2 * s0[i] - 1e-7 or (which == "zoom" and step[i] >= ls.max_stepsize), f"{which} {opts} init={init} p={P[i]} curvature", f"{s1[i]} {s0[i]}")
        R.check(f1[i] <= f0[i] + 1e-6 * abs(f0[i]) + 1e-9, f"{which} {opts} init={init} p={P[i]} decrease", f"{f1[i]} {f0[i]}")
    R.case(len(P), transitions=int(np.asarray(st.iter_num).sum()))
    R.outcome(which, "convex done", n=int(done.sum())); R.outcome(which, "convex failed", n=int(failed.sum()))
  R.sample(f"{which} {opts}: {len(P)} convex profiles x inits {inits}")


def polynomials(R):
  """Zoom on polynomial profiles: the bracket it keeps belongs to the objective, and its interpolation reproduces polynomials up to the third degree.

  With three distinct known points a cubic profile is known exactly, and with two a quadratic one; its minimiser, if it is well inside the
  bracket, is the next trial.
  """
  import jax, jax.numpy as jnp
  from jaxopt._src.zoom_linesearch import ZoomLineSearch
  B = (-3.0, -1.0, -0.5, -0.2, 0.0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.65, 0.8, 1.0, 1.3, 2.0, 3.0, 5.0, 9.0)
  C = (-0.4, -0.05, 0.0, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 1.0, 2.0, 3.0, 6.0, 15.0); D = (0.0, 0.05, 1.5)
  P = np.array([p for p in itertools.product(B, C, D)])
  phi = lambda p, t: -t + p[..., 0] * t ** 2 + p[..., 1] * t ** 3 + p[..., 2] * t ** 4
  dphi = lambda p, t: -1 + 2 * p[..., 0] * t + 3 * p[..., 1] * t ** 2 + 4 * p[..., 2] * t ** 3
  f = lambda x, p: phi(p, x[0])
  x0, d = jnp.zeros(1), jnp.ones(1)
  for opts in (dict(c2=1e-3), dict(c2=0.1, max_stepsize=3.0), dict(c1=0.2, c2=0.25, increase_factor=5.0, max_stepsize=20.0), dict(c2=1e-3, max_stepsize=0.6)):
    ls = ZoomLineSearch(fun=f, tol=0.0, maxiter=12, **opts)
    init = jax.jit(jax.vmap(lambda p, t: ls.init_state(t, x0, descent_direction=d, fun_args=[p]), (0, None)))
    upd = jax.jit(jax.vmap(lambda p, t, st: tuple(ls.update(t, st, x0, descent_direction=d, fun_args=[p]))))
    for t0 in (0.3, 1.0, 4.0):
      st = init(P, t0); t = np.full(len(P), t0); live = np.ones(len(P), bool)
      for k in range(12):
        old = st; tn, st = upd(P, jnp.asarray(t), st); tn = np.asarray(tn)
        A = lambda s, n: np.asarray(getattr(s, n))
        key = lambda i, w="": f"{opts} t0={t0} p={P[i]} update {k} {w}"
        for n in ("low", "high", "cubic_ref"):
          z = A(st, n); v = A(st, "value_" + n); ok = live & A(st, "interval_found") & np.isfinite(z)
          R.closes(lambda i: key(np.flatnonzero(ok)[i], "value of " + n), v[ok], phi(P[ok], z[ok]), tol=1e-9)
          if n != "cubic_ref": R.closes(lambda i: key(np.flatnonzero(ok)[i], "slope of " + n), A(st, "slope_" + n)[ok], dphi(P[ok], z[ok]), tol=1e-9)
        zoom = live & A(old, "interval_found") & ~A(old, "done") & ~A(old, "failed") & ~A(st, "failed")
        lo, hi, ref = A(old, "low"), A(old, "high"), A(old, "cubic_ref"); a, b = np.minimum(lo, hi), np.maximum(lo, hi); w = b - a
        inside = zoom & (tn >= a - 1e-12) & (tn <= b + 1e-12)
        R.check((inside | ~zoom).all(), key(int(np.argmax(zoom & ~inside)), "trial inside the bracket"), "")
        with np.errstate(all="ignore"):
          b2, c3, d4 = P.T
          quad = 1 / (2 * b2); disc = b2 ** 2 + 3 * c3; cub = (-b2 + np.sqrt(disc)) / (3 * c3)
          known3 = zoom & (d4 == 0) & (c3 != 0) & (np.abs(ref - lo) > 1e-3 * w) & (np.abs(ref - hi) > 1e-3 * w) & (disc > 1e-6)
          known2 = zoom & (d4 == 0) & (c3 == 0) & (b2 > 0) & (ref == lo)
          for m, want, deg in ((known3, cub, 3), (known2, quad, 2)):
            ok = m & (w > 1e-2) & (want > a + 0.3 * w) & (want < b - 0.3 * w)
            R.closes(lambda i: key(np.flatnonzero(ok)[i], f"trial degree {deg}"), tn[ok], want[ok], tol=1e-5)
            R.outcome("interpolated", deg, n=int(ok.sum()))
        R.case(int(live.sum()), transitions=int(live.sum()))
        live &= ~A(st, "done") & ~A(st, "failed"); t = tn
        if not live.any(): break


def hz_bracket(R):
  """Hager-Zhang on profiles with a bump: every interval it keeps satisfies the opposite slope condition, is inside the previous one and
  is shorter by the promised factor; on a quadratic profile the secant step is exact.
  """
  import jax, jax.numpy as jnp
  from jaxopt import HagerZhangLineSearch
  P = np.array(list(itertools.product((0.05, 0.2, 0.5, 1.0, 3.0, 12.0), (0.0, 0.5, 1.0, 4.0), (0.05, 0.2, 0.4, 0.7, 1.5, 3.0), (0.05, 0.15, 0.4), (0.0, 0.2))))
  phi = lambda p, t: -t + p[..., 0] * t ** 2 + p[..., 1] * jnp.exp(-((t - p[..., 2]) / p[..., 3]) ** 2) + p[..., 4] * jnp.sin(7 * t) / 7
  f = lambda x, p: phi(p, x[0])
  vg = jax.jit(jax.vmap(jax.value_and_grad(lambda t, p: phi(p, t))))
  x0, d = jnp.zeros(1), jnp.ones(1)
  v0, s0 = map(np.asarray, vg(jnp.zeros(len(P)), P))
  P = P[s0 < -1e-3]; v0, s0 = map(np.asarray, vg(jnp.zeros(len(P)), P))
  for opts in ({}, dict(c1=0.3, c2=0.4), dict(c1=1e-3, c2=0.01), dict(c2=0.02, shrinkage_factor=0.4, expansion_factor=2.5), dict(c2=0.02, approximate_wolfe_threshold=0.1)):
    if "approximate_wolfe_threshold" in opts and "approximate_wolfe_threshold" not in HagerZhangLineSearch.__dataclass_fields__: continue
    ls = HagerZhangLineSearch(fun=f, **opts)
    eps = getattr(ls, "approximate_wolfe_threshold", 1e-6)
    st = jax.jit(jax.vmap(lambda p: ls.init_state(1.0, x0, descent_direction=d, fun_args=[p])))(P)
    upd = jax.jit(jax.vmap(lambda p, st: tuple(ls.update(1.0, st, x0, descent_direction=d, fun_args=[p]))))
    live = np.ones(len(P), bool); wide = None
    for k in range(31):
      lo, hi, done = np.asarray(st.low), np.asarray(st.high), np.asarray(st.done)
      (vl, sl), (vh, sh) = (map(np.asarray, vg(jnp.asarray(z), P)) for z in (lo, hi))
      key = lambda i, w: f"{opts} p={P[i]} interval {k} {w}"
      def must(ok, w):
        for i in np.flatnonzero(live & ~ok)[:3]: R.violation(key(i, w), f"[{lo[i]}, {hi[i]}] slopes {sl[i]} {sh[i]} values {vl[i]} {vh[i]} at zero {v0[i]} before {None if wide is None else (wide[0][i], wide[1][i])}")
      tol = 1e-9
      must(lo <= hi, "ordered")
      must((sl < tol) & (sh > -tol), "opposite slopes")
      must(vl <= v0 + eps * np.abs(v0) + tol, "value at the lower end")
      if wide is not None:
        must((lo >= wide[0] - tol) & (hi <= wide[1] + tol), "nested")
        must(hi - lo <= max(ls.shrinkage_factor, 0.5) * (wide[1] - wide[0]) + tol, "shorter")
        if k == 1:
          quad = (P[:, 1] == 0) & (P[:, 4] == 0); best = 1 / (2 * P[:, 0])
          must(~quad | (np.minimum(np.abs(lo - best), np.abs(hi - best)) <= 1e-6 * best), "secant on a quadratic"); R.outcome("quadratic", n=int((quad & live).sum()))
      R.case(int(live.sum()), transitions=int(live.sum())); R.outcome("interval", k, n=int(live.sum()))
      live &= ~done & ~np.asarray(st.failed)
      if not live.any(): break
      wide = (lo, hi); _, st = upd(P, st)
    R.check(not live.any(), f"{opts} within the budget", str(P[live][:2]))


def first_trial(R):
  """The trial stepsize a solver hands to its line search: every strategy x previous stepsize x limits.

  On a linear objective the Armijo search accepts its first trial, so the stepsize of the new state is the one asked for.
  """
  import jax, jax.numpy as jnp, jaxopt
  c = jnp.array([1.0, -2.0, 0.5]); f = lambda x: c @ x
  ls = jaxopt.BacktrackingLineSearch(f, condition="armijo", max_stepsize=1e6, maxiter=5)
  x0 = jnp.array([0.3, 0.1, -0.2])
  prev = np.array([0.0, 1e-9, 1e-6, 0.05, 0.3, 0.4, 1.0, 1.7, 5.0])
  mk = dict(BFGS=lambda **o: jaxopt.BFGS(f, linesearch=ls, **o), LBFGS=lambda **o: jaxopt.LBFGS(f, linesearch=ls, **o), NonlinearCG=lambda **o: jaxopt.NonlinearCG(f, linesearch=ls, **o),
            LBFGSB=lambda **o: jaxopt.LBFGSB(f, linesearch=ls, history_size=2, **o))
  grid = [(st, mx, mn, inc) for st in ("max", "current", "increase") for mx in (1.0, 3.0) for mn in (1e-6, 0.3) for inc in (1.5, 2.0)]
  for name, make in mk.items():
    bounds = ((-1e9 * jnp.ones(3), 1e9 * jnp.ones(3)),) if name == "LBFGSB" else ()
    for st, mx, mn, inc in grid:
      if name == "LBFGSB" and mx * inc == 3.0: continue
      s = make(linesearch_init=st, max_stepsize=mx, min_stepsize=mn, increase_factor=inc)
      s0 = s.init_state(x0, *bounds)
      p, ns = jax.jit(jax.vmap(lambda t: tuple(s.update(x0, s0._replace(stepsize=t), *bounds))))(jnp.asarray(prev))
      want = dict(max=np.full(len(prev), mx), current=prev, increase=np.where(prev <= mn, mx, prev * inc))[st]
      key = lambda i: f"{name} {st} max={mx} min={mn} factor={inc} previous={prev[i]}"
      R.closes(key, ns.stepsize, want, tol=1e-12)
      if name != "LBFGSB": R.closes(lambda i: key(i) + " step", np.asarray(p), np.asarray(x0) - want[:, None] * np.asarray(c), tol=1e-12)
      R.check(float(s0.stepsize) == mx, f"{name} {st} max={mx} initial state", str(s0.stepsize))
      R.case(len(prev)); R.outcome("first trial", name, st, n=len(prev))
    try: make(linesearch_init="other").update(x0, s0, *bounds); ok = False
    except ValueError: ok = True
    R.check(ok, f"{name} unknown strategy is refused"); R.case()


def jobs(tier):
  deep = tier == "thorough"
  out = []
  out.append(("first-trial", first_trial, {}))
  out.append(("zoom-polynomials", polynomials, {}))
  out.append(("hz-bracket", hz_bracket, {}))
  hzv = (-3.0, 0.5, 1.2999, 2.0) if not deep else (-6.0, -3.0, 0.5, 1.2999, 1.3001, 2.0, 9.0)
  out.append(("hz-default", check_profiles, dict(which="hz", opts={}, maxiters=(30,), vals=hzv)))
  out.append(("hz-budget", check_profiles, dict(which="hz", opts={}, maxiters=(2,), vals=hzv, inits=(0.37,))))
  out.append(("hz-tight", check_profiles, dict(which="hz", opts=dict(c1=0.3, c2=0.4), maxiters=(12,), vals=hzv)))
  zd = 4 if deep else 3
  for i, (o, init) in enumerate([({}, 1.0), (dict(max_stepsize=1.0), 1.0), (dict(max_stepsize=3.0), 0.4), (dict(c1=0.2, c2=0.5, max_stepsize=8.0), 5.0),
                                 (dict(increase_factor=4.0, max_stepsize=7.0, interval_threshold=0.5), 1.0)]):
    out.append((f"zoom-adv{zd}-{i}", explore, dict(kind="zoom", opts=o, init_stepsize=init, depth=zd, small=False)))
    out.append((f"zoom-adv{zd + 1}-{i}", explore, dict(kind="zoom", opts=o, init_stepsize=init, depth=zd + 1, small=True)))
  for i, o in enumerate([{}, dict(max_stepsize=2.5)]):
    out.append((f"zoom-profiles-{i}", check_profiles, dict(which="zoom", opts=o, maxiters=(30,) if i else (30, 4), vals=hzv, inits=(1.0, 0.3))))
  for c in ("armijo", "goldstein", "wolfe", "strong-wolfe"):
    out.append((f"bt-adv-{c}", explore, dict(kind="backtracking", opts=dict(condition=c), init_stepsize=1.0, depth=3, small=False)))
    out.append((f"bt-adv-{c}-big", explore, dict(kind="backtracking", opts=dict(condition=c, max_stepsize=0.8, decrease_factor=0.3, c1=0.3, c2=0.6), init_stepsize=2.0, depth=3, small=False)))
    out.append((f"bt-profiles-{c}", check_profiles, dict(which="backtracking", opts=dict(condition=c), maxiters=(6,), vals=hzv)))
    out.append((f"bt-convex-{c}", check_convex, dict(which="backtracking", opts=dict(condition=c), tier=tier)))
  out.append(("zoom-convex", check_convex, dict(which="zoom", opts={}, tier=tier)))
  out.append(("hz-convex", check_convex, dict(which="hz", opts={}, tier=tier)))
  return out
