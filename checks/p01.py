"""P01: the three bounded while loops and cond, against Python semantics, over all small programs."""
import itertools
import numpy as np

LEVEL = "model_checking"
RULE = ("programs = all (transition table, guard table) pairs over a state space of n values, every start and every "
        "bound 0..maxiter; each is executed through every loop implementation and compared with a Python while")
ASSUMPTIONS = ["programs range over a finite state space (n<=4) with a small float payload"]

MODES = [("scan", dict(jit=True, unroll=True)), ("lax", dict(jit=True, unroll=False))]


def programs(n):
  tables = np.array(list(itertools.product(range(n), repeat=n)))
  guards = np.array(list(itertools.product([False, True], repeat=n)))
  T = np.repeat(tables, len(guards) * n, axis=0)
  G = np.tile(np.repeat(guards, n, axis=0), (len(tables), 1))
  S = np.tile(np.arange(n), len(tables) * len(guards))
  return T, G, S


COEF = np.array([0.5, -1.25, 2.0, 0.75])
BIAS = np.array([1.0, 0.5, -0.25, 3.0])


def ref(T, G, S, maxiter):
  """Vectorised reference: runs every program; payload x -> COEF[s]*x + BIAS[s]; count of bodies; trace hash."""
  s = S.copy(); x = np.full(len(S), 1.5); k = np.zeros(len(S), int); h = np.zeros(len(S)); dx = np.ones(len(S))
  idx = np.arange(len(S))
  for _ in range(maxiter):
    go = G[idx, s]
    x = np.where(go, COEF[s] * x + BIAS[s], x); dx = np.where(go, COEF[s] * dx, dx)
    h = np.where(go, h * 7 + s + 1, h)
    k = k + go
    s = np.where(go, T[idx, s], s)
  return s, x, k, h, dx


def check_loops(R, n, kmax, mode, how):
  import jax, jax.numpy as jnp
  from jaxopt._src import loop
  kw = dict(MODES)[mode]
  T, G, S = programs(n)
  coef, bias = jnp.asarray(COEF), jnp.asarray(BIAS)
  R.sample(f"n={n}: table={T[77 % len(T)].tolist()} guard={G[77 % len(G)].tolist()} start={int(S[77 % len(S)])} bounds 0..{kmax} mode={mode}/{how}")

  def one(t, g, s, x0, maxiter):
    def cond(v): return g[v[0]]
    def body(v):
      st, (x, k), d = v
      return t[st], (coef[st] * x + bias[st], k + 1), dict(h=d["h"] * 7 + st + 1.0)
    st, (x, k), d = loop.while_loop(cond, body, (s, (x0, jnp.asarray(0)), dict(h=jnp.asarray(0.0))), maxiter, **kw)
    return st, x, k, d["h"]

  for m in range(kmax + 1):
    want = ref(T, G, S, m)
    x0 = jnp.full(len(S), 1.5)
    if how == "vmap":
      f = jax.jit(jax.vmap(lambda t, g, s, x: one(t, g, s, x, m)))
      got = f(T, G, S, x0)
    elif how == "map":       # unbatched control flow inside
      f = jax.jit(lambda T, G, S, X: jax.lax.map(lambda a: one(*a, m), (T, G, S, X)))
      got = f(T, G, S, x0)
    elif how == "grad":      # reverse mode through the unrolled loop (unbatched)
      f = jax.jit(lambda T, G, S, X: jax.lax.map(
          lambda a: jax.grad(lambda x: one(a[0], a[1], a[2], x, m)[1])(a[3]), (T, G, S, X)))
      got = f(T, G, S, x0)
      R.closes(lambda i: f"grad maxiter={m} t={T[i]} g={G[i]} s={S[i]}", got, want[4])
      R.case(len(S)); R.outcome("grad zero-trip", n=int((want[2] == 0).sum())); R.outcome("grad trips", n=int((want[2] > 0).sum()))
      continue
    elif how == "traced-bound":  # lax loop with a traced bound
      f = jax.jit(jax.vmap(one, in_axes=(0, 0, 0, 0, None)))
      got = f(T, G, S, x0, jnp.asarray(m))
    for name, g_, w_ in zip(("state", "x", "count", "trace"), got, want):
      R.closes(lambda i: f"{name} maxiter={m} t={T[i]} g={G[i]} s={S[i]}", g_, w_)
    R.case(len(S), transitions=int(want[2].sum()) + len(S))
    for k in range(m + 1):
      R.outcome("trips", k, n=int((want[2] == k).sum()))


def check_python(R, n, kmax):
  """jit=False, unroll=True, plus every concrete call of the other modes on a stride-free sub-enumeration."""
  from jaxopt._src import loop
  T, G, S = programs(n)
  for m in range(kmax + 1):
    want = ref(T, G, S, m)
    for i in range(len(S)):
      calls = []
      def cond(v): return bool(G[i, v[0]])
      def body(v):
        calls.append(v[0])
        return (int(T[i, v[0]]), v[1] * COEF[v[0]] + BIAS[v[0]], v[2] + 1, v[3] * 7 + v[0] + 1)
      got = loop.while_loop(cond, body, (int(S[i]), 1.5, 0, 0.0), m, unroll=True, jit=False)
      R.close(f"python maxiter={m} t={T[i]} g={G[i]} s={S[i]}", got, [w[i] for w in want[:4]])
      R.check(len(calls) == want[2][i], f"python-calls maxiter={m} t={T[i]} g={G[i]} s={S[i]}", "number of bodies executed")
    R.case(len(S), transitions=int(want[2].sum()))
  R.sample(f"python loop over all {len(S)} programs n={n}, bounds 0..{kmax}")


CALL_MODES = [dict(jit=True, unroll=True), dict(jit=True, unroll=False), dict(jit=False, unroll=True)]


def check_calls(R, kw):
  """Concrete calls outside jit (every mode), float guards incl. NaN, int/bool/array guard values, non-array starts."""
  import jax, jax.numpy as jnp
  from jaxopt._src import loop
  for kw in [kw]:
    for m in (0, 1, 2, 5):
      for tol in (0.0, 0.1, 0.3, 1.0, np.nan):
        for x0 in (0.9, 0.25, 0.0, -1.0, np.inf, np.nan):
          def cond(v): return v["err"] > tol
          def body(v): return dict(err=v["err"] * 0.5, it=v["it"] + 1)
          e, it = x0, 0
          while e > tol and it < m:
            e, it = e * 0.5, it + 1
          got = loop.while_loop(cond, body, dict(err=jnp.asarray(x0), it=jnp.asarray(0)), m, **kw)
          R.close(f"call {kw} m={m} tol={tol} x0={x0}", [got["err"], got["it"]], [e, it])
          R.case(1, transitions=it + 1); R.outcome("trips", it)


def check_batches(R):
  import jax, jax.numpy as jnp
  from jaxopt._src import loop
  modes = CALL_MODES
  # outer jit around the jit-able modes and vmapped bodies with differing trip counts
  for kw in modes[:2]:
    for m in range(5):
      for xs in itertools.product((0.0, 1.0, 2.0, 3.0), repeat=3):
        f = lambda x: loop.while_loop(lambda v: v > 0.5, lambda v: v - 1.0, x, m, **kw)
        if xs == (0.0, 0.0, 0.0):
          fj = jax.jit(jax.vmap(f))
        got = fj(jnp.array(xs))
        R.close(f"batch {kw} m={m} xs={xs}", got, [x - min(m, x) for x in xs])
        R.case(1)
  for bad in (dict(jit=False, unroll=False),):
    try:
      loop.while_loop(lambda v: v > 0, lambda v: v - 1, 3, 5, **bad)
      R.violation("unsupported", "jit=False, unroll=False accepted")
    except ValueError:
      R.case(1); R.outcome("rejected")
  # forward-mode derivative through the lax loop
  for m in range(5):
    for x0 in (0.2, 0.6, 1.7):
      f = lambda x: loop.while_loop(lambda v: v[0] < 1.0, lambda v: (v[0] + 0.5, v[1] * x * x), (x, 1.0 + 0 * x), m, jit=True, unroll=False)[1]
      k, v = 0, x0
      while v < 1.0 and k < m:
        v += 0.5; k += 1
      _, t = jax.jvp(f, (x0,), (1.0,))
      R.close(f"jvp m={m} x0={x0}", t, 2 * k * x0 ** (2 * k - 1) if k else 0.0)
      R.case(1)
  R.sample("concrete/outer-jit/vmap calls, NaN and inf guards")


def check_masked_grad(R):
  """Bodies that blow up outside the guard must not leak into the derivative."""
  import jax, jax.numpy as jnp
  from jaxopt._src import loop
  for kw in (dict(jit=True, unroll=True), dict(jit=False, unroll=True)):
    for m in range(5):
      for x0 in (1.0, 2.0, 3.0, 4.0):
        def f(x):
          return loop.while_loop(lambda v: v[0] > 0.5, lambda v: (v[0] - 1.0, v[1] + jnp.sqrt(v[0]) * x), (x, 0.0 * x), m, **kw)[1]
        # reference
        def r(x):
          a, b, k = x, 0.0, 0
          da, db = 1.0, 0.0
          while a > 0.5 and k < m:
            db = db + np.sqrt(a) + 0.5 / np.sqrt(a) * da * x
            b = b + np.sqrt(a) * x
            a = a - 1.0; k += 1
          return b, db
        v, g = jax.value_and_grad(f)(x0)
        R.close(f"masked {kw} m={m} x0={x0}", [v, g], list(r(x0)))
        R.case(1)
  R.sample("sqrt body that is singular past the guard")


def check_cond(R):
  import jax, jax.numpy as jnp
  from jaxopt._src.cond import cond
  preds = [True, False, np.bool_(True), np.bool_(False), jnp.asarray(True), jnp.asarray(False), 1, 0, jnp.asarray(2 > 1)]
  opsets = [(), (1.5,), (1.5, -2.0), (dict(a=jnp.arange(3.0)), (2.0,))]
  for p in preds:
    for ops in opsets:
      for jit in (True, False):
        log = []
        def ift(*o):
          log.append("if"); return sum(jnp.sum(l) for l in jax.tree_util.tree_leaves(o)) * 2.0 + 10.0 if o else jnp.asarray(10.0)
        def els(*o):
          log.append("else"); return sum(jnp.sum(l) for l in jax.tree_util.tree_leaves(o)) * -3.0 - 10.0 if o else jnp.asarray(-10.0)
        got = cond(p, ift, els, *ops, jit=jit)
        tot = sum(float(np.sum(l)) for l in jax.tree_util.tree_leaves(ops))
        want = (tot * 2 + 10) if bool(p) else (tot * -3 - 10)
        if jit is False:
          R.check(log == (["if"] if bool(p) else ["else"]), f"cond-branch p={p!r} ops={len(ops)}", f"executed {log}")
        R.close(f"cond p={p!r} jit={jit} ops={len(ops)}", got, want)
        R.case(1); R.outcome("branch", bool(p), jit)
  # traced predicates and batching
  for ps in itertools.product((False, True), repeat=3):
    f = jax.jit(jax.vmap(lambda p, x: cond(p, lambda x: x * 2, lambda x: x - 5, x)))
    R.close(f"cond-vmap {ps}", f(jnp.array(ps), jnp.array([1., 2., 3.])), [x * 2 if p else x - 5 for p, x in zip(ps, [1., 2., 3.])])
    R.case(1)
  # default is the jitted branch selection, usable under jit
  R.close("cond-default", jax.jit(lambda p: cond(p, lambda: 1.0, lambda: 2.0))(True), 1.0)
  R.sample("9 predicates x 4 operand sets x jit/no-jit")


def jobs(tier):
  big = tier == "thorough"
  n, k = (4, 6) if big else (3, 5)
  out = []
  for mode, _ in MODES:
    out.append((f"loops-{mode}-vmap-n4", check_loops, dict(n=4, kmax=k, mode=mode, how="vmap")))
    out.append((f"loops-{mode}-map", check_loops, dict(n=n, kmax=k, mode=mode, how="map")))
  out.append(("loops-lax-traced-bound", check_loops, dict(n=n, kmax=k, mode="lax", how="traced-bound")))
  out.append(("loops-scan-grad", check_loops, dict(n=n, kmax=k, mode="scan", how="grad")))
  out.append(("python", check_python, dict(n=n, kmax=4)))
  for i, kw in enumerate(CALL_MODES):
    out.insert(0, (f"calls-{i}", check_calls, dict(kw=kw)))
  out.append(("batches", check_batches, {}))
  out.append(("masked-grad", check_masked_grad, {}))
  out.append(("cond", check_cond, {}))
  return out
