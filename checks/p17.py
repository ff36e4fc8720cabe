"""P17: perturbed argmax / max / scalar functions against the explicit sample formulas.

The noise object handed to the library returns the noise it is given through the `rng` argument, so every outcome of
the noise (all tables over a small alphabet) is enumerated; built-in laws are checked against their formulas and used
in the same way with real keys.
"""
import itertools
import numpy as np

LEVEL = "model_checking"
RULE = "all noise tables over a 3-letter alphabet x inputs of a grid (with ties) x functions x output shapes x sigma x control variate x differentiation mode; oracle: the sample formulas in NumPy"
ASSUMPTIONS = ["x64", "at most 10 noise values per evaluation", "first derivatives"]

ALPH = (-1.0, 0.5, 2.0)
W = np.array([[1.0, -2.0, 0.5], [0.3, 1.5, -1.0], [2.0, 0.2, 0.7], [-1.0, 0.4, 1.1]])


def laws():
  import jax.numpy as jnp
  return {
      "normal": (lambda z: -0.5 * z ** 2, lambda z: z),
      "gumbel": (lambda z: -z - jnp.exp(-z), lambda z: 1 - np.exp(-z)),
      "quartic": (lambda z: -0.25 * z ** 4 + 0.3 * z, lambda z: z ** 3 - 0.3),
  }


def table_noise(logp):
  class Noise:
    def sample(self, seed, sample_shape): return seed.reshape(sample_shape)
    def log_prob(self, z): return logp(z)
  return Noise()


def argmaxes():
  """argmax-like functions of arrays of any shape: (jax, numpy); the output has the shape of the input."""
  import jax, jax.numpy as jnp
  def one_hot_j(x): return jax.nn.one_hot(jnp.argmax(x.ravel()), x.size, dtype=x.dtype).reshape(x.shape)
  def one_hot_n(x): o = np.zeros(x.size); o[np.argmax(x.ravel())] = 1; return o.reshape(x.shape)
  def rank_j(x): v = x.ravel(); return jnp.sum(v[:, None] > v[None, :], axis=1).astype(x.dtype).reshape(x.shape)
  def rank_n(x): v = x.ravel(); return (v[:, None] > v[None, :]).sum(1).astype(float).reshape(x.shape)
  def top2_j(x): r = rank_j(x); return (r >= x.size - 2) * (1.0 + jnp.sign(x))
  def top2_n(x): r = rank_n(x); return (r >= x.size - 2) * (1.0 + np.sign(x))
  def rows_j(x): return jax.nn.one_hot(jnp.argmax(x, axis=-1), x.shape[-1], dtype=x.dtype)
  def rows_n(x): return np.eye(x.shape[-1])[np.argmax(x, axis=-1)]
  return {"one_hot": (one_hot_j, one_hot_n), "rank": (rank_j, rank_n), "top2": (top2_j, top2_n), "rows": (rows_j, rows_n)}


def funs():
  """functions with every output shape: (jax, numpy)."""
  import jax.numpy as jnp
  def w(shape):
    n = int(np.prod(shape)) if shape else 1
    def f(xp, x):
      v = x.reshape(-1); k = v.shape[0]
      y = xp.stack([xp.sum(xp.sign(v) * W[i, :k]) + 0.5 * xp.max(v * W[(i + 1) % 4, :k]) for i in range(n)])
      return y.reshape(shape)
    return (lambda x: f(jnp, x)), (lambda x: f(np, x))
  return {s: w(s) for s in ((), (1,), (3,), (2, 1), (1, 2), (2, 2))}


def shapes_inputs(shape):
  n = int(np.prod(shape))
  return [np.array(v, float).reshape(shape) for v in itertools.product((-1.0, 0.0, 1.0), repeat=n)][:: max(1, 3 ** n // 27)]


def noise_tables(n, d, cap):
  T = list(itertools.product(ALPH, repeat=n * d))
  step = max(1, len(T) // cap)
  return np.array(T[::step])


def run_jac(R, tag, mk, X, Z, value, jac, in_shape, out_shape):
  """value (B,...) and jac (B, out, in): every transformation must give them."""
  import jax, jax.numpy as jnp
  fn = mk()
  B = len(X)
  modes = {
      "vmap": lambda: jax.vmap(fn)(X, Z), "jit": lambda: jax.jit(jax.vmap(fn))(X, Z),
  }
  for m, f in modes.items(): R.closes(lambda i: f"{tag(i)} {m} value", np.asarray(f()).reshape(B, -1), value.reshape(B, -1), tol=1e-10)
  R.check(np.shape(fn(jnp.asarray(X[0]), jnp.asarray(Z[0]))) == out_shape, f"{tag(0)} shape", f"{np.shape(fn(jnp.asarray(X[0]), jnp.asarray(Z[0])))}")
  for m, d in (("fwd", jax.jacfwd), ("rev", jax.jacrev)):
    J = jax.jit(jax.vmap(d(fn, argnums=0)))(X, Z)
    R.check(J.shape == (B,) + out_shape + in_shape, f"{tag(0)} {m} shape", str(J.shape))
    R.closes(lambda i: f"{tag(i)} {m}", np.asarray(J).reshape(B, -1), jac.reshape(B, -1), tol=1e-9)
  # unbatched, not jitted
  for i in (0, B // 2):
    t = np.linspace(1.0, -0.5, int(np.prod(in_shape))).reshape(in_shape)
    v, dv = jax.jvp(lambda x: fn(x, jnp.asarray(Z[i])), (jnp.asarray(X[i]),), (jnp.asarray(t),))
    R.close(f"{tag(i)} eager jvp value", np.ravel(v), value[i].ravel(), tol=1e-10); R.close(f"{tag(i)} eager jvp", np.ravel(dv), jac[i].reshape(-1, t.size) @ t.ravel(), tol=1e-9)
    R.check(np.shape(dv) == out_shape, f"{tag(i)} jvp shape", str(np.shape(dv)))
  R.case(B)


def perturbed(R, kind, fname, law, shape, n, sigma, cap, num=None):
  import jax, jax.numpy as jnp
  from jaxopt import perturbations as pt
  logp, nu = laws()[law]
  d = int(np.prod(shape))
  xs = shapes_inputs(shape); zs = noise_tables(n, d, cap)
  X = np.repeat(np.array(xs), len(zs), 0); Z = np.tile(zs, (len(xs), 1))
  B = len(X)
  Zr = Z.reshape((B, n) + shape)
  pert = X[:, None] + sigma * Zr
  NU = nu(Zr).reshape(B, n, d)
  noise = table_noise(logp)
  if kind == "fun":
    fj, fn_ = funs()[fname]; out_shape = fname
  else:
    fj, fn_ = argmaxes()[fname]; out_shape = shape if kind == "argmax" else ()
  Y = np.array([[fn_(pert[b, k]) for k in range(n)] for b in range(B)]).reshape(B, n, -1)
  y0 = np.array([fn_(X[b]) for b in range(B)]).reshape(B, 1, -1)
  tag = lambda i: f"x={X[i].tolist()} noise={Z[i].tolist()}"
  if kind == "max":
    value = np.einsum("bnd,bnd->bn", pert.reshape(B, n, -1), Y).mean(1)
    run_jac(R, tag, lambda: pt.make_perturbed_max(fj, num_samples=n, sigma=sigma, noise=noise), X, Z, value, Y.mean(1), shape, ())
  else:
    make = pt.make_perturbed_argmax if kind == "argmax" else pt.make_perturbed_fun
    for cv in (False, True):
      jac = np.einsum("bnd,bne->bde", Y - y0 if cv else Y, NU) / (n * sigma)
      run_jac(R, lambda i: f"cv={cv} {tag(i)}", lambda: make(fj, num_samples=n, sigma=sigma, noise=noise, control_variate=cv), X, Z, Y.mean(1), jac, shape, out_shape)
  R.outcome(kind, str(fname), law, n=B)


def builtin(R):
  """Normal and Gumbel: log-density slopes, shapes, reproducibility; the estimates with real keys and the defaults."""
  import jax, jax.numpy as jnp
  from jaxopt import perturbations as pt
  zs = np.linspace(-3, 4, 57)
  for cls, nu, ref in ((pt.Normal, lambda z: z, jax.random.normal), (pt.Gumbel, lambda z: 1 - np.exp(-z), jax.random.gumbel)):
    nz = cls(); name = cls.__name__
    R.closes(lambda i: f"{name} slope z={zs[i]}", -jax.vmap(jax.grad(nz.log_prob))(zs), nu(zs), tol=1e-10); R.case(len(zs))
    lp = np.asarray(nz.log_prob(jnp.asarray(zs))); want = -0.5 * zs ** 2 if cls is pt.Normal else -zs - np.exp(-zs)
    R.closes(lambda i: f"{name} log_prob z={zs[i]}", lp - lp[0], want - want[0], tol=1e-10)
    for seed in range(3):
      for sh in ((), (4,), (3, 2), (2, 1, 3)):
        key = jax.random.PRNGKey(seed)
        s = nz.sample(seed=key, sample_shape=sh); R.check(s.shape == sh, f"{name} shape {sh}"); R.close(f"{name} law seed={seed} {sh}", s, ref(key, sh), tol=1e-7); R.case()
    for n, sigma, shape in ((1, 0.3, (3,)), (4, 1.0, (2, 2)), (7, 0.2, (1,))):
      for seed in range(2):
        key = jax.random.PRNGKey(seed)
        x = jnp.asarray(np.linspace(-0.4, 0.5, int(np.prod(shape))).reshape(shape))
        Z = np.asarray(nz.sample(seed=key, sample_shape=(n,) + shape)); NU = nu(Z).reshape(n, -1)
        fj, fn_ = argmaxes()["rank"]
        Y = np.array([fn_(np.asarray(x) + sigma * z) for z in Z]).reshape(n, -1)
        for cv in (False, True):
          f = pt.make_perturbed_argmax(fj, num_samples=n, sigma=sigma, noise=nz, control_variate=cv)
          g = pt.make_perturbed_fun(fj, num_samples=n, sigma=sigma, noise=nz, control_variate=cv)
          J = np.einsum("nd,ne->de", Y - (fn_(np.asarray(x)).reshape(1, -1) if cv else 0), NU) / (n * sigma)
          for nm, q in (("argmax", f), ("fun", g)):
            key_ = f"{name} {nm} n={n} sigma={sigma} seed={seed} shape={shape} cv={cv}"
            R.close(key_, np.ravel(q(x, key)), Y.mean(0), tol=1e-7); R.close(f"{key_} jac", np.asarray(jax.jacrev(q)(x, key)).reshape(J.shape), J, tol=1e-7); R.case()
            R.check(np.array_equal(np.asarray(q(x, key)), np.asarray(jax.jit(q)(x, key))) or np.allclose(q(x, key), jax.jit(q)(x, key), atol=1e-12), f"{key_} same seed")
  # documented defaults: 1000 Gumbel samples, sigma 0.1
  x = jnp.array([0.1, 0.15, -0.2]); key = jax.random.PRNGKey(7)
  Z = np.asarray(pt.Gumbel().sample(seed=key, sample_shape=(1000, 3))); fj, fn_ = argmaxes()["one_hot"]
  Y = np.array([fn_(np.asarray(x) + 0.1 * z) for z in Z])
  R.close("default argmax", pt.make_perturbed_argmax(fj)(x, key), Y.mean(0), tol=1e-9)
  R.close("default max", pt.make_perturbed_max(fj)(x, key), np.einsum("nd,nd->n", np.asarray(x) + 0.1 * Z, Y).mean(), tol=1e-9)
  R.close("default fun", pt.make_perturbed_fun(lambda v: jnp.max(v))(x, key), (np.asarray(x) + 0.1 * Z).max(1).mean(), tol=1e-9)
  R.close("default argmax jac", jax.jacfwd(pt.make_perturbed_argmax(fj))(x, key), np.einsum("nd,ne->de", Y, 1 - np.exp(-Z)) / 100.0, tol=1e-8)
  R.close("default max grad", jax.grad(pt.make_perturbed_max(fj))(x, key), Y.mean(0), tol=1e-9)
  R.outcome("built-in laws")
  # single precision inputs
  for f in (pt.make_perturbed_argmax(fj), pt.make_perturbed_fun(lambda v: jnp.max(v)), pt.make_perturbed_max(fj)):
    out = f(x.astype(jnp.float32), key); J = jax.jacrev(f)(x.astype(jnp.float32), key)
    R.check(np.isfinite(np.asarray(out)).all() and np.isfinite(np.asarray(J)).all(), "float32"); R.case()


def batches(R):
  """vmap over inputs and keys equals the loop; gradients through a batch of losses."""
  import jax, jax.numpy as jnp
  from jaxopt import perturbations as pt
  fj, _ = argmaxes()["one_hot"]
  for B in (1, 2, 5):
    keys = jax.random.split(jax.random.PRNGKey(B), B)
    X = jnp.asarray(np.sin(np.arange(B * 3)).reshape(B, 3))
    for nm, mk in (("argmax", pt.make_perturbed_argmax), ("max", pt.make_perturbed_max), ("fun", lambda f, **k: pt.make_perturbed_fun(lambda v: jnp.stack([jnp.max(v), jnp.min(v)]), **k))):
      f = mk(fj, num_samples=6, sigma=0.5)
      got = jax.vmap(f)(X, keys); R.close(f"{nm} B={B}", got, np.stack([np.asarray(f(X[i], keys[i])) for i in range(B)]), tol=1e-12)
      loss = lambda X: jnp.sum(jax.vmap(f)(X, keys) ** 2)
      want = np.stack([np.asarray(jax.grad(lambda x: jnp.sum(f(x, keys[i]) ** 2))(X[i])) for i in range(B)])
      R.close(f"{nm} B={B} grad", jax.grad(loss)(X), want, tol=1e-10); R.close(f"{nm} B={B} grad jit", jax.jit(jax.grad(loss))(X), want, tol=1e-10); R.case(2)
  R.outcome("batches")


def jobs(tier):
  deep = tier == "thorough"
  cap = 3000 if deep else 243
  out = [("builtin", builtin, {}), ("batches", batches, {})]
  shp = {(2,): (1, 2, 3), (3,): (1, 2), (2, 2): (1, 2), (1,): (1, 3), (1, 3): (2,)} if not deep else {(2,): (1, 2, 3, 5), (3,): (1, 2, 3), (2, 2): (1, 2), (1,): (1, 3, 5), (1, 3): (1, 2), (2, 1, 2): (2,)}
  for shape, ns in shp.items():
    for n in ns:
      for j, law in enumerate(("normal", "gumbel", "quartic")):
        if not deep and (n + j + len(shape)) % 3 and law != "quartic": continue
        sigma = (0.5, 2.0, 1.0)[(n + j) % 3]
        for f in ("one_hot", "rank", "top2", "rows"):
          if f == "rank" or len(shape) == 1 or deep or f == "rows":
            out.append((f"argmax-{f}-{law}-{shape}-n{n}", perturbed, dict(kind="argmax", fname=f, law=law, shape=shape, n=n, sigma=sigma, cap=cap)))
        for f in ("one_hot", "rank"): out.append((f"max-{f}-{law}-{shape}-n{n}", perturbed, dict(kind="max", fname=f, law=law, shape=shape, n=n, sigma=sigma, cap=cap)))
        if int(np.prod(shape)) <= 3:
          for s in ((), (1,), (3,), (2, 1), (1, 2), (2, 2)):
            if deep or law == "quartic" or s == (3,):
              out.append((f"fun-{s}-{law}-{shape}-n{n}", perturbed, dict(kind="fun", fname=s, law=law, shape=shape, n=n, sigma=sigma, cap=cap // 3)))
  return out
