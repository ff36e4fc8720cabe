"""Explorer runtime: runs the jobs of one check in worker processes, collects counts and violations,
writes the evidence file and the replay artefacts, and applies the known-findings file.

A check module `checks/pXX.py` defines
  LEVEL, RULE, ASSUMPTIONS  and  jobs(tier) -> list of (name, function, kwargs)
Each function gets a Recorder as first argument; it enumerates a finite space completely.
"""
import collections, concurrent.futures as cf, hashlib, importlib, itertools, json, math, multiprocessing as mp
import os, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

ENV = dict(
    JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
    PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TF_CPP_MIN_LOG_LEVEL="3",
    XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
              "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true")

DEADLINE = float(os.environ.get("VERIF_DEADLINE", "800"))


class Recorder:
  """Collects what one job covered and what it found."""

  MAXV = 40

  def __init__(self, prop, job):
    self.prop, self.job = prop, job
    self.c = collections.Counter()
    self.outcomes = collections.Counter()
    self.samples = []
    self.violations = []
    self.nviol = 0
    self.notes = []
    self._known = {k for p, k in load_findings() if p == prop}
    self._hit = set()

  # -- coverage
  def add(self, states=0, transitions=0, traces=0, evals=0):
    self.c["states"] += int(states); self.c["transitions"] += int(transitions)
    self.c["traces"] += int(traces); self.c["evals"] += int(evals)

  def case(self, n=1, transitions=0):
    """n cases of the enumeration (each one execution of the real code, compared to the oracle)."""
    self.c["states"] += int(n); self.c["transitions"] += int(transitions or n)
    self.c["traces"] += int(n); self.c["evals"] += int(n)

  def outcome(self, *key, n=1):
    self.outcomes[" ".join(str(k) for k in key)] += int(n)

  def sample(self, x):
    if len(self.samples) < 2:
      self.samples.append(str(x)[:600])

  # -- findings
  def violation(self, key, msg, **data):
    full = f"{self.job}/{key}"
    if full in self._known:      # listed findings never use up the room for unlisted ones
      if full not in self._hit:
        self._hit.add(full)
        self.violations.append(dict(key=full, msg=str(msg)[:2000], data={}))
        self.nviol += 1
      return
    self.nviol += 1
    if len(self.violations) - len(self._hit) < self.MAXV:
      self.violations.append(dict(key=f"{self.job}/{key}", msg=str(msg)[:2000],
                                  data={k: _short(v) for k, v in data.items()}))

  def check(self, ok, key, msg="", **data):
    if not bool(ok):
      self.violation(key, msg, **data)
      return False
    return True

  def close(self, key, got, want, tol=1e-8, msg="", **data):
    """got == want up to tol (relative to 1+|want|); both may be pytrees of arrays. NaN == NaN, inf == inf."""
    import numpy as np
    g, w = np.asarray(got), np.asarray(want)
    if np.iscomplexobj(g) or np.iscomplexobj(w): g, w = (np.stack([np.real(a), np.imag(a)], -1) for a in (g, w))
    g, w = g.astype(float), w.astype(float)
    if g.shape != w.shape:
      self.violation(key, f"{msg} shape {g.shape} != {w.shape}", got=g, want=w, **data)
      return False
    with np.errstate(all="ignore"):
      ok = (np.abs(g - w) <= tol * (1 + np.abs(w))) | (g == w) | (np.isnan(g) & np.isnan(w))
    if not np.all(ok):
      self.violation(key, f"{msg} got {_short(g)} want {_short(w)}", got=g, want=w, **data)
      return False
    return True

  def closes(self, keys, got, want, tol=1e-8, msg="", describe=None):
    """Batched close: leading axis indexes the cases, keys[i] (or keys(i)) names case i."""
    import numpy as np
    g, w = np.asarray(got), np.asarray(want)
    if np.iscomplexobj(g) or np.iscomplexobj(w): g, w = (np.stack([np.real(a), np.imag(a)], -1) for a in (g, w))
    g, w = g.astype(float), w.astype(float)
    if g.shape != w.shape:
      self.violation("shape", f"{msg} shape {g.shape} != {w.shape}")
      return False
    if not len(g):
      return True
    with np.errstate(all="ignore"):
      ok = (np.abs(g - w) <= tol * (1 + np.abs(w))) | (g == w) | (np.isnan(g) & np.isnan(w))
    ok = ok.reshape(len(g), -1).all(axis=1)
    bad = np.nonzero(~ok)[0]
    for i in bad[:5000]:
      k = keys(i) if callable(keys) else keys[i]
      self.violation(k, f"{msg} got {_short(g[i])} want {_short(w[i])}", case=(describe(i) if describe else None))
    self.nviol += max(0, len(bad) - 5000)
    return bool(ok.all())

  def result(self):
    return dict(job=self.job, c=dict(self.c), outcomes=dict(self.outcomes), samples=self.samples,
                violations=self.violations, nviol=self.nviol, notes=self.notes)


def _short(v):
  try:
    import numpy as np
    if isinstance(v, np.ndarray) or hasattr(v, "__array__"):
      return np.array2string(np.asarray(v), precision=12, threshold=60)[:900]
  except Exception:
    pass
  return str(v)[:900]


def _init_worker():
  os.environ.update(ENV)
  sys.path.insert(0, ROOT)
  sys.path.insert(0, REPO)
  import warnings
  warnings.filterwarnings("ignore")
  import jax
  jax.config.update("jax_enable_x64", True)
  import jaxopt
  assert os.path.abspath(jaxopt.__file__).startswith(os.path.abspath(REPO) + os.sep), jaxopt.__file__
  sys.setrecursionlimit(3000)


def _run_job(prop, modname, idx, tier, seed):
  t0 = time.time()
  mod = importlib.import_module(modname)
  name, fn, kw = mod.jobs(tier)[idx]
  r = Recorder(prop, name)
  cov = os.environ.get("VERIF_COV") and _coverage()
  try:
    fn(r, **kw)
  except BaseException as e:  # an exception escaping the library on a valid input is a finding
    if isinstance(e, (KeyboardInterrupt, SystemExit)):
      raise
    tb = traceback.format_exc()
    r.violation(f"exception:{type(e).__name__}", tb[-1800:])
  out = r.result()
  out["wall"] = time.time() - t0
  if cov is not None and cov is not False:
    with open(os.path.join(os.environ["VERIF_COV"], f"{prop}-{re.sub('[^A-Za-z0-9_.+-]', '_', name)}.json"), "w") as f:
      json.dump(dict(prop=prop, job=name, wall=out["wall"], lines=sorted(cov)), f)
  return out


def _coverage():
  """Lines of the repository executed by this job (development aid: VERIF_COV=directory)."""
  m, root, seen = sys.monitoring, os.path.join(os.path.abspath(REPO), "jaxopt"), set()
  def line(code, no):
    if code.co_filename.startswith(root): seen.add((code.co_filename[len(root) + 1:], no))
    return m.DISABLE
  if m.get_tool(m.COVERAGE_ID) is None: m.use_tool_id(m.COVERAGE_ID, "verif")
  m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
  m.set_events(m.COVERAGE_ID, m.events.LINE)
  m.restart_events()
  return seen


def load_findings():
  """known_findings.txt: lines 'known: property=<id> key=<key> :: text' and 'fixed: property=<id> <commit> <text>'."""
  known = {}
  p = os.path.join(ROOT, "known_findings.txt")
  if os.path.exists(p):
    for line in open(p):
      m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", line.strip())
      if m:
        known[(m.group(1), m.group(2))] = m.group(3)
  return known


def main(prop, argv):
  os.environ.update(ENV)
  tier = os.environ.get("VERIF_TIER", "quick")
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  only = None
  workers = int(os.environ.get("VERIF_WORKERS", "8"))
  i = 0
  while i < len(argv):
    if argv[i] == "--tier": tier = argv[i + 1]; i += 2
    elif argv[i] == "--job": only = argv[i + 1]; i += 2
    elif argv[i] == "--workers": workers = int(argv[i + 1]); i += 2
    else: raise SystemExit(f"unknown argument {argv[i]}")
  if tier == "thorough" and "VERIF_DEADLINE" not in os.environ:
    deadline = 6 * 3600.0
  else:
    deadline = DEADLINE
  t0 = time.time()
  sys.path.insert(0, ROOT)
  modname = f"checks.{prop.lower()}"
  mod = importlib.import_module(modname)
  joblist = mod.jobs(tier)
  assert len({n for n, _, _ in joblist}) == len(joblist), "duplicate job names"
  idxs = [i for i, (n, _, _) in enumerate(joblist) if only is None or n == only or re.fullmatch(only, n)]
  results, extra = [], []
  ctx = mp.get_context("fork")
  pending = list(idxs)
  attempts = collections.Counter()
  timed_out = []
  while pending:
    ex = cf.ProcessPoolExecutor(max_workers=min(workers, max(1, len(pending))), mp_context=ctx, initializer=_init_worker)
    futs = {ex.submit(_run_job, prop, modname, i, tier, seed): i for i in pending}
    broken = False
    done_idx = set()
    try:
      for f in cf.as_completed(futs, timeout=max(1, deadline - (time.time() - t0))):
        i = futs[f]
        try:
          results.append(f.result()); done_idx.add(i)
        except cf.process.BrokenProcessPool:
          broken = True
    except cf.TimeoutError:
      timed_out = [i for i in pending if i not in done_idx]
      for p in list(ex._processes.values()):
        p.kill()
      ex.shutdown(wait=False, cancel_futures=True)
      break
    for p in list((ex._processes or {}).values()):
      pass
    ex.shutdown(wait=True, cancel_futures=True)
    pending = [i for i in pending if i not in done_idx]
    if pending and not broken:
      break
    if broken:
      for i in pending: attempts[i] += 1
      dead = [i for i in pending if attempts[i] >= 3]
      for i in dead:
        extra.append(dict(key=f"{joblist[i][0]}/worker-died", msg="worker process died three times", data={}))
      pending = [i for i in pending if attempts[i] < 3]
      workers = max(1, workers // 2)
  for i in timed_out:
    extra.append(dict(key=f"{joblist[i][0]}/no-termination",
                      msg=f"job did not terminate within {deadline:.0f}s", data={}))

  known = load_findings()
  viol = [v for r in results for v in r["violations"]] + extra
  unlisted = [v for v in viol if (prop, v["key"]) not in known]
  hit = {}
  for v in viol:
    if (prop, v["key"]) in known:
      hit[v["key"]] = known[(prop, v["key"])]
  truncated = any(r["nviol"] > len(r["violations"]) for r in results)
  tot = collections.Counter(); outc = collections.Counter(); samples = []
  for r in sorted(results, key=lambda r: r["job"]):
    tot.update(r["c"]); samples += [f"{r['job']}: {s}" for s in r["samples"][:1]]
    for k, n in r["outcomes"].items():
      outc[k] += n
  wall = time.time() - t0
  level = getattr(mod, "LEVEL", "model_checking")
  cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
             samples=samples[:12] or ["(no sample)"], exhaustive=not timed_out,
             evaluations=tot["evals"], distinct_outcomes=len(outc), outcomes=dict(outc.most_common(60)),
             rule=getattr(mod, "RULE", ""), jobs={r["job"]: dict(r["c"], wall_s=round(r["wall"], 1)) for r in results})
  os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
  if only is None:
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(unlisted))
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
      json.dump(ev, f, indent=1)
  print(f"{prop} tier={tier} jobs={len(results)} states={tot['states']} transitions={tot['transitions']} "
        f"executions={tot['traces']} outcomes={len(outc)} wall={wall:.1f}s")
  if os.environ.get("VERIF_VERBOSE"):
    for r in sorted(results, key=lambda r: -r["wall"]):
      print(f"   {r['wall']:6.1f}s {r['job']:40s} {r['c']} viol={r['nviol']} {dict(list(r['outcomes'].items())[:12])}")
  for k, what in sorted(hit.items()):
    print(f"KNOWN-FINDING: property={prop} {what} [{k}]")
  if unlisted:
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    shown = 0
    for v in unlisted:
      job = v["key"].split("/")[0]
      h = hashlib.sha1(v["key"].encode()).hexdigest()[:10]
      path = os.path.join(rdir, f"{prop}-{h}.json")
      with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, **v,
                       replay=f"cd {ROOT} && python3 mc/run.py {prop} --tier {tier} --job '{job}'"), f, indent=1)
      if shown < 15:
        print(f"VIOLATION property={prop} replay={path}")
        print("   " + v["key"] + "  " + v["msg"][-700:].replace("\n", "\n     "))
        shown += 1
    print(f"{len(unlisted)} unlisted violation(s)" + (" (truncated)" if truncated else ""))
    return 1
  return 0
