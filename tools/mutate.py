"""Development aid: mutation analysis of the checks.  Not used by any check.

  python tools/mutate.py gen  OUT.json [file regex] [max per file] [seed]   list mutants of /repo/jaxopt/_src
  python tools/mutate.py run  OUT.json RESULT.jsonl COVDIR [cap seconds] [workers]
      runs, for every mutant, the jobs (of any check) that execute the mutated line, cheapest first, one property after the other,
      until one reports a violation or `cap` CPU seconds are used.
COVDIR holds the per-job line lists written by the checks under VERIF_COV.
"""
import ast, collections, glob, json, os, random, re, signal, shutil, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/jaxopt/_src"
SWAP = {"minimum": "maximum", "maximum": "minimum", "logical_and": "logical_or", "logical_or": "logical_and", "any": "all", "all": "any",
        "tree_add": "tree_sub", "tree_sub": "tree_add", "min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin",
        "zeros_like": "ones_like", "ones_like": "zeros_like", "zeros": "ones", "ones": "zeros", "tree_zeros_like": "tree_ones_like",
        "sum": "mean", "mean": "sum", "abs": "square"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*"}


def mutants(path):
  text = open(path).read(); lines = text.split("\n"); off = [0]
  for l in lines: off.append(off[-1] + len(l.encode()) + 1)
  b = text.encode()
  pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
  seg = lambda n: b[slice(*pos(n))].decode()
  out = []
  def add(n, new, kind, span=None):
    s, e = span or pos(n)
    if b[s:e].decode() != new: out.append(dict(file=os.path.relpath(path, "/repo/jaxopt"), line=n.lineno, start=s, end=e, old=b[s:e].decode(), new=new, kind=kind))
  tree = ast.parse(text)
  for p in ast.walk(tree):
    for c in ast.iter_child_nodes(p): c.parent = p
  def inside(n, types):
    while hasattr(n, "parent"):
      n = n.parent
      if isinstance(n, types): return n
  for n in ast.walk(tree):
    if not hasattr(n, "lineno") or inside(n, (ast.Raise, ast.Assert, ast.AnnAssign)) and not isinstance(n, ast.stmt): continue
    if not inside(n, (ast.FunctionDef, ast.Lambda)): continue
    fn = inside(n, ast.FunctionDef)
    if fn and (n in fn.decorator_list or n is fn.returns): continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
      add(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
      add(n, f"{seg(n.left)} {BIN[type(n.op)]} {seg(n.right)}", "bin")
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
      add(n, f"({seg(n.operand)})", "unary")
    elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool) and not isinstance(getattr(n, "parent", None), ast.arguments):
      add(n, {True: "False", False: "True"}[n.value] if type(n.value) is bool else repr(n.value + 1 if n.value in (0, 1) else n.value * 2), "const")
    elif isinstance(n, ast.BoolOp):
      for v in n.values: add(n, " ".join([""]) + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + seg(x) + ")" for x in n.values if x is not v), "dropbool")
    elif isinstance(n, ast.IfExp): add(n, f"({seg(n.orelse)} if {seg(n.test)} else {seg(n.body)})", "ifexp")
    elif isinstance(n, ast.If) and not any(isinstance(s, ast.Raise) for s in n.body): add(n.test, f"not ({seg(n.test)})", "if")
    elif isinstance(n, ast.Call):
      f = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
      if f in SWAP:
        s, e = pos(n.func); add(n, SWAP[f], "swapfn", (e - len(f), e))
      if f == "where" and len(n.args) == 3: add(n, f"{seg(n.func)}({seg(n.args[0])}, {seg(n.args[2])}, {seg(n.args[1])})", "where")
      elif f == "where" : pass
      elif len(n.args) >= 2 and not f.startswith(("isinstance", "getattr", "hasattr", "tree_vdot", "tree_add", "vdot")) and not any(isinstance(a, ast.Starred) for a in n.args):
        a = [seg(x) for x in n.args]
        if a[0] != a[1] and not isinstance(n.args[0], ast.Lambda): add(n.args[0], f"{a[1]}, {a[0]}", "swapargs", (pos(n.args[0])[0], pos(n.args[1])[1]))
      for k in n.keywords:
        if k.arg and f not in ("replace",):
          rest = [seg(x) for x in n.args] + [f"{q.arg}={seg(q.value)}" if q.arg else f"**{seg(q.value)}" for q in n.keywords if q is not k]
          add(n, f"{seg(n.func)}({', '.join(rest)})", "dropkw")
      if f.startswith("tree_scalar_mul") or f in ("sqrt", "abs", "tree_l2_norm", "stop_gradient", "relu", "conj", "tree_conj", "real", "transpose", "ravel"):
        if f in ("sqrt", "abs", "conj", "tree_conj", "relu", "transpose") and len(n.args) == 1: add(n, f"({seg(n.args[0])})", "dropcall")
    elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
      t = n.targets[0].id
      if any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(n.value)): add(n, f"{t} = {t}", "dropassign")
    elif isinstance(n, ast.AugAssign): add(n, "pass", "dropassign")
    elif isinstance(n, ast.Attribute) and n.attr in ("T",): add(n, seg(n.value), "dropT")
  return out


def gen(out, rx=".*", per=40, seed=0):
  rnd, M = random.Random(seed), []
  for p in sorted(glob.glob(SRC + "/**/*.py", recursive=True)):
    if not re.search(rx, p): continue
    ms = mutants(p); rnd.shuffle(ms)
    seen, pick = collections.Counter(), []
    for m in ms:
      if seen[m["line"]] < 2: seen[m["line"]] += 1; pick.append(m)
    M += pick[:int(per)]
  for i, m in enumerate(M): m["id"] = i
  json.dump(M, open(out, "w"), indent=0); print(len(M), "mutants", collections.Counter(m["kind"] for m in M))


def load_cov(d):
  J = [json.load(open(f)) for f in glob.glob(d + "/*.json")]
  cov = collections.defaultdict(list)
  for i, j in enumerate(J):
    for f, l in j["lines"]: cov[f, l].append(i)
  return J, cov


MAIN = [("hager_zhang|zoom|backtracking|linesearch_util", "P03 P18"), ("lbfgsb", "P11 P12 P18 P19"), ("lbfgs|/bfgs", "P11 P18 P19"), ("broyden", "P14 P11 P18"), ("nonlinear_cg", "P12 P19 P18"), ("levenberg|gauss", "P13"),
        ("projection", "P04"), ("prox.py", "P05"), ("isotonic", "P06"), ("loss|objective", "P07"), ("osqp|cd_qp|eq_qp|cvxpy", "P08 P18"), ("implicit_diff", "P09"), ("linear_solve|iterative_ref|linear_op", "P10"),
        ("scipy", "P16"), ("perturb", "P17"), ("tree_util", "P19"), ("armijo|polyak|optax", "P15"), ("gradient|mirror|block", "P20 P12"), ("base", "P01 P02 P18"), ("anderson|fixed|bisect", "P14")]


def order(J, ids, cap, file):
  """The jobs of the properties the file belongs to, cheapest first (up to cap), then the others (up to another cap / 3)."""
  main = next((m.split() for rx, m in MAIN if re.search(rx, file)), [])
  first = sorted((i for i in ids if J[i]["prop"] in main), key=lambda i: J[i]["wall"]); res, tot = [], 0.0
  for i in first:
    if tot and tot + J[i]["wall"] > cap: break
    res.append(i); tot += J[i]["wall"]
  return res + [i for i in order_any(J, ids, cap / 3) if i not in res]


def order_any(J, ids, cap):
  by = collections.defaultdict(list)
  for i in ids: by[J[i]["prop"]].append(i)
  for v in by.values(): v.sort(key=lambda i: J[i]["wall"])
  res, tot = [], 0.0
  while by:
    for p in sorted(by, key=lambda p: J[by[p][0]]["wall"]):
      i = by[p].pop(0)
      if not by[p]: del by[p]
      if tot > 0 and tot + J[i]["wall"] > cap: continue
      tot += J[i]["wall"]; res.append(i)
  return res


def one(m, J, ids, cap, wfd):
  """In a forked child: import the mutated package, run the jobs."""
  sys.path.insert(0, ROOT)
  from mc import core
  d = tempfile.mkdtemp(dir="/dev/shm"); res = dict(id=m["id"], status="survived", ran=[])
  try:
    shutil.copytree("/repo/jaxopt", d + "/jaxopt", ignore=shutil.ignore_patterns("__pycache__"))
    p = os.path.join(d, "jaxopt", m["file"]); b = open(p, "rb").read()
    open(p, "wb").write(b[:m["start"]] + m["new"].encode() + b[m["end"]:])
    os.environ["VERIF_REPO"] = d; core.REPO = d
    devnull = os.open("/dev/null", os.O_WRONLY); os.dup2(devnull, 1); os.dup2(devnull, 2)
    try: core._init_worker()
    except BaseException as e: res.update(status="killed", by="import", key=repr(e)[:100]); raise SystemExit
    import importlib
    t0 = time.time()
    for i in ids:
      mod = importlib.import_module("checks." + J[i]["prop"].lower())
      idx = [k for k, (n, _, _) in enumerate(mod.jobs("quick")) if n == J[i]["job"]][0]
      r = core._run_job(J[i]["prop"], "checks." + J[i]["prop"].lower(), idx, "quick", 1)
      res["ran"].append(J[i]["prop"] + ":" + J[i]["job"])
      bad = [v for v in r["violations"] if (J[i]["prop"], v["key"]) not in core.load_findings()]
      if bad:
        res.update(status="killed", by=res["ran"][-1], key=bad[0]["key"][-150:]); break
      if time.time() - t0 > 4 * cap + 60: res["status"] = "slow"; break
  except SystemExit: pass
  except BaseException as e: res.update(status="error", key=repr(e)[:200])
  finally:
    shutil.rmtree(d, ignore_errors=True)
    os.write(wfd, (json.dumps(res) + "\n").encode()); os._exit(0)


def run(mfile, out, covdir, cap=60, workers=8):
  cap = float(cap); M = json.load(open(mfile)); J, cov = load_cov(covdir)
  done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
  os.environ.setdefault("JAX_PLATFORMS", "cpu")
  sys.path.insert(0, ROOT)
  from mc import core
  os.environ.update(core.ENV)
  import numpy, scipy.optimize, jax, optax, warnings      # imported once; the children fork (no backend is initialised here)
  queue = [m for m in M if m["id"] not in done]; live = {}
  f = open(out, "a")
  def finish(pid):
    m, r, t0 = live.pop(pid)
    data = b""
    while True:
      c = os.read(r, 65536)
      if not c: break
      data += c
    os.close(r)
    res = json.loads(data) if data.strip() else dict(id=m["id"], status="died", ran=[])
    res.update({k: m[k] for k in ("file", "line", "old", "new", "kind")}, wall=round(time.time() - t0, 1))
    f.write(json.dumps(res) + "\n"); f.flush()
  while queue or live:
    while queue and len(live) < int(workers):
      m = queue.pop(0); ids = cov.get((m["file"], m["line"]), [])
      if not ids:
        f.write(json.dumps(dict(m, status="uncovered", ran=[])) + "\n"); continue
      r, w = os.pipe(); pid = os.fork()
      if pid == 0:
        os.close(r); one(m, J, order(J, ids, cap, m['file']), cap, w)
      os.close(w); live[pid] = (m, r, time.time())
    if not live: continue
    pid, _ = os.waitpid(-1, os.WNOHANG)
    if pid: finish(pid)
    else:
      for p, (m, r, t0) in list(live.items()):
        if time.time() - t0 > 6 * cap + 120: os.kill(p, signal.SIGKILL)
      time.sleep(0.2)


if __name__ == "__main__":
  {"gen": gen, "run": run}[sys.argv[1]](*sys.argv[2:])
