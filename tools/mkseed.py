"""tools/mkseed.py FILE.py : FILE defines BUGS = [dict(id, property, file, edits=[(old, new)], demo, needs, breaks)]; writes seeded/<id>/ from edits on a scratch clone of /repo."""
import json, os, runpy, subprocess, sys
SH = '''here=$(cd "$(dirname "$0")" && pwd)
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
only = set(sys.argv[2:])
for b in runpy.run_path(sys.argv[1])["BUGS"]:
  if only and b["id"] not in only: continue
  c = "/tmp/scr/_mk"; subprocess.run(["rm", "-rf", c]); subprocess.run(["git", "clone", "-q", "/repo", c], check=True)
  for e in b["edits"]:
    f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
    p = os.path.join(c, f); s = open(p).read()
    assert s.count(old) == 1, (b["id"], s.count(old), old)
    open(p, "w").write(s.replace(old, new))
  d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", b["id"]); os.makedirs(d, exist_ok=True)
  open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", c, "diff"], capture_output=True, text=True).stdout)
  open(d + "/demo.sh", "w").write(SH); open(d + "/demo.py", "w").write(b["demo"])
  json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
  print("wrote", b["id"])
