"""Writes MANIFEST.json from the check modules present (run: python3 tools/gen_manifest.py)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
for p in props:
  pid = p["id"]
  if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
    tech, note = NOTES[pid]
    checks.append(dict(property=pid, quick_cmd=f"python3 mc/run.py {pid} --tier quick",
                       thorough_cmd=f"python3 mc/run.py {pid} --tier thorough",
                       evidence_file=f"evidence/{pid}.json", technique=tech, level="model_checking", level_note=note))
  else:
    na.append(dict(property=pid, reason="no check is registered for it yet; it is in reach of the same method"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -W ignore -c \"import jaxopt, jax, numpy; print('ready')\"",
         checks=checks, not_applicable=na,
         notes="Every check enumerates a finite space of executions of the real code in /repo and compares each with an "
               "independent reference model; see DESIGN.md. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
