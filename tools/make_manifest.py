"""Write MANIFEST.json from the checks that exist and tools/notes.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib
from vp import env
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
PY = "/opt/venv/bin/python"
with open(f"{V}/tools/techniques.json") as f:
    tech = json.load(f)
checks, na = [], []
for p in props:
    if os.path.exists(f"{V}/checks/{p.lower()}.py"):
        c = importlib.import_module(f"checks.{p.lower()}").CHECK
        checks.append(dict(property=p, quick_cmd=f"{PY} run.py {p}",
            thorough_cmd=f"{PY} run.py {p} --tier thorough",
            technique=tech[p], level="exploration",
            level_note=c.level_note or "Random search; no exhaustiveness."))
    else:
        na.append(dict(property=p, reason="The technique applies; its check is not built yet."))
m = dict(version=1, setup_cmd=f"{PY} -c \"import sys; sys.path.insert(0, '.'); from vp import env; env.setup_environment(); env.setup_hypothesis(); import hypothesis, jax, lab\"",
         checks=checks, not_applicable=na,
         notes="The code under test is pure Python: every check imports it from /repo's working tree, so nothing is built. No hooks.")
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
