"""Put replay files into the regression corpus: promote.py REPLAY..."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sys.argv[1:]:
    with open(p) as f:
        d = json.load(f)
    os.makedirs(f"{V}/corpus/{d['property']}", exist_ok=True)
    with open(f"{V}/corpus/{d['property']}/{os.path.basename(p)}", "w") as f:
        json.dump({"sub": d["sub"], "case": d["case"]}, f, indent=1, sort_keys=True)
