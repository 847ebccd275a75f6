"""show.py <replay file>: run the case and print the trace and what TLC says"""
import json, os, sys
os.environ.setdefault("PYTHONHASHSEED", "0")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import core
core.setup_imports()
import importlib
rep = json.load(open(sys.argv[1]))
lib = importlib.import_module("props." + sys.argv[2])
tr = lib.run_case(rep["case"])
for d in tr.get("docs", []):
    print(json.dumps(d))
L = rep["what"].get("l")
for i, s in enumerate(tr["steps"], 1):
    if len(sys.argv) > 3 or i <= (L or 99):
        s.pop("truth", None)
        print(i, "<<<" if i == L else "", json.dumps(s))
print(rep["what"])
print(json.dumps({k: v for k, v in rep["case"].items() if k != "ops"}))
