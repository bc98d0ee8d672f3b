"""Writes /verif/MANIFEST.json from the check modules and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
sys.dont_write_bytecode = True
sys.path[:0] = ["lib", "."]
import mc, importlib
mc.setup_import()
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
NA = {}
for p in props:
    mod = "checks/%s.py" % p["id"].lower()
    if os.path.exists(mod):
        m = importlib.import_module("checks." + p["id"].lower())
        assert m.ID == p["id"]
        checks.append(dict(property=p["id"], quick_cmd="./run %s quick" % p["id"], thorough_cmd="./run %s thorough" % p["id"],
                           technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE, evidence_file="evidence/%s.json" % p["id"]))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet (work in progress)")))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
           notes="All checks drive the unmodified xlrd from /repo's working tree; no hooks are needed. "
                 "./run <id> quick|thorough [--replay FILE]. VERIF_NPROC limits the number of worker processes.")
json.dump(man, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed:", [x["property"] for x in na])
