#!/usr/bin/env python3
"""Write DESIGN.md: tools/design_head.md, then one section per property (hand-written text below, spaces and bounds taken
from the checks themselves so that they cannot go stale), then the table of planted bugs."""
import glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.path[:0] = [os.path.join(ROOT, "lib"), ROOT, os.environ.get("XLRD_REPO", "/repo")]
sys.dont_write_bytecode = True
from design_text import TEXT

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
res = {}
p = os.path.join(ROOT, "tools", "seeded_results.tsv")
if os.path.exists(p):
    for l in open(p):
        f = l.rstrip("\n").split("\t")
        res[f[0]] = f[1:]
fixed = {}
for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
    if l.startswith("fixed: property="):
        pid, rest = l[16:].split(" ", 1)
        fixed.setdefault(pid, []).append(rest.strip())
out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), ""]
seeds = {}
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
for pr in props:
    m = importlib.import_module("checks." + pr["id"].lower())
    out += ["### %s — %s" % (pr["id"], pr["title"]), "", "*%s; level `%s`.*" % (m.TECHNIQUE, m.LEVEL), ""]
    out += [TEXT[pr["id"]].strip(), ""]
    q = {s.name: s.bound for s in m.spaces("quick")}
    t = {s.name: s.bound for s in m.spaces("thorough")}
    out.append("Enumerated (quick):")
    out += ["- %s: %s" % (k, v) for k, v in q.items()]
    more = [(k, v) for k, v in t.items() if q.get(k) != v]
    if more:
        out.append("")
        out.append("Thorough, instead or in addition:")
        out += ["- %s: %s" % (k, v) for k, v in more]
    out += ["", "Assumptions: " + "; ".join(m.ASSUMPTIONS) + "."]
    if pr["id"] in fixed:
        out += ["", "Genuine defects found and repaired in /repo:"]
        out += ["- `%s` %s" % tuple(x.split(" ", 1)) for x in fixed[pr["id"]]]
    if pr["id"] in seeds:
        out += ["", "Planted bugs: " + ", ".join("`%s`" % k for k, _ in seeds[pr["id"]]) + "."]
    out.append("")
out += ["## Planted bugs and what catches them", "",
        "Every bug passes the 84 tests. *First run*: whether the check caught it as it stood when the bug was written; "
        "where it did not, the check was extended (last column) and catches it now.", "",
        "| bug | property | needs | first run | now |", "|---|---|---|---|---|"]
for pid in sorted(seeds):
    for k, m in seeds[pid]:
        r = res.get(k, ["?", "?"])
        out.append("| %s | %s | %s | %s | %s |" % (k, pid, m["needs"].replace("|", "/"), r[0], r[1]))
tail = os.path.join(ROOT, "tools", "design_tail.md")
if os.path.exists(tail):
    out += ["", open(tail).read().rstrip()]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
