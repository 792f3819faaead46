"""python3 tools/design.py: DESIGN.md from DESIGN.in.md, the property list and the planted bugs."""
import glob, json, os, sys
sys.path.insert(0, "/verif")
from vp.table import TABLE
props = {json.loads(l)["id"]: json.loads(l) for l in open("/verif/properties.jsonl")}
RULE = {"ref": "reference effects", "io": "failure injection", "panics": "panic reachability"}
rows = []
for p in sorted(TABLE):
    r = TABLE[p]["roots"]
    short = [x.split("::")[-1] if "::" in x else x for x in r]
    rows.append("| %s %s | %s | %d: %s |" % (p, props[p]["title"], RULE[TABLE[p].get("mode", "ref")], len(r), ", ".join(short[:7]) + (", …" if len(short) > 7 else "")))
seeds = []
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"], "none" if "`%s`" % os.path.basename(os.path.dirname(m)) in open("/verif/tools/SEEDED.md").read() else d["property"]))
s = open("/verif/tools/DESIGN.in.md").read()
s = s.replace("PROPTABLE", "\n".join(rows)).replace("FALSEALARMS", open("/verif/tools/FALSEALARMS.md").read().strip())
s = s.replace("SEEDED", open("/verif/tools/SEEDED.md").read().strip() + "\n\n| id | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(seeds))
open("/verif/DESIGN.md", "w").write(s)
