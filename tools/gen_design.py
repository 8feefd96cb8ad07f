"""gen_design.py - DESIGN.md from design_head.md, design_props.py, specs.py, design_tail.md, seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
from specs import SPECS
from design_props import P
out = open(V + "/tools/design_head.md").read()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
for p in props:
    i = p["id"]; g, t = P[i]; s = SPECS[i]
    n = ", ".join("%s/%s %d%s" % (j["harness"], j["group"], j["cases"], "" if j.get("flavour", "asan") == "asan" else " (%s)" % j["flavour"]) for j in s["jobs"])
    out += "### %s %s\n\n%s\n\n* explored: %s.\n* quick cases: %s.\n* situations that have to occur: %s.\n\n" % (i, p["title"], t, s["rule"], n, ", ".join(s.get("require", [])))
out += open(V + "/tools/design_tail.md").read()
res = {}
try: res = json.load(open(V + "/tools/seeded_results.json"))
except OSError: pass
out += "\n| change | property | needs | breaks | caught by |\n| --- | --- | --- | --- | --- |\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    out += "| %s | %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], m["what_it_breaks"], res.get(d, m["property"]))
open(V + "/DESIGN.md", "w").write(out)
