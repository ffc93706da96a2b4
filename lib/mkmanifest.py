import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
NOTE = {}
exec(open(os.path.join(V, "lib", "notes.py")).read())
pl = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in pl:
    i = p["id"]
    if i in props.ALL:
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique=TECH.get(i, TECH["*"]), level="model_checking", level_note=NOTES.get(i, NOTES["*"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; see DESIGN.md. No hooks are needed in /repo: drivers use the public interface only.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
