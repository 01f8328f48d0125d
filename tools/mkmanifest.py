"""writes MANIFEST.json: a check for every property with a checks/<id>.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "levels.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append(dict(
            property=i, quick_cmd=f"bash /verif/run.sh {i} quick",
            thorough_cmd=f"bash /verif/run.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=TECH.get(i, TECH["*"]), level=LEVEL.get(i, "proof"),
            level_note=NOTE.get(i, NOTE["*"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash /verif/setup.sh",
         hooks=dict(guard="none (no hooks in /repo)", enable="not needed", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Contract-based deductive verification of the real functions by symbolic execution of their jaxprs (vc/).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
