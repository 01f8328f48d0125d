"""design/numbers.json from the summary lines and evidence files of runs on the unchanged tree:
mknumbers.py LOG..."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lev = {c.get("property") or c["id"]: c["level"] for c in json.load(open(f"{R}/MANIFEST.json"))["checks"]}
num = {}
for f in sys.argv[1:]:
    for m in re.finditer(r"(?m)^(\w\d\d): (\d+) obligations discharged, (\d+) bounded, (\d+) concrete runs, "
                         r".*?(\d+) solver queries, ([\d.]+)s", open(f, errors="replace").read()):
        p, d, b, n, q, w = m.groups()
        c = json.load(open(f"{R}/evidence/{p}.json"))["coverage"]
        num[p] = dict(level=lev[p], functions=len(c["functions_under_contract"]), discharged=int(d),
                      bounded=int(b), runs=int(n), queries=int(q), wall=float(w))
json.dump(num, open(f"{R}/design/numbers.json", "w"), indent=1)
