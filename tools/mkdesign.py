"""DESIGN.md = design/head.md + generated tables (planted changes, findings, numbers)"""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(f"{R}/design/head.md").read()
num = json.load(open(f"{R}/design/numbers.json")) if os.path.exists(f"{R}/design/numbers.json") else {}
out += "## 5. Snapshot of the unchanged tree\n\n| id | level | functions under contract | discharged | bounded | concrete cross-checks | solver queries | wall s |\n|--|--|--|--|--|--|--|--|\n"
for k, v in num.items():
    out += f"| {k} | {v['level']} | {v['functions']} | {v['discharged']} | {v['bounded']} | {v['runs']} | {v['queries']} | {v['wall']} |\n"
out += "\n## 6. Planted changes\n\nKept under `seeded/` (patch, demonstration, 61 tests pass with it); all are caught by the named property's check.\n\n| change | caught by | what it needs | what it breaks |\n|--|--|--|--|\n"
for d in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    m = json.load(open(d))
    out += f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
out += "\n" + open(f"{R}/design/mutants.md").read()
kf = json.load(open(f"{R}/known_findings.json"))
out += "\n## 7. Known findings (recorded, not repaired)\n\n"
for k in kf["known"]:
    out += f"* {k['property']} `{k['match']}` ({k['oblig']}): {k['what']}\n"
out += "\nThe repair would change the generated activation module for every reduction; a maintainer has to choose the interface.\n"
out += "\n## 8. Repaired defects\n\n" + "".join(f"* {x}\n" for x in kf["fixed"])
open(f"{R}/DESIGN.md", "w").write(out)
