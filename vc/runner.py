"""Runs checks/<id>.py.  If the check cannot even start against the tree at hand
(an internal name it addresses is gone), that is no verdict: the evidence says
so and nothing is reported as violated."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    prop, tier = sys.argv[1:3]
    ev = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", f"checks.{prop}", tier],
                         stdout=subprocess.PIPE, text=True, errors="replace")
    violated = False
    for line in p.stdout:
        violated = violated or line.startswith(f"VIOLATION property={prop} ")
        sys.stdout.write(line)
        sys.stdout.flush()
    rc = p.wait()
    if rc == 0 or (rc == 1 and violated):
        return rc
    print(f"{prop}: the check could not run to its end (exit {rc}): undecided")
    if not os.path.exists(ev):
        os.makedirs(os.path.dirname(ev), exist_ok=True)
        with open(ev, "w") as fh:
            json.dump(dict(
                property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")),
                level="other", coverage=dict(
                    explanation="nothing explored: the check could not run against this tree",
                    obligations=0, discharged=0),
                assumptions=[], wall_s=0.0, violations=0), fh, indent=1)
    return 0


if __name__ == "__main__":
    sys.exit(main())
