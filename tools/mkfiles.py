"""Regenerates properties.jsonl (from props.py) and MANIFEST.json (from harness/plans.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, os.path.join(root, "harness")]
import props, plans
ids = [p["id"] for p in props.P]
assert len(ids) == len(set(ids))
for p in props.P:
    assert len(p["title"]) <= 80, p["id"]
open(os.path.join(root, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in props.P))
checks = []
for i in ids:
    if i not in plans.PLANS:
        continue
    mods = ", ".join("spec/%s.tla" % plans.SPECS[m] for m, _o in plans.PLANS[i])
    cmd = "/opt/venv/bin/python check.py %s --tier %s"
    checks.append({"property": i, "quick_cmd": cmd % (i, "quick"), "thorough_cmd": cmd % (i, "thorough"),
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "TLA+ specification (%s) model-checked with TLC; conformance: TLC-generated behaviours and random histories replayed into the real code, every recorded trace judged by TLC against the specification" % mods,
                   "level": "model_checking", "level_note": plans.NOTES.get(i, plans.NOTE)})
na = [{"property": i, "reason": plans.NA.get(i, "specification for this part is not written yet")} for i in ids if i not in plans.PLANS]
json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "", "enable": "", "source_commits": []}, "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
import re, subprocess
design = os.path.join(root, "DESIGN.md")
text = open(design).read()
table = subprocess.run([sys.executable, os.path.join(here, "catches.py")], capture_output=True, text=True, check=True).stdout
text = re.sub("<!-- catches -->\n.*<!-- end -->", lambda _m: "<!-- catches -->\n" + table + "<!-- end -->", text, flags=re.S)
open(design, "w").write(text)
