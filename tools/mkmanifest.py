"""Writes MANIFEST.json from the property modules that exist (run by hand)."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
mods = {}
for f in sorted(glob.glob(os.path.join(HERE, "props", "c[0-9]*.py"))):
    m = importlib.import_module("props." + os.path.basename(f)[:-3])
    mods[m.ID] = m
checks, na = [], []
for p in props:
    m = mods.get(p["id"])
    if m is None:
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    assert m.TITLE == p["title"], (p["id"], m.TITLE, p["title"])
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": getattr(m, "TECHNIQUE", "property-based testing (Hypothesis) against an "
                             "independent reference"),
        "level": "exploration",
        "level_note": "Generated inputs, no proof. Parts: " + ", ".join(
            f"{q['name']} ({q['quick']} cases)" for q in m.PARTS) + ". Assumes: " +
            "; ".join(m.ASSUMPTIONS) + "."})
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every check uses the public API. check.py C01 --replay FILE "
                "re-runs a saved case without Hypothesis."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
