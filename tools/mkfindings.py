"""Writes the "fixed" entries of known_findings.jsonl (run by hand after a fix commit)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNDONE = ("09c269d", "e103d25")        # a mistaken change of viz.pot_ft and the commit that takes it back
MAP = {
    "3736fc7": "C06", "cafabba": "C21", "c54629f": "C12", "b5a5a53": "C12", "20e7c23": "C09", "fe5c364": "C09",
    "bb91205": "C16", "c67471b": "C12", "e55ad49": "C15", "9696f00": "C15", "cdf036e": "C22", "c935683": "C02",
    "f0cacc0": "C02", "f727de0": "C01", "9565dee": "C01", "6983104": "C01", "ef3860d": "C03", "795ae6e": "C04",
    "f4224e7": "C17", "465fcb0": "C17", "45b1747": "C18", "fd31de9": "C14", "6696aa2": "C19", "494e341": "C19",
    "180a113": "C19", "b510c09": "C19", "3b021c3": "C19", "88296f1": "C19", "ca94963": "C13", "08390d5": "C18",
    "f25415f": "C12", "139a615": "C11", "1080730": "C12", "8b031f4": "C12", "11e310e": "C14", "b183359": "C14",
    "8f7f8de": "C14", "ec9f98c": "C14", "278b851": "C16", "97e5e6d": "C16", "9f51cf3": "C20", "06965a2": "C19",
    "8b7f52c": "C19", "308ef91": "C20", "6637f97": "C20", "2e3fdf4": "C22", "bcf6aa8": "C22", "98d87ab": "C05", "48b6bc9": "C08", "9494a08": "C05",
    "08d0cae": "C20", "46bb513": "C17", "d839d43": "C19",
    "86f925c": "C14", "ce6d871": "C01", "fcd31a5": "C08", "36dc77a": "C06", "03d781b": "C20",
}
path = os.path.join(HERE, "known_findings.jsonl")
keep = [l for l in open(path).read().splitlines() if l and json.loads(l)["status"] == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True,
                     text=True).stdout.splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: ") and h not in UNDONE:
        pid, what = MAP[h], s[5:]
        keep.append(json.dumps({"property": pid, "status": "fixed", "commit": h,
                                "what": f"fixed: property={pid} {h} {what}"}))
with open(path, "w") as f:
    f.write("\n".join(keep) + "\n")
print(len(keep))
