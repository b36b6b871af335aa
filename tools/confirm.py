"""Second stage of mutate.py (development tool): runs the checks at full scale on the survivors.

    python tools/confirm.py IN.jsonl OUT.jsonl [--jobs 3] [--skip REGEX] [--verif DIR]
"""
import argparse
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.argv, argv = [sys.argv[0], "-h"], sys.argv
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutate.py")).read()
M = {"__file__": os.path.abspath(__file__), "__name__": "mutate"}
exec(src.rsplit("\nmain()", 1)[0], M)
sys.argv = argv

ap = argparse.ArgumentParser()
ap.add_argument("inp")
ap.add_argument("out")
ap.add_argument("--jobs", type=int, default=3)
ap.add_argument("--scale", type=float, default=1.)
ap.add_argument("--skip", default="$^")
ap.add_argument("--repo", default="/repo")
ap.add_argument("--verif", default=M["HERE"])
args = ap.parse_args()
os.makedirs("/tmp/mut", exist_ok=True)


def one(a):
    i, r = a
    src = open(args.repo + "/legume/" + r["file"]).read()
    new, _ = M["mutate"](src, r["site"], r["kind"], random.Random(r["seed"]))
    root = f"/tmp/mut/k{os.getpid()}_{i}"
    os.makedirs(root)
    shutil.copytree(args.repo + "/legume", root + "/legume", ignore=shutil.ignore_patterns("__pycache__"))
    open(f"{root}/legume/{r['file']}", "w").write(new)
    env = dict(os.environ, VERIF_REPO=root, VERIF_NOSHRINK="1", PYTHONDONTWRITEBYTECODE="1")
    r["killed"] = None
    for c in M["CHECKS"][r["file"]]:
        p = subprocess.run([sys.executable, os.path.join(args.verif, "check.py"), c, "--shards", "2", "--seed", "1",
                            "--scale", str(args.scale)], env=env, capture_output=True, text=True)
        if p.returncode == 1:
            r["killed"] = c
            break
        if p.returncode:
            r["error"] = c + (p.stdout + p.stderr)[-300:]
    shutil.rmtree(root, ignore_errors=True)
    with open(args.out, "a") as f:
        f.write(json.dumps(r) + "\n")


rs = [json.loads(l) for l in open(args.inp)]
rs = [r for r in rs if not r["killed"] and not re.search(args.skip, r["diff"])]
print(len(rs), "survivors", flush=True)
with ThreadPoolExecutor(args.jobs) as ex:
    list(ex.map(one, enumerate(rs)))
