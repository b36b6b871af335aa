"""Line coverage of legume by the checks (development tool, no registered check uses it).

    python tools/cover.py [--scale X] [--jobs 6] [C01 ...]     prints the lines no check executes
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def inner(pid, scale, out):
    sys.path[:0] = [HERE, REPO]
    mon = sys.monitoring
    root = os.path.join(REPO, "legume") + os.sep
    hits, lines = {}, {}

    def code_lines(co, acc):
        acc.update(l for _, _, l in co.co_lines() if l)
        for c in co.co_consts:
            if hasattr(c, "co_lines"):
                code_lines(c, acc)

    def on_line(code, line):
        if code.co_filename.startswith(root):
            hits.setdefault(code.co_filename[len(root):], set()).add(line)
        return mon.DISABLE

    mon.use_tool_id(1, "cover")
    mon.register_callback(1, mon.events.LINE, on_line)
    mon.set_events(1, mon.events.LINE)
    from harness import core
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        core.main([pid, "--shard", "0", "--shards", "8", "--scale", str(scale), "--out", d])
        os.chdir("/")
    with open(out, "w") as f:
        json.dump({k: sorted(v) for k, v in hits.items()}, f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--scale", type=float, default=1.)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--inner")
    a = ap.parse_args()
    if a.inner:
        return inner(a.ids[0], a.scale, a.inner)
    ids = a.ids or [f"C{i:02d}" for i in range(1, 23)]
    hits = {}
    with tempfile.TemporaryDirectory() as d:
        def run(i):
            o = os.path.join(d, i)
            subprocess.run([sys.executable, __file__, i, "--scale", str(a.scale), "--inner", o],
                           stdout=subprocess.DEVNULL)
            return json.load(open(o)) if os.path.exists(o) else {}
        with ThreadPoolExecutor(a.jobs) as ex:
            for r in ex.map(run, ids):
                for k, v in r.items():
                    hits.setdefault(k, set()).update(v)
    tot = miss = 0
    for dp, _, fs in sorted(os.walk(os.path.join(REPO, "legume"))):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, os.path.join(REPO, "legume"))
            src = open(p).read()
            acc = set()

            def code_lines(co):
                acc.update(l for _, _, l in co.co_lines() if l)
                for c in co.co_consts:
                    if hasattr(c, "co_lines"):
                        code_lines(c)
            code_lines(compile(src, p, "exec"))
            bad = sorted(acc - hits.get(rel, set()))
            tot += len(acc)
            miss += len(bad)
            for l in bad:
                print(f"{rel}:{l}: {src.splitlines()[l - 1].strip()}" if l <= len(src.splitlines()) else l)
    print(f"{tot - miss} of {tot} lines executed")


if __name__ == "__main__":
    main()
