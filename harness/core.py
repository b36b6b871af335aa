"""Runs one property: shards of generated cases, shrinking, replay, evidence."""
import argparse
import glob
import hashlib
import importlib
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYPO not in sys.path:
    sys.path.append(HYPO)
NSHARDS = 8
SHRINK_SECONDS = 45


class Violation(Exception):
    """The property does not hold on this case. `key` names the kind of failure
    (it is what the known-findings file is matched against)."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The generated case lies outside the property's domain (counted)."""


class Ctx:
    """Handed to the oracle of a case: counters, labels and comparisons."""

    def __init__(self):
        self.labels = []
        self.nontriv = False
        self.known = []

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        self.nontriv = self.nontriv or bool(cond)

    def require(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def close(self, got, want, what, rtol=1e-7, atol=1e-9, key=None):
        import numpy as np
        try:
            g = np.asarray(got)
            if g.dtype == object:
                g = np.asarray(got, dtype=complex)
        except Exception:
            raise Violation(f"{what}: not an array of numbers: {got!r}", key)
        w = np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape}, expected {w.shape}", key)
        if g.size == 0:
            return
        if not np.all(np.isfinite(g)):
            raise Violation(f"{what}: not finite: {g.ravel()[:8]}", key)
        err = np.abs(g - w)
        tol = atol + rtol * np.abs(w)
        bad = err > tol
        if np.any(bad):
            i = int(np.argmax((err / tol).ravel()))
            raise Violation(
                f"{what}: got {g.ravel()[i]!r}, expected {w.ravel()[i]!r} "
                f"(|diff| {err.ravel()[i]:.3e} > {tol.ravel()[i]:.1e}; "
                f"{int(bad.sum())} of {g.size} entries differ)", key)


def legume_in_traceback(exc):
    root = os.path.join(os.path.realpath(REPO), "legume") + os.sep
    for fr in traceback.extract_tb(exc.__traceback__):
        if os.path.realpath(fr.filename).startswith(root):
            return True
    return False


# errors which, raised by the oracle, mean that what legume returned cannot be read
MALFORMED = (ValueError, IndexError, TypeError, KeyError, ZeroDivisionError,
             ArithmeticError, AssertionError)


def run_case(part, case):
    """Oracle on one case. Returns Ctx; raises Violation, Skip or a harness error."""
    import contextlib
    import io
    import numpy as np
    import legume
    legume.set_backend('numpy')
    # the code under test never draws from numpy's global generator, except for
    # ARPACK's start vector: pin it, so that a case is a pure function of its input
    np.random.seed(0)
    ctx = Ctx()
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            part["check"](case, ctx)
        except (Violation, Skip):
            raise
        except MemoryError:
            raise
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            where = "".join(traceback.format_tb(e.__traceback__)[-2:])
            if legume_in_traceback(e):
                raise Violation(f"valid input raised {type(e).__name__}: {e}\n{where}",
                                key="raised:" + type(e).__name__) from e
            missing = isinstance(e, AttributeError) and \
                str(getattr(type(e.obj), "__module__", "")).split(".")[0] == "legume"
            if isinstance(e, MALFORMED) or type(e).__name__ == "LinAlgError" or missing:
                raise Violation(f"result cannot be read: {type(e).__name__}: {e}\n{where}",
                                key="malformed") from e
            raise
        finally:
            legume.set_backend('numpy')
            if "matplotlib.pyplot" in sys.modules:
                sys.modules["matplotlib.pyplot"].close("all")
    return ctx


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def load(pid):
    for f in sorted(glob.glob(os.path.join(HERE, "props", "c*.py"))):
        if os.path.basename(f).lower().startswith(pid.lower()):
            return importlib.import_module("props." + os.path.basename(f)[:-3])
    raise SystemExit(f"no property module for {pid}")


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ one shard

def shard(pid, seed, idx, nshards, tier, scale, outdir):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    mod = load(pid)
    known = {k["key"] for k in known_findings(pid)}
    res = {"evaluations": 0, "skipped": 0, "nontrivial": {}, "labels": {}, "samples": {},
           "known": {}, "failures": [], "parts": {}, "error": None}
    for part in mod.PARTS:
        total = part[tier] if tier in part else part["quick"]
        n = max(1, math.ceil(total * scale / nshards))
        # parts with fewer cases than shards run on some of the shards only
        if total * scale < nshards and idx >= math.ceil(total * scale):
            continue
        name = part["name"]
        st = {"evaluations": 0, "nontrivial": 0, "skipped": 0}
        fail = {}
        t0 = time.time()

        def body(case):
            if fail.get("stop_at") and time.time() > fail["stop_at"]:
                return
            case = json.loads(json.dumps(case))
            res["evaluations"] += 1
            st["evaluations"] += 1
            h = name + ":" + case_hash(case)
            try:
                ctx = run_case(part, case)
            except Skip as s:
                res["skipped"] += 1
                st["skipped"] += 1
                k = f"{name}/skip:{s}"
                res["labels"][k] = res["labels"].get(k, 0) + 1
                return
            except Violation as v:
                if v.key in known:
                    res["known"].setdefault(v.key, {"case": case, "msg": str(v)})
                    return
                if "first" not in fail:
                    fail["stop_at"] = time.time() + 4 * SHRINK_SECONDS
                fail["first"] = fail.get("first", True)
                fail["case"], fail["msg"] = case, str(v)
                # one identity for every violation of a part, so that shrinking may
                # move between messages
                raise AssertionError("violation") from None
            for lab in ctx.labels:
                k = f"{name}/{lab}"
                res["labels"][k] = res["labels"].get(k, 0) + 1
            if ctx.nontriv and h not in res["nontrivial"]:
                res["nontrivial"][h] = 1
                st["nontrivial"] += 1
                if len(res["samples"].setdefault(name, [])) < 2:
                    res["samples"][name].append(case)

        phases = (Phase.generate,) if os.environ.get("VERIF_NOSHRINK") else \
            (Phase.generate, Phase.shrink)
        sseed = int(hashlib.sha256(f"{seed}:{pid}:{name}:{idx}".encode()).hexdigest()[:15], 16)
        strat = part["cases"]
        strat = strat() if callable(strat) and not hasattr(strat, "example") else strat
        test = given(strat)(body)
        test = settings(max_examples=n, database=None, deadline=None, phases=phases,
                        report_multiple_bugs=False, print_blob=False, derandomize=False,
                        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                               HealthCheck.large_base_example])(test)
        test = hypothesis.seed(sseed)(test)
        try:
            test()
        except BaseException as e:  # noqa
            if "case" in fail and not isinstance(e, KeyboardInterrupt):
                res["failures"].append({"part": name, "case": fail["case"], "msg": fail["msg"]})
            else:
                res["error"] = f"part {name}: " + "".join(
                    traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
                break
        st["wall_s"] = round(time.time() - t0, 2)
        res["parts"][name] = st
    with open(os.path.join(outdir, f"shard{idx}.json"), "w") as f:
        json.dump(res, f)
    return 0


# ------------------------------------------------------------------ main

def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--shards", type=int, default=NSHARDS)
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--shard", type=int, default=None)
    ap.add_argument("--out")
    a = ap.parse_args(argv)
    if a.list:
        for f in sorted(glob.glob(os.path.join(HERE, "props", "c*.py"))):
            m = importlib.import_module("props." + os.path.basename(f)[:-3])
            print(m.ID, m.TITLE)
        return 0
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.shard is not None:
        return shard(a.pid, seed, a.shard, a.shards, tier, a.scale, a.out)
    if a.replay:
        return replay(a.pid, a.replay)
    return parent(a.pid, seed, tier, a)


def replay(pid, path):
    d = json.load(open(path))
    mod = load(pid)
    part = {p["name"]: p for p in mod.PARTS}[d["part"]]
    try:
        run_case(part, d["case"])
    except Skip as s:
        print(f"skipped: {s}")
        return 0
    except Violation as v:
        if v.key in {k["key"] for k in known_findings(pid)}:
            print(f"KNOWN-FINDING: property={pid} {v}")
            return 0
        print(v)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("held")
    return 0


def parent(pid, seed, tier, a):
    t0 = time.time()
    mod = load(pid)
    assert mod.ID == pid, (mod.ID, pid)
    out = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return _parent(pid, seed, tier, a, mod, out, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def _parent(pid, seed, tier, a, mod, out, t0):
    procs = []
    env = dict(os.environ, VERIF_INNER="1", TMPDIR=out)
    for i in range(a.shards):
        d = os.path.join(out, f"cwd{i}")
        os.mkdir(d)
        err = open(os.path.join(out, f"err{i}"), "w")
        procs.append(subprocess.Popen(
            [sys.executable, os.path.join(HERE, "check.py"), pid, "--shard", str(i), "--shards",
             str(a.shards), "--seed", str(seed), "--tier", tier, "--scale", str(a.scale),
             "--out", out], cwd=d, env=dict(env, MPLCONFIGDIR=os.path.join(d, "mpl")),
            stdout=err, stderr=err))
    limit = 860 if tier == "quick" else 6 * 3600
    deadline = t0 + limit
    timeout = False
    for p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timeout = True
            p.kill()
            p.wait()
    shards, errors = [], []
    for i in range(a.shards):
        f = os.path.join(out, f"shard{i}.json")
        if os.path.exists(f):
            r = json.load(open(f))
            shards.append(r)
            if r["error"]:
                errors.append(f"shard {i}: {r['error']}")
        else:
            errors.append(f"shard {i} gave no result (exit {procs[i].returncode}): "
                          + open(os.path.join(out, f"err{i}")).read()[-2000:])
    labels, parts, nontriv, samples, known = {}, {}, set(), [], {}
    for r in shards:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["parts"].items():
            p = parts.setdefault(k, {"evaluations": 0, "skipped": 0, "cpu_s": 0.0})
            p["evaluations"] += v["evaluations"]
            p["skipped"] += v["skipped"]
            p["cpu_s"] = round(p["cpu_s"] + v["wall_s"], 1)
        nontriv.update(r["nontrivial"])
        known.update(r["known"])
    for k in parts:
        parts[k]["distinct_nontrivial"] = sum(1 for h in nontriv if h.startswith(k + ":"))
        for r in shards:
            if r["samples"].get(k):
                samples.append({"part": k, "case": r["samples"][k][0]})
                break
    fails = [f for r in shards for f in r["failures"]]
    fails.sort(key=lambda f: len(json.dumps(f["case"])))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in shards),
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": samples,
            "skipped_out_of_domain": sum(r["skipped"] for r in shards),
            "parts": parts,
            "classes": dict(sorted(labels.items())),
            "shards": a.shards,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print(f"{pid} {mod.TITLE}: {ev['coverage']['evaluations']} cases, "
          f"{len(nontriv)} distinct non-trivial, {ev['wall_s']} s")
    for k in known_findings(pid):
        if k["key"] in known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if fails:
        f = fails[0]
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        path = os.path.join(HERE, "evidence", "replay",
                            f"{pid}-{f['part']}-{case_hash(f['case'])}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, **f}, fh, indent=1)
            fh.write("\n")
        print(f"part {f['part']}: {f['msg']}")
        print("case:", json.dumps(f["case"]))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors or timeout:
        for e in errors:
            print("ERROR:", e, file=sys.stderr)
        if timeout:
            print("ERROR: time limit reached, inconclusive", file=sys.stderr)
        return 2
    return 0
