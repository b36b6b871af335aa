"""Mutation campaign (development tool, no registered check uses it): plants small random changes in
scratch copies of legume and reports those that no check notices.

    python tools/mutate.py OUT.jsonl N [--seed S] [--files gme.py,..] [--jobs 8]
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "phc/lattice.py": ["C01", "C21", "C03"], "phc/shapes.py": ["C02", "C03", "C22", "C14", "C13"],
    "phc/layer.py": ["C03", "C15", "C22", "C13"], "phc/phc.py": ["C03", "C16", "C22", "C19"],
    "pwe/pwe.py": ["C04", "C12", "C21", "C22", "C14", "C19"],
    "gme/slab_modes.py": ["C05", "C06", "C11", "C10", "C13", "C14"],
    "gme/gme.py": ["C06", "C10", "C09", "C11", "C08", "C12", "C21", "C22", "C13", "C14"],
    "gme/matrix_elements.py": ["C06", "C10"],
    "exc/exc.py": ["C15", "C21", "C22", "C12", "C13"], "pol/pol.py": ["C16", "C22", "C12", "C13"],
    "minimize.py": ["C17"], "gds.py": ["C18"], "viz.py": ["C19"], "utils.py": ["C20", "C05", "C06"],
    "primitives.py": ["C14", "C13"], "backend.py": ["C13", "C14"], "print_utils.py": ["C22"],
    "print_backend.py": ["C22"], "constants.py": ["C20"],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
DROP = {"conj", "real", "abs", "transpose", "sqrt", "exp", "sum", "flatten", "ravel", "copy", "lower", "imag",
        "sort", "int_", "get_value", "norm", "eye", "square"}
SWAP = {"sin": "cos", "cos": "sin", "max": "min", "min": "max", "hstack": "vstack", "argmax": "argmin",
        "zeros": "ones", "ones": "zeros"}


def sites(tree):
    """(kind, node path) of every possible change."""
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and \
                isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
            doc.add(id(n.body[0]))
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((i, "cmp"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((i, "bin"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((i, "un"))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "bool"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float, complex)):
            out.append((i, "const"))
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if name in DROP and (n.args or isinstance(f, ast.Attribute)):
                out.append((i, "drop"))
            if name in SWAP:
                out.append((i, "swap"))
            if len(n.keywords) > 0:
                out.append((i, "kw"))
        elif isinstance(n, ast.Attribute) and n.attr in ("T", "real", "imag"):
            out.append((i, "attr"))
        elif isinstance(n, ast.AugAssign):
            out.append((i, "stmt"))
        elif isinstance(n, (ast.Expr, ast.Raise, ast.Continue, ast.Break)):
            out.append((i, "stmt"))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            out.append((i, "stmt"))
        elif isinstance(n, ast.If):
            out.append((i, "if"))
        elif isinstance(n, ast.Constant) and n.value in ("l", "u", "te", "tm", "odd", "even", "x", "y", "z"):
            out.append((i, "str"))
    return out


def mutate(src, site, kind, rng):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[site]
    line = getattr(n, "lineno", 0)

    class T(ast.NodeTransformer):
        def generic_visit(self, node):
            if node is n:
                return self.change(node)
            return super().generic_visit(node)

        def visit(self, node):
            if node is n:
                return self.change(node)
            return super().generic_visit(node)

        def change(self, m):
            m = copy.deepcopy(m)
            if kind == "cmp":
                m.ops[0] = CMP[type(m.ops[0])]()
            elif kind == "bin":
                m.op = BIN[type(m.op)]()
            elif kind == "un":
                return m.operand
            elif kind == "bool":
                m.op = ast.And() if isinstance(m.op, ast.Or) else ast.Or()
            elif kind == "const":
                if isinstance(m.value, bool):
                    m.value = not m.value
                elif isinstance(m.value, int):
                    m.value = rng.choice([m.value + 1, 0 if m.value else 1])
                else:
                    m.value = m.value * rng.choice([2, -1, 0.5])
            elif kind == "drop":
                return m.args[0] if m.args else m.func.value
            elif kind == "swap":
                if isinstance(m.func, ast.Attribute):
                    m.func.attr = SWAP[m.func.attr]
                else:
                    m.func.id = SWAP[m.func.id]
            elif kind == "kw":
                m.keywords.pop(rng.randrange(len(m.keywords)))
            elif kind == "attr":
                return m.value
            elif kind == "stmt":
                return ast.Pass()
            elif kind == "if":
                m.test = ast.Constant(rng.choice([True, False]))
            elif kind == "str":
                m.value = {"l": "u", "u": "l", "te": "tm", "tm": "te", "odd": "even", "even": "odd",
                           "x": "y", "y": "x", "z": "x"}[m.value]
            return m
    new = ast.fix_missing_locations(T().visit(tree))
    return ast.unparse(new), line


def diff(a, b):
    import difflib
    return "".join(l for l in difflib.unified_diff(
        ast.unparse(ast.parse(a)).splitlines(1), b.splitlines(1), n=2))[:1500]


def run(job, args):
    rel, site, kind, seed, idx = job
    src = open(os.path.join("/repo/legume", rel)).read()
    try:
        new, line = mutate(src, site, kind, random.Random(seed))
    except Exception as e:
        return None
    d = diff(src, new)
    if not d:
        return None
    root = f"/tmp/mut/w{os.getpid()}_{idx}"
    os.makedirs(root)
    shutil.copytree("/repo/legume", root + "/legume", ignore=shutil.ignore_patterns("__pycache__"))
    with open(os.path.join(root, "legume", rel), "w") as f:
        f.write(new)
    res = {"file": rel, "line": line, "kind": kind, "site": site, "seed": seed, "killed": None, "diff": d}
    env = dict(os.environ, VERIF_REPO=root, VERIF_NOSHRINK="1", PYTHONDONTWRITEBYTECODE="1")
    try:
        for c in CHECKS[rel]:
            sc = args.scale * (0.5 if c in ("C14", "C13", "C12", "C22") else 1)
            try:
                p = subprocess.run([sys.executable, os.path.join(args.verif, "check.py"), c, "--shards", "1",
                                    "--scale", str(sc), "--seed", str(idx)], env=env, capture_output=True,
                                   text=True, timeout=600)
            except subprocess.TimeoutExpired:
                res["killed"] = c + " (timeout)"
                break
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                res["killed"] = c
                break
            if p.returncode not in (0, 1):
                res["error"] = res.get("error", "") + c + ": " + (p.stdout + p.stderr)[-600:]
    finally:
        shutil.rmtree(root, ignore_errors=True)
    with open(args.out, "a") as f:
        f.write(json.dumps(res) + "\n")
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("n", type=int)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--files", default="")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--scale", type=float, default=0.12)
    ap.add_argument("--verif", default=HERE)
    args = ap.parse_args()
    rng = random.Random(args.seed)
    jobs = []
    for rel in CHECKS:
        if args.files and not any(f == rel or rel.endswith(f) for f in args.files.split(",")):
            continue
        src = open(os.path.join("/repo/legume", rel)).read()
        for s, k in sites(ast.parse(src)):
            jobs.append((rel, s, k))
    rng.shuffle(jobs)
    print(len(jobs), "sites")
    jobs = [(r, s, k, rng.randrange(10**6), i) for i, (r, s, k) in enumerate(jobs[:args.n])]
    os.makedirs("/tmp/mut", exist_ok=True)
    with ThreadPoolExecutor(args.jobs) as ex:
        done = [r for r in ex.map(lambda j: run(j, args), jobs) if r]
    print(len(done), "mutants,", sum(1 for r in done if not r["killed"]), "survived")


main()
