"""What the simulations print and how objects present themselves."""
import contextlib
import io
import os
import re

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Skip
from harness.gen import fl, pick

ID = "C22"
TITLE = "Reports and representations describe the run and never change it"
TECHNIQUE = "property-based testing (Hypothesis): metamorphic relation between silent and reporting runs, parsed output"
RULE = ("random crystals and options of the three solvers, each run silently and with both print backends; random "
        "objects of every class and their repr(), before and after a run; non-trivial: two or more k points or layers")
ASSUMPTIONS = ["the text is only searched for the numbers and names it has to contain"]


@contextlib.contextmanager
def printing(name):
    import legume
    old = os.environ.get("COLUMNS")
    os.environ["COLUMNS"] = "250"
    legume.set_print_backend(name)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            yield out
    finally:
        legume.set_print_backend("rich")
        if old is None:
            os.environ.pop("COLUMNS", None)
        else:
            os.environ["COLUMNS"] = old


def has(ctx, text, *what):
    flat = re.sub(r"\s+", " ", text)
    for w in what:
        ctx.require(w in flat, lambda: f"report lacks {w!r}: {flat[-1500:]!r}")


def every(ctx, text, pattern, want):
    """The numbers are the same wherever the phrase is used."""
    got = {tuple(int(x) for x in (m if isinstance(m, tuple) else (m,))) for m in re.findall(pattern, re.sub(r"\s+", " ", text))}
    ctx.require(got <= {want}, lambda: f"{pattern!r}: {got} in the report, expected {want}")


def progress(ctx, text, nk, head):
    """Every k point is announced once, in order, and the text says which computation it is."""
    found = [(int(a), int(b)) for a, b in re.findall(re.escape(head) + r"[^\r\n]*? (\d+) of (\d+)", text)]
    ctx.require(found == [(i + 1, nk) for i in range(nk)], lambda: f"progress {found} of {nk} k points ({head})")


@st.composite
def cases(draw):
    cls = draw(pick("gme", "gme", "gme", "exc", "pol"))
    sym = cls == "gme" and draw(pick(False, False, True))
    kinds = ("square",) if sym else ("square", "hexagonal", "rect", "obl")
    p = draw(gen.phc(kinds=kinds, nlayers=(1, 2), max_shapes=1))
    if sym:
        p["layers"] = [dict(l, shapes=[{"t": "circle", "eps": 1., "x": 0., "y": 0., "r": 0.2}]) for l in p["layers"]]
    trunc = draw(pick("abs", "abs", "tbt"))
    modes = [0, 1] if sym else sorted(draw(st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True)))
    return {"cls": cls, "p": p, "trunc": trunc, "modes": modes, "sym": draw(pick("both", "odd", "even")) if sym else None,
            "gmax": draw(gen.gmax_abs(p["lat"], 3, 13) if trunc == "abs" else gen.gmax_tbt(p["lat"], 9)),
            "k": [draw(gen.kfrac()) for _ in range(draw(pick(1, 2, 3, 4, 4, 25)))], "n": draw(st.integers(1, 3)),
            "solver": draw(pick("eigh", "eigh", "eigsh")) if cls == "gme" and not sym else "eigh",
            "compute": draw(pick("exact", "exact", "interp", "Exact")), "im": draw(st.booleans()),
            "sparse": draw(st.booleans()), "sep": draw(pick(False, False, True)), "a": draw(fl(150, 900, 1)),
            "nw": draw(st.integers(1, 2)), "m": draw(st.integers(1, 3)),
            "bad": draw(pick("Rich", "", "numpy", "basic", None, 1))}


def flat(x):
    if isinstance(x, dict):
        return [y for k in sorted(x) for y in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in flat(v)]
    return [np.asarray(x).ravel()]


def one(c, verbose):
    """A run of a fresh object: the results and the object."""
    import legume
    phc = gen.build_phc(c["p"])
    ks = gen.kpts(c["p"]["lat"], c["k"])
    n = c["n"]
    if c["sym"]:
        ks = np.array([0.3 + 0.4 * np.arange(ks.shape[1]), np.zeros(ks.shape[1])])
    g = {"gmode_inds": list(c["modes"]), "numeig": n, "gmode_compute": c["compute"], "eig_solver": c["solver"],
         "compute_im": c["im"]}
    if c["sym"]:
        g.update(kz_symmetry=c["sym"], symm_thr=1e-6, use_sparse=c["sparse"],
                 angles=np.zeros(ks.shape[1]))
    z = 0.5 * c["p"]["layers"][0]["d"]
    w = dict(z=z, V_shapes=0.005, a=c["a"] * 1e-9, M=2e-31, E0=1.5, loss=1e-5)
    np.random.seed(0)
    if c["cls"] == "gme":
        o = legume.GuidedModeExp(phc, gmax=c["gmax"], truncate_g=c["trunc"])
        o.run(kpoints=ks, verbose=verbose, **g)
        out = [o.freqs, o.eigvecs if c["solver"] != "eigsh" else []]
        if c["im"]:
            out += [o.freqs_im, o.rad_coup if c["solver"] != "eigsh" else [], o.rad_gvec]
        return out, o, ks
    if c["cls"] == "exc":
        o = legume.ExcitonSchroedEq(phc, gmax=c["gmax"], truncate_g=c["trunc"], **w)
        o.run(kpoints=ks, verbose_ex=verbose, numeig_ex=min(c["m"], o.gvec.shape[1]))
        return [o.eners, o.eigvecs], o, ks
    for i in range(c["nw"]):
        phc.add_qw(osc_str=[1e16 * (i + 1), 2e16, 0.], **w)
    o = legume.HopfieldPol(phc, gmax=c["gmax"], truncate_g=c["trunc"])
    o.run(gme_options=dict(g, verbose=verbose), exc_options={"verbose_ex": verbose,
          "numeig_ex": min(c["m"], o.gme.gvec.shape[1])}, kpoints=ks, verbose=verbose)
    if c["solver"] == "eigsh":
        return [o.eners, o.eners_im], o, ks
    return [o.eners, o.eners_im, o.fractions_ex, o.fractions_ph], o, ks


TIME = re.compile(r"(\d+\.\d+)\s*s?\b[^\n%]*?(\d+)\s*%")


def timing(ctx, text):
    """Every step of a report takes the stated part of the total time of the table."""
    steps, total, h = [], None, 6e-4
    for line in text.splitlines():
        m = TIME.search(line)
        if "otal time" in line and "real part" not in line:
            continue
        t = re.search(r"(\d+\.\d+)\s*s? +total time", line)
        if t:
            total = float(t.group(1))
            h = 0.6 / 10**len(t.group(1).split(".")[1])
        elif m and "Total" in line:
            total = float(m.group(1))
            h = 0.6 / 10**len(m.group(1).split(".")[1])
            ctx.require(m.group(2) == "100", lambda: f"the total is not 100 %: {line!r}")
        elif m:
            steps.append((float(m.group(1)), float(m.group(2)), line))
    for sec, pct, line in steps:
        ctx.require(0 <= pct <= 101, lambda: f"percentage in {line!r}")
        if total is not None and total > 10 * h:
            err = 100 * h * (1 + sec / total) / (total - h) + 0.51
            ctx.label("percentages")
            ctx.require(abs(pct - 100 * sec / total) <= err, lambda: f"{line!r} of {total} s in total")


def check_reports(c, ctx):
    import legume
    from legume import print_backend as pb
    nk = len(c["k"])
    runs = {}
    for name in ("rich", "base"):
        for verbose in (False, True):
            with printing(name) as out:
                try:
                    runs[name, verbose] = one(c, verbose)
                except (ValueError, RuntimeError) as e:
                    msg = str(e)
                    if any(w in msg for w in ("guided modes", "numeig", "purely")):
                        raise Skip("not enough guided modes")
                    raise
                text = out.getvalue()
            if not verbose:
                ctx.require(text == "", lambda: f"silent run printed {text[:300]!r}")
                continue
            o = runs[name, verbose][1]
            if c["cls"] == "gme":
                progress(ctx, text, nk, "Running gme")
                has(ctx, text, f"'{c['compute'].lower()}'", f"'{c['solver'].lower()}'")
                if c["sym"]:
                    has(ctx, text, ("sparse" if c["sparse"] else "dense") + " matrices")
                every(ctx, text, r"(\d+) guided modes", (len(c["modes"]),))
                every(ctx, text, r"(\d+) plane waves", (o.gvec.shape[1],))
                every(ctx, text, r"(\d+) k-points", (nk,))
                every(ctx, text, r"for (\d+) eigenmodes", (np.size(o.freqs),))
                if name == "rich":
                    has(ctx, text, f"GuidedModeExp: {o.gvec.shape[1]} plane waves and {len(c['modes'])} guided modes",
                        f"real part of frequencies for {nk} k-points")
                else:
                    has(ctx, text, "total time for real part of frequencies")
                timing(ctx, text)
                if c["im"]:
                    if "losses" in text:
                        progress(ctx, text, nk, "Running GME losses")
                    has(ctx, text, "maginary part of frequencies")
                    if name == "rich":
                        has(ctx, text, f"for {np.size(o.freqs)} eigenmodes")
            elif c["cls"] == "exc":
                progress(ctx, text, nk, "Running ESE")
                has(ctx, text, "otal time for excitonic energies")
                timing(ctx, text)
                if name == "rich":
                    has(ctx, text, f"{o.gvec.shape[1]} plane waves", f"for {nk} k-points")
            else:
                progress(ctx, text, nk, "Running HP")
                progress(ctx, text, nk, "Running gme")
                has(ctx, text, "otal time for matrix calculation")
                if name == "rich":
                    has(ctx, text, f"{c['n']} photonic modes, {c['nw']} active layers with "
                                   f"{min(c['m'], o.gme.gvec.shape[1])} excitonic modes")
    first = flat(runs["rich", False][0])
    for key, (res, _, _) in runs.items():
        got = flat(res)
        ctx.require(len(got) == len(first), f"results of {key} differ in number")
        for a, b in zip(got, first):
            tol = 1e-7 if c["solver"] == "eigsh" else 1e-12
            ctx.close(a, b, f"results with printing {key}", tol, tol)
    before = repr(pb)
    try:
        legume.set_print_backend(c["bad"])
    except ValueError:
        ctx.require(repr(pb) == before, "rejected print backend was set")
    else:
        legume.set_print_backend("rich")
        ctx.require(False, f"print backend {c['bad']!r} accepted")
    for name in ("base", "rich"):
        legume.set_print_backend(name)
        ctx.require(repr(pb).lower().startswith(name), f"print backend {name} is {pb!r}")
    ctx.label(c["cls"], *(["kz_symmetry"] if c["sym"] else []), *(["losses"] if c["im"] else []))
    ctx.nontrivial(nk > 1)


# ------------------------------------------------------------ repr

@st.composite
def repr_cases(draw):
    p = draw(gen.phc(nlayers=(0, 3), max_shapes=2, clad_shapes=True))
    wells = [{"z": draw(fl(0.01, 0.09)), "V": draw(fl(-20, 20, 10)), "M": draw(fl(0.05, 1, 100)),
              "E0": draw(fl(0.4, 3, 100)), "loss": draw(fl(0, 5, 10)), "f": draw(pick(None, "list"))}
             for _ in range(draw(st.integers(0, 2)))] if p["layers"] else []
    return {"p": p, "wells": wells, "a": draw(fl(150, 900, 1)), "gmax": draw(fl(0.3, 1.4)),
            "opt": {"gmode_compute": draw(pick("exact", "interp")), "gmode_inds": [0],
                    "gmode_step": draw(pick(1e-2, 5e-3)), "gradients": draw(pick("exact", "approx")),
                    "eig_solver": "eigh", "eig_sigma": draw(pick(0., 0.2)),
                    "eps_eff": draw(pick("average", "background"))},
            "numeig": draw(st.integers(1, 2)), "pol": draw(pick("te", "tm")), "eff": draw(pick(None, 5.5)),
            "run": draw(st.booleans()), "trunc": draw(pick("abs", "tbt"))}


def numbers(text):
    return [float(x) for x in re.findall(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?", text)]


def contains(ctx, text, pairs, what):
    """`name = value` for every pair, the value rounded as it likes to three digits or better."""
    for k, v in pairs:
        m = re.search(r"\b" + re.escape(k) + r" = ([^\s,()]+)", text)
        ctx.require(m is not None, lambda: f"{what}: {k} not in {text!r}")
        ctx.close(float(m.group(1)), float(v), f"{what}: {k} in {text!r}", 6e-3, 6e-3)


def shape_repr(ctx, s, sh):
    t = repr(sh)
    name = {"circle": "Circle", "ellipse": "Ellipse", "square": "Square", "hexagon": "Hexagon", "poly": "Poly",
            "fourier": "FourierShape"}.get(s["t"])
    if name:
        ctx.require(t.startswith(name), lambda: f"{name} is presented as {t!r}")
    contains(ctx, t, [("eps", s["eps"])], s["t"])
    if s["t"] in ("circle", "ellipse"):
        contains(ctx, t, [(k, s[k]) for k in ("x", "y", "r", "rx", "ry", "phi") if k in s], s["t"])
    elif s["t"] in ("square", "hexagon"):
        contains(ctx, t, [("x_cent", s["x"]), ("y_cent", s["y"]), ("a", s["a"])], s["t"])
    elif s["t"] == "fourier":
        contains(ctx, t, [("x_cent", s["x"]), ("y_cent", s["y"]), ("npts", s["n"])], s["t"])
    elif s["t"] == "poly":
        v = numbers(t.split("x_edges", 1)[1])
        pts = np.array(s["pts"], float)
        for w in pts.ravel():
            ctx.require(np.min(np.abs(np.array(v) - w)) < 1e-4, lambda: f"poly: vertex {w} not in {t!r}")
    return t


def options(ctx, text, want, what):
    for k, v in want.items():
        m = re.search(r"(?m)^\s*" + k + r" = (.*?), *$", text)
        ctx.require(m is not None, lambda: f"{what}: {k} not in {text!r}")
        try:
            got = eval(m.group(1), {"__builtins__": {}, "np": np, "array": np.array})
        except Exception as e:
            ctx.require(False, f"{what}: {m.group(1)!r} is not a value ({e})")
        if isinstance(v, str):
            ctx.require(isinstance(got, str) and got.lower() == v.lower(), f"{what}: {k} = {got!r}, was {v!r}")
        else:
            ctx.close(got, v, f"{what}: {k}", 1e-12, 0)


def check_repr(c, ctx):
    import legume
    p = c["p"]
    phc = gen.build_phc(p)
    a1, a2 = gen.lat_vectors(p["lat"])
    for w in c["wells"]:
        phc.add_qw(z=w["z"], V_shapes=w["V"] * 1e-3, a=c["a"] * 1e-9, M=w["M"] * 9.1e-31, E0=w["E0"],
                   loss=w["loss"] * 1e-3, osc_str=[1e16, 1e16, 0.])
    t = repr(phc.lattice)
    ctx.close(numbers(re.sub(r"a[12]", "", t)), np.concatenate((a1, a2)), f"lattice {t!r}", 0, 1.1e-4)
    parts = []
    def balanced(text):
        for a, b in ("()", "[]"):
            ctx.require(text.count(a) == text.count(b), lambda: f"brackets in {text!r}")
    for l, lay in zip(p["layers"] + [{"eps_b": p["eps_l"], "shapes": p["clad"][0]},
                                     {"eps_b": p["eps_u"], "shapes": p["clad"][1]}],
                      phc.layers + phc.claddings):
        shp = [shape_repr(ctx, s, sh) for s, sh in zip(l["shapes"], lay.shapes)]
        t = repr(lay)
        contains(ctx, t, [(k, l[k]) for k in ("eps_b", "d") if k in l], "layer")
        at = [t.find(x) for x in shp]
        ctx.require(min(at, default=0) >= 0 and at == sorted(at), lambda: f"layer {t!r} lacks a shape of {shp}")
        balanced(t)
        parts.append(t)
    t = repr(phc)
    balanced(t)
    qs = [repr(q) for q in phc.qws]
    for w, q in zip(c["wells"], qs):
        contains(ctx, q, [("z", w["z"]), ("V_shapes", w["V"] * 1e-3), ("E0", w["E0"]), ("loss", w["loss"] * 1e-3),
                          ("a", c["a"])], "well")
    at = 0
    for x in [repr(phc.lattice)] + parts[:-2] + qs:
        at = t.find(x, at)
        ctx.require(at >= 0, lambda: f"crystal {t!r} lacks {x!r}")
        at += len(x)
    ks = np.array([[0.3], [0.2]])
    if p["layers"]:
        g = legume.GuidedModeExp(phc, gmax=c["gmax"], truncate_g=c["trunc"])
        options(ctx, repr(g), {"gmax": c["gmax"]}, "GuidedModeExp")
        for name in ("freqs", "freqs_im", "eigvecs", "kpoints"):
            ctx.require(len(getattr(g, name)) == 0, f"GuidedModeExp.{name} is not empty before a run")
        w = legume.PlaneWaveExp(phc.layers[0], gmax=c["gmax"], eps_eff=c["eff"])
        eff = {"gmax": c["gmax"], "eps_eff": c["eff"] or p["layers"][0]["eps_b"]}
        options(ctx, repr(w), eff, "PlaneWaveExp")
        for name in ("freqs", "eigvecs", "kpoints"):
            ctx.require(len(getattr(w, name)) == 0, f"PlaneWaveExp.{name} is not empty before a run")
        if c["run"]:
            w.run(kpoints=ks, pol=c["pol"], numeig=1)
            options(ctx, repr(w), eff, "PlaneWaveExp after a run")
            try:
                g.run(kpoints=ks, numeig=c["numeig"], verbose=False, compute_im=False, **c["opt"])
            except (ValueError, RuntimeError) as e:
                if "numeig" not in str(e) and "guided" not in str(e):
                    raise
                ctx.label("no guided modes")
            else:
                options(ctx, repr(g), dict(c["opt"], gmax=c["gmax"]), "GuidedModeExp after a run")
    for i, q in enumerate(c["wells"]):
        e = legume.ExcitonSchroedEq(phc, z=q["z"], V_shapes=q["V"] * 1e-3, a=c["a"] * 1e-9, M=q["M"] * 9.1e-31,
                                    E0=q["E0"], loss=q["loss"] * 1e-3, gmax=c["gmax"], truncate_g=c["trunc"],
                                    osc_str=[1e16, 2e16, 3e15] if q["f"] else None)
        t = repr(e)
        contains(ctx, t, [("gmax", c["gmax"]), ("E0", q["E0"]), ("z", q["z"]), ("V_shapes", q["V"] * 1e-3)], "exciton")
        m = re.search(r"\ba = (\S+) m", t)
        ctx.require(m and abs(float(m.group(1)) / (c["a"] * 1e-9) - 1) < 1e-3, lambda: f"lattice constant in {t!r}")
        m = re.search(r"\bM = (\S+) kg", t)
        ctx.require(m and abs(float(m.group(1)) / (q["M"] * 9.1e-31) - 1) < 1e-2, lambda: f"mass in {t!r}")
        m = re.search(r"\bloss = (\S+) (\w*eV)", t)
        unit = {"eV": 1., "meV": 1e-3, "ueV": 1e-6}
        ctx.require(m and m.group(2) in unit and abs(float(m.group(1)) * unit[m.group(2)] - q["loss"] * 1e-3) < 1e-9,
                    lambda: f"losses {q['loss']} meV in {t!r}")
        if q["f"]:
            v = numbers(t.split("osc_str", 1)[1])[:3] if "osc_str" in t else []
            ctx.close(v, [1e16, 2e16, 3e15], "oscillator strength", 1e-3, 0)
        for name in ("eners", "eigvecs", "kpoints"):
            ctx.require(len(getattr(e, name)) == 0, f"ExcitonSchroedEq.{name} is not empty before a run")
    if c["wells"]:
        h = legume.HopfieldPol(phc, gmax=c["gmax"], truncate_g=c["trunc"])
        t = repr(h)
        options(ctx, t, {"gmax": c["gmax"]}, "HopfieldPol")
        ctx.close([float(x) for x in re.findall(r"\bz = ([-\d.eE]+)", t)], [q["z"] for q in c["wells"]],
                  "heights of the wells", 0, 1e-5)
        for name in ("eners", "eners_im", "eigvecs", "fractions_ex", "fractions_ph", "kpoints"):
            ctx.require(len(getattr(h, name)) == 0, f"HopfieldPol.{name} is not empty before a run")
    for name, sub in (("numpy", "Numpy"), ("autograd", "Autograd")):
        legume.set_backend(name)
        ctx.require(repr(legume.backend).startswith(sub), f"backend {name} is {legume.backend!r}")
    legume.set_backend("numpy")
    ctx.nontrivial(len(p["layers"]) > 1)


PARTS = [
    {"name": "reports", "cases": cases(), "check": check_reports, "quick": 160, "thorough": 6000},
    {"name": "repr", "cases": repr_cases(), "check": check_repr, "quick": 400, "thorough": 12000},
]
