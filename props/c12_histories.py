"""Histories of operations on shared objects against fresh objects (model: no memory)."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C12"
TITLE = "Results depend on the inputs of the last run only, which stay unmodified"
RULE = ("1..2 crystals, 1..4 expansion objects (guided-mode, plane-wave, exciton, polariton) that may "
        "share them, histories of 2..9 operations (runs with random options and k points, run_im, "
        "compute_rad, fields, permittivities, plots, change of backend); after every run the object "
        "is compared with a fresh one; crystals that grow between runs; sequences of readings (fields, losses, permittivities) repeated and "
        "compared, all public results before and after; non-trivial: at least two runs of "
        "one object that differ, or a shape added after a run")
ASSUMPTIONS = ["in the histories, crystals are not changed by the user between operations (in the part 'growing' they are)",
               "results are compared to 1e-9 (iterative solver: 1e-7)"]
TECHNIQUE = ("stateful property-based testing (Hypothesis) against the model 'a run has no memory': "
             "every run of a shared object is compared with a fresh object")
E_CHARGE = 1.602176634e-19


# ---------------------------------------------------------------- generation

@st.composite
def crystal(draw):
    kind = draw(pick("square", "square", "hexagonal", "rect"))
    lat = draw(gen.lattice((kind,)))
    p = draw(gen.phc(lat=lat, nlayers=(1, 2), max_shapes=0, eps_slab=(9., 13.)))
    sym = draw(st.booleans())
    if sym:
        r = gen.shortest(*gen.lat_vectors(lat))
        p["layers"][0]["shapes"] = [{"t": "circle", "eps": draw(fl(1, 5, 100)), "x": 0., "y": 0.,
                                     "r": draw(fl(0.15, 0.3)) * r}]
    else:
        for l in p["layers"]:
            l["shapes"] = draw(gen.shapes_in_cell(lat, 2, gen.SHAPES, fl(1, 6, 100), fill=0.8, nmin=1))
    n = len(p["layers"])
    qws = [{"z": draw(fl(0.1, 0.9)), "lay": draw(st.integers(0, n - 1)),
            "V": draw(fl(0, 3, 100)) / 1e3, "f": [draw(pick(0, 1, 4)) for _ in range(3)]}
           for _ in range(draw(st.integers(1, 2)))]
    return {"p": p, "sym": sym, "custom": [draw(fl(1, 1.5, 100))] + [draw(fl(8, 12, 100)) for _ in range(n)]
            + [draw(fl(1, 1.5, 100))], "qws": qws}


@st.composite
def gme_opts(draw, sym):
    o = {"gmode_inds": draw(pick([0], [1], [0, 1], [0, 1, 2], [0, 3], [1, 2]))}
    if draw(pick(True, True, True, False)):
        o["numeig"] = draw(st.integers(1, 4))
    o["compute_im"] = draw(pick(True, False))
    o["eps_eff"] = draw(pick("average", "background", "custom"))
    o["gradients"] = draw(pick("exact", "approx"))
    o["gmode_compute"] = draw(pick("exact", "exact", "interp"))
    o["gmode_npts"] = draw(pick(60, 90))
    o["gmode_step"] = draw(pick(1e-2, 8e-3))
    o["eig_solver"] = draw(pick("eigh", "eigh", "eigh", "eigsh"))
    o["eig_sigma"] = draw(pick(0., 0., 0.3))
    o["only_gmodes"] = draw(pick(False, False, False, True))
    if sym:
        o["kz_symmetry"] = draw(pick(None, "both", "even", "odd"))
        if o["kz_symmetry"]:
            o["gmode_inds"] = draw(pick([0, 1], [0, 1, 2], [0, 3], [1, 2]))
        o["use_sparse"] = draw(st.booleans())
        o["symm_thr"] = 1e-4
    drop = draw(st.lists(st.sampled_from(["compute_im", "eps_eff", "gradients", "gmode_compute", "only_gmodes",
                                          "gmode_step", "eig_solver", "eig_sigma", "gmode_npts", "gmode_inds",
                                          "kz_symmetry", "use_sparse"]), max_size=9, unique=True))
    return {k: v for k, v in o.items() if k not in drop}


@st.composite
def cases(draw):
    crystals = [draw(crystal()) for _ in range(draw(pick(1, 1, 2)))]
    objs = []
    for _ in range(draw(st.integers(1, 4))):
        objs.append({"t": draw(pick("gme", "gme", "gme", "pwe", "exc", "pol")),
                     "c": draw(st.integers(0, len(crystals) - 1)),
                     "trunc": draw(pick("abs", "abs", "tbt")), "g": draw(pick(1.05, 1.3, 1.3, 1.55))})
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        o = draw(st.integers(0, len(objs) - 1))
        t = objs[o]["t"]
        sym = crystals[objs[o]["c"]]["sym"]
        what = draw(pick("run", "run", "run", "use", "backend") if t != "gme" else
                    pick("run", "run", "run", "im", "rad", "use", "use", "backend"))
        op = {"op": what, "o": o}
        if what == "run":
            op["k"] = [[draw(fl(0.05, 0.45)), 0. if sym else draw(fl(-0.4, 0.4))]
                       for _ in range(draw(st.integers(1, 3)))]
            if t == "gme" or t == "pol":
                op["opts"] = draw(gme_opts(sym and t == "gme"))
                if t == "pol":
                    op["opts"]["compute_im"] = True
                    op["opts"].setdefault("numeig", 3)
                    # degenerate photon modes: the iterative solver starts from random vectors
                    op["opts"].pop("eig_solver", None)
                    op["ex"] = {"numeig_ex": draw(st.integers(1, 3))} if draw(pick(True, True, True, False)) else {}
            elif t == "pwe":
                op["opts"] = {k: v for k, v in (("pol", draw(pick("te", "tm", "TM"))),
                                                ("numeig", draw(st.integers(1, 4)))) if draw(st.booleans())}
            else:
                op["opts"] = {"numeig_ex": draw(st.integers(1, 5))} if draw(st.booleans()) else {}
        else:
            op["a"] = draw(st.integers(0, 5))
            op["b"] = draw(st.integers(0, 3))
        ops.append(op)
    return {"crystals": crystals, "objs": objs, "ops": ops}


# ---------------------------------------------------------------- interpretation

def build_crystal(c):
    ph = gen.build_phc(c["p"])
    for lay, e in zip([ph.claddings[0]] + list(ph.layers) + [ph.claddings[1]], c["custom"]):
        lay.eps_eff = e
    for q in c["qws"]:
        l = ph.layers[q["lay"]]
        ph.add_qw(z=l.z_min + q["z"] * (l.z_max - l.z_min), V_shapes=q["V"], a=400e-9, M=2e-31, E0=1.6,
                  loss=1e-4, osc_str=[x * 1e16 for x in q["f"]])
    return ph


def build_obj(o, c, ph):
    import legume
    per = gen.shortest(*gen.lat_vectors(c["p"]["lat"]))
    gmax = o["g"] / per
    if o["t"] == "gme":
        return legume.GuidedModeExp(ph, gmax=gmax, truncate_g=o["trunc"])
    if o["t"] == "pwe":
        return legume.PlaneWaveExp(ph.layers[0], gmax=gmax)
    if o["t"] == "pol":
        return legume.HopfieldPol(ph, gmax, truncate_g=o["trunc"])
    q = ph.qws[0]
    return legume.ExcitonSchroedEq(phc=ph, z=q.z, V_shapes=q.V_shapes, a=q.a, M=q.M, E0=q.E0, loss=q.loss,
                                   osc_str=q.osc_str, gmax=gmax, truncate_g=o["trunc"])


def state(x):
    """Plain nested copy of the user-visible data of shapes, layers, crystals."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tolist())
    if isinstance(x, (list, tuple)):
        return [state(v) for v in x]
    if isinstance(x, dict):
        return {str(k): state(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, complex, bool, type(None), np.generic)):
        return x
    if hasattr(x, "__dict__") and type(x).__module__.startswith("legume"):
        return {k: state(v) for k, v in sorted(vars(x).items())}
    return repr(type(x))


RESULTS = {
    "gme": ["freqs", "freqs_im", "unbalance_sp", "kz_symms", "kpoints", "gvec", "rad_coup", "rad_gvec",
            "gmode_inds", "gmode_include", "numeig", "compute_im", "eps_eff", "gradients", "gmode_compute",
            "gmode_step", "eig_solver", "eig_sigma", "kz_symmetry", "only_gmodes", "gmode_npts",
            "use_sparse", "symm_thr"],
    "pwe": ["freqs", "kpoints", "pol", "numeig", "gvec"],
    "exc": ["eners", "kpoints", "numeig_ex", "gvec"],
    "pol": ["eners", "eners_im", "fractions_ex", "fractions_ph", "kpoints", "gvec"],
}


def results(t, obj):
    return {a: copy.deepcopy(getattr(obj, a, "missing")) for a in RESULTS[t]}


def differ(a, b, tol, path=""):
    """First difference between two results."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b)):
            return f"{path}: {str(a)[:80]} / {str(b)[:80]}"
        for k in a:
            d = differ(a[k], b[k], tol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return None if type(a) is type(b) and a == b else f"{path}: {a!r} / {b!r}"
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object or y.dtype == object:
            raise ValueError
    except ValueError:
        if len(a) != len(b):
            return f"{path}: {len(a)} / {len(b)} entries"
        for i, (u, v) in enumerate(zip(a, b)):
            d = differ(u, v, tol, f"{path}[{i}]")
            if d:
                return d
        return None
    if x.shape != y.shape:
        return f"{path}: shape {x.shape} / {y.shape}"
    if x.size and not np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
        i = int(np.argmax(np.abs(x - y)))
        return f"{path}: {x.ravel()[i]} / {y.ravel()[i]}"
    return None


def strip(t, r, opts):
    """Losses of single modes are not comparable when the eigenvectors are not unique."""
    r = dict(r)
    if t == "gme" and "rad_coup" in r and r["rad_coup"]:
        r["rad_coup"] = {k: [[np.abs(np.asarray(m)) for m in kk] for kk in v] for k, v in r["rad_coup"].items()}
    if opts.get("eig_solver") == "eigsh":
        for a in ("freqs_im", "rad_coup", "rad_gvec", "unbalance_sp"):
            r.pop(a, None)
    return r


def do_run(t, obj, op, lat):
    """Runs; returns (exception type or None, arguments passed)."""
    b1, b2 = gen.rec_vectors(*gen.lat_vectors(lat))
    ks = np.array([f[0] * b1 * (1 if f[1] else np.array([1., 0.])) + f[1] * b2 for f in op["k"]]).T
    if op["opts"].get("kz_symmetry") and lat["kind"] in ("square", "rect"):
        ks[1] = 0.
    args = {"kpoints": ks, **copy.deepcopy(op["opts"])}
    if t == "gme":
        args["verbose"] = False
        if op["opts"].get("kz_symmetry"):
            # along b1: a mirror plane of every lattice drawn here
            args["angles"] = np.full(ks.shape[1], 0. if lat["kind"] != "hexagonal" else
                                     float(np.round(np.degrees(np.arctan2(b1[1], b1[0])))))
    if t == "pol":
        args = {"gme_options": dict(copy.deepcopy(op["opts"]), verbose=False),
                "exc_options": dict(op["ex"], verbose_ex=False), "kpoints": ks, "verbose": False}
    if t == "exc":
        args["verbose_ex"] = False
    keep = copy.deepcopy(args)
    try:
        obj.run(**args)
        err = None
    except Exception as e:      # compared with the fresh object's
        err = type(e).__name__
    d = differ(state(args), state(keep), 0)
    return err, d


def use(t, obj, op, ph):
    """Reads something. Returns comparable values or the name of the exception."""
    a, b = op["a"], op["b"]
    try:
        if t == "gme":
            kind = b % max(1, len(obj.kpoints[0])) if len(obj.kpoints) else 0
            n = np.asarray(obj.freqs).shape[1] if len(obj.freqs) else 1
            m = b % n
            if op["op"] == "rad":
                r = obj.compute_rad_sp(kind, [m, 0])
                return [np.asarray(r[0]), [np.abs(x) for x in r[3]["l_te"]]]
            if a == 0:
                return np.abs(np.array(obj.ft_field_xy("H", kind, m, 0.03)))
            if a == 1:
                return obj.get_eps_xy(0.03, Nx=4, Ny=5)[0]
            if a == 2:
                return np.abs(obj.get_field_xz("e", kind, m, 0.1, Nx=3, Nz=4)[0]["x"])
            if a == 3:
                import matplotlib
                matplotlib.use("Agg")
                import matplotlib.pyplot as plt
                import legume
                fig = legume.viz.bands(obj, Q=False, trim_light_cone=bool(b % 2), figsize=(2, 2))
                plt.close("all")
                return 0
            if a == 4:
                return np.asarray(ph.get_eps((np.array([0.1, 0.2]), np.array([0.1, 0.3]), np.array([0.02, 0.03]))))
            return repr(obj).count("\n")
        if t == "pwe":
            if a < 2:
                return np.abs(np.array(obj.ft_field_xy("EH"[a], 0, 0)))
            if a < 4:
                return obj.get_eps_xy(Nx=4, Ny=3)[0]
            return np.abs(obj.get_field_xy("d", 0, 0, Nx=3, Ny=3)[0]["z"])
        if t == "exc":
            if a < 3:
                return np.abs(obj.get_wavef_xy(0, 0, Nx=4, Ny=4)[0])
            return obj.get_pot_xy(Nx=4, Ny=4)[0]
        if a < 3:
            return np.abs(np.array(obj.gme.ft_field_xy("E", 0, 0, 0.05)))
        return np.asarray(obj.exc_list[0].eners)
    except Exception as e:
        return type(e).__name__


def check(c, ctx):
    import legume
    for cr in c["crystals"]:
        p = cr["p"]
        i = refs.guided_info(p, 1.0, "abs", np.array([0.3, 0.]), [0])
        if i["contrast"] < 1.05:
            raise Skip("no index contrast")
    phs = [build_crystal(cr) for cr in c["crystals"]]
    objs = [build_obj(o, c["crystals"][o["c"]], phs[o["c"]]) for o in c["objs"]]
    prints = [state(ph) for ph in phs]
    last = [None] * len(objs)         # (run operation, backend, extra operations)
    res = [results(o["t"], x) for o, x in zip(c["objs"], objs)]
    runs = [[] for _ in objs]
    backend = "numpy"
    used = 0
    try:
        for step, op in enumerate(c["ops"]):
            i = op["o"]
            spec, obj = c["objs"][i], objs[i]
            t, cr = spec["t"], c["crystals"][spec["c"]]
            w = f"operation {step} ({op['op']} on {t} {i})"
            if op["op"] == "backend":
                backend = "autograd" if op["a"] % 2 else "numpy"
                legume.set_backend(backend)
                continue
            if op["op"] == "run":
                err, d = do_run(t, obj, op, cr["p"]["lat"])
                ctx.require(d is None, f"{w} modified its arguments: {d}")
                ph = build_crystal(cr)
                fresh = build_obj(spec, cr, ph)
                ferr, _ = do_run(t, fresh, op, cr["p"]["lat"])
                ctx.require(err == ferr, f"{w}: {err or 'no exception'}, a fresh object: {ferr or 'none'}")
                runs[i].append(op)
                if err:
                    ctx.label(f"{t} run refused: {err}")
                    last[i] = None
                    res[i] = results(t, obj)
                    continue
                last[i] = fresh
                tol = 1e-7 if op["opts"].get("eig_solver") == "eigsh" else 1e-9
                a, b = (strip(t, results(t, x), op["opts"]) for x in (obj, fresh))
                d = differ(a, b, tol, t)
                ctx.require(d is None, f"{w} with {op['opts']}: shared object / fresh object: {d}")
                res[i] = results(t, obj)
                ctx.label(t)
            else:
                if last[i] is None:
                    continue
                used += 1
                opts = runs[i][-1]["opts"]
                if op["op"] == "im":
                    obj.run_im()
                    last[i].run_im()
                    a, b = (strip(t, results(t, x), opts) for x in (obj, last[i]))
                    d = differ(a, b, 1e-9 if opts.get("eig_solver") != "eigsh" else 1e-7, t)
                    ctx.require(d is None, f"{w}: shared object / fresh object: {d}")
                    res[i] = results(t, obj)
                else:
                    a, b = use(t, obj, op, phs[spec["c"]]), use(t, last[i], op, phs[spec["c"]])
                    if opts.get("eig_solver") != "eigsh":
                        d = differ(a, b, 1e-8, w)
                        ctx.require(d is None, f"shared object / fresh object: {d}")
                    ctx.label(op["op"])
            for j, (o, x) in enumerate(zip(c["objs"], objs)):
                d = differ(results(o["t"], x), res[j], 0, f"{o['t']} {j}")
                ctx.require(d is None, f"{w} changed the results of {d}")
            for j, ph in enumerate(phs):
                d = differ(state(ph), prints[j], 0, f"crystal {j}")
                ctx.require(d is None, f"{w} changed {d}")
    finally:
        legume.set_backend("numpy")
    twice = any(len({repr(sorted(r.items(), key=str)) for r in rs}) > 1 for rs in runs)
    ctx.nontrivial(twice or (used and any(runs)))
    if twice:
        ctx.label("several runs of one object")
    if len({o["c"] for o in c["objs"]}) < len(objs):
        ctx.label("shared crystal")


# ---------------------------------------------------------------- crystals that grow between runs

@st.composite
def grow_cases(draw):
    lat = draw(gen.lattice(("square", "hexagonal", "rect", "obl")))
    p = draw(gen.phc(lat=lat, nlayers=(1, 2), max_shapes=0))
    n = len(p["layers"])
    fill = [draw(gen.shapes_in_cell(lat, 3, gen.SHAPES, fl(1, 13, 100), fill=0.85, nmin=1)) for _ in range(n)]
    more = [[i, s] for i, ss in enumerate(fill) for s in ss]
    ops = []
    while more:
        ops.append(["add"] + more.pop(draw(st.integers(0, len(more) - 1))))
        for _ in range(draw(st.integers(0, 2))):
            ops.append([draw(pick("pwe", "pwe", "gme", "eps", "ft")), draw(st.integers(0, n - 1)), None])
    ops.append(["pwe", draw(st.integers(0, n - 1)), None])
    return {"p": p, "ops": ops, "k": draw(gen.kfrac()), "pol": draw(pick("te", "tm")),
            "n": draw(st.integers(1, 3)), "g": draw(pick(1.05, 1.3, 1.6))}


def check_grow(c, ctx):
    """Objects made before a shape was added, against a crystal that had it from the start."""
    import legume
    p = copy.deepcopy(c["p"])
    ph = gen.build_phc(p)
    gmax = c["g"] / gen.shortest(*gen.lat_vectors(p["lat"]))
    pw = [legume.PlaneWaveExp(l, gmax=gmax) for l in ph.layers]
    ks = gen.kpts(p["lat"], [c["k"]])
    ran = late = 0
    for op, i, s in c["ops"]:
        if op == "add":
            ph.add_shape(gen.build_shape(s), layer=i)
            p["layers"][i]["shapes"].append(s)
            late += ran > 0
            continue
        ref = gen.build_phc(p)
        if op == "pwe":
            q = legume.PlaneWaveExp(ref.layers[i], gmax=gmax)
            for x in (pw[i], q):
                x.run(kpoints=ks, pol=c["pol"], numeig=c["n"])
            ctx.close(pw[i].freqs, q.freqs, "plane-wave frequencies after add_shape", 1e-9, 1e-9)
            ctx.close(pw[i].get_eps_xy(Nx=4, Ny=3)[0], q.get_eps_xy(Nx=4, Ny=3)[0], "permittivity after add_shape",
                      1e-9, 1e-9)
            ran += 1
        elif op == "gme":
            out = []
            for x in (ph, ref):
                try:
                    g = legume.GuidedModeExp(x, gmax=gmax)
                    g.run(kpoints=ks, gmode_inds=[0, 1], numeig=c["n"], verbose=False)
                    out.append([g.freqs, g.freqs_im])
                except (ValueError, RuntimeError) as e:
                    out.append(type(e).__name__)
            d = differ(out[0], out[1], 1e-9, "guided-mode expansion")
            ctx.require(d is None, f"crystal that grew / crystal made at once: {d}")
        elif op == "eps":
            z = np.array([0.3 * p["layers"][0]["d"]] * 3)
            xy = (np.array([0., 0.11, -0.27]), np.array([0.05, 0.3, 0.2]), z)
            ctx.close(ph.get_eps(xy), ref.get_eps(xy), "get_eps after add_shape", 0, 0)
        else:
            G = refs.gset(p["lat"], gmax, "abs")
            ctx.close(ph.layers[i].compute_ft(G), ref.layers[i].compute_ft(G), "Fourier transform after add_shape",
                      1e-12, 1e-12)
            ctx.close([l.eps_avg for l in ph.layers], [l.eps_avg for l in ref.layers], "eps_avg", 1e-12, 0)
        ctx.label(op)
    ctx.nontrivial(late > 0)


# ---------------------------------------------------------------- documented defaults

GME_DEFAULTS = {"gmode_compute": "exact", "gmode_inds": [0], "gmode_npts": 1000, "gmode_step": 1e-2,
                "gmode_tol": 1e-10, "numeig": 10, "compute_im": True, "gradients": "exact", "eig_solver": "eigh",
                "eig_sigma": 0., "eps_eff": "average", "kz_symmetry": None, "symm_thr": 1e-8, "delta_gx": 1e-15,
                "delta_gabs": 1e-15, "use_sparse": False, "only_gmodes": False}


@st.composite
def default_cases(draw):
    what = draw(pick("gme", "gme", "gme", "gme fields", "pwe", "exc", "pol", "slab", "crystal"))
    c = {"what": what, "c": draw(crystal()), "k": draw(st.one_of(st.none(), gen.kfrac())),
         "x": draw(fl(-0.4, 0.4)), "n": draw(st.integers(1, 4))}
    if what == "gme":
        c["opts"] = {"gmode_inds": draw(pick([0, 1], [1], [0, 2])), "numeig": draw(st.integers(1, 5)),
                     "gmode_compute": draw(pick("exact", "interp", "interp")), "eps_eff": draw(pick("background", "custom")),
                     "eig_sigma": draw(pick(0.2, 0.4)), "compute_im": False, "gmode_step": 5e-3}
        drop = draw(st.lists(st.sampled_from(sorted(c["opts"])), max_size=6, unique=True))
        c["opts"] = {k: v for k, v in c["opts"].items() if k not in drop}
        rest = sorted(set(GME_DEFAULTS) - set(c["opts"]))
        c["explicit"] = draw(st.lists(st.sampled_from(rest), max_size=4, unique=True))
    return c


def check_default(c, ctx):
    """Options left out against the documented defaults given explicitly."""
    import legume
    cr = c["c"]
    lat = cr["p"]["lat"]
    ph = build_crystal(cr)
    per = gen.shortest(*gen.lat_vectors(lat))
    small = 1.3 / per
    k = {} if c["k"] is None else {"kpoints": gen.kpts(lat, [c["k"]])}
    gamma = dict(k) or {"kpoints": np.zeros((2, 1))}
    if refs.guided_info(cr["p"], 1.0, "abs", np.array([0.3, 0.]), [0])["contrast"] < 1.05:
        raise Skip("no index contrast")

    def same(a, b, w):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, 1e-9, w)
            ctx.require(d is None, f"default / explicit default, output {i}: {d}")
        ctx.require(len(a) == len(b), f"{w}: {len(a)} / {len(b)} outputs")

    what = c["what"]
    if what == "gme":
        out = []
        base = {"numeig": 10, **c["opts"]}["numeig"]
        gm = small if base < 10 else 2.2 / per
        for full in (False, True):
            g = legume.GuidedModeExp(ph, gmax=gm, **({"truncate_g": "abs"} if full else {}))
            opts = dict(GME_DEFAULTS, **c["opts"]) if full else \
                dict({e: GME_DEFAULTS[e] for e in c["explicit"]}, **c["opts"])
            try:
                g.run(**(gamma if full else k), verbose=False, **opts)
                r = results("gme", g)
                if r["rad_coup"]:
                    r["rad_coup"] = {p: [[np.abs(np.asarray(m)) for m in kk] for kk in v]
                                     for p, v in r["rad_coup"].items()}
            except (ValueError, RuntimeError) as e:
                r = type(e).__name__
            out.append(r)
        d = differ(out[0], out[1], 1e-9, "GuidedModeExp")
        ctx.require(d is None, f"options {c['opts']}; others by default / given explicitly: {d}")
        if not isinstance(out[0], str):
            ctx.label("gme ran" + (" at Gamma" if c["k"] is None else ""))
            for o, v in GME_DEFAULTS.items():
                if o not in c["opts"]:
                    d = differ(state(getattr(g, o, "missing")), state(np.array(v) if o == "gmode_inds" else v), 0, o)
                    ctx.require(d is None, f"option after the run / documented default: {d}")
        else:
            ctx.label("gme refused")
    elif what == "gme fields":
        a, b = legume.GuidedModeExp(ph), legume.GuidedModeExp(ph, gmax=3., truncate_g="abs")
        same([a.gvec, a.gmax], [b.gvec, b.gmax], "GuidedModeExp(phc)")
        g = legume.GuidedModeExp(ph, gmax=small)
        g.run(kpoints=np.array([[0.3], [0.1]]), gmode_inds=[0], numeig=1, verbose=False)
        z = cr["p"]["layers"][0]["d"] / 2
        same(g.get_eps_xy(z), g.get_eps_xy(z, xgrid=None, ygrid=None, Nx=100, Ny=100), "get_eps_xy")
        same(g.get_field_xy("H", 0, 0, z), g.get_field_xy("H", 0, 0, z, None, None, "xyz", 100, 100), "get_field_xy")
        same(g.get_field_xz("E", 0, 0, c["x"]), g.get_field_xz("E", 0, 0, c["x"], None, None, "xyz", 100, 100, 1.),
             "get_field_xz")
        same(g.get_field_yz("D", 0, 0, c["x"]), g.get_field_yz("D", 0, 0, c["x"], None, None, "xyz", 100, 100, 1.),
             "get_field_yz")
        same(g.compute_rad(0)[:1], g.compute_rad(0, [0])[:1], "compute_rad")
        same(g.compute_rad_sp(0)[:3], g.compute_rad_sp(0, [0])[:3], "compute_rad_sp")
    elif what == "pwe":
        l = ph.layers[0]
        a, b = legume.PlaneWaveExp(l), legume.PlaneWaveExp(l, gmax=3., eps_eff=None)
        same([a.gvec], [b.gvec], "PlaneWaveExp(layer)")
        a, b = legume.PlaneWaveExp(l, gmax=2. / per), legume.PlaneWaveExp(l, gmax=2. / per)
        n = min(10, a.gvec.shape[1])
        a.run(**k, **({} if n == 10 else {"numeig": n}))
        b.run(**gamma, pol="te", numeig=n)
        same([a.freqs, a.kpoints, a.pol], [b.freqs, b.kpoints, "te"], "PlaneWaveExp.run")
        same(a.get_eps_xy(), a.get_eps_xy(Nx=100, Ny=100, z=0), "PlaneWaveExp.get_eps_xy")
        same(a.get_field_xy("H", 0, 0), a.get_field_xy("H", 0, 0, z=0, component="xyz", Nx=100, Ny=100),
             "PlaneWaveExp.get_field_xy")
    elif what == "exc":
        q = ph.qws[0]
        par = dict(phc=ph, z=q.z, V_shapes=q.V_shapes, a=q.a, M=q.M, E0=q.E0, loss=q.loss, osc_str=q.osc_str)
        a, b = legume.ExcitonSchroedEq(**par), legume.ExcitonSchroedEq(gmax=3., truncate_g="abs", **par)
        same([a.gvec], [b.gvec], "ExcitonSchroedEq")
        if a.gvec.shape[1] >= 10:
            a.run(**k, verbose_ex=False)
            b.run(**gamma, numeig_ex=10, verbose_ex=False)
            same([a.eners, a.kpoints], [b.eners, b.kpoints], "ExcitonSchroedEq.run")
        else:
            a.run(**gamma, numeig_ex=1, verbose_ex=False)
        same(a.get_pot_xy(), a.get_pot_xy(Nx=100, Ny=100), "get_pot_xy")
        same(a.get_wavef_xy(0, 0), a.get_wavef_xy(0, 0, Nx=100, Ny=100), "get_wavef_xy")
    elif what == "pol":
        gm = 2.2 / per
        a, b = legume.HopfieldPol(ph, gm), legume.HopfieldPol(ph, gmax=gm, truncate_g="abs")
        full = {n: v for n, v in GME_DEFAULTS.items() if n not in ("kz_symmetry", "symm_thr", "use_sparse")}
        try:
            a.run(gme_options={"verbose": False}, exc_options={"verbose_ex": False}, verbose=False, **k)
            x = results("pol", a)
        except (ValueError, RuntimeError) as e:
            x = type(e).__name__
        try:
            b.run(gme_options=dict(full, verbose=False), exc_options={"numeig_ex": 10, "verbose_ex": False},
                  verbose=False, **gamma)
            y = results("pol", b)
        except (ValueError, RuntimeError) as e:
            y = type(e).__name__
        d = differ(x, y, 1e-7, "HopfieldPol")
        ctx.require(d is None, f"default options / explicit ones: {d}")
        ctx.label("pol refused" if isinstance(x, str) else "pol ran")
    elif what == "slab":
        eps = np.array([1.] + [l["eps_b"] for l in cr["p"]["layers"]] + [1.])
        d = np.array([l["d"] for l in cr["p"]["layers"]])
        gs = np.array([1.5 + c["x"], 4.])
        a = legume.guided_modes(gs, eps, d)
        b = legume.guided_modes(gs, eps, d, n_modes=1, step=1e-3, tol=1e-4, pol="TE")
        same(a[0], b[0], "guided_modes")
    else:
        la = ph.lattice
        same(la.xy_grid(), la.xy_grid(Nx=100, Ny=100), "xy_grid")
        same([ph.z_grid()], [ph.z_grid(Nz=100, dist=1)], "z_grid")
        a, b = legume.PhotCryst(la), legume.PhotCryst(la, eps_l=1., eps_u=1.)
        s = [legume.Circle(r=0.1 * per), legume.Ellipse(rx=0.1, ry=0.2)]
        t = [legume.Circle(eps=1., x_cent=0., y_cent=0., r=0.1 * per),
             legume.Ellipse(eps=1., x_cent=0., y_cent=0., rx=0.1, ry=0.2, phi=0.)]
        for x, sh in ((a, s), (b, t)):
            x.add_layer(0.3, *([] if x is a else [1.]))
            x.add_layer(d=0.2, eps_b=9.)
            x.add_shape(sh[0], **({} if x is a else {"layer": -1, "cladding": None}))
        same([state(v) for v in vars(a).values()], [state(v) for v in vars(b).values()], "PhotCryst")
        ctx.require(len(a.layers[1].shapes) == 1 and not a.layers[0].shapes, "shape added to the last layer by default")
        ctx.require([x.eps_b for x in (a.claddings[0], a.layers[0], a.claddings[1])] == [1, 1, 1],
                    "permittivity 1 by default")
        G = np.array([[0., 1.3, 2.], [0., 0.4, -3.]])
        for u, v in zip(s + [legume.Square(a=0.3), legume.Hexagon(a=0.2), legume.FourierShape(f_as=[0.2, 0.01])],
                        t + [legume.Square(eps=1, x_cent=0, y_cent=0, a=0.3), legume.Hexagon(eps=1, x_cent=0, y_cent=0, a=0.2),
                             legume.FourierShape(eps=1, x_cent=0, y_cent=0, f_as=[0.2, 0.01], f_bs=np.array([]), npts=100)]):
            same([u.compute_ft(G), u.eps], [v.compute_ft(G), v.eps], type(u).__name__)
    ctx.label(what)
    ctx.nontrivial()


# ---------------------------------------------------------------- reading never writes

@st.composite
def read_cases(draw):
    cr = draw(crystal())
    t = draw(pick("gme", "gme", "gme", "pwe", "exc", "pol"))
    o = {k: v for k, v in draw(gme_opts(cr["sym"] and t == "gme")).items() if k not in ("eig_solver", "gmode_npts", "compute_im")}
    if t == "gme":
        o["compute_im"] = draw(st.booleans())
    reads = [[draw(st.integers(0, 11)), draw(st.integers(0, 3)), draw(st.integers(0, 5)), draw(pick("xyz", "x", "zy", "xzy")),
              draw(pick("E", "H", "D", "e"))] for _ in range(draw(st.integers(2, 6)))]
    return {"c": cr, "t": t, "trunc": draw(pick("abs", "abs", "tbt")), "g": draw(pick(1.05, 1.3, 1.55)), "opts": o,
            "k": [[draw(pick(0., 0., 0.2, 0.37)), 0. if cr["sym"] else draw(pick(0., 0., 0.1, -0.3))]
                  for _ in range(draw(st.integers(1, 3)))], "reads": reads}


def read(t, obj, r, ph, d):
    """One reading; plain arrays."""
    a, b, m, comp, field = r
    z = [0.3 * d, -0.2, 0., d, d + 0.3, 0.5 * d][(a + m) % 6]
    nk = np.asarray(obj.kpoints).shape[1]
    vals = obj.eners if t in ("exc", "pol") else obj.freqs
    kind, mind = b % nk, m % np.asarray(vals).shape[1]
    if t == "pol":
        t, obj = "gme", obj.gme
        mind %= np.asarray(obj.freqs).shape[1]
    if t == "pwe":
        field = "EH"[m % 2] if a % 4 == 0 else field
        return [lambda: obj.ft_field_xy(field, kind, mind), lambda: obj.get_eps_xy(Nx=4, Ny=3),
                lambda: obj.get_field_xy(field, kind, mind, component=comp, Nx=4, Ny=3), lambda: repr(obj)][a % 4]()
    if t == "exc":
        return [lambda: obj.ft_wavef_xy(kind, mind), lambda: obj.get_pot_xy(Nx=4, Ny=3),
                lambda: obj.get_wavef_xy(kind, mind, Nx=4, Ny=3), lambda: repr(obj)][a % 4]()
    g = np.linspace(-0.5, 0.6, 4)
    return [lambda: obj.ft_field_xy(field, kind, mind, z), lambda: obj.get_eps_xy(z, Nx=4, Ny=3),
            lambda: obj.get_field_xy(field, kind, mind, z, component=comp, Nx=4, Ny=3),
            lambda: obj.get_field_xz(field, kind, mind, 0.1, component=comp, Nx=3, Nz=4),
            lambda: obj.get_field_yz(field, kind, mind, 0.1, component=comp, Ny=3, Nz=4),
            lambda: obj.compute_rad(kind, [mind]), lambda: obj.compute_rad_sp(kind, [mind, 0]),
            lambda: obj.get_eps_xy(z, xgrid=g, ygrid=g), lambda: obj.get_field_xy(field, kind, mind, z, g, g, comp),
            lambda: repr(obj), lambda: ph.get_eps((g, g, g)), lambda: ph.get_eps_bounds()][a]()


def everything(x):
    """Every public result and option of a run."""
    return {k: state(v) for k in dir(x) if not k.startswith("_") and not callable(v := getattr(x, k))
            and not k.startswith("t_") and not type(v).__module__.startswith("legume")}


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return np.array(x) if isinstance(x, np.ndarray) else x


def check_read(c, ctx):
    """Fields, losses, permittivities and representations leave the results as they were, and do not change themselves."""
    cr, t = c["c"], c["t"]
    if refs.guided_info(cr["p"], 1.0, "abs", np.array([0.3, 0.]), [0])["contrast"] < 1.05:
        raise Skip("no index contrast")
    ph = build_crystal(cr)
    obj = build_obj({"t": t, "g": c["g"], "trunc": c["trunc"]}, cr, ph)
    opts = dict(c["opts"]) if t in ("gme", "pol") else {"numeig": 2} if t == "pwe" else {"numeig_ex": 2}
    if t == "pol":
        opts.setdefault("numeig", 3)
        opts["compute_im"] = True
    err, d = do_run(t, obj, {"k": c["k"], "opts": opts, "ex": {"numeig_ex": 2}}, cr["p"]["lat"])
    ctx.require(d is None, f"the run changed its arguments: {d}")
    if err:
        raise Skip(f"run refused: {err}")
    objs = [obj] + ([obj.gme] + list(obj.exc_list) if t == "pol" else [])
    before, crystal0 = [everything(x) for x in objs], state(ph)
    depth = cr["p"]["layers"][0]["d"]
    done = 0
    for n, r in enumerate(c["reads"]):
        def one():
            with np.errstate(all="ignore"):
                try:
                    return plain(read(t, obj, r, ph, depth))
                except (ValueError, ZeroDivisionError) as e:
                    return type(e).__name__
        first = one()
        done += not isinstance(first, str)
        for i, x in enumerate(objs):
            now = everything(x)
            for k in before[i]:
                # exact, NaN equal to NaN
                ctx.require(repr(now.get(k)) == repr(before[i][k]), f"reading {n} {r} changed {type(x).__name__}.{k}")
        d = differ(state(ph), crystal0, 0, "crystal")
        ctx.require(d is None, f"reading {n} {r} changed {d}")
        d = differ(one(), first, 1e-12, f"reading {n} {r} repeated")
        ctx.require(d is None, str(d))
    ctx.label(t, "Gamma" if any(k == [0., 0.] for k in c["k"]) else "k")
    ctx.nontrivial(done > 1)


PARTS = [{"name": "histories", "cases": cases, "check": check, "quick": 500, "thorough": 15000},
         {"name": "growing", "cases": grow_cases, "check": check_grow, "quick": 300, "thorough": 6000},
         {"name": "defaults", "cases": default_cases, "check": check_default, "quick": 160, "thorough": 1600},
         {"name": "reading", "cases": read_cases, "check": check_read, "quick": 200, "thorough": 5000}]
