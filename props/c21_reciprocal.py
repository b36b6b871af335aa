"""Reciprocal vectors of every expansion and the permittivity they resolve."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C21"
TITLE = "Reciprocal vectors of an expansion form the documented, complete set"
TECHNIQUE = "property-based testing (Hypothesis) against an enumeration of the reciprocal lattice and direct Fourier sums"
RULE = ("lattices of any obliqueness (angles down to 8 degrees, both hands, named, rectangular), cut-offs of any "
        "value and exactly on a shell, both truncations, the three expansions; crystals with patterned layers and "
        "claddings, heights inside every layer and cladding, any grid; non-trivial: at least 5 vectors")
ASSUMPTIONS = ["cut-offs within round-off of a shell may include it or not, but all of it"]


@st.composite
def lats(draw):
    if draw(pick(True, True, False)):
        return draw(gen.lattice(lo=0.3, hi=2.5))
    # any two independent vectors, long and slanted ones too
    l1, l2 = draw(fl(0.4, 2)), draw(fl(0.4, 2))
    th = np.radians(draw(st.integers(8, 172)))
    ph = np.radians(draw(st.integers(0, 359)))
    s = draw(pick(1, -1))
    return {"kind": "obl", "a1": [round(l1 * np.cos(ph), 6), round(l1 * np.sin(ph), 6)],
            "a2": [round(l2 * np.cos(ph + s * th), 6), round(l2 * np.sin(ph + s * th), 6)]}


def enum(lat):
    b1, b2 = (v / 2 / np.pi for v in gen.rec_vectors(*gen.lat_vectors(lat)))
    return b1, b2


def all_within(lat, g):
    """Every n1, n2 with |n1 b1 + n2 b2| <= 2 pi g, and its length (in units of 2 pi)."""
    a1, a2 = gen.lat_vectors(lat)
    b1, b2 = enum(lat)
    n1, n2 = int(g * np.hypot(*a1)) + 2, int(g * np.hypot(*a2)) + 2
    i, j = (x.ravel() for x in np.meshgrid(np.arange(-n1, n1 + 1), np.arange(-n2, n2 + 1)))
    L = np.hypot(i * b1[0] + j * b2[0], i * b1[1] + j * b2[1])
    keep = L <= g
    return i[keep], j[keep], L[keep]


@st.composite
def cases(draw):
    lat = draw(lats())
    how = draw(pick("any", "any", "shell", "integer"))
    g = draw(fl(0.2, 5))
    if how == "integer":
        lat, g = {"kind": "square"}, float(draw(st.integers(1, 5)))
    return {"lat": lat, "how": how, "g": g, "pick": draw(st.integers(0, 40)), "float": draw(st.booleans()),
            "cls": draw(pick("gme", "gme", "exc", "pwe", "pol")), "bad": draw(pick("ABS", "circle", "", None, 3))}


def build(c, lat, gmax, trunc):
    import legume
    phc = legume.PhotCryst(lat)
    phc.add_layer(d=0.3, eps_b=5.)
    if c["cls"] == "pwe":
        return legume.PlaneWaveExp(phc.layers[0], gmax=gmax)
    if c["cls"] == "gme":
        return legume.GuidedModeExp(phc, gmax=gmax, truncate_g=trunc)
    if c["cls"] == "exc":
        return legume.ExcitonSchroedEq(phc, z=0.1, V_shapes=0.01, a=4e-7, M=1e-31, E0=1.5, loss=0.,
                                       gmax=gmax, truncate_g=trunc)
    phc.add_qw(z=0.1, V_shapes=0.01, a=4e-7, M=1e-31, E0=1.5, loss=0., osc_str=[1e16, 1e16, 0])
    return legume.HopfieldPol(phc, gmax=gmax, truncate_g=trunc)


def coefficients(lat, gvec):
    """Integer coefficients of the vectors."""
    a1, a2 = gen.lat_vectors(lat)
    n = np.array([a1 @ gvec, a2 @ gvec]) / 2 / np.pi
    return n, np.round(n).astype(int)


def check_set(c, ctx):
    b1, b2 = enum(c["lat"])
    l1, l2 = np.hypot(*b1), np.hypot(*b2)
    g = c["g"]
    if c["how"] == "shell":
        L = np.sort(all_within(c["lat"], 3.)[2])
        L = L[L > 1e-9]
        if not L.size:
            raise Skip("no shell")
        g = float(L[c["pick"] % len(L)])
    gmax = int(g) if c["how"] == "integer" and not c["float"] else g
    lat = gen.build_lattice(c["lat"])
    done = False
    for trunc in ("abs", "tbt"):
        if c["cls"] == "pwe" and trunc == "abs":
            continue
        if trunc == "abs":
            i, j, L = all_within(c["lat"], g * (1 + 1e-8))
            size = len(i)
        else:
            lo = [int(g * (1 - 1e-8) / l) for l in (l1, l2)]
            hi = [int(g * (1 + 1e-8) / l) for l in (l1, l2)]
            size = (2 * hi[0] + 1) * (2 * hi[1] + 1)
        if size > 180:
            ctx.label("too many vectors")
            continue
        done = True
        o = build(c, lat, gmax, trunc)
        if c["cls"] == "pol":
            o.run(gme_options={"numeig": 1, "verbose": False, "compute_im": False},
                  exc_options={"numeig_ex": 1, "verbose_ex": False}, kpoints=np.array([[0.1], [0.2]]), verbose=False)
        for gv in [o.gvec] if c["cls"] != "pol" else [o.gvec, o.gme.gvec, o.exc_list[0].gvec]:
            n, m = coefficients(c["lat"], np.asarray(gv))
            ctx.require(gv.shape[0] == 2, lambda: f"gvec has shape {gv.shape}")
            ctx.close(n, m, "coefficients of the vectors are integers", 0, 1e-6)
            got = list(map(tuple, m.T.tolist()))
            ctx.require(len(set(got)) == len(got), lambda: f"{len(got) - len(set(got))} vectors twice ({trunc})")
            got = set(got)
            if trunc == "abs":
                inner = {(p, q) for p, q, l in zip(i.tolist(), j.tolist(), L) if l < g * (1 - 1e-8)}
                outer = set(zip(i.tolist(), j.tolist()))
                ctx.require(got == inner or got == outer,
                            lambda: f"abs: missing {sorted(inner - got)[:6]}, too many {sorted(got - outer)[:6]}, "
                                    f"part of the last shell {len(inner)} {len(got)} {len(outer)}")
            else:
                s1 = {(p, q) for p in range(-lo[0], lo[0] + 1) for q in range(-lo[1], lo[1] + 1)}
                opts = [{(p, q) for p in range(-x, x + 1) for q in range(-y, y + 1)}
                        for x in {lo[0], hi[0]} for y in {lo[1], hi[1]}]
                ctx.require(got in opts, lambda: f"tbt: missing {sorted(s1 - got)[:6]}, of {len(s1)}, got {len(got)}")
            if c["how"] == "integer":
                full = size
                ctx.require(len(got) == full, lambda: f"{trunc}, square lattice, gmax {gmax}: {len(got)} vectors, not {full}")
            ctx.nontrivial(len(got) >= 5)
            ctx.label(trunc, c["how"], c["cls"])
    if not done:
        raise Skip("too many vectors")
    if c["cls"] != "pwe":
        try:
            build(c, lat, gmax if size <= 180 else 0.1, c["bad"])
        except ValueError:
            return
        ctx.require(False, f"truncate_g={c['bad']!r} accepted")


# ------------------------------------------------------------ reported permittivity

@st.composite
def eps_cases(draw):
    lat = draw(gen.lattice())
    p = draw(gen.phc(lat=lat, nlayers=(1, 3), clad_shapes=True, max_shapes=2))
    cls = draw(pick("gme", "gme", "pwe"))
    trunc = draw(pick("abs", "tbt")) if cls == "gme" else "tbt"
    return {"p": p, "cls": cls, "trunc": trunc,
            "gmax": draw(gen.gmax_abs(lat, 3, 13) if trunc == "abs" else gen.gmax_tbt(lat, 21)),
            "zf": draw(fl(0.05, 0.95, 100)), "Nx": draw(st.integers(2, 5)), "Ny": draw(st.integers(2, 5)),
            "grid": draw(pick("none", "both", "x", "y")),
            "x": draw(st.lists(fl(-2, 2), min_size=1, max_size=4)),
            "y": draw(st.lists(fl(-2, 2), min_size=1, max_size=4)), "run": draw(pick(False, False, True))}


def check_eps(c, ctx):
    import legume
    p = c["p"]
    phc = gen.build_phc(p)
    if c["cls"] == "pwe":
        o = legume.PlaneWaveExp(phc.layers[0], gmax=c["gmax"])
        o.run(kpoints=np.array([[0.3], [0.2]]), numeig=1)
    else:
        o = legume.GuidedModeExp(phc, gmax=c["gmax"], truncate_g=c["trunc"])
        if c["run"]:
            o.run(kpoints=np.array([[0.3], [0.2]]), numeig=1, verbose=False, compute_im=False)
    _, m = coefficients(p["lat"], np.asarray(o.gvec))
    diffs = {(int(a), int(b)) for a, b in (m[:, :, None] - m[:, None, :]).reshape(2, -1).T}
    b1, b2 = gen.rec_vectors(*gen.lat_vectors(p["lat"]))
    D = np.array(sorted(diffs))
    G = D[:, :1] * b1 + D[:, 1:] * b2
    z = 0.
    stack = [(-1.3, p["eps_l"], p["clad"][0])]
    for l in p["layers"]:
        stack.append((z + c["zf"] * l["d"], l["eps_b"], l["shapes"]))
        z += l["d"]
    stack.append((z + 0.7, p["eps_u"], p["clad"][1]))
    if c["cls"] == "pwe":
        stack = stack[1:2]
    for h, eb, shapes in stack:
        co = refs.eps_ft(eb, shapes, p["lat"], G.T[0], G.T[1])
        if c["cls"] == "pwe":
            e, x, y = o.get_eps_xy(Nx=c["Nx"], Ny=c["Ny"])
        else:
            kw = {}
            if c["grid"] in ("both", "x"):
                kw["xgrid"] = np.array(c["x"])
            if c["grid"] in ("both", "y"):
                kw["ygrid"] = np.array(c["y"])
            e, x, y = o.get_eps_xy(h, Nx=c["Nx"], Ny=c["Ny"], **kw)
            for k, v in kw.items():
                ctx.close(x if k == "xgrid" else y, v, k, 0, 0)
        X, Y = np.meshgrid(x, y)
        ref = np.tensordot(co, np.exp(1j * (G[:, 0, None, None] * X + G[:, 1, None, None] * Y)), 1)
        ctx.close(e, ref, f"permittivity at z = {h}", 1e-7, 1e-7)
    ctx.label(c["cls"], c["trunc"], c["grid"])
    ctx.nontrivial(len(D) >= 5 and any(s[2] for s in stack))


PARTS = [
    {"name": "vectors", "cases": cases(), "check": check_set, "quick": 800, "thorough": 20000},
    {"name": "permittivity", "cases": eps_cases(), "check": check_eps, "quick": 500, "thorough": 12000},
]
