"""Lattices, Brillouin-zone paths and plotting grids against the textbook definitions."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Skip
from harness.gen import fl, pick

ID = "C01"
TITLE = "Reciprocal lattice, cell areas and Brillouin-zone paths"
RULE = ("lattices of all types, path points given by name, list or array, any numbers of points "
        "per segment; non-trivial: lattice vectors not orthogonal, or a path of >= 2 segments")
ASSUMPTIONS = ["primitive vectors are linearly independent (angle between 8 and 172 degrees)"]


@st.composite
def lat_cases(draw):
    if draw(st.integers(0, 4)) == 0:
        return {"lat": {"kind": draw(pick("square", "hexagonal"))}, "as": "list"}
    l1, l2 = draw(fl(0.05, 20, 100)), draw(fl(0.05, 20, 100))
    th = np.radians(draw(st.integers(8, 172)) * draw(pick(1, -1)))
    ph = np.radians(draw(st.integers(0, 23)) * 15)
    if draw(st.booleans()):
        ph = np.radians(draw(st.integers(0, 359)))
    a1 = [round(l1 * float(np.cos(ph)), 4), round(l1 * float(np.sin(ph)), 4)]
    a2 = [round(l2 * float(np.cos(ph + th)), 4), round(l2 * float(np.sin(ph + th)), 4)]
    if draw(st.integers(0, 3)) == 0:
        a1 = [l1 * draw(pick(1, -1)), 0.]
        a2 = [draw(fl(-0.5, 0.5)) if draw(st.booleans()) else 0., l2 * draw(pick(1, -1))]
        if draw(st.booleans()):
            a1, a2 = a2, a1
    return {"lat": {"kind": "obl", "a1": a1, "a2": a2}, "as": draw(pick("list", "tuple", "array")),
            "N": [draw(st.integers(1, 40)), draw(st.integers(1, 40))],
            "periods": draw(st.one_of(st.none(), fl(0.1, 5, 10),
                                      st.tuples(fl(0.1, 5, 10), fl(0.1, 5, 10)).map(list)))}


def build(c):
    import legume
    if c["lat"]["kind"] in ("square", "hexagonal"):
        return legume.Lattice(c["lat"]["kind"])
    f = {"list": list, "tuple": tuple, "array": np.array}[c["as"]]
    return legume.Lattice(f(c["lat"]["a1"]), f(c["lat"]["a2"]))


def check_lat(c, ctx):
    lat = build(c)
    a1, a2 = gen.lat_vectors(c["lat"])
    area = abs(a1[0] * a2[1] - a1[1] * a2[0])
    if area < 0.05 * np.hypot(*a1) * np.hypot(*a2):
        raise Skip("degenerate")
    ctx.label(c["lat"]["kind"])
    ctx.close(lat.a1, a1, "a1", 1e-12, 1e-12)
    ctx.close(lat.a2, a2, "a2", 1e-12, 1e-12)
    A = np.array([lat.a1, lat.a2])
    B = np.array([lat.b1, lat.b2])
    ctx.close(A @ B.T, 2 * np.pi * np.eye(2), "a_i . b_j", 1e-9, 1e-9)
    ctx.close(float(lat.ec_area), area, "area of the elementary cell", 1e-10)
    ctx.close(float(lat.bz_area), 4 * np.pi**2 / area, "area of the Brillouin zone", 1e-10)
    orth = abs(np.dot(a1, a2)) < 1e-12
    ctx.nontrivial(not orth)
    # plotting grid
    N = c.get("N", [7, 4])
    per = c.get("periods")
    kw = {} if per is None else {"periods": per}
    x, y = lat.xy_grid(Nx=N[0], Ny=N[1], **kw)
    if per is None:
        # a single period of rectangular cells, two of the others
        n = 1 if (orth and c["lat"]["kind"] != "hexagonal") else 2
        if not orth and abs(np.dot(a1, a2)) < 1e-6:
            raise Skip("nearly orthogonal")
        pp = [n, n]
    else:
        pp = [per, per] if np.ndim(per) == 0 else per
        ctx.label("periods")
    for v, i, n, p in ((x, 0, N[0], pp[0]), (y, 1, N[1], pp[1])):
        m = max(abs(a1[i]), abs(a2[i])) * p / 2
        ctx.close(v, np.linspace(-m, m, n), f"xy_grid, axis {i}", 1e-9, 1e-12)


NAMED = {"square": {"G": (0, 0), "X": (np.pi, 0), "M": (np.pi, np.pi)},
         "hexagonal": {"G": (0, 0), "M": (np.pi, np.pi / np.sqrt(3)), "K": (4 * np.pi / 3, 0)}}


@st.composite
def path_cases(draw):
    kind = draw(pick("square", "hexagonal", "obl"))
    names = {"square": ["G", "X", "M"], "hexagonal": ["G", "K", "M"], "obl": ["G"]}[kind]

    def point():
        t = draw(pick("name", "name", "list", "array"))
        if t == "name":
            n = draw(pick(*names))
            if n == "G" and draw(st.booleans()):
                n = draw(pick("Gamma", "GAMMA", "gamma"))
            return {"name": n if draw(st.booleans()) else n.lower()}
        if draw(st.integers(0, 3)) == 0:
            return {t: [0., 0.]}
        return {t: [draw(fl(-4, 4, 100)), draw(fl(-4, 4, 100))]}
    n = draw(st.integers(2, 6))
    pts = [point() for _ in range(n)]
    if draw(st.booleans()):
        ns = draw(st.integers(1, 12))
        if draw(st.booleans()):
            ns = [ns]
    else:
        ns = [draw(st.integers(1, 12)) for _ in range(n - 1)]
    sym = draw(st.one_of(st.none(), st.just({"name": names[-1]}) if kind != "obl" else st.none(),
                         st.tuples(fl(-3, 3, 10), fl(0.1, 3, 10)).map(lambda v: {"list": list(v)})))
    lat = {"kind": kind}
    if kind == "obl":
        lat = draw(gen.lattice(("obl", "rect")))
    if draw(st.integers(0, 2)) == 0:         # a line through Gamma, which need not be its middle
        i, m, j = draw(st.integers(0, n - 2)), draw(st.integers(1, 5)), draw(st.integers(1, 3))
        v = -m * pt_val(pts[i], kind)
        if draw(st.booleans()):
            pts[i], v = {"array": list(v)}, pt_val(pts[i], kind)
        pts[i + 1] = {"array": list(v)}
        ns = [(m + 1) * j] if np.ndim(ns) == 0 or len(ns) != n - 1 else ns[:i] + [(m + 1) * j] + ns[i + 1:]
    return {"lat": lat, "pts": pts, "ns": ns, "sym": sym}


def pt_in(p):
    if "name" in p:
        return p["name"]
    return list(p["list"]) if "list" in p else np.array(p["array"])


def pt_val(p, kind):
    if "name" in p:
        n = p["name"].upper()
        return np.array(NAMED.get(kind, {"G": (0, 0)})["G" if n == "GAMMA" else n], float)
    return np.array(p.get("list", p.get("array")), float)


def check_path(c, ctx):
    lat = gen.build_lattice(c["lat"])
    kind = c["lat"]["kind"]
    P = [pt_val(p, kind) for p in c["pts"]]
    ns = c["ns"]
    seg = [ns] * (len(P) - 1) if np.ndim(ns) == 0 else (
        list(ns) * (len(P) - 1) if len(ns) == 1 and len(P) > 2 else list(ns))
    if sum(np.hypot(*(q - p)) for p, q in zip(P[:-1], P[1:])) < 1e-9:
        raise Skip("path without length")
    kw = {} if c["sym"] is None else {"symm_g": pt_in(c["sym"])}
    inp = [pt_in(p) for p in c["pts"]]
    path = lat.bz_path(inp, ns, **kw)
    ctx.nontrivial(len(P) > 2)
    ctx.label("named" if any("name" in p for p in c["pts"]) else "free",
              "ns-list" if np.ndim(ns) else "ns-int", kind)
    pts = []
    idx = [0]
    for p, q, n in zip(P[:-1], P[1:], seg):
        for j in range(n):
            pts.append(p + (q - p) * j / n)
        idx.append(len(pts))
    pts.append(P[-1])
    K = np.array(pts).T
    ctx.close(path["kpoints"], K, "k points of the path", 1e-9, 1e-9)
    ctx.require(list(path["indexes"]) == idx, f"indexes {path['indexes']}, expected {idx}")
    s = np.concatenate([[0], np.cumsum(np.hypot(*np.diff(K, axis=1)))])
    ctx.close(path["k_indexes"], (s / s[-1])[idx], "normalised positions of the vertices",
              1e-9, 1e-9)
    ctx.require(len(path["labels"]) == len(P), "one label per point")
    for p, lab in zip(c["pts"], path["labels"]):
        if "name" in p:
            ctx.require(lab == p["name"].upper(), f"label {lab!r} of point {p}")
        else:
            v = pt_val(p, kind) / np.pi
            got = lab[lab.index("[") + 1:lab.index("]")].split(",")
            ctx.close([float(g) for g in got], v, f"label {lab!r}", 0, 0.0051)
    # direction of every k; at Gamma the requested one
    ang = np.array(path["angles"], float)
    ctx.require(ang.shape == (K.shape[1],), "one angle per k point")
    sg = np.array([np.pi, 0]) if c["sym"] is None else pt_val(c["sym"], kind)
    kk = np.hypot(*path["kpoints"])
    for i in range(K.shape[1]):
        if kk[i] < 1e-13:
            w = sg
            ctx.label("gamma" if kk[i] == 0 else "gamma up to rounding")
        elif kk[i] > 1e-6:
            w = K[:, i]
        else:
            continue
        d = np.angle(np.exp(1j * (np.radians(ang[i]) - np.arctan2(w[1], w[0]))))
        ctx.close(d, 0., f"direction of k point {i} ({K[:, i]})", 0, 1e-6)


@st.composite
def bad_cases(draw):
    return draw(pick(
        {"lat": "triangle"}, {"lat": "Square "},
        {"kind": "square", "pts": ["G"], "ns": 4},
        {"kind": "square", "pts": ["G", "K"], "ns": 4},
        {"kind": "hexagonal", "pts": ["G", "X"], "ns": 4},
        {"kind": "rect", "pts": ["G", "M"], "ns": 4}, {"kind": "rect", "pts": ["K", "G"], "ns": 4},
        {"kind": "rect", "pts": ["X", "G"], "ns": 4},
        {"kind": "square", "pts": ["G", "Q"], "ns": 4},
        {"kind": "square", "pts": ["G", "X", "M"], "ns": [4, 4, 4]},
        {"kind": "hexagonal", "pts": ["G", "K", "M", "G"], "ns": [4, 4]}))


def check_bad(c, ctx):
    import legume
    ctx.nontrivial()
    try:
        if "lat" in c:
            legume.Lattice(c["lat"])
        else:
            lat = legume.Lattice([1., 0], [0, 1.5]) if c["kind"] == "rect" else \
                legume.Lattice(c["kind"])
            lat.bz_path(c["pts"], c["ns"])
    except ValueError:
        return
    ctx.require(False, f"accepted: {c}")


PARTS = [
    {"name": "lattice", "cases": lat_cases, "check": check_lat, "quick": 4000, "thorough": 60000},
    {"name": "path", "cases": path_cases, "check": check_path, "quick": 3000, "thorough": 40000},
    {"name": "rejected", "cases": bad_cases, "check": check_bad, "quick": 80, "thorough": 200},
]
