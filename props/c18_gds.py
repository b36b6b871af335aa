"""GDS export: the file, read back, against the geometry of the crystal."""
import json
import math
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C18"
TITLE = "GDS export contains the geometry of the crystal"
TECHNIQUE = "property-based testing (Hypothesis), round trip through the GDS file"
RULE = ("random crystals of 1-4 layers with 0-4 circles and polygons of every kind, units and tolerances; "
        "random rasters (sums of bumps on grids of any aspect, nested regions) on every lattice with one or "
        "several levels; unsupported shapes; non-trivial: at least one polygon in the file")
ASSUMPTIONS = ["gdspy reads back what it writes (rounded to its precision of 1 nm)",
               "regions of a raster do not touch its border"]

KINDS = ("circle", "square", "hexagon", "poly", "fourier", "rotated")


@st.composite
def cases(draw):
    lat = draw(gen.lattice())
    nl = draw(st.integers(1, 4))
    layers = [{"d": draw(fl(0.1, 0.5)), "eps_b": 12.,
               "shapes": draw(gen.shapes_in_cell(lat, 2, KINDS, fl(1, 10, 10), fill=0.9))}
              for _ in range(nl)]
    clad = [draw(gen.shapes_in_cell(lat, 1, KINDS, fl(1, 3, 10), fill=0.5)) if draw(pick(False, True)) else []
            for _ in range(2)]
    return {"p": {"lat": lat, "eps_l": 1., "eps_u": 1., "layers": layers, "clad": clad},
            "unit": draw(pick(None, 1e-6, 1e-5, 1e-4, 1e-3)), "tol": draw(pick(None, 0.002, 0.005, 0.02)),
            "pts": [[draw(fl(-1, 1)), draw(fl(-1, 1))] for _ in range(12)], "twice": draw(pick(False, True))}


def read(fn):
    import gdspy
    lib = gdspy.GdsLibrary(infile=fn, units="import")
    tops = lib.top_level()
    out = []
    for cell in tops:
        for pl in cell.polygons:
            for v, l, d in zip(pl.polygons, pl.layers, pl.datatypes):
                out.append((int(l), int(d), np.array(v, float)))
        extra = list(cell.paths) + list(cell.references) + list(cell.labels)
        if extra:
            raise ValueError(f"unexpected elements {extra}")
    return lib, tops, out


def crossing(v, x, y):
    """Even-odd rule."""
    n = len(v)
    c = np.zeros(np.shape(x), bool)
    for i in range(n):
        (x1, y1), (x2, y2) = v[i], v[(i + 1) % n]
        if y1 == y2:
            continue
        t = ((y1 > y) != (y2 > y)) & (x < (x2 - x1) * (y - y1) / (y2 - y1) + x1)
        c ^= t
    return c


def in_tmp(fun):
    d = tempfile.mkdtemp(prefix="verif-gds-")
    try:
        return fun(os.path.join(d, "out.gds"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_shapes(c, ctx):
    return in_tmp(lambda fn: shapes_in_file(c, ctx, fn))


def shapes_in_file(c, ctx, fn):
    import legume
    p = c["p"]
    phc = gen.build_phc(p)
    kw = {}
    if c["unit"] is not None:
        kw["unit"] = c["unit"]
    if c["tol"] is not None:
        kw["tolerance"] = c["tol"]
    before = repr(phc)
    if c["twice"]:
        legume.gds.generate_gds(gen.build_phc(dict(p, layers=p["layers"][:1])), fn, **kw)
    legume.gds.generate_gds(phc, fn, **kw)
    ctx.require(repr(phc) == before, "the export changed the crystal")
    unit = 1e-6 if c["unit"] is None else c["unit"]
    tol = 0.01 if c["tol"] is None else c["tol"]
    lib, tops, polys = read(fn)
    ctx.require(abs(lib.unit / unit - 1) < 1e-9, f"unit {lib.unit} in the file, expected {unit}")
    grid = 0.75 * 1e-9 / unit                 # half a database unit in each direction
    nsh = sum(len(l["shapes"]) for l in p["layers"])
    ctx.require(len(tops) == 1, f"{len(tops)} top cells")
    ctx.require(sorted({l for l, _, _ in polys}) == [i for i, l in enumerate(p["layers"]) if l["shapes"]],
                f"layers {sorted({l for l, _, _ in polys})} in the file")
    a1, a2 = gen.lat_vectors(p["lat"])
    for i, lay in enumerate(p["layers"]):
        here = [v for l, _, v in polys if l == i]
        ctx.require(len(here) == len(lay["shapes"]), f"{len(here)} polygons in layer {i}, expected "
                    f"{len(lay['shapes'])}")
        left = list(range(len(here)))
        for s in lay["shapes"]:
            v = refs.shape_vertices(s)
            if v is None:
                r0 = np.array([s["x"], s["y"]])
                fit = [j for j in left if np.all(np.abs(np.hypot(*(here[j] - r0).T) - s["r"]) < 2 * grid)]
                ctx.require(fit, f"no circle of radius {s['r']} around {r0} in layer {i}")
                w = here[fit[0]]
                # the polygon approximates the circle to the tolerance
                ph = np.sort(np.arctan2(*(w - r0).T[::-1]))
                gap = np.diff(np.append(ph, ph[0] + 2 * np.pi)).max()
                ctx.require(s["r"] * (1 - math.cos(gap / 2)) <= 2 * tol + 2 * grid,
                            f"circle of radius {s['r']} approximated with {len(w)} vertices, tolerance {tol}")
                ctx.label("circle")
            else:
                def dist(a, b):
                    return np.hypot(a[:, None, 0] - b[None, :, 0], a[:, None, 1] - b[None, :, 1])
                fit = [j for j in left if dist(here[j], v).min(0).max() < grid * 2
                       and dist(here[j], v).min(1).max() < grid * 2]
                ctx.require(fit, f"no polygon with vertices {v.tolist()} in layer {i}: {[h.tolist() for h in here]}")
                w = here[fit[0]]
                A = refs.poly_area(v)
                per = np.hypot(*(v - np.roll(v, 1, 0)).T).sum()
                ctx.require(abs(abs(refs.poly_area(w)) - A) < 2 * grid * per + 1e-12,
                            f"area {refs.poly_area(w)} of a polygon of area {A}")
                ctx.label(s["t"])
            left.remove(fit[0])
            r0 = gen.shape_centre(s)
            R = max(np.abs(w - r0).max(), 0.05)
            q = np.array(c["pts"]) * R * 1.2 + r0
            ins, far = refs.inside(s, q[:, 0], q[:, 1])
            got = crossing(w, q[:, 0], q[:, 1])
            # (margins of circles are relative to the radius)
            m = far * (s["r"] if v is None else 1) > 2 * tol + 4 * grid if v is None else far > 4 * grid
            ctx.require(np.array_equal(ins[m], got[m]), f"points {q[m].tolist()} inside: {got[m]}, expected {ins[m]}")
    ctx.label(f"{len(p['layers'])} layers", f"{nsh} shapes")
    ctx.nontrivial(nsh > 0)


# ---------------------------------------------------------------- rasters

@st.composite
def raster_cases(draw):
    lat = draw(gen.lattice())
    n = [draw(st.integers(8, 28)), draw(st.integers(8, 28))]
    bumps = [{"c": [draw(fl(0.3, 0.7, 100)), draw(fl(0.3, 0.7, 100))], "w": [draw(fl(0.1, 0.3, 100)), draw(fl(0.1, 0.3, 100))],
              "h": draw(fl(-0.8, 1.5, 100))} for _ in range(draw(st.integers(1, 4)))]
    ty = draw(pick("smooth", "smooth", "binary"))
    lev = [draw(pick(None, 0.5, 0.35, 0.7))] if draw(pick(True, True, False)) else [0.3, 0.6, 0.8][:draw(st.integers(2, 3))]
    return {"lat": lat, "n": n, "bumps": bumps, "ty": ty, "levels": lev, "bound": draw(pick(None, True, False)),
            "unit": draw(pick(None, 1e-6, 1e-4, 1e-3))}


def make_raster(c):
    n0, n1 = c["n"]
    u, v = np.meshgrid(np.linspace(0, 1, n0), np.linspace(0, 1, n1), indexing="ij")
    r = np.zeros((n0, n1))
    for b in c["bumps"]:
        r = r + b["h"] * np.exp(-((u - b["c"][0]) / b["w"][0])**2 - ((v - b["c"][1]) / b["w"][1])**2)
    if c["ty"] == "binary":
        r = (r > 0.45).astype(float)
    r[0] = r[-1] = 0
    r[:, 0] = r[:, -1] = 0
    return np.round(r, 6)


def check_raster(c, ctx):
    return in_tmp(lambda fn: raster_in_file(c, ctx, fn))


def raster_in_file(c, ctx, fn):
    import legume
    r = make_raster(c)
    lat = gen.build_lattice(c["lat"])
    a1, a2 = gen.lat_vectors(c["lat"])
    kw = {}
    levels = [0.5] if c["levels"] == [None] else c["levels"]
    if c["levels"] != [None]:
        kw["levels"] = list(levels)
    if any(np.any(np.abs(r - l) < 1e-4) for l in levels):
        raise Skip("a value of the raster on a level")
    if c["bound"] is not None:
        kw["cell_bound"] = c["bound"]
    if c["unit"] is not None:
        kw["unit"] = c["unit"]
    keep = r.copy()
    legume.gds.generate_gds_raster(lat, r, fn, **kw)
    ctx.require(np.array_equal(r, keep), "the export changed the raster")
    unit = 1e-6 if c["unit"] is None else c["unit"]
    lib, tops, polys = read(fn)
    ctx.require(abs(lib.unit / unit - 1) < 1e-9, f"unit {lib.unit} in the file, expected {unit}")
    ctx.require(len(tops) == 1, f"{len(tops)} top cells")
    grid = 0.75 * 1e-9 / unit
    bounds = [v for l, d, v in polys if d == 1]
    shapes = [v for l, d, v in polys if d == 0]
    ctx.require(all(l == 0 for l, _, _ in polys) and len(bounds) + len(shapes) == len(polys),
                f"layers and datatypes {[(l, d) for l, d, _ in polys]}")
    want = c["bound"] is not False
    ctx.require(len(bounds) == int(want), f"{len(bounds)} boundaries of the cell, expected {int(want)}")
    if want:
        corners = np.array([s * a1 / 2 + t * a2 / 2 for s in (-1, 1) for t in (-1, 1)])
        d = np.hypot(*(corners[:, None, :] - bounds[0][None, :, :]).transpose(2, 0, 1))
        ctx.require(len(bounds[0]) == 4 and d.min(0).max() < 2 * grid and d.min(1).max() < 2 * grid,
                    f"boundary {bounds[0].tolist()}, expected {corners.tolist()}")
        area = abs(a1[0] * a2[1] - a1[1] * a2[0])
        ctx.close(abs(refs.poly_area(bounds[0])), area, "area of the boundary", 0, 20 * grid)
    # the vertices in units of pixels: they interpolate one of the levels linearly
    b1, b2 = gen.rec_vectors(a1, a2)
    n = np.array(r.shape)
    groups = {l: [] for l in levels}
    slope = np.abs(np.diff(r, axis=0)).max() + np.abs(np.diff(r, axis=1)).max() + 1e-9
    pix = grid * max(np.hypot(*b1) * n[0], np.hypot(*b2) * n[1]) / 2 / np.pi * 2
    for v in shapes:
        f = (np.stack([v @ b1, v @ b2], 1) / 2 / np.pi + 0.5) * (n - 1)
        # one coordinate of every vertex is an integer
        on = np.abs(f - np.round(f))
        ctx.require(np.all(on.min(1) < pix + 1e-9), "a vertex inside of a pixel")
        vals = []
        for (x, y), (ox, oy) in zip(f, on):
            if ox > oy:
                j = int(round(y))
                i = min(max(int(math.floor(x)), 0), n[0] - 2)
                vals.append(r[i, j] + (x - i) * (r[i + 1, j] - r[i, j]))
            else:
                i = int(round(x))
                j = min(max(int(math.floor(y)), 0), n[1] - 2)
                vals.append(r[i, j] + (y - j) * (r[i, j + 1] - r[i, j]))
        # (a vertex near a node may be attributed to the wrong line: median)
        l = min(levels, key=lambda q: abs(np.median(vals) - q))
        ctx.require(abs(np.median(vals) - l) < 4 * pix * slope + 1e-6,
                    f"a contour at raster value {np.median(vals)}, the levels are {levels}")
        groups[l].append(f)
    I, J = np.meshgrid(np.arange(n[0]), np.arange(n[1]), indexing="ij")
    for l in levels:
        got = np.zeros(r.shape, bool)
        near = np.full(r.shape, np.inf)
        for f in groups[l]:
            got ^= crossing(f, I + 1e-7, J + 1.7e-7)
            d = np.hypot(I[..., None] - f[:, 0], J[..., None] - f[:, 1])
            near = np.minimum(near, d.min(-1))
        m = near > 3 * pix + 1e-4
        ctx.require(np.array_equal(got[m], (r > l)[m]), f"region above {l}: {int(got[m].sum())} nodes covered, "
                    f"{int((r > l)[m].sum())} nodes above")
        if (r > l).any():
            ctx.require(bool(groups[l]), f"no contour at level {l}")
            ctx.nontrivial()
    ctx.label(c["ty"], f"{len(levels)} levels", f"{len(shapes)} contours", c["lat"]["kind"])


# ---------------------------------------------------------------- unsupported shapes

@st.composite
def bad_cases(draw):
    c = draw(cases())
    lat = c["p"]["lat"]
    r = gen.shortest(*gen.lat_vectors(lat)) * 0.3
    i = draw(st.integers(0, len(c["p"]["layers"]) - 1))
    c["p"]["layers"][i]["shapes"] = [draw(gen.shape_in_disc(0., 0., round(r, 3), ("ellipse",)))]
    c["bad"] = i
    return c


def check_bad(c, ctx):
    def go(fn):
        import legume
        try:
            legume.gds.generate_gds(gen.build_phc(c["p"]), fn)
        except RuntimeError:
            ctx.require(not os.path.exists(fn), "a file was written")
            return
        # an export that supports ellipses draws one polygon for each
        _, _, polys = read(fn)
        s = c["p"]["layers"][c["bad"]]["shapes"][0]
        v = [w for l, _, w in polys if l == c["bad"]]
        ctx.require(len(v) == 1, "an ellipse was left out")
        u = (v[0][:, 0] - s["x"]) * np.cos(s["phi"]) + (v[0][:, 1] - s["y"]) * np.sin(s["phi"])
        w = -(v[0][:, 0] - s["x"]) * np.sin(s["phi"]) + (v[0][:, 1] - s["y"]) * np.cos(s["phi"])
        ctx.require(np.abs(np.hypot(u / s["rx"], w / s["ry"]) - 1).max() < 0.1, "not the ellipse of the crystal")
    in_tmp(go)
    ctx.nontrivial()


PARTS = [
    {"name": "shapes", "cases": cases, "check": check_shapes, "quick": 2000, "thorough": 20000},
    {"name": "raster", "cases": raster_cases, "check": check_raster, "quick": 2000, "thorough": 20000},
    {"name": "unsupported", "cases": bad_cases, "check": check_bad, "quick": 100, "thorough": 500},
]
