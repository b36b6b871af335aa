"""Shapes: Fourier transform, indicator function and area of the documented region."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C02"
TITLE = "Shapes: Fourier transform, indicator and area describe one region"
RULE = ("shapes of every class with parameters of three scales, rotations, g vectors of generic "
        "direction, along the axes, and along or across the edges; non-trivial: at least one "
        "g != 0 compared for a shape that is not a centred circle")
ASSUMPTIONS = ["polygons are simple, counter-clockwise and have edges longer than 1e-3"]


@st.composite
def spec(draw, scale=None):
    S = scale if scale is not None else draw(pick(1.0, 1.0, 1.0, 0.1, 8.0, 300.0))
    R = round(S * draw(fl(0.1, 0.6, 100)), 4)
    cx, cy = (round(S * draw(fl(-1, 1, 100)), 4) for _ in range(2))
    if draw(st.integers(0, 5)) == 0:
        cx = cy = 0.
    t = draw(pick(*gen.SHAPES, "lpoly"))
    if t == "lpoly":
        # a concave polygon with axis-parallel edges
        w, h = round(R * draw(fl(0.3, 0.8, 100)), 4), round(R * draw(fl(0.3, 0.8, 100)), 4)
        pts = [[cx, cy], [cx + R, cy], [cx + R, cy + h], [cx + w, cy + h], [cx + w, cy + R],
               [cx, cy + R]]
        k = draw(st.integers(0, 5))
        pts = [[round(a, 5), round(b, 5)] for a, b in pts[k:] + pts[:k]]
        return {"t": "poly", "eps": draw(fl(1, 14, 100)), "pts": pts}
    return draw(gen.shape_in_disc(cx, cy, R, kinds=(t,)))


@st.composite
def cases(draw):
    s = draw(spec())
    n = draw(st.integers(1, 6))
    gs = []
    for _ in range(n):
        k = draw(pick("free", "free", "x", "y", "zero", "edge", "normal", "tiny", "lattice"))
        a, b = draw(fl(0.3, 40, 100)) * draw(pick(1, -1)), draw(fl(0.3, 40, 100)) * draw(pick(1, -1))
        if k == "lattice":
            m, q = draw(st.integers(-6, 6)), draw(st.integers(-6, 6))
            gs.append(["free", m * 2 * math.pi, q * 2 * math.pi])
        else:
            gs.append([k, a, b])
    rot = draw(st.one_of(st.none(), fl(-7, 7, 100)))
    return {"s": s, "g": gs, "layout": draw(pick("2N", "2N", "N2", "list")), "rot": rot,
            "pts": [[draw(fl(-1.5, 1.5, 100)), draw(fl(-1.5, 1.5, 100))] for _ in range(8)]}


def size_of(s):
    v = refs.shape_vertices(s)
    if v is None:
        return max(s.get("r", 0), s.get("rx", 0), s.get("ry", 0))
    c = v.mean(0)
    return np.max(np.hypot(*(v - c).T))


def centroid(v):
    x, y = v.T
    xn, yn = np.roll(x, -1), np.roll(y, -1)
    c = x * yn - xn * y
    A = c.sum() / 2
    return np.array([((x + xn) * c).sum(), ((y + yn) * c).sum()]) / 6 / A


def check(c, ctx):
    s = c["s"]
    sh = gen.build_shape(s)
    v = refs.shape_vertices(s)
    ref = s
    R = size_of(s)
    ctx.label(s["t"])
    if v is not None and c["rot"] is not None:
        com = centroid(v)
        co, si = math.cos(c["rot"]), math.sin(c["rot"])
        v = (v - com) @ np.array([[co, si], [-si, co]]) + com
        ref = {"t": "poly", "eps": s["eps"], "pts": v.tolist()}
        out = sh.rotate(c["rot"])
        ctx.require(out is sh, "rotate() returns the shape")
        ctx.label("rotated")
    area = refs.shape_area(ref)
    a = float(np.ravel(sh.area)[0])
    ctx.close(a, area, "area", 1e-7, 1e-9 * R * R)
    ctx.close(sh.eps, s["eps"], "eps")
    # wave vectors, in units of the inverse size, so that g R is at most about 60
    G = []
    for i, (k, gx, gy) in enumerate(c["g"]):
        g = np.array([gx, gy]) / max(1., R / 0.5)
        if k == "x":
            g[1] = 0
        elif k == "y":
            g[0] = 0
        elif k == "zero":
            g[:] = 0
        elif k == "tiny":
            g = g * 10.**-(2 + i % 4)
        elif k in ("edge", "normal") and v is not None:
            e = v[(i + 1) % len(v)] - v[i % len(v)]
            e = e / np.hypot(*e)
            g = np.hypot(*g) * (e if k == "edge" else np.array([-e[1], e[0]]))
        g = np.where(np.abs(g) < 1e-12, 0., g)
        G.append(g)
        ctx.label("g:" + k)
    if G:
        G = np.array(G).T
        if c["layout"] == "N2" and G.shape[1] != 2:
            arg = G.T.copy()
        elif c["layout"] == "list":
            arg = [list(G[0]), list(G[1])]
        else:
            arg = G.copy()
        before = np.array(arg)
        ft = np.asarray(sh.compute_ft(arg))
        ctx.require(ft.shape == (G.shape[1],), f"shape {ft.shape} of the transform")
        want = refs.shape_ft(ref, G[0], G[1])
        n = len(v) if v is not None else 1
        ctx.close(ft, want, f"Fourier transform of {s['t']} at {G.T.tolist()}", 1e-7,
                  1e-8 * R * R)
        ctx.nontrivial(np.any(np.hypot(*G) > 0) and (s["t"] != "circle" or s["x"] or s["y"]))
        ctx.require(np.array_equal(np.array(arg), before), "compute_ft changed its argument")
    # indicator
    cen = v.mean(0) if v is not None else np.array([s["x"], s["y"]])
    P = np.array(c["pts"]).T * R + cen[:, None]
    ins, marg = refs.inside(ref, P[0], P[1])
    got = np.asarray(sh.is_inside(P[0].reshape(2, 4), P[1].reshape(2, 4)))
    ctx.require(got.shape == (2, 4), f"shape of is_inside: {got.shape}")
    got = got.astype(bool).ravel()
    sure = marg > 1e-6 * max(R, 1)
    ctx.require(np.array_equal(got[sure], ins[sure]),
                lambda: f"is_inside of {s['t']}: {got} expected {ins} at {P.T.tolist()}")
    ctx.label("points-in" if np.any(ins) else "points-out")


# the transform and the indicator against each other, without a formula: Parseval-like sum
@st.composite
def quad_cases(draw):
    return {"s": draw(spec(scale=1.0)), "g": [draw(fl(-9, 9, 10)), draw(fl(-9, 9, 10))]}


def check_quad(c, ctx):
    """Midpoint rule over the indicator itself."""
    s = c["s"]
    sh = gen.build_shape(s)
    R = size_of(s)
    v = refs.shape_vertices(s)
    cen = v.mean(0) if v is not None else np.array([s["x"], s["y"]])
    n = 260
    h = 2.3 * R / n
    x = (np.arange(n) + 0.5) * h - 1.15 * R
    X, Y = np.meshgrid(x + cen[0], x + cen[1])
    ins = np.asarray(sh.is_inside(X, Y)).astype(float)
    g = np.array(c["g"])
    q = np.sum(ins * np.exp(-1j * (g[0] * X + g[1] * Y))) * h * h
    ft = sh.compute_ft(np.array([[g[0]], [g[1]]]))[0]
    tol = 14 * R * h * 0.35 + 0.02 * abs(q)
    ctx.nontrivial()
    ctx.label(s["t"])
    ctx.require(abs(ft - q) < tol, f"transform {ft} but integral of the indicator {q} (tol {tol})")


@st.composite
def bad(draw):
    k = draw(pick("clockwise", "negative", "shape3", "1d", "3d", "tuple", "number"))
    return {"k": k, "s": draw(spec(scale=1.0)), "a": draw(fl(0.1, 1)), "n": draw(st.integers(5, 60))}


def check_bad(c, ctx):
    import legume
    k = c["k"]
    ctx.nontrivial()
    ctx.label(k)
    exp = ValueError
    try:
        if k == "clockwise":
            v = refs.shape_vertices(c["s"])
            if v is None:
                raise Skip("no polygon")
            legume.Poly(eps=2., x_edges=v[::-1, 0], y_edges=v[::-1, 1])
        elif k == "negative":
            legume.FourierShape(eps=2., f_as=np.array([c["a"], c["a"] * 1.5]), f_bs=np.array([]),
                                npts=c["n"])
        else:
            sh = gen.build_shape(c["s"])
            g = {"shape3": np.ones((3, 4)), "1d": np.ones(4), "3d": np.ones((2, 2, 2)),
                 "tuple": ((1., 2.), (0., 1.)), "number": 3.0}[k]
            if k in ("tuple", "number"):
                exp = TypeError
            sh.compute_ft(g)
    except exp:
        return
    ctx.require(False, f"accepted: {c}")


PARTS = [
    {"name": "formula", "cases": cases, "check": check, "quick": 4000, "thorough": 90000},
    {"name": "quadrature", "cases": quad_cases, "check": check_quad, "quick": 600, "thorough": 8000},
    {"name": "rejected", "cases": bad, "check": check_bad, "quick": 200, "thorough": 1000},
]
