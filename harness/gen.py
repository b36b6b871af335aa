"""Generators of inputs. Every generated value is plain JSON: a case can be saved and
replayed without Hypothesis. Numbers are drawn on decimal grids (n/1000)."""
import math
import sys

import numpy as np

HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYPO not in sys.path:
    sys.path.append(HYPO)
from hypothesis import strategies as st  # noqa: E402


def fl(lo, hi, den=1000):
    """A number of the grid n/den in [lo, hi]."""
    return st.integers(round(lo * den), round(hi * den)).map(lambda n: n / den)


def pick(*xs):
    return st.sampled_from(list(xs))


# ---------------------------------------------------------------- lattices

@st.composite
def lattice(draw, kinds=("square", "hexagonal", "rect", "obl"), lo=0.6, hi=1.6):
    kind = draw(pick(*kinds))
    if kind in ("square", "hexagonal"):
        return {"kind": kind}
    if kind == "rect":
        return {"kind": kind, "a1": [draw(fl(lo, hi)), 0.0], "a2": [0.0, draw(fl(lo, hi))]}
    # oblique: two lengths, the angle between them, the direction of the first, and the hand
    l1, l2 = draw(fl(lo, hi)), draw(fl(lo, hi))
    th = math.radians(draw(st.integers(35, 145)))
    ph = math.radians(draw(st.integers(0, 359)))
    s = draw(pick(1, -1))
    a1 = [round(l1 * math.cos(ph), 4), round(l1 * math.sin(ph), 4)]
    a2 = [round(l2 * math.cos(ph + s * th), 4), round(l2 * math.sin(ph + s * th), 4)]
    return {"kind": kind, "a1": a1, "a2": a2}


def lat_vectors(spec):
    if spec["kind"] == "square":
        return np.array([1., 0.]), np.array([0., 1.])
    if spec["kind"] == "hexagonal":
        return np.array([0.5, np.sqrt(3) / 2]), np.array([0.5, -np.sqrt(3) / 2])
    return np.array(spec["a1"], float), np.array(spec["a2"], float)


def rec_vectors(a1, a2):
    A = np.array([a1, a2])
    B = 2 * np.pi * np.linalg.inv(A).T
    return B[0], B[1]


def build_lattice(spec):
    import legume
    if spec["kind"] in ("square", "hexagonal"):
        return legume.Lattice(spec["kind"])
    return legume.Lattice(list(spec["a1"]), list(spec["a2"]))


def shortest(a1, a2, off=(0., 0.)):
    """Shortest |off + n1 a1 + n2 a2|, the zero vector left out when off = 0."""
    best = 1e9
    n = 6
    for n1 in range(-n, n + 1):
        for n2 in range(-n, n + 1):
            d = np.hypot(*(np.asarray(off) + n1 * a1 + n2 * a2))
            if d > 1e-9:
                best = min(best, d)
    return best


def shells(lat):
    """Sorted distinct |G|/2pi of the reciprocal lattice with the number of G within."""
    a1, a2 = lat_vectors(lat)
    b1, b2 = rec_vectors(a1, a2)
    n = 9
    i, j = np.meshgrid(np.arange(-n, n + 1), np.arange(-n, n + 1), indexing="ij")
    g = np.hypot(i * b1[0] + j * b2[0], i * b1[1] + j * b2[1]).ravel() / 2 / np.pi
    g = np.sort(g)
    g = g[g < 4.5]
    out = []
    for k, v in enumerate(g):
        if not out or v - out[-1][0] > 1e-6:
            out.append([v, k + 1])
        else:
            out[-1][1] = k + 1
    return out


@st.composite
def gmax_abs(draw, lat, nmin=5, nmax=21):
    """A cut-off half way between two shells of the reciprocal lattice, far from both."""
    sh = shells(lat)
    cand = []
    for (g0, n0), (g1, _) in zip(sh[:-1], sh[1:]):
        if nmin <= n0 <= nmax and g1 - g0 > 2e-3:
            cand.append(round((g0 + g1) / 2, 4))
    if not cand:
        for (g0, n0), (g1, _) in zip(sh[:-1], sh[1:]):
            if n0 >= 3 and g1 - g0 > 2e-3:
                cand.append(round((g0 + g1) / 2, 4))
                break
    return draw(st.sampled_from(cand))


@st.composite
def gmax_tbt(draw, lat, nmax=25):
    a1, a2 = lat_vectors(lat)
    b1, b2 = rec_vectors(a1, a2)
    l1, l2 = np.hypot(*b1) / 2 / np.pi, np.hypot(*b2) / 2 / np.pi
    cand = []
    for g in np.arange(0.4, 4, 0.05):
        r1, r2 = g / l1, g / l2
        if min(abs(r1 - round(r1)), abs(r2 - round(r2))) < 5e-3:
            continue
        n = (2 * int(r1) + 1) * (2 * int(r2) + 1)
        if 3 <= n <= nmax:
            cand.append(round(float(g), 4))
    return draw(st.sampled_from(cand or [1.01]))


# ---------------------------------------------------------------- shapes

SHAPES = ("circle", "ellipse", "square", "hexagon", "poly", "fourier", "rotated")


@st.composite
def shape_in_disc(draw, cx, cy, R, kinds=SHAPES, eps=None):
    """A shape that lies in the closed disc of radius R around (cx, cy)."""
    t = draw(pick(*kinds))
    s = {"t": t, "eps": draw(eps if eps is not None else fl(1, 14, 100))}
    if t == "circle":
        s.update(x=cx, y=cy, r=R)
    elif t == "ellipse":
        q = draw(fl(0.3, 1.0, 100))
        rx, ry = (R, round(R * q, 5)) if draw(st.booleans()) else (round(R * q, 5), R)
        s.update(x=cx, y=cy, rx=rx, ry=ry, phi=draw(fl(-3.2, 3.2)))
    elif t == "square":
        s.update(x=cx, y=cy, a=round(R * math.sqrt(2) * 0.999, 5))
    elif t == "hexagon":
        s.update(x=cx, y=cy, a=round(R * 0.999, 5))
    elif t == "poly":
        n = draw(st.integers(3, 7))
        # a star-shaped polygon: one vertex in each of n sectors, counter-clockwise
        ph0 = draw(fl(0, 6.28, 100))
        pts = []
        for i in range(n):
            w = draw(fl(-0.3, 0.3, 100))
            a = ph0 + 2 * math.pi * (i + w) / n
            r = R * draw(fl(0.45, 1.0, 100))
            pts.append([round(cx + r * math.cos(a), 5), round(cy + r * math.sin(a), 5)])
        s.update(pts=pts)
    elif t == "rotated":
        s.update(x=cx, y=cy, a=round(R * math.sqrt(2) * 0.999, 5), angle=draw(fl(-3.2, 3.2)))
    elif t == "fourier":
        na, nb = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        cs = [draw(fl(-0.25, 0.25, 100)) for _ in range(na + nb)]
        tot = sum(abs(c) for c in cs)
        f = R * 0.999 / (1 + tot) if tot < 0.9 else R * 0.999 / (1 + 0.9)
        sc = 1.0 if tot < 0.9 else 0.9 / tot
        s.update(x=cx, y=cy, fa=[round(2 * f, 6)] + [round(f * sc * c, 6) for c in cs[:na]],
                 fb=[round(f * sc * c, 6) for c in cs[na:]], n=draw(st.integers(8, 40)))
    return s


def build_shape(s):
    import legume
    t = s["t"]
    if t == "circle":
        return legume.Circle(eps=s["eps"], x_cent=s["x"], y_cent=s["y"], r=s["r"])
    if t == "ellipse":
        return legume.Ellipse(eps=s["eps"], x_cent=s["x"], y_cent=s["y"], rx=s["rx"],
                              ry=s["ry"], phi=s["phi"])
    if t == "square":
        return legume.Square(eps=s["eps"], x_cent=s["x"], y_cent=s["y"], a=s["a"])
    if t == "hexagon":
        return legume.Hexagon(eps=s["eps"], x_cent=s["x"], y_cent=s["y"], a=s["a"])
    if t == "poly":
        p = np.array(s["pts"], float)
        return legume.Poly(eps=s["eps"], x_edges=p[:, 0], y_edges=p[:, 1])
    if t == "rotated":
        return legume.Square(eps=s["eps"], x_cent=s["x"], y_cent=s["y"],
                             a=s["a"]).rotate(s["angle"])
    if t == "fourier":
        return legume.FourierShape(eps=s["eps"], x_cent=s["x"], y_cent=s["y"],
                                   f_as=np.array(s["fa"], float),
                                   f_bs=np.array(s["fb"], float), npts=s["n"])
    raise AssertionError(t)


@st.composite
def strip(draw, lat, eps=None):
    """A parallelogram that continues itself in the adjacent cell: the ridge of a grating."""
    a1, a2 = lat_vectors(lat)
    L, K = draw(pick((a1, a2), (a2, a1), (a1 + a2, a2), (a1 - a2, a2)))
    w = draw(fl(0.15, 0.8, 100))
    c = draw(fl(-0.5, 0.5, 100)) * a1 + draw(fl(-0.5, 0.5, 100)) * a2
    if draw(st.booleans()):
        W = w * K
    else:
        p = np.array([-L[1], L[0]])
        W = w * abs(a1[0] * a2[1] - a1[1] * a2[0]) / (L @ L) * p
    v = np.array([c - L / 2 - W / 2, c + L / 2 - W / 2, c + L / 2 + W / 2, c - L / 2 + W / 2])
    if L[0] * W[1] - L[1] * W[0] < 0:
        v = v[::-1]
    return {"t": "poly", "eps": draw(eps if eps is not None else fl(1, 14, 100)), "pts": v.tolist()}


@st.composite
def shapes_in_cell(draw, lat, nmax=2, kinds=SHAPES, eps=None, fill=0.95, nmin=0):
    """Up to nmax shapes that overlap neither each other nor their periodic images."""
    n = draw(st.integers(nmin, nmax))
    if n == 0:
        return []
    a1, a2 = lat_vectors(lat)
    R0 = shortest(a1, a2) / 2 * fill
    f = [draw(fl(-0.5, 0.5, 100)), draw(fl(-0.5, 0.5, 100))]
    c = f[0] * a1 + f[1] * a2
    if n == 1 and "poly" in kinds and draw(st.integers(0, 5)) == 5:
        return [draw(strip(lat, eps))]
    if n == 1:
        R = R0 * draw(fl(0.4, 1, 100))
        return [draw(shape_in_disc(round(c[0], 4), round(c[1], 4), round(R, 4), kinds, eps))]
    if n > 4:
        R = round(R0 / 3, 4)
        return [draw(shape_in_disc(round(v[0], 4), round(v[1], 4), round(R * draw(fl(0.5, 1, 100)), 4), kinds, eps))
                for v in [c + (i * a1 + j * a2) / 3 for i in range(3) for j in range(3)][:n]]
    if n > 2:
        R = round(R0 / 2, 4)
        return [draw(shape_in_disc(round(v[0], 4), round(v[1], 4), round(R * draw(fl(0.5, 1, 100)), 4), kinds, eps))
                for v in (c, c + a1 / 2, c + a2 / 2, c + a1 / 2 + a2 / 2)[:n]]
    off = 0.5 * a1 + 0.5 * a2
    D = shortest(a1, a2, off) * fill
    q = draw(fl(0.35, 0.65, 100))
    out = []
    for cc, R in ((c, min(R0, D * q)), (c + off, min(R0, D * (1 - q)))):
        R = R * draw(fl(0.5, 1, 100))
        out.append(draw(shape_in_disc(round(cc[0], 4), round(cc[1], 4), round(R, 4), kinds, eps)))
    return out


# ---------------------------------------------------------------- photonic crystals

@st.composite
def phc(draw, lat=None, kinds=("square", "hexagonal", "rect", "obl"), nlayers=(1, 3),
        shape_kinds=SHAPES, clad_shapes=False, min_shapes=0, max_shapes=3, eps_clad=(1., 3.),
        eps_slab=(6., 13.), eps_in=(1., 12.), dlay=(0.1, 0.5)):
    lat = lat if lat is not None else draw(lattice(kinds))
    nl = draw(st.integers(*nlayers))
    eps = fl(eps_in[0], eps_in[1], 100)
    usual = fl(eps_slab[0], eps_slab[1], 100)
    layers = []
    for i in range(nl):
        lo = min_shapes if i == 0 else 0
        eb, d = usual, fl(*dlay)
        if eps_slab == (6., 13.) and i > 0:
            # slots of low permittivity, and two layers of one material
            eb = draw(pick(usual, usual, usual, fl(1., 5., 100), st.just(layers[-1]["eps_b"])))
        if dlay == (0.1, 0.5) and draw(st.integers(0, 7)) == 7:
            d = fl(0.02, 1.)
        layers.append({"d": draw(d), "eps_b": draw(eb),
                       "shapes": draw(shapes_in_cell(lat, max_shapes, shape_kinds, eps,
                                                     fill=0.85, nmin=lo))})
    c = fl(eps_clad[0], eps_clad[1], 100)
    el = draw(c)
    eu = el if draw(st.booleans()) else draw(c)
    cl = [[], []]
    if clad_shapes and draw(st.booleans()):
        e2 = fl(1, 3, 100)
        cl = [draw(shapes_in_cell(lat, 1, shape_kinds, e2, fill=0.7)) for _ in range(2)]
    return {"lat": lat, "eps_l": el, "eps_u": eu, "layers": layers, "clad": cl}


def build_phc(p, lat=None):
    import legume
    lat = lat if lat is not None else build_lattice(p["lat"])
    out = legume.PhotCryst(lat, eps_l=p["eps_l"], eps_u=p["eps_u"])
    for lay in p["layers"]:
        out.add_layer(d=lay["d"], eps_b=lay["eps_b"])
        for s in lay["shapes"]:
            out.add_shape(build_shape(s))
    for i in (0, 1):
        for s in p["clad"][i]:
            out.add_shape(build_shape(s), cladding=i)
    return out


def eps_avgs(p):
    """Mean permittivity of [lower cladding, layers..., upper cladding]."""
    from . import refs
    a1, a2 = lat_vectors(p["lat"])
    area = abs(a1[0] * a2[1] - a1[1] * a2[0])

    def avg(eb, shapes):
        return eb + sum((s["eps"] - eb) * refs.shape_area(s) / area for s in shapes)
    return np.array([avg(p["eps_l"], p["clad"][0])] +
                    [avg(l["eps_b"], l["shapes"]) for l in p["layers"]] +
                    [avg(p["eps_u"], p["clad"][1])])


@st.composite
def kfrac(draw):
    """Fractional coordinates of a k-vector of general position."""
    return [draw(fl(0.06, 0.44)) * draw(pick(1, -1)), draw(fl(0.06, 0.44)) * draw(pick(1, -1))]


HIGH_K = [[0.5, 0.], [0., 0.5], [0.5, 0.5], [1 / 3, 1 / 3], [1 / 3, -1 / 3], [0.25, 0.], [0.25, 0.25], [0.2, -0.2],
          [0.5, 0.25]]


@st.composite
def kany(draw):
    """General, symmetric and nearly symmetric wave vectors, also beyond the first zone."""
    t = draw(pick("general", "general", "high", "near", "far"))
    if t == "general":
        return draw(kfrac())
    if t == "far":
        return [x + draw(st.integers(-2, 2)) for x in draw(kfrac())]
    k = list(draw(pick(*HIGH_K)))
    if t == "near":
        for i in range(2):
            if i == 0 or draw(st.booleans()):
                k[i] += draw(pick(1, -1)) * draw(tiny())
    return k


@st.composite
def tiny(draw, lo=-60, hi=-20):
    """Between 10**(lo/10) and 10**(hi/10)."""
    return float(f"{10**(draw(st.integers(lo, hi)) / 10):.3g}")


def kvec(lat, fr):
    b1, b2 = rec_vectors(*lat_vectors(lat))
    k = fr[0] * b1 + fr[1] * b2
    return np.round(k, 6)


def kpts(lat, frs):
    return np.array([kvec(lat, f) for f in frs]).T.reshape(2, -1)


# ---------------------------------------------------------------- transformations of specs

def shape_centre(s):
    if s["t"] == "poly":
        return np.mean(np.array(s["pts"], float), axis=0)
    return np.array([s["x"], s["y"]])


def move_shape(s, v):
    s = dict(s)
    if s["t"] == "poly":
        s["pts"] = (np.array(s["pts"], float) + np.asarray(v)).tolist()
    else:
        s["x"], s["y"] = float(s["x"] + v[0]), float(s["y"] + v[1])
    return s


def frac(lat, r):
    b1, b2 = rec_vectors(*lat_vectors(lat))
    return np.array([r @ b1, r @ b2]) / 2 / np.pi


def wrap_shape(s, lat, m=(0, 0)):
    """The lattice translate of a shape with its centre in cell m."""
    a1, a2 = lat_vectors(lat)
    n = np.floor(frac(lat, shape_centre(s)) + 0.5) - np.asarray(m)
    return move_shape(s, -(n[0] * a1 + n[1] * a2))


def map_shapes(p, f):
    """The crystal with f applied to every shape."""
    q = dict(p)
    q["layers"] = [dict(l, shapes=[f(s) for s in l["shapes"]]) for l in p["layers"]]
    q["clad"] = [[f(s) for s in c] for c in p["clad"]]
    return q


def as_polygon(s):
    from . import refs
    v = refs.shape_vertices(s)
    return None if v is None else {"t": "poly", "eps": s["eps"], "pts": v.tolist()}


def linear_shape(s, M):
    """The image of a shape under the orthogonal map M (2 x 2, any determinant)."""
    M = np.asarray(M, float)
    det = np.linalg.det(M)
    if s["t"] == "circle":
        c = M @ np.array([s["x"], s["y"]])
        return dict(s, x=float(c[0]), y=float(c[1]))
    if s["t"] == "ellipse":
        c = M @ np.array([s["x"], s["y"]])
        ax = M @ np.array([math.cos(s["phi"]), math.sin(s["phi"])])
        return dict(s, x=float(c[0]), y=float(c[1]), phi=float(math.atan2(ax[1], ax[0])))
    q = as_polygon(s)
    v = np.array(q["pts"]) @ M.T
    if det < 0:
        v = v[::-1]
    q["pts"] = v.tolist()
    return q


def scale_shape(s, f):
    s = dict(s)
    for k in ("x", "y", "r", "rx", "ry", "a"):
        if k in s:
            s[k] = s[k] * f
    for k in ("fa", "fb"):
        if k in s:
            s[k] = [x * f for x in s[k]]
    if "pts" in s:
        s["pts"] = (np.array(s["pts"]) * f).tolist()
    return s
