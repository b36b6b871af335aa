"""Parity about a vertical mirror plane: symmetric crystals in every supported lattice."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C09"
TITLE = "Separation of modes by parity about the vertical plane"
RULE = ("crystals of 1..3 layers whose shapes (circles, ellipses, polygons, pairs) are symmetric about "
        "a line through the origin at an angle allowed by the lattice, k along that line; "
        "non-trivial: a layer has a shape and both parities occur")
ASSUMPTIONS = ["guided modes resolved by the search step (see C06)", "basis contains both parities "
               "(the code documents that it does not support a single one)",
               "frequencies above 0.001 at k = 0", "the mirror plane contains the origin",
               "losses are compared as sums over groups of degenerate modes, not within 0.3 % of the "
               "opening of a channel"]

ANGLES = {"square": (0, 45, 90, 135, 180, -45, -90, 225), "hexagonal": (0, 30, 60, 90, 120, 150, -60,
                                                                      -30, 210),
          "rect": (0, 90, 180, -90, 270)}


@st.composite
def sym_shape(draw, R, eps):
    """Shapes in the disc of radius R around the origin, mirror line along x."""
    t = draw(pick("circle", "ellipse", "poly", "pair", "pair of ellipses", "square", "hexagon"))
    e = draw(fl(*eps, 100))
    if t == "circle":
        return [{"t": t, "eps": e, "x": 0., "y": 0., "r": R}]
    if t == "ellipse":
        return [{"t": t, "eps": e, "x": 0., "y": 0., "rx": R, "ry": round(R * draw(fl(.3, .9, 100)), 5),
                 "phi": draw(pick(0., math.pi / 2))}]
    if t == "pair":
        r = round(R * draw(fl(.2, .45, 100)), 5)
        y = R / 2
        return [{"t": "circle", "eps": e, "x": 0., "y": s * y, "r": r} for s in (1, -1)]
    if t == "pair of ellipses":
        r = round(R * draw(fl(.3, .45, 100)), 5)
        ph = draw(fl(0, 3))
        return [{"t": "ellipse", "eps": e, "x": 0., "y": s * R / 2, "rx": r, "ry": r / 2,
                 "phi": s * ph} for s in (1, -1)]
    if t == "square":
        h = R / math.sqrt(2) * 0.999
        pts = [[-h, -h], [h, -h], [h, h], [-h, h]]
    elif t == "hexagon":
        pts = [[R * math.cos(i * math.pi / 3), R * math.sin(i * math.pi / 3)] for i in range(6)]
    else:
        n = draw(st.integers(1, 3))
        up = []
        for i in range(n):
            a = math.pi * (i + 0.5 + draw(fl(-.3, .3, 100))) / n
            r = R * draw(fl(.5, 1, 100))
            up.append([r * math.cos(a), r * math.sin(a)])
        x0, x1 = R * draw(fl(.4, 1, 100)), -R * draw(fl(.4, 1, 100))
        pts = [[x0, 0.]] + up + [[x1, 0.]] + [[x, -y] for x, y in up[::-1]]
    return [{"t": "poly", "eps": e, "pts": pts}]


@st.composite
def cases(draw):
    kind = draw(pick("square", "hexagonal", "rect"))
    lat = draw(gen.lattice((kind,)))
    th = draw(pick(*ANGLES[kind]))
    trunc = draw(pick("abs", "abs", "tbt"))
    if kind == "hexagonal" and trunc == "tbt":
        th = draw(pick(0, 90, 180, -90))        # the parallelogram has no other mirror line
    p = draw(gen.phc(lat=lat, max_shapes=0))
    a1, a2 = gen.lat_vectors(lat)
    R0 = gen.shortest(a1, a2) / 2 * 0.9
    for i, l in enumerate(p["layers"]):
        if i == 0 or draw(st.booleans()):
            l["shapes"] = draw(sym_shape(round(R0 * draw(fl(.4, 1, 100)), 4), (1., 13.)))
            l["x"] = draw(fl(-0.4, 0.4))
    if draw(st.integers(0, 3)) == 0:
        i = draw(st.integers(0, 1))
        p["clad"][i] = draw(sym_shape(round(R0 * draw(fl(.4, .7, 100)), 4), (1., 3.)))
    modes = sorted(draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)))
    if draw(st.booleans()):
        modes = sorted(set(modes) | {0, 1})
    return {"p": p, "trunc": trunc, "th": th,
            "gmax": draw(gen.gmax_abs(lat, 7, 23) if trunc == "abs" else gen.gmax_tbt(lat)),
            "k": draw(fl(0.03, 0.49)), "gamma": draw(st.integers(0, 7)) == 0, "modes": modes,
            "numeig": draw(st.integers(1, 10)), "sparse": draw(st.booleans()),
            "sigma": draw(pick(0., 0., draw(fl(0.1, 1)))),
            "case": draw(pick("both", "Both", "BOTH")), "move": draw(fl(0.05, 0.3))}


def turn(c, dy=0.):
    """The crystal with the mirror line at the angle th; shapes shifted along it (and across it)."""
    th = math.radians(c["th"])
    M = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])
    p = dict(c["p"])

    def f(shapes, x, y=0.):
        v = M @ np.array([x, y])
        return [gen.wrap_shape(gen.move_shape(gen.linear_shape(s, M), v), p["lat"]) for s in shapes]
    p["layers"] = [dict(l, shapes=f(l["shapes"], l.get("x", 0.), dy if i == 0 else 0.))
                   for i, l in enumerate(p["layers"])]
    p["clad"] = [f(s, 0.) for s in p["clad"]]
    return p, M


def run(c, p, k, **o):
    import legume
    gme = legume.GuidedModeExp(gen.build_phc(p), gmax=c["gmax"], truncate_g=c["trunc"])
    o = dict(dict(gmode_inds=c["modes"], verbose=False, use_sparse=c["sparse"], symm_thr=1e-4), **o)
    gme.run(kpoints=k.reshape(2, 1), angles=np.array([float(c["th"])]), **o)
    return gme


def check(c, ctx):
    p, M = turn(c)
    th = math.radians(c["th"])
    blen = 2 * np.pi / min(np.hypot(*v) for v in gen.lat_vectors(p["lat"]))
    k = np.zeros(2) if c["gamma"] else c["k"] * blen * M[:, 0]
    G = refs.gset(p["lat"], c["gmax"], c["trunc"])
    g = np.hypot(k[0] + G[0], k[1] + G[1])
    if np.any((g > 1e-6) & (g < 0.05)):
        raise Skip("k + G close to zero")
    nb = refs.well_posed(p, c["gmax"], c["trunc"], k, c["modes"], gmin=0.)
    # images of the plane waves, and the number of basis states of each parity
    R = M @ np.diag([1., -1.]) @ M.T
    im = np.array([np.argmin(np.hypot(*(G - (R @ v)[:, None]))) for v in G.T])
    if np.max(np.hypot(*(G[:, im] - R @ G))) > 1e-6:
        raise Skip("plane waves not symmetric")
    eps = gen.eps_avgs(p)
    fr = {}
    ne = no = 0
    for m in c["modes"]:
        pol = "te" if m % 2 == 0 else "tm"
        ex = np.isfinite(refs.slab_freqs(np.where(g < 1e-6, 1, g), eps,
                                         [l["d"] for l in p["layers"]], pol, m // 2)) & (g > 1e-6)
        s = np.sum(ex & (im == np.arange(len(g))))
        d = (np.sum(ex) - s) // 2
        ne, no = ne + d + (s if pol == "tm" else 0), no + d + (s if pol == "te" else 0)
    if ne == 0 or no == 0:
        raise Skip("a single parity")
    nb = ne + no
    gx = g < 1e-6
    if gx.any():
        # up to two modes of zero frequency
        nx = run(c, p, k, kz_symmetry=None, numeig=1, compute_im=False).eigvecs[0].shape[0]
        ctx.require(0 <= nx - nb <= 2, f"{nx} basis states, expected {nb} and at most two of zero "
                    "frequency")
        nb = nx
    n = min(nb, c["numeig"])
    a = run(c, p, k, kz_symmetry=None, numeig=nb)
    b = run(c, p, k, kz_symmetry=c["case"], numeig=nb)
    fa, fb = np.asarray(a.freqs)[0], np.asarray(b.freqs)[0]
    ctx.require(len(fb) == nb, "number of modes")
    low = 1e-3
    ctx.close(fb[fb > low]**2, fa[fa > low]**2, "squared frequencies with and without separation",
              1e-7, 1e-8)
    S = np.asarray(b.kz_symms)[0]
    ctx.require(S.shape == fb.shape and set(np.unique(S)) <= {1, -1}, f"labels {S}")
    ctx.require(gx.any() or np.sum(S == 1) == ne and np.sum(S == -1) == no,
                f"{np.sum(S == 1)} even and {np.sum(S == -1)} odd modes, expected {ne} and {no}")
    # losses
    ia, ib = np.asarray(a.freqs_im)[0], np.asarray(b.freqs_im)[0]
    bad = refs.near_light_line(2 * np.pi * fa, k, G[:, ~gx], eps[[0, -1]])
    for cl in refs.clusters(fa, 1e-5):
        if bad[cl].any() or fa[cl[0]] < low or max(cl) >= len(fb):
            continue
        ctx.close(fb[cl] @ ib[cl], fa[cl] @ ia[cl], f"frequency times loss of the mode(s) at {fa[cl]}",
                  1e-4, 1e-8)
    # parity of the fields, and of the radiation in the plane of incidence
    H = sum(l["d"] for l in p["layers"])
    for m in range(nb):
        if fb[m] < low:
            continue
        for z in (0.37 * H, -0.2, H + 0.13):
            F = np.array(b.ft_field_xy("H", 0, m, z))
            E = np.array(b.ft_field_xy("E", 0, m, z))
            sc = np.max(np.abs(F)) + 1e-12
            RE = np.vstack([R @ E[:2], E[2:]])
            RH = np.vstack([R @ F[:2], F[2:]])
            se = np.max(np.abs(E)) + 1e-12
            ctx.close(E[:, im] / se, S[m] * RE / se, f"mirror image of E of mode {m} with label {S[m]}",
                      0, 1e-4)
            ctx.close(F[:, im] / sc, -S[m] * RH / sc, f"mirror image of H of mode {m} with label "
                      f"{S[m]}", 0, 1e-4)
        for cl in "lu":
            gv = b.rad_gvec[cl][0][m]
            if gv.shape[1] == 0:
                continue
            tot = np.concatenate([b.rad_coup[x + y][0][m] for x in "lu" for y in ("_te", "_tm")])
            sc = np.max(np.abs(tot)) + 1e-3
            j = [i for i in range(gv.shape[1]) if np.hypot(*(R @ gv[:, i] - gv[:, i])) < 1e-6]
            if np.any(gx) and c["th"] % 90:
                j = [i for i in j if np.hypot(*(gv[:, i] + k)) > 1e-6]
            if np.any(gx) and c["th"] % 180:
                # at normal incidence s and p are with respect to the x direction
                j = [i for i in j if np.hypot(*(gv[:, i] + k)) > 1e-6]
            ch = b.rad_coup[cl + ("_te" if S[m] == 1 else "_tm")][0][m][j]
            ctx.close(ch / sc, np.zeros(len(j)), f"forbidden coupling of mode {m} (label {S[m]}) in "
                      f"the plane of incidence", 0, 2e-4)
            if len(j) and sc > 1e-5:
                ctx.label("radiation")
    # a single parity
    for name, s in (("even", 1), ("odd", -1)):
        want = fb[S == s]
        nn = min(n, len(want))
        o = dict(kz_symmetry=name if c["case"] == "both" else name.upper(), numeig=nn)
        sig = c["sigma"] if not gx.any() else 0.
        w = want[:nn]
        if sig:
            d = np.abs(want - sig)
            q = np.argsort(d)
            if nn < len(want) and d[q[nn]] - d[q[nn - 1]] < 1e-6:
                continue
            w = np.sort(want[q[:nn]])
            o["eig_sigma"] = sig
        e = run(c, p, k, **o)
        fe = np.asarray(e.freqs)[0]
        ctx.require(fe.shape == w.shape, f"{len(fe)} {name} modes, {nn} requested")
        ctx.close(np.where(fe < low, 0, fe)**2, np.where(w < low, 0, w)**2,
                  f"squared frequencies of the {name} modes", 1e-7, 1e-8)
        ctx.require(np.asarray(e.kz_symms).shape == (1, nn) and np.all(np.asarray(e.kz_symms) == s),
                    f"labels of {name} modes: {e.kz_symms}")
        ctx.close(np.asarray(e.freqs_im)[0][(fe > low)],
                  np.array([ib[S == s][np.argmin(np.abs(want - x))] for x in fe if x > low]),
                  f"losses of the {name} modes", 1e-3, 1e-7) \
            if not bad.any() and np.all(np.diff(want) > 1e-5) else None
    # with numeig
    e = run(c, p, k, kz_symmetry="both", numeig=n, compute_im=False)
    fe = np.asarray(e.freqs)[0]
    ctx.close(np.where(fe < low, 0, fe)**2, np.where(fb < low, 0, fb)[:n]**2,
              "squared frequencies of the lowest modes", 1e-7, 1e-8)
    sig = c["sigma"] if not gx.any() else 0.
    if sig:
        d = np.abs(fb - sig)
        q = np.argsort(d)
        if n == nb or d[q[n]] - d[q[n - 1]] > 1e-6:
            e = run(c, p, k, kz_symmetry="both", numeig=n, eig_sigma=sig)
            j = np.sort(q[:n])
            ctx.close(np.asarray(e.freqs)[0]**2, fb[j]**2, f"squared frequencies of the modes nearest to {sig}", 1e-7, 1e-8)
            gap = np.array([np.abs(np.delete(fb, i) - fb[i]).min() if nb > 1 else 1. for i in j]) > 1e-5
            ctx.require(np.array_equal(np.asarray(e.kz_symms)[0][gap], S[j][gap]), f"labels {e.kz_symms} of the modes nearest to "
                        f"{sig}, {S[j]} when all are computed")
            ctx.label("sigma")
    # more modes than there are of the parity
    for name, most in (("even", np.sum(S == 1)), ("odd", np.sum(S == -1)), ("both", nb)):
        try:
            e = run(c, p, k, kz_symmetry=name, numeig=int(most) + 1, compute_im=False)
        except ValueError:
            continue
        ctx.require(False, f"{most + 1} {name} modes requested, there are {most}: {np.asarray(e.freqs)[0].tolist()} "
                    "instead of ValueError")
    ctx.nontrivial()
    ctx.label(p["lat"]["kind"], f"angle {c['th'] % 180}", c["trunc"], "sparse" if c["sparse"] else "dense")
    if c["gamma"]:
        ctx.label("k = 0")


# ------------------------------------------------------------------ without the plane

@st.composite
def bad_cases(draw):
    c = draw(cases())
    c["what"] = draw(pick("shifted", "angle", "lattice", "no angles"))
    c["modes"] = [0, 1]
    c["gamma"] = False
    c["bad"] = draw(pick(7., 15., 22.5, 50., 0.3, -0.4, 1., -0.01, 1e-4))
    return c


def check_bad(c, ctx):
    import legume
    w = c["what"]
    c = dict(c, trunc="abs" if w != "lattice" else c["trunc"])
    if c["trunc"] == "tbt":
        c["trunc"], c["gmax"] = "abs", 1.3 / gen.shortest(*gen.lat_vectors(c["p"]["lat"]))
    p, M = turn(c)
    k = c["k"] * 2 * np.pi * M[:, 0]
    ang = float(c["th"])
    if w == "shifted":
        # one shape off the line, by an amount which no lattice vector can undo
        a1, a2 = gen.lat_vectors(p["lat"])
        r = gen.shortest(a1, a2)
        l = dict(p["layers"][0], eps_b=12., shapes=[{"t": "circle", "eps": 1., "r": 0.25 * r, **dict(
            zip("xy", (M @ np.array([0., 0.2 * r * c["move"] / 0.3])).tolist()))}])
        p["layers"] = [l] + p["layers"][1:]
    elif w == "angle":
        ang += c["bad"]
    elif w == "lattice":
        p["lat"] = {"kind": "obl", "a1": [1., 0.], "a2": [0.3, 1.1]}
    gme = legume.GuidedModeExp(gen.build_phc(p), gmax=c["gmax"])
    kw = {} if w == "no angles" else {"angles": np.array([ang])}
    refs.well_posed(p, c["gmax"], "abs", k, c["modes"])
    G = refs.gset(p["lat"], c["gmax"], "abs")
    if np.all(np.abs(k[0] * G[1] - k[1] * G[0]) < 1e-6):
        raise Skip("no plane wave off the line of k")
    ctx.nontrivial()
    ctx.label(w)
    try:
        gme.run(kpoints=k.reshape(2, 1), kz_symmetry="both", gmode_inds=c["modes"], numeig=2,
                verbose=False, use_sparse=c["sparse"], **kw)
    except ValueError:
        return
    ctx.require(False, f"accepted a calculation without mirror plane ({w})")


# ------------------------------------------------------------------ along a path

@st.composite
def path_cases(draw):
    kind = draw(pick("square", "hexagonal"))
    p = draw(gen.phc(lat={"kind": kind}, max_shapes=0))
    r = draw(fl(0.1, 0.42))
    p["layers"][0]["shapes"] = [{"t": "circle", "eps": draw(fl(1, 13, 100)), "x": 0., "y": 0., "r": r}]
    if kind == "square" and draw(st.booleans()):
        p["layers"][-1]["shapes"] = [{"t": "square", "eps": 1., "x": 0., "y": 0., "a": r}]
    return {"p": p, "ns": draw(st.integers(1, 3)), "gmax": draw(gen.gmax_abs(p["lat"], 7, 21)),
            "modes": [0, 1], "trunc": "abs", "sparse": draw(st.booleans()), "n": draw(st.integers(2, 8))}


def check_path(c, ctx):
    """The k points and angles of bz_path are accepted, and both parities together are all modes."""
    import legume
    p = c["p"]
    ph = gen.build_phc(p)
    pts = ["X", "G", "M"] if p["lat"]["kind"] == "square" else ["M", "G", "K"]
    path = ph.lattice.bz_path(pts, [c["ns"]])
    K, A = path["kpoints"], path["angles"]
    nb = 10**9
    for kk in K.T:
        if np.hypot(*kk) > 1e-6:
            nb = min(nb, refs.well_posed(p, c["gmax"], "abs", kk, c["modes"]))
    n = min(c["n"], nb // 4)
    if n < 1:
        raise Skip("too few modes")
    out = {}
    for s in (None, "both", "even", "odd"):
        gme = legume.GuidedModeExp(ph, gmax=c["gmax"])
        gme.run(kpoints=K, angles=A, kz_symmetry=s, gmode_inds=c["modes"], numeig=n, verbose=False,
                use_sparse=c["sparse"], compute_im=False, symm_thr=1e-4)
        out[s] = gme
    f0, fb = np.asarray(out[None].freqs), np.asarray(out["both"].freqs)
    z = lambda x: np.where(x < 1e-3, 0, x)**2
    ctx.close(z(fb), z(f0), "squared frequencies with and without separation", 1e-7, 1e-8)
    for i in range(K.shape[1]):
        m = np.sort(np.concatenate([np.asarray(out["even"].freqs)[i], np.asarray(out["odd"].freqs)[i]]))
        ctx.close(z(m[:n]), z(f0[i]), f"squared frequencies of even and odd modes at k = {K[:, i]}",
                  1e-7, 1e-8)
        # labels, and fields of each k point about its own plane
        th = math.radians(A[i])
        R = np.array([[math.cos(2 * th), math.sin(2 * th)], [math.sin(2 * th), -math.cos(2 * th)]])
        ctx.close(R @ K[:, i], K[:, i], "wave vector off its plane", 1e-9, 1e-9)
        G = np.asarray(out["both"].gvec)
        im = np.array([np.argmin(np.hypot(*(G - (R @ v)[:, None]))) for v in G.T])
        if np.max(np.hypot(*(G[:, im] - R @ G))) > 1e-6:
            continue
        for s in ("both", "even", "odd"):
            e = out[s]
            for m in range(np.asarray(e.freqs).shape[1]):
                if np.asarray(e.freqs)[i, m] < 1e-3:
                    continue
                S = np.asarray(e.kz_symms)[i, m]
                ctx.require(s == "both" or S == (1 if s == "even" else -1), f"label {S} of the {s} mode {m} at {K[:, i]}")
                H = np.array(e.ft_field_xy("H", i, m, 0.4 * p["layers"][0]["d"]))
                D = np.array(e.ft_field_xy("D", i, m, 0.4 * p["layers"][0]["d"]))
                for F, sg in ((H, -S), (D, S)):
                    sc = np.abs(F).max() + 1e-12
                    ctx.close(F[:, im] / sc, sg * np.vstack([R @ F[:2], F[2:]]) / sc,
                              f"mirror image of the field of mode {m} at k point {i}, label {S}", 0, 1e-4)
    ctx.nontrivial()
    ctx.label(p["lat"]["kind"])


PARTS = [
    {"name": "parity", "cases": cases, "check": check, "quick": 320, "thorough": 8000},
    {"name": "rejected", "cases": bad_cases, "check": check_bad, "quick": 120, "thorough": 1500},
    {"name": "path", "cases": path_cases, "check": check_path, "quick": 80, "thorough": 1200},
]
