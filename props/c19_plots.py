"""The artists of every figure against the data they stand for."""
import os

os.environ["MPLBACKEND"] = "Agg"

import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from harness import gen, refs  # noqa: E402
from harness.core import Skip  # noqa: E402
from harness.gen import fl, pick  # noqa: E402

ID = "C19"
TITLE = "Plots show the computed data"
TECHNIQUE = "property-based testing (Hypothesis), oracle: the data of the simulation against the matplotlib artists"
RULE = ("random crystals, runs and options of bands, pol_bands, eps, eps_xy, eps_xz, eps_yz, structure, shapes, "
        "eps_ft, pot_ft, field, wavef, reciprocal: coordinates, values, colours, extents of the artists; "
        "non-trivial: a figure with data of a patterned crystal")
ASSUMPTIONS = ["matplotlib draws its artists", "permittivities and fields on a grid are those of C03, C11, C15"]

H_EV, C0 = 4.135667696e-15, 299792458.0


def mpl():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt


def path_lengths(k):
    d = np.hypot(*np.diff(k, axis=1))
    return np.concatenate([[0.], np.cumsum(d) / d.sum()]) if d.size else np.array([0.])


def check_cone(ctx, ax, X, k, p, conv, top, on):
    from matplotlib.collections import PathCollection
    polys = [c for c in ax.collections if not isinstance(c, PathCollection)]
    ctx.require(len(polys) == int(on), f"{len(polys)} light cones drawn, expected {int(on)}")
    if not on:
        return
    e = gen.eps_avgs(p)
    ll = conv * np.hypot(*k) / 2 / np.pi / np.sqrt(max(e[0], e[-1]))
    v = np.vstack([q.vertices for q in polys[0].get_paths()])
    for x, y in zip(X, ll):
        d = np.abs(v[:, 0] - x) + np.abs(v[:, 1] - y)
        ctx.require(d.min() < 1e-9 * (1 + y), f"no vertex of the light cone at ({x}, {y}): {v.tolist()}")
    # between the k-points the cone is filled from the light line to above all data
    ctx.require(v[:, 1].max() >= top, "the light cone ends below the highest band")
    lo = {round(x, 9): min(y for u, y in v if abs(u - x) < 1e-9) for x in X}
    for x, y in zip(X, ll):
        ctx.require(abs(lo[round(x, 9)] - y) < 1e-9 * (1 + y) or y > top, f"the light cone starts below the light line at {x}")


def scatters(ax):
    from matplotlib.collections import PathCollection
    return [c for c in ax.collections if isinstance(c, PathCollection)]


def check_points(ctx, ax, X, F, colours):
    """The points (X_i, F_im) in any order; colours: None, or values of the points."""
    want = np.array([[x, f] for x, row in zip(X, F) for f in row])
    sc = scatters(ax)
    if colours is None and not sc:
        lines = ax.lines
        ctx.require(lines, "no bands drawn")
        got = np.vstack([np.column_stack([l.get_xdata(), l.get_ydata()]) for l in lines])
        ctx.require(all(l.get_marker() not in (None, "None", "") or l.get_linestyle() not in ("None", "")
                        for l in lines), "neither markers nor lines")
        cg = None
    else:
        ctx.require(len(sc) == 1, f"{len(sc)} scatter plots")
        got = np.asarray(sc[0].get_offsets())
        cg = None if sc[0].get_array() is None else np.asarray(sc[0].get_array()).ravel()
    ctx.require(got.shape == want.shape, f"{got.shape[0]} points drawn, expected {want.shape[0]}")
    ctx.require(np.all(np.isfinite(got)), "points that are not finite")
    cw = None if colours is None else np.asarray(colours, float).ravel()

    def table(a, c):
        a = np.round(a / (1e-9 + np.abs(want).max()), 9)
        cols = [a] if c is None else [a, np.asarray(c)[:, None]]
        t = np.column_stack(cols)
        return t[np.lexsort(t.T[::-1])]
    if cw is not None:
        ctx.require(cg is not None and cg.size == cw.size, "points without the colours of the data")
    tg, tw = table(got, cg if cw is not None else None), table(want, cw)
    ctx.close(tg, tw, "points (and colours)", 1e-6, 1e-7)
    return sc[0] if sc else None


def drawn(c, ax):
    if c.get("draw"):
        ax.figure.canvas.draw()


# ---------------------------------------------------------------- bands

@st.composite
def band_cases(draw):
    what = draw(pick("gme", "gme", "sym", "sym", "pwe"))
    if what == "sym":
        lat = draw(gen.lattice(("square", "rect")))
        p = draw(gen.phc(lat=lat, nlayers=(1, 1), max_shapes=0))
        r = gen.shortest(*gen.lat_vectors(lat))
        p["layers"][0]["shapes"] = [{"t": "circle", "eps": draw(fl(1, 5, 100)), "x": 0., "y": 0.,
                                     "r": draw(fl(0.15, 0.4)) * r}]
        k = [[draw(fl(0.06, 0.44)), 0.] for _ in range(draw(st.integers(1, 4)))]
    else:
        p = draw(gen.phc(nlayers=(1, 2), min_shapes=1, max_shapes=1, clad_shapes=True))
        k = [draw(gen.kfrac()) for _ in range(draw(st.integers(1, 4)))]
    return {"p": p, "what": what, "k": k, "g": draw(pick(1.05, 1.3)), "n": draw(st.integers(1, 4)),
            "sym": draw(pick("both", "both", "even", "odd", "Both")), "Q": draw(st.booleans()),
            "clip": draw(pick(None, 1e3, 1e5, 10.)), "cone": draw(pick(None, True, False)),
            "eV": draw(pick(False, False, True)), "a": draw(fl(100, 900, 1)), "ku": draw(st.booleans()),
            "show": draw(pick(None, True, False)), "ax": draw(st.booleans()), "im": draw(st.booleans()),
            "ms": draw(pick(None, 3)), "draw": draw(pick(True, False, False, False))}


def check_bands(c, ctx):
    import legume
    plt = mpl()
    p = c["p"]
    phc = gen.build_phc(p)
    gmax = c["g"] / gen.shortest(*gen.lat_vectors(p["lat"]))
    ks = gen.kpts(p["lat"], c["k"])
    if c["ku"] and ks.shape[1] > 1 and np.hypot(*np.diff(ks, axis=1)).sum() < 1e-9:
        raise Skip("a path of length zero")
    Q = c["Q"] and c["what"] != "pwe"
    if c["what"] == "pwe":
        s = legume.PlaneWaveExp(phc.layers[0], gmax=gmax)
        s.run(kpoints=ks, numeig=c["n"], pol="te")
    else:
        nb = min(refs.well_posed(p, gmax, "abs", ks[:, i], [0, 1]) for i in range(ks.shape[1]))
        n = min(c["n"], nb)
        if n < 1:
            raise Skip("too few guided modes")
        s = legume.GuidedModeExp(phc, gmax=gmax, truncate_g="abs")
        o = {"gmode_inds": [0, 1], "numeig": n, "verbose": False, "compute_im": c["im"]}
        if c["what"] == "sym":
            o.update(kz_symmetry=c["sym"], angles=np.zeros(ks.shape[1]))
        try:
            s.run(kpoints=ks, **o)
        except ValueError:
            if c["what"] == "sym":
                raise Skip("too few modes of this parity")
            raise
    F = np.array(s.freqs)
    kw = {}
    if Q:
        kw["Q"] = True
    if c["clip"] is not None:
        kw["Q_clip"] = c["clip"]
    if c["cone"] is not None:
        kw["cone"] = c["cone"]
    conv = 1.
    if c["eV"]:
        kw.update(eV=True, a=c["a"] * 1e-9)
        conv = H_EV * C0 / (c["a"] * 1e-9)
    if c["ku"]:
        kw["k_units"] = True
    if c["show"] is not None:
        kw["show_symmetry"] = c["show"]
    if c["ms"] is not None:
        kw["markersize"] = c["ms"]
    if c["ax"]:
        other, mine = plt.subplots(1, 2)[1]
        kw["ax"] = mine
    ax = legume.viz.bands(s, **kw)
    if c["ax"]:
        ctx.require(ax is mine, "not drawn on the given axes")
        ctx.require(not other.lines and not other.collections, "drawn on other axes")
    ctx.close(s.freqs, F, "frequencies after plotting", 0, 0)
    X = path_lengths(ks) if c["ku"] else np.arange(ks.shape[1]) * 1.
    colours = None
    both = c["what"] == "sym" and c["sym"].lower() == "both"
    show = both and c["show"] is not False
    if Q:
        im = np.asarray(s.freqs_im, float)
        if not c["im"]:
            ref = legume.GuidedModeExp(phc, gmax=gmax, truncate_g="abs")
            o["compute_im"] = True
            ref.run(kpoints=ks, **o)
            ctx.close(im, ref.freqs_im, "losses computed by the plot", 1e-3, 1e-7)
        colours = F / 2 / (im + 1e-16)
        colours = np.log(np.abs(colours))
    sc = scatters(ax)
    if Q and sc:
        arr = np.asarray(sc[0].get_array(), float)
        q = (F / 2 / (np.asarray(s.freqs_im, float) + 1e-16)).ravel()
        clip = 1e10 if c["clip"] is None else c["clip"]
        below = q[q < clip]
        # (a colour scale of zero width is widened by matplotlib)
        if below.size and sc[0].norm.vmax is not None and np.ptp(np.minimum(q, below.max())) > 1e-3 * below.max():
            ctx.require(sc[0].norm.vmax <= clip * (1 + 1e-9), f"colours up to Q = {sc[0].norm.vmax}, clipped at {clip}")
            ctx.close(sc[0].norm.vmax, below.max(), "end of the colour scale", 1e-6, 0)
        sc[0].set_array(np.log(np.abs(arr)))
        check_points(ctx, ax, X, F * conv, colours)
        sc[0].set_array(arr)
        cm = plt.get_cmap("viridis")
        if show:
            e = np.asarray(sc[0].get_edgecolors())
            sy = np.asarray(s.kz_symms, float).ravel()
            off = np.asarray(sc[0].get_offsets())
            want = np.array([[x, f] for x, row in zip(X, F * conv) for f in row])
            if e.shape[0] == off.shape[0] and np.array_equal(off, want):
                for m in range(len(sy)):
                    ctx.require((e[m, 0] > e[m, 2]) == (sy[m] > 0), f"parity {sy[m]} outlined in {e[m]}")
            else:
                ctx.require(e.shape[0] == off.shape[0], f"{e.shape[0]} edge colours of {off.shape[0]} points")
        ctx.label("Q")
    elif show:
        sy = np.asarray(s.kz_symms, float)
        sc0 = check_points(ctx, ax, X, F * conv, sy)
        sc0.update_scalarmappable()
        fc = np.asarray(sc0.get_facecolors())
        val = np.asarray(sc0.get_array()).ravel()
        ctx.require(fc.shape[0] == val.size, f"{fc.shape[0]} colours of {val.size} points")
        for f, v in zip(fc, val):
            ctx.require((f[0] > f[2]) == (v > 0) and abs(f[0] - f[2]) > 0.1, f"parity {v} in the colour {f}")
        ctx.label("parity")
    else:
        check_points(ctx, ax, X, F * conv, None)
    check_cone(ctx, ax, X, ks, p, conv, (F * conv).max(),
               c["cone"] is not False and c["what"] != "pwe")
    lo, hi = ax.get_ylim()
    ctx.require(abs(lo) < 1e-12 and hi >= (F * conv).max() * (1 - 1e-9), f"limits of the frequency {lo}, {hi}")
    if ks.shape[1] > 1:
        lo, hi = ax.get_xlim()
        ctx.require(lo <= 1e-12 and hi >= X.max() - 1e-9, f"limits of the wave vector {lo}, {hi}")
    ctx.require(("eV" in ax.get_ylabel()) == c["eV"], f"label {ax.get_ylabel()!r}")
    drawn(c, ax)
    ctx.label(c["what"], "eV" if c["eV"] else "reduced", "k_units" if c["ku"] else "index")
    ctx.nontrivial()


# ---------------------------------------------------------------- polaritons

@st.composite
def pol_cases(draw):
    p = draw(gen.phc(nlayers=(1, 2), min_shapes=1, max_shapes=1))
    return {"p": p, "k": [draw(gen.kfrac()) for _ in range(draw(st.integers(1, 3)))], "n": draw(st.integers(1, 3)),
            "m": draw(st.integers(1, 3)), "Q": draw(pick(None, True, False)), "fr": draw(st.booleans()),
            "cone": draw(pick(None, True, False)), "ku": draw(st.booleans()), "a": draw(fl(200, 900, 1)),
            "E0": draw(fl(0.5, 2, 100)), "ax": draw(st.booleans()), "lim": draw(pick(None, [10., 1e3])),
            "draw": draw(pick(True, False, False))}


def check_pol(c, ctx):
    import legume
    plt = mpl()
    p = c["p"]
    phc = gen.build_phc(p)
    ks = gen.kpts(p["lat"], c["k"])
    gmax = 1.05 / gen.shortest(*gen.lat_vectors(p["lat"]))
    if ks.shape[1] > 1 and np.hypot(*np.diff(ks, axis=1)).sum() < 1e-9:
        raise Skip("a path of length zero")
    nb = min(refs.well_posed(p, gmax, "abs", ks[:, i], [0]) for i in range(ks.shape[1]))
    n = min(c["n"], nb)
    if n < 1 or n + c["m"] < 2:
        raise Skip("too few guided modes")
    phc.add_qw(z=float(phc.layers[0].z_mid), V_shapes=1e-3, a=c["a"] * 1e-9, M=2e-31, E0=c["E0"], loss=1e-3,
               osc_str=[1e17, 1e17, 0.])
    s = legume.HopfieldPol(phc, gmax)
    s.run(kpoints=ks, gme_options={"gmode_inds": [0], "numeig": n, "verbose": False},
          exc_options={"numeig_ex": c["m"], "verbose_ex": False}, verbose=False)
    E = np.array(s.eners)
    kw = {}
    if c["Q"] is not None:
        kw["Q"] = c["Q"]
    if c["fr"]:
        kw["fraction"] = True
    if c["cone"] is not None:
        kw["cone"] = c["cone"]
    if c["ku"]:
        kw["k_units"] = True
    if c["lim"]:
        kw.update(Q_min=c["lim"][0], Q_max=c["lim"][1])
    if c["ax"]:
        kw["ax"] = plt.subplots(1, 2)[1][1]
    ax = legume.viz.pol_bands(s, **kw)
    if c["ax"]:
        ctx.require(ax is kw["ax"], "not drawn on the given axes")
    ctx.close(s.eners, E, "energies after plotting", 0, 0)
    X = path_lengths(ks) if c["ku"] else np.arange(ks.shape[1]) * 1.
    sc = scatters(ax)
    if c["fr"]:
        s0 = check_points(ctx, ax, X, E, s.fractions_ex)
        ctx.close([s0.norm.vmin, s0.norm.vmax], np.array([0., 1.]), "limits of the fraction", 0, 1e-12)
        ctx.label("fraction")
    elif c["Q"] is not False:
        ctx.require(len(sc) == 1, f"{len(sc)} scatter plots")
        arr = np.asarray(sc[0].get_array(), float)
        sc[0].set_array(np.log(np.abs(arr)))
        check_points(ctx, ax, X, E, np.log(np.abs(E / 2 / (np.asarray(s.eners_im) + 1e-16))))
        sc[0].set_array(arr)
        lim = c["lim"] or [1e2, 1e4]
        ctx.close([sc[0].norm.vmin, sc[0].norm.vmax], np.array(lim), "limits of the quality factor", 1e-9, 0)
        ctx.label("Q")
    else:
        check_points(ctx, ax, X, E, None)
    check_cone(ctx, ax, X, ks, p, H_EV * C0 / (c["a"] * 1e-9), E.max(), c["cone"] is not False)
    lo, hi = ax.get_ylim()
    ctx.require(abs(lo) < 1e-12 and hi >= E.max() * (1 - 1e-9), f"limits of the energy {lo}, {hi}")
    drawn(c, ax)
    ctx.nontrivial()


# ---------------------------------------------------------------- maps

def image(ctx, ax, Z, extent, what, rtol=1e-9, atol=1e-9):
    ims = ax.get_images()
    ctx.require(len(ims) == 1, f"{len(ims)} images of {what}")
    im = ims[0]
    A = np.ma.getdata(im.get_array())
    if im.origin == "upper":
        A = A[::-1]
    ctx.close(A, Z, f"image of {what}", rtol, atol)
    ctx.close(np.array(im.get_extent(), float), np.array(extent, float), f"extent of {what}", 1e-9, 1e-9)
    return im


@st.composite
def eps_cases(draw):
    p = draw(gen.phc(nlayers=(1, 3), min_shapes=draw(pick(0, 1, 1)), clad_shapes=True))
    return {"p": p, "what": draw(pick("eps", "eps_xy", "eps_xz", "eps_yz", "structure", "structure", "shapes")),
            "N": [draw(st.integers(2, 9)) for _ in range(3)], "at": draw(fl(-0.7, 0.7)),
            "z": draw(fl(-0.4, 1.5)), "lay": draw(st.integers(0, 2)), "clim": draw(pick(None, [1., 13.])),
            "cbar": draw(pick(None, True, False)), "ax": draw(st.booleans()), "plot": draw(pick(True, True, False)),
            "clad": draw(st.booleans()), "xy": draw(pick(True, True, False)), "xz": draw(st.booleans()),
            "yz": draw(st.booleans()), "obj": draw(pick("phc", "phc", "gme", "pol")), "gs": draw(pick(False, False, True)),
            "pad": draw(pick(None, True, False)), "npts": draw(pick(None, 20)), "qw": draw(st.booleans()),
            "fs": draw(pick(None, 3, 3., [3, 5])), "draw": draw(pick(True, False, False, False))}


def eps_at(phc, X, Y, Z):
    """Point by point."""
    X, Y, Z = np.broadcast_arrays(np.asarray(X, float), np.asarray(Y, float), np.asarray(Z, float))
    return np.asarray(phc.get_eps((X.reshape(-1, 1), Y.reshape(-1, 1), Z.reshape(-1, 1)))).reshape(X.shape)


def same_curve(ctx, got, s, shift):
    """got: points of a drawn outline; s: spec of the shape."""
    q = got - shift
    v = refs.shape_vertices(s)
    if v is None:
        rx, ry, ph = (s["r"], s["r"], 0.) if s["t"] == "circle" else (s["rx"], s["ry"], s["phi"])
        u = (q[:, 0] - s["x"]) * np.cos(ph) + (q[:, 1] - s["y"]) * np.sin(ph)
        w = -(q[:, 0] - s["x"]) * np.sin(ph) + (q[:, 1] - s["y"]) * np.cos(ph)
        t = np.unwrap(np.arctan2(w / ry, u / rx))
        return np.abs(np.hypot(u / rx, w / ry) - 1).max() < 1e-9 and abs(abs(t[-1] - t[0]) - 2 * np.pi) < 1e-6
    q = q[np.append(True, np.abs(np.diff(q, axis=0)).max(1) > 1e-9)]      # repeated points
    d = np.hypot(q[:, None, 0] - v[None, :, 0], q[:, None, 1] - v[None, :, 1])
    return d.min(0).max() < 1e-9 and d.min(1).max() < 1e-9 and len(q) == len(v) + 1 and \
        np.abs(q[0] - q[-1]).max() < 1e-9


def check_eps(c, ctx):
    import legume
    plt = mpl()
    p = c["p"]
    phc = gen.build_phc(p)
    lat = phc.lattice
    N1, N2, N3 = c["N"]
    kw = {}
    if c["clim"]:
        kw["clim"] = c["clim"]
    if c["cbar"] is not None:
        kw["cbar"] = c["cbar"]
    mine = plt.subplots(1, 2)[1][1] if c["ax"] else None
    if c["ax"]:
        kw["ax"] = mine
    w = c["what"]
    before = repr(phc)
    ctx.label(w)
    ctx.nontrivial(any(sh for _, sh in refs.layer_specs(p)))
    a1, a2 = gen.lat_vectors(p["lat"])
    if w == "eps":
        lay = phc.layers[c["lay"] % len(phc.layers)]
        legume.viz.eps(lay, Nx=N1, Ny=N2, **kw)
        ax = mine if c["ax"] else plt.gcf().axes[0]
        x, y = lat.xy_grid(Nx=N1, Ny=N2)
        X, Y = np.meshgrid(x, y)
        im = image(ctx, ax, eps_at(phc, X, Y, (lay.z_min + lay.z_max) / 2 + 0 * X), [x[0], x[-1], y[0], y[-1]], w)
        if c["clim"]:
            ctx.close(im.get_clim(), np.array(c["clim"]), "colour limits", 0, 0)
        return
    if w in ("eps_xy", "eps_xz", "eps_yz"):
        if w == "eps_xy":
            x, y = lat.xy_grid(Nx=N1, Ny=N2)
            X, Y = np.meshgrid(x, y)
            Z = eps_at(phc, X, Y, c["z"])
            opt = {"z": c["z"], "Nx": N1, "Ny": N2}
        elif w == "eps_xz":
            x, y = lat.xy_grid(Nx=N1)[0], phc.z_grid(Nz=N3)
            X, Y = np.meshgrid(x, y)
            Z = eps_at(phc, X, c["at"], Y)
            opt = {"y": c["at"], "Nx": N1, "Nz": N3}
        else:
            x, y = lat.xy_grid(Ny=N2)[1], phc.z_grid(Nz=N3)
            X, Y = np.meshgrid(x, y)
            Z = eps_at(phc, c["at"], X, Y)
            opt = {"x": c["at"], "Ny": N2, "Nz": N3}
        if not c["plot"]:
            kw["plot"] = False
            nf = len(plt.get_fignums())
        got = getattr(legume.viz, w)(phc, **opt, **kw)
        ctx.close(got, Z, f"values returned by {w}", 1e-12, 1e-12)
        if not c["plot"]:
            ctx.require(len(plt.get_fignums()) == nf and (mine is None or not mine.get_images()),
                        "a figure although plot=False")
            return
        ax = mine if c["ax"] else plt.gcf().axes[0]
        im = image(ctx, ax, Z, [x[0], x[-1], y[0], y[-1]], w)
        if c["clim"]:
            ctx.close(im.get_clim(), np.array(c["clim"]), "colour limits", 0, 0)
        nax = len(ax.figure.axes)
        ctx.require(nax == (2 if c["ax"] else 1) + int(c["cbar"] is True), f"{nax} axes, cbar = {c['cbar']}")
        return
    if w == "shapes":
        i = c["lay"] % len(phc.layers)
        lay = phc.layers[i]
        opt = {}
        if c["pad"] is not None:
            opt["pad"] = c["pad"]
        if c["npts"] is not None:
            opt["npts"] = c["npts"]
        if c["ax"]:
            opt["ax"] = mine
        legume.viz.shapes(lay, **opt)
        ax = mine if c["ax"] else plt.gcf().axes[0]
        shifts = [0 * a1] + ([a1, -a1, a2, -a2] if c["pad"] is not False else [])
        left = [np.column_stack([l.get_xdata(), l.get_ydata()]) for l in ax.lines]
        n = len(left)
        for s in p["layers"][i]["shapes"]:
            for t in shifts:
                j = [m for m, q in enumerate(left) if same_curve(ctx, q, s, t)]
                ctx.require(j, f"no outline of {s} shifted by {t}")
                left.pop(j[0])
        ctx.require(not left, f"{len(left)} of {n} outlines do not belong to the layer")
        x, y = lat.xy_grid(Nx=2, Ny=2)
        ctx.close(ax.get_xlim(), np.array(x), "x limits", 1e-9, 1e-9)
        ctx.close(ax.get_ylim(), np.array(y), "y limits", 1e-9, 1e-9)
        return
    # structure
    if not (c["xy"] or c["xz"] or c["yz"]):
        raise Skip("nothing to draw")
    zq = []
    if c["qw"] or c["obj"] == "pol":
        zq = [float(l.z_mid) for l in phc.layers]
        for z in zq:
            phc.add_qw(z=z, V_shapes=1e-3, a=4e-7, M=2e-31, E0=1.6, loss=0., osc_str=[1e16, 0, 0])
    before = repr(phc)
    obj = phc
    if c["obj"] == "gme":
        obj = legume.GuidedModeExp(phc, gmax=1.05, truncate_g="abs")
        zq = []
    elif c["obj"] == "pol":
        obj = legume.HopfieldPol(phc, 1.05)
    opt = {"Nx": N1, "Ny": N2, "Nz": N3, "cladding": c["clad"], "xy": c["xy"], "xz": c["xz"], "yz": c["yz"]}
    if c["cbar"] is not None:
        opt["cbar"] = c["cbar"]
    if c["gs"]:
        fig = plt.figure()
        import matplotlib as m
        opt.update(fig=fig, gridspec=m.gridspec.GridSpec(1, 2, figure=fig)[0])
    if c["fs"] is not None:
        opt["figsize"] = tuple(c["fs"]) if isinstance(c["fs"], list) else c["fs"]
    legume.viz.structure(obj, **opt)
    fig = fig if c["gs"] else plt.gcf()
    axes = [a for a in fig.axes if a.get_images() and not hasattr(a, "_colorbar")]
    x, y = lat.xy_grid(Nx=N1, Ny=N2)
    z = phc.z_grid(Nz=N3)
    want = []
    if c["xz"]:
        X, Z = np.meshgrid(x, z)
        want.append((eps_at(phc, X, 0., Z), [x[0], x[-1], z[0], z[-1]], "xz plane", True))
    if c["yz"]:
        Y, Z = np.meshgrid(y, z)
        want.append((eps_at(phc, 0., Y, Z), [y[0], y[-1], z[0], z[-1]], "yz plane", True))
    if c["xy"]:
        hs = [(l.z_min + l.z_max) / 2 for l in phc.layers]
        if c["clad"]:
            hs = [phc.layers[0].z_min - 1] + hs + [phc.layers[-1].z_max + 1]
        X, Y = np.meshgrid(x, y)
        for h in hs:
            want.append((eps_at(phc, X, Y, h), [x[0], x[-1], y[0], y[-1]], f"plane z = {h}", False))
    ctx.require(len(axes) == len(want), f"{len(axes)} maps, expected {len(want)}")
    spots = {tuple(np.round(a.get_position().bounds, 6)) for a in axes}
    ctx.require(len(spots) == len(axes), "maps drawn on top of each other")
    allv = [e for eb, sh in refs.layer_specs(p) for e in [eb] + [s["eps"] for s in sh]]
    for ax, (Z, ext, name, vert) in zip(axes, want):
        t = ax.get_title()
        ctx.require(t[:2] == (name[:2] if vert else "xy") and
                    (vert or not c["clad"] or ("lower" in t, "upper" in t) == (name == want[-len(hs)][2],
                                                                              name == want[-1][2])), f"{name} has the title {t!r}")
        im = image(ctx, ax, Z, ext, name)
        ctx.close(im.get_clim(), np.array([min(allv), max(allv)]), f"colour limits of the {name}", 1e-9, 1e-9)
        lines = sorted(float(s[0][1]) for col in ax.collections for s in col.get_segments())
        ctx.close(np.array(lines), np.array(sorted(zq) if vert else []), f"wells drawn in the {name}", 1e-9, 1e-9)
    titles = [a.get_title() for a in axes]
    ctx.require(len(set(titles)) == len(titles), f"maps with the same title {titles}")
    if c["xy"] and not c["clad"]:
        ctx.require(all(str(i) in t.split() for i, t in enumerate(titles[-len(hs):])), f"titles {titles} of the layers")
    if c["draw"]:
        fig.canvas.draw()
    if c["obj"] == "phc":
        ctx.require(repr(phc) == before, "the plot changed the crystal")


# ---------------------------------------------------------------- fields, Fourier sums, wave functions

@st.composite
def field_cases(draw):
    p = draw(gen.phc(nlayers=(1, 2), min_shapes=1, clad_shapes=True))
    return {"p": p, "what": draw(pick("gme", "gme", "gme", "pwe", "eps_ft gme", "eps_ft pwe", "pot_ft", "wavef",
                                      "reciprocal", "bad", "bad")),
            "trunc": draw(pick("abs", "tbt")), "g": draw(pick(1.05, 1.3)), "pol": draw(pick("te", "tm")),
            "k": [draw(gen.kfrac()) for _ in range(2)], "f": draw(pick("H", "D", "E", "h", "e")),
            "plane": draw(pick("x", "y", "z")), "at": draw(fl(-0.6, 0.9)), "kind": draw(st.integers(0, 1)),
            "mind": draw(st.integers(0, 2)), "N": [draw(st.integers(2, 7)), draw(st.integers(2, 7))],
            "comp": draw(pick(None, "x", "y", "z", "xz", "yx", "xyz", "XY", "zz", "xyx")), "val": draw(pick(None, "re", "im", "abs", "Re")),
            "per": draw(pick(None, True, False, False)), "eps": draw(pick(None, True, False)),
            "lev": draw(pick(None, [2., 5.])), "cbar": draw(pick(None, True, False)), "clad": draw(st.booleans()),
            "gs": draw(pick(False, False, True)), "V": draw(fl(-2, 2, 10)), "wval": draw(pick(None, "re", "im", "abs2")),
            "im": draw(st.booleans()), "draw": draw(pick(True, False, False, False)),
            "bad": draw(pick("none", "two", "val", "object", "pwe x", "pwe y", "wavef", "wavef object", "eV", "structure",
                             "eps_ft", "pot_ft", "gridspec", "fig"))}


def check_field(c, ctx):
    import legume
    plt = mpl()
    p = c["p"]
    phc = gen.build_phc(p)
    gmax = c["g"] / gen.shortest(*gen.lat_vectors(p["lat"]))
    ks = gen.kpts(p["lat"], c["k"])
    N1, N2 = c["N"]
    w = c["what"]
    ctx.label(w)
    ctx.nontrivial()

    def make_gme(run=True):
        s = legume.GuidedModeExp(phc, gmax=gmax, truncate_g=c["trunc"])
        if run:
            nb = min(refs.well_posed(p, gmax, c["trunc"], ks[:, i], [0, 1]) for i in range(2))
            if nb < 3:
                raise Skip("too few guided modes")
            s.run(kpoints=ks, gmode_inds=[0, 1], numeig=3, verbose=False, compute_im=c["im"])
        return s

    def make_pwe():
        s = legume.PlaneWaveExp(phc.layers[0], gmax=gmax)
        s.run(kpoints=ks, numeig=3, pol=c["pol"])
        return s

    def make_exc():
        l = phc.layers[0]
        s = legume.ExcitonSchroedEq(phc=phc, z=float(l.z_mid), V_shapes=c["V"] * 1e-3, a=4e-7, M=2e-31, E0=1.6,
                                    loss=1e-4, gmax=gmax, truncate_g=c["trunc"])
        s.run(kpoints=ks, numeig_ex=3, verbose_ex=False)
        return s

    if w == "bad":
        return check_bad(c, ctx, legume, make_gme, make_pwe, make_exc)
    if w in ("gme", "pwe"):
        s = make_gme() if w == "gme" else make_pwe()
        kw = {"N1": N1, "N2": N2}
        for k, n in (("comp", "component"), ("val", "val"), ("per", "periodic"), ("eps", "eps"),
                     ("lev", "eps_levels"), ("cbar", "cbar")):
            if c[k] is not None:
                kw[n] = c[k]
        comp = (c["comp"] or "xyz").lower()
        f = c["f"].lower()
        pl = c["plane"] if w == "gme" else "z"
        if w == "gme" or c["at"] > 0:
            kw[pl] = c["at"]
        keep = [np.array(v) for v in s.eigvecs]
        kind, mind = c["kind"], c["mind"] % np.asarray(s.freqs).shape[1]
        fig = legume.viz.field(s, c["f"], kind, mind, **kw)
        ctx.require(all(np.array_equal(u, v) for u, v in zip(keep, s.eigvecs)), "the plot changed the eigenvectors")
        if w == "pwe":
            fi, g1, g2 = s.get_field_xy(f, kind, mind, component=comp, Nx=N1, Ny=N2)
        elif pl == "z":
            fi, g1, g2 = s.get_field_xy(f, kind, mind, c["at"], component=comp, Nx=N1, Ny=N2)
        elif pl == "x":
            fi, g1, g2 = s.get_field_yz(f, kind, mind, c["at"], component=comp, Ny=N1, Nz=N2)
        else:
            fi, g1, g2 = s.get_field_xz(f, kind, mind, c["at"], component=comp, Nx=N1, Nz=N2)
        A, B = np.meshgrid(g1, g2)
        kx, ky = ks[:, kind]
        r = {"z": kx * A + ky * B, "x": kx * c["at"] + ky * A, "y": kx * A + ky * c["at"]}[pl]
        ph = np.exp(1j * r) if c["per"] is False else 1.
        axes = [a for a in fig.axes if a.get_images() and not hasattr(a, "_colorbar")]
        ctx.require(len(axes) == len(comp), f"{len(axes)} maps of the components {comp}")
        val = (c["val"] or "re").lower()
        for ax, x in zip(axes, comp):
            Z = np.asarray(fi[x]) * ph
            Z = {"re": Z.real, "im": Z.imag, "abs": np.abs(Z)}[val]
            im = image(ctx, ax, Z, [g1[0], g1[-1], g2[0], g2[-1]], f"{val} {f}_{x} in the plane of constant {pl}",
                       1e-8, 1e-10)
            lo, hi = im.get_clim()
            m = np.abs(Z).max()
            if m > 1e-9:      # (matplotlib widens a colour scale of zero width)
                ctx.close([lo, hi], np.array([0. if val == "abs" else -m, m]), "colour limits", 1e-8, 1e-10)
            t = ax.get_title()
            if w == "gme" and c["im"] and "Q" in t:
                im_ = s.freqs_im[kind, mind]
                q = s.freqs[kind, mind] / 2 / im_ if abs(im_) > 1e-20 else np.inf
                got = float(t.split("Q", 1)[1].split("=")[1].strip(" $\n"))
                ctx.require(got == q or abs(got - q) < 6e-3 * abs(q) or abs(q) > 1e13, f"quality factor {q} in the title {t!r}")
            ctx.require(not (w == "gme" and not c["im"] and "Q =" in t), f"title {t!r} of a run without losses")
            ctx.require("%s_{%s%d}" % (c["f"].capitalize(), x, mind) in t and "k_{%d}" % kind in t and
                        "%.2f" % s.freqs[kind, mind] in t, f"title {t!r}")
            ctx.require({"x": "yz", "y": "xz", "z": "xy"}[pl] + "-plane" in t and f"{pl} = " in t and
                        (pl not in kw or w == "pwe" or "%.2f" % c["at"] in t), f"plane of constant {pl} in the title {t!r}")
        if c["eps"] is not False and c["lev"]:
            ctx.require(all(a.collections for a in axes), "no outline of the permittivity")
            if w == "gme":
                P = {"z": (A, B, c["at"]), "x": (c["at"], A, B), "y": (A, c["at"], B)}[pl]
                E = eps_at(phc, *P)
            else:
                E = eps_at(phc, A, B, float(phc.layers[0].z_mid))
            # the outlines lie where the permittivity on the grid crosses the levels
            for a in axes:
                for col in a.collections:
                    for path, lev in zip(col.get_paths(), c["lev"]):
                        v = path.vertices
                        if np.any(np.abs(E - lev) < 1e-6):
                            continue
                        if (E.max() - lev) * (E.min() - lev) > 0:
                            ctx.require(len(v) == 0, f"an outline at {lev}, the permittivity is in [{E.min()}, {E.max()}]")
                            continue
                        for x, y in v:
                            i = min(np.searchsorted(g1, x + 1e-12) - 1, N1 - 2) if x > g1[0] else 0
                            j = min(np.searchsorted(g2, y + 1e-12) - 1, N2 - 2) if y > g2[0] else 0
                            t, u = (x - g1[i]) / (g1[i + 1] - g1[i]), (y - g2[j]) / (g2[j + 1] - g2[j])
                            e = (1 - t) * ((1 - u) * E[j, i] + u * E[j + 1, i]) + t * ((1 - u) * E[j, i + 1] + u * E[j + 1, i + 1])
                            ctx.require(abs(e - lev) < 1e-6 * 14, f"an outline at permittivity {e}, the level is {lev}")
                        ctx.label("outline")
        elif c["eps"] is False:
            ctx.require(not any(a.collections for a in axes), "an outline of the permittivity")
        ncb = len(fig.axes) - len(axes)
        ctx.require(ncb == (0 if c["cbar"] is False else len(comp)), f"{ncb} colour bars")
        ctx.label(f"plane {pl}", val, "periodic" if c["per"] is not False else "with Bloch phase")
        if c["draw"]:
            fig.canvas.draw()
        return
    kw = {"Nx": N1, "Ny": N2}
    if c["cbar"] is not None:
        kw["cbar"] = c["cbar"]
    if c["gs"] and w in ("eps_ft gme", "eps_ft pwe", "pot_ft"):
        import matplotlib as m
        fig = plt.figure()
        kw.update(fig=fig, gridspec=m.gridspec.GridSpec(1, 2, figure=fig)[1])
    x, y = phc.lattice.xy_grid(Nx=N1, Ny=N2)
    ext = [x[0], x[-1], y[0], y[-1]]
    if w.startswith("eps_ft"):
        s = make_gme(False) if w == "eps_ft gme" else make_pwe()
        if c["clad"]:
            kw["cladding"] = True
        legume.viz.eps_ft(s, **kw)
        hs = [float(l.z_min + l.z_max) / 2 for l in phc.layers] if w == "eps_ft gme" else [0.]
        if c["clad"] and w == "eps_ft gme":
            hs = [float(phc.layers[0].z_min) - 1] + hs + [float(phc.layers[-1].z_max) + 1]
        want = [np.real(s.get_eps_xy(Nx=N1, Ny=N2, z=h)[0]) for h in hs]
    elif w == "pot_ft":
        s = make_exc()
        legume.viz.pot_ft(s, **kw)
        want = [np.real(s.get_pot_xy(Nx=N1, Ny=N2)[0])]
    elif w == "wavef":
        s = make_exc()
        n = np.asarray(s.eners).shape[1]
        kw = {"N1": N1, "N2": N2}
        if c["wval"] is not None:
            kw["val"] = c["wval"]
        if c["cbar"] is not None:
            kw["cbar"] = c["cbar"]
        mind = c["mind"] % n
        fig = legume.viz.wavef(s, c["kind"], mind, **kw)
        W = np.asarray(s.get_wavef_xy(c["kind"], mind, Nx=N1, Ny=N2)[0])
        v = c["wval"] or "abs2"
        Z = {"re": W.real, "im": W.imag, "abs2": np.abs(W)**2}[v]
        axes = [a for a in fig.axes if a.get_images() and not hasattr(a, "_colorbar")]
        ctx.require(len(axes) == 1, f"{len(axes)} maps")
        im = image(ctx, axes[0], Z, ext, f"{v} of the wave function", 1e-8, 1e-10)
        m = np.abs(Z).max()
        if m > 1e-9:
            ctx.close(im.get_clim(), np.array([0. if v == "abs2" else -m, m]), "colour limits", 1e-8, 1e-10)
        t = axes[0].get_title()
        ctx.require({"re": "Re", "im": "Im", "abs2": "|^2"}[v] in t and "k_{%d}" % c["kind"] in t and
                    f"band {mind}," in t, f"title {t!r} of {v}")
        e = float(t.split("E = ")[1].split()[0])
        ctx.require(abs(e - s.eners[c["kind"], mind].real) < 6e-3 * abs(e), f"energy in the title {t!r}")
        ctx.require(len(fig.axes) == (1 if c["cbar"] is False else 2), "colour bar")
        return
    else:
        def make_pol():
            phc.add_qw(z=float(phc.layers[0].z_mid), V_shapes=1e-3, a=4e-7, M=2e-31, E0=1.6, loss=1e-3, osc_str=[1e17, 0, 0])
            q = legume.HopfieldPol(phc, gmax, truncate_g=c["trunc"])
            nb = min(refs.well_posed(p, gmax, c["trunc"], ks[:, i], [0]) for i in range(2))
            if nb < 1:
                raise Skip("too few guided modes")
            q.run(kpoints=ks, gme_options={"gmode_inds": [0], "numeig": 1, "verbose": False},
                  exc_options={"numeig_ex": 1, "verbose_ex": False}, verbose=False)
            return q
        s = {0: lambda: make_gme(False), 1: make_pwe, 2: make_exc, 3: make_pol}[3 if c["clad"] and c["gs"] else c["mind"]]()
        legume.viz.reciprocal(s)
        ax = plt.gcf().axes[0]
        ctx.require(len(ax.lines) == 1, "not one set of points")
        G = np.asarray(s.gvec)
        got = np.array([ax.lines[0].get_xdata(), ax.lines[0].get_ydata()])
        ctx.close(got, G, "reciprocal vectors drawn", 0, 0)
        ctx.close(G, legume.GuidedModeExp(phc, gmax=gmax, truncate_g=c["trunc"]).gvec if not isinstance(s, legume.PlaneWaveExp)
                  else legume.PlaneWaveExp(phc.layers[0], gmax=gmax).gvec, "reciprocal vectors", 1e-12, 1e-12)
        return
    fig = fig if c["gs"] else plt.gcf()
    axes = [a for a in fig.axes if a.get_images() and not hasattr(a, "_colorbar")]
    ctx.require(len(axes) == len(want), f"{len(axes)} maps, expected {len(want)}")
    clims = set()
    for ax, Z in zip(axes, want):
        im = image(ctx, ax, Z, ext, w, 1e-8, 1e-9)
        clims.add(tuple(np.round(im.get_clim(), 8)))
    ctx.require(len(clims) == 1, f"different colour scales {clims}")
    titles = [a.get_title() for a in axes]
    ctx.require(len(set(titles)) == len(titles), f"maps with the same title {titles}")
    if w == "eps_ft gme":
        n = len(titles)
        ctx.require([("lower" in t, "upper" in t) for t in titles] ==
                    [(c["clad"] and i == 0, c["clad"] and i == n - 1) for i in range(n)], f"titles {titles}")
        if not c["clad"]:
            ctx.require(all(str(i) in t.split() for i, t in enumerate(titles)), f"titles {titles} of the layers")
    if w == "pot_ft":
        lo, hi = clims.pop()
        # (a negative potential is shifted by its depth)
        ctx.require(lo <= 1e-7 and hi >= abs(s.V_shapes) - 1e-7,
                    f"colour scale [{lo}, {hi}] for a potential {s.V_shapes}")
    if w.startswith("eps_ft"):
        lo, hi = clims.pop()
        ctx.require(lo <= min(z.min() for z in want) + 1e-7 and hi >= max(z.max() for z in want) - 1e-7,
                    f"colour scale [{lo}, {hi}] cuts the data off")
    if c["draw"]:
        fig.canvas.draw()


def check_bad(c, ctx, legume, make_gme, make_pwe, make_exc):
    b = c["bad"]
    ctx.label("bad " + b)
    want = (ValueError,)
    try:
        if b == "none":
            legume.viz.field(make_gme(), "H", 0, 0, N1=3, N2=3)
        elif b == "two":
            legume.viz.field(make_gme(), "H", 0, 0, x=0.1, z=0.1, N1=3, N2=3)
        elif b == "val":
            legume.viz.field(make_gme(), "H", 0, 0, z=0.1, N1=3, N2=3, val="real")
        elif b == "object":
            legume.viz.field(make_exc(), "H", 0, 0, z=0.1, N1=3, N2=3)
        elif b == "pwe x":
            want = (NotImplementedError,)
            legume.viz.field(make_pwe(), "H", 0, 0, x=0.1, N1=3, N2=3)
        elif b == "pwe y":
            want = (NotImplementedError,)
            legume.viz.field(make_pwe(), "H", 0, 0, y=0.1, N1=3, N2=3)
        elif b == "wavef object":
            legume.viz.wavef(make_gme(False), 0, 0)
        elif b == "eV":
            legume.viz.bands(make_pwe(), eV=True)
        elif b == "structure":
            legume.viz.structure(make_pwe())
        elif b == "eps_ft":
            legume.viz.eps_ft(make_exc())
        elif b == "pot_ft":
            legume.viz.pot_ft(make_pwe())
        elif b in ("gridspec", "fig"):
            import matplotlib as m
            import matplotlib.pyplot as plt
            fig = plt.figure()
            kw = {"fig": fig} if b == "fig" else {"gridspec": m.gridspec.GridSpec(1, 2, figure=fig)[0]}
            if c["kind"]:
                legume.viz.structure(make_gme(False), Nx=3, Ny=3, Nz=3, **kw)
            elif c["clad"]:
                legume.viz.eps_ft(make_gme(False), Nx=3, Ny=3, **kw)
            else:
                legume.viz.pot_ft(make_exc(), Nx=3, Ny=3, **kw)
        else:
            legume.viz.wavef(make_exc(), 0, 0, val="abs")
    except want:
        return
    ctx.require(False, f"{b}: accepted")


PARTS = [
    {"name": "bands", "cases": band_cases, "check": check_bands, "quick": 400, "thorough": 2500},
    {"name": "polaritons", "cases": pol_cases, "check": check_pol, "quick": 120, "thorough": 1200},
    {"name": "permittivity", "cases": eps_cases, "check": check_eps, "quick": 600, "thorough": 3000},
    {"name": "fields", "cases": field_cases, "check": check_field, "quick": 900, "thorough": 4000},
]
