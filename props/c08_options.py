"""Numerical options of the guided-mode expansion: the same physics by another route."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C08"
TITLE = "Numerical options of the guided-mode expansion do not change the physics"
TECHNIQUE = "property-based testing (Hypothesis), differential between options"
RULE = ("crystals of 1..3 layers with shapes, all lattices, both truncations, 1..3 k points, and a pair "
        "of option sets that differ in 1..3 of the options; non-trivial: at least one layer has a shape")
ASSUMPTIONS = ["guided modes resolved by the search step (see C06)",
               "losses are compared as sums over groups of degenerate modes, and not for modes within "
               "0.3 % of the opening of a diffraction channel",
               "interpolated guided modes are compared when no mode is cut off within 1 % of a "
               "sampled wave vector, and their squared frequencies differ by 5 % from the light lines "
               "of the layers, with 1000..2000 interpolation points"]

VARIANTS = ("eigsh", "approx", "verbose", "single k", "gmode order", "numeig", "sigma", "run_im",
            "step", "tol", "npts")


@st.composite
def cases(draw):
    p = draw(gen.phc(clad_shapes=True, min_shapes=draw(pick(1, 1, 1, 0))))
    trunc = draw(pick("abs", "tbt"))
    return {"p": p, "trunc": trunc,
            "gmax": draw(gen.gmax_abs(p["lat"]) if trunc == "abs" else gen.gmax_tbt(p["lat"])),
            "k": [draw(gen.kany()) for _ in range(draw(st.integers(1, 3)))],
            "modes": draw(st.lists(st.integers(0, 4), min_size=1, max_size=4, unique=True)),
            "var": draw(st.lists(pick(*VARIANTS), min_size=1, max_size=3, unique=True)),
            "numeig": draw(st.integers(2, 10)), "sigma": draw(fl(0.1, 1.2))}


def run(c, p, ks, **opts):
    import legume
    gme = legume.GuidedModeExp(gen.build_phc(p), gmax=c["gmax"], truncate_g=c["trunc"])
    gme.run(kpoints=ks.T.copy(), **opts)
    return gme


def same_losses(ctx, what, p, G, k, f, ia, ib, nb, rtol=2e-4, sel=False):
    eps = gen.eps_avgs(p)
    bad = refs.near_light_line(2 * np.pi * f, k, G, eps[[0, -1]])
    for cl in refs.clusters(f, 1e-5):
        if bad[cl].any() or ((cl[-1] == len(f) - 1 or (sel and cl[0] == 0)) and len(f) < nb):
            continue
        ctx.close(f[cl] @ ib[cl], f[cl] @ ia[cl], f"{what}: frequency times loss of the mode(s) at "
                  f"{f[cl]}", rtol, 1e-8)
        if f[cl] @ ia[cl] > 1e-7:
            ctx.label("lossy mode")


def check(c, ctx):
    p = c["p"]
    ks = np.array([gen.kvec(p["lat"], f) for f in c["k"]])
    nbs = [refs.well_posed(p, c["gmax"], c["trunc"], k, c["modes"]) for k in ks]
    nb = min(nbs)
    n = min(nb, c["numeig"])
    V = c["var"]
    base = dict(gmode_inds=sorted(c["modes"]), numeig=n, verbose=False)
    o = dict(base)
    sel = None
    for v in V:
        if v == "eigsh":
            o["eig_solver"] = "eigsh"
        elif v == "approx":
            o["gradients"] = "approx"
        elif v == "verbose":
            o["verbose"] = True
        elif v == "gmode order":
            o["gmode_inds"] = c["modes"] if len(c["modes"]) < 2 or c["modes"] != sorted(c["modes"]) \
                else c["modes"][::-1]
        elif v == "run_im":
            o["compute_im"] = False
        elif v == "step":
            o["gmode_step"] = 4e-3
        elif v == "tol":
            o["gmode_tol"] = 1e-11
        elif v == "npts":
            o["gmode_npts"] = 77
        elif v == "numeig":
            o["numeig"] = max(1, n // 2)
    if "sigma" in V:
        al = [run(c, p, ks[i:i + 1], **dict(base, numeig=nbs[i])) for i in range(len(ks))]
        Fa, Ia = [np.asarray(a.freqs)[0] for a in al], [np.asarray(a.freqs_im)[0] for a in al]
        o["eig_sigma"] = c["sigma"]
        sel = c["sigma"]
    else:
        a = run(c, p, ks, **base)
        Fa, Ia = np.asarray(a.freqs), np.asarray(a.freqs_im)
    if "single k" in V:
        bs = [run(c, p, ks[i:i + 1], **o) for i in range(len(ks))]
        for b in bs:
            if "run_im" in V:
                b.run_im()
        Fb = np.concatenate([np.asarray(b.freqs) for b in bs])
        Ib = np.concatenate([np.asarray(b.freqs_im) for b in bs])
    else:
        b = run(c, p, ks, **o)
        if "run_im" in V:
            ctx.require(len(b.freqs_im) == 0, "losses without compute_im")
            b.run_im()
        Fb, Ib = np.asarray(b.freqs), np.asarray(b.freqs_im)
    m = o["numeig"]
    ctx.require(Fb.shape == (len(ks), m) == Ib.shape, f"shape {Fb.shape} of the result")
    G = refs.gset(p["lat"], c["gmax"], c["trunc"])
    for i in range(len(ks)):
        fa, ia, nball = Fa[i], Ia[i], nb
        if sel is not None:
            # the modes nearest to sigma: in the frequency (eigh) or its square (eigsh)
            d = np.abs(fa - sel) if "eigsh" not in V else np.abs(fa**2 - sel**2)
            od = np.argsort(d)
            if m < len(fa) and d[od[m]] - d[od[m - 1]] < 1e-5:
                continue
            keep = np.sort(od[:m])
            if set(od[:m]) ^ set(np.argsort(np.abs(fa**2 - sel**2 + 0.02))[:m]):
                ctx.label("choice sensitive to sigma")
            nball = len(fa) if m == len(fa) else 10**9
            fa, ia = fa[keep], ia[keep]
        else:
            nball = nbs[i]
            fa, ia = fa[:m], ia[:m]
        ctx.close(Fb[i]**2, fa**2, f"squared frequencies at k = {ks[i]} with {V}", 1e-8, 1e-9)
        same_losses(ctx, f"k = {ks[i]} with {V}", p, G, ks[i], fa, ia, Ib[i], nball,
                    sel=sel is not None)
    ctx.label(*V)
    ctx.nontrivial(any(sh for _, sh in refs.layer_specs(p)))


# ------------------------------------------------------------------ target frequencies

@st.composite
def target_cases(draw):
    c = draw(cases())
    c["k"] = c["k"][:1]
    c["targets"] = [{"i": draw(st.integers(0, 30)), "t": draw(fl(0.05, 0.95, 100)), "n": draw(st.integers(1, 6)),
                     "solver": draw(pick("eigh", "eigsh")), "im": draw(pick(True, False))} for _ in range(5)]
    return c


def check_targets(c, ctx):
    """eig_sigma between any two modes selects the nearest ones, in the frequency (eigh) or its square (eigsh)."""
    p = c["p"]
    ks = np.array([gen.kvec(p["lat"], c["k"][0])])
    nb = refs.well_posed(p, c["gmax"], c["trunc"], ks[0], c["modes"])
    a = run(c, p, ks, gmode_inds=sorted(c["modes"]), numeig=nb, verbose=False)
    f, im = np.asarray(a.freqs)[0], np.asarray(a.freqs_im)[0]
    G = refs.gset(p["lat"], c["gmax"], c["trunc"])
    b = None
    for t in c["targets"]:
        i = t["i"] % nb
        lo, hi = f[i], f[i + 1] if i + 1 < nb else f[i] * 1.2
        s = round(lo + t["t"] * (hi - lo), 5)
        n = min(t["n"], nb)
        d = np.abs(f - s) if t["solver"] == "eigh" else np.abs(f**2 - s**2)
        od = np.argsort(d)
        if n < nb and d[od[n]] - d[od[n - 1]] < 1e-5:
            continue
        if b is None or t["solver"] == "eigsh":
            b = run(c, p, ks, gmode_inds=sorted(c["modes"]), numeig=n, verbose=False, eig_sigma=s,
                    eig_solver=t["solver"], compute_im=t["im"])
        else:
            b.run(kpoints=ks.T.copy(), gmode_inds=sorted(c["modes"]), numeig=n, verbose=False, eig_sigma=s,
                  eig_solver=t["solver"], compute_im=t["im"])
        keep = np.sort(od[:n])
        ctx.close(np.asarray(b.freqs)[0]**2, f[keep]**2, f"squared frequencies of the {n} modes next to {s}, {t['solver']}",
                  1e-8, 1e-9)
        if t["im"]:
            same_losses(ctx, f"next to {s}, {t['solver']}", p, G, ks[0], f[keep], im[keep],
                        np.asarray(b.freqs_im)[0], nb, sel=True)
        ctx.label(t["solver"])
        ctx.nontrivial()


# ------------------------------------------------------------------ interpolation

@st.composite
def interp_cases(draw):
    c = draw(cases())
    c["npts"] = draw(st.integers(1000, 2000))
    return c


def check_interp(c, ctx):
    p = c["p"]
    ks = np.array([gen.kvec(p["lat"], f) for f in c["k"]])
    nb = min(refs.well_posed(p, c["gmax"], c["trunc"], k, c["modes"], cut=1e-2) for k in ks)
    n = min(nb, c["numeig"])
    G = refs.gset(p["lat"], c["gmax"], c["trunc"])
    # the amplitudes of the plane waves, which are interpolated, diverge at layers' light lines
    if min(refs.guided_info(p, c["gmax"], c["trunc"], k, c["modes"])["layer"] for k in ks) < 0.05:
        raise Skip("the light line of a layer")
    base = dict(gmode_inds=c["modes"], numeig=n, verbose=False)
    a = run(c, p, ks, **base)
    b = run(c, p, ks, gmode_compute="interp", gmode_npts=c["npts"], **base)
    Fa, Fb = np.asarray(a.freqs), np.asarray(b.freqs)
    ctx.require(Fa.shape == Fb.shape, "shape of the frequencies")
    for i, k in enumerate(ks):
        ctx.close(Fb[i]**2, Fa[i]**2, f"squared frequencies at k = {k}", 2e-3, 2e-4)
        same_losses(ctx, f"k = {k}, interpolated", p, G, k, Fa[i],
                    np.asarray(a.freqs_im)[i], np.asarray(b.freqs_im)[i], nb, 0.05)
    ctx.nontrivial(any(sh for _, sh in refs.layer_specs(p)))
    ctx.label(c["trunc"])


# ------------------------------------------------------------------ truncations

def same_sets(lat):
    """(gmax of 'abs', gmax of 'tbt') which keep the same plane waves."""
    out = []
    b1, b2 = gen.rec_vectors(*gen.lat_vectors(lat))
    sh = gen.shells(lat)
    for (g0, n0), (g1, _) in zip(sh[:-1], sh[1:]):
        if n0 > 35 or n0 < 3 or g1 - g0 < 2e-3:
            continue
        A = {tuple(np.round(v, 5) + 0.) for v in refs.gset_abs(lat, (g0 + g1) / 2).T}
        for t in np.arange(0.33, 4, 0.013):
            r = [t / np.hypot(*b) * 2 * np.pi for b in (b1, b2)]
            if (2 * int(r[0]) + 1) * (2 * int(r[1]) + 1) != n0 or \
                    any(abs(x - round(x)) < 5e-3 for x in r):
                continue
            if {tuple(np.round(v, 5) + 0.) for v in refs.gset_tbt(lat, t).T} == A:
                out.append((round((g0 + g1) / 2, 4), round(float(t), 4)))
                break
    return out


@st.composite
def trunc_cases(draw):
    lat = draw(gen.lattice(("square", "rect", "rect", "obl"), lo=0.4, hi=2.))
    p = draw(gen.phc(lat=lat, clad_shapes=True, min_shapes=1))
    return {"p": p, "k": [draw(gen.kfrac())], "i": draw(st.integers(0, 5)),
            "modes": sorted(draw(st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True))),
            "numeig": draw(st.integers(2, 10))}


def check_trunc(c, ctx):
    p = c["p"]
    s = same_sets(p["lat"])
    if not s:
        raise Skip("no common set of plane waves")
    ga, gt = s[c["i"] % len(s)]
    k = gen.kvec(p["lat"], c["k"][0])
    nb = refs.well_posed(p, ga, "abs", k, c["modes"])
    n = min(nb, c["numeig"])
    o = dict(gmode_inds=c["modes"], numeig=n, verbose=False)
    a = run(dict(c, gmax=ga, trunc="abs"), p, k[None], **o)
    b = run(dict(c, gmax=gt, trunc="tbt"), p, k[None], **o)
    # the inversions of the permittivity matrix are the same
    fa, fb = np.asarray(a.freqs)[0], np.asarray(b.freqs)[0]
    ctx.close(fb**2, fa**2, "squared frequencies, 'tbt' against 'abs'", 1e-6, 1e-7)
    same_losses(ctx, "'tbt' against 'abs'", p, refs.gset_abs(p["lat"], ga), k, fa,
                np.asarray(a.freqs_im)[0], np.asarray(b.freqs_im)[0], nb)
    ctx.nontrivial()
    ctx.label(f"{refs.gset_abs(p['lat'], ga).shape[1]} plane waves")


# ------------------------------------------------------------------ only_gmodes

def check_only(c, ctx):
    p = c["p"]
    if c["trunc"] == "tbt":
        c = dict(c, trunc="abs", gmax=1.2 * c["gmax"])
    ks = np.array([gen.kvec(p["lat"], f) for f in c["k"]])
    G = refs.gset(p["lat"], c["gmax"], "abs")
    if abs(np.hypot(*G) / 2 / np.pi - c["gmax"]).min() < 1e-6:
        raise Skip("cut-off at a reciprocal vector")
    ns = [refs.well_posed(p, c["gmax"], "abs", k, c["modes"]) for k in ks]
    n = min(min(ns), c["numeig"])
    a = run(c, p, ks, gmode_inds=c["modes"], numeig=n, verbose=False, only_gmodes=True)
    for i, k in enumerate(ks):
        basis, _ = refs.gme_basis(G, k, gen.eps_avgs(p), [l["d"] for l in p["layers"]],
                                  sorted(c["modes"]))
        want = np.sort(np.concatenate([b["om"] for b in basis]))[:n] / 2 / np.pi
        ctx.close(np.asarray(a.freqs)[i]**2, want**2, f"squared frequencies at k = {k}", 1e-6, 1e-7)
    ctx.nontrivial(any(sh for _, sh in refs.layer_specs(p)))


# ------------------------------------------------------------------ rejected options

BAD = {
    "unknown option": dict(foo=1),
    "eig_solver": dict(eig_solver="lu"),
    "eps_eff": dict(eps_eff="mean"),
    "custom without values": dict(eps_eff="custom"),
    "kz_symmetry": dict(kz_symmetry="up"),
    "symmetry without angles": dict(kz_symmetry="both"),
    "symmetry with eigsh": dict(kz_symmetry="both", eig_solver="eigsh", angles=np.array([0.])),
    "numeig": dict(numeig=10000),
    "numeig symmetry": dict(numeig=10000, kz_symmetry="even", angles=np.array([0.])),
    "gradients": dict(gradients="none"),
    "gmode_compute": dict(gmode_compute="guess"),
    "only_gmodes tbt": dict(only_gmodes=True, trunc="tbt"),
    "no guided mode": dict(eps_b=1.5),
    "truncation": dict(trunc="circle"),
    "run_im before run": dict(im="run_im"),
    "compute_rad before run": dict(im="compute_rad"),
    "compute_rad_sp before run": dict(im="compute_rad_sp"),
    "field before run": dict(im="field"),
    "compute_rad of a mode that was not computed": dict(after="rad"),
    "compute_rad_sp of a mode that was not computed": dict(after="rad_sp"),
    "field of a mode that was not computed": dict(after="mode"),
    "field of a k point that was not computed": dict(after="k"),
    "unknown field": dict(after="field"),
    "unknown component": dict(after="comp"),
}


@st.composite
def bad_cases(draw):
    return {"k": draw(pick(*sorted(BAD))), "n": draw(st.integers(1, 3)),
            "r": draw(fl(0.1, 0.4, 100)), "kx": draw(fl(0.1, 3))}


def check_bad(c, ctx):
    import legume
    ctx.nontrivial()
    ctx.label(c["k"])
    o = dict(BAD[c["k"]])
    trunc, eb, im = o.pop("trunc", "abs"), o.pop("eps_b", 12.), o.pop("im", None)
    after = o.pop("after", None)
    ang = o.pop("angles", None)
    ph = legume.PhotCryst(legume.Lattice("square"), eps_l=2.)
    for _ in range(c["n"]):
        ph.add_layer(d=0.3, eps_b=eb)
        ph.add_shape(legume.Circle(eps=1., r=c["r"]))
    try:
        gme = legume.GuidedModeExp(ph, gmax=1.3, truncate_g=trunc)
        if im == "field":
            gme.get_field_xy("H", 0, 0, 0.1, Nx=2, Ny=2)
        elif im == "run_im":
            gme.run_im()
        elif im:
            getattr(gme, im)(0, [0])
        elif after:
            gme.run(kpoints=np.array([[c["kx"]], [0.]]), verbose=False, numeig=c["n"])
        else:
            kw = dict(o, verbose=False)
            if ang is not None:
                kw["angles"] = ang
            gme.run(kpoints=np.array([[c["kx"]], [0.]]), **kw)
        if after:
            n = len(gme.freqs[0])
            bad = n + c["n"] - 1
            at = {"z": (0.1,), "x": (0.2,), "y": (-0.2,)}
            get = {"z": gme.get_field_xy, "x": gme.get_field_yz, "y": gme.get_field_xz}["xyz"[c["n"] - 1]]
            at = at["xyz"[c["n"] - 1]]
            g = dict(zip(("Nx", "Ny", "Nz"), (2, 2, 2)))
            g.pop({"z": "Nz", "x": "Nx", "y": "Ny"}["xyz"[c["n"] - 1]])
            if after == "rad":
                gme.compute_rad(0, [0, bad])
            elif after == "rad_sp":
                gme.compute_rad_sp(0, [bad])
            elif after == "mode":
                get("H", 0, bad, *at, **g)
            elif after == "k":
                get("H", c["n"], 0, *at, **g)
            elif after == "field":
                get("BFX"[c["n"] - 1], 0, 0, *at, **g)
            else:
                get("E", 0, 0, *at, component="xw", **g)
    except Exception as e:
        if c["k"] in ("eig_solver", "eps_eff", "kz_symmetry", "symmetry without angles", "numeig",
                      "symmetry with eigsh", "only_gmodes tbt", "truncation", "numeig symmetry", "unknown component",
                      "compute_rad of a mode that was not computed", "compute_rad_sp of a mode that was not computed"):
            ctx.require(isinstance(e, ValueError), f"{c['k']}: {type(e).__name__} instead of ValueError")
        if c["k"] in ("compute_rad before run", "compute_rad_sp before run", "run_im before run"):
            ctx.require(isinstance(e, RuntimeError), f"{c['k']}: {type(e).__name__} instead of RuntimeError")
        return
    ctx.require(False, f"accepted: {c['k']}")


PARTS = [
    {"name": "options", "cases": cases, "check": check, "quick": 900, "thorough": 15000},
    {"name": "targets", "cases": target_cases, "check": check_targets, "quick": 240, "thorough": 5000},
    {"name": "interpolated", "cases": interp_cases, "check": check_interp, "quick": 64,
     "thorough": 1500},
    {"name": "truncations", "cases": trunc_cases, "check": check_trunc, "quick": 300, "thorough": 5000},
    {"name": "only_gmodes", "cases": cases, "check": check_only, "quick": 200, "thorough": 3000},
    {"name": "rejected", "cases": bad_cases, "check": check_bad, "quick": 200, "thorough": 200},
]
