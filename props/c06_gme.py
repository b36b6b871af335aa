"""Guided-mode expansion against an independent construction of its eigenproblem."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C06"
TITLE = "Guided-mode expansion returns the bands of its documented eigenproblem"
RULE = ("crystals of 1..3 layers with 0..2 shapes of any kind per layer and cladding, all lattices, "
        "both truncations, 1..2 k points of low or high symmetry, 1..4 guided modes, three choices "
        "of the effective permittivity; non-trivial: a layer or cladding inside the field has a shape")
ASSUMPTIONS = ["shapes do not overlap", "cases in which two guided modes of one polarisation are "
               "closer than 1.5 search steps, or one is within 1e-4 of a light line, are skipped",
               "at k + G = 0 the guided modes have frequency 0 and are left out of the comparison",
               "frequencies selected by eig_sigma are compared when the selection is unambiguous"]

HIGH = [(0, 0), (0.5, 0), (0, 0.5), (0.5, 0.5), (1 / 3, -1 / 3), (1 / 3, 1 / 3), (0.25, 0), (0.25, 0.25),
        (0.2, -0.2), (1, 0), (0.5, 0.25)]


@st.composite
def kpoint(draw):
    if draw(st.booleans()):
        return draw(gen.kany())
    return list(draw(pick(*HIGH)))


def kvec(lat, fr):
    """Unrounded: high-symmetry points must keep their symmetry."""
    b1, b2 = gen.rec_vectors(*gen.lat_vectors(lat))
    return fr[0] * b1 + fr[1] * b2


@st.composite
def cases(draw):
    p = draw(gen.phc(clad_shapes=True, min_shapes=draw(pick(1, 1, 0))))
    trunc = draw(pick("abs", "tbt"))
    c = {"p": p, "trunc": trunc,
         "gmax": draw(gen.gmax_abs(p["lat"]) if trunc == "abs" else gen.gmax_tbt(p["lat"])),
         "k": [draw(kpoint()) for _ in range(draw(st.integers(1, 2)))],
         "modes": sorted(draw(st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True))),
         "eff": draw(pick("average", "average", "background", "custom")),
         "numeig": draw(st.integers(1, 14)), "sigma": draw(pick(0, 0, draw(fl(0.05, 1.2)))), "residual": draw(pick("", "eigh", "eigh", "eigsh"))}
    if c["eff"] == "custom":
        n = len(p["layers"])
        c["custom"] = [draw(fl(1, 2.5, 100))] + [draw(fl(3, 13, 100)) for _ in range(n)] + \
            [draw(fl(1, 2.5, 100))]
    return c


def eff_eps(c):
    p = c["p"]
    if c["eff"] == "average":
        return gen.eps_avgs(p)
    if c["eff"] == "background":
        return np.array([p["eps_l"]] + [l["eps_b"] for l in p["layers"]] + [p["eps_u"]])
    return np.array(c["custom"])


def build(c):
    ph = gen.build_phc(c["p"])
    if c["eff"] == "custom":
        for lay, e in zip([ph.claddings[0]] + list(ph.layers) + [ph.claddings[1]], c["custom"]):
            lay.eps_eff = e
    return ph


def reference(c, k):
    """Sorted frequencies at k without the guided modes at k + G = 0, and how many those are."""
    p = c["p"]
    G = refs.gset(p["lat"], c["gmax"], c["trunc"])
    eps = eff_eps(c)
    if np.max(eps[1:-1]) <= max(eps[0], eps[-1]) * 1.05:
        raise Skip("no index contrast")
    g = np.hypot(k[0] + G[0], k[1] + G[1])
    zero = g < 1e-6
    if np.any(~zero & (g < 0.05)):
        raise Skip("k + G close to zero")
    basis, info = refs.gme_basis(G[:, ~zero], k, eps, [l["d"] for l in p["layers"]], c["modes"])
    if not basis or info["gap"] < 0.015 or info["cut"] < 1e-4:
        raise Skip("near-degenerate guided modes")
    ei = [np.linalg.inv(refs.eps_matrix(eb, sh, p["lat"], G))[np.ix_(~zero, ~zero)]
          for eb, sh in refs.layer_specs(p)]
    M = refs.gme_matrix(basis, ei, [refs.GL_W / 2 * l["d"] for l in p["layers"]])
    M = (M + M.conj().T) / 2
    return np.sqrt(np.abs(np.linalg.eigvalsh(M))) / 2 / np.pi, zero.any()


def gme_of(c):
    import legume
    return legume.GuidedModeExp(build(c), gmax=c["gmax"], truncate_g=c["trunc"])


def check(c, ctx):
    p = c["p"]
    ks = np.array([kvec(p["lat"], f) for f in c["k"]])
    ref = [reference(c, k) for k in ks]
    n = min([c["numeig"]] + [len(r) for r, _ in ref])
    gme = gme_of(c)
    opts = dict(gmode_inds=c["modes"], numeig=n, verbose=False, compute_im=False,
                eps_eff=c["eff"], eig_sigma=c["sigma"])
    gme.run(kpoints=ks.T.copy(), **opts)
    # Fourier transforms of polygons lose digits when g is across an edge up to round-off
    kinds = {s["t"] for _, sh in refs.layer_specs(p) for s in sh}
    tol = (1e-4, 1e-4) if "hexagon" in kinds and p["lat"]["kind"] == "hexagonal" else \
        (1e-7, 1e-8) if not kinds - {"circle", "ellipse", "square"} else (2e-6, 2e-6)
    F = np.asarray(gme.freqs)
    ctx.require(F.shape == (len(ks), n), f"shape of the frequencies: {F.shape}")
    ctx.require(np.all(F >= 0) and np.all(np.diff(F, axis=1) >= 0), f"frequencies not sorted: {F}")
    ctx.require(np.array_equal(np.asarray(gme.kpoints), ks.T), "k points")
    for i, (r, zero) in enumerate(ref):
        f = F[i]
        if zero:
            ctx.label("k + G = 0")
            f = f[f > 1e-4]
            nz = n - len(f)
            ctx.require(nz <= 2, f"{nz} modes of zero frequency at k = {ks[i]}")
            if c["sigma"]:
                # the modes at zero compete for the selection: check membership only
                for x in f:
                    ctx.close(np.min(np.abs(r**2 - x**2)), 0, f"squared frequency {x**2} at k "
                              f"= {ks[i]}", 0, 1e-7 * x**2 + 1e-8)
                continue
            want = r[:len(f)]
        else:
            want = r[:n]
            if c["sigma"]:
                d = np.abs(r - c["sigma"])
                o = np.argsort(d)
                if n < len(r) and d[o[n]] - d[o[n - 1]] < 1e-5:
                    continue
                want = np.sort(r[o[:n]])
                ctx.label("eig_sigma")
            V = np.asarray(gme.eigvecs[i])
            ctx.require(V.shape == (len(r), n), f"eigenvectors of shape {V.shape}, "
                        f"expected {(len(r), n)}")
        ctx.close(f**2, want**2, f"squared frequencies at k = {ks[i]}", *tol)
        V = np.asarray(gme.eigvecs[i])
        ctx.close(V.conj().T @ V, np.eye(n), "scalar products of eigenvectors", 0, 1e-9)
        if not zero and c["residual"]:
            # every eigenvector belongs to its own frequency, whatever the selection
            gall = gme_of(c)
            gall.run(kpoints=ks[i:i + 1].T.copy(), **dict(opts, eig_sigma=0, numeig=len(r)))
            U, W = np.asarray(gall.eigvecs[0]), (2 * np.pi * np.asarray(gall.freqs)[0])**2
            w = (2 * np.pi * f)**2
            if c["residual"] == "eigsh" and n < len(r) - 1:
                ctx.label("eigsh residual")
                g2 = gme_of(c)
                # between the modes, so that the problem which eigsh inverts is not singular
                s = np.sort(r)
                sg = float(s[0] * 0.97) if not c["sigma"] else float((s[0] + s[1]) / 2 if s[1] - s[0] > 1e-4
                                                                     else s[0] * 0.97)
                g2.run(kpoints=ks[i:i + 1].T.copy(), **dict(opts, eig_sigma=sg, eig_solver="eigsh"))
                V, w = np.asarray(g2.eigvecs[0]), (2 * np.pi * np.asarray(g2.freqs)[0])**2
            ctx.close(U @ (W[:, None] * (U.conj().T @ V)), V * w, "the matrix applied to the eigenvectors, "
                      f"sigma {c['sigma']}", 0, 1e-7 * np.max(W))
            ctx.label("residual")
    sh = sum(len(l["shapes"]) for l in p["layers"])
    cl = sum(len(s) for s in p["clad"])
    ctx.nontrivial(sh or cl)
    ctx.label(c["trunc"], c["eff"], f"{len(p['layers'])} layers", p["lat"]["kind"])
    if cl:
        ctx.label("patterned cladding")
    if any(f in [list(h) for h in HIGH] for f in c["k"]):
        ctx.label("high symmetry k")
    ctx.label("TE" if all(m % 2 == 0 for m in c["modes"]) else
              "TM" if all(m % 2 for m in c["modes"]) else "TE and TM")


PARTS = [{"name": "bands", "cases": cases, "check": check, "quick": 1600, "thorough": 30000}]
