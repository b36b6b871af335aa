"""Guided modes of uniform multilayers against an oscillation-theorem solver."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C05"
TITLE = "Guided modes of the effective multilayer slab"
RULE = ("stacks of 1..6 layers with permittivities 1..14 and thicknesses 0.05..1.2, wave "
        "vectors in any order (repeats allowed), both polarisations, 1..6 modes; non-trivial: at least one "
        "guided mode exists")
ASSUMPTIONS = ["permittivities are at least 1",
               "cases with two modes closer than 1.5 search steps, or a mode within 1e-5 of a "
               "light line, are skipped"]


@st.composite
def stack(draw, nmax=6):
    n = draw(st.integers(1, nmax))
    kind = draw(pick("low", "low", "low", "high"))
    if kind == "low":
        eps = [draw(fl(3, 14, 100)) for _ in range(n)]
        lo = draw(fl(1, 3, 100))
        cl = [lo, lo if draw(st.booleans()) else draw(fl(1, 3, 100))]
    else:
        eps = [draw(fl(1, 14, 100)) for _ in range(n)]
        cl = [draw(fl(1, 8, 100)), draw(fl(1, 8, 100))]
    if n >= 3 and draw(st.integers(0, 3)) == 0:
        eps[n // 2] = draw(fl(1, 2.5, 100))
    return {"eps": [cl[0]] + eps + [cl[1]], "d": [draw(fl(0.05, 1.6 / n + 0.1)) for _ in range(n)]}


@st.composite
def cases(draw):
    s = draw(stack())
    g = []
    x = draw(pick(draw(fl(0.05, 3)), draw(fl(3, 10)), draw(gen.tiny(-25, -13))))
    for _ in range(draw(st.integers(1, 5))):
        x = round(x, 4) or x
        g.append(x)
        t = draw(pick("same", "tiny", "close", "far"))
        while t == "tiny":
            g.append(g[-1] + draw(gen.tiny(-70, -30)))
            t = draw(pick("tiny", "close", "far"))
        x += {"same": 0., "close": draw(fl(0.001, 0.05)), "far": draw(fl(0.1, 4))}[t]
    if draw(st.integers(0, 2)) == 0:
        g = draw(st.permutations(g))
    return {"s": s, "g": g, "n": draw(st.integers(1, 6)), "pol": draw(pick("TE", "TM", "te", "tm", "Te")),
            "step": draw(pick(1e-2, 1e-2, 5e-3))}


def fields(A, B, chi, d, eps, pol):
    """psi and psi'/w at (bottom, top) of every layer, cladding values at the interface."""
    out = []
    N = len(d)
    w = np.ones(N + 2) if pol == "TE" else np.asarray(eps)
    for i in range(N + 2):
        h = 0 if i in (0, N + 1) else d[i - 1] / 2
        row = []
        for z in ((0.,) if h == 0 else (-h, h)):
            e1, e2 = np.exp(1j * chi[i] * z), np.exp(-1j * chi[i] * z)
            row.append((A[i] * e1 + B[i] * e2, 1j * chi[i] * (A[i] * e1 - B[i] * e2) / w[i]))
        out.append(row)
    return out


def check(c, ctx):
    import legume
    eps, d = np.array(c["s"]["eps"]), np.array(c["s"]["d"])
    g = np.array(c["g"])
    pol = c["pol"].lower()
    n = c["n"]
    if np.max(eps[1:-1]) <= max(eps[0], eps[-1]) * 1.001:
        ref = np.full((n + 1, len(g)), np.nan)
        if np.max(eps[1:-1]) > max(eps[0], eps[-1]) * 0.999:
            raise Skip("no index contrast")
        ctx.label("no guiding layer")
    else:
        ref = refs.slab_freqs_all(g, eps, d, pol, n + 1)
        hi = g / np.sqrt(max(eps[0], eps[-1]))
        lo = g / np.sqrt(max(eps))
        with np.errstate(invalid="ignore"):
            if np.any(np.diff(ref, axis=0) < 1.5 * c["step"]):
                raise Skip("modes closer than the step")
            if np.any((hi - ref) / hi < 1e-5) or np.any((ref - lo) / hi < 1e-7):
                raise Skip("mode at a light line")
        c5 = refs.count_modes(hi * (1 - 1e-5), g, eps, d, pol)
        for x in (1e-8, 1e-10, 1e-12, 0):
            if np.any(refs.count_modes(hi * (1 - x), g, eps, d, pol) != c5):
                raise Skip("mode at a light line")
    ga, ea, da = g.copy(), eps.copy(), d.copy()
    om, co = legume.guided_modes(ga, ea, da, n_modes=n, step=c["step"], tol=1e-10, pol=c["pol"])
    ctx.require(np.array_equal(ga, g) and np.array_equal(ea, eps) and np.array_equal(da, d),
                "arguments changed")
    ctx.require(len(om) == len(g) == len(co), "one list of modes per wave vector")
    tot = 0
    for i in range(len(g)):
        want = ref[:n, i]
        want = want[np.isfinite(want)]
        got = np.array(om[i], float)
        ctx.require(got.shape == want.shape, f"g = {g[i]}: {len(got)} modes {got}, expected "
                    f"{len(want)} modes {want}")
        ctx.close(got, want, f"frequencies of guided modes at g = {g[i]}", 1e-8, 1e-9)
        tot += len(want)
        ctx.require(len(co[i]) == len(want), "one set of coefficients per mode")
        for m, w in enumerate(got):
            AB = np.asarray(co[i][m])
            ctx.require(AB.size == 2 * len(eps), f"coefficients of shape {AB.shape}")
            AB = AB.reshape(len(eps), 2)
            chi = np.sqrt((eps * w**2 - g[i]**2).astype(complex))
            if np.min(np.abs(chi)) < 1e-3 or np.max(np.abs(chi[1:-1].imag) * d) > 8:
                continue
            ctx.label("profile")
            A, B = AB.T
            f = fields(A, B, chi, d, eps, c["pol"].upper())
            sc = max(abs(x[0]) for r in f for x in r)
            ctx.close([A[0] / sc, B[-1] / sc], [0, 0], "incoming waves of the claddings", 0, 1e-5)
            N = len(d)
            for j in range(N + 1):
                a, b = f[j][-1], f[j + 1][0]
                ctx.close(b[0], a[0], f"field at interface {j}", 0, 3e-5 * sc)
                s2 = max(abs(a[1]), abs(b[1]), sc * g[i] / eps.max())
                ctx.close(b[1], a[1], f"derivative at interface {j}", 0, 1e-4 * s2)
            # int |H|^2 dz
            tot2 = 0.
            for j in range(N + 2):
                if j in (0, N + 1):
                    kap = np.abs(chi[j].imag)
                    v = abs(f[j][0][0])**2 / (2 * kap)
                    dv = v * kap**2
                else:
                    z = refs.GL_X * d[j - 1] / 2
                    e1, e2 = np.exp(1j * chi[j] * z), np.exp(-1j * chi[j] * z)
                    p = A[j] * e1 + B[j] * e2
                    q = 1j * chi[j] * (A[j] * e1 - B[j] * e2)
                    wz = refs.GL_W * d[j - 1] / 2
                    v, dv = wz @ np.abs(p)**2, wz @ np.abs(q)**2
                tot2 += v if pol == "tm" else g[i]**2 * v + dv
            ctx.close(tot2, 1., "norm of the magnetic field", 1e-4)
    ctx.nontrivial(tot > 0)
    if np.any(np.diff(g) < 0):
        ctx.label("wave vectors not ascending")
    ctx.label(pol, f"{len(d)} layers", "asymmetric" if eps[0] != eps[-1] else "symmetric")
    if tot:
        ctx.label(f"{min(tot // len(g), 4)}+ modes")


@st.composite
def uni_cases(draw):
    p = draw(gen.phc(nlayers=(1, 4), max_shapes=0, eps_slab=(2., 13.)))
    trunc = draw(pick("abs", "tbt"))
    return {"p": p, "trunc": trunc,
            "gmax": draw(gen.gmax_abs(p["lat"]) if trunc == "abs" else gen.gmax_tbt(p["lat"])),
            "k": draw(gen.kany()),
            "modes": sorted(draw(st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True)))}


def check_uni(c, ctx):
    """Empty lattice: the bands are the folded guided modes and lose nothing."""
    import legume
    p = c["p"]
    k = gen.kvec(p["lat"], c["k"])
    G = refs.gset(p["lat"], c["gmax"], c["trunc"])
    g = np.hypot(k[0] + G[0], k[1] + G[1])
    eps, d = gen.eps_avgs(p), [l["d"] for l in p["layers"]]
    if np.max(eps[1:-1]) <= max(eps[0], eps[-1]) * 1.05:
        raise Skip("no index contrast")
    basis, info = refs.gme_basis(G, k, eps, d, c["modes"])
    if not basis or info["gap"] < 0.015 or info["cut"] < 1e-5:
        raise Skip("near-degenerate guided modes")
    want = np.sort(np.concatenate([b["om"] for b in basis])) / 2 / np.pi
    gme = legume.GuidedModeExp(gen.build_phc(p), gmax=c["gmax"], truncate_g=c["trunc"])
    n = min(len(want), 9)
    gme.run(kpoints=k.reshape(2, 1), gmode_inds=c["modes"], numeig=n, verbose=False)
    f = np.asarray(gme.freqs)[0]
    ctx.close(f**2, want[:n]**2, "squared band frequencies", 1e-7, 1e-9)
    ctx.close(np.asarray(gme.freqs_im)[0], np.zeros(n), "losses", 0, 1e-9)
    ctx.nontrivial()
    ctx.label(c["trunc"], f"{len(d)} layers")


PARTS = [
    {"name": "guided", "cases": cases, "check": check, "quick": 1600, "thorough": 50000},
    {"name": "folded", "cases": uni_cases, "check": check_uni, "quick": 500, "thorough": 6000},
]
