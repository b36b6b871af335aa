"""Exciton polaritons against an independently assembled Hopfield matrix."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C16"
TITLE = "Polaritons: eigenvalues of the photon-exciton Hopfield matrix"
TECHNIQUE = "property-based testing (Hypothesis) against an independently assembled Hopfield matrix, metamorphic relations"
RULE = ("random crystals of 1-3 layers with 1-3 quantum wells anywhere in them (potentials, masses, "
        "energies, losses, oscillator-strength vectors from weak to ultra-strong coupling), k lists, "
        "both truncations, options of both solvers; zero coupling; permuted wells; translated crystals; "
        "invalid input; non-trivial: a coupling that moves an energy by more than 1e-5 eV")
ASSUMPTIONS = ["photon modes, their losses and fields are those of GuidedModeExp (C06, C10, C11), the excitons "
               "those of ExcitonSchroedEq (C15)"]

HBAR, ECH, ME, EPS0 = 1.054571817e-34, 1.602176634e-19, 9.1093837015e-31, 8.8541878128e-12
C0, H_EV = 299792458.0, 4.135667696e-15


@st.composite
def well(draw, p, nl, osc=None):
    e = draw(pick(16, 17, 18, 20))
    f = [draw(fl(0, 9, 1)) * 10.**e * draw(pick(0, 1, 1)) for _ in range(3)]
    return {"lay": draw(st.integers(0, nl - 1)), "zf": draw(fl(0.05, 0.95, 100)),
            "V": draw(pick(0., 1., -1.)) * draw(fl(0.1, 30, 10)), "M": draw(fl(0.05, 1, 100)),
            "E0": draw(fl(0.4, 3, 100)), "loss": draw(fl(0, 5, 10)), "f": f,
            "osc": draw(pick("list", "array"))}


@st.composite
def cases(draw):
    p = draw(gen.phc(nlayers=(1, 3), min_shapes=draw(pick(0, 1, 1, 1)), max_shapes=2,
                     clad_shapes=draw(st.booleans())))
    trunc = draw(pick("abs", "abs", "tbt"))
    nl = len(p["layers"])
    wells = draw(st.lists(well(p, nl), min_size=1, max_size=3))
    return {"p": p, "trunc": trunc, "wells": wells,
            "gmax": draw(gen.gmax_abs(p["lat"], 3, 13) if trunc == "abs" else gen.gmax_tbt(p["lat"], 9)),
            "modes": sorted(draw(st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True))),
            "k": [draw(gen.kany()) for _ in range(draw(st.integers(1, 2)))],
            "a": draw(fl(150, 900, 1)), "n": draw(st.integers(1, 5)),
            "m": draw(pick(1, 2, 3, 5, None)),
            "im": draw(pick(True, True, True, False)), "perm": draw(st.integers(0, 5)),
            "shift": [draw(fl(-0.4, 0.4)), draw(fl(-0.4, 0.4))], "zero": draw(pick(False, False, False, True)),
            "rerun": draw(pick(False, False, True)),
            "solver": draw(pick(None, None, "eigsh"))}


def add_wells(c, phc, order=None):
    ws = c["wells"] if order is None else [c["wells"][i] for i in order]
    zs = []
    for w in ws:
        lay = phc.layers[w["lay"]]
        z = lay.z_min + w["zf"] * (lay.z_max - lay.z_min)
        f = [0., 0., 0.] if c["zero"] else w["f"]
        phc.add_qw(z=z, V_shapes=w["V"] * 1e-3, a=c["a"] * 1e-9, M=w["M"] * 9.1e-31, E0=w["E0"],
                   loss=w["loss"] * 1e-3, osc_str=list(f) if w["osc"] == "list" else np.array(f))
        zs.append(z)
    return zs


def options(c, n):
    g = {"gmode_inds": c["modes"], "numeig": n, "verbose": False, "compute_im": c["im"]}
    e = {"verbose_ex": False}
    if c["m"] is not None:
        e["numeig_ex"] = c["m"]
    return g, e


def sorted_check(ctx, got, ref, what, atol):
    """got: complex energies of one k, sorted; ref: all positive ones but the highest."""
    ctx.close(got.real, ref.real, what, 0, atol)
    n = len(ref)
    for cl in refs.clusters(ref.real, 1e-6):
        if cl[-1] == n - 1:
            continue
        ctx.close(got.imag[cl].sum(), ref.imag[cl].sum(), f"imaginary part of {what} at {ref.real[cl]}", 0,
                  atol * len(cl))


def reference(c, pol, phc, zs, i, ws):
    """Positive energies (sorted) with fractions from the solvers in pol."""
    gme, excs = pol.gme, pol.exc_list
    conv = H_EV * C0 / (c["a"] * 1e-9)
    N = gme.freqs.shape[1]
    im = np.asarray(gme.freqs_im)[i] if c["im"] else np.zeros(N)
    ph = (np.asarray(gme.freqs)[i] + 1j * im) * conv
    pref = -1j * np.sqrt(HBAR**2 * ECH**2 / (4 * ME * EPS0)) / ECH / np.sqrt(c["a"] * 1e-9)
    gg = np.asarray(gme.gvec)
    Cs, ex, D = [], [], np.zeros((N, N), complex)
    for w, e, z in zip(ws, excs, zs):
        ge = np.asarray(e.gvec)
        # position of every reciprocal vector of the exciton among those of the light
        idx = [int(np.argmin(np.hypot(gg[0] - x, gg[1] - y))) for x, y in ge.T]
        ctx_f = np.zeros(3) if c["zero"] else np.array(w["f"], float)
        E = np.array([np.array(gme.ft_field_xy("E", i, n, z)) for n in range(N)])     # N, 3, nG
        P = np.einsum("c,ncg->ng", np.sqrt(ctx_f), E)[:, idx]
        C = pref * P @ np.asarray(e.eigvecs)[i].conj()
        en = np.asarray(e.eners)[i]
        D += C @ np.diag(1 / en.real) @ C.conj().T
        Cs.append(C)
        ex.append(en)
    C, ex = np.hstack(Cs), np.concatenate(ex)
    M = len(ex)
    Cd, P, X, O = C.conj().T, np.diag(ph), np.diag(ex), np.zeros((M, M))
    H = np.block([[P + 2 * D, -1j * C, -2 * D, -1j * C], [1j * Cd, X, -1j * Cd, O],
                  [2 * D, -1j * C, -P - 2 * D, -1j * C], [-1j * Cd, O, 1j * Cd, -X]])
    w, v = np.linalg.eig(H)
    fph = (np.abs(v[:N])**2).sum(0) + (np.abs(v[N + M:2 * N + M])**2).sum(0)
    keep = w.real > 0
    w, fph = w[keep], fph[keep]
    o = np.argsort(w.real)
    return w[o], fph[o], N, H, ph, ex


def check(c, ctx):
    import legume
    p = c["p"]
    ks = gen.kpts(p["lat"], c["k"])
    nb = min(refs.well_posed(p, c["gmax"], c["trunc"], ks[:, i], c["modes"]) for i in range(ks.shape[1]))
    n = min(c["n"], nb)
    if n < 1:
        raise Skip("too few guided modes")
    g, e = options(c, n)
    phc = gen.build_phc(p)
    zs = add_wells(c, phc)
    pol = legume.HopfieldPol(phc, c["gmax"], truncate_g=c["trunc"])
    if c["rerun"]:
        try:
            refs.well_posed(p, c["gmax"], c["trunc"], 0.8 * ks[:, 0], c["modes"])
            kr = 0.8 * ks[:, :1]
        except Skip:
            kr = ks[:, :1]
        pol.run(gme_options=dict(g, numeig=1), exc_options=dict(e, numeig_ex=1), kpoints=kr, verbose=False)
    g0, e0, k0 = dict(g), dict(e), ks.copy()
    pol.run(gme_options=g, exc_options=e, kpoints=ks, verbose=False)
    ctx.require(g == g0 and e == e0 and np.array_equal(ks, k0), "run() changed the options of the caller")
    ctx.close(pol.kpoints, k0, "kpoints", 0, 0)
    ctx.close(pol.gvec, pol.gme.gvec, "gvec", 0, 0)
    ctx.require(len(pol.exc_list) == len(c["wells"]), f"{len(pol.exc_list)} wells")
    # the photons and excitons are those of the single solvers
    one = legume.GuidedModeExp(gen.build_phc(p), gmax=c["gmax"], truncate_g=c["trunc"])
    one.run(kpoints=ks, **g)
    ctx.close(np.asarray(pol.gme.freqs)**2, np.asarray(one.freqs)**2, "squared photon frequencies", 1e-8, 1e-10)
    for w, z, x in zip(c["wells"], zs, pol.exc_list):
        ref = legume.ExcitonSchroedEq(phc=phc, z=z, V_shapes=w["V"] * 1e-3, a=c["a"] * 1e-9,
                                      M=w["M"] * 9.1e-31, E0=w["E0"], loss=w["loss"] * 1e-3,
                                      gmax=c["gmax"], truncate_g=c["trunc"])
        ref.run(kpoints=ks, **e)
        ctx.close(x.eners, ref.eners, "exciton energies of a well", 1e-9, 1e-11)
    moved = 0.
    Es, Is = np.asarray(pol.eners), np.asarray(pol.eners_im)
    fx, fp = np.asarray(pol.fractions_ex), np.asarray(pol.fractions_ph)
    for i in range(ks.shape[1]):
        w, fph, N, H, ph, ex = reference(c, pol, phc, zs, i, c["wells"])
        tot = len(H) // 2
        if len(w) != tot or w.real.min() < 1e-3:
            raise Skip("an unstable Hopfield matrix")
        scale = 1 + np.abs(w).max()
        for A, what in ((Es, "energies"), (Is, "losses"), (fx, "excitonic fractions"), (fp, "photonic fractions")):
            ctx.require(A.shape == (ks.shape[1], tot - 1), f"{what} of shape {A.shape}, expected "
                        f"{(ks.shape[1], tot - 1)}")
        ref = w[:-1]
        sorted_check(ctx, Es[i] + 1j * Is[i], ref, f"polariton energies at k number {i}", 2e-7 * scale)
        # the eigenvectors: four blocks (photons, excitons, and both again)
        V = np.asarray(pol.eigvecs)
        ctx.require(V.shape == (ks.shape[1], 2 * tot, tot - 1), f"eigenvectors of shape {V.shape}, expected "
                    f"{(ks.shape[1], 2 * tot, tot - 1)}")
        V = V[i]
        ctx.close(np.abs(H @ V - V * (Es[i] + 1j * Is[i])).max(0), np.zeros(tot - 1),
                  "residual of the eigenvectors and energies in the Hopfield matrix", 0, 1e-6 * scale)
        ctx.close((np.abs(V)**2).sum(0), np.ones(tot - 1), "squared norms of the eigenvectors", 0, 1e-9)
        ctx.close((np.abs(V[:N])**2).sum(0) + (np.abs(V[tot:tot + N])**2).sum(0), fp[i],
                  "photonic fractions / photonic part of the eigenvectors", 0, 1e-9)
        bare = np.concatenate([ph, ex])
        bare = bare[np.argsort(bare.real)]
        moved = max(moved, np.abs(bare - w).max())
        ctx.close(fx[i] + fp[i], np.ones(tot - 1), "sum of the fractions", 0, 1e-9)
        ctx.require(min(fx[i].min(), fp[i].min()) >= -1e-12, "a negative fraction")
        for m in range(tot - 1):
            if np.abs(np.delete(w, m) - w[m]).min() > 1e-4:
                ctx.close(fp[i, m], fph[m], f"photonic fraction of the polariton at {w[m]}", 0, 1e-6)
                ctx.label("fraction")
        if c["zero"]:
            sorted_check(ctx, Es[i] + 1j * Is[i], bare[:-1], "energies without coupling", 1e-8 * scale)
    # the order of the wells does not matter, nor does a translation of the crystal
    order = np.roll(np.arange(len(zs)), c["perm"])
    if c["perm"] % 2:
        order = order[::-1]
    a1, a2 = gen.lat_vectors(p["lat"])
    v = c["shift"][0] * a1 + c["shift"][1] * a2
    q = gen.map_shapes(p, lambda s: gen.wrap_shape(gen.move_shape(s, v), p["lat"]))
    phc2 = gen.build_phc(q)
    add_wells(c, phc2, order)
    pol2 = legume.HopfieldPol(phc2, c["gmax"], truncate_g=c["trunc"])
    pol2.run(gme_options=g, exc_options=e, kpoints=ks, verbose=False)
    ctx.close(pol2.eners, Es, "energies of the translated crystal", 0, 1e-6 * scale)
    ctx.label(c["trunc"], f"{len(zs)} wells", "no coupling" if c["zero"] else "coupling",
              "losses" if c["im"] else "no losses", "strong" if moved > 0.05 else "weak")
    ctx.nontrivial(moved > 1e-5)


# ---------------------------------------------------------------- invalid input

@st.composite
def bad_cases(draw):
    p = draw(gen.phc(nlayers=(1, 2), max_shapes=1))
    return {"p": p, "what": draw(pick("no wells", "lattice constants", "below", "above")),
            "d": draw(fl(0, 2)), "r": draw(fl(1.01, 2, 100)), "n": draw(st.integers(2, 3))}


def check_bad(c, ctx):
    import legume
    phc = gen.build_phc(c["p"])
    w = c["what"]
    z0, z1 = float(phc.layers[0].z_min), float(phc.layers[-1].z_max)
    ctx.label(w)
    ctx.nontrivial()

    def add(z, a=4e-7):
        phc.add_qw(z=z, V_shapes=1e-3, a=a, M=2e-31, E0=1.6, loss=1e-4, osc_str=[1e16, 0, 0])
    try:
        if w == "below":
            add(z0 - c["d"])
        elif w == "above":
            add(z1 + c["d"])
        else:
            if w == "lattice constants":
                for i in range(c["n"]):
                    add((z0 + z1) / 2, 4e-7 * (c["r"] if i == c["n"] - 1 else 1))
            legume.HopfieldPol(phc, 1.01)
    except ValueError:
        return
    except Exception as e:
        ctx.require(False, f"{w}: {type(e).__name__} instead of ValueError: {e}")
    ctx.require(False, f"{w}: accepted, expected ValueError")


PARTS = [
    {"name": "energies", "cases": cases, "check": check, "quick": 1000, "thorough": 6000},
    {"name": "invalid", "cases": bad_cases, "check": check_bad, "quick": 120, "thorough": 800},
]
