"""Excitons in a patterned quantum well against the Schroedinger equation."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.gen import fl, pick

ID = "C15"
TITLE = "Excitons in a patterned quantum well: Schroedinger equation"
TECHNIQUE = "property-based testing (Hypothesis) against an independent plane-wave Schroedinger solver"
RULE = ("random crystals of 1-3 layers with 0-2 shapes each, the well in any layer, potentials of either "
        "sign and none, masses, lattice constants, k lists, both truncations; nested truncations; "
        "invalid input; non-trivial: a potential in a layer with shapes")
ASSUMPTIONS = ["shapes of a layer do not overlap", "eigenvectors are checked by their residual"]

HBAR, ECH = 1.054571817e-34, 1.602176634e-19


@st.composite
def cases(draw):
    p = draw(gen.phc(nlayers=(1, 3), min_shapes=draw(pick(0, 1, 1, 1)), max_shapes=2))
    trunc = draw(pick("abs", "tbt"))
    lay = draw(st.integers(0, len(p["layers"]) - 1)) if draw(pick(True, False)) else 0
    return {"p": p, "trunc": trunc, "lay": lay, "zf": draw(fl(0.02, 0.98, 100)),
            "gmax": draw(gen.gmax_abs(p["lat"], 1, 37) if trunc == "abs" else gen.gmax_tbt(p["lat"], 35)),
            "k": [draw(gen.kany()) for _ in range(draw(st.integers(1, 3)))],
            "gamma": draw(st.booleans()),
            "V": draw(pick(0., 1., -1., 1., -1.)) * draw(fl(0.01, 3, 100)),      # meV
            "a": draw(fl(100, 900, 1)), "M": draw(fl(0.05, 1, 100)),              # nm, electron masses
            "E0": draw(fl(-1, 3, 100)), "loss": draw(fl(0, 0.5, 100)),            # eV, meV
            "n": draw(pick(1, 2, 3, 5, 10, 50, None)), "N": [draw(st.integers(1, 7)), draw(st.integers(1, 7))],
            "osc": draw(pick("list", "array", "none")), "rerun": draw(pick(False, False, True)),
            "qn": draw(fl(0.4, 0.9, 100))}


def solver(c, phc, gmax):
    import legume
    lay = phc.layers[c["lay"]]
    z = lay.z_min + c["zf"] * (lay.z_max - lay.z_min)
    osc = {"list": [1e16, 0, 2e16], "array": np.array([1e16, 0, 2e16]), "none": None}[c["osc"]]
    kw = {} if osc is None else {"osc_str": osc}
    return legume.ExcitonSchroedEq(phc=phc, z=z, V_shapes=c["V"] * 1e-3, a=c["a"] * 1e-9,
                                   M=c["M"] * 9.1e-31, E0=c["E0"], loss=c["loss"] * 1e-3, gmax=gmax,
                                   truncate_g=c["trunc"], **kw)


def potential(c, gx, gy):
    """Fourier coefficients [eV] of the potential at the wave vectors (gx, gy)."""
    a1, a2 = gen.lat_vectors(c["p"]["lat"])
    area = abs(a1[0] * a2[1] - a1[1] * a2[0])
    V = c["V"] * 1e-3
    out = np.zeros(np.shape(gx), complex)
    for s in c["p"]["layers"][c["lay"]]["shapes"]:
        out = out + V * refs.shape_ft(s, gx, gy) / area
    if V < 0 and c["p"]["layers"][c["lay"]]["shapes"]:
        out = out + abs(V) * (np.hypot(gx, gy) < 1e-9)
    return out


def check(c, ctx):
    p = c["p"]
    lat = p["lat"]
    phc = gen.build_phc(p)
    exc = solver(c, phc, c["gmax"])
    G = refs.gset(lat, c["gmax"], c["trunc"])
    gv = np.asarray(exc.gvec)
    ctx.require(gv.shape == (2, G.shape[1]), f"{gv.shape[1]} reciprocal vectors, expected {G.shape[1]}")
    order = lambda x: x[:, np.lexsort(np.round(x, 6)[::-1])]
    ctx.close(order(gv), order(G), "reciprocal vectors", 1e-9, 1e-8)
    nG = G.shape[1]
    ks = gen.kpts(lat, c["k"])
    if c["gamma"]:
        ks[:, 0] = 0.
    opt = {"verbose_ex": False}
    if c["n"] is not None:
        opt["numeig_ex"] = c["n"]
    if c["rerun"]:
        exc.run(kpoints=ks[:, ::-1] * 0.5 + 0.1, verbose_ex=False, numeig_ex=2)
    k0 = ks.copy()
    exc.run(kpoints=ks, **opt)
    ctx.require(np.array_equal(k0, ks), "run() changed the k-points of the caller")
    ctx.close(exc.kpoints, k0, "kpoints", 0, 0)
    n = min(10 if c["n"] is None else c["n"], nG)
    E = np.asarray(exc.eners)
    ctx.require(E.shape == (ks.shape[1], n), f"energies of shape {E.shape}, expected {(ks.shape[1], n)}")
    ctx.close(E.imag, np.full(E.shape, c["loss"] * 1e-3), "imaginary part of the energies", 1e-12, 1e-15)
    gx, gy = gv[0][:, None] - gv[0][None, :], gv[1][:, None] - gv[1][None, :]
    pot = potential(c, gx, gy)
    m = c["M"] * 9.1e-31
    W = np.asarray(exc.eigvecs)
    for i in range(ks.shape[1]):
        q2 = (ks[0, i] + gv[0])**2 + (ks[1, i] + gv[1])**2
        T = HBAR**2 * q2 / (2 * m * (c["a"] * 1e-9)**2) / ECH
        H = np.diag(T) + pot
        ref = np.linalg.eigvalsh(H)
        scale = np.abs(ref).max() + abs(c["E0"]) + 1.
        # (the solver adds 1 eV before the diagonalisation: absolute accuracy)
        ctx.close(E[i].real - c["E0"], ref[:n], f"energies at k number {i}", 1e-7, 1e-12 * scale)
        ctx.require(W[i].shape == (nG, n), f"eigenvectors of shape {W[i].shape}")
        ctx.close(W[i].conj().T @ W[i], np.eye(n), "overlaps of the wave functions", 0, 1e-9)
        ctx.close(H @ W[i], W[i] * ref[:n], "Hamiltonian applied to the wave functions", 0, 1e-11 * scale)
        ctx.close(np.asarray(exc.ft_wavef_xy(i, n - 1)), W[i][:, n - 1], "Fourier components", 0, 1e-12)
    # real space
    i, mi = ks.shape[1] - 1, n - 1
    Nx, Ny = c["N"]
    w, x, y = exc.get_wavef_xy(i, mi, Nx=Nx, Ny=Ny)
    lx, ly = phc.lattice.xy_grid(Nx=Nx, Ny=Ny)
    ctx.close(x, lx, "x grid", 0, 0)
    ctx.close(y, ly, "y grid", 0, 0)
    X, Y = np.meshgrid(np.asarray(x), np.asarray(y))
    ref = sum(W[i][g, mi] * np.exp(1j * (gv[0, g] * X + gv[1, g] * Y)) for g in range(nG))
    ctx.close(w, ref, "wave function in real space", 1e-8, 1e-9)
    v, x, y = exc.get_pot_xy(Nx=Nx, Ny=Ny)
    seen = {}
    for a, b in zip(np.round(gx, 5).ravel() + 0., np.round(gy, 5).ravel() + 0.):
        seen[(a, b)] = 1
    U = np.array(list(seen)).T
    co = potential(c, U[0], U[1])
    ref = sum(co[g] * np.exp(1j * (U[0, g] * X + U[1, g] * Y)) for g in range(U.shape[1]))
    ctx.close(v, ref, "potential in real space", 1e-5, 1e-9 + 1e-4 * abs(c["V"]) * 1e-3)
    # nested truncations: the Ritz values decrease with the number of plane waves
    small = solver(c, phc, round(c["gmax"] * c["qn"], 4))
    ns = np.asarray(small.gvec).shape[1]
    small.run(kpoints=k0, numeig_ex=n, verbose_ex=False)
    Es = np.asarray(small.eners).real
    h = min(n, ns)
    ctx.require(np.all(Es[:, :h] >= E.real[:, :h] - 1e-10), "an energy grew with the number of plane waves")
    pat = bool(p["layers"][c["lay"]]["shapes"]) and c["V"] != 0
    ctx.label(c["trunc"], f"{len(p['layers'])} layers",
              "V<0" if c["V"] < 0 else "V>0" if c["V"] > 0 else "V=0", "patterned" if pat else "plain",
              lat["kind"])
    ctx.nontrivial(pat and nG > 1)


# ---------------------------------------------------------------- invalid input

@st.composite
def bad_cases(draw):
    p = draw(gen.phc(nlayers=(1, 2), max_shapes=1))
    return {"p": p, "what": draw(pick("below", "above", "osc type", "osc length", "trunc", "option")),
            "d": draw(fl(0.01, 2)), "n": draw(pick(1, 2, 4, 5)), "t": draw(pick("a", "TBT", "", "none", "abs ")),
            "ty": draw(pick("tuple", "float", "str"))}


def check_bad(c, ctx):
    import legume
    phc = gen.build_phc(c["p"])
    z0 = float(phc.layers[0].z_min)
    z1 = float(phc.layers[-1].z_max)
    kw = {"phc": phc, "z": (z0 + float(phc.layers[0].z_max)) / 2, "V_shapes": 1e-3, "a": 4e-7, "M": 2e-31,
          "E0": 1.6, "loss": 1e-4, "gmax": 1.01}
    w = c["what"]
    want = ValueError
    if w == "below":
        kw["z"] = z0 - c["d"]
    elif w == "above":
        kw["z"] = z1 + c["d"]
    elif w == "osc type":
        kw["osc_str"] = {"tuple": (1e16, 0, 0), "float": 1e16, "str": "abc"}[c["ty"]]
        want = TypeError
    elif w == "osc length":
        kw["osc_str"] = [1e16] * c["n"]
    elif w == "trunc":
        kw["truncate_g"] = c["t"]
    ctx.label(w)
    ctx.nontrivial()
    try:
        e = legume.ExcitonSchroedEq(**kw)
        if w == "option":
            want = TypeError
            e.run(kpoints=np.array([[0.1], [0.2]]), numeig=3)
    except want:
        return
    except Exception as e:
        ctx.require(False, f"{w}: {type(e).__name__} instead of {want.__name__}: {e}")
    ctx.require(False, f"{w}: accepted, expected {want.__name__}")


PARTS = [
    {"name": "energies", "cases": cases, "check": check, "quick": 4000, "thorough": 20000},
    {"name": "invalid", "cases": bad_cases, "check": check_bad, "quick": 160, "thorough": 1000},
]
