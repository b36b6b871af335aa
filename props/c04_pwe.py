"""Plane-wave expansion: bands and fields of the 2D crystal."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip, Violation
from harness.gen import fl, pick

ID = "C04"
TITLE = "Plane-wave expansion: bands and fields of the 2D crystal"
RULE = ("2D crystals with 0..2 shapes of any class on any lattice, 3..49 plane waves, k points of "
        "low and high symmetry; non-trivial: at least one shape and k != 0")
ASSUMPTIONS = ["shapes overlap neither each other nor their translates",
               "2 pi gmax / |b_i| is no integer"]


@st.composite
def layer_spec(draw, min_shapes=0):
    lat = draw(gen.lattice())
    return {"lat": lat, "eps_b": draw(fl(1, 14, 100)),
            "shapes": draw(gen.shapes_in_cell(lat, 2, eps=fl(1, 14, 100), nmin=min_shapes)),
            "gmax": draw(gen.gmax_tbt(lat, nmax=49))}


def build_layer(s, eps_b=None):
    import legume
    lay = legume.ShapesLayer(gen.build_lattice(s["lat"]), z_min=0, z_max=0.3,
                             eps_b=s["eps_b"] if eps_b is None else eps_b)
    for sh in s["shapes"]:
        lay.add_shape(gen.build_shape(sh))
    return lay


@st.composite
def kfr(draw):
    t = draw(pick("free", "free", "axis", "sym"))
    if t == "free":
        return draw(gen.kany())
    if t == "axis":
        v = [draw(fl(-0.7, 0.7)), 0.]
        return v if draw(st.booleans()) else v[::-1]
    return [draw(pick(0., 0.5, 1 / 3, -0.5)), draw(pick(0., 0.5, 1 / 3, -1 / 3))]


@st.composite
def cases(draw):
    s = draw(layer_spec())
    return {"s": s, "ks": draw(st.lists(kfr(), min_size=1, max_size=3)),
            "pol": draw(pick("te", "tm", "TE", "TM")), "numeig": draw(st.integers(1, 12)),
            "N": [draw(st.integers(1, 9)), draw(st.integers(1, 9))],
            "comp": draw(pick("xyz", "x", "zy", "xx", "yzx")), "kind": draw(st.integers(0, 2)),
            "mind": draw(st.integers(0, 11))}


def tol_ft(s):
    """Accuracy of the transform of polygons at small components of g."""
    return 1e-9 if all(refs.shape_vertices(x) is None for x in s["shapes"]) else 1e-6


def check(c, ctx):
    import legume
    s = c["s"]
    lat = s["lat"]
    lay = build_layer(s)
    pwe = legume.PlaneWaveExp(lay, gmax=s["gmax"])
    K = gen.kpts(lat, c["ks"])
    K0 = K.copy()
    pwe.run(kpoints=K, pol=c["pol"], numeig=c["numeig"])
    ctx.require(np.array_equal(K, K0), "k points changed")
    G = refs.gset_tbt(lat, s["gmax"])
    pol = c["pol"].lower()
    n = min(c["numeig"], G.shape[1])
    F = np.asarray(pwe.freqs)
    ctx.require(F.shape == (K.shape[1], n), f"freqs has shape {F.shape}, expected "
                f"{(K.shape[1], n)}")
    ctx.label(pol, f"{len(s['shapes'])} shapes", lat["kind"], "Gamma" if not np.any(K) else "k")
    ctx.nontrivial(len(s["shapes"]) > 0 and np.any(K))
    tol = tol_ft(s)
    for i in range(K.shape[1]):
        ref = refs.pwe_freqs(s["eps_b"], s["shapes"], lat, G, K[:, i], pol)[:n]
        ctx.close(F[i]**2, ref**2, f"squared frequencies at k = {K[:, i]}", 20 * tol + 1e-9,
                  5e-6 if tol > 1e-8 else 1e-9)
        ctx.require(np.all(np.diff(F[i]) > -1e-12), "frequencies are not sorted")
        if not s["shapes"]:
            e = np.sort(np.hypot(K[0, i] + G[0], K[1, i] + G[1]))[:n] / 2 / np.pi
            ctx.close(F[i]**2, e**2 / s["eps_b"], "bands of the empty layer", 1e-9, 1e-9)
    # eigenvectors
    g = np.asarray(pwe.gvec)
    ctx.require(g.shape == G.shape, "number of reciprocal vectors")
    kind, mind = c["kind"] % K.shape[1], c["mind"] % n
    V = np.asarray(pwe.eigvecs[kind])
    ctx.require(V.shape == (g.shape[1], n), f"eigvecs has shape {V.shape}")
    ctx.close(V.conj().T @ V, np.eye(n), "eigenvectors are orthonormal", 0, 1e-8)
    # fields
    k = K[:, kind]
    om = 2 * np.pi * F[kind, mind]
    if om < 1e-2:
        return
    kx, ky = k[0] + g[0], k[1] + g[1]
    Hf = [np.asarray(x) for x in pwe.ft_field_xy("H", kind, mind)]
    D = [np.asarray(x) for x in pwe.ft_field_xy("d", kind, mind)]
    E = [np.asarray(x) for x in pwe.ft_field_xy("E", kind, mind)]
    ctx.close(sum(np.sum(np.abs(h)**2) for h in Hf), 1., "norm of H", 1e-8)
    sc = np.sqrt(np.sum(kx**2 + ky**2)) / om * 1e-7 + 1e-7
    if pol == "te":
        ctx.close(np.abs(Hf[0]) + np.abs(Hf[1]), 0 * kx, "in-plane H of a TE mode", 0, 1e-12)
    else:
        ctx.close(Hf[2], 0 * kx, "z component of H of a TM mode", 0, 1e-12)
        ctx.close(kx * Hf[0] + ky * Hf[1], 0 * kx, "divergence of H", 0, 1e-6)
    C = [ky * Hf[2] / om, -kx * Hf[2] / om, (kx * Hf[1] - ky * Hf[0]) / om]
    for a, b, nm in zip(D, C, "xyz"):
        ctx.close(a, b, f"D{nm} = (curl H / i omega){nm}", 0, sc)
    em = np.linalg.inv(refs.eps_matrix(s["eps_b"], s["shapes"], lat, g))
    dn = max(1., max(np.abs(d).max() for d in D))
    for a, d, nm in zip(E, D, "xyz"):
        ctx.close(a, em @ d, f"E{nm} = D{nm} / eps", 0, dn * (50 * tol + 1e-7))
    back = [-(ky * E[2]) / om, kx * E[2] / om, -(kx * E[1] - ky * E[0]) / om]
    gm = np.sqrt(np.max(kx**2 + ky**2))
    for a, b, nm in zip(back, Hf, "xyz"):
        ctx.close(a, b, f"(curl E){nm} = -i omega H{nm}", 0, gm / om * dn * (50 * tol + 1e-6))
    # real space
    for field, ft in (("H", Hf), ("D", D), ("E", E)):
        fi, x, y = pwe.get_field_xy(field, kind, mind, component=c["comp"], Nx=c["N"][0],
                                    Ny=c["N"][1])
        ctx.require(set(fi) == set(c["comp"]), f"components {set(fi)}")
        xg, yg = lay.lattice.xy_grid(Nx=c["N"][0], Ny=c["N"][1])
        ctx.close(x, xg, "x grid")
        ctx.close(y, yg, "y grid")
        X, Y = np.meshgrid(x, y)
        ph = np.exp(1j * (g[0][:, None, None] * X + g[1][:, None, None] * Y))
        for nm in fi:
            w = np.tensordot(ft["xyz".index(nm)], ph, axes=(0, 0))
            ctx.close(fi[nm], w, f"{field}{nm} in real space", 0, 1e-8 * dn * g.shape[1])


@st.composite
def sym_cases(draw):
    return {"s": draw(layer_spec(min_shapes=1)), "k": draw(kfr()), "pol": draw(pick("te", "tm")),
            "op": draw(pick("shift", "order", "swap", "reverse", "rotate", "mirror", "minus-k",
                            "cell", "scale", "length")),
            "v": [draw(fl(-1, 1)), draw(fl(-1, 1))], "f": draw(fl(0.5, 2, 100)),
            "unit": draw(pick(1., 1., 500., 0.002)),
            "m": draw(st.integers(0, 5))}


def check_sym(c, ctx):
    import legume
    s = c["s"]
    lat = s["lat"]
    a1, a2 = gen.lat_vectors(lat)
    k = gen.kvec(lat, c["k"])
    q = dict(s)
    k2 = k
    fac = 1.
    op, v, f = c["op"], np.array(c["v"]), c["f"]
    obl = lambda x, y: {"kind": "obl", "a1": list(map(float, x)), "a2": list(map(float, y))}
    if op == "shift":
        q["shapes"] = [gen.move_shape(x, v) for x in s["shapes"]]
    elif op == "order":
        q["shapes"] = s["shapes"][::-1]
    elif op == "swap":
        q["lat"] = obl(a2, a1)
    elif op == "reverse":
        q["lat"] = obl(-a1, a2) if c["m"] % 2 else obl(a1, -a2)
    elif op in ("rotate", "mirror"):
        t = 3 * v[0]
        M = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        if op == "mirror":
            M = M @ np.diag([1, -1])
        q["lat"] = obl(M @ a1, M @ a2)
        q["shapes"] = [gen.linear_shape(x, M) for x in s["shapes"]]
        k2 = M @ k
    elif op == "minus-k":
        k2 = -k
    elif op == "cell":
        q["shapes"] = [gen.move_shape(x, (i + 1) * a1 - c["m"] * a2)
                       for i, x in enumerate(s["shapes"])]
    elif op == "scale":
        q["eps_b"] = s["eps_b"] * f
        q["shapes"] = [dict(x, eps=x["eps"] * f) for x in s["shapes"]]
        fac = 1 / np.sqrt(f)
    elif op == "length":
        f *= c["unit"]
        q["lat"] = obl(a1 * f, a2 * f)
        q["shapes"] = [gen.scale_shape(x, f) for x in s["shapes"]]
        q["gmax"] = s["gmax"] / f
        k2 = k / f
        fac = 1 / f
    ctx.label(op)
    ctx.nontrivial()
    F = []
    for d, kk in ((s, k), (q, k2)):
        p = legume.PlaneWaveExp(build_layer(d), gmax=d["gmax"])
        p.run(kpoints=np.array(kk, float).reshape(2, 1), pol=c["pol"], numeig=8)
        F.append(np.asarray(p.freqs)[0])
    ctx.require(F[0].shape == F[1].shape, f"number of modes {F[0].shape} and {F[1].shape}")
    # rotated lattices have reciprocal vectors with small components, see C02
    ctx.close(F[1]**2, (fac * F[0])**2, f"squared frequencies after '{op}'", 2e-5, 2e-5)


@st.composite
def eff_cases(draw):
    return {"s": draw(layer_spec(min_shapes=1)), "k": draw(gen.kfrac()),
            "eps_eff": draw(fl(1, 14, 100)), "pol": draw(pick("te", "tm"))}


def check_eff(c, ctx):
    """eps_eff replaces the background permittivity."""
    import legume
    s = c["s"]
    if abs(c["eps_eff"] - s["eps_b"]) < 0.3:
        raise Skip("eps_eff is the background")
    k = gen.kvec(s["lat"], c["k"])
    p = legume.PlaneWaveExp(build_layer(s), gmax=s["gmax"], eps_eff=c["eps_eff"])
    p.run(kpoints=k.reshape(2, 1), pol=c["pol"], numeig=5)
    G = refs.gset_tbt(s["lat"], s["gmax"])
    F = np.asarray(p.freqs)[0]
    n = len(F)
    want = refs.pwe_freqs(c["eps_eff"], s["shapes"], s["lat"], G, k, c["pol"])[:n]
    ignored = refs.pwe_freqs(s["eps_b"], s["shapes"], s["lat"], G, k, c["pol"])[:n]
    ctx.nontrivial()
    if np.allclose(F, want, rtol=1e-4, atol=1e-5):
        return
    if np.allclose(F, ignored, rtol=1e-4, atol=1e-5):
        raise Violation("eps_eff is ignored", key="eps_eff-ignored")
    ctx.close(F, want, "frequencies with eps_eff", 1e-4, 1e-5)


@st.composite
def bad(draw):
    return {"k": draw(pick("pol", "component")), "pol": draw(pick("x", "TEM", "t", "tee"))}


def check_bad(c, ctx):
    import legume
    lay = legume.ShapesLayer(legume.Lattice("square"), 0, 1, eps_b=3.)
    p = legume.PlaneWaveExp(lay, gmax=1.2)
    ctx.nontrivial()
    try:
        if c["k"] == "pol":
            p.run(kpoints=np.array([[0.1], [0.2]]), pol=c["pol"], numeig=2)
        else:
            p.run(kpoints=np.array([[0.1], [0.2]]), pol="te", numeig=2)
            p.get_field_xy("H", 0, 0, component="xw", Nx=2, Ny=2)
    except ValueError:
        return
    ctx.require(False, f"accepted: {c}")


PARTS = [
    {"name": "reference", "cases": cases, "check": check, "quick": 1200, "thorough": 20000},
    {"name": "symmetry", "cases": sym_cases, "check": check_sym, "quick": 1000, "thorough": 16000},
    {"name": "eps_eff", "cases": eff_cases, "check": check_eff, "quick": 40, "thorough": 400},
    {"name": "rejected", "cases": bad, "check": check_bad, "quick": 16, "thorough": 32},
]
