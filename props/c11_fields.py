"""Fields of guided-mode expansion modes: reference fields, Maxwell relations, real-space values."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C11"
TITLE = "Fields of guided-mode expansion modes obey Maxwell's relations"
RULE = ("crystals of 1..3 layers with 0..2 shapes per layer and cladding, all lattices, both "
        "truncations, k points of low and high symmetry, 1..3 guided modes, random heights in every "
        "layer and cladding, random grids; non-trivial: a patterned layer at a height looked at")
ASSUMPTIONS = ["shapes do not overlap", "modes of zero frequency (k + G = 0) are left out",
               "degenerate modes are compared through the projector on their span",
               "heights on an interface are left out"]


@st.composite
def cases(draw):
    p = draw(gen.phc(clad_shapes=True, min_shapes=1))
    trunc = draw(pick("abs", "tbt"))
    high = draw(pick(None, None, None, [0, 0], [0.5, 0], [0.5, 0.5], [1 / 3, 1 / 3], [0.25, 0]))
    return {"p": p, "trunc": trunc,
            "gmax": draw(gen.gmax_abs(p["lat"]) if trunc == "abs" else gen.gmax_tbt(p["lat"], 15)),
            "k": high or draw(gen.kany()),
            "modes": sorted(draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True))),
            "eff": draw(pick("average", "average", "background")),
            "numeig": draw(st.integers(1, 6)),
            "z": [draw(fl(0.02, 0.98)) for _ in p["layers"]] + [draw(fl(0.01, 0.8)), draw(fl(0.01, 0.8))]}


def kvector(c):
    b1, b2 = gen.rec_vectors(*gen.lat_vectors(c["p"]["lat"]))
    return c["k"][0] * b1 + c["k"][1] * b2


def slab_eps(c):
    p = c["p"]
    return gen.eps_avgs(p) if c["eff"] == "average" else np.array(
        [p["eps_l"]] + [l["eps_b"] for l in p["layers"]] + [p["eps_u"]])


def simulate(c):
    import legume
    p, k, eps = c["p"], kvector(c), slab_eps(c)
    i = refs.guided_info(p, c["gmax"], c["trunc"], k, c["modes"], eps)
    if i["contrast"] < 1.05:
        raise Skip("no index contrast")
    if i["n"] == 0:
        raise Skip("no guided modes")
    if i["gap"] < 0.015 or i["cut"] < 1e-4 or (i["gmin"] < 0.05 and np.any(k != 0)):
        raise Skip("near-degenerate guided modes")
    n = min(c["numeig"], i["n"])
    gme = legume.GuidedModeExp(gen.build_phc(p), gmax=c["gmax"], truncate_g=c["trunc"])
    gme.run(kpoints=k.reshape(2, 1), gmode_inds=c["modes"], numeig=n, verbose=False,
            eps_eff=c["eff"], compute_im=False)
    return p, k, eps, n, gme


def heights(c):
    """[lower cladding, layers..., upper cladding]"""
    e = np.concatenate([[0.], np.cumsum([l["d"] for l in c["p"]["layers"]])])
    z = [-c["z"][-2]] + [e[i] + x * (e[i + 1] - e[i]) for i, x in enumerate(c["z"][:-2])]
    return np.array(z + [e[-1] + c["z"][-1]]), e


def components(gme, m, z):
    return np.array([gme.ft_field_xy(f, 0, m, z) for f in ("h", "d", "e")])


def check(c, ctx):
    p, k, eps, n, gme = simulate(c)
    G = refs.gset(p["lat"], c["gmax"], c["trunc"])
    gv = np.asarray(gme.gvec)
    # order of the reciprocal vectors, and first occurrences
    key = {}
    for i in range(gv.shape[1]):
        key.setdefault(tuple(np.round(gv[:, i], 6) + 0.), i)
    ix = np.array([key[tuple(np.round(G[:, i], 6) + 0.)] for i in range(G.shape[1])])
    ctx.require(len(ix) == gv.shape[1], "reciprocal vectors")
    zs, e = heights(c)
    F = np.asarray(gme.freqs)[0]
    om = 2 * np.pi * F
    ok = [m for m in range(n) if F[m] > 1e-3]
    fields = {m: np.array([components(gme, m, z) for z in zs])[..., ix] for m in ok}
    ctx.require(all(np.all(np.isfinite(f)) for f in fields.values()), "fields are not finite")
    # --- relations between the fields
    gx, gy = k[0] + G[0], k[1] + G[1]
    ei = [np.linalg.inv(refs.eps_matrix(eb, sh, p["lat"], G)) for eb, sh in refs.layer_specs(p)]
    kinds = {s["t"] for _, sh in refs.layer_specs(p) for s in sh}
    rough = "hexagon" in kinds and p["lat"]["kind"] == "hexagonal"
    m = ok[-1] if ok else None
    if m is not None:
        f = fields[m]
        sc = np.max(np.abs(f[:, 0]))
        h = 1e-3
        for j, z in enumerate(zs):
            if np.min(np.abs(z - e)) < 2.5 * h:
                continue
            H, D, E = f[j]
            d1 = [np.array(gme.ft_field_xy("H", 0, m, z + s * h))[..., ix] for s in (-2, -1, 1, 2)]
            d2 = [np.array(gme.ft_field_xy("D", 0, m, z + s * h))[..., ix] for s in (-2, -1, 1, 2)]
            dH, dD = ((a[0] - 8 * a[1] + 8 * a[2] - a[3]) / 12 / h for a in (d1, d2))
            sd = max(np.max(np.abs(D)), 1e-3 * sc)
            gm = np.max(np.hypot(gx, gy)) + 1
            w = f"of mode {m} at z = {z:.4f}"
            ctx.close((1j * gx * H[0] + 1j * gy * H[1] + dH[2]) / gm / sc, 0 * gx, "div H " + w, 0, 1e-6)
            ctx.close((1j * gx * D[0] + 1j * gy * D[1] + dD[2]) / gm / sd, 0 * gx, "div D " + w, 0, 1e-6)
            curl = np.array([1j * gy * H[2] - dH[1], dH[0] - 1j * gx * H[2], 1j * gx * H[1] - 1j * gy * H[0]])
            ctx.close(D / sd, curl / 1j / om[m] / sd, "D " + w, 0, 1e-6 * gm / om[m] * sc / sd + 1e-6)
            ctx.close(E / sd, np.einsum("gh,ch->cg", ei[j], D) / sd, "E " + w, 0, 1e-4 if rough else 1e-6)
            for a, b in (("h", 0), ("d", 1), ("e", 2)):
                ctx.close(np.array(gme.ft_field_xy(a.upper(), 0, m, z))[..., ix], f[j][b], a + w, 1e-12, 0)
        for z in e:
            a, b = (np.array(gme.ft_field_xy("H", 0, m, z + s))[..., ix] for s in (-1e-9, 1e-9))
            ctx.close(a / sc, b / sc, f"H of mode {m} below and above the interface z = {z:.4f}", 0, 1e-6)
            a, b = (np.array(gme.ft_field_xy("D", 0, m, z + s))[2][ix] for s in (-1e-9, 1e-9))
            ctx.close(a / sc, b / sc, f"D_z of mode {m} below and above z = {z:.4f}", 0, 1e-6 * gm / om[m])
    # --- against the reference fields
    shift = int(np.sum(F < 1e-3))
    fr, R = refs.mode_fields(p, c["gmax"], c["trunc"], k, c["modes"], n + 1, zs, eps)
    poly = bool(kinds - {"circle", "ellipse", "square"})
    ctol = 3e-3 if rough else 1e-4 if poly else 1e-6
    ctx.close(F[shift:]**2, fr[:n - shift]**2, "squared frequencies", *((1e-4, 1e-4) if rough else
                                                                       (2e-6, 2e-6)))
    done = 0
    for cl in refs.clusters(fr, ctol):
        if cl[-1] >= n - shift or fr[cl[0]] < 1e-3:
            continue
        A = np.array([fields[q + shift].reshape(len(zs), 3, -1) for q in cl])
        B = R[cl].reshape(len(cl), len(zs), 3, -1)
        for i, name in enumerate("HDE"):
            a, b = A[:, :, i].reshape(len(cl), -1), B[:, :, i].reshape(len(cl), -1)
            # one norm for all heights and components; the projector does not know about phases
            X, Y = a.T @ a.conj(), b.T @ b.conj()
            ctx.close(X / np.max(np.abs(Y)), Y / np.max(np.abs(Y)), f"products of the {name} components"
                      f" (z, component, G) of modes {cl} at frequency {fr[cl[0]]:.5f}", 0,
                      3e-3 if rough else 2e-5)
        done += 1
        if len(cl) > 1:
            ctx.label("degenerate modes")
    if done:
        ctx.label("compared with the reference")
    ctx.nontrivial(m is not None)
    ctx.label(c["trunc"], f"{len(p['layers'])} layers", c["eff"],
              *(["k + G = 0"] if not np.all(np.hypot(gx, gy) > 1e-6) else []),
              *(["patterned cladding"] if any(p["clad"]) else []))


# ---------------------------------------------------------------- real space

@st.composite
def grid_cases(draw):
    c = draw(cases())
    c["mode"] = draw(st.integers(0, 5))
    for a in "xyz":
        c["g" + a] = None if draw(st.booleans()) else sorted(draw(st.lists(fl(-1.2, 1.7), min_size=1,
                                                                         max_size=6)))
        c["n" + a] = draw(st.integers(2, 7))
    c["at"] = [draw(fl(-1, 1)), draw(fl(-1, 1)), draw(fl(-0.5, 1.2))]
    c["dist"] = draw(pick(None, 0.3, 2.))
    c["comp"] = draw(pick("xyz", "x", "y", "z", "xz", "zy", "yyx"))
    c["field"] = draw(pick("h", "d", "e", "H", "D", "E"))
    return c


def check_grid(c, ctx):
    import legume
    p, k, eps, n, gme = simulate(c)
    m = c["mode"] % n
    if gme.freqs[0][m] < 1e-3:
        raise Skip("mode of zero frequency")
    zs, e = heights(c)
    x0, y0, z0 = c["at"]
    if np.min(np.abs(np.subtract.outer([z0] + list(c["gz"] or []), e))) < 1e-6:
        raise Skip("height on an interface")
    gv = np.asarray(gme.gvec)
    arr = {a: None if c["g" + a] is None else np.array(c["g" + a]) for a in "xyz"}

    def want(xs, ys, z):
        """(component, y, x)"""
        F = np.array(gme.ft_field_xy(c["field"], 0, m, z))
        uniq, iu = np.unique(np.round(gv, 7), axis=1, return_index=True)
        ph = np.exp(1j * (gv[0, iu][:, None, None] * np.asarray(xs)[None, None, :] +
                          gv[1, iu][:, None, None] * np.asarray(ys)[None, :, None]))
        return np.einsum("cg,gyx->cyx", F[:, iu], ph)
    lat = gme.phc.lattice
    defx, defy = lat.xy_grid(Nx=c["nx"], Ny=2)[0], lat.xy_grid(Nx=2, Ny=c["ny"])[1]
    defz = np.linspace(e[0] - (c["dist"] or 1.), e[-1] + (c["dist"] or 1.), c["nz"])
    kz = {} if c["dist"] is None else {"dist": c["dist"]}
    ex = {"x": defx if arr["x"] is None else arr["x"], "y": defy if arr["y"] is None else arr["y"],
          "z": defz if arr["z"] is None else arr["z"]}
    kept = {a: None if arr[a] is None else arr[a].copy() for a in arr}
    nn = {a: {"N" + a: c["n" + a]} for a in "xyz"}
    fi, gx, gy = gme.get_field_xy(c["field"], 0, m, z0, xgrid=arr["x"], ygrid=arr["y"],
                                  component=c["comp"], **nn["x"], **nn["y"])
    w = want(ex["x"], ex["y"], z0)
    res = [("xy", fi, gx, gy, ex["x"], ex["y"], {a: w["xyz".index(a)] for a in "xyz"})]
    fi, gx, gz = gme.get_field_xz(c["field"], 0, m, y0, xgrid=arr["x"], zgrid=arr["z"],
                                  component=c["comp"], **nn["x"], **nn["z"], **kz)
    if np.min(np.abs(np.subtract.outer(ex["z"], e))) < 1e-6:
        raise Skip("height on an interface")
    w = np.array([want(ex["x"], [y0], z)[:, 0, :] for z in ex["z"]])
    res.append(("xz", fi, gx, gz, ex["x"], ex["z"], {a: w[:, "xyz".index(a)] for a in "xyz"}))
    fi, gy, gz = gme.get_field_yz(c["field"], 0, m, x0, ygrid=arr["y"], zgrid=arr["z"],
                                  component=c["comp"], **nn["y"], **nn["z"], **kz)
    w = np.array([want([x0], ex["y"], z)[:, :, 0] for z in ex["z"]])
    res.append(("yz", fi, gy, gz, ex["y"], ex["z"], {a: w[:, "xyz".index(a)] for a in "xyz"}))
    for name, fi, ga, gb, wa, wb, w in res:
        ctx.require(set(fi) == set(c["comp"]), f"components {sorted(fi)} from get_field_{name} for "
                    f"{c['comp']!r}")
        ctx.close(ga, wa, f"first grid of get_field_{name}", 0, 1e-12)
        ctx.close(gb, wb, f"second grid of get_field_{name}", 0, 1e-12)
        sc = max(np.max(np.abs(v)) for v in w.values()) + 1e-12
        for a in fi:
            ctx.close(np.asarray(fi[a]) / sc, w[a] / sc, f"component {a} of {c['field']} from "
                      f"get_field_{name}", 0, 1e-9)
    for a in arr:
        ctx.require(arr[a] is None or np.array_equal(arr[a], kept[a]), "grid was modified")
    for f in (gme.get_field_xy, gme.get_field_xz, gme.get_field_yz):
        try:
            f(c["field"], 0, m, 0.05, component="xw", **({"Nx": 2} if f != gme.get_field_yz else {"Ny": 2}))
            ctx.require(False, "an unknown component was accepted")
        except ValueError:
            pass
    ctx.nontrivial()
    ctx.label(c["field"].lower(), c["trunc"], *(["default grid"] if any(a is None for a in arr.values()) else []),
              *(["single component"] if len(set(c["comp"])) == 1 else []))


PARTS = [{"name": "modes", "cases": cases, "check": check, "quick": 600, "thorough": 20000},
         {"name": "real space", "cases": grid_cases, "check": check_grid, "quick": 400,
          "thorough": 8000}]
