"""Permittivity of layers and crystals in real and reciprocal space."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C03"
TITLE = "Permittivity of layers and crystals in real and reciprocal space"
RULE = ("crystals of 1..4 layers with 0..9 shapes per layer and cladding, added in any order by "
        "index or name; points in several cells and in every layer; non-trivial: a point inside "
        "a shape or a Fourier coefficient with g != 0 of a layer with shapes")
ASSUMPTIONS = ["shapes overlap neither each other nor their translates",
               "the centre of a shape is in the home cell (fractional coordinates -1/2..1/2) or "
               "an adjacent one",
               "points are further than 1e-6 from borders of shapes and layers"]


@st.composite
def cases(draw):
    p = draw(gen.phc(nlayers=(1, 4), clad_shapes=True, max_shapes=draw(pick(2, 3, 9)),
                     eps_slab=(0.5, 13.), eps_in=(0.3, 15.)))
    n = draw(st.integers(1, 10))
    return {"p": p, "as": draw(pick("one", "list", "index", "negative", "late")),
            "pts": [[draw(fl(-1.5, 1.5)), draw(fl(-1.5, 1.5)), draw(fl(-0.6, 1.6))]
                    for _ in range(n)],
            # points near the shapes: layer, shape, cell, offset in units of the cell
            "rel": [[draw(st.integers(0, 5)), draw(st.integers(0, 1)), draw(st.integers(-1, 1)),
                     draw(st.integers(-1, 1)), draw(fl(-0.3, 0.3)), draw(fl(-0.3, 0.3))]
                    for _ in range(6)],
            "far": draw(pick(0, 0, 3, 11)),
            "g": [[draw(st.integers(-5, 5)), draw(st.integers(-5, 5))] for _ in range(4)],
            "qw": [[draw(fl(-0.3, 1.3)), draw(fl(-0.2, 0.2))] for _ in range(2)]}


def build(c):
    import legume
    p = c["p"]
    lat = gen.build_lattice(p["lat"])
    out = legume.PhotCryst(lat, eps_l=p["eps_l"], eps_u=p["eps_u"])
    how = c["as"]
    for lay in p["layers"]:
        out.add_layer(d=lay["d"], eps_b=lay["eps_b"])
        if how == "late":
            continue
        sh = [gen.build_shape(s) for s in lay["shapes"]]
        if how == "list":
            out.add_shape(sh)
        else:
            for s in sh:
                if how == "index":
                    out.add_shape(s, layer=len(out.layers) - 1)
                elif how == "negative":
                    out.add_shape([s], layer=-1)
                else:
                    out.add_shape(s)
    if how == "late":
        for i in reversed(range(len(p["layers"]))):
            for s in p["layers"][i]["shapes"]:
                out.add_shape(gen.build_shape(s), layer=i)
    for i in (0, 1):
        for k, s in enumerate(p["clad"][i]):
            name = [i, "lu"[i]][k % 2 if how != "late" else 1]
            out.add_shape(gen.build_shape(s), cladding=name)
    return out


def check(c, ctx):
    p = gen.map_shapes(c["p"], lambda s: gen.wrap_shape(s, c["p"]["lat"]))
    c = dict(c, p=p)
    lat = p["lat"]
    a1, a2 = gen.lat_vectors(lat)
    area = abs(a1[0] * a2[1] - a1[1] * a2[0])
    ph = build(c)
    # stacking
    z = np.concatenate([[0], np.cumsum([l["d"] for l in p["layers"]])])
    H = z[-1]
    ctx.require(len(ph.layers) == len(p["layers"]), "number of layers")
    for i, l in enumerate(ph.layers):
        ctx.close([l.z_min, l.z_max, l.d], [z[i], z[i + 1], p["layers"][i]["d"]],
                  f"bottom, top and thickness of layer {i}", 1e-12, 1e-12)
    ctx.close([ph.claddings[0].z_max, ph.claddings[1].z_min], [0, H], "borders of the claddings",
              1e-12, 1e-12)
    ls = refs.layer_specs(p)
    objs = [ph.claddings[0]] + list(ph.layers) + [ph.claddings[1]]
    zb = np.concatenate([[-np.inf], z, [np.inf]])
    # points
    P = []
    for fx, fy, fz in c["pts"]:
        r = fx * a1 + fy * a2
        P.append([r[0], r[1], fz * H])
    for li, si, n1, n2, fx, fy in c["rel"]:
        li = li % len(ls)
        sh = ls[li][1]
        if sh:
            r = gen.shape_centre(sh[si % len(sh)]) + (n1 + fx) * a1 + (n2 + fy) * a2
            P.append([r[0], r[1], -0.7 * H if li == 0 else 1.6 * H if li == len(ls) - 1 else
                      0.3 * z[li - 1] + 0.7 * z[li]])
    if c["far"]:
        P.append(list(c["far"] * (a1 - a2) + 0.1 * a1) + [H / 3])
    want, keep = [], []
    for x, y, zz in P:
        i = int(np.searchsorted(z, zz, side="right"))
        if np.min(np.abs(z - zz)) < 1e-9:
            keep.append(False)
            want.append(0)
            continue
        eb, shapes = ls[i]
        e = eb
        ok = True
        hit = None
        for s in shapes:
            f = gen.frac(lat, np.array([x, y]) - gen.shape_centre(s))
            n0 = np.round(f)
            for di in range(-2, 3):
                for dj in range(-2, 3):
                    q = np.array([x, y]) - (n0[0] + di) * a1 - (n0[1] + dj) * a2
                    ins, marg = refs.inside(s, q[:1], q[1:])
                    if marg[0] < 1e-6:
                        ok = False
                    if ins[0]:
                        e = s["eps"]
                        hit = s["t"]
        keep.append(ok)
        want.append(e)
        if hit and ok:
            ctx.nontrivial()
            ctx.label("in " + hit + (" of a cladding" if i in (0, len(ls) - 1) else ""))
    keep = np.array(keep)
    want = np.array(want)
    P = np.array(P)
    got = ph.get_eps((P[:, 0].copy(), P[:, 1].copy(), P[:, 2].copy()))
    ctx.require(got.shape == want.shape, "shape of get_eps")
    ctx.close(got[keep], want[keep], f"get_eps at {P[keep].tolist()}",
              1e-12, 1e-12)
    m = P[:1]
    g1 = ph.get_eps((m[:, :1], m[:, 1:2], m[:, 2:]))
    if keep[0]:
        ctx.close(g1, want[:1].reshape(1, 1), "get_eps of one point", 1e-12, 1e-12)
    # averages, Fourier coefficients and bounds
    avg = gen.eps_avgs(p)
    b1, b2 = gen.rec_vectors(a1, a2)
    G = np.array([m * b1 + n * b2 for m, n in c["g"]] + [[0., 0.]]).T
    G = np.where(np.abs(G) < 1e-9, 0., G)
    bad = np.any((np.abs(G) > 0) & (np.abs(G) < 0.3), axis=0)
    G = G[:, ~bad]
    for i, (eb, shapes) in enumerate(ls):
        o = objs[i]
        ctx.close(float(o.eps_b), eb, f"background of layer {i}", 1e-12)
        ctx.require(len(o.shapes) == len(shapes), f"number of shapes of layer {i}")
        ctx.close(float(np.ravel(o.eps_avg)[0]), avg[i], f"average permittivity of layer {i}",
                  1e-7, 1e-8)
        ft = np.asarray(o.compute_ft(G))
        w = refs.eps_ft(eb, shapes, lat, G[0], G[1])
        ctx.close(ft, w, f"Fourier coefficients of layer {i}", 1e-5,
                  1e-4 if any(refs.shape_vertices(s) is not None for s in shapes) else 1e-7)
        if shapes and G.shape[1] > 1:
            ctx.nontrivial()
            ctx.label(f"{len(shapes)} shapes")
    al = [eb for eb, _ in ls] + [s["eps"] for _, sh in ls for s in sh]
    ctx.close(ph.get_eps_bounds(), (min(al), max(al)), "smallest and largest permittivity", 1e-12)
    # quantum wells
    n = 0
    for fz, V in c["qw"]:
        zq = round(fz * H, 5)
        args = dict(z=zq, V_shapes=V, a=2e-7, M=1e-31, E0=1.5, loss=1e-4, osc_str=[1., 2., 3.])
        try:
            ph.add_qw(**args)
            okq = True
        except ValueError:
            okq = False
        ctx.require(okq == (0 < zq < H), f"quantum well at z = {zq} in a stack of height {H}: "
                    f"accepted is {okq}")
        ctx.label("well accepted" if okq else "well rejected")
        if okq:
            n += 1
            q = ph.qws[-1]
            ctx.require(q.z == zq and q.V_shapes == V and q.E0 == 1.5 and q.loss == 1e-4
                        and q.M == 1e-31 and q.a == 2e-7
                        and list(q.osc_str) == [1., 2., 3.], "parameters of the quantum well")
    ctx.require(len(ph.qws) == n, "number of quantum wells")
    # z grid for plots
    g = ph.z_grid(Nz=7, dist=0.5)
    ctx.close(g, np.linspace(-0.5, H + 0.5, 7), "z_grid", 1e-12, 1e-12)


@st.composite
def bad(draw):
    return {"k": draw(pick("layer", "layer2", "cladding", "cladding2", "shape", "shapes", "type",
                           "mesh", "mesh2", "eff")), "n": draw(st.integers(1, 3))}


def check_bad(c, ctx):
    import legume
    ctx.nontrivial()
    ctx.label(c["k"])
    ph = legume.PhotCryst(legume.Lattice("square"))
    for _ in range(c["n"]):
        ph.add_layer(d=0.2, eps_b=9.)
    ci = legume.Circle(eps=1., r=0.2)
    k = c["k"]
    exp = (ValueError,)
    x = np.zeros((2, 3))
    try:
        if k == "layer":
            ph.add_shape(ci, layer=c["n"])
        elif k == "layer2":
            exp = (ValueError, IndexError)
            ph.add_shape(ci, layer=-c["n"] - 1)
        elif k == "cladding":
            ph.add_shape(ci, cladding=2)
        elif k == "cladding2":
            ph.add_shape(ci, cladding="upper")
        elif k == "shape":
            exp = (ValueError, TypeError)
            ph.add_shape("circle")
        elif k == "shapes":
            ph.add_shape([ci, 3.0])
        elif k == "type":
            ph.add_layer(d=0.1, eps_b=1., layer_type="grid")
        elif k == "mesh":
            ph.get_eps((x, x[:1], x))
        elif k == "mesh2":
            ph.get_eps((x, x, x[:, :1]))
        elif k == "eff":
            ph.layers[0].eps_eff
    except exp:
        if k == "eff":
            ph.layers[0].eps_eff = 3.5
            ctx.close(ph.layers[0].eps_eff, 3.5, "eps_eff")
        return
    ctx.require(False, f"accepted: {c}")


PARTS = [
    {"name": "crystal", "cases": cases, "check": check, "quick": 1600, "thorough": 30000},
    {"name": "rejected", "cases": bad, "check": check_bad, "quick": 80, "thorough": 160},
]
