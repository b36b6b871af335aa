"""Metamorphic relations of the guided-mode expansion: symmetries of Maxwell's equations."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.gen import fl, pick

ID = "C07"
TITLE = "Guided-mode expansion obeys the symmetries of Maxwell's equations"
TECHNIQUE = "property-based testing (Hypothesis), metamorphic relations"
RULE = ("crystals of 1..3 layers with shapes of every kind, patterned claddings, all lattices, and a "
        "chain of 1..3 transformations out of translation, rotation, mirror, turning upside down, "
        "order of shapes, splitting a layer, other primitive vectors, scaling of permittivity or "
        "length, k to -k; non-trivial: a patterned structure, whose description changed")
ASSUMPTIONS = ["guided modes resolved by the search step (see C06)",
               "losses are compared as sums over groups of degenerate modes, and not for modes within "
               "0.3 % of the opening of a diffraction channel"]

KINDS = ("translate", "rotate", "mirror", "flip", "order", "split", "primitive", "eps", "length",
         "minus k")


@st.composite
def step(draw, trunc):
    t = draw(pick(*KINDS))
    s = {"t": t}
    if t == "translate":
        s["v"] = [draw(fl(-0.7, 0.7)), draw(fl(-0.7, 0.7))]
    elif t in ("rotate", "mirror"):
        s["th"] = draw(pick(draw(st.integers(-179, 180)), 90, 60, 45, 180, 0))
    elif t == "split":
        s["i"], s["f"] = draw(st.integers(0, 2)), draw(fl(0.15, 0.85, 100))
    elif t == "primitive":
        s["m"] = draw(pick([[0, 1], [1, 0]], [[-1, 0], [0, 1]], [[0, -1], [1, 0]]) if trunc == "tbt"
                      else pick([[0, 1], [1, 0]], [[1, 1], [0, 1]], [[1, 0], [-1, 1]],
                                [[0, -1], [1, 1]], [[-1, 0], [0, -1]], [[2, 1], [1, 1]]))
    elif t in ("eps", "length"):
        s["s"] = draw(fl(1.05, 1.6, 100) if t == "eps" else fl(0.6, 1.6, 100))
    return s


@st.composite
def cases(draw):
    p = draw(gen.phc(clad_shapes=True, min_shapes=draw(pick(1, 1, 1, 0))))
    trunc = draw(pick("abs", "abs", "tbt"))
    return {"p": p, "trunc": trunc,
            "gmax": draw(gen.gmax_abs(p["lat"]) if trunc == "abs" else gen.gmax_tbt(p["lat"])),
            "k": draw(gen.kany()), "low": draw(st.booleans()),
            "modes": sorted(draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True))),
            "steps": draw(st.lists(step(trunc), min_size=1, max_size=3)),
            "numeig": draw(st.integers(3, 12)), "unit": draw(pick(1., 1., 1., 1., 420., 0.01))}


def explicit(lat):
    a1, a2 = gen.lat_vectors(lat)
    return {"kind": "obl", "a1": list(map(float, a1)), "a2": list(map(float, a2))}


def apply(s, p, k, gmax):
    """(crystal, k, gmax, factor of the frequencies, changed)"""
    t = s["t"]
    if t == "translate":
        a1, a2 = gen.lat_vectors(p["lat"])
        v = s["v"][0] * a1 + s["v"][1] * a2
        return gen.map_shapes(p, lambda x: gen.wrap_shape(gen.move_shape(x, v), p["lat"])), k, \
            gmax, 1., any(s["v"])
    if t in ("rotate", "mirror"):
        th = math.radians(s["th"])
        M = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])
        if t == "mirror":
            M = M @ np.diag([1., -1.])
        q = gen.map_shapes(p, lambda x: gen.linear_shape(x, M))
        lat = explicit(p["lat"])
        for a in ("a1", "a2"):
            lat[a] = list(map(float, M @ np.array(lat[a])))
        return dict(q, lat=lat), M @ k, gmax, 1., t == "mirror" or s["th"] != 0
    if t == "flip":
        return dict(p, layers=p["layers"][::-1], clad=p["clad"][::-1], eps_l=p["eps_u"],
                    eps_u=p["eps_l"]), k, gmax, 1., True
    if t == "order":
        return dict(p, layers=[dict(l, shapes=l["shapes"][::-1]) for l in p["layers"]]), k, gmax, \
            1., any(len(l["shapes"]) > 1 for l in p["layers"])
    if t == "split":
        i = s["i"] % len(p["layers"])
        l = p["layers"][i]
        two = [dict(l, d=l["d"] * s["f"]), dict(l, d=l["d"] * (1 - s["f"]))]
        return dict(p, layers=p["layers"][:i] + two + p["layers"][i + 1:]), k, gmax, 1., True
    if t == "primitive":
        a = np.array(s["m"]) @ np.array(gen.lat_vectors(p["lat"]))
        return dict(p, lat={"kind": "obl", "a1": a[0].tolist(), "a2": a[1].tolist()}), k, gmax, \
            1., True
    if t == "eps":
        q = gen.map_shapes(p, lambda x: dict(x, eps=x["eps"] * s["s"]))
        q["layers"] = [dict(l, eps_b=l["eps_b"] * s["s"]) for l in q["layers"]]
        return dict(q, eps_l=p["eps_l"] * s["s"], eps_u=p["eps_u"] * s["s"]), k, gmax, \
            1 / math.sqrt(s["s"]), True
    if t == "length":
        f = s["s"]
        q = gen.map_shapes(p, lambda x: gen.scale_shape(x, f))
        q["layers"] = [dict(l, d=l["d"] * f) for l in q["layers"]]
        lat = explicit(p["lat"])
        for a in ("a1", "a2"):
            lat[a] = [x * f for x in lat[a]]
        return dict(q, lat=lat), k / f, gmax / f, 1 / f, f != 1
    return p, -k, gmax, 1., True


def bands(c, p, k, gmax, n, unit=1.):
    """Frequencies and losses; lengths are given to the simulation in units of 1/unit."""
    import legume
    if unit != 1:
        p, k, gmax, _, _ = apply({"t": "length", "s": unit}, p, np.asarray(k), gmax)
    gme = legume.GuidedModeExp(gen.build_phc(p), gmax=gmax, truncate_g=c["trunc"])
    gme.run(kpoints=np.array(k).reshape(2, 1), gmode_inds=c["modes"], numeig=n, verbose=False,
            **({} if unit == 1 else {"gmode_step": 1e-2 / unit}))
    return unit * np.asarray(gme.freqs)[0], unit * np.asarray(gme.freqs_im)[0]


def check(c, ctx):
    p, gmax = c["p"], c["gmax"]
    k = gen.kvec(p["lat"], c["k"]) * (0.3 if c["low"] else 1.)
    nb = refs.well_posed(p, gmax, c["trunc"], k, c["modes"])
    q, kq, gq, sc = p, k, gmax, 1.
    changed = False
    for s in c["steps"]:
        q, kq, gq, f, ch = apply(s, q, kq, gq)
        sc *= f
        changed = changed or ch
        ctx.label(s["t"])
    refs.well_posed(q, gq, c["trunc"], kq, c["modes"], gmin=0.02)
    n = min(nb, c["numeig"])
    f0, i0 = bands(c, p, k, gmax, n)
    f1, i1 = bands(c, q, kq, gq, n, c["unit"])
    if c["unit"] != 1:
        ctx.label("other unit of length")
    ctx.close(f1**2, (f0 * sc)**2, f"squared frequencies after {c['steps']}", 2e-6, 2e-7)
    # losses
    G = refs.gset(p["lat"], gmax, c["trunc"])
    eps = gen.eps_avgs(p)
    bad = refs.near_light_line(2 * np.pi * f0, k, G, eps[[0, -1]])
    for cl in refs.clusters(f0, 1e-5):
        if bad[cl].any() or (cl[-1] == n - 1 and n < nb):
            continue
        w0, w1 = f0[cl] @ i0[cl], f1[cl] @ i1[cl] / sc**2
        ctx.close(w1, w0, f"frequency times loss of the mode(s) at {f0[cl]} after {c['steps']}",
                  2e-4, 1e-8)
        if w0 > 1e-7:
            ctx.label("lossy mode")
    ctx.nontrivial(changed and any(sh for _, sh in refs.layer_specs(p)))


PARTS = [{"name": "symmetry", "cases": cases, "check": check, "quick": 1600, "thorough": 30000}]
