"""Radiative losses against overlaps with independently built scattering states."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C10"
TITLE = "Radiative losses follow from the coupling to outgoing waves"
RULE = ("crystals of 1..3 layers with 0..2 shapes per layer and cladding, all lattices, both "
        "truncations, k points of low and high symmetry, 1..3 guided modes, 1..10 bands; "
        "non-trivial: a mode with an open channel and couplings that are not numerically zero")
ASSUMPTIONS = ["shapes do not overlap", "modes within 0.3% of the opening of a channel are left out",
               "nearly degenerate guided modes are skipped as in C06",
               "degenerate modes are compared through the sum of their coherency matrices",
               "effective permittivities other than the averages only with unpatterned claddings"]


@st.composite
def cases(draw):
    p = draw(gen.phc(clad_shapes=True, min_shapes=1))
    trunc = draw(pick("abs", "tbt"))
    high = draw(pick(None, None, None, [0, 0], [0.5, 0], [0.5, 0.5], [1 / 3, 1 / 3], [0.25, 0]))
    cl = any(p["clad"])
    return {"p": p, "trunc": trunc,
            "gmax": draw(gen.gmax_abs(p["lat"]) if trunc == "abs" else gen.gmax_tbt(p["lat"])),
            "k": high or draw(gen.kany()),
            "modes": sorted(draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True))),
            "eff": "average" if cl else draw(pick("average", "average", "background")),
            "numeig": draw(st.integers(2, 10)),
            "sub": draw(st.lists(st.integers(0, 9), min_size=1, max_size=4)),
            "late": draw(st.booleans())}


def kvector(c):
    b1, b2 = gen.rec_vectors(*gen.lat_vectors(c["p"]["lat"]))
    return c["k"][0] * b1 + c["k"][1] * b2


def setup(c):
    p, k = c["p"], kvector(c)
    eps = gen.eps_avgs(p) if c["eff"] == "average" else np.array(
        [p["eps_l"]] + [l["eps_b"] for l in p["layers"]] + [p["eps_u"]])
    i = refs.guided_info(p, c["gmax"], c["trunc"], k, c["modes"], eps)
    if i["contrast"] < 1.05:
        raise Skip("no index contrast")
    if i["n"] == 0:
        raise Skip("no guided modes")
    if i["gap"] < 0.015 or i["cut"] < 1e-4 or (i["gmin"] < 0.05 and np.any(k != 0)):
        raise Skip("near-degenerate guided modes")
    return p, k, eps, i["n"]


def flat(r):
    """Couplings of one mode as a vector over cladding, polarisation and channel."""
    return np.concatenate([r["l"][1], -r["l"][2], r["u"][1], -r["u"][2]])


def check(c, ctx):
    import legume
    p, k, eps, nb = setup(c)
    n = min(c["numeig"], nb)
    gme = legume.GuidedModeExp(gen.build_phc(p), gmax=c["gmax"], truncate_g=c["trunc"])
    gme.run(kpoints=k.reshape(2, 1), gmode_inds=c["modes"], numeig=n, verbose=False,
            eps_eff=c["eff"], compute_im=not c["late"])
    if c["late"]:
        gme.run_im()
    F, Fi = np.asarray(gme.freqs)[0], np.asarray(gme.freqs_im)[0]
    names = ("l_te", "l_tm", "u_te", "u_tm")
    ctx.require(Fi.shape == (n,), f"shape of the imaginary frequencies {Fi.shape}")
    ctx.require(np.all(Fi >= 0) and np.all(np.isfinite(Fi)), f"imaginary frequencies {Fi}")
    G = refs.gset(p["lat"], c["gmax"], c["trunc"])
    ecl = gen.eps_avgs(p)[[0, -1]]
    om = 2 * np.pi * F
    near = refs.near_light_line(om, k, G, ecl) | (F < 1e-3)
    gk2 = (k[0] + G[0])**2 + (k[1] + G[1])**2
    coup = []
    for m in range(n):
        cc = {x: np.asarray(gme.rad_coup[x][0][m]) for x in names}
        gv = {x: np.asarray(gme.rad_gvec[x][0][m]) for x in "lu"}
        for x in names:
            ctx.require(cc[x].shape == (gv[x[0]].shape[1],), f"{x}: {cc[x].shape} couplings for "
                        f"{gv[x[0]].shape} reciprocal vectors")
        tot = sum(np.sum(np.abs(v)**2) for v in cc.values())
        te = sum(np.sum(np.abs(cc[x])**2) for x in ("l_te", "u_te"))
        tm = tot - te
        ctx.close(Fi[m], np.imag(np.sqrt(om[m]**2 + 1j * tot)) / 2 / np.pi,
                  f"imaginary frequency of mode {m} from its couplings", 1e-9, 1e-15)
        ub = np.asarray(gme.unbalance_sp)[0][m]
        ite, itm = (np.imag(np.sqrt(om[m]**2 + 1j * x)) / 2 / np.pi for x in (te, tm))
        if Fi[m] > 1e-9:
            ctx.close(ub, ite / (ite + itm), f"unbalance_sp of mode {m}", 1e-5, 1e-6)
        ctx.require(-1e-9 <= ub <= 1 + 1e-9, f"unbalance_sp of mode {m} is {ub}")
        perm = {}
        for j, x in enumerate("lu"):
            idx = np.where(gk2 <= ecl[j] * om[m]**2)[0]
            want = sorted(zip(np.round(G[0, idx], 7) + 0., np.round(G[1, idx], 7) + 0.))
            got = list(zip(np.round(gv[x][0], 7) + 0., np.round(gv[x][1], 7) + 0.))
            if not near[m]:
                ctx.require(sorted(got) == want, f"open channels of mode {m} in cladding {x}: {got},"
                            f" expected {want}")
                perm[x] = [got.index((a, b)) for a, b in zip(np.round(G[0, idx], 7) + 0.,
                                                             np.round(G[1, idx], 7) + 0.)]
                if len(idx) == 0:
                    ctx.label("no channel in a cladding")
        if not near[m] and F[m] > 1e-3:
            if not perm["l"] and not perm["u"]:
                ctx.require(Fi[m] == 0, f"mode {m} has no open channel but losses {Fi[m]}")
                ctx.label("below the light line")
        coup.append(None if near[m] else np.concatenate(
            [cc[x][perm[x[0]]] for x in names]))
    # against the reference
    shift = int(np.sum(F < 1e-3)) if gk2.min() < 1e-12 else 0
    f, R, _ = refs.rad_reference(p, c["gmax"], c["trunc"], k, c["modes"], n + 1, eps)
    kinds = {s["t"] for _, sh in refs.layer_specs(p) for s in sh}
    rough = "hexagon" in kinds and p["lat"]["kind"] == "hexagonal"
    poly = bool(kinds - {"circle", "ellipse", "square"})
    ctol = 3e-3 if rough else 1e-4 if poly else 1e-6
    ctx.close(F[shift:]**2, f[:n - shift]**2, "squared frequencies", *((1e-4, 1e-4) if rough else
                                                                      (2e-6, 2e-6)))
    done = 0
    for cl in refs.clusters(f, ctol):
        if cl[-1] >= n - shift:
            if cl[-1] >= n or len(f) <= n - shift or cl[0] >= n - shift or shift:
                continue
        if f[cl[0]] < 1e-3 or any(coup[m + shift] is None for m in cl):
            continue
        A = np.array([coup[m + shift] for m in cl]).T
        B = np.array([flat(R[m]) for m in cl]).T
        if A.shape != B.shape:
            raise Skip("channels of degenerate modes differ")
        if A.size == 0:
            continue
        X, Y = A @ A.conj().T, B @ B.conj().T
        sc = np.max(np.abs(Y))
        ctx.close(X, Y, f"products of the couplings of modes {cl} (frequency {f[cl[0]]:.5f}; channels"
                  " l TE, l TM, u TE, u TM)", 0, (3e-3 if rough else 2e-5) * sc + 1e-9)
        if sc > 1e-7:
            done += 1
            if len(cl) > 1:
                ctx.label("degenerate modes")
        elif sc < 1e-12:
            ctx.label("forbidden by symmetry")
    # subsets of modes, in any order
    sub = [m % n for m in c["sub"]]
    fi, rc, rg = gme.compute_rad(0, sub)
    f3, fte, ftm, rc2, rg2 = gme.compute_rad_sp(0, sub)
    ctx.close(fi, Fi[sub], f"compute_rad of modes {sub}", 1e-12, 1e-15)
    ctx.close(f3, Fi[sub], f"compute_rad_sp of modes {sub}", 1e-12, 1e-15)
    for i, m in enumerate(sub):
        for j, v in ((0, fte[i]), (1, ftm[i])):
            s = sum(np.sum(np.abs(np.asarray(gme.rad_coup[x][0][m]))**2) for x in names[j::2])
            ctx.close(v, np.imag(np.sqrt(om[m]**2 + 1j * s)) / 2 / np.pi,
                      f"{'te tm'.split()[j]} losses of mode {m}", 1e-9, 1e-15)
        for x in names:
            for r in (rc, rc2):
                ctx.close(np.abs(r[x][i]), np.abs(gme.rad_coup[x][0][m]), f"{x} of mode {m} in "
                          f"compute_rad(0, {sub})", 1e-9, 1e-12)
        for x in "lu":
            for r in (rg, rg2):
                ctx.close(r[x][i], gme.rad_gvec[x][0][m], f"reciprocal vectors of mode {m}", 0, 0)
    ctx.nontrivial(done)
    ctx.label(c["trunc"], f"{len(p['layers'])} layers", c["eff"],
              *(["Gamma"] if gk2.min() < 1e-12 else []),
              *(["patterned cladding"] if any(p["clad"]) else []),
              *(["asymmetric"] if p["eps_l"] != p["eps_u"] else []))
    if any(r["l"][0].size > 1 or r["u"][0].size > 1 for r in R):
        ctx.label("several diffraction orders")


# ---------------------------------------------------------------- uniform slabs

@st.composite
def uniform_cases(draw):
    p = draw(gen.phc(clad_shapes=True, min_shapes=0))
    trunc = draw(pick("abs", "tbt"))
    same = draw(st.booleans())
    for eb, l in [(l["eps_b"], l["shapes"]) for l in p["layers"]] + [(p["eps_l"], p["clad"][0]),
                                                                   (p["eps_u"], p["clad"][1])]:
        if same:
            for s in l:
                s["eps"] = eb
        else:
            l.clear()
    return {"p": p, "trunc": trunc,
            "gmax": draw(gen.gmax_abs(p["lat"]) if trunc == "abs" else gen.gmax_tbt(p["lat"])),
            "k": draw(gen.kfrac()), "numeig": draw(st.integers(3, 10)), "eff": "average",
            "modes": sorted(draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)))}


def check_uniform(c, ctx):
    import legume
    p, k, eps, nb = setup(c)
    n = min(c["numeig"], nb)
    gme = legume.GuidedModeExp(gen.build_phc(p), gmax=c["gmax"], truncate_g=c["trunc"])
    gme.run(kpoints=k.reshape(2, 1), gmode_inds=c["modes"], numeig=n, verbose=False)
    G = refs.gset(p["lat"], c["gmax"], c["trunc"])
    om = 2 * np.pi * np.asarray(gme.freqs)[0]
    Fi = np.asarray(gme.freqs_im)[0]
    near = refs.near_light_line(om, k, G, eps[[0, -1]])
    gk2 = (k[0] + G[0])**2 + (k[1] + G[1])**2
    for m in range(n):
        if near[m]:
            continue
        ctx.require(0 <= Fi[m] < 1e-11, f"mode {m} of a uniform structure has losses {Fi[m]}")
        if np.any(gk2 <= max(eps[0], eps[-1]) * om[m]**2):
            ctx.nontrivial()
            ctx.label("folded above the light line")


# ---------------------------------------------------------------- scattering states of stacks

@st.composite
def stack_cases(draw):
    n = draw(st.integers(1, 6))
    return {"eps": [draw(fl(1, 13, 100)) for _ in range(n + 2)], "d": [draw(fl(0.03, 1.2)) for _ in range(n)],
            "om": draw(fl(0.1, 8)), "pol": draw(pick("te", "TE", "Te", "tm", "TM")), "clad": draw(st.integers(0, 1)),
            "x": [draw(fl(0, 0.999)) for _ in range(draw(st.integers(1, 4)))],
            "bad": draw(pick(False, False, False, False, False, False, False, True))}


def check_stack(c, ctx):
    """rad_modes() against the transfer of the field through the layers."""
    import legume
    eps, d, om, clad = np.array(c["eps"]), np.array(c["d"]), c["om"], c["clad"]
    g = om * np.sqrt(eps[0 if clad == 0 else -1]) * np.array(c["x"])
    if c["bad"]:
        ctx.label("rejected")
        ctx.nontrivial()
        try:
            legume.rad_modes(om, g, eps, d, "t" + c["pol"], clad)
        except Exception:
            return
        ctx.require(False, f"polarisation {'t' + c['pol']!r} accepted")
    pol = c["pol"].lower()
    ga, ea, da = g.copy(), eps.copy(), d.copy()
    X, Y = legume.rad_modes(om, ga, ea, da, c["pol"], clad)
    ctx.require(np.array_equal(ga, g) and np.array_equal(ea, eps) and np.array_equal(da, d), "arguments changed")
    X, Y = np.asarray(X), np.asarray(Y)
    ctx.require(X.shape == Y.shape == (len(eps), len(g)), f"coefficients of shape {X.shape}")
    f = om if pol == "te" else 1.
    for i, x in enumerate(g):
        q = np.sqrt((eps * om**2 - x**2).astype(complex))
        if np.abs(q).min() < 1e-3 * om or np.abs(q[1:-1].imag) @ d > 8:
            continue
        nodes, XY, _ = refs.scattering_state(om, x, eps, d, pol, clad)
        got = np.array([[X[j, i], Y[j, i]] for j in (0, -1)]) * f
        want = np.array([[v[1], v[0]] for v in XY])
        sc = max(np.abs(want).max(), 1.)
        ctx.close(got / sc, want / sc, f"outgoing and incoming amplitudes in the claddings, {pol}, g = {x}", 0, 1e-8)
        for l in range(len(d)):
            z = refs.GL_X * d[l] / 2
            psi = (X[l + 1, i] * np.exp(-1j * q[l + 1] * z) + Y[l + 1, i] * np.exp(1j * q[l + 1] * z)) * f
            ctx.close(psi / sc, nodes[l][0] / sc, f"field in layer {l}, {pol}, g = {x}", 0, 1e-7)
        # flux: |X|^2 - |Y|^2 through either cladding
        w = (1., 1.) if pol == "te" else (eps[0], eps[-1])
        flux = [np.real(q[j]) / w[j] * (abs(X[j, i])**2 - abs(Y[j, i])**2) for j in (0, -1)]
        ctx.close(flux[0], flux[1], "flux through the claddings", 1e-7, 1e-9 * sc**2)
        ctx.nontrivial()
        ctx.label(pol, "other cladding closed" if q[0 if clad else -1].imag else "both claddings open",
                  *(["evanescent in a layer"] if np.any(q[1:-1].imag) else []))


PARTS = [{"name": "couplings", "cases": cases, "check": check, "quick": 1200, "thorough": 20000},
         {"name": "uniform structures", "cases": uniform_cases, "check": check_uniform,
          "quick": 300, "thorough": 5000},
         {"name": "stacks", "cases": stack_cases, "check": check_stack, "quick": 800, "thorough": 20000}]
