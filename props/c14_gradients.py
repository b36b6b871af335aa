"""Reverse-mode gradients against finite differences."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, params, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C14"
TITLE = "Gradients equal the derivative of the computed quantity"
TECHNIQUE = "property-based testing (Hypothesis), differential testing against finite differences"
RULE = ("objectives (random weights of frequencies, imaginary frequencies, ratios) of guided-mode and "
        "plane-wave expansions of random crystals, with every option that has a gradient; all parameters "
        "of the crystal at once, compared with fourth-order finite differences along coordinate and random "
        "directions; shapes and layers alone; the primitives with random matrices; non-trivial: a derivative "
        "that is not numerically zero")
ASSUMPTIONS = ["bands involved are not degenerate, and no mode of interest is within 1% of the opening of a "
               "diffraction channel", "directions along which two finite-difference steps disagree, or that "
               "cross the cut-off of a guided mode, are left out",
               "gradients of eigenvectors of the iterative solver are accurate to 1e-2 (conjugate gradients)"]


def fd(f, x, v, h=1e-3):
    """Derivative of f at x along v and an estimate of its error."""
    f0 = f(x)

    def at(y):
        try:
            return f(y)
        except (ValueError, RuntimeError):      # a guided mode has its cut-off in between
            return np.nan

    def d(h):
        a = [at(x + s * h * v) for s in (-2, -1, 1, 2)]
        # the value at the centre must lie on the same smooth function
        jump = abs(f0 - (-a[0] + 4 * a[1] + 4 * a[2] - a[3]) / 6)
        return (a[0] - 8 * a[1] + 8 * a[2] - a[3]) / 12 / h, jump / h
    (d1, _), (d2, j) = d(h), d(h / 2)
    return d2, max(abs(d1 - d2), j)


def backward(f, x):
    """Value and gradient with the autograd backend."""
    import legume
    from autograd import value_and_grad
    legume.set_backend("autograd")
    try:
        v, g = value_and_grad(f)(x)
    finally:
        legume.set_backend("numpy")
    return float(np.real(v)), np.asarray(g)


def compare(ctx, f, x, dirs, what, names, rtol=2e-5, atol=1e-7, h=1e-3, fnum=None):
    """Gradient of f at x along every direction of dirs."""
    v, g = backward(f, x)
    ctx.require(g.shape == x.shape, f"{what}: gradient of shape {g.shape} for {x.shape} parameters")
    fnum = fnum or f
    v0 = float(np.real(fnum(x)))
    ctx.close(v, v0, f"{what}: value", 1e-6, 1e-8)
    for d in dirs:
        d = np.asarray(d, float)
        num, err = fd(fnum, x, d, h)
        scale = max(abs(num), 1e-2)
        if not np.isfinite(num) or not err <= 1e-3 * scale:
            ctx.label("finite differences disagree")
            continue
        got = float(np.real(g @ d))
        on = [names[i] for i in np.nonzero(d)[0]]
        on = on[0] if len(on) == 1 else "a random direction"
        ctx.require(np.isfinite(got) and abs(got - num) <= rtol * abs(num) + atol + 20 * err,
                    lambda: f"{what}: derivative along {on}: gradient gives {got!r}, finite differences "
                            f"{num!r} (+- {err:.1e})")
        ctx.nontrivial(abs(num) > 1e-5)
        ctx.label("direction compared")
    return g


def directions(n, seed, picks):
    rng = np.random.default_rng(seed)
    out = []
    for i in picks:
        e = np.zeros(n)
        e[i % n] = 1
        out.append(e)
    r = rng.standard_normal(n)
    return out + [r / np.linalg.norm(r)]


# ---------------------------------------------------------------- guided-mode expansion

@st.composite
def gme_cases(draw):
    trunc = draw(pick("abs", "tbt"))
    sym = draw(pick(False, False, False, True))
    if sym:
        lat = draw(gen.lattice(("square", "rect")))
        p = draw(gen.phc(lat=lat, nlayers=(1, 2), max_shapes=0))
        r = gen.shortest(*gen.lat_vectors(lat))
        p["layers"][0]["shapes"] = [{"t": "circle", "eps": draw(fl(1, 5, 100)), "x": 0., "y": 0.,
                                     "r": draw(fl(0.15, 0.4)) * r}]
        k = [draw(fl(0.06, 0.44)), 0.]
        modes = draw(pick([0, 1], [0, 1, 2], [0, 1, 2, 3], [0, 3]))
    else:
        p = draw(gen.phc(clad_shapes=True, min_shapes=1))
        k = draw(gen.kfrac())
        k = draw(pick(k, k, [k[0], 0.], [k[0], k[0]], [0., k[1]]))
        modes = sorted(draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)))
        # positions and contrasts where coefficients vanish
        special = draw(pick("", "", "", "centre", "no contrast"))
        if special == "no contrast":
            # in one of the layers
            l = p["layers"][draw(st.integers(0, len(p["layers"]) - 1))]
            for s in l["shapes"][:draw(pick(1, 3, 3))]:
                s["eps"] = l["eps_b"]
        elif special:
            for l in p["layers"]:
                for s in l["shapes"]:
                    if "x" in s and len(l["shapes"]) == 1 and draw(st.booleans()):
                        s["x"] = s["y"] = 0.
    return {"p": p, "trunc": trunc, "k": k, "low": draw(st.booleans()),
            "gmax": draw(gen.gmax_abs(p["lat"], 5, 15) if trunc == "abs" else gen.gmax_tbt(p["lat"], 15)),
            "modes": modes, "sym": draw(pick("both", "even", "odd")) if sym else None,
            "sparse": draw(st.booleans()), "numeig": draw(st.integers(2, 6)),
            "compute": draw(pick("exact", "exact", "interp")),
            "solver": "eigh" if sym else draw(pick("eigh", "eigh", "eigh", "eigsh")),
            "eff": draw(pick("average", "average", "average", "background")),
            "gr": draw(pick("exact", "exact", "exact", "approx")),
            "obj": draw(pick("freqs", "losses", "mixed", "q")), "seed": draw(st.integers(0, 10**6)),
            "dirs": draw(st.lists(st.integers(0, 60), min_size=1, max_size=2))}


def horizontal(p):
    for _, shapes in refs.layer_specs(p):
        for s in shapes:
            if s["t"] == "square" or s["t"] == "hexagon":
                return True
    return False


def check_gme(c, ctx):
    import legume
    import autograd.numpy as npa
    p = c["p"]
    k = np.asarray(gen.kvec(p["lat"], c["k"])) * (0.4 if c["low"] else 1.)
    nb = refs.well_posed(p, c["gmax"], c["trunc"], k, c["modes"])
    n = min(c["numeig"], nb)
    if n < 2:
        raise Skip("too few guided modes")
    opts = {"gmode_inds": c["modes"], "numeig": n, "verbose": False,
            "compute_im": c["obj"] != "freqs", "gmode_compute": c["compute"], "gmode_npts": 60,
            "eps_eff": c["eff"], "eig_solver": c["solver"]}
    if c["sym"]:
        opts.update(kz_symmetry=c["sym"], angles=np.zeros(1), use_sparse=c["sparse"], symm_thr=1e-4)

    def run(ph):
        gme = legume.GuidedModeExp(ph, gmax=c["gmax"], truncate_g=c["trunc"])
        o = dict(opts)
        if repr(legume.backend) == "AutogradBackend":
            o["gradients"] = c["gr"]
        gme.run(kpoints=k.reshape(2, 1), **o)
        return gme

    try:
        gme = run(params.build_phc(p))
    except ValueError as e:
        if c["sym"] or c["compute"] == "interp" or c["eff"] != "average":
            raise Skip(f"{str(e)[:40]}")
        raise
    F = np.asarray(gme.freqs)[0]
    # bands used: well separated from their neighbours, away from 0 and from diffraction channels
    use = [i for i in range(n - 1) if F[i] > 0.02 and F[i + 1] - F[i] > 2e-3 and (i == 0 or F[i] - F[i - 1] > 2e-3)]
    if c["obj"] != "freqs":
        G = refs.gset(p["lat"], c["gmax"], c["trunc"])
        bad = refs.near_light_line(2 * np.pi * F, k, G, gen.eps_avgs(p)[[0, -1]], 0.01)
        use = [i for i in use if not bad[i]]
    if not use:
        raise Skip("no isolated band")
    use = np.array(use)
    rng = np.random.default_rng(c["seed"])
    w, v = rng.standard_normal(use.size), rng.standard_normal(use.size)
    where = params.paths(p)
    if c["gr"] == "approx":
        where = [q for q in where if q[-1] in ("x", "y", "phi", "angle")]
    if c["sym"]:
        # keep the mirror plane
        where = [q for q in where if q[-1] not in ("x", "y")]
    if not where:
        raise Skip("no parameters")
    x0 = np.array([float(params.get(p, q)) for q in where])

    def obj(x):
        ph = params.build_phc(params.substitute(p, where, [x[i] for i in range(len(where))]))
        gme = run(ph)
        f = gme.freqs[0][use]
        if c["obj"] == "freqs":
            return npa.sum(w * f) + npa.sum(v * f**2)
        fi = gme.freqs_im[0][use]
        if c["obj"] == "losses":
            return 1e2 * npa.sum(w * fi)
        if c["obj"] == "mixed":
            return npa.sum(w * f) + 30 * npa.sum(v * fi)
        return npa.sum(w * npa.log(1e-3 + fi / f))

    ctx.label(c["trunc"], c["solver"], c["compute"], c["gr"], c["obj"],
              "symmetry" if c["sym"] else "no symmetry")
    for q in where:
        ctx.label("parameter " + str(next(s for s in reversed(q) if isinstance(s, str))))
    loose = c["solver"] == "eigsh" and c["obj"] != "freqs"
    flat = [i for i, q in enumerate(where) if q[-1] == "eps" and q[0] == "layers"
            and x0[i] == p["layers"][q[1]]["eps_b"]]
    if flat:
        ctx.label("no contrast")
    compare(ctx, obj, x0, directions(len(where), c["seed"], c["dirs"] + flat[:2]), f"objective {c['obj']}",
            ["/".join(map(str, q)) for q in where], 1e-3 if loose else 5e-5, 1e-3 if loose else 1e-6)


# ---------------------------------------------------------------- plane-wave expansion

@st.composite
def pwe_cases(draw):
    p = draw(gen.phc(nlayers=(1, 1), min_shapes=1, max_shapes=2, eps_in=(1., 13.), eps_slab=(1., 13.)))
    k = draw(gen.kfrac())
    return {"p": p, "k": draw(pick(k, k, [k[0], 0.], [k[0], k[0]])), "pol": draw(pick("te", "tm")),
            "g": draw(pick(1.3, 1.55, 2.1)), "n": draw(st.integers(2, 6)), "seed": draw(st.integers(0, 10**6)),
            "dirs": draw(st.lists(st.integers(0, 30), min_size=1, max_size=3))}


def check_pwe(c, ctx):
    import legume
    import autograd.numpy as npa
    p = c["p"]
    gmax = c["g"] / gen.shortest(*gen.lat_vectors(p["lat"]))
    k = np.asarray(gen.kvec(p["lat"], c["k"]))
    where = [q for q in params.paths(p) if q[:2] == ["layers", 0] and q[2] != "d"]
    x0 = np.array([float(params.get(p, q)) for q in where] + list(k))

    def run(x):
        ph = params.build_phc(params.substitute(p, where, [x[i] for i in range(len(where))]))
        pwe = legume.PlaneWaveExp(ph.layers[0], gmax=gmax)
        kk = npa.array([[x[len(where)]], [x[len(where) + 1]]])
        pwe.run(kpoints=kk, pol=c["pol"], numeig=c["n"])
        return pwe.freqs[0]

    F = np.asarray(run(x0))
    n = F.size
    use = [i for i in range(n - 1) if F[i] > 0.02 and F[i + 1] - F[i] > 2e-3 and (i == 0 or F[i] - F[i - 1] > 2e-3)]
    if not use:
        raise Skip("no isolated band")
    use = np.array(use)
    w = np.random.default_rng(c["seed"]).standard_normal(use.size)

    def obj(x):
        f = run(x)[use]
        return npa.sum(w * f + w[::-1] * f**2)

    ctx.label(c["pol"])
    compare(ctx, obj, x0, directions(x0.size, c["seed"], c["dirs"] + [x0.size - 1, x0.size - 2]),
            f"plane-wave frequencies ({c['pol']})", ["/".join(map(str, q)) for q in where] + ["kx", "ky"],
            5e-5, 1e-6)


# ---------------------------------------------------------------- shapes and layers

@st.composite
def shape_cases(draw):
    lat = draw(gen.lattice())
    sh = draw(gen.shapes_in_cell(lat, 2, gen.SHAPES, fl(1, 13, 100), nmin=1))
    return {"lat": lat, "shapes": sh, "eps_b": draw(fl(1, 13, 100)), "seed": draw(st.integers(0, 10**6)),
            "rot": draw(pick(None, None, 0., draw(fl(-3, 3)))),
            "axis": draw(st.booleans()), "dirs": draw(st.lists(st.integers(0, 30), min_size=1, max_size=3))}


def check_shape(c, ctx):
    import legume
    import autograd.numpy as npa
    lat = c["lat"]
    p = {"lat": lat, "eps_l": 1., "eps_u": 1., "layers": [{"d": 0.3, "eps_b": c["eps_b"], "shapes": c["shapes"]}],
         "clad": [[], []]}
    where = [q for q in params.paths(p) if len(q) > 3 or q[-1] == "eps_b"]
    x0 = np.array([float(params.get(p, q)) for q in where] + ([c["rot"]] if c["rot"] is not None else []))
    rng = np.random.default_rng(c["seed"])
    b1, b2 = gen.rec_vectors(*gen.lat_vectors(lat))
    n = rng.integers(-3, 4, (2, 6))
    n[:, 0] = 0
    g = b1[:, None] * n[0] + b2[:, None] * n[1]
    if c["axis"]:
        g[rng.integers(2), 1:] = 0
    w = rng.standard_normal((4, 6))

    def obj(x):
        q = params.substitute(p, where, [x[i] for i in range(len(where))])
        ph = params.build_phc(q)
        lay = ph.layers[0]
        ft = lay.compute_ft(g)
        out = npa.sum(w[0] * npa.real(ft)) + npa.sum(w[1] * npa.imag(ft)) + 0.3 * lay.eps_avg
        for i, s in enumerate(q["layers"][0]["shapes"]):
            s = params.build_shape(s)
            if c["rot"] is not None and hasattr(s, "rotate"):
                s.rotate(x[len(where)])
            ft = s.compute_ft(g)
            out = out + npa.sum(w[2] * npa.real(ft)) + npa.sum(w[3] * npa.imag(ft)) + \
                npa.sum(npa.array(s.area)) * w[0, i]
        return out

    for s in c["shapes"]:
        ctx.label(s["t"])
    compare(ctx, obj, x0, directions(x0.size, c["seed"], c["dirs"]), "Fourier coefficients and areas",
            ["/".join(map(str, q)) for q in where] + ["rotation"], 1e-6, 1e-7)


# ---------------------------------------------------------------- primitives

@st.composite
def prim_cases(draw):
    return {"what": draw(pick("eigh", "eigh", "eigsh", "eigsh", "eig", "inv", "sqrt", "interp", "fsolve",
                              "toeplitz_block", "extend", "spdot", "fmap")),
            "n": draw(st.integers(2, 7)), "m": draw(st.integers(1, 5)), "seed": draw(st.integers(0, 10**6)),
            "cx": draw(st.booleans()), "vec": draw(st.booleans()), "tri": draw(pick("L", "U", "both")),
            "flag": draw(st.booleans())}


def rand(rng, shape, cx):
    return rng.standard_normal(shape) + (1j * rng.standard_normal(shape) if cx else 0)


def check_prim(c, ctx):
    import autograd.numpy as npa
    import scipy.sparse as sp
    from legume import primitives as pr
    rng = np.random.default_rng(c["seed"])
    n, m, cx, what = c["n"], c["m"], c["cx"], c["what"]
    np_par = 3
    names = [f"parameter {i}" for i in range(50)]
    x0 = np.zeros(np_par)
    rtol, atol, h = 1e-5, 1e-7, 1e-3
    fnum = None
    if what in ("eigh", "eigsh", "eig"):
        if what == "eigsh":
            n += 4
        A = rand(rng, (n, n), cx)
        A = A + A.conj().T if what != "eig" else A
        D = [rand(rng, (n, n), cx) for _ in range(np_par)]
        if what == "eigsh" or (what == "eigh" and c["tri"] == "both"):
            D = [d + d.conj().T for d in D]
        W = np.linalg.eigvals(A)
        sep = min(abs(W[i] - W[j]) for i in range(n) for j in range(i))
        if sep < 0.15:
            raise Skip("close eigenvalues")
        D = [d / np.linalg.norm(d) * min(1., sep) for d in D]
        u = rand(rng, n, cx)
        k = n if what != "eigsh" else min(m, n - 2)
        wt, vt = rng.standard_normal(k), rng.standard_normal(k) * c["vec"]

        def obj(x):
            M = A + x[0] * D[0] + x[1] * D[1] + x[2] * D[2]
            if what == "eigh":
                w, v = pr.eigh_ag(M, UPLO=c["tri"]) if c["tri"] != "both" else pr.eigh_ag(M)
            elif what == "eigsh":
                w, v = pr.eigsh_ag(M, k=k, sigma=float(np.real(W).min() - 1))
            else:
                w, v = pr.eig_ag(M)
            # functions that do not depend on the phases of the eigenvectors, nor on their order
            if what == "eig":
                out = npa.sum(npa.real(w**2 * (0.3 - 0.2j))) + npa.sum(npa.abs(w - 0.4)**2)
                if c["vec"]:
                    out = out + npa.sum(npa.real(w) * npa.abs(npa.dot(u, v))**2)
                return out
            i = npa.argsort(w)
            out = npa.sum(wt * w[i])
            if c["vec"]:
                out = out + npa.sum(vt * (npa.abs(npa.dot(np.conj(u), v))**2)[i])
            return out

        if what == "eigsh":
            def fnum(x):
                M = A + x[0] * D[0] + x[1] * D[1] + x[2] * D[2]
                w, v = np.linalg.eigh(M)
                return np.sum(wt * w[:k]) + np.sum(vt * (np.abs(np.conj(u) @ v)**2)[:k])
            rtol, atol = (1e-2, 2e-2) if c["vec"] else (1e-5, 1e-6)
        elif what == "eig":
            rtol, atol = 1e-4, 1e-5
    elif what == "inv":
        A = rand(rng, (n, n), cx) + 5 * np.eye(n)
        D = [rand(rng, (n, n), cx) for _ in range(3)]
        W = rand(rng, (n, n), cx)
        obj = lambda x: npa.sum(npa.real(W * pr.inv_ag(A + x[0] * D[0] + x[1] * D[1] + x[2] * D[2])))
    elif what == "sqrt":
        if cx:
            A, D = rand(rng, n, True), [rand(rng, n, True) for _ in range(3)]
            A = np.where(A.real < 0, -A, A) + 0.3
        else:
            A, D = rng.random(n) * 3 + 0.2, [rng.standard_normal(n) for _ in range(3)]
        W = rand(rng, n, cx)
        obj = lambda x: npa.sum(npa.real(W * pr.sqrt_ag(A + x[0] * D[0] + x[1] * D[1] + x[2] * D[2])))
    elif what == "interp":
        xp = np.cumsum(rng.random(n) + 0.05)
        if c["flag"]:
            xp = xp[:1]
        x = xp[0] + rng.random(m + 3) * (xp[-1] - xp[0])
        x[0] = xp[rng.integers(xp.size)]
        x[1] = xp[-1] + (1e-15 if cx else 0.2)
        x[2] = xp[0] - (1e-15 if cx else 0.2)
        y = rng.standard_normal(xp.size)
        D = [rng.standard_normal(xp.size) for _ in range(3)]
        W = rng.standard_normal(x.size)
        obj = lambda t: npa.sum(W * pr.interp_ag(x, xp, y + t[0] * D[0] + t[1] * D[1] + t[2] * D[2])**2)
    elif what == "fsolve":
        g = 0.5 + rng.random()
        e, d = 2 + rng.random(3), 0.3 + rng.random(1)
        fun = lambda y, g, e, d: npa.tanh(y * d[0]) * e[0] - g * npa.exp(-y * e[2]) / e[1]
        De, Dd = rng.standard_normal((3, 3)), rng.standard_normal((1, 3))

        def obj(x):
            r = pr.fsolve_ag(fun, 0., 50., g, e + npa.dot(De, x), d + npa.dot(Dd, x))
            return r + r**2
    elif what == "toeplitz_block":
        nb, p = n, m
        c0 = rand(rng, (4, nb, 2 * p + 1), cx)          # coefficients c[b, j], j = -p..p
        for q in c0:
            q[0] = (q[0] + q[0, ::-1].conj()) / 2
        W = rand(rng, (nb * p, nb * p), True)
        i1 = [(b, p + j) for b in range(nb) for j in range(p)]
        i2 = [(b, p - j) for b in range(nb) for j in range(p)]

        def obj(x):
            q = c0[0] + x[0] * c0[1] + x[1] * c0[2] + x[2] * c0[3]
            T1 = q[np.array([a for a, _ in i1]), np.array([b for _, b in i1])]
            T2 = q[np.array([a for a, _ in i2]), np.array([b for _, b in i2])]
            M = pr.toeplitz_block_ag(nb, T1, T2)
            return npa.sum(npa.real(W * M)) + npa.sum(npa.abs(npa.dot(M, M)))
        rtol, atol = 1e-5, 1e-6
    elif what == "extend":
        v = [rand(rng, m, cx) for _ in range(4)]
        ind = rng.permutation(n + m)[:m]
        W = rand(rng, n + m, cx)
        if c["flag"]:
            ind = (ind, rng.permutation(n + m)[:m])
            W = rand(rng, (n + m, n + m), cx)
        obj = lambda x: npa.sum(npa.real(W * pr.extend_ag(v[0] + x[0] * v[1] + x[1] * v[2] + x[2] * v[3], ind, W.shape)**2))
    elif what == "spdot":
        S = rand(rng, (n, m), c["vec"]) * (rng.random((n, m)) > 0.4)
        S = (sp.coo_matrix, sp.csr_matrix, sp.csc_matrix)[c["seed"] % 3](S)
        v = [rand(rng, (m, 3) if c["flag"] else m, cx) for _ in range(4)]
        W = rand(rng, (n, 3) if c["flag"] else n, True)
        obj = lambda x: npa.sum(npa.real(W * pr.spdot_ag(S, v[0] + x[0] * v[1] + x[1] * v[2] + x[2] * v[3])**2))
    else:
        A = rng.standard_normal((n, 3))
        y0 = rng.standard_normal(n)
        V = rng.standard_normal((m, n))
        fns = [lambda y, i=i: npa.sum(V[i].reshape(y.shape) * npa.sin(y * (i + 1))) for i in range(m)]
        W = rng.standard_normal(m)
        # parameters in arrays of one, two or three dimensions
        sh = (n,) if c["tri"] == "L" else (n // 2, 2) if n % 2 == 0 else (1, n) if c["tri"] == "U" else (n, 1, 1)
        obj = lambda x: npa.sum(W * pr.fmap(fns, npa.reshape(y0 + npa.dot(A, x), sh))**2)
        ctx.label(f"{len(sh)}-dimensional")
    ctx.label(what + (" vectors" if c["vec"] and what.startswith("eig") else ""))
    compare(ctx, obj, x0, directions(np_par, c["seed"], [0, 1, 2]), what, names, rtol, atol, h, fnum)


PARTS = [{"name": "gme", "cases": gme_cases, "check": check_gme, "quick": 200, "thorough": 6000},
         {"name": "pwe", "cases": pwe_cases, "check": check_pwe, "quick": 160, "thorough": 4000},
         {"name": "shapes", "cases": shape_cases, "check": check_shape, "quick": 320, "thorough": 6000},
         {"name": "primitives", "cases": prim_cases, "check": check_prim, "quick": 1200, "thorough": 20000}]
