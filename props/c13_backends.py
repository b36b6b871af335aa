"""The two backends against each other."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, params, refs
from harness.core import Skip
from harness.gen import fl, pick

ID = "C13"
TITLE = "The numpy and autograd backends compute the same numbers"
TECHNIQUE = "property-based testing (Hypothesis), differential testing of the two backends"
RULE = ("guided-mode expansions (every option: truncation, guided modes, interpolation, solver, vertical "
        "symmetry, effective permittivities, losses, fields), plane-wave expansions, excitons and "
        "polaritons of random crystals with numpy, with autograd, and with autograd while all "
        "parameters of the crystal are being differentiated; the primitives and every function of the "
        "backends on random arguments; non-trivial: a patterned crystal, or a non-empty argument")
ASSUMPTIONS = ["eigenvectors are compared up to phase and only for non-degenerate eigenvalues",
               "comparisons to 1e-8, of fields and losses to 1e-6"]


# ---------------------------------------------------------------- the two ways to run

def three(fun, p, where):
    """Values of fun(crystal) with numpy, with autograd, and traced by autograd."""
    import autograd
    import autograd.numpy as npa
    import legume
    from autograd.tracer import new_box, trace_stack
    from autograd.core import VJPNode
    x0 = np.array([float(params.get(p, w)) for w in where])
    legume.set_backend("numpy")
    a = fun(params.build_phc(p))
    legume.set_backend("autograd")
    try:
        b = fun(params.build_phc(p))
        with trace_stack.new_trace() as t:
            x = new_box(npa.array(x0), t, VJPNode.new_root())
            q = params.substitute(p, where, [x[i] for i in range(x0.size)])
            c = fun(params.build_phc(q))
            c = {k: params.plain(v) for k, v in c.items()}
    finally:
        legume.set_backend("numpy")
    return a, {k: params.plain(v) for k, v in b.items()}, c


def same(ctx, a, b, how, rtol, atol, only=None):
    for k in a:
        if only is not None and k not in only:
            continue
        x, y = a[k], b[k]
        if isinstance(x, list):
            ctx.require(len(x) == len(y), f"{k} {how}: {len(y)} entries, expected {len(x)}")
            for i, (u, v) in enumerate(zip(x, y)):
                ctx.close(v, u, f"{k}[{i}] {how}", rtol, atol)
        else:
            ctx.close(y, x, f"{k} {how}", rtol, atol)


# ---------------------------------------------------------------- guided-mode expansion

@st.composite
def gme_cases(draw):
    sym = draw(pick(False, False, True))
    trunc = draw(pick("abs", "tbt"))
    if sym:
        lat = draw(gen.lattice(("square", "rect")))
        p = draw(gen.phc(lat=lat, nlayers=(1, 2), max_shapes=0))
        r = gen.shortest(*gen.lat_vectors(lat))
        p["layers"][0]["shapes"] = [{"t": "circle", "eps": draw(fl(1, 5, 100)), "x": 0., "y": 0.,
                                     "r": draw(fl(0.15, 0.4)) * r}]
        k = [draw(fl(0.06, 0.44)), 0.]
        modes = draw(pick([0, 1], [0, 1, 2], [0, 1, 2, 3], [0, 3]))
    else:
        p = draw(gen.phc(clad_shapes=True, min_shapes=draw(pick(0, 1, 1))))
        k = draw(gen.kfrac())
        modes = sorted(draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)))
    return {"p": p, "trunc": trunc, "k": [k, [k[0] * 0.7, k[1] * 0.4]][:draw(st.integers(1, 2))],
            "gmax": draw(gen.gmax_abs(p["lat"], 5, 17) if trunc == "abs" else gen.gmax_tbt(p["lat"], 15)),
            "modes": modes, "sym": draw(pick("both", "even", "odd")) if sym else None,
            "sparse": draw(st.booleans()), "numeig": draw(st.integers(2, 6)),
            "compute": draw(pick("exact", "exact", "interp")), "solver": "eigh" if sym else draw(pick("eigh", "eigh", "eigsh")),
            "eff": draw(pick("average", "average", "background")), "im": draw(pick(True, True, False)),
            "only": trunc == "abs" and draw(pick(False, False, False, True)), "gr": draw(pick("exact", "approx")),
            "f": [draw(pick("e", "d", "h")), draw(pick("xy", "xz", "yz")), draw(fl(-0.9, 0.9))],
            "npts": draw(pick(50, 80))}


def check_gme(c, ctx):
    import legume
    p = c["p"]
    ks = np.array([np.asarray(gen.kvec(p["lat"], f)) for f in c["k"]]).T
    nb = min(refs.well_posed(p, c["gmax"], c["trunc"], ks[:, i], c["modes"]) for i in range(ks.shape[1]))
    if nb < 2:
        raise Skip("too few guided modes")
    n = min(c["numeig"], nb)
    opts = {"gmode_inds": c["modes"], "numeig": n, "verbose": False, "compute_im": c["im"],
            "gmode_compute": c["compute"], "gmode_npts": c["npts"], "eps_eff": c["eff"],
            "eig_solver": c["solver"], "only_gmodes": c["only"]}
    if c["sym"]:
        opts.update(kz_symmetry=c["sym"], angles=np.zeros(ks.shape[1]), use_sparse=c["sparse"],
                    symm_thr=1e-4)
    fcomp, plane, z = c["f"]

    def fun(ph):
        from autograd.tracer import isbox
        gme = legume.GuidedModeExp(ph, gmax=c["gmax"], truncate_g=c["trunc"])
        o = dict(opts)
        if repr(legume.backend) == "AutogradBackend":
            o["gradients"] = c["gr"]
        try:
            gme.run(kpoints=ks, **o)
        except ValueError as e:
            # fewer modes of a parity than bands asked for, or guided modes of one polarisation only
            # (interpolation and other effective permittivities: fewer modes than refs counted)
            if c["sym"] or c["compute"] == "interp" or c["eff"] != "average":
                return {"error": np.array([len(str(e))])}
            raise
        out = {"freqs": gme.freqs, "gvec": gme.gvec,
               "eps_avg": [l.eps_avg for l in ph.layers] + [l.eps_avg for l in ph.claddings],
               "ft": list(gme.T1)}
        if c["im"]:
            out["losses"] = gme.freqs_im
            out["radiated"] = gme.unbalance_sp
        if c["sym"] == "both":
            out["parity"] = np.array([list(map(float, s)) for s in gme.kz_symms])
        if not isbox(gme.freqs) and not isbox(np.asarray(gme.freqs).ravel()[0]):
            N = [1 + 0 * m for m in range(n)]
            zz = z * 0.5 * float(sum(l["d"] for l in p["layers"])) + float(ph.layers[0].z_min)
            fs = []
            for m in range(len(N)):
                if plane == "xy":
                    f = gme.get_field_xy(fcomp, 0, m, zz, Nx=3, Ny=4)[0]
                else:
                    f = getattr(gme, "get_field_" + plane)(fcomp, 0, m, 0.13, **{"N" + plane[0]: 3,
                                                                                "Nz": 5})[0]
                fs.append(np.array([f[x] for x in "xyz"]))
            out["field"] = np.array(fs)
        return out

    where = params.paths(p)
    a, b, t = three(fun, p, where)
    if "error" in a:
        ctx.require("error" in b and "error" in t, "an error with numpy only")
        raise Skip("too few modes of this parity")
    F = np.asarray(a["freqs"])
    single = [refs.clusters(f, 1e-5) for f in F]
    for how, r in (("with autograd", b), ("inside a differentiated function", t)):
        same(ctx, a, r, how, 1e-8, 1e-8, ("gvec", "eps_avg", "ft"))
        ctx.close(np.real(r["freqs"])**2, F**2, f"squared frequencies {how}", 1e-8, 1e-8)
        if c["im"] and c["solver"] == "eigh":
            A, B = np.asarray(a["losses"]), np.asarray(r["losses"])
            ctx.require(A.shape == B.shape, f"losses {how}: shape {B.shape}")
            for i in range(F.shape[0]):
                for cl in single[i]:
                    if F[i, cl].min() < 1e-3 or (cl[-1] == n - 1 and n < nb):
                        continue
                    ctx.close(F[i, cl] @ B[i, cl], F[i, cl] @ A[i, cl], f"losses at {F[i, cl]} {how}",
                              1e-5, 1e-9)
                    if len(cl) == 1 and A[i, cl[0]] > 1e-6:
                        ctx.label("loss")
                        ctx.close(np.asarray(r["radiated"])[i, cl], np.asarray(a["radiated"])[i, cl],
                                  f"share of polarisations at {F[i, cl]} {how}", 1e-4, 1e-4)
        if "parity" in a and all(len(cl) == 1 for s in single for cl in s):
            ctx.require(np.array_equal(a["parity"], r["parity"]), f"parities {how}: {r['parity']}, "
                        f"expected {a['parity']}")
            ctx.label("parity")
    if c["solver"] == "eigh":
        for cl in single[0]:
            if len(cl) > 1 or F[0, cl[0]] < 1e-3 or (cl[0] == n - 1 and n < nb):
                continue
            m = cl[0]
            x, y = np.asarray(a["field"])[m], np.asarray(b["field"])[m]
            ov = np.vdot(x.ravel(), y.ravel())
            s = np.abs(x).max() + 1e-3
            ctx.close(np.abs(y) / s, np.abs(x) / s, f"field {fcomp} of mode {m} with autograd", 0, 1e-5)
            if abs(ov) > 1e-6:
                ctx.close(y * np.conj(ov) / abs(ov) / s, x / s, f"field {fcomp} of mode {m} up to phase",
                          0, 1e-5)
                ctx.label("field")
    ctx.label(c["trunc"], c["solver"], c["compute"], "symmetry" if c["sym"] else "no symmetry",
              c["gr"])
    ctx.nontrivial(any(sh for _, sh in refs.layer_specs(p)))


# ---------------------------------------------------------------- plane waves, excitons, polaritons

@st.composite
def other_cases(draw):
    p = draw(gen.phc(nlayers=(1, 2), min_shapes=1, max_shapes=2))
    what = draw(pick("pwe", "pwe", "exc", "pol"))
    return {"p": p, "what": what, "trunc": draw(pick("abs", "tbt")), "g": draw(pick(1.05, 1.3, 1.55)),
            "k": [draw(gen.kfrac()) for _ in range(draw(st.integers(1, 3)))], "pol": draw(pick("te", "tm")),
            "V": draw(fl(-3, 3, 100)), "f": [draw(pick(0, 1, 4)) for _ in range(3)],
            "n": draw(st.integers(1, 4)), "z": draw(fl(0.1, 0.9))}


def check_other(c, ctx):
    import legume
    p = c["p"]
    gmax = c["g"] / gen.shortest(*gen.lat_vectors(p["lat"]))
    ks = gen.kpts(p["lat"], c["k"])
    what = c["what"]
    if what == "pol":
        for i in range(ks.shape[1]):
            nb = refs.well_posed(p, gmax, c["trunc"], ks[:, i], [0, 1])
            if nb < 3:
                raise Skip("too few guided modes")

    def fun(ph):
        l = ph.layers[0]
        z = (l.z_min + c["z"] * (l.z_max - l.z_min))
        if what == "pwe":
            s = legume.PlaneWaveExp(l, gmax=gmax)
            s.run(kpoints=ks, pol=c["pol"], numeig=c["n"])
            out = {"freqs": s.freqs, "eps_ft": s.T1}
            return out
        if what == "exc":
            s = legume.ExcitonSchroedEq(phc=ph, z=z, V_shapes=c["V"] / 1e3, a=400e-9, M=2e-31, E0=1.6,
                                        loss=1e-4, osc_str=[x * 1e16 for x in c["f"]], gmax=gmax,
                                        truncate_g=c["trunc"])
            n = min(c["n"], s.gvec.shape[1])
            s.run(kpoints=ks, numeig_ex=n, verbose_ex=False)
            w = [np.abs(s.get_wavef_xy(0, m, Nx=3, Ny=4)[0]) for m in range(n)]
            return {"eners": s.eners, "gvec": s.gvec, "pot": s.get_pot_xy(Nx=3, Ny=4)[0], "wave": w}
        ph.add_qw(z=z, V_shapes=c["V"] / 1e3, a=400e-9, M=2e-31, E0=1.6, loss=1e-4,
                  osc_str=[x * 1e16 for x in c["f"]])
        s = legume.HopfieldPol(ph, gmax, truncate_g=c["trunc"])
        s.run(kpoints=ks, gme_options={"gmode_inds": [0, 1], "numeig": 3, "verbose": False},
              exc_options={"numeig_ex": min(c["n"], 3), "verbose_ex": False}, verbose=False)
        return {"eners": s.eners, "eners_im": s.eners_im, "fractions_ex": s.fractions_ex,
                "fractions_ph": s.fractions_ph}

    legume.set_backend("numpy")
    a = fun(params.build_phc(p))
    legume.set_backend("autograd")
    b = {k: params.plain(v) for k, v in fun(params.build_phc(p)).items()}
    legume.set_backend("numpy")
    ctx.label(what)
    ctx.nontrivial()
    how = "with autograd"
    if what == "pwe":
        ctx.close(np.asarray(b["freqs"])**2, np.asarray(a["freqs"])**2, f"squared frequencies {how}", 1e-8, 1e-8)
        same(ctx, a, b, how, 1e-8, 1e-9, ("eps_ft",))
        where = params.paths(p)
        _, _, t = three(fun, p, [w for w in where if w[:2] == ["layers", 0]])
        how = "inside a differentiated function"
        ctx.close(np.asarray(t["freqs"])**2, np.asarray(a["freqs"])**2, f"squared frequencies {how}", 1e-8, 1e-8)
        same(ctx, a, t, how, 1e-8, 1e-9, ("eps_ft",))
    elif what == "exc":
        same(ctx, a, b, how, 1e-9, 1e-9, ("eners", "gvec", "pot"))
        E = np.real(np.asarray(a["eners"]))[0]
        for cl in refs.clusters(E, 1e-7):
            if len(cl) == 1 and cl[0] < len(E) - 1:
                ctx.close(b["wave"][cl[0]], a["wave"][cl[0]], f"wave function {cl[0]} {how}", 1e-4, 1e-4)
    else:
        same(ctx, a, b, how, 1e-7, 1e-9, ("eners",))
        E = np.asarray(a["eners"])
        gap = np.min(np.diff(E, axis=1)) if E.shape[1] > 1 else 1.
        if gap > 1e-7:
            same(ctx, a, b, how, 1e-4, 1e-7, ("eners_im", "fractions_ex", "fractions_ph"))


# ---------------------------------------------------------------- primitives

@st.composite
def prim_cases(draw):
    return {"what": draw(pick("eigh", "eigsh", "eig", "inv", "sqrt", "interp", "fsolve", "toeplitz_block",
                              "extend", "spdot", "fmap", "bessel1")),
            "n": draw(st.integers(1, 8)), "m": draw(st.integers(1, 5)), "seed": draw(st.integers(0, 10**6)),
            "cx": draw(st.booleans()), "u": draw(fl(0, 1)), "lower": draw(st.booleans())}


def hermitian(rng, n, cx):
    A = rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if cx else 0)
    return A + A.conj().T


def traced(f, *args, over=0):
    """Value of f while its argument number `over` is being traced."""
    from autograd.tracer import new_box, trace_stack
    from autograd.core import VJPNode
    args = list(args)
    with trace_stack.new_trace() as t:
        args[over] = new_box(args[over], t, VJPNode.new_root())
        out = f(*args)
        from autograd.builtins import tuple as _  # noqa
        return params.unbox(out)


def check_prim(c, ctx):
    import scipy.sparse as sp
    import legume
    from legume import primitives as pr, utils
    rng = np.random.default_rng(c["seed"])
    n, m, cx = c["n"], c["m"], c["cx"]
    legume.set_backend("autograd")
    bd = legume.backend
    what = c["what"]
    ctx.label(what)
    ctx.nontrivial()
    if what == "eigh":
        A = hermitian(rng, n, cx)
        B = A + np.triu(rng.standard_normal((n, n)), 1) if c["lower"] else A  # upper triangle not used
        for f in (bd.eigh, lambda x: traced(bd.eigh, x)):
            w, v = f(B)
            ctx.close(np.asarray(w), np.linalg.eigvalsh(A), "eigh_ag: eigenvalues", 1e-10, 1e-10)
            v = np.asarray(v)
            ctx.close(A @ v, v * np.asarray(w), "eigh_ag: eigenvectors", 1e-9, 1e-9)
            ctx.close(v.conj().T @ v, np.eye(n), "eigh_ag: orthonormality", 1e-9, 1e-9)
    elif what == "eigsh":
        n = n + 4
        A = hermitian(rng, n, cx) + 3 * n * np.eye(n)
        k = min(m, n - 2)
        s = c["u"] * n
        for f in (bd.eigsh, lambda x, **o: traced(lambda y: bd.eigsh(y, **o), x)):
            w, v = f(A, k=k, sigma=s)
            W = np.linalg.eigvalsh(A)
            near = np.sort(W[np.argsort(np.abs(W - s))[:k]])
            ctx.close(np.sort(np.asarray(w)), near, "eigsh_ag: eigenvalues", 1e-7, 1e-7)
            v = np.asarray(v)
            ctx.close(A @ v, v * np.asarray(w), "eigsh_ag: eigenvectors", 1e-6, 1e-6)
    elif what == "eig":
        A = rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if cx else 0)
        for f in (bd.eig, lambda x: traced(bd.eig, x)):
            w, v = f(A)
            w, v = np.asarray(w), np.asarray(v)
            ctx.close(A @ v, v * w, "eig_ag: eigenvectors", 1e-8, 1e-8)
            ctx.close(np.linalg.norm(v, axis=0), np.ones(n), "eig_ag: norms", 1e-9, 0)
            ctx.close(np.sum(w), np.trace(A), "eig_ag: trace", 1e-9, 1e-9)
            ctx.close(np.prod(w), np.linalg.det(A), "eig_ag: determinant", 1e-7, 1e-8)
    elif what == "inv":
        A = rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if cx else 0) + 4 * np.eye(n)
        for f in (bd.inv, lambda x: traced(bd.inv, x)):
            ctx.close(f(A), np.linalg.inv(A), "inv_ag", 1e-10, 1e-10)
    elif what == "sqrt":
        x = rng.standard_normal(n) + 1j * rng.standard_normal(n) if cx else rng.random(n) * (rng.random(n) > .2)
        for f in (bd.sqrt, lambda y: traced(bd.sqrt, y)):
            ctx.close(f(x), np.sqrt(x), "sqrt_ag", 1e-13, 0)
    elif what == "bessel1":
        from scipy.special import j1
        x = rng.standard_normal(n) * 10
        for f in (bd.bessel1, lambda y: traced(bd.bessel1, y)):
            ctx.close(f(x), j1(x), "bessel1", 1e-12, 1e-14)
    elif what == "interp":
        xp = np.cumsum(rng.random(n + 1) + 0.05)
        yp = rng.standard_normal(n + 1)
        x = xp[0] - 0.3 + rng.random(m) * (xp[-1] - xp[0] + 0.6)
        x[0] = xp[rng.integers(n + 1)]
        for f in (bd.interp, lambda x, xp, yp: traced(bd.interp, x, xp, yp, over=2)):
            ctx.close(f(x, xp, yp), np.interp(x, xp, yp), "interp_ag", 1e-12, 1e-14)
    elif what == "fsolve":
        import autograd.numpy as npa
        g = 0.5 + rng.random()
        e, d = 2 + rng.random(3), 0.1 + rng.random(1)
        fun = lambda x, g, e, d: npa.tanh(x * d[0]) * e[0] - g * npa.exp(-x) / e[1]
        want = utils.fsolve(fun, 0, 50, g, e, d)
        for f in (bd.fsolve_D22, lambda *a: traced(bd.fsolve_D22, *a, over=4),
                  lambda *a: traced(bd.fsolve_D22, *a, over=5)):
            got = f(fun, 0, 50, g, e, d)
            ctx.close(got, want, "fsolve_ag", 1e-9, 1e-11)
            ctx.close(fun(got, g, e, d), 0., "fsolve_ag: value of the function at the root", 0, 1e-7)
    elif what == "toeplitz_block":
        T1 = rng.standard_normal(n * m) + (1j * rng.standard_normal(n * m) if cx else 0)
        T2 = rng.standard_normal(n * m) + (1j * rng.standard_normal(n * m) if cx else 0)
        want = utils.toeplitz_block(n, T1, T2)
        for f in (bd.toeplitz_block, lambda *a: traced(bd.toeplitz_block, *a, over=1),
                  lambda *a: traced(bd.toeplitz_block, *a, over=2)):
            ctx.close(f(n, T1, T2), want, "toeplitz_block_ag", 0, 0)
    elif what == "extend":
        v = rng.standard_normal(m) + (1j * rng.standard_normal(m) if cx else 0)
        ind = rng.permutation(n + m)[:m]
        want = np.zeros(n + m, dtype=complex)
        want[ind] = v
        for f in (bd.extend, lambda *a: traced(bd.extend, *a)):
            ctx.close(f(v, ind, (n + m,)), want, "extend_ag", 0, 0)
        two = (rng.permutation(n + m)[:m], rng.permutation(n + m)[:m])
        w2 = np.zeros((n + m, n + m), dtype=complex)
        w2[two] = v
        ctx.close(bd.extend(v, two, (n + m, n + m)), w2, "extend_ag in two dimensions", 0, 0)
    elif what == "spdot":
        D = rng.standard_normal((n, m)) * (rng.random((n, m)) > 0.5)
        X = rng.standard_normal((m, 3)) + (1j * rng.standard_normal((m, 3)) if cx else 0)
        S = (sp.coo_matrix, sp.csr_matrix, sp.csc_matrix)[c["seed"] % 3](D)
        for f in (bd.spdot, lambda *a: traced(bd.spdot, *a, over=1)):
            ctx.close(f(S, X), D @ X, "spdot_ag", 1e-12, 1e-13)
        legume.set_backend("numpy")
        ctx.close(bd.spdot(S, X), D @ X, "spdot of numpy", 1e-12, 1e-13)
    else:
        import autograd.numpy as npa
        x = rng.standard_normal(n)
        fns = [lambda y, i=i: npa.sum(npa.sin(y * (i + 1))) for i in range(m)]
        want = np.array([np.sum(np.sin(x * (i + 1))) for i in range(m)])
        for f in (pr.fmap, lambda *a: traced(pr.fmap, *a, over=1)):
            ctx.close(f(fns, x), want, "fmap", 1e-12, 1e-13)
    legume.set_backend("numpy")


# ---------------------------------------------------------------- functions of the backends

UNARY = ("exp", "sqrt", "abs", "square", "sin", "cos", "tanh", "real", "imag", "conj", "tan", "transpose",
         "sum", "round", "shape", "size", "bessel1", "sort", "argsort", "max", "amax", "min", "var", "norm",
         "argwhere", "triu", "diag", "array", "unique", "outer", "power", "dot", "matmul", "divide", "stack",
         "hstack", "vstack", "concatenate", "reshape", "roll", "where", "full", "ones", "zeros", "eye",
         "linspace", "arange", "cross", "inv", "eigh")


@st.composite
def fun_cases(draw):
    return {"f": draw(pick(*UNARY)), "n": draw(st.integers(1, 5)), "m": draw(st.integers(1, 5)),
            "seed": draw(st.integers(0, 10**6)), "cx": draw(st.booleans()), "name": draw(
                st.text(alphabet="numpyatgrd _NA0", max_size=9))}


def check_fun(c, ctx):
    import legume
    bd = legume.backend
    rng = np.random.default_rng(c["seed"])
    n, m, cx, f = c["n"], c["m"], c["cx"], c["f"]
    real = f in ("tanh", "bessel1", "sort", "argsort", "max", "amax", "min", "cross", "unique", "linspace",
                 "arange", "eigh")
    x = rng.standard_normal((n, m)) + (1j * rng.standard_normal((n, m)) if cx and not real else 0)
    y = rng.standard_normal((n, m)) + (1j * rng.standard_normal((n, m)) if cx and not real else 0)
    if f == "unique":
        x = np.round(x)
    if f == "sqrt" and not cx:
        x = np.abs(x)
    sq = x @ x.conj().T + np.eye(n)
    args = {"outer": (x[0], y[:, 0]), "power": (np.abs(x) + 0.1, 1.7), "dot": (x, y.T), "matmul": (x, y.T),
            "divide": (x, y), "stack": ([x, y],), "hstack": ([x, y],), "vstack": ([x, y],),
            "concatenate": ((x, y),), "reshape": (x, (m, n)), "roll": (x, 2), "where": (np.abs(x) > 0.5, x, y),
            "full": ((n, m), 2.5), "ones": ((n, m),), "zeros": ((n, m),), "eye": (n, m),
            "linspace": (0.3, 1.7, n + 1), "arange": (n,), "cross": (x[:1, :1].repeat(3), rng.standard_normal(3)),
            "inv": (sq,), "eigh": (sq,), "sort": (x.ravel(),), "argsort": (x.ravel(),), "diag": (x[0],),
            "array": (x.tolist(),)}.get(f, (x,))
    res = []
    for name in ("numpy", "autograd"):
        legume.set_backend(name)
        ctx.require(repr(bd) == {"numpy": "NumpyBackend", "autograd": "AutogradBackend"}[name],
                    f"backend {name} is {bd!r}")
        res.append(getattr(bd, f)(*args))
    legume.set_backend("numpy")
    ctx.label(f)
    ctx.nontrivial()
    want = {"bessel1": None}.get(f, getattr(np, f, None) or getattr(np.linalg, f, None))
    if f == "eigh":
        res = [r[0] for r in res]
        want = None
    if f == "unique":
        want = np.unique
    if want is not None:
        ctx.close(res[0], want(*args), f"{f} of the numpy backend", 1e-13, 1e-14)
    ctx.close(np.asarray(res[1]), np.asarray(res[0]), f"{f} of the autograd backend", 1e-12, 1e-13)
    if c["name"] not in ("numpy", "autograd"):
        try:
            legume.set_backend(c["name"])
        except ValueError:
            pass
        else:
            ctx.require(False, f"backend {c['name']!r} accepted")
        ctx.require(repr(bd) == "NumpyBackend", "a rejected name changed the backend")


PARTS = [{"name": "gme", "cases": gme_cases, "check": check_gme, "quick": 280, "thorough": 8000},
         {"name": "other", "cases": other_cases, "check": check_other, "quick": 240, "thorough": 5000},
         {"name": "primitives", "cases": prim_cases, "check": check_prim, "quick": 1600, "thorough": 20000},
         {"name": "functions", "cases": fun_cases, "check": check_fun, "quick": 1600, "thorough": 20000}]
