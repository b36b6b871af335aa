"""The helper functions against direct sums, dense constructions and exact roots."""
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.gen import fl, pick

ID = "C20"
TITLE = "Utilities: transforms, conversions, layer lookup, scattering products"
TECHNIQUE = "property-based testing (Hypothesis) against direct sums, dense constructions and exact derivatives and roots"
RULE = ("random arguments of every helper of legume.utils and of the lattice-constant conversion: "
        "reciprocal-vector lists with repetitions, arrays of any shape and type, steps, brackets, stacks and "
        "heights, scattering matrices; non-trivial: arguments with more than one element")
ASSUMPTIONS = ["repeated reciprocal vectors carry equal coefficients"]

cplx = st.tuples(fl(-2, 2), fl(-2, 2))


# ------------------------------------------------------------ Fourier sums

@st.composite
def ft_cases(draw):
    lat = draw(gen.lattice())
    ms = draw(st.lists(st.tuples(st.integers(-4, 4), st.integers(-4, 4)), min_size=1, max_size=14))
    return {"lat": lat, "m": [list(m) for m in ms],
            "c": [list(draw(cplx)) for _ in ms], "real": draw(pick(False, False, True)),
            "x": draw(st.lists(fl(-2, 2), min_size=1, max_size=6)),
            "y": draw(st.lists(fl(-2, 2), min_size=1, max_size=6)),
            "per": draw(pick(1., 1., 1., 0.01, 300., 5000.))}


def check_ft(c, ctx):
    from legume.utils import ftinv
    b1, b2 = (b / c["per"] for b in gen.rec_vectors(*gen.lat_vectors(c["lat"])))
    co = {}
    for m, v in zip(c["m"], c["c"]):
        co.setdefault(tuple(m), complex(v[0], 0 if c["real"] else v[1]))
    g = np.array([m[0] * b1 + m[1] * b2 for m in c["m"]]).T
    v = np.array([co[tuple(m)] for m in c["m"]])
    x, y = c["per"] * np.array(c["x"]), c["per"] * np.array(c["y"])
    got = ftinv(v.real if c["real"] else v, g, x, y)
    ref = np.zeros((len(y), len(x)), complex)
    for iy in range(len(y)):
        for ix in range(len(x)):
            for m, w in co.items():
                q = m[0] * b1 + m[1] * b2
                ref[iy, ix] += w * np.exp(1j * (q[0] * x[ix] + q[1] * y[iy]))
    ctx.close(got, ref, "ftinv", 1e-9, 1e-9)
    if len(co) < len(c["m"]):
        ctx.label("repeated G")
    if len(x) != len(y):
        ctx.label("nx != ny")
    ctx.nontrivial(len(co) > 1 and len(x) + len(y) > 2)


# ------------------------------------------------------------ derivatives

@st.composite
def grad_cases(draw):
    shape = list(draw(pick((1,), (3,), (2, 3), (4, 1), (2, 2, 2), (1, 1), ())))
    n = int(np.prod(shape))
    ty = draw(pick("float", "float", "int"))
    return {"shape": shape, "ty": ty,
            "x": [draw(fl(-2, 2)) if ty == "float" else draw(st.integers(-3, 3)) for _ in range(n)],
            "q": [draw(fl(-2, 2)) for _ in range(n)], "l": [draw(fl(-2, 2)) for _ in range(n)],
            "cross": draw(fl(-1, 1)), "step": draw(pick(None, 1e-7, 1e-4, 1e-3, 1e-2)),
            "how": draw(pick("float", "np", "array", "varied")),
            # vjp: more arguments, the output's shape
            "nargs": draw(st.integers(1, 3)), "out": list(draw(pick((), (3,), (2, 2)))),
            "rot": draw(st.integers(0, 2)), "w": [draw(fl(-2, 2)) for _ in range(4)],
            "order": draw(st.permutations([0, 1, 2])), "rel": draw(pick(1, 1, 2))}


def check_grad(c, ctx):
    from legume.utils import grad_num
    shape = tuple(c["shape"])
    q, l = np.array(c["q"]).reshape(shape), np.array(c["l"]).reshape(shape)
    x = np.array(c["x"], float if c["ty"] == "float" else int).reshape(shape)
    keep = x.copy()
    seen = []

    def f(a):
        seen.append(np.shape(a))
        return float(np.sum(q * a**2 + l * a) + c["cross"] * np.sum(a)**2)
    h = 1e-7 if c["step"] is None else c["step"]
    step = {"float": h, "np": np.float64(h), "array": np.full(shape, h),
            "varied": h * (1 + np.arange(x.size).reshape(shape) % 3)}[c["how"]]
    got = grad_num(f, x) if c["step"] is None else grad_num(f, x, step)
    ref = 2 * q * x + l + 2 * c["cross"] * np.sum(x)
    tol = 3.1 * h * (2 + abs(c["cross"])) + 1e-13 / h
    ctx.close(got, ref, f"grad_num ({c['ty']}, step {c['how']})", 0, tol)
    ctx.require(np.array_equal(x, keep), "grad_num modified its argument")
    ctx.require(set(seen) == {shape}, lambda: f"grad_num called the function with shapes {set(seen)}, not {shape}")
    # (the derivative at the scale of the step asked for: a forward difference is off by q h)
    ctx.label(c["how"] if c["step"] else "default step", c["ty"], f"ndim {len(shape)}")
    ctx.nontrivial(x.size > 1)


def check_vjp(c, ctx):
    from legume.utils import vjp_maker_num
    shape, out = tuple(c["shape"]), tuple(c["out"])
    shapes = [shape, (2,), (3, 1)]
    shapes = shapes[c["rot"]:] + shapes[:c["rot"]]
    rng = np.random.RandomState(c["order"][0] * 5 + len(c["x"]))
    args = [np.array(c["x"], float if c["ty"] == "float" else int).reshape(shape) if s is shape else rng.uniform(-1, 1, s)
            for s in shapes]
    nout = int(np.prod(out))
    lin = [rng.uniform(-1, 1, (nout,) + s) for s in shapes]
    w = np.array(c["w"][:nout])

    def f(*a):
        return sum(np.tensordot(m, t + 0.5 * k * t**2, t.ndim) for k, (m, t) in
                   enumerate(zip(lin, a), 1)).reshape(out)
    inds = c["order"][:c["nargs"]]
    h = 1e-6
    steps = [h * c["rel"]**i for i in range(len(inds))]
    keep = [a.copy() for a in args]
    makers = vjp_maker_num(f, inds, steps)
    ctx.require(len(makers) == len(inds), lambda: f"{len(makers)} makers for {len(inds)} arguments")
    for ia, mk in zip(inds, makers):
        got = mk(f(*args), *args)(w.reshape(out))
        ref = np.tensordot(w, lin[ia] * (1 + (ia + 1) * args[ia]), 1)
        ctx.close(got, ref, f"vjp with respect to argument {ia}", 0, 2e-4)
    ctx.require(all(np.array_equal(a, b) for a, b in zip(args, keep)), "vjp_maker_num modified an argument")
    ctx.label(f"{len(inds)} arguments", f"output {out}", c["ty"])
    ctx.nontrivial(nout > 1 or len(inds) > 1)


# ------------------------------------------------------------ matrices and arrays

@st.composite
def mat_cases(draw):
    n, p = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    val = draw(fl(-3, 3))
    arr = draw(st.lists(st.one_of(fl(-3, 3), st.tuples(st.integers(-9, 9), pick(1e-3, 1e-7, 1e-10, 1e-12))
                                  .map(lambda t: val + t[0] * t[1])), min_size=1, max_size=12))
    return {"n": n, "p": p, "real": draw(pick("no", "T1", "T2", "both")),
            "t": [list(draw(cplx)) for _ in range((2 * n - 1) * (2 * p - 1))],
            "arr": arr, "val": val, "N": draw(st.integers(1, 14)),
            "shape": list(draw(pick((5,), (3, 4), (2, 3, 2)))), "pos": draw(st.lists(st.integers(0, 4), unique=True)),
            "cx": draw(st.booleans())}


def check_mat(c, ctx):
    from legume.utils import extend, find_nearest, toeplitz_block
    n, p = c["n"], c["p"]
    t = np.array([complex(a, b) for a, b in c["t"]]).reshape(2 * n - 1, 2 * p - 1)
    t = t + np.conj(t[::-1, ::-1])      # t[-k, -m] = conj t[k, m], zero in the middle
    km = np.arange(1 - n, n)[:, None] * np.arange(1 - p, p)[None, :]
    t = np.where({"no": km != km, "T1": km >= 0, "T2": km <= 0, "both": km == km}[c["real"]], t.real, t)
    at = lambda k, m: t[k + n - 1, m + p - 1]
    T1 = np.array([at(k, m) for k in range(n) for m in range(p)])
    T2 = np.array([at(k, -m) for k in range(n) for m in range(p)])
    T1 = T1.real if c["real"] in ("T1", "both") else T1
    T2 = T2.real if c["real"] in ("T2", "both") else T2
    got = toeplitz_block(n, T1, T2)
    ref = np.array([[at(j - i, b - a) for j in range(n) for b in range(p)]
                    for i in range(n) for a in range(p)])
    ctx.close(got, ref, "toeplitz_block", 1e-12, 1e-12)
    ctx.require(np.asarray(got).dtype == np.result_type(T1, T2), "toeplitz_block changed the type")

    arr = np.array(c["arr"])
    keep = arr.copy()
    i = np.asarray(find_nearest(arr, c["val"], c["N"]))
    m = min(c["N"], arr.size)
    ctx.require(i.shape == (m,) and len(set(i.tolist())) == m,
                lambda: f"find_nearest returned {i} for {m} of {arr.size}")
    d = np.abs(arr - c["val"])
    ctx.close(d[i], np.sort(d)[:m], "distances of the nearest elements, nearest first", 0, 1e-14)
    ctx.require(np.array_equal(arr, keep), "find_nearest modified the array")

    shape = tuple(c["shape"])
    pos = [q for q in c["pos"]] or [0]
    vals = np.arange(1, len(pos) + 1) * ((1 + 2j) if c["cx"] else 1.)
    if len(shape) == 1:
        inds = (np.array(pos),)
    else:
        inds = tuple(np.array([(q * (d + 1) + q // 3) % s for q in pos]) for d, s in enumerate(shape))
        keys = list(zip(*[x.tolist() for x in inds]))
        first = [keys.index(k) for k in dict.fromkeys(keys)]
        inds, vals = tuple(x[first] for x in inds), vals[first]
    got = extend(vals, inds if c["cx"] or len(shape) > 1 else inds[0], shape)
    ref = np.zeros(shape, vals.dtype)
    for q, v in enumerate(vals):
        ref[tuple(x[q] for x in inds)] = v
    ctx.close(got, ref, "extend", 0, 0)
    ctx.require(got.dtype == vals.dtype, "extend changed the type")
    ctx.nontrivial(n > 1 and p > 1)


# ------------------------------------------------------------ roots

@st.composite
def root_cases(draw):
    return {"root": draw(fl(-3, 3)), "dl": draw(fl(0.01, 3)), "du": draw(fl(0.01, 3)),
            "a": draw(fl(0.1, 3)), "b": draw(fl(0, 2)), "sgn": draw(pick(1, -1)),
            "nargs": draw(st.integers(0, 2)), "box": draw(st.booleans())}


def check_root(c, ctx):
    import autograd
    from legume.utils import fsolve, get_value
    a, b = [c["a"], c["b"]][:c["nargs"]] + [1., 0.5][c["nargs"]:]

    def f(x, *args):
        ctx.require(len(args) == c["nargs"], lambda: f"function called with {len(args)} arguments")
        ctx.require(all(isinstance(t, (float, int, np.floating, np.ndarray)) for t in args),
                    lambda: f"function called with {[type(t) for t in args]}")
        p, q = list(args) + [1., 0.5][len(args):]
        return c["sgn"] * (p * (x - c["root"]) + q * (x - c["root"])**3)
    lo, hi = c["root"] - c["dl"], c["root"] + c["du"]
    args = [a, b][:c["nargs"]]
    if c["box"]:
        def g(v):
            vals = [v[i] * 1. for i in range(c["nargs"])]
            got = fsolve(f, lo, hi, *vals)
            for t, w in zip(vals, args):
                ctx.close(get_value(t), w, "get_value of a traced number", 0, 1e-14)
            return np.sum(v._value if hasattr(v, "_value") else v) * 0. + v[0] * 0. + got
        r = g(np.array(args + [0.]))
        autograd.grad(lambda v: g(v))(np.array(args + [0.]))
    else:
        r = fsolve(f, lo, hi, *args)
    ctx.close(r, c["root"], "fsolve", 0, 1e-9)
    for bad in ((lo - 1, lo), (hi, hi + 1)):
        try:
            r = fsolve(f, *bad, *args)
        except ValueError:
            continue
        ctx.require(False, f"fsolve without a sign change returned {r}")
    for v in (3, 2.5, "x", None, np.arange(3)):
        ctx.require(get_value(v) is v, f"get_value({v!r}) is not the argument")
    ctx.label(f"{c['nargs']} args", "boxes" if c["box"] else "numbers")
    ctx.nontrivial(c["nargs"] > 0)


# ------------------------------------------------------------ layers

@st.composite
def z_cases(draw):
    return {"d": draw(st.lists(fl(0.02, 1.5), min_size=0, max_size=6)),
            "f": draw(fl(0.001, 0.999)), "out": draw(fl(0.001, 4))}


def check_z(c, ctx):
    import legume
    from legume.utils import z_to_lind
    phc = legume.PhotCryst(legume.Lattice('square'))
    for d in c["d"]:
        phc.add_layer(d=d, eps_b=2.)
    z = 0.
    ctx.require(z_to_lind(phc, -c["out"]) == 0, "lower cladding is not 0")
    for i, d in enumerate(c["d"]):
        got = z_to_lind(phc, z + c["f"] * d)
        ctx.require(got == i + 1, f"layer {i} of {len(c['d'])} is {got}")
        got = z_to_lind(phc, phc.layers[i].z_max)
        ctx.require(got == i + 1, f"top interface of layer {i} of {len(c['d'])} is {got}")
        z += d
    got = z_to_lind(phc, z + c["out"])
    ctx.require(got == len(c["d"]) + 1, f"upper cladding of {len(c['d'])} layers is {got}")
    ctx.require(z_to_lind(phc, 0.) == 0, "interface of the lower cladding is not 0")
    ctx.nontrivial(len(c["d"]) > 1)


# ------------------------------------------------------------ scattering

@st.composite
def s_cases(draw):
    return {"s": [[list(draw(cplx)) for _ in range(4)] for _ in range(3)], "real": draw(pick(False, False, True)),
            "scale": draw(pick(0.2, 0.4, 1.))}


def star(A, B):
    """A's port 2 joined to B's port 1, by solving for the waves between them."""
    out = np.zeros((2, 2), complex)
    for j in range(2):
        a1, a2 = (1., 0.) if j == 0 else (0., 1.)
        x, y = np.linalg.solve(np.array([[1, -A[1, 1]], [-B[0, 0], 1]]),
                               np.array([A[1, 0] * a1, B[0, 1] * a2]))
        out[:, j] = A[0, 0] * a1 + A[0, 1] * y, B[1, 0] * x + B[1, 1] * a2
    return out


def check_s(c, ctx):
    from legume.utils import RedhefferStar
    S = [np.array([complex(a, 0 if c["real"] else b) for a, b in s]).reshape(2, 2) * c["scale"] for s in c["s"]]
    if c["real"]:
        S = [s.real for s in S]
    A, B, D = S
    AB = star(A, B)
    dets = [1 - A[1, 1] * B[0, 0], 1 - B[1, 1] * D[0, 0], 1 - AB[1, 1] * D[0, 0]]
    BD = star(B, D) if abs(dets[1]) > 1e-2 else None
    if min(map(abs, dets)) < 1e-2 or abs(1 - A[1, 1] * BD[0, 0]) < 1e-2:
        ctx.label("near a resonance")
        return
    keep = [s.copy() for s in S]
    ctx.close(RedhefferStar(A, B), AB, "star product", 1e-9, 1e-9)
    ctx.close(RedhefferStar(RedhefferStar(A, B), D), RedhefferStar(A, RedhefferStar(B, D)), "associativity", 1e-7, 1e-7)
    one = np.array([[0., 1.], [1., 0.]])
    ctx.close(RedhefferStar(A, one), A, "neutral element on the right", 1e-12, 1e-12)
    ctx.close(RedhefferStar(one, A), A, "neutral element on the left", 1e-12, 1e-12)
    ctx.require(all(np.array_equal(a, b) for a, b in zip(S, keep)), "RedhefferStar modified its arguments")
    ctx.nontrivial()


# ------------------------------------------------------------ units

@st.composite
def a_cases(draw):
    return {"m": draw(fl(1, 9.99)), "e": draw(st.integers(-10, -3)), "neg": draw(pick(False, False, True)),
            "np": draw(st.booleans())}


def check_a(c, ctx):
    import scipy.constants as sc
    from legume import constants as lc
    from legume.utils import from_freq_to_e
    a = float(f"{c['m']}e{c['e']}")
    a = np.float64(a) if c["np"] else a
    for name, ref in (("e", sc.e), ("m_e", sc.m_e), ("epsilon_0", sc.epsilon_0), ("c", sc.c), ("h", sc.h),
                      ("hbar", sc.hbar), ("h_eV_Hz", sc.h / sc.e)):
        ctx.close(getattr(lc, name), ref, f"constant {name}", 2e-9, 0)
    for bad in (-a, 0., 0):
        try:
            r = from_freq_to_e(bad)
        except ValueError:
            continue
        ctx.require(False, f"from_freq_to_e({bad}) returned {r}")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = from_freq_to_e(a)
    ctx.close(got, sc.h * sc.c / (sc.e * a), f"from_freq_to_e({a})", 1e-8, 0)
    odd = a < 5e-8 or a > 5e-6
    ctx.require(any(issubclass(x.category, UserWarning) for x in w) == odd,
                f"a = {a}: {'no warning' if odd else 'warned'}")
    ctx.label("unusual" if odd else "usual")
    ctx.nontrivial()


PARTS = [
    {"name": "ftinv", "cases": ft_cases(), "check": check_ft, "quick": 1200, "thorough": 30000},
    {"name": "grad", "cases": grad_cases(), "check": check_grad, "quick": 1200, "thorough": 30000},
    {"name": "vjp", "cases": grad_cases(), "check": check_vjp, "quick": 800, "thorough": 20000},
    {"name": "arrays", "cases": mat_cases(), "check": check_mat, "quick": 1200, "thorough": 30000},
    {"name": "roots", "cases": root_cases(), "check": check_root, "quick": 800, "thorough": 20000},
    {"name": "layers", "cases": z_cases(), "check": check_z, "quick": 800, "thorough": 10000},
    {"name": "star", "cases": s_cases(), "check": check_s, "quick": 1200, "thorough": 30000},
    {"name": "units", "cases": a_cases(), "check": check_a, "quick": 400, "thorough": 4000},
]
