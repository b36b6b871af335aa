"""The optimisers against textbook implementations and closed-form minimisers."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from harness.gen import fl, pick

ID = "C17"
TITLE = "Optimisers minimise the objective they are given"
TECHNIQUE = "property-based testing (Hypothesis) against a reference Adam and closed-form constrained minimisers"
RULE = ("objectives of 1-6 parameters with analytic gradients (quadratic, quartic, trigonometric, coupled), "
        "starts, bounds in every documented form, extra arguments, the optimiser as an argument, callbacks, "
        "options; repeated use of one optimiser; invalid bounds; non-trivial: at least two epochs")
ASSUMPTIONS = ["the start lies within the bounds"]


@st.composite
def problem(draw, convex):
    n = draw(st.integers(1, 6))
    v = lambda lo, hi: [draw(fl(lo, hi, 100)) for _ in range(n)]
    L = [[draw(fl(-1, 1, 100)) for _ in range(n)] for _ in range(n)] if draw(st.booleans()) else None
    return {"n": n, "q": v(0.1, 2) if convex else v(-0.5, 2), "c": v(-1.5, 1.5), "r": v(0, 1), "L": L,
            "s": [0.] * n if convex else v(-1, 1), "zero": draw(pick(False, False, True)) and not convex,
            "args": [draw(fl(0.5, 2, 100)) for _ in range(draw(st.integers(0, 2)))]}


def value(pb, x, args, npx):
    """f(x) = scale (sum_i q (x - c)^2 + r (x - c)^4 + s sin(2 x) + |L (x - c)|^2) + shift"""
    w = np.ones(pb["n"])
    if pb["zero"]:
        w[0] = 0.
    q, c, r, s = (np.array(pb[k]) for k in "qcrs")
    d = x - c
    f = npx.sum(w * (q * d**2 + r * d**4 + s * npx.sin(2 * x)))
    if pb["L"] is not None:
        f = f + npx.sum(npx.dot(np.array(pb["L"]) * w, d)**2)
    a = list(args) + [1., 0.][len(args):]
    return a[0] * f + a[1]


def gradient(pb, x, args):
    w = np.ones(pb["n"])
    if pb["zero"]:
        w[0] = 0.
    q, c, r, s = (np.array(pb[k]) for k in "qcrs")
    d = x - c
    g = w * (2 * q * d + 4 * r * d**3 + 2 * s * np.cos(2 * x))
    if pb["L"] is not None:
        L = np.array(pb["L"]) * w
        g = g + 2 * L.T @ (L @ d)
    a = list(args) + [1., 0.][len(args):]
    return a[0] * g


@st.composite
def with_bounds(draw, pb, x0):
    """Bounds around the start, as passed and as arrays."""
    how = draw(pick("none", "pair", "tuples"))
    n = pb["n"]
    if how == "none":
        return {"how": how}
    if how == "pair":
        return {"how": how, "lo": [round(min(x0) - draw(fl(0, 0.5)), 4)] * n,
                "hi": [round(max(x0) + draw(fl(0, 0.5)), 4)] * n,
                "ty": draw(pick("list", "tuple"))}
    return {"how": how, "lo": [round(x - draw(fl(0, 0.5)), 4) for x in x0],
            "hi": [round(x + draw(fl(0, 0.5)), 4) for x in x0]}


def pass_bounds(b):
    if b["how"] == "none":
        return None
    if b["how"] == "pair":
        return [b["lo"][0], b["hi"][0]] if b["ty"] == "list" else (b["lo"][0], b["hi"][0])
    return [(l, h) for l, h in zip(b["lo"], b["hi"])]


@st.composite
def cases(draw, convex, nep):
    pb = draw(problem(convex))
    ints = draw(pick(False, False, False, True))
    x0 = [float(draw(st.integers(-2, 2))) if ints else draw(fl(-2, 2, 100)) for _ in range(pb["n"])]
    with_self = draw(st.booleans())
    return {"pb": pb, "x0": x0, "ints": ints, "start": draw(pick("array", "array", "list", "tuple")),
            "b": draw(with_bounds(pb, x0)), "self": with_self,
            "sched": draw(pick(0., 0., 0.5, 5.)) if with_self else 0.,
            "cb": draw(st.booleans()), "n": draw(nep), "disp": draw(st.booleans()),
            "step": draw(pick(None, 0.002, 0.05, 0.3)), "beta1": draw(pick(None, 0.5, 0.0)),
            "beta2": draw(pick(None, 0.9, 0.5)), "twice": draw(pick(False, False, True)),
            "res": draw(st.booleans()), "b0": draw(st.booleans()), "fun": draw(pick("vector", "vector", "float"))}


def recorder(c, opt_ref):
    """The objective, which records its calls."""
    import autograd.numpy as npa
    from autograd.tracer import isbox
    calls = []

    def objective(x, *args):
        raw = x
        while isbox(raw):
            raw = raw._value
        rest, opt = (args[:-1], args[-1]) if c["self"] else (args, None)
        calls.append({"x": np.array(raw, float), "args": [float(a) for a in rest], "opt": opt,
                      "it": None if opt is None else getattr(opt, "iteration", None)})
        f = value(c["pb"], x, rest, npa)
        # (an objective that changes from one iteration to the next)
        return f + c["sched"] * np.sin(opt.iteration) if c["sched"] else f
    return objective, calls


def run(c, opt, name, calls):
    """One run of an optimiser: what it returned, what the callback saw, what it printed."""
    x0 = np.array(c["x0"], dtype=int if c["ints"] else float)
    keep = x0.copy()
    if c["start"] != "array":
        x0 = (list if c["start"] == "list" else tuple)(x0.tolist())
    kw = {"Nepochs": c["n"], "bounds": pass_bounds(c["b"]), "disp_p": c["disp"]}
    if c["pb"]["args"]:
        kw["args"] = tuple(c["pb"]["args"])
    if c["self"]:
        kw["pass_self"] = True
    seen = []
    if c["cb"]:
        kw["callback"] = lambda o: seen.append((o, o.iteration, np.array(o.params, float), list(o.of_list)))
    if name == "adam":
        for k, d in (("step", "step_size"), ("beta1", "beta1"), ("beta2", "beta2")):
            if c[k] is not None:
                kw[d] = c[k]
    elif c["res"]:
        kw["res"] = True
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = getattr(opt, name)(x0, **kw)
    return got, seen, out.getvalue(), x0, keep


def common(c, ctx, opt, got, seen, text, x0, keep, calls, name):
    pb = c["pb"]
    ctx.require(np.array_equal(x0, keep) and np.asarray(x0).dtype == keep.dtype, "the start was modified")
    x, hist = np.asarray(got[0], float), [float(h) for h in got[1]]
    ctx.require(x.shape == (pb["n"],), f"parameters of shape {x.shape}")
    lo = np.array(c["b"].get("lo", [-np.inf] * pb["n"]))
    hi = np.array(c["b"].get("hi", [np.inf] * pb["n"]))
    for what, y in [("returned parameters", x)] + [("evaluated parameters", k["x"]) for k in calls] + \
            [("parameters seen by the callback", s[2]) for s in seen]:
        ctx.require(np.all(y >= lo - 1e-15) and np.all(y <= hi + 1e-15), f"{what} {y} outside of the bounds")
    for k in calls:
        ctx.require(k["args"] == pb["args"], f"objective called with {k['args']}, expected {pb['args']}")
        if c["self"]:
            ctx.require(k["opt"] is opt, "objective called without the optimiser")
    for s in seen:
        ctx.require(s[0] is opt, "callback called without the optimiser")
    if hist and not c["sched"]:
        ctx.close(hist[-1], value(pb, x, pb["args"], np), "last value of the history", 1e-10, 1e-12)
    return x, hist, lo, hi


def second_use(c, ctx, obj, calls, name, opt):
    """A used optimiser repeats its result."""
    first = run(c, opt, name, calls)
    del calls[:]
    return first


def check_adam(c, ctx):
    from legume.minimize import Minimize
    obj, calls = recorder(c, None)
    opt = Minimize(obj)
    if c["twice"]:
        # another run first, without the bounds
        run(dict(c, b={"how": "none"}, n=c["n"] // 2 + 1), opt, "adam", calls)
        del calls[:]
    got, seen, text, x0, keep = run(c, opt, "adam", calls)
    x, hist, lo, hi = common(c, ctx, opt, got, seen, text, x0, keep, calls, "adam")
    n = c["n"]
    pb = c["pb"]
    # the reference
    step = 1e-2 if c["step"] is None else c["step"]
    b1 = 0.9 if c["beta1"] is None else c["beta1"]
    b2 = 0.999 if c["beta2"] is None else c["beta2"]
    y = np.array(c["x0"], float)
    m = v = np.zeros(pb["n"])
    ys, fs = [], []
    for t in range(1, n + 1):
        ys.append(y)
        fs.append(value(pb, y, pb["args"], np) + c["sched"] * np.sin(t))
        g = gradient(pb, y, pb["args"])
        m = b1 * m + (1 - b1) * g
        v = b2 * v + (1 - b2) * g**2
        if t < n:
            y = np.clip(y - step * (m / (1 - b1**t)) / (np.sqrt(v / (1 - b2**t)) + 1e-8), lo, hi)
    ctx.require(len(hist) == n, f"{len(hist)} values in the history, expected {n}")
    ctx.require(len(calls) == n, f"{len(calls)} evaluations, expected {n}")
    # (round-off of the gradient matters where the gradient vanishes)
    ctx.close(np.array([k["x"] for k in calls]).reshape(n, pb["n"]), np.array(ys).reshape(n, pb["n"]), "evaluated parameters", 1e-6, 1e-6)
    ctx.close(hist, np.array(fs), "history", 1e-5, 1e-5)
    ctx.close(x, y, "returned parameters", 1e-6, 1e-6)
    ctx.close(opt.params, x, "parameters of the optimiser", 0, 0)
    ctx.close(opt.of_list, np.array(hist), "history of the optimiser", 0, 0)
    if c["self"]:
        ctx.require([k["it"] for k in calls] == list(range(1, n + 1)),
                    f"iterations {[k['it'] for k in calls]} seen by the objective")
    if c["cb"]:
        ctx.require([s[1] for s in seen] == list(range(1, n + 1)), f"callback at iterations {[s[1] for s in seen]}")
        ctx.require([len(s[3]) for s in seen] == list(range(1, n + 1)), "history seen by the callback")
    lines = [s for s in text.splitlines() if s.startswith("Epoch")]
    ctx.require(len(lines) == n, f"{len(lines)} lines printed, expected {n}")
    ctx.require(all(("Parameters" in s) == c["disp"] for s in lines), "parameters printed against disp_p")
    ctx.label(c["b"]["how"], "self" if c["self"] else "no self", f"{len(pb['args'])} args",
              "active bound" if np.any((y <= lo) | (y >= hi)) and n > 1 else "interior")
    ctx.nontrivial(n > 1)


def check_lbfgs(c, ctx):
    from legume.minimize import Minimize
    obj, calls = recorder(c, None)
    opt = Minimize(obj)
    if c["twice"]:
        run(dict(c, b={"how": "none"}), opt, "lbfgs", calls)
        del calls[:]
    got, seen, text, x0, keep = run(c, opt, "lbfgs", calls)
    x, hist, lo, hi = common(c, ctx, opt, got, seen, text, x0, keep, calls, "lbfgs")
    pb = c["pb"]
    ctx.require(len(got) == (3 if c["res"] else 2), f"{len(got)} results returned")
    if c["res"]:
        ctx.close(got[2].x, x, "parameters of the OptimizeResult", 0, 0)
        ctx.require(got[2].get("nit", 0) == len(hist) - 1, f"{got[2].get("nit")} iterations, {len(hist)} values in the history")
    f0 = value(pb, np.array(c["x0"], float), pb["args"], np)
    ctx.close(hist[0], f0, "first value of the history", 1e-12, 1e-12)
    ctx.require(len(hist) <= c["n"] + 1, f"{len(hist) - 1} iterations, at most {c['n']} were asked for")
    if not c["sched"]:
        ctx.require(np.all(np.diff(hist) <= 1e-9 * (1 + np.abs(hist[:-1]))), f"history {hist} grows")
    if c["cb"]:
        ctx.require([s[1] for s in seen] == list(range(1, len(hist))), "callback iterations")
        for s in seen:
            ctx.close(s[3][-1], value(pb, s[2], pb["args"], np) + c["sched"] * np.sin(s[1] - 1),
                      "value in the history against the parameters seen by the callback", 1e-10, 1e-12)
            ctx.require(len(s[3]) == s[1] + 1, "history seen by the callback")
    if c["self"]:
        its = [k["it"] for k in calls]
        ctx.require(its[0] == 0 and np.all(np.diff(its) >= 0) and its[-1] <= len(hist) - 1,
                    f"iterations {its} seen by the objective")
    ctx.close(opt.of_list, np.array(hist), "history of the optimiser", 0, 0)
    lines = [s for s in text.splitlines() if s.startswith("Epoch")]
    ctx.require(len(lines) == len(hist) - 1, f"{len(lines)} lines printed, expected {len(hist) - 1}")
    if c["n"] >= 40 and not c["sched"]:
        # the minimum of a convex function in a box: projected gradient descent (reference)
        y = np.clip(np.array(pb["c"]), lo, hi)
        if pb["L"] is not None or c["b"]["how"] == "none":
            from scipy.optimize import minimize
            r = minimize(lambda u: value(pb, u, pb["args"], np), y, jac=lambda u: gradient(pb, u, pb["args"]),
                         method="trust-constr" if False else "SLSQP",
                         bounds=None if c["b"]["how"] == "none" else list(zip(lo, hi)),
                         options={"ftol": 1e-14, "maxiter": 500})
            y = r.x
        fm = value(pb, y, pb["args"], np)
        fx = value(pb, x, pb["args"], np)
        ctx.require(fx <= fm + 1e-4 * max(f0 - fm, 0) + 1e-5 * (1 + abs(fm)),
                    f"objective {fx} at the returned parameters, the minimum is {fm} (start {f0})")
        ctx.label("converged")
    ctx.label(c["b"]["how"], "self" if c["self"] else "no self", f"{len(pb['args'])} args",
              "active bound" if np.any((x <= lo) | (x >= hi)) else "interior")
    ctx.nontrivial(len(hist) > 2)


# ---------------------------------------------------------------- invalid bounds

@st.composite
def bad_cases(draw):
    n = draw(st.integers(1, 5))
    k = draw(st.integers(0, 6))
    kind = draw(pick("length", "tuples", "inner", "number", "string"))
    b = {"length": [0.] * (k if k != 2 else 3), "tuples": [[0., 1.]] * (k if k not in (n, 0) else n + 1),
         "inner": [[0., 1., 2.][:draw(pick(1, 3))]] + [[0., 1.]] * (n - 1), "number": 1.5,
         "string": "unit"}[kind]
    return {"n": n, "b": b, "kind": kind, "opt": draw(pick("adam", "lbfgs"))}


def check_bad(c, ctx):
    from legume.minimize import Minimize
    import autograd.numpy as npa
    b = c["b"]
    if c["kind"] in ("tuples", "inner"):
        b = [tuple(x) for x in b]
    opt = Minimize(lambda x: npa.sum(x**2))
    ctx.label(c["kind"])
    ctx.nontrivial()
    try:
        getattr(opt, c["opt"])(np.full(c["n"], 0.5), Nepochs=2, bounds=b)
    except ValueError:
        return
    ctx.require(False, f"bounds {b} accepted for {c['n']} parameters")


PARTS = [
    {"name": "adam", "cases": lambda: cases(False, st.integers(0, 30)), "check": check_adam, "quick": 4000,
     "thorough": 20000},
    {"name": "lbfgs", "cases": lambda: cases(True, pick(1, 2, 5, 20, 60, 100)), "check": check_lbfgs,
     "quick": 4000, "thorough": 20000},
    {"name": "invalid", "cases": bad_cases, "check": check_bad, "quick": 200, "thorough": 1000},
]
