"""Parameters of a crystal description: lists of paths into it, and crystals built with some of the
numbers replaced by values of autograd. Used by the checks of backends and gradients."""
import copy

import numpy as np

from . import gen

SHAPE_NUMBERS = ("eps", "x", "y", "r", "rx", "ry", "phi", "a", "angle")


def shape_paths(s):
    out = [[k] for k in SHAPE_NUMBERS if k in s]
    if s["t"] == "poly":
        out += [["pts", i, j] for i in range(len(s["pts"])) for j in (0, 1)]
    if s["t"] == "fourier":
        out += [["fa", i] for i in range(len(s["fa"]))] + [["fb", i] for i in range(len(s["fb"]))]
    return out


def paths(p):
    """Paths of all the continuous parameters of a crystal (those of the lattice left out)."""
    out = [["eps_l"], ["eps_u"]]
    for i, l in enumerate(p["layers"]):
        out += [["layers", i, "d"], ["layers", i, "eps_b"]]
        for j, s in enumerate(l["shapes"]):
            out += [["layers", i, "shapes", j] + q for q in shape_paths(s)]
    for c in (0, 1):
        for j, s in enumerate(p["clad"][c]):
            out += [["clad", c, j] + q for q in shape_paths(s)]
    return out


def get(p, path):
    for k in path:
        p = p[k]
    return p


def put(p, path, v):
    """The description with one number replaced (copy)."""
    k, rest = path[0], path[1:]
    q = list(p) if isinstance(p, list) else dict(p)
    q[k] = v if not rest else put(p[k], rest, v)
    return q


def substitute(p, where, values):
    for w, v in zip(where, values):
        p = put(p, w, v)
    return p


def build_shape(s):
    """Like gen.build_shape, and accepts numbers of autograd everywhere."""
    import legume
    from legume.backend import backend as bd
    t = s["t"]
    if t == "poly":
        return legume.Poly(eps=s["eps"], x_edges=bd.array([q[0] for q in s["pts"]]),
                           y_edges=bd.array([q[1] for q in s["pts"]]))
    if t == "fourier":
        return legume.FourierShape(eps=s["eps"], x_cent=s["x"], y_cent=s["y"], f_as=bd.array(s["fa"]),
                                   f_bs=bd.array(s["fb"]), npts=s["n"])
    return gen.build_shape(s)


def build_phc(p):
    import legume
    out = legume.PhotCryst(gen.build_lattice(p["lat"]), eps_l=p["eps_l"], eps_u=p["eps_u"])
    for lay in p["layers"]:
        out.add_layer(d=lay["d"], eps_b=lay["eps_b"])
        for s in lay["shapes"]:
            out.add_shape(build_shape(s))
    for i in (0, 1):
        for s in p["clad"][i]:
            out.add_shape(build_shape(s), cladding=i)
    return out


def unbox(x):
    from autograd.tracer import getval
    if isinstance(x, (list, tuple)):
        return [unbox(v) for v in x]
    return getval(x)


def plain(x):
    """Numpy array (complex) of anything that a computation returned, boxes included."""
    x = unbox(x)
    if isinstance(x, list):
        return [plain(v) for v in x]
    x = np.asarray(x)
    if x.dtype == object:
        x = np.array([complex(unbox(v)) for v in x.ravel()]).reshape(x.shape)
        if not np.any(x.imag):
            x = x.real
    return x
