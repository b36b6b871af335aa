"""Reference models, written from the physics and not from legume's code."""
import math

import numpy as np
from scipy.special import j1

from . import gen

# ---------------------------------------------------------------- shapes


def shape_vertices(s):
    """Vertices (n, 2) of a polygonal shape spec, None for circles and ellipses."""
    t = s["t"]
    if t in ("circle", "ellipse"):
        return None
    if t == "poly":
        return np.array(s["pts"], float)
    c = np.array([s["x"], s["y"]])
    if t == "square" or t == "rotated":
        h = s["a"] / 2
        v = np.array([[-h, -h], [h, -h], [h, h], [-h, h]])
        if t == "rotated":
            co, si = math.cos(s["angle"]), math.sin(s["angle"])
            v = v @ np.array([[co, si], [-si, co]])
        return v + c
    if t == "hexagon":
        k = np.arange(6) * np.pi / 3
        return s["a"] * np.stack([np.cos(k), np.sin(k)], 1) + c
    if t == "fourier":
        ph = np.arange(s["n"]) * 2 * np.pi / s["n"]
        r = np.full(ph.shape, s["fa"][0] / 2)
        for m, a in enumerate(s["fa"][1:], 1):
            r = r + a * np.cos(m * ph)
        for m, b in enumerate(s["fb"], 1):
            r = r + b * np.sin(m * ph)
        return np.stack([r * np.cos(ph), r * np.sin(ph)], 1) + c
    raise AssertionError(t)


def poly_area(v):
    x, y = v[:, 0], v[:, 1]
    return 0.5 * np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))


def shape_area(s):
    v = shape_vertices(s)
    if v is not None:
        return poly_area(v)
    if s["t"] == "circle":
        return np.pi * s["r"]**2
    return np.pi * s["rx"] * s["ry"]


def shape_ft(s, gx, gy):
    """Integral of exp(-i g.r) over the shape."""
    gx, gy = np.asarray(gx, float), np.asarray(gy, float)
    v = shape_vertices(s)
    g2 = gx**2 + gy**2
    small = g2 < 1e-18
    if v is None:
        if s["t"] == "circle":
            rx = ry = s["r"]
            ph = 0.
        else:
            rx, ry, ph = s["rx"], s["ry"], s["phi"]
        u = (gx * np.cos(ph) + gy * np.sin(ph)) * rx
        w = (-gx * np.sin(ph) + gy * np.cos(ph)) * ry
        q = np.hypot(u, w)
        qs = np.where(small, 1., q)
        f = 2 * np.pi * rx * ry * np.where(small, 0.5, j1(qs) / qs)
        return f * np.exp(-1j * (gx * s["x"] + gy * s["y"]))
    F = np.zeros(gx.shape, complex)
    n = len(v)
    g2s = np.where(small, 1., g2)
    for i in range(n):
        e = v[(i + 1) % n] - v[i]
        m = 0.5 * (v[(i + 1) % n] + v[i])
        h = (gx * e[0] + gy * e[1]) / 2
        F += (1j / g2s) * (gx * e[1] - gy * e[0]) * np.exp(-1j * (gx * m[0] + gy * m[1])) \
            * np.sinc(h / np.pi)
    return np.where(small, poly_area(v), F)


def inside(s, x, y):
    """Indicator by the winding number / quadratic form; second output: distance-like
    margin, cases closer than it to the border are undecided."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    v = shape_vertices(s)
    if v is None:
        if s["t"] == "circle":
            rx = ry = s["r"]
            ph = 0.
        else:
            rx, ry, ph = s["rx"], s["ry"], s["phi"]
        u = (x - s["x"]) * np.cos(ph) + (y - s["y"]) * np.sin(ph)
        w = -(x - s["x"]) * np.sin(ph) + (y - s["y"]) * np.cos(ph)
        q = np.hypot(u / rx, w / ry)
        return q < 1, np.abs(q - 1)
    wind = np.zeros(x.shape)
    dist = np.full(x.shape, np.inf)
    n = len(v)
    for i in range(n):
        p, q = v[i], v[(i + 1) % n]
        ax, ay, bx, by = p[0] - x, p[1] - y, q[0] - x, q[1] - y
        wind += np.arctan2(ax * by - ay * bx, ax * bx + ay * by)
        e = q - p
        L2 = max(e @ e, 1e-30)
        t = np.clip(-(ax * e[0] + ay * e[1]) / L2, 0, 1)
        dist = np.minimum(dist, np.hypot(ax + t * e[0], ay + t * e[1]))
    return np.abs(wind) > np.pi, dist


def eps_ft(eps_b, shapes, lat, gx, gy):
    """Fourier coefficients of a layer's permittivity."""
    a1, a2 = gen.lat_vectors(lat)
    area = abs(a1[0] * a2[1] - a1[1] * a2[0])
    gx, gy = np.asarray(gx, float), np.asarray(gy, float)
    F = eps_b * (np.hypot(gx, gy) < 1e-9) + 0j
    for s in shapes:
        F = F + (s["eps"] - eps_b) * shape_ft(s, gx, gy) / area
    return F


def layer_specs(p):
    return [(p["eps_l"], p["clad"][0])] + [(l["eps_b"], l["shapes"]) for l in p["layers"]] + \
        [(p["eps_u"], p["clad"][1])]


# ---------------------------------------------------------------- reciprocal lattice

def gset_abs(lat, gmax):
    b1, b2 = gen.rec_vectors(*gen.lat_vectors(lat))
    n = 14
    i, j = (m.ravel() for m in np.meshgrid(np.arange(-n, n + 1), np.arange(-n, n + 1),
                                           indexing="ij"))
    G = np.outer(b1, i) + np.outer(b2, j)
    k = np.hypot(G[0], G[1]) <= 2 * np.pi * gmax
    return G[:, k]


def gset_tbt(lat, gmax):
    b1, b2 = gen.rec_vectors(*gen.lat_vectors(lat))
    n1 = int(2 * np.pi * gmax / np.hypot(*b1))
    n2 = int(2 * np.pi * gmax / np.hypot(*b2))
    i, j = (m.ravel() for m in np.meshgrid(np.arange(-n1, n1 + 1), np.arange(-n2, n2 + 1),
                                           indexing="ij"))
    return np.outer(b1, i) + np.outer(b2, j)


def gset(lat, gmax, trunc):
    return gset_abs(lat, gmax) if trunc == "abs" else gset_tbt(lat, gmax)


def eps_matrix(eps_b, shapes, lat, G):
    return eps_ft(eps_b, shapes, lat, G[0][:, None] - G[0][None, :],
                  G[1][:, None] - G[1][None, :])


# ---------------------------------------------------------------- plane-wave expansion

def pwe_freqs(eps_b, shapes, lat, G, k, pol):
    """Frequencies of the 2D crystal from inv(eps matrix), as the method is documented."""
    ei = np.linalg.inv(eps_matrix(eps_b, shapes, lat, G))
    kx, ky = k[0] + G[0], k[1] + G[1]
    if pol == "te":
        M = (np.outer(kx, kx) + np.outer(ky, ky)) * ei
    else:
        n = np.hypot(kx, ky)
        M = np.outer(n, n) * ei
    w2 = np.linalg.eigvalsh((M + M.conj().T) / 2)
    return np.sqrt(np.maximum(w2, 0)) / 2 / np.pi


# ---------------------------------------------------------------- slab guided modes

def _weights(eps, pol):
    eps = np.asarray(eps, float)
    return np.ones(len(eps)) if pol == "te" else eps


def count_modes(om, g, eps, d, pol):
    """Number of guided modes with frequency below om at wave vector g (arrays), by the
    oscillation theorem: the number of zeros of the solution that decays downwards."""
    om, g = np.broadcast_arrays(np.asarray(om, float), np.asarray(g, float))
    w = _weights(eps, pol)
    kl = np.sqrt(np.maximum(g**2 - eps[0] * om**2, 0))
    psi = np.ones(om.shape)
    phi = kl / w[0]
    cnt = np.zeros(om.shape, int)
    for i, di in enumerate(d, 1):
        q2 = eps[i] * om**2 - g**2
        osc = q2 > 0
        chi = np.sqrt(np.abs(q2))
        chi = np.where(chi < 1e-12, 1e-12, chi)
        dpsi = w[i] * phi
        # oscillating
        th = np.arctan2(chi * psi, dpsi)
        ze = np.floor((chi * di + th) / np.pi) - np.floor(th / np.pi)
        po = psi * np.cos(chi * di) + dpsi / chi * np.sin(chi * di)
        do = -chi * psi * np.sin(chi * di) + dpsi * np.cos(chi * di)
        # evanescent, divided by exp(chi d)
        x = np.exp(-2 * chi * di)
        pe = 0.5 * (psi * (1 + x) + dpsi / chi * (1 - x))
        de = 0.5 * (chi * psi * (1 - x) + dpsi * (1 + x))
        zz = (np.sign(pe) != np.sign(psi)) & (psi != 0)
        cnt += np.where(osc, ze.astype(int), zz.astype(int))
        psi = np.where(osc, po, pe)
        phi = np.where(osc, do, de) / w[i]
        nrm = np.hypot(psi, phi)
        psi, phi = psi / nrm, phi / nrm
    ku = np.sqrt(np.maximum(g**2 - eps[-1] * om**2, 0)) / w[-1]
    cnt += ((phi + ku * psi) * np.where(psi == 0, 1, psi) < 0)
    return cnt


def appears_at_light_line(hi, g, eps, d, pol, rel=1e-4):
    """A guided mode lies within the relative distance rel below the light line hi."""
    c = count_modes(hi * (1 - rel), g, eps, d, pol)
    return any(np.any(count_modes(hi * (1 - x), g, eps, d, pol) != c)
               for x in (1e-7, 1e-9, 1e-10, 1e-12, 0))


def slab_freqs_all(g, eps, d, pol, nmodes, iters=50):
    """Frequencies (nmodes, len(g)) of guided modes 0..nmodes-1 at each g; nan where absent."""
    g = np.asarray(g, float)
    eps = np.asarray(eps, float)
    out = np.full((nmodes, len(g)), np.nan)
    if np.max(eps[1:-1]) <= max(eps[0], eps[-1]):
        return out
    u, inv = np.unique(g, return_inverse=True)
    lo = u / np.sqrt(np.max(eps))
    top = u / np.sqrt(max(eps[0], eps[-1])) * (1 - 1e-9)
    m = np.arange(nmodes)[:, None]
    ok = count_modes(top, u, eps, d, pol)[None, :] > m
    a = np.broadcast_to(lo, (nmodes, len(u))).copy()
    b = np.broadcast_to(top, (nmodes, len(u))).copy()
    nm = int(np.max(np.where(ok.any(axis=1), np.arange(nmodes) + 1, 0)))
    if nm == 0:
        return out
    a, b, m, ok = a[:nm], b[:nm], m[:nm], ok[:nm]
    for _ in range(iters):
        c = 0.5 * (a + b)
        up = count_modes(c, u[None, :], eps, d, pol) > m
        b = np.where(up, c, b)
        a = np.where(up, a, c)
    out[:nm] = np.where(ok, 0.5 * (a + b), np.nan)[:, inv]
    return out


def slab_freqs(g, eps, d, pol, mode, iters=50):
    """Frequency of guided mode `mode` (0, 1, ...) at each g; nan where it does not exist."""
    return slab_freqs_all(g, eps, d, pol, mode + 1, iters)[mode]


GL_X, GL_W = np.polynomial.legendre.leggauss(48)


class SlabMode:
    """Profile psi(z), phi(z) = psi'/w of one guided mode at every g of an array: values at
    the Gauss nodes of each layer, and at the two outer interfaces (exponential tails)."""

    def __init__(self, g, om, eps, d, pol):
        g, om = np.asarray(g, float), np.asarray(om, float)
        self.g, self.om, self.pol, self.eps, self.d = g, om, pol, np.asarray(eps, float), d
        w = _weights(eps, pol)
        self.kl = np.sqrt(np.maximum(g**2 - eps[0] * om**2, 0))
        self.ku = np.sqrt(np.maximum(g**2 - eps[-1] * om**2, 0))
        N = len(d)
        n = len(g)

        def prop(psi, phi, i, z):
            """Solution of layer i (1-based) a distance z from where it is (psi, phi)."""
            q = np.sqrt((eps[i] * om**2 - g**2).astype(complex))
            q = np.where(np.abs(q) < 1e-9, 1e-9, q)
            c, s = np.cos(q * z).real, (np.sin(q * z) / q).real
            return psi * c + w[i] * phi * s, (-(q**2).real * psi * s + w[i] * phi * c) / w[i]
        # from below
        L = [(np.ones(n), self.kl / w[0])]
        for i in range(1, N + 1):
            L.append(prop(*L[-1], i, d[i - 1]))
        # from above (backwards)
        R = [None] * (N + 1)
        R[N] = (np.ones(n), -self.ku / w[-1])
        for i in range(N, 0, -1):
            R[i - 1] = prop(*R[i], i, -d[i - 1])
        # match where the two solutions agree best
        mis = np.array([np.abs(L[j][0] * R[j][1] - L[j][1] * R[j][0]) /
                        (np.hypot(*L[j]) * np.hypot(*R[j])) for j in range(N + 1)])
        jm = np.argmin(mis, axis=0)
        self.mismatch = np.min(mis, axis=0)
        ar = np.arange(n)
        Lp, Lf = np.array([l[0] for l in L]), np.array([l[1] for l in L])
        Rp, Rf = np.array([r[0] for r in R]), np.array([r[1] for r in R])
        big = np.abs(Lp[jm, ar]) >= np.abs(Lf[jm, ar])
        ratio = np.where(big, Lp[jm, ar] / np.where(big, Rp[jm, ar], 1),
                         Lf[jm, ar] / np.where(big, 1, Rf[jm, ar]))
        self.psi, self.phi, self.wz, self.z = [], [], [], []
        z0 = 0.
        self.norm = 1.

        def at(i, z):
            """psi and psi'/w in layer i (1-based) a distance z above its lower interface."""
            lp, lf = prop(*L[i - 1], i, z)
            rp, rf = prop(*R[i], i, z - d[i - 1])
            use_l = jm >= i
            return (np.where(use_l, lp, ratio * rp) * self.norm,
                    np.where(use_l, lf, ratio * rf) * self.norm)
        self.at = at
        for i in range(1, N + 1):
            zz = (GL_X + 1) / 2 * d[i - 1]
            p = np.empty((n, len(zz)))
            f = np.empty((n, len(zz)))
            for m, z in enumerate(zz):
                p[:, m], f[:, m] = at(i, z)
            self.psi.append(p)
            self.phi.append(f)
            self.wz.append(GL_W / 2 * d[i - 1])
            self.z.append(z0 + zz)
            z0 += d[i - 1]
        self.bot = np.ones(n)       # psi at the lower cladding's interface
        self.top = ratio.copy()     # psi at the upper cladding's interface
        # normalisation: int eps psi^2 = 1 (TE), int psi^2 = 1 (TM)
        nw = self.eps if pol == "te" else np.ones(N + 2)
        nn = nw[0] * self.bot**2 / (2 * self.kl) + nw[-1] * self.top**2 / (2 * self.ku)
        for i in range(N):
            nn = nn + nw[i + 1] * (self.psi[i]**2) @ self.wz[i]
        self.norm = 1 / np.sqrt(nn)
        for i in range(N):
            self.psi[i] *= self.norm[:, None]
            self.phi[i] *= self.norm[:, None]
        self.bot *= self.norm
        self.top *= self.norm


def gme_basis(G, k, eps, d, modes, ng_min=None):
    """Guided-mode basis: list of dicts with the curl of H of each basis function, by layer.
    `modes` are legume's indexes (even: TE, odd: TM). Also the smallest distances that decide
    whether a solver with a finite frequency step can be expected to see the same modes."""
    kx, ky = k[0] + G[0], k[1] + G[1]
    g = np.hypot(kx, ky)
    px, py = kx / g, ky / g
    qx, qy = py, -px
    out = []
    info = {"gap": np.inf, "cut": np.inf, "mismatch": 0.}
    hi = g / np.sqrt(max(eps[0], eps[-1]))
    lo = g / np.sqrt(max(eps))
    need = {}
    for m in modes:
        need.setdefault("te" if m % 2 == 0 else "tm", []).append(m // 2)
    freqs = {}
    for pol, ms in need.items():
        top = max(ms) + 1
        fr = slab_freqs_all(g, eps, d, pol, top + 1)
        freqs[pol] = fr
        with np.errstate(invalid="ignore"):
            gaps = np.diff(fr, axis=0)
            if np.any(np.isfinite(gaps)):
                info["gap"] = min(info["gap"], np.nanmin(gaps))
            # distance of a mode from the light line, and of the first from the lower bound
            for i in range(top):
                f = fr[i]
                if np.any(np.isfinite(f)):
                    info["cut"] = min(info["cut"], np.nanmin((hi - f) / hi),
                                      np.nanmin((f - lo) / hi))
        # a mode about to appear: count just above the light line's tolerance
        if appears_at_light_line(hi, g, eps, d, pol):
            info["cut"] = 0.
    for m in modes:
        pol = "te" if m % 2 == 0 else "tm"
        f = freqs[pol][m // 2]
        ind = np.where(np.isfinite(f))[0]
        if len(ind) == 0:
            continue
        mode = SlabMode(g[ind], f[ind], eps, d, pol)
        info["mismatch"] = max(info["mismatch"], mode.mismatch.max())
        N = len(d)
        om = f[ind][:, None]
        V = []     # per layer: (n, 3, nz); claddings hold the value at the interface
        if pol == "te":
            # E = F q, H from curl E = i om H;  D = eps E, curl H = -i om eps F q
            for i in range(N):
                A = -1j * om * eps[i + 1] * mode.psi[i]
                V.append(np.stack([A * qx[ind][:, None], A * qy[ind][:, None], 0 * A], 1))
            cl = []
            for i, val in ((0, mode.bot), (-1, mode.top)):
                A = -1j * f[ind] * eps[i] * val
                cl.append(np.stack([A * qx[ind], A * qy[ind], 0 * A], 1))
        else:
            # H = F q with q = (py, -px): curl H = F' p - i g F z
            for i in range(N):
                A = mode.phi[i] * eps[i + 1]
                B = -1j * g[ind][:, None] * mode.psi[i]
                V.append(np.stack([A * px[ind][:, None], A * py[ind][:, None], B], 1).astype(complex))
            cl = []
            for i, val, dr in ((0, mode.bot, mode.kl), (-1, mode.top, -mode.ku)):
                A = dr * val
                cl.append(np.stack([A * px[ind], A * py[ind], -1j * g[ind] * val], 1).astype(complex))
        out.append({"mode": m, "ind": ind, "om": f[ind], "V": V, "cl": cl,
                    "kl": mode.kl, "ku": mode.ku, "slab": mode})
    info["g"] = g
    return out, info


def gme_matrix(basis, eps_inv, wz):
    """Matrix of the operator curl eps^-1 curl in the basis. eps_inv: per layer with the
    claddings first and last. wz: quadrature weights of each layer."""
    blocks = []
    for a in basis:
        row = []
        for b in basis:
            M = np.zeros((len(a["ind"]), len(b["ind"])), complex)
            for i, w in enumerate(wz):
                X = np.einsum("gcz,z,hcz->gh", a["V"][i].conj(), w, b["V"][i], optimize=True)
                M += X * eps_inv[i + 1][np.ix_(a["ind"], b["ind"])]
            for c, kk, e in ((0, "kl", 0), (1, "ku", -1)):
                X = np.einsum("gc,hc->gh", a["cl"][c].conj(), b["cl"][c])
                X = X / (a[kk][:, None] + b[kk][None, :])
                M += X * eps_inv[e][np.ix_(a["ind"], b["ind"])]
            row.append(M)
        blocks.append(np.hstack(row))
    return np.vstack(blocks)


def gme_reference(p, gmax, trunc, k, modes, eps_slab=None):
    """(all frequencies, info) of the guided-mode expansion of phc spec p."""
    G = gset(p["lat"], gmax, trunc)
    ls = layer_specs(p)
    eps = np.asarray(eps_slab if eps_slab is not None else gen.eps_avgs(p), float)
    d = [l["d"] for l in p["layers"]]
    basis, info = gme_basis(G, k, eps, d, modes)
    if not basis:
        return None, info
    ei = [np.linalg.inv(eps_matrix(eb, sh, p["lat"], G)) for eb, sh in ls]
    wz = [GL_W / 2 * di for di in d]
    M = gme_matrix(basis, ei, wz)
    M = (M + M.conj().T) / 2
    w2 = np.linalg.eigvalsh(M)
    info["nbasis"] = M.shape[0]
    info["herm"] = 0
    return np.sqrt(np.abs(w2)) / 2 / np.pi, info


def guided_info(p, gmax, trunc, k, modes, eps=None):
    """Distances that decide whether the guided modes of all k + G are well separated: the
    smallest |k + G|, gap between two modes, and relative distance from the light lines of the
    claddings and (of the square) of the layers."""
    G = gset(p["lat"], gmax, trunc)
    g = np.hypot(k[0] + G[0], k[1] + G[1])
    eps = np.asarray(gen.eps_avgs(p) if eps is None else eps, float)
    d = [l["d"] for l in p["layers"]]
    info = {"gap": np.inf, "cut": np.inf, "gmin": g.min(), "n": 0, "layer": np.inf, "contrast":
            np.max(eps[1:-1]) / max(eps[0], eps[-1])}
    if info["contrast"] <= 1:
        return info
    g = g[g > 1e-6]
    hi = g / np.sqrt(max(eps[0], eps[-1]))
    lo = g / np.sqrt(max(eps))
    for pol, par in (("te", 0), ("tm", 1)):
        ms = [m // 2 for m in modes if m % 2 == par]
        if not ms:
            continue
        fr = slab_freqs_all(g, eps, d, pol, max(ms) + 2)
        info["n"] += int(sum(np.isfinite(fr[m]).sum() for m in ms))
        for v, name in ((np.diff(fr, axis=0), "gap"), ((hi - fr[:-1]) / hi, "cut"),
                        ((fr[:-1] - lo) / hi, "cut")):
            v = v[np.isfinite(v)]
            if v.size:
                info[name] = min(info[name], v.min())
        if appears_at_light_line(hi, g, eps, d, pol):
            info["cut"] = 0.
        # the light line of a layer: its two plane waves coincide, their amplitudes diverge
        for e in eps[1:-1]:
            v = np.abs(e * fr[ms]**2 - g**2) / g**2
            v = v[np.isfinite(v)]
            if v.size:
                info["layer"] = min(info["layer"], v.min())
    return info


def well_posed(p, gmax, trunc, k, modes, eps=None, gap=0.015, cut=1e-4, gmin=0.05):
    """Skips the case unless guided modes exist and are resolved by the search step."""
    from .core import Skip
    i = guided_info(p, gmax, trunc, k, modes, eps)
    if i["contrast"] < 1.05:
        raise Skip("no index contrast")
    if i["n"] == 0:
        raise Skip("no guided modes")
    if i["gap"] < gap or i["cut"] < cut or i["gmin"] < gmin:
        raise Skip("near-degenerate guided modes")
    return i["n"]


def near_light_line(om, k, G, eps_clad, rel=3e-3):
    """For every angular frequency: a channel of a cladding opens within rel of it."""
    g2 = (k[0] + G[0])**2 + (k[1] + G[1])**2
    om = np.asarray(om, float)[:, None, None]
    w2 = om**2 * np.asarray(eps_clad)[None, :, None]
    return np.any(np.abs(g2[None, None, :] - w2) < rel * w2, axis=(1, 2))


def clusters(f, tol=1e-6):
    """Index lists of groups of nearly equal values of a sorted array."""
    out = []
    for i, x in enumerate(f):
        if out and x - f[out[-1][-1]] < tol:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def mode_fields(p, gmax, trunc, k, modes, n, zs, eps=None):
    """Frequencies of the n lowest modes, and for each the Fourier components of H, D, E at the
    heights zs: array (mode, z, field, component, G). The slab starts at z = 0. Plane waves with
    k + G = 0 carry no field."""
    G = gset(p["lat"], gmax, trunc)
    eps = np.asarray(gen.eps_avgs(p) if eps is None else eps, float)
    d = [l["d"] for l in p["layers"]]
    gall = np.hypot(k[0] + G[0], k[1] + G[1])
    keep = np.where(gall > 1e-6)[0]
    basis, _ = gme_basis(G[:, keep], k, eps, d, modes)
    ei = [np.linalg.inv(eps_matrix(eb, sh, p["lat"], G)) for eb, sh in layer_specs(p)]
    M = gme_matrix(basis, [e[np.ix_(keep, keep)] for e in ei], [GL_W / 2 * x for x in d])
    w2, V = np.linalg.eigh((M + M.conj().T) / 2)
    om = np.sqrt(np.abs(w2[:n]))
    N = len(d)
    edges = np.concatenate([[0.], np.cumsum(d)])
    F = np.zeros((len(om), len(zs), 3, 3, G.shape[1]), complex)
    area = abs(np.linalg.det(np.array(gen.lat_vectors(p["lat"]))))
    for iz, z in enumerate(zs):
        j = int(np.searchsorted(edges, z))        # 0: lower cladding .. N + 1: upper cladding
        n0 = 0
        for b in basis:
            s, ind = b["slab"], keep[b["ind"]]
            g = gall[ind]
            px, py = (k[0] + G[0, ind]) / g, (k[1] + G[1, ind]) / g
            qx, qy = py, -px
            w = _weights(eps, s.pol)
            if j == 0:
                psi = s.bot * np.exp(s.kl * z)
                dpsi = s.kl * psi
            elif j == N + 1:
                psi = s.top * np.exp(-s.ku * (z - edges[-1]))
                dpsi = -s.ku * psi
            else:
                psi, phi = s.at(j, z - edges[j - 1])
                dpsi = phi * w[j]
            v = V[n0:n0 + len(ind), :len(om)].T
            n0 += len(ind)
            if s.pol == "te":
                # E = psi q, H = curl E / (-i om_g) (time factor exp(+i om_g t)) up to a phase
                E = np.array([psi * qx, psi * qy, 0 * psi])
                curlE = np.array([-dpsi * qy, dpsi * qx, 1j * g * (px * qy - py * qx) * psi])
                H = curlE / (1j * b["om"])
                cH = -1j * b["om"] * eps[j] * E
            else:
                H = np.array([psi * qx, psi * qy, 0 * psi])
                cH = np.array([-dpsi * qy, dpsi * qx, 1j * g * (px * qy - py * qx) * psi])
            for f, val in ((0, H), (1, cH)):
                F[:, iz, f][:, :, ind] += v[:, None, :] * val[None] / np.sqrt(area)
        F[:, iz, 1] /= 1j * om[:, None, None]
        F[:, iz, 2] = np.einsum("gh,mch->mcg", ei[j], F[:, iz, 1])
    return om / 2 / np.pi, F


# ---------------------------------------------------------------- radiation

def scattering_state(om, g, eps, d, pol, clad):
    """Slab state at (om, g) whose only outgoing wave is in cladding `clad` (0 lower, 1 upper),
    with unit magnetic amplitude there; time dependence exp(+i om t), the one of D = rot H/(i om)
    and of decaying modes with Im(om) > 0. Returns psi and phi = psi'/w at the Gauss nodes of every
    layer and (incoming-like, outgoing-like) amplitudes X exp(i q z) + Y exp(-i q z) of psi in
    both claddings, z from the interface."""
    eps = np.asarray(eps, float)
    w = _weights(eps, pol)
    N = len(d)
    q = np.sqrt((eps * om**2 - g**2).astype(complex))      # evanescent: i kappa
    # from the other cladding: the wave that comes in, or decays outwards
    if clad == 1:
        # lower: incoming travels upwards exp(+iqz); evanescent exp(kappa z) = exp(-iqz)
        s = 1 if q[0].imag == 0 else -1
        psi, phi = 1. + 0j, s * 1j * q[0] / w[0]
        order = range(1, N + 1)
    else:
        s = -1 if q[-1].imag == 0 else 1
        psi, phi = 1. + 0j, s * 1j * q[-1] / w[-1]
        order = range(N, 0, -1)
    nodes = [None] * N
    far = (psi, s)
    for i in order:
        di = d[i - 1]
        z = (GL_X + 1) / 2 * di
        zz = z if clad == 1 else z - di
        qi = q[i] if abs(q[i]) > 1e-9 else 1e-9
        c, sn = np.cos(qi * zz), np.sin(qi * zz) / qi
        nodes[i - 1] = (psi * c + w[i] * phi * sn, (-qi**2 * psi * sn + w[i] * phi * c) / w[i])
        e = di if clad == 1 else -di
        c, sn = np.cos(qi * e), np.sin(qi * e) / qi
        psi, phi = psi * c + w[i] * phi * sn, (-qi**2 * psi * sn + w[i] * phi * c) / w[i]
    ic = -1 if clad == 1 else 0
    qc = q[ic]
    X = 0.5 * (psi + w[ic] * phi / (1j * qc))
    Y = 0.5 * (psi - w[ic] * phi / (1j * qc))
    out = X if clad == 1 else Y
    amp = 1. / out * (1 / np.sqrt(eps[ic]) if pol == "te" else 1.)
    nodes = [(a * amp, b * amp) for a, b in nodes]
    other = (far[0] * amp, 0.) if far[1] == 1 else (0., far[0] * amp)
    XY = [other, (X * amp, Y * amp)] if clad == 1 else [(X * amp, Y * amp), other]
    # built above for exp(-i om t); conjugate
    nodes = [(np.conj(a), np.conj(b)) for a, b in nodes]
    XY = [(np.conj(Y), np.conj(X)) if q[c].imag == 0 else (np.conj(X), np.conj(Y))
          for (X, Y), c in zip(XY, (0, -1))]
    return nodes, XY, q


def rad_overlaps(basis, vec, om, p_dir, g, iG, eps, d, ei, pol, clad):
    """Overlap <mode| curl eps^-1 curl |scattering state> for one channel (index iG)."""
    nodes, XY, q = scattering_state(om, g, eps, d, pol, clad)
    px, py = p_dir
    qx, qy = py, -px
    N = len(d)
    R, C = [], []
    for i in range(N):
        if pol == "te":
            A = -1j * om * eps[i + 1] * nodes[i][0]
            R.append(np.array([A * qx, A * qy, 0 * A]))
        else:
            A = nodes[i][1] * eps[i + 1]
            B = -1j * g * nodes[i][0]
            R.append(np.array([A * px, A * py, B]))
    for j, ic in ((0, 0), (1, -1)):
        rows = []
        for s, amp in ((1, XY[j][0]), (-1, XY[j][1])):
            if pol == "te":
                A = -1j * om * eps[ic] * amp
                rows.append(np.array([A * qx, A * qy, 0]))
            else:
                rows.append(np.array([1j * s * q[ic] * amp * px, 1j * s * q[ic] * amp * py,
                                      -1j * g * amp]))
        C.append(rows)
    tot = 0.
    n0 = 0
    for b in basis:
        m = len(b["ind"])
        v = vec[n0:n0 + m]
        n0 += m
        acc = np.zeros(m, complex)
        for i in range(N):
            x = np.einsum("gcz,z,cz->g", b["V"][i].conj(), GL_W / 2 * d[i], R[i], optimize=True)
            acc += x * ei[i + 1][b["ind"], iG]
        for j, ic, kk, sg in ((0, 0, "kl", -1), (1, -1, "ku", 1)):
            kap = b[kk]
            for s, row in ((1, C[j][0]), (-1, C[j][1])):
                # int exp(-kap |z|) exp(i s q z): z from 0 outwards
                I = 1 / (kap - 1j * s * sg * q[ic])
                acc += (b["cl"][j].conj() @ row) * I * ei[ic][b["ind"], iG]
        tot += v.conj() @ acc
    return tot


def rad_reference(p, gmax, trunc, k, modes, n, eps=None):
    """Frequencies and couplings of the n lowest modes: list of dicts clad -> (indexes of the
    open channels, couplings of TE, couplings of TM)."""
    G = gset(p["lat"], gmax, trunc)
    eps = np.asarray(gen.eps_avgs(p) if eps is None else eps, float)
    d = [l["d"] for l in p["layers"]]
    gall = np.hypot(k[0] + G[0], k[1] + G[1])
    zero = gall < 1e-6
    keep = np.where(~zero)[0]
    basis, _ = gme_basis(G[:, keep], k, eps, d, modes)
    for b in basis:
        b["ind"] = keep[b["ind"]]
    ei = [np.linalg.inv(eps_matrix(eb, sh, p["lat"], G)) for eb, sh in layer_specs(p)]
    M = gme_matrix(basis, ei, [GL_W / 2 * x for x in d])
    M = (M + M.conj().T) / 2
    w2, V = np.linalg.eigh(M)
    om = np.sqrt(np.abs(w2[:n]))
    out = []
    for m in range(min(n, len(om))):
        r = {}
        for clad in (0, 1):
            ec = eps[0] if clad == 0 else eps[-1]
            idx = np.where(gall**2 <= ec * om[m]**2)[0]
            te, tm = [], []
            for i in idx:
                g = gall[i]
                u = (1., 0.) if g < 1e-6 else ((k[0] + G[0, i]) / g, (k[1] + G[1, i]) / g)
                rho = ec / np.sqrt(ec * om[m]**2 - g**2) / 4 / np.pi
                for pol, lst in (("te", te), ("tm", tm)):
                    lst.append(np.sqrt(np.pi * rho) * rad_overlaps(
                        basis, V[:, m], om[m], u, g, i, eps, d, ei, pol, clad))
            r["lu"[clad]] = (idx, np.array(te), np.array(tm))
        out.append(r)
    return om / 2 / np.pi, out, G
