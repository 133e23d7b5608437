"""Independent definition of the DISCO filter tensor and of the convolution.

Everything is written from the definition (geometry by vectors on the sphere,
basis functions by their formulas, plain loops), sharing no code with the
package under test.
"""
import functools
import math

import mpmath as mp
import numpy as np
import torch

from . import oracle as O


# ----------------------------------------------------------- basis values --
def _circ(a, b):
    d = abs(a - b) % (2 * math.pi)
    return min(d, 2 * math.pi - d)


def _hat(d, w):
    return max(0.0, 1.0 - d / w)


def kernel_size(basis, ks):
    if basis == "piecewise linear":
        nr, nphi = _pl(ks)
        return (nr // 2) * nphi + nr % 2
    if basis in ("harmonic", "morlet"):
        a, b = (ks, ks) if isinstance(ks, int) else ks
        return a * b
    if basis == "zernike":
        n = ks if isinstance(ks, int) else ks[0]
        return n * (n + 1) // 2
    return len(_bessel_index(ks))


def _pl(ks):
    if isinstance(ks, int):
        return ks, 1
    ks = tuple(ks)
    return (ks[0], 1) if len(ks) == 1 else ks


@functools.lru_cache(None)
def _bessel_index(ks):
    nr, na = (ks, ks) if isinstance(ks, int) else tuple(ks)
    amax = float(mp.besseljzero(0, nr))
    ent = []
    for m in range(na + 1):
        for n in range(1, nr + 1):
            a = float(mp.besseljzero(m, n))
            if a > amax * (1 + 1e-12):
                break
            ent.append((a, m, n, True))
            if m:
                ent.append((a, m, n, False))
    ent.sort(key=lambda e: e[0])
    return ent


def isotropic(basis, ks):
    K = kernel_size(basis, ks)
    if basis == "piecewise linear":
        nr, nphi = _pl(ks)
        return [nphi == 1 or (nr % 2 == 1 and k == 0) for k in range(K)]
    if basis in ("harmonic", "morlet"):
        return [k == 0 for k in range(K)]
    if basis == "zernike":
        n = ks if isinstance(ks, int) else ks[0]
        return [2 * l - i == 0 for i in range(n) for l in range(i + 1)]
    return [e[1] == 0 for e in _bessel_index(ks if isinstance(ks, int) else tuple(ks))]


def _harm(u, phi, k, ks):
    a, b = (ks, ks) if isinstance(ks, int) else ks
    n, m = k % b, k // b
    x, y = u * math.sin(phi), u * math.cos(phi)
    fx, fy = (n + 1) // 2, (m + 1) // 2
    h = math.sin(fx * math.pi * x) if n % 2 else math.cos(fx * math.pi * x)
    h *= math.sin(fy * math.pi * y) if m % 2 else math.cos(fy * math.pi * y)
    return math.cos(0.5 * math.pi * u) ** 2 * h


@functools.lru_cache(None)
def _harm_norm(k, ks, nr=50, nphi=200):
    s = 0.0
    for i in range(nr):
        u = (i + 0.5) / nr
        for j in range(nphi):
            s += _harm(u, 2 * math.pi * j / nphi, k, ks) ** 2 * u
    return math.sqrt(s / nr * 2 * math.pi / nphi)


def basis_value(basis, ks, k, r, phi, rc):
    """(in support?, value) of basis function k at polar coordinates (r, phi)."""
    if r > rc:
        return False, 0.0
    if basis == "piecewise linear":
        nr, nphi = _pl(ks)
        dr = 2 * rc / (nr + 1)
        if nphi == 1:
            c = k * dr if nr % 2 else (k + 0.5) * dr
            return abs(r - c) <= dr, _hat(abs(r - c), dr)
        dphi = 2 * math.pi / nphi
        if nr % 2:
            if k == 0:
                return r <= dr, _hat(r, dr)
            c = ((k - 1) // nphi + 1) * dr
            p = ((k - 1) % nphi) * dphi - math.pi
            s = abs(r - c) <= dr and _circ(phi, p) <= dphi
            return s, _hat(abs(r - c), dr) * _hat(_circ(phi, p), dphi)
        c = (k // nphi + 0.5) * dr
        p = (k % nphi) * dphi - math.pi
        s = abs(r - c) <= dr and _circ(phi, p) <= dphi
        sn = abs(-r - c) <= dr and _circ(phi + math.pi, p) <= dphi
        return s or sn, _hat(abs(r - c), dr) * _hat(_circ(phi, p), dphi) + _hat(abs(-r - c), dr) * _hat(_circ(phi + math.pi, p), dphi)
    u = r / rc
    if basis == "harmonic":
        kk = ks if isinstance(ks, int) else tuple(ks)
        return True, _harm(u, phi, k, kk) / max(_harm_norm(k, kk), 1e-12)
    if basis == "morlet":
        return True, _harm(u, phi, k, ks)
    if basis == "zernike":
        n = 0
        l = k
        while l > n:
            l -= n + 1
            n += 1
        m = 2 * l - n
        a = abs(m)
        R = sum((-1) ** q * math.factorial(n - q) / (math.factorial(q) * math.factorial((n + a) // 2 - q) * math.factorial((n - a) // 2 - q)) * u ** (n - 2 * q) for q in range((n - a) // 2 + 1))
        ang = math.sin(m * phi) if m < 0 else math.cos(m * phi)
        return True, R * ang / math.sqrt(math.pi * (2 if m == 0 else 1) / (2.0 * (n + 1)))
    if basis == "fourier-bessel":
        a, m, n, c = _bessel_index(ks if isinstance(ks, int) else tuple(ks))[k]
        nrm = abs(float(mp.besselj(m + 1, a))) / math.sqrt(2) * math.sqrt(2 * math.pi if m == 0 else math.pi)
        return True, float(mp.besselj(m, a * u)) * (math.cos(m * phi) if c else math.sin(m * phi)) / nrm
    raise KeyError(basis)


# ------------------------------------------------------------ psi tensor ---
def geometry(to, ti, lam):
    """Distance and azimuth (from south, towards east) of the point (ti, lam) seen from (to, 0)."""
    v = (math.sin(ti) * math.cos(lam), math.sin(ti) * math.sin(lam), math.cos(ti))
    z = v[0] * math.sin(to) + v[2] * math.cos(to)
    s = v[0] * math.cos(to) - v[2] * math.sin(to)
    e = v[1]
    r = math.atan2(math.hypot(s, e), z)
    phi = math.atan2(e, s) if math.hypot(s, e) > 1e-12 else 0.0
    return r, phi % (2 * math.pi)


@functools.lru_cache(None)
def psi(in_shape, out_shape, ks, basis, gi, go, cutoff, norm, transpose=False):
    """Dense (mask, values) [K, nlat_out, nlat_in, nlon_in]; quadrature weights merged."""
    K = kernel_size(basis, ks)
    ni, nl = in_shape
    no = out_shape[0]
    ti, wi = O.nodes(ni, gi)
    to, wo = O.nodes(no, go)
    ti, wi, to, wo = ([float(a) for a in b] for b in (ti, wi, to, wo))
    rc = (1.0 + 1e-3) * cutoff
    M = np.zeros((K, no, ni, nl), dtype=bool)
    V = np.zeros((K, no, ni, nl))
    margin = math.inf
    for o in range(no):
        for i in range(ni):
            for p in range(nl):
                r, phi = geometry(to[o], ti[i], 2 * math.pi * p / nl)
                margin = min(margin, abs(r - rc))
                for k in range(K):
                    M[k, o, i, p], V[k, o, i, p] = basis_value(basis, ks, k, r, phi, rc)
    V = np.where(M, V, 0.0)
    # quadrature weight of the summed-over points
    if transpose:
        q = np.array(wo).reshape(1, no, 1, 1) / (2.0 * nl)
    else:
        q = np.array(wi).reshape(1, 1, ni, 1) / (2.0 * nl)
    axes = (1, 3) if transpose else (2, 3)         # sum over everything that feeds one output latitude
    ok = M.astype(float)
    supp = (q * ok).sum(axis=axes, keepdims=True)
    eps = 1e-9
    bias = 0.0
    if norm == "modal":
        iso = np.array(isotropic(basis, ks)).reshape(K, 1, 1, 1)
        num = (q * V * ok).sum(axis=axes, keepdims=True)
        bias = np.where(iso | (np.abs(supp) <= eps), 0.0, num / np.maximum(supp, eps))
    scale = (np.abs(V - bias) * q * ok).sum(axis=axes, keepdims=True)
    # a row that consists of rounding noise only (e.g. a hat function evaluated at its own edge)
    noisy = norm in ("nodal", "modal", "mean") and bool(((scale > 0) & (scale < 1e-6)).any())
    if norm in ("nodal", "modal"):
        W = (V - bias) / np.maximum(scale, eps)
    elif norm == "mean":
        W = V / np.maximum(scale.mean(axis=2 if transpose else 1, keepdims=True), eps)
    elif norm == "support":
        W = V / np.maximum(supp, eps)
    elif norm == "geometric":
        W = V / max((1.0 - math.cos(cutoff)) / 4.0, eps)
    elif norm == "none":
        W = V
    W = W * q * ok
    if transpose:
        W = W / (out_shape[1] / nl)
    return M, W, margin, noisy


def contract(x, W, nlon_out):
    """[B,C,Hi,Wi] -> [B,C,K,Ho,Wo] by the definition (any tensors, torch ops only)."""
    W = torch.from_numpy(np.array(W)) if isinstance(W, np.ndarray) else W
    nl = x.shape[-1]
    s = nl // nlon_out
    cols = []
    for o in range(nlon_out):
        xs = torch.cat([x[..., (s * o) % nl:], x[..., :(s * o) % nl]], dim=-1)
        cols.append(torch.einsum("bcip,khip->bckh", xs, W.to(x.dtype)))
    return torch.stack(cols, -1)


def contract_t(y, W, nlon_out):
    """Adjoint: [B,C,K,Hi,Wi] -> [B,C,Ho,Wo] with W [K,Hi,Ho,Wo]."""
    W = torch.from_numpy(np.array(W)) if isinstance(W, np.ndarray) else W
    s = nlon_out // y.shape[-1]
    out = None
    for j in range(y.shape[-1]):
        t = torch.einsum("bckh,khip->bcip", y[..., j], W.to(y.dtype))
        sh = (s * j) % nlon_out
        t = torch.cat([t[..., nlon_out - sh:], t[..., : nlon_out - sh]], dim=-1)
        out = t if out is None else out + t
    return out


def mix(xe, w, groups):
    """Channel mixing of the expanded field [B,C,K,H,W] with weights [O, C/groups, K]."""
    B, C, K, H, Wd = xe.shape
    O_ = w.shape[0]
    cg, og = C // groups, O_ // groups
    outs = []
    for o in range(O_):
        g = o // og
        acc = None
        for c in range(cg):
            for k in range(K):
                t = w[o, c, k] * xe[:, g * cg + c, k]
                acc = t if acc is None else acc + t
        outs.append(acc)
    return torch.stack(outs, 1)
