"""Independent reference mathematics (shares no code with the package).

Associated Legendre functions come from the Rodrigues formula in exact rational
arithmetic, quadrature nodes from high-precision root finding.
"""
import math
from fractions import Fraction
from functools import lru_cache

import mpmath as mp
import numpy as np
import torch

mp.mp.dps = 40


@lru_cache(None)
def leg_coeffs(l):
    """Coefficients (ascending, Fractions) of the Legendre polynomial P_l."""
    # P_l = 2^-l sum_k (-1)^k C(l,k) C(2l-2k,l) x^(l-2k)
    c = [Fraction(0)] * (l + 1)
    for k in range(l // 2 + 1):
        c[l - 2 * k] = Fraction((-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l), 2**l)
    return tuple(c)


@lru_cache(None)
def dleg_coeffs(l, m):
    """m-th derivative of P_l."""
    c = list(leg_coeffs(l))
    for _ in range(m):
        c = [c[i] * i for i in range(1, len(c))] or [Fraction(0)]
    return tuple(c)


def ynorm(l, m):
    return mp.sqrt(mp.mpf(2 * l + 1) / (4 * mp.pi) * mp.factorial(l - m) / mp.factorial(l + m))


def scale(l, norm, inverse):
    """Factor on top of the orthonormal convention."""
    if norm == "ortho":
        return mp.mpf(1)
    f = mp.sqrt(4 * mp.pi)
    if norm == "schmidt":
        f = f / mp.sqrt(2 * l + 1)
    return 1 / f if inverse else f


def _poly(c, x):
    r = mp.mpf(0)
    for a in reversed(c):
        r = r * x + mp.mpf(a.numerator) / a.denominator
    return r


def plm(l, m, th, csphase=True):
    """Orthonormal associated Legendre function at colatitude th (mp)."""
    if m > l:
        return mp.mpf(0)
    x, s = mp.cos(th), mp.sin(th)
    return ((-1) ** m if csphase else 1) * ynorm(l, m) * s**m * _poly(dleg_coeffs(l, m), x)


def dplm(l, m, th, csphase=True):
    """d/dtheta of plm."""
    if m > l:
        return mp.mpf(0)
    x, s = mp.cos(th), mp.sin(th)
    p, dp = _poly(dleg_coeffs(l, m), x), _poly(dleg_coeffs(l, m + 1), x)
    r = -(s ** (m + 1)) * dp
    if m > 0:
        r += m * s ** (m - 1) * x * p
    return ((-1) ** m if csphase else 1) * ynorm(l, m) * r


def mplm_sin(l, m, th, csphase=True):
    """m * plm / sin(theta), finite at the poles."""
    if m > l or m == 0:
        return mp.mpf(0)
    x, s = mp.cos(th), mp.sin(th)
    return ((-1) ** m if csphase else 1) * ynorm(l, m) * m * s ** (m - 1) * _poly(dleg_coeffs(l, m), x)


@lru_cache(None)
def nodes(nlat, grid):
    """(colatitudes north to south, weights in cos(theta)) in high precision."""
    if grid == "legendre-gauss":
        c = leg_coeffs(nlat)
        xs, ws = [], []
        for k in range(1, nlat + 1):
            x0 = mp.cos(mp.pi * (mp.mpf(4 * k - 1)) / (4 * nlat + 2))
            x = x0
            for _ in range(30):
                x = x - _poly(c, x) / _poly(dleg_coeffs(nlat, 1), x)
            d = _poly(dleg_coeffs(nlat, 1), x)
            xs.append(x)
            ws.append(2 / ((1 - x * x) * d * d))
        return tuple(mp.acos(x) for x in xs), tuple(ws)
    if grid == "lobatto":
        n = nlat
        c1, c2 = dleg_coeffs(n - 1, 1), dleg_coeffs(n - 1, 2)
        xs = [mp.mpf(1)]
        for k in range(1, n - 1):
            x = mp.cos(mp.pi * mp.mpf(k) / (n - 1))
            for _ in range(60):
                # deflated Newton iteration
                f, df = _poly(c1, x), _poly(c2, x)
                df -= f * sum(1 / (x - y) for y in xs[1:])
                x = x - f / df
            xs.append(x)
        xs.append(mp.mpf(-1))
        xs = sorted(xs, reverse=True)
        pl = [_poly(leg_coeffs(n - 1), x) for x in xs]
        return tuple(mp.acos(x) for x in xs), tuple(mp.mpf(2) / (n * (n - 1)) / p**2 for p in pl)
    if grid == "equiangular":
        n = nlat - 1
        th = [mp.pi * k / n for k in range(nlat)]
        ws = []
        for k in range(nlat):
            s = mp.mpf(1)
            for j in range(1, n // 2 + 1):
                b = 1 if 2 * j == n else 2
                s -= mp.mpf(b) / (4 * j * j - 1) * mp.cos(2 * j * th[k])
            ck = 1 if k in (0, n) else 2
            ws.append(ck * s / n)
        return tuple(th), tuple(ws)
    if grid == "equiangular-trapezoidal":
        x = [mp.mpf(1) - mp.mpf(2) * k / (nlat - 1) for k in range(nlat)]
        w = [mp.mpf(2) / (nlat - 1) * (mp.mpf(1) / 2 if k in (0, nlat - 1) else 1) for k in range(nlat)]
        return tuple(mp.acos(v) for v in x), tuple(w)
    raise ValueError(grid)


def T(x):
    return torch.from_numpy(np.array(x, dtype=np.float64))


def mplm_table(fun, lmax, mmax, nlat, grid, csphase, norm, inverse):
    th, _ = nodes(nlat, grid)
    out = np.zeros((lmax, mmax, nlat))
    for l in range(lmax):
        sc = scale(l, norm, inverse)
        for m in range(min(mmax, l + 1)):
            for k in range(nlat):
                out[l, m, k] = float(sc * fun(l, m, th[k], csphase))
    return out


@lru_cache(None)
def _table(kind, lmax, mmax, nlat, grid, csphase, norm, inverse):
    return mplm_table({"p": plm, "dp": dplm, "mp": mplm_sin}[kind], lmax, mmax, nlat, grid, csphase, norm, inverse)


def table(*a):
    return torch.from_numpy(_table(*a).copy())


def lon(nlon):
    return T([2 * math.pi * j / nlon for j in range(nlon)])


def trig(mmax, nlon):
    """cos(m lambda_j), sin(m lambda_j) with exact argument reduction."""
    c = np.zeros((mmax, nlon))
    s = np.zeros((mmax, nlon))
    for m in range(mmax):
        for j in range(nlon):
            a = 2 * mp.pi * ((m * j) % nlon) / nlon
            c[m, j], s[m, j] = float(mp.cos(a)), float(mp.sin(a))
    return T(c), T(s)


def mweight(mmax, nlon, nyquist=True):
    """2 for every order with a conjugate partner, 1 for order 0 (and Nyquist)."""
    w = np.full((mmax,), 2.0)
    w[0] = 1.0
    if nlon % 2 == 0 and nlon // 2 < mmax:
        w[nlon // 2] = 1.0
    return T(w)
