"""Quadrature rules and spherical integration."""
import math

import torch

import torch_harmonics as th
from torch_harmonics import quadrature as Q
from vlib import oracle as O
from vlib.harness import F64
from checks.c02 import synth

FUNCTIONS = ["legendre_gauss_weights", "lobatto_weights", "clenshaw_curtiss_weights", "trapezoidal_weights", "precompute_latitudes", "precompute_longitudes", "QuadratureS2.forward", "rescaling to [a,b]"]
BOUNDS = "2..12 nodes (thorough ..24); integrands: every polynomial of the guaranteed degree (Legendre coefficients symbolic in [-1,1]); interval endpoints symbolic (a in [-2,0.5], b-a in [0.5,3]); every spherical field with symbolic samples"
RULES = {"legendre-gauss": (Q.legendre_gauss_weights, lambda n: 2 * n - 1), "lobatto": (Q.lobatto_weights, lambda n: 2 * n - 3), "equiangular": (Q.clenshaw_curtiss_weights, lambda n: n - 1), "equiangular-trapezoidal": (Q.trapezoidal_weights, lambda n: 1)}


def legval(x, L):
    p = [torch.ones_like(x), x]
    for l in range(2, L + 1):
        p.append(((2 * l - 1) * x * p[-1] - (l - 1) * p[-2]) / l)
    return torch.stack(p[: L + 1])


def exact(grid, n):
    def run(cx):
        x, w = RULES[grid][0](n, -1, 1)
        d = RULES[grid][1](n)
        c = cx.inp("c", (d + 1,), F64)
        cx.fact("shapes", tuple(x.shape) == (n,) and tuple(w.shape) == (n,))
        cx.fact("double precision", x.dtype == F64 and w.dtype == F64, f"{x.dtype} {w.dtype}")
        val = cx.run(lambda c: torch.einsum("l,lk,k->", c, legval(x, d), w), c)
        cx.eq("integral of every polynomial of the guaranteed degree", val, cx.run(lambda c: 2.0 * c[0], c), 1e-9)
        th_, ww = O.nodes(n, grid)
        cx.eq("nodes ascending as documented", x, O.T(sorted(float(O.mp.cos(t)) for t in th_)), 1e-12)
        cx.eq("weights", w, O.T([float(v) for v in reversed(ww)]), 1e-12)
        f = cx.inp("f", (n,), F64, 0.0, 1.0)
        s = cx.run(lambda f: (f * w).sum(), f)
        cx.le("non-negative integrands have non-negative integral", cx.run(torch.neg, s), cx.run(torch.zeros_like, s), 1e-12)
        cx.le("integral is bounded by the maximum", s, cx.run(lambda s: torch.full_like(s, 2.0), s), 1e-9)
        lats, wl = Q.precompute_latitudes(n, grid)
        cx.eq("colatitudes run from north to south", lats, O.T([float(t) for t in th_]), 1e-7)
        cx.eq("weights belong to their colatitudes", wl, O.T([float(v) for v in ww]), 1e-12)

    return run


def rescale(grid, n):
    """Interval [a, b] symbolic: nodes stay inside and the rule stays exact for degree <= 3."""

    def run(cx):
        a = cx.inp("a", (), F64, -2.0, 0.5)
        h = cx.inp("h", (), F64, 0.5, 3.0)

        def go(a, h):
            b = a + h
            x, w = RULES[grid][0](n, a, b)
            r, s = Q._precompute_quadrature_weights(n, grid, a, b)
            return x, w, b, r, s

        x, w, b, r, s = cx.run(go, a, h)
        cx.eq("dispatch by name: nodes", r, x, 1e-9)
        cx.eq("dispatch by name: weights", s, w, 1e-9)
        cx.eq("weights sum to the length", cx.run(torch.sum, w), h, 1e-9)
        cx.eq("first moment", cx.run(lambda: (w * x).sum()), cx.run(lambda: (b * b - a * a) / 2), 1e-8)
        d = RULES[grid][1](n)
        if d >= 2:
            cx.eq("second moment", cx.run(lambda: (w * x * x).sum()), cx.run(lambda: (b * b * b - a * a * a) / 3), 1e-8)
        if d >= 3:
            cx.eq("third moment", cx.run(lambda: (w * x * x * x).sum()), cx.run(lambda: (b * b * b * b - a * a * a * a) / 4), 1e-8)
        cx.le("nodes not below a", cx.run(lambda: a + torch.zeros_like(x)), x, 1e-9)
        cx.le("nodes not above b", x, cx.run(lambda: b + torch.zeros_like(x)), 1e-9)

    return run


def trapez(n, a, b):
    def run(cx):
        x, w = Q._precompute_quadrature_weights(n, "equiangular-trapezoidal", a, b)
        c = cx.inp("c", (n,), F64)
        h = (b - a) / (n - 1)
        e = cx.run(lambda c: h * (c.sum() - 0.5 * c[0] - 0.5 * c[-1]), c)
        cx.eq("trapezoidal sum", cx.run(lambda c: (c * w).sum(), c), e, 1e-9)
        cx.eq("nodes", x, O.T([a + k * h for k in range(n)]), 1e-9)

    return run


def periodic(n):
    def run(cx):
        x, w = Q._precompute_quadrature_weights(n, "equiangular-trapezoidal", 0.0, 2 * math.pi, periodic=True)
        lons = Q.precompute_longitudes(n)
        e = O.lon(n)
        cx.eq("periodic nodes", x, e, 1e-12)
        cx.eq("longitudes", lons, e, 1e-12)
        M = (n - 1) // 2
        c = cx.inp("c", (2 * M + 1,), F64)

        def go(c):
            f = c[0] * torch.ones(n, dtype=F64)
            for m in range(1, M + 1):
                f = f + c[2 * m - 1] * torch.cos(m * e) + c[2 * m] * torch.sin(m * e)
            return (f * w).sum()

        cx.eq("trigonometric polynomials are integrated exactly", cx.run(go, c), cx.run(lambda c: 2 * math.pi * c[0], c), 1e-9)
        try:
            Q._precompute_quadrature_weights(n, "legendre-gauss", 0, 1, periodic=True)
            ok = False
        except ValueError:
            ok = True
        cx.fact("periodic only for the trapezoidal rule", ok)

    return run


def sphere(grid, nlat, nlon, normalize, batch):
    def run(cx):
        q = th.QuadratureS2((nlat, nlon), grid=grid, normalize=normalize)
        f = cx.inp("f", batch + (nlat, nlon), F64)
        f.requires_grad_(True)
        y = cx.run(q, f)
        w = O.T([float(v) for v in O.nodes(nlat, grid)[1]]) * (2 * math.pi / nlon) / (4 * math.pi if normalize else 1.0)
        e = cx.run(lambda f: torch.einsum("...kj,k->...", f, w), f)
        if len(batch) < 2:
            e = e.reshape(y.shape)
        cx.eq("integral is the weighted sum over the grid", y, e, 1e-5)
        g = cx.inp("g", y.shape, F64)
        cx.eq("gradient", cx.run(torch.autograd.grad, y, f, g)[0], cx.run(torch.autograd.grad, e, f, g)[0], 1e-5)
        if grid != "equiangular-trapezoidal":
            L = min(RULES[grid][1](nlat) + 1, nlon)
            M = min(L, (nlon - 1) // 2 + 1)
            c = cx.inp("c", batch + (L, M), torch.complex128)
            tri = torch.tril(torch.ones(L, M, dtype=F64))
            y = cx.run(lambda c: q(synth(c * tri, nlat, nlon, grid, "ortho", True)), c)
            k = 1 / math.sqrt(4 * math.pi) if normalize else math.sqrt(4 * math.pi)
            cx.eq("only the mean mode of a band-limited field survives", y, cx.run(lambda c: c[..., 0, 0].real * k, c).reshape(y.shape), 1e-4)

    return run


def cases(tier):
    out = []
    for grid in RULES:
        ns = [2, 3, 4, 5, 6, 7, 8, 12] if tier == "quick" else list(range(2, 17)) + [20, 24]
        for n in ns:
            out.append((f"exact {grid} n={n}", exact(grid, n)))
        for n in ([3, 4, 7] if tier == "quick" else [2, 3, 4, 5, 6, 7, 9, 12]):
            if grid != "equiangular-trapezoidal":  # goes through numpy: checked on fixed intervals below
                out.append((f"rescale {grid} n={n}", rescale(grid, n)))
        for nlat, nlon, b in [(4, 8, (1, 2)), (5, 7, (2, 1)), (9, 12, (2, 2))]:
            for nm in (False, True):
                out.append((f"sphere {grid} {nlat}x{nlon} norm={int(nm)}", sphere(grid, nlat, nlon, nm, b)))
    for n, a, b in [(2, -1.0, 1.0), (5, 0.0, 3.0), (9, -2.0, -0.5), (12, 0.0, math.pi)]:
        out.append((f"trapezoid n={n} [{a},{b}]", trapez(n, a, b)))
    for n in (3, 4, 7, 12):
        out.append((f"periodic n={n}", periodic(n)))
    return out
