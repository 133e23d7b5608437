"""Resampling between grids: interpolation definition, constants, convexity, symmetry."""
import math

import torch

import torch_harmonics as th
from vlib import oracle as O
from vlib.harness import F64

FUNCTIONS = ["ResampleS2.__init__ (interpolation tables)", "ResampleS2.forward", "_upscale_latitudes", "_upscale_longitudes", "_expand_poles", "precompute_latitudes/longitudes", "autograd"]
BOUNDS = "input grids nlat<=9, nlon<=12, output grids nlat<=11, nlon<=16 (thorough <=17x24), all grid type pairs, both modes; every sample symbolic in [-1,1] (spherical mode: separated ranges so that no fallback applies, and constant fields)"
TOL = 2e-6


def lat_tab(nin, gin, nout, gout):
    """rows: for each output latitude (coefficients over input rows incl. pole means)  -> [nout, nin+2]"""
    li = [float(t) for t in O.nodes(nin, gin)[0]]
    lo = [float(t) for t in O.nodes(nout, gout)[0]]
    eps = 1e-11
    W = torch.zeros(nout, nin + 2, dtype=F64)
    ext = [0.0] + li + [math.pi]
    for k, t in enumerate(lo):
        hit = [i for i, u in enumerate(li) if abs(u - t) < eps]
        if hit:
            W[k, hit[0] + 1] = 1.0
            continue
        i = max(j for j in range(len(ext) - 1) if ext[j] < t + eps)
        w = (t - ext[i]) / (ext[i + 1] - ext[i])
        W[k, i] += 1.0 - w
        W[k, i + 1] += w
    return W


def lon_tab(nin, nout):
    W = torch.zeros(nout, nin, dtype=F64)
    for k in range(nout):
        i, r = divmod(k * nin, nout)
        w = r / nout
        W[k, i % nin] += 1.0 - w
        W[k, (i + 1) % nin] += w
    return W


def oracle(x, nin, gin, nout, gout, mout):
    A, B = lat_tab(nin, gin, nout, gout), lon_tab(x.shape[-1], mout)
    n = x[..., :1, :].mean(-1, keepdim=True).expand(*x.shape[:-2], 1, x.shape[-1])
    s = x[..., -1:, :].mean(-1, keepdim=True).expand(*x.shape[:-2], 1, x.shape[-1])
    e = torch.cat([n, x, s], dim=-2)
    return torch.einsum("ki,...ij,mj->...km", A, e, B)


def bilinear(a, b, c, d, gi, go, batch):
    def run(cx):
        m = th.ResampleS2(a, b, c, d, grid_in=gi, grid_out=go)
        x = cx.inp("x", batch + (a, b), F64)
        g = cx.inp("g", batch + (c, d), F64)

        def go_(f):
            v = x.clone().requires_grad_(True)
            y = f(v)
            (dv,) = torch.autograd.grad(y, v, g)
            return y, dv

        y, dy = cx.run(go_, m)
        e, de = cx.run(go_, lambda v: oracle(v, a, gi, c, go, d))
        cx.eq("bilinear interpolation of the periodic field", y, e, TOL)
        cx.eq("gradient", dy, de, TOL)
        cx.fact("dtype kept", y.dtype == F64, str(y.dtype))
        # convexity: the result lies between the extremes of the input
        lo = cx.inp("lo", (), F64, -0.9, 0.9)
        u = cx.inp("u", (a, b), F64, 0.0, 0.1)
        f = cx.run(lambda: m(lo + u))
        cx.le("not below the minimum", cx.run(lambda: lo.expand(f.shape) - f), 0.0, 1e-6)
        cx.le("not above the maximum", cx.run(lambda: f - (lo + 0.1).expand(f.shape)), 0.0, 1e-6)
        # zonal symmetry: shifting both grids by a common rotation commutes
        gcd = math.gcd(b, d)
        si, so = b // gcd, d // gcd
        cx.eq("common rotation in longitude commutes", cx.run(lambda: m(torch.roll(x, si, -1))), cx.run(lambda: torch.roll(m(x), so, -1)), TOL)

    return run


def slerp_const(a, b, c, d, gi, go):
    def run(cx):
        m = th.ResampleS2(a, b, c, d, grid_in=gi, grid_out=go, mode="bilinear-spherical")
        v = cx.inp("v", (), F64)
        y = cx.run(lambda: m(v.expand(a, b)))
        cx.eq("constants are preserved", y, cx.run(lambda: v.expand(c, d).clone()), TOL)

    return run


def slerp_lon(n, b, d, g, sgn):
    """Equal latitudes: only the longitudinal direction interpolates; documented formula."""

    def run(cx):
        m = th.ResampleS2(n, b, n, d, grid_in=g, grid_out=g, mode="bilinear-spherical")
        base = torch.tensor([(sgn * 0.5 if j % 2 else 0.0) for j in range(b)], dtype=F64)
        x = cx.run(lambda: cx.inp("x", (n, b), F64, -0.1, 0.1) + base)
        y = cx.run(m, x)

        def spec():
            cols = []
            for k in range(d):
                i, r = divmod(k * b, d)
                f0, f1 = x[:, i % b], x[:, (i + 1) % b]
                if r == 0:
                    cols.append(f0)
                    continue
                t = float(torch.tensor(r / d, dtype=torch.float32))
                w = f1 - f0
                cols.append(torch.sin((1.0 - t) * w) / torch.sin(w) * f0 + torch.sin(t * w) / torch.sin(w) * f1)
            return torch.stack(cols, -1)

        cx.eq("great-circle formula along longitude", y, cx.run(spec), TOL)

    return run


def slerp_lat(a, c, n, g, go, sgn):
    def run(cx):
        m = th.ResampleS2(a, n, c, n, grid_in=g, grid_out=go, mode="bilinear-spherical")
        base = torch.tensor([[(sgn * 0.5 if j % 2 else 0.0)] for j in range(a)], dtype=F64)
        x = cx.run(lambda: cx.inp("x", (a, n), F64, -0.1, 0.1) + base)
        y = cx.run(m, x)
        W = lat_tab(a, g, c, go)

        def spec():
            rows = []
            for k in range(c):
                nz = [(i, float(w)) for i, w in enumerate(W[k]) if w != 0]
                if len(nz) == 1:
                    rows.append(x[nz[0][0] - 1])
                    continue
                (i0, _), (i1, t) = nz
                t = float(torch.tensor(t, dtype=torch.float32))
                f0, f1 = x[i0 - 1], x[i1 - 1]
                w = f1 - f0
                rows.append(torch.sin((1.0 - t) * w) / torch.sin(w) * f0 + torch.sin(t * w) / torch.sin(w) * f1)
            return torch.stack(rows, 0)

        cx.eq("great-circle formula along latitude", y, cx.run(spec), TOL)

    return run


def cases(tier):
    big = tier != "quick"
    out = []
    G = ("equiangular", "legendre-gauss", "lobatto")
    sizes = [(5, 8, 5, 8), (5, 8, 7, 12), (5, 7, 6, 7), (6, 5, 6, 8), (6, 9, 4, 6), (5, 6, 9, 9), (7, 12, 7, 8), (4, 8, 11, 16)]
    if big:
        sizes += [(9, 12, 17, 24), (3, 4, 8, 10), (8, 12, 5, 7), (9, 16, 6, 24), (2, 4, 6, 6), (9, 8, 5, 4), (12, 8, 9, 10), (13, 12, 20, 16), (16, 24, 33, 9)]
    for gi in G:
        for go in G:
            for a, b, c, d in sizes:
                if go == "lobatto" and c < 3 or gi == "lobatto" and a < 3:
                    continue
                out.append((f"bilinear {gi}->{go} {a}x{b}->{c}x{d}", bilinear(a, b, c, d, gi, go, ())))
            out.append((f"spherical constant {gi}->{go}", slerp_const(4, 6, 5, 8, gi, go)))
    out.append(("identity equiangular batch", bilinear(5, 8, 5, 8, "equiangular", "equiangular", (2, 2))))
    out.append(("bilinear batch", bilinear(4, 6, 5, 9, "legendre-gauss", "equiangular", (2, 1, 2))))
    for sgn in (1.0, -1.0):
        out.append((f"spherical lon {sgn}", slerp_lon(3, 4, 6, "equiangular", sgn)))
        out.append((f"spherical lon down {sgn}", slerp_lon(3, 8, 6, "legendre-gauss", sgn)))
        out.append((f"spherical lat {sgn}", slerp_lat(4, 6, 3, "equiangular", "equiangular", sgn)))
        out.append((f"spherical lat lobatto {sgn}", slerp_lat(5, 4, 3, "equiangular", "legendre-gauss", sgn)))
    return out
