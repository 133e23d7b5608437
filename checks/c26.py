"""Distributed resampling and quadrature == serial."""
import torch

import torch_harmonics as th
import torch_harmonics.distributed as thd
from vlib.dist_sim import spmd, tile, untile
from vlib.harness import F64

FUNCTIONS = ["DistributedResampleS2.forward", "DistributedQuadratureS2.forward", "distributed_transpose_*", "reduce_from_*_region", "copy_to_azimuth_region", "autograd", "ResampleS2 / QuadratureS2 (serial side)"]
BOUNDS = "process grids up to 3x2/2x3 (thorough 4x3), input <=7x9 output <=9x12, 3-5 channels, all entries and cotangents symbolic in [-1,1] (spherical mode: separated ranges, values only along one axis)"
NARROW = True
TOL = 1e-9


def resample(P, Q, a, b, c, d, gi, go, ch, mode="bilinear", groups="both"):
    def run(cx):
        ser = th.ResampleS2(a, b, c, d, grid_in=gi, grid_out=go, mode=mode)
        if mode == "bilinear":
            x = cx.inp("x", (1, ch, a, b), F64)
        else:
            base = torch.tensor([[(0.5 if (i + j) % 2 else 0.0) for j in range(b)] for i in range(a)], dtype=F64)
            x = cx.run(lambda: cx.inp("x", (1, ch, a, b), F64, -0.02, 0.02) + base)
        g = cx.inp("g", (1, ch, c, d), F64)

        def serial():
            v = x.clone().requires_grad_(True)
            y = ser(v)
            (dv,) = torch.autograd.grad(y, v, g)
            return y, dv

        def rank(r):
            m = thd.DistributedResampleS2(a, b, c, d, grid_in=gi, grid_out=go, mode=mode)

            def go_():
                v = tile(x, r, P, Q).clone().requires_grad_(True)
                y = m(v)
                (dv,) = torch.autograd.grad(y, v, tile(g, r, P, Q).contiguous())
                return y, dv

            return cx.run(go_)

        y, dy = cx.run(serial)
        out = spmd(cx, P, Q, rank, groups)
        cx.eq("gathered result == serial", cx.run(untile, [[o[0] for o in row] for row in out]), y, TOL)
        if mode == "bilinear":
            cx.eq("gathered input gradient == serial", cx.run(untile, [[o[1] for o in row] for row in out]), dy, TOL)

    return run


def quad(P, Q, nlat, nlon, grid, norm, lead, groups="both"):
    def run(cx):
        ser = th.QuadratureS2((nlat, nlon), grid=grid, normalize=norm)
        x = cx.inp("x", lead + (nlat, nlon), F64)
        g = cx.inp("g", lead, F64)

        def serial():
            v = x.clone().requires_grad_(True)
            y = ser(v)
            (dv,) = torch.autograd.grad(y, v, g)
            return y, dv

        def rank(r):
            m = thd.DistributedQuadratureS2((nlat, nlon), grid=grid, normalize=norm)

            def go_():
                v = tile(x, r, P, Q).clone().requires_grad_(True)
                y = m(v)
                (dv,) = torch.autograd.grad(y, v, g)
                return y, dv

            return cx.run(go_)

        y, dy = cx.run(serial)
        out = spmd(cx, P, Q, rank, groups)
        for row in out:
            for o in row:
                cx.eq("every rank holds the serial integral", o[0], y, TOL)
        cx.eq("gathered gradient == serial", cx.run(untile, [[o[1] for o in row] for row in out]), dy, TOL)

    return run


def cases(tier):
    big = tier != "quick"
    out = []
    grids = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] + ([(4, 1), (1, 4), (3, 3), (4, 3)] if big else [])
    sizes = [(5, 8, 7, 9, "equiangular", "equiangular", 3), (6, 9, 5, 6, "legendre-gauss", "equiangular", 4), (4, 6, 9, 12, "legendre-gauss", "lobatto", 5), (6, 8, 6, 8, "equiangular", "equiangular", 3), (5, 6, 7, 6, "lobatto", "legendre-gauss", 3)]
    for P, Q in grids:
        for a, b, c, d, gi, go, ch in sizes:
            if ch < max(P, Q):
                continue
            out.append((f"resample {P}x{Q} {gi}->{go} {a}x{b}->{c}x{d} ch={ch}", resample(P, Q, a, b, c, d, gi, go, ch)))
        if P * Q <= 4 or big:
            out.append((f"resample spherical lat {P}x{Q}", resample(P, Q, 5, 4, 7, 4, "equiangular", "equiangular", max(P, Q, 2), "bilinear-spherical")))
            out.append((f"resample spherical lon {P}x{Q}", resample(P, Q, 4, 6, 4, 9, "equiangular", "equiangular", max(P, Q, 2), "bilinear-spherical")))
        for grid in ("equiangular", "legendre-gauss", "lobatto"):
            for norm in (False, True):
                out.append((f"quadrature {P}x{Q} {grid} norm={norm}", quad(P, Q, 7, 10, grid, norm, (1, 2))))
        out.append((f"quadrature {P}x{Q} small", quad(P, Q, max(4, P), max(5, Q), "equiangular", False, (2, 1))))
    for groups, P, Q in (("none", 1, 1), ("polar", 2, 1), ("azimuth", 1, 2)):
        out.append((f"resample groups={groups}", resample(P, Q, 5, 8, 7, 9, "equiangular", "legendre-gauss", 3, groups=groups)))
        out.append((f"quadrature groups={groups}", quad(P, Q, 7, 10, "equiangular", True, (1, 2), groups)))
    return out
