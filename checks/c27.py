"""Distributed spectral convolution == serial layer with the sharded parameters."""
import torch

import torch_harmonics as th
import torch_harmonics.distributed as thd
from vlib.dist_sim import block, spmd, tile, untile
from vlib.harness import C64, F32
from vlib.util import set_param

FUNCTIONS = ["DistributedSpectralConvS2.forward", "DistributedRealSHT/InverseRealSHT.forward", "DistributedQuadratureS2.forward", "copy_to_*/reduce_from_* regions", "autograd", "SpectralConvS2 (serial side)"]
BOUNDS = "process grids up to 3x2/2x3, grids nlat<=6, nlon<=8, <=2 channels, <=2 groups; input, weights, bias, cotangents symbolic in [-1,1]; single-precision layer (tolerance 1e-5 forward, 1e-4 gradients); weight gradients summed over the azimuth group as the documentation requires"
TOL = 1e-5


def case(P, Q, ish, osh, cin, cout, groups, gi, go, bias, grp="both"):
    def run(cx):
        kw = dict(num_groups=groups, grid_in=gi, grid_out=go, bias=bias)
        ser = th.SpectralConvS2(ish, osh, cin, cout, **kw)
        L = ser.weight.shape[-1]
        x = cx.inp("x", (1, cin) + ish, F32)
        w = cx.inp("w", (groups, cin // groups, cout // groups, L), C64)
        b = cx.inp("b", (1, cin, L, L), C64) if bias else None
        g = cx.inp("g", (1, cout) + osh, F32)

        def apply(m, x, w, b, g):
            vs = [x.clone().requires_grad_(True), w.clone().requires_grad_(True)] + ([b.clone().requires_grad_(True)] if bias else [])
            set_param(m, "weight", vs[1])
            if bias:
                set_param(m, "spectral_bias", vs[2])
            y = m(vs[0])
            return y, torch.autograd.grad(y, vs, g)

        def rank(r):
            m = thd.DistributedSpectralConvS2(ish, osh, cin, cout, **kw)
            cx.fact("weight shard", tuple(m.weight.shape) == tuple(block(w, r.p, P, -1).shape), str(tuple(m.weight.shape)))
            return cx.run(lambda: apply(m, tile(x, r, P, Q), block(w, r.p, P, -1), tile(b, r, P, Q) if bias else None, tile(g, r, P, Q).contiguous()))

        y, dy = cx.run(lambda: apply(ser, x, w, b, g))
        out = spmd(cx, P, Q, rank, grp)
        cx.eq("gathered output == serial", cx.run(untile, [[o[0] for o in row] for row in out]), y, TOL)
        cx.eq("gathered input gradient == serial", cx.run(untile, [[o[1][0] for o in row] for row in out]), dy[0], 1e-4)

        def wg():
            parts = []
            for row in out:
                t = row[0][1][1]
                for o in row[1:]:
                    t = t + o[1][1]
                parts.append(t)
            return torch.cat(parts, -1)

        cx.eq("weight gradient (summed over azimuth) == serial", cx.run(wg), dy[1], 1e-4)
        if bias:
            cx.eq("bias gradient == serial", cx.run(untile, [[o[1][2] for o in row] for row in out]), dy[2], 1e-4)

    return run


def cases(tier):
    big = tier != "quick"
    out = []
    grids = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] + ([(3, 3), (4, 1), (1, 4)] if big else [])
    cf = [
        ((4, 6), (4, 6), 1, 1, 1, "legendre-gauss", "legendre-gauss", False),
        ((4, 7), (5, 6), 2, 2, 1, "legendre-gauss", "equiangular", False),
        ((4, 6), (4, 6), 2, 2, 2, "legendre-gauss", "lobatto", True),
        ((5, 8), (4, 6), 1, 2, 1, "equiangular", "legendre-gauss", True),
    ]
    if big:
        cf += [((6, 8), (6, 8), 2, 2, 1, "legendre-gauss", "legendre-gauss", True)]
    for P, Q in grids:
        for c in cf:
            L = min(th.truncation.truncate_sht(*c[0], grid=c[5]) + th.truncation.truncate_sht(*c[1], grid=c[6]))
            if L < max(P, Q):
                continue
            out.append((f"{P}x{Q} {c[5]} {c[0]}->{c[6]} {c[1]} ch {c[2]}->{c[3]} groups={c[4]} bias={c[7]}", case(P, Q, *c)))
    for grp, P, Q in (("none", 1, 1), ("polar", 2, 1), ("azimuth", 1, 2)):
        out.append((f"groups={grp}", case(P, Q, *cf[2], grp)))
    return out
