"""Distributed scalar transform == serial transform, any process grid."""
import torch

import torch_harmonics as th
import torch_harmonics.distributed as thd
from vlib.dist_sim import spmd, tile, untile
from vlib.harness import C128, F64

FUNCTIONS = ["DistributedRealSHT.forward", "DistributedInverseRealSHT.forward", "distributed_transpose_polar/azimuth", "_transpose", "flatten_and_pad_leading_dims", "unpad_and_unflatten_leading_dims", "their autograd", "RealSHT / InverseRealSHT (serial side)"]
BOUNDS = "process grids up to 3x3 (thorough 4x4), nlat<=9, nlon<=12, uneven splits, 1-5 leading entries; every field/coefficient entry and cotangent symbolic in [-1,1]"
NARROW = True
TOL = 1e-9


def analysis(P, Q, nlat, nlon, kw, batch, groups="both"):
    def run(cx):
        ser = th.RealSHT(nlat, nlon, **kw)
        x = cx.inp("x", batch + (nlat, nlon), F64)
        g = cx.inp("g", batch + (ser.lmax, ser.mmax), C128)

        def serial():
            a = x.clone().requires_grad_(True)
            y = ser(a)
            (d,) = torch.autograd.grad(y, a, g)
            return y, d

        def rank(r):
            m = thd.DistributedRealSHT(nlat, nlon, **kw)

            def go():
                a = tile(x, r, P, Q).clone().requires_grad_(True)
                y = m(a)
                (d,) = torch.autograd.grad(y, a, tile(g, r, P, Q).contiguous())
                return y, d

            return cx.run(go)

        ys, ds = cx.run(serial)
        out = spmd(cx, P, Q, rank, groups)
        cx.eq("gathered coefficients == serial", cx.run(untile, [[b[0] for b in row] for row in out]), ys, TOL)
        cx.eq("gathered input gradient == serial", cx.run(untile, [[b[1] for b in row] for row in out]), ds, TOL)
        for row in out:
            for y, _ in row:
                cx.fact("coefficient dtype", y.dtype == C128, str(y.dtype))

    return run


def synthesis(P, Q, nlat, nlon, kw, batch, groups="both"):
    def run(cx):
        ser = th.InverseRealSHT(nlat, nlon, **kw)
        c = cx.inp("c", batch + (ser.lmax, ser.mmax), C128)
        g = cx.inp("g", batch + (nlat, nlon), F64)

        def serial():
            a = c.clone().requires_grad_(True)
            y = ser(a)
            (d,) = torch.autograd.grad(y, a, g)
            return y, d

        def rank(r):
            m = thd.DistributedInverseRealSHT(nlat, nlon, **kw)

            def go():
                a = tile(c, r, P, Q).clone().requires_grad_(True)
                y = m(a)
                (d,) = torch.autograd.grad(y, a, tile(g, r, P, Q).contiguous())
                return y, d

            return cx.run(go)

        ys, ds = cx.run(serial)
        out = spmd(cx, P, Q, rank, groups)
        cx.eq("gathered field == serial", cx.run(untile, [[b[0] for b in row] for row in out]), ys, TOL)
        cx.eq("gathered coefficient gradient == serial", cx.run(untile, [[b[1] for b in row] for row in out]), ds, TOL)

    return run


def configs(tier):
    big = tier != "quick"
    grids = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)]
    if big:
        grids += [(3, 3), (1, 4), (4, 1), (4, 2), (2, 4), (4, 4)]
    base = [
        (6, 8, dict(grid="equiangular"), (3,)),
        (5, 9, dict(grid="legendre-gauss", norm="four-pi"), (1, 2)),
        (7, 10, dict(grid="lobatto", csphase=False), (5,)),
        (6, 12, dict(grid="legendre-gauss", lmax=5, mmax=4), (1,)),
        (6, 8, dict(grid="equiangular", norm="schmidt", lmax=4, mmax=5), (2, 2)),
    ]
    if big:
        base += [(9, 12, dict(grid="equiangular"), (4,)), (8, 15, dict(grid="legendre-gauss"), (2, 3)), (9, 11, dict(grid="lobatto", lmax=7, mmax=5), (1, 1, 3))]
    out = []
    for P, Q in grids:
        for nlat, nlon, kw, b in base:
            L, M = None, None
            ser = th.truncation.truncate_sht(nlat, nlon, kw.get("lmax"), kw.get("mmax"), kw["grid"])
            if ser[0] < P or ser[1] < Q:
                continue
            out.append((P, Q, nlat, nlon, kw, b))
    return out


def cases(tier):
    out = []
    for P, Q, nlat, nlon, kw, b in configs(tier):
        n = f"{P}x{Q} {nlat}x{nlon} {','.join(f'{k}={v}' for k, v in kw.items())} batch={b}"
        out.append(("analysis " + n, analysis(P, Q, nlat, nlon, kw, b)))
        out.append(("synthesis " + n, synthesis(P, Q, nlat, nlon, kw, b)))
    for groups, P, Q in (("none", 1, 1), ("polar", 2, 1), ("azimuth", 1, 2)):
        kw = dict(grid="equiangular")
        out.append((f"analysis groups={groups}", analysis(P, Q, 6, 8, kw, (3,), groups)))
        out.append((f"synthesis groups={groups}", synthesis(P, Q, 6, 8, kw, (3,), groups)))
    return out
