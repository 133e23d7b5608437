"""Distributed vector transform == serial transform."""
import torch

import torch_harmonics as th
import torch_harmonics.distributed as thd
from checks import c23
from vlib.dist_sim import spmd, tile, untile
from vlib.harness import C128, F64

FUNCTIONS = ["DistributedRealVectorSHT.forward", "DistributedInverseRealVectorSHT.forward", "distributed_transpose_polar/azimuth", "flatten_and_pad_leading_dims", "unpad_and_unflatten_leading_dims", "their autograd", "RealVectorSHT / InverseRealVectorSHT (serial side)"]
BOUNDS = "process grids up to 3x2 / 2x3 (thorough 4x4), nlat<=9, nlon<=12, uneven splits, 1-5 leading entries; all entries and cotangents symbolic in [-1,1]"
NARROW = True
TOL = 1e-9


def case(P, Q, nlat, nlon, kw, batch, inverse, groups="both"):
    def run(cx):
        ser = (th.InverseRealVectorSHT if inverse else th.RealVectorSHT)(nlat, nlon, **kw)
        spec, grid = batch + (2, ser.lmax, ser.mmax), batch + (2, nlat, nlon)
        x = cx.inp("c", spec, C128) if inverse else cx.inp("x", grid, F64)
        g = cx.inp("g", grid, F64) if inverse else cx.inp("g", spec, C128)

        def serial():
            a = x.clone().requires_grad_(True)
            y = ser(a)
            (d,) = torch.autograd.grad(y, a, g)
            return y, d

        def rank(r):
            m = (thd.DistributedInverseRealVectorSHT if inverse else thd.DistributedRealVectorSHT)(nlat, nlon, **kw)

            def go():
                a = tile(x, r, P, Q).clone().requires_grad_(True)
                y = m(a)
                (d,) = torch.autograd.grad(y, a, tile(g, r, P, Q).contiguous())
                return y, d

            return cx.run(go)

        ys, ds = cx.run(serial)
        out = spmd(cx, P, Q, rank, groups)
        cx.eq("gathered output == serial", cx.run(untile, [[b[0] for b in row] for row in out]), ys, TOL)
        cx.eq("gathered input gradient == serial", cx.run(untile, [[b[1] for b in row] for row in out]), ds, TOL)

    return run


def cases(tier):
    out = []
    for P, Q, nlat, nlon, kw, b in c23.configs(tier):
        n = f"{P}x{Q} {nlat}x{nlon} {','.join(f'{k}={v}' for k, v in kw.items())} batch={b}"
        out.append(("analysis " + n, case(P, Q, nlat, nlon, kw, b, False)))
        out.append(("synthesis " + n, case(P, Q, nlat, nlon, kw, b, True)))
    for groups, P, Q in (("none", 1, 1), ("polar", 2, 1), ("azimuth", 1, 2)):
        kw = dict(grid="equiangular")
        out.append((f"analysis groups={groups}", case(P, Q, 6, 8, kw, (2,), False, groups)))
        out.append((f"synthesis groups={groups}", case(P, Q, 6, 8, kw, (2,), True, groups)))
    return out
