"""Synthesis and analysis follow the spherical-harmonic definition."""
import torch

import torch_harmonics as th
from vlib import oracle as O
from vlib.harness import C128, F64

FUNCTIONS = ["RealSHT.forward", "InverseRealSHT.forward", "rfft", "irfft", "their autograd derivatives", "legpoly and quadrature tables (concrete)"]
NARROW = True
BOUNDS = "nlat<=9 (thorough <=17), nlon<=16 (thorough <=33); fields/coefficients symbolic in [-1,1]; orders below or at the Nyquist order"


def synth(c, nlat, nlon, grid, norm, cs):
    L, M = c.shape[-2:]
    P = O.table("p", L, M, nlat, grid, cs, norm, True)
    co, si = O.trig(M, nlon)
    w = O.mweight(M, nlon)
    re = torch.einsum("...lm,lmk->...mk", c.real, P)
    im = torch.einsum("...lm,lmk->...mk", c.imag, P)
    si = si * (w == 2.0)[:, None]
    return torch.einsum("...mk,mj->...kj", re, co * w[:, None]) - torch.einsum("...mk,mj->...kj", im, si * w[:, None])


def analysis(f, L, M, grid, norm, cs):
    nlat, nlon = f.shape[-2:]
    P = O.table("p", L, M, nlat, grid, cs, norm, False)
    q = O.T([float(x) for x in O.nodes(nlat, grid)[1]])
    co, si = O.trig(M, nlon)
    s = 2 * torch.pi / nlon
    g = torch.einsum("...kj,mj->...mk", f, co) * s
    h = -torch.einsum("...kj,mj->...mk", f, si) * s
    W = P * q
    return torch.complex(torch.einsum("...mk,lmk->...lm", g, W), torch.einsum("...mk,lmk->...lm", h, W))


def case(nlat, nlon, grid, norm, cs, lmax, mmax, batch):
    def run(cx):
        sht = th.RealSHT(nlat, nlon, lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=cs)
        isht = th.InverseRealSHT(nlat, nlon, lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=cs)
        c = cx.inp("c", batch + (isht.lmax, isht.mmax), C128)
        f = cx.inp("f", batch + (nlat, nlon), F64)
        c.requires_grad_(True)
        f.requires_grad_(True)
        y = cx.run(isht, c)
        a = cx.run(sht, f)
        ye = cx.run(synth, c, nlat, nlon, grid, norm, cs)
        ae = cx.run(analysis, f, sht.lmax, sht.mmax, grid, norm, cs)
        cx.fact("dtypes", y.dtype == F64 and a.dtype == C128, f"{y.dtype}, {a.dtype}")
        cx.eq("synthesis is the harmonic sum", y, ye)
        cx.eq("analysis is the quadrature projection", a, ae)
        u = cx.inp("u", y.shape, F64)
        v = cx.inp("v", a.shape, C128)
        gy, = cx.run(torch.autograd.grad, y, c, u)
        ga, = cx.run(torch.autograd.grad, a, f, v)
        gye, = cx.run(torch.autograd.grad, ye, c, u)
        gae, = cx.run(torch.autograd.grad, ae, f, v)
        cx.eq("gradient of synthesis", gy, gye)
        cx.eq("gradient of analysis", ga, gae)

    return run


def cases(tier):
    out = []
    big = tier != "quick"
    cfg = [("equiangular", 5, 8), ("equiangular", 6, 9), ("equiangular", 9, 16), ("legendre-gauss", 4, 8), ("legendre-gauss", 5, 9), ("legendre-gauss", 8, 13), ("lobatto", 4, 8), ("lobatto", 5, 7), ("lobatto", 7, 12)]
    if big:
        cfg += [("equiangular", 12, 24), ("equiangular", 17, 33), ("legendre-gauss", 12, 24), ("legendre-gauss", 16, 31), ("lobatto", 11, 20), ("lobatto", 14, 27), ("legendre-gauss", 2, 4), ("lobatto", 3, 4), ("equiangular", 3, 4)]
    for grid, nlat, nlon in cfg:
        for norm in ("ortho", "unnorm", "schmidt"):
            for cs in (True, False):
                out.append((f"{grid} {nlat}x{nlon} {norm} cs={int(cs)}", case(nlat, nlon, grid, norm, cs, None, None, ())))
    for grid, nlat, nlon, lm, mm, b in [("legendre-gauss", 6, 12, 4, None, (2,)), ("equiangular", 9, 16, 3, 5, (2, 2)), ("lobatto", 6, 12, 5, 3, (1, 2)), ("legendre-gauss", 8, 6, None, None, (2,)), ("equiangular", 5, 16, 7, 7, ()), ("equiangular", 6, 10, 6, 6, (2,))]:
        out.append((f"trunc {grid} {nlat}x{nlon} {lm},{mm} batch={b}", case(nlat, nlon, grid, "ortho", True, lm, mm, b)))
    return out
