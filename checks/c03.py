"""Vector transform: definition, round trip, gradient/rotational structure."""
import torch

import torch_harmonics as th
from vlib import oracle as O
from vlib.harness import C128, F64

FUNCTIONS = ["RealVectorSHT.forward", "InverseRealVectorSHT.forward", "RealSHT.forward", "InverseRealSHT.forward", "rfft", "irfft", "autograd of both", "_precompute_dlegpoly and quadrature tables (concrete)"]
NARROW = True
BOUNDS = "nlat<=9 (thorough <=15), nlon<=16 (thorough <=30); coefficients and fields symbolic in [-1,1]; round trip for orders below the Nyquist order"
TOL = 1e-8


def masks(L, M, nlon):
    tri = torch.tril(torch.ones(L, M, dtype=F64))
    tri[0] = 0  # degree 0 has no vector harmonic
    keep = torch.ones(M, dtype=F64)
    if nlon % 2 == 0 and nlon // 2 < M:
        keep[nlon // 2] = 0
    re = tri * keep
    im = re.clone()
    im[:, 0] = 0
    return re, im


def synth(c, nlat, nlon, grid, norm, cs):
    L, M = c.shape[-2:]
    D = O.table("dp", L, M, nlat, grid, cs, norm, True)
    E = O.table("mp", L, M, nlat, grid, cs, norm, True)
    co, si = O.trig(M, nlon)
    w = O.mweight(M, nlon)
    one = (w == 2.0).to(F64)
    s, t = c[..., 0, :, :], c[..., 1, :, :]

    def e(x, T):
        return torch.einsum("...lm,lmk->...mk", x, T)

    th_re = e(s.real, D) - e(t.imag, E)
    th_im = e(s.imag, D) + e(t.real, E)
    la_re = -e(s.imag, E) - e(t.real, D)
    la_im = e(s.real, E) - e(t.imag, D)

    def field(re, im):
        return torch.einsum("...mk,mj->...kj", re, co * w[:, None]) - torch.einsum("...mk,mj->...kj", im, si * (w * one)[:, None])

    return torch.stack((field(th_re, th_im), field(la_re, la_im)), dim=-3)


def analysis(f, L, M, grid, norm, cs):
    nlat, nlon = f.shape[-2:]
    D = O.table("dp", L, M, nlat, grid, cs, norm, False)
    E = O.table("mp", L, M, nlat, grid, cs, norm, False)
    q = O.T([float(x) for x in O.nodes(nlat, grid)[1]])
    n = O.T([1.0] + [1.0 / (l * (l + 1)) for l in range(1, L)])
    co, si = O.trig(M, nlon)
    sc = 2 * torch.pi / nlon
    re = torch.einsum("...kj,mj->...mk", f, co) * sc
    im = -torch.einsum("...kj,mj->...mk", f, si) * sc
    tr, ti, lr, li = re[..., 0, :, :], im[..., 0, :, :], re[..., 1, :, :], im[..., 1, :, :]
    D, E = D * q * n[:, None, None], E * q * n[:, None, None]

    def e(x, T):
        return torch.einsum("...mk,lmk->...lm", x, T)

    # conj(dY/dlambda)/sin = -i m P/sin
    s = torch.complex(e(tr, D) + e(li, E), e(ti, D) - e(lr, E))
    t = torch.complex(e(ti, E) - e(lr, D), -e(tr, E) - e(li, D))
    return torch.stack((s, t), dim=-3)


def case(nlat, nlon, grid, norm, cs, lmax, mmax, batch):
    def run(cx):
        kw = dict(lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=cs)
        vsht, ivsht = th.RealVectorSHT(nlat, nlon, **kw), th.InverseRealVectorSHT(nlat, nlon, **kw)
        c = cx.inp("c", batch + (2, ivsht.lmax, ivsht.mmax), C128)
        f = cx.inp("f", batch + (2, nlat, nlon), F64)
        c.requires_grad_(True)
        f.requires_grad_(True)
        y = cx.run(ivsht, c)
        a = cx.run(vsht, f)
        ye = cx.run(synth, c, nlat, nlon, grid, norm, cs)
        ae = cx.run(analysis, f, vsht.lmax, vsht.mmax, grid, norm, cs)
        cx.fact("dtypes", y.dtype == F64 and a.dtype == C128, f"{y.dtype}, {a.dtype}")
        cx.eq("vector synthesis is the documented sum", y, ye, TOL)
        cx.eq("vector analysis is the documented projection", a, ae, TOL)
        u = cx.inp("u", y.shape, F64)
        v = cx.inp("v", a.shape, C128)
        gy, = cx.run(torch.autograd.grad, y, c, u)
        ga, = cx.run(torch.autograd.grad, a, f, v)
        gye, = cx.run(torch.autograd.grad, ye, c, u)
        gae, = cx.run(torch.autograd.grad, ae, f, v)
        cx.eq("gradient of vector synthesis", gy, gye, TOL)
        cx.eq("gradient of vector analysis", ga, gae, TOL)

    return run


def trip(nlat, nlon, grid, norm, cs, lmax, mmax, batch):
    def run(cx):
        kw = dict(lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=cs)
        vsht, ivsht = th.RealVectorSHT(nlat, nlon, **kw), th.InverseRealVectorSHT(nlat, nlon, **kw)
        c = cx.inp("c", batch + (2, ivsht.lmax, ivsht.mmax), C128)
        re, im = masks(ivsht.lmax, ivsht.mmax, nlon)

        def go(c):
            c = torch.complex(c.real * re, c.imag * im)
            f = ivsht(c)
            c2 = vsht(f)
            g = ivsht(c2)
            # spheroidal-only and toroidal-only parts stay separated
            z = torch.zeros_like(c[..., 0:1, :, :])
            s = vsht(ivsht(torch.cat((c[..., 0:1, :, :], z), dim=-3)))
            t = vsht(ivsht(torch.cat((z, c[..., 1:2, :, :]), dim=-3)))
            return c, f, c2, g, s, t

        c, f, c2, g, s, t = cx.run(go, c)
        cx.eq("analysis(synthesis(c)) == c", c2, c, TOL)
        cx.eq("synthesis(analysis(v)) == v", g, f, TOL)
        cx.eq("gradient field has no toroidal part", s[..., 1, :, :], 0.0, TOL)
        cx.eq("rotational field has no spheroidal part", t[..., 0, :, :], 0.0, TOL)

    return run


def cases(tier):
    out = []
    big = tier != "quick"
    cfg = [("equiangular", 5, 9), ("equiangular", 8, 16), ("legendre-gauss", 4, 8), ("legendre-gauss", 7, 14), ("lobatto", 5, 8), ("lobatto", 8, 15)]
    if big:
        cfg += [("equiangular", 11, 21), ("equiangular", 15, 30), ("legendre-gauss", 10, 20), ("legendre-gauss", 12, 25), ("lobatto", 11, 20), ("legendre-gauss", 2, 4), ("lobatto", 3, 5)]
    for grid, nlat, nlon in cfg:
        for norm in ("ortho", "unnorm", "schmidt"):
            for cs in (True, False):
                out.append((f"def {grid} {nlat}x{nlon} {norm} cs={int(cs)}", case(nlat, nlon, grid, norm, cs, None, None, ())))
                out.append((f"trip {grid} {nlat}x{nlon} {norm} cs={int(cs)}", trip(nlat, nlon, grid, norm, cs, None, None, ())))
    for grid, nlat, nlon, lm, mm, b in [("legendre-gauss", 6, 12, 4, None, (2,)), ("equiangular", 9, 16, 3, 5, (2, 2)), ("lobatto", 6, 12, 5, 3, (1, 2)), ("legendre-gauss", 8, 6, None, None, (2,))]:
        out.append((f"def trunc {grid} {nlat}x{nlon} {lm},{mm} batch={b}", case(nlat, nlon, grid, "ortho", True, lm, mm, b)))
        out.append((f"trip trunc {grid} {nlat}x{nlon} {lm},{mm} batch={b}", trip(nlat, nlon, grid, "ortho", True, lm, mm, b)))
    return out
