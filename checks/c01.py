"""Scalar transform round trip."""
import torch

import torch_harmonics as th
from vlib.harness import C128, F64

FUNCTIONS = ["RealSHT.forward", "InverseRealSHT.forward", "fft.rfft", "fft.irfft", "truncate_sht (configuration)", "_precompute_legpoly / quadrature (concrete tables)"]
NARROW = True
BOUNDS = "grids with nlat<=9 (thorough: <=21), nlon<=16 (thorough: <=40), every coefficient a symbolic complex number with |re|,|im|<=1, batch shapes () to (2,2)"


def hermitian(c, nlon):
    """Coefficients of a real field: order 0 (and the Nyquist order) are real."""
    keep = torch.ones(c.shape[-1], dtype=torch.float64)
    keep[0] = 0
    if nlon % 2 == 0 and nlon // 2 < c.shape[-1]:
        keep[nlon // 2] = 0
    tri = torch.tril(torch.ones(c.shape[-2], c.shape[-1], dtype=torch.float64))
    return torch.complex(c.real * tri, c.imag * tri * keep)


def case(nlat, nlon, grid, norm, cs, lmax, mmax, batch):
    def run(cx):
        sht = th.RealSHT(nlat, nlon, lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=cs)
        isht = th.InverseRealSHT(nlat, nlon, lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=cs)
        c = cx.inp("c", batch + (isht.lmax, isht.mmax), C128)

        def both(c):
            f = isht(c)
            c2 = sht(f)
            f2 = isht(c2)
            c3 = sht(f2)
            return f, c2, f2, c3

        f, c2, f2, c3 = cx.run(both, c)
        cx.fact("field dtype", f.dtype == F64 and c2.dtype == C128, f"{f.dtype} {c2.dtype}")
        cx.eq("analysis(synthesis(c)) == c", c2, cx.run(hermitian, c, nlon))
        cx.eq("synthesis(analysis(f)) == f on band-limited f", f2, f)
        cx.eq("repeated analysis", c3, c2)

    return run


def cases(tier):
    out = []
    big = tier != "quick"
    grids = [("equiangular", [5, 6, 9]), ("legendre-gauss", [4, 5, 8]), ("lobatto", [4, 5, 7])]
    lons = [8, 9, 12, 16]
    if big:
        grids = [("equiangular", [3, 5, 6, 9, 12, 17, 21]), ("legendre-gauss", [2, 3, 4, 5, 8, 12, 16]), ("lobatto", [3, 4, 5, 7, 11, 15])]
        lons = [4, 5, 7, 8, 9, 12, 16, 24, 31, 40]
    norms = ["ortho", "four-pi", "schmidt"]
    for grid, lats in grids:
        for nlat in lats:
            for nlon in lons:
                for norm in norms:
                    for cs in (True, False):
                        if not big and (nlat, nlon) not in ((lats[0], lons[0]), (lats[1], lons[1]), (lats[2], lons[2]), (lats[2], lons[3])) :
                            continue
                        out.append((f"{grid} {nlat}x{nlon} {norm} cs={int(cs)}", case(nlat, nlon, grid, norm, cs, None, None, ())))
    for grid, nlat, nlon, lm, mm, b in [("legendre-gauss", 6, 12, 4, None, (2,)), ("equiangular", 9, 16, 3, 5, (2, 2)), ("lobatto", 6, 12, 5, 3, (1, 2)), ("legendre-gauss", 5, 6, None, None, (2,)), ("legendre-gauss", 6, 10, 6, 6, (2,)), ("lobatto", 7, 7, None, 2, ())]:
        out.append((f"trunc {grid} {nlat}x{nlon} {lm},{mm} batch={b}", case(nlat, nlon, grid, "ortho", True, lm, mm, b)))
    return out
