"""Spectral truncation rules, over symbolic integers."""
from torch_harmonics.truncation import truncate_sht
from vlib import symint  # noqa: F401

FUNCTIONS = ["truncate_sht", "_truncate_lmax", "_truncate_mmax"]
BOUNDS = "nlat, nlon symbolic integers in [2, 10^6]; user lmax/mmax absent or symbolic in [1, 10^6]; all four grid types; all paths"
N = 10**6


def case(grid, ul, um):
    def run(cx):
        nlat, nlon = cx.int_inp("nlat", 2, N), cx.int_inp("nlon", 2, N)
        lm = cx.int_inp("lmax", 1, N) if ul else None
        mm = cx.int_inp("mmax", 1, N) if um else None
        if not ul and not um and grid == "equiangular" :
            l, m = truncate_sht(nlat, nlon)
        else:
            l, m = truncate_sht(nlat, nlon, lm, mm, grid)
        dl = {"legendre-gauss": nlat, "lobatto": nlat - 1}.get(grid, (nlat + 1) // 2) if not ul else lm
        dm = nlon // 2 + 1 if not um else mm
        cx.holds("lmax equals mmax (triangular)", l == m)
        cx.holds("lmax does not exceed the degree limit", l <= dl)
        cx.holds("mmax does not exceed the order limit", m <= dm)
        cx.holds("one of the limits is attained", (l == dl) | (l == dm))
        cx.holds("at least one degree is kept", l >= 1)
        if not ul:
            # products of two kept harmonics are integrated exactly by the grid's rule
            exact = {"legendre-gauss": 2 * nlat - 1, "lobatto": 2 * nlat - 3}.get(grid, nlat - 1)
            cx.holds("default truncation stays within the exactness of the quadrature", 2 * (l - 1) <= exact)
        if not um:
            cx.holds("default orders do not exceed Nyquist", 2 * (m - 1) <= nlon)

    return run


def bad(cx):
    n = cx.int_inp("nlat", 2, N)
    try:
        truncate_sht(n, 2 * n, grid="healpix")
        ok = False
    except ValueError:
        ok = True
    cx.fact("unknown grid is refused", ok)


def cases(tier):
    out = [(f"{g} lmax={'user' if a else 'default'} mmax={'user' if b else 'default'}", case(g, a, b)) for g in ("legendre-gauss", "lobatto", "equiangular", "equiangular-trapezoidal") for a in (0, 1) for b in (0, 1)]
    return out + [("unknown grid", bad)]
