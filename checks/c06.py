"""Associated Legendre functions at an arbitrary (symbolic) point."""
import math

import torch

from torch_harmonics import legendre as LG
from vlib import oracle as O
from vlib.harness import F64

FUNCTIONS = ["legpoly", "_precompute_legpoly", "_precompute_dlegpoly", "clm"]
BOUNDS = "degrees and orders < 7 (thorough < 11, rectangular tables included); the evaluation point is one symbolic real x in [-1,1] (or colatitude in [0,pi]); all norms, directions, phases"


def sgn(m, cs):
    return -1.0 if (cs and m % 2) else 1.0


def pol(c, x):
    r = torch.zeros_like(x)
    for a in reversed(c):
        r = r * x + float(a)
    return r


def spec(mm, ll, x, s, norm, inverse, cs):
    """closed form: normalisation * sin^m * m-th derivative of P_l"""
    rows = []
    for m in range(mm):
        row = []
        for l in range(ll):
            if m > l:
                row.append(torch.zeros_like(x))
                continue
            k = float(O.ynorm(l, m) * O.scale(l, norm, inverse)) * sgn(m, cs)
            t = pol(O.dleg_coeffs(l, m), x) * k
            for _ in range(m):
                t = t * s
            row.append(t)
        rows.append(torch.stack(row))
    return torch.stack(rows)


def dspec(mm, ll, x, s, norm, inverse, cs):
    D, E = [], []
    for m in range(mm):
        dr, er = [], []
        for l in range(ll):
            z = torch.zeros_like(x)
            if m > l:
                dr.append(z)
                er.append(z)
                continue
            k = float(O.ynorm(l, m) * O.scale(l, norm, inverse)) * sgn(m, cs)
            p, dp = pol(O.dleg_coeffs(l, m), x), pol(O.dleg_coeffs(l, m + 1), x)
            sm1 = torch.ones_like(x)
            for _ in range(m - 1):
                sm1 = sm1 * s
            sm = sm1 * s if m > 0 else torch.ones_like(x)
            d = -(sm * s) * dp
            e = z
            if m > 0:
                d = d + m * sm1 * x * p
                e = m * sm1 * p
            dr.append(d * k)
            er.append(e * k)
        D.append(torch.stack(dr))
        E.append(torch.stack(er))
    return torch.stack((torch.stack(D), torch.stack(E)))


def poly_case(mm, ll, norm, inverse, cs):
    def run(cx):
        x = cx.inp("x", (1,), F64, -1.0, 1.0)
        got = cx.run(LG.legpoly, mm, ll, x, norm=norm, inverse=inverse, csphase=cs)
        exp = cx.run(lambda x: spec(mm, ll, x, torch.sqrt((1 + x) * (1 - x)), norm, inverse, cs), x)
        cx.eq("closed form of the associated Legendre functions", got, exp, 1e-9)

    return run


def theta_case(mm, ll, norm, inverse, cs):
    def run(cx):
        t = cx.inp("t", (1,), F64, 0.0, math.pi)

        def go(t):
            p = LG._precompute_legpoly(mm, ll, t, norm=norm, inverse=inverse, csphase=cs)
            d = LG._precompute_dlegpoly(mm, ll, t, norm=norm, inverse=inverse, csphase=cs)
            c = torch.cos(t)
            s = torch.sqrt((1 + c) * (1 - c))
            return p, d, spec(mm, ll, c, s, norm, inverse, cs), dspec(mm, ll, c, s, norm, inverse, cs)

        p, d, pe, de = cx.run(go, t)
        cx.eq("functions of colatitude", p, pe, 1e-9)
        cx.eq("theta derivative", d[0], de[0], 1e-8)
        cx.eq("order over sine times function", d[1], de[1], 1e-8)

    return run


def clm_case(cx):
    for l in range(8):
        for m in range(l + 1):
            cx.eq(f"clm {l} {m}", torch.tensor(LG.clm(l, m), dtype=F64), float(O.ynorm(l, m)), 1e-12)


def cases(tier):
    out = []
    n = 7 if tier == "quick" else 11
    for norm in ("ortho", "unnorm", "schmidt"):
        for inv in (False, True):
            for cs in (True, False):
                out.append((f"legpoly {n} {norm} inv={int(inv)} cs={int(cs)}", poly_case(n, n, norm, inv, cs)))
                out.append((f"colatitude {n-1} {norm} inv={int(inv)} cs={int(cs)}", theta_case(n - 1, n - 1, norm, inv, cs)))
    for mm, ll in [(3, 6), (6, 3), (1, 5), (5, 1), (2, 2), (1, 1)]:
        out.append((f"legpoly {mm}x{ll}", poly_case(mm, ll, "ortho", False, True)))
        out.append((f"colatitude {mm}x{ll}", theta_case(mm, ll, "schmidt", True, True)))
    out.append(("normalisation constants", clm_case))
    return out
