"""Spectral convolution = degree-wise channel mixing between analysis and synthesis."""
import torch

import torch_harmonics as th
from checks import c02
from vlib import oracle as O
from vlib.harness import C64, F32, F64
from vlib.util import set_param

FUNCTIONS = ["SpectralConvS2.__init__ (truncation)", "SpectralConvS2.forward", "_contract_lwise", "RealSHT/InverseRealSHT/QuadratureS2 forward", "autograd"]
BOUNDS = "grids nlat<=6, nlon<=10 (thorough <=9x16), <=4 channels, <=2 groups, batch<=2; input, weights, bias and cotangent entries symbolic in [-1,1]; the layer computes in single precision (tolerance 2e-5)"
TOL = 2e-5


def spec(x, w, b, gi, go, out_shape, L, groups):
    B, C = x.shape[:2]
    u = c02.analysis(x, L, L, gi, "ortho", True)
    if b is not None:
        q = O.T([float(v) for v in O.nodes(x.shape[-2], gi)[1]]) * (2 * torch.pi / x.shape[-1])
        I = torch.einsum("bckj,k->bc", x, q)
        u = u + I.reshape(B, C, 1, 1) * b
    ci, co = w.shape[1], w.shape[2]
    outs = []
    for g in range(groups):
        for o in range(co):
            acc = None
            for i in range(ci):
                t = w[g, i, o].reshape(1, -1, 1) * u[:, g * ci + i]
                acc = t if acc is None else acc + t
            outs.append(acc)
    v = torch.stack(outs, 1)
    return c02.synth(v, *out_shape, go, "ortho", True)


def case(ish, osh, cin, cout, groups, gi, go, bias, B, fixed=None):
    def run(cx):
        m = th.SpectralConvS2(ish, osh, cin, cout, num_groups=groups, grid_in=gi, grid_out=go, bias=bias)
        li, mi = th.truncation.truncate_sht(*ish, grid=gi)
        lo, mo = th.truncation.truncate_sht(*osh, grid=go)
        L = min(li, lo, mi, mo)
        cx.fact("truncation", m.weight.shape[-1] == L, str(tuple(m.weight.shape)))
        x = cx.inp("x", (B, cin) + ish, F32)
        w = cx.inp("w", (groups, cin // groups, cout // groups, L), C64)
        b = cx.inp("b", (1, cin, L, L), C64) if bias else None
        # keep the number of joint products small: only some samples vary when weights vary too
        g = cx.inp("g", (B, cout) + osh, F32)

        def go_(f, vars_):
            y = f(*vars_)
            return y, torch.autograd.grad(y, [v for v in vars_ if v is not None], g)

        def real(x, w, b):
            set_param(m, "weight", w)
            if b is not None:
                set_param(m, "spectral_bias", b)
            return m(x)

        def both(f):
            vs = [x.clone().requires_grad_(True), w.clone().requires_grad_(True), b.clone().requires_grad_(True) if bias else None]
            return go_(f, vs)

        y, dy = cx.run(both, real)
        e, de = cx.run(both, lambda x, w, b: spec(x.to(F64), w.to(torch.complex128), b.to(torch.complex128) if bias else None, gi, go, osh, L, groups).to(F32))
        cx.eq("output is the degree-wise filtered field", y, e, TOL)
        for n, a, c in zip(("input", "weight", "bias"), dy, de):
            cx.eq(f"gradient with respect to the {n}", a, c, 2e-4)
        cx.fact("dtype kept", y.dtype == x.dtype, str(y.dtype))

    return run


def cases(tier):
    big = tier != "quick"
    out = []
    cf = [
        ((4, 6), (4, 6), 1, 1, 1, "equiangular", "equiangular", False, 1),
        ((4, 6), (4, 6), 2, 2, 1, "legendre-gauss", "legendre-gauss", False, 1),
        ((4, 6), (3, 5), 2, 2, 2, "legendre-gauss", "legendre-gauss", True, 1),
        ((3, 4), (5, 8), 2, 1, 1, "legendre-gauss", "equiangular", True, 1),
        ((5, 8), (4, 7), 1, 2, 1, "lobatto", "legendre-gauss", False, 1),
        ((3, 4), (3, 4), 4, 2, 2, "legendre-gauss", "legendre-gauss", False, 1),
        ((3, 4), (3, 4), 1, 2, 1, "legendre-gauss", "legendre-gauss", True, 2),
        ((5, 6), (4, 6), 1, 1, 1, "equiangular", "lobatto", True, 1),
    ]
    if big:
        cf += [((6, 10), (6, 10), 2, 2, 1, "equiangular", "legendre-gauss", True, 1), ((5, 8), (6, 10), 2, 4, 2, "legendre-gauss", "equiangular", True, 1), ((8, 16), (6, 12), 1, 1, 1, "legendre-gauss", "equiangular", False, 1), ((9, 16), (9, 16), 1, 1, 1, "equiangular", "equiangular", True, 1)]
    for c in cf:
        out.append((f"{c[5]} {c[0]}->{c[6]} {c[1]} ch {c[2]}->{c[3]} groups={c[4]} bias={c[7]} batch={c[8]}", case(*c)))
    return out
