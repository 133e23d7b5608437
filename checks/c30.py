"""C30: result shapes and dtypes, for every batch size, in eager mode and as predicted to torch.compile."""
import torch

import torch_harmonics as th
from vlib import shapes  # noqa: F401
from vlib.harness import C64, C128, F32, F64

FUNCTIONS = ["RealSHT.forward", "InverseRealSHT.forward", "RealVectorSHT.forward", "InverseRealVectorSHT.forward", "QuadratureS2.forward", "SpectralConvS2.forward", "DiscreteContinuousConvS2.forward", "DiscreteContinuousConvTransposeS2.forward", "NeighborhoodAttentionS2.forward", "AttentionS2.forward", "register_fake kernels of disco_kernels and attention_kernels (forward and backward)", "autograd formulas of the custom operators (shapes)"]
BOUNDS = "batch and leading extents symbolic in 1..4096 (transforms and SpectralConvS2: 1..12, or 1..4 each for two, because PyTorch's symbolic FFT fixes the batch on every path); the listed grids, channels, groups, heads and dtypes; gradients with respect to every input and parameter; ResampleS2 and the torch references of DISCO and attention are outside (data-dependent and sparse operators have no symbolic shapes)"
ASSUME = ["shape semantics of aten operators are those of PyTorch's fake kernels; the solver's sample of each path is also run on the real code"]


def layer(name, build, tensors, out, dtype=F32, odtype=None, params=True, hi=4096):
    """out(sizes) -> shape of the result."""

    def case(cx):
        torch.manual_seed(0)
        m = build()
        if dtype not in (F32, C64):
            m = m.to({C128: F64}.get(dtype, dtype))
        ps = [p for p in m.parameters() if p.requires_grad] if params else []

        def fn(*ts):
            y = m(*ts)
            loss = (y * y.detach()).sum() if not y.is_complex() else torch.view_as_real(y).sum()
            gs = torch.autograd.grad(loss, list(ts) + ps)
            return [y] + list(gs)

        def want(s):
            v = lambda d: d if isinstance(d, int) else s[d]  # noqa: E731
            r = [(out(s), odtype or dtype)] + [([v(d) for d in t], dtype) for t in tensors]
            return r + [(list(p.shape), p.dtype) for p in ps]

        cx.predicts("shapes and dtypes of result and gradients", fn, tensors, want, dtype, hi)

    return name, case


def cases(tier):
    out = []
    for nlat, nlon in ((5, 8), (6, 9)):
        for dt, ct in ((F32, C64), (F64, C128)):
            for lead in ((), ("b",), ("b", "c")):
                L = lambda s, lead=lead: [s[d] for d in lead]  # noqa: E731
                t = f"{nlat}x{nlon} rank {len(lead) + 2} {str(dt)[6:]}"
                m = th.RealSHT(nlat, nlon)
                lm, mm = m.lmax, m.mmax
                out.append(layer("RealSHT " + t, lambda nlat=nlat, nlon=nlon: th.RealSHT(nlat, nlon), [lead + (nlat, nlon)], lambda s, L=L, lm=lm, mm=mm: L(s) + [lm, mm], dt, ct, hi=12 if len(lead) < 2 else 4))
                out.append(layer("InverseRealSHT " + t, lambda nlat=nlat, nlon=nlon: th.InverseRealSHT(nlat, nlon), [lead + (lm, mm)], lambda s, L=L, nlat=nlat, nlon=nlon: L(s) + [nlat, nlon], ct, dt, hi=12 if len(lead) < 2 else 4))
                out.append(layer("RealVectorSHT " + t, lambda nlat=nlat, nlon=nlon: th.RealVectorSHT(nlat, nlon), [lead + (2, nlat, nlon)], lambda s, L=L, lm=lm, mm=mm: L(s) + [2, lm, mm], dt, ct, hi=12 if len(lead) < 2 else 4))
                out.append(layer("InverseRealVectorSHT " + t, lambda nlat=nlat, nlon=nlon: th.InverseRealVectorSHT(nlat, nlon), [lead + (2, lm, mm)], lambda s, L=L, nlat=nlat, nlon=nlon: L(s) + [2, nlat, nlon], ct, dt, hi=12 if len(lead) < 2 else 4))
                out.append(layer("QuadratureS2 " + t, lambda nlat=nlat, nlon=nlon: th.QuadratureS2((nlat, nlon)), [lead + (nlat, nlon)], lambda s, L=L: L(s), dt))
    for cin, cout, g in ((2, 3, 1), (4, 2, 2), (3, 6, 3)):
        for bias in (False, True):
            out.append(layer(f"SpectralConvS2 5x8->6x10 {cin}->{cout} groups={g} bias={bias}", lambda cin=cin, cout=cout, g=g, bias=bias: th.SpectralConvS2((5, 8), (6, 10), cin, cout, num_groups=g, bias=bias), [("b", cin, 5, 8)], lambda s, cout=cout: [s["b"], cout, 6, 10], hi=12))
            for (ni, mi), (no, mo) in (((5, 8), (5, 8)), ((6, 8), (4, 4)), ((4, 6), (6, 6)), ((5, 8), (3, 1))):
                for basis, ks in (("piecewise linear", 3), ("piecewise linear", (2, 3)), ("zernike", 2)):
                    for fused in (False, True):
                        for dt in (F32, F64, torch.bfloat16):
                            if dt != F32 and basis != "zernike":
                                continue
                            out.append(layer(f"DISCO {ni}x{mi}->{no}x{mo} {cin}->{cout} groups={g} bias={bias} {basis} {ks} {'fused' if fused else 'compiled'} {str(dt)[6:]}", lambda ni=ni, mi=mi, no=no, mo=mo, cin=cin, cout=cout, g=g, bias=bias, basis=basis, ks=ks, fused=fused: th.DiscreteContinuousConvS2(cin, cout, (ni, mi), (no, mo), kernel_shape=ks, basis_type=basis, groups=g, bias=bias, theta_cutoff=1.2, fused=fused), [("b", cin, ni, mi)], lambda s, cout=cout, no=no, mo=mo: [s["b"], cout, no, mo], dt))
                            if not fused:
                                out.append(layer(f"transpose DISCO {no}x{mo}->{ni}x{mi} {cin}->{cout} groups={g} bias={bias} {basis} {ks} {str(dt)[6:]}", lambda ni=ni, mi=mi, no=no, mo=mo, cin=cin, cout=cout, g=g, bias=bias, basis=basis, ks=ks: th.DiscreteContinuousConvTransposeS2(cin, cout, (no, mo), (ni, mi), kernel_shape=ks, basis_type=basis, groups=g, bias=bias, theta_cutoff=1.2), [("b", cin, no, mo)], lambda s, cout=cout, ni=ni, mi=mi: [s["b"], cout, ni, mi], dt))
    for (ni, mi), (no, mo) in (((4, 8), (4, 8)), ((4, 8), (3, 4)), ((3, 4), (5, 8)), ((4, 8), (5, 2))):
        for cin, cout, ck, nh, qkn, bias in ((2, 2, 2, 1, False, True), (4, 6, 2, 2, True, False), (3, 3, 6, 3, False, True)):
            K = [("b", cin, no, mo), ("b", cin, ni, mi), ("b", cin, ni, mi)]
            t = f"{ni}x{mi}->{no}x{mo} {cin}->{cout} k={ck} heads={nh} qk_norm={qkn} bias={bias}"
            O = lambda s, cout=cout, no=no, mo=mo: [s["b"], cout, no, mo]  # noqa: E731, E741
            for opt in (True,):
                for dt in (F32, F64, torch.bfloat16, torch.float16):
                    out.append(layer(f"NeighborhoodAttentionS2 {t} {'compiled' if opt else 'torch'} {str(dt)[6:]}", lambda ni=ni, mi=mi, no=no, mo=mo, cin=cin, cout=cout, ck=ck, nh=nh, qkn=qkn, bias=bias, opt=opt: th.NeighborhoodAttentionS2(cin, (ni, mi), (no, mo), num_heads=nh, use_qknorm=qkn, bias=bias, k_channels=ck, out_channels=cout, theta_cutoff=1.2, optimized_kernel=opt), K, O, dt))
            if mi % mo == 0:
                out.append(layer(f"AttentionS2 {t}", lambda ni=ni, mi=mi, no=no, mo=mo, cin=cin, cout=cout, ck=ck, nh=nh, qkn=qkn, bias=bias: th.AttentionS2(cin, num_heads=nh, in_shape=(ni, mi), out_shape=(no, mo), use_qknorm=qkn, bias=bias, k_channels=ck, out_channels=cout), K, O))
    return out
