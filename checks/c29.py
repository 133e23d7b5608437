"""C29: layers refuse inputs that do not match the shape they were built for."""
import torch
import z3

import torch_harmonics as th
from vlib import shapes  # noqa: F401
from vlib.harness import C64, F32

FUNCTIONS = ["RealSHT.forward", "InverseRealSHT.forward", "RealVectorSHT.forward", "InverseRealVectorSHT.forward", "QuadratureS2.forward", "ResampleS2.forward", "SpectralConvS2.forward", "DiscreteContinuousConvS2.forward (compiled, fused and torch)", "DiscreteContinuousConvTransposeS2.forward", "NeighborhoodAttentionS2.forward (compiled and torch)", "AttentionS2.forward"]
BOUNDS = "every extent symbolic in 1..4096 (QuadratureS2: 2..4096, extents of one broadcast), ranks 2 to 5, the listed layer configurations; up to 60 paths per case; real code replays sizes with at most 10^7 entries"
ASSUME = ["shape semantics of aten operators are those of PyTorch's fake kernels; a path that raises there raises in the real code (the solver's sample of each path is also run on the real code)"]


def layer(name, build, tensors, right, dtype=F32, spectral=False):
    def case(cx):
        torch.manual_seed(0)
        m = build()
        cx.refuses("refused", lambda *a: m(*a), tensors, (lambda s: right(s, m)) if spectral else right, dtype)

    return name, case


def A(*c):
    return z3.And(*c)


def cases(tier):
    out = []
    sizes = [((5, 8), (5, 8)), ((6, 9), (6, 9))] + ([((12, 24), (12, 24)), ((33, 64), (33, 64))] if tier == "deep" else [])
    for (nlat, nlon), _ in sizes:
        for lead in ((), ("b",), ("b", "c")):
            R = lead + ("H", "W")
            t = f"{nlat}x{nlon} rank {len(R)}"
            out.append(layer("RealSHT " + t, lambda nlat=nlat, nlon=nlon: th.RealSHT(nlat, nlon), [R], lambda s, a=nlat, b=nlon: A(s["H"] == a, s["W"] == b)))
            out.append(layer("InverseRealSHT " + t, lambda nlat=nlat, nlon=nlon: th.InverseRealSHT(nlat, nlon, lmax=4, mmax=3), [R], lambda s, m: A(s["H"] == m.lmax, s["W"] == m.mmax), C64, True))
            V = lead + ("V", "H", "W")
            out.append(layer("RealVectorSHT " + t, lambda nlat=nlat, nlon=nlon: th.RealVectorSHT(nlat, nlon), [V], lambda s, a=nlat, b=nlon: A(s["V"] == 2, s["H"] == a, s["W"] == b)))
            out.append(layer("InverseRealVectorSHT " + t, lambda nlat=nlat, nlon=nlon: th.InverseRealVectorSHT(nlat, nlon, lmax=4, mmax=3), [V], lambda s, m: A(s["V"] == 2, s["H"] == m.lmax, s["W"] == m.mmax), C64, True))
            out.append(layer("QuadratureS2 " + t, lambda nlat=nlat, nlon=nlon: th.QuadratureS2((nlat, nlon)), [R], lambda s, a=nlat, b=nlon: z3.Or(A(s["H"] == a, s["W"] == b), s["H"] == 1, s["W"] == 1)))
            for mode in ("bilinear", "bilinear-spherical"):
                for o in ((7, 12), (nlat, nlon), (3, 4)):
                    for g in ("equiangular", "legendre-gauss"):
                        out.append(layer(f"ResampleS2 {t} -> {o} {g} {mode}", lambda nlat=nlat, nlon=nlon, o=o, g=g, mode=mode: th.ResampleS2(nlat, nlon, *o, grid_in=g, grid_out="equiangular", mode=mode), [R], lambda s, a=nlat, b=nlon: A(s["H"] == a, s["W"] == b)))
    B = ("b", "c", "H", "W")
    bad_ranks = [("c", "H", "W"), ("b", "x", "c", "H", "W")]
    never = lambda s: z3.BoolVal(False)  # noqa: E731
    for nlat, nlon in ((5, 8), (6, 10)):
        for cin, g in ((2, 1), (4, 2), (3, 3)):
            for bias in (False, True):
                b = lambda nlat=nlat, nlon=nlon, cin=cin, g=g, bias=bias: th.SpectralConvS2((nlat, nlon), (nlat + 1, nlon), cin, 2 * g, num_groups=g, bias=bias)  # noqa: E731
                out.append(layer(f"SpectralConvS2 {nlat}x{nlon} cin={cin} groups={g} bias={bias}", b, [B], lambda s, a=nlat, o=nlon, c=cin: A(s["c"] == c, s["H"] == a, s["W"] == o)))
                if bias:
                    out += [layer(f"SpectralConvS2 {nlat}x{nlon} cin={cin} groups={g} rank {len(s)}", b, [s], never) for s in bad_ranks[:1]]
    for fused, opt in ((False, True), (True, True), (False, False)):
        for cin, g in ((2, 1), (4, 2), (3, 3)):
            for (ni, mi), (no, mo) in (((5, 8), (5, 8)), ((6, 8), (4, 4)), ((4, 6), (6, 6))):
                if not opt and mi < no:
                    continue
                b = lambda ni=ni, mi=mi, no=no, mo=mo, cin=cin, g=g, fused=fused, opt=opt: th.DiscreteContinuousConvS2(cin, 2 * g, (ni, mi), (no, mo), kernel_shape=3, groups=g, theta_cutoff=1.0, fused=fused, optimized_kernel=opt)  # noqa: E731
                t = f"{ni}x{mi}->{no}x{mo} cin={cin} groups={g} {'fused' if fused else 'compiled' if opt else 'torch'}"
                out.append(layer("DISCO " + t, b, [B], lambda s, a=ni, o=mi, c=cin: A(s["c"] == c, s["H"] == a, s["W"] == o)))
                if g == 1:
                    out += [layer(f"DISCO {t} rank {len(s)}", b, [s], never) for s in bad_ranks]
                if not fused:
                    b = lambda ni=ni, mi=mi, no=no, mo=mo, cin=cin, g=g, opt=opt: th.DiscreteContinuousConvTransposeS2(cin, 2 * g, (no, mo), (ni, mi), kernel_shape=3, groups=g, theta_cutoff=1.0, optimized_kernel=opt)  # noqa: E731
                    t = f"{no}x{mo}->{ni}x{mi} cin={cin} groups={g} {'compiled' if opt else 'torch'}"
                    out.append(layer("transpose DISCO " + t, b, [B], lambda s, a=no, o=mo, c=cin: A(s["c"] == c, s["H"] == a, s["W"] == o)))
                    if g == 1:
                        out += [layer(f"transpose DISCO {t} rank {len(s)}", b, [s], never) for s in bad_ranks]
    for (ni, mi), (no, mo) in (((4, 8), (4, 8)), ((4, 8), (3, 4)), ((3, 4), (5, 8))):
        K = [("bq", "cq", "Hq", "Wq"), ("bk", "ck", "Hk", "Wk"), ("bv", "cv", "Hv", "Wv")]
        for cin, nh, qkn in ((2, 1, False), (4, 2, True)):
            def ok(s, ni=ni, mi=mi, no=no, mo=mo, cin=cin, batch=True):
                c = [s["cq"] == cin, s["ck"] == cin, s["cv"] == cin, s["Hq"] == no, s["Wq"] == mo]
                c += [s["Hk"] == ni, s["Wk"] == mi, s["Hv"] == ni, s["Wv"] == mi]
                if batch:
                    c += [s["bq"] == s["bk"], s["bq"] == s["bv"]]
                return A(*c)

            t = f"{ni}x{mi}->{no}x{mo} cin={cin} heads={nh} qk_norm={qkn}"
            for opt in (True, False):
                b = lambda ni=ni, mi=mi, no=no, mo=mo, cin=cin, nh=nh, qkn=qkn, opt=opt: th.NeighborhoodAttentionS2(cin, (ni, mi), (no, mo), num_heads=nh, use_qknorm=qkn, theta_cutoff=1.2, optimized_kernel=opt)  # noqa: E731
                out.append(layer(f"NeighborhoodAttentionS2 {t} {'compiled' if opt else 'torch'}", b, K, ok))
                if (ni, mi) == (no, mo):
                    out.append(layer(f"NeighborhoodAttentionS2 self {t} {'compiled' if opt else 'torch'}", b, [B], lambda s, a=ni, o=mi, c=cin: A(s["c"] == c, s["H"] == a, s["W"] == o)))
            if mi % mo:
                continue
            b = lambda ni=ni, mi=mi, no=no, mo=mo, cin=cin, nh=nh, qkn=qkn: th.AttentionS2(cin, num_heads=nh, in_shape=(ni, mi), out_shape=(no, mo), use_qknorm=qkn)  # noqa: E731
            out.append(layer(f"AttentionS2 {t}", b, K, lambda s, ok=ok: ok(s, batch=False)))
            if (ni, mi) == (no, mo):
                out.append(layer(f"AttentionS2 self {t}", b, [B], lambda s, a=ni, o=mi, c=cin: A(s["c"] == c, s["H"] == a, s["W"] == o)))
    return out
