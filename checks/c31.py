"""Mixed precision: under autocast, and with half-precision inputs, the layers compute the same function with the documented dtypes."""
import torch

import torch_harmonics as th
from checks import c18
from vlib import attn_layers as A
from vlib import csym
from vlib import disco_layers as L
from vlib.harness import C64, F32, F64
from vlib.util import set_param

F16, BF = torch.float16, torch.bfloat16
FUNCTIONS = ["autocast kernels of _disco_s2_{,transpose_}contraction_optimized, _neighborhood_s2_attention_{optimized,torch} and their backward", "_disco_s2_{,transpose_}contraction_torch (_compute_dtype)", "DiscreteContinuousConv{,Transpose}S2.forward", "NeighborhoodAttentionS2.forward", "AttentionS2.forward", "SpectralConvS2.forward", "ResampleS2.forward", "QuadratureS2.forward", "compiled CPU kernels (on 32-bit boxes; the dtypes of their results from a run on zeros)"]
BOUNDS = "autocast('cpu') to bfloat16 and float16 with single-precision parameters and inputs, and layers converted to half precision; input, weight, bias and cotangent entries symbolic in [-1,1] (attention: inputs and cotangent); a cast to half precision is a symbolic error of up to one unit roundoff per value for the linear layers and the identity for attention; all other arithmetic real; grids 3x4..6x12"
NARROW = "amp"
U = {BF: 2.0**-8, F16: 2.0**-11}


def pre():
    csym.install(("disco", "attention"))


def amp(dt, f, *a):
    with torch.autocast("cpu", dtype=dt):
        return f(*a)


def grads(f, xs, g):
    """Backward runs outside autocast, as PyTorch asks for."""
    xs = [x.clone().requires_grad_(True) for x in xs]
    y = f(*xs)
    return [y] + list(torch.autograd.grad(y, xs, g.to(y.dtype)))


def disco(c, dt, cast):
    def run(cx):
        W = L.psi_of(c)
        m = L.layer(c)
        K = W.shape[0]
        if cast:
            m = m.to(dt)
        pd = dt if cast else F32
        x = cx.inp("x", (c["B"], c["cin"]) + c["i"], pd)
        w = cx.inp("w", (c["cout"], c["cin"] // c["groups"], K), pd)
        b = cx.inp("b", (c["cout"],), pd) if c["bias"] else None
        g = cx.inp("g", (c["B"], c["cout"]) + c["o"], F32)
        xs = [x, w] + ([b] if c["bias"] else [])

        def real(x, w, b=None):
            set_param(m, "weight", w)
            if b is not None:
                set_param(m, "bias", b)
            return m(x) if cast else amp(dt, m, x)

        def spec(x, w, b=None):
            return L.spec(c, W, x, w, b)

        got = cx.run(grads, real, xs, g)
        ref = cx.run(grads, lambda *a: spec(*[t.to(F64) for t in a]), [t.to(F64) for t in xs], g.to(F64))
        for n, a, e in zip(["output", "gradient of x", "gradient of w", "gradient of b"], got, ref):
            mass = 4.0 * c["cin"] * K * c["B"] * (c["o"][0] * c["o"][1] if n.startswith("gradient") else 1)
            cx.eq(n, a, e, max(mass, 4.0) * U[dt])
        if c["path"] == "opt":
            cx.fact("output dtype", got[0].dtype == (F32 if c["bias"] and not cast else dt), str(got[0].dtype))
        for t, x in zip(got[1:], xs):
            cx.fact("gradient dtype", t.dtype == x.dtype, str(t.dtype))

    return run


def attn(c, dt, need):
    """Attention: casts are exact (real arithmetic); the tolerance is for the replay, which rounds."""
    def run(cx):
        cx.narrow(False)
        m = A.layer(c)
        p0 = A.params(cx, c, m)
        q0, k0, v0 = A.inputs(cx, c)
        g = cx.inp("g", (c["B"], c["co"] or c["cin"]) + c["o"], F32)
        base = dict(p0, q=q0, k=k0, v=v0)
        cast = c["dtype"] in U

        def go(f, up):
            x = {n: (t if t is None else (t.to(F64) if up else t.clone())) for n, t in base.items()}
            for n in need:
                x[n].requires_grad_(True)
            y = f({n: x[n] for n in p0}, x["q"], x["k"], x["v"])
            return [y] + (list(torch.autograd.grad(y, [x[n] for n in need], g.to(y.dtype))) if need else [])

        def real(p, q, k, v):
            A.set_params(m, p)
            if cast:
                return A.call(m, c, q, k, v)
            return amp(dt, A.call, m, c, q, k, v)

        got = cx.run(go, real, False)
        ref = cx.run(go, lambda p, q, k, v: A.spec(c, p, q, q if k is None else k, q if v is None else v), True)
        for n, a, e in zip(["output"] + ["gradient of " + n for n in need], got, ref):
            cx.eq(n, a, e, 0.25 if dt is BF else 0.05)
        cx.fact("output dtype", got[0].dtype == dt, str(got[0].dtype))
        for n, t in zip(need, got[1:]):
            cx.fact(f"gradient dtype of {n}", t.dtype == base[n].dtype, str(t.dtype))

    return run


def spectral(ish, osh, cin, cout, groups, gi, go, bias, dt, xdt):
    """The transforms and the mixing stay in single precision under autocast; only a half-precision input or output is rounded."""
    def run(cx):
        m = th.SpectralConvS2(ish, osh, cin, cout, num_groups=groups, grid_in=gi, grid_out=go, bias=bias)
        lmax = m.weight.shape[-1]
        x = cx.inp("x", (1, cin) + ish, xdt)
        w = cx.inp("w", (groups, cin // groups, cout // groups, lmax), C64)
        b = cx.inp("b", (1, cin, lmax, lmax), C64) if bias else None

        def real():
            set_param(m, "weight", w)
            if b is not None:
                set_param(m, "spectral_bias", b)
            return amp(dt, m, x) if dt else m(x)

        y = cx.run(real)
        e = cx.run(lambda: c18.spec(x.to(F64), w, b, gi, go, osh, lmax, groups))
        cx.eq("output", y, e, c18.TOL if xdt is F32 else (256 if bias else 8) * cin * U[xdt])
        cx.fact("output dtype", y.dtype == xdt, str(y.dtype))

    return run


def elementwise(make, shape, keeps, tol):
    """Modules without parameters: a half-precision input keeps its dtype and function."""
    def gen(xdt):
        def run(cx):
            m = make()
            x = cx.inp("x", shape, xdt)
            y = cx.run(lambda: m(x))
            m2 = make().to(F64)
            e = cx.run(lambda: m2(x.to(F64)))
            cx.eq("output", y, e, tol * U[xdt])
            if keeps:
                cx.fact("output dtype", y.dtype == xdt, str(y.dtype))
        return run
    return gen


def cases(tier):
    G, LB = "legendre-gauss", "lobatto"
    out = []
    for dt in (BF, F16):
        d = str(dt)[6:]
        for path in ("opt", "torch"):
            for k in [dict(i=(4, 8), o=(4, 4), gi=G, go=G, cut=0.9), dict(i=(4, 6), o=(4, 6), bias=True), dict(i=(4, 8), o=(3, 8), cin=2, cout=4, groups=2, gi=LB, cut=1.0), dict(T=True, i=(4, 4), o=(4, 8), gi=G, go=G, cut=0.9), dict(T=True, i=(3, 6), o=(4, 6), bias=True), dict(T=True, i=(3, 4), o=(4, 8), cin=2, cout=2, groups=2, cut=1.0)]:
                c = L.mk(path=path, dtype=F32, **k)
                for cast in (False, True):
                    out.append((f"{d} {'converted' if cast else 'autocast'} {L.name(c)}", disco(c, dt, cast)))
            t23, up, dn = dict(gi=G, go=G, i=(2, 3), o=(2, 3)), dict(gi=G, go=G, i=(2, 2), o=(2, 4), cut=1.7), dict(gi=G, go=G, i=(2, 4), o=(2, 2), cut=1.3)
            for k, need in [(t23, ("q", "k", "v")), (up, ("q", "k", "v")), (dn, ("q", "k", "v")), (dict(t23, bias=True), ()), (dict(cin=2, nh=2, eye=True), ()), (dict(t23, cin=2, nh=2), ()), (dict(i=(3, 4), o=(4, 8), gi=G, go=G), ()), (dict(dn, cin=2, selfatt="kv"), ())]:
                for cast in (False, True):
                    c = A.mk(path=path, dtype=dt if cast else F32, **dict(k, eye=k.get("eye", k.get("cin", 1) == 1)))
                    out.append((f"{d} {'converted' if cast else 'autocast'} attention {A.name(c)}", attn(c, dt, need)))
        for k, need in [(dict(t23, eye=True), ("q", "k", "v")), (dict(cin=2, nh=2, eye=True), ()), (dict(i=(4, 6), o=(4, 3), gi=G), ())]:
            c = A.mk(glob=True, dtype=F32, **k)
            out.append((f"{d} autocast attention {A.name(c)}", attn(c, dt, need)))
        for xdt in (F32, dt):
            out.append((f"{d} autocast spectral 4x6 {str(xdt)[6:]}", spectral((4, 6), (4, 6), 1, 1, 1, "equiangular", "equiangular", False, dt, xdt)))
            out.append((f"{d} autocast spectral groups bias {str(xdt)[6:]}", spectral((4, 8), (3, 6), 2, 2, 2, G, G, True, dt, xdt)))
        out.append((f"{d} spectral {d} input", spectral((4, 8), (3, 6), 2, 2, 1, G, G, True, None, dt)))
        out.append((f"{d} resample 4x8->6x12", elementwise(lambda: th.ResampleS2(4, 8, 6, 12), (1, 4, 8), True, 16)(dt)))
        out.append((f"{d} resample gauss 5x4->3x8", elementwise(lambda: th.ResampleS2(5, 4, 3, 8, grid_in=G), (2, 5, 4), True, 16)(dt)))
        out.append((f"{d} quadrature 5x8", elementwise(lambda: th.QuadratureS2((5, 8), normalize=False), (1, 2, 5, 8), False, 64)(dt)))
        out.append((f"{d} quadrature normalised gauss 4x6", elementwise(lambda: th.QuadratureS2((4, 6), grid=G, normalize=True), (1, 2, 4, 6), False, 8)(dt)))
    return out
