"""Gradients of every DISCO path = derivatives of the definition."""
import torch

from vlib import csym
from vlib import disco_layers as L
from vlib.harness import F32, F64
from vlib.util import set_param

FUNCTIONS = ["DiscreteContinuousConvS2.forward + autograd", "DiscreteContinuousConvTransposeS2.forward + autograd", "_disco_s2_contraction_bwd_optimized", "_disco_s2_transpose_contraction_bwd_optimized", "_disco_s2_fused_conv_bwd_optimized", "_disco_s2_fused_conv_spatial_first_dgrad", "_DiscoSaveXConvFn.forward/backward", "_use_spatial_first_dgrad", "_build_kernel_split_csr", "_disco_s2_contraction_torch / _transpose_contraction_torch", "C++ disco_cpu_fwd and disco_cpu_bwd (source re-instantiated on symbolic scalars)"]
BOUNDS = "grids up to 5x12, <=6 channels, <=2 groups, batch <=2; every input, weight, bias and cotangent entry symbolic in [-1,1]; every subset of {input, weight, bias} requiring gradients"


def pre():
    csym.install(("disco",))


def case(c, need):
    def run(cx):
        W = L.psi_of(c)
        m = L.layer(c)
        dt = c["dtype"]
        K = W.shape[0]
        x0 = cx.inp("x", (c["B"], c["cin"]) + c["i"], dt)
        w0 = cx.inp("w", (c["cout"], c["cin"] // c["groups"], K), dt)
        b0 = cx.inp("b", (c["cout"],), dt) if c["bias"] else None
        g = cx.inp("g", (c["B"], c["cout"]) + c["o"], dt)

        def variables():
            v = {"x": x0.clone(), "w": w0.clone()}
            if b0 is not None:
                v["b"] = b0.clone()
            for n in need:
                v[n].requires_grad_(True)
            return v

        def grads(f):
            v = variables()
            y = f(v)
            return y, torch.autograd.grad(y, [v[n] for n in need], g)

        def real(v):
            set_param(m, "weight", v["w"])
            if b0 is not None:
                set_param(m, "bias", v["b"])
            return m(v["x"])

        y, a = cx.run(grads, real)
        e, b = cx.run(grads, lambda v: L.spec(c, W, v["x"], v["w"], v.get("b")))
        tol = L.tol(c)
        cx.eq("output", y, e, tol)
        for n, p, q in zip(need, a, b):
            cx.eq(f"gradient of {n}", p, q, tol)
            cx.fact(f"gradient dtype of {n}", p.dtype == dt, str(p.dtype))

    return run


def cases(tier):
    G = "legendre-gauss"
    out = []

    def add(need=None, **k):
        c = L.mk(**k)
        n = need or (("x", "w", "b") if c["bias"] else ("x", "w"))
        out.append((f"{''.join(n)} {L.name(c)}", case(c, n)))

    for path in ("opt", "fused", "torch"):
        add(path=path, i=(4, 6), o=(4, 6), bias=True)
        add(path=path, i=(5, 12), o=(4, 6), gi=G, ks=2)
        add(path=path, i=(4, 12), o=(4, 4), go=G, cut=0.8, ks=2)
        add(path=path, i=(3, 8), o=(3, 2), gi="lobatto", cut=1.2)
        add(path=path, cin=2, cout=4, groups=2, bias=True, B=2, ks=2, i=(3, 4), o=(3, 4))
        add(path=path, cin=4, cout=2, groups=2, bias=True, ks=2, i=(3, 4), o=(3, 2))          # spatial-first backward
        add(path=path, cin=4, cout=1, ks=3, i=(4, 6), o=(3, 3), gi=G, go=G)
        add(path=path, cin=3, cout=1, ks=(2, 2), i=(3, 4), o=(3, 4), gi=G, go=G, B=2)
        add(path=path, cin=2, cout=1, ks=5, i=(4, 6), o=(4, 6), gi=G, go=G, cut=0.35)         # kernels with empty rows
        add(path=path, cin=4, cout=2, groups=2, ks=5, i=(4, 6), o=(4, 3), gi=G, go=G, cut=0.5)
        add(path=path, cin=2, cout=2, ks=2, i=(3, 4), o=(3, 4), dtype=F32, bias=True)
        add(path=path, cin=4, cout=1, ks=2, i=(3, 4), o=(3, 4), dtype=F32, bias=True)
        add(path=path, cin=2, cout=1, ks=1, i=(3, 4), o=(3, 4))
        add(path=path, cin=2, cout=1, ks=3, i=(5, 6), o=(1, 3), gi=G, go=G, cut=1.6)
        add(path=path, cin=2, cout=1, ks=3, i=(4, 4), o=(3, 4), gi=G, go=G, cut=0.05, bias=True)
        for need in (("x",), ("w",), ("b",), ("x", "b"), ("w", "b")):
            add(need, path=path, cin=2, cout=1, ks=2, i=(3, 4), o=(3, 4), bias=True)
            add(need, path=path, cin=2, cout=2, groups=2, ks=2, i=(3, 4), o=(3, 4), bias=True)
        add(path=path, basis="zernike", ks=3, i=(4, 4), o=(3, 4), gi=G, go=G, cut=0.9, norm="modal")
    for path in ("opt", "torch"):
        add(T=True, path=path, i=(4, 6), o=(4, 6), bias=True)
        add(T=True, path=path, i=(4, 6), o=(5, 12), go=G, ks=2)
        add(T=True, path=path, i=(4, 4), o=(4, 12), gi=G, cut=0.8, ks=2)
        add(T=True, path=path, i=(3, 2), o=(3, 8), go="lobatto", cut=1.2)
        add(T=True, path=path, cin=2, cout=4, groups=2, bias=True, B=2, ks=2, i=(3, 4), o=(3, 4))
        add(T=True, path=path, cin=4, cout=2, groups=2, bias=True, ks=2, i=(3, 2), o=(3, 4))
        add(T=True, path=path, cin=2, cout=1, ks=5, i=(4, 6), o=(4, 6), gi=G, go=G, cut=0.35)
        add(T=True, path=path, cin=2, cout=2, ks=2, i=(3, 4), o=(3, 4), dtype=F32, bias=True)
        for need in (("x",), ("w",), ("b",)):
            add(need, T=True, path=path, cin=2, cout=1, ks=2, i=(3, 4), o=(3, 4), bias=True)
    if tier == "deep":
        for path in ("opt", "fused", "torch"):
            for k in [dict(i=(8, 12), o=(6, 6), cin=2, cout=2, ks=(3, 3), gi=G, go=G), dict(i=(9, 16), o=(9, 16), cin=2, cout=1, ks=3, gi=G, go=G), dict(i=(6, 12), o=(6, 3), cin=6, cout=2, groups=2, ks=3, gi="lobatto", go=G), dict(i=(6, 10), o=(6, 5), cin=3, cout=1, basis="zernike", ks=3, gi=G, go=G)]:
                add(path=path, **k)
                if path != "fused":
                    add(path=path, **dict(k, i=k["o"], o=k["i"], gi=k["go"], go=k["gi"], T=True))
    return out
