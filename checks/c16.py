"""Gradients of the attention layers are the derivatives of the definition, on every path."""
import torch

from vlib import attn_layers as L
from vlib import csym
from vlib.harness import F32, F64

FUNCTIONS = ["NeighborhoodAttentionS2.forward (autograd)", "AttentionS2.forward (autograd)", "_neighborhood_s2_attention_bwd_optimized", "_neighborhood_s2_attention_{,upsample_}bwd_{dv,dk,dq}_torch", "_ToNHWC/_ToNCHW backward", "C++ s2_attention_bwd_cpu, s2_attn_bwd_kernel, s2_attn_bwd_upsample_kernel (source re-instantiated on symbolic scalars)"]
BOUNDS = "query/key/value/cotangent entries symbolic in [-1,1] (parameters symbolic where a case says sym=...); real arithmetic; grids 2x2..5x8, ratios nlon_in/nlon_out 1/4..4, 1-2 heads, 1-3 channels, batch 1-2; tolerance 1e-4 absolute; torch's own autograd formulas for elementary ops are trusted on the definition side"


def pre():
    csym.install(("attention",))


def case(c, need):
    def run(cx):
        m = L.layer(c)
        p0 = L.params(cx, c, m)
        q0, k0, v0 = L.inputs(cx, c)
        g = cx.inp("g", (c["B"], c["co"] or c["cin"]) + c["o"], c["dtype"])
        base = dict(p0, q=q0, k=k0, v=v0)

        def grads(f):
            x = {n: (t if t is None else t.clone()) for n, t in base.items()}
            if c["selfatt"] == "kv":
                x["v"] = x["k"]
            for n in need:
                x[n].requires_grad_(True)
            y = f({n: x[n] for n in p0}, x["q"], x["k"], x["v"])
            return y, torch.autograd.grad(y, [x[n] for n in need], g, allow_unused=True)

        def real(p, q, k, v):
            L.set_params(m, p)
            return L.call(m, c, q, k, v)

        y, a = cx.run(grads, real)
        e, b = cx.run(grads, lambda p, q, k, v: L.spec(c, p, q, q if k is None else k, q if v is None else v))
        for n, s, t in zip(need, a, b):
            cx.fact(f"gradient of {n} present", s is not None)
            if s is None:
                continue
            cx.eq(f"gradient of {n}", s, t, 1e-4)
            cx.fact(f"gradient dtype of {n}", s.dtype == c["dtype"], str(s.dtype))

    return run


def cases(tier):
    G, LB = "legendre-gauss", "lobatto"
    out = []

    def add(need=("q", "k", "v"), **k):
        c = L.mk(**k)
        out.append((f"{'+'.join(need)} {L.name(c)}", case(c, need)))

    for path in ("opt", "torch"):
        add(path=path, i=(2, 3), o=(2, 3), gi=G, go=G)
        add(path=path, cut=1.2)
        add(path=path, gi=G, go=G, i=(4, 4), o=(4, 4), cut=0.9)
        add(path=path, i=(4, 4), o=(3, 4), gi=LB, go=G, cut=0.9)
        add(path=path, i=(3, 8), o=(3, 4), gi=G, go=G, cut=0.8)
        add(path=path, i=(4, 8), o=(3, 2), gi=G, cut=0.7)
        add(path=path, i=(3, 9), o=(3, 3), gi=G, go=G, cut=0.75)
        add(path=path, i=(3, 4), o=(3, 1), cut=1.0)
        add(path=path, i=(3, 4), o=(3, 8), gi=G, go=G, cut=1.0)
        add(path=path, i=(3, 2), o=(4, 8), gi=G, go=G, cut=1.6)
        add(path=path, i=(3, 3), o=(3, 9), gi=LB, go=G, cut=1.2)
        add(path=path, i=(3, 4), o=(3, 4), gi=G, go=G, cut=0.05)
        add(path=path, cin=2, nh=2, i=(2, 4), o=(2, 4), gi=G, go=G, cut=1.3)
        add(path=path, cin=2, ck=2, co=4, nh=2, i=(2, 4), o=(2, 2), gi=G, go=G, cut=1.3)
        add(path=path, cin=2, ck=2, co=4, nh=2, i=(2, 2), o=(2, 4), gi=G, go=G, cut=1.7)
        add(path=path, cin=2, ck=3, co=1, i=(2, 3), o=(2, 3), gi=G, go=G)
        add(path=path, cin=1, B=2, i=(2, 3), o=(2, 3), gi=G, go=G)
        add(path=path, cin=2, ck=1, co=3, B=2, i=(2, 2), o=(2, 4), gi=G, go=G, cut=1.7)
        add(path=path, qkn=True, cin=2, i=(2, 2), o=(2, 2), gi=G, go=G)
        add(path=path, scale=0.3, cin=2, i=(2, 3), o=(2, 3), gi=G, go=G)
        for n in ("q", "k", "v"):
            add((n,), path=path, i=(2, 4), o=(2, 4), gi=G, go=G, cut=1.3, cin=2, nh=2)
            add((n,), path=path, i=(2, 2), o=(2, 4), gi=G, go=G, cut=1.7, cin=2, nh=2)
        for n in (("q", "v"), ("k", "v"), ("q", "k")):
            add(n, path=path, i=(2, 4), o=(2, 2), gi=G, go=G, cut=1.3)
        add(("q",), path=path, i=(2, 3), o=(2, 3), gi=G, go=G, selfatt="qkv", cin=2)
        add(("q", "k"), path=path, i=(2, 3), o=(2, 3), gi=G, go=G, selfatt="kv")
        add(("q", "k"), path=path, i=(2, 3), o=(2, 3), gi=G, go=G, selfatt="v")
        add(("q_weights", "k_weights"), path=path, i=(2, 3), o=(2, 3), gi=G, go=G, sym=("q_weights", "k_weights"))
        add(("v_weights", "proj_weights"), path=path, i=(2, 3), o=(2, 3), gi=G, go=G, cin=2, sym=("v_weights", "proj_weights"))
        add(("q_weights", "k_weights", "v_weights", "proj_weights"), path=path, i=(2, 3), o=(2, 3), gi=G, go=G, cin=2, nh=2)
        add(("q_bias", "k_bias", "v_bias", "proj_bias"), path=path, i=(2, 3), o=(2, 3), gi=G, go=G, bias=True, sym=("q_bias", "k_bias", "v_bias", "proj_bias"))
        add(("q_norm_weights", "k_norm_weights"), path=path, i=(2, 2), o=(2, 2), gi=G, go=G, qkn=True, cin=2, nh=1, sym=("q_norm_weights", "k_norm_weights"))
        add(path=path, i=(1, 66), o=(1, 66), gi=G, go=G, cut=0.11)
    add(path="opt", i=(1, 132), o=(1, 66), gi=G, go=G, cut=0.06)
    add(path="opt", i=(1, 66), o=(1, 132), gi=G, go=G, cut=0.11)
    add(path="torch", dtype=F64, i=(2, 3), o=(2, 3), gi=G, go=G)
    for k in [dict(i=(2, 3), o=(2, 3), gi=G, go=G), dict(i=(2, 4), o=(3, 2), gi=G), dict(i=(2, 2), o=(2, 2), gi=G, go=G, cin=2, nh=2, co=4, B=2)]:
        add(glob=True, **k)
    add(("q_weights", "k_weights", "v_weights", "proj_weights"), glob=True, i=(2, 2), o=(2, 2), gi=G, go=G, cin=2, nh=2)
    if tier == "deep":
        for path in ("opt", "torch"):
            add(path=path)
            add(path=path, i=(4, 6), o=(4, 6), gi=G, go=G, cut=0.9)
            add(path=path, i=(5, 8), o=(4, 4), gi=G, go=LB, cut=0.8, cin=2, nh=2)
            add(path=path, i=(4, 4), o=(5, 8), gi=LB, go=G, cut=0.9, cin=2, nh=2)
    return out
