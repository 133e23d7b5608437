"""Attention on the sphere = quadrature-weighted softmax over the (geodesic) neighbourhood."""
import torch

from vlib import attn_layers as L
from vlib import csym
from vlib.harness import F32, F64

FUNCTIONS = ["NeighborhoodAttentionS2.__init__/forward", "AttentionS2.__init__/forward", "_precompute_convolution_tensor_s2", "to_nhwc/to_nchw", "_neighborhood_s2_attention_optimized", "_neighborhood_s2_attention_torch (gather and upsample)", "C++ s2_attention_fwd_cpu, s2_attn_fwd_kernel, s2_attn_fwd_upsample_kernel, fold/unfold heads, permute kernels (source re-instantiated on symbolic scalars)"]
BOUNDS = "query/key/value entries symbolic in [-1,1] (parameters symbolic where a case says sym=...), so |score| <= 3 or so; real arithmetic; grids 3x4..6x8 (nlon up to 130 on one latitude block), ratios nlon_in/nlon_out 1/4..4, 1-3 heads, 1-4 channels, batch 1-2; output tolerance 1e-4 absolute"
WALL = 60


def pre():
    csym.install(("attention",))


def case(c):
    def run(cx):
        m = L.layer(c)
        p = L.params(cx, c, m)
        q, k, v = L.inputs(cx, c)

        def real():
            L.set_params(m, p)
            return L.call(m, c, q, k, v)

        y = cx.run(real)
        e = cx.run(L.spec, c, p, q, q if k is None else k, q if v is None else v)
        cx.eq("output", y, e, 1e-4)
        cx.fact("dtype kept", y.dtype == c["dtype"], str(y.dtype))

    return run


def cases(tier):
    G, LB, T = "legendre-gauss", "lobatto", "equiangular-trapezoidal"
    out = []

    def add(**k):
        c = L.mk(**k)
        out.append((L.name(c), case(c)))

    for path in ("opt", "torch"):
        add(path=path)
        add(path=path, gi=G, go=G, i=(4, 6), o=(4, 6))
        add(path=path, gi=LB, go=G, i=(4, 4), o=(3, 4), cut=0.9)
        add(path=path, gi=G, go="equiangular", i=(5, 6), o=(4, 6))
        add(path=path, i=(5, 8), o=(3, 4), gi=G)
        add(path=path, i=(5, 8), o=(3, 2))
        add(path=path, i=(4, 9), o=(4, 3), gi=G, go=G, cut=0.8)
        add(path=path, i=(3, 4), o=(3, 1), cut=1.0)
        add(path=path, i=(3, 4), o=(3, 8))
        add(path=path, i=(4, 4), o=(6, 8), go=G)
        add(path=path, i=(3, 2), o=(5, 8), gi=G, cut=1.9)
        add(path=path, i=(3, 3), o=(3, 9), gi=LB, go=G, cut=1.4)
        add(path=path, i=(4, 6), o=(4, 6), cut=0.55)             # a small neighbourhood: pole rows see whole circles
        add(path=path, i=(4, 6), o=(4, 6), gi=G, go=G, cut=3.2)  # the whole sphere
        add(path=path, i=(4, 4), o=(4, 4), gi=G, go=G, cut=0.05)  # only the point itself
        add(path=path, cin=2, nh=2)
        add(path=path, cin=3, ck=4, co=2, nh=2)
        add(path=path, cin=2, ck=3, co=6, nh=3, i=(3, 4), o=(3, 2), cut=1.2)
        add(path=path, cin=2, ck=1, co=3)
        add(path=path, cin=2, bias=True, B=2)
        add(path=path, cin=2, ck=2, co=4, nh=2, bias=True, i=(3, 2), o=(3, 4), B=2, cut=1.7)
        add(path=path, cin=2, qkn=True)
        add(path=path, cin=2, qkn=True, nh=2, ck=4, bias=True)
        add(path=path, cin=2, scale=0.3)
        add(path=path, cin=2, ck=4, nh=2, scale=1.5, i=(3, 2), o=(3, 4), cut=1.7)
        for s in ("qkv", "v", "kv"):
            add(path=path, selfatt=s, cin=2, nh=2)
        add(path=path, sym=("q_weights", "k_weights"), cut=1.2)
        add(path=path, sym=("v_weights", "proj_weights"), cin=2)
        add(path=path, sym=("q_bias", "k_bias", "v_bias", "proj_bias"), bias=True, cin=2)
        add(path=path, sym=("q_norm_weights", "k_norm_weights"), qkn=True, cin=2, ck=4, nh=2, cut=1.2)
        add(path=path, i=(2, 68), o=(2, 68), cut=0.12, gi=G, go=G)      # more longitudes than one cache block
    add(path="opt", i=(2, 130), o=(2, 65), cut=0.1, gi=G, go=G)
    add(path="opt", i=(2, 65), o=(2, 130), cut=0.12, gi=G, go=G)
    add(path="torch", dtype=F64, cin=2, nh=2)
    add(path="torch", dtype=F64, i=(3, 4), o=(3, 8))
    for k in [dict(), dict(cin=3), dict(i=(5, 6), o=(4, 3), gi=G), dict(i=(4, 4), o=(3, 4), gi=LB, go=G, cin=2, nh=2), dict(cin=2, ck=4, co=6, nh=2, bias=True, B=2), dict(cin=2, qkn=True, ck=4, nh=2), dict(cin=2, scale=0.3), dict(cin=2, selfatt="qkv", nh=2), dict(cin=2, selfatt="v"), dict(cin=2, selfatt="kv"), dict(dtype=F64, gi=G), dict(sym=("q_weights", "k_weights")), dict(sym=("v_weights", "proj_weights"), cin=2), dict(bias=True, cin=2, sym=("q_bias", "k_bias", "v_bias", "proj_bias")), dict(gi=T, i=(4, 4), o=(3, 4)), dict(drop=0.5, train=False), dict(drop=0.25, train=False, cin=2, nh=2, gi=G), dict(train=False)]:
        add(glob=True, **k)
    add(path="opt", train=False)
    add(path="torch", train=False)
    if tier == "deep":
        for path in ("opt", "torch"):
            add(path=path, i=(7, 12), o=(7, 12), gi=G, go=G)
            add(path=path, i=(9, 16), o=(5, 8), cin=2, nh=2)
            add(path=path, i=(5, 8), o=(9, 16), cin=2, nh=2)
            add(path=path, i=(6, 12), o=(6, 4), gi=LB, go=G, cin=2, ck=4, co=2, nh=2, bias=True)
        add(path="opt", i=(3, 200), o=(3, 200), cut=0.05, gi=G, go=G)
        add(glob=True, i=(5, 8), o=(5, 8), cin=2, nh=2)
    return out
