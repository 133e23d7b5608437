"""Distributed DISCO convolutions == serial layers, on any process grid."""
import contextlib

import torch

import torch_harmonics.distributed as thd
from vlib import csym
from vlib import disco_layers as L
from vlib.dist_sim import block, shapes, spmd, tile, untile
from vlib.harness import F32, F64
from vlib.util import set_param

FUNCTIONS = ["DistributedDiscreteContinuousConvS2.__init__/_build_local_psi/forward", "DistributedDiscreteContinuousConvTransposeS2.__init__/forward", "_split_distributed_convolution_tensor_s2", "_distributed_disco_fwd_a2a", "_distributed_disco_fwd_a2a_reordered", "distributed_transpose_azimuth", "reduce_from_scatter_to_polar/azimuth_region", "gather_from_copy_to_polar_region", "autograd through all of them", "serial DISCO layers", "C++ disco_cpu_fwd/bwd (source re-instantiated on symbolic scalars)"]
BOUNDS = "process grids up to 3x2 and 2x3 (thorough 4x1, 1x4, 3x3), grids nlat<=7, nlon<=12, <=5 channels, <=2 groups, batch <=2, compiled, pure-torch and reordered (fused) variants; input, weight, bias and cotangent entries symbolic in [-1,1]; parameter gradients summed over all ranks as documented"
ASSUME = ["the reordered variant is constructed with torch.cuda.is_available() answering True and runs on the CPU operators of the same name (half-precision k-packed CUDA kernels excluded)"]


def pre():
    csym.install(("disco",))


@contextlib.contextmanager
def _cuda(on):
    if not on:
        yield
        return
    o = torch.cuda.is_available
    torch.cuda.is_available = lambda: True
    try:
        yield
    finally:
        torch.cuda.is_available = o


def dlayer(c, fused):
    kw = dict(basis_type=c["basis"], basis_norm_mode=c["norm"], groups=c["groups"], grid_in=c["gi"], grid_out=c["go"], bias=c["bias"], theta_cutoff=c["cut"], optimized_kernel=c["path"] != "torch")
    if c["T"]:
        return thd.DistributedDiscreteContinuousConvTransposeS2(c["cin"], c["cout"], c["i"], c["o"], c["ks"], **kw)
    with _cuda(fused):
        return thd.DistributedDiscreteContinuousConvS2(c["cin"], c["cout"], c["i"], c["o"], c["ks"], fused=fused, **kw)


def case(P, Q, c, grp="both"):
    fused = c["path"] == "fused"

    def run(cx):
        dt = c["dtype"]
        ser = L.layer(dict(c, path="torch" if c["path"] == "torch" else "opt"))
        K = ser.weight.shape[-1]
        x = cx.inp("x", (c["B"], c["cin"]) + c["i"], dt)
        w = cx.inp("w", (c["cout"], c["cin"] // c["groups"], K), dt)
        b = cx.inp("b", (c["cout"],), dt) if c["bias"] else None
        g = cx.inp("g", (c["B"], c["cout"]) + c["o"], dt)

        def apply(m, x, g):
            vs = [x.clone().requires_grad_(True), w.clone().requires_grad_(True)] + ([b.clone().requires_grad_(True)] if c["bias"] else [])
            set_param(m, "weight", vs[1])
            if c["bias"]:
                set_param(m, "bias", vs[2])
            y = m(vs[0])
            return y, torch.autograd.grad(y, vs, g)

        y, dy = cx.run(lambda: apply(ser, x, g))

        def rank(r):
            m = dlayer(c, fused)
            cx.fact("parameters are replicated", tuple(m.weight.shape) == tuple(w.shape), str(tuple(m.weight.shape)))
            return cx.run(lambda: apply(m, tile(x, r, P, Q).contiguous(), tile(g, r, P, Q).contiguous()))

        out = spmd(cx, P, Q, rank, grp)
        tol = 2e-4 if dt != F64 else 2e-6
        for p, row in enumerate(out):
            for q_, o in enumerate(row):
                want = (c["B"], c["cout"], shapes(c["o"][0], P)[p], shapes(c["o"][1], Q)[q_])
                cx.fact("local output shape", tuple(o[0].shape) == want, f"{tuple(o[0].shape)} != {want}")
                cx.fact("dtype kept", o[0].dtype == dt and all(t.dtype == dt for t in o[1]), str(o[0].dtype))
        cx.eq("gathered output == serial", cx.run(untile, [[o[0] for o in row] for row in out]), y, tol)
        cx.eq("gathered input gradient == serial", cx.run(untile, [[o[1][0] for o in row] for row in out]), dy[0], tol)

        def total(k):
            t = None
            for row in out:
                for o in row:
                    t = o[1][k] if t is None else t + o[1][k]
            return t

        cx.eq("weight gradient summed over ranks == serial", cx.run(total, 1), dy[1], tol)
        if c["bias"]:
            cx.eq("bias gradient summed over ranks == serial", cx.run(total, 2), dy[2], tol)

    return run


def cases(tier):
    G = "legendre-gauss"
    out = []

    def add(P, Q, grp="both", **k):
        c = L.mk(**k)
        out.append((f"{P}x{Q} {'' if grp == 'both' else grp + ' '}{L.name(c)}", case(P, Q, c, grp)))

    for P, Q in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] + ([(3, 3), (4, 1), (1, 4), (4, 2)] if tier == "deep" else []):
        for path in ("opt", "torch", "fused"):
            add(P, Q, path=path, cin=3, cout=1, i=(5, 6), o=(4, 6), ks=2, bias=True)                      # uneven everything
            add(P, Q, path=path, cin=4, cout=2, groups=2, i=(4, 8), o=(5, 4), ks=2, gi=G, cut=0.9)           # stride, shards of one group
            if path != "torch":
                add(P, Q, path=path, cin=6, cout=4, groups=2, i=(4, 4), o=(4, 4), ks=1, gi=G, go=G, bias=True, B=2)   # 3 ranks cut a group
                add(P, Q, path=path, cin=5, cout=5, groups=5, i=(4, 6), o=(3, 3), ks=1, gi=G, cut=1.1)
                add(P, Q, path=path, cin=3, cout=2, i=(4, 6), o=(4, 6), ks=5, gi=G, go=G, cut=0.35)             # empty rows
                add(P, Q, path=path, cin=3, cout=2, i=(4, 6), o=(4, 6), ks=2, dtype=F32, bias=True)
        for path in ("opt", "torch"):
            add(P, Q, T=True, path=path, cin=3, cout=3, i=(4, 6), o=(5, 6), ks=2, bias=True)
            add(P, Q, T=True, path=path, cin=2, cout=4, groups=2, i=(4, 4), o=(5, 8), ks=2, go=G, cut=0.9)
            add(P, Q, T=True, path=path, cin=1, cout=5, i=(3, 3), o=(7, 9), ks=2, gi=G, go="lobatto")
            if path == "opt":
                add(P, Q, T=True, path=path, cin=2, cout=3, i=(4, 6), o=(4, 6), ks=5, gi=G, go=G, cut=0.35)
                add(P, Q, T=True, path=path, cin=2, cout=3, i=(4, 6), o=(4, 6), ks=2, dtype=F32, bias=True, B=2)
    for grp, P, Q in (("none", 1, 1), ("polar", 2, 1), ("azimuth", 1, 2)):
        add(P, Q, grp, cin=2, cout=2, i=(4, 6), o=(4, 6), ks=2, bias=True)
        add(P, Q, grp, T=True, cin=2, cout=2, i=(4, 6), o=(4, 6), ks=2, bias=True)
    for basis, ks, norm in (("zernike", 2, "modal"), ("harmonic", (2, 2), "mean"), ("fourier-bessel", (2, 1), "support"), ("piecewise linear", (3, 3), "geometric")):
        add(2, 2, cin=2, cout=1, i=(5, 6), o=(4, 6), basis=basis, ks=ks, norm=norm, gi=G, go=G, cut=0.9)
        add(2, 2, T=True, cin=1, cout=2, i=(4, 6), o=(5, 6), basis=basis, ks=ks, norm=norm, gi=G, go=G, cut=0.9)
    # a latitude shard that no (or a single) filter entry touches
    for k in (dict(i=(4, 4), o=(2, 4), gi=G, go=G, ks=1, cut=0.6), dict(i=(5, 4), o=(2, 2), gi="lobatto", go="lobatto", ks=1, cut=0.3), dict(i=(4, 2), o=(2, 2), gi=G, go="lobatto", ks=1, cut=0.4), dict(i=(2, 4), o=(2, 4), gi=G, go=G, ks=1, cut=0.05)):
        for path in ("opt", "torch"):
            add(2, 1, cin=1, cout=1, path=path, **k)
    return out
