"""Distributed neighbourhood attention == serial layer, on any process grid."""
import torch

import torch_harmonics.distributed as thd
from vlib import attn_layers as L
from vlib import csym
from vlib import ring_stub
from vlib.dist_sim import shapes, spmd, tile, untile
from vlib.harness import F32

FUNCTIONS = ["DistributedNeighborhoodAttentionS2.__init__/_build_local_psi/_build_local_psi_upsample/_compute_r_lat/_compute_r_lat_upsample/forward", "_RingNeighborhoodAttentionFn.forward/backward", "_RingNeighborhoodAttentionUpsampleFn.forward/backward", "_ring_kv", "polar_halo_exchange", "to_nhwc/to_nchw", "NeighborhoodAttentionS2 (serial side, C++ kernels re-instantiated on symbolic scalars)"]
BOUNDS = "process grids up to 3x2/2x3 (thorough 4x1, 1x4, 3x3), grids nlat<=6, nlon<=8, 1-2 heads, <=2 channels, halo up to two rows; queries, keys, values and cotangents symbolic in [-1,1], parameters fixed generic values (symbolic where a case says so); fp32 layers, tolerance 1e-4"
ASSUME = ["the CUDA ring-step kernels are replaced by their documented contract (attention_interface.cpp), whose preconditions are asserted"]
TOL = 1e-4


def pre():
    csym.install(("attention",))
    ring_stub.install()


def dlayer(c):
    return thd.DistributedNeighborhoodAttentionS2(c["cin"], c["i"], c["o"], grid_in=c["gi"], grid_out=c["go"], num_heads=c["nh"], scale=c["scale"], use_qknorm=c["qkn"], bias=c["bias"], theta_cutoff=c["cut"], k_channels=c["ck"], out_channels=c["co"])


def refusable(P, Q, c):
    big, small = max(c["i"][1], c["o"][1]), min(c["i"][1], c["o"][1])
    if any(a != big // small * b for a, b in zip(shapes(big, Q), shapes(small, Q))):
        return True
    if P == 1:
        return False
    si, so = shapes(c["i"][0], P), shapes(c["o"][0], P)
    halo = 0
    for (h, _), pts in L.neighbours(c).items():
        p = next(j for j in range(P) if h < sum(so[:j + 1]))
        lo, hi = sum(si[:p]), sum(si[:p + 1]) - 1
        halo = max([halo] + [max(lo - a, a - hi) for a, _ in pts])
    return halo > min(si)


def case(P, Q, c, need=("q", "k", "v"), grp="both"):
    def run(cx):
        ser = L.layer(c)
        p0 = L.params(cx, c, ser)
        q0, k0, v0 = L.inputs(cx, c)
        g = cx.inp("g", (c["B"], c["co"] or c["cin"]) + c["o"], F32)
        L.neighbours(c)
        base = dict(p0, q=q0, k=k0, v=v0)

        def apply(m, sl):
            x = {n: (t if t is None else (sl(t).contiguous() if n in "qkv" else t).clone()) for n, t in base.items()}
            if c["selfatt"] == "kv":
                x["v"] = x["k"]
            for n in need:
                x[n].requires_grad_(True)
            L.set_params(m, {n: x[n] for n in p0})
            y = L.call(m, c, x["q"], x["k"], x["v"])
            return y, torch.autograd.grad(y, [x[n] for n in need], sl(g).contiguous())

        y, dy = cx.run(lambda: apply(ser, lambda t: t))

        def rank(r):
            try:
                m = dlayer(c)
            except ValueError:
                return None
            return cx.run(lambda: apply(m, lambda t: tile(t, r, P, Q)))

        out = spmd(cx, P, Q, rank, grp)
        if any(o is None for row in out for o in row):
            # a decomposition may be refused, by all ranks alike, only if the neighbourhood of a rank's
            # outputs reaches past the adjacent latitude shards or the longitudes are cut at other places
            cx.fact("all ranks refuse", all(o is None for row in out for o in row))
            cx.fact("refused only where the halo exceeds a shard or longitudes are not aligned", refusable(P, Q, c))
            return
        for p, row in enumerate(out):
            for q_, o in enumerate(row):
                want = (c["B"], c["co"] or c["cin"], shapes(c["o"][0], P)[p], shapes(c["o"][1], Q)[q_])
                cx.fact("local output shape", tuple(o[0].shape) == want, f"{tuple(o[0].shape)} != {want}")
                cx.fact("dtype kept", o[0].dtype == F32 and all(t.dtype == F32 for t in o[1]), str(o[0].dtype))
        cx.eq("gathered output == serial", cx.run(untile, [[o[0] for o in row] for row in out]), y, TOL)
        for j, n in enumerate(need):
            if n in "qkv":
                cx.eq(f"gathered gradient of {n} == serial", cx.run(untile, [[o[1][j] for o in row] for row in out]), dy[j], TOL)
            else:

                def total(j=j):
                    t = None
                    for row in out:
                        for o in row:
                            t = o[1][j] if t is None else t + o[1][j]
                    return t

                cx.eq(f"gradient of {n} summed over ranks == serial", cx.run(total), dy[j], TOL)

    return run


def stable(P, Q, c, lev):
    """Scores at fixed large offsets plus symbolic perturbations: same result as the serial layer."""

    def run(cx):
        ser = L.layer(c)
        p = L.params(cx, c, ser)
        A = 20.0
        dq = cx.inp("dq", (1, 1) + c["o"], F32, -0.02, 0.02)
        dk = cx.inp("dk", (1, 1) + c["i"], F32, -0.02, 0.02)
        v = cx.inp("v", (1, 1) + c["i"], F32)
        L.neighbours(c)
        base = torch.tensor([[lev[(h * c["i"][1] + w) % len(lev)] / A for w in range(c["i"][1])] for h in range(c["i"][0])], dtype=F32).reshape(1, 1, *c["i"])

        def apply(m, sl):
            L.set_params(m, p)
            x, y, z = [sl(t).contiguous().clone() for t in (A + dq, base + dk, v + 0.0)]
            for t in (x, y, z):
                t.requires_grad_(True)
            r = m(x, y, z)
            return (r,) + torch.autograd.grad(r, (x, y, z), torch.ones_like(r))

        want = cx.run(lambda: apply(ser, lambda t: t))
        out = spmd(cx, P, Q, lambda r: cx.run(lambda m: apply(m, lambda t: tile(t, r, P, Q)), dlayer(c)))
        for j, n in enumerate(("output", "dq", "dk", "dv")):
            cx.eq(f"{n} with scores near {lev} == serial", cx.run(untile, [[o[j] for o in row] for row in out]), want[j], 1e-2 if n in ("dq", "dk") else 1e-3)

    return run


def cases(tier):
    G, LB = "legendre-gauss", "lobatto"
    out = []

    def add(P, Q, need=("q", "k", "v"), grp="both", **k):
        c = L.mk(**k)
        out.append((f"{P}x{Q} {'' if grp == 'both' else grp + ' '}{'+'.join(need)} {L.name(c)}", case(P, Q, c, need, grp)))

    for P, Q in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)] + ([(4, 1), (1, 4), (3, 3), (4, 2)] if tier == "deep" else []):
        # same grid, uneven rows and columns
        add(P, Q, i=(4, 4), o=(4, 4), gi=G, go=G, cut=0.9)
        add(P, Q, i=(5, 5), o=(5, 5), gi=G, go=G, cut=0.7, cin=2, nh=2)
        # downsampling / upsampling in both directions
        if Q != 3:
            add(P, Q, i=(5, 8), o=(4, 4), gi=G, go=G, cut=0.6)
            add(P, Q, i=(4, 4), o=(5, 8), gi=G, go=G, cut=0.9)
            add(P, Q, i=(4, 8), o=(3, 2), gi=G, go=LB, cut=0.6, cin=2, nh=2)
            add(P, Q, i=(3, 2), o=(4, 8), gi=LB, go=G, cut=1.6, cin=2, ck=2, co=4, nh=2)
        else:
            add(P, Q, i=(4, 6), o=(4, 3), gi=G, go=G, cut=0.7)
            add(P, Q, i=(4, 3), o=(4, 6), gi=G, go=G, cut=1.1)
    for P, Q in ((2, 2), (2, 1), (1, 2)):
        for n in (("q",), ("k",), ("v",), ("q", "k"), ("k", "v")):
            add(P, Q, n, i=(4, 4), o=(4, 4), gi=G, go=G, cut=0.7, cin=2, nh=2)
            add(P, Q, n, i=(4, 2), o=(4, 4), gi=G, go=G, cut=1.7)
        add(P, Q, ("q",), i=(4, 4), o=(4, 4), gi=G, go=G, cut=0.9, selfatt="qkv")
        add(P, Q, ("q", "k"), i=(4, 4), o=(4, 4), gi=G, go=G, cut=0.9, selfatt="kv")
        add(P, Q, ("q", "k"), i=(4, 4), o=(4, 4), gi=G, go=G, cut=0.9, selfatt="v")
        add(P, Q, i=(4, 4), o=(4, 4), gi=G, go=G, cut=0.05, cin=2, scale=0.3)
        add(P, Q, i=(4, 4), o=(4, 4), gi=G, go=G, cut=0.9, cin=2, ck=1, co=3, B=2, bias=True)
        add(P, Q, i=(4, 2), o=(4, 4), gi=G, go=G, cut=1.7, cin=2, ck=1, co=3, B=2, bias=True)
        add(P, Q, i=(2, 2), o=(2, 2), gi=G, go=G, cut=0.9, cin=2, nh=1, qkn=True)
        add(P, Q, ("v",), i=(2, 4), o=(2, 4), gi=G, go=G, cut=1.3, cin=4, nh=2, qkn=True, scale=0.5)
        add(P, Q, ("q_weights", "k_weights", "v_weights", "proj_weights"), i=(4, 4), o=(4, 4), gi=G, go=G, cut=0.9, cin=2, nh=2)
        add(P, Q, ("q_bias", "k_bias", "v_bias", "proj_bias"), i=(4, 4), o=(4, 4), gi=G, go=G, cut=0.7, bias=True, sym=("q_bias", "k_bias", "v_bias", "proj_bias"))
        add(P, Q, i=(4, 4), o=(4, 4), cut=1.0)
        add(P, Q, i=(5, 4), o=(4, 4), gi=LB, go=G, cut=0.9)
    # decompositions that have to be refused (or handled)
    add(3, 1, i=(4, 2), o=(4, 2), gi=G, go=G, cut=2.0)
    add(4, 1, i=(4, 2), o=(4, 4), gi=G, go=G, cut=2.0)
    add(1, 3, i=(2, 12), o=(2, 4), gi=G, go=G, cut=1.3)
    add(1, 2, i=(2, 2), o=(2, 6), gi=G, go=G, cut=1.7)
    # halos of the size of a shard
    add(2, 1, i=(4, 2), o=(4, 2), gi=G, go=G, cut=1.6)
    add(3, 1, i=(6, 2), o=(6, 2), gi=G, go=G, cut=1.1)
    add(3, 1, i=(6, 2), o=(6, 4), gi=G, go=G, cut=1.6)
    add(2, 2, i=(6, 2), o=(3, 2), gi=G, go=G, cut=0.8)
    add(2, 2, i=(3, 2), o=(6, 2), gi=G, go=G, cut=1.3)
    for lev in ((-900.0,), (900.0,), (0.0, -900.0), (-2000.0, 1500.0, 20.0)):
        for P, Q in ((2, 1), (1, 2), (2, 2)):
            for k in (dict(i=(2, 4), o=(2, 4), gi=G, go=G, cut=1.3), dict(i=(2, 2), o=(2, 4), gi=G, go=G, cut=1.7)):
                c = L.mk(eye=True, **k)
                out.append((f"{P}x{Q} stable {lev} {L.name(c)}", stable(P, Q, c, lev)))
    for grp, P, Q in (("none", 1, 1), ("polar", 2, 1), ("azimuth", 1, 2)):
        add(P, Q, grp=grp, i=(4, 4), o=(4, 4), gi=G, go=G, cut=0.9)
        add(P, Q, grp=grp, i=(4, 2), o=(4, 4), gi=G, go=G, cut=1.7)
    return out
