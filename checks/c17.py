"""Attention averages: constants and bounds kept, equivariant, local, heads/batch independent, stable for any score magnitude."""
import torch

from vlib import attn_layers as L
from vlib import csym
from vlib import symtensor as S
from vlib.harness import F32, F64
from vlib.util import set_param

FUNCTIONS = ["NeighborhoodAttentionS2.forward", "AttentionS2.forward", "_neighborhood_s2_attention_optimized", "_neighborhood_s2_attention_torch", "to_nhwc/to_nchw", "C++ s2_attn_fwd_kernel, s2_attn_fwd_upsample_kernel, s2_attn_bwd_kernel, s2_attn_bwd_upsample_kernel, permute kernels (source re-instantiated on symbolic scalars)"]
BOUNDS = "query/key/value symbolic in [-1,1] (all shifts of a field, every output latitude for locality); stability: scores = fixed offsets of magnitude up to 4000 per key plus symbolic perturbation, exp(x) treated as 0 below e^-700 and as overflow above e^700; grids 2x2..6x8, ratios 1/4..4, 1-3 heads; real arithmetic; tolerance 1e-4"


def pre():
    csym.install(("attention",))


def ratio(c):
    return (c["i"][1] // c["o"][1], 1) if c["i"][1] >= c["o"][1] else (1, c["o"][1] // c["i"][1])


def run_layer(c, m, p):
    def f(q, k, v):
        L.set_params(m, p)
        return m(q, k, v)

    return f


def constant_case(c):
    def run(cx):
        m = L.layer(c)
        p = L.params(cx, c, m)
        q, k, _ = L.inputs(cx, c)
        z = cx.inp("z", (c["B"], c["cin"], 1, 1), c["dtype"])
        y = cx.run(run_layer(c, m, p), q, k, z.expand(-1, -1, *c["i"]))
        cx.eq("a constant field is returned unchanged", y, z.expand(-1, -1, *c["o"]), 1e-4)

    return run


def bound_case(c):
    """v <= 1 everywhere implies output <= 1 (and v >= -1 implies output >= -1)."""
    def run(cx):
        m = L.layer(c)
        p = L.params(cx, c, m)
        q, k, _ = L.inputs(cx, c)
        u = cx.inp("u", (c["B"], c["cin"]) + c["i"], c["dtype"], 0.0, 2.0)
        f = run_layer(c, m, p)
        hi = cx.run(f, q, k, 1.0 - u)
        lo = cx.run(f, q, k, u - 1.0)
        one = torch.ones(())
        cx.le("output <= max of the values", hi, one.expand(hi.shape), 1e-4)
        cx.le("output >= min of the values", -lo, one.expand(lo.shape), 1e-4)

    return run


def shift_case(c):
    def run(cx):
        m = L.layer(c)
        p = L.params(cx, c, m)
        q, k, v = L.inputs(cx, c)
        f = run_layer(c, m, p)
        y = cx.run(f, q, k, v)
        a, b = ratio(c)
        for s in range(1, min(c["i"][1], c["o"][1])):
            ys = cx.run(f, torch.roll(q, s * b, -1), torch.roll(k, s * a, -1), torch.roll(v, s * a, -1))
            cx.eq(f"shift by {s}", ys, torch.roll(y, s * b, -1), 1e-4)

    return run


def local_case(c):
    def run(cx):
        m = L.layer(c)
        p = L.params(cx, c, m)
        q, k, v = L.inputs(cx, c)
        k2, v2 = (cx.inp(n, tuple(k.shape), c["dtype"]) for n in ("k2", "v2"))
        q2 = cx.inp("q2", tuple(q.shape), c["dtype"])
        f = run_layer(c, m, p)
        y = cx.run(f, q, k, v)
        nb = L.neighbours(c)
        for h in range(c["o"][0]):
            w = (2 * h) % c["o"][1]
            near = torch.zeros(c["i"])
            for a, b in nb[h, w]:
                near[a, b] = 1
            me = torch.zeros(c["o"])
            me[h, w] = 1

            def go():
                return f(q * me + q2 * (1 - me), k * near + k2 * (1 - near), v * near + v2 * (1 - near))

            z = cx.run(go)
            cx.eq(f"output ({h},{w}) depends on its own query and neighbourhood only", z[:, :, h, w], y[:, :, h, w], 1e-5)

    return run


def head_case(c):
    """Heads and batch items do not interact (identity projections)."""
    def run(cx):
        m = L.layer(c)
        p = L.params(cx, c, m)
        q, k, v = L.inputs(cx, c)
        f = run_layer(c, m, p)
        y = cx.run(f, q, k, v)
        nh, cc = c["nh"], c["cin"] // c["nh"]
        one = L.layer(dict(c, cin=cc, nh=1, B=1))
        p1 = L.params(cx, dict(c, cin=cc, nh=1), one)
        f1 = run_layer(c, one, p1)
        for b in range(c["B"]):
            for h in range(nh):
                s = slice(h * cc, (h + 1) * cc)
                e = cx.run(f1, q[b:b + 1, s], k[b:b + 1, s], v[b:b + 1, s])
                cx.eq(f"head {h} of item {b}", y[b:b + 1, s], e, 1e-4)

    return run


def stable_case(c, lev, grad=False):
    """Scores with offsets far outside the range of exp: softmax must depend on differences only."""
    def run(cx):
        m = L.layer(c)
        p = L.params(cx, c, m)
        dq = cx.inp("dq", (1, 1) + c["o"], c["dtype"], -0.02, 0.02)
        dk = cx.inp("dk", (1, 1) + c["i"], c["dtype"], -0.02, 0.02)
        v = cx.inp("v", (1, 1) + c["i"], c["dtype"])
        A = 20.0
        base = torch.tensor([[lev[(h * c["i"][1] + w) % len(lev)] / A for w in range(c["i"][1])] for h in range(c["i"][0])], dtype=c["dtype"]).reshape(1, 1, *c["i"])
        nb = L.neighbours(c)

        def go():
            L.set_params(m, p)
            x, y, z = A + dq, base + dk, v + 0.0
            if grad:
                for t in (x, y, z):
                    t.requires_grad_(True)
            r = m(x, y, z)
            return (r,) + (torch.autograd.grad(r, (x, y, z), torch.ones_like(r)) if grad else ())

        def spec():
            """Reference: weights relative to the largest offset in the neighbourhood."""
            wq = L.A.weights(c["i"][0], c["i"][1], c["gi"])
            x, y, z = A + dq, base + dk, v + 0.0
            if grad:
                for t in (x, y, z):
                    t.requires_grad_(True)
            rows = []
            for h in range(c["o"][0]):
                for w in range(c["o"][1]):
                    top = max(float(base[0, 0, a, b]) for a, b in nb[h, w])
                    num = den = 0.0
                    for a, b in nb[h, w]:
                        if A * (float(base[0, 0, a, b]) - top) < -500:
                            continue
                        e = torch.exp(x[0, 0, h, w] * (y[0, 0, a, b] - top)) * wq[a]
                        num, den = num + e * z[0, 0, a, b], den + e
                    rows.append(num / den)
            r = torch.stack(rows).reshape(1, 1, *c["o"])
            return (r,) + (torch.autograd.grad(r, (x, y, z), torch.ones_like(r)) if grad else ())

        ys, es = cx.run(go), cx.run(spec)
        for n, y, e in zip(("output", "dq", "dk", "dv"), ys, es):
            cx.eq(f"{n} with scores near {lev}", y, e, 1e-2 if n in ("dq", "dk") else 1e-3)

    return run


def layout_case(shape, how):
    def run(cx):
        from torch_harmonics.attention._layout import to_nchw, to_nhwc

        B, C, H, W = shape
        if how == "plain":
            x = cx.inp("x", shape, F32)
        elif how == "channels_last":
            x = cx.inp("x", (B, H, W, C), F32).permute(0, 3, 1, 2)
        elif how == "slice":
            x = cx.inp("x", (B, C + 1, H, W + 2), F32)[:, 1:, :, 1:-1]
        else:
            x = cx.inp("x", (C, B, W, H), F32).permute(1, 0, 3, 2)
        g = cx.inp("g", (B, H, W, C), F32)

        def go():
            a = x.clone(memory_format=torch.preserve_format).requires_grad_(True) if how == "plain" else x.detach().requires_grad_(True)
            n = to_nhwc(a)
            (d,) = torch.autograd.grad(n, a, g)
            b = n.detach().clone().requires_grad_(True)
            r = to_nchw(b)
            (e,) = torch.autograd.grad(r, b, d)
            return n, d, r, e

        n, d, r, e = cx.run(go)
        cx.eq("to_nhwc", n, x.permute(0, 2, 3, 1), 0.0)
        cx.eq("its gradient", d, g.permute(0, 3, 1, 2), 0.0)
        cx.eq("to_nchw inverts", r, x, 0.0)
        cx.eq("gradient of to_nchw", e, g, 0.0)

    return run


def cases(tier):
    G, LB = "legendre-gauss", "lobatto"
    out = []

    def add(kind, f, *a, **k):
        c = L.mk(**k)
        out.append((f"{kind} {L.name(c)}", f(c, *a)))

    geo = [dict(), dict(gi=G, go=G, i=(4, 6), o=(4, 6), cut=1.0), dict(i=(5, 8), o=(3, 4), gi=G), dict(i=(4, 9), o=(4, 3), gi=G, go=G, cut=0.9), dict(i=(3, 4), o=(3, 8)), dict(i=(3, 2), o=(4, 8), gi=LB, go=G, cut=1.9)]
    for path in ("opt", "torch"):
        for g in geo:
            add("constant", constant_case, path=path, eye=True, **g)
            add("bound", bound_case, path=path, eye=True, **g)
            add("shift", shift_case, path=path, **dict(g, cin=2, nh=2) if g.get("i", (3, 4))[0] < 4 else g)
        add("constant", constant_case, path=path, eye=True, cin=2, nh=2, qkn=True)
        add("constant", constant_case, path=path, eye=True, cin=2, nh=1, B=2, i=(3, 2), o=(3, 4), cut=1.7)
        for g in [dict(i=(4, 6), o=(4, 6), cut=0.9), dict(i=(5, 8), o=(5, 4), gi=G, go=G, cut=0.7), dict(i=(4, 4), o=(5, 8), gi=G, go=G, cut=0.95), dict(i=(5, 6), o=(4, 6), gi=LB, go=G, cut=0.8), dict(i=(4, 4), o=(4, 4), cut=0.3, gi=G, go=G), dict(i=(5, 8), o=(5, 8))]:
            add("local", local_case, path=path, **g)
        add("heads", head_case, path=path, eye=True, cin=2, nh=2, B=2, cut=1.2)
        add("heads", head_case, path=path, eye=True, cin=6, nh=3, i=(2, 4), o=(2, 2), gi=G, go=G, cut=1.3)
        add("heads", head_case, path=path, eye=True, cin=4, nh=2, i=(2, 2), o=(2, 4), gi=G, go=G, cut=1.7)
        for lev in ((-1000.0,), (1000.0,), (-3000.0, 2000.0, -1000.0), (4000.0, -2000.0)):
            for g in [dict(gi=G, go=G, i=(2, 3), o=(2, 3)), dict(gi=G, go=G, i=(2, 4), o=(2, 2), cut=1.3), dict(gi=G, go=G, i=(2, 2), o=(2, 4), cut=1.7)]:
                add(f"stable {lev}", stable_case, lev, False, path=path, eye=True, **g)
                add(f"stable gradient {lev}", stable_case, lev, True, path=path, eye=True, **g)
    for g in [dict(), dict(gi=G, i=(4, 6), o=(3, 3))]:
        add("constant", constant_case, glob=True, eye=True, **g)
        add("bound", bound_case, glob=True, eye=True, **g)
        add("shift", shift_case, glob=True, **g)
    add("heads", head_case, glob=True, eye=True, cin=2, nh=2, B=2)
    for lev in ((-1000.0,), (1000.0,)):
        add(f"stable {lev}", stable_case, lev, False, glob=True, eye=True, gi=G, go=G, i=(2, 3), o=(2, 3))
    for sh in [(1, 1, 2, 3), (2, 3, 1, 1), (1, 3, 2, 5), (2, 5, 3, 4), (1, 17, 2, 19), (1, 33, 1, 33), (3, 1, 1, 1)]:
        for how in ("plain", "channels_last", "slice", "permuted"):
            out.append((f"layout {how} {sh}", layout_case(sh, how)))
    if tier == "deep":
        for path in ("opt", "torch"):
            add("local", local_case, path=path, i=(7, 12), o=(7, 12))
            add("shift", shift_case, path=path, i=(6, 12), o=(6, 12), gi=G, go=G)
            add("shift", shift_case, path=path, i=(5, 12), o=(5, 4), gi=G, go=G, cin=2, nh=2)
            add("bound", bound_case, path=path, eye=True, i=(7, 12), o=(7, 12), cin=2, nh=2)
        for sh in [(2, 65, 3, 34), (1, 128, 4, 8)]:
            out.append((f"layout plain {sh}", layout_case(sh, "plain")))
    return out
