"""DISCO transpose convolution = its definition, and the adjoint of the convolution."""
import numpy as np
import torch

import torch_harmonics as th
from vlib import csym
from vlib import disco_layers as L
from vlib import disco_spec as D
from vlib import oracle as O
from vlib.harness import F32, F64
from vlib.util import set_param

FUNCTIONS = ["DiscreteContinuousConvTransposeS2.__init__/forward", "DiscreteContinuousConvS2.forward", "_precompute_convolution_tensor_s2 (transpose normalisation)", "_normalize_convolution_tensor_s2", "preprocess_psi", "_get_psi(semi_transposed)", "_disco_s2_transpose_contraction_optimized", "_disco_s2_transpose_contraction_torch", "C++ disco_cpu_bwd and disco_cpu_fwd (source re-instantiated on symbolic scalars)"]
BOUNDS = "grids up to 6x12 (longitude ratio 1,2,3,4), <=4 channels, <=2 groups, batch <=2, every input, weight, bias entry symbolic in [-1,1]; kernel-level cases additionally with every filter value symbolic on arbitrary sparse patterns (K<=4, up to 30 entries)"


def pre():
    csym.install(("disco",))


def layer_case(c):
    def run(cx):
        W = L.psi_of(c)
        m = L.layer(c)
        dt = c["dtype"]
        K = W.shape[0]
        cx.fact("number of basis functions", m.kernel_size == K, f"{m.kernel_size} {K}")
        x = cx.inp("x", (c["B"], c["cin"]) + c["i"], dt)
        w = cx.inp("w", (c["cout"], c["cin"] // c["groups"], K), dt)
        b = cx.inp("b", (c["cout"],), dt) if c["bias"] else None

        def real():
            set_param(m, "weight", w)
            if b is not None:
                set_param(m, "bias", b)
            return m(x)

        y = cx.run(real)
        cx.eq("output equals the adjoint quadrature sum", y, L.spec(c, W, x, w, b), L.tol(c))
        cx.fact("dtype kept", y.dtype == dt, str(y.dtype))

    return run


def adjoint_case(c):
    """<C x, y> = <x, T y> in the quadrature inner products (unnormalised or geometrically normalised filters)."""
    def run(cx):
        ct = dict(c, T=True, i=c["o"], o=c["i"], gi=c["go"], go=c["gi"], cin=c["cout"], cout=c["cin"])
        if ct["cut"] is None:
            ct["cut"] = L.cutoff(c)
        f, t = L.layer(c), L.layer(ct)
        K = f.kernel_size
        x = cx.inp("x", (1, c["cin"]) + c["i"])
        y = cx.inp("y", (1, c["cout"]) + c["o"])
        w = cx.inp("w", (c["cout"], c["cin"], K))

        def real():
            set_param(f, "weight", w)
            set_param(t, "weight", w.transpose(0, 1).contiguous())
            return f(x), t(y)

        a, b = cx.run(real)
        qi = torch.tensor([float(v) for v in O.nodes(c["i"][0], c["gi"])[1]], dtype=F64) / (2 * c["i"][1])
        qo = torch.tensor([float(v) for v in O.nodes(c["o"][0], c["go"])[1]], dtype=F64) / (2 * c["o"][1])
        cx.eq("adjoint in the quadrature inner product", (a * y * qo.reshape(-1, 1)).sum(), (x * b * qi.reshape(-1, 1)).sum(), 1e-6)

    return run


def pattern(seed, K, Ho, Hi, Wi, dens, only=None):
    """A sparse pattern of (kernel, output row, input column) entries, row major as the layer builds it."""
    st = np.random.RandomState(seed)
    ent = []
    for h in range(Ho):
        for k in range(K):
            if only is not None and (k, h) not in only:
                continue
            for c in range(Hi * Wi):
                if st.rand() < dens:
                    ent.append((k, h, c))
    return ent


def kernel_case(K, Ho, Wo, Hi, Wi, seed, dens, only=None, B=1, C=1, dt=F64):
    def run(cx):
        from disco_helpers import preprocess_psi

        ent = pattern(seed, K, Ho, Hi, Wi, dens, only)
        ker = torch.tensor([e[0] for e in ent], dtype=torch.int64)
        row = torch.tensor([e[1] for e in ent], dtype=torch.int64)
        col = torch.tensor([e[2] for e in ent], dtype=torch.int64)
        ids = torch.arange(len(ent), dtype=torch.float64)
        roff = preprocess_psi(K, Ho, ker, row, col, ids)
        perm = ids.to(torch.int64)
        v0 = cx.inp("v", (len(ent),), dt)
        W = torch.zeros(K * Ho * Hi * Wi, dtype=dt)
        flat = torch.tensor([(k * Ho + h) * Hi * Wi + c for k, h, c in ent], dtype=torch.int64)
        sel = torch.zeros(K * Ho * Hi * Wi, len(ent), dtype=dt)
        sel[flat, torch.arange(len(ent))] = 1.0
        W = (sel @ v0.reshape(-1, 1)).reshape(K, Ho, Hi, Wi)
        vals = v0[perm]
        x = cx.inp("x", (B, C, Hi, Wi), dt)
        y = cx.inp("y", (B, C, K, Ho, Wo), dt)
        ops = torch.ops.disco_kernels
        a = cx.run(ops.forward.default, x, roff, ker, row, col, vals, K, Ho, Wo)
        b = cx.run(ops.backward.default, y, roff, ker, row, col, vals, K, Hi, Wi)
        tol = 1e-9 if dt == F64 else 1e-5
        cx.eq("forward kernel", a, D.contract(x, W, Wo), tol)
        cx.eq("backward kernel is the exact transpose", b, D.contract_t(y, W, Wi), tol)

    return run


def cases(tier):
    G = "legendre-gauss"
    out = []

    def add(**k):
        c = L.mk(T=True, **k)
        out.append((L.name(c), layer_case(c)))

    for basis, ks in [("piecewise linear", 3), ("piecewise linear", 2), ("piecewise linear", (3, 3)), ("piecewise linear", (2, 4)), ("harmonic", (2, 2)), ("zernike", 3), ("fourier-bessel", (2, 1))]:
        for norm in ("nodal", "modal", "mean", "support", "geometric", "none"):
            for path in ("opt", "torch"):
                if path == "torch" and norm not in ("nodal", "geometric"):
                    continue
                add(basis=basis, ks=ks, norm=norm, path=path, gi=G, go=G, i=(4, 8), o=(5, 8), cut=0.9)
    for path in ("opt", "torch"):
        add(path=path, i=(5, 8), o=(5, 8))
        add(path=path, i=(4, 6), o=(6, 12), go=G, bias=True)
        add(path=path, i=(4, 4), o=(6, 12), gi=G, cut=0.8)
        add(path=path, i=(3, 2), o=(4, 8), go="lobatto", cut=1.2)
        add(path=path, i=(5, 8), o=(4, 8), gi="lobatto", cut=0.7)
        add(path=path, cin=2, cout=4, groups=2, bias=True, B=2, ks=2)
        add(path=path, cin=4, cout=2, groups=2, bias=True, ks=2, i=(3, 3), o=(4, 6))
        add(path=path, cin=2, cout=1, ks=5, i=(4, 6), o=(4, 6), gi=G, go=G, cut=0.35)
        add(path=path, cin=2, cout=2, ks=2, i=(3, 6), o=(4, 6), dtype=F32, bias=True)
        add(path=path, i=(4, 2), o=(4, 10), cut=0.9, ks=2)
        add(path=path, i=(4, 3), o=(5, 9), cut=0.9, ks=1)
    add(cut=0.05, ks=3, gi=G, go=G, i=(3, 6), o=(4, 6))
    add(i=(1, 6), o=(5, 12), ks=3, gi=G, go=G, cut=1.6)
    add(i=(3, 1), o=(3, 2), cut=1.0)
    for norm in ("none", "geometric"):
        for path in ("opt", "torch"):
            for k in [dict(i=(5, 8), o=(4, 8), gi=G, go=G, ks=(2, 3)), dict(i=(6, 12), o=(4, 4), ks=3, cin=2), dict(i=(5, 8), o=(5, 8), go="lobatto", ks=2, cout=2), dict(i=(4, 6), o=(3, 2), gi="lobatto", basis="zernike", ks=2, cut=1.1), dict(i=(4, 8), o=(5, 4), gi=G, basis="harmonic", ks=(2, 2), cut=0.8)]:
                c = L.mk(norm=norm, path=path, **k)
                out.append(("adjoint " + L.name(c), adjoint_case(c)))
    for p in [(2, 3, 4, 3, 4, 1, .3), (2, 3, 3, 3, 6, 2, .2), (3, 2, 2, 3, 6, 3, .2), (1, 4, 2, 3, 8, 4, .2), (4, 2, 1, 2, 3, 5, .4), (2, 1, 3, 3, 3, 6, .5), (3, 3, 2, 2, 4, 7, .4, ((0, 1), (1, 1), (2, 0))), (3, 3, 4, 2, 4, 8, .4, ((2, 2),)), (2, 3, 2, 2, 10, 9, .15), (2, 2, 5, 2, 5, 10, .5)]:
        out.append((f"kernel {p}", kernel_case(*p)))
    out.append(("kernel batch", kernel_case(2, 2, 2, 2, 4, 11, .3, None, 2, 3)))
    out.append(("kernel float32", kernel_case(2, 2, 3, 2, 3, 12, .4, None, 1, 2, F32)))
    out.append(("kernel many channels", kernel_case(2, 2, 2, 2, 2, 13, .5, None, 1, 9)))
    out.append(("kernel wide", kernel_case(1, 2, 20, 2, 20, 14, .1)))
    if tier == "deep":
        for i, o in [((9, 16), (9, 16)), ((5, 8), (9, 16)), ((6, 6), (12, 24)), ((8, 5), (8, 15)), ((7, 4), (10, 20))]:
            for basis, ks in [("piecewise linear", (3, 4)), ("harmonic", (3, 3)), ("zernike", 4), ("fourier-bessel", (3, 2))]:
                for g in (G, "lobatto"):
                    add(i=i, o=o, basis=basis, ks=ks, gi=g, go=g)
        for s in range(40):
            out.append((f"kernel pattern {s}", kernel_case(1 + s % 4, 1 + s % 5, 1 + s % 3, 2 + s % 3, (1 + s % 3) * (1 + s % 4), 100 + s, .3)))
    return out
