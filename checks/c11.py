"""DISCO layers: longitudinal shift equivariance, locality, normalisation, linearity of channels."""
import math

import numpy as np
import torch

from vlib import csym
from vlib import disco_layers as L
from vlib import disco_spec as D
from vlib import oracle as O
from vlib.harness import F64
from vlib.util import set_param

FUNCTIONS = ["DiscreteContinuousConvS2.__init__/forward", "DiscreteContinuousConvTransposeS2.__init__/forward", "_precompute_convolution_tensor_s2", "_normalize_convolution_tensor_s2", "_disco_s2_contraction_optimized/_torch", "_disco_s2_transpose_contraction_optimized/_torch", "_disco_s2_fused_conv_optimized", "C++ disco_cpu_fwd and disco_cpu_bwd (source re-instantiated on symbolic scalars)"]
BOUNDS = "grids up to 6x12 (longitude ratio 1,2,3,4), every shift; every input and weight entry symbolic in [-1,1]; the field outside the cutoff replaced by independent symbols; listed bases, modes and cutoffs"


def pre():
    csym.install(("disco",))


def roll(x, s):
    n = x.shape[-1]
    s %= n
    return x if s == 0 else torch.cat([x[..., n - s:], x[..., :n - s]], -1)


def shift_case(c):
    """Turning the input about the polar axis turns the output."""
    def run(cx):
        m = L.layer(c)
        x = cx.inp("x", (1, c["cin"]) + c["i"])
        w = cx.inp("w", (c["cout"], c["cin"] // c["groups"], m.kernel_size))
        b = cx.inp("b", (c["cout"],)) if c["bias"] else None
        # one output step corresponds to `u` input steps (or the other way round)
        coarse = min(c["i"][1], c["o"][1])
        ui, uo = c["i"][1] // coarse, c["o"][1] // coarse

        def real():
            set_param(m, "weight", w)
            if b is not None:
                set_param(m, "bias", b)
            return [m(roll(x, ui * s)) for s in range(coarse)]

        ys = cx.run(real)
        for s in range(1, coarse):
            cx.eq(f"shift by {s}", ys[s], roll(ys[0], uo * s), 1e-9)

    return run


def local_case(c):
    """Output at a point depends only on the input within the cutoff radius (+0.1 %)."""
    def run(cx):
        m = L.layer(c)
        x = cx.inp("x", (1, c["cin"]) + c["i"])
        z = cx.inp("z", (1, c["cin"]) + c["i"])
        w = cx.inp("w", (c["cout"], c["cin"] // c["groups"], m.kernel_size))
        rc = L.cutoff(c) * (1 + 1e-3) + 1e-9
        ti = [float(v) for v in O.nodes(c["i"][0], c["gi"])[0]]
        to = [float(v) for v in O.nodes(c["o"][0], c["go"])[0]]
        ni, nl = c["i"]
        no, nm = c["o"]
        pts = [(h, j) for h in range(no) for j in {0, nm // 2, nm - 1}]

        def near(h, j):
            a = np.zeros((ni, nl))
            for k in range(ni):
                for p in range(nl):
                    r, _ = D.geometry(to[h], ti[k], 2 * math.pi * (p / nl - j / nm))
                    a[k, p] = float(r <= rc)
            return torch.from_numpy(a)

        def real():
            set_param(m, "weight", w)
            out = [m(x)]
            for h, j in pts:
                k = near(h, j)
                out.append(m(x * k + z * (1 - k)))
            return out

        ys = cx.run(real)
        for q, (h, j) in enumerate(pts):
            cx.eq(f"point {h},{j} ignores the field beyond the cutoff", ys[q + 1][:, :, h, j], ys[0][:, :, h, j], 1e-9)

    return run


def norm_case(c, lower):
    """Normalised filters: each basis function averages (|output| <= max |input|); nonnegative ones preserve constants."""
    def run(cx):
        m = L.layer(c)
        K = m.kernel_size
        W = L.psi_of(c)
        x = cx.inp("x", (1, 1) + c["i"])
        s = cx.inp("s", (1, 1, 1, 1))

        def real():
            a, k_ = [], []
            for k in range(K):
                w = torch.zeros(1, 1, K, dtype=F64)
                w[0, 0, k] = 1.0
                set_param(m, "weight", w)
                a.append(m(x))
                k_.append(m(s.expand(1, 1, *c["i"])))
            return torch.stack(a, 0), torch.stack(k_, 0)

        a, k_ = cx.run(real)
        one = torch.ones((), dtype=F64).expand(a.shape)
        if c["norm"] in ("nodal", "modal", "support"):
            cx.le("upper bound", a, one, 1e-6)
            cx.le("lower bound", -a, one, 1e-6)
        if not c["T"]:
            iso = D.isotropic(c["basis"], c["ks"])
            for k in range(K):
                for h in range(c["o"][0]):
                    wrow = W[k, h]
                    got = k_[k, 0, 0, h]
                    if c["norm"] == "modal" and not iso[k]:
                        cx.eq(f"constants are removed k={k} h={h}", got, torch.zeros(c["o"][1], dtype=F64), 1e-9)
                    elif c["norm"] in ("nodal", "modal") and lower and abs(wrow).sum() > 1e-6:
                        cx.eq(f"constants are kept k={k} h={h}", got, s.reshape(1).expand(c["o"][1]), 1e-9)

    return run


def group_case(c):
    """Output channels of one group ignore the other groups' inputs and weights."""
    def run(cx):
        m = L.layer(c)
        g, ci, co = c["groups"], c["cin"], c["cout"]
        x = cx.inp("x", (1, ci) + c["i"])
        z = cx.inp("z", (1, ci) + c["i"])
        w = cx.inp("w", (co, ci // g, m.kernel_size))
        v = cx.inp("v", (co, ci // g, m.kernel_size))
        for q in range(g):
            ki = torch.zeros(1, ci, 1, 1, dtype=F64)
            ki[:, q * (ci // g):(q + 1) * (ci // g)] = 1
            ko = torch.zeros(co, 1, 1, dtype=F64)
            ko[q * (co // g):(q + 1) * (co // g)] = 1

            def real():
                set_param(m, "weight", w)
                a = m(x)
                set_param(m, "weight", w * ko + v * (1 - ko))
                return a, m(x * ki + z * (1 - ki))

            a, b = cx.run(real)
            sl = slice(q * (co // g), (q + 1) * (co // g))
            cx.eq(f"group {q}", b[:, sl], a[:, sl], 1e-9)

    return run


def cases(tier):
    G = "legendre-gauss"
    out = []

    def add(kind, f, *a, **k):
        c = L.mk(**k)
        out.append((kind + " " + L.name(c), f(c, *a)))

    geo = [dict(i=(5, 8), o=(4, 8)), dict(i=(6, 12), o=(4, 6), gi=G, bias=True), dict(i=(4, 12), o=(4, 4), go=G, cut=0.8), dict(i=(4, 8), o=(3, 2), gi="lobatto", cut=1.2), dict(i=(4, 6), o=(4, 1), ks=2), dict(i=(4, 6), o=(3, 6), basis="zernike", ks=3, gi=G, go=G, norm="modal"), dict(i=(4, 6), o=(3, 6), basis="harmonic", ks=(2, 2), gi=G, go=G), dict(i=(4, 6), o=(3, 3), ks=(3, 4), go=G)]
    for k in geo:
        for path in ("opt", "fused", "torch"):
            add("shift", shift_case, path=path, **k)
        kt = dict(k, i=k["o"], o=k["i"], gi=k.get("go", "equiangular"), go=k.get("gi", "equiangular"), T=True)
        if kt["i"][0] > 1:
            for path in ("opt", "torch"):
                add("shift", shift_case, path=path, **kt)
    for k in [dict(i=(7, 12), o=(7, 12), ks=2), dict(i=(6, 12), o=(4, 6), cut=0.6, ks=2, gi=G), dict(i=(5, 8), o=(5, 8), go=G, ks=(2, 2), cut=0.7), dict(i=(6, 8), o=(6, 8), basis="zernike", ks=2, cut=0.5, gi="lobatto")]:
        for path in ("opt", "fused", "torch"):
            if path != "opt" and k["i"] == (7, 12):
                continue
            add("local", local_case, path=path, **k)
        kt = dict(k, i=k["o"], o=k["i"], gi=k.get("go", "equiangular"), go=k.get("gi", "equiangular"), T=True)
        add("local", local_case, path="opt", **kt)
    for path in ("opt", "torch"):
        for norm in ("nodal", "modal", "support"):
            for k in [dict(i=(5, 8), o=(4, 8), gi=G, go=G, ks=3, cut=0.9), dict(i=(6, 12), o=(4, 4), ks=(3, 3), gi=G, go=G, cut=0.8), dict(i=(5, 8), o=(5, 8), ks=2)]:
                add("norm", norm_case, True, path=path, norm=norm, **k)
            if norm != "support":
                add("norm", norm_case, False, path=path, norm=norm, i=(5, 8), o=(4, 8), gi=G, go=G, basis="zernike", ks=3, cut=0.9)
                add("norm", norm_case, False, path=path, norm=norm, i=(5, 8), o=(4, 8), gi=G, go=G, basis="harmonic", ks=(2, 2), cut=0.9)
    for path in ("opt", "fused", "torch"):
        add("groups", group_case, path=path, cin=4, cout=2, groups=2, ks=2, i=(4, 6), o=(3, 6))
        add("groups", group_case, path=path, cin=3, cout=6, groups=3, ks=2, i=(3, 4), o=(3, 2))
        add("groups", group_case, path=path, cin=4, cout=2, groups=2, ks=2, i=(3, 3), o=(4, 6), T=True)
    if tier == "deep":
        for k in [dict(i=(9, 18), o=(9, 18), ks=(3, 3)), dict(i=(10, 16), o=(7, 8), gi=G, basis="zernike", ks=3), dict(i=(8, 15), o=(6, 5), gi="lobatto", basis="fourier-bessel", ks=(2, 2)), dict(i=(8, 12), o=(8, 12), basis="harmonic", ks=(3, 2), go=G)]:
            for path in ("opt", "torch"):
                add("shift", shift_case, path=path, **k)
            add("local", local_case, **k)
            for norm in ("nodal", "modal"):
                add("norm", norm_case, False, norm=norm, **k)
    return out
