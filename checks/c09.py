"""DISCO convolution = its definition, on every code path."""
from vlib import csym
from vlib import disco_layers as L
from vlib import disco_spec as D
from vlib.harness import F32, F64
from vlib.util import set_param

FUNCTIONS = ["DiscreteContinuousConvS2.__init__/forward", "_precompute_convolution_tensor_s2", "_normalize_convolution_tensor_s2", "compute_support_vals (piecewise linear, harmonic, morlet, zernike, fourier-bessel)", "preprocess_psi", "_get_psi", "_build_kernel_split_csr", "_disco_s2_contraction_optimized", "_disco_s2_fused_conv_optimized", "_DiscoSaveXConvFn.forward", "_disco_s2_contraction_torch", "C++ disco_cpu_fwd / disco_fwd_cpu_impl (source re-instantiated on symbolic scalars)"]
BOUNDS = "grids up to 7x12 -> 6x12 (pscale 1,2,3,4), <=4 channels, <=2 groups, batch <=2; every input, weight and bias entry symbolic in [-1,1]; five bases, six normalisation modes, listed cutoffs; filter tensor at the listed configurations"


def pre():
    csym.install(("disco",))


def case(c):
    def run(cx):
        W = L.psi_of(c)
        m = L.layer(c)
        dt = c["dtype"]
        cx.fact("number of basis functions", m.kernel_size == W.shape[0], f"{m.kernel_size} {W.shape[0]}")
        K = W.shape[0]
        x = cx.inp("x", (c["B"], c["cin"]) + c["i"], dt)
        w = cx.inp("w", (c["cout"], c["cin"] // c["groups"], K), dt)
        b = cx.inp("b", (c["cout"],), dt) if c["bias"] else None

        def real():
            set_param(m, "weight", w)
            if b is not None:
                set_param(m, "bias", b)
            return m(x)

        y = cx.run(real)
        e = D.mix(D.contract(x, W, c["o"][1]), w, c["groups"])
        if b is not None:
            e = e + b.reshape(1, -1, 1, 1)
        cx.eq("output equals the quadrature sum over the filter support", y, e, L.tol(c))
        cx.fact("dtype kept", y.dtype == dt, str(y.dtype))

    return run


def cfgs(tier):
    G = "legendre-gauss"
    out = []
    # all bases x modes on one grid pair
    for basis, ks in [("piecewise linear", 3), ("piecewise linear", 2), ("piecewise linear", (3, 3)), ("piecewise linear", (2, 4)), ("harmonic", (2, 2)), ("zernike", 3), ("fourier-bessel", (2, 1))]:
        for norm in ("nodal", "modal", "mean", "support", "geometric", "none"):
            for path in ("opt", "torch"):
                if path == "torch" and norm not in ("nodal", "mean"):
                    continue
                out.append(dict(basis=basis, ks=ks, norm=norm, path=path, gi=G, go=G, i=(5, 8), o=(4, 8), cut=0.9))
    # geometry, strides, channels, groups, code paths
    for path in ("opt", "fused", "torch"):
        out += [
            dict(path=path, i=(5, 8), o=(5, 8)),
            dict(path=path, i=(6, 12), o=(4, 6), gi=G, bias=True),
            dict(path=path, i=(7, 12), o=(4, 4), go=G, cut=0.8),
            dict(path=path, i=(4, 8), o=(3, 2), gi="lobatto", cut=1.2),
            dict(path=path, i=(4, 8), o=(5, 8), go="lobatto", cut=0.7),
            dict(path=path, cin=2, cout=4, groups=2, bias=True, B=2, ks=2),
            dict(path=path, cin=4, cout=2, groups=2, bias=True, ks=2, i=(4, 6), o=(3, 3)),
            dict(path=path, cin=4, cout=1, groups=1, ks=(2, 2), i=(4, 6), o=(3, 3), gi=G, go=G),
            dict(path=path, cin=2, cout=1, groups=1, ks=5, i=(4, 6), o=(4, 6), gi=G, go=G, cut=0.35),   # kernels with empty rows
            dict(path=path, cin=2, cout=2, ks=2, i=(4, 6), o=(3, 6), dtype=F32, bias=True),
            dict(path=path, i=(4, 10), o=(4, 2), cut=0.9, ks=2),
            dict(path=path, i=(5, 9), o=(4, 3), cut=0.9, ks=1),
            dict(path=path, i=(6, 4), o=(7, 4), ks=2, gi=G, go=G, cut=0.8),   # more latitudes than longitudes
            dict(path=path, i=(4, 4), o=(6, 2), ks=2, cut=0.9),
        ]
    out += [dict(basis="morlet", ks=(2, 2), norm="nodal", gi=G, go=G, cut=0.9), dict(cut=0.05, ks=3, gi=G, go=G, i=(4, 6), o=(3, 6)), dict(i=(3, 1), o=(3, 1), cut=1.0), dict(i=(3, 2), o=(4, 1), cut=1.0, gi=G), dict(i=(5, 12), o=(1, 6), ks=3, gi=G, go=G, cut=1.6), dict(i=(5, 6), o=(1, 6), ks=(2, 3), gi=G, go=G, cut=1.6, path="fused"), dict(cut=0.05, ks=3, gi=G, go=G, i=(4, 6), o=(3, 6), cin=4, path="fused")]
    if tier == "deep":
        for i, o in [((9, 16), (9, 16)), ((9, 16), (5, 8)), ((12, 24), (6, 6)), ((8, 15), (8, 5)), ((10, 20), (7, 4))]:
            for basis, ks in [("piecewise linear", (3, 4)), ("harmonic", (3, 3)), ("zernike", 4), ("fourier-bessel", (3, 2))]:
                for g in (G, "lobatto"):
                    out.append(dict(i=i, o=o, basis=basis, ks=ks, gi=g, go=g))
    return [L.mk(**c) for c in out]


def cases(tier):
    out = []
    for c in cfgs(tier):
        n = L.name(c)
        out.append((n, case(c)))
    return out
