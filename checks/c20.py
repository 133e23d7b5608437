"""Results depend on configuration, parameters and input only: not on what was built, used or overwritten before."""
import functools
import gc

import torch

import torch_harmonics as th
from checks import c02, c03, c08
from vlib import attn_layers as AL
from vlib import csym
from vlib import disco_layers as L
from vlib import oracle as O
from vlib import symtensor as S
from vlib.harness import C128, F32, F64
from vlib.util import set_param

FUNCTIONS = ["lru_cache", "precompute_longitudes/latitudes", "_precompute_legpoly", "_precompute_dlegpoly", "get_filter_basis", "_precompute_convolution_tensor_s2", "constructors and forward of RealSHT, InverseRealSHT, (Inverse)RealVectorSHT, ResampleS2, QuadratureS2, SpectralConvS2, DiscreteContinuousConv(Transpose)S2, (Neighborhood)AttentionS2, GaussianRandomFieldS2"]
BOUNDS = "symbolic histories: two earlier constructions and the final one are symbolic choices from a menu per family, every tensor obtained from the earlier ones is overwritten in place; final result for every input in [-1,1]; repeated calls with two symbolic inputs"


def pre():
    csym.install(("disco", "attention"))


def clear():
    """Start from empty memo tables, so that the explored history is the whole history."""
    for o in gc.get_objects():
        if isinstance(o, functools._lru_cache_wrapper) and str(getattr(o.__wrapped__, "__module__", "")).startswith("torch_harmonics"):
            o.cache_clear()


def pick(i, n):
    for k in range(n - 1):
        if i == k:
            return k
    return n - 1


def tensors(o, seen, depth=0):
    """All tensors reachable from an object the user got hold of."""
    if id(o) in seen or depth > 6:
        return
    seen[id(o)] = o
    if isinstance(o, torch.Tensor):
        yield o
    elif isinstance(o, dict):
        for v in list(o.values()):
            yield from tensors(v, seen, depth + 1)
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from tensors(v, seen, depth + 1)
    elif isinstance(o, torch.nn.Module):
        yield from tensors(o.__dict__, seen, depth + 1)


def scribble(o):
    """The user overwrites everything the library handed out."""
    for t in tensors(o, {}):
        if S.is_sym(t):
            continue
        with torch.no_grad():
            if t.layout != torch.strided:
                t = t.values() if t.is_coalesced() else t._values()
            if t.dtype == torch.bool or not (t.is_floating_point() or t.is_complex()):
                t.zero_()
            else:
                t.fill_(7.5)


def history(menu):
    """menu: list of (build, check) ; earlier builds are overwritten, the final one is checked."""

    def run(cx):
        clear()
        n = len(menu)
        a, b, f = (cx.int_inp(s, 0, n - 1) for s in ("first", "second", "final"))
        a, b, f = pick(a, n), pick(b, n), pick(f, n)
        for k in (a, b):
            scribble(menu[k][0]())
        obj = menu[f][0]()
        menu[f][1](cx, obj)
        scribble(obj)

    return run


# --------------------------------------------------------------- families --
def grids():
    out = []
    for n, g in ((5, "legendre-gauss"), (6, "legendre-gauss"), (5, "lobatto"), (5, "equiangular"), (6, "equiangular")):
        def build(n=n, g=g):
            return th.quadrature.precompute_latitudes(n, grid=g)

        def check(cx, o, n=n, g=g):
            t, w = O.nodes(n, g)
            x = cx.inp("x", (n,), F64)
            cx.eq("latitudes", cx.run(lambda: o[0] * x), cx.run(lambda: O.T([float(v) for v in t]) * x), 1e-9)
            cx.eq("weights", cx.run(lambda: o[1] * x), cx.run(lambda: O.T([float(v) for v in w]) * x), 1e-9)

        out.append((build, check))
    for n in (5, 8):
        def build(n=n):
            return th.quadrature.precompute_longitudes(n)

        def check(cx, o, n=n):
            x = cx.inp("x", (n,), F64)
            cx.eq("longitudes", cx.run(lambda: o * x), cx.run(lambda: O.lon(n) * x), 1e-9)

        out.append((build, check))
    return out


def shts(inverse):
    out = []
    for grid, norm, cs, lm in (("legendre-gauss", "ortho", True, None), ("legendre-gauss", "schmidt", True, None), ("legendre-gauss", "ortho", False, None), ("equiangular", "ortho", True, 3), ("legendre-gauss", "ortho", True, 3)):
        cls = th.InverseRealSHT if inverse else th.RealSHT

        def build(grid=grid, norm=norm, cs=cs, lm=lm):
            return cls(5, 8, lmax=lm, grid=grid, norm=norm, csphase=cs)

        def check(cx, m, grid=grid, norm=norm, cs=cs, lm=lm):
            if inverse:
                c = cx.inp("c", (m.lmax, m.mmax), C128)
                cx.eq("synthesis", cx.run(m, c), cx.run(c02.synth, c, 5, 8, grid, norm, cs))
            else:
                f = cx.inp("f", (5, 8), F64)
                cx.eq("analysis", cx.run(m, f), cx.run(c02.analysis, f, m.lmax, m.mmax, grid, norm, cs))

        out.append((build, check))
    return out


def vshts():
    out = []
    for cls, grid, norm, cs in ((0, "legendre-gauss", "ortho", True), (1, "legendre-gauss", "ortho", True), (0, "legendre-gauss", "schmidt", True), (1, "legendre-gauss", "ortho", False), (0, "equiangular", "ortho", True)):
        def build(cls=cls, grid=grid, norm=norm, cs=cs):
            return (th.InverseRealVectorSHT if cls else th.RealVectorSHT)(4, 6, grid=grid, norm=norm, csphase=cs)

        def check(cx, m, cls=cls, grid=grid, norm=norm, cs=cs):
            if cls:
                c = cx.inp("c", (2, m.lmax, m.mmax), C128)
                cx.eq("vector synthesis", cx.run(m, c), cx.run(c03.synth, c, 4, 6, grid, norm, cs), 1e-6)
            else:
                f = cx.inp("f", (2, 4, 6), F64)
                cx.eq("vector analysis", cx.run(m, f), cx.run(c03.analysis, f, m.lmax, m.mmax, grid, norm, cs), 1e-6)

        out.append((build, check))
    return out


def resamplers():
    out = []
    for a, b, c, d, gi, go in ((4, 6, 5, 8, "equiangular", "legendre-gauss"), (4, 6, 5, 8, "legendre-gauss", "legendre-gauss"), (4, 6, 5, 8, "equiangular", "lobatto"), (5, 8, 4, 6, "legendre-gauss", "equiangular")):
        def build(a=a, b=b, c=c, d=d, gi=gi, go=go):
            return th.ResampleS2(a, b, c, d, grid_in=gi, grid_out=go)

        def check(cx, m, a=a, b=b, c=c, d=d, gi=gi, go=go):
            x = cx.inp("x", (a, b), F64)
            cx.eq("resampling", cx.run(m, x), cx.run(lambda: c08.oracle(x, a, gi, c, go, d)), 2e-6)

        out.append((build, check))
    return out


def discos(kind):
    G = "legendre-gauss"
    base = dict(i=(4, 6), o=(4, 6), gi=G, go=G, cut=0.9)
    if kind == "modes":
        cs = [dict(base, ks=2), dict(base, ks=2, norm="mean"), dict(base, ks=3), dict(base, ks=2, cut=1.1), dict(base, ks=2, T=True)]
    elif kind == "bases":
        cs = [dict(base, basis="harmonic", ks=(2, 1)), dict(base, basis="morlet", ks=(2, 1)), dict(base, basis="zernike", ks=2), dict(base, basis="fourier-bessel", ks=(1, 1)), dict(base, basis="piecewise linear", ks=(2, 2))]
    else:
        cs = [dict(base, ks=2, path="torch"), dict(base, ks=2, path="fused"), dict(base, ks=2, T=True, norm="support"), dict(base, ks=2, norm="support"), dict(base, ks=2, gi="lobatto")]
    out = []
    for c in [L.mk(**c) for c in cs]:
        def build(c=c):
            return L.layer(c)

        def check(cx, m, c=c):
            W = L.psi_of(c)
            x = cx.inp("x", (1, 1) + c["i"], F64)
            w = cx.inp("w", (1, 1, W.shape[0]), F64)

            def real():
                set_param(m, "weight", w)
                return m(x)

            cx.eq("convolution", cx.run(real), cx.run(lambda: L.spec(c, W, x, w, None)), L.tol(c))

        out.append((build, check))
    return out


def attns():
    G = "legendre-gauss"
    cs = [dict(), dict(i=(3, 4), o=(3, 4), gi=G, go=G, cut=1.3), dict(gi=G, go=G, cut=1.9), dict(glob=True, gi=G, go=G), dict(path="torch", gi=G, go=G, cut=1.3)]
    out = []
    for c in [AL.mk(eye=True, **c) for c in cs]:
        def build(c=c):
            return AL.layer(c)

        def check(cx, m, c=c):
            p = AL.params(cx, c, m)
            q = cx.inp("q", (1, 1) + c["o"], F32)
            k = torch.full((1, 1) + c["i"], 0.25)
            v = cx.inp("v", (1, 1) + c["i"], F32)

            def real():
                AL.set_params(m, p)
                return m(q, k, v)

            # equal keys: the softmax is the plain quadrature average
            cx.eq("attention", cx.run(real), cx.run(lambda: AL.spec(c, p, q, k, v)), 2e-5)

        out.append((build, check))
    return out


def basis_users(basis, ks):
    """The shared filter-basis object is not changed by using it."""
    from checks import c14

    def run(cx):
        clear()
        fb = th.filter_basis.get_filter_basis(ks, basis)
        n = cx.int_inp("uses", 0, 3)
        for j in range(pick(n, 4)):
            dt = (F32, F64)[j % 2]
            for rc in (0.7, 0.2):
                scribble(fb.compute_support_vals(torch.tensor([[0.05, 0.3]], dtype=dt), torch.tensor([[0.4, 4.0]], dtype=dt), r_cutoff=rc))
            scribble(fb.compute_l2_norms(0.5))
            scribble(fb.get_init_factors())
            mask = fb.isotropic_mask
            mask[0] = not mask[0]
        again = th.filter_basis.get_filter_basis(ks, basis)
        r = cx.inp("r", (1, 1), F64, 0.05, 0.06)
        phi = cx.inp("phi", (1, 1), F64, 0.4, 0.41)
        d, _, _ = c14.vals(cx, again, r, phi, 0.7)
        K = again.kernel_size
        cx.eq("basis values after use", d, cx.run(lambda: torch.stack([c14.spec(basis, ks, k, r, phi, 0.7) for k in range(K)])), 1e-7)
        cx.fact("isotropy after use", list(again.isotropic_mask) == c14.DS.isotropic(basis, ks), "")

    return run


# ------------------------------------------------------- purity of calls ---
def pure(build, shapes, dtype, params=()):
    """m(x1), m(x2), m(x1): first and last agree, inputs and module state are unchanged."""

    def run(cx):
        clear()
        m = build()
        xs = [[cx.inp(f"x{j}_{i}", s, dtype) for i, s in enumerate(shapes)] for j in range(2)]
        ps = {n: cx.inp(n, tuple(getattr(m, n).shape), getattr(m, n).dtype) for n in params if getattr(m, n) is not None}

        def real():
            for n, t in ps.items():
                set_param(m, n, t)
            state = [(n, t, t.clone()) for n, t in list(m.named_parameters()) + list(m.named_buffers()) if t.layout == torch.strided]
            keep = [[t.clone() for t in a] for a in xs]
            y0 = m(*xs[0])
            z0 = y0.clone()
            m(*xs[1])
            y1 = m(*xs[0])
            return y0, z0, y1, keep, state

        y0, z0, y1, keep, state = cx.run(real)
        tol = 1e-9 if dtype in (F64, C128) else 1e-6
        cx.eq("a second call returns the same result", y1, z0, tol)
        cx.eq("an earlier result is not overwritten by later calls", y0, z0, 0.0)
        for j in range(2):
            for i in range(len(shapes)):
                cx.eq("the input is not modified", xs[j][i], keep[j][i], 0.0)
        for n, t, u in state:
            if t.is_floating_point() or t.is_complex():
                cx.eq("parameters and buffers are not modified", t, u, 0.0)
            else:
                cx.fact("parameters and buffers are not modified", torch.equal(t, u), n)

    return run


def pures():
    G = "legendre-gauss"
    out = []
    out.append(("RealSHT", pure(lambda: th.RealSHT(5, 8), [(2, 5, 8)], F64)))
    out.append(("InverseRealSHT", pure(lambda: th.InverseRealSHT(5, 8), [(2, 3, 3)], C128)))
    out.append(("InverseRealSHT Nyquist", pure(lambda: th.InverseRealSHT(6, 8, lmax=5, mmax=5, grid=G), [(2, 5, 5)], C128)))
    out.append(("RealVectorSHT", pure(lambda: th.RealVectorSHT(4, 6, grid=G), [(2, 4, 6)], F64)))
    out.append(("InverseRealVectorSHT", pure(lambda: th.InverseRealVectorSHT(4, 6, grid=G), [(2, 4, 4)], C128)))
    for mode in ("bilinear",):
        out.append((f"ResampleS2 {mode}", pure(lambda mode=mode: th.ResampleS2(4, 6, 5, 8, grid_in="equiangular", grid_out=G, mode=mode), [(4, 6)], F64)))
        out.append((f"ResampleS2 {mode} lg", pure(lambda mode=mode: th.ResampleS2(4, 6, 5, 8, grid_in=G, grid_out="equiangular", mode=mode), [(4, 6)], F64)))
    out.append(("ResampleS2 identity", pure(lambda: th.ResampleS2(4, 6, 4, 6), [(4, 6)], F64)))
    out.append(("QuadratureS2", pure(lambda: th.QuadratureS2((4, 6)), [(1, 1, 4, 6)], F64)))
    out.append(("QuadratureS2 normalised", pure(lambda: th.QuadratureS2((4, 6), normalize=True), [(1, 1, 4, 6)], F64)))
    for bias in (False, True):
        out.append((f"SpectralConvS2 bias={bias}", pure(lambda bias=bias: th.SpectralConvS2((4, 6), (4, 6), 2, 2, bias=bias), [(1, 2, 4, 6)], F32, ("weight", "spectral_bias") if bias else ("weight",))))
    for path in ("opt", "fused", "torch"):
        for T in (False, True):
            if T and path == "fused":
                continue
            for ci, co in ((1, 2), (3, 1)):
                c = L.mk(i=(4, 6), o=(4, 3) if not T else (4, 12), gi=G, go=G, cut=0.9, ks=2, path=path, T=T, bias=True, cin=ci, cout=co)
                out.append((f"disco {path} {'T ' if T else ''}{ci}->{co}", pure(lambda c=c: L.layer(c), [(1, ci) + c["i"]], F64, ("weight", "bias"))))
    for c in (dict(), dict(o=(3, 2)), dict(i=(3, 2), o=(3, 4)), dict(path="torch"), dict(glob=True), dict(nh=2, cin=2, bias=True)):
        c = AL.mk(gi=G, go=G, cut=1.9, **c)
        out.append((f"attention {AL.name(c)}", pure(lambda c=c: AL.layer(c), [(1, c["cin"]) + c["o"], (1, c["cin"]) + c["i"], (1, c["cin"]) + c["i"]], F32)))
    return out


def cases(tier):
    out = [("history grids", history(grids())), ("history analysis", history(shts(False))), ("history synthesis", history(shts(True))), ("history vector", history(vshts())), ("history resampling", history(resamplers())), ("history disco modes", history(discos("modes"))), ("history disco bases", history(discos("bases"))), ("history disco paths", history(discos("paths"))), ("history attention", history(attns()))]
    out.append(("history mixed", history(grids()[:2] + shts(False)[:2] + resamplers()[:1] + discos("modes")[:1])))
    for basis, ks in (("piecewise linear", (3, 2)), ("harmonic", (2, 2)), ("zernike", 3), ("fourier-bessel", (2, 1))):
        out.append((f"filter basis {basis}", basis_users(basis, ks)))
    return out + [("calls " + n, f) for n, f in pures()]
