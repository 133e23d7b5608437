"""Filter bases: values, support, isotropy, partition of unity, boundary values."""
import contextlib
import math

import numpy as np
import torch

import torch_harmonics.filter_basis as FB
from vlib import disco_spec as DS
from vlib import symtensor as S
from vlib.harness import F32, F64

FUNCTIONS = ["PiecewiseLinearFilterBasis / HarmonicFilterBasis / ZernikeFilterBasis / FourierBesselFilterBasis: compute_support_vals, kernel_size, isotropic_mask, compute_l2_norms, get_init_factors", "get_filter_basis"]
BOUNDS = "every polar coordinate r in [0, 1.3 r_cutoff], phi in [-pi, 2 pi] (symbolic), r_cutoff in {0.3, 1, 1.7}; kernel shapes: piecewise linear nr<=7, nphi<=6, Zernike n<=12, harmonic/morlet <=4x4, Fourier-Bessel <=4x4; float64 and float32 callers"
ASSUME = ["Bessel functions: scipy's jv is replaced by its power series (truncation error below 1e-12 on the box); zeros and norms come from the code / mpmath as numbers"]


# ------------------------------------------------- numpy detour of the code --
class SymArray(np.lib.mixins.NDArrayOperatorsMixin):
    """Numpy view of a symbolic tensor."""

    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    shape = property(lambda s: tuple(s.t.shape))
    ndim = property(lambda s: s.t.dim())
    dtype = property(lambda s: np.dtype("float64"))

    def __getitem__(self, k):
        return SymArray(self.t[k])

    def __array__(self, *a, **k):
        raise S.Unsupported("symbolic data leaves torch")

    def reshape(self, *s):
        return SymArray(self.t.reshape(*s))

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        if method != "__call__" or any(k not in ("dtype", "casting") for k in kw):
            raise S.Unsupported(f"numpy {ufunc.__name__}.{method}")

        def u(a):
            return a.t if isinstance(a, SymArray) else torch.from_numpy(np.asarray(a, dtype=np.float64).copy()) if isinstance(a, np.ndarray) else float(a)

        n = ufunc.__name__
        a = [u(x) for x in args]
        if n in ("jv", "jn"):
            return SymArray(bessel(a[0], a[1]))
        f = {"multiply": lambda x, y: x * y, "add": lambda x, y: x + y, "subtract": lambda x, y: x - y, "divide": lambda x, y: x / y, "true_divide": lambda x, y: x / y, "negative": lambda x: -x, "absolute": torch.abs, "sin": torch.sin, "cos": torch.cos, "square": lambda x: x * x}.get(n)
        if f is None:
            raise S.Unsupported("numpy " + n)
        return SymArray(f(*a))

    def __array_function__(self, func, types, args, kw):
        def u(a):
            return a.t if isinstance(a, SymArray) else torch.as_tensor(np.asarray(a, dtype=np.float64))

        ax = kw.get("axis", args[1] if len(args) > 1 else 0)
        if func in (np.stack, np.concatenate):
            f = torch.stack if func is np.stack else torch.cat
            return SymArray(f([u(a) for a in args[0]], dim=ax))
        if func is np.expand_dims:
            return SymArray(args[0].t.unsqueeze(ax))
        raise S.Unsupported("numpy " + func.__name__)


def bessel(m, x, terms=None):
    """J_m(x) by its power series."""
    ms = m if isinstance(m, torch.Tensor) else None
    if ms is not None:
        if ms.dim() == 0:
            m = float(ms)
        else:
            raise S.Unsupported("vector of Bessel orders")
    m = int(m)
    if not isinstance(x, torch.Tensor):
        import mpmath

        return torch.tensor(float(mpmath.besselj(m, x)), dtype=F64)
    h = x / 2
    h2 = h * h
    out = None
    c = 1.0 / math.factorial(m)
    p = torch.ones_like(h)
    for _ in range(m):
        p = p * h
    for q in range(30):
        t = p * c
        out = t if out is None else out + t
        p = p * h2
        c = -c / ((q + 1) * (q + 1 + m))
    return out


@contextlib.contextmanager
def detour(cx):
    if not cx.symbolic:
        yield
        return
    tt, ta, tf = torch.tensor, torch.as_tensor, torch.from_numpy
    num = torch.Tensor.numpy

    def wrap(f):
        def g(x, *a, **k):
            if isinstance(x, SymArray):
                d = k.get("dtype") or (a[0] if a and isinstance(a[0], torch.dtype) else None)
                return x.t.clone() if d is None else x.t.to(d).clone()
            return f(x, *a, **k)

        return g

    def numpy(self, *a, **k):
        return SymArray(self) if S.is_sym(self) else num(self, *a, **k)

    torch.tensor, torch.as_tensor, torch.from_numpy = wrap(tt), wrap(ta), wrap(tf)
    torch.Tensor.numpy = numpy
    S.SymTensor.numpy = numpy
    try:
        yield
    finally:
        torch.tensor, torch.as_tensor, torch.from_numpy = tt, ta, tf
        torch.Tensor.numpy = num
        del S.SymTensor.numpy


def vals(cx, fb, r, phi, rc):
    """Dense values [K, *r.shape] and support mask; the code's own (indices, values) scattered."""

    def go():
        with detour(cx):
            iidx, v = fb.compute_support_vals(r, phi, r_cutoff=rc)
        K = fb.kernel_size
        d = torch.zeros((K,) + tuple(r.shape), dtype=r.dtype)
        m = torch.zeros((K,) + tuple(r.shape), dtype=torch.bool)
        rows = [[None] * (r.shape[0] * r.shape[1]) for _ in range(K)]
        for n, (k, a, b) in enumerate(iidx.tolist()):
            if rows[k][a * r.shape[1] + b] is not None:
                raise AssertionError("duplicate index in the support")
            rows[k][a * r.shape[1] + b] = v[n]
            m[k, a, b] = True
        z = torch.zeros((), dtype=v.dtype)
        d = torch.stack([torch.stack([z if e is None else e for e in row]) for row in rows]).reshape(d.shape)
        return d, m, v

    return cx.run(go)


def mk(basis, ks):
    if basis == "morlet":
        return FB.HarmonicFilterBasis(ks, normalize=False)
    return FB.get_filter_basis(ks, basis)


# --------------------------------------------------------- definition (torch) --
def circ(phi, p):
    """distance on the circle, phi in [-pi, 2 pi], p in [-pi, pi)"""
    d = (phi - p).abs()
    return torch.minimum(d, (2 * math.pi - d).abs())


def hat(d, w):
    return torch.clamp(1.0 - d / w, min=0.0)


def spec(basis, ks, k, r, phi, rc):
    """Value of basis function k inside the disk, with torch operations."""
    one = torch.ones_like(r)
    if basis == "piecewise linear":
        nr, nphi = DS._pl(ks)
        dr = 2 * rc / (nr + 1)
        if nphi == 1:
            return hat((r - (k * dr if nr % 2 else (k + 0.5) * dr)).abs(), dr)
        dphi = 2 * math.pi / nphi
        if nr % 2:
            if k == 0:
                return hat(r, dr)
            c, p = ((k - 1) // nphi + 1) * dr, ((k - 1) % nphi) * dphi - math.pi
            return hat((r - c).abs(), dr) * hat(circ(phi, p), dphi)
        c, p = (k // nphi + 0.5) * dr, (k % nphi) * dphi - math.pi
        # antipodal direction: phi + pi, i.e. the distance to p - pi (taken back to [-pi, pi))
        p2 = p - math.pi if p >= 0 else p + math.pi
        return hat((r - c).abs(), dr) * hat(circ(phi, p), dphi) + hat((-r - c).abs(), dr) * hat(circ(phi, p2), dphi)
    u = r / rc
    if basis in ("harmonic", "morlet"):
        a, b = (ks, ks) if isinstance(ks, int) else ks
        n, m = k % b, k // b
        x, y = u * torch.sin(phi), u * torch.cos(phi)
        fx, fy = (n + 1) // 2, (m + 1) // 2
        h = torch.cos(0.5 * math.pi * u) ** 2
        if fx:
            h = h * (torch.sin if n % 2 else torch.cos)(fx * math.pi * x)
        if fy:
            h = h * (torch.sin if m % 2 else torch.cos)(fy * math.pi * y)
        return h / DS._harm_norm(k, ks if isinstance(ks, int) else tuple(ks)) if basis == "harmonic" else h
    if basis == "zernike":
        n, l = 0, k
        while l > n:
            l -= n + 1
            n += 1
        m = 2 * l - n
        a = abs(m)
        R = torch.zeros_like(r)
        for q in range((n - a) // 2 + 1):
            c = (-1) ** q * math.factorial(n - q) // (math.factorial(q) * math.factorial((n + a) // 2 - q) * math.factorial((n - a) // 2 - q))
            t = one
            for _ in range(n - 2 * q):
                t = t * u
            R = R + c * t
        ang = -torch.sin(a * phi) if m < 0 else torch.cos(a * phi) if m else one
        return R * ang / math.sqrt(math.pi * (2 if m == 0 else 1) / (2.0 * (n + 1)))
    a, m, n, c = DS._bessel_index(ks if isinstance(ks, int) else tuple(ks))[k]
    import mpmath as mp

    nrm = abs(float(mp.besselj(m + 1, a))) / math.sqrt(2) * math.sqrt(2 * math.pi if m == 0 else math.pi)
    if r.dtype == F32:
        a = float(np.float32(a))
    ang = one if m == 0 else (torch.cos if c else torch.sin)(m * phi)
    return bessel(m, a * u) * ang / nrm


TOL = {F64: 1e-7, F32: 2e-5}


def point(basis, ks, rc, dtype, lo=0.0, hi=1.0, phil=-math.pi, phih=2 * math.pi):
    """One symbolic point inside the disk."""

    def run(cx):
        fb = mk(basis, ks)
        K = DS.kernel_size(basis, ks)
        cx.fact("number of basis functions", fb.kernel_size == K, f"{fb.kernel_size} instead of {K}")
        r = cx.inp("r", (1, 1), dtype, lo * rc, hi * rc * (1 - 1e-6))
        phi = cx.inp("phi", (1, 1), dtype, phil, phih)
        d, m, v = vals(cx, fb, r, phi, rc)
        e = cx.run(lambda: torch.stack([spec(basis, ks, k, r, phi, rc) for k in range(K)]))
        cx.fact("at least the precision of the caller", torch.promote_types(v.dtype, dtype) == v.dtype, str(v.dtype))
        cx.eq("value of the basis functions", d, e, TOL[dtype] * (10 if basis == "zernike" and dtype == F32 else 1))

    return run


def outside(basis, ks, rc, dtype):
    def run(cx):
        fb = mk(basis, ks)
        r = cx.inp("r", (1, 1), dtype, rc * (1 + 1e-6), 1.3 * rc)
        phi = cx.inp("phi", (1, 1), dtype, -math.pi, 2 * math.pi)
        d, m, v = vals(cx, fb, r, phi, rc)
        cx.fact("nothing beyond the cutoff radius", not bool(m.any()), str(m.nonzero().tolist()[:3]))
        cx.eq("value beyond the cutoff radius", d, torch.zeros_like(d), 0.0)

    return run


def iso(basis, ks, rc):
    def run(cx):
        fb = mk(basis, ks)
        K = fb.kernel_size
        cx.fact("isotropic functions", list(fb.isotropic_mask) == DS.isotropic(basis, ks), str(fb.isotropic_mask))
        r = cx.inp("r", (1, 1), F64, 0.0, rc * (1 - 1e-6))
        phi = cx.inp("phi", (1, 2), F64, -math.pi, 2 * math.pi)
        rr = cx.run(lambda: r.expand(1, 2).contiguous())
        if basis == "piecewise linear":
            phi = cx.run(lambda: torch.stack([phi[:, 0], phi[:, 0] * 0 + 0.321], -1))      # one direction fixed: fewer paths
        d, m, v = vals(cx, fb, rr, phi, rc)
        for k in range(K):
            if fb.isotropic_mask[k]:
                cx.eq(f"function {k} does not depend on the direction", d[k, :, 0], d[k, :, 1], 1e-7)

    return run


def unity(ks, rc):
    """Hat functions sum to one where the hats cover the disk."""

    def run(cx):
        fb = mk("piecewise linear", ks)
        nr, nphi = DS._pl(ks)
        dr = 2 * rc / (nr + 1)
        r = cx.inp("r", (1, 1), F64, (0.5 * dr if nr % 2 == 0 and nphi == 1 else 0.0), rc - dr)
        phi = cx.inp("phi", (1, 1), F64, -math.pi, 2 * math.pi)
        d, m, v = vals(cx, fb, r, phi, rc)
        s = cx.run(lambda: d.sum(0))
        cx.eq("partition of unity", s, torch.ones(1, 1, dtype=F64), 1e-7)
        cx.le("non-negative", cx.run(lambda: -d), 0.0, 1e-9)

    return run


def boundary(basis, ks, rc):
    """Fourier-Bessel and windowed bases vanish at the cutoff radius."""

    def run(cx):
        fb = mk(basis, ks)
        phi = cx.inp("phi", (1, 1), F64, -math.pi, 2 * math.pi)
        r = cx.run(lambda: phi * 0.0 + rc * (1 - 1e-12))
        d, m, v = vals(cx, fb, r, phi, rc)
        cx.eq("zero on the boundary", d, torch.zeros_like(d), 1e-7)

    return run


def several(basis, ks, rc, dtype):
    """A small array of points, each in a narrow box: indices and values belong together."""

    def run(cx):
        fb = mk(basis, ks)
        K = DS.kernel_size(basis, ks)
        n1, n2 = 2, 3
        base = torch.tensor([[0.13, 0.71, 0.44], [1.2, 0.27, 0.93]], dtype=F64)
        pb = torch.tensor([[0.31, 2.23, 5.8], [1.7, 3.9, -1.37]], dtype=F64)
        dr = cx.inp("dr", (n1, n2), dtype, -0.004, 0.004)
        dp = cx.inp("dp", (n1, n2), dtype, -0.01, 0.01)
        r = cx.run(lambda: dr * rc + (base * rc).to(dtype))
        phi = cx.run(lambda: dp + pb.to(dtype))
        d, m, v = vals(cx, fb, r, phi, rc)
        e = cx.run(lambda: torch.stack([spec(basis, ks, k, r, phi, rc) for k in range(K)]))
        inside = (base <= 1.0).expand(K, n1, n2)
        z = torch.zeros_like(d)
        cx.eq("values at an array of points", d, cx.run(lambda: torch.where(inside, e, z)), TOL[dtype] * (10 if basis == "zernike" and dtype == F32 else 1))

    return run


def init(basis, ks):
    def run(cx):
        fb = mk(basis, ks)
        K = DS.kernel_size(basis, ks)
        f = fb.get_init_factors()
        cx.eq("initial scale of the weights", f.to(F64), torch.full((K,), 1 / math.sqrt(K), dtype=F64), 1e-6)
        x = cx.inp("x", (1,), F64)
        cx.eq("trivial", x, x, 1.0)

    return run


def cases(tier):
    out = []
    deep = tier == "deep"
    PL = [1, 2, 3, 4, 5, 7, (3,), (1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (3, 4), (4, 2), (4, 3), (5, 3)] + ([(4, 4), (5, 4), (6, 3), (7, 6), (4, 5), 9, 8] if deep else [])
    ZK = [1, 2, 3, 4, 6, 9, 12] + ([5, 7, 8, 10, (3,)] if deep else [])
    HM = [1, 2, 3, (2, 3), (3, 1), (1, 4), (4, 4)] + ([5, (5, 3)] if deep else [])
    BS = [1, 2, (2, 1), (1, 3), 3, (3, 2)] + ([4, (4, 2), (2, 5)] if deep else [])
    for basis, shapes in (("piecewise linear", PL), ("zernike", ZK), ("harmonic", HM), ("morlet", HM[:5]), ("fourier-bessel", BS)):
        for ks in shapes:
            for rc, dt in ((1.0, F64), (0.3, F64)) + (((1.7, F64), (0.3, F32)) if ks in shapes[:5] else ()):
                if dt == F32 and basis == "fourier-bessel":
                    continue
                out.append((f"{basis} {ks} value rc={rc} {'f32' if dt == F32 else 'f64'}", point(basis, ks, rc, dt)))
            out.append((f"{basis} {ks} outside", outside(basis, ks, 0.7, F64)))
            out.append((f"{basis} {ks} isotropy", iso(basis, ks, 0.7)))
            out.append((f"{basis} {ks} points", several(basis, ks, 0.45, F64)))
            out.append((f"{basis} {ks} points f32", several(basis, ks, 0.45, F32)))
            if basis not in ("morlet",):
                out.append((f"{basis} {ks} init", init(basis, ks)))
            if basis in ("fourier-bessel", "harmonic"):
                out.append((f"{basis} {ks} boundary", boundary(basis, ks, 0.6)))
            if basis == "piecewise linear" and DS._pl(ks)[0] > 1:
                out.append((f"{basis} {ks} unity", unity(ks, 0.8)))
    return out
