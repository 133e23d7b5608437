"""Longitudinal Fourier wrappers."""
import torch

from torch_harmonics.fft import irfft, rfft
from vlib import oracle as O
from vlib.harness import C128, F64

FUNCTIONS = ["fft.rfft", "fft.irfft", "fft._pad_dim_right", "their autograd derivatives"]
NARROW = True
BOUNDS = "lengths 1..12 (thorough 1..20), 1..length+3 modes, every axis of tensors of rank <=3, the three scaling conventions; samples/modes symbolic in [-1,1]"


def fscale(n, norm, fwd):
    if norm == "ortho":
        return n**-0.5
    if norm == "forward":
        return 1.0 / n if fwd else 1.0
    return 1.0 if fwd else 1.0 / n


def spec_rfft(x, M, norm, dim):
    n = x.shape[dim]
    x = x.movedim(dim, -1)
    co, si = O.trig(M, n)
    full = n // 2 + 1
    mask = O.T([1.0 if m < full else 0.0 for m in range(M)])
    s = fscale(n, norm, True)
    y = torch.complex(torch.einsum("...j,mj->...m", x, co * mask[:, None] * s), torch.einsum("...j,mj->...m", x, -si * mask[:, None] * s))
    return y.movedim(-1, dim)


def spec_irfft(c, n, norm, dim):
    c = c.movedim(dim, -1)
    M = min(c.shape[-1], n // 2 + 1)
    c = c[..., :M]
    co, si = O.trig(M, n)
    w = O.mweight(M, n)
    one = (w == 2.0).to(F64)
    s = fscale(n, norm, False)
    x = torch.einsum("...m,mj->...j", c.real, co * w[:, None] * s) - torch.einsum("...m,mj->...j", c.imag, si * (w * one)[:, None] * s)
    return x.movedim(-1, dim)


def fwd(shape, dim, M, norm):
    def run(cx):
        x = cx.inp("x", shape, F64)
        x.requires_grad_(True)
        n = shape[dim]
        kw = {} if norm is None else {"norm": norm}
        y = cx.run(rfft, x, nmodes=M, dim=dim, **kw)
        e = cx.run(spec_rfft, x, n // 2 + 1 if M is None else M, norm, dim)
        cx.eq("rfft keeps the requested modes, zero beyond the resolved ones", y, e)
        g = cx.inp("g", y.shape, C128)
        cx.eq("gradient of rfft", cx.run(torch.autograd.grad, y, x, g)[0], cx.run(torch.autograd.grad, e, x, g)[0])

    return run


def inv(shape, dim, n, norm):
    def run(cx):
        c = cx.inp("c", shape, C128)
        c.requires_grad_(True)
        nn = 2 * (shape[dim] - 1) if n is None else n
        kw = {} if norm is None else {"norm": norm}
        y = cx.run(irfft, c, n=n, dim=dim, **kw)
        e = cx.run(spec_irfft, c, nn, norm, dim)
        cx.eq("irfft synthesises the real part of the modes", y, e)
        g = cx.inp("g", y.shape, F64)
        cx.eq("gradient of irfft", cx.run(torch.autograd.grad, y, c, g)[0], cx.run(torch.autograd.grad, e, c, g)[0])

    return run


def trip(n, norm):
    def run(cx):
        x = cx.inp("x", (2, n), F64)
        kw = {} if norm is None else {"norm": norm}
        y = cx.run(lambda t: irfft(rfft(t, **kw), n=n, **kw), x)
        cx.eq("irfft(rfft(x), n) == x", y, x)
        z = cx.run(lambda t: irfft(rfft(t, nmodes=n + 2, **kw), n=n, **kw), x)
        cx.eq("extra modes do not matter", z, x)

    return run


def cases(tier):
    out = []
    nmax = 12 if tier == "quick" else 20
    for n in range(1, nmax + 1):
        for norm in (None, "ortho", "forward"):
            out.append((f"trip n={n} {norm}", trip(n, norm)))
        for M in sorted({1, 2, n // 4 + 1, n // 2, n // 2 + 1, n // 2 + 2, n // 2 + 4} - {0}):
            out.append((f"rfft n={n} modes={M}", fwd((2, n), -1, M, "forward")))
    for shape, dim, M, norm in [((2, 6, 3), 1, 2, "forward"), ((5, 2), 0, 6, None), ((2, 3, 7), 2, None, "ortho"), ((6, 2, 2), -3, 3, "backward"), ((2, 3, 8), -2, 1, "forward"), ((8,), 0, 5, None)]:
        out.append((f"rfft {shape} dim={dim} modes={M} {norm}", fwd(shape, dim, M, norm)))
    for M in range(1, 8 if tier == "quick" else 12):
        for n in sorted({2 * M - 2, 2 * M - 1, 2 * M, 2 * M + 1, 2 * M + 5, max(1, M), max(1, M - 1)} - {0}):
            out.append((f"irfft modes={M} n={n}", inv((2, M), -1, n, "forward")))
    for shape, dim, n, norm in [((2, 4, 3), 1, 7, "forward"), ((4, 2), 0, 5, None), ((2, 3, 4), 2, None, "ortho"), ((4, 2, 2), -3, 10, "backward"), ((2, 4, 3), -2, 6, "forward"), ((5,), 0, 8, None)]:
        out.append((f"irfft {shape} dim={dim} n={n} {norm}", inv(shape, dim, n, norm)))
    return out
