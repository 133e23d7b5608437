"""Gaussian random fields: sampled field = synthesis of noise scaled by the documented spectrum."""
import torch

import torch_harmonics  # noqa: F401
from checks import c02
from torch_harmonics.random_fields import GaussianRandomFieldS2
from vlib import oracle as O
from vlib.harness import C128, F64
from vlib.util import noise

FUNCTIONS = ["GaussianRandomFieldS2.__init__", "GaussianRandomFieldS2.forward (given noise and drawn noise)", "InverseRealSHT.forward"]
BOUNDS = "nlat<=6 (thorough <=9), N<=3; noise entries symbolic in [-3,3] (standard normals), amplitude sigma, inverse length tau and radius symbolic in given boxes for even integer exponents; exponent alpha concrete"


def spectrum(l, alpha, tau, sigma, radius):
    return sigma * (l * (l + 1) / radius**2 + tau**2) ** (-alpha / 2.0)


def fixed(nlat, alpha, tau, sigma, radius, grid, N):
    def run(cx):
        m = GaussianRandomFieldS2(nlat, alpha=alpha, tau=tau, sigma=sigma, radius=radius, grid=grid, dtype=F64)
        L, M = m.isht.lmax, m.isht.mmax
        sg = sigma if sigma is not None else tau ** (alpha - 1.0)
        E = torch.tensor([[spectrum(l, alpha, tau, sg, radius) if (m_ <= l and l > 0) else 0.0 for m_ in range(M)] for l in range(L)], dtype=F64)
        xi = cx.inp("xi", (N, L, M), C128, -3.0, 3.0)
        u = cx.run(lambda: m(N, xi))
        e = cx.run(lambda: c02.synth(torch.complex(xi.real * E, xi.imag * E), nlat, 2 * nlat, grid, "unnorm", True))
        cx.fact("shape", tuple(u.shape) == (N, nlat, 2 * nlat), str(tuple(u.shape)))
        tol = 2e-6 * max(1.0, float(E.max()) * 10)
        cx.eq("field is the synthesis of the scaled noise", u, e, tol)
        q = O.T([float(v) for v in O.nodes(nlat, grid)[1]])
        cx.eq("every realisation has zero mean", cx.run(lambda: torch.einsum("nkj,k->n", u, q) / (4 * nlat)), 0.0, tol)
        log = []
        with noise(cx, log):
            v = cx.run(lambda: m(N))
        cx.fact("drawn shape", tuple(v.shape) == (N, nlat, 2 * nlat), str(tuple(v.shape)))
        cx.fact("noise was drawn", len(log) >= 1 and sum(z.numel() for z in log) >= 2 * N * L * M, str([tuple(z.shape) for z in log]))
        if len(log) == 1 and log[0].numel() == 2 * N * L * M:
            z = cx.run(lambda: log[0].reshape(N, L, M, 2))
            e2 = cx.run(lambda: c02.synth(torch.complex(z[..., 0] * E, z[..., 1] * E), nlat, 2 * nlat, grid, "unnorm", True))
            cx.eq("drawn field is the synthesis of independent scaled noise", v, e2, tol)

    return run


def params(nlat, alpha, grid):
    """Spectrum with symbolic amplitude / length scale."""

    def run(cx):
        sg = cx.inp("sigma", (), F64, 0.5, 2.0)
        tau2 = cx.inp("tau", (), F64, 1.0, 3.0)
        m0 = GaussianRandomFieldS2(nlat, alpha=alpha, tau=2.0, sigma=1.0, grid=grid, dtype=F64)
        L, M = m0.isht.lmax, m0.isht.mmax
        k = 3  # one realisation, three coefficients
        xi = torch.zeros(1, L, M, dtype=C128)
        for l, m_ in ((1, 1), (2, 0), (min(3, L - 1), 1)):
            if m_ < M and m_ <= l < L:
                xi[0, l, m_] = 0.7 - 0.3j

        def go():
            m = GaussianRandomFieldS2(nlat, alpha=alpha, tau=tau2, sigma=sg, grid=grid, dtype=F64)
            return m(1, xi)

        u = cx.run(go)

        def spec():
            acc = None
            for l in range(1, L):
                c = torch.zeros(1, L, M, dtype=C128)
                c[0, l] = xi[0, l]
                if not c.abs().sum() > 0:
                    continue
                f = c02.synth(c, nlat, 2 * nlat, grid, "unnorm", True)
                t = sg * (l * (l + 1) + tau2**2) ** (-alpha // 2) * f
                acc = t if acc is None else acc + t
            return acc

        cx.eq("amplitude and length scale enter as documented", u, cx.run(spec), 1e-5)

    return run


def cases(tier):
    out = []
    cf = [(4, 2.0, 3.0, None, 1.0, "equiangular", 2), (5, 2.5, 5.0, None, 1.0, "legendre-gauss", 1), (4, 1.5, 2.0, 0.7, 2.0, "lobatto", 3), (6, 2.0, 1.0, 1.3, 0.5, "equiangular", 1), (3, 0.5, 2.0, 1.0, 1.0, "legendre-gauss", 2)]
    if tier != "quick":
        cf += [(9, 2.0, 3.0, None, 1.0, "equiangular", 2), (8, 3.0, 7.0, None, 1.5, "legendre-gauss", 1), (7, 1.2, 3.0, None, 3.0, "lobatto", 2)]
    for c in cf:
        out.append((f"{c[5]} nlat={c[0]} alpha={c[1]} tau={c[2]} sigma={c[3]} R={c[4]} N={c[6]}", fixed(*c)))
    for nlat, grid in ((4, "legendre-gauss"), (4, "equiangular")):
        for alpha in (2, 4):
            out.append((f"symbolic sigma,tau {grid} alpha={alpha}", params(nlat, alpha, grid)))
    return out
