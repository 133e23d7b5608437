"""Configurations of the DISCO layers shared by several checks."""
import math

import torch

import torch_harmonics as th

from . import disco_spec as D
from . import symtensor as S
from .harness import F64

DEF = dict(cin=1, cout=1, i=(5, 8), o=(4, 4), ks=(3, 1), basis="piecewise linear", norm="nodal", groups=1, gi="equiangular", go="equiangular", bias=False, cut=None, path="opt", B=1, dtype=F64, T=False)


def mk(**k):
    d = dict(DEF, **k)
    if d["T"] and "i" not in k:
        d["i"], d["o"] = d["o"], d["i"]
    return d


def layer(c):
    kw = dict(basis_type=c["basis"], basis_norm_mode=c["norm"], groups=c["groups"], grid_in=c["gi"], grid_out=c["go"], bias=c["bias"], theta_cutoff=c["cut"], optimized_kernel=c["path"] != "torch")
    if c["T"]:
        return th.DiscreteContinuousConvTransposeS2(c["cin"], c["cout"], c["i"], c["o"], c["ks"], **kw)
    return th.DiscreteContinuousConvS2(c["cin"], c["cout"], c["i"], c["o"], c["ks"], fused=c["path"] == "fused", **kw)


def cutoff(c):
    return c["cut"] if c["cut"] is not None else math.pi / ((c["i"] if c["T"] else c["o"])[0] - 1)


def _psi(c):
    if c["T"]:
        return D.psi(c["o"], c["i"], c["ks"], c["basis"], c["go"], c["gi"], cutoff(c), c["norm"], True)
    return D.psi(c["i"], c["o"], c["ks"], c["basis"], c["gi"], c["go"], cutoff(c), c["norm"])


def psi_of(c):
    _, W, margin, _ = _psi(c)
    if margin < 1e-7:
        raise S.Unsupported("harness: a grid point lies on the cutoff")
    return W


def tol(c):
    """Rows of rounding noise are normalised by max(scale, 1e-9): allow 1e-6 there."""
    if c["dtype"] != F64:
        return 2e-4
    return 2e-6 if _psi(c)[3] else 1e-7


def mix_t(x, w, groups):
    """[B,C,H,W], [O,C/groups,K] -> [B,O,K,H,W]."""
    B, C, H, Wd = x.shape
    O_, cg, K = w.shape
    og = O_ // groups
    outs = []
    for o in range(O_):
        g = o // og
        row = []
        for k in range(K):
            acc = None
            for c in range(cg):
                t = w[o, c, k] * x[:, g * cg + c]
                acc = t if acc is None else acc + t
            row.append(acc)
        outs.append(torch.stack(row, 1))
    return torch.stack(outs, 1)


def spec(c, W, x, w, b):
    """The layer's output by definition."""
    if c["T"]:
        e = D.contract_t(mix_t(x, w, c["groups"]), W, c["o"][1])
    else:
        e = D.mix(D.contract(x, W, c["o"][1]), w, c["groups"])
    if b is not None:
        e = e + b.reshape(1, -1, 1, 1)
    return e


def name(c):
    return f"{'T ' if c['T'] else ''}{c['path']} {c['basis']} {c['ks']} {c['norm']} {c['gi']}{c['i']}->{c['go']}{c['o']} ch{c['cin']}->{c['cout']} g{c['groups']} bias={c['bias']} B={c['B']} cut={c['cut']} {str(c['dtype'])[6:]}"
