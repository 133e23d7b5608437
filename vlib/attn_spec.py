"""Definition of (neighbourhood) attention on the sphere, in torch ops."""
import functools
import math

import numpy as np
import torch

from . import disco_spec as D
from . import oracle as O
from . import symtensor as S


@functools.lru_cache(None)
def neighbours(i, o, gi, go, cutoff):
    """For each output point (ho, wo): list of input points (hi, wi) within the cutoff (+0.1 %)."""
    ti = [float(v) for v in O.nodes(i[0], gi)[0]]
    to = [float(v) for v in O.nodes(o[0], go)[0]]
    rc = (1.0 + 1e-3) * cutoff
    out, margin = {}, math.inf
    for h in range(o[0]):
        for w in range(o[1]):
            ls = []
            for a in range(i[0]):
                for b in range(i[1]):
                    r, _ = D.geometry(to[h], ti[a], 2 * math.pi * (b / i[1] - w / o[1]))
                    margin = min(margin, abs(r - rc))
                    if r <= rc:
                        ls.append((a, b))
            out[h, w] = ls
    return out, margin


@functools.lru_cache(None)
def weights(nlat, nlon, grid):
    return [float(np.float32(2.0 * math.pi * np.float32(float(v)) / nlon)) for v in O.nodes(nlat, grid)[1]]


def default_cutoff(i, o):
    up = o[1] % i[1] == 0 and i[1] % o[1] != 0
    return math.pi / ((i if up else o)[0] - 1)


def rms(x, w, nh):
    """Root-mean-square normalisation per head, [B,C,H,W], gain 1+w."""
    B, C, H, W = x.shape
    c = C // nh
    x = x.reshape(B, nh, c, H, W)
    ms = (x * x).mean(dim=2, keepdim=True) + torch.finfo(x.dtype).eps
    return (x * ms ** -0.5 * (1 + w).reshape(1, 1, c, 1, 1)).reshape(B, C, H, W)


def lin(x, w, b):
    w = w.reshape(w.shape[0], w.shape[1])
    y = torch.einsum("bchw,oc->bohw", x, w)
    return y if b is None else y + b.reshape(1, -1, 1, 1)


def attend(q, k, v, nb, wq, nh, scale):
    """q [B,nh*c,Ho,Wo]; k,v on the input grid; nb from neighbours() (None: global)."""
    B, C, Ho, Wo = q.shape
    Hi, Wi = k.shape[-2:]
    c, cv = C // nh, v.shape[1] // nh
    q = q.reshape(B, nh, c, Ho, Wo)
    k = k.reshape(B, nh, c, Hi, Wi)
    v = v.reshape(B, nh, cv, Hi, Wi)
    rows = []
    for h in range(Ho):
        for w in range(Wo):
            num = den = None
            pts = nb[h, w] if nb is not None else [(a, b) for a in range(Hi) for b in range(Wi)]
            for a, b in pts:
                s = (q[:, :, :, h, w] * k[:, :, :, a, b]).sum(2) * scale
                e = torch.exp(s) * wq[a]
                t = e.unsqueeze(-1) * v[:, :, :, a, b]
                num = t if num is None else num + t
                den = e if den is None else den + e
            rows.append(num / den.unsqueeze(-1))
    return torch.stack(rows, -1).reshape(B, nh * cv, Ho, Wo)
