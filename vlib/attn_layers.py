"""Attention layers under test: configurations, parameters, and their definition (attn_spec)."""
import math

import torch

import torch_harmonics as th
from . import attn_spec as A
from . import symtensor as S
from .util import set_param

F32, F64 = torch.float32, torch.float64
NAMES = ("q_weights", "k_weights", "v_weights", "proj_weights", "q_bias", "k_bias", "v_bias", "proj_bias", "q_norm_weights", "k_norm_weights")
DEF = dict(i=(3, 4), o=(3, 4), gi="equiangular", go="equiangular", cin=1, ck=None, co=None, nh=1, bias=False, qkn=False, cut=None, path="opt", B=1, scale=None, glob=False, dtype=F32, sym=(), selfatt="", eye=False, drop=0.0, train=True)


def mk(**k):
    assert not set(k) - set(DEF), k
    return dict(DEF, **k)


def name(c):
    s = [f"{c['i'][0]}x{c['i'][1]}->{c['o'][0]}x{c['o'][1]}", "global" if c["glob"] else c["path"]]
    for k, v in c.items():
        if k not in ("i", "o", "path", "glob") and v != DEF[k]:
            s.append(f"{k}={'+'.join(v) if isinstance(v, tuple) else str(v).replace('torch.', '')}")
    return " ".join(s)


def layer(c):
    kw = dict(grid_in=c["gi"], grid_out=c["go"], num_heads=c["nh"], scale=c["scale"], use_qknorm=c["qkn"], bias=c["bias"], k_channels=c["ck"], out_channels=c["co"])
    if c["glob"]:
        m = th.AttentionS2(c["cin"], in_shape=c["i"], out_shape=c["o"], drop_rate=c["drop"], **kw)
    else:
        m = th.NeighborhoodAttentionS2(c["cin"], c["i"], c["o"], theta_cutoff=c["cut"], optimized_kernel=c["path"] == "opt", **kw)
    return m.to(c["dtype"]).train(c["train"])


def params(cx, c, m):
    """Parameter values: symbolic where c['sym'] names them, otherwise fixed generic numbers (or identity maps)."""
    out = {}
    for n in NAMES:
        p = getattr(m, n)
        if p is None:
            out[n] = None
        elif n in c["sym"]:
            out[n] = cx.inp(n, tuple(p.shape), c["dtype"])
        elif c["eye"] and n.endswith("weights") and p.dim() == 4:
            out[n] = torch.eye(p.shape[0], p.shape[1], dtype=c["dtype"]).reshape(p.shape)
        else:
            g = torch.Generator().manual_seed(len(n) * 7 + p.numel())
            out[n] = torch.round((torch.rand(p.shape, generator=g, dtype=F64) * 2 - 1) * 64).add(0.5).div(64).to(c["dtype"])
    return out


def set_params(m, p):
    for n, t in p.items():
        if t is not None:
            set_param(m, n, t)


def neighbours(c):
    if c["glob"]:
        return {(h, w): [(a, b) for a in range(c["i"][0]) for b in range(c["i"][1])] for h in range(c["o"][0]) for w in range(c["o"][1])}
    nb, margin = A.neighbours(c["i"], c["o"], c["gi"], c["go"], c["cut"] or A.default_cutoff(c["i"], c["o"]))
    if margin < 1e-7:
        raise S.Unsupported("harness: a grid point lies on the cutoff")
    if not all(nb.values()):
        raise S.Unsupported("harness: a point without neighbours")
    return nb


def spec(c, p, q, k, v):
    s = c["scale"]
    if s is None:
        s = 1.0 / math.sqrt((c["ck"] or c["cin"]) // c["nh"])
    q, k, v = A.lin(q, p["q_weights"], p["q_bias"]), A.lin(k, p["k_weights"], p["k_bias"]), A.lin(v, p["v_weights"], p["v_bias"])
    if c["qkn"]:
        q, k = A.rms(q, p["q_norm_weights"], c["nh"]), A.rms(k, p["k_norm_weights"], c["nh"])
    y = A.attend(q, k, v, neighbours(c), A.weights(c["i"][0], c["i"][1], c["gi"]), c["nh"], s)
    return A.lin(y, p["proj_weights"], p["proj_bias"])


def inputs(cx, c):
    """q, k, v; 'selfatt': '' all three given, 'qkv' only q, 'v' value defaults to the query, 'kv' one tensor passed as key and value."""
    dt = c["dtype"]
    q = cx.inp("q", (c["B"], c["cin"]) + c["o"], dt)
    k = v = None
    if c["selfatt"] != "qkv":
        k = cx.inp("k", (c["B"], c["cin"]) + c["i"], dt)
        if c["selfatt"] == "kv":
            v = k
        elif c["selfatt"] != "v":
            v = cx.inp("v", (c["B"], c["cin"]) + c["i"], dt)
    return q, k, v


def call(m, c, q, k, v):
    if c["selfatt"] == "qkv":
        return m(q)
    if c["selfatt"] == "v":
        return m(q, k)
    return m(q, k, v)
