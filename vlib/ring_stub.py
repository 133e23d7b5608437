"""The ring-step operators of the distributed attention, by their documented contract.

They exist only as CUDA kernels.  The contract (comments of attention_interface.cpp and
distributed_attention.py) is stated here in torch operations, used for symbolic tensors
and, registered as CPU operators, for the concrete replay.
"""
import math

import torch

from . import poly as P
from . import symtensor as S

NS = "attention_kernels"
_lib = []


class Contract(RuntimeError):
    """A precondition of a ring-step operator is violated."""


def _need(c, msg):
    if not c:
        raise Contract("ring-step contract: " + msg)


def _neginf(t):
    if S.is_sym(t):
        v = [P.is_const(p) and P.cval(p) == -math.inf for p in S.to_values(t).reshape(-1)]
        _need(all(v) or not any(v), "mixed initialisation of the running maximum")
        return v[0]
    return bool((t == -math.inf).all())


def split_csr_rows(row_idx, row_off, nlat_out):
    """(number of long rows at the head of the permutation, longest row, longest of the others)."""
    ln = [int(row_off[int(r) + 1] - row_off[int(r)]) for r in row_idx]
    _need(sorted(int(r) for r in row_idx) == list(range(nlat_out)), "row_idx is not a permutation of the rows")
    _need(all(a >= b for a, b in zip(ln, ln[1:])), "rows are not ordered by decreasing length")
    n = sum(1 for v in ln if ln and v > 2 * (sum(ln) / len(ln)))
    return n, ln[0] if ln else 0, ln[n] if n < len(ln) else 0


def _layout(kx, vx, qy, col, roff, qw, rows, f32):
    for t, n in ((kx, "k"), (vx, "v"), (qy, "q")):
        _need(t.dim() == 4 and t.is_contiguous(), f"{n} is not a contiguous [B,H,W,C] tensor")
    _need(kx.shape[:3] == vx.shape[:3], "k and v chunks differ")
    _need(kx.shape[0] == qy.shape[0] and kx.shape[3] == qy.shape[3], "q and k do not match")
    _need(col.dtype == torch.int64 and roff.dtype == torch.int64 and col.is_contiguous() and roff.is_contiguous(), "psi index type")
    _need(roff.numel() == rows + 1 and int(roff[0]) == 0 and int(roff[-1]) == col.numel(), f"row offsets {tuple(roff.shape)} for {rows} rows")
    _need(all(t.dtype == torch.float32 for t in f32), "accumulators are not fp32")
    _need(all(t.is_contiguous() for t in f32), "accumulators are not contiguous")


def _gather(kx, qy, qw, col, roff, row_idx, nlon_in, pscale, lon_lo, lat0, Ho, Wo, split):
    """{(ho, wo): [(hi_local, wi_local, weight)]} of the gather-form (same grid, downsampling) operators."""
    _need(split is None or tuple(split) == split_csr_rows(row_idx, roff, Ho), "row split")
    H, W = kx.shape[1:3]
    _need(tuple(qy.shape[1:3]) == (Ho, Wo), "query shape")
    _need(0 <= lon_lo and lon_lo + W <= nlon_in, "chunk outside of the longitudes")
    out = {}
    for ho in range(Ho):
        cs = [int(c) for c in col[int(roff[ho]):int(roff[ho + 1])]]
        for wo in range(Wo):
            ls = []
            for c in cs:
                hi, wi = divmod(c, nlon_in)
                w = (wi + pscale * wo) % nlon_in
                if not lon_lo <= w < lon_lo + W or not 0 <= hi - lat0 < H:
                    continue
                ls.append((hi - lat0, w - lon_lo, float(qw[hi])))
            out[ho, wo] = ls
    return out


def _scatter(kx, qy, qw, col, roff, nlon_in, nlon_out_g, pscale, lon_lo, lat0, Ho, Wo):
    H, W = kx.shape[1:3]
    _need(tuple(qy.shape[1:3]) == (Ho, Wo), "query shape")
    _need(0 <= lon_lo and lon_lo + W <= nlon_in, "chunk outside of the longitudes")
    out = {(a, b): [] for a in range(Ho) for b in range(Wo)}
    for hi in range(H):
        for c in col[int(roff[hi]):int(roff[hi + 1])]:
            ho, wo = divmod(int(c), nlon_out_g)
            _need(0 <= ho < Ho, "output row outside of the local rows")
            _need(0 <= lat0 + hi < qw.numel(), "input row outside of the grid")
            for wi in range(W):
                w = (wo + pscale * (lon_lo + wi)) % nlon_out_g
                if w < Wo:
                    out[ho, w].append((hi, wi, float(qw[lat0 + hi])))
    return out


def _pick(x, ls):
    return torch.stack([x[:, a, b] for a, b, _ in ls], 1)          # [B, n, C]


def _accumulate(nb, kx, vx, qy, bufs, qmax, terms):
    """Online softmax: bufs are rescaled to the new maximum and receive sum_n alpha_n * term_n."""
    Ho, Wo = qy.shape[1:3]
    new = {}
    for (h, w), ls in nb.items():
        if not ls:
            continue
        K, V, q = _pick(kx, ls), _pick(vx, ls), qy[:, h, w]
        s = (K * q.unsqueeze(1)).sum(-1).to(torch.float32)          # [B, n]
        old = qmax[:, h, w]
        fresh = _neginf(old)
        m = s[:, 0] if fresh else torch.maximum(old, s[:, 0])
        for j in range(1, len(ls)):
            m = torch.maximum(m, s[:, j])
        a = torch.exp(s - m.unsqueeze(1)) * torch.tensor([t[2] for t in ls], dtype=torch.float32)
        add = terms(h, w, a, K, V)
        if fresh:
            new[h, w] = (m, [x for x in add], None)
        else:
            new[h, w] = (m, add, torch.exp(old - m))
    for (h, w), (m, add, corr) in new.items():
        for b, t in zip(bufs, add):
            v = t if corr is None else b[:, h, w] * corr.reshape([-1] + [1] * (t.dim() - 1)) + t
            b[:, h, w] = v
        qmax[:, h, w] = m


def fwd(nb, kx, vx, qy, y_acc, asum, qmax):
    _accumulate(nb, kx, vx, qy, (asum, y_acc), qmax, lambda h, w, a, K, V: (a.sum(1), (a.unsqueeze(-1) * V).sum(1)))


def _stats(dy):
    def terms(h, w, a, K, V):
        g = (V * dy[:, h, w].unsqueeze(1)).sum(-1)
        ag = a * g
        return a.sum(1), ag.sum(1), (a.unsqueeze(-1) * K).sum(1), (ag.unsqueeze(-1) * K).sum(1)

    return terms


def bwd2(nb, kx, vx, qy, dy, asum, qmax, inorm, dkx, dvx):
    dk, dv = {}, {}
    for (h, w), ls in nb.items():
        if not ls:
            continue
        K, V, q, g = _pick(kx, ls), _pick(vx, ls), qy[:, h, w], dy[:, h, w]
        s = (K * q.unsqueeze(1)).sum(-1)
        a = torch.exp(s - qmax[:, h, w].unsqueeze(1)) * torch.tensor([t[2] for t in ls], dtype=torch.float32) / asum[:, h, w].unsqueeze(1)
        gv = (V * g.unsqueeze(1)).sum(-1) - inorm[:, h, w].unsqueeze(1)
        for j, (hi, wi, _) in enumerate(ls):
            tv = a[:, j].unsqueeze(-1) * g
            tk = (a[:, j] * gv[:, j]).unsqueeze(-1) * q
            dv[hi, wi] = tv if (hi, wi) not in dv else dv[hi, wi] + tv
            dk[hi, wi] = tk if (hi, wi) not in dk else dk[hi, wi] + tk
    for d, b in ((dk, dkx), (dv, dvx)):
        for (hi, wi), t in d.items():
            b[:, hi, wi] = b[:, hi, wi] + t


def forward_ring_step(kx, vx, qy, y_acc, asum, qmax, qw, col, roff, row_idx, nlon_in, pscale, lon_lo, lat0, Ho, Wo, n_long, mx, mid):
    _layout(kx, vx, qy, col, roff, qw, Ho, (y_acc, asum, qmax))
    fwd(_gather(kx, qy, qw, col, roff, row_idx, nlon_in, pscale, lon_lo, lat0, Ho, Wo, (n_long, mx, mid)), kx, vx, qy, y_acc, asum, qmax)


def backward_ring_step_pass1(kx, vx, qy, dy, asum, qmax, integ, ak, akv, qw, col, roff, row_idx, nlon_in, pscale, lon_lo, lat0, Ho, Wo, n_long, mx, mid):
    _layout(kx, vx, qy, col, roff, qw, Ho, (asum, qmax, integ, ak, akv))
    _need(dy.is_contiguous() and tuple(dy.shape[1:3]) == (Ho, Wo), "cotangent layout")
    nb = _gather(kx, qy, qw, col, roff, row_idx, nlon_in, pscale, lon_lo, lat0, Ho, Wo, (n_long, mx, mid))
    _accumulate(nb, kx, vx, qy, (asum, integ, ak, akv), qmax, _stats(dy))


def backward_ring_step_pass2(kx, vx, qy, dy, asum, qmax, inorm, dkx, dvx, qw, col, roff, row_idx, nlon_in, pscale, lon_lo, lat0, Ho, Wo, n_long, mx, mid):
    _layout(kx, vx, qy, col, roff, qw, Ho, (asum, qmax, inorm, dkx, dvx))
    _need(tuple(dkx.shape) == tuple(kx.shape) and tuple(dvx.shape) == tuple(vx.shape), "gradient chunk shape")
    nb = _gather(kx, qy, qw, col, roff, row_idx, nlon_in, pscale, lon_lo, lat0, Ho, Wo, (n_long, mx, mid))
    bwd2(nb, kx, vx, qy, dy, asum, qmax, inorm, dkx, dvx)


def forward_ring_step_upsample(kx, vx, qy, y_acc, asum, qmax, qw, col, roff, nlon_in, nlon_out_g, pscale, lon_lo, lat0, Ho, Wo):
    _layout(kx, vx, qy, col, roff, qw, kx.shape[1], (y_acc, asum, qmax))
    fwd(_scatter(kx, qy, qw, col, roff, nlon_in, nlon_out_g, pscale, lon_lo, lat0, Ho, Wo), kx, vx, qy, y_acc, asum, qmax)


def backward_ring_step_upsample_pass1(kx, vx, qy, dy, qmax, integ, ak, akv, qw, col, roff, nlon_in, nlon_out_g, pscale, lon_lo, lat0, Ho, Wo):
    _layout(kx, vx, qy, col, roff, qw, kx.shape[1], (qmax, integ, ak, akv))
    _need(dy.is_contiguous() and tuple(dy.shape[1:3]) == (Ho, Wo), "cotangent layout")
    st = _stats(dy)
    for (h, w), ls in _scatter(kx, qy, qw, col, roff, nlon_in, nlon_out_g, pscale, lon_lo, lat0, Ho, Wo).items():
        if not ls:
            continue
        K, V = _pick(kx, ls), _pick(vx, ls)
        s = (K * qy[:, h, w].unsqueeze(1)).sum(-1)
        a = torch.exp(s - qmax[:, h, w].unsqueeze(1)) * torch.tensor([t[2] for t in ls], dtype=torch.float32)
        for b, t in zip((integ, ak, akv), st(h, w, a, K, V)[1:]):
            b[:, h, w] = b[:, h, w] + t


def backward_ring_step_upsample_pass2(kx, vx, qy, dy, asum, qmax, inorm, dkx, dvx, qw, col, roff, nlon_in, nlon_out_g, pscale, lon_lo, lat0, Ho, Wo):
    _layout(kx, vx, qy, col, roff, qw, kx.shape[1], (asum, qmax, inorm, dkx, dvx))
    _need(tuple(dkx.shape) == tuple(kx.shape) and tuple(dvx.shape) == tuple(vx.shape), "gradient chunk shape")
    bwd2(_scatter(kx, qy, qw, col, roff, nlon_in, nlon_out_g, pscale, lon_lo, lat0, Ho, Wo), kx, vx, qy, dy, asum, qmax, inorm, dkx, dvx)


OPS = [split_csr_rows, forward_ring_step, backward_ring_step_pass1, backward_ring_step_pass2, forward_ring_step_upsample, backward_ring_step_upsample_pass1, backward_ring_step_upsample_pass2]


def install():
    """Symbolic handlers, and CPU implementations for concrete tensors."""
    if _lib:
        return
    lib = torch.library.Library(NS, "IMPL")
    _lib.append(lib)
    for f in OPS:
        S.EXTRA[f"{NS}.{f.__name__}.default"] = f
        lib.impl(f.__name__, f, "CPU")
