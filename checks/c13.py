"""Repacking of the sparse filter tensor: every entry survives, for every sparsity pattern."""
import os

import torch
import z3

import torch_harmonics as th  # noqa: F401
import torch_harmonics.disco.optimized.disco_optimized as DO
from disco_helpers import pack_psi_dense, preprocess_psi
from torch_harmonics.disco import disco_kernels
from vlib import cbmc, csym, env, symint
from vlib import symtensor as S
from vlib.harness import F32, F64

FUNCTIONS = ["preprocess_psi_kernel (C++ source, bit-precise by CBMC; and compiled)", "pack_psi_dense_kernel (C++ source, bit-precise by CBMC; and compiled)", "_build_kernel_split_csr", "_maybe_kpack_psi", "_disco_s2_fused_conv_spatial_first_dgrad", "disco_fwd_cpu_impl / disco_bwd_cpu_impl"]
BOUNDS = "CBMC: all patterns with up to 6 entries (rows non-decreasing within a kernel, as the construction produces them), up to 3 kernels, 3 rows, any column and value, paddings 2 to 5, memory safety included; operator level: every subset of entries of a 2 kernels x 2 rows x 2 columns and of a 3 x 2 x 1 filter, every field in [-1,1]"
HDR = "torch_harmonics/disco/optimized/disco_helpers.h"


def pre():
    csym.install(("disco",))


# ------------------------------------------------------------ CBMC: packing --
SRC = r"""
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include "%(hdr)s"
extern "C" long nondet_long();
#define N %(N)d
#define K %(K)d
#define HO %(HO)d
#define WI 3
#define PAD %(PAD)d
long IN_nnz; long IN_ker[N]; long IN_row[N]; long IN_col[N]; long IN_val[N];
int64_t ker[N], row[N], col[N], val[N], roff[HO * K + 1];
int64_t idx[K * HO * PAD * 2], pv[K * HO * PAD], cnt[K * HO];
int main() {
    IN_nnz = nondet_long(); __CPROVER_assume(IN_nnz >= 0 && IN_nnz <= N);
    for (int i = 0; i < N; i++) {
        IN_ker[i] = nondet_long(); IN_row[i] = nondet_long(); IN_col[i] = nondet_long(); IN_val[i] = nondet_long();
        __CPROVER_assume(IN_ker[i] >= 0 && IN_ker[i] < K && IN_row[i] >= 0 && IN_row[i] < HO && IN_col[i] >= 0 && IN_col[i] < 6 && IN_val[i] > -9 && IN_val[i] < 9);
        for (int j = 0; j < i; j++) __CPROVER_assume(IN_ker[j] != IN_ker[i] || IN_row[j] <= IN_row[i]);
        ker[i] = IN_ker[i]; row[i] = IN_row[i]; col[i] = IN_col[i]; val[i] = IN_val[i];
    }
    int64_t nrows = -1;
#if PAD == 1
    preprocess_psi_kernel<int64_t>(IN_nnz, K, HO, ker, row, col, roff, val, nrows);
    for (int i = 0; i < N; i++) {
        if (i >= IN_nnz) break;
        int pos = 0;
        for (int j = 0; j < N; j++) if (j < IN_nnz && (IN_ker[j] < IN_ker[i] || (IN_ker[j] == IN_ker[i] && j < i))) pos++;
        __CPROVER_assert(ker[pos] == IN_ker[i] && row[pos] == IN_row[i] && col[pos] == IN_col[i] && val[pos] == IN_val[i], "entries sorted by kernel, order kept");
    }
    __CPROVER_assert(nrows >= 0 && nrows <= HO * K, "row count within range");
    __CPROVER_assert(roff[0] == 0 && roff[nrows] == IN_nnz, "offsets span all entries");
    for (int r = 0; r < HO * K; r++) {
        if (r >= nrows) break;
        __CPROVER_assert(roff[r] < roff[r + 1], "offsets increase");
        for (int i = 0; i < N; i++) if (i >= roff[r] && i < roff[r + 1])
            __CPROVER_assert(ker[i] == ker[roff[r]] && row[i] == row[roff[r]], "a row holds one kernel and one output row");
        if (r) __CPROVER_assert(ker[roff[r]] != ker[roff[r - 1]] || row[roff[r]] != row[roff[r - 1]], "different rows differ");
    }
#else
    // already sorted by kernel (and row): offsets as preprocess_psi is shown to produce them
    for (int i = 1; i < N; i++) __CPROVER_assume(i >= IN_nnz || IN_ker[i - 1] <= IN_ker[i]);
    nrows = 0;
    for (int i = 0; i < N; i++) if (i < IN_nnz && (i == 0 || ker[i - 1] != ker[i] || row[i - 1] != row[i])) {
        if (nrows) __CPROVER_assume(i - roff[nrows - 1] <= PAD);
        roff[nrows++] = i;
    }
    if (nrows) __CPROVER_assume(IN_nnz - roff[nrows - 1] <= PAD);
    roff[nrows] = IN_nnz;
    const long IN_pad = PAD;
    pack_psi_dense_kernel<int64_t>(K, HO, WI, IN_pad, nrows, ker, row, col, val, roff, idx, pv, cnt);
    for (int k = 0; k < K; k++) for (int h = 0; h < HO; h++) {
        int c = 0;
        for (int i = 0; i < N; i++) if (i < IN_nnz && IN_ker[i] == k && IN_row[i] == h) {
            int64_t o = (k * HO + h) * IN_pad + c;
            __CPROVER_assert(idx[2 * o] == IN_col[i] / WI && idx[2 * o + 1] == IN_col[i] %% WI && pv[o] == IN_val[i], "packed entry");
            c++;
        }
        __CPROVER_assert(cnt[k * HO + h] == c, "packed count");
        for (int s = 0; s < PAD; s++) if (s >= c && s < IN_pad) {
            int64_t o = (k * HO + h) * IN_pad + s;
            __CPROVER_assert(pv[o] == 0 && idx[2 * o] == 0 && idx[2 * o + 1] == 0, "padding stays zero");
        }
    }
#endif
    return 0;
}
"""


def reference(ent, K, Ho):
    """expected (sorted entries, offsets) for a list of (ker,row,col,val)"""
    s = sorted(ent, key=lambda e: e[0])
    off = [i for i in range(len(s)) if i == 0 or s[i][:2] != s[i - 1][:2]]
    return s, (off + [len(s)]) if s else [0]


def real_preprocess(ent, K, Ho, dt=F64):
    ker, row, col = (torch.tensor([e[j] for e in ent], dtype=torch.int64) for j in range(3))
    val = torch.tensor([float(e[3]) for e in ent], dtype=dt)
    roff = preprocess_psi(K, Ho, ker, row, col, val)
    return roff, ker, row, col, val


def pack_case(K, Ho, N, PAD):
    def run(cx):
        names = ["IN_nnz"] + [f"IN_{a}[{i}]" for a in ("ker", "row", "col", "val") for i in range(N)]
        lim = {"IN_nnz": (0, N), "ker": (0, K - 1), "row": (0, Ho - 1), "col": (0, 5), "val": (-8, 8)}
        v = {n: cx.int_inp(n, *lim.get(n, lim.get(n[3:6]))) for n in names}
        if cx.symbolic:
            bad = cbmc.check(SRC % dict(hdr=os.path.join(env.REPO, HDR), N=N, K=K, HO=Ho, PAD=PAD), set(names), max(N, Ho * K, PAD) + 2)
            if bad is None:
                cx.holds("packing", symint.SBool(z3.BoolVal(True)))
            else:
                cx.holds("packing", symint.SBool(z3.Not(z3.And([v[n].t == z3.IntVal(x) for n, x in bad["env"].items()]))))
            return
        ent = [tuple(v[f"IN_{a}[{i}]"] for a in ("ker", "row", "col", "val")) for i in range(v["IN_nnz"])]
        # keep the input contract (rows non-decreasing within a kernel) for arbitrary environments
        order = {}
        ok = all(order.get(e[0], 0) <= e[1] and not order.update({e[0]: e[1]}) for e in ent)
        if not ok:
            cx.holds("packing", True)
            return
        s, off = reference(ent, K, Ho)
        roff, ker, row, col, val = real_preprocess(ent, K, Ho)
        got = list(zip(ker.tolist(), row.tolist(), col.tolist(), val.tolist()))
        good = got == [tuple(map(float, e)) for e in s] and roff.tolist() == off
        if PAD > 1 and good:
            need = max([b - a for a, b in zip(off, off[1:])] or [1])
            pad = max(PAD, need)
            i_, p_, c_ = pack_psi_dense(K, Ho, 3, pad, ker, row, col, val, roff)
            for k in range(K):
                for h in range(Ho):
                    e = [x for x in s if x[:2] == (k, h)]
                    good &= c_[k, h].item() == len(e) and p_[k, h].tolist() == [float(x[3]) for x in e] + [0.0] * (pad - len(e)) and i_[k, h].tolist() == [[x[2] // 3, x[2] % 3] for x in e] + [[0, 0]] * (pad - len(e))
        cx.holds("packing", bool(good))

    return run


# ------------------------------------------ operator level, any sparsity pattern --
def kpacked_dense(kp, K, Ho, Hi, Wi, dt):
    """Dense filter tensor encoded by the k-packed layout."""
    idx, vals, cnt, kpad = kp
    D = torch.zeros(K, Ho, Hi * Wi, dtype=dt)
    for h in range(Ho):
        for j in range(int(cnt[h])):
            hi, wi = idx[h, j].tolist()
            D[:, h, hi * Wi + wi] += vals[h, j, :K]
    return D


def patterns(K, Ho, Hi, Wi, bits, dt, nlon_out=None, groups=None):
    """Every subset of `bits` filter positions present (symbolic bits), values distinct numbers."""
    nlon_out = nlon_out or Wi
    cols = Hi * Wi
    pos = [(k, h, c) for k in range(K) for h in range(Ho) for c in range(cols)]
    if bits == "all":
        free, fixed = pos, []
    else:
        free = [p for j, p in enumerate(pos) if j % bits[0] == bits[1]]
        fixed = [p for j, p in enumerate(pos) if j % bits[0] == bits[2]]

    def run(cx):
        on = list(fixed)
        for n, p in enumerate(free):
            b = cx.int_inp(f"bit{n}", 0, 1)
            if b == 1:
                on.append(p)
        on.sort(key=lambda p: (p[1], p[0], p[2]))             # construction order: output latitude outermost
        ent = [(k, h, c, 0.25 + 0.125 * ((5 * k + 3 * h + 7 * c) % 11)) for k, h, c in on]
        W = torch.zeros(K, Ho, cols, dtype=dt)
        for k, h, c, v in ent:
            W[k, h, c] = v
        roff, ker, row, col, val = real_preprocess(ent, K, Ho, dt)
        s, off = reference(ent, K, Ho)
        cx.fact("offsets", roff.tolist() == off, str(roff.tolist()))
        x = cx.inp("x", (1, 1, Hi, Wi), dt)
        g = cx.inp("g", (1, 1, K, Ho, nlon_out), dt)
        y = cx.run(lambda: disco_kernels.forward.default(x, roff, ker, row, col, val, K, Ho, nlon_out))
        t = cx.run(lambda: disco_kernels.backward.default(g, roff, ker, row, col, val, K, Hi, Wi))
        from vlib import disco_spec as D

        Wd = W.reshape(K, Ho, Hi, Wi)
        tol = 1e-9 if dt == F64 else 1e-5
        cx.eq("contraction with the repacked filter", y, D.contract(x, Wd, nlon_out), tol)
        cx.eq("adjoint with the repacked filter", t, D.contract_t(g, Wd, Wi), tol)
        sp = DO._build_kernel_split_csr(roff, ker, row, col, val, K, Ho)
        cx.fact("split layout recognised", DO._split_csr_available(sp[0], sp[1], K) == bool(True), "")
        w = cx.inp("w", (1, 2, 3, K), dt)
        gr = cx.inp("go", (1, 1, 2, Ho, nlon_out), dt)
        offs = DO._split_csr_python_offsets(sp[1])
        e = cx.run(lambda: D.contract_t(torch.einsum("bgohw,gock->bgckhw", gr, w).reshape(1, 3, K, Ho, nlon_out), Wd, Wi))
        for lab, extra in (("with host offsets", offs), ("with device offsets", ((), ()))):
            d = cx.run(lambda: DO._disco_s2_fused_conv_spatial_first_dgrad(gr, w, *sp, K, Hi, Wi, *extra))
            cx.eq(f"input gradient through the split layout {lab}", d, e, tol)
        if not ent:
            return
        pk = pack_psi_dense(K, Ho, Wi, 0, ker, row, col, val, roff)
        D0 = torch.zeros(K, Ho, cols, dtype=dt)
        for k in range(K):
            for h in range(Ho):
                for j in range(int(pk[2][k, h])):
                    hi, wi = pk[0][k, h, j].tolist()
                    D0[k, h, hi * Wi + wi] += pk[1][k, h, j]
        cx.eq("dense packing encodes the filter", D0, W, 0.0)
        same = all(sorted(c for k2, h2, c in on if (k2, h2) == (k, h)) == sorted(c for k2, h2, c in on if (k2, h2) == (0, h)) for k in range(K) for h in range(Ho))
        kp = DO._maybe_kpack_psi(*pk)
        if kp is not None:
            cx.fact("padded kernel count", kp[3] >= K and kp[3] % 8 == 0 and kp[1].shape[-1] == kp[3] and bool((kp[1][..., K:] == 0).all()), "")
            cx.eq("k-packed layout encodes the filter", kpacked_dense(kp, K, Ho, Hi, Wi, dt), W, 0.0)
        cx.fact("k-packed layout exactly for common supports", (kp is not None) == same, f"{kp is not None} {same}")

    return run


def cases(tier):
    out = []
    for K, Ho, N, PAD in [(1, 3, 4, 1), (2, 2, 5, 1), (3, 3, 6, 1), (2, 2, 4, 2), (2, 2, 4, 4), (3, 2, 4, 3), (2, 3, 4, 4)] + ([(2, 3, 5, 5), (3, 3, 8, 1), (4, 3, 7, 1), (3, 3, 6, 4)] if tier == "deep" else []):
        out.append((f"cbmc K={K} rows={Ho} entries<={N} pad<={PAD}", pack_case(K, Ho, N, PAD)))
    out.append(("patterns 2x2x(1x2)", patterns(2, 2, 1, 2, "all", F64)))
    out.append(("patterns 3x2x(1x1)", patterns(3, 2, 1, 1, "all", F64)))
    out.append(("patterns 2x1x(2x2) stride 2", patterns(2, 1, 2, 2, "all", F64, nlon_out=1)))
    out.append(("patterns 2x3x(2x2) third", patterns(2, 3, 2, 2, (3, 0, 1), F32)))
    out.append(("patterns 3x2x(2x2) third", patterns(3, 2, 2, 2, (3, 2, 0), F64)))
    out.append(("patterns 8x1x(1x1)", patterns(8, 1, 1, 1, "all", F64)))
    out.append(("patterns 1x3x(1x2)", patterns(1, 3, 1, 2, "all", F64)))
    return out
