"""Balanced partition of a dimension over ranks, symbolic size."""
import torch

import torch_harmonics.distributed as thd
from torch_harmonics.distributed import compute_split_shapes, split_tensor_along_dim
from torch_harmonics.distributed import primitives as pr
from vlib import symint  # noqa: F401
from vlib.harness import F64

FUNCTIONS = ["compute_split_shapes", "split_tensor_along_dim", "flatten_and_pad_leading_dims", "unpad_and_unflatten_leading_dims"]
BOUNDS = "size symbolic in [0, 10^6], number of chunks symbolic in [1, 16] (thorough 24); tensors of <=12 entries per dimension with symbolic data; all paths"
N = 10**6


def shapes(pmax):
    def run(cx):
        n, p = cx.int_inp("size", 0, N), cx.int_inp("chunks", 1, pmax)
        try:
            s = compute_split_shapes(n, p)
            raised = False
        except RuntimeError:
            raised = True
        if raised:
            cx.holds("refused only when a chunk would be empty", n < p)
            return
        cx.holds("accepted only when every chunk is non-empty", n >= p)
        cx.holds("one chunk per rank", p == len(s))
        tot, ok, bal, order = 0, True, True, True
        for k, x in enumerate(s):
            tot = tot + x
            ok = ok & (x >= 1)
            bal = bal & (x - s[-1] <= 1) & (x - s[-1] >= 0)
            if k:
                order = order & (s[k - 1] >= x)
        cx.holds("every chunk is non-empty", ok)
        cx.holds("chunk sizes differ by at most one", bal)
        cx.holds("larger chunks come first", order)
        cx.holds("chunks cover the dimension", tot == n)

    return run


def split(shape, dim, p):
    def run(cx):
        x = cx.inp("x", shape, F64)
        parts = cx.run(split_tensor_along_dim, x, dim, p)
        cx.fact("number of parts", len(parts) == p, str(len(parts)))
        cx.eq("concatenation restores the tensor", cx.run(torch.cat, list(parts), dim), x)
        for k, s in enumerate(compute_split_shapes(shape[dim], p)):
            cx.fact(f"part {k} size", parts[k].shape[dim] == s)

    return run


def pad(shape, trailing, m):
    def run(cx):
        x = cx.inp("x", shape, F64)

        def go(x):
            y, ls, n = pr.flatten_and_pad_leading_dims(x, m, trailing)
            return y, pr.unpad_and_unflatten_leading_dims(2.0 * y, ls, n, trailing)

        y, z = cx.run(go, x)
        cx.fact("leading dimension is large enough", y.shape[0] >= m and y.dim() == trailing + 1, str(tuple(y.shape)))
        cx.eq("unpad(2*pad(x)) == 2*x", z, cx.run(torch.mul, x, 2.0))
        lead = 1
        for s in shape[: len(shape) - trailing]:
            lead *= s
        cx.eq("padding is zero", cx.run(torch.narrow, y, 0, lead, y.shape[0] - lead), cx.run(torch.zeros, (y.shape[0] - lead,) + tuple(y.shape[1:]), dtype=F64))

    return run


def cases(tier):
    out = [("split shapes", shapes(16 if tier == "quick" else 24))]
    for shape, dim, p in [((2, 7), 1, 3), ((2, 7), -1, 3), ((5, 3), 0, 5), ((5, 4, 3), -2, 4), ((12,), 0, 5), ((3, 11, 2), 1, 4), ((3, 8), 1, 1)]:
        out.append((f"split {shape} dim={dim} p={p}", split(shape, dim, p)))
    for shape, tr, m in [((3, 4), 2, 3), ((1, 2, 3, 4), 2, 5), ((2, 3, 2, 3), 2, 4), ((2, 2, 3, 4), 3, 4), ((2, 3, 2, 2), 3, 2), ((1, 3, 4), 2, 1)]:
        out.append((f"pad {shape} trailing={tr} min={m}", pad(shape, tr, m)))
    return out
