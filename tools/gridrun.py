"""Runs fn(rank_polar, rank_azimuth) on a P x Q grid of local processes (gloo over loopback)."""
import os
import socket
import sys
import tempfile

import torch
import torch.distributed as dist
import torch.multiprocessing as mp


# gloo restricts these to equal chunk sizes (or lacks them): the same operations from point-to-point and broadcast
def _all_to_all(recv, send, group=None, async_op=False):
    n, me = dist.get_world_size(group), dist.get_rank(group)
    w = [dist.isend(send[k].contiguous(), dist.get_global_rank(group, k), group=group) for k in range(n) if k != me]
    recv[me].copy_(send[me])
    for k in range(n):
        if k != me:
            dist.recv(recv[k], dist.get_global_rank(group, k), group=group)
    for r in w:
        r.wait()


def _all_gather(recv, x, group=None, async_op=False):
    n, me = dist.get_world_size(group), dist.get_rank(group)
    recv[me].copy_(x)
    for k in range(n):
        dist.broadcast(recv[k], dist.get_global_rank(group, k), group=group)


def _reduce_scatter(output, inputs, group=None, async_op=False):
    for k, t in enumerate(inputs):
        t = t.clone()
        dist.all_reduce(t, group=group)
        if k == dist.get_rank(group):
            output.copy_(t)


def _worker(r, P, Q, port, fn, out):
    torch.set_num_threads(1)
    dist.init_process_group("gloo", init_method=f"tcp://127.0.0.1:{port}", rank=r, world_size=P * Q)
    import torch_harmonics.distributed as thd

    polar = azimuth = None
    for p in range(P):
        g = dist.new_group([p * Q + q for q in range(Q)])
        if r // Q == p and Q > 1:
            azimuth = g
    for q in range(Q):
        g = dist.new_group([p * Q + q for p in range(P)])
        if r % Q == q and P > 1:
            polar = g
    thd.init(polar, azimuth)
    dist.all_to_all, dist.all_gather, dist.reduce_scatter = _all_to_all, _all_gather, _reduce_scatter
    torch.save(fn(r // Q, r % Q), os.path.join(out, f"{r}.pt"))
    dist.barrier()


def grid(P, Q, fn):
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    with tempfile.TemporaryDirectory() as out:
        mp.spawn(_worker, args=(P, Q, port, fn, out), nprocs=P * Q, join=True)
        return [[torch.load(os.path.join(out, f"{p * Q + q}.pt")) for q in range(Q)] for p in range(P)]


def untile(r, dims=(-2, -1)):
    return torch.cat([torch.cat(row, dim=dims[1]) for row in r], dim=dims[0])


def tile(x, p, q, P, Q):
    from torch_harmonics.distributed import split_tensor_along_dim as sp

    return sp(sp(x, x.dim() - 2, P)[p], x.dim() - 1, Q)[q].contiguous()


def close(name, a, b, tol):
    d = (a - b).abs().max().item() if a.shape == b.shape else float("inf")
    ok = d <= tol
    print(name, "max difference", d, "ok" if ok else "WRONG")
    if not ok:
        sys.exit(1)
