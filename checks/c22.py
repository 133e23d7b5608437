"""Communication primitives: documented redistribution forward, documented adjoint backward."""
import torch

import torch_harmonics.distributed as thd
from vlib.dist_sim import block, shapes, spmd
from vlib.harness import C128, F64

FUNCTIONS = ["distributed_transpose_polar/azimuth", "copy_to_*_region", "reduce_from_*_region", "scatter_to_polar_region", "gather_from_polar_region", "reduce_from_scatter_to_*_region", "gather_from_copy_to_polar_region", "polar_halo_exchange", "_transpose/_gather/_split/_reduce/_reduce_scatter", "get_group_neighbors", "forward and backward"]
BOUNDS = "process grids up to 4x3, dimensions <=9 with even and uneven splits, real and complex data, every entry and cotangent symbolic in [-1,1]; communication layer replaced by its contract"
NARROW = True
TOL = 1e-9


def grad(y, x, g):
    return torch.autograd.grad(y, x, g, allow_unused=True)[0]


def pos(r, pol):
    return r.p if pol else r.q


def each(cx, P, Q, shp, dt, op, spec, name, groups="both", gshape=None, debug=False):
    """Every rank has its own symbolic input x[p,q]; op(rank, x) is the primitive; spec(ins, gos, p, q) -> (y, dx)."""

    xs = [[cx.inp(f"x{p}{q}", shp(p, q), dt) for q in range(Q)] for p in range(P)]
    gs = [[None] * Q for _ in range(P)]

    def rank(r):
        if debug:
            thd.config.debug = True

        def go():
            a = xs[r.p][r.q].clone().requires_grad_(True)
            y = op(r, a)
            g = gs[r.p][r.q] = cx.inp(f"g{r.p}{r.q}", tuple(y.shape), y.dtype)
            return y, grad(y, a, g), a

        return cx.run(go)

    try:
        out = spmd(cx, P, Q, rank, groups)
    finally:
        if debug:
            thd.config.debug = False

    def claims():
        res = []
        for p in range(P):
            for q in range(Q):
                res.append((p, q) + tuple(spec(xs, gs, p, q)))
        return res

    for p, q, y, d in cx.run(claims):
        cx.eq(f"{name} forward", out[p][q][0], y, TOL)
        if d is not None:
            cx.eq(f"{name} backward", out[p][q][1], d, TOL)
        cx.eq("input is not modified", out[p][q][2].detach(), xs[p][q], TOL)


def members(P, Q, p, q, pol):
    return [(k, q) for k in range(P)] if pol else [(p, k) for k in range(Q)]


def transpose(P, Q, pol, n0, n1, extra, dims, dt, debug=False):
    """sharded along dims[1] (sizes split over the group) -> sharded along dims[0]"""
    k = P if pol else Q
    s1 = shapes(n1, k)

    def run(cx):
        def shp(p, q):
            s = list(extra)
            s[dims[0]] = n0
            s[dims[1]] = s1[p if pol else q]
            return s

        f = thd.distributed_transpose_polar if pol else thd.distributed_transpose_azimuth

        def spec(xs, gs, p, q):
            me = p if pol else q
            mem = members(P, Q, p, q, pol)
            y = torch.cat([block(xs[a][b], me, k, dims[0]) for a, b in mem], dim=dims[1])
            d = torch.cat([block(gs[a][b], me, k, dims[1]) for a, b in mem], dim=dims[0])
            return y, d

        each(cx, P, Q, shp, dt, lambda r, x: f(x, dims, s1), spec, "transpose", debug=debug)

    return run


def roundtrip(P, Q, pol, n0, n1, extra, dims, dt):
    k = P if pol else Q
    s0, s1 = shapes(n0, k), shapes(n1, k)

    def run(cx):
        def shp(p, q):
            s = list(extra)
            s[dims[0]] = n0
            s[dims[1]] = s1[p if pol else q]
            return s

        f = thd.distributed_transpose_polar if pol else thd.distributed_transpose_azimuth
        each(cx, P, Q, shp, dt, lambda r, x: f(f(x, dims, s1), (dims[1], dims[0]), s0), lambda xs, gs, p, q: (xs[p][q], gs[p][q]), "transpose there and back")

    return run


def simple(kind, P, Q, pol, shape, dim, dt, debug=False, groups="both"):
    k = P if pol else Q
    reg = "polar" if pol else "azimuth"

    def run(cx):
        full = tuple(shape)
        sz = shapes(shape[dim], k) if dim is not None else None

        def loc(p, q):
            s = list(shape)
            s[dim] = sz[p if pol else q]
            return tuple(s)

        def tot(ts, p, q):
            r = None
            for a, b in members(P, Q, p, q, pol):
                r = ts[a][b] if r is None else r + ts[a][b]
            return r

        def gat(ts, p, q):
            return torch.cat([ts[a][b] for a, b in members(P, Q, p, q, pol)], dim=dim)

        def pick(t, p, q):
            return block(t, p if pol else q, k, dim)

        if kind == "copy":
            f = getattr(thd, f"copy_to_{reg}_region")
            each(cx, P, Q, lambda p, q: full, dt, lambda r, x: f(x), lambda xs, gs, p, q: (xs[p][q], tot(gs, p, q)), "copy", groups)
        elif kind == "reduce":
            f = getattr(thd, f"reduce_from_{reg}_region")
            each(cx, P, Q, lambda p, q: full, dt, lambda r, x: f(x), lambda xs, gs, p, q: (tot(xs, p, q), gs[p][q]), "reduce", groups)
        elif kind == "scatter":
            each(cx, P, Q, lambda p, q: full, dt, lambda r, x: thd.scatter_to_polar_region(x, dim), lambda xs, gs, p, q: (pick(xs[p][q], p, q), gat(gs, p, q)), "scatter", groups, debug=debug)
        elif kind == "gather":
            each(cx, P, Q, loc, dt, lambda r, x: thd.gather_from_polar_region(x, dim, list(sz)), lambda xs, gs, p, q: (gat(xs, p, q), pick(gs[p][q], p, q)), "gather", groups, debug=debug)
        elif kind == "gather-noshapes":
            each(cx, P, Q, loc, dt, lambda r, x: thd.gather_from_polar_region(x, dim, None), lambda xs, gs, p, q: (gat(xs, p, q), pick(gs[p][q], p, q)), "gather", groups)
        elif kind == "reduce_scatter":
            f = getattr(thd, f"reduce_from_scatter_to_{reg}_region")
            each(cx, P, Q, lambda p, q: full, dt, lambda r, x: f(x, dim), lambda xs, gs, p, q: (pick(tot(xs, p, q), p, q), gat(gs, p, q)), "reduce-scatter", groups)
        elif kind == "gather_copy":
            each(cx, P, Q, loc, dt, lambda r, x: thd.gather_from_copy_to_polar_region(x, dim, list(sz)), lambda xs, gs, p, q: (gat(xs, p, q), pick(tot(gs, p, q), p, q)), "gather/copy", groups)

    return run


def halo(P, Q, H, W, r_lat, groups="both"):
    sz = shapes(H, P)

    def run(cx):
        def spec(xs, gs, p, q):
            z = torch.zeros(1, 2, r_lat, W, dtype=F64)
            full = torch.cat([z] + [xs[k][q] for k in range(P)] + [z], dim=2)
            o = sum(sz[:p])
            y = full[:, :, o : o + sz[p] + 2 * r_lat]
            # exact adjoint: scatter every rank's cotangent back to the owning rows
            acc = [torch.zeros(1, 2, W, dtype=F64) for _ in range(H + 2 * r_lat)]
            for k in range(P):
                ok = sum(sz[:k])
                for j in range(sz[k] + 2 * r_lat):
                    acc[ok + j] = acc[ok + j] + gs[k][q][:, :, j]
            d = torch.stack(acc[o + r_lat : o + r_lat + sz[p]], dim=2)
            return y, d

        each(cx, P, Q, lambda p, q: (1, 2, sz[p], W), F64, lambda r, x: thd.polar_halo_exchange(x, r_lat), spec, "halo exchange", groups)

    return run


def neighbours(P, Q):
    def run(cx):
        def rank(r):
            return thd.get_group_neighbors(thd.polar_group()), thd.get_group_neighbors(thd.azimuth_group()), thd.polar_group_rank(), thd.azimuth_group_rank(), thd.polar_group_size(), thd.azimuth_group_size()

        out = spmd(cx, P, Q, rank)
        for p in range(P):
            for q in range(Q):
                pn, an, pr, ar, ps, as_ = out[p][q]
                cx.fact("polar neighbours", tuple(pn) == (((p - 1) % P) * Q + q, ((p + 1) % P) * Q + q), str(pn))
                cx.fact("azimuth neighbours", tuple(an) == (p * Q + (q - 1) % Q, p * Q + (q + 1) % Q), str(an))
                cx.fact("ranks and sizes", (pr, ar, ps, as_) == (p, q, P, Q), str((pr, ar, ps, as_)))

    return run


def cases(tier):
    big = tier != "quick"
    out = []
    grids = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] + ([(4, 1), (1, 4), (4, 3), (3, 4)] if big else [])
    for P, Q in grids:
        out.append((f"neighbours {P}x{Q}", neighbours(P, Q)))
        for pol in (True, False):
            k = P if pol else Q
            t = f"{P}x{Q} {'polar' if pol else 'azimuth'}"
            for n0, n1, dims, dt in [(k, k, (-3, -1), F64), (k + 2, 2 * k + 1, (-3, -2), C128), (5 + k, 7, (-1, -3), F64), (2 * k, 3 * k, (0, 2), C128)]:
                if n1 < k or n0 < k:
                    continue
                out.append((f"transpose {t} {n0},{n1} dims={dims} {dt}", transpose(P, Q, pol, n0, n1, [2, 2, 2], dims, dt)))
                out.append((f"roundtrip {t} {n0},{n1} dims={dims} {dt}", roundtrip(P, Q, pol, n0, n1, [2, 2, 2], dims, dt)))
            out.append((f"transpose debug {t}", transpose(P, Q, pol, k + 1, 2 * k + 1, [2, 2, 2], (-3, -1), F64, True)))
            for kind in ("copy", "reduce", "reduce_scatter") + (("scatter", "gather", "gather-noshapes", "gather_copy") if pol else ()):
                for shape, dim in (((2, 3 * k), 1), ((2, 2 * k + 1, 2), 1), ((k + 1, 2), 0), ((2, 2, k + 1, 2), -2), ((2 * k + 1, 2, 3), 0), ((1, 2, 2, k + 1), 3), ((2, 2 * k + 1), -1)):
                    if kind in ("copy", "reduce") and shape != (2, 3 * k):
                        continue
                    dts = (F64, C128) if kind in ("copy", "reduce", "reduce_scatter", "gather_copy") and shape in ((2, 3 * k), (2, 2 * k + 1)) else (F64,)
                    for dt in dts:
                        out.append((f"{kind} {t} {shape} dim={dim} {dt}", simple(kind, P, Q, pol, shape, dim, dt)))
            if pol:
                for kind in ("scatter", "gather"):
                    out.append((f"{kind} debug {t}", simple(kind, P, Q, pol, (2, 2 * k + 1, 2), 1, F64, True)))
        for H, r_lat in ((3 * P, 1), (3 * P + 1, 2), (2 * P, 2), (3 * P, 3)):
            out.append((f"halo {P}x{Q} H={H} r={r_lat}", halo(P, Q, H, 2, r_lat)))
    return out
