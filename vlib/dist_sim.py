"""A P x Q process grid inside one process: the communication layer as a contract.

Every rank is a Python thread; exactly one runs at a time and it only yields when it
has to wait for another rank, so a run is deterministic.  The functions of
torch.distributed that the code under test calls are replaced by stand-ins with the
documented semantics (matched per group and call number; receive buffers hold
undefined data until the operation has completed; a send buffer must not change while
the operation is pending; all members must issue the same collective with consistent
shapes; a cycle of waits is a deadlock).
"""
import sys
import threading

import torch
import torch.distributed as dist

from . import symtensor as S

_tls = threading.local()
_active = [None]


class CommError(RuntimeError):
    pass


class _Abort(BaseException):
    pass


class SimGroup:
    """Process group proxy: which ranks it stands for depends on the calling rank."""

    def __init__(self, kind):
        self.kind = kind

    def ranks(self):
        w, r = _active[0], me()
        if self.kind == "polar":
            return [p * w.Q + r % w.Q for p in range(w.P)]
        if self.kind == "azimuth":
            return [(r // w.Q) * w.Q + q for q in range(w.Q)]
        return list(range(w.P * w.Q))

    def key(self):
        return (self.kind,) + tuple(self.ranks())

    def size(self):
        return len(self.ranks())

    def rank(self):
        return self.ranks().index(me())

    # ProcessGroup-like conveniences
    @property
    def group_name(self):
        return self.kind


WORLD = SimGroup("world")


def me():
    r = getattr(_tls, "rank", None)
    if r is None:
        # a construction outside the simulation
        raise S.Unsupported("distributed call outside of a simulated rank")
    return r


def G(group):
    if group is None:
        return WORLD
    if not isinstance(group, SimGroup):
        raise S.Unsupported(f"unknown process group {group!r}")
    return group


class World:
    def __init__(self, P, Q):
        self.P, self.Q = P, Q
        self.n = P * Q
        self.cv = threading.Condition()
        self.turn = 0
        self.done = [False] * self.n
        self.pred = [None] * self.n
        self.error = None
        self.dead = False
        self.slots = {}
        self.seq = {}
        self.p2p = {}      # (key, src, dst) -> {"send": [...], "recv": [...]}
        self.log = {}

    # -- scheduling
    def _advance(self, frm):
        """cv held: hand the baton to the next runnable rank."""
        for k in range(1, self.n + 1):
            r = (frm + k) % self.n
            if self.done[r]:
                continue
            if self.pred[r] is None or self.pred[r]():
                self.turn = r
                self.cv.notify_all()
                return
        if not all(self.done):
            self.dead = True
            if self.error is None:
                self.error = CommError("deadlock: every remaining rank waits for another one")
            self.cv.notify_all()

    def block(self, pred):
        r = me()
        with self.cv:
            if self.dead:
                raise _Abort()
            if pred():
                return
            self.pred[r] = pred
            self._advance(r)
            while self.turn != r or self.dead or self.pred[r] is not None and not self.pred[r]():
                if self.dead:
                    raise _Abort()
                self.cv.wait()
            self.pred[r] = None

    def finish(self, r):
        with self.cv:
            self.done[r] = True
            if not self.dead:
                self._advance(r)

    def fail(self, r, e):
        with self.cv:
            if self.error is None:
                self.error = e
            self.dead = True
            self.done[r] = True
            self.cv.notify_all()


# ------------------------------------------------------------- buffers -----
def _undef(t):
    with torch.no_grad():
        if isinstance(t, S.SymTensor):
            t._ids.copy_(S.undef_ids(tuple(t.shape), t.dtype).reshape(t._ids.shape))
        elif t.dtype.is_floating_point or t.dtype.is_complex:
            t.fill_(float("nan"))


def _check_buf(t, what):
    if not isinstance(t, torch.Tensor):
        raise CommError(f"{what}: not a tensor")
    if not (t.is_contiguous() or (t.dim() == 4 and t.is_contiguous(memory_format=torch.channels_last))):
        raise CommError(f"{what}: tensor is not contiguous")


class Snap:
    """Value of a send buffer at post time; racy later writes are noticed."""

    def __init__(self, t):
        self.t = t
        self.shape, self.dtype = tuple(t.shape), t.dtype
        self.v = t.detach().clone()

    def get(self):
        """Compare with the buffer while the operation is pending; afterwards it may change."""
        if self.t is None:
            return self.v
        cur = self.t.detach()
        with torch.no_grad():
            if isinstance(cur, S.SymTensor):
                same = bool((cur._ids == self.v._ids).all())
            else:
                same = bool(((cur == self.v) | ((cur != cur) & (self.v != self.v))).all())
        if not same:
            _undef(self.v)
            self.t = None
        return self.v

    def freeze(self):
        self.get()
        self.t = None


def _write(dst, src):
    if dst is None:
        return
    if isinstance(src, torch.Tensor) and dst.numel() == src.numel() and dst.dim() != src.dim():
        src = src.reshape(dst.shape)
    with torch.no_grad():
        dst.detach().copy_(src) if not isinstance(dst, S.SymTensor) else _wsym(dst, src)


def _wsym(dst, src):
    ids = S.ids_of(src) if isinstance(src, torch.Tensor) else src
    dst._ids.copy_(ids.reshape(dst._ids.shape))


class Work:
    def __init__(self, ready, complete):
        self._ready, self._complete, self._done = ready, complete, False

    def wait(self, *a, **k):
        if not self._done:
            _active[0].block(self._ready)
            self._complete()
            self._done = True
        return True

    def is_completed(self):
        return self._done

    def get_future(self):
        raise S.Unsupported("Work.get_future")


def _same(xs, what):
    xs = list(xs)
    if any(x != xs[0] for x in xs):
        raise CommError(f"{what}: ranks disagree: {xs}")


def collective(name, group, contrib, complete, outs, async_op, meta=None):
    """contrib: this rank's data; complete(list of contribs, my index) -> writes outputs."""
    w = _active[0]
    g = G(group)
    key, idx, n = g.key(), g.rank(), g.size()
    sq = w.seq.get((key, me()), 0)
    w.seq[(key, me())] = sq + 1
    slot = w.slots.setdefault((key, sq), {})
    slot[idx] = (name, meta, contrib)
    for o in outs:
        _undef(o)
    names = {v[0] for v in slot.values()}
    if len(names) > 1:
        raise CommError(f"collective mismatch on group {key}: call {sq} is {sorted(names)}")

    def fin():
        _same([slot[k][1] for k in range(n)], f"{name} on {key}")
        for c in contrib if isinstance(contrib, list) else [contrib] if contrib is not None else []:
            c.freeze()
        complete([slot[k][2] for k in range(n)], idx)

    wk = Work(lambda: len(slot) == n, fin)
    if async_op:
        return wk
    wk.wait()
    return None


def _red(op, xs):
    o = getattr(op, "name", None) or str(op).split(".")[-1]
    r = xs[0]
    for x in xs[1:]:
        if "SUM" in o or "AVG" in o:
            r = r + x
        elif "MAX" in o:
            r = torch.maximum(r, x)
        elif "MIN" in o:
            r = torch.minimum(r, x)
        elif "PRODUCT" in o:
            r = r * x
        else:
            raise S.Unsupported(f"reduce op {op}")
    if "AVG" in o:
        r = r / len(xs)
    return r


# ----------------------------------------------------------- stand-ins -----
def get_rank(group=None):
    g = G(group)
    return me() if g is WORLD else g.rank()


def get_world_size(group=None):
    return G(group).size()


def get_process_group_ranks(group=None):
    return G(group).ranks()


def get_global_rank(group, group_rank):
    return G(group).ranks()[group_rank]


def get_group_rank(group, global_rank):
    return G(group).ranks().index(global_rank)


def is_initialized():
    return True


def is_available():
    return True


def get_backend(group=None):
    return "nccl"


def destroy_process_group(group=None):
    return None


def barrier(group=None, async_op=False, device_ids=None):
    return collective("barrier", group, None, lambda c, i: None, [], async_op)


def all_reduce(tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
    _check_buf(tensor, "all_reduce")
    c = Snap(tensor)
    c.t = None  # in place: the buffer itself is the output
    return collective("all_reduce", group, c, lambda cs, i: _write(tensor, _red(op, [x.v for x in cs])), [tensor], async_op, (c.shape, c.dtype, str(op)))


def all_gather(tensor_list, tensor, group=None, async_op=False):
    n = G(group).size()
    if len(tensor_list) != n:
        raise CommError("all_gather: wrong number of output tensors")
    _check_buf(tensor, "all_gather")
    c = Snap(tensor)
    outs = [t for t in tensor_list if t is not tensor]

    def fin(cs, i):
        for k, s in enumerate(cs):
            t = tensor_list[k]
            if tuple(t.shape) != s.shape or t.dtype != s.dtype:
                raise CommError(f"all_gather: buffer {k} has shape {tuple(t.shape)} {t.dtype}, rank {k} sent {s.shape} {s.dtype}")
            if t is tensor and k == i:
                continue
            _write(t, s.get())

    return collective("all_gather", group, c, fin, outs, async_op)


def all_gather_into_tensor(output_tensor, input_tensor, group=None, async_op=False):
    _check_buf(input_tensor, "all_gather_into_tensor")
    c = Snap(input_tensor)
    n = G(group).size()
    if output_tensor.numel() != n * input_tensor.numel():
        raise CommError("all_gather_into_tensor: size mismatch")
    return collective("all_gather_into_tensor", group, c, lambda cs, i: _write(output_tensor, torch.cat([x.get().reshape(-1) for x in cs]).reshape(output_tensor.shape)), [output_tensor], async_op, c.shape)


def reduce_scatter(output, input_list, op=dist.ReduceOp.SUM, group=None, async_op=False):
    n = G(group).size()
    if len(input_list) != n:
        raise CommError("reduce_scatter: wrong number of input tensors")
    for t in input_list:
        _check_buf(t, "reduce_scatter")
    cs_ = [Snap(t) for t in input_list]

    def fin(cs, i):
        xs = [c[i] for c in cs]
        if any(x.shape != tuple(output.shape) for x in xs):
            raise CommError(f"reduce_scatter: output {tuple(output.shape)}, contributions {[x.shape for x in xs]}")
        if any(x.dtype != output.dtype for x in xs):
            raise CommError("reduce_scatter: dtype mismatch")
        _write(output, _red(op, [x.get() for x in xs]))

    return collective("reduce_scatter", group, cs_, fin, [output], async_op)


def reduce_scatter_tensor(output, input, op=dist.ReduceOp.SUM, group=None, async_op=False):
    _check_buf(input, "reduce_scatter_tensor")
    n = G(group).size()
    if output.numel() * n != input.numel():
        raise CommError("reduce_scatter_tensor: size mismatch")
    c = Snap(input)

    def fin(cs, i):
        m = output.numel()
        _write(output, _red(op, [x.get().reshape(-1)[i * m : (i + 1) * m] for x in cs]).reshape(output.shape))

    return collective("reduce_scatter_tensor", group, c, fin, [output], async_op, c.shape)


def all_to_all(output_tensor_list, input_tensor_list, group=None, async_op=False):
    n = G(group).size()
    if len(output_tensor_list) != n or len(input_tensor_list) != n:
        raise CommError("all_to_all: wrong list length")
    for t in list(input_tensor_list) + list(output_tensor_list):
        _check_buf(t, "all_to_all")
    cs_ = [Snap(t) for t in input_tensor_list]

    def fin(cs, i):
        for k in range(n):
            s, t = cs[k][i], output_tensor_list[k]
            if s.v.numel() != t.numel() or s.dtype != t.dtype:
                raise CommError(f"all_to_all: receive buffer {tuple(t.shape)} {t.dtype} for a message of shape {s.shape} {s.dtype} from {k} to {i}")
            _write(t, s.get().reshape(t.shape))

    return collective("all_to_all", group, cs_, fin, list(output_tensor_list), async_op)


def all_to_all_single(output, input, output_split_sizes=None, input_split_sizes=None, group=None, async_op=False):
    n = G(group).size()
    os_ = output_split_sizes or [output.shape[0] // n] * n
    is_ = input_split_sizes or [input.shape[0] // n] * n
    cs_ = [Snap(t.contiguous()) for t in torch.split(input, list(is_), 0)]

    def fin(cs, i):
        for k, t in enumerate(torch.split(output, list(os_), 0)):
            s = cs[k][i]
            if s.v.numel() != t.numel():
                raise CommError("all_to_all_single: size mismatch")
            _write(t, s.get().reshape(t.shape))

    return collective("all_to_all_single", group, cs_, fin, [output], async_op)


def broadcast(tensor, src=None, group=None, async_op=False, group_src=None):
    g = G(group)
    s = g.ranks().index(src) if group_src is None else group_src
    c = Snap(tensor)
    root = g.rank() == s

    def fin(cs, i):
        if i != s:
            if cs[s].shape != tuple(tensor.shape):
                raise CommError("broadcast: shape mismatch")
            _write(tensor, cs[s].get())

    return collective("broadcast", group, c, fin, [] if root else [tensor], async_op, s)


def _chan(src, dst, group, tag):
    w = _active[0]
    return w.p2p.setdefault((src, dst, G(group).kind, tag or 0), {"send": [], "recv": 0})


def _post_send(t, dst, group, tag):
    _check_buf(t, "isend")
    ch = _chan(me(), dst, group, tag)
    k = len(ch["send"])
    sn = Snap(t)
    ch["send"].append(sn)
    return Work(lambda: ch["recv"] > k, sn.freeze)


def _post_recv(t, src, group, tag):
    _check_buf(t, "irecv")
    ch = _chan(src, me(), group, tag)
    k = ch["recv"]
    ch["recv"] += 1
    _undef(t)

    def fin():
        s = ch["send"][k]
        if s.v.numel() != t.numel() or s.dtype != t.dtype:
            raise CommError(f"irecv: buffer {tuple(t.shape)} {t.dtype} for a message of shape {s.shape} {s.dtype} from rank {src}")
        _write(t, s.get().reshape(t.shape))

    return Work(lambda: len(ch["send"]) > k, fin)


def isend(tensor, dst=None, group=None, tag=0, group_dst=None):
    return _post_send(tensor, dst if group_dst is None else G(group).ranks()[group_dst], group, tag)


def irecv(tensor, src=None, group=None, tag=0, group_src=None):
    return _post_recv(tensor, src if group_src is None else G(group).ranks()[group_src], group, tag)


def send(tensor, dst=None, group=None, tag=0, group_dst=None):
    isend(tensor, dst, group, tag, group_dst).wait()


def recv(tensor, src=None, group=None, tag=0, group_src=None):
    irecv(tensor, src, group, tag, group_src).wait()
    return src


class P2POp:
    def __init__(self, op, tensor, peer=None, group=None, tag=0, group_peer=None):
        if op not in (isend, irecv):
            raise CommError("P2POp: op must be isend or irecv")
        self.op, self.tensor, self.group, self.tag = op, tensor, group, tag
        self.peer = peer if group_peer is None else G(group).ranks()[group_peer]
        if self.peer not in G(group).ranks():
            raise CommError(f"P2POp: peer {self.peer} is not in the group {G(group).ranks()}")


def batch_isend_irecv(p2p_op_list):
    # all operations are posted as one group
    works = []
    for o in p2p_op_list:
        if o.op is isend:
            works.append(_post_send(o.tensor, o.peer, o.group, o.tag))
        else:
            works.append(_post_recv(o.tensor, o.peer, o.group, o.tag))
    return works


STUBS = {
    n: globals()[n]
    for n in (
        "get_rank get_world_size get_process_group_ranks get_global_rank get_group_rank is_initialized is_available get_backend destroy_process_group barrier all_reduce all_gather "
        "all_gather_into_tensor reduce_scatter reduce_scatter_tensor all_to_all all_to_all_single broadcast isend irecv send recv P2POp batch_isend_irecv"
    ).split()
}


class Patched:
    def __enter__(self):
        self.saved = []
        orig = {}
        for n, f in STUBS.items():
            o = getattr(dist, n, None)
            if o is not None:
                orig[id(o)] = (n, f)
            self.saved.append((dist, n, o))
            setattr(dist, n, f)
        for mn, m in list(sys.modules.items()):
            if mn.startswith("torch_harmonics") and m is not None:
                for an, av in list(vars(m).items()):
                    if id(av) in orig:
                        self.saved.append((m, an, av))
                        setattr(m, an, orig[id(av)][1])
        return self

    def __exit__(self, *a):
        for m, n, o in reversed(self.saved):
            if o is None:
                if hasattr(m, n):
                    delattr(m, n)
            else:
                setattr(m, n, o)


class Rank:
    def __init__(self, p, q):
        self.p, self.q = p, q


def spmd(cx, P, Q, fn, groups="both"):
    """Run fn(rank) on every rank of a P x Q grid; returns results[p][q].
    groups: 'both' | 'none' (init never called; only for 1 x 1) | 'polar' / 'azimuth' (the other one is None)."""
    import torch_harmonics.distributed as thd
    from torch_harmonics.distributed import utils as U

    w = World(P, Q)
    res = [None] * w.n
    tb = [None] * w.n
    dflt = torch.get_default_dtype()

    def body(r):
        _tls.rank = r
        with w.cv:
            while w.turn != r and not w.dead:
                w.cv.wait()
        try:
            if w.dead:
                raise _Abort()
            res[r] = fn(Rank(r // Q, r % Q))
            w.finish(r)
        except _Abort:
            w.fail(r, None)
        except BaseException as e:  # noqa
            tb[r] = e
            w.fail(r, e)

    assert _active[0] is None
    _active[0] = w
    try:
        with Patched():
            if groups != "none":
                thd.init(SimGroup("polar") if groups in ("both", "polar") else None, SimGroup("azimuth") if groups in ("both", "azimuth") else None)
            try:
                ths = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(w.n)]
                for t in ths:
                    t.start()
                for t in ths:
                    t.join(600)
                    if t.is_alive():
                        w.dead = True
                        raise S.Unsupported("simulated rank does not finish")
            finally:
                if groups != "none":
                    thd.finalize()
                    for a in ("_POLAR_PARALLEL_GROUP", "_AZIMUTH_PARALLEL_GROUP"):
                        if hasattr(U, a):
                            setattr(U, a, None)
    finally:
        _active[0] = None
        torch.set_default_dtype(dflt)
    if w.error is not None:
        raise w.error
    for k, ch in w.p2p.items():
        if len(ch["send"]) != ch["recv"]:
            raise CommError(f"unmatched messages {k}: {len(ch['send'])} sent, {ch['recv']} received")
    for r in range(1, w.n):
        pass
    for key in {k for (k, r) in w.seq}:
        cnt = {w.seq.get((key, r), 0) for r in key[1:]}
        if len(cnt) > 1:
            raise CommError(f"ranks of group {key} issue different numbers of collectives {cnt}")
    return [[res[p * Q + q] for q in range(Q)] for p in range(P)]


# -------------------------------------------------------------- helpers ----
def shapes(n, k):
    b, r = divmod(n, k)
    return [b + 1] * r + [b] * (k - r)


def block(x, p, P, dim):
    """Chunk p of P of x along dim (the documented balanced split)."""
    s = shapes(x.shape[dim], P)
    return x.narrow(dim % x.dim(), sum(s[:p]), s[p])


def tile(x, r, P, Q, dl=-2, dm=-1):
    return block(block(x, r.p, P, dl), r.q, Q, dm)


def untile(blocks, dl=-2, dm=-1):
    return torch.cat([torch.cat(list(row), dim=dm) for row in blocks], dim=dl)
