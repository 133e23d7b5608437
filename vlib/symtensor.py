"""Symbolic torch tensors: real torch code runs on them unchanged.

A SymTensor is a wrapper subclass; its payload is an int64 tensor of node ids
(one per element; complex tensors carry a trailing dimension of size 2 for the
real and imaginary part).  Structural aten ops run on the id tensor itself, so
views, aliasing and in-place writes behave exactly as in torch; arithmetic ops
build values of the domain in poly.py.
"""
import math
import threading

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten

from . import poly as P

aten = torch.ops.aten
LOCK = threading.RLock()


class Unsupported(Exception):
    pass


# ------------------------------------------------------------ node table ---
NODES = [{}]           # id -> value ; id 0 is the constant zero
CONST = {0.0: 0}
_MEMO = {}
STATS = {"ops": {}, "nodes": 0, "kernels": {}}


def reset():
    P.reset()
    NODES.clear()
    NODES.append({})
    CONST.clear()
    CONST[0.0] = 0
    _MEMO.clear()
    _UNDEF[0] = 0


def new_node(p):
    if P.is_const(p):
        return const_id(P.cval(p))
    NODES.append(p)
    return len(NODES) - 1


def const_id(c):
    c = float(c)
    if c != c:
        NODES.append({0: c})
        return len(NODES) - 1
    i = CONST.get(c)
    if i is None:
        NODES.append({0: c})
        i = len(NODES) - 1
        CONST[c] = i
    return i


_UNDEF = [0]


def undef_id():
    """A fresh unconstrained symbol standing for uninitialised memory."""
    _UNDEF[0] += 1
    return new_node(P.sym(f"undef!{_UNDEF[0]}", -1e3, 1e3))


# boolean nodes: separate table
BNODES = [False, True]


def bnode(c):
    if c is True:
        return 1
    if c is False:
        return 0
    BNODES.append(c)
    return len(BNODES) - 1


def op2(name, f, a, b):
    k = (name, a, b)
    r = _MEMO.get(k)
    if r is None:
        r = new_node(f(NODES[a], NODES[b]))
        _MEMO[k] = r
    return r


def op1(name, f, a):
    k = (name, a)
    r = _MEMO.get(k)
    if r is None:
        r = new_node(f(NODES[a]))
        _MEMO[k] = r
    return r


# ---------------------------------------------------------- the subclass ---
class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, ids, dtype, requires_grad=False):
        cplx = dtype.is_complex
        shape = ids.shape[:-1] if cplx else ids.shape
        st = ids.stride()
        if cplx:
            st = st[:-1]
            if all(s % 2 == 0 for s in st) and ids.stride(-1) == 1:
                st = tuple(s // 2 for s in st)
            else:
                st = tuple(_contig_strides(shape))
        r = torch.Tensor._make_wrapper_subclass(cls, tuple(shape), strides=tuple(st), dtype=dtype, device="cpu", requires_grad=requires_grad)
        r._ids = ids
        return r

    def __init__(self, ids, dtype, requires_grad=False):
        pass

    def __repr__(self):
        return f"SymTensor({tuple(self.shape)}, {self.dtype})"

    def __tensor_flatten__(self):
        return ["_ids"], self.dtype

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def _contig_strides(shape):
    s, r = [], 1
    for d in reversed(shape):
        s.append(r)
        r *= max(d, 1)
    return list(reversed(s))


class SymBool(torch.Tensor):
    """Boolean tensor of symbolic conditions (payload: ids into BNODES)."""

    @staticmethod
    def __new__(cls, ids):
        r = torch.Tensor._make_wrapper_subclass(cls, tuple(ids.shape), strides=ids.stride(), dtype=torch.bool, device="cpu")
        r._ids = ids
        return r

    def __init__(self, ids):
        pass

    def __repr__(self):
        return f"SymBool({tuple(self.shape)})"

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def is_sym(x):
    return isinstance(x, (SymTensor, SymBool))


class NoMode:
    """Disable our factory mode while running payload ops."""

    def __enter__(self):
        self.g = torch._C._DisableTorchDispatch()
        return self

    def __exit__(self, *a):
        del self.g


def ids_of(x):
    """Payload ids of a tensor (lifting constants)."""
    if isinstance(x, SymTensor):
        return x._ids
    if isinstance(x, SymBool):
        one, zero = P.const(1.0), P.const(0.0)
        with LOCK:
            f = [const_id(float(i)) if i <= 1 else new_node(P.fite(BNODES[i], one, zero)) for i in x._ids.reshape(-1).tolist()]
        return torch.tensor(f, dtype=torch.int64).reshape(x._ids.shape)
    return lift_ids(x)


def lift_ids(t):
    t = t.detach()
    if t.layout != torch.strided:
        t = t.to_dense()
    if t.dtype.is_complex:
        t = torch.view_as_real(t.resolve_conj())
    a = t.to(torch.float64).numpy() if t.dtype != torch.float64 else t.numpy()
    flat = np.ascontiguousarray(a).reshape(-1)
    with LOCK:
        out = np.fromiter((const_id(v) for v in flat.tolist()), dtype=np.int64, count=flat.size)
    return torch.from_numpy(out.reshape(a.shape))


def lift(t, dtype=None):
    return SymTensor(lift_ids(t), dtype or t.dtype)


def const_of(x):
    """If all entries are constant return a float64/complex128 tensor else None."""
    if not isinstance(x, SymTensor):
        return x
    flat = x._ids.reshape(-1).tolist()
    vals = []
    for i in flat:
        p = NODES[i]
        if not P.is_const(p):
            return None
        vals.append(P.cval(p))
    t = torch.tensor(vals, dtype=torch.float64).reshape(x._ids.shape)
    if x.dtype.is_complex:
        t = torch.view_as_complex(t.contiguous())
    return t


def make_sym(name, shape, dtype=torch.float64, lo=-1.0, hi=1.0):
    """Fresh symbolic input tensor."""
    shp = tuple(shape) + ((2,) if dtype.is_complex else ())
    n = int(np.prod(shp)) if shp else 1
    ids = []
    with LOCK:
        for k in range(n):
            idx = np.unravel_index(k, shp) if shp else ()
            ids.append(new_node(P.sym(f"{name}[{','.join(map(str, map(int, idx)))}]", lo, hi)))
    return SymTensor(torch.tensor(ids, dtype=torch.int64).reshape(shp), dtype)


def to_values(x):
    """numpy object array of domain values."""
    ids = ids_of(x)
    out = np.empty(ids.numel(), dtype=object)
    for k, i in enumerate(ids.reshape(-1).tolist()):
        out[k] = NODES[i]
    return out.reshape(tuple(ids.shape))


def from_ids(ids, dtype):
    return SymTensor(ids, dtype)


# ------------------------------------------------------------ elementwise --
def _bc(*ids):
    return torch.broadcast_tensors(*ids)


def ew(name, f, *idt):
    """Elementwise over broadcast id tensors."""
    if len(idt) > 1:
        idt = _bc(*idt)
    shape = idt[0].shape
    flats = [t.reshape(-1).tolist() for t in idt]
    with LOCK:
        if len(flats) == 1:
            out = [op1(name, f, a) for a in flats[0]]
        else:
            out = [op2(name, f, a, b) for a, b in zip(*flats)]
    return torch.tensor(out, dtype=torch.int64).reshape(shape)


def i_add(a, b):
    return ew("+", P.add, a, b)


def i_sub(a, b):
    return ew("-", P.sub, a, b)


def i_mul(a, b):
    return ew("*", P.mul, a, b)


def i_div(a, b):
    return ew("/", P.div, a, b)


def i_neg(a):
    return ew("neg", P.neg, a)


def i_scale(a, c):
    if c == 1:
        return a
    return i_mul(a, torch.tensor(const_id(c)))


def res_dtype(*xs):
    ts = []
    for x in xs:
        if isinstance(x, torch.Tensor):
            ts.append(torch.empty((1,) * x.dim() if x.dim() else (), dtype=x.dtype))
        else:
            ts.append(x)
    r = ts[0]
    if len(ts) == 1:
        return r.dtype if isinstance(r, torch.Tensor) else torch.result_type(torch.empty(()), r)
    d = torch.result_type(ts[0], ts[1])
    for t in ts[2:]:
        d = torch.result_type(torch.empty((1,), dtype=d), t)
    return d


def c_parts(x, cplx):
    """(re, im) id tensors of operand x (im None if real)."""
    if not isinstance(x, torch.Tensor):
        if isinstance(x, complex):
            return torch.tensor(const_id(x.real)), torch.tensor(const_id(x.imag))
        return torch.tensor(const_id(float(x))), None
    ids = ids_of(x)
    if x.dtype.is_complex:
        return ids[..., 0], ids[..., 1]
    return ids, None


def mk(re, im, dtype):
    if dtype.is_complex:
        if im is None:
            im = torch.zeros_like(re)
        re, im = _bc(re, im)
        return SymTensor(torch.stack([re, im], dim=-1), dtype)
    return SymTensor(re.clone() if not re.is_contiguous() else re, dtype)


def binary(kind, a, b, dtype=None):
    d = dtype or res_dtype(a, b)
    if kind == "/" and not (d.is_floating_point or d.is_complex):
        d = torch.get_default_dtype()
    ar, ai = c_parts(a, d)
    br, bi = c_parts(b, d)
    if kind in "+-":
        f = i_add if kind == "+" else i_sub
        re = f(ar, br)
        if ai is None and bi is None:
            return mk(re, None, d)
        z = torch.tensor(0)
        im = f(ai if ai is not None else z, bi if bi is not None else z)
        return mk(re, im, d)
    if kind == "*":
        if ai is None and bi is None:
            return mk(i_mul(ar, br), None, d)
        if bi is None:
            return mk(i_mul(ar, br), i_mul(ai, br), d)
        if ai is None:
            return mk(i_mul(ar, br), i_mul(ar, bi), d)
        return mk(i_sub(i_mul(ar, br), i_mul(ai, bi)), i_add(i_mul(ar, bi), i_mul(ai, br)), d)
    if kind == "/":
        if bi is None:
            return mk(i_div(ar, br), None if ai is None else i_div(ai, br), d)
        den = i_add(i_mul(br, br), i_mul(bi, bi))
        if ai is None:
            ai = torch.tensor(0)
        nr = i_add(i_mul(ar, br), i_mul(ai, bi))
        ni = i_sub(i_mul(ai, br), i_mul(ar, bi))
        return mk(i_div(nr, den), i_div(ni, den), d)
    raise Unsupported(kind)


# ---------------------------------------------------------- linear algebra -
def _coef_matrix(ids_flat):
    """Dense coefficient matrix over the union of monomials of the unique ids."""
    uniq, inv = np.unique(ids_flat, return_inverse=True)
    cols = {}
    rows, cs, vs = [], [], []
    for r, i in enumerate(uniq.tolist()):
        for m, c in NODES[i].items():
            k = cols.get(m)
            if k is None:
                k = len(cols)
                cols[m] = k
            rows.append(r)
            cs.append(k)
            vs.append(c)
    C = np.zeros((len(uniq), max(len(cols), 1)))
    if rows:
        C[rows, cs] = vs
    ms = [None] * max(len(cols), 1)
    for m, k in cols.items():
        ms[k] = m
    if ms and ms[0] is None:
        ms[0] = 0
    return C, inv, ms


def _rows_to_ids(R, ms):
    """R: [N, M] coefficients -> N node ids."""
    out = np.empty(R.shape[0], dtype=np.int64)
    if R.size == 0:
        out[:] = 0
        return out
    mx = np.abs(R).max(axis=1, keepdims=True)
    keep = np.abs(R) > np.maximum(mx * P.REL_DROP, 0)
    with LOCK:
        for n in range(R.shape[0]):
            k = np.nonzero(keep[n])[0]
            if k.size == 0:
                out[n] = 0
            else:
                out[n] = new_node({ms[j]: float(R[n, j]) for j in k.tolist()})
    return out


def bmm_ids(A, B):
    """A [b,i,j] ids or float64 const, B [b,j,k] ids or const -> ids [b,i,k]."""
    a_const = A.dtype == torch.float64
    b_const = B.dtype == torch.float64
    b, i, j = A.shape
    k = B.shape[2]
    if j == 0:
        return torch.zeros((b, i, k), dtype=torch.int64)
    if a_const and b_const:
        return lift_ids(torch.bmm(A, B))
    if a_const or b_const:
        S = B if a_const else A
        with LOCK:
            C, inv, ms = _coef_matrix(S.reshape(-1).numpy())
        M = C.shape[1]
        out = np.empty((b, i, k), dtype=np.int64)
        Sinv = torch.from_numpy(inv.reshape(tuple(S.shape)))
        Ct = torch.from_numpy(C)
        for bb in range(b):
            if b_const:
                X = Ct[Sinv[bb]]                        # [i,j,M]
                R = torch.einsum("ijm,jk->ikm", X, B[bb])
            else:
                X = Ct[Sinv[bb]]                        # [j,k,M]
                R = torch.einsum("ij,jkm->ikm", A[bb], X)
            out[bb] = _rows_to_ids(R.reshape(-1, M).numpy(), ms).reshape(i, k)
        return torch.from_numpy(out)
    # both symbolic
    out = np.zeros((b, i, k), dtype=np.int64)
    An, Bn = A.numpy(), B.numpy()
    with LOCK:
        for bb in range(b):
            for ii in range(i):
                for kk in range(k):
                    acc = {}
                    for jj in range(j):
                        x, y = int(An[bb, ii, jj]), int(Bn[bb, jj, kk])
                        if x == 0 or y == 0:
                            continue
                        acc = P.add(acc, NODES[op2("*", P.mul, x, y)])
                    out[bb, ii, kk] = new_node(acc)
    return torch.from_numpy(out)


def _real_operand(x):
    """float64 tensor if constant, else ids."""
    if not isinstance(x, SymTensor):
        t = x.detach()
        if t.layout != torch.strided:
            t = t.to_dense()
        return t.to(torch.float64)
    c = const_of(x) if x._ids.numel() <= 200000 else None
    return c if c is not None else x._ids


def _split_c(x):
    o = const_of(x) if isinstance(x, SymTensor) else x.detach()
    if o is not None:
        if o.layout != torch.strided:
            o = o.to_dense()
        if o.dtype.is_complex:
            o = o.resolve_conj().to(torch.complex128)
            return o.real.contiguous(), o.imag.contiguous()
        return o.to(torch.float64), None
    if x.dtype.is_complex:
        return x._ids[..., 0].contiguous(), x._ids[..., 1].contiguous()
    return x._ids, None


def bmm(a, b):
    d = res_dtype(a, b)
    ar, ai = _split_c(a)
    br, bi = _split_c(b)
    if ai is None and bi is None:
        return SymTensor(bmm_ids(ar, br), d)
    rr = bmm_ids(ar, br)
    if bi is None:
        return mk(rr, bmm_ids(ai, br), d)
    if ai is None:
        return mk(rr, bmm_ids(ar, bi), d)
    return mk(i_sub(rr, bmm_ids(ai, bi)), i_add(bmm_ids(ar, bi), bmm_ids(ai, br)), d)


def sum_ids(ids, dims, keepdim):
    nd = ids.dim()
    dims = sorted({d % nd for d in dims}) if nd else []
    keep = [d for d in range(nd) if d not in dims]
    t = ids.permute(*keep, *dims) if nd else ids
    kshape = [ids.shape[d] for d in keep]
    n = int(np.prod([ids.shape[d] for d in dims])) if dims else 1
    t = t.reshape(-1, n).tolist() if t.numel() else [[] for _ in range(int(np.prod(kshape)) if kshape else 1)]
    out = []
    with LOCK:
        for row in t:
            acc = {}
            first = True
            for x in row:
                if x == 0:
                    continue
                if first:
                    acc = dict(NODES[x])
                    first = False
                else:
                    for m, c in NODES[x].items():
                        acc[m] = acc.get(m, 0.0) + c
            acc = P.clean({m: c for m, c in acc.items() if c != 0.0})
            if acc:
                mx = max(abs(v) for v in acc.values())
                acc = {m: c for m, c in acc.items() if abs(c) > 1e-16 * max(mx, 1e-300)}
            out.append(new_node(acc))
    r = torch.tensor(out, dtype=torch.int64).reshape(kshape)
    if keepdim:
        for d in dims:
            r = r.unsqueeze(d)
    return r


def lin_map_last(re, im, Mrr, Mri, Mir, Mii):
    """Apply constant linear maps on last dim: out_re = re@Mrr + im@Mir, out_im = re@Mri + im@Mii."""
    sh = re.shape[:-1]
    n = re.shape[-1]

    def app(x, M):
        if x is None or M is None:
            return None
        return bmm_ids(x.reshape(1, -1, n), M.unsqueeze(0))[0]

    def plus(a, b):
        return b if a is None else (a if b is None else i_add(a, b))

    orr = plus(app(re, Mrr), app(im, Mir))
    oii = plus(app(re, Mri), app(im, Mii))
    f = lambda t: None if t is None else t.reshape(*sh, t.shape[-1])
    return f(orr), f(oii)


def _fft_scale(n, normalization):
    return {0: 1.0, 1: 1.0 / math.sqrt(n), 2: 1.0 / n}[int(normalization)]


# ------------------------------------------------------------- dispatch ----
HANDLERS = {}


def impl(*ops):
    def deco(f):
        for o in ops:
            HANDLERS[o] = f
        return f

    return deco


def _structural(nd_arg=0):
    pass


def nd(x):
    return x.dim()


def fixdim(d, n):
    return d % n if n else 0


def pay(x):
    """payload and number of extra trailing dims."""
    return ids_of(x), (1 if x.dtype.is_complex else 0)


def wrap_like(x, ids):
    if isinstance(x, SymBool):
        return SymBool(ids)
    return SymTensor(ids, x.dtype)


def _simple_dim_op(op):
    """ops of the form op(x, dim, ...) with dim as first extra argument"""

    def h(func, args, kwargs):
        x = args[0]
        ids = ids_of(x) if not isinstance(x, SymBool) else x._ids
        rest = list(args[1:])
        if rest:
            rest[0] = fixdim(rest[0], max(nd(x), 1))
        else:
            rest = [fixdim(kwargs.pop("dim", 0), max(nd(x), 1))]
        out = func(ids, *rest, **kwargs)
        if isinstance(out, (list, tuple)):
            return [wrap_like(x, o) for o in out]
        return wrap_like(x, out)

    return h


for _op in (aten.select.int, aten.slice.Tensor, aten.unbind.int, aten.narrow.default, aten.index_select.default):
    HANDLERS[_op] = _simple_dim_op(_op)


@impl(aten.split.Tensor, aten.split_with_sizes.default, aten.chunk.default)
def _(func, args, kwargs):
    x = args[0]
    d = args[2] if len(args) > 2 else kwargs.get("dim", 0)
    return [wrap_like(x, o) for o in func(x._ids, args[1], fixdim(d, max(nd(x), 1)))]


@impl(aten.unsqueeze.default)
def _(func, args, kwargs):
    x, d = args
    ids = x._ids
    return wrap_like(x, ids.unsqueeze(fixdim(d, nd(x) + 1)))


@impl(aten.squeeze.dim, aten.squeeze.dims, aten.squeeze.default)
def _(func, args, kwargs):
    x = args[0]
    ids = x._ids
    n = nd(x)
    if len(args) > 1:
        dims = args[1] if isinstance(args[1], (list, tuple)) else [args[1]]
        dims = [fixdim(d, n) for d in dims] if n else []
    else:
        dims = list(range(n))
    for d in sorted(set(dims), reverse=True):
        if x.shape[d] == 1:
            ids = ids.squeeze(d)
    return wrap_like(x, ids)


@impl(aten.permute.default)
def _(func, args, kwargs):
    x, dims = args
    n = nd(x)
    dims = [fixdim(d, n) for d in dims]
    e = 1 if x.dtype.is_complex else 0
    return wrap_like(x, x._ids.permute(*dims, *([n] * e)))


@impl(aten.transpose.int, aten.swapaxes.default)
def _(func, args, kwargs):
    x, a, b = args
    n = nd(x)
    return wrap_like(x, x._ids.transpose(fixdim(a, n), fixdim(b, n)))


@impl(aten.t.default)
def _(func, args, kwargs):
    x = args[0]
    return wrap_like(x, x._ids.transpose(0, 1) if nd(x) == 2 else x._ids)


def _size_with_extra(x, size):
    return list(size) + ([2] if x.dtype.is_complex else [])


@impl(aten.view.default, aten._unsafe_view.default, aten.reshape.default, aten._reshape_alias.default)
def _(func, args, kwargs):
    x, size = args[0], list(args[1])
    n = x.numel()
    if -1 in size:
        k = size.index(-1)
        p = int(np.prod([s for s in size if s != -1])) if len(size) > 1 else 1
        size[k] = n // p if p else 0
    sz = _size_with_extra(x, size)
    if func in (aten.view.default,):
        try:
            return wrap_like(x, x._ids.view(sz))
        except RuntimeError:
            return wrap_like(x, x._ids.reshape(sz))
    return wrap_like(x, x._ids.reshape(sz))


@impl(aten.expand.default)
def _(func, args, kwargs):
    x, size = args[0], list(args[1])
    off = len(size) - nd(x)
    size = [x.shape[i - off] if (s == -1) else s for i, s in enumerate(size)]
    return wrap_like(x, x._ids.expand(_size_with_extra(x, size)))


@impl(aten.repeat.default)
def _(func, args, kwargs):
    x, reps = args
    return wrap_like(x, x._ids.repeat(*(list(reps) + ([1] if x.dtype.is_complex else []))))


@impl(aten.tile.default)
def _(func, args, kwargs):
    x, reps = args
    reps = list(reps)
    reps = [1] * (nd(x) - len(reps)) + reps
    return wrap_like(x, x._ids.repeat(*(reps + ([1] if x.dtype.is_complex else []))))


@impl(aten.flip.default)
def _(func, args, kwargs):
    x, dims = args
    return wrap_like(x, x._ids.flip([fixdim(d, nd(x)) for d in dims]))


@impl(aten.roll.default)
def _(func, args, kwargs):
    x, shifts = args[0], args[1]
    dims = args[2] if len(args) > 2 else kwargs.get("dims", [])
    if not dims:
        return wrap_like(x, x._ids.reshape(-1, *([2] if x.dtype.is_complex else [])).roll(shifts, [0]).reshape(x._ids.shape))
    return wrap_like(x, x._ids.roll(shifts, [fixdim(d, nd(x)) for d in dims]))


@impl(aten.cat.default)
def _(func, args, kwargs):
    xs = args[0]
    d = args[1] if len(args) > 1 else kwargs.get("dim", 0)
    xs = [x for x in xs if not (x.dim() == 1 and x.numel() == 0)] or list(xs)
    dt = xs[0].dtype
    for x in xs[1:]:
        dt = torch.promote_types(dt, x.dtype)
    n = nd(xs[0])
    return SymTensor(torch.cat([ids_of(_to(x, dt)) for x in xs], fixdim(d, n)), dt)


@impl(aten.stack.default)
def _(func, args, kwargs):
    xs = args[0]
    d = args[1] if len(args) > 1 else kwargs.get("dim", 0)
    dt = xs[0].dtype
    for x in xs[1:]:
        dt = torch.promote_types(dt, x.dtype)
    return SymTensor(torch.stack([ids_of(_to(x, dt)) for x in xs], fixdim(d, nd(xs[0]) + 1)), dt)


@impl(aten.constant_pad_nd.default)
def _(func, args, kwargs):
    x, padv = args[0], list(args[1])
    v = args[2] if len(args) > 2 else kwargs.get("value", 0)
    n = nd(x)
    np_ = len(padv) // 2
    shape = list(x.shape)
    sl = [slice(None)] * n
    src = [slice(None)] * n
    for k in range(np_):
        d = n - 1 - k
        lo, hi = padv[2 * k], padv[2 * k + 1]
        shape[d] = shape[d] + lo + hi
        sl[d] = slice(max(lo, 0), shape[d] - max(hi, 0))
        src[d] = slice(max(-lo, 0), x.shape[d] - max(-hi, 0))
    ids = torch.full(_size_with_extra(x, shape), const_id(float(v)), dtype=torch.int64)
    if x.dtype.is_complex:
        ids[..., 1] = 0
    ids[tuple(sl)] = x._ids[tuple(src)]
    return SymTensor(ids, x.dtype)


@impl(aten.clone.default, aten.contiguous.default)
def _(func, args, kwargs):
    x = args[0]
    mf = kwargs.get("memory_format")
    if mf in (None, torch.preserve_format):
        ids = x._ids.clone()
    else:
        ids = x._ids.clone(memory_format=torch.contiguous_format)
        if mf == torch.channels_last and nd(x) == 4 and not x.dtype.is_complex:
            ids = x._ids.clone(memory_format=torch.channels_last)
    return wrap_like(x, ids)


@impl(aten.detach.default, aten.alias.default, aten.lift_fresh.default, aten.lift_fresh_copy.default, aten.detach_.default)
def _(func, args, kwargs):
    x = args[0]
    return wrap_like(x, x._ids)


NARROW = [False]   # model float64 -> float32 casts as rounding (fresh bounded error per value); "amp": also casts to half/bfloat16
_PREC = {torch.float64: 3, torch.complex128: 3, torch.float32: 2, torch.complex64: 2, torch.float16: 1, torch.bfloat16: 1}
_UNIT = {torch.float16: 2.0**-11, torch.bfloat16: 2.0**-8}


def _round_node(i, u=2.0**-24):
    k = ("round32", i) if u == 2.0**-24 else ("round", u, i)
    r = _MEMO.get(k)
    if r is None:
        p = NODES[i]
        if P.is_const(p):
            c = P.cval(p)
            r = const_id(float(np.float32(c)) if u == 2.0**-24 else float(torch.tensor(c, dtype=torch.float16 if u == 2.0**-11 else torch.bfloat16)))
        else:
            lo, hi = P.bounds(p)
            b = max(abs(lo), abs(hi))
            if not math.isfinite(b):
                b = 1e3
            _UNDEF[0] += 1
            r = new_node(P.add(p, P.sym(f"round!{_UNDEF[0]}", -b * u, b * u)))
        _MEMO[k] = r
    return r


def _to(x, dtype):
    if x.dtype == dtype:
        return x
    if NARROW[0] and isinstance(x, SymTensor) and _PREC.get(x.dtype, 0) == 3 and _PREC.get(dtype, 9) < 3:
        with LOCK:
            ids = torch.tensor([_round_node(i) for i in x._ids.reshape(-1).tolist()], dtype=torch.int64).reshape(x._ids.shape)
        x = SymTensor(ids, x.dtype)
    elif NARROW[0] == "amp" and isinstance(x, SymTensor) and dtype in _UNIT and _PREC.get(x.dtype, 0) > 1:
        with LOCK:
            ids = torch.tensor([_round_node(i, _UNIT[dtype]) for i in x._ids.reshape(-1).tolist()], dtype=torch.int64).reshape(x._ids.shape)
        x = SymTensor(ids, x.dtype)
    if not isinstance(x, SymTensor):
        if is_sym(x):
            raise Unsupported("bool cast")
        return x.to(dtype)
    if dtype.is_complex:
        if x.dtype.is_complex:
            return SymTensor(x._ids.clone(), dtype)
        return SymTensor(torch.stack([x._ids, torch.zeros_like(x._ids)], -1), dtype)
    if x.dtype.is_complex:
        return SymTensor(x._ids[..., 0].clone(), dtype)
    if not dtype.is_floating_point:
        c = const_of(x)
        if c is None:
            raise Unsupported(f"cast of symbolic data to {dtype}")
        return c.to(dtype)
    return SymTensor(x._ids.clone(), dtype)


@impl(aten._to_copy.default)
def _(func, args, kwargs):
    x = args[0]
    dt = kwargs.get("dtype") or x.dtype
    if isinstance(x, SymBool):
        if dt == torch.bool:
            return SymBool(x._ids.clone())
        one, zero = const_id(1.0), 0
        with LOCK:
            out = [new_node(P.fite(BNODES[i], P.ONE, P.ZERO)) for i in x._ids.reshape(-1).tolist()]
        r = torch.tensor(out, dtype=torch.int64).reshape(x._ids.shape)
        return SymTensor(r, dt if dt.is_floating_point else torch.float64)
    r = _to(x, dt)
    if r is x:
        r = SymTensor(x._ids.clone(), x.dtype)
    return r


@impl(aten.copy_.default)
def _(func, args, kwargs):
    dst, src = args[0], args[1]
    if not is_sym(dst):
        raise Unsupported("copy_ of symbolic data into a constant tensor")
    if isinstance(dst, SymBool):
        dst._ids.copy_(src._ids if is_sym(src) else src.to(torch.int64))
        return dst
    s = _to(src, dst.dtype) if isinstance(src, SymTensor) else src
    if s.dtype != dst.dtype:
        s = s.to(dst.dtype)
    ids = ids_of(s)
    if dst.dtype.is_complex:
        dst._ids.copy_(ids.expand(dst._ids.shape) if ids.dim() == dst._ids.dim() else torch.broadcast_to(ids, dst._ids.shape))
    else:
        dst._ids.copy_(ids)
    return dst


@impl(aten.fill_.Scalar, aten.fill_.Tensor)
def _(func, args, kwargs):
    x, v = args
    if isinstance(v, SymTensor):
        x._ids.copy_(v._ids)
        return x
    v = complex(v) if x.dtype.is_complex else float(v)
    if x.dtype.is_complex:
        x._ids[..., 0].fill_(const_id(v.real))
        x._ids[..., 1].fill_(const_id(v.imag))
    else:
        x._ids.fill_(const_id(v))
    return x


@impl(aten.zero_.default)
def _(func, args, kwargs):
    args[0]._ids.zero_()
    return args[0]


# factories "like"
def _dt(x, kwargs):
    return kwargs.get("dtype") or x.dtype


def full_ids(shape, dtype, v):
    shp = list(shape) + ([2] if dtype.is_complex else [])
    ids = torch.full(shp, const_id(float(v)), dtype=torch.int64)
    if dtype.is_complex:
        ids[..., 1] = 0
    return ids


def undef_ids(shape, dtype):
    shp = list(shape) + ([2] if dtype.is_complex else [])
    n = int(np.prod(shp)) if shp else 1
    with LOCK:
        return torch.tensor([undef_id() for _ in range(n)], dtype=torch.int64).reshape(shp)


def _isf(dt):
    return dt.is_floating_point or dt.is_complex


@impl(aten.zeros_like.default, aten.ones_like.default, aten.empty_like.default, aten.full_like.default, aten.rand_like.default, aten.randn_like.default)
def _(func, args, kwargs):
    x = args[0]
    dt = _dt(x, kwargs)
    if func is aten.full_like.default:
        v = args[1]
    else:
        v = 1.0 if func is aten.ones_like.default else 0.0
    if func in (aten.rand_like.default, aten.randn_like.default):
        raise Unsupported(str(func))
    if not _isf(dt):
        return torch.full(x.shape, v, dtype=dt)
    if func is aten.empty_like.default:
        return SymTensor(undef_ids(x.shape, dt), dt)
    return SymTensor(full_ids(x.shape, dt, v), dt)


@impl(aten.new_zeros.default, aten.new_ones.default, aten.new_empty.default, aten.new_full.default, aten.new_empty_strided.default)
def _(func, args, kwargs):
    x, size = args[0], args[1]
    dt = _dt(x, kwargs)
    if not _isf(dt):
        return torch.zeros(size, dtype=dt) if func is not aten.new_ones.default else torch.ones(size, dtype=dt)
    if func in (aten.new_empty.default, aten.new_empty_strided.default):
        return SymTensor(undef_ids(size, dt), dt)
    v = {aten.new_zeros.default: 0.0, aten.new_ones.default: 1.0}.get(func, None)
    if v is None:
        v = args[2]
    return SymTensor(full_ids(size, dt, v), dt)


# arithmetic
def _bin(kind):
    def h(func, args, kwargs):
        a, b = args[0], args[1]
        alpha = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
        if alpha != 1:
            b = b * alpha
        return binary(kind, a, b)

    return h


HANDLERS[aten.add.Tensor] = HANDLERS[aten.add.Scalar] = _bin("+")
HANDLERS[aten.sub.Tensor] = HANDLERS[aten.sub.Scalar] = _bin("-")
HANDLERS[aten.mul.Tensor] = HANDLERS[aten.mul.Scalar] = lambda f, a, k: binary("*", a[0], a[1])


@impl(aten.div.Tensor, aten.div.Scalar, aten.true_divide.Tensor)
def _(func, args, kwargs):
    return binary("/", args[0], args[1])


@impl(aten.rsub.Scalar, aten.rsub.Tensor)
def _(func, args, kwargs):
    return binary("-", args[1], args[0])


def _inplace(kind):
    def h(func, args, kwargs):
        x, y = args[0], args[1]
        if not is_sym(x):
            raise Unsupported("in-place arithmetic of symbolic data into a constant tensor")
        alpha = kwargs.get("alpha", 1)
        if alpha != 1:
            y = y * alpha
        r = binary(kind, x, y, dtype=x.dtype if not (isinstance(y, torch.Tensor) and y.dtype.is_complex) else None)
        x._ids.copy_(r._ids)
        return x

    return h


for _k, _o in (("+", aten.add_), ("-", aten.sub_), ("*", aten.mul_), ("/", aten.div_)):
    HANDLERS[_o.Tensor] = _inplace(_k)
    if hasattr(_o, "Scalar"):
        HANDLERS[_o.Scalar] = _inplace(_k)


@impl(aten.neg.default)
def _(func, args, kwargs):
    x = args[0]
    return SymTensor(i_neg(x._ids), x.dtype)


@impl(aten.neg_.default)
def _(func, args, kwargs):
    x = args[0]
    x._ids.copy_(i_neg(x._ids))
    return x


def _un(name, f):
    def h(func, args, kwargs):
        x = args[0]
        if x.dtype.is_complex:
            raise Unsupported(f"complex {name}")
        return SymTensor(ew(name, f, x._ids), x.dtype)

    return h


HANDLERS[aten.exp.default] = _un("exp", P.exp)
HANDLERS[aten.sin.default] = _un("sin", P.fsin)
HANDLERS[aten.cos.default] = _un("cos", P.fcos)
HANDLERS[aten.log.default] = _un("log", P.flog)
HANDLERS[aten.sqrt.default] = _un("sqrt", lambda p: P.power(p, 0.5))
HANDLERS[aten.rsqrt.default] = _un("rsqrt", lambda p: P.power(p, -0.5))
HANDLERS[aten.reciprocal.default] = _un("inv", P.inv)
HANDLERS[aten.square.default] = _un("sq", lambda p: P.mul(p, p))


@impl(aten.abs.default)
def _(func, args, kwargs):
    x = args[0]
    if x.dtype.is_complex:
        re, im = x._ids[..., 0], x._ids[..., 1]
        s = i_add(i_mul(re, re), i_mul(im, im))
        return SymTensor(ew("sqrt", lambda p: P.power(p, 0.5), s), torch.empty(0, dtype=x.dtype).real.dtype)
    return SymTensor(ew("abs", P.fabs, x._ids), x.dtype)


@impl(aten.sgn.default)
def _(func, args, kwargs):
    raise Unsupported("sgn")


@impl(aten.pow.Tensor_Tensor)
def _(func, args, kwargs):
    x, k = args
    kc = const_of(k) if is_sym(k) else k
    if kc is None or x.dtype.is_complex or kc.dtype.is_complex:
        raise Unsupported("pow with a symbolic exponent")
    dt = torch.result_type(x, kc)
    xi, kc = torch.broadcast_tensors(ids_of(x), kc.detach())
    out = torch.empty(xi.shape, dtype=torch.int64)
    fo, fx, fk = out.reshape(-1), xi.reshape(-1).tolist(), kc.reshape(-1).tolist()
    with LOCK:
        for n, (i, e) in enumerate(zip(fx, fk)):
            p = NODES[i]
            if e == 0:
                q = P.const(1.0)
            elif e < 0 and P.bounds(p)[0] <= 0 <= P.bounds(p)[1]:
                q = P.const(math.nan)      # may divide by zero: poison, must not reach a result
            else:
                q = P.power(p, int(e) if e == int(e) else e)
            fo[n] = new_node(q)
    return SymTensor(out, dt)


@impl(aten.pow.Tensor_Scalar)
def _(func, args, kwargs):
    x, k = args
    if x.dtype.is_complex:
        if k == 2:
            return binary("*", x, x)
        raise Unsupported("complex pow")
    k = float(k)
    return SymTensor(ew(f"pow{k}", lambda p: P.power(p, int(k) if k == int(k) else k), x._ids), x.dtype)


@impl(aten.maximum.default)
def _(func, args, kwargs):
    a, b = args
    return SymTensor(ew("max", P.fmax, *_bc(ids_of(a), ids_of(b))), res_dtype(a, b))


@impl(aten.minimum.default)
def _(func, args, kwargs):
    a, b = args
    return SymTensor(ew("min", lambda p, q: P.neg(P.fmax(P.neg(p), P.neg(q))), *_bc(ids_of(a), ids_of(b))), res_dtype(a, b))


@impl(aten.clamp.default, aten.clamp_min.default, aten.clamp_max.default)
def _(func, args, kwargs):
    x = args[0]
    lo = hi = None
    if func is aten.clamp_min.default:
        lo = args[1]
    elif func is aten.clamp_max.default:
        hi = args[1]
    else:
        lo = args[1] if len(args) > 1 else kwargs.get("min")
        hi = args[2] if len(args) > 2 else kwargs.get("max")
    ids = x._ids
    if lo is not None:
        ids = ew("max", P.fmax, ids, torch.tensor(const_id(lo)))
    if hi is not None:
        ids = ew("min", lambda p, q: P.neg(P.fmax(P.neg(p), P.neg(q))), ids, torch.tensor(const_id(hi)))
    return SymTensor(ids, x.dtype)


@impl(aten.amax.default)
def _(func, args, kwargs):
    x = args[0]
    dims = list(args[1]) if len(args) > 1 else list(range(nd(x)))
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    ids = x._ids
    for d in sorted({fixdim(d, nd(x)) for d in dims}, reverse=True):
        r = ids.select(d, 0)
        for j in range(1, ids.shape[d]):
            r = ew("max", P.fmax, r, ids.select(d, j))
        ids = r.unsqueeze(d) if keep else r
    return SymTensor(ids, x.dtype)


@impl(aten.max.dim, aten.min.dim)
def _(func, args, kwargs):
    x, d = args[0], args[1]
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    v = torch.amax(x, d, keep) if func is aten.max.dim else -torch.amax(-x, d, keep)
    # the position is not modelled: an index that cannot be used
    return v, torch.full(tuple(v.shape), -(10 ** 15), dtype=torch.int64)


@impl(aten.sum.dim_IntList, aten.sum.default, aten.mean.dim, aten.mean.default)
def _(func, args, kwargs):
    x = args[0]
    dims = None
    if len(args) > 1 and func in (aten.sum.dim_IntList, aten.mean.dim):
        dims = args[1]
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    n = nd(x)
    dims = [fixdim(d, n) for d in dims] if dims else list(range(n))
    cnt = int(np.prod([x.shape[d] for d in dims])) if dims else 1
    dt = kwargs.get("dtype") or x.dtype
    if x.dtype.is_complex:
        re = sum_ids(x._ids[..., 0], dims, keep)
        im = sum_ids(x._ids[..., 1], dims, keep)
        ids = torch.stack([re, im], -1)
    else:
        ids = sum_ids(x._ids, dims, keep)
    if "mean" in str(func):
        ids = i_div(ids, torch.tensor(const_id(float(cnt))))
    return SymTensor(ids, dt)


@impl(aten.cumsum.default)
def _(func, args, kwargs):
    x, d = args[0], fixdim(args[1], nd(args[0]))
    outs = []
    acc = None
    for j in range(x.shape[d]):
        c = x._ids.select(d, j)
        acc = c if acc is None else i_add(acc, c)
        outs.append(acc)
    return SymTensor(torch.stack(outs, d), x.dtype)


@impl(aten.mm.default)
def _(func, args, kwargs):
    a, b = args
    return _squeeze0(bmm(_uns0(a), _uns0(b)))


def _uns0(x):
    if isinstance(x, SymTensor):
        return SymTensor(x._ids.unsqueeze(0), x.dtype)
    if x.layout != torch.strided:
        x = x.to_dense()
    return x.unsqueeze(0)


def _squeeze0(x):
    return SymTensor(x._ids.squeeze(0), x.dtype)


@impl(aten.bmm.default)
def _(func, args, kwargs):
    return bmm(args[0], args[1])


@impl(aten._sparse_mm.default)
def _(func, args, kwargs):
    return _squeeze0(bmm(_uns0(args[0]), _uns0(args[1])))


@impl(aten.addmm.default)
def _(func, args, kwargs):
    c, a, b = args[:3]
    beta, alpha = kwargs.get("beta", 1), kwargs.get("alpha", 1)
    r = _squeeze0(bmm(_uns0(a), _uns0(b)))
    if alpha != 1:
        r = r * alpha
    if beta == 0:
        return r
    return r + (c if beta == 1 else c * beta)


@impl(aten.baddbmm.default)
def _(func, args, kwargs):
    c, a, b = args[:3]
    return bmm(a, b) * kwargs.get("alpha", 1) + c * kwargs.get("beta", 1)


@impl(aten.mv.default)
def _(func, args, kwargs):
    a, b = args
    r = bmm(_uns0(a), _uns_last(_uns0(b)))
    e = (slice(None),) if r.dtype.is_complex else ()
    return SymTensor(r._ids[0, :, 0], r.dtype)


def _uns_last(x):
    if isinstance(x, SymTensor):
        return SymTensor(x._ids.unsqueeze(nd(x)), x.dtype)
    return x.unsqueeze(-1)


@impl(aten.dot.default, aten.vdot.default)
def _(func, args, kwargs):
    a, b = args
    if func is aten.vdot.default and a.dtype.is_complex:
        a = torch.conj(a)
    return (a * b).sum()


@impl(aten.lerp.Tensor, aten.lerp.Scalar)
def _(func, args, kwargs):
    a, b, w = args
    return binary("+", a, binary("*", w, binary("-", b, a)))


@impl(aten.addcmul.default)
def _(func, args, kwargs):
    a, b, c = args
    return a + (b * c) * kwargs.get("value", 1)


@impl(aten.addcdiv.default)
def _(func, args, kwargs):
    a, b, c = args
    return a + (b / c) * kwargs.get("value", 1)


# comparisons / where
def _cmp(f):
    def h(func, args, kwargs):
        a, b = args
        ia = ids_of(a) if isinstance(a, torch.Tensor) else torch.tensor(const_id(float(a)))
        ib = ids_of(b) if isinstance(b, torch.Tensor) else torch.tensor(const_id(float(b)))
        ia, ib = _bc(ia, ib)
        with LOCK:
            out = [bnode(f(NODES[x], NODES[y])) for x, y in zip(ia.reshape(-1).tolist(), ib.reshape(-1).tolist())]
        t = torch.tensor(out, dtype=torch.int64).reshape(ia.shape)
        if (t <= 1).all():
            return t.to(torch.bool)
        return SymBool(t)

    return h


for _n, _f in (("lt", P.lt), ("le", P.le), ("gt", lambda p, q: P.lt(q, p)), ("ge", lambda p, q: P.le(q, p)), ("eq", P.eq), ("ne", lambda p, q: P.bnot(P.eq(p, q)))):
    _o = getattr(aten, _n)
    HANDLERS[_o.Tensor] = HANDLERS[_o.Scalar] = _cmp(_f)


def _bids(x):
    return x._ids if isinstance(x, SymBool) else x.to(torch.int64)


def _bbin(f):
    def h(func, args, kwargs):
        a, b = _bc(_bids(args[0]), _bids(args[1]))
        out = [bnode(f(BNODES[x], BNODES[y])) for x, y in zip(a.reshape(-1).tolist(), b.reshape(-1).tolist())]
        t = torch.tensor(out, dtype=torch.int64).reshape(a.shape)
        return t.to(torch.bool) if (t <= 1).all() else SymBool(t)

    return h


HANDLERS[aten.bitwise_and.Tensor] = HANDLERS[aten.logical_and.default] = _bbin(P.band)
HANDLERS[aten.bitwise_or.Tensor] = HANDLERS[aten.logical_or.default] = _bbin(P.bor)


@impl(aten.bitwise_not.default, aten.logical_not.default)
def _(func, args, kwargs):
    x = args[0]
    out = [bnode(P.bnot(BNODES[i])) for i in x._ids.reshape(-1).tolist()]
    return SymBool(torch.tensor(out, dtype=torch.int64).reshape(x._ids.shape))


@impl(aten.where.self, aten.where.ScalarSelf, aten.where.ScalarOther, aten.where.Scalar)
def _(func, args, kwargs):
    c, a, b = args
    dt = res_dtype(a, b)
    if dt.is_complex:
        if is_sym(c):
            raise Unsupported("complex where with symbolic condition")
        a_, b_ = _to(a, dt), _to(b, dt)
        ia, ib, cc = _bc(ids_of(a_), ids_of(b_), c.unsqueeze(-1))
        return SymTensor(torch.where(cc, ia, ib), dt)
    ia = ids_of(a) if isinstance(a, torch.Tensor) else torch.tensor(const_id(float(a)))
    ib = ids_of(b) if isinstance(b, torch.Tensor) else torch.tensor(const_id(float(b)))
    if not is_sym(c):
        return SymTensor(torch.where(c, *_bc(ia, ib)) if False else torch.where(c, ia, ib), dt)
    ci, ia, ib = _bc(c._ids, ia, ib)
    with LOCK:
        out = [new_node(P.fite(BNODES[x], NODES[y], NODES[z])) for x, y, z in zip(ci.reshape(-1).tolist(), ia.reshape(-1).tolist(), ib.reshape(-1).tolist())]
    return SymTensor(torch.tensor(out, dtype=torch.int64).reshape(ci.shape), dt)


@impl(aten.masked_fill.Scalar, aten.masked_fill.Tensor)
def _(func, args, kwargs):
    x, m, v = args
    return torch.where(m, v if isinstance(v, torch.Tensor) else torch.full((), float(v), dtype=x.dtype), x)


@impl(aten.masked_fill_.Scalar, aten.masked_fill_.Tensor)
def _(func, args, kwargs):
    x, m, v = args
    r = torch.where(m, v if isinstance(v, torch.Tensor) else torch.full((), float(v), dtype=x.dtype), x)
    x._ids.copy_(ids_of(r))
    return x


# indexing
def _idx_list(ix):
    out = []
    for i in ix:
        if i is None:
            out.append(slice(None))
        else:
            if is_sym(i):
                i = concretize_bool(i) if isinstance(i, SymBool) else i
            out.append(i)
    return tuple(out)


@impl(aten.index.Tensor, aten._unsafe_index.Tensor)
def _(func, args, kwargs):
    x, ix = args
    if not is_sym(x):
        return x[_idx_list(ix)]
    return wrap_like(x, x._ids[_idx_list(ix)])


@impl(aten.index_put_.default, aten.index_put.default, aten._unsafe_index_put.default)
def _(func, args, kwargs):
    x, ix, v = args[0], args[1], args[2]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    if not is_sym(x):
        if func is aten.index_put_.default:
            raise Unsupported("index_put_ of symbolic data into constant tensor")
        x = lift(x)
    if func is not aten.index_put_.default:
        x = SymTensor(x._ids.clone(), x.dtype)
    il = _idx_list(ix)
    vi = ids_of(_to(v, x.dtype))
    if not acc:
        x._ids[il] = vi
        return x
    # accumulate: sequential semantics
    n = nd(x)
    lin = torch.arange(x.numel()).reshape(x.shape)[il]
    e = 2 if x.dtype.is_complex else 1
    tgt = x._ids.reshape(-1, e) if x._ids.is_contiguous() else None
    flat = x._ids.contiguous().view(-1, e).clone()
    vi = torch.broadcast_to(vi, tuple(lin.shape) + ((2,) if e == 2 else ()))
    _scatter_add(flat, lin.reshape(-1), vi.reshape(-1, e))
    x._ids.copy_(flat.view(x._ids.shape))
    return x


def _scatter_add(flat, lin, vals):
    e = flat.shape[1]
    groups = {}
    for k, t in enumerate(lin.tolist()):
        groups.setdefault(t, []).append(k)
    vl = vals.tolist()
    with LOCK:
        for t, ks in groups.items():
            for c in range(e):
                acc = dict(NODES[int(flat[t, c])])
                for k in ks:
                    acc = P.add(acc, NODES[vl[k][c]])
                flat[t, c] = new_node(acc)


@impl(aten.gather.default)
def _(func, args, kwargs):
    x, d, idx = args[0], fixdim(args[1], nd(args[0])), args[2]
    ids = x._ids
    if x.dtype.is_complex:
        idx = idx.unsqueeze(-1).expand(*idx.shape, 2)
    return wrap_like(x, ids.gather(d, idx))


def _scatter_add_op(x, d, idx, src):
    lin = torch.arange(x.numel()).reshape(x.shape)
    # target positions for each element of idx
    grids = torch.meshgrid(*[torch.arange(s) for s in idx.shape], indexing="ij")
    pos = [g if k != d else idx for k, g in enumerate(grids)]
    tl = lin[tuple(pos)].reshape(-1)
    e = 2 if x.dtype.is_complex else 1
    flat = ids_of(x).contiguous().view(-1, e).clone()
    s = ids_of(_to(src, x.dtype))
    s = s[tuple(slice(0, n) for n in idx.shape)].reshape(-1, e)
    _scatter_add(flat, tl, s)
    return flat.view(ids_of(x).shape)


@impl(aten.scatter_add.default)
def _(func, args, kwargs):
    x, d, idx, src = args
    return SymTensor(_scatter_add_op(x, fixdim(d, nd(x)), idx, src), x.dtype)


@impl(aten.scatter_add_.default)
def _(func, args, kwargs):
    x, d, idx, src = args
    x._ids.copy_(_scatter_add_op(x, fixdim(d, nd(x)), idx, src))
    return x


@impl(aten.index_add.default, aten.index_add_.default)
def _(func, args, kwargs):
    x, d, idx, src = args[:4]
    d = fixdim(d, nd(x))
    shp = [1] * nd(x)
    shp[d] = -1
    full = idx.reshape(shp).expand(src.shape)
    alpha = kwargs.get("alpha", 1)
    if alpha != 1:
        src = src * alpha
    r = _scatter_add_op(x, d, full, src)
    if func is aten.index_add_.default:
        if not is_sym(x):
            raise Unsupported("index_add_ into constant tensor")
        x._ids.copy_(r)
        return x
    return SymTensor(r, x.dtype)


# complex
@impl(aten.complex.default)
def _(func, args, kwargs):
    a, b = args
    dt = torch.complex128 if a.dtype == torch.float64 else torch.complex64
    ia, ib = _bc(ids_of(a), ids_of(b))
    return SymTensor(torch.stack([ia, ib], -1), dt)


@impl(aten.view_as_real.default)
def _(func, args, kwargs):
    x = args[0]
    return SymTensor(x._ids, torch.float64 if x.dtype == torch.complex128 else torch.float32)


@impl(aten.view_as_complex.default)
def _(func, args, kwargs):
    x = args[0]
    return SymTensor(x._ids, torch.complex128 if x.dtype == torch.float64 else torch.complex64)


@impl(aten.real.default)
def _(func, args, kwargs):
    x = args[0]
    if not x.dtype.is_complex:
        return x
    return SymTensor(x._ids[..., 0], torch.float64 if x.dtype == torch.complex128 else torch.float32)


@impl(aten.imag.default)
def _(func, args, kwargs):
    x = args[0]
    return SymTensor(x._ids[..., 1], torch.float64 if x.dtype == torch.complex128 else torch.float32)


@impl(aten._conj.default, aten.conj.default, aten._conj_physical.default, aten.conj_physical.default)
def _(func, args, kwargs):
    x = args[0]
    if not x.dtype.is_complex:
        return x
    return SymTensor(torch.stack([x._ids[..., 0], i_neg(x._ids[..., 1])], -1), x.dtype)


@impl(aten.resolve_conj.default, aten.resolve_neg.default)
def _(func, args, kwargs):
    return args[0]


@impl(aten._neg_view.default)
def _(func, args, kwargs):
    return SymTensor(i_neg(args[0]._ids), args[0].dtype)


# fft
def _rdtype(x):
    return torch.float64 if x.dtype in (torch.complex128, torch.float64) else torch.float32


def _cdtype(x):
    return torch.complex128 if x.dtype in (torch.complex128, torch.float64) else torch.complex64


def _fft_last(re, im, sign, sc, nout=None):
    n = re.shape[-1]
    k = torch.arange(nout or n, dtype=torch.float64)
    j = torch.arange(n, dtype=torch.float64)
    ph = 2 * math.pi * (torch.outer(j, k) % n) / n
    C, S = torch.cos(ph) * sc, torch.sin(ph) * sc * sign
    return lin_map_last(re, im, C, S, -S, C)


@impl(aten._fft_r2c.default)
def _(func, args, kwargs):
    x, dims, norm, onesided = args
    n = nd(x)
    dims = [fixdim(d, n) for d in dims]
    ids = x._ids
    sc = 1.0
    tot = int(np.prod([x.shape[d] for d in dims]))
    sc = _fft_scale(tot, norm)
    last = dims[-1]
    t = ids.movedim(last, -1)
    nn = t.shape[-1]
    re, im = _fft_last(t, None, -1, sc, nout=nn // 2 + 1 if onesided else nn)
    re, im = re.movedim(-1, last), im.movedim(-1, last)
    for d in dims[:-1]:
        re, im = _fft_last(re.movedim(d, -1), im.movedim(d, -1), -1, 1.0)
        re, im = re.movedim(-1, d), im.movedim(-1, d)
    return SymTensor(torch.stack([re, im], -1), _cdtype(x))


@impl(aten._fft_c2c.default)
def _(func, args, kwargs):
    x, dims, norm, fwd = args
    n = nd(x)
    dims = [fixdim(d, n) for d in dims]
    tot = int(np.prod([x.shape[d] for d in dims]))
    sc = _fft_scale(tot, norm)
    re, im = x._ids[..., 0], x._ids[..., 1]
    for q, d in enumerate(dims):
        re, im = _fft_last(re.movedim(d, -1), im.movedim(d, -1), -1 if fwd else 1, sc if q == 0 else 1.0)
        re, im = re.movedim(-1, d), im.movedim(-1, d)
    return SymTensor(torch.stack([re, im], -1), x.dtype)


@impl(aten._fft_c2r.default)
def _(func, args, kwargs):
    x, dims, norm, last_size = args
    n = nd(x)
    dims = [fixdim(d, n) for d in dims]
    N = int(last_size)
    sizes = [x.shape[d] for d in dims[:-1]] + [N]
    sc = _fft_scale(int(np.prod(sizes)), norm)
    re, im = x._ids[..., 0], x._ids[..., 1]
    for d in dims[:-1]:
        re, im = _fft_last(re.movedim(d, -1), im.movedim(d, -1), 1, 1.0)
        re, im = re.movedim(-1, d), im.movedim(-1, d)
    d = dims[-1]
    re, im = re.movedim(d, -1), im.movedim(d, -1)
    K = N // 2 + 1
    if re.shape[-1] < K:
        raise Unsupported("c2r with too few modes")
    re, im = re[..., :K], im[..., :K]
    k = torch.arange(K, dtype=torch.float64)
    j = torch.arange(N, dtype=torch.float64)
    w = torch.full((K,), 2.0, dtype=torch.float64)
    w[0] = 1.0
    if N % 2 == 0:
        w[-1] = 1.0
    ph = 2 * math.pi * (torch.outer(k, j) % N) / N
    A = torch.cos(ph) * w[:, None] * sc
    B = -torch.sin(ph) * w[:, None] * sc
    B[0] = 0.0
    if N % 2 == 0:
        B[-1] = 0.0
    out, _ = lin_map_last(re.contiguous(), im.contiguous(), A, None, B, None)
    return SymTensor(out.movedim(-1, d), _rdtype(x))


# convolution (direct, small)
@impl(aten.convolution.default)
def _(func, args, kwargs):
    x, w, b, stride, padding, dilation, transposed, outpad, groups = args
    if transposed or any(p != 0 for p in padding) or any(s != 1 for s in stride) or any(s != 1 for s in w.shape[2:]):
        raise Unsupported("general convolution")
    B, C = x.shape[0], x.shape[1]
    sp = list(x.shape[2:])
    O = w.shape[0]
    xg = x.reshape(B, groups, C // groups, -1)
    wg = w.reshape(groups, O // groups, C // groups)
    outs = []
    for g in range(groups):
        xx = xg[:, g].permute(1, 0, 2).reshape(C // groups, -1)
        r = torch.mm(wg[g], xx).reshape(O // groups, B, -1).permute(1, 0, 2)
        outs.append(r)
    y = torch.cat(outs, 1).reshape(B, O, *sp)
    if b is not None:
        y = y + b.reshape(1, O, *([1] * len(sp)))
    return y


@impl(aten.convolution_backward.default)
def _(func, args, kwargs):
    go, x, w, bias_sizes, stride, padding, dilation, transposed, outpad, groups, mask = args
    if transposed or groups != 1 or any(s != 1 for s in w.shape[2:]) or any(p != 0 for p in padding):
        raise Unsupported("general convolution_backward")
    B, C = x.shape[:2]
    O = w.shape[0]
    g2 = go.permute(1, 0, *range(2, go.dim())).reshape(O, -1)
    x2 = x.permute(1, 0, *range(2, x.dim())).reshape(C, -1)
    gx = gw = gb = None
    if mask[0]:
        gx = torch.mm(w.reshape(O, C).t(), g2).reshape(C, B, *x.shape[2:]).permute(1, 0, *range(2, x.dim()))
    if mask[1]:
        gw = torch.mm(g2, x2.t()).reshape(w.shape)
    if mask[2]:
        gb = g2.sum(1)
    return gx, gw, gb


@impl(aten._local_scalar_dense.default)
def _(func, args, kwargs):
    x = args[0]
    if isinstance(x, SymBool):
        i = int(x._ids.reshape(-1)[0])
        return decide(BNODES[i])
    c = const_of(x)
    if c is None:
        raise Unsupported("item() of symbolic value")
    return c.reshape(-1)[0].item()


@impl(aten.is_nonzero.default)
def _(func, args, kwargs):
    x = args[0]
    if isinstance(x, SymBool):
        return decide(BNODES[int(x._ids.reshape(-1)[0])])
    c = const_of(x)
    if c is None:
        raise Unsupported("truth value of symbolic number")
    return bool(c)


# path exploration: a callback decides symbolic branch conditions
DECIDER = [None]


def decide(c):
    if isinstance(c, bool):
        return c
    if DECIDER[0] is None:
        raise Unsupported("branch on a symbolic condition")
    return DECIDER[0](c)


def concretize_bool(x):
    vals = [decide(BNODES[i]) for i in x._ids.reshape(-1).tolist()]
    return torch.tensor(vals, dtype=torch.bool).reshape(x._ids.shape)


@impl(aten.nonzero.default, aten.any.default, aten.all.default, aten.argwhere.default)
def _(func, args, kwargs):
    x = args[0]
    if isinstance(x, SymBool):
        return func(concretize_bool(x))
    c = const_of(x)
    if c is None:
        if func is aten.nonzero.default:
            b = torch.ops.aten.ne.Scalar(x, 0.0)
            return func(concretize_bool(b) if is_sym(b) else b)
        raise Unsupported(str(func))
    return func(c)


@impl(aten.isnan.default, aten.isinf.default)
def _(func, args, kwargs):
    return torch.zeros(args[0].shape, dtype=torch.bool)


@impl(aten.isfinite.default)
def _(func, args, kwargs):
    return torch.ones(args[0].shape, dtype=torch.bool)


@impl(aten._safe_softmax.default)
def _(func, args, kwargs):
    """softmax whose all -inf rows are 0; with symbolic (finite) scores no such row exists."""
    x, dim = args[0], args[1]
    if kwargs.get("dtype") is not None or (len(args) > 2 and args[2] is not None):
        raise Unsupported("_safe_softmax with dtype")
    with LOCK:
        if any(P.is_const(NODES[i]) and not math.isfinite(P.cval(NODES[i])) for i in set(ids_of(x).reshape(-1).tolist())):
            raise Unsupported("_safe_softmax with infinite scores")
    e = torch.exp(x - torch.amax(x, dim, keepdim=True))
    return e / e.sum(dim, keepdim=True)


EXTRA = {}   # op name -> handler(args, kwargs), for custom library ops


def _const_fold(func, args, kwargs):
    """An op without handler whose symbolic arguments are all constants: run it on numbers."""
    flat, _ = tree_flatten((args, kwargs))
    for a in flat:
        if isinstance(a, SymBool) or (isinstance(a, SymTensor) and const_of(a) is None):
            return NotImplemented
    if func._schema.is_mutable:
        return NotImplemented

    def c(x):
        return const_of(x).to(x.dtype) if isinstance(x, SymTensor) else x

    with NoMode():
        r = func(*tree_map(c, args), **tree_map(c, kwargs))
    return tree_map(lambda t: lift(t) if isinstance(t, torch.Tensor) and _isf(t.dtype) and t.layout == torch.strided else t, r)


def _opdef(func):
    try:
        from torch._library.custom_ops import OPDEFS
    except ImportError:
        return None
    d = OPDEFS.get(func._schema.name) or OPDEFS.get(func._qualified_op_name if hasattr(func, "_qualified_op_name") else "")
    if d is None:
        return None
    fns = getattr(d, "_backend_fns", None) or {}
    return fns.get("cpu") or fns.get(None) or d._init_fn


def dispatch(func, args, kwargs, mode=None):
    STATS["ops"][str(func)] = STATS["ops"].get(str(func), 0) + 1
    h = HANDLERS.get(func)
    if h is not None:
        return h(func, args, dict(kwargs))
    name = str(func)
    h = EXTRA.get(name)
    if h is not None:
        return h(*args, **kwargs)
    od = _opdef(func)
    ctx = mode if mode is not None else _null()
    if od is not None:          # an operator defined in Python: run its body on the symbolic arguments
        STATS["kernels"][name] = STATS["kernels"].get(name, 0) + 1
        with ctx:
            return od(*args, **kwargs)
    r = _const_fold(func, args, kwargs)
    if r is not NotImplemented:
        return r
    dec = torch._decomp.decomposition_table.get(func)
    if dec is not None:
        with ctx:
            r = dec(*args, **kwargs)
        if r is not NotImplemented:
            return r
    if func._can_decompose():
        with ctx:
            r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    raise Unsupported(f"aten op {func}")


class _null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


FACTORY = {
    aten.zeros.default: 0.0, aten.ones.default: 1.0, aten.empty.memory_format: None, aten.full.default: "full",
    aten.empty_strided.default: None, aten.zeros_like.default: 0.0, aten.ones_like.default: 1.0, aten.empty_like.default: None,
    aten.new_zeros.default: 0.0, aten.new_empty.default: None, aten.new_ones.default: 1.0, aten.full_like.default: "full", aten.new_full.default: "full",
}


class SymMode(TorchDispatchMode):
    """While active, floating-point factories and clones yield symbolic tensors,
    so that code may later write symbolic data into them."""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        flat, _ = tree_flatten((args, kwargs))
        anysym = any(is_sym(a) for a in flat)
        if anysym:
            return dispatch(func, args, kwargs, self)
        if func in FACTORY:
            base = args[0] if args and isinstance(args[0], torch.Tensor) else None
            if base is not None and ("like" in str(func)):
                shape = base.shape
            elif base is not None:
                shape = args[1]
            else:
                shape = args[0]
            dt = kwargs.get("dtype") or (base.dtype if base is not None else torch.get_default_dtype())
            v = FACTORY[func]
            if v == "full":
                v = args[2] if (base is not None and "new_full" in str(func)) else args[1]
                if kwargs.get("dtype") is None and base is None and not isinstance(v, float):
                    return func(*args, **kwargs)
            if _isf(dt):
                if v is None:
                    return SymTensor(undef_ids(shape, dt), dt)
                return SymTensor(full_ids(shape, dt, v), dt)
            return func(*args, **kwargs)
        out = func(*args, **kwargs)
        if func in (aten.clone.default, aten._to_copy.default) and isinstance(out, torch.Tensor) and _isf(out.dtype) and out.numel() <= 20000 and out.layout == torch.strided:
            return lift(out)
        return out
