"""Run the real C++ kernels on symbolic data.

The kernel sources of the tree under test are compiled, unchanged, with a
scalar type that builds expressions (vlib/cxx), into a scratch library whose
operators live in the namespaces sym_<ns>.  This module loads that library and
routes disco_kernels.* / attention_kernels.* calls made by the real Python code
on symbolic tensors into it.
"""
import ctypes
import glob
import os
import subprocess
import sysconfig
import threading
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import torch

from . import env
from . import poly as P
from . import symtensor as S

CXX = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cxx")
_st = {}
_lock = threading.RLock()
OPS = {
    "disco_kernels": ("forward", "backward"),
    "attention_kernels": ("forward", "backward", "permute_to_nhwc", "permute_to_nchw"),
}


def _flags():
    t = torch.__path__[0]
    inc = [os.path.join(t, "include"), os.path.join(t, "include/torch/csrc/api/include"), sysconfig.get_paths()["include"]]
    return (["-std=c++20", "-fPIC", "-O1", "-w", "-fno-strict-aliasing", "-ftrivial-auto-var-init=pattern",
             f"-D_GLIBCXX_USE_CXX11_ABI={int(torch._C._GLIBCXX_USE_CXX11_ABI)}", "-DTORCH_EXTENSION_NAME=sym"] + [f"-I{i}" for i in inc] + [f"-I{CXX}"])


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise S.Unsupported("symbolic compilation failed: " + r.stdout[-1500:])


def sources(pkgs):
    out = []
    for p in pkgs:
        base = os.path.join(env.REPO, "torch_harmonics", p, "optimized")
        out += sorted(glob.glob(os.path.join(base, "*_interface.cpp")))
        out += sorted(glob.glob(os.path.join(base, "kernels_cpu", "*.cpp")))
    return out


def build(pkgs=("disco", "attention")):
    """Compile and load the symbolic library (before any worker is forked)."""
    if "lib" in _st:
        return
    d = os.path.join(env.scratch(), "csym")
    os.makedirs(d, exist_ok=True)
    fl = _flags()
    pch = os.path.join(d, "prelude.h")
    # a private copy of the prelude so that the precompiled header lies in the scratch directory
    with open(pch, "w") as f:
        f.write(open(os.path.join(CXX, "prelude.h")).read())
    _run(["g++", *fl, "-x", "c++-header", pch, "-o", pch + ".gch"])
    objs = []

    def one(src):
        o = os.path.join(d, os.path.basename(os.path.dirname(src)) + "_" + os.path.basename(src) + ".o")
        if src.endswith("graph.cpp"):
            _run(["g++", "-std=c++20", "-fPIC", "-O2", "-c", src, "-o", o])
        else:
            _run(["g++", *fl, "-include", pch, "-include", os.path.join(CXX, "types.h"), "-c", src, "-o", o])
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources(pkgs) + [os.path.join(CXX, "graph.cpp")]))
    so = os.path.join(d, "libsym.so")
    tl = os.path.join(torch.__path__[0], "lib")
    _run(["g++", "-shared", "-o", so, *objs, f"-L{tl}", "-ltorch", "-ltorch_cpu", "-lc10", "-ltorch_python", f"-Wl,-rpath,{tl}"])
    torch.ops.load_library(so)
    lib = ctypes.CDLL(so)
    for n in ("symf_const", "symf_leaf", "symf_op", "symf_count"):
        getattr(lib, n).restype = ctypes.c_int64
    lib.symf_const.argtypes = [ctypes.c_double]
    lib.symf_leaf.argtypes = [ctypes.c_int64]
    lib.symf_export.argtypes = [ctypes.c_int64, ctypes.c_int64] + [ctypes.c_void_p] * 4
    CB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_int64, ctypes.c_int64)
    _st["cb"] = CB(_compare)
    lib.symf_set_callback(_st["cb"])
    _st["lib"] = lib
    _st["built"] = [os.path.relpath(s, env.REPO) for s in sources(pkgs)]


# ------------------------------------------------ graph -> symbolic nodes --
class Session:
    def __init__(self):
        self.lib = _st["lib"]
        self.lib.symf_reset()
        self.leaf = {}        # S node id -> graph id
        self.back = []        # graph id -> S node id
        self.tags = []
        self.err = None

    def box(self, t):
        """A real tensor carrying boxed leaves / literals for a (symbolic) float tensor."""
        if not isinstance(t, torch.Tensor) or not t.dtype.is_floating_point:
            return t
        if not isinstance(t, S.SymTensor):
            return t
        if t.dtype in (torch.float16, torch.bfloat16):
            t = S.SymTensor(t._ids, torch.float32)
        if t.dtype not in (torch.float32, torch.float64):
            raise S.Unsupported("kernel on dtype " + str(t.dtype))
        ids = S.ids_of(t)
        flat = ids.reshape(-1).tolist()
        f32 = t.dtype == torch.float32
        vals = np.empty(len(flat), dtype=np.float32 if f32 else np.float64)
        bits = vals.view(np.uint32 if f32 else np.uint64)
        for k, i in enumerate(flat):
            p = S.NODES[i]
            if P.is_const(p) and not (P.cval(p) != P.cval(p)):
                vals[k] = P.cval(p)
                continue
            g = self.leaf.get(i)
            if g is None:
                g = self.lib.symf_leaf(len(self.tags))
                self.tags.append(i)
                self.leaf[i] = g
            bits[k] = (0x7FC00000 | g) if f32 else (0x7FF8000000000000 | (g << 29))
        r = torch.from_numpy(vals).reshape(ids.shape)
        # same strides as the symbolic tensor: contiguity checks of the kernel see the real layout
        st = tuple(ids.stride())
        if r.stride() != st and r.numel():
            out = torch.empty_strided(tuple(ids.shape), st, dtype=r.dtype)
            out.copy_(r)
            r = out
        return r

    def sync(self):
        n = self.lib.symf_count()
        k0 = len(self.back)
        if n == k0:
            return
        m = n - k0
        op = np.empty(m, np.int32)
        a = np.empty(m, np.int64)
        b = np.empty(m, np.int64)
        v = np.empty(m, np.float64)
        self.lib.symf_export(k0, n, op.ctypes.data, a.ctypes.data, b.ctypes.data, v.ctypes.data)
        back = self.back
        for o, x, y, c in zip(op.tolist(), a.tolist(), b.tolist(), v.tolist()):
            if o == 0:
                back.append(S.const_id(c))
            elif o == 1:
                back.append(S.undef_id() if x < 0 else self.tags[x])
            else:
                name, f, ar = FN[o]
                back.append(S.op2(name, f, back[x], back[y]) if ar == 2 else S.op1(name, f, back[x]))

    def unbox(self, r):
        if isinstance(r, (tuple, list)):
            return type(r)(self.unbox(x) for x in r)
        if not isinstance(r, torch.Tensor) or not r.dtype.is_floating_point:
            return r
        self.sync()
        f32 = r.dtype == torch.float32
        x = r.detach().contiguous().numpy().reshape(-1)
        bits = x.view(np.uint32 if f32 else np.uint64)
        if f32:
            tagged = (bits & 0xFFC00000) == 0x7FC00000
            gid = bits & 0x003FFFFF
            bad = (bits == 0xFEFEFEFE) | (np.isnan(x) & ~tagged)
        else:
            T = np.uint64(0x7FF8000000000000)
            tagged = (bits & np.uint64(0xFFF8000000000000)) == T
            gid = (bits & np.uint64(0x0007FFFFE0000000)) >> np.uint64(29)
            bad = (bits == np.uint64(0xFEFEFEFEFEFEFEFE)) | (np.isnan(x) & ~tagged)
        ids = []
        for k in range(x.size):
            if bad[k]:
                ids.append(S.undef_id())
            elif tagged[k]:
                ids.append(self.back[int(gid[k])])
            else:
                ids.append(S.const_id(float(x[k])))
        return S.SymTensor(torch.tensor(ids, dtype=torch.int64).reshape(r.shape), r.dtype)


def _pmin(p, q):
    return P.neg(P.fmax(P.neg(p), P.neg(q)))


def _ppow(p, q):
    if not P.is_const(q):
        raise S.Unsupported("pow with symbolic exponent")
    return P.power(p, P.cval(q))


FN = {
    2: ("c+", P.add, 2), 3: ("c-", P.sub, 2), 4: ("c*", P.mul, 2), 5: ("c/", P.div, 2), 6: ("cexp", P.exp, 1), 7: ("cmax", P.fmax, 2), 8: ("cmin", _pmin, 2),
    9: ("csqrt", lambda p: P.power(p, 0.5), 1), 10: ("clog", P.flog, 1), 11: ("cabs", P.fabs, 1), 12: ("cneg", P.neg, 1), 13: ("csin", P.fsin, 1), 14: ("ccos", P.fcos, 1), 15: ("cpow", _ppow, 2),
}
_cur = threading.local()


def _compare(op, a, b):
    se = _cur.s
    try:
        se.sync()
        p, q = S.NODES[se.back[a]], S.NODES[se.back[b]]
        c = P.lt(p, q) if op == 0 else P.le(p, q) if op == 1 else P.eq(p, q)
        return 1 if S.decide(c) else 0
    except BaseException as e:  # re-raised by call()
        se.err = e
        return -1


def _reduced(ns, name, args, kwargs):
    """Half-precision operands: the boxed values need 32 bits, so the kernel runs on float32 boxes. What the real
    operator does with the real dtypes (refusal, result dtypes) is taken from a run of it on zeros."""
    if not any(isinstance(x, S.SymTensor) and x.dtype in (torch.float16, torch.bfloat16) for x in list(args) + list(kwargs.values())):
        return None

    def z(x):
        if not isinstance(x, S.SymTensor):
            return x
        return torch.empty_strided(tuple(x.shape), tuple(S.ids_of(x).stride()), dtype=x.dtype).zero_()

    r = getattr(getattr(torch.ops, ns), name)(*[z(x) for x in args], **{k: z(x) for k, x in kwargs.items()})
    return [t.dtype for t in r] if isinstance(r, (tuple, list)) else [r.dtype]


def call(ns, name, args, kwargs):
    with _lock:
        op = getattr(getattr(torch.ops, "sym_" + ns), name)
        se = Session()
        prev = getattr(_cur, "s", None)
        _cur.s = se
        S.STATS["kernels"][f"{ns}.{name}"] = S.STATS["kernels"].get(f"{ns}.{name}", 0) + 1
        det = torch.are_deterministic_algorithms_enabled()
        try:
            with S.NoMode():
                torch.use_deterministic_algorithms(True, warn_only=True)   # fresh memory is NaN-filled, i.e. undefined
                torch.utils.deterministic.fill_uninitialized_memory = True
                low = _reduced(ns, name, args, kwargs)
                a = [se.box(x) for x in args]
                k = {n: se.box(x) for n, x in kwargs.items()}
                try:
                    r = op(*a, **k)
                except RuntimeError:
                    if se.err is not None:
                        raise se.err
                    raise
                r = se.unbox(r)
                if low is not None:
                    r = tuple(S._to(x, d) for x, d in zip(r, low)) if isinstance(r, (tuple, list)) else S._to(r, low[0])
                return r
        finally:
            torch.use_deterministic_algorithms(det)
            _cur.s = prev


def install(pkgs=("disco", "attention")):
    build(pkgs)
    for ns, names in OPS.items():
        for n in names:
            S.EXTRA[f"{ns}.{n}.default"] = (lambda ns, n: lambda *a, **k: call(ns, n, a, k))(ns, n)
