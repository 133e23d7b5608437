"""Symbolic tensor extents: the real forward pass runs on tensors whose sizes are integer symbols.

PyTorch's own symbolic-shape machinery carries the sizes through the code (fake tensors: every operator
propagates shapes and raises on a mismatch, no data is computed); each decision that the code takes on a
size is recorded as a path condition.  `explore` asks z3 for sizes that the layer must refuse and that lie
on no path seen so far, runs the code along that path, and repeats until z3 answers unsat: then every size
within the bounds lies on a path that raises.
"""
import logging
import math
import operator
import os
import pickle
import time

import sympy
import torch
import z3
from torch._subclasses import fake_tensor as FT
from torch.fx.experimental import symbolic_shapes as SS
from torch.fx.experimental.symbolic_shapes import DimDynamic, ShapeEnv

from . import solve

try:
    from torch._dynamo.source import ConstantSource
except Exception:  # pragma: no cover
    ConstantSource = None

ENGINE = tuple(
    c for c in (getattr(FT, n, None) for n in ("UnsupportedOperatorException", "DataDependentOutputException", "DynamicOutputShapeException", "UnsupportedFakeTensorException", "UnsupportedMutationAliasingException")) if c is not None
) + (SS.GuardOnDataDependentSymNode, NotImplementedError, SS.ConstraintViolationError)


logging.getLogger("torch._subclasses.fake_tensor").disabled = True
logging.getLogger("torch.fx.experimental.symbolic_shapes").disabled = True


class _Rec(ShapeEnv):
    def evaluate_expr(self, expr, *a, **k):
        r = super().evaluate_expr(expr, *a, **k)
        self.__dict__.setdefault("path_", []).append((expr, r))
        return r


class Untranslatable(Exception):
    pass


def to_z3(e, names):
    """sympy expression over sizes -> z3 (Int or Bool)."""
    if isinstance(e, bool) or e is sympy.true or e is sympy.false:
        return z3.BoolVal(bool(e))
    if isinstance(e, int):
        return z3.IntVal(e)
    if e.is_Symbol:
        if e.name not in names:
            raise Untranslatable(f"unbacked symbol {e}")
        return names[e.name]
    if e.is_Integer:
        return z3.IntVal(int(e))
    n = type(e).__name__
    a = [to_z3(x, names) for x in e.args]
    if e.is_Add:
        return sum(a[1:], a[0])
    if e.is_Mul:
        if any(x.is_Rational and not x.is_Integer for x in e.args):
            num, den = e.as_numer_denom()
            return to_z3(num, names) / to_z3(den, names)
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if e.is_Pow:
        k = int(e.args[1])
        if k < 0:
            raise Untranslatable(str(e))
        r = z3.IntVal(1)
        for _ in range(k):
            r = r * a[0]
        return r
    ops = {"Equality": operator.eq, "Unequality": operator.ne, "StrictLessThan": operator.lt, "LessThan": operator.le, "StrictGreaterThan": operator.gt, "GreaterThan": operator.ge}
    if n in ops:
        return ops[n](a[0], a[1])
    if n == "And":
        return z3.And(*a)
    if n == "Or":
        return z3.Or(*a)
    if n == "Not":
        return z3.Not(a[0])
    if n in ("Mod", "PythonMod"):      # sizes: the divisor is positive wherever the code divides
        return a[0] % a[1]
    if n in ("FloorDiv", "CleanDiv"):
        return a[0] / a[1]
    if n == "CeilDiv":
        return (a[0] + a[1] - 1) / a[1]
    if n in ("Max", "Min"):
        r = a[0]
        for x in a[1:]:
            r = z3.If(r >= x, r, x) if n == "Max" else z3.If(r <= x, r, x)
        return r
    raise Untranslatable(str(e))


def run_fake(fn, shapes, hints, dtype, grad=False):
    """Run fn on tensors of symbolic shape; returns (kind, detail, path, names of the size symbols)."""
    env = _Rec(specialize_zero_one=False, duck_shape=False)
    fm = FT.FakeTensorMode(shape_env=env, allow_non_fake_inputs=True)
    names = {}
    by = {}

    def size(d):
        if isinstance(d, int):
            return d
        if d not in by:
            s = env.create_symbol(hints[d], source=ConstantSource(d), dynamic_dim=DimDynamic.DYNAMIC, constraint_dim=None)
            by[d] = env.create_symintnode(s, hint=hints[d], source=ConstantSource(d))
            names[s.name] = d
        return by[d]

    kind = "accepted"
    detail = ""
    with fm:
        ts = [torch.empty([size(d) for d in s], dtype=dtype) for s in shapes]
        env.__dict__["path_"] = []
        try:
            if grad:
                for t in ts:
                    t.requires_grad_(True)
                ys = fn(*ts)
                detail = [([d.node.expr if isinstance(d, torch.SymInt) else d for d in y.shape], y.dtype) for y in ys]
            else:
                with torch.no_grad():
                    y = fn(*ts)
                detail = str(tuple(y.shape)) if isinstance(y, torch.Tensor) else str(type(y))
        except ENGINE as e:
            kind, detail = "engine", repr(e)[:300]
        except Exception as e:
            kind, detail = "refused", repr(e)[:300]
            c = e
            while c is not None:
                if isinstance(c, ENGINE):
                    kind = "engine"
                c = c.__cause__ or c.__context__
    return kind, detail, list(env.__dict__.get("path_", [])), names


def run_real(fn, shapes, sizes, dtype, timeout=60):
    """Run fn on real tensors of these sizes in a child process: 'refused' | 'accepted' | 'died'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            ts = [torch.zeros([d if isinstance(d, int) else sizes[d] for d in s], dtype=dtype) for s in shapes]
            try:
                with torch.no_grad():
                    y = fn(*ts)
                msg = ("accepted", "returns a result of shape " + str(tuple(y.shape)) if isinstance(y, torch.Tensor) else "returns")
            except Exception as e:
                msg = ("refused", repr(e)[:200])
            os.write(w, pickle.dumps(msg))
        finally:
            os._exit(0)
    os.close(w)
    out = b""
    import select

    t1 = time.time() + timeout
    while True:
        rd, _, _ = select.select([r], [], [], max(0.0, t1 - time.time()))
        if not rd:
            os.kill(pid, 9)
            break
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if out:
        return pickle.loads(out)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == 9:
        return "unknown", "time limit"
    return "died", f"the process dies (status {st})"


def _near(base, conds, syms, right):
    g = z3.Solver()
    g.set("timeout", 5000)
    g.add(right(syms), *[z3.And(v >= 1, v <= 40) for v in syms.values()])
    if solve.timed_check(g) != z3.sat:
        return
    m = g.model()
    ref = {d: m.eval(v, model_completion=True) for d, v in syms.items()}
    for d in syms:
        for extra in (syms[d] < ref[d], syms[d] > ref[d]):
            base.push()
            base.add(*conds)
            base.add(extra, syms[d] <= 80, *[syms[o] == ref[o] for o in syms if o != d])
            if solve.timed_check(base) == z3.sat:
                w = base.model()
                base.pop()
                yield {o: w.eval(v, model_completion=True).as_long() for o, v in syms.items()}
            else:
                base.pop()


def explore(fn, shapes, right, dtype, hi=4096, max_paths=60, seconds=120):
    """Is every size assignment within 1..hi that is not `right` refused?

    shapes: one tuple per tensor, entries are ints or symbol names; right: symbols -> z3 Bool of sizes
    that the layer must accept.  Returns (status, detail, sizes, n_paths); status 'holds' | 'violated' | 'unknown'.
    """
    syms = {d: z3.Int(d) for s in shapes for d in s if not isinstance(d, int)}
    base = z3.Solver()
    base.set("timeout", 20000)
    for v in syms.values():
        base.add(v >= 1, v <= hi)
    base.add(z3.Not(right(syms)))
    status, why = "holds", ""
    t0 = time.time()
    n = 0
    while True:
        m = None
        for cap in (9, 40, hi):       # prefer small sizes: they are run for real
            base.push()
            for v in syms.values():
                base.add(v <= cap)
            r = solve.timed_check(base)
            if r == z3.sat:
                m = base.model()
            base.pop()
            if m is not None:
                break
        if m is None:
            if r == z3.unknown:
                return "unknown", "solver", None, n
            return status, why, None, n
        if n >= max_paths or time.time() - t0 > seconds:
            return "unknown", "path limit", None, n
        n += 1
        solve.STATS["elements"] += 1
        sizes = {d: m.eval(v, model_completion=True).as_long() for d, v in syms.items()}
        kind, detail, path, names = run_fake(fn, shapes, sizes, dtype)
        vol = max(math.prod([d if isinstance(d, int) else sizes[d] for d in s]) for s in shapes)
        real, info = run_real(fn, shapes, sizes, dtype) if vol <= 10**7 else ("unknown", "too large to run")
        if real in ("accepted", "died"):
            return "violated", info, sizes, n
        zn = {s: syms[d] for s, d in names.items()}
        conds = []
        try:
            for e, v in path:
                if not getattr(e, "free_symbols", None):
                    continue
                z = to_z3(e, zn)
                conds.append(z if v is True or v is sympy.true else z3.Not(z) if v is False or v is sympy.false else z == int(v))
        except Untranslatable as e:
            kind, detail = "engine", f"path condition {e}"
            conds = [syms[d] == k for d, k in sizes.items()]
        if kind != "refused" or real != "refused":
            # the shape semantics alone do not decide this path and the real code refused the sample:
            # try the sizes of this path that differ from right ones in a single extent
            for sz in _near(base, conds, syms, right):
                if run_real(fn, shapes, sz, dtype)[0] in ("accepted", "died"):
                    return "violated", run_real(fn, shapes, sz, dtype)[1], sz, n
            if status == "holds":
                status, why = "unknown", f"{kind}: {detail} (real code: {real})"
        base.add(z3.Not(z3.And(*conds)) if conds else z3.BoolVal(False))


def predict(fn, shapes, want, dtype, hi=4096, max_paths=40, seconds=100):
    """For all sizes in 1..hi: fn runs, and its results have the wanted shapes and dtypes.

    want(sizes) -> list of (shape, dtype), sizes being z3 terms or ints.  The prediction of the fake kernels
    is what torch.compile relies on; each path's sample is also run for real.
    """
    syms = {d: z3.Int(d) for s in shapes for d in s if not isinstance(d, int)}
    base = z3.Solver()
    base.set("timeout", 20000)
    for v in syms.values():
        base.add(v >= 1, v <= hi)
    status, why = "holds", ""
    t0 = time.time()
    n = 0
    while True:
        m = None
        for cap in (5, hi):
            base.push()
            for v in syms.values():
                base.add(v <= cap)
            r = solve.timed_check(base)
            if r == z3.sat:
                m = base.model()
            base.pop()
            if m is not None:
                break
        if m is None:
            return (status, why, None, n) if r == z3.unsat else ("unknown", "solver", None, n)
        if n >= max_paths or time.time() - t0 > seconds:
            return "unknown", "path limit", None, n
        n += 1
        sizes = {d: m.eval(v, model_completion=True).as_long() for d, v in syms.items()}
        bad = real_prediction(fn, shapes, want, sizes, dtype)
        if bad:
            return "violated", bad, sizes, n
        kind, detail, path, names = run_fake(fn, shapes, sizes, dtype, grad=True)
        zn = {s: syms[d] for s, d in names.items()}
        if kind != "accepted":
            return ("violated" if kind == "refused" else "unknown"), f"on symbolic shapes: {kind} {detail}", sizes, n
        try:
            conds = []
            for e, v in path:
                if getattr(e, "free_symbols", None):
                    z = to_z3(e, zn)
                    conds.append(z if v is True or v is sympy.true else z3.Not(z) if v is False or v is sympy.false else z == int(v))
            got = [([to_z3(d, zn) for d in sh], dt) for sh, dt in detail]
        except Untranslatable as e:
            return "unknown", f"path condition {e}", None, n
        exp = want(syms)
        if len(got) != len(exp) or any(dt != edt or len(sh) != len(esh) for (sh, dt), (esh, edt) in zip(got, exp)):
            return "violated", f"predicted {[(len(sh), dt) for sh, dt in got]}, documented {[(len(sh), dt) for sh, dt in exp]} (rank, dtype)", sizes, n
        base.push()
        base.add(*conds)
        base.add(z3.Or(*[a != b for (sh, _), (esh, _) in zip(got, exp) for a, b in zip(sh, esh)]))
        solve.STATS["elements"] += sum(len(sh) for sh, _ in got)
        r = solve.timed_check(base)
        if r == z3.sat:
            mm = base.model()
            sizes = {d: mm.eval(v, model_completion=True).as_long() for d, v in syms.items()}
            return "violated", f"predicted shapes {[[str(mm.eval(x, model_completion=True)) for x in sh] for sh, _ in got]}, documented {[[str(mm.eval(z3.IntVal(x) if isinstance(x, int) else x)) for x in sh] for sh, _ in exp]}", sizes, n
        base.pop()
        if r == z3.unknown and status == "holds":
            status, why = "unknown", "solver"
        base.add(z3.Not(z3.And(*conds)) if conds else z3.BoolVal(False))


def real_prediction(fn, shapes, want, sizes, dtype):
    """'' if the real code on these sizes gives what is wanted."""
    ts = [torch.zeros([d if isinstance(d, int) else sizes[d] for d in s], dtype=dtype).requires_grad_(True) for s in shapes]
    ys = fn(*ts)
    got = [(list(y.shape), y.dtype) for y in ys]
    exp = [([int(x) for x in sh], dt) for sh, dt in want(sizes)]
    return "" if got == exp else f"real code gives {got}, documented {exp}"


def fake_prediction(fn, shapes, want, sizes, dtype):
    """The same for the fake kernels at concrete sizes (what torch.compile is told)."""
    kind, detail, _, _ = run_fake(fn, [tuple(d if isinstance(d, int) else sizes[d] for d in s) for s in shapes], {}, dtype, grad=True)
    if kind == "engine":
        return ""
    if kind != "accepted":
        return f"on fake tensors: {kind} {detail}"
    got = [([int(x) for x in sh], dt) for sh, dt in detail]
    exp = [([int(x) for x in sh], dt) for sh, dt in want(sizes)]
    return "" if got == exp else f"fake kernels predict {got}, documented {exp}"
