"""Case runner: one case = one configuration of the real code, run on symbolic inputs.

A case is a function  case(cx) -> iterable of claims.  `cx.inp(name, shape, ...)`
gives an input tensor: symbolic in the deciding run, concrete in a replay.  A
claim is  cx.eq(label, got, expected, tol)  or  cx.le(label, small, big, tol).
The deciding run hands the negated claims to z3; a counterexample is replayed by
running the same case with the model's values on ordinary tensors and the real
(compiled) kernels, and only a reproduced one is reported.
"""
import argparse
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import env

env.setup()
import numpy as np  # noqa: E402
import torch  # noqa: E402

from . import poly as P  # noqa: E402
from . import solve  # noqa: E402
from . import symtensor as S  # noqa: E402

F64, C128, F32, C64 = torch.float64, torch.complex128, torch.float32, torch.complex64


class Claim:
    __slots__ = ("label", "a", "b", "tol", "side")

    def __init__(self, label, a, b, tol, side):
        self.label, self.a, self.b, self.tol, self.side = label, a, b, tol, side


class IntClaim:
    __slots__ = ("label", "c")

    def __init__(self, label, c):
        self.label, self.c = label, c


class ShapeClaim:
    """Verdict of a symbolic-shape exploration (vlib/shapes.py)."""

    __slots__ = ("label", "status", "detail", "env")

    def __init__(self, label, status, detail, env):
        self.label, self.status, self.detail, self.env = label, status, detail, env


class Fact:
    """A concrete (non symbolic) requirement that a case states, e.g. a shape."""

    __slots__ = ("label", "ok", "detail")

    def __init__(self, label, ok, detail=""):
        self.label, self.ok, self.detail = label, ok, detail


class Ctx:
    def __init__(self, symbolic, env_=None, probe=None):
        self.symbolic = symbolic
        self.env = {} if env_ is None else env_
        self.probe = probe          # seed: inputs missing from env get pseudo-random values, recorded in env
        self.claims = []
        self.names = {}

    # ---- inputs
    def inp(self, name, shape, dtype=F64, lo=-1.0, hi=1.0):
        shape = tuple(int(s) for s in shape)
        if self.symbolic:
            return S.make_sym(name, shape, dtype, lo, hi)
        shp = shape + ((2,) if dtype.is_complex else ())
        a = np.empty(shp, dtype=np.float64)
        mid = min(max(0.0, lo), hi)
        if self.probe is not None:
            import random

            rng = random.Random(f"{self.probe}|{name}")
            for ix in np.ndindex(*shp):
                self.env.setdefault(f"{name}[{','.join(map(str, ix))}]", rng.uniform(lo, hi))
        for ix in np.ndindex(*shp):
            a[ix] = self.env.get(f"{name}[{','.join(map(str, ix))}]", mid)
        t = torch.from_numpy(a)
        if dtype.is_complex:
            t = torch.view_as_complex(t.contiguous())
        return t.to(dtype)

    def int_inp(self, name, lo, hi):
        if self.symbolic:
            from . import symint

            return symint.declare(name, lo, hi)
        if self.probe is not None:
            import random

            self.env.setdefault(name, random.Random(f"{self.probe}|{name}").randint(lo, hi))
        return int(self.env.get(name, lo))

    def holds(self, label, cond):
        """Claim about (symbolic) integers."""
        self.claims.append(IntClaim(label, cond))

    def run(self, fn, *a, **k):
        """Run code under test (symbolic factories active in the deciding run)."""
        if not self.symbolic:
            return fn(*a, **k)
        with S.SymMode():
            return fn(*a, **k)

    def narrow(self, on):
        """Whether this case models narrowing casts as rounding (default: the check module's NARROW)."""
        if self.symbolic:
            S.NARROW[0] = on

    # ---- claims
    def eq(self, label, got, exp, tol=1e-7):
        self.claims.append(Claim(label, got, exp, tol, 0))

    def le(self, label, small, big, tol=1e-7):
        self.claims.append(Claim(label, small, big, tol, 1))

    def refuses(self, label, fn, shapes, right, dtype=F32, hi=4096):
        """fn raises for all tensor sizes in 1..hi that are not right (symbols named in shapes)."""
        from . import shapes as SH

        if self.symbolic:
            st, why, sizes, n = SH.explore(fn, shapes, right, dtype, hi)
            PATHS[0] += n
            self.claims.append(ShapeClaim(label, st, why, sizes))
            return
        import z3

        sizes = {d: self.int_inp(d, 1, 12) for s in shapes for d in s if not isinstance(d, int)}
        ok = z3.is_true(z3.simplify(right({d: z3.IntVal(v) for d, v in sizes.items()})))
        kind, info = ("", "") if ok else SH.run_real(fn, shapes, sizes, dtype)
        self.claims.append(Fact(label, kind not in ("accepted", "died"), f"sizes {sizes}: {info}"))

    def predicts(self, label, fn, shapes, want, dtype=F32, hi=4096):
        """fn's results have the wanted shapes and dtypes for all sizes in 1..hi, and the fake kernels say so."""
        from . import shapes as SH

        if self.symbolic:
            st, why, sizes, n = SH.predict(fn, shapes, want, dtype, hi)
            PATHS[0] += n
            self.claims.append(ShapeClaim(label, st, why, sizes))
            return
        sizes = {d: self.int_inp(d, 1, 5) for s in shapes for d in s if not isinstance(d, int)}
        bad = SH.real_prediction(fn, shapes, want, sizes, dtype) or SH.fake_prediction(fn, shapes, want, sizes, dtype)
        self.claims.append(Fact(label, not bad, f"sizes {sizes}: {bad}"))

    def fact(self, label, ok, detail=""):
        self.claims.append(Fact(label, bool(ok), detail))


def _vals(x, like=None):
    if isinstance(x, torch.Tensor):
        return S.to_values(x)
    if isinstance(x, dict):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        return x
    a = np.empty((), dtype=object)
    a[()] = P.const(x)
    return a


def diffs_of(cl):
    a, b = cl.a, cl.b
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        if tuple(a.shape) != tuple(b.shape):
            return None
        if a.dtype.is_complex != b.dtype.is_complex:
            if not a.dtype.is_complex:
                a = torch.complex(a, torch.zeros_like(a))
            else:
                b = torch.complex(b, torch.zeros_like(b))
    va, vb = _vals(a), _vals(b)
    va, vb = np.broadcast_arrays(va, vb)
    return [P.sub(x, y) for x, y in zip(va.reshape(-1), vb.reshape(-1))]


def shape_of(x):
    return tuple(x.shape) if isinstance(x, torch.Tensor) else ()


def _num(x):
    if isinstance(x, torch.Tensor):
        x = x.detach()
        if x.dtype.is_complex:
            x = torch.view_as_real(x.resolve_conj())
        return x.to(torch.float64).numpy()
    return np.asarray(x, dtype=np.float64)


class CaseResult:
    def __init__(self, name):
        self.name = name
        self.status = "holds"      # holds | violated | unknown | unsupported | error
        self.detail = ""
        self.claims = 0
        self.violations = []
        self.stats = {}
        self.wall = 0.0
        self.live = False
        self.paths = 1


class PathDecider:
    """Explores the branches that the code takes on symbolic conditions, depth first."""

    def __init__(self, prefix, todo):
        self.prefix, self.todo = prefix, todo
        self.taken, self.conds = [], []

    def __call__(self, c):
        k = len(self.taken)
        if k < len(self.prefix):
            b = self.prefix[k]
        else:
            rt, _ = solve.feasible(self.conds + [c])
            rf, _ = solve.feasible(self.conds + [P.bnot(c)])
            t, f = str(rt) != "unsat", str(rf) != "unsat"
            b = t
            if t and f:
                self.todo.append(self.taken + [False])
            elif not t and not f:
                raise S.Unsupported("infeasible path")
        self.taken.append(b)
        self.conds.append(c if b else P.bnot(c))
        return b


MAX_PATHS = int(os.environ.get("VERIF_MAX_PATHS", "400"))
PATH_SECONDS = [75.0]      # wall clock per case once it branches on data; set by the tier
PROBE_ONLY = [False]
PATHS = [0]


def _ours(e):
    """The exception comes from the check itself (an internal name or signature it relied on is gone)."""
    if not isinstance(e, (AttributeError, TypeError, ImportError, NameError)):
        return False
    tb, last = e.__traceback__, ""
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return os.path.abspath(last).startswith(env.VERIF + os.sep) or isinstance(e, ImportError) and "importlib" in last


def run_case(name, fn):
    """Deciding run of one case (all paths), plus replay of any counterexample."""
    r = CaseResult(name)
    t0 = time.time()
    for k in solve.STATS:
        solve.STATS[k] = 0 if k != "time" else 0.0
    S.STATS["ops"].clear()
    S.STATS["kernels"].clear()
    todo = [[]]
    r.paths = 0
    PATHS[0] = 0
    seen = set()
    while todo:
        prefix = todo.pop()
        r.paths += 1
        if PROBE_ONLY[0]:
            r.status, r.detail = "unknown", "no time left for the solver"
            break
        if r.paths > MAX_PATHS or (r.paths > 8 and time.time() - t0 > PATH_SECONDS[0]):
            if r.status == "holds":
                r.status, r.detail = "unknown", "path limit"
            break
        S.reset()
        dec = PathDecider(prefix, todo)
        S.DECIDER[0] = dec
        try:
            _run_path(r, name, fn, dec, seen)
        finally:
            S.DECIDER[0] = None
        if r.status in ("unsupported",):
            break
    if (r.status in ("unsupported", "unknown") and not r.violations) or PROBE_ALL:
        _probe(r, name, fn)
    r.wall = time.time() - t0
    r.paths += PATHS[0]
    return _fin(r)


PROBE_ALL = os.environ.get("VERIF_PROBE_ALL") == "1"


def _probe(r, name, fn):
    """The solver gave no verdict: look for a failing input on the real code.  Only ever adds a
    (reproduced) violation; finding none leaves the case inconclusive."""
    for seed in range(3):
        envd = {}
        cx = Ctx(False, envd, probe=seed)
        labels = []
        try:
            fn(cx)
        except S.Unsupported:
            return
        except Exception as e:
            if _ours(e):
                return
            labels = ["raises"]
            obs = "".join(traceback.format_exception_only(type(e), e)).strip()
        for lab in ["raises"] if labels else list(dict.fromkeys(c.label for c in cx.claims)):
            if lab == "raises":
                ok, info = True, obs
            else:
                ok, info = replay(fn, envd, lab)
            if ok:
                r.status = "violated"
                r.violations.append({"case": name, "label": lab, "env": envd, "observed": info, "how": "no solver verdict (" + r.detail[:200] + "); failing input found on the real code", "element": None})
                return


def _run_path(r, name, fn, dec, seen):
    cx = Ctx(True)
    raised = None
    try:
        fn(cx)
    except S.Unsupported as e:
        if r.status in ("holds", "unknown"):
            r.status, r.detail = "unsupported", str(e) + " | " + _where()
    except Exception as e:  # the code under test raised
        if _ours(e):
            if r.status in ("holds", "unknown"):
                r.status, r.detail = "unsupported", "the check does not fit the code: " + repr(e)
            return
        raised = e
        detail = "".join(traceback.format_exception_only(type(e), e)).strip()
        tb = traceback.format_exc()
    if raised is not None:
        # reproduce on the real code with plain numbers
        envd = {}
        if dec.conds:
            _, envd = solve.feasible(dec.conds)
        ok, info = _concrete_raises(fn, envd or {})
        if ok and "raises" not in seen:
            seen.add("raises")
            r.status, r.detail = "violated", detail
            r.violations.append({"case": name, "label": "raises", "env": envd or {}, "observed": info, "how": "exception reproduced on the real code"})
        elif not ok and r.status in ("holds", "unknown"):
            r.status = "unsupported"
            r.detail = "engine: " + detail + " | " + tb[-1500:]
        return
    cands = []
    try:
        for cl in cx.claims:
            r.claims += 1
            if isinstance(cl, Fact):
                if not cl.ok:
                    cands.append((cl, None, {}))
                continue
            if isinstance(cl, ShapeClaim):
                if cl.status == "violated":
                    cands.append((cl, None, cl.env))
                elif cl.status == "unknown" and r.status == "holds":
                    r.status, r.detail = "unknown", cl.label + ": " + cl.detail
                continue
            if isinstance(cl, IntClaim):
                st, envd = _decide_int(cl, dec.conds)
                if st == "sat":
                    cands.append((cl, None, envd))
                elif st == "unknown" and r.status == "holds":
                    r.status, r.detail = "unknown", cl.label
                continue
            d = diffs_of(cl)
            if d is None:
                cands.append((cl, None, {}))
                continue
            st, bad = solve.prove_small(d, cl.tol, cl.side, path=tuple(dec.conds))
            if st == "violated":
                for v in bad:
                    cands.append((cl, v, v.env))
            elif st == "unknown" and r.status == "holds":
                r.status, r.detail = "unknown", cl.label
        if not dec.prefix:
            r.live = _liveness(cx, dec.conds)
    except Exception as e:
        if r.status in ("holds", "unknown"):
            r.status, r.detail = "unsupported", "solver front end: " + repr(e) + traceback.format_exc()[-800:]
    S.DECIDER[0] = None
    for cl, v, envd in cands:
        key = cl.label
        if key in seen:
            continue
        if v is None and dec.conds and not isinstance(cl, IntClaim):
            _, m = solve.feasible(dec.conds)
            envd = m or {}
        ok, info = replay(fn, envd, cl.label)
        if not ok and v is not None and any("undef!" in n for n in P.syms_of(_pick(cl, v.index))):
            # depends on uninitialised memory: have torch poison fresh allocations with NaN and run again
            ok, info = replay(fn, envd, cl.label, poison=True)
            info = "uninitialised memory reaches the result: " + info
        if not ok and v is not None and any("round!" in n for n in P.syms_of(_pick(cl, v.index))):
            # depends on a precision loss: use values that are not exactly representable
            envd = {at.name: at.lo + (at.hi - at.lo) * ((k_ * 0.6180339887498949 + 0.137) % 1.0) for k_, at in enumerate(P.ATOMS) if at.kind == "sym" and math.isfinite(at.lo) and math.isfinite(at.hi)}
            ok, info = replay(fn, envd, cl.label)
            info = "precision loss: " + info
        if ok:
            seen.add(key)
            r.status = "violated"
            r.violations.append({"case": name, "label": cl.label, "env": envd, "observed": info, "how": v.how if v is not None else "concrete fact", "element": v.index if v is not None else None})
        elif r.status == "holds":
            r.status, r.detail = "unknown", f"counterexample for '{cl.label}' did not reproduce on the real code: {info}"


def _decide_int(cl, conds):
    import z3

    from . import symint

    solve.STATS["elements"] += 1
    b = cl.c.b if isinstance(cl.c, symint.SBool) else z3.BoolVal(bool(cl.c))
    enc = solve.Enc(False)
    s = z3.Solver()
    s.set("timeout", 30000)
    for c in conds:
        s.add(enc.cond(c))
    s.add(z3.Not(b))
    r = solve.timed_check(s)
    if r == z3.sat:
        return "sat", solve.model_env(s.model(), enc)
    return str(r), None


def _where():
    return traceback.format_exc()[-900:]


def _liveness(cx, conds):
    """Reachability twin: is the claimed quantity really able to vary?  (a sat answer is wanted)"""
    if any(isinstance(c, IntClaim) for c in cx.claims):
        return str(solve.feasible(conds)[0]) == "sat"
    if any(isinstance(c, (Fact, ShapeClaim)) for c in cx.claims) and not any(isinstance(c, Claim) for c in cx.claims):
        return True
    for cl in cx.claims:
        if not isinstance(cl, Claim):
            continue
        best = None
        for x in (cl.a, cl.b):
            if not isinstance(x, torch.Tensor) and not isinstance(x, np.ndarray):
                continue
            for p in _vals(x).reshape(-1):
                if len(p) > (len(best) if best else 0) and not P.is_const(p):
                    best = p
                    if len(best) > 3:
                        break
        if best:
            enc = solve.Enc(relaxed=True)
            import z3

            s = z3.Solver()
            s.set("timeout", 5000)
            e = enc.val(best)
            s.add(z3.Or(e > solve.q(1e-6), e < solve.q(-1e-6)))
            for c in enc.cons:
                s.add(c)
            if str(solve.timed_check(s)) == "sat":
                return True
    return False


def _pick(cl, k):
    d = diffs_of(cl)
    return d[k]


def _fin(r):
    r.stats = dict(solve.STATS)
    r.stats["ops"] = dict(S.STATS["ops"])
    r.stats["kernels"] = dict(S.STATS["kernels"])
    return r


def _concrete_raises(fn, envd=None):
    cx = Ctx(False, envd or {})
    try:
        fn(cx)
    except Exception as e:
        text = "".join(traceback.format_exception_only(type(e), e)).strip()
        return not (isinstance(e, S.Unsupported) or _ours(e)), text
    return False, ""


def replay(fn, envd, label, poison=False):
    """Run the case concretely; (reproduced?, text)."""
    cx = Ctx(False, envd)
    try:
        if poison:
            torch.use_deterministic_algorithms(True, warn_only=True)
            torch.utils.deterministic.fill_uninitialized_memory = True
        try:
            fn(cx)
        finally:
            if poison:
                torch.use_deterministic_algorithms(False)
    except Exception as e:
        return not (isinstance(e, S.Unsupported) or _ours(e)), "raises " + repr(e)
    found = False
    for cl in cx.claims:
        if cl.label != label:
            continue
        found = True
        if isinstance(cl, IntClaim):
            if not cl.c:
                return True, "false for " + str({k: v for k, v in envd.items()})
            continue
        if isinstance(cl, Fact):
            if not cl.ok:
                return True, cl.detail or "fact is false"
            continue
        if isinstance(cl.a, torch.Tensor) and isinstance(cl.b, torch.Tensor) and tuple(cl.a.shape) != tuple(cl.b.shape):
            return True, f"shape {tuple(cl.a.shape)} instead of {tuple(cl.b.shape)}"
        a, b = _num(cl.a), _num(cl.b)
        if a.ndim != b.ndim and a.ndim and b.ndim:
            n = max(a.ndim, b.ndim)
            if a.ndim < n:
                a = np.stack([a, 0 * a], -1)
            else:
                b = np.stack([b, 0 * b], -1)
        a, b = np.broadcast_arrays(a, b)
        d = (a - b).reshape(-1)
        dd = d if cl.side else np.abs(d)
        bad = ~(dd <= max(cl.tol * 0.9, 0.0))
        if bad.any():
            k = int(np.nanargmax(np.where(np.isnan(dd), np.inf, dd)))
            return True, f"element {np.unravel_index(k, a.shape)}: got {a.reshape(-1)[k]!r}, expected {'<= ' if cl.side else ''}{b.reshape(-1)[k]!r}"
    if not found:
        return False, "label not reached"
    return False, "values agree"


# ------------------------------------------------------------------ driver -
def _worker(args):
    mod, name, tier, budget = args
    import importlib

    m = importlib.import_module(mod)
    fn = case_table(m, tier)[name]
    S.NARROW[0] = getattr(m, "NARROW", False)
    try:
        r = run_case(name, fn)
    except BaseException as e:  # noqa
        r = CaseResult(name)
        r.status, r.detail = "unsupported", "harness: " + repr(e) + traceback.format_exc()[-800:]
    return r.__dict__


def _serve(conn):
    while True:
        try:
            j = conn.recv()
        except EOFError:
            os._exit(0)
        if j is None:
            os._exit(0)
        conn.send(_worker(j))


def _crashed(j):
    """A worker died in a case: does the real code die too, with plain numbers?"""
    mod, name, tier, _ = j
    import importlib

    r = CaseResult(name)
    fn = case_table(importlib.import_module(mod), tier)[name]
    code = crash_code(fn)
    if code:
        r.status, r.detail = "violated", f"the process dies ({code})"
        r.violations.append({"case": name, "label": "crash", "env": {}, "observed": f"the process dies ({code})", "how": "reproduced on the real code in a child process"})
    else:
        r.status, r.detail = "unsupported", "the worker process died; the real code does not"
    return r.__dict__


def crash_code(fn, envd=None):
    pid = os.fork()
    if pid == 0:
        try:
            fn(Ctx(False, envd or {}))
        except BaseException:
            pass
        os._exit(0)
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        return f"signal {os.WTERMSIG(st)}"
    return f"exit status {os.WEXITSTATUS(st)}" if os.WEXITSTATUS(st) else ""


def _run_pool(jobs, n, t0, limit):
    from multiprocessing import connection

    ctx = mp.get_context("fork")
    todo = list(reversed(jobs))
    live = {}          # conn -> [process, job, served]
    results = []

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(b,), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0]
        give(a)

    def give(c):
        w = live[c]
        if not todo or w[2] >= 20:
            c.send(None)
            c.close()
            del live[c]
            if todo:
                start()
            return
        w[1], w[2] = todo.pop(), w[2] + 1
        c.send(w[1])

    for _ in range(n):
        if todo:
            start()
    while live:
        left = limit - (time.time() - t0)
        if left <= 0:
            break
        for c in connection.wait(list(live), timeout=left):
            try:
                results.append(c.recv())
            except (EOFError, ConnectionResetError):
                w = live.pop(c)
                results.append(_crashed(w[1]))
                if todo:
                    start()
                continue
            give(c)
    left_over = [w[1] for w in live.values()] + list(reversed(todo))
    for c, w in live.items():
        print(f"  [not finished] {w[1][1]}")
        w[0].kill()
    order = {j[1]: k for k, j in enumerate(jobs)}
    results.sort(key=lambda r: order[r["name"]])
    return results, left_over


def main(mod, prop, level="other", assumptions=(), functions=(), bounds="", pre=None, notes=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        rec = json.load(open(a.replay))
        fn = case_table(mod, rec.get("tier", "quick"))[rec["case"]]
        if rec["label"] == "crash":
            info = crash_code(fn)
            ok = bool(info)
        elif rec["label"] == "raises":
            ok, info = _concrete_raises(fn, rec['env'])
        else:
            ok, info = replay(fn, rec["env"], rec["label"])
        print(("REPRODUCED " if ok else "not reproduced ") + info)
        sys.exit(1 if ok else 0)
    # quick: the solver gets until 640 s after process start (a rebuild of the extensions counts); what is
    # then left is only probed concretely, until 820 s
    late = time.time() - env.T0
    limit, hard = (640 - late, 820 - late) if a.tier == "quick" else (6 * 3600, 7 * 3600)
    if a.tier != "quick":
        PATH_SECONDS[0] = 3600.0
    if pre is not None:
        try:
            pre()
        except Exception as e:
            PROBE_ONLY[0] = True
            print("  symbolic kernels not available, cases are only probed concretely: " + repr(e)[:1500])
    names = list(case_table(mod, a.tier))
    if a.case:
        names = [n for n in names if a.case in n]
    results = []
    jobs = [(mod.__name__, n, a.tier, limit) for n in names]
    skipped = 0
    if a.jobs > 1 and len(jobs) > 1:
        results, left = _run_pool(jobs, min(a.jobs, len(jobs)), t0, limit)
        if left and a.case is None:
            PROBE_ONLY[0] = True
            more, left = _run_pool(left, min(a.jobs, len(left)), t0, hard)
            results += more
        skipped = len(left)
    else:
        for j in jobs:
            if time.time() - t0 > limit:
                skipped += 1
                continue
            results.append(_worker(j))
    return finish(prop, level, a.tier, seed, results, skipped, t0, assumptions, functions, bounds, a.v, notes)


def not_decided(prop, e):
    """The check file does not fit the tree: record that nothing was decided."""
    if not isinstance(e, (ImportError, AttributeError)):
        traceback.print_exc()
        return 2
    r = CaseResult("(import)")
    r.status, r.detail = "unsupported", "the check does not fit the code: " + repr(e)
    tier = os.environ.get("VERIF_TIER", "quick")
    return finish(prop, "other", tier, int(os.environ.get("VERIF_SEED", "1")), [r.__dict__], 0, time.time(), ASSUME, [], "nothing was decided on this tree", True)


def known_findings(prop):
    path = os.path.join(env.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def case_table(mod, tier):
    """Cases by name. Check files see "std" (quick) or "deep" (thorough; a superset)."""
    t = {}
    for n, f in mod.cases("std"):
        t.setdefault(n, f)
    if tier == "thorough":
        for n, f in mod.cases("deep"):
            t.setdefault(n, f)
    return t


def finish(prop, level, tier, seed, results, skipped, t0, assumptions, functions, bounds, verbose, notes=None):
    agg = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "nonlinear": 0, "elements": 0, "residual_terms": 0}
    ops, kernels = {}, {}
    byst = {}
    viol = []
    for r in results:
        byst[r["status"]] = byst.get(r["status"], 0) + 1
        for k in agg:
            agg[k] += r["stats"].get(k, 0)
        for k, v in r["stats"].get("ops", {}).items():
            ops[k] = ops.get(k, 0) + v
        for k, v in r["stats"].get("kernels", {}).items():
            kernels[k] = kernels.get(k, 0) + v
        viol += r["violations"]
        if verbose or r["status"] not in ("holds",):
            print(f"  [{r['status']}] {r['name']} claims={r['claims']} wall={r['wall']:.2f}s {r['detail'][:1500]}")
    known = known_findings(prop)
    new = []
    kprinted = set()
    for v in viol:
        k = next((k for k in known if k.get("case") == v["case"] and k.get("label") in (None, v["label"])), None)
        if k is not None:
            if id(k) not in kprinted:
                kprinted.add(id(k))
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            new.append(v)
    rdir = os.path.join(env.VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(new[:20]):
        path = os.path.join(rdir, f"{prop}_{i}.json")
        rec = dict(v)
        rec.update(property=prop, tier=tier)
        json.dump(rec, open(path, "w"), indent=1, default=str)
        if i == 0 or verbose:
            print(f"  {v['case']}: {v['label']}: {v['observed']}")
            print(f"VIOLATION property={prop} replay={path}")
    nclaims = sum(r["claims"] for r in results)
    vac = [r["name"] for r in results if r["status"] == "holds" and (r["claims"] == 0 or not r.get("live"))]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": "Bounded symbolic execution of the real code: the listed functions run on tensors whose entries are symbolic reals (compiled kernels are re-instantiated from their C++ source with a symbolic scalar type); each claim's negation is given to z3, 'holds' means unsat for every value of every symbol within the bounds; sat models are replayed on the real code before being reported.",
            "paths": sum(r.get("paths", 1) for r in results),
            "cases": len(results), "cases_by_status": byst, "cases_not_started_in_time": skipped, "claims": nclaims, "elements_decided": agg["elements"],
            "solver_queries": agg["queries"], "solver_unsat": agg["unsat"], "solver_sat": agg["sat"], "solver_unknown": agg["unknown"], "solver_time_s": round(agg["time"], 3),
            "nonlinear_queries": agg["nonlinear"], "residual_terms_overapproximated": agg["residual_terms"],
            "functions_encoded": list(functions), "bounds": bounds, "distinct_tensor_ops_executed": len(ops), "tensor_ops_executed": sum(ops.values()), "cxx_kernels_executed": kernels,
            "case_names": [r["name"] for r in results][:400], "vacuous_cases": vac,
            "inconclusive": [{"case": r["name"], "status": r["status"], "why": r["detail"][:300]} for r in results if r["status"] in ("unknown", "unsupported")][:50],
        },
        "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if notes:
        ev["coverage"].update(notes() if callable(notes) else notes)
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop} [{tier}] cases={len(results)} {byst} claims={nclaims} elements={agg['elements']} queries={agg['queries']} (unsat {agg['unsat']}, sat {agg['sat']}, unknown {agg['unknown']}) solver={agg['time']:.2f}s wall={time.time()-t0:.1f}s violations={len(new)}")
    return 1 if new else 0


ASSUME = [
    "floating-point arithmetic is modelled by real arithmetic with float64 constants; rounding, overflow and NaN propagation of the data path are outside the model",
    "aten tensor primitives (views, indexing, arithmetic, FFT, matmul) follow their documented semantics; torch.autograd chains derivative formulas correctly",
    "symbolic data entries range over the stated boxes; configurations (grid sizes, norms, process grids) are the listed ones",
]
