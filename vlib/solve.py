"""Discharging assertions with z3."""
import math
import random
import time
from fractions import Fraction

import z3

from . import poly as P

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "nonlinear": 0, "elements": 0, "residual_terms": 0}


def q(x):
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def timed_check(s):
    t = time.time()
    r = s.check()
    STATS["time"] += time.time() - t
    STATS["queries"] += 1
    STATS[str(r)] += 1
    return r


class Enc:
    """Encodes domain values as z3 reals.

    relaxed=True : every nonlinear monomial is an independent bounded variable
                   (sound over-approximation, linear).
    relaxed=False: atoms are variables and monomials products; definitions of
                   max/abs/ite/base atoms are added.
    """

    def __init__(self, relaxed):
        self.relaxed = relaxed
        self.vars = {}
        self.cons = []
        self.mvars = {}

    def atom(self, a):
        v = self.vars.get(a)
        if v is not None:
            return v
        at = P.ATOMS[a]
        v = z3.Real(f"a{a}")
        self.vars[a] = v
        if math.isfinite(at.lo):
            self.cons.append(v >= q(at.lo))
        if math.isfinite(at.hi):
            self.cons.append(v <= q(at.hi))
        if at.kind == "exp":
            self.cons.append(v > 0)
        if at.kind == "base":
            self.cons.append(v == self.val(at.extra))
        if at.kind == "fun":
            if at.name == "max":
                x, y = self.val(at.args[0]), self.val(at.args[1])
                self.cons += [v >= x, v >= y, z3.Or(v == x, v == y)]
            elif at.name == "abs":
                x = self.val(at.args[0])
                self.cons.append(v == z3.If(x >= 0, x, -x))
            elif at.name == "ite":
                c, x, y = at.args
                self.cons.append(v == z3.If(self.cond(c), self.val(x), self.val(y)))
            elif at.name in ("sin", "cos"):
                other = P.ATOM_KEY.get(("fun", ("cos" if at.name == "sin" else "sin",) + tuple(P.key_of(p) for p in at.args)))
                if other is not None and other in self.vars:
                    self.cons.append(v * v + self.vars[other] * self.vars[other] == 1)
        return v

    def mono(self, m):
        if m == 0:
            return z3.RealVal(1)
        t = P.MONOS[m]
        if len(t) == 1 and t[0][1] == 1:
            return self.atom(t[0][0])
        v = self.mvars.get(m)
        if v is not None:
            return v
        if self.relaxed:
            v = z3.Real(f"m{m}")
            lo, hi = P.mono_bounds(m)
            if math.isfinite(lo):
                self.cons.append(v >= q(lo))
            if math.isfinite(hi):
                self.cons.append(v <= q(hi))
        else:
            v = None
            for a, e in t:
                x = self.atom(a)
                if e == int(e):
                    e = int(e)
                    if e > 0:
                        f = x
                        for _ in range(e - 1):
                            f = f * x
                    else:
                        w = z3.Real(f"p{a}_{e}")
                        g = x
                        for _ in range(-e - 1):
                            g = g * x
                        self.cons.append(w * g == 1)
                        f = w
                else:
                    w = z3.Real(f"p{a}_{e}")
                    lo, hi = P._pow_iv(P.ATOMS[a].lo, P.ATOMS[a].hi, e)
                    if math.isfinite(lo):
                        self.cons.append(w >= q(lo))
                    if math.isfinite(hi):
                        self.cons.append(w <= q(hi))
                    if abs(2 * e) == 1:
                        self.cons.append(w >= 0)
                        self.cons.append(w * w == x if e > 0 else w * w * x == 1)
                    f = w
                v = f if v is None else v * f
        self.mvars[m] = v
        return v

    def val(self, p):
        if not p:
            return z3.RealVal(0)
        ts = [q(c) if m == 0 else (self.mono(m) if c == 1.0 else q(c) * self.mono(m)) for m, c in p.items()]
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def cond(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if c[0] == "z3":
            return c[1]
        if c[0] == "<":
            return self.val(c[1]) < 0
        if c[0] == "<=":
            return self.val(c[1]) <= 0
        if c[0] == "==":
            return self.val(c[1]) == 0
        if c[0] == "not":
            return z3.Not(self.cond(c[1]))
        if c[0] == "and":
            return z3.And([self.cond(x) for x in c[1:]])
        return z3.Or([self.cond(x) for x in c[1:]])


def split_residual(d, budget):
    """Separate terms whose total magnitude is <= budget (over-approximated by one bounded variable)."""
    mags = []
    for m, c in d.items():
        lo, hi = P.mono_bounds(m)
        mags.append((abs(c) * max(abs(lo), abs(hi)), m))
    mags.sort(key=lambda t: (t[0] != t[0], t[0]))
    acc = 0.0
    small = 0
    big = dict(d)
    for g, m in mags:
        if g == g and acc + g <= budget:
            acc += g
            small += 1
            del big[m]
        else:
            break
    return big, acc, small


def num_search(d, names, tries=400, seed=1, path=(), side=0):
    """Numeric ascent used only to turn a solver 'sat/unknown' into a concrete witness."""
    rng = random.Random(seed)
    bnds = {}
    for at in P.ATOMS:
        if at.kind == "sym" and at.name in names:
            bnds[at.name] = (at.lo, at.hi)
    best, benv = -1.0, None
    for k in range(tries):
        if k % 3 == 0:
            env = {n: rng.choice((lo, hi)) for n, (lo, hi) in bnds.items()}
        else:
            env = {n: rng.uniform(lo, hi) for n, (lo, hi) in bnds.items()}
        try:
            if path and not all(P.eval_cond(c, env, {}) for c in path):
                continue
            v = P.evaluate(d, env)
            if not side:
                v = abs(v)
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            continue
        if v == v and v > best:
            best, benv = v, env
    return best, benv


def model_env(model, enc):
    env = {}
    for dcl in model.decls():
        if dcl.arity() == 0 and dcl.range() == z3.IntSort():
            env[dcl.name()] = model[dcl].as_long()
    for a, v in enc.vars.items():
        at = P.ATOMS[a]
        if at.kind != "sym":
            continue
        x = model.eval(v, model_completion=True)
        try:
            env[at.name] = float(x.as_fraction())
        except Exception:
            try:
                env[at.name] = float(x.approx(20).as_fraction())
            except Exception:
                env[at.name] = 0.0
    return env


class Violation:
    def __init__(self, index, env, diff, how):
        self.index, self.env, self.diff, self.how = index, env, diff, how


def _has_neg(d):
    for m in d:
        for a, e in P.MONOS[m]:
            if e < 0 or (P.ATOMS[a].kind == "base"):
                return True
    return False


MAX_CLEAR = 300000


def _item(idx, d, dd, den, tol, part):
    t = tol * den
    big, rem, k = split_residual(dd, 0.5 * t)
    STATS["residual_terms"] += k
    return idx, d, dd, big, rem, t, part


def _components(d):
    """Split a sum of quotients into sums that share no divisor (terms without divisor join a lone component)."""
    par = {}

    def find(a):
        while par[a] != a:
            a = par[a]
        return a

    keys = {}
    for m in d:
        bs = [a for a, e in P.MONOS[m] if e < 0 and e == int(e) and P.ATOMS[a].kind == "base"]
        keys[m] = bs
        for a in bs:
            par.setdefault(a, a)
        for a in bs[1:]:
            par[find(a)] = find(bs[0])
    out = {}
    for m, c in d.items():
        out.setdefault(find(keys[m][0]) if keys[m] else None, {})[m] = c
    if len(out) == 2 and None in out:
        return [d]
    return list(out.values())


def _clear_size(d):
    """Rough number of products when all divisors are multiplied out."""
    mx, fr = {}, 0
    for m in d:
        for a, e in P.MONOS[m]:
            if e < 0 and P.ATOMS[a].kind == "base":
                mx[a] = max(mx.get(a, 0), -e)
    n = 0
    for m in d:
        have = dict(P.MONOS[m])
        k = 1.0
        for a, e in mx.items():
            k *= len(P.ATOMS[a].extra) ** int(e + have.get(a, 0))
        n += k
    return n


def _decide_parts(its, tol, side, path, timeout_ms):
    """An element whose sum was split: all parts small => holds; otherwise look for a witness of the whole, then try the whole."""
    idx, d = its[0][:2]
    if all(it[4] != math.inf and _decide_one(idx, it[2], it[2], it[3], it[4], it[5], it[5], side, path, timeout_ms, witness=False) == "holds" for it in its):
        return "holds"
    names = set(P.syms_of(d))
    for c in path:
        names |= set(P.syms_cond(c))
    best, env = num_search(d, names, path=path, side=side)
    if env is not None and best > tol:
        return Violation(idx, env, P.evaluate(d, env), "witness search after a failed linear proof")
    if _clear_size(d) <= MAX_CLEAR:
        dd, den = P.clear_denominators(d)
        it = _item(idx, d, dd, max(den, 0.0), tol, False)
        return _decide_one(idx, d, dd, it[3], it[4], it[5], tol, side, path, timeout_ms)
    return "unknown"


def _mag(d):
    lo, hi = P.bounds(d)
    m = max(-lo, hi)
    return m if m == m else math.inf


def prove_small(diffs, tol, side=0, path=(), timeout_ms=20000, want=3):
    """Decide  for all symbol values within bounds (and path conditions):
        side=0: |d| <= tol      side=+1: d <= tol
    for every value d in `diffs`.  Returns (status, [Violation]) with status
    'holds' | 'violated' | 'unknown'.
    """
    bad = []
    status = "holds"
    pend = []
    batch_terms = 0
    solver_elems = []
    for idx, d in enumerate(diffs):
        STATS["elements"] += 1
        if any(c != c or math.isinf(c) for c in d.values()):
            bad.append(Violation(idx, {}, math.nan, "non-finite"))
            continue
        if P.needs_trig(d):
            dn, sl = P.trig_normal(d)
            if sl <= 0.1 * tol and _mag(dn) < _mag(d):
                d = dn
        if not _has_neg(d):
            pend.append(_item(idx, d, d, 1.0, tol, False))
            continue
        dd, slack = P.merge_bases(d)
        if slack > 0.5 * tol:
            dd, slack = d, 0.0
        for g, m in sorted(((abs(c) * P._quot_bound(m), m) for m, c in dd.items()), key=lambda z: (z[0] != z[0], z[0])):
            if not slack + g <= 0.5 * tol:
                break
            slack += g
            dd = dict(dd) if dd is d else dd
            del dd[m]
            STATS["residual_terms"] += 1
        parts = _components(dd) if side == 0 else [dd]
        for part in parts:
            if _clear_size(part) > MAX_CLEAR:
                pend.append((idx, d, part, part, math.inf, 0.0, True))
                continue
            pd, den = P.clear_denominators(part)
            pend.append(_item(idx, d, pd, max(den, 0.0), (tol - slack) / len(parts), len(parts) > 1))
    # one batched linear query
    if pend:
        enc = Enc(relaxed=True)
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        disj = []
        for k, (idx, d, dd, big, rem, t, part) in enumerate(pend):
            if rem == math.inf:
                disj.append(z3.BoolVal(True))
                continue
            r = z3.Real(f"rem{k}")
            s.add(r >= q(-rem), r <= q(rem))
            e = enc.val(big) + r
            disj.append(e > q(t))
            if side == 0:
                disj.append(e < q(-t))
        s.add(z3.Or(disj))
        for c in path:
            s.add(enc.cond(c))
        for c in enc.cons:
            s.add(c)
        r = timed_check(s)
        if r == z3.unsat:
            return ("violated" if bad else "holds"), bad
    # something is left: examine elements one by one, most promising first
    cand = {}
    for it in pend:
        idx, d, dd, big, rem, t, part = it
        if not big and rem <= t:
            continue
        lo, hi = P.bounds(big)
        mag = hi if side else max(-lo, hi)
        mag = mag if mag == mag else math.inf
        o = cand.setdefault(idx, [0.0, []])
        o[0] = max(o[0], mag)
        o[1].append(it)
    nbad = 0
    for idx, (_, its) in sorted(cand.items(), key=lambda z: (-z[1][0], z[0])):
        if its[0][6]:
            v = _decide_parts(its, tol, side, path, timeout_ms)
        else:
            _, d, dd, big, rem, t, _ = its[0]
            v = _decide_one(idx, d, dd, big, rem, t, tol, side, path, timeout_ms)
        if v == "holds":
            continue
        if v == "unknown":
            status = "unknown" if status == "holds" else status
            continue
        bad.append(v)
        nbad += 1
        if nbad >= want:
            break
    if bad:
        return "violated", bad
    return status, bad


def _decide_one(idx, d, dd, big, rem, t, tol, side, path, timeout_ms, witness=True):
    linear = all(len(P.MONOS[m]) <= 1 and all(e == 1 and P.ATOMS[a].kind == "sym" for a, e in P.MONOS[m]) for m in big) and not path
    enc = Enc(relaxed=linear)
    if not linear:
        STATS["nonlinear"] += 1
        # cheap relaxation first
        e1 = Enc(relaxed=True)
        s1 = z3.Solver()
        s1.set("timeout", timeout_ms)
        x = e1.val(big)
        s1.add(z3.Or(x > q(t - rem), x < q(-(t - rem))) if side == 0 else x > q(t - rem))
        for c in path:
            s1.add(e1.cond(c))
        for c in e1.cons:
            s1.add(c)
        if timed_check(s1) == z3.unsat:
            return "holds"
        if not witness:
            return "unknown"
    lo, hi = P.bounds(big)
    mag = hi if side else max(abs(lo), abs(hi))
    e = enc.val(big)
    for frac in ((0.5, None) if linear and math.isfinite(mag) and mag * 0.5 > t else (None,)):
        thr = t - rem if frac is None else mag * frac
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        s.add(z3.Or(e > q(thr), e < q(-thr)) if side == 0 else e > q(thr))
        for c in path:
            s.add(enc.cond(c))
        for c in enc.cons:
            s.add(c)
        r = timed_check(s)
        if r == z3.unsat:
            if frac is None:
                return "holds"
            continue
        if r == z3.sat:
            env = model_env(s.model(), enc)
            try:
                val = P.evaluate(d, env)
            except Exception:
                val = math.nan
            ok = (val > tol) if side else (abs(val) > tol)
            if ok:
                return Violation(idx, env, val, "z3 model")
        break
    names = set(P.syms_of(d))
    for c in path:
        names |= set(P.syms_cond(c))
    best, env = num_search(d, names, path=path, side=side)
    if env is not None and best > tol:
        val = P.evaluate(d, env)
        if not side or val > tol:
            return Violation(idx, env, val, "witness search after sat/unknown")
    return "unknown"


def feasible(conds, timeout_ms=5000):
    enc = Enc(relaxed=False)
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for c in conds:
        s.add(enc.cond(c))
    for c in enc.cons:
        s.add(c)
    r = timed_check(s)
    return r, (model_env(s.model(), enc) if r == z3.sat else None)
