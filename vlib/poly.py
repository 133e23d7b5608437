"""Symbolic value domain.

A value is a finite sum  sum_m c_m * m  of *monomials* m with float64
coefficients c_m.  A monomial is a product of atoms raised to real exponents.
Atoms are
  sym   a symbolic input (real, with interval bounds)
  exp   E[m] = exp(m) for a monomial m            (positive; real exponents)
  base  B[p] = p for a multi-term value p          (used as p**k, k real)
  fun   opaque f(p): sin, cos, log, abs, max, min, ite ...
The representation is a normal form for polynomial/exponential identities, so
most equalities collapse before they reach the solver; whatever is left is
handed to z3 by solve.py.
"""
import math

# ---------------------------------------------------------------- atoms ----
ATOMS = []          # id -> Atom
ATOM_KEY = {}
MONOS = [()]        # id -> tuple((atom, exp), ...)
MONO_KEY = {(): 0}
_MUL = {}
_SQUARES = {}       # normalised value -> (root, leading coefficient) for values seen as squares
_EXPONENTS = {}     # exp atom -> exponents met so far
REL_DROP = 1e-15


class Atom:
    __slots__ = ("kind", "name", "args", "lo", "hi", "extra")

    def __init__(self, kind, name, args=(), lo=-math.inf, hi=math.inf, extra=None):
        self.kind, self.name, self.args, self.lo, self.hi, self.extra = kind, name, args, lo, hi, extra

    def __repr__(self):
        return f"{self.kind}:{self.name}"


def reset():
    ATOMS.clear()
    ATOM_KEY.clear()
    MONOS.clear()
    MONOS.append(())
    MONO_KEY.clear()
    MONO_KEY[()] = 0
    _MUL.clear()
    _EXPONENTS.clear()
    _SQUARES.clear()


def new_atom(kind, name, args=(), lo=-math.inf, hi=math.inf, key=None, extra=None):
    if key is not None:
        k = (kind, key)
        a = ATOM_KEY.get(k)
        if a is not None:
            return a
    ATOMS.append(Atom(kind, name, args, lo, hi, extra))
    a = len(ATOMS) - 1
    if key is not None:
        ATOM_KEY[k] = a
    return a


def mono(t):
    m = MONO_KEY.get(t)
    if m is None:
        MONOS.append(t)
        m = len(MONOS) - 1
        MONO_KEY[t] = m
    return m


def mono_of(atom, e=1):
    return mono(((atom, e),))


def mono_mul(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a > b:
        a, b = b, a
    r = _MUL.get((a, b))
    if r is None:
        d = dict(MONOS[a])
        for at, e in MONOS[b]:
            ne = d.get(at, 0) + e
            if abs(ne) < 1e-12:
                d.pop(at, None)
            else:
                if abs(ne - round(ne)) < 1e-12:
                    ne = int(round(ne))
                d[at] = ne
        r = mono(tuple(sorted(d.items())))
        _MUL[(a, b)] = r
    return r


# ---------------------------------------------------------------- values ---
# a value is a dict {mono_id: coef}; ZERO is {}
ZERO = {}
ONE = {0: 1.0}


def const(c):
    return {0: float(c)} if c != 0 else {}


def sym(name, lo=-1.0, hi=1.0):
    a = new_atom("sym", name, lo=lo, hi=hi, key=("sym", name))
    return {mono_of(a): 1.0}


def is_const(p):
    return not p or (len(p) == 1 and 0 in p)


def cval(p):
    return p.get(0, 0.0)


def clean(p):
    if not p:
        return p
    mx = max(abs(v) for v in p.values())
    t = mx * REL_DROP
    return {m: c for m, c in p.items() if abs(c) > t}


def add(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(q) > len(p):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            s = v + c
            if abs(s) <= (abs(v) + abs(c)) * 1e-15:
                del r[m]
            else:
                r[m] = s
    return r


def scale(p, c):
    if c == 0 or not p:
        return ZERO
    if c == 1:
        return p
    return {m: v * c for m, v in p.items()}


def neg(p):
    return {m: -v for m, v in p.items()}


def sub(p, q):
    return add(p, neg(q))


def mul(p, q):
    if not p or not q:
        return ZERO
    if len(p) == 1 and 0 in p:
        return scale(q, p[0])
    if len(q) == 1 and 0 in q:
        return scale(p, q[0])
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = c1 * c2
            o = r.get(m)
            r[m] = v if o is None else o + v
    r = clean(r)
    if (p is q or p == q) and 1 < len(p) and len(r) > 2:
        l = _lead(r)
        _SQUARES[key_of(scale(r, 1.0 / l))] = (p, l)
    return _reduce_pos_base(r)


def _lead(p):
    top = max(abs(c) for c in p.values()) * (1 - 1e-5)
    return p[min((m for m, c in p.items() if abs(c) >= top), key=lambda m: MONOS[m])]


def _reduce_pos_base(p):
    """Expand base atoms that reach an exponent >= 1 (B^k -> p * B^(k-1))."""
    for m in p:
        for at, e in MONOS[m]:
            if e >= 1 and ATOMS[at].kind == "base":
                return expand_base(p, only_ge1=True)
    return p


def expand_base(p, only_ge1=True):
    changed = True
    while changed:
        changed = False
        out = {}
        extra = []
        for m, c in p.items():
            hit = None
            for at, e in MONOS[m]:
                if ATOMS[at].kind == "base" and e >= 1:
                    hit = (at, e)
                    break
            if hit is None:
                out[m] = out.get(m, 0.0) + c
            else:
                at, e = hit
                rest = mono_mul(m, mono_of(at, -1))
                extra.append(({rest: c}, ATOMS[at].extra))
        p = out
        for a, b in extra:
            changed = True
            r = {}
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    mm = mono_mul(m1, m2)
                    r[mm] = r.get(mm, 0.0) + c1 * c2
            p = add(p, r)
    return clean(p)


def key_of(p, digits=11):
    items = []
    for m in sorted(p):
        c = p[m]
        items.append((m, float(f"{c:.{digits}e}")))
    return tuple(items)


# --------------------------------------------------------------- powers ----
def _positive_atom(a):
    at = ATOMS[a]
    return at.kind == "exp" or at.lo > 0 or (at.kind == "base" and at.lo >= 0)


def content(p):
    """Factor p = coef * mono * rest, rest having leading coef 1 and no common monomial."""
    ms = [dict(MONOS[m]) for m in p]
    common = {}
    for a in ms[0]:
        e = min(d.get(a, 0) if (a in d) else 0 for d in ms)
        if all(a in d for d in ms):
            common[a] = min(d[a] for d in ms)
    # exponential atoms may appear with negative exponents: take min over all (missing = 0)
    atoms = set()
    for d in ms:
        atoms.update(d)
    for a in atoms:
        if ATOMS[a].kind == "exp":
            e = min(d.get(a, 0) for d in ms)
            if e != 0:
                common[a] = e
    return common


def power(p, k):
    """p ** k for real constant k."""
    if k == 0:
        return ONE
    if k == 1:
        return p
    if is_const(p):
        c = cval(p)
        if c == 0 and k < 0:
            return const(math.inf)
        return const(c ** k)
    if isinstance(k, float) and k == int(k):
        k = int(k)
    if isinstance(k, int) and 0 < k <= 8:
        r = p
        for _ in range(k - 1):
            r = mul(r, p)
        return r
    if len(p) == 1:
        (m, c), = p.items()
        t = MONOS[m]
        if isinstance(k, int) or (c > 0 and all(_positive_atom(a) for a, _ in t)):
            r = 0
            for a, e in t:
                r = mono_mul(r, mono_of(a, e * k))
            return {r: c ** k}
    if isinstance(k, int) and _SQUARES:
        l = _lead(p)
        sq = _SQUARES.get(key_of(scale(p, 1.0 / l)))
        if sq is not None:          # p = (l / l0) * root^2
            return scale(power(sq[0], 2 * k), (l / sq[1]) ** k)
    # factor content
    com = content(p)
    if com and (isinstance(k, int) or all(_positive_atom(a) for a in com)):
        m = mono(tuple(sorted(com.items())))
        inv = mono(tuple(sorted((a, -e) for a, e in com.items())))
        rest = mul(p, {inv: 1.0}) if True else p
        return mul(power({m: 1.0}, k), power(rest, k))
    lead = _lead(p)
    if lead < 0 and not isinstance(k, int):
        s = -lead
    else:
        s = lead if isinstance(k, int) else abs(lead)
    q = scale(p, 1.0 / s)
    lo, hi = bounds(q)
    if lo <= 0 and not isinstance(k, int):
        lo = max(lo, 0.0)
    a = new_atom("base", f"B{len(ATOMS)}", lo=lo, hi=hi, key=key_of(q), extra=q)
    return _reduce_pos_base({mono_of(a, k): s ** k})


def inv(p):
    return power(p, -1)


def div(p, q):
    if is_const(q):
        c = cval(q)
        if c == 0:
            if is_const(p):
                v = cval(p)
                return const(math.nan if v == 0 else math.copysign(math.inf, v))
            raise ZeroDivisionError("symbolic / 0")
        return scale(p, 1.0 / c) if c not in (2.0, 4.0) else {m: v / c for m, v in p.items()}
    return mul(p, inv(q))


def exp(p):
    r = {0: 1.0}
    c0 = p.get(0, 0.0)
    mres = 0
    for m, c in p.items():
        if m == 0:
            continue
        a = _exp_atom(m)
        mres = mono_mul(mres, mono_of(a, _snap(a, m, c)))
    if c0 < -700:
        return ZERO
    if c0 > 700:
        return const(math.inf)
    v = math.exp(c0)
    if v == 0.0:
        return ZERO
    return {mres: v} if mres or v else r


def _snap(a, m, c):
    """Identify exponents of one exp atom that agree to rounding: the exponent c*m
    moves by at most 1e-6 over the whole input box (rounding noise of a score)."""
    lo, hi = mono_bounds(m)
    mag = max(abs(lo), abs(hi))
    tol = min(1e-6 / mag if 0 < mag < math.inf else 1e-11, 1e-6 * abs(c))
    known = _EXPONENTS.setdefault(a, [])
    for k in known:
        if abs(k - c) <= tol:
            return k
    c = round(c * 2.0 ** 40) / 2.0 ** 40 or c
    known.append(c)
    return c


def _exp_atom(m):
    lo, hi = mono_bounds(m)
    return new_atom("exp", f"E{m}", lo=math.exp(lo) if lo > -700 else 0.0, hi=math.exp(hi) if hi < 700 else math.inf, key=m, extra=m)


def fun(name, *ps, lo=-math.inf, hi=math.inf):
    key = (name,) + tuple(key_of(p) if isinstance(p, dict) else p for p in ps)
    a = new_atom("fun", name, args=ps, lo=lo, hi=hi, key=key)
    return {mono_of(a): 1.0}


def _trig_iv(f, lo, hi, phase):
    """Range of sin/cos over [lo, hi]; phase = first maximum."""
    if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo >= 2 * math.pi:
        return -1.0, 1.0
    a, b = f(lo), f(hi)
    l, h = min(a, b) - 1e-12, max(a, b) + 1e-12
    if math.floor((hi - phase) / (2 * math.pi)) != math.floor((lo - phase) / (2 * math.pi)):
        h = 1.0
    if math.floor((hi - phase - math.pi) / (2 * math.pi)) != math.floor((lo - phase - math.pi) / (2 * math.pi)):
        l = -1.0
    return max(l, -1.0), min(h, 1.0)


def fsin(p):
    if is_const(p):
        return const(math.sin(cval(p)))
    # canonical sign
    lead = p[min(p, key=lambda m: MONOS[m])]
    if lead < 0:
        return neg(fsin(neg(p)))
    lo, hi = _trig_iv(math.sin, *bounds(p), math.pi / 2)
    return fun("sin", p, lo=lo, hi=hi)


def fcos(p):
    if is_const(p):
        return const(math.cos(cval(p)))
    lead = p[min(p, key=lambda m: MONOS[m])]
    if lead < 0:
        p = neg(p)
    lo, hi = _trig_iv(math.cos, *bounds(p), 0.0)
    return fun("cos", p, lo=lo, hi=hi)


def fmax(p, q):
    if is_const(p) and is_const(q):
        return p if cval(p) >= cval(q) else q
    lp, hp = bounds(p)
    lq, hq = bounds(q)
    if lp >= hq:
        return p
    if lq >= hp:
        return q
    if key_of(p) == key_of(q):
        return p
    c = max(p.get(0, 0.0), q.get(0, 0.0))
    if abs(c) > 16:         # keep large common offsets outside the opaque atom
        return add(fmax(sub(p, const(c)), sub(q, const(c))), const(c))
    if key_of(q) < key_of(p):
        p, q, lp, hp, lq, hq = q, p, lq, hq, lp, hp
    return fun("max", p, q, lo=max(lp, lq), hi=max(hp, hq))


def fabs(p):
    if is_const(p):
        return const(abs(cval(p)))
    lo, hi = bounds(p)
    if lo >= 0:
        return p
    if hi <= 0:
        return neg(p)
    return fun("abs", p, lo=0.0, hi=max(-lo, hi))


def flog(p):
    if is_const(p):
        return const(math.log(cval(p)))
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(ATOMS[a].kind == "exp" for a, _ in MONOS[m]):
            r = const(math.log(c))
            for a, e in MONOS[m]:
                r = add(r, {ATOMS[a].extra: float(e)})
            return r
    return fun("log", p)


def fite(cond, p, q):
    """cond: bool node (tuple)."""
    if cond is True:
        return p
    if cond is False:
        return q
    if key_of(p) == key_of(q):
        return p
    lp, hp = bounds(p)
    lq, hq = bounds(q)
    key = ("ite", cond_key(cond), key_of(p), key_of(q))
    a = new_atom("fun", "ite", args=(cond, p, q), lo=min(lp, lq), hi=max(hp, hq), key=key)
    return {mono_of(a): 1.0}


# ------------------------------------------------ trigonometric normal form
def _is_trig(a):
    at = ATOMS[a]
    return at.kind == "fun" and at.name in ("sin", "cos")


def needs_trig(p):
    n = {}
    for m in p:
        k = 0
        for a, e in MONOS[m]:
            if _is_trig(a):
                if e != int(e) or e < 0:
                    return False
                k += int(e)
                if 0 in ATOMS[a].args[0]:
                    k += 1
        if k > 6:
            return False
        n[m] = k
    return any(k >= 1 for k in n.values())


def trig_normal(p):
    """Products of sines and cosines as sums (phases expanded); (value, bound of the change).
    Arguments that agree to 1e-9 over the input box are identified."""
    groups = {}         # other monomial -> list of [argument, complex coefficient]   (real part of sum c*exp(i*arg))
    slack = 0.0
    for m, c in p.items():
        rest, terms = [], [({}, complex(c))]
        for a, e in MONOS[m]:
            if not _is_trig(a):
                rest.append((a, e))
                continue
            at = ATOMS[a]
            arg = dict(at.args[0])
            ph = arg.pop(0, 0.0)
            u = complex(math.cos(ph), math.sin(ph))
            # cos x = Re e^{ix};  product with Re z:  (z w + conj-pairing) / 2
            w = u if at.name == "cos" else -1j * u
            for _ in range(int(e)):
                nt = []
                for t, z in terms:
                    if not t:
                        nt.append((arg, z.real * w))
                    else:
                        nt.append((add(t, arg), z * w / 2))
                        nt.append((sub(t, arg), z * w.conjugate() / 2))
                terms = []
                for t, z in nt:
                    t = clean(t)
                    ph2 = t.pop(0, 0.0) if t else 0.0
                    if ph2:
                        z *= complex(math.cos(ph2), math.sin(ph2))
                    terms.append((t, z if t else complex(z.real)))
        om = mono(tuple(rest))
        lo, hi = mono_bounds(om)
        mag = max(abs(lo), abs(hi))
        g = groups.setdefault(om, [])
        for t, z in terms:
            if t and t[min(t, key=lambda k: MONOS[k])] < 0:
                t, z = neg(t), z.conjugate()
            for it in g:
                if it[0].keys() == t.keys():
                    l, h = bounds(sub(t, it[0])) if t else (0.0, 0.0)
                    dev = max(abs(l), abs(h))
                    if dev <= 1e-9:
                        it[1] += z
                        slack += abs(z) * dev * mag
                        break
            else:
                g.append([t, z])
    r = {}
    for om, g in groups.items():
        base = {om: 1.0}
        for t, z in g:
            if not t:
                v = const(z.real)
            else:
                v = add(scale(fcos(t), z.real), scale(fsin(t), -z.imag))
            r = add(r, mul(base, v))
    return r, slack


# ---------------------------------------------------------------- bools ----
# a condition is True/False or ('<'|'<='|'=='|'and'|'or'|'not', ...)
def cond_key(c):
    if isinstance(c, bool):
        return c
    if c[0] in ("<", "<=", "=="):
        return (c[0], key_of(c[1]))
    return (c[0],) + tuple(cond_key(x) for x in c[1:])


def lt(p, q):
    d = sub(p, q)
    if is_const(d):
        return cval(d) < 0
    lo, hi = bounds(d)
    if hi < 0:
        return True
    if lo >= 0:
        return False
    return ("<", d)


def le(p, q):
    d = sub(p, q)
    if is_const(d):
        return cval(d) <= 0
    lo, hi = bounds(d)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    return ("<=", d)


def eq(p, q):
    d = sub(p, q)
    if is_const(d):
        return cval(d) == 0
    lo, hi = bounds(d)
    if lo > 0 or hi < 0:
        return False
    return ("==", d)


def bnot(c):
    if isinstance(c, bool):
        return not c
    if c[0] == "not":
        return c[1]
    return ("not", c)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ("and", a, b)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ("or", a, b)


# --------------------------------------------------------------- bounds ----
def _pow_iv(lo, hi, e):
    if e == int(e):
        e = int(e)
        if e > 0:
            try:
                a = lo ** e if math.isfinite(lo) else (math.inf if (e % 2 == 0 or lo > 0) else -math.inf)
                b = hi ** e if math.isfinite(hi) else (math.inf if (e % 2 == 0 or hi > 0) else -math.inf)
            except OverflowError:
                return (-math.inf, math.inf)
            if e % 2 == 0 and lo < 0 < hi:
                return (0.0, max(a, b))
            return (min(a, b), max(a, b))
        # negative
        if lo > 0 or hi < 0:
            l2, h2 = _pow_iv(lo, hi, -e)
            f = lambda v: 0.0 if math.isinf(v) else (math.inf if v == 0 else 1.0 / v)
            return tuple(sorted((f(l2), f(h2))))
        if lo == 0 and hi > 0:
            l2, h2 = _pow_iv(lo, hi, -e)
            return (0.0 if math.isinf(h2) else 1.0 / h2, math.inf)
        return (-math.inf, math.inf)
    lo = max(lo, 0.0)
    if e > 0:
        return (lo ** e, hi ** e if math.isfinite(hi) else math.inf)
    return (0.0 if math.isinf(hi) else hi ** e, lo ** e if lo > 0 else math.inf)


def _mulb(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def mono_bounds(m):
    lo, hi = 1.0, 1.0
    for a, e in MONOS[m]:
        at = ATOMS[a]
        l, h = _pow_iv(at.lo, at.hi, e)
        c = (_mulb(lo, l), _mulb(lo, h), _mulb(hi, l), _mulb(hi, h))
        lo, hi = min(c), max(c)
    return lo, hi


def bounds(p):
    lo = hi = 0.0
    for m, c in p.items():
        l, h = mono_bounds(m)
        l, h = _mulb(c, l), _mulb(c, h)
        if l > h:
            l, h = h, l
        lo += l
        hi += h
    if lo != lo or hi != hi:
        return -math.inf, math.inf
    return lo, hi


# ------------------------------------------------- clearing denominators ---
def clear_denominators(p):
    """Return (num, den_lower): p = num/den with den >= den_lower > 0 (or |den|)."""
    den_lo = 1.0
    for _ in range(64):
        neg_e = {}
        frac = {}
        for m in p:
            for a, e in MONOS[m]:
                if ATOMS[a].kind == "base":
                    if e < 0:
                        neg_e[a] = min(neg_e.get(a, 0), e)
                elif e < 0:
                    neg_e[a] = min(neg_e.get(a, 0), e)
        if not neg_e:
            break
        f = 0
        for a, e in neg_e.items():
            k = -e
            f = mono_mul(f, mono_of(a, k))
            lo = max(ATOMS[a].lo, 0.0)
            hi = ATOMS[a].hi
            if ATOMS[a].lo > 0:
                den_lo *= lo ** k
            elif hi < 0:
                den_lo *= (-hi) ** k
            else:
                den_lo *= 0.0
        q = {}
        for m, c in p.items():
            mm = mono_mul(m, f)
            q[mm] = q.get(mm, 0.0) + c
        p = _expand_mass(q)
    return p, den_lo


def _expand_mass(p):
    """expand_base that drops what is left of a cancellation (below 1e-12 of the terms that cancelled:
    a relative error of 1e-12 of those terms, each a term of the original quotient)."""
    out, mass = {}, {}
    todo = list(p.items())
    while todo:
        m, c = todo.pop()
        for at, e in MONOS[m]:
            if e >= 1 and ATOMS[at].kind == "base":
                rest = mono_mul(m, mono_of(at, -1))
                todo += [(mono_mul(rest, n), c * b) for n, b in ATOMS[at].extra.items()]
                break
        else:
            out[m] = out.get(m, 0.0) + c
            mass[m] = mass.get(m, 0.0) + abs(c)
    return {m: c for m, c in out.items() if abs(c) > 1e-12 * mass[m]}


def _positive_sum(p):
    return all(c > 0 and mono_bounds(m)[0] >= 0 for m, c in p.items())


def merge_bases(p, rel=1e-5):
    """Replace divisors that are term-by-term within `rel` of each other by one of them.

    B = sum_i b_i m_i and B' = sum_i b'_i m_i with all b, b', m positive and
    |b'_i/b_i - 1| <= d imply B'/B in [1-d, 1+d].  Returns (p', slack) with
    |p - p'| <= slack for all symbol values.
    """
    seen, groups = {}, {}
    for m in p:
        for a, e in MONOS[m]:
            if ATOMS[a].kind == "base" and e < 0:
                seen[a] = min(seen.get(a, 0), e)
    if len(seen) < 2:
        return p, 0.0
    for a in seen:
        groups.setdefault(frozenset(ATOMS[a].extra), []).append(a)
    repl = {}
    for g in groups.values():
        if len(g) < 2 or not all(_positive_sum(ATOMS[a].extra) for a in g):
            continue
        reps = []
        for a in g:
            x = ATOMS[a].extra
            for r in reps:
                y = ATOMS[r].extra
                d = max(abs(x[m] / y[m] - 1) for m in x)
                if d <= rel:
                    repl[a] = (r, d)
                    break
            else:
                reps.append(a)
    if not repl:
        return p, 0.0
    out, slack = {}, 0.0
    for m, c in p.items():
        f = 1.0
        t = {}
        for a, e in MONOS[m]:
            if a in repl and e < 0:
                r, d = repl[a]
                f *= (1 - d) ** e
                a = r
            t[a] = t.get(a, 0) + e
        mm = mono(tuple(sorted((a, e) for a, e in t.items() if e))) if f != 1.0 else m
        if f != 1.0:
            slack += abs(c) * _quot_bound(mm) * (f - 1)
        out[mm] = out.get(mm, 0.0) + c
    return clean(out), slack


def _quot_bound(m):
    """Upper bound of |m|, using x_i/(sum_j b_j x_j) <= 1/b_i for positive sums."""
    t = dict(MONOS[m])
    b = 1.0
    for a in [a for a, e in t.items() if ATOMS[a].kind == "base" and e == int(e) and e < 0]:
        if not _positive_sum(ATOMS[a].extra):
            continue
        while t[a] < 0:
            for n, c in ATOMS[a].extra.items():
                x = dict(MONOS[n])
                if x and all(ATOMS[k].kind == "exp" for k in x) and all(t.get(k, 0) * e > 0 and abs(t[k]) >= abs(e) * (1 - 1e-9) for k, e in x.items()):
                    for k, e in x.items():
                        t[k] -= e
                        if abs(t[k]) < 1e-9 * abs(e):
                            del t[k]
                    t[a] += 1
                    b /= c
                    break
            else:
                break
        if t[a] == 0:
            del t[a]
    lo, hi = mono_bounds(mono(tuple(sorted(t.items()))))
    return b * max(abs(lo), abs(hi))


# ------------------------------------------------------------ evaluation ---
def eval_atom(a, env, memo):
    if a in memo:
        return memo[a]
    at = ATOMS[a]
    if at.kind == "sym":
        v = env.get(at.name)
        if v is None:
            v = min(max(0.0, at.lo), at.hi)
    elif at.kind == "exp":
        v = math.exp(eval_mono(at.extra, env, memo))
    elif at.kind == "base":
        v = evaluate(at.extra, env, memo)
    elif at.name == "ite":
        c, p, q = at.args
        v = evaluate(p, env, memo) if eval_cond(c, env, memo) else evaluate(q, env, memo)
    else:
        args = [evaluate(p, env, memo) if isinstance(p, dict) else p for p in at.args]
        v = {"sin": math.sin, "cos": math.cos, "log": lambda x: math.log(x), "abs": abs, "max": max}[at.name](*args)
    memo[a] = v
    return v


def eval_mono(m, env, memo):
    r = 1.0
    for a, e in MONOS[m]:
        r *= eval_atom(a, env, memo) ** e
    return r


def evaluate(p, env, memo=None):
    memo = {} if memo is None else memo
    return math.fsum(c * eval_mono(m, env, memo) for m, c in p.items())


def eval_cond(c, env, memo):
    if isinstance(c, bool):
        return c
    if c[0] == "<":
        return evaluate(c[1], env, memo) < 0
    if c[0] == "<=":
        return evaluate(c[1], env, memo) <= 0
    if c[0] == "==":
        return evaluate(c[1], env, memo) == 0
    if c[0] == "z3":
        return True
    if c[0] == "not":
        return not eval_cond(c[1], env, memo)
    if c[0] == "and":
        return all(eval_cond(x, env, memo) for x in c[1:])
    return any(eval_cond(x, env, memo) for x in c[1:])


def syms_of(p, acc=None, seen=None):
    """All base symbols (transitively) in p."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    for m in p:
        for a, _ in MONOS[m]:
            _syms_atom(a, acc, seen)
    return acc


def syms_cond(c):
    acc = set()
    _syms_cond(c, acc, set())
    return acc


def _syms_cond(c, acc, seen):
    if isinstance(c, bool) or c[0] == "z3":
        return
    if c[0] in ("<", "<=", "=="):
        syms_of(c[1], acc, seen)
    else:
        for x in c[1:]:
            _syms_cond(x, acc, seen)


def _syms_atom(a, acc, seen):
    if a in seen:
        return
    seen.add(a)
    at = ATOMS[a]
    if at.kind == "sym":
        acc.add(at.name)
    elif at.kind == "exp":
        for b, _ in MONOS[at.extra]:
            _syms_atom(b, acc, seen)
    elif at.kind == "base":
        syms_of(at.extra, acc, seen)
    else:
        for p in at.args:
            if isinstance(p, dict):
                syms_of(p, acc, seen)
            elif isinstance(p, (tuple, bool)):
                _syms_cond(p, acc, seen)
