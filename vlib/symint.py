"""Symbolic integers for ordinary Python code (z3 Int terms; branches are explored)."""
import operator

import torch
import z3

from . import solve
from . import symtensor as S

BASE = []      # bounds of the declared integers (for this path)
NAMES = {}


def reset():
    BASE.clear()
    NAMES.clear()


def _t(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    raise TypeError(type(x))


def _ok(x):
    return isinstance(x, (SInt, int))


class SBool:
    def __init__(self, b):
        self.b = b

    def __bool__(self):
        b = z3.simplify(self.b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        return S.decide(("z3", b))

    def __and__(self, o):
        return SBool(z3.And(self.b, o.b if isinstance(o, SBool) else z3.BoolVal(bool(o))))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.b, o.b if isinstance(o, SBool) else z3.BoolVal(bool(o))))

    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.b))


class SInt:
    def __init__(self, t):
        self.t = z3.simplify(t)

    def _bin(f, swap=False):
        def g(self, o):
            if not _ok(o):
                return NotImplemented
            a, b = self.t, _t(o)
            return SInt(f(b, a) if swap else f(a, b))

        return g

    __add__ = _bin(operator.add)
    __radd__ = _bin(operator.add, True)
    __sub__ = _bin(operator.sub)
    __rsub__ = _bin(operator.sub, True)
    __mul__ = _bin(operator.mul)
    __rmul__ = _bin(operator.mul, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        if not _ok(o):
            return NotImplemented
        return SInt(self.t * _t(o))

    def __neg__(self):
        return SInt(-self.t)

    def __floordiv__(self, o):
        return SInt(_fdiv(self.t, _t(o)))

    def __rfloordiv__(self, o):
        return SInt(_fdiv(_t(o), self.t))

    def __mod__(self, o):
        return SInt(self.t - _t(o) * _fdiv(self.t, _t(o)))

    def __rmod__(self, o):
        return SInt(_t(o) - self.t * _fdiv(_t(o), self.t))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __abs__(self):
        return SInt(z3.If(self.t >= 0, self.t, -self.t))

    def __lt__(self, o):
        return SBool(self.t < _t(o))

    def __le__(self, o):
        return SBool(self.t <= _t(o))

    def __gt__(self, o):
        return SBool(self.t > _t(o))

    def __ge__(self, o):
        return SBool(self.t >= _t(o))

    def __eq__(self, o):
        if not _ok(o):
            return False
        return SBool(self.t == _t(o))

    def __ne__(self, o):
        if not _ok(o):
            return True
        return SBool(self.t != _t(o))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        if S.DECIDER[0] is None:
            raise S.Unsupported("symbolic integer used as a concrete one")
        for _ in range(200):
            s = z3.Solver()
            s.set("timeout", 10000)
            for c in S.DECIDER[0].conds:
                s.add(solve.Enc(False).cond(c))
            if solve.timed_check(s) != z3.sat:
                raise S.Unsupported("no value for symbolic integer")
            v = s.model().eval(t, model_completion=True).as_long()
            if S.decide(("z3", t == v)):
                return v
        raise S.Unsupported("too many values for a symbolic integer")

    __int__ = __index__

    def __repr__(self):
        return f"SInt({self.t})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _fdiv(a, b):
    if z3.is_int_value(b):
        if b.as_long() == 0:
            raise ZeroDivisionError("integer division by zero")
        return a / b if b.as_long() > 0 else (-a) / (-b)
    if bool(SBool(b == 0)):
        raise ZeroDivisionError("integer division by zero")
    if bool(SBool(b > 0)):
        return a / b
    return (-a) / (-b)


def declare(name, lo, hi):
    v = z3.Int(name)
    NAMES[name] = v
    d = S.DECIDER[0]
    for c in (v >= lo, v <= hi):
        BASE.append(("z3", c))
        if d is not None:
            d.conds.append(("z3", c))
    return SInt(v)


_check = torch._check


def _check_sym(cond, message=None):
    if isinstance(cond, SBool):
        cond = bool(cond)
    return _check(cond, message)


torch._check = _check_sym
