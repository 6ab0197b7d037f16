"""Reference semantics of elementwise operations, written from the documentation and the observed result types.

A scalar op returns a Python value, or DC ("don't care": the property leaves that position open, e.g. an
overflowing sum), or Approx(v, alternatives) for float results that need a tolerance.
"""
import math
from rf import *
from gen import isnull, nullof, hasnull, RANGE

DC = object()
NUM = (U8, I16, I32, I64, F64)
INTS = (U8, I16, I32, I64)


class Approx:
    __slots__ = ("vals", "tol")

    def __init__(self, vals, tol):
        self.vals, self.tol = vals, tol

    def ok(self, g):
        for v in self.vals:
            if v != v:
                if g != g:
                    return True
            elif abs(g - v) <= self.tol:
                return True
        return False


def wider(x, y):
    if {x, y} == {U8, I16}:
        return None
    return max(x, y, key=NUM.index)


def _t_add(x, y, sh):
    if x in NUM and y in NUM:
        return wider(x, y)
    for a, b in ((x, y), (y, x)):
        if a in (I32, I64) and b in (DATE, TIME, TS):
            return b
        if a == DATE and b == TIME:
            return TS
        if a == TIME and b == TIME:
            return TIME
        if a == TIME and b == TS:
            return TS
        if sh == "vv" and a == B8 and b == I64:
            return I64
    return None


def _t_sub(x, y, sh):
    if x in NUM and y in NUM:
        return wider(x, y)
    return {(I32, TIME): TIME, (I64, TIME): TIME, (DATE, I32): DATE, (DATE, I64): DATE, (DATE, DATE): I32,
            (DATE, TIME): TS, (TIME, I32): TIME, (TIME, I64): TIME, (TIME, TIME): TIME, (TS, I32): TS, (TS, I64): TS,
            (TS, TIME): TS, (TS, TS): I64}.get((x, y))


def _t_mul(x, y, sh):
    if x in NUM and y in NUM:
        return wider(x, y)
    for a, b in ((x, y), (y, x)):
        if a in (I32, I64) and b == TIME:
            return TIME
        if sh == "vv" and a == B8 and b == I64:
            return I64
    return None


def _t_fdiv(x, y, sh):
    if x == U8 and y in (U8, I32, I64, F64) or x == I16 and y in (I16, I32, I64, F64):
        return y
    if x in (I32, I64, F64) and y in NUM:
        return x
    if x == TIME and y in (I32, I64, F64):
        return TIME
    return None


def _t_div(x, y, sh):
    return F64 if x in (I32, I64, F64) and y in (I32, I64, F64) else None


def _t_mod(x, y, sh):
    return {(U8, U8): U8, (U8, I32): I32, (U8, I64): I64, (I16, I16): I16, (I16, I32): I32, (I16, I64): I64,
            (I32, U8): I32, (I32, I16): I32, (I32, I32): I32, (I32, I64): I64, (I64, U8): I64, (I64, I16): I64,
            (I64, I64): I64, (I64, I32): I32, (I32, F64): F64, (I64, F64): F64, (F64, I32): F64, (F64, I64): F64,
            (F64, F64): F64, (TIME, I32): TIME, (TIME, I64): TIME}.get((x, y))


def _t_xbar(x, y, sh):
    return {(I32, I32): I32, (I32, I64): I64, (I64, I32): I64, (I64, I64): I64, (I32, F64): F64, (I64, F64): F64,
            (F64, I32): F64, (F64, I64): F64, (F64, F64): F64, (DATE, I32): DATE, (DATE, I64): DATE,
            (TIME, I32): TIME, (TIME, I64): TIME, (TIME, TIME): TIME, (TS, I32): TS, (TS, I64): TS, (TS, TIME): TS}.get((x, y))


RT = {"+": _t_add, "-": _t_sub, "*": _t_mul, "/": _t_fdiv, "div": _t_div, "%": _t_mod, "xbar": _t_xbar}


def result_type(op, x, y, sh="vv"):
    return RT[op](x, y, sh)


DAYNS = 86400 * 10**9


def _norm(t, v):
    """fit an exact integer into type t, or DC"""
    if t == U8:
        return v & 255 if 0 <= v <= 255 else DC
    lo, hi = RANGE[t]
    return v if lo <= v <= hi else DC


def _units(t, v, rt):
    """temporal operand expressed in the unit of the result"""
    if rt == TS:
        if t == DATE:
            return v * DAYNS
        if t == TIME:
            return v * 10**6
    return v


def scalar_op(op, tx, a, ty, b, rt):
    if isnull(tx, a) or isnull(ty, b):
        return nullof(rt) if hasnull(rt) else DC
    a = a if tx == F64 else int(a)
    b = b if ty == F64 else int(b)
    fl = tx == F64 or ty == F64
    if op in "+-*":
        if rt == F64:
            x, y = float(a), float(b)
            r = x + y if op == "+" else x - y if op == "-" else x * y
            return r
        x, y = _units(tx, a, rt), _units(ty, b, rt)
        r = x + y if op == "+" else x - y if op == "-" else x * y
        if rt == TS and (tx == DATE or ty == DATE):
            # intermediate product must fit
            for t, v in ((tx, x), (ty, y)):
                if t == DATE and not -2**63 < v < 2**63:
                    return DC
        if rt == TIME and (tx == I64 and not -2**31 < a < 2**31 or ty == I64 and not -2**31 < b < 2**31):
            return DC
        if rt == DATE and (tx == I64 and not -2**31 < a < 2**31 or ty == I64 and not -2**31 < b < 2**31):
            return DC
        return _norm(rt, r)
    if b == 0:
        if op == "xbar" or not hasnull(rt):
            return DC
        return nullof(rt)
    if op == "div":
        r = float(a) / float(b)
        return Approx([r], abs(r) * 1e-14)
    if op == "/":
        if fl:
            try:
                q = float(a) / float(b)
            except OverflowError:
                return DC
            if math.isinf(q) or q != q:
                return DC
            e = abs(q) * 1e-15
            lo, hi = math.floor(q - e), math.floor(q + e)
            vals = [float(v) for v in range(lo, hi + 1)] if hi - lo < 64 else [float(math.floor(q))]
            if rt == F64:
                return Approx(vals, abs(q) * 1e-14 if abs(q) > 2**50 else 0)
            lo, hi = RANGE.get(rt)
            if not all(lo < v < hi for v in vals) or abs(q) >= 2**52:
                return DC
            return Approx(vals, 0) if len(vals) > 1 else int(vals[0])
        if rt == TIME and not -2**31 < b < 2**31 or rt == I32 and ty == I64 and not -2**31 < b < 2**31:
            return DC
        return _norm(rt, a // b)
    if op == "%":
        if fl:
            x, y = float(a), float(b)
            try:
                q = x / y
            except OverflowError:
                return DC
            if math.isinf(q) or q != q or abs(q) > 2**44:
                return DC
            r = x - math.floor(q) * y
            return Approx([r, r + y, r - y] if abs(q - round(q)) <= abs(q) * 1e-14 else [r], abs(x) * 4e-15 + abs(y) * 4e-15)
        if rt == TIME and not -2**31 < b < 2**31 or rt == I32 and (ty == I64 or tx == I64) and not (-2**31 < b < 2**31 and -2**31 < a < 2**31):
            return DC
        return _norm(rt, a % b)
    if op == "xbar":
        if b < 0:
            return DC
        if fl:
            x, y = float(a), float(b)
            q = x / y
            if math.isinf(q) or q != q or abs(q) > 2**44:
                return DC
            n = float(round(q))
            f = float(math.floor(q))
            vals = [f * y] if abs(q - n) > abs(q) * 1e-14 else [n * y, (n - 1) * y]
            return Approx(vals, (abs(x) + abs(y)) * 4e-15)
        if rt == TS and ty == TIME:
            b = b * 10**6
        if rt in (TIME, DATE, I32) and not -2**31 < b < 2**31:
            return DC
        lo = -2**31 if rt in (I32, DATE, TIME) else -2**63
        if a < 0 and a + 1 - b <= lo:
            return DC
        return _norm(rt, a - a % b)
    raise KeyError(op)


def unary_op(op, t, v):
    """neg, round, floor, ceil"""
    if isnull(t, v):
        return nullof(t)
    if op == "neg":
        return -v if t == F64 else -int(v)
    if t != F64:
        return int(v)
    if abs(v) >= 2**52 or math.isinf(v):
        return v
    if op == "floor":
        return float(math.floor(v))
    if op == "ceil":
        return float(math.ceil(v))
    f = math.floor(abs(v))
    d = abs(v) - f
    r = f + 1 if d >= 0.5 else f
    return float(r if v >= 0 else -r)


def elems(v):
    """python list of the elements of an atom/vector"""
    if isinstance(v, Atom):
        return [v.v]
    if v.t in (SYM, GUID):
        return list(v.a)
    if v.t == C8:
        return list(v.a)
    return v.a.tolist()


def match(rt, want, got):
    """want: list of scalars/DC/Approx; got: python list; returns index of the first mismatch or -1"""
    for i, (w, g) in enumerate(zip(want, got)):
        if w is DC:
            continue
        if isinstance(w, Approx):
            if not w.ok(g):
                return i
        elif w != g and not (w != w and g != g):
            return i
    return -1


def wshow(w):
    if w is DC:
        return "(any)"
    if isinstance(w, Approx):
        return " or ".join(map(repr, w.vals))
    return repr(w)
