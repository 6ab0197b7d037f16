"""Any value of the language: nested lists, dictionaries and tables of atoms and vectors of every type."""
from rf import *
from gen import *

TYPES = [I64, F64, SYM, C8, I32, I16, U8, B8, DATE, TIME, TS, GUID]
ODD = [b"a b", b"x\xc3\xa9", b"\x01", b"q" * 40, b"(", b"'", b"0"]


def one(s, t):
    if t == F64 and s.draw(8) == 7:
        return s.choice([float("inf"), float("-inf"), 1e308, 5e-324, -0.0])
    if t == SYM and s.draw(8) == 7:
        return s.choice(ODD)
    if t == C8:
        return s.choice([97 + s.draw(4), s.draw(256)])
    return scalar(s, t)


def vect(s, t=None, n=None):
    if t is None:
        t = s.choice(TYPES)
    if n is None:
        n = s.size(12)
    return vec_of(t, [one(s, t) for _ in range(n)])


def table(s, depth, rows=None):
    nc = s.int(1, 4)
    n = s.size(8) if rows is None else rows
    names = [b"a", b"b", b"c", b"d"][:nc]
    cols = [value_list(s, n, depth - 1) if s.draw(4) == 3 else vect(s, None, n) for _ in range(nc)]
    return Pair(TABLE, Vec(SYM, names), Lst(cols))


def value_list(s, n, depth):
    return Lst([value(s, depth) for _ in range(n)])


def dict_(s, depth):
    n = s.size(6)
    k = value_list(s, n, 0) if s.draw(5) == 4 else vect(s, s.choice([SYM, SYM, I64, DATE, GUID, C8, F64, U8, TS]), n)
    v = value_list(s, n, depth - 1) if s.draw(2) else vect(s, None, n)
    return Pair(DICT, k, v)


def value(s, depth=3):
    k = s.draw(9 if depth > 0 else 5)
    if k < 2:
        t = s.choice(TYPES)
        return Atom(t, one(s, t))
    if k < 4:
        return vect(s)
    if k == 4:
        return Null() if s.draw(4) == 3 else vect(s)
    if k < 7:
        return value_list(s, s.size(5), depth - 1)
    return dict_(s, depth) if k == 7 else table(s, depth)


def leaves(v):
    if isinstance(v, Lst):
        for x in v.a:
            yield from leaves(x)
    elif isinstance(v, Pair):
        yield from leaves(v.k)
        yield from leaves(v.v)
    else:
        yield v


def depth(v):
    if isinstance(v, Lst):
        return 1 + max([depth(x) for x in v.a], default=0)
    if isinstance(v, Pair):
        return 1 + max(depth(v.k), depth(v.v))
    return 0
