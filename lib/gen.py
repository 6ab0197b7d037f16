"""Generators of values shared by the checks (all choices come from the Source)."""
import numpy as np
from rf import *

INTS = (U8, I16, I32, I64)
RANGE = {U8: (0, 255), I16: (-32767, 32767), I32: (-2**31 + 1, 2**31 - 1), I64: (-2**63 + 1, 2**63 - 1),
         DATE: (-2**31 + 1, 2**31 - 1), TIME: (-2**31 + 1, 2**31 - 1), TS: (-2**63 + 1, 2**63 - 1)}
WORDS = [b"a", b"b", b"c", b"aa", b"ab", b"b1", b"zz", b"AAPL", b"MSFT", b"x", b"y0", b"longer-name", b"A", b"Z_9"]
NONNUM = (B8, U8, SYM, C8, GUID)


def isnull(t, v):
    if t in NULLV:
        return v == NULLV[t]
    if t == F64:
        return v != v
    if t == SYM:
        return v is None
    if t == GUID:
        return v == b"\0" * 16
    return False


def nullof(t):
    if t in NULLV:
        return NULLV[t]
    if t == F64:
        return float("nan")
    if t == SYM:
        return None
    if t == GUID:
        return b"\0" * 16
    raise KeyError(t)


def hasnull(t):
    return t in NULLV or t in (F64, SYM, GUID)


def scalar(s, t, null=True, mag=None):
    """a value of type t (python representation); mag bounds |v| for numeric types"""
    if t == B8:
        return s.draw(2)
    if t == C8:
        return s.choice(b"abcABC019 _-*?[]\\\"\n\tz")
    if t == SYM:
        if null and s.draw(12) == 11:
            return None
        return s.choice(WORDS)
    if t == GUID:
        if null and s.draw(12) == 11:
            return b"\0" * 16
        k = s.draw(6)
        if k < 4:
            b = bytearray(16)
            b[s.choice([15, 0, 7, 8])] = 1 + s.draw(3)
            b[s.choice([15, 0, 7, 8])] |= s.choice([0, 0x80, 0xff])
            return bytes(b)
        return s.draw(1 << 64).to_bytes(8, "big") + s.draw(1 << 64).to_bytes(8, "little")
    if t == F64:
        if null and s.draw(12) == 11:
            return float("nan")
        k = s.draw(6)
        if k == 0:
            v = float(s.zint(-20, 20))
        elif k == 1:
            v = s.zint(-1000, 1000) / 4.0
        elif k == 2:
            v = s.zint(-10**6, 10**6) / 1000.0
        elif k == 3:
            v = s.choice([0.0, -0.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.1, -0.1, 1e-9, -1e-9])
        elif k == 4:
            v = s.zint(-10**9, 10**9) * 1.7
        else:
            v = (s.draw(1 << 53) - (1 << 52)) * 2.0 ** s.int(-80, 40)
        if mag is not None and abs(v) > mag:
            v = v % mag if v > 0 else -((-v) % mag)
        return v
    lo, hi = RANGE[t]
    if mag is not None:
        lo, hi = max(lo, -int(mag)), min(hi, int(mag))
    if null and t in NULLV and s.draw(12) == 11:
        return NULLV[t]
    k = s.draw(5)
    if k == 4 and hi > 1000:
        return s.choice([hi, lo, hi - 1, lo + 1, hi // 2])
    return s.zint(lo, hi)


def items(s, t, n, null=True, mag=None, dup=None):
    """n values; with dup, drawn from a pool of few values"""
    if dup is None:
        dup = s.draw(2)
    if dup and n > 2:
        pool = [scalar(s, t, null, mag) for _ in range(s.int(1, max(1, min(6, n))))]
        return [s.choice(pool) for _ in range(n)]
    return [scalar(s, t, null, mag) for _ in range(n)]


def vec_of(t, l):
    if t == C8:
        return Vec(C8, bytes(l))
    return Vec(t, l)


def small_vec(s, t, hi=12, null=True, mag=None, n=None):
    if n is None:
        n = s.size(hi)
    return vec_of(t, items(s, t, n, null, mag))


BIGN = [4095, 4096, 4097, 16383, 16384, 16385, 20000, 32768, 40001, 65537, 70001]


def big_array(s, t, n=None, null=True, mag=None):
    """large vector, contents derived from a drawn seed and shape parameters"""
    if n is None:
        n = s.choice(BIGN)
    r = np.random.default_rng(s.seed())
    shape = s.draw(6)
    card = s.choice([2, 5, 17, 300, 5000, 10**6])
    if t in (B8,):
        return Vec(t, r.integers(0, 2, n))
    if t == C8:
        return Vec(C8, r.integers(32, 127, n).astype("u1").tobytes())
    if t == SYM:
        card = min(card, 5000)
        names = [b"s%d" % i for i in range(card)]
        return Vec(SYM, [names[i] for i in r.integers(0, card, n).tolist()])
    if t == GUID:
        pool = [r.bytes(16) for _ in range(min(card, 1000))]
        return Vec(GUID, [pool[i] for i in r.integers(0, len(pool), n).tolist()])
    if t == F64:
        base = r.integers(-card, card + 1, n).astype("f8")
        k = s.draw(3)
        a = base if k == 0 else base / 4 if k == 1 else base * r.standard_normal(n)
        if mag is not None:
            a = np.clip(a, -mag, mag)
        if shape == 1:
            a = np.sort(a)
        elif shape == 2:
            a = np.sort(a)[::-1].copy()
        if null and s.draw(2):
            a[r.integers(0, n, max(1, n // s.choice([10, 1000])))] = np.nan
        return Vec(F64, a)
    lo, hi = RANGE[t]
    if mag is not None:
        lo, hi = max(lo, -int(mag)), min(hi, int(mag))
    if s.draw(3) == 0:
        a = r.integers(lo, hi, n, dtype="i8", endpoint=True)
    else:
        off = 0 if lo == 0 else s.choice([0, -card // 2, 1000])
        a = np.clip(r.integers(0, card, n) + off, lo, hi)
    if shape == 1:
        a = np.sort(a)
    elif shape == 2:
        a = np.sort(a)[::-1].copy()
    elif shape == 3:
        a = np.full(n, a[0])
    a = a.astype(DT[t])
    if null and t in NULLV and s.draw(2):
        a[r.integers(0, n, max(1, n // s.choice([10, 1000])))] = NULLV[t]
    return Vec(t, a)


# ------------------------------------------------------------------ literals
def _date_str(v):
    import datetime
    d = datetime.date(2000, 1, 1) + datetime.timedelta(days=int(v))
    return "%04d.%02d.%02d" % (d.year, d.month, d.day)


def _time_str(v):
    sgn = "-" if v < 0 else ""
    v = abs(int(v))
    return "%s%02d:%02d:%02d.%03d" % (sgn, v // 3600000, v // 60000 % 60, v // 1000 % 60, v % 1000)


def _ts_str(v):
    v = int(v)
    day, rem = divmod(v, 86400 * 10**9)
    return "%sD%02d:%02d:%02d.%09d" % (_date_str(day), rem // 3600 // 10**9, rem // 60 // 10**9 % 60, rem // 10**9 % 60, rem % 10**9)


DATE_LO, DATE_HI = -730119, 2921939        # 0001.01.01 .. 9999.12.31, days since 2000.01.01


def lit1(t, v, invec=False):
    """literal text of one value, or None when the language has no literal for it"""
    if t == B8:
        return "true" if v else "false"
    if t == U8:
        return "0x%02x" % v
    if isnull(t, v):
        return {I16: "0Nh", I32: "0Ni", I64: "0Nl", DATE: "0Nd", TIME: "0Nt", TS: "0Np", F64: "0Nf", SYM: "0Ns",
                GUID: None}[t]
    if t == I16:
        return "%dh" % v
    if t == I32:
        return "%di" % v
    if t == I64:
        return "%d" % v
    if t == F64:
        f = float(v)
        if f != f or f in (float("inf"), float("-inf")):
            return None
        q = f * 4
        if q == int(q) and abs(f) < 10**9:
            return "%.2f" % f
        return None
    if t == DATE:
        return _date_str(v) if DATE_LO <= v <= DATE_HI else None
    if t == TIME:
        return _time_str(v) if 0 <= v < 86400000 else None
    if t == TS:
        d = v // (86400 * 10**9)
        return _ts_str(v) if -36524 < d < 80000 else None
    if t == SYM:
        return v.decode() if invec else "'" + v.decode()
    return None


def lit(v):
    """literal source text of a value, or None"""
    if isinstance(v, Atom):
        return lit1(v.t, v.v)
    if isinstance(v, Vec):
        if v.t == C8:
            if all(32 <= c < 127 and c not in b'"\\' for c in v.a):
                return '"' + v.a.decode() + '"'
            return None
        if len(v) > 64 or v.t == GUID or (v.t != I64 and len(v) == 0):
            return None
        l = [lit1(v.t, x, True) for x in v.a]
        if any(x is None for x in l):
            return None
        return "[" + " ".join(l) + "]"
    if isinstance(v, Lst):
        l = [lit(x) for x in v.a]
        if any(x is None for x in l):
            return None
        return "(list " + " ".join(l) + ")" if l else None
    return None


class Binder:
    """puts values into expressions: as a literal, or as a bound variable"""

    def __init__(self, d, prefix="v"):
        self.d, self.n, self.prefix = d, 0, prefix

    def var(self, v):
        self.n += 1
        nm = "%s%d" % (self.prefix, self.n)
        self.d.set(nm, v)
        return nm

    def put(self, v, how):
        """how: 0 variable, 1 literal if there is one, 2 temporary (fresh object)"""
        if how == 1:
            t = lit(v)
            if t is not None:
                return t
        nm = self.var(v)
        return nm
