"""Reference rendering of values as text (the printed form), written from the documented format."""
import math, datetime
from rf import *
from gen import isnull, DATE_LO, DATE_HI, _date_str, _time_str, _ts_str

NUL = {I16: "0Nh", I32: "0Ni", I64: "0Nl", DATE: "0Nd", TIME: "0Nt", TS: "0Np", F64: "0Nf", GUID: "0Ng", SYM: "0Ns"}
WIDTH = 80


def ftext(v, prec=2):
    v = float(v)
    if v == 0:
        return "%.*f" % (prec, 0.0)
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    o = math.log10(abs(v))
    return "%.*e" % (prec, v) if o > 6 or o < -1 else "%.*f" % (prec, v)


def ctext(c, full):
    e = {34: '\\"', 10: "\\n", 13: "\\r", 9: "\\t"}.get(c)
    if c == 0:
        return "''" if full else " "
    if e is None:
        e = "\\%03o" % c if c < 32 else chr(c)
    return "'" + e + "'" if full else e


def text1(t, v, full=True):
    if t in NUL and isnull(t, v):
        return NUL[t] if t != SYM or full else ""
    if t == B8:
        return "true" if v else "false"
    if t == U8:
        return "0x%02x" % v
    if t == C8:
        return ctext(v if isinstance(v, int) else v[0], full)
    if t == F64:
        return ftext(v)
    if t == DATE:
        return _date_str(v)
    if t == TIME:
        return _time_str(v)
    if t == TS:
        return _ts_str(v)
    if t == GUID:
        h = v.hex()
        return "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
    if t == SYM:
        return v.decode("latin1")
    return "%d" % v


def text(v, full=True):
    """one-line forms only: atoms, vectors, strings, lists and dicts with full=False"""
    if isinstance(v, Null):
        return "Null"
    if isinstance(v, Atom):
        return text1(v.t, v.v, full)
    if isinstance(v, Vec):
        if v.t == C8:
            n, out, cut = 0, "", False
            for c in v.a:
                e = ctext(c, False)
                out += e
                if len(out) + full >= WIDTH:
                    cut = True
                    break
            return '"' * full + out + ".." * cut + '"' * full
        if not len(v):
            return "[]"
        out = "["
        for i, x in enumerate(v.a):
            out += text1(v.t, x)
            if len(out) >= WIDTH:
                break
            if i + 1 < len(v):
                out += " "
                if len(out) >= WIDTH:
                    break
        return out + ("..]" if len(out) >= WIDTH else "]")
    if isinstance(v, Lst):
        if not len(v):
            return "()"
        if full:
            raise ValueError("multi-line")
        return "(" + " ".join(text(x, False) for x in v.a[:50]) + (".." if len(v) > 50 else "") + ")"
    if isinstance(v, Pair) and v.t == DICT:
        ks = parts(v.k)
        if not ks:
            return "{}"
        if full:
            raise ValueError("multi-line")
        return "{" + " ".join("%s: %s" % (a, b) for a, b in zip(ks[:50], parts(v.v))) + (".." if len(ks) > 50 else "") + "}"
    raise ValueError(v)


def parts(v):
    """texts of the elements as they appear in a dict or a table cell"""
    if isinstance(v, Lst):
        return [text(x, False) for x in v.a]
    if v.t == C8:
        return [ctext(x, True) for x in v.a]
    return [text1(v.t, x) for x in v.a]


def block(v, ind=0):
    """full (multi-line) form of lists and dicts; entries themselves are one-line"""
    if isinstance(v, Lst) and len(v):
        r = ["(\n"] + ["  " + text(x, False) + "\n" for x in v.a[:50]]
        return "".join(r)[:-1] + ("\n  .." if len(v) > 50 else "") + "\n)"
    if isinstance(v, Pair) and v.t == DICT:
        ks = parts(v.k)
        if not ks:
            return "{}"
        return "{\n" + "\n".join("  %s: %s" % (a, b) for a, b in list(zip(ks, parts(v.v)))[:50]) + ("\n  .." if len(ks) > 50 else "") + "\n}"
    return text(v, True)
