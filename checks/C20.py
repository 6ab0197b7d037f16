import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref, text, anyval
from gen import *
import numpy as np

TYPES = [I64, SYM, F64, C8, LIST, I32, I16, U8, B8, DATE, TIME, TS, GUID]
NAME = {B8: b"B8", U8: b"U8", I16: b"I16", I32: b"I32", I64: b"I64", F64: b"F64", SYM: b"SYMBOL", C8: b"C8", LIST: b"C8", DATE: b"DATE", TIME: b"TIME", TS: b"TIMESTAMP", GUID: b"GUID"}
SEPS = [b",", b";", b"\t", b"|", b" ", b":", b"-", b".", b"1", b"x"]
COLS = [b"a", b"bb", b"Col3", b"d4d", b"e", b"f"]
CELL = [b"", b"x", b"hello", b"a,b", b'q"q', b'"', b'""', b"l1\nl2", b"c\r", b"\r\n", b" s ", b"a;b|c\td", b"1", b"-.:", b"x" * 50, b",", b"\n", b'","', b"\xc3\xa9", b"0Nl", b"'", b'"a"']
BIG = [1023, 1024, 1025, 4000, 20000, 50000]


def cell(s):
    k = s.draw(4)
    if k < 2:
        return s.choice(CELL)
    if k == 2:
        return bytes(s.choice(b'ab",\n\r; ') for _ in range(s.int(0, 8)))
    return bytes(1 + s.draw(255) for _ in range(s.int(0, 12)))


def val(s, t):
    if t == LIST:
        return cell(s)
    if t == SYM:
        if s.draw(8) == 7:
            return None
        return cell(s) or b"e" if s.draw(3) == 2 else scalar(s, SYM)
    if t == C8:
        return s.choice([97 + s.draw(4), s.choice(b',"\n\r; '), 1 + s.draw(255)])
    if t == DATE:
        return NULLV[DATE] if s.draw(8) == 7 else s.zint(DATE_LO, DATE_HI)
    if t == TIME:
        return s.zint(-86399999, 86399999) if s.draw(8) != 7 else NULLV[TIME]
    return scalar(s, t)


def cells(t, l):
    return Lst([Vec(C8, x) for x in l]) if t == LIST else vec_of(t, l)


def elems(v):
    return [x.a for x in v.a] if isinstance(v, Lst) else ref.elems(v)


def big(s, t, n):
    r = np.random.default_rng(s.seed())
    if t == LIST or t == SYM:
        pool = [cell(s) or b"e" for _ in range(1 + s.draw(6))]
        return cells(t, [pool[i] for i in r.integers(0, len(pool), n).tolist()])
    pool = [val(s, t) for _ in range(1 + s.draw(12))]
    return cells(t, [pool[i] for i in r.integers(0, len(pool), n).tolist()])


def close(a, b):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= 1e-15 * 8 * abs(a)


def back(t, v):
    """what a written column is read as"""
    if t == C8:
        return Lst([Vec(C8, bytes([x])) for x in v.a])
    return v


def eqcol(t, w, g):
    if t == F64:
        return isinstance(g, Vec) and g.t == F64 and len(g.a) == len(w.a) and all(close(x, y) for x, y in zip(w.a.tolist(), g.a.tolist()))
    if isinstance(w, Lst) and not w.a:
        return isinstance(g, (Lst, Vec)) and len(g.a) == 0
    return same(w, g)


def diff(ts, names, cols, r):
    """None when r is the table of the columns"""
    if not isinstance(r, Pair) or r.t != TABLE:
        return "is %r" % (r,)
    if not same(Vec(SYM, names), r.k):
        return "has columns %r instead of %r" % (r.k, names)
    for i, (t, w) in enumerate(zip(ts, cols)):
        g = r.v.a[i]
        if not eqcol(t, w, g):
            a, b = elems(w) if not isinstance(w, Lst) else w.a, elems(g) if isinstance(g, Vec) else g.a if isinstance(g, Lst) else None
            if b is None or len(a) != len(b):
                return "has %s rows instead of %d (column %s)" % (None if b is None else len(b), len(a), names[i])
            for j, (x, y) in enumerate(zip(a, b)):
                if repr(x) != repr(y):
                    return "has %r instead of %r in row %d of column %s" % (y, x, j, names[i])
            return "has %r instead of %r in column %s" % (g, w, names[i])


class Round(Prop):
    """a table which is written and read back with its types is the same table"""
    name = "round"
    quick, thorough = 9000, 60000
    flavours = ("rel",)

    def gen(self, s):
        nc = s.int(1, 5)
        ts = [s.choice(TYPES) for _ in range(nc)]
        n = s.choice(BIG) if s.draw(24) == 23 else s.size(10)
        if n > 1000:
            cols = [big(s, t, n) for t in ts]
        else:
            cols = [cells(t, [val(s, t) for _ in range(n)]) for t in ts]
        if nc == 1 and ts[0] == LIST and n == 0:
            cols[0] = Lst([])
        return dict(t=ts, c=cols, sep=s.choice(SEPS) if s.draw(3) else None, cores=s.choice([1, 4]), enum=s.draw(6) == 5)

    def run(self, c, env):
        d = env.driver("rel", cores=c["cores"])
        ts, names = c["t"], COLS[:len(c["t"])]
        f = os.path.join(env.fresh_dir(), "t.csv")
        d.set("cnames", Vec(SYM, names))
        d.set("ccols", Lst(c["c"]))
        d.set("cpath", Vec(C8, f.encode()))
        d.set("ctypes", Vec(SYM, [NAME[t] for t in ts]))
        sep = c["sep"]
        if sep:
            d.set("csep", Atom(C8, sep[0]))
        d.eval("(set ct (table cnames ccols))")
        if c["enum"]:
            for n, t, v in zip(names, ts, c["c"]):
                if t == SYM and len(v.a) and None not in v.a:
                    r = d.eval("(do (set cdom (distinct (at ct '%s))) (set ct (update {%s: (enum 'cdom %s) from: ct})))" % ((n.decode(),) * 3))
                    if isinstance(r, Err):
                        raise Fail("enumeration of the column %s: %r" % (n, r))
                    break
        r = d.evaln("(write-csv cpath ct%s)" % (" csep" if sep else ""), 20)
        if not isinstance(r, Null):
            raise Fail("write-csv gives %r" % (r,))
        n = len(elems(c["c"][0]))
        if os.path.getsize(f) > 1000 + n * len(ts) * 120:
            raise Fail("the file has %d bytes for %d rows" % (os.path.getsize(f), n))
        with open(f, "rb") as h:
            raw = h.read()
        rows = fields(raw, (sep or b",")[0])
        n = len(elems(c["c"][0]))
        if len(rows) != n + 1 or any(len(x) != len(ts) for x in rows):
            raise Fail("the file has %d lines of %s fields, the table %d rows of %d:\n%r" % (len(rows) - 1, sorted(set(map(len, rows))), n, len(ts), raw[:500]))
        for i, t in enumerate(ts):
            if t in (SYM, LIST, C8):
                want = [b"" if x is None else bytes([x]) if isinstance(x, int) else x for x in elems(c["c"][i])]
                for j, (x, y) in enumerate(zip(want, rows[1:])):
                    if x != y[i]:
                        raise Fail("row %d of column %s is written as %r instead of %r" % (j, names[i], y[i], x))
        r = d.evaln("(read-csv ctypes cpath%s)" % (" csep" if sep else ""), 20)
        m = diff(ts, names, [back(t, v) for t, v in zip(ts, c["c"])], r)
        if m:
            raise Fail("the table read from %r %s" % (raw[:500], m))
        return ["big" if n > 1000 else "small", "cores%d" % c["cores"], "quoted" if b'"' in raw else "plain"]

    def nontrivial(self, c, l):
        return len(elems(c["c"][0])) > 0

    def describe(self, c):
        n = len(elems(c["c"][0]))
        return "separator %r, cores %d, %d rows%s: %s" % (c["sep"], c["cores"], n, " (enum)" if c["enum"] else "", ", ".join("%s %s" % (NAME[t].decode(), repr(v) if n < 50 else repr(v)[:200]) for t, v in zip(c["t"], c["c"])))


def fields(raw, sep):
    """rows of a file by the rules of RFC 4180: the reference reader"""
    rows, row, i, n = [], [], 0, len(raw)
    if not n:
        return []
    while True:
        if i < n and raw[i] == 34:
            out = bytearray()
            i += 1
            while i < n:
                if raw[i] == 34:
                    if i + 1 < n and raw[i + 1] == 34:
                        out.append(34)
                        i += 2
                        continue
                    i += 1
                    break
                out.append(raw[i])
                i += 1
            row.append(bytes(out))
        else:
            j = i
            while i < n and raw[i] != sep and raw[i] != 10:
                i += 1
            x = raw[j:i]
            if (i == n or raw[i] == 10) and x.endswith(b"\r"):
                x = x[:-1]
            row.append(x)
        if i < n and raw[i] == 13 and (i + 1 == n or raw[i + 1] == 10):
            i += 1
        if i >= n:
            rows.append(row)
            return rows
        if raw[i] == sep:
            i += 1
            continue
        rows.append(row)
        row = []
        i += 1
        if i >= n:
            return rows


class Read(Prop):
    """files written by others: quoting of any field, CRLF, no newline at the end, more fields than types"""
    name = "read"
    quick, thorough = 10000, 80000
    flavours = ("asan",)

    def gen(self, s):
        nc = s.int(1, 4)
        ts = [s.choice(TYPES[:3] + TYPES[4:]) for _ in range(nc)]
        n = s.choice([1100, 5000]) if s.draw(40) == 39 else s.size(9)
        rows = []
        base = [[val(s, t) for t in ts] for _ in range(min(n, 8))]
        for i in range(n):
            rows.append(base[i % len(base)])
        return dict(t=ts, r=rows, sep=s.choice(SEPS[:4]), crlf=s.draw(3) == 2, end=s.draw(3) != 2, extra=s.draw(4) == 3,
                    q=[s.draw(2) for _ in range(7)], short=n > 0 and nc > 1 and s.draw(8) == 7, pad=s.draw(5) == 4)

    def field(self, t, x, sep, quote, last):
        if t == LIST:
            b = x
        elif t == F64:
            b = b"" if x != x else repr(float(x)).encode()
        elif t == B8:
            b = b"true" if x else b"false"
        elif t == U8:
            b = b"%d" % x
        elif isnull(t, x):
            b = b""
        else:
            b = text.text1(t, x).encode("latin1") if t != SYM else x
        if quote or sep in b or b'"' in b or b"\n" in b or b"\r" in b or (last and not b and t in (LIST, SYM)):
            b = b'"' + b.replace(b'"', b'""') + b'"'
        return b

    def run(self, c, env):
        d = env.driver("asan")
        ts, names, sep = c["t"], COLS[:len(c["t"])], c["sep"]
        nl = b"\r\n" if c["crlf"] else b"\n"
        lines = [sep.join(names + ([b"more"] if c["extra"] else []))]
        k = 0
        for r in c["r"]:
            l = []
            for i, (t, x) in enumerate(zip(ts, r)):
                k += 1
                l.append(self.field(t, x, sep, c["q"][k % len(c["q"])], i == len(ts) - 1))
            if c["extra"]:
                l.append(b"9")
            lines.append(sep.join(l))
        if c["short"]:
            lines[-1] = b"1"
        raw = nl.join(lines) + (nl if c["end"] or not lines[-1] else b"")
        f = os.path.join(env.fresh_dir(), "t.csv")
        with open(f, "wb") as h:
            h.write(raw)
        os.chmod(f, 0o444)
        d.set("cpath", Vec(C8, f.encode()))
        d.set("ctypes", Vec(SYM, [NAME[t] for t in ts]))
        d.set("csep", Atom(C8, sep[0]))
        r = d.evaln("(read-csv ctypes cpath csep)", 20)
        if c["short"]:
            if not isinstance(r, Err):
                raise Fail("a line without all the fields is accepted: %r is read as %r" % (raw[:300], r))
            return ["short"]
        m = diff(ts, names, [cells(t, [x[i] for x in c["r"]]) for i, t in enumerate(ts)], r)
        if m:
            raise Fail("the table read from %r %s" % (raw[:500], m))
        return ["crlf" if c["crlf"] else "lf", "end" if c["end"] else "noend"]

    def nontrivial(self, c, l):
        return len(c["r"]) > 0

    def describe(self, c):
        return repr({k: (v if k != "r" else v[:8]) for k, v in c.items()})


class Garbage(Prop):
    """any file is a table or an error, the same one with any number of cores, and nothing is lost"""
    name = "garbage"
    quick, thorough = 12000, 200000
    flavours = ("asan", "rel")

    def gen(self, s):
        alpha = s.choice([b'a1,"\n', b'ab,;"\n\r 01.-:', None])
        n = s.size(60)
        raw = bytes(s.choice(alpha) if alpha else s.draw(256) for _ in range(n))
        if s.draw(3) == 2:
            raw = b"a,b,c\n" + raw
        ts = [s.choice([I64, I32, F64, SYM, C8, DATE, TIME, TS, GUID, U8, B8, I16]) for _ in range(s.int(1, 4))]
        odd = s.choice([b"LIST", b"TABLE", b"i64", b"nope", b"ENUM", b"DICT"]) if s.draw(16) == 15 else None
        return dict(t=ts, raw=raw, rep=s.choice([500, 3000]) if s.draw(30) == 29 else 1, odd=odd)

    def run(self, c, env):
        raw = c["raw"]
        if c["rep"] > 1:
            head, _, tail = raw.partition(b"\n")
            raw = head + b"\n" + (tail + b"\n") * c["rep"]
        f = os.path.join(env.fresh_dir(), "t.csv")
        with open(f, "wb") as h:
            h.write(raw)
        res = []
        for fl, cores in (("asan", 1), ("rel", 1), ("rel", 4)):
            d = env.driver(fl, cores=cores)
            d.set("cpath", Vec(C8, f.encode()))
            d.set("ctypes", Vec(SYM, [NAME[t] for t in c["t"]] + ([c["odd"]] if c["odd"] else [])))
            r = d.evaln("(read-csv ctypes cpath)", 20)
            if not isinstance(r, Err) and not (isinstance(r, Pair) and r.t == TABLE):
                raise Fail("reading of %r gives %r" % (raw[:300], r))
            res.append(r)
        for x in res[1:]:
            if isinstance(x, Err) != isinstance(res[0], Err) or not isinstance(x, Err) and not same(x, res[0]):
                raise Fail("reading of %r gives %r and %r" % (raw[:300], res[0], x))
        if c["rep"] == 1:
            d = env.driver("rel")
            x, y = d.live("(read-csv ctypes cpath)", 5), d.live("(read-csv ctypes cpath)", 15)
            if y > x and d.live("(read-csv ctypes cpath)", 40) > d.live("(read-csv ctypes cpath)", 10):
                raise Fail("reading of %r keeps memory" % (raw[:300],))
        return ["error" if isinstance(res[0], Err) else "table"]

    def nontrivial(self, c, l):
        return l == ["table"]

    def describe(self, c):
        return "%r x%d as %s" % (c["raw"], c["rep"], [NAME[t] for t in c["t"]] + [c["odd"]])


if __name__ == "__main__":
    run_check("C20", [Round(), Read(), Garbage()], rule="the table has rows")
