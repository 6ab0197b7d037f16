import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, text
from gen import *
import numpy as np

ALL = [B8, U8, C8, I16, I32, I64, F64, DATE, TIME, TS, SYM, GUID]
EXACT = [B8, U8, I16, I32, I64, F64, DATE, TIME, TS, SYM]
TERM = b")]}: \t\r\n"      # a quote before one of these is the null symbol
DAYNS = 86400 * 10**9
TSD = (-106751, 106750)


def val(s, t, null=True):
    """a value with a printable, exactly known text"""
    if null and hasnull(t) and s.draw(10) == 9:
        return nullof(t)
    if t == DATE:
        k = s.draw(4)
        if k == 0:
            return s.zint(-40000, 40000)
        if k == 1:      # around month and year ends, leap days
            import datetime
            y = s.choice([1, 4, 100, 400, 1600, 1899, 1900, 1970, 1999, 2000, 2001, 2023, 2024, 2100, 2400, 9999])
            m, dd = s.choice([(1, 1), (2, 28), (3, 1), (12, 31), (2, 29), (6, 30), (7, 1)])
            if (m, dd) == (2, 29) and not (y % 4 == 0 and (y % 100 or y % 400 == 0)):
                dd = 28
            return (datetime.date(y, m, dd) - datetime.date(2000, 1, 1)).days
        return s.int(DATE_LO, DATE_HI)
    if t == TIME:
        return s.choice([s.draw(86400000), s.zint(-86400000, 86400000), s.zint(-359999999, 359999999), s.zint(-5, 5), 86399999, 86400000,
                         3599999, 3600000, 59999, 60000])
    if t == TS:
        day = s.choice([s.zint(-3, 3), s.int(*TSD), s.zint(-20000, 20000)])
        return day * DAYNS + s.choice([0, 1, DAYNS - 1, s.draw(DAYNS), s.draw(86400) * 10**9, s.draw(10**9)])
    if t == F64:
        return s.choice([s.zint(-10**8, 10**8) / 100.0, s.zint(-10**8, 10**8) / 64.0, s.zint(-2000, 2000) / 8.0, scalar(s, F64, False)])
    if t == C8:
        return s.choice([32 + s.draw(95), 1 + s.draw(255)])
    if t == U8:
        return s.draw(256)
    return scalar(s, t, False)


def atom(s, t, null=True):
    return Atom(t, val(s, t, null))


def vect(s, t, n, null=True):
    l = [val(s, t, null) for _ in range(n)]
    return Vec(C8, bytes(l)) if t == C8 else Vec(t, l)


# ------------------------------------------------------------------ source literals
def frac(s):
    """decimal float text and its value"""
    a, k = s.zint(-10**6, 10**6), s.draw(5)
    sg = "-" if a < 0 else ""
    a = abs(a)
    if k == 0:
        d = s.int(1, 6)
        b = s.draw(10**d)
        x = "%s%d.%0*d" % (sg, a, d, b)
    elif k == 1:
        x = "%s%d.%d" % (sg, a, s.draw(10))
    elif k == 2:
        x = "%s%d.%02de%s%d" % (sg, a % 1000, s.draw(100), s.choice(["", "-", "+"]), s.draw(16))
    elif k == 3:
        x = "%s%d." % (sg, a)
    else:
        return "%s%df" % (sg, a), float(sg + str(a))
    return x, float(x if x[-1] != "." else x + "0")


def literal(s, t, invec=False):
    """(source text, value)"""
    if t == C8:
        c = s.choice([32 + s.draw(95), 1 + s.draw(126), 1 + s.draw(255)])
        esc = {10: "\\n", 13: "\\r", 9: "\\t", 92: "\\\\", 39: "\\'"}
        if c in esc and (c != 39 or s.draw(2)):
            return "'%s'" % esc[c], c
        if c < 32 or (c > 126 or s.draw(8) == 7) and s.draw(2):
            return "'\\%03o'" % c, c
        if c in TERM:
            return "'\\%03o'" % c, c
        return b"'%c'" % c, c
    if t == F64:
        if s.draw(10) == 9:
            return "0Nf", float("nan")
        return frac(s)
    v = val(s, t)
    if t == SYM and v is None:
        return ("0Ns" if invec or s.draw(2) else "'"), None
    if t in (I16, I32, I64) and not isnull(t, v):
        z = s.choice(["", "", "0", "00"])
        return ("-" if v < 0 else "") + z + "%d" % abs(v) + {I16: "h", I32: "i", I64: s.choice(["", "", "l"])}[t], v
    if t == TIME and not isnull(t, v) and s.draw(4) == 3:
        v = v - v % 1000 if v >= 0 else -(-v - -v % 1000)
        ms = s.draw(10)
        x = text.text1(TIME, v)[:-4]
        if abs(v) + ms <= 359999999 and s.draw(2) and v != 0:
            return x + ".%d" % ms, v + ms if v > 0 else v - ms
        return (x, v)
    if t == DATE and not isnull(t, v) and abs(v) < 2**30 and s.draw(8) == 7 and v >= 0:
        return "%dd" % v, v
    if t == U8:
        return s.choice(["0x%02x", "0x%02X", "%dx" if v else "0x%02x"]) % v, v
    if t == SYM:
        return v.decode() if invec else "'" + v.decode(), v
    return text.text1(t, v), v


def string_lit(s):
    n = s.draw(9)
    src, out = [], []
    for _ in range(n):
        c = s.choice([32 + s.draw(95), 1 + s.draw(255), s.choice(b"\"\\\n\t\rn0")])
        esc = {10: b"\\n", 13: b"\\r", 9: b"\\t", 92: b"\\\\", 34: b'\\"'}
        if c in esc and (c in (92, 34) or s.draw(2)):
            src.append(esc[c])
        elif s.draw(5) == 4:
            src.append(b"\\%03o" % c)
        else:
            src.append(b"%c" % c)
        out.append(c)
    return b'"' + b"".join(src) + b'"', Vec(C8, bytes(out))


def node(s, depth):
    """(tokens, value) of a literal expression; tokens are byte strings"""
    k = s.draw(10 if depth else 7)
    t = s.choice(EXACT + [C8])
    if k < 4:
        src, v = literal(s, t)
        return [src if isinstance(src, bytes) else src.encode("latin1")], Atom(t, v)
    if k == 4:
        a, v = string_lit(s)
        return [a], v
    if k <= 6:
        t = s.choice(EXACT)
        n = s.draw(7)
        if n == 0:
            return [b"[", b"]"], Vec(I64, [])
        l = [literal(s, t, True) for _ in range(n)]
        return [b"["] + [x.encode() for x, _ in l] + [b"]"], Vec(t, [v for _, v in l])
    n = 1 + s.draw(4)
    if k <= 8:
        kids = [node(s, depth - 1) for _ in range(n)]
        return [b"(", b"list"] + [x for a, _ in kids for x in a] + [b")"], Lst([v for _, v in kids])
    names = [b"k%d" % i for i in range(n)]
    kids = [node(s, 0) for _ in range(n)]
    toks = [b"{"]
    for nm, (a, _) in zip(names, kids):
        toks += [nm, b":"] + a
    return toks + [b"}"], Pair(DICT, Vec(SYM, names), Lst([v for _, v in kids]))


def sep(s, must):
    k = s.draw(12)
    if k < 4:
        return b" " if must else b""
    return s.choice([b" ", b"  ", b"\t", b"\n", b"\r\n", b"\n\n  ", b" ; note ) ] } \" '\n", b" ;;\n ", b" ; (a [b\n\t"]) if k < 11 or must else b""


def layout(s, toks, plain):
    out, prev = b"", b"("
    for x in toks:
        must = not (prev in (b"(", b"[", b"{", b":") or x in (b")", b"]", b"}", b":"))
        if prev in (b"[", b"(", b"{") and x == b"'" or x in (b")", b"]", b"}") and prev.startswith(b"'"):
            must = True
        out += (b" " if must else b"") if plain else sep(s, must)
        out += x
        prev = x
    return out


def nest_same(a, b):
    """same, floats within 1e-12 relative (the decimal reader is not correctly rounded), homogeneous lists may be vectors"""
    if isinstance(a, Atom) and isinstance(b, Atom) and a.t == b.t == F64:
        return a.v == b.v or (a.v != a.v and b.v != b.v) or abs(a.v - b.v) <= 1e-12 * max(abs(a.v), abs(b.v))
    if isinstance(a, Vec) and isinstance(b, Vec) and a.t == b.t == F64 and len(a) == len(b):
        return bool(np.allclose(a.a, b.a, rtol=1e-12, atol=0, equal_nan=True))
    if isinstance(a, Lst) and isinstance(b, Lst):
        return len(a) == len(b) and all(nest_same(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Lst) and isinstance(b, Vec) and b.t != C8 and len(a) == len(b) > 0:
        return all(isinstance(x, Atom) and x.t == b.t for x in a.a) and nest_same(Vec(b.t, [x.v for x in a.a]), b)
    if isinstance(a, Lst) and isinstance(b, Vec) and b.t == C8 and len(a) == len(b):
        return all(isinstance(x, Atom) and x.t == C8 for x in a.a) and bytes(x.v for x in a.a) == b.a
    if isinstance(a, Pair) and isinstance(b, Pair):
        return same(a.k, b.k) and nest_same(a.v, b.v)
    return same(a, b)


class Literal(Prop):
    """source text of any type, in any layout, denotes exactly the written value"""
    name = "literal"
    quick, thorough = 12000, 200000

    def gen(self, s):
        toks, v = node(s, 2)
        return dict(a=layout(s, toks, True), b=layout(s, toks, False), v=v, fl="asan" if s.draw(4) == 3 else "rel")

    def run(self, c, env):
        d = env.driver(c["fl"])
        for src in (c["a"], c["b"]):
            g = d.eval(src)
            if not nest_same(c["v"], g):
                raise Fail("source %r denotes %r, evaluated to %r" % (src, c["v"], g))
        return [NAME.get(c["v"].t), type(c["v"]).__name__]

    def nontrivial(self, c, labels):
        return len(c["a"]) > 2

    def describe(self, c):
        return "%r / %r" % (c["a"], c["b"])


class Printed(Prop):
    """the printed form of a value is the documented rendering of exactly that value"""
    name = "printed"
    quick, thorough = 12000, 200000

    def value(self, s, depth):
        k = s.draw(9 if depth else 6)
        t = s.choice(ALL)
        if k < 3:
            return atom(s, t)
        if k < 6:
            return vect(s, t, s.choice([s.draw(6), s.draw(30)]))
        if k < 8:
            return Lst([self.value(s, depth - 1) for _ in range(s.choice([s.draw(4), s.draw(5), 49 + s.draw(4)]))])
        n = s.choice([s.draw(5), 49 + s.draw(4)])
        ks = s.choice([lambda: Vec(SYM, [b"k%d" % i for i in range(n)]), lambda: Vec(I64, list(range(n))), lambda: vect(s, s.choice(EXACT), n)])()
        return Pair(DICT, ks, s.choice([lambda: Lst([self.value(s, 0) for _ in range(n)]), lambda: vect(s, s.choice(ALL), n)])())

    def gen(self, s):
        return dict(v=self.value(s, 2), w=self.value(s, 1), fl="asan" if s.draw(4) == 3 else "rel", how=s.draw(3),
                    f=[s.choice([b"", b"a", b"x = ", b"\n", b"100", b"\xc3\xa9"]) for _ in range(3)])

    def run(self, c, env):
        d = env.driver(c["fl"])
        v, w = c["v"], c["w"]
        d.set("v", v)
        if c["how"] == 0:
            g, want, op = d.fmt("v"), text.block(v), "printed form"
        elif c["how"] == 1:
            d.set("f", Vec(C8, c["f"][0] + b"%" + c["f"][1]))
            g, want, op = d.eval("(format f v)"), c["f"][0].decode("latin1") + text.text(v, False) + c["f"][1].decode("latin1"), "format"
        else:
            d.set("w", w)
            d.set("f", Vec(C8, c["f"][0] + b"%" + c["f"][1] + b"%" + c["f"][2]))
            g = d.eval("(format f v w)")
            p = [x.decode("latin1") for x in c["f"]]
            want, op = p[0] + text.text(v, False) + p[1] + text.text(w, False) + p[2], "format"
        if isinstance(g, Vec):
            g = g.a
        if g != want.encode("latin1"):
            raise Fail("%s of v=%r w=%r f=%r is %r, expected %r" % (op, v, w, c["f"], g, want.encode("latin1")))
        return [op, type(v).__name__, NAME.get(v.t, "")]

    def nontrivial(self, c, labels):
        return not isinstance(c["v"], (Vec, Lst)) or len(c["v"]) > 0

    def describe(self, c):
        return "how=%d v=%r w=%r" % (c["how"], c["v"], c["w"])


class Back(Prop):
    """printing and reading back gives the value"""
    name = "back"
    quick, thorough = 8000, 150000

    def one(self, s, t, null=True):
        if t == F64:
            v = s.zint(-10**8, 10**8)
            if abs(v) < 11:
                v = 0
            return v / 100.0
        if t == C8:
            v = val(s, t)
            return v if v not in b"\\" + TERM.replace(b"\n", b"").replace(b"\r", b"").replace(b"\t", b"") else 65
        if t == SYM:
            return s.choice(WORDS[:-2])
        return val(s, t, null and t not in (I16, I32))

    def gen(self, s):
        t = s.choice([B8, U8, C8, I16, I32, I64, F64, DATE, TIME, TS, SYM])
        k = s.draw(3)
        if k == 0:
            v = Atom(t, self.one(s, t))
            if t == SYM:
                v = vec_of(t, [v.v])
        elif k == 1:
            v = vec_of(t, [self.one(s, t) for _ in range(1 + s.draw(9))])
        else:
            ks = [s.choice([b"a", b"b", b"key", b"x1"]) + b"%d" % i for i in range(1 + s.draw(5))]
            tt = [s.choice([I64, F64, DATE, TIME, TS, B8, U8]) for _ in ks]
            v = Pair(DICT, Vec(SYM, ks), Lst([Vec(u, [self.one(s, u) for _ in range(1 + s.draw(4))]) for u in tt]))
        return dict(v=v)

    def eq(self, v, g):
        if isinstance(v, Pair):
            return isinstance(g, Pair) and same(v.k, g.k) and nest_same(v.v, g.v)
        if v.t in (I16, I32):
            if type(v) is not type(g) or g.t != I64:
                return False
            return list(map(int, v.a)) == list(map(int, g.a)) if isinstance(v, Vec) else int(v.v) == g.v
        return nest_same(v, g)

    def run(self, c, env):
        d = env.driver()
        v = c["v"]
        d.set("v", v)
        x = d.fmt("v")
        if not isinstance(x, bytes):
            raise Fail("no text for %r: %r" % (v, x))
        if len(x) >= 80 and not isinstance(v, Pair) or b".." in x and isinstance(v, Pair):
            raise Skip("abbreviated")
        g = d.eval(x)
        if not self.eq(v, g):
            raise Fail("%r prints as %r, which reads back as %r" % (v, x, g))
        return [NAME.get(v.t), type(v).__name__]

    def describe(self, c):
        return repr(c["v"])


class TableText(Prop):
    """a printed table shows its names, types and every cell of the rows it shows, and the true row and column counts"""
    name = "table"
    quick, thorough = 2500, 30000

    def gen(self, s):
        nc, n = 1 + s.draw(12), s.choice([s.draw(5), s.draw(30), 19 + s.draw(4)])
        cols = []
        for _ in range(nc):
            k = s.draw(8)
            if k == 7 and n:
                cols.append(Lst([Vec(C8, bytes(s.choice(b"abcXYZ019 _\"\\%-+*.\t") for _ in range(s.draw(8)))) if s.draw(2) else vect(s, I64, s.draw(4)) for _ in range(n)]))
            else:
                cols.append(vect(s, s.choice([x for x in ALL if x != C8]), n))
        return dict(names=[b"c%d" % i + s.choice([b"", b"x", b"longname"]) for i in range(nc)], cols=cols, n=n)

    def run(self, c, env):
        d = env.driver()
        d.set("t", Pair(TABLE, Vec(SYM, c["names"]), Lst(c["cols"])))
        x = d.fmt("t").decode("utf8", "replace")
        nc, n = len(c["names"]), c["n"]
        sc, sr = min(nc, 10), min(n, 20)
        rows = [[z.strip(" ") for z in l.split("│")[1:-1]] for l in x.split("\n") if "│" in l]
        rows = [r[:sc] for r in rows if not any("─" in z for z in r)]
        order = list(range(sr // 2)) + list(range(n - (sr - sr // 2), n))
        want = [[a.decode() for a in c["names"][:sc]]]
        ps = [text.parts(col) for col in c["cols"][:sc]]
        cells = [[p[i].strip(" ") for p in ps] for i in order]
        got = [r for r in rows if r[0] not in ("┆", "…")]
        if not got or got[0] != want[0]:
            raise Fail("header of the printed table is %r, expected %r\n%s" % (got[:1], want, x))
        tail = got[-1][0] if got else ""
        foot = "%d rows (%d shown) %d columns (%d shown)" % (n, sr, nc, sc)
        if tail != foot:
            raise Fail("footer %r, expected %r" % (tail, foot))
        body = got[1:-1]
        if body and len(body) == sr + 1:
            if body[0][0].lower() not in (NAME[c["cols"][0].t].lower(), "char", "string", "list"):
                raise Fail("type line %r\n%s" % (body[0], x))
            body = body[1:]
        body = [r for r in body if not all(set(z) <= set("┆…. ") for z in r)] if len(body) != sr else body
        if len(body) == sr:
            for i, (r, w) in enumerate(zip(body, cells)):
                for j in range(sc):
                    if r[j] != w[j] and not (len(w[j]) > 36 and r[j].rstrip(".").rstrip("]").rstrip(".")[:20] == w[j][:20]):
                        raise Fail("row %d column %d of the printed table shows %r, the value is %r\n%s" % (i, j, r[j], w[j], x))
        else:
            raise Fail("%d body lines shown, footer says %d\n%s" % (len(body), sr, x))
        return ["rows%d" % (n > 20), "cols%d" % (nc > 10)]

    def nontrivial(self, c, labels):
        return c["n"] > 0

    def describe(self, c):
        return "%r %r" % (c["names"], c["cols"])


class Refused(Prop):
    """text that denotes no value of its form is refused, never read as another value"""
    name = "refused"
    quick, thorough = 4000, 60000

    def gen(self, s):
        k = s.draw(11)
        ts = text.text1(TS, val(s, TS, False))
        if k == 0:
            src = "%dh" % s.choice([32768, -32768, 32768 + s.draw(10**9), -32768 - s.draw(10**9)])
        elif k == 1:
            src = "%di" % s.choice([2**31, -2**31, 2**31 + s.draw(2**40), -2**31 - s.draw(2**40)])
        elif k == 2:
            src = "%dx" % s.choice([256, 256 + s.draw(10**9), -1 - s.draw(300)])
        elif k == 3:
            src = "0x" + s.choice(["", "g", "1", "z1", "1g"])
        elif k == 4:
            src = "%04d.%02d.%02d" % (s.int(1, 9999), s.int(13, 99), s.int(1, 28))
        elif k == 5:
            src = "%04d.%02d.%02d" % (s.int(1, 9999), s.int(1, 12), s.int(32, 99))
        elif k == 6:
            p, w = s.choice([(11, 24), (14, 60), (17, 60)])
            src = ts[:p] + "%02d" % s.int(w, 99) + ts[p + 2:]
        elif k == 7:
            src = s.choice(["'\\q'", "'\\8'", "'\\12'", '"\\q"', '"\\9"', '"a\\1"', '"\\xff"', '"\\08a"'])
        elif k == 8:
            a, b = s.choice(["1", "'a", "0x01", "true", "2024.01.01", "10:00:00.000", "1i"]), s.choice(["\"s\"", "'c'", "[1]", "{a: 1}"])
            src = "[%s %s]" % ((a, b) if s.draw(2) else (b, a))
        elif k == 9:
            t, u = s.choice(EXACT), s.choice(EXACT)
            if t == u or F64 in (t, u) or t == I64 and u == I64:
                t, u = B8, SYM
            a, b = literal(s, t, True)[0], literal(s, u, True)[0]
            src = "[%s %s]" % (a, b)
        else:
            x = layout(s, node(s, 2)[0], True)
            src = s.choice([b"(", b"[", b"{", b"(list 1 ", b"(list [1 2] "]) + x
        return dict(src=src if isinstance(src, bytes) else src.encode(), k=k, fl="asan" if s.draw(3) == 2 else "rel")

    def run(self, c, env):
        d = env.driver(c["fl"])
        g = d.eval(c["src"])
        if not isinstance(g, Err):
            raise Fail("%r must be refused, was read as %r" % (c["src"], g))
        if not same(d.eval("(+ 1 2)"), i64(3)):
            raise Fail("session unusable after %r" % c["src"])
        return ["kind%d" % c["k"]]

    def describe(self, c):
        return repr(c["src"])


class BigInt(Prop):
    """an integer literal beyond 64 bits is never read as some other integer"""
    name = "bigint"
    quick, thorough = 800, 8000

    def gen(self, s):
        n = s.choice([2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 5, 10**19, 10**20 - 1, 2**63 + s.draw(2**63), 10**s.int(20, 40) + s.draw(10**9)])
        return dict(n=-n if s.draw(2) and n != 2**63 else n)

    def run(self, c, env):
        g = env.driver().eval("%d" % c["n"])
        if isinstance(g, Err) or isinstance(g, Atom) and g.t == F64 and abs(g.v - c["n"]) <= 1e-9 * abs(c["n"]):
            return ["err" if isinstance(g, Err) else "f64"]
        raise Fail("%d was read as %r" % (c["n"], g))

    def describe(self, c):
        return str(c["n"])


if __name__ == "__main__":
    sys.exit(run_check("C07", [Literal(), Printed(), Back(), TableText(), Refused(), BigInt()],
                       rule="the text or value is non-empty; distinct by source text / value",
                       assumptions=["a decimal float literal is read to within 1e-12 relative", "printed floats carry two decimals (the default precision)",
                                    "day-of-month overflow up to 31 (2024.02.30) and hour/minute overflow in time literals are accepted leniently and not judged",
                                    "backslashes in strings are printed as they are and excluded from the read-back clause"]))
