import sys, os, time, datetime
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref, prov, text
from gen import *
import numpy as np

NT = [I64, F64, I32, I16, U8, B8, DATE, TIME, TS]
NAMES = {I64: "I64", F64: "F64", I32: "I32", I16: "I16", U8: "U8", B8: "B8", DATE: "DATE", TIME: "TIME", TS: "TIMESTAMP", SYM: "SYMBOL", GUID: "GUID", C8: "C8"}
BITS = {U8: 8, B8: 8, I16: 16, I32: 32, DATE: 32, TIME: 32, I64: 64, TS: 64}
OPEN = object()


def atom_ok(to, fr):
    return True


def vec_ok(to, fr):
    """vector casts that exist"""
    if to == fr:
        return True
    return not (to in (U8, B8) and fr in (U8, B8))


def conv(to, fr, x):
    """reference: the value of type to for x of type fr, or OPEN"""
    if to == fr:
        return x
    nul = isnull(fr, x)
    if to == B8:
        return OPEN if nul else int(x != 0)
    if to == U8:
        if nul:
            return OPEN
        if fr == F64:
            return int(x) if 0 <= x < 256 else OPEN
        return x & 255
    if nul:
        return nullof(to)
    if to == F64:
        return float(x)
    if fr == F64:
        y = int(x)
    else:
        y = x
    b = BITS[to]
    if -(1 << (b - 1)) < y < 1 << (b - 1):
        return y
    return OPEN


def eq(t, g, w):
    if w is OPEN:
        return True
    if t == F64:
        return g != g if w != w else g == w
    return g == w


class Casts(Prop):
    """casts between numeric, boolean and temporal types: atoms, vectors, lists; every origin of the operand"""
    name = "casts"
    quick, thorough = 20000, 200000

    def gen(self, s):
        fr, to = s.choice(NT), s.choice(NT)
        shape = s.choice(["atom", "vec", "vec", "list", "big", "hist"] if s.draw(6) == 0 else ["atom", "vec", "list"])
        lo, hi = RANGE.get(to, (None, None))
        def v():
            if s.draw(3) and lo is not None and fr in RANGE:
                m = min(hi, RANGE[fr][1])
                return s.zint(max(lo, RANGE[fr][0]), m) if s.draw(4) else s.choice([m, max(lo, RANGE[fr][0])])
            if s.draw(3) and fr == F64 and to != F64:
                return s.zint(-300, 300) / 4.0
            return scalar(s, fr)
        c = dict(fr=fr, to=to, shape=shape, low=s.draw(2), how=s.draw(3))
        if shape == "atom":
            c["v"] = Atom(fr, v())
        elif shape == "vec":
            c["v"] = vec_of(fr, [v() for _ in range(s.size(12))])
        elif shape == "list":
            c["v"] = Lst([Atom(f, scalar(s, f, mag=200)) for f in [s.choice(NT) for _ in range(s.int(1, 5))]])
        elif shape == "big":
            c["v"] = big_array(s, fr, mag=s.choice([100, 30000, 10**9]))
        else:
            c["v"] = None
            c["h"] = prov.gen_history(s)
            c["asan"] = s.draw(3) == 0
        return c

    def run(self, c, env):
        d = env.driver("asan" if c.get("asan") else "rel", cores=1)
        to = c["to"]
        nm = NAMES[to]
        if c["shape"] == "hist":
            v = prov.build(c["h"], d)
            if v is None or v.t not in NT:
                raise Skip("operand")
            e = "(as '%s r)" % nm
        else:
            v = c["v"]
            b = Binder(d)
            if c["shape"] == "atom" or (c["low"] and c["shape"] != "list"):
                nm = nm.lower()
            arg = b.put(v, c["how"])
            e = "(as '%s %s)" % (nm, arg)
        g = d.eval(e)
        what = "%s with %r gave %r" % (e, v, g)
        if isinstance(v, Atom):
            w = conv(to, v.t, v.v)
            if not (isinstance(g, Atom) and g.t == to and eq(to, g.v, w)):
                raise Fail(what + ", expected %s %r" % (NAMES[to], w))
            return ["atom", "open" if w is OPEN else "def"]
        if isinstance(v, Lst):
            w = [conv(to, x.t, x.v) for x in v.a]
        else:
            if not vec_ok(to, v.t) and len(v):
                if not isinstance(g, Err):
                    raise Fail(what + ", it has to be refused")
                return ["refused"]
            w = [conv(to, v.t, x) for x in ref.elems(v)]
        if not (isinstance(g, Vec) and g.t == to and len(g) == len(w)):
            raise Fail(what)
        for i, (x, y) in enumerate(zip(ref.elems(g), w)):
            if not eq(to, x, y):
                raise Fail("%s: element %d is %r, expected %r" % (what, i, x, y))
        if c["shape"] == "hist" or arg in ("v1",):
            if not same(d.eval("r" if c["shape"] == "hist" else arg), v):
                raise Fail(what + " and changed its operand")
        return [c["shape"], "def" if any(y is not OPEN for y in w) else "open"]

    def nontrivial(self, c, labels):
        return "def" in labels and c["fr"] != c["to"]

    def describe(self, c):
        return "%s -> %s %s" % (NAME[c["fr"]], NAME[c["to"]], c["shape"] if c["v"] is None else repr(c["v"])[:200])


class Strings(Prop):
    """text to values and back: numbers, temporals, guids, symbols"""
    name = "strings"
    quick, thorough = 8000, 80000

    def gen(self, s):
        t = s.choice([I64, I32, I16, U8, F64, DATE, TIME, TS, GUID, SYM])
        v = scalar(s, t, null=False)
        if t == DATE:
            v = s.int(DATE_LO, DATE_HI) if s.draw(2) else s.zint(-40000, 40000)
        if t == TIME:
            v = s.draw(86400000)
        if t == TS:
            v = s.int(-36000, 80000) * 86400 * 10**9 + s.draw(86400 * 10**9)
        if t == F64:
            v = s.zint(-10**6, 10**6) / s.choice([1, 2, 4, 8, 10, 100, 1000])
        if t == SYM:
            v = s.choice(WORDS + [b"with space", b"(paren", b"1", b"-5"])
        return dict(t=t, v=v, k=s.choice(["parse", "parse", "junk", "back", "sym"]), pad=s.draw(3), tail=s.choice(["", "", "x", " ", ".", "-"]), list=s.draw(4) == 0, up=s.draw(2))

    def textof(self, c):
        t, v = c["t"], c["v"]
        if t in (I64, I32, I16, U8):
            return "%d" % v
        if t == F64:
            return repr(float(v)) if "e" not in repr(float(v)) else None
        if t in (DATE, TIME, TS):
            return lit1(t, v)
        if t == GUID:
            h = v.hex()
            h = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
            return h.upper() if c["up"] else h
        return v.decode()

    def run(self, c, env):
        d = env.driver("rel", cores=1)
        t, v, k = c["t"], c["v"], c["k"]
        nm = NAMES[t].lower()
        tx = self.textof(c)
        if tx is None:
            raise Skip("no text")
        if k == "junk":
            if t in (SYM, U8):
                raise Skip("any text")
            junk = ["abc", "x1", "--", "?", " ", "z.z.z", "T", "::"][(len(tx) * 3 + c["pad"] + c["up"] * 4) % 8]
            d.set("x", chars(junk))
            g = d.eval("(as '%s x)" % nm)
            if not (isinstance(g, Atom) and g.t == t and isnull(t, g.v)):
                raise Fail("(as '%s %r) gave %r, text that is no %s has to give null" % (nm, junk, g, nm))
            return ["junk"]
        if k == "back":
            if t == F64:
                raise Skip("printed with two decimals")
            if t == SYM:
                a = Atom(SYM, v)
            else:
                a = Atom(t, v)
            d.set("x", a)
            e = "(as '%s (as 'C8 x))" % nm
            if t == U8:
                raise Skip("printed in hexadecimal")
            g = d.eval(e)
            if not same(g, a):
                raise Fail("%s with x=%r gave %r" % (e, a, g))
            return ["back"]
        if k == "sym":
            if t in (I64, I32, I16, U8):
                w = b"%d" % v
            elif t in (DATE, TIME, TS, GUID):
                w = text.text1(t, v).encode()
            elif t == SYM:
                w = v
            else:
                w = None
            if w is None:
                raise Skip("form")
            d.set("x", Atom(t, v))
            g = d.eval("(as 'symbol x)")
            if not same(g, Atom(SYM, w)):
                raise Fail("(as 'symbol %r) gave %r, expected '%r" % (Atom(t, v), g, w))
            if t == I64:
                d.set("x", Vec(I64, [v, 1]))
                g = d.eval("(as 'SYMBOL x)")
                if not same(g, Vec(SYM, [w, b"1"])):
                    raise Fail("(as 'SYMBOL [%d 1]) gave %r" % (v, g))
            return ["sym"]
        tail = c["tail"] if t in (I64, I32, I16, U8) and c["tail"] != "." or t == F64 and c["tail"] in ("x", " ", "-") else ""
        pad = " " * c["pad"] if t in (I64, I32, I16, U8, F64) else ""
        d.set("x", chars(pad + tx + tail))
        if c["list"]:
            if t == SYM and not tx:
                raise Skip("empty")
            g = d.eval("(as '%s (list x x))" % NAMES[t])
            if isinstance(g, Vec) and len(g) == 2 and g.t == t and repr(ref.elems(g)[0]) == repr(ref.elems(g)[1]):
                g = Atom(t, ref.elems(g)[0])
        else:
            g = d.eval("(as '%s x)" % nm)
        ok = isinstance(g, Atom) and g.t == t and (abs(g.v - v) <= 1e-9 * max(1, abs(v)) if t == F64 else g.v == v)
        if not ok:
            raise Fail("(as '%s %r) gave %r, expected %r" % (nm, pad + tx + tail, g, v))
        return ["parse"]

    def nontrivial(self, c, labels):
        return True

    def describe(self, c):
        return "%s %r %s" % (NAME[c["t"]], c["v"], c["k"])


class Chain(Prop):
    """widening casts lose nothing: there and back gives the same vector, and casts commute with selecting and reversing"""
    name = "chain"
    quick, thorough = 1500, 15000
    UP = [(I16, I32), (I16, I64), (I32, I64), (DATE, I32), (TIME, I32), (DATE, I64), (TIME, I64), (TS, I64), (I64, TS), (I32, DATE), (I32, TIME),
          (I16, F64), (I32, F64), (I32, TS), (DATE, TS), (U8, I16), (U8, I32), (U8, I64), (U8, F64), (B8, I64), (B8, I16), (B8, F64), (DATE, TIME), (TIME, DATE)]

    def gen(self, s):
        a, b = s.choice(self.UP)
        return dict(a=a, b=b, v=big_array(s, a) if s.draw(6) == 0 else small_vec(s, a, n=s.int(1, 20)), op=s.choice(["reverse", "take", "asc-free"]), cores=s.choice([1, 1, 4]))

    def run(self, c, env):
        d = env.driver("rel", cores=c["cores"])
        d.set("x", c["v"])
        A, B = NAMES[c["a"]], NAMES[c["b"]]
        g = d.eval("(as '%s (as '%s x))" % (A, B))
        if not same(g, c["v"]):
            raise Fail("(as '%s (as '%s x)) with x = %r gave %r" % (A, B, c["v"], g))
        e1, e2 = {"reverse": ("(reverse (as '%s x))" % B, "(as '%s (reverse x))" % B), "take": ("(take (as '%s x) -3)" % B, "(as '%s (take x -3))" % B),
                  "asc-free": ("(at (as '%s x) [0 0])" % B, "(as '%s (at x [0 0]))" % B)}[c["op"]]
        p, q = d.eval(e1), d.eval(e2)
        if not same(p, q):
            raise Fail("%s is %r but %s is %r for x = %r" % (e1, p, e2, q, c["v"]))
        return [A + B]

    def nontrivial(self, c, labels):
        return True

    def describe(self, c):
        return "%s %s %s" % (NAME[c["a"]], NAME[c["b"]], repr(c["v"])[:200])


class Clock(Prop):
    """date, time and timestamp agree with the system clock in the process's time zone"""
    name = "clock"
    quick, thorough = 12, 60
    workers = 2

    def gen(self, s):
        return dict(off=s.int(-14 * 4, 14 * 4) * 15, u=s.choice(["utc", "global", "local"]))

    def run(self, c, env):
        import build
        o = c["off"]
        tz = "XXX%s%d:%02d" % ("-" if o > 0 else "", abs(o) // 60, abs(o) % 60)
        e = dict(os.environ, TZ=tz)
        d = Driver(build.driver("rel"), cores=1, env=e)
        try:
            ep = datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc).timestamp()
            off = o * 60 if c["u"] == "local" else 0
            for _ in range(5):
                a = time.time()
                ts, da, ti = d.eval("(timestamp '%s)" % c["u"]), d.eval("(date '%s)" % c["u"]), d.eval("(time '%s)" % c["u"])
                b = time.time()
                lo, hi = int((a - ep + off) * 1e9) - 2000000, int((b - ep + off) * 1e9) + 2000000
                day = 86400 * 10**9
                if lo // day != hi // day:
                    continue
                if not (isinstance(ts, Atom) and ts.t == TS and lo <= ts.v <= hi):
                    raise Fail("TZ=%s (timestamp '%s) gave %r, the clock says %d..%d" % (tz, c["u"], ts, lo, hi))
                if not same(da, Atom(DATE, lo // day)):
                    raise Fail("TZ=%s (date '%s) gave %r, expected %d" % (tz, c["u"], da, lo // day))
                if not (isinstance(ti, Atom) and ti.t == TIME and lo % day // 10**6 <= ti.v <= hi % day // 10**6):
                    raise Fail("TZ=%s (time '%s) gave %r" % (tz, c["u"], ti))
                break
        finally:
            d.stop()
        return [c["u"]]

    def nontrivial(self, c, labels):
        return c["off"] != 0

    def describe(self, c):
        return "UTC%+d min %s" % (c["off"], c["u"])


if __name__ == "__main__":
    sys.exit(run_check("C08", [Casts(), Strings(), Chain(), Clock()],
                       rule="a cast between two different types of which at least one element's result is defined, a text conversion, or a clock reading in a zone other than UTC",
                       assumptions=["values that do not fit the target type, and nulls cast to U8 or B8, are left open",
                                    "floats are read from text within 1e-9"]))
