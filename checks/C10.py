import sys, os, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, anyval
from gen import *

PFX = bytes([0xfa, 0xde, 0xfa, 0xce])
LENS = [0, 1, 2, 3, 7, 8, 255, 256, 65535, 1 << 20, (1 << 30) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 61), (1 << 62) + 1, (1 << 63) - 1,
        -1, -2, -8, -(1 << 31), -(1 << 62), -(1 << 63), (1 << 60) + 3, (1 << 63) - 9]
TYPES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 77, 78, 79, 97, 98, 99, 100, 101, 102, 103, 104, 126, 127] + [256 - i for i in range(1, 14)]
FUNCS = ["(fn [x y] (+ x (* y 2)))", "(fn [] 'q)", "(fn [x] (map (fn [z] (list z 'a \"s\")) x))", "sum", "+", "map", "(list sum (fn [x] x))"]


def mutate(s, b):
    """one change to the payload bytes b (bytearray)"""
    n = len(b)
    k = s.draw(9)
    p = s.draw(n) if n else 0
    if k == 0 and n:
        b[p] = s.draw(256)
    elif k == 1 and n:
        b[p] = s.choice(TYPES)
    elif k == 2 and n >= 8:
        p = s.draw(n - 7)
        b[p:p + 8] = struct.pack("<q", s.choice(LENS))
    elif k == 3:                                        # a real length field: after a type byte and the attributes
        at = [i for i in range(n - 9) if b[i + 1] in (0, 8) and 0 <= struct.unpack("<q", b[i + 2:i + 10])[0] <= 4096]
        if at:
            i = s.choice(at)
            old = struct.unpack("<q", b[i + 2:i + 10])[0]
            b[i + 2:i + 10] = struct.pack("<q", s.choice([old + 1, old - 1, max(0, old - 2), old + 8, old * 2, 0] + LENS))
    elif k == 4 and n:
        del b[p:p + s.int(1, 9)]
    elif k == 5:
        b[p:p] = bytes(s.draw(256) for _ in range(s.int(1, 9)))
    elif k == 6 and n:
        q = s.draw(n)
        b[p:p] = b[q:q + s.int(1, 30)]
    elif k == 7 and n:
        del b[p:]
    elif n:
        b[p] ^= 1 << s.draw(8)
    return b


class Corrupt(Prop):
    name = "corrupt"
    quick, thorough = 12000, 400000
    flavours = ("asan",)

    def gen(self, s):
        f = s.choice(FUNCS) if s.draw(5) == 4 else None
        c = dict(f=f, v=anyval.value(s, s.choice([2, 3, 1])), n=s.choice([1, 1, 2, 3, 6]), hdr=s.draw(8), seed=None)
        # the changes are drawn when the bytes are known: keep the choices
        c["m"] = [s.draw(1 << 30) for _ in range(c["n"])]
        return c

    def bytes(self, c, d):
        d.set("x", c["v"])
        e = "x" if c["f"] is None else "(list x %s)" % c["f"]
        b = d.eval("(ser %s)" % e)
        if isinstance(b, Err):
            raise Fail("(ser %s) for x = %r: %r" % (e, c["v"], b))
        pl = bytearray(np.asarray(b.a).tobytes()[16:])
        hd = bytearray(np.asarray(b.a).tobytes()[:16])
        for m in c["m"]:
            pl = mutate(Source(rng=random.Random(m)), pl)
        if c["hdr"] == 0:
            r = Source(rng=random.Random(c["m"][0] + 1))
            if r.draw(2):
                hd[8:16] = struct.pack("<q", r.choice(LENS + [len(pl) + 1, len(pl) - 1, -16, -len(pl)]))
            else:
                hd[r.draw(16)] = r.draw(256)
                if r.draw(2):
                    hd = hd[:r.draw(17)]
        else:
            hd[8:16] = struct.pack("<q", len(pl))
        return bytes(hd + pl), np.asarray(b.a).tobytes()

    def run(self, c, env):
        d = env.driver("asan")
        b, orig = self.bytes(c, d)
        return judge(d, b, orig)

    def nontrivial(self, c, l):
        return "unchanged" not in l

    def describe(self, c):
        return "x = %r %s changed %d times (header %s, changes %r)" % (c["v"], c["f"], c["n"], c["hdr"] == 0, c["m"])


def judge(d, b, orig=None):
    d.set("b", Vec(U8, list(b)))
    g = d.eval("(set g (de b))", 60)
    if isinstance(g, Err):
        return ["error"]
    if orig is not None and b != orig and len(orig) != len(b) and (orig.startswith(b) or b.startswith(orig)):
        raise Fail("%s, a truncation or extension of serialised data, reads as %r" % (b.hex(), g))
    t = d.fmt("g")
    if isinstance(t, Err):
        raise Fail("%s reads as a value that cannot be printed: %r" % (b.hex(), t))
    s = d.eval("(ser g)")
    if isinstance(s, Err):
        raise Fail("%s reads as %r, which cannot be serialised again: %r" % (b.hex(), g, s))
    h = d.eval("(de (ser g))")
    if not same(h, g):
        raise Fail("%s reads as %r, serialised again it reads as %r" % (b.hex(), g, h))
    for e in ("(count g)", "(first g)", "(last g)", "(reverse g)", "(at g 0)", "(take g 3)", "(list g g)", "(== g g)", "(type g)"):
        d.eval(e)
    return ["value", "unchanged" if b == orig else "changed"]


class Structured(Prop):
    """payloads written by a grammar of their own, with wrong counts and types here and there"""
    name = "structured"
    quick, thorough = 12000, 400000
    flavours = ("asan",)
    W = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 7: 4, 8: 4, 9: 8, 10: 8, 11: 16, 12: 1}

    def blob(self, s, depth, out):
        k = s.draw(12 if depth > 0 else 6)
        q = lambda n: n if s.draw(12) else max(-1, n + s.choice([1, -1, 2, 100]))
        name = lambda: s.choice([b"a", b"b", b"", b"sum", b"+", b"map", b"nosuch", b"x" * 30, b"list", b"select"])
        nul = lambda: b"\0" if s.draw(20) else b""
        if k < 3:
            t = s.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
            out.append(struct.pack("b", -t))
            out.append(name() + nul() if t == 6 else bytes(s.draw(256) for _ in range(self.W[t] if s.draw(15) else s.draw(9))))
        elif k < 6:
            t = s.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
            n = s.draw(5)
            out.append(struct.pack("bBq", t, 0 if s.draw(9) else s.draw(256), q(n)) if s.draw(40) else struct.pack("bBq", t, 0, s.choice(LENS)))
            for _ in range(n):
                out.append(name() + nul() if t == 6 else bytes(s.draw(256) for _ in range(self.W[t])))
        elif k < 8:
            n = s.draw(4)
            out.append(struct.pack("bBq", 0, s.choice([0, 0, 8, 255]), q(n)))
            for _ in range(n):
                self.blob(s, depth - 1, out)
        elif k < 10:
            out.append(struct.pack("bB", s.choice([98, 99]), s.choice([0, 0, 64])))
            n = s.draw(4)
            if s.draw(3):       # plausible: symbols and a list of vectors
                out.append(struct.pack("bBq", 6, 0, q(n)))
                for i in range(n):
                    out.append(b"%c\0" % (97 + i))
                out.append(struct.pack("bBq", 0, 0, q(n)))
                m = s.draw(4)
                for i in range(n):
                    t = s.choice([1, 2, 4, 5, 8, 12])
                    mm = q(m)
                    out.append(struct.pack("bBq", t, 0, mm) + bytes(s.draw(256) for _ in range(self.W[t] * max(0, mm))))
            else:
                self.blob(s, depth - 1, out)
                self.blob(s, depth - 1, out)
        elif k == 10:
            out.append(struct.pack("bB", 100, 0))
            if s.draw(4):
                n = s.draw(3)
                out.append(struct.pack("bBq", 6, 0, q(n)) + b"".join(name() + b"\0" for _ in range(n)))
            else:
                self.blob(s, depth - 1, out)
            self.blob(s, depth - 1, out)
        else:
            t = s.choice([101, 102, 103, 127, 126, 77, 78, 79, 80, 97, 13, 20, -13, -100, -101])
            out.append(struct.pack("b", t))
            out.append(name() + nul() if t != 127 else bytes(s.draw(256) for _ in range(9)) + name() + nul())

    def gen(self, s):
        o = []
        self.blob(s, s.choice([3, 2, 1]), o)
        return dict(p=b"".join(o))

    def run(self, c, env):
        return judge(env.driver("asan"), PFX + bytes([1, 0, 0, 0]) + struct.pack("<q", len(c["p"])) + c["p"])

    def nontrivial(self, c, l):
        return len(c["p"]) > 3

    def describe(self, c):
        return "payload %s" % c["p"].hex()


class Deep(Prop):
    """deeply nested payloads, and vectors cut anywhere"""
    name = "deep"
    quick, thorough = 200, 3000
    flavours = ("asan",)

    def gen(self, s):
        return dict(n=s.choice([10, 1000, 4000, 4096, 5000, 20000, 200000, 2000000]), k=s.draw(4), end=s.draw(3))

    def run(self, c, env):
        lst = struct.pack("bBq", 0, 0, 1)
        unit = [lst, b"\x62\0", b"\x63\0", b"\x64\0" + struct.pack("bBq", 6, 0, 0)][c["k"]]
        p = unit * c["n"] + [b"\xfb" + b"\1" * 8, b"\x7e", b""][c["end"]]
        d = env.driver("asan")
        d.set("b", Vec(U8, list(PFX + bytes([1, 0, 0, 0]) + struct.pack("<q", len(p)) + p)))
        g = d.eval("(count (de b))", 60)
        if c["k"] in (1, 2) and not isinstance(g, Err):
            raise Fail("%d nested headers without content read as %r" % (c["n"], g))
        return ["error" if isinstance(g, Err) else "value"]

    def describe(self, c):
        return "%d levels of %d, end %d" % (c["n"], c["k"], c["end"])


class Leak(Prop):
    """refused data leaves no memory behind"""
    name = "leak"
    quick, thorough = 1500, 30000

    def gen(self, s):
        return Corrupt.gen(self, s)

    bytes = Corrupt.bytes
    describe = Corrupt.describe

    def run(self, c, env):
        d = env.driver("rel")
        b, orig = self.bytes(c, d)
        d.set("b", Vec(U8, list(b)))
        d.eval("(de b)")
        x = d.live("(de b)", 10)
        y = d.live("(de b)", 40)
        if y > x:
            z = d.live("(de b)", 40)
            if z > y:
                raise Fail("each (de b) of %s leaves memory behind: %d bytes live after 10, %d after 40 and %d after 40 more" % (b.hex(), x, y, z))
        return ["error" if isinstance(d.eval("(de b)"), Err) else "value"]


if __name__ == "__main__":
    run_check("C10", [Corrupt(), Structured(), Deep(), Leak()],
              rule="corrupt: bytes that differ from what was serialised; structured: payload longer than three bytes; others: all")
