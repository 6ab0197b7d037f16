import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import *
from rf import *
import gen
from gen import *
import C07

NAMES = [b"a", b"b", b"x", b"sum", b"+", b"-", b"fn", b"do", b"if", b"let", b"set", b"try", b"true", b"false", b"null", b"truex", b"nullable", b"falsehood",
         b"select", b"from", b"self", b"map", b"a.b", b"_", b"?", b"nil?", b"x1", b"==", b"!=", b"...", b"%", b"&|^~", b"list"]
PIECES = [b"(", b")", b"[", b"]", b"{", b"}", b":", b"'", b'"', b"\\", b";", b"#!", b"\n", b"\r", b"\t", b"\0", b",", b"@", b"$", b"`", b"\x80", b"\xff", b"\x01",
          b"0", b"0N", b"0Nl", b"0x", b"0xf", b"0N0", b"0Ng", b"0Nz", b"-", b"-1", b"1.", b"1.5", b".5", b"1e", b"1.0e", b"1.5e-", b"1.5e400", b"12:", b"12:3",
          b"12:30:", b"12:30:45", b"12:30:45.", b"12:30:45.1", b"99:99:99", b"2024.", b"2024.01.", b"2024.01.0", b"2024.01.01", b"2024.01.ab", b"2024.13.01",
          b"2024.01.01D", b"2024.01.01D10:20", b"2024.01.01D10:20:30.", b"2024.01.01D10:20:30.123456789", b"2024.01.01D10:20:30.99999999999999999999",
          b"9223372036854775807", b"9223372036854775808", b"99999999999999999999999", b"300x", b"70000h", b"5000000000i", b"1d", b"1t", b"1f", b"1.0h",
          b"'\\", b"'\\1", b"'\\12", b"'\\777'", b"'\\x", b"'a'", b"'ab'", b"''", b"'''", b"'\\''", b'"\\', b'"\\1', b'"\\12', b'"\\777"', b'"abc', b'"abc"', b'"\\n"',
          b"(fn", b"(fn [", b"(fn [x]", b"(fn [x] ", b"(fn x x)", b"(fn [1 2] 3)", b"{a:", b"{a: 1", b"{1: 2 a: 3}", b"{(a): 1}", b"{[1]: 2}", b'{"s": 1}', b"{:", b"[1 'a]",
          b"[1.0 2]", b"[a b", b"[(1)]", b"[[1]]", b"[1h 2]", b"[0x01 true]", b"()", b"[]", b"{}", b"( )", b"(;c\n)", b"[;c\n]", b"; comment", b";"]
JUNK = [b"", b"1", b"9999999999", b".5", b"abc", b'"', b"'", b")", b"]))", b":1}", b"\\n\"", b":30:45", b"D10:20:30.5", b"N0", b"x", b" )"]


def tree(s, depth):
    """source text of some expression"""
    k = s.draw(11 if depth > 0 else 4)
    if k < 3:
        x = C07.literal(s, s.choice(C07.ALL))[0]
        return x.encode("latin1") if isinstance(x, str) else x
    if k == 3:
        return s.choice(NAMES)
    sp = s.choice([b" ", b" ", b"  ", b"\n", b"\t", b"\r\n", b" ; c\n"])
    l = [tree(s, depth - 1) for _ in range(s.draw(5))]
    if k < 7:
        return b"(" + sp.join(l) + b")"
    if k == 7:
        t = s.choice(C07.EXACT)
        l = []
        for _ in range(s.draw(6)):
            x = C07.literal(s, t, True)[0]
            l.append(x.encode("latin1") if isinstance(x, str) else x)
        return b"[" + sp.join(l) + b"]"
    if k == 8:
        return b"{" + sp.join(s.choice(NAMES) + b": " + x for x in l) + b"}"
    if k == 9:
        return b"(fn [" + sp.join(s.choice(NAMES) for _ in range(s.draw(4))) + b"]" + sp + sp.join(l) + b")"
    return C07.string_lit(s)[0] if isinstance(C07.string_lit(s)[0], bytes) else C07.string_lit(s)[0].encode("latin1")


def mutate(s, b):
    b = bytearray(b)
    k, p = s.draw(7), s.draw(len(b) + 1)
    if k == 0:
        del b[p:]
    elif k == 1:
        del b[p:p + s.int(1, 4)]
    elif k == 2:
        b[p:p] = s.choice(PIECES)
    elif k == 3 and p < len(b):
        b[p] = s.draw(256)
    elif k == 4:
        q = s.draw(len(b) + 1)
        b[p:p] = b[q:q + s.int(1, 20)]
    elif k == 5 and p < len(b):
        b[p:p + 1] = s.choice(PIECES)
    else:
        b[p:p] = bytes([s.choice(b"()[]{}:'\"\\;0. -\n")])
    return bytes(b)


def source(s):
    k = s.draw(4)
    if k == 0:
        sp = s.choice([b"", b"", b" "])
        b = sp.join(s.choice(s.choice([PIECES, PIECES, NAMES])) for _ in range(s.int(1, 9)))
    elif k == 1:
        b = bytes(s.choice([s.choice(b"()[]{}:'\"\\;0. -\n1aN"), s.draw(256)]) for _ in range(s.int(1, 30)))
    else:
        b = tree(s, s.choice([3, 2, 1]))
        if s.draw(8):
            for _ in range(s.int(1, 3)):
                b = mutate(s, b)
    if s.draw(25) == 24:
        b = s.choice([b"#!", b"#!/x", b"#", b"#!x\n"]) + b
    return b


def agree(a, b):
    return same(a, b) or isinstance(a, Err) and isinstance(b, Err) and a.name == b.name or type(a) == type(b) == Fn


def tell(v):
    return "error %s" % v.name if isinstance(v, Err) else repr(v)


class Text(Prop):
    """a text is parsed from its own bytes alone, and blanks around it do not matter"""
    name = "text"
    quick, thorough = 20000, 1000000
    flavours = ("asan",)

    def gen(self, s):
        return dict(b=source(s), j=s.choice(JUNK[1:]), w=s.choice([b" ", b"\n", b"\t \r\n", b";c\n"]))

    def run(self, c, env):
        d = env.driver("asan")
        b = c["b"]
        v, f = d.parsex(b)
        if not isinstance(f, bytes):
            raise Fail("%r parses to a value that cannot be printed: %r" % (b, v))
        w, g = d.parsex(b, c["j"])
        if not agree(v, w) or f != g:
            raise Fail("%r parses to %s; with the bytes %r lying after it in memory to %s\n%r\n%r" % (b, tell(v), c["j"], tell(w), f, g))
        w, g = d.parsex(b + b"\n")
        if b"\0" not in b and not agree(v, w):
            raise Fail("%r parses to %s; followed by a newline to %s" % (b, tell(v), tell(w)))
        if not b.startswith(b"#!"):
            w, g = d.parsex(c["w"] + b)
            if not agree(v, w):
                raise Fail("%r parses to %s; after %r to %s" % (b, tell(v), c["w"], tell(w)))
        return ["error" if isinstance(v, Err) else "value"]

    def nontrivial(self, c, l):
        return len(c["b"]) > 2

    def describe(self, c):
        return "%r" % c["b"]


OPEN = [(b"(", b")"), (b"[", b"]"), (b"{a: ", b"}"), (b"(list ", b")"), (b"(fn [] ", b")"), (b"(do 1 ", b")"), (b"(if true ", b")"), (b"(+ 1 ", b")"), (b"(try ", b" 0)"),
        (b"(neg ", b")"), (b"{a: (", b")}"), (b"((", b"))"), (b"((fn [] ", b"))"), (b"'", b""), (b'"\\"', b""), (b";", b""), (b"((fn [x] x) ", b")"), (b"(enlist ", b")"),
        (b"(let v ", b")"), (b"(and true ", b")"), (b"(- ", b" 1)")]


class Deep(Prop):
    """brackets nested to any depth, complete or cut"""
    name = "deep"
    quick, thorough = 300, 5000
    flavours = ("asan", "rel")

    def gen(self, s):
        return dict(n=s.choice([5, 100, 500, 1000, 1023, 1024, 1025, 1500, 5000, 30000, 200000]), o=s.draw(len(OPEN)), p=s.draw(len(OPEN)), mix=s.draw(3) == 0, core=s.choice([b"1", b"", b"nosuch", b")", b'"']),
                    cut=s.draw(3), fl=s.choice(["asan", "rel"]), where=s.draw(3))

    def text(self, c):
        o = [OPEN[c["o"]], OPEN[c["p"]] if c["mix"] else OPEN[c["o"]]]
        n = c["n"]
        b = b"".join(o[i & 1][0] for i in range(n)) + c["core"]
        e = [o[i & 1][1] for i in range(n)][::-1]
        if c["cut"] == 1:
            e = e[:len(e) // 2]
        return b + (b"".join(e) if c["cut"] != 2 else b"")

    def run(self, c, env):
        d = env.driver(c["fl"])
        b = self.text(c)
        if c["where"] == 1:
            b = b"((fn [x] " + b + b") 3)"
        if c["where"] == 2:
            v, f = d.parsex(b, timeout=60)
        else:
            v = d.evaln(b, 60)
        if c["n"] <= 500 and c["where"] != 1 and c["cut"] == 0 and not c["mix"] and c["core"] == b"1":
            n, o = c["n"], OPEN[c["o"]][0]
            w = {b"(+ 1 ": i64(n + 1), b"(neg ": i64((-1) ** n), b"(do 1 ": i64(1), b"(if true ": i64(1), b"(try ": i64(1), b"((fn [x] x) ": i64(1), b"(- ": i64(1 - n)}.get(o)
            if w is not None and c["where"] == 0 and not same(v, w):
                raise Fail("%d levels of %r around 1 evaluate to %r instead of %r" % (n, o, v, w))
        r = d.eval("(+ 1 2)")
        if not same(r, i64(3)):
            raise Fail("after %d levels of %r, (+ 1 2) is %r" % (c["n"], OPEN[c["o"]][0], r))
        return ["error" if isinstance(v, Err) else "value"]

    def describe(self, c):
        return "%d levels of %r%s around %r, cut %d, %s" % (c["n"], OPEN[c["o"]], " and %r" % (OPEN[c["p"]],) if c["mix"] else "", c["core"], c["cut"], ["evaluated", "evaluated in a function", "parsed"][c["where"]])


class Leak(Prop):
    """parsing, refused or not, leaves no memory behind"""
    name = "leak"
    quick, thorough = 2500, 60000

    def gen(self, s):
        return dict(b=source(s).replace(b"\0", b""))

    def run(self, c, env):
        d = env.driver("rel")
        d.set("txt", chars(c["b"].decode("latin1")))
        e = "(parse txt)"
        r = d.eval(e)
        x = d.live(e, 10)
        y = d.live(e, 40)
        if y > x:
            z = d.live(e, 40)
            if z > y:
                raise Fail("each (parse %r) leaves memory behind: %d bytes live after 10, %d after 40 and %d after 40 more" % (c["b"], x, y, z))
        return ["error" if isinstance(r, Err) else "value"]

    def nontrivial(self, c, l):
        return len(c["b"]) > 2

    def describe(self, c):
        return "%r" % c["b"]


if __name__ == "__main__":
    run_check("C11", [Text(), Deep(), Leak()], rule="text of more than two bytes; deep: all")
