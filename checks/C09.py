import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, prov, anyval
from gen import *


def ser(d, x):
    b = d.eval("(ser %s)" % x)
    if isinstance(b, Err):
        return b
    if not (isinstance(b, Vec) and b.t == U8 and len(b) > 16):
        raise Fail("(ser %s) gives %r" % (x, b))
    return b


def check(d, v, e, other):
    """v bound to x: round trips here and in another process, and an equal value gives the same bytes"""
    b = ser(d, "x")
    if isinstance(b, Err):
        raise Fail("%r cannot be serialised: %r" % (v, b))
    g = d.eval("(de (ser x))")
    if not same(g, v):
        raise Fail("(de (ser x)) gives %r for x = %r" % (g, v))
    if not same(d.eval("x"), v):
        raise Fail("serialising x = %r changed it to %r" % (v, d.eval("x")))
    b2 = ser(d, "(de (ser x))")
    if not same(b2, b):
        raise Fail("the value read back serialises to %r, the original %r to %r" % (b2, v, b))
    if other is not None:
        other.set("b", b)
        g = other.eval("(de b)")
        if not same(g, v):
            raise Fail("another process reads the bytes of %r as %r" % (v, g))
        other.set("y", v)
        b3 = ser(other, "y")
        if not same(b3, b):
            raise Fail("another process serialises %r to %r, this one to %r" % (v, b3, b))


class Values(Prop):
    name = "values"
    quick, thorough = 6000, 200000
    flavours = ("rel", "asan")

    def gen(self, s):
        return dict(v=anyval.value(s, s.choice([3, 1, 0, 4])), asan=s.draw(4) == 3, o=s.draw(3))

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel")
        d.set("x", c["v"])
        other = None
        if c["o"] == 0:
            other = env.driver("rel", cores=2)
            # symbols are interned in a different order there
            other.eval("(list 'zz 'x 'q0 'Z_9 'b1 'aa)")
        check(d, c["v"], env, other)
        return ["depth%d" % anyval.depth(c["v"]), type(c["v"]).__name__]

    def nontrivial(self, c, l):
        return anyval.depth(c["v"]) > 0 or isinstance(c["v"], Vec) and len(c["v"]) > 1

    def describe(self, c):
        return "x = %r%s" % (c["v"], ", also in another process" if c["o"] == 0 else "")


class History(Prop):
    name = "history"
    quick, thorough = 2500, 60000
    flavours = ("rel", "asan")

    def gen(self, s):
        c = prov.gen_history(s)
        c["asan"] = s.draw(4) == 3
        c["w"] = s.draw(4)
        return c

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel")
        v = prov.build(c, d)
        if v is None:
            raise Skip("the operations do not apply")
        wrap = ["%s", "(list 1 %s)", "(dict [a b] (list %s 2))", "(table [c1 c2] (list %s (til (count r))))"][c["w"]]
        a, b = ser(d, wrap % "r"), ser(d, wrap % "q")
        if not same(a, b):
            raise Fail("%s with its history serialises to %r, an equal fresh value to %r" % (v, a, b))
        g = d.eval("(de (ser %s))" % (wrap % "r"))
        w = d.eval(wrap % "q")
        if not same(g, w):
            raise Fail("(de (ser %s)) gives %r, not %r" % (wrap % "r", g, w))
        # what was read back behaves like the original
        d.eval("(set g (de (ser r)))")
        for f in ("(distinct %s)", "(asc %s)", "(in [1 2 3] %s)", "(first %s)", "(sum %s)", "(find %s (last %s))"):
            x, y = d.eval(f.replace("%s", "g")), d.eval(f.replace("%s", "q"))
            if not same(x, y):
                raise Fail("%s on the value read back gives %r, on a fresh equal value %r" % (f, x, y))
        return ["wrap%d" % c["w"], "type%d" % v.t]

    def describe(self, c):
        return "v = %r; %s then %s (wrapped %d)" % (c["v"], c["f"], "; ".join(c["ops"]), c["w"])


class Big(Prop):
    name = "big"
    quick, thorough = 120, 1500

    def gen(self, s):
        t = s.choice(anyval.TYPES)
        n = s.choice(BIGN + [300000, 1000000])
        if t in (SYM, GUID, LIST):
            n = min(n, 70001)
        return dict(v=big_array(s, t, n), w=s.draw(3))

    def run(self, c, env):
        d = env.driver("rel", cores=[1, 4, 2][c["w"]])
        v = c["v"]
        d.set("q", v)
        if c["w"] == 1:
            d.eval("(set q (list q 1 (list q)))")
            v = Lst([v, i64(1), Lst([v])])
        elif c["w"] == 2:
            d.eval("(set q (table [k v] (list (til (count q)) q)))")
            v = d.eval("q")
        d.eval("(set x q)")
        g = d.eval("(de (ser x))")
        if not same(g, v):
            raise Fail("(de (ser x)) differs from x = %r: %r" % (v, g))
        if not same(d.eval("(== (count (ser x)) (count (ser (de (ser x)))))"), b8(True)):
            raise Fail("the bytes of x and of the value read back differ in size")
        return ["type%d" % c["v"].t]

    def describe(self, c):
        return "x = %r (wrapped %d)" % (c["v"], c["w"])


# ------------------------------------------------------------------ functions
BUILTIN = ["+", "sum", "map", "first", "==", "list", "select", "concat", "neg", "til", "like", "fold", "and", "if", "ser", "upsert", "%", "/"]


def body(s, names, depth):
    """expression over numeric names"""
    k = s.draw(9 if depth > 0 else 3)
    e = lambda: body(s, names, depth - 1)
    if k == 0:
        return s.choice(names)
    if k == 1:
        return str(s.zint(-50, 50))
    if k == 2:
        return s.choice(["0Nl", "2.5", "[1 2 3]", "(count \"abc\")", "(count [a b])", "(sum [1 2 3])", "7i", "3h", "0x05", "(at (dict [p q] [5 6]) 'q)",
                         "(at {p: 4 q: 5} 'p)", "(sum (at (select {a: (sum a) from: (table [a] (list [1 2 3]))}) 'a))", "(type 'x)", "\"str\"", "'sym",
                         "2024.01.02", "true", "0Nf", "(like \"abc\" \"a*\")"])
    if k < 5:
        return "(%s %s %s)" % (s.choice(["+", "-", "*", "list", "concat"]), e(), e())
    if k == 5:
        return "(if (== %s %s) %s %s)" % (e(), e(), e(), e())
    if k == 6:
        return "(do (let w %s) (list w %s w))" % (e(), e())
    if k == 7:
        return "(map (fn [z] %s) %s)" % (body(s, ["z"], depth - 1), e())
    return "(try %s %s)" % (e(), e())


class Functions(Prop):
    name = "functions"
    quick, thorough = 2000, 40000
    flavours = ("rel", "asan")

    def gen(self, s):
        ar = s.int(1, 3)
        return dict(ar=ar, b=body(s, ["x", "y", "z0"][:ar], s.choice([3, 1, 2])), args=[s.choice(["1", "0", "-7", "[1 2 3]", "2.5", "0Nl", "'a", "\"xy\"",
                    "(list 1 2)", "[]"]) for _ in range(ar)], bi=s.choice(BUILTIN), w=s.draw(4), asan=s.draw(4) == 3, o=s.draw(2))

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel")
        f = "(fn [%s] %s)" % (" ".join(["x", "y", "z0"][:c["ar"]]), c["b"])
        wrap, un = [("%s", "%s"), ("(list 1 %s)", "(at %s 1)"), ("(dict [k l] (list 0 %s))", "(at %s 'l)"),
                    ("(list (list) (list 2 (list %s)))", "(first (at (at %s 1) 1))")][c["w"]]
        if isinstance(d.eval("(set f0 %s)" % f), Err):
            raise Skip("the function does not compile")
        d.eval("(set p %s)" % (wrap % "f0"))
        b = ser(d, "p")
        if isinstance(b, Err):
            raise Fail("%s cannot be serialised: %r" % (wrap % f, b))
        want = d.eval("(f0 %s)" % " ".join(c["args"]))
        o = d
        if c["o"]:
            o = env.driver("rel", cores=2)
            o.set("bb", b)
            g = o.eval("(set p2 (de bb))")
        else:
            g = o.eval("(set p2 (de (ser p)))")
        if isinstance(g, Err):
            raise Fail("%s does not read back: %r" % (wrap % f, g))
        o.eval("(set f1 %s)" % (un % "p2"))
        got = o.eval("(f1 %s)" % " ".join(c["args"]))
        if not same(got, want):
            raise Fail("%s on %s gives %r, read back from its bytes %r" % (f, " ".join(c["args"]), want, got))
        b2 = ser(o, "p2")
        if not same(b, b2):
            raise Fail("%s: bytes %r, read back and serialised again %r" % (wrap % f, b, b2))
        # builtins
        v = d.eval("(de (ser (list %s 1 %s)))" % (c["bi"], c["bi"]))
        w = d.eval("(list %s 1 %s)" % (c["bi"], c["bi"]))
        if not same(v, w):
            raise Fail("(list %s 1 %s) reads back as %r" % (c["bi"], c["bi"], v))
        return ["error" if isinstance(want, Err) else "value", "wrap%d" % c["w"]]

    def nontrivial(self, c, l):
        return "(" in c["b"]

    def describe(self, c):
        return "(fn [%s] %s) on %s, and %s (wrapped %d)" % (" ".join(["x", "y", "z0"][:c["ar"]]), c["b"], " ".join(c["args"]), c["bi"], c["w"])


class Refused(Prop):
    """a part that cannot be serialised makes the whole be refused"""
    name = "refused"
    quick, thorough = 800, 20000
    flavours = ("rel", "asan")

    def gen(self, s):
        return dict(path=[(s.draw(4), s.draw(3), anyval.value(s, 1)) for _ in range(s.draw(4))], asan=s.draw(4) == 3, n=s.draw(4))

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel")
        d.eval("(set sy [a b c])")
        e = "(enum 'sy %s)" % ["[a b]", "[a]", "[c a b]", "[b b b b b b b]"][c["n"]]
        if not isinstance(d.eval(e), Enm):
            raise Skip("no enum")
        for i, (k, pos, v) in enumerate(c["path"]):
            d.set("u%d" % i, v)
            if k == 0:
                l = ["u%d" % i, "7"]
                l.insert(pos, e)
                e = "(list %s)" % " ".join(l)
            elif k == 1:
                e = "(dict [k l] (list %s u%d))" % (e, i)
            elif k == 2:
                e = "(dict [k l] (list u%d %s))" % (i, e)
            else:
                e = "(table [m n] (list (list 1 2) (list %s u%d)))" % (e, i)
        d.eval("(set x %s)" % e)
        before = d.eval("x")
        if isinstance(before, Err):
            raise Skip("not a value")
        r = d.eval("(ser x)")
        if isinstance(r, Vec):
            g = d.eval("(de (ser x))")
            if not same(g, before):
                raise Fail("(ser x) of x = %r gives bytes that read back as %r" % (before, g))
            return ["serialised"]
        if not isinstance(r, Err):
            raise Fail("(ser x) of x = %r gives %r" % (before, r))
        if not same(d.eval("x"), before):
            raise Fail("the refused (ser x) changed x = %r" % before)
        return ["refused", "depth%d" % len(c["path"])]

    def describe(self, c):
        return "enum %d inside %r" % (c["n"], c["path"])


if __name__ == "__main__":
    run_check("C09", [Values(), History(), Big(), Functions(), Refused()],
              rule="values: nested, or a vector of two or more elements; functions: body is an application; others: all")
