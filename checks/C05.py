import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref, prov
from gen import *
import numpy as np

INTW = (U8, I16, I32, I64)
ALL = [B8, U8, C8, I16, I32, I64, F64, DATE, TIME, TS, SYM, GUID]
FINDV = [B8, U8, C8, I32, I64, F64, DATE, TIME, TS, SYM, GUID]
FINDA = [B8, I64, SYM, F64, TS, GUID, C8]
DIST = [B8, U8, C8, I16, I32, I64, DATE, TIME, TS, SYM, GUID]
DROPNULL = (I32, I64, DATE, TIME, TS, SYM)
BINT = [I32, I64, DATE, TIME, TS]
NF = -2**63


def key(t, x):
    """hashable identity of an element"""
    if isinstance(x, Val):
        return repr(x)
    if t == F64:
        return "nan" if x != x else float(x) + 0.0
    if t in (SYM, GUID):
        return x
    x = int(x)
    return None if t in NULLV and x == NULLV[t] else x


def keys(v):
    if isinstance(v, Lst):
        return [repr(x) for x in v.a]
    return [key(v.t, x) for x in ref.elems(v)]


def first_pos(ks):
    d = {}
    for i, k in enumerate(ks):
        d.setdefault(k, i)
    return d


def pick_idx(v, ix):
    if isinstance(v, Lst):
        return Lst([v.a[i] for i in ix])
    if v.t == C8:
        return Vec(C8, bytes(v.a[i] for i in ix))
    if v.t in (SYM, GUID):
        return Vec(v.t, [v.a[i] for i in ix])
    return Vec(v.t, v.a[np.array(ix, dtype="i8")])


def nz(v):
    return Vec(F64, v.a + 0.0) if isinstance(v, Vec) and v.t == F64 else v


def gvec(s, t, big, mag=None):
    if big:
        return nz(big_array(s, t))
    return nz(small_vec(s, t, hi=s.choice([6, 14, 70]), mag=mag))


def litem(s):
    return s.choice([lambda: Atom(I64, s.zint(-3, 3)), lambda: Atom(SYM, scalar(s, SYM)), lambda: small_vec(s, C8, n=s.draw(3)),
                     lambda: small_vec(s, I64, n=s.draw(3), mag=2), lambda: Lst([Atom(I64, s.draw(2)), small_vec(s, C8, n=s.draw(2))])])()


FNS = [(4, "find"), (4, "find1"), (6, "in"), (2, "in1"), (4, "distinct"), (4, "union"), (3, "sect"), (3, "except"), (2, "except1"),
       (4, "group"), (3, "bin"), (3, "binr"), (2, "bin1"), (2, "binr1"), (2, "within")]


def operands(fn, s, big):
    mag = s.choice([None, 3, 40])
    if fn == "in" and s.draw(3) == 2 or fn == "in1" and s.draw(4) == 3:
        t, u = s.choice(INTW), s.choice(INTW)
        m = s.choice([3, 40, 130, 300, 40000])
        return gvec(s, t, big and fn == "in", m), gvec(s, u, big, m)
    t = s.choice({"find": FINDV, "find1": FINDA, "distinct": DIST, "union": DIST, "sect": [I64, SYM], "except": [I64, SYM],
                  "except1": [I64, SYM], "bin": BINT, "binr": BINT, "bin1": BINT, "binr1": BINT, "within": [I64]}.get(fn, ALL))
    if fn in ("find", "distinct", "group", "union") and not big and s.draw(8) == 7:
        return Lst([litem(s) for _ in range(1 + s.draw(8))]), Lst([litem(s) for _ in range(1 + s.draw(8))])
    return gvec(s, t, big, mag), gvec(s, t, big and s.draw(3) != 0, mag)


def srt(v):
    return Vec(v.t, np.sort(v.a)) if v.t in BINT else v


def expected(fn, x, y):
    """(source template with x and y, oracle: value -> error text or None)"""
    kx, ky = keys(x), keys(y)

    def exact(w):
        return lambda g: None if same(g, w) else "expected %r" % w

    if fn == "find":
        d = first_pos(kx)
        return "(find x y)", exact(Vec(I64, [d.get(k, NF) for k in ky]))
    if fn == "in":
        d = set(kx) if False else set(ky)
        return "(in x y)", exact(Vec(B8, [k in d for k in kx]))
    if fn in ("distinct", "union"):
        allv = kx + ky if fn == "union" else kx
        drop = x.t in DROPNULL
        want = {k for k in allv if not (drop and k is None)}

        def ck(g):
            if not isinstance(g, (Vec, Lst)) or g.t != x.t and not (isinstance(g, Vec) and isinstance(x, Lst)):
                return "expected a vector of the same type"
            kg = [repr(Atom(g.t, e)) for e in ref.elems(g)] if isinstance(x, Lst) and isinstance(g, Vec) else keys(g)
            if len(kg) != len(set(kg)):
                return "some element is repeated"
            if set(kg) != want:
                return "missing %r, unexpected %r" % (list(want - set(kg))[:5], list(set(kg) - want)[:5])
        return "(%s x%s)" % (fn, " y" if fn == "union" else ""), ck
    if fn in ("sect", "except"):
        d = set(ky)
        return "(%s x y)" % fn, exact(pick_idx(x, [i for i, k in enumerate(kx) if (k in d) == (fn == "sect")]))
    if fn == "group":
        d = {}
        for i, k in enumerate(kx):
            d.setdefault(k, []).append(i)

        def ck(g):
            if not isinstance(g, Pair) or g.t != DICT or not isinstance(g.v, Lst):
                return "expected a dictionary"
            if isinstance(x, Lst) and isinstance(g.k, Vec):
                kg = [repr(Atom(g.k.t, e)) for e in ref.elems(g.k)]
            else:
                if g.k.t != x.t:
                    return "keys have another type"
                kg = keys(g.k)
            if kg != list(d):
                return "keys %r are not the distinct elements in order of appearance" % g.k
            for k, v in zip(kg, g.v.a):
                if not isinstance(v, Vec) or v.t != I64 or v.a.tolist() != d[k]:
                    return "group %r has rows %r, expected %r" % (k, v, Vec(I64, d[k]))
        return "(group x)", ck
    if fn in ("bin", "binr"):
        a, b = x.a.astype("i8"), y.a.astype("i8")
        w = np.searchsorted(a, b, "right") - 1 if fn == "bin" else np.searchsorted(a, b, "left")
        return "(%s x y)" % fn, exact(Vec(I64, w))
    if fn == "within":
        lo, hi = (int(y.a[0]), int(y.a[1])) if len(y) > 1 else (-3, 7)
        return "(within x [%s %s])" % (lit1(I64, lo), lit1(I64, hi)), exact(Vec(B8, [lo <= int(e) <= hi for e in x.a]))
    raise AssertionError(fn)


class Search(Prop):
    name = "search"
    quick, thorough = 22000, 300000

    def gen(self, s):
        fn = s.weighted(FNS)
        big = s.draw(12) == 11 and fn[-1] != "1"
        x, y = operands(fn, s, big)
        if fn[:3] == "bin":
            x = srt(x)
        if fn in ("sect", "except", "find", "in") and s.draw(6) == 5 and x.t == y.t:
            y = x
        return dict(fn=fn, x=x, y=y, i=s.draw(1 << 16), out=scalar(s, y.t) if isinstance(y, Vec) else 0, how=[s.draw(3), s.draw(3)],
                    cores=s.choice([1, 4]) if big else 1, big=big)

    def run(self, c, env):
        fn, x, y = c["fn"], c["x"], c["y"]
        d = env.driver(cores=c["cores"])
        d.set("x", x)
        d.set("y", y)
        if fn[-1] == "1":
            f = fn[:-1]
            e = ref.elems(y)[c["i"] % len(y)] if len(y) and c["i"] % 3 else c["out"]
            if y.t == F64:
                e = e + 0.0
            one = Vec(y.t, bytes([e]) if y.t == C8 else [e])
            if f in ("find", "bin", "binr"):
                d.set("a", Atom(y.t, e))
                tpl, ck = expected(f, x, one)
                g = d.eval(tpl.replace(" y", " a"))
                gg = Vec(I64, [g.v]) if isinstance(g, Atom) and g.t in (I64, I32) else g
            elif f == "in":
                d.set("a", Atom(y.t, e))
                tpl, ck = expected("in", one, x)
                g = d.eval("(in a x)")
                gg = Vec(B8, [g.v]) if isinstance(g, Atom) and g.t == B8 else g
            else:
                d.set("a", Atom(y.t, e))
                tpl, ck = expected(f, x, one)
                gg = g = d.eval(tpl.replace(" y", " a"))
            r = ck(gg)
            if r:
                raise Fail("(%s) with x=%r and atom %r gave %r: %s" % (f, x, Atom(y.t, e), g, r))
        else:
            if fn == "find" and not len(x) and x.t != GUID:
                raise Skip("searching in an empty vector is left open")
            tpl, ck = expected(fn, x, y)
            for nm, v, h in (("x", x, c["how"][0]), ("y", y, c["how"][1])):
                e = lit(v) if h == 1 and isinstance(v, Vec) and len(v) < 40 else "(first (list %s))" % nm if h == 2 else None
                if e:
                    tpl = tpl.replace(" %s" % nm, " " + e.replace(" ", "\x01"))
            tpl = tpl.replace("\x01", " ")
            g = d.eval(tpl)
            r = ck(g)
            if r:
                raise Fail("%s with x=%r y=%r gave %r: %s" % (tpl[:200], x, y, g, r))
        if not c["big"] and not (same(d.eval("x"), x) and same(d.eval("y"), y)):
            raise Fail("%s changed an operand: x was %r is %r, y was %r is %r" % (fn, x, d.eval("x"), y, d.eval("y")))
        return [fn, "%s/%s" % (fn, NAME[x.t]), "big" if c["big"] else "small", "mixed" if x.t != y.t else "same-type"]

    def nontrivial(self, c, l):
        return len(c["x"]) > 0

    def describe(self, c):
        return "%s x=%r y=%r i=%d out=%r how=%r cores=%d" % (c["fn"], c["x"], c["y"], c["i"], c["out"], c["how"], c["cores"])


class Laws(Prop):
    """relations between the set operations on large vectors with few or many distinct elements"""
    name = "laws"
    quick, thorough = 300, 5000

    def gen(self, s):
        t = s.choice([I64, SYM, I64, TS, I32, DATE])
        return dict(t=t, x=big_array(s, t), y=big_array(s, t), cores=s.choice([1, 2, 4]))

    def run(self, c, env):
        d = env.driver(cores=c["cores"])
        d.set("x", c["x"])
        d.set("y", c["y"])
        d.eval("(set n (- (count x) (sum (as 'I64 (nil? x)))))" if False else "(set n (count x))")
        laws = ["(== (count (distinct x)) (count (distinct (distinct x))))",
                "(== (sum (map count (value (group x)))) n)",
                "(== (count (raze (value (group x)))) n)",
                "(== (asc (raze (value (group x)))) (til n))",
                "(== x (at x (find x x)))",
                "(in x x)",
                "(== (where (in x y)) (where (!= (find y x) 0Nl)))",
                "(== (asc (union x y)) (asc (union y x)))",
                "(== (iasc (raze (value (group x)))) (iasc (at (iasc x) (iasc (iasc x)))))" if False else "(== (at (key (group x)) 0) (first x))"]
        if c["t"] in (I64, SYM):
            laws += ["(== (+ (count (sect x y)) (count (except x y))) n)", "(in (sect x y) y)", "(not (in (except x y) y))",
                     "(== (sect x y) (filter x (in x y)))"]
        for l in laws:
            g = d.eval(l)
            ok = isinstance(g, Atom) and g.v == 1 or isinstance(g, Vec) and g.t == B8 and bool(np.all(g.a == 1))
            if not ok:
                raise Fail("%s does not hold on every element for x=%r y=%r: %r" % (l, c["x"], c["y"], g))
        return [NAME[c["t"]], "cores%d" % c["cores"]]

    def describe(self, c):
        return "x=%r y=%r cores=%d" % (c["x"], c["y"], c["cores"])


class History(Prop):
    """the answer depends on the values only, not on how they came about"""
    name = "history"
    quick, thorough = 9000, 150000
    SRC = ["(find r z)", "(find z r)", "(in r z)", "(in z r)", "(distinct r)", "(union r z)", "(union z r)", "(sect r z)", "(except r z)",
           "(except z r)", "(sect z r)", "(group r)", "(find r r)", "(in r r)", "(except r r)", "(find r (first z))", "(in (last z) r)",
           "(except r (first z))", "(count (distinct r))", "(asc (distinct r))"]

    def gen(self, s):
        c = prov.gen_history(s)
        c["src"] = s.choice(self.SRC)
        c["z"] = small_vec(s, c["t"], n=s.int(1, 5), mag=20)
        c["fl"] = "asan" if s.draw(4) == 3 else "rel"
        return c

    def run(self, c, env):
        d = env.driver(c["fl"])
        g = prov.build(c, d)
        if g is None:
            raise Skip("history has no vector result")
        z = c["z"] if c["z"].t == g.t else pick_idx(g, [i for i in (0, len(g) - 1) if i >= 0] if len(g) else [])
        d.set("z", z)
        x, y = d.eval(c["src"]), d.eval(c["src"].replace(" r", " q"))
        if not same(x, y):
            kx = sorted(map(str, keys(x))) if isinstance(x, (Vec, Lst)) else 0
            if not (("distinct" in c["src"] or "union" in c["src"]) and isinstance(x, Vec) and isinstance(y, Vec) and x.t == y.t
                    and kx == sorted(map(str, keys(y)))):
                raise Fail("after %s, with r equal to %r and z to %r: %s gave %r, on a freshly built equal vector it gives %r" % (
                    self.text(c), g, z, c["src"], x, y))
        if not same(d.eval("r"), g):
            raise Fail("%s changed r" % c["src"])
        return [c["src"].split()[0][1:], NAME[g.t]]

    def text(self, c):
        return "v=%r start=%s then %s (nest %r)" % (c["v"], c["f"], " ; ".join(c["ops"]), c["nest"])

    def describe(self, c):
        return "%s z=%r: %s" % (c["src"], c["z"], self.text(c))


class Refused(Prop):
    """operand types the operation is not defined for are refused and leave the session usable"""
    name = "refused"
    quick, thorough = 1500, 15000

    def gen(self, s):
        fn = s.choice(["find", "sect", "except", "bin", "binr", "within", "group", "distinct"])
        t, u = s.choice(ALL), s.choice(ALL)
        return fn, small_vec(s, t, n=1 + s.draw(4)), small_vec(s, u, n=1 + s.draw(4)), s.draw(2)

    def run(self, c, env):
        fn, x, y, at = c
        ok = {"find": x.t == y.t and x.t in FINDV and not at, "sect": x.t == y.t and x.t in (I64, SYM) and not at,
              "except": x.t == y.t and x.t in (I64, SYM), "bin": x.t == y.t and x.t in BINT,
              "binr": x.t == y.t and x.t in BINT, "within": x.t == I64 and y.t == I64 and len(y) == 2,
              "group": not at, "distinct": not at}[fn]
        if fn == "find" and at and x.t == y.t and x.t in FINDA:
            ok = True
        if fn == "within" and at:
            ok = False
        if ok or fn in ("bin", "binr") and {x.t, y.t} <= set(BINT + [I16, U8]):
            raise Skip("defined")
        d = env.driver()
        d.set("x", x)
        d.set("y", y)
        src = "(%s %s)" % (fn, "(first x)") if fn in ("group", "distinct") else "(%s x %s)" % (fn, "(first y)" if at else "y")
        g = d.eval(src)
        if not isinstance(g, Err):
            raise Fail("%s with x=%r y=%r must be refused, gave %r" % (src, x, y, g))
        if not same(d.eval("x"), x) or not same(d.eval("y"), y) or not same(d.eval("(find [5 6] 6)"), i64(1)):
            raise Fail("after %s: operand changed or session unusable" % src)
        return [fn]

    def describe(self, c):
        return "%s x=%r y=%r at=%d" % c


if __name__ == "__main__":
    sys.exit(run_check("C05", [Search(), Laws(), History(), Refused()],
                       rule="an operation on a non-empty first operand (or a history whose last step has a vector result); distinct by operation, operands and how they are supplied",
                       assumptions=["negative zero is not distinguished from zero", "find in an empty vector is left open (an existing test fixes [] as the answer)"]))
