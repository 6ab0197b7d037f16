import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import anyval, calls, gen, prog, re
from prog import Gn, txt


def assigns(e, i):
    return "p%d" % i in e and ("(let p%d" % i in e or "(let 'p%d" % i in e or "quote" in e and any(w in e for w in ("alter", "modify", "insert", "upsert", "update", "let", "set")))


class Calls(Prop):
    """an expression leaves nothing behind: no memory, and no reference to what it was given"""
    name = "calls"
    quick, thorough = 10000, 400000

    def gen(self, s):
        n = s.draw(4)
        vs = [anyval.value(s, s.choice([1, 2, 0])) for _ in range(n)]
        return dict(v=vs, e=calls.Gen(s, n).expr(s.choice([1, 1, 1, 2, 3])))

    def reset(self, d, c):
        for x in calls.SETUP:
            d.eval(x)
        for i, v in enumerate(c["v"]):
            d.eval("(set p%d null)" % i)
            d.set("p%d" % i, v)

    def free(self, d, c):
        for x in calls.SETUP:
            d.eval(x)
        for i, v in enumerate(c["v"]):
            d.eval("(set p%d null)" % i)
        d.eval("null")
        return d.live("null", 1)

    def run(self, c, env):
        d = env.driver("rel")
        e = c["e"]
        try:
            self.reset(d, c)
            before = [d.eval("(rc p%d)" % i).v for i in range(len(c["v"]))]
            r = d.evaln(e, 10)
            labels = ["error:%s" % r.name if isinstance(r, Err) else "value"]
            d.eval("null")
            after = [d.eval("(rc p%d)" % i).v for i in range(len(c["v"]))]
            sets = re.search(r"\(let (?!t x\))|\((alter|modify|insert|upsert|set) '|update", e)
            for i, b in enumerate(before):
                a = after[i]
                if a != b and not isinstance(c["v"][i], Null) and not sets and not assigns(e, i):
                    kept = self.holders(d, c, i, e)
                    if kept:
                        raise Fail("%s: p%d (%s) has %d references before and %d after, and they stay" % (e, i, c["v"][i], b, a))
            m = 12
            l = []
            for k in range(4):
                self.reset(d, c)
                d.live(e, m, 20)
                l.append(self.free(d, c))
                if k >= 1 and l[-1] <= l[-2]:
                    break
            else:
                raise Fail("each %s leaves memory behind: %s bytes live after %d evaluations, %d times over (%r)" % (e, l, m, len(l), r))
        except Hang:
            if "take" in e or "til" in e or "rand" in e or "guid" in e:
                env.reset()
                raise Skip()
            raise
        return labels

    def holders(self, d, c, i, e):
        """the references are not those of a variable or a field the expression has set"""
        for x in calls.SETUP:
            d.eval(x)
        for j in range(len(c["v"])):
            if j != i:
                d.eval("(set p%d null)" % j)
        d.eval("null")
        return d.eval("(rc p%d)" % i).v != 1

    def nontrivial(self, c, l):
        return len(c["e"]) > 8

    def describe(self, c):
        return "%s\nwith %s" % (c["e"], ", ".join("p%d = %r" % x for x in enumerate(c["v"])))


class Progs(Prop):
    """programs of functions, recursion, handlers, returns and errors leave no memory behind"""
    name = "programs"
    quick, thorough = 5000, 200000

    def gen(self, s):
        g = Gn(s)
        funs = [g.fun(i, s.int(1, 4)) for i in range(s.int(0, 2))]
        env = {}
        p = [g.stmt(env, s.int(0, 4)) for _ in range(s.int(0, 2))]
        p.append(g.typed("v", env, s.int(1, 4)) if s.draw(4) == 0 else g.int(env, s.int(1, 5)))
        return dict(funs=funs, prog=p, ctx=s.choice(["fn", "do", "map", "eval", "fold", "pmap", "try"]))

    def run(self, c, env):
        prog.Programs.model(self, c, "fn")   # skips what does not end
        d = env.driver("rel")
        t = " ".join(map(txt, c["prog"]))
        e = {"fn": "((fn [] %s))" % t, "map": "(map (fn [q] (list (do %s))) [7 8])" % t, "eval": "(eval (quote (do %s)))" % t, "do": "(do %s)" % t,
             "fold": "(fold (fn [aa bb] %s) [1 2])" % t, "pmap": "(map (fn [q] (list (do %s))) [7 8])" % t, "try": "(try (do %s) (fn [e] e))" % t}[c["ctx"]]

        def reset():
            for i in range(3):
                d.eval("(set g%d %d)" % (i, i + 1))
            for i, f in enumerate(c["funs"]):
                d.eval("(set f%d %s)" % (i, txt(f)))
        reset()
        r = d.eval(e)
        l = []
        for k in range(4):
            reset()
            d.live(e, 12, 20)
            for n in "g0 g1 g2 f0 f1 u0 u1 u2 u3 u4".split():
                d.eval("(set %s null)" % n)
            d.eval("null")
            l.append(d.live("null", 1))
            if k >= 1 and l[-1] <= l[-2]:
                break
        else:
            raise Fail("each evaluation leaves memory behind: %s bytes live after every 12 (%s) of %s with functions %s" % (l, r, e, [txt(f) for f in c["funs"]]))
        return ["error" if isinstance(r, Err) else "value"]

    def nontrivial(self, c, l):
        return len(" ".join(map(txt, c["prog"]))) > 20

    def describe(self, c):
        return "%s | %s | %s" % (" ; ".join("f%d=%s" % (i, txt(f)) for i, f in enumerate(c["funs"])), " ; ".join(map(txt, c["prog"])), c["ctx"])


class Stop(Prop):
    """a function applied over items which fails at one of them: what was made so far is freed"""
    name = "stopped"
    quick, thorough = 4000, 40000
    VALS = ["(list i x)", "(list (til 50) x)", "(til 30)", "x", "\"some text\"", "(dict [a b] (list i (til 9)))", "(table [a b] (list [1 2] (list x i)))", "(concat 'a 'b)", "(fn [z] x)", "i", "(list i i)", "1.5", "(as 'symbol \"q\")",
            "(if (== i 1) (til 4) (list x))", "(if (> i 1) (list x \"t\") 7)", "(guid 2)", "null"]
    BAD = ["(raise \"bad\")", "(+ 'a 1)", "(nosuchname 1)", "((fn [z] z) 1 2)", "(at [1 2] 'x)", "(let y (raise (list 1 2)))"]
    ITEMS = ["(til N)", "(map (fn [k] (list k (til 5))) (til N))", "(take [a b c d] N)", "(take (list \"x\" \"yy\" 3) N)", "(as 'F64 (til N))", "(take \"text\" N)", "(take (guid 2) N)", "(as 'I16 (til N))", "(take (list (til 3) 'q) N)"]

    def gen(self, s):
        n = s.int(1, 9)
        return dict(how=s.choice(["map", "map1", "map2", "left", "right", "fold", "scan", "foldl", "foldr", "scanl", "scanr", "pmap", "select", "by", "update", "where", "filter", "nest", "list", "alter", "list2"]), n=n,
                    at=s.int(0, n), val=s.choice(self.VALS), bad=s.choice(self.BAD), items=s.choice(self.ITEMS), other=s.choice(self.ITEMS + ["5", "'k", "\"some\"", "(list 1 \"a\")"]), m=s.choice([n, n, n, 3, 1]))

    def expr(self, c):
        xs = c["items"].replace("N", str(c["n"]))
        ys = c["other"].replace("N", str(c["m"]))
        body = "(do (set cnt (+ cnt 1)) (let i cnt) (if (== cnt %d) %s %s))" % (c["at"] + 1, c["bad"], c["val"])
        f1, f2 = "(fn [x] %s)" % body, "(fn [x y] %s)" % body
        e = {"map": "(map %s %s)" % (f1, xs), "map1": "(map %s %s (til %d))" % (f2, xs, c["n"]), "map2": "(map %s %s %s)" % (f2, xs, ys), "left": "(map-left %s %s %s)" % (f2, xs, ys), "right": "(map-right %s %s %s)" % (f2, ys, xs),
             "fold": "(fold %s %s)" % (f2, xs), "scan": "(scan %s %s)" % (f2, xs), "foldl": "(fold-left %s %s %s)" % (f2, xs, ys), "foldr": "(fold-right %s %s %s)" % (f2, xs, ys), "scanl": "(scan-left %s %s %s)" % (f2, xs, ys),
             "scanr": "(scan-right %s %s %s)" % (f2, xs, ys), "pmap": "(pmap (fn [x] (do (let i 2) (if (== (rc x) %d) %s %s))) %s)" % (c["at"] % 3, c["bad"], c["val"], xs),
             "select": "(select {a: a r: (map %s a) s: (sum b) from: (table [a b] (list %s (til %d)))})" % (f1, xs, c["n"]),
             "by": "(select {r: (map %s a) from: (table [a b] (list %s (% (til %d) 3))) by: b})" .replace("(% (", "(%% (") % (f1, xs, c["n"]),
             "update": "(update {b: (map %s a) from: (table [a b] (list %s (til %d)))})" % (f1, xs, c["n"]),
             "where": "(select {from: (table [a b] (list %s (til %d))) where: (map %s a)})" % (xs, c["n"], f1),
             "filter": "(filter %s (map %s %s))" % (xs, f1, xs), "nest": "(map (fn [q] (map %s q)) (list %s %s))" % (f1, xs, ys),
             "list": "(list (til 4) (map %s %s) \"aa\")" % (f1, xs), "alter": "(alter (list (til 3) \"ab\" %s) %s 1 %s)" % (xs, f2, ys),
             "list2": "(concat (list 1 (til 5)) (dict (list 'a 'b) (list (map %s %s) 2)))" % (f1, xs)}[c["how"]]
        return "(do (set cnt 0) %s)" % e

    def run(self, c, env):
        d = env.driver("rel")
        e = self.expr(c)
        d.eval("(set cnt 0)")
        r = d.evaln(e, 10)
        l = []
        for k in range(4):
            d.live(e, 12, 20)
            d.eval("(do (set cnt 0) null)")
            l.append(d.live("null", 1))
            if k >= 1 and l[-1] <= l[-2]:
                break
        else:
            raise Fail("each evaluation leaves memory behind: %s bytes live after every 12 (%r) of %s" % (l, r, e))
        return [c["how"], "error" if isinstance(r, Err) else "value"]

    def nontrivial(self, c, l):
        return c["n"] > 1

    def describe(self, c):
        return self.expr(c)


class Grows(Prop):
    """evaluate e again and again: the live bytes may not grow every time"""
    def grows(self, d, e, r, m=12):
        l = []
        for k in range(4):
            d.live(e, m, 20)
            d.eval("null")
            l.append(d.live("null", 1))
            if k >= 1 and l[-1] <= l[-2]:
                return
        raise Fail("each evaluation leaves memory behind: %s bytes live after every %d (%r) of %s" % (l, m, r, e))


class Pairs(Grows):
    """verbs over two vectors, atoms or lists of any types"""
    name = "pairs"
    quick, thorough = 4000, 60000
    TWO = "in in in find sect except union concat at take == != < > <= >= + - * / div % xbar within split and or like as enum rand bin binr xrank dict table list filter remove xasc xdesc map fold scan apply".split()
    ONE = "asc desc iasc idesc rank distinct distinct group group reverse raze count sum avg med dev min max first last not neg where til type key value format nil? round floor ceil unify ser enlist diverse meta row de eval quote parse resolve get".split()
    TYPES = [B8, U8, C8, I16, I32, I64, F64, DATE, TIME, TS, SYM, GUID]

    def gen(self, s):
        def val(t):
            k = s.draw(9)
            if k == 0:
                return gen.items(s, t, 1, True, 50)[0:1] and gen.vec_of(t, gen.items(s, t, 1, True, 50))
            if k == 1:
                return Lst([anyval.value(s, 0) for _ in range(s.draw(5))])
            if k == 2:
                return anyval.value(s, 1)
            n = s.choice([0, 1, 3, 8, 40, 300])
            if n > 40:
                return gen.big_array(s, t, n=n, mag=s.choice([5, 120, 100000]))
            return gen.vec_of(t, gen.items(s, t, n, True, s.choice([3, 50, None])))
        t = s.choice(self.TYPES)
        u = t if s.bool() else s.choice(self.TYPES)
        return dict(a=val(t), b=val(u), f=s.choice(self.ONE) if s.draw(4) == 0 else s.choice(self.TWO), sw=s.draw(6), how=None if s.draw(6) else s.choice(["map", "pmap", "fold", "scan", "map"]))

    def expr(self, c):
        x, y = [("p0", "p1"), ("p0", "p1"), ("p1", "p0"), ("p0", "(first p1)"), ("(first p0)", "p1"), ("(concat p0 p0)", "p1")][c["sw"]]
        m = c.get("how")
        if m:
            return "(%s %s %s)" % (m, c["f"], x if c["f"] in self.ONE or m not in ("map", "pmap") else x + " " + y)
        return "(%s %s)" % (c["f"], x) if c["f"] in self.ONE else "(%s %s %s)" % (c["f"], x, y)

    def run(self, c, env):
        if c["f"] in ("take", "til", "rand"):
            for v in (c["a"], c["b"]):
                if isinstance(v, Vec) and len(v.a) and v.t not in (SYM, GUID, C8, B8) and max(abs(float(q)) for q in list(v.a)) > 1000 or not isinstance(v, Vec):
                    raise Skip()
        d = env.driver("rel")
        d.set("p0", c["a"])
        d.set("p1", c["b"])
        e = self.expr(c)
        try:
            r = d.evaln(e, 10)
            self.grows(d, e, r)
        except Hang:
            if c["f"] in ("take", "til", "rand"):
                env.reset()
                raise Skip()
            raise
        return [c["f"], "error:%s" % r.name if isinstance(r, Err) else "value"]

    def nontrivial(self, c, l):
        return "value" in l

    def describe(self, c):
        return "%s\nwith p0 = %r, p1 = %r" % (self.expr(c), c["a"], c["b"])


class Queries(Grows):
    """queries over tables: selects of every shape, joins, updates, inserts, upserts, alterations, some of which fail"""
    name = "queries"
    quick, thorough = 4000, 60000
    OTHER = ["(update {%s from: t where: (> w %d)})", "(update {%s from: t by: k where: (> w %d)})", "(left-join [k] t u)", "(inner-join [k] t u)", "(left-join [k k2] t u)", "(inner-join [k2 k] t u)",
             "(asof-join [k w] t u)", "(asof-join [w] t u)", "(window-join [k w] (list (- (at t 'w) 2) (+ (at t 'w) 2)) t u {m: (sum x) n: (max x)})", "(window-join1 [k w] (list (- (at t 'w) 2) (+ (at t 'w) 2)) t u {m: (sum x) n: (count v)})",
             "(insert t u)", "(upsert t 1 u)", "(upsert t 2 u)", "(insert t (list 1 2 3 4 5))", "(upsert t 1 (list (at u 'k) (at u 'v)))", "(insert t (list (at u 'k) (at u 'v) (at u 'w) (at u 'x) (at u 'k2)))",
             "(concat t u)", "(union t u)", "(except t u)", "(sect t u)", "(distinct t)", "(group (at t 'k))", "(xasc t 'k)", "(xasc t ['k 'w])", "(xdesc t ['k2 'k])", "(xdesc t 'nosuch)", "(reverse t)", "(take t %d)", "(at t %d)", "(at t [0 1 %d])",
             "(filter t (> (at t 'w) %d))", "(in t u)", "(find t u)", "(do (let y t) (alter 'y set 'w %d))", "(do (let y t) (alter 'y set 'w [1 2]))", "(do (let y t) (alter 'y set ['w 'nosuch] (list 1 \"ab\")))",
             "(do (let y t) (alter 'y + 'w \"a\"))", "(do (let y (at t 'w)) (alter 'y set %d 5))", "(do (let y (at t 'v)) (alter 'y set [0 1] (list 'a \"b\")))", "(do (let y (at t 'k)) (alter 'y concat (at u 'v)))",
             "(do (let y (at t 'w)) (alter 'y set 0 (list \"ab\" 1)))", "(do (let y (at t 'k)) (alter 'y set [%d] (at u 'v)))", "(do (let y (at t 'v)) (alter 'y nosuchfn 0 (list 1 \"a\")))",
             "(do (let y t) (modify y set 'w %d))", "(meta t)", "(row (at t 'k))", "(select {from: t by: {a: k b: k2}})", "(select {q: (sum w) from: t by: {a: k b: k2 c: w}})", "(select {q: (count w) from: t by: {a: w b: w}})",
             "(select {q: (sum w) from: t by: {a: k b: nosuch}})", "(select {q: (sum nosuch) from: t by: k})", "(select {q: (map (fn [z] (raise \"bad\")) w) from: t by: k where: (> w %d)})", "(update {w: [1 2] from: t by: k})", "(update {w: \"abc\" from: t where: (> w %d)})",
             "(update {nw: (+ w 1) from: t where: (> w %d)})", "(update {w: (sum w) x: (nosuchfn 1) from: t by: k})", "(update {w: 'a from: t})", "(update {w: 1 from: 5})", "(update {from: t})", "(update {w: 1 from: (at t 'w)})", "(select {from: 5})", "(select {w: w from: nosuch})", "(select {w: w from: t where: 5})", "(select {w: w from: t by: {a: nosuch}})", "(update {w: 1 from: 'nosuch})", "(ser t)", "(de (ser t))", "(format t)", "(value t)", "(key t)", "(as 'list t)", "(table [a a] (list (at t 'k) (at t 'w)))",
             "(table [a b] (list (at t 'k) [1 2 3]))", "(dict (at t 'k) (at t 'w))", "(group (list (at t 'k) (at t 'k2)))", "(iasc (list (at t 'k) (at t 'k2)))", "(desc (at t 'k))", "(enum 'nosuch (at t 'k))"]

    def gen(self, s):
        import C14
        c = C14.gen_case(s, s.choice([0, 1, 4, 9, 40]), False)
        c["o"] = C14.gen_case(s, s.choice([0, 1, 3, 9]), False)
        if s.bool():
            c["o"]["k"], c["o"]["v"] = [gen.vec_of(q.t, [s.choice(list(q.a)) for _ in range(c["o"]["n"])] if len(q.a) else []) if len(q.a) else q for q in (c["k"], c["v"])]
            m = min(c["o"]["n"], len(c["o"]["k"].a))
            if m < c["o"]["n"]:
                c["o"] = {**c["o"], "k": c["k"]}
        if s.draw(6) == 0:
            q = c["k2"]
            c["k2"] = Vec(I64, [s.zint(0, 9) for _ in range(c["n"])])
        c["e"] = None if s.draw(4) == 0 else s.choice(self.OTHER)
        c["z"] = s.zint(-12, 12)
        return c

    def expr(self, c):
        import C14
        if c["e"] is None:
            return C14.source(c)
        e = c["e"]
        e = e.replace("{%s", "{v: (first v)" if c["z"] % 2 else "{w: (* w 2)")
        return e.replace("%d", str(c["z"]))

    def run(self, c, env):
        import C14
        d = env.driver("rel")
        for n, q in (("t", c), ("u", c["o"])):
            d.set(n, tbl([b"k", b"v", b"w", b"x", b"k2"], [q["k"], q["v"], q["w"], q["x"], q["k2"]]))
        if c["where"] and c["where"][0] == "mask":
            d.set("mk", c["where"][1])
        e = self.expr(c)
        r = d.evaln(e, 10)
        self.grows(d, e, r)
        return ["select" if c["e"] is None else c["e"].split(" ")[0][1:], "error:%s" % r.name if isinstance(r, Err) else "value"]

    def nontrivial(self, c, l):
        return c["n"] > 1

    def describe(self, c):
        return "%s\nwith t = %r\n  u = %r" % (self.expr(c), [c[x] for x in "k v w x k2".split()], [c["o"][x] for x in "k v w x k2".split()])


class Files(Grows):
    """what is read from files and written to them: values, columns, splayed and parted tables, delimited text"""
    name = "files"
    quick, thorough = 500, 8000
    OPS = ["(get \"V\")", "(set \"V\" p0)", "(set \"W\" (list 1 p0))", "(get \"S/\" \"Y\")", "(get-splayed \"S/\")", "(get-splayed \"S/\" \"S/sym\")", "(set-splayed \"S/\" t)", "(set-splayed \"S/\" t \"S/sym\")",
           "(get-parted \"P/\" 'd)", "(select {from: (get-parted \"P/\" 'd)})", "(select {s: (sum w) from: (get-parted \"P/\" 'd) by: Date})", "(select {s: (max w) from: (get-parted \"P/\" 'd) where: (> w 3)})",
           "(select {from: (get-parted \"P/\" 'd) where: (== Date 2024.01.02)})", "(count (get-parted \"P/\" 'd))", "(at (get-parted \"P/\" 'd) 'v)", "(at (get-parted \"P/\" 'd) 0)", "(meta (get-parted \"P/\" 'd))", "(get-parted \"P/\" 'nosuch)",
           "(at (get-splayed \"S/\") 'v)", "(select {s: (sum w) from: (get-splayed \"S/\") by: k})", "(read-csv [I64 F64 Symbol] \"C\")", "(read-csv [I64 I64 I64] \"C\")", "(read-csv [I64 F64] \"C\")", "(read-csv [String String String] \"C\")",
           "(write-csv \"D\" t)", "(read \"C\")", "(get \"C\")", "(get \"nosuch\")", "(load \"L\")", "(get-splayed \"B/\")", "(select {from: (get-splayed \"B/\")})", "(set \"nodir/x\" p0)", "(set-splayed \"N/\" p0)", "(do (let f (hopen \"H\")) (write f \"ab\") (hclose f))",
           "(hopen \"nodir/H\")", "(do (let f (hopen \"H\")) (write f p0) (hclose f))", "(do (let f (hopen \"H\")) (write f t) (write f 'a) (read f) (hclose f))", "(set-parted \"P/\" t)", "(write-csv \"nodir/D\" t)", "(eval (parse (read \"L\")))", "(get-splayed \"R/\")", "(get-parted \"Q/\" 'd)"]

    def gen(self, s):
        n = s.choice([0, 1, 3, 20])
        kt = s.choice([SYM, I64, GUID, C8, DATE, B8])
        cols = [gen.vec_of(t, gen.items(s, t, n, True, 50)) for t in (kt, s.choice([I64, F64, I32, U8, SYM, TS, I16]), I64)]
        return dict(n=n, cols=cols, v=anyval.value(s, s.choice([0, 1, 2])), ops=[s.choice(self.OPS) for _ in range(4)], cut=s.draw(40), txt=s.choice(["a,b,c\n1,2.5,x\n3,4,y\n", "a,b,c\n1,2,3\nq,,\n", "", "a\n", "a,b,c\n1,2.5,\"x,y\"\n3,4\n5,6,z,w\n"]), prog=s.choice(["(+ 1 2)", "(raise \"x\")", "(let q", "(til 5) (nosuch 1)", "\"abc\" (list 1 2 'a)"]))

    def run(self, c, env):
        d = env.driver("rel")
        dr = env.fresh_dir() + "/"
        d.set("p0", c["v"])
        d.set("t", tbl([b"k", b"v", b"w"], c["cols"]))
        open(dr + "C", "w").write(c["txt"])
        open(dr + "L", "w").write(c["prog"])
        d.eval("(set \"%sV\" p0)" % dr)
        for x in "SBR":
            d.eval("(set-splayed \"%s%s/\" t \"%s%s/sym\")" % (dr, x, dr, x) if x == "S" else "(set-splayed \"%s%s/\" t)" % (dr, x))
        for x in "PQ":
            for k in (1, 2):
                d.eval("(set-splayed \"%s%s/2024.01.0%d/d/\" t \"%s%s/sym\")" % (dr, x, k, dr, x))
        for f in (dr + "B/w", dr + "Q/2024.01.02/d/w"):   # a column cut short
            try:
                b = open(f, "rb").read()
                open(f, "wb").write(b[:c["cut"]])
            except OSError:
                pass
        try:
            os.unlink(dr + "R/v")
        except OSError:
            pass
        labels = []
        for o in c["ops"]:
            e = re.sub(r'"((?:[VWCDLHSBRPQN]|nodir|nosuch)[a-zA-Z/]*)"', lambda m: '"%s%s"' % (dr, m.group(1)), o)
            try:
                r = d.evaln(e, 10)
                self.grows(d, e, r)
            except Died as x:
                raise Skip()        # what a damaged file does is asked by C13, not here
            labels += [o.split(" ")[0][1:], "error:%s" % r.name if isinstance(r, Err) else "value"]
        return labels

    def nontrivial(self, c, l):
        return "value" in l

    def describe(self, c):
        return "%s\nwith t = %r, p0 = %r, cut %d, text %r, program %r" % (" ; ".join(c["ops"]), c["cols"], c["v"], c["cut"], c["txt"], c["prog"])


class Bytes(Grows):
    """reading bytes back, whole or damaged"""
    name = "bytes"
    quick, thorough = 3000, 60000

    def gen(self, s):
        k = s.draw(4)
        v = anyval.value(s, s.choice([1, 2, 3]))
        return dict(v=v, lam=s.choice(["(fn [x] (+ x 1))", "(fn [x y] (map (fn [z] (list z \"ab\" 'q)) x))", "(fn [] {a: 1 b: \"x\"})", None, None, None]), cut=s.draw(60) if k == 1 else None,
                    pokes=[(s.draw(400), s.choice([0, 1, 2, 5, 6, 11, 97, 98, 99, 100, 127, 128, 200, 249, 250, 251, 254, 255])) for _ in range(s.int(1, 2))] if k >= 2 else [])

    def run(self, c, env):
        d = env.driver("rel")
        d.set("p0", c["v"])
        b = d.eval("(ser %s)" % ("(list p0 %s p0)" % c["lam"] if c["lam"] else "p0"))
        if not isinstance(b, Vec):
            raise Skip()
        b = bytearray(bytes(bytearray(int(x) & 255 for x in b.a)))
        if c["cut"] is not None:
            b = b[:max(0, len(b) - c["cut"])]
        for i, x in c["pokes"]:
            if len(b) > 16:
                b[16 + i % (len(b) - 16)] = x
        d.set("p1", Vec(U8, list(b)))
        try:
            r = d.evaln("(de p1)", 10)
        except (Died, Hang):
            env.reset()
            raise Skip()        # C13 asks what damaged bytes may do
        if isinstance(r, Err) or not c["pokes"]:
            self.grows(d, "(de p1)", r)
        return ["error:%s" % r.name if isinstance(r, Err) else "value"]

    def nontrivial(self, c, l):
        return bool(c["pokes"]) or c["cut"] is not None

    def describe(self, c):
        return "(de p1) with p1 = (ser %r%s), cut by %s, with %s set" % (c["v"], c["lam"] or "", c["cut"], c["pokes"])


if __name__ == "__main__":
    run_check("C23", [Calls(), Progs(), Stop(), Pairs(), Queries(), Files(), Bytes()], rule="an expression of at least one call with arguments, a program of more than 20 characters, a function over at least two items")
