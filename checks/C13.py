import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, anyval, calls
import numpy as np
from gen import *


class Any(Prop):
    """any expression over any values"""
    name = "any"
    quick, thorough = 16000, 1000000
    flavours = ("asan",)

    def gen(self, s):
        n = s.draw(4)
        vs = [anyval.value(s, s.choice([1, 2, 0])) for _ in range(n)]
        g = calls.Gen(s, n)
        return dict(v=vs, e=[g.expr(s.choice([1, 1, 2, 3])) for _ in range(s.choice([1, 1, 2, 4]))])

    def run(self, c, env):
        d = env.driver("asan")
        for x in calls.SETUP:
            d.eval(x)
        for i, v in enumerate(c["v"]):
            d.set("p%d" % i, v)
        return self.check(d, env, c, list(c["v"]))

    def check(self, d, env, c, now):
        l = []
        for e in c["e"]:
            try:
                r = d.evaln("(set res (list %s))" % e, 20)
            except Hang:
                if "take" in e:
                    env.reset()
                    raise Skip()  # billions of elements are a lot of work
                raise
            l.append("error" if isinstance(r, Err) else "value")
            if not isinstance(r, Err):
                f = d.fmt("res", 20)
                if not isinstance(f, bytes):
                    raise Fail("%s gives %r, which cannot be printed" % (e, r))
                q = d.eval("res")
                if not same(q, r):
                    raise Fail("%s gives %r, which printed and read again is %r" % (e, r, q))
            for i, v in enumerate(now):
                w = d.eval("p%d" % i)
                if not same(w, v):
                    if not self.assigns(e, i):
                        raise Fail("%s changes p%d from %r to %r" % (e, i, v, w))
                    now[i] = w
        if not same(d.eval("(+ 1 (sum (map (fn [x] (* x 2)) [1 2 3])))"), i64(13)) or not same(d.eval("dom"), syms(["a", "b", "c"])):
            raise Fail("after %s the evaluator computes %r, dom is %r" % (c["e"], d.eval("(+ 1 (sum (map (fn [x] (* x 2)) [1 2 3])))"), d.eval("dom")))
        return l

    def assigns(self, e, i):
        return "p%d" % i in e and ("(let p%d" % i in e or "(let 'p%d" % i in e or "quote" in e and any(w in e for w in ("alter", "modify", "insert", "upsert", "update")))

    def nontrivial(self, c, l):
        return "value" in l

    def describe(self, c):
        return "%s\nwith %s" % ("\n".join(c["e"]), ", ".join("p%d = %r" % x for x in enumerate(c["v"])))


# values kept in files: a table parted by date, one in a directory, a vector, a list; and an enumeration
NAMES = ["pt", "st", "mv", "ml", "ev", "pca", "pcb", "pcc", "pcd", "pcs", "pcv"]
STORED = {"T": ["pt", "st"], "V": ["mv", "pca", "pcb", "pcs", "pcv", "pcd", "(at st 'b)", "(at st 'c)", "ev", "(at pt 'a)", "(at pt 'Date)"], "N": ["mv", "pca", "pcb", "(at st 'a)"],
          "S": ["ev", "pcc", "(at st 'c)"], "L": ["ml", "(at st 'x)"], "P": ["pcd", "pcs"], "B": ["pcv", "(at st 'v)", "(== Date 2024.01.01)"]}
PROBE = "(list (count pt) (select {from: pt where: (> Date 2000.01.01)}) (select {from: st}) (sum mv) (at ml [0 1 2 3]) (at ev [0 1 2]) (count pcc))"


class SGen(calls.Gen):
    def typed(self, kind, depth):
        if kind in STORED and self.s.draw(3) < 2:
            return self.s.choice(STORED[kind])
        return super().typed(kind, depth)

    def leaf(self):
        return self.s.choice(STORED[self.s.choice("TTVVSLB")]) if self.s.draw(2) else super().leaf()

    def any(self, depth):
        s = self.s
        if s.draw(3):
            return self.expr(depth)
        q = ["%s: %s" % (s.choice("abz"), self.col(depth)) for _ in range(s.draw(3))]
        if s.draw(2):
            q.append("by: " + s.choice(["Date", "a", "c", "{k: Date}", "{k: Date l: c}", self.col(depth)]))
        if s.draw(3):
            q.append("where: " + s.choice(["(== Date 2024.01.02)", "(> a 1)", "(== c 'a)", "v", "(and (> Date 2024.01.01) (< b 2.0))", "(in c [a b])", "false", self.col(depth)]))
        if not s.draw(5):
            q.append("take: %d" % s.zint(-3, 9))
        return "(select {%s from: %s})" % (" ".join(q), s.choice(["pt", "pt", "st"]))


class Stored(Any):
    """any expression over values kept in files"""
    name = "stored"
    quick, thorough = 3000, 200000

    def gen(self, s):
        g = SGen(s, 0)
        return dict(v=[], e=[g.any(s.choice([1, 1, 2, 3])) for _ in range(s.choice([1, 1, 2, 4]))])

    def run(self, c, env):
        d = env.driver("asan")
        if not same(d.eval("ready"), i64(os.getpid())):
            self.store(d, env.fresh_dir())
        try:
            l = self.check(d, env, c, [])
            p = d.eval(PROBE)
        except (Fail, Died, Hang):
            env.reset()
            raise
        if not same(p, d.eval("probe")):
            env.reset()
            if any(re.search(r"\((let|set) '?\(?%s\b|\(quote %s\)" % (x, x), e) for e in c["e"] for x in NAMES):
                raise Skip("assigned to")
            raise Fail("after %s the stored values are %r" % (c["e"], p))
        return l

    def store(self, d, root):
        root += "/"
        for i, (day, n) in enumerate((("01", 3), ("02", 2), ("05", 1))):
            a = np.arange(n) + i
            self.do(d, "(set-splayed \"%s2024.01.%s/tab/\" (table [a b c s v] (list [%s] [%s] [%s] (as 'TIMESTAMP [%s]) [%s])) \"%ssym\")" % (
                root, day, " ".join(map(str, a)), " ".join(map(str, a * 1.5)), " ".join("abcd"[x] for x in a), " ".join(map(str, a * 7)),
                " ".join(["false", "true"][x % 2] for x in a), root))
        self.do(d, "(set pt (get-parted \"%s\" 'tab))" % root)
        for x in "abcsv":
            self.do(d, "(set pc%s (at pt '%s))" % (x, x))
        self.do(d, "(set pcd (at pt 'Date))")
        self.do(d, "(set-splayed \"%ssp/\" (table [a b c x v] (list [1 0Nl 3] [1.5 0Nf 2.0] [a b a] (list 1 'a \"s\") [true false true])) \"%ssym\")" % (root, root))
        self.do(d, "(set st (get-splayed \"%ssp/\" \"%ssym\"))" % (root, root))
        self.do(d, "(set \"%smv\" [1 2 3 0Nl 5])" % root)
        self.do(d, "(set mv (get \"%smv\"))" % root)
        self.do(d, "(set \"%sml\" (list 1 'a \"s\" [1 2]))" % root)
        self.do(d, "(set ml (get \"%sml\"))" % root)
        self.do(d, "(set dom [a b c])")
        self.do(d, "(set ev (enum 'dom [b a b]))")
        for x in calls.SETUP:
            d.eval(x)
        p = self.do(d, "(set probe %s)" % PROBE)
        if isinstance(p, Err) or not same(p.a[0], i64(6)):
            raise Infra("the stored table is %r" % (p,))
        self.do(d, "(set ready %d)" % os.getpid())

    def do(self, d, x):
        r = d.eval(x)
        if isinstance(r, Err):
            raise Fail("%s gives %r" % (x, r))
        return r

    def nontrivial(self, c, l):
        return "value" in l

    def describe(self, c):
        return "\n".join(c["e"])


if __name__ == "__main__":
    run_check("C13", [Any(), Stored()], rule="at least one of the expressions has a value")
