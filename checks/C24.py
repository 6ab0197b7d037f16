import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prog import *
import build, subprocess
import numpy as np


class Pmap(Prop):
    """pmap on several cores gives what map gives: values and errors, with the caller's variables"""
    name = "pmap"
    quick, thorough = 4000, 80000

    def gen(self, s):
        g = Gn(s)
        g.pure = 1
        fs = []
        for i in range(s.int(0, 2)):
            fs.append(g.fun(i, s.int(1, 3)))
        n = s.choice([1, 2, 3, 5, 8, 9, 17, 33, 64, 200, 1000, 2500])
        ctx = s.choice(["top", "fn", "do", "lambda2", "map"])
        env, pre = {}, []
        if ctx != "top" and s.draw(2):
            for nm in ("u1", "u2")[:s.int(1, 2)]:
                pre.append(("let", nm, g.int(dict(env), 1)))
                env[nm] = "i"
        k = s.draw(7)
        lam = g.lam(dict(env), ["x"], ["i"], s.int(1, 4 if n < 100 else 2))
        last = lam[2][0] if len(lam[2]) == 1 else ("do", lam[2])
        if k == 0:      # vectors and lists
            lam = ("lam", ["x"], [("op", "til", [("op", "-", [("var", "x"), ("var", "x")])]) if s.draw(4) == 0 else ("op", "list", [("var", "x"), last])])
        elif k == 1:    # an error at one item
            e = ("raise", "m" * s.int(0, 100)) if s.draw(3) else ("var", "undefinedvar")
            lam = ("lam", ["x"], [("if", ("op", "==", [("var", "x"), ("lit", s.draw(n))]), e, last)])
        elif k == 2:    # many small objects
            m = s.int(10, 120)
            lam = ("lam", ["x"], [("op", "+", [("op", "count", [("adv", "map", ("lam", ["y"], [("op", "list", [("var", "y"), ("op", "+", [("var", "y"), ("lit", 1)])])]),
                   [("op", "til", [("lit", m)])])]), last])])
        elif k == 3:    # a run inside of a run
            inner = g.lam(dict(env, x="i"), ["y"], ["i"], 1)
            lam = ("lam", ["x"], [("op", "+", [("op", "sum", [("adv", "pmap", inner, [("op", "til", [("lit", s.int(0, 9))])])]), last])])
        arg = ("op", "til", [("lit", n)])
        e = ("adv", "pmap", lam, [arg])
        if s.draw(3) == 0:
            e = ("try", e, ("lam", ["e"], [("msglen", "e")]))
        return dict(funs=fs, prog=pre + [e], ctx=[ctx], cores=s.int(2, 8), asan=False)

    def run(self, c, env):
        env2 = type("E", (), {"driver": lambda self, fl: env.driver("rel", cores=c["cores"])})()
        r = set(Programs.run(self, c, env2))
        return r | {"cores%d" % c["cores"]} | ({"captured"} if len(c["prog"]) > 1 else set())

    model, wrapped = Programs.model, Programs.wrapped
    nontrivial = Programs.nontrivial

    def describe(self, c):
        return Programs.describe(self, c) + " cores=%d" % c["cores"]


# ------------------------------------------------- one core against several
class Cores(Prop):
    """an expression over large vectors gives the same on one core and on several"""
    name = "cores"
    quick, thorough = 500, 12000
    VARS = ("va", "vb", "vd", "vf", "vs", "vh")
    MAXCORES = 8
    SPLIT = "rel"

    def gen(self, s):
        n = s.choice([16384, 16385, 16390, 17000, 20000, 24577, 32768, 33333, 40000, 65536, 70001])
        if s.draw(4) == 3:
            n = 512 * s.int(32, 80) + s.choice([0, 1, 2, 511])
        return dict(n=n, m=s.choice([1, 2, 7, 100, 1009, n // 2, 10 * n]), p=s.choice([1, 7919, 104729]), nulls=s.draw(3), cores=s.int(2, self.MAXCORES), seed=s.draw(1 << 20),
                    exprs=[self.expr(s) for _ in range(s.int(1, 3))])

    def vec(self, s, d=1):
        """numeric vector of the full length"""
        k = s.draw(9 if d > 0 else 4)
        if k < 4:
            return ["va", "vb", "vf", "vh"][k]
        if k < 7:
            return "(%s %s %s)" % (s.choice(["+", "-", "*", "div", "/", "%"]), self.vec(s, d - 1), s.choice(["3", "7", "va", "vf", "2.5"]))
        if k == 7:
            return "(%s %s)" % (s.choice(["neg", "round", "floor", "ceil"]), self.vec(s, d - 1))
        return "(as '%s %s)" % (s.choice(["i64", "f64", "i32"]), s.choice(["va", "vb", "vh"]))

    def cond(self, s):
        k = s.draw(5)
        c = "(%s %s %s)" % (s.choice(["<", ">", "<=", ">=", "==", "!="]), self.vec(s, 0), s.choice(["3", "va", "50", "vb"]))
        if k == 0:
            return "(%s %s %s)" % (s.choice(["and", "or"]), c, "(< va 40)")
        if k == 1:
            return "(not %s)" % c
        if k == 2:
            return "(in %s (til 10))" % s.choice(["va", "vb"])
        if k == 3:
            return "(== vs 'a1)"
        return c

    def expr(self, s):
        k = s.draw(16)
        if k == 0:
            return "(%s %s)" % (s.choice(["sum", "min", "max", "avg", "dev", "med", "count", "first", "last"]), self.vec(s))
        if k == 1:
            return self.vec(s, 2)
        if k == 2:
            return self.cond(s)
        if k == 3:
            return "(where %s)" % self.cond(s)
        if k == 4:
            return "(%s %s)" % (s.choice(["asc", "desc", "iasc", "idesc", "rank"]), self.vec(s, 0))
        if k == 5:
            return "(%s %s)" % (s.choice(["distinct", "group"]), s.choice(["va", "vs", "vd"]))
        if k == 6:
            return "(at %s (where %s))" % (s.choice(self.VARS), self.cond(s))
        if k == 7:
            return "(at %s (%% va (count va)))" % s.choice(self.VARS)
        if k == 8:
            return "(%s (til 500) %s)" % (s.choice(["in", "find"]), "va") if s.draw(2) else "(find va (til 500))"
        if k in (9, 10, 11):
            ag = " ".join("%s: (%s %s)" % (nm, s.choice(["sum", "min", "max", "avg", "count", "first", "last", "med", "dev"]), s.choice(["va", "vb", "vf", "vh"]))
                          for nm in ["r1", "r2", "r3"][:s.int(1, 3)])
            by = s.choice(["vs", "va", "vd", "vb", "{ka: vs kb: va}", "{ka: vd kb: vs}", "{ka: va kb: vb kc: vs}"])
            w = " where: %s" % self.cond(s) if s.draw(2) else ""
            return "(select {%s from: tt%s by: %s})" % (ag, w, by)
        if k == 12:
            return "(select {r1: va r2: (+ vb 1) from: tt where: %s})" % self.cond(s)
        if k == 13:
            return "(%s tt [%s])" % (s.choice(["xasc", "xdesc"]), s.choice(["vs", "va", "vb va", "vs vb"]))
        if k == 14:
            return "(%s %s %s)" % (s.choice(["union", "sect", "except"]), "va", "vb") if s.draw(2) else "(xrank va 7)" if s.draw(2) else "(xbar va 10)"
        return "(%s [vs%s] tt uu)" % (s.choice(["left-join", "inner-join"]), s.choice(["", " va"]))

    def setup(self, c):
        n, m, p = c["n"], c["m"], c["p"]
        r = ["(set va (%% (* (til %d) %d) %d))" % (n, p, m)]
        r.append("(set vb (%% (* (+ (til %d) 5) 104729) 97))" % n)
        if c["nulls"]:
            r.append("(set va (at va (%% (* (til %d) 3) %d)))" % (n, n + max(1, n // 50)))
        if c["nulls"] == 2:
            r.append("(set vb (at vb (%% (* (til %d) 7) %d)))" % (n, n + max(1, n // 7)))
        r += ["(set vd (as 'date (%% (til %d) 31)))" % n, "(set vf (div vb 4.0))", "(set vh (as 'i32 vb))",
              "(set vs (at [a0 a1 a2 a3 a4 a5 a6] (%% (* 3 (til %d)) 7)))" % n,
              "(set tt (table [va vb vd vf vs vh] (list va vb vd vf vs vh)))",
              "(set uu (table [vs va zz] (list (at [a1 a2 a3 q] (% (til 40) 4)) (til 40) (til 40))))"]
        return r

    def run(self, c, env):
        d1, dn = env.driver("rel"), env.driver(self.SPLIT, cores=c["cores"])
        labels = ["cores%d" % c["cores"]]
        for x in self.setup(c):
            a, b = d1.eval(x), dn.eval(x)
            if isinstance(a, Err) != isinstance(b, Err):
                raise Fail("%s: %s and %s on one core and on %d" % (x, str(a)[:100], str(b)[:100], c["cores"]))
            if isinstance(a, Err):
                raise Fail("setup %s fails: %s" % (x, a))
        for e in c["exprs"]:
            if "vs" in e and "(+ " in e and "vs 3" in e:
                continue
            t = time.monotonic()
            try:
                a = d1.eval(e)
            except Hang:
                env.reset()
                raise Skip()
            if time.monotonic() - t > 1.5:       # medians of tens of thousands of groups: quadratic on one core already
                labels.append("slow")
                continue
            for rep in range(2):
                b = dn.eval(e)
                if isinstance(a, Err) or isinstance(b, Err):
                    if not (isinstance(a, Err) and isinstance(b, Err) and a.name == b.name):
                        raise Fail("%s gives %s on one core and %s on %d" % (e, str(a)[:200], str(b)[:200], c["cores"]))
                    continue
                # the order of groups is not promised for several keys
                x, y = (bykeys(a), bykeys(b)) if "by: {" in e else (a, b)
                if not alike(x, y):
                    raise Fail("%s gives different results on one core and on %d: %s | %s" % (e, c["cores"], str(a)[:300], str(b)[:300]))
            labels.append(e.split()[0].strip("(") + (" error" if isinstance(a, Err) else ""))
        return labels

    def nontrivial(self, c, labels):
        return not all(x.endswith("error") for x in labels[1:])

    def describe(self, c):
        return "n=%d m=%d p=%d nulls=%d cores=%d %s" % (c["n"], c["m"], c["p"], c["nulls"], c["cores"], " ; ".join(c["exprs"]))


class Bounds(Cores):
    """each worker keeps within its part of the vectors, however many workers there are"""
    name = "bounds"
    quick, thorough = 150, 4000
    MAXCORES = 16
    flavours = ("rel", "asan")
    SPLIT = "asan"


def bykeys(t):
    """rows of a table in the order of its key columns"""
    nk = sum(1 for x in t.k.a if x[:1] == b"k")
    rows = sorted(range(len(t.v.a[0].a)), key=lambda i: [c.a[i] for c in t.v.a[:nk]])
    return Pair(t.t, t.k, Lst([Vec(c.t, [c.a[i] for i in rows]) if isinstance(c, Vec) else Lst([c.a[i] for i in rows]) for c in t.v.a]))


def alike(a, b):
    """the same but for the rounding of sums of floats"""
    if type(a) is not type(b):
        return False
    if isinstance(a, Atom) and a.t == b.t == F64:
        return fl(a.v, b.v)
    if isinstance(a, Vec) and a.t == b.t == F64:
        return len(a.a) == len(b.a) and (np.array_equal(a.a, b.a, equal_nan=True) or all(fl(x, y) for x, y in zip(a.a.tolist(), b.a.tolist())))
    if isinstance(a, Lst):
        return len(a.a) == len(b.a) and all(alike(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Pair):
        return a.t == b.t and alike(a.k, b.k) and alike(a.v, b.v)
    return same(a, b)


def fl(x, y):
    if x != x or y != y:
        return x != x and y != y
    if x == y:
        return True
    return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


class Exit(Prop):
    """a process with any number of cores starts, runs its script and exits"""
    name = "exit"
    quick, thorough = 160, 3000

    def gen(self, s):
        return dict(cores=s.choice([1, 2, 3, 4, 6, 8, 12, 16, 32]), k=s.draw(4), n=s.int(0, 300))

    def run(self, c, env):
        body = ["(println \"v%%\" (sum (til %d)))" % (c["n"] + 1), "(println \"v%%\" (sum (pmap (fn [x] x) (til %d))))" % (c["n"] + 1),
                "(println \"v%%\" (+ (sum (til %d)) (- (sum (til 50000)) (sum (til 50000)))))" % (c["n"] + 1), "(println \"v%%\" %d)\n(exit 0)" % (c["n"] * (c["n"] + 1) // 2)][c["k"]]
        p = os.path.join(env.scratch, "s.rfl")
        with open(p, "w") as f:
            f.write(body + "\n")
        want = "v%d" % (c["n"] * (c["n"] + 1) // 2)
        bin = build.main_binary()
        for rep in range(3):
            try:
                r = subprocess.run([bin, "-c", str(c["cores"]), p], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, cwd=env.scratch)
            except subprocess.TimeoutExpired:
                raise Fail("rayforce -c %d with %r does not exit" % (c["cores"], body))
            out = r.stdout.decode("latin1")
            if r.returncode != 0 or want not in out:
                raise Fail("rayforce -c %d with %r: exit code %d, output %r, expected %s" % (c["cores"], body, r.returncode, out[-300:], want))
        return ["cores%d" % c["cores"], "k%d" % c["k"]]

    def nontrivial(self, c, labels):
        return c["cores"] > 1

    def describe(self, c):
        return "cores=%d script %d n=%d" % (c["cores"], c["k"], c["n"])


if __name__ == "__main__":
    sys.exit(run_check("C24", [Pmap(), Cores(), Bounds(), Exit()], rule="the result is a value on more than one core, with at least two kinds of constructs", assumptions=[]))
