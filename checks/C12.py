import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prog import *
import gen


class Depth(Prop):
    """recursion of any depth gives its value or a refusal, and leaves the evaluator usable"""
    name = "depth"
    quick, thorough = 400, 4000
    flavours = ("rel", "asan")
    F = {
        "self": ("(fn [n] (if (<= n 0) 0 (+ 1 (self (- n 1)))))", lambda n: n),
        "acc": ("(fn [n a] (if (<= n 0) a (self (- n 1) (+ a n))))", lambda n: n * (n + 1) // 2),
        "named": ("(fn [n] (if (<= n 0) 0 (+ 1 (deepf (- n 1)))))", lambda n: n),
        "let": ("(fn [n] (let m (- n 1)) (if (<= n 0) 0 (+ 1 (self m))))", lambda n: n),
        "lets": ("(fn [n] (if (<= n 0) 0 (do (let r (deepf (- n 1))) (+ r 1))))", lambda n: n),
        "try": ("(fn [n] (if (<= n 0) 0 (+ 1 (try (deepf (- n 1)) (raise \"up\")))))", lambda n: n),
        "map": ("(fn [n] (if (<= n 0) 0 (+ 1 (sum (map deepf (enlist (- n 1)))))))", lambda n: n),
        "fold": ("(fn [n] (if (<= n 0) 0 (+ 1 (fold (fn [a b] (deepf b)) (list 0 (- n 1))))))", lambda n: n),
        "apply": ("(fn [n] (if (<= n 0) 0 (+ 1 (apply deepf (- n 1)))))", lambda n: n),
        "return": ("(fn [n] (if (<= n 0) (return 0)) (return (+ 1 (self (- n 1)))))", lambda n: n),
        "and": ("(fn [n] (if (and (> n 0) true) (+ 1 (deepf (- n 1))) 0))", lambda n: n),
        "args": ("(fn [n a b c d e] (if (<= n 0) a (+ 1 (self (- n 1) a b c d e))))", lambda n: n + 1),
        "operands": ("(fn [n] (if (<= n 0) 0 (at (list 0 0 0 0 0 0 0 0 1 (+ 1 (self (- n 1)))) 9)))", lambda n: n),
        "eval": ("(fn [n] (if (<= n 0) 0 (+ 1 (eval (list deepf (- n 1))))))", lambda n: n),
    }

    def gen(self, s):
        return dict(k=s.choice(sorted(self.F)), n=s.weighted([(3, 0), (3, 1), (2, 2)]) and s.choice([5, 50, 100, 200, 340, 500, 511, 512, 600, 1000, 1023, 1024, 1025, 2000, 5000, 100000]) or s.int(0, 60),
                    ctx=s.draw(4), asan=s.draw(4) == 0)

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel")
        src, f = self.F[c["k"]]
        d.eval("(set deepf %s)" % src)
        extra = " 1 2 3 4 5" if c["k"] == "args" else " 0" if c["k"] == "acc" else ""
        call = "(deepf %d%s)" % (c["n"], extra)
        call = [call, "((fn [] %s))" % call, "(first (map (fn [q] %s) [1]))" % call, "(try %s -77)" % call][c["ctx"]]
        for rep in range(2):
            r = d.eval(call)
            want = i64(f(c["n"]))
            refused = isinstance(r, Err) or (c["ctx"] == 3 and same(r, i64(-77)))
            if not same(r, want) and not (refused and c["n"] > 60):
                raise Fail("%s gives %s with deepf = %s, expected %s" % (call, r, src, want))
            if isinstance(r, Err) and r.name not in ("limit", "") :
                raise Fail("%s gives %s with deepf = %s" % (call, r, src))
            # the evaluator is as before
            for e, w in (("(deepf 20%s)" % extra, f(20)), ("((fn [x y] (let z (+ x y)) (+ z (count (map (fn [q] (+ q x)) (til y))))) 3 4)", 11),
                         ('(try (raise "abc") (fn [e] (count e)))', 3)):
                g = d.eval(e)
                if not same(g, i64(w)):
                    raise Fail("after %s giving %s: %s gives %s with deepf = %s, expected %s" % (call, r, e, g, src, w))
        return [c["k"], "refused" if refused else "value"]

    def nontrivial(self, c, labels):
        return c["n"] > 10

    def describe(self, c):
        return "deepf=%s n=%d context %d%s" % (self.F[c["k"]][0], c["n"], c["ctx"], " asan" if c["asan"] else "")


class Adverbs(Prop):
    """a builtin under an adverb does what the function calling that builtin does"""
    name = "adverbs"
    quick, thorough = 20000, 400000
    U = "neg not sum avg count distinct reverse first last max min dev med iasc asc desc type til where enlist list".split()
    B = "+ - * / % div < <= > >= == != take at xbar find concat within union except sect remove like split".split()
    HOW = ["map", "pmap", "fold", "scan", "fold-left", "scan-left", "scan-right"]

    def item(self, s, k):
        t = s.choice([I64, I64, F64, I32, SYM, B8, I16, DATE, C8]) if k is None else k
        if s.draw(2):
            return gen.vec_of(t, gen.items(s, t, s.size(4), self.null, mag=30))
        return Atom(t, gen.scalar(s, t, self.null, mag=30))

    def gen(self, s):
        how = s.choice(self.HOW)
        f = s.choice(self.U if how in ("map", "pmap") else self.B)
        self.null = f not in ("til", "take")    # a null count asks for all of the memory
        if how in ("map", "pmap"):
            k = s.choice([None, None, I64, F64, SYM])
            return dict(how=how, f=f, args=[Lst([self.item(s, k) for _ in range(1 + s.size(6))])], n=1)
        if s.draw(2):
            t = s.choice([I64, I64, F64, I32, SYM, DATE])
            coll = gen.vec_of(t, gen.items(s, t, 1 + s.size(7), self.null, mag=30))
        else:
            k = s.choice([None, I64, F64])
            coll = Lst([self.item(s, k) for _ in range(1 + s.size(5))])
        return dict(how=how, f=f, args=[self.item(s, None), coll] if "-" in how else [coll], n=2)

    def run(self, c, env):
        d = env.driver("rel", cores=4 if c["how"] == "pmap" else 1)
        for i, a in enumerate(c["args"]):
            d.set("q%d" % i, a)
        ps = "xy"[:c["n"]]
        xs = " ".join("q%d" % i for i in range(len(c["args"])))
        fn = "(fn [%s] (%s %s))" % (" ".join(ps), c["f"], " ".join(ps))
        w, r = d.eval("(%s %s %s)" % (c["how"], fn, xs)), d.eval("(%s %s %s)" % (c["how"], c["f"], xs))
        if isinstance(w, Err):
            return ["refused"]
        if not same(r, w):
            raise Fail("(%s %s %s) gives %s, with %s it gives %s; arguments %s" % (c["how"], c["f"], xs, r, fn, w, c["args"]))
        return [c["how"], "value"]

    def nontrivial(self, c, labels):
        return "value" in labels

    def describe(self, c):
        return "(%s %s) of %s" % (c["how"], c["f"], c["args"])


if __name__ == "__main__":
    sys.exit(run_check("C12", [Programs(), Depth(), Adverbs()], rule="at least two kinds of constructs (functions, recursion, try, adverbs, effects, errors, ...)", assumptions=[]))
