import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen
from gen import *
import numpy as np

PLAIN = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def name(s):
    k = s.draw(10)
    if k < 3:
        return bytes(s.choice(PLAIN[:3]) for _ in range(s.int(1, 4)))
    if k < 5:
        return bytes(s.choice(PLAIN) for _ in range(s.int(1, 20)))
    if k < 7:
        return bytes(s.int(1, 255) for _ in range(s.int(1, 9)))
    if k == 7:
        return s.choice([b"a", b"ab"]) * s.choice([1, 2, 30, 500, 2046, 2047, 2048, 4090, 4091, 4092, 4093, 5000, 20000])
    if k == 8:
        return bytes([s.int(1, 255)]) * s.int(1, 3) + s.choice([b"", b" ", b"\n", b"'", b"\"", b","])
    return b"p" * 7 + bytes([s.choice([1, 2, 255])])


def csvq(x):
    return b'"' + x.replace(b'"', b'""') + b'"'


class Text(Prop):
    """a symbol is its text, whatever made it: equal to another exactly when the texts are"""
    name = "text"
    quick, thorough = 6000, 120000

    def gen(self, s):
        base = [name(s) for _ in range(s.int(1, 5))]
        xs = []
        for _ in range(s.int(2, 10)):
            x = s.choice(base)
            k = s.draw(8)
            if k == 0:
                x = x + b"a"
            elif k == 1 and len(x) > 1:
                x = x[:-1]
            elif k == 2:
                x = x[:-1] + bytes([(x[-1] ^ 1) or 1])
            xs.append((x, s.choice(["set", "as", "ser", "csv", "vec", "lit", "key", "pmap", "file", "format"])))
        return dict(xs=xs)

    def run(self, c, env):
        d = env.driver("rel", cores=4)
        xs = c["xs"]
        dir = env.fresh_dir()
        for i, (x, how) in enumerate(xs):
            v = "sy%d" % i
            if how == "lit" and not all(b in PLAIN for b in x):
                how = "as"
            if how == "format" and (len(x) > 30 or b"\0" in x):
                how = "as"
            d.set("tx", Vec(C8, x))
            if how == "set":
                d.set(v, Atom(SYM, x))
                r = None
            elif how == "as":
                r = d.eval("(set %s (as 'symbol tx))" % v)
            elif how == "ser":
                r = d.eval("(set %s (de (ser (as 'symbol tx))))" % v)
            elif how == "csv":
                f = os.path.join(dir, "f%d.csv" % i)
                open(f, "wb").write(b"k\n" + csvq(x) + b"\n")
                r = d.eval("(set %s (first (at (read-csv [SYMBOL] \"%s\") 'k)))" % (v, f))
            elif how == "vec":
                d.set("vv", Vec(SYM, [b"zz", x]))
                r = d.eval("(set %s (at vv 1))" % v)
            elif how == "lit":
                r = d.eval("(set %s '%s)" % (v, x.decode()))
            elif how == "key":
                r = d.eval("(set %s (first (key (dict (as 'SYMBOL (list tx \"q\")) [1 2]))))" % v)
            elif how == "pmap":
                r = d.eval("(set %s (at (pmap (fn [z] (as 'symbol z)) (list \"r\" tx tx tx)) 3))" % v)
            elif how == "file":
                f = os.path.join(dir, "f%d" % i)
                r = d.eval("(do (set \"%s\" (as 'SYMBOL (list tx tx))) (set %s (first (get \"%s\"))) null)" % (f, v, f))
            else:
                r = d.eval("(set %s (as 'symbol (format \"%%\" (as 'symbol tx))))" % v)
            if isinstance(r, Err):
                raise Fail("making the symbol %r by %s raised %r" % (x[:60], how, r))
        n = len(xs)
        g = d.eval("(set syms (at (list %s) (til %d)))" % (" ".join("sy%d" % i for i in range(n)), n))
        w = Vec(SYM, [x for x, _ in xs])
        if not same(w, g):
            raise Fail("the symbols made by %s have the texts %r, expected %r" % ([h for _, h in xs], g, w))
        for i in range(n):
            g = d.eval("(== syms sy%d)" % i)
            w = Vec(B8, np.array([x == xs[i][0] for x, _ in xs], dtype=DT[B8]))
            if not same(w, g):
                raise Fail("symbols %r made by %s equal number %d: %r, expected %r" % ([x[:40] for x, _ in xs], [h for _, h in xs], i, g, w))
        first = [xs.index(next(y for y in xs if y[0] == x)) for x, _ in xs]
        g = d.eval("(find syms syms)")
        w = Vec(I64, np.array(first, dtype=np.int64))
        if not same(w, g):
            raise Fail("(find syms syms) over %r made by %s gave %r, expected %r" % ([x[:40] for x, _ in xs], [h for _, h in xs], g, w))
        g = d.eval("(asc syms)")
        w = Vec(SYM, sorted(x for x, _ in xs))
        if not same(w, g):
            raise Fail("(asc syms) over %r gave %r" % ([x[:40] for x, _ in xs], g))
        return dict(n=len(set(x for x, _ in xs)), rep=len(set(first)) < n, hows=tuple(sorted(set(h for _, h in xs))))

    def nontrivial(self, c, labels):
        return labels["n"] > 1 and len(labels["hows"]) > 1

    def describe(self, c):
        return "; ".join("%r by %s" % (x[:40], h) for x, h in c["xs"])


class Crowd(Prop):
    """symbols first met by many threads at once are the same symbols as met by one"""
    name = "crowd"
    quick, thorough = 120, 3000

    def gen(self, s):
        return dict(n=s.choice([16384, 17000, 20000, 40000, 60000]), m=s.choice([1, 3, 50, 1000, 5000, 30000]), step=s.choice([1, 7, 7919, 104729]), len=s.choice([0, 0, 1, 5, 60, 300]),
                    how=s.choice(["csv", "pmap", "csv", "cast"]), cores=s.int(2, 8), tag=s.seed())

    def run(self, c, env):
        d = env.driver("rel", cores=c["cores"])
        n, m = c["n"], c["m"]
        if c["how"] == "pmap":
            n = min(n, 16384)
        pad = "x" * c["len"]
        nm = ["s%x_%d%s" % (c["tag"], i, pad) for i in range(min(m, n))]
        m = len(nm)
        ix = [(i * c["step"]) % m for i in range(n)]
        rows = [nm[i] for i in ix]
        f = os.path.join(env.fresh_dir(), "s.csv")
        open(f, "w").write("k\n" + "\n".join(rows) + "\n")
        src = "(at (read-csv [SYMBOL] \"%s\") 'k)" % f
        if c["how"] == "pmap":
            d.eval("(do (set txs (at (read-csv [C8] \"%s\") 'k)) null)" % f)
            src = "(pmap (fn [z] (as 'symbol z)) txs)"
        elif c["how"] == "cast":
            d.eval("(do (set txs (at (read-csv [C8] \"%s\") 'k)) null)" % f)
            src = "(as 'SYMBOL txs)"
        g = d.eval("(set one %s)" % src)
        if isinstance(g, Err):
            raise Fail("%s raised %r" % (src, g))
        w = Vec(SYM, [x.encode() for x in rows])
        if not same(w, g):
            bad = [i for i, (a, b) in enumerate(zip(w.a, g.a)) if a != b][:3] if isinstance(g, Vec) else g
            raise Fail("%d symbols read by %d threads differ from the texts at %r" % (n, c["cores"], bad))
        g = d.eval("(set two (at (read-csv [SYMBOL] \"%s\") 'k))" % f)
        if d.eval("(sum (as 'i64 (== one two)))") != i64(n) and not same(i64(n), d.eval("(sum (as 'i64 (== one two)))")):
            raise Fail("the same %d texts read twice give different symbols" % n)
        g = d.eval("(count (distinct one))")
        k = len(set(rows))
        if not same(i64(k), g):
            raise Fail("%d different texts gave %r different symbols" % (k, g))
        d.eval("(do (set one 0) (set two 0) (set txs 0) null)")
        return dict(how=c["how"], cores=c["cores"], m=m)

    def nontrivial(self, c, labels):
        return labels["m"] > 1

    def describe(self, c):
        return "%(n)d rows of %(m)d symbols (step %(step)d, length +%(len)d) by %(how)s on %(cores)d cores" % c


if __name__ == "__main__":
    sys.exit(run_check("C25", [Text(), Crowd()], rule="text: at least two texts made in two ways; crowd: at least two symbols",
                       assumptions=["symbols hold no zero byte; the empty text is the null symbol"]))
