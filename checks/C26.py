import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import anyval, gen
from gen import *
import numpy as np


def items(p):
    """the pattern as a list of '*' or functions of a byte, None when a bracket is not closed"""
    r, i = [], 0
    while i < len(p):
        c = p[i:i + 1]
        if c == b"*":
            r.append("*")
        elif c == b"?":
            r.append(lambda x: True)
        elif c == b"[":
            j = i + 1
            inv = p[j:j + 1] == b"^"
            j += inv
            k = p.find(b"]", j)
            if k < 0:
                return None
            r.append(lambda x, cs=frozenset(p[j:k]), inv=inv: (x in cs) != inv)
            i = k
        else:
            r.append(lambda x, c=p[i]: x == c)
        i += 1
    return r


def matches(t, p):
    it = items(p)
    if it is None:
        return False
    at = {0}
    for x in it:
        if x == "*":
            at = set(range(min(at), len(t) + 1)) if at else at
        else:
            at = {i + 1 for i in at if i < len(t) and x(t[i])}
    return len(t) in at


ALPHA = [b"a", b"b", b"a", b"b", b"c", b"*", b"?", b"[", b"]", b"^", b"\xc3", b" "]


def text(s, n, wide=False):
    if wide and s.draw(4) == 3:
        return bytes(s.draw(256) for _ in range(n))
    return b"".join(s.choice(ALPHA if s.draw(4) == 3 else ALPHA[:5]) for _ in range(n))


def pattern(s, t):
    """a pattern which is often near the text"""
    k = s.draw(5)
    if k == 0:
        return b"".join(s.choice([b"*", b"?", b"a", b"b", b"ab", b"[ab]", b"[^a]", b"[", b"]", b"**", b"*a", b"[]", b"[^]", b"c"]) for _ in range(s.size(8)))
    out, i = [], 0
    while i < len(t):
        c = t[i:i + 1]
        k = s.draw(9)
        if k < 3:
            out.append(c)
            i += 1
        elif k == 3:
            out.append(b"?")
            i += 1
        elif k == 4:
            out.append(b"*")
            i += s.int(0, 4)
        elif k == 5:
            out.append(b"[" + (b"" if c in b"^]" else c) + s.choice([b"", b"x", b"ab", b"*?"]) + b"]")
            i += 1
        elif k == 6:
            out.append(b"[^" + s.choice([b"x", b"xyz", b"c"]) + b"]")
            i += 1
        elif k == 7:
            out.append(b"*" + c)
            i += 1
        else:
            out.append(c)
            i += s.choice([1, 1, 2])
    if s.draw(3) == 2:
        out.append(b"*")
    return b"".join(out)


def st(x):
    return Vec(C8, x)


class Like(Prop):
    """like is a match of the whole text with a pattern of *, ?, [set], [^set] and plain bytes, wherever the texts are"""
    name = "like"
    quick, thorough = 40000, 900000

    def gen(self, s):
        k = s.weighted([(8, "one"), (4, "list"), (1, "file"), (1, "select"), (1, "long")])
        if k == "long":
            t = text(s, s.int(200, 900))
            return dict(k="one", ts=[t], p=pattern(s, t[:s.int(1, 12)]) + b"*" + t[-s.int(1, 5):])
        ts = [text(s, s.size(14), True) for _ in range(1 if k == "one" else s.int(1, 6))]
        return dict(k=k, ts=ts, p=pattern(s, s.choice(ts)))

    def run(self, c, env):
        d = env.driver("rel")
        ts, p = c["ts"], c["p"]
        exp = [matches(t, p) for t in ts]
        d.set("pat", st(p))
        if c["k"] == "one":
            d.set("txt", st(ts[0]))
            g, w = d.eval("(like txt pat)"), b8(exp[0])
        else:
            d.set("txt", Lst([st(t) for t in ts]))
            src, w = "(like txt pat)", Vec(B8, np.array(exp, dtype=DT[B8]))
            if c["k"] == "file":
                f = os.path.join(env.fresh_dir(), "texts")
                r = d.eval('(do (set "%s" txt) (set txt (get "%s")) null)' % (f, f))
                if isinstance(r, Err):
                    raise Fail("storing the texts %r raised %r" % (ts, r))
            elif c["k"] == "select":
                src = "(at (select {n: n from: (table [n t] (list (til %d) txt)) where: (like t pat)}) 'n)" % len(ts)
                w = Vec(I64, np.array([i for i, x in enumerate(exp) if x], dtype=np.int64))
            g = d.eval(src)
        if not same(w, g):
            raise Fail("(like %r %r) gave %r, expected %r" % (ts if c["k"] != "one" else ts[0], p, g, w))
        return dict(k=c["k"], hit=any(exp), star=b"*" in p, set=b"[" in p)

    def nontrivial(self, c, labels):
        return any(c["ts"]) and (labels["star"] or labels["set"] or b"?" in c["p"])

    def describe(self, c):
        return "%s %r like %r" % (c["k"], c["ts"], c["p"])


class Split(Prop):
    """split gives the pieces between the delimiters, which joined by it are the text"""
    name = "split"
    quick, thorough = 15000, 300000

    def gen(self, s):
        m = s.choice([1, 1, 2, 3])
        dl = b"".join(s.choice([b"a", b"b", b",", b"\x00" if s.draw(6) == 5 else b",", b"\xff"]) for _ in range(m))
        n = s.size(9)
        parts = [b"".join(s.choice([b"a", b"b", b"c", b",", dl[:1], dl[1:]]) for _ in range(s.size(5))) for _ in range(n)]
        t = dl.join(parts) if s.draw(3) else b"".join(parts)
        if s.draw(12) == 11:
            t = t * s.int(2, 300)
        return dict(t=t, d=dl, sym=s.draw(5) == 4, ch=s.draw(3) == 2)

    def run(self, c, env):
        d = env.driver("rel")
        t, dl = c["t"], c["d"]
        if c["sym"] and (b"\0" in t or not t):
            raise Skip()
        d.set("txt", Atom(SYM, t) if c["sym"] else st(t))
        ch = c["ch"] and len(dl) == 1
        d.set("dlm", Atom(C8, dl[0]) if ch else st(dl))
        g = d.eval("(split txt dlm)")
        w = Lst([st(x) for x in t.split(dl)])
        if not same(w, g):
            raise Fail("(split %s%r %r) gave %r, expected %r" % ("symbol " if c["sym"] else "", t, dl, g, w))
        return dict(n=min(len(w.a), 5), m=len(dl), sym=c["sym"], ch=ch)

    def nontrivial(self, c, labels):
        return labels["n"] > 1

    def describe(self, c):
        return "split %r by %r%s" % (c["t"], c["d"], " symbol" if c["sym"] else "")


VT = [I64, SYM, F64, C8, I32, I16, U8, B8, DATE, TIME, TS, GUID]


class Cut(Prop):
    """split of a vector at ascending positions gives the pieces from each to the next, and refuses any other positions"""
    name = "cut"
    quick, thorough = 12000, 250000

    def gen(self, s):
        it = s.choice([I64, I64, I32, I16])
        big = s.draw(40) == 39
        if big:
            n = s.choice([32767, 32768, 32769, 40000, 65536, 70000])
            v = big_array(s, s.choice([I64, F64, I32, U8, I16]), n)
        elif s.draw(6) == 5:
            v = anyval.value_list(s, s.int(1, 9), 1)
        else:
            v = anyval.vect(s, s.choice(VT), s.int(1, 12))
        n = len(v.a)
        m = s.int(1, min(n, 6))
        lim = min(n, 32767) if it == I16 else n
        ix = sorted(s.int(0, lim) for _ in range(m))
        k = s.draw(8)
        if k == 0:
            ix[s.draw(m)] = s.choice([-1, n + 1, 5, 0, -5])
        elif k == 1 and it != I16:
            ix = [s.int(0, n) for _ in range(m)]
        return dict(v=v, it=it, ix=ix)

    def run(self, c, env):
        d = env.driver("rel")
        v, ix = c["v"], c["ix"]
        if c["it"] == I16 and not all(abs(i) < 32768 for i in ix):
            raise Skip()
        n = len(v.a)
        d.set("vec", v)
        d.set("idx", Vec(c["it"], np.array(ix, dtype=DT[c["it"]])))
        g = d.eval("(split vec idx)")
        ok = 0 <= ix[0] < n and all(a <= b for a, b in zip(ix, ix[1:])) and ix[-1] <= n
        if not ok:
            if not isinstance(g, Err):
                raise Fail("(split %r %r) gave %r, expected a refusal" % (v, ix, g))
            return dict(k="refused", it=c["it"])
        if not isinstance(g, Lst) or len(g.a) != len(ix):
            raise Fail("(split %r %r) gave %r, expected %d pieces" % (v, ix, g, len(ix)))
        for i, (a, b) in enumerate(zip(ix, ix[1:] + [n])):
            p = v.a[a:b]
            x = g.a[i]
            if isinstance(v, Lst):
                # a piece with equal types may become a vector
                y = x if isinstance(x, Lst) else None
                if y is None and isinstance(x, Vec) and len(x.a) == len(p) and all(isinstance(e, Atom) and e.t == x.t for e in p):
                    good = all(same(e, Atom(x.t, q)) for e, q in zip(p, x.a if x.t in (SYM, GUID, C8) else x.a.tolist()))
                else:
                    good = y is not None and len(y.a) == len(p) and all(same(e, q) for e, q in zip(p, y.a))
                    good = good or (not p and isinstance(x, Vec) and not len(x.a))
            else:
                good = same(Vec(v.t, p), x)
            if not good:
                raise Fail("piece %d of (split %r %r) is %r, expected %r" % (i, v, ix, x, p))
        return dict(k=type(v).__name__, it=c["it"])

    def nontrivial(self, c, labels):
        return labels["k"] != "refused" and len(c["ix"]) > 1

    def describe(self, c):
        return "cut %r at %r (%d)" % (c["v"], c["ix"], c["it"])


if __name__ == "__main__":
    sys.exit(run_check("C26", [Like(), Split(), Cut()], rule="like: a text and a pattern with at least one wildcard; split: at least two pieces; cut: at least two positions, accepted",
                       assumptions=["a bracket which is not closed matches nothing", "ranges like [a-z] are sets of their three bytes"]))
