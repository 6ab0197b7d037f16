import sys, os, math
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref
from gen import *
import numpy as np

SUP = {"sum": [U8, I16, I32, I64, F64, TIME],
       "avg": [U8, I16, I32, I64, F64],
       "med": [U8, I16, I64],
       "dev": [U8, I16, I32, I64, F64, DATE, TIME, TS],
       "min": [U8, I16, I32, I64, F64, DATE, TIME, TS],
       "max": [U8, I16, I32, I64, F64, DATE, TIME, TS],
       "count": [B8, U8, I16, I32, I64, F64, DATE, TIME, TS, SYM, GUID, C8],
       "first": [B8, U8, I16, I32, I64, F64, DATE, TIME, TS, SYM, GUID, C8],
       "last": [B8, U8, I16, I32, I64, F64, DATE, TIME, TS, SYM, GUID, C8]}
FNS = list(SUP)


class Open(Exception):
    """the exact result does not fit: left open"""


def okvals(t, l):
    if t == F64:
        return [x for x in l if x == x]
    if t in NULLV:
        n = NULLV[t]
        return [x for x in l if x != n]
    return list(l)


def aggregate(fn, v):
    """(type, value, tolerance or None)"""
    t = v.t
    vec = not isinstance(v, Atom)
    l = ref.elems(v)
    n = len(l)
    if fn == "count":
        return I64, n, None
    if fn in ("first", "last"):
        if n == 0:
            return t, (nullof(t) if hasnull(t) else 0), None
        return t, l[0 if fn == "first" else -1], None
    ok = okvals(t, l)
    k = len(ok)
    if fn in ("min", "max"):
        if k == 0:
            return t, (0 if t == U8 else nullof(t)), None
        return t, (min if fn == "min" else max)(ok), None
    if t == F64:
        mx = max(map(abs, ok), default=0.0)
        mag = math.fsum(map(abs, ok))
        tot = math.fsum(ok)
        stol = (k + 4) * 2.3e-16 * mag
        if not math.isfinite(mag):
            raise Open
    else:
        mx = max((abs(int(x)) for x in ok), default=0)
        tot = sum(int(x) for x in ok)
    if fn == "sum":
        if not vec:
            rt = I64 if t in (U8, I16) else t
            if k == 0:
                return rt, nullof(rt), None
            return rt, ok[0], None
        if t == F64:
            return F64, tot, stol
        rt = {U8: I64, I16: I64, I32: I32, I64: I64, TIME: TIME}[t]
        lo, hi = RANGE[rt]
        run = 0
        if sum(abs(int(x)) for x in ok) > hi:
            raise Open
        return rt, tot, None
    if k == 0:
        return F64, float("nan"), None
    if fn == "avg":
        if t == F64:
            return F64, tot / k, stol / k + abs(tot / k) * 1e-14
        if t == I64 and sum(abs(int(x)) for x in ok) > RANGE[I64][1]:
            raise Open
        w = Fraction(tot, k)
        return F64, float(w), abs(float(w)) * 1e-14
    if fn == "med":
        s = sorted(int(x) for x in ok)
        w = Fraction(s[(k - 1) // 2] + s[k // 2], 2)
        return F64, float(w), abs(float(max(abs(s[(k - 1) // 2]), abs(s[k // 2])))) * 1e-14
    if fn == "dev":
        if t == I64 and sum(abs(int(x)) for x in ok) > RANGE[I64][1]:
            raise Open
        if k == 1:
            return F64, 0.0, None
        if t == F64:
            m = tot / k
            var = math.fsum((x - m) ** 2 for x in ok) / k
            if not math.isfinite(var) or (0 < mx < 1e-140):
                raise Open
        else:
            m = Fraction(tot, k)
            s2 = sum(int(x) * int(x) for x in ok)
            var = float(Fraction(s2, k) - m * m)
        w = math.sqrt(max(var, 0.0))
        return F64, w, w * 1e-9 + (k + 8) * 2.3e-16 * float(mx)


def judge(g, want, what):
    t, w, tol = want
    if not isinstance(g, Atom) and not (t == GUID and w == b"\0" * 16 and isinstance(g, Null)):
        raise Fail("%s gave %r, expected %s %s" % (what, g, NAME[t], show(t, w)))
    if isinstance(g, Null):
        return
    if g.t != t:
        raise Fail("%s gave %r, expected type %s" % (what, g, NAME[t]))
    if t == F64 and w != w:
        ok = g.v != g.v
    elif tol is not None:
        ok = abs(g.v - w) <= tol
    elif t == F64:
        ok = g.v == w or (g.v != g.v and w != w)
    else:
        ok = g.v == w
    if not ok:
        raise Fail("%s gave %r, expected %s%s" % (what, g, show(t, w), "" if tol is None else " within %g" % tol))


class Aggregates(Prop):
    name = "aggregates"
    quick, thorough = 28000, 350000

    def gen(self, s):
        fn = s.choice(FNS)
        t = s.choice(SUP[fn])
        k = s.weighted([(20, "v"), (3, "a"), (3, "big")])
        mag = [None, 100, 30000][s.draw(3)]
        if k == "a":
            v = Atom(t, scalar(s, t, mag=mag))
        elif k == "v":
            n = s.size(20)
            l = items(s, t, n, mag=mag)
            if hasnull(t) and s.draw(6) == 5:
                p = s.draw(3)
                l = [nullof(t) if p == 0 or (i < n // 2) == (p == 1) else x for i, x in enumerate(l)]
            v = vec_of(t, l)
        else:
            v = big_array(s, t, mag=mag)
        return dict(fn=fn, v=v, k=k, how=s.draw(3), cores=s.weighted([(2, 1), (2, 4), (1, 3)]) if k == "big" else 1)

    def run(self, c, env):
        d = env.driver(cores=c["cores"])
        B = Binder(d)
        fn, v = c["fn"], c["v"]
        try:
            w = aggregate(fn, v)
        except Open:
            raise Skip("overflow")
        n = B.var(v)
        e = {0: n, 1: lit(v) or n, 2: "(first (list %s))" % n}[c["how"]]
        g = d.eval("(%s %s)" % (fn, e))
        judge(g, w, "(%s %r)" % (fn, v))
        if c["k"] == "v" and not same(d.eval(n), v):
            raise Fail("(%s %s) changed the value bound to %s" % (fn, e, n))
        l = ref.elems(v)
        nn = len(okvals(v.t, l))
        return [fn, "%s/%s" % (fn, NAME[v.t]), c["k"], "cores%d" % c["cores"], "some-null" if 0 < nn < len(l) else "all-null" if l and not nn else "no-null"]

    def nontrivial(self, c, l):
        return c["k"] != "a" and len(c["v"]) > 1

    def describe(self, c):
        return "(%s %r) how=%d cores=%d" % (c["fn"], c["v"], c["how"], c["cores"])


class OverLists(Prop):
    """an aggregate of a list of vectors is the list of aggregates"""
    name = "over-lists"
    quick, thorough = 2500, 30000

    def gen(self, s):
        fn = s.choice(["sum", "avg", "med", "dev", "min", "max"])
        one = s.draw(2)
        t0 = s.choice(SUP[fn])
        out = []
        for _ in range(s.int(1, 5)):
            t = t0 if one else s.choice(SUP[fn])
            out.append(Atom(t, scalar(s, t, mag=1000)) if s.draw(6) == 5 else small_vec(s, t, mag=1000))
        return fn, out

    def run(self, c, env):
        fn, l = c
        d = env.driver()
        B = Binder(d)
        if fn == "dev" and any(isinstance(v, Atom) for v in l):
            raise Skip("dev of an atom")
        w = [aggregate(fn, v) for v in l]
        g = d.eval("(%s %s)" % (fn, B.var(Lst(l))))
        if isinstance(g, Vec):
            G = [Atom(g.t, x) for x in ref.elems(g)]
        elif isinstance(g, Lst):
            G = g.a
        else:
            raise Fail("(%s %r) gave %r" % (fn, l, g))
        if len(G) != len(w):
            raise Fail("(%s %r) gave %r" % (fn, l, g))
        for i, (p, q) in enumerate(zip(G, w)):
            judge(p, q, "item %d of (%s %r)" % (i, fn, Lst(l)))
        return [fn]

    def describe(self, c):
        return "(%s %r)" % c


class Refused(Prop):
    """aggregates of types that have no arithmetic are refused"""
    name = "refused"
    quick, thorough = 600, 5000

    def gen(self, s):
        fn = s.choice(["sum", "avg", "med", "dev", "min", "max"])
        t = s.choice([SYM, GUID, C8, B8] if fn != "sum" else [SYM, GUID, C8, B8, DATE, TS])
        if s.draw(30) == 0:      # large tables and dictionaries, several cores
            n = s.choice([5, 20000, 70000])
            v = tbl(["a", "b"], [Vec(I64, range(n)), Vec(I64, range(n))]) if s.draw(2) else dct(Vec(I64, range(n)), Vec(I64, range(n)))
            return s.choice(["sum", "med", "min", "max", "dev", "floor", "ceil", "round"]), v
        return fn, small_vec(s, t, n=1 + s.size(6))

    def run(self, c, env):
        fn, v = c
        d = env.driver(cores=4) if isinstance(v, Pair) else env.driver()
        B = Binder(d)
        g = d.eval("(%s %s)" % (fn, B.var(v)))
        if not isinstance(g, Err):
            raise Fail("(%s %r) must be refused, gave %r" % (fn, v, g))
        if d.eval("(sum [1 2])").v != 3:
            raise Fail("session unusable")
        return [fn]

    def describe(self, c):
        return "(%s %r)" % c


class Nested(Prop):
    """identities between aggregates and element-wise operations on large data, whatever the split into chunks"""
    name = "identities"
    quick, thorough = 700, 8000

    def gen(self, s):
        t = s.choice([I64, I32, I16, DATE, TIME, TS])
        return dict(v=big_array(s, t, mag=10**6), c1=s.choice([1, 2, 3, 4, 7]), op=s.draw(4), cut=s.draw(70000))

    def run(self, c, env):
        d = env.driver(cores=c["c1"])
        v = c["v"]
        d.set("v", v)
        l = v.a
        nn = int((l != NULLV[v.t]).sum())
        if c["op"] == 0:      # min/max of a vector and of its negation or a reordering
            if v.t in (DATE, TIME, TS):
                g = d.eval("(list (min v) (max v) (min (desc v)) (max (desc v)))").a
                ok = len(g) and g is not None
            else:
                g = d.eval("(list (min v) (max v))").a
            m = l[l != NULLV[v.t]]
            w = (int(m.min()), int(m.max())) if nn else (NULLV[v.t],) * 2
            gl = [int(x) for x in (g.tolist() if hasattr(g, "tolist") else [y.v for y in g])]
            if tuple(gl[:2]) != w or any(gl[i] != w[i - 2] for i in range(2, len(gl))):
                raise Fail("min/max of %r gave %r, expected %r" % (v, gl, w))
        elif c["op"] == 1:    # counting non-null through comparison
            g = d.eval("(count (where (!= v %s)))" % lit1(v.t, NULLV[v.t]))
            if g.v != nn:
                raise Fail("count of non-null elements of %r gave %r, expected %d" % (v, g, nn))
        elif c["op"] == 2:
            if v.t not in (I64, I32, I16):
                raise Skip("type")
            g = d.eval("(avg v)")
            w = aggregate("avg", v)
            judge(g, w, "avg %r" % v)
        else:
            k = c["cut"] % len(l)
            if v.t not in (I64, I16):
                raise Skip("type")
            d.set("a", Vec(v.t, l[:k]))
            d.set("b", Vec(v.t, l[k:]))
            g = d.eval("(list (sum v) (+ (sum a) (sum b)))")
            x, y = ref.elems(g)[:2] if isinstance(g, Vec) else [q.v for q in g.a]
            if x != y:
                raise Fail("sum of %r is %r, of its parts %r" % (v, x, y))
        return ["op%d" % c["op"], "cores%d" % c["c1"]]

    def describe(self, c):
        return "%r cores=%d op=%d cut=%d" % (c["v"], c["c1"], c["op"], c["cut"])


if __name__ == "__main__":
    sys.exit(run_check("C03", [Aggregates(), OverLists(), Refused(), Nested()],
                       rule="aggregate of a vector of at least two elements, or of a list; distinct by function, values and how the operand is supplied",
                       assumptions=["sums whose running magnitude exceeds the result type are left open",
                                    "float results are compared within a rounding bound proportional to length and magnitude"]))
