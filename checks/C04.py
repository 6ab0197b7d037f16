import sys, os, functools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref, prov
from gen import *
import numpy as np

TYPES = [B8, U8, C8, I16, I32, I64, F64, DATE, TIME, TS, SYM]


def skey(t, x):
    if t == F64:
        return (0, 0.0) if x != x else (1, float(x))
    if t == SYM:
        return (0, b"") if x is None else (1, x)
    return (1, int(x))


def nz(v):
    if v.t == F64 and isinstance(v, Vec):
        return Vec(F64, v.a + 0.0)
    return v


def order(t, l, desc=False):
    """stable order: equal elements stay in their original order in both directions"""
    ks = [skey(t, x) for x in l]
    return sorted(range(len(l)), key=lambda i: ks[i], reverse=desc)      # python's reverse keeps stability


def icmp(a, b):
    return (a > b) - (a < b)


def ocmp(a, b):
    """order of list items: by type code, then by value"""
    ta = -a.t if isinstance(a, Atom) else a.t
    tb = -b.t if isinstance(b, Atom) else b.t
    if ta != tb:
        return icmp(ta, tb)
    if isinstance(a, Atom):
        if a.t == SYM:
            return icmp(a.v or b"", b.v or b"")
        return icmp(skey(a.t, a.v), skey(b.t, b.v))
    if isinstance(a, Lst):
        for x, y in zip(a.a, b.a):
            c = ocmp(x, y)
            if c:
                return c
        return icmp(len(a), len(b))
    for x, y in zip(ref.elems(a), ref.elems(b)):
        c = icmp(x or b"", y or b"") if a.t == SYM else icmp(skey(a.t, x), skey(a.t, y))
        if c:
            return c
    return icmp(len(a), len(b))


def perm(v, desc=False):
    if isinstance(v, Lst):
        k = functools.cmp_to_key(ocmp)
        return sorted(range(len(v)), key=lambda i: k(v.a[i]), reverse=desc)
    if v.t in DT and v.t != F64 and len(v) > 200:
        a = v.a.astype("i8")
        return np.argsort(a if not desc else -1 - a, kind="stable").tolist()
    return order(v.t, ref.elems(v), desc)


def pick_idx(v, ix):
    if isinstance(v, Lst):
        return Lst([v.a[i] for i in ix])
    if v.t == C8:
        return Vec(C8, bytes(v.a[i] for i in ix))
    if v.t in (SYM, GUID):
        return Vec(v.t, [v.a[i] for i in ix])
    return Vec(v.t, v.a[np.array(ix, dtype="i8")])


def as_idx(g, what):
    if not isinstance(g, Vec) or g.t != I64:
        raise Fail("%s gave %r, expected an I64 vector" % (what, g))
    return g.a.tolist()


ITEM = [lambda s: Atom(I64, s.zint(-50, 50)), lambda s: small_vec(s, C8, n=s.draw(4)), lambda s: Atom(SYM, scalar(s, SYM)),
        lambda s: Atom(F64, s.choice([float("nan"), 0.0, 1.5, -2.25, 1e300, -7.0])), lambda s: small_vec(s, I64, n=s.draw(4)),
        lambda s: small_vec(s, I32, n=s.draw(3)), lambda s: small_vec(s, SYM, n=s.draw(3)), lambda s: small_vec(s, F64, n=s.draw(3), mag=100),
        lambda s: Atom(DATE, s.zint(-10, 10000)), lambda s: Atom(I32, scalar(s, I32)), lambda s: small_vec(s, I16, n=s.draw(3)),
        lambda s: Lst([Atom(I64, s.draw(3)) if s.draw(2) else small_vec(s, C8, n=s.draw(2)) for _ in range(s.draw(3))])]


def q25(v):
    """floats in list items are compared with a tolerance: keep them apart"""
    if isinstance(v, Vec) and v.t == F64:
        return Vec(F64, np.round(v.a * 4) / 4 + 0.0)
    if isinstance(v, Lst):
        return Lst([q25(x) for x in v.a])
    return v


class Sorts(Prop):
    name = "sorts"
    quick, thorough = 20000, 250000

    def gen(self, s):
        fn = s.choice(["asc", "desc", "iasc", "idesc", "rank", "xrank"])
        k = s.weighted([(16, "v"), (4, "list"), (3, "dict"), (3, "big")])
        if k == "list":
            f = s.choice(ITEM)
            mixed = s.draw(3) == 2
            v = Lst([q25((s.choice(ITEM) if mixed else f)(s)) for _ in range(s.size(10))])
            if not len(v):
                v = Lst([Atom(I64, 1)])
        else:
            t = s.choice(TYPES)
            if k == "big":
                v = nz(big_array(s, t))
            else:
                n = s.choice([s.size(12), s.int(30, 36), s.int(60, 70)])
                v = nz(vec_of(t, items(s, t, n, mag=[None, 50][s.draw(2)])))
        keys = None
        if k == "dict":
            fn = s.choice(["asc", "desc", "iasc", "idesc"])
            keys = s.choice([lambda n: Vec(I64, range(10, 10 + n)), lambda n: syms("k%d" % i for i in range(n))])(len(v))
        return dict(fn=fn, v=v, k=k, keys=keys, n=s.choice([s.int(1, 12), 1, 1000]), ant=s.choice([I64, I32, I16, U8]),
                    how=s.draw(3), cores=s.weighted([(2, 1), (2, 4), (1, 3)]) if k == "big" else 1)

    def run(self, c, env):
        d = env.driver(cores=c["cores"])
        B = Binder(d)
        fn, v = c["fn"], c["v"]
        full = dct(c["keys"], v) if c["k"] == "dict" else v
        n = B.var(full)
        e = n if c["k"] == "dict" else {0: n, 1: lit(v) or n, 2: "(first (list %s))" % n}[c["how"]]
        ix = perm(v, "desc" in fn)
        if fn == "xrank":
            nb = c["n"] & 255 if c["ant"] == U8 else c["n"]
            nb = nb or 1
            src = "(xrank %s %s)" % (e, lit1(c["ant"], nb))
        else:
            src = "(%s %s)" % (fn, e)
        g = d.eval(src)
        what = "(%s %r)" % (fn if fn != "xrank" else "xrank %d" % nb, full)
        L = len(v)
        if fn in ("iasc", "idesc"):
            if c["k"] == "dict":
                w = pick_idx(c["keys"], ix)
                if not same(g, w) and not (L == 0 and isinstance(g, Vec) and len(g) == 0):
                    raise Fail("%s gave %r, expected %r" % (what, g, w))
            else:
                gi = as_idx(g, what)
                if gi != ix:
                    raise Fail("%s gave %r, expected %r" % (what, g, Vec(I64, ix)))
        elif fn in ("asc", "desc"):
            w = pick_idx(v, ix)
            if c["k"] == "dict":
                w = dct(pick_idx(c["keys"], ix), w)
            if not same(g, w):
                if isinstance(w, Lst) and isinstance(g, Vec) and same(Lst([Atom(g.t, x) for x in ref.elems(g)]), w):
                    pass
                else:
                    raise Fail("%s gave %r, expected %r" % (what, g, w))
        else:
            w = [0] * L
            for r, i in enumerate(ix):
                w[i] = r if fn == "rank" else r * nb // L
            if as_idx(g, what) != w:
                raise Fail("%s gave %r, expected %r" % (what, g, Vec(I64, w)))
        if c["k"] != "big" and not same(d.eval(n), full):
            raise Fail("%s changed the value bound to %s" % (src, n))
        dup = L > 1 and any(a == b for a, b in zip(map(repr, [v.a[i] for i in ix]), map(repr, [v.a[i] for i in ix[1:]]))) if c["k"] != "big" else True
        return [fn, "%s/%s" % (fn, NAME[v.t]), c["k"], "ties" if dup else "no-ties", "len>32" if L > 32 else "len<=32"]

    def nontrivial(self, c, l):
        return len(c["v"]) > 1

    def describe(self, c):
        return "(%s %r%s)%s how=%d cores=%d" % (c["fn"], c["v"], " %d" % c["n"] if c["fn"] == "xrank" else "", " dict" if c["k"] == "dict" else "", c["how"], c["cores"])


class Tables(Prop):
    """xasc/xdesc: a stable sort of whole rows by the key columns in order of significance"""
    name = "tables"
    quick, thorough = 6000, 80000

    def gen(self, s):
        big = s.draw(20) == 19
        n = s.choice(BIGN) if big else s.choice([s.size(12), s.int(2, 10), s.int(30, 70)])
        cols, names, pre = [], [], []
        for i in range(s.int(1, 4)):
            t = s.choice(TYPES if i < 3 else TYPES + [GUID])
            if big:
                v = nz(big_array(s, t, n=n))
            else:
                v = nz(vec_of(t, items(s, t, n, mag=[None, 3][s.draw(2)], dup=1)))
            cols.append(v)
            names.append("c%d" % i)
            pre.append(s.weighted([(6, ""), (1, "asc"), (1, "desc")]))
        cols.append(Vec(I64, range(n)))
        names.append("id")
        pre.append("")
        keys = [s.draw(len(cols) - 1) for _ in range(s.int(1, min(3, len(cols) - 1)))]
        return dict(cols=cols, names=names, pre=pre, keys=keys, fn=s.choice(["xasc", "xdesc"]), atom=s.draw(2), swap=s.draw(2),
                    cores=s.choice([1, 4]) if big else 1, big=big)

    def run(self, c, env):
        d = env.driver(cores=c["cores"])
        cols = []
        parts = []
        for i, (v, p) in enumerate(zip(c["cols"], c["pre"])):
            d.set("c%d" % i, v)
            if p and v.t != GUID:
                d.eval("(set c%d (%s c%d))" % (i, p, i))
                v = pick_idx(v, perm(v, p == "desc"))
            cols.append(v)
            parts.append("c%d" % i)
        g = d.eval("(set t (table [%s] (list %s)))" % (" ".join(c["names"]), " ".join(parts)))
        if not isinstance(g, Pair):
            raise Fail("table construction gave %r" % g)
        keys = [k for k in c["keys"] if cols[k].t != GUID] or [len(cols) - 1]
        desc = c["fn"] == "xdesc"
        ix = list(range(len(cols[-1])))
        for k in reversed(keys):
            sub = pick_idx(cols[k], ix)
            ix = [ix[i] for i in perm(sub, desc)]
        want = [pick_idx(v, ix) for v in cols]
        kk = "'" + c["names"][keys[0]] if len(keys) == 1 and c["atom"] else "[%s]" % " ".join(c["names"][k] for k in keys)
        src = "(%s t %s)" % (c["fn"], kk)
        g = d.eval(src)
        if not isinstance(g, Pair) or g.t != TABLE or not same(g.k, syms(c["names"])):
            raise Fail("%s gave %r" % (src, g))
        for i, w in enumerate(want):
            if not same(g.v.a[i], w):
                raise Fail("%s on %r: column %s is %r, expected %r" % (src, dict(zip(c["names"], cols)), c["names"][i], g.v.a[i], w))
        if not c["big"]:
            t = d.eval("t")
            for i, w in enumerate(cols):
                if not same(t.v.a[i], w):
                    raise Fail("%s changed its table" % src)
        return [c["fn"], "keys%d" % len(keys), "big" if c["big"] else "small", "presorted" if any(c["pre"]) else "plain"]

    def nontrivial(self, c, l):
        return len(c["cols"][-1]) > 1

    def describe(self, c):
        return "(%s t keys=%r atom=%d) pre=%r t=%r" % (c["fn"], [c["names"][k] for k in c["keys"]], c["atom"], c["pre"], c["cols"])


class History(Prop):
    """sorting a value depends on the value only, not on how it came about"""
    name = "history"
    quick, thorough = 10000, 150000

    def gen(self, s):
        c = prov.gen_history(s)
        c["fn"] = s.choice(["asc", "desc", "iasc", "idesc", "rank", "xrank", "xasc", "xdesc"])
        c["fl"] = "asan" if s.draw(4) == 3 else "rel"
        return c

    def src(self, c, v):
        f = c["fn"]
        if f == "xrank":
            return "(xrank %s 3)" % v
        if f[0] == "x":
            return "(%s (table [a b] (list %s (til (count %s)))) 'a)" % (f, v, v)
        return "(%s %s)" % (f, v)

    def run(self, c, env):
        d = env.driver(c["fl"])
        g = prov.build(c, d)
        if g is None:
            raise Skip("history has no vector result")
        x, y = d.eval(self.src(c, "r")), d.eval(self.src(c, "q"))
        if not same(x, y):
            raise Fail("after %s, with r equal to %r: %s gave %r, on a freshly built equal vector it gives %r" % (
                self.text(c), g, self.src(c, "r"), x, y))
        if not same(d.eval("r"), g):
            raise Fail("%s changed r" % self.src(c, "r"))
        return [c["fn"], NAME[g.t]]

    def text(self, c):
        return "v=%r start=%s then %s (nest %r)" % (c["v"], c["f"], " ; ".join(c["ops"]), c["nest"])

    def describe(self, c):
        return "%s: %s" % (c["fn"], self.text(c))


class Refused(Prop):
    """operands that have no order are refused and leave the session usable"""
    name = "refused"
    quick, thorough = 800, 8000

    def gen(self, s):
        fn = s.choice(["asc", "desc", "iasc", "idesc", "rank", "xrank"])
        k = s.draw(4)
        if k == 0:
            v = small_vec(s, GUID, n=1 + s.draw(3))
        elif k == 1:
            t = s.choice([I64, SYM, F64, B8, DATE])
            v = Atom(t, scalar(s, t))
        elif k == 2:
            v = tbl(["a"], [small_vec(s, I64)])
        else:
            n = s.int(1, 5)
            v = dct(syms("k%d" % i for i in range(n)), small_vec(s, I64, n=n))
            fn = s.choice(["rank", "xrank"])
        return fn, v, s.zint(-5, 5)

    def run(self, c, env):
        fn, v, n = c
        d = env.driver()
        B = Binder(d)
        e = B.var(v)
        g = d.eval("(%s %s%s)" % (fn, e, " %d" % n if fn == "xrank" else ""))
        if not isinstance(g, Err):
            raise Fail("(%s %r) must be refused, gave %r" % (fn, v, g))
        g = d.eval("(xrank [3 1 2] %d)" % n)
        if isinstance(g, Err) != (n <= 0):
            raise Fail("(xrank [3 1 2] %d) gave %r" % (n, g))
        g = d.eval("(xasc (table [a b] (list [3 1] [2 1])) [a zz])")
        if not isinstance(g, Err):
            raise Fail("sorting by an unknown column must be refused, gave %r" % g)
        if not same(d.eval(e), v) or not same(d.eval("(iasc [3 1 2])"), Vec(I64, [1, 2, 0])):
            raise Fail("after (%s %r): operand changed or session unusable" % (fn, v))
        return [fn]

    def describe(self, c):
        return "(%s %r %d)" % c


if __name__ == "__main__":
    sys.exit(run_check("C04", [Sorts(), Tables(), History(), Refused()],
                       rule="an ordering function applied to a value of at least two elements (or a history whose last step has a vector result); distinct by function, values and how they came about",
                       assumptions=["negative zero is not distinguished from zero; floats inside list items are multiples of 1/4"]))
