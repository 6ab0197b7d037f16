import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref
from gen import *
import numpy as np
from C03 import aggregate, Open

KT = [I64, SYM, I32, DATE, B8, U8, C8, I16, F64, TIME, TS, GUID]
VT = [I64, F64, I32, I16, U8, DATE, TIME, TS, SYM, GUID, B8, C8]
AG = {"sum": [U8, I16, I32, I64, F64, TIME], "avg": [U8, I16, I32, I64, F64], "med": [U8, I16, I32, I64, F64],
      "dev": [U8, I16, I32, I64, F64], "min": [U8, I16, I32, I64, F64, DATE, TIME, TS],
      "max": [U8, I16, I32, I64, F64, DATE, TIME, TS], "count": VT, "first": VT, "last": VT}
MAG = 1000
BIGS = [5000, 20000, 40001, 65537, 70001]


def sub(v, ix):
    if v.t == C8:
        return Vec(C8, bytes(v.a[i] for i in ix))
    if v.t in (SYM, GUID):
        return Vec(v.t, [v.a[i] for i in ix])
    return Vec(v.t, v.a[np.asarray(ix, dtype="i8")])


def agg(fn, v):
    if fn == "med" and v.t in (I32, F64):
        l = sorted(x for x in ref.elems(v) if not isnull(v.t, x))
        k = len(l)
        if not k:
            return F64, float("nan"), None
        w = (l[(k - 1) // 2] + l[k // 2]) / 2
        return F64, w, abs(w) * 1e-12 + 1e-9
    t, w, tol = aggregate(fn, v)
    if fn == "dev":
        tol = (tol or 0) + 2e-4          # grouped deviation is computed in one pass over squares
    return t, w, tol


def col(s, t, n, key=False):
    if n > 100:
        if key:
            r = np.random.default_rng(s.seed())
            card = s.choice([1, 2, 17, 300, 5000])
            ix = r.integers(0, card, n)
            sp = s.choice([1, 1, 7, 10**6 + 3])
            off = s.choice([0, -3, 10**9])
            nul = s.draw(3) == 0
            if t in (SYM, GUID):
                pool = [b"s%d" % i if t == SYM else (i * 40503 + 1).to_bytes(16, "little") for i in range(card)]
                if nul:
                    pool[0] = nullof(t)
                return Vec(t, [pool[i] for i in ix.tolist()])
            if t == C8:
                return Vec(C8, (33 + ix % 90).astype("u1").tobytes())
            if t == B8:
                return Vec(B8, ix % 2)
            if t == F64:
                a = ix / 4.0 - off
                if nul:
                    a[ix == 0] = np.nan
                return Vec(F64, a)
            lo, hi = RANGE[t]
            a = np.array([(x * sp + off) % (hi - 1) if t != I64 else x * sp * (1000003 if s else 1) + off for x in range(card)], dtype="i8")
            a = a.astype(DT[t])
            if nul and t in NULLV:
                a[0] = NULLV[t]
            return Vec(t, a[ix])
        return big_array(s, t, n=n, mag=MAG)
    if key:
        pool = [scalar(s, t, mag=s.choice([3, 50, None])) for _ in range(s.int(1, 5))]
        return vec_of(t, [s.choice(pool) for _ in range(n)])
    return vec_of(t, items(s, t, n, True, MAG))


COND = ["(> w %d)", "(< w %d)", "(== w %d)", "(!= w %d)", "(and (> w -4) (< w %d))", "(or (< w -6) (>= w %d))", "(in w [1 %d 3])", "(not (<= w %d))"]


def cond(i, c, w):
    return [lambda x: x > c, lambda x: x < c, lambda x: x == c, lambda x: x != c, lambda x: -4 < x < c, lambda x: x < -6 or x >= c,
            lambda x: x in (1, c, 3), lambda x: not x <= c][i](w)


class Case:
    pass


def gen_case(s, n, big):
    c = dict(n=n)
    c["kt"] = s.choice(KT)
    c["k"] = col(s, c["kt"], n, True)
    c["k2"] = col(s, s.choice([I64, SYM, B8, I32, U8, DATE, F64]), n, True)
    c["v"] = col(s, s.choice(VT), n)
    r = np.random.default_rng(s.seed())
    c["w"] = Vec(I64, r.integers(-10, 11, n))
    c["x"] = col(s, s.choice([I64, I32, F64, I16]), n)
    c["where"] = None if s.draw(2) else (s.draw(len(COND)), s.zint(-11, 11))
    if s.draw(12) == 11:
        m = max(0, n + (s.zint(-3, 3) if s.draw(3) == 2 else 0))
        c["where"] = ("mask", Vec(B8, r.integers(0, 2, m).astype("u1")))
    c["by"] = s.choice(["k", "k", "dict", "expr", None, "dict1", "lam"])
    ms = []
    for j in range(s.int(0 if not big else 1, 3)):
        k = s.draw(7)
        cn = s.choice(["v", "x", "v"])
        t = c[cn].t
        if k <= 2:
            ms.append(("agg", s.choice([f for f in AG if t in AG[f]]), cn))
        elif k == 3:
            ms.append(("raw", s.choice(["v", "x", "k", "w"])))
        elif k == 4:
            ms.append(("expr", s.choice(["sum", "min", "max", "avg"]), s.choice(["(* 2 w)", "(- w 3)", "(+ w w)"])))
        elif k == 5:
            ms.append(("diff", s.choice(["max", "sum"]), s.choice(["min", "count"])))
        elif k == 6:
            ms.append(s.choice([("const", 7), ("lam", "sum"), ("lam", "max"), ("agg", "count", "k")]))
    c["ms"] = ms
    c["take"] = None if s.draw(4) else s.zint(-5, 8)
    c["order"] = s.draw(4)
    return c


EXPR = {"(* 2 w)": lambda a: a * 2, "(- w 3)": lambda a: a - 3, "(+ w w)": lambda a: a + a}


def source(c):
    parts = []
    for j, m in enumerate(c["ms"]):
        e = {"agg": lambda: "(%s %s)" % m[1:], "raw": lambda: m[1], "expr": lambda: "(%s %s)" % m[1:],
             "diff": lambda: "(- (%s w) (%s w))" % m[1:], "const": lambda: "7", "lam": lambda: "((fn [p] (%s p)) w)" % m[1]}[m[0]]()
        parts.append("m%d: %s" % (j, e))
    tail = ["from: t"]
    if c["where"]:
        tail.append("where: " + ("mk" if c["where"][0] == "mask" else COND[c["where"][0]] % c["where"][1]))
    if c["by"]:
        tail.append("by: " + {"k": "k", "dict": "{a: k b: k2}", "dict1": "{a: k}", "expr": "(% w 3)", "lam": "((fn [p] (- p 1)) w)"}[c["by"]])
    if c["take"] is not None:
        tail.append("take: %d" % c["take"])
    o = c["order"]
    p = parts + tail if o != 1 else tail + parts
    if o == 2:
        p = tail[::-1] + parts
    return "(select {%s})" % " ".join(p)


def fz(t, x):
    if t == F64:
        return "nan" if x != x else x + 0.0
    return x


def mval(m, c, ix):
    """expected value of a mapping on the given rows: ('a', type, value, tol) or ('v', Vec)"""
    if m[0] == "agg":
        return ("a",) + agg(m[1], sub(c[m[2]], ix))
    if m[0] == "raw":
        return "v", sub(c[m[1]], ix)
    if m[0] == "expr":
        return ("a",) + agg(m[1], Vec(I64, EXPR[m[2]](c["w"].a[np.asarray(ix, dtype="i8")])))
    if m[0] == "lam":
        return ("a",) + agg(m[1], sub(c["w"], ix))
    if m[0] == "const":
        return "a", I64, 7, None
    p, q = agg(m[1], sub(c["w"], ix))[1], agg(m[2], sub(c["w"], ix))[1]
    nl = NULLV[I64]
    return "a", I64, (nl if nl in (p, q) else p - q), None


def eqa(want, t, x):
    _, wt, w, tol = want
    if wt != t:
        return False
    if t == F64:
        if w != w or x != x:
            return w != w and x != x
        return abs(w - x) <= (tol or 0) or w == x
    return w == x


def typename(c, m, t):
    return NAME[t]


def check(c, env, cores, flavour="rel"):
    d = env.driver(flavour, cores=cores)
    names = ["k", "v", "w", "x", "k2"]
    T = tbl(names, [c[a] for a in names])
    d.set("t", T)
    n = c["n"]
    src = source(c)
    rows = list(range(n))
    if c["where"]:
        w = c["w"].a.tolist()
        if c["where"][0] == "mask":
            mk = c["where"][1]
            d.set("mk", mk)
            if len(mk.a) != n:
                for q in (src, "(update {v: 0 where: mk from: t})"):
                    g = d.eval(q)
                    if not isinstance(g, Err) or not same(d.eval("t"), T):
                        raise Fail("%s with a condition of %d values for %d rows gives %r" % (q, len(mk.a), n, g))
                return ["by:%s" % c["by"], "length"]
            rows = [i for i in rows if mk.a[i]]
        else:
            rows = [i for i in rows if cond(c["where"][0], c["where"][1], w[i])]
    g = d.eval(src)
    lab = ["by:%s" % c["by"], "where" if c["where"] else "all", "rows" if rows else "norows"] + ["m:" + m[0] for m in c["ms"]]

    if c["by"] is None and any(m[:2] == ("agg", "med") and c[m[2]].t in (I32, F64) for m in c["ms"]):
        raise Skip("plain med takes neither I32 nor F64 vectors")
    if c["by"] and not rows and any(m[0] in ("expr", "diff", "lam") for m in c["ms"]):
        if not same(d.eval("t"), T):
            raise Fail("%s changed the table" % src)
        raise Skip("expressions over no groups are left open")

    def fail(msg):
        t2 = d.eval("t")
        if not same(t2, T):
            msg += "; the table itself changed"
        raise Fail("%s on %s: %s" % (src, {a: c[a] for a in names if a in src or not c["ms"]}, msg))
    if isinstance(g, Err) or not (isinstance(g, Pair) and g.t == TABLE):
        if c["by"] is None and not rows and isinstance(g, Err):
            raise Skip("empty")
        fail("gave %r" % g)
    gn = [x.decode() for x in g.k.a]
    gc = g.v.a
    if len({len(x) for x in gc if not isinstance(x, Enm)}) > 1:
        fail("columns of different lengths: %r" % g)
    ms = c["ms"]
    if c["by"] is None:
        if not ms:
            want = [("v", sub(c[a], rows)) for a in names]
            wn = names
        else:
            want = [mval(m, c, rows) for m in ms]
            wn = ["m%d" % j for j in range(len(ms))]
        nr = len(rows) if any(x[0] == "v" for x in want) else 1
        idx = list(range(nr))
        if c["take"] is not None:
            idx = takeidx(nr, c["take"])
        if gn != wn:
            fail("columns %r, expected %r" % (gn, wn))
        for nm, x, y in zip(gn, gc, want):
            l = ref.elems(x) if isinstance(x, Vec) else None
            if l is None:
                fail("column %s is %r" % (nm, x))
            if len(l) != len(idx):
                fail("column %s has %d rows, expected %d" % (nm, len(l), len(idx)))
            if y[0] == "v":
                if not same(x, sub(y[1], idx)):
                    fail("column %s is %r, expected %r" % (nm, x, sub(y[1], idx)))
            elif any(not eqa(y, x.t, q) for q in l):
                fail("column %s is %r, expected %r" % (nm, x, y[1:]))
        return lab
    # grouped
    if c["by"] in ("expr", "lam"):
        w = c["w"].a
        kv = Vec(I64, w - 3 * np.floor_divide(w, 3)) if c["by"] == "expr" else Vec(I64, w - 1)
        keys, kn = [kv], ["w"]
    elif c["by"] == "k":
        keys, kn = [c["k"]], ["k"]
    elif c["by"] == "dict1":
        keys, kn = [c["k"]], ["a"]
    else:
        keys, kn = [c["k"], c["k2"]], ["a", "b"]
    el = [ref.elems(k) for k in keys]
    groups = {}
    for i in rows:
        groups.setdefault(tuple(fz(k.t, e[i]) for k, e in zip(keys, el)), []).append(i)
    if ms:
        cols = [("m%d" % j, m) for j, m in enumerate(ms)]
    else:
        cols = [(a, ("agg", "first", a)) for a in names if a not in (kn if c["by"] in ("k",) else [])]
    if not ms:
        # which key columns are left out is not part of the property: compare those present
        have = [a for a in gn if a not in kn]
        cols = [(a, m) for a, m in cols if a in have]
        if not {"v", "x"} <= set(have):
            fail("columns %r" % gn)
    wn = kn + [a for a, _ in cols]
    if gn != wn:
        fail("columns %r, expected %r" % (gn, wn))
    for a, k in zip(kn, keys):
        x = gc[gn.index(a)]
        if not isinstance(x, Vec) or x.t != k.t:
            fail("key column %s is %r" % (a, x))
    if c["by"] in ("expr", "lam"):       # the key column shows the grouped column's value in the first row of each group
        groups = {(int(c["w"].a[ix[0]]),): ix for ix in groups.values()}
    gk = list(zip(*[[fz(x.t, e) for e in ref.elems(x)] for x in gc[:len(kn)]])) if gc else []
    want_rows = len(groups)
    if c["take"] is not None:
        want_rows = len(takeidx(len(groups), c["take"]))
    if len(gk) != want_rows:
        fail("%d groups, expected %d: keys %r" % (len(gk), want_rows, gk[:12]))
    if c["take"] is None or abs(c["take"]) <= len(groups):
        if len(set(gk)) != len(gk):
            fail("a group appears twice: keys %r" % gk[:40])
    for r, key in enumerate(gk):
        if key not in groups:
            fail("group %r does not exist" % (key,))
        ix = groups[key]
        for nm, m in cols:
            x = gc[gn.index(nm)]
            y = mval(m, c, ix)
            if y[0] == "a":
                if not isinstance(x, Vec):
                    fail("column %s is %r" % (nm, x))
                q = x.a[r]
                q = q.item() if hasattr(q, "item") else q
                if not eqa(y, x.t, q):
                    fail("%s of group %r (rows %r) is %s %r, expected %s %r" % (nm, key, ix[:20], NAME[x.t], q, NAME[y[1]], y[2]))
            else:
                q = x.a[r] if isinstance(x, Lst) else None
                if q is None or not same(q, y[1]):
                    fail("%s of group %r (rows %r) is %r, expected %r" % (nm, key, ix[:20], q, y[1]))
    if not same(d.eval("t"), T):
        fail("the table itself changed")
    return lab + ["groups%d" % min(len(groups), 3)]


def takeidx(n, k):
    """rows of (take table k): cyclic, from the end when negative"""
    if n == 0:
        return []
    if k >= 0:
        return [i % n for i in range(k)]
    return [(n - (-k) + i) % n for i in range(-k)]


class Small(Prop):
    """select over small tables: every key type, column type, aggregate, filter, key expression"""
    name = "small"
    quick, thorough = 12000, 120000

    def gen(self, s):
        c = gen_case(s, s.size(14), False)
        c["asan"] = s.draw(5) == 0
        return c

    def run(self, c, env):
        try:
            return check(c, env, 1, "asan" if c["asan"] else "rel")
        except Open:
            raise Skip("open")

    def nontrivial(self, c, labels):
        return "rows" in labels and c["n"] > 1

    def describe(self, c):
        return "%s n=%d" % (source(c), c["n"])


class Big(Small):
    """select over tables large enough to be split over threads"""
    name = "big"
    quick, thorough = 260, 3000

    def gen(self, s):
        c = gen_case(s, s.choice(BIGS), True)
        c["take"] = None
        c["cores"] = s.choice([1, 2, 3, 4, 8])
        return c

    def run(self, c, env):
        try:
            return check(c, env, c["cores"]) + ["cores%d" % c["cores"]]
        except Open:
            raise Skip("open")


if __name__ == "__main__":
    sys.exit(run_check("C14", [Small(), Big()],
                       rule="a select over a table of at least two rows of which at least one passes the filter; distinct by query and table",
                       assumptions=["the order of the groups is left open; float aggregates are compared within a rounding bound",
                                    "column values used by aggregates are within +-1000"]))
