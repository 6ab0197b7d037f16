import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref, prov
from gen import *
import numpy as np

ALL = [B8, U8, C8, I16, I32, I64, F64, DATE, TIME, TS, SYM, GUID]


def seq(v):
    return v.a if isinstance(v, Lst) else ref.elems(v)


def mk(t, l):
    return Lst(l) if t == LIST else Vec(t, bytes(l)) if t == C8 else Vec(t, l)


def box(v):
    """elements as values"""
    return list(v.a) if isinstance(v, Lst) else [Atom(v.t, x) for x in ref.elems(v)]


def unbox(l):
    """a list of atoms of one type becomes a vector"""
    if l and all(isinstance(x, Atom) and x.t == l[0].t for x in l):
        return mk(l[0].t, [x.v for x in l])
    return Lst(l)


def missing(v):
    if isinstance(v, Lst):
        return NULL
    return Atom(v.t, nullof(v.t)) if hasnull(v.t) and v.t != GUID else Atom(v.t, 0)


def wrap(n, i):
    if i == N64:
        return None
    i = i + n if i < 0 else i
    return i if 0 <= i < n else None


# ------------------------------------------------------------------ the model
def m_take(v, n):
    if isinstance(v, Atom):
        return mk(v.t, [v.v] * abs(n))
    l = seq(v)
    if not len(l):
        return v
    L = len(l)
    if isinstance(v, Vec) and v.t in DT:
        return Vec(v.t, v.a[(np.arange(abs(n)) + (L - abs(n) % L if n < 0 else 0)) % L])
    o = L - abs(n) % L if n < 0 else 0
    return mk(v.t, [l[(i + o) % L] for i in range(abs(n))])


def m_range(v, st, n):
    l = seq(v)
    L = len(l)
    st = max(0, st + L if st < 0 else st)
    return mk(v.t, l[min(st, L):][:n])


def m_concat(x, y):
    if isinstance(x, Lst) or isinstance(y, Lst):
        a = x.a if isinstance(x, Lst) else [x]
        b = y.a if isinstance(y, Lst) else [y]
        return Lst(a + b)
    if x.t != y.t:
        return Lst([x, y])
    a = [x.v] if isinstance(x, Atom) else seq(x)
    b = [y.v] if isinstance(y, Atom) else seq(y)
    return mk(x.t, list(a) + list(b))


def m_raze(l):
    if all(isinstance(x, Vec) and x.t == l.a[0].t for x in l.a):
        return mk(l.a[0].t, [e for x in l.a for e in seq(x)])
    out = []
    for x in l.a:
        out += box(x) if isinstance(x, (Vec, Lst)) else [x]
    return unbox(out)


def m_at(v, i):
    j = wrap(len(v), i)
    return missing(v) if j is None else box1(v, j)


def box1(v, j):
    return v.a[j] if isinstance(v, Lst) else Atom(v.t, seq(v)[j]) if v.t in (SYM, GUID, C8) else Atom(v.t, v.a[j].item())


def m_atv(v, ix):
    n = len(v)
    js = [wrap(n, i) for i in ix]
    l = seq(v)
    miss = None if isinstance(v, Lst) else missing(v).v
    if isinstance(v, Lst):
        return unbox([NULL if j is None else l[j] for j in js])      # equally typed atoms come back as a vector
    return mk(v.t, [miss if j is None else l[j] for j in js])


def m_filter(v, m):
    return mk(v.t, [x for x, k in zip(seq(v), m) if k])


def litem(s):
    return s.choice([lambda: Atom(I64, s.zint(-3, 3)), lambda: Atom(SYM, scalar(s, SYM)), lambda: small_vec(s, C8, n=s.draw(3)),
                     lambda: small_vec(s, I64, n=s.draw(3), mag=2), lambda: Atom(F64, 1.5), lambda: NULL,
                     lambda: Lst([Atom(I64, s.draw(2)), small_vec(s, C8, n=s.draw(2))]), lambda: dct(syms(["k"]), Vec(I64, [s.draw(3)])),
                     lambda: Lst([])])()


def gval(s, big=False, lists=True):
    if big:
        return big_array(s, s.choice(ALL))
    if lists and s.draw(5) == 4:
        return Lst([litem(s) for _ in range(s.size(7))])
    return small_vec(s, s.choice(ALL), hi=s.choice([5, 12, 70]))


def idx(s, n):
    return s.choice([s.zint(-n - 2, n + 2), s.draw(n + 1), N64 if s.draw(6) == 5 else 0])


class Ops(Prop):
    name = "ops"
    quick, thorough = 24000, 300000
    FN = [(4, "take"), (2, "range"), (6, "concat"), (3, "reverse"), (3, "raze"), (3, "at"), (4, "atv"), (3, "filter"), (2, "where"),
          (1, "til"), (2, "dict"), (2, "dtake"), (2, "dconcat"), (1, "enlist"), (1, "unify"), (1, "diverse"), (1, "first"), (1, "last")]

    def gen(self, s):
        fn = s.weighted(self.FN)
        big = s.draw(15) == 14 and fn in ("take", "range", "concat", "reverse", "atv", "filter", "where", "til")
        v = gval(s, big)
        n = len(v)
        c = dict(fn=fn, v=v, big=big, cores=s.choice([1, 4, 3]) if big else 1, how=s.draw(3))
        if fn == "take":
            c["n"] = s.choice([s.zint(-3 * n - 3, 3 * n + 3), s.zint(-50, 50)]) if not big else s.zint(-2 * n, 2 * n)
            c["nt"] = s.choice([I64, I64, I32, I16]) if abs(c["n"]) < 30000 else I64
            if s.draw(6) == 5 and not big:
                t = s.choice(ALL)
                c["v"] = Atom(t, scalar(s, t))
        elif fn == "range":
            c["a"], c["b"] = s.zint(-n - 2, n + 2), s.choice([s.draw(n + 3), n])
        elif fn == "concat":
            c["w"] = small_vec(s, v.t) if isinstance(v, Vec) and s.draw(4) else gval(s)
            k = s.draw(8)
            if k == 7:
                t = s.choice(ALL)
                c["w"] = Atom(t, scalar(s, t))
            elif k == 6 and isinstance(v, Vec):
                c["w"] = Atom(v.t, scalar(s, v.t))
            elif k == 5 and isinstance(v, Vec) and not big:
                c["v"] = Atom(v.t, scalar(s, v.t))
        elif fn in ("raze", "enlist", "unify", "diverse"):
            t = s.choice(ALL)
            one = s.draw(2)
            k = s.int(1, 5)
            c["l"] = [small_vec(s, t, hi=5) if one else s.choice([lambda: gval(s), lambda: litem(s), lambda: small_vec(s, t, hi=4), lambda: Atom(t, scalar(s, t))])()
                      for _ in range(k)]
        elif fn == "at":
            c["i"] = idx(s, n)
        elif fn == "atv":
            if big:
                r = np.random.default_rng(s.seed())
                c["ix"] = r.integers(0, n, s.choice(BIGN)).tolist()
            else:
                c["ix"] = [idx(s, n) for _ in range(s.int(1, 12))]
        elif fn in ("filter", "where"):
            r = np.random.default_rng(s.seed())
            c["m"] = (r.random(n) < s.choice([0.0, 0.1, 0.5, 0.9, 1.0])).astype("i1")
        elif fn == "til":
            c["n"] = s.choice(BIGN) if big else s.size(70)
        elif fn in ("dict", "dtake", "dconcat"):
            kt = s.choice([I64, SYM, DATE, C8, GUID, F64, B8])
            c["kt"] = kt

            def d():
                ks = []
                for x in items(s, kt, s.int(1, 6), null=False, mag=9, dup=0):
                    x = x + 0.0 if kt == F64 else x
                    if x not in ks:
                        ks.append(x)
                vs = gval(s)
                vs = mk(vs.t, [seq(vs)[i % len(vs)] for i in range(len(ks))]) if len(vs) else Vec(I64, range(len(ks)))
                return mk(kt, ks), vs
            c["d"], c["e"] = d(), d()
            if s.draw(2):
                c["e"] = (c["e"][0], mk(c["d"][1].t, [s.choice(seq(c["d"][1])) for _ in range(len(c["e"][0]))]))
            c["n"], c["r"], c["a"], c["b"] = s.zint(-9, 9), s.draw(2), s.zint(-8, 8), s.draw(8)
            c["i"] = s.draw(100)
        return c

    def run(self, c, env):
        d = env.driver(cores=c["cores"])
        fn, v = c["fn"], c["v"]
        d.set("v", v)
        e = "v"
        if c["how"] == 1 and isinstance(v, Vec) and len(v) < 40:
            e = lit(v) or "v"
        elif c["how"] == 2:
            e = "(first (list v))"
        others = {}

        def put(nm, x):
            others[nm] = x
            d.set(nm, x)
            return nm
        B = Binder(d)
        if fn == "take":
            src, w = "(take %s %s)" % (e, put("n", Atom(c["nt"], c["n"]))), m_take(v, c["n"])
        elif fn == "range":
            src, w = "(take %s [%d %d])" % (e, c["a"], c["b"]), m_range(v, c["a"], c["b"])
        elif fn == "concat":
            src, w = "(concat %s %s)" % (e, put("w", c["w"])), m_concat(v, c["w"])
        elif fn == "reverse":
            src, w = "(reverse %s)" % e, mk(v.t, list(reversed(seq(v))))
        elif fn in ("raze", "enlist", "unify", "diverse"):
            ns = " ".join(put("e%d" % i, x) for i, x in enumerate(c["l"]))
            if fn == "raze":
                src, w = "(raze (list %s))" % ns, m_raze(Lst(c["l"]))
            elif fn == "enlist":
                src, w = "(enlist %s)" % ns, unbox(c["l"])
            elif fn == "unify":
                src, w = "(unify (list %s))" % ns, unbox(c["l"])
            else:
                x = c["l"][0]
                if not isinstance(x, (Vec, Lst)):
                    raise Skip("not a sequence")
                src, w = "(diverse e0)", Lst(box(x))
        elif fn == "at":
            src, w = "(at %s %s)" % (e, lit1(I64, c["i"])), m_at(v, c["i"])
            if w is None or isinstance(v, Vec) and v.t == GUID and wrap(len(v), c["i"]) is None:
                raise Skip("left open")
        elif fn == "atv":
            if isinstance(v, Vec) and v.t == GUID and any(wrap(len(v), i) is None for i in c["ix"]):
                raise Skip("left open")
            src, w = "(at %s %s)" % (e, put("ix", Vec(I64, c["ix"]))), m_atv(v, c["ix"])
        elif fn == "filter":
            src, w = "(filter %s %s)" % (e, put("m", Vec(B8, c["m"]))), m_filter(v, c["m"])
        elif fn == "where":
            src, w = "(where %s)" % put("m", Vec(B8, c["m"])), Vec(I64, np.nonzero(c["m"])[0])
        elif fn == "til":
            src, w = "(til %d)" % c["n"], Vec(I64, range(c["n"]))
        elif fn in ("first", "last"):
            src, w = "(%s %s)" % (fn, e), m_at(v, 0 if fn == "first" else -1)
            if not len(v):
                raise Skip("left open")
        elif fn == "dict":
            k, x = c["d"]
            put("dk", k)
            put("dv", x)
            i = c["i"] % len(k)
            j = (i * 2 + 1) % len(k)
            d.set("a", Atom(k.t, seq(k)[i]))
            src, w = "(do (set d (dict dk dv)) (list (key d) (value d) (count d) (at d a)))", Lst([k, x, i64(len(k)), box1(x, i)])
        elif fn == "dtake":
            k, x = c["d"]
            put("d1", dct(k, x))
            if c["r"]:
                src, w = "(take d1 [%d %d])" % (c["a"], c["b"]), (m_range(k, c["a"], c["b"]), m_range(x, c["a"], c["b"]))
            else:
                src, w = "(take d1 %d)" % c["n"], (m_take(k, c["n"]), m_take(x, c["n"]))
            if isinstance(x, Lst):
                w = (w[0], w[1])
            w = dct(*w)
        elif fn == "dconcat":
            (k, x), (l, y) = c["d"], c["e"]
            put("d1", dct(k, x))
            put("d2", dct(l, y))
            kk, vv = list(seq(k)), box(x)
            for a, b in zip(seq(l), box(y)):
                if a in kk:
                    vv[kk.index(a)] = b
                else:
                    kk.append(a)
                    vv.append(b)
            src, w = "(concat d1 d2)", (kk, vv)
        g = d.eval(src)
        if fn == "dconcat":
            ok = isinstance(g, Pair) and g.t == DICT and same(g.k, mk(c["kt"], w[0])) and isinstance(g.v, (Vec, Lst)) and same(Lst(box(g.v)), Lst(w[1]))
        else:
            ok = same(g, w)
        if not ok:
            raise Fail("%s with v=%r %r gave %r, expected %r" % (src[:300], v, others, g, w))
        if not c["big"]:
            for nm, x in [("v", v)] + list(others.items()):
                if not same(d.eval(nm), x):
                    raise Fail("%s changed %s: was %r, is %r" % (src[:300], nm, x, d.eval(nm)))
        return [fn, "%s/%s" % (fn, NAME[v.t]), "big" if c["big"] else "small"]

    def nontrivial(self, c, l):
        return c["fn"] not in ("first", "last", "til") and (isinstance(c["v"], Atom) or len(c["v"]) > 0)

    def describe(self, c):
        return " ".join("%s=%r" % (k, x) for k, x in c.items())


class Pipeline(Prop):
    """a sequence of operations on shared variables against the model; all variables are compared after every step"""
    name = "pipelines"
    quick, thorough = 5000, 80000

    def gen(self, s):
        t = s.choice(ALL)
        init = [s.choice([lambda: small_vec(s, t, hi=10), lambda: gval(s)])() for _ in range(3)]
        ops = []
        for _ in range(s.int(3, 14)):
            ops.append((s.choice(["take", "concat", "reverse", "atv", "filter", "removeat", "removeids", "set", "push", "razes", "list", "elem", "copy",
                                  "identity", "range", "nested"]), s.draw(3), s.draw(3), s.draw(3), s.seed(), s.draw(2)))
        return dict(t=t, init=init, ops=ops, fl="asan" if s.draw(4) == 3 else "rel")

    def run(self, c, env):
        d = env.driver(c["fl"])
        m = {}
        for i, v in enumerate(c["init"]):
            d.set("s%d" % i, v)
            m["s%d" % i] = v
        log = []
        labels = set()
        for op, a, b, to, seed, inner in c["ops"]:
            r = np.random.default_rng(seed)
            A, Bv, To = "s%d" % a, "s%d" % b, "s%d" % to
            x, y = m[A], m[Bv]
            n = len(x)
            if op == "take":
                k = int(r.integers(-n - 2, n + 4))
                src, w = "(take %s %d)" % (A, k), m_take(x, k)
            elif op == "range":
                p, q = int(r.integers(-n - 1, n + 2)), int(r.integers(0, n + 2))
                src, w = "(take %s [%d %d])" % (A, p, q), m_range(x, p, q)
            elif op == "concat":
                if n + len(y) > 300:
                    continue
                src, w = "(concat %s %s)" % (A, Bv), m_concat(x, y)
            elif op == "reverse":
                src, w = "(reverse %s)" % A, mk(x.t, list(reversed(seq(x))))
            elif op == "atv":
                if not n:
                    continue
                ix = r.integers(-n, n, 1 + int(r.integers(0, 6))).tolist()
                src, w = "(at %s [%s])" % (A, " ".join(map(str, ix))), m_atv(x, ix)
            elif op == "filter":
                mm = r.integers(0, 2, n).tolist()
                if not n:
                    continue
                src, w = "(filter %s [%s])" % (A, " ".join(["false", "true"][k] for k in mm)), m_filter(x, mm)
            elif op == "removeat":
                k = int(r.integers(0, n + 2))
                src, w = "(remove %s %d)" % (A, k), mk(x.t, [e for i, e in enumerate(seq(x)) if i != k])
                if isinstance(x, Vec) and x.t == B8:
                    pass
            elif op == "removeids":
                if isinstance(x, Vec) and n:
                    continue
                continue
            elif op == "razes":
                if n + len(y) > 300:
                    continue
                src, w = "(raze (list %s %s))" % (A, Bv), m_raze(Lst([x, y]))
                if not isinstance(w, (Vec, Lst)) or not len(w):
                    if x.t != y.t or isinstance(x, Lst):
                        continue
            elif op == "list":
                src, w = "(list %s %s %s)" % (A, Bv, A), Lst([x, y, x])
                if depth(w) > 4 or size(w) > 400:
                    continue
            elif op == "nested":
                src, w = "(at (list %s %s) 1)" % (A, Bv), y
            elif op == "elem":
                if not isinstance(x, Lst) or not n:
                    continue
                k = int(r.integers(0, n))
                if not isinstance(x.a[k], (Vec, Lst)):
                    continue
                src, w = "(at %s %d)" % (A, k), x.a[k]
            elif op == "copy":
                src, w = A, x
            elif op == "identity":
                src, w = "((fn [p] p) %s)" % A, x
            elif op == "set":
                if not n or not isinstance(x, Vec) or not len(y) or y.t != x.t:
                    continue
                k, q = int(r.integers(0, n)), int(r.integers(0, len(y)))
                l = list(seq(x))
                l[k] = seq(y)[q]
                src, w, To = "(do (alter '%s set %d (at %s %d)) %s)" % (A, k, Bv, q, A), mk(x.t, l), A
            elif op == "push":
                if not isinstance(x, Vec) or not len(y) or y.t != x.t:
                    continue
                q = int(r.integers(0, len(y)))
                src, w, To = "(do (alter '%s concat (at %s %d)) %s)" % (A, Bv, q, A), m_concat(x, Atom(x.t, seq(y)[q])), A
            log.append("(set %s %s)" % (To, src))
            g = d.eval(log[-1])
            m[To] = w
            labels.add(op)
            for nm in m:
                g = d.eval(nm)
                if not same(g, m[nm]):
                    raise Fail("starting from %r, after %s: %s is %r, expected %r" % (
                        {"s%d" % i: v for i, v in enumerate(c["init"])}, " ".join(log), nm, g, m[nm]))
        if not log:
            raise Skip("no applicable operation")
        return list(labels) + ["steps=%d" % min(len(log), 10), c["fl"]]

    def describe(self, c):
        return "init=%r ops=%r" % (c["init"], c["ops"])


def depth(v):
    return 1 + max(map(depth, v.a), default=0) if isinstance(v, Lst) else 0


def size(v):
    return sum(map(size, v.a)) if isinstance(v, Lst) else 1 + (len(v) if isinstance(v, Vec) else 0)


class Tables(Prop):
    """row and column operations on tables and dictionaries of columns"""
    name = "tables"
    quick, thorough = 4000, 60000

    def gen(self, s):
        n = s.size(12)
        k = s.int(1, 4)
        cols = [mk(t, items(s, t, n)) for t in (s.choice(ALL) for _ in range(k))]
        if s.draw(4) == 3:
            cols.append(Lst([litem(s) for _ in range(n)]))
        return dict(cols=cols, n=n, op=s.choice(["take", "range", "concat", "filter", "col", "cols", "row", "key", "table", "first", "except", "enum"]),
                    i=s.zint(-n - 1, n + 1), a=s.zint(-n - 1, n + 1), b=s.draw(n + 2), seed=s.seed(), p=s.draw(24))

    def run(self, c, env):
        d = env.driver()
        cols, n = c["cols"], c["n"]
        names = ["c%d" % i for i in range(len(cols))]
        t = tbl(names, cols)
        d.set("t", t)
        r = np.random.default_rng(c["seed"])
        op = c["op"]
        if op == "take":
            src, w = "(take t %d)" % c["i"], tbl(names, [m_take(x, c["i"]) for x in cols])
        elif op == "range":
            src, w = "(take t [%d %d])" % (c["a"], c["b"]), tbl(names, [m_range(x, c["a"], c["b"]) for x in cols])
        elif op == "concat":
            p = list(r.permutation(len(cols)))
            u = [mk(cols[i].t, [seq(cols[i])[j] for j in r.integers(0, n, 3)] if n else []) for i in p]
            d.set("u", tbl([names[i] for i in p], u))
            inv = {i: x for i, x in zip(p, u)}
            src, w = "(concat t u)", tbl(names, [mk(x.t, list(seq(x)) + list(seq(inv[i]))) for i, x in enumerate(cols)])
        elif op == "filter":
            mm = r.integers(0, 2, n)
            d.set("m", Vec(B8, mm))
            src, w = "(filter t m)", tbl(names, [m_filter(x, mm) for x in cols])
        elif op == "col":
            k = c["p"] % len(cols)
            src, w = "(at t '%s)" % names[k], cols[k]
        elif op == "cols":
            p = r.integers(0, len(cols), 3).tolist()
            src, w = "(at t [%s])" % " ".join(names[i] for i in p), Lst([cols[i] for i in p])
        elif op == "except":
            p = r.integers(0, len(cols) + 2, int(r.integers(1, 5))).tolist()
            nm = ["c%d" % i for i in p]
            keep = [i for i in range(len(cols)) if names[i] not in (nm if c["p"] % 2 else nm[:1])]
            src, w = "(except t %s)" % ("[%s]" % " ".join(nm) if c["p"] % 2 else "'" + nm[0]), tbl([names[i] for i in keep], [cols[i] for i in keep])
        elif op == "enum":
            # an enumeration gives the symbols it stands for, one or several, from either end
            dom = ["e%d" % i for i in range(1 + c["p"] % 7)]
            v = [dom[i] for i in r.integers(0, len(dom), n + 1)]
            ix = r.integers(-n - 1, n + 1, int(r.integers(1, 6))).tolist()
            k = int(r.integers(-n - 1, n + 1))
            src = "(do (set edom [%s]) (set ev (enum 'edom [%s])) (list (at ev [%s]) (at ev %d) (first ev) (last ev) (count ev)))" % (
                " ".join(dom), " ".join(v), " ".join(map(str, ix)), k)
            w = Lst([syms([v[i] for i in ix]), Atom(SYM, v[k].encode()), Atom(SYM, v[0].encode()), Atom(SYM, v[-1].encode()), i64(n + 1)])
        elif op == "row":
            if wrap(n, c["i"]) is None:
                raise Skip("left open")
            src, w = "(at t %d)" % c["i"], None
        elif op == "key":
            src, w = "(list (key t) (value t) (count t))", Lst([syms(names), Lst(cols), i64(n)])
        elif op == "table":
            for i, x in enumerate(cols):
                d.set("x%d" % i, x)
            src, w = "(table [%s] (list %s))" % (" ".join(names), " ".join("x%d" % i for i in range(len(cols)))), t
        else:
            if not n:
                raise Skip("left open")
            src, w = "(first t)", None
            c = dict(c, i=0)
        g = d.eval(src)
        if w is None:
            want = [m_at(x, c["i"]) for x in cols]
            ok = isinstance(g, Pair) and g.t == DICT and same(g.k, syms(names)) and same(Lst(box(g.v)), Lst(want))
            w = want
        else:
            ok = same(g, w)
        if not ok:
            raise Fail("%s with t=%r gave %r, expected %r" % (src, t, g, w))
        if not same(d.eval("t"), t):
            raise Fail("%s changed t" % src)
        return [op]

    def nontrivial(self, c, l):
        return c["n"] > 0

    def describe(self, c):
        return repr(c)


class History(Prop):
    """the answer depends on the value only, not on how it came about"""
    name = "history"
    quick, thorough = 7000, 120000
    SRC = ["(take r 3)", "(take r -5)", "(take r [1 2])", "(concat r r)", "(concat r (first r))", "(concat (last r) r)", "(reverse r)", "(raze (list r r))",
           "(at r [0 -1 0])", "(at r 1)", "(filter r (< 1 (til (count r))))", "(first r)", "(last r)", "(count r)", "(list r)", "(remove r 1)",
           "(remove r 0)", "(dict r (til (count r)))", "(table [a] (list r))", "(enlist r r)", "(diverse r)", "(map (fn [x] x) r)", "(at (asc r) 0)",
           "(reverse (asc r))", "(asc (concat r r))", "(asc (reverse r))", "(distinct (take r 7))", "(iasc (remove r 0))", "(asc (take r -3))"]

    def gen(self, s):
        c = prov.gen_history(s)
        c["src"] = s.choice(self.SRC)
        c["fl"] = "asan" if s.draw(4) == 3 else "rel"
        return c

    def run(self, c, env):
        d = env.driver(c["fl"])
        g = prov.build(c, d)
        if g is None:
            raise Skip("history has no vector result")
        x, y = d.eval(c["src"]), d.eval(c["src"].replace(" r", " q"))
        if not same(x, y):
            raise Fail("after %s, with r equal to %r: %s gave %r, on a freshly built equal vector it gives %r" % (self.text(c), g, c["src"], x, y))
        if not same(d.eval("r"), g):
            raise Fail("%s changed r: %r" % (c["src"], d.eval("r")))
        return [c["src"].split()[0][1:], NAME[g.t]]

    def text(self, c):
        return "v=%r start=%s then %s (nest %r)" % (c["v"], c["f"], " ; ".join(c["ops"]), c["nest"])

    def describe(self, c):
        return "%s: %s" % (c["src"], self.text(c))


class Refused(Prop):
    """arguments outside the definition are refused; operands and session stay intact"""
    name = "refused"
    quick, thorough = 1200, 12000
    BAD = ["(take v 1.0)", "(take v 'a)", "(take v [1 2 3])", "(take v [0 -1])", "(take (fn [x] x) 2)", "(til -1)", "(til 1.0)", "(til 'a)", "(at v 'a)", "(at v 1.5)",
           "(at 5 0)", "(at 'a 0)", "(filter v true)", "(filter v [1 0 1])", "(filter v (concat (!= (til (count v)) -1) true))", "(where 5)", "(where [1 2])",
           "(reverse 5)", "(reverse 'a)", "(dict v (til (+ 1 (count v))))", "(table [a b] (list v (concat (til (count v)) 1)))", "(table [a b] (list v))",
           "(table 1 v)", "(concat t (table [zz] (list v)))", "(concat (dict [1] [2]) (dict ['a] [2]))", "(dict 5 5)", "(table [a b] (list [] [1]))"]

    def gen(self, s):
        return s.choice(self.BAD), gval(s, lists=False)

    def run(self, c, env):
        src, v = c
        d = env.driver()
        d.set("v", v)
        d.set("t", tbl(["a", "b"], [v, v]))
        g = d.eval(src)
        if not isinstance(g, Err):
            raise Fail("%s with v=%r must be refused, gave %r" % (src, v, g))
        if not same(d.eval("v"), v) or not same(d.eval("(reverse [1 2])"), Vec(I64, [2, 1])):
            raise Fail("after %s: operand changed or session unusable" % src)
        return [src]

    def describe(self, c):
        return "%s v=%r" % c


if __name__ == "__main__":
    sys.exit(run_check("C06", [Ops(), Pipeline(), Tables(), History(), Refused()],
                       rule="an operation on a non-empty sequence, a pipeline with at least one applicable step, a table with rows, or a history ending in a vector",
                       assumptions=["strings do not contain NUL characters (concat drops a trailing one)", "out-of-range positions in guid vectors and in empty sequences are left open"]))
