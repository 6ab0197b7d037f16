import sys, os, bisect
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref
from gen import *
import numpy as np
from C16 import KT, VT, keypair, column, keyval, sub, enums, settab, result, cut, check_tables
from C14 import AG, agg, eqa, sub as take_rows
from C03 import Open

TT = [I32, I64, TIME, TS, DATE]
BIGS = [5000, 20000, 40001]


def times(s, t, n, span):
    if n > 100:
        r = np.random.default_rng(s.seed())
        a = r.integers(0, max(2, span), n)
        return Vec(t, a.astype(DT[t]))
    l = [s.zint(-span, span) for _ in range(n)]
    if s.draw(5) == 0 and n:
        l[s.draw(n)] = s.choice([NULLV[t], RANGE[t][0], RANGE[t][1]])
    return Vec(t, np.array(l, dtype=DT[t]))


def gen_sides(s, nl, nr, nk, big):
    c = dict(nl=nl, nr=nr, tt=s.choice(TT))
    kn = ["k%d" % i for i in range(nk)]
    ks = [keypair(s, s.choice(KT), nl, nr) for _ in kn]
    span = s.choice([3, 20, 1000]) if not big else s.choice([50, 1000, 10**6])
    L = [(a, k[0]) for a, k in zip(kn, ks)] + [("t", times(s, c["tt"], nl, span))]
    R = [(a, k[1]) for a, k in zip(kn, ks)] + [("t", times(s, c["tt"], nr, span))]
    c["L"], c["R"], c["on"], c["span"] = L, R, kn + ["t"], span
    return c


class Asof(Prop):
    """asof-join"""
    name = "asof"
    quick, thorough = 6000, 100000
    hi = 10

    def size(self, s):
        return s.size(9), s.size(14)

    def gen(self, s, big=False):
        nl, nr = self.size(s)
        c = gen_sides(s, nl, nr, s.choice([1, 1, 2]), big)
        # the right table is in time order
        t = dict(c["R"])["t"].a
        o = np.argsort(t, kind="stable")
        c["R"] = [(a, v if a != "t" else Vec(v.t, t[o])) for a, v in c["R"]]
        vt = VT if big else VT + ["list"]
        if s.draw(2):
            c["L"].append(("u", column(s, s.choice(vt), nl)))
        c["R"].append(("x", column(s, s.choice(vt), nr)))
        if s.draw(3) == 0:
            t = s.choice(vt)
            c["L"].append(("m", column(s, t, nl)))
            c["R"].append(("m", column(s, t, nr)))
        c["en"] = enums(s, c)
        c["asan"] = not big and s.draw(5) == 0
        return c

    def run(self, c, env, cores=1):
        d = env.driver("asan" if c.get("asan") else "rel", cores=cores)
        settab(d, "lt", c["L"], c["en"], "L")
        settab(d, "rt", c["R"], c["en"], "R")
        before = d.eval("lt"), d.eval("rt")
        L, R = dict(c["L"]), dict(c["R"])
        src = "(asof-join [%s] lt rt)" % " ".join(c["on"])

        def fail(msg):
            raise Fail("%s with lt %s, rt %s%s: %s" % (src, [(a, cut(v)) for a, v in c["L"]], [(a, cut(v)) for a, v in c["R"]],
                                                      " enumerated %r" % c["en"] if c["en"] else "", msg))
        groups = {}
        lt, rt = L["t"].a.tolist(), R["t"].a.tolist()
        for i, k in enumerate(zip(*[keyval(R[a]) for a in c["on"][:-1]])):
            groups.setdefault(k, ([], []))
            groups[k][0].append(rt[i])
            groups[k][1].append(i)
        at = []
        for i, k in enumerate(zip(*[keyval(L[a]) for a in c["on"][:-1]])):
            g = groups.get(k)
            j = bisect.bisect_right(g[0], lt[i]) if g else 0
            at.append(g[1][j - 1] if j else None)
        gn, gc = result(d, src, fail)
        names = [a for a, _ in c["L"]] + [a for a, _ in c["R"] if a not in L]
        if gn[:len(c["on"])] != c["on"] or sorted(gn) != sorted(names):
            fail("columns %r, expected %r" % (gn, names))
        for a, x in zip(gn, gc):
            want = L[a] if a in c["on"] or a not in R else sub(R[a], at, L.get(a))
            ok = same(x, want) or (isinstance(want, Lst) and not want.a and not getattr(x, "a", [1]))
            if not ok:
                fail("column %s is %s, expected %s" % (a, cut(x), cut(want)))
        check_tables(d, c, before, fail)
        hit = sum(x is not None for x in at)
        return ["hit" if hit else "nohit", "miss" if hit < c["nl"] else "nomiss", "t:%s" % NAME[c["tt"]], "keys%d" % len(c["on"])] + (["enum"] if c["en"] else [])

    def nontrivial(self, c, l):
        return "hit" in l

    def describe(self, c):
        return "on %s, left %s, right %s" % (c["on"], [(a, cut(v)[:160]) for a, v in c["L"]], [(a, cut(v)[:160]) for a, v in c["R"]])


class AsofBig(Asof):
    """asof-join of tables large enough to be split over threads"""
    name = "asofbig"
    quick, thorough = 60, 1200

    def size(self, s):
        return s.choice(BIGS + [7]), s.choice(BIGS + [7])

    def gen(self, s):
        c = Asof.gen(self, s, True)
        c["cores"] = s.choice([1, 2, 3, 8])
        return c

    def run(self, c, env):
        return Asof.run(self, c, env, c["cores"]) + ["cores%d" % c["cores"]]


EX = {"(sum (* 2 z))": ("sum", lambda a: a * 2), "(max (- z 1))": ("max", lambda a: a - 1), "(min (+ z z))": ("min", lambda a: a + a)}


class Window(Prop):
    """window-join and window-join1"""
    name = "window"
    quick, thorough = 6000, 100000

    def size(self, s):
        return s.size(9), s.size(14)

    def gen(self, s, big=False):
        nl, nr = self.size(s)
        c = gen_sides(s, nl, nr, s.choice([0, 1, 1, 2]), big)
        c["verb"] = s.choice(["window-join", "window-join1"])
        if s.draw(2):
            c["L"].append(("u", column(s, s.choice(VT), nl)))
        r = np.random.default_rng(s.seed())
        c["R"].append(("z", Vec(I64, r.integers(-10, 11, nr))))
        c["R"].append(("x", column(s, s.choice(VT), nr) if nr <= 100 else big_array(s, s.choice([I64, F64, I32, SYM, DATE]), n=nr, mag=1000)))
        c["R"].append(("y", vec_of(t := s.choice([I64, F64, I32, I16, U8]), items(s, t, nr, True, 1000)) if nr <= 100
                       else big_array(s, s.choice([I64, F64, I32, I16]), n=nr, mag=1000)))
        lt = dict(c["L"])["t"].a
        wt = c["tt"]
        k = s.draw(3)
        sp = c["span"]
        if k == 0:
            a, b = s.zint(-sp, sp), s.zint(0, sp)
            lo, hi = lt.astype("i8") + min(a, 0), lt.astype("i8") + b
        elif nl > 100:
            q = np.random.default_rng(s.seed())
            lo = q.integers(-sp, sp, nl)
            hi = lo + q.integers(-2, max(2, sp // 4), nl)
        else:
            lo = np.array([s.zint(-sp, sp) for _ in range(nl)], dtype="i8")
            hi = np.array([s.zint(-sp, sp) for _ in range(nl)], dtype="i8") if k == 1 else lo + np.array([s.zint(0, sp) for _ in range(nl)], dtype="i8")
        c["w"] = Lst([Vec(wt, np.asarray(lo).astype(DT[wt])), Vec(wt, np.asarray(hi).astype(DT[wt]))])
        ms = []
        R = dict(c["R"])
        for j in range(s.int(1, 3)):
            q = s.draw(5)
            if q < 3:
                cn = s.choice(["x", "y", "y", "t"])
                ms.append(("agg", s.choice([f for f in AG if R[cn].t in AG[f]]), cn))
            elif q == 3:
                ms.append(("raw", s.choice(["x", "y", "t", "z"])))
            else:
                ms.append(("expr", s.choice(sorted(EX))))
        c["ms"] = ms
        c["asan"] = not big and s.draw(5) == 0
        return c

    def run(self, c, env, cores=1):
        d = env.driver("asan" if c.get("asan") else "rel", cores=cores)
        settab(d, "lt", c["L"], [], "L")
        settab(d, "rt", c["R"], [], "R")
        d.set("ww", c["w"])
        before = d.eval("lt"), d.eval("rt")
        L, R = dict(c["L"]), dict(c["R"])
        body = " ".join("m%d: %s" % (j, "(%s %s)" % m[1:] if m[0] == "agg" else m[1]) for j, m in enumerate(c["ms"]))
        src = "(%s [%s] ww lt rt {%s})" % (c["verb"], " ".join(c["on"]), body)

        def fail(msg):
            raise Fail("%s with lt %s, rt %s, windows %s: %s" % (src, [(a, cut(v)) for a, v in c["L"]], [(a, cut(v)) for a, v in c["R"]],
                                                                [cut(x) for x in c["w"].a], msg))
        rt = R["t"].a.tolist()
        groups = {}
        keys = list(zip(*[keyval(R[a]) for a in c["on"][:-1]])) if len(c["on"]) > 1 else [()] * c["nr"]
        for i in sorted(range(c["nr"]), key=lambda i: rt[i]):
            g = groups.setdefault(keys[i], ([], []))
            g[0].append(rt[i])
            g[1].append(i)
        lo, hi = [x.a.tolist() for x in c["w"].a]
        lk = list(zip(*[keyval(L[a]) for a in c["on"][:-1]])) if len(c["on"]) > 1 else [()] * c["nl"]
        rows = []
        for i in range(c["nl"]):
            g = groups.get(lk[i])
            if not g:
                rows.append(None)
                continue
            e = bisect.bisect_right(g[0], hi[i])
            b = bisect.bisect_left(g[0], lo[i]) if c["verb"] == "window-join1" else max(0, bisect.bisect_right(g[0], lo[i]) - 1)
            rows.append(g[1][b:e] or None)
        g = d.eval("(set jr %s)" % src, timeout=60)
        if isinstance(g, Err) and not c["nl"] and any(m[0] == "expr" for m in c["ms"]):
            raise Skip("expressions over no groups are left open")
        if isinstance(g, Err) and isinstance(d.eval("(xasc rt [%s])" % " ".join(c["on"])), Err):
            raise Skip("keys of a type that cannot be sorted are refused")
        if not (isinstance(g, Pair) and g.t == TABLE and isinstance(g.k, Vec) and isinstance(g.v, Lst)):
            fail("gave %r" % g)
        gn = [x.decode() for x in g.k.a]
        names = [a for a, _ in c["L"]] + ["m%d" % j for j in range(len(c["ms"]))]
        if gn != names:
            fail("columns %r, expected %r" % (gn, names))
        for a, x in zip(gn, g.v.a):
            if a in L:
                if not same(x, L[a]):
                    fail("column %s is %s, expected %s" % (a, cut(x), cut(L[a])))
                continue
            m = c["ms"][int(a[1:])]
            if m[0] == "raw":
                want = Lst([take_rows(R[m[1]], r or []) for r in rows])
                if not (isinstance(x, Lst) and len(x.a) == c["nl"]):
                    fail("column %s is %s, expected %s" % (a, cut(x), cut(want)))
                for r, (p, q) in enumerate(zip(x.a, want.a)):
                    if not same(p, q):
                        fail("row %d of column %s is %s, expected rows %s: %s" % (r, a, cut(p), (rows[r] or [])[:20], cut(q)))
                continue
            l = ref.elems(x) if isinstance(x, Vec) else None
            if l is None or len(l) != c["nl"]:
                fail("column %s is %s for %d rows" % (a, cut(x), c["nl"]))
            step = 1 if c["nl"] < 2000 else 7
            for r in range(0, c["nl"], step):
                ix = rows[r]
                if not ix:
                    fn = m[1] if m[0] == "agg" else EX[m[1]][0]
                    if fn == "count":
                        ok = l[r] == 0
                    elif fn == "sum":
                        ok = l[r] == 0 or isnull(x.t, l[r])
                    else:
                        ok = isnull(x.t, l[r]) or not hasnull(x.t)
                    if not ok:
                        fail("row %d of column %s is %r though its window has no rows" % (r, a, l[r]))
                    continue
                if m[0] == "agg":
                    try:
                        w = ("a",) + agg(m[1], take_rows(R[m[2]], ix))
                    except Open:
                        continue
                else:
                    fn, f = EX[m[1]]
                    w = ("a",) + agg(fn, Vec(I64, f(R["z"].a[np.asarray(ix, dtype="i8")])))
                if not eqa(w, x.t, l[r]):
                    fail("row %d of column %s is %s %r, expected %s %r of rows %r" % (r, a, NAME[x.t], l[r], NAME[w[1]], w[2], ix[:20]))
        check_tables(d, c, before, fail)
        n = sum(bool(r) for r in rows)
        return ["rows" if n else "norows", "empty" if n < c["nl"] else "full", c["verb"], "t:%s" % NAME[c["tt"]]] + ["m:" + "/".join(m[:2]) for m in c["ms"]]

    def nontrivial(self, c, l):
        return "rows" in l

    def describe(self, c):
        return "%s on %s, left %s, right %s, windows %s, %s" % (c["verb"], c["on"], [(a, cut(v)[:160]) for a, v in c["L"]],
                                                               [(a, cut(v)[:160]) for a, v in c["R"]], [cut(x)[:100] for x in c["w"].a], c["ms"])


class WindowBig(Window):
    """window joins of tables large enough to be split over threads"""
    name = "windowbig"
    quick, thorough = 50, 1000

    def size(self, s):
        return s.choice([5000, 20000, 9]), s.choice([5000, 20000, 40001])

    def gen(self, s):
        c = Window.gen(self, s, True)
        # windows of moderate size keep the work bounded
        lo = c["w"].a[0].a.astype("i8")
        cap = max(2, c["span"] // 50)
        c["w"].a[1] = Vec(c["tt"], np.minimum(c["w"].a[1].a.astype("i8"), lo + cap).astype(DT[c["tt"]]))
        c["cores"] = s.choice([1, 2, 3, 8])
        return c

    def run(self, c, env):
        return Window.run(self, c, env, c["cores"]) + ["cores%d" % c["cores"]]


if __name__ == "__main__":
    sys.exit(run_check("C17", [Asof(), AsofBig(), Window(), WindowBig()],
                       rule="at least one left row has a match (asof) or rows in its window",
                       assumptions=["the right table of an asof-join is in the order of its last key",
                                    "what sum gives for a window without rows (null or 0) is left open"]))
