import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref, anyval, shutil
from gen import *
import re, random
import numpy as np
from C18 import BIG, deq

VT = [I64, SYM, F64, C8, I32, I16, U8, B8, DATE, TIME, TS, GUID]
SYMS = [b"a", b"b", b"aa", b"x y", b"q" * 30, b"sym", b"0"]
NAMES = [b"a", b"b", b"c", b"k", b"price", b"Sym"]


def column(s, n, lists=True):
    k = s.draw(10)
    if k < 3:
        p = [s.choice(SYMS + [None]) for _ in range(3)]
        if n > 300:
            return vec_of(SYM, [p[i] for i in np.random.default_rng(s.seed()).integers(0, 3, n).tolist()])
        return vec_of(SYM, [s.choice(p) for _ in range(n)])
    t = s.choice([x for x in VT if x != SYM])
    if n > 300:
        if t == GUID:
            t = I64
        return big_array(s, t, n)
    if lists and k == 9:
        # something that makes a list and not a vector
        l = [anyval.value(s, 1) for _ in range(n)]
        return Lst(l)
    return anyval.vect(s, t, n)


def table(s, n=None, lists=True):
    if n is None:
        n = s.choice(BIG[:8]) if s.draw(30) == 29 else s.size(8)
    nc = s.int(1, 5)
    return Pair(TABLE, Vec(SYM, NAMES[:nc]), Lst([column(s, n, lists and n < 300) for _ in range(nc)]))


def plain(v):
    """as it reads: symbols for enumerations, lists for lists that are still in their files"""
    if isinstance(v, Enm):
        return v.v
    if isinstance(v, Lst) and v.t == 74:
        # the days of a parted table and the number of rows of each
        return Vec(v.a[0].t, np.repeat(v.a[0].a, v.a[1].a))
    if isinstance(v, Lst):
        return Lst([plain(x) for x in v.a])
    if isinstance(v, Pair):
        return Pair(v.t, plain(v.k), plain(v.v))
    return v


def eq(w, g):
    return deq(plain(w), plain(g))


def rows(t):
    return len(t.v.a[0].v.a if isinstance(t.v.a[0], Enm) else t.v.a[0].a) if t.v.a else 0


Q = """(select {from: T where: (> (til (count a)) 1)})|(select {c: (count a) from: T by: a})|(select {x: (first a) y: (last a) from: T})|(count T)|(at T 'a)|(at T 0)|(take T 2)|(take T -2)|
(concat T T)|(select {n: a from: T})|(update {z: (til (count a)) from: T})|(update {a: (reverse a) from: T})|(key T)|(value T)|(select {from: T by: a})|(select {from: T where: (== a (first a))})|
(xasc T 'a)|(xdesc T 'a)|(first T)|(last T)|(reverse (at T 'a))|(distinct (at T 'a))|(group (at T 'a))|(select {from: T take: 2})|(at T [a])|(map count (value T))|(insert T (first T))|
(select {s: (count b) f: (first b) from: T by: a})|(select {from: T where: (in a (take a 1))})|(upsert T 1 (first T))|(left-join [a] T T)|(table (key T) (value T))|(at T [0 1])|(update {b: a from: T})""".replace("\n", "").split("|")


# not taken over symbols that are enumerated (a type error)
ENOPEN = ["reverse", "xasc", "xdesc", "upsert", "insert"]
# a row that is not there
ROWOPEN = ["(first T)", "(last T)", "(at T 0)", "(at T [0 1])"]


class Splayed(Prop):
    """histories over directories of splayed tables, with and without a shared symbol file, by two processes"""
    name = "splayed"
    quick, thorough = 3500, 30000
    flavours = ("rel", "asan")

    def gen(self, s):
        ops = []
        for _ in range(s.int(2, 14)):
            k, p, f = s.draw(12), s.draw(2), s.draw(3)
            if k < 5:
                ops.append(("save", p, f, table(s), s.choice([0, 0, 1, 2])))
            elif k < 9:
                ops.append(("read", p, f, s.choice(Q) if s.draw(2) else None))
            elif k == 9:
                ops.append(("resave", p, f, s.draw(3), s.choice([0, 1, 2])))
            elif k == 10:
                ops.append(("bind", p, f))
            else:
                ops.append(("restart", p))
        return dict(ops=ops, asan=s.draw(10) == 9)

    def run(self, c, env):
        ds = [env.driver("asan" if c["asan"] else "rel"), env.driver("rel", cores=4)]
        root = env.fresh_dir()
        path = lambda f: os.path.join(root, "tab%d/" % f)
        sf = lambda m: ' "%s"' % os.path.join(root, "sym%d" % m) if m else ""
        model = {}
        loads = saves = 0

        def read(p, f):
            return ds[p].eval('(set loaded (get-splayed "%s"%s))' % (path(f), sf(model[f][1])))

        for n, o in enumerate(c["ops"]):
            k, p = o[0], o[1]
            d = ds[p]
            where = "step %d of process %d" % (n, p)
            if k == "save":
                d.set("tabx", o[3])
                r = d.eval('(set-splayed "%s" tabx%s)' % (path(o[2]), sf(o[4])))
                if isinstance(r, Err):
                    raise Fail("%s: saving %r raised %r" % (where, o[3], r))
                if not same(d.eval("tabx"), o[3]):
                    raise Fail("%s: saving has changed the table" % where)
                model[o[2]] = (o[3], o[4])
                saves += 1
            elif k == "restart":
                d.stop()
                d.start()
            elif o[2] not in model:
                r = d.eval('(get-splayed "%s")' % path(o[2]))
                if not isinstance(r, Err):
                    raise Fail("%s: a table nobody has saved reads as %r" % (where, r))
            elif k == "read":
                w = model[o[2]][0]
                g = read(p, o[2])
                loads += 1
                if not eq(w, g):
                    raise Fail("%s: saved %r, read %r" % (where, w, g))
                if o[3]:
                    d.set("memt", w)
                    a, b = d.eval(o[3].replace("T", "memt")), d.eval(o[3].replace("T", "loaded"))
                    lazy = any(isinstance(x, Lst) for x in w.v.a)
                    enums = any(isinstance(x, Vec) and x.t == SYM for x in w.v.a)
                    if isinstance(a, Err) and isinstance(b, Err):
                        continue
                    if isinstance(b, Err) and b.name in ("type", "nyi", "index") and (lazy or enums and any(x in o[3] for x in ENOPEN)):
                        continue
                    if enums and "concat" in o[3] or rows(w) < 2 and any(x in o[3] for x in ROWOPEN):
                        continue
                    if "distinct" in o[3] and enums:
                        a, b = plain(a), plain(b)
                        if isinstance(a, Vec) and isinstance(b, Vec) and a.t == b.t and sorted(a.a) == sorted(b.a):
                            continue
                    if not eq(a, b):
                        raise Fail("%s: %s over the table in its files gives %r, over the table itself %r" % (where, o[3], b, a))
            elif k == "resave":
                w, m = model[o[2]]
                g = read(p, o[2])
                r = d.eval('(set-splayed "%s" loaded%s)' % (path(o[3]), sf(o[4])))
                if isinstance(r, Err):
                    raise Fail("%s: saving what was read raised %r" % (where, r))
                model[o[3]] = (w, o[4])
            elif k == "bind" and not model[o[2]][1]:
                r = d.eval('(do (load "%s") tab%d)' % (path(o[2]), o[2]))
                if not eq(model[o[2]][0], r):
                    raise Fail("%s: load binds %r for %r" % (where, r, model[o[2]][0]))
                loads += 1
        for f in model:
            for p in (0, 1):
                g = read(p, f)
                if not eq(model[f][0], g):
                    raise Fail("at the end process %d reads %r from tab%d, saved was %r" % (p, g, f, model[f][0]))
        return dict(saves=min(saves, 2), loads=min(loads, 2))

    def nontrivial(self, c, labels):
        return labels["loads"] > 0

    def describe(self, c):
        return "; ".join("%s %s" % (o[0], " ".join(repr(x)[:80] for x in o[1:])) for o in c["ops"])


# ---- parted tables

DAY0 = 8766          # 2024.01.01
NUM = [I64, F64, I32, I16, U8]


def dstr(x):
    import datetime
    return (datetime.date(2000, 1, 1) + datetime.timedelta(days=x)).strftime("%Y.%m.%d")


def pcol(s, t, n):
    if t == SYM:
        return vec_of(SYM, [s.choice(SYMS[:3]) for _ in range(n)])
    if n > 300:
        # without nulls: first and last of parted columns look for values
        r = np.random.default_rng(s.seed()).integers(0, 2 if t == B8 else 120, n)
        return Vec(t, (r / 2.0 if t == F64 else r).astype(DT[t]))
    return vec_of(t, [s.int(0, 9) / 2.0 if t == F64 else s.int(0, 9) % (2 if t == B8 else 10) for _ in range(n)] if t in (I64, F64, I32, I16, U8, B8) else [s.choice([0, 1, -5, 86399999, 7, 2000000000]) for _ in range(n)])


AGS = {"sum": NUM, "avg": NUM, "min": [I64, F64, I32, I16, U8], "max": [I64, F64, I32, I16, U8], "count": VT, "first": VT, "last": VT,
       "med": NUM, "dev": [I64, F64, I32, I16], "row": VT, "distinct": [I64, SYM, I32, I16]}


def cond(s, days, cols):
    k = s.draw(6)
    dd = s.choice(days + [days[0] - 1, days[-1] + 1])
    if k < 3:
        o = s.choice(["==", "<", ">", ">=", "<=", "!="])
        return "(%s %s Date)" % (o, dstr(dd)) if s.draw(4) == 3 else "(%s Date %s)" % (o, dstr(dd))
    if k == 3:
        return "(in Date [%s])" % " ".join(dstr(s.choice(days)) for _ in range(s.int(1, 3)))
    if k == 4:
        return "(within Date [%s %s])" % (dstr(min(dd, days[0])), dstr(dd))
    return "(and (>= Date %s) (<= Date %s))" % (dstr(s.choice(days)), dstr(s.choice(days)))


def ccond(s, cols):
    n, t = s.choice(cols)
    if t == SYM:
        return "(== %s '%s)" % (n, s.choice(["a", "b", "aa"]))
    if t in NUM:
        o, k = s.choice(["==", "<", ">", ">=", "<=", "!="]), s.int(0, 12)
        return "(%s %d %s)" % (o, k, n) if s.draw(4) == 3 else "(%s %s %d)" % (o, n, k)
    if t == B8:
        o = ccond(s, cols) if s.draw(3) else None
        return s.choice(["(and %s %s)", "(or %s %s)", "(and %s %s)"]) % ((n, o) if s.draw(2) else (o, n)) if o else n
    return None


class Parted(Prop):
    """queries over a table parted by date, against the table which has a Date column"""
    name = "parted"
    quick, thorough = 2500, 20000
    flavours = ("rel", "asan")

    def gen(self, s):
        nd = s.int(1, 5)
        days = sorted({DAY0 + s.draw(40) for _ in range(nd)})
        cols = [("abcde"[i], s.choice(NUM + [I64, F64, SYM, SYM, DATE, TIME, TS, B8])) for i in range(s.int(1, 4))]
        big = s.draw(20) == 19
        parts = []
        for _ in days:
            n = s.choice([1000, 4097, 70000]) if big else s.int(1, 7)
            parts.append([pcol(s, t, n) for _, t in cols])
        qs = []
        nr = sum(len(p[0].a) for p in parts)
        for _ in range(s.int(1, 4)):
            k = s.draw(10)
            ags = []
            for i in range(s.int(1, 3)):
                n, t = s.choice(cols)
                ags.append("%s%d: (%s %s)" % ("xyz"[i], i, s.choice([f for f in AGS if t in AGS[f]]), n))
            ag = " ".join(ags)
            if k < 3:
                w = cond(s, days, cols) if s.draw(2) else ccond(s, cols)
                if w and s.draw(4) == 3:
                    w = "(and %s %s)" % (w, ccond(s, cols) or cond(s, days, cols))
                if s.draw(5) == 4:
                    ag = "x0: " + s.choice(cols)[0]
                qs.append("(select {%s from: T by: Date%s})" % (ag, " where: " + w if w else ""))
            elif k < 5:
                w = cond(s, days, cols) if s.draw(3) else None
                qs.append("(select {from: T%s})" % (" where: " + w if w else ""))
            elif k == 5:
                qs.append("(select {%s from: T})" % ag)
            elif k == 6:
                w = ccond(s, cols)
                qs.append("(select {from: T%s})" % (" where: " + w if w else ""))
            elif k == 7:
                w, v = cond(s, days, cols), ccond(s, cols)
                qs.append("(select {from: T where: %s})" % ("(and %s %s)" % (w, v) if v else w))
            elif k == 8:
                n, t = s.choice(cols)
                qs.append("(select {%s from: T by: %s})" % (ag, n))
            else:
                n, t = s.choice(cols)
                qs.append(s.choice(["(count T)", "(count (at T '%s))" % n, "(at T '%s)" % n, "(key T)", "(select {%s: %s Date: Date from: T})" % (n, n), "(select {m: (* 2 %s) from: T})" % n,
                                    "(%s (at T '%s))" % (s.choice([f for f in AGS if t in AGS[f]]), n), "(at T %d)" % s.int(-nr, nr - 1), "(select {%s from: T where: %s})" % (ag, ccond(s, cols) or "(== Date %s)" % dstr(days[0]))]))
        # rows picked one by one
        mk = np.random.default_rng(s.seed()).integers(0, 2, nr).astype("u1")
        if s.draw(4) == 3:
            qs.append(s.choice(["(select {from: T where: mk})", "(select {%s from: T where: mk})" % ag, "(select {x0: %s from: T where: mk})" % s.choice(cols)[0]]))
        return dict(days=days, cols=cols, parts=parts, q=qs, mk=mk, order=s.draw(2), asan=s.draw(4) == 3 and not big)

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel")
        root = env.fresh_dir() + "/db/"
        names = Vec(SYM, [n.encode() for n, _ in c["cols"]])
        l = list(zip(c["days"], c["parts"]))
        for day, cols in (l[::-1] if c["order"] else l):
            d.set("tabx", Pair(TABLE, names, Lst(cols)))
            r = d.eval('(set-splayed "%s%s/tab/" tabx "%ssym")' % (root, dstr(day), root))
            if isinstance(r, Err):
                raise Fail("saving a partition raised %r" % r)
        whole = [Vec(DATE, [day for day, p in l for _ in range(len(p[0].a))])]
        for i, (n, t) in enumerate(c["cols"]):
            if t == SYM:
                whole.append(Vec(t, [x for p in c["parts"] for x in p[i].a]))
            else:
                whole.append(Vec(t, np.concatenate([p[i].a for p in c["parts"]])))
        d.set("memt", Pair(TABLE, Vec(SYM, [b"Date"] + names.a), Lst(whole)))
        r = d.eval('(set loaded (get-parted "%s" \'tab))' % root)
        if isinstance(r, Err):
            raise Fail("reading the parted table raised %r" % r)
        ok = 0
        d.set("mk", Vec(B8, c["mk"]))
        for q in c["q"]:
            a, b = d.eval(q.replace("T", "memt")), d.eval(q.replace("T", "loaded"))
            if isinstance(a, Err) and isinstance(b, Err):
                continue
            # columns of other types, and other clauses, may be refused; and so may be a condition no day meets
            plain_q = ("by: Date" in q or q.count("Date") == 1) and not re.search(r"where: \((?!\S+ Date|and \(\S+ Date \S+ \(\S+ Date)", q) and "Date: Date" not in q
            core = all(t in (I64, F64, I32, I16) for n, t in c["cols"] if "from: T" in q[:9] or re.search(r"\b%s[ )]" % n, q))
            if isinstance(b, Err) and b.name in ("type", "nyi", "length") and not (plain_q and core and rows(a)):
                continue
            if isinstance(b, Enm):
                b = plain(b)
            if re.match(r"\(\w+ \(at", q) and isinstance(b, Vec) and len(b) == 1 and isinstance(a, Atom):
                b = Atom(b.t, b.a[0])
            if isinstance(a, Err) and "(med " in q:
                continue
            if q.startswith("(at T") and isinstance(b, Lst):
                # a list of the parts
                b = [plain(x) for x in b.a]
                b = Vec(a.t, [y for x in b for y in x.a]) if all(isinstance(x, Vec) and x.t == a.t for x in b) else Lst(b)
            if "where: mk" in q and isinstance(b, Pair) and isinstance(a, Pair) and isinstance(b.v.a[0], Lst) and a.v.a[0].t == DATE:
                # the days of single rows may come as a list
                b = Pair(b.t, b.k, Lst([Vec(DATE, [x.v for x in b.v.a[0].a])] + b.v.a[1:]))
            if isinstance(b, Err) or isinstance(a, Err) or not approx(plain(a), plain(b)):
                raise Fail("%s over the parted table gives %r, over the table in memory %r" % (q, b, a))
            ok += 1
        # and the columns are what they were
        for n, t in c["cols"]:
            a, b = d.eval("(at memt '%s)" % n), d.eval("(at loaded '%s)" % n)
            b = [plain(x) for x in b.a] if isinstance(b, Lst) else [b]
            if not all(isinstance(x, Vec) and x.t == a.t for x in b) or not same(a, Vec(a.t, [y for x in b for y in x.a])):
                raise Fail("after %s the column %s is %r and not %r" % (" ".join(c["q"]), n, b, a))
        return dict(ok=ok > 0)

    def nontrivial(self, c, labels):
        return labels["ok"]

    def describe(self, c):
        return "%d days, columns %r: %s" % (len(c["days"]), c["cols"], "; ".join(c["q"]))


class Broken(Prop):
    """directories that are not what they should be: a value or an error, and nothing kept"""
    name = "broken"
    quick, thorough = 1200, 12000
    flavours = ("asan", "rel")

    def gen(self, s):
        nd = s.int(1, 3)
        cols = [("abcde"[i], s.choice(NUM + [SYM, SYM, DATE, C8, "list"])) for i in range(s.int(1, 3))]
        muts = [(s.draw(9), s.draw(nd), s.draw(1 << 16), s.draw(256)) for _ in range(s.int(1, 3))]
        return dict(cols=cols, n=s.int(0, 4), nd=nd, m=muts, asan=s.draw(2) == 0)

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel")
        root = env.fresh_dir() + "/db/"
        n = c["n"]
        S = Source(rng=random.Random(5))
        days = ["2024.01.%02d" % (i + 1) for i in range(c["nd"])]
        for day in days:
            cols = [Lst([anyval.value(S, 1) for _ in range(n)]) if t == "list" else pcol(S, t, n) if t != C8 else Vec(C8, b"xyzuv"[:n]) for _, t in c["cols"]]
            d.set("tabx", Pair(TABLE, Vec(SYM, [x.encode() for x, _ in c["cols"]]), Lst(cols)))
            r = d.eval('(set-splayed "%s%s/tab/" tabx "%ssym")' % (root, day, root))
            if isinstance(r, Err):
                raise Fail("saving raised %r" % r)
        for k, day, pos, val in c["m"]:
            t = "%s%s/tab/" % (root, days[day])
            fs = sorted(os.listdir(t)) if os.path.isdir(t) else []
            f = t + fs[pos % len(fs)] if fs else None
            if k == 0 and f:
                os.unlink(f)
            elif k == 1 and f:
                b = open(f, "rb").read()
                open(f, "wb").write(b[:pos % (len(b) + 1)])
            elif k == 2 and f:
                b = bytearray(open(f, "rb").read())
                if b:
                    b[pos % min(len(b), 40)] = val
                open(f, "wb").write(b)
            elif k == 3:
                os.makedirs(root + ["junk", "2024.01.09", "x.y", "2024.13.45"][pos % 4], exist_ok=True)
            elif k == 4:
                shutil.rmtree(t, ignore_errors=True)
            elif k == 5 and os.path.exists(root + "sym"):
                os.unlink(root + "sym")
            elif k == 6 and fs:
                g = t + fs[val % len(fs)]
                if f != g:
                    shutil.copy(f, g)
            elif k == 7:
                d.set("taby", Pair(TABLE, Vec(SYM, [b"a", b"z"]), Lst([Vec(I64, range(3)), Vec(F64, [0.5] * 3)])))
                d.eval('(set-splayed "%s" taby "%ssym")' % (t, root))
            elif k == 8 and os.path.exists(root + "sym"):
                b = bytearray(open(root + "sym", "rb").read())
                b[pos % len(b)] = val
                open(root + "sym", "wb").write(b)
        srcs = ['(get-parted "%s" \'tab)' % root, '(get-splayed "%s%s/tab/" "%ssym")' % (root, days[0], root), '(load "%s%s/tab/")' % (root, days[-1])]
        err = 0
        for x in srcs:
            r = d.eval("(set loaded %s)" % x)
            err += isinstance(r, Err)
            if not isinstance(r, Err):
                for q in ["(select {x: (count a) y: (first a) from: loaded by: Date})", "(select {from: loaded where: (== Date 2024.01.01)})", "(value loaded)", "(at loaded 0)",
                          "(select {x: (count a) from: loaded by: a})", "(select {from: loaded})"]:
                    d.eval(q)
            d.eval("(set loaded 0)")
        if not c["asan"]:
            for x in srcs:
                a, b = d.live("(count %s)" % x, 10), d.live("(count %s)" % x, 10)
                if b > a:
                    z, w = d.live("(count %s)" % x, 20), d.live("(count %s)" % x, 20)
                    if w > z > b:
                        raise Fail("about %d more bytes are in use after each %s" % ((w - z) // 20, x))
        return dict(err=min(err, 1))

    def nontrivial(self, c, labels):
        return True

    def describe(self, c):
        return "%d days of columns %r, changed by %r" % (c["nd"], c["cols"], c["m"])


def approx(a, b):
    if isinstance(a, Pair) and isinstance(b, Pair):
        return a.t == b.t and approx(a.k, b.k) and approx(a.v, b.v)
    if isinstance(a, Lst) and isinstance(b, Lst):
        return len(a.a) == len(b.a) and all(approx(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Vec) and isinstance(b, Vec) and a.t == b.t == F64 and len(a.a) == len(b.a):
        return bool(np.all((a.a == b.a) | (np.isnan(a.a) & np.isnan(b.a)) | (np.abs(a.a - b.a) <= 1e-9 * np.abs(a.a))))
    if isinstance(a, Atom) and isinstance(b, Atom) and a.t == b.t == F64:
        return a.v == b.v or abs(a.v - b.v) <= 1e-9 * abs(a.v) or (a.v != a.v and b.v != b.v)
    if isinstance(a, Vec) and isinstance(b, Vec) and a.t in (DATE, TIME, TS) and b.t == (I64 if a.t == TS else I32):
        # moments taken from parted columns read as numbers
        return len(a.a) == len(b.a) and bool(np.all(a.a == b.a))
    if isinstance(a, Atom) and isinstance(b, Atom) and a.t in (DATE, TIME, TS) and b.t == (I64 if a.t == TS else I32):
        return a.v == b.v
    return same(a, b)


if __name__ == "__main__":
    sys.exit(run_check("C19", [Splayed(), Parted(), Broken()], rule="a table was read; a query gives a result and not an error", assumptions=[]))
