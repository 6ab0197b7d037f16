import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref
from gen import *
import numpy as np
from C03 import aggregate, Open
from C14 import COND, cond, agg

CT = [I64, F64, SYM, I32, I16, U8, B8, C8, DATE, TIME, TS, GUID, LIST]
KT = [I64, SYM, I32, DATE, TS, GUID, U8, C8, B8, TIME]
ZERO = {U8: 0, B8: 0, C8: 0}
SUMT = [I64, I32, F64]


def zero(t):
    if t == LIST:
        return Null()
    return ZERO[t] if t in ZERO else nullof(t)


def lval(s):
    k = s.draw(5)
    return [i64(s.zint(-50, 50)), sym(s.choice(WORDS)), chars(s.choice(["", "ab", "hello", "xyz"])[0:] or "q?"), f64(s.zint(-8, 8) / 4),
            Vec(I64, [s.zint(-9, 9) for _ in range(s.draw(4))])][k]


def val(s, t, pool=None):
    """a python value for a column of type t (a Val for LIST columns)"""
    if t == LIST:
        return lval(s)
    if pool is not None and s.draw(4):
        return s.choice(pool)
    return scalar(s, t, mag=s.choice([5, 1000]))


def atom(t, v):
    return v if t == LIST else Atom(t, v)


def col(t, l):
    return Lst(list(l)) if t == LIST else vec_of(t, list(l))


def kz(t, v):
    return "nan" if t == F64 and v != v else v + 0.0 if t == F64 else repr(v) if t == LIST else v


class M:
    """model of a table: names, types, columns"""

    def __init__(self, names, types, cols):
        self.n, self.t, self.c = list(names), list(types), [list(c) for c in cols]

    def copy(self):
        return M(self.n, self.t, self.c)

    def rows(self):
        return len(self.c[0])

    def val(self):
        return tbl(self.n, [col(t, c) for t, c in zip(self.t, self.c)])

    def append(self, rec):
        for i in range(len(self.n)):
            self.c[i].append(rec[i] if i < len(rec) and rec[i] is not None or i < len(rec) and self.t[i] == SYM else zero(self.t[i]))

    def upsert(self, keys, recs):
        """recs: lists over a prefix of the columns, or dict index->value"""
        ix = {}
        for r in range(self.rows()):
            ix.setdefault(tuple(kz(self.t[j], self.c[j][r]) for j in range(keys)), r)
        for rec in recs:
            k = tuple(kz(self.t[j], rec[j]) for j in range(keys))
            if k in ix:
                for j in range(keys, len(rec)):
                    self.c[j][ix[k]] = rec[j]
            else:
                ix[k] = self.rows()
                self.append(rec)


# ---------------------------------------------------------------- operations
def other(s, t):
    return s.choice([x for x in (I64, SYM, F64, I32, DATE, B8) if x != t])


def gen_rows(s, names, types, pools, minw=1):
    """rows to add: dict(shape, cols used, records, bad)"""
    w = len(names) if s.draw(3) else s.int(min(minw, len(names)), len(names))
    shape = s.choice(["rec", "vecs", "drec", "dvecs", "table"])
    m = 1 if shape in ("rec", "drec") else s.int(1, 5)
    order = list(range(w))
    if shape in ("drec", "dvecs", "table"):
        k = s.draw(3)
        order = list(range(len(names)))
        if k:
            # rotate / drop columns that are not among the first minw
            r = s.draw(len(names))
            order = order[r:] + order[:r]
            if k == 2:
                order = [i for i in order if i < minw or s.draw(3)]
    order = order or [0]
    if shape in ("rec", "vecs"):
        order = list(range(w))
    recs = [[val(s, types[i], pools.get(i)) for i in order] for _ in range(m)]
    bad = None
    b = s.draw(12)
    if b >= 9:
        bad = s.choice(["type", "len", "extra", "rows0", "nosuch", "atom"])
    return dict(shape=shape, order=order, recs=recs, bad=bad, badcol=s.draw(len(order)), badt=s.seed())


def rows_val(g, names, types):
    """(value to pass, ok?) - ok False when it has to be refused"""
    o = g["order"]
    single = g["shape"] in ("rec", "drec")
    ct = [types[i] for i in o]
    cols = [[r[j] for r in g["recs"]] for j in range(len(o))]
    ok = True
    if single:
        vals = [atom(t, c[0]) for t, c in zip(ct, cols)]
        if not any(isinstance(v, Atom) for v in vals):
            # a record without any atom would read as columns
            vals[0] = Vec(I64, []) if False else vals[0]
            ok = None
    else:
        vals = [col(t, c) for t, c in zip(ct, cols)]
    bad, j = g["bad"], g["badcol"]
    nm = [names[i] for i in o]
    if bad == "type":
        if ct[j] == LIST:
            bad = None
        else:
            c = [x for x in (I64, SYM, F64, I32, DATE, B8) if x != ct[j]]
            bt = c[g["badt"] % len(c)]
            x = {I64: 7, SYM: b"q", F64: 1.5, I32: 3, DATE: 11, B8: 1}[bt]
            vals[j] = Atom(bt, x) if single else vec_of(bt, [x] * len(cols[j]))
            ok = False
    elif bad == "len" and not single and len(o) > 1:
        vals[j] = col(ct[j], cols[j] + cols[j][:1])
        ok = False
    elif bad == "extra" and len(o) == len(names):
        vals = vals + [Atom(I64, 1) if single else Vec(I64, [1] * len(g["recs"]))]
        nm = nm + ["extra"]
        ok = False
    elif bad == "rows0" and not single:
        vals = [col(t, []) for t in ct]
        ok = False
    elif bad == "nosuch" and g["shape"] in ("drec", "dvecs", "table"):
        nm = nm[:j] + ["nosuch"] + nm[j + 1:]
        ok = False
    elif bad == "atom" and not single and len(o) > 1 and ct[j] != LIST:
        vals[j] = atom(ct[j], cols[j][0])      # a mixture of an atom and vectors
        if any(t != LIST for jj, t in enumerate(ct) if jj != j):
            ok = False
        else:
            ok = None
    if g["shape"] in ("rec", "vecs"):
        return Lst(vals), ok
    if g["shape"] == "table" and len({len(v) for v in vals if not isinstance(v, Atom)}) == 1 and not any(isinstance(v, Atom) for v in vals):
        return tbl(nm, vals), ok
    return dct(syms(nm), Lst(vals)), ok


def full(g, names, types):
    """records over all the columns (missing: nulls), in table order; or a prefix for positional lists"""
    out = []
    for r in g["recs"]:
        if g["shape"] in ("rec", "vecs"):
            out.append(list(r))
        else:
            d = dict(zip(g["order"], r))
            out.append([d[i] if i in d else zero(types[i]) for i in range(len(names))])
    return out


class Hist(Prop):
    """histories of insert / upsert / update on a table variable (and on its value), with aliases, against a model"""
    name = "hist"
    quick, thorough = 12000, 150000

    def gen(self, s):
        nc = s.int(1, 4)
        types = [s.choice(KT)] + [s.choice(CT) for _ in range(nc - 1)] + [I64]
        names = ["k", "p", "q", "r"][:nc] + ["w"]
        pools = {0: [val(s, types[0]) for _ in range(s.int(1, 4))]}
        if nc > 1 and types[1] != LIST:
            pools[1] = [val(s, types[1]) for _ in range(s.int(1, 3))]
        pools[nc] = [s.zint(-10, 10) for _ in range(6)]
        n = s.int(0, 6)
        cols = [[val(s, t, pools.get(i)) for _ in range(n)] for i, t in enumerate(types)]
        ops = []
        for _ in range(s.int(1, 6)):
            k = s.weighted([(4, "insert"), (4, "upsert"), (5, "update"), (1, "alias"), (1, "row")])
            o = dict(k=k, ref=s.draw(3) > 0, fresh=s.draw(2))
            if k == "insert":
                o["g"] = gen_rows(s, names, types, pools)
            elif k == "upsert":
                o["keys"] = s.weighted([(6, 1), (4, 2), (1, 3), (1, 0), (1, -1), (1, 9)])
                o["g"] = gen_rows(s, names, types, pools, max(1, min(o["keys"], len(names))))
            elif k == "update":
                o["where"] = None if s.draw(2) else (s.draw(len(COND)), s.zint(-11, 11))
                o["by"] = None if s.draw(3) else s.choice(["k", "kd"])
                o["sets"] = []
                for _ in range(s.int(1, 3)):
                    c = s.choice(names + ["n1", "n2"])
                    if c in [x[0] for x in o["sets"]]:
                        continue
                    o["sets"].append((c, s.choice(["const", "const", "vec", "col", "expr", "agg", "badtype", "badlen", "full"]), s.seed()))
            ops.append(o)
        return dict(types=types, names=names, cols=cols, ops=ops, asan=s.draw(4) == 0)

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel", cores=1)
        m = M(c["names"], c["types"], c["cols"])
        d.set("t", m.val())
        snaps, lab, log = [], [], []
        d.evaln("(set u 0)")
        for o in c["ops"]:
            k = o["k"]
            src = []
            before = m.copy()
            if k == "alias":
                nm = "u%d" % len(snaps)
                d.evaln("(set %s t)" % nm)
                snaps.append((nm, m.copy()))
                log.append("(set %s t)" % nm)
                continue
            if k == "row":
                if m.rows():
                    g = d.eval("(at t 0)")
                    log.append("(at t 0)")
                    if not (isinstance(g, Pair) and same(g.k, syms(m.n)) and all(same(x, atom(t, cc[0])) for x, t, cc in zip(g.v.a if isinstance(g.v, Lst) else [Atom(g.v.t, e) for e in ref.elems(g.v)], m.t, m.c))):
                        raise Fail("%s gave %r on %r" % (" ".join(log), g, m.val()))
                continue
            T = "'t" if o["ref"] else "t"
            ok = True
            new = m.copy()
            if k in ("insert", "upsert"):
                v, ok = rows_val(o["g"], m.n[:len(c["names"])], m.t)
                if ok is None:
                    continue
                if len(m.n) > len(c["names"]) and o["g"]["bad"] == "extra":
                    continue
                if any(not (a == b or o["g"]["order"].count(i) == 0) for i, (a, b) in enumerate(zip(m.t, c["types"]))):
                    continue           # an update has changed the type of a column it would fill
                d.set("x", v)
                recs = full(o["g"], m.n, m.t)
                if k == "insert":
                    e = "(insert %s x)" % T
                    for r in recs:
                        new.append(r)
                else:
                    e = "(upsert %s %d x)" % (T, o["keys"])
                    width = len(recs[0])
                    if o["keys"] < 1 or o["keys"] > width:
                        ok = False
                    elif any(m.t[j] == F64 and any(x == 0 and str(x) == "-0.0" for x in m.c[j] + [r[j] for r in recs]) for j in range(o["keys"])):
                        continue
                    elif any(m.t[j] == LIST for j in range(o["keys"])):
                        continue       # keys that are lists are left open
                    elif ok:
                        # a record given by name updates the missing columns with nulls
                        new.upsert(o["keys"], recs)
            else:
                r = self.update(o, m, new, d)
                if r is None:
                    continue
                e, ok = r
                e = e.replace("from: t", "from: " + T)
            log.append(e if k == "update" else "%s with x = %r" % (e, v))
            g = d.eval(e)
            lab.append(k + ("" if ok else "-refused"))
            what = "%s starting from %r: " % ("; ".join(log[-6:]), before.val())
            if not ok:
                if not isinstance(g, Err):
                    raise Fail(what + "gave %r, it has to be refused" % g)
                new = before
            elif isinstance(g, Err):
                raise Fail(what + "gave %r" % g)
            elif o["ref"]:
                if not same(g, sym("t")):
                    raise Fail(what + "gave %r" % g)
            elif not same(g, new.val()):
                raise Fail(what + "gave %r, expected %r" % (g, new.val()))
            if o["ref"]:
                m = new
            t = d.eval("t")
            if not same(t, m.val()):
                raise Fail(what + "t is now %r, expected %r" % (t, m.val()))
            if k != "update":
                x = d.eval("x")
                if not same(x, v):
                    raise Fail(what + "the inserted value became %r" % x)
        for nm, sm in snaps:
            u = d.eval(nm)
            if not same(u, sm.val()):
                raise Fail("%s starting from %r: %s, bound to the table earlier, is now %r, expected %r"
                           % ("; ".join(log), M(c["names"], c["types"], c["cols"]).val(), nm, u, sm.val()))
        return lab

    def update(self, o, m, new, d):
        w = m.c[m.n.index("w")]
        if m.t[m.n.index("w")] != I64:
            return None
        rows = list(range(m.rows()))
        if o["where"]:
            rows = [i for i in rows if cond(o["where"][0], o["where"][1], w[i])]
        parts, ok = [], True
        groups = None
        if o["by"]:
            if m.t[0] not in KT:
                return None
            groups = {}
            for i in rows:
                groups.setdefault(kz(m.t[0], m.c[0][i]), []).append(i)
            if not rows:
                return None
        if o["where"] and not rows:
            pass
        sets = []
        for j, (c, kind, seed) in enumerate(o["sets"]):
            r = Source(random.Random(seed))
            ct = m.t[m.n.index(c)] if c in m.n else None
            t = ct if ct is not None else r.choice(CT[:-1])
            nr = len(rows)
            if t == C8 and kind in ("vec", "full", "col") and (ct is None or o["by"]) and (o["where"] or o["by"]):
                return None        # a string: a new column takes it as one value per row
            if kind in ("const",):
                x = val(r, t)
                if t == LIST and not (isinstance(x, Atom) and (o["where"] or o["by"])):
                    return None
                d.set("c%d" % j, atom(t, x))
                e, l = "c%d" % j, [x] * nr
            elif kind == "vec":
                if o["by"]:
                    return None
                l = [val(r, t) for _ in range(nr)]
                if nr == 0 and (t == LIST or o["where"] is None):
                    return None
                d.set("c%d" % j, col(t, l))
                e = "c%d" % j
            elif kind == "full":
                if o["by"] or not o["where"] or t in (LIST, C8):
                    return None
                f = [val(r, t) for _ in range(m.rows())]
                d.set("c%d" % j, col(t, f))
                e, l = "c%d" % j, f[:nr]
            elif kind == "col":
                cs = [i for i in range(len(m.n)) if m.t[i] == t]
                if not cs or t == LIST and not nr:
                    return None
                i = r.choice(cs)
                e, l = m.n[i], [m.c[i][q] for q in rows]
            elif kind == "expr":
                cs = [i for i in range(len(m.n)) if m.t[i] == I64]
                if not cs or ct not in (I64, None):
                    return None
                t = I64
                i = r.choice(cs)
                k = r.int(1, 9)
                e, l = "(+ %s %d)" % (m.n[i], k), [x if x == NULLV[I64] else x + k for x in (m.c[i][q] for q in rows)]
            elif kind == "agg":
                fn = r.choice(["sum", "max", "min", "first", "last"])
                cs = [i for i in range(len(m.n)) if m.t[i] == t and (fn in ("first", "last") or t in SUMT)]
                if not cs or not rows or t == LIST:
                    return None
                i = r.choice(cs)
                e = "(%s %s)" % (fn, m.n[i])
                l = [None] * nr
                gs = list(groups.values()) if groups is not None else [rows]
                pos = {q: p for p, q in enumerate(rows)}
                for ix in gs:
                    try:
                        at, x, tol = agg(fn, col(t, [m.c[i][q] for q in ix]))
                    except Open:
                        return None
                    if at != t or (t == F64 and fn == "sum"):
                        return None
                    for q in ix:
                        l[pos[q]] = x
            elif kind == "badtype":
                if ct is None or ct == LIST or not (o["where"] or o["by"]):
                    return None
                bt = r.choice([x for x in (SYM, DATE, B8, GUID, TS) if x != ct])
                x = val(r, bt)
                d.set("c%d" % j, atom(bt, x))
                e, l = "c%d" % j, None
                ok = False
            elif kind == "badlen":
                if o["by"]:
                    return None
                n = r.int(1, 9)
                if n == nr or n == m.rows() or t == C8 or t == LIST:
                    return None
                d.set("c%d" % j, col(t, [val(r, t) for _ in range(n)]))
                e, l = "c%d" % j, None
                ok = False
            parts.append("%s: %s" % (c, e))
            sets.append((c, t, l))
        if not sets:
            return None
        tail = ["from: t"]
        if o["where"]:
            tail.append("where: " + COND[o["where"][0]] % o["where"][1])
        if o["by"]:
            tail.append("by: " + {"k": "k", "kd": "{a: k}"}[o["by"]])
        e = "(update {%s})" % " ".join(parts + tail)
        if ok:
            for c, t, l in sets:
                if c not in new.n:
                    new.n.append(c)
                    new.t.append(t)
                    new.c.append([zero(t)] * m.rows())
                i = new.n.index(c)
                if not o["where"] and not o["by"]:
                    new.t[i] = t
                for q, x in zip(rows, l):
                    new.c[i][q] = x
        return e, ok

    def nontrivial(self, c, labels):
        return len([l for l in labels if not l.endswith("refused")]) >= 2

    def describe(self, c):
        return "types %s, %d rows, ops %s" % ([NAME[t] for t in c["types"]], len(c["cols"][0]),
                                              [(o["k"], o.get("keys"), o.get("g", {}).get("shape"), o.get("sets"), o.get("where"), o.get("by")) for o in c["ops"]])


class Big(Prop):
    """the same operations with thousands of rows, on several cores"""
    name = "big"
    quick, thorough = 120, 1500

    def gen(self, s):
        n = s.choice([3, 5000, 40001, 65537])
        kt = s.choice([I64, SYM, I32, DATE, TS])
        vt = s.choice([I64, F64, SYM, I32, DATE, TS, U8, I16])
        mk = lambda n: [Vec(SYM, [b"s%d" % i for i in x.a.tolist()]) if kt == SYM else Vec(kt, x.a.astype(DT[kt])) for x in
                        [Vec(I64, np.random.default_rng(s.seed()).integers(0, s.choice([3, 300, 100000]), n))]][0]
        ms = []
        for _ in range(s.int(1, 3)):
            k = s.choice(["insert", "upsert", "upsert", "where", "by"])
            q = s.choice([1, 2, 700, 30000])
            ms.append((k, mk(q), big_array(s, vt, n=q, mag=1000), s.zint(-11, 11)))
        return dict(kt=kt, vt=vt, k=mk(n), v=big_array(s, vt, n=n, mag=1000), w=np.random.default_rng(s.seed()).integers(-10, 11, n).tolist(),
                    ms=ms, cores=s.choice([1, 2, 4, 8]), ref=s.draw(2))

    def run(self, c, env):
        d = env.driver("rel", cores=c["cores"])
        m = M(["k", "v", "w"], [c["kt"], c["vt"], I64], [ref.elems(c["k"]), ref.elems(c["v"]), c["w"]])
        d.set("t", m.val())
        for k, kc, vc, x in c["ms"]:
            kl, vl = ref.elems(kc), ref.elems(vc)
            if k in ("insert", "upsert"):
                d.set("x", Lst([kc, vc]))
                recs = [list(r) for r in zip(kl, vl)]
                e = "(insert 't x)" if k == "insert" else "(upsert 't 1 x)"
                if k == "insert":
                    for r in recs:
                        m.append(r)
                else:
                    m.upsert(1, recs)
            elif k == "where":
                e = "(update {v: x from: 't where: (> w %d)})" % x
                d.set("x", atom(c["vt"], vl[0]))
                m.c[1] = [vl[0] if w > x else v for v, w in zip(m.c[1], m.c[2])]
            else:
                e = "(update {w: (max w) from: 't by: k})"
                g = {}
                for i, q in enumerate(m.c[0]):
                    g[q] = max(g.get(q, NULLV[I64]), m.c[2][i])
                m.c[2] = [g[q] for q in m.c[0]]
            g = d.eval(e)
            if not same(g, sym("t")):
                raise Fail("%s gave %r" % (e, g))
            t = d.eval("t")
            if not same(t, m.val()):
                w = m.val()
                i = [j for j in range(3) if not same(t.v.a[j], w.v.a[j])]
                raise Fail("after %s (%d rows of %s, %d cores) columns %r are wrong: %r, expected %r"
                           % (e, len(kl), NAME[c["kt"]], c["cores"], [m.n[j] for j in i], t.v.a[i[0]], w.v.a[i[0]]))
        return [k for k, *_ in c["ms"]]

    def nontrivial(self, c, labels):
        return len(c["k"]) > 3

    def describe(self, c):
        return "n=%d %s %s cores=%d %s" % (len(c["k"]), NAME[c["kt"]], NAME[c["vt"]], c["cores"], [(k, len(q)) for k, q, _, _ in c["ms"]])


class Alter(Prop):
    """alter and modify on nested values against a model; the alias and the value passed stay as they were"""
    name = "alter"
    quick, thorough = 4000, 40000

    def gen(self, s):
        def build(depth):
            k = s.draw(6)
            if depth == 0 or k < 2:
                t = s.choice([I64, F64, SYM, I32, DATE])
                return Vec(t, items(s, t, s.int(0, 4), True, 50))
            if k < 4:
                return Lst([build(depth - 1) if s.draw(3) else i64(s.zint(-9, 9)) for _ in range(s.int(1, 3))])
            ks = [b"a", b"b", b"c"][:s.int(1, 3)]
            return dct(Vec(SYM, ks), Lst([build(depth - 1) if s.draw(2) else i64(s.zint(-9, 9)) for _ in ks]))
        v = build(3)
        ops = []
        for _ in range(s.int(1, 4)):
            ops.append((s.choice(["set", "concat", "remove", "+", "lam"]), [s.draw(5) for _ in range(s.int(0, 3))], s.zint(-9, 9), s.draw(3), s.draw(8) == 7))
        return dict(v=v, ops=ops, asan=s.draw(4) == 0)

    def path(self, v, picks, bad):
        """indices leading into v"""
        out, cur = [], v
        for p in picks:
            if isinstance(cur, Pair):
                ks = cur.k.a
                i = p % len(ks)
                out.append(Atom(SYM, ks[i]))
                cur = cur.v.a[i]
            elif isinstance(cur, Lst) and len(cur):
                i = p % len(cur)
                out.append(i64(i))
                cur = cur.a[i]
            elif isinstance(cur, Vec) and len(cur):
                i = p % len(cur)
                out.append(i64(i))
                e = ref.elems(cur)[i]
                cur = Atom(cur.t, e)
                break
            else:
                break
        return out, cur

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel", cores=1)
        d.set("z", c["v"])
        d.evaln("(set u z)")
        cur, lab = c["v"], []
        for fn, picks, x, how, wild in c["ops"]:
            path, el = self.path(cur, picks, False)
            tgt = el
            par = None
            want = None
            if fn == "set":
                if not path:
                    continue
                xv = Atom(el.t, self.like(el.t, x)) if isinstance(el, Atom) else i64(x)
                want = self.put(cur, path, xv)
            elif fn == "concat":
                if isinstance(el, Vec):
                    xv = Atom(el.t, self.like(el.t, x))
                    want = self.put(cur, path, vec_of(el.t, ref.elems(el) + [xv.v])) if path else vec_of(el.t, ref.elems(el) + [xv.v])
                elif isinstance(el, Lst):
                    xv = i64(x)
                    nv = Lst(el.a + [xv])
                    want = self.put(cur, path, nv) if path else nv
                else:
                    continue
            elif fn == "remove":
                if isinstance(el, (Vec, Lst)) and len(el):
                    i = x % len(el)
                    xv = i64(i)
                    l = ref.elems(el) if isinstance(el, Vec) else list(el.a)
                    l = l[:i] + l[i + 1:]
                    nv = vec_of(el.t, l) if isinstance(el, Vec) else Lst(l)
                    want = self.put(cur, path, nv) if path else nv
                else:
                    continue
            else:
                if not (isinstance(el, (Atom, Vec)) and el.t == I64):
                    continue
                xv = i64(x)
                f = lambda e: e if e == NULLV[I64] else e + x
                nv = i64(f(el.v)) if isinstance(el, Atom) else vec_of(I64, [f(e) for e in el.a.tolist()])
                want = self.put(cur, path, nv) if path else nv
            d.set("x", xv)
            F = {"lam": "(fn [p q] (+ p q))"}.get(fn, fn)
            ref_ = how > 0
            Z = "'z" if ref_ else "z"
            if len(path) <= 1 and how == 1:
                if path:
                    d.set("i", path[0])
                e = "(alter %s %s %sx)" % (Z, F, "i " if path else "")
            else:
                if not path:
                    continue
                d.set("i", Lst(path) if len({p.t for p in path}) > 1 or x % 2 else vec_of(path[0].t, [p.v for p in path]))
                e = "(modify %s %s i x)" % (Z, F)
            what = "%s with i=%r x=%r z=%r: " % (e, path, xv, cur)
            g = d.eval(e)
            if want is None:
                continue
            if isinstance(g, Err):
                raise Fail(what + "gave %r, expected %r" % (g, want))
            if ref_:
                if not same(g, sym("z")):
                    raise Fail(what + "gave %r" % g)
                cur = want
            elif not self.eq(g, want):
                raise Fail(what + "gave %r, expected %r" % (g, want))
            z = d.eval("z")
            if not self.eq(z, cur):
                raise Fail(what + "z is now %r, expected %r" % (z, cur))
            cur = z
            lab.append(fn + ("/deep" if len(path) > 1 else ""))
        u = d.eval("u")
        if not same(u, c["v"]):
            raise Fail("%r: the alias became %r, it was %r" % (c["ops"], u, c["v"]))
        return lab

    def eq(self, a, b):
        """equal up to lists whose elements all have one type being shown as vectors"""
        if isinstance(b, Lst) and isinstance(a, Vec):
            return all(isinstance(x, Atom) and x.t == a.t for x in b.a) and same(a, vec_of(a.t, [x.v for x in b.a]))
        if isinstance(a, Lst) and isinstance(b, Vec):
            return self.eq(b, a)
        if isinstance(a, Lst) and isinstance(b, Lst):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a.a, b.a))
        if isinstance(a, Pair) and isinstance(b, Pair):
            return a.t == b.t and same(a.k, b.k) and self.eq(a.v, b.v)
        return same(a, b)

    def like(self, t, x):
        return {I64: x, F64: x / 2, SYM: WORDS[x % len(WORDS)], I32: x, DATE: x}[t]

    def put(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if isinstance(v, Pair):
            i = list(v.k.a).index(p.v)
            l = list(v.v.a)
            l[i] = self.put(l[i], path[1:], x)
            return dct(v.k, Lst(l))
        if isinstance(v, Lst):
            l = list(v.a)
            l[p.v] = self.put(l[p.v], path[1:], x)
            return Lst(l)
        l = ref.elems(v)
        l[p.v] = x.v
        return vec_of(v.t, l)

    def nontrivial(self, c, labels):
        return len(labels) > 0

    def describe(self, c):
        return "%r %r" % (c["v"], c["ops"])


class SetCol(Prop):
    """alter sets columns of a table and items of a dictionary by name: new ones are added, all that shares names or columns stays"""
    name = "setcol"
    quick, thorough = 2500, 25000

    def gen(self, s):
        n = s.int(1, 4)
        def vec(k):
            t = s.choice([I64, F64, SYM, I32, DATE, B8, I16, TS])
            return vec_of(t, items(s, t, k, True, 50))
        cols = [vec(n) for _ in range(s.int(1, 3))]
        ops = []
        for _ in range(s.int(1, 4)):
            many = s.draw(3) == 2
            names = [s.choice("abcdef").encode() for _ in range(s.int(1, 3) if many else 1)]
            vals = []
            for _ in names:
                k = s.draw(6)
                vals.append(vec(n) if k < 3 else vec(n + s.int(1, 2)) if k == 3 else Atom(I64, s.zint(-9, 9)))
            ops.append((many, names, vals, s.draw(3)))
        return dict(n=n, cols=cols, ops=ops, dict=s.draw(3) == 2, asan=s.draw(4) == 0)

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel", cores=1)
        nm = [b"a", b"b", b"c"][:len(c["cols"])]
        d.set("nm", Vec(SYM, nm))
        for i, v in enumerate(c["cols"]):
            d.set("p%d" % i, v)
        d.set("q", Vec(I64, [1]))
        d.evaln("(set l (list %s))" % " ".join("p%d" % i for i in range(len(nm))))
        d.evaln("(set z (%s nm l))" % ("dict" if c["dict"] else "table"))
        d.evaln("(set u z)")
        u = d.eval("u")
        cur = list(zip(nm, c["cols"]))
        lab = []
        for many, names, vals, how in c["ops"]:
            d.set("i", Vec(SYM, names) if many else Atom(SYM, names[0]))
            for j, v in enumerate(vals):
                d.set("v%d" % j, v)
            d.evaln("(set x %s)" % ("(list %s)" % " ".join("v%d" % j for j in range(len(vals))) if many else "v0"))
            # several keys of a dictionary must be there
            want, bad = list(cur), c["dict"] and many and not set(names) <= {k for k, _ in cur}
            for k, v in zip(names, vals):
                if not c["dict"]:
                    if isinstance(v, Atom):
                        v = Vec(v.t, [v.v] * c["n"])
                    elif len(v) != c["n"]:
                        bad = True
                at = [j for j, (y, _) in enumerate(want) if y == k]
                if at:
                    want[at[0]] = (k, v)
                else:
                    want.append((k, v))
            e = "(alter %s set i x)" % ("z" if how == 2 else "'z")
            what = "%s with i=%r x=%r over %r" % (e, names, vals, cur)
            g = d.eval(e)
            z = d.eval("z")
            if bad:
                if not isinstance(g, Err):
                    raise Fail("%s gives %r" % (what, g))
                want = cur
            elif isinstance(g, Err):
                raise Fail("%s gives %r" % (what, g))
            elif how == 2:
                self.eq(what, g, want)
                want = cur
            self.eq(what + ": then z", z, want)
            cur = want
            lab.append("refused" if bad else "new" if len(want) > len(nm) else "old")
        for e, v in [("nm", Vec(SYM, nm)), ("u", u)] + [("p%d" % i, v) for i, v in enumerate(c["cols"])] + [("v%d" % j, v) for j, v in enumerate(c["ops"][-1][2])]:
            if not same(d.eval(e), v):
                raise Fail("after %r over %r, %s is %r and was %r" % (c["ops"], nm, e, d.eval(e), v))
        return lab

    def eq(self, what, g, want):
        ok = isinstance(g, Pair) and list(g.k.a) == [k for k, _ in want]
        if ok:
            v, w = g.v, [b for _, b in want]
            if isinstance(v, Vec):
                ok = all(isinstance(b, Atom) and b.t == v.t for b in w) and same(v, vec_of(v.t, [b.v for b in w]))
            else:
                ok = len(v.a) == len(w) and all(same(a, b) for a, b in zip(v.a, w))
        if not ok:
            raise Fail("%s gives %r, expected %r" % (what, g, want))

    def nontrivial(self, c, labels):
        return len(labels) > 0

    def describe(self, c):
        return "%r %r %r" % (c["dict"], c["cols"], c["ops"])


if __name__ == "__main__":
    sys.exit(run_check("C15", [Hist(), Big(), Alter(), SetCol()],
                       rule="a history in which at least two operations change a table, a change of a large table, or at least one alter/modify",
                       assumptions=["upsert keys that are lists or negative float zeros are left open",
                                    "a list whose elements all have one type may be kept as a vector"]))
