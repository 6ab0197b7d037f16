import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref, anyval
from gen import *
import numpy as np

KT = [I64, SYM, I32, DATE, GUID, U8, B8, C8, I16, F64, TIME, TS]
VT = [I64, F64, I32, I16, U8, DATE, TIME, TS, SYM, GUID, B8, C8]
BIGS = [5000, 20000, 40001, 65537]


def fz(t, x):
    if t == F64:
        return "nan" if x != x else x + 0.0
    return x


def keyval(v):
    if isinstance(v, Lst):
        return [repr(x) for x in v.a]
    return [fz(v.t, x) for x in ref.elems(v)]


def sub(v, ix, miss=None):
    """rows ix of v; None stands for a missing row, taken from the same position of `miss` if given"""
    if isinstance(v, Lst):
        return Lst([v.a[i] if i is not None else (miss.a[r] if miss is not None else Null()) for r, i in enumerate(ix)])
    l = ref.elems(v)
    m = ref.elems(miss) if miss is not None else None
    nl = nullof(v.t) if hasnull(v.t) else 0
    out = [l[i] if i is not None else (m[r] if m is not None else nl) for r, i in enumerate(ix)]
    return vec_of(v.t, out)


def keypair(s, t, nl, nr):
    """key columns of the left and the right table with common values"""
    if nl > 100 or nr > 100:
        r = np.random.default_rng(s.seed())
        card = s.choice([1, 2, 17, 300, 5000, 60000])
        sp, off = s.choice([1, 1, 7, 10**6 + 3]), s.choice([0, -3, 10**9])
        out = []
        for n, sh in ((nl, 0), (nr, s.choice([0, card // 2, 1]))):
            ix = r.integers(0, card, n) + sh
            if t == SYM:
                out.append(Vec(SYM, [b"s%d" % i for i in ix.tolist()]))
            elif t == GUID:
                out.append(Vec(GUID, [(i * 40503 + 1).to_bytes(16, "little") for i in ix.tolist()]))
            elif t == C8:
                out.append(Vec(C8, (33 + ix % 90).astype("u1").tobytes()))
            elif t == B8:
                out.append(Vec(B8, ix % 2))
            elif t == F64:
                out.append(Vec(F64, np.where(ix % 50 == 7, np.nan, ix / 4.0 - off)))
            else:
                lo, hi = RANGE[t]
                a = (ix.astype("i8") * sp + off) % (hi - 1)
                if t in NULLV:
                    a = np.where(ix % 50 == 7, NULLV[t], a)
                out.append(Vec(t, a.astype(DT[t])))
        return out
    pool = [scalar(s, t, mag=s.choice([3, 50, None])) for _ in range(s.int(1, 6))]
    return [vec_of(t, [s.choice(pool) for _ in range(n)]) for n in (nl, nr)]


def column(s, t, n):
    if n > 100:
        return big_array(s, t, n=n)
    if t == "list":
        return anyval.value_list(s, n, 1)
    return vec_of(t, items(s, t, n))


def gen_tables(s, nl, nr, kts, big):
    c = dict(nl=nl, nr=nr)
    ks = [keypair(s, t, nl, nr) for t in kts]
    kn = ["k%d" % i for i in range(len(kts))]
    L = [(a, k[0]) for a, k in zip(kn, ks)]
    R = [(a, k[1]) for a, k in zip(kn, ks)]
    vt = VT if big else VT + ["list"]
    for a in ["u", "v"][:s.int(0, 2)]:
        L.append((a, column(s, s.choice(vt), nl)))
    for a in ["x", "y"][:s.int(0 if len(L) > len(kts) else 1, 2)]:
        R.append((a, column(s, s.choice(vt), nr)))
    if s.draw(3) == 0:
        t = s.choice(vt)
        L.append(("m", column(s, t, nl)))
        R.append(("m", column(s, t, nr)))
    # any order of the columns
    shuf = lambda l: [l.pop(s.draw(len(l))) for _ in range(len(l))]
    c["L"], c["R"] = (shuf(L), shuf(R)) if s.draw(2) else (L, R)
    c["on"] = shuf(list(kn)) if s.draw(2) else kn
    return c


def enums(s, c):
    """some symbol key columns are enumerated (each side over a domain of its own)"""
    e = []
    for side in "LR":
        for a, v in c[side]:
            if a.startswith("k") and isinstance(v, Vec) and v.t == SYM and s.draw(2):
                e.append((side, a))
    return e


def settab(d, name, cols, en, side):
    """binds the table; columns listed in en are enumerated over a domain holding all their values"""
    d.set(name, tbl([a for a, _ in cols], [v for _, v in cols]))
    for sd, a in en:
        if sd == side:
            dom = "dm%s%s" % (side, a)
            v = dict(cols)[a]
            vals = sorted({x for x in v.a if x is not None}) or [b"q"]
            d.set(dom, syms(vals[::-1] if side == "L" else vals))
            d.set("tk", v)
            d.eval("(set %s (table (key %s) (map (fn [n] (if (== n '%s) (enum '%s tk) (at %s n))) (key %s))))" % (name, name, a, dom, name, name))


def flat(v):
    """enumerated columns by their values"""
    return v


def result(d, src, fail):
    g = d.eval("(set jr %s)" % src, timeout=60)
    if isinstance(g, Err):
        fail("gave %r" % g)
    g = d.eval("(table (key jr) (map (fn [n] (do (let cc (at jr n)) (if (== (type cc) 'ENUM) (value cc) cc))) (key jr)))", timeout=60)
    if not (isinstance(g, Pair) and g.t == TABLE and isinstance(g.k, Vec) and isinstance(g.v, Lst)):
        fail("gave %r" % g)
    return [x.decode() for x in g.k.a], g.v.a


def check_tables(d, c, before, fail):
    if not (same(d.eval("lt"), before[0]) and same(d.eval("rt"), before[1])):
        fail("a table itself changed")


def cut(v):
    return repr(v) if len(getattr(v, "a", [])) < 60 else repr(v)[:400]


class Equi(Prop):
    """left-join and inner-join of small tables"""
    name = "equi"
    quick, thorough = 9000, 150000

    def gen(self, s):
        kts = [s.choice(KT) for _ in range(s.choice([1, 1, 2, 3]))]
        c = gen_tables(s, s.size(9), s.size(9), kts, False)
        c["en"] = enums(s, c)
        c["asan"] = s.draw(5) == 0
        return c

    def run(self, c, env, cores=1):
        d = env.driver("asan" if c.get("asan") else "rel", cores=cores)
        settab(d, "lt", c["L"], c["en"], "L")
        settab(d, "rt", c["R"], c["en"], "R")
        before = d.eval("lt"), d.eval("rt")
        L, R = dict(c["L"]), dict(c["R"])
        lk = list(zip(*[keyval(L[a]) for a in c["on"]]))
        rk = list(zip(*[keyval(R[a]) for a in c["on"]]))
        first = {}
        for i, k in enumerate(rk):
            first.setdefault(k, i)
        at = [first.get(k) for k in lk]
        names = [a for a, _ in c["L"]] + [a for a, _ in c["R"] if a not in L]
        names = c["on"] + [a for a in names if a not in c["on"]]
        hit = sum(x is not None for x in at)
        for verb in ("left-join", "inner-join"):
            src = "(%s [%s] lt rt)" % (verb, " ".join(c["on"]))

            def fail(msg):
                raise Fail("%s with lt %s, rt %s%s: %s" % (src, [(a, cut(v)) for a, v in c["L"]], [(a, cut(v)) for a, v in c["R"]],
                                                          " enumerated %r" % c["en"] if c["en"] else "", msg))
            gn, gc = result(d, src, fail)
            if gn[:len(c["on"])] != c["on"] or sorted(gn) != sorted(names):   # the order of the others is left open
                fail("columns %r, expected %r" % (gn, names))
            for a, x in zip(gn, gc):
                if verb == "left-join":
                    ix = list(range(c["nl"]))
                    if a in c["on"] or a not in R:
                        want = L[a]
                    else:
                        want = sub(R[a], at, L.get(a))
                else:
                    ix = [i for i, j in enumerate(at) if j is not None]
                    want = sub(R[a], [at[i] for i in ix]) if a in R and a not in c["on"] else sub(L[a], ix)
                ok = same(x, want)
                if not ok and a in c["on"] and isinstance(x, Vec) and isinstance(want, Vec):
                    ok = x.t == want.t and keyval(x) == keyval(want)
                if not ok and not getattr(want, "a", [1]) and not getattr(x, "a", [1]):
                    ok = True if isinstance(want, Lst) else False
                if not ok:
                    fail("column %s is %s, expected %s" % (a, cut(x), cut(want)))
        check_tables(d, c, before, lambda m: self.bad(c, m))
        return ["keys%d" % len(c["on"]), "hit" if hit else "nohit", "miss" if hit < c["nl"] else "nomiss",
                "dup" if len(first) < len(rk) else "nodup"] + (["enum"] if c["en"] else []) + ["kt:%s" % NAME[L[a].t] for a in c["on"]]

    def bad(self, c, m):
        raise Fail("joining lt %r and rt %r on %s: %s" % (c["L"], c["R"], c["on"], m))

    def nontrivial(self, c, l):
        return "hit" in l

    def describe(self, c):
        return "on %s%s, left %s, right %s" % (c["on"], " enumerated %r" % c["en"] if c["en"] else "", [(a, cut(v)[:120]) for a, v in c["L"]],
                                              [(a, cut(v)[:120]) for a, v in c["R"]])


class Big(Equi):
    """joins of tables large enough to be split over threads"""
    name = "big"
    quick, thorough = 150, 2500

    def gen(self, s):
        kts = [s.choice(KT) for _ in range(s.choice([1, 1, 2, 3]))]
        c = gen_tables(s, s.choice(BIGS + [7]), s.choice(BIGS + [7]), kts, True)
        c["en"] = enums(s, c)
        c["cores"] = s.choice([1, 2, 3, 4, 8])
        return c

    def run(self, c, env):
        return Equi.run(self, c, env, c["cores"]) + ["cores%d" % c["cores"]]


if __name__ == "__main__":
    sys.exit(run_check("C16", [Equi(), Big()],
                       rule="at least one left row has a match; distinct by tables and keys",
                       assumptions=["tables joined have at least one column that is not a key"]))
