import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref, anyval, calls
from gen import *
import numpy as np

VT = [I64, SYM, F64, C8, I32, I16, U8, B8, DATE, TIME, TS, GUID]
BIG = [255, 256, 505, 506, 507, 1017, 1018, 4095, 4096, 4097, 65536, 200000]
DOM = [b"d%d" % i for i in range(7)]


def stored(s, depth=2):
    """a value that can be stored under a path: vectors, symbols, lists, tables, enums"""
    k = s.draw(12)
    if k < 5:
        if s.draw(12) == 11:
            n = s.choice(BIG)
            t = s.choice(VT)
            if t == SYM:
                p = [anyval.one(s, SYM) for _ in range(5)]
                return vec_of(SYM, [p[i] for i in np.random.default_rng(s.seed()).integers(0, 5, n).tolist()])
            if t == GUID:
                p = [anyval.one(s, GUID) for _ in range(5)]
                return vec_of(GUID, [p[i] for i in np.random.default_rng(s.seed()).integers(0, 5, n).tolist()])
            return big_array(s, t, n)
        return anyval.vect(s)
    if k < 9:
        return anyval.value_list(s, s.choice(BIG[:8]), 0) if s.draw(25) == 24 else anyval.value_list(s, s.size(6), depth)
    if k == 9:
        return Enm(s.choice([b"dom1", b"dom2"]), vec_of(SYM, [s.choice(DOM) for _ in range(s.choice(BIG) if s.draw(6) == 5 else s.size(9))]))
    return anyval.table(s, 2)


def put(d, var, v):
    """binds a variable to a value"""
    if isinstance(v, Enm):
        d.set("tmpe", v.v)
        r = d.eval("(set %s (enum '%s tmpe))" % (var, v.k.decode()))
        if isinstance(r, Err):
            raise Fail("enum failed: %r" % r)
    else:
        d.set(var, v)


def doms(d):
    d.set("dom1", Vec(SYM, DOM))
    d.set("dom2", Vec(SYM, DOM[::-1]))


def plain(v):
    """what is loaded as a lazy list reads as a list"""
    if isinstance(v, Lst) and getattr(v, "t", LIST) != LIST:
        return Lst(v.a)
    return v


def load(d, path):
    r = d.eval('(get "%s")' % path)
    return r


def eqv(w, g):
    if isinstance(w, Enm):
        return isinstance(g, Enm) and same(Atom(SYM, w.k), g.k) if False else same(w.v, g.v) if isinstance(g, Enm) else False
    if isinstance(w, Lst):
        return isinstance(g, Lst) and len(w.a) == len(g.a) and all(same(x, y) for x, y in zip(w.a, g.a))
    return same(w, g)


def check_same(w, g, what, **info):
    if not eqv(w, g):
        raise Fail("%s: stored %r, got %r" % (what, w, g), **info)


class Round(Prop):
    """what is stored under a path is what is loaded from it, by this process and by another one"""
    name = "round"
    quick, thorough = 12000, 90000
    flavours = ("rel",)

    def gen(self, s):
        return dict(v=stored(s), w=stored(s) if s.draw(2) else None, sub=s.draw(4) == 3, deep=s.draw(4) == 3)

    def run(self, c, env):
        d, e = env.driver("rel"), env.driver("rel", cores=4)
        doms(d), doms(e)
        f = os.path.join(env.fresh_dir(), "x/y/val" if c["sub"] else "val")
        vals = [x for x in (c["w"], c["v"]) if x is not None]
        for v in vals:
            put(d, "valx", v)
            r = d.eval('(set "%s" valx)' % f)
            if isinstance(r, Err):
                raise Fail("set of %r raised %r" % (v, r))
        for who, dd in (("this process", d), ("another process", e)):
            check_same(v, load(dd, f), "loaded by " + who)
        if c["deep"]:
            # the loaded value can be stored again
            r = d.eval('(do (set "%s2" (get "%s")) null)' % (f, f))
            if isinstance(r, Err):
                raise Fail("set of the loaded value %r raised %r" % (v, r))
            check_same(v, load(e, f + "2"), "stored again after it was loaded")
            check_same(v, load(e, f), "loaded after it was stored elsewhere")
        return dict(kind=type(v).__name__, over=len(vals) > 1)

    def nontrivial(self, c, labels):
        return len(c["v"].a if isinstance(c["v"], (Vec, Lst)) else c["v"].v.a) > 0

    def describe(self, c):
        return "store %r%s" % (c["v"], " over %r" % c["w"] if c["w"] is not None else "")


# ---- expressions over a value which is either in memory or mapped from a file

UN = """type til reverse distinct group sum avg med dev min max round floor ceil first last count not iasc idesc rank asc desc neg where value ser
nil? unify raze diverse show""".split()
BIN = "== < > <= >= != + - * % / div like find concat remove filter take in within sect except union as bin xrank xbar at".split()
TPL = """(map (fn [x] (list x x)) V)|(map (fn [x] x) V)|(map count V)|(fold + V)|(fold (fn [x y] (concat x y)) V)|(scan + V)|(map (fn [x y] (list x y)) V V)|(map + V 1)|
(map-left (fn [x y] (list x y)) V 3)|(map-right (fn [x y] (list x y)) 3 V)|(map-left concat V 3)|(format "%" V)|(list V 1)|(enlist V)|(do (let q V) (alter 'q concat (first V)) q)|
(do (let q V) (alter 'q set 0 (last V)) (list q V))|(do (let q V) (alter 'q remove 0) (list q V))|(pmap (fn [x] (list x)) V)|(table [a b] (list (til (count V)) V))|
(select {from: (table [a b] (list (til (count V)) V)) where: (> a 1)})|(select {s: (sum a) f: (first a) from: (table [a b] (list (til (count V)) V)) by: b})|
(select {x: (first b) y: (last b) c: (count b) from: (table [a b] (list (% (til (count V)) 2) V)) by: a})|(select {b: b from: (table [a b] (list (% (til (count V)) 2) V)) by: a})|
(select {from: (table [a b] (list (til (count V)) V)) where: (== b (first V))})|(dict (til (count V)) V)|(at (dict (til (count V)) V) 1)|
(concat (table [a b] (list (til (count V)) V)) (table [a b] (list (til (count V)) V)))|(xasc (table [a b] (list (til (count V)) V)) 'b)|(xdesc (table [a b] (list (til (count V)) V)) 'a)|
(at (table [a b] (list (til (count V)) V)) 1)|(take (table [a b] (list (til (count V)) V)) 2)|(update {b: (reverse b) from: (table [a b] (list (til (count V)) V))})|
(update {a: 5 from: (table [a b] (list (til (count V)) V)) where: (> a 0)})|(insert (table [a b] (list (til (count V)) V)) (list 9 (first V)))|(upsert (table [a b] (list (til (count V)) V)) 1 (list 0 (first V)))|
(if V 1 2)|(and V V)|(or V V)|(apply (fn [x] (count x)) V)|(let q V)|(take V [1 2])|(at V [0 -1 0 1])|(at V (reverse (til (count V))))|(in (first V) V)|(find V (last V))|(asc (reverse V))""".replace("\n", "").split("|")
ARGS = ["1", "0", "-1", "2", "[0 0 1]", "[1]", "1.5", "'a", "[a b]", "\"ab\"", "V", "V", "(first V)", "(last V)", "(reverse V)", "(take V 2)", "[true]", "(== V V)", "(> (til (count V)) 0)",
        "(list 1 'a)", "null", "'I64", "'F64", "'list", "0Nl", "[2 1]"]


LUN = "first last count distinct group value raze".split()
LBIN = ["(== V 1)", "(== V V)", "(!= V 'a)", "(< V 1.5)", "(> 2 V)", "(concat V 1)", "(concat V V)", "(concat 1 V)", "(concat (list 1) V)", "(take V 2)", "(take V -3)", "(take V 7)", "(at V 0)", "(at V -1)",
        "(at V [0 0 -1])", "(filter V (== (til (count V)) 0))", "(filter V (> (til (count V)) 0))", "(remove V 0)"]
LTPL = [e for e in TPL if not any(x in e for x in ("by: b", "(fold + V)", "(scan + V)", "(list V 1)", "(enlist V)", "apply", "(if V", "(and V", "(or V", "asc", "desc", "reverse V", "in (first", "(find ", "upsert", "insert", "(== b",
                                                     "fn [x y] (list x y)) V 3", "map concat", "(map-left", "(map-right"))]


def lexpr(s):
    k = s.draw(3)
    e = "(%s V)" % s.choice(LUN) if k == 0 else s.choice(LBIN) if k == 1 else s.choice(LTPL)
    return e


def expr(s, depth=1):
    k = s.draw(5)
    if k == 0:
        e = "(%s V)" % s.choice(UN)
    elif k < 3:
        a, b = "V", s.choice(ARGS)
        if s.draw(3) == 2:
            a, b = b, a
        o = s.choice(BIN)
        if o == "take":
            # never a count that is not small
            a, b = "V", s.choice(["1", "0", "-1", "2", "[2 1]", "[1 5]", "-9", "13"])
        e = "(%s %s %s)" % (o, a, b)
    else:
        e = s.choice(TPL)
    if depth and s.draw(3) == 2:
        o, i = e, expr(s, 0)
        if s.draw(2):
            o, i = i, o
        if "(til V" not in o:
            e = o.replace("V", i)
    return e


class Ops(Prop):
    """an expression gives the same over a loaded value as over the value itself, and leaves the file as it is"""
    name = "ops"
    quick, thorough = 12000, 90000
    flavours = ("rel",)

    def gen(self, s):
        k = s.draw(8)
        if k < 4:
            t = s.choice(VT)
            v = big_array(s, t, s.choice(BIG)) if t not in (SYM, GUID) and s.draw(10) == 9 else anyval.vect(s, t, s.int(1, 9))
        elif k < 6:
            v = Lst([anyval.value(s, 1) for _ in range(s.int(1, 5))]) if s.draw(3) else Lst([Atom(t, anyval.one(s, t)) for t in [s.choice([I64, F64, SYM])] for _ in range(s.int(1, 6))])
        else:
            v = Enm(s.choice([b"dom1", b"dom2"]), vec_of(SYM, [s.choice(DOM) for _ in range(s.int(1, 9))]))
        return dict(v=v, e=[lexpr(s) if isinstance(v, Lst) else expr(s) for _ in range(s.int(1, 4))])

    def run(self, c, env):
        d = env.driver("rel")
        doms(d)
        f = os.path.join(env.fresh_dir(), "val")
        v = c["v"]
        put(d, "orig", v)
        r = d.eval('(set "%s" orig)' % f)
        if isinstance(r, Err):
            raise Fail("set raised %r" % r)
        r = d.eval('(set maped (get "%s"))' % f)
        if isinstance(r, Err):
            raise Fail("get raised %r" % r)
        before = open(f, "rb").read()
        errs = n = 0
        for e in c["e"]:
            if isinstance(v, (Vec, Lst)) and len(v.a) > 1000 and ("(list" in e or "map" in e or "by:" in e or "upsert" in e):
                continue
            a = d.eval(e.replace("V", "orig"))
            b = d.eval(e.replace("V", "maped"))
            ea, eb = isinstance(a, Err), isinstance(b, Err)
            n += not ea
            if isinstance(v, Lst):
                # some verbs do not take a list which is still in its file
                if eb and b.name in ("type", "index"):
                    errs += 1
                    continue
                if "type" in e or "show" in e or "ser" in e or "nil?" in e:
                    continue
            if ea and eb and a.name == b.name:
                continue
            if ea != eb or not deq(a, b):
                raise Fail("%s gives %r over the value loaded, %r over the value itself" % (e, b, a))
        check_same(v, d.eval("maped"), "the loaded value after the expressions")
        if open(f, "rb").read() != before:
            raise Fail("the file has changed")
        return dict(kind=type(v).__name__, ok=n > 0)

    def nontrivial(self, c, labels):
        return labels["ok"]

    def describe(self, c):
        return "over %r: %s" % (c["v"], "; ".join(c["e"]))


def deq(a, b):
    """the same, where a list may be still in its file"""
    if isinstance(a, Lst) and isinstance(b, Lst):
        return len(a.a) == len(b.a) and all(deq(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Pair) and isinstance(b, Pair):
        return a.t == b.t and deq(a.k, b.k) and deq(a.v, b.v)
    if isinstance(a, Enm) and isinstance(b, Enm):
        return same(a.v, b.v)
    return same(a, b)


NV = NP = 3


class Store(Prop):
    """histories of storing, loading and changing values by two processes against a model"""
    name = "store"
    quick, thorough = 5000, 40000
    flavours = ("rel",)

    def gen(self, s):
        ops = []
        for _ in range(s.int(3, 22)):
            k, p, v, f = s.draw(12), s.draw(2), s.draw(NV), s.draw(NP)
            if k < 2:
                ops.append(("put", p, v, stored(s, 1)))
            elif k < 5:
                ops.append(("save", p, v, f))
            elif k < 8:
                ops.append(("load", p, v, f))
            elif k < 10:
                ops.append(("change", p, v, s.draw(4), s.draw(64)))
            elif k == 10:
                ops.append(("copy", p, v, s.draw(NV)))
            else:
                ops.append(("bad", p, s.draw(4), f) if s.draw(4) < 3 else ("restart", p))
        return dict(ops=ops)

    def run(self, c, env):
        ds = [env.driver("rel"), env.driver("rel", cores=4)]
        root = env.fresh_dir()
        path = lambda f: os.path.join(root, "p%d" % f)
        mem = [[None] * NV, [None] * NV]
        files = [None] * NP
        loads = changes = 0

        def init(p):
            doms(ds[p])
            ds[p].eval("(do " + " ".join("(set vst%d 0)" % i for i in range(NV)) + ")")
            mem[p] = [None] * NV

        def cmp(p, i, what):
            if mem[p][i] is not None:
                check_same(mem[p][i], ds[p].eval("vst%d" % i), what)

        for p in (0, 1):
            init(p)
        for n, o in enumerate(c["ops"]):
            k, p = o[0], o[1]
            d = ds[p]
            if k == "put":
                put(d, "vst%d" % o[2], o[3])
                mem[p][o[2]] = o[3]
            elif k == "copy":
                d.eval("(do (set vst%d vst%d) null)" % (o[3], o[2]))
                mem[p][o[3]] = mem[p][o[2]]
            elif k == "save":
                if mem[p][o[2]] is None:
                    continue
                r = d.eval('(set "%s" vst%d)' % (path(o[3]), o[2]))
                if isinstance(r, Err):
                    raise Fail("step %d: storing %r raised %r" % (n, mem[p][o[2]], r))
                files[o[3]] = mem[p][o[2]]
            elif k == "load":
                r = d.eval('(set vst%d (get "%s"))' % (o[2], path(o[3])))
                if files[o[3]] is None:
                    if not isinstance(r, Err):
                        raise Fail("step %d: loading of a file nobody has stored gives %r" % (n, r))
                    continue
                mem[p][o[2]] = files[o[3]]
                loads += 1
                cmp(p, o[2], "step %d: loaded" % n)
            elif k == "change":
                m = mem[p][o[2]]
                v = "vst%d" % o[2]
                if isinstance(m, Enm) or m is None or isinstance(m, Pair) or not len(m.a) or len(m.a) > 5000:
                    continue
                l = list(m.a) if not isinstance(m, Lst) else m.a
                mk = (lambda t, x: Lst(x)) if isinstance(m, Lst) else lambda t, x: Vec(t, x if t in (C8, SYM, GUID) else np.array(x, dtype=DT[t]))
                t = None if isinstance(m, Lst) else m.t
                i, j = o[4] % len(l), (o[4] * 7 + 1) % len(l)
                if o[3] == 0:
                    e = "(alter '%s set %d (at %s %d))" % (v, i, v, j)
                    l2 = list(l)
                    l2[i] = l[j]
                elif o[3] == 1 and not (t == C8 and bytes(m.a).endswith(b"\0")):
                    e, l2 = "(set %s (concat %s %s))" % (v, v, v), l + l
                elif o[3] == 2:
                    e, l2 = "(set %s (take %s %d))" % (v, v, i + 1), l[:i + 1]
                else:
                    if isinstance(m, Lst):
                        continue
                    e, l2 = "(set %s (reverse %s))" % (v, v), l[::-1]
                r = d.eval("(do %s null)" % e)
                if isinstance(r, Err):
                    raise Fail("step %d: %s over %r raised %r" % (n, e, m, r))
                mem[p][o[2]] = mk(t, l2)
                changes += 1
                cmp(p, o[2], "step %d: after %s" % (n, e))
            elif k == "bad":
                e = ["{a: 1}", "(list 1 (enum 'dom1 [d0]))", "(table [a] (list (list 1 (fn [x] x) (enum 'dom1 [d0]))))", "5"][o[2]]
                r = d.eval('(set "%s" %s)' % (path(o[3]), e))
                if not isinstance(r, Err):
                    # then this is what is there now
                    files[o[3]] = None
                    os.path.exists(path(o[3])) and os.unlink(path(o[3]))
            else:
                d.stop()
                d.start()
                init(p)
        for p in (0, 1):
            for i in range(NV):
                cmp(p, i, "variable %d of process %d at the end" % (i, p))
            for f in range(NP):
                if files[f] is not None:
                    check_same(files[f], load(ds[p], path(f)), "file %d read at the end by process %d" % (f, p))
        return dict(loads=min(loads, 3), changes=min(changes, 3))

    def nontrivial(self, c, labels):
        return labels["loads"] > 0

    def describe(self, c):
        return "; ".join("%s %s" % (o[0], " ".join(repr(x)[:60] for x in o[1:])) for o in c["ops"])


class Garbage(Prop):
    """a damaged or foreign file gives a value or an error"""
    name = "garbage"
    quick, thorough = 4000, 60000
    flavours = ("asan",)

    def gen(self, s):
        muts = []
        for _ in range(s.int(1, 5)):
            muts.append((s.draw(7), s.draw(1 << 20), s.choice([0, 1, 2, 3, 12, 20, 75, 98, 99, 126, 127, 128, 250, 253, 254, 255, s.draw(256)]), s.draw(4)))
        return dict(v=stored(s, 1), m=muts, second=s.draw(4) == 3, e=[expr(s, 0) for _ in range(s.int(0, 3))])

    def mutate(self, b, c):
        b = bytearray(b)
        for k, pos, val, w in c["m"]:
            n = len(b)
            if k == 0 and n:
                b[pos % n] = val
            elif k == 1 and n:
                b[pos % min(n, 24)] = val
            elif k == 2:
                del b[pos % (n + 1):]
            elif k == 3:
                b += bytes([val]) * (pos % 40)
            elif k == 4 and n > 4096 + 16:
                b[4096 + pos % 16] = val
            elif k == 5 and n:
                # lengths and offsets
                q = (pos % max(1, n // 8)) * 8
                x = [2**63 - 1, 2**62, -1, 1 << 33, 2**61 + 1, n, -2**63][pos % 7]
                b[q:q + 8] = x.to_bytes(8, "little", signed=True)
            elif k == 6 and w == 0:
                b = bytearray(val.to_bytes(1, "little") * (pos % 64))
        return bytes(b)

    def run(self, c, env):
        d = env.driver("asan")
        doms(d)
        f = os.path.join(env.fresh_dir(), "val")
        put(d, "valx", c["v"])
        r = d.eval('(set "%s" valx)' % f)
        if isinstance(r, Err):
            raise Fail("set raised %r" % r)
        g = f + "#" if c["second"] and os.path.exists(f + "#") else f
        b = open(g, "rb").read()
        m = self.mutate(b, c)
        with open(g, "wb") as h:
            h.write(m)
        r = d.eval('(set maped (get "%s"))' % f)
        if not isinstance(r, Err):
            for e in c["e"]:
                if "concat" not in e or len(m) < 3000:
                    d.eval(e.replace("V", "maped"))
            d.eval('(do (set "%s" maped) (get "%s"))' % (f + "2", f + "2"))
        d.eval("(set maped 0)")
        return dict(err=isinstance(r, Err), same=m == b)

    def nontrivial(self, c, labels):
        return not labels["same"]

    def describe(self, c):
        return "file of %r changed by %r" % (c["v"], c["m"])


class Kept(Prop):
    """loading and storing again and again keeps neither memory nor open files"""
    name = "kept"
    quick, thorough = 800, 5000
    flavours = ("rel",)

    def gen(self, s):
        return dict(v=stored(s, 1), bad=s.draw(4) == 3, muts=s.draw(1 << 16))

    def run(self, c, env):
        d = env.driver("rel")
        doms(d)
        f = os.path.join(env.fresh_dir(), "val")
        put(d, "valx", c["v"])
        r = d.eval('(set "%s" valx)' % f)
        if isinstance(r, Err):
            raise Fail("set raised %r" % r)
        if c["bad"]:
            b = bytearray(open(f, "rb").read())
            b = b[:c["muts"] % (len(b) + 1)] if c["muts"] % 2 else b[:1] + bytes([c["muts"] // 2 % 256]) + b[2:]
            with open(f, "wb") as h:
                h.write(b)
        src = '(do (set zz (get "%s")) (set "%s" zz) (set zz 0) (count (get "%s")))' % (f, f + "2", f)
        fds = lambda: len(os.listdir("/proc/%d/fd" % d.p.pid))
        maps = lambda: sum(1 for l in open("/proc/%d/maps" % d.p.pid) if root in l)
        root = os.path.dirname(f)
        x, a = d.live(src, 10), (fds(), maps())
        y, b = d.live(src, 40), (fds(), maps())
        if y > x:
            # once more, in case a pool or a symbol was made on the way
            z, w = d.live(src, 40), d.live(src, 40)
            if w > z > y:
                raise Fail("about %d more bytes are in use after each %s" % ((w - z) // 40, src))
        if b[0] > a[0] or b[1] > a[1]:
            raise Fail("open files and mappings grow from %r to %r" % (a, b))
        return dict(bad=c["bad"])

    def nontrivial(self, c, labels):
        return True

    def describe(self, c):
        return "%r%s" % (c["v"], " damaged" if c["bad"] else "")


if __name__ == "__main__":
    sys.exit(run_check("C18", [Round(), Ops(), Store(), Garbage(), Kept()], rule="a value that is not empty; an expression that gives a result and not an error", assumptions=[]))
