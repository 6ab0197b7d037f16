import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref
from gen import *

CMP = ["==", "!=", "<", "<=", ">", ">="]
PAIRS = [(a, b) for a in (I16, I32, I64, F64) for b in (I16, I32, I64, F64)] + \
        [(DATE, DATE), (TIME, TIME), (TS, TS), (DATE, TS), (TS, DATE), (GUID, GUID), (SYM, SYM), (I64, I64), (F64, F64)]
DAYNS = 86400 * 10**9


def key(t, v, other):
    """comparable form; null sorts before everything and equals itself"""
    if isnull(t, v):
        return (0, 0)
    if t == F64 or other == F64:
        return (1, float(v))
    if t == DATE and other == TS:
        return (1, int(v) * DAYNS)
    if t == GUID:
        return (1, bytes(v))
    if t == SYM:
        return (1, v)
    return (1, int(v))


def compare(op, p, q):
    return {"==": p == q, "!=": p != q, "<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[op]


class Comparisons(Prop):
    name = "comparisons"
    quick, thorough = 30000, 400000

    def gen(self, s):
        x, y = s.choice(PAIRS)
        op = s.choice(CMP if x != SYM else CMP[:2])
        sh = s.choice(["aa", "av", "va", "vv"])
        big = sh != "aa" and s.draw(25) == 24
        n = s.choice(gen.BIGN) if big else s.size(14)
        r = s.draw(3)
        mag = [3, 1000, None][r]
        if DATE in (x, y) and TS in (x, y):
            mag = None

        def mk(t, k):
            m = 100000 if t == DATE and x != y else mag
            if k == "a":
                return Atom(t, scalar(s, t, mag=m))
            if big:
                return big_array(s, t, n, mag=m)
            return vec_of(t, items(s, t, n, mag=m))
        a, b = mk(x, sh[0]), mk(y, sh[1])
        # pairs that agree or nearly agree
        if not big and s.draw(2):
            la, lb = ref.elems(a), ref.elems(b)
            for i in range(len(lb)):
                if s.draw(2) and la:
                    v = la[i % len(la)]
                    if x == y:
                        lb[i] = v
                    elif isnull(x, v):
                        lb[i] = nullof(y)
                    elif (x, y) == (DATE, TS):
                        lb[i] = v * DAYNS + s.choice([0, 1, -1])
                    elif (x, y) == (TS, DATE):
                        lb[i] = max(-106000, min(106000, v // DAYNS))
                    elif y == F64:
                        lb[i] = float(v) + s.choice([0, 0.5])
                    elif x == F64:
                        lb[i] = int(v) if abs(v) < 30000 else 7
                    elif RANGE[y][0] <= v <= RANGE[y][1]:
                        lb[i] = v
            b = Atom(y, lb[0]) if isinstance(b, Atom) else vec_of(y, lb)
        return dict(op=op, x=x, y=y, sh=sh, a=a, b=b, ha=s.draw(2), hb=s.draw(2),
                    cores=s.weighted([(3, 1), (1, 4)]) if big else 1, same=sh == "vv" and x == y and s.draw(15) == 14)

    def run(self, c, env):
        d = env.driver(cores=c["cores"])
        B = Binder(d)
        op, x, y, a, b = c["op"], c["x"], c["y"], c["a"], c["b"]
        if c["same"]:
            b = a
        na = B.var(a)
        nb = na if c["same"] else B.var(b)
        ea = (lit(a) if c["ha"] else None) or na
        eb = (lit(b) if c["hb"] else None) or nb
        g = d.eval("(%s %s %s)" % (op, ea, eb))
        A, C = ref.elems(a), ref.elems(b)
        if c["sh"] == "av":
            A = A * len(C)
        if c["sh"] == "va":
            C = C * len(A)
        want = [int(compare(op, key(x, p, y), key(y, q, x))) for p, q in zip(A, C)]
        if c["sh"] == "aa":
            if not isinstance(g, Atom) or g.t != B8 or g.v != want[0]:
                raise Fail("(%s %r %r) gave %r, expected %s" % (op, a, b, g, bool(want[0])))
        else:
            if not isinstance(g, Vec) or g.t != B8 or len(g) != len(want):
                raise Fail("(%s %r %r) gave %r, expected a boolean vector of length %d" % (op, a, b, g, len(want)))
            G = g.a.tolist()
            for i, (w, r) in enumerate(zip(want, G)):
                if w != r:
                    raise Fail("(%s ..) element %d: %s %s %s gave %r (%s, %s)" % (op, i, show(x, A[i]), op, show(y, C[i]), r, NAME[x], NAME[y]))
        for n, v in ((na, a), (nb, b)):
            if isinstance(v, Vec) and not same(d.eval(n), v):
                raise Fail("(%s %s %s) changed the value bound to %s" % (op, ea, eb, n))
        lab = [op, c["sh"], "%s,%s" % (NAME[x], NAME[y])]
        if len(set(want)) > 1:
            lab.append("both-outcomes")
        return lab

    def nontrivial(self, c, l):
        return c["sh"] == "aa" or "both-outcomes" in l

    def describe(self, c):
        return "%s %r %r put=%d%d cores=%d%s" % (c["op"], c["a"], c["b"], c["ha"], c["hb"], c["cores"], " same operand" if c["same"] else "")


class Strings(Prop):
    """character strings compare as whole values, bytewise"""
    name = "strings"
    quick, thorough = 3000, 30000

    def gen(self, s):
        op = s.choice(CMP)
        al = b"ab Z~"

        def st():
            return bytes(s.choice(al) for _ in range(s.size(10)))
        a = st()
        b = a + st() if s.draw(3) == 0 else a if s.draw(4) == 0 else st()
        if s.draw(2):
            a, b = b, a
        return op, a, b, s.draw(2), s.draw(2)

    def run(self, c, env):
        op, a, b, ca, cb = c
        d = env.driver()
        B = Binder(d)
        va = Atom(C8, a[0]) if ca and len(a) == 1 else Vec(C8, a)
        vb = Atom(C8, b[0]) if cb and len(b) == 1 else Vec(C8, b)
        g = d.eval("(%s %s %s)" % (op, B.var(va), B.var(vb)))
        w = compare(op, a, b)
        if not isinstance(g, Atom) or g.t != B8 or bool(g.v) != w:
            raise Fail("(%s %r %r) gave %r, expected %s" % (op, va, vb, g, w))
        return [op]

    def describe(self, c):
        return "%s %r %r atoms=%d%d" % c


class Enums(Prop):
    """an enumeration compares as the symbols it stands for"""
    name = "enums"
    quick, thorough = 1500, 15000

    def gen(self, s):
        dom = [b"a", b"b", b"c", b"dd", b"e5"][:s.int(1, 5)]
        n = s.size(12)
        e = [s.choice(dom) for _ in range(n)]
        k = s.draw(3)
        o = s.choice(dom + [b"zz"]) if k == 0 else [s.choice(dom + [b"zz"]) for _ in range(n)] if k == 1 else [s.choice(dom) for _ in range(n)]
        return s.choice(CMP[:2]), dom, e, k, o, s.draw(2)

    def run(self, c, env):
        op, dom, e, k, o, swap = c
        d = env.driver()
        B = Binder(d)
        dn = B.var(syms(dom))
        en = "(enum '%s %s)" % (dn, B.var(syms(e)))
        on = B.var(sym(o) if k == 0 else syms(o))
        if k == 2:
            on = "(enum '%s %s)" % (dn, on)
        g = d.eval("(%s %s %s)" % ((op, on, en) if swap else (op, en, on)))
        O = [o] * len(e) if k == 0 else o
        want = [int((p == q) == (op == "==")) for p, q in zip(e, O)]
        if not isinstance(g, Vec) or g.t != B8 or g.a.tolist() != want:
            raise Fail("(%s enum%r %r)%s gave %r, expected %r" % (op, e, o, " swapped" if swap else "", g, want))
        return [op]

    def nontrivial(self, c, l):
        return len(c[2]) > 0

    def describe(self, c):
        return "%s domain=%r enum=%r kind=%d other=%r swap=%d" % c


class Logic(Prop):
    """and, or, not over atoms and vectors, any number of operands, as literals, variables or results"""
    name = "logic"
    quick, thorough = 10000, 120000

    def gen(self, s):
        n = s.int(1, 5)
        big = s.draw(30) == 29
        l = s.choice(gen.BIGN) if big else s.size(10)
        allatoms = s.draw(4) == 0
        ops = []
        for _ in range(n):
            if allatoms or s.draw(3) == 0:
                v = Atom(B8, s.draw(2))
            elif big:
                v = big_array(s, B8, l)
            else:
                v = vec_of(B8, [s.draw(2) for _ in range(l)])
            ops.append((v, s.draw(4)))
        return s.choice(["and", "or"]), ops, s.weighted([(2, 1), (1, 4)]) if big else 1, s.draw(3) == 2, s.draw(4) == 3

    def run(self, c, env):
        op, ops, cores, infn, neg = c
        d = env.driver(cores=cores)
        B = Binder(d)
        texts, names = [], []
        for v, how in ops:
            n = B.var(v)
            names.append((n, v))
            texts.append((lit(v) or n) if how == 1 else "(not (not %s))" % n if how == 2 else n)
        import numpy as np
        L = max([len(v) for v, _ in ops if isinstance(v, Vec)] or [-1])
        if any(isinstance(v, Vec) and len(v) != L for v, _ in ops):
            return []
        arr = [np.array(v.a if isinstance(v, Vec) else [v.v] * max(L, 1), dtype=bool) for v, _ in ops]
        w = arr[0]
        for a in arr[1:]:
            w = (w & a) if op == "and" else (w | a)
        src = "(%s %s)" % (op, " ".join(texts))
        if neg:
            src, w = "(not %s)" % src, ~w
        reps = 1
        if infn:
            d.eval("(set f (fn [x] %s))" % src)
            src, reps = "(f 0)", 2
        for r in range(reps):
            g = d.eval(src)
            if L < 0:
                ok = isinstance(g, Atom) and g.t == B8 and bool(g.v) == bool(w[0])
            else:
                ok = isinstance(g, Vec) and g.t == B8 and np.array_equal(g.a.astype(bool), w)
            if not ok:
                raise Fail("%s over %r gave %r%s, expected %r" % (src, [v for v, _ in ops], g, " on call %d" % (r + 1) if infn else "", w[:30].astype(int).tolist()))
        for n, v in names:
            if not same(d.eval(n), v):
                raise Fail("%s changed %s from %r to %r" % (src, n, v, d.eval(n)))
        return [op, "vec" if L >= 0 else "atoms", "cores%d" % cores, "in-function" if infn else "direct"]

    def nontrivial(self, c, l):
        return bool(l) and len(c[1]) > 1

    def describe(self, c):
        return "%s %r cores=%d in-function=%s not=%s" % c


class Refused(Prop):
    name = "refused"
    quick, thorough = 1000, 8000

    def gen(self, s):
        if s.draw(2):
            x, y = s.choice(PAIRS)
            n = s.size(8)
            m = n + 1 + s.draw(4)
            return s.choice(CMP), vec_of(x, items(s, x, n, mag=100)), vec_of(y, items(s, y, m, mag=100)), s.draw(2)
        x, y = s.choice([(I64, SYM), (SYM, F64), (GUID, I64), (DATE, I64), (TIME, DATE), (SYM, GUID), (TS, F64)])

        def mk(t):
            return Atom(t, scalar(s, t, mag=100)) if s.draw(2) else vec_of(t, items(s, t, 3, mag=100))
        return s.choice(CMP), mk(x), mk(y), s.draw(2)

    def run(self, c, env):
        op, a, b, swap = c
        if swap:
            a, b = b, a
        d = env.driver()
        B = Binder(d)
        g = d.eval("(%s %s %s)" % (op, B.var(a), B.var(b)))
        if not isinstance(g, Err):
            raise Fail("(%s %r %r) must be refused, gave %r" % (op, a, b, g))
        return []

    def describe(self, c):
        return "%s %r %r swap=%d" % c


if __name__ == "__main__":
    sys.exit(run_check("C02", [Comparisons(), Strings(), Enums(), Logic(), Refused()],
                       rule="comparison of two atoms, or of vectors where both outcomes occur; logic over at least two operands; distinct by operation, values and how operands are supplied",
                       assumptions=["ordering of symbols is not covered (it is by interning order), only equality"]))
