import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import gen, ref
from gen import *

OPS = ["+", "-", "*", "/", "div", "%", "xbar"]
TYPES = [I64, I32, F64, DATE, TIME, TS, U8, I16]
PAIRS = {o: [(x, y) for x in TYPES for y in TYPES if ref.result_type(o, x, y)] for o in OPS}
for o in "+*":
    PAIRS[o] += [(B8, I64), (I64, B8)]
MAG = {I64: 2**31, TS: 2**61, I32: None, DATE: 60000, TIME: None}


def operand(s, t, shape, n, big, op):
    """mostly moderate magnitudes so that results are in range"""
    mag = None
    if s.draw(4):
        mag = {I64: 10**6, I32: 20000, DATE: 30000, TIME: 10**7, TS: 10**18, I16: 100, U8: 15, F64: 1e6}.get(t)
    if shape == "a":
        return Atom(t, scalar(s, t, mag=mag))
    if big:
        return big_array(s, t, n, mag=mag)
    return vec_of(t, items(s, t, n, mag=mag))


class Elementwise(Prop):
    name = "elementwise"
    quick, thorough = 40000, 600000

    def gen(self, s):
        op = s.choice(OPS)
        x, y = s.choice(PAIRS[op])
        sh = s.choice(["aa", "av", "va", "vv"])
        if B8 in (x, y):
            sh = "vv"
        big = sh != "aa" and s.draw(20) == 19
        n = s.choice(gen.BIGN) if big else s.size(14)
        a = operand(s, x, sh[0], n, big, op)
        b = operand(s, y, sh[1], n, big, op)
        if op == "xbar" and sh[1] == "a":
            b = Atom(y, abs(b.v) if not isnull(y, b.v) else b.v)
        return dict(op=op, x=x, y=y, sh=sh, a=a, b=b, ha=s.draw(3), hb=s.draw(3), cores=s.weighted([(5, 1), (1, 4)]) if big else 1,
                    same=sh == "vv" and x == y and s.draw(12) == 11)

    def run(self, c, env):
        d = env.driver(cores=c["cores"])
        b = Binder(d)
        op, x, y = c["op"], c["x"], c["y"]
        va = c["a"]
        vb = va if c["same"] else c["b"]
        na = b.var(va)
        nb = na if c["same"] else b.var(vb)

        def put(n, v, how, sh):
            if how == 1:
                return lit(v) or n
            if how == 2 and sh == "v" and len(v) and v.t not in (U8, B8):
                return "(at %s (til %d))" % (n, len(v))
            return n

        ea, eb = put(na, va, c["ha"], c["sh"][0]), put(nb, vb, c["hb"], c["sh"][1])
        src = "(%s %s %s)" % (op, ea, eb)
        g = d.eval(src)
        rt = ref.result_type(op, x, y, c["sh"])
        A, B = ref.elems(va), ref.elems(vb)
        if c["sh"] == "av":
            A = A * len(B)
        if c["sh"] == "va":
            B = B * len(A)
        want = [ref.scalar_op(op, x, p, y, q, rt) for p, q in zip(A, B)]
        atom = c["sh"] == "aa"
        if isinstance(g, Err) or g.t != rt or isinstance(g, Atom) != atom:
            raise Fail("%s of %s and %s gave %r, not a %s %s" % (src, NAME[x], NAME[y], g, NAME[rt], "atom" if atom else "vector"))
        G = ref.elems(g)
        if len(G) != len(want):
            raise Fail("%s: result has %d elements, operands have %d" % (src, len(G), len(want)))
        k = ref.match(rt, want, G)
        if k >= 0:
            raise Fail("%s: element %d: %s %s %s gave %r, expected %s (%s,%s -> %s)" % (
                src, k, show(x, A[k]), op, show(y, B[k]), G[k], ref.wshow(want[k]), NAME[x], NAME[y], NAME[rt]))
        for n, v in ((na, va), (nb, vb)):
            if not atom and not same(d.eval(n), v):
                raise Fail("%s changed the value bound to %s, now %r" % (src, n, d.eval(n)))
        lab = [op, c["sh"], "big" if len(want) > 1000 else "small"]
        if any(w is not DC_ and not isinstance(w, ref.Approx) and isnull(rt, w) for w in want[:50]):
            lab.append("null-result")
        if any(w is DC_ for w in want[:50]):
            lab.append("open-position")
        self.open = all(w is DC_ for w in want)
        return lab

    def nontrivial(self, c, labels):
        return not self.open

    def describe(self, c):
        return "%s %r %r (put %d %d, cores %d%s)" % (c["op"], c["a"], c["b"], c["ha"], c["hb"], c["cores"], ", same operand" if c["same"] else "")


DC_ = ref.DC


class Unary(Prop):
    name = "unary"
    quick, thorough = 8000, 80000
    OPT = [("neg", (I64, I32, F64)), ("round", (F64, I64, I32, DATE, TIME, TS)), ("floor", (F64, I64, I32, DATE, TIME, TS)),
           ("ceil", (F64, I64, I32, DATE, TIME, TS))]

    def gen(self, s):
        op, ts = s.choice(self.OPT)
        t = s.choice(ts) if s.draw(2) else ts[0]
        k = s.draw(20)
        v = Atom(t, scalar(s, t)) if k < 5 else big_array(s, t) if k == 19 else small_vec(s, t, 14)
        if t == F64 and k < 5 and s.draw(3) == 0:
            v = Atom(F64, s.choice([2.0**52, 2.0**53 + 2, 2.0**63, -2.0**63, 1e19, -1e19, 1e300, 0.49999999999999994, -0.5, 2.5]))
        return op, v, s.draw(2), s.weighted([(4, 1), (1, 4)]) if k == 19 else 1

    def run(self, c, env):
        op, v, tmp, cores = c
        d = env.driver(cores=cores)
        n = Binder(d).var(v)
        src = "(%s %s)" % (op, "(at %s (til %d))" % (n, len(v)) if tmp and isinstance(v, Vec) and len(v) else n)
        g = d.eval(src)
        rt = I64 if op == "neg" and isinstance(v, Vec) and v.t == I32 else v.t     # neg widens integer vectors
        if g.t != rt or isinstance(g, Atom) != isinstance(v, Atom):
            raise Fail("%s gave %r, expected a value shaped like %r" % (src, g, v))
        A, G = ref.elems(v), ref.elems(g)
        if len(A) != len(G):
            raise Fail("%s: %d elements, operand has %d" % (src, len(G), len(A)))
        want = [nullof(rt) if isnull(v.t, x) else ref.unary_op(op, v.t, x) for x in A]
        k = ref.match(rt, want, G)
        if k >= 0:
            raise Fail("%s: element %d: %s of %s gave %r, expected %r" % (src, k, op, show(v.t, A[k]), G[k], want[k]))
        if not same(d.eval(n), v):
            raise Fail("%s changed the value bound to %s" % (src, n))
        return [op, NAME[v.t]]

    def nontrivial(self, c, l):
        return isinstance(c[1], Atom) or len(c[1]) > 0

    def describe(self, c):
        return "%s %r tmp=%d cores=%d" % c


class Lists(Prop):
    """an operation over a list applies to each item, as if applied to it alone"""
    name = "list-operands"
    quick, thorough = 4000, 60000

    def gen(self, s):
        op = s.choice(["+", "-", "*", "/", "div"])
        n = s.int(1, 5)

        def item():
            t = s.choice([I64, I32, F64])
            return Atom(t, scalar(s, t, mag=1000)) if s.draw(2) == 0 else vec_of(t, items(s, t, s.int(1, 4), mag=1000))
        a = [item() for _ in range(n)]
        k = s.draw(4)
        if k == 0:
            b = Atom(I64, scalar(s, I64, mag=50, null=False))
        elif k == 1:
            b = Atom(F64, scalar(s, F64, mag=50, null=False))
        elif k == 2:
            b = [Atom(I64, scalar(s, I64, mag=50)) for _ in range(n)]
        else:
            b = [Atom(F64, scalar(s, F64, mag=50)) for _ in range(n)]
        return op, a, b, s.draw(2)

    def run(self, c, env):
        op, a, b, swap = c
        d = env.driver()
        B = Binder(d)
        ia = [B.var(x) for x in a]
        lb = isinstance(b, list)
        ib = [B.var(x) for x in b] if lb else [B.var(b)] * len(a)
        la = B.var(Lst(a))
        rb = B.var(Lst(b)) if lb else ib[0]
        l, r = (rb, la) if swap else (la, rb)
        g = d.eval("(%s %s %s)" % (op, l, r))
        want = [d.eval("(%s %s %s)" % ((op, y, x) if swap else (op, x, y))) for x, y in zip(ia, ib)]
        if any(isinstance(w, Err) for w in want):
            if not isinstance(g, Err):
                raise Fail("%s over list %r and %r gave %r although an item fails" % (op, a, b, g))
            return ["error"]
        if isinstance(g, Vec):
            got = [Atom(g.t, x) for x in ref.elems(g)]
        elif isinstance(g, Lst):
            got = g.a
        else:
            raise Fail("%s over a list gave %r" % (op, g))
        if len(got) != len(want) or not all(same(p, q) for p, q in zip(got, want)):
            raise Fail("(%s %r %r)%s gave %r, item by item: %r" % (op, a, b, " swapped" if swap else "", g, want))
        return [op]

    def describe(self, c):
        return "%s list%r %r swap=%d" % c


class Unsupported(Prop):
    """operand types with no arithmetic are refused with an error, and operand lengths must agree"""
    name = "refused"
    quick, thorough = 4000, 40000

    def gen(self, s):
        op = s.choice(OPS)
        if s.draw(2):
            x, y = s.choice(PAIRS[op])
            n = s.size(8)
            m = n + 1 + s.draw(4)
            if s.draw(2):
                n, m = m, n
            return op, vec_of(x, items(s, x, n, mag=100)), vec_of(y, items(s, y, m, mag=100)), "length"
        x = s.choice([SYM, GUID, C8])
        y = s.choice(TYPES + [SYM, GUID])
        if op == "xbar":
            y = s.choice([I64, F64, SYM])

        def mk(t):
            return Atom(t, scalar(s, t, mag=100)) if s.draw(2) else vec_of(t, items(s, t, 3, mag=100))
        a, b = mk(x), mk(y)
        if s.draw(2):
            a, b = b, a
        return op, a, b, "type"

    def run(self, c, env):
        op, a, b, kind = c
        d = env.driver()
        B = Binder(d)
        na, nb = B.var(a), B.var(b)
        g = d.eval("(%s %s %s)" % (op, na, nb))
        if not isinstance(g, Err):
            raise Fail("(%s %r %r) must be refused (%s), gave %r" % (op, a, b, kind, g))
        if not same(d.eval(na), a) or not same(d.eval(nb), b):
            raise Fail("a refused (%s %r %r) changed an operand" % (op, a, b))
        return [kind]

    def describe(self, c):
        return "%s %r %r %s" % c


if __name__ == "__main__":
    sys.exit(run_check("C01", [Elementwise(), Unary(), Lists(), Unsupported()],
                       rule="a case counts when at least one result element is determined by the reference (not an overflow or other open position); cases are distinct by operation, operand values, how operands are supplied and core count",
                       assumptions=["integer overflow, u8 nulls and xbar by a bucket <= 0 are left open",
                                    "float division and modulo are compared with a relative tolerance of 1e-14, because the shipped flags allow reciprocal arithmetic"]))
