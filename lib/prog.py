"""random programs of the language and a reference interpreter"""
import sys
from pbt import *
from rf import *

sys.setrecursionlimit(50000)
M64 = 1 << 64
NULL = -(1 << 63)


def wrap(x):
    x &= M64 - 1
    return x - M64 if x >> 63 else x


class E(Exception):
    """an error of the program; kind user/value/other"""

    def __init__(self, kind, msg=""):
        self.kind, self.msg = kind, msg


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Fuel(Exception):
    pass


class Fun:
    def __init__(self, params, body):
        self.params, self.body = params, body


class V(list):
    """I64 vector"""


class L(list):
    """list of values"""


# --------------------------------------------------------------- reference
class Interp:
    def __init__(self, globs):
        self.g = dict(globs)
        self.frames = []        # (fun, dict)
        self.fuel = 20000

    def lookup(self, n):
        for f, e in reversed(self.frames):
            if n in e:
                return e[n]
        if n in self.g:
            return self.g[n]
        raise E("value", n)

    def body(self, l):
        r = None
        for x in l:
            r = self.ev(x)
        return r

    def apply(self, f, args):
        if callable(f):
            return f(*args)
        if not isinstance(f, Fun):
            raise E("other")
        if len(args) != len(f.params):
            raise E("other")
        if len(self.frames) > 150:
            raise Fuel()
        self.frames.append((f, dict(zip(f.params, args))))
        try:
            return self.body(f.body)
        except Ret as r:
            return r.v
        finally:
            self.frames.pop()

    def ev(self, n):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = n[0]
        if k == "lit":
            return n[1]
        if k == "var":
            return self.lookup(n[1])
        if k == "lam":
            return Fun(n[1], n[2])
        if k == "op":
            a = [self.ev(x) for x in n[2]]
            return OPS[n[1]](*a)
        if k == "adv":
            a = [self.ev(x) for x in n[3]]
            return getattr(self, "adv_" + n[1].replace("-", "_"))(self.fn(n[2]), a)
        if k == "if":
            if truth(self.ev(n[1])):
                return self.ev(n[2])
            return self.ev(n[3]) if len(n) > 3 else None
        if k == "do":
            return self.body(n[1])
        if k == "andor":
            a = [self.ev(x) for x in n[2]]
            return all(a) if n[1] == "and" else any(a)
        if k == "let":
            v = self.ev(n[2])
            if self.frames:
                self.frames[-1][1][n[1]] = v
            else:
                self.g[n[1]] = v
            return v
        if k == "set":
            v = self.ev(n[2])
            self.g[n[1]] = v
            return v
        if k == "raise":
            raise E("user", n[1])
        if k == "return":
            v = self.ev(n[1])
            if self.frames:
                raise Ret(v)
            return v
        if k == "try":
            fr = len(self.frames)
            try:
                return self.ev(n[1])
            except E as e:
                assert len(self.frames) == fr
                if n[2][0] == "lam":
                    return self.apply(Fun(n[2][1], n[2][2]), [("msg", e)])
                return self.ev(n[2])
        if k == "msglen":     # (count e) of the handled error
            m = self.lookup(n[1])[1]
            if m.kind != "user":
                raise Fuel()
            return len(m.msg)
        if k == "app":
            f = self.fn(n[1])
            return self.apply(f, [self.ev(x) for x in n[2]])
        if k == "self":
            return self.apply(self.frames[-1][0], [self.ev(x) for x in n[1]])
        if k == "eval":
            return self.ev(n[1])
        raise AssertionError(k)

    def fn(self, n):
        if n[0] == "op0":
            return OPS[n[1]]
        return self.ev(n)

    # adverbs
    def adv_map(self, f, a):
        l = [x for x in a if isinstance(x, list)]
        if not l:
            raise Fuel()
        if len(set(map(len, l))) > 1:
            raise E("other")
        return collect([self.apply(f, [x[i] if isinstance(x, list) else x for x in a]) for i in range(len(l[0]))])

    adv_pmap = adv_map

    def adv_map_left(self, f, a):
        return collect([self.apply(f, [x] + a[1:]) for x in a[0]])

    def adv_map_right(self, f, a):
        return collect([self.apply(f, a[:-1] + [x]) for x in a[-1]])

    def adv_fold(self, f, a):
        x = a[0]
        if not x:
            raise Fuel()
        v = x[0]
        for y in x[1:]:
            v = self.apply(f, [v, y])
        return v

    def adv_scan(self, f, a):
        x = a[0]
        if not x:
            raise Fuel()
        r = [x[0]]
        for y in x[1:]:
            r.append(self.apply(f, [r[-1], y]))
        return L(r)

    def adv_fold_left(self, f, a):
        v = a[1]
        for y in a[0]:
            v = self.apply(f, [y, v])
        return v

    def adv_fold_right(self, f, a):
        v = a[0]
        for y in a[1]:
            v = self.apply(f, [v, y])
        return v

    def adv_scan_left(self, f, a):
        if not a[0]:
            raise Fuel()
        r = [a[1]]
        for y in a[0]:
            r.append(self.apply(f, [y, r[-1]]))
        return L(r)

    def adv_apply(self, f, a):
        return self.apply(f, a)


def collect(l):
    if all(type(x) is int for x in l):
        return V(l)
    return L(l)


def truth(v):
    if isinstance(v, (bool, int)):
        return v != 0
    if isinstance(v, list):
        return len(v) != 0
    raise Fuel()


def num(f):
    def g(a, b):
        if isinstance(a, str) or isinstance(b, str):
            raise E("other")
        if isinstance(a, V) or isinstance(b, V):
            if isinstance(a, V) and isinstance(b, V):
                if len(a) != len(b):
                    raise E("other")
                return V(map(g, a, b))
            if isinstance(a, V):
                return V(g(x, b) for x in a)
            return V(g(a, x) for x in b)
        if a == NULL or b == NULL:
            return NULL
        return wrap(f(a, b))
    return g


def at(v, i):
    if i < 0:
        i += len(v)
    if i < 0 or i >= len(v):
        if isinstance(v, V):
            return NULL
        raise Fuel()
    return v[i]


def vmax(v):
    l = [x for x in v if x != NULL]
    return max(l) if l else NULL


def vmin(v):
    l = [x for x in v if x != NULL]
    return min(l) if l else NULL


def cmpf(f):
    def g(a, b):
        return f(a, b)
    return g


OPS = {
    "+": num(lambda a, b: a + b), "-": num(lambda a, b: a - b), "*": num(lambda a, b: a * b),
    "<": cmpf(lambda a, b: a < b), ">": cmpf(lambda a, b: a > b), "<=": cmpf(lambda a, b: a <= b),
    ">=": cmpf(lambda a, b: a >= b), "==": cmpf(lambda a, b: a == b), "!=": cmpf(lambda a, b: a != b),
    "not": lambda a: not a,
    "count": lambda v: len(v), "sum": lambda v: wrap(sum(x for x in v if x != NULL)),
    "max": vmax, "min": vmin, "first": lambda v: at(v, 0) if isinstance(v, V) or v else Interp.no(),
    "last": lambda v: at(v, -1) if isinstance(v, V) or v else Interp.no(), "at": at, "til": lambda n: V(range(n)),
    "reverse": lambda v: type(v)(reversed(v)),
    "concat": lambda a, b: V(list(a if isinstance(a, V) else [a]) + list(b if isinstance(b, V) else [b])),
    "list": lambda *a: L(a),
}


def _no():
    raise Fuel()


Interp.no = staticmethod(_no)


# ----------------------------------------------------------------- printer
def lit(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, V):
        return "[" + " ".join(map(lit, v)) + "]" if v else "(til 0)"
    if isinstance(v, str):
        return "'" + v
    return "0Nl" if v == NULL else str(v)


def txt(n):
    k = n[0]
    if k == "lit":
        return lit(n[1])
    if k == "var":
        return n[1]
    if k == "lam":
        return "(fn [%s] %s)" % (" ".join(n[1]), " ".join(map(txt, n[2])))
    if k == "op0":
        return n[1]
    if k == "op":
        return "(%s %s)" % (n[1], " ".join(map(txt, n[2])))
    if k == "adv":
        return "(%s %s %s)" % (n[1], txt(n[2]), " ".join(map(txt, n[3])))
    if k == "if":
        return "(if %s)" % " ".join(map(txt, n[1:]))
    if k == "do":
        return "(do %s)" % " ".join(map(txt, n[1]))
    if k == "andor":
        return "(%s %s)" % (n[1], " ".join(map(txt, n[2])))
    if k in ("let", "set"):
        return "(%s %s %s)" % (k, n[1], txt(n[2]))
    if k == "raise":
        return '(raise "%s")' % n[1]
    if k == "return":
        return "(return %s)" % txt(n[1])
    if k == "try":
        return "(try %s %s)" % (txt(n[1]), txt(n[2]))
    if k == "msglen":
        return "(count %s)" % n[1]
    if k == "app":
        return "(%s %s)" % (txt(n[1]), " ".join(map(txt, n[2]))) if n[2] else "(%s)" % txt(n[1])
    if k == "self":
        return "(self %s)" % " ".join(map(txt, n[1]))
    if k == "eval":
        return "(eval (quote %s))" % txt(n[1])
    raise AssertionError(k)


# --------------------------------------------------------------- generator
INTOPS = ["+", "-", "*"]
CMP = ["<", ">", "<=", ">=", "==", "!="]
NAMES = ["x", "y", "z", "w"]


class Gn:
    def __init__(self, s):
        self.s = s
        self.funs = []          # (name, param types, has side effects)
        self.self_sig = None
        self.pure = 0
        self.nlam = 0

    def int(self, env, d):
        """expression giving an integer; env: {name: type}"""
        s = self.s
        vs = [n for n, t in env.items() if t == "i"]
        if d <= 0:
            k = s.draw(3)
            if k == 0 or (k == 2 and not vs):
                return ("lit", s.weighted([(12, None), (1, NULL), (1, (1 << 63) - 1), (1, 1 << 40)]) or s.int(0, 9) - 3)
            if k == 1 and not self.pure:
                return ("var", "g%d" % s.draw(3))
            return ("var", s.choice(vs)) if vs else ("lit", s.int(0, 5))
        k = s.draw(26)
        if k < 6:
            return ("op", s.choice(INTOPS), [self.int(env, d - 1), self.int(env, d - 1)])
        if k < 8:
            return ("if", self.bool(env, d - 1), self.int(dict(env), d - 1), self.int(dict(env), d - 1))
        if k == 8:
            return ("do", self.block(dict(env), d - 1, s.int(1, 3)))
        if k == 9:
            return self.tryx(env, d)
        if k == 10:
            return ("op", s.choice(["count", "sum", "max", "min", "first", "last"]), [self.vec(env, d - 1)])
        if k == 11:
            return ("op", "at", [self.vec(env, d - 1), ("lit", s.int(0, 5) - 2)])
        if k in (12, 13):
            n = s.int(0, 3)
            ps = NAMES[:n] if s.draw(3) else list(reversed(NAMES))[:n]
            lam = self.lam(env, ps, ["i"] * n, d - 1)
            return ("app", lam, [self.int(env, d - 2) for _ in ps])
        if k in (14, 15) and self.funs:
            nm, ts, eff = s.choice(self.funs)
            if not (eff and self.pure):
                return ("app", ("var", nm), [self.typed(t, env, d - 2) for t in ts])
        if k == 16:
            op = s.choice(INTOPS + ["lam"])
            f = ("op0", op) if op != "lam" else self.lam(env, ["a", "b"], ["i", "i"], d - 2)
            return ("adv", "fold", f, [self.nev(env, d - 1)])
        if k == 17:
            f = self.lam(env, ["a", "b"], ["i", "i"], d - 2)
            if s.draw(2):
                return ("adv", "fold-left", f, [self.vec(env, d - 1), self.int(env, d - 2)])
            return ("adv", "fold-right", f, [self.int(env, d - 2), self.vec(env, d - 1)])
        if k == 18:
            n = s.int(1, 3)
            return ("adv", "apply", self.lam(env, NAMES[:n], ["i"] * n, d - 2), [self.int(env, d - 2) for _ in range(n)])
        if k == 19 and not self.pure:
            return ("set", "g%d" % s.draw(3), self.int(env, d - 1))
        if k == 20:
            e = self.int(env, d - 1)
            nm = s.choice([n for n in NAMES + ["i1"] if env.get(n, "i") == "i"])
            env[nm] = "i"
            return ("let", nm, e)
        if k == 21 and self.self_sig:
            return ("op", s.choice(INTOPS), [self.int(env, d - 2), self.selfcall(env, d)])
        if k == 22 and s.draw(2):
            return ("raise", "m" * s.int(0, 40))
        if k == 23:
            # higher-order argument
            f = self.lam(env, ["q"], ["i"], d - 2)
            return ("app", ("lam", ["f", "v"], [("app", ("var", "f"), [("app", ("var", "f"), [("var", "v")])])]), [f, self.int(env, d - 2)])
        if k == 24 and self.nlam:
            return ("return", self.int(env, d - 1))
        if k == 25:
            w = s.draw(8)
            if w == 0:
                return ("var", "undefinedvar")
            if w == 1:
                return ("op", "+", [self.int(env, d - 2), ("lit", "sym")])
            if w == 2:
                return ("app", self.lam(env, ["x", "y"], ["i", "i"], d - 2), [("lit", 4)])
            if w == 3:
                return ("op", "first", [("op", "+", [("lit", V([1, 2])), ("lit", V([1, 2, 3]))])])
            if w == 4:
                return ("eval", self.int(env, d - 1))
        return self.int(env, d - 1)

    def selfcall(self, env, d):
        return ("self", [("op", "-", [("var", "n"), ("lit", 1)])] + [self.int(env, d - 2) for _ in self.self_sig[1:]])

    def bool(self, env, d):
        s = self.s
        k = s.draw(8)
        if d <= 0:
            return ("lit", bool(s.draw(2)))
        if k < 5:
            return ("op", s.choice(CMP), [self.int(env, d - 1), self.int(env, d - 1)])
        if k == 5:
            return ("op", "not", [self.bool(env, d - 1)])
        if k == 6:
            return ("andor", s.choice(["and", "or"]), [self.bool(env, d - 1) for _ in range(s.int(1, 3))])
        return self.int(env, d - 1)[:] if False else ("lit", bool(s.draw(2)))

    def nev(self, env, d):
        s = self.s
        if s.draw(2):
            return ("lit", V([s.int(0, 6) - 2 for _ in range(s.int(1, 5))]))
        return ("op", "concat", [self.vec(env, d - 1), self.int(env, d - 1)])

    def vec(self, env, d):
        s = self.s
        vs = [n for n, t in env.items() if t == "v"]
        if vs and s.draw(4) == 0:
            return ("var", s.choice(vs))
        if d <= 0:
            if s.draw(2):
                return ("op", "til", [("lit", s.int(0, 6))])
            return ("lit", V([s.int(0, 9) - 3 if s.draw(12) else NULL for _ in range(s.int(0, 5))]))
        k = s.draw(10)
        if k < 3:
            return ("adv", "map", self.lam(env, ["x"], ["i"], d - 1), [self.vec(env, d - 1)]) if s.draw(3) else self.pmap(env, d)
        if k == 3:
            e = self.vec(dict(env), 0)
            return ("adv", "map", self.lam(env, ["x", "y"], ["i", "i"], d - 2), [e, e])
        if k == 4:
            return ("op", s.choice(INTOPS), [self.vec(env, d - 1), self.int(env, d - 1)])
        if k == 5:
            return ("op", "reverse", [self.vec(env, d - 1)])
        if k == 6:
            return ("op", "concat", [self.vec(env, d - 1), s.choice([self.vec, self.int])(env, d - 1)])
        if k == 7:
            f = self.lam(env, ["x", "y"], ["i", "i"], d - 2)
            if s.draw(2):
                return ("adv", "map-left", f, [self.vec(env, d - 1), self.int(env, d - 2)])
            return ("adv", "map-right", f, [self.int(env, d - 2), self.vec(env, d - 1)])
        if k == 8:
            return ("if", self.bool(env, d - 1), self.vec(dict(env), d - 1), self.vec(dict(env), d - 1))
        return self.vec(env, d - 1)

    def pmap(self, env, d):
        # parallel: only arguments, no effects
        self.pure += 1
        sv, self.self_sig = self.self_sig, None
        lam = self.lam(dict(env), ["x"], ["i"], d - 1)
        self.self_sig = sv
        self.pure -= 1
        return ("adv", "pmap", lam, [self.vec(env, d - 1)])

    def lam(self, env, ps, ts, d):
        e = dict(env)
        e.update(zip(ps, ts))
        sv, self.self_sig = self.self_sig, None
        self.nlam += 1
        b = self.block(e, max(0, d), 1 if self.s.draw(3) else 2)
        self.nlam -= 1
        self.self_sig = sv
        return ("lam", list(ps), b)

    def tryx(self, env, d):
        s = self.s
        e = self.int(dict(env), d - 1)
        if s.draw(3) == 0:
            e = ("op", "+", [self.int(dict(env), d - 2), ("raise", "e" * s.int(0, 30))])
        k = s.draw(4)
        if k == 0:
            h = ("lam", ["e"], [("msglen", "e")])
        elif k == 1:
            v = dict(env)
            v["e"] = "e"
            sv, self.self_sig = self.self_sig, None
            self.nlam += 1
            h = ("lam", ["e"], [self.int(v, d - 2)])
            self.nlam -= 1
            self.self_sig = sv
        else:
            h = self.int(dict(env), d - 2)
            if h[0] in ("var",):
                h = ("op", "+", [h, ("lit", 0)])
        return ("try", e, h)

    def stmt(self, env, d):
        s = self.s
        k = s.draw(6)
        if k < 2:
            t = s.choice(["i", "i", "v"])
            e = self.typed(t, env, d)
            nm = s.choice([n for n in NAMES + [t + "1"] if env.get(n, t) == t])
            env[nm] = t
            return ("let", nm, e)
        if k == 2 and not self.pure:
            return ("set", "g%d" % s.draw(3), self.int(env, d))
        if k == 3:
            return ("if", self.bool(env, d - 1), self.int(dict(env), d))
        return self.typed(s.choice(["i", "i", "v", "b"]), env, d)

    def typed(self, t, env, d):
        return dict(i=self.int, v=self.vec, b=self.bool)[t](env, d)

    def block(self, env, d, n):
        return [self.stmt(env, d - 1) for _ in range(n - 1)] + [self.int(env, d)]

    def fun(self, i, d):
        s = self.s
        if s.draw(2):
            n = s.int(1, 2)
            ps, ts = ["n"] + NAMES[:n - 1], ["i"] * n
            env = dict(zip(ps, ts))
            base = self.int(dict(env), d - 2)
            self.self_sig = ts
            self.nlam = 1
            rec = self.block(dict(env), d, s.int(1, 2))
            if s.draw(2):
                rec[-1] = ("op", s.choice(INTOPS), [rec[-1], self.selfcall(env, d)])
            self.self_sig = None
            self.nlam = 0
            f = ("lam", ps, [("if", ("op", "<=", [("var", "n"), ("lit", 0)]), base, ("do", rec) if len(rec) > 1 else rec[0])])
        else:
            n = s.int(0, 3)
            ps = NAMES[:n]
            ts = [s.choice(["i", "i", "v"]) for _ in ps]
            self.nlam = 1
            f = ("lam", ps, self.block(dict(zip(ps, ts)), d, s.int(1, 3)))
            self.nlam = 0
        self.funs.append(("f%d" % i, ts, effects(f)))
        return f


def effects(n):
    if isinstance(n, tuple):
        return n[0] == "set" or (n[0] == "var" and n[1][0] in "gf") or any(effects(x) for x in n[1:])
    return isinstance(n, list) and not isinstance(n, V) and any(effects(x) for x in n)


def value(v):
    if v is None:
        return Null()
    if isinstance(v, bool):
        return b8(v)
    if isinstance(v, V):
        return Vec(I64, list(v))
    if isinstance(v, L):
        return Lst([value(x) for x in v])
    if isinstance(v, str):
        return sym(v)
    return i64(v)


def equal(w, g):
    """expected and real value; a list of integers and a vector of them are the same"""
    if isinstance(w, Lst) and isinstance(g, Vec) and g.t == I64:
        w2 = Vec(I64, [x.v for x in w.a]) if all(isinstance(x, Atom) and x.t == I64 for x in w.a) else None
        return w2 is not None and same(w2, g)
    if isinstance(w, Vec) and len(w.a) == 0:
        return (isinstance(g, (Vec, Lst)) and len(g.a) == 0) or isinstance(g, Null)
    return same(w, g)


CONTEXTS = ["top", "fn", "map", "eval", "lambda2", "do", "fold"]


class Programs(Prop):
    """programs give what the language says, wherever they run"""
    name = "programs"
    quick, thorough = 12000, 200000
    flavours = ("rel", "asan")

    def gen(self, s):
        g = Gn(s)
        nf = s.int(0, 2)
        funs = [g.fun(i, s.int(1, 4)) for i in range(nf)]
        env = {}
        prog = [g.stmt(env, s.int(0, 4)) for _ in range(s.int(0, 2))]
        g2 = s.draw(4)
        if g2 == 0:
            prog.append(g.typed("v", env, s.int(1, 4)))
        else:
            prog.append(g.int(env, s.int(1, 5)))
        return dict(funs=funs, prog=prog, asan=s.draw(8) == 0, ctx=sorted({s.choice(CONTEXTS) for _ in range(3)}))

    def wrapped(self, ctx, prog):
        t = " ".join(map(txt, prog))
        return {"fn": "((fn [] %s))" % t, "map": "(first (map (fn [q] (list (do %s))) [7]))" % t, "eval": '(eval (quote (do %s)))' % t,
                "lambda2": "((fn [h u] (h)) (fn [] %s) 5)" % t, "do": "(do %s)" % t,
                "fold": "(fold (fn [aa bb] %s) [1 2])" % t}[ctx]

    def model(self, c, ctx):
        it = Interp({"g0": 1, "g1": 2, "g2": 3})
        for i, f in enumerate(c["funs"]):
            it.g["f%d" % i] = it.ev(f)
        if ctx in ("fn", "map", "lambda2", "fold"):
            # inside of a function
            it.frames.append((Fun([], []), {}))
        err, v = None, None
        try:
            v = it.body(c["prog"])
        except E as e:
            err = e
        except Ret as r:
            v = r.v
        except Fuel:
            raise Skip("open")
        return err, v, [it.g["g%d" % i] for i in range(3)]

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel")
        labels = set()
        for ctx in c["ctx"]:
            err, want, gl = self.model(c, ctx)
            if ctx in ("map",) and isinstance(want, Fun):
                raise Skip()
            for i in range(3):
                d.eval("(set g%d %d)" % (i, i + 1))
            for i, f in enumerate(c["funs"]):
                d.eval("(set f%d %s)" % (i, txt(f)))
            if ctx == "top":
                r = None
                for x in c["prog"]:
                    r = d.eval(txt(x))
                    if isinstance(r, Err):
                        break
                src = " ; ".join(map(txt, c["prog"]))
            else:
                src = self.wrapped(ctx, c["prog"])
                r = d.eval(src)
                if ctx == "map" and not isinstance(r, Err):
                    if isinstance(r, Lst) and len(r.a) == 1:
                        r = r.a[0]
            show = "functions %s; context %s: %s" % ([txt(f) for f in c["funs"]], ctx, src)
            if err is not None:
                labels.add("error")
                if not isinstance(r, Err):
                    raise Fail("an error is expected (%s), got %s for %s" % (err.kind, r, show))
                if err.kind == "value" and r.name != "value":
                    raise Fail("expected a value error, got %s for %s" % (r, show))
            else:
                w = value(want)
                if not equal(w, r):
                    raise Fail("expected %s got %s for %s" % (w, r, show))
            for i in range(3):
                g = d.eval("g%d" % i)
                if not same(g, i64(gl[i])):
                    raise Fail("g%d is %s, expected %s after %s" % (i, g, gl[i], show))
            if gl != [1, 2, 3]:
                labels.add("effect")
            t = src
            for k in ("(fn", "(try", "(self", "(return", "map", "fold", "(let", "(if"):
                if k in t or any(k in txt(f) for f in c["funs"]):
                    labels.add(k.strip("("))
        return labels

    def nontrivial(self, c, labels):
        return len(labels) >= 2

    def describe(self, c):
        return "%s | %s | %s%s" % (" ; ".join("f%d=%s" % (i, txt(f)) for i, f in enumerate(c["funs"])), " ; ".join(map(txt, c["prog"])),
                                   ",".join(c["ctx"]), " asan" if c["asan"] else "")


