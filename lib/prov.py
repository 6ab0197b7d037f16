"""Values with a history: the same vector obtained as the result of earlier operations (sorted, filtered, updated in
place, ...) must behave exactly like a freshly built equal vector."""
from rf import *
from gen import *

NUM = (I16, I32, I64, F64)


def start(s, t, n):
    v = small_vec(s, t, n=n, mag=1000)
    f = s.choice(["(asc v)", "(desc v)", "(distinct v)", "(reverse (asc v))", "(asc (distinct v))", "(reverse (desc v))",
                  "(distinct (desc v))", "v", "(til %d)" % n])
    return v, f


def pick(s, t):
    """a template {} of one operation"""
    k = s.draw(5)
    one = lit1(t, scalar(s, t, mag=20)) or "(first v)"
    oth = lit(small_vec(s, t, n=1 + s.draw(4), mag=20)) or "v"
    i = s.draw(8)
    any_ = ["(take {} %d)" % s.zint(-9, 9), "(concat {} %s)" % one, "(concat {} %s)" % oth, "(concat %s {})" % oth, "(reverse {})",
            "(at {} [%d %d %d])" % (s.draw(3), s.draw(3), s.draw(3)), "(at {} (iasc {}))", "(at {} (idesc {}))",
            "(remove {} %d)" % i, "(except {} %s)" % oth, "(union {} %s)" % oth, "(sect {} %s)" % oth, "(raze (list {} %s))" % oth,
            "(first (list {}))", "(filter {} (> (count {}) (til (count {}))))", "(filter {} (== 1 (%% (til (count {})) 2)))",
            "(do (set z {}) (alter 'z set %d %s) z)" % (i % 3, one), "(do (set z {}) (alter 'z concat %s) z)" % one,
            "(do (set z {}) (alter 'z remove %d) z)" % (i % 3), "(do (set z {}) (push 'z %s) z)" % one,
            "(at (xasc (table [a b] (list {} (reverse (til (count {}))))) 'b) 'a)",
            "(at (insert (table [a b] (list {} (til (count {})))) (list %s 0)) 'a)" % one,
            "(at (select {{from: (table [a b] (list {} (til (count {})))) where: (!= b %d)}}) 'a)" % i,
            "(at (upsert (table [b a] (list (til (count {})) {})) 1 (list %d %s)) 'a)" % (i % 4, one),
            "(at (update {{a: (reverse a) from: (table [a b] (list {} (til (count {}))))}}) 'a)",
            "(value (dict (til (count {})) {}))", "(key (dict {} (til (count {}))))", "(asc {})", "(desc {})", "(distinct {})",
            "(take {} 2)", "(de (ser {}))", "(map (fn [x] x) {})", "(at (list {} 1) 0)", "(fold (fn [x y] (concat y x)) {})",
            "(scan (fn [x y] y) {})", "(as '%s {})" % {I64: "I64", I32: "I32", F64: "F64", SYM: "SYMBOL"}.get(t, "I64")]
    num = ["(- 0 {})", "(neg {})", "(* {} -1)", "(- %s {})" % one, "(+ {} (reverse {}))", "(- {} (* 2 {}))", "(% {} 3)", "(xbar {} 3)",
           "(/ {} 2)", "(div {} 2)", "(* {} {})", "(map neg {})", "(+ {} %s)" % one, "(* 0 {})", "(- {} {})", "(* {} (til (count {})))"]
    if t in NUM and k >= 2:
        return s.choice(num)
    return s.choice(any_)


def gen_history(s):
    t = s.choice([I64, I64, I32, F64, SYM, I16, DATE, TS, TIME, B8, U8, C8])
    n = s.choice([3, 5, 4, 2, 1, 0, 8, 40])
    v, f = start(s, t, n)
    ops = [pick(s, t) for _ in range(s.int(1, 3))]
    nest = [s.draw(3) for _ in ops]
    return dict(t=t, v=v, f=f, ops=ops, nest=nest)


def build(c, d):
    """binds r (with the history) and q (fresh); returns the value"""
    d.set("v", c["v"])
    src = c["f"]
    k = 0
    for o, nest in zip(c["ops"], c["nest"]):
        if nest == 0 and o.count("{}") == 1:
            src = o.replace("{}", src).replace("{{", "{").replace("}}", "}")
            continue
        nm = "h%d" % k
        k += 1
        g = d.eval("(set %s %s)" % (nm, src))
        if isinstance(g, (Err, Null)) or g.t in (LIST, DICT, TABLE) or isinstance(g, Atom):
            return None
        src = o.replace("{}", nm).replace("{{", "{").replace("}}", "}")
    g = d.eval("(set r %s)" % src)
    if not isinstance(g, Vec):
        return None
    g = d.eval("r")
    if not isinstance(g, Vec):
        return None
    d.set("q", g)
    return g
