"""Calls of any builtin with any arguments, nested, inside functions, queries and adverbs."""
from rf import *
from gen import *
import anyval

# everything except what leaves the process: files, sockets, timers, the shell, dynamic libraries, exit
UNARY = """quote raise parse eval type til reverse distinct group sum avg med dev min max round floor ceil first last count not iasc idesc rank
asc desc guid neg where key value ser de rc select update date time timestamp nil? resolve show meta unify raze diverse row""".split()
BINARY = """try let at == < > <= >= != + - * % / div like dict table find concat remove filter take in within sect except union rand as xasc xdesc
xrank enum xbar split bin binr""".split()
VARY = """do and or list enlist format print apply map pmap map-left map-right fold fold-left fold-right scan scan-left scan-right alter modify insert upsert
left-join inner-join asof-join window-join window-join1 if return""".split()
ALL = UNARY + BINARY + VARY
CASTS = ["'i64", "'i32", "'i16", "'f64", "'b8", "'u8", "'c8", "'C8", "'I64", "'I32", "'I16", "'F64", "'B8", "'U8", "'symbol", "'SYMBOL", "'date", "'DATE", "'time", "'TIME",
         "'timestamp", "'TIMESTAMP", "'guid", "'GUID", "'list", "'LIST", "'enum", "'dict", "'table", "'nosuch", "'char", "'String"]
FNS = ["(fn [x] x)", "(fn [x y] (+ x y))", "(fn [] 1)", "(fn [x] (list x x))", "(fn [x y z] y)", "(fn [x] (sum x))", "(fn [x y] (concat x y))", "(fn [x] (nosuch x))",
       "(fn [x] (raise \"e\"))", "(fn [x y] x)", "(fn [x] (let t x) (count t))"]
LITS = ["0", "1", "2", "-1", "3", "0Nl", "0Ni", "1000000000000000000", "-9223372036854775807", "1i", "-2i", "0Nh", "3h", "0.0", "1.5", "-2.5", "0Nf", "true", "false", "0x00", "0xff",
        "'a", "'b", "'x", "0Ns", "''", "\"\"", "\"a\"", "\"abc\"", "\"a*\"", "\"[a\"", "\" \"", "2024.01.01", "0Nd", "10:00:00", "0Nt", "2024.01.01D10:00:00.000000001", "0Np", "[]",
        "[1 2 3]", "[0]", "[1.5 0Nf]", "[a b]", "[a]", "[true false]", "[1i 2i]", "[1h]", "[0x01 0x02]", "(list)", "(list 1 'a \"s\")", "(list 1 2)", "(list [1 2] [3 4])", "null",
        "{a: 1 b: 2}", "{a: [1 2] b: [3 4]}", "{}", "[2024.01.01]", "[10:00:00]", "(as 'guid \"0\")", "0Ng", "(enum 'dom [a b])", "(enum 'dom [a b a])", "(list 'a 'b)", "\"abc\\000def\"",
        "(table [a b] (list [1 2 3] [x y z]))", "(table [a] (list [1]))", "(table [a b] (list [1 1 2] [1.0 2.0 0Nf]))", "(til 10)", "(asc [3 1 2])", "(desc [3 1 2])", "(group [1 2 1])",
        "(til 0)", "(table [s t v] (list [a a b] [10:00:00 10:00:01 10:00:02] [1 2 3]))"]
SETUP = ["(set dom [a b c])"] + ["(set %s null)" % x for x in "a b c x y z s t v k l".split()]


# calls whose arguments fit: result kind, function, argument kinds
# N number(s), I small integer, V vector, S symbols, T table, D dictionary, L list, F function, C text, B booleans, A anything, P temporal
RULES = """N + N N|N - N N|N * N N|N / N N|N % N N|N div N N|N xbar N N|N neg V|N sum V|N avg V|N min V|N max V|N med V|N dev V|N round N|N floor N|N ceil N|P + P I|P - P I|N - P P
B < V V|B > V V|B <= V V|B >= V V|B == V V|B != V V|B and B B|B or B B|B not B|B like S C|B in V V|B within V V|A first V|A last V|V distinct V|V reverse V|D group V|I count A
V take V I|V take V N|V concat V V|V remove V I|V sect V V|V except V V|V union V V|V find V V|V filter V B|N where B|A at V N|A at T S|A at D A|A at L N|N til I|N iasc V|N idesc V|N rank V
V asc V|V desc V|N xrank V I|N bin V V|N binr V V|L list A A|L enlist A|D dict S V|D dict V L|T table S L|V key D|L value D|L value T|V key T|L raze L|L unify L|L diverse L|L row T|A as S V
L split C C|L split V N|C format C A|N rand I I|N guid I|T xasc T S|T xdesc T S|V map F V|V map F V V|V pmap F V|V map-left F V V|V map-right F V V|A fold F V|V scan F V|A fold-left F V V
A fold-right F V V|V scan-left F V V|V scan-right F V V|A apply F A|A apply F A A|T left-join S T T|T inner-join S T T|T insert T L|T upsert T I L|V alter V F N A|T concat T T|T take T I|D concat D D
D take D I|T filter T B|V ser A|A de V|C meta A|A if B A A|A try A F|T distinct T|T group V|V enum S S|S as S C|A parse C|A eval A|T asof-join S T T|T reverse T|D reverse D|D asc D|P date P|P time P"""
RULES = [r.split() for r in RULES.replace("\n", "|").split("|")]
BY = {}
for _r in RULES:
    BY.setdefault(_r[0], []).append(_r)
KINDS = {
    "N": "1 2 -3 0 0Nl 2.5 0Nf 3i 2h [1 2 3] [3 1 2] [1.5 0Nf] [1i 2i 3i] [1h] [0] (til_0) (til_5) (list_1_2.5) 0x01 [0x01_0x02_0x03]",
    "I": "0 1 2 3 -1 -2 5i 2h 7 40",
    "V": "[1 2 3] [3 1 2] [1.5 0Nf 2.0] [a b a] [a] [true false true] [1i 2i 1i] [1h 2h 3h] [2024.01.01 2024.01.02 0Nd] [10:00:00 11:00:00] \"abc\" \"\" (list) (list_1_'a_\"s\") (til_0) (enum_'dom_[a_b_a]) (list_[1_2]_[3]) [0x01 0xff 0x03] (guid_3)",
    "S": "'a 'b ['a] [a b] ['a 'b] [a b c] 'i64 'f64 'symbol 'dom 'I64 'C8 'list [s t] (list) (enum_'dom_[a_b_a])",
    "T": "(table_[a_b]_(list_[1_2_3]_[x_y_z])) (table_[a]_(list_[1])) (table_[a_b]_(list_[1_1_2]_[1.0_2.0_0Nf])) (table_[a_b]_(list_(enum_'dom_[a_b_a])_(list_1_'a_\"s\"))) (table_[a_b]_(list_[]_[])) "
         "(table_[s_t_v]_(list_[a_a_b]_[10:00:00_10:00:01_10:00:02]_[1_2_3]))",
    "D": "{a:_1_b:_2} {a:_[1_2]_b:_[3_4]} {} (dict_[1_2]_[a_b]) (dict_[a_b]_(list_1_'a)) (group_[1_2_1]) (dict_(list_1_'a)_[1.5_2.5])",
    "L": "(list) (list_1_2) (list_1_'a_\"s\") (list_[1_2]_[3_4]) (list_[a_b]_(list)) (list_[1_2]_[x_y]) (list_[1_2_3]_(list_1_'a_\"s\")) (list_4_'w) (list_(list_1)_(list_(list)))",
    "F": "(fn_[x]_x) (fn_[x_y]_(+_x_y)) (fn_[x]_(list_x_x)) (fn_[x]_(sum_x)) (fn_[x_y]_(concat_x_y)) (fn_[x_y]_x) (fn_[x]_(raise_\"e\")) + - concat sum max count til list at neg (fn_[x]_(let_t_x)_(count_t)) like (fn_[x_y]_y)",
    "C": "\"\" \"a\" \"abc\" \"a*\" \"[a\" \"%\" \"a,b\" \",\" \"(+_1_2)\" \"%-%\" \"2024.01.01\" \"12\" \"[1_2]\"",
    "B": "true false [true false true] [true true] [false] (list_true_false) [true]",
    "P": "2024.01.01 0Nd 10:00:00 0Nt 2024.01.01D10:00:00.000000001 0Np [2024.01.01 2024.01.02] [10:00:00 0Nt] (timestamp_'local)",
}


def _split(t):
    out, depth, cur = [], 0, ""
    for w in t.split(" "):
        cur += (" " if cur else "") + w
        depth += w.count("[") + w.count("(") + w.count("{") - w.count("]") - w.count(")") - w.count("}")
        if depth == 0 or '"' in w:
            out.append(cur.replace("_", " "))
            cur, depth = "", 0
    return out


KINDS = {k: _split(v) for k, v in KINDS.items()}


class Gen:
    """Expressions over variables p0.. whose values the check binds"""

    def __init__(self, s, nvars):
        self.s, self.nvars = s, nvars

    def leaf(self):
        s = self.s
        k = s.draw(10)
        if k < 4 and self.nvars:
            return "p%d" % s.draw(self.nvars)
        if k == 4:
            return s.choice(FNS)
        if k == 5:
            return s.choice(ALL)
        if k == 6:
            return s.choice(CASTS)
        return s.choice(LITS)

    def query(self, depth):
        s = self.s
        f = []
        for _ in range(s.draw(3)):
            f.append("%s: %s" % (s.choice(["a", "b", "c", "x"]), self.col(depth)))
        if s.draw(3):
            f.append("by: %s" % s.choice(["a", "b", "{k: a}", "{k: a l: b}", "(== a b)", self.col(depth)]))
        if s.draw(3):
            f.append("where: %s" % s.choice(["(> a 1)", "(== b 'a)", "(in a [1 2])", "true", self.col(depth)]))
        if s.draw(4) == 3:
            f.append("take: %s" % self.leaf())
        if s.draw(12):
            f.insert(s.draw(len(f) + 1), "from: %s" % self.expr(depth - 1))
        return "(%s {%s})" % (s.choice(["select", "select", "update"]), " ".join(f))

    def col(self, depth):
        s = self.s
        k = s.draw(6)
        if k < 2 or depth <= 0:
            return s.choice(["a", "b", "c", "x", "s", "v"])
        if k == 2:
            return self.leaf()
        return "(%s)" % " ".join([s.choice(ALL)] + [self.col(depth - 1) for _ in range(s.choice([1, 1, 2, 2, 3]))])

    def typed(self, kind, depth):
        s = self.s
        if kind == "A":
            kind = s.choice("NVSTDLCB")
        if s.draw(12) == 11:
            return self.expr(depth)
        if depth <= 0 or not s.draw(5) or kind not in BY:
            if self.nvars and s.draw(5) == 4:
                return "p%d" % s.draw(self.nvars)
            return s.choice(KINDS[kind])
        r = s.choice(BY[kind])
        return "(%s)" % " ".join([r[1]] + [self.typed(k, depth - 1) for k in r[2:]])

    def fitting(self, depth):
        r = self.s.choice(RULES)
        return "(%s)" % " ".join([r[1]] + [self.typed(k, depth - 1) for k in r[2:]])

    def expr(self, depth):
        s = self.s
        if depth <= 0:
            return self.leaf()
        if s.draw(2):
            return self.fitting(depth)
        k = s.draw(16)
        if k < 5:
            return "(%s %s)" % (s.choice(UNARY), self.expr(depth - 1))
        if k < 10:
            return "(%s %s %s)" % (s.choice(BINARY), self.expr(depth - 1), self.expr(depth - 1))
        if k < 13:
            return "(%s)" % " ".join([s.choice(s.choice([VARY, ALL]))] + [self.expr(depth - 1) for _ in range(s.draw(5))])
        if k == 13:
            return self.query(depth)
        if k == 14:
            return "((fn [%s] %s) %s)" % (" ".join(["x", "y", "a"][:s.draw(4)]), self.expr(depth - 1), " ".join(self.expr(0) for _ in range(s.draw(4))))
        return self.leaf()
