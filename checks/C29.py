import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
from gen import *
import anyval, build, calls, threading, subprocess, random

STATE = ["(set st [])", "(set sl (list))", "(set cnt 0)", "(set dom [a b c])", "(set tb (table [a b] (list [0] [z])))", "(set app (fn [x] (set sl (concat sl (enlist x)))))",
         "(set add (fn [x] (set cnt (+ cnt x)) (set st (concat st x))))", "(set ins (fn [x] (upsert 'tb 1 x)))", "(set fail (fn [x] (raise x)))"] + ["(set k%d null)" % i for i in range(4)]
WATCH = ["st", "sl", "cnt", "tb", "k0", "k1", "k2", "k3"]


def record(s, good=False):
    """expression which gives the record, name bound to the value it uses"""
    k = s.draw(13 if not good else 9)
    n = s.int(0, 99)
    if k < 3:
        return "(list 'add %d)" % n, None
    if k < 5:
        return "(list 'app v)", anyval.value(s, 2)
    if k == 5:
        return "(list 'set 'k%d v)" % s.draw(4), anyval.value(s, 2) if s.draw(2) else anyval.vect(s)
    if k == 6:
        return "(list 'ins (list %d 'q%d))" % (s.draw(5), n), None
    if k == 7:
        return "(list add %d)" % n, None
    if k == 8:
        return "(list 'app v)", Vec(I64, list(range(s.choice([100, 509, 510, 511, 512, 3000, 60000]))))
    if k == 9:
        return "v", anyval.value(s, 2)
    if k == 10:
        return s.choice(["'cnt", "'nosuch", "\"text\"", "null", "(list)", "(list 'nosuch 1)", "(list '+ 1 'cnt)"]), None
    if k == 11:
        return "(list 'fail \"boom\")", None
    return "(enum 'dom [a b])", None


def bind(d, r, name="rec"):
    """evaluate the record in the process; False if it is none"""
    if r[1] is not None:
        d.set("v", r[1])
    return not isinstance(d.eval("(set %s %s)" % (name, r[0])), Err)


def same_err(a, b):
    return isinstance(a, Err) and isinstance(b, Err) and a.code == b.code and (a.name, a.msg) == (b.name, b.msg)


class Log(Prop):
    """a log is replayed as it was written, up to where the file was cut"""
    name, quick, thorough, flavours = "log", 500, 12000, ("rel", "asan")

    def gen(self, s):
        ops = []
        for _ in range(s.int(2, 25)):
            k = s.draw(16)
            if k < 10:
                ops.append(("write", s.draw(3), record(s, s.draw(4) > 0)))
            elif k < 12:
                ops.append(("close", s.draw(3)))
            elif k < 14:
                ops.append(("replay", s.draw(2), s.draw(3)))
            else:
                ops.append(("cut", s.seed()))
        return {"ops": ops, "asan": s.draw(3) == 2}

    def run(self, c, env):
        d = env.fresh_dir()
        p = d + "/" + ("log" if len(c["ops"]) % 3 else "deep/er/log")
        ws = [env.driver("rel", env={"RFN": str(i)}) for i in range(2)]
        ws = [ws[0], ws[0], ws[1]]          # three handles, two processes
        ref = env.driver("rel", env={"RFN": str(2)})
        for w in set(ws):
            for e in STATE:
                w.eval(e)
        open_ = [False] * 3
        recs = []            # (record, its bytes)
        torn = 0             # bytes of an incomplete record at the end
        total = 0
        labels = set()
        for op in c["ops"]:
            labels.add(op[0])
            if op[0] == "write":
                i = op[1]
                if torn and open_ != [False] * 3:
                    pass
                if not open_[i]:
                    h = ws[i].eval('(set h%d (hopen "%s"))' % (i, p))
                    if not (isinstance(h, Atom) and h.t == I32):
                        raise Fail("hopen: %r" % h)
                    open_[i] = True
                if torn:
                    continue
                if not bind(ws[i], op[2]):
                    raise Skip("record")
                if not bind(ref, op[2]):
                    raise Skip("record")
                b = ref.eval("(ser rec)")
                r = ws[i].eval("(write h%d rec)" % i)
                if isinstance(b, Err):
                    if not isinstance(r, Err):
                        raise Fail("write of a value which has no bytes: %r" % r)
                    labels.add("unserialisable")
                elif not isinstance(r, Null):
                    raise Fail("write: %r" % r)
                else:
                    b = b.a.tobytes()[16:]
                    recs.append((op[2], b))
                    total += len(b)
                if (os.path.getsize(p)) != total:
                    raise Fail("the log has %d bytes after records of %d bytes" % (os.path.getsize(p), total))
            elif op[0] == "close":
                if open_[op[1]]:
                    ws[op[1]].eval("(hclose h%d)" % op[1])
                    open_[op[1]] = False
            elif op[0] == "cut":
                if total == 0 or torn:
                    continue
                # the machine stops: only a part of the file has been kept
                rnd = random.Random(op[1])
                at = rnd.choice([rnd.randrange(total + 1), total - 1, max(0, total - len(recs[-1][1])), max(0, total - len(recs[-1][1]) + 1), total])
                for i in range(3):
                    if open_[i]:
                        ws[i].eval("(hclose h%d)" % i)
                        open_[i] = False
                os.truncate(p, at)
                n = 0
                while n < len(recs) and len(recs[n][1]) <= at:
                    at -= len(recs[n][1])
                    n += 1
                recs = recs[:n]
                torn = at
                total = sum(len(b) for _, b in recs) + torn
                labels.add("torn" if torn else "whole")
            else:
                self.replay(c, env, op, p, recs, torn, total, ref, labels)
                if torn:
                    # what comes after the last record is removed, and the log goes on
                    os.truncate(p, total - torn)
                    total, torn = total - torn, 0
        self.replay(c, env, ("replay", 0, 0), p, recs, torn, total, ref, labels)
        for i in range(3):
            if open_[i]:
                ws[i].eval("(hclose h%d)" % i)
        return sorted(labels)

    def replay(self, c, env, op, p, recs, torn, total, ref, labels):
        r = env.driver("asan" if c["asan"] and op[1] == 0 else "rel", env={"RFN": str(3)})
        if r.n > 3000:
            r.stop()
        for e in STATE:
            r.eval(e)
            ref.eval(e)
        h = r.eval('(set hr (hopen "%s"))' % p)
        if not (isinstance(h, Atom) and h.t == I32):
            raise Fail("hopen: %r" % h)
        err, n, at = None, 0, 0
        for q, b in recs:
            bind(ref, q)
            x = ref.eval("(de (ser rec))")
            if not (isinstance(x, Vec) and x.t == C8):      # (a text stands for itself, eval would parse it)
                x = ref.eval("(eval (de (ser rec)))")
            if isinstance(x, Err):
                err = x
                labels.add("error")
                break
            n += 1
            at += len(b)
        g = r.eval("(read hr)")
        if total == 0:
            if not isinstance(g, Err) and not (isinstance(g, Pair) and [int(x) for x in g.v.a] == [0, 0, 0]):
                raise Fail("replay of an empty log: %r" % g)
        elif err is not None:
            if not same_err(err, g):
                raise Fail("replay gives %r, record %d gives %r" % (g, n, err))
        elif not (isinstance(g, Pair) and g.k.a == [b"items", b"read", b"total"] and [int(x) for x in g.v.a] == [n, at, total]):
            raise Fail("replay gives %r; the log of %d bytes has %d records of %d bytes" % (g, total, n, at))
        for w in WATCH:
            a, b = ref.eval(w), r.eval(w)
            if not same(a, b):
                raise Fail("after the replay of %d records %s is %r, it should be %r" % (n, w, b, a))
        r.eval("(hclose hr)")

    def nontrivial(self, c, labels):
        return "write" in labels and len(labels) > 2

    def describe(self, c):
        return "%s%s" % ("asan " if c["asan"] else "", [(o[0], o[1]) + ((o[2][0], repr(o[2][1])[:50]) if o[0] == "write" else ()) for o in c["ops"]])


class Writers(Prop):
    """several processes append at the same time: every record is kept, those of a process in their order"""
    name, quick, thorough, flavours = "writers", 40, 1000, ("rel",)

    def gen(self, s):
        return {"n": [s.int(1, 60) for _ in range(s.int(2, 4))], "size": s.choice([1, 10, 600, 6000])}

    def run(self, c, env):
        p = env.fresh_dir() + "/log"
        ds = [env.driver("rel", env={"RFN": str(i)}) for i in range(len(c["n"]))]
        for i, d in enumerate(ds):
            d.eval('(set h (hopen "%s"))' % p)
            d.eval("(set wr (fn [j] (write h (list 'app (list list %d j (take j %d))))))" % (i, c["size"]))
        out = [None] * len(ds)

        def go(i):
            try:
                out[i] = ds[i].eval("(count (map wr (til %d)))" % c["n"][i])
            except Exception as e:
                out[i] = e
        th = [threading.Thread(target=go, args=(i,)) for i in range(len(ds))]
        [t.start() for t in th]
        [t.join() for t in th]
        for o in out:
            if not isinstance(o, Atom):
                raise o if isinstance(o, Exception) else Fail("write: %r" % o)
        d = ds[0]
        for x in ds:
            x.eval("(hclose h)")
        for e in STATE:
            d.eval(e)
        d.eval('(set h (hopen "%s"))' % p)
        g = d.eval("(read h)")
        size = os.path.getsize(p)
        if not (isinstance(g, Pair) and [int(x) for x in g.v.a] == [sum(c["n"]), size, size]):
            raise Fail("replay gives %r, %d records of %d bytes were written" % (g, sum(c["n"]), size))
        sl = d.eval("sl")
        d.eval("(hclose h)")
        nxt = [0] * len(ds)
        for x in sl.a:
            i, j = x.a[0].v, x.a[1].v
            if j != nxt[i] or len(x.a[2].a) != c["size"] or any(int(y) != j for y in x.a[2].a):
                raise Fail("record %d of process %d comes after %d of its records: %r" % (j, i, nxt[i], x))
            nxt[i] += 1
        if nxt != c["n"]:
            raise Fail("records: %r of %r" % (nxt, c["n"]))
        return ["%d writers" % len(ds)]

    def nontrivial(self, c, labels):
        return True

    def describe(self, c):
        return "records by process: %r, size %d" % (c["n"], c["size"])


class Damage(Prop):
    """any bytes: an account of what was read or an error, and a process which goes on"""
    name, quick, thorough, flavours = "damage", 1500, 40000, ("asan", "rel")

    def gen(self, s):
        return {"seed": s.seed(), "n": s.int(0, 4), "k": s.draw(4), "asan": s.draw(3) > 0}

    def value(self, rnd, d=2):
        k = rnd.randrange(6)
        if k == 0 and d:
            return Lst([self.value(rnd, d - 1) for _ in range(rnd.randrange(4))])
        if k == 1 and d:
            return Pair(DICT, Vec(I64, [1, 2]), Lst([self.value(rnd, d - 1), self.value(rnd, d - 1)]))
        if k == 2:
            return Vec(C8, bytes(rnd.randrange(256) for _ in range(rnd.randrange(6))))
        if k == 3:
            return Vec(F64, [0.5] * rnd.randrange(5))
        if k == 4:
            return Pair(TABLE, Vec(SYM, [b"a"]), Lst([Vec(I64, [1, 2, 3])]))
        return Atom(I64, rnd.randrange(1000))

    def run(self, c, env):
        rnd = random.Random(c["seed"])
        d = env.driver("asan" if c["asan"] else "rel")
        b = b""
        for _ in range(c["n"]):
            d.set("v", self.value(rnd))
            b += d.eval("(ser v)").a.tobytes()[16:]
        if c["k"] == 0 or not b:
            b = bytes(rnd.choice([0, 1, 9, 11, 98, 99, 0xfb, 0xff, rnd.randrange(256)]) for _ in range(rnd.randrange(40)))
        else:
            b = bytearray(b)
            for _ in range(c["k"]):
                b[rnd.randrange(len(b))] = rnd.choice([0, 1, 0x7f, 0x80, 0xff, rnd.randrange(256)])
            b = bytes(b)
        p = env.fresh_dir() + "/log"
        with open(p, "wb") as f:
            f.write(b)
        d.eval('(set h (hopen "%s"))' % p)
        g = d.eval("(read h)")
        d.eval("(hclose h)")
        if isinstance(g, Pair):
            n, rd, tot = [int(x) for x in g.v.a]
            if tot != len(b) or not 0 <= rd <= tot or n > rd or (n == 0) != (rd == 0):
                raise Fail("replay of %d bytes gives %r" % (len(b), g))
        elif not isinstance(g, Err):
            raise Fail("replay gives %r" % g)
        if open(p, "rb").read() != b:
            raise Fail("reading a log has changed it")
        if not same(i64(3), d.eval("(+ 1 2)")):
            raise Fail("the process does not work any more")
        return ["read" if isinstance(g, Pair) else "error", "asan" if c["asan"] else "rel"]

    def nontrivial(self, c, labels):
        return c["n"] > 0

    def describe(self, c):
        return repr(c)


class Scripts(Prop):
    """a script gives what its statements give one after the other, loaded or run"""
    name, quick, thorough, flavours = "scripts", 800, 20000, ("rel",)

    def gen(self, s):
        g = calls.Gen(s, 3)
        st = []
        for i in range(s.int(0, 8)):
            k = s.draw(5)
            if k == 0:
                st.append("(set k%d %s)" % (s.draw(4), g.expr(2)))
            elif k == 1:
                st.append("(set cnt (+ cnt %d))" % s.draw(10))
            elif k == 2:
                st.append("(set st (concat st %d))" % s.draw(10))
            elif k == 3:
                st.append("(try %s 0)" % g.expr(2))
            else:
                st.append(s.weighted([(8, "(set k0 {a: %d b: \"x ; y\"})" % s.draw(9)), (3, "cnt"), (1, "(raise \"stop\")"), (1, "(nosuch 1)"), (2, "\"text (\""), (2, "(fn [x] x)"), (2, "[1 2 3]")]))
        seps = [s.choice(["\n", " ", "\r\n", "\n\n", "\t", "\n; a comment (\n", " ; \"\n", "\n;;;\n", "\n    "]) for _ in range(len(st) + 1)]
        return {"st": st, "seps": seps, "end": s.choice(["", "\n", " ", "\n; end", "\n;", "\r\n", ";"]), "bin": s.draw(3) == 0, "bad": s.choice([None] * 8 + ["(", ")", "\"", "(set x [1 2)"])}

    def run(self, c, env):
        text = "".join(a + b for a, b in zip(c["seps"], c["st"] + [""]))
        if "rand" in text or "guid" in text:
            raise Skip("random")
        if c["bad"]:
            text += c["bad"]
        text += c["end"]
        d, r = env.driver("rel", env={"RFN": str(0)}), env.driver("rel", env={"RFN": str(1)})
        for x in (d, r):
            for e in STATE + calls.SETUP:
                x.eval(e)
        want = NULL
        if not c["bad"]:
            for e in c["st"]:
                want = r.eval(e)
                if isinstance(want, Err):
                    break
        dr = env.fresh_dir()
        p = dr + "/s.rfl"
        with open(p, "wb") as f:
            f.write(text.encode("latin1"))
        raw = d.eval('(read "%s")' % p)
        if not (isinstance(raw, Vec) and raw.t == C8 and bytes(raw.a).rstrip(b"\0") == text.encode("latin1")):
            raise Fail("read gives %r, the file holds %r" % (raw, text))
        g = d.eval('(load "%s")' % p)
        if c["bad"]:
            if not isinstance(g, Err):
                raise Fail("a script which can not be parsed gives %r" % g)
        elif isinstance(want, Err):
            if not same_err(want, g):
                raise Fail("the script gives %r, its statements %r" % (g, want))
        elif not (isinstance(want, Fn) and isinstance(g, Fn)) and not same(want, g):
            raise Fail("the script gives %r, its statements %r" % (g, want))
        for w in WATCH:
            a, b = r.eval(w), d.eval(w)
            if not (isinstance(a, Fn) and isinstance(b, Fn)) and not same(a, b):
                raise Fail("after the script %s is %r, after its statements %r" % (w, b, a))
        if c["bin"]:
            # as a program: the same effects, the exit code tells of an error
            o = dr + "/out"
            full = "\n".join(STATE + calls.SETUP) + "\n" + text + ("\n(set \"%s\" (list cnt st))" % o)
            q = dr + "/p.rfl"
            with open(q, "wb") as f:
                f.write(full.encode("latin1"))
            pr = subprocess.run([build.main_binary(), "-c", "1", q], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=dr, timeout=60)
            bad = bool(c["bad"]) or isinstance(want, Err)
            if pr.returncode not in (0, 1) or (pr.returncode == 1) != bad:
                raise Fail("the program ends with %d, the statements with %r" % (pr.returncode, want))
            if not bad:
                x = d.eval('(get "%s")' % o)
                if not (isinstance(x, Lst) and same(x.a[0], r.eval("cnt")) and same(x.a[1], r.eval("st"))):
                    raise Fail("the program leaves %r, the statements %r" % (x, r.eval("(list cnt st)")))
        return ["program" if c["bin"] else "loaded", "bad" if c["bad"] else "error" if isinstance(want, Err) else "value"]

    def nontrivial(self, c, labels):
        return len(c["st"]) > 1

    def describe(self, c):
        return repr("".join(a + b for a, b in zip(c["seps"], c["st"] + [""])) + (c["bad"] or "") + c["end"])


if __name__ == "__main__":
    run_check("C29", [Log(), Writers(), Damage(), Scripts()], rule="the log has records and at least two other kinds of events; the damaged log held a record; the script has at least two statements",
              assumptions=["a stopped machine keeps a prefix of the log"])
