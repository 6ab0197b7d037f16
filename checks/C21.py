import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
from gen import *
import anyval, build, text, threading
import ipc
from ipc import *

NSLOT = 4
EXPRS = ["(set c{i} (concat c{i} {k}))", "(set c{i} (concat c{i} {k}))", "(count c{i})", "c{i}", "(sum c{i})", "(list 'a c{i} \"txt\" {k})", "(set f{i} (fn [x] (+ x {k})))", "(f{i} {k})",
         "(nosuch{i} 1)", "(raise \"boom {k}\")", "(+ 1 'a)", "(+ 1", ")", "", "{k}", "null", "(enum 'dom [a b a])", "(list 1 (enum 'dom [a]))", "(table [a b] (list (til {k}) (til {k})))",
         "(set t{i} (table [a b] (list (til {k}) (* 2 (til {k})))))", "(select {{s: (sum a) c: (count b) from: t{i}}})", "(do (set c{i} (concat c{i} {k})) (raise \"late\"))", "(til {k})",
         "(dict [a b] (list {k} c{i}))", "(if (> (count c{i}) 3) 'big 'small)", "(fn [x] (+ x {k}))", "sum", "(try (raise \"x\") (fn [e] {k}))", "{{a: {k} b: 'q}}", "\"text {k}\"", "(format \"%-%\" {k} c{i})",
         "0Nl", "(enlist {k})", "(map (fn [x] (* x {k})) c{i})", "(first c{i})", "(let z {k})", "(set g{i} {{x: {k}}})", "(at g{i} 'x)", "(* 1.5 {k})", "(== c{i} {k})", "(list)", "(til 0)"]
SHARED = ["(set shared (+ shared {k}))", "shared", "(set shl (concat shl {k}))", "shl", "(count shl)"]
BIGS = ["(til 3000)", "(til 20000)", "(til 200000)", "(* 0.5 (til 700000))", "(list (til 40000) (take \"abc\" 90000) (til 3))", "(take [a b c] 30000)"]


def msg(s, shared=True):
    k = s.draw(10)
    if k < 6:
        return ("t", s.choice(EXPRS), s.int(0, 9))
    if k == 6:
        return ("t", s.choice(SHARED), s.int(0, 9)) if shared else ("t", EXPRS[0], s.int(0, 9))
    if k == 7:
        return ("t", s.weighted([(x, 8 if i < 2 else 2 if i < 4 else 1) for i, x in enumerate(BIGS)]), 0)
    if k == 8:
        return ("c", anyval.value(s, 2))
    return ("o", s.choice(["v", "q"]), anyval.value(s, 2), s.int(0, 9))


def big_value(s):
    n = s.choice([100, 5000, 60000, 300000])
    return Vec(I64, list(range(n)))



SETUP = ["(set dom [a b c])", "(set shared 0)", "(set shl [])", "(set ident (fn [x] x))", "(set total 0)", "(set ec 0)", "(set el [])"] + ["(set c%d [])" % i for i in range(40)]
OPENS = ["(set opens 0)", "(set closes 0)", "(set .z.po (fn [x] (set opens (+ opens 1))))", "(set .z.pc (fn [x] (set closes (+ closes 1))))"]


def agree(want, got):
    if isinstance(want, Err) or isinstance(got, Err):
        return isinstance(want, Err) and isinstance(got, Err) and want.code == got.code and (want.name, want.msg) == (got.name, got.msg)
    return same(want, got)


def txt(e):
    return e.encode("latin1") if isinstance(e, str) else e


class Server:
    """a serving process, and a local one which evaluates the same messages"""

    def __init__(self, env, fl):
        self.env = env
        self.ref = env.driver("rel")
        self.ref.stop()
        self.d = Driver(build.driver(fl), cwd=env.fresh_dir())
        self.raws = []
        self.procs = []
        self.port = self.d.serve()
        self.ctl = self.raw()
        for e in SETUP:
            self.ref.eval(e)
            self.ask(self.ctl, e)

    def raw(self, **kw):
        r = Raw(self.port, **kw)
        self.raws.append(r)
        return r

    def proc(self):
        d = Driver(build.driver("rel"), cwd=self.env.scratch)
        self.procs.append(d)
        return d

    def alive(self):
        if self.d.p.poll() is not None:
            self.d._dead()

    def stop(self):
        for r in self.raws:
            r.close()
        for p in self.procs:
            p.stop()
        self.d.stop()

    # messages: ("t" template k) ("c" value: a call of ident) ("v" value) ("s": the symbol of the connection's variable)
    def source(self, m, i):
        return txt(m[1].format(i=i, k=m[2]))

    def bind(self, d, m, i, name="qm"):
        """bind the message to a variable of the process"""
        if m[0] == "t":
            d.set(name, Vec(C8, self.source(m, i)))
        elif m[0] == "c":
            d.set("qv", m[1])
            d.eval("(set %s (list 'ident qv))" % name)
        elif m[0] == "v":
            d.set(name, m[1])
        else:
            d.set(name, Atom(SYM, b"c%d" % i))

    def packed(self, m, i, mt):
        self.bind(self.ref, m, i)
        b = self.ref.eval("(ser qm)")
        if isinstance(b, Err):
            raise Skip()
        return header(b.a.tobytes(), mt)

    def expect(self, m, i):
        """evaluate the message locally: what its sender gets"""
        r = self.ref
        if m[0] == "t":
            src = self.source(m, i)
            if not src.strip() or isinstance(r.parse(src), Err):
                return r.evaln(src)
            return r.evaln(b"(do (set qr " + src + b") (de (ser qr)))")
        self.bind(r, m, i)
        b = r.eval("(ser qm)")
        if isinstance(b, Err):
            return b
        return r.evaln(b"(do (set qm (de (ser qm))) (set qr (eval qm)) (de (ser qr)))") if m[0] != "v" or not isinstance(m[1], Null) else NULL

    def decode(self, b):
        self.ref.set("qb", Vec(U8, np.frombuffer(b, np.uint8)))
        return self.ref.eval("(de qb)")

    def ask(self, raw, e):
        """text -> answer, on a raw connection"""
        self.ref.set("qm", Vec(C8, txt(e)))
        raw.send(header(self.ref.eval("(ser qm)").a.tobytes(), SYNC))
        return self.answer(raw)

    def answer(self, raw):
        try:
            mt, b = raw.msg()
        except Gone as e:
            self.alive()
            raise Fail("a correct connection was closed: %s" % e)
        if mt != RESP:
            raise Fail("the answer has message type %d" % mt)
        return self.decode(b)

    def until(self, e, want, what):
        end = time.time() + LIMIT
        while True:
            g = self.ask(self.ctl, e)
            if same(want, g):
                return
            if time.time() > end:
                raise Fail("%s: %s is %r, want %r" % (what, e, g, want))
            time.sleep(0.002)


class Hist(Prop):
    name, quick, thorough, flavours = "history", 400, 8000, ("rel", "asan")

    def gen(self, s):
        n = s.int(3, 26)
        ops = []
        kinds = [s.choice("dr") for _ in range(NSLOT)]
        used = s.int(1, NSLOT)
        for _ in range(n):
            k = s.draw(24)
            sl = s.draw(used)
            if k < 2:
                ops.append(("close", sl))
            elif k < 10:
                ops.append(("sync", sl, self.msg(s)))
            elif k < 14:
                ops.append(("async", sl, self.msg(s, False)))
            elif k == 14:
                ops.append(("total", sl, s.int(1, 9)))
            elif k == 15:
                ops.append(("who", sl))
            elif k < 20:
                m = [(s.choice([ASYNC, SYNC, SYNC]), self.msg(s, False)) for _ in range(s.int(1, 7))]
                ops.append(("pipe", sl, m, [s.seed() for _ in range(s.draw(5))], s.draw(3)))
            elif k < 22:
                ops.append(("back", sl, s.draw(6), s.int(0, 9), s.int(0, 9)))
            else:
                ops.append(("bad", s.draw(9), s.seed()))
        return {"kinds": kinds, "ops": ops, "asan": s.draw(2)}

    def msg(self, s, shared=True):
        k = s.draw(12)
        if k < 6:
            return ("t", s.choice(EXPRS), s.int(0, 9))
        if k < 8:
            return ("t", s.choice(SHARED if shared else EXPRS[:4]), s.int(0, 9))
        if k == 8:
            return ("t", s.weighted([([8, 8, 2, 1, 1, 1][i], x) for i, x in enumerate(BIGS)]), 0)
        if k == 9:
            return ("c", Vec(I64, list(range(s.choice([100, 5000, 60000, 300000])))) if s.draw(3) == 2 else anyval.value(s, 2))
        if k == 10:
            return ("c", anyval.value(s, 3))
        return ("v", anyval.vect(s)) if s.draw(2) else ("s",)

    def run(self, c, env):
        fl = "asan" if c["asan"] and "asan" in self.flavours else "rel"
        sv = Server(env, fl)
        try:
            return self.go(c, env, sv)
        except Gone as e:
            sv.alive()
            raise Fail("a correct connection was closed: %s" % e)
        finally:
            sv.stop()

    def go(self, c, env, sv):
        for e in OPENS:
            sv.ask(sv.ctl, e)
        labels = set()
        conn = [None] * NSLOT        # (kind, generation, raw or variable, pending)
        who = {}
        gen = opens = closes = total = early = 0
        A = None
        cc = 0

        def check(m, i, got, how):
            want = sv.expect(m, i)
            if not agree(want, got):
                raise Fail("%s on connection %d: the answer to %r is %r, locally %r" % (how, i, sv.source(m, i) if m[0] == "t" else m, got, want))

        for op in c["ops"]:
            sv.alive()
            sl = op[1]
            if op[0] != "bad" and conn[sl] is None:
                if op[0] == "close":
                    continue
                if c["kinds"][sl] == "d":
                    if A is None:
                        A = sv.proc()
                        A.eval("(set cc 0)")
                    h = A.eval('(set h%d (hopen "127.0.0.1:%d"))' % (sl, sv.port))
                    if isinstance(h, Err):
                        raise Fail("hopen: %r" % h)
                    conn[sl] = ["d", gen, None]
                else:
                    conn[sl] = ["r", gen, sv.raw()]
                gen = (gen + 1) % 40
                opens += 1
            if op[0] != "bad":
                kind, g, raw = conn[sl]
            labels.add(op[0])
            if op[0] == "close":
                if kind == "d":
                    # (closing a handle discards what has not been sent yet)
                    A.eval('(write h%d "1")' % sl)
                    r = A.eval("(hclose h%d)" % sl)
                    if isinstance(r, Err):
                        raise Fail("hclose: %r" % r)
                    r = A.eval('(write h%d "1")' % sl)
                    if not isinstance(r, Err):
                        raise Fail("write to a closed handle: %r" % r)
                    A.eval("(set h%d 0Nl)" % sl)
                else:
                    raw.close()
                conn[sl] = None
                closes += 1
                who.pop(sl, None)
            elif op[0] in ("sync", "async"):
                m = op[2]
                if kind == "d":
                    sv.bind(A, m, g)
                    r = A.eval("(write %s qm)" % ("h%d" % sl if op[0] == "sync" else "(neg h%d)" % sl), 120)
                    if op[0] == "sync":
                        check(m, g, r, "write")
                    else:
                        sv.expect(m, g)
                        if not isinstance(r, Null):
                            raise Fail("asynchronous write: %r" % r)
                else:
                    raw.send(sv.packed(m, g, SYNC if op[0] == "sync" else ASYNC))
                    if op[0] == "sync":
                        check(m, g, sv.answer(raw), "request")
                    else:
                        sv.expect(m, g)
            elif op[0] == "total":
                m = ("t", "(set total (+ total {k}))", op[2])
                total += op[2]
                if kind == "d":
                    sv.bind(A, m, g)
                    A.eval("(write (neg h%d) qm)" % sl)
                else:
                    raw.send(sv.packed(m, g, ASYNC))
            elif op[0] == "who":
                m = ("t", ".z.w", 0)
                if kind == "d":
                    r = A.eval('(write h%d ".z.w")' % sl)
                else:
                    r = sv.ask(raw, ".z.w")
                if not (isinstance(r, Atom) and r.t == I64):
                    raise Fail(".z.w is %r" % r)
                if who.setdefault(sl, r.v) != r.v:
                    raise Fail(".z.w of the same connection is %d and %d" % (who[sl], r.v))
                if len(set(who.values())) != len(who):
                    raise Fail("connections with the same .z.w: %r" % who)
            elif op[0] == "pipe":
                if kind == "d":
                    # asynchronous messages are handled before the request sent after them
                    for mt, m in op[2]:
                        sv.bind(A, m, g)
                        r = A.eval("(write (neg h%d) qm)" % sl, 120)
                        sv.expect(m, g)
                    m = ("t", "(list c{i} (count c{i}))", 0)
                    sv.bind(A, m, g)
                    check(m, g, A.eval("(write h%d qm)" % sl, 120), "write")
                    continue
                b, want = b"", []
                for mt, m in op[2]:
                    b += sv.packed(m, g, mt)
                    w = sv.expect(m, g)
                    if mt == SYNC:
                        want.append((m, w))
                raw.send(b, [x % (len(b) + 1) for x in op[3]], [0, 0.001, 0.01][op[4]])
                for m, w in want:
                    x = sv.answer(raw)
                    if not agree(w, x):
                        raise Fail("pipelined request on connection %d: the answer to %r is %r, locally %r" % (g, m, x, w))
            elif op[0] == "back":
                if kind != "d":
                    continue
                k, x, y = op[2:]
                if k == 0:      # the server asks back while the client waits
                    e, want = '(+ %d (write .z.w "(* %d %d)"))' % (x, x, y), x + x * y
                elif k == 1:
                    e, want = '(do (write .z.w "(set cc (+ cc %d))") (+ %d (write .z.w "cc")))' % (x, y), cc + x + y
                    cc += x
                elif k == 2:    # asynchronous messages to the client
                    e, want = '(do (write (neg .z.w) "(set cc (+ cc %d))") (write (neg .z.w) "(set cc (* cc 2))") %d)' % (x, y), y
                    cc = (cc + x) * 2
                elif k == 3:    # which asks the server again
                    e, want = '(+ %d (write .z.w "(+ %d (write h%d \\"(+ shared %d)\\"))"))' % (x, y, sl, x), x + y + x + sv.ref.eval("shared").v
                elif k == 4:
                    e, want = '(count (write .z.w "(til 20000)"))', 20000
                else:
                    e, want = '(try (write .z.w "(raise \\"e\\")") (fn [e] %d))' % x, x
                A.set("qm", Vec(C8, txt(e)))
                r = A.eval("(write h%d qm)" % sl)
                if not same(i64(want), r):
                    raise Fail("%s: %r, want %d" % (e, r, want))
                if abs(cc) > 1 << 40:
                    cc = 0
                    A.eval("(set cc 0)")
                if not same(i64(cc), A.eval("cc")):
                    raise Fail("after %s: cc of the client is %r, want %d" % (e, A.eval("cc"), cc))
            elif op[0] == "bad":
                opened = self.bad(sv, op[1], op[2])
                opens += opened
                closes += opened
                early += op[1] == 0
        sv.alive()
        # every connection still works, and its messages have been handled
        for sl in range(NSLOT):
            if conn[sl]:
                kind, g, raw = conn[sl]
                m = ("t", "(list c{i} (count c{i}))", 0)
                if kind == "d":
                    sv.bind(A, m, g)
                    check(m, g, A.eval("(write h%d qm)" % sl), "write")
                else:
                    raw.send(sv.packed(m, g, SYNC))
                    check(m, g, sv.answer(raw), "request")
        sv.until("total", i64(total), "asynchronous messages")
        sv.until("opens", i64(opens), "opened connections")
        for sl in range(NSLOT):
            if conn[sl]:
                closes += 1
                if conn[sl][0] == "d":
                    A.eval("(hclose h%d)" % sl)
                else:
                    conn[sl][2].close()
        # (a connection which ends within the handshake may be reported as closed)
        sv.until("(>= closes %d)" % closes, Atom(B8, 1), "closed connections")
        g = sv.ask(sv.ctl, "closes")
        if not closes <= g.v <= closes + early:
            raise Fail("%r connections reported as closed, %d were opened" % (g, closes))
        if not same(i64(opens), sv.ask(sv.ctl, "opens")):
            raise Fail("a connection is reported twice")
        sv.alive()
        return sorted(labels) + sorted({x for x in c["kinds"]})

    def bad(self, sv, k, seed):
        """a connection which does not follow the protocol; the number of completed handshakes"""
        import random
        rnd = random.Random(seed)
        try:
            if k == 0:      # leaves before or within the handshake
                r = sv.raw(shake=None)
                if rnd.random() < 0.5:
                    r.send(b"\x01")
                r.close(rnd.random() < 0.5)
                return 0
            if k == 1:      # long handshakes with credentials
                sh = bytes(rnd.choice(b"abc:d") for _ in range(rnd.choice([1, 15, 16, 17, 100, 5000]))) + b"\0"
                r = sv.raw(shake=sh, cuts=[rnd.randrange(len(sh)) for _ in range(3)])
                got = sv.ask(r, "(+ 1 2)")
                if not same(i64(3), got):
                    raise Fail("after a handshake of %d bytes: %r" % (len(sh), got))
                r.close()
                return 1
            r = sv.raw()
            h = bytearray(sv.packed(("t", "(til 1000)", 0), 0, SYNC))
            if k == 2:      # leaves within a message
                r.send(bytes(h[:rnd.randrange(1, len(h))]))
            elif k == 3:    # another prefix
                h[rnd.randrange(4)] ^= 1 << rnd.randrange(8)
                r.send(bytes(h))
            elif k == 4:    # sizes
                h[8:16] = struct.pack("<q", rnd.choice([0, -1, -16, -(1 << 63), (1 << 63) - 1, (1 << 63) - 16, 1 << 62, (1 << 38) + 1, 1, 2, 8, 15, len(h) - 17, len(h) - 15]))
                r.send(bytes(h))
            elif k == 5:    # other bytes in the payload of a value
                v = anyval_plain(rnd)
                sv.ref.set("qv", v)
                h = bytearray(header(sv.ref.eval("(ser qv)").a.tobytes(), rnd.choice([SYNC, ASYNC])))
                for _ in range(rnd.choice([1, 1, 2, 5])):
                    h[rnd.randrange(16, len(h))] = rnd.choice([0, 1, 0x7f, 0x80, 0xff, rnd.randrange(256)])
                r.send(bytes(h))
            elif k == 6:    # responses nobody has asked for, unknown types of messages
                for _ in range(3):
                    r.send(header(bytes(h), rnd.choice([RESP, RESP, 3, 77, 255])))
            elif k == 7:    # asks and does not read
                for _ in range(5):
                    r.s.sendall(sv.packed(("t", "(til 200000)", 0), 0, SYNC))
            else:           # rubbish
                r.send(bytes(rnd.randrange(256) for _ in range(rnd.choice([3, 16, 17, 500]))))
            if not same(i64(7), sv.ask(sv.ctl, "(+ 3 4)")):
                raise Fail("wrong answer on another connection")
            r.close(rnd.random() < 0.3)
            return 1
        except Gone:
            sv.alive()
            return 1

    def nontrivial(self, c, labels):
        return len(labels) > 3

    def describe(self, c):
        return {"kinds": "".join(c["kinds"]), "server": "asan" if c["asan"] else "rel", "ops": [repr(o)[:100] for o in c["ops"][:20]]}


class Peer:
    """a server of ours: a thread which plays a script on every connection"""

    def __init__(self, scripts):
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(8)
        self.port = self.s.getsockname()[1]
        self.scripts = scripts
        self.err = None
        self.stop = False
        self.t = threading.Thread(target=self.go, daemon=True)
        self.t.start()

    def go(self):
        self.s.settimeout(0.2)
        keep = []
        try:
            for sc in self.scripts:
                while True:
                    try:
                        c, _ = self.s.accept()
                        break
                    except socket.timeout:
                        if self.stop:
                            return
                c.settimeout(LIMIT)
                c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                r = Raw.__new__(Raw)
                r.s, r.buf = c, b""
                keep.append(r)
                try:
                    self.play(r, sc)
                except Gone:
                    pass
                if not sc.get("silent"):
                    c.close()
        except Exception as e:
            self.err = e
        finally:
            while not self.stop:
                time.sleep(0.01)
            for r in keep:
                r.s.close()
            self.s.close()

    def play(self, r, sc):
        b = r.take(2)
        while b[-1] != 0:
            b += r.take(1)
        if sc["shake"] is None:
            return
        r.send(sc["shake"])
        for st in sc["steps"]:
            mt, b = r.msg()
            st["got"] = (mt, b)
            out = st["out"]
            r.send(out, [x % (len(out) + 1) for x in st["cuts"]], st["gap"])
            if st["end"]:
                return


class Client(Prop):
    """a client against servers which cut their messages anywhere, push messages of their own, or break off"""
    name, quick, thorough, flavours = "client", 300, 6000, ("rel", "asan")

    def gen(self, s):
        conns = []
        for _ in range(s.int(1, 3)):
            shake = s.weighted([(9, "ok"), (1, "close"), (1, "silent")])
            steps = []
            for _ in range(s.int(1, 6)):
                k = s.weighted([(6, "value"), (2, "push"), (2, "error"), (1, "cut"), (1, "rubbish"), (1, "big"), (1, "size"), (1, "bytes")])
                steps.append({"k": k, "v": anyval.value(s, 2), "n": s.int(0, 9), "cuts": [s.seed() for _ in range(s.draw(5))], "gap": s.draw(3), "seed": s.seed(),
                              "send": ("t", s.choice(EXPRS), s.int(0, 9)) if s.draw(2) else ("c", anyval.value(s, 2))})
                if k in ("cut", "rubbish", "size", "bytes"):
                    break
            conns.append({"shake": shake, "steps": steps})
        return {"conns": conns, "asan": s.draw(2)}

    def run(self, c, env):
        import random
        fl = "asan" if c["asan"] and "asan" in self.flavours else "rel"
        ref = env.driver("rel")
        A = Driver(build.driver(fl), cwd=env.scratch)
        labels = set()

        def ser(v):
            ref.set("qv", v)
            b = ref.eval("(ser qv)")
            return None if isinstance(b, Err) else b.a.tobytes()

        scripts = []
        for cn in c["conns"]:
            labels.add(cn["shake"])
            sc = {"shake": b"\x01" if cn["shake"] == "ok" else None, "steps": [], "silent": cn["shake"] == "silent"}
            for st in cn["steps"] if cn["shake"] == "ok" else []:
                k = st["k"]
                labels.add(k)
                rnd = random.Random(st["seed"])
                v, end, want = st["v"], False, None
                if k == "big":
                    v = Vec(I64, list(range(rnd.choice([1000, 8191, 8192, 100000]))))
                b = ser(v)
                if b is None:
                    v = i64(7)
                    b = ser(v)
                out = header(b, RESP)
                want = v
                if k == "push":
                    n = rnd.randrange(1, 4)
                    out = b"".join(header(ser(Vec(C8, b"(set pc (concat pc %d))" % (st["n"] + j))), ASYNC) for j in range(n)) + out
                    if rnd.random() < 0.5:      # after the response: handled with the next one
                        pass
                elif k == "error":
                    ref.evaln("(set qe (ser (try (raise \"boom\") (fn [e] 1))))")
                    out = header(bytes_of_error(ref, st["n"]), RESP)
                    want = "err"
                elif k == "cut":
                    out = out[:rnd.randrange(0, len(out))]
                    end, want = True, "err"
                elif k == "rubbish":
                    out = bytearray(out)
                    out[rnd.randrange(4)] ^= 1 << rnd.randrange(8)
                    out = bytes(out)
                    end, want = True, "err"
                elif k == "size":
                    out = bytearray(out)
                    out[8:16] = struct.pack("<q", rnd.choice([0, -1, -(1 << 63), (1 << 63) - 1, (1 << 38) + 1]))
                    out = bytes(out)
                    end, want = True, "err"
                elif k == "bytes":
                    b = bytearray(header(ser(anyval_plain(rnd)), RESP))
                    for _ in range(rnd.choice([1, 2, 5])):
                        b[rnd.randrange(16, len(b))] = rnd.choice([0, 1, 0x7f, 0x80, 0xff, rnd.randrange(256)])
                    out, end, want = bytes(b), True, "any"
                sc["steps"].append({"out": out, "cuts": st["cuts"], "gap": [0, 0.001, 0.005][st["gap"]], "end": end, "want": want, "send": st["send"], "k": k, "n": st["n"],
                                    "pushed": (n if k == "push" else 0)})
            scripts.append(sc)
        peer = Peer(scripts)
        try:
            A.eval("(set pc [])")
            A.eval("(set dom [a b c])")
            A.eval("(set ident (fn [x] x))")
            ref.eval("(set ident (fn [x] x))")
            pushed = []
            for sc in scripts:
                h = A.eval('(set h (hopen "127.0.0.1:%d" %s))' % (peer.port, 300 if sc["silent"] else 60000), LIMIT)
                if sc["shake"] is None:
                    if not isinstance(h, Err):
                        raise Fail("hopen without an answer to the handshake: %r" % h)
                    continue
                if not (isinstance(h, Atom) and h.t == I64):
                    raise Fail("hopen: %r" % h)
                failed = False
                for st in sc["steps"]:
                    m = st["send"]
                    if m[0] == "t":
                        src = m[1].format(i=0, k=m[2])
                        A.set("qm", Vec(C8, txt(src)))
                        sent = Vec(C8, txt(src))
                    else:
                        A.set("qv", m[1])
                        A.eval("(set qm (list 'ident qv))")
                        sent = Lst([Atom(SYM, b"ident"), m[1]])
                    r = A.eval("(write h qm)", LIMIT)
                    if "got" not in st:
                        raise Fail("the request did not arrive; write: %r" % r)
                    mt, b = st["got"]
                    ref.set("qb", Vec(U8, np.frombuffer(b, np.uint8)))
                    x = ref.eval("(de qb)")
                    if mt != SYNC or not isinstance(x, Err) and not same(sent, x):
                        raise Fail("sent %r, the server received %r (message type %d)" % (sent, x, mt))
                    w = st["want"]
                    if w == "err":
                        if not isinstance(r, Err):
                            raise Fail("%s: write gives %r, an error is expected" % (st["k"], r))
                    elif w != "any" and not same(w, r):
                        raise Fail("%s: write gives %r, the server answered %r" % (st["k"], r, w))
                    pushed += [st["n"] + j for j in range(st["pushed"])]
                    g = A.eval("pc")
                    if [int(y) for y in g.a] != pushed:
                        raise Fail("messages of the server: %r handled, %r sent" % (g, pushed))
                    if st["end"] and w == "err":
                        failed = True
                if failed:
                    r = A.eval("(write h \"1\")", LIMIT)
                    if not isinstance(r, Err):
                        raise Fail("write after the connection broke: %r" % r)
                A.eval("(hclose h)")
                if not same(i64(3), A.eval("(+ 1 2)")):
                    raise Fail("the client does not work any more")
            n = len(os.listdir("/proc/%d/fd" % A.p.pid))
            A.eval('(hopen "127.0.0.1:1")')
            if len(os.listdir("/proc/%d/fd" % A.p.pid)) != n:
                raise Fail("a failed hopen leaves a descriptor")
            socks = [x for x in (os.readlink("/proc/%d/fd/%s" % (A.p.pid, f)) for f in os.listdir("/proc/%d/fd" % A.p.pid)) if x.startswith("socket")]
            if socks:
                raise Fail("%d sockets are left open after hclose" % len(socks))
        finally:
            peer.stop = True
            A.stop()
        if peer.err is not None:
            raise Fail("the server could not understand the client: %r" % peer.err)
        return sorted(labels)

    def nontrivial(self, c, labels):
        return len(labels) > 1

    def describe(self, c):
        return {"client": "asan" if c["asan"] else "rel", "connections": [(x["shake"], [(y["k"], len(y["cuts"]), repr(y["v"])[:60]) for y in x["steps"]]) for x in c["conns"]]}


def bytes_of_error(ref, n):
    ref.set("qm", Vec(C8, b"x"))
    e = ref.eval("(ser qm)").a.tobytes()
    return e[:8] + struct.pack("<q", 2) + b"\x7f\x01"


class Growth(Prop):
    """the same conversations again and again: the server ends up with the same descriptors and memory"""
    name, quick, thorough, flavours = "growth", 24, 400, ("rel",)

    def gen(self, s):
        return [s.choice(["open", "raw", "bad", "big", "lost", "refuse", "drv", "err", "push", "self", "kick"]) if i else "open" for i in range(s.int(2, 7))] + [s.seed()]

    def run(self, c, env):
        sv = Server(env, "rel")
        h = Hist()
        try:
            A = sv.proc()
            fds = lambda p: len(os.listdir("/proc/%d/fd" % p))
            base = fds(sv.d.p.pid)
            used = []
            for rounds in range(6):
                for k in c[:-1]:
                    if k == "open":
                        sv.raw().close()
                    elif k == "raw":
                        r = sv.raw()
                        for m in (("t", "(til 100)", 0), ("c", Vec(F64, [1.5] * 50)), ("t", "(raise \"x\")", 0)):
                            r.send(sv.packed(m, 0, SYNC))
                            sv.answer(r)
                        r.send(sv.packed(("t", "(til 500)", 0), 0, ASYNC))
                        r.close()
                    elif k == "bad":
                        for b in (0, 1, 2, 3, 4, 6, 8):
                            h.bad(sv, b, c[-1])
                    elif k == "big":
                        r = sv.raw()
                        r.send(sv.packed(("t", "(til 100000)", 0), 0, SYNC))
                        sv.answer(r)
                        r.close()
                    elif k == "lost":
                        r = sv.raw()
                        for _ in range(4):
                            r.s.sendall(sv.packed(("t", "(til 200000)", 0), 0, SYNC))
                        sv.ask(sv.ctl, "1")
                        r.close(True)
                    elif k == "refuse":
                        r = sv.raw()
                        r.send(sv.packed(("t", "(list 1 (enum 'dom [a b]))", 0), 0, SYNC))
                        sv.answer(r)
                        r.close()
                    elif k == "drv":
                        A.eval('(set h (hopen "127.0.0.1:%d"))' % sv.port)
                        A.eval('(write h "(sum (til 1000))")')
                        A.eval("(write h (list + 1 2))")
                        A.eval("(hclose h)")
                    elif k == "self":       # the connection is closed by what it asked for
                        r = sv.raw()
                        r.send(sv.packed(("t", "(hclose .z.w)", 0), 0, SYNC))
                        try:
                            r.msg()
                            raise Fail("an answer on a connection which has been closed")
                        except Gone:
                            sv.alive()
                    elif k == "kick":
                        sv.ask(sv.ctl, "(set .z.po (fn [x] (hclose x)))")
                        try:
                            r = sv.raw()
                            r.send(sv.packed(("t", "(+ 1 2)", 0), 0, SYNC))
                            r.msg()
                            raise Fail("an answer on a connection which has been closed")
                        except Gone:
                            sv.alive()
                        sv.ask(sv.ctl, "(set .z.po (fn [x] x))")
                    elif k == "push":
                        A.eval('(set h (hopen "127.0.0.1:%d"))' % sv.port)
                        A.eval('(write h "(do (write (neg .z.w) \\"(+ 1 2)\\") (count (write .z.w \\"(til 3000)\\")))")')
                        A.eval("(hclose h)")
                    else:
                        r = sv.raw()
                        for e in ("(", "(nosuch 1)", "(+ 1 'a)", "(til -1)"):
                            sv.ask(r, e)
                        r.close()
                end = time.time() + LIMIT
                while fds(sv.d.p.pid) != base:
                    sv.alive()
                    if time.time() > end:
                        raise Fail("%d descriptors of the server are open, %d before" % (fds(sv.d.p.pid), base))
                    time.sleep(0.002)
                sv.ask(sv.ctl, "(gc)")
                m = sv.ask(sv.ctl, "(memstat)")
                d = dict(zip(m.k.a, m.v.a.tolist() if isinstance(m.v, Vec) else [x.v for x in m.v.a]))
                used.append(d)
            last = [x[b"heap"] - x[b"free"] for x in used]
            if all(x < y for x, y in zip(last[1:], last[2:])):
                raise Fail("the memory in use by the server grows: %r" % last)
        except Gone as e:
            sv.alive()
            raise Fail("a correct connection was closed: %s" % e)
        finally:
            sv.stop()
        return list(c[:-1])

    def nontrivial(self, c, labels):
        return len(set(labels)) > 1

    def describe(self, c):
        return {"conversations": c[:-1]}


def anyval_plain(rnd):
    """nested lists of numbers and texts: nothing which could be called whatever happens to the bytes"""
    def go(d):
        k = rnd.randrange(5)
        if k == 0 and d:
            return Lst([go(d - 1) for _ in range(rnd.randrange(4))])
        if k == 1 and d:
            return Pair(DICT, Vec(I64, list(range(2))), Lst([go(d - 1), go(d - 1)]))
        if k == 2:
            return Vec(F64, [0.5] * rnd.randrange(6))
        if k == 3:
            return Vec(I32, [rnd.randrange(1000) for _ in range(rnd.randrange(9))])
        return Atom(I64, rnd.randrange(1000))
    return go(3)


if __name__ == "__main__":
    run_check("C21", [Hist(), Client(), Growth()], rule="the history has at least four kinds of operations and connections",
              assumptions=["messages of one connection are handled in their order; the order between connections is only observed through requests which have been answered",
              "the loopback interface stands for the network"])
