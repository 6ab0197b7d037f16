"""Values and the driver client."""
import os, struct, subprocess, select, signal, time, fcntl
import numpy as np

LIST, B8, U8, I16, I32, I64, SYM, DATE, TIME, TS, F64, GUID, C8 = range(13)
ENUM = 20
MAPLIST = 75
PARTED = 77
TABLE, DICT, LAMBDA = 98, 99, 100
NULLT, ERR = 126, 127
NAME = {LIST: "list", B8: "b8", U8: "u8", I16: "i16", I32: "i32", I64: "i64", SYM: "symbol", DATE: "date",
        TIME: "time", TS: "timestamp", F64: "f64", GUID: "guid", C8: "c8", ENUM: "enum", TABLE: "table",
        DICT: "dict", LAMBDA: "lambda", NULLT: "null", ERR: "error"}
DT = {B8: np.dtype("i1"), U8: np.dtype("u1"), I16: np.dtype("<i2"), I32: np.dtype("<i4"), I64: np.dtype("<i8"),
      DATE: np.dtype("<i4"), TIME: np.dtype("<i4"), TS: np.dtype("<i8"), F64: np.dtype("<f8")}
N16 = -2**15
N32 = -2**31
N64 = -2**63
NULLV = {I16: N16, I32: N32, I64: N64, DATE: N32, TIME: N32, TS: N64}


class Val:
    __slots__ = ()


class Atom(Val):
    """type + python value; None is the null of the type for symbols; ints carry the raw null pattern"""
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __repr__(self):
        return "%s(%s)" % (NAME.get(self.t, self.t), show(self.t, self.v))


class Vec(Val):
    __slots__ = ("t", "a")

    def __init__(self, t, a):
        self.t = t
        if t == C8:
            self.a = bytes(a)
        elif t == SYM or t == GUID:
            self.a = list(a)
        else:
            self.a = a if isinstance(a, np.ndarray) and a.dtype == DT[t] else np.array(list(a), dtype=DT[t])

    def __len__(self):
        return len(self.a)

    def __repr__(self):
        n = len(self.a)
        if self.t == C8:
            s = repr(self.a[:80])
        else:
            s = "[" + " ".join(show(self.t, x) for x in self.a[:16]) + (" .." if n > 16 else "") + "]"
        return "%s#%d%s" % (NAME.get(self.t, str(self.t)).upper(), n, s)


class Lst(Val):
    __slots__ = ("a", "t")

    def __init__(self, a, t=LIST):
        self.a, self.t = list(a), t

    def __len__(self):
        return len(self.a)

    def __repr__(self):
        return "%s(%s%s)" % ("list" if self.t == LIST else "type%d" % self.t, ", ".join(map(repr, self.a[:12])),
                             ", .. %d" % len(self.a) if len(self.a) > 12 else "")


class Pair(Val):
    """dict or table"""
    __slots__ = ("t", "k", "v")

    def __init__(self, t, k, v):
        self.t, self.k, self.v = t, k, v

    def __repr__(self):
        return "%s{%r: %r}" % (NAME[self.t], self.k, self.v)


class Enm(Val):
    __slots__ = ("k", "v")
    t = ENUM

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return "enum{%r %r}" % (self.k, self.v)


class Null(Val):
    __slots__ = ()
    t = NULLT

    def __repr__(self):
        return "Null"


class Err(Val):
    __slots__ = ("code", "name", "msg")
    t = ERR

    def __init__(self, code=0, name="", msg=""):
        self.code, self.name, self.msg = code, name, msg

    def __repr__(self):
        return "Err(%s %s)" % (self.name, self.msg)


class Fn(Val):
    __slots__ = ("t", "s")

    def __init__(self, t, s):
        self.t, self.s = t, s

    def __repr__(self):
        return "fn<%d %s>" % (self.t, self.s)


NULL = Null()


def show(t, v):
    if t == SYM:
        return "0Ns" if v is None else "'" + (v.decode("latin1") if isinstance(v, bytes) else v)
    if t == GUID:
        return v.hex()
    if t == C8:
        return repr(v)
    if t == F64:
        return repr(float(v))
    return str(int(v))


def same(a, b, fz=False):
    """structural identity; floats bitwise except NaN==NaN (and 0.0==-0.0 unless fz)"""
    if a.t != b.t:
        return False
    if isinstance(a, Atom):
        if not isinstance(b, Atom):
            return False
        if a.t == F64:
            return a.v == b.v or (a.v != a.v and b.v != b.v)
        return a.v == b.v
    if isinstance(a, Vec):
        if not isinstance(b, Vec) or len(a.a) != len(b.a):
            return False
        if a.t in (C8, SYM, GUID):
            return a.a == b.a
        if a.t == F64:
            return bool(np.array_equal(a.a, b.a, equal_nan=True))
        return bool(np.array_equal(a.a, b.a))
    if isinstance(a, Lst):
        return isinstance(b, Lst) and len(a.a) == len(b.a) and all(same(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Pair):
        return isinstance(b, Pair) and same(a.k, b.k) and same(a.v, b.v)
    if isinstance(a, Enm):
        return isinstance(b, Enm) and same(a.k, b.k) and same(a.v, b.v)
    if isinstance(a, Err):
        return isinstance(b, Err)
    if isinstance(a, Fn):
        return isinstance(b, Fn) and a.s == b.s
    return True


# ---------------------------------------------------------------- constructors
def i64(v): return Atom(I64, v)
def i32(v): return Atom(I32, v)
def f64(v): return Atom(F64, float(v))
def b8(v): return Atom(B8, 1 if v else 0)
def sym(s): return Atom(SYM, s.encode() if isinstance(s, str) else s)
def syms(l): return Vec(SYM, [s.encode() if isinstance(s, str) else s for s in l])
def chars(s): return Vec(C8, s.encode("latin1") if isinstance(s, str) else s)
def vec(t, l): return Vec(t, l)
def tbl(names, cols): return Pair(TABLE, syms(names), Lst(cols))
def dct(k, v): return Pair(DICT, k, v)


# ---------------------------------------------------------------- encoding for 'S'
def enc(v):
    out = []
    _enc(v, out)
    return b"".join(out)


_FMT = {B8: "<b", U8: "<B", C8: "<B", I16: "<h", I32: "<i", DATE: "<i", TIME: "<i", I64: "<q", TS: "<q", F64: "<d"}


def _enc(v, o):
    if isinstance(v, Null):
        o.append(struct.pack("<b", NULLT))
    elif isinstance(v, Atom):
        o.append(struct.pack("<b", -v.t))
        if v.t == SYM:
            if v.v is None:
                o.append(b"\xff\xff\xff\xff")
            else:
                o.append(struct.pack("<I", len(v.v)) + v.v)
        elif v.t == GUID:
            o.append(v.v)
        elif v.t == C8:
            o.append(bytes([v.v]) if isinstance(v.v, int) else v.v)
        elif v.t == F64:
            o.append(struct.pack("<d", v.v))
        else:
            o.append(struct.pack(_FMT[v.t], int(v.v)))
    elif isinstance(v, Vec):
        o.append(struct.pack("<bq", v.t, len(v.a)))
        if v.t == C8:
            o.append(v.a)
        elif v.t == GUID:
            o.extend(v.a)
        elif v.t == SYM:
            d, idx = {}, []
            for s in v.a:
                if s not in d:
                    d[s] = len(d)
                idx.append(d[s])
            o.append(struct.pack("<I", len(d)))
            for s in d:
                o.append(b"\xff\xff\xff\xff" if s is None else struct.pack("<I", len(s)) + s)
            o.append(np.array(idx, dtype="<u4").tobytes())
        else:
            o.append(v.a.tobytes())
    elif isinstance(v, Lst):
        o.append(struct.pack("<bq", LIST, len(v.a)))
        for x in v.a:
            _enc(x, o)
    elif isinstance(v, Pair):
        o.append(struct.pack("<b", v.t))
        _enc(v.k, o)
        _enc(v.v, o)
    else:
        raise TypeError(v)


class Died(Exception):
    """driver process ended while answering"""

    def __init__(self, how, stderr=""):
        Exception.__init__(self, how)
        self.how, self.stderr = how, stderr


class Hang(Exception):
    pass


class Infra(Exception):
    """not attributable to the code under test (OOM killer and the like)"""


class Driver:
    """One process of the real runtime."""

    def __init__(self, binary, cores=1, cwd=None, timeout=60, args=(), env=None):
        self.binary, self.cores, self.cwd, self.timeout = binary, cores, cwd, timeout
        self.args, self.env = list(args), env
        self.p = None
        self.n = 0

    def start(self):
        self.stop()
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        errf = os.memfd_create("stderr")
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC", "HOME": "/nonexistent",
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=2048"}
        if self.env:
            env.update(self.env)

        def pre():
            # place the pipes at 3 and 4
            a = fcntl.fcntl(r1, fcntl.F_DUPFD, 30)
            b = fcntl.fcntl(w2, fcntl.F_DUPFD, 30)
            os.dup2(a, 3)
            os.dup2(b, 4)
            os.close(a)
            os.close(b)

        dn = os.open(os.devnull, os.O_RDWR)
        self.p = subprocess.Popen([self.binary, "-c", str(self.cores)] + self.args, stdin=dn, stdout=dn, stderr=errf,
                                  preexec_fn=pre, pass_fds=(3, 4, r1, w2), cwd=self.cwd, env=env,
                                  start_new_session=True)
        os.close(dn)
        os.close(r1)
        os.close(w2)
        self.w, self.r, self.errf = w1, r2, errf
        os.set_blocking(self.r, False)
        self.names = {N64: None}
        self.n = 0

    def stop(self):
        if self.p is None:
            return
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        os.close(self.errf)
        self.p = None

    def stderr(self):
        try:
            return os.pread(self.errf, 20000, 0).decode("latin1")
        except OSError:
            return ""

    def _dead(self):
        err = self.stderr()
        try:
            rc = self.p.wait(10)
        except subprocess.TimeoutExpired:
            rc = None
        self.stop()
        if rc == -signal.SIGKILL:
            raise Infra("driver was killed (SIGKILL)")
        if rc in (93, 94, 95, 96, 97):
            raise Infra("driver protocol exit %d" % rc)
        how = "exit status %s" % rc if rc is None or rc >= 0 else "signal %s" % signal.Signals(-rc).name
        raise Died(how, err)

    def req(self, op, payload, timeout=None):
        if self.p is None:
            self.start()
        self.n += 1
        data = struct.pack("<I", len(payload) + 1) + op + payload
        mv = memoryview(data)
        try:
            while len(mv):
                mv = mv[os.write(self.w, mv):]
        except (BrokenPipeError, OSError):
            self._dead()
        end = time.monotonic() + (timeout or self.timeout)
        buf = bytearray()
        want = None
        while want is None or len(buf) < want:
            left = end - time.monotonic()
            if left <= 0:
                self.stop()
                raise Hang("no answer in %ss" % (timeout or self.timeout))
            r, _, _ = select.select([self.r], [], [], min(left, 5))
            if not r:
                continue
            try:
                c = os.read(self.r, 1 << 20)
            except BlockingIOError:
                continue
            if not c:
                self._dead()
            buf += c
            if want is None and len(buf) >= 4:
                want = 4 + struct.unpack_from("<I", buf)[0]
        return bytes(memoryview(buf)[4:want])

    # -- decoding
    def _names(self, ids):
        miss = [i for i in ids if i not in self.names]
        if miss:
            b = self.req(b"Y", struct.pack("<I", len(miss)) + struct.pack("<%dq" % len(miss), *miss))
            p = 0
            for i in miss:
                l, = struct.unpack_from("<I", b, p)
                p += 4
                if l == 0xffffffff:
                    self.names[i] = None
                else:
                    self.names[i] = b[p:p + l]
                    p += l
        return self.names

    def decode(self, b):
        v, p = self._dec(b, 0)
        if p != len(b):
            raise Infra("dump has %d trailing bytes" % (len(b) - p))
        return v

    def _dec(self, b, p):
        t, = struct.unpack_from("<b", b, p)
        p += 1
        if t == NULLT:
            return NULL, p
        if t == 120:
            return Fn(120, "C-NULL"), p
        if t == 121:
            return Fn(121, "too deep"), p
        if t == ERR:
            code, l = struct.unpack_from("<BI", b, p)
            p += 5
            nm = b[p:p + l].decode("latin1")
            p += l
            l, = struct.unpack_from("<I", b, p)
            p += 4
            return Err(code, nm, b[p:p + l].decode("latin1")), p + l
        if t < 0:
            k = -t
            if k == GUID:
                return Atom(GUID, b[p:p + 16]), p + 16
            if k in (100, 101, 102, 103):
                l, = struct.unpack_from("<I", b, p)
                return Fn(k, b[p + 4:p + 4 + l].decode("latin1")), p + 4 + l
            if k == SYM or k == ENUM:
                i, = struct.unpack_from("<q", b, p)
                if k == ENUM:
                    return Atom(ENUM, i), p + 8
                return Atom(SYM, self._names([i])[i]), p + 8
            if k not in _FMT:
                return Fn(t, ""), p
            f = _FMT[k]
            return Atom(k, struct.unpack_from(f, b, p)[0]), p + struct.calcsize(f)
        if t in (TABLE, DICT, ENUM):
            k, p = self._dec(b, p)
            v, p = self._dec(b, p)
            return (Enm(k, v) if t == ENUM else Pair(t, k, v)), p
        if t == MAPLIST:
            v, p = self._dec(b, p)
            if isinstance(v, Lst):
                v.t = MAPLIST
            return v, p
        if t == LIST or PARTED <= t < TABLE or t in (71, 72, 74):
            n, = struct.unpack_from("<q", b, p)
            p += 8
            l = []
            for _ in range(n):
                x, p = self._dec(b, p)
                l.append(x)
            return Lst(l, t), p
        if t in (100, 101, 102, 103):
            l, = struct.unpack_from("<I", b, p)
            return Fn(t, b[p + 4:p + 4 + l].decode("latin1")), p + 4 + l
        if t in DT or t in (SYM, GUID, C8):
            n, = struct.unpack_from("<q", b, p)
            p += 8
            if t == C8:
                return Vec(C8, b[p:p + n]), p + n
            if t == GUID:
                return Vec(GUID, [b[p + 16 * i:p + 16 * i + 16] for i in range(n)]), p + 16 * n
            if t == SYM:
                a = np.frombuffer(b, "<i8", n, p)
                if n > 64:
                    u = np.unique(a)
                    nm = self._names([int(x) for x in u])
                    return Vec(SYM, [nm[x] for x in a.tolist()]), p + 8 * n
                l = a.tolist()
                nm = self._names(l)
                return Vec(SYM, [nm[x] for x in l]), p + 8 * n
            d = DT[t]
            return Vec(t, np.frombuffer(b, d, n, p)), p + d.itemsize * n
        return Fn(t, "?"), p

    def eval(self, src, timeout=None):
        return self.decode(self.req(b"E", src.encode("latin1") if isinstance(src, str) else src, timeout))

    def evaln(self, src, timeout=None):
        return self.decode(self.req(b"G", src.encode("latin1") if isinstance(src, str) else src, timeout))

    def fmt(self, src, timeout=None):
        v = self.decode(self.req(b"F", src.encode("latin1") if isinstance(src, str) else src, timeout))
        return v.a if isinstance(v, Vec) and v.t == C8 else v

    def parse(self, src, timeout=None):
        return self.decode(self.req(b"P", src.encode("latin1") if isinstance(src, str) else src, timeout))

    def parsex(self, src, junk=b"", timeout=None):
        """(what the text parses to, its printed form); the text lies in a block of its own size + junk"""
        b = self.req(b"Q", struct.pack("<I", len(src)) + src + junk, timeout)
        v, p = self._dec(b, 0)
        f, q = self._dec(b, p)
        return v, (f.a if isinstance(f, Vec) and f.t == C8 else f)

    def set(self, name, v, timeout=None):
        n = name.encode()
        r = self.decode(self.req(b"S", struct.pack("<H", len(n)) + n + enc(v), timeout))
        if isinstance(r, Err):
            raise Infra("cannot bind %s: %r" % (name, r))

    def serve(self):
        """the process becomes a server; its port"""
        return struct.unpack("<I", self.req(b"W", b"")[:4])[0]

    def clock(self, ms, run=False):
        """the clock stands at ms (0: it runs); with run, due timers are called and the ms to the next one come back"""
        return struct.unpack("<q", self.req(b"T", struct.pack("<Bq", 1 if run else 0, ms))[:8])[0]

    def heap(self, ops, runs=1, timeout=None):
        """allocator program (op, slot, size)...: (message or None, bytes the heap has after each run)"""
        b = self.req(b"H", struct.pack("<II", runs, len(ops)) + b"".join(struct.pack("<BHq", *o) for o in ops), timeout)
        n = struct.unpack_from("<I", b, 1)[0]
        k = struct.unpack_from("<I", b, 5 + n)[0]
        return (b[5:5 + n].decode() if b[0] else None), list(struct.unpack_from("<%dq" % k, b, 9 + n))

    def live(self, src, n, timeout=None):
        s = src.encode("latin1") if isinstance(src, str) else src
        return struct.unpack("<q", self.req(b"L", struct.pack("<I", n) + s, timeout))[0]
