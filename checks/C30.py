import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
from gen import *
import build, calls, console, random, re, subprocess, threading

PROMPT, CONT = "❯ ".encode(), "… ".encode()
KEYS = {"left": b"\x1b[D", "right": b"\x1b[C", "home": b"\x1b[H", "home1": b"\x1b[1~", "end": b"\x1b[F", "end4": b"\x1b[4~", "del": b"\x1b[3~", "up": b"\x1b[A", "down": b"\x1b[B", "wordl": b"\x1bb", "wordr": b"\x1bf",
        "^A": b"\x01", "^B": b"\x02", "^D": b"\x04", "^E": b"\x05", "^F": b"\x06", "^K": b"\x0b", "^U": b"\x15", "^C": b"\x03", "^W": b"\x17", "bs": b"\x7f", "bs8": b"\x08",
        "?f5": b"\x1b[15~", "?cr": b"\x1b[1;5C", "?st": b"\x1b[Z", "?f1": b"\x1bOP", "?x": b"\x1bx", "?ins": b"\x1b[2~"}
VOLATILE = re.compile(r"rand|guid|exit|time|date|memstat|sysinfo|internals|env|args|os-|gc|hopen|heap|meta|show|print")
STRIP = re.compile(rb"\x1b\[\?25l.*?\x1b\[\?25h", re.S)


def alnum(c):
    return c.isascii() and c.isalnum()


def closers(text):
    """what is missing at the end: None if nothing can be, else the closing text ('' when complete)"""
    st, q, i = [], False, 0
    while i < len(text):
        c = text[i]
        if c == "\\":
            i += 2
            continue
        if c == '"':
            q = not q
        elif q:
            pass
        elif c == ";":
            while i + 1 < len(text) and text[i + 1] != "\n":
                i += 1
        elif c in "([{":
            st.append({"(": ")", "[": "]", "{": "}"}[c])
        elif c in ")]}":
            if not st or st[-1] != c:
                return ""
            st.pop()
        i += 1
    return ('"' if q else "") + "".join(reversed(st))


class Line:
    """the console: the line being typed, the entries so far"""

    def __init__(self, hist):
        self.buf, self.pos, self.multi = "", 0, ""
        self.hist, self.at, self.saved = hist, len(hist), None
        self.done = []          # per Enter: text to evaluate, "" nothing, None to be continued

    def reset(self):
        self.at, self.saved = len(self.hist), None

    def type(self, t):
        for c in t:
            if len(self.buf) + 1 < 4096:
                self.buf = self.buf[:self.pos] + c + self.buf[self.pos:]
                self.pos += 1

    def key(self, k):
        b, p = self.buf, self.pos
        if k in ("left", "^B"):
            self.pos = max(0, p - 1)
        elif k in ("right", "^F"):
            self.pos = min(len(b), p + 1)
        elif k in ("home", "home1", "^A"):
            self.pos = 0
        elif k in ("end", "end4", "^E"):
            self.pos = len(b)
        elif k in ("del", "^D"):
            self.buf = b[:p] + b[p + 1:]
        elif k == "^K":
            self.buf = b[:p]
        elif k in ("^U", "^C"):
            self.buf, self.pos = "", 0
            self.reset()
        elif k == "^W":
            while p and alnum(b[p - 1]):
                p -= 1
            self.buf, self.pos = b[:p] + b[self.pos:], p
        elif k in ("bs", "bs8"):
            if p:
                self.buf, self.pos = b[:p - 1] + b[p:], p - 1
        elif k == "wordl":
            if p:
                p -= 1
                while p and alnum(b[p - 1]):
                    p -= 1
                self.pos = p
        elif k == "wordr":
            if p < len(b):
                p += 1
                while p < len(b) and alnum(b[p]):
                    p += 1
                self.pos = p
        elif k == "up":
            if self.saved is None:
                self.saved = b
            if self.at > 0:
                self.at -= 1
                self.buf = self.hist[self.at]
                self.pos = len(self.buf)
        elif k == "down":
            if self.at + 1 < len(self.hist):
                self.at += 1
                self.buf = self.hist[self.at]
            elif self.at < len(self.hist) or self.saved is not None:
                self.at = len(self.hist)
                if self.saved is not None:
                    self.buf, self.saved = self.saved, None
            else:
                return
            self.pos = len(self.buf)

    def enter(self):
        b = self.buf
        self.buf, self.pos = "", 0
        if not b and not self.multi:
            self.done.append("")
            self.reset()
            return
        t = self.multi + b
        if closers(t):
            self.multi = t + "\n"
            self.done.append(None)
        else:
            self.done.append(t)
            for l in t.split("\n"):
                if not self.hist or self.hist[-1] != l or "\n" in t:
                    self.hist.append(l)
            self.multi = ""
        self.reset()


def line_text(s, g):
    k = s.draw(10)
    if k < 4:
        return g.expr(2)
    if k < 6:
        return "(+ %d %d)" % (s.int(0, 99), s.int(0, 9))
    if k == 6:
        return '(concat "a%d ; (" "b\\" %d")' % (s.draw(9), s.draw(9))
    if k == 7:
        return "(set k%d [%d %d])" % (s.draw(4), s.draw(9), s.draw(9))
    if k == 8:
        return s.choice(["(list 1 2) ; note (", "cnt", "'sym", "(list 'a-b {x: 1})", "(nosuch 1)", "(raise \"oops\")", "(sum (til 10))", "(+ 1 (* 2 3)))", "[1 2 3]"])
    return "(set cnt (+ cnt %d))" % s.draw(9)


class Edit(Prop):
    """what is evaluated and remembered is the text as edited"""
    name, quick, thorough, flavours = "edit", 700, 16000, ("rel",)

    def gen(self, s):
        g = calls.Gen(s, 2)
        ss = []
        wide = s.draw(4) == 0       # characters of several bytes: the cursor is only moved over a whole line then
        for _ in range(s.weighted([(3, 1), (1, 2)])):
            ops = []
            for _ in range(s.int(1, 8)):
                t = line_text(s, g)
                if not all(32 <= ord(c) < 127 for c in t) or len(t) > 300 or VOLATILE.search(t) or "'" in t and re.search(r"'.'|'\\", t):
                    t = "(+ 1 1)"
                m = s.draw(7 if wide else 8)
                if wide and s.draw(3):
                    u = [s.choice("\u00e9\u00df\u20ac\u65e5\u672c\U0001f600\U0001f680a1 \u0416") for _ in range(s.int(1, 6))]
                    i = s.int(0, len(u))
                    t = '(concat "%s" "%d")' % ("".join(u), s.draw(9))
                    k = 9 + i
                    w = [s.choice("\u00e9\u20ac\u65e5\U0001f600\U00010348z") for _ in range(s.int(0, 4))]
                    ed = ["".join(w)] * bool(w) + [s.choice(["bs", "bs8"])] * len(w)
                    if s.draw(2):
                        ops += [t[:k]] + ed + [t[k:]]
                    else:
                        ops += [t[k:], s.choice(["^A", "home"]), t[:k]] + ed
                elif m < 2:
                    ops.append(t)
                elif m == 2:
                    i = s.int(0, len(t))
                    ops += [t[i:], s.choice(["^A", "home", "home1"]), None, t[:i], None]
                elif m == 3:
                    i, w = s.int(0, len(t)), s.choice(["ab1", "x", "(((", "))", "\"", "'"])
                    ops += [t[:i] + w] + [s.choice(["bs", "bs8"])] * len(w) + [None, t[i:]]
                elif m == 4:
                    i, w = s.int(0, len(t)), s.choice(["zz", "q", "(", ")\""])
                    ops += [t[:i] + w + t[i:]] + [s.choice(["left", "^B"])] * len(t[i:]) + ["bs"] * len(w)
                elif m == 5:
                    i, w = s.int(0, len(t)), s.choice(["zz", "q", "(", ")\""])
                    ops += [t[:i] + w + t[i:], s.choice(["^A", "home"])] + [s.choice(["right", "^F"])] * i + [s.choice(["del", "^D"])] * len(w)
                elif m == 6:
                    # over several lines
                    i = s.int(0, len(t))
                    ops += [t[:i], "enter", t[i:]]
                else:
                    for _ in range(s.int(1, 12)):
                        ops.append(s.weighted([(8, s.choice(sorted(KEYS))), (3, s.choice(["foo-bar", "a1", "(", ")", "[1 2]", "\"", " ", "(+ 1 ", "x "])), (4, s.choice(["up", "down"]))]))
                    if s.draw(2):
                        ops += ["^U", t]
                for _ in range(s.weighted([(6, 0), (2, 1), (1, 3)])):
                    ops.append(s.choice(["?f5", "?cr", "?st", "?f1", "?x", "?ins", "up", "down", "left", "end", "home"]))
                ops.append("enter")
            ss.append([o for o in ops if o is not None])
        return {"ss": ss, "code": s.draw(4), "w": s.choice([80, 80, 20, 7])}

    def run(self, c, env):
        dr = env.fresh_dir()
        d = env.driver("rel")
        hist, labels = [], set()
        for sess in c["ss"]:
            m = Line(hist)
            data = bytearray()
            for o in sess + ["fin"]:
                if o == "enter":
                    m.enter()
                    data += b"\n"
                elif o == "fin":
                    # complete what is open
                    data += KEYS["^U"]
                    m.key("^U")
                    t = closers(m.multi) if m.multi else ""
                    if t:
                        m.type(t)
                        m.enter()
                        data += t.encode() + b"\n"
                elif o in KEYS:
                    if o == "^D" and not m.buf:
                        continue        # ends the program
                    if o in ("up", "down") and "" in m.hist:
                        continue
                    if o == "down" and m.at < len(m.hist) and m.at + 1 == len(m.hist) and m.saved is None:
                        continue
                    if o == "^W" and not (m.pos and alnum(m.buf[m.pos - 1])):
                        pass
                    m.key(o)
                    data += KEYS[o]
                    labels.add(o)
                else:
                    if not m.buf and o.startswith(":"):
                        continue
                    m.type(o)
                    data += o.encode()
                if len(m.multi) + len(m.buf) > 3000:
                    raise Skip("long")
            for t in m.done:
                if t and (t.startswith(":") or VOLATILE.search(t)):
                    raise Skip("command")
            data += b":q %d\n" % c["code"]
            con = console.Console(build.main_binary(), dr, ["-c", "1"], c["w"])
            try:
                try:
                    if not con.pump(lambda o: PROMPT in o, limit=30):
                        raise Fail("no prompt: %r" % con.out)
                    n = len(con.out)
                    if not con.pump(lambda o: False, bytes(data), 30):
                        raise Fail("the console does not end after :q; it wrote %r" % console.plain(STRIP.sub(b"", con.out[n:])).decode("utf8", "replace"))
                except console.Gone:
                    pass
                code = con.wait(20)
            finally:
                con.close()
            if code != c["code"]:
                raise Fail("the console ends with %r after :q %d" % (code, c["code"]))
            out = console.plain(STRIP.sub(b"", con.out[n:])).decode("utf8", "replace")
            got = [x for x in re.split("❯ |… ", out)]
            got = [x[1:] for x in got if x.startswith("\n")]
            h = open(dr + "/.rayhist.dat", "rb").read().rstrip(b"\0").decode("utf8", "replace")
            if h != "".join(x + "\n" for x in hist):
                raise Fail("the history is %r, typed were %r" % (h, hist))
            env.reset()
            d = env.driver("rel")
            k = 0
            for t in m.done:
                if k >= len(got):
                    raise Fail("nothing was written for %r" % t)
                g = got[k]
                k += 1
                if not t:
                    if g:
                        raise Fail("%r was written where nothing was to evaluate" % g)
                    continue
                v = d.eval(t.encode())
                if isinstance(v, Err):
                    if "Error" not in g or (v.name and isinstance(v.name, str) and v.name not in g):
                        raise Fail("%r wrote %r, it gives %r" % (t, g, v))
                elif isinstance(v, Fn):
                    if "Error" in g:
                        raise Fail("%r wrote %r" % (t, g))
                else:
                    f = "" if v is NULL or same(v, NULL) else d.fmt(t.encode()) if "set " not in t else None
                    if f is None:
                        continue
                    f = console.plain(bytes(f).replace(b"\n", b"\r\n") if not isinstance(f, str) else f.encode()).decode("utf8", "replace")
                    if g.rstrip("\n") != f.rstrip("\n"):
                        raise Fail("%r wrote %r, it gives %r" % (t, g, f))
                    labels.add("value")
        return sorted(labels)

    def nontrivial(self, c, labels):
        return len([l for l in labels if l in KEYS]) >= 2

    def describe(self, c):
        return repr(c)


class Noise(Prop):
    """any keys: the console stays usable"""
    name, quick, thorough, flavours = "noise", 300, 8000, ("rel",)

    def gen(self, s):
        ops = []
        for _ in range(s.int(3, 60)):
            ops.append(s.weighted([(6, s.choice(sorted(KEYS.values()))), (5, b"\t"), (6, s.choice([b"s", b"se", b"con", b"(", b"[", b"{", b")", b"]", b"\"", b"\"./", b"\"/tm", b"x", b" ", b"fi", b"'", b"\\", b":", b";", b"-", b"tab.", b"t0"])),
                                   (2, s.choice([b"\n", b"\n", b"\x0e", b"\x10", "é".encode(), "🚀x".encode(), "…".encode(), b"\xff", b"\x80", b"\0", b"\x1b", b"\x1b[", b"\x1b[1;", b"\x1b[999999999999~", b"\r", b"\x07", b"\x1a"])),
                                   (1, s.choice([b"(set t0 (table [abcol xyzcol] (list [1 2] [a b])))\n", b"(set longname 1)\n", b"[" * 50, b"a" * 200, b":t 1\n", b":t\n", b":?\n", b"(1 2\n3)\n", b"\"" + b"y" * 130 + b"\t"]))]))
        return {"ops": ops, "w": s.choice([80, 10, 1, 200]), "hist": s.choice([None] * 3 + [b"(+ 1 2)\nabc\n", b"no newline", b"\n\n\n", b"".join(b"(+ %d 1)\n" % i for i in range(1500))])}

    def run(self, c, env):
        dr = env.fresh_dir()
        for i in range(3):
            open(dr + "/file%d.txt" % i, "w").close()
        if c["hist"] is not None:
            with open(dr + "/.rayhist.dat", "wb") as f:
                f.write(c["hist"])
        con = console.Console(build.main_binary(), dr, ["-c", "1"], c["w"])
        try:
            if not con.pump(lambda o: PROMPT in o, limit=30):
                raise Fail("no prompt: %r" % con.out)
            data = b"".join(o for o in c["ops"] if o != b"\x04")
            try:
                con.pump(lambda o: True, data, 60)
                # leave whatever is open: end the sequence, drop the line, close what may be open
                con.pump(lambda o: True, b"~~\x15", 30)
                for t in (b"\"\n", b")\n", b"]\n", b"}\n", b"\n"):
                    con.pump(lambda o: True, b"\x15" + t, 30)
                for _ in range(40):
                    n = len(con.out)
                    con.pump(lambda o: True, b"\x15(sum (til 8))\n", 30)
                    if con.pump(lambda o: re.search(rb"\n28\n", console.plain(STRIP.sub(b"", o[n:]))) is not None, b"", 1.5):
                        break
                    for t in (b"\"\n", b")\n", b"]\n", b"}\n"):
                        con.pump(lambda o: True, b"\x15" + t, 30)
                else:
                    raise Fail("the console does not evaluate any more: %r" % console.plain(STRIP.sub(b"", con.out[-2000:])))
                con.pump(lambda o: False, b"\x15:q 3\n", 20)
            except console.Gone:
                pass
            code = con.wait(20)
            if code != 3:
                raise Fail("the console ends with %r" % code)
        finally:
            con.close()
        return ["tab"] if b"\t" in data else []

    def nontrivial(self, c, labels):
        return "tab" in labels

    def describe(self, c):
        return repr(c)


class Piped(Prop):
    """input from a pipe is the script it is, in whatever pieces it arrives"""
    name, quick, thorough, flavours = "piped", 300, 8000, ("rel",)

    def gen(self, s):
        st = []
        for i in range(s.size(60, 6)):
            st.append(s.weighted([(5, "(println \"%%\" (+ %d %d))" % (s.draw(100), s.draw(9))), (3, "(set x%d (til %d))" % (s.draw(3), s.draw(9))), (2, "(println \"%%\" \"a ; (%s\")" % ("y" * s.draw(300))),
                                  (2, "(println \"%%\" (sum (list %s)))" % " ".join(map(str, range(s.draw(400))))), (1, "; comment \" (" + "z" * s.draw(200) + "\n"), (1, "(do (set y 1)\n(println \"% %\" y\n'b))")]))
        bad = s.weighted([(6, None), (1, "(raise \"stop\")"), (1, "(nosuch 1)"), (1, "("), (1, "\"open")])
        if bad:
            st.insert(s.int(0, len(st)), bad)
        text = "".join(x + s.choice(["\n", " ", "\n\n"]) for x in st)
        cuts = sorted(s.int(0, len(text)) for _ in range(s.draw(4)))
        return {"text": text, "cuts": cuts}

    def run(self, c, env):
        dr = env.fresh_dir()
        b = c["text"].encode()
        with open(dr + "/s.rfl", "wb") as f:
            f.write(b)
        e = [build.main_binary(), "-c", "1"]
        w = subprocess.run(e + ["s.rfl"], cwd=dr, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        p = subprocess.Popen(e, cwd=dr, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = []
        th = threading.Thread(target=lambda: out.append(p.stdout.read()))
        th.start()
        try:
            last = 0
            for x in c["cuts"] + [len(b)]:
                try:
                    p.stdin.write(b[last:x])
                    p.stdin.flush()
                except BrokenPipeError:
                    pass
                last = x
                if x < len(b):
                    import time
                    time.sleep(0.004)
            try:
                p.stdin.close()
            except BrokenPipeError:
                pass
            try:
                p.wait(60)
            except subprocess.TimeoutExpired:
                raise Fail("the program does not end")
        finally:
            if p.poll() is None:
                p.kill()
            th.join()
        # the report of an error names the source: only what was written before it counts
        a, g = (console.plain(x).decode("utf8", "replace") for x in (w.stdout, out[0]))
        bad = "× Error" in a
        if bad and ("× Error" not in g):
            raise Fail("as a file the script reports %r, piped it writes %r" % (a[-300:], g[-300:]))
        a, g = a.split("× Error")[0].rstrip(), g.split("× Error")[0].rstrip()
        if a != g:
            i = next((i for i in range(min(len(a), len(g))) if a[i] != g[i]), min(len(a), len(g)))
            raise Fail("as a file the script writes ...%r, piped ...%r" % (a[max(0, i - 20):i + 60], g[max(0, i - 20):i + 60]))
        if p.returncode != w.returncode:
            raise Fail("as a file the script ends with %d, piped with %d" % (w.returncode, p.returncode))
        return ["error" if bad else "fine", "long" if len(b) > 4096 else "short"]

    def nontrivial(self, c, labels):
        return len(c["text"]) > 100

    def describe(self, c):
        return repr(c["text"][:300]) + " cut at %r" % c["cuts"]


if __name__ == "__main__":
    run_check("C30", [Edit(), Noise(), Piped()], rule="the session uses two kinds of editing keys; the noise asks for completions; the piped script has over 100 bytes", assumptions=["keys are ASCII in the edited lines"])
