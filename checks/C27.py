import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
from rf import *
import build, ipc, time
import numpy as np

NV = 64


class Timers(Prop):
    """programs of timers under a clock that stands still between steps, against a model of what is due when"""
    name = "timers"
    quick, thorough = 6000, 120000
    flavours = ("rel", "asan")

    def gen(self, s):
        ops, made = [], []
        many = s.draw(8) == 7
        fire = 0
        for _ in range(s.int(20, 50) if many else s.int(2, 16)):
            k = s.weighted([(6 if many else 4, "add"), (2, "del"), (3, "step")])
            if k == "add" and len(made) < NV // 2:
                tag = len(made)
                num = s.choice([1, 1, 2, 3, 7, 0, 0])
                tic = s.choice([5, 6, 7, 10, 11, 15, 20, 30, 50, 100, 250]) if s.draw(3) else s.int(1, 120)
                if num and s.draw(12) == 11:
                    tic = 0
                does = s.weighted([(8, "log"), (2, "self"), (3, "del"), (2, "add"), (1, "raise")])
                arg = None
                if does == "self":
                    arg = s.int(1, 3)
                elif does == "del":
                    arg = s.draw(tag + 1)
                elif does == "add":
                    num = 1
                    arg = (s.int(0, 40), s.choice([1, 1, 2, 0]))
                    if arg[1] == 0:
                        arg = (max(arg[0], 5), 0)
                ops.append(("add", tag, tic, num, does, arg))
                made.append(tag)
            elif k == "del":
                if made and s.draw(6):
                    ops.append(("del", s.choice(made)))
                else:
                    ops.append(("junk", s.choice([-1, 1 << 40, -5, 10 ** 9])))
            else:
                ops.append(("step", s.choice([0, 1, 4, 5, 9, 10, 11, 25, 50, 99, 200])))
        ops.append(("step", s.int(0, 100)))
        return dict(ops=ops, asan=s.draw(3) == 2)

    def source(self, o):
        _, tag, tic, num, does, arg = o
        body = "(set tlog (concat tlog [%d]))" % tag
        body += " (set tlog (concat tlog t))"
        if does == "self":
            body += " (set tcnt%d (+ tcnt%d 1)) (if (== tcnt%d %d) (timer tid%d))" % (tag, tag, tag, arg, tag)
        elif does == "del":
            body += " (timer tid%d)" % arg
        elif does == "add":
            body += " (set tid%d (timer %d %d (fn [t] (do (set tlog (concat tlog [%d])) (set tlog (concat tlog t))))))" % (tag + NV // 2, arg[0], arg[1], tag + NV // 2)
        elif does == "raise":
            body += " (raise \"x\")"
        return "(do (set tcnt%d 0) (set tid%d (timer %d %d (fn [t] (do %s)))))" % (tag, tag, tic, num, body)

    def once(self, d, c):
        now = 10 ** 12
        d.clock(now)
        d.eval("(set tlog [])")
        ids = {}     # tag -> id it was given
        alive = {}   # tag -> [exp, tic, left (0: without end), does, arg, calls]
        calls = n = 0
        nd = 0
        for o in c["ops"]:
            if o[0] == "add":
                r = d.eval(self.source(o))
                if not isinstance(r, Atom) or r.t != I64:
                    raise Fail("%s gives %r" % (self.source(o), r))
                for t in alive:
                    if ids.get(t) == r.v:
                        raise Fail("timer %d has the same id %d as timer %d, which is still there" % (o[1], r.v, t))
                ids[o[1]] = r.v
                alive[o[1]] = [now + o[2], o[2], o[3], o[4], o[5], 0]
            elif o[0] == "del":
                if o[1] in ids:
                    r = d.eval("(timer tid%d)" % o[1])
                    if isinstance(r, Err):
                        raise Fail("removing a timer gives %r" % r)
                    nd += alive.pop(o[1], None) is not None
            elif o[0] == "junk":
                r = d.eval("(timer %d)" % o[1])
                if isinstance(r, Err):
                    raise Fail("removing a timer gives %r" % r)
            else:
                now += o[1]
                w = d.clock(now, True)
                log = d.eval("tlog")
                d.eval("(set tlog [])")
                a = [int(x) for x in log.a]
                if len(a) % 2 or any(t != now for t in a[1::2]):
                    raise Fail("at %d the calls with their times are %r" % (now, a))
                for tag in a[::2]:
                    if tag not in alive:
                        raise Fail("timer %d is called at %d, but there is no such timer any more" % (tag, now - 10 ** 12))
                    t = alive.pop(tag)
                    if t[0] > now:
                        raise Fail("timer %d is called at %d, it is due at %d" % (tag, now - 10 ** 12, t[0] - 10 ** 12))
                    for q, x in alive.items():
                        if x[0] < t[0]:
                            raise Fail("timer %d which was due at %d is called before timer %d which was due at %d" % (tag, t[0] - 10 ** 12, q, x[0] - 10 ** 12))
                    t[5] += 1
                    calls += 1
                    gone = t[2] == 1
                    if t[3] == "self" and t[5] == t[4]:
                        gone = True
                    elif t[3] == "del":
                        if t[4] == tag:
                            gone = True
                        else:
                            alive.pop(t[4], None)
                    elif t[3] == "add":
                        k = tag + NV // 2
                        alive[k] = [now + t[4][0], t[4][0], t[4][1], "log", None, 0]
                        ids[k] = None
                    if not gone:
                        if t[2]:
                            t[2] -= 1
                        t[0] += t[1]
                        alive[tag] = t
                due = [t for t, x in alive.items() if x[0] <= now]
                if due:
                    raise Fail("at %d timer %d is due (since %d) and was not called" % (now - 10 ** 12, due[0], alive[due[0]][0] - 10 ** 12))
                x = min([x[0] for x in alive.values()]) - now if alive else -1
                if w != x:
                    raise Fail("at %d the next timer is due in %d ms, the wait is %d" % (now - 10 ** 12, x, w))
            n = max(n, len(alive))
        for t in list(alive):
            d.eval("(timer tid%d)" % t)
        w = d.clock(now + 10 ** 6, True)
        log = d.eval("tlog")
        if w != -1 or len(log.a):
            raise Fail("all timers are removed: the wait is %d, called were %r" % (w, log))
        d.clock(0)
        return calls, n, nd

    def run(self, c, env):
        d = env.driver("asan" if c["asan"] else "rel")
        pre = "(do (set tlog []) %s 0)" % " ".join("(set tid%d 0) (set tcnt%d 0)" % (i, i) for i in range(NV))
        d.eval(pre)
        r = self.once(d, c)
        if not c["asan"]:
            a = d.live(pre, 1)
            self.once(d, c)
            b = d.live(pre, 1)
            if a != b:
                raise Fail("the same timers again keep %d bytes" % (b - a))
        return dict(calls=min(r[0], 9), alive=min(r[1], 20), removed=min(r[2], 3))

    def nontrivial(self, c, labels):
        return labels["calls"] > 1 and labels["alive"] > 1

    def describe(self, c):
        return "; ".join(" ".join(map(str, o)) for o in c["ops"])


class Loop(Prop):
    """timers of a serving process, with its clock: all calls are made, none too early, between messages"""
    name = "loop"
    quick, thorough = 60, 800
    flavours = ("rel",)

    def gen(self, s):
        ts = [(s.choice([3, 5, 8, 13, 20, 35]), s.choice([1, 2, 3, 5, 0])) for _ in range(s.int(1, 4))]
        return dict(ts=ts, quiet=s.draw(2))

    def run(self, c, env):
        ref = env.driver("rel")
        d = Driver(build.driver("rel"), cwd=env.fresh_dir())
        r = None
        try:
            r = ipc.Raw(d.serve())

            def ask(x):
                ref.set("qm", Vec(C8, x.encode()))
                r.send(ipc.header(ref.eval("(ser qm)").a.tobytes(), ipc.SYNC))
                mt, b = r.msg()
                ref.set("qb", Vec(U8, np.frombuffer(b, dtype="uint8")))
                return ref.eval("(de qb)")
            ask("(set tlog [])")
            start = []
            for i, (tic, num) in enumerate(c["ts"]):
                start.append(int(time.time() * 1000) - 2)
                x = ask("(set tid%d (timer %d %d (fn [t] (set tlog (concat tlog (concat %d t))))))" % (i, tic, num, i))
                if isinstance(x, Err):
                    raise Fail("making a timer gives %r" % x)
            total = max(t * (n or 2) for t, n in c["ts"])
            if c["quiet"]:
                time.sleep(total / 1000.0 + 0.03)
            end = time.time() + 30
            while True:
                a = [int(x) for x in ask("tlog").a]
                n = [a[::2].count(i) for i in range(len(c["ts"]))]
                if all(k >= (m or 2) for k, (t, m) in zip(n, c["ts"])):
                    break
                if time.time() > end:
                    raise Fail("after 30 s the timers (ms, count) %r were called %r times" % (c["ts"], n))
                time.sleep(0.005)
            for i, (t, m) in enumerate(c["ts"]):
                if m == 0:
                    ask("(timer tid%d)" % i)
            a = [int(x) for x in ask("tlog").a]
            time.sleep(0.04)
            b = [int(x) for x in ask("tlog").a]
            if a != b:
                raise Fail("calls after all timers ended or were removed: %r" % b[len(a):])
            for i, (t, m) in enumerate(c["ts"]):
                at = [x for k, x in zip(a[::2], a[1::2]) if k == i]
                if m and len(at) != m:
                    raise Fail("timer of %d calls was called %d times" % (m, len(at)))
                for k, x in enumerate(at):
                    if x < start[i] + t * (k + 1):
                        raise Fail("call %d of the timer of %d ms is made after %d ms" % (k + 1, t, x - start[i]))
        except ipc.Gone as e:
            raise Fail("the server ends the connection: %s" % e)
        finally:
            if r:
                r.close()
            d.stop()
        return dict(n=len(c["ts"]))

    def nontrivial(self, c, labels):
        return labels["n"] > 1

    def describe(self, c):
        return "timers (ms, count) %r" % (c["ts"],)


if __name__ == "__main__":
    sys.exit(run_check("C27", [Timers(), Loop()], rule="several timers exist at once and at least two calls were made", assumptions=[]))
