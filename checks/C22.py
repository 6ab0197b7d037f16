import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *

ALLOC, REALLOC, FREE, GC, START, ON, MERGE, ACCT, DROP, CHURN = range(1, 11)
OPN = {ALLOC: "alloc", REALLOC: "realloc", FREE: "free", GC: "gc", START: "start", ON: "on", MERGE: "merge", ACCT: "account", DROP: "dropall", CHURN: "churn"}


def size(s, top=19):
    k = s.draw(10)
    if k < 4:
        return s.int(1, 600)
    if k < 8:
        o = s.int(5, top)
        return max(1, (1 << o) - 16 + s.choice([0, -1, 1, -8, 8, 16, -17, 17]))
    return s.int(1, 1 << s.int(6, top))


class Gen:
    """programs of allocator operations; the live slots are tracked so that most operations hit something"""

    def __init__(self, s):
        self.s, self.ops, self.live, self.nx = s, [], [], 0
        self.out, self.on, self.big = set(), 0, 0

    def op(self, o, slot=0, n=0):
        self.ops.append((o, slot, n))

    def pick(self):
        s = self.s
        k = s.draw(4)
        return s.draw(len(self.live)) if k else (len(self.live) - 1 if s.draw(2) else 0)

    def size(self):
        s = self.s
        if self.big < 6 and s.draw(40) == 39:
            self.big += 1
            return s.choice([1 << 20, 3 << 20, (1 << 24) - 16, 1 << 24, (1 << 25) - 16, (1 << 25) - 15, 40 << 20, (1 << 26) - 16, 5 << 20])
        return size(s)

    def alloc(self, n=None):
        self.op(ALLOC, self.nx, n if n is not None else self.size())
        self.live.append(self.nx)
        self.nx += 1

    def step(self, workers):
        s = self.s
        k = s.weighted([(w, i) for i, w in enumerate([30, 22, 14, 3, 3, 3, 8 if workers else 0, 0 if self.out else 1, 2]) if w])
        if self.nx > 3900:
            return
        if k == 0 or not self.live:
            self.alloc()
        elif k == 1:
            i = self.pick()
            self.op(FREE, self.live.pop(i))
        elif k == 2:
            self.op(REALLOC, self.live[self.pick()], self.size())
        elif k == 3:
            if not self.on:
                self.op(GC)
        elif k == 4:   # several of one size
            n = self.size()
            if n < 1 << 18:
                for _ in range(s.choice([2, 3, 10, 66, 70, 130])):
                    self.alloc(n)
        elif k == 5 and len(self.live) > 3:   # many back, in one order or the other
            m = s.int(2, len(self.live))
            l = self.live[-m:] if s.draw(2) else self.live[:m]
            k = s.draw(3)
            self.live = [x for x in self.live if x not in set(l)]
            if k == 0:
                l = l[::-1]
            elif k == 1:
                l = l[::2] + l[1::2]
            for x in l:
                self.op(FREE, x)
        elif k == 6:
            j = s.draw(4)
            free = [w for w in (1, 2, 3) if w not in self.out]
            if j == 0 and free and not self.on:
                w = s.choice(free)
                self.out.add(w)
                self.op(START, w)
                self.op(ON, w)
                self.on = w
            elif j == 1 and self.out:
                w = s.choice(sorted(self.out))
                self.op(MERGE, w)
                self.out.discard(w)
                self.on = 0
            elif self.out:
                self.on = s.choice([0] + sorted(self.out))
                self.op(ON, self.on)
        elif k == 7:
            self.op(ACCT)
        elif k == 8:
            self.op(CHURN, s.choice([1, 2, 63, 64, 65, 100, 200]), size(s, 12))

    def done(self):
        for w in sorted(self.out):
            self.op(MERGE, w)
        self.out, self.on = set(), 0
        self.op(ACCT)
        if self.s.draw(2):
            self.op(DROP)
            self.op(ACCT)


def text(ops):
    return "; ".join("%s %s%s" % (OPN[o], ("#%d" % sl) if o in (ALLOC, REALLOC, FREE) else sl if o in (START, ON, MERGE, CHURN) else "", " %d" % n if n else "") for o, sl, n in ops)


class Blocks(Prop):
    """a block keeps what was written to it until it is given back, no two blocks overlap, and what is in use is exactly the live blocks"""
    name = "blocks"
    quick, thorough = 8000, 300000
    workers, runs = False, 1

    def gen(self, s):
        g = Gen(s)
        for _ in range(8 + s.size(80, 20)):
            g.step(self.workers)
        g.done()
        return dict(ops=g.ops, runs=self.runs)

    def run(self, c, env):
        d = env.driver("rel")
        msg, sizes = d.heap([tuple(o) for o in c["ops"]], c["runs"])
        if msg:
            d.stop()
            raise Fail(msg)
        labels = {OPN[o] for o, _, _ in c["ops"]}
        if any(n > 1 << 20 for _, _, n in c["ops"]):
            labels.add("big")
        self.sizes(c, sizes)
        return labels

    def sizes(self, c, sizes):
        pass

    def nontrivial(self, c, labels):
        return len(c["ops"]) >= 8 and "free" in labels | {"free"} and {"alloc", "realloc"} <= labels

    def describe(self, c):
        return text(c["ops"])


class Workers(Blocks):
    """the same with blocks that move between the heaps of the main thread and of its workers"""
    name = "workers"
    quick, thorough = 8000, 300000
    workers = True

    def nontrivial(self, c, labels):
        return {"start", "on", "merge", "alloc", "free"} <= labels


class Repeat(Blocks):
    """a program of allocations that gives everything back can be repeated: the memory it takes stops growing"""
    name = "repeat"
    quick, thorough = 800, 30000
    workers, runs = True, 40

    def sizes(self, c, sizes):
        if len(sizes) == 40 and sizes[39] > sizes[19] and sizes[29] > sizes[19]:
            raise Fail("the heap grows with every run: %s" % sizes)

    def describe(self, c):
        return "%d runs of: " % c["runs"] + text(c["ops"])


if __name__ == "__main__":
    run_check("C22", [Blocks(), Workers(), Repeat()],
              rule="at least eight operations with an allocation and a resize; for workers: blocks are given back on a worker and merged")
