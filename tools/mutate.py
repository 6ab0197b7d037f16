"""Mutation analysis: random small changes of /repo's sources which build and pass the tests are run against the checks of their file.
usage: mutate.py N [seed] [file ...]   (report on stdout; works in scratch copies under /tmp/mut)"""
import os, random, re, subprocess, sys, shutil, json, time
REPO = "/repo"
MAP = {"math.c": "C01 C03 C08 C14 C13", "cmp.c": "C02 C07", "logic.c": "C02 C14", "aggr.c": "C03 C14 C19", "group.c": "C14 C05", "index.c": "C14 C05 C16 C17 C15", "sort.c": "C04",
       "order.c": "C04 C13", "items.c": "C06 C18 C05 C13", "compose.c": "C06 C05 C08 C12 C13", "iter.c": "C12 C24 C13", "vary.c": "C12 C06 C23", "query.c": "C14 C19 C23", "update.c": "C15 C13",
       "join.c": "C16 C17 C13", "parse.c": "C11 C07 C23", "format.c": "C07 C20 C11", "serde.c": "C09 C10 C18 C29", "eval.c": "C12 C13 C23 C29", "lambda.c": "C12 C23", "heap.c": "C22 C23", "pool.c": "C24 C13",
       "symbols.c": "C08 C24 C18", "string.c": "C07 C08 C20 C02", "date.c": "C07 C08", "time.c": "C07 C08", "timestamp.c": "C07 C08", "temporal.c": "C01 C08", "guid.c": "C07 C08 C09", "io.c": "C20 C29 C19",
       "ipc.c": "C21", "poll.c": "C21", "epoll.c": "C21", "sock.c": "C21", "freelist.c": "C21", "hash.c": "C05 C16 C14 C24", "rayforce.c": "C06 C01 C09 C13 C14 C23 C04", "util.c": "C13", "unary.c": "C12 C18",
       "binary.c": "C18 C12", "ops.c": "C01 C13", "filter.c": "C06 C14", "fs.c": "C18 C19 C29", "mmap.c": "C18 C19", "misc.c": "C06 C13", "error.c": "C12 C13", "cond.c": "C12", "dynlib.c": "", "thread.c": "C24",
       "runtime.c": "C24 C29", "main.c": "C29", "term.c": "C30", "repl.c": "C30"}


def mutants(fn, rnd):
    src = open(fn, encoding="latin1", newline="").read()
    lines = src.split("\n")
    depth, skip, cand = 0, False, []
    stack = []
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith("#if"):
            stack.append(bool(re.search(r"WINDOWS|_WIN|WASM|DEBUG|__APPLE|MACOS|AVX|SSE", t)) and not t.startswith("#ifndef") and "!" not in t)
        elif t.startswith("#else") or t.startswith("#elif"):
            if stack:
                stack[-1] = not stack[-1] if t.startswith("#else") else False
        elif t.startswith("#endif"):
            if stack:
                stack.pop()
        if any(stack) or not l.startswith("    ") or t.startswith(("//", "*", "/*", "#", "LOG_", "UNUSED", "DEBUG")) or "LOG_" in t or "REGISTER" in t:
            continue
        cand.append(i)
    OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" && ", " || "), (r" \|\| ", " && "),
           (r" \+ ", " - "), (r" - ", " + "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\+\+", "--"), (r" \* ", " + "), (r"\bNULL_I64\b", "0"), (r"NULL_I32\b", "0"), (r"\btrue\b|B8_TRUE", "B8_FALSE"), (r"B8_FALSE", "B8_TRUE"),
           (r"<<", ">>"), (r"\bx\b", "y"), (r"\bi\b", "j"), (r"\bmin\b", "max"), (r"if \((.*)\)(.*)$", r"if (!(\1))\2"), (r"\bn\b", "n - 1"), (r"->len\b", "->len - 1")]
    while True:
        i = rnd.choice(cand)
        l = lines[i]
        if rnd.random() < 0.25 and re.match(r"\s+[\w\->\[\]\.\(\), &\*\+]+( [\+\-\*\|&]?= .*|\(.*\));\s*$", l) and not re.match(r"\s+(return|[iuf]\d+_t|b8_t|obj_p|str_p|lit_p|nil_t|struct|const)\b", l):
            new = re.match(r"\s*", l).group(0) + ";" + ("\r" if l.endswith("\r") else "")
        else:
            a, b = rnd.choice(OPS)
            ms = list(re.finditer(a, l))
            if not ms:
                continue
            m = rnd.choice(ms)
            new = l[:m.start()] + m.expand(b) + l[m.end():]
        if new == l:
            continue
        yield i, l, new, "\n".join(lines[:i] + [new] + lines[i + 1:])


def sh(c, cwd, t=200, env=None):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
        return p.returncode, p.stdout.decode("latin1")
    except subprocess.TimeoutExpired:
        subprocess.run("pkill -KILL -f %s/_build; pkill -KILL -f rfdrv-" % cwd, shell=True)
        return -1, "timeout"


def main():
    n, seed = int(sys.argv[1]), sys.argv[2] if len(sys.argv) > 2 else "1"
    rnd = random.Random(seed)
    files = sys.argv[3:] or list(MAP)
    w = "/tmp/mut/w" + os.environ.get("MW", "")
    subprocess.run("mkdir -p /tmp/mut && rsync -a --delete /repo/ %s/" % w, shell=True)
    weights = [sum(1 for _ in open(os.path.join(REPO, "app" if f in ("main.c", "term.c", "repl.c") else "core", f), encoding="latin1")) ** 0.6 for f in files]
    done = 0
    while done < n:
        f = rnd.choices(files, weights)[0]
        d = "app" if f in ("main.c", "term.c", "repl.c") else "core"
        rel = "%s/%s" % (d, f)
        i, old, new, text = next(mutants(os.path.join(REPO, rel), rnd))
        if not MAP.get(f):
            continue
        with open(os.path.join(w, rel), "w", encoding="latin1", newline="") as o:
            o.write(text)
        try:
            rc, out = sh("make -f /opt/vp/rayforce.mk -j8 CC=/usr/bin/clang PWD=%s vp-build 2>&1" % w, w)
            if rc:
                continue
            sh("flock /tmp/mut/lock sh -c 'rm -rf /tmp/rayforce_test_parted; : > %s.res; timeout -k 5 60 %s/_build/rayforce.vptest %s.res < /dev/null; rm -rf /tmp/rayforce_test_parted'" % (w, w, w), w)
            if open(w + ".res").read().count("PASS ") != 185:
                continue
            done += 1
            t0 = time.time()
            res = "SURVIVED"
            for c in MAP[f].split():
                rc, out = sh("VERIF_REPO=%s VERIF_SCALE=0.5 timeout 800 python3-vt /verif/checks/%s.py" % (w, c), "/tmp/mut", 900)
                if rc == 1:
                    res = "killed by %s: %s" % (c, out.split("\n")[0][:150])
                    break
                if rc != 0:
                    res = "rc %s by %s" % (rc, c)
            print("%s:%d\n  - %s\n  + %s\n  %s (%.0f s)" % (rel, i + 1, old.strip(), new.strip(), res, time.time() - t0), flush=True)
        finally:
            shutil.copyfile(os.path.join(REPO, rel), os.path.join(w, rel))


if __name__ == "__main__":
    main()
