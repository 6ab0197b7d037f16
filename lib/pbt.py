"""Property-based testing engine.

A check is a set of Props.  A Prop generates a case from a Source (a recorded
sequence of bounded draws), runs it against the real code, and says what is
wrong, if anything.  Failures are shrunk on the draw sequence and written out as
a replay file; nothing but VERIF_SEED and the code decides what is generated.
"""
import os, sys, json, time, random, hashlib, traceback, multiprocessing, tempfile, shutil, signal
import build
from rf import Driver, Died, Hang, Infra

VERIF = build.VERIF
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


class Source:
    """draws; replays a recorded prefix, then (when rng is given) random values, else zeros"""

    def __init__(self, rng=None, rec=()):
        self.rng, self.rec, self.out, self.i = rng, rec, [], 0

    def draw(self, n):
        if n <= 1:
            self.out.append(0)
            self.i += 1
            return 0
        if self.i < len(self.rec):
            v = min(self.rec[self.i], n - 1)
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.i += 1
        self.out.append(v)
        return v

    def int(self, lo, hi):
        """uniform in [lo, hi]; shrinks to lo"""
        return lo + self.draw(hi - lo + 1)

    def zint(self, lo, hi):
        """integer of mixed magnitude in [lo,hi], shrinks to 0 (or the nearest bound)"""
        m = self.draw(8)
        mag = [3, 3, 10, 100, 1000, 1 << 16, 1 << 33, 1 << 63][m]
        v = self.draw(mag + 1)
        if self.draw(2):
            v = -v
        return max(lo, min(hi, v))

    def bool(self, num=1, den=2):
        return self.draw(den) >= den - num

    def choice(self, l):
        return l[self.draw(len(l))]

    def weighted(self, pairs):
        """[(weight, value)], shrinks to the first"""
        tot = sum(w for w, _ in pairs)
        x = self.draw(tot)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise AssertionError

    def size(self, hi, tiny=4):
        """length: mostly small, sometimes up to hi"""
        k = self.draw(4)
        if k < 2:
            return self.draw(min(tiny, hi) + 1)
        if k == 2:
            return self.draw(min(hi, 4 * tiny) + 1)
        return self.draw(hi + 1)

    def seed(self):
        return self.draw(1 << 32)


class Fail(Exception):
    def __init__(self, msg, **info):
        Exception.__init__(self, msg)
        self.info = info


class Skip(Exception):
    """case outside the property's domain (counted)"""


class Prop:
    """Subclass: gen(src)->case, run(case, env)->labels, describe(case)."""
    name = "prop"
    quick = 1000
    thorough = 10000
    flavours = ("rel",)
    weight = 1

    def gen(self, s):
        raise NotImplementedError

    def run(self, case, env):
        raise NotImplementedError

    def nontrivial(self, case, labels):
        return True

    def describe(self, case):
        return repr(case)

    def key(self, case):
        return self.describe(case)


class Env:
    """per-worker: drivers and scratch directory"""

    def __init__(self, scratch):
        self.scratch = scratch
        self.drivers = {}
        self.log = None
        self.binaries = {}

    def driver(self, flavour="rel", cores=1, **kw):
        k = (flavour, cores, tuple(sorted((a, str(b)) for a, b in kw.items())))
        d = self.drivers.get(k)
        if d is None:
            d = Driver(build.driver(flavour), cores=cores, cwd=self.scratch, **kw)
            if flavour == "asan":
                d.timeout = 120
            self.drivers[k] = d
        return d

    def reset(self):
        for d in self.drivers.values():
            d.stop()

    def fresh_dir(self):
        p = tempfile.mkdtemp(dir=self.scratch)
        return p


def case_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()[:8], "little")


def guard(env, prop, case):
    """run one case; returns (labels, None) or (None, failure message)"""
    try:
        return prop.run(case, env) or [], None
    except Fail as e:
        return None, str(e)
    except Died as e:
        tail = e.stderr.strip()
        import re
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*)", tail)
        where = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", tail)
        return None, "the process died (%s)%s%s" % (
            e.how, "; " + m.group(1) if m else ("; stderr: " + tail[-300:] if tail else ""),
            " at " + " <- ".join("%s %s" % (a, b.split("/")[-1]) for a, b in where[:4]) if where else "")
    except Hang as e:
        return None, "HANG: " + str(e)
    except (Skip, Infra, build.BuildError, OSError, MemoryError):
        raise
    except Exception as e:
        # an answer of a kind no answer has
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return None, "the answer is not understood: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno)


SESSION = 400     # cases per driver session


def stable_fail(env, prop, choices, tries=3):
    """re-run in fresh processes; returns the message when it fails every time, else None"""
    msg = None
    for _ in range(tries):
        env.reset()
        case = prop.gen(Source(rec=choices))
        try:
            _, m = guard(env, prop, case)
        except Skip:
            m = None
        env.reset()
        if m is None:
            return None
        msg = m
    return msg


def shrink(env, prop, choices, budget=25.0, maxruns=600):
    end = time.monotonic() + budget
    runs = [0]
    best = list(choices)

    def fails(c):
        if runs[0] >= maxruns or time.monotonic() > end:
            return False
        runs[0] += 1
        s = Source(rec=c)
        try:
            case = prop.gen(s)
        except Exception:
            return False
        try:
            _, m = guard(env, prop, case)
        except Skip:
            env.reset()
            return False
        except Infra:
            env.reset()
            return False
        if m is not None:
            env.reset()
            return True
        return False

    improved = True
    while improved and time.monotonic() < end and runs[0] < maxruns:
        improved = False
        # delete spans
        n = len(best)
        k = max(1, n // 2)
        while k >= 1:
            i = 0
            while i < len(best):
                c = best[:i] + best[i + k:]
                if c != best and fails(c):
                    best = c
                    improved = True
                else:
                    i += k
                if time.monotonic() > end:
                    break
            if time.monotonic() > end or k == 1:
                break
            k //= 2
        # minimise values
        for i in range(len(best)):
            if i >= len(best) or best[i] == 0:
                continue
            if time.monotonic() > end:
                break
            c = best[:i] + [0] + best[i + 1:]
            if fails(c):
                best = c
                improved = True
                continue
            lo, hi = 0, best[i]
            while hi - lo > 1:
                mid = (lo + hi) // 2
                c = best[:i] + [mid] + best[i + 1:]
                if fails(c):
                    best = c
                    hi = mid
                    improved = True
                else:
                    lo = mid
                if time.monotonic() > end:
                    break
    return best, runs[0]


def worker(args):
    (pid, wid, nw, seed, tier, props, scratch_root, deadline, known_fp) = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    scratch = tempfile.mkdtemp(prefix="w%d-" % wid, dir=scratch_root)
    env = Env(scratch)
    st = {"evals": 0, "skipped": 0, "keys": {}, "labels": {}, "samples": {}, "fails": [], "unrepro": [], "infra": 0,
          "incomplete": False}
    try:
        for prop in props:
            prop.tier = tier
            n = getattr(prop, tier)
            hist = []
            pl = st["labels"].setdefault(prop.name, {})
            keys = set()
            samples = st["samples"].setdefault(prop.name, [])
            nfail = 0
            for i in range(wid, n, nw):
                if time.monotonic() > deadline:
                    st["incomplete"] = True
                    break
                src = Source(rng=random.Random(case_seed(seed, pid + prop.name, i)))
                case = prop.gen(src)
                try:
                    labels, m = guard(env, prop, case)
                except Skip as e:
                    st["skipped"] += 1
                    l = "skip:" + str(e)
                    pl[l] = pl.get(l, 0) + 1
                    continue
                except Infra as e:
                    st["infra"] += 1
                    env.reset()
                    hist = []
                    if st["infra"] > 20:
                        raise
                    continue
                st["evals"] += 1
                hist.append(src.out)
                if m is None:
                    for l in labels:
                        pl[l] = pl.get(l, 0) + 1
                    if prop.nontrivial(case, labels):
                        d = hashlib.md5(str(prop.key(case)).encode("utf8", "replace")).hexdigest()[:16]
                        keys.add(d)
                        if len(samples) < 2:
                            samples.append(str(prop.describe(case))[:600])
                    if len(hist) >= SESSION:
                        env.reset()
                        hist = []
                    continue
                # failure
                nfail += 1
                f = investigate(env, pid, prop, src.out, hist, m)
                hist = []
                env.reset()
                (st["fails"] if f["reproduced"] else st["unrepro"]).append(f)
                if st["fails"] or nfail >= 4:
                    break
            st["keys"][prop.name] = list(keys)
            env.reset()
            if st["fails"]:
                break
    except Exception:
        st["error"] = traceback.format_exc()
    finally:
        env.reset()
        shutil.rmtree(scratch, ignore_errors=True)
    return st


def investigate(env, pid, prop, choices, hist, m):
    f = {"property": pid, "prop": prop.name, "first_message": m, "reproduced": False, "cases": [list(choices)]}
    try:
        if stable_fail(env, prop, choices):
            best, runs = shrink(env, prop, choices)
            msg = stable_fail(env, prop, best)
            if msg is None:
                best, msg = choices, stable_fail(env, prop, choices) or m
            f.update(reproduced=True, cases=[best], message=msg, shrink_runs=runs,
                     readable=[str(prop.describe(prop.gen(Source(rec=best))))])
            return f
        # depends on what ran before in the same process
        def run_seq(seq):
            env.reset()
            for c in seq:
                try:
                    _, r = guard(env, prop, prop.gen(Source(rec=c)))
                except Skip:
                    continue
                if r is not None:
                    env.reset()
                    return r
            env.reset()
            return None

        if len(hist) > 1 and run_seq(hist) and run_seq(hist):
            seq = list(hist)
            end = time.monotonic() + 60
            k = len(seq) // 2
            while k >= 1 and time.monotonic() < end:
                i = 0
                while i < len(seq) and time.monotonic() < end:
                    c = seq[:i] + seq[i + k:]
                    if c and run_seq(c):
                        seq = c
                    else:
                        i += k
                k //= 2
            r = run_seq(seq)
            if r:
                f.update(reproduced=True, cases=seq, message=r,
                         readable=[str(prop.describe(prop.gen(Source(rec=c)))) for c in seq])
                return f
        # timing dependent: try the same case again, many times
        hits, last = 0, None
        end = time.monotonic() + 40
        tries = 0
        while tries < 60 and time.monotonic() < end:
            tries += 1
            try:
                _, r = guard(env, prop, prop.gen(Source(rec=choices)))
            except Skip:
                continue
            if r is not None:
                env.reset()
                if not r.startswith("HANG"):
                    hits += 1
                    last = r
                if hits >= 3:
                    break
        if hits >= 2:
            f.update(reproduced=True, cases=[list(choices)], message=last + " (intermittent: %d of %d runs)" % (hits, tries),
                     readable=[str(prop.describe(prop.gen(Source(rec=choices))))])
    except Infra:
        env.reset()
    return f


def _run_check(pid, props, level="exploration", rule="", assumptions=(), known=None, budget=None, extra=None, pre=None):
    """the main of every check"""
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    argv = sys.argv[1:]
    for fl in sorted(set(f for p in props for f in p.flavours)):
        build.driver(fl)
    if pre:
        pre()
    scratch_root = tempfile.mkdtemp(prefix="rfv-%s-" % pid)
    os.chmod(scratch_root, 0o755)
    try:
        if argv and argv[0] == "--replay":
            return replay(pid, props, argv[1], scratch_root)
        if argv and argv[0] == "--only":
            props = [p for p in props if p.name in argv[1].split(",")]
        if os.environ.get("VERIF_SCALE"):
            for p in props:
                p.quick = max(1, int(p.quick * float(os.environ["VERIF_SCALE"])))
                p.thorough = max(1, int(p.thorough * float(os.environ["VERIF_SCALE"])))
        out_known = known_probe(pid, scratch_root)
        limit = budget or (600 if tier == "quick" else 3 * 3600)
        deadline = t0 + limit
        # alternate the order so that a slow prop does not starve the rest
        args = [(pid, w, NPROC, seed, tier, props, scratch_root, deadline, None) for w in range(NPROC)]
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(NPROC) as pool:
            res = pool.map(worker, args, chunksize=1)
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)
    errs = [r["error"] for r in res if "error" in r]
    fails = [f for r in res for f in r["fails"]]
    unrep = [f for r in res for f in r["unrepro"]]
    # seen more than once, though no single case repeats on demand
    by = {}
    for f in unrep:
        if not f["first_message"].startswith("HANG"):
            by.setdefault(f["prop"], []).append(f)
    for p, l in by.items():
        if len(l) >= 2 and not fails:
            l[0]["message"] = l[0]["first_message"] + " (seen in %d cases, timing dependent)" % len(l)
            fails.append(l[0])
    keys = {}
    for r in res:
        for p, ks in r["keys"].items():
            keys.setdefault(p, set()).update(ks)
    labels = {}
    for r in res:
        for p, ls in r["labels"].items():
            d = labels.setdefault(p, {})
            for l, c in ls.items():
                d[l] = d.get(l, 0) + c
    samples = []
    for p in props:
        got = [s for r in res for s in r["samples"].get(p.name, [])][:3]
        samples += ["%s: %s" % (p.name, s) for s in got]
    cov = {
        "evaluations": sum(r["evals"] for r in res),
        "distinct_nontrivial": sum(len(k) for k in keys.values()),
        "rule": rule,
        "samples": samples[:40] or ["(none)"],
        "per_prop_distinct_nontrivial": {p: len(k) for p, k in keys.items()},
        "classes": labels,
        "skipped_outside_domain": sum(r["skipped"] for r in res),
        "stopped_at_time_limit": any(r["incomplete"] for r in res),
        "unreproduced_failures": [{"prop": f["prop"], "message": f["first_message"][:500]} for f in unrep][:10],
        "known_findings_still_failing": out_known,
    }
    if extra:
        cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.monotonic() - t0, 2), "violations": len(fails)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for f in unrep:
        print("note: a failure that did not repeat was set aside: %s: %s" % (f["prop"], f["first_message"][:300]), file=sys.stderr)
    if fails:
        f = min(fails, key=lambda f: (len(f["cases"]), sum(map(len, f["cases"]))))
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        path = os.path.join(VERIF, "out", "replay-%s.json" % pid)
        f["how_to_replay"] = "VERIF_SEED=%d python3-vt /verif/checks/%s.py --replay %s" % (seed, pid, path)
        with open(path, "w") as o:
            json.dump(f, o, indent=1)
        print("%s/%s: %s" % (pid, f["prop"], f.get("message")))
        for r in f.get("readable", [])[:10]:
            print("  case: " + r[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        print(errs[0], file=sys.stderr)
        return 3
    print("%s held: %d cases, %d distinct non-trivial, %.1fs%s" % (
        pid, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"],
        " (stopped at the time limit)" if cov["stopped_at_time_limit"] else ""))
    return 0


def run_check(*a, **kw):
    sys.exit(_run_check(*a, **kw))


def replay(pid, props, path, scratch_root):
    f = json.load(open(path))
    prop = [p for p in props if p.name == f["prop"]][0]
    prop.tier = "quick"
    env = Env(scratch_root)
    bad = None
    for c in f["cases"]:
        case = prop.gen(Source(rec=c))
        print("case: " + str(prop.describe(case)))
        try:
            _, m = guard(env, prop, case)
        except Skip as e:
            print("skipped", e)
            continue
        if m:
            bad = m
            break
    env.reset()
    if bad:
        print("fails: " + bad)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("does not fail")
    return 0


# ---------------------------------------------------------------- known findings
def known_probe(pid, scratch_root):
    """Runs the recorded input of each open finding of this property; prints one line for each that still fails."""
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    out = []
    env = Env(scratch_root)
    for k in json.load(open(p)).get("findings", []):
        if k["property"] != pid or k.get("status") != "open":
            continue
        if probe_fails(env, k):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            out.append(k["id"])
    env.reset()
    sys.stdout.flush()
    return out


def probe_fails(env, k):
    """A probe is a list of statements; it fails when the process dies or the last answer differs from `expect`."""
    d = env.driver(k.get("flavour", "rel"), k.get("cores", 1))
    d.stop()
    try:
        v = None
        for s in k["probe"]:
            v = d.eval(s, timeout=k.get("timeout", 60))
        d.stop()
        return repr(v) != k.get("expect") if "expect" in k else False
    except (Died, Hang):
        d.stop()
        return True
