"""Builds the harness binaries from /repo's current working tree.

Objects are cached under /verif/build by the hash of what they were made from
(source + every header + flags), so a run after an edit recompiles what it must.
"""
import hashlib, os, subprocess, sys, fcntl, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CC = "/usr/bin/clang"
CXX = "/usr/bin/clang++"

BASE = ["-std=c17", "-fPIC", "-fsigned-char", "-m64", "-march=x86-64-v3", "-w",
        "-flax-vector-conversions", '-DGIT_HASH="verif"', "-include", "core/def.h"]
REL = ["-O3", "-fassociative-math", "-ftree-vectorize", "-funsafe-math-optimizations",
       "-funroll-loops", "-fno-math-errno", "-fomit-frame-pointer"]
FLAVOURS = {
    # the shipped configuration: same optimisation flags, own heap
    "rel": REL + ["-DNDEBUG", "-D_CRT_SECURE_NO_WARNINGS"],
    # same code, system allocator: exact live-byte accounting
    "sysm": ["-O2", "-DNDEBUG", "-DSYS_MALLOC"],
    # address sanitizer over the system allocator
    "asan": ["-O1", "-g", "-DNDEBUG", "-DSYS_MALLOC", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # libFuzzer instrumented
    "fuzz": ["-O1", "-g", "-DNDEBUG", "-DSYS_MALLOC", "-fsanitize=address,fuzzer-no-link",
             "-fno-omit-frame-pointer"],
}
LINK = {"rel": [], "sysm": [], "asan": ["-fsanitize=address"], "fuzz": ["-fsanitize=address,fuzzer"]}
LIBS = ["-lm", "-ldl", "-lpthread"]


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def sources():
    mk = "include Makefile\nvp-print:\n\t@echo $(CORE_OBJECTS) $(APP_COMMON)\n"
    env = dict(os.environ)
    for k in ("MAKEFLAGS", "CFLAGS", "LDFLAGS", "OS"):
        env.pop(k, None)
    p = subprocess.run(["make", "-s", "--no-print-directory", "-f", "-", "vp-print"], cwd=REPO, input=mk,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    objs = [w for w in p.stdout.split() if w.endswith(".o")]
    if p.returncode or not objs:
        raise BuildError("cannot read the object list from Makefile: " + p.stderr)
    return [o[:-2] + ".c" for o in objs]


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash():
    hs = sorted(glob.glob(REPO + "/core/*.h") + glob.glob(REPO + "/app/*.h"))
    m = hashlib.sha256()
    for h in hs:
        m.update(h.encode())
        m.update(_read(h))
    # .c files included by other .c files (epoll.c and the like)
    for c in sorted(glob.glob(REPO + "/core/*.c")):
        b = _read(c)
        if b'.c"' in b:
            m.update(b)
    for c in ("epoll.c",):
        p = REPO + "/core/" + c
        if os.path.exists(p):
            m.update(_read(p))
    return m.hexdigest()


def build(target, flavour, srcs=(), extra=(), core=True, cxx=False):
    """Link harness sources (paths under /verif/harness) with the core objects."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(target, flavour, srcs, extra, core, cxx)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(target, flavour, srcs, extra, core, cxx):
    hh = headers_hash()
    flags = BASE + FLAVOURS[flavour]
    odir = os.path.join(BUILD, "obj-" + flavour)
    os.makedirs(odir, exist_ok=True)
    jobs = []
    objs = []
    if core:
        for s in sources():
            key = _h(_read(os.path.join(REPO, s)), hh, " ".join(flags), s)
            o = os.path.join(odir, s.replace("/", "_")[:-2] + "-" + key + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((CC, s, o, flags))
    hflags = [f for f in flags]
    for s in srcs:
        p = os.path.join(VERIF, "harness", s)
        cc, fl = CC, hflags
        if s.endswith(".cc"):
            cc = CXX
            fl = [f for f in hflags if f != "-std=c17"] + ["-std=c++17"]
            fl = [f for i, f in enumerate(fl) if not (f == "-include" or (i and fl[i - 1] == "-include"))]
        key = _h(_read(p), hh, " ".join(fl), *extra)
        o = os.path.join(odir, s.replace("/", "_") + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((cc, p, o, fl + list(extra)))

    def one(j):
        cc, s, o, fl = j
        tmp = o + ".tmp%d" % os.getpid()
        _run([cc, "-I.", "-c", s, "-o", tmp] + fl, REPO)
        os.rename(tmp, o)

    if jobs:
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(one, jobs))
    out = os.path.join(BUILD, "%s-%s-%s" % (target, flavour, _h(*objs)))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        linkflags = ["-m64", "-march=x86-64-v3"]
        if flavour == "rel":
            linkflags += REL
        syms = os.path.join(REPO, "rayforce.syms")
        if os.path.exists(syms) and core:
            linkflags += ["-Wl,--dynamic-list=" + syms]
        _run([CXX if any(s.endswith(".cc") for s in srcs) else CC] + linkflags + ["-o", tmp] + objs + LINK[flavour] + LIBS, REPO)
        os.rename(tmp, out)
        # keep the cache small: drop older links of the same target
        olds = sorted((p for p in glob.glob(os.path.join(BUILD, "%s-%s-*" % (target, flavour))) if p != out and ".tmp" not in p),
                      key=os.path.getmtime)
        for p in olds[:-3]:
            try:
                os.remove(p)
            except OSError:
                pass
        allo = sorted(glob.glob(os.path.join(odir, "*.o")), key=os.path.getmtime)
        keep = set(objs)
        for p in [p for p in allo if p not in keep][:-400]:
            try:
                os.remove(p)
            except OSError:
                pass
    return out


def driver(flavour):
    return build("rfdrv", flavour, ["rfdrv.c"])


def main_binary():
    """The real `rayforce` executable, release flags."""
    os.makedirs(BUILD, exist_ok=True)
    return build("rayforce", "rel", ["main_shim.c"])


if __name__ == "__main__":
    for fl in ("rel", "sysm", "asan"):
        print(driver(fl))
    print(main_binary())
