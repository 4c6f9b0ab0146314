#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current working tree.

One binary per flavour (asan = ASan+UBSan, hb = happens-before race detection, sim/hb.cc), each made
of bfs's own sources with their libc symbols redirected to the simulated
kernel, plus the simulator.  Objects are cached by content hash under
/verif/build (ignored by git)."""
import concurrent.futures as cf
import glob, hashlib, os, re, subprocess, sys, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BFS_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SIM = os.path.join(HERE, "sim")

CC = "clang-18" if not subprocess.call("command -v clang-18 >/dev/null", shell=True) else "clang"
CXX = "clang++-18" if not subprocess.call("command -v clang++-18 >/dev/null", shell=True) else "clang++"

FLAVOURS = {
    "asan": dict(san=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=function"], d=["-DSIM_ASAN=1"]),
    "plain": dict(san=[], d=["-DSIM_PLAIN=1"]),
    "hb": dict(san=["-fsanitize=thread"], d=["-DSIM_HB=1"], link=[]),
}
HARNESS = ["sched.cc", "vfs.cc", "sys.cc", "uring.cc", "scen.cc", "oracle.cc", "driver.cc", "extra.cc", "hb.cc"]
API = ["api_ioq.c", "api_sig.c"]
BFSFLAGS = ["-std=c17", "-g", "-O1", "-fno-omit-frame-pointer", "-pthread", "-w",
            "-I" + os.path.join(SIM, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(SIM, "config"),
            "-include", os.path.join(REPO, "src", "prelude.h")]
ALIASES = {"open64": "open", "openat64": "openat", "fstatat64": "fstatat", "fstat64": "fstat", "stat64": "stat",
           "lstat64": "lstat", "fcntl64": "fcntl", "getrlimit64": "getrlimit", "setrlimit64": "setrlimit",
           "fopen64": "fopen", "__fdelt_chk": "__fdelt_chk", "sigprocmask": "sigprocmask", "_exit": "_exit"}


class BuildError(Exception):
    pass


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def slurp(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout.decode(errors="replace")


def build(flavours=("asan", "hb")):
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(flavours)
    finally:
        lock.close()


def _build(flavours):
    hdrs = h(*[slurp(p) for p in sorted(glob.glob(REPO + "/src/*.h"))])
    simh = h(*[slurp(p) for p in sorted(glob.glob(SIM + "/*.hh") + glob.glob(SIM + "/include/*") + glob.glob(SIM + "/config/*") + glob.glob(SIM + "/*.h"))])
    srcs = sorted(glob.glob(REPO + "/src/*.c"))
    bins = {}
    jobs = []
    pool = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4)
    objs = {}

    def comp(cmd, obj):
        if not os.path.exists(obj):
            tmp = obj + ".tmp%d" % os.getpid()
            run(cmd + ["-o", tmp])
            os.rename(tmp, obj)
        return obj

    futs = []
    for fl in flavours:
        cfgf = FLAVOURS[fl]
        d = os.path.join(OUT, fl)
        os.makedirs(d, exist_ok=True)
        for hs in HARNESS:
            p = os.path.join(SIM, hs)
            key = h(slurp(p), simh, fl)
            obj = os.path.join(d, "h_%s_%s.o" % (hs, key))
            futs.append((fl, "h", pool.submit(comp, [CXX, "-std=c++17", "-g", "-O1", "-fno-omit-frame-pointer", "-Wall", "-Wno-unused", "-c", p] + cfgf["d"], obj)))
        for p in srcs:
            key = h(slurp(p), hdrs, simh, fl, " ".join(BFSFLAGS))
            obj = os.path.join(d, "b_%s_%s.o" % (os.path.basename(p), key))
            futs.append((fl, "b", pool.submit(comp, [CC] + BFSFLAGS + cfgf["san"] + ["-c", p], obj)))
        for a in API:
            p = os.path.join(SIM, a)
            if not os.path.exists(p):
                continue
            key = h(slurp(p), hdrs, simh, fl, " ".join(BFSFLAGS))
            obj = os.path.join(d, "a_%s_%s.o" % (a, key))
            futs.append((fl, "a", pool.submit(comp, [CC] + BFSFLAGS + cfgf["san"] + ["-c", p], obj)))
    for fl, kind, f in futs:
        objs.setdefault((fl, kind), []).append(f.result())
    for fl in flavours:
        d = os.path.join(OUT, fl)
        hs, bs, as_ = objs[(fl, "h")], objs[(fl, "b")], objs.get((fl, "a"), [])
        key = h(*(hs + bs + as_ + [slurp(os.path.abspath(__file__))]))
        exe = os.path.join(d, "sim_" + key)
        bins[fl] = exe
        if os.path.exists(exe):
            os.utime(exe)
            continue
        # symbols to redirect: everything the harness defines as sim_X
        syms = {}
        for o in hs:
            for line in run(["nm", "--defined-only", o]).splitlines():
                t = line.split()
                if len(t) == 3 and t[1] in "TDBC" and t[2].startswith("sim_"):
                    n = t[2][4:]
                    if n in ("swap", "atomic_pre", "atomic_post", "cas_spurious", "pause", "mkfile"):
                        continue
                    syms[n] = t[2]
        syms["main"] = "bfs_main"
        # bfs-internal seam: the depth of the I/O queue.  Only while the interface is the one the wrapper knows.
        ih = os.path.join(REPO, "src", "ioq.h")
        if not (os.path.exists(ih) and re.search(rb"struct\s+ioq\s*\*\s*ioq_create\s*\(\s*size_t\s+\w+\s*,\s*size_t\s+\w+\s*\)\s*;", slurp(ih))):
            syms.pop("ioq_create", None)
        syms["__sigsetjmp"] = "__sigsetjmp"
        syms = {k: v for k, v in syms.items() if k != v}
        red = os.path.join(d, "redefine_%s.syms" % key)
        with open(red, "w") as f:
            for k, v in sorted(syms.items()):
                f.write("%s %s\n" % (k, v))
        red0 = red + "0"
        with open(red0, "w") as f:
            for a, b in sorted(ALIASES.items()):
                if a != b and b in syms:
                    f.write("%s %s\n" % (a, b))
        rds = []
        own = {}
        for o in bs:
            for line in run(["nm", "--defined-only", "-g", o]).splitlines():
                t = line.split()
                if len(t) == 3 and t[2] in syms and t[2] != "main":
                    own.setdefault(o, []).append(t[2])
        for o in bs + as_:
            keep = [a for k in own.get(o, []) for a in ("--redefine-sym", "%s=%s" % (syms[k], k))]
            r = os.path.join(d, "r_%s_%s.o" % (key, os.path.basename(o)))
            run(["objcopy", "--redefine-syms=" + red0, o, r])
            run(["objcopy", "--redefine-syms=" + red, r])
            if keep:
                run(["objcopy"] + keep + [r])
            rds.append(r)
        tmp = exe + ".tmp%d" % os.getpid()
        run([CXX] + FLAVOURS[fl].get("link", FLAVOURS[fl]["san"]) + ["-g", "-o", tmp] + hs + rds + ["-pthread", "-lacl", "-lcap", "-lselinux", "-lonig", "-lrt"])
        os.rename(tmp, exe)
        for r in rds + [red, red0]:
            os.unlink(r)
        # keep only a few old binaries
        old = sorted(glob.glob(os.path.join(d, "sim_*")), key=os.path.getmtime)
        for o in old[:-4]:
            os.unlink(o)
        allo = sorted(glob.glob(os.path.join(d, "*.o")), key=os.path.getmtime)
        for o in allo[:-400]:
            os.unlink(o)
    pool.shutdown()
    return bins


if __name__ == "__main__":
    try:
        for fl, exe in build(sys.argv[1:] or ("asan", "hb")).items():
            print(fl, exe)
    except BuildError as e:
        print(e)
        sys.exit(3)
