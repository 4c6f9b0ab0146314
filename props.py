"""What each property's check runs: simulation profiles (with weights) and the
violation tags that count against the property."""

# Violations after which no property of the search can be relied on: memory
# errors and failed assertions, data races, misuse of descriptors or of the
# threading API, deadlock and livelock.
UNIVERSAL = ["crash", "race", "fd", "sync", "cwd", "exec", "timer", "sig-errno", "C07"]

PROPS = {
    "C01": dict(profiles="walk:5,acct:1,files0:1,order:1", tags=["C01", "C22", "C05", "C03"]),
    "C02": dict(profiles="order:4,walk:2", tags=["C02", "C01"]),
    "C03": dict(profiles="acct:4,walk:1,expr:1,cycle:1,meta:1", tags=["C03", "C01", "C04"]),
    "C04": dict(profiles="expr:4,walk:1,acct:1,meta:1", tags=["C04", "C22"]),
    "C05": dict(profiles="walk:3,acct:2,exec:2,spawn:1,quit:1,alloc:1,expr:2,out:1,pw:1", tags=["C05", "C01", "C03", "C09", "C10", "C11", "C22", "C18"]),
    "C06": dict(profiles="walk:3,quit:2,acct:1,expr:1,walkt:1", tags=["C06", "C01", "C04", "C05", "C22"], mix=["hb", "plain", "hb", "plain", "asan", "plain", "hb", "plain"]),
    "C07": dict(profiles="walk:4,acct:2,quit:2,alloc:1,spawn:1,order:1,unique:1", tags=["C07"]),
    "C08": dict(profiles="quit", tags=["C08", "C22", "C11"]),
    "C09": dict(profiles="exec", tags=["C09", "C11", "C22", "C10", "C03"]),
    "C10": dict(profiles="spawn:3,ok:1,exec:1", tags=["C10", "C09", "C22", "C03", "C11"]),
    "C11": dict(profiles="out:3,exec:1,expr:1", tags=["C11", "C22"]),
    "C12": dict(profiles="sig:2,bar:1,spawn:1", tags=["C12", "C13", "C10", "C03", "C22", "C11"]),
    "C13": dict(profiles="bar:3,sig:1", tags=["C13", "C12", "C11", "C22"]),
    "C14": dict(profiles="del", tags=["C14", "C01", "C02", "C03", "C22", "C05"]),
    "C15": dict(profiles="alloc", tags=["C03", "C01", "C02", "C05", "C09", "C10", "C11", "C15", "C16", "C22"]),
    "C16": dict(profiles="unique:1,cycle:1", tags=["C16", "C01", "C03", "C22"]),
    "C17": dict(profiles="xdev", tags=["C17", "C01", "C22"]),
    "C18": dict(profiles="pw", tags=["C18", "C22", "C03", "C04"]),
    "C20": dict(profiles="alloc:8,walk:3,acct:3,expr:6,exec:3,quit:5,meta:3,out:3,spawn:3,del:3,files0:3,bar:3,mem:2", tags=["C20"]),
    "C21": dict(profiles="clock", tags=["C21", "C22"]),
    "C22": dict(profiles="expr:4,quit:1", tags=["C22", "C11", "C08"]),
    "C23": dict(profiles="mut", tags=["C23", "C01", "C03", "C05"]),
    "C24": dict(profiles="ok", tags=["C24", "C10"]),
    "C25": dict(profiles="files0", tags=["C25", "C01", "C22", "C03"]),
}

REAL = ["all of /repo/src/*.c compiled unmodified: command-line parsing, optimizer, evaluation, bftw, the I/O queue and its threads, exec/spawn, "
        "signal hooks, status bar, user/group and mount caches, output", "glibc stdio (over simulated descriptors), qsort, string and regex functions"]
STUB = ["kernel file system, descriptors, pipes, processes, signals, terminal, clocks: simulated in memory (/verif/sim/vfs.cc, sys.cc)",
        "threads, mutexes, condition variables, semaphores: fibers under the seeded scheduler (/verif/sim/sched.cc); every C11 atomic access is a scheduling point",
        "io_uring: simulated rings with arbitrary completion order (/verif/sim/uring.cc)", "user and group databases, mount table, getxattr family: simulated",
        "commands run by -exec: a recording stand-in; nothing is executed and no real file is touched"]
ASSUME = ["Interleavings are sequentially consistent: weak-memory reorderings are not explored (the happens-before build reports missing ordering as data races).",
          "The simulated kernel follows Linux; other operating systems' code paths are not compiled.",
          "Seeded sampling: a clean run is evidence, not proof."]
