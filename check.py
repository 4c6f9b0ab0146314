#!/usr/bin/env python3
"""Decides one property by seeded search over simulated executions of bfs.

    check.py PROPERTY            (tier from VERIF_TIER, seed from VERIF_SEED)
    check.py --setup             build everything once
    check.py --replay FILE       rebuild and run a replay file again

Exit 0: the property held on every simulated run.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it did not.  Anything else is an
error of the check itself."""
import glob, json, os, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from props import PROPS, UNIVERSAL, ASSUME, REAL, STUB

NOBODY = 65534


def drop():
    """The simulated bfs never reaches the real file system, but a changed bfs
    might call something the simulator does not intercept: run without root."""
    try:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    except OSError:
        pass


def scratch():
    d = tempfile.mkdtemp(prefix="bfs-sim-")
    os.chmod(d, 0o777)
    return d


def place(exe, d):
    """A copy of the simulator that an unprivileged user can execute."""
    p = os.path.join(d, "sim-" + os.path.basename(os.path.dirname(exe)))
    if not os.path.exists(p):
        shutil.copy(exe, p)
        os.chmod(p, 0o755)
    return p


def env():
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TZ": "UTC"}
    return e


def replay_once(exe, f, cwd):
    r = subprocess.run([exe, "replay", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env(), preexec_fn=drop)
    return r.returncode, r.stdout.decode(errors="replace")


def known_findings():
    out = []
    with open(os.path.join(HERE, "known-findings.json")) as f:
        for k in json.load(f)["findings"]:
            out.append(k)
    return out


def main():
    if sys.argv[1:2] == ["--setup"]:
        B.build(("plain", "asan", "hb"))
        return 0
    if sys.argv[1:2] == ["--replay"]:
        f = os.path.abspath(sys.argv[2])
        fl = json.load(open(f))["flavour"]
        d = scratch()
        try:
            exe = place(B.build((fl,))[fl], d)
            shutil.copy(f, os.path.join(d, "r.json"))
            rc, out = replay_once(exe, os.path.join(d, "r.json"), d)
            print(out, end="")
            return rc
        finally:
            shutil.rmtree(d)
    prop = sys.argv[1]
    P = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ncpu = min(16, os.cpu_count() or 4)
    t0 = time.time()
    search_s = float(os.environ.get("VERIF_SEARCH_S", P.get("time", {}).get(tier, 30 if tier == "quick" else 780)))
    shrink = 25 if tier == "quick" else 60
    # which worker runs which flavour: sanitized ones find memory errors, plain ones are faster
    mix = P.get("mix", ["plain", "asan", "hb", "plain", "asan", "plain", "hb", "plain"])
    mix = [mix[i % len(mix)] for i in range(ncpu)]
    flavours = tuple(sorted(set(mix) | ({"plain"} if P.get("known") else set())))
    bins = B.build(flavours)
    build_s = time.time() - t0
    d = scratch()
    repdir = os.path.join(HERE, "replays", prop)
    shutil.rmtree(repdir, ignore_errors=True)
    try:
        exes = {fl: place(bins[fl], d) for fl in flavours}
        accept = ",".join(sorted(set(P["tags"]) | set(UNIVERSAL)))
        rc = 0
        # known findings: still there?
        known_lines = []
        for k in known_findings():
            if k["property"] != prop or k.get("status") != "open":
                continue
            f = os.path.join(HERE, k["replay"])
            fl = json.load(open(f))["flavour"]
            shutil.copy(f, os.path.join(d, "known.json"))
            r, out = replay_once(exes.get(fl) or place(B.build((fl,))[fl], d), os.path.join(d, "known.json"), d)
            if r in (1, 2):
                known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for l in known_lines:
            print(l)
        sys.stdout.flush()
        procs = []
        for w, fl in enumerate(mix):
            out = open(os.path.join(d, "log.%d" % w), "wb")
            cmd = [exes[fl], "search", "--profiles", P["profiles"], "--seed", str(seed), "--worker", str(w), "--time", str(search_s),
                   "--accept", accept, "--out", d, "--name", prop, "--shrink", str(shrink), "--maxviol", "1", "--hashes", os.path.join(d, "hash.%d" % w)]
            procs.append((fl, w, subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=d, env=env(), preexec_fn=drop)))
        # one worker's violation is enough: give the others a moment, then stop
        first = None
        while True:
            alive = [p for _, _, p in procs if p.poll() is None]
            if not alive:
                break
            if first is None and any(p.poll() == 1 for _, _, p in procs):
                first = time.time()
            if first and time.time() - first > 3:
                for p in alive:
                    p.terminate()
                for p in alive:
                    p.wait()
                break
            time.sleep(0.05)
        found, stats, samples, err = [], [], [], []
        killed = first is not None
        for fl, w, p in procs:
            for line in open(os.path.join(d, "log.%d" % w), "rb").read().decode(errors="replace").splitlines():
                t = line.split("\t")
                if t[0] == "FOUND":
                    found.append((fl, t[1], t[2], t[3]))
                elif t[0] == "STATS":
                    s = json.loads(t[1])
                    s["flavour"] = fl
                    stats.append(s)
                elif t[0] == "SAMPLE":
                    samples.append(json.loads(t[1]))
                elif line.strip():
                    err.append("worker %d (%s): %s" % (w, fl, line))
            if p.returncode not in (0, 1) and not (killed and p.returncode < 0):
                err.append("worker %d (%s) ended with status %s" % (w, fl, p.returncode))
        bad = [e for e in err if "ended with" in e or "NONDET" in e]
        vio = None
        for fl, tag, f, msg in found:
            r, out = replay_once(exes[fl], f, d)
            if r == 1:
                vio = (fl, tag, f, msg)
                break
            bad.append("%s: replay did not reproduce (status %d)" % (f, r))
        if vio:
            os.makedirs(repdir, exist_ok=True)
            dst = os.path.join(repdir, os.path.basename(vio[2]))
            shutil.copy(vio[2], dst)
            print("violated: [%s, %s build] %s" % (vio[1], vio[0], json.loads(vio[3])))
            print("replay with: python3 %s --replay %s" % (os.path.join(HERE, "check.py"), dst))
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            rc = 1
        elif bad:
            rc = 3
        for e in err[:10] if rc else bad[:10]:
            print(e[:400], file=sys.stderr)
        write_evidence(prop, P, tier, seed, stats, samples, d, t0, build_s, 1 if vio else 0, bad, mix, known_lines)
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_evidence(prop, P, tier, seed, stats, samples, d, t0, build_s, nviol, bad, mix, known):
    sched, traces = set(), set()
    for f in glob.glob(os.path.join(d, "hash.*")):
        b = open(f, "rb").read()
        n, = struct.unpack_from("<Q", b, 0)
        sched.update(struct.unpack_from("<%dQ" % n, b, 8))
        m, = struct.unpack_from("<Q", b, 8 + 8 * n)
        traces.update(struct.unpack_from("<%dQ" % m, b, 16 + 8 * n))
    tot = lambda k: sum(s[k] for s in stats)
    faults, profs, ends, other = {}, {}, {}, {}
    for s in stats:
        for k, (a, b) in s["faults"].items():
            x = faults.setdefault(k, {"injected": 0, "runs": 0})
            x["injected"] += a
            x["runs"] += b
        for src, dst in ((s["profiles"], profs), (s["ends"], ends), (s["other_tags"], other)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
    wall = time.time() - t0
    swall = max([s["wall"] for s in stats] or [0.001])
    runs = tot("runs")
    fl = {}
    for s in stats:
        fl[s["flavour"]] = fl.get(s["flavour"], 0) + s["runs"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(traces),
        "rule": "One evaluation is one simulated run of the whole of bfs (or, for API profiles, of its queue or signal layer) from one seed: "
                "the file system, command line, environment, scheduling decisions and faults are all drawn from it. Distinct: different hash over the run's complete "
                "event trace (scheduling decisions, system calls, results, output). Non-trivial: at least two context switches or at least one injected fault.",
        "samples": samples[:6] or ["no run completed"],
        "seeds_per_hour": int(runs / swall * 3600),
        "simulated_seconds": round(tot("sim_s"), 3),
        "scheduling_points": tot("steps"),
        "context_switches": tot("switches"),
        "distinct_schedules": len(sched),
        "nontrivial_runs": tot("nontrivial"),
        "runs_by_profile": profs,
        "runs_by_build": fl,
        "run_endings": ends,
        "faults_injected": dict(sorted(faults.items())),
        "files_in_simulated_trees": tot("nodes"),
        "files_visited": tot("visits"),
        "child_processes_run": tot("children"),
        "error_messages_checked": tot("diags"),
        "determinism_audits_failed": tot("nondet"),
        "violations_of_other_properties_seen": other,
        "workers": mix,
        "build_s": round(build_s, 1),
        "real_code": REAL,
        "stubs": STUB,
    }
    if bad:
        cov["errors"] = bad[:20]
    if known:
        cov["known_findings"] = known
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("build failed:\n%s" % e, file=sys.stderr)
        sys.exit(3)
