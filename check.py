#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation: check.py PROPERTY

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
Builds the simulator around /repo's current sources, runs a fixed number of
seeded simulated runs on all cores, minimises the first violation, confirms it
in fresh processes and writes evidence/<property>.json.
Exit status: 0 held, 1 violated, 2 the check itself could not decide."""
import glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import build

VERIF = os.path.dirname(os.path.abspath(__file__))
WORKERS = 8
# property: (build variant, runs of the quick tier, runs of the thorough tier)
PROPS = json.load(open(os.path.join(VERIF, "tools", "runs.json")))
REAL = ["all of /repo/src (argument parsing, search, metadata, repository, backup, restore, integrity, garbage collector, prompts)",
        "third-party CRegion, BLAKE2b and SipHash as vendored", "regcomp/regexec of the system libc (failures injected in front)"]
STUB = ["file system with page cache and durable image (simfs)", "system calls, stdio buffering, directory streams, record locks, errno",
        "processes, scheduler, kill and power loss", "clock, sleep, pid, entropy", "malloc failure injection and fill pattern", "terminal and the user's answers"]

def env_int(n, d):
    try: return int(os.environ.get(n, d))
    except ValueError: return d

def sh(cmd, timeout=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -99, ""

def progress(d, k):
    try: return int(open("%s/progress.%d" % (d, k)).read() or 0)
    except (OSError, ValueError): return -1

def search(exe, prop, seed, n, limit, thorough, out):
    """Runs the workers; stops the later ones once a violation was found."""
    procs = []
    for k in range(WORKERS):
        procs.append(subprocess.Popen([exe, "run", prop, str(seed), str(k), str(WORKERS), str(n), str(limit), str(int(thorough)), out],
                                      stdout=subprocess.DEVNULL, stderr=open("%s/err.%d" % (out, k), "w")))
    stats, dead, first = {}, {}, None
    live = set(range(WORKERS))
    deadline = time.time() + limit + 240
    while live:
        time.sleep(0.05)
        for k in sorted(live):
            rc = procs[k].poll()
            if rc is None:
                if first is not None and progress(out, k) > first[0] or time.time() > deadline:
                    procs[k].kill(); procs[k].wait(); live.discard(k)
                    if time.time() > deadline: dead[k] = "no end of run %d" % progress(out, k)
                continue
            live.discard(k)
            f = "%s/stats.%d.json" % (out, k)
            if rc != 0 or not os.path.exists(f):
                dead[k] = "simulator process ended with status %d in run %d: %s" % (rc, progress(out, k), open("%s/err.%d" % (out, k)).read()[-600:])
                continue
            s = json.load(open(f))
            stats[k] = s
            if s["violation"]:
                c = (int(s["last"]), s["replay"], s["violation"])
                if first is None or c < first: first = c
    return stats, dead, first

def sets(out, ks):
    u = [set(), set(), set(), set()]
    for k in ks:
        try: b = open("%s/sets.%d" % (out, k), "rb").read()
        except OSError: continue
        p = 0
        for i in range(4):
            (c,) = struct.unpack_from("<Q", b, p); p += 8
            u[i].update(struct.unpack_from("<%dQ" % c, b, p)); p += 8 * c
    return [len(x) for x in u]

def known():
    r = []
    try: lines = open(os.path.join(VERIF, "known-findings.txt")).read().splitlines()
    except OSError: return r
    for l in lines:
        m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", l)
        if m: r.append((m.group(1), m.group(2), m.group(3)))
    return r

def main():
    prop = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = env_int("VERIF_SEED", 1)
    variant, nq, nt = PROPS[prop]
    n = nq if tier == "quick" else nt
    limit = 400 if tier == "quick" else 7200
    if os.environ.get("NB_RUNS"): n = int(os.environ["NB_RUNS"])
    t0 = time.time()
    exe0 = build.build(variant)
    out = tempfile.mkdtemp(prefix="nbsim-%s-" % prop)
    try:
        exe = os.path.join(out, "nbsim") # a private copy: other checks may rebuild meanwhile
        shutil.copy2(exe0, exe)
        return decide(prop, tier, seed, variant, n, limit, exe, out, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)

def decide(prop, tier, seed, variant, n, limit, exe, out, t0):
    t1 = time.time()
    stats, dead, first = search(exe, prop, seed, n, limit, tier == "thorough", out)
    search_s = time.time() - t1
    problems = list(dead.values())
    for k, s in sorted(stats.items()):
        if s["aborted"]: problems.append("run %d: %s" % (s["last"], s["aborted"]))
    violation, replay = None, None
    if first is not None:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s-seed%d-run%d.plan" % (prop, seed, first[0]))
        tmp = os.path.join(out, "min.plan")
        rc, txt = sh([exe, "min", first[1], tmp, "60"], 400)
        shutil.copyfile(tmp if rc == 0 and os.path.exists(tmp) else first[1], replay)
        ok = None
        for cand in (replay, first[1]):
            shutil.copyfile(cand, replay) if cand != replay else None
            a, b = sh([exe, "replay", replay], 300), sh([exe, "replay", replay], 300)
            if a[0] == 1 and a == b: ok = a[1]; break
        if ok is None: problems.append("the violation of run %d did not reproduce in a fresh process: %s" % (first[0], first[2]))
        else:
            violation = [l for l in ok.splitlines() if l.startswith("VIOLATION ")][0][10:]
    elif problems:
        # The code under test may have damaged the simulator's memory: judge the same runs under AddressSanitizer.
        for k in range(WORKERS):
            if violation or (k not in dead and not (k in stats and stats[k]["aborted"])): continue
            if k in stats and "unsupported" in stats[k]["aborted"]: continue
            i = progress(out, k)
            aexe = build.build("asan")
            f = os.path.join(out, "asan.plan")
            rc, txt = sh([aexe, "tee", prop, str(seed), str(i), f], 300)
            if os.path.exists(f):
                a, b = sh([aexe, "replay", f], 300), sh([aexe, "replay", f], 300)
                if a[0] == 1 and a == b:
                    rdir = os.path.join(VERIF, "replays")
                    os.makedirs(rdir, exist_ok=True)
                    replay = os.path.join(rdir, "%s-seed%d-run%d.plan" % (prop, seed, i))
                    shutil.copyfile(f, replay)
                    violation = [l for l in a[1].splitlines() if l.startswith("VIOLATION ")][0][10:]
    runs = sum(s["runs"] for s in stats.values())
    tot = lambda key: sum(s[key] for s in stats.values())
    merged = lambda key: {e: sum(s[key].get(e, 0) for s in stats.values()) for e in sorted({x for s in stats.values() for x in s[key]})}
    states, traces, sites, plans = sets(out, stats)
    samples = [x for k in sorted(stats) for x in stats[k]["samples"]][:6]
    cov = {
        "evaluations": int(runs), "distinct_nontrivial": plans,
        "rule": "A case is one simulated run: a plan (initial tree, configuration, edits, nb commands, faults, schedule, environments) drawn from hash(seed, property, run number). Non-trivial: it executed at least one nb process and at least one fault fired in it or at least one recorded history was compared. Counted: distinct hashes of the whole execution (every system call with its arguments and result, outputs, final file system).",
        "samples": samples,
        "simulated_runs": int(runs), "runs_planned": n, "cut_off_by_time_limit": any(s["timed_out"] for s in stats.values()),
        "seeds_used": int(runs), "runs_per_hour": int(runs / max(search_s, 0.01) * 3600),
        "simulated_processes": int(tot("processes")), "simulated_system_calls": int(tot("syscalls")),
        "simulated_time_s": round(tot("sim_seconds"), 3),
        "history_observations": int(tot("observations")), "model_comparisons": int(tot("model_checks")),
        "faults_injected": merged("faults"), "property_counters": merged("counts"),
        "distinct_states": states, "distinct_states_measure": "hash of the whole simulated file system after a simulated process ended",
        "distinct_interleavings": traces, "distinct_interleavings_measure": "hash of one process's sequence of system calls and paths",
        "distinct_fault_sites": sites, "distinct_fault_sites_measure": "(command, fault kind, system call, path class, argument)",
        "reexecuted_for_determinism": int(tot("reexecuted")),
        "real_components": REAL, "stub_components": STUB, "build": variant,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the simulated kernel behaves like Linux with a POSIX file system for the calls nano-backup makes",
                          "the durability model: unsynced data and directory entries may be kept, lost or torn; fdatasync of a file or directory makes exactly it durable (or an ordered journal, by plan)"],
          "wall_s": round(time.time() - t0, 2), "violations": [violation] if violation else []}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for p, rx, text in known():
        if p == prop and violation and re.search(rx, violation):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
            violation = None
            problems = []
    if violation:
        print(violation[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if problems:
        for p in problems: print("cannot decide: " + p[:2000])
        return 2
    print("%s held on %d simulated runs (%d processes, %d system calls, %d faults) in %.1f s" %
          (prop, runs, tot("processes"), tot("syscalls"), sum(merged("faults").values()), time.time() - t0))
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except RuntimeError as e:
        print(e)
        sys.exit(2)
