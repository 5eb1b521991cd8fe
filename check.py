#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the simulator with /repo's current headers, searches, reports.
check.py PROPERTY replay FILE: rebuilds and repeats the recorded run.

exit 0: the property held on every simulated run; exit 1: a violation, reproduced from its replay file in two fresh
processes; anything else: the check could not give an answer.
"""
import json, os, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")  # only overridden while planting bugs in scratch copies
FLAGS = ["-std=c++20", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
LINK = ["-Wl,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort"]

sys.path.insert(0, HERE)
from props import PROPS


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


NOT_COMPILED = []


def build(pid, p, bdir):
    os.makedirs(bdir, exist_ok=True)
    tus = ["sim/sim.cpp"] + p["tus"]

    def one(tu):
        obj = os.path.join(bdir, re.sub(r"[^A-Za-z0-9]", "_", tu) + ".o")
        r = sh(["g++", *FLAGS, *p.get("flags", []), *p.get("tuflags", {}).get(tu, []), "-I" + os.path.join(REPO, "include"), "-c", os.path.join(HERE, tu), "-o", obj])
        return tu, obj, r

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, tus))
    # again, alone: it wasn't for want of memory
    res = [one(tu) if r.returncode else (tu, obj, r) for tu, obj, r in res]
    for tu, obj, r in res:
        if r.returncode: # what does compile is explored all the same, but the check doesn't pass
            err = next((l for l in r.stderr.splitlines() if ": error: " in l or ": fatal error: " in l), r.stderr[-300:])
            print(f"check {pid}: {tu} does not compile against {REPO}:\n{r.stderr[-4000:]}", file=sys.stderr)
            NOT_COMPILED.append((tu, err))
    binary = os.path.join(bdir, "sim_" + pid)
    r = sh(["g++", *[o for _, o, r in res if not r.returncode], *LINK, *p.get("link", []), "-o", binary])
    if r.returncode:
        print(f"check {pid}: link failed:\n{r.stderr[-4000:]}", file=sys.stderr)
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        if NOT_COMPILED and all(": error: " in e or ": fatal error: " in e for _, e in NOT_COMPILED):
            uncompilable(pid, os.path.join(rdir, pid + ".json"))
        sys.exit(3)
    return binary


def uncompilable(pid, replay):
    """Every translation unit of the harness is a caller's program that uses the documented interface and compiles on
    the tree it was written for. One that no longer does is an operation taken away from a representation."""
    with open(replay, "w") as f:
        json.dump({"property": pid, "class": "does-not-compile", "message": NOT_COMPILED[0][1],
                   "units": [t for t, _ in NOT_COMPILED]}, f, indent=1)
        f.write("\n")
    print(f"class: does-not-compile\nmessage: {NOT_COMPILED[0][0]}: {NOT_COMPILED[0][1]}")
    print(f"VIOLATION property={pid} replay={os.path.relpath(replay, HERE)}")
    sys.exit(1)


def do_replay(pid, path):
    """check.py PROPERTY replay FILE: rebuilds and runs one recorded run (or compiles the recorded units again)."""
    bdir = os.path.join(HERE, "build", pid)
    os.makedirs(bdir, exist_ok=True)
    rec = json.load(open(path))
    p = dict(PROPS[pid])
    if rec["class"] == "does-not-compile":
        bad = 0
        for tu in rec["units"]:
            r = sh(["g++", *FLAGS, *p.get("flags", []), *p.get("tuflags", {}).get(tu, []), "-I" + os.path.join(REPO, "include"),
                    "-fsyntax-only", os.path.join(HERE, tu)])
            print(f"{tu}: {'does not compile' if r.returncode else 'compiles'}")
            bad |= r.returncode != 0
        sys.exit(1 if bad else 0)
    r = sh([build(pid, p, bdir), "replay", pid, os.path.abspath(path)])
    print(r.stdout, end="")
    sys.exit(r.returncode)


def known_classes(pid):
    """known-findings file: 'known: property=P01 class=<violation class> <what fails>' lines."""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = PROPS[pid]
    if tier == "replay":
        do_replay(pid, sys.argv[3])
    t0 = time.time()
    bdir = os.path.join(HERE, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    binary = build(pid, p, bdir)
    t_build = time.time() - t0
    known = known_classes(pid)
    kfile = os.path.join(bdir, "known")
    with open(kfile, "w") as f:
        f.write("".join(k + "\n" for k in known))
    out = os.path.join(bdir, "search.json")
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, f"{pid}.json")
    if os.path.exists(replay):
        os.remove(replay)
    runs, secs = p[tier]
    workers = os.cpu_count() or 8
    r = sh([binary, "search", pid, str(seed), str(runs), str(secs), str(workers), out, replay, kfile])
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print(f"check {pid}: the simulator failed (status {r.returncode})\n{r.stdout[-2000:]}{r.stderr[-2000:]}", file=sys.stderr)
        sys.exit(3)
    s = json.load(open(out))
    # determinism: the same seeds in two fresh processes give the same event hashes
    nh = 60
    ha, hb = (sh([binary, "hash", pid, str(seed), "0", str(nh)]).stdout for _ in range(2))
    samples = []
    for k in range(3):
        t = sh([binary, "trace", pid, str(seed), str(k * 7 + 1)]).stdout
        samples.append({"seed": seed, "run": k * 7 + 1, "trace": t.splitlines()[:40]})

    violation, gate = s["violation"], None
    if violation:
        g = [sh([binary, "replay", pid, replay]) for _ in range(2)]
        tail = [[l for l in x.stdout.splitlines() if l.startswith("REPLAY")] for x in g]
        gate = all(x.returncode == 1 for x in g) and tail[0] == tail[1] and bool(tail[0])
    sh_rate = s["runs"] / max(s["seconds"], 1e-9) * 3600
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s["runs"],
            "distinct_nontrivial": s["distinct_histories"],
            "rule": "one evaluation is one simulated run: the seed draws the graph or container history, the caller tasks, "
                    "their operations and arguments, the scheduling and the faults. Distinct and non-trivial: runs with "
                    "different event hashes, that is a different sequence of (callback, operation outcome, task switch, "
                    "fault) events",
            "samples": samples,
            "runs_per_hour": round(sh_rate),
            "seeds_per_hour": round(sh_rate),
            "simulated_time": {"unit": "seam steps (callbacks, allocations, value copies, input-range steps); the code "
                                       "under test has no clock", "steps": s["seam_steps"], "longest_run": s["max_steps_per_run"]},
            "faulted_runs": s["faulted_runs"],
            "faults_armed": s["faults_armed"],
            "faults_fired": s["faults_fired"],
            "task_switches": s["task_switches"],
            "caller_tasks": s["caller_tasks"],
            "simulated_allocations": s["simulated_allocations"],
            "scenarios": s["scenarios"],
            "rare_conditions_reached": s["probes"],
            "known_findings_hit": s["known"],
            "stopped_by_time_cap": s["time_capped"],
            "replay_determinism": {"runs_compared_across_processes": nh, "identical": ha == hb},
            "real_components": p["real"],
            "stubbed_components": p.get("stub", "operator new/delete (simulated arena that can fail), the threads of the callers "
                                        "(fibers switched at seams), the callers' callbacks and values, random numbers"),
            "search_seconds": round(s["seconds"], 2),
            "build_seconds": round(t_build, 2),
        },
        "assumptions": p.get("assumptions", []) + [
            "the harness compiles the headers of the working tree with g++ -O1 and libstdc++ assertions",
            "task switches happen only at seams (callbacks, allocations, copies of instrumented values, input-range steps)"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation or NOT_COMPILED else 0,
    }
    if violation:
        evidence["coverage"]["violation"] = {"class": violation, "message": s["message"], "run": s["run"],
                                             "tape_length": s["tape_length"], "minimise_candidates": s["minimise_candidates"],
                                             "reproduced_twice_in_fresh_processes": gate}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for k, what in known.items():
        print(f"KNOWN-FINDING: property={pid} {what} (met in {s['known'].get(k, 0)} runs)")
    print(f"{pid} {tier}: {s['runs']} runs, {s['distinct_histories']} distinct histories, {s['faulted_runs']} with faults, "
          f"{s['seam_steps']} steps in {s['seconds']:.1f} s (+{t_build:.0f} s build)")
    if violation:
        print(f"class: {violation}\nmessage: {s['message']}")
        if not all(x.returncode == 1 for x in g):
            print(f"check {pid}: the violation did not replay in two fresh processes", file=sys.stderr)
            sys.exit(4)
        if not gate: # code that reads memory it doesn't own can fail in another way each time: it still fails
            print("note: the two replays in fresh processes both fail, but not with the same events")
        print("\n".join(g[0].stdout.splitlines()[-40:]))
        print(f"VIOLATION property={pid} replay={os.path.relpath(replay, HERE)}")
        sys.exit(1)
    if not os.environ.get("VERIF_KEEP_BUILD"):
        shutil.rmtree(bdir, ignore_errors=True)
    if NOT_COMPILED:
        if all(": error: " in e or ": fatal error: " in e for _, e in NOT_COMPILED):
            uncompilable(pid, replay)
        sys.exit(3) # the compiler itself failed: no answer
    sys.exit(0)


main()
