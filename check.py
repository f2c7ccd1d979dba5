#!/usr/bin/env python3
"""Decide one property by seeded search over simulated runs.

  check.py PROPERTY        VERIF_SEED and VERIF_TIER are taken from the environment
  check.py --replay FILE   replay a trace; exit 1 when it violates its property

Exit 0: the property held on every run explored (known findings are printed).
Exit 1: a line "VIOLATION property=<id> replay=<path>" for each violation.
Any other exit is an error of the check itself.
"""
import json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as B
import minimise as M

SIM = M.SIM
KINDS = {1: "violation", 2: "memory", 3: "crash", 4: "terminate", 5: "hang", 6: "harness"}
# seconds of search: quick, thorough
# seconds of search at most; the quick tier makes a fixed number of runs, so that one seed is one set of runs
BUDGET = {"quick": 240, "thorough": 2700}
RUNS = {"C01": 12000, "C02": 6000, "C03": 6000, "C04": 9000, "C05": 2000, "C06": 6000, "C07": 5600, "C08": 13000,
        "C09": 10000, "C10": 9000, "C11": 12000, "C12": 12000, "C13": 9000, "C14": 6000, "default": 8000}
LEVEL = {"C05": "fault_enumeration"}


def say(s):
    print(s, flush=True)


def symbolise(pcs):
    if not pcs:
        return []
    try:
        p = subprocess.run(["addr2line", "-Cfe", SIM] + pcs, stdout=subprocess.PIPE, text=True, timeout=120)
    except (OSError, subprocess.TimeoutExpired):
        return []
    l = p.stdout.splitlines()
    r = []
    for i in range(0, len(l) - 1, 2):
        if "/verif/sim/" in l[i + 1]:
            continue
        r.append("%s (%s)" % (l[i][:100], l[i + 1].replace(B.REPO + "/", "")))
    return r


def search(prop, seed, secs, out, jobs, maxruns):
    """Run the workers; returns failures [(trace, index, info)] and the merged counters."""
    procs = []
    for w in range(jobs):
        f = open(os.path.join(out, "out.%d" % w), "w")
        procs.append((subprocess.Popen([SIM, "search", prop, str(seed), str(w), str(jobs), str(secs), out, "3", str(maxruns)],
                                       stdout=f, stderr=subprocess.DEVNULL, start_new_session=True), f))
    t0 = time.time()
    failed_at = None
    while any(p.poll() is None for p, _ in procs):
        time.sleep(0.5)
        if failed_at is None and any("FAIL " in open(os.path.join(out, "out.%d" % w)).read() for w in range(jobs)):
            failed_at = time.time()
        # after a failure go on a little for other classes, then report
        if (failed_at and time.time() - failed_at > 15) or time.time() - t0 > secs + 150:
            for p, _ in procs:
                if p.poll() is None:
                    os.killpg(p.pid, 9)
            break
    for p, f in procs:
        p.wait()
        f.close()
    fails, tot = [], {}
    for w in range(jobs):
        for l in open(os.path.join(out, "out.%d" % w)):
            if l.startswith("FAIL "):
                _, f, i, js = l.split(" ", 3)
                fails.append((f, int(i), json.loads(js)))
            elif l.startswith("DONE "):
                merge(tot, json.loads(l[5:]))
    return fails, tot


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            a[k] = [x + y for x, y in zip(a.get(k, [0] * len(v)), v)]
        else:
            a[k] = a.get(k, 0) + v


def distinct(prop, out):
    sets = [set(), set(), set()]
    for f in sorted(os.listdir(out)):
        if f.startswith("hash-"):
            d = open(os.path.join(out, f), "rb").read()
            n = struct.unpack("3Q", d[:24])
            o = 24
            for k in range(3):
                sets[k].update(struct.unpack("%dQ" % n[k], d[o:o + 8 * n[k]]))
                o += 8 * n[k]
    return [len(s) for s in sets]


def known_findings(prop):
    """Listed defects of the tree: each has a trace that shows it."""
    res = []
    p = os.path.join(VERIF, "known", "findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k["property"] == prop:
                res.append(k)
    return res


def main():
    if sys.argv[1] == "--replay":
        rc, err = B.build(verbose=False)
        if rc:
            sys.stderr.write(err)
            return 2
        r = M.replay_file(sys.argv[2])
        if r is None:
            return 2
        say("%s %s: %s" % (KINDS.get(r["kind"], "held"), r["cls"], r["msg"]))
        for s in symbolise(r["pcs"]):
            say("    " + s)
        return 2 if r["kind"] == 6 else 1 if r["kind"] else 0

    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    secs = float(os.environ.get("SIM_SECS", BUDGET[tier]))
    jobs = int(os.environ.get("SIM_JOBS", os.cpu_count() or 8))
    t0 = time.time()
    say("property %s, seed %d, tier %s" % (prop, seed, tier))
    rc, err = B.build(verbose=False)
    if rc:
        sys.stderr.write(err[-6000:])
        say("ERROR the simulator does not build")
        return 2
    tb = time.time() - t0
    out = os.path.join(B.OUT, "run-" + prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)

    known_classes = set()
    nknown = 0
    for k in known_findings(prop):
        r = M.replay_file(os.path.join(VERIF, "known", k["trace"]))
        if r is not None and r["kind"] not in (0, 6):
            say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            nknown += 1

    # the directed runs kept from defects that were found before
    directed = []
    dd = os.path.join(VERIF, "directed")
    if os.path.isdir(dd):
        for f in sorted(os.listdir(dd)):
            if f.startswith(prop + "-"):
                directed.append(os.path.join(dd, f))
    fails = []
    ndir = 0
    for f in directed:
        r = M.replay_file(f)
        ndir += 1
        if r is None:
            say("ERROR directed run %s did not end" % f)
            return 2
        if r["kind"]:
            fails.append((f, -1, r))

    ts = time.time()
    nruns = int(os.environ.get("SIM_RUNS", RUNS.get(prop, RUNS["default"]) if tier == "quick" else 10**9))
    more, tot = search(prop, seed, secs, out, jobs, -(-nruns // jobs))
    fails += more
    wall = time.time() - ts

    violations, errors, seen = [], [], set()
    for f, i, info in fails:
        if info["cls"] in seen:
            continue
        seen.add(info["cls"])
        if info["kind"] == 6:
            errors.append("harness: %s %s" % (info["cls"], info["msg"]))
            continue
        # gate: two fresh processes reproduce the class, with the same history
        a, b = M.replay_file(f), M.replay_file(f)
        if not a or not b or a["kind"] != info["kind"] or a["cls"] != info["cls"] or b["cls"] != a["cls"] or a["hash"] != b["hash"]:
            errors.append("not reproduced: %s (%s / %s)" % (info["cls"], a and a["cls"], b and b["cls"]))
            continue
        text = open(f).read()
        if len(violations) < 3:
            mini = M.minimise(text, info["cls"], out, budget=60 if tier == "quick" else 150, jobs=jobs)
        else:
            mini = text
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s.trace" % (prop, re.sub(r"[^A-Za-z0-9_]+", "-", info["cls"])[:80]))
        open(rp, "w").write(mini)
        c, d = M.replay_file(rp), M.replay_file(rp)
        if not c or not d or c["cls"] != info["cls"] or d["cls"] != info["cls"] or c["hash"] != d["hash"]:
            open(rp, "w").write(text)
            c = a
        n = len(M.split(open(rp).read())[1])
        say("%s (%s), run %d of seed %d, %d operations after minimisation: %s" % (info["cls"], KINDS[info["kind"]], i, seed, n, c["msg"]))
        for s in symbolise(c["pcs"])[:8]:
            say("    " + s)
        violations.append((info["cls"], rp))
        if len(violations) >= 5:
            break

    nstates, ninter, nhist = distinct(prop, out)
    samples = []
    for i in (0, 1):
        p = subprocess.run([SIM, "gen", prop, str(seed), str(i)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        samples.append([l for l in p.stdout.splitlines() if l.startswith(("param", "op "))][:40])
    runs = tot.get("runs", 0)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": nhist,
        "rule": RULE.get(prop, RULE["default"]),
        "samples": samples,
        "directed_runs": ndir,
        "known_findings_replayed": nknown,
        "runs_per_hour": int(runs / max(wall, 1e-9) * 3600),
        "seeds_per_hour": int(runs / max(wall, 1e-9) * 3600),
        "simulated_time": {"api_operations": tot.get("ops", 0), "operations_that_changed_or_returned": tot.get("applied", 0),
                           "instrumented_steps": tot.get("steps", 0),
                           "note": "the library has no clock or timer; simulated time is counted in operations and instrumented steps"},
        "oracle_comparisons": tot.get("compares", 0),
        "observations_of_all_states": tot.get("observations", 0),
        "faults_fired": {"allocation_failure": tot.get("faults", 0), "invalid_argument_calls": tot.get("bad", 0),
                         "invalid_argument_calls_rejected": tot.get("badFailed", 0), "thread_switches": tot.get("switches", 0),
                         "child_processes_forked": tot.get("forks", 0)},
        "effective_undos": tot.get("undos", 0), "effective_redos": tot.get("redos", 0),
        "parallel_regions_run": tot.get("regions", 0),
        "conflicting_access_pairs_seen": tot.get("conflicts", 0),
        "distinct_world_states": nstates,
        "distinct_interleavings": ninter,
        "distinct_measure": "world states: hash of every observable of every state after an operation; interleavings: hash of the switch points of one parallel region; histories: hash of all operations and results of a run",
        "operations_ok_failed_faulted": tot.get("opstats", {}),
        "exit_codes": tot.get("codes", {}),
        "components": {"real": ["MeshKernel library", "MeshKernelApi C interface", "Triangle", "Eigen and boost headers", "libstdc++"],
                       "simulated": ["heap (operator new/delete, malloc of the library and of Triangle)", "OpenMP runtime (libgomp entry points): threads are fibers of one process, switches chosen by the seed", "memory accesses of the library are instrumented (own __tsan_* entry points)"],
                       "stub": ["version header"]},
        "build_s": round(tb, 1), "search_s": round(wall, 1), "workers": jobs,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"), "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    say("%d runs in %.0f s (build %.0f s), %d distinct histories, %d states, %d oracle comparisons, %d allocation faults, %d invalid calls, %d switches" %
        (runs, wall, tb, nhist, nstates, tot.get("compares", 0), tot.get("faults", 0), tot.get("bad", 0), tot.get("switches", 0)))
    for e in errors:
        say("ERROR " + e)
    for c, rp in violations:
        say("VIOLATION property=%s replay=%s" % (prop, rp))
    if violations:
        return 1
    if errors:
        return 2
    if runs == 0:
        say("ERROR no run was made")
        return 2
    return 0


RULE = {"default": "a case is one simulated run: a seeded sequence of API calls of several clients on several states with the faults and schedules of the property's profile; counted distinct by the hash of its complete history (operations, results, observed states), non-trivial because every run creates content and applies edits"}
ASSUME = ["the library is called from one thread at a time, as its API requires (the undo stack and the states are process-wide)",
          "between two edits of a mesh the client reads it back, as the documentation's examples do, unless the profile says otherwise",
          "g++ code generation and the instrumentation are trusted; x86-64"]

if __name__ == "__main__":
    sys.exit(main())
