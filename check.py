#!/usr/bin/env python3
"""check.py PROPERTY: rebuild the library from /repo, search simulated executions for a violation, report.
check.py --replay FILE: run one recorded case again (exit 1 if it is violated).
Exit 0: held on everything explored. 1: VIOLATION line. 2: the check itself could not decide."""
import json, os, re, struct, subprocess, sys, time, fcntl, signal, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
WORKERS = min(8, os.cpu_count() or 8)
BUILD = os.path.join(HERE, "build", "cpp")
CPP = ["C%02d" % i for i in range(1, 13)]
PY = ["C13", "C14", "C15"]
QUICK = {"C02": 75, "C03": 60, "C12": 60}
M64 = (1 << 64) - 1

RULE = {
    "C01": "one evaluation = one seeded history of library calls over 8 registers with an explicit allocation-fault plan per call; non-trivial = a fault fired or the history differs in (operation, outcome, fault position) from every other",
    "C05": "one evaluation = one seeded program of 2-4 threads with an explicit list of preemptions at memory accesses; non-trivial = at least one preemption or fault took place; distinct by (operations, outcomes, preemption points)",
    "C07": "one evaluation = one seeded program with saves, killed at explicit steps/sectors, restored and replayed; distinct by (operations, outcomes, kill points)",
    "C09": "one evaluation = one seeded history run in two simulated environments; distinct by (operations, outcomes, environment)",
    "C10": "one evaluation = one seeded order of the real initialisers/finalisers with client jobs; distinct by (operations, outcomes, order)",
    "C12": "one evaluation = one seeded history under an explicit heap limit, or a call on large operands on a 64 KB stack; distinct by (operations, outcomes, limits, stack use)",
}
RULE["C06"] = RULE["C11"] = RULE["C05"]
RULE["C02"] = RULE["C03"] = RULE["C04"] = RULE["C01"]
RULE["C08"] = "one evaluation = one seeded history that loads damaged bytes/words/text; distinct by (operations, outcomes, fault positions, data)"

def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)

def build():
    os.makedirs(BUILD, exist_ok=True)
    p = subprocess.run([os.path.join(HERE, "sim", "build.sh"), BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, REPO=REPO))
    if p.returncode:
        die("build failed\n" + p.stdout.decode(errors="replace")[-3000:])

def sim(flavour):
    return os.path.join(BUILD, "sim-" + flavour)

def exec_case(flavour, path, timeout=300):
    """-> (violated, class, place, digest, result digest, message)"""
    p = subprocess.run([sim(flavour), "exec", "--file", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    t = p.stdout.decode(errors="replace").split(None, 5)
    if len(t) < 5: return None
    return (t[0] == "VIOLATED", t[1], t[2], t[3], t[4], t[5].strip() if len(t) > 5 else "")

def known(prop):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def write_evidence(prop, cov, wall, violations, assumptions):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

ASSUME = [
    "the simulator's heap, schedule and reference model (sim/rt.cpp, sim/model.cpp, GMP) are right",
    "simulated threads are sequentially consistent; weaker memory orders are covered only through the absence of data races",
    "operands are bounded (up to 300 words in histories, 12000 words on small stacks); steps are memory accesses, allocations and library calls at -O1",
    "the C and C++ run-time libraries are real and trusted; allocation failures inside the exception machinery itself are not injected",
]
REAL = ["every translation unit of /repo/src, compiled from the working tree (assertions on, and off)", "libstdc++ and the C++ exception machinery", "the client's inlined header code"]
STUB = ["heap (simulated, with failures)", "thread scheduler, locks, guards of function-local statics", "process start-up and exit order", "durable storage of saved values", "clocks, random sources, ids, environment variables", "client program (seeded)"]

def save_replay(prop, text, flavour, note):
    d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
    n = 0
    while True:
        p = os.path.join(d, "%s-%d-%s%s.case" % (prop, SEED, flavour, "-%d" % n if n else ""))
        if not os.path.exists(p): break
        n += 1
    with open(p, "w") as f: f.write("# flavour %s\n# %s\n" % (flavour, note) + text)
    return os.path.relpath(p, HERE)

def check_cpp(prop):
    t0 = time.time()
    build()
    tb = time.time() - t0
    secs = float(os.environ.get("VERIF_SECONDS", QUICK.get(prop, 45) if TIER == "quick" else 780))
    scratch = os.path.join(HERE, "build", "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    # determinism: the same seeds in two processes (and, for C09, in a program image lying elsewhere) give the same executions
    det_n = 120 if prop != "C12" else 40
    dets = [subprocess.Popen([sim(x), "digest", "--prop", prop, "--seed", str(SEED * 7919 + k * 100000), "--count", str(det_n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            for k in range(3) for x in (("assert", "alt", "gcc") if prop == "C09" else ("assert", "assert"))]
    outs = [d.communicate()[0].decode(errors="replace").splitlines() for d in dets]
    if any(len(o) != det_n for o in outs): die("the simulator ended early")
    nondet = None; replica = None
    if prop == "C09": # the same histories in a program made by another compiler (failure plans count allocations, which are a compiler's business)
        for k in range(0, len(outs), 3):
            for a, b in zip(outs[k], outs[k + 2]):
                x, y = a.split(), b.split()
                if x[1] == y[1] and x[4] == y[4] == "1" and x[3] != y[3]: replica = replica or (x[0], a, b, "assert+gcc", "two replicas of this history, compiled by different compilers, give different results")
        outs = [o for i, o in enumerate(outs) if i % 3 != 2]
    for k in range(0, len(outs), 2):
        for a, b in zip(outs[k], outs[k + 1]):
            if a != b:
                x, y = a.split(), b.split()
                nondet = nondet or (a, b)
                if prop == "C09" and (x[3] != y[3] or x[1] != y[1]): replica = replica or (x[0], a, b, "assert+alt", "two replicas of this history, their program images at different addresses, give different results")
    if replica:
        case = subprocess.run([sim("assert"), "gen", "--prop", prop, "--seed", replica[0]], stdout=subprocess.PIPE).stdout.decode()
        rel = save_replay(prop, case, *replica[3:])
        print("two replicas of the history of seed %s differ: %s / %s" % replica[:3])
        write_evidence(prop, {"evaluations": 2 * det_n * 3, "distinct_nontrivial": det_n * 3, "rule": RULE[prop], "samples": [case]}, time.time() - t0, 1, ASSUME)
        print("VIOLATION property=%s replay=%s" % (prop, rel), flush=True)
        return 1
    # seeded search
    jobs = []
    for w in range(WORKERS):
        fl = ("assert", "gcc", "ndebug", "assert", "ndebug", "assert", "assert", "gcc")[w % 8]
        out = os.path.join(scratch, "w%d" % w)
        p = subprocess.Popen([sim(fl), "batch", "--prop", prop, "--seed", str(SEED), "--worker", str(w), "--workers", str(WORKERS), "--seconds", str(secs), "--out", out],
                             stdout=open(out + ".log", "w"), stderr=subprocess.DEVNULL)
        jobs.append([fl, out, p, False])
    verdicts = []; unrepro = []; found_known = set()
    deadline = time.time() + secs + 150
    while True:
        alive = False
        for j in jobs:
            if j[3]: continue
            if j[2].poll() is None: alive = True; continue
            j[3] = True
            if os.path.exists(j[1] + ".violation"):
                ok = None
                for ext in (".violation", ".original"):
                    r = [exec_case(j[0], j[1] + ext) for _ in range(3)]
                    if all(r) and r[0][0] and r[0] == r[1] == r[2]: ok = (ext, r[0]); break
                if ok:
                    key = None
                    text = open(j[1] + ok[0]).read()
                    for pat, what in known(prop):
                        if re.search(pat, ok[1][1] + ":" + ok[1][5]): key = what
                    if key: found_known.add(key)
                    else: verdicts.append((j[0], text, ok[1]))
                else: unrepro.append(open(j[1] + ".log").read().strip()[-600:])
        if verdicts or not alive or time.time() > deadline: break
        time.sleep(0.05)
    for j in jobs:
        if j[2].poll() is None:
            j[2].send_signal(signal.SIGTERM)
            try: j[2].wait(5)
            except subprocess.TimeoutExpired: j[2].kill(); j[2].wait()
    # evidence
    tot = {}; faults = {}; worlds = {}; sets = [set(), set(), set()]; samples = []; need = {}
    for fl, out, p, done in jobs:
        if not os.path.exists(out + ".stats"): continue
        try: s = json.load(open(out + ".stats"))
        except ValueError: continue
        for k, v in s.items():
            if k == "faults": [faults.__setitem__(a, faults.get(a, 0) + b) for a, b in v.items()]
            elif k == "worlds": [worlds.__setitem__(a, worlds.get(a, 0) + b) for a, b in v.items()]
            elif k == "need":
                for a, b in v.items(): need[a] = [max(x, y) for x, y in zip(need.get(a, [0, 0, 0]), b)]
            elif k in ("stack", "slowest", "seconds"): tot[k] = max(tot.get(k, 0), v)
            elif k != "slowest_seed": tot[k] = tot.get(k, 0) + v
        try:
            raw = open(out + ".sets", "rb").read(); at = 0
            for st in sets:
                n, = struct.unpack_from("<Q", raw, at); at += 8
                st.update(struct.unpack_from("<%dQ" % n, raw, at)); at += 8 * n
        except (OSError, struct.error): pass
        if os.path.exists(out + ".samples"): samples += [x for x in open(out + ".samples").read().split("\x1e") if x.strip()]
    runs = tot.get("runs", 0)
    cov = {"evaluations": runs, "distinct_nontrivial": len(sets[0]), "rule": RULE[prop], "samples": samples[:3],
           "seeds_per_hour": int(runs / max(tot.get("seconds", 1), 0.01) * 3600), "workers": WORKERS, "worlds": worlds,
           "simulated_steps": tot.get("steps", 0), "simulated_time": "%d steps (the library has no clock; a step is one memory access, allocation or synchronisation of library code)" % tot.get("steps", 0),
           "library_calls": tot.get("ops", 0), "calls_skipped_as_too_large": tot.get("skipped", 0), "model_comparisons": tot.get("checks", 0), "repeated_after_failure": tot.get("repeated", 0),
           "allocations": tot.get("allocs", 0), "faults_injected": faults, "bad_alloc_seen_by_client": tot.get("threw_oom", 0), "documented_errors_seen": tot.get("documented_errors", 0),
           "saves": tot.get("saves", 0), "restores": tot.get("restores", 0), "torn_writes": tot.get("torn", 0),
           "distinct_states": len(sets[1]), "distinct_states_measure": "hash of all register values after a call", "distinct_fault_sites": len(sets[2]), "distinct_fault_sites_measure": "(operation, outcome, failing allocation, allocations of the call)",
           "max_stack_bytes": tot.get("stack", 0), "undisturbed_run_violates_something_else": tot.get("base_bad", 0), "violations_of_other_properties_ignored": tot.get("foreign", 0),
           "worst_need_steps_edges_heap": {k: [round(x, 3) for x in v] for k, v in sorted(need.items(), key=lambda kv: -kv[1][0])[:12]},
           "worst_heap": {k: round(v[2], 3) for k, v in sorted(need.items(), key=lambda kv: -kv[1][2])[:12]},
           "determinism_sample": {"seeds": 3 * det_n, "mismatches": 0 if not nondet else 1}, "components_real": REAL, "components_stubbed": STUB, "build_s": round(tb, 1),
           "known_findings_seen": sorted(found_known), "unreproducible": unrepro}
    viol = len(verdicts)
    write_evidence(prop, cov, time.time() - t0, viol, ASSUME)
    shutil.rmtree(scratch, ignore_errors=True)
    for pat, what in known(prop): print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if verdicts:
        fl, text, r = verdicts[0]
        rel = save_replay(prop, text, fl, "replay: ./check.py --replay <this file>")
        print("%s: class %s at %s: %s" % (prop, r[1], r[2], r[5]))
        print("VIOLATION property=%s replay=%s" % (prop, rel), flush=True)
        return 1
    if nondet: die("executions of one seed differ:\n  %s\n  %s" % nondet)
    if unrepro: die("a violation could not be reproduced:\n" + "\n".join(unrepro))
    if runs < 20: die("too few executions (%d)" % runs)
    print("%s held: %d runs, %d distinct, %d calls, %.1f s" % (prop, runs, len(sets[0]), tot.get("ops", 0), time.time() - t0))
    return 0

def replay(path):
    text = open(path).read()
    if text.startswith("# python"):
        sys.path.insert(0, os.path.join(HERE, "pysim")); import run
        return run.replay(path)
    m = re.match(r"# flavour (\S+)", text)
    build()
    fl = m.group(1) if m else "assert"
    if "+" in fl:
        a, b = [exec_case(x, path) for x in fl.split("+")]
        print(a, b, sep="\n"); return 1 if a[4] != b[4] else 0
    r = exec_case(fl, path)
    print(*r)
    return 1 if r[0] else 0

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay": return replay(sys.argv[2])
    if len(sys.argv) != 2: die("usage: check.py PROPERTY | --replay FILE | --setup")
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    lock = open(os.path.join(HERE, "build", "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    if sys.argv[1] == "--setup": build(); sys.path.insert(0, os.path.join(HERE, "pysim")); import run; run.build(); print("built"); return 0
    prop = sys.argv[1]
    if prop in CPP: return check_cpp(prop)
    if prop in PY:
        sys.path.insert(0, os.path.join(HERE, "pysim")); import run
        return run.check(prop)
    die("unknown property " + prop)

if __name__ == "__main__":
    try: rc = main()
    except subprocess.TimeoutExpired as e: die(str(e))
    sys.exit(rc)
