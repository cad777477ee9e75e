"""Checks of the Python type (C13-C15): build the module from the working tree, search simulated executions, report."""
import json, os, re, subprocess, sys, time, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("REPO", "/repo"); SEED = int(os.environ.get("VERIF_SEED", "1")); TIER = os.environ.get("VERIF_TIER", "quick")
BUILD = os.path.join(VERIF, "build", "py"); WORKERS = min(8, os.cpu_count() or 8); PYTHON = "/opt/vp/venv/bin/python"
RULE = {"C13": "one evaluation = one seeded history of Python expressions, each under an explicit list of failing memory requests and then undisturbed, repeated five times; distinct by (operations, outcomes, requests, failures)",
        "C14": "one evaluation = one seeded program of 1-4 Python threads over shared objects with an explicit list of task switches; distinct by (operations, outcomes, switches)",
        "C15": "one evaluation = one seeded history of constructions from seeded buffer exporters with failing requests and changes by the owner; distinct by (operations, outcomes, requests, failures)"}
ASSUME = ["the simulator's run-time (pysim/rt.cpp) and the model (Python integers) are right", "pybind11, CPython and libstdc++ are real and trusted: memory requests made by pybind11 or the interpreter on their own account do not fail, except for the conversions to bytes, int, float and str",
          "threads interleave at bytecode boundaries of the client, at callbacks into Python code, and, whenever the GIL is released, at every function entry, exit and allocation of the repository's code", "ints up to 5000 bytes, buffers up to 70003 bytes"]
def die(m): print("CHECK-ERROR: " + m, flush=True); sys.exit(2)
def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(LD_PRELOAD=os.path.join(BUILD, "_simrt.so"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"); return e
def worker(*a, **k): return subprocess.Popen([PYTHON, os.path.join(HERE, "worker.py"), BUILD] + [str(x) for x in a], env=env(), stderr=subprocess.DEVNULL, **k)
def build():
    os.makedirs(BUILD, exist_ok=True)
    p = subprocess.run([os.path.join(HERE, "build.sh"), BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, REPO=REPO))
    if p.returncode: die("build failed\n" + p.stdout.decode(errors="replace")[-3000:])
def exec_case(path):
    p = worker("exec", path, stdout=subprocess.PIPE)
    try: out = p.communicate(timeout=120)[0].decode(errors="replace")
    except subprocess.TimeoutExpired: p.kill(); return None
    t = out.split(None, 3)
    return (t[0] == "VIOLATED", t[1], t[2], t[3].strip() if len(t) > 3 else "") if len(t) >= 3 else None
def known(prop):
    out = []; f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out
def check(prop):
    t0 = time.time(); build(); tb = time.time() - t0
    secs = float(os.environ.get("VERIF_SECONDS", 45 if TIER == "quick" else 780))
    scratch = os.path.join(VERIF, "build", "run-%s-%d" % (prop, os.getpid())); shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    N = 100
    ds = [worker("digest", prop, SEED * 7919 + k * 100000, N, stdout=subprocess.PIPE) for k in range(3) for _ in range(2)]
    outs = [d.communicate()[0].decode(errors="replace").splitlines() for d in ds]
    nondet = None
    for k in range(0, 6, 2):
        if len(outs[k]) != N or len(outs[k + 1]) != N: die("the simulator ended early")
        for a, b in zip(outs[k], outs[k + 1]):
            if a != b: nondet = nondet or (a, b)
    jobs = []
    for w in range(WORKERS):
        out = os.path.join(scratch, "w%d" % w)
        jobs.append([out, worker("batch", prop, SEED, w, WORKERS, secs, out, stdout=open(out + ".log", "w")), False])
    verdicts = []; unrepro = []; seen = set(); deadline = time.time() + secs + 200
    while True:
        alive = False
        for j in jobs:
            if j[2]: continue
            if j[1].poll() is None: alive = True; continue
            j[2] = True
            if os.path.exists(j[0] + ".violation"):
                ok = None
                for ext in (".violation", ".original"):
                    r = [exec_case(j[0] + ext) for _ in range(3)]
                    if all(r) and r[0][0] and r[0][1:3] == r[1][1:3] == r[2][1:3]: ok = (ext, r[0]); break
                if ok:
                    if ok[1][1] == "harness": die("the harness failed: " + ok[1][3] + "\n" + open(j[0] + ok[0]).read()[:2000])
                    key = [what for pat, what in known(prop) if re.search(pat, ok[1][1] + ":" + ok[1][3])]
                    if key: seen.add(key[0])
                    else: verdicts.append((open(j[0] + ok[0]).read(), ok[1]))
                else: unrepro.append(open(j[0] + ".log").read().strip()[-600:])
        if verdicts or not alive or time.time() > deadline: break
        time.sleep(0.05)
    for j in jobs:
        if j[1].poll() is None:
            j[1].send_signal(signal.SIGTERM)
            try: j[1].wait(5)
            except subprocess.TimeoutExpired: j[1].kill(); j[1].wait()
    runs = 0; sec = 0.01; tot = {}; yl = [0] * 8; rts = [0] * 5; multi = 0; dig = set(); sites = set(); states = set(); samples = []; exps = {}
    for out, p, _ in jobs:
        try: s = json.load(open(out + ".stats"))
        except (OSError, ValueError): continue
        runs += s["runs"]; sec = max(sec, s["seconds"]); multi += s["multi"]; dig.update(s["dig"]); sites.update(s["sites"]); states.update(s["states"]); samples += s["samples"]
        for k, v in s["tot"].items(): tot[k] = tot.get(k, 0) + v
        for k, v in s["exporters"].items(): exps[k] = exps.get(k, 0) + v
        yl = [a + b for a, b in zip(yl, s["yields"])]; rts = [a + b for a, b in zip(rts, s["rt"])]
    cov = {"evaluations": runs, "distinct_nontrivial": len(dig), "rule": RULE[prop], "samples": samples[:3], "seeds_per_hour": int(runs / sec * 3600), "workers": WORKERS,
           "simulated_steps": rts[4], "simulated_time": "%d steps (no clock is involved; a step is a function entry of the repository's code)" % rts[4],
           "operations": tot.get("ops", 0), "attempts": tot.get("attempts", 0), "eligible_memory_requests": tot.get("eligible", 0),
           "faults_injected": {"operator_new_failed": rts[2], "python_allocation_failed": rts[3], "attempts_with_a_failure": tot.get("fired", 0)},
           "MemoryError_seen": tot.get("oom", 0), "failure_survived_with_exact_result": tot.get("tolerated", 0), "documented_errors_seen": tot.get("errors", 0), "object_checks": tot.get("checks", 0),
           "multithreaded_runs": multi, "decision_points": yl[0], "task_switches": yl[1], "gil_releases": yl[2], "decision_points_by_kind": {"python": yl[3], "allocation": yl[4], "function": yl[5], "gil": yl[6]},
           "exporters": exps, "distinct_fault_sites": len(sites), "distinct_fault_sites_measure": "(operation, outcome, failing request, requests)", "distinct_states": len(states), "distinct_states_measure": "hash of all variables after a round",
           "determinism_sample": {"seeds": 3 * N, "mismatches": 1 if nondet else 0},
           "components_real": ["bindings/python/python-bindings.cpp and every unit of /repo/src, compiled from the working tree", "pybind11 2.13.6, CPython 3.12, libstdc++", "threads (real, one runs at a time)"],
           "components_stubbed": ["C++ heap and CPython allocators (failures, accounting)", "thread scheduling and GIL hand-over", "buffer exporters", "client program (seeded)"],
           "build_s": round(tb, 1), "known_findings_seen": sorted(seen), "unreproducible": unrepro}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(verdicts)}, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(scratch, ignore_errors=True)
    for pat, what in known(prop): print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if verdicts:
        text, r = verdicts[0]; d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True); n = 0
        while True:
            p = os.path.join(d, "%s-%d-py%s.case" % (prop, SEED, "-%d" % n if n else ""))
            if not os.path.exists(p): break
            n += 1
        open(p, "w").write("# python: replay with ./check.py --replay <this file>\n" + text + "\n")
        print("%s: class %s: %s" % (prop, r[1], r[3]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(p, VERIF)), flush=True)
        return 1
    if nondet: die("executions of one seed differ:\n  %s\n  %s" % nondet)
    if unrepro: die("a violation could not be reproduced:\n" + "\n".join(unrepro))
    if runs < 20: die("too few executions (%d)" % runs)
    print("%s held: %d runs, %d distinct, %d operations, %.1f s" % (prop, runs, len(dig), tot.get("ops", 0), time.time() - t0))
    return 0
def replay(path):
    build(); r = exec_case(path)
    print(*r); return 1 if r[0] else 0
