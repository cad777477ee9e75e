"""runs under LD_PRELOAD=_simrt.so: worker.py BUILD exec FILE | digest PROP SEED COUNT | batch PROP SEED W WORKERS SECONDS OUT | gen PROP SEED"""
import sys, os, json, time, struct, signal, gc
build = sys.argv[1]
sys.path[:0] = [build, os.path.dirname(os.path.abspath(__file__))]
sys.set_int_max_str_digits(4300)
import world
sys.setswitchinterval(1e6)
def load():
    import _simrt
    syms = []
    for l in open(os.path.join(build, "symbols")):
        a, n = l.split(None, 1)
        p = n.strip()
        q = p[2:] if p.startswith("_Z") else p
        while q[:1] == "Z" or q[:1] == "N": q = q[1:]
        q = q.lstrip("KVRO") if p.startswith("_Z") else q
        conv = q.startswith(("8pybind115bytesC", "8pybind116float_C", "8pybind114int_C", "8pybind113strC")) # conversions belong to whoever asks for them
        other = q.startswith(("8pybind11", "S")) or not p.startswith("_Z") or p.startswith(("_ZGV", "_ZTh", "_ZSt", "_ZNSt", "_ZNKSt"))
        syms.append((int(a, 16), 3 if conv else 0 if other else 1))
    syms = sorted(set(syms))
    _simrt.symbols(b"".join(struct.pack("<QQ", *s) for s in syms))
    import pybiginteger
    world.rt = _simrt; world.BI = pybiginteger.BigInteger
    gc.disable()
    world.sys.set_int_max_str_digits(0) if False else None
def warm():
    """one-time initialisations happen before the children are forked, unless the code under test cannot bear it"""
    pid = os.fork()
    if pid == 0:
        try: signal.alarm(15); os.dup2(os.open(os.devnull, os.O_WRONLY), 2); warm_case()
        except BaseException: os._exit(1)
        os._exit(0)
    if os.waitpid(pid, 0)[1] == 0: warm_case()
    gc.collect(); gc.freeze()
def warm_case():
    r = world.World({"prop": "C13", "init": ["0x5", "-0x123456789abcdef01"], "exp": [{"t": "bytes", "data": "01"}], "rounds": 2, "tasks": [[{"o": "add", "x": [["s", 0], ["s", 1]], "d": 0, "f": [[1, 0, 3]]}, {"o": "buf", "e": 0, "d": 1}, {"o": "floordiv", "x": [["s", 0], ["i", "0x0"]], "d": 0}]]})
    r.run()
def child(case):
    """run one case in a child -> dict"""
    r, w = os.pipe(); er, ew = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r); os.close(er); os.dup2(ew, 2)
            signal.alarm(15)
            W = world.World(case)
            bad = W.run()
            res = {"bad": bad, "digest": W.h.hexdigest(), "st": W.st, "sites": [hash(x) & (2**63 - 1) for x in W.sites], "states": [x & (2**63 - 1) for x in W.states], "yields": W.yields, "rt": world.rt.stats()}
            os.write(w, json.dumps(res).encode() if len(json.dumps(res)) < 60000 else json.dumps({**res, "sites": [], "states": []}).encode())
        except BaseException as e:
            os.write(w, json.dumps({"bad": world.surprise(e), "digest": "", "st": {}, "sites": [], "states": [], "yields": None, "rt": [0] * 5}).encode())
        finally: os._exit(0)
    os.close(w); os.close(ew)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b: break
        data += b
    err = os.read(er, 2000).decode(errors="replace"); os.close(r); os.close(er)
    _, status = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(status):
            s = os.WTERMSIG(status)
            bad = ["hang", "the case does not end"] if s == signal.SIGALRM else ["died", "the interpreter died of %s %s" % (signal.Signals(s).name, err.strip()[-300:])]
        else: bad = ["died", "the interpreter ended: %s" % err.strip()[-300:]]
        return {"bad": bad, "digest": bad[0], "st": {}, "sites": [], "states": [], "yields": None, "rt": [0] * 5}
    return json.loads(data)
def dump(case): return json.dumps(case, separators=(",", ":"))
def minimise(case, cls, budget):
    """smaller cases with the same class of violation"""
    end = time.time() + budget
    def bad(c):
        try: r = child(c)
        except Exception: return False
        return bool(r["bad"]) and r["bad"][0] == cls
    def attempt(c):
        nonlocal case
        if time.time() > end: return False
        if bad(c): case = c; return True
        return False
    cp = lambda c: json.loads(json.dumps(c))
    again = True
    while again and time.time() < end:
        again = False
        for t in range(len(case["tasks"]) - 1, -1, -1):
            if len(case["tasks"]) > 1:
                c = cp(case); del c["tasks"][t]
                if attempt(c): again = True; continue
            i = 0
            while t < len(case["tasks"]) and i < len(case["tasks"][t]):
                c = cp(case); del c["tasks"][t][i]
                if attempt(c): again = True
                else: i += 1
        i = 0
        while i < len(case["sched"]):
            c = cp(case); del c["sched"][i]
            if attempt(c): again = True
            else: i += 1
        for t in range(len(case["tasks"])):
            for i in range(len(case["tasks"][t])):
                o = case["tasks"][t][i]
                if o.get("f"):
                    c = cp(case); c["tasks"][t][i]["f"] = []
                    if attempt(c): again = True
                    else:
                        for f in o["f"]:
                            if len(case["tasks"][t][i]["f"]) > 1:
                                c = cp(case); c["tasks"][t][i]["f"] = [f]
                                if attempt(c): again = True; break
                for j, x in enumerate(o.get("x", [])):
                    if x[0] not in "sbq":
                        v = int(x[1], 16)
                        for nv in (0, 1, -1, v >> (v.bit_length() // 2), v >> 8):
                            if abs(nv) < abs(v):
                                c = cp(case); c["tasks"][t][i]["x"][j][1] = hex(nv)
                                if attempt(c): again = True; break
        for k in range(len(case["init"])):
            v = int(case["init"][k], 16)
            for nv in (0, 1, -1, v >> (v.bit_length() // 2), v >> 8):
                if abs(nv) < abs(v):
                    c = cp(case); c["init"][k] = hex(nv)
                    if attempt(c): again = True; break
        if case["rounds"] > 1 and cls != "leak":
            c = cp(case); c["rounds"] = 1
            if attempt(c): again = True
    return case
def line(r): return "%s %s %s" % ("VIOLATED" if r["bad"] else "ok", r["bad"][0] if r["bad"] else "-", r["digest"] if not r["bad"] or r["bad"][0] not in ("died", "hang") else r["bad"][0])
def main():
    load(); warm()
    mode = sys.argv[2]
    if mode == "exec":
        r = child(json.loads("".join(l for l in open(sys.argv[3]) if not l.startswith("#"))))
        print(line(r), (r["bad"][1] if r["bad"] else "")); return
    if mode == "gen": print(dump(world.gen_case(sys.argv[3], int(sys.argv[4])))); return
    if mode == "digest":
        for s in range(int(sys.argv[4]), int(sys.argv[4]) + int(sys.argv[5])): print(s, line(child(json.loads(dump(world.gen_case(sys.argv[3], s))))))
        return
    prop, seed, w, workers, secs, out = sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), float(sys.argv[7]), sys.argv[8]
    t0 = time.time(); n = 0; tot = {}; sites = set(); states = set(); digests = set(); yl = [0] * 8; rts = [0] * 5; samples = []; kinds = {}; bad = None; multi = 0; exps = {}
    while time.time() - t0 < secs:
        s = seed * 1000000007 + n * workers + w; n += 1
        text = dump(world.gen_case(prop, s)); case = json.loads(text)
        r = child(case)
        digests.add(r["digest"]); sites.update(r["sites"]); states.update(r["states"])
        for k, v in r["st"].items(): tot[k] = tot.get(k, 0) + v
        rts = [a + b for a, b in zip(rts, r["rt"])]
        if r["yields"]: multi += 1; yl = [a + b for a, b in zip(yl, [r["yields"][i] for i in (0, 1, 2, 4, 5, 6, 7)] + [0])]
        for e in case["exp"]: exps[e["t"]] = exps.get(e["t"], 0) + 1
        if len(samples) < 2 and not r["bad"]: samples.append(text)
        if r["bad"]:
            open(out + ".original", "w").write(text)
            m = minimise(case, r["bad"][0], 60 if r["bad"][0] != "hang" else 50)
            open(out + ".violation", "w").write(dump(m))
            bad = r["bad"]; print("seed %d: %s" % (s, bad)); break
    json.dump({"runs": n, "seconds": time.time() - t0, "tot": tot, "yields": yl, "multi": multi, "rt": rts, "exporters": exps, "samples": samples, "digests": len(digests), "sites": sorted(sites), "states": sorted(states)[:200000], "dig": sorted(digests), "bad": bad}, open(out + ".stats", "w"))
main()
