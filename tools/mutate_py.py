#!/usr/bin/env python3
"""mutate_py.py SEED COUNT OUT [SECS]: random small edits of the Python bindings that compile, each given SECS (8) of one worker of C13, C14, C15.
Calibration only: prints what caught each mutant; keeps the diffs of those nothing caught in OUT. Works under /tmp."""
import os, re, random, subprocess, sys, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/../pysim")
import run
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]; secs = sys.argv[4] if len(sys.argv) > 4 else "8"
R = "/repo"; F = "bindings/python/python-bindings.cpp"; os.makedirs(out, exist_ok=True)
W = "/tmp/mutpy"; shutil.rmtree(W, ignore_errors=True); B = W + "/base"
subprocess.run([run.HERE + "/build.sh", B], check=True)
OPS = [(r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < ", " >= "]), (r" >= ", [" > ", " <= "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" % "]), (r" % ", [" / "]),
       (r"\b1\b", ["0", "2"]), (r"\b0\b", ["1"]), (r"\b7\b", ["6", "8"]), (r"\b8\b", ["7"]), (r"\+1\b", ["", "+2"]), (r"-1\b", ["", "-2"]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"<<", [">>"]), (r">>", ["<<"]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"!", [""]), (r"0x80", ["0x40"]), (r"0xff", ["0x7f"]), (r"0x00", ["0x01"]), (r"break;", [";"]), (r" \+= ", [" = "]), (r"\bint\b(?=>|\()", ["long", "short"]), (r"return -self", ["return self"]), (r"return ~self", ["return self"]),
       (r"const auto data", ["static const auto data"]), (r"std::vector<unsigned char> (?=buffer|data)", ["static std::vector<unsigned char> "]), (r"reinterpret_steal", ["reinterpret_borrow"]), (r"info\.strides\[0\]", ["1", "info.itemsize"]), (r"info\.size\b", ["info.shape[0]", "info.itemsize"]),
       (r"\bauto (?=big)", ["static auto "]), (r"BigInteger (?=remainder;|copy)", ["static BigInteger "]), (r"\bself\b", ["other"]), (r"\bother\b", ["self"]), (r"to_py_int\((\w+)\)", [r"\1"]), (r"to_biginteger\((\w+)\)", [r"BigInteger(\1.cast<int>())", r"BigInteger(\1.cast<long long>())"]), (r"!is_signed", ["is_signed"]), (r"!is_bigendian", ["is_bigendian"]),
       (r"16777619", ["16777618"]), (r"py::arg\(\"value\"\)", ["py::arg(\"value\").none(false)"])]
def mutants():
    rnd = random.Random(seed); seen = set(); L0 = open(R + "/" + F).read().split("\n")
    allc = []
    for i, l in enumerate(L0):
        if l.strip().startswith(("//", "_PyLong_As", "#", "*", "/*", "m.doc")) or not l.strip(): continue
        for p, xs in OPS:
            for m in re.finditer(p, l.split("//")[0]):
                for x in xs:
                    n = l[:m.start()] + m.expand(x) + l[m.end():]
                    if n != l: allc.append((i, n))
        if re.match(r"^\s+[A-Za-z_&*].*;\s*$", l) and not re.match(r"^\s+(auto|int|long|uint|unsigned|bool|std::|const|BigInteger |size_t|double)", l): allc.append((i, ""))
        if re.match(r"^\s+(if|for) ", l): allc.append((i, re.sub(r"(if|for) ?\(.*\)", "if (false)", l)))
    allc = list(dict.fromkeys(allc)); rnd.shuffle(allc)
    print("%d candidates" % len(allc), flush=True)
    for i, n in allc:
        L = list(L0); L[i] = n; yield i, "\n".join(L), L0[i], n
FLAGS = [l for l in open(run.HERE + "/build.sh").read().split("\n") if l.startswith(("FLAGS", "INSTR"))]
def cmd(src, d):
    s = "PY=/opt/vp/venv/bin/python; PYINC=$($PY -c 'import sysconfig;print(sysconfig.get_paths()[\"include\"])'); PBINC=$($PY -c 'import pybind11;print(pybind11.get_include())'); " + "; ".join(FLAGS)
    s += "; g++ $FLAGS $INSTR -I%s/include/public -I%s/include -I%s/a/b -I%s/include/public -I$PYINC -I$PBINC -c %s -o %s/bindings.o" % (R, R, B, B, src, d)
    s += " && g++ -shared -o %s/pybiginteger.so %s/bindings.o %s/u*.o %s/wrap.o -Wl,--wrap=PyEval_SaveThread -Wl,--wrap=PyEval_RestoreThread && cp %s/_simrt.so %s/ && nm %s/pybiginteger.so | awk '$2 ~ /^[tTwW]$/ {print $1, $3}' > %s/symbols" % (d, d, B, B, B, d, d, d)
    return s
def one(k, m):
    i, text, old, new = m; d = W + "/m%d" % k; os.makedirs(d + "/x/y/"); src = d + "/x/y/python-bindings.cpp"
    try:
        open(src, "w").write(text.replace('"../../include/public/bigintegercpp/version.h"', '"%s/include/public/bigintegercpp/version.h"' % B).replace('"../../include/', '"%s/include/' % R))
        if subprocess.run(cmd(src, d), shell=True, capture_output=True).returncode: return "nocompile"
        for p in ("C13", "C15", "C14"):
            w = subprocess.Popen([run.PYTHON, run.HERE + "/worker.py", d, "batch", p, "1", "0", "8", secs, d + "/o"], env=run.env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            try: w.communicate(timeout=float(secs) + 100)
            except subprocess.TimeoutExpired: w.kill(); w.communicate(); return "hang %s" % p
            if os.path.exists(d + "/o.violation"): return "caught %s" % p
            if w.returncode != 0: return "ended %s rc=%s" % (p, w.returncode)
        b = d + "/b"; os.makedirs(b + "/a/bindings/python"); os.makedirs(b + "/b/bindings/python"); shutil.copy(R + "/" + F, b + "/a/" + F); open(b + "/b/" + F, "w").write(text)
        diff = subprocess.run(["diff", "-u", "a/" + F, "b/" + F], cwd=b, capture_output=True, text=True).stdout
        open(out + "/p%d-%d.diff" % (seed, k), "w").write(re.sub(r"^(---|\+\+\+) (\S+).*$", r"\1 \2", diff, flags=re.M))
        return "NOT"
    finally: shutil.rmtree(d, ignore_errors=True)
g = mutants(); first = int(os.environ.get("FIRST", "0")); only = os.environ.get("ONLY", "").split(); todo = [(k, m) for k, m in zip(range(count), g) if k >= first and (not only or str(k) in only)]; tally = {}
with cf.ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
    for (k, m), r in zip(todo, ex.map(lambda a: one(*a), todo)):
        tally[r.split()[0]] = tally.get(r.split()[0], 0) + 1
        if not r.startswith(("caught", "nocomp")): print("p%d-%d %s line %d: %s -> %s" % (seed, k, r, m[0] + 1, m[2].strip(), m[3].strip()), flush=True)
print(tally); shutil.rmtree(W, ignore_errors=True)
