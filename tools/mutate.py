#!/usr/bin/env python3
"""mutate.py SEED COUNT OUT [FILES...]: random small edits of /repo's sources that compile and pass its tests, one diff each in OUT.
Calibration only: shows what the checks would miss. Works on copies under /tmp."""
import os, re, random, subprocess, sys, shutil, glob, concurrent.futures as cf
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
R = '/repo'; os.makedirs(out, exist_ok=True)
files = sys.argv[4:] or ['src/BigInteger.cpp'] + sorted(os.path.relpath(f, R) for f in glob.glob(R + '/src/*/*.cpp'))
W = '/tmp/mut'; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
SRC = sorted(os.path.relpath(f, R) for f in glob.glob(R + '/src/**/*.cpp', recursive=True))
INC = ['-I%s/include/public' % R, '-I%s/include' % R]
def cc(src, obj, extra=[]): return subprocess.run(['g++', '-std=c++17', '-O1', '-w', '-fPIC'] + INC + extra + ['-c', src, '-o', obj], capture_output=True, timeout=200).returncode == 0
with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda f: cc(R + '/' + f, W + '/' + f.replace('/', '_') + '.o'), SRC))
TO = glob.glob(R + '/_build/tests/CMakeFiles/unit_tests.dir/*.o'); GT = [R + '/_build/lib/libgtest_main.a', R + '/_build/lib/libgtest.a']
OPS = [(r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']), (r' \+ ', [' - ']), (r' - ', [' + ']),
       (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r'\b1\b', ['0', '2']), (r'\b0\b', ['1']), (r'\b2\b', ['1', '3']), (r'\b3\b', ['2']), (r'\b32\b', ['31']), (r'\b31\b', ['32', '30']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r'<<', ['>>']), (r'>>', ['<<']), (r' & ', [' | ']), (r' \| ', [' & ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\+\+', ['--']), (r'!', ['']), (r'\blhs\b', ['rhs']), (r'\bleft\b', ['right']),
       (r'break;', [';']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ', ' = ']), (r'uint64_t', ['uint32_t']), (r'0xFFFFFFFF', ['0x7FFFFFFF']), (r'-', [''])]
def stmt(l): return re.match(r'^\s+[A-Za-z_&*][^=]*(\(.*\)|=.*|\+\+|--);\s*$', l) and not re.match(r'^\s+(return|auto|int|long|uint|unsigned|bool|std::|const|BigInteger |BitsBuffer |FastReducer |assert|throw|static|size_t|double|uint_array )', l)
def mutants():
    rnd = random.Random(seed); seen = set()
    while True:
        f = rnd.choices(files, [len(open(R + '/' + x).read()) for x in files])[0]
        L = open(R + '/' + f).read().split('\n'); i = rnd.randrange(len(L)); l = L[i]
        if l.strip().startswith(('//', '#', '*', '/*', 'assert')) or not l.strip(): continue
        c = [(m.start(), m.end(), x) for p, xs in OPS for m in re.finditer(p, l.split('//')[0]) for x in xs]
        if stmt(l): c += [(0, len(l), '')] * 3
        if not c: continue
        a, b, x = rnd.choice(c)
        n = l[:a] + x + l[b:]
        if (f, i, n) in seen: continue
        seen.add((f, i, n)); L[i] = n; yield f, i, '\n'.join(L), l, n
def one(k, m):
    f, i, text, old, new = m; d = W + '/m%d' % k; os.makedirs(d + '/' + os.path.dirname(f)); p = d + '/' + f
    try:
        open(p, 'w').write(text.replace('"../../include/', '"%s/include/' % R).replace('"../include/', '"%s/include/' % R))
        if not cc(p, d + '/x.o'): return 'nocompile'
        objs = [d + '/x.o' if g == f else W + '/' + g.replace('/', '_') + '.o' for g in SRC]
        if subprocess.run(['g++', '-o', d + '/t'] + TO + objs + GT + ['-lpthread'], capture_output=True).returncode: return 'nolink'
        try: r = subprocess.run(['prlimit', '--as=4000000000', d + '/t'], capture_output=True, timeout=25).returncode
        except subprocess.TimeoutExpired: return 'killed'
        if r: return 'killed'
        b = d + '/b'; os.makedirs(b + '/a/' + os.path.dirname(f)); os.makedirs(b + '/b/' + os.path.dirname(f)); shutil.copy(R + '/' + f, b + '/a/' + f); open(b + '/b/' + f, 'w').write(text)
        diff = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=b, capture_output=True, text=True).stdout
        open(out + '/m%d-%d.diff' % (seed, k), 'w').write(re.sub(r'^(---|\+\+\+) (\S+).*$', r'\1 \2', diff, flags=re.M))
        return 'survived %s:%d %s -> %s' % (f, i + 1, old.strip(), new.strip())
    finally: shutil.rmtree(d, ignore_errors=True)
g = mutants(); todo = [next(g) for _ in range(count)]; tally = {}
with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for k, r in enumerate(ex.map(lambda a: one(*a), enumerate(todo))):
        tally[r.split()[0]] = tally.get(r.split()[0], 0) + 1
        if r.startswith('surv'): print('m%d-%d' % (seed, k), r, flush=True)
print(tally); shutil.rmtree(W, ignore_errors=True)
