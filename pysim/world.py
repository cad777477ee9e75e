"""The simulated Python world: case generator, reference model (Python integers), executor, checks.
A case is a dict (JSON): init values, exporters, tasks (lists of operations with explicit fault plans), schedule, rounds."""
import sys, os, operator, copy, math, json, random, hashlib, threading, _thread, gc, array, ctypes

# ---------------------------------------------------------------- reference model
ERR = "ERR"           # a documented error
def tq(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q
def tr(a, b): return a - b * tq(a, b)
def sdiv(a, b): return ERR if b == 0 else tq(a, b)
def srem(a, b): return ERR if b == 0 else tr(a, b)
def sdm(a, b): return ERR if b == 0 else (tq(a, b), tr(a, b))
def sh(a, k):
    if not -2**31 <= k < 2**31: return ERR
    return a << k if k >= 0 else a >> -k
def shr(a, k): return sh(a, -k) if -2**31 <= k < 2**31 else ERR
def spow(a, e):
    if e < 0 or e >= 2**31: return ERR
    if a in (0, 1, -1): return 1 if e == 0 else a if a >= 0 else (-1 if e & 1 else 1)
    return a ** e
def spowm(a, e, m):
    if e < 0 or m == 0: return ERR
    r = pow(abs(a), e, abs(m))
    return -r if a < 0 and e & 1 else r
def enc(v, unsigned=False, big=False):
    if unsigned:
        if v < 0: return ERR
        n = max(1, (v.bit_length() + 7) // 8)
        return v.to_bytes(n, "big" if big else "little")
    n = (v if v >= 0 else ~v).bit_length() // 8 + 1
    return v.to_bytes(n, "big" if big else "little", signed=True)
def mstr(v):
    sys.set_int_max_str_digits(0)
    try: return str(v)
    finally: sys.set_int_max_str_digits(4300)
def flt(v):
    try: return float(v)
    except OverflowError: return ERR

# name: (function on Python objects, model, operand pattern, result kind)
# pattern: B = BigInteger, A = BigInteger or int, I = int; result kinds: B, R (B, or int when reflected), T (pair, likewise), v (plain value), f (float, approximate)
OPS = {}
def op(name, fn, model, pat, kind, weight=4): OPS[name] = (fn, model, pat, kind, weight)
for n, m in (("add", operator.add), ("sub", operator.sub), ("mul", operator.mul), ("and_", operator.and_), ("or_", operator.or_), ("xor", operator.xor)):
    op(n, getattr(operator, n), m, "AA", "R")
op("mod", operator.mod, srem, "AA", "R"); op("truediv", operator.truediv, sdiv, "AA", "R"); op("floordiv", operator.floordiv, sdiv, "AA", "R"); op("divmod", divmod, sdm, "AA", "T")
op("lshift", operator.lshift, sh, "AS", "R"); op("rshift", operator.rshift, shr, "AS", "R")
op("pow", operator.pow, spow, "AE", "R", 3); op("powm", pow, spowm, "BMM", "B", 3)
for n, m in (("iadd", operator.add), ("isub", operator.sub), ("imul", operator.mul), ("iand", operator.and_), ("ior", operator.or_), ("ixor", operator.xor)): op(n, getattr(operator, n), m, "BA", "B", 2)
op("ifloordiv", operator.ifloordiv, sdiv, "BA", "B", 1); op("imod", operator.imod, srem, "BA", "B", 1); op("ilshift", operator.ilshift, sh, "BS", "B", 1); op("irshift", operator.irshift, shr, "BS", "B", 1)
for n in ("lt", "le", "gt", "ge", "eq"): op(n, getattr(operator, n), getattr(operator, n), "AA", "v", 2)
op("neg", operator.neg, operator.neg, "B", "B", 2); op("pos", operator.pos, operator.pos, "B", "B", 2); op("abs", abs, abs, "B", "B", 2); op("inv", operator.invert, operator.invert, "B", "B", 2)
op("copy", copy.deepcopy, lambda v: v, "B", "B", 2)
op("bytes", bytes, enc, "B", "v"); op("str", str, mstr, "B", "v"); op("int", int, int, "B", "v"); op("index", operator.index, int, "B", "v"); op("float", float, flt, "B", "v", 2)
for u in (False, True):
    for b in (False, True): op("arr%d%d" % (u, b), lambda x, u=u, b=b: x.to_array(u, b), lambda v, u=u, b=b: enc(v, u, b), "B", "v", 1)
op("arrd", lambda x: x.to_array(), enc, "B", "v", 1); op("arrdu", lambda x: x.to_array(is_unsigned=True), lambda v: enc(v, True), "B", "v", 1); op("arrdb", lambda x: x.to_array(is_bigendian=True), lambda v: enc(v, False, True), "B", "v", 1)
op("hex", hex, hex, "B", "v", 1); op("hexf", lambda x: "%x" % x, lambda v: "%x" % v, "B", "v", 1); op("ne", operator.ne, operator.ne, "AA", "v", 2); op("slice", lambda x: b"abcdefgh"[:x], lambda v: b"abcdefgh"[:v], "B", "v", 1)
op("pow2", lambda x: x.is_power_of_two(), lambda v: v > 0 and v & (v - 1) == 0, "B", "v", 1)
op("even", lambda x: x.is_even(), lambda v: v % 2 == 0, "B", "v", 1)
op("bits", lambda x: x.get_bit_Length(), lambda v: (v if v >= 0 else ~v).bit_length(), "B", "v", 1)
op("sign", lambda x: x.sign, lambda v: (v > 0) - (v < 0), "B", "v", 1)
op("hash", hash, None, "B", "v", 2)
op("new", lambda x: BI(x), lambda v: v, "I", "B", 4)
op("newk", lambda x: BI(value=x), lambda v: v, "I", "B", 1); op("renew", lambda x: BI(bytes(x)), lambda v: v, "B", "B", 2)
op("zero", lambda: BI.zero(), lambda: 0, "", "B", 1); op("one", lambda: BI.one(), lambda: 1, "", "B", 1); op("mone", lambda: BI.minus_one(), lambda: -1, "", "B", 1)
op("log", lambda x: BI.log(x), lambda v: math.log(v) if v > 0 else None, "A", "f", 1); op("log10", lambda x: BI.log10(x), lambda v: math.log10(v) if v > 0 else None, "A", "f", 1)
for n, b in (("", 7.5), ("2", 2.0), ("10", 10), ("h", .5), ("e", 1e300), ("s", 1e-5)): op("logb" + n, lambda x, b=b: BI.log(x, b), lambda v, b=b: math.log(v) / math.log(b) if v > 0 else None, "A", "f", 1)
op("logbk", lambda x: BI.log(base_value=3.0, value=x), lambda v: math.log(v) / math.log(3.0) if v > 0 else None, "A", "f", 1)
BINARY_SELF = {"iadd", "isub", "imul", "iand", "ior", "ixor", "ifloordiv", "imod", "ilshift", "irshift"}
# fresh: (dput) store under a key, (dget) find it again through an equal key; (buf) construct from a buffer; (poke/resize) the owner changes it
BI = None; rt = None

# ---------------------------------------------------------------- generator
def gen_int(r, size=None):
    c = r.random()
    if c < .12: return r.choice([0, 1, -1, 2, -2, 255, 256, -128, -129, 127, 128, -255, -256, 10, 65535, -65536])
    if c < .40:
        k = r.choice([7, 8, 15, 16, 31, 31, 32, 32, 33, 63, 63, 64, 64, 65, 95, 96, 127, 128, r.randrange(1, 400)])
        return (2 ** k + r.choice([-1, 0, 0, 1])) * r.choice([1, -1])
    n = size or (r.choice([1, 2, 3, 4, 5, 8, 9, 12, 16, 17, 20, 33, 64]) if r.random() < .94 else r.choice([130, 260, 600, 1500, 1900, 3000, 5000]))
    c = r.random()
    if c < .6: v = r.getrandbits(8 * n)
    elif c < .75: v = int.from_bytes(bytes(r.choice([0, 0, 255, 128, 1]) for _ in range(n)), "little")
    elif c < .87: v = (1 << 8 * n) - 1 - r.getrandbits(r.randrange(1, 8 * n + 1))
    else: v = r.getrandbits(8) << (8 * n - 8)
    return v if r.random() < .5 else -v

def gen_operand(r, pat, nslots, ints=True):
    if pat == "B": return ["s", r.randrange(nslots)]
    if pat == "A" and ints and r.random() < .06: return ["q", r.choice("iiicnu"), r.randrange(nslots), r.choice([0, 0, 0, 1, 2, 3, 4])]
    if pat == "A": return ["s", r.randrange(nslots)] if r.random() < .6 or not ints else [r.choice("iiiiccu"), hex(gen_int(r))]
    if pat == "I": return [r.choice("iiiic"), hex(gen_int(r))] if r.random() < .97 else ["b", r.randrange(2)]
    if pat == "S":
        k = r.choice([0, 1, 7, 8, 31, 32, 33, 64, r.randrange(200), r.randrange(1000)]) * r.choice([1, 1, 1, -1])
        if r.random() < .04: k = r.choice([1, -1]) * r.choice([32767, 32768, 40000, 65535, 65536, 70000, 131072, 2**24 + 3])
        if r.random() < .03: k = r.choice([2**31, -2**31 - 1, 2**40, 2**64, -2**70])
        return [r.choice("iiiln"), hex(k)]
    if pat == "E": return [r.choice("iiln"), hex(r.choice([0, 1, 2, 3, 4, 5, 7, 11, 16, r.randrange(40), -1, -5] + ([2**31, 2**40, -2**65] if r.random() < .2 else [])))]
    if pat == "M": return ["s", r.randrange(nslots)] if r.random() < .5 else [r.choice("iiln"), hex(gen_int(r))]
    raise KeyError(pat)
# operand forms: q = a new int, or ..., equal or close to what a slot holds; u = an instance of a Python subclass; s slot, i int, c int whose comparison is Python code (other tasks run there), b bool, l = n = a fresh BigInteger

def gen_faults(r, rate):
    f = []
    if r.random() < rate:
        c = r.random(); kind = r.choice([1, 2, 3, 3, 3])
        if c < .35: f = [[n, r.choice([0, 0, 1]), kind] for n in range(1, r.randrange(2, 14))]
        else: f = [[r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 11, 15, 20, 30]), r.choice([0, 0, 0, 1, 1, 2, 3]), kind] for _ in range(r.randrange(1, 5))]
    return f

def gen_exporter(r, plain):
    c = r.random()
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 31, 33, r.randrange(70), r.randrange(300), r.choice([4096, 4097, 5000, 8193, 12007]) if r.random() < .2 else 6])
    if r.random() < .003: n = r.choice([32768, 40001, 65536, 65537, 70003])
    edge = r.random()
    data = bytes(r.choice([0, 255, 128, 127]) for _ in range(n)) if edge < .3 else r.randbytes(n) if edge < .9 else b"\0" * n if edge < .95 else b"\xff" * n
    e = {"data": data.hex()}
    if c < .12: e["t"] = "bytes"
    elif c < .32: e["t"] = "bytearray"
    elif c < .55:
        e["t"] = r.choice(["mv", "mvra", "mvba"])
    elif c < .62: e["t"] = r.choice(["arrB", "arrb", "arrH", "arrd", "ctB", "cast2"])
    elif c < .70: e["t"] = r.choice(["pyexp", "pyexp", "pyfail"])
    else:
        e["t"] = "exp"; e["cb"] = r.randrange(4); e["right"] = r.randrange(2); e["ro"] = r.randrange(2); e["fail"] = r.choice([0] * 12 + [1, 2])
        q = r.random(); e["fmt"] = "B" if q < .8 else r.choice(["b", "c", "?", "H", "I", "f", "<B", "@B", "=B", "BB"]); e["size"] = {"H": 2, "BB": 2, "I": 4, "f": 4}.get(e["fmt"], 1)
        e["ndim"] = 1 if r.random() < .93 else r.choice([0, 2])
        L = len(data)
        sz = e["size"]
        if L < sz: e["off"] = 0; e["n"] = 0; e["stride"] = sz
        else:
            e["stride"] = r.choice([sz, sz, 2, 3, -1, -2, -sz, 5, 0, 7, -5]) if e["ndim"] == 1 else sz
            if e["stride"] and abs(e["stride"]) < sz and e["stride"] != -sz: e["stride"] = sz * (1 if e["stride"] > 0 else -1)
            st = e["stride"]
            if st > 0: e["off"] = r.randrange(L - sz + 1); e["n"] = r.randrange((L - sz - e["off"]) // st + 2) if r.random() < .3 else (L - sz - e["off"]) // st + 1
            elif st < 0: e["off"] = L - sz - (r.randrange(L - sz + 1) if r.random() < .5 else 0); e["n"] = e["off"] // -st + 1
            else: e["off"] = r.randrange(L - sz + 1); e["n"] = r.randrange(6)
            if e["ndim"] == 0: e["n"] = 1
            if e["ndim"] == 2: e["off"] = 0; e["n"] = L // sz
    if e["t"] in ("mv", "mvra", "mvba", "pyexp") :
        e["sl"] = r.choice([[None, None, 1], [None, None, 1], [None, None, 2], [None, None, -1], [r.randrange(4), None, 1], [None, -1, 1], [1, -1, 3], [-1, 0, -2], [None, 0, 1], [r.randrange(9), r.randrange(9), r.choice([1, 2, -1])]])
    return e

def gen_case(prop, seed):
    r = random.Random(seed * 1000003 + int(prop[1:]))
    nslots = r.randrange(2, 6)
    case = {"prop": prop, "init": [hex(gen_int(r)) for _ in range(nslots)], "exp": [], "fill": r.randrange(256)}
    if prop == "C13":
        nt, rate, nops, rounds = 1, .8, (1, 7), 5
    elif prop == "C14":
        nt, rate, nops, rounds = r.choice([1, 2, 2, 2, 3, 3, 4]), (.15 if r.random() < .3 else 0), (2, 9), 1
    else:
        nt, rate, nops, rounds = r.choice([1, 1, 1, 1, 2, 2, 3]), (.5 if r.random() < .6 else 0), (1, 6), 5
        case["exp"] = [gen_exporter(r, False) for _ in range(r.randrange(1, 4))]
        if nt > 1: rounds = 1
    case["rounds"] = rounds
    if prop == "C14" and r.random() < .3: case["exp"] = [gen_exporter(r, True) for _ in range(1)]
    fresh = r.choice([0, 0, .2, .7]); case["drop"] = int(r.random() < .6)
    focus = r.sample(list(OPS), r.randrange(3, 9)) if r.random() < .5 else None
    names = focus or list(OPS); weights = [OPS[n][4] for n in names]
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(r.randrange(*nops)):
            q = r.random()
            if case["exp"] and q < (.75 if prop == "C15" else .12):
                e = r.randrange(len(case["exp"])); z = r.random()
                if z < .62: o = {"o": "buf", "e": e, "d": r.randrange(nslots), "f": gen_faults(r, rate)}
                elif z < .80: o = {"o": "poke", "e": e, "v": r.randbytes(r.randrange(0, 12)).hex()}
                elif z < .95: o = {"o": "resize", "e": e, "n": r.randrange(0, 80)}
                else: o = {"o": "bad", "v": r.choice(["none", "str", "float", "list", "big", "tuple"])}
            elif q > .985: o = {"o": "odd", "n": r.choice(sorted(set(OPS) & {"add", "sub", "mul", "mod", "floordiv", "truediv", "divmod", "lshift", "rshift", "pow", "and_", "or_", "xor", "lt", "ge", "eq", "ne", "iadd", "imul"})), "x": [["s", r.randrange(nslots)]], "v": r.choice(["none", "str", "float", "list", "tuple", "bytes", "obj"]), "r": r.randrange(2)}
            elif prop == "C14" and q > .88: o = {"o": r.choice(["dput", "dget", "dget"]), "x": [["s", r.randrange(nslots)]]}
            else:
                n = r.choices(names, weights)[0]; pat = OPS[n][2]; xs = [gen_operand(r, p, nslots) for p in pat]
                if prop == "C14" and n not in BINARY_SELF and pat in ("B", "BB") and r.random() < fresh: xs[0] = ["n", hex(gen_int(r))]
                if n == "powm":
                    if xs[1][0] == "i" and xs[2][0] == "i": xs[r.randrange(1, 3)][0] = "n"
                if len(pat) > 1 and pat[0] == "A" and xs[0][0] != "s" and xs[1][0] not in "sln": xs[1] = ["s", r.randrange(nslots)] if pat[1] == "A" else ["n", xs[1][1]]
                if len(pat) == 1 and pat == "A" and r.random() < .5: xs = [["i", hex(gen_int(r))]]
                o = {"o": n, "x": xs, "f": gen_faults(r, rate)}
                if OPS[n][3] in "BRT": o["d"] = xs[0][1] if n in BINARY_SELF and r.random() < .8 else r.randrange(nslots)
            ops.append(o)
        tasks.append(ops)
    case["tasks"] = tasks
    scale = r.choice([8, 20, 60, 200]); k = 0; dec = []
    if nt > 1:
        for _ in range(r.randrange(1, 24)):
            k += r.randrange(1, max(2, scale // 4)) if r.random() < .8 else 1
            dec.append([k, r.randrange(6)])
    case["sched"] = dec; case["first"] = r.randrange(nt)
    return case

# ---------------------------------------------------------------- executor
class Violation(Exception):
    def __init__(self, cls, msg): self.cls, self.msg = cls, msg

class CInt(int):
    """an integer whose comparisons are Python code: other threads run there"""
    def _y(self):
        rt.cb_enter()
        try: rt.yield_()
        finally: rt.cb_exit()
    def __lt__(self, o): self._y(); return int.__lt__(self, o)
    def __gt__(self, o): self._y(); return int.__gt__(self, o)
    def __eq__(self, o): self._y(); return int.__eq__(self, o)
    __hash__ = int.__hash__

class PyExp:
    """an exporter written in Python"""
    def __init__(self, data, sl, fail): self.data = data; self.sl = sl; self.fail = fail; self.out = 0
    def __buffer__(self, flags):
        rt.cb_enter()
        try:
            rt.yield_()
            if self.fail: raise BufferError("refused")
            self.out += 1
            return memoryview(self.data)[slice(*self.sl)]
        finally: rt.cb_exit()
    def __release_buffer__(self, mv):
        rt.cb_enter()
        try:
            rt.yield_(); self.out -= 1; mv.release()
        finally: rt.cb_exit()

_sub = None
def sub(v):
    global _sub
    if _sub is None: _sub = type("Money", (BI,), {"note": "kept"})
    return _sub(v)

def _cb():
    rt.yield_()

class Exp:
    """an exporter and what a construction from it has to give"""
    def __init__(self, e):
        self.e = e; data = bytes.fromhex(e["data"]); self.raw = bytearray(data); t = e["t"]; self.history = 0
        self.versions = [data]
        if t == "bytes": self.obj = data
        elif t == "bytearray": self.obj = self.raw
        elif t == "mv": self.obj = memoryview(bytes(data))[slice(*e["sl"])]
        elif t == "mvra": self.base = array.array("B", data); self.obj = memoryview(self.base)[slice(*e["sl"])]
        elif t == "mvba": self.obj = memoryview(self.raw)[slice(*e["sl"])]
        elif t in ("arrB", "arrb"): self.obj = array.array(t[3], data)
        elif t in ("arrH", "arrd"): self.obj = array.array(t[3], data[:len(data) // 8 * 8])
        elif t == "ctB": self.obj = (ctypes.c_ubyte * len(data)).from_buffer_copy(data)
        elif t == "cast2": self.obj = memoryview(bytes(data[:len(data) // 2 * 2])).cast("B", [len(data) // 2, 2]) if len(data) > 1 else memoryview(bytes(data))
        elif t in ("pyexp", "pyfail"): self.obj = PyExp(self.raw, e.get("sl", [None]), t == "pyfail")
        else: self.obj = rt.Exporter(data, e["off"], e["n"], e["stride"], e["fmt"], e["size"], e["ndim"], e["ro"], e["fail"], e["right"], _cb if e["cb"] & 1 else None, _cb if e["cb"] & 2 else None)
    def exposed(self, data):
        """-> (bytes that have to be taken, may be refused) or None: has to be refused, as an error class"""
        e, t = self.e, self.e["t"]
        if t in ("bytes", "bytearray", "arrB"): return bytes(data), False
        if t in ("mv", "mvra", "mvba", "pyexp"): return bytes(data[slice(*e["sl"])]), False
        if t in ("arrb", "ctB"): return bytes(data), True
        if t in ("arrH", "arrd"): return None, Exception
        if t == "cast2": return (None, Exception) if len(data) > 1 else (bytes(data), False)
        if t == "pyfail": return None, BufferError
        if e["fail"]: return None, MemoryError if e["fail"] == 1 else BufferError
        if e["ndim"] != 1 or e["size"] != 1: return None, Exception
        b = bytes(data[e["off"] + i * e["stride"]] for i in range(e["n"]))
        return b, e["fmt"] != "B"
    def poke(self, v):
        t = self.e["t"]
        if t == "exp":
            new = v + self.versions[-1][len(v):] if len(v) <= len(self.versions[-1]) else v[:len(self.versions[-1])]
            self.obj.poke(v)
        elif t in ("bytearray", "mvba", "pyexp", "arrB", "mvra"):
            a = self.raw if t in ("bytearray", "mvba", "pyexp") else self.obj if t == "arrB" else self.base
            for i, b in enumerate(v[:len(a)]): a[i] = b
            new = bytes(a)
        else: return
        self.versions.append(new)
    def resize(self, n):
        t = self.e["t"]
        if t not in ("bytearray", "pyexp", "arrB"): return
        a = self.obj if t != "pyexp" else self.raw
        try:
            if len(a) < n: a.extend(bytes(n - len(a)) if t != "arrB" else array.array("B", bytes(n - len(a))))
            else: del a[n:]
            self.versions.append(bytes(a))
        except BufferError:
            self.locked = True
            return True
    def idle(self):
        if self.e["t"] == "exp": return self.obj.state()[0] == 0
        if self.e["t"] in ("pyexp", "pyfail"): return self.obj.out == 0
        return True

def rc(o): return sys.getrefcount(o)

class World:
    def __init__(self, case): self.case = case; self.h = hashlib.blake2b(digest_size=8); self.st = {"ops": 0, "fired": 0, "fired_cpp": 0, "attempts": 0, "oom": 0, "tolerated": 0, "errors": 0, "checks": 0, "eligible": 0}; self.bad = None; self.sites = set(); self.states = set()
    def fail(self, cls, msg):
        if not self.bad: self.bad = (cls, msg)
        raise Violation(cls, msg)
    def check_obj(self, rec, full=False, why=""):
        o, v, h, _ = rec
        self.st["checks"] += 1
        if type(o) is not BI: self.fail("type", "a %s where a BigInteger belongs %s" % (type(o).__name__, why))
        g = int(o)
        if g != v: self.fail("value", "an object holding %s became %s %s" % (short(v), short(g), why))
        hh = hash(o)
        if rec[2] is None:
            rec[2] = hh
            p = self.hashes.setdefault(v, hh)
            if p != hh: self.fail("hash", "equal objects (%s) have different hash codes %s" % (short(v), why))
        elif hh != h: self.fail("hash", "the hash code of %s changed %s" % (short(v), why))
        if full:
            if v.bit_length() > 130000:
                if bytes(o) != enc(v): self.fail("bytes", "the bytes of %s are wrong %s" % (short(v), why))
                return
            if bytes(o) != enc(v): self.fail("bytes", "the bytes of %s are wrong %s" % (short(v), why))
            if str(o) != mstr(v): self.fail("text", "the text of %s is wrong %s" % (short(v), why))
    def operand(self, x):
        k = x[0]
        if k == "s":
            rec = self.slots[x[1]]; return rec[0], rec[1], rec
        if k == "q":
            v = self.slots[x[2]][1]; v = (v, v + 1, v - 1, -v, ~v)[x[3]]; k = x[1]; x = [k, hex(v)]
        else: v = int(x[1], 16) if k != "b" else x[1]
        if k == "i": return int(x[1], 16), v, None
        if k == "b": return bool(v), v, None
        if k == "c": return CInt(v), v, None
        if k == "u": return sub(v), v, None
        return BI(v), v, None
    def outcome(self, fn, args):
        try: return "ok", fn(*args)
        except Exception as e: return type(e).__name__, None
    def attempt(self, name, fn, args, fault):
        """-> (tag, result, fired)"""
        if fault: rt.arm(fault[0], fault[1], fault[2])
        else: rt.arm(0, 0, 3)
        try:
            try: r = fn(*args); tag = "ok"
            except Exception as e: tag = type(e).__name__; r = None
        finally: n, fired = rt.disarm()
        self.st["attempts"] += 1; self.st["eligible"] += n
        if fired: self.st["fired"] += 1
        self.h.update(("%s %s %d %d;" % (name, tag, n, fired)).encode())
        self.sites.add((name, tag, fault[0] if fault and fired else 0, n if fired else 0))
        return tag, r, fired, n
    def judge(self, name, tag, r, fired, want, kind, reflected, fault):
        where = "%s, %s" % (name, "failing request %s" % fault if fault else "no fault")
        if tag == "MemoryError":
            if not fired: self.fail("memoryerror", "MemoryError although memory never ran out (%s)" % where)
            self.st["oom"] += 1
            return None
        if tag == "SystemError": self.fail("systemerror", "SystemError (%s)" % where)
        if tag != "ok":
            if want is not ERR: self.fail("error", "%s instead of %s (%s)" % (tag, "MemoryError" if fired else "a result", where))
            self.st["errors"] += 1
            return None
        if want is ERR: self.fail("noerror", "a result, %s, where an error is documented (%s)" % (short(r), where))
        if fired: self.st["tolerated"] += 1
        if kind == "f":
            if type(r) is not float: self.fail("type", "%s gives %s" % (where, type(r).__name__))
            if want is not None and not (abs(r - want) <= 1e-9 * max(1, abs(want))): self.fail("result", "%s gives %r instead of %r" % (where, r, want))
            return None
        if kind == "v":
            if name == "hash": return None
            if type(r) is not type(want): self.fail("type", "%s gives %s instead of %s" % (where, type(r).__name__, type(want).__name__))
            if r != want: self.fail("result", "%s gives %s instead of %s" % (where, short(r), short(want)))
            return None
        typ = int if reflected else BI
        rs, ws = ((r, want),) if kind in "BR" else (None, None), None
        pairs = [(r, want)] if kind in "BR" else None
        if pairs is None:
            if type(r) is not tuple or len(r) != 2: self.fail("type", "%s gives no pair" % where)
            pairs = list(zip(r, want))
        for a, b in pairs:
            if type(a) is not typ: self.fail("type", "%s gives %s instead of %s" % (where, type(a).__name__, typ.__name__))
            if int(a) != b: self.fail("result", "%s gives %s instead of %s" % (where, short(int(a)), short(b)))
        return pairs[0] if typ is BI else None
    def run_op(self, o):
        self.st["ops"] += 1
        name = o["o"]
        if name == "buf": return self.run_buf(o)
        if name in ("poke", "resize"):
            E = self.exps[o["e"]]
            if name == "poke": E.poke(bytes.fromhex(o["v"]))
            elif E.resize(o["n"]) and self.nt == 1: self.fail("locked", "the owner of a buffer cannot resize it: it was not released")
            return
        if name == "bad":
            v = {"none": None, "str": "12", "float": 1.5, "list": [1], "tuple": (1, 2), "big": BI(5)}[o["v"]]
            tag, r, fired, n = self.attempt("bad", BI, (v,), None)
            if tag == "ok" and not (o["v"] == "big" and int(r) == 5): self.fail("noerror", "BigInteger(%r) gives a value" % (v,))
            if tag == "SystemError": self.fail("systemerror", "BigInteger(%r)" % (v,))
            return
        if name == "odd": # something that is no number at all: refused, and nothing else happens
            ob, v, rec = self.operand(o["x"][0])
            w = {"none": None, "str": "12", "float": 1.5, "list": [1], "tuple": (1, 2), "bytes": b"ab", "obj": object()}[o["v"]]
            fn = OPS[o["n"]][0]; b = rc(ob); args = (ob, w) if not o["r"] else (w, ob)
            if o["n"] in ("mul", "imul") and o["v"] in ("str", "list", "tuple", "bytes"): return # sequence repetition through __index__
            tag, r, fired, n = self.attempt("odd", fn, args, None)
            if tag in ("SystemError", "MemoryError"): self.fail("systemerror", "%s of a BigInteger and %r: %s" % (o["n"], w, tag))
            if tag == "ok" and type(r) is BI: self.fail("noerror", "%s of a BigInteger and %r gives a value" % (o["n"], w))
            r = args = None
            if self.nt == 1 and rc(ob) != b: self.fail("refcount", "%s of a BigInteger and %r leaves %d references instead of %d" % (o["n"], w, rc(ob), b))
            self.check_obj(rec, True, "after %s with %r" % (o["n"], w))
            return
        if name in ("dput", "dget"):
            ob, v, rec = self.operand(o["x"][0])
            if name == "dput": self.d[ob] = v; self.dm[v] = v; rt.yield_()
            else:
                key = BI(v)
                got = self.d.get(key)
                if (v in self.dm) and got != v: self.fail("dict", "a dictionary entry under %s is not found any more" % short(v))
                if got is not None and got != v: self.fail("dict", "a dictionary lookup of %s finds %s" % (short(v), short(got)))
            return
        fn, model, pat, kind, _ = OPS[name]
        ob, val, rec = [], [], []
        for x in o["x"]:
            a, b, c = self.operand(x); ob.append(a); val.append(b); rec.append(c)
        if (kind != "v" and kind != "f" or name == "str") and cost(name, val) > 60000: return
        want = model(*val) if model else None
        reflected = kind in "RT" and not isinstance(ob[0], BI)
        rt.yield_()
        keep = None
        before = [rc(x) for x in ob]
        for fault in (o.get("f") or []) + [None]:
            tag, r, fired, n = self.attempt(name, fn, ob, fault)
            keep = self.judge(name, tag, r, fired, want, kind, reflected, fault)
            if name == "hash" and tag == "ok":
                p = self.hashes.setdefault(val[0], r)
                if p != r: self.fail("hash", "the hash code of %s is not stable" % short(val[0]))
            if keep and any(keep[0] is x for x in ob) and name in BINARY_SELF: pass
            if fault: r = keep = None
            for i, x in enumerate(rec):
                if x is not None: self.check_obj(x, False, "after %s" % name)
                elif int(ob[i]) != val[i]: self.fail("value", "an operand of %s changed" % name)
            if fault and n < fault[0] and not fired and fault[1] != 0: pass
        alias = r is not None and any(y is z for y in (r if type(r) is tuple else (r,)) for z in ob)
        if not alias and self.nt == 1:
            after = [rc(x) for x in ob]
            if after != before and not any(a > 10**6 for a in before): self.fail("refcount", "%s leaves reference counts %s where they were %s" % (name, after, before))
        rt.yield_()
        if keep and "d" in o: self.store(o["d"], keep[0], keep[1])
    def store(self, d, obj, v):
        rec = [obj, v, None, 0]
        for x in self.objs:                 # the same object under another name keeps its record
            if x[0] is obj: rec = x; break
        else: self.objs.append(rec)
        old = self.slots.get(d); self.slots[d] = rec
        if old and self.case.get("drop") and not any(x is old for x in self.slots.values()): # its memory is free for others
            self.check_obj(old, True, "when it is given up"); self.objs = [x for x in self.objs if x is not old]
    def run_buf(self, o):
        E = self.exps[o["e"]]
        rt.yield_()
        keep = None; before = rc(E.obj)
        for fault in (o.get("f") or []) + [None]:
            at = len(E.versions) - 1
            tag, r, fired, n = self.attempt("buf", BI, (E.obj,), fault)
            self.sites.add(("buf", E.e["t"], tag))
            where = "from a %s, %s" % (describe(E), "failing request %s" % fault if fault else "no fault")
            wants = [E.exposed(d) for d in E.versions[at:]]
            if tag == "SystemError": self.fail("systemerror", "construction " + where)
            if tag == "MemoryError":
                if not fired and not any(w[1] is MemoryError for w in wants): self.fail("memoryerror", "MemoryError although memory never ran out " + where)
                self.st["oom"] += 1
            elif tag == "ok":
                if all(w[0] is None for w in wants): self.fail("accepted", "a value " + where)
                vals = [int.from_bytes(w[0], "little", signed=True) for w in wants if w[0] is not None]
                if type(r) is not BI: self.fail("type", "construction gives %s" % type(r).__name__)
                g = int(r)
                if g not in vals: self.fail("contents", "%s instead of %s %s" % (short(g), short(vals[0]), where))
                if fired: self.st["tolerated"] += 1
                if not fault: keep = (r, g)
            else:
                self.st["errors"] += 1
                if all(w[0] is not None and not w[1] for w in wants): self.fail("rejected", "%s %s" % (tag, where))
                if all(w[0] is None and w[1] in (MemoryError, BufferError) for w in wants) and tag != wants[0][1].__name__: self.fail("errorclass", "%s instead of %s %s" % (tag, wants[0][1].__name__, where))
            r = wants = vals = None
            if self.nt == 1:
                if not E.idle(): self.fail("unreleased", "the buffer is still taken after construction " + where)
                if rc(E.obj) != before: self.fail("unreleased", "a reference to the owner remains " + where)
                if E.e["t"] == "bytearray":
                    try: E.obj.append(1); del E.obj[-1:]
                    except BufferError: self.fail("unreleased", "the owner cannot resize its memory " + where)
            if len(E.versions) > 40: E.versions = E.versions[-8:]
        rt.yield_()
        if keep: self.store(o["d"], keep[0], keep[1])
    def task(self, t, ops):
        try:
            rt.begin(t)
            try:
                for o in ops: self.run_op(o)
            except Violation: pass
            except BaseException as e:
                if not self.bad: self.bad = tuple(surprise(e))
        finally: rt.done()
    def round(self):
        c = self.case
        self.hashes = {}; self.d = {}; self.dm = {}; self.objs = []; self.slots = {}
        self.exps = [Exp(e) for e in c["exp"]]
        for i, v in enumerate(c["init"]):
            v = int(v, 16); self.store(i, BI(v), v)
        self.nt = len(c["tasks"])
        if self.nt == 1:
            for o in c["tasks"][0]: self.run_op(o)
        else:
            rt.setup(self.nt, [tuple(x) for x in c["sched"]])
            for t, ops in enumerate(c["tasks"]): _thread.start_new_thread(self.task, (t, ops))
            y = rt.run(c.get("first", 0))
            self.yields = y
            self.h.update(repr(y).encode())
            if self.bad: raise Violation(*self.bad)
        for x in self.objs: self.check_obj(x, True, "by the end")
        for E in self.exps:
            if not E.idle(): self.fail("unreleased", "a buffer is still taken by the end")
        for v in self.dm:
            if self.d.get(BI(v)) != v: self.fail("dict", "the entry under %s is lost" % short(v))
        self.states.add(hash(tuple(sorted((k, x[1]) for k, x in self.slots.items()))))
        if rt.depth() != 0 and self.nt == 1: self.fail("harness", "call depth %d" % rt.depth())
        del x
        self.hashes = self.d = self.dm = self.objs = self.slots = self.exps = None
        return True
    def run(self):
        rt.fill(self.case.get("fill", 167))
        lives = [array.array('q', [0, 0]) for _ in range(self.case['rounds'])]; self.yields = None
        try:
            for k in range(self.case["rounds"]):
                self.round()
                lives[k][0], lives[k][1] = rt.live()
            n = len(lives)
            if n >= 5:
                for i, what in ((0, "blocks of the C++ heap"), (1, "blocks of the Python heap")):
                    d = [lives[j + 1][i] - lives[j][i] for j in range(1, n - 1)]
                    if min(d) > 0: self.fail("leak", "every repetition of the history loses %d %s" % (min(d), what))
        except Violation as e: self.bad = self.bad or (e.cls, e.msg)
        return self.bad

def surprise(e):
    """an exception that left the history: where a call into the library raised what it may not, that is a finding; all else is the harness's fault"""
    t = e.__traceback__; line = ""
    while t: line = "line %d" % t.tb_lineno; name = t.tb_frame.f_code.co_name; t = t.tb_next
    ours = isinstance(e, (NameError, AttributeError, KeyError, AssertionError, UnboundLocalError)) or not isinstance(e, Exception)
    return ["harness" if ours else "raised", "%s: %s where a value belongs (%s, %s)" % (type(e).__name__, e, name, line)]
def cost(name, val):
    a = [abs(v).bit_length() for v in val]
    if name == "pow": return 0 if (val[1] < 0 or val[1] >= 2**31 or abs(val[0]) < 2) else a[0] * val[1]
    if name == "powm": return 0 if val[1] < 0 or val[2] == 0 else (0 if a[1] * (a[2] + 64) ** 2 < 3e9 and a[0] < 30000 else 10**9)
    if name in ("lshift", "ilshift"): return 0 if abs(val[1]) >= 2**31 else a[0] + max(0, val[1])
    if name in ("rshift", "irshift"): return 0 if abs(val[1]) >= 2**31 else a[0] + max(0, -val[1])
    return sum(a)
def short(v):
    try: s = hex(v) if isinstance(v, int) and not isinstance(v, bool) else repr(v)
    except Exception: s = "?"
    return s if len(s) < 90 else s[:60] + "..(%d)" % len(s)
def describe(E):
    e = E.e
    return {"exp": "buffer of %s x '%s', stride %s%s" % (e.get("n"), e.get("fmt"), e.get("stride"), ", read-only" if e.get("ro") else "")}.get(e["t"], e["t"] + (str(e["sl"]) if "sl" in e else ""))
