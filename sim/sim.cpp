// Simulated executions of programs over the library: worlds, judgement, minimisation, batches.
#include "model.h"
#include <cerrno>
#include <cfenv>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <locale>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <xmmintrin.h>
#include <fcntl.h>
#include <iostream>

extern std::vector<Z> gen_regs(Rng& r, int n, int maxlimbs);
extern std::vector<int> gen_theme(Rng& r, std::vector<Z>& v, int maxlimbs);
extern std::string gen_blob(Rng& r, int code, int lim);

// ---------------------------------------------------------------- shared with the children
struct OpRec { uint64_t steps, digest, peak, space; uint32_t allocs, fired; int outcome; int code; uint64_t state; };
struct Slot { uint32_t valid, opidx, len, crc; char data[1 << 18]; };
struct Shm {
    rt::Stats st;
    volatile int verdict;          // 0 running, 1 clean, 2 violation
    char cls[16]; int thr, op; char msg[900];
    OpRec rec[rt::MAXT][MAXOPS + 4];
    uint32_t foreign; uint32_t executed, skipped, checks;
    uint64_t final_state;
    uint64_t stack_used;
    double maxratio[O_COUNT], maxspace[O_COUNT], maxedge[O_COUNT];
    uint32_t next_slot; Slot slot[2]; // simulated durable storage (C07)
    uint32_t saves, restores, torn;
    uint32_t replays;
};
static Shm* S = nullptr;           // the one the current execution writes to
static Shm* shm[3];
static bool g_verbose = false;

static uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static uint64_t hstr(uint64_t h, const std::string& s) { for (unsigned char c : s) h = hmix(h, c); return hmix(h, s.size()); }
static uint64_t hrep(uint64_t h, const Rep& r) { h = hmix(h, (uint64_t)(int64_t)r.sign); for (auto b : r.bits) h = hmix(h, b); return hmix(h, r.bits.size()); }

[[noreturn]] static void violation(const char* cls, int thr, int op, const std::string& msg) {
    snprintf(S->cls, sizeof S->cls, "%s", cls);
    snprintf(S->msg, sizeof S->msg, "%s", msg.c_str());
    S->thr = thr; S->op = op;
    S->verdict = 2;
    _exit(9);
}
static void fatal_hook(const char* cls, const char* msg) {
    rt::Thr* t = rt::tl;
    int id = t ? t->id : 0;
    snprintf(S->cls, sizeof S->cls, "%s", cls);
    snprintf(S->msg, sizeof S->msg, "%s", msg);
    S->thr = id; S->op = rt::cur_op[id];
    S->verdict = 2;
}

// ---------------------------------------------------------------- which classes of violation speak about which property
static bool relevant(const std::string& prop, const std::string& cls) {
    static const std::map<std::string, std::set<std::string>> M = {
        {"C01", {"state", "retry"}},
        {"C02", {"wrong", "retry", "swallow", "error0", "died", "steps"}},
        {"C03", {"mem", "leak", "segv"}},
        {"C04", {"error", "error0", "swallow", "died", "segv"}},
        {"C05", {"diff", "race", "blocked", "mem", "died", "segv", "steps", "state"}},
        {"C06", {"diff", "race", "blocked", "mem", "died", "segv", "steps", "state"}},
        {"C07", {"diff", "died", "segv", "mem", "error", "error0"}},
        {"C08", {"wrong", "retry", "swallow", "error", "error0", "mem", "died", "segv", "state", "steps"}},
        {"C09", {"diff", "died", "segv"}},
        {"C10", {"diff", "mem", "died", "segv", "blocked", "steps"}},
        {"C11", {"steps", "blocked"}},
        {"C12", {"budget", "peak", "stack", "segv", "state", "unclean"}},
    };
    auto i = M.find(prop);
    return i != M.end() && i->second.count(cls);
}

// ---------------------------------------------------------------- execution of operations
struct Machine {
    const Case* c = nullptr;
    bool model = true, big = false;
    BigInteger* R[rt::MAXT][NALL];
    void* slotmem[rt::MAXT];
    std::vector<Z> M[rt::MAXT];      // model values (own + shared)
    std::vector<Rep> shared_rep;
};
static Machine mc;

static Rep read_rep(const BigInteger& b) { Rep r; r.sign = b.sign_internal(); auto v = b.get_bits(); r.bits.assign(v.begin(), v.end()); return r; }
static bool is_canonical(const Rep& r) {
    if (r.bits.empty()) return r.sign > INT_MIN;
    return (r.sign == 1 || r.sign == -1) && r.bits.back() != 0 && (r.bits.size() > 1 || r.bits[0] >= 0x80000000u);
}
static std::string rep_text(const Rep& r) {
    std::string s = brief(value_of(r));
    if (!is_canonical(r)) s += " (not canonical: sign " + std::to_string(r.sign) + ", " + std::to_string(r.bits.size()) + " limbs)";
    return s;
}
static void* raw(size_t n) { rt::ScopeMode m(rt::ARENA); return ::operator new(n); }
static uint64_t room; // not 0: values have held longer ones before, the room for them is still reserved
static BigInteger* build(const Z& v) {
    Rep r = canonical(v);
    void* p = raw(sizeof(BigInteger));
    rt::ScopeMode m(rt::ARENA);
    uint_array b(r.bits.begin(), r.bits.end());
    if (room) {
        room = hmix(room, 1) | 1;
        if (room >> 8 & 1) {
            BigInteger w(r.sign, b);
            BigInteger* q = new (p) BigInteger(1, uint_array(r.bits.size() + 1 + (room >> 9) % ((room >> 16) & 3 ? 9 : 60), 0xffffffffu));
            *q = w;
            return q;
        }
    }
    return new (p) BigInteger(r.sign, b);
}
static void set_reg(BigInteger& b, const Z& v) {
    Rep r = canonical(v);
    rt::ScopeMode m(rt::ARENA);
    uint_array bits(r.bits.begin(), r.bits.end());
    b = BigInteger(r.sign, bits);
}
static void destroy(BigInteger* b) { if (!b) return; rt::ScopeMode m(rt::ARENA); b->~BigInteger(); ::operator delete((void*)b); }

// Heap an operation may need: a fixed multiple of what operands and result take. For powers the space counts whole limbs
// per factor (the library's own bound on the result): up to 32 times the result for tiny bases, less for larger ones.
static uint64_t heap_bound(int code, uint64_t space) { return (code == O_modpow ? 32 : 12) * (space + 64) + 4096; }
static double step_factor() { return 6; }
static uint64_t step_limit(const Exp& e) { return (uint64_t)(e.cost * step_factor()) + 200000; }

static void note(const char* cls, int t, int i, const std::string& msg) {
    if (relevant(mc.c->prop, cls)) violation(cls, t, i, msg);
    S->foreign++;
}

static void digest_out(OpRec& rec, const Op& op, const ActOut& o, BigInteger* const* R, const BigInteger* slot) {
    uint64_t h = hmix(7, (uint64_t)o.outcome);
    if (o.outcome == OK) {
        h = hstr(h, scalar_of(op, o));
        if (slot) h = hrep(h, read_rep(*slot));
        for (const char* p = opinfo[op.code].sig; *p; p++) {
            if (*p == 'A') h = hrep(h, read_rep(*R[op.a]));
            if (*p == 'B') h = hrep(h, read_rep(*R[op.b]));
            if (*p == 'R') h = hrep(h, read_rep(*R[op.code == O_divrem ? op.c : op.d]));
        }
    }
    rec.digest = h;
}

struct OpRun { Exp e; std::vector<Rep> before; };

static void judge(int t, int i, const Op& op, const Exp& e, const ActOut& o, const BigInteger* slot, uint32_t fired, const std::vector<Rep>& before, bool again) {
    BigInteger* const* R = mc.R[t];
    std::string what = std::string(opinfo[op.code].name) + " (thread " + std::to_string(t) + " op " + std::to_string(i) + (again ? ", repeated" : "") + ")";
    bool threw = o.outcome != OK;
    S->checks++;
    if (threw) {
        bool ok_err;
        if (o.outcome == E_ALLOC || o.outcome == E_FALSE) {
            ok_err = fired > 0 || e.toobig;
            if (o.outcome == E_ALLOC && op.code == O_tryparse) ok_err = false;
        } else ok_err = o.outcome == e.err || (e.toobig && o.outcome == E_OVER) || (e.err == E_RUNTIME && o.outcome == E_OVER);
        for (int r = 0; r < NALL; r++) {
            Rep now = read_rep(*R[r]);
            if (!(now == before[r]))
                note("state", t, i, what + " failed with " + outcome_name(o.outcome) + " and changed register " + std::to_string(r) + " from " + rep_text(before[r]) + " to " + rep_text(now));
        }
        if (!ok_err) {
            std::string m = what + " ended with " + outcome_name(o.outcome) + (o.etype[0] ? std::string(" ") + o.etype : "") + ", expected " + outcome_name(e.err) + (fired ? " or the injected failure" : "");
            if (again) note("retry", t, i, m);
            note(fired && e.err == OK && !again ? "error" : "error0", t, i, m);
        }
        return;
    }
    if (e.toobig) return;
    if (e.err != OK) { note("swallow", t, i, what + " returned normally, expected " + outcome_name(e.err)); return; }
    std::string bad;
    if (!scalar_matches(op, o, e)) bad = " gave " + scalar_of(op, o).substr(0, 120) + ", expected " + (e.approx ? std::to_string(e.dv) : e.scalar.substr(0, 120));
    if (e.slot) {
        Rep r = read_rep(*slot);
        if (!(r == canonical(e.slotv))) bad = " gave " + rep_text(r) + ", expected " + brief(e.slotv);
    }
    for (int r = 0; r < NALL && bad.empty(); r++) {
        Rep now = read_rep(*R[r]);
        const Z* want = nullptr;
        for (int k = 0; k < e.nw; k++) if (e.w[k].reg == r) want = &e.w[k].v;
        if (want) { if (!(now == canonical(*want))) bad = " left " + rep_text(now) + " in register " + std::to_string(r) + ", expected " + brief(*want); }
        else if (!(now == before[r])) bad = " changed register " + std::to_string(r) + ", no target of it, from " + rep_text(before[r]) + " to " + rep_text(now);
    }
    if (!bad.empty()) {
        if (again) note("retry", t, i, what + bad);
        note("wrong", t, i, what + (fired ? " (allocation failures injected)" : "") + bad);
    }
}

static void resync(int t) { // model follows the real values; anything not canonical is replaced
    for (int r = 0; r < NALL; r++) {
        Rep now = read_rep(*mc.R[t][r]);
        Z v = value_of(now);
        if (!is_canonical(now)) { if (r < NREG) set_reg(*mc.R[t][r], v); }
        mc.M[t][r] = v;
    }
}
static void store_slot(int t, const Op& op, BigInteger* slot) {
    rt::ScopeMode m(rt::ARENA);
    *mc.R[t][op.d] = std::move(*slot);
    slot->~BigInteger();
}

// Runs one operation; returns false if it lies outside what is simulated.
static bool exec_op(int t, int i, const Op& op, bool again = false) {
    const Case& c = *mc.c;
    static thread_local bool dummy; (void)dummy;
    rt::cur_op[t] = i;
    BigInteger* const* R = mc.R[t];
    OpRec& rec = S->rec[t][i];
    Exp e = expect(op, mc.M[t].data(), mc.big);
    rec.code = op.code;
    if (e.skip) { rec.outcome = NONE; S->skipped++; return false; }
    S->executed++;
    std::vector<Rep> before;
    if (mc.model) for (int r = 0; r < NALL; r++) before.push_back(read_rep(*R[r]));
    Args* g; ActOut* o;
    {
        // storage of its own for every thread: no thread's memory ever becomes another's
        static std::aligned_storage<sizeof(Args), alignof(Args)>::type ga[rt::MAXT];
        static std::aligned_storage<sizeof(ActOut), alignof(ActOut)>::type oa[rt::MAXT];
        g = new (&ga[rt::tl->id]) Args; o = new (&oa[rt::tl->id]) ActOut;
        rt::ScopeMode m(rt::ARENA);
        if (op.code == O_cbytes) g->bytes.assign(op.x.begin(), op.x.end());
        else if (op.code == O_cwords) { g->words.assign((op.x.size() + 3) / 4, 0); if (!op.x.empty()) memcpy(g->words.data(), op.x.data(), op.x.size()); }
        else if (op.code == O_parse || op.code == O_tryparse) g->str.assign(op.x);
    }
    static const rt::Plan none;
    uint64_t lim = c.get("tight") ? step_limit(e) : step_limit(e) * 3;
    if (rt::env.stack_seed) rt::scribble_stack(rt::env.stack_seed + (uint64_t)i);
    int saved_errno = errno;
    rt::begin_op(again ? &none : &op.plan, lim);
    act_op(op, R, mc.slotmem[t], *g, *o);
    rt::end_op();
    errno = saved_errno;
    rt::Thr* T = rt::tl;
    uint32_t fired = T->fired;
    BigInteger* slot = o->slot ? (BigInteger*)mc.slotmem[t] : nullptr;
    if (!again) {
        rec.steps = T->steps; rec.allocs = T->nalloc; rec.fired = fired + T->rescued; rec.outcome = o->outcome; rec.peak = T->op_peak; rec.space = e.space;
        if (o->outcome == E_ALLOC) S->st.threw_oom++;
        else if (o->outcome != OK) S->st.exp_err++;
        S->st.ops++;
        double q = (double)T->steps / e.cost;
        if (q > S->maxratio[op.code]) S->maxratio[op.code] = q;
        q = (double)T->edges / e.cost; if (q > S->maxedge[op.code]) S->maxedge[op.code] = q;
        double sp = (double)T->op_peak / (double)(e.space + 64);
        if (!e.toobig && o->outcome == OK && sp > S->maxspace[op.code]) S->maxspace[op.code] = sp;
    } else S->replays++;
    if (g_verbose) fprintf(stderr, "t%d #%d %s -> %s steps=%lu allocs=%u fired=%u %s\n", t, i, op_text(op).c_str(), outcome_name(o->outcome), (unsigned long)T->steps, T->nalloc, fired, scalar_of(op, *o).substr(0, 100).c_str());
    digest_out(rec, op, *o, R, slot);
    if (c.world == "budget") {
        std::string what = std::string(opinfo[op.code].name) + " (op " + std::to_string(i) + ")";
        uint64_t bound = heap_bound(op.code, e.space);
        if (!e.toobig && fired && op.plan.budget >= bound && (o->outcome == E_ALLOC || o->outcome == E_FALSE))
            note("budget", t, i, what + " ran out of a heap of " + std::to_string(op.plan.budget) + " bytes, operands and result take " + std::to_string(e.space));
        if (!e.toobig && T->op_peak > bound)
            note("peak", t, i, what + " held " + std::to_string(T->op_peak) + " bytes, operands and result take " + std::to_string(e.space));
        if (fired && o->outcome != OK && o->outcome != E_ALLOC && o->outcome != E_FALSE && o->outcome != e.err)
            note("unclean", t, i, what + " ended with " + outcome_name(o->outcome) + " on a small heap");
    }
    if (mc.model) judge(t, i, op, e, *o, slot, fired, before, again);
    bool failed_alloc = o->outcome == E_ALLOC || o->outcome == E_FALSE;
    {
        bool other_ok = o->outcome == OK;
        if (slot) { if (op.code == O_divrem && op.c == op.d) {} store_slot(t, op, slot); }
        (void)other_ok;
    }
    { rt::ScopeMode m(rt::ARENA); o->bytes = byte_array(); o->words = uint_array(); o->str = std::string(); o->str.shrink_to_fit(); g->bytes = byte_array(); g->words = uint_array(); g->str = std::string(); byte_array().swap(o->bytes); byte_array().swap(g->bytes); uint_array().swap(o->words); uint_array().swap(g->words); std::string().swap(o->str); std::string().swap(g->str); }
    g->~Args(); o->~ActOut();
    if (mc.model) {
        // model update
        Rep d;
        bool clean = true;
        std::vector<Z> want = mc.M[t];
        if (!failed_alloc && rec.outcome == OK && !e.toobig && e.err == OK) {
            for (int k = 0; k < e.nw; k++) want[e.w[k].reg] = e.w[k].v;
            if (e.slot) want[op.d] = e.slotv;
        } else if (rec.outcome == OK && again && !e.toobig && e.err == OK) {
            for (int k = 0; k < e.nw; k++) want[e.w[k].reg] = e.w[k].v;
            if (e.slot) want[op.d] = e.slotv;
        }
        for (int r = 0; r < NALL; r++) if (!(read_rep(*mc.R[t][r]) == canonical(want[r]))) clean = false;
        if (clean) mc.M[t] = want; else resync(t);
    } else resync(t);
    uint64_t st = 17;
    for (int r = 0; r < NREG; r++) st = hrep(st, canonical(mc.M[t][r]));
    rec.state = st;
    if (failed_alloc && op.retry && !again && !e.toobig) {
        OpRec keep = rec;
        exec_op(t, i, op, true);
        keep.state = rec.state; keep.digest = hmix(keep.digest, rec.digest);
        rec = keep;
    }
    return true;
}

// ---------------------------------------------------------------- environment
static void rescue_body() { // the client's new_handler: it uses the library itself, then gives memory back
    BigInteger a((int64_t)0x123456789ABCDEFll), b((int64_t)-77777777777ll);
    BigInteger c = a * b + BigInteger(5);
    BigInteger q = c / b;
    if (q.to_string() != "81985529216486894") note("wrong", 0, rt::cur_op[0], "operation run from a new_handler gave " + q.to_string());
    BigInteger p = BigInteger::pow(BigInteger(-7), 61), m = BigInteger::mod_pow(BigInteger(3), p * p, BigInteger((int64_t)1000000007ll * 1000003));
    if (BigInteger::greatest_common_divisor(p * a, p * b) < BigInteger(1) || m < BigInteger(0)) note("wrong", 0, rt::cur_op[0], "operation run from a new_handler gave a wrong sign");
}
struct Grouping : std::numpunct<char> {
    char do_thousands_sep() const override { return '.'; }
    char do_decimal_point() const override { return ','; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
};
struct OddCtype : std::ctype<char> { // a host program's own idea of digits, spaces and letters
    mask t[table_size];
    OddCtype() : std::ctype<char>(t) {
        for (size_t k = 0; k < table_size; k++) t[k] = classic_table()[k];
        for (char k : {'x', '_', ',', 'a', '\xb2'}) t[(unsigned char)k] = digit | xdigit | alnum | print;
        for (char k : {'.', '5', '-', '\0'}) t[(unsigned char)k] |= space;
        t[(unsigned char)'7'] &= ~digit; t[(unsigned char)' '] &= ~space;
    }
};
static void apply_env(const Case& c) {
    rt::env = rt::Env(); rt::env.strict = relevant(c.prop, "mem");
    rt::env.fill_seed = c.get("fill"); rt::env.reuse = (int)c.get("reuse"); rt::env.offset = c.get("offset"); rt::env.gap_seed = c.get("gaps"); rt::env.stack_seed = c.get("stackfill"); rt::env.world_seed = c.get("world");
    switch (c.get("round")) { case 1: fesetround(FE_DOWNWARD); break; case 2: fesetround(FE_UPWARD); break; case 3: fesetround(FE_TOWARDZERO); break; default: break; }
    if (c.get("ftz")) _mm_setcsr(_mm_getcsr() | 0x8040);
    if (c.get("locale")) { std::locale l(std::locale::classic(), new Grouping); if (c.get("locale") > 1) l = std::locale(l, new OddCtype); std::locale::global(l); }
    if (c.get("clocale")) setlocale(LC_ALL, "C.utf8");
    if (c.get("errno")) errno = (int)c.get("errno");
}

// ---------------------------------------------------------------- set-up of registers
static void set_up(const Case& c, bool model, bool big) {
    mc.c = &c; mc.model = model; mc.big = big; room = c.get("room");
    power_limit = c.get("deep") ? 6e7 : 6e6;
    static BigInteger* sh[NSH];
    mc.shared_rep.clear();
    for (int j = 0; j < NSH; j++) { sh[j] = build(c.shared[j]); mc.shared_rep.push_back(canonical(c.shared[j])); }
    for (int t = 0; t < c.nthr; t++) {
        mc.M[t].clear();
        for (int r = 0; r < NREG; r++) {
            BigInteger* b = nullptr;
            if (c.get("copies") && c.init[t][r] == c.shared[r % NSH]) { void* p = raw(sizeof(BigInteger)); rt::ScopeMode m(rt::ARENA); b = new (p) BigInteger(*sh[r % NSH]); }
            else b = build(c.init[t][r]);
            mc.R[t][r] = b; mc.M[t].push_back(c.init[t][r]);
        }
        for (int j = 0; j < NSH; j++) { mc.R[t][NREG + j] = sh[j]; mc.M[t].push_back(c.shared[j]); }
        mc.slotmem[t] = raw(sizeof(BigInteger));
    }
}
static void tear_down(const Case& c, bool keep_stalled) {
    for (int t = 0; t < c.nthr; t++) {
        if (keep_stalled && rt::thread_stalled(t)) continue;
        for (int r = 0; r < NREG; r++) destroy(mc.R[t][r]);
        { rt::ScopeMode m(rt::ARENA); ::operator delete(mc.slotmem[t]); }
    }
    for (int j = 0; j < NSH; j++) destroy(mc.R[0][NREG + j]);
}

// ---------------------------------------------------------------- worlds (each runs in a child process of its own)
static void finish(uint64_t fs) { S->final_state = fs; S->verdict = 1; }

static const Case* thr_case;
static void thr_body(int t) {
    for (size_t i = 0; i < thr_case->ops[t].size(); i++) exec_op(t, (int)i, thr_case->ops[t][i]);
}
static void w_seq(const Case& c, bool model) { // one thread of control, optionally several rounds of the same history
    int rounds = (int)c.get("rounds", 1);
    thr_case = &c;
    uint64_t live[8] = {0};
    uint64_t fs = 0;
    for (int k = 0; k < rounds; k++) {
        set_up(c, model, c.get("big"));
        uint64_t id0 = rt::last_block_id();
        if (c.get("fresh")) rt::run_threads(1, thr_body, false); // each round on a thread of its own, which ends with it
        else for (size_t i = 0; i < c.ops[0].size(); i++) exec_op(0, (int)i, c.ops[0][i]);
        fs = S->rec[0][c.ops[0].size() ? c.ops[0].size() - 1 : 0].state;
        tear_down(c, false);
        live[k] = rt::live_blocks();
        // a leak grows the heap every time; what is kept for good after a few rounds (caches) does not
        if (rounds > 1 && k == rounds - 1 && live[k] > live[k - 1]) {
            if (rounds < 8) { rounds++; continue; }
            rt::cur_op[0] = -1;
            if (relevant(c.prop, "leak")) violation("leak", 0, -1, "the same history, run again, left " + std::to_string(live[k] - live[k - 1]) + " more live blocks: " + rt::live_summary(id0));
            S->foreign++;
        }
    }
    finish(fs);
}

static void w_threads(const Case& c, bool alone) {
    set_up(c, false, false);
    thr_case = &c;
    if (alone) {
        // each thread by itself, in a fresh simulated machine: no other thread ever runs
        for (int t = 0; t < c.nthr; t++) { rt::tl->id = t; thr_body(t); }
        rt::tl->id = 0;
    } else {
        rt::race_on = true;
        rt::run_threads(c.nthr, thr_body, c.get("fair"));
        rt::race_on = false;
    }
    uint64_t fs = 3;
    for (int j = 0; j < NSH; j++) {
        Rep now = read_rep(*mc.R[0][NREG + j]);
        if (!(now == mc.shared_rep[j])) { if (relevant(c.prop, "state")) violation("state", 0, -1, "shared value " + std::to_string(j) + " changed from " + rep_text(mc.shared_rep[j]) + " to " + rep_text(now)); S->foreign++; }
    }
    for (int t = 0; t < c.nthr; t++) fs = hmix(fs, c.ops[t].empty() ? 0 : S->rec[t][c.ops[t].size() - 1].state);
    finish(fs);
}

// ---- C07: durable storage, crashes, recovery
static uint32_t crc(const char* p, size_t n) { uint32_t h = 2166136261u; for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 16777619u; } return h ^ (uint32_t)n; }
// Saving is client code: it calls the library inside the simulated operation, so that it can be killed at any step.
static std::string encode_reg(const BigInteger& v, int form) {
    BigInteger x = v;
    std::string s;
    switch (form) {
        case 0: { auto b = v.to_byte_array(); s.assign(b.begin(), b.end()); break; }
        case 1: { auto b = v.to_byte_array(false, true); s.assign(b.begin(), b.end()); break; }
        case 2: case 3: {
            BigInteger m = v.sign() < 0 ? BigInteger::negate(v) : v;
            auto b = m.to_byte_array(true, form == 3);
            s.assign(1, v.sign() < 0 ? '-' : '+'); s.append(b.begin(), b.end());
            break;
        }
        case 4: s = v.to_string(); break;
        case 5: { auto w = v.get_bits(); int sg = v.sign_internal(); s.assign((const char*)&sg, 4); s.append((const char*)w.data(), w.size() * 4); break; }
        case 6: try { int64_t k = (long)x; s.assign("q"); s.append((const char*)&k, 8); } catch (const std::overflow_error&) { s = "t" + v.to_string(); } break;
        case 7: try { uint64_t k = (unsigned long)x; s.assign("q"); s.append((const char*)&k, 8); } catch (const std::overflow_error&) { s = "t" + v.to_string(); } break;
        case 8: try { int32_t k = (int)x; s.assign("q"); s.append((const char*)&k, 4); } catch (const std::overflow_error&) { s = "t" + v.to_string(); } break;
        case 9: try { uint32_t k = (unsigned)x; s.assign("q"); s.append((const char*)&k, 4); } catch (const std::overflow_error&) { s = "t" + v.to_string(); } break;
        case 10: { // two's complement words, as bytes
            auto w = v.to_uint32_array(); s.assign((const char*)w.data(), w.size() * 4); break; }
    }
    return s;
}
static BigInteger decode_reg(const std::string& s, int form) {
    auto ba = [](const char* p, size_t n) { return byte_array(p, p + n); };
    switch (form) {
        case 0: case 10: return BigInteger(ba(s.data(), s.size()));
        case 1: return BigInteger(ba(s.data(), s.size()), false, true);
        case 2: case 3: { BigInteger m(ba(s.data() + 1, s.size() - 1), true, form == 3); return s[0] == '-' ? BigInteger::negate(m) : m; }
        case 4: return BigInteger::parse(s);
        case 5: {
            int sg; memcpy(&sg, s.data(), 4);
            uint_array w((s.size() - 4) / 4); if (!w.empty()) memcpy(w.data(), s.data() + 4, w.size() * 4);
            if (w.empty()) return BigInteger((int32_t)sg);
            return BigInteger(w, sg < 0);
        }
        default: break;
    }
    if (s[0] == 't') return BigInteger::parse(s.substr(1));
    switch (form) {
        case 6: { int64_t k; memcpy(&k, s.data() + 1, 8); return BigInteger(k); }
        case 7: { uint64_t k; memcpy(&k, s.data() + 1, 8); return BigInteger(k); }
        case 8: { int32_t k; memcpy(&k, s.data() + 1, 4); return BigInteger(k); }
        default: { uint32_t k; memcpy(&k, s.data() + 1, 4); return BigInteger(k); }
    }
}
static void kill_point(uint64_t& budget) { if (budget && --budget == 0) { S->st.kills++; _exit(77); } }
static uint64_t kill_write = 0;
static void do_save(const Case& c, const Op& op, int i) {
    rt::cur_op[0] = i;
    int form = (int)(op.k % 11);
    uint32_t nx = S->next_slot & 1;
    Slot& sl = S->slot[nx];
    std::vector<std::string> enc;
    rt::begin_op(&op.plan, 400000000);
    for (int r = 0; r < NALL; r++) {
        int f = op.k >= 100 ? (int)((op.k / 100 + r * 7) % 11) : form;
        std::string s = encode_reg(*mc.R[0][r], f);
        rt::ScopeMode m(rt::HOST);
        bool a = rt::tl->active; rt::tl->active = false;
        enc.push_back(std::string(s.data(), s.size()));
        rt::tl->active = a;
    }
    rt::end_op();
    S->rec[0][i].steps = rt::tl->steps;
    S->rec[0][i].outcome = OK; S->rec[0][i].code = O_save;
    std::string buf;
    for (int r = 0; r < NALL; r++) { int f = op.k >= 100 ? (int)((op.k / 100 + r * 7) % 11) : form; uint32_t n = (uint32_t)enc[r].size(); buf.append((char*)&f, 4); buf.append((char*)&n, 4); buf += enc[r]; }
    if (buf.size() > sizeof sl.data) { finish(0); _exit(0); }
    // durable write in sectors, then the commit record; a kill may fall between any two
    uint64_t kw = op.b ? (uint64_t)op.b : 0; // b>0: killed before the b-th sector of this save
    sl.valid = 0;
    for (size_t p = 0; p < buf.size(); p += 64) { if (kill_write == (uint64_t)i + 1 && kw) { if (--kw == 0) { S->torn++; S->st.kills++; _exit(77); } } memcpy(sl.data + p, buf.data() + p, std::min<size_t>(64, buf.size() - p)); }
    if (kill_write == (uint64_t)i + 1 && op.b) { S->torn++; S->st.kills++; _exit(77); }
    sl.len = (uint32_t)buf.size(); sl.crc = crc(buf.data(), buf.size()); sl.opidx = (uint32_t)i + 1; sl.valid = 1;
    S->next_slot++; S->saves++;
    (void)c;
}
// One incarnation of the program. killed_op/killed_step: where this incarnation is killed (-1: it is not).
static void w_crash(const Case& c, int incarnation) {
    Case cc = c;
    for (auto& o : cc.ops[0]) { if (o.code == O_save) { o.plan.ev.clear(); } else o.plan.ev.clear(); }
    // kills of this incarnation are encoded as options kill<k>op / kill<k>step / kill<k>sector
    std::string p = "kill" + std::to_string(incarnation);
    bool kills = c.opt.count(p + "op");
    int kop = (int)c.get((p + "op").c_str(), 0);
    uint64_t kstep = c.get((p + "step").c_str(), 0), ksect = c.get((p + "sector").c_str(), 0);
    bool krestore = kills && kop == 9999;
    kill_write = 0;
    if (kills && !krestore && kop < (int)cc.ops[0].size()) {
        Op& o = cc.ops[0][kop];
        if (o.code == O_save && ksect) { o.b = (int)ksect; kill_write = (uint64_t)kop + 1; }
        else o.plan.ev.push_back({kstep, 2, 0});
    }
    set_up(cc, false, false);
    size_t i = 0;
    if (S->next_slot > 0) {
        // recovery: newest slot that is complete, else the older one
        Slot* best = nullptr;
        for (int k = 0; k < 2; k++) { Slot& s = S->slot[k]; if (s.valid && s.len <= sizeof s.data && crc(s.data, s.len) == s.crc && (!best || s.opidx > best->opidx)) best = &s; }
        if (best) {
            std::string d(best->data, best->len);
            size_t p2 = 0;
            rt::Plan kp; if (krestore) kp.ev.push_back({kstep, 2, 0});
            for (int r = 0; r < NALL; r++) {
                int f; uint32_t n; memcpy(&f, &d[p2], 4); memcpy(&n, &d[p2 + 4], 4);
                rt::tl->mode = rt::HOST;
                std::string s = d.substr(p2 + 8, n); p2 += 8 + n;
                rt::cur_op[0] = -2;
                static rt::Plan none;
                rt::begin_op(krestore && r == (int)(kstep % NALL) ? &kp : &none, 400000000);
                BigInteger v = decode_reg(s, f);
                rt::tl->active = false; rt::tl->mode = rt::ARENA;
                *mc.R[0][r] = std::move(v);
                rt::end_op();
            }
            S->restores++;
            i = best->opidx;
            resync(0);
            for (int r = 0; r < NALL; r++) if (!is_canonical(read_rep(*mc.R[0][r]))) violation("diff", 0, -2, "value restored from form " + std::to_string((int)best->data[0]) + " is not canonical: " + rep_text(read_rep(*mc.R[0][r])));
        }
    }
    for (; i < cc.ops[0].size(); i++) {
        if (cc.ops[0][i].code == O_save) { do_save(cc, cc.ops[0][i], (int)i); S->rec[0][i].state = 0; S->rec[0][i].digest = 0; }
        else exec_op(0, (int)i, cc.ops[0][i]);
    }
    uint64_t fs = 5;
    for (int r = 0; r < NALL; r++) fs = hrep(fs, read_rep(*mc.R[0][r]));
    finish(fs);
}

// ---- C12: small stacks
static void stack_body(void*) { for (size_t i = 0; i < mc.c->ops[0].size(); i++) exec_op(0, (int)i, mc.c->ops[0][i]); }
static void act_small(void* a) { auto* p = (std::function<void()>*)a; (*p)(); }
static void w_stack(const Case& c) {
    set_up(c, false, true);
    size_t worst = 0; int worst_op = -1;
    for (size_t i = 0; i < c.ops[0].size(); i++) {
        // only the library call runs on the small stack
        const Op& op = c.ops[0][i];
        Exp e = expect(op, mc.M[0].data(), true);
        if (e.skip || e.toobig) { S->skipped++; continue; }
        rt::cur_op[0] = (int)i;
        ActOut* o = new ActOut; Args* g = new Args;
        { rt::ScopeMode m(rt::ARENA);
          if (op.code == O_cbytes) g->bytes.assign(op.x.begin(), op.x.end());
          else if (op.code == O_cwords) { g->words.assign((op.x.size() + 3) / 4, 0); if (!op.x.empty()) memcpy(g->words.data(), op.x.data(), op.x.size()); }
          else g->str.assign(op.x); }
        size_t used = 0;
        std::function<void()> f = [&] { rt::begin_op(&op.plan, step_limit(e) * 4); act_op(op, mc.R[0], mc.slotmem[0], *g, *o); rt::end_op(); };
        rt::run_on_small_stack(c.get("stackbytes", 65536), act_small, &f, used);
        OpRec& rec = S->rec[0][i];
        rec.code = op.code; rec.steps = rt::tl->steps; rec.outcome = o->outcome; rec.allocs = rt::tl->nalloc; rec.fired = rt::tl->fired;
        S->st.ops++; S->executed++;
        if (used > worst) { worst = used; worst_op = (int)i; }
        S->stack_used = std::max<uint64_t>(S->stack_used, used);
        if (used > c.get("stacklimit", 24576)) note("stack", 0, (int)i, std::string(opinfo[op.code].name) + " used " + std::to_string(used) + " bytes of stack");
        if (o->slot) store_slot(0, op, (BigInteger*)mc.slotmem[0]);
        resync(0);
        rec.state = used;
    }
    (void)worst_op;
    finish(worst);
}

// ---- C10: initialisers, main, exit handlers in a simulated order
extern "C" { typedef void (*initfn)(int, char**, char**); extern initfn __start_sim_init_array[] __attribute__((weak)); extern initfn __stop_sim_init_array[] __attribute__((weak)); }
static void run_inits_in_order() { for (initfn* f = __start_sim_init_array; f && f < __stop_sim_init_array; f++) (*f)(0, nullptr, nullptr); }
static size_t n_lib_inits() { return __start_sim_init_array ? (size_t)(__stop_sim_init_array - __start_sim_init_array) : 0; }

struct ClientJob { int thread; };
static void client_fini(void* a) { // destructor of a client global: uses the library, on values of its own
    int t = (int)(intptr_t)a;
    rt::Thr* T = rt::tl; T->id = 0;
    const Case& c = *mc.c;
    size_t n = c.ops[t].size();
    for (size_t i = n / 2; i < n; i++) { int keep = rt::tl->mode; rt::tl->mode = rt::HOST; exec_op(t, (int)i, c.ops[t][i]); rt::tl->mode = keep; }
}
static std::vector<rt::Fini> fini_list, tls_list;
static void w_initfini(const Case& c, bool straight) {
    rt::finis = &fini_list; fini_list.clear();
    rt::tls_finis = &tls_list; tls_list.clear();
    size_t n = n_lib_inits();
    std::vector<int> order; // >=0 library unit, <0 client -1-t
    for (size_t i = 0; i < n; i++) order.push_back((int)i);
    for (int t = 0; t < c.nthr; t++) order.push_back(-1 - t);
    if (!straight) { Rng r(c.get("order")); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]); }
    bool up = false;
    rt::initfini_capture = true;
    for (int k : order) {
        if (k >= 0) { rt::tl->mode = rt::ARENA; rt::tl->active = false; __start_sim_init_array[k](0, nullptr, nullptr); rt::tl->mode = rt::HOST; continue; }
        int t = -1 - k;
        if (!up) { rt::initfini_capture = false; set_up(c, false, false); rt::initfini_capture = true; up = true; }
        // a client global: its constructor runs the first half of the job; its destructor is registered after that
        for (size_t i = 0; i < c.ops[t].size() / 2; i++) exec_op(t, (int)i, c.ops[t][i]);
        if (!straight) fini_list.push_back({client_fini, (void*)(intptr_t)t});
    }
    if (straight) { for (int t = 0; t < c.nthr; t++) client_fini((void*)(intptr_t)t); finish(1); return; }
    // main, then exit: thread-local objects of the main thread first
    while (!tls_list.empty()) {
        auto f = tls_list.back(); tls_list.pop_back();
        rt::tl->mode = rt::ARENA;
        f.f(f.a);
        rt::tl->mode = rt::HOST;
    }
    while (!fini_list.empty()) {
        auto f = fini_list.back(); fini_list.pop_back();
        rt::tl->mode = f.f == client_fini ? rt::HOST : rt::ARENA;
        f.f(f.a);
        rt::tl->mode = rt::HOST;
    }
    finish(1);
}

// ---------------------------------------------------------------- running a case
static int g_devnull = -1;
enum How { MAIN = 0, BASE = 1, PROFILE = 2 };
struct RunRes { int verdict; std::string cls, msg; int thr = 0, op = 0; };

static RunRes run_child(Shm* s, const std::function<void()>& f) {
    s->verdict = 0; s->cls[0] = 0; s->msg[0] = 0;
    S = s;
    rt::stats = &s->st;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        if (!g_verbose) { dup2(g_devnull, 2); dup2(g_devnull, 1); }
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); prctl(PR_SET_DUMPABLE, 0);
        struct itimerval tv{}; tv.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &tv, nullptr); // processor time; cases take far less
        alarm(400);
        rt::on_fatal = fatal_hook;
        rt::rescue_hook = rescue_body;
        f();
        _exit(s->verdict == 1 ? 0 : 9);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    RunRes r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { r.verdict = 77; return r; }
    r.verdict = s->verdict;
    if (s->verdict == 2) { r.cls = s->cls; r.msg = s->msg; r.thr = s->thr; r.op = s->op; }
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        r.verdict = 2;
        r.cls = sg == SIGALRM || sg == SIGPROF ? "steps" : (sg == SIGSEGV || sg == SIGBUS) ? "segv" : "died";
        r.msg = sg == SIGALRM || sg == SIGPROF ? "no end in sight (60 s)" : std::string("process ended by ") + strsignal(sg);
        r.op = rt::cur_op[0];
    } else if (r.verdict == 0) { r.verdict = 2; r.cls = "died"; r.msg = "process ended with status " + std::to_string(WEXITSTATUS(st)); }
    return r;
}
static void clear(Shm* s) { memset((void*)s->rec, 0, sizeof s->rec); s->final_state = 0; s->next_slot = 0; s->slot[0].valid = s->slot[1].valid = 0; }

static bool diff_recs(const Case& c, const Shm* a, const Shm* b, RunRes& out, bool skip_logs) {
    for (int t = 0; t < c.nthr; t++) for (size_t i = 0; i < c.ops[t].size(); i++) {
        const OpRec &x = a->rec[t][i], &y = b->rec[t][i];
        if (c.ops[t][i].code == O_save) continue;
        if (x.code != y.code || (x.outcome == 0 && x.digest == 0 && x.steps == 0)) continue; // not reached
        if (x.digest != y.digest || x.outcome != y.outcome) {
            // an injected failure may strike a call in one execution only (first-use tables): not comparable from there on
            bool fx = x.fired && (x.outcome == E_ALLOC || x.outcome == E_FALSE), fy = y.fired && (y.outcome == E_ALLOC || y.outcome == E_FALSE);
            if (fx != fy) break;
            out.verdict = 2; out.cls = "diff"; out.thr = t; out.op = (int)i;
            out.msg = std::string(opinfo[c.ops[t][i].code].name) + " (thread " + std::to_string(t) + " op " + std::to_string(i) + "): " + outcome_name(x.outcome) + " with result " + std::to_string(x.digest) + ", alone/undisturbed: " + outcome_name(y.outcome) + " with result " + std::to_string(y.digest);
            return true;
        }
    }
    (void)skip_logs;
    return false;
}

static Case undisturbed(const Case& c) { // same program and the same injected failures, nothing else
    Case b = c;
    for (auto k : {"fill", "reuse", "offset", "gaps", "stackfill", "round", "ftz", "locale", "clocale", "errno", "handler", "world", "stackoff", "fresh"}) b.opt.erase(k);
    for (int t = 0; t < b.nthr; t++) for (auto& o : b.ops[t]) o.plan.ev.clear();
    return b;
}

// Executes a case completely and judges it. The result is a pure function of the case and the code under test.
static RunRes run_case(const Case& c, bool* baseline_bad = nullptr) {
    Shm *m = shm[0], *b = shm[1];
    clear(m); clear(b);
    RunRes r;
    if (baseline_bad) *baseline_bad = false;
    auto base_bad = [&](const RunRes& br) {
        if (br.verdict != 1) { if (baseline_bad) *baseline_bad = true; return true; }
        return false;
    };
    const std::string& w = c.world;
    RunRes ok; ok.verdict = 1;
    if (w == "core" || w == "budget") {
        r = run_child(m, [&] { run_inits_in_order(); apply_env(c); w_seq(c, true); });
        if (r.verdict == 2 && c.prop == "C01" && r.cls == "retry") { // only if the repetition differs from the operation without any failure
            Case n = c; n.prop = "C02"; for (auto& o : n.ops[0]) { auto ev = o.plan.ev; o.plan = rt::Plan(); o.plan.ev = ev; o.retry = false; }
            Shm* keep = m; clear(b);
            RunRes br = run_child(b, [&] { run_inits_in_order(); apply_env(n); w_seq(n, true); });
            S = keep; rt::stats = &keep->st;
            if (br.verdict == 2) { m->foreign++; return ok; }
        }
    }
    else if (w == "stack") r = run_child(m, [&] { run_inits_in_order(); apply_env(c); w_stack(c); });
    else if (w == "threads") {
        Case u = undisturbed(c);
        RunRes br = run_child(b, [&] { run_inits_in_order(); apply_env(u); w_threads(u, true); });
        if (base_bad(br)) return ok;
        r = run_child(m, [&] { run_inits_in_order(); apply_env(c); w_threads(c, false); });
        if (r.verdict == 1) diff_recs(c, m, b, r, false);
    } else if (w == "env") {
        Case u = undisturbed(c);
        RunRes br = run_child(b, [&] { run_inits_in_order(); apply_env(u); w_seq(u, false); });
        if (base_bad(br)) return ok;
        r = run_child(m, [&] {
            run_inits_in_order(); apply_env(c);
            volatile char* lower = (volatile char*)__builtin_alloca(c.get("stackoff") + 16); lower[0] = 1; // the stack begins somewhere else
            struct Unwinding { const Case& c; ~Unwinding() { w_seq(c, false); } };
            switch (c.get("handler")) {
                case 1: try { throw 7; } catch (int) { w_seq(c, false); } break;   // inside a handler of the host program
                case 2: try { Unwinding u{c}; throw 7; } catch (int) {} break;     // while one of its exceptions is on its way
                default: w_seq(c, false);
            }
        });
        if (r.verdict == 1) diff_recs(c, m, b, r, false);
    } else if (w == "initfini") {
        RunRes br = run_child(b, [&] { w_initfini(c, true); });
        if (base_bad(br)) return ok;
        r = run_child(m, [&] { w_initfini(c, false); });
        if (r.verdict == 1) diff_recs(c, m, b, r, false);
    } else if (w == "crash") {
        Case u = undisturbed(c);
        for (auto it = u.opt.begin(); it != u.opt.end();) if (it->first.compare(0, 4, "kill") == 0) it = u.opt.erase(it); else ++it;
        for (auto& o : u.ops[0]) if (o.code == O_save) o.code = O_zero, o.d = 0, o.a = -1; // placeholder, removed below
        // the undisturbed program neither saves nor stops
        RunRes br = run_child(b, [&] {
            run_inits_in_order(); set_up(u, false, false);
            for (size_t i = 0; i < u.ops[0].size(); i++) if (u.ops[0][i].a >= 0) exec_op(0, (int)i, u.ops[0][i]);
            uint64_t fs = 5;
            for (int q = 0; q < NALL; q++) fs = hrep(fs, read_rep(*mc.R[0][q]));
            finish(fs);
        });
        if (base_bad(br)) return ok;
        for (int inc = 0; inc < 8; inc++) {
            r = run_child(m, [&] { run_inits_in_order(); apply_env(c); w_crash(c, inc); });
            if (r.verdict != 77) break;
        }
        if (r.verdict == 77) { r.verdict = 2; r.cls = "died"; r.msg = "killed more often than planned"; }
        if (r.verdict == 1 && !diff_recs(c, m, b, r, false) && m->final_state != b->final_state) { r.verdict = 2; r.cls = "diff"; r.thr = 0; r.op = (int)c.ops[0].size(); r.msg = "final values differ from those of the program that never stopped"; }
    } else { r.verdict = 2; r.cls = "bad"; r.msg = "unknown world " + w; return r; }
    if (r.verdict == 2 && !relevant(c.prop, r.cls)) {
        bool map = (r.cls == "segv" && relevant(c.prop, "died"));
        if (!map) { m->foreign++; r = ok; }
    }
    return r;
}

// ---------------------------------------------------------------- generation
static void profile(const Case& c, Shm* p) { // steps and allocations of every operation when nothing is injected
    Case u = c;
    for (int t = 0; t < u.nthr; t++) for (auto& o : u.ops[t]) { o.plan = rt::Plan(); o.retry = false; }
    u.prop = "none";
    clear(p);
    if (c.world == "threads") run_child(p, [&] { run_inits_in_order(); w_threads(u, true); });
    else if (c.world == "crash") run_child(p, [&] {
        run_inits_in_order(); set_up(u, false, false);
        for (size_t i = 0; i < u.ops[0].size(); i++) if (u.ops[0][i].code != O_save) exec_op(0, (int)i, u.ops[0][i]); else do_save(u, u.ops[0][i], (int)i);
        finish(0); });
    else run_child(p, [&] { run_inits_in_order(); w_seq(u, false); });
}
static void put_fault(Rng& r, Op& op, const OpRec& pr, double p) {
    if (!r.chance(p)) return;
    uint32_t n = pr.allocs;
    switch (r.below(10)) {
        case 0: op.plan.from = n ? (uint32_t)r.range(1, n) : 1; break;
        case 1: op.plan.mask = r.next() & r.next(); break;
        case 2: op.plan.cap = r.below(pr.space + 64) + 1; break;
        case 3: op.plan.budget = r.below(pr.peak + 32) + 1; break;
        case 4: if (n) { op.plan.rescue = (uint32_t)r.range(1, n); break; } // fallthrough
        default: op.plan.nth = n ? (r.chance(0.3) ? n - (uint32_t)r.below(std::min<uint32_t>(n, 3)) : (uint32_t)r.range(1, n)) : 1;
    }
    op.retry = r.chance(0.5);
}
static void add_program(Case& c, Rng& r, int t, GenCfg g) {
    c.init[t] = gen_regs(r, NREG, g.maxlimbs);
    if (g.maxlimbs >= 40 && g.mix != "damage" && r.chance(0.1)) { g.focus = gen_theme(r, c.init[t], g.maxlimbs); g.nops = std::min(g.nops, 8); }
    std::vector<Z> m = c.init[t];
    for (auto& s : c.shared) m.push_back(s);
    for (int i = 0; i < g.nops; i++) {
        Op o = gen_op(r, g, m);
        Exp e = expect(o, m.data(), false);
        if (e.skip) continue;
        if (e.err == OK && !e.toobig) { for (int k = 0; k < e.nw; k++) m[e.w[k].reg] = e.w[k].v; if (e.slot) m[o.d] = e.slotv; }
        c.ops[t].push_back(o);
    }
}
static int pick_limbs(Rng& r) { uint64_t x = r.below(100); return x < 45 ? 6 : x < 80 ? 40 : x < 95 ? 140 : 300; }

// a few operations of any kind on operands of some hundred to some thousand words
static void gen_long(Case& c, Rng& r) {
    static const int L[] = {100, 150, 250, 350, 350, 500, 700, 700, 1500, 3000, 6000};
    int lim = L[r.below(11)];
    GenCfg g; g.maxlimbs = lim; g.big = true; g.nolog = false;
    auto len = [&](int n, double lo) { n = std::max(1, (int)(n * (lo + (1 - lo) * (double)r.below(1000) / 1000))); Z v;
        switch (r.below(4)) {
            case 0: mpz_ui_pow_ui(v.get_mpz_t(), 3, 20ul * n); break;
            case 1: mpz_ui_pow_ui(v.get_mpz_t(), 2, 32ul * n); v -= gen_value(r, r.chance(0.5) ? 1 : n); break;
            default: for (int i = 0; i < n; i += 2) { v <<= 64; v += Z((unsigned long)r.next()); }
        }
        return r.chance(0.4) ? Z(-v) : v; };
    auto& v = c.init[0];
    v = gen_regs(r, NREG, std::min(lim, 300));
    for (int i = 0; i < 5; i++) v[i] = len(lim, r.chance(0.5) ? 0.1 : 0.9);
    if (r.chance(0.5)) for (int i = 0, n = (int)r.range(1, 2); i < n; i++) g.focus.push_back((int)r.below(O_COUNT - 1));
    if (c.get("deep")) { // powers with a long exponent and a modulus that is not short either
        g.focus = {O_modpow};
        for (int i = 0; i < NREG; i++) v[i] = i < 3 ? ::abs(len(220, 0.7)) : i < 6 ? len(36, 0.93) : gen_value(r, 3);
        for (int i = 0, n = (int)r.range(1, 2); i < n; i++) { Op o; o.code = O_modpow; o.a = r.chance(0.3) ? 4 : (int)r.range(6, 7); o.b = (int)r.below(3); o.c = (int)r.range(3, 5); o.d = 6; c.ops[0].push_back(o); }
        return;
    }
    else if (r.chance(0.12)) { // powers: a long exponent or a long modulus
        bool e = r.chance(0.5);
        g.focus = {O_modpow};
        for (int i = 0; i < NREG; i++) v[i] = i < 3 ? (e ? len(r.chance(0.5) ? 400 : 80, 0.3) : Z((unsigned long)(r.next() >> r.range(50, 63)))) : e ? gen_value(r, 3) : len(r.chance(0.5) ? 400 : 150, 0.7);
        for (int i = 0; i < 3; i++) if (v[i] < 0) v[i] = -v[i];
    }
    else if (r.chance(0.12)) { // common factors
        g.focus = {O_gcd};
        for (int i = 0; i < 4; i++) { Z q = len(std::min(lim, 700) / 4, 0.2); v[i] = i ? Z(q * v[4]) : q; if (!i) v[4] = len(std::min(lim, 700) / 3, 0.5); }
    }
    g.nops = (int)r.range(1, 3);
    std::vector<Z> m = v; m.resize(NALL);
    for (int i = 0; i < g.nops; i++) {
        Op o = gen_op(r, g, m);
        if (g.focus.size() == 1 && g.focus[0] == O_modpow && o.code == O_modpow && r.chance(0.8)) { o.b = (int)r.below(3); o.c = (int)r.range(3, NREG - 1); }
        if ((o.code == O_shl || o.code == O_shr || o.code == O_shle || o.code == O_shre) && r.chance(0.5)) o.k = (int64_t)r.below(32ul * lim) * (r.chance(0.2) ? -1 : 1);
        if ((o.code == O_cbytes || o.code == O_cwords || o.code == O_parse || o.code == O_tryparse) && r.chance(0.7)) o.x = gen_blob(r, o.code, lim * 4);
        Exp e = expect(o, m.data(), true);
        if (e.skip) continue;
        if (e.err == OK && !e.toobig) { for (int k = 0; k < e.nw; k++) m[e.w[k].reg] = e.w[k].v; if (e.slot) m[o.d] = e.slotv; }
        c.ops[0].push_back(o);
    }
}
// a few operations on very large operands
static void gen_big(Case& c, Rng& r) {
        if (r.chance(0.6)) { gen_long(c, r); return; }
        static const int L[] = {200, 600, 2000, 6000, 12000};
        int lim = L[r.below(5)];
        c.init[0] = gen_regs(r, NREG, 300);
        for (int i = 0; i < 4; i++) { Z v; int n = (int)(lim * (0.5 + 0.5 * (double)r.below(1000) / 1000)); v = gen_value(r, 200); Z w = gen_value(r, 300); mpz_mul_2exp(v.get_mpz_t(), v.get_mpz_t(), 32ul * n); v += w; if (r.chance(0.5)) { Z q; mpz_ui_pow_ui(q.get_mpz_t(), 3, 20ul * n); v = r.chance(0.5) ? q : -q; } c.init[0][i] = v; }
        static const int OPS[] = {O_mul, O_mul, O_div, O_rem, O_divrem, O_add, O_str, O_sub, O_xor_, O_shl, O_shr, O_gcd, O_words, O_bytes, O_rtbytes, O_inv, O_mule, O_dive, O_modpow, O_pow, O_parse, O_logn, O_hash};
        int n = (int)r.range(1, 3);
        for (int i = 0; i < n; i++) {
            Op o; o.code = OPS[r.below(23)]; o.a = (int)r.below(4); o.b = (int)r.below(r.chance(0.7) ? 4 : 8); o.c = (int)r.below(8); o.d = 4 + (int)r.below(4); o.k = (int)r.below(2000); o.u = false; o.e = r.chance(0.5);
            if (o.code == O_divrem) o.c = 7;
            if (o.code == O_rtbytes) o.u = false;
            if (o.code == O_pow) { o.a = 4 + (int)r.below(4); o.k = (int64_t)r.below(300); }
            if (o.code == O_modpow) { o.b = 4 + (int)r.below(4); o.c = (int)r.below(8); if (c.init[0][o.b] < 0) c.init[0][o.b] = -c.init[0][o.b]; Z q; mpz_tdiv_r_2exp(q.get_mpz_t(), c.init[0][o.b].get_mpz_t(), 20); c.init[0][o.b] = q; }
            if (r.chance(0.15)) { static const int B[] = {O_cbytes, O_cbytes, O_cwords, O_parse, O_tryparse}; o.code = B[r.below(5)]; o.d = 4 + (int)r.below(4); o.u = r.chance(0.5); o.x = gen_blob(r, o.code, lim * 4); }
            else if (o.code == O_parse) { o.x = c.init[0][4].get_str(10); }
            c.ops[0].push_back(o);
        }
        // keep quadratic work bounded
        for (auto it = c.ops[0].begin(); it != c.ops[0].end();) { Exp e = expect(*it, [&] { static std::vector<Z> m; m = c.init[0]; m.resize(NALL); return m.data(); }(), true); if (e.skip) it = c.ops[0].erase(it); else ++it; }
}
// long stored data, whole, padded, torn or flipped
static void gen_big_loads(Case& c, Rng& r) {
    static const int L[] = {2000, 8000, 30000, 70000}, B[] = {O_cbytes, O_cbytes, O_cwords, O_parse, O_tryparse};
    c.init[0] = gen_regs(r, NREG, 40);
    std::string last;
    for (int i = 0, n = (int)r.range(1, 4); i < n; i++) {
        Op o; o.code = B[r.below(5)]; o.d = (int)r.below(NREG); o.u = r.chance(0.4); o.e = r.chance(0.5);
        bool text = o.code == O_parse || o.code == O_tryparse;
        std::string x = gen_blob(r, o.code, L[r.below(4)]);
        if (!text && !last.empty() && r.chance(0.4)) { size_t cut = r.below(std::min(x.size(), last.size()) + 1); x = x.substr(0, cut) + last.substr(cut); } // torn between two versions
        if (r.chance(0.2)) x.resize(r.below(x.size() + 1));
        if (!text && r.chance(0.3) && !x.empty()) x[r.below(x.size())] ^= (char)(1 << r.below(8));
        if (!text) last = x;
        o.x = x;
        c.ops[0].push_back(o);
    }
}
static Case gen_case(const std::string& prop, uint64_t seed) {
    Rng r(seed);
    Case c; c.prop = prop; c.seed = seed; c.world = "core";
    power_limit = 6e6;
    GenCfg g; g.maxlimbs = pick_limbs(r);
    g.nops = (int)r.range(3, g.maxlimbs > 100 ? 10 : 22);
    bool decorate = true; double pf = 0.5;
    auto shared = [&] { c.shared = gen_regs(r, NSH, g.maxlimbs); };
    if (prop == "C01") { g.mix = r.chance(0.7) ? "state" : ""; pf = 0.8; }
    else if (prop == "C02") { g.mix = r.chance(0.3) ? "errors" : ""; pf = r.chance(0.35) ? 0.0 : 0.35; }
    else if (prop == "C03") { g.mix = ""; pf = r.chance(0.2) ? 0.0 : 0.6; c.opt["rounds"] = 3; g.nops = std::min(g.nops, 10); if (r.chance(0.5)) c.opt["reuse"] = 1 + r.below(2); if (r.chance(0.5)) c.opt["fill"] = r.next() | 1; if (r.chance(0.12)) c.opt["fresh"] = 1; }
    else if (prop == "C04") { g.mix = r.chance(0.7) ? "errors" : ""; pf = 0.45; }
    else if (prop == "C05") { c.world = "threads"; g.mix = "share"; g.use_shared = true; pf = r.chance(0.7) ? 0 : 0.25; c.nthr = (int)r.range(2, 4); g.nops = (int)r.range(2, 6); g.maxlimbs = std::min(g.maxlimbs, 140); }
    else if (prop == "C06") { c.world = "threads"; g.mix = r.chance(0.5) ? "state" : ""; pf = r.chance(0.4) ? 0 : 0.4; c.nthr = (int)r.range(2, 4); g.nops = (int)r.range(2, 7); g.maxlimbs = std::min(g.maxlimbs, 140); }
    else if (prop == "C07") { c.world = "crash"; g.mix = r.chance(0.4) ? "share" : ""; pf = 0; g.nops = (int)r.range(3, 10); }
    else if (prop == "C08") { c.world = "core"; g.mix = "damage"; pf = r.chance(0.75) ? 0 : 0.3; }
    else if (prop == "C09") { c.world = "env"; pf = r.chance(0.6) ? 0 : 0.3; g.mix = ""; }
    else if (prop == "C10") { c.world = "initfini"; pf = 0; c.nthr = (int)r.range(1, 3); g.nops = (int)r.range(2, 8); if (r.chance(0.7)) g.maxlimbs = std::min(g.maxlimbs, 6); decorate = false; }
    else if (prop == "C11") { c.opt["tight"] = 1; if (r.chance(0.5)) { c.world = "threads"; c.nthr = (int)r.range(2, 4); g.use_shared = r.chance(0.5); g.nops = (int)r.range(2, 6); c.opt["fair"] = 1; pf = r.chance(0.5) ? 0 : 0.3; } else { pf = 0.35; g.mix = r.chance(0.3) ? "errors" : ""; } }
    else if (prop == "C12") {
        if (r.chance(0.25)) { c.world = "stack"; pf = 0; c.opt["big"] = 1; decorate = false; }
        else { c.world = "budget"; decorate = true; pf = 0; }
    }
    if (c.world != "stack" && r.chance(0.3)) c.opt["room"] = r.next() >> 1 | 1;
    // swarm: a part of the operations only, longer values
    size_bias = 0;
    if (g.mix != "damage" && r.chance(c.world == "threads" ? 0.6 : 0.4)) for (int i = 0, n = (int)r.range(1, 4); i < n; i++) { int x = pick_code(r, g.mix); if (x != O_save) g.focus.push_back(x); }
    if (g.maxlimbs >= 40 && r.chance(0.35)) { size_bias = (int)r.range(1, 2); g.nops = std::min(g.nops, 8); }
    if (c.world == "core" && (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C04" || prop == "C11") && r.chance(prop == "C02" ? 0.03 : 0.015)) {
        c.opt["big"] = 1;
        gen_big(c, r);
        if (prop == "C03") c.opt["rounds"] = 3;
        for (auto& o : c.ops[0]) if (r.chance(pf * 0.8)) { if (r.chance(0.8)) o.plan.nth = 1 + (uint32_t)r.below(r.chance(0.7) ? 6 : 40); else o.plan.from = 1 + (uint32_t)r.below(6); o.retry = r.chance(0.5); }
        return c;
    }
    if (prop == "C08" && r.chance(0.03)) { c.opt["big"] = 1; gen_big_loads(c, r); for (auto& o : c.ops[0]) if (r.chance(pf)) { o.plan.nth = 1 + (uint32_t)r.below(r.chance(0.7) ? 4 : 30); o.retry = r.chance(0.5); } return c; }
    if (g.use_shared || c.world == "threads" || c.world == "crash") shared();
    if (c.world == "stack") {
        gen_big(c, r);
        return c;
    }
    if (c.world == "env") {
        auto any = [&](const char* k, uint64_t v, double p) { if (r.chance(p)) c.opt[k] = v; };
        any("fill", r.next() | 1, 0.8); any("reuse", 1 + r.below(2), 0.7); any("offset", r.below(1 << 20) * 16, 0.6); any("gaps", r.next() | 1, 0.5);
        any("stackfill", r.next() | 1, 0.7); any("round", 1 + r.below(3), 0.35); any("ftz", 1, 0.2); any("locale", 1 + r.below(2), 0.35); any("clocale", 1, 0.15); any("errno", ERANGE, 0.3); any("world", r.next() >> 1 | 1, 0.5); any("handler", 1 + r.below(2), 0.3); any("stackoff", r.below(20000), 0.4); any("fresh", 1, 0.15);
        g.nolog = c.get("round") || c.get("ftz");
    }
    if (c.world == "initfini") c.opt["order"] = r.next() >> 1;
    if (c.world == "budget" && r.chance(0.02)) {
        c.opt["big"] = 1;
        if (r.chance(0.03)) { c.opt["deep"] = 1; power_limit = 6e7; }
        gen_long(c, r);
    }
    else for (int t = 0; t < c.nthr; t++) add_program(c, r, t, g);
    if (c.world == "threads" && !g.use_shared && prop == "C06") {
        c.opt["copies"] = 1; // many values start as copies of common originals
        for (int t = 0; t < c.nthr; t++) for (int q = 0; q < NREG; q++) if (r.chance(0.7)) c.init[t][q] = c.shared[q % NSH];
    }
    if (c.world == "crash") {
        std::vector<Op> ops;
        for (auto& o : c.ops[0]) {
            ops.push_back(o);
            if (r.chance(0.45)) { Op s; s.code = O_save; s.k = r.chance(0.3) ? 100 * (int64_t)r.range(1, 1000) : (int64_t)r.below(11); ops.push_back(s); }
        }
        if (r.chance(0.9)) { Op s; s.code = O_save; s.k = (int64_t)r.below(11); ops.insert(ops.begin(), s); }
        if (ops.size() > MAXOPS) ops.resize(MAXOPS);
        c.ops[0] = ops;
    }
    if (!decorate) return c;
    Shm* p = shm[2];
    profile(c, p);
    for (int t = 0; t < c.nthr; t++) for (size_t i = 0; i < c.ops[t].size(); i++) {
        Op& o = c.ops[t][i];
        if (o.code == O_save) continue;
        put_fault(r, o, p->rec[t][i], pf);
        if (c.world == "threads" || c.world == "env") o.plan.rescue = 0;
    }
    if (c.world == "budget") {
        for (size_t i = 0; i < c.ops[0].size(); i++) {
            Op& o = c.ops[0][i]; OpRec& pr = p->rec[0][i];
            uint64_t bound = heap_bound(o.code, pr.space);
            uint64_t x = r.below(10);
            if (x < 4 || (c.get("deep") && x < 8)) o.plan.budget = bound; // enough: must succeed
            else if (x < 8) { o.plan.budget = 1 + r.below(pr.peak + 1); o.retry = r.chance(0.5); }
            else if (x < 9) { o.plan.cap = 1 + r.below(pr.peak + 1); o.retry = r.chance(0.5); }
        }
    }
    if (c.world == "threads") {
        // schedule: a swarm parameter decides how fine the interleaving is
        double dens = r.chance(0.3) ? 0.5 : r.chance(0.5) ? 3 : 12;
        for (int t = 0; t < c.nthr; t++) for (size_t i = 0; i < c.ops[t].size(); i++) {
            Op& o = c.ops[t][i];
            uint64_t st = std::max<uint64_t>(1, p->rec[t][i].steps);
            int n = (int)r.below((uint64_t)(dens * 2) + 1);
            uint64_t center = r.below(st) + 1;
            for (int k = 0; k < n; k++) {
                uint64_t at = r.chance(0.4) ? center + r.below(20) : r.chance(0.3) ? r.below(std::min<uint64_t>(st, 60)) + 1 : r.below(st) + 1;
                o.plan.ev.push_back({at, 0, (int)r.below(c.nthr)});
            }
            std::sort(o.plan.ev.begin(), o.plan.ev.end(), [](const rt::Plan::Ev& a, const rt::Plan::Ev& b) { return a.step < b.step; });
        }
        if (prop == "C11") { // some threads stop for good
            int n = (int)r.range(1, c.nthr - 1);
            for (int k = 0; k < n; k++) {
                int t = (int)r.below(c.nthr);
                if (c.ops[t].empty()) continue;
                size_t i = r.below(c.ops[t].size());
                uint64_t st = std::max<uint64_t>(1, p->rec[t][i].steps);
                auto& ev = c.ops[t][i].plan.ev;
                ev.push_back({r.below(st) + 1, 1, 0});
                std::sort(ev.begin(), ev.end(), [](const rt::Plan::Ev& a, const rt::Plan::Ev& b) { return a.step < b.step; });
            }
        }
    }
    if (c.world == "crash") {
        int kills = (int)r.range(1, 3);
        for (int k = 0; k < kills; k++) {
            std::string q = "kill" + std::to_string(k);
            if (k > 0 && r.chance(0.25)) { c.opt[q + "op"] = 9999; c.opt[q + "step"] = r.below(400) + 1; continue; }
            size_t i = r.below(c.ops[0].size());
            c.opt[q + "op"] = i;
            c.opt[q + "step"] = r.below(std::max<uint64_t>(1, p->rec[0][i].steps)) + 1;
            if (c.ops[0][i].code == O_save && r.chance(0.5)) c.opt[q + "sector"] = 1 + r.below(20);
        }
        // kills that never trigger (operation lies before the restored point) are harmless
    }
    return c;
}

// ---------------------------------------------------------------- minimisation
static bool still(const Case& c, const std::string& cls) { RunRes r = run_case(c); return r.verdict == 2 && r.cls == cls; }
static Case minimise(Case c, const std::string& cls, int& tries, double seconds) {
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < seconds && tries < 3000; };
    auto attempt = [&](const Case& n) { tries++; if (still(n, cls)) { c = n; return true; } return false; };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        if (c.world == "threads" || c.world == "initfini") for (int t = c.nthr - 1; t >= 0 && c.nthr > (c.world == "threads" ? 2 : 1) && left(); t--) {
            Case n = c;
            for (int k = t; k + 1 < n.nthr; k++) { n.init[k] = n.init[k + 1]; n.ops[k] = n.ops[k + 1]; }
            n.nthr--;
            for (int k = 0; k < n.nthr; k++) for (auto& o : n.ops[k]) for (auto& e : o.plan.ev) if (e.arg >= n.nthr) e.arg = n.nthr - 1;
            if (attempt(n)) progress = true;
        }
        for (int t = 0; t < c.nthr; t++) for (int chunk = 8; chunk >= 1; chunk /= 2) for (int i = (int)c.ops[t].size() - chunk; i >= 0 && left(); i--) {
            if (i + chunk > (int)c.ops[t].size()) continue;
            Case n = c;
            n.ops[t].erase(n.ops[t].begin() + i, n.ops[t].begin() + i + chunk);
            for (int k = 0; k < 8; k++) { std::string q = "kill" + std::to_string(k) + "op"; if (n.opt.count(q) && n.opt[q] != 9999 && (int)n.opt[q] >= i + chunk) n.opt[q] -= chunk; }
            if (attempt(n)) progress = true;
        }
        for (int t = 0; t < c.nthr; t++) for (size_t i = 0; i < c.ops[t].size() && left(); i++) {
            const rt::Plan p = c.ops[t][i].plan;
            if (p.any_fault() || p.rescue) { Case n = c; auto ev = p.ev; n.ops[t][i].plan = rt::Plan(); n.ops[t][i].plan.ev = ev; n.ops[t][i].retry = false; if (attempt(n)) progress = true; }
            if (c.ops[t][i].retry) { Case n = c; n.ops[t][i].retry = false; if (attempt(n)) progress = true; }
            for (int k = (int)c.ops[t][i].plan.ev.size() - 1; k >= 0 && left(); k--) { Case n = c; n.ops[t][i].plan.ev.erase(n.ops[t][i].plan.ev.begin() + k); if (attempt(n)) progress = true; }
        }
        std::vector<std::string> keys; for (auto& o : c.opt) keys.push_back(o.first);
        for (auto& k : keys) { if (!left()) break; if (k == "tight" || k == "rounds" || k == "order") continue; Case n = c; n.opt.erase(k); if (attempt(n)) progress = true; }
        for (int t = -1; t < c.nthr && left(); t++) {
            size_t n = t < 0 ? NSH : NREG;
            for (size_t q = 0; q < n && left(); q++) {
                auto ref = [&](Case& k) -> Z& { return t < 0 ? k.shared[q] : k.init[t][q]; };
                Z v = ref(c);
                if (v == 0) continue;
                std::vector<Z> cand = {Z(0), Z(1)};
                if (v < 0) cand.push_back(-v);
                size_t L = limbs(v);
                if (L > 1) { Z h; mpz_tdiv_r_2exp(h.get_mpz_t(), v.get_mpz_t(), 32 * (L / 2)); cand.push_back(h); mpz_tdiv_q_2exp(h.get_mpz_t(), v.get_mpz_t(), 32 * (L / 2)); cand.push_back(h); mpz_tdiv_q_2exp(h.get_mpz_t(), v.get_mpz_t(), 32); cand.push_back(h); Z top; mpz_tdiv_q_2exp(top.get_mpz_t(), v.get_mpz_t(), 32 * (L - 1)); mpz_mul_2exp(top.get_mpz_t(), top.get_mpz_t(), 32 * (L - 1)); if (top != v) cand.push_back(top); }
                for (auto& z : cand) { if (!left()) break; Case k = c; ref(k) = z; if (mpz_sizeinbase(z.get_mpz_t(), 2) < mpz_sizeinbase(ref(c).get_mpz_t(), 2) || ref(c) < 0) if (ref(c) != z && attempt(k)) { progress = limbs(z) < L || progress; break; } }
            }
        }
        for (int t = 0; t < c.nthr; t++) for (size_t i = 0; i < c.ops[t].size() && left(); i++) {
            std::string x = c.ops[t][i].x;
            if (x.size() > 1) { for (auto y : {x.substr(0, x.size() / 2), x.substr(x.size() / 2), x.substr(1), x.substr(0, x.size() - 1)}) { if (!left()) break; Case n = c; n.ops[t][i].x = y; if (attempt(n)) { progress = true; break; } } }
        }
    }
    return c;
}

// ---------------------------------------------------------------- batches
static void hash_case_features(const Case& c, const Shm* s, std::unordered_set<uint64_t>& inter, std::unordered_set<uint64_t>& states, std::unordered_set<uint64_t>& sites) {
    uint64_t h = 1; bool nontrivial = false;
    for (int t = 0; t < c.nthr; t++) for (size_t i = 0; i < c.ops[t].size(); i++) {
        const Op& o = c.ops[t][i]; const OpRec& r = s->rec[t][i];
        h = hmix(h, (uint64_t)o.code * 64 + r.outcome); h = hmix(h, r.fired ? (o.plan.nth ? o.plan.nth : o.plan.from ? 1000 + o.plan.from : 2000) : 0);
        for (auto& e : o.plan.ev) { h = hmix(h, e.step * 8 + e.kind); nontrivial = true; }
        if (r.fired) nontrivial = true;
        if (r.state) states.insert(r.state);
        if (r.fired) sites.insert(hmix(hmix(hmix(99, o.code), r.outcome), (o.plan.nth ? o.plan.nth : o.plan.from ? o.plan.from : 77) * 64 + std::min<uint32_t>(r.allocs, 63)));
    }
    for (auto& o : c.opt) if (o.first.compare(0, 4, "kill") == 0 || c.world == "env" || c.world == "initfini") { h = hmix(h, o.second); nontrivial = true; }
    if (c.world == "stack") { nontrivial = true; for (size_t i = 0; i < c.ops[0].size(); i++) h = hmix(h, s->rec[0][i].state); }
    if (nontrivial || c.prop == "C08") inter.insert(h);
}
static uint64_t result_digest(const Case& c, const Shm* s) { // results only: equal on every replica
    uint64_t h = s->final_state;
    for (int t = 0; t < c.nthr; t++) for (size_t i = 0; i < c.ops[t].size(); i++) { const OpRec& r = s->rec[t][i]; h = hmix(hmix(h, r.digest), r.outcome); }
    return h;
}
static uint64_t exec_digest(const Case& c, const Shm* s) {
    uint64_t h = s->final_state;
    for (int t = 0; t < c.nthr; t++) for (size_t i = 0; i < c.ops[t].size(); i++) { const OpRec& r = s->rec[t][i]; h = hmix(hmix(hmix(h, r.digest), r.steps), r.allocs * 64ull + r.outcome); }
    return h;
}

int main(int argc, char** argv) {
    rt::tl = &rt::main_thr;
    rt::init_arena();
    std::string cmd = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> a;
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    for (int i = 0; i < 3; i++) shm[i] = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_devnull = open("/dev/null", O_WRONLY);
    if (cmd == "gen") { Case c = gen_case(a["--prop"], std::stoull(a["--seed"])); fputs(case_text(c).c_str(), stdout); return 0; }
    if (cmd == "exec" || cmd == "show") {
        std::ifstream in(a["--file"]); std::stringstream ss; ss << in.rdbuf();
        Case c = parse_case(ss.str());
        if (cmd == "show") g_verbose = true;
        RunRes r = run_case(c);
        printf("%s %s t%d#%d %016lx %016lx %s\n", r.verdict == 2 ? "VIOLATED" : "HELD", r.cls.empty() ? "-" : r.cls.c_str(), r.thr, r.op, (unsigned long)exec_digest(c, shm[0]), (unsigned long)result_digest(c, shm[0]), r.msg.c_str());
        return r.verdict == 2 ? 1 : 0;
    }
    if (cmd == "digest") { // determinism sample: one line per seed
        uint64_t s0 = std::stoull(a["--seed"]), n = std::stoull(a["--count"]);
        for (uint64_t i = 0; i < n; i++) { Case c = parse_case(case_text(gen_case(a["--prop"], s0 + i))); uint64_t t = hstr(1, case_text(c)); RunRes r = run_case(c); bool pure = true; for (int k = 0; k < c.nthr; k++) for (auto& op : c.ops[k]) pure = pure && !op.plan.any_fault() && !op.plan.rescue;
            printf("%lu %016lx %016lx %016lx %d %d %s\n", (unsigned long)(s0 + i), (unsigned long)t, (unsigned long)exec_digest(c, shm[0]), (unsigned long)result_digest(c, shm[0]), (int)pure, r.verdict, r.cls.c_str()); }
        return 0;
    }
    if (cmd != "batch") { fprintf(stderr, "usage: sim gen|exec|show|digest|batch ...\n"); return 2; }
    std::string prop = a["--prop"], out = a["--out"];
    uint64_t seed = std::stoull(a["--seed"]), w = std::stoull(a["--worker"]), W = std::stoull(a["--workers"]);
    double secs = std::stod(a["--seconds"]);
    uint64_t maxruns = a.count("--runs") ? std::stoull(a["--runs"]) : ~0ull;
    std::unordered_set<uint64_t> inter, states, sites;
    std::map<std::string, uint64_t> worlds;
    std::vector<std::string> samples;
    double slowest = 0; uint64_t slowest_seed = 0;
    uint64_t runs = 0, base_bad = 0, foreign = 0, foreign_cases = 0, nontriv = 0;
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    for (uint64_t i = w; runs < maxruns && el() < secs; i += W) {
        uint64_t cs = seed * 1000003ull + i;
        Case c = parse_case(case_text(gen_case(prop, cs))); // exactly what a replay file can say
        bool bb = false;
        double started = el();
        shm[0]->foreign = 0;
        size_t before = inter.size();
        RunRes r = run_case(c, &bb);
        runs++; worlds[c.world]++;
        if (el() - started > slowest) { slowest = el() - started; slowest_seed = cs; }
        if (bb) base_bad++;
        foreign += shm[0]->foreign; if (shm[0]->foreign) foreign_cases++;
        hash_case_features(c, shm[0], inter, states, sites);
        if (inter.size() > before) nontriv++;
        if (samples.size() < 3 && w == 0 && c.ops[0].size() < 9 && c.ops[0].size() > 1 && case_text(c).size() < 3000) samples.push_back(case_text(c));
        if (r.verdict == 2) {
            int tries = 0;
            Case n = minimise(c, r.cls, tries, 40);
            RunRes r1 = run_case(n); uint64_t d1 = exec_digest(n, shm[0]);
            RunRes r2 = run_case(n); uint64_t d2 = exec_digest(n, shm[0]);
            bool gate = r1.verdict == 2 && r2.verdict == 2 && r1.cls == r2.cls && r1.op == r2.op && r1.msg == r2.msg && d1 == d2;
            std::ofstream f(out + ".violation");
            f << "# property " << prop << " class " << r1.cls << " seed " << cs << " minimised in " << tries << " runs\n# " << r1.msg << "\n" << case_text(n);
            f.close();
            std::ofstream fo(out + ".original"); fo << case_text(c); fo.close();
            printf("FOUND gate=%d cls=%s seed=%lu tries=%d %s\n", gate, r1.cls.c_str(), (unsigned long)cs, tries, r1.msg.c_str());
            if (!gate) printf("FOUND-DIFF first: %s | %s | %d, second: %s | %s | %d\n", r.cls.c_str(), r.msg.c_str(), r.verdict, r2.cls.c_str(), r2.msg.c_str(), r2.verdict);
            fflush(stdout);
            break;
        }
    }
    // statistics
    rt::Stats st{};
    uint64_t executed = 0, skipped = 0, checks = 0, saves = 0, restores = 0, torn = 0, replays = 0; size_t stack = 0;
    for (int k = 0; k < 2; k++) {
        const uint64_t* p = (const uint64_t*)&shm[k]->st; uint64_t* q = (uint64_t*)&st;
        if (k == 0) for (size_t x = 0; x < sizeof(rt::Stats) / 8; x++) q[x] += p[x];
    }
    Shm* s = shm[0];
    executed = s->executed; skipped = s->skipped; checks = s->checks; saves = s->saves; restores = s->restores; torn = s->torn; stack = s->stack_used; replays = s->replays;
    std::ofstream f(out + ".stats");
    f << "{\"runs\":" << runs << ",\"seconds\":" << el() << ",\"base_bad\":" << base_bad << ",\"foreign\":" << foreign << ",\"foreign_cases\":" << foreign_cases << ",\"nontrivial\":" << nontriv
      << ",\"steps\":" << st.steps << ",\"allocs\":" << st.allocs << ",\"ops\":" << st.ops << ",\"faults\":{\"alloc_nth\":" << st.faults_nth << ",\"alloc_from\":" << st.faults_from
      << ",\"alloc_mask\":" << st.faults_mask << ",\"alloc_cap\":" << st.faults_cap << ",\"alloc_budget\":" << st.faults_budget << ",\"new_handler_rescue\":" << st.rescues << ",\"thread_switch\":" << st.switches
      << ",\"thread_stall\":" << st.stalls << ",\"kill\":" << st.kills << ",\"blocked\":" << st.blocked << "},\"threw_oom\":" << st.threw_oom << ",\"documented_errors\":" << st.exp_err
      << ",\"executed\":" << executed << ",\"skipped\":" << skipped << ",\"checks\":" << checks << ",\"repeated\":" << replays << ",\"saves\":" << saves << ",\"restores\":" << restores << ",\"torn\":" << torn << ",\"stack\":" << stack
      << ",\"slowest\":" << slowest << ",\"slowest_seed\":" << slowest_seed << ",\"need\":{";
    for (int k = 0; k < O_COUNT; k++) f << (k ? "," : "") << "\"" << opinfo[k].name << "\":[" << s->maxratio[k] << "," << s->maxedge[k] << "," << s->maxspace[k] << "]";
    f << "},\"worlds\":{";
    bool first = true;
    for (auto& x : worlds) { f << (first ? "" : ",") << "\"" << x.first << "\":" << x.second; first = false; }
    f << "}}\n";
    f.close();
    std::ofstream fb(out + ".sets", std::ios::binary);
    for (auto* set : {&inter, &states, &sites}) { uint64_t n = set->size(); fb.write((char*)&n, 8); for (uint64_t v : *set) fb.write((char*)&v, 8); }
    fb.close();
    std::ofstream fs(out + ".samples");
    for (auto& x : samples) fs << x << "\x1e";
    return 0;
}
