#include "rt.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>

extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);

namespace rt {

Thr main_thr;
thread_local Thr* tl = nullptr;
Env env;
uint64_t strays = 0;
static Stats dummy_stats;
Stats* stats = &dummy_stats;
void (*on_fatal)(const char*, const char*) = nullptr;
bool race_on = false;
int cur_op[MAXT];
void (*rescue_hook)() = nullptr;
bool initfini_capture = false;
std::vector<Fini>* finis = nullptr;
std::vector<Fini>* tls_finis = nullptr;
static std::vector<Fini> tdtors[MAXT]; // destructors of the thread-local objects of each simulated thread

void fatal(const char* cls, const std::string& msg) {
    if (tl) { tl->active = false; tl->mode = HOST; }
    if (on_fatal) on_fatal(cls, msg.c_str());
    _exit(9);
}

static inline uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// ---------------------------------------------------------------- heap
static constexpr uintptr_t ABASE = 0x200000000000ull;
static constexpr uintptr_t ASIZE = 0x40000000ull; // 1 GiB of address space
static constexpr uintptr_t SBASE = 0x210000000000ull; // shadow: one byte per 8
static constexpr uint32_t MAGIC = 0x51B10C4Bu, DEAD = 0xDEADB10Cu;
static constexpr size_t HARD_CAP = 64u << 20; // no simulated machine grants a block larger than this
struct Hdr { uint32_t magic; uint32_t kind; uint64_t size; uint64_t id; Hdr* prev; Hdr* next; uint64_t pad; };
static_assert(sizeof(Hdr) == 48, "hdr");
static uintptr_t bump = ABASE;
static uint64_t nblocks = 0, nbytes = 0, next_id = 1;
static Hdr live_head;
static bool arena_ready = false;
static uint8_t* shadow(uintptr_t a) { return (uint8_t*)(SBASE + ((a - ABASE) >> 3)); }
static bool in_arena(const void* p) { return (uintptr_t)p - ABASE < ASIZE; }

struct FreeList { std::vector<Hdr*> v; };
static std::unordered_map<size_t, FreeList>* freelists = nullptr;

void init_arena() {
    if (arena_ready) return;
    void* p = mmap((void*)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* q = mmap((void*)SBASE, ASIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ABASE || q != (void*)SBASE) { perror("arena"); _exit(3); }
    live_head.prev = live_head.next = &live_head;
    arena_ready = true;
}
uint64_t live_blocks() { return nblocks; }
uint64_t live_bytes() { return nbytes; }
uint64_t last_block_id() { return next_id - 1; }
std::string live_summary(uint64_t after) {
    std::string s;
    int k = 0;
    for (Hdr* h = live_head.next; h != &live_head && k < 6; h = h->next)
        if (h->id > after) { s += (s.empty() ? "" : ", ") + std::to_string(h->size) + " bytes"; k++; }
    return s;
}

static void mark(uintptr_t a, size_t n, bool valid) {
    uint8_t* s = shadow(a);
    size_t full = n >> 3;
    memset(s, valid ? 8 : 0xFD, full);
    if (n & 7) s[full] = valid ? (uint8_t)(n & 7) : 0xFD;
}

static std::string where() {
    Thr* t = tl;
    return "thread " + std::to_string(t ? t->id : -1) + " op " + std::to_string(t ? cur_op[t->id] : -1);
}

static void slow_event(Thr* t);
static inline void step(Thr* t) { if (++t->steps >= t->next_ev) slow_event(t); }

// returns nullptr when the simulated machine is out of memory
static void race_forget(uintptr_t a, size_t n);
static void* arena_alloc(size_t n, size_t align, uint32_t kind) {
    Thr* t = tl;
    if (!arena_ready) return nullptr;
    if (t->mode == OP && !t->nofault) {
        step(t);
        t->nalloc++;
        stats->allocs++;
        const Plan* p = t->plan;
        uint32_t i = t->nalloc;
        if (p) {
            if (p->nth == i) { t->fired++; stats->faults_nth++; return nullptr; }
            if (p->from && i >= p->from) { t->fired++; stats->faults_from++; return nullptr; }
            if (i <= 64 && (p->mask >> (i - 1) & 1)) { t->fired++; stats->faults_mask++; return nullptr; }
            if (p->cap && n > p->cap) { t->fired++; stats->faults_cap++; return nullptr; }
            if (p->budget && t->op_live + n > p->budget) { t->fired++; stats->faults_budget++; return nullptr; }
            if (p->rescue == i && rescue_hook && kind < 2 && !t->in_init) {
                // memory is short; the program's new_handler runs (and uses the library itself), then memory is back
                t->rescued++; stats->rescues++;
                Thr save = *t;
                static const Plan none{};
                t->plan = &none; t->mode = ARENA; t->steps = t->edges = 0; t->ev_i = 0; t->limit = t->next_ev = 20000000;
                rescue_hook();
                *t = save;
            }
        }
        if (n > HARD_CAP) { t->fired++; stats->faults_cap++; return nullptr; }
    } else if (n > HARD_CAP) return nullptr;
    bool was = t->active; int om = t->mode; t->active = false; t->mode = HOST;
    if (align < 16) align = 16;
    Hdr* h = nullptr;
    size_t cls = (n + 15) & ~(size_t)15;
    if (env.reuse && align == 16 && freelists) {
        auto it = freelists->find(cls);
        if (it != freelists->end() && !it->second.v.empty()) {
            auto& v = it->second.v;
            if (env.reuse == 1) { h = v.back(); v.pop_back(); }
            else if (v.size() > 4) { h = v.front(); v.erase(v.begin()); }
        }
    }
    if (!h) {
        if (bump == ABASE) bump += 4096 + (env.offset & ~(uint64_t)15);
        uintptr_t a = bump + 32 + sizeof(Hdr);
        if (env.gap_seed) a += (mix(env.gap_seed + next_id) % 64) * 16;
        a = (a + align - 1) & ~(align - 1);
        if (a + cls + 64 > ABASE + ASIZE) { t->active = was; t->mode = om; t->fired++; return nullptr; }
        bump = a + cls;
        h = (Hdr*)(a - sizeof(Hdr));
    }
    h->magic = MAGIC; h->kind = kind; h->size = n; h->id = next_id++;
    h->prev = live_head.prev; h->next = &live_head; live_head.prev->next = h; live_head.prev = h;
    nblocks++; nbytes += n;
    void* u = h + 1;
    mark((uintptr_t)u, n, true);
    if (race_on && env.reuse) race_forget((uintptr_t)u, cls);
    if (env.fill_seed) {
        uint64_t x = mix(env.fill_seed ^ h->id);
        unsigned char* c = (unsigned char*)u;
        switch (env.fill_seed % 4) {
            case 0: memset(u, 0xFF, n); break;
            case 1: memset(u, (int)(x & 0xFF), n); break;
            default:
                for (size_t k = 0; k < n; k++) { if (!(k & 7)) x = mix(x); c[k] = (unsigned char)(x >> ((k & 7) * 8)); }
        }
    } else memset(u, 0, n);
    t->active = was; t->mode = om;
    if (om == OP) { t->op_live += n; if (t->op_live > t->op_peak) t->op_peak = t->op_live; }
    return u;
}

static void arena_free(void* p, uint32_t kind) {
    Thr* t = tl;
    Hdr* h = (Hdr*)p - 1;
    if (((uintptr_t)p & 15) || (uintptr_t)p < ABASE + sizeof(Hdr) || h->magic != MAGIC) {
        if (h->magic == DEAD && !((uintptr_t)p & 15)) fatal("mem", "block freed twice (" + where() + ")");
        fatal("mem", "free of a pointer that is not a block (" + where() + ")");
    }
    if (h->kind != kind) { if (!env.strict) strays++; else fatal("mem", "block released with the wrong form of delete/free (" + where() + ")"); }
    if (t && t->active) step(t);
    h->magic = DEAD;
    h->prev->next = h->next; h->next->prev = h->prev;
    nblocks--; nbytes -= h->size;
    if (t && t->mode == OP) { t->op_live = t->op_live > h->size ? t->op_live - h->size : 0; }
    mark((uintptr_t)p, h->size, false);
    if (!env.reuse) memset(p, 0xDD, h->size);
    else {
        if (t) { bool was = t->active; int om = t->mode; t->active = false; t->mode = HOST;
            if (!freelists) freelists = new std::unordered_map<size_t, FreeList>();
            (*freelists)[(h->size + 15) & ~(size_t)15].v.push_back(h);
            t->active = was; t->mode = om; }
    }
}

static void* op_new(size_t n, size_t align, uint32_t kind) {
    Thr* t = tl;
    if (!t || t->mode == HOST) {
        void* p = align > 16 ? __libc_memalign(align, n) : __libc_malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
    void* p = arena_alloc(n, align, kind);
    if (!p) throw std::bad_alloc();
    return p;
}
static void op_delete(void* p, uint32_t kind) {
    if (!p) return;
    if (in_arena(p)) arena_free(p, kind);
    else __libc_free(p);
}

// ---------------------------------------------------------------- access checks and races
static void bad_access(uintptr_t a, size_t n, bool w) {
    uint8_t s = *shadow(a & ~(uintptr_t)7);
    if (!env.strict) { strays++; return; }
    fatal("mem", std::string(w ? "write" : "read") + " of " + std::to_string(n) + " bytes " +
          (s == 0xFD ? "in a released block" : "outside any block") + " (" + where() + ")");
}
static inline void check_range(uintptr_t a, size_t n, bool w) {
    if (a - ABASE >= ASIZE) return;
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~(uintptr_t)7; g < e; g += 8) {
        uint8_t s = *shadow(g);
        if (__builtin_expect(s == 8, 1)) continue;
        uintptr_t need = (e - g) < 8 ? e - g : 8;
        if (s > 8 || need > s) { bad_access(a, n, w); return; }
    }
}

struct VC { uint32_t c[MAXT]; };
static VC vc[MAXT];
struct Cell { uintptr_t key; uint32_t rc[MAXT], wc[MAXT]; uint8_t rm[MAXT], wm[MAXT]; };
static std::vector<Cell>* cells = nullptr;
static size_t ncells = 0;
static std::map<uintptr_t, VC>* syncs = nullptr;

static Cell* cell(uintptr_t k) {
    auto& v = *cells;
    size_t m = v.size() - 1, i = mix(k) & m;
    while (v[i].key && v[i].key != k) i = (i + 1) & m;
    if (!v[i].key) {
        if (ncells * 2 > v.size()) {
            std::vector<Cell> old(v.size() * 2);
            old.swap(v);
            m = v.size() - 1;
            for (auto& c : old) if (c.key) { size_t j = mix(c.key) & m; while (v[j].key) j = (j + 1) & m; v[j] = c; }
            return cell(k);
        }
        v[i].key = k; ncells++;
    }
    return &v[i];
}
static void race_access(Thr* t, uintptr_t a, size_t n, bool w) {
    bool was = t->active; int om = t->mode; t->active = false; t->mode = HOST;
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~(uintptr_t)3; g < e; g += 4) {
        uint8_t mask = 0xF;
        if (g < a) mask &= (uint8_t)(0xF << (a - g));
        if (g + 4 > e) mask &= (uint8_t)(0xF >> (g + 4 - e));
        Cell* c = cell(g);
        for (int o = 0; o < MAXT; o++) {
            if (o == t->id) continue;
            if ((c->wm[o] & mask) && c->wc[o] > vc[t->id].c[o])
                fatal("race", std::string(w ? "write" : "read") + " by " + where() + " of memory written by thread " +
                      std::to_string(o) + " without ordering");
            if (w && (c->rm[o] & mask) && c->rc[o] > vc[t->id].c[o])
                fatal("race", "write by " + where() + " of memory read by thread " + std::to_string(o) + " without ordering");
        }
        uint32_t me = vc[t->id].c[t->id];
        if (w) { if (c->wc[t->id] != me) { c->wc[t->id] = me; c->wm[t->id] = 0; } c->wm[t->id] |= mask; }
        else { if (c->rc[t->id] != me) { c->rc[t->id] = me; c->rm[t->id] = 0; } c->rm[t->id] |= mask; }
    }
    t->active = was; t->mode = om;
}
static void sync_acquire(Thr* t, uintptr_t a) {
    if (!race_on) return;
    bool was = t->active; int om = t->mode; t->active = false; t->mode = HOST;
    auto it = syncs->find(a);
    if (it != syncs->end()) for (int i = 0; i < MAXT; i++) if (it->second.c[i] > vc[t->id].c[i]) vc[t->id].c[i] = it->second.c[i];
    t->active = was; t->mode = om;
}
static void sync_release(Thr* t, uintptr_t a) {
    if (!race_on) return;
    bool was = t->active; int om = t->mode; t->active = false; t->mode = HOST;
    VC& s = (*syncs)[a];
    for (int i = 0; i < MAXT; i++) if (vc[t->id].c[i] > s.c[i]) s.c[i] = vc[t->id].c[i];
    vc[t->id].c[t->id]++;
    t->active = was; t->mode = om;
}

static void race_forget(uintptr_t a, size_t n) { // fresh memory carries no history
    if (!cells || !ncells) return;
    auto& v = *cells; size_t m = v.size() - 1;
    for (uintptr_t g = a & ~(uintptr_t)3; g < a + n; g += 4)
        for (size_t i = mix(g) & m; v[i].key; i = (i + 1) & m)
            if (v[i].key == g) { memset(v[i].rc, 0, sizeof v[i].rc); memset(v[i].wc, 0, sizeof v[i].wc); memset(v[i].rm, 0, sizeof v[i].rm); memset(v[i].wm, 0, sizeof v[i].wm); break; }
}

static inline void access(const void* p, size_t n, bool w) {
    Thr* t = tl;
    if (!t || !t->active) return;
    step(t);
    check_range((uintptr_t)p, n, w);
    if (race_on) race_access(t, (uintptr_t)p, n, w);
}

// ---------------------------------------------------------------- threads and schedule
static int nthreads = 0;
static Thr thr[MAXT];
enum St { READY, DONE, STALLED, BLOCKED };
static St st[MAXT];
static const void* waits_for[MAXT];
static std::atomic<int> turn[MAXT + 1]; // futex words; slot MAXT is the controller
static int current = -1;
static bool fair_on = false;
static constexpr uint64_t QUANTUM = 60000;
static void (*tbody)(int);

static void fwait(std::atomic<int>* f) {
    while (f->load(std::memory_order_acquire) == 0) syscall(SYS_futex, (int*)f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    f->store(0, std::memory_order_relaxed);
}
static void fwake(std::atomic<int>* f) {
    f->store(1, std::memory_order_release);
    syscall(SYS_futex, (int*)f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static int next_ready(int from) {
    for (int k = 1; k <= nthreads; k++) { int i = (from + k) % nthreads; if (st[i] == READY) return i; }
    return -1;
}
static void hand_over(int me, int to) { // me parks until given the turn again
    if (to == me) return;
    current = to;
    fwake(to < 0 ? &turn[MAXT] : &turn[to]);
    fwait(&turn[me]);
}
static void park(int me) { // me is not READY: someone else goes on
    int to = next_ready(me);
    if (to < 0) {
        bool blocked = false; std::string who;
        for (int i = 0; i < nthreads; i++) if (st[i] == BLOCKED) { blocked = true; who += " " + std::to_string(i); }
        if (blocked) fatal("blocked", "thread(s)" + who + " cannot finish: waiting for a lock held by a stopped thread");
    }
    hand_over(me, to);
}

static void slow_event(Thr* t) {
    if (t->steps >= t->limit) {
        t->next_ev = ~0ull;
        fatal("steps", where() + " did not finish within " + std::to_string(t->limit) + " steps");
    }
    const Plan* p = t->plan;
    while (p && t->ev_i < p->ev.size() && p->ev[t->ev_i].step <= t->steps) {
        auto e = p->ev[t->ev_i++];
        if (e.kind == 2) { stats->kills++; _exit(77); }
        if (!nthreads) continue;
        if (e.kind == 0) {
            if (e.arg >= 0 && e.arg < nthreads && e.arg != t->id && st[e.arg] == READY) { stats->switches++; hand_over(t->id, e.arg); }
        } else if (e.kind == 1) {
            stats->stalls++; st[t->id] = STALLED;
            park(t->id);
        }
    }
    if (fair_on && t->steps - t->quantum >= QUANTUM) {
        t->quantum = t->steps;
        int to = next_ready(t->id);
        if (to >= 0 && to != t->id) hand_over(t->id, to);
    }
    uint64_t n = t->limit;
    if (p && t->ev_i < p->ev.size() && p->ev[t->ev_i].step < n) n = p->ev[t->ev_i].step;
    if (fair_on && t->quantum + QUANTUM < n) n = t->quantum + QUANTUM;
    t->next_ev = n;
}

void begin_op(const Plan* p, uint64_t limit) {
    Thr* t = tl;
    t->plan = p; t->steps = 0; t->edges = 0; t->nalloc = 0; t->fired = 0; t->rescued = 0; t->ev_i = 0; t->limit = limit; t->quantum = 0;
    t->op_live = t->op_peak = 0;
    t->next_ev = 0;
    t->mode = OP;
    t->active = true;
    slow_event(t);
}
void end_op() {
    Thr* t = tl;
    t->active = false; t->mode = HOST;
    t->total_steps += t->steps; stats->steps += t->steps;
}

static void* tmain(void* a) {
    int i = (int)(intptr_t)a;
    tl = &thr[i];
    fwait(&turn[i]);
    tbody(i);
    tl->active = false; tl->mode = HOST;
    while (!tdtors[i].empty()) { // the thread's own objects end with it, as one more operation of the simulated thread
        Fini f = tdtors[i].back(); tdtors[i].pop_back();
        static const Plan none{};
        begin_op(&none, 20000000);
        f.f(f.a);
        end_op();
    }
    st[i] = DONE;
    int to = next_ready(i);
    if (to < 0) {
        bool blocked = false;
        for (int k = 0; k < nthreads; k++) blocked |= st[k] == BLOCKED;
        if (blocked) fatal("blocked", "thread(s) cannot finish: waiting for a lock held by a stopped thread");
    }
    current = to;
    fwake(to < 0 ? &turn[MAXT] : &turn[to]);
    return nullptr;
}
bool thread_stalled(int i) { return st[i] == STALLED; }

void run_threads(int n, void (*body)(int), bool fair) {
    nthreads = n; tbody = body; fair_on = fair;
    delete cells; delete syncs;
    cells = new std::vector<Cell>(1 << 12); ncells = 0;
    syncs = new std::map<uintptr_t, VC>();
    for (auto& d : tdtors) d.clear();
    memset(vc, 0, sizeof vc);
    for (int i = 0; i < n; i++) { thr[i] = Thr(); thr[i].id = i; st[i] = READY; turn[i] = 0; vc[i].c[i] = 1; }
    turn[MAXT] = 0;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    pthread_t h[MAXT];
    for (int i = 0; i < n; i++) if (pthread_create(&h[i], &at, tmain, (void*)(intptr_t)i)) { perror("pthread_create"); _exit(3); }
    current = 0;
    fwake(&turn[0]);
    fwait(&turn[MAXT]);
    for (int i = 0; i < n; i++) if (st[i] == DONE) pthread_join(h[i], nullptr);
    nthreads = 0; fair_on = false;
}

// ---------------------------------------------------------------- small stacks
static ucontext_t uc_main, uc_small;
static void (*uf)(void*); static void* ua;
static void utramp() { uf(ua); }
void run_on_small_stack(size_t bytes, void (*f)(void*), void* a, size_t& used) {
    static char* mem = nullptr; static size_t msz = 0;
    if (!mem) {
        msz = bytes;
        mem = (char*)mmap(nullptr, msz + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(mem, 65536, PROT_NONE);
        mem += 65536;
    }
    memset(mem, 0xA5, msz);
    uf = f; ua = a;
    getcontext(&uc_small);
    uc_small.uc_stack.ss_sp = mem; uc_small.uc_stack.ss_size = msz; uc_small.uc_link = &uc_main;
    makecontext(&uc_small, utramp, 0);
    swapcontext(&uc_main, &uc_small);
    size_t i = 0;
    while (i < msz && (unsigned char)mem[i] == 0xA5) i++;
    used = msz - i;
}
__attribute__((noinline)) void scribble_stack(uint64_t seed) {
    volatile unsigned char buf[24576];
    uint64_t x = seed;
    for (size_t i = 0; i < sizeof buf; i++) { if (!(i & 7)) x = mix(x); buf[i] = (unsigned char)(x >> ((i & 7) * 8)); }
    asm volatile("" ::: "memory");
}

} // namespace rt

// ================================================================ interposed symbols
using namespace rt;

void* operator new(size_t n) { return op_new(n, 16, 0); }
void* operator new[](size_t n) { return op_new(n, 16, 1); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return op_new(n, 16, 0); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return op_new(n, 16, 1); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, 0); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, 1); }
void operator delete(void* p) noexcept { op_delete(p, 0); }
void operator delete[](void* p) noexcept { op_delete(p, 1); }
void operator delete(void* p, size_t) noexcept { op_delete(p, 0); }
void operator delete[](void* p, size_t) noexcept { op_delete(p, 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_delete(p, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_delete(p, 1); }
void operator delete(void* p, std::align_val_t) noexcept { op_delete(p, 0); }
void operator delete[](void* p, std::align_val_t) noexcept { op_delete(p, 1); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_delete(p, 0); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_delete(p, 1); }

extern "C" {
void* malloc(size_t n) {
    if (tl && tl->mode != HOST && !tl->nofault) { void* p = arena_alloc(n, 16, 2); if (!p) errno = ENOMEM; return p; }
    return __libc_malloc(n);
}
void* calloc(size_t a, size_t b) {
    if (tl && tl->mode != HOST && !tl->nofault) {
        size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr;
        void* p = arena_alloc(n, 16, 2); if (p) memset(p, 0, n); else errno = ENOMEM; return p;
    }
    return __libc_calloc(a, b);
}
void free(void* p) { if (!p) return; if (in_arena(p)) arena_free(p, 2); else __libc_free(p); }
void* realloc(void* p, size_t n) {
    if (p && !in_arena(p)) return __libc_realloc(p, n);
    if (!p) return malloc(n);
    size_t o = ((Hdr*)p - 1)->size;
    void* q = malloc(n);
    if (q) { memcpy(q, p, o < n ? o : n); free(p); }
    return q;
}

// exceptions in flight are not operation memory
typedef void* (*alloc_exc_t)(size_t) noexcept;
void* __cxa_allocate_exception(size_t n) noexcept {
    static alloc_exc_t real = (alloc_exc_t)dlsym(RTLD_NEXT, "__cxa_allocate_exception");
    Thr* t = tl;
    if (!t) return real(n);
    bool o = t->nofault; t->nofault = true;
    void* p = real(n);
    t->nofault = o;
    if (race_on) { bool was = t->active; t->active = false; race_forget((uintptr_t)p, n); t->active = was; }
    return p;
}

int __cxa_atexit(void (*f)(void*), void* a, void* d) {
    typedef int (*fn)(void (*)(void*), void*, void*);
    if (initfini_capture && finis) {
        Thr* t = tl; int om = HOST; bool was = false;
        if (t) { om = t->mode; was = t->active; t->mode = HOST; t->active = false; }
        finis->push_back({f, a});
        if (t) { t->mode = om; t->active = was; }
        return 0;
    }
    static fn real = (fn)dlsym(RTLD_NEXT, "__cxa_atexit");
    return real(f, a, d);
}

int __cxa_thread_atexit(void (*f)(void*), void* a, void* d) noexcept {
    typedef int (*fn)(void (*)(void*), void*, void*);
    Thr* t = tl;
    std::vector<Fini>* v = initfini_capture ? tls_finis : t && t->active && nthreads ? &tdtors[t->id] : nullptr;
    if (v) {
        int om = HOST; bool was = false;
        if (t) { om = t->mode; was = t->active; t->mode = HOST; t->active = false; }
        v->push_back({f, a});
        if (t) { t->mode = om; t->active = was; }
        return 0;
    }
    static fn real = (fn)dlsym(RTLD_NEXT, "__cxa_thread_atexit");
    if (!t) return real(f, a, d);
    int om = t->mode; bool was = t->active; t->mode = HOST; t->active = false; // its own memory is not the program's
    int r = real(f, a, d);
    t->mode = om; t->active = was;
    return r;
}

// locks of the simulated program; those inside the C and C++ run-time libraries (unwinder, loader) stay real
extern char __executable_start, etext;
#define FROM_PROGRAM ((char*)__builtin_return_address(0) >= &__executable_start && (char*)__builtin_return_address(0) < &etext)
// ---- guards of function-local statics
static int* guard_owner() { static int x; return &x; }
int __cxa_guard_acquire(uint64_t* g) {
    (void)guard_owner;
    char* b = (char*)g;
    Thr* t = tl;
    for (;;) {
        if (b[0]) { if (t && t->active) sync_acquire(t, (uintptr_t)g); return 0; }
        if (!b[1]) {
            b[1] = 1; b[2] = (char)((t ? t->id : 0) + 1);
            if (t && t->active) { t->in_init++; sync_acquire(t, (uintptr_t)g); if (FROM_PROGRAM) step(t); }
            return 1;
        }
        if (!t || !t->active || !nthreads) fatal("blocked", "recursive initialisation of a function-local static");
        if (b[2] == (char)(t->id + 1)) fatal("blocked", "recursive initialisation of a function-local static");
        st[t->id] = BLOCKED; waits_for[t->id] = g; stats->blocked++;
        park(t->id);
    }
}
static void wake(const void* w) { for (int i = 0; i < nthreads; i++) if (st[i] == BLOCKED && waits_for[i] == w) st[i] = READY; }
void __cxa_guard_release(uint64_t* g) {
    char* b = (char*)g; b[1] = 0; b[2] = 0; b[0] = 1;
    if (tl && tl->active) { if (tl->in_init) tl->in_init--; sync_release(tl, (uintptr_t)g); wake(g); if (FROM_PROGRAM) step(tl); }
}
void __cxa_guard_abort(uint64_t* g) {
    char* b = (char*)g; b[1] = 0; b[2] = 0;
    if (tl && tl->active) { if (tl->in_init) tl->in_init--; sync_release(tl, (uintptr_t)g); wake(g); }
}

// ---- locks
struct Lk { int owner; int depth; int readers; };
static std::map<const void*, Lk>* locks = nullptr;
static Lk* lk(const void* m) {
    Thr* t = tl; int om = t->mode; bool was = t->active; t->mode = HOST; t->active = false;
    if (!locks) locks = new std::map<const void*, Lk>();
    auto it = locks->find(m);
    if (it == locks->end()) it = locks->emplace(m, Lk{-1, 0, 0}).first;
    t->mode = om; t->active = was;
    return &it->second;
}
static int lock_as(const void* m, bool rd, bool try_) {
    Thr* t = tl; step(t);
    for (;;) {
        Lk* l = lk(m);
        bool ok = rd ? l->owner < 0 : (l->owner < 0 && l->readers == 0);
        if (!rd && l->owner == t->id) { l->depth++; return 0; }
        if (ok) { if (rd) l->readers++; else { l->owner = t->id; l->depth = 1; } sync_acquire(t, (uintptr_t)m); return 0; }
        if (try_) return EBUSY;
        if (!nthreads) fatal("blocked", "self-deadlock on a lock");
        st[t->id] = BLOCKED; waits_for[t->id] = m; stats->blocked++;
        park(t->id);
    }
}
static int unlock_as(const void* m) {
    Thr* t = tl; Lk* l = lk(m);
    sync_release(t, (uintptr_t)m);
    if (l->owner == t->id) { if (--l->depth == 0) l->owner = -1; } else if (l->readers > 0) l->readers--;
    wake(m); step(t);
    return 0;
}
#define SIM_ACTIVE (tl && tl->active)
#define REAL(name, ...) ((int (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name))
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (SIM_ACTIVE && FROM_PROGRAM) return lock_as(m, false, false); static auto r = REAL("pthread_mutex_lock", pthread_mutex_t*); return r(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (SIM_ACTIVE && FROM_PROGRAM) return lock_as(m, false, true); static auto r = REAL("pthread_mutex_trylock", pthread_mutex_t*); return r(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (SIM_ACTIVE && FROM_PROGRAM) return unlock_as(m); static auto r = REAL("pthread_mutex_unlock", pthread_mutex_t*); return r(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (SIM_ACTIVE && FROM_PROGRAM) return lock_as(m, true, false); static auto r = REAL("pthread_rwlock_rdlock", pthread_rwlock_t*); return r(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (SIM_ACTIVE && FROM_PROGRAM) return lock_as(m, false, false); static auto r = REAL("pthread_rwlock_wrlock", pthread_rwlock_t*); return r(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (SIM_ACTIVE && FROM_PROGRAM) return unlock_as(m); static auto r = REAL("pthread_rwlock_unlock", pthread_rwlock_t*); return r(m); }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!(SIM_ACTIVE && FROM_PROGRAM)) { static auto r = REAL("pthread_once", pthread_once_t*, void (*)(void)); return r(o, f); }
    Thr* t = tl;
    for (;;) {
        int v = *o;
        if (v == 2 || v == 0x7ffffff2) { sync_acquire(t, (uintptr_t)o); return 0; }
        if (v == 0) {
            *o = 0x7ffffff1; sync_acquire(t, (uintptr_t)o); t->in_init++; step(t);
            try { f(); } catch (...) { *o = 0; t->in_init--; sync_release(t, (uintptr_t)o); wake(o); throw; }
            *o = 2; t->in_init--; sync_release(t, (uintptr_t)o); wake(o); step(t);
            return 0;
        }
        if (!nthreads) fatal("blocked", "recursive once");
        st[t->id] = BLOCKED; waits_for[t->id] = o; stats->blocked++;
        park(t->id);
    }
}
// what the program compares or scans through the C library is an access of its own
int memcmp(const void* a, const void* b, size_t n) noexcept {
    if (SIM_ACTIVE && n) { tl->steps += n >> 3; access(a, n, false); access(b, n, false); }
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    while (n >= 8) { uint64_t u, v; __builtin_memcpy(&u, x, 8); __builtin_memcpy(&v, y, 8); if (u != v) break; x += 8; y += 8; n -= 8; }
    for (; n; n--, x++, y++) if (*x != *y) return *x < *y ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, size_t n) noexcept { return memcmp(a, b, n); }
int sched_yield(void) noexcept {
    if (SIM_ACTIVE) { step(tl); if (nthreads) { int to = next_ready(tl->id); if (to >= 0 && to != tl->id) hand_over(tl->id, to); } return 0; }
    return (int)syscall(SYS_sched_yield);
}

// ---- compiler-inserted callbacks
// ---- everything else a library could ask the operating system: answered by the simulated world
#define WORLD(k) mix(env.world_seed * 64 + (k))
static uint64_t sim_clock_ns() { static uint64_t ticks = 0; return 1700000000000000000ull + WORLD(1) % 1000000000000000000ull + (++ticks) * (1 + WORLD(2) % 1000000); }
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
    if (!SIM_ACTIVE) return (int)syscall(SYS_clock_gettime, c, ts);
    uint64_t n = sim_clock_ns(); ts->tv_sec = (time_t)(n / 1000000000); ts->tv_nsec = (long)(n % 1000000000); return 0;
}
time_t time(time_t* o) noexcept {
    if (!SIM_ACTIVE) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
    time_t t = (time_t)(sim_clock_ns() / 1000000000); if (o) *o = t; return t;
}
clock_t clock() noexcept {
    if (!SIM_ACTIVE) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
    return (clock_t)(sim_clock_ns() / 1000);
}
static uint64_t sim_rand() { static uint64_t n = 0; return WORLD(100 + ++n); }
int rand() noexcept { return (int)(sim_rand() & 0x7fffffff); }
long random() noexcept { return (long)(sim_rand() & 0x7fffffff); }
pid_t getpid() noexcept { if (!SIM_ACTIVE) return (pid_t)syscall(SYS_getpid); return (pid_t)(2 + WORLD(3) % 30000); }
pthread_t pthread_self() noexcept { static auto r = (pthread_t (*)())dlsym(RTLD_NEXT, "pthread_self"); if (!(SIM_ACTIVE && FROM_PROGRAM)) return r(); return (pthread_t)(0x7f0000000000ull + (WORLD(4) & 0xffffff000ull) + (uint64_t)tl->id * 4096); }
char* getenv(const char* n) noexcept {
    if (SIM_ACTIVE && FROM_PROGRAM) { static char v[4][24]; if (!env.world_seed || WORLD(7 + (uint64_t)n[0]) % 3 == 0) return nullptr; int k = (int)(WORLD(9) % 4); snprintf(v[k], 24, "%lu", (unsigned long)(WORLD(11) % 7)); return v[k]; }
    size_t L = strlen(n);
    for (char** e = environ; e && *e; e++) if (!strncmp(*e, n, L) && (*e)[L] == '=') return *e + L + 1;
    return nullptr;
}
int get_nprocs() noexcept { static auto r = (int (*)())dlsym(RTLD_NEXT, "get_nprocs"); if (!SIM_ACTIVE) return r(); return (int)(1 + WORLD(5) % 256); }
int get_nprocs_conf() noexcept { return get_nprocs(); }
int sched_getcpu() noexcept { if (!SIM_ACTIVE) return 0; return (int)(sim_rand() % 256); }
long sysconf(int n) noexcept {
    static auto r = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    if (!(SIM_ACTIVE && FROM_PROGRAM)) return r(n);
    switch (n) {
        case _SC_PAGESIZE: return 4096L << (WORLD(6) % 5);
        case _SC_NPROCESSORS_ONLN: case _SC_NPROCESSORS_CONF: return (long)(1 + WORLD(5) % 256);
        case _SC_PHYS_PAGES: case _SC_AVPHYS_PAGES: return (long)(1000 + WORLD(8) % 100000000);
        case _SC_LEVEL1_DCACHE_SIZE: case _SC_LEVEL2_CACHE_SIZE: case _SC_LEVEL3_CACHE_SIZE: case _SC_LEVEL1_DCACHE_LINESIZE: return (long)(WORLD(10) % 5) << (4 + WORLD(12) % 18);
        default: return r(n);
    }
}
unsigned int _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)sim_rand(); }

void __sanitizer_cov_trace_pc() {
    Thr* t = tl;
    if (!t || !t->active) return;
    if (__builtin_expect((++t->edges >> 2) > t->limit, 0)) { uint64_t l = t->limit; t->next_ev = ~0ull; fatal("steps", where() + " did not finish within " + std::to_string(l) + " steps"); }
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false); } \
    void __tsan_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); } \
    void __tsan_read_write##n(void* p) { access(p, n, false); access(p, n, true); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, false); access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if (n) access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
static void steps_for(size_t n) { Thr* t = tl; if (t && t->active) { t->steps += n >> 3; } }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    if (n) { steps_for(n); access(s, n, false); access(d, n, true); }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    if (n) { steps_for(n); access(s, n, false); access(d, n, true); }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
    if (n) { steps_for(n); access(d, n, true); }
    return memset(d, c, n);
}
void __tsan_acquire(void* p) { if (SIM_ACTIVE) sync_acquire(tl, (uintptr_t)p); }
void __tsan_release(void* p) { if (SIM_ACTIVE) sync_release(tl, (uintptr_t)p); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

static void at_pre(const volatile void* p, size_t n, bool w) {
    Thr* t = tl; if (!t || !t->active) return;
    step(t); check_range((uintptr_t)p, n, w); sync_acquire(t, (uintptr_t)p);
}
static void at_post(const volatile void* p) { Thr* t = tl; if (t && t->active) sync_release(t, (uintptr_t)p); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { at_pre(p, sizeof(T), false); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { at_pre(p, sizeof(T), true); __atomic_store_n(p, v, 5); at_post(p); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { at_pre(p, sizeof(T), true); T r = __atomic_exchange_n(p, v, 5); at_post(p); return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { at_pre(p, sizeof(T), true); T r = __atomic_fetch_add(p, v, 5); at_post(p); return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { at_pre(p, sizeof(T), true); T r = __atomic_fetch_sub(p, v, 5); at_post(p); return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { at_pre(p, sizeof(T), true); T r = __atomic_fetch_and(p, v, 5); at_post(p); return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { at_pre(p, sizeof(T), true); T r = __atomic_fetch_or(p, v, 5); at_post(p); return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { at_pre(p, sizeof(T), true); T r = __atomic_fetch_xor(p, v, 5); at_post(p); return r; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { at_pre(p, sizeof(T), true); T r = __atomic_fetch_nand(p, v, 5); at_post(p); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { at_pre(p, sizeof(T), true); int r = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); at_post(p); return r; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { at_pre(p, sizeof(T), true); int r = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); at_post(p); return r; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { at_pre(p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); at_post(p); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
