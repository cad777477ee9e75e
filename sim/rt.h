// Simulator runtime: owns the heap, the threads, the schedule and every memory access made by library code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

namespace rt {

constexpr int MAXT = 4;
enum Mode : int { HOST = 0, ARENA = 1, OP = 2 };

// One planned disturbance inside one operation (explicit, so a case replays without any PRNG).
struct Plan {
    uint32_t nth = 0;        // fail exactly this allocation (1-based)
    uint32_t from = 0;       // fail this and every later allocation
    uint64_t mask = 0;       // fail allocation i (1..64) if bit i-1 is set
    uint64_t cap = 0;        // fail every allocation larger than this
    uint64_t budget = 0;     // fail when live bytes acquired by the operation would exceed this
    uint32_t rescue = 0;     // at this allocation memory is short, and a new_handler makes some available
    struct Ev { uint64_t step; int kind; int arg; }; // kind 0 switch to thread arg, 1 stall, 2 kill
    std::vector<Ev> ev;      // sorted by step
    bool any_fault() const { return nth || from || mask || cap || budget; }
};

struct Thr {
    int id = 0;
    bool active = false;     // inside an operation: accesses are steps
    int mode = HOST;
    uint64_t steps = 0, next_ev = ~0ull, limit = ~0ull;
    uint32_t nalloc = 0, fired = 0, rescued = 0;
    size_t ev_i = 0;
    const Plan* plan = nullptr;
    uint64_t op_live = 0, op_peak = 0;
    uint64_t total_steps = 0, quantum = 0;
    uint64_t edges = 0;      // control-flow edges taken: bounds loops that touch no memory
    bool nofault = false;    // inside the exception machinery
    int in_init = 0;         // initialising function-local statics (using them again from there is undefined)
};
extern thread_local Thr* tl;
extern Thr main_thr;

struct Env {                 // what the environment leaves to chance
    uint64_t fill_seed = 0;  // contents of fresh memory (0: zero)
    int reuse = 0;           // 0 never reuse, 1 LIFO reuse, 2 FIFO reuse after 4 frees
    uint64_t offset = 0;     // displacement of the heap
    uint64_t gap_seed = 0;   // extra random gaps between blocks
    uint64_t stack_seed = 0; // residue on the stack
    bool strict = true;      // stray accesses end the run (false: noted, the run goes on with what the memory holds)
    uint64_t world_seed = 0; // clocks, random sources, process and thread ids, environment variables
};
extern Env env;

struct Stats {
    uint64_t steps, allocs, faults_nth, faults_from, faults_mask, faults_cap, faults_budget, rescues,
             switches, stalls, kills, blocked, ops, threw_oom, exp_err;
};
extern Stats* stats;         // in shared memory
extern uint64_t strays;      // stray accesses noted while not strict

// The run cannot go on: record and leave this simulated process.
[[noreturn]] void fatal(const char* cls, const std::string& msg);
extern void (*on_fatal)(const char* cls, const char* msg);

void init_arena();
uint64_t live_blocks();
uint64_t live_bytes();
std::string live_summary(uint64_t after_id);
uint64_t last_block_id();

void begin_op(const Plan* p, uint64_t step_limit);
void end_op();

// Runs body(i) on n simulated threads, one at a time; switches happen only where plans say so, when a thread ends,
// blocks or (fair) has run for a quantum.
void run_threads(int n, void (*body)(int), bool fair);
bool thread_stalled(int i);
extern bool race_on;
extern int cur_op[MAXT];     // for messages
extern void (*rescue_hook)(); // what the simulated program's new_handler does before memory is back
extern bool initfini_capture;
struct Fini { void (*f)(void*); void* a; };
extern std::vector<Fini>* finis;
extern std::vector<Fini>* tls_finis; // of thread-local objects of the main thread: these go first

struct ScopeMode {           // host/arena switch
    int old; Thr* t;
    explicit ScopeMode(int m) : t(tl) { if (t) { old = t->mode; t->mode = m; } }
    ~ScopeMode() { if (t) t->mode = old; }
};

// stack measurement / small stacks
void run_on_small_stack(size_t bytes, void (*f)(void*), void* a, size_t& used);
void scribble_stack(uint64_t seed);

} // namespace rt
