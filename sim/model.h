// Reference model: mathematical integers (GMP) with C# BigInteger's conventions, the case format, and the generators.
#pragma once
#include <gmpxx.h>
#include <map>
#include <string>
#include <vector>
#include "ops.h"

using Z = mpz_class;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { s = next() ^ 0x5851F42D4C957F2Dull; s = next() ^ (seed << 32); next(); } // hashed: neighbouring seeds share no stretch of the stream
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Rep { int sign; std::vector<uint32_t> bits; bool operator==(const Rep& o) const { return sign == o.sign && bits == o.bits; } };
Rep canonical(const Z& v);
Z value_of(const Rep& r);
size_t limbs(const Z& v);
std::string zs(const Z& v);           // hex
std::string brief(const Z& v);

struct Exp {
    bool skip = false;                // outside what this simulation executes
    int err = OK;                     // expected outcome when nothing is injected
    bool toobig = false;              // no machine here can hold the result: bad_alloc or overflow_error
    int nw = 0; struct { int reg; Z v; } w[3];
    bool slot = false; Z slotv;       // value of the BigInteger returned (destination op.d)
    std::string scalar;               // canonical text of other results
    bool approx = false; double dv = 0;
    double cost = 0;                  // step estimate
    uint64_t space = 0;               // bytes of operands and result
};
// regs: NALL model values
extern double power_limit;            // cost of the dearest modular power in a history of long operands
Exp expect(const Op& op, const Z* regs, bool big);
std::string scalar_of(const Op& op, const ActOut& o);
bool scalar_matches(const Op& op, const ActOut& o, const Exp& e);

struct Case {
    std::string prop, world;
    uint64_t seed = 0;
    std::map<std::string, uint64_t> opt;
    std::vector<Z> shared = std::vector<Z>(NSH);
    int nthr = 1;
    std::vector<Z> init[rt::MAXT];
    std::vector<Op> ops[rt::MAXT];
    uint64_t get(const char* k, uint64_t d = 0) const { auto i = opt.find(k); return i == opt.end() ? d : i->second; }
};
std::string case_text(const Case& c);
Case parse_case(const std::string& text);
std::string op_text(const Op& op);

// value generators
Z gen_value(Rng& r, int maxlimbs);
Z decode_bytes(const std::string& b, bool uns, bool be);
Z decode_text(const std::string& s);
std::string hexs(const std::string& s);

// program generation: mix selects weights
struct GenCfg { std::string mix; int nops = 12; int maxlimbs = 40; bool use_shared = false; bool mutate = true; bool nolog = false, big = false; std::vector<int> focus; };
int pick_code(Rng& r, const std::string& mix);
extern int size_bias;                 // 0: mostly short values; 1, 2: more long ones
Op gen_op(Rng& r, const GenCfg& g, const std::vector<Z>& m);
