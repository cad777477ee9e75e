// The vocabulary of simulated programs: operations, cases, and the text form a case is replayed from.
#pragma once
#include "rt.h"
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include "bigintegercpp/BigInteger.h"

constexpr int NREG = 8;       // registers of a thread
constexpr int NSH = 4;        // values shared by all threads: registers 8..11
constexpr int NALL = NREG + NSH;
constexpr int MAXOPS = 64;    // per thread

// signature letters: d destination register, a b c registers read, A B C registers modified (and read), R register only
// written, k integer, f double, x bytes/words/text, u/e flags (unsigned, big-endian)
#define OPLIST(X) \
    X(add, "dab") X(sub, "dab") X(mul, "dab") X(div, "dab") X(rem, "dab") X(and_, "dab") X(or_, "dab") X(xor_, "dab") \
    X(adde, "Ab") X(sube, "Ab") X(mule, "Ab") X(dive, "Ab") X(reme, "Ab") X(ande, "Ab") X(ore, "Ab") X(xore, "Ab") \
    X(sadd, "dab") X(ssub, "dab") X(smul, "dab") X(sdiv, "dab") X(srem, "dab") X(divrem, "dabR") \
    X(shl, "dak") X(shr, "dak") X(shle, "Ak") X(shre, "Ak") \
    X(neg, "da") X(pos, "da") X(inv, "da") X(sneg, "da") X(sabs, "da") \
    X(incpre, "A") X(incpost, "A") X(decpre, "A") X(decpost, "A") \
    X(pow, "dak") X(modpow, "dabc") X(gcd, "dab") \
    X(copy, "da") X(assign, "Ra") X(massign, "RA") X(swap, "AB") \
    X(cmp, "ab") X(preds, "a") X(hash, "a") X(bitlen, "a") X(bytecount, "au") X(bytes, "aue") X(bytesm, "auek") X(words, "a") X(bits, "a") X(str, "a") \
    X(toi32, "a") X(tou32, "a") X(toi64, "a") X(tou64, "a") X(todbl, "a") X(toflt, "a") \
    X(log, "af") X(logn, "a") X(log10, "a") \
    X(ci32, "dk") X(cu32, "dk") X(ci64, "dk") X(cu64, "dk") X(cdbl, "df") X(cbytes, "dxue") X(cwords, "dxu") X(cparts, "da") \
    X(parse, "dx") X(tryparse, "Rx") X(zero, "d") X(one, "d") X(mone, "d") \
    X(rtbytes, "daue") X(rtstr, "da") X(rtwords, "da") \
    X(addi, "Ak") X(muli, "Ak") \
    X(chain, "dabc") X(rset, "Rab") X(rmul, "Rab") X(rsub, "Rab") X(sort, "abc") X(tree, "abc") X(gcdw, "dab") X(addw, "dab") X(subw, "dab") \
    X(save, "k")
enum Code : int {
#define X(n, s) O_##n,
    OPLIST(X)
#undef X
    O_COUNT
};
struct OpInfo { const char* name; const char* sig; };
extern const OpInfo opinfo[O_COUNT];

struct Op {
    int code = 0;
    int d = 0, a = 0, b = 0, c = 0;
    int64_t k = 0;
    double f = 0;
    std::string x;
    bool u = false, e = false;
    rt::Plan plan;
    bool retry = false;
};

enum Outcome : int { OK = 0, E_ALLOC, E_DIV0, E_RANGE, E_OVER, E_RUNTIME, E_OTHER, E_FALSE, NONE };
const char* outcome_name(int o);

// What one execution of an operation delivered.
struct ActOut {
    int outcome = NONE;
    bool slot = false;        // a BigInteger was built in the slot
    byte_array bytes;
    uint_array words;
    std::string str;
    int64_t i[8] = {0};
    double dv = 0;
    char etype[64] = {0};
};
// Arguments that are containers of the client program.
struct Args { byte_array bytes; uint_array words; std::string str; };
// The client code proper (instrumented like the library): one call of the public interface.
void act_op(const Op& op, BigInteger* const* R, void* slot, const Args& args, ActOut& o);
