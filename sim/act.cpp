// The simulated client program: one public library call per operation. Compiled with the same instrumentation as the
// library, so that inline members expanded here are observed too.
#include "ops.h"
#include "exceptions.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <utility>

static void body(const Op& op, BigInteger* const* R, void* slot, const Args& g, ActOut& o) {
    BigInteger& a = *R[op.a];
    BigInteger& b = *R[op.b];
    BigInteger& c = *R[op.c];
    BigInteger& d = *R[op.d];
    int k = (int)op.k;
#define PUT(expr) do { new (slot) BigInteger(expr); o.slot = true; } while (0)
    switch (op.code) {
        case O_add: PUT(a + b); break;
        case O_sub: PUT(a - b); break;
        case O_mul: PUT(a * b); break;
        case O_div: PUT(a / b); break;
        case O_rem: PUT(a % b); break;
        case O_and_: PUT(a & b); break;
        case O_or_: PUT(a | b); break;
        case O_xor_: PUT(a ^ b); break;
        case O_adde: o.i[0] = &(a += b) == &a; break;
        case O_sube: o.i[0] = &(a -= b) == &a; break;
        case O_mule: o.i[0] = &(a *= b) == &a; break;
        case O_dive: o.i[0] = &(a /= b) == &a; break;
        case O_reme: o.i[0] = &(a %= b) == &a; break;
        case O_ande: o.i[0] = &(a &= b) == &a; break;
        case O_ore: o.i[0] = &(a |= b) == &a; break;
        case O_xore: o.i[0] = &(a ^= b) == &a; break;
        case O_sadd: PUT(BigInteger::add(a, b)); break;
        case O_ssub: PUT(BigInteger::subtract(a, b)); break;
        case O_smul: PUT(BigInteger::multiply(a, b)); break;
        case O_sdiv: PUT(BigInteger::divide(a, b)); break;
        case O_srem: PUT(BigInteger::remainder(a, b)); break;
        case O_divrem: PUT(BigInteger::div_rem(a, b, c)); break;
        case O_shl: PUT(a << k); break;
        case O_shr: PUT(a >> k); break;
        case O_shle: o.i[0] = &(a <<= k) == &a; break;
        case O_shre: o.i[0] = &(a >>= k) == &a; break;
        case O_neg: PUT(-a); break;
        case O_pos: PUT(+a); break;
        case O_inv: PUT(~a); break;
        case O_sneg: PUT(BigInteger::negate(a)); break;
        case O_sabs: PUT(BigInteger::abs(a)); break;
        case O_incpre: ++a; break;
        case O_incpost: a++; break;
        case O_decpre: --a; break;
        case O_decpost: a--; break;
        case O_pow: PUT(BigInteger::pow(a, k)); break;
        case O_modpow: PUT(BigInteger::mod_pow(a, b, c)); break;
        case O_gcd: PUT(BigInteger::greatest_common_divisor(a, b)); break;
        case O_copy: PUT(static_cast<const BigInteger&>(a)); break;
        case O_assign: d = a; break;
        case O_massign: if (&d != &a) { d = std::move(a); a = BigInteger(); } break;
        case O_swap: std::swap(a, b); break;
        case O_cmp:
            o.i[0] = a < b; o.i[1] = a > b; o.i[2] = a <= b; o.i[3] = a >= b; o.i[4] = a == b; o.i[5] = a != b;
            o.i[6] = a.compare_to(b); o.i[6] = (o.i[6] > 0) - (o.i[6] < 0); o.i[7] = a.equals(b);
            break;
        case O_preds: o.i[0] = a.is_zero(); o.i[1] = a.is_one(); o.i[2] = a.is_even(); o.i[3] = a.is_power_of_two(); o.i[4] = a.sign(); break;
        case O_hash: o.i[0] = a.get_hash_code(); break;
        case O_bitlen: o.i[0] = (int64_t)a.get_bit_length(); break;
        case O_bytecount: o.i[0] = a.get_byte_count(op.u); break;
        case O_bytes: o.bytes = a.to_byte_array(op.u, op.e); break;
        case O_bytesm: {
            int n = -1;
            if (k % 3 == 0) o.bytes = a.to_byte_array(BigInteger::AllocateArray, op.u, op.e, &n);
            else if (k % 3 == 1) { if (!op.u && !op.e) o.bytes = a.to_byte_array(BigInteger::AllocateArray); else o.bytes = a.to_byte_array(BigInteger::AllocateArray, op.u, op.e); }
            else { o.bytes = a.to_byte_array(BigInteger::Count, op.u, op.e, &n); o.i[0] = n; }
            break;
        }
        case O_words: o.words = a.to_uint32_array(); break;
        case O_bits: o.words = a.get_bits(); o.i[0] = a.sign_internal(); break;
        case O_str: o.str = a.to_string(); break;
        case O_toi32: o.i[0] = (int)a; break;
        case O_tou32: o.i[0] = (unsigned int)a; break;
        case O_toi64: o.i[0] = (long)a; break;
        case O_tou64: o.i[0] = (int64_t)(unsigned long)a; break;
        case O_todbl: o.dv = (double)a; break;
        case O_toflt: o.dv = (float)a; break;
        case O_log: o.dv = BigInteger::log(a, op.f); break;
        case O_logn: o.dv = BigInteger::log(a); break;
        case O_log10: o.dv = BigInteger::log10(a); break;
        case O_ci32: PUT((int32_t)op.k); break;
        case O_cu32: PUT((uint32_t)op.k); break;
        case O_ci64: PUT((int64_t)op.k); break;
        case O_cu64: PUT((uint64_t)op.k); break;
        case O_cdbl: PUT(op.f); break;
        case O_cbytes: new (slot) BigInteger(g.bytes, op.u, op.e); o.slot = true; break;
        case O_cwords: new (slot) BigInteger(g.words, op.u); o.slot = true; break;
        case O_cparts: new (slot) BigInteger(a.sign_internal(), a.get_bits()); o.slot = true; break;
        case O_parse: PUT(BigInteger::parse(g.str)); break;
        case O_tryparse: o.i[0] = BigInteger::try_parse(g.str, d); break;
        case O_zero: PUT(BigInteger::zero()); break;
        case O_one: PUT(BigInteger::one()); break;
        case O_mone: PUT(BigInteger::minus_one()); break;
        case O_rtbytes: new (slot) BigInteger(a.to_byte_array(op.u, op.e), op.u, op.e); o.slot = true; break;
        case O_rtstr: PUT(BigInteger::parse(a.to_string())); break;
        case O_rtwords:
            if (a.get_bits().empty()) new (slot) BigInteger((int32_t)a.sign_internal());
            else new (slot) BigInteger(a.get_bits(), a.sign_internal() < 0);
            o.slot = true; break;
        case O_addi: a += (int)k; break;
        case O_muli: a *= (int)k; break;
        case O_chain: PUT((a * b + c) - a); break;
        case O_rset: d = a + b; break;
        case O_rmul: d = a * b; break;
        case O_rsub: d = a - b; break;
        case O_sort: {
            std::vector<BigInteger> v;
            v.push_back(a); v.push_back(b); v.push_back(c); v.push_back(a);
            v.erase(v.begin());
            v.insert(v.begin() + 1, b);
            std::sort(v.begin(), v.end());
            for (const BigInteger& x : v) {
                uint_array w = x.get_bits();
                o.words.push_back((uint32_t)x.sign_internal()); o.words.push_back((uint32_t)w.size());
                o.words.insert(o.words.end(), w.begin(), w.end());
            }
            break;
        }
        case O_tree: {
            std::map<BigInteger, int> m;
            m[a] = 1; m[b] = 2; m[c] = 3; m.erase(m.find(b)); m.emplace(b, 4);
            o.i[0] = (int64_t)m.size(); o.i[1] = m.at(a); o.i[2] = m.at(b); o.i[3] = m.count(c) ? m.at(c) : -1;
            break;
        }
        case O_gcdw: PUT(BigInteger::greatest_common_divisor(a.get_bits(), b.get_bits())); break;
        case O_addw: PUT(BigInteger().add(a.get_bits(), a.sign_internal(), b.get_bits(), b.sign_internal())); break;
        case O_subw: PUT(BigInteger().subtract(a.get_bits(), a.sign_internal(), b.get_bits(), b.sign_internal())); break;
        default: break;
    }
}

void act_op(const Op& op, BigInteger* const* R, void* slot, const Args& g, ActOut& o) {
    try {
        body(op, R, slot, g, o);
        o.outcome = OK;
        if (op.code == O_tryparse && !o.i[0]) o.outcome = E_FALSE;
    } catch (const std::bad_alloc&) { o.outcome = E_ALLOC;
    } catch (const DivideByZero&) { o.outcome = E_DIV0;
    } catch (const std::out_of_range&) { o.outcome = E_RANGE;
    } catch (const std::overflow_error&) { o.outcome = E_OVER;
    } catch (const std::runtime_error&) { o.outcome = E_RUNTIME;
    } catch (const std::exception& e) { o.outcome = E_OTHER; const char* n = typeid(e).name(); for (int i = 0; i < 63 && n[i]; i++) o.etype[i] = n[i];
    } catch (...) { o.outcome = E_OTHER; }
}
