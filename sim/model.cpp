#include "model.h"
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>
#include <limits>
#include <sstream>

const OpInfo opinfo[O_COUNT] = {
#define X(n, s) {#n, s},
    OPLIST(X)
#undef X
};
const char* outcome_name(int o) {
    static const char* n[] = {"ok", "bad_alloc", "DivideByZero", "out_of_range", "overflow_error", "runtime_error", "other-exception", "false", "none"};
    return n[o];
}

size_t limbs(const Z& v) { return v == 0 ? 0 : (mpz_sizeinbase(v.get_mpz_t(), 2) + 31) / 32; }
static size_t nbits(const Z& v) { return v == 0 ? 0 : mpz_sizeinbase(v.get_mpz_t(), 2); }
static std::vector<uint32_t> mag_limbs(const Z& v) {
    std::vector<uint32_t> r(limbs(v));
    size_t n = 0;
    if (!r.empty()) mpz_export(r.data(), &n, -1, 4, 0, 0, v.get_mpz_t());
    return r;
}
Rep canonical(const Z& v) {
    auto b = mag_limbs(v);
    if (b.empty()) return {0, {}};
    if (b.size() == 1 && b[0] < 0x80000000u) return {sgn(v) < 0 ? -(int)b[0] : (int)b[0], {}};
    return {sgn(v), b};
}
Z value_of(const Rep& r) {
    if (r.bits.empty()) return Z(r.sign);
    Z v;
    mpz_import(v.get_mpz_t(), r.bits.size(), -1, 4, 0, 0, r.bits.data());
    return r.sign < 0 ? Z(-v) : v;
}
std::string zs(const Z& v) { return v.get_str(16); }
std::string brief(const Z& v) {
    std::string s = v.get_str(16);
    if (s.size() > 44) s = s.substr(0, 20) + ".." + s.substr(s.size() - 16) + "(" + std::to_string(limbs(v)) + " limbs)";
    return s[0] == '-' ? "-0x" + s.substr(1) : "0x" + s;
}
std::string hexs(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
static std::string unhex(const std::string& h) {
    std::string r;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)(v(h[i]) * 16 + v(h[i + 1]));
    return r;
}

Z decode_bytes(const std::string& b, bool uns, bool be) {
    Z v;
    if (b.empty()) return v;
    mpz_import(v.get_mpz_t(), b.size(), be ? 1 : -1, 1, 0, 0, b.data());
    unsigned char top = be ? b[0] : b[b.size() - 1];
    if (!uns && (top & 0x80)) { Z m; mpz_ui_pow_ui(m.get_mpz_t(), 2, b.size() * 8); v -= m; }
    return v;
}
Z decode_text(const std::string& s) {
    size_t i = 0; bool neg = false;
    if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; i = 1; }
    size_t j = i;
    while (j < s.size() && s[j] >= '0' && s[j] <= '9') j++;
    Z v;
    if (j > i) v.set_str(s.substr(i, j - i), 10);
    return neg ? Z(-v) : v;
}
static std::string encode_bytes(const Z& v, bool uns, bool be) { // minimal, at least one byte
    std::string r;
    if (v == 0) return std::string(1, '\0');
    if (uns || v > 0) {
        size_t n = (nbits(v) + 7) / 8;
        r.resize(n);
        mpz_export(&r[0], nullptr, -1, 1, 0, 0, v.get_mpz_t());
        if (!uns && (r[n - 1] & 0x80)) r += '\0';
    } else {
        Z m1 = -v - 1; // bits needed: those of -v-1, plus the sign
        size_t n = nbits(m1) / 8 + 1;
        Z m; mpz_ui_pow_ui(m.get_mpz_t(), 2, n * 8);
        m += v;
        r.resize(n);
        mpz_export(&r[0], nullptr, -1, 1, 0, 0, m.get_mpz_t());
    }
    if (be) std::reverse(r.begin(), r.end());
    return r;
}
static std::vector<uint32_t> encode_words(const Z& v) {
    std::vector<uint32_t> w;
    if (v == 0) return w;
    size_t n = nbits(v > 0 ? v : Z(-v - 1)) / 32 + 1;
    Z m = v;
    if (v < 0) { Z p; mpz_ui_pow_ui(p.get_mpz_t(), 2, n * 32); m += p; }
    w.assign(n, 0);
    mpz_export(w.data(), nullptr, -1, 4, 0, 0, m.get_mpz_t());
    return w;
}
static double to_double(const Z& v) {
    if (nbits(v) > 1024) return sgn(v) < 0 ? -INFINITY : INFINITY;
    return mpz_get_d(v.get_mpz_t()); // truncates
}
static Z shift(const Z& v, int64_t k) { // k>0 left
    Z r;
    if (k >= 0) mpz_mul_2exp(r.get_mpz_t(), v.get_mpz_t(), (unsigned long)k);
    else mpz_fdiv_q_2exp(r.get_mpz_t(), v.get_mpz_t(), (unsigned long)-k);
    return r;
}
static double log2z(const Z& v) { long e; double m = mpz_get_d_2exp(&e, v.get_mpz_t()); return std::log2(m) + e; }
static double ref_log(const Z& v, double base) {
    if (sgn(v) < 0 || base == 1.0) return NAN;
    if (std::isnan(base)) return NAN;
    if (std::isinf(base) && base > 0) return v == 1 ? 0.0 : NAN;
    if (base == 0.0 && v != 1) return NAN;
    if (limbs(v) <= 1 && nbits(v) < 32) {
        double a = mpz_get_d(v.get_mpz_t());
        if (a != 1 && std::isinf(base)) return NAN;
        return std::log(a) / std::log(base);
    }
    if (std::isinf(base)) return NAN;
    return log2z(v) / (std::log(base) / std::log(2.0));
}
static int ref_hash(const Z& v) {
    Rep r = canonical(v);
    uint32_t h = (uint32_t)r.sign;
    for (size_t i = r.bits.size(); i-- > 0;) h = ((h << 7) | (h >> 25)) ^ r.bits[i];
    return (int)h;
}
static Z from_double(double f) { Z r; mpz_set_d(r.get_mpz_t(), std::trunc(f)); return r; }
static std::string num(int64_t v) { return std::to_string(v); }
static std::string wtext(const std::vector<uint32_t>& w) {
    std::string s = "w"; char b[12];
    for (auto x : w) { snprintf(b, sizeof b, ":%x", x); s += b; }
    return s;
}
static std::string dtext(double d) { if (std::isnan(d)) return "nan"; char b[40]; snprintf(b, sizeof b, "%a", d); return b; }

static const double SKIP_COST = 4e7;
double power_limit = 6e6;
static double big_cost(int code) { return code == O_modpow && power_limit > 6e6 ? 1e9 : code == O_str ? 1.2e9 : code == O_mul || code == O_mule || code == O_rmul || code == O_chain ? 3e8 : code == O_parse || code == O_tryparse ? 4.5e8 : 6e7; }

Exp expect(const Op& op, const Z* m, bool big) {
    Exp e;
    const Z &a = m[op.a], &b = m[op.b], &c = m[op.c];
    double na = limbs(a) + 1, nb = limbs(b) + 1, nc = limbs(c) + 1;
    int64_t k = op.k;
    const size_t maxl = big ? 70000 : 640;
    double lin = 0; // extra linear units
    double extra = 0;
    uint64_t blob = op.x.size();
    auto put = [&](const Z& v) { e.slot = true; e.slotv = v; };
    auto wr = [&](int r, const Z& v) { e.w[e.nw].reg = r; e.w[e.nw].v = v; e.nw++; };
    auto quo = [&](Z& q, Z& r) { mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); };
    const char* sig = opinfo[op.code].sig;
    double n = 1;
    for (const char* p = sig; *p; p++) { if (*p == 'a' || *p == 'A') n += na; if (*p == 'b' || *p == 'B') n += nb; if (*p == 'c') n += nc; }
    switch (op.code) {
        case O_add: case O_sadd: put(a + b); break;
        case O_sub: case O_ssub: put(a - b); break;
        case O_adde: wr(op.a, a + b); break;
        case O_sube: wr(op.a, a - b); break;
        case O_mul: case O_smul: case O_mule:
            if (limbs(a) + limbs(b) > maxl) { e.skip = true; return e; }
            extra = na * nb;
            if (op.code == O_mule) wr(op.a, a * b); else put(a * b);
            break;
        case O_div: case O_rem: case O_sdiv: case O_srem: case O_dive: case O_reme: case O_divrem: {
            extra = na * nb;
            if (b == 0) { e.err = E_DIV0; break; }
            Z q, r; quo(q, r);
            if (op.code == O_div || op.code == O_sdiv) put(q);
            else if (op.code == O_rem || op.code == O_srem) put(r);
            else if (op.code == O_dive) wr(op.a, q);
            else if (op.code == O_reme) wr(op.a, r);
            else { put(q); wr(op.c, r); }
            break;
        }
        case O_and_: put(a & b); break;
        case O_or_: put(a | b); break;
        case O_xor_: put(a ^ b); break;
        case O_ande: wr(op.a, a & b); break;
        case O_ore: wr(op.a, a | b); break;
        case O_xore: wr(op.a, a ^ b); break;
        case O_shl: case O_shr: case O_shle: case O_shre: {
            int64_t s = (op.code == O_shl || op.code == O_shle) ? k : -k;
            Z r;
            if (a != 0 && s > 0) {
                if (s >= (1 << 29)) { e.toobig = true; break; }
                if ((s + 31) / 32 + (int64_t)limbs(a) > (int64_t)maxl) { e.skip = true; return e; }
            }
            if (a != 0) r = shift(a, s);
            if (op.code == O_shl || op.code == O_shr) put(r); else wr(op.a, r);
            break;
        }
        case O_neg: case O_sneg: put(-a); break;
        case O_pos: case O_copy: case O_cparts: put(a); break;
        case O_inv: put(-a - 1); break;
        case O_sabs: put(::abs(a)); break;
        case O_incpre: case O_incpost: wr(op.a, a + 1); break;
        case O_decpre: case O_decpost: wr(op.a, a - 1); break;
        case O_pow: {
            if (k < 0) { e.err = E_RANGE; break; }
            if (::abs(a) <= 1 || k <= 1) { put(k == 0 ? Z(1) : k == 1 ? a : a == -1 ? ((k & 1) ? Z(-1) : Z(1)) : a); break; }
            if (k >= (1 << 26)) { e.toobig = true; break; }
            double bits = (double)nbits(a) * k;
            if (bits > 32.0 * maxl) { e.skip = true; return e; }
            Z r; mpz_pow_ui(r.get_mpz_t(), a.get_mpz_t(), (unsigned long)k);
            blob = 4 * (uint64_t)limbs(a) * (uint64_t)k; // what the buffers of repeated squaring hold
            extra = 6.0 * (limbs(a) + 1) * k * (limbs(a) + 1) * k;
            lin = 40 * (limbs(a) + 1) * k;
            if (extra > 4 * SKIP_COST) { e.skip = true; return e; }
            put(r);
            break;
        }
        case O_modpow: {
            if (b < 0) { e.err = E_RANGE; break; }
            double eb = nbits(b) + 32;
            extra = eb * 6 * nc * nc + na * nc; lin = eb * 8 * nc;
            if (extra > (big ? power_limit : 1.2e6)) { e.skip = true; return e; }
            if (c == 0) { e.err = E_DIV0; break; }
            Z M = ::abs(c), A = ::abs(a), r;
            mpz_powm(r.get_mpz_t(), A.get_mpz_t(), b.get_mpz_t(), M.get_mpz_t());
            if (b == 0) r = Z(1) % M;
            if (a < 0 && mpz_odd_p(b.get_mpz_t())) r = -r;
            put(r);
            break;
        }
        case O_gcd: { extra = 3 * (na + nb) * (na + nb); lin = 10 * (na + nb); Z r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); put(r); break; }
        case O_assign: wr(op.d, a); break;
        case O_massign: if (op.d != op.a) { wr(op.d, a); wr(op.a, Z(0)); } break;
        case O_swap: if (op.a != op.b) { wr(op.a, b); wr(op.b, a); } break;
        case O_cmp: {
            int s = cmp(a, b); s = (s > 0) - (s < 0);
            e.scalar = num(s < 0) + num(s > 0) + num(s <= 0) + num(s >= 0) + num(s == 0) + num(s != 0) + "," + num(s) + "," + num(s == 0);
            break;
        }
        case O_preds: e.scalar = num(a == 0) + num(a == 1) + num(mpz_even_p(a.get_mpz_t()) ? 1 : 0) + num(a > 0 && mpz_popcount(a.get_mpz_t()) == 1) + "," + num(sgn(a)); break;
        case O_hash: e.scalar = num(ref_hash(a)); break;
        case O_bitlen: e.scalar = num((int64_t)nbits(a >= 0 ? a : Z(-a - 1))); break;
        case O_bytecount: if (op.u && a < 0) e.err = E_RUNTIME; else e.scalar = num((int64_t)encode_bytes(a, op.u, false).size()); break;
        case O_bytes: lin = 4 * na; if (op.u && a < 0) e.err = E_RUNTIME; else e.scalar = hexs(encode_bytes(a, op.u, op.e)); break;
        case O_bytesm: lin = 4 * na; if (op.u && a < 0) e.err = E_RUNTIME; else { auto s = encode_bytes(a, op.u, op.e); e.scalar = k % 3 == 2 ? "-," + num((int64_t)s.size()) : hexs(s); } break;
        case O_words: e.scalar = wtext(encode_words(a)); break;
        case O_bits: { Rep r = canonical(a); e.scalar = wtext(r.bits) + "," + num(r.sign); break; }
        case O_str: extra = 2 * na * na; lin = 20 * na; e.scalar = a.get_str(10); break;
        case O_toi32: if (mpz_fits_sint_p(a.get_mpz_t())) e.scalar = num(a.get_si()); else e.err = E_OVER; break;
        case O_tou32: if (mpz_fits_uint_p(a.get_mpz_t())) e.scalar = num((int64_t)a.get_ui()); else e.err = E_OVER; break;
        case O_toi64: if (mpz_fits_slong_p(a.get_mpz_t())) e.scalar = num(a.get_si()); else e.err = E_OVER; break;
        case O_tou64: if (mpz_fits_ulong_p(a.get_mpz_t())) e.scalar = num((int64_t)a.get_ui()); else e.err = E_OVER; break;
        case O_todbl: e.scalar = dtext(to_double(a)); break;
        case O_toflt: e.scalar = dtext((float)to_double(a)); break;
        case O_log: e.approx = true; e.dv = ref_log(a, op.f); break;
        case O_logn: e.approx = true; e.dv = ref_log(a, 2.7182818284590451); break;
        case O_log10: e.approx = true; e.dv = ref_log(a, 10.0); break;
        case O_ci32: put(Z((long)(int32_t)k)); break;
        case O_cu32: put(Z((unsigned long)(uint32_t)k)); break;
        case O_ci64: put(Z((long)k)); break;
        case O_cu64: put(Z((unsigned long)k)); break;
        case O_cdbl: lin = 40; if (!std::isfinite(op.f)) e.err = E_OVER; else put(from_double(op.f)); break;
        case O_cbytes: lin = blob; put(decode_bytes(op.x, op.u, op.e)); break;
        case O_cwords: lin = blob / 2; { Z v = decode_bytes(op.x, true, false); put(op.u ? Z(-v) : v); } break;
        case O_parse: case O_tryparse: {
            Z v = decode_text(op.x);
            double L = blob + 1; extra = L * (L / 9 + 8) * 4; lin = L;
            if (op.code == O_parse) put(v); else { wr(op.d, v); e.scalar = "1"; }
            break;
        }
        case O_zero: put(Z(0)); break;
        case O_one: put(Z(1)); break;
        case O_mone: put(Z(-1)); break;
        case O_rtbytes: lin = 8 * na; if (op.u && a < 0) e.err = E_RUNTIME; else put(a); break;
        case O_rtstr: { double L = na * 10; extra = L * (L / 9 + 8) * 4 + 2 * na * na; lin = 30 * na; put(a); break; }
        case O_rtwords: put(a); break;
        case O_addi: wr(op.a, a + Z((long)(int)k)); break;
        case O_muli: wr(op.a, a * Z((long)(int)k)); break;
        case O_chain: if (limbs(a) + limbs(b) > maxl) { e.skip = true; return e; } extra = na * nb; lin = na + nb; blob = 4 * (uint64_t)(na + nb); put(a * b + c - a); break;
        case O_rset: wr(op.d, a + b); break;
        case O_rsub: wr(op.d, a - b); break;
        case O_rmul: if (limbs(a) + limbs(b) > maxl) { e.skip = true; return e; } extra = na * nb; wr(op.d, a * b); break;
        case O_sort: {
            std::vector<Z> v{b, b, c, a}; std::sort(v.begin(), v.end());
            std::vector<uint32_t> t;
            for (auto& x : v) { Rep q = canonical(x); t.push_back((uint32_t)q.sign); t.push_back((uint32_t)q.bits.size()); t.insert(t.end(), q.bits.begin(), q.bits.end()); }
            lin = 20 * n; e.scalar = wtext(t); break;
        }
        case O_tree: {
            std::map<Z, int> t; t[a] = 1; t[b] = 2; t[c] = 3; t.erase(b); t[b] = 4;
            lin = 20 * n; blob = 400; e.scalar = num((int64_t)t.size()) + "," + num(t[a]) + "," + num(t[b]) + "," + num(t[c]); break;
        }
        case O_gcdw: if (canonical(a).bits.empty() || canonical(b).bits.empty() || mpz_cmpabs(a.get_mpz_t(), b.get_mpz_t()) < 0) { e.skip = true; return e; } extra = 3 * (na + nb) * (na + nb); lin = 10 * (na + nb); { Z r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); put(r); } break;
        case O_addw: if ((a < 0) != (b < 0)) { e.skip = true; return e; } put(a + b); break;
        case O_subw: if ((a < 0) != (b < 0)) { e.skip = true; return e; } put(a - b); break;
        default: break;
    }
    double res = 0; uint64_t sp = 0;
    if (e.slot) { res += limbs(e.slotv); sp += 4 * limbs(e.slotv); }
    for (int i = 0; i < e.nw; i++) { res += limbs(e.w[i].v); sp += 4 * limbs(e.w[i].v); }
    sp += e.scalar.size() + blob + (uint64_t)(4 * n);
    e.space = sp;
    e.cost = 400 + 30 * (n + res) + 12 * lin + 8 * extra;
    if (e.cost > (big ? big_cost(op.code) : SKIP_COST)) { e.skip = true; }
    if (!e.toobig && e.err == OK && res > (double)maxl) e.skip = true;
    return e;
}

std::string scalar_of(const Op& op, const ActOut& o) {
    switch (op.code) {
        case O_cmp: return num(o.i[0]) + num(o.i[1]) + num(o.i[2]) + num(o.i[3]) + num(o.i[4]) + num(o.i[5]) + "," + num(o.i[6]) + "," + num(o.i[7]);
        case O_preds: return num(o.i[0]) + num(o.i[1]) + num(o.i[2]) + num(o.i[3]) + "," + num(o.i[4]);
        case O_hash: case O_bitlen: case O_bytecount: case O_toi32: case O_tou32: case O_toi64: case O_tou64: case O_tryparse: return num(o.i[0]);
        case O_bytes: return hexs(std::string(o.bytes.begin(), o.bytes.end()));
        case O_bytesm: return op.k % 3 == 2 ? (o.bytes.empty() ? "-," : "?,") + num(o.i[0]) : hexs(std::string(o.bytes.begin(), o.bytes.end()));
        case O_sort: return wtext({o.words.begin(), o.words.end()});
        case O_tree: return num(o.i[0]) + "," + num(o.i[1]) + "," + num(o.i[2]) + "," + num(o.i[3]);
        case O_words: return wtext({o.words.begin(), o.words.end()});
        case O_bits: return wtext({o.words.begin(), o.words.end()}) + "," + num(o.i[0]);
        case O_str: return std::string(o.str.data(), o.str.size());
        case O_todbl: case O_toflt: case O_log: case O_logn: case O_log10: return dtext(o.dv);
        case O_adde: case O_sube: case O_mule: case O_dive: case O_reme: case O_ande: case O_ore: case O_xore: case O_shle: case O_shre:
            return o.i[0] ? "" : "other-object";
        default: return "";
    }
}
bool scalar_matches(const Op& op, const ActOut& o, const Exp& e) {
    if (!e.approx) return scalar_of(op, o) == e.scalar;
    if (std::isnan(e.dv)) return std::isnan(o.dv);
    if (std::isinf(e.dv)) return o.dv == e.dv;
    return std::fabs(o.dv - e.dv) <= 1e-9 * std::max(1e-3, std::fabs(e.dv));
}

// ---------------------------------------------------------------- text form
std::string op_text(const Op& op) {
    std::ostringstream s;
    s << "op " << opinfo[op.code].name;
    for (const char* p = opinfo[op.code].sig; *p; p++) switch (*p) {
        case 'd': case 'a': case 'b': case 'c': s << ' ' << *p << '=' << (*p == 'd' ? op.d : *p == 'a' ? op.a : *p == 'b' ? op.b : op.c); break;
        case 'A': s << " a=" << op.a; break;
        case 'B': s << " b=" << op.b; break;
        case 'R': if (op.code == O_divrem) s << " c=" << op.c; else s << " d=" << op.d; break;
        case 'k': s << " k=" << op.k; break;
        case 'f': { uint64_t u; memcpy(&u, &op.f, 8); s << " f=" << std::hex << u << std::dec; break; }
        case 'x': s << " x=" << hexs(op.x); break;
        case 'u': s << " u=" << op.u; break;
        case 'e': s << " e=" << op.e; break;
    }
    const rt::Plan& p = op.plan;
    if (p.nth) s << " nth=" << p.nth;
    if (p.from) s << " from=" << p.from;
    if (p.mask) s << " mask=" << p.mask;
    if (p.cap) s << " cap=" << p.cap;
    if (p.budget) s << " budget=" << p.budget;
    if (p.rescue) s << " rescue=" << p.rescue;
    if (op.retry) s << " retry=1";
    if (!p.ev.empty()) {
        s << " ev=";
        for (size_t i = 0; i < p.ev.size(); i++) s << (i ? "," : "") << p.ev[i].step << ':' << p.ev[i].kind << ':' << p.ev[i].arg;
    }
    return s.str();
}
std::string case_text(const Case& c) {
    std::ostringstream s;
    s << "case " << c.prop << ' ' << c.world << " seed=" << c.seed << '\n';
    s << "opt";
    for (auto& o : c.opt) s << ' ' << o.first << '=' << o.second;
    s << "\nshared";
    for (auto& v : c.shared) s << ' ' << zs(v);
    s << '\n';
    for (int t = 0; t < c.nthr; t++) {
        s << "thread " << t << "\nregs";
        for (auto& v : c.init[t]) s << ' ' << zs(v);
        s << '\n';
        for (auto& o : c.ops[t]) s << op_text(o) << '\n';
    }
    s << "end\n";
    return s.str();
}
Case parse_case(const std::string& text) {
    Case c;
    std::istringstream in(text);
    std::string line;
    int t = 0; c.nthr = 0;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w; l >> w;
        if (w == "case") { std::string sd; l >> c.prop >> c.world >> sd; c.seed = std::stoull(sd.substr(5)); }
        else if (w == "opt") { std::string kv; while (l >> kv) { auto p = kv.find('='); c.opt[kv.substr(0, p)] = std::stoull(kv.substr(p + 1)); } }
        else if (w == "shared") { std::string v; int i = 0; while (l >> v && i < NSH) c.shared[i++] = Z(v, 16); }
        else if (w == "thread") { l >> t; c.nthr = std::max(c.nthr, t + 1); }
        else if (w == "regs") { std::string v; while (l >> v) c.init[t].push_back(Z(v, 16)); }
        else if (w == "op") {
            Op o; std::string nm; l >> nm;
            for (int i = 0; i < O_COUNT; i++) if (nm == opinfo[i].name) o.code = i;
            std::string kv;
            while (l >> kv) {
                auto p = kv.find('='); std::string k = kv.substr(0, p), v = kv.substr(p + 1);
                if (k == "d") o.d = std::stoi(v); else if (k == "a") o.a = std::stoi(v); else if (k == "b") o.b = std::stoi(v);
                else if (k == "c") o.c = std::stoi(v); else if (k == "k") o.k = std::stoll(v);
                else if (k == "f") { uint64_t u = std::stoull(v, nullptr, 16); memcpy(&o.f, &u, 8); }
                else if (k == "x") o.x = unhex(v); else if (k == "u") o.u = v == "1"; else if (k == "e") o.e = v == "1";
                else if (k == "nth") o.plan.nth = (uint32_t)std::stoul(v); else if (k == "from") o.plan.from = (uint32_t)std::stoul(v);
                else if (k == "mask") o.plan.mask = std::stoull(v); else if (k == "cap") o.plan.cap = std::stoull(v);
                else if (k == "budget") o.plan.budget = std::stoull(v); else if (k == "rescue") o.plan.rescue = (uint32_t)std::stoul(v);
                else if (k == "retry") o.retry = true;
                else if (k == "ev") {
                    std::istringstream es(v); std::string one;
                    while (std::getline(es, one, ',')) { rt::Plan::Ev e; char c1, c2; std::istringstream q(one); q >> e.step >> c1 >> e.kind >> c2 >> e.arg; o.plan.ev.push_back(e); }
                }
            }
            c.ops[t].push_back(o);
        } else if (w == "end") break;
    }
    for (int i = 0; i < c.nthr; i++) c.init[i].resize(NREG);
    return c;
}

// ---------------------------------------------------------------- values
static Z from_limbs(const std::vector<uint32_t>& v) { Z z; if (!v.empty()) mpz_import(z.get_mpz_t(), v.size(), -1, 4, 0, 0, v.data()); return z; }
int size_bias = 0;
Z gen_value(Rng& r, int maxlimbs) {
    int kind = (int)r.below(100);
    if (size_bias && kind < 40 && r.chance(0.6)) kind = 40;
    Z v;
    if (kind < 14) { // boundaries
        static const std::vector<std::string> B = {"0", "0", "1", "2", "7f", "80", "ff", "100", "7fff", "8000", "ffff", "10000", "7fffffff", "80000000", "80000001", "ffffffff",
            "100000000", "fffffffffffffff", "7fffffffffffffff", "8000000000000000", "8000000000000001", "ffffffffffffffff", "10000000000000000", "20000000000000", "1fffffffffffff",
            "3b9aca00", "3b9ac9ff", "de0b6b3a7640000", "80000000000000000000", "a", "64", "ffffffff00000001", "ffffffff00000000", "100000001", "80000000000000000000000000000000"};
        v = Z(r.pick(B), 16);
    } else if (kind < 22) { // around powers of two
        int e = (int)r.below(r.chance(0.7) ? 200 : (uint64_t)maxlimbs * 32 + 1);
        if (r.chance(0.3)) e = e / 32 * 32;
        mpz_ui_pow_ui(v.get_mpz_t(), 2, (unsigned long)e);
        if (r.chance(0.75)) v += Z((long)r.range(-2, 2));
    } else if (kind < 27) { // around powers of ten
        int e = (int)r.below(std::min(maxlimbs * 9, r.chance(0.8) ? 60 : 900) + 1);
        if (r.chance(0.6)) e = e / 9 * 9;
        mpz_ui_pow_ui(v.get_mpz_t(), 10, (unsigned long)e);
        v += Z((long)r.range(-2, 2));
        if (r.chance(0.3)) v *= Z((long)r.range(1, 9));
    } else if (kind < 40) v = Z((unsigned long)(r.next() >> r.below(64)));
    else {
        int n;
        uint64_t s = r.below(100);
        if (size_bias) s = std::max<uint64_t>(s, size_bias == 1 ? 56 : 81);
        if (s < 55) n = (int)r.range(1, 5);
        else if (s < 80) n = (int)r.range(1, std::min(maxlimbs, 36));
        else if (s < 93) { static const int T[] = {31, 32, 33, 63, 64, 65, 66, 95, 127, 128, 129, 130, 255, 256, 257, 258}; n = T[r.below(16)] + (int)r.range(-1, 1); }
        else n = (int)r.range(1, maxlimbs);
        n = std::max(1, std::min(n, maxlimbs));
        std::vector<uint32_t> b(n);
        int style = (int)r.below(9);
        const uint32_t low = r.chance(0.6) ? 0 : r.chance(0.5) ? 1 : 0xFFFFFFFFu;
        for (int i = 0; i < n; i++) {
            static const uint32_t P[] = {0, 1, 0xFFFFFFFFu, 0x80000000u, 0x7FFFFFFFu, 0xFFFFFFFEu, 0x10000u, 0x80000001u};
            if (style < 3) b[i] = (uint32_t)r.next();
            else if (style == 3) b[i] = P[r.below(8)];
            else if (style == 4) b[i] = r.chance(0.85) ? 0xFFFFFFFFu : P[r.below(8)];
            else if (style == 5) b[i] = r.chance(0.85) ? 0 : P[r.below(8)];
            else if (style == 8) b[i] = i == 0 ? low : i == n - 1 ? 1 : low == 0xFFFFFFFFu ? low : 0; // 2^(32k), one beside it
            else if (style == 6) b[i] = r.chance(0.5) ? (uint32_t)r.next() : P[r.below(8)];
            else b[i] = i == n - 1 ? (uint32_t)r.next() >> r.below(32) : (r.chance(0.5) ? 0 : 0xFFFFFFFFu);
        }
        if (r.chance(0.3)) b[n - 1] = (uint32_t)(1u << r.below(32)) - (r.chance(0.5) ? 1u : 0u);
        if (b[n - 1] == 0) b[n - 1] = 1;
        v = from_limbs(b);
    }
    if (r.chance(0.45)) v = -v;
    return v;
}
// a value related to others, so that divisions are exact, leading limbs agree, carries run through
static Z gen_related(Rng& r, const std::vector<Z>& m, int maxlimbs) {
    const Z& x = m[r.below(m.size())]; const Z& y = m[r.below(m.size())];
    Z v;
    switch (r.below(12)) {
        case 0: v = -x; break;
        case 1: v = x + Z((long)r.range(-1, 1)); break;
        case 2: v = -x + Z((long)r.range(-1, 1)); break;
        case 3: v = x * y; break;
        case 4: v = x * y + Z((long)r.range(-1, 1)); break;
        case 5: v = shift(x, (int64_t)r.below(70)); break;
        case 6: v = shift(x, -(int64_t)r.below(70)); break;
        case 7: { Z p; mpz_ui_pow_ui(p.get_mpz_t(), 2, 32 * (limbs(x) + r.below(2))); v = p - x; break; }
        case 8: v = ~x; break;
        case 9: v = x + shift(Z(1), (int64_t)r.below(limbs(x) * 32 + 1)); break;
        case 10: v = y == 0 ? x : Z(x / y); break;
        default: v = x; break;
    }
    if ((int)limbs(v) > maxlimbs) { Z p; mpz_tdiv_r_2exp(p.get_mpz_t(), v.get_mpz_t(), 32ul * maxlimbs); v = p; }
    return v;
}

static double gen_double(Rng& r) {
    switch (r.below(12)) {
        case 0: return 0.0; case 1: return -0.0; case 2: return INFINITY; case 3: return -INFINITY; case 4: return NAN;
        case 5: return std::ldexp(1.0 + (double)(r.next() >> 12) / 4503599627370496.0, (int)r.range(-80, 80)) * (r.chance(0.5) ? -1 : 1);
        case 6: return std::ldexp(1.0 + (double)(r.next() >> 12) / 4503599627370496.0, (int)r.range(-1074, 1023)) * (r.chance(0.5) ? -1 : 1);
        case 7: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return d; }
        case 8: return (double)r.range(-5, 5) + (r.chance(0.5) ? 0.5 : 0);
        case 9: { static const double D[] = {2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9007199254740992.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 1.7976931348623157e308, 5e-324, 0.9999999999999999, -0.9999999999999999}; return D[r.below(14)]; }
        case 10: return std::ldexp((double)(r.next() >> 11), (int)r.range(-60, 20)) * (r.chance(0.5) ? -1 : 1);
        default: { static const double D[] = {2, 10, 2.718281828459045, 0.5, 1, 3, 1.0000001, -2, 1e300, 16}; return D[r.below(10)]; }
    }
}
static std::string gen_text(Rng& r, int maxlimbs) {
    std::string s;
    if (r.chance(0.2)) {
        static const char A[] = "0123456789+- \t.e,x\0z";
        int n = (int)r.below(12);
        for (int i = 0; i < n; i++) s += r.chance(0.1) ? (char)r.below(256) : A[r.below(sizeof A - 1)];
        return s;
    }
    if (r.chance(0.1)) s += "+"; 
    Z v = gen_value(r, std::min(maxlimbs, r.chance(0.9) ? 12 : r.chance(0.8) ? 40 : 300));
    std::string d = v.get_str(10);
    if (!s.empty() && d[0] == '-') d = d.substr(1);
    if (r.chance(0.15)) { size_t p = d[0] == '-' ? 1 : 0; d.insert(p, std::string(r.below(30), '0')); }
    s += d;
    if (r.chance(0.2)) s += (r.chance(0.6) ? std::string(1, " .e_\n,-/:;"[r.below(10)]) : std::string(1, (char)r.below(256))) + "12";
    if (r.chance(0.08)) s.insert(r.below(s.size() + 1), 1, (char)r.below(256));
    return s;
}
static std::string gen_bytes(Rng& r, int maxlimbs) {
    Z v = gen_value(r, maxlimbs);
    std::string s = encode_bytes(v, v >= 0 && r.chance(0.5), false);
    if (r.chance(0.3)) s += std::string(r.below(9), r.chance(0.5) ? '\0' : '\xff');
    if (r.chance(0.3)) s.insert(0, std::string(r.below(6), r.chance(0.5) ? '\0' : '\xff'));
    if (r.chance(0.2)) s.resize(r.below(s.size() + 1));
    if (r.chance(0.2) && !s.empty()) s[r.below(s.size())] ^= (char)(1 << r.below(8));
    if (r.chance(0.05)) s.assign(r.below(10), "\0\xff\x80\x7f"[r.below(4)]);
    return s;
}

// long stored data: bytes and words up to some hundred thousand, digits up to some thousand, often mostly padding
std::string gen_blob(Rng& r, int code, int lim) {
    size_t n = (size_t)(lim * (0.5 + 0.5 * (double)r.below(1000) / 1000));
    std::string s;
    if (code == O_parse || code == O_tryparse) {
        n = std::min<size_t>(n, 9000);
        if (r.chance(0.5)) s += r.chance(0.7) ? "-" : "+";
        int style = (int)r.below(4);
        size_t z = style == 0 ? n : style == 1 ? r.below(n + 1) : 0, t = style == 0 ? r.below(60) : n - z;
        s.append(z, '0');
        for (size_t i = 0; i < t; i++) s += (char)('0' + (style == 3 ? (r.chance(0.98) ? 9 : 0) : (int)r.below(10)));
        if (r.chance(0.3)) { s += "\0 .x9-"[r.below(6)]; s += std::string(r.below(n + 1), '7'); }
        return s;
    }
    if (code == O_cbytes && r.chance(0.3)) n *= 4;
    int style = (int)r.below(5);
    char pad = r.chance(0.5) ? '\0' : '\xff';
    size_t z = style == 0 ? n : style == 1 ? n - std::min<size_t>(n, r.below(40)) : style == 2 ? r.below(n + 1) : 0;
    std::string body(n - z, '\0');
    for (auto& ch : body) ch = style == 4 ? (r.chance(0.97) ? pad : (char)r.next()) : (char)r.next();
    s = r.chance(0.5) ? std::string(z, pad) + body : body + std::string(z, pad);
    if (r.chance(0.3) && !s.empty()) s[r.chance(0.5) ? 0 : s.size() - 1] ^= (char)0x80;
    return s;
}

static int w_default(int code) {
    switch (code) {
        case O_mul: case O_mule: case O_div: case O_dive: case O_rem: case O_reme: case O_divrem: return 14;
        case O_modpow: case O_gcd: return 11;
        case O_pow: case O_str: case O_shr: case O_shre: case O_assign: return 10;
        case O_add: case O_sub: case O_adde: case O_sube: case O_shl: case O_shle: return 9;
        case O_cbytes: case O_parse: case O_tryparse: case O_bytes: case O_rtstr: case O_rtbytes: return 7;
        case O_and_: case O_or_: case O_xor_: case O_ande: case O_ore: case O_xore: return 7;
        case O_words: case O_rtwords: case O_cdbl: case O_cmp: case O_inv: return 5;
        case O_save: return 0;
        case O_zero: case O_one: case O_mone: case O_pos: case O_bits: case O_muli: case O_addi: return 2;
        case O_bytesm: case O_gcdw: case O_addw: case O_subw: case O_sort: case O_tree: return 2;
        case O_rset: case O_rmul: case O_rsub: case O_chain: return 5;
        default: return 4;
    }
}
static const std::vector<int>& weights(const std::string& mix) {
    static std::map<std::string, std::vector<int>> cache;
    auto& w = cache[mix];
    if (!w.empty()) return w;
    w.resize(O_COUNT);
    for (int i = 0; i < O_COUNT; i++) w[i] = w_default(i);
    if (mix == "errors") for (int i : {O_toi32, O_tou32, O_toi64, O_tou64, O_cdbl, O_bytecount, O_modpow, O_pow, O_divrem, O_div, O_dive, O_rem, O_reme, O_bytes}) w[i] *= 2;
    if (mix == "state") for (int i : {O_assign, O_tryparse, O_divrem, O_swap, O_massign, O_shle, O_shre, O_ore, O_ande, O_xore, O_adde, O_sube, O_mule, O_dive, O_reme, O_incpre, O_decpre, O_addi, O_muli}) w[i] = w[i] * 2 + 4;
    if (mix == "damage") { std::fill(w.begin(), w.end(), 0); w[O_cbytes] = 60; w[O_parse] = 16; w[O_tryparse] = 16; w[O_cwords] = 6; w[O_assign] = 3; w[O_str] = 2; w[O_bytes] = 2; }
    if (mix == "share") for (int i : {O_cmp, O_hash, O_bitlen, O_bytes, O_words, O_str, O_preds, O_copy, O_toi64, O_todbl, O_logn, O_gcd, O_log}) w[i] = w[i] * 2 + 4;
    return w;
}
static int gen_shift(Rng& r, size_t n) {
    switch (r.below(14)) {
        case 0: return 0;
        case 1: return (int)r.below(40) * 32;
        case 2: return -(int)r.below(300);
        case 3: { static const int X[] = {INT_MAX, INT_MIN, INT_MIN + 1, INT_MAX - 1, 1 << 30, -(1 << 30), 1 << 29, -(1 << 29)}; return r.chance(0.5) ? X[r.below(8)] : 31; }
        case 4: case 5: return (int)(n * 32) + (int)r.range(-33, 33);
        case 6: case 7: return (int)r.below(n + 1) * 32;
        case 8: case 9: return (int)r.below(33);
        default: return (int)r.below(n * 32 + 40);
    }
}

int pick_code(Rng& r, const std::string& mix) {
    const auto& w = weights(mix);
    static std::map<std::string, int> totals;
    int& tot = totals[mix];
    if (!tot) for (int x : w) tot += x;
    int x = (int)r.below(tot), code = 0;
    while (x >= w[code]) x -= w[code++];
    return code;
}
Op gen_op(Rng& r, const GenCfg& g, const std::vector<Z>& m) {
    Op op;
    for (int tries = 0;; tries++) {
        op = Op();
        int code = op.code = !g.focus.empty() && r.chance(tries < 6 ? 0.8 : 0.3) ? r.pick(g.focus) : pick_code(r, g.mix);
        if (g.nolog && (code == O_log || code == O_logn || code == O_log10 || code == O_toflt)) continue;
        int lim = g.use_shared ? NALL : NREG;
        auto src = [&]() { return g.use_shared && r.chance(0.75) ? NREG + (int)r.below(NSH) : (int)r.below(lim); };
        op.d = (int)r.below(NREG);
        op.a = src(); op.b = src(); op.c = src();
        if (r.chance(0.12)) op.b = op.a;
        const char* sig = opinfo[code].sig;
        for (const char* p = sig; *p; p++) {
            if (*p == 'A') op.a = (int)r.below(NREG);
            if (*p == 'B') op.b = (int)r.below(NREG);
            if (*p == 'R' && code == O_divrem) op.c = (int)r.below(NREG);
            if (*p == 'u') op.u = r.chance(0.4);
            if (*p == 'e') op.e = r.chance(0.5);
            if (*p == 'f') op.f = gen_double(r);
            if (*p == 'x') op.x = (code == O_cbytes || code == O_cwords) ? gen_bytes(r, g.maxlimbs) : gen_text(r, g.maxlimbs);
        }
        if (strchr(sig, 'A') && r.chance(0.12)) op.b = op.a;
        if (code == O_divrem && r.chance(0.15)) { int q = r.chance(0.5) ? op.a : op.b; if (q < NREG) op.c = q; }
        const Z& av = m[op.a];
        switch (code) {
            case O_shl: case O_shr: case O_shle: case O_shre: op.k = gen_shift(r, limbs(av)); break;
            case O_pow: {
                double nb = (double)nbits(av) + 1;
                int mx = (int)std::min(2000.0, g.maxlimbs * 32 / nb);
                op.k = r.chance(0.08) ? -(int64_t)r.below(5) - 1 : r.chance(0.04) ? (int64_t)r.range(1 << 27, INT_MAX) : (int64_t)r.below(mx + 3);
                if (r.chance(0.02)) op.k = r.chance(0.5) ? INT_MAX : INT_MIN;
                break;
            }
            case O_ci32: case O_cu32: case O_ci64: case O_cu64: {
                Z v = gen_value(r, 2);
                op.k = (int64_t)(uint64_t)(mpz_get_ui(v.get_mpz_t()));
                if (sgn(v) < 0) op.k = (int64_t)(0 - (uint64_t)op.k);
                if (r.chance(0.2)) { static const int64_t X[] = {INT_MIN, INT_MAX, (int64_t)INT_MIN - 1, (int64_t)INT_MAX + 1, INT64_MIN, INT64_MAX, (int64_t)UINT32_MAX, (int64_t)UINT32_MAX + 1, -1, 0, INT64_MIN + 1, -(int64_t)UINT32_MAX}; op.k = X[r.below(12)]; }
                break;
            }
            case O_bytesm: op.k = (int)r.below(3); break;
            case O_addi: case O_muli: op.k = (int)(r.chance(0.2) ? (r.chance(0.5) ? INT_MIN : INT_MAX) : (int)(r.next() >> r.below(32))); break;
            case O_modpow: if (r.chance(0.6)) { for (int q = 0; q < 6 && m[op.b] < 0; q++) op.b = src(); }
                if (r.chance(0.4)) { // a long modulus with a shorter exponent: the reducing algorithm
                    for (int q = 0; q < 8 && limbs(m[op.c]) < 24; q++) op.c = src();
                    for (int q = 0; q < 8 && (m[op.b] <= 0 || limbs(m[op.b]) > 5); q++) op.b = src();
                }
                break;
            case O_div: case O_dive: case O_rem: case O_reme: case O_divrem: case O_sdiv: case O_srem:
                if (m[op.b] == 0 && r.chance(0.7)) for (int q = 0; q < 6 && m[op.b] == 0; q++) op.b = src();
                if (limbs(m[op.b]) > limbs(m[op.a]) && r.chance(0.5) && !strchr(sig, 'A')) std::swap(op.a, op.b);
                break;
            default: break;
        }
        Exp e = expect(op, m.data(), g.big);
        if (!e.skip || tries > 40) break;
    }
    return op;
}
std::vector<Z> gen_regs(Rng& r, int n, int maxlimbs) {
    std::vector<Z> v;
    for (int i = 0; i < n; i++) v.push_back(i >= 2 && r.chance(0.45) ? gen_related(r, v, maxlimbs) : gen_value(r, maxlimbs));
    return v;
}

// registers that suit one family of algorithms; returns the operations to prefer
std::vector<int> gen_theme(Rng& r, std::vector<Z>& v, int maxlimbs) {
    auto len = [&](int lo, int hi) { int n = (int)r.range(lo, std::max(lo, std::min(hi, maxlimbs))); Z z; int save = size_bias; size_bias = 2; do z = gen_value(r, n); while ((int)limbs(z) < std::min(lo, n / 2)); size_bias = save; return z; };
    auto round32 = [&](int n) { Z z; mpz_ui_pow_ui(z.get_mpz_t(), 2, 32ul * n); if (r.chance(0.3)) z += Z((long)r.range(-1, 1)); if (r.chance(0.2)) z *= Z((unsigned long)r.below(0xFFFFFFFFu) + 1); return z; };
    size_t n = v.size();
    switch (r.below(6)) {
        case 0: { // powers to a long modulus with a short exponent
            for (size_t i = 0; i < n; i++) {
                if (i < n / 3) v[i] = r.chance(0.4) ? round32((int)r.range(30, 44)) : len(30, 44);
                else if (i < n / 3 * 2) { Z z = (unsigned long)(r.next() >> r.below(60)); if (r.chance(0.5)) { z = (z << 64) + Z((unsigned long)r.next()); } z >>= r.below(64); if (r.chance(0.3)) { mpz_ui_pow_ui(z.get_mpz_t(), 2, r.below(120)); } v[i] = z; }
                else v[i] = r.chance(0.3) ? Z(v[r.below(n / 3)] + Z((long)r.range(-2, 2))) : len(10, 90);
                if (i < n / 3 && r.chance(0.3)) v[i] = -v[i];
            }
            return {O_modpow};
        }
        case 1: { // quotients whose estimated digits are wrong or extreme
            for (size_t i = 0; i < n; i++) {
                if (i < n / 2) v[i] = r.chance(0.2) ? round32((int)r.range(1, 20)) : r.chance(0.5) ? gen_value(r, 8) : len(2, 40);
                else {
                    Z q = r.chance(0.3) ? round32((int)r.range(1, 20)) : r.chance(0.5) ? gen_value(r, 8) : len(2, 40);
                    const Z& b = v[r.below(n / 2)];
                    v[i] = q * b; if (r.chance(0.7)) { Z e = r.chance(0.5) ? Z((long)r.range(-1, 1)) : r.chance(0.5) ? Z(b - 1) : gen_value(r, (int)limbs(b) + 1); v[i] += e; }
                }
                if ((int)limbs(v[i]) > maxlimbs) { Z q; mpz_tdiv_r_2exp(q.get_mpz_t(), v[i].get_mpz_t(), 32ul * maxlimbs); v[i] = q; }
            }
            return {O_div, O_rem, O_divrem, O_dive, O_reme};
        }
        case 2: { // common factors, long and short quotient sequences
            for (size_t i = 0; i + 1 < n; i += 2) {
                Z g = r.chance(0.6) ? gen_value(r, 12) : Z(1), x = 1, y = 0;
                int steps = (int)r.below(r.chance(0.5) ? 60 : 12);
                for (int k = 0; k < steps && (int)limbs(x) < maxlimbs / 2; k++) { Z q = r.chance(0.6) ? Z(1) : r.chance(0.6) ? Z((unsigned long)r.below(0xFFFFFFFFu) + 1) : Z(::abs(gen_value(r, 6)) + 1); Z t = q * x + y; y = x; x = t; }
                v[i] = x * g; v[i + 1] = y * g;
                if (r.chance(0.2)) v[i + 1] += Z((long)r.range(-1, 1));
                for (int k = 0; k < 2; k++) if ((int)limbs(v[i + k]) > maxlimbs) { Z q; mpz_tdiv_r_2exp(q.get_mpz_t(), v[i + k].get_mpz_t(), 32ul * maxlimbs); v[i + k] = q; }
            }
            return {O_gcd};
        }
        case 3: { // decimal texts with runs of nines and zeros across the chunks
            int mx = std::min(maxlimbs * 9, 700);
            for (size_t i = 0; i < n; i++) {
                std::string s; int want = (int)r.range(1, mx);
                while ((int)s.size() < want) { int k = (int)r.range(1, r.chance(0.5) ? 9 : 40); char ch = (char)('0' + (r.chance(0.4) ? 0 : r.chance(0.5) ? 9 : r.below(10))); s.append(k, ch); if (r.chance(0.5)) s += (char)('0' + r.below(10)); }
                v[i] = Z(s, 10); if (r.chance(0.4)) v[i] = -v[i];
                if (r.chance(0.3)) v[i] += Z((long)r.range(-1, 1));
            }
            return {O_str, O_rtstr};
        }
        case 4: { // values at the limits of the built-in types
            static const int E[] = {31, 31, 32, 32, 63, 63, 64, 64, 24, 53, 52, 1023, 1024, 7, 8, 15, 16, 96, 127, 128};
            for (size_t i = 0; i < n; i++) { Z z; mpz_ui_pow_ui(z.get_mpz_t(), 2, (unsigned long)E[r.below(r.chance(0.6) ? 8 : 20)]); z += Z((long)r.range(-2, 2)); if (r.chance(0.5)) z = -z; if (r.chance(0.15)) z += Z((long)(r.next() >> 20)); v[i] = z; }
            return {O_toi32, O_tou32, O_toi64, O_tou64, O_todbl, O_toflt, O_cmp, O_bytes, O_words, O_bytecount, O_bitlen, O_rtbytes, O_rtwords, O_str, O_ci64, O_cdbl};
        }
        default: { // whole words only: carries and borrows across the full length, masks and shifts by whole words
            for (size_t i = 0; i < n; i++) { v[i] = round32((int)r.below(std::min(maxlimbs, 70)) + 1); if (r.chance(0.5)) v[i] = -v[i]; if (i && r.chance(0.3)) v[i] += v[i - 1]; if (i && r.chance(0.2)) v[i] -= v[r.below(i)]; }
            return {O_add, O_sub, O_mul, O_and_, O_or_, O_xor_, O_inv, O_shr, O_shl, O_bytes, O_words, O_rtwords, O_rtbytes, O_cmp, O_incpre, O_decpre, O_bitlen, O_bytecount};
        }
    }
}
