// P14: bit scans, counts and power-of-two rounding match their definitions.
// Built several times with other instruction sets and language modes (jstd is renamed by the build, MC_VAR names the variant).
#include "domain.h"
#include <limits>
#include <type_traits>
#include <utility>
#include <jstd/basic/stddef.h>
#include <jstd/support/BitUtils.h>
#include <jstd/support/Power2.h>
#include <jstd/math/log10_int.h>
using namespace mc;
namespace {
typedef uint32_t u32; typedef uint64_t u64;
// definitions, bit by bit
int d_low(u64 x) { for (int i = 0; i < 64; i++) if (x >> i & 1) return i; return 64; }
int d_high(u64 x) { for (int i = 63; i >= 0; i--) if (x >> i & 1) return i; return -1; }
int d_pop(u64 x) { int n = 0; for (int i = 0; i < 64; i++) n += (int)(x >> i & 1); return n; }
struct Tab { uint8_t low[65536], high[65536], pop[65536]; Tab() { for (u32 i = 0; i < 65536; i++) { low[i] = (uint8_t)d_low(i); high[i] = (uint8_t)d_high(i); pop[i] = (uint8_t)d_pop(i); } } };
const Tab & T() { static Tab t; return t; }
struct Def { int low, high, pop; };   // of a non-zero number: lowest and highest set bit, number of set bits
inline Def def32(const Tab & t, u32 x) {
    u32 l = x & 0xFFFF, h = x >> 16;
    return { l ? t.low[l] : t.low[h] + 16, h ? t.high[h] + 16 : t.high[l], t.pop[l] + t.pop[h] };
}
inline Def def64(const Tab & t, u64 x) {
    u32 l = (u32)x, h = (u32)(x >> 32);
    Def a = def32(t, l ? l : 1), b = def32(t, h ? h : 1);
    return { l ? a.low : b.low + 32, h ? b.high + 32 : a.high, (l ? a.pop : 0) + (h ? b.pop : 0) };
}
#define EQ(name, got, want) do { auto g_ = (got); auto w_ = (want); if ((u64)g_ != (u64)w_) MC_FAIL(c, idx, "%s(%llu) = %llu, defined as %llu [%s]", name, (unsigned long long)x, (unsigned long long)g_, (unsigned long long)w_, MC_VAR); } while (0)

#ifdef MC_FALLBACK
#define IN(...)
#else
#define IN(...) __VA_ARGS__
#endif
namespace B = jstd::BitUtils; namespace R = jstd::run_time;
u64 bit32(Ctx & c, u64 idx, u32 x, const Tab & t) {
    if (x == 0) {
        EQ("countTrailingZeros32", B::countTrailingZeros32(x), 32); EQ("countLeadingZeros32", B::countLeadingZeros32(x), 32); EQ("popcnt32", B::popcnt32(x), 0);
    IN(EQ("__internal_popcnt", B::__internal_popcnt(x), 0); EQ("__internal_popcnt_slow", B::__internal_popcnt_slow(x), 0); EQ("__internal_clz", B::__internal_clz(x), 32); EQ("__internal_ctz", B::__internal_ctz(x), 32);)
        EQ("ls1b32", B::ls1b32(x), 0); EQ("ms1b32", B::ms1b32(x), 0); EQ("clearLowBit32", B::clearLowBit32(x), 0); EQ("log2_32", B::log2_32(x), 0);
        return 0;
    }
    Def d = def32(t, x);
    EQ("bsf32", B::bsf32(x), d.low); EQ("bsr32", B::bsr32(x), d.high);
    EQ("countTrailingZeros32", B::countTrailingZeros32(x), d.low); EQ("countLeadingZeros32", B::countLeadingZeros32(x), 31 - d.high);
    EQ("popcnt32", B::popcnt32(x), d.pop);
    IN(EQ("__internal_popcnt", B::__internal_popcnt(x), d.pop); EQ("__internal_popcnt_slow", B::__internal_popcnt_slow(x), d.pop); EQ("__internal_hakmem_popcnt", B::__internal_hakmem_popcnt(x), d.pop);)
    IN(EQ("__internal_clz", B::__internal_clz(x), 31 - d.high); EQ("__internal_ctz", B::__internal_ctz(x), d.low);)
    EQ("ls1b32", B::ls1b32(x), u32(1) << d.low); EQ("ms1b32", B::ms1b32(x), u32(1) << d.high); EQ("clearLowBit32", B::clearLowBit32(x), x & ~(u32(1) << d.low));
    EQ("log2_32", B::log2_32(x), d.high + (d.pop > 1));
    return d.pop > 1;
}
u64 bit64(Ctx & c, u64 idx, u64 x, const Tab & t) {
    if (x == 0) {
        EQ("countTrailingZeros64", B::countTrailingZeros64(x), 64); EQ("countLeadingZeros64", B::countLeadingZeros64(x), 64); EQ("popcnt64", B::popcnt64(x), 0); EQ("popcnt", B::popcnt(x), 0);
        EQ("countTrailingZeros", B::countTrailingZeros(x), 64); EQ("countLeadingZeros", B::countLeadingZeros(x), 64);
    IN(EQ("__internal_popcnt64", B::__internal_popcnt64(x), 0); EQ("__internal_clzll", B::__internal_clzll(x), 64); EQ("__internal_ctzll", B::__internal_ctzll(x), 64);)
        EQ("ls1b64", B::ls1b64(x), 0); EQ("ms1b64", B::ms1b64(x), 0); EQ("ls1b", B::ls1b(x), 0); EQ("ms1b", B::ms1b(x), 0); EQ("log2_64", B::log2_64(x), 0); EQ("log2_int", B::log2_int(x), 0);
        return 0;
    }
    Def d = def64(t, x);
    EQ("bsf64", B::bsf64(x), d.low); EQ("bsr64", B::bsr64(x), d.high); EQ("bsf", B::bsf(x), d.low); EQ("bsr", B::bsr(x), d.high);
    EQ("countTrailingZeros64", B::countTrailingZeros64(x), d.low); EQ("countLeadingZeros64", B::countLeadingZeros64(x), 63 - d.high);
    EQ("countTrailingZeros", B::countTrailingZeros(x), d.low); EQ("countLeadingZeros", B::countLeadingZeros(x), 63 - d.high);
    EQ("popcnt64", B::popcnt64(x), d.pop); EQ("popcnt", B::popcnt(x), d.pop);
    IN(EQ("__internal_popcnt64", B::__internal_popcnt64(x), d.pop);)
    IN(EQ("__internal_clzll", B::__internal_clzll(x), 63 - d.high); EQ("__internal_ctzll", B::__internal_ctzll(x), d.low);)
    EQ("ls1b64", B::ls1b64(x), u64(1) << d.low); EQ("ms1b64", B::ms1b64(x), u64(1) << d.high); EQ("ls1b", B::ls1b(x), u64(1) << d.low); EQ("ms1b", B::ms1b(x), u64(1) << d.high);
    EQ("clearLowBit64", B::clearLowBit64(x), x & ~(u64(1) << d.low)); EQ("clearLowBit", B::clearLowBit(x), x & ~(u64(1) << d.low));
    EQ("log2_64", B::log2_64(x), d.high + (d.pop > 1)); EQ("log2_int", B::log2_int(x), d.high + (d.pop > 1));
    return d.pop > 1;
}
// run_time:: helpers of an integer type; signed types for non-negative numbers
template <typename I> u64 pow2_of(Ctx & c, u64 idx, I v, const Tab & t) {
    typedef typename std::make_unsigned<I>::type U;
    const int w = sizeof(I) * 8;
    const u64 x = (U)v;
    if (std::is_signed<I>::value && v < 0) return 0;
    if (x == 0) {
        EQ("prev_pow2", R::prev_pow2(v), 0); EQ("round_down", R::round_down(v), 0); EQ("round_to", R::round_to(v), 0); EQ("round_up", R::round_up(v), 0);
        EQ("next_pow2", R::next_pow2(v), 1); EQ("log2_int", R::log2_int(v), 0);
        return 0;
    }
    const Def d = def64(t, x);
    EQ("is_pow2", R::is_pow2(v), d.pop == 1);
    EQ("clear_low_bit", (U)R::clear_low_bit(v), x & ~(u64(1) << d.low));
    EQ("bitScanForward", R::bitScanForward(v), d.low); EQ("bitScanReverse", R::bitScanReverse(v), d.high);
    EQ("countTrailingZeros", R::countTrailingZeros(v), d.low);
    if (w >= 32) EQ("countLeadingZeros", R::countLeadingZeros(v), w - 1 - d.high);
    EQ("prev_pow2", R::prev_pow2(v), d.high >= 1 ? u64(1) << (d.high - 1) : 0);
    const Def e = def64(t, x > 1 ? x - 1 : 1);
    EQ("round_down", R::round_down(v), x > 1 ? u64(1) << e.high : 0);
    EQ("round_to", R::round_to(v), u64(1) << d.high);
    const u64 half = u64(1) << (w - 1);
    if (x <= half) EQ("round_up", R::round_up(v), d.pop == 1 ? x : u64(1) << (d.high + 1));
    else EQ("round_up saturates", R::round_up(v) >= v, true);
    if (x < half) EQ("next_pow2", R::next_pow2(v), u64(1) << (d.high + 1));
    else EQ("next_pow2 saturates", R::next_pow2(v) >= v, true);
    EQ("log2_int", R::log2_int(v), d.high + (d.pop > 1));
    if (x > 1 && x <= half) { EQ("round_up<,2>", (R::round_up<I, I(2)>(v)), d.pop == 1 ? x : u64(1) << (d.high + 1)); EQ("log2_int<,2>", (R::log2_int<I, I(2)>(v)), d.high + (d.pop > 1)); EQ("round_down<,2>", (R::round_down<I, I(2)>(v)), u64(1) << e.high); }
    if (x >= 4 && x <= half) EQ("round_up<,4>", (R::round_up<I, I(4)>(v)), d.pop == 1 ? x : u64(1) << (d.high + 1));
    return d.pop > 1;
}

// ---- the 64-bit domain: structured words, by index ----
const std::vector<u64> & words() {
    static std::vector<u64> W;
    if (!W.empty()) return W;
    auto both = [&](u64 x) { W.push_back(x); W.push_back(~x); };
    both(0);
    for (int i = 0; i < 64; i++) { both(u64(1) << i); for (int j = 0; j < i; j++) { both(u64(1) << i | u64(1) << j); for (int k = 0; k < j; k++) both(u64(1) << i | u64(1) << j | u64(1) << k); } }
    for (int i = 0; i < 64; i++) for (int j = i; j < 64; j++) { u64 m = (j == 63 ? ~u64(0) : (u64(1) << (j + 1)) - 1) & ~((u64(1) << i) - 1); both(m); both(m + 1); both(m - 1); }
    for (int i = 0; i < 64; i++) for (int d = -4096; d <= 4096; d++) both((u64(1) << i) + (u64)(int64_t)d);
    const u64 A[] = { 0, 1, 2, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0x5555, 0xAAAA, 0x00FF, 0xFF00, 0x0100 };
    for (u64 a : A) for (u64 b : A) for (u64 d : A) for (u64 e : A) W.push_back(a | b << 16 | d << 32 | e << 48);
    const u64 Z[] = { 0, 1, 0x7F, 0x80, 0xFF };
    for (int n = 0; n < 390625; n++) { u64 v = 0; int m = n; for (int k = 0; k < 8; k++) { v = v << 8 | Z[m % 5]; m /= 5; } W.push_back(v); }
    std::sort(W.begin(), W.end()); W.erase(std::unique(W.begin(), W.end()), W.end());
    return W;
}
// ---- compile time: every number below 1100 and around every power of two ----
namespace C = jstd::compile_time;
struct CT { u64 n, v[12]; };
template <u64 N> CT ct() {
    return { N, { C::is_pow2<N>::value, C::clear_low_bit<N>::value, C::round_to_pow2<N>::value, C::round_to_power2<N>::value, C::round_down_pow2<N>::value, C::round_down_power2<N>::value,
                  C::round_up_pow2<N>::value, C::round_up_power2<N>::value, C::next_pow2<N>::value, C::next_power2<N>::value, C::countLeadingZeros<N>::value, C::countTrailingZeros<N>::value } };
}
template <u64... I> void ct_small(std::vector<CT> & v, std::integer_sequence<u64, I...>) { int q[] = { (v.push_back(ct<I>()), 0)... }; (void)q; }
template <u64... I> void ct_around(std::vector<CT> & v, std::integer_sequence<u64, I...>) {
    int q[] = { (v.push_back(ct<(u64(1) << I) - 1>()), v.push_back(ct<(u64(1) << I)>()), v.push_back(ct<(u64(1) << I) + 1>()), v.push_back(ct<(u64(3) << I)>()), v.push_back(ct<(u64(5) << I) - 1>()), v.push_back(ct<~u64(0) - (u64(1) << I)>()), 0)... }; (void)q;
}
const std::vector<CT> & cts() {
    static std::vector<CT> v;
    if (v.empty()) { ct_small(v, std::make_integer_sequence<u64, 1100>()); ct_around(v, std::make_integer_sequence<u64, 64>()); v.push_back(ct<~u64(0)>()); }
    return v;
}
u64 one_ct(Ctx & c, u64 idx, const CT & r, const Tab & t) {
    const u64 x = r.n, half = u64(1) << 63;
    if (x == 0) {
        EQ("compile_time round_down_pow2", r.v[4], 0); EQ("compile_time round_down_power2", r.v[5], 0); EQ("compile_time round_to_pow2", r.v[2], 0); EQ("compile_time round_to_power2", r.v[3], 0);
        EQ("compile_time round_up_pow2", r.v[6], 0); EQ("compile_time round_up_power2", r.v[7], 0); EQ("compile_time next_pow2", r.v[8], 1); EQ("compile_time next_power2", r.v[9], 1); EQ("compile_time countTrailingZeros", r.v[11], 64);
        return 0;
    }
    Def d = def64(t, x);
    EQ("compile_time is_pow2", r.v[0], d.pop == 1); EQ("compile_time clear_low_bit", r.v[1], x & (x - 1));
    EQ("compile_time round_to_pow2", r.v[2], u64(1) << d.high); EQ("compile_time round_to_power2", r.v[3], u64(1) << d.high);
    u64 dn = x > 1 ? u64(1) << def64(t, x - 1).high : 0;
    EQ("compile_time round_down_pow2", r.v[4], dn); EQ("compile_time round_down_power2", r.v[5], dn);
    u64 up = d.pop == 1 ? x : x > half ? ~u64(0) : u64(1) << (d.high + 1);
    EQ("compile_time round_up_pow2", r.v[6], up); EQ("compile_time round_up_power2", r.v[7], up);
    u64 nx = x >= half ? ~u64(0) : u64(1) << (d.high + 1);
    EQ("compile_time next_pow2", r.v[8], nx); EQ("compile_time next_power2", r.v[9], nx);
    EQ("compile_time countLeadingZeros", r.v[10], 63 - d.high); EQ("compile_time countTrailingZeros", r.v[11], d.low);
    EQ("compile_time vs run_time round_up", r.v[6], R::round_up<u64>(x) | (x > half ? ~u64(0) : 0)); EQ("compile_time vs run_time next_pow2", r.v[8], R::next_pow2<u64>(x) | (x >= half ? ~u64(0) : 0));
    EQ("compile_time vs run_time round_to", r.v[2], R::round_to<u64>(x)); EQ("compile_time vs run_time round_down", r.v[4], R::round_down<u64>(x));
    return d.pop > 1;
}
template <typename I> void narrow(const char * n) {
    add_range(std::string(MC_VAR "/") + n, u64(1) << (sizeof(I) * 8), 4096, 1, [](Ctx & c, u64 lo, u64 hi) { auto & t = T(); u64 n = 0; for (u64 i = lo; i < hi; i++) n += pow2_of<I>(c, i, (I)i, t); return n; });
}
void reg() {
    const bool Th = thorough();
    narrow<uint8_t>("u8"); narrow<int8_t>("i8"); narrow<uint16_t>("u16"); narrow<int16_t>("i16");
    add_range(MC_VAR "/bits32", u64(1) << 32, 1 << 20, 16, [](Ctx & c, u64 lo, u64 hi) { auto & t = T(); u64 n = 0; for (u64 i = lo; i < hi; i++) n += bit32(c, i, (u32)i, t); return n; }, 20);
    if (Th) {
        add_range(MC_VAR "/u32", u64(1) << 32, 1 << 20, 16, [](Ctx & c, u64 lo, u64 hi) { auto & t = T(); u64 n = 0; for (u64 i = lo; i < hi; i++) n += pow2_of<u32>(c, i, (u32)i, t); return n; }, 20);
        add_range(MC_VAR "/i32", u64(1) << 31, 1 << 20, 16, [](Ctx & c, u64 lo, u64 hi) { auto & t = T(); u64 n = 0; for (u64 i = lo; i < hi; i++) n += pow2_of<int>(c, i, (int)i, t); return n; }, 20);
        add_range(MC_VAR "/low64", u64(1) << 33, 1 << 20, 16, [](Ctx & c, u64 lo, u64 hi) { auto & t = T(); u64 n = 0; for (u64 i = lo; i < hi; i++) { n += bit64(c, i, i, t); n += pow2_of<u64>(c, i, i, t); } return n; }, 20);
        add_range(MC_VAR "/high64", u64(1) << 32, 1 << 20, 16, [](Ctx & c, u64 lo, u64 hi) { auto & t = T(); u64 n = 0; for (u64 i = lo; i < hi; i++) { n += bit64(c, i, i << 32 | 1, t); n += pow2_of<u64>(c, i, i << 32, t); } return n; }, 20);
    } else {
        // 32 bits, quick: every number whose low or high half is free
        add_range(MC_VAR "/u32", u64(1) << 24, 1 << 18, 4, [](Ctx & c, u64 lo, u64 hi) { auto & t = T(); u64 n = 0; for (u64 i = lo; i < hi; i++) { n += pow2_of<u32>(c, i, (u32)i, t); n += pow2_of<u32>(c, i, (u32)(i << 8), t); n += pow2_of<u32>(c, i, ~(u32)i, t); n += pow2_of<int>(c, i, (int)i, t); n += pow2_of<int>(c, i, (int)(i << 7), t); } return n; }, 5);
        add_range(MC_VAR "/low64", u64(1) << 24, 1 << 18, 4, [](Ctx & c, u64 lo, u64 hi) { auto & t = T(); u64 n = 0; for (u64 i = lo; i < hi; i++) { n += bit64(c, i, i, t); n += bit64(c, i, i << 40, t); n += bit64(c, i, ~i, t); n += bit64(c, i, i << 20, t); n += pow2_of<u64>(c, i, i, t); n += pow2_of<u64>(c, i, i << 40, t); } return n; }, 5);
    }
    add_range(MC_VAR "/words64", words().size(), 1 << 14, 4, [](Ctx & c, u64 lo, u64 hi) { auto & t = T(); u64 n = 0; auto & W = words(); for (u64 i = lo; i < hi; i++) { n += bit64(c, i, W[i], t); n += pow2_of<u64>(c, i, W[i], t); n += pow2_of<int64_t>(c, i, (int64_t)W[i], t); n += pow2_of<u32>(c, i, (u32)W[i], t); } return n; }, 5,
              [](u64 i) { char b[40]; snprintf(b, sizeof b, "word 0x%016llx", (unsigned long long)words()[i]); return std::string(b); });
    add_range(MC_VAR "/compile_time", cts().size(), 64, 1, [](Ctx & c, u64 lo, u64 hi) { auto & t = T(); u64 n = 0; for (u64 i = lo; i < hi; i++) n += one_ct(c, i, cts()[i], t); return n; });
}
// ---- integer logarithms ----
// the digits of the first number of a range are counted, then the power at which the next digit appears is watched for
void reg_log10() {
    if (std::string(MC_VAR) == "v3") add_range(MC_VAR "/log10_32", u64(1) << 32, 1 << 20, 8, [](Ctx & c, u64 lo, u64 hi) {
        u32 e = 0; u64 next = 10; while (next <= lo) { next *= 10; e++; }
        for (u64 i = lo; i < hi; i++) { if (i == next) { next *= 10; e++; } u32 v = jstd::jm_log10_u32((u32)i); if (v != e) MC_FAIL(c, i, "jm_log10_u32(%llu) is %u, expected %u", (unsigned long long)i, v, e); }
        return hi - lo; }, 5);
    static std::vector<u64> W = words();
    { u64 t = 1; for (int k = 0; k < 20; k++, t *= 10) for (u64 m = 1; m < 10; m++) { if (t > ~u64(0) / m) break; for (int d = -5000; d <= 5000; d++) W.push_back(t * m + (u64)(int64_t)d); } }
    for (u64 x = 0; x < 100000; x++) { W.push_back(x); W.push_back(~x); }
    add_range(MC_VAR "/log10_64", W.size(), 1 << 14, 8, [](Ctx & c, u64 lo, u64 hi) {
        for (u64 i = lo; i < hi; i++) { u64 x = W[i]; u32 e = 0; for (u64 y = x; y >= 10; y /= 10) e++; u32 v = jstd::jm_log10_u64(x); if (v != e) MC_FAIL(c, i, "jm_log10_u64(%llu) is %u, expected %u", (unsigned long long)x, v, e); if (x >> 32 == 0 && jstd::jm_log10_u32((u32)x) != e) MC_FAIL(c, i, "jm_log10_u32(%llu), expected %u", (unsigned long long)x, e); }
        return hi - lo; }, 2, [](u64 i) { return std::to_string(W[i]); });
}
Registrar r_(reg), r10_(reg_log10);
} // namespace
