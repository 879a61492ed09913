// P18: integer mixing computes the defined arithmetic for every argument; policies give valid indexes.
#include "domain.h"
#include <climits>
#include <jstd/basic/stddef.h>
#include <iostream>
#include <cstdio>
#include <filesystem>
#include <memory_resource>
#include <thread>
#include <bitset>
#include <string>
#include <string_view>
#include <vector>
#include <jstd/hasher/hashes.h>
#include <jstd/hasher/hash_crc32.h>
using namespace mc;
namespace {
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;
namespace H = jstd::hashes;
std::vector<u64> words(bool big) {
    std::set<u64> s;
    for (int a = 0; a < 64; a++) {
        for (int d = -3; d <= 3; d++) { s.insert((1ull << a) + d); s.insert(~((1ull << a) + d)); }
        for (int b = 0; b < a; b++) { u64 w = 1ull << a | 1ull << b; s.insert(w); s.insert(~w); s.insert((1ull << a) - (1ull << b)); s.insert(~((1ull << a) - (1ull << b)));
            if (big) for (int e = 0; e < b; e++) { s.insert(w | 1ull << e); s.insert(~(w | 1ull << e)); } }
    }
    const u64 k[] = { 0x9E3779B97F4A7C15ull, 11400714818402800987ull, 11400714819323198485ull, 2654435761u, 2654435769u, 0xE817FB2Du, 0x0123456789abcdefull, 0xfedcba9876543210ull };
    for (u64 x : k) { s.insert(x); s.insert(~x); s.insert(x >> 32); s.insert(x << 32); }
    const u64 f[] = { 0, 1, 0x7fff, 0x8000, 0xffff };
    for (u64 a : f) for (u64 b : f) for (u64 c : f) for (u64 d : f) s.insert(a << 48 | b << 32 | c << 16 | d);
    for (u64 x = 0; x < 300; x++) { s.insert(x); s.insert(~x); }
    return { s.begin(), s.end() };
}
// the product by 16-bit digits, one at a time
void mul(u64 x, u64 y, u64 & lo, u64 & hi) { u128 p = 0; for (int i = 0; i < 4; i++) p += (u128)(x >> 16 * i & 0xffff) * y << 16 * i; lo = (u64)p; hi = (u64)(p >> 64); }
#define BAD(idx, ...) MC_FAIL(c, idx, __VA_ARGS__)
typedef unsigned long long ull;
u32 crc_bits(u32 r, u64 v, int bytes) { for (int i = 0; i < 8 * bytes; i++) { u32 b = (r ^ (u32)(v >> i)) & 1; r = r >> 1 ^ (b ? 0x82F63B78u : 0); } return r; }
u32 crc_tab[256]; struct CT { CT() { for (u32 i = 0; i < 256; i++) crc_tab[i] = crc_bits(0, 0, 0) ^ [&] { u32 c = i; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0x82F63B78u : c >> 1; return c; }(); } } ct;
u32 crc(u32 r, u64 v, int bytes) { for (int i = 0; i < bytes; i++) r = crc_tab[(r ^ (u32)(v >> 8 * i)) & 255] ^ r >> 8; return r; }
u32 times31(u64 v, int bytes) { u32 h = 0; for (int i = 0; i < bytes; i++) h = h * 31 + (u8)(v >> 8 * i); return h; }

// one word through every one-argument function
inline void one(Ctx & c, u64 i, u64 v) {
    u64 lo, hi;
    mul(v, 11400714818402800987ull, lo, hi); if (H::mum_hash(v) != (lo ^ hi)) BAD(i, "mum_hash(%llx) is %llx, the folded product is %llx [%s]", (ull)v, (ull)H::mum_hash(v), (ull)(lo ^ hi), MC_VAR);
    mul(v, 0x9E3779B97F4A7C15ull, lo, hi); if (H::mum_mul_mix(v) != (lo ^ hi)) BAD(i, "mum_mul_mix(%llx) is %llx, the folded product is %llx [%s]", (ull)v, (ull)H::mum_mul_mix(v), (ull)(lo ^ hi), MC_VAR);
    u64 f = v * 11400714818402800987ull >> 28; if (H::fibonacci_hash64(v) != f || H::fibonacci_hash(v) != f) BAD(i, "fibonacci_hash(%llx) is %llx, expected %llx [%s]", (ull)v, (ull)H::fibonacci_hash(v), (ull)f, MC_VAR);
    f = (u64)(u32)v * 2654435761ull >> 12; if (H::fibonacci_hash32(v) != f) BAD(i, "fibonacci_hash32(%llx) is %llx, expected %llx [%s]", (ull)v, (ull)H::fibonacci_hash32(v), (ull)f, MC_VAR);
}
inline void crcs(Ctx & c, u64 i, u64 v) {
#ifdef __SSE4_2__
    u64 a = crc(~0u, v, 8), b = a | (u64)crc(0, v, 8) << 32;
    if (H::int_hash_crc32(v) != b) BAD(i, "int_hash_crc32(%llx) is %llx, expected %llx", (ull)v, (ull)H::int_hash_crc32(v), (ull)b);
    if (H::simple_int_hash_crc32(v) != a) BAD(i, "simple_int_hash_crc32(%llx) is %llx, expected %llx", (ull)v, (ull)H::simple_int_hash_crc32(v), (ull)a);
#ifndef MC_FALLBACK
    if (H::intel_int_crc32_x64(v) != b) BAD(i, "intel_int_crc32_x64(%llx) is %llx, expected %llx", (ull)v, (ull)H::intel_int_crc32_x64(v), (ull)b);
    if (H::intel_simple_int_crc32(v) != a) BAD(i, "intel_simple_int_crc32(%llx) is %llx, expected %llx", (ull)v, (ull)H::intel_simple_int_crc32(v), (ull)a);
    if (H::intel_int_crc32_x86((u32)v) != crc(~0u, (u32)v, 4)) BAD(i, "intel_int_crc32_x86(%llx) is %llx, expected %llx", (ull)(u32)v, (ull)H::intel_int_crc32_x86((u32)v), (ull)crc(~0u, (u32)v, 4));
#endif
#else
    if (H::int_hash_crc32(v) != H::int_hash_crc32(v) || H::int_hash_crc32(v) != (size_t)times31(v, 8)) BAD(i, "int_hash_crc32(%llx) without SSE4.2 is %llx, expected %llx", (ull)v, (ull)H::int_hash_crc32(v), (ull)times31(v, 8));
    if (H::simple_int_hash_crc32(v) != (size_t)times31(v, 8)) BAD(i, "simple_int_hash_crc32(%llx) without SSE4.2 is %llx, expected %llx", (ull)v, (ull)H::simple_int_hash_crc32(v), (ull)times31(v, 8));
#endif
}
// the hasher objects on every integer type, and on what is no integer
struct Odd { typedef std::string argument_type; typedef size_t result_type; size_t operator()(const std::string & s) const { return s.size() * 0x9E3779B97F4A7C15ull + 7; } size_t operator()(const unsigned __int128 & x) const { return (size_t)(x >> 64) ^ (size_t)x; } };
template <class T> struct Res32 { typedef T argument_type; typedef u32 result_type; u32 operator()(const T & v) const { return (u32)v; } };
template <class T> void hashers(Ctx & c, u64 i, u64 x, const char * tn) {
    T v = (T)x; const size_t s = (size_t)v; size_t m = H::mum_hash(s), f = H::fibonacci_hash(s);
#define OBJ(Cls, Hs, R, want) { jstd::Cls<Hs> h1; const jstd::Cls<Hs> h2; if (h1(v) != (R)(want) || h2(v) != (R)(want)) BAD(i, #Cls "<" #Hs "> of (%s)%llx is %llx, expected %llx", tn, (ull)s, (ull)h1(v), (ull)(R)(want)); }
    OBJ(SimpleHash, std::hash<T>, size_t, s) OBJ(MumHash, std::hash<T>, size_t, m) OBJ(FibonacciHash, std::hash<T>, size_t, f)
    OBJ(SimpleHash, Res32<T>, u32, s) OBJ(MumHash, Res32<T>, u32, m) OBJ(FibonacciHash, Res32<T>, u32, f)
    OBJ(SimpleHash, Odd, size_t, s) OBJ(MumHash, Odd, size_t, m)
    if (jstd::mum_hash_policy<std::hash<T>>().get_hash_code(v) != m) BAD(i, "mum_hash_policy::get_hash_code of (%s)%llx", tn, (ull)s);
    if (jstd::fibonacci_hash_policy<std::hash<T>>().get_hash_code(v) != f) BAD(i, "fibonacci_hash_policy::get_hash_code of (%s)%llx", tn, (ull)s);
}
template <class P, class K> void policy(Ctx & c, u64 i, const std::vector<u64> & xs, const char * name) {
    P fresh;
    for (u64 h : xs) if (fresh.template index_for_hash<K>(h, 1) > 1) BAD(i, "%s: a new policy maps hash %llx to %llx", name, (ull)h, (ull)fresh.template index_for_hash<K>(h, 1));
    for (int k = 1; k < 64; k++) {
        size_t cap = (size_t)1 << k, want = cap; P p; auto st = p.calc_next_capacity(cap);
        if (cap != want) BAD(i, "%s: calc_next_capacity changed capacity %zx to %zx", name, want, cap);
        p.commit(st); P q(p), r; r.commit(st); r.reset();
        size_t top = 0;
        for (u64 h : xs) {
            size_t x = p.template index_for_hash<K>(h, cap - 1);
            if (x >= cap) BAD(i, "%s: hash %llx has index %zx in a table of %zx slots", name, (ull)h, x, cap);
            if (q.template index_for_hash<K>(h, cap - 1) != x || p.template index_for_hash<K>(h, cap - 1) != x) BAD(i, "%s: hash %llx has two indexes in a table of %zx slots", name, (ull)h, cap);
            if (r.template index_for_hash<K>(h, 1) > 1) BAD(i, "%s: hash %llx has index %zx after reset()", name, (ull)h, r.template index_for_hash<K>(h, 1));
            top |= x;
            for (int d = 0; d < 3; d++) { size_t z = p.round_index(x + d, cap - 1); if (z != (x + d) % cap) BAD(i, "%s: round_index(%zx) is %zx in a table of %zx slots", name, x + d, z, cap); }
        }
    }
}
void reg() {
    const std::string v = MC_VAR;
    auto xs = std::make_shared<std::vector<u64>>(words(false)); const u64 N = xs->size();
    add_range("products/" + v, N * N, 1 << 15, 8, [=](Ctx & c, u64 a, u64 b) {
        for (u64 i = a; i < b; i++) {
            u64 x = (*xs)[i / N], y = (*xs)[i % N], lo, hi; mul(x, y, lo, hi); auto p = H::uint128_mul(x, y);
            if (p.low != lo || p.high != hi) BAD(i, "uint128_mul(%llx, %llx) is %llx:%llx, the product is %llx:%llx [%s]", (ull)x, (ull)y, (ull)p.high, (ull)p.low, (ull)hi, (ull)lo, MC_VAR);
            if (H::mum_hash64(x, y) != (lo ^ hi)) BAD(i, "mum_hash64(%llx, %llx) is %llx, expected %llx [%s]", (ull)x, (ull)y, (ull)H::mum_hash64(x, y), (ull)(lo ^ hi), MC_VAR);
            if (H::mum_mul_mix64(x, y) != (lo ^ hi)) BAD(i, "mum_mul_mix64(%llx, %llx) is %llx, expected %llx [%s]", (ull)x, (ull)y, (ull)H::mum_mul_mix64(x, y), (ull)(lo ^ hi), MC_VAR);
            u64 q = (u64)(u32)x * (u32)y; u32 w = (u32)q ^ (u32)(q >> 32), g = (u32)x, k = (u32)y;
            if (H::mum_hash32(g, k) != w || H::mum_mul_mix32(g, k) != w) BAD(i, "mum_hash32(%x, %x) is %x, mum_mul_mix32 %x, expected %x [%s]", g, k, H::mum_hash32(g, k), H::mum_mul_mix32(g, k), w, MC_VAR);
        }
        c.count("evaluations", 5 * (b - a)); return b - a;
    }, 3, [=](u64 i) { char t[80]; snprintf(t, sizeof t, "%llx x %llx", (ull)(*xs)[i / N], (ull)(*xs)[i % N]); return std::string(t); });
    // 16-bit halves against each other: every product of two 16-bit numbers in each pair of positions
    add_range("halves/" + v, thorough() ? 1ull << 32 : 1ull << 28, 1 << 20, 16, [=](Ctx & c, u64 a, u64 b) {
        for (u64 i = a; i < b; i++) {
            u64 p = i & 0x3fff, q = i >> 14; if (thorough()) { p = i & 0xffff; q = i >> 16; } else { p = p << 2 | (p & 3); q = q << 2 | (q & 3); }
            u32 g = (u32)(p << 16 | (p ^ 0xffff)), k = (u32)(q << 16 | q); u64 m = (u64)g * k; u32 w = (u32)m ^ (u32)(m >> 32);
            if (H::mum_hash32(g, k) != w || H::mum_mul_mix32(g, k) != w) BAD(i, "mum_hash32(%x, %x) is %x, mum_mul_mix32 %x, expected %x [%s]", g, k, H::mum_hash32(g, k), H::mum_mul_mix32(g, k), w, MC_VAR);
            u64 x = (u64)g << 32 | k, y = (u64)k << 32 | ~g; u128 r = (u128)x * y; auto z = H::uint128_mul(x, y);
            if (z.low != (u64)r || z.high != (u64)(r >> 64) || H::mum_mul_mix64(x, y) != ((u64)r ^ (u64)(r >> 64))) BAD(i, "uint128_mul(%llx, %llx) is %llx:%llx, the product is %llx:%llx [%s]", (ull)x, (ull)y, (ull)z.high, (ull)z.low, (ull)(r >> 64), (ull)(u64)r, MC_VAR);
        }
        c.count("evaluations", 4 * (b - a)); return b - a;
    }, 6);
    // every 32-bit word (thorough: also in the high half and in the middle)
    add_range("words/" + v, thorough() ? 3ull << 32 : 1ull << 32, 1 << 20, 32, [=](Ctx & c, u64 a, u64 b) {
        for (u64 i = a; i < b; i++) { u64 x = i & 0xffffffffu; switch (i >> 32) { case 1: x <<= 32; break; case 2: x = x << 16 | 0xffff00000000ffffull; break; }
            u128 p = (u128)x * 11400714818402800987ull; u64 m = (u64)p ^ (u64)(p >> 64); if (H::mum_hash(x) != m) BAD(i, "mum_hash(%llx) is %llx, the folded product is %llx [%s]", (ull)x, (ull)H::mum_hash(x), (ull)m, MC_VAR);
            p = (u128)x * 0x9E3779B97F4A7C15ull; m = (u64)p ^ (u64)(p >> 64); if (H::mum_mul_mix(x) != m) BAD(i, "mum_mul_mix(%llx) is %llx, the folded product is %llx [%s]", (ull)x, (ull)H::mum_mul_mix(x), (ull)m, MC_VAR);
            u64 f = (u64)(u32)x * 2654435761ull >> 12; if (H::fibonacci_hash32(x) != f) BAD(i, "fibonacci_hash32(%llx) is %llx, expected %llx [%s]", (ull)x, (ull)H::fibonacci_hash32(x), (ull)f, MC_VAR);
            f = x * 11400714818402800987ull >> 28; if (H::fibonacci_hash(x) != f) BAD(i, "fibonacci_hash(%llx) is %llx, expected %llx [%s]", (ull)x, (ull)H::fibonacci_hash(x), (ull)f, MC_VAR); }
        c.count("evaluations", 4 * (b - a)); return b - a;
    }, 8);
    auto ws = std::make_shared<std::vector<u64>>(words(true)); 
    add_range("structured/" + v, ws->size(), 4096, 4, [=](Ctx & c, u64 a, u64 b) {
        for (u64 i = a; i < b; i++) { one(c, i, (*ws)[i]); crcs(c, i, (*ws)[i]); }
        c.count("evaluations", 9 * (b - a)); return b - a;
    }, 2);
    add_range("crc/" + v, thorough() ? 1ull << 30 : 1ull << 26, 1 << 18, 8, [=](Ctx & c, u64 a, u64 b) {
        for (u64 i = a; i < b; i++) crcs(c, i, i * (thorough() ? 0x100000005ull : 0x1000000051ull));
        c.count("evaluations", 5 * (b - a)); return b - a;
    }, 4);
    add_range("hashers/" + v, N, 256, 4, [=](Ctx & c, u64 a, u64 b) {
        for (u64 i = a; i < b; i++) { u64 x = (*xs)[i];
#define T_(T) hashers<T>(c, i, x, #T);
            T_(bool) T_(char) T_(signed char) T_(unsigned char) T_(short) T_(unsigned short) T_(wchar_t) T_(char16_t) T_(int) T_(unsigned int) T_(long) T_(unsigned long) T_(long long) T_(unsigned long long)
            std::string s(x % 77, 'x'); size_t w = Odd()(s);
            if (jstd::SimpleHash<Odd>()(s) != w || jstd::MumHash<Odd>()(s) != w || jstd::FibonacciHash<Odd>()(s) != w) BAD(i, "a hasher object does not return its hasher's value for a string of length %zu", s.size());
            if (jstd::mum_hash_policy<Odd>().get_hash_code(s) != w || jstd::fibonacci_hash_policy<Odd>().get_hash_code(s) != w) BAD(i, "a policy does not return its hasher's value for a string of length %zu", s.size());
        }
        c.count("evaluations", 14 * 10 * (b - a)); return b - a;
    }, 2);
    // every capacity x every structured hash x each policy and kind of key
    add_range("policies/" + v, 6, 1, 6, [=](Ctx & c, u64 a, u64 b) {
        for (u64 i = a; i < b; i++) switch (i) {
            case 0: policy<jstd::mum_hash_policy<std::hash<int>>, int>(c, i, *ws, "mum_hash_policy<int>"); break;
            case 1: policy<jstd::mum_hash_policy<std::hash<std::string>>, std::string>(c, i, *ws, "mum_hash_policy<string>"); break;
            case 2: policy<jstd::fibonacci_hash_policy<std::hash<int>>, int>(c, i, *ws, "fibonacci_hash_policy<int>"); break;
            case 3: policy<jstd::fibonacci_hash_policy<std::hash<std::string>>, std::string>(c, i, *ws, "fibonacci_hash_policy<string>"); break;
            case 4: policy<typename jstd::hash_policy_selector<std::hash<long>>::type, long>(c, i, *ws, "default policy<long>"); break;
            case 5: policy<typename jstd::hash_policy_selector<std::hash<long>>::type, std::string_view>(c, i, *ws, "default policy<string_view>"); break;
        }
        c.count("evaluations", (b - a) * 63 * ws->size() * 6); return (b - a) * 63 * ws->size();
    }, 4);
}
Registrar r1(reg);
} // namespace
