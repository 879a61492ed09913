// P17: generators produce the published sequences for every seed and history; draws stay in range.
#include "domain.h"
#include <climits>
#include <cassert>
#include <cmath>
#include <cfloat>
#include <random>
#include <jstd/basic/stddef.h>
#include <iostream>
#include <vector>
#include <jstd/system/LibcRandom.h>
#include <jstd/system/RandomGen.h>
#include <memory>
using namespace mc;
namespace {
typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef int32_t i32; typedef unsigned long long ull;
// ---- the published algorithms, from their parameters --------------------------
template <class W> struct P;
template <> struct P<u32> { static const int n = 624, m = 397, w = 32, r = 31, u = 11, s = 7, t = 15, l = 18; static constexpr u32 a = 0x9908B0DF, d = 0xFFFFFFFF, b = 0x9D2C5680, c = 0xEFC60000, f = 1812433253, k1 = 1664525, k2 = 1566083941; typedef std::mt19937 Std; typedef jstd::MT19937_32 J; static const char * name() { return "MT19937_32"; } };
template <> struct P<u64> { static const int n = 312, m = 156, w = 64, r = 31, u = 29, s = 17, t = 37, l = 43; static constexpr u64 a = 0xB5026F5AA96619E9, d = 0x5555555555555555, b = 0x71D67FFFEDA60000, c = 0xFFF7EEE000000000, f = 6364136223846793005, k1 = 3935559000370003845ull, k2 = 2862933555777941757ull; typedef std::mt19937_64 Std; typedef jstd::MT19937_64 J; static const char * name() { return "MT19937_64"; } };
template <class W> struct Ref {
    W x[P<W>::n]; int i;
    void seed(W s) { x[0] = s; for (int k = 1; k < P<W>::n; k++) x[k] = P<W>::f * (x[k - 1] ^ x[k - 1] >> (P<W>::w - 2)) + (W)k; i = P<W>::n; }
    void keys(const W * key, size_t len, W s) {
        seed(s); const int n = P<W>::n; int q = 1; size_t j = 0;
        for (size_t k = std::max((size_t)n, len); k; k--) { x[q] = (x[q] ^ (x[q - 1] ^ x[q - 1] >> (P<W>::w - 2)) * P<W>::k1) + key[j] + (W)j; if (++q >= n) { x[0] = x[n - 1]; q = 1; } if (++j >= len) j = 0; }
        for (int k = n - 1; k; k--) { x[q] = (x[q] ^ (x[q - 1] ^ x[q - 1] >> (P<W>::w - 2)) * P<W>::k2) - (W)q; if (++q >= n) { x[0] = x[n - 1]; q = 1; } }
        x[0] = (W)1 << (P<W>::w - 1);
    }
    W next() {
        const int n = P<W>::n; const W low = ((W)1 << P<W>::r) - 1;
        if (i >= n) { for (int k = 0; k < n; k++) { W y = (x[k] & ~low) | (x[(k + 1) % n] & low); x[k] = x[(k + P<W>::m) % n] ^ y >> 1 ^ (y & 1 ? P<W>::a : 0); } i = 0; }
        W y = x[i++]; y ^= y >> P<W>::u & P<W>::d; y ^= y << P<W>::s & P<W>::b; y ^= y << P<W>::t & P<W>::c; return y ^ y >> P<W>::l;
    }
};
template <class W> std::vector<W> seeds() {
    std::set<W> s; for (W x = 1; x < (thorough() ? 20000u : 1500u); x++) s.insert(x);
    for (int b = 0; b < P<W>::w; b++) for (int d = -2; d <= 2; d++) { s.insert(((W)1 << b) + (W)d); s.insert(~(((W)1 << b) + (W)d)); for (int e = 0; e < b; e += 3) s.insert((W)1 << b | (W)1 << e); }
    s.insert(19650218); s.insert(5489); s.insert((W)19650218019770711ull); s.insert(20200831); s.erase(0); return { s.begin(), s.end() };
}
template <class W> void reg_mt() {
    typedef typename P<W>::J J; const std::string nm = P<W>::name();
    auto S = std::make_shared<std::vector<W>>(seeds<W>());
    add_range("seeds/" + nm, S->size(), 32, 8, [=](Ctx & c, u64 lo, u64 hi) {
        u64 cnt = 0;
        for (u64 i = lo; i < hi; i++) {
            W s = (*S)[i]; J g(s), h; h.srand(s); J k(g); J z(7); for (int q = 0; q < (int)(i % 700); q++) z.rand(); z.srand(s); Ref<W> r; r.seed(s); typename P<W>::Std o(s);
            const int L = 3 * P<W>::n + 11;
            for (int q = 0; q < L; q++) { W w = r.next(); if (w != (W)o()) MC_FAIL(c, i, "the reference disagrees with the standard library"); W a = g.rand(), b = h.rand(), d = k.rand(), e = z.rand(); cnt += 4;
                if (a != w || b != w || d != w || e != w) MC_FAIL(c, i, "%s with seed %llx: output %d is %llx (constructed), %llx (srand), %llx (copy), %llx (reseeded after %d draws), expected %llx", P<W>::name(), (ull)s, q, (ull)a, (ull)b, (ull)d, (ull)e, (int)(i % 700), (ull)w); }
        }
        c.count("outputs compared", cnt); return cnt;
    }, 3, [=](u64 i) { char t[64]; snprintf(t, sizeof t, "seed %llx", (ull)(*S)[i]); return std::string(t); });
    // long runs: every position through many regenerations
    add_range("long/" + nm, 8, 1, 8, [=](Ctx & c, u64 lo, u64 hi) { u64 cnt = 0; for (u64 i = lo; i < hi; i++) { W s = i == 0 ? (W)J::kMTDefaultSeed : (W)(i * 0x9E3779B97F4A7C15ull); J g(s); J dflt; Ref<W> r; r.seed(s);
        for (int q = 0; q < (thorough() ? 20000000 : 1000000); q++) { W w = r.next(), a = g.rand(); cnt++; if (a != w || (i == 0 && dflt.rand() != w)) MC_FAIL(c, i, "%s with seed %llx: output %d is %llx, expected %llx", P<W>::name(), (ull)s, q, (ull)a, (ull)w); } }
        c.count("outputs compared", cnt); return cnt; }, 3);
    // key arrays: every length, and every short array over boundary words
    const u64 KL = thorough() ? 2000 : 1301;
    add_range("keys/" + nm, KL * 4, 32, 8, [=](Ctx & c, u64 lo, u64 hi) {
        u64 cnt = 0;
        for (u64 i = lo; i < hi; i++) {
            size_t len = i / 4 + 1; int pat = i % 4; std::vector<W> key(len); for (size_t q = 0; q < len; q++) key[q] = pat == 0 ? (W)(q * 0x123 + 1) : pat == 1 ? (W)-1 : pat == 2 ? 0 : (W)((q + 1) * 0x9E3779B97F4A7C15ull);
            W init = i % 3 == 0 ? (W)19650218 : i % 3 == 1 ? (W)5489 : (W)J::kMTDefaultSeed; 
            J a(key.data(), len, init), b(key, init), d(3), e(5); for (int q = 0; q < (int)(i % 13) * 60; q++) { d.rand(); e.rand(); } d.srand(key.data(), len, init); e.srand(key, init); Ref<W> r; r.keys(key.data(), len, init);
            for (int q = 0; q < P<W>::n + 7; q++) { W w = r.next(); W v[4] = { (W)a.rand(), (W)b.rand(), (W)d.rand(), (W)e.rand() }; cnt += 4; for (int k = 0; k < 4; k++) if (v[k] != w) MC_FAIL(c, i, "%s seeded with %zu keys (way %d): output %d is %llx, expected %llx", P<W>::name(), len, k, q, (ull)v[k], (ull)w); }
            if (i % 3 == 2) { J x(key.data(), len), y(key); r.keys(key.data(), len, (W)J::kMTDefaultSeed); for (int q = 0; q < 40; q++) { W w = r.next(); if ((W)x.rand() != w || (W)y.rand() != w) MC_FAIL(c, i, "%s seeded with %zu keys: output %d, expected %llx", P<W>::name(), len, q, (ull)w); } }
        }
        c.count("outputs compared", cnt); return cnt;
    }, 3);
    { static const W al[4] = { 0, 1, (W)0 - 1, (W)1 << (P<W>::w - 1) }; const int K = thorough() ? 6 : 5; u64 tot = 0, l = 1; for (int k = 1; k <= K; k++) tot += l *= 4;
      add_range("shortkeys/" + nm, tot, 16, 8, [=](Ctx & c, u64 lo, u64 hi) {
        u64 cnt = 0; for (u64 i = lo; i < hi; i++) { u64 z = i, l = 4; size_t len = 1; while (z >= l) { z -= l; l *= 4; len++; } W key[8]; for (size_t q = 0; q < len; q++) { key[q] = al[z % 4]; z /= 4; }
            J a(key, len); Ref<W> r; r.keys(key, len, (W)J::kMTDefaultSeed); for (int q = 0; q < 40; q++) { W w = r.next(), v = a.rand(); cnt++; if (v != w) MC_FAIL(c, i, "%s seeded with a short array of %zu keys: output %d is %llx, expected %llx", P<W>::name(), len, q, (ull)v, (ull)w); } }
        c.count("outputs compared", cnt); return cnt; }, 2); }
    // every history of reseeding, drawing, copying and assigning up to a depth
    const int OPS = 16, D = thorough() ? 5 : 4; u64 tot = 1; for (int k = 0; k < D; k++) tot *= OPS;
    add_range("histories/" + nm, tot, 256, 8, [=](Ctx & c, u64 lo, u64 hi) {
        u64 cnt = 0;
        for (u64 i = lo; i < hi; i++) {
            J * g = new J(11), * h = new J(23); Ref<W> r, q; r.seed(11); q.seed(23); W key[3] = { 1, (W)-1, 77 }; std::vector<W> vk(700, 5);
            auto draw = [&](int n) { for (int k = 0; k < n; k++) { W w = r.next(), v = g->rand(); cnt++; if (v != w) { u64 z = i; std::string s; for (int o = 0; o < D; o++) { s += std::to_string(z % OPS) + " "; z /= OPS; } MC_FAIL(c, i, "%s: after the history %s(0 srand, 1 srand(5), 2 key array, 3 key vector, 4..8 draws, 9 copy, 10..12 assign, swap, 13..15 other draws) an output is %llx, expected %llx", P<W>::name(), s.c_str(), (ull)v, (ull)w); } } };
            u64 z = i;
            for (int k = 0; k < D; k++, z /= OPS) switch (z % OPS) {
                case 0: g->srand(); r.seed((W)J::kMTDefaultSeed); break;
                case 1: g->srand(5); r.seed(5); break;
                case 2: g->srand(key, 3); r.keys(key, 3, (W)J::kMTDefaultSeed); break;
                case 3: g->srand(vk, 9); r.keys(vk.data(), 700, 9); break;
                case 4: draw(1); break; case 5: draw(P<W>::n - 1); break; case 6: draw(P<W>::n); break; case 7: draw(2); break; case 8: draw(P<W>::m); break;
                case 9: { J * n = new J(*g); J t(*g); t.rand(); memset((void *)g, 0xee, sizeof *g); delete g; g = n; break; }
                case 10: *h = *g; q = r; { J * t = g; g = h; h = t; } break;                      // continue on the copy
                case 11: *h = *g; q = r; break;                                                  // keep a copy, continue
                case 12: { J * t = g; g = h; h = t; Ref<W> s = r; r = q; q = s; } break;            // turn to the other
                case 13: { Ref<W> s = r; W a = r.next(); ull v = (u32)g->nextUInt32(); if (v != (u32)a) MC_FAIL(c, i, "%s: nextUInt32 is %llx, expected %llx", P<W>::name(), v, (ull)(u32)a); break; }
                case 14: { W a = r.next(); ull v; if (P<W>::w == 64) { v = g->nextUInt64(); if (v != (ull)a) MC_FAIL(c, i, "%s: nextUInt64 is %llx, expected %llx", P<W>::name(), v, (ull)a); }
                           else { W b = r.next(); v = g->nextUInt64(); if (v != ((ull)a << 32 | b) && v != ((ull)b << 32 | a)) MC_FAIL(c, i, "%s: nextUInt64 is %llx, the outputs are %llx and %llx", P<W>::name(), v, (ull)a, (ull)b); } break; }
                case 15: { W a = r.next(); i64 v = g->nextInt32(); if (v != (i64)(i32)(u32)a) MC_FAIL(c, i, "%s: nextInt32 is %lld, expected %lld", P<W>::name(), (long long)v, (long long)(i32)(u32)a); break; }
            }
            draw(5); { J * t = g; g = h; h = t; Ref<W> s = r; r = q; q = s; } draw(5);
            delete g; delete h;
        }
        c.count("outputs compared", cnt); return hi - lo;
    }, 5);
}
Registrar r1(reg_mt<u32>), r2(reg_mt<u64>);

// ---- draws: a generator whose raw words are chosen ------------------------------
struct Words {
    typedef u64 value_type; typedef size_t size_type; static u64 raw, raw2; static int n;
    explicit Words(value_type = 0) { } value_type rand_max() const { return ~0ull; } void srand(value_type = 0) { }
    value_type rand() { return n++ & 1 ? raw2 : raw; } i32 nextInt32() { return (i32)rand(); } u32 nextUInt32() { return (u32)rand(); } i64 nextInt64() { return (i64)rand(); } u64 nextUInt64() { return rand(); } intptr_t nextInt() { return (intptr_t)rand(); } size_t nextUInt() { return rand(); }
};
u64 Words::raw, Words::raw2; int Words::n;
struct Words32 : Words { typedef u32 value_type; explicit Words32(value_type = 0) { } value_type rand_max() const { return ~0u; } value_type rand() { return (u32)Words::rand(); } };
template <class T> std::vector<T> bounds() { std::set<T> s; for (int d = -9; d <= 9; d++) { s.insert((T)d); s.insert((T)(std::numeric_limits<T>::max() - (T)(d + 9))); s.insert((T)(std::numeric_limits<T>::min() + (T)(d + 9))); }
    for (int b = 4; b < (int)sizeof(T) * 8; b += 3) { s.insert((T)((T)1 << b)); s.insert((T)(((T)1 << b) - 1)); s.insert((T)(0 - ((T)1 << b))); } s.insert(100); s.insert(1000); return { s.begin(), s.end() }; }
std::vector<u64> raws() { std::set<u64> s; for (u64 x = 0; x < 70; x++) { s.insert(x); s.insert(~x); s.insert(x << 32); s.insert(0x80000000u - x); s.insert(0x80000000u + x); s.insert((1ull << 63) + x); s.insert((1ull << 63) - x); } for (int b = 0; b < 64; b++) { s.insert(1ull << b); s.insert(~(1ull << b)); } for (u64 k = 1; k < 60; k++) s.insert(k * 0x9E3779B97F4A7C15ull); return { s.begin(), s.end() }; }
#define IN(fn, T, lo_, hi_, ...) do { T a_ = lo_, b_ = hi_; T l_ = std::min(a_, b_), h_ = std::max(a_, b_); T v_ = (T)G::fn(__VA_ARGS__); if (!(v_ >= l_ && v_ <= h_)) MC_FAIL(c, idx, "%s::" #fn "(%s) is %s, asked for %s..%s (raw word %llx)", name, #__VA_ARGS__, str(v_).c_str(), str(l_).c_str(), str(h_).c_str(), (ull)Words::raw); } while (0)
template <class T> std::string str(T v) { char t[64]; if (std::is_floating_point<T>::value) snprintf(t, sizeof t, "%.17g", (double)v); else if (std::is_signed<T>::value) snprintf(t, sizeof t, "%lld", (long long)v); else snprintf(t, sizeof t, "%llu", (ull)v); return t; }
template <class G> void ranged(Ctx & c, u64 idx, const char * name, i32 a, i32 b, u32 ua, u32 ub, i64 la, i64 lb, u64 ula, u64 ulb) {
    IN(nextInt32, i32, a, b, a, b); IN(nextInt32, i32, 0, a, a); IN(nextUInt32, u32, ua, ub, ua, ub); IN(nextUInt32, u32, 0, ua, ua);
    IN(nextInt64, i64, la, lb, la, lb); IN(nextInt64, i64, 0, la, la); IN(nextUInt64, u64, ula, ulb, ula, ulb); IN(nextUInt64, u64, 0, ula, ula);
    IN(nextInt, i64, la, lb, la, lb); IN(nextInt, i64, 0, la, la); IN(nextUInt, u64, ula, ulb, ula, ulb); IN(nextUInt, u64, 0, ula, ula);
}
template <class G> void floats(Ctx & c, u64 idx, const char * name, float a, float b) {
    IN(nextFloat, float, a, b, a, b); IN(nextDouble, double, a, b, (double)a, (double)b); IN(nextDouble53, double, a, b, (double)a, (double)b);
}
template <class G> inline bool unit() { float f = G::nextFloat(); double d = G::nextDouble(), e = G::nextDouble53(); return f >= 0 && f <= 1 && d >= 0 && d <= 1 && e >= 0 && e < 1; }
void reg_ranges() {
    auto B32 = std::make_shared<std::vector<i32>>(bounds<i32>()); auto B64 = std::make_shared<std::vector<i64>>(bounds<i64>()); auto R = std::make_shared<std::vector<u64>>(raws()); const u64 N = std::max(B32->size(), B64->size());
    add_range("ranges/chosen words", N * N, 16, 8, [=](Ctx & c, u64 lo, u64 hi) {
        typedef jstd::BasicRandomGenerator<Words> G; typedef jstd::BasicRandomGenerator<Words32> G32;
        for (u64 i = lo; i < hi; i++) { i32 a = (*B32)[i / N % B32->size()], b = (*B32)[i % N % B32->size()]; i64 la = (*B64)[i / N % B64->size()], lb = (*B64)[i % N % B64->size()];
            for (u64 w : *R) { Words::raw = w; Words::raw2 = ~w * 3; Words::n = 0; ranged<G>(c, i, "BasicRandomGenerator", a, b, (u32)a, (u32)b, la, lb, (u64)la, (u64)lb); Words::n = 0; ranged<G32>(c, i, "BasicRandomGenerator of 32 bits", a, b, (u32)a, (u32)b, la, lb, (u64)la, (u64)lb); } }
        c.count("draws", (hi - lo) * R->size() * 24); return (hi - lo) * R->size();
    }, 4);
    add_range("ranges/generators", N * N, 64, 8, [=](Ctx & c, u64 lo, u64 hi) {
        for (u64 i = lo; i < hi; i++) { i32 a = (*B32)[i / N % B32->size()], b = (*B32)[i % N % B32->size()]; i64 la = (*B64)[i / N % B64->size()], lb = (*B64)[i % N % B64->size()];
            jstd::MtRandomGen32::srand((u32)i + 1); jstd::MtRandomGen64::srand(i + 1); jstd::RandomGen::srand((u32)i + 1);
            for (int k = 0; k < 30; k++) { ranged<jstd::MtRandomGen32>(c, i, "MtRandomGen32", a, b, (u32)a, (u32)b, la, lb, (u64)la, (u64)lb); ranged<jstd::MtRandomGen64>(c, i, "MtRandomGen64", a, b, (u32)a, (u32)b, la, lb, (u64)la, (u64)lb); ranged<jstd::RandomGen>(c, i, "RandomGen", a, b, (u32)a, (u32)b, la, lb, (u64)la, (u64)lb);
                if (!unit<jstd::MtRandomGen32>() || !unit<jstd::MtRandomGen64>() || !unit<jstd::RandomGen>()) MC_FAIL(c, i, "a floating draw is outside of its interval"); } }
        c.count("draws", (hi - lo) * 30 * 45); return (hi - lo) * 30;
    }, 4);
    // a generator object seeds the shared instance; the static functions continue its sequence
    add_range("generators/sequence", 2000, 50, 8, [=](Ctx & c, u64 lo, u64 hi) {
        for (u64 i = lo; i < hi; i++) { u32 s = (u32)(i * 7919 + 1); Ref<u32> r; Ref<u64> q; r.seed(s); q.seed(s);
            { jstd::MtRandomGen32 g(s); jstd::MtRandomGen64 h(s); } ::srand(s); std::vector<int> o; for (int k = 0; k < 40; k++) o.push_back(::rand()); { jstd::RandomGen l(s); }
            for (int k = 0; k < 40; k++) { u32 a = r.next(); u64 b = q.next(); if (k == 20) { jstd::MtRandomGen32::srand(s); jstd::MtRandomGen64::srand(s); r.seed(s); q.seed(s); a = r.next(); b = q.next(); }
                if (jstd::MtRandomGen32::rand() != a) MC_FAIL(c, i, "MtRandomGen32 with seed %u: output %d", s, k); if (jstd::MtRandomGen64::rand() != b) MC_FAIL(c, i, "MtRandomGen64 with seed %u: output %d", s, k);
                if (jstd::RandomGen::rand() != (u32)o[k]) MC_FAIL(c, i, "RandomGen with seed %u: output %d", s, k); }
            if (jstd::MtRandomGen32::rand_max() != 0xffffffffu || jstd::MtRandomGen64::rand_max() != ~0ull || jstd::RandomGen::rand_max() != RAND_MAX) MC_FAIL(c, i, "rand_max"); }
        return (hi - lo) * 40;
    }, 2);
    // every 32-bit word as the raw word of a floating draw
    add_range("floats/unit", 1ull << 32, 1 << 20, 16, [=](Ctx & c, u64 lo, u64 hi) {
        typedef jstd::BasicRandomGenerator<Words> G; 
        for (u64 i = lo; i < hi; i++) { Words::raw = i; Words::raw2 = i ^ 0xffffffffu; Words::n = 0; float f = G::nextFloat(); Words::n = 0; double d = G::nextDouble(); Words::n = 0; double e = G::nextDouble53();
            if (!(f >= 0 && f <= 1 && d >= 0 && d <= 1 && e >= 0 && e < 1)) MC_FAIL(c, i, "raw word %llx: nextFloat %.9g, nextDouble %.17g, nextDouble53 %.17g", (ull)i, f, d, e);
            if (std::fabs(d - (double)i / 4294967295.0) > 1e-9 || std::fabs((double)f - d) > 1e-6 || std::fabs(e - (double)i / 4294967296.0) > 1e-6) MC_FAIL(c, i, "raw word %llx: nextFloat %.9g, nextDouble %.17g, nextDouble53 %.17g do not follow the word", (ull)i, f, d, e); }
        c.count("draws", 3 * (hi - lo)); return hi - lo;
    }, 6);
    { // 53 bits: the boundary words of both halves
      add_range("floats/53", R->size() * R->size(), 4096, 4, [=](Ctx & c, u64 lo, u64 hi) { typedef jstd::BasicRandomGenerator<Words> G; typedef jstd::BasicRandomGenerator<Words32> G32;
        for (u64 i = lo; i < hi; i++) { Words::raw = (*R)[i / R->size()]; Words::raw2 = (*R)[i % R->size()]; 
            for (int k = 0; k < 2; k++) { Words::n = 0; double e = k ? G32::nextDouble53() : G::nextDouble53(); u64 x = (u32)Words::raw, y = (u32)Words::raw2; double w1 = (double)((x >> 5) << 26 | y >> 6) / 9007199254740992.0, w2 = (double)((y >> 5) << 26 | x >> 6) / 9007199254740992.0;
                if (e != w1 && e != w2) MC_FAIL(c, i, "nextDouble53 of the words %llx and %llx is %.17g, expected %.17g", (ull)x, (ull)y, e, w1); } }
        return hi - lo; }, 2); }
    static const float fs[] = { 0, 1, -1, 0.5f, -0.5f, 2, 3, 7, 100, -100, 1024, 65536, -65536, 0.25f, 1048576, -8, 4194304 }; const u64 F = sizeof fs / sizeof *fs;
    add_range("floats/ranges", F * F, 8, 8, [=](Ctx & c, u64 lo, u64 hi) { typedef jstd::BasicRandomGenerator<Words> G;
        for (u64 i = lo; i < hi; i++) { for (u64 w : *R) for (u64 w2 : { w, (u64)~w, (u64)0, (u64)~0ull }) { Words::raw = w; Words::raw2 = w2; Words::n = 0; floats<G>(c, i, "BasicRandomGenerator", fs[i / F], fs[i % F]); }
            for (u64 w = 0; w < 65536; w++) { Words::raw = w << 16 | 0xffff; Words::raw2 = w; Words::n = 0; floats<G>(c, i, "BasicRandomGenerator", fs[i / F], fs[i % F]); }
            jstd::MtRandomGen32::srand((u32)i + 1); jstd::MtRandomGen64::srand(i + 1); jstd::RandomGen::srand((u32)i + 1); for (int k = 0; k < 100; k++) { floats<jstd::MtRandomGen32>(c, i, "MtRandomGen32", fs[i / F], fs[i % F]); floats<jstd::MtRandomGen64>(c, i, "MtRandomGen64", fs[i / F], fs[i % F]); floats<jstd::RandomGen>(c, i, "RandomGen", fs[i / F], fs[i % F]); } }
        c.count("draws", (hi - lo) * 3 * (R->size() * 4 + 65536)); return (hi - lo) * 65536; }, 4);
}
Registrar r3(reg_ranges);
} // namespace
