// P13: string hashing depends only on content, reads only the given bytes, equals the published definition.
#include "domain.h"
#include <climits>
#include <sys/mman.h>
#include <jstd/basic/stddef.h>
#include <iostream>
#include <cstdio>
#include <filesystem>
#include <memory_resource>
#include <thread>
#include <bitset>
#include <string>
#include <string_view>
#include <vector>
#include <jstd/hasher/hashes.h>
#include <jstd/hasher/hash_crc32.h>
#include <jstd/hasher/fnv1a.h>
#include <jstd/hasher/hash_helper.h>
using namespace mc;
namespace {
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

// ---- definitions ------------------------------------------------------------
u32 crc_table[256];
struct CrcInit { CrcInit() { for (u32 i = 0; i < 256; i++) { u32 c = i; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82F63B78u : c >> 1; crc_table[i] = c; } } } crc_init;
u32 crc_run(u32 r, const u8 * p, size_t n) { for (size_t i = 0; i < n; i++) r = crc_table[(r ^ p[i]) & 255] ^ (r >> 8); return r; }
u32 crc_pad(const u8 * p, size_t n, size_t step) {              // the register after the text padded with zeros to whole words
    u32 r = crc_run(~0u, p, n); static const u8 z[8] = {}; if (n % step) r = crc_run(r, z, step - n % step); return r;
}
template <class CT> u32 ref_poly(const u8 * p, size_t n, u32 seed) {
    typedef typename std::make_unsigned<CT>::type U; u32 h = 0;
    for (size_t i = 0; i < n; i++) { U v; memcpy(&v, p + i * sizeof(U), sizeof(U)); h = h * seed + (u32)v; } return h;
}
template <class CT> u32 ref_ap(const u8 * p, size_t n) {
    typedef typename std::make_unsigned<CT>::type U; u32 h = 0;
    for (size_t i = 0; i < n; i++) { U v; memcpy(&v, p + i * sizeof(U), sizeof(U));
        if (i & 1) h ^= ~((h << 11) ^ (u32)v ^ (h >> 5)); else h ^= (h << 7) ^ (u32)v ^ (h >> 3); }
    return h;
}
template <class CT> u32 ref_djb(const u8 * p, size_t n) {
    typedef typename std::make_unsigned<CT>::type U; u32 h = 5381;
    for (size_t i = 0; i < n; i++) { U v; memcpy(&v, p + i * sizeof(U), sizeof(U)); h = h * 33 + (u32)v; } return h;
}
u32 ref_leveldb(const u8 * p, size_t n, u32 seed) {
    const u32 m = 0xc6a4a793; u32 h = seed ^ (u32)(n * m); size_t i = 0;
    for (; i + 4 <= n; i += 4) { h += (u32)p[i] | (u32)p[i + 1] << 8 | (u32)p[i + 2] << 16 | (u32)p[i + 3] << 24; h *= m; h ^= h >> 16; }
    size_t r = n - i;
    if (r == 3) h += (u32)(int8_t)p[i + 2] << 16;
    if (r >= 2) h += (u32)(int8_t)p[i + 1] << 8;
    if (r >= 1) { h += (u32)(int8_t)p[i]; h *= m; h ^= h >> 24; }
    return h;
}
u32 ref_lh(const u8 * p, size_t n) {                            // 16-bit little endian pairs, shifted by their number modulo 16
    u32 h = 0; for (size_t i = 0; i < n; i += 2) { u32 w = p[i] | (i + 1 < n ? (u32)p[i + 1] << 8 : 0); h ^= w << (i / 2 & 15); } return h;
}

// ---- the functions ----------------------------------------------------------
struct Fn { const char * name; size_t unit; u64 (*f)(const char *, size_t); u64 (*ref)(const u8 *, size_t); bool every; };
namespace H = jstd::hashes;
template <class CT> u64 bkdr(const char * p, size_t n) { return H::BKDRHash((const CT *)p, n); }
template <class CT> u64 bkdr31(const char * p, size_t n) { return H::BKDRHash_31((const CT *)p, n); }
template <class CT> u64 times31(const char * p, size_t n) { return H::Times31((const CT *)p, n); }
template <class CT> u64 bkdr31std(const char * p, size_t n) { return H::BKDRHash_31_std((const CT *)p, n); }
template <class CT> u64 times31std(const char * p, size_t n) { return H::Times31Std((const CT *)p, n); }
template <class CT> u64 ap(const char * p, size_t n) { return H::APHash((const CT *)p, n); }
template <class CT> u64 djb(const char * p, size_t n) { return H::DJBHash((const CT *)p, n); }
template <class CT> u64 r131(const u8 * p, size_t n) { return ref_poly<char>(p, n * sizeof(CT), 131); }
template <class CT> u64 r31(const u8 * p, size_t n) { return ref_poly<char>(p, n * sizeof(CT), 31); }
template <class CT> u64 r31b(const u8 * p, size_t n) { return ref_poly<char>(p, n * sizeof(CT), 31); }
template <class CT> u64 rap(const u8 * p, size_t n) { return ref_ap<CT>(p, n); }
template <class CT> u64 rdjb(const u8 * p, size_t n) { return ref_djb<CT>(p, n); }
template <class T> struct PH {
    static u64 now(const char * p, size_t n) { return jstd::HashUtils<T>().primaryHash(p, n, (size_t)0x43D1F9CBBC9F1D34ull); }
    static u64 anew(const char * p, size_t n) { return jstd::HashUtils<T>().primaryHash_new(p, n, (size_t)0x43D1F9CBBC9F1D34ull); }
    static u64 old(const char * p, size_t n) { return jstd::HashUtils<T>().primaryHash_old(p, n, (size_t)0x43D1F9CBBC9F1D34ull); }
    static u64 aligned(const char * p, size_t n) { return jstd::HashUtils<T>().primaryHash_aligned(p, n, (size_t)0x43D1F9CBBC9F1D34ull); }
    static u64 second(const char * p, size_t n) { return jstd::HashUtils<T>().secondaryHash(p, n); }
    static u64 openssl(const char * p, size_t n) { return jstd::HashUtils<T>().OpenSSLHash(p, n); }
};
std::vector<Fn> & fns() {
    static std::vector<Fn> v;
    if (!v.empty()) return v;
#define POLY(CT, S) \
    v.push_back({ "BKDRHash<" S ">", sizeof(CT), bkdr<CT>, r131<CT>, false }); v.push_back({ "BKDRHash_31<" S ">", sizeof(CT), bkdr31<CT>, r31<CT>, false }); \
    v.push_back({ "Times31<" S ">", sizeof(CT), times31<CT>, r31<CT>, false }); v.push_back({ "BKDRHash_31_std<" S ">", sizeof(CT), bkdr31std<CT>, r31b<CT>, false }); \
    v.push_back({ "Times31Std<" S ">", sizeof(CT), times31std<CT>, r31b<CT>, false }); v.push_back({ "APHash<" S ">", sizeof(CT), ap<CT>, rap<CT>, false }); \
    v.push_back({ "DJBHash<" S ">", sizeof(CT), djb<CT>, rdjb<CT>, false });
    POLY(char, "char") POLY(unsigned char, "unsigned char") POLY(short, "short") POLY(wchar_t, "wchar_t")
    v.push_back({ "OpenSSL_Hash<char>", 1, [](const char * p, size_t n) -> u64 { return H::OpenSSL_Hash(p, n); }, [](const u8 * p, size_t n) -> u64 { return ref_lh(p, n); }, false });
    v.push_back({ "OpenSSL_Hash<wchar_t>", 4, [](const char * p, size_t n) -> u64 { return H::OpenSSL_Hash((const wchar_t *)p, n); }, nullptr, false });
    v.push_back({ "rocksdb Hash<char>", 1, [](const char * p, size_t n) -> u64 { return rocksdb::hashes::Hash(p, n, 0xBC9F1D34u); }, [](const u8 * p, size_t n) -> u64 { return ref_leveldb(p, n, 0xBC9F1D34u); }, false });
    v.push_back({ "rocksdb Hash<char> seed 0", 1, [](const char * p, size_t n) -> u64 { return rocksdb::hashes::Hash(p, n, 0u); }, [](const u8 * p, size_t n) -> u64 { return ref_leveldb(p, n, 0); }, false });
    v.push_back({ "msvc_fnv_1a", 1, [](const char * p, size_t n) -> u64 { return H::msvc_fnv_1a((const u8 *)p, n); }, nullptr, true });
    v.push_back({ "HashUtils<uint32_t>::primaryHash", 1, PH<u32>::now, nullptr, true }); v.push_back({ "HashUtils<uint64_t>::primaryHash", 1, PH<u64>::now, nullptr, true });
#ifndef MC_FALLBACK
    v.push_back({ "HashUtils<uint32_t>::primaryHash_new", 1, PH<u32>::anew, nullptr, true }); v.push_back({ "HashUtils<uint64_t>::primaryHash_new", 1, PH<u64>::anew, nullptr, true });
    v.push_back({ "HashUtils<uint32_t>::primaryHash_old", 1, PH<u32>::old, nullptr, true }); v.push_back({ "HashUtils<uint64_t>::primaryHash_old", 1, PH<u64>::old, nullptr, true });
    v.push_back({ "HashUtils<uint32_t>::primaryHash_aligned", 1, PH<u32>::aligned, nullptr, true }); v.push_back({ "HashUtils<uint64_t>::primaryHash_aligned", 1, PH<u64>::aligned, nullptr, true });
#endif
    v.push_back({ "HashUtils<uint32_t>::secondaryHash", 1, PH<u32>::second, nullptr, false }); v.push_back({ "HashUtils<uint64_t>::secondaryHash", 1, PH<u64>::second, nullptr, false });
    v.push_back({ "HashUtils<uint64_t>::OpenSSLHash", 1, PH<u64>::openssl, nullptr, false });
    v.push_back({ "FNV1A_Yoshimura", 1, [](const char * p, size_t n) -> u64 { return H::FNV1A_Yoshimura(p, n); }, nullptr, false });
    v.push_back({ "FNV1A_Yoshimitsu_TRIADii_xmm", 1, [](const char * p, size_t n) -> u64 { return H::FNV1A_Yoshimitsu_TRIADii_xmm(p, n); }, nullptr, false });
    v.push_back({ "FNV1A_penumbra", 1, [](const char * p, size_t n) -> u64 { return H::FNV1A_penumbra(p, n); }, nullptr, false });
#ifdef __SSE4_2__
    v.push_back({ "hash_crc32", 1, [](const char * p, size_t n) -> u64 { return H::hash_crc32(p, n); }, [](const u8 * p, size_t n) -> u64 { return crc_pad(p, n, 8); }, true });
#ifndef MC_FALLBACK
    v.push_back({ "intel_crc32_x86", 1, [](const char * p, size_t n) -> u64 { return H::intel_crc32_x86(p, n); }, [](const u8 * p, size_t n) -> u64 { return crc_pad(p, n, 4); }, true });
    v.push_back({ "intel_crc32_x64", 1, [](const char * p, size_t n) -> u64 { return H::intel_crc32_x64(p, n); }, [](const u8 * p, size_t n) -> u64 { return crc_pad(p, n, 8); }, true });
    v.push_back({ "intel_crc32_simple_x86", 1, [](const char * p, size_t n) -> u64 { return H::intel_crc32_simple_x86(p, n); }, [](const u8 * p, size_t n) -> u64 { return (u32)~crc_run(~0u, p, n); }, true });
    v.push_back({ "intel_crc32_simple_x64", 1, [](const char * p, size_t n) -> u64 { return H::intel_crc32_simple_x64(p, n); }, [](const u8 * p, size_t n) -> u64 { return (u32)~crc_run(~0u, p, n); }, true });
#endif
#else
    v.push_back({ "hash_crc32", 1, [](const char * p, size_t n) -> u64 { return H::hash_crc32(p, n); }, [](const u8 * p, size_t n) -> u64 { return ref_poly<char>(p, n, 31); }, false });
#endif
    return v;
}

// ---- where a text can lie ---------------------------------------------------
struct Mem {                                                    // pages between two that may not be touched
    char * lo, * hi; static const size_t SZ = 1 << 14;
    Mem() { char * p = (char *)mmap(0, SZ + 2 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 4096, SZ, PROT_READ | PROT_WRITE); lo = p + 4096; hi = lo + SZ; }
};
Mem & mem() { static Mem m; return m; }
alignas(4096) char home[8192];                                  // the place whose value all others must equal
u64 value(const Fn & f, const u8 * b, size_t n) {
    if (f.ref) return f.ref(b, n);
    memset(home, 0, 64); memcpy(home, b, n * f.unit); memset(home + n * f.unit, 0, 64); return f.f(home, n);
}
std::string text(const u8 * b, size_t n) { std::string s; char t[8]; for (size_t i = 0; i < n && i < 24; i++) { snprintf(t, sizeof t, "%02x", b[i]); s += t; } return n > 24 ? s + "..." : s; }

const int OFFS = 32;
inline int places() { return 2 + OFFS * 3; }                    // against either guard, every offset x three surroundings
u64 probe(const Fn & f, const u8 * b, size_t n, int place) {
    size_t bytes = n * f.unit; char * p; size_t touch;
    static const u8 around[3] = { 0x00, 0xff, 0x5a };
    if (place == 0) { p = mem().hi - bytes; memset(p - 64, 0xa5, 64); }
    else if (place == 1) { p = mem().lo; memset(p + bytes, 0xa5, 64); }
    else {
        int o = (place - 2) % OFFS, s = (place - 2) / OFFS; p = mem().lo + 256 + o * (f.unit > 1 ? f.unit : 1);
        memset(p - 128, around[s], 128); memset(p + bytes, around[s], 128);
    }
    memcpy(p, b, bytes); (void)touch;
    u64 r = f.f(p, n);
    if (memcmp(p, b, bytes)) return ~r;
    return r;
}
void pattern(u8 * b, size_t bytes, int pat) {
    for (size_t i = 0; i < bytes; i++) b[i] = pat == 0 ? (u8)(i * 37 + 11 + i / 251) : pat == 1 ? 0xff : pat == 2 ? 0x00 : (u8)(0x80 ^ i * i);
}
void reg() {
    auto & F = fns(); const u64 NF = F.size();
    { // every length at every place
        const u64 L = thorough() ? 1101 : 321, P = places(), T = 4; const u64 total = NF * L * T;
        add_range(std::string("place/") + MC_VAR, total, 64, 8, [=](Ctx & c, u64 lo, u64 hi) {
            u8 b[4 * 1104]; u64 nt = 0;
            for (u64 i = lo; i < hi; i++) {
                const Fn & f = fns()[i / (L * T)]; size_t n = i / T % L; pattern(b, n * f.unit, (int)(i % T));
                u64 want = value(f, b, n);
                for (u64 p = 0; p < P; p++) { u64 got = probe(f, b, n, (int)p);
                    if (got != want) MC_FAIL(c, i, "%s [%s] of %zu characters is %llx at place %d (0: before a guard page, 1: behind one, else offset %d), expected %llx", f.name, MC_VAR, n, (unsigned long long)got, (int)p, (int)(p - 2) % OFFS, (unsigned long long)want); }
                nt += n != 0; c.count("hash evaluations", P);
            }
            return nt * P;
        }, 3, [=](u64 i) { const Fn & f = fns()[i / (L * T)]; return std::string(f.name) + ", length " + std::to_string(i / T % L) + ", every place"; });
    }
    { // every short content
        struct Al { std::vector<u8> a; int n; }; static const Al als[3] = { { { 0, 1, 0x7f, 0x80, 0xff, 'a' }, 6 }, { { 0, 0x80, 0xff }, 11 }, { { 0, 0xff }, 17 } };
        for (int k = 0; k < 3; k++) {
            u64 tot = 1; for (int i = 0; i < als[k].n + (thorough() ? 1 : 0); i++) tot *= als[k].a.size(); const int N = als[k].n + (thorough() ? 1 : 0);
            add_range(std::string("content/") + MC_VAR + "/" + std::to_string(als[k].a.size()), tot * (N + 1), 4096, 8, [=](Ctx & c, u64 lo, u64 hi) {
                u8 b[64]; u64 cnt = 0;
                for (u64 i = lo; i < hi; i++) {
                    size_t n = i % (N + 1); u64 x = i / (N + 1); u64 lim = 1; for (size_t q = 0; q < n; q++) { b[q] = als[k].a[x % als[k].a.size()]; x /= als[k].a.size(); lim *= als[k].a.size(); }
                    if (x) continue;                            // each text once
                    for (auto & f : fns()) { if (n % f.unit) continue;
                        u64 want = value(f, b, n / f.unit);
                        for (int p : { 0, 2 + (int)((i * 7 + n) % OFFS) + OFFS * (int)(i % 3) }) { u64 got = probe(f, b, n / f.unit, p);
                            if (got != want) MC_FAIL(c, i, "%s [%s] of \"%s\" is %llx at place %d, expected %llx", f.name, MC_VAR, text(b, n).c_str(), (unsigned long long)got, p, (unsigned long long)want); }
                        cnt += 2; }
                }
                c.count("hash evaluations", cnt); return cnt;
            }, 2, [=](u64 i) { return "text " + std::to_string(i / (N + 1)) + " of length " + std::to_string(i % (N + 1)); });
        }
    }
    { // every value of every single byte
        const u64 L = thorough() ? 141 : 71, BG = 4;
        add_range(std::string("byte/") + MC_VAR, NF * L * L * BG, 2048, 8, [=](Ctx & c, u64 lo, u64 hi) {
            u8 b[4 * 144]; u64 cnt = 0;
            for (u64 i = lo; i < hi; i++) {
                const Fn & f = fns()[i / (L * L * BG)]; size_t n = i / (L * BG) % L, pos = i / BG % L; if (pos >= n || n * f.unit > L) continue;
                for (size_t sub = 0; sub < f.unit; sub++) {
                    pattern(b, n * f.unit, (int)(i % BG)); u8 keep = b[pos * f.unit + sub]; u64 seen[256];
                    for (int x = 0; x < 256; x++) {
                        b[pos * f.unit + sub] = (u8)x; int p = x & 1 ? 0 : 2 + (x * 5 + (int)pos) % OFFS;
                        u64 got = probe(f, b, n, p); seen[x] = got;
                        if (f.ref || x % 16 == 0) { u64 want = value(f, b, n); if (got != want) MC_FAIL(c, i, "%s [%s] of \"%s\" (length %zu) is %llx, expected %llx", f.name, MC_VAR, text(b, n * f.unit).c_str(), n, (unsigned long long)got, (unsigned long long)want); }
                        cnt++;
                    }
                    b[pos * f.unit + sub] = keep;
                    if (f.every) { std::sort(seen, seen + 256); for (int x = 1; x < 256; x++) if (seen[x] == seen[x - 1]) MC_FAIL(c, i, "%s [%s] of a text of length %zu does not depend on all of byte %zu", f.name, MC_VAR, n, pos); }
                }
            }
            c.count("hash evaluations", cnt); return cnt;
        }, 4, [=](u64 i) { const Fn & f = fns()[i / (L * L * BG)]; return std::string(f.name) + ", length " + std::to_string(i / (L * BG) % L) + ", all values of character " + std::to_string(i / BG % L); });
    }
}
Registrar r1(reg);

// ---- hasher objects: equal keys hash equally, whatever type holds them --------
template <class CT> struct Held {
    typedef std::basic_string<CT> S; typedef jstd::basic_string_view<CT> V; typedef jstd::basic_string_view<CT, jstd::char_traits<CT>> W;
    CT * at;                                                     // the text, ended by a zero, in front of a guard page
    S s, t; size_t n;
    Held(const u8 * b, size_t n_, size_t off) : n(n_) {
        char * e = mem().hi - sizeof(CT) - off * sizeof(CT) - n * sizeof(CT); memset(e, 0x5a, mem().hi - e); memcpy(e, b, n * sizeof(CT)); memset(e + n * sizeof(CT), 0, sizeof(CT)); at = (CT *)e;
        s.assign(at, n); t.reserve(77 + n); t.append(at, n);
    }
};
template <class CT, size_t ID> u64 objects(Ctx & c, u64 idx, const u8 * b, size_t n, const char * id) {
    bool zero = false; std::vector<CT> txt(n); memcpy(txt.data(), b, n * sizeof(CT)); for (CT x : txt) zero |= x == 0;
    Held<CT> h(b, n, 0); typedef typename Held<CT>::S S; typedef typename Held<CT>::V V; typedef typename Held<CT>::W W;
    struct R { const char * what; u32 v; } r[24]; int k = 0;
    auto put = [&](const char * w, u32 v) { r[k++] = { w, v }; };
    put("string", jstd::hash<S, u32, ID>()(h.s)); put("string with room", jstd::hash<S, u32, ID>()(h.t)); put("const string", jstd::hash<const S, u32, ID>()(h.s));
    put("string_view", jstd::hash<V, u32, ID>()(V(h.at, n))); put("string_view of a string", jstd::hash<V, u32, ID>()(V(h.s)));
    put("string_view with char_traits", jstd::hash<W, u32, ID>()(W(h.at, n)));
    put("helper(string)", jstd::hash_helper<S, u32, ID>::getHashCode(h.t));
    put("helper(char *, length)", jstd::hash_helper<CT *, u32, ID>::getHashCode(h.at, n)); put("helper(const char *, length)", jstd::hash_helper<const CT *, u32, ID>::getHashCode(h.at, n));
    if (n == 0) { put("string_view without data", jstd::hash<V, u32, ID>()(V())); put("view without data", jstd::hash<W, u32, ID>()(W())); }
    if (!zero) { put("helper(char *)", jstd::hash_helper<CT *, u32, ID>::getHashCode(h.at)); put("helper(const char *)", jstd::hash_helper<const CT *, u32, ID>::getHashCode(h.at)); }
    Held<CT> g(b, n, 3); put("string_view elsewhere", jstd::hash<V, u32, ID>()(V(g.at, n)));
    u32 want;
    if (ID == jstd::HashFunc_CRC32C) {
#ifdef __SSE4_2__
        want = crc_pad(b, n * sizeof(CT), 8);
#else
        want = ref_poly<char>(b, n * sizeof(CT), 31);
#endif
    } else want = ref_poly<char>(b, n * sizeof(CT), 31);
    for (int i = 0; i < k; i++) if (r[i].v != want) MC_FAIL(c, idx, "jstd::hash<%s> [%s] of \"%s\" (%zu characters of %zu bytes) is %x as %s, expected %x", id, MC_VAR, text(b, n * sizeof(CT)).c_str(), n, sizeof(CT), r[i].v, r[i].what, want);
    return k;
}
template <class CT> u64 all_ids(Ctx & c, u64 idx, const u8 * b, size_t n) {
    return objects<CT, jstd::HashFunc_CRC32C>(c, idx, b, n, "CRC32C") + objects<CT, jstd::HashFunc_Time31>(c, idx, b, n, "Time31") + objects<CT, jstd::HashFunc_Time31Std>(c, idx, b, n, "Time31Std");
}
struct Pod { u32 a, b; u64 c; bool operator==(const Pod & o) const { return a == o.a && b == o.b && c == o.c; } };
template <size_t ID> void scalars(Ctx & c, u64 idx, u64 x) {
#define INTEGER(T) { T v = (T)x; volatile T w = v; u32 h = jstd::hash<T, u32, ID>()(v); if (h != (u32)v || jstd::hash<T, u32, ID>()(w) != h || jstd::hash<const T, u32, ID>()(v) != h) MC_FAIL(c, idx, "jstd::hash<" #T ", %d> [%s] of %lld is %x", (int)ID, MC_VAR, (long long)v, h); }
    INTEGER(bool) INTEGER(char) INTEGER(signed char) INTEGER(unsigned char) INTEGER(short) INTEGER(unsigned short) INTEGER(wchar_t) INTEGER(int) INTEGER(unsigned int) INTEGER(long) INTEGER(unsigned long) INTEGER(long long) INTEGER(unsigned long long)
    { // equal numbers hash equally (zero has two representations)
        double d; memcpy(&d, &x, 8); float f; u32 y = (u32)x; memcpy(&f, &y, 4);
        double e = d == 0 ? -d : d; float g = f == 0 ? -f : f;
        if (jstd::hash<double, u32, ID>()(d) != jstd::hash<double, u32, ID>()(e)) MC_FAIL(c, idx, "jstd::hash<double, %d> [%s]: %g and %g are equal but hash differently", (int)ID, MC_VAR, d, e);
        if (jstd::hash<float, u32, ID>()(f) != jstd::hash<float, u32, ID>()(g)) MC_FAIL(c, idx, "jstd::hash<float, %d> [%s]: %g and %g are equal but hash differently", (int)ID, MC_VAR, f, g);
    }
    Pod p = { (u32)x, (u32)(x >> 32), ~x }; Pod two[2] = { { 1, 2, 3 }, p };
    if (jstd::hash<Pod, u32, ID>()(p) != jstd::hash<Pod, u32, ID>()(two[1])) MC_FAIL(c, idx, "jstd::hash of a structure [%s] depends on where it is", MC_VAR);
    const Pod * q = &two[1]; Pod * q2 = &two[1]; u32 before = jstd::hash_helper<Pod *, u32, ID>::getHashCode(q);
    two[1].a ^= 0x55; two[1].c++;
    if (jstd::hash_helper<Pod *, u32, ID>::getHashCode(q2) != before) MC_FAIL(c, idx, "jstd::hash of a pointer [%s] depends on what it points to", MC_VAR);
}
void reg2() {
    static const u8 al[5] = { 0, 'a', 0x7f, 0x80, 0xff }; const int N = thorough() ? 8 : 6; u64 tot = 1; for (int i = 0; i < N; i++) tot *= 5;
    add_range(std::string("types/") + MC_VAR, tot * (N + 1), 256, 8, [=](Ctx & c, u64 lo, u64 hi) {
        u8 b[64]; u64 cnt = 0;
        for (u64 i = lo; i < hi; i++) {
            size_t n = i % (N + 1); u64 x = i / (N + 1); for (size_t q = 0; q < n; q++) { b[q] = al[x % 5]; x /= 5; } if (x) continue;
            cnt += all_ids<char>(c, i, b, n);
            wchar_t w[16]; for (size_t q = 0; q < n; q++) w[q] = b[q] == 0xff ? (wchar_t)0x80000000u : b[q] == 0x80 ? 0x100 : b[q];
            cnt += all_ids<wchar_t>(c, i, (const u8 *)w, n);
        }
        c.count("hash evaluations", cnt); return cnt;
    }, 3, [=](u64 i) { return "text " + std::to_string(i / (N + 1)) + " of length " + std::to_string(i % (N + 1)) + " as every string type"; });
    const u64 L = thorough() ? 700 : 200;
    add_range(std::string("types-long/") + MC_VAR, L * 4, 8, 4, [=](Ctx & c, u64 lo, u64 hi) {
        u8 b[4 * 704]; u64 cnt = 0;
        for (u64 i = lo; i < hi; i++) { size_t n = i / 4; pattern(b, 4 * n, (int)(i % 4)); cnt += all_ids<char>(c, i, b, n) + all_ids<wchar_t>(c, i, b, n); }
        c.count("hash evaluations", cnt); return cnt;
    }, 2);
    std::vector<u64> xs; std::set<u64> u; for (int a = 0; a < 64; a++) for (int b = 0; b < 64; b++) for (int d = -1; d <= 1; d++) { u64 w = (1ull << a | 1ull << b) + d; u.insert(w); u.insert(~w); } for (u64 w = 0; w < 70000; w++) { u.insert(w); u.insert(w << 16); u.insert(w << 48); }
    xs.assign(u.begin(), u.end());
    add_range(std::string("scalars/") + MC_VAR, xs.size(), 512, 4, [xs](Ctx & c, u64 lo, u64 hi) {
        for (u64 i = lo; i < hi; i++) { scalars<jstd::HashFunc_CRC32C>(c, i, xs[i]); scalars<jstd::HashFunc_Time31>(c, i, xs[i]); scalars<jstd::HashFunc_Time31Std>(c, i, xs[i]); }
        c.count("hash evaluations", (hi - lo) * 3 * 46); return hi - lo;
    }, 2);
}
Registrar r2(reg2);
} // namespace
