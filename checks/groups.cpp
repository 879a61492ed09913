// P15: metadata group matching agrees with a byte-by-byte scan; lane helpers touch exactly their lane.
#include "domain.h"
#include <climits>
#include <jstd/basic/stddef.h>
#include <jstd/support/BitVec.h>
#include <jstd/hashmap/flat_map_group15.hpp>
#include <jstd/hashmap/flat_map_group16.hpp>
#include <type_traits>
using namespace mc;
namespace {
typedef uint8_t u8; typedef uint64_t u64;
// how the two kinds of group are described, byte by byte
struct D15 {
    typedef jstd::group15_meta_ctrl C; typedef jstd::flat_map_group15<C> G; static const int N = 15;
    static const char * name() { return "group15"; }
    static u8 frag(u8 b) { return b; }                      // the part of a metadata byte that is a hash fragment
    static bool used(u8 b) { return b != 0; }
    static int cls(size_t h) { return h % 8; }              // overflow marks are kept per class
    static const int NC = 8;
    static bool marked(const u8 * b, int c) { return b[15] >> c & 1; }
    static void mark(u8 * b, int c) { b[15] |= (u8)(1 << c); }
    static u8 use(u8, u8 f) { return f; }
    static u8 unuse(u8) { return 0; }
    static bool any(const u8 * b) { return b[15] != 0; }
    static bool reserved(u8 f) { return f < 2; }
    static const int NF = 256;
};
struct D16 {
    typedef jstd::group16_meta_ctrl C; typedef jstd::flat_map_group16<C> G; static const int N = 16;
    static const char * name() { return "group16"; }
    static u8 frag(u8 b) { return b & 0x7F; }
    static bool used(u8 b) { return (b & 0x7F) != 0; }
    static int cls(size_t h) { return h % 16; }
    static const int NC = 16;
    static bool marked(const u8 * b, int c) { return b[c] >> 7 & 1; }
    static void mark(u8 * b, int c) { b[c] |= 0x80; }
    static u8 use(u8 b, u8 f) { return (b & 0x80) | f; }
    static u8 unuse(u8 b) { return b & 0x80; }
    static bool any(const u8 * b) { for (int i = 0; i < 16; i++) if (b[i] & 0x80) return true; return false; }
    static bool reserved(u8 f) { return f == 0 || f > 127; }
    static const int NF = 128;
};
template <class D> struct alignas(16) Raw { u8 b[16]; };
std::string hex(const u8 * b) { std::string s; char t[4]; for (int i = 0; i < 16; i++) { snprintf(t, sizeof t, "%02x ", b[i]); s += t; } return s; }
#define WRONG(...) do { char m_[256]; snprintf(m_, sizeof m_, __VA_ARGS__); MC_FAIL(c, idx, "%s [%s]: group bytes %s: %s", D::name(), MC_VAR, hex(b).c_str(), m_); } while (0)
template <class D> typename D::G * grp(Raw<D> & r) { static_assert(sizeof(typename D::G) == 16, "a group is 16 bytes"); return reinterpret_cast<typename D::G *>(&r); }

// every query about one group content against the scan of its bytes; marks set by bits
template <class D> u64 queries(Ctx & c, u64 idx, const u8 * b, const u8 * hs, int nh) {
    Raw<D> r; memcpy(r.b, b, 16); auto * g = grp<D>(r);
    uint32_t used = 0; for (int i = 0; i < D::N; i++) if (D::used(b[i])) used |= 1u << i;
    const uint32_t all = (1u << D::N) - 1;
    if (g->match_empty() != (all & ~used)) WRONG("match_empty %x, scan %x", g->match_empty(), all & ~used);
    if (g->match_used() != used) WRONG("match_used %x, scan %x", g->match_used(), used);
    u64 hits = 0;
    for (int k = 0; k < nh; k++) {
        const size_t h = hs[k]; const u8 f = D::C::reduced_hash(h);
        uint32_t m = 0; for (int i = 0; i < D::N; i++) if (D::frag(b[i]) == f) m |= 1u << i;
        if (g->match_hash(h) != m) WRONG("match_hash(%zu) %x, scan %x", h, g->match_hash(h), m);
        if (g->match_hash(D::G::make_hash_bits(h)) != m) WRONG("match_hash(bits of %zu) %x, scan %x", h, g->match_hash(D::G::make_hash_bits(h)), m);
        hits += m != 0;
    }
    if (memcmp(r.b, b, 16)) WRONG("a query changed the group to %s", hex(r.b).c_str());
    return hits;
}
template <class D> void marks(Ctx & c, u64 idx, const u8 * b) {
    Raw<D> r; memcpy(r.b, b, 16); auto * g = grp<D>(r);
    for (size_t h = 0; h < 64; h++) {
        bool want = D::marked(b, D::cls(h));
        if (g->is_overflow(h) != want || g->is_not_overflow(h) == want) WRONG("is_overflow(%zu) %d, scan %d", h, (int)g->is_overflow(h), (int)want);
    }
    if (g->has_any_overflow() != D::any(b)) WRONG("has_any_overflow %d, scan %d", (int)g->has_any_overflow(), (int)D::any(b));
    for (int i = 0; i < D::N; i++) if (g->is_empty(i) == D::used(b[i]) || g->is_used(i) != D::used(b[i])) WRONG("is_empty/is_used(%d)", i);
}
// every change of one group content
template <class D> void changes(Ctx & c, u64 idx, const u8 * b) {
    for (int i = 0; i < D::N; i++) {
        Raw<D> r; u8 e[16];
        memcpy(r.b, b, 16); memcpy(e, b, 16); grp<D>(r)->set_empty(i); e[i] = D::unuse(b[i]);
        if (memcmp(r.b, e, 16)) WRONG("set_empty(%d) gives %s", i, hex(r.b).c_str());
        for (int h = 0; h < D::NF; h++) {
            const u8 f = D::C::reduced_hash((size_t)h);
            memcpy(r.b, b, 16); memcpy(e, b, 16); grp<D>(r)->set_used(i, f); e[i] = D::use(b[i], f);
            if (memcmp(r.b, e, 16)) WRONG("set_used(%d, %d) gives %s", i, (int)f, hex(r.b).c_str());
        }
    }
    for (size_t h = 0; h < 40; h++) {
        if (D::N == 16 && !D::used(b[D::cls(h)])) continue;   // a mark is only set where all positions are used
        Raw<D> r; u8 e[16];
        memcpy(r.b, b, 16); memcpy(e, b, 16); grp<D>(r)->set_overflow(h); D::mark(e, D::cls(h));
        if (memcmp(r.b, e, 16)) WRONG("set_overflow(%zu) gives %s", h, hex(r.b).c_str());
    }
}
const u8 ALPHA[] = { 0, 1, 2, 7, 8, 9, 0x10, 0x55, 0x7E, 0x7F, 0x80, 0x81, 0x88, 0xAA, 0xFE, 0xFF };
const u8 BACK[] = { 0, 1, 8, 0x7F, 0x80, 0x88, 0xFF, 0x55 };
template <class D> void reg_group() {
    std::string P = std::string(MC_VAR "/") + D::name();
    static u8 allh[256]; for (int i = 0; i < 256; i++) allh[i] = (u8)i;
    // fragments
    add_range(P + "/fragment", 65536, 4096, 1, [](Ctx & c, u64 lo, u64 hi) {
        u8 b[16] = {}; u64 nt = 0;
        for (u64 idx = lo; idx < hi; idx++) {
            // every low byte under every second byte, and with high bytes set
            for (u64 up : { u64(0), u64(0x0123456789AB0000ull), ~u64(0xFFFF) }) {
                size_t h = idx | up; u8 f = D::C::reduced_hash(h);
                if (D::reserved(f)) WRONG("reduced_hash(%zx) is the reserved value %d", h, (int)f);
                Raw<D> x, y; _mm_store_si128((__m128i *)x.b, D::G::make_hash_bits(h)); memset(y.b, f, 16);
                if (memcmp(x.b, y.b, 16)) WRONG("make_hash_bits(%zx) is not 16 times reduced_hash", h);
                nt++;
            }
        }
        return nt;
    });
    // every value at every position over several backgrounds, for every hash
    add_range(P + "/single", 16 * 256 * sizeof BACK, 64, 8, [](Ctx & c, u64 lo, u64 hi) {
        u64 nt = 0;
        for (u64 idx = lo; idx < hi; idx++) {
            u8 b[16]; memset(b, BACK[idx % sizeof BACK], 16); b[idx / sizeof BACK % 16] = (u8)(idx / sizeof BACK / 16);
            nt += queries<D>(c, idx, b, allh, 256); marks<D>(c, idx, b); changes<D>(c, idx, b);
        }
        return nt;
    }, 3);
    // every subset of positions holding one value over another
    const int na = sizeof ALPHA;
    add_range(P + "/subset", u64(65536) * na * na, 65536, 8, [=](Ctx & c, u64 lo, u64 hi) {
        u64 nt = 0;
        for (u64 idx = lo; idx < hi; idx++) {
            int s = (int)(idx & 65535); u8 x = ALPHA[(idx >> 16) % na], y = ALPHA[(idx >> 16) / na];
            u8 b[16]; for (int i = 0; i < 16; i++) b[i] = s >> i & 1 ? x : y;
            u8 hs[] = { x, y, (u8)(x ^ 0x80), (u8)(x + 1), (u8)(y - 1), 0, 1, 8, 9 };
            nt += queries<D>(c, idx, b, hs, 9);
            if ((idx & 7) == 0 || thorough()) marks<D>(c, idx, b);
        }
        return nt;
    }, 6);
    // pairs of positions with every pair of values
    add_range(P + "/pairs", u64(120) * 65536, 4096, 8, [](Ctx & c, u64 lo, u64 hi) {
        static std::vector<std::pair<int, int>> pr; if (pr.empty()) for (int i = 0; i < 16; i++) for (int j = 0; j < i; j++) pr.push_back({ i, j });
        u64 nt = 0;
        for (u64 idx = lo; idx < hi; idx++) {
            u8 x = (u8)idx, y = (u8)(idx >> 8);
            u8 b[16]; memset(b, (u8)(x + y), 16); b[pr[idx >> 16].first] = x; b[pr[idx >> 16].second] = y;
            u8 hs[] = { x, y, (u8)(x + y) }; nt += queries<D>(c, idx, b, hs, 3);
        }
        return nt;
    }, 4);
    // init leaves an empty group without marks, whatever was there
    add_range(P + "/init", 256, 256, 1, [](Ctx & c, u64 lo, u64 hi) {
        for (u64 idx = lo; idx < hi; idx++) {
            Raw<D> r; memset(r.b, (int)idx, 16); grp<D>(r)->init(); u8 b[16] = {};
            for (int i = 0; i < D::N; i++) if (!grp<D>(r)->is_empty(i)) WRONG("position %d is not empty after init", i);
            if (grp<D>(r)->has_any_overflow()) WRONG("marked after init"); 
            queries<D>(c, idx, r.b, allh, 256);
        }
        return hi - lo;
    });
}
#if defined(__AVX2__) && !defined(MC_FALLBACK)
namespace A = jstd::AVX; namespace S = jstd::SSE;
struct D { static const char * name() { return "lanes"; } };
typedef union { __m256i v; uint16_t h[16]; uint32_t w[8]; u64 q[4]; u8 b[32]; } V256;
const u64 Q[] = { 0, 1, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000ull, 0xFFFFFFFFull, 0x123456789ABCDEF0ull, 0x8000000000000000ull, ~u64(0), 0xFEDCBA9876543210ull };
const int NQ = sizeof Q / sizeof *Q;
#define LANE(what, I, got, want) do { u64 g_ = (u64)(got), w_ = (u64)(want); if (g_ != w_) MC_FAIL(c, idx, "%s<%d>: lane is %llx instead of %llx [%s]", what, I, (unsigned long long)g_, (unsigned long long)w_, MC_VAR); } while (0)
template <int I> void lanes16(Ctx & c, u64 idx, const V256 & s, u64 val) {
    LANE("mm256_extract_epi16", I, (uint16_t)A::template mm256_extract_epi16<I>(s.v), s.h[I]);
    V256 o; o.v = A::template mm256_insert_epi16<I>(s.v, (int)val); for (int k = 0; k < 16; k++) LANE("mm256_insert_epi16", I, o.h[k], k == I ? (uint16_t)val : s.h[k]);
}
template <int I> void lanes32(Ctx & c, u64 idx, const V256 & s, u64 val) {
    LANE("mm256_extract_epi32", I, (uint32_t)A::template mm256_extract_epi32<I>(s.v), s.w[I]);
    V256 o; o.v = A::template mm256_insert_epi32<I>(s.v, (int64_t)val); for (int k = 0; k < 8; k++) LANE("mm256_insert_epi32", I, o.w[k], k == I ? (uint32_t)val : s.w[k]);
}
template <int I> void lanes64(Ctx & c, u64 idx, const V256 & s, u64 val) {
    LANE("mm256_extract_epi64", I, A::template mm256_extract_epi64<I>(s.v), s.q[I]);
    V256 o; o.v = A::template mm256_insert_epi64<I>(s.v, (int64_t)val); for (int k = 0; k < 4; k++) LANE("mm256_insert_epi64", I, o.q[k], k == I ? val : s.q[k]);
}
template <int... I> void all16(Ctx & c, u64 i, const V256 & s, u64 v, std::integer_sequence<int, I...>) { int q[] = { (lanes16<I>(c, i, s, v), 0)... }; (void)q; }
template <int... I> void all32(Ctx & c, u64 i, const V256 & s, u64 v, std::integer_sequence<int, I...>) { int q[] = { (lanes32<I>(c, i, s, v), 0)... }; (void)q; }
template <int... I> void all64(Ctx & c, u64 i, const V256 & s, u64 v, std::integer_sequence<int, I...>) { int q[] = { (lanes64<I>(c, i, s, v), 0)... }; (void)q; }
void reg_lanes() {
    // every vector of four 64-bit lanes over the alphabet, every inserted value, every lane
    add_range(MC_VAR "/lanes", u64(NQ) * NQ * NQ * NQ * NQ, 4096, 4, [](Ctx & c, u64 lo, u64 hi) {
        for (u64 idx = lo; idx < hi; idx++) {
            V256 s; u64 k = idx; u64 val = Q[k % NQ]; k /= NQ; for (int i = 0; i < 4; i++) { s.q[i] = Q[k % NQ] ^ (u64(i) * 0x0101010101010101ull); k /= NQ; }
            all16(c, idx, s, val, std::make_integer_sequence<int, 16>()); all32(c, idx, s, val, std::make_integer_sequence<int, 8>()); all64(c, idx, s, val, std::make_integer_sequence<int, 4>());
            LANE("mm256_cvtsi256_si32_low", 0, A::mm256_cvtsi256_si32_low(s.v), s.w[0] & 0xFFFF); LANE("mm256_cvtsi256_si32_high", 0, A::mm256_cvtsi256_si32_high(s.v), s.w[0] >> 16);
            __m128i lo128 = _mm256_castsi256_si128(s.v);
            LANE("mm_cvtsi128_si32_low", 0, S::mm_cvtsi128_si32_low(lo128), s.w[0] & 0xFFFF); LANE("mm_cvtsi128_si32_high", 0, S::mm_cvtsi128_si32_high(lo128), s.w[0] >> 16);
            V256 o; o.v = _mm256_castsi128_si256(S::mm_set1_epi32((int)val)); for (int q = 0; q < 4; q++) LANE("mm_set1_epi32", q, o.w[q], (uint32_t)val);
            o.v = _mm256_castsi128_si256(S::mm_set1_epi64((int64_t)val)); for (int q = 0; q < 2; q++) LANE("mm_set1_epi64", q, o.q[q], val);
            LANE("mm_cvtsi128_si16", 0, jstd::AVX512::mm_cvtsi128_si16(lo128) & 0xFFFF, s.h[0]);
        }
        return hi - lo;
    }, 2);
}
#else
void reg_lanes() {}
#endif
void reg() {
    reg_group<D15>(); reg_group<D16>(); reg_lanes();
}
Registrar r_(reg);
} // namespace
