// Large tables with ordinary hashers: every program of whole-container operations up to a depth from every
// size at which the table grows. MC_SET: 1 every operation, 5 erasures, 6 copies and moves, 7 capacity, 11 churn.
#include <jstd/basic/stddef.h>
#include <climits>
#include <iostream>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
#include <unistd.h>
#include <sys/wait.h>
#include "types.h"
#if defined(MC_ROBIN)
#include <jstd/hashmap/robin_hash_map.h>
#define KINDNAME "robin"
#elif defined(MC_G15)
#include <jstd/hashmap/group15_flat_map.hpp>
#define KINDNAME "g15"
#elif defined(MC_G16)
#include <jstd/hashmap/group16_flat_map.hpp>
#define KINDNAME "g16"
#elif defined(MC_F16)
#include <jstd/hashmap/flat16_hash_map.h>
#define KINDNAME "flat16"
#else
#include <jstd/hashmap/robin16_hash_map.h>
#define KINDNAME "robin16"
#endif
#if defined(MC_F16) || defined(MC_R16)
#define LEGACY 1
#else
#define LEGACY 0
#endif
using namespace mc;
namespace {
#ifdef MC_ROBIN
static const bool kRobin = true;
#else
static const bool kRobin = false;
#endif
#if defined(MC_G15) || defined(MC_G16)
static const bool kGroup = true;
#else
static const bool kGroup = false;
#endif

template <class T> struct LA : TAlloc<T, 0> {
    using TAlloc<T, 0>::TAlloc;
    LA() = default;
    template <class U> LA(const LA<U> & o) noexcept : TAlloc<T, 0>(o.arena) {}
    template <class U> struct rebind { using other = LA<U>; };
    LA select_on_container_copy_construction() const { return *this; }
    template <class U, class... A> void construct(U * p, A &&... a) { ::new ((void *)p) U(std::forward<A>(a)...); }
    template <class U> void destroy(U * p) { p->~U(); }
};

// an element whose living objects are counted and whose contents tell whether it is alive
static long g_live = 0;
template <int W> struct Cnt {
    uint32_t id, tag[W];
    void set(uint32_t i) { id = i; for (auto & t : tag) t = ~i; }
    void use() const { for (auto t : tag) if (t != ~id) { bad("an element is used that does not exist"); return; } }
    Cnt(uint32_t i = 0) { set(i); g_live++; }
    Cnt(const Cnt & o) { o.use(); set(o.id); g_live++; }
    Cnt(Cnt && o) noexcept { o.use(); set(o.id); o.set(0x7FFFFFFF); g_live++; }
    Cnt & operator=(const Cnt & o) { use(); o.use(); set(o.id); return *this; }
    Cnt & operator=(Cnt && o) noexcept { use(); o.use(); uint32_t i = o.id; if (this != &o) o.set(0x7FFFFFFF); set(i); return *this; }
    ~Cnt() { use(); g_live--; id = 0xDDDDDDDD; for (auto & t : tag) t = 0; }
    friend bool operator==(const Cnt & a, const Cnt & b) { a.use(); b.use(); return a.id == b.id; }
};
template <int W> struct CntHash {
    typedef size_t result_type; typedef Cnt<W> argument_type;
    size_t operator()(const Cnt<W> & k) const noexcept { k.use(); return (size_t)(k.id * 0x9E3779B97F4A7C15ull); }
};
// a hasher with a 32-bit result
struct Hash32 { typedef size_t result_type; typedef uint32_t argument_type; uint32_t operator()(uint32_t k) const noexcept { return k * 2654435761u; } };

static uint64_t rev64(uint64_t x) { uint64_t r = 0; for (int b = 0; b < 64; b++) if (x >> b & 1) r |= 1ull << (63 - b); return r; }
static std::string text(uint32_t i) { std::string s = "key" + std::to_string(i); if (i % 3 == 0) s += "/a rather long text that needs memory of its own"; return s; }

// part: key and mapped type, hasher; key streams
template <int P> struct Part;
template <> struct Part<0> {
    using K = int; using V = int; using H = std::hash<int>; static const char * name() { return "int"; }
    static int streams() { return kRobin || LEGACY ? 3 : 5; } static uint32_t max_id() { return 1u << 22; }
    static K key(int s, uint32_t i) { switch (s) { case 0: return (int)i; case 1: return -(int)i - 1; case 2: return (int)(i * 2654435761u); case 3: return (int)(i << 12); default: return (int)(i * 16 + 7); } }
    static V val(uint32_t i, uint32_t w) { return (int)(i * 8 + w); }
};
template <> struct Part<1> {
    using K = uint64_t; using V = uint64_t; using H = std::hash<uint64_t>; static const char * name() { return "uint64"; }
    static int streams() { return kRobin || LEGACY ? 2 : 5; } static uint32_t max_id() { return 1u << 20; }
    static K key(int s, uint32_t i) { switch (s) { case 0: return ~(uint64_t)i; case 1: return i * 0x9E3779B97F4A7C15ull; case 2: return (uint64_t)i << 32; case 3: return (uint64_t)i << 44; default: return rev64(i); } }
    static V val(uint32_t i, uint32_t w) { return ((uint64_t)i << 20) + w; }
};
template <> struct Part<2> {
    using K = std::string; using V = std::string; using H = std::hash<std::string>; static const char * name() { return "string"; }
    static int streams() { return 1; } static uint32_t max_id() { return 1u << 18; }
    static K key(int, uint32_t i) { return text(i); }
    static V val(uint32_t i, uint32_t w) { return w ? text(i * 8 + w) : std::string(); }
};
template <> struct Part<3> {
    using K = uint16_t; using V = uint8_t; using H = std::hash<uint16_t>; static const char * name() { return "uint16"; }
    static int streams() { return 2; } static uint32_t max_id() { return 65536; }
    static K key(int s, uint32_t i) { return s ? (uint16_t)(65535 - i) : (uint16_t)i; }
    static V val(uint32_t i, uint32_t w) { return (uint8_t)(i * 8 + w); }
};
template <> struct Part<4> {
    using K = Cnt<1>; using V = Cnt<1>; using H = CntHash<1>; static const char * name() { return "counted"; }
    static int streams() { return 1; } static uint32_t max_id() { return 1u << 18; }
    static K key(int, uint32_t i) { return K(i + 1); }
    static V val(uint32_t i, uint32_t w) { return V(i * 8 + w); }
};
template <> struct Part<5> {
    using K = Cnt<9>; using V = Cnt<15>; using H = CntHash<9>; static const char * name() { return "counted-big"; }
    static int streams() { return 1; } static uint32_t max_id() { return 1u << 18; }
    static K key(int, uint32_t i) { return K(i + 1); }
    static V val(uint32_t i, uint32_t w) { return V(i * 8 + w); }
};
template <> struct Part<6> {
    using K = uint32_t; using V = double; using H = Hash32; static const char * name() { return "hash32"; }
    static int streams() { return 2; } static uint32_t max_id() { return 1u << 18; }
    static K key(int s, uint32_t i) { return s ? 0xFFFFFFFFu - i : i; }
    static V val(uint32_t i, uint32_t w) { return i * 8.0 + w; }
};

// a hasher and a comparison with a state: every map is made with its own, a default-made one is never to be used
static bool g_default_ok = false;
struct SH { typedef size_t result_type; typedef uint32_t argument_type; uint32_t seed; explicit SH(uint32_t s = 0) : seed(s) {} size_t operator()(uint32_t k) const noexcept { if (!seed && !g_default_ok) bad("a hasher is used that the map was not given"); return (size_t)((k ^ seed * 77) * 0x9E3779B97F4A7C15ull); } };
struct SE { uint32_t seed; explicit SE(uint32_t s = 0) : seed(s) {} bool operator()(uint32_t a, uint32_t b) const noexcept { if (!seed && !g_default_ok) bad("a comparison is used that the map was not given"); return a == b; } };
template <> struct Part<7> {
    using K = uint32_t; using V = uint32_t; using H = SH; static const char * name() { return "stateful"; }
    static int streams() { return 1; } static uint32_t max_id() { return 1u << 18; }
    static K key(int, uint32_t i) { return i * 3; }
    static V val(uint32_t i, uint32_t w) { return i * 16 + w; }
};
template <class H> struct Eq { template <class K> using For = std::equal_to<K>; static const bool state = false; };
template <> struct Eq<SH> { template <class K> using For = SE; static const bool state = true; };

typedef Part<MC_PART> PT; typedef Eq<PT::H>::For<PT::K> E;
typedef PT::K K; typedef PT::V V; typedef std::pair<K, V> PV;
typedef std::pair<const K, V> KV;
#if LEGACY
typedef LA<PV> A;
#else
typedef TAlloc<KV, 0> A;
#endif
#if defined(MC_ROBIN)
typedef jstd::robin_hash_map<K, V, PT::H, E, jstd::default_layout_policy<K, V>, A> M;
#elif defined(MC_G15)
typedef jstd::group15_flat_map<K, V, PT::H, E, A> M;
#elif defined(MC_G16)
typedef jstd::group16_flat_map<K, V, PT::H, E, A> M;
#elif defined(MC_F16)
typedef jstd::flat16_hash_map<K, V, PT::H, E, A> M;
#else
typedef jstd::robin16_hash_map<K, V, PT::H, E, A> M;
#endif

// a new map with the state of the given number
template <bool S> struct Made { static M * get(int, A al) { return new M(al); } template <class It> static M * range(It f, It l, int) { return new M(f, l); } static int is(const M &) { return 0; } };
template <> struct Made<true> {
    template <class T = M> static T * get(int q, A al) { return new T(8, typename T::hasher(q), typename T::key_equal(q), al); }
    template <class It, class T = M> static T * range(It f, It l, int q) { return new T(f, l, 8, typename T::hasher(q), typename T::key_equal(q), A(0)); }
    template <class T = M> static int is(const T & m) { int h = (int)const_cast<T &>(m).hash_function().seed, e = (int)const_cast<T &>(m).key_eq().seed; return h == e ? h : -1; }
};
typedef Made<Eq<PT::H>::state> Mk;

enum { W_NONE, W_ER_KEY, W_ER_WALK, W_ER_IF, W_ER_HALF, W_REFILL, W_MORE, W_ASSIGN, W_COPY, W_CASSIGN, W_MOVE, W_MASSIGN, W_SWAP, W_SHRINK, W_RESERVE, W_CLEAR0, W_CLEAR1,
       W_CHURN, W_AGAIN, W_INDEX, W_TRY, W_RANGE, W_COPYA, W_MOVEA, W_REHASH, W_PROMISE, W_LONG, W_COUNT };
static const char * wname[] = { "none", "erase by key", "erase walking", "erase_if", "erase half as a range", "insert all missing", "insert more", "insert_or_assign all", "copy", "copy assignment", "move", "move assignment", "swap", "shrink_to_fit", "reserve(2n)", "clear", "clear(true)",
       "churn", "insert all again", "operator[] on all", "try_emplace on all", "construct from the range", "copy to another allocator", "move to another allocator", "rehash(n)", "reserve(n) and fill", "long churn" };

struct Mod { std::vector<uint8_t> w; size_t n = 0; int own = 0; };       // 0 absent, else version
struct Lab {
    static const uint8_t kV0 = 9;                              // "value made by operator[]"
    int st; uint32_t N, top;                                  // ids below top are used
    std::unique_ptr<M> a, b; Mod da, db; uint32_t base = 0;   // base: first id of the moving window
    const char * opname = "";
    std::vector<K> keys;
    Lab(int s, uint32_t n) : st(s), N(n) {
        top = std::min<uint32_t>(PT::max_id(), 2 * n + 40); da.w.assign(top, 0); db.w.assign(top, 0);
        keys.reserve(top); for (uint32_t i = 0; i < top; i++) keys.push_back(PT::key(s, i));
        a.reset(Mk::get(1, A(0))); b.reset(Mk::get(2, A(0))); da.own = 1; db.own = 2;
        for (uint32_t i = 0; i < 5 && i < top; i++) put(*b, db, i, 5);
    }
    V val(uint32_t i, uint8_t w) const { return w == kV0 ? V() : PT::val(i, w); }
    void put(M & m, Mod & d, uint32_t i, uint8_t w) {
        auto r = m.emplace(keys[i], PT::val(i, w)); const bool had = d.w[i];
        if (!had) { d.w[i] = w; d.n++; }
        if (r.second == had || !(r.first->first == keys[i]) || !(r.first->second == val(i, d.w[i]))) bad("%s: emplace of key %u: wrong result", opname, i);
    }
    void del(M & m, Mod & d, uint32_t i) { const bool had = d.w[i]; if (m.erase(keys[i]) != (had ? 1u : 0u)) bad("%s: erase of key %u: wrong result", opname, i); if (had) { d.w[i] = 0; d.n--; } }
    // the id of a stored key
    uint32_t id_of(const K & k) const { auto it = idx.find(k); return it == idx.end() ? ~0u : it->second; }
    static size_t kh(uint64_t k) { return (size_t)(k * 0xC2B2AE3D27D4EB4Full >> 20); }
    static size_t kh(const std::string & k) { return std::hash<std::string>()(k); }
    template <int W> static size_t kh(const Cnt<W> & k) { return k.id; }
    // (an index of our own: open addressing over the ids)
    struct Index { std::vector<uint32_t> t; size_t mask = 0; const std::vector<K> * ks = nullptr;
        void build(const std::vector<K> & k) { ks = &k; size_t c = 16; while (c < k.size() * 2) c *= 2; mask = c - 1; t.assign(c, ~0u); for (uint32_t i = 0; i < k.size(); i++) { size_t p = kh(k[i]) & mask; while (t[p] != ~0u) p = (p + 1) & mask; t[p] = i; } }
        struct It { uint32_t second; const It * operator->() const { return this; } bool operator==(const It & o) const { return second == o.second; } };
        It find(const K & k) const { size_t p = kh(k) & mask; while (t[p] != ~0u) { if ((*ks)[t[p]] == k) return { t[p] }; p = (p + 1) & mask; } return { ~0u }; }
        It end() const { return { ~0u }; } } idx;
    void verify(M & m, Mod & d, const char * which) {
        if (g_bad) return;
        const M & c = m;
        if (Eq<PT::H>::state && d.own >= 0 && Mk::is(c) != d.own) { bad("%s: %s has the hasher and comparison of number %d, expected %d", opname, which, Mk::is(c), d.own); return; }
        if (c.size() != d.n || c.empty() != (d.n == 0)) { bad("%s: %s holds %zu elements, expected %zu", opname, which, (size_t)c.size(), d.n); return; }
        size_t n = 0; std::vector<uint8_t> seen(top, 0);
        for (auto it = c.begin(); it != c.end(); ++it) {
            if (++n > d.n) { bad("%s: iteration of %s shows more than %zu elements", opname, which, d.n); return; }
            uint32_t i = id_of(it->first);
            if (i == ~0u || !d.w[i]) { bad("%s: iteration of %s shows an element that was not inserted", opname, which); return; }
            if (seen[i]++) { bad("%s: iteration of %s shows key %u twice", opname, which, i); return; }
            if (!(it->second == val(i, d.w[i]))) { bad("%s: %s has a wrong value for key %u", opname, which, i); return; }
        }
        if (n != d.n) { bad("%s: iteration of %s shows %zu of %zu elements", opname, which, n, d.n); return; }
        for (uint32_t i = 0; i < top; i++) {
            auto it = m.find(keys[i]); const bool f = it != m.end();
            if (f != (d.w[i] != 0)) { bad("%s: %s key %u is %s", opname, which, i, f ? "found although it is absent" : "not found"); return; }
            if (f && (!(it->first == keys[i]) || !(it->second == val(i, d.w[i])))) { bad("%s: %s finds another element for key %u", opname, which, i); return; }
            if ((i & 7) == 0 && (c.contains(keys[i]) != f || c.count(keys[i]) != (f ? 1u : 0u))) { bad("%s: %s contains/count of key %u is wrong", opname, which, i); return; }
        }
        if (d.n && (c.capacity() < d.n || !(c.load_factor() <= 1.0f))) bad("%s: %s has capacity %zu for %zu elements", opname, which, (size_t)c.capacity(), d.n);
        size_t p = 64; while (p < 2 * (size_t)N + 80) p *= 2;
        if (c.capacity() > 16 * p) bad("%s: %s has capacity %zu for at most %u elements", opname, which, (size_t)c.capacity(), 2 * N + 40);
    }
    bool exec(int o) {
        opname = wname[o]; M & m = *a; Mod & d = da;
        switch (o) {
        case W_ER_KEY: for (uint32_t i = 0; i < top; i += 3) del(m, d, i); break;
        case W_ER_WALK: { size_t n = d.n, steps = 0; for (auto it = m.begin(); it != m.end();) { if (++steps > 4 * n + 8) { bad("%s does not end", opname); break; } uint32_t i = id_of(it->first); if (i == ~0u) { bad("%s: a foreign element", opname); break; } if (i & 1) { it = m.erase(it); if (!d.w[i]) { bad("%s: key %u shown although it was erased", opname, i); break; } d.w[i] = 0; d.n--; } else ++it; } } break;
        case W_ER_IF: {
            size_t r = 0, n = d.n; Lab * L = this; auto pred = [L](const auto & e) { uint32_t i = L->id_of(e.first); return i != ~0u && i % 5 < 2; };
#if LEGACY
            r = erase_if(m, pred);
#else
            r = std::erase_if(m, pred);
#endif
             for (uint32_t i = 0; i < top; i++) if (i % 5 < 2 && d.w[i]) { d.w[i] = 0; d.n--; }
            if (r != n - d.n) bad("erase_if reports %zu, expected %zu", r, n - d.n);
        } break;
        case W_ER_HALF: { size_t h = d.n / 2, q = 0; auto f = m.begin(), l = f; std::vector<uint32_t> gone; for (; q < h && l != m.end(); ++l, q++) gone.push_back(id_of(l->first)); if (l == m.end()) break;
            const K next = l->first; m.erase(f, l); for (uint32_t i : gone) if (i != ~0u && d.w[i]) { d.w[i] = 0; d.n--; } (void)next; } break;
        case W_REFILL: for (uint32_t i = 0; i < N && i < top; i++) if (!d.w[i]) put(m, d, i, 2); break;
        case W_MORE: for (uint32_t i = N; i < top && i < N + N / 2 + 8; i++) put(m, d, i, 1); break;
        case W_ASSIGN: for (uint32_t i = 0; i < top; i++) if (d.w[i]) { auto r = m.insert_or_assign(keys[i], PT::val(i, 3)); d.w[i] = 3; if (r.second || !(r.first->second == PT::val(i, 3))) bad("%s: key %u: wrong result", opname, i); } break;
        case W_COPY: { std::unique_ptr<M> t(new M(*a)); b = std::move(a); a = std::move(t); db = da; } break;
        case W_COPYA: { std::unique_ptr<M> t(new M(*a, A(3))); if (t->get_allocator().arena != 3) bad("%s: wrong allocator", opname); b = std::move(a); a = std::move(t); db = da; } break;
        case W_MOVE: { std::unique_ptr<M> t(new M(std::move(*a))); if (LEGACY) a.reset(Mk::get(3, A(0))); else a->clear(); b = std::move(a); a = std::move(t); db.w.assign(top, 0); db.n = 0; db.own = LEGACY ? 3 : -2; } break;
        case W_SWAP: if (a->get_allocator().arena != b->get_allocator().arena) break; a->swap(*b); std::swap(da, db); if (da.n == 0) { a.swap(b); std::swap(da, db); } break;
#if !LEGACY
        case W_CASSIGN: *b = *a; db = da; break;
        case W_MASSIGN: *b = std::move(*a); a->clear(); std::swap(a, b); db.w.assign(top, 0); db.n = 0; db.own = -2; break;
        case W_MOVEA: { std::unique_ptr<M> t(new M(std::move(*a), A(4))); a->clear(); b = std::move(a); a = std::move(t); db.w.assign(top, 0); db.n = 0; db.own = -2; } break;
#endif
        case W_SHRINK: m.shrink_to_fit(); break;
        case W_RESERVE: m.reserve(2 * d.n); break;
        case W_REHASH: m.rehash(d.n); break;
        case W_CLEAR0: m.clear(); d.w.assign(top, 0); d.n = 0; break;
        case W_CLEAR1: m.clear(true); d.w.assign(top, 0); d.n = 0; break;
        case W_CHURN: case W_LONG: { uint32_t steps = o == W_LONG ? 6 * N : N / 2 + 5; size_t cap0 = m.capacity(); (void)cap0;
            // the oldest goes, a new one comes: the number of elements stays
            for (uint32_t q = 0; q < steps && d.n; q++) { while (!d.w[base]) base = (base + 1) % top; uint32_t i = base; del(m, d, i); uint32_t j = (base + N) % top; for (uint32_t t = 0; d.w[j] && t < top; t++) j = (j + 1) % top; put(m, d, j, 4); if (g_bad) break; }
        } break;
        case W_AGAIN: for (uint32_t i = 0; i < N && i < top; i++) put(m, d, i, 6); break;
        case W_INDEX: for (uint32_t i = 0; i < top && i < N + 16; i++) { V & v = m[keys[i]]; if (!d.w[i]) { d.w[i] = kV0; d.n++; } if (!(v == val(i, d.w[i]))) bad("%s: wrong value for key %u", opname, i); } break;
        case W_TRY: for (uint32_t i = 0; i < top && i < N + 16; i++) { auto r = m.try_emplace(keys[i], PT::val(i, 7)); const bool had = d.w[i]; if (!had) { d.w[i] = 7; d.n++; } if (r.second == had || !(r.first->second == val(i, d.w[i]))) bad("%s: key %u: wrong result", opname, i); } break;
        case W_RANGE: { std::unique_ptr<M> t(Mk::range(a->begin(), a->end(), 4)); b = std::move(a); a = std::move(t); db = da; da.own = 4; } break;
        case W_PROMISE: { // after reserve(n) no allocation happens until there are n elements
            uint32_t goal = std::min<uint32_t>(top, (uint32_t)d.n + N / 2 + 3); m.reserve(goal); uint64_t al = g_allocs; std::vector<const void *> where;
            if (kGroup) for (uint32_t i = 0; i < top; i++) where.push_back(d.w[i] ? (const void *)&m.find(keys[i])->second : nullptr);
            std::vector<uint8_t> before = d.w;
            for (uint32_t i = 0; i < top && d.n < goal; i++) if (!d.w[i]) put(m, d, i, 2);
            if (kGroup || (MC_PART == 0 && kRobin && st == 0)) if (g_allocs != al) bad("%s: inserting up to the reserved number allocated memory", opname);
            if (kGroup && !g_bad) for (uint32_t i = 0; i < top; i++) if (before[i] && (const void *)&m.find(keys[i])->second != where[i]) { bad("%s: an element was moved", opname); break; }
        } break;
        default: return false;
        }
        if (g_bad) return true;
        verify(*a, da, "the map"); verify(*b, db, "the other map");
        return true;
    }
    void done() { a.reset(); b.reset(); keys.clear(); keys.shrink_to_fit(); idx.t.clear(); if (!g_blocks.empty()) bad("%zu blocks not returned", g_blocks.size()); if (g_live) bad("%ld elements are still alive", g_live); }
};
// sizes around each growth of the table, found out in a child process: the tree under test may be broken
static std::vector<uint32_t> sizes(int st, uint32_t limit) {
    std::vector<uint32_t> r; int fd[2]; if (pipe(fd)) abort();
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); alarm(30); if (!freopen("/dev/null", "w", stderr)) _exit(2);
        g_bytes_cap = 1u << 30; uint32_t n = 0;
        { g_default_ok = true; M m(A(0)); size_t cap = m.capacity();
          for (uint32_t i = 0; i < limit && i < PT::max_id() / 2; i++) { m.emplace(PT::key(st, i), PT::val(i, 1)); if (m.capacity() != cap) { cap = m.capacity(); if (i > 2) { uint32_t w[1] = { i }; if (n++ < 40) if (write(fd[1], w, 4) != 4) _exit(2); } } }
          uint32_t end = ~0u; if (n >= 40 || g_bad || write(fd[1], &end, 4) != 4) _exit(2); _exit(0); }
    }
    close(fd[1]); uint32_t w; bool ok = false; while (read(fd[0], &w, 4) == 4) { if (w == ~0u) { ok = true; break; } r.push_back(w); r.push_back(w + 1); }
    close(fd[0]); int status; waitpid(pid, &status, 0);
    if (!ok) { r.clear(); for (uint32_t p = 4; p < limit && p < PT::max_id() / 2; p *= 2) { r.push_back(p); r.push_back(p + p / 2 + 1); } }
    return r;
}
static bool run_case(Ctx & c, const std::vector<int64_t> & d) {
    g_bytes_cap = 3u << 30; g_allocs = 0;
    { Lab L((int)d[0], (uint32_t)d[1]); L.idx.build(L.keys); L.opname = "fill";
      for (uint32_t i = 0; i < L.N && i < L.top; i++) L.put(*L.a, L.da, i, 1);
      if (!g_bad) L.verify(*L.a, L.da, "the map");
      for (size_t q = 2; q < d.size() && !g_bad; q++) { L.exec((int)d[q]); c.add_transitions(); }
      if (g_bad) { L.a.release(); L.b.release(); g_blocks.clear(); } else L.done();
    }
    if (g_bad) return false;
    g_live = 0; c.add_execs(); c.add_states(); c.add_nontrivial();
    return true;
}
static void reg() {
    const bool T = thorough();
    std::vector<int> all = { W_ER_KEY, W_ER_WALK, W_ER_IF, W_ER_HALF, W_REFILL, W_MORE, W_ASSIGN, W_COPY, W_MOVE, W_SWAP, W_SHRINK, W_RESERVE, W_CLEAR0, W_CLEAR1, W_CHURN, W_AGAIN, W_INDEX, W_TRY, W_RANGE, W_COPYA, W_REHASH, W_PROMISE };
    if (!LEGACY) for (int o : { W_CASSIGN, W_MASSIGN, W_MOVEA }) all.push_back(o);
#if MC_SET == 1
    std::vector<int> second = all;
#elif MC_SET == 5
    std::vector<int> second = { W_ER_KEY, W_ER_WALK, W_ER_IF, W_ER_HALF };
#elif MC_SET == 6
    std::vector<int> second = { W_COPY, W_MOVE, W_SWAP, W_COPYA, W_CASSIGN, W_MASSIGN, W_MOVEA };
#elif MC_SET == 7
    std::vector<int> second = { W_SHRINK, W_RESERVE, W_REHASH, W_PROMISE, W_CLEAR0 };
#else
    std::vector<int> second = { W_LONG };
#endif
    for (int st = 0; st < PT::streams(); st++) for (int step = 0; step < 22; step++) for (size_t f = 0; f <= all.size(); f++) {
        // small tables: all pairs in one job per growth step; large tables: one job per first operation
        Job j; const int first = f == 0 ? -1 : all[f - 1];
        char nm[120]; snprintf(nm, sizeof nm, KINDNAME "/large/%s/stream%d/growth%02d/%s", PT::name(), st, step, first < 0 ? "each" : wname[first]); j.name = nm;
        const uint32_t pairs = MC_SET == 1 ? T ? 9000 : MC_PART == 0 || MC_PART == 4 ? 500 : 250 : T ? 9000 : 1000;     // programs of two operations up to this size
        const uint32_t singles = T ? 400000 : MC_SET != 1 ? 20000 : MC_PART == 0 || MC_PART == 1 ? 20000 : 5000;
        static std::map<int, std::vector<uint32_t>> memo;        // (streams that meet in few places are slow in the group maps; absent keys are in flat16 after many removals)
        const uint32_t lim = kGroup && MC_PART == 1 && st >= 2 ? T ? 3000 : 600 : MC_SET == 1 && MC_PART == 0 && st == 0 && !T ? LEGACY ? 140000 : 1100000 : LEGACY ? std::min<uint32_t>(singles, 70000) : singles;
        if (!memo.count(st)) { g_bytes_cap = 3u << 30; memo[st] = sizes(st, lim + 8); }
        std::vector<uint32_t> & sz = memo[st]; if ((size_t)step * 2 + 1 >= sz.size()) continue;
        std::vector<uint32_t> n(sz.begin() + 2 * step, sz.begin() + 2 * step + 2);
        if (first >= 0 && n[0] > pairs) continue;
        j.weight = (int)(n[0] / (first < 0 ? 50 : 20) + 1);
        // the largest tables: a few operations, each in its own job
        std::vector<std::vector<int>> parts(1, second);
        if (n[0] > 100000) { parts.clear(); for (int o : second) if (T || n[0] < 200000 || o == W_ER_WALK || o == W_REFILL || o == W_SHRINK || o == W_COPY || o == W_CHURN || o == W_CLEAR0) parts.push_back({ o }); }
        for (auto & ops : parts) {
        if (n[0] > 100000) { j.name = std::string(nm) + "/" + wname[ops[0]]; }
        j.run = [=](Ctx & c) {
            for (uint32_t N : n) for (int o : ops) {
                if (c.out_of_time()) return;
                std::vector<int64_t> d = { st, N }; if (first >= 0) d.push_back(first); d.push_back(o);
                c.begin(d); clear_bad(); run_case(c, d); c.check_bad();
                if (N < 40) c.sample(std::string("N=") + std::to_string(N) + (first >= 0 ? std::string(", ") + wname[first] : "") + ", " + wname[o]);
            }
        };
        j.replay = [](Ctx & c, const std::vector<int64_t> & d) { clear_bad(); return run_case(c, d) && !g_bad; };
        j.show = [](const std::vector<int64_t> & d) { std::string s = std::string(KINDNAME) + " " + PT::name() + " stream " + std::to_string(d[0]) + ", " + std::to_string(d[1]) + " elements"; for (size_t q = 2; q < d.size(); q++) s += std::string(", ") + wname[d[q]]; return s; };
        add_job(j);
        }
    }
}
static Registrar r_(reg);
} // namespace
