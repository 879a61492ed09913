// Instrumented element types, hashers, comparison and allocator used to drive the
// real containers. Every observable misuse is reported through mc::bad().
#ifndef MC_TYPES_H
#define MC_TYPES_H
#include "core.h"
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace mc {

// ---- fault points ----------------------------------------------------------
enum FaultKind { F_ALLOC = 0, F_CTOR = 1, F_HASH = 2, F_EQ = 3, F_ASSIGN = 4, F_PRED = 5 };
// an injected failure is either a type of its own (no std::exception) or a std::bad_alloc
struct Fault { int kind; explicit Fault(int k) : kind(k) {} };
struct FaultBA : std::bad_alloc { const char * what() const noexcept override { return "injected"; } };
inline bool g_fba = false;              // throw FaultBA
inline bool g_farmed = false;           // counting / throwing enabled
inline uint32_t g_fmask = 0;            // kinds enabled
inline int64_t g_fleft = -1;            // throw when it reaches zero; < 0: count only
inline uint64_t g_fcount = 0;           // fault points passed
inline int g_flast = -1;                // kind of the fault thrown
inline void fpoint(int kind) {
    if (!g_farmed || !((g_fmask >> kind) & 1)) return;
    g_fcount++;
    if (g_fleft > 0 && --g_fleft == 0) { g_farmed = false; g_flast = kind; if (g_fba) throw FaultBA(); throw Fault(kind); }
}
struct FaultOff { bool old; FaultOff() : old(g_farmed) { g_farmed = false; } ~FaultOff() { g_farmed = old; } };

// ---- registry of live instrumented objects ---------------------------------
struct Registry {
    static const size_t N = 1 << 14;
    uintptr_t t[N];
    size_t live = 0, created = 0;
    Registry() { memset(t, 0, sizeof t); }
    static size_t h(uintptr_t p) { return (size_t)((p >> 2) * 0x9E3779B97F4A7C15ull >> 50); }
    size_t find(uintptr_t p) const { size_t i = h(p); while (t[i] && t[i] != p) i = (i + 1) & (N - 1); return i; }
    bool has(const void * p) const { return t[find((uintptr_t)p)] != 0; }
    bool add(const void * p) {
        size_t i = find((uintptr_t)p);
        if (t[i]) return false;
        t[i] = (uintptr_t)p; live++; created++;
        if (live > N / 2) { fprintf(stderr, "registry overflow: live objects grow without bound\n"); abort(); }
        return true;
    }
    bool del(const void * p) {
        size_t i = find((uintptr_t)p);
        if (!t[i]) return false;
        live--;
        size_t j = i;
        for (;;) {
            j = (j + 1) & (N - 1);
            if (!t[j]) break;
            size_t k = h(t[j]);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            t[i] = t[j]; i = j;
        }
        t[i] = 0;
        return true;
    }
};
inline Registry g_reg;

enum : int32_t { ID_DEAD = (int32_t)0xDDDDDDDD, ID_MOVED = -7777 };

// Bytes: object size (multiple of 4, >= 8). Flags: 1 = not copyable, 2 = member swap, 4 = hides int conversion
template <int Tag, int Bytes, int Flags = 0>
struct Obj {
    int32_t id;
    int32_t pad[Bytes / 4 - 1];
    static constexpr bool kCopy = !(Flags & 1);
    void set(int i) { id = i; for (auto & p : pad) p = i ^ 0x5A5A5A5A; }
    bool sound() const { for (auto & p : pad) if (p != (id ^ 0x5A5A5A5A)) return false; return true; }
    void use(const char * what) const {
        if (!g_reg.has(this)) bad("%s of an object that is not alive (type %d)", what, Tag);
        else if (!sound()) bad("%s of a torn object (type %d)", what, Tag);
    }
    void born() { if (!g_reg.add(this)) bad("construction over a live object (type %d)", Tag); }
    Obj() { fpoint(F_CTOR); set(0); born(); }
    Obj(int i) { fpoint(F_CTOR); set(i); born(); }
    Obj(int i, int j) { fpoint(F_CTOR); set(i + j); born(); }
    Obj(const Obj & o) { o.use("copy"); fpoint(F_CTOR); set(o.id); born(); }
    Obj(Obj && o) noexcept { o.use("move"); set(o.id); born(); if (&o != this) o.set(ID_MOVED); }
    Obj & operator=(const Obj & o) { use("assignment"); o.use("copy-assignment source"); fpoint(F_ASSIGN); set(o.id); return *this; }
    Obj & operator=(Obj && o) noexcept {
        use("assignment"); o.use("move-assignment source");
        if (&o != this) { set(o.id); o.set(ID_MOVED); }
        return *this;
    }
    ~Obj() {
        if (!g_reg.del(this)) bad("destruction of an object that is not alive (type %d)", Tag);
        set(ID_DEAD);
    }
    friend bool operator==(const Obj & a, const Obj & b) { a.use("comparison"); b.use("comparison"); fpoint(F_EQ); return a.id == b.id; }
};
// variants: member swap and move-only
template <int Tag, int Bytes>
struct SObj : Obj<Tag, Bytes> {
    using Obj<Tag, Bytes>::Obj;
    SObj() = default;
    void swap(SObj & o) noexcept { this->use("swap"); o.use("swap"); int a = this->id, b = o.id; this->set(b); o.set(a); }
    friend void swap(SObj & a, SObj & b) noexcept { a.swap(b); }
};
template <int Tag, int Bytes>
struct MObj : Obj<Tag, Bytes> {
    using Obj<Tag, Bytes>::Obj;
    MObj() = default;
    MObj(const MObj &) = delete;
    MObj(MObj &&) noexcept = default;
    MObj & operator=(const MObj &) = delete;
    MObj & operator=(MObj &&) noexcept = default;
};

// over-aligned: the address is examined at every construction and use
template <int Tag, int Bytes>
struct alignas(64) AObj : Obj<Tag, Bytes> {
    void here(const void * p) const { if ((uintptr_t)p & 63) bad("object of a type aligned to 64 bytes placed at %p", p); }
    using Obj<Tag, Bytes>::Obj;
    AObj() { here(this); }
    AObj(int i) : Obj<Tag, Bytes>(i) { here(this); }
    AObj(const AObj & o) : Obj<Tag, Bytes>(o) { here(this); }
    AObj(AObj && o) noexcept : Obj<Tag, Bytes>(std::move(o)) { here(this); }
    AObj & operator=(const AObj & o) { here(this); Obj<Tag, Bytes>::operator=(o); return *this; }
    AObj & operator=(AObj && o) noexcept { here(this); Obj<Tag, Bytes>::operator=(std::move(o)); return *this; }
};

// ---- element access helpers -------------------------------------------------
template <class T, class = void> struct El;      // id <-> value
template <class T> struct El<T, std::enable_if_t<std::is_class<T>::value && !std::is_same<T, std::string>::value>> {
    static constexpr bool tracked = true;
    static int id(const T & t) { t.use("read"); return t.id; }
    static int raw(const T & t) { return t.id; }
    static T make(int i) { return T(i); }
};
template <class T> struct El<T, std::enable_if_t<std::is_arithmetic<T>::value>> {
    static constexpr bool tracked = false;
    static int id(const T & t) { return (int)t; }
    static int raw(const T & t) { return (int)t; }
    static T make(int i) { return (T)i; }
};
template <class T> struct El<T, std::enable_if_t<std::is_same<T, std::string>::value>> {
    static constexpr bool tracked = false;
    // odd ids: long (heap) strings; id 0 is the empty string
    static const std::string * table() {
        static std::string * t = nullptr;
        if (!t) { t = new std::string[600]; for (int i = 1; i < 600; i++) { t[i] = std::to_string(i); if (i & 1) t[i] += "/................................"; } }
        return t;
    }
    static int id(const T & t) {
        if (t.empty()) return 0;
        int n = 0; for (char c : t) { if (c < '0' || c > '9' || n > 599) break; n = n * 10 + (c - '0'); }
        return n < 600 && table()[n] == t ? n : -1;
    }
    static int raw(const T & t) { return id(t); }
    static T make(int i) { return table()[i]; }
};

// ---- hashers ----------------------------------------------------------------
inline uint64_t g_hash[512];           // id -> hash code
inline void hash_all(uint64_t (*f)(int)) { for (int i = 0; i < 512; i++) g_hash[i] = f(i); }
template <class K, bool Avalanching = true> struct PHash;
template <class K> struct PHash<K, true> {
    using is_avalanching = void;
    size_t operator()(const K & k) const { fpoint(F_HASH); int i = El<K>::id(k); return (size_t)g_hash[(unsigned)i & 511]; }
};
template <class K> struct PHash<K, false> {
    size_t operator()(const K & k) const { fpoint(F_HASH); int i = El<K>::id(k); return (size_t)g_hash[(unsigned)i & 511]; }
};
// stateful hasher and comparison: different seeds place the same key differently
template <class K> struct SHash {
    using is_avalanching = void;
    uint32_t seed;
    explicit SHash(uint32_t s = 0) : seed(s) {}
    size_t operator()(const K & k) const {
        fpoint(F_HASH); int i = El<K>::id(k);
        uint64_t h = g_hash[(unsigned)i & 511];
        return (size_t)(h ^ (seed * 0x9E3779B97F4A7C15ull));
    }
};
template <class K> struct SEq {
    uint32_t seed;
    explicit SEq(uint32_t s = 0) : seed(s) {}
    bool operator()(const K & a, const K & b) const { fpoint(F_EQ); return El<K>::id(a) == El<K>::id(b); }
};
template <class K> struct PEq {
    bool operator()(const K & a, const K & b) const { fpoint(F_EQ); return El<K>::id(a) == El<K>::id(b); }
};

// ---- tracked allocator ------------------------------------------------------
struct Block { char * p; size_t bytes; int arena; size_t esize; };
inline std::vector<Block> g_blocks;
inline size_t g_bytes_live = 0, g_bytes_peak = 0;
inline uint64_t g_allocs = 0, g_frees = 0;
inline int g_fill = 0xA5;              // content of fresh memory
inline size_t g_bytes_cap = 64u << 20;
inline bool g_refuse = false;          // requests beyond the limit are refused silently

inline void * t_alloc(size_t n, size_t esize, int arena, size_t align = 16) {
    fpoint(F_ALLOC);
    if (n > (size_t(1) << 40) / esize || g_bytes_live + n * esize > g_bytes_cap) { if (!g_refuse) bad("request of %zu elements: memory grows without bound", n); throw std::bad_alloc(); }
    size_t bytes = n * esize;
    char * p = align > 16 ? (char *)aligned_alloc(align, (bytes + align) / align * align) : (char *)malloc(bytes ? bytes : 1);
    memset(p, g_fill, bytes);
    g_blocks.push_back({ p, bytes, arena, esize });
    g_allocs++; g_bytes_live += bytes; if (g_bytes_live > g_bytes_peak) g_bytes_peak = g_bytes_live;
    return p;
}
inline void t_free(void * q, size_t n, size_t esize, int arena) {
    for (size_t i = 0; i < g_blocks.size(); i++) {
        Block & b = g_blocks[i];
        if (b.p != (char *)q) continue;
        if (b.arena != arena) bad("block of allocator %d returned to allocator %d", b.arena, arena);
        if (b.bytes != n * esize || b.esize != esize) bad("block of %zu bytes returned as %zu x %zu", b.bytes, n, esize);
        g_bytes_live -= b.bytes; g_frees++;
        g_blocks.erase(g_blocks.begin() + i);
        free(q);
        return;
    }
    bad("deallocate of a block that is not allocated");
}
// Prop bits: 1 copy-assignment, 2 move-assignment, 4 swap propagate; 8 select_on_copy gives arena 9; 16 always equal
template <class T, int Prop = 0>
struct TAlloc {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (Prop & 1) != 0>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (Prop & 2) != 0>;
    using propagate_on_container_swap = std::integral_constant<bool, (Prop & 4) != 0>;
    using is_always_equal = std::integral_constant<bool, (Prop & 16) != 0>;
    template <class U> struct rebind { using other = TAlloc<U, Prop>; };
    int arena;
    TAlloc(int a = 0) noexcept : arena((Prop & 16) ? 0 : a) {}
    TAlloc(const TAlloc &) noexcept = default;
    template <class U> TAlloc(const TAlloc<U, Prop> & o) noexcept : arena(o.arena) {}
    TAlloc & operator=(const TAlloc &) noexcept = default;
    T * allocate(size_t n) { return (T *)t_alloc(n, sizeof(T), arena, alignof(T)); }
    void deallocate(T * p, size_t n) noexcept { t_free(p, n, sizeof(T), arena); }
    TAlloc select_on_container_copy_construction() const { return (Prop & 8) ? TAlloc(9) : *this; }
    template <class U> friend bool operator==(const TAlloc & a, const TAlloc<U, Prop> & b) noexcept { return a.arena == b.arena; }
    template <class U> friend bool operator!=(const TAlloc & a, const TAlloc<U, Prop> & b) noexcept { return a.arena != b.arena; }
};

} // namespace mc
#endif
