// Drives real jstd containers through operation histories next to a reference model.
#ifndef MC_WORLD_H
#define MC_WORLD_H
#include <jstd/basic/stddef.h>
#include <climits>
#include <iostream>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
#include <initializer_list>
#include <iterator>
#ifdef MC_ROBIN
#include <jstd/hashmap/robin_hash_map.h>
#endif
#ifdef MC_G15
#include <jstd/hashmap/group15_flat_map.hpp>
#endif
#ifdef MC_G16
#include <jstd/hashmap/group16_flat_map.hpp>
#endif
#include "types.h"

namespace mc {

enum MapKind { ROBIN, G15, G16 };

// robin layouts: the default one, and explicit choices
struct LayoutDirectHash {      // elements in the table, 8 bits of hash kept beside the distance
    static constexpr bool autoDetectPairLayout = true, isIsolatedKeyValue = false;
    static constexpr bool autoDetectIsIndirectKey = false, isIndirectKey = false;
    static constexpr bool autoDetectIsIndirectValue = false, isIndirectValue = false;
    static constexpr bool autoDetectStoreHash = false, needStoreHash = true;
};
struct LayoutDirectPlain {     // elements in the table, distance only
    static constexpr bool autoDetectPairLayout = true, isIsolatedKeyValue = false;
    static constexpr bool autoDetectIsIndirectKey = false, isIndirectKey = false;
    static constexpr bool autoDetectIsIndirectValue = false, isIndirectValue = false;
    static constexpr bool autoDetectStoreHash = false, needStoreHash = false;
};
struct LayoutIndirect {        // dense element array, table of indices
    static constexpr bool autoDetectPairLayout = true, isIsolatedKeyValue = false;
    static constexpr bool autoDetectIsIndirectKey = false, isIndirectKey = true;
    static constexpr bool autoDetectIsIndirectValue = false, isIndirectValue = true;
    static constexpr bool autoDetectStoreHash = false, needStoreHash = true;
};
struct LayoutDefault {};

template <MapKind Kind, class K, class V, class H, class E, class A, class L> struct MapOf;
#ifdef MC_ROBIN
template <class K, class V, class H, class E, class A, class L> struct MapOf<ROBIN, K, V, H, E, A, L> { using type = jstd::robin_hash_map<K, V, H, E, L, A>; };
template <class K, class V, class H, class E, class A> struct MapOf<ROBIN, K, V, H, E, A, LayoutDefault> { using type = jstd::robin_hash_map<K, V, H, E, jstd::default_layout_policy<K, V>, A>; };
#endif
#ifdef MC_G15
template <class K, class V, class H, class E, class A, class L> struct MapOf<G15, K, V, H, E, A, L> { using type = jstd::group15_flat_map<K, V, H, E, A>; };
#endif
#ifdef MC_G16
template <class K, class V, class H, class E, class A, class L> struct MapOf<G16, K, V, H, E, A, L> { using type = jstd::group16_flat_map<K, V, H, E, A>; };
#endif

template <MapKind Kind_, class K_, class V_, class L = LayoutDefault, int Prop_ = 0, class H_ = PHash<K_>, class E_ = PEq<K_>>
struct Cfg {
    static constexpr MapKind kind = Kind_;
    static constexpr int prop = Prop_;
    using K = K_; using V = V_; using H = H_; using E = E_;
    using A = TAlloc<std::pair<const K, V>, Prop_>;
    using Map = typename MapOf<Kind_, K, V, H, E, A, L>::type;
};

struct Op { uint8_t c, k, v; uint32_t x; };
inline int64_t enc(const Op & o) { return (int64_t)o.c | (int64_t)o.k << 8 | (int64_t)o.v << 16 | (int64_t)o.x << 24; }
inline Op dec(int64_t e) { return Op{ (uint8_t)e, (uint8_t)(e >> 8), (uint8_t)(e >> 16), (uint32_t)(e >> 24) }; }

enum OpCode : uint8_t {
    O_NONE,
    O_INS_C, O_INS_R, O_INS_PC, O_INS_PR, O_INS_HC, O_INS_HR, O_INS_HP, O_INS_CONV,
    O_EMP_L, O_EMP_R, O_EMP_PAIR, O_EMP_PAIRL, O_EMP_PW, O_EMP_PWL, O_EMP_INT, O_EMP_HINT,
    O_TE_L, O_TE_R, O_TE_0, O_TE_HL, O_TE_HR,
    O_IDX_L, O_IDX_R, O_IDX_GET,
    O_IOA_L, O_IOA_R, O_IOA_LV, O_IOA_HL, O_IOA_HR,
    O_AT_SET, O_FIND_SET, O_ITER_SET,
    O_INS_ALWAYS,
    O_RANGE_INS, O_RANGE_SELF, O_IL_INS,
    O_ER_K, O_ER_IT, O_ER_CIT, O_ER_RANGE, O_ER_CRANGE, O_ER_IF, O_ER_WALK, O_ER_WALKC,
    O_CLEAR, O_RESERVE, O_REHASH, O_SHRINK, O_MLF,
    O_COPY, O_COPYA, O_MOVE, O_MOVEA, O_CASSIGN, O_MASSIGN, O_SWAP, O_SWAPSTD, O_SWAPADL, O_SELFASSIGN, O_SELFSWAP, O_ILASSIGN,
    O_RECON, O_RANGE_CTOR, O_RANGE_CTORA, O_IL_CTOR, O_DESTROY,
    O_FILL, O_UNFILL, O_UNFILLR, O_ROOM, O_CHURN, O_EXT, O_COUNT_
};
static const char * const kOpName[] = {
    "none",
    "insert(const&)", "insert(&&)", "insert(pair const&)", "insert(pair&&)", "insert(hint,const&)", "insert(hint,&&)", "insert(hint,pair)", "insert(convertible pair)",
    "emplace(k&,v&)", "emplace(k,v)", "emplace(pair&&)", "emplace(pair&)", "emplace(piecewise)", "emplace(piecewise&)", "emplace(int,int)", "emplace_hint",
    "try_emplace(k&)", "try_emplace(k&&)", "try_emplace(k)", "try_emplace(hint,k&)", "try_emplace(hint,k&&)",
    "m[k&]=v", "m[k&&]=v", "m[k]",
    "insert_or_assign(k&)", "insert_or_assign(k&&)", "insert_or_assign(k&,v&)", "insert_or_assign(hint,k&)", "insert_or_assign(hint,k&&)",
    "at=", "find->second=", "iterate=",
    "insert_always",
    "insert(range)", "insert(other map)", "insert(list)",
    "erase(key)", "erase(iterator)", "erase(const_iterator)", "erase(range)", "erase(const range)", "erase_if", "erase-walk", "erase-walk(const)",
    "clear", "reserve", "rehash", "shrink_to_fit", "max_load_factor",
    "copy-ctor", "copy-ctor(alloc)", "move-ctor", "move-ctor(alloc)", "copy-assign", "move-assign", "swap", "std::swap", "adl swap", "self-assign", "self-swap", "list-assign",
    "reconstruct", "range-ctor", "range-ctor(alloc)", "list-ctor", "destroy",
    "fill", "unfill", "unfill-rev", "reserve+fill", "churn", "overload", "?"
};
inline std::string show_op(const Op & o) {
    char b[120];
    uint8_t c = o.c & 0x7F;
    snprintf(b, sizeof b, "%s%s{k=%d v=%d x=%u}", (o.c & 0x80) ? "B." : "", c < O_COUNT_ ? kOpName[c] : "?", o.k, o.v, o.x);
    return b;
}
inline std::string show_ops(const std::vector<int64_t> & d, size_t from = 0) {
    std::string s;
    for (size_t i = from; i < d.size(); i++) { if (i > from) s += "; "; s += show_op(dec(d[i])); }
    return s;
}

enum { FILL_BASE = 64, ID_MAX = 512 };

struct Model {
    int16_t val[ID_MAX];
    int n;
    Model() { reset(); }
    void reset() { for (auto & v : val) v = -1; n = 0; }
    bool has(int k) const { return val[k] >= 0; }
    void put(int k, int v) { if (val[k] < 0) n++; val[k] = (int16_t)v; }
    bool del(int k) { if (val[k] < 0) return false; val[k] = -1; n--; return true; }
};

// one constant object per key id, shared by all containers of that key type
template <class K> K & key_table(int id) {
    static std::vector<K> * t = nullptr;
    if (!t) { FaultOff off; t = new std::vector<K>(); t->reserve(ID_MAX); for (int i = 0; i < ID_MAX; i++) t->emplace_back(El<K>::make(i)); }
    return (*t)[id];
}

template <class C> struct World {
    using M = typename C::Map; using K = typename C::K; using V = typename C::V; using A = typename C::A;
    using H = typename C::H; using E = typename C::E;
    using KV = std::pair<const K, V>; using PV = std::pair<K, V>;
    static constexpr bool kCopyK = std::is_copy_constructible<K>::value, kCopyV = std::is_copy_constructible<V>::value, kCopy = kCopyK && kCopyV;
    static constexpr int kTracked = (El<K>::tracked ? 1 : 0) + (El<V>::tracked ? 1 : 0);
    static constexpr bool kIntConv = !std::is_same<K, std::string>::value && !std::is_same<V, std::string>::value;

    alignas(64) unsigned char buf[2][sizeof(M)];
    bool alive[2] = { false, false };
    Model md[2];
    std::vector<int> uni;          // ids examined by the audit
    size_t base_live = 0;
    const char * opname = "";
    size_t cap_bound = 0;          // largest capacity allowed (0: not checked)
    // reference stability bookkeeping is done by the checks themselves

    static K & key(int id) { return key_table<K>(id); }
    M & m(int i) { return *reinterpret_cast<M *>(buf[i]); }
    const M & cm(int i) { return *reinterpret_cast<const M *>(buf[i]); }

    World() { key(0); memset(buf, 0, sizeof buf); base_live = g_reg.live; g_allocs = g_frees = 0; if (!g_blocks.empty()) bad("blocks left over"); }
    ~World() {}
    // the arguments are made without fault points: only what the container does is counted
    static K mk(int i) { FaultOff off; return El<K>::make(i); }
    static V mv(int i) { FaultOff off; return El<V>::make(i); }
    static KV mkv(int k, int v) { return KV(mk(k), mv(v)); }

    // stateful hashers: every slot is made with its own seed
    template <class T> static T fn(int i) { if constexpr (std::is_constructible<T, uint32_t>::value) return T((uint32_t)i); else { (void)i; return T(); } }
    static constexpr bool kState = std::is_constructible<H, uint32_t>::value;
    void make(int i, size_t cap, int arena) {
        if (cap == (size_t)-1) { if constexpr (kState) new (buf[i]) M((size_t)0, fn<H>(i), fn<E>(i), A(arena)); else new (buf[i]) M(A(arena)); }
        else new (buf[i]) M(cap, fn<H>(i), fn<E>(i), A(arena));
        alive[i] = true; md[i].reset();
    }
    void kill(int i) { if (!alive[i]) return; alive[i] = false; m(i).~M(); memset(buf[i], 0, sizeof buf[i]); md[i].reset(); }
    void ensure(int i, size_t cap = (size_t)-1) { if (!alive[i]) make(i, cap, i + 1); }
    // end of a history: destroy everything and require that nothing is left
    void finish() {
        kill(0); kill(1);
        if (g_reg.live != base_live) bad("%ld element objects still alive after the containers were destroyed", (long)g_reg.live - (long)base_live);
        if (!g_blocks.empty()) bad("%zu blocks not returned (first: %zu bytes)", g_blocks.size(), g_blocks[0].bytes);
        if (g_allocs != g_frees) bad("allocations %lu, deallocations %lu", (unsigned long)g_allocs, (unsigned long)g_frees);
    }

    template <class It> void want_it(int i, const It & it, int k, int v) {
        if (it == m(i).end()) { bad("%s: returned end() instead of the element %d", opname, k); return; }
        int gk = El<K>::id(it->first), gv = El<V>::id(it->second);
        if (gk != k) bad("%s: returned position holds key %d, not %d", opname, gk, k);
        else if (gv != v) bad("%s: key %d has value %d, expected %d", opname, k, gv, v);
    }
    template <class R> void want(int i, const R & r, bool ins, int k, int v) {
        if (r.second != ins) bad("%s: reported %d for key %d, expected %d", opname, (int)r.second, k, (int)ins);
        want_it(i, r.first, k, v);
    }
    void arg(const char * what, int got, int want) { if (got != want) bad("%s: %s argument was changed (%d -> %d)", opname, what, want, got); }

    // positions ret..end must cover every element in must (ids), and nothing erased
    template <class It, class End> void want_cover(int i, It it, End e, const std::vector<int> & must, const char * what) {
        std::vector<int> got; size_t steps = 0;
        for (; it != e; ++it) { if (++steps > 2048) { bad("%s: iteration from the returned position does not end", opname); return; } got.push_back(El<K>::id(it->first)); }
        (void)i;
        std::sort(got.begin(), got.end());
        for (int x : must) if (!std::binary_search(got.begin(), got.end(), x)) { bad("%s: %s: survivor %d is not reached from the returned position", opname, what, x); return; }
    }
    std::vector<int> order(int i) { std::vector<int> o; size_t n = 0; for (auto it = m(i).begin(); it != m(i).end(); ++it) { if (++n > 2048) { bad("iteration does not end"); break; } o.push_back(El<K>::id(it->first)); } return o; }

    void exec(const Op & o) {
        try { exec_(o); }
        catch (const Fault &) { throw; }
        catch (const std::bad_alloc & e) { if (g_fba && g_flast >= 0) throw Fault(g_flast); bad("%s: unexpected exception: %s", opname, e.what()); }
        catch (const std::exception & e) { bad("%s: unexpected exception: %s", opname, e.what()); }
    }
    // executes one operation and checks everything it reports
    void exec_(const Op & o) {
        const int i = (o.c & 0x80) ? 1 : 0, j = 1 - i;
        const uint8_t c = o.c & 0x7F;
        opname = c < O_COUNT_ ? kOpName[c] : "?";
        if (c != O_RECON && c != O_DESTROY && c != O_RANGE_CTOR && c != O_RANGE_CTORA && c != O_IL_CTOR && !(c >= O_COPY && c <= O_MOVEA)) ensure(i);
        M & a = m(i);
        Model & d = md[i];
        const int k = o.k, v = o.v;
        const bool had = d.has(k);
        const int old = d.val[k];
        // expected results of the non-overwriting insertions
        const int keep = had ? old : v;
        switch (c) {
        case O_NONE: break;
        case O_INS_C: if constexpr (kCopy) { const KV e(mk(k), mv(v)); auto r = a.insert(e); d.put(k, keep); want(i, r, !had, k, keep); arg("key", El<K>::raw(e.first), k); arg("value", El<V>::raw(e.second), v); } break;
        case O_INS_R: if constexpr (kCopyK) { KV e(mk(k), mv(v)); auto r = a.insert(std::move(e)); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case O_INS_PC: if constexpr (kCopy) { const PV e(mk(k), mv(v)); auto r = a.insert(e); d.put(k, keep); want(i, r, !had, k, keep); arg("key", El<K>::raw(e.first), k); arg("value", El<V>::raw(e.second), v); } break;
        case O_INS_PR: { PV e(mk(k), mv(v)); auto r = a.insert(std::move(e)); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case O_INS_HC: if constexpr (kCopy) { const KV e(mk(k), mv(v)); auto r = a.insert(a.cbegin(), e); d.put(k, keep); want_it(i, r, k, keep); arg("key", El<K>::raw(e.first), k); arg("value", El<V>::raw(e.second), v); } break;
        case O_INS_HR: if constexpr (kCopyK) { KV e(mk(k), mv(v)); auto r = a.insert(a.cend(), std::move(e)); d.put(k, keep); want_it(i, r, k, keep); } break;
        case O_INS_HP: { PV e(mk(k), mv(v)); auto r = a.insert(a.cbegin(), std::move(e)); d.put(k, keep); want_it(i, r, k, keep); } break;
        case O_INS_CONV: if constexpr (kIntConv) { std::pair<int, int> e(k, v); auto r = a.insert(e); d.put(k, keep); want(i, r, !had, k, keep); arg("key", e.first, k); arg("value", e.second, v); } break;
        case O_EMP_L: if constexpr (kCopy) { K kk = mk(k); V vv = mv(v); auto r = a.emplace(kk, vv); d.put(k, keep); want(i, r, !had, k, keep); arg("key", El<K>::raw(kk), k); arg("value", El<V>::raw(vv), v); } break;
        case O_EMP_R: { auto r = a.emplace(mk(k), mv(v)); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case O_EMP_PAIR: { auto r = a.emplace(PV(mk(k), mv(v))); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case O_EMP_PAIRL: if constexpr (kCopy) { PV e(mk(k), mv(v)); auto r = a.emplace(e); d.put(k, keep); want(i, r, !had, k, keep); arg("key", El<K>::raw(e.first), k); arg("value", El<V>::raw(e.second), v); } break;
        case O_EMP_PW: { auto r = a.emplace(std::piecewise_construct, std::forward_as_tuple(mk(k)), std::forward_as_tuple(mv(v))); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case O_EMP_PWL: if constexpr (kCopy) { K kk = mk(k); V vv = mv(v); auto r = a.emplace(std::piecewise_construct, std::forward_as_tuple(kk), std::forward_as_tuple(vv)); d.put(k, keep); want(i, r, !had, k, keep); arg("key", El<K>::raw(kk), k); arg("value", El<V>::raw(vv), v); } break;
        case O_EMP_INT: if constexpr (kIntConv) { int ki = k, vi = v; auto r = a.emplace(ki, vi); d.put(k, keep); want(i, r, !had, k, keep); arg("key", ki, k); arg("value", vi, v); } break;
        case O_EMP_HINT: { auto r = a.emplace_hint(a.cbegin(), mk(k), mv(v)); d.put(k, keep); want_it(i, r, k, keep); } break;
        case O_TE_L: if constexpr (kCopyK) { K kk = mk(k); V vv = mv(v); auto r = a.try_emplace(kk, std::move(vv)); d.put(k, keep); want(i, r, !had, k, keep); arg("key", El<K>::raw(kk), k); if (had) arg("value", El<V>::raw(vv), v); } break;
        case O_TE_R: { K kk = mk(k); V vv = mv(v); auto r = a.try_emplace(std::move(kk), std::move(vv)); d.put(k, keep); want(i, r, !had, k, keep); if (had) { arg("key", El<K>::raw(kk), k); arg("value", El<V>::raw(vv), v); } } break;
        case O_TE_0: if constexpr (kCopyK) { const int w = had ? old : 0; auto r = a.try_emplace(key(k)); d.put(k, w); want(i, r, !had, k, w); arg("key", El<K>::raw(key(k)), k); } break;
        case O_TE_HL: if constexpr (kCopyK) { K kk = mk(k); V vv = mv(v); auto r = a.try_emplace(a.cend(), kk, std::move(vv)); d.put(k, keep); want_it(i, r, k, keep); arg("key", El<K>::raw(kk), k); if (had) arg("value", El<V>::raw(vv), v); } break;
        case O_TE_HR: { K kk = mk(k); V vv = mv(v); auto r = a.try_emplace(a.cbegin(), std::move(kk), std::move(vv)); d.put(k, keep); want_it(i, r, k, keep); if (had) { arg("key", El<K>::raw(kk), k); arg("value", El<V>::raw(vv), v); } } break;
        case O_IDX_L: if constexpr (kCopyK) { K kk = mk(k); V & ref = a[kk]; d.put(k, had ? old : 0); arg("key", El<K>::raw(kk), k); if (El<V>::id(ref) != d.val[k]) bad("m[k]: value %d of key %d, expected %d", El<V>::id(ref), k, d.val[k]); V vv = mv(v); ref = std::move(vv); d.put(k, v); } break;
        case O_IDX_R: { V & ref = a[mk(k)]; d.put(k, had ? old : 0); if (El<V>::id(ref) != d.val[k]) bad("m[k]: value %d of key %d, expected %d", El<V>::id(ref), k, d.val[k]); V vv = mv(v); ref = std::move(vv); d.put(k, v); } break;
        case O_IDX_GET: if constexpr (kCopyK) { const V & ref = a[key(k)]; d.put(k, had ? old : 0); if (El<V>::id(ref) != d.val[k]) bad("m[k]: value %d of key %d, expected %d", El<V>::id(ref), k, d.val[k]); } break;
        case O_IOA_L: if constexpr (kCopyK) { K kk = mk(k); auto r = a.insert_or_assign(kk, mv(v)); d.put(k, v); want(i, r, !had, k, v); arg("key", El<K>::raw(kk), k); } break;
        case O_IOA_R: { K kk = mk(k); auto r = a.insert_or_assign(std::move(kk), mv(v)); d.put(k, v); want(i, r, !had, k, v); } break;
        case O_IOA_LV: if constexpr (kCopy) { const K kk = mk(k); V vv = mv(v); auto r = a.insert_or_assign(kk, vv); d.put(k, v); want(i, r, !had, k, v); arg("key", El<K>::raw(kk), k); arg("value", El<V>::raw(vv), v); } break;
        case O_IOA_HL: if constexpr (kCopyK) { K kk = mk(k); auto r = a.insert_or_assign(a.cbegin(), kk, mv(v)); d.put(k, v); want_it(i, r, k, v); arg("key", El<K>::raw(kk), k); } break;
        case O_IOA_HR: { auto r = a.insert_or_assign(a.cend(), mk(k), mv(v)); d.put(k, v); want_it(i, r, k, v); } break;
        case O_AT_SET: {
            bool threw = false; V vv = mv(v);
            try { a.at(key(k)) = std::move(vv); } catch (const std::out_of_range &) { threw = true; }
            if (threw == had) bad("at(%d): %s although the key is %s", k, threw ? "threw" : "did not throw", had ? "present" : "absent");
            if (had) d.put(k, v);
        } break;
        case O_FIND_SET: { auto it = a.find(key(k)); bool f = it != a.end(); if (f != had) bad("find(%d): %s", k, f ? "found an absent key" : "missed a present key"); else if (f) { V vv = mv(v); it->second = std::move(vv); d.put(k, v); } } break;
        case O_ITER_SET: { size_t n = 0; for (auto it = a.begin(); it != a.end(); ++it) { if (++n > 2048) { bad("iteration does not end"); break; } int id = El<K>::id(it->first); V vv = mv(v); it->second = std::move(vv); if (id >= 0 && id < ID_MAX && d.has(id)) d.put(id, v); else bad("iteration shows unknown key %d", id); } } break;
        case O_INS_ALWAYS: if constexpr (C::kind == ROBIN && kCopy) { if (!had) { const PV e(mk(k), mv(v)); auto r = a.insert_always(e); d.put(k, v); want(i, r, true, k, v); } } break;
        case O_RANGE_INS: if constexpr (kCopy) {
            // keys of the mask x in order, the value counts up; the first key is repeated at the end
            std::vector<PV> s; int w = v;
            for (int b = 0; b < 16; b++) if (o.x >> b & 1) { s.emplace_back(mk(b), mv(w)); w++; }
            if (!s.empty()) { int id = El<K>::id(s[0].first); s.emplace_back(mk(id), mv(9)); }
            a.insert(s.begin(), s.end());
            for (size_t q = 0; q < s.size(); q++) { int id = El<K>::raw(s[q].first), vi = El<V>::raw(s[q].second); if (id < 0 || id >= ID_MAX) { bad("insert(range): changed the source range"); break; } if (!d.has(id)) d.put(id, vi); }
            w = v; size_t q = 0;
            for (int b = 0; b < 16; b++) if (o.x >> b & 1) { if (El<K>::raw(s[q].first) != b || El<V>::raw(s[q].second) != w) bad("insert(range): changed the source range"); w++; q++; }
        } break;
        case O_RANGE_SELF: if constexpr (kCopy) { if (alive[j]) { a.insert(m(j).begin(), m(j).end()); for (int id = 0; id < ID_MAX; id++) if (md[j].has(id) && !d.has(id)) d.put(id, md[j].val[id]); } } break;
        case O_IL_INS: if constexpr (kCopy) {
            std::initializer_list<KV> il = { KV(mk(k), mv(v)), KV(mk(k + 1), mv(v)), KV(mk(k), mv(v + 1)), KV(mk(k + 2), mv(v + 1)) };
            a.insert(il);
            if (!d.has(k)) d.put(k, v);
            if (!d.has(k + 1)) d.put(k + 1, v);
            if (!d.has(k + 2)) d.put(k + 2, v + 1);
        } break;
        case O_ER_K: { size_t n = a.erase(key(k)); d.del(k); if (n != (had ? 1u : 0u)) bad("erase(%d): reported %zu, expected %d", k, n, (int)had); } break;
        case O_ER_IT: case O_ER_CIT: {
            auto it = a.find(key(k));
            if ((it != a.end()) != had) { bad("find(%d): wrong answer before erase", k); break; }
            if (!had) break;
            std::vector<int> ord = order(i), must; bool seen = false;
            for (int id : ord) { if (seen) must.push_back(id); if (id == k) seen = true; }
            if (c == O_ER_IT) { auto r = a.erase(it); d.del(k); want_cover(i, r, a.end(), must, "erase(iterator)"); }
            else { typename M::const_iterator ci = it; auto r = a.erase(ci); d.del(k); want_cover(i, r, a.end(), must, "erase(const_iterator)"); }
        } break;
        case O_ER_RANGE: case O_ER_CRANGE: {
            // positions [k, v) of the iteration order, clipped to the size
            std::vector<int> ord = order(i);
            size_t lo = std::min<size_t>(k, ord.size()), hi = std::min<size_t>(std::max(v, k), ord.size());
            std::vector<int> must(ord.begin() + hi, ord.end());
            if (c == O_ER_RANGE) {
                auto f = a.begin(); for (size_t q = 0; q < lo; q++) ++f;
                auto l = f; for (size_t q = lo; q < hi; q++) ++l;
                auto r = a.erase(f, l);
                for (size_t q = lo; q < hi; q++) d.del(ord[q]);
                want_cover(i, r, a.end(), must, "erase(range)");
            } else {
                auto f = a.cbegin(); for (size_t q = 0; q < lo; q++) ++f;
                auto l = f; for (size_t q = lo; q < hi; q++) ++l;
                auto r = a.erase(f, l);
                for (size_t q = lo; q < hi; q++) d.del(ord[q]);
                want_cover(i, r, a.end(), must, "erase(range)");
            }
        } break;
        case O_ER_IF: {
            size_t want_n = 0; for (int id = 0; id < ID_MAX; id++) if (d.has(id) && in_mask(id, o.x)) want_n++;
            uint32_t x = o.x; int calls = 0, limit = d.n + 1;
            size_t n = std::erase_if(a, [x, &calls](const KV & e) { calls++; fpoint(F_PRED); return in_mask(El<K>::id(e.first), x); });
            if (n != want_n) bad("erase_if: reported %zu removed, expected %zu", n, want_n);
            if (calls >= limit + (int)0 && calls != d.n) bad("erase_if: predicate called %d times for %d elements", calls, d.n);
            for (int id = 0; id < ID_MAX; id++) if (in_mask(id, o.x)) d.del(id);
        } break;
        case O_ER_WALK: case O_ER_WALKC: {
            std::vector<int> seen; size_t steps = 0, total = (size_t)d.n;
            if (c == O_ER_WALK) {
                for (auto it = a.begin(); it != a.end();) {
                    if (++steps > total + 8) { bad("erase-walk: more steps than elements"); break; }
                    int id = El<K>::id(it->first); seen.push_back(id);
                    if (in_mask(id, o.x)) it = a.erase(it); else ++it;
                }
            } else {
                typename M::const_iterator it = a.cbegin();
                while (it != a.cend()) {
                    if (++steps > total + 8) { bad("erase-walk: more steps than elements"); break; }
                    int id = El<K>::id(it->first); seen.push_back(id);
                    if (in_mask(id, o.x)) it = a.erase(it); else ++it;
                }
            }
            std::sort(seen.begin(), seen.end());
            std::vector<int> all; for (int id = 0; id < ID_MAX; id++) if (d.has(id)) all.push_back(id);
            if (seen != all) bad("erase-walk: visited %zu elements of %zu, not each exactly once", seen.size(), all.size());
            for (int id = 0; id < ID_MAX; id++) if (in_mask(id, o.x)) d.del(id);
        } break;
        case O_CLEAR: a.clear(o.x != 0); d.reset(); break;
        case O_RESERVE: a.reserve((size_t)o.x); break;
        case O_REHASH: a.rehash((size_t)o.x); break;
        case O_SHRINK: a.shrink_to_fit(o.x != 0); break;
        case O_MLF: a.max_load_factor((float)o.x / 100.0f); break;
        case O_COPY: if constexpr (kCopy) { if (alive[j]) { kill(i); new (buf[i]) M(cm(j)); alive[i] = true; md[i] = md[j]; } } break;
        case O_COPYA: if constexpr (kCopy) { if (alive[j]) { kill(i); new (buf[i]) M(cm(j), A((int)o.x)); alive[i] = true; md[i] = md[j]; } } break;
        case O_MOVE: if (alive[j]) { kill(i); new (buf[i]) M(std::move(m(j))); alive[i] = true; md[i] = md[j]; moved_from(j); } break;
        case O_MOVEA: if constexpr (true) { if (alive[j]) { kill(i); new (buf[i]) M(std::move(m(j)), A((int)o.x)); alive[i] = true; md[i] = md[j]; moved_from(j); } } break;
        case O_CASSIGN: if constexpr (kCopy) { ensure(j); M & r = (a = cm(j)); if (&r != &a) bad("operator=: wrong result"); md[i] = md[j]; } break;
        case O_MASSIGN: { ensure(j); a = std::move(m(j)); md[i] = md[j]; moved_from(j); } break;
        case O_SWAP: ensure(j); if ((C::prop & 4) || (C::prop & 16) || a.get_allocator() == m(j).get_allocator()) { a.swap(m(j)); std::swap(md[0], md[1]); } break;
        case O_SWAPSTD: ensure(j); if ((C::prop & 4) || (C::prop & 16) || a.get_allocator() == m(j).get_allocator()) { std::swap(a, m(j)); std::swap(md[0], md[1]); } break;
        case O_SWAPADL: ensure(j); if ((C::prop & 4) || (C::prop & 16) || a.get_allocator() == m(j).get_allocator()) { adl(a, m(j)); std::swap(md[0], md[1]); } break;
        case O_SELFASSIGN: if constexpr (kCopy) { const M & s = a; a = s; } break;
        case O_SELFSWAP: a.swap(a); break;
        case O_ILASSIGN: if constexpr (C::kind != ROBIN && kCopy) { std::initializer_list<KV> il = { KV(mk(k), mv(v)), KV(mk(k + 1), mv(v)), KV(mk(k), mv(v + 1)) }; a = il; d.reset(); d.put(k, v); d.put(k + 1, v); } break;
        case O_RECON: kill(i); make(i, o.x == 0xFFFF ? (size_t)-1 : (size_t)o.x, i + 1); break;
        case O_RANGE_CTOR: case O_RANGE_CTORA: if constexpr (kCopy) {
            std::vector<PV> s; int w = v;
            for (int b = 0; b < 16; b++) if (o.x >> b & 1) { s.emplace_back(mk(b), mv(w)); w++; }
            if (!s.empty()) { int id = El<K>::id(s[0].first); s.emplace_back(mk(id), mv(9)); }
            kill(i);
            if (c == O_RANGE_CTOR) new (buf[i]) M(s.begin(), s.end(), k, fn<H>(i), fn<E>(i), A(i + 1));
            else new (buf[i]) M(s.begin(), s.end(), k, A(i + 1));
            alive[i] = true;
            for (auto & e : s) { int id = El<K>::raw(e.first), vi = El<V>::raw(e.second); if (!md[i].has(id)) md[i].put(id, vi); }
        } break;
        case O_IL_CTOR: if constexpr (kCopy) {
            std::initializer_list<KV> il = { KV(mk(k), mv(v)), KV(mk(k + 1), mv(v)), KV(mk(k), mv(v + 1)), KV(mk(k + 2), mv(v + 1)) };
            kill(i);
            new (buf[i]) M(il, (size_t)o.x, fn<H>(i), fn<E>(i), A(i + 1));
            alive[i] = true;
            md[i].put(k, v); md[i].put(k + 1, v); md[i].put(k + 2, v + 1);
        } break;
        case O_DESTROY: kill(i); break;
        case O_FILL: for (uint32_t q = 0; q < o.x; q++) { int id = FILL_BASE + k + (int)q; bool h2 = d.has(id); int w = h2 ? d.val[id] : 1 + (int)(q % 3); auto r = a.emplace(mk(id), mv(1 + (int)(q % 3))); d.put(id, w); want(i, r, !h2, id, w); if (g_bad) break; } break;
        case O_UNFILL: case O_UNFILLR: for (uint32_t q = 0; q < o.x; q++) { int id = FILL_BASE + k + (int)(c == O_UNFILL ? q : o.x - 1 - q); size_t n = a.erase(key(id)); bool h2 = d.del(id); if (n != (h2 ? 1u : 0u)) { bad("erase(%d): reported %zu", id, n); break; } } break;
        case O_ROOM: {
            // reserve(x), then insert until x elements are stored: nothing may be allocated on the way and
            // (group containers) no element may move. k selects the ids used.
            a.reserve((size_t)o.x);
            if (v == 1) { // several reserves in a row
                a.reserve((size_t)o.x);
            }
            if (a.capacity() < (size_t)o.x) { bad("capacity() is %zu after reserve(%u)", (size_t)a.capacity(), o.x); break; }
            const uint64_t al = g_allocs; const size_t cap = a.capacity();
            std::vector<std::pair<int, const V *>> ref;
            // robin_hash_map may grow early when a probe sequence exceeds its lookup limit. An element is never
            // further from its home position than the number of stored elements sharing a home with another one,
            // so the promise is held to account when at most three do (the limit is at least four).
            std::vector<uint8_t> home(C::kind == ROBIN ? cap + 1 : 1, 0); bool strict = true;
            if (C::kind == ROBIN && cap) { int dup = 0; for (int id = 0; id < ID_MAX; id++) if (d.has(id)) { auto & h = home[g_hash[id] & (cap - 1)]; if (h) dup++; h = 1; } strict = dup <= 3; }
            if (C::kind != ROBIN) for (auto it = a.begin(); it != a.end(); ++it) ref.emplace_back(El<K>::id(it->first), &it->second);
            for (int q = 0; (size_t)d.n < o.x; q++) {
                int id = FILL_BASE + k + q; if (id >= ID_MAX) break;
                if (d.has(id)) continue;
                if (C::kind == ROBIN && strict) { auto & h = home[g_hash[id] & (cap - 1)]; if (h) continue; h = 1; }
                auto r = a.emplace(mk(id), mv(1 + q % 3)); d.put(id, 1 + q % 3); want(i, r, true, id, 1 + q % 3);
                if (strict && (g_allocs != al || a.capacity() != cap)) { bad("reserve(%u) left too little room: reallocation at element %d (capacity %zu -> %zu)", o.x, d.n, cap, (size_t)a.capacity()); break; }
                if (g_bad) break;
                if (C::kind != ROBIN) ref.emplace_back(id, &r.first->second);
            }
            for (auto & e : ref) { auto it = a.find(key(e.first)); if (it == a.end() || &it->second != e.second) { bad("element %d moved although reserve(%u) left room", e.first, o.x); break; } }
            for (int q = 0; q < ID_MAX - FILL_BASE && !g_bad; q++) { int id = FILL_BASE + k + q; if (id >= ID_MAX) break; if (d.has(id) && std::find(uni.begin(), uni.end(), id) == uni.end()) uni.push_back(id); }
        } break;
        case O_CHURN: {
            // x steps: at every step a new key enters and the key that entered v steps before leaves; ids rotate
            // through v + 1 + k / 16 values with stride 1 + k % 16, so the live elements never exceed v + 1
            const int win = v, n = v + 1 + k / 16, stride = 1 + k % 16; bool ok = true;
            for (uint32_t q = 0; q < o.x && ok; q++) {
                int id = FILL_BASE + 64 + (int)((uint64_t)q * stride % n);
                bool h2 = d.has(id); auto r = a.emplace(mk(id), mv(1 + (int)(q % 3))); int w = h2 ? d.val[id] : 1 + (int)(q % 3); d.put(id, w); want(i, r, !h2, id, w);
                if ((int)q >= win) { int dd = FILL_BASE + 64 + (int)((uint64_t)(q - win) * stride % n); bool h3 = d.has(dd); size_t e = a.erase(key(dd)); d.del(dd); if (e != (h3 ? 1u : 0u)) bad("erase(%d): reported %zu", dd, e); }
                if (cap_bound && a.capacity() > cap_bound) bad("capacity %zu exceeds %zu with %d live elements after %u churn steps", (size_t)a.capacity(), cap_bound, d.n, q);
                if (g_bad) ok = false;
                if ((q & 127) == 127) { audit(i); if (g_bad) ok = false; }
            }
        } break;
        default: break;
        }
    }
    static void adl(M & a, M & b) { swap(a, b); }
    // active ids by bit, fill ids by (id mod 31)
    static bool in_mask(int id, uint32_t x) { return id >= 0 && id < 32 ? (x >> id & 1) : (x >> (unsigned)(id % 31) & 1); }
    void moved_from(int i) { md[i].reset(); if (m(i).size() != 0 || !m(i).empty()) bad("%s: the moved-from map still holds %zu elements", opname, (size_t)m(i).size()); }
    // makes the model follow the container (only where the contents are unspecified)
    void resync(int i) {
        md[i].reset();
        size_t n = 0;
        for (auto it = m(i).begin(); it != m(i).end(); ++it) {
            if (++n > 2048) { bad("iteration does not end"); return; }
            int k = El<K>::id(it->first), v = El<V>::id(it->second);
            if (k < 0 || k >= ID_MAX || v < 0) { bad("unspecified contents are not valid elements (key %d value %d)", k, v); return; }
            if (md[i].has(k)) bad("key %d is stored twice", k);
            md[i].put(k, v);
        }
    }

    // full observation of a container against the model
    void audit(int i) {
        if (!alive[i] || g_bad) return;
        FaultOff off;
        M & a = m(i); const M & ca = a; Model & d = md[i];
        if (a.size() != (size_t)d.n) { bad("size() is %zu, expected %d", (size_t)a.size(), d.n); return; }
        if (a.empty() != (d.n == 0)) { bad("empty() is %d with %d elements", (int)a.empty(), d.n); return; }
        if ((a.begin() == a.end()) != (d.n == 0) || (ca.begin() == ca.end()) != (d.n == 0)) { bad("begin()==end() is wrong for %d elements", d.n); return; }
        uint8_t seen[ID_MAX]; memset(seen, 0, sizeof seen);
        size_t n = 0;
        for (auto it = a.begin(); it != a.end(); ++it) {
            if (++n > (size_t)d.n) { bad("iteration visits more than the %d elements", d.n); return; }
            int k = El<K>::id(it->first), v = El<V>::id(it->second);
            if (g_bad) return;
            if (k < 0 || k >= ID_MAX || !d.has(k)) { bad("iteration shows key %d which is not stored", k); return; }
            if (seen[k]++) { bad("iteration shows key %d twice", k); return; }
            if (v != d.val[k]) { bad("iteration shows value %d for key %d, expected %d", v, k, d.val[k]); return; }
        }
        if (n != (size_t)d.n) { bad("iteration visits %zu of %d elements", n, d.n); return; }
        n = 0;
        for (auto it = ca.begin(); it != ca.end(); it++) {
            if (++n > (size_t)d.n) { bad("const iteration visits more than the %d elements", d.n); return; }
            int k = El<K>::id(it->first), v = El<V>::id((*it).second);
            if (k < 0 || k >= ID_MAX || seen[k] != 1 || v != d.val[k]) { bad("const iteration shows key %d value %d", k, v); return; }
            seen[k] = 2;
        }
        if (n != (size_t)d.n) { bad("const iteration visits %zu of %d elements", n, d.n); return; }
        for (int k : uni) {
            const K & q = key(k); const bool h = d.has(k);
            auto it = a.find(q);
            if ((it != a.end()) != h) { bad("find(%d): %s", k, h ? "missed a stored key" : "found a key that is not stored"); return; }
            if (h && (El<K>::id(it->first) != k || El<V>::id(it->second) != d.val[k])) { bad("find(%d): element %d/%d, expected value %d", k, El<K>::raw(it->first), El<V>::raw(it->second), d.val[k]); return; }
            auto cit = ca.find(q);
            if ((cit != ca.end()) != h || (h && El<K>::id(cit->first) != k)) { bad("const find(%d) differs", k); return; }
            if (ca.contains(q) != h) { bad("contains(%d) is %d", k, (int)!h); return; }
            if (ca.count(q) != (h ? 1u : 0u)) { bad("count(%d) is wrong", k); return; }
            if (h) { if (El<V>::id(ca.at(q)) != d.val[k]) { bad("at(%d) is %d, expected %d", k, El<V>::raw(ca.at(q)), d.val[k]); return; } }
        }
        if (d.n == 0) {
            if (!(a.cbegin() == a.cend())) { bad("cbegin() differs from cend() on an empty map"); return; }
        }
        if (a.capacity() < (size_t)d.n) { bad("capacity() %zu below size %d", (size_t)a.capacity(), d.n); return; }
        float lf = a.load_factor();
        if (!(lf >= 0.0f && lf <= 1.0f)) { bad("load_factor() is %g", (double)lf); return; }
        if (cap_bound && a.capacity() > cap_bound) { bad("capacity() %zu exceeds the bound %zu", (size_t)a.capacity(), cap_bound); return; }
    }
    void audit_all() {
        audit(0); audit(1);
        if (g_bad) return;
        size_t want_live = base_live + (size_t)kTracked * ((alive[0] ? md[0].n : 0) + (alive[1] ? md[1].n : 0));
        if (g_reg.live != want_live) bad("%ld element objects alive in the containers, expected %ld", (long)g_reg.live - (long)base_live, (long)want_live - (long)base_live);
    }

    // canonical state: bytes of the containers and their blocks, pointers as (block, offset)
    H128 fingerprint() {
        Hasher128 h;
        auto word = [&](uint64_t w) {
            for (size_t b = 0; b < g_blocks.size(); b++) {
                uint64_t p = (uint64_t)g_blocks[b].p;
                if (w >= p && w <= p + g_blocks[b].bytes) { h.add(0xB10C000000000000ull | b << 40 | (w - p)); return; }
            }
            for (int i = 0; i < 2; i++) { uint64_t p = (uint64_t)buf[i]; if (w >= p && w < p + sizeof(M)) { h.add(0x5E1F000000000000ull | (uint64_t)i << 40 | (w - p)); return; } }
            h.add(w);
        };
        for (int i = 0; i < 2; i++) {
            h.add(alive[i]);
            if (!alive[i]) continue;
            for (size_t q = 0; q + 8 <= sizeof(M); q += 8) { uint64_t w; memcpy(&w, buf[i] + q, 8); word(w); }
            for (int id : uni) h.add((uint64_t)(int64_t)md[i].val[id]);
        }
        for (auto & b : g_blocks) {
            h.add(b.bytes); h.add(b.arena);
            size_t q = 0;
            for (; q + 8 <= b.bytes; q += 8) { uint64_t w; memcpy(&w, b.p + q, 8); word(w); }
            uint64_t w = 0; if (q < b.bytes) { memcpy(&w, b.p + q, b.bytes - q); h.add(w); }
        }
        return h.get();
    }
};

// ---- breadth-first exploration with state deduplication ---------------------
struct Space {
    std::string name;
    std::function<void()> setup;          // hash assignment, fill byte
    std::vector<Op> prefix;               // executed before the search
    std::vector<Op> alphabet;
    std::vector<Op> suffix;               // executed after every history: the state must remain usable
    std::vector<int> uni;                 // ids audited
    int depth = 1000;                     // bound on the number of operations after the prefix
    size_t max_states = 1u << 22;
    size_t cap_bound = 0;
    int weight = 1;
};

template <class W> bool replay_ops(const Space & s, Ctx & c, const std::vector<int64_t> & dd, size_t head = 0) {
    if (s.setup) s.setup();
    std::vector<int64_t> d(dd.begin() + std::min(head, dd.size()), dd.end());
    { W w; w.uni = s.uni; w.cap_bound = s.cap_bound; w.ensure(0);
      for (auto & o : s.prefix) { w.exec(o); w.audit_all(); if (g_bad) return false; }
      for (auto e : d) { w.exec(dec(e)); w.audit_all(); if (g_bad) return false; }
      for (auto & o : s.suffix) { w.exec(o); w.audit_all(); if (g_bad) return false; }
      w.finish(); }
    (void)c;
    return !g_bad;
}

// head: values put in front of the operations of every case (the sub-space parameters)
template <class W> void run_space(const Space & s, Ctx & c, const std::vector<int64_t> & head = {}, bool want_sample = true) {
    if (s.setup) s.setup();
    struct Node { uint32_t parent; int64_t op; };
    std::vector<Node> nodes; std::unordered_set<H128, H128H> seen;
    std::vector<int64_t> path, cs(head);
    auto execute = [&](H128 & fp) {
        cs.resize(head.size()); cs.insert(cs.end(), path.begin(), path.end());
        c.begin(cs);
        { W w; w.uni = s.uni; w.cap_bound = s.cap_bound; w.ensure(0);
          for (auto & o : s.prefix) { w.exec(o); if (g_bad) c.check_bad(); }
          for (size_t q = 0; q < path.size(); q++) { w.exec(dec(path[q])); if (g_bad) c.check_bad(); }
          w.audit_all(); c.check_bad();
          fp = w.fingerprint();
          c.maxof("max_elements", (uint64_t)std::max(w.md[0].n, w.md[1].n));
          if (!s.suffix.empty()) { for (auto & o : s.suffix) { w.exec(o); if (g_bad) c.check_bad(); } w.audit_all(); c.check_bad(); }
          w.finish(); }
        c.check_bad();
    };
    H128 fp; execute(fp); seen.insert(fp); nodes.push_back({ UINT32_MAX, 0 });
    c.add_states(); c.add_execs();
    std::vector<int> dep(1, 0);
    bool capped = false; uint64_t edges = 0; int maxd = 0;
    for (size_t q = 0; q < nodes.size(); q++) {
        if (dep[q] >= s.depth) continue;
        std::vector<int64_t> basep;
        for (uint32_t t = (uint32_t)q; nodes[t].parent != UINT32_MAX; t = nodes[t].parent) basep.push_back(nodes[t].op);
        std::reverse(basep.begin(), basep.end());
        for (auto & o : s.alphabet) {
            path = basep; path.push_back(enc(o));
            execute(fp); edges++; c.add_transitions();
            if (seen.insert(fp).second) {
                if (nodes.size() >= s.max_states) { capped = true; c.add_execs(); continue; }
                nodes.push_back({ (uint32_t)q, enc(o) }); dep.push_back(dep[q] + 1); c.add_states(); c.add_nontrivial();
                if (dep.back() > maxd) maxd = dep.back();
                if (dep.back() >= s.depth) c.add_execs();
            } else c.add_execs();      // a maximal history: ends in a known state
        }
        if ((q & 63) == 0 && c.out_of_time()) { capped = true; break; }
    }
    c.maxof("max_depth", maxd);
    c.count(capped ? "spaces_capped" : (maxd < s.depth ? "spaces_closed" : "spaces_depth_bounded"));
    if (want_sample && nodes.size() > 3) {
        std::vector<int64_t> p; for (uint32_t t = (uint32_t)nodes.size() - 1; nodes[t].parent != UINT32_MAX; t = nodes[t].parent) p.push_back(nodes[t].op);
        std::reverse(p.begin(), p.end());
        c.sample(s.name + ": " + std::to_string(nodes.size()) + " states, " + std::to_string(edges) + " transitions; deepest: " + show_ops(p));
    }
}

template <class W> void add_space(const Space & s) {
    Job j; j.name = s.name; j.weight = s.weight;
    j.run = [s](Ctx & c) { run_space<W>(s, c); };
    j.replay = [s](Ctx & c, const std::vector<int64_t> & d) { return replay_ops<W>(s, c, d); };
    j.show = [s](const std::vector<int64_t> & d) { std::string r; for (auto & o : s.prefix) r += show_op(o) + "; "; return "[prefix: " + r + "] " + show_ops(d); };
    add_job(std::move(j));
}

// ---- explicitly generated histories ------------------------------------------
typedef std::function<void(const std::vector<Op> &)> Emit;
template <class W> void add_cases(const Space & s, std::function<void(const Emit &)> gen, bool audit_each = true) {
    Job j; j.name = s.name; j.weight = s.weight;
    j.run = [s, gen, audit_each](Ctx & c) {
        if (s.setup) s.setup();
        std::unordered_set<H128, H128H> out; uint64_t n = 0; std::string last; bool stop = false;
        gen([&](const std::vector<Op> & ops) {
            if (stop) return;
            std::vector<int64_t> d; for (auto & o : ops) d.push_back(enc(o));
            c.begin(d);
            { W w; w.uni = s.uni; w.cap_bound = s.cap_bound; w.ensure(0);
              for (auto & o : s.prefix) { w.exec(o); if (g_bad) c.check_bad(); }
              for (auto & o : ops) { w.exec(o); if (audit_each) w.audit_all(); if (g_bad) c.check_bad(); }
              w.audit_all(); c.check_bad();
              if (out.insert(w.fingerprint()).second) { c.add_states(); c.add_nontrivial(); }
              for (auto & o : s.suffix) { w.exec(o); if (g_bad) c.check_bad(); }
              w.audit_all(); c.check_bad();
              w.finish(); }
            c.check_bad();
            n++; c.add_execs(); c.add_transitions(ops.size());
            if ((n & 63) == 0) { last = show_ops(d); if (c.out_of_time()) stop = true; }
        });
        c.sample(s.name + ": " + std::to_string(n) + " histories, " + std::to_string(out.size()) + " distinct end states; " + last);
    };
    j.replay = [s](Ctx & c, const std::vector<int64_t> & d) { return replay_ops<W>(s, c, d); };
    j.show = [s](const std::vector<int64_t> & d) { std::string r; for (auto & o : s.prefix) r += show_op(o) + "; "; return "[prefix: " + r + "] " + show_ops(d); };
    add_job(std::move(j));
}

// ---- bounded sequences: every sequence of the given length over the alphabet -----
// (no deduplication; used from many start states)
template <class W> void run_sequences(const Space & s, int len, Ctx & c) {
    if (s.setup) s.setup();
    std::vector<size_t> ix(len, 0);
    std::vector<int64_t> path(len);
    uint64_t n = 0; H128 fp; std::unordered_set<H128, H128H> outcomes;
    for (;;) {
        for (int q = 0; q < len; q++) path[q] = enc(s.alphabet[ix[q]]);
        c.begin(path);
        { W w; w.uni = s.uni; w.cap_bound = s.cap_bound; w.ensure(0);
          for (auto & o : s.prefix) { w.exec(o); if (g_bad) c.check_bad(); }
          for (int q = 0; q < len; q++) { w.exec(dec(path[q])); if (g_bad) c.check_bad(); }
          w.audit_all(); c.check_bad();
          fp = w.fingerprint();
          if (!s.suffix.empty()) { for (auto & o : s.suffix) { w.exec(o); if (g_bad) c.check_bad(); } w.audit_all(); c.check_bad(); }
          w.finish(); }
        c.check_bad();
        n++; c.add_execs(); c.add_transitions((uint64_t)len);
        if (outcomes.insert(fp).second) { c.add_states(); c.add_nontrivial(); }
        if ((n & 255) == 0 && c.out_of_time()) return;
        int q = len - 1;
        while (q >= 0 && ++ix[q] == s.alphabet.size()) ix[q--] = 0;
        if (q < 0) break;
    }
    c.sample(s.name + ": " + std::to_string(n) + " histories, " + std::to_string(outcomes.size()) + " distinct end states; last: " + show_ops(path));
}
template <class W> void add_sequences(const Space & s, int len) {
    Job j; j.name = s.name; j.weight = s.weight;
    j.run = [s, len](Ctx & c) { run_sequences<W>(s, len, c); };
    j.replay = [s](Ctx & c, const std::vector<int64_t> & d) { return replay_ops<W>(s, c, d); };
    j.show = [s](const std::vector<int64_t> & d) { std::string r; for (auto & o : s.prefix) r += show_op(o) + "; "; return "[prefix: " + r + "] " + show_ops(d); };
    add_job(std::move(j));
}

} // namespace mc
#endif
