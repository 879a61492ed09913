// P19: flat16_hash_map and robin16_hash_map behave as maps on every operation history.
#include <jstd/basic/stddef.h>
#include <unordered_map>
namespace std { struct mc_none_; size_t erase_if(mc_none_ &, int); }   // named by world.h
#include "spaces.h"
#include "onepass.h"
#ifdef MC_F16
#include <jstd/hashmap/flat16_hash_map.h>
#define KINDNAME "flat16"
#define KFLAT 1
#else
#include <jstd/hashmap/robin16_hash_map.h>
#define KINDNAME "robin16"
#define KFLAT 0
#endif
using namespace mc;

// these containers construct through the allocator object itself and name the hasher's types
template <class T> struct LAlloc : TAlloc<T, 0> {
    using TAlloc<T, 0>::TAlloc;
    LAlloc() = default;
    template <class U> LAlloc(const LAlloc<U> & o) noexcept : TAlloc<T, 0>(o.arena) {}
    template <class U> struct rebind { using other = LAlloc<U>; };
    LAlloc select_on_container_copy_construction() const { return *this; }
    template <class U, class... A> void construct(U * p, A &&... a) { ::new ((void *)p) U(std::forward<A>(a)...); }
    template <class U> void destroy(U * p) { p->~U(); }
};
template <class K> struct LHash {
    typedef size_t result_type; typedef K argument_type;
    size_t operator()(const K & k) const noexcept { int i = El<K>::id(k); return (size_t)g_hash[(unsigned)i & 511]; }
};

template <class K_, class V_> struct LWorld {
    using K = K_; using V = V_; using H = LHash<K>; using E = PEq<K>; using PV = std::pair<K, V>; using A = LAlloc<PV>;
#ifdef MC_F16
    using M = jstd::flat16_hash_map<K, V, H, E, A>;
#else
    using M = jstd::robin16_hash_map<K, V, H, E, A>;
#endif
    static constexpr int kTracked = (El<K>::tracked ? 1 : 0) + (El<V>::tracked ? 1 : 0);
    static constexpr bool kIntConv = !std::is_same<K, std::string>::value && !std::is_same<V, std::string>::value;
    alignas(64) unsigned char buf[2][sizeof(M)];
    bool alive[2] = { false, false };
    Model md[2];
    std::vector<int> uni; size_t base_live = 0; const char * opname = ""; size_t cap_bound = 0;

    static K & key(int id) { return key_table<K>(id); }
    static K mk(int i) { return El<K>::make(i); }
    static V mv(int i) { return El<V>::make(i); }
    M & m(int i) { return *reinterpret_cast<M *>(buf[i]); }
    const M & cm(int i) { return *reinterpret_cast<const M *>(buf[i]); }
    LWorld() { key(0); memset(buf, 0, sizeof buf); base_live = g_reg.live; g_allocs = g_frees = 0; if (!g_blocks.empty()) bad("blocks left over"); }
    void kill(int i) { if (!alive[i]) return; alive[i] = false; m(i).~M(); memset(buf[i], 0, sizeof buf[i]); md[i].reset(); }
    void ensure(int i) { if (!alive[i]) { new (buf[i]) M(A(1)); alive[i] = true; md[i].reset(); } }
    void finish() {
        kill(0); kill(1);
        if (g_reg.live != base_live) bad("%ld element objects still alive after the containers were destroyed", (long)g_reg.live - (long)base_live);
        if (!g_blocks.empty()) bad("%zu blocks not returned (first: %zu bytes)", g_blocks.size(), g_blocks[0].bytes);
    }
    template <class It> void want_it(int i, const It & it, int k, int v) {
        if (it == m(i).end()) { bad("%s: returned end() instead of the element %d", opname, k); return; }
        int gk = El<K>::id(it->first), gv = El<V>::id(it->second);
        if (gk != k) bad("%s: returned position holds key %d, not %d", opname, gk, k);
        else if (gv != v) bad("%s: key %d has value %d, expected %d", opname, k, gv, v);
    }
    template <class R> void want(int i, const R & r, bool ins, int k, int v) { if (r.second != ins) bad("%s: reported %d for key %d, expected %d", opname, (int)r.second, k, (int)ins); want_it(i, r.first, k, v); }
    void arg(const char * what, int got, int want) { if (got != want) bad("%s: %s argument was changed (%d -> %d)", opname, what, want, got); }
    std::vector<int> order(int i) { std::vector<int> o; size_t n = 0; for (auto it = m(i).begin(); it != m(i).end(); ++it) { if (++n > 2048) { bad("iteration does not end"); break; } o.push_back(El<K>::id(it->first)); } return o; }
    template <class It, class End> void want_cover(It it, End e, std::vector<int> must, const char * what) {
        std::vector<int> got; size_t steps = 0;
        for (; it != e; ++it) { if (++steps > 2048) { bad("%s: iteration from the returned position does not end", opname); return; } got.push_back(El<K>::id(it->first)); }
        std::sort(got.begin(), got.end());
        for (int x : must) if (!std::binary_search(got.begin(), got.end(), x)) { bad("%s: survivor %d is not reached from the returned position", what, x); return; }
    }
    static bool in_mask(int id, uint32_t x) { return id >= 0 && id < 32 ? (x >> id & 1) : (x >> (unsigned)(id % 31) & 1); }

    void exec(const Op & o) { try { exec_(o); } catch (const std::exception & e) { bad("%s: unexpected exception: %s", opname, e.what()); } }
    void exec_(const Op & o) {
        const int i = (o.c & 0x80) ? 1 : 0, j = 1 - i; const uint8_t c = o.c & 0x7F;
        opname = c < O_COUNT_ ? kOpName[c] : "?";
        if (c != O_RECON && c != O_DESTROY && c != O_RANGE_CTOR && c != O_IL_CTOR && !(c >= O_COPY && c <= O_MOVEA)) ensure(i);
        M & a = m(i); Model & d = md[i];
        const int k = o.k, v = o.v; const bool had = d.has(k); const int old = d.val[k], keep = had ? old : v;
        switch (c) {
        case O_INS_C: { const PV e(mk(k), mv(v)); auto r = a.insert(e); d.put(k, keep); want(i, r, !had, k, keep); arg("key", El<K>::raw(e.first), k); arg("value", El<V>::raw(e.second), v); } break;
        case O_INS_R: { PV e(mk(k), mv(v)); auto r = a.insert(std::move(e)); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case O_INS_HC: { const PV e(mk(k), mv(v)); auto r = a.insert(a.cbegin(), e); d.put(k, keep); want_it(i, r, k, keep); } break;
        case O_INS_HR: { PV e(mk(k), mv(v)); auto r = a.insert(a.cend(), std::move(e)); d.put(k, keep); want_it(i, r, k, keep); } break;
        case O_INS_CONV: if constexpr (kIntConv && El<K>::tracked) { std::pair<int, int> e(k, v); auto r = a.insert(e); d.put(k, keep); want(i, r, !had, k, keep); arg("key", e.first, k); arg("value", e.second, v); } break;
        case O_EMP_L: { K kk = mk(k); V vv = mv(v); auto r = a.emplace(kk, vv); d.put(k, keep); want(i, r, !had, k, keep); arg("key", El<K>::raw(kk), k); arg("value", El<V>::raw(vv), v); } break;
        case O_EMP_R: { auto r = a.emplace(mk(k), mv(v)); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case O_EMP_PAIR: { auto r = a.emplace(PV(mk(k), mv(v))); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case O_EMP_PW: { auto r = a.emplace(std::piecewise_construct, std::forward_as_tuple(mk(k)), std::forward_as_tuple(mv(v))); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case O_EMP_INT: if constexpr (kIntConv) { int ki = k, vi = v; auto r = a.emplace(ki, vi); d.put(k, keep); want(i, r, !had, k, keep); arg("key", ki, k); arg("value", vi, v); } break;
        case O_EMP_HINT: { auto r = a.emplace_hint(a.cbegin(), mk(k), mv(v)); d.put(k, keep); want_it(i, r, k, keep); } break;
        case O_TE_L: { K kk = mk(k); V vv = mv(v); auto r = a.try_emplace(kk, std::move(vv)); d.put(k, keep); want(i, r, !had, k, keep); arg("key", El<K>::raw(kk), k); if (had) arg("value", El<V>::raw(vv), v); } break;
        case O_TE_R: { K kk = mk(k); V vv = mv(v); auto r = a.try_emplace(std::move(kk), std::move(vv)); d.put(k, keep); want(i, r, !had, k, keep); if (had) { arg("key", El<K>::raw(kk), k); arg("value", El<V>::raw(vv), v); } } break;
        case O_TE_0: { const int w = had ? old : 0; auto r = a.try_emplace(key(k)); d.put(k, w); want(i, r, !had, k, w); arg("key", El<K>::raw(key(k)), k); } break;
        case O_IDX_L: { K kk = mk(k); V & ref = a[kk]; d.put(k, had ? old : 0); arg("key", El<K>::raw(kk), k); if (El<V>::id(ref) != d.val[k]) bad("m[k]: value %d of key %d, expected %d", El<V>::id(ref), k, d.val[k]); ref = mv(v); d.put(k, v); } break;
        case O_IDX_R: { V & ref = a[mk(k)]; d.put(k, had ? old : 0); if (El<V>::id(ref) != d.val[k]) bad("m[k]: value %d of key %d, expected %d", El<V>::id(ref), k, d.val[k]); ref = mv(v); d.put(k, v); } break;
        case O_IDX_GET: { const V & ref = a[key(k)]; d.put(k, had ? old : 0); if (El<V>::id(ref) != d.val[k]) bad("m[k]: value %d of key %d, expected %d", El<V>::id(ref), k, d.val[k]); } break;
        case O_IOA_L: { K kk = mk(k); auto r = a.insert_or_assign(kk, mv(v)); d.put(k, v); want(i, r, !had, k, v); arg("key", El<K>::raw(kk), k); } break;
        case O_IOA_R: { K kk = mk(k); auto r = a.insert_or_assign(std::move(kk), mv(v)); d.put(k, v); want(i, r, !had, k, v); } break;
        case O_IOA_LV: { const K kk = mk(k); V vv = mv(v); auto r = a.insert_or_assign(kk, vv); d.put(k, v); want(i, r, !had, k, v); arg("key", El<K>::raw(kk), k); arg("value", El<V>::raw(vv), v); } break;
        case O_AT_SET: { bool threw = false; try { a.at(key(k)) = mv(v); } catch (const std::out_of_range &) { threw = true; } if (threw == had) bad("at(%d): %s although the key is %s", k, threw ? "threw" : "did not throw", had ? "present" : "absent"); if (had) d.put(k, v); } break;
        case O_FIND_SET: { auto it = a.find(key(k)); bool f = it != a.end(); if (f != had) bad("find(%d): %s", k, f ? "found an absent key" : "missed a present key"); else if (f) { it->second = mv(v); d.put(k, v); } } break;
        case O_ITER_SET: { size_t n = 0; for (auto it = a.begin(); it != a.end(); ++it) { if (++n > 2048) { bad("iteration does not end"); break; } int id = El<K>::id(it->first); it->second = mv(v); if (id >= 0 && id < ID_MAX && d.has(id)) d.put(id, v); } } break;
        case O_INS_ALWAYS: { const PV e(mk(k), mv(v)); auto r = a.insert_always(e); d.put(k, v); want(i, r, !had, k, v); } break;
        case O_RANGE_INS: {
            std::vector<PV> s; int w = v;
            for (int b = 0; b < 16; b++) if (o.x >> b & 1) { s.emplace_back(mk(b), mv(w)); w++; }
            if (!s.empty()) { int id = El<K>::id(s[0].first); s.emplace_back(mk(id), mv(9)); }
            a.insert(s.begin(), s.end());
            for (auto & e : s) { int id = El<K>::raw(e.first); if (id < 0 || id >= ID_MAX) { bad("insert(range): changed the source range"); break; } if (!d.has(id)) d.put(id, El<V>::raw(e.second)); }
        } break;
        case O_RANGE_SELF: if (alive[j]) { a.insert(m(j).begin(), m(j).end()); for (int id = 0; id < ID_MAX; id++) if (md[j].has(id) && !d.has(id)) d.put(id, md[j].val[id]); } break;
        case O_IL_INS: { std::initializer_list<typename M::value_type> il = { { mk(k), mv(v) }, { mk(k + 1), mv(v) }, { mk(k), mv(v + 1) } }; a.insert(il); if (!d.has(k)) d.put(k, v); if (!d.has(k + 1)) d.put(k + 1, v); } break;
        case O_ER_K: { size_t n = a.erase(key(k)); d.del(k); if (n != (had ? 1u : 0u)) bad("erase(%d): reported %zu, expected %d", k, n, (int)had); } break;
        case O_ER_IT: case O_ER_CIT: {
            auto it = a.find(key(k)); if ((it != a.end()) != had) { bad("find(%d): wrong answer before erase", k); break; }
            if (!had) break;
            std::vector<int> ord = order(i), must; bool seen = false;
            for (int id : ord) { if (seen) must.push_back(id); if (id == k) seen = true; }
            if (c == O_ER_IT) { auto r = a.erase(it); d.del(k); want_cover(r, a.end(), must, "erase(iterator)"); }
            else { typename M::const_iterator ci = it; auto r = a.erase(ci); d.del(k); want_cover(r, typename M::const_iterator(a.end()), must, "erase(const_iterator)"); }
        } break;
        case O_ER_RANGE: {
            std::vector<int> ord = order(i); size_t lo = std::min<size_t>(k, ord.size()), hi = std::min<size_t>(std::max(v, k), ord.size());
            std::vector<int> must(ord.begin() + hi, ord.end());
            auto f = a.begin(); for (size_t q = 0; q < lo; q++) ++f;
            auto l = f; for (size_t q = lo; q < hi; q++) ++l;
            auto r = a.erase(f, l); for (size_t q = lo; q < hi; q++) d.del(ord[q]);
            want_cover(r, a.end(), must, "erase(range)");
        } break;
        case O_ER_IF: {
            size_t want_n = 0; for (int id = 0; id < ID_MAX; id++) if (d.has(id) && in_mask(id, o.x)) want_n++;
            uint32_t x = o.x; size_t n = erase_if(a, [x](const PV & e) { return in_mask(El<K>::id(e.first), x); });
            if (n != want_n) bad("erase_if: reported %zu removed, expected %zu", n, want_n);
            for (int id = 0; id < ID_MAX; id++) if (in_mask(id, o.x)) d.del(id);
        } break;
        case O_ER_WALK: {
            std::vector<int> seen; size_t steps = 0, total = (size_t)d.n;
            for (auto it = a.begin(); it != a.end();) { if (++steps > 2 * total + 2) { bad("erase-walk: more steps than elements"); break; } int id = El<K>::id(it->first); seen.push_back(id); if (in_mask(id, o.x)) it = a.erase(it); else ++it; }
            std::sort(seen.begin(), seen.end()); seen.erase(std::unique(seen.begin(), seen.end()), seen.end());
            std::vector<int> all; for (int id = 0; id < ID_MAX; id++) if (d.has(id)) all.push_back(id);
            if (seen != all) bad("erase-walk: visited %zu elements of %zu", seen.size(), all.size());
            for (int id = 0; id < ID_MAX; id++) if (in_mask(id, o.x)) d.del(id);
        } break;
        case O_CLEAR: a.clear(o.x != 0); d.reset(); break;
        case O_RESERVE: a.reserve((size_t)o.x); break;
        case O_REHASH: a.rehash((size_t)o.x); break;
        case O_SHRINK: a.shrink_to_fit(); break;
        case O_MLF: a.max_load_factor((float)o.x / 100.0f); break;
        case O_COPY: if (alive[j]) { kill(i); new (buf[i]) M(cm(j)); alive[i] = true; md[i] = md[j]; } break;
        case O_COPYA: if (alive[j]) { kill(i); new (buf[i]) M(cm(j), A((int)o.x)); alive[i] = true; md[i] = md[j]; } break;
        case O_MOVE: if (alive[j]) { kill(i); new (buf[i]) M(std::move(m(j))); alive[i] = true; md[i] = md[j]; kill(j); } break;
        case O_SWAP: ensure(j); if (a.get_allocator().arena != m(j).get_allocator().arena) break; a.swap(m(j)); std::swap(md[0], md[1]); break;
        case O_SELFSWAP: a.swap(a); break;
        case O_RECON: kill(i); new (buf[i]) M((size_t)o.x, H(), E(), A(1)); alive[i] = true; break;
        case O_RANGE_CTOR: {
            std::vector<PV> s; int w = v;
            for (int b = 0; b < 16; b++) if (o.x >> b & 1) { s.emplace_back(mk(b), mv(w)); w++; }
            if (!s.empty()) { int id = El<K>::id(s[0].first); s.emplace_back(mk(id), mv(9)); }
            kill(i);
            if (o.x >> 16) new (buf[i]) M(OnePass<PV>(s), OnePass<PV>(), (size_t)k, H(), E(), A(1));      // single-pass source
            else new (buf[i]) M(s.begin(), s.end(), (size_t)k, H(), E(), A(1));
            alive[i] = true;
            for (auto & e : s) { int id = El<K>::raw(e.first); if (!md[i].has(id)) md[i].put(id, El<V>::raw(e.second)); }
        } break;
        case O_IL_CTOR: { std::initializer_list<typename M::value_type> il = { { mk(k), mv(v) }, { mk(k + 1), mv(v) }, { mk(k), mv(v + 1) } }; kill(i); new (buf[i]) M(il, (size_t)o.x, H(), E(), A(1)); alive[i] = true; md[i].put(k, v); md[i].put(k + 1, v); } break;
        case O_DESTROY: kill(i); break;
        case O_FILL: for (uint32_t q = 0; q < o.x && !g_bad; q++) { int id = FILL_BASE + k + (int)q; bool h2 = d.has(id); int w = h2 ? d.val[id] : 1 + (int)(q % 3); auto r = a.emplace(mk(id), mv(1 + (int)(q % 3))); d.put(id, w); want(i, r, !h2, id, w); } break;
        case O_UNFILL: case O_UNFILLR: for (uint32_t q = 0; q < o.x && !g_bad; q++) { int id = FILL_BASE + k + (int)(c == O_UNFILL ? q : o.x - 1 - q); size_t n = a.erase(key(id)); bool h2 = d.del(id); if (n != (h2 ? 1u : 0u)) bad("erase(%d): reported %zu", id, n); } break;
        case O_CHURN: {   // x steps over a sliding window of v elements whose ids rotate
            const int win = v, n = v + 1 + k / 16, stride = 1 + k % 16;
            for (uint32_t q = 0; q < o.x && !g_bad; q++) {
                int id = FILL_BASE + 64 + (int)((uint64_t)q * stride % n);
                bool h2 = d.has(id); auto r = a.emplace(mk(id), mv(1 + (int)(q % 3))); int w = h2 ? d.val[id] : 1 + (int)(q % 3); d.put(id, w); want(i, r, !h2, id, w);
                if ((int)q >= win) { int dd = FILL_BASE + 64 + (int)((uint64_t)(q - win) * stride % n); bool h3 = d.has(dd); size_t e = a.erase(key(dd)); d.del(dd); if (e != (h3 ? 1u : 0u)) bad("erase(%d): reported %zu", dd, e); }
                if (cap_bound && a.capacity() > cap_bound) bad("capacity %zu exceeds %zu with %d live elements after %u steps", (size_t)a.capacity(), cap_bound, d.n, q);
                if ((q & 63) == 63) audit(i);
            }
        } break;
        default: break;
        }
    }
    void audit(int i) {
        if (!alive[i] || g_bad) return;
        M & a = m(i); const M & ca = a; Model & d = md[i];
        if (a.size() != (size_t)d.n) { bad("size() is %zu, expected %d", (size_t)a.size(), d.n); return; }
        if (a.empty() != (d.n == 0)) { bad("empty() is wrong"); return; }
        uint8_t seen[ID_MAX]; memset(seen, 0, sizeof seen); size_t n = 0;
        for (auto it = a.begin(); it != a.end(); ++it) {
            if (++n > (size_t)d.n) { bad("iteration visits more than the %d elements", d.n); return; }
            int k = El<K>::id(it->first), v = El<V>::id(it->second); if (g_bad) return;
            if (k < 0 || k >= ID_MAX || !d.has(k)) { bad("iteration shows key %d which is not stored", k); return; }
            if (seen[k]++) { bad("iteration shows key %d twice", k); return; }
            if (v != d.val[k]) { bad("iteration shows value %d for key %d, expected %d", v, k, d.val[k]); return; }
        }
        if (n != (size_t)d.n) { bad("iteration visits %zu of %d elements", n, d.n); return; }
        n = 0;
        for (auto it = ca.begin(); it != ca.end(); it++) { if (++n > (size_t)d.n) { bad("const iteration visits more than the %d elements", d.n); return; } int k = El<K>::id((*it).first); if (k < 0 || k >= ID_MAX || seen[k] != 1) { bad("const iteration shows key %d", k); return; } seen[k] = 2; }
        if (n != (size_t)d.n) { bad("const iteration visits %zu of %d elements", n, d.n); return; }
        for (int k : uni) {
            const K & q = key(k); const bool h = d.has(k); auto it = a.find(q);
            if ((it != a.end()) != h) { bad("find(%d): %s", k, h ? "missed a stored key" : "found a key that is not stored"); return; }
            if (h && (El<K>::id(it->first) != k || El<V>::id(it->second) != d.val[k])) { bad("find(%d): wrong element", k); return; }
            auto cit = ca.find(q); if ((cit != ca.end()) != h || (h && El<K>::id(cit->first) != k)) { bad("const find(%d) differs", k); return; }
            if (ca.contains(q) != h) { bad("contains(%d) is %d", k, (int)!h); return; }
            if (ca.count(q) != (h ? 1u : 0u)) { bad("count(%d) is wrong", k); return; }
            auto er = a.equal_range(q); if ((er.first != er.second) != h || (h && El<K>::id(er.first->first) != k)) { bad("equal_range(%d) is wrong", k); return; }
            if (h && El<V>::id(ca.at(q)) != d.val[k]) { bad("at(%d) is wrong", k); return; }
        }
        if (a.capacity() < (size_t)d.n) { bad("capacity() %zu below size %d", (size_t)a.capacity(), d.n); return; }
    }
    void audit_all() {
        audit(0); audit(1); if (g_bad) return;
        size_t want_live = base_live + (size_t)kTracked * ((alive[0] ? md[0].n : 0) + (alive[1] ? md[1].n : 0));
        if (g_reg.live != want_live) bad("%ld element objects alive in the containers, expected %ld", (long)g_reg.live - (long)base_live, (long)want_live - (long)base_live);
    }
    H128 fingerprint() {
        Hasher128 h;
        auto word = [&](uint64_t w) {
            for (size_t b = 0; b < g_blocks.size(); b++) { uint64_t p = (uint64_t)g_blocks[b].p; if (w >= p && w <= p + g_blocks[b].bytes) { h.add(0xB10C000000000000ull | b << 40 | (w - p)); return; } }
            for (int i = 0; i < 2; i++) if (alive[i] && w == (uint64_t)(const void *)m(i).groups()) { h.add(0x6209000000000000ull | (uint64_t)i); return; }
            h.add(w);
        };
        for (int i = 0; i < 2; i++) {
            h.add(alive[i]); if (!alive[i]) continue;
            for (size_t q = 0; q + 8 <= sizeof(M); q += 8) { uint64_t w; memcpy(&w, buf[i] + q, 8); word(w); }
            if (m(i).groups()) { const unsigned char * g = (const unsigned char *)(const void *)m(i).groups(); size_t n = m(i).group_capacity() * sizeof(*m(i).groups()); for (size_t q = 0; q + 8 <= n; q += 8) { uint64_t w; memcpy(&w, g + q, 8); h.add(w); } }
            for (int id : uni) h.add((uint64_t)(int64_t)md[i].val[id]);
        }
        for (auto & b : g_blocks) { h.add(b.bytes); h.add(b.arena); size_t q = 0; for (; q + 8 <= b.bytes; q += 8) { uint64_t w; memcpy(&w, b.p + q, 8); word(w); } uint64_t w = 0; if (q < b.bytes) { memcpy(&w, b.p + q, b.bytes - q); h.add(w); } }
        return h.get();
    }
};

#if MC_PART == 0
typedef LWorld<Obj<1, 8>, Obj<2, 8>> W; static const char * const CN = "tracked8";
#elif MC_PART == 1
typedef LWorld<Obj<1, 24>, Obj<2, 32>> W; static const char * const CN = "tracked-big";
#elif MC_PART == 2
typedef LWorld<int, int> W; static const char * const CN = "int";
#else
typedef LWorld<std::string, std::string> W; static const char * const CN = "string";
#endif

static Ops l_forms(int nk, int v) {
    Ops a; int q = 0;
    for (uint8_t c : { O_INS_C, O_INS_R, O_INS_HC, O_INS_HR, O_INS_CONV, O_EMP_L, O_EMP_R, O_EMP_PAIR, O_EMP_PW, O_EMP_INT, O_EMP_HINT, O_TE_L, O_TE_R, O_TE_0, O_IDX_L, O_IDX_R, O_IDX_GET, O_IOA_L, O_IOA_R, O_IOA_LV, O_AT_SET, O_FIND_SET, O_ITER_SET, O_INS_ALWAYS }) { a.push_back(op(c, q % nk, v)); q++; }
    return a;
}
static Ops l_erase(int nk) {
    Ops a;
    for (int k = 0; k < nk; k++) { a.push_back(op(O_ER_IT, k)); a.push_back(op(O_ER_CIT, k)); }
    for (int i = 0; i <= 3; i++) for (int j = i; j <= 4; j++) a.push_back(op(O_ER_RANGE, i, j));
    a.push_back(op(O_ER_RANGE, 0, 200));
    for (uint32_t x : { 0x55555555u, 0xAAAAAAAAu, 0x1u, 0xFFFFFFFFu, 0xFFFFFFFEu }) { a.push_back(op(O_ER_IF, 0, 0, x)); a.push_back(op(O_ER_WALK, 0, 0, x)); }
    return a;
}
static Ops l_whole() {
    return { op(O_CLEAR, 0, 0, 0), op(O_CLEAR, 0, 0, 1), op(O_RESERVE, 0, 0, 0), op(O_RESERVE, 0, 0, 9), op(O_REHASH, 0, 0, 20), op(O_SHRINK), op(O_MLF, 0, 0, 80), op(O_MLF, 0, 0, 25), op(O_MLF, 0, 0, 50),
             op(O_RANGE_INS, 0, 1, 0x7), op(O_RANGE_INS, 0, 2, 0xA), op(O_IL_INS, 0, 1), op(O_IL_INS, 1, 2), op(O_RECON, 0, 0, 0), op(O_RECON, 0, 0, 17), op(O_RANGE_CTOR, 0, 1, 0x5), op(O_RANGE_CTOR, 0, 1, 0x1000D), op(O_RANGE_CTOR, 30, 1, 0x3F), op(O_IL_CTOR, 0, 1, 4),
             opB(O_COPY), op(O_COPY), opB(O_COPYA, 0, 0, 7), opB(O_MOVE), op(O_MOVE), op(O_SWAP), op(O_SELFSWAP), opB(O_DESTROY), op(O_RANGE_SELF) };
}
// homes for the ids 0..: id i has home g_homes[i % 6], different high bits
static int g_homes[6];
static uint64_t hp_homes(int id) { return id < FILL_BASE ? (uint64_t)(int64_t)g_homes[id % 6] + ((uint64_t)(id / 6) << 20) : (uint64_t)id * 0x9E3779B97F4A7C15ull; }
// fills share a home (until the table has grown past 1024 slots), the small ids live one place before
static uint64_t hp_far(int id) { return (uint64_t)(id < FILL_BASE ? 5 : 6) + ((uint64_t)id << 10); }

static void reg() {
    const bool T = thorough();
    // every order of insertions over six homes around the end of the table
    {
        static const int sets[][6] = { { -3, -2, -1, 0, 1, 2 }, { -1, 0, 1, 2, 3, 4 }, { -4, -3, -2, 0, 1, 14 } };
        int q = 0;
        for (auto & hs : sets) {
            for (int cap : { 16, 32 }) for (int first = 0; first < 6; first++) {
                Space s; s.name = std::string(KINDNAME "/") + CN + "/order" + std::to_string(q) + "/cap" + std::to_string(cap) + "/first" + std::to_string(first);
                s.setup = [&hs] { memcpy(g_homes, hs, sizeof g_homes); hash_all(hp_homes); };
                s.prefix.push_back(op(O_RECON, 0, 0, cap)); s.weight = 2; s.uni = uni_of(6, 0, 0);
                const int len = (T ? 8 : MC_PART == 2 ? 7 : 5) - KFLAT;
                for (int k = 6; k < 6 * 5; k++) s.uni.push_back(k);
                add_cases<W>(s, [first, len](const Emit & emit) {
                    std::vector<int> d(len, 0); d[0] = first;
                    for (;;) {
                        int cnt[6] = { 0, 0, 0, 0, 0, 0 }; Ops o; std::vector<int> ids; bool ok = true;
                        for (int x : d) { int id = x + 6 * cnt[x]++; ids.push_back(id); if (cnt[x] > 5) ok = false; o.push_back(op(O_EMP_R, id, 1)); }
                        if (ok) { emit(o); o.push_back(op(O_ER_K, ids[len / 2])); o.push_back(op(O_ER_K, ids[0])); emit(o); }
                        int p = len - 1; while (p > 0 && ++d[p] == 6) d[p--] = 0;
                        if (p == 0) return;
                    }
                }, false);
            }
            q++;
        }
    }
    // an element is displaced far away from its home
    for (int f : T ? std::vector<int>{ 100, 120, 124, 125, 126, 127, 128, 129, 130, 131, 132, 140 } : std::vector<int>{ 120, 125, 126, 127, 128, 129, 130 }) {
        Space s; s.name = std::string(KINDNAME "/") + CN + "/far" + std::to_string(f); s.setup = [] { hash_all(hp_far); };
        s.prefix = { op(O_RECON, 0, 0, 1000), op(O_FILL, 0, 0, f) }; s.weight = 3;
        s.uni = uni_of(4, 0, 3); s.uni.push_back(FILL_BASE + f / 2); s.uni.push_back(FILL_BASE + f - 1); s.uni.push_back(FILL_BASE + f);
        s.alphabet = a_core(4) + Ops{ op(O_FILL, f, 0, 1), op(O_UNFILL, 0, 0, 1), op(O_UNFILL, f / 2, 0, 1), op(O_FILL, 0, 0, f) };
        s.depth = T ? 9 : 5; s.max_states = T ? 3000 : 150; add_space<W>(s);
    }
    for (auto & P : kPatterns) {
        const bool chain = P.f == hp_same || P.f == hp_ones || P.f == hp_top;
        std::vector<int> fills = T ? std::vector<int>{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 17, 24, 28, 31, 32, 33, 60, 110 } : std::vector<int>{ 0, 2, 5, 7, 14, 16, 30 };
        for (int f : fills) {
            if (chain && f > 33) continue;
            Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/fill" + std::to_string(f);
            auto pf = P.f; s.setup = [pf] { hash_all(pf); };
            if (f) s.prefix.push_back(op(O_FILL, 0, 0, f));
            const int nk = 3;
            s.uni = uni_of(nk + 3, 0, f); s.alphabet = a_core(nk); s.depth = T ? 16 : 8; s.max_states = T ? 40000 : 700; s.weight = 3;
            if (f) { s.alphabet.push_back(op(O_UNFILL, 0, 0, 1)); s.alphabet.push_back(op(O_UNFILLR, 0, 0, f)); }
            add_space<W>([&] { Space q = s; q.name += "/core"; return q; }());
            Space t = s; t.name += "/all"; t.alphabet = a_core(nk) + l_forms(nk, 2) + l_erase(nk) + l_whole();
            if (f) { t.alphabet.push_back(op(O_UNFILL, 0, 0, f)); t.alphabet.push_back(op(O_UNFILLR, 0, 0, f / 2)); }
            t.depth = T ? 4 : 3; t.max_states = T ? 8000 : 100;
            add_space<W>(t);
        }
        // long probe sequences
        if (chain || P.f == hp_mod3 || P.f == hp_pair) for (int f : T ? std::vector<int>{ 64, 100, 126, 127, 128, 129, 130, 140, 160, 190, 220 } : std::vector<int>{ 70, 127, 130, 190 }) {
            Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/deep" + std::to_string(f);
            auto pf = P.f; s.setup = [pf] { hash_all(pf); }; s.prefix.push_back(op(O_FILL, 0, 0, f)); s.weight = 2;
            s.uni = uni_of(2, 0, 4); s.uni.push_back(FILL_BASE + f / 2); s.uni.push_back(FILL_BASE + f - 1);
            s.alphabet = a_core(2) + Ops{ op(O_UNFILL, 0, 0, 1), op(O_UNFILL, f / 2, 0, 2), op(O_UNFILLR, 1, 0, f - 1), op(O_REHASH, 0, 0, 0), op(O_ER_WALK, 0, 0, 0x55555555u), op(O_FILL, 0, 0, f) };
            s.depth = T ? 5 : 3; s.max_states = T ? 2000 : 60; add_space<W>(s);
        }
        // sliding windows: tables full of removed elements
        if (!chain) {
            Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/churn"; auto pf = P.f; s.setup = [pf] { hash_all(pf); }; s.weight = 2;
            add_cases<W>(s, [T](const Emit & emit) { for (int win : { 0, 1, 3, 7, 12, 15, 20, 30, 40 }) for (int var : { 1, 17, 0x65, 0xF3 }) emit({ op(O_CHURN, var, win, T ? 2000 : 300) }); });
        }
    }
}
static Registrar r_(reg);
