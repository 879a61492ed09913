// Overloads beyond the basic ones: further lookups, insertions from other types, several constructor
// arguments, every constructor, iterator arithmetic. One operation O_EXT, the form is the low byte of x.
#ifndef MC_EXT_H
#define MC_EXT_H
#include "world.h"
#include "onepass.h"
#include <list>
#include <map>
namespace mc {

// another type a key or value can be made from
template <class T, class = void> struct Src;
template <class T> struct Src<T, std::enable_if_t<El<T>::tracked>> {
    using X = int; static X x(int id) { return id; }                    // implicit
    static constexpr bool two = true;
    static auto args(int id) { return std::make_tuple(id - 1, 1); }     // two arguments
};
template <> struct Src<int> {
    using X = short; static X x(int id) { return (short)id; }
    static constexpr bool two = false;
    static auto args(int id) { return std::make_tuple(id); }
};
template <> struct Src<std::string> {
    using X = const char *; static X x(int id) { return El<std::string>::table()[id].c_str(); }
    static constexpr bool two = true;
    static auto args(int id) { auto & s = El<std::string>::table()[id]; return std::make_tuple(s.c_str(), s.size()); }
};

enum Ext : uint32_t {
    // insertions
    X_EMP_2, X_EMP_X2, X_EMP_XX, X_EMP_PX, X_EMP_PWX, X_EMP_PW2, X_EMPH_L, X_EMPH_2, X_EMPH_PW,
    X_INS_PXR, X_INS_HPX, X_INS_HCP, X_INS_KVX,
    X_IOA_X, X_IOA_HX, X_IOA_VX, X_IOA_VL_R, X_IOA_H_CL,
    X_TE_HL, X_TE_HR, X_TE_X, X_TE_XH, X_TE_X0, X_TE_2, X_TE_H2, X_TE_HR2, X_TE_H0, X_IDX_X,
    X_ALW_KV, X_ALW_KVR, X_ALW_X,
    X_INS_LAST_,
    // erasures
    X_ER_X = X_INS_LAST_, X_ER_KEYS, X_ER_KEYLIST, X_ER_ONE,
    // lookups and iterators
    X_LOOK, X_ITERS,
    // constructors: k = capacity, x >> 8 = mask of keys, v = first value
    X_C_CAP, X_C_CAPH, X_C_CAPHE, X_C_CAPHEA, X_C_CAPA, X_C_CAPHA, X_C_ALLOC, X_C_0,
    X_C_FL, X_C_FLA, X_C_FLC, X_C_FLCH, X_C_FLCHE, X_C_FLCHEA, X_C_FLCA, X_C_FLCHA,
    X_C_IL, X_C_ILA, X_C_ILC, X_C_ILCHEA, X_C_ILCA, X_C_ILCHA,
    X_C_LIST, X_C_PTR, X_C_ONEPASS, X_C_MAP, X_C_MOVE, X_C_PX,
    X_I_LIST, X_I_PTR, X_I_ONEPASS, X_I_MAP, X_I_MOVE, X_I_PX, X_ASG_IL, X_INS_IL,
    X_CTOR_LAST_,
    // requests no table can satisfy: k selects the request
    X_HUGE = X_CTOR_LAST_, X_MLF_ODD, X_READONLY,
    X_COUNT_
};

template <class C> struct XWorld : World<C> {
    using B = World<C>; using M = typename B::M; using K = typename B::K; using V = typename B::V; using A = typename B::A; using H = typename B::H; using E = typename B::E;
    using KV = typename B::KV; using PV = typename B::PV; using KX = typename Src<K>::X; using VX = typename Src<V>::X;
    using B::mk; using B::mv; using B::want; using B::want_it; using B::arg; using B::md; using B::m; using B::cm; using B::alive; using B::buf; using B::key; using B::opname; using B::kCopy; using B::kCopyK; using B::kill; using B::ensure; using B::uni; using B::kState;
    static constexpr bool kStr = std::is_same<K, std::string>::value, kRobin = C::kind == ROBIN;

    void exec(const Op & o) {
        if ((o.c & 0x7F) != O_EXT) { B::exec(o); return; }
        try { ext(o); }
        catch (const Fault &) { throw; }
        catch (const std::bad_alloc & e) { if (g_fba && g_flast >= 0) throw Fault(g_flast); bad("%s: unexpected exception: %s", opname, e.what()); }
        catch (const std::exception & e) { bad("%s: unexpected exception: %s", opname, e.what()); }
    }
    // the elements of a constructor or range: keys of the mask in order with values counting up, the first key once more at the end
    std::vector<PV> items(uint32_t mask, int v) {
        std::vector<PV> s; int w = v;
        if constexpr (kCopy) {
            for (int b = 0; b < 8; b++) if (mask >> b & 1) { s.emplace_back(mk(b), mv(w)); w++; }
            if (!s.empty()) { int id = El<K>::id(s[0].first); s.emplace_back(mk(id), mv(9)); }
        }
        return s;
    }
    void model_items(int i, uint32_t mask, int v) { int w = v; for (int b = 0; b < 8; b++) if (mask >> b & 1) { if (!md[i].has(b)) md[i].put(b, w); w++; } }
    static uint32_t seed_h(M & a) { if constexpr (kState) return a.hash_function().seed; else return 0; }
    static uint32_t seed_e(M & a) { if constexpr (kState) return a.key_eq().seed; else return 0; }
    void built(int i, size_t cap, uint32_t hs, uint32_t es, int arena, size_t n) {
        alive[i] = true; md[i].reset();
        M & a = m(i);
        if (a.capacity() < cap) bad("%s: capacity() is %zu, %zu were requested", opname, (size_t)a.capacity(), cap);
        if (kState && seed_h(a) != hs) bad("%s: hash_function() is not the one given (%u, expected %u)", opname, seed_h(a), hs);
        if (kState && seed_e(a) != es) bad("%s: key_eq() is not the one given (%u, expected %u)", opname, seed_e(a), es);
        if (a.get_allocator().arena != arena) bad("%s: get_allocator() is %d, expected %d", opname, a.get_allocator().arena, arena);
        (void)n;
    }

    void ext(const Op & o) {
        const int i = (o.c & 0x80) ? 1 : 0;
        const uint32_t f = o.x & 255, mask = o.x >> 8;
        const int k = o.k, v = o.v;
        static char nm[40]; snprintf(nm, sizeof nm, "overload %u", f); opname = nm;
        const bool ctor = f >= X_C_CAP && f <= X_C_PX;
        if (ctor) kill(i); else ensure(i);
        M & a = m(i); Model & d = md[i];
        const bool had = d.has(k); const int old = d.val[k], keep = had ? old : v;
        const uint32_t S = 3 + i; const int AR = 5 + i;         // hasher / comparison seed and allocator of the constructor forms
        auto h = [&] { return B::template fn<H>((int)S); }; auto e = [&] { return B::template fn<E>((int)S); };
        switch (f) {
        case X_EMP_2: if constexpr (Src<V>::two) { auto t = Src<V>::args(v); auto r = a.emplace(mk(k), std::get<0>(t), std::get<1>(t)); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case X_EMP_X2: if constexpr (Src<V>::two) { auto t = Src<V>::args(v); auto r = a.emplace(Src<K>::x(k), std::get<0>(t), std::get<1>(t)); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case X_EMP_XX: { auto r = a.emplace(Src<K>::x(k), Src<V>::x(v)); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case X_EMP_PX: { auto r = a.emplace(std::pair<KX, VX>(Src<K>::x(k), Src<V>::x(v))); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case X_EMP_PWX: { auto r = a.emplace(std::piecewise_construct, std::make_tuple(Src<K>::x(k)), std::make_tuple(Src<V>::x(v))); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case X_EMP_PW2: if constexpr (Src<K>::two && Src<V>::two) { auto r = a.emplace(std::piecewise_construct, Src<K>::args(k), Src<V>::args(v)); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case X_EMPH_L: if constexpr (kCopy) { K kk = mk(k); V vv = mv(v); auto r = a.emplace_hint(a.cend(), kk, vv); d.put(k, keep); want_it(i, r, k, keep); arg("key", El<K>::raw(kk), k); arg("value", El<V>::raw(vv), v); } break;
        case X_EMPH_2: if constexpr (Src<V>::two) { auto t = Src<V>::args(v); auto r = a.emplace_hint(a.cbegin(), mk(k), std::get<0>(t), std::get<1>(t)); d.put(k, keep); want_it(i, r, k, keep); } break;
        case X_EMPH_PW: { auto r = a.emplace_hint(a.cend(), std::piecewise_construct, std::make_tuple(Src<K>::x(k)), std::make_tuple(Src<V>::x(v))); d.put(k, keep); want_it(i, r, k, keep); } break;
        case X_INS_PXR: { auto r = a.insert(std::pair<KX, VX>(Src<K>::x(k), Src<V>::x(v))); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case X_INS_HPX: { auto r = a.insert(a.cend(), std::pair<KX, VX>(Src<K>::x(k), Src<V>::x(v))); d.put(k, keep); want_it(i, r, k, keep); } break;
        case X_INS_HCP: if constexpr (kCopy) { const PV p(mk(k), mv(v)); auto r = a.insert(a.cbegin(), p); d.put(k, keep); want_it(i, r, k, keep); arg("key", El<K>::raw(p.first), k); arg("value", El<V>::raw(p.second), v); } break;
        case X_INS_KVX: if constexpr (B::kCopyV) { const std::pair<KX, V> p(Src<K>::x(k), mv(v)); auto r = a.insert(p); d.put(k, keep); want(i, r, !had, k, keep); arg("value", El<V>::raw(p.second), v); } break;
        case X_IOA_X: { auto r = a.insert_or_assign(Src<K>::x(k), mv(v)); d.put(k, v); want(i, r, !had, k, v); } break;
        case X_IOA_HX: { auto r = a.insert_or_assign(a.cbegin(), Src<K>::x(k), mv(v)); d.put(k, v); want_it(i, r, k, v); } break;
        case X_IOA_VX: { auto r = a.insert_or_assign(mk(k), Src<V>::x(v)); d.put(k, v); want(i, r, !had, k, v); } break;
        case X_IOA_VL_R: if constexpr (B::kCopyV) { const V vv = mv(v); auto r = a.insert_or_assign(mk(k), vv); d.put(k, v); want(i, r, !had, k, v); arg("value", El<V>::raw(vv), v); } break;
        case X_IOA_H_CL: if constexpr (kCopyK) { const K kk = mk(k); auto r = a.insert_or_assign(a.cend(), kk, mv(v)); d.put(k, v); want_it(i, r, k, v); arg("key", El<K>::raw(kk), k); } break;
        case X_TE_HL: if constexpr (kCopyK) { const K kk = mk(k); auto r = a.try_emplace(a.cbegin(), kk, mv(v)); d.put(k, keep); want_it(i, r, k, keep); arg("key", El<K>::raw(kk), k); } break;
        case X_TE_HR: { K kk = mk(k); auto r = a.try_emplace(a.cend(), std::move(kk), mv(v)); d.put(k, keep); want_it(i, r, k, keep); if (had) arg("key", El<K>::raw(kk), k); } break;
        case X_TE_X: { auto r = a.try_emplace(Src<K>::x(k), mv(v)); d.put(k, keep); want(i, r, !had, k, keep); } break;
        case X_TE_XH: { auto r = a.try_emplace(a.cbegin(), Src<K>::x(k), mv(v)); d.put(k, keep); want_it(i, r, k, keep); } break;
        case X_TE_X0: { auto r = a.try_emplace(Src<K>::x(k)); const int w = had ? old : 0; d.put(k, w); want(i, r, !had, k, w); } break;
        case X_TE_2: if constexpr (Src<V>::two && kCopyK) { const K kk = mk(k); auto t = Src<V>::args(v); auto r = a.try_emplace(kk, std::get<0>(t), std::get<1>(t)); d.put(k, keep); want(i, r, !had, k, keep); arg("key", El<K>::raw(kk), k); } break;
        case X_TE_H2: if constexpr (Src<V>::two && kCopyK) { const K kk = mk(k); auto t = Src<V>::args(v); auto r = a.try_emplace(a.cbegin(), kk, std::get<0>(t), std::get<1>(t)); d.put(k, keep); want_it(i, r, k, keep); } break;
        case X_TE_HR2: if constexpr (Src<V>::two) { auto t = Src<V>::args(v); auto r = a.try_emplace(a.cend(), mk(k), std::get<0>(t), std::get<1>(t)); d.put(k, keep); want_it(i, r, k, keep); } break;
        case X_TE_H0: { auto r = a.try_emplace(a.cbegin(), mk(k)); const int w = had ? old : 0; d.put(k, w); want_it(i, r, k, w); } break;
        case X_IDX_X: { a[Src<K>::x(k)] = mv(v); d.put(k, v); } break;
        case X_ALW_KV: if constexpr (kRobin && kCopy) { const KV p(mk(k), mv(v)); auto r = a.insert_always(p); d.put(k, v); want(i, r, !had, k, v); arg("key", El<K>::raw(p.first), k); arg("value", El<V>::raw(p.second), v); } break;
        case X_ALW_KVR: if constexpr (kRobin && kCopyK) { auto r = a.insert_always(KV(mk(k), mv(v))); d.put(k, v); want(i, r, !had, k, v); } break;
        case X_ALW_X: if constexpr (kRobin) { auto r = a.insert_always(std::pair<KX, VX>(Src<K>::x(k), Src<V>::x(v))); d.put(k, v); want(i, r, !had, k, v); } break;

        case X_ER_X: { size_t n = a.erase(Src<K>::x(k)); d.del(k); if (n != (had ? 1u : 0u)) bad("erase(convertible %d): reported %zu, expected %d", k, n, (int)had); } break;
        case X_ER_KEYS: case X_ER_KEYLIST: if constexpr (kCopyK) {
            // the keys of the mask, absent ones included, the first one twice
            std::vector<K> q; size_t n = 0;
            for (int b = 0; b < 16; b++) if (mask >> b & 1) { int id = b < 8 ? b : FILL_BASE + b - 8; q.push_back(mk(id)); if (d.has(id)) n++; d.del(id); }
            if (!q.empty()) q.push_back(q[0]);
            size_t r;
            if (f == X_ER_KEYS) r = a.erase(q.begin(), q.end());
            else { std::list<K> l(q.begin(), q.end()); r = a.erase(l.begin(), l.end()); }
            if (r != n) bad("erase(range of keys): reported %zu removed, expected %zu", r, n);
        } break;
        case X_ER_ONE: { // the key passed is the one stored in the map
            auto it = a.find(key(k)); if ((it != a.end()) != had) { bad("find(%d): wrong answer", k); break; }
            if (had) { size_t n = a.erase(it->first); d.del(k); if (n != 1) bad("erase(key in the map): reported %zu", n); }
        } break;
        case X_LOOK: look(i); break;
        case X_ITERS: iters(i); break;

        case X_C_0: new (buf[i]) M(); built(i, 0, 0, 0, 0, 0); break;
        case X_C_CAP: new (buf[i]) M((size_t)k); built(i, k, 0, 0, 0, 0); break;
        case X_C_CAPH: new (buf[i]) M((size_t)k, h()); built(i, k, S, 0, 0, 0); break;
        case X_C_CAPHE: new (buf[i]) M((size_t)k, h(), e()); built(i, k, S, S, 0, 0); break;
        case X_C_CAPHEA: new (buf[i]) M((size_t)k, h(), e(), A(AR)); built(i, k, S, S, AR, 0); break;
        case X_C_CAPA: if constexpr (!kRobin) new (buf[i]) M((size_t)k, A(AR)); else new (buf[i]) M((size_t)k, H(), E(), A(AR)); built(i, k, 0, 0, AR, 0); break;
        case X_C_CAPHA: if constexpr (!kRobin) { new (buf[i]) M((size_t)k, h(), A(AR)); built(i, k, S, 0, AR, 0); } else { new (buf[i]) M((size_t)k, h()); built(i, k, S, 0, 0, 0); } break;
        case X_C_ALLOC: new (buf[i]) M(A(AR)); built(i, 0, 0, 0, AR, 0); break;
        default:
            if constexpr (kCopy) {
                std::vector<PV> s = items(mask, v); auto b = s.begin(), z = s.end();
                auto range = [&](size_t cap, uint32_t hs, uint32_t es, int ar) { built(i, cap, hs, es, ar, 0); model_items(i, mask, v); };
                switch (f) {
                case X_C_FL: new (buf[i]) M(b, z); range(0, 0, 0, 0); break;
                case X_C_FLA: if constexpr (!kRobin) { new (buf[i]) M(b, z, A(AR)); range(0, 0, 0, AR); } else { new (buf[i]) M(b, z); range(0, 0, 0, 0); } break;
                case X_C_FLC: new (buf[i]) M(b, z, (size_t)k); range(k, 0, 0, 0); break;
                case X_C_FLCH: new (buf[i]) M(b, z, (size_t)k, h()); range(k, S, 0, 0); break;
                case X_C_FLCHE: new (buf[i]) M(b, z, (size_t)k, h(), e()); range(k, S, S, 0); break;
                case X_C_FLCHEA: new (buf[i]) M(b, z, (size_t)k, h(), e(), A(AR)); range(k, S, S, AR); break;
                case X_C_FLCA: new (buf[i]) M(b, z, (size_t)k, A(AR)); range(k, 0, 0, AR); break;
                case X_C_FLCHA: new (buf[i]) M(b, z, (size_t)k, h(), A(AR)); range(k, S, 0, AR); break;
                case X_C_LIST: { std::list<PV> l(b, z); new (buf[i]) M(l.begin(), l.end(), (size_t)k, A(AR)); range(k, 0, 0, AR); } break;
                case X_C_PTR: { const PV * p = s.data(); new (buf[i]) M(p, p + s.size(), (size_t)k, A(AR)); range(k, 0, 0, AR); } break;
                case X_C_ONEPASS: { new (buf[i]) M(OnePass<PV>(s), OnePass<PV>(), (size_t)k, h(), e(), A(AR)); range(k, S, S, AR); } break;
                case X_C_MOVE: { std::vector<PV> s2(s); new (buf[i]) M(std::make_move_iterator(s2.begin()), std::make_move_iterator(s2.end()), (size_t)k, A(AR)); range(k, 0, 0, AR); } break;
                case X_C_PX: { std::vector<std::pair<KX, VX>> x; int w = v; for (int q = 0; q < 8; q++) if (mask >> q & 1) x.emplace_back(Src<K>::x(q), Src<V>::x(w++)); new (buf[i]) M(x.begin(), x.end(), (size_t)k, A(AR)); range(k, 0, 0, AR); } break;
                case X_C_MAP: { std::map<int, V> t; int w = v; std::vector<std::pair<const K, V>> x; x.reserve(8); for (int q = 0; q < 8; q++) if (mask >> q & 1) x.emplace_back(mk(q), mv(w++)); new (buf[i]) M(x.begin(), x.end(), (size_t)k, A(AR)); range(k, 0, 0, AR); } break;
                case X_I_LIST: { std::list<PV> l(b, z); a.insert(l.begin(), l.end()); model_items(i, mask, v); } break;
                case X_I_PTR: { const PV * p = s.data(); a.insert(p, p + s.size()); model_items(i, mask, v); } break;
                case X_I_ONEPASS: a.insert(OnePass<PV>(s), OnePass<PV>()); model_items(i, mask, v); break;
                case X_I_MOVE: { std::vector<PV> s2(s); a.insert(std::make_move_iterator(s2.begin()), std::make_move_iterator(s2.end())); model_items(i, mask, v); } break;
                case X_I_PX: { std::vector<std::pair<KX, VX>> x; int w = v; for (int q = 0; q < 8; q++) if (mask >> q & 1) x.emplace_back(Src<K>::x(q), Src<V>::x(w++)); a.insert(x.begin(), x.end()); model_items(i, mask, v); } break;
                case X_I_MAP: { std::vector<KV> x; x.reserve(8); int w = v; for (int q = 0; q < 8; q++) if (mask >> q & 1) x.emplace_back(mk(q), mv(w++)); a.insert(x.begin(), x.end()); model_items(i, mask, v); } break;
                case X_C_IL: case X_C_ILA: case X_C_ILC: case X_C_ILCHEA: case X_C_ILCA: case X_C_ILCHA: case X_ASG_IL: case X_INS_IL: lists(i, f, (int)(mask & 7), v, (size_t)k, S, AR, h, e); break;
                default: odd(i, f, k, v, mask); break;
                }
            } else odd(i, f, k, v, mask);
            break;
        }
    }
    template <class Fh, class Fe> void lists(int i, uint32_t f, int b, int v, size_t cap, uint32_t S, int AR, Fh h, Fe e) {
        M & a = m(i);
        std::initializer_list<KV> il = { KV(mk(b), mv(v)), KV(mk(b + 1), mv(v + 1)), KV(mk(b), mv(v + 2)), KV(mk(b + 2), mv(v + 1)) };
        bool fresh = true;
        switch (f) {
        case X_C_IL: new (buf[i]) M(il); built(i, 0, 0, 0, 0, 0); break;
        case X_C_ILA: new (buf[i]) M(il, A(AR)); built(i, 0, 0, 0, AR, 0); break;
        case X_C_ILC: new (buf[i]) M(il, cap); built(i, cap, 0, 0, 0, 0); break;
        case X_C_ILCHEA: new (buf[i]) M(il, cap, h(), e(), A(AR)); built(i, cap, S, S, AR, 0); break;
        case X_C_ILCA: new (buf[i]) M(il, cap, A(AR)); built(i, cap, 0, 0, AR, 0); break;
        case X_C_ILCHA: new (buf[i]) M(il, cap, h(), A(AR)); built(i, cap, S, 0, AR, 0); break;
        case X_ASG_IL: if constexpr (!kRobin) { M & r = (a = il); if (&r != &a) bad("operator=(list): wrong result"); md[i].reset(); } else { a = M(il, (size_t)0, H(), E(), a.get_allocator()); md[i].reset(); } break;
        default: a.insert(il); fresh = false; break;
        }
        (void)fresh;
        Model & d = md[i];
        if (!d.has(b)) d.put(b, v);
        if (!d.has(b + 1)) d.put(b + 1, v + 1);
        if (!d.has(b + 2)) d.put(b + 2, v + 1);
    }
    // requests that cannot be met must be refused with a standard exception and leave the contents alone
    void odd(int i, uint32_t f, int k, int v, uint32_t mask) {
        M & a = m(i);
        if (f == X_HUGE) {
            static const size_t req[] = { (size_t)-1, (size_t)-2, (size_t)1 << 63, ((size_t)1 << 63) + 1, ((size_t)1 << 63) - 1, ((size_t)1 << 62) + 1, (size_t)-1 / sizeof(KV), (size_t)-1 / sizeof(KV) + 1, (size_t)1 << 61, (size_t)1 << 60, (size_t)1 << 56 };
            const size_t n = req[k % (sizeof req / sizeof *req)];
            bool threw = false; size_t blocks = g_blocks.size(), capb = a.capacity();
            { struct Refuse { Refuse() { g_refuse = true; } ~Refuse() { g_refuse = false; } } refuse;
              try {
                if (v == 0) a.reserve(n); else if (v == 1) a.rehash(n);
                else { FaultOff off; M * t = new (std::nothrow) M(n, B::template fn<H>(i), B::template fn<E>(i), A(i + 1)); delete t; }
              } catch (const std::length_error &) { threw = true; } catch (const std::bad_alloc &) { threw = true; } }
            if (!threw) bad("a request for %zu elements was accepted (call %d)", n, v);
            if (g_blocks.size() != blocks || a.capacity() != capb) bad("a refused request for %zu elements changed the table (call %d)", n, v);
        } else if (f == X_MLF_ODD) {
            static const float fs[] = { 0.0f, -1.0f, 0.01f, 0.1f, 0.15f, 0.2f, 0.25f, 0.29f, 0.31f, 0.61f, 0.9999f, 1.0f, 1.0001f, 2.0f, 1e30f, 1e-30f };
            a.max_load_factor(fs[k & 15]);
            float r = a.max_load_factor();
            if (!(r > 0.0f && r <= 1.0f)) bad("max_load_factor() is %g after %g was set", (double)r, (double)fs[k & 15]);
        } else if (f == X_READONLY) {
            if constexpr (kRobin) { if (v == 0) a.rehash((size_t)mask, true); else if (v == 1) a.reserve((size_t)mask, true); else if (v == 2) a.resize((size_t)mask, true); else if (v == 3) a.resize((size_t)mask); else a.shrink_to_fit(true); }
            else a.shrink_to_fit(true);
        }
    }
    // every lookup agrees with the model, whichever overload is asked
    void look(int i) {
        FaultOff off;
        M & a = m(i); const M & ca = a; Model & d = md[i];
        for (int k : uni) {
            const K & q = key(k); const bool h = d.has(k); const int w = h ? d.val[k] : -1;
            const bool raise = h || k < 12 || (k & 7) == 0;      // throwing is slow: not for every absent key
            int got = -2; bool threw = false;
            if (raise) {
            try { got = El<V>::id(a.at(q)); } catch (const std::out_of_range &) { threw = true; }
            if (threw == h || (h && got != w)) { bad("at(%d): %s", k, h ? threw ? "threw although the key is stored" : "wrong value" : "did not throw although the key is absent"); return; }
            got = -2; threw = false;
            try { got = El<V>::id(ca.at(q)); } catch (const std::out_of_range &) { threw = true; }
            if (threw == h || (h && got != w)) { bad("const at(%d): %s", k, h ? threw ? "threw although the key is stored" : "wrong value" : "did not throw although the key is absent"); return; }
            got = -2; threw = false;
            try { got = El<V>::id(a.at(Src<K>::x(k))); } catch (const std::out_of_range &) { threw = true; }
            if (threw == h || (h && got != w)) { bad("at(convertible %d) is wrong", k); return; }
            got = -2; threw = false;
            try { got = El<V>::id(ca.at(Src<K>::x(k))); } catch (const std::out_of_range &) { threw = true; }
            if (threw == h || (h && got != w)) { bad("const at(convertible %d) is wrong", k); return; }
            }
            auto it = a.find(q); auto cit = ca.find(q);
            auto itx = a.find(Src<K>::x(k)); auto citx = ca.find(Src<K>::x(k));
            if ((it != a.end()) != h || (cit != ca.end()) != h || (itx != a.end()) != h || (citx != ca.end()) != h) { bad("find(%d): an overload disagrees", k); return; }
            if (h && (&it->second != &cit->second || &it->second != &itx->second || &it->second != &citx->second || &it->second != &ca.at(q) || &it->second != &a.at(q) || &it->second != &a[key(k)])) { bad("lookups of %d refer to different objects", k); return; }
            if (ca.contains(Src<K>::x(k)) != h || ca.count(Src<K>::x(k)) != (h ? 1u : 0u) || a.contains(q) != h || a.count(q) != (h ? 1u : 0u)) { bad("contains/count(%d) is wrong", k); return; }
            if constexpr (kRobin) {
                auto e = a.equal_range(q); auto ce = ca.equal_range(q);
                size_t n = 0, cn = 0; for (auto t = e.first; t != e.second; ++t) { if (++n > 2) break; if (El<K>::id(t->first) != k || El<V>::id(t->second) != w) { bad("equal_range(%d) holds another element", k); return; } }
                for (auto t = ce.first; t != ce.second; ++t) { if (++cn > 2) break; if (El<K>::id(t->first) != k) { bad("const equal_range(%d) holds another element", k); return; } }
                if (n != (h ? 1u : 0u) || cn != (h ? 1u : 0u)) { bad("equal_range(%d) holds %zu elements, expected %d", k, n, (int)h); return; }
            }
        }
        if (ca.load_factor() != (a.capacity() ? (float)d.n / (float)a.capacity() : 0.0f)) bad("load_factor() is %g with %d elements and capacity %zu", (double)ca.load_factor(), d.n, (size_t)a.capacity());
        if (a.max_load_factor() <= 0.0f || a.max_load_factor() > 1.0f) bad("max_load_factor() is %g", (double)a.max_load_factor());
        if (a.is_empty() != (d.n == 0)) bad("is_empty() is wrong");
        if (d.n && !a.is_valid()) bad("is_valid() is false with %d elements", d.n);
        if (a.get_allocator().arena != cm(i).get_allocator().arena) bad("get_allocator() differs");
        if (!uni.empty()) { const K & q = key(uni[0]); auto eq = ca.key_eq(); auto hf = ca.hash_function(); if (!eq(q, q) || hf(q) != hf(q)) bad("key_eq() does not work"); }
    }
    // increments, decrements, conversions and comparisons of positions agree with each other
    void iters(int i) {
        FaultOff off;
        M & a = m(i); const M & ca = a; Model & d = md[i];
        using It = typename M::iterator; using CIt = typename M::const_iterator;
        std::vector<It> pos; size_t n = 0;
        for (It it = a.begin(); it != a.end(); it++) { if (++n > (size_t)d.n) { bad("iteration visits more than %d elements", d.n); return; } pos.push_back(it); }
        if ((int)n != d.n) { bad("iteration visits %zu of %d elements", n, d.n); return; }
        if ((int)std::distance(a.begin(), a.end()) != d.n || (int)std::distance(ca.begin(), ca.end()) != d.n || (int)std::distance(a.cbegin(), a.cend()) != d.n) { bad("distance(begin, end) is not %d", d.n); return; }
        CIt c = ca.begin();
        for (size_t q = 0; q < n; q++, ++c) {
            CIt conv = pos[q], asg; asg = pos[q];
            if (!(conv == c) || conv != c || !(asg == c) || !(pos[q] == a.find(pos[q]->first))) { bad("position %zu: iterator and const_iterator differ", q); return; }
            if (&conv->second != &pos[q]->second || &(*c).second != &(*pos[q]).second) { bad("position %zu: iterator and const_iterator refer to different elements", q); return; }
            It cp(pos[q]), as; as = pos[q];
            if (!(cp == pos[q]) || !(as == pos[q])) { bad("position %zu: a copy differs", q); return; }
            It nx = pos[q]; It oldp = nx++; if (!(oldp == pos[q])) { bad("position %zu: it++ does not return the old position", q); return; }
            if (q + 1 < n ? !(nx == pos[q + 1]) : !(nx == a.end())) { bad("position %zu: it++ does not lead to the next position", q); return; }
            if (pos[q] == a.end() || conv == ca.end()) { bad("position %zu equals end()", q); return; }
            if (q > 0) {
                if (pos[q] == pos[q - 1]) { bad("positions %zu and %zu are equal", q - 1, q); return; }
                It pv = pos[q]; It & r = --pv; if (!(pv == pos[q - 1]) || &r != &pv) { bad("position %zu: --it does not lead to the position before", q); return; }
                if (El<K>::id(pv->first) != El<K>::id(pos[q - 1]->first)) { bad("position %zu: --it shows another element", q); return; }
                It pw = pos[q]; It po = pw--; if (!(po == pos[q]) || !(pw == pos[q - 1])) { bad("position %zu: it-- is wrong", q); return; }
                CIt cv = conv; --cv; if (!(cv == CIt(pos[q - 1]))) { bad("position %zu: --const_iterator does not lead to the position before", q); return; }
                // forward again
                ++pv; if (!(pv == pos[q]) || El<K>::id(pv->first) != El<K>::id(pos[q]->first)) { bad("position %zu: ++ after -- leads elsewhere", q); return; }
            }
        }
        if (!(c == ca.end()) || !(CIt(a.end()) == ca.end()) || !(a.cend() == ca.end())) bad("end() positions differ");
    }
};
// the forms of insertion as operations, form f used on key k
inline std::vector<Op> xforms() { std::vector<Op> r; for (uint32_t f = 0; f < X_INS_LAST_; f++) r.push_back(Op{ O_EXT, 0, 0, f }); return r; }
} // namespace mc
#endif
