// P25: threads that only read one map, and threads with maps of their own, never interfere.
// Every state and every pair of programs is run in two threads under a happens-before race detector. The threads never
// synchronise with each other, so two accesses conflict in one schedule exactly if they conflict in every schedule; a pair
// of programs without a conflict has a single class of equivalent schedules, and the one that is run stands for all.
#include <jstd/basic/stddef.h>
#include <climits>
#include <iostream>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
#include <pthread.h>
#include "domain.h"
#if defined(MC_ROBIN)
#include <jstd/hashmap/robin_hash_map.h>
#define KINDNAME "robin"
#define MAP jstd::robin_hash_map
#elif defined(MC_G15)
#include <jstd/hashmap/group15_flat_map.hpp>
#define KINDNAME "g15"
#define MAP jstd::group15_flat_map
#elif defined(MC_G16)
#include <jstd/hashmap/group16_flat_map.hpp>
#define KINDNAME "g16"
#define MAP jstd::group16_flat_map
#elif defined(MC_F16)
#include <jstd/hashmap/flat16_hash_map.h>
#define KINDNAME "flat16"
#define MAP jstd::flat16_hash_map
#else
#include <jstd/hashmap/robin16_hash_map.h>
#define KINDNAME "robin16"
#define MAP jstd::robin16_hash_map
#endif
#if defined(MC_F16) || defined(MC_R16)
#define LEGACY 1
#else
#define LEGACY 0
#endif
using namespace mc;
namespace {
typedef uint64_t u64;
// ---- elements and hash-code families -------------------------------------------------------------
const char * const kFam[] = { "numbers", "spread", "same", "two homes" };
template <int F> struct HF { typedef size_t result_type; typedef uint32_t argument_type;
    size_t operator()(uint32_t k) const noexcept { return F == 0 ? k : F == 1 ? (size_t)(((k * 0x9E3779B97F4A7C15ull) ^ (k * 0x9E3779B97F4A7C15ull) >> 29) * 0xBF58476D1CE4E5B9ull) : F == 2 ? (size_t)0x123456789ull : (size_t)(k & 1) << 62 | 5; } };
template <int F> struct HS { typedef size_t result_type; typedef std::string argument_type;
    size_t operator()(const std::string & k) const noexcept { u64 h = 1469598103934665603ull; for (char c : k) h = (h ^ (unsigned char)c) * 1099511628211ull; return F == 2 ? (size_t)77 : (size_t)h; } };
#if MC_PART == 0
typedef uint32_t K; typedef u64 V; template <int F> using H = HF<F>;
K key(int i) { return (K)i * 3 + 1; } V val(int i, int w) { return (u64)i * 8 + w; }
#elif MC_PART == 2
struct Big { u64 a[2]; Big(u64 x = 0) { for (u64 & y : a) y = x; } Big(const Big & o) { memcpy(a, o.a, sizeof a); } Big(Big && o) { memcpy(a, o.a, sizeof a); o.a[0] = 0; } Big & operator = (const Big & o) { memcpy(a, o.a, sizeof a); return *this; } Big & operator = (Big && o) { memcpy(a, o.a, sizeof a); return *this; } };
typedef uint32_t K; typedef Big V; template <int F> using H = HF<F>;
K key(int i) { return (K)i * 3 + 1; } V val(int i, int w) { return V((u64)i * 8 + w); }
#else
typedef std::string K; typedef std::string V; template <int F> using H = HS<F>;
K key(int i) { return "key number " + std::to_string(i); } V val(int i, int w) { return "value " + std::to_string(i * 8 + w); }
#endif
// ---- threads ----------------------------------------------------------------------------------------
typedef std::function<u64()> Fn;
struct Task { const Fn * f; u64 out; };
void * start(void * p) { Task * t = (Task *)p; t->out = (*t->f)(); return nullptr; }
}
inline bool g_raced = false;      // one for all units
extern "C" __attribute__((weak, no_sanitize("thread"))) void __tsan_on_report(void *) { g_raced = true; }
extern "C" __attribute__((weak)) const char * __tsan_default_options() { return "halt_on_error=0:exitcode=0:atexit_sleep_ms=0:report_bugs=1:second_deadlock_stack=0:detect_deadlocks=0"; }
namespace {
// both at the same time; the results
void both(const Fn & f, const Fn & g, u64 & a, u64 & b) {
    pthread_t t, u; Task x{ &f, 0 }, y{ &g, 0 };
    if (pthread_create(&t, nullptr, start, &x) || pthread_create(&u, nullptr, start, &y)) abort();
    pthread_join(t, nullptr); pthread_join(u, nullptr); a = x.out; b = y.out;
}
struct Mix { u64 h = 1; void add(u64 v) { h = (h ^ v) * 0x100000001b3ull + 7; } void add(const std::string & s) { for (char c : s) add((u64)(unsigned char)c); add((u64)s.size()); }
#if MC_PART == 2
    void add(const Big & b) { for (u64 y : b.a) add(y); }
#endif
};

// ---- reading ---------------------------------------------------------------------------------------
enum { R_FIND, R_ITER, R_MISC, R_COPY, R_COUNT };
const char * rname[] = { "lookups", "iteration", "queries", "copying", "" };
template <class M> u64 reading(M & m, int n, int what, bool cst) {
    Mix x; const M & c = m;
    if (what == R_FIND) {
        for (int i = 0; i < n + 4; i++) {
            const K k = key(i);
            if (cst) { auto it = c.find(k); x.add((u64)(it == c.end())); if (it != c.end()) x.add(it->second); } else { auto it = m.find(k); x.add((u64)(it == m.end())); if (it != m.end()) x.add(it->second); }
            x.add((u64)c.contains(k)); x.add((u64)c.count(k));
#if !defined(MC_G15) && !defined(MC_G16)
            if (cst) { auto r = c.equal_range(k); x.add((u64)(r.first == r.second)); } else { auto r = m.equal_range(k); x.add((u64)(r.first == r.second)); }
#endif
            try { if (cst) x.add(c.at(k)); else x.add(m.at(k)); } catch (const std::out_of_range &) { x.add((u64)99); }
        }
    } else if (what == R_ITER) {
        if (cst) { for (auto it = c.begin(); it != c.end(); ++it) { x.add(it->first); x.add(it->second); } for (auto it = c.cbegin(); it != c.cend(); it++) x.add((*it).second); }
        else for (auto it = m.begin(); it != m.end(); ++it) { x.add(it->first); x.add(it->second); }
    } else if (what == R_MISC) {
        x.add((u64)c.size()); x.add((u64)c.empty()); x.add((u64)c.capacity()); x.add((u64)(c.load_factor() * 1000)); x.add((u64)(c.max_load_factor() * 1000)); x.add((u64)c.bucket_count());
        auto h = const_cast<M &>(c).hash_function(); x.add((u64)h(key(1))); auto e = const_cast<M &>(c).key_eq(); x.add((u64)e(key(1), key(1))); auto a = c.get_allocator(); (void)a; x.add((u64)(c.begin() == c.end()));
    } else {
        M d(c); x.add((u64)d.size()); for (int i = 0; i < n + 2; i++) { auto it = d.find(key(i)); if (it != d.end()) x.add(it->second); }
        d.emplace(key(n + 9), val(1, 1)); d.erase(key(0)); x.add((u64)d.size());
    }
    return x.h;
}
// ---- bringing a map into a state ---------------------------------------------------------------------
const char * pname[] = { "", "erase every third", "erase all", "clear", "clear(true)", "shrink_to_fit", "reserve(2n)", "copy", "move", "churn", "refill" };
enum { PREPS = 11 };
template <class M> void prepare(std::unique_ptr<M> & m, int n, int p) {
    switch (p) {
    case 1: for (int i = 0; i < n; i += 3) m->erase(key(i)); break;
    case 2: for (int i = 0; i < n; i++) m->erase(key(i)); break;
    case 3: m->clear(); break;
    case 4: m->clear(true); break;
    case 5: m->shrink_to_fit(); break;
    case 6: m->reserve((size_t)n * 2); break;
    case 7: { std::unique_ptr<M> d(new M(*m)); m = std::move(d); } break;
    case 8: { std::unique_ptr<M> d(new M(std::move(*m))); m = std::move(d); } break;
    case 9: for (int i = 0; i < n; i++) { m->erase(key(i)); m->emplace(key(i + 1), val(i, 3)); } break;
    case 10: for (int i = 0; i < n; i++) m->insert_or_assign(key(i), val(i, 2)); break;
    }
}
std::vector<int> fills(int fam) {
    std::vector<int> f; const bool same = fam >= 2;
    for (int i = 0; i <= (same ? 14 : 33); i++) f.push_back(i);
    if (!same) for (int i : { 56, 57, 60, 61, 64, 65, 100, 128, 129 }) f.push_back(i);
    return f;
}
template <int F> bool read_case(Ctx & c, const std::vector<int64_t> & d) {
    typedef MAP<K, V, H<F>> M; const int n = (int)d[1];
    // the map the threads read, untouched until then, and its twin, which tells what they have to see
    std::unique_ptr<M> m(new M()), twin(new M()); for (auto * p : { &m, &twin }) { for (int i = 0; i < n; i++) (*p)->emplace(key(i), val(i, 1)); prepare(*p, n, (int)d[2]); prepare(*p, n, (int)d[3]); }
    const int r = (int)d[4], s = (int)d[5]; const bool cr = d[6] & 1, cs = d[6] & 2;
    u64 a, b; g_raced = false;
    both([&] { return reading(*m, n, r, cr); }, [&] { return reading(*m, n, s, cs); }, a, b);
    const u64 er = reading(*twin, n, r, cr), es = reading(*twin, n, s, cs);
    if (g_raced) bad("two threads that only read one map access the same memory, one of them writing");
    if (a != er || b != es) bad("a thread that reads sees something else than alone");
    if (reading(*m, n, r, cr) != er) bad("reading has changed the map");
    c.add_execs(); c.add_states(); c.add_nontrivial(); c.add_transitions(2);
    return !g_bad;
}
// ---- maps of their own ----------------------------------------------------------------------------------
const char * oname[] = { "emplace", "emplace 20", "erase", "erase absent", "find absent", "clear", "clear(true)", "reserve(40)", "shrink_to_fit", "copy", "move", "swap with a new map", "erase first", "iterate", "[]", "erase 20", "find in a new map", "insert(pair)", "try_emplace", "insert_or_assign", "emplace(piecewise)", "copy assignment", "move assignment", "from a list", "emplace 60", "rehash(50)", "insert a range", "emplace_hint", "max_load_factor(0.6)", "at absent" };
enum { OPS = 30 };
template <class M> u64 own(const std::vector<int> & prog) {
    std::unique_ptr<M> m(new M()); Mix x;
    for (int o : prog) {
        switch (o) {
        case 0: x.add((u64)m->emplace(key(1), val(1, 1)).second); break;
        case 1: for (int i = 0; i < 20; i++) m->emplace(key(i), val(i, 1)); break;
        case 2: x.add((u64)m->erase(key(1))); break;
        case 3: x.add((u64)m->erase(key(77))); break;
        case 4: x.add((u64)(m->find(key(78)) == m->end())); break;
        case 5: m->clear(); break;
        case 6: m->clear(true); break;
        case 7: m->reserve(40); break;
        case 8: m->shrink_to_fit(); break;
        case 9: { std::unique_ptr<M> d(new M(*m)); m->clear(); m = std::move(d); } break;
        case 10: { std::unique_ptr<M> d(new M(std::move(*m))); if (!LEGACY) m->emplace(key(5), val(5, 5)); m = std::move(d); } break;
        case 11: { M d; m->swap(d); x.add((u64)d.size()); } break;
        case 12: if (m->begin() != m->end()) m->erase(m->begin()); break;
        case 13: for (auto it = m->begin(); it != m->end(); ++it) x.add(it->second); break;
        case 14: (*m)[key(2)] = val(2, 2); break;
        case 15: for (int i = 0; i < 20; i++) m->erase(key(i)); break;
        case 16: { const M d; x.add((u64)d.contains(key(1))); x.add((u64)(d.begin() == d.end())); } break;
        case 17: { std::pair<const K, V> v(key(3), val(3, 1)); x.add((u64)m->insert(v).second); m->insert(std::pair<const K, V>(key(4), val(4, 1))); } break;
        case 18: x.add((u64)m->try_emplace(key(6), val(6, 1)).second); break;
        case 19: x.add((u64)m->insert_or_assign(key(7), val(7, 3)).second); break;
        case 20: x.add((u64)m->emplace(std::piecewise_construct, std::forward_as_tuple(key(8)), std::forward_as_tuple(val(8, 1))).second); break;
        case 21: { M d; d.emplace(key(1), val(1, 5)); 
#if LEGACY
            { M e(*m); d.swap(e); }
#else
            d = *m; *m = d;
#endif
            x.add((u64)d.size()); } break;
        case 22: { M d; for (int i = 0; i < 9; i++) d.emplace(key(i), val(i, 6));
#if LEGACY
            m->swap(d); } break;
#else
            *m = std::move(d); } break;
#endif
        case 25: m->rehash(50); break;
        case 26: { std::vector<std::pair<K, V>> v; for (int i = 3; i < 12; i++) v.emplace_back(key(i), val(i, 9)); m->insert(v.begin(), v.end()); } break;
        case 27: m->emplace_hint(m->cbegin(), key(13), val(13, 1)); break;
        case 28: m->max_load_factor(0.6f); m->emplace(key(14), val(14, 1)); break;
        case 29: try { x.add(m->at(key(99))); } catch (const std::out_of_range &) { x.add((u64)5); } break;
        case 24: for (int i = 0; i < 60; i++) m->emplace(key(i), val(i, 8)); break;
        case 23: { M d({ { key(1), val(1, 7) }, { key(2), val(2, 7) } }); x.add((u64)d.size()); m->swap(d); } break;
        }
        x.add((u64)m->size());
    }
    for (auto it = m->begin(); it != m->end(); ++it) { x.add(it->first); x.add(it->second); }
    return x.h;
}
std::vector<int> program(u64 i, int depth) { std::vector<int> p; u64 base = 1; for (int l = 1; l <= depth; l++) { base *= OPS; if (i < base) { for (int q = 0; q < l; q++) { p.push_back((int)(i % OPS)); i /= OPS; } return p; } i -= base; } return p; }
u64 programs(int depth) { u64 n = 0, b = 1; for (int l = 1; l <= depth; l++) { b *= OPS; n += b; } return n; }
std::string text(const std::vector<int> & p) { std::string s; for (int o : p) s += (s.empty() ? "" : ", ") + std::string(oname[o]); return s; }
template <int F> bool own_case(Ctx & c, const std::vector<int64_t> & d) {
    typedef MAP<K, V, H<F>> M; const int dp = (int)d[3]; std::vector<int> p = program((u64)d[1], dp), q = program((u64)d[2], dp);
    u64 a, b; g_raced = false;
    both([&] { return own<M>(p); }, [&] { return own<M>(q); }, a, b);
    const u64 ep = own<M>(p), eq = own<M>(q);
    if (g_raced) bad("two threads with maps of their own access the same memory, one of them writing");
    if (a != ep || b != eq) bad("a thread with a map of its own gets another result than alone");
    c.add_execs(); c.add_states(); c.add_nontrivial(); c.add_transitions(p.size() + q.size());
    return !g_bad;
}
template <int F> void reg_family() {
    const bool T = thorough();
    for (int n : fills(F)) {
        Job j; j.name = std::string(KINDNAME "/readers/") + (MC_PART == 2 ? "big" : MC_PART ? "string" : "int") + "/" + kFam[F] + "/fill" + std::to_string(n); j.weight = 1 + n / 8;
        j.run = [=](Ctx & c) {
            for (int p = 0; p < PREPS; p++) for (int q = 0; q < PREPS; q++) {
                if (!T && p && q && (n > 4 && n % 4)) continue;      // two preparations: a quarter of the sizes
                if (p == 0 && q) continue;
                for (int r = 0; r < R_COUNT; r++) for (int s = r; s < R_COUNT; s++) {
                    if (c.out_of_time()) return;
                    if (!T && q && s != R_FIND && !(r == R_ITER && s == R_COPY)) continue;
                    std::vector<int64_t> d = { F, n, p, q, r, s, (int64_t)((r + s + p + q) & 3) };
                    c.begin(d); clear_bad(); read_case<F>(c, d); c.check_bad();
                }
            }
            c.sample(std::string("fill ") + std::to_string(n) + ", every preparation, every two ways to read");
        };
        j.replay = [](Ctx & c, const std::vector<int64_t> & d) { clear_bad(); return read_case<F>(c, d); };
        j.show = [](const std::vector<int64_t> & d) { return std::string(KINDNAME " ") + kFam[F] + ": " + std::to_string(d[1]) + " elements, " + pname[d[2]] + ", " + pname[d[3]] + "; threads: " + rname[d[4]] + " | " + rname[d[5]]; };
        add_job(j);
    }
    const int dp = T ? 3 : 2; const u64 n1 = programs(2), np = programs(dp);
    for (u64 part = 0; part < 34; part++) {
        if (F > 1) break;
        Job j; j.name = std::string(KINDNAME "/own/") + (MC_PART == 2 ? "big" : MC_PART ? "string" : "int") + "/" + kFam[F] + "/" + std::to_string(part); j.weight = 4;
        j.run = [=](Ctx & c) {
            for (u64 p = part; p < n1; p += 34) for (u64 q = T ? 0 : p; q < np; q++) {
                if (c.out_of_time()) return;
                if (!T && p >= OPS && q >= OPS && (p + q) % (MC_PART || F ? 24 : 8)) continue;
                std::vector<int64_t> d = { F, (int64_t)p, (int64_t)q, dp }; c.begin(d); clear_bad(); own_case<F>(c, d); c.check_bad();
            }
            c.sample(text(program(part, 2)) + " | every program");
        };
        j.replay = [](Ctx & c, const std::vector<int64_t> & d) { clear_bad(); return own_case<F>(c, d); };
        j.show = [](const std::vector<int64_t> & d) { return std::string(KINDNAME " ") + kFam[F] + ": " + text(program((u64)d[1], (int)d[3])) + " | " + text(program((u64)d[2], (int)d[3])); };
        add_job(j);
    }
}
void reg() {
    reg_family<0>();
#if MC_PART != 1
    reg_family<1>(); reg_family<3>();
    if (std::string(KINDNAME) != "robin" && std::string(KINDNAME) != "robin16") reg_family<2>();
#endif
}
Registrar r_(reg);
} // namespace
