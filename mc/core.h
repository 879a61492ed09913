// Exhaustive-exploration kernel: job pool over worker processes, crash and hang
// attribution, replay before report, measured evidence.
#ifndef MC_CORE_H
#define MC_CORE_H
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <climits>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <new>
#include <atomic>

namespace mc {

// ---- violations -----------------------------------------------------------
// Instrumented objects cannot always throw (noexcept code), so a violation is
// recorded and examined by the driver after the operation.
extern bool g_bad;
extern char g_badmsg[1024];
void bad(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
inline void clear_bad() { g_bad = false; g_badmsg[0] = 0; }

struct Case { std::vector<int64_t> d; };

// ---- a job: an exhaustively enumerated sub-space --------------------------
struct Ctx;
struct Job {
    std::string name;
    std::function<void(Ctx &)> run;
    // re-runs one case; returns true when the property holds on it
    std::function<bool(Ctx &, const std::vector<int64_t> &)> replay;
    // human readable rendering of a case
    std::function<std::string(const std::vector<int64_t> &)> show;
    int weight = 1;      // heavier jobs are started first
};
std::vector<Job> & jobs();
inline void add_job(Job j) { jobs().push_back(std::move(j)); }

struct Shared;   // shared memory page of one worker
struct Ctx {
    Shared * sh = nullptr;
    bool thorough = false;
    bool replaying = false;
    double deadline = 0;
    // begin a case: remember it for crash attribution. Always call before executing it.
    void begin(const int64_t * d, size_t n);
    void begin(const std::vector<int64_t> & d) { begin(d.data(), d.size()); }
    void begin(std::initializer_list<int64_t> l) { begin(l.begin(), l.size()); }
    // record a failing case (the current one) and stop the worker
    [[noreturn]] void violation(const char * fmt, ...) __attribute__((format(printf, 2, 3)));
    void check_bad();    // violation() if g_bad
    void add_states(uint64_t n = 1);
    void add_transitions(uint64_t n = 1);
    void add_execs(uint64_t n = 1);
    void add_nontrivial(uint64_t n = 1);
    void count(const char * key, uint64_t n = 1);      // named extra counters
    void maxof(const char * key, uint64_t v);
    void sample(const std::string & s);                 // a few are kept
    bool out_of_time();                                 // marks the run as not exhaustive
    uint64_t states() const;
};

struct Replay { };   // thrown by violation() in replay mode
bool thorough();     // tier, valid while jobs are being registered
double now();
uint64_t hash64(uint64_t x);

struct H128 { uint64_t a, b; bool operator==(const H128 & o) const { return a == o.a && b == o.b; } };
struct H128H { size_t operator()(const H128 & h) const { return (size_t)h.a; } };
struct Hasher128 {
    uint64_t a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
    void add(uint64_t x) {
        a = (a ^ x) * 0xFF51AFD7ED558CCDull; a ^= a >> 32;
        b = (b + x) * 0xC4CEB9FE1A85EC53ull; b ^= b >> 29;
    }
    H128 get() const { return { hash64(a), hash64(b ^ a) }; }
};

struct CheckInfo {
    const char * property;
    const char * level;        // exploration | model_checking | fault_enumeration
    const char * rule;
    std::vector<std::string> assumptions;
};
// defined by every check
extern CheckInfo check_info;
// registration functions, run once the tier is known (order-independent: jobs are sorted by name)
std::vector<void (*)()> & registrars();
struct Registrar { Registrar(void (*f)()) { registrars().push_back(f); } };

} // namespace mc
#endif
