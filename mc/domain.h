// Jobs over plain argument domains: a domain is an indexed, finite set, split into
// chunks; a case is the range of indexes under test (narrowed to one when it fails).
#ifndef MC_DOMAIN_H
#define MC_DOMAIN_H
#include "core.h"
namespace mc {
typedef std::function<uint64_t(Ctx &, uint64_t lo, uint64_t hi)> RangeFn;   // returns how many non-trivial
inline void add_range(const std::string & name, uint64_t total, uint64_t chunk, int parts, RangeFn f, int weight = 1,
                      std::function<std::string(uint64_t)> show = nullptr) {
    uint64_t nchunk = (total + chunk - 1) / chunk;
    if ((uint64_t)parts > nchunk) parts = (int)(nchunk ? nchunk : 1);
    for (int p = 0; p < parts; p++) {
        Job j; j.name = name + (parts > 1 ? "#" + std::to_string(p) : ""); j.weight = weight;
        j.run = [=](Ctx & c) {
            for (uint64_t k = p; k < nchunk; k += parts) {
                uint64_t lo = k * chunk, hi = std::min(total, lo + chunk);
                c.begin({ (int64_t)lo, (int64_t)hi });
                uint64_t nt = f(c, lo, hi);
                c.add_execs(std::max(nt, hi - lo)); c.add_nontrivial(nt);
                if (g_bad) c.violation("%s", g_badmsg);
                if (k == (uint64_t)p + parts || (k == (uint64_t)p && nchunk <= (uint64_t)parts)) c.sample(name + ": " + (show ? show(hi - 1) : "argument " + std::to_string(hi - 1)));
                if (c.out_of_time()) return;
            }
        };
        j.replay = [=](Ctx & c, const std::vector<int64_t> & d) { if (d.size() < 2) return true; f(c, (uint64_t)d[0], (uint64_t)d[1]); return !g_bad; };
        if (show) j.show = [=](const std::vector<int64_t> & d) { return d.empty() ? std::string() : show((uint64_t)d[0]); };
        add_job(j);
    }
}
// narrow the failing case to one index and report it
#define MC_FAIL(ctx, idx, ...) do { (ctx).begin({ (int64_t)(idx), (int64_t)(idx) + 1 }); (ctx).violation(__VA_ARGS__); } while (0)
} // namespace mc
#endif
