// P09: a failure is injected at every allocation, construction, assignment, hash, comparison and predicate call of every operation.
#include "kinds.h"
using namespace mc;
typedef World<CfgOf<MC_PART>> W;

static bool single_insert(uint8_t c) { return (c >= O_INS_C && c <= O_IDX_GET) || c == O_INS_ALWAYS; }
static bool keeps_source(uint8_t c) { return c == O_COPY || c == O_COPYA || c == O_CASSIGN || c == O_RANGE_SELF; }

struct FSpace { Space s; bool twice; int shard = 0, shards = 1; };

// runs one operation with the k-th fault point failing (0: none, count only). Returns whether the fault was delivered.
// m0: contents before, m1: contents after an undisturbed run (used for "its own value")
// (k < 0: the failure is a std::bad_alloc, k > 0: an exception of another type)
// (values are judged when the failure is the last operation of the case)
static bool faulted(W & w, const Op & o, int64_t k, const Model * m1, bool judge) {
    Model pre[2] = { w.md[0], w.md[1] }; bool was[2] = { w.alive[0], w.alive[1] };
    bool threw = false; int kind = -1;
    g_fmask = 0x3F; g_fba = k < 0; g_fleft = k ? std::abs(k) : -1; g_fcount = 0; g_flast = -1; g_farmed = true;
    try { w.exec(o); } catch (const Fault & f) { threw = true; kind = f.kind; }
    g_farmed = false;
    if (g_bad) return threw;
    if (g_flast >= 0 && !threw) { bad("the injected failure (kind %d) did not reach the caller", g_flast); return false; }
    if (!threw) { w.audit_all(); return false; }
    if (kind != g_flast) { bad("another exception than the injected one arrived"); return true; }
    FaultOff off;
    const uint8_t c = o.c & 0x7F; const int i = (o.c & 0x80) ? 1 : 0;
    for (int s = 0; s < 2; s++) {
        if (!w.alive[s]) { w.md[s].reset(); continue; }
        w.resync(s);
        if (g_bad) return true;
        const Model & now = w.md[s];
        if (!judge) continue;
        const bool strict = (s == i && single_insert(c) && (kind == F_ALLOC || kind == F_CTOR)) || (s != i && keeps_source(c)) || (s != i && single_insert(c));
        for (int id = 0; id < ID_MAX; id++) {
            if (strict ? now.val[id] != (was[s] ? pre[s].val[id] : -1) : now.has(id) && !(was[s] && now.val[id] == pre[s].val[id]) && !(m1 && now.val[id] == m1[s].val[id])) {
                bad("%s failed (kind %d): key %d now %d, before %d%s", show_op(o).c_str(), kind, id, now.val[id], was[s] ? pre[s].val[id] : -1, strict ? " (must be unchanged)" : "");
                return true;
            }
        }
    }
    for (int s = 0; s < 2; s++) for (int id = 0; id < ID_MAX; id++) if (w.md[s].has(id) && std::find(w.uni.begin(), w.uni.end(), id) == w.uni.end()) w.uni.push_back(id);
    w.audit_all();
    return true;
}
// a case: (op, k) pairs after the prefix
static bool one(const FSpace & f, const std::vector<int64_t> & d, Ctx * c, uint64_t * count, H128 * fp, Model * post, const Model * m1) {
    bool delivered = true;
    { W w; w.uni = f.s.uni; w.ensure(0);
      for (auto & o : f.s.prefix) { w.exec(o); if (g_bad) return false; }
      for (size_t q = 0; q + 1 < d.size(); q += 2) {
          delivered = faulted(w, dec(d[q]), d[q + 1], m1, q + 2 >= d.size());
          if (g_bad) return false;
          if (q == 0 && d.size() == 4 && !delivered) return true;
      }
      if (count) *count = g_fcount;
      if (post) { post[0] = w.md[0]; post[1] = w.md[1]; if (!w.alive[0]) post[0].reset(); if (!w.alive[1]) post[1].reset(); }
      if (fp) *fp = w.fingerprint();
      for (auto & o : f.s.suffix) { w.exec(o); w.audit_all(); if (g_bad) return false; }
      w.finish(); }
    (void)c;
    return !g_bad;
}
// contents after an undisturbed last operation
static void undisturbed(const FSpace & f, std::vector<int64_t> d, Model * post, uint64_t & n) {
    d.back() = 0;
    FSpace g = f; g.s.suffix.clear();
    one(g, d, nullptr, &n, nullptr, post, nullptr);
}

static void run(const FSpace & f, Ctx & c) {
    if (f.s.setup) f.s.setup();
    uint64_t pts = 0; std::unordered_set<H128, H128H> seen;
    struct First { Op o; int64_t k; };
    std::vector<First> firsts;
    auto exec_all = [&](std::vector<int64_t> d, bool single) {
        Model post[2]; uint64_t n = 0; H128 fp;
        c.begin(d); undisturbed(f, d, post, n); if (g_bad) c.check_bad();
        for (int64_t k = 1; k <= (int64_t)n; k++) for (int cls = 0; cls < (single || thorough() ? 2 : 1); cls++) {
            d.back() = single ? (cls ? -k : k) : ((k ^ cls) & 1) ? k : -k; c.begin(d);
            one(f, d, &c, nullptr, &fp, nullptr, post);
            if (g_bad) c.check_bad();
            c.add_execs(); c.add_transitions(); pts++;
            if (seen.insert(fp).second) { c.add_states(); c.add_nontrivial(); if (single) firsts.push_back({ dec(d[d.size() - 2]), d.back() }); }
        }
    };
    for (auto & o : f.s.alphabet) { exec_all({ enc(o), 0 }, true); if (c.out_of_time()) return; }
    uint64_t p1 = pts;
    // a second failure on top of every distinct state the first one left
    if (f.twice) for (size_t q = f.shard; q < firsts.size(); q += f.shards) { for (auto & o : f.s.alphabet) exec_all({ enc(firsts[q].o), firsts[q].k, enc(o), 0 }, false); if (c.out_of_time()) return; }
    c.count("fault_points", pts);
    if (pts) c.sample(f.s.name + ": " + std::to_string(p1) + " single failures, " + std::to_string(pts - p1) + " second failures, " + std::to_string(seen.size()) + " distinct states left; e.g. " + (firsts.empty() ? std::string("-") : show_op(firsts.back().o) + " failing at point " + std::to_string(firsts.back().k)));
}
static void add(const FSpace & f) {
    Job j; j.name = f.s.name; j.weight = f.s.weight;
    j.run = [f](Ctx & c) { run(f, c); };
    j.replay = [f](Ctx & c, const std::vector<int64_t> & d) {
        if (f.s.setup) f.s.setup();
        Model post[2]; uint64_t n = 0; undisturbed(f, d, post, n);
        if (g_bad) return false;
        return one(f, d, &c, nullptr, nullptr, nullptr, post);
    };
    j.show = [f](const std::vector<int64_t> & d) {
        std::string r = "[prefix: "; for (auto & o : f.s.prefix) r += show_op(o) + "; "; r += "] ";
        for (size_t q = 0; q + 1 < d.size(); q += 2) r += show_op(dec(d[q])) + " failing at point " + std::to_string((long)d[q + 1]) + "; ";
        return r;
    };
    add_job(std::move(j));
}

static void reg() {
    const bool T = thorough();
    std::vector<int> fills = (KIND == ROBIN) ? std::vector<int>{ 0, 1, 2, 3, 4, 7, 8, 9, 15, 16 } : std::vector<int>{ 0, 1, 3, 12, 13, 14, 15, 27, 28, 29, 30 };
    if (T) { fills.clear(); for (int f = 0; f <= 66; f++) fills.push_back(f); }
    std::vector<Pattern> pats = { { "spread", hp_spread }, { "ends", hp_ends }, { "pair", hp_pair } };
    if (KIND != ROBIN) pats.push_back({ "same", hp_same });
    for (auto & P : pats) for (int f : fills) for (int var = 0; var < 3; var++) {
        if (KIND == ROBIN && P.f == hp_pair && f > 24) continue;
        if (!T && var && (f & 1)) continue;
        FSpace q; Space & s = q.s;
        s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/fill" + std::to_string(f) + "/v" + std::to_string(var);
        auto pf = P.f; s.setup = [pf] { hash_all(pf); g_farmed = false; };
        if (f) s.prefix.push_back(op(O_FILL, 0, 0, f));
        if (var == 1) s.prefix += Ops{ opB(O_FILL, 90, 0, 3) };
        if (var == 2) s.prefix += Ops{ op(O_FILL, f, 0, 6), op(O_UNFILLR, f, 0, 6), opB(O_FILL, 90, 0, f + 6), opB(O_UNFILL, 90, 0, f) };
        s.uni = uni_of(4, 0, f); for (int z = 0; z < f + 6; z++) s.uni.push_back(FILL_BASE + 90 + z);
        for (auto & fm : forms()) { s.alphabet.push_back(op(fm.c, 0, 2)); if (f) s.alphabet.push_back(op(fm.c, FILL_BASE + f / 2, 5)); }
        if (f) s.alphabet += Ops{ op(O_ER_K, FILL_BASE), op(O_ER_K, FILL_BASE + f - 1), op(O_ER_IT, FILL_BASE), op(O_ER_CIT, FILL_BASE + f - 1), op(O_ER_RANGE, 0, f), op(O_ER_RANGE, 1, 3), op(O_ER_IF, 0, 0, 0x55555555), op(O_ER_IF, 0, 0, 0xFFFFFFFF), op(O_ER_WALK, 0, 0, 0x33333333), op(O_ER_WALKC, 0, 0, 0x0F0F0F0F) };
        s.alphabet += Ops{ op(O_ER_K, 3), op(O_CLEAR, 0, 0, 0), op(O_CLEAR, 0, 0, 1), op(O_RESERVE, 0, 0, 1), op(O_RESERVE, 0, 0, f + 20), op(O_RESERVE, 0, 0, 0), op(O_REHASH), op(O_REHASH, 0, 0, f + 30), op(O_SHRINK), op(O_MLF, 0, 0, 30), op(O_MLF, 0, 0, 60),
            op(O_RANGE_INS, 0, 1, 0x0F), op(O_IL_INS, 0, 2), op(O_FILL, f, 0, 3), op(O_FILL, f, 0, f + 3), op(O_RANGE_CTOR, 0, 1, 0x1F), op(O_RANGE_CTORA, 3, 1, 0x0F), op(O_IL_CTOR, 0, 2, 0), op(O_ILASSIGN, 0, 2), op(O_RECON, 0, 0, 0), op(O_RECON, 0, 0, 40),
            opB(O_COPY), op(O_COPY), opB(O_COPYA, 0, 0, 6), opB(O_MOVE), opB(O_MOVEA, 0, 0, 1), opB(O_MOVEA, 0, 0, 6), op(O_CASSIGN), opB(O_CASSIGN), op(O_MASSIGN), opB(O_MASSIGN), op(O_SWAP), op(O_SELFASSIGN), op(O_RANGE_SELF), opB(O_RANGE_SELF) };
        // the container must go on working after whatever happened
        s.suffix = { op(O_EMP_R, 1, 1), opB(O_EMP_R, 2, 1), op(O_FILL, 0, 0, f + 2), op(O_ER_K, FILL_BASE), op(O_CASSIGN), op(O_CLEAR, 0, 0, 0), op(O_FILL, 0, 0, 2) };
        s.uni.push_back(FILL_BASE + f); s.uni.push_back(FILL_BASE + f + 1); s.uni.push_back(FILL_BASE + f + 2);
        q.twice = T ? f < 33 : (f <= 2 || f == 7 || f == 14 || (f == 28 && MC_PART == 8)) && var == 0 && P.f == hp_spread;
        s.weight = q.twice ? 50 + f : 1 + f;
        if (q.twice) { q.shards = 8; auto n = s.name; for (q.shard = 0; q.shard < 8; q.shard++) { s.name = n + "/" + std::to_string(q.shard); add(q); } }
        else add(q);
    }
}
static Registrar r_(reg);
