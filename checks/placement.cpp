// P04: lookups, insertions and removals under every placement of the keys.
#include "kinds.h"
using namespace mc;
typedef World<CfgOf<MC_PART>> W;

// positions (low bits), wrap-around, metadata that differs only in some bits, group index (high bits),
// and the metadata values that have a special encoding
static const uint64_t kCodes[] = { 0, 1, 7, 8, 9, 15, 0x80, ~0ull, 1ull << 63, 1ull << 63 | 8, 1ull << 32, 0x7FFFFFFFFFFFFF00ull };
static const int NC = (int)(sizeof kCodes / sizeof *kCodes);

static void assign(const int64_t * ix, int nk, uint64_t (*fill)(int)) {
    for (int i = 0; i < 512; i++) g_hash[i] = fill(i);
    for (int k = 0; k < nk; k++) g_hash[k] = kCodes[ix[k]];
    // the absent keys of the audit sit exactly where two of the keys sit
    g_hash[nk] = g_hash[0]; g_hash[nk + 7] = g_hash[nk - 1];
}

static void add(const std::string & name, int nk, int fill, uint64_t (*ff)(int), int fillop_erase, int depth, size_t max_states, int nc, int weight) {
    // one job per first code so that the work spreads over the workers
    for (int first = 0; first < nc; first++) {
        Space s; s.name = name + "/first" + std::to_string(first);
        if (fill) s.prefix.push_back(op(O_FILL, 0, 0, fill));
        if (fillop_erase) s.prefix.push_back(op(O_UNFILL, 0, 0, fillop_erase));
        for (int k = 0; k < nk; k++) { s.alphabet.push_back(op(k & 1 ? O_TE_R : O_EMP_R, k, 1 + k)); s.alphabet.push_back(op(k & 2 ? O_ER_IT : O_ER_K, k)); }
        s.uni = uni_of(nk, 0, fill);
        s.depth = depth; s.max_states = max_states;
        Job j; j.name = s.name; j.weight = weight;
        j.run = [=](Ctx & c) {
            std::vector<int64_t> ix(nk, first); bool smp = true;
            for (;;) {
                Space t = s; t.setup = [&] { assign(ix.data(), nk, ff); };
                run_space<W>(t, c, ix, smp); smp = false;
                c.count("hash_assignments");
                if (c.out_of_time()) return;
                int q = nk - 1;
                while (q >= 1 && ix[q] == nc - 1) q--;
                if (q < 1) break;
                int64_t v = ix[q] + 1;
                for (; q < nk; q++) ix[q] = v;
            }
        };
        j.replay = [=](Ctx & c, const std::vector<int64_t> & d) {
            Space t = s; t.setup = [&] { assign(d.data(), nk, ff); };
            return replay_ops<W>(t, c, d, nk);
        };
        j.show = [=](const std::vector<int64_t> & d) {
            std::string r = "hash codes:"; char b[40];
            for (int k = 0; k < nk && k < (int)d.size(); k++) { snprintf(b, sizeof b, " %d->%llx", k, (unsigned long long)kCodes[d[k]]); r += b; }
            return r + "; fill " + std::to_string(fill) + "; " + show_ops(d, nk);
        };
        add_job(std::move(j));
    }
}

// n keys with one hash code; every pair (i, j) is erased and inserted again in every order of the two
static void add_chain(uint64_t code, int n, int other) {
    Job j; j.name = std::string(KINDNAME "/") + CN + "/chain" + std::to_string(n) + "/code" + std::to_string(code % 1000) + "/other" + std::to_string(other);
    auto setup = [=] { for (int i = 0; i < 512; i++) g_hash[i] = code; for (int k = 0; k < 16; k++) g_hash[k] = code + (uint64_t)(k + 1) * 0x0100000000000001ull; g_hash[20] = code; };
    auto one = [=](int a, int b, int mode) {
        W w; w.uni = uni_of(other, 0, n, false); w.uni.push_back(20); w.ensure(0);
        w.exec(op(O_FILL, 0, 0, n));
        for (int k = 0; k < other; k++) w.exec(op(O_EMP_R, k, 1));
        w.exec(op(mode & 1 ? O_ER_IT : O_ER_K, FILL_BASE + a)); w.audit_all();
        if (!g_bad && b != a) { w.exec(op(O_ER_K, FILL_BASE + b)); w.audit_all(); }
        if (!g_bad && (mode & 2)) { w.exec(op(O_EMP_R, FILL_BASE + a, 2)); w.audit_all(); }
        if (!g_bad && (mode & 4)) { w.exec(op(O_CLEAR)); w.exec(op(O_FILL, 0, 0, n)); w.audit_all(); }
        if (!g_bad) w.finish();
    };
    j.run = [=](Ctx & c) {
        setup();
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int mode = 0; mode < 8; mode++) {
            if (mode >= 4 && b != a) continue;
            c.begin({ a, b, mode }); one(a, b, mode); c.check_bad();
            c.add_states(); c.add_transitions(3); c.add_execs();
        }
        c.sample(j.name + ": every pair of chain members erased");
    };
    j.replay = [=](Ctx &, const std::vector<int64_t> & d) { setup(); one((int)d[0], (int)d[1], (int)d[2]); return !g_bad; };
    j.show = [=](const std::vector<int64_t> & d) { return "chain of " + std::to_string(n) + " equal codes; erase members " + std::to_string(d[0]) + "," + std::to_string(d[1]) + " mode " + std::to_string(d[2]); };
    add_job(std::move(j));
}

// in a table of 2^17 slots n keys share one home position (probe sequences longer than a group); others sit behind them
static void add_wide(uint64_t code, int n, int other, uint32_t room) {
    Job j; j.name = std::string(KINDNAME "/") + CN + "/wide" + std::to_string(n) + "/code" + std::to_string(code % 1000) + "/other" + std::to_string(other); j.weight = 60;
    auto setup = [=] { for (int i = 0; i < 512; i++) g_hash[i] = code; for (int k = 0; k < 16; k++) g_hash[k] = code + (uint64_t)(k * 3 + 1); g_hash[20] = code; g_hash[21] = code + 1; };
    auto one = [=](int a, int b, int mode) {
        W w; w.uni = uni_of(other, 0, n, false); w.uni.push_back(20); w.uni.push_back(21); w.ensure(0);
        w.exec(op(O_RESERVE, 0, 0, room));
        if (mode & 1) for (int k = 0; k < other; k++) w.exec(op(O_EMP_R, k, 1));
        w.exec(op(O_FILL, 0, 0, n));
        if (!(mode & 1)) for (int k = 0; k < other; k++) w.exec(op(O_EMP_R, k, 1));
        w.audit_all();
        w.exec(op(mode & 2 ? O_ER_IT : O_ER_K, FILL_BASE + a)); if (!g_bad) w.audit_all();
        if (!g_bad && b != a) { w.exec(op(O_ER_K, FILL_BASE + b)); w.audit_all(); }
        if (!g_bad) { w.exec(op(O_EMP_R, FILL_BASE + a, 2)); w.exec(op(O_IOA_L, FILL_BASE + (a + b) / 2, 3)); w.audit_all(); }
        if (!g_bad) w.finish();
    };
    j.run = [=](Ctx & c) {
        setup();
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int mode = 0; mode < 4; mode++) {
            if (!thorough() && (mode != (a + b) % 4 || (a != b && a % 8 && b % 8 && a != n - 1 && b != n - 1))) continue;
            c.begin({ a, b, mode }); one(a, b, mode); c.check_bad();
            c.add_states(); c.add_transitions(5); c.add_execs();
            if (c.out_of_time()) return;
        }
        c.sample(j.name + ": members of the chain erased and put back");
    };
    j.replay = [=](Ctx &, const std::vector<int64_t> & d) { setup(); one((int)d[0], (int)d[1], (int)d[2]); return !g_bad; };
    j.show = [=](const std::vector<int64_t> & d) { return "chain of " + std::to_string(n) + " equal codes in a large table; erase members " + std::to_string(d[0]) + "," + std::to_string(d[1]) + " mode " + std::to_string(d[2]); };
    add_job(std::move(j));
}

static uint64_t fill_group0(int id) { return (uint64_t)(id % 5) | (uint64_t)(id % 3) << 60 >> 3; }     // top bit clear: first half of the groups
static uint64_t fill_last(int id) { return 0xF000000000000000ull | (uint64_t)(id & 0x7F); }
static uint64_t fill_same(int) { return 0; }

static void reg() {
    const bool T = thorough();
    std::string base = std::string(KINDNAME "/") + CN;
    add(base + "/fill0", T ? 5 : 4, 0, hp_spread, 0, T ? 14 : 10, T ? 4000 : 400, NC, 2);
    if (KIND == ROBIN) {
        for (int f : T ? std::vector<int>{ 1, 2, 3, 5, 6, 7, 12, 13, 14, 28, 30 } : std::vector<int>{ 5, 13 })
            for (auto ff : { hp_ident, hp_rev }) add(base + (ff == hp_ident ? "/ident" : "/rev") + std::to_string(f), 3, f, ff, 0, 8, 200, T ? NC : 9, 1);
    } else {
        for (int f : T ? std::vector<int>{ 12, 13, 14, 15, 26, 27, 28, 29, 30, 31 } : std::vector<int>{ 14, 15, 27 })
            for (auto ff : { fill_group0, fill_last, fill_same })
                add(base + (ff == fill_group0 ? "/g0-" : ff == fill_last ? "/last-" : "/same-") + std::to_string(f), 3, f, ff, 0, 8, 200, T ? NC : (f == 27 ? 6 : 9), 1);
        // many tombstone-like marks left behind by erased neighbours
        add(base + "/erased", 3, 26, fill_group0, 13, 8, 200, T ? NC : 8, 1);
        add(base + "/erased-last", 3, 26, fill_last, 20, 8, 200, T ? NC : 8, 1);
    }
    for (uint64_t code : { 0ull, ~0ull, 8ull })
        for (int n : (KIND == ROBIN) ? std::vector<int>{ 2, 5, 9, 16, 20 } : std::vector<int>{ 2, 15, 16, 17, 29, 31, 45 }) {
            if (KIND == ROBIN && MC_PART == 1 && n > 16) continue;
            add_chain(code, n, 0); add_chain(code, n, 6);
        }
    if (KIND == ROBIN) for (uint64_t code : { 0ull, 40000ull, ~0ull - 200 }) for (int n : { 24, 28, 32, 33, 34 }) for (int other : { 0, 6 }) {
        if (!T && MC_PART == 1 && n != 33 && n != 28) continue;
        add_wide(code, n, other, n > 30 ? 60000 : n > 26 ? 15000 : 7000);
    }
}
static Registrar r_(reg);
