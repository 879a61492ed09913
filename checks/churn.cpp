// P11: operations terminate and memory stays bounded under insert/erase churn.
#include "kinds.h"
using namespace mc;
typedef World<CfgOf<MC_PART>> W;

// capacity that a population of n elements may reach (generous: a constant factor over the power of two above n)
static size_t bound_of(int n) { size_t p = 32; while (p < (size_t)n) p *= 2; return (KIND == ROBIN ? 16 : 8) * p; }

static void reg() {
    const bool T = thorough();
    std::vector<Pattern> pats = { { "spread", hp_spread }, { "ident", hp_ident }, { "rev", hp_rev }, { "pair", hp_pair } };
    if (KIND != ROBIN) { pats.push_back({ "same", hp_same }); pats.push_back({ "ends", hp_ends }); pats.push_back({ "top", hp_top }); pats.push_back({ "zero8", hp_zero8 }); pats.push_back({ "mod3", hp_mod3 }); }
    // arbitrarily long churn: rotating windows, every window size, several strides and id pools
    for (auto & P : pats) {
        auto pf = P.f;
        for (int win = 0; win <= (T ? 120 : 63); win += (T || win < 34) ? 1 : 3) {
            const bool coll = P.f == hp_same || P.f == hp_top || P.f == hp_mod3;
            if (!T && coll && win > 32) continue;
            if (KIND == ROBIN && P.f == hp_pair && win > 16) continue;   // the probe limit makes the capacity depend on the placement
            Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/window" + std::to_string(win);
            s.setup = [pf] { hash_all(pf); };
            s.uni = { 0, 1, 2 }; s.cap_bound = bound_of(win + 4); s.weight = 1 + win / 8;
            s.suffix = { op(O_EMP_R, 0, 1), op(O_EMP_R, 1, 2), op(O_ER_K, 0) };
            add_cases<W>(s, [win, T, coll](const Emit & emit) {
                const int steps = T ? 6000 : coll ? 400 : 1000;
                for (int extra : { 0, 1, 7, 15 }) for (int stride : { 0, 1, 4, 6 }) { emit({ op(O_CHURN, extra * 16 + stride, win, steps) }); if (T) emit({ op(O_RESERVE, 0, 0, win + 1), op(O_CHURN, extra * 16 + stride, win, steps) }); }
                emit({ op(O_MLF, 0, 0, 30), op(O_CHURN, 17, win, steps) }); emit({ op(O_MLF, 0, 0, 100), op(O_CHURN, 17, win, steps) });
                emit({ op(O_CHURN, 17, win, steps / 2), op(O_CLEAR, 0, 0, 0), op(O_CHURN, 34, win, steps / 2) });
                emit({ op(O_CHURN, 17, win, steps / 2), opB(O_COPY), op(O_SWAP), op(O_CHURN, 34, win, 60) });
            }, false);
        }
        // repeated fill and removal cycles
        for (int n = 1; n <= (T ? 130 : 64); n++) {
            if (KIND == ROBIN && P.f == hp_pair && n > 20) continue;
            const bool coll = P.f == hp_same || P.f == hp_top || P.f == hp_mod3;
            if (!T && coll && n > 32) continue;
            if (!T && n > 34 && n < 52) continue;
            Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/cycle" + std::to_string(n);
            s.setup = [pf] { hash_all(pf); };
            s.uni = uni_of(2, 0, n); s.cap_bound = bound_of(n + 2); s.weight = 1 + n / 16;
            const bool quick = !T;
            add_cases<W>(s, [n, quick](const Emit & emit) {
                Ops cyc[9] = { { op(O_FILL, 0, 0, n), op(O_UNFILL, 0, 0, n) }, { op(O_FILL, 0, 0, n), op(O_UNFILLR, 0, 0, n) }, { op(O_FILL, 0, 0, n), op(O_UNFILL, 0, 0, n - 1), op(O_UNFILLR, 0, 0, n) },
                               { op(O_FILL, 0, 0, n), op(O_ER_IF, 0, 0, 0xFFFFFFFF) }, { op(O_FILL, 0, 0, n), op(O_ER_RANGE, 0, 250) }, { op(O_FILL, 0, 0, n), op(O_CLEAR, 0, 0, 0) }, { op(O_FILL, 0, 0, n), op(O_UNFILL, 0, 0, n / 2) , op(O_SHRINK) },
                               { op(O_FILL, 0, 0, n), op(O_ER_WALK, 0, 0, 0x55555555), op(O_ER_WALKC, 0, 0, 0x0F0F0F0F) }, { op(O_FILL, 0, 0, n), op(O_ER_K, FILL_BASE + n - 1), op(O_EMP_R, 0, 1), op(O_ER_K, 0) } };
                for (auto & c : cyc) { Ops a; for (int q = 0; q < (quick ? 12 : 40); q++) a += c; emit(a); }
                // growth requests never accumulate
                Ops a; for (int q = 0; q < 30; q++) a += Ops{ op(O_FILL, 0, 0, n), op(O_RESERVE, 0, 0, n), op(O_MLF, 0, 0, q & 1 ? 50 : 30), op(O_UNFILL, 0, 0, n) }; emit(a);
                Ops b; for (int q = 0; q < 20; q++) b += Ops{ op(O_FILL, 0, 0, n), opB(O_COPY), op(O_CASSIGN), opB(O_MOVE), op(O_MASSIGN), op(O_SWAP), opB(O_MASSIGN), op(O_SWAP) }; emit(b);
            }, true);
        }
    }
    // every history on a few keys next to a fill: the state graph is finite, so closing it covers unbounded histories
    std::vector<int> fills = (KIND == ROBIN) ? std::vector<int>{ 0, 1, 6, 7, 14, 15 } : std::vector<int>{ 0, 12, 14, 24, 25, 26, 27, 28, 29 };
    std::vector<Pattern> pb = pats; if (KIND == ROBIN) { pb.push_back({ "ends", hp_ends }); pb.push_back({ "mod3", hp_mod3 }); }
    for (auto & P : pb) for (int f : fills) {
        Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/closure" + std::to_string(f);
        auto pf = P.f; s.setup = [pf] { hash_all(pf); };
        if (f) s.prefix.push_back(op(O_FILL, 0, 0, f));
        const int nk = T ? 5 : 3;
        for (int k = 0; k < nk; k++) { s.alphabet.push_back(op(O_EMP_R, k, 1)); s.alphabet.push_back(op(O_ER_K, k)); }
        s.uni = uni_of(nk, 0, f); s.cap_bound = KIND == ROBIN ? 4096 : bound_of(f + nk); s.max_states = T ? 300000 : 30000; s.weight = 8 + f;
        { Space t = s; t.name += "/keys"; add_space<W>(t); }
        if (f) { s.alphabet.push_back(op(O_UNFILL, 0, 0, f)); s.alphabet.push_back(op(O_FILL, 0, 0, f)); s.alphabet.push_back(op(O_UNFILLR, 0, 0, f / 2)); }
        s.max_states = T ? 100000 : 1500;
        add_space<W>(s);
    }
}
static Registrar r_(reg);
