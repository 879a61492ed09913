// P01-P03: every operation history of a container agrees with a mathematical map.
#include "kinds.h"
using namespace mc;

typedef CfgOf<MC_PART> C;
typedef World<C> W;

static void reg() {
    const bool T = thorough();
    const bool main_cfg = (MC_PART <= 1);
    const int np = (int)(sizeof kPatterns / sizeof *kPatterns);
    // fills that put the table just below, at and above its growth points
    std::vector<int> fills = (KIND == ROBIN) ? std::vector<int>{ 0, 2, 6, 14, 15, 29 } : std::vector<int>{ 0, 12, 13, 14, 25, 26, 27, 28, 29, 30, 54 };
    if (T) fills = (KIND == ROBIN) ? std::vector<int>{ 0, 1, 2, 3, 5, 6, 7, 12, 13, 14, 15, 16, 24, 28, 29, 30, 31, 32, 60 } : std::vector<int>{ 0, 1, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 28, 29, 30, 31, 32, 52, 54, 56, 58, 110 };
    for (int p = 0; p < np; p++) {
        const Pattern & P = kPatterns[p];
        const bool chain = P.f == hp_same || P.f == hp_ones || P.f == hp_top;
        for (int f : fills) {
            if (KIND == ROBIN && chain && f > 16) continue;      // capacity is exponential in the number of identical codes
            if (!T && !main_cfg && (f != 0) && ((p + f) % 3)) continue;
            Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/fill" + std::to_string(f);
            auto pf = P.f; s.setup = [pf] { hash_all(pf); };
            if (f) s.prefix.push_back(op(O_FILL, 0, 0, f));
            const int nk = (f == 0) ? 4 : 3;
            // complete reachable state graph of insert/erase on nk colliding keys next to the fill
            s.alphabet = a_core(nk);
            s.uni = uni_of(nk, 0, f);
            s.depth = (f == 0) ? (T ? 20 : 9) : (T ? 16 : 8);
            s.max_states = T ? 60000 : main_cfg ? 4000 : 2000;
            s.weight = 4;
            add_space<W>([&] { Space q = s; q.name += "/core"; return q; }());
            // all operation kinds, every pair (triple in depth) of them
            Space t = s; t.name += "/all";
            t.alphabet = a_core(nk) + a_forms(nk) + a_erase(nk) + a_whole() + a_two();
            if (f) { t.alphabet.push_back(op(O_UNFILL, 0, 0, f)); t.alphabet.push_back(op(O_UNFILLR, 0, 0, f)); }
            t.depth = T ? 4 : 3;
            t.max_states = T ? 10000 : main_cfg ? 320 : 160;
            add_space<W>(t);
        }
        // long probe sequences: blocks of a large fill are removed and put back next to a few colliding keys
        for (int f : { 70, 136, 236, 440 }) {
            if (KIND == ROBIN && (chain || P.f == hp_mod3 || P.f == hp_toptwo || P.f == hp_zero8 || P.f == hp_frag || P.f == hp_pair)) continue;
            if (!T && (main_cfg ? f > 300 : (p + f / 8) % 4 != 0 || f > 200)) continue;
            Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/deep" + std::to_string(f);
            auto pf = P.f; s.setup = [pf] { hash_all(pf); };
            s.prefix.push_back(op(O_FILL, 0, 0, f));
            s.alphabet = a_core(1);
            for (int b : { 0, 14, 30, f / 2, f - 31 }) { s.alphabet.push_back(op(O_UNFILL, b, 0, 31)); s.alphabet.push_back(op(O_FILL, b, 0, 31)); }
            s.alphabet += Ops{ op(O_UNFILL, 0, 0, f - 20), op(O_UNFILLR, 20, 0, f - 20), op(O_ER_K, FILL_BASE), op(O_ER_K, FILL_BASE + 60), op(O_ER_IF, 0, 0, 0x55555555), op(O_REHASH), opB(O_COPY) };
            s.uni = uni_of(1, 0, f);
            s.depth = T ? 4 : 3; s.max_states = T ? 1500 : 48; s.weight = 20;
            add_space<W>(s);
        }
    }
}
static Registrar r_(reg);
