// P08: every element is constructed and destroyed exactly once; memory is returned.
#include "kinds.h"
using namespace mc;
typedef World<CfgOf<MC_PART>> W;

static void reg() {
    const bool T = thorough();
    std::vector<int> fills = (KIND == ROBIN) ? std::vector<int>{ 0, 1, 2, 7, 15 } : std::vector<int>{ 0, 13, 14, 28, 29 };
    if (T) fills = (KIND == ROBIN) ? std::vector<int>{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 30 } : std::vector<int>{ 0, 1, 12, 13, 14, 15, 27, 28, 29, 30, 31, 58 };
    std::vector<Pattern> pats = { { "spread", hp_spread }, { "ends", hp_ends } };
    if (T) { pats.push_back({ "pair", hp_pair }); pats.push_back({ "mod3", hp_mod3 }); pats.push_back({ "ident", hp_ident }); }
    for (auto & P : pats) for (int f : fills) for (int fillbyte : { 0x00, 0xA5, 0xFF }) {
        if (KIND == ROBIN && P.f == hp_mod3 && f > 15) continue;
        if (!T && fillbyte != 0xA5 && P.f != hp_spread) continue;
        Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/fill" + std::to_string(f) + "/mem" + std::to_string(fillbyte);
        auto pf = P.f; s.setup = [pf, fillbyte] { hash_all(pf); g_fill = fillbyte; };
        if (f) s.prefix.push_back(op(O_FILL, 0, 0, f));
        s.alphabet = a_core(3) + a_forms(3) + a_erase(3) + a_whole() + a_two();
        s.alphabet += Ops{ op(O_FILL, 0, 0, f + 1), op(O_FILL, 0, 0, 2 * f + 2), op(O_UNFILL, 0, 0, f ? f : 1), op(O_UNFILLR, 0, 0, f ? f : 1), op(O_DESTROY), op(O_RECON, 0, 0, 0xFFFF), op(O_RECON, 0, 0, 0), op(O_RECON, 0, 0, 40),
            op(O_RANGE_CTOR, 0, 1, 0x2D), op(O_RANGE_CTORA, 3, 1, 0x1F), op(O_IL_CTOR, 1, 2, 0), op(O_IL_CTOR, 0, 2, 30), op(O_ILASSIGN, 1, 3), opB(O_ILASSIGN, 0, 2), opB(O_FILL, 0, 0, f / 2 + 1), opB(O_CLEAR, 0, 0, 1), opB(O_CLEAR),
            opB(O_COPYA, 0, 0, 6), opB(O_MOVEA, 0, 0, 6), op(O_SHRINK, 0, 0, 1), op(O_CLEAR, 0, 0, 1), op(O_MLF, 0, 0, 30), op(O_ROOM, 0, 0, f + 5), op(O_CHURN, 1, 3, 30) };
        s.uni = uni_of(4, 0, f);
        s.suffix = { op(O_EMP_R, 1, 2), opB(O_EMP_R, 2, 1), op(O_CLEAR, 0, 0, 0), op(O_IOA_R, 0, 3) };
        s.depth = T ? 4 : 3;
        s.max_states = T ? 20000 : fillbyte == 0xA5 ? 600 : 200; s.weight = 2 + f;
        add_space<W>(s);
    }
}
static Registrar r_(reg);
