// P10: every insertion form, value category and presence of the key, at every size around every growth point.
#include "kinds.h"
using namespace mc;
typedef World<CfgOf<MC_PART>> W;

static void reg() {
    const bool T = thorough();
    const int maxf = T ? 130 : 66;
    std::vector<Pattern> pats = { { "spread", hp_spread }, { "ident", hp_ident }, { "ends", hp_ends } };
    if (T) { pats.push_back({ "zero8", hp_zero8 }); pats.push_back({ "pair", hp_pair }); pats.push_back({ "rev", hp_rev }); }
    for (auto & P : pats) for (int f = 0; f <= maxf; f++) {
        // with reserve/erase history variants at the growth points
        for (int var = 0; var < 4; var++) {
            if (!T && var && (f % 3)) continue;
            if (!T && f > 34 && (f < 53 || f > 62)) continue;
            if (!T && P.f == hp_ends && (f & 1)) continue;
            Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/fill" + std::to_string(f) + "/v" + std::to_string(var);
            auto pf = P.f; s.setup = [pf] { hash_all(pf); };
            if (f) s.prefix.push_back(op(O_FILL, 0, 0, f));
            if (var == 1) { s.prefix.push_back(op(O_FILL, f, 0, 3)); s.prefix.push_back(op(O_UNFILL, f, 0, 3)); }
            if (var == 2) s.prefix.push_back(op(O_SHRINK));
            if (var == 3) { s.prefix.push_back(op(O_CLEAR, 0, 0, 0)); s.prefix.push_back(op(O_FILL, 0, 0, f)); }
            s.uni = uni_of(6, 0, f + 3);
            s.suffix = { op(O_EMP_R, 5, 1), op(O_ER_K, 5) };
            s.weight = 1 + f / 16;
            const int fl = f;
            add_cases<W>(s, [fl, T](const Emit & emit) {
                Ops again = { op(O_NONE), op(O_EMP_R, 1, 3), op(O_ER_K, 0) };
                for (auto & fm : forms()) for (int v = 1; v <= 2; v++) {
                    emit({ op(fm.c, 0, v) });                                     // absent
                    if (fl) { emit({ op(fm.c, FILL_BASE, v + 3) }); emit({ op(fm.c, FILL_BASE + fl - 1, v + 3) }); emit({ op(fm.c, FILL_BASE + fl / 2, v + 3) }); }   // present
                    emit({ op(fm.c, 0, v), op(fm.c, 0, 3 - v) });                  // present: inserted by the same form
                    emit({ op(fm.c, 0, v), op(O_ER_K, 0), op(fm.c, 0, 3 - v) });   // absent again
                }
                // every ordered pair of forms on one key and on two keys
                for (auto & a : forms()) for (auto & b : forms()) {
                    if (!T && fl > 34) break;
                    emit({ op(a.c, 0, 1), op(b.c, 0, 2) });
                    if (T || !(fl & 3)) emit({ op(a.c, 0, 1), op(b.c, 1, 2), op(a.c, 1, 3) });
                }
                // ranges and lists: every subset of six keys next to presence masks
                for (uint32_t m = 0; m < 64; m++) for (int pre = 0; pre < 3; pre++) {
                    Ops p = pre == 0 ? Ops{} : pre == 1 ? Ops{ op(O_EMP_R, 1, 7) } : Ops{ op(O_EMP_R, 1, 7), op(O_EMP_R, 4, 8) };
                    emit(p + Ops{ op(O_RANGE_INS, 0, 1, m) });
                    emit(Ops{ op(O_RANGE_CTOR, 0, 1, m) }); 
                    if (pre == 0) { emit(Ops{ op(O_RANGE_CTORA, (int)m, 1, m) }); emit(Ops{ op(O_RANGE_CTOR, (int)m, 2, m), op(O_RANGE_INS, 0, 3, 63 - m) }); }
                }
                emit({ op(O_RANGE_INS, 0, 1, 0xFFFF) }); emit({ op(O_RANGE_INS, 0, 1, 0xFFFF), op(O_RANGE_INS, 0, 3, 0xFFFF) });
                for (int k = 0; k < 4; k++) for (int v = 1; v < 3; v++) { emit({ op(O_IL_INS, k, v) }); emit({ op(O_EMP_R, k, 4), op(O_IL_INS, k, v) }); emit({ op(O_EMP_R, k + 1, 4), op(O_IL_INS, k, v) }); emit({ op(O_IL_CTOR, k, v, 0) }); emit({ op(O_IL_CTOR, k, v, 33) }); emit({ op(O_ILASSIGN, k, v) }); }
            }, false);
        }
    }
}
static Registrar r_(reg);
