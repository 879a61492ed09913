// P06: copies, moves and swaps between two containers, for every allocator propagation choice.
#include "kinds.h"
using namespace mc;
// MC_PART = types + 10 * variant; MC_PROP = allocator propagation bits; variant 1: stateful hasher and comparison
template <int P> struct Sel { typedef std::conditional_t<(P / 10) == 1, SCfgOf<P % 10, MC_PROP>, CfgOf<P % 10, MC_PROP>> type; };
typedef World<typename Sel<MC_TYPES>::type> W;

static void reg() {
    const bool T = thorough();
    std::string base = std::string(KINDNAME "/") + Types<MC_TYPES % 10>::name() + (MC_TYPES >= 10 ? "/stateful" : "") + "/alloc" + std::to_string(MC_PROP);
    const bool G = KIND != ROBIN;
    struct Start { const char * n; Ops p; int fa, fb; };
    std::vector<Start> starts;
    auto A = [](int f) { return f ? Ops{ op(O_FILL, 0, 0, f) } : Ops{}; };
    auto B = [](int f) { return f ? Ops{ opB(O_FILL, 80, 0, f) } : Ops{ opB(O_CLEAR) }; };
    starts.push_back({ "empty", {}, 0, 0 });
    starts.push_back({ "2-empty", A(2) + B(0), 2, 0 });
    starts.push_back({ "3-2", A(3) + B(2), 3, 2 });
    starts.push_back({ "20-2", A(20) + B(2), 20, 2 });
    starts.push_back({ "2-20", A(2) + B(20), 2, 20 });
    starts.push_back({ "20-19", A(20) + B(19), 20, 19 });
    starts.push_back({ "cleared", A(5) + Ops{ op(O_CLEAR, 0, 0, 1) } + B(3), 5, 3 });
    starts.push_back({ "erased", A(20) + Ops{ op(O_UNFILL, 0, 0, 17) } + B(20) + Ops{ opB(O_UNFILLR, 80, 0, 10) }, 20, 20 });
    starts.push_back({ "mlf", A(6) + Ops{ op(O_MLF, 0, 0, 60) } + B(3) + Ops{ opB(O_MLF, 0, 0, 55) }, 6, 3 });
    starts.push_back({ "reserved", A(6) + Ops{ op(O_RESERVE, 0, 0, 70) } + B(3) + Ops{ opB(O_RESERVE, 0, 0, 120) }, 6, 3 });
    if (G) { starts.push_back({ "29-30", A(29) + B(30), 29, 30 }); }
    if (T) { starts.push_back({ "45-3", A(45) + B(3), 45, 3 }); starts.push_back({ "1-1", A(1) + B(1), 1, 1 }); starts.push_back({ "7-8", A(7) + B(8), 7, 8 }); }
    std::vector<Pattern> pats = { { "spread", hp_spread }, { "ends", hp_ends }, { "zero8", hp_zero8 } };
    if (T) { pats.push_back({ "ident", hp_ident }); pats.push_back({ "mod3", hp_mod3 }); }
    for (auto & st : starts) for (auto & P : pats) {
        if (KIND == ROBIN && P.f == hp_mod3 && (st.fa > 12 || st.fb > 12)) continue;
        if (!T && P.f == hp_zero8 && st.fa > 3) continue;
        Space s; s.name = base + "/" + st.n + "/" + P.name;
        auto pf = P.f; s.setup = [pf] { hash_all(pf); };
        s.prefix = st.p;
        s.alphabet = a_two();
        s.alphabet += Ops{ opB(O_COPYA, 0, 0, 1), opB(O_COPYA, 0, 0, 5), opB(O_MOVEA, 0, 0, 1), opB(O_MOVEA, 0, 0, 5), opB(O_MOVEA, 0, 0, 2),
                           op(O_COPYA, 0, 0, 1), op(O_MOVEA, 0, 0, 5), opB(O_SELFASSIGN), opB(O_SWAP), opB(O_RANGE_SELF), opB(O_ILASSIGN, 1, 2) };
        s.alphabet += Ops{ op(O_IOA_R, 0, 1), opB(O_IOA_R, 0, 2), op(O_EMP_R, 1, 3), op(O_ER_K, 0), opB(O_ER_K, FILL_BASE + 80), op(O_CLEAR, 0, 0, 0), opB(O_CLEAR, 0, 0, 1), op(O_RESERVE, 0, 0, 40), opB(O_RESERVE) };
        s.uni = uni_of(2, 0, st.fa); for (int q = 0; q < st.fb; q++) s.uni.push_back(FILL_BASE + 80 + q);
        // independence: whatever happened, each side still takes insertions and removals of its own
        s.suffix = { op(O_IOA_R, 1, 4), op(O_FILL, 60, 0, 4), op(O_ER_K, FILL_BASE), opB(O_IOA_R, 1, 5), opB(O_FILL, 60, 0, 3), opB(O_ER_K, FILL_BASE + 81), op(O_CLEAR, 0, 0, 1), op(O_EMP_R, 0, 1) };
        for (int q = 0; q < 4; q++) s.uni.push_back(FILL_BASE + 60 + q);
        s.depth = T ? 4 : 3; s.max_states = T ? 20000 : 1200; s.weight = st.fa + st.fb;
        add_space<W>(s);
    }
}
static Registrar r_(reg);
