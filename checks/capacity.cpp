// P07: capacity requests keep the contents and give the promised room.
#include "kinds.h"
using namespace mc;
typedef World<CfgOf<MC_PART>> W;

static void reg() {
    const bool T = thorough();
    struct Start { const char * n; Ops p; std::vector<int> ids; };
    std::vector<Start> starts;
    auto ids = [](int a, int n) { std::vector<int> u; for (int q = 0; q < n; q++) u.push_back(FILL_BASE + a + q); return u; };
    starts.push_back({ "fresh", {}, {} });
    starts.push_back({ "cap0", { op(O_RECON, 0, 0, 0) }, {} });
    starts.push_back({ "cap64", { op(O_RECON, 0, 0, 64) }, {} });
    for (int f : (T ? std::vector<int>{ 1, 2, 3, 4, 7, 8, 13, 14, 15, 16, 25, 28, 29, 30, 31, 32, 33, 58 } : std::vector<int>{ 1, 3, 8, 14, 20, 29 }))
        starts.push_back({ "fill", { op(O_FILL, 0, 0, f) }, ids(0, f) });
    starts.push_back({ "erased", { op(O_FILL, 0, 0, 29), op(O_UNFILL, 0, 0, 25) }, ids(0, 29) });
    starts.push_back({ "churned", { op(O_FILL, 0, 0, 12), op(O_CHURN, 3, 14, 400) }, ids(0, 12) });
    starts.push_back({ "cleared", { op(O_FILL, 0, 0, 20), op(O_CLEAR, 0, 0, 0) }, ids(0, 20) });
    starts.push_back({ "cleared-freed", { op(O_FILL, 0, 0, 20), op(O_CLEAR, 0, 0, 1) }, ids(0, 20) });
    starts.push_back({ "copied", { opB(O_FILL, 0, 0, 10), op(O_COPY), opB(O_DESTROY) }, ids(0, 10) });
    starts.push_back({ "moved", { opB(O_FILL, 0, 0, 10), op(O_MOVE), opB(O_DESTROY) }, ids(0, 10) });
    std::vector<Pattern> pats = { { "ident", hp_ident }, { "spread", hp_spread }, { "rev", hp_rev } };
    if (KIND != ROBIN) { pats.push_back({ "same", hp_same }); pats.push_back({ "ends", hp_ends }); if (T) { pats.push_back({ "zero8", hp_zero8 }); pats.push_back({ "top", hp_top }); } }
    const std::vector<int> mlfs = { 0, 30, 45, 60, 75, 90, 100 };
    const int maxn = T ? 300 : 140;
    for (auto & P : pats) for (size_t si = 0; si < starts.size(); si++) {
        auto & st = starts[si];
        auto pf = P.f;
        Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/room/" + st.n + std::to_string(st.ids.size());
        s.setup = [pf] { hash_all(pf); };
        s.prefix = st.p; s.uni = st.ids;
        s.suffix = { op(O_ER_K, FILL_BASE), op(O_EMP_R, 1, 2), op(O_SHRINK), op(O_EMP_R, 2, 1) };
        s.uni.push_back(1); s.uni.push_back(2);
        s.weight = 3;
        // every requested count; before it any load factor and any other request
        add_cases<W>(s, [=](const Emit & emit) {
            for (int mlf : mlfs) for (int n = 0; n <= maxn; n++) {
                Ops a; if (mlf) a.push_back(op(O_MLF, 0, 0, mlf));
                emit(a + Ops{ op(O_ROOM, 100, n & 1, n) });
            }
            for (int n = 0; n <= maxn; n += T ? 1 : 3) for (int m : { 0, 1, 7, 15, 16, 29, 30, 60, 200 }) {
                emit(Ops{ op(O_RESERVE, 0, 0, m), op(O_ROOM, 100, 0, n) });
                emit(Ops{ op(O_REHASH, 0, 0, m), op(O_ROOM, 100, 0, n) });
                emit(Ops{ op(O_SHRINK, 0, 0, m & 1), op(O_ROOM, 100, 0, n) });
                emit(Ops{ op(O_CLEAR, 0, 0, m & 1), op(O_ROOM, 100, 0, n) });
                emit(Ops{ op(O_ROOM, 100, 0, n), op(O_RESERVE, 0, 0, m), op(O_REHASH, 0, 0, m / 2) });
                if (T) { emit(Ops{ op(O_ROOM, 100, 0, n), op(O_SHRINK), op(O_ROOM, 100, 0, n + m) }); emit(Ops{ op(O_ROOM, 100, 0, n), op(O_CLEAR, 0, 0, m & 1), op(O_ROOM, 100, 0, m) }); }
            }
        }, false);
        if (!T && P.f == hp_rev) continue;
        // every sequence of capacity calls interleaved with insertions and removals
        Space t; t.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/mix/" + st.n + std::to_string(st.ids.size());
        t.setup = s.setup; t.prefix = st.p; t.uni = st.ids; for (int q = 0; q < 40; q++) t.uni.push_back(FILL_BASE + 60 + q);
        for (int q = 0; q < 3; q++) t.uni.push_back(q);
        for (uint32_t n : { 0u, 1u, 5u, 8u, 14u, 15u, 16u, 29u, 30u, 33u, 64u, 65u }) { t.alphabet.push_back(op(O_RESERVE, 0, 0, n)); t.alphabet.push_back(op(O_REHASH, 0, 0, n)); }
        t.alphabet += Ops{ op(O_SHRINK, 0, 0, 0), op(O_SHRINK, 0, 0, 1), op(O_MLF, 0, 0, 30), op(O_MLF, 0, 0, 60), op(O_MLF, 0, 0, 50), op(O_MLF, 0, 0, 100), op(O_MLF, 0, 0, 87), op(O_CLEAR, 0, 0, 0), op(O_CLEAR, 0, 0, 1),
                           op(O_EMP_R, 0, 1), op(O_EMP_R, 1, 2), op(O_ER_K, 0), op(O_FILL, 60, 0, 1), op(O_FILL, 60, 0, 14), op(O_FILL, 60, 0, 40), op(O_UNFILL, 60, 0, 39), op(O_UNFILL, 0, 0, 20), opB(O_COPY), op(O_SWAP), op(O_MOVE), opB(O_MOVE) };
        t.suffix = { op(O_EMP_R, 2, 1), op(O_ROOM, 110, 0, 35), op(O_ER_K, 2) };
        for (int q = 0; q < 110; q++) t.uni.push_back(FILL_BASE + 110 + q);
        t.depth = T ? 3 : 2; t.max_states = T ? 20000 : 3000; t.weight = 10;
        add_space<W>(t);
    }
}
static Registrar r_(reg);
