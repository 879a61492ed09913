// P12: every way of being empty, followed by every short sequence of operations.
#include "kinds.h"
using namespace mc;
typedef World<CfgOf<MC_PART>> W;

static void reg() {
    const bool T = thorough();
    struct Start { const char * n; Ops p; };
    std::vector<Start> st = {
        { "default", {} }, { "cap0", { op(O_RECON, 0, 0, 0) } }, { "cap1", { op(O_RECON, 0, 0, 1) } }, { "cap100", { op(O_RECON, 0, 0, 100) } },
        { "clear", { op(O_FILL, 0, 0, 5), op(O_CLEAR, 0, 0, 0) } }, { "clear-freed", { op(O_FILL, 0, 0, 5), op(O_CLEAR, 0, 0, 1) } }, { "clear-default", { op(O_CLEAR, 0, 0, 0) } }, { "clear-default-freed", { op(O_CLEAR, 0, 0, 1) } },
        { "clear-big", { op(O_FILL, 0, 0, 33), op(O_CLEAR, 0, 0, 0) } }, { "clear-twice", { op(O_FILL, 0, 0, 3), op(O_CLEAR, 0, 0, 1), op(O_CLEAR, 0, 0, 0), op(O_CLEAR, 0, 0, 1) } },
        { "erased", { op(O_FILL, 0, 0, 7), op(O_UNFILL, 0, 0, 7) } }, { "erased-full", { op(O_FILL, 0, 0, 29), op(O_UNFILLR, 0, 0, 29) } }, { "erase-if", { op(O_FILL, 0, 0, 14), op(O_ER_IF, 0, 0, 0xFFFFFFFF) } }, { "erase-range", { op(O_FILL, 0, 0, 14), op(O_ER_RANGE, 0, 200) } },
        { "reserve0", { op(O_RESERVE) } }, { "rehash0", { op(O_REHASH) } }, { "shrunk", { op(O_FILL, 0, 0, 20), op(O_UNFILL, 0, 0, 20), op(O_SHRINK) } }, { "shrunk-cleared", { op(O_FILL, 0, 0, 20), op(O_CLEAR), op(O_SHRINK, 0, 0, 1) } },
        { "cleared-reserve0", { op(O_FILL, 0, 0, 20), op(O_CLEAR), op(O_RESERVE) } }, { "freed-rehash0", { op(O_FILL, 0, 0, 20), op(O_CLEAR, 0, 0, 1), op(O_REHASH) } },
        { "moved-from", { op(O_FILL, 0, 0, 9), opB(O_MOVE) } }, { "moved-from-alloc", { op(O_FILL, 0, 0, 9), opB(O_MOVEA, 0, 0, 1) } }, { "moved-from-unequal", { op(O_FILL, 0, 0, 9), opB(O_MOVEA, 0, 0, 5) } },
        { "move-assigned-from", { op(O_FILL, 0, 0, 9), opB(O_MASSIGN) } }, { "move-assigned-from-onto", { op(O_FILL, 0, 0, 9), opB(O_FILL, 90, 0, 3), opB(O_MASSIGN) } }, { "moved-to-empty", { opB(O_MOVE) , op(O_FILL, 0, 0, 2), op(O_MOVE) } },
        { "copy-of-empty", { opB(O_CLEAR), op(O_COPY) } }, { "copy-of-cleared", { opB(O_FILL, 0, 0, 9), opB(O_CLEAR), op(O_COPY) } }, { "copy-of-freed", { opB(O_FILL, 0, 0, 9), opB(O_CLEAR, 0, 0, 1), op(O_COPY) } },
        { "assigned-empty", { op(O_FILL, 0, 0, 9), opB(O_CLEAR), op(O_CASSIGN) } }, { "move-assigned-empty", { op(O_FILL, 0, 0, 9), opB(O_CLEAR), op(O_MASSIGN) } }, { "copy-of-moved-from", { opB(O_FILL, 0, 0, 9), op(O_MOVE), op(O_COPY) } },
        { "swapped-empty", { op(O_FILL, 0, 0, 9), opB(O_CLEAR), op(O_SWAP) } }, { "empty-range", { op(O_RANGE_CTOR, 0, 0, 0) } }, { "empty-range-cap", { op(O_RANGE_CTOR, 40, 0, 0) } }, { "moved-from-twice", { op(O_FILL, 0, 0, 3), opB(O_MOVE), opB(O_MOVE) } },
    };
    std::vector<Pattern> pats = { { "spread", hp_spread }, { "zero8", hp_zero8 } };
    if (T) { pats.push_back({ "ones", hp_ones }); pats.push_back({ "ends", hp_ends }); }
    for (auto & P : pats) for (auto & q : st) {
        if (!T && P.f != hp_spread && MC_PART != 0) continue;
        Space s; s.name = std::string(KINDNAME "/") + CN + "/" + P.name + "/" + q.n;
        auto pf = P.f; s.setup = [pf] { hash_all(pf); };
        s.prefix = q.p;
        s.uni = uni_of(4, 0, 2); s.uni.push_back(FILL_BASE + 90); s.uni.push_back(FILL_BASE + 91); s.uni.push_back(FILL_BASE + 92);
        Ops a = a_core(2) + a_forms(2) + a_erase(2) + a_whole() + a_two();
        a += Ops{ op(O_DESTROY), op(O_RECON, 0, 0, 0), op(O_RECON, 0, 0, 0xFFFF), op(O_CLEAR, 0, 0, 1), op(O_SHRINK, 0, 0, 1), op(O_RESERVE, 0, 0, 100), op(O_REHASH, 0, 0, 1), op(O_FILL, 0, 0, 2), opB(O_EMP_R, 1, 1), opB(O_CLEAR), opB(O_CLEAR, 0, 0, 1), opB(O_FILL, 90, 0, 3),
                  opB(O_COPYA, 0, 0, 1), opB(O_COPYA, 0, 0, 7), opB(O_MOVEA, 0, 0, 1), opB(O_MOVEA, 0, 0, 7), op(O_RANGE_INS, 0, 0, 0), op(O_ILASSIGN, 1, 1), op(O_MLF, 0, 0, 100) };
        s.alphabet = a;
        s.suffix = { op(O_ER_K, 0), op(O_EMP_R, 0, 2), op(O_ER_IF, 0, 0, 2), op(O_CLEAR, 0, 0, 0), op(O_FILL, 0, 0, 3) };
        s.uni.push_back(FILL_BASE + 2);
        { Space t = s; t.name += "/singles"; t.suffix += Ops{ op(O_FILL, 0, 0, 40), op(O_UNFILL, 0, 0, 40), op(O_SHRINK), op(O_EMP_R, 1, 1) };
          for (int z = 3; z < 40; z++) t.uni.push_back(FILL_BASE + z); add_sequences<W>(t, 1); }
        if (T) { s.depth = 4; s.max_states = 8000; s.weight = 9; add_space<W>([&] { Space t = s; t.name += "/bfs"; return t; }()); }
        s.weight = 5; s.name += "/pairs";
        add_sequences<W>(s, 2);
    }
}
static Registrar r_(reg);
