// P05: iteration visits each element once; erasing returns the successor.
#include "kinds.h"
using namespace mc;
typedef World<CfgOf<MC_PART>> W;

static void reg() {
    const bool T = thorough();
    std::string base = std::string(KINDNAME "/") + CN;
    std::vector<Pattern> pats;
    for (auto & p : kPatterns) {
        const bool chain = p.f == hp_same || p.f == hp_ones || p.f == hp_top;
        if (KIND == ROBIN && p.f == hp_top) continue;
        if (!T && (p.f == hp_toptwo || p.f == hp_mod3 || p.f == hp_pair)) continue;
        (void)chain; pats.push_back(p);
    }
    std::vector<int> ns;
    for (int n = 0; n <= (T ? 36 : 9); n++) ns.push_back(n);
    if (!T) for (int n : { 12, 15, 16, 20, 29, 32 }) ns.push_back(n);
    if (T) { ns.push_back(48); ns.push_back(60); ns.push_back(64); }
    for (auto & P : pats) for (int n : ns) {
        const bool chain = P.f == hp_same || P.f == hp_ones;
        if (KIND == ROBIN && chain && n > 15) continue;
        // start states: as filled; with spare room; after erasing every third element; grown by other keys which left
        for (int start = 0; start < 4; start++) {
            if (n == 0 && start == 2) continue;
            if (start == 3 && KIND == ROBIN && chain) continue;
            Space s; s.name = base + "/" + P.name + "/n" + std::to_string(n) + "/start" + std::to_string(start);
            auto pf = P.f; s.setup = [pf] { hash_all(pf); };
            if (start == 1) s.prefix.push_back(op(O_RESERVE, 0, 0, 50));
            if (start == 3) s.prefix.push_back(op(O_FILL, 70, 0, n / 2 + 5));
            s.prefix.push_back(op(O_FILL, 0, 0, n));
            if (start == 2) s.prefix.push_back(op(O_ER_IF, 0, 0, 0x92492490u));
            if (start == 3) s.prefix.push_back(op(O_UNFILLR, 70, 0, n / 2 + 5));
            s.uni = uni_of(1, 0, n, false);
            for (int q = 0; q < n; q++) { s.alphabet.push_back(op(O_ER_IT, FILL_BASE + q)); s.alphabet.push_back(op(O_ER_CIT, FILL_BASE + q)); }
            for (int i = 0; i <= n; i++) for (int j = i; j <= n; j++) {
                if (n > 16 && !(i < 2 || j > n - 2 || j - i < 2 || (i + j) % 7 == 0)) continue;
                s.alphabet.push_back(op((i + j) & 1 ? O_ER_RANGE : O_ER_CRANGE, i, j));
                if (j - i == 2 || n <= 6) s.alphabet.push_back(op((i + j) & 1 ? O_ER_CRANGE : O_ER_RANGE, i, j));
            }
            // selections: every subset for small n, else structured ones (fill id 64+q is bit (2+q) mod 31)
            if (n <= (T ? 9 : 7)) {
                for (uint32_t mask = 0; mask < (1u << n); mask++) for (int c : { O_ER_IF, O_ER_WALK, O_ER_WALKC }) {
                    if (n > 5 && c == O_ER_WALKC && (mask & 1)) continue;
                    s.alphabet.push_back(op((uint8_t)c, 0, 0, mask << 2));
                }
            } else {
                std::vector<uint32_t> ms = { 0, 0x7FFFFFFFu, 0x55555555u, 0xAAAAAAAAu, 0x33333333u, 0xCCCCCCCCu, 0x0F0F0F0Fu, 0xF0F0F0F0u, 0x00FF00FFu, 0x0000FFFFu, 0xFFFF0000u, 0x49249249u, 0x6DB6DB6Du };
                for (int b = 0; b < 31; b++) { ms.push_back(1u << b); ms.push_back(~(1u << b)); ms.push_back((1u << b) - 1); }
                for (auto mask : ms) { s.alphabet.push_back(op(O_ER_IF, 0, 0, mask)); s.alphabet.push_back(op(O_ER_WALK, 0, 0, mask)); if (mask & 4) s.alphabet.push_back(op(O_ER_WALKC, 0, 0, mask)); }
            }
            s.alphabet.push_back(op(O_ITER_SET, 0, 5));
            s.suffix = { op(O_FILL, 0, 0, n), op(O_ER_WALK, 0, 0, 0x55555555u) };
            // after one erasure a second one meets the layout the first one left (small tables)
            s.depth = 1; s.max_states = 1u << 20;
            if (n >= 2 && n <= (T ? 6 : 4)) s.depth = 2;
            s.weight = n;
            add_space<W>(s);
        }
    }
    // longer histories over single erasures and insertions
    for (auto & P : pats) {
        Space s; s.name = base + "/" + P.name + "/mixed"; auto pf = P.f; s.setup = [pf] { hash_all(pf); };
        const int nk = T ? 5 : 4;
        for (int k = 0; k < nk; k++) { s.alphabet.push_back(op(O_EMP_R, k, 1)); s.alphabet.push_back(op(k & 1 ? O_ER_CIT : O_ER_IT, k)); }
        for (uint32_t m : { 5u, 10u, 3u, 12u }) s.alphabet.push_back(op(O_ER_WALK, 0, 0, m));
        s.alphabet.push_back(op(O_ER_RANGE, 1, 3)); s.alphabet.push_back(op(O_ER_CRANGE, 0, 2));
        s.uni = uni_of(nk, 0, 0); s.depth = 12; s.max_states = T ? 20000 : 1500; s.weight = 40;
        add_space<W>(s);
    }
}
static Registrar r_(reg);
