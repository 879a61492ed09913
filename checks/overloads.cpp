// The overloads beyond the basic forms: MC_SET 1 insertions (P10), 2 constructors and lists (P22),
// 3 lookups and positions (P23), 4 capacity requests (P07), 5 erasure by keys (P05).
#include "kinds.h"
#include "ext.h"
using namespace mc;
#if MC_SET == 2
typedef XWorld<SCfgOf<MC_PART>> W;
#else
typedef XWorld<CfgOf<MC_PART>> W;
#endif
static Op x(uint32_t f, int k = 0, int v = 1, uint32_t mask = 0) { return op(O_EXT, k, v, f | mask << 8); }
static Op xB(uint32_t f, int k = 0, int v = 1, uint32_t mask = 0) { return opB(O_EXT, k, v, f | mask << 8); }

static void reg() {
    const bool T = thorough();
    const std::string base = std::string(KINDNAME "/") + CN;
    std::vector<Pattern> pats;
    for (auto & p : kPatterns) {
        if (p.f == hp_toptwo || p.f == hp_mod3 || p.f == hp_pair || p.f == hp_ones) continue;
        if (!T && (p.f == hp_top || p.f == hp_frag)) continue;
        pats.push_back(p);
    }
    std::vector<int> fills = KIND == ROBIN ? std::vector<int>{ 0, 1, 2, 3, 4, 7, 8, 9, 14, 16, 20 } : std::vector<int>{ 0, 1, 11, 12, 13, 14, 25, 26, 27, 28, 29, 30, 56, 58 };
    if (T) { fills.clear(); for (int f = 0; f <= 66; f++) fills.push_back(f); }
    for (auto & P : pats) for (int f : fills) {
        const bool chain = P.f == hp_same || P.f == hp_top;
        if ((MC_SET == 4 || MC_SET == 2) && KIND == ROBIN && (chain || P.f == hp_zero8 || P.f == hp_frag)) continue;   // capacity is exponential in the number of equal codes
        if (KIND == ROBIN && chain && f > 14) continue;
        if (!T && MC_SET == 4 && P.f != hp_ident && P.f != hp_spread && P.f != hp_ends && P.f != hp_same) continue;
        for (int var = 0; var < 3; var++) {
            if (var && (f == 0 || (!T && f % 3))) continue;
            Space s; s.name = base + "/" + P.name + "/set" + std::to_string(MC_SET) + "/fill" + std::to_string(f) + "/v" + std::to_string(var);
            auto pf = P.f; s.setup = [pf] { hash_all(pf); };
            if (f) s.prefix.push_back(op(O_FILL, 0, 0, f));
            if (var == 1) s.prefix.push_back(op(O_ER_IF, 0, 0, 0x92492490u));
            if (var == 2) { s.prefix.push_back(op(O_RESERVE, 0, 0, 90)); }
            s.uni = uni_of(8, 0, f + 1);
            s.weight = 1 + f / 8;
            const int fl = f;
            const Ops probe = { x(X_LOOK), x(X_ITERS) };
#if MC_SET == 1
            s.suffix = { op(O_EMP_R, 5, 1), op(O_ER_K, 5), x(X_IOA_X, 6, 2) };
            add_cases<W>(s, [=](const Emit & emit) {
                auto F = xforms();
                auto with = [](Op o, int k, int v) { o.k = (uint8_t)k; o.v = (uint8_t)v; return o; };
                for (auto & fm : F) for (int v = 1; v <= 2; v++) {
                    emit({ with(fm, 0, v) });
                    if (fl) { emit({ with(fm, FILL_BASE, v + 3) }); emit({ with(fm, FILL_BASE + fl - 1, v + 3) }); emit({ with(fm, FILL_BASE + fl / 2, v + 3) }); }
                    emit({ with(fm, 0, v), with(fm, 0, 3 - v) });
                    emit({ with(fm, 0, v), op(O_ER_K, 0), with(fm, 0, 3 - v) });
                    for (int k = 1; k < 5; k++) emit({ with(fm, k, v), with(fm, k + 1, v), with(fm, k - 1, 3 - v) });
                }
                if (var == 0 || T) for (auto & p : F) for (auto & q : F) { emit({ with(p, 0, 1), with(q, 0, 2) }); if (T || !(fl & 3)) emit({ with(p, 0, 1), with(q, 1, 2), with(p, 1, 3) }); }
                // from the basic form to the overload and back
                for (auto & p : F) for (auto & q : forms()) { if (var && !T) break; emit({ with(p, 0, 1), with(q, 0, 2) }); emit({ with(q, 0, 1), with(p, 0, 2) }); }
                // ranges from other sources: every subset of eight keys, some present
                for (uint32_t m = 0; m < 256; m++) { if (!T && m > 63 && m % 5) continue; for (uint32_t q : { X_I_LIST, X_I_PTR, X_I_ONEPASS, X_I_MAP, X_I_MOVE, X_I_PX }) { emit({ x(q, 0, 1, m) }); if (m & 1) emit({ op(O_EMP_R, 1, 7), op(O_EMP_R, 6, 8), x(q, 0, 1, m) }); } }
                for (uint32_t b = 0; b < 6; b++) for (int v = 1; v < 3; v++) { emit({ x(X_INS_IL, 0, v, b) }); emit({ op(O_EMP_R, (int)b + 1, 8), x(X_INS_IL, 0, v, b) }); }
            }, false);
#elif MC_SET == 2
            if (var == 1 || (!T && (f > 30 || (f && f % 4 == 1 && f < 29) || (P.f != hp_ident && P.f != hp_spread && P.f != hp_ends && P.f != hp_same)))) continue;
            s.suffix = { op(O_EMP_R, 5, 1), op(O_FILL, 100, 0, 20), op(O_ER_K, 5), x(X_LOOK), op(O_SHRINK), opB(O_EMP_R, 1, 4) };
            add_cases<W>(s, [=](const Emit & emit) {
                std::vector<int> caps = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 14, 15, 16, 17, 24, 29, 30, 31, 32, 33, 58, 60, 64, 65, 100, 128, 200, 255 };
                if (T) { caps.clear(); for (int c = 0; c < 256; c++) caps.push_back(c); }
                else if (fl) caps = { 0, 1, 8, 14, 16, 30, 33, 100 };
                const std::vector<uint32_t> masks = fl == 0 || T ? std::vector<uint32_t>{ 0, 1, 2, 3, 7, 0x55, 0xAA, 0xF0, 0xFF, 0x81 } : std::vector<uint32_t>{ 0, 1, 7, 0xFF };
                for (uint32_t c = X_C_CAP; c <= X_C_PX; c++) {
                    const bool list = c >= X_C_IL && c <= X_C_ILCHA;
                    for (int cap : caps) {
                        if (c < X_C_FL) { emit({ xB(c, cap) }); emit({ x(c, cap) }); if (cap < 40) { emit({ xB(c, cap), opB(O_FILL, 0, 0, cap + 1) }); emit({ xB(c, cap), opB(O_FILL, 0, 0, 12), opB(O_UNFILL, 3, 0, 9) }); emit({ xB(c, cap), op(O_CASSIGN) }); emit({ xB(c, cap), op(O_MASSIGN) }); emit({ xB(c, cap), opB(O_CASSIGN) }); } }
                        else for (uint32_t m : masks) {
                            const uint32_t mm = list ? m & 7 : m;
                            emit({ xB(c, cap, 1, mm) });
                            if (cap < 20 && (m == 7 || m == 0xFF || m == 0)) { emit({ xB(c, cap, 2, mm), opB(O_FILL, 0, 0, 30) }); emit({ xB(c, cap, 2, mm), opB(O_ER_K, 0), opB(O_EMP_R, 1, 5), opB(O_EMP_R, 7, 6) }); emit({ xB(c, cap, 1, mm), op(O_CASSIGN) }); emit({ xB(c, cap, 1, mm), op(O_MASSIGN) }); }
                        }
                    }
                    // every subset of the keys
                    if (c >= X_C_FL && !list && (fl == 0 || T)) for (uint32_t m = 0; m < 256; m++) emit({ xB(c, 3, 1, m) });
                }
                for (uint32_t b = 0; b < 8; b++) for (int v = 1; v < 3; v++) { emit({ x(X_ASG_IL, 0, v, b) }); emit({ op(O_EMP_R, 1, 7), x(X_ASG_IL, 0, v, b), x(X_ASG_IL, 0, v, 7 - b) }); emit({ xB(X_C_ILA, 0, v, b), opB(O_EXT, 0, 1, X_ASG_IL | b << 8) }); }
            }, false);
#elif MC_SET == 3
            if (KIND == ROBIN && MC_PART == 3 && f > 40) continue;
            s.suffix = probe;
            s.alphabet = a_core(3) + Ops{ op(O_CLEAR, 0, 0, 0), op(O_CLEAR, 0, 0, 1), op(O_SHRINK), op(O_REHASH, 0, 0, 40), op(O_ER_IF, 0, 0, 0x55555555), op(O_ER_IF, 0, 0, 0x33333333), op(O_FILL, 40, 0, 9), op(O_UNFILL, 0, 0, 9), op(O_UNFILLR, 2, 0, 20), opB(O_COPY), op(O_SWAP), op(O_MOVE), opB(O_MOVE), op(O_MASSIGN), op(O_DESTROY), x(X_LOOK), x(X_ITERS) };
            for (int q = 0; q < 9; q++) s.uni.push_back(FILL_BASE + 40 + q);
            s.depth = T ? 4 : 3; s.max_states = T ? 3000 : f <= 2 ? 250 : 48;
            add_space<W>(s);
#elif MC_SET == 4
            s.suffix = { op(O_EMP_R, 1, 2), op(O_ER_K, FILL_BASE), op(O_FILL, 100, 0, 30), x(X_LOOK) };
            for (int q = 0; q < 30; q++) s.uni.push_back(FILL_BASE + 100 + q);
            add_cases<W>(s, [=](const Emit & emit) {
                for (int q = 0; q < 11; q++) for (int v = 0; v < 3; v++) { emit({ x(X_HUGE, q, v) }); emit({ x(X_HUGE, q, v), x(X_HUGE, (q + 1) % 11, (v + 1) % 3) }); emit({ op(O_CLEAR, 0, 0, 1), x(X_HUGE, q, v) }); }
                for (int q = 0; q < 16; q++) {
                    emit({ x(X_MLF_ODD, q), op(O_FILL, 60, 0, 30) }); emit({ x(X_MLF_ODD, q), op(O_ROOM, 150, 0, 40) }); emit({ x(X_MLF_ODD, q), op(O_SHRINK), op(O_ER_IF, 0, 0, 0x55555555), op(O_SHRINK) });
                    for (int r = 0; r < 16; r++) { emit({ x(X_MLF_ODD, q), op(O_FILL, 60, 0, 5), x(X_MLF_ODD, r), op(O_FILL, 65, 0, 8) }); }
                    emit({ x(X_MLF_ODD, q), opB(O_COPY), opB(O_FILL, 60, 0, 20) }); emit({ x(X_MLF_ODD, q), opB(O_MOVE), opB(O_FILL, 60, 0, 20) }); emit({ x(X_MLF_ODD, q), op(O_SWAP), opB(O_FILL, 60, 0, 20), op(O_FILL, 60, 0, 20) });
                    for (int cap : { 0, 1, 8, 20, 33, 64 }) { emit({ x(X_MLF_ODD, q), op(O_RESERVE, 0, 0, cap), op(O_FILL, 60, 0, 12) }); emit({ x(X_MLF_ODD, q), op(O_REHASH, 0, 0, cap), op(O_FILL, 60, 0, 12) }); }
                }
                for (int v = 0; v < 5; v++) for (uint32_t n = 0; n <= 130; n += n < 70 ? 1 : 10) {
                    emit({ x(X_READONLY, 0, v, n) }); emit({ x(X_READONLY, 0, v, n), op(O_FILL, 60, 0, 1) }); emit({ x(X_READONLY, 0, v, n), op(O_FILL, 60, 0, 40) });
                    if (n % 7 == 0) { emit({ op(O_UNFILL, 0, 0, fl / 2), x(X_READONLY, 0, v, n), op(O_FILL, 60, 0, 10), x(X_READONLY, 0, v, 0), op(O_FILL, 70, 0, 3) }); emit({ x(X_READONLY, 0, v, n), opB(O_COPY), opB(O_FILL, 60, 0, 9), op(O_MASSIGN), op(O_FILL, 80, 0, 9) }); }
                }
            }, false);
#elif MC_SET == 5
            s.suffix = { op(O_FILL, 0, 0, f), op(O_EMP_R, 2, 2), x(X_ITERS) };
            add_cases<W>(s, [=](const Emit & emit) {
                const Ops four = { op(O_EMP_R, 0, 1), op(O_EMP_R, 1, 2), op(O_EMP_R, 3, 3), op(O_EMP_R, 5, 4) };
                for (uint32_t m = 0; m < 512; m++) { emit(four + Ops{ x(X_ER_KEYS, 0, 0, m) }); if (m % 3 == 0) emit(four + Ops{ x(X_ER_KEYLIST, 0, 0, m << 4) }); }
                for (uint32_t m = 0; m < 256; m++) { emit({ x(X_ER_KEYS, 0, 0, m << 8) }); if (m & 1) emit({ x(X_ER_KEYS, 0, 0, m << 8), x(X_ER_KEYLIST, 0, 0, (255 - m) << 8) }); }
                for (int q = 0; q < fl; q++) for (uint32_t c : { X_ER_X, X_ER_ONE }) { emit({ x(c, FILL_BASE + q) }); emit({ x(c, FILL_BASE + q), x(c, FILL_BASE + (q + 1) % fl) }); emit({ x(c, FILL_BASE + q), x(c, FILL_BASE + q) }); emit({ x(c, FILL_BASE + q), x(c, FILL_BASE + (q + 5) % fl), op(O_EMP_R, 1, 1), x(c, 1) }); }
                emit({ x(X_ER_X, 0) }); emit({ x(X_ER_ONE, 0) });
            }, false);
#endif
        }
    }
}
static Registrar r_(reg);
