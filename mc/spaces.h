// Hash placements, alphabets and start states shared by the map checks.
#ifndef MC_SPACES_H
#define MC_SPACES_H
#include "world.h"
namespace mc {

struct Pattern { const char * name; uint64_t (*f)(int); };
// hash codes are chosen so that the low bits (robin home position, group metadata byte)
// and the high bits (group index) are driven separately
inline uint64_t hp_spread(int id) { return (uint64_t)id * 0x9E3779B97F4A7C15ull ^ (uint64_t)id; }
inline uint64_t hp_ident(int id) { return (uint64_t)id; }
inline uint64_t hp_same(int) { return 0; }
inline uint64_t hp_ones(int) { return ~0ull; }
inline uint64_t hp_pair(int id) { return (uint64_t)(id / 2) * 0x0100000000000001ull; }
inline uint64_t hp_rev(int id) { return 0ull - (uint64_t)id - 1; }                 // counts down from the last position
inline uint64_t hp_top(int id) { return (uint64_t)id << 56; }                       // same low bits
inline uint64_t hp_toptwo(int id) { return ((uint64_t)(id & 1) << 63) | (uint64_t)(id * 5 & 0xFF); }
inline uint64_t hp_ends(int id) { return (id & 1) ? ~0ull - (uint64_t)(id / 4) : (uint64_t)(id / 4); }
inline uint64_t hp_zero8(int id) { return (uint64_t)((id & 3) == 0 ? 0 : (id & 3) == 1 ? 8 : (id & 3) == 2 ? 1 : 9) | ((uint64_t)(id & 4) << 60); }
inline uint64_t hp_frag(int id) { return (uint64_t)(id & 7) | 0x80; }
inline uint64_t hp_mod3(int id) { return (uint64_t)(id % 3) * 0x5500000000000055ull; }
static const Pattern kPatterns[] = {
    { "spread", hp_spread }, { "ident", hp_ident }, { "pair", hp_pair }, { "rev", hp_rev }, { "ends", hp_ends },
    { "top", hp_top }, { "toptwo", hp_toptwo }, { "zero8", hp_zero8 }, { "frag", hp_frag }, { "mod3", hp_mod3 },
    { "same", hp_same }, { "ones", hp_ones },
};

inline Op op(uint8_t c, int k = 0, int v = 0, uint32_t x = 0) { return Op{ c, (uint8_t)k, (uint8_t)v, x }; }
inline Op opB(uint8_t c, int k = 0, int v = 0, uint32_t x = 0) { return Op{ (uint8_t)(c | 0x80), (uint8_t)k, (uint8_t)v, x }; }
typedef std::vector<Op> Ops;
inline Ops & operator+=(Ops & a, const Ops & b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Ops operator+(Ops a, const Ops & b) { a += b; return a; }

// one insertion and one removal per key, overwrite included
inline Ops a_core(int nk) {
    Ops a;
    for (int k = 0; k < nk; k++) { a.push_back(op(O_EMP_R, k, 1 + k % 2)); a.push_back(op(O_ER_K, k)); }
    return a;
}
// insertion forms spread over the keys: form f is used with key (f + r) mod nk
inline const Ops & forms() {
    static Ops f;
    if (f.empty()) for (int c = O_INS_C; c <= O_INS_ALWAYS; c++) f.push_back(op((uint8_t)c));
    return f;
}
inline Ops a_forms(int nk, int v = 2) { Ops a; int q = 0; for (auto o : forms()) { a.push_back(op(o.c, q % nk, v)); q++; } return a; }
inline Ops a_allforms(int nk, int v = 2) { Ops a; for (auto o : forms()) for (int k = 0; k < nk; k++) a.push_back(op(o.c, k, v)); return a; }
inline Ops a_erase(int nk) {
    Ops a;
    for (int k = 0; k < nk; k++) { a.push_back(op(O_ER_IT, k)); a.push_back(op(O_ER_CIT, k)); }
    for (int i = 0; i <= 3; i++) for (int j = i; j <= 4; j++) a.push_back(op((i + j) & 1 ? O_ER_RANGE : O_ER_CRANGE, i, j));
    a.push_back(op(O_ER_RANGE, 0, 200));
    for (uint32_t x : { 0x55555555u, 0xAAAAAAAAu, 0x1u, 0xFFFFFFFFu, 0xFFFFFFFEu }) { a.push_back(op(O_ER_IF, 0, 0, x)); a.push_back(op(O_ER_WALK, 0, 0, x)); a.push_back(op(O_ER_WALKC, 0, 0, x)); }
    return a;
}
inline Ops a_whole() {
    Ops a = { op(O_CLEAR, 0, 0, 0), op(O_CLEAR, 0, 0, 1), op(O_RESERVE, 0, 0, 0), op(O_RESERVE, 0, 0, 9), op(O_REHASH, 0, 0, 0), op(O_REHASH, 0, 0, 20),
              op(O_SHRINK, 0, 0, 0), op(O_MLF, 0, 0, 60), op(O_MLF, 0, 0, 40), op(O_RANGE_INS, 0, 1, 0x7), op(O_RANGE_INS, 0, 2, 0xA), op(O_IL_INS, 0, 1), op(O_IL_INS, 1, 2) };
    return a;
}
inline Ops a_two() {
    return { opB(O_COPY), op(O_COPY), opB(O_MOVE), op(O_MOVE), op(O_CASSIGN), opB(O_CASSIGN), op(O_MASSIGN), opB(O_MASSIGN), op(O_SWAP), op(O_SWAPSTD), op(O_SWAPADL),
             op(O_SELFASSIGN), op(O_SELFSWAP), opB(O_DESTROY), op(O_RANGE_SELF) };
}
inline std::vector<int> uni_of(int nk, int fill0, int fill, bool absent = true) {
    std::vector<int> u;
    for (int k = 0; k < nk; k++) u.push_back(k);
    if (absent) { u.push_back(nk); u.push_back(nk + 7); }
    for (int q = 0; q < fill; q++) u.push_back(FILL_BASE + fill0 + q);
    return u;
}
} // namespace mc
#endif
