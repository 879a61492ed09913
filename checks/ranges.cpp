// P24: stepping, reversing, counting, exchanging and aligning: the range and memory helpers agree with their definitions.
// Built several times with other language modes (jstd is renamed by the build, MC_VAR names the variant).
#include "domain.h"
#include <jstd/basic/stddef.h>
#include <climits>
#include <cstring>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <vector>
#include <jstd/iterator.h>
#include <jstd/memory/swap.h>
#include <jstd/utility/utility.h>
using namespace mc;
namespace {
typedef uint64_t u64;
#ifndef NDEBUG
const char * const kMode = MC_VAR " with assertions";
#else
const char * const kMode = MC_VAR;
#endif
#define BAD(...) do { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); MC_FAIL(c, idx, "%s [%s]", b_, kMode); } while (0)

// ---- positions of our own, over an array with guards: every step outside is noticed ------------
struct Cell { int v; int pad; bool operator==(const Cell & o) const { return v == o.v; } };
struct Span { const Cell * lo; const Cell * hi; };
long g_steps = 0;
template <class Tag, class Diff> struct Pos : jstd::iterator<Tag, Cell, Diff, Cell *, Cell &> {
    typedef jstd::iterator<Tag, Cell, Diff, Cell *, Cell &> Base; typedef typename Base::reference reference; typedef typename Base::difference_type difference_type;
    Cell * p; Span s;
    Pos() : p(nullptr), s() {}
    Pos(Cell * q, Span t) : p(q), s(t) {}
    void ok() const { if (p < s.lo || p > s.hi) bad("a position leaves its range"); }
    reference operator*() const { if (p < s.lo || p >= s.hi) { bad("a position outside of the range is read"); static Cell z; return z; } return *p; }
    Cell * operator->() const { return &**this; }
    Pos & operator++() { ++p; g_steps++; ok(); return *this; }
    Pos operator++(int) { Pos t(*this); ++*this; return t; }
    Pos & operator--() { --p; g_steps++; ok(); return *this; }
    Pos operator--(int) { Pos t(*this); --*this; return t; }
    Pos & operator+=(Diff d) { p += d; ok(); return *this; }
    Pos & operator-=(Diff d) { p -= d; ok(); return *this; }
    Pos operator+(Diff d) const { Pos t(*this); t += d; return t; }
    Pos operator-(Diff d) const { Pos t(*this); t -= d; return t; }
    Diff operator-(const Pos & o) const { return (Diff)(p - o.p); }
    reference operator[](Diff d) const { return *(*this + d); }
    bool operator==(const Pos & o) const { return p == o.p; } bool operator!=(const Pos & o) const { return p != o.p; }
    bool operator<(const Pos & o) const { return p < o.p; } bool operator>(const Pos & o) const { return p > o.p; }
    bool operator<=(const Pos & o) const { return p <= o.p; } bool operator>=(const Pos & o) const { return p >= o.p; }
};
typedef Pos<jstd::input_iterator_tag, long> In; typedef Pos<jstd::forward_iterator_tag, long> Fwd; typedef Pos<jstd::bidirectional_iterator_tag, long> Bid; typedef Pos<jstd::random_access_iterator_tag, long> Rnd;
typedef Pos<jstd::bidirectional_iterator_tag, signed char> BidC; typedef Pos<jstd::random_access_iterator_tag, signed char> RndC;
enum { MAXN = 12 };
Cell g_cells[MAXN + 8];
void cells() { for (int i = 0; i < MAXN + 8; i++) { g_cells[i].v = 100 + i; g_cells[i].pad = ~i; } }
Cell * base() { return g_cells + 4; }

// ---- A: every program of steps of a reversed range ----------------------------------------------
template <class It> struct At;                                  // the position i of a range of n elements
template <class Tag, class D> struct At<Pos<Tag, D>> { static Pos<Tag, D> get(int i, int n) { return Pos<Tag, D>(base() + i, Span{ base(), base() + n }); } static int index(const Pos<Tag, D> & p) { return (int)(p.p - base()); } };
template <> struct At<Cell *> { static Cell * get(int i, int) { return base() + i; } static int index(const Cell * p) { return (int)(p - base()); } };
template <> struct At<const Cell *> { static const Cell * get(int i, int) { return base() + i; } static int index(const Cell * p) { return (int)(p - base()); } };
const char * ROPS[] = { "++it", "it++", "--it", "it--", "+= 2", "-= 2", "= it + 1", "= 1 + it", "= it - 1", "copied", "assigned", "+= -1", "-= -1", "+= 0", "remade from base()" };
enum { NROP = 15, RO = 15 };
const int RDELTA[] = { 1, 1, -1, -1, 2, -2, 1, 1, -1, 0, 0, -1, 1, 0, 0 };
template <class It, bool RA> struct RStep {      // the steps only positions with arithmetic offer
    typedef jstd::reverse_iterator<It> R;
    static bool step(R &, int) { return false; }
    static bool compare(Ctx &, u64, const R &, const R &, int, int, const char *) { return true; }
    static bool index(Ctx &, u64, const R &, int, int, const char *) { return true; }
};
template <class It> struct RStep<It, true> {
    typedef jstd::reverse_iterator<It> R;
    static bool step(R & r, int o) {
        switch (o) { case 4: { R & q = (r += 2); if (&q != &r) bad("+= returns something else"); } break; case 5: { R & q = (r -= 2); if (&q != &r) bad("-= returns something else"); } break; case 6: { R t(r + 1); r = t; } break; case 7: { R t(1 + r); r = t; } break; case 8: { R t(r - 1); r = t; } break; case 11: r += -1; break; case 12: r -= -1; break; case 13: r += 0; break; default: return false; }
        return true;
    }
    static void compare(Ctx & c, u64 idx, const R & a, const R & b, int i, int j, const char * log) {
        // i and j count from the end: a smaller count comes first in the reversed range
        if ((a < b) != (i < j) || (a > b) != (i > j) || (a <= b) != (i <= j) || (a >= b) != (i >= j)) BAD("reversed positions %d and %d compare in the wrong order after %s", i, j, log);
        if ((long)(a - b) != i - j) BAD("the difference of the reversed positions %d and %d is %ld after %s", i, j, (long)(a - b), log);
    }
    static void index(Ctx & c, u64 idx, const R & a, int i, int n, const char * log) { for (int k = -i; k < n - i; k++) { if (&a[k] != base() + (n - 1 - i - k)) BAD("[%d] at the reversed position %d of %d is another element after %s", k, i, n, log); if (a[k].v != 100 + 4 + n - 1 - i - k) BAD("[%d] shows another value", k); } }
};
template <class It, bool RA> u64 reverse_case(Ctx & c, u64 idx, int depth) {
    typedef jstd::reverse_iterator<It> R; u64 x = idx; const int n = (int)(x % 6); x /= 6; if (x % 6 > (u64)n) return 0; int i = (int)(x % 6); x /= 6;      // n elements, at the reversed position i
    cells(); R r(At<It>::get(n - i, n)); R other; std::string log = "start at " + std::to_string(i) + " of " + std::to_string(n);
    for (int s = 0; s <= depth; s++) {
        const char * L = log.c_str();
        if (At<It>::index(r.base()) != n - i) BAD("base() is at %d, expected %d, after %s", At<It>::index(r.base()), n - i, L);
        if (i < n) { if (&*r != base() + (n - 1 - i) || r->v != (*r).v || &r->v != &base()[n - 1 - i].v) BAD("another element is designated after %s", L); }
        for (int j = 0; j <= n; j++) { R q = jstd::make_reverse_iterator(At<It>::get(n - j, n)); if ((r == q) != (i == j) || (r != q) != (i != j)) BAD("equality of the reversed positions %d and %d is wrong after %s", i, j, L); RStep<It, RA>::compare(c, idx, r, q, i, j, L); }
        RStep<It, RA>::index(c, idx, r, i, n, L);
        if (s == depth) break;
        int o = (int)(x % NROP); x /= NROP; int t = i + RDELTA[o]; if (t < 0 || t > n) return 0;
        log += std::string(", ") + ROPS[o];
        switch (o) {
        case 0: { R & q = ++r; if (&q != &r) bad("++ returns something else"); } break;
        case 1: { R q = r++; if (At<It>::index(q.base()) != n - i) BAD("it++ returns another position after %s", log.c_str()); } break;
        case 2: { R & q = --r; if (&q != &r) bad("-- returns something else"); } break;
        case 3: { R q = r--; if (At<It>::index(q.base()) != n - i) BAD("it-- returns another position after %s", log.c_str()); } break;
        case 9: { R q(r); other = q; r = R(other); } break;
        case 10: { R & q = (other = r); if (&q != &other) bad("assignment returns something else"); r = other; } break;
        case 14: r = R(r.base()); break;
        default: if (!RStep<It, RA>::step(r, o)) return 0;
        }
        if (g_bad) BAD("%s after %s", g_badmsg, log.c_str());
        i = t;
    }
    return 1;
}
template <class It, bool RA> void reverse_of(const char * name, int depth) {
    u64 total = 36; for (int q = 0; q < depth; q++) total *= NROP;
    add_range(std::string(kMode) + "/reverse/" + name, total, 4096, 4, [depth](Ctx & c, u64 lo, u64 hi) { u64 n = 0; for (u64 i = lo; i < hi; i++) n += reverse_case<It, RA>(c, i, depth); return n; }, 2);
}
// conversion between compatible reversed positions, mixed comparisons
u64 mixed_case(Ctx & c, u64 idx) {
    int n = (int)(idx % 13), i = (int)(idx / 13 % 13), j = (int)(idx / 169); if (i > n || j > n) return 0; cells();
    jstd::reverse_iterator<Cell *> a(base() + n - i); jstd::reverse_iterator<const Cell *> b(jstd::reverse_iterator<Cell *>(base() + n - j)), d; d = a;
    if (d.base() != base() + n - i || b.base() != base() + n - j) BAD("a converted reversed position is another one (%d, %d of %d)", i, j, n);
    if ((a == b) != (i == j) || (a != b) != (i != j) || (a < b) != (i < j) || (a > b) != (i > j) || (a <= b) != (i <= j) || (a >= b) != (i >= j) || (b == a) != (i == j) || (b < a) != (j < i) || a - b != i - j || b - a != j - i) BAD("mixed comparison of the reversed positions %d and %d of %d is wrong", i, j, n);
    return 1;
}
// ---- B: stepping and counting --------------------------------------------------------------------
template <class It, bool BI> struct Back { static void prev(Ctx &, u64, int, int, int) {} };
template <class It> struct Back<It, true> { static void prev(Ctx & c, u64 idx, int n, int i, int j) {
    It p = jstd::iterator_utils::prev(At<It>::get(i, n), i - j); if (At<It>::index(p) != j) BAD("prev(%d of %d, %d) is at %d", i, n, i - j, At<It>::index(p));
    if (i > 0) { It q = jstd::iterator_utils::prev(At<It>::get(i, n)); if (At<It>::index(q) != i - 1) BAD("prev(%d of %d) is at %d", i, n, At<It>::index(q)); } } };
template <class It, bool BI, bool RA> u64 step_case(Ctx & c, u64 idx) {
    const int n = (int)(idx % 13), i = (int)(idx / 13 % 13), j = (int)(idx / 169); if (i > n || j > n || (!BI && j < i)) return 0; cells(); g_steps = 0;
    It a = At<It>::get(i, n); jstd::iterator_utils::advance(a, (long)(j - i)); if (At<It>::index(a) != j) BAD("advance(%d of %d, %d) leads to %d", i, n, j - i, At<It>::index(a));
    { It s = At<It>::get(i, n); jstd::iterator_utils::advance(s, (signed char)(j - i)); if (At<It>::index(s) != j) BAD("advance(%d of %d, a small %d) leads to %d", i, n, j - i, At<It>::index(s)); }
    It b = jstd::iterator_utils::next(At<It>::get(i, n), j - i); if (At<It>::index(b) != j) BAD("next(%d of %d, %d) is at %d", i, n, j - i, At<It>::index(b));
    if (i < n) { It q = jstd::iterator_utils::next(At<It>::get(i, n)); if (At<It>::index(q) != i + 1) BAD("next(%d of %d) is at %d", i, n, At<It>::index(q)); }
    Back<It, BI>::prev(c, idx, n, i, j);
    if (j >= i || RA) { long d = (long)jstd::iterator_utils::distance(At<It>::get(i, n), At<It>::get(j, n)); if (d != j - i) BAD("distance(%d, %d of %d) is %ld", i, j, n, d); }
    if (RA && g_steps) BAD("a random-access position is moved step by step");
    if (g_bad) BAD("%s (from %d to %d of %d)", g_badmsg, i, j, n);
    return 1;
}
struct OnePass { typedef std::input_iterator_tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef const int * pointer; typedef const int & reference;
    int * at; int end; OnePass(int * a, int e) : at(a), end(e) {} const int & operator*() const { return *at; } OnePass & operator++() { ++*at; return *this; } bool operator!=(const OnePass & o) const { return (at ? *at : end) != (o.at ? *o.at : o.end); } bool operator==(const OnePass & o) const { return !(*this != o); } };
template <class C> void std_distance(Ctx & c, u64 idx, const char * w, int n, int i, int j, bool ra) {
    C k; for (int q = 0; q < n; q++) k.insert(k.end(), q); auto a = k.begin(), b = k.begin(); std::advance(a, i); std::advance(b, j);
    if (j >= i || ra) { if (jstd::distance(a, b) != j - i) BAD("distance(%d, %d of %d) in a %s is %ld", i, j, n, w, (long)jstd::distance(a, b)); typename C::const_iterator d = a, e = b; if (jstd::distance(d, e) != j - i) BAD("distance of constant positions (%d, %d of %d) in a %s", i, j, n, w); }
}
u64 distance_case(Ctx & c, u64 idx) {
    const int n = (int)(idx % 13), i = (int)(idx / 13 % 13), j = (int)(idx / 169); if (i > n || j > n) return 0;
    std_distance<std::vector<int>>(c, idx, "vector", n, i, j, true); std_distance<std::deque<int>>(c, idx, "deque", n, i, j, true); std_distance<std::list<int>>(c, idx, "list", n, i, j, false); std_distance<std::string>(c, idx, "string", n, i, j, true);
    int arr[13] = { 0 }; if (jstd::distance(arr + i, arr + j) != j - i || jstd::distance((const int *)arr + i, (const int *)arr + j) != j - i) BAD("distance of two pointers, %d to %d", i, j);
    if (j >= i) {
        std::forward_list<int> f((size_t)n, 1); if (jstd::distance(std::next(f.begin(), i), std::next(f.begin(), j)) != j - i) BAD("distance(%d, %d of %d) in a forward list", i, j, n);
        int at = i; if (jstd::distance(OnePass(&at, 0), OnePass(nullptr, j)) != j - i || at != j) BAD("distance(%d, %d) in a single-pass range, read until %d", i, j, at);
    }
    return 1;
}
// ---- C: the common interface of containers, arrays and lists ---------------------------------------
template <class Q> void walk_back(Ctx & c, u64 idx, Q b, Q e, const std::vector<int> & m, const char * w) {
    size_t k = m.size(); for (; b != e; ++b) { if (!k) BAD("%s reversed shows too many elements", w); k--; if (*b != m[k]) BAD("%s reversed shows %d, expected %d", w, (int)*b, m[k]); } if (k) BAD("%s reversed ends %zu elements too early", w, k);
}
template <class C> void container(Ctx & c, u64 idx, const std::vector<int> & m, const char * w) {
    C k(m.begin(), m.end()); const C & q = k;
    if (jstd::size(k) != m.size() || jstd::size(q) != m.size() || jstd::empty(k) != m.empty() || jstd::empty(q) != m.empty()) BAD("size or empty of a %s of %zu", w, m.size());
    size_t n = 0; for (auto it = jstd::begin(k); it != jstd::end(k); ++it) if (n >= m.size() || *it != m[n++]) BAD("begin/end of a %s of %zu", w, m.size());
    if (n != m.size()) BAD("begin/end of a %s shows %zu of %zu", w, n, m.size());
    n = 0; for (auto it = jstd::begin(q); it != jstd::end(q); ++it) if (n >= m.size() || *it != m[n++]) BAD("begin/end of a constant %s of %zu", w, m.size());
    if (n != m.size()) BAD("begin/end of a constant %s shows %zu of %zu", w, n, m.size());
    n = 0; for (auto it = jstd::cbegin(k); it != jstd::cend(k); ++it) if (n >= m.size() || *it != m[n++]) BAD("cbegin/cend of a %s of %zu", w, m.size());
    if (n != m.size()) BAD("cbegin/cend of a %s shows %zu of %zu", w, n, m.size());
    static_assert(std::is_same<decltype(jstd::begin(k)), typename C::iterator>::value && std::is_same<decltype(jstd::begin(q)), typename C::const_iterator>::value && std::is_same<decltype(jstd::cbegin(k)), typename C::const_iterator>::value && std::is_same<decltype(jstd::rbegin(q)), typename C::const_reverse_iterator>::value, "");
    walk_back(c, idx, jstd::rbegin(k), jstd::rend(k), m, w); walk_back(c, idx, jstd::rbegin(q), jstd::rend(q), m, w); walk_back(c, idx, jstd::crbegin(k), jstd::crend(k), m, w);
}
template <size_t N> void array(Ctx & c, u64 idx, const std::vector<int> & m) {
    int a[N]; for (size_t i = 0; i < N; i++) a[i] = m[i]; const int (&q)[N] = *(const int (*)[N])&a;
    if (jstd::size(a) != N || jstd::size(q) != N || jstd::empty(a) || jstd::empty(q) || jstd::data(a) != a || jstd::data(q) != a) BAD("size, empty or data of an array of %zu", N);
    walk_back(c, idx, jstd::rbegin(a), jstd::rend(a), m, "array"); walk_back(c, idx, jstd::rbegin(q), jstd::rend(q), m, "constant array"); walk_back(c, idx, jstd::crbegin(a), jstd::crend(a), m, "array");
}
void list(Ctx & c, u64 idx, std::initializer_list<int> l) {
    std::vector<int> m(l);
    if (jstd::size(l) != m.size() || jstd::empty(l) != m.empty() || jstd::data(l) != l.begin()) BAD("size, empty or data of a list of %zu", m.size());
    walk_back(c, idx, jstd::rbegin(l), jstd::rend(l), m, "list");
}
u64 access_case(Ctx & c, u64 idx) {
    std::vector<int> m; for (u64 i = 0; i < idx; i++) m.push_back((int)(i * 7 % 5));
    container<std::vector<int>>(c, idx, m, "vector"); container<std::deque<int>>(c, idx, m, "deque"); container<std::list<int>>(c, idx, m, "list");
    { std::vector<int> v(m); const std::vector<int> & q = v; std::string s(m.size(), 'x'); const std::string & t = s; if (jstd::data(v) != v.data() || jstd::data(q) != v.data() || jstd::data(t) != s.data() || jstd::size(s) != m.size()) BAD("data of a container of %zu", m.size()); }
    switch (idx) { case 1: array<1>(c, idx, m); break; case 2: array<2>(c, idx, m); break; case 3: array<3>(c, idx, m); break; case 4: array<4>(c, idx, m); break; case 5: array<5>(c, idx, m); break; case 6: array<6>(c, idx, m); break; case 7: array<7>(c, idx, m); break; }
    if (idx == 0) { list(c, idx, {}); list(c, idx, { 4 }); list(c, idx, { 4, 2 }); list(c, idx, { 4, 2, 9 }); list(c, idx, { 1, 1, 2, 3, 5, 8 }); }
    return 1;
}
// ---- D: exchanging -----------------------------------------------------------------------------------
long g_live = 0;
struct Own {       // counts its objects; a moved-from one is empty
    int v; std::unique_ptr<int> p;
    Own(int x = 0) : v(x), p(new int(x)) { g_live++; }
    Own(Own && o) noexcept : v(o.v), p(std::move(o.p)) { o.v = -1; g_live++; }
    Own & operator=(Own && o) noexcept { v = o.v; p = std::move(o.p); if (&o != this) o.v = -1; return *this; }
    ~Own() { g_live--; }
    bool is(int x) const { return v == x && p && *p == x; }
};
template <class T> struct Ex { static T mk(int i) { return T(i); } static bool eq(const T & a, int i) { return a == T(i); } };
template <> struct Ex<std::string> { static std::string mk(int i) { return std::string((size_t)i * 9, (char)('a' + i)); } static bool eq(const std::string & a, int i) { return a == mk(i); } };
template <> struct Ex<Own> { static Own mk(int i) { return Own(i); } static bool eq(const Own & a, int i) { return a.is(i); } };
int g_pool[8];
template <> struct Ex<int *> { static int * mk(int i) { return i ? g_pool + i : nullptr; } static bool eq(int * a, int i) { return a == mk(i); } };
template <> struct Ex<const int *> { static const int * mk(int i) { return i ? g_pool + i : nullptr; } static bool eq(const int * a, int i) { return a == mk(i); } };
template <class T> void ex1(Ctx & c, u64 idx, const char * w, int i, int j) {
    typedef Ex<T> E; const long l = g_live;
    { T a = E::mk(i), b = E::mk(j); jstd::swap(a, b); if (!E::eq(a, j) || !E::eq(b, i)) BAD("swap of two %s (%d, %d)", w, i, j); }
    { T a = E::mk(i); jstd::swap(a, a); if (!E::eq(a, i)) BAD("swap of a %s with itself changes it", w); }
    { T a = E::mk(i); T o = jstd::exchange(a, E::mk(j)); if (!E::eq(a, j) || !E::eq(o, i)) BAD("exchange of a %s (%d, %d)", w, i, j); }
    if (g_live != l) BAD("swap or exchange of %s leaves %ld objects", w, g_live - l);
}
template <class T, size_t N> void exn(Ctx & c, u64 idx, const char * w, int seed) {
    typedef Ex<T> E; T a[N], b[N]; for (size_t i = 0; i < N; i++) { a[i] = E::mk((int)((seed + i) % 7)); b[i] = E::mk((int)((seed * 3 + i * 2 + 1) % 7)); }
    jstd::swap(a, b); for (size_t i = 0; i < N; i++) if (!E::eq(b[i], (int)((seed + i) % 7)) || !E::eq(a[i], (int)((seed * 3 + i * 2 + 1) % 7))) BAD("swap of two arrays of %zu %s, element %zu", N, w, i);
}
template <class T> void exns(Ctx & c, u64 idx, const char * w, int s) { exn<T, 1>(c, idx, w, s); exn<T, 2>(c, idx, w, s); exn<T, 3>(c, idx, w, s); exn<T, 4>(c, idx, w, s); exn<T, 7>(c, idx, w, s); }
u64 swap_case(Ctx & c, u64 idx) {
    int i = (int)(idx % 7), j = (int)(idx / 7);
    ex1<int>(c, idx, "int", i, j); ex1<signed char>(c, idx, "char", i, j); ex1<u64>(c, idx, "uint64", i, j); ex1<double>(c, idx, "double", i, j); ex1<std::string>(c, idx, "string", i, j); ex1<Own>(c, idx, "owner", i, j);
    ex1<int *>(c, idx, "pointer", i, j); ex1<const int *>(c, idx, "pointer to const", i, j);
    { int v[2] = { i, j }; int *p = v, *q = v + 1; int **a = &p, **b = &q; jstd::swap(a, b); if (a != &q || b != &p || p != v || q != v + 1) BAD("swap of two pointers to pointers"); }
    int s = i * 7 + j; exns<int>(c, idx, "int", s); exns<std::string>(c, idx, "string", s); exns<Own>(c, idx, "owner", s); exns<double>(c, idx, "double", s);
    return 1;
}
template <class C1, class C2> void rng(Ctx & c, u64 idx, const char * w, int n, int m, int f, int l, int g) {   // [f, l) of n with what starts at g of m
    C1 a; C2 b; std::vector<int> ma, mb; for (int i = 0; i < n; i++) { a.insert(a.end(), 10 + i); ma.push_back(10 + i); } for (int i = 0; i < m; i++) { b.insert(b.end(), 50 + i); mb.push_back(50 + i); }
    auto r = jstd::swap_ranges(std::next(a.begin(), f), std::next(a.begin(), l), std::next(b.begin(), g)); for (int i = f; i < l; i++) std::swap(ma[i], mb[g + i - f]);
    if (std::distance(b.begin(), r) != g + l - f) BAD("swap_ranges [%d, %d) of %d with %d.. of %d returns another position in %s", f, l, n, g, m, w);
    if (!std::equal(ma.begin(), ma.end(), a.begin()) || !std::equal(mb.begin(), mb.end(), b.begin())) BAD("swap_ranges [%d, %d) of %d with %d.. of %d has another result in %s", f, l, n, g, m, w);
}
u64 ranges_case(Ctx & c, u64 idx) {
    u64 x = idx; int n = (int)(x % 6), m = (int)(x / 6 % 6), f = (int)(x / 36 % 6), l = (int)(x / 216 % 6), g = (int)(x / 1296); if (f > l || l > n || g + l - f > m) return 0;
    rng<std::vector<int>, std::vector<int>>(c, idx, "vectors", n, m, f, l, g); rng<std::list<int>, std::vector<int>>(c, idx, "list and vector", n, m, f, l, g); rng<std::deque<int>, std::list<int>>(c, idx, "deque and list", n, m, f, l, g);
    // within one array: disjoint parts
    if (n == m) { int a[6], b[6]; for (int i = 0; i < 6; i++) a[i] = b[i] = i; if (l <= g || g + l - f <= f) { int * r = jstd::swap_ranges(a + f, a + l, a + g); for (int i = f; i < l; i++) std::swap(b[i], b[g + i - f]); if (r != a + g + l - f || memcmp(a, b, sizeof a)) BAD("swap_ranges [%d, %d) with %d.. in one array", f, l, g); } }
    return 1;
}
// ---- E: alignment --------------------------------------------------------------------------------------
template <size_t A> void aligned(Ctx & c, u64 idx, u64 x) {
    u64 up = x % A ? x - x % A + A : x;          // (no sum exceeds 64 bits here)
    if (jstd::pointer_align_to<A>((char *)x) != (char *)up) BAD("pointer_align_to<%zu>(%llu)", A, (unsigned long long)x);
    if (jstd::pointer_align_to((char *)x, A) != (char *)up || jstd::pointer_align_to((const double *)x, A) != (const double *)up) BAD("pointer_align_to(%llu, %zu)", (unsigned long long)x, A);
    if (jstd::check_alignment<char, A>((char *)x) != (x % A == 0) || jstd::check_alignment((char *)x, A) != (x % A == 0)) BAD("check_alignment(%llu, %zu)", (unsigned long long)x, A);
    if (jstd::align_to(x, A) != up) BAD("align_to(%llu, %zu) is %llu", (unsigned long long)x, A, (unsigned long long)jstd::align_to(x, A));
}
u64 align_one(Ctx & c, u64 idx, u64 x) {
    for (int b = 0; b < 64; b++) { u64 a = u64(1) << b; if (x > ~u64(0) - (a - 1)) continue; u64 up = x % a ? x - x % a + a : x; if (jstd::align_to(x, a) != up) BAD("align_to(%llu, 2^%d) is %llu", (unsigned long long)x, b, (unsigned long long)jstd::align_to(x, a)); if (jstd::pointer_align_to((char *)x, a) != (char *)up) BAD("pointer_align_to(%llu, 2^%d)", (unsigned long long)x, b); if (jstd::check_alignment((char *)x, a) != (x % a == 0)) BAD("check_alignment(%llu, 2^%d)", (unsigned long long)x, b); }
    if (x < ~u64(0) - 4096) { aligned<1>(c, idx, x); aligned<2>(c, idx, x); aligned<8>(c, idx, x); aligned<16>(c, idx, x); aligned<64>(c, idx, x); aligned<4096>(c, idx, x); if (jstd::check_alignment((u64 *)x) != (x % alignof(u64) == 0) || jstd::check_alignment((short *)x) != (x % alignof(short) == 0)) BAD("check_alignment(%llu) by type", (unsigned long long)x); }
    return 1;
}
const std::vector<u64> & near() {       // every number at most 2 away from a sum or difference of two powers of two
    static std::vector<u64> v; if (v.empty()) { for (int a = 0; a < 64; a++) for (int b = 0; b <= a; b++) for (int d = -2; d <= 2; d++) { u64 p = u64(1) << a, q = u64(1) << b; v.push_back(p + q + (u64)(int64_t)d); v.push_back(p - q + (u64)(int64_t)d); } } return v;
}
// ---- F: values built from tuples ---------------------------------------------------------------------------
struct P2 { int a; std::string b; P2() : a(-7) {} P2(int x, const std::string & s) : a(x), b(s) {} };
enum Color { RED, GREEN, BLUE };
u64 tuple_case(Ctx & c, u64 idx) {
    int i = (int)(idx % 32), j = (int)(idx / 32);
    #define TW(W) do { \
        { W<int> w(std::make_tuple(i)); if (w.value() != i) BAD(#W "<int>"); W<int> z((std::tuple<>())); if (z.value() != 0) BAD(#W "<int> of nothing"); } \
        { W<u64> w(std::make_tuple((u64)i << 40)); const W<u64> & k = w; if (k.value() != (u64)i << 40) BAD(#W "<uint64>"); w.value() = 3; if (k.value() != 3) BAD(#W " is not written through"); } \
        { W<const char *> w(std::make_tuple("abc" + j % 4)); if (strcmp(w.value(), "abc" + j % 4)) BAD(#W "<pointer>"); } \
        { W<double> w(std::make_tuple(i + j / 64.0)); if (w.value() != i + j / 64.0) BAD(#W "<double>"); W<double> z((std::tuple<>())); if (z.value() != 0) BAD(#W "<double> of nothing"); } \
        { W<Color> w(std::make_tuple((Color)(i % 3))); if (w.value() != (Color)(i % 3)) BAD(#W "<enumeration>"); } \
        { W<P2> w(std::make_tuple(i, std::string((size_t)j, 'q'))); if (w.value().a != i || w.value().b != std::string((size_t)j, 'q')) BAD(#W "<class>"); W<P2> z((std::tuple<>())); if (z.value().a != -7) BAD(#W "<class> of nothing"); } \
        { W<std::string> w(std::make_tuple((size_t)j, 'z')); if (w.value() != std::string((size_t)j, 'z')) BAD(#W "<string>"); std::string t((size_t)i, 'u'); W<std::string> y(std::forward_as_tuple(std::move(t))); if (y.value() != std::string((size_t)i, 'u')) BAD(#W "<string> moved"); } \
    } while (0)
    TW(jstd::tuple_wrapper); TW(jstd::tuple_wrapper2);
    return 1;
}
template <class F> void simple(const char * name, u64 total, u64 chunk, int parts, F f) {
    add_range(std::string(kMode) + "/" + name, total, chunk, parts, [f](Ctx & c, u64 lo, u64 hi) { u64 n = 0; for (u64 i = lo; i < hi; i++) n += f(c, i); return n; }, 1);
}
void reg() {
    const int d = thorough() ? 5 : 4;
    reverse_of<Cell *, true>("pointer", d); reverse_of<const Cell *, true>("pointer to const", d); reverse_of<Rnd, true>("random", d); reverse_of<RndC, true>("random, small differences", d); reverse_of<Bid, false>("bidirectional", d); reverse_of<BidC, false>("bidirectional, small differences", d);
    const u64 D = 13 * 13 * 13;
    simple("reverse/mixed", D, 200, 1, mixed_case);
    simple("steps/input", D, 200, 1, step_case<In, false, false>); simple("steps/forward", D, 200, 1, step_case<Fwd, false, false>); simple("steps/bidirectional", D, 200, 1, step_case<Bid, true, false>); simple("steps/random", D, 200, 1, step_case<Rnd, true, true>); simple("steps/pointer", D, 200, 1, step_case<Cell *, true, true>); simple("steps/pointer to const", D, 200, 1, step_case<const Cell *, true, true>);
    simple("steps/bidirectional, small differences", D, 200, 1, step_case<BidC, true, false>); simple("steps/random, small differences", D, 200, 1, step_case<RndC, true, true>);
    simple("distance", D, 200, 2, distance_case);
    simple("access", 40, 8, 1, access_case);
    simple("swap", 49, 7, 1, swap_case); simple("swap_ranges", 6 * 6 * 6 * 6 * 6, 512, 2, ranges_case);
    simple("align/small", thorough() ? 1 << 20 : 1 << 14, 1024, 4, [](Ctx & c, u64 i) { return align_one(c, i, i); });
    simple("align/near", near().size(), 1024, 4, [](Ctx & c, u64 i) { return align_one(c, i, near()[i]); });
    simple("tuples", 32 * 32, 128, 1, tuple_case);
}
Registrar r_(reg);
} // namespace
