// P16: string views compare, slice and hash like the text they refer to.
#include "domain.h"
#include <climits>
#include <sys/mman.h>
#include <jstd/basic/stddef.h>
#include <iostream>
#include <sstream>
#include <cstdio>
#include <filesystem>
#include <memory_resource>
#include <thread>
#include <bitset>
#include <string>
#include <string_view>
#include <vector>
#include <memory>
#include <jstd/string/string_view.h>
#include <jstd/hasher/hash_helper.h>
#ifdef __AVX2__
#include <jstd/hashmap/robin_hash_map.h>
#endif
#include <jstd/hashmap/group15_flat_map.hpp>
#include <jstd/hashmap/group16_flat_map.hpp>
using namespace mc;
namespace {
typedef uint8_t u8; typedef uint64_t u64;
template <class CT> struct CharInfo;
template <> struct CharInfo<char> { static const char * name() { return "char"; } static constexpr char al[6] = { 0, 'a', 0x7f, (char)0x80, (char)0xff, 'b' }; };
template <> struct CharInfo<wchar_t> { static const char * name() { return "wchar_t"; } static constexpr wchar_t al[6] = { 0, L'a', 0x80, 0x7fff, 0x10ffff, 0x8000 }; };
template <> struct CharInfo<char16_t> { static const char * name() { return "char16_t"; } static constexpr char16_t al[6] = { 0, u'a', 0xff, 0x7fff, 0x8000, 0xffff }; };
constexpr char CharInfo<char>::al[6]; constexpr wchar_t CharInfo<wchar_t>::al[6]; constexpr char16_t CharInfo<char16_t>::al[6];

struct Mem { char * lo, * hi; static const size_t SZ = 1 << 14; Mem() { char * p = (char *)mmap(0, SZ + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 4096, SZ, PROT_READ | PROT_WRITE); lo = p + 4096; hi = lo + SZ; memset(lo, 0x5a, SZ); } };
Mem & mem(int k) { static Mem m[2]; return m[k]; }
// the text in front of a guard page, or at an offset with letters around it
template <class CT> CT * lay(int k, const CT * s, size_t n, int place, bool zero_end) {
    Mem & m = mem(k); CT * p;
    if (place == 0) p = (CT *)(m.hi - (n + zero_end) * sizeof(CT)); else { p = (CT *)(m.lo + 512 + place * sizeof(CT)); for (int i = 1; i < 20; i++) p[-i] = CT('a' + i % 3 + k); for (int i = 0; i < 20; i++) p[n + i] = CT('a' + i % 3 + 2 * k); }
    if (n) memcpy(p, s, n * sizeof(CT)); if (zero_end) p[n] = 0; return p;
}
inline int sgn(int x) { return x < 0 ? -1 : x > 0; }
template <class CT> int ref_cmp(const CT * a, size_t n, const CT * b, size_t m) {
    typedef typename std::make_unsigned<CT>::type U;
    for (size_t i = 0; i < n && i < m; i++) if (a[i] != b[i]) return (U)a[i] < (U)b[i] ? -1 : 1;
    return n < m ? -1 : n > m;
}
template <class CT> std::string show(const CT * s, size_t n) { std::string r = "\""; char t[16]; for (size_t i = 0; i < n && i < 40; i++) { if (s[i] >= 'a' && s[i] <= 'z') r += (char)s[i]; else { snprintf(t, sizeof t, "\\x%llx,", (unsigned long long)(typename std::make_unsigned<CT>::type)s[i]); r += t; } } return r + (n > 40 ? "...\"" : "\""); }

#define DIFF(what, got, want) do { auto g_ = (got); auto w_ = (want); if (g_ != w_) MC_FAIL(c, idx, "%s<%s> [%s]: %s of %s (length %zu) and %s (length %zu) is %d, expected %d", "string_view", CharInfo<CT>::name(), MC_VAR, what, show(a, n).c_str(), n, show(b, m).c_str(), m, (int)g_, (int)w_); } while (0)
// everything that relates two texts
template <class CT> u64 pair(Ctx & c, u64 idx, const CT * a, size_t n, const CT * b, size_t m, int pa, int pb, bool wide_tests) {
    typedef jstd::basic_string_view<CT> V;
    const CT * x = lay(0, a, n, pa, false), * y = lay(1, b, m, pb, false);
    V v(x, n), w(y, m);
    const int want = ref_cmp(a, n, b, m); const bool eq = want == 0;
    DIFF("==", v == w, eq); DIFF("!=", v != w, !eq); DIFF("<", v < w, want < 0); DIFF("<=", v <= w, want <= 0); DIFF(">", v > w, want > 0); DIFF(">=", v >= w, want >= 0);
    DIFF("is_equal", v.is_equal(w), eq); DIFF("compare", sgn(v.compare(w)), want); DIFF("reversed compare", sgn(w.compare(v)), -want);
    DIFF("str_utils::is_equal", jstd::str_utils::is_equal(x, n, y, m), eq); DIFF("str_utils::compare", sgn(jstd::str_utils::compare(x, n, y, m)), want);
    DIFF("string_traits::is_equal", jstd::string_traits<CT>::is_equal(x, n, y, m), eq); DIFF("string_traits::compare", sgn(jstd::string_traits<CT>::compare(x, n, y, m)), want);
    if (!wide_tests) return 13;
    DIFF("str_utils::is_equal_unsafe", jstd::str_utils::is_equal_unsafe(x, n, y, m), eq); DIFF("str_utils::compare_unsafe", sgn(jstd::str_utils::compare_unsafe(x, n, y, m)), want);
    DIFF("str_utils::is_equal_safe", jstd::str_utils::is_equal_safe(x, n, y, m), eq); DIFF("str_utils::compare_safe", sgn(jstd::str_utils::compare_safe(x, n, y, m)), want);
    DIFF("is_equal_unsafe of views", jstd::str_utils::is_equal_unsafe(v, w), eq); DIFF("compare_unsafe of views", sgn(jstd::str_utils::compare_unsafe(v, w)), want);
    DIFF("is_equal_safe of views", jstd::str_utils::is_equal_safe(v, w), eq); DIFF("compare_safe of views", sgn(jstd::str_utils::compare_safe(v, w)), want);
    DIFF("stl::StrEqual", jstd::stl::StrEqual(x, n, y, m), eq); DIFF("stl::StrCmp", sgn(jstd::stl::StrCmp(x, n, y, m)), want);
    DIFF("libc::StrEqual", jstd::libc::StrEqual(x, n, y, m), eq); DIFF("libc::StrCmp", sgn(jstd::libc::StrCmp(x, n, y, m)), want);
    DIFF("stl::StrEqualSafe", jstd::stl::StrEqualSafe(x, n, y, m), eq); DIFF("stl::StrCmpSafe", sgn(jstd::stl::StrCmpSafe(x, n, y, m)), want);
    DIFF("libc::StrEqualSafe", jstd::libc::StrEqualSafe(x, n, y, m), eq); DIFF("libc::StrCmpSafe", sgn(jstd::libc::StrCmpSafe(x, n, y, m)), want);
    if (n == m) {
        DIFF("str_utils::is_equal(count)", jstd::str_utils::is_equal(x, y, n), eq); DIFF("str_utils::compare(count)", sgn(jstd::str_utils::compare(x, y, n)), want);
        DIFF("is_equal(s1, s2, count)", v.is_equal(x, y, n), eq); DIFF("compare(s1, s2, count)", sgn(v.compare(x, y, n)), want);
        DIFF("is_equal(s1, n1, s2, n2)", v.is_equal(x, n, y, m), eq); DIFF("compare(s1, n1, s2, n2)", sgn(v.compare(x, n, y, m)), want);
    }
    if (eq && !std::is_same<CT, char16_t>::value) {              // equal views are the same key (jstd::hash knows char and wchar_t)
        size_t h1 = jstd::hash<V>()(v), h2 = jstd::hash<V>()(w); DIFF("equality of the hashes", h1 == h2, true);
    }
    return 40;
}
// with std::basic_string and zero-terminated text on the right hand side
template <class CT> u64 others(Ctx & c, u64 idx, const CT * a, size_t n, const CT * b, size_t m, int pa) {
    typedef jstd::basic_string_view<CT> V; typedef std::basic_string<CT> S;
    V v(lay(0, a, n, pa, false), n); S s(b, m); const int want = ref_cmp(a, n, b, m); const bool eq = want == 0; u64 k = 4;
    DIFF("is_equal(string)", v.is_equal(s), eq); DIFF("compare(string)", sgn(v.compare(s)), want);
    V w(s); DIFF("== with a view of a string", v == w, eq); DIFF("size of a view of a string", w.size(), m);
    bool zero = false; for (size_t i = 0; i < m; i++) zero |= b[i] == 0;
    if (!zero) {
        const CT * y = lay(1, b, m, 0, true); k += 4;
        DIFF("is_equal(zero-terminated)", v.is_equal(y), eq); DIFF("compare(zero-terminated)", sgn(v.compare(y)), want); V z(y); DIFF("size of a zero-terminated text", z.size(), m); DIFF("== with a zero-terminated text", v == z, eq);
        bool za = false; for (size_t i = 0; i < n; i++) za |= a[i] == 0;
        if (!za) { const CT * x = lay(0, a, n, 0, true); k += 6;
            DIFF("str_utils::compare(zero-terminated)", sgn(jstd::str_utils::compare(x, y)), want);
            DIFF("stl::StrCmp(zero-terminated)", sgn(jstd::stl::StrCmp(x, y)), want); DIFF("stl::StrEqual(zero-terminated)", jstd::stl::StrEqual(x, y), eq);
            DIFF("libc::StrCmp(zero-terminated)", sgn(jstd::libc::StrCmp(x, y)), want); DIFF("libc::StrEqual(zero-terminated)", jstd::libc::StrEqual(x, y), eq);
            DIFF("libc::StrLen", jstd::libc::StrLen(y), m); }
    }
    return k;
}
// the i-th text over the first `k` letters, shortest first
template <class CT> size_t nth(u64 i, int k, CT * out) { size_t n = 0; u64 lev = 1; while (i >= lev) { i -= lev; lev *= k; n++; } for (size_t q = 0; q < n; q++) { out[q] = CharInfo<CT>::al[i % k]; i /= k; } return n; }
inline u64 texts(int k, int len) { u64 t = 0, l = 1; for (int i = 0; i <= len; i++) { t += l; l *= k; } return t; }

// positional forms against std::basic_string_view
template <class CT> struct Std { typedef std::basic_string_view<CT> V; };
template <class F, class G> bool same(F f, G g, int & got, int & want) { bool t1 = false, t2 = false; got = want = 99; try { got = f(); } catch (std::out_of_range &) { t1 = true; got = -9; } try { want = g(); } catch (std::out_of_range &) { t2 = true; want = -9; } return t1 == t2 && got == want; }
template <class CT> u64 parts(Ctx & c, u64 idx, const CT * a, size_t n, const CT * b, size_t m) {
    typedef jstd::basic_string_view<CT> V; typedef typename Std<CT>::V R;
    V v(lay(0, a, n, 0, false), n); V w(lay(1, b, m, 0, false), m); R rv(a, n), rw(b, m); int got, want; u64 k = 0;
    const size_t big[3] = { (size_t)-1, (size_t)-2, (size_t)1 << 62 };
    auto pick = [&](size_t q, size_t len) { return q <= len + 1 ? q : big[q - len - 2]; };
#define PART(what, A, B, ...) do { k++; if (!same([&]() -> int { return A; }, [&]() -> int { return B; }, got, want)) { char t_[96]; snprintf(t_, sizeof t_, __VA_ARGS__); MC_FAIL(c, idx, "string_view<%s> [%s]: %s(%s) of %s and %s is %d, expected %d (-9: out_of_range)", CharInfo<CT>::name(), MC_VAR, what, t_, show(a, n).c_str(), show(b, m).c_str(), got, want); } } while (0)
    bool zero = false; for (size_t i = 0; i < m; i++) zero |= b[i] == 0;
    for (size_t p = 0; p < n + 5; p++) for (size_t q = 0; q < n + 5; q++) {
        size_t pos = pick(p, n), cnt = pick(q, n); if (pos > n && q != 0 && q != n + 2) continue;
        PART("compare", sgn(v.compare(pos, cnt, w)), sgn(ref_cmp(rv.substr(pos, cnt).data(), rv.substr(pos, cnt).size(), b, m)), "%zu, %zu, view", pos, cnt);
        PART("is_equal", v.is_equal(pos, cnt, w), rv.substr(pos, cnt) == rw, "%zu, %zu, view", pos, cnt);
        if (!zero) { const CT * y = lay(1, b, m, 0, true);
            PART("compare", sgn(v.compare(pos, cnt, y)), sgn(ref_cmp(rv.substr(pos, cnt).data(), rv.substr(pos, cnt).size(), b, m)), "%zu, %zu, text", pos, cnt);
            PART("is_equal", v.is_equal(pos, cnt, y), rv.substr(pos, cnt) == rw, "%zu, %zu, text", pos, cnt);
            for (size_t e = 0; e < m + 4; e++) { size_t c2 = pick(e, m); if (pos > n && e) continue;
                R cut = rw.substr(0, c2);
                PART("compare", sgn(v.compare(pos, cnt, y, c2)), sgn(ref_cmp(rv.substr(pos, cnt).data(), rv.substr(pos, cnt).size(), cut.data(), cut.size())), "%zu, %zu, text, %zu", pos, cnt, c2);
                PART("is_equal", v.is_equal(pos, cnt, y, c2), rv.substr(pos, cnt) == cut, "%zu, %zu, text, %zu", pos, cnt, c2); }
            w = V(lay(1, b, m, 0, false), m); }
        for (size_t d = 0; d < m + 4; d++) for (size_t e = 0; e < m + 4; e++) { size_t p2 = pick(d, m), c2 = pick(e, m); if ((pos > n || p2 > m) && ((d != 0 && d != m + 1 && d != m + 2) || (e != 0 && e != m + 2))) continue;
            PART("compare", sgn(v.compare(pos, cnt, w, p2, c2)), (rv.substr(pos, cnt), rw.substr(p2, c2), sgn(ref_cmp(rv.substr(pos, cnt).data(), rv.substr(pos, cnt).size(), rw.substr(p2, c2).data(), rw.substr(p2, c2).size()))), "%zu, %zu, view, %zu, %zu", pos, cnt, p2, c2);
            PART("is_equal", v.is_equal(pos, cnt, w, p2, c2), rv.substr(pos, cnt) == rw.substr(p2, c2), "%zu, %zu, view, %zu, %zu", pos, cnt, p2, c2); }
    }
    return k;
}
// one text: construction, slices, element access, iteration, output
template <class CT> u64 single(Ctx & c, u64 idx, const CT * a, size_t n) {
    typedef jstd::basic_string_view<CT> V; typedef std::basic_string<CT> S; u64 k = 0;
    const CT * b = a; size_t m = n; const CT * x = lay(0, a, n, 0, false); V v(x, n);
#define SAYS(what, ...) do { k++; if (!(__VA_ARGS__)) MC_FAIL(c, idx, "string_view<%s> [%s] of %s (length %zu): %s", CharInfo<CT>::name(), MC_VAR, show(a, n).c_str(), n, what); } while (0)
    auto is = [&](const V & t, const CT * p, size_t l) { return t.data() == p && t.c_str() == p && t.size() == l && t.length() == l && t.empty() == (l == 0); };
    SAYS("view of (data, size)", is(v, x, n)); SAYS("view of (first, last)", is(V(x, x + n), x, n)); SAYS("copied view", is(V(v), x, n));
    { S s(a, n); V t(s); SAYS("view of a string", is(t, s.data(), n)); std::vector<CT> q(a, a + n); V u(q); SAYS("view of a vector", is(u, q.data(), n)); V e; e = s; SAYS("assigned string", is(e, s.data(), n)); e.attach(s); SAYS("attached string", is(e, s.data(), n)); e.attach(t); SAYS("attached view", is(e, s.data(), n)); }
    { V e; SAYS("empty view", e.size() == 0 && e.empty() && e.data() == nullptr); e = v; SAYS("assigned view", is(e, x, n)); e.clear(); SAYS("cleared view", e.size() == 0 && e.empty()); e.attach(x, n); SAYS("attach(data, size)", is(e, x, n)); e.clear(); e.attach(x, x + n); SAYS("attach(first, last)", is(e, x, n)); 
      for (size_t p = 0; p <= n; p++) for (size_t q = p; q <= n; q++) { e.attach(x, p, q); SAYS("attach(data, first, last)", is(e, x + p, q - p)); }
      V f(x, n / 2); e = v; e.swap(f); SAYS("swap", is(e, x, n / 2) && is(f, x, n)); using std::swap; { V & e2 = e; jstd::swap(e2, f); } SAYS("jstd::swap", is(e, x, n) && is(f, x, n / 2)); std::swap(e, f); SAYS("std::swap", is(e, x, n / 2) && is(f, x, n)); }
    bool zero = false; for (size_t i = 0; i < n; i++) zero |= a[i] == 0;
    if (!zero) { const CT * y = lay(1, a, n, 0, true); V t(y); SAYS("view of a zero-terminated text", is(t, y, n)); V e; e = y; SAYS("assigned zero-terminated text", is(e, y, n)); e.attach(y); SAYS("attached zero-terminated text", is(e, y, n)); SAYS("StrLen", jstd::libc::StrLen(y) == n); }
    { V e((const CT *)nullptr); SAYS("view of no text", e.size() == 0); V f(x, n); f = (const CT *)nullptr; SAYS("assigned no text", f.size() == 0); SAYS("equality of empty views", e == f && e == V() && !(e < f)); V g(x, (size_t)0); SAYS("equality of empty views with and without data", g == e && e == g && !(g < e) && !(e < g) && g.compare(e) == 0); SAYS("order of an empty view", n == 0 ? v == e : (e < v && v > e && v != e)); SAYS("hash of empty views", std::is_same<CT, char16_t>::value || jstd::hash<V>()(e) == jstd::hash<V>()(g)); }
    { S s = v.to_string(); SAYS("to_string", s.size() == n && std::equal(s.begin(), s.end(), a)); S e = V().to_string(); SAYS("to_string of no text", e.empty()); }
    // element access and iteration
    const V & cv = v; size_t i = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++i) { SAYS("iteration", i < n && *it == a[i] && it - v.begin() == (ptrdiff_t)i && v.begin() + i == it && v.end() - (n - i) == it && it < v.end() && !(v.end() < it) && v.begin() <= it && v.end() > it && v.end() >= it && v.begin()[i] == a[i]); }
    SAYS("length of the iteration", i == n); i = 0;
    for (auto it = cv.cbegin(); it != cv.cend(); it++, ++i) SAYS("const iteration", i < n && *it == a[i] && (cv.cend() - it) == (ptrdiff_t)(n - i));
    SAYS("length of the const iteration", i == n); i = n;
    for (auto it = v.end(); it != v.begin(); ) { auto old = it--; --i; SAYS("reverse iteration", *it == a[i] && old - it == 1); }
    { auto it = cv.cend(); i = n; while (i) { auto r = it; --it; --i; SAYS("reverse const iteration", *it == a[i] && r != it); } it += n; SAYS("+=", it == cv.cend()); it -= n; SAYS("-=", it == cv.cbegin()); auto p = it; if (n) { auto q = p++; SAYS("post-increment", q == it && p - it == 1); } }
    for (size_t q = 0; q < n + 3; q++) {
        bool thrown = false, cthrown = false; CT got = 0, cgot = 0;
        try { got = v.at(q); } catch (std::out_of_range &) { thrown = true; } try { cgot = cv.at(q); } catch (std::out_of_range &) { cthrown = true; }
        SAYS("at", q < n ? (!thrown && !cthrown && got == a[q] && cgot == a[q]) : (thrown && cthrown)); if (q < n) SAYS("[]", v[q] == a[q] && cv[q] == a[q] && &cv[q] == x + q);
    }
    for (size_t q : { (size_t)-1, (size_t)1 << 63 }) { bool t = false; try { cv.at(q); } catch (std::out_of_range &) { t = true; } SAYS("at", t); }
    if (n) SAYS("front and back", v.front() == a[0] && v.back() == a[n - 1] && &v.back() == x + n - 1);
    // slices
    const size_t big[3] = { (size_t)-1, (size_t)-2, (size_t)1 << 62 };
    for (size_t p = 0; p < n + 5; p++) for (size_t q = 0; q < n + 5; q++) {
        size_t pos = p <= n + 1 ? p : big[p - n - 2], cnt = q <= n + 1 ? q : big[q - n - 2]; bool t = false; V s;
        try { s = v.substr(pos, cnt); } catch (std::out_of_range &) { t = true; }
        size_t l = pos > n ? 0 : std::min(cnt, n - pos); SAYS("substr", pos > n ? t : (!t && is(s, x + pos, l)));
        if (pos <= n) SAYS("substr(pos)", is(v.substr(pos), x + pos, n - pos));
        CT buf[128]; for (auto & z : buf) z = 'q'; t = false; size_t r = 0; if (n > 100) continue;
        try { r = v.copy(buf + 2, cnt, pos); } catch (std::out_of_range &) { t = true; }
        if (pos > n) SAYS("copy behind the end", t && std::count(buf, buf + 128, CT('q')) == 128);
        else SAYS("copy", !t && r == l && std::equal(buf + 2, buf + 2 + l, a + pos) && buf[0] == 'q' && buf[1] == 'q' && buf[2 + l] == 'q' && buf[3 + l] == 'q');
    }
    SAYS("substr()", is(v.substr(), x, n));
    // moving windows
    for (size_t q = 0; q <= n; q++) { V t(x, n - q); t.commit(q); SAYS("commit", is(t, x + q, n - q)); t.comsume(q); SAYS("comsume", is(t, x, n - q)); t.expand(q); SAYS("expand", is(t, x, n)); t.shrink(q); SAYS("shrink", is(t, x, n - q)); t.apply((ptrdiff_t)q); SAYS("apply", is(t, x + q, n - q)); t.apply(-(ptrdiff_t)q); t.offset((ptrdiff_t)q); SAYS("offset", is(t, x, n)); t.offset(-(ptrdiff_t)q); SAYS("offset", is(t, x, n - q)); }
    (void)b; (void)m; return k;
}
template <class CT> void output(Ctx & c, u64 idx, const CT * a, size_t n) {
    typedef jstd::basic_string_view<CT> V; std::basic_string<CT> s(a, n);
    for (int w : { 0, 3, 9 }) for (int left = 0; left < 2; left++) {
        std::basic_ostringstream<CT> o, r; o.width(w); r.width(w); if (left) { o << std::left; r << std::left; } o << V(lay(0, a, n, 0, false), n); r << s;
        o << V(); o << V(lay(0, a, n, 3, false), n); r << s;
        if (o.str() != r.str()) MC_FAIL(c, idx, "string_view<%s> [%s]: output of %s has %zu characters, a string's %zu", CharInfo<CT>::name(), MC_VAR, show(a, n).c_str(), o.str().size(), r.str().size());
    }
}
template <> void output<char16_t>(Ctx &, u64, const char16_t *, size_t) { }

template <class CT> void reg_char() {
    const std::string v = std::string(MC_VAR) + "/" + CharInfo<CT>::name() + "/"; const bool T = thorough();
    { // all pairs of short texts
        struct { int k, len; } dom[3] = { { 5, T ? 5 : 4 }, { 2, T ? 11 : 9 }, { 3, T ? 7 : 6 } };
        for (auto d : dom) { const u64 N = texts(d.k, d.len); const int k = d.k;
            add_range("pairs" + std::to_string(k) + "/" + v, N * N, 4096, 8, [=](Ctx & c, u64 lo, u64 hi) {
                CT a[32], b[32]; u64 cnt = 0, nt = 0;
                for (u64 i = lo; i < hi; i++) { size_t n = nth<CT>(i / N, k, a), m = nth<CT>(i % N, k, b); cnt += pair<CT>(c, i, a, n, b, m, (int)(i % 3), (int)(i / 3 % 3), true) + others<CT>(c, i, a, n, b, m, (int)(i % 2)); nt += n && m; }
                c.count("comparisons", cnt); return nt;
            }, 4, [=](u64 i) { CT a[32], b[32]; size_t n = nth<CT>(i / N, k, a), m = nth<CT>(i % N, k, b); return show(a, n) + " and " + show(b, m); });
        }
    }
    { // long texts which differ at one place, or in length
        static const int dms[17] = { 0, -1, 1, -8, 8, -16, 16, -17, 17, -15, 15, -7, 7, -9, 9, -2, 2 }; const u64 L = T ? 140 : 67, DM = 17, V5 = 5; const u64 total = L * DM * (L + 1) * V5 * V5;
        add_range("long/" + v, total, 1 << 16, 16, [=](Ctx & c, u64 lo, u64 hi) {
            CT a[256], b[256]; u64 cnt = 0, nt = 0;
            for (u64 i = lo; i < hi; i++) {
                u64 z = i; int y = z % V5; z /= V5; int x = z % V5; z /= V5; size_t p = z % (L + 1); z /= L + 1; int dm = dms[z % DM]; size_t n = z / DM; 
                if ((int)n + dm < 0) continue; size_t m = n + dm; size_t s = std::min(n, m);
                if (p >= s ? (p != L || x || y) : x == y) continue;        // one place below both lengths, or none
                for (size_t q = 0; q < std::max(n, m); q++) { CT w = CharInfo<CT>::al[1 + (q * 7 + q / 5) % 4]; if (q < n) a[q] = w; if (q < m) b[q] = w; }
                if (p < s) { static const int vs[5] = { 0, 2, 3, 1, 4 }; a[p] = CharInfo<CT>::al[vs[x]]; b[p] = CharInfo<CT>::al[vs[y]]; if (p + 1 < s) { a[p + 1] = b[p]; b[p + 1] = a[p]; } }
                cnt += pair<CT>(c, i, a, n, b, m, (int)(i % 2 ? 0 : 1 + i / 2 % 17), (int)(i % 3 ? 0 : 1 + i / 3 % 16), true); nt++;
                if (i % 7 == 0) cnt += others<CT>(c, i, a, n, b, m, (int)(i % 2));
            }
            c.count("comparisons", cnt); return nt;
        }, 6);
    }
    { // positions and counts
        const u64 NA = texts(3, T ? 5 : 4), NB = texts(3, T ? 4 : 3);
        add_range("parts/" + v, NA * NB, 16, 8, [=](Ctx & c, u64 lo, u64 hi) {
            CT a[32], b[32]; u64 cnt = 0;
            for (u64 i = lo; i < hi; i++) { size_t n = nth<CT>(i / NB, 3, a), m = nth<CT>(i % NB, 3, b); cnt += parts<CT>(c, i, a, n, b, m); }
            c.count("comparisons", cnt); return cnt;
        }, 4, [=](u64 i) { CT a[32], b[32]; size_t n = nth<CT>(i / NB, 3, a), m = nth<CT>(i % NB, 3, b); return "every position and count of " + show(a, n) + " and " + show(b, m); });
    }
    { // one text
        const u64 N = texts(5, T ? 6 : 4), L = 100;
        add_range("single/" + v, N + L, 64, 4, [=](Ctx & c, u64 lo, u64 hi) {
            CT a[256]; u64 cnt = 0;
            for (u64 i = lo; i < hi; i++) { size_t n; if (i < N) n = nth<CT>(i, 5, a); else { n = i - N; for (size_t q = 0; q < n; q++) a[q] = CharInfo<CT>::al[(q * 3 + q / 7 + 1) % 6]; } cnt += single<CT>(c, i, a, n); output<CT>(c, i, a, n); }
            c.count("observations", cnt); return cnt;
        }, 3, [=](u64 i) { CT a[256]; return i < N ? show(a, nth<CT>(i, 5, a)) : "a text of length " + std::to_string(i - N); });
    }
}
#if MC_MAPS
// views as keys: every pair of texts, stored and looked up at different places and from std::string
template <class M> u64 keyed(Ctx & c, u64 idx, const char * name, const std::vector<std::pair<const char *, size_t>> & t, size_t i, size_t j) {
    typedef jstd::string_view V; M m; m.emplace(V(t[i].first, t[i].second), (int)i); bool eq = t[i].second == t[j].second && (t[i].second == 0 || memcmp(t[i].first, t[j].first, t[i].second) == 0);
    const char * y = lay<char>(0, t[j].first, t[j].second, 1 + (int)(idx % 5), false); V w(y, t[j].second); std::string s(y, t[j].second); V ws(s);
    for (const V & q : { w, ws }) { auto it = m.find(q); bool f = it != m.end(); if (f != eq || m.count(q) != (size_t)eq || (f && it->second != (int)i)) MC_FAIL(c, idx, "%s [%s]: key %s is %sfound as %s", name, MC_VAR, show(t[i].first, t[i].second).c_str(), f ? "" : "not ", show(y, t[j].second).c_str()); }
    auto r = m.insert(std::make_pair(w, (int)j + 1000)); if (r.second == eq || m.size() != (eq ? 1u : 2u) || m.find(V(t[i].first, t[i].second)) == m.end() || m.erase(ws) != 1 || m.size() != (eq ? 0u : 1u)) MC_FAIL(c, idx, "%s [%s]: insertion or removal of %s next to %s", name, MC_VAR, show(y, t[j].second).c_str(), show(t[i].first, t[i].second).c_str());
    return 1;
}
void reg_maps() {
    auto t = std::make_shared<std::vector<std::string>>(); char a[40]; for (u64 i = 0, n = texts(5, thorough() ? 4 : 3); i < n; i++) { size_t l = nth<char>(i, 5, a); t->push_back(std::string(a, l)); }
    for (size_t l = 7; l < 36; l++) { std::string s(l, 'x'); t->push_back(s); s[l - 1] = 'y'; t->push_back(s); s[l - 1] = 0; t->push_back(s); s[l - 1] = 'x'; s[0] = (char)0x80; t->push_back(s); }
    const u64 N = t->size();
    add_range(std::string("keys/") + MC_VAR, N * N, 512, 8, [=](Ctx & c, u64 lo, u64 hi) {
        std::vector<std::pair<const char *, size_t>> p; for (auto & s : *t) p.push_back({ s.data(), s.size() }); typedef jstd::string_view V; typedef jstd::hash<V> H;
        for (u64 i = lo; i < hi; i++) {
#ifdef __AVX2__
            keyed<jstd::robin_hash_map<V, int, H>>(c, i, "robin_hash_map", p, i / N, i % N);
#endif
            keyed<jstd::group15_flat_map<V, int, H>>(c, i, "group15_flat_map", p, i / N, i % N); keyed<jstd::group16_flat_map<V, int, H>>(c, i, "group16_flat_map", p, i / N, i % N);
        }
        c.count("key pairs", 3 * (hi - lo)); return hi - lo;
    }, 3);
}
Registrar r4(reg_maps);
#endif
Registrar r1(reg_char<char>), r2(reg_char<wchar_t>), r3(reg_char<char16_t>);
} // namespace
