// P21: a string_view_array owns its elements: every history leaves exactly the elements the calls describe, each alive once.
#include "domain.h"
#include <jstd/basic/stddef.h>
#include <jstd/string/string_view.h>
#include <stdexcept>
#include <string>
#include <utility>
#include <jstd/string/string_view_array.h>
#include <memory>
using namespace mc;
namespace {
typedef uint64_t u64;
// ---- element halves that know whether they are alive ---------------------------
struct Boom { };
struct Tok {
    static long live; static int fuse; static std::set<const void *> at;
    int v;
    static void burn() { if (fuse >= 0 && fuse-- == 0) throw Boom(); }
    void birth() { live++; if (!at.insert(this).second) bad("an element is constructed over a living one"); }
    explicit Tok(int x = 0) : v(x) { birth(); }
    Tok(const Tok & o) : v(o.v) { o.alive(); burn(); birth(); }
    Tok(Tok && o) : v(o.v) { o.alive(); birth(); o.v = -1; }
    Tok & operator=(const Tok & o) { alive(); o.alive(); v = o.v; return *this; }
    Tok & operator=(Tok && o) { alive(); o.alive(); v = o.v; if (&o != this) o.v = -1; return *this; }
    ~Tok() { if (!at.erase(this)) bad("an element is destroyed that is not alive"); live--; }
    void alive() const { if (!at.count(this)) bad("an element is used that is not alive"); }
};
long Tok::live = 0; int Tok::fuse = -1; std::set<const void *> Tok::at;
const char * TXT[] = { "", "a", "bc", "def", "ghij", "klmnopqrstuvwxyz0123456789", "b", "d", "e" };
template <class F> struct Val;
template <> struct Val<Tok> { typedef int first, second; static Tok mk(int i) { return Tok(i); } static bool eq(const Tok & a, int i) { a.alive(); return a.v == i; } static const bool counted = true; };
template <> struct Val<jstd::string_view> { static jstd::string_view mk(int i) { return jstd::string_view(TXT[i % 9]); } static bool eq(const jstd::string_view & a, int i) { return a.data() == (const char *)TXT[i % 9] && a.size() == strlen(TXT[i % 9]); } static const bool counted = false; };
template <> struct Val<std::string> { static std::string mk(int i) { return std::string(TXT[i % 9]) + std::string(i, '!'); } static bool eq(const std::string & a, int i) { return a == std::string(TXT[i % 9]) + std::string(i, '!'); } static const bool counted = false; };

const char * OPS[] = { "push_back(new)", "push_back(pointer)", "push_back(nullptr)", "pop_back", "clear", "resize(+2)", "resize(half)", "resize(0)", "reserve(+3)", "B = new copy of A", "B = new array moved from A", "A.copy(B)", "A.swap(B)", "swap(B, A) / std::swap / A.copy(A)", "exchange the first and last element", "assign elements and replace through at()", "copies that throw" };
enum { NOP = 17 };
template <class F, class S> struct Run {
    typedef jstd::string_view_array<F, S> A; typedef typename A::element_type E;
    A * a = new A, * b = new A; std::vector<int> ma, mb; int next = 1; Ctx & c; u64 idx; std::vector<int> did; bool over = false;
    std::string log() { std::string s = "start"; for (int o : did) s += std::string(", ") + OPS[o]; return over ? s + ", end" : s; }
    Run(Ctx & c_, u64 i) : c(c_), idx(i) { }
    void fail(const char * what, long x = 0, long y = 0) { MC_FAIL(c, idx, "string_view_array after %s: %s (%ld, expected %ld)", log().c_str(), what, x, y); }
    E * mk(int i) { F f(Val<F>::mk(i)); S s(Val<S>::mk(i + 1)); return new E(f, s); }
    bool eq(const E & e, int i) { return Val<F>::eq(e.first, i) && Val<S>::eq(e.second, i + 1); }
    void same(A & x, const std::vector<int> & m, const char * w) {
        const A & k = x;
        if (k.size() != m.size()) fail(w, (long)k.size(), (long)m.size());
        if (k.capacity() < k.size()) fail("the capacity is less than the size", (long)k.capacity(), (long)k.size());
        size_t n = 0; for (typename A::iterator it = x.begin(); it != x.end(); ++it, ++n) if (n >= m.size() || *it != k.at(n)) fail("iteration and at() disagree", (long)n);
        if (n != m.size()) fail("iteration visits another number of elements", (long)n, (long)m.size());
        n = 0; for (typename A::const_iterator it = k.begin(); it != k.end(); ++it, ++n) if (*it != k.at(n)) fail("iteration and at() disagree", (long)n);
        if (n != m.size() || (size_t)(k.cend() - k.cbegin()) != n || (size_t)(x.cend() - x.cbegin()) != n) fail("iteration visits another number of elements", (long)n, (long)m.size());
        for (size_t i = 0; i < m.size(); i++) {
            if ((k.at(i) == nullptr) != (m[i] == 0)) fail("an element is missing or unexpected at", (long)i);
            if (m[i] && (!eq(k[i], m[i]) || !eq(x[i], m[i]) || &x[i] != x.at(i) || &k[i] != x.at(i))) fail("another element at", (long)i);
            for (size_t j = 0; j < i; j++) if (m[i] && k.at(i) == k.at(j)) fail("one element is held twice", (long)i, (long)j);
        }
        if (!m.empty() && (x.front() != x.at(0) || k.front() != k.at(0) || x.back() != x.at(m.size() - 1) || k.back() != k.at(m.size() - 1))) fail("front() or back() is another element");
        for (size_t q : { m.size(), m.size() + 1, ~(size_t)0 }) { int t = 0; try { x.at(q); } catch (const std::out_of_range &) { t++; } try { k.at(q); } catch (const std::out_of_range &) { t++; } if (t != 2) fail("at() accepts a position out of range", (long)q); }
    }
    void look() {
        same(*a, ma, "the size of the first array"); same(*b, mb, "the size of the second array");
        for (size_t i = 0; i < ma.size(); i++) for (size_t j = 0; j < mb.size(); j++) if (ma[i] && a->at(i) == b->at(j)) fail("both arrays hold the same element", (long)i, (long)j);
        if (Val<F>::counted) { long n = 0; for (int v : ma) n += v != 0; for (int v : mb) n += v != 0; if (Tok::live != 2 * n) fail("living element halves", Tok::live, 2 * n); }
        if (g_bad) MC_FAIL(c, idx, "string_view_array after %s: %s", log().c_str(), g_badmsg);
    }
    void push() { typename A::value_type p = mk(next); ma.push_back(next++); a->push_back(p); }
    void op(int o) {
        did.push_back(o);
        switch (o) {
            case 0: a->push_back(mk(next)); ma.push_back(next++); break;
            case 1: push(); break;
            case 2: a->push_back(nullptr); ma.push_back(0); break;
            case 3: if (!ma.empty()) { a->pop_back(); ma.pop_back(); } break;
            case 4: a->clear(); ma.clear(); break;
            case 5: a->resize(ma.size() + 2); ma.resize(ma.size() + 2, 0); break;
            case 6: a->resize(ma.size() / 2); ma.resize(ma.size() / 2); break;
            case 7: a->resize(0); ma.clear(); break;
            case 8: { size_t n = ma.size() + 3; a->reserve(n); if (a->capacity() < n) fail("the capacity after reserve", (long)a->capacity(), (long)n); break; }
            case 9: { A * n = new A(*a); delete b; b = n; mb = ma; break; }
            case 10: { A * n = new A(std::move(*a)); if (a->size() != 0) fail("elements left in an array moved from", (long)a->size()); delete b; b = n; mb.swap(ma); ma.clear(); if (mb.size() > 2) { *a = std::move(*b); ma.swap(mb); mb.clear(); } break; }
            case 11: a->copy(*b); ma = mb; break;
            case 12: a->swap(*b); ma.swap(mb); break;
            case 13: if (ma.size() % 2) { using std::swap; swap(*b, *a); ma.swap(mb); } else if (mb.size() % 2) { std::swap(*a, *b); *a = std::move(*a); ma.swap(mb); } else { a->copy(*a); a->swap(*a); } break;
            case 14: { size_t n = ma.size(); if (n > 1 && ma[0] && ma[n - 1]) { if (n % 2) std::swap((*a)[0], (*a)[n - 1]); else (*a)[0].swap((*a)[n - 1]); std::swap(ma[0], ma[n - 1]); } break; }
            case 15: { size_t n = ma.size(); if (n && ma[0]) { E e(Val<F>::mk(next), Val<S>::mk(next + 1)); (*a)[0] = e; if (!eq(e, next)) fail("assigning an element changed its source"); ma[0] = next++; (*a)[0] = (*a)[0]; E f((*a)[0]), g(std::move(f)); if (!eq(g, ma[0])) fail("a copied and moved element differs"); }
                       if (n > 1 && !ma[n - 1]) { a->at(n - 1) = mk(next); ma[n - 1] = next++; }
                       if (n > 2 && ma[1]) { E e(Val<F>::mk(next), Val<S>::mk(next + 1)); (*a)[1] = std::move(e); ma[1] = next++; } break; }
            case 16: if (Val<F>::counted) for (int k = 0; k < 2 * (int)std::max(ma.size(), mb.size()); k++) {
                        bool done = false; Tok::fuse = k; try { A t(*a); done = true; } catch (Boom) { } Tok::fuse = -1; if (!done) look();
                        std::vector<int> was = mb; Tok::fuse = k; done = false; try { b->copy(*a); done = true; } catch (Boom) { } Tok::fuse = -1;
                        if (done) { mb = ma; look(); } else { if (b->size() != was.size()) fail("a copy that failed changed the array"); look(); } }
                     break;
        }
        look();
    }
    void end() { delete a; delete b; over = true; if (Val<F>::counted && (Tok::live != 0 || !Tok::at.empty())) fail("elements still alive", Tok::live, 0); if (g_bad) MC_FAIL(c, idx, "string_view_array after %s: %s", log().c_str(), g_badmsg); }
};
template <class F, class S> void reg_one(const char * name, int D) {
    // four starts: empty; three elements; one, and two behind; elements with a hole
    u64 tot = 4; for (int k = 0; k < D; k++) tot *= NOP;
    auto dec = [D](u64 i) { std::string s = "start " + std::to_string(i % 4); u64 z = i / 4; for (int k = 0; k < D; k++, z /= NOP) s += std::string(", ") + OPS[z % NOP]; return s; };
    add_range(name, tot, 4096, 8, [=](Ctx & c, u64 lo, u64 hi) {
        u64 nt = 0;
        for (u64 i = lo; i < hi; i++) {
            Run<F, S> r(c, i); u64 z = i / 4; int st = i % 4;
            if (st == 1) { for (int k = 0; k < 3; k++) r.push(); } else if (st == 2) { r.push(); r.a->swap(*r.b); r.ma.swap(r.mb); r.push(); r.push(); } else if (st == 3) { r.push(); r.a->push_back(nullptr); r.ma.push_back(0); r.push(); r.push(); r.b->resize(2); r.mb.resize(2, 0); }
            r.look();
            for (int k = 0; k < D; k++, z /= NOP) r.op((int)(z % NOP));
            nt += !r.ma.empty() || !r.mb.empty(); r.end();
        }
        c.add_states(hi - lo); c.add_transitions((hi - lo) * D); return nt;
    }, 5, dec);
}
void reg() {
    const bool T = thorough();
    reg_one<Tok, Tok>("counted elements", T ? 5 : 4);
    reg_one<jstd::string_view, jstd::string_view>("string views", T ? 4 : 3);
    reg_one<std::string, std::string>("strings", T ? 4 : 3);
}
Registrar r_(reg);
} // namespace
