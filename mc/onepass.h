#ifndef MC_ONEPASS_H
#define MC_ONEPASS_H
#include "types.h"
#include <iterator>
#include <memory>
#include <vector>
namespace mc {
// a single-pass range: all copies of the iterator share one position, and reading past a copy is an error
template <class P> struct OnePass {
    struct State { const std::vector<P> * v; size_t at; };
    std::shared_ptr<State> s; size_t mine;
    using iterator_category = std::input_iterator_tag; using value_type = P; using difference_type = std::ptrdiff_t; using pointer = const P *; using reference = const P &;
    OnePass() : mine((size_t)-1) {}
    explicit OnePass(const std::vector<P> & v) : s(new State{ &v, 0 }), mine(0) {}
    bool done() const { return !s || s->at >= s->v->size(); }
    const P & operator*() const { if (done() || s->at != mine) { bad("a position of a single-pass range was read after the range had moved on"); static P * z = nullptr; if (!z) { FaultOff off; z = new P((*s->v)[0].first, (*s->v)[0].second); } return *z; } return (*s->v)[s->at]; }
    const P * operator->() const { return &**this; }
    OnePass & operator++() { if (s->at != mine) bad("a position of a single-pass range was advanced after the range had moved on"); s->at++; mine = s->at; return *this; }
    OnePass operator++(int) { OnePass c = *this; ++*this; return c; }
    friend bool operator==(const OnePass & a, const OnePass & b) { return a.done() == b.done() && (a.done() || a.mine == b.mine); }
    friend bool operator!=(const OnePass & a, const OnePass & b) { return !(a == b); }
};
} // namespace mc
#endif
