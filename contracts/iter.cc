// Contracts for best/iter/iter.h: iterator adaptors.
#include "open.h"
#include "best/iter/iter.h"
#include "best/iter/bounds.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "vp.h"
#include "link.h"
#if defined(VP_PROP_I01)
#include "track.h"
namespace {
unsigned num(const char* n) { return vp::any<unsigned>(n); }
size_t big(const char* n) { return vp::any<size_t>(n); }
// A source of the elements p[lo..hi), from either end, that counts how often it is asked.
struct Ghost { const unsigned* p; size_t n, lo, hi; size_t asked = 0; };
Ghost ghost() { Ghost g; g.n = big("n"); VP_REQUIRES(g.n <= PTRDIFF_MAX / 8); g.p = vp::buffer<unsigned>(g.n, "items"); g.lo = big("front"); g.hi = big("back"); VP_REQUIRES(g.lo <= g.hi && g.hi <= g.n); return g; }
template <typename Item> Item item(Ghost* g, size_t i) { if constexpr (std::is_reference_v<Item>) return g->p[i]; else return Item(g->p[i]); }
template <typename Item, bool exact> struct Src {
  Ghost* g;
  best::option<Item> next() { ++g->asked; if (g->lo == g->hi) return best::none; return item<Item>(g, g->lo++); }
  best::option<Item> next_back() { ++g->asked; if (g->lo == g->hi) return best::none; return item<Item>(g, --g->hi); }
  best::size_hint size_hint() const { if (exact) return {g->hi - g->lo, g->hi - g->lo}; return {(g->hi - g->lo) / 2, best::none}; }
};
// The same without a hint of its own, and from the front only.
struct Bare { Ghost* g; best::option<unsigned> next() { ++g->asked; if (g->lo == g->hi) return best::none; return unsigned(g->p[g->lo++]); } };
using Ref = Src<const unsigned&, true>; using Val = Src<unsigned, false>;
bool back() { return vp::any<bool>("from the back"); }
// One step of the source, taken by an adaptor: asked exactly once, and moved by one from the chosen end. at is the index it gave (if some).
struct Step {
  Ghost was; Ghost* g; bool b; size_t at; bool some;
  Step(Ghost* g, bool b) : was(*g), g(g), b(b), at(b ? g->hi - 1 : g->lo), some(g->lo < g->hi) {}
  bool once() { return g->asked == was.asked + 1 && g->lo == was.lo + (some && !b) && g->hi == was.hi - (some && b); }
  bool untouched() { return g->asked == was.asked && g->lo == was.lo && g->hi == was.hi; }
};
bool hint(best::size_hint h, size_t n) { return h.lower <= n && (!h.upper.has_value() || *h.upper >= n); }
bool exactly(best::size_hint h, size_t n) { return h.lower == n && h.upper.has_value() && *h.upper == n; }
template <typename S> auto source(Ghost* g) { return best::iter(S{g}); }

template <typename S> void map() {
  Ghost g = ghost(); size_t calls = 0; const unsigned* seen = nullptr; unsigned k = num("k");
  auto it = source<S>(&g).map([&, k](auto&& x) { ++calls; seen = &x; return (unsigned long)(x) * 2 + k; });
  VP_ENSURES(calls == 0 && g.asked == 0);
  if constexpr (std::is_same_v<S, Ref>) VP_ENSURES(exactly(it.size_hint(), g.hi - g.lo)); else VP_ENSURES(hint(it.size_hint(), g.hi - g.lo));
  bool b = back(); Step s(&g, b); auto r = b ? it.next_back() : it.next();
  VP_ENSURES(s.once() && r.has_value() == s.some && calls == s.some);
  if (s.some) { VP_ENSURES(*r == (unsigned long)(g.p[s.at]) * 2 + k); if constexpr (std::is_same_v<S, Ref>) VP_ENSURES(seen == g.p + s.at); vp_cover("some"); }
}
template <typename S> void inspect() {
  Ghost g = ghost(); size_t calls = 0; unsigned seen = 0;
  auto it = source<S>(&g).inspect([&](auto& x) { ++calls; seen = x; return 5; });
  bool b = back(); Step s(&g, b); auto r = b ? it.next_back() : it.next();
  VP_ENSURES(s.once() && r.has_value() == s.some && calls == s.some);
  if (s.some) { VP_ENSURES(*r == g.p[s.at] && seen == g.p[s.at]); if constexpr (std::is_same_v<S, Ref>) VP_ENSURES(&*r == g.p + s.at); vp_cover("some"); }
  calls = 0; auto plain = source<S>(&g).inspect([&] { ++calls; }); Step t(&g, false); auto u = plain.next();
  VP_ENSURES(t.once() && u.has_value() == t.some && calls == t.some && hint(plain.size_hint(), g.hi - g.lo)); if (t.some) VP_ENSURES(*u == g.p[t.at]);
}
template <typename S> void enumerate() {
  Ghost g = ghost(); auto it = source<S>(&g).enumerate();
  bool first = vp::any<bool>("first"); size_t i = first ? 0 : big("index");
  if constexpr (requires { it.impl_.idx_; }) if (!first) it.impl_.idx_ = i;  // any later state
  if constexpr (!requires { it.impl_.idx_; }) VP_REQUIRES(first);
  Step s(&g, false); auto r = it.next();
  VP_ENSURES(s.once() && r.has_value() == s.some);
  if (s.some) { VP_ENSURES(r->first() == i && r->second() == g.p[s.at]); if constexpr (std::is_same_v<S, Ref>) VP_ENSURES(&r->second() == g.p + s.at); vp_cover(first ? "first" : "later"); }
  VP_ENSURES(hint(it.size_hint(), g.hi - g.lo)); Step t(&g, false); r = it.next(); if (t.some) VP_ENSURES(r->first() == i + 1 && r->second() == g.p[t.at]); else VP_ENSURES(!r.has_value());
}
template <typename S> void take() {
  Ghost g = ghost(); size_t k = big("count"), n = g.hi - g.lo, yields = k < n ? k : n;
  auto it = source<S>(&g).take(k);
  VP_ENSURES(hint(it.size_hint(), yields)); if constexpr (std::is_same_v<S, Ref>) VP_ENSURES(exactly(it.size_hint(), yields));
  Step s(&g, false); auto r = it.next();
  if (k == 0) { VP_ENSURES(s.untouched() && !r.has_value()); vp_cover("zero"); }
  else { VP_ENSURES(s.once() && r.has_value() == s.some); if (s.some) { VP_ENSURES(*r == g.p[s.at]); vp_cover("some"); } }
  if (k > 0 && s.some) VP_ENSURES(hint(it.size_hint(), yields - 1));
  Step t(&g, false); r = it.next();
  if (k <= 1) VP_ENSURES(t.untouched() && !r.has_value()); else { VP_ENSURES(t.once() && r.has_value() == t.some); if (t.some) VP_ENSURES(*r == g.p[t.at]); }
}
template <typename S> void rev() {
  Ghost g = ghost(); auto it = source<S>(&g).rev(); VP_ENSURES(hint(it.size_hint(), g.hi - g.lo));
  bool b = back(); Step s(&g, !b); auto r = b ? it.next_back() : it.next(); VP_ENSURES(s.once() && r.has_value() == s.some); if (s.some) { VP_ENSURES(*r == g.p[s.at]); vp_cover("some"); }
  auto again = std::move(it).rev(); Step t(&g, b); r = b ? again.next_back() : again.next(); VP_ENSURES(t.once() && r.has_value() == t.some); if (t.some) VP_ENSURES(*r == g.p[t.at]);
}
// The whole sequence: the generic forms that use only next().
template <typename S> void count() {
  Ghost g = ghost(); Ghost* q = &g; struct C { Ghost* g; size_t lo; } c{q, g.lo};
  vp::hint<C>([](C* c, size_t) { return c->g->lo >= c->lo && c->g->lo <= c->g->hi; }, &c, 0);
  vp::hint<C>([](C* c, size_t v) { return v == c->g->lo - c->lo; }, &c);
  vp::hint<C>([](C* c, size_t) { return c->g->asked == c->g->lo - c->lo; }, &c, 0);
  size_t n = g.hi - g.lo; auto r = source<S>(&g).count(); VP_ENSURES(r == n && g.lo == g.hi && g.asked == n + 1);
}
template <typename S> void last() {
  vp_late(); Ghost g = ghost(); struct C { Ghost* g; size_t lo; } c{&g, g.lo}; size_t hi = g.hi; bool some = g.lo < g.hi;
  vp::hint<C>([](C* c, size_t) { return c->g->lo >= c->lo && c->g->lo <= c->g->hi; }, &c, 0);
  vp::hint<C>([](C* c, size_t) { return c->g->asked == c->g->lo - c->lo; }, &c, 0);
  if constexpr (std::is_same_v<S, Ref>) { vp::hint<C>([](C* c, size_t v) { return c->g->lo != c->lo || v == 0; }, &c); vp::hint<C>([](C* c, size_t v) { return c->g->lo == c->lo || v == size_t(c->g->p + c->g->lo - 1); }, &c); vp::hint<C>([](C* c, size_t v) { return v == (c->g->lo == c->lo ? 0 : size_t(c->g->p + c->g->lo - 1)); }, &c); } else {
    vp::hint<C>([](C* c, size_t v) { return v == size_t(c->g->lo > c->lo); }, &c);
    vp::hint<C>([](C* c, size_t v) { return c->g->lo == c->lo || unsigned(v) == c->g->p[c->g->lo - 1]; }, &c);
  }
  auto r = source<S>(&g).last(); VP_ENSURES(r.has_value() == some && g.lo == hi);
  if (some) { if constexpr (std::is_same_v<S, Ref>) VP_ENSURES(&*r == g.p + hi - 1); else VP_ENSURES(*r == g.p[hi - 1]); vp_cover("some"); } else vp_cover("none");
}
template <typename S> void each() {
  Ghost g = ghost(); size_t i = g.lo, lo = g.lo; struct C { Ghost* g; size_t* i; } c{&g, &i}; (void)lo;
  vp::hint<C>([](C* c, size_t) { return c->g->lo == *c->i && *c->i <= c->g->hi; }, &c, 0);
  auto it = source<S>(&g);
  for (auto&& x : it) { VP_ENSURES(x == g.p[i] && g.lo == i + 1); ++i; vp_cover("element"); }
  VP_ENSURES(i == g.hi && g.lo == g.hi);
}
}
#define X(f) VP_CONTRACT(I01, f##_ref) { f<Ref>(); } VP_CONTRACT(I01, f##_val) { f<Val>(); }
X(map) X(inspect) X(enumerate) X(take) X(rev) X(count) X(last) X(each)
VP_CONTRACT(I01, bare) {
  Ghost g = ghost(); auto it = source<Bare>(&g); VP_ENSURES(it.size_hint().lower == 0 && !it.size_hint().upper.has_value());
  size_t k = big("k"); auto t = source<Bare>(&g).take(k); auto h = t.size_hint(); VP_ENSURES(h.lower == 0 && h.upper.has_value() && *h.upper == k);
  Step s(&g, false); auto r = it.next(); VP_ENSURES(s.once() && r.has_value() == s.some); if (s.some) VP_ENSURES(*r == g.p[s.at]);
}
VP_CONTRACT(I01, count_bare) { count<Bare>(); }
VP_CONTRACT(I01, last_bare) { last<Bare>(); }
VP_CONTRACT(I01, each_bare) { each<Bare>(); }
// Adaptors on top of each other, over a span and over a range of integers.
VP_CONTRACT(I01, chain_span) {
  size_t n = big("n"); VP_REQUIRES(n <= PTRDIFF_MAX / 8); int* p = vp::buffer<int>(n, "p"); best::span<int> s(p, n); size_t k = big("k"), left = k < n ? k : n;
  auto it = s.iter().rev().enumerate().take(k).map([](auto r) { return best::row<size_t, int*>(r.first(), &r.second()); });
  VP_ENSURES(exactly(it.size_hint(), left));
  auto r = it.next(); VP_ENSURES(r.has_value() == (left > 0)); if (left > 0) { VP_ENSURES(r->first() == 0 && r->second() == p + n - 1); VP_ENSURES(exactly(it.size_hint(), left - 1)); }
  r = it.next(); VP_ENSURES(r.has_value() == (left > 1)); if (left > 1) { VP_ENSURES(r->first() == 1 && r->second() == p + n - 2); vp_cover("two"); }
  VP_ENSURES(s.iter().enumerate().count() == n && s.iter().rev().rev().count() == n);
}
VP_CONTRACT(I01, chain_range) {
  int a = vp::any<int>("a"), b = vp::any<int>("b"); size_t k = big("k"), n = a < b ? size_t(long(b) - a) : 0, left = k < n ? k : n;
  auto it = best::int_range<int>{.start = a, .end = b}.iter().rev().take(k).enumerate();
  VP_ENSURES(exactly(it.size_hint(), left)); auto r = it.next(); VP_ENSURES(r.has_value() == (left > 0)); if (left > 0) VP_ENSURES(r->first() == 0 && r->second() == b - 1);
  r = it.next(); VP_ENSURES(r.has_value() == (left > 1)); if (left > 1) { VP_ENSURES(r->first() == 1 && r->second() == b - 2); vp_cover("two"); }
}
// Collecting: at most 5 elements.
template <typename S, bool to_vec> void collect() {
  Ghost g = ghost(); VP_REQUIRES(g.hi - g.lo <= 5); size_t lo = g.lo, n = g.hi - g.lo;
  {
    best::vec<unsigned> v;
    if constexpr (to_vec) v = source<S>(&g).to_vec(); else v = best::vec<unsigned>(source<S>(&g).collect());
    VP_ENSURES(v.size() == n && g.lo == g.hi && g.asked == n + 1); for (size_t i = 0; i < n; ++i) VP_ENSURES(v[i] == g.p[lo + i]);
  }
  VP_ENSURES(vp_heap_live() == 0);
}
VP_CONTRACT(I01, to_vec_bounded) { collect<Val, true>(); }
VP_CONTRACT(I01, collect_bounded) { collect<Ref, false>(); }
VP_CONTRACT(I01, to_vec_tracked_bounded) {
  size_t n = big("n"); VP_REQUIRES(n <= 3); int b = live; { int v = int(num("v") >> 1);
    auto out = best::int_range<int>{.start = 0, .end = int(n)}.iter().map([&](int i) { return Owner(v ^ i); }).to_vec();
    VP_ENSURES(out.size() == n && live == b + int(n)); for (size_t i = 0; i < n; ++i) VP_ENSURES(*out[i].p == (v ^ int(i))); } VP_ENSURES(live == b && vp_heap_live() == 0);
}
#endif
