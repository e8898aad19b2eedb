// Contracts for best/container/row.h.
#include "best/container/row.h"
#include "vp.h"
#include "link.h"
#if defined(VP_PROP_R01)
#include "track.h"
#define TYPE(...) VP_ENSURES((__VA_ARGS__))
namespace {
using best::bounds; using best::index; using best::types; using best::vals;
// An element that records whether it was moved from.
struct Tr {
  int v; const Tr* self; bool gone = false;
  bool alive() const { return self == this; }
  Tr(int v) : v(v), self(this) { ++live; }
  Tr(const Tr& o) : v(val_of(o)), self(this), gone(o.gone) { ++live; }
  Tr(Tr&& o) : v(val_of(o)), self(this), gone(o.gone) { o.gone = true; ++live; }
  Tr& operator=(const Tr& o) { VP_ENSURES(alive() && o.alive()); v = o.v; gone = o.gone; return *this; }
  Tr& operator=(Tr&& o) { VP_ENSURES(alive() && o.alive()); v = o.v; bool g = o.gone; o.gone = true; gone = g; return *this; }
  ~Tr() { VP_ENSURES(alive()); self = nullptr; --live; }
};
struct Other : Tr { using Tr::Tr; using BestRowKey = Tr; };
int num(const char* n) { return vp::any<int>(n); }
bool is(const Tr& t, int v) { return t.alive() && !t.gone && t.v == v; }
bool is(int t, int v) { return t == v; }
bool is(long t, int v) { return t == v; }
template <typename T, typename U> inline constexpr bool same = std::is_same_v<T, U>;
template <size_t i> constexpr best::index_t<i> ix{};

// Rows of 1, 2 (which have layouts of their own) and 5 elements, among them a reference and a void.
struct Five {
  using R = best::row<int, Tr, int&, void, Tr>;
  int a = num("a"), b = num("b"), c = num("c"), d = num("d"), e = num("e");
  R r = R(a, Tr(b), c, best::empty{}, Tr(d));
  bool whole(const R& r) { return *r.object(ix<0>) == a && is(r[ix<1>], b) && &r[ix<2>] == &c && is(r[ix<4>], d); }
  void n(int k) { VP_ENSURES(live == k); }
  void access() {
    const R& k = r;
    TYPE(same<decltype(r[ix<1>]), Tr&> && same<decltype(k[ix<1>]), const Tr&> && same<decltype(std::move(r)[ix<1>]), Tr&&> && same<decltype(std::move(k)[ix<1>]), const Tr&&>);
    TYPE(same<decltype(r[ix<2>]), int&> && same<decltype(k[ix<2>]), int&> && same<decltype(std::move(r)[ix<2>]), int&> && R::size() == 5 && !R::is_empty() && best::row<>::is_empty());
    const Tr* p = &r[ix<1>]; const int* q = &r[ix<0>]; const Tr* l = &r[ix<4>];
    VP_ENSURES((const void*)q != p && p != l && (const void*)q != l);
    VP_ENSURES(&k[ix<1>] == p && &k[ix<0>] == q && &k[ix<4>] == l && &r[ix<2>] == &c && &k[ix<2>] == &c);
    { Tr&& x = std::move(r)[ix<1>]; const Tr&& y = std::move(k)[ix<1>]; VP_ENSURES(&x == p && &y == p); int& z = std::move(r)[ix<2>]; VP_ENSURES(&z == &c); }
    VP_ENSURES(&r.at(ix<1>) == p && &k.at(ix<1>) == p && &r.at<4>() == l && &k.at<4>() == l && &r.get(ix<1>) == p && &k.get(ix<0>) == q && &r.get<2>() == &c);
    { Tr&& x = std::move(r).at(ix<1>); const Tr&& y = std::move(k).at(ix<4>); Tr&& z = std::move(r).get(ix<4>); const Tr&& w = std::move(k).get(ix<1>); VP_ENSURES(&x == p && &y == l && &z == l && &w == p); }
    VP_ENSURES(r.object(ix<1>).as_ptr() == p && k.object(ix<1>).as_ptr() == p && std::move(r).object(ix<4>).as_ptr() == l && std::move(k).object(ix<4>).as_ptr() == l);
    VP_ENSURES(&r.first() == q && &k.first() == q && &r.second() == p && &k.second() == p && &r.last() == l && &k.last() == l);
    { int&& x = std::move(r).first(); Tr&& y = std::move(r).second(); Tr&& z = std::move(r).last(); VP_ENSURES(&x == q && &y == p && &z == l); }
    { const int&& x = std::move(k).first(); const Tr&& y = std::move(k).second(); const Tr&& z = std::move(k).last(); VP_ENSURES(&x == q && &y == p && &z == l); }
    TYPE(same<decltype(r.get(ix<3>)), best::empty> && std::is_void_v<decltype(r.at(ix<3>))>);
    r[ix<0>] = e; r[ix<1>].v = a; r[ix<2>] = b; VP_ENSURES(k.first() == e && k.second().v == a && c == b && is(k.last(), d)); n(2);
  }
  void copy() {
    { R x = r; VP_ENSURES(whole(x) && whole(r)); n(4); x[ix<0>] = e; x[ix<1>].v = e; }
    VP_ENSURES(whole(r)); n(2);
    { R x = std::move(r); VP_ENSURES(whole(x) && r[ix<1>].gone && r[ix<4>].gone && &r[ix<2>] == &c); n(4); }
    n(2);
  }
  void assign() {
    int f = num("f"); R x(e, Tr(e), f, best::empty{}, Tr(e)); n(4);
    x = r; VP_ENSURES(whole(x) && whole(r) && &x[ix<2>] == &c); n(4);
    { R& s = x; x = s; VP_ENSURES(whole(x)); n(4); }
    R y(e, Tr(e), f, best::empty{}, Tr(e)); y = std::move(x); VP_ENSURES(whole(y) && whole(r)); n(6);
    int g = f; VP_ENSURES(f == g);
  }
  void refs() {
    const R& k = r;
    auto x = r.as_ref(); TYPE(same<decltype(x), best::row<int&, Tr&, int&, void, Tr&>>); VP_ENSURES(&x[ix<0>] == &r[ix<0>] && &x[ix<1>] == &r[ix<1>] && &x[ix<2>] == &c && &x[ix<4>] == &r[ix<4>]);
    auto y = k.as_ref(); TYPE(same<decltype(y[ix<1>]), const Tr&>); VP_ENSURES(&y[ix<0>] == &r[ix<0>] && &y[ix<1>] == &r[ix<1>] && &y[ix<4>] == &r[ix<4>]);
    n(2); VP_ENSURES(whole(r));
  }
  void apply() {
    const R& k = r; int calls = 0;
    auto f = [&](auto&& p, auto&& q, auto&& s, best::empty, auto&& t) { ++calls; VP_ENSURES(&p == &r[ix<0>] && &q == &r[ix<1>] && &s == &c && &t == &r[ix<4>]); return &q; };
    VP_ENSURES(r.apply(f) == &r[ix<1>] && k.apply(f) == &r[ix<1>] && std::move(r).apply(f) == &r[ix<1>] && calls == 3);
    r.apply([&](int& p, Tr& q, int& s, best::empty, Tr& t) { p = e; s = e; }); VP_ENSURES(r.first() == e && c == e); r.first() = a;
    std::move(r).apply([&](int&& p, Tr&& q, int& s, best::empty, Tr&& t) { Tr x(std::move(q)); VP_ENSURES(is(x, b)); }); VP_ENSURES(r.second().gone && is(r.last(), d));
    TYPE(same<decltype(std::move(r).as_args()), best::args<int&&, Tr&&, int&, best::empty&&, Tr&&>>); n(2);
  }
  void each() {
    const R& k = r; int i = 0;
    struct F {
      Five* f; int* i;
      void at(int j, bool ok) { VP_ENSURES(ok); VP_ENSURES(*i == j); ++*i; }
      void operator()(const int& x) { if (*i == 2) at(2, &x == &f->c); else at(0, &x == &f->r[ix<0>]); }
      void operator()(const Tr& x) { if (*i == 1) at(1, &x == &f->r[ix<1>]); else at(4, &x == &f->r[ix<4>]); }
      void operator()() { at(3, true); }
    } f{this, &i};
    r.each(f); VP_ENSURES(i == 5); i = 0; k.each(f); VP_ENSURES(i == 5); i = 0; std::move(r).each(f); VP_ENSURES(i == 5); VP_ENSURES(whole(r)); n(2);
  }
};
// Rearranging. T is the category the source row is used as: lvalues are copied and left alone, rvalues are moved.
template <bool Move> struct Arrange {
  using R = best::row<int, Tr, int&, Tr>;
  int a = num("a"), b = num("b"), c = num("c"), d = num("d"), e = num("e"), f = num("f");
  R r = R(a, Tr(b), c, Tr(d));
  decltype(auto) src() { if constexpr (Move) return std::move(r); else return (r); }
  // What is left of the source: the elements in the mask were used.
  void after(bool b1, bool d1) {
    VP_ENSURES(r[ix<0>] == a && &r[ix<2>] == &c && r[ix<1>].alive() && r[ix<3>].alive() && r[ix<1>].v == b && r[ix<3>].v == d);
    VP_ENSURES(r[ix<1>].gone == (Move && b1) && r[ix<3>].gone == (Move && d1)); VP_ENSURES(live == 2);
  }
  template <typename X, typename... V> void holds(X& x, V... v) {
    int w[] = {0, v...}; size_t i = 1;
    TYPE(X::size() == sizeof...(V));
    x.each([&](auto&& y) { VP_ENSURES(is(y, w[i])); ++i; });
    VP_ENSURES(i == sizeof...(V) + 1);
  }
  void join() {
    { best::row<Tr, long> s(Tr(e), f); auto x = src().join(s); TYPE(same<decltype(x), best::row<int, Tr, int&, Tr, Tr, long>>); holds(x, a, b, c, d, e, f); VP_ENSURES(&x[ix<2>] == &c && is(s.first(), e)); }
    after(1, 1);
  }
  void plus() {
    { best::row<Tr, long> s(Tr(e), f); auto x = src() + std::move(s); TYPE(same<decltype(x), best::row<int, Tr, int&, Tr, Tr, long>>); holds(x, a, b, c, d, e, f); VP_ENSURES(s.first().gone); }
    { best::row<> z; auto x = z + best::row<long>(e) + z; holds(x, e); auto y = z + z; TYPE(y.size() == 0); auto w = z.join(best::row<long>(f), best::row<int, int>(e, a)); holds(w, f, e, a); }
    after(1, 1);
  }
  void slice() {
    { auto x = src()[vals<bounds{.start = 1, .end = 3}>]; TYPE(same<decltype(x), best::row<Tr, int&>>); holds(x, b, c); VP_ENSURES(&x[ix<1>] == &c); }
    after(1, 0);
  }
  void slice_at() {
    { auto x = src().template at<bounds{.start = 2}>(); TYPE(same<decltype(x), best::row<int&, Tr>>); holds(x, c, d); VP_ENSURES(&x[ix<0>] == &c); }
    after(0, 1);
    { auto x = src().template at<bounds{.start = 0, .count = 1}>(); TYPE(same<decltype(x), best::row<int>>); holds(x, a); auto y = src().template at<bounds{.start = 4}>(); TYPE(y.size() == 0); }
    after(0, 1);
  }
  void push() {
    { Tr t(e); auto x = src().push(t); TYPE(same<decltype(x), best::row<int, Tr, int&, Tr, Tr>>); holds(x, a, b, c, d, e); VP_ENSURES(is(t, e) && &x[ix<2>] == &c); }
    after(1, 1);
  }
  void push_more() {
    { auto x = src().push(best::bind, f); TYPE(same<decltype(x), best::row<int, Tr, int&, Tr, int&>>); holds(x, a, b, c, d, f); VP_ENSURES(&x[ix<4>] == &f); }
    after(1, 1);
    { Tr t(e); best::row<int> s(a); auto x = s.push(std::move(t)); holds(x, a, e); VP_ENSURES(t.gone); auto y = s.push(types<long>, e); TYPE(same<decltype(y), best::row<int, long>>); holds(y, a, e); auto z = best::row<>().push(f); holds(z, f); }
    after(1, 1);
  }
  void insert() {
    { Tr t(e); auto x = src().template insert<1>(t); TYPE(same<decltype(x), best::row<int, Tr, Tr, int&, Tr>>); holds(x, a, e, b, c, d); VP_ENSURES(is(t, e) && &x[ix<3>] == &c); }
    after(1, 1);
  }
  void insert_more() {
    { auto x = src().template insert<0>(best::bind, f); TYPE(same<decltype(x), best::row<int&, int, Tr, int&, Tr>>); holds(x, f, a, b, c, d); VP_ENSURES(&x[ix<0>] == &f); }
    after(1, 1);
    { best::row<int, long> s(a, b); auto x = s.template insert<2>(types<long>, e); TYPE(same<decltype(x), best::row<int, long, long>>); holds(x, a, b, e); auto y = std::move(s).template insert<1>(f); holds(y, a, f, b); }
  }
  void update() {
    { Tr t(e); auto x = src().template update<0>(t); TYPE(same<decltype(x), best::row<Tr, Tr, int&, Tr>>); holds(x, e, b, c, d); VP_ENSURES(is(t, e)); }
    after(1, 1);
  }
  void update_more() {
    { auto x = src().template update<1>(best::bind, f); TYPE(same<decltype(x), best::row<int, int&, int&, Tr>>); holds(x, a, f, c, d); VP_ENSURES(&x[ix<1>] == &f && &x[ix<2>] == &c); }
    after(0, 1);
    { best::row<int, long> s(a, b); auto x = s.template update<1>(types<int>, e); TYPE(same<decltype(x), best::row<int, int>>); holds(x, a, e); }
  }
  void splice() {
    { best::row<Tr, long, int&> s(Tr(e), f, f); auto x = src().template splice<bounds{.start = 1, .end = 3}>(s); TYPE(same<decltype(x), best::row<int, Tr, long, int&, Tr>>); holds(x, a, e, f, f, d); VP_ENSURES(is(s.first(), e) && &x[ix<3>] == &f); }
    after(0, 1);
  }
  void splice_more() {
    { best::row<Tr> s(Tr{e}); auto x = src().template splice<bounds{.start = 2, .count = 0}>(std::move(s)); TYPE(same<decltype(x), best::row<int, Tr, Tr, int&, Tr>>); holds(x, a, b, e, c, d); VP_ENSURES(s.first().gone); }
    after(1, 1);
    { best::row<int, int> s(a, b); auto x = s.template splice<bounds{.start = 0, .count = 1}>(types<long, Tr>, best::row<int, int>(e, f)); TYPE(same<decltype(x), best::row<long, Tr, int>>); holds(x, e, f, b); }
  }
  void remove() {
    { auto x = src().template remove<1>(); TYPE(same<decltype(x), best::row<int, int&, Tr>>); holds(x, a, c, d); VP_ENSURES(&x[ix<1>] == &c); }
    after(0, 1);
  }
  void erase() {
    { auto x = src().template erase<bounds{.start = 0, .end = 3}>(); TYPE(same<decltype(x), best::row<Tr>>); holds(x, d); }
    after(0, 1);
    { auto x = src().template erase<bounds{}>(); TYPE(x.size() == 0); }
    after(0, 1);
  }
  void gather() {
    { auto x = src().template gather<3, 0, 2>(); TYPE(same<decltype(x), best::row<Tr, int, int&>>); holds(x, d, a, c); VP_ENSURES(&x[ix<2>] == &c); }
    after(0, 1);
    { auto x = src().gather(vals<size_t(1)>); holds(x, b); auto y = src().template gather<0, 0>(); holds(y, a, a); }
    after(1, 1);
  }
  void scatter() {
    { best::row<Tr, long> s(Tr(e), f); auto x = src().template scatter<2, 0>(s); TYPE(same<decltype(x), best::row<long, Tr, Tr, Tr>>); holds(x, f, b, e, d); VP_ENSURES(is(s.first(), e)); }
    after(1, 1);
  }
  void scatter_more() {
    { best::row<long, Tr> s(e, Tr(f)); auto x = src().template scatter<3>(s); TYPE(same<decltype(x), best::row<int, Tr, int&, long>>); holds(x, a, b, c, e); VP_ENSURES(&x[ix<2>] == &c); }
    after(1, 0);
  }
  void scatter_types() {
    { best::row<int, int> s(e, f); auto x = src().template scatter<0, 3>(types<long, Tr>, s); TYPE(same<decltype(x), best::row<long, Tr, int&, Tr>>); holds(x, e, b, c, f); }
    after(1, 0);
  }
  void select() {
    { auto x = src().template select<Tr>(); TYPE(same<decltype(x), best::row<Tr, Tr>>); holds(x, b, d); }
    after(1, 1);
    { auto x = src().template select<int&>(); TYPE(same<decltype(x), best::row<int&>>); VP_ENSURES(&x.first() == &c); auto y = src().select(types<int>); TYPE(same<decltype(y), best::row<int>>); holds(y, a); auto z = src().template select<char>(); TYPE(z.size() == 0); }
    after(1, 1);
  }
  void keys() {
    { best::row<int, Other, Tr> s(a, Other(e), Tr(f)); auto x = s.template select<Tr>(); TYPE(same<decltype(x), best::row<Other, Tr>>); holds(x, e, f); auto y = std::move(s).template select<Other>(); TYPE(same<decltype(y), best::row<Other>>); holds(y, e); VP_ENSURES(s.second().gone && !s.last().gone); }
    after(0, 0);
  }
};
template <typename O> void run(void (O::*f)()) { live = 0; { O o; (o.*f)(); } VP_ENSURES(live == 0); }
}
#define X(f) VP_CONTRACT(R01, five_##f) { run<Five>(&Five::f); }
X(access) X(copy) X(assign) X(refs) X(apply) X(each)
#undef X
#define X(f) VP_CONTRACT(R01, f##_copy) { run<Arrange<false>>(&Arrange<false>::f); } VP_CONTRACT(R01, f##_move) { run<Arrange<true>>(&Arrange<true>::f); }
X(join) X(plus) X(slice) X(slice_at) X(push) X(push_more) X(insert) X(insert_more) X(update) X(update_more) X(splice) X(splice_more) X(remove) X(erase) X(gather) X(scatter) X(scatter_more) X(scatter_types) X(select) X(keys)
#undef X
// The layouts of one and two elements, structured bindings, arguments.
VP_CONTRACT(R01, small) {
  live = 0;
  { int a = num("a"), b = num("b"), c = num("c");
    best::row<Tr> x(Tr{a}); const auto& k = x; VP_ENSURES(is(x[ix<0>], a) && &x.first() == &k.last() && &x.first() == &k[ix<0>] && x.size() == 1);
    best::row<int, Tr> y(b, Tr(c)); const auto& l = y; VP_ENSURES(is(y[ix<0>], b) && is(l[ix<1>], c) && &y.first() == &l[ix<0>] && &y.second() == &l.last());
    best::row<int&> z(b); z[ix<0>] = c; VP_ENSURES(b == c && &z.first() == &b && y.first() != b == (y.first() != c));
    int s = 0; x.apply([&](Tr& t) { s = t.v; }); VP_ENSURES(s == a); l.apply([&](const int& p, const Tr& q) { VP_ENSURES(&p == &y.first() && &q == &y.second()); });
    auto& [p, q] = y; VP_ENSURES(&p == &y.first() && &q == &y.second());
    auto [v, w] = l; VP_ENSURES(v == y.first() && is(w, c) && &w != &y.second());
    best::row<void> e(best::empty{}); best::row<> n; VP_ENSURES(e.size() == 1 && n.size() == 0 && std::is_empty_v<best::row<>>);
    best::row m{a, Tr(b)}; TYPE(same<decltype(m), best::row<int, Tr>>); VP_ENSURES(m.first() == a && is(m.second(), b));
    best::row r(best::bind, a, std::move(b)); TYPE(same<decltype(r), best::row<int&, int&&>>); VP_ENSURES(&r.first() == &a && &r.second() == &b);
    struct P { int x; Tr t; P(int x, Tr t) : x(x), t(std::move(t)) {} };
    P o = best::args(a, Tr(c)); VP_ENSURES(o.x == a && is(o.t, c));
    best::row<P, int> u(best::args(a, Tr(b)), c); VP_ENSURES(u.first().x == a && is(u.first().t, b) && u.second() == c);
  }
  VP_ENSURES(live == 0);
}
#endif
