// S01 span access.
#include "vp.h"
#include "open.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "best/memory/span.h"
#include "link.h"
using W = __int128;
// A type that is neither byte sized nor trivially comparable.
struct Odd {
  int a; char b[5];
  bool operator==(const Odd& o) const { return a == o.a; }
};
struct Wide { int a[4]; bool operator==(const Wide& o) const { return a[0] == o.a[0]; } };
struct Elem { int v; bool operator==(const Elem& o) const { return v == o.v; } };
// An arbitrary span over its own object of exactly that size.
template <typename T> struct S {
  size_t n = vp::any<size_t>("size");
  T* p = vp::buffer<T>(n, "data");
  best::span<T> s{p, n};
};
template <typename T, typename U> bool same(const best::span<T>& s, U* p, W n) { return s.data().raw() == p && W(s.size()) == n; }

#ifdef VP_PROP_S01
template <typename T> struct Access {
  static void index() {
    S<T> x; size_t i = vp::any<size_t>("i");
    VP_ENSURES(x.s.size() == x.n && x.s.data().raw() == x.p && x.s.is_empty() == (x.n == 0));
    vp_expect_crash(i >= x.n);
    T& r = x.s[i];
    vp_returned("indexing past the end crashes");
    VP_ENSURES(&r == x.p + i);
    VP_ENSURES(&x.s.at(best::unsafe("checked"), i) == x.p + i);
  }
  static void index_const() {
    S<T> x;
    vp_expect_crash(x.n < 3);
    T& r = x.s[best::index<2>];
    vp_returned("static index past the end crashes");
    VP_ENSURES(&r == x.p + 2);
  }
  static void at() {
    S<T> x; size_t i = vp::any<size_t>("i");
    auto r = x.s.at(i);
    VP_ENSURES(r.has_value() == (i < x.n));
    if (i < x.n) { VP_ENSURES(&*r == x.p + i); vp_cover("at"); }
  }
  static void ends() {
    S<T> x;
    auto f = x.s.first(); auto l = x.s.last();
    VP_ENSURES(f.has_value() == (x.n > 0) && l.has_value() == (x.n > 0));
    if (x.n > 0) { VP_ENSURES(&*f == x.p && &*l == x.p + (x.n - 1)); vp_cover("nonempty"); }
    auto f3 = x.s.template first<3>(); auto l3 = x.s.template last<3>();
    VP_ENSURES(f3.has_value() == (x.n >= 3) && l3.has_value() == (x.n >= 3));
    if (x.n >= 3) { VP_ENSURES(f3->data().raw() == x.p && f3->size() == 3 && l3->data().raw() == x.p + (x.n - 3) && l3->size() == 3); vp_cover("three"); }
  }
  static void split_ends() {
    S<T> x;
    auto f = x.s.split_first(); auto l = x.s.split_last();
    VP_ENSURES(f.has_value() == (x.n > 0) && l.has_value() == (x.n > 0));
    if (x.n > 0) {
      VP_ENSURES(&f->first() == x.p && same(f->second(), x.p + 1, W(x.n) - 1));
      VP_ENSURES(&l->first() == x.p + (x.n - 1) && same(l->second(), x.p, W(x.n) - 1));
      vp_cover("nonempty");
    }
  }
  static void split_three() {
    S<T> x;
    auto f = x.s.template split_first<3>(); auto l = x.s.template split_last<3>();
    VP_ENSURES(f.has_value() == (x.n >= 3) && l.has_value() == (x.n >= 3));
    if (x.n >= 3) {
      VP_ENSURES(f->first().data().raw() == x.p && f->first().size() == 3 && same(f->second(), x.p + 3, W(x.n) - 3));
      VP_ENSURES(l->first().data().raw() == x.p + (x.n - 3) && l->first().size() == 3 && same(l->second(), x.p, W(x.n) - 3));
      vp_cover("three");
    }
  }
  static void take() {
    S<T> x; size_t m = vp::any<size_t>("m");
    auto a = x.s; auto f = a.take_first(m);
    auto b = x.s; auto l = b.take_last(m);
    VP_ENSURES(f.has_value() == (m <= x.n) && l.has_value() == (m <= x.n));
    if (m <= x.n) {
      VP_ENSURES(same(*f, x.p, m) && same(a, x.p + m, W(x.n) - m));
      VP_ENSURES(same(*l, x.p + (x.n - m), m) && same(b, x.p, W(x.n) - m));
      vp_cover("taken");
    } else {
      VP_ENSURES(same(a, x.p, x.n) && same(b, x.p, x.n));
      vp_cover("refused");
    }
  }
  static void split_at() {
    S<T> x; size_t m = vp::any<size_t>("m");
    auto r = x.s.split_at(m);
    VP_ENSURES(r.has_value() == (m <= x.n));
    if (m <= x.n) { VP_ENSURES(same((*r)[0], x.p, m) && same((*r)[1], x.p + m, W(x.n) - m)); vp_cover("split"); }
    VP_ENSURES(same(x.s, x.p, x.n));
  }
  struct Range {
    size_t start = vp::any<size_t>("start"), e = vp::any<size_t>("end");
    int kind = vp::any<unsigned char>("kind") & 3;
    best::bounds b;
    Range() {
      b.start = start;
      if (kind == 1) b.end = e; else if (kind == 2) b.including_end = e; else if (kind == 3) b.count = e;
    }
    W hi(size_t n) { return kind == 0 ? W(n) : kind == 1 ? W(e) : kind == 2 ? W(e) + 1 : W(start) + W(e); }
    bool fits(size_t n) { return !(kind == 2 && e < start) && hi(n) >= W(start) && hi(n) <= W(n); }
  };
  static void slice_at() {
    S<T> x; Range g;
    auto r = x.s.at(g.b);
    VP_ENSURES(r.has_value() == g.fits(x.n));
    if (g.fits(x.n)) { VP_ENSURES(same(*r, x.p + g.start, g.hi(x.n) - g.start)); vp_cover("slice"); }
  }
  static void slice() {
    S<T> x; Range g;
    vp_expect_crash(!g.fits(x.n));
    auto r = x.s[g.b];
    vp_returned("slicing outside the span crashes");
    VP_ENSURES(same(r, x.p + g.start, g.hi(x.n) - g.start));
  }
  static void slice_unsafe() {
    S<T> x; Range g;
    VP_REQUIRES(g.fits(x.n));
    auto r = x.s.at(best::unsafe("required"), g.b);
    VP_ENSURES(same(r, x.p + g.start, g.hi(x.n) - g.start));
  }
  static void iterate() {
    S<T> x;
    auto it = x.s.iter();
    struct C { decltype(it)* i; size_t lo, hi; T* p; } c{&it, 0, x.n, x.p};
    vp::hint<C>([](C* c, size_t) {
      if (c->lo > c->hi) return false;
      if constexpr (requires { c->i->impl_.start_.raw(); c->i->impl_.end_.raw(); }) return c->i->impl_.start_.raw() == c->p + c->lo && c->i->impl_.end_.raw() == c->p + c->hi;
      else return true;
    }, &c, 0);
    size_t k = vp::any<size_t>("steps");
    for (size_t i = 0; i < k; ++i) {
      if (vp::any<bool>("front")) {
        auto r = it.next();
        VP_ENSURES(r.has_value() == (c.lo < c.hi));
        if (c.lo < c.hi) { VP_ENSURES(&*r == x.p + c.lo); ++c.lo; vp_cover("front"); }
      } else {
        auto r = it.next_back();
        VP_ENSURES(r.has_value() == (c.lo < c.hi));
        if (c.lo < c.hi) { --c.hi; VP_ENSURES(&*r == x.p + c.hi); vp_cover("back"); }
      }
    }
    VP_ENSURES(same(it->rest(), x.p + c.lo, W(c.hi) - c.lo));
    auto h = it.size_hint();
    VP_ENSURES(h.lower == c.hi - c.lo && h.upper.has_value() && *h.upper == c.hi - c.lo);
    if (vp::any<bool>("last")) {
      auto r = BEST_MOVE(it).last();
      VP_ENSURES(r.has_value() == (c.lo < c.hi));
      if (c.lo < c.hi) VP_ENSURES(&*r == x.p + (c.hi - 1));
    } else {
      VP_ENSURES(BEST_MOVE(it).count() == c.hi - c.lo);
    }
  }
  static void each() {
    S<T> x;
    size_t i = 0;
    for (T& r : x.s) { VP_ENSURES(&r == x.p + i); ++i; }
    VP_ENSURES(i == x.n);
  }
  // A static extent is checked on construction.
  static void fixed() {
    S<T> x;
    vp_expect_crash(x.n != 5);
    best::span<T, 5> f(best::ptr<T>(x.p), x.n);
    vp_returned("a fixed-size span of another length crashes");
    VP_ENSURES(f.size() == 5 && f.data().raw() == x.p && !f.is_empty());
    best::span<T> d = f;
    VP_ENSURES(same(d, x.p, 5));
    VP_ENSURES(&f[best::index<4>] == x.p + 4 && &*f.first() == x.p && &*f.last() == x.p + 4);
    auto a = f.template first<2>(); auto b = f.template last<2>();
    VP_ENSURES(a.has_value() && b.has_value() && a->data().raw() == x.p && b->data().raw() == x.p + 3);
    VP_ENSURES(!f.template first<6>().has_value() && !f.template last<6>().has_value());
    auto q = f.template split_first<2>();
    VP_ENSURES(q.has_value() && q->first().data().raw() == x.p && q->second().data().raw() == x.p + 2 && q->second().size() == 3);
    auto z = f.template split_last<2>();
    VP_ENSURES(z.has_value() && z->first().data().raw() == x.p + 3 && z->second().data().raw() == x.p && z->second().size() == 3);
  }
  static void fixed_range() {
    S<T> x;
    vp_expect_crash(x.n != 5);
    best::span<T, 5> f(x.s);
    vp_returned("a fixed-size span of a range of another length crashes");
    VP_ENSURES(f.data().raw() == x.p);
    constexpr best::bounds r{.start = 1, .count = 3};
    auto m = f[best::vals<r>];
    VP_ENSURES(m.size() == 3 && m.data().raw() == x.p + 1);
  }
  static void fixed_index() {
    T* p = vp::buffer<T>(5, "data"); best::span<T, 5> f(best::ptr<T>(p), 5); size_t i = vp::any<size_t>("i");
    auto r = f.at(i);
    VP_ENSURES(r.has_value() == (i < 5));
    if (i < 5) VP_ENSURES(&*r == p + i);
    Range g;
    auto q = f.at(g.b);
    VP_ENSURES(q.has_value() == g.fits(5));
    if (g.fits(5)) VP_ENSURES(same(*q, p + g.start, g.hi(5) - g.start));
    vp_expect_crash(i >= 5);
    T& t = f[i];
    vp_returned("indexing a fixed-size span past its end crashes");
    VP_ENSURES(&t == p + i);
  }
};
#define Y(f) VP_CONTRACT(S01, f##_u8) { Access<unsigned char>::f(); } VP_CONTRACT(S01, f##_int) { Access<const int>::f(); } VP_CONTRACT(S01, f##_wide) { Access<Wide>::f(); }
Y(iterate) Y(each)
#undef Y
#define X(f) VP_CONTRACT(S01, f##_u8) { Access<unsigned char>::f(); } VP_CONTRACT(S01, f##_int) { Access<const int>::f(); } VP_CONTRACT(S01, f##_odd) { Access<Odd>::f(); }
X(index) X(index_const) X(at) X(ends) X(split_ends) X(split_three) X(take) X(split_at) X(slice_at) X(slice) X(slice_unsafe) X(fixed) X(fixed_range) X(fixed_index)
#undef X
VP_CONTRACT(S01, arrays) {
  int a[4]; best::span s(a); const int b[3] = {};
  VP_ENSURES(same(s, a, 4) && same(best::span(b), b, 3));
  std::array<int, 6> c{}; VP_ENSURES(same(best::span(c), c.data(), 6));
  best::span<int, 4> f(a); VP_ENSURES(f.data().raw() == a);
}
// The length of a NUL-terminated sequence.
template <typename T> void nul_() {
  size_t n = vp::any<size_t>("length"); VP_REQUIRES(n < (size_t(1) << 40));
  T* p = vp::buffer<T>(n + 1, "string");
  struct C { const T* p; size_t n; } c{p, n};
  vp::forall<C>([](C* c, size_t i) { return i > c->n || (c->p[i] == T(0)) == (i == c->n); }, &c, p);
  vp::hint<C>([](C* c, size_t i) { return i <= c->n; }, &c, sizeof(T));
  vp::inst(p, n);
  auto s = best::span<T>::from_nul(p);
  VP_ENSURES(same(s, p, n));
}
VP_CONTRACT(S01, from_nul_char) { nul_<char>(); }
VP_CONTRACT(S01, from_nul_int) { nul_<int>(); }
VP_CONTRACT(S01, from_nul_null) { VP_ENSURES(best::span<int>::from_nul(nullptr).size() == 0); VP_ENSURES(best::span<char>::from_nul(nullptr).is_empty()); }
#endif

#if defined(VP_PROP_S02)
// Haystack and needle of any length; `q` is an arbitrary position at which the needle occurs (has_q), so that a search
// which skips or misses q contradicts the assumption.
template <typename T, typename U = T> struct Find {
  size_t n = vp::any<size_t>("haystack size"), m = vp::any<size_t>("needle size");
  T* h = vp::buffer<T>(n, "haystack");
  U* d = vp::buffer<U>(m, "needle");
  bool has_q = vp::any<bool>("needle occurs"); size_t q = vp::any<size_t>("position of an occurrence");
  best::span<const T> s{best::ptr<const T>(h), n}; best::span<const U> t{best::ptr<const U>(d), m};
  static bool occurs(Find* c, size_t i) { return !c->has_q || i < c->q || i - c->q >= c->m || c->h[i] == c->d[i - c->q]; }
  static bool occurs_d(Find* c, size_t i) { return !c->has_q || i >= c->m || c->h[c->q + i] == c->d[i]; }
  Find() {
    VP_REQUIRES(!has_q || (m <= n && q <= n - m));
    vp::forall<Find>(&Find::occurs, this, h);
    vp::forall<Find>(&Find::occurs_d, this, d);
    if (has_q && q < n) vp::inst(h, q);
  }
  bool match_at(size_t r, size_t j) { return h[r + j] == d[j]; }
};
template <typename T, typename U = T> struct Search : Find<T, U> {
  using F = Find<T, U>;
  using F::n, F::m, F::h, F::d, F::s, F::t, F::q, F::has_q;
  // A reported position is one where the needle occurs.
  void sound(const best::option<size_t>& r) {
    VP_REQUIRES(!has_q);
    if (r) {
      VP_ENSURES(m <= n && *r <= n - m);
      size_t j = vp::any<size_t>("j");
      if (j < m) VP_ENSURES(this->match_at(*r, j));
      vp_cover("found");
    } else vp_cover("absent");
  }
  // No occurrence is missed, and none is before (after) the reported one.
  void first(const best::option<size_t>& r) { VP_ENSURES(r.has_value() && *r <= q); }
  void last(const best::option<size_t>& r) { VP_ENSURES(r.has_value() && (m == 0 || *r >= q)); }
  static bool before_q(F* c, size_t i) { return i <= c->q; }
  void find_sound() { VP_REQUIRES(!has_q); vp_unroll(1); sound(s.find(t)); }
  void find_first() { VP_REQUIRES(has_q); vp_unroll(1); vp::hint_at<F>(&Search::before_q, this, h); first(s.find(t)); }
  // rfind
  static bool after_q(F* c, size_t i) { return i >= c->q + c->m; }   // the remaining prefix still holds the occurrence
  void rfind_sound() { VP_REQUIRES(!has_q); vp_unroll(1); sound(s.rfind(t)); }
  void rfind_last() { VP_REQUIRES(has_q); vp_unroll(1); vp::hint_at<F>(&Search::after_q, this, h); last(s.rfind(t)); }
  void contains_sound() { VP_REQUIRES(!has_q); vp_unroll(1); if (!s.contains(t)) { vp_cover("absent"); } }
  void contains() { VP_REQUIRES(has_q); vp_unroll(1); vp::hint_at<F>(&Search::before_q, this, h); VP_ENSURES(s.contains(t)); }
  // Prefixes and suffixes.
  void prefix_sound() {
    VP_REQUIRES(!has_q); vp_unroll(1);
    size_t j = vp::any<size_t>("j"); VP_REQUIRES(j < m);
    if (s.starts_with(t)) { VP_ENSURES(m <= n && this->match_at(0, j)); vp_cover("prefix"); }
    if (s.ends_with(t)) { VP_ENSURES(m <= n && this->match_at(n - m, j)); vp_cover("suffix"); }
  }
  void strip_sound() {
    VP_REQUIRES(!has_q); vp_unroll(1);
    size_t j = vp::any<size_t>("j"); VP_REQUIRES(j < m);
    if (vp::any<bool>("prefix")) {
      auto a = s.strip_prefix(t);
      if (a) { VP_ENSURES(m <= n && this->match_at(0, j)); VP_ENSURES(a->data().raw() == h + m && a->size() == n - m); vp_cover("prefix"); }
    } else {
      auto b = s.strip_suffix(t);
      if (b) { VP_ENSURES(m <= n && this->match_at(n - m, j)); VP_ENSURES(b->data().raw() == h && b->size() == n - m); vp_cover("suffix"); }
    }
  }
  void consume_sound() {
    VP_REQUIRES(!has_q); vp_unroll(1);
    size_t j = vp::any<size_t>("j"); VP_REQUIRES(j < m);
    bool front = vp::any<bool>("prefix");
    auto u = s;
    bool r = front ? u.consume_prefix(t) : u.consume_suffix(t);
    if (r) {
      VP_ENSURES(m <= n && this->match_at(front ? 0 : n - m, j));
      VP_ENSURES(u.data().raw() == (front ? h + m : h) && u.size() == n - m); vp_cover("consumed");
    } else {
      VP_ENSURES(u.data().raw() == h && u.size() == n); vp_cover("kept");
    }
  }
  void prefix_complete() {
    VP_REQUIRES(has_q && q == 0); vp_unroll(1);
    VP_ENSURES(s.starts_with(t));
    auto a = s.strip_prefix(t);
    VP_ENSURES(a.has_value() && a->data().raw() == h + m && a->size() == n - m);
    auto u = s;
    VP_ENSURES(u.consume_prefix(t) && u.data().raw() == h + m && u.size() == n - m);
  }
  void suffix_complete() {
    VP_REQUIRES(has_q && q == n - m); vp_unroll(1);
    VP_ENSURES(s.ends_with(t));
    auto a = s.strip_suffix(t);
    VP_ENSURES(a.has_value() && a->data().raw() == h && a->size() == n - m);
    auto u = s;
    VP_ENSURES(u.consume_suffix(t) && u.data().raw() == h && u.size() == n - m);
  }
  template <bool sound, typename Sp> void pieces(best::option<Sp> r, bool forwards) {
    if (r) {
      auto a = r->first(); auto b = r->second();
      VP_ENSURES(a.data().raw() == h && m <= n && a.size() <= n - m);
      VP_ENSURES(b.data().raw() == h + a.size() + m && b.size() == n - m - a.size());
      size_t j = vp::any<size_t>("j");
      if (!has_q && j < m) VP_ENSURES(this->match_at(a.size(), j));
      if (has_q) VP_ENSURES(forwards ? a.size() <= q : m == 0 || a.size() >= q);
      vp_cover("split");
    } else {
      VP_ENSURES(!has_q); if constexpr (sound) vp_cover("absent");
    }
  }
  void split_sound() { VP_REQUIRES(!has_q); vp_unroll(1); pieces<true>(s.split_once(t), true); }
  void split_first() { VP_REQUIRES(has_q); vp_unroll(1); vp::hint_at<F>(&Search::before_q, this, h); pieces<false>(s.split_once(t), true); }
  void rsplit_sound() { VP_REQUIRES(!has_q); vp_unroll(1); pieces<true>(s.rsplit_once(t), false); }
  void rsplit_last() { VP_REQUIRES(has_q); vp_unroll(1); vp::hint_at<F>(&Search::after_q, this, h); pieces<false>(s.rsplit_once(t), false); }
};
#define C(f, n, T, U) VP_CONTRACT(S02, f##_##n) { Search<T, U>{}.f(); }
#define X(f) C(f, u8, unsigned char, unsigned char) C(f, char, char, char)
#define Y(f) X(f) C(f, short, short, short) C(f, int, int, int) C(f, mixed, int, long)
Y(find_sound) C(find_sound, elem, Elem, Elem) Y(find_first)
X(contains_sound) X(contains) X(split_sound) X(split_first)
#define Z(f) C(f, u8, unsigned char, unsigned char) C(f, int, int, int) C(f, mixed, int, long)
Z(prefix_sound) Z(strip_sound) Z(consume_sound) Z(prefix_complete) Z(suffix_complete)
Z(rfind_sound) C(rfind_last, u8, unsigned char, unsigned char) C(rsplit_sound, int, int, int) C(rsplit_last, u8, unsigned char, unsigned char)
#undef X
#undef Y
#undef Z
#undef C
// The completeness half for wider elements needs an invariant out of the inference's reach: small sizes only.
template <typename T, typename U> void rlast_() {
  Find<T, U> f; VP_REQUIRES(f.has_q && f.n <= 4 && f.m <= 2);
  auto r = f.s.rfind(f.t);
  VP_ENSURES(r.has_value() && (f.m == 0 || *r >= f.q));
}
VP_CONTRACT(S02, rfind_last_int_bounded) { rlast_<int, int>(); }
VP_CONTRACT(S02, rfind_last_mixed_bounded) { rlast_<int, long>(); }
// Single elements and predicates.
template <typename T, typename K = T> struct Single {
  size_t n = vp::any<size_t>("size"), q = vp::any<size_t>("q");
  K k = vp::any<K>("key");
  T* h = vp::buffer<T>(n, "data");
  best::span<const T> s{best::ptr<const T>(h), n};
  bool has_q = vp::any<bool>("key occurs");      // at q
  static bool before_q(Single* c, size_t i) { return i <= c->q; }
  Single(bool front = true) {
    VP_REQUIRES(!has_q || (q < n && h[q] == k));
    if (has_q && front) vp::hint_at<Single>(&Single::before_q, this, h);
  }
  void check(const best::option<size_t>& r, bool first) {
    if (r) {
      VP_ENSURES(*r < n && h[*r] == k);
      if (has_q) VP_ENSURES(first ? *r <= q : *r >= q);
      vp_cover("found");
    } else { VP_ENSURES(!has_q); vp_cover("absent"); }
  }
  void find() { vp_unroll(1); check(s.find(k), true); }
  void rfind() { vp_unroll(1); check(s.rfind(k), false); }
  void find_if() { vp_unroll(1); check(s.find([&](const T& x) { return x == k; }), true); }
  void rfind_if() { vp_unroll(1); check(s.rfind([&](const T& x) { return x == k; }), false); }
  void has() {
    vp_unroll(1);
    bool any = vp::any<bool>("by predicate") ? s.contains([&](const T& x) { return x == k; }) : s.contains(k);
    VP_ENSURES(any || !has_q);
    if (any) vp_cover("found"); else vp_cover("absent");
  }
  template <typename Sp> void pieces(best::option<Sp> r, bool first) {
    if (r) {
      auto a = r->first(); auto b = r->second();
      VP_ENSURES(a.data().raw() == h && a.size() < n && h[a.size()] == k);
      VP_ENSURES(b.data().raw() == h + a.size() + 1 && b.size() == n - 1 - a.size());
      if (has_q) VP_ENSURES(first ? a.size() <= q : a.size() >= q);
      vp_cover("split");
    } else { VP_ENSURES(!has_q); vp_cover("absent"); }
  }
  void split_once() { vp_unroll(1); pieces(s.split_once(k), true); }
  void rsplit_once() { vp_unroll(1); pieces(s.rsplit_once(k), false); }
  void split_once_if() { vp_unroll(1); pieces(s.split_once([&](const T& x) { return x == k; }), true); }
  void rsplit_once_if() { vp_unroll(1); pieces(s.rsplit_once([&](const T& x) { return x == k; }), false); }
  // One step of the split iterator, and its end.
  template <typename It> void step(It&& it, bool front) {
    auto hint = it.size_hint();
    VP_ENSURES(hint.lower <= 1 && hint.upper.has_value() && *hint.upper == n + 1);
    auto r = front ? it.next() : it.next_back();
    VP_ENSURES(r.has_value());
    if (r->size() == n) {
      // no separator: everything, then nothing more
      VP_ENSURES(r->data().raw() == h);
      VP_ENSURES(!has_q);
      VP_ENSURES(it->rest().is_empty());
      auto e = it.size_hint(); VP_ENSURES(e.lower == 0 && e.upper.has_value() && *e.upper == 0);
      VP_ENSURES(front ? !it.next().has_value() : !it.next_back().has_value());
      VP_ENSURES(front ? !it.next_back().has_value() : !it.next().has_value());
      vp_cover("last");
    } else if (front) {
      size_t i = r->size();
      VP_ENSURES(i < n && r->data().raw() == h && h[i] == k);
      if (has_q) VP_ENSURES(i <= q);
      VP_ENSURES(it->rest().data().raw() == h + i + 1 && it->rest().size() == n - 1 - i);
      vp_cover("piece");
    } else {
      size_t i = n - 1 - r->size();
      VP_ENSURES(i < n && r->data().raw() == h + i + 1 && h[i] == k);
      if (has_q) VP_ENSURES(q <= i);
      VP_ENSURES(it->rest().data().raw() == h && it->rest().size() == i);
      vp_cover("piece");
    }
  }
  void split_iter() { vp_unroll(1); step(s.split([&](const T& x) { return x == k; }), true); }
  void split_iter_back() { vp_unroll(1); step(s.split([&](const T& x) { return x == k; }), false); }
  void split_iter_key() { vp_unroll(1); step(s.split(k), true); }
};
#define X(f) VP_CONTRACT(S02, one_##f##_u8) { Single<unsigned char>{}.f(); } VP_CONTRACT(S02, one_##f##_mixed) { Single<int, long>{}.f(); } VP_CONTRACT(S02, one_##f##_int) { Single<int>{}.f(); }
X(find) X(rfind) X(find_if) X(rfind_if) X(has) X(split_once) X(rsplit_once) X(split_once_if) X(rsplit_once_if) X(split_iter) X(split_iter_back) X(split_iter_key)
#undef X
VP_CONTRACT(S02, subarray) {
  size_t n = vp::any<size_t>("n"), a = vp::any<size_t>("a"), b = vp::any<size_t>("b"), c = vp::any<size_t>("c"), d = vp::any<size_t>("d");
  VP_REQUIRES(a <= b && b <= n && c <= d && d <= n);
  int* p = vp::buffer<int>(n, "data");
  best::span<int> x(p + a, b - a), y(p + c, d - c);
  VP_ENSURES(x.has_subarray(y) == (a <= c && d <= b));
}
#endif
