// S04 binary search, S05 in-place span operations.
#include "vp.h"
#include "open.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "best/memory/span.h"
#include "best/memory/span_sort.h"
#include "link.h"

#if defined(VP_PROP_S04)
// A span of any length, sorted by some key: [0, b) below the sought value, [b, e) equal to it, [e, n) above.
template <typename T> struct Sorted {
  size_t n = vp::any<size_t>("size"), b = vp::any<size_t>("first equal"), e = vp::any<size_t>("first above");
  T* h = vp::buffer<T>(n, "data");
  T k = vp::any<T>("sought");
  best::span<T> s{best::ptr<T>(h), n};
  static bool sorted(Sorted* c, size_t i) { return i < c->b ? c->h[i] < c->k : i < c->e ? c->h[i] == c->k : c->h[i] > c->k; }
  static bool below(Sorted* c, size_t i) { return i <= c->b; }
  static bool above(Sorted* c, size_t i) { return i >= c->e; }
  Sorted() {
    VP_REQUIRES(b <= e && e <= n);
    vp::forall<Sorted>(&Sorted::sorted, this, h);
    vp::hint<Sorted>(&Sorted::below, this); vp::hint<Sorted>(&Sorted::above, this);
    vp_unroll(1);
  }
  void check(const best::result<size_t, size_t>& r) {
    if (auto i = r.ok()) { VP_ENSURES(b <= *i && *i < e); vp_cover("found"); }
    else { VP_ENSURES(b == e && *r.err() == b); vp_cover("absent"); }
    VP_ENSURES(r.is_ok() == (b != e));
  }
  void value() { check(s.bisect(k)); }
  void key() { T k2 = k; check(s.bisect(k2, [](const T& x) { return x; })); }
  void compare() { check(s.bisect([&](const T& x) { return x < k ? best::partial_ord::less : x > k ? best::partial_ord::greater : best::partial_ord::equivalent; })); }
};
#define X(f) VP_CONTRACT(S04, f##_u8) { Sorted<unsigned char>{}.f(); } VP_CONTRACT(S04, f##_int) { Sorted<int>{}.f(); } VP_CONTRACT(S04, f##_u64) { Sorted<unsigned long>{}.f(); }
X(value) X(key) X(compare)
#undef X
// Any contents and any comparison results, including unordered ones: it terminates inside the span, and what it returns is
// a position in it.
VP_CONTRACT(S04, unsorted) {
  size_t n = vp::any<size_t>("size");
  unsigned char* h = vp::buffer<unsigned char>(n, "data");
  vp_unroll(1);
  best::span<unsigned char> s{best::ptr<unsigned char>(h), n};
  size_t q = vp::any<size_t>("q");
  auto r = s.bisect([&](const unsigned char& x) {
    return x == 0 ? best::partial_ord::less : x == 1 ? best::partial_ord::greater : x == 2 ? best::partial_ord::equivalent : best::partial_ord::unordered;
  });
  if (auto i = r.ok()) { VP_ENSURES(*i < n && h[*i] == 2); vp_cover("found"); }
  else { VP_ENSURES(*r.err() <= n); vp_cover("absent"); }
}
#endif

#if defined(VP_PROP_S05)
struct Odd { short a; char b[3]; };
inline bool operator==(const Odd& x, const Odd& y) { return x.a == y.a && x.b[2] == y.b[2]; }
template <typename T> struct Data {
  size_t n = vp::any<size_t>("size"), j = vp::any<size_t>("j");
  T* p = vp::buffer<T>(n, "data");
  best::span<T> s{best::ptr<T>(p), n};
  Data() { VP_REQUIRES(j < n); }
};
template <typename T> struct Rev : Data<T> {
  using Data<T>::n; using Data<T>::j; using Data<T>::p; using Data<T>::s;
  size_t k = n - 1 - j;
  T a = p[j], b = p[k];
  // After the first i swaps exactly the outer i elements on either side have changed places.
  static bool inv(Rev* c, size_t i) {
    bool done = c->j < i || c->k < i;
    return c->p[c->j] == (done ? c->b : c->a) && c->p[c->k] == (done ? c->a : c->b);
  }
  void reverse() {
    vp_unroll(1);
    vp::hint<Rev>(&Rev::inv, this);
    s.reverse();
    VP_ENSURES(p[j] == b && p[k] == a);
  }
  void swap() {
    size_t x = vp::any<size_t>("x"), y = vp::any<size_t>("y");
    T px = x < n ? p[x] : T(), py = y < n ? p[y] : T();
    vp_expect_crash(x >= n || y >= n);
    s.swap(x, y);
    vp_returned("swapping past the end crashes");
    VP_ENSURES(p[x] == py && p[y] == px);
    if (j != x && j != y) VP_ENSURES(p[j] == a);
  }
};
#define X(f) VP_CONTRACT(S05, f##_u8) { Rev<unsigned char>{}.f(); } VP_CONTRACT(S05, f##_int) { Rev<int>{}.f(); } VP_CONTRACT(S05, f##_long) { Rev<long>{}.f(); }
X(reverse) X(swap)
#undef X
// copy_from, emplace_from: element j of the destination.
template <typename T, typename U> struct Copy {
  size_t n = vp::any<size_t>("destination size"), m = vp::any<size_t>("source size"), j = vp::any<size_t>("j");
  T* p = vp::buffer<T>(n, "destination"); U* q = vp::buffer<U>(m, "source");
  T a = (VP_REQUIRES(j < n), p[j]);
  U b = j < m ? q[j] : U();
  static bool inv(Copy* c, size_t i) { return c->p[c->j] == (c->j < i && c->j < c->m ? T(c->b) : c->a); }
  void run(bool assign) {
    vp_unroll(1);
    vp::hint<Copy>(&Copy::inv, this);
    best::span<T> d(best::ptr<T>(p), n); best::span<U> s(best::ptr<U>(q), m);
    if (assign) d.copy_from(s); else d.emplace_from(s);
    VP_ENSURES(p[j] == (j < m ? T(b) : a));
    if (j < m) VP_ENSURES(q[j] == b);
  }
};
#define X(n, T, U) VP_CONTRACT(S05, copy_from_##n) { Copy<T, U>{}.run(true); } VP_CONTRACT(S05, emplace_from_##n) { Copy<T, U>{}.run(false); }
X(u8, unsigned char, unsigned char) X(int, int, int) X(widen, long, int) X(const, int, const int)
#undef X
// Moving a range inside the span, with and without overlap: trivially relocatable elements.
template <typename T> void shift() {
  Data<T> x; size_t dst = vp::any<size_t>("dst"), src = vp::any<size_t>("src"), count = vp::any<size_t>("count");
  VP_REQUIRES(src <= x.n && count <= x.n - src && dst <= x.n && count <= x.n - dst);
  T a = x.p[x.j];
  bool in_dst = x.j >= dst && x.j - dst < count, in_src = x.j >= src && x.j - src < count;
  T b = in_dst ? x.p[src + (x.j - dst)] : a;
  x.s.shift_within(best::unsafe("contract"), dst, src, count);
  if (in_dst) { VP_ENSURES(x.p[x.j] == b); vp_cover("moved"); }
  else if (!in_src) { VP_ENSURES(x.p[x.j] == a); vp_cover("kept"); }
}
VP_CONTRACT(S05, shift_within_u8) { shift<unsigned char>(); }
VP_CONTRACT(S05, shift_within_int) { shift<int>(); }
// Sorting is std::sort's and std::stable_sort's; what is checked (for small sizes) is that they are given the right range
// and order.
template <typename F> void sort_(F f, bool down) {
  size_t n = vp::any<size_t>("size"); VP_REQUIRES(n <= 3);
  int* p = vp::buffer<int>(n, "data"); int o[3] = {};
  for (size_t i = 0; i < n; ++i) o[i] = p[i];
  f(best::span<int>(best::ptr<int>(p), n));
  for (size_t i = 0; i + 1 < n; ++i) VP_ENSURES(down ? p[i] >= p[i + 1] : p[i] <= p[i + 1]);
  int v = vp::any<int>("v"); int was = 0, is = 0;
  for (size_t i = 0; i < n; ++i) { was += o[i] == v; is += p[i] == v; }
  VP_ENSURES(was == is);
}
VP_CONTRACT(S05, sort_by_bounded) { sort_([](best::span<int> s) { s.sort([](const int& a, const int& b) -> best::partial_ord { return b <=> a; }); }, true); }
VP_CONTRACT(S05, sort_key_bounded) { sort_([](best::span<int> s) { s.sort([](const int& a) { return ~a; }); }, true); }
#endif
