// S03 span equality and ordering.
#include "vp.h"
#include "open.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "best/memory/span.h"
#include "link.h"
using W = __int128;
// A type that is neither byte sized nor trivially comparable.
struct Odd {
  int a; char b[5];
  bool operator==(const Odd& o) const { return a == o.a; }
};
struct Wide { int a[4]; bool operator==(const Wide& o) const { return a[0] == o.a[0]; } };
struct Elem { int v; bool operator==(const Elem& o) const { return v == o.v; } };
// An arbitrary span over its own object of exactly that size.
template <typename T> struct S {
  size_t n = vp::any<size_t>("size");
  T* p = vp::buffer<T>(n, "data");
  best::span<T> s{p, n};
};
template <typename T, typename U> bool same(const best::span<T>& s, U* p, W n) { return s.data().raw() == p && W(s.size()) == n; }

#if defined(VP_PROP_S03)
// Two arrays and the (existing and unique) length p of their longest common prefix.
// Compared by a custom, reversed order.
struct Rev {
  int v;
  bool operator==(const Rev& o) const { return v == o.v; }
  std::strong_ordering operator<=>(const Rev& o) const { return o.v <=> v; }
};
template <typename T, typename U = T> struct Pair {
  size_t n = vp::any<size_t>("left size"), m = vp::any<size_t>("right size"), p = vp::any<size_t>("common prefix");
  T* h = vp::buffer<T>(n, "left");
  U* d = vp::buffer<U>(m, "right");
  best::span<const T> s{best::ptr<const T>(h), n}; best::span<const U> t{best::ptr<const U>(d), m};
  // Plain char stands for a byte.
  template <typename A, typename B> static auto conv(const A& a) {
    if constexpr (std::is_same_v<A, char> && std::is_integral_v<B> && sizeof(B) == 1) return (unsigned char)a;
    else if constexpr (std::is_same_v<B, char> && std::is_integral_v<A> && sizeof(A) == 1) return (unsigned char)a;
    else return a;
  }
  static auto left(const T& x) { return conv<T, U>(x); }
  static auto right(const U& x) { return conv<U, T>(x); }
  static bool common(Pair* c, size_t i) { return i >= c->p || left(c->h[i]) == right(c->d[i]); }
  static bool before_p(Pair* c, size_t i) { return i <= c->p; }
  size_t min() const { return n < m ? n : m; }
  Pair() {
    VP_REQUIRES(p <= min());
    vp::forall<Pair>(&Pair::common, this, h);
    vp::forall<Pair>(&Pair::common, this, d);
    VP_REQUIRES(p == min() || !(left(h[p]) == right(d[p])));
    vp::hint_at<Pair>(&Pair::before_p, this, h);
    vp_unroll(1);
  }
  void equal() {
    bool r = s == t;
    VP_ENSURES(r == (n == m && p == n));
    VP_ENSURES((s != t) == !r);
    if (r) vp_cover("equal"); else vp_cover("different");
  }
  void order() {
    auto r = s <=> t;
    if (p == min()) { VP_ENSURES((r < 0) == (n < m) && (r > 0) == (n > m) && (r == 0) == (n == m)); vp_cover("prefix"); }
    else {
      VP_ENSURES((r < 0) == (left(h[p]) < right(d[p])) && (r > 0) == (left(h[p]) > right(d[p])));
      VP_ENSURES(r != 0); vp_cover("difference");
    }
  }
};
#define X(f, n, T, U) VP_CONTRACT(S03, f##_##n) { Pair<T, U>{}.f(); }
#define Y(n, T, U) X(equal, n, T, U) X(order, n, T, U)
Y(u8, unsigned char, unsigned char) Y(char, char, char) Y(char_byte, char, unsigned char) Y(s8, signed char, signed char)
Y(s8_u8, signed char, unsigned char) Y(short, short, short) Y(short_ushort, short, unsigned short) Y(int, int, int) X(equal, int_unsigned, int, unsigned)
Y(u16, char16_t, char16_t) Y(int_long, int, long) Y(u64, unsigned long, unsigned long) Y(rev, Rev, Rev) X(equal, elem, Elem, Elem)
#undef X
#undef Y
// The same memory, fixed sizes, and spans of optional values.
VP_CONTRACT(S03, self) {
  size_t n = vp::any<size_t>("n"), a = vp::any<size_t>("a"), b = vp::any<size_t>("b"); VP_REQUIRES(a <= n && b <= n);
  int* p = vp::buffer<int>(n, "data");
  best::span<int> x(best::ptr<int>(p), a), y(best::ptr<int>(p), b);
  VP_ENSURES((x == y) == (a == b));
}
VP_CONTRACT(S03, fixed) {
  short* p = vp::buffer<short>(3, "a"); short* q = vp::buffer<short>(3, "b");
  best::span<short, 3> x(best::ptr<short>(p), 3), y(best::ptr<short>(q), 3);
  VP_ENSURES((x == y) == (p[0] == q[0] && p[1] == q[1] && p[2] == q[2]));
  auto r = x <=> y;
  int w = p[0] != q[0] ? (p[0] < q[0] ? -1 : 1) : p[1] != q[1] ? (p[1] < q[1] ? -1 : 1) : p[2] != q[2] ? (p[2] < q[2] ? -1 : 1) : 0;
  VP_ENSURES((r < 0) == (w < 0) && (r > 0) == (w > 0) && (r == 0) == (w == 0));
}
struct A1 { int a; }; struct B1 { int b; }; struct D1 : A1, B1 { int d; };
VP_CONTRACT(S03, pointers) {
  D1 o[2]; B1 z;
  D1* p[2] = {&o[vp::any<bool>("i")], &o[vp::any<bool>("j")]};
  B1* q[2] = {&o[vp::any<bool>("k")], vp::any<bool>("other") ? &z : (B1*)&o[1]};
  VP_ENSURES((best::span(p) == best::span(q)) == (p[0] == q[0] && p[1] == q[1]));
}
#endif
