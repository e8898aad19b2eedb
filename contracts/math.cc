// M01 overflow arithmetic, M02 integer order and casts, M03 bits.
#include "vp.h"
#include <limits>
#include "best/math/overflow.h"
#include "best/math/int.h"
#include "best/math/bit.h"
#include "best/container/option.h"
using i8 = signed char; using u8 = unsigned char; using i16 = short; using u16 = unsigned short;
using i32 = int; using u32 = unsigned; using i64 = long; using u64 = unsigned long;
using W = __int128;
template <typename T> constexpr W lo = W(std::numeric_limits<T>::min());
template <typename T> constexpr W hi = W(std::numeric_limits<T>::max());
template <typename T> bool fits(W w) { return w >= lo<T> && w <= hi<T>; }
template <typename T> constexpr int bits = sizeof(T) * 8;

#ifdef VP_PROP_M01
// Operands are converted to the common type C (the widest; unsigned if either is) and the operation is performed there.
template <typename A, typename B, typename C>
struct pair_ {
  A a = vp::any<A>("a"); B b = vp::any<B>("b");
  bool oa = vp::any<bool>("oa"), ob = vp::any<bool>("ob");
  W wa = W(C(a)), wb = W(C(b));
  best::overflow<A> x{a, oa}; best::overflow<B> y{b, ob};
};
// Products: exact in twice the width.
template <typename C> using W2 = std::conditional_t<sizeof(C) < 8, std::conditional_t<std::is_signed_v<C>, long, unsigned long>, std::conditional_t<std::is_signed_v<C>, __int128, unsigned __int128>>;
template <typename C> W2<C> prod(C a, C b) { return W2<C>(a) * W2<C>(b); }
template <typename C> bool pfits(W2<C> w) { return w >= W2<C>(std::numeric_limits<C>::min()) && w <= W2<C>(std::numeric_limits<C>::max()); }
template <typename C> void res(best::overflow<C> r, C w, bool fit, bool prior) {
  VP_ENSURES(r.value == w);
  VP_ENSURES(r.overflowed == (prior || !fit));
  VP_ENSURES(r.wrap() == w);
  auto k = r.checked();
  VP_ENSURES(k.has_value() == !r.overflowed);
  if (k.has_value()) VP_ENSURES(*k == w);
  vp_expect_crash(r.overflowed);
  C s = r.strict();
  vp_returned("strict() returns only without overflow");
  VP_ENSURES(s == w);
}
#define ARITH(n, A, B, C)                                                                             \
  VP_CONTRACT(M01, add_##n) { pair_<A, B, C> p; auto r = p.x + p.y; static_assert(best::same<decltype(r), best::overflow<C>>); \
    res<C>(r, C(p.wa + p.wb), fits<C>(p.wa + p.wb), p.oa || p.ob); }                                                           \
  VP_CONTRACT(M01, sub_##n) { pair_<A, B, C> p; res<C>(p.x - p.y, C(p.wa - p.wb), fits<C>(p.wa - p.wb), p.oa || p.ob); }       \
  VP_CONTRACT(M01, mul_##n) { pair_<A, B, C> p; auto w = prod<C>(C(p.a), C(p.b)); res<C>(p.x * p.y, C(w), pfits<C>(w), p.oa || p.ob); }
// &, |, ^, ~, <<, >>, unary - and / do not compile for types narrower than int (narrowing), so they have no behaviour there.
#define LOGIC(n, A, B, C)                                                                             \
  VP_CONTRACT(M01, logic_##n) { pair_<A, B, C> p; auto r1 = p.x & p.y, r2 = p.x | p.y, r3 = p.x ^ p.y; \
    VP_ENSURES(r1.value == (C(p.a) & C(p.b))); VP_ENSURES(r2.value == (C(p.a) | C(p.b))); VP_ENSURES(r3.value == (C(p.a) ^ C(p.b))); \
    VP_ENSURES(r1.overflowed == (p.oa || p.ob)); VP_ENSURES(r2.overflowed == (p.oa || p.ob)); VP_ENSURES(r3.overflowed == (p.oa || p.ob)); }
#define SAT(n, A, B, C)                                                                               \
  VP_CONTRACT(M01, sat_##n) { pair_<A, B, C> p;                                                       \
    auto clamp = [](W w) { return C(w < lo<C> ? lo<C> : w > hi<C> ? hi<C> : w); };                    \
    VP_ENSURES(best::saturating_add(p.a, p.b) == clamp(p.wa + p.wb));                                 \
    VP_ENSURES(best::saturating_sub(p.a, p.b) == clamp(p.wa - p.wb));                                 \
    /* an out-of-range product is below C exactly when the signs differ */                            \
    auto w = prod<C>(C(p.a), C(p.b)); bool negative = (p.wa < 0) != (p.wb < 0);                       \
    C e = pfits<C>(w) ? C(w) : negative ? C(lo<C>) : C(hi<C>);                                        \
    VP_ENSURES(best::saturating_mul(p.a, p.b) == e);                                                  \
    if constexpr (sizeof(C) <= 1) VP_ENSURES(e == clamp(p.wa * p.wb)); }
#define DIV(n, A, B, C)                                                                               \
  VP_CONTRACT(M01, div_##n) { pair_<A, B, C> p; C a = p.a, b = p.b;                                   \
    vp_expect_crash(b == 0);                                                                          \
    auto [q, r] = best::div(p.x, p.y);                                                                \
    vp_returned("division by zero crashes");                                                          \
    bool of = lo<C> < 0 && p.wa == lo<C> && p.wb == -1;                                               \
    VP_ENSURES(q.overflowed == (of || p.oa || p.ob)); VP_ENSURES(r.overflowed == (of || p.oa || p.ob)); \
    if (of) { VP_ENSURES(q.value == a); } else { VP_ENSURES(q.value == C(a / b)); VP_ENSURES(r.value == C(a % b)); vp_cover("divided"); } }  \
  VP_CONTRACT(M01, divplain_##n) { pair_<A, B, C> p; C a = p.a, b = p.b;                              \
    vp_expect_crash(b == 0);                                                                          \
    auto [q, r] = best::div(p.a, p.b);                                                                \
    vp_returned("division by zero crashes");                                                          \
    bool of = lo<C> < 0 && p.wa == lo<C> && p.wb == -1;                                               \
    VP_ENSURES(q.overflowed == of);                                                                   \
    if (!of) { VP_ENSURES(q.value == C(a / b)); VP_ENSURES(r.value == C(a % b)); } }                  \
  VP_CONTRACT(M01, ceildiv_##n) { pair_<A, B, C> p; C a = p.a, b = p.b;                               \
    vp_expect_crash(b == 0);                                                                          \
    auto q = best::ceildiv(p.x, p.y);                                                                 \
    vp_returned("division by zero crashes");                                                          \
    bool of = lo<C> < 0 && p.wa == lo<C> && p.wb == -1;                                               \
    VP_ENSURES(q.overflowed == (of || p.oa || p.ob));                                                 \
    if (of) VP_ENSURES(q.value == a);                                                                 \
    else { C e = a / b; if (a % b != 0 && (a < 0) == (b < 0)) e = e + 1; VP_ENSURES(q.value == e); vp_cover("ceil"); } }
// Mixed-width overflow / overflow is ambiguous (does not compile), so the operator forms are specified for equal types.
#define DIVOP(n, A)                                                                                   \
  VP_CONTRACT(M01, divop_##n) { pair_<A, A, A> p;                                                     \
    vp_expect_crash(p.b == 0);                                                                        \
    auto [q, r] = best::div(p.x, p.y); auto q2 = p.x / p.y; auto r2 = p.x % p.y;                      \
    vp_returned("division by zero crashes");                                                          \
    VP_ENSURES(q2.value == q.value && q2.overflowed == q.overflowed);                                 \
    VP_ENSURES(r2.value == r.value && r2.overflowed == r.overflowed); }
#define SHIFT(n, A, B)                                                                                \
  VP_CONTRACT(M01, shift_##n) { pair_<A, B, A> p;                                                     \
    bool of = W(p.b) < 0 || W(p.b) >= bits<A>;                                                        \
    int s = int(p.b & (bits<A> - 1));                                                                 \
    auto l = p.x << p.y; auto r = p.x >> p.y;                                                         \
    VP_ENSURES(l.value == A(std::make_unsigned_t<A>(p.a) << s)); VP_ENSURES(r.value == A(p.a >> s));  \
    VP_ENSURES(l.overflowed == (of || p.oa || p.ob)); VP_ENSURES(r.overflowed == (of || p.oa || p.ob)); }
#define UNARY(n, A)                                                                                   \
  VP_CONTRACT(M01, unary_##n) { A a = vp::any<A>("a"); bool o = vp::any<bool>("o"); best::overflow<A> x{a, o}; \
    auto m = -x; VP_ENSURES(m.value == A(-W(a))); VP_ENSURES(m.overflowed == (o || !fits<A>(-W(a)))); \
    auto c = ~x; VP_ENSURES(c.value == A(~a)); VP_ENSURES(c.overflowed == o);                         \
    auto i = +x; VP_ENSURES(i.value == a && i.overflowed == o); }
#define CONV(n, A, B)                                                                                 \
  VP_CONTRACT(M01, convert_##n) { A a = vp::any<A>("a"); bool o = vp::any<bool>("o");                 \
    best::overflow<B> y(best::overflow<A>(a, o));                                                     \
    VP_ENSURES(y.value == B(a)); VP_ENSURES(y.overflowed == (o || !fits<B>(W(a)))); }
#define ASSIGN(n, A, B, C)                                                                            \
  VP_CONTRACT(M01, assign_##n) { pair_<A, B, C> p; auto e = p.x + p.y; auto x = p.x; x += p.y;        \
    VP_ENSURES(x.value == A(e.value)); VP_ENSURES(x.overflowed == (e.overflowed || !fits<A>(W(e.value)))); \
    auto f = p.x - p.b; auto g = p.x; g -= p.b; VP_ENSURES(g.value == A(f.value) && g.overflowed == (f.overflowed || !fits<A>(W(f.value)))); \
    auto h = p.x * p.b; auto i = p.x; i *= p.y; VP_ENSURES(i.value == A(h.value) && (p.ob || i.overflowed == (h.overflowed || !fits<A>(W(h.value))))); }
#define ALL(n, A, B, C) ARITH(n, A, B, C) LOGIC(n, A, B, C) SAT(n, A, B, C) DIV(n, A, B, C)
ARITH(i8, i8, i8, i8) ARITH(u8, u8, u8, u8) ARITH(i16, i16, i16, i16) ARITH(u16, u16, u16, u16) ARITH(char_i32, char, i32, i32)
ARITH(i16_i32, i16, i32, i32) ARITH(u8_i32, u8, i32, u32) ARITH(i8_u8, i8, u8, u8)
SAT(i8, i8, i8, i8) SAT(u8, u8, u8, u8) SAT(i16, i16, i16, i16) SAT(u16, u16, u16, u16)
ALL(i32, i32, i32, i32) ALL(u32, u32, u32, u32) ALL(i64, i64, i64, i64) ALL(u64, u64, u64, u64)
ALL(i32_u32, i32, u32, u32) ALL(u32_i64, u32, i64, u64) ALL(u64_i32, u64, i32, u64) ALL(i32_i64, i32, i64, i64) ALL(u32_i32, u32, i32, u32)
DIVOP(i32, i32) DIVOP(u32, u32) DIVOP(i64, i64) DIVOP(u64, u64)
SHIFT(i32, i32, i32) SHIFT(u32, u32, u32) SHIFT(i64, i64, i64) SHIFT(u64, u64, u64) SHIFT(i32_u64, i32, u64) SHIFT(u64_i8, u64, i8) SHIFT(u32_i64, u32, i64)
UNARY(i32, i32) UNARY(u32, u32) UNARY(i64, i64) UNARY(u64, u64)
CONV(i32_u8, i32, u8) CONV(u32_i8, u32, i8) CONV(i64_i32, i64, i32) CONV(u64_i64, u64, i64) CONV(i8_u64, i8, u64) CONV(u16_i32, u16, i32)
ASSIGN(i32, i32, i32, i32) ASSIGN(u8_i32, u8, i32, u32) ASSIGN(i64_i32, i64, i32, i64) ASSIGN(u64, u64, u64, u64)
#endif

#ifdef VP_PROP_M02
template <typename O> int sgn(O o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
int sgn(W a, W b) { return a < b ? -1 : a > b ? 1 : 0; }
#define CMP(n, A, B)                                                                                  \
  VP_CONTRACT(M02, cmp_##n) { A a = vp::any<A>("a"); B b = vp::any<B>("b");                           \
    VP_ENSURES(sgn(best::int_cmp(a, b)) == sgn(W(a), W(b)));                                          \
    VP_ENSURES(sgn(best::signed_cmp(a, b)) == sgn(W(std::make_signed_t<A>(a)), W(std::make_signed_t<B>(b)))); \
    VP_ENSURES(sgn(best::unsigned_cmp(a, b)) == sgn(W(std::make_unsigned_t<A>(a)), W(std::make_unsigned_t<B>(b)))); \
    VP_ENSURES(best::int_fits<B>(a) == fits<B>(W(a)));                                                \
    auto c = best::checked_cast<B>(a);                                                                \
    VP_ENSURES(c.has_value() == fits<B>(W(a)));                                                       \
    if (c) VP_ENSURES(W(*c) == W(a));                                                                 \
    VP_ENSURES(W(best::min_of<A>) == lo<A> && W(best::max_of<A>) == hi<A>); }
#define ROWC(n, A) CMP(n##_i8, A, i8) CMP(n##_u8, A, u8) CMP(n##_i16, A, i16) CMP(n##_u16, A, u16) CMP(n##_i32, A, i32) CMP(n##_u32, A, u32) CMP(n##_i64, A, i64) CMP(n##_u64, A, u64)
ROWC(i8, i8) ROWC(u8, u8) ROWC(i16, i16) ROWC(u16, u16) ROWC(i32, i32) ROWC(u32, u32) ROWC(i64, i64) ROWC(u64, u64)
CMP(char_u32, char, u32) CMP(ll_ull, long long, unsigned long long)
#define MINMAX(n, A, B, D)                                                                            \
  VP_CONTRACT(M02, minmax_##n) { A a = vp::any<A>("a"); B b = vp::any<B>("b"); D d = vp::any<D>("d"); \
    W mn = W(a) < W(b) ? W(a) : W(b); W mx = W(a) < W(b) ? W(b) : W(a);                               \
    VP_ENSURES(W(best::min(a, b)) == mn); VP_ENSURES(W(best::max(a, b)) == mx);                       \
    mn = W(d) < mn ? W(d) : mn; mx = W(d) > mx ? W(d) : mx;                                           \
    VP_ENSURES(W(best::min(a, b, d)) == mn); VP_ENSURES(W(best::max(a, b, d)) == mx);                 \
    VP_ENSURES(W(best::min(a)) == W(a)); VP_ENSURES(W(best::max(d)) == W(d)); }
MINMAX(i8, i8, i8, i8) MINMAX(u8, u8, u8, u8) MINMAX(i32, i32, i32, i32) MINMAX(u32, u32, u32, u32) MINMAX(i64, i64, i64, i64) MINMAX(u64, u64, u64, u64)
MINMAX(mixs, i8, i64, i32) MINMAX(mixu, u8, u64, u32) MINMAX(mixs2, i64, i16, i8) MINMAX(mixu2, u16, u32, u8) MINMAX(mixu3, u32, u8, u64)
#endif

#ifdef VP_PROP_M03
template <typename T> int pop(T x) { int c = 0; for (int i = 0; i < bits<T>; ++i) c += (x >> i) & 1; return c; }
// count_zeros() does not compile for types narrower than int (popcount(~x) promotes to int), so it has no behaviour there.
template <typename T, typename S> void zeros_(S s, T x) { if constexpr (sizeof(T) >= 4) VP_ENSURES(best::count_zeros(s) == (uint32_t)pop<T>(~x)); }
#define BITS(n, S)                                                                                    \
  VP_CONTRACT(M03, count_##n) { S s = vp::any<S>("x"); using T = std::make_unsigned_t<S>; T x = s; vp_unroll(64); \
    VP_ENSURES(best::count_ones(s) == (uint32_t)pop<T>(x));                                          \
    zeros_<T>(s, x); }                                                                                \
  VP_CONTRACT(M03, scan_##n) { S s = vp::any<S>("x"); using T = std::make_unsigned_t<S>; T x = s;     \
    uint32_t lz = best::leading_zeros(s), lo_ = best::leading_ones(s), tz = best::trailing_zeros(s), to = best::trailing_ones(s); \
    auto lead = [](T x, uint32_t k) { return k <= bits<T> && (k == 0 || T(x >> (bits<T> - k)) == 0) && (k == bits<T> || (x >> (bits<T> - 1 - k)) & 1); }; \
    auto trail = [](T x, uint32_t k) { return k <= bits<T> && (k == bits<T> ? x == 0 : T(x & T((T(1) << k) - 1)) == 0 && ((x >> k) & 1)); }; \
    VP_ENSURES(lead(x, lz)); VP_ENSURES(lead(T(~x), lo_)); VP_ENSURES(trail(x, tz)); VP_ENSURES(trail(T(~x), to)); }  \
  VP_CONTRACT(M03, shift_##n) { S s = vp::any<S>("x"); using T = std::make_unsigned_t<S>; T x = s; uint32_t k = vp::any<uint32_t>("k"); \
    S l = best::shift_left(s, k), r = best::shift_right(s, k), a = best::shift_sign(s, k);            \
    VP_ENSURES(T(l) == (k >= bits<T> ? T(0) : T(x << k))); VP_ENSURES(T(r) == (k >= bits<T> ? T(0) : T(x >> k)));   \
    W w = W(std::make_signed_t<S>(s)) >> (k > 100 ? 100 : k);                                         \
    if constexpr (std::is_signed_v<S>) VP_ENSURES(a == S(w)); else if (k < bits<T>) VP_ENSURES(a == S(w)); }        \
  VP_CONTRACT(M03, rotate_##n) { S s = vp::any<S>("x"); using T = std::make_unsigned_t<S>; T x = s; uint32_t k = vp::any<uint32_t>("k"); uint32_t j = k % bits<T>; \
    T l = T(best::rotate_left(x, k)), r = T(best::rotate_right(x, k));                                \
    T e = j ? T(T(x << j) | T(x >> (bits<T> - j))) : x; T f = j ? T(T(x >> j) | T(x << (bits<T> - j))) : x;          \
    VP_ENSURES(l == e); VP_ENSURES(r == f); }
BITS(u8, u8) BITS(u16, u16) BITS(u32, u32) BITS(u64, u64) BITS(i8, i8) BITS(i16, i16) BITS(i32, i32) BITS(i64, i64)
#define POW2(n, T)                                                                                    \
  VP_CONTRACT(M03, pow2_##n) { T x = vp::any<T>("x");                                                 \
    VP_ENSURES(best::is_pow2(x) == (x != 0 && (x & (x - 1)) == 0));                                   \
    bool none = x > T(T(1) << (bits<T> - 1)) - 1; /* no power of two above x fits */                  \
    T m1 = best::next_pow2_minus1(x);                                                                 \
    VP_ENSURES(m1 >= x && (m1 & T(m1 + 1)) == 0 && (m1 == 0 || T(m1 >> 1) < x));                      \
    T w = best::wrapping_next_pow2(x);                                                                \
    VP_ENSURES(none ? w == 0 : W(w) == W(m1) + 1);                                                    \
    auto c = best::checked_next_pow2(x);                                                              \
    VP_ENSURES(c.has_value() == !none);                                                               \
    if (c) VP_ENSURES(W(*c) == W(m1) + 1);                                                            \
    VP_ENSURES(best::bits_for(x) == (x == 0 ? 0u : uint32_t(bits<T> - best::leading_zeros(x))));      \
    vp_expect_crash(none);                                                                            \
    T p = best::next_pow2(x);                                                                         \
    vp_returned("next_pow2 crashes when no power of two fits");                                       \
    VP_ENSURES(W(p) == W(m1) + 1); }
POW2(u8, u8) POW2(u16, u16) POW2(u32, u32) POW2(u64, u64)
#endif
