// Contracts for best/math/conv.h: integer parsing.
#include "best/math/conv.h"
#include "best/text/format.h"
#include "vp.h"
#include "link.h"
#include "utf_stub.h"
#if defined(VP_PROP_M04)
namespace {
// The digit a code unit denotes, or 99. Digits are single code units in every encoding, and code units of other runes never look like one.
constexpr uint32_t digit(uint32_t v) { return v >= '0' && v <= '9' ? v - '0' : v >= 'a' && v <= 'z' ? v - 'a' + 10 : v >= 'A' && v <= 'Z' ? v - 'A' + 10 : 99; }
// The contract of rune::to_digit (proved as C04).
constexpr uint64_t real_digit(uint64_t v) { return digit(uint32_t(v)); }
uint32_t opaque_digit(uint32_t v) { return uint32_t(vp_opaque(1, 8, v, &real_digit)) | (0u - (v >= 0x80)); }
struct Digit {
  static best::option<uint32_t> to_digit(const best::rune* c, uint32_t r) {
    if (r > 36) best::crash_internal::crash("radix");
    uint32_t x = opaque_digit(c->to_int());
    if (x >= r) return best::none;
    return uint32_t(x);
  }
};
// A weakening of the contract of rune::decode (proved as C01): which units make up a rune beyond ASCII does not matter here.
template <typename E> struct Decode {
  using code = best::code<E>; using span = best::span<const code>; using C = spec::Callee<E>; using U = std::make_unsigned_t<code>;
  static typename C::result decode(span* in, const E&) {
    size_t n = in->size(); if (n == 0) return best::encoding_error::OutOfBounds;
    U u = *in->data(); if (u < 0x80) { *in = span(in->data() + 1, n - 1); return C::rune(u); }
    if (vp_pick(1)) return C::error();
    uint32_t k = vp_pick(32), r = vp_pick(32); VP_REQUIRES(k > 0 && k <= spec::max_units<E> && k <= n && r >= 0x80 && r < 0x110000 && U(*(in->data() + (k - 1))) >= 0x80);
    *in = span(in->data() + k, n - k); return C::rune(r);
  }
};
// Ghost tables: val[i] is the (wrapped) value of the digits in input[from..i) with the sign applied; ok[i] says that input[i..n) are all
// digits and that adding them to val[i] one by one never leaves the type. (Values move away from zero, so this is "the whole value fits".)
template <typename E, typename Int> struct Value {
  using U = std::make_unsigned_t<best::code<E>>;
  const best::code<E>* p; size_t n, from; uint32_t radix; bool neg; Int* val; uint8_t* ok;
  bool append(size_t i, Int* r) const {
    uint32_t d = opaque_digit(U(p[i]));
    Int m = 0; bool over = __builtin_mul_overflow(val[i], Int(radix), &m);
    over |= neg ? __builtin_sub_overflow(m, Int(d), r) : __builtin_add_overflow(m, Int(d), r);
    return d < radix && !over;
  }
  static bool value(Value* t, size_t i) {
    if (i < t->from || i > t->n) return true;
    if (i == t->from) return t->val[i] == 0;
    Int r = 0; t->append(i - 1, &r);
    return t->val[i] == r;
  }
  static bool fits(Value* t, size_t i) {
    if (i < t->from || i > t->n) return true;
    if (i == t->n) return t->ok[i] == 1;
    Int r = 0;
    return t->ok[i] == (t->append(i, &r) ? t->ok[i + 1] : 0);
  }
  // Parsing has consumed input[from..v); the last rune read is w, and the value before it is w.
  static bool at(Value* t, size_t v) { return v > t->from && v <= t->n && t->ok[v - 1] == t->ok[t->from]; }
  static bool sum(Value* t, size_t v, size_t w) { return v > t->from && v <= t->n && (U(t->p[v - 1]) >= 0x80 || t->val[v - 1] == Int(w)); }
  static bool rune(Value* t, size_t v, size_t w) { return v > t->from && v <= t->n && (U(t->p[v - 1]) < 0x80 ? w == U(t->p[v - 1]) : w >= 0x80 && w < 0x110000); }
};
// One proof per kind of sign and for short and long strings (a case split).
enum sign { None, Plus, Minus };
template <typename E, typename Int, uint32_t R, sign Sign, bool Short> void parse() {
  using T = Value<E, Int>;
  size_t n = vp::any<size_t>("n"); uint32_t radix = R; VP_REQUIRES(n < SIZE_MAX / 8);
  T t; t.n = n; t.radix = radix; t.p = vp::buffer<best::code<E>>(n, "input");
  VP_REQUIRES((Sign == None) == (n == 0 || (t.p[0] != '-' && t.p[0] != '+'))); VP_REQUIRES((Sign == Minus) == (n > 0 && t.p[0] == '-'));
  t.neg = Sign == Minus; t.from = Sign != None;
  constexpr size_t few = R > 16 ? 2 : 2 * sizeof(Int) - std::is_signed_v<Int>;
  VP_REQUIRES(Short == (n <= t.from + few));
  t.val = vp::buffer<Int>(n + 1, "values"); t.ok = vp::buffer<uint8_t>(n + 1, "fits");
#ifdef VP_NATIVE
  t.val[t.from] = 0; t.ok[n] = 1;
  for (size_t i = t.from; i < n; ++i) t.append(i, &t.val[i + 1]);
  for (size_t i = n; i-- > t.from;) { Int r; t.ok[i] = t.append(i, &r) && t.ok[i + 1]; }
#endif
  vp::forall<T>(&T::value, &t, t.val); vp::forall<T>(&T::fits, &t, t.ok);
  if (Short) vp_unroll(few + 5);
  else { vp::hint_at<T>(&T::at, &t, t.p); vp::hint2<T>(&T::sum, &t, t.p); vp::hint2<T>(&T::rune, &t, t.p); vp_cut("atoi"); }
 
  using D = Decode<E>; using F = typename D::C::result(typename D::span*, const E&); VP_USE_CONTRACT(F, &best::rune::decode<E>, &D::decode); VP_USE_SYMBOL("_ZNK4best4rune8to_digitEj", &Digit::to_digit); vp::inst(t.val, t.from); vp::inst(t.val, t.from + 1); vp::inst(t.val, t.from + 2); vp::inst(t.ok, n);
  if constexpr (Short) [&]<size_t... i>(std::index_sequence<i...>) { ((vp::inst(t.val, t.from + i), vp::inst(t.ok, t.from + i)), ...); }(std::make_index_sequence<few + 2>());
  best::pretext<E> s(best::span<const best::code<E>>(best::ptr<const best::code<E>>(t.p), n));
  auto r = best::atoi<Int>(s, radix);
  bool want = n > t.from && t.ok[t.from] == 1;
  VP_ENSURES(r.is_ok() == want);
  if (want) { VP_ENSURES(*r.ok() == t.val[n]); vp_cover("value"); } else vp_cover("error");
}
}
#define Y(n, E, Int, R, S, L) VP_CONTRACT(M04, n##_##R##_##S##_##L) { parse<best::E, Int, R, S, L>(); }
#define X(n, E, Int, R) Y(n, E, Int, R, None, true) Y(n, E, Int, R, Plus, true) Y(n, E, Int, R, Minus, true) Y(n, E, Int, R, None, false) Y(n, E, Int, R, Plus, false) Y(n, E, Int, R, Minus, false)
X(utf8_int, utf8, int, 10)
X(utf8_int, utf8, int, 16)
X(utf8_int, utf8, int, 36)
X(utf8_u8, utf8, unsigned char, 10)
X(utf8_u8, utf8, unsigned char, 16)
X(utf8_u8, utf8, unsigned char, 17)
X(utf8_u8, utf8, unsigned char, 2)
X(utf8_i8, utf8, signed char, 16)
X(utf32_u8, utf32, unsigned char, 10)
#endif
