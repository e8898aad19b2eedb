// C01 decoding, C02 encoding, C03 validation, C04 runes.
#include "vp.h"
#include "utf_spec.h"
#include "link.h"
using best::rune; using best::span;
template <typename E> using Code = best::code<E>;
#define ENCODINGS(X) X(utf8) X(wtf8) X(utf16) X(utf32) X(ascii) X(latin1)

#ifdef VP_PROP_C01
template <typename E> void decode_() {
  size_t n = vp::any<size_t>("n");
  auto* p = vp::buffer<Code<E>>(n, "input");
  span<const Code<E>> s{best::ptr<const Code<E>>(p), n};
  uint32_t want = 0;
  size_t len = spec::enc<E>::dec(p, n, &want);
  auto r = rune::decode(&s, E{});
  VP_ENSURES(r.ok().has_value() == (len > 0));
  if (r.ok()) {
    vp_cover("decoded");
    VP_ENSURES(r.ok()->to_int() == want);
    VP_ENSURES(spec::enc<E>::repertoire(want));
    VP_ENSURES(s.data().raw() == p + len && s.size() == n - len);
  } else {
    vp_cover("rejected");
    VP_ENSURES(s.data().raw() == p && s.size() == n);
  }
}
template <typename E> void undecode_() {
  size_t n = vp::any<size_t>("n");
  auto* p = vp::buffer<Code<E>>(n, "input");
  span<const Code<E>> s{best::ptr<const Code<E>>(p), n};
  // the one length (if any) whose suffix is exactly one well-formed encoding
  uint32_t want = 0; size_t len = 0;
  for (size_t k = 1; k <= spec::max_units<E>; ++k) {
    uint32_t x = 0;
    if (k <= n && len == 0 && (size_t)spec::enc<E>::dec(p + (n - k), k, &x) == k) { len = k; want = x; }
  }
  auto r = rune::undecode(&s, E{});
  VP_ENSURES(r.ok().has_value() == (len > 0));
  if (r.ok()) {
    vp_cover("decoded");
    VP_ENSURES(r.ok()->to_int() == want);
    VP_ENSURES(s.data().raw() == p && s.size() == n - len);
  } else {
    vp_cover("rejected");
    VP_ENSURES(s.data().raw() == p && s.size() == n);
  }
}
template <typename E> void reencode_() {
  size_t n = vp::any<size_t>("n");
  auto* p = vp::buffer<Code<E>>(n, "input");
  span<const Code<E>> s{best::ptr<const Code<E>>(p), n};
  auto r = rune::decode(&s, E{});
  if (!r.ok()) return;
  Code<E> out[4];
  auto e = r.ok()->encode(span<Code<E>>(out), E{});
  VP_ENSURES(e.ok().has_value());
  VP_ENSURES(e.ok()->size() == n - s.size());
  for (size_t i = 0; i < 4; ++i) if (i < n - s.size()) VP_ENSURES(out[i] == p[i]);
  vp_cover("reencoded");
}
#define X(E) VP_CONTRACT(C01, decode_##E) { decode_<best::E>(); } VP_CONTRACT(C01, undecode_##E) { undecode_<best::E>(); } VP_CONTRACT(C01, reencode_##E) { reencode_<best::E>(); }
ENCODINGS(X)
#undef X
#endif

#ifdef VP_PROP_C02
template <typename E> void encode_() {
  uint32_t v = vp::any<uint32_t>("rune");
  auto o = rune::from_int_allow_surrogates(v);
  VP_REQUIRES(o.has_value());
  rune r = *o;
  size_t n = vp::any<size_t>("n");
  auto* p = vp::buffer<Code<E>>(n, "output");
  size_t k = vp::any<size_t>("frame");   // an arbitrary unit, to observe that nothing else is written
  VP_REQUIRES(k < n);
  Code<E> before = p[k];
  Code<E> want[4] = {};
  bool rep = spec::enc<E>::repertoire(v);
  size_t len = rep ? spec::enc<E>::encode(v, want) : 0;
  span<Code<E>> s{best::ptr<Code<E>>(p), n};
  auto e = r.encode(&s, E{});
  VP_ENSURES(e.ok().has_value() == (rep && len <= n));
  if (e.ok()) {
    vp_cover("written");
    VP_ENSURES(s.data().raw() == p + len && s.size() == n - len);
    VP_ENSURES(e.ok()->data().raw() == p && e.ok()->size() == len);
    for (size_t i = 0; i < 4; ++i) if (i < len) VP_ENSURES(p[i] == want[i]);
    if (k >= len) VP_ENSURES(p[k] == before);
    // forward and backward decoding give the rune back
    span<const Code<E>> f{best::ptr<const Code<E>>(p), n};
    auto d = rune::decode(&f, E{});
    VP_ENSURES(d.ok().has_value()); VP_ENSURES(d.ok()->to_int() == v && f.size() == n - len);
    span<const Code<E>> g{best::ptr<const Code<E>>(p), len};
    auto u = rune::undecode(&g, E{});
    VP_ENSURES(u.ok().has_value()); VP_ENSURES(u.ok()->to_int() == v && g.size() == 0);
  } else {
    VP_ENSURES(s.data().raw() == p && s.size() == n);
    VP_ENSURES(p[k] == before);
    VP_ENSURES((*e.err() == best::encoding_error::Invalid) == !rep);
  }
}
template <typename E> void size_() {
  uint32_t v = vp::any<uint32_t>("rune");
  auto o = rune::from_int_allow_surrogates(v);
  VP_REQUIRES(o.has_value());
  Code<E> want[4] = {};
  bool rep = spec::enc<E>::repertoire(v);
  auto sz = o->size(E{});
  VP_ENSURES(sz.ok().has_value() == rep);
  if (rep) VP_ENSURES(*sz.ok() == (size_t)spec::enc<E>::encode(v, want));
}
#define X(E) VP_CONTRACT(C02, encode_##E) { encode_<best::E>(); } VP_CONTRACT(C02, size_##E) { size_<best::E>(); }
ENCODINGS(X)
#undef X
#endif

#ifdef VP_PROP_C03
// Ghost table: ok[i] says whether input[i..n) is a concatenation of well-formed encodings (defined by recursion from the end).
template <typename E> struct Table {
  const Code<E>* p; size_t n; uint8_t* ok;
  static bool step(Table* t, size_t i) {
    if (i > t->n) return true;
    if (i == t->n) return t->ok[i] == 1;
    uint32_t r = 0;
    size_t len = spec::enc<E>::dec(t->p + i, t->n - i, &r);
    if (len == 0) return t->ok[i] == 0;
    return t->ok[i] == t->ok[i + len];
  }
  static bool inv(Table* t, size_t v) { return v <= t->n && t->ok[v] == t->ok[0]; }
};
template <typename E> void validate_() {
  size_t n = vp::any<size_t>("n");
  Table<E> t;
  t.n = n; t.p = vp::buffer<Code<E>>(n, "input");
  VP_REQUIRES(n < SIZE_MAX);
  t.ok = vp::buffer<uint8_t>(n + 1, "ghost");
#ifdef VP_NATIVE
  for (size_t i = n + 1; i-- > 0;) { t.ok[i] = 1; if (!Table<E>::step(&t, i)) t.ok[i] = 0; }
#endif
  vp::forall<Table<E>>(&Table<E>::step, &t, t.ok);
  vp::hint<Table<E>>(&Table<E>::inv, &t, sizeof(Code<E>));
  span<const Code<E>> s{best::ptr<const Code<E>>(t.p), n};
  bool r = rune::validate(s, E{});
  if (r) vp_cover("accepted"); else if constexpr (!std::is_same_v<E, best::latin1>) vp_cover("rejected");
  VP_ENSURES(r == (t.ok[0] == 1));
}
#define X(E) VP_CONTRACT(C03, validate_##E) { validate_<best::E>(); }
ENCODINGS(X)
#undef X
template <typename E> void boundary_() {
  size_t n = vp::any<size_t>("n"), i = vp::any<size_t>("i");
  auto* p = vp::buffer<Code<E>>(n, "input");
  span<const Code<E>> s{best::ptr<const Code<E>>(p), n};
  bool b = rune::is_boundary(s, i, E{});
  if (i > n) VP_ENSURES(!b);
  else if (i == n) VP_ENSURES(b);
  else if (sizeof(Code<E>) == 1 && spec::max_units<E> > 1) VP_ENSURES(b == !spec::cont(uint8_t(p[i])));
  else if (sizeof(Code<E>) == 2) VP_ENSURES(b == ((p[i] & 0xfc00) != 0xdc00));
  else VP_ENSURES(b);
}
#define X(E) VP_CONTRACT(C03, boundary_##E) { boundary_<best::E>(); }
ENCODINGS(X)
#undef X
#endif

#ifdef VP_PROP_C04
VP_CONTRACT(C04, from_int) {
  uint32_t v = vp::any<uint32_t>("v");
  auto a = rune::from_int(v), b = rune::from_int(int32_t(v));
  auto c = rune::from_int_allow_surrogates(v), d = rune::from_int_allow_surrogates(int32_t(v));
  VP_ENSURES(a.has_value() == spec::scalar(v) && b.has_value() == spec::scalar(v));
  VP_ENSURES(c.has_value() == (v < 0x110000) && d.has_value() == (v < 0x110000));
  if (a) VP_ENSURES(a->to_int() == v && b->to_int() == v);
  if (c) VP_ENSURES(c->to_int() == v && d->to_int() == v && uint32_t(*c) == v);
}
static rune anyrune() { uint32_t v = vp::any<uint32_t>("v"); auto o = rune::from_int_allow_surrogates(v); VP_REQUIRES(o.has_value()); return *o; }
VP_CONTRACT(C04, classes) {
  rune r = anyrune(); uint32_t v = r.to_int();
  auto in = [v](uint32_t a, uint32_t b) { return v >= a && v <= b; };
  VP_ENSURES(r.is_ascii() == in(0, 0x7f));
  VP_ENSURES(r.is_ascii_lower() == in('a', 'z')); VP_ENSURES(r.is_ascii_upper() == in('A', 'Z'));
  VP_ENSURES(r.is_ascii_digit() == in('0', '9'));
  VP_ENSURES(r.is_ascii_alpha() == (in('a', 'z') || in('A', 'Z')));
  VP_ENSURES(r.is_ascii_alnum() == (in('a', 'z') || in('A', 'Z') || in('0', '9')));
  VP_ENSURES(r.is_ascii_hex() == (in('a', 'f') || in('A', 'F') || in('0', '9')));
  VP_ENSURES(r.is_ascii_control() == (v < 0x20 || v == 0x7f));
  VP_ENSURES(r.is_ascii_punct() == (in(0x21, 0x2f) || in(0x3a, 0x40) || in(0x5b, 0x60) || in(0x7b, 0x7e)));
  VP_ENSURES(r.is_ascii_space() == (v == 0x20 || v == 9 || v == 10 || v == 12 || v == 13));
  VP_ENSURES(r.is_unpaired_surrogate() == in(0xd800, 0xdfff));
  VP_ENSURES(r.is_high_surrogate() == in(0xd800, 0xdbff)); VP_ENSURES(r.is_low_surrogate() == in(0xdc00, 0xdfff));
}
VP_CONTRACT(C04, casing) {
  rune r = anyrune(); uint32_t v = r.to_int();
  VP_ENSURES(r.to_ascii_lower().to_int() == (v >= 'A' && v <= 'Z' ? v + 32 : v));
  VP_ENSURES(r.to_ascii_upper().to_int() == (v >= 'a' && v <= 'z' ? v - 32 : v));
}
static uint32_t digit(uint32_t v) {  // value of a digit, or 99
  return v >= '0' && v <= '9' ? v - '0' : v >= 'a' && v <= 'z' ? v - 'a' + 10 : v >= 'A' && v <= 'Z' ? v - 'A' + 10 : 99;
}
VP_CONTRACT(C04, to_digit) {
  rune r = anyrune(); uint32_t radix = vp::any<uint32_t>("radix");
  vp_expect_crash(radix > 36);
  auto d = r.to_digit(radix);
  vp_returned("a radix above 36 crashes");
  VP_ENSURES(d.has_value() == (digit(r.to_int()) < radix));
  if (d) { VP_ENSURES(*d == digit(r.to_int())); vp_cover("digit"); }
  VP_ENSURES(r.is_digit(radix) == d.has_value());
}
VP_CONTRACT(C04, from_digit) {
  uint32_t num = vp::any<uint32_t>("num"), radix = vp::any<uint32_t>("radix");
  vp_expect_crash(radix > 36);
  auto r = rune::from_digit(num, radix);
  vp_returned("a radix above 36 crashes");
  VP_ENSURES(r.has_value() == (num < radix));
  if (r) {
    VP_ENSURES(r->to_int() == (num < 10 ? '0' + num : 'a' + num - 10));
    auto back = r->to_digit(radix);
    VP_ENSURES(back.has_value() && *back == num);
    vp_cover("digit");
  }
}
VP_CONTRACT(C04, defaults) {
  rune r = anyrune(); uint32_t num = vp::any<uint32_t>("num");
  auto d = r.to_digit(); VP_ENSURES(d.has_value() == (digit(r.to_int()) < 10));
  auto f = rune::from_digit(num); VP_ENSURES(f.has_value() == (num < 10));
  VP_ENSURES(rune::Replacement.to_int() == 0xfffd);
}
#endif
