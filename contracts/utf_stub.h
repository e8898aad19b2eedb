// The contracts of rune::decode and rune::undecode (proved for the real functions as C01), for use in proofs about their callers.
#ifndef UTF_STUB_H_
#define UTF_STUB_H_
#include "utf_spec.h"
#include "vp.h"
namespace spec {
template <typename E> struct Callee {
  using code = best::code<E>; using span = best::span<const code>; using result = best::result<best::rune, best::encoding_error>;
  const code* p; size_t n;
  static uint64_t front(Callee* c, size_t) { uint32_t r = 0; uint64_t len = enc<E>::dec(c->p, c->n, &r); return len << 32 | r; }
  static uint64_t back(Callee* c, size_t) {
    for (size_t k = 1; k <= max_units<E>; ++k) { uint32_t r = 0; if (k <= c->n && (size_t)enc<E>::dec(c->p + (c->n - k), k, &r) == k) return k << 32 | r; }
    return 0;
  }
  static result error() { return vp_pick(1) ? best::encoding_error::Invalid : best::encoding_error::OutOfBounds; }
  static best::rune rune(uint64_t x) { best::rune r; static_assert(sizeof r == 4); uint32_t v = uint32_t(x); __builtin_memcpy((void*)&r, &v, 4); return r; }
  using U = std::make_unsigned_t<code>;
  static result decode(span* in, const E&) {
    Callee c{in->data().raw(), in->size()};
    if (c.n > 0 && U(*c.p) < 0x80) { uint32_t v = U(*c.p); *in = span(in->data() + 1, c.n - 1); return rune(v); }  // (a case split only)
    uint64_t x = vp::pure<Callee>(&Callee::front, &c);
    if (x >> 32 == 0) return error();
    *in = span(in->data() + (x >> 32), in->size() - (x >> 32));
    return rune(x);
  }
  static result undecode(span* in, const E&) {
    Callee c{in->data().raw(), in->size()};
    if (c.n > 0 && U(c.p[c.n - 1]) < 0x80) { uint32_t v = U(c.p[c.n - 1]); *in = span(in->data(), c.n - 1); return rune(v); }
    uint64_t x = vp::pure<Callee>(&Callee::back, &c);
    if (x >> 32 == 0) return error();
    *in = span(in->data(), in->size() - (x >> 32));
    return rune(x);
  }
};
template <typename E> void use_decode_contracts() {
  using C = Callee<E>;
  using F = typename C::result(typename C::span*, const E&);
  VP_USE_CONTRACT(F, &best::rune::decode<E>, &C::decode);
  VP_USE_CONTRACT(F, &best::rune::undecode<E>, &C::undecode);
}
}  // namespace spec
#endif
