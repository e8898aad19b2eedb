// Specification of the encodings, written from the Unicode standard (Table 3-7, D91, D90) and ISO 646 / 8859-1; independent of the code.
#ifndef UTF_SPEC_H_
#define UTF_SPEC_H_
#include <stddef.h>
#include <stdint.h>
#include "best/text/ascii.h"
#include "best/text/rune.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/utf8.h"
namespace spec {
inline bool scalar(uint32_t r) { return (r < 0xd800) | ((r > 0xdfff) & (r < 0x110000)); }
inline bool cont(uint8_t c) { return (c & 0xc0) == 0x80; }
// Length of the well-formed encoding at the front of p[0..n), or 0; *r is the rune.
inline int dec8(const char* p, size_t n, bool surr, uint32_t* r) {
  if (n == 0) return 0;
  uint32_t b0 = uint8_t(p[0]);
  if (b0 <= 0x7f) { *r = b0; return 1; }
  if (b0 < 0xc2 || b0 > 0xf4) return 0;
  if (n < 2) return 0;
  uint32_t b1 = uint8_t(p[1]);
  if (!cont(b1)) return 0;
  if (b0 <= 0xdf) { *r = (b0 & 0x1f) << 6 | (b1 & 0x3f); return 2; }
  if (b0 == 0xe0 && b1 < 0xa0) return 0;
  if (b0 == 0xed && b1 > 0x9f && !surr) return 0;
  if (b0 == 0xf0 && b1 < 0x90) return 0;
  if (b0 == 0xf4 && b1 > 0x8f) return 0;
  if (n < 3) return 0;
  uint32_t b2 = uint8_t(p[2]);
  if (!cont(b2)) return 0;
  if (b0 <= 0xef) { *r = (b0 & 0xf) << 12 | (b1 & 0x3f) << 6 | (b2 & 0x3f); return 3; }
  if (n < 4) return 0;
  uint32_t b3 = uint8_t(p[3]);
  if (!cont(b3)) return 0;
  *r = (b0 & 7) << 18 | (b1 & 0x3f) << 12 | (b2 & 0x3f) << 6 | (b3 & 0x3f);
  return 4;
}
// Standard encoding of r (any value below 0x110000) in out; returns the number of units.
inline int enc8(uint32_t r, char* o) {
  if (r < 0x80) { o[0] = char(r); return 1; }
  if (r < 0x800) { o[0] = char(0xc0 | r >> 6); o[1] = char(0x80 | (r & 0x3f)); return 2; }
  if (r < 0x10000) { o[0] = char(0xe0 | r >> 12); o[1] = char(0x80 | ((r >> 6) & 0x3f)); o[2] = char(0x80 | (r & 0x3f)); return 3; }
  o[0] = char(0xf0 | r >> 18); o[1] = char(0x80 | ((r >> 12) & 0x3f)); o[2] = char(0x80 | ((r >> 6) & 0x3f)); o[3] = char(0x80 | (r & 0x3f));
  return 4;
}
template <typename E> struct enc;
template <> struct enc<best::utf8> {
  static bool repertoire(uint32_t r) { return scalar(r); }
  static int dec(const char* p, size_t n, uint32_t* r) { return dec8(p, n, false, r); }
  static int encode(uint32_t r, char* o) { return enc8(r, o); }
};
template <> struct enc<best::wtf8> {
  static bool repertoire(uint32_t r) { return r < 0x110000; }
  static int dec(const char* p, size_t n, uint32_t* r) { return dec8(p, n, true, r); }
  static int encode(uint32_t r, char* o) { return enc8(r, o); }
};
template <> struct enc<best::utf16> {
  static bool repertoire(uint32_t r) { return scalar(r); }
  static int dec(const char16_t* p, size_t n, uint32_t* r) {
    if (n == 0) return 0;
    uint32_t a = p[0];
    if (a < 0xd800 || a > 0xdfff) { *r = a; return 1; }
    if (a > 0xdbff || n < 2) return 0;
    uint32_t b = p[1];
    if (b < 0xdc00 || b > 0xdfff) return 0;
    *r = 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00);
    return 2;
  }
  static int encode(uint32_t r, char16_t* o) {
    if (r < 0x10000) { o[0] = char16_t(r); return 1; }
    o[0] = char16_t(0xd800 + ((r - 0x10000) >> 10)); o[1] = char16_t(0xdc00 + ((r - 0x10000) & 0x3ff));
    return 2;
  }
};
template <> struct enc<best::utf32> {
  static bool repertoire(uint32_t r) { return scalar(r); }
  static int dec(const char32_t* p, size_t n, uint32_t* r) { if (n == 0 || !scalar(p[0])) return 0; *r = p[0]; return 1; }
  static int encode(uint32_t r, char32_t* o) { o[0] = r; return 1; }
};
template <> struct enc<best::ascii> {
  static bool repertoire(uint32_t r) { return r < 0x80; }
  static int dec(const char* p, size_t n, uint32_t* r) { if (n == 0 || uint8_t(p[0]) > 0x7f) return 0; *r = uint8_t(p[0]); return 1; }
  static int encode(uint32_t r, char* o) { o[0] = char(r); return 1; }
};
template <> struct enc<best::latin1> {
  static bool repertoire(uint32_t r) { return r < 0x100; }
  static int dec(const char* p, size_t n, uint32_t* r) { if (n == 0) return 0; *r = uint8_t(p[0]); return 1; }
  static int encode(uint32_t r, char* o) { o[0] = char(r); return 1; }
};
template <typename E> constexpr size_t max_units = E::About.max_codes_per_rune;
}  // namespace spec
#endif
