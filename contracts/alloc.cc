// L01: memory layouts and the default allocator.
#include "vp.h"
#include "open.h"
#include "best/memory/allocator.h"
#include "best/memory/layout.h"
#include "link.h"

#if defined(VP_PROP_L01)
namespace {
struct S3 { char c[3]; };
struct S24 { long a; int b; char c; };
struct alignas(64) A64 { char c[70]; };

template <typename T> void array() {
  size_t n = vp::any<size_t>("count");
  unsigned __int128 bytes = (unsigned __int128)n * sizeof(T);
  vp_expect_crash(bytes > size_t(-1) / 2);
  auto l = best::layout::array<T>(n);
  vp_returned("a size above max/2 crashes");
  VP_ENSURES(l.size() == (size_t)bytes && l.align() == alignof(T));
  VP_ENSURES(l.size() % l.align() == 0);
}
template <typename S, typename... M> void record() {
  auto l = best::layout::of_struct<M...>();
  VP_ENSURES(l.size() == sizeof(S) && l.align() == alignof(S));
  VP_ENSURES(l == best::layout::of<S>());
}
template <typename S, typename... M> void variant() {
  auto l = best::layout::of_union<M...>();
  VP_ENSURES(l.size() == sizeof(S) && l.align() == alignof(S));
  VP_ENSURES(l == best::layout::of<S>());
}
best::layout lay(size_t size, size_t align) {
  VP_REQUIRES(size % align == 0 && size <= size_t(1) << 37);
  return best::layout(best::unsafe("contract"), size, align);
}
constexpr size_t Aligns[] = {1, 2, 4, 8, 16, 32, 64, 4096};

// A block of the size and alignment asked for, every byte of it usable, that does not touch other blocks.
template <size_t align> void alloc(bool zero) {
  size_t size = vp::any<size_t>("size"), other = vp::any<size_t>("other size"), i = vp::any<size_t>("i"), j = vp::any<size_t>("j");
  auto l = lay(size, align), l2 = lay(other, 8);
  auto* q = (unsigned char*)best::malloc::alloc(l2).raw();
  unsigned char v = vp::any<unsigned char>("v");
  if (j < other) q[j] = v;
  auto* p = (unsigned char*)(zero ? best::malloc::zalloc(l) : best::malloc::alloc(l)).raw();
  VP_ENSURES(p != nullptr);
  VP_ENSURES((uintptr_t)p % align == 0);
  if (i < size) {
    if (zero) VP_ENSURES(p[i] == 0);
    p[i] = 7;
    VP_ENSURES(p[i] == 7);
    vp_cover("a byte of the block");
  }
  if (j < other) VP_ENSURES(q[j] == v);
  best::malloc::dealloc(p, l);
  if (j < other) { VP_ENSURES(q[j] == v); vp_cover("a byte of the other block"); }
  best::malloc::dealloc(q, l2);
  VP_ENSURES(vp_heap_live() == 0);
}
// The common prefix survives; the block has the new size and alignment and is freed with the new layout.
template <size_t from, size_t to> void realloc() {
  size_t old = vp::any<size_t>("old size"), size = vp::any<size_t>("new size"), i = vp::any<size_t>("i"), j = vp::any<size_t>("j");
  auto l = lay(old, from), l2 = lay(size, to);
  auto* p = (unsigned char*)best::malloc::alloc(l).raw();
  unsigned char v = vp::any<unsigned char>("v");
  if (j < old) p[j] = v;
  auto* q = (unsigned char*)best::malloc::realloc(p, l, l2).raw();
  VP_ENSURES(q != nullptr && (uintptr_t)q % to == 0);
  if (j < old && j < size) { VP_ENSURES(q[j] == v); vp_cover("kept byte"); }
  if (i < size) { q[i] = 7; VP_ENSURES(q[i] == 7); vp_cover("a byte of the new block"); }
  best::malloc::dealloc(q, l2);
  VP_ENSURES(vp_heap_live() == 0);
}
}  // namespace
#define X(n, T) VP_CONTRACT(L01, array_##n) { array<T>(); }
X(u8, unsigned char) X(short, short) X(int, int) X(long, long) X(ptr, void*) X(s3, S3) X(s24, S24) X(a64, A64)
#undef X
VP_CONTRACT(L01, array_ref) {
  size_t n = vp::any<size_t>("count");
  vp_expect_crash(n > size_t(-1) / 16);
  auto l = best::layout::array<int&>(n);
  vp_returned("too many references crash");
  VP_ENSURES(l.size() == n * 8 && l.align() == 8);
}
VP_CONTRACT(L01, records) {
  struct A { char a; int b; }; record<A, char, int>();
  struct B { char a; long b; char c; }; record<B, char, long, char>();
  struct C { short a; char b; }; record<C, short, char>();
  struct D { S3 a; short b; A64 c; char d; }; record<D, S3, short, A64, char>();
  struct E { char a[5]; int* b; char c[9]; }; record<E, char[5], int*, char[9]>();
  struct F { long double a; char b; }; record<F, long double, char>();
  struct G { char x; }; record<G>();
  union U { char a[5]; int b; }; variant<U, char[5], int>();
  union V { S3 a; A64 b; long c; }; variant<V, S3, A64, long>();
  union W { short a; char b[3]; }; variant<W, short, char[3]>();
}
VP_CONTRACT(L01, fits_in) {
  size_t a = vp::any<size_t>("a"), b = vp::any<size_t>("b"), c = vp::any<size_t>("c"), d = vp::any<size_t>("d");
  best::layout x(best::unsafe("contract"), a, b), y(best::unsafe("contract"), c, d);
  VP_ENSURES(x.fits_in(y) == (a <= c && b <= d));
  VP_ENSURES((x == y) == (a == c && b == d));
}
#define X(n) VP_CONTRACT(L01, alloc_##n) { alloc<n>(false); } VP_CONTRACT(L01, zalloc_##n) { alloc<n>(true); }
X(1) X(2) X(4) X(8) X(16) X(32) X(64) X(4096)
#undef X
#define X(n, m) VP_CONTRACT(L01, realloc_##n##_##m) { realloc<n, m>(); }
X(1, 1) X(1, 8) X(8, 8) X(16, 8) X(16, 16) X(32, 32) X(64, 64) X(64, 128) X(8, 64) X(64, 8) X(32, 4096) X(1, 32) X(32, 1)
#undef X
#endif
