// Specification primitives. In proof mode these are interpreted by the verifier (vp/models.py); with VP_NATIVE they are
// implemented by vp/native.cc, so that the very same contract runs against the real code on concrete inputs.
#ifndef VP_H_
#define VP_H_
#include <cstddef>
#include <cstdint>
#include <type_traits>
extern "C" {
uint64_t vp_nd(int bits, const char* name);
void vp_assume(bool);
void vp_assert(bool, const char* label);
void vp_expect_crash(bool);
void vp_returned(const char* label);
void vp_cover(const char* label);
void* vp_buf(size_t n, size_t elem_size, size_t align, const char* name);
void vp_havoc(void* p, size_t n, const char* name);
void vp_forall_(bool (*fn)(void*, size_t), void* ctx, const void* buf, size_t esz);
void vp_inst_(const void* buf, size_t idx, size_t esz);
void vp_hint_(bool (*fn)(void*, size_t), void* ctx, size_t esz);
void vp_hint2_(bool (*fn)(void*, size_t, size_t), void* ctx, const void* buf, size_t esz);
void vp_replace_sym(const char* name, void* contract);
void vp_replace_(void* fn, void* contract);
uint64_t vp_pure_(uint64_t (*fn)(void*, size_t), void* ctx, size_t arg);
uint64_t vp_pick(int bits);
// An unspecified function of x (the same one for every call with this id) with a value of the given number of bits: whatever is proved
// with it holds for real(x), which is what a replay computes.
uint64_t vp_opaque(int id, int bits, uint64_t x, uint64_t (*real)(uint64_t));
// From here on, checked multiplication (__builtin_mul_overflow) is an unspecified pair of functions of its operands, in code and specification alike.
void vp_opaque_mul();
void vp_unroll(int n);
void vp_cut(const char* fn);  // loops of functions whose symbol contains fn are cut at once
void vp_split(bool);
void vp_partial();
void vp_late();  // loop invariants also speak of memory that is uninitialized when the loop is entered
size_t vp_heap_live();
}
#define VP_CONTRACT(PROP, NAME) extern "C" void vpc_##PROP##_##NAME()
#define VP_USE_CONTRACT(type, fn, contract) vp_replace_((void*)static_cast<type*>(fn), (void*)static_cast<type*>(contract))
// The same for a member function, given by its linkage name (an unknown name means that the body is used).
#define VP_USE_SYMBOL(name, contract) vp_replace_sym(name, (void*)(contract))
#define VP_ENSURES(c) vp_assert((c), #c)
#define VP_REQUIRES(c) vp_assume((c))
namespace vp {
template <typename T>
inline T any(const char* name = "x") {
  if constexpr (std::is_same_v<T, bool>) return vp_nd(1, name) & 1;
  else if constexpr (sizeof(T) == 16) return T((unsigned __int128)vp_nd(64, name) << 64 | vp_nd(64, name));
  else return T(vp_nd(sizeof(T) * 8, name));
}
/// An array of `n` elements with arbitrary contents, in its own object.
template <typename T>
inline T* buffer(size_t n, const char* name = "buf") {
  return static_cast<T*>(vp_buf(n, sizeof(T), alignof(T), name));
}
/// Assume fn(ctx, i) for every index i < n of buf.
template <typename C, typename T>
inline void forall(bool (*fn)(C*, size_t), C* ctx, const T* buf) {
  vp_forall_(reinterpret_cast<bool (*)(void*, size_t)>(fn), (void*)ctx, buf, sizeof(T));
}
template <typename T>
inline void inst(const T* buf, size_t i) { vp_inst_(buf, i, sizeof(T)); }
/// Proof hint: try fn(ctx, v) as a loop invariant for every loop variable v (an index, or a pointer scaled by sizeof T).
template <typename C>
inline void hint(bool (*fn)(C*, size_t), C* ctx, size_t esz = 1) {
  vp_hint_(reinterpret_cast<bool (*)(void*, size_t)>(fn), (void*)ctx, esz);
}
/// The same, for positions in buf only (a pointer into buf as an index, or an integer as it is): cheaper.
template <typename C, typename T>
inline void hint_at(bool (*fn)(C*, size_t), C* ctx, const T* buf) {
  vp_hint_(reinterpret_cast<bool (*)(void*, size_t)>(fn), (void*)ctx, sizeof(T) | size_t(1) << 32);
}
/// The same for pairs: v a position in buf, w the value of any other loop variable (zero- or sign-extended).
template <typename C, typename T>
inline void hint2(bool (*fn)(C*, size_t, size_t), C* ctx, const T* buf) {
  vp_hint2_(reinterpret_cast<bool (*)(void*, size_t, size_t)>(fn), (void*)ctx, buf, sizeof(T));
}
/// VP_USE_CONTRACT(type, fn, contract): from here on, calls of fn are checked against its contract (a function with the same signature that assumes the postcondition proved for
/// fn elsewhere) instead of its body. The contract draws its choices from vp_pick().
/// The value of a side-effect-free specification function as one term, without splitting the proof into its paths.
template <typename C> inline uint64_t pure(uint64_t (*fn)(C*, size_t), C* ctx, size_t arg = 0) { return vp_pure_(reinterpret_cast<uint64_t (*)(void*, size_t)>(fn), (void*)ctx, arg); }
}  // namespace vp
#endif
