// V01: the vector as a mathematical sequence; V02: element and block lifetimes.
#include "vp.h"
#include "open.h"
#include "best/container/vec.h"
#include "link.h"
#include "track.h"

namespace {
// Any vector: inline (H = false), or on the heap with any capacity, of any length and contents; all through public
// operations (spill_to_heap on an empty vector, set_size, writes to data()). j is an arbitrary position, x the element there.
template <typename T, size_t MI, bool H> struct Any {
  using V = best::vec<T, MI>;
  size_t n = vp::any<size_t>("size"), cap = H ? vp::any<size_t>("capacity") : MI, j = vp::any<size_t>("j");
  V& v;  // An object of its own, so that in-place writes to it cannot touch this specification.
  T x{};
  T* d;
  size_t lo = ~size_t(0), hi = ~size_t(0);  // The elements destroyed while it is being modified in place.
  explicit Any(V& v) : v(v) {
    VP_REQUIRES(n <= cap && cap <= size_t(1) << 33);
    if (H) v.spill_to_heap(cap, true);
    d = v.data().raw();
    v.set_size(best::unsafe("contract"), n);
    if (H) std::memcpy(d, vp::buffer<T>(n, "contents"), n * sizeof(T)); else vp_havoc(d, MI * sizeof(T), "contents");
    if (!H) v.set_size(best::unsafe("contract"), n);
    if (j < n) x = d[j];
    vp::hint<Any>(&Any::rep, this, 0);
    vp_unroll(1);
  }
  T at(size_t i) { return i < n ? d[i] : T{}; }
  static bool rep(Any* c, size_t) {
    return c->v.is_on_heap() == H && c->v.size() == c->n && c->v.capacity() == c->cap && c->v.data().raw() == c->d &&
           (c->j >= c->n || (c->j >= c->lo && c->j < c->hi) || c->d[c->j] == c->x);
  }
  // What every operation leaves behind.
  void inv() {
    VP_ENSURES(v.capacity() >= v.size());
    VP_ENSURES(v.is_empty() == (v.size() == 0));
    VP_ENSURES(v.is_inlined() != v.is_on_heap());
  }
};
}
#if defined(VP_PROP_V01)
namespace {
template <typename T, size_t MI, bool H> struct Ops : Any<T, MI, H> {
  using B = Any<T, MI, H>;
  explicit Ops(B::V& v) : B(v) {}
  using V = B::V; using B::n; using B::j; using B::x; using B::v; using B::cap; using B::inv; using B::d; using B::lo; using B::hi;
  T e = vp::any<T>("element");
  void state() {
    VP_ENSURES(v.size() == n);
    VP_ENSURES(v.capacity() == cap && v.is_on_heap() == H);
    if (j < n) VP_ENSURES(v[j] == x && v.data().raw()[j] == x && v.as_span()[j] == x);
    inv();
  }
  void push() {
    T& r = v.push(e);
    VP_ENSURES(v.size() == n + 1);
    VP_ENSURES(&r == v.data().raw() + n && v[n] == e);
    if (j < n) { VP_ENSURES(v[j] == x); vp_cover("kept"); }
    inv();
  }
  void insert() {
    size_t at = vp::any<size_t>("at");
    vp_expect_crash(at > n);
    T& r = v.insert(at, e);
    vp_returned("inserting past the end crashes");
    VP_ENSURES(v.size() == n + 1);
    VP_ENSURES(&r == v.data().raw() + at && v[at] == e);
    if (j < n) { VP_ENSURES(v[j < at ? j : j + 1] == x); vp_cover("kept"); }
    inv();
  }
  void pop() {
    T last = B::at(n - 1);
    lo = n - 1; hi = n;
    auto r = v.pop();
    VP_ENSURES(r.has_value() == (n != 0));
    if (n) { VP_ENSURES(*r == last); vp_cover("popped"); }
    VP_ENSURES(v.size() == (n ? n - 1 : 0));
    if (j < n && j != n - 1) VP_ENSURES(v[j] == x);
    inv();
  }
  void remove() {
    size_t at = vp::any<size_t>("at");
    T old = B::at(at);
    vp_expect_crash(at >= n);
    lo = at; hi = at + 1;
    T r = v.remove(at);
    vp_returned("removing past the end crashes");
    VP_ENSURES(r == old && v.size() == n - 1);
    if (j < n && j != at) { VP_ENSURES(v[j < at ? j : j - 1] == x); vp_cover("kept"); }
    inv();
  }
  void erase() {
    size_t at = vp::any<size_t>("at"), c = vp::any<size_t>("count");
    vp_expect_crash(at > n || c > n - at);
    lo = at; hi = at + c;
    v.erase({.start = at, .count = c});
    vp_returned("erasing past the end crashes");
    VP_ENSURES(v.size() == n - c);
    if (j < at) { VP_ENSURES(v[j] == x); vp_cover("before"); }
    if (j < n && j >= at + c) { VP_ENSURES(v[j - c] == x); vp_cover("after"); }
    inv();
  }
  void truncate() {
    size_t m = vp::any<size_t>("m");
    lo = m;
    v.truncate(m);
    VP_ENSURES(v.size() == (m < n ? m : n));
    if (j < n && j < m) { VP_ENSURES(v[j] == x); vp_cover("kept"); }
    inv();
  }
  void clear() { size_t c = v.capacity(); v.clear(); VP_ENSURES(v.size() == 0 && v.capacity() == c); inv(); }
  void reserve() {
    size_t k = vp::any<size_t>("k"); VP_REQUIRES(k <= (size_t(1) << 60) / sizeof(T));
    v.reserve(k);
    VP_ENSURES(v.size() == n && v.capacity() - n >= k);
    if (j < n) { VP_ENSURES(v[j] == x); vp_cover("kept"); }
    inv();
  }
  void reserve_huge() {
    size_t k = vp::any<size_t>("k"); VP_REQUIRES(k > size_t(-1) - n || n + k > size_t(-1) / 2 / sizeof(T));
    vp_expect_crash(true);
    v.reserve(k);
    vp_returned("more room than memory can have crashes");
  }
  void shrink() {
    v.shrink_to_fit();
    VP_ENSURES(v.size() == n);
    if constexpr (H) { if (v.is_on_heap()) { VP_ENSURES(v.capacity() == n); vp_cover("heap"); } else VP_ENSURES(v.capacity() == MI); }
    else VP_ENSURES(!v.is_on_heap() && v.capacity() == MI);
    if (j < n) VP_ENSURES(v[j] == x);
    inv();
  }
  void spill() {
    v.spill_to_heap();
    VP_ENSURES(v.size() == n && (v.is_on_heap() || n == 0));
    if (j < n) VP_ENSURES(v[j] == x);
    inv();
  }
  void assign() {
    size_t m = vp::any<size_t>("other size"); VP_REQUIRES(m <= size_t(1) << 33);
    T* q = vp::buffer<T>(m, "other");
    lo = 0;
    v.assign(best::span<const T>(best::ptr<const T>(q), m));
    VP_ENSURES(v.size() == m);
    if (j < m) { VP_ENSURES(v[j] == q[j]); vp_cover("element"); }
    inv();
  }
  void splice() {
    size_t at = vp::any<size_t>("at"), m = vp::any<size_t>("other size"), k = vp::any<size_t>("k"); VP_REQUIRES(m <= size_t(1) << 33);
    T* q = vp::buffer<T>(m, "other");
    vp_expect_crash(at > n);
    v.splice(at, best::span<const T>(best::ptr<const T>(q), m));
    vp_returned("splicing past the end crashes");
    VP_ENSURES(v.size() == n + m);
    if (j < n) { VP_ENSURES(v[j < at ? j : j + m] == x); vp_cover("kept"); }
    if (k < m) { VP_ENSURES(v[at + k] == q[k]); vp_cover("spliced"); }
    inv();
  }
  void append() {
    size_t m = vp::any<size_t>("other size"), k = vp::any<size_t>("k"); VP_REQUIRES(m <= size_t(1) << 33);
    T* q = vp::buffer<T>(m, "other");
    v.append(best::span<const T>(best::ptr<const T>(q), m));
    VP_ENSURES(v.size() == n + m);
    if (j < n) { VP_ENSURES(v[j] == x); vp_cover("kept"); }
    if (k < m) { VP_ENSURES(v[n + k] == q[k]); vp_cover("appended"); }
    inv();
  }
  void within() {
    size_t at = vp::any<size_t>("at"), s = vp::any<size_t>("start"), c = vp::any<size_t>("count"), k = vp::any<size_t>("k");
    VP_REQUIRES(s <= n && c <= n - s);
    T y = k < c ? B::at(s + k) : T{};
    vp_expect_crash(at > n);
    v.splice(at, v.as_span()[{.start = s, .count = c}]);
    vp_returned("splicing past the end crashes");
    VP_ENSURES(v.size() == n + c);
    if (j < n) { VP_ENSURES(v[j < at ? j : j + c] == x); vp_cover("kept"); }
    if (k < c) { VP_ENSURES(v[at + k] == y); vp_cover("spliced"); }
    inv();
  }
  void copy() {
    best::vec<T, MI> w(v);
    VP_ENSURES(w.size() == n && v.size() == n);
    if (j < n) { VP_ENSURES(w[j] == x && v[j] == x); w[j] = e; VP_ENSURES(v[j] == x); vp_cover("independent"); }
    inv();
  }
  void move() {
    best::vec<T, MI> w(std::move(v));
    VP_ENSURES(w.size() == n && v.size() == 0 && v.capacity() >= 0);
    if (j < n) { VP_ENSURES(w[j] == x); vp_cover("moved"); }
    v.push(e);
    VP_ENSURES(v.size() == 1 && v[0] == e);
    if (j < n) VP_ENSURES(w[j] == x);
    inv();
  }
  void to_box() {
    auto b = std::move(v).to_box();
    VP_ENSURES(b.meta() == n && v.size() == 0);
    if (j < n) { VP_ENSURES(b[j] == x); vp_cover("element"); }
    best::vec<T, MI> w(std::move(b));
    VP_ENSURES(w.size() == n);
    if (j < n) VP_ENSURES(w[j] == x);
    inv();
  }
  void access() {
    size_t at = vp::any<size_t>("at");
    VP_ENSURES(v.first().has_value() == (n != 0) && v.last().has_value() == (n != 0));
    if (n) { VP_ENSURES(&*v.first() == v.data().raw() && &*v.last() == v.data().raw() + (n - 1)); vp_cover("first"); }
    VP_ENSURES(v.at(at).has_value() == (at < n));
    if (at < n) VP_ENSURES(&*v.at(at) == v.data().raw() + at);
    VP_ENSURES(v.spare_capacity().size() == v.capacity() - n && v.spare_capacity().data().raw() == v.data().raw() + n);
    vp_expect_crash(at >= n);
    T& r = v[at];
    vp_returned("indexing past the end crashes");
    VP_ENSURES(&r == v.data().raw() + at);
  }
};
template <typename T, size_t MI, bool H, bool G> struct Two {
  using V = best::vec<T, MI>;
  Any<T, MI, H> a; Any<T, MI, G> b;
  Two(V& v, V& w) : a(v), b(w) {}
  T e = vp::any<T>("element");
  void copy_assign() {
    a.lo = 0;
    a.v = b.v;
    VP_ENSURES(a.v.size() == b.n && b.v.size() == b.n);
    if (b.j < b.n) { VP_ENSURES(a.v[b.j] == b.x && b.v[b.j] == b.x); a.v[b.j] = e; VP_ENSURES(b.v[b.j] == b.x); vp_cover("independent"); }
    a.inv(); b.inv();
  }
  void move_assign() {
    a.lo = 0;
    a.v = std::move(b.v);
    VP_ENSURES(a.v.size() == b.n && b.v.size() == 0);
    if (b.j < b.n) { VP_ENSURES(a.v[b.j] == b.x); vp_cover("moved"); }
    a.inv(); b.inv();
  }
};
template <typename O, typename F> void run2(F f) {
  { typename O::V v, w; O o(v, w); (o.*f)(); }
  VP_ENSURES(vp_heap_live() == 0);
}
template <typename O, typename F> void run(F f) {
  { typename O::V v; O o(v); (o.*f)(); }
  VP_ENSURES(vp_heap_live() == 0);
}
}
#define Y(f, n, ...) VP_CONTRACT(V01, f##_##n) { using O = Ops<__VA_ARGS__>; run<O>(&O::f); }
#define A(f) Y(f, u8_inline, unsigned char, 23, false)
#define B(f) Y(f, int_inline, int, 5, false)
#define C(f) Y(f, u8_heap, unsigned char, 23, true)
#define D(f) Y(f, int_heap, int, 5, true)
#define E(f) Y(f, long_heap, long, 0, true)
#define X(f) A(f) B(f) C(f) D(f) E(f)
X(state) X(push) X(pop) X(remove) X(clear) X(reserve_huge) X(shrink) X(spill) X(copy) X(move) X(to_box) X(access)
A(insert) B(insert) C(insert) A(erase) B(erase) E(erase) A(truncate) B(truncate) E(truncate) A(reserve) D(reserve) E(reserve)
A(assign) C(assign) A(append) C(append) B(splice) C(splice) B(within)
#ifdef VP_THOROUGH
D(insert) E(insert) C(erase) D(erase) C(truncate) D(truncate) B(reserve) C(reserve)
B(assign) D(assign) E(assign) B(append) D(append) E(append) A(splice) D(splice) E(splice) A(within)
#endif
#undef X
#undef A
#undef B
#undef C
#undef D
#undef E
#undef Y
#define Y(f, n, ...) VP_CONTRACT(V01, f##_##n) { using O = Two<__VA_ARGS__>; run2<O>(&O::f); }
#define X(f) Y(f, u8_ii, unsigned char, 23, false, false) Y(f, int_ii, int, 5, false, false) Y(f, int_ih, int, 5, false, true) Y(f, int_hi, int, 5, true, false)
#define Z(f) Y(f, int_hh, int, 5, true, true) Y(f, long_hh, long, 0, true, true)
X(copy_assign) X(move_assign) Z(move_assign)
#ifdef VP_THOROUGH
Z(copy_assign)
#endif
#undef X
#undef Z
#undef Y
// A heap vector spliced with its own elements: out of reach without a bound.
VP_CONTRACT(V01, within_heap_bounded) { using O = Ops<int, 5, true>; typename O::V v; { O o(v); VP_REQUIRES(o.cap <= 4); o.within(); } }
#endif
#if defined(VP_PROP_V02)
namespace {
template <typename T, size_t MI, bool H> struct Live {
  using V = best::vec<T, MI>;
  V v;
  size_t n = vp::any<size_t>("size"), cap = H ? vp::any<size_t>("capacity") : MI;
  int a[4];
  Live(size_t max) {
    VP_REQUIRES(cap <= max && n <= cap);
    if (H) v.spill_to_heap(cap, true);
    for (size_t i = 0; i < n; ++i) { a[i] = vp::any<int>("v"); new (v.data().raw() + i) T(a[i]); v.set_size(best::unsafe("contract"), i + 1); }
  }
  static void ok(V& v) {
    size_t n = v.size();
    VP_ENSURES(n <= v.capacity());
    for (size_t i = 0; i < n; ++i) VP_ENSURES(v.data().raw()[i].alive());
  }
};
template <typename T, size_t MI, bool H, size_t M> struct Ops {
  Live<T, MI, H> s{M};
  best::vec<T, MI>& v = s.v;
  size_t n = s.n;
  int e = vp::any<int>("element");
  using V = best::vec<T, MI>;
  void done(V& v, size_t n, size_t other = 0) { VP_ENSURES(v.size() == n); VP_ENSURES(live == int(n + other)); Live<T, MI, H>::ok(v); }
  size_t pos(size_t m) { size_t at = vp::any<size_t>("at"); VP_REQUIRES(at <= m); return at; }
  void state() { done(v, n); }
  void push() { T t(e); v.push(t); done(v, n + 1, 1); }
  void insert() { size_t at = pos(n); v.insert(at, e); done(v, n + 1); VP_ENSURES(v[at].v == e); }
  void pop() { { auto r = v.pop(); VP_ENSURES(r.has_value() == (n != 0)); if (n) VP_ENSURES(r->alive() && r->v == s.a[n - 1]); } done(v, n ? n - 1 : 0); }
  void remove() { VP_REQUIRES(n); size_t at = pos(n - 1); { T r = v.remove(at); VP_ENSURES(r.alive() && r.v == s.a[at]); } done(v, n - 1); }
  void erase() { size_t at = pos(n), c = vp::any<size_t>("count"); VP_REQUIRES(c <= n - at); v.erase({.start = at, .count = c}); done(v, n - c); }
  void truncate() { size_t c = pos(n + 1); v.truncate(c); done(v, c < n ? c : n); }
  void clear() { v.clear(); done(v, 0); v.push(e); done(v, 1); }
  void reserve() { size_t k = vp::any<size_t>("k"); VP_REQUIRES(k <= 5); v.reserve(k); VP_ENSURES(v.capacity() >= n + k); done(v, n); }
  void shrink() { v.shrink_to_fit(); done(v, n); }
  void spill() { v.spill_to_heap(); done(v, n); }
  void assign() { Live<T, MI, !H> o{M}; v.assign(o.v); done(v, o.n, o.n); done(o.v, o.n, o.n); }
  void splice() { size_t at = pos(n); T x[2] = {e, e}; v.splice(at, x); done(v, n + 2, 2); VP_ENSURES(x[0].alive() && x[1].alive()); VP_ENSURES(v[at].v == e && v[at + 1].v == e); }
  void append() { T x[2] = {e, e}; v.append(x); done(v, n + 2, 2); }
  void within() { size_t at = pos(n), b = vp::any<size_t>("start"), c = vp::any<size_t>("count"); VP_REQUIRES(b <= n && c <= n - b); v.splice(at, v.as_span()[{.start = b, .count = c}]); done(v, n + c); for (size_t i = 0; i < c; ++i) VP_ENSURES(v[at + i].v == s.a[b + i]); }
  void copy() { V w(v); done(w, n, n); done(v, n, n); }
  void move() { V w(std::move(v)); done(w, n); VP_ENSURES(v.size() == 0); v.push(e); done(v, 1, n); }
  void self_copy() { V& r = v; v = r; done(v, n); for (size_t i = 0; i < n; ++i) VP_ENSURES(v[i].v == s.a[i]); }
  void self_move() { V& r = v; v = std::move(r); done(v, v.size()); }
  void copy_assign() { Live<T, MI, H> o{M}; v = o.v; done(v, o.n, o.n); done(o.v, o.n, o.n); }
  void copy_assign2() { Live<T, MI, !H> o{M}; v = o.v; done(v, o.n, o.n); done(o.v, o.n, o.n); }
  void move_assign() { Live<T, MI, H> o{M}; v = std::move(o.v); done(v, o.n, 0); done(o.v, 0, o.n); }
  void move_assign2() { Live<T, MI, !H> o{M}; v = std::move(o.v); done(v, o.n, 0); done(o.v, 0, o.n); }
  void to_box() { { auto b = std::move(v).to_box(); VP_ENSURES(b.meta() == n && live == int(n)); for (size_t i = 0; i < n; ++i) VP_ENSURES(b[i].alive() && b[i].v == s.a[i]); VP_ENSURES(v.size() == 0); } VP_ENSURES(live == 0); v.push(e); done(v, 1); }
  void from_box() { { auto b = std::move(v).to_box(); V w(std::move(b)); done(w, n); } VP_ENSURES(live == 0); }
  void from_span() { { V w(v.as_span()); done(w, n, n); done(v, n, n); } VP_ENSURES(live == int(n)); }
};
template <typename O> void run(void (O::*f)()) {
  live = 0;
  { O o; (o.*f)(); }
  VP_ENSURES(live == 0);
  VP_ENSURES(vp_heap_live() == 0);
}
}
// The inline states are complete (every size up to the inline capacity); the heap ones are bounded by their capacity.
#define Y(f, n, ...) VP_CONTRACT(V02, f##_##n) { using O = Ops<__VA_ARGS__>; run<O>(&O::f); }
#define X(f) Y(f, pinned_inline, Pinned, 2, false, 2) Y(f, pinned_heap_bounded, Pinned, 2, true, 3) Y(f, bytes_inline, Bytes, 3, false, 3) Y(f, bytes_heap_bounded, Bytes, 3, true, 3) Y(f, owner_inline, Owner, 2, false, 2) Y(f, owner_heap_bounded, Owner, 2, true, 2)
X(state) X(push) X(insert) X(pop) X(remove) X(erase) X(truncate) X(clear) X(reserve) X(shrink) X(spill) X(assign) X(splice) X(append) X(within) X(copy) X(move) X(self_copy) X(self_move) X(copy_assign) X(copy_assign2) X(move_assign) X(move_assign2) X(to_box) X(from_box) X(from_span)
#undef X
#undef Y
#endif
