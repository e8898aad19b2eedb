// O01: the active alternative of options, results and choices; O02: payload lifetimes; O03: comparisons.
#include "vp.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "link.h"
#include "track.h"
#include "best/container/box.h"

namespace {
// Payloads: plain, with a niche, with a niche and special members of its own, with special members only.
struct Nich {
  int v;
  Nich(int v) : v(v) {}
  Nich(best::niche) : v(-0x7fffffff - 1) {}
  bool operator==(best::niche) const { return v == -0x7fffffff - 1; }
  bool operator==(const Nich& o) const { return v == o.v; }
  auto operator<=>(const Nich& o) const { return v <=> o.v; }
};
struct NichD {
  int v;
  NichD(int v) : v(v) {}
  NichD(best::niche) : v(-0x7fffffff - 1) {}
  NichD(const NichD& o) : v(o.v) {}
  NichD& operator=(const NichD& o) { v = o.v; return *this; }
  ~NichD() { v = 0; }
  bool operator==(best::niche) const { return v == -0x7fffffff - 1; }
  bool operator==(const NichD& o) const { return v == o.v; }
  auto operator<=>(const NichD& o) const { return v <=> o.v; }
};
struct Rich {
  int v;
  Rich(int v) : v(v) {}
  Rich(const Rich& o) : v(o.v) {}
  Rich(Rich&& o) : v(o.v) { o.v = 0; }
  Rich& operator=(const Rich& o) { v = o.v; return *this; }
  Rich& operator=(Rich&& o) { int t = o.v; o.v = 0; v = t; return *this; }
  ~Rich() { v = 0; }
  bool operator==(const Rich& o) const { return v == o.v; }
  auto operator<=>(const Rich& o) const { return v <=> o.v; }
};
inline int val(int v) { return v; }
inline int val(const auto& v) { return v.v; }
inline int num(const char* n) { int v = vp::any<int>(n); VP_REQUIRES(v != -0x7fffffff - 1); return v; }
}
#if defined(VP_PROP_O01)
namespace {
// An option in an arbitrary state, with an arbitrary past.
template <typename T> struct Opt {
  bool has = vp::any<bool>("has");
  int v = num("value"), w = num("other");
  bool two = vp::any<bool>("has other");
  best::option<T> o, q;
  Opt() {
    if (vp::any<bool>("used before")) o.emplace(num("past"));
    if (has) o.emplace(v); else o = best::none;
    if (two) q = T(w);
  }
  void is(const best::option<T>& o, bool has, int v) {
    VP_ENSURES(o.has_value() == has && o.is_empty() == !has && bool(o) == has);
    if (has) VP_ENSURES(val(*o) == v && val(o.value()) == v && val(*o.operator->()) == v && o.as_ptr() == &*o && val(**o.as_object()) == v);
    else VP_ENSURES(o.as_ptr() == nullptr && !o.as_object().has_value());
  }
  void state() {
    is(o, has, v);
    VP_ENSURES(o.as_ref().has_value() == has);
    if (has) { VP_ENSURES(&*o.as_ref() == &*o && &*std::as_const(o).as_ref() == &*o); vp_cover("value"); }
    best::option<T> c = o.copy(); is(c, has, v);
    if (has) { *o = T(w); VP_ENSURES(val(*o) == w && val(*c) == v); }
  }
  void value_crash() { vp_expect_crash(!has); T& r = o.value(); vp_returned("value() of an empty option crashes"); VP_ENSURES(val(r) == v); }
  void deref_crash() { vp_expect_crash(!has); T& r = *o; vp_returned("dereferencing an empty option crashes"); VP_ENSURES(val(r) == v); }
  void arrow_crash() { vp_expect_crash(!has); T* r = o.operator->(); vp_returned("-> of an empty option crashes"); VP_ENSURES(val(*r) == v); }
  void carrow_crash() { vp_expect_crash(!has); const T* r = std::as_const(o).operator->(); vp_returned("-> of an empty option crashes"); VP_ENSURES(val(*r) == v); }
  void cvalue_crash() { vp_expect_crash(!has); const T& r = std::as_const(o).value(); vp_returned("value() of an empty option crashes"); VP_ENSURES(val(r) == v); }
  void rvalue_crash() { vp_expect_crash(!has); T r = std::move(o).value(); vp_returned("value() of an empty option crashes"); VP_ENSURES(val(r) == v); }
  void build() {
    best::option<T> a = T(v), b(best::in_place, v), c = best::none, d; is(a, true, v); is(b, true, v); is(c, false, 0); is(d, false, 0);
    best::option<T> e = o; is(e, has, v); is(o, has, v);
    best::option<T> f = std::move(e); is(f, has, v);
    o = q; is(o, two, w); is(q, two, w);
    f = std::move(o); is(f, two, w);
    f = f; is(f, two, w);
    f = T(v); is(f, true, v);
    f.reset(); is(f, false, 0);
    q = best::none; is(q, false, 0);
  }
  void emplace() {
    T& r = o.emplace(w); is(o, true, w); VP_ENSURES(&r == &*o);
  }
  void or_emplace() { T& r = o.or_emplace(w); is(o, true, has ? v : w); VP_ENSURES(&r == &*o); }
  void value_or() {
    int n = 0;
    VP_ENSURES(val(o.value_or(w)) == (has ? v : w)); is(o, has, v);
    VP_ENSURES(val(o.value_or([&] { ++n; return T(w); })) == (has ? v : w)); is(o, has, v);
    VP_ENSURES(n == !has);
    VP_ENSURES(val(best::option<T>(o).value_or([&] { ++n; return T(w); })) == (has ? v : w));
    VP_ENSURES(val(best::option<T>(o).value_or(w)) == (has ? v : w));
    VP_ENSURES(n == 2 * !has);
  }
  void map() {
    int n = 0, s = 0; const T* p = nullptr;
    auto f = [&](const T& x) { ++n; s = val(x); p = &x; return long(val(x)) + 1; };
    auto a = o.map(f); VP_ENSURES(a.has_value() == has && n == has); if (has) VP_ENSURES(*a == long(v) + 1 && s == v && p == &*o);
    auto b = std::as_const(o).map(f); VP_ENSURES(b.has_value() == has && n == 2 * has); if (has) VP_ENSURES(*b == long(v) + 1 && s == v && p == &*o);
    VP_ENSURES(o.map(7l, f) == (has ? long(v) + 1 : 7)); VP_ENSURES(n == 3 * has);
    VP_ENSURES(std::as_const(o).map([] { return 9l; }, f) == (has ? long(v) + 1 : 9)); VP_ENSURES(n == 4 * has);
    is(o, has, v);
    auto c = std::move(o).map(f); VP_ENSURES(c.has_value() == has && n == 5 * has); if (has) VP_ENSURES(*c == long(v) + 1);
  }
  void then() {
    int n = 0;
    auto f = [&](const T& x) { ++n; return two ? best::option<long>(long(val(x)) + 1) : best::option<long>(); };
    auto a = o.then(f); VP_ENSURES(a.has_value() == (has && two) && n == has); if (has && two) VP_ENSURES(*a == long(v) + 1);
    auto b = std::as_const(o).then(f); VP_ENSURES(b.has_value() == (has && two) && n == 2 * has); if (has && two) VP_ENSURES(*b == long(v) + 1);
    is(o, has, v);
    auto c = std::move(o).then(f); VP_ENSURES(c.has_value() == (has && two) && n == 3 * has); if (has && two) VP_ENSURES(*c == long(v) + 1);
  }
  void inspect() {
    int n = 0, s = 0;
    auto f = [&](const T& x) { ++n; s = val(x); };
    VP_ENSURES(&o.inspect(f) == &o); VP_ENSURES(n == has && s == (has ? v : 0));
    VP_ENSURES(&std::as_const(o).inspect(f) == &o); VP_ENSURES(n == 2 * has);
    is(o, has, v);
    best::option<T> r = std::move(o).inspect(f); VP_ENSURES(n == 3 * has); is(r, has, v);
  }
  void filter() {
    int n = 0; bool keep = vp::any<bool>("keep");
    auto f = [&](const T& x) { ++n; return keep && val(x) == v; };
    VP_ENSURES(o.has_value(f) == (has && keep)); VP_ENSURES(n == has);
    is(o.filter(f), has && keep, v); VP_ENSURES(n == 2 * has); is(o, has, v);
    is(best::option<T>(o).filter(f), has && keep, v); VP_ENSURES(n == 3 * has);
  }
  void logic() {
    is(o & q, has && two, w);
    is(o | q, has || two, has ? v : w);
    is(o ^ q, has != two, has ? v : w);
    is(o, has, v); is(q, two, w);
    is(best::option<T>(o) | q, has || two, has ? v : w);
    is(best::option<T>(o) ^ q, has != two, has ? v : w);
  }
  void res(const best::result<T, long>& r, long e) {
    VP_ENSURES(r.is_ok() == has && r.is_err() == !has);
    if (has) VP_ENSURES(val(*r.ok()) == v); else VP_ENSURES(*r.err() == e);
  }
  void ser(const best::result<long, T>& r, long e) {
    VP_ENSURES(r.is_err() == has && r.is_ok() == !has);
    if (has) VP_ENSURES(val(*r.err()) == v); else VP_ENSURES(*r.ok() == e);
  }
  void ok_or() {
    int n = 0; auto f = [&] { ++n; return 5l; };
    const auto& c = o;
    res(o.ok_or(3l), 3); res(c.ok_or(3l), 3); res(o.template ok_or<long>(4), 4); res(c.template ok_or<long>(4), 4); res(o.ok_or(f), 5); res(c.ok_or(f), 5);
    is(o, has, v); VP_ENSURES(n == 2 * !has);
    res(best::option<T>(o).ok_or(3l), 3); res(best::option<T>(o).template ok_or<long>(4), 4); res(best::option<T>(o).ok_or(f), 5);
    is(o, has, v); VP_ENSURES(n == 3 * !has);
  }
  void err_or() {
    int n = 0; auto f = [&] { ++n; return 5l; };
    const auto& c = o;
    ser(o.err_or(3l), 3); ser(c.err_or(3l), 3); ser(o.template err_or<long>(4), 4); ser(c.template err_or<long>(4), 4); ser(o.err_or(f), 5); ser(c.err_or(f), 5);
    is(o, has, v); VP_ENSURES(n == 2 * !has);
    ser(best::option<T>(o).err_or(3l), 3); ser(best::option<T>(o).template err_or<long>(4), 4); ser(best::option<T>(o).err_or(f), 5);
    is(o, has, v); VP_ENSURES(n == 3 * !has);
  }
};
}
#define Y(f, n, ...) VP_CONTRACT(O01, option_##f##_##n) { using O = Opt<__VA_ARGS__>; O o; o.f(); }
#define X(f) Y(f, int, int) Y(f, niche, Nich) Y(f, niche_dtor, NichD) Y(f, class, Rich)
X(state) X(value_crash) X(deref_crash) X(arrow_crash) X(carrow_crash) X(cvalue_crash) X(rvalue_crash) X(build) X(emplace) X(or_emplace) X(value_or) X(map) X(then) X(inspect) X(filter) X(logic) X(ok_or) X(err_or)
#undef X
#undef Y

// References, which are niche-packed: the option aliases the very object it was given.
VP_CONTRACT(O01, option_ref) {
  int a = vp::any<int>("a"), b = vp::any<int>("b"), e = vp::any<int>("e"); bool has = vp::any<bool>("has"), two = vp::any<bool>("has other");
  best::option<int&> o, q;
  if (vp::any<bool>("used before")) o = b;
  if (has) o.emplace(a); else o = best::none;
  if (two) q = best::option<int&>(b);
  VP_ENSURES(o.has_value() == has && o.is_empty() == !has && q.has_value() == two);
  VP_ENSURES(o.as_ptr() == (has ? &a : nullptr));
  if (has) { VP_ENSURES(&*o == &a && &o.value() == &a && o.operator->() == &a && &*std::as_const(o) == &a && *o == a); vp_cover("value"); }
  int n = 0; auto m = o.map([&](int& x) { ++n; return &x; });
  VP_ENSURES(m.has_value() == has && n == has); if (has) VP_ENSURES(*m == &a);
  VP_ENSURES(o.value_or(e) == (has ? a : e));
  best::option<int> c = o.copy(); VP_ENSURES(c.has_value() == has); if (has) VP_ENSURES(*c == a && &*c != &a);
  best::option<int&> r = o | q; VP_ENSURES(r.as_ptr() == (has ? &a : two ? &b : nullptr));
  r = o & q; VP_ENSURES(r.as_ptr() == (has && two ? &b : nullptr));
  r = o ^ q; VP_ENSURES(r.as_ptr() == (has != two ? has ? &a : &b : nullptr));
  r = q; VP_ENSURES(r.as_ptr() == (two ? &b : nullptr) && o.as_ptr() == (has ? &a : nullptr));
  r = std::move(o); VP_ENSURES(r.as_ptr() == (has ? &a : nullptr));
  int* p = two ? &b : nullptr;
  best::option<int&> s = p; VP_ENSURES(s.as_ptr() == p);
  s = has ? &a : nullptr; VP_ENSURES(s.as_ptr() == (has ? &a : nullptr));
  if (has) { *s = e; VP_ENSURES(a == e && s.as_ptr() == &a); }
  s.reset(); VP_ENSURES(!s.has_value());
}
VP_CONTRACT(O01, option_ref_crash) {
  int a = vp::any<int>("a"); bool has = vp::any<bool>("has");
  best::option<int&> o; if (has) o = a;
  vp_expect_crash(!has); int& r = *o; vp_returned("dereferencing an empty option crashes"); VP_ENSURES(&r == &a);
}
VP_CONTRACT(O01, option_cref_crash) {
  int a = vp::any<int>("a"); bool has = vp::any<bool>("has");
  best::option<const int&> o; if (has) o = a;
  vp_expect_crash(!has); const int* r = std::as_const(o).operator->(); vp_returned("-> of an empty option crashes"); VP_ENSURES(r == &a);
}
VP_CONTRACT(O01, option_void) {
  bool has = vp::any<bool>("has"), two = vp::any<bool>("has other");
  best::option<void> o, q; if (vp::any<bool>("used before")) o.emplace();
  if (has) o = best::VoidOption; else o.reset();
  if (two) q.emplace();
  VP_ENSURES(o.has_value() == has && q.has_value() == two);
  int n = 0; auto m = o.map([&] { return ++n; }); VP_ENSURES(m.has_value() == has && n == has);
  auto t = o.then([&] { ++n; return two ? best::option<int>(3) : best::none; }); VP_ENSURES(t.has_value() == (has && two) && n == 2 * has);
  o.inspect([&] { ++n; }); VP_ENSURES(n == 3 * has);
  best::option<void> r = o | q; VP_ENSURES(r.has_value() == (has || two));
  r = o & q; VP_ENSURES(r.has_value() == (has && two));
  r = o ^ q; VP_ENSURES(r.has_value() == (has != two));
  r = o; VP_ENSURES(r.has_value() == has && o.has_value() == has);
  auto k = o.ok_or<int>(5); VP_ENSURES(k.is_ok() == has); if (!has) VP_ENSURES(*k.err() == 5);
}
VP_CONTRACT(O01, option_void_crash) {
  bool has = vp::any<bool>("has"); best::option<void> o; if (has) o.emplace();
  vp_expect_crash(!has); o.value(); vp_returned("value() of an empty option crashes");
}
// Converting constructions and assignments.
VP_CONTRACT(O01, option_convert) {
  bool has = vp::any<bool>("has"); int v = vp::any<int>("v");
  best::option<int> o; if (has) o = v;
  best::option<long> l(o); VP_ENSURES(l.has_value() == has); if (has) VP_ENSURES(*l == v);
  best::option<long> k = 9; k = o; VP_ENSURES(k.has_value() == has); if (has) VP_ENSURES(*k == v);
  best::option<int&> r(o); VP_ENSURES(r.as_ptr() == (has ? &*o : nullptr));
  best::option<const int&> cr(o); VP_ENSURES(cr.as_ptr() == o.as_ptr());
  best::option<Rich> c(o); VP_ENSURES(c.has_value() == has); if (has) VP_ENSURES(c->v == v);
  best::option<best::option<int>> n = o; VP_ENSURES(n.has_value() && n->has_value() == has);
  best::option<best::option<int>> nn(best::in_place, o); VP_ENSURES(nn.has_value() && nn->has_value() == has); if (has) VP_ENSURES(**nn == v);
}

// Results.
namespace {
template <typename T, typename E> struct Res {
  bool ok = vp::any<bool>("ok");
  int v = num("value"), w = num("other");
  using R = best::result<T, E>;
  R make(bool ok, int v) { if (ok) return best::ok(T(v)); return best::err(E(v)); }
  R r = make(ok, v), q = make(vp::any<bool>("other ok"), w);
  bool two = q.is_ok();
  void is(const R& r, bool ok, int v) {
    VP_ENSURES(r.is_ok() == ok && r.is_err() == !ok && bool(r) == ok);
    VP_ENSURES(r.ok().has_value() == ok && r.err().has_value() == !ok);
    if (ok) VP_ENSURES(val(*r.ok()) == v); else VP_ENSURES(val(*r.err()) == v);
  }
  void state() {
    is(r, ok, v); is(q, two, w);
    R c = r; is(c, ok, v); is(r, ok, v);
    R d = std::move(c); is(d, ok, v);
    r = q; is(r, two, w); is(q, two, w);
    r = std::move(d); is(r, ok, v);
    R& s = r; r = s; is(r, ok, v);
    r = best::ok(T(w)); is(r, true, w);
    r = best::err(E(v)); is(r, false, v);
  }
  void map() {
    int n = 0;
    auto f = [&](const T& x) { ++n; return long(val(x)) + 1; };
    auto a = r.map(f); VP_ENSURES(a.is_ok() == ok && n == ok); if (ok) VP_ENSURES(*a.ok() == long(v) + 1); else VP_ENSURES(val(*a.err()) == v);
    auto b = std::as_const(r).map(f); VP_ENSURES(b.is_ok() == ok && n == 2 * ok); if (ok) VP_ENSURES(*b.ok() == long(v) + 1); else VP_ENSURES(val(*b.err()) == v);
    is(r, ok, v);
    auto c = std::move(r).map(f); VP_ENSURES(c.is_ok() == ok && n == 3 * ok); if (ok) VP_ENSURES(*c.ok() == long(v) + 1); else VP_ENSURES(val(*c.err()) == v);
  }
  void map_err() {
    int n = 0;
    auto f = [&](const E& x) { ++n; return long(val(x)) + 1; };
    auto a = r.map_err(f); VP_ENSURES(a.is_ok() == ok && n == !ok); if (!ok) VP_ENSURES(*a.err() == long(v) + 1); else VP_ENSURES(val(*a.ok()) == v);
    auto b = std::as_const(r).map_err(f); VP_ENSURES(b.is_ok() == ok && n == 2 * !ok); if (!ok) VP_ENSURES(*b.err() == long(v) + 1); else VP_ENSURES(val(*b.ok()) == v);
    is(r, ok, v);
    auto c = std::move(r).map_err(f); VP_ENSURES(c.is_ok() == ok && n == 3 * !ok); if (!ok) VP_ENSURES(*c.err() == long(v) + 1); else VP_ENSURES(val(*c.ok()) == v);
  }
  void then() {
    int n = 0;
    auto f = [&](const T& x) { ++n; return two ? best::result<long, E>(best::ok(long(val(x)) + 1)) : best::result<long, E>(best::err(E(w))); };
    auto check = [&](const best::result<long, E>& a) {
      VP_ENSURES(a.is_ok() == (ok && two));
      if (ok && two) VP_ENSURES(*a.ok() == long(v) + 1); else VP_ENSURES(val(*a.err()) == (ok ? w : v));
    };
    check(r.then(f)); VP_ENSURES(n == ok);
    check(std::as_const(r).then(f)); VP_ENSURES(n == 2 * ok); is(r, ok, v);
    check(std::move(r).then(f)); VP_ENSURES(n == 3 * ok);
  }
};
}
#define Y(f, n, ...) VP_CONTRACT(O01, result_##f##_##n) { using O = Res<__VA_ARGS__>; O o; o.f(); }
#define X(f) Y(f, int_class, int, Rich) Y(f, class_int, Rich, int) Y(f, niche_class, NichD, Rich)
X(state) X(map) X(map_err) X(then)
#undef X
#undef Y
VP_CONTRACT(O01, result_void) {
  bool ok = vp::any<bool>("ok"); int v = vp::any<int>("v"), n = 0;
  best::result<void, int> r = best::ok(); if (!ok) r = best::err(v);
  VP_ENSURES(r.is_ok() == ok && r.is_err() == !ok); if (!ok) VP_ENSURES(*r.err() == v);
  auto m = r.map([&] { return ++n; }); VP_ENSURES(m.is_ok() == ok && n == ok); if (!ok) VP_ENSURES(*m.err() == v);
  auto t = r.then([&]() -> best::result<int, int> { ++n; return best::ok(v); }); VP_ENSURES(t.is_ok() == ok && n == 2 * ok); VP_ENSURES((ok ? *t.ok() : *t.err()) == v);
  best::result<long, void> s = best::err(); if (ok) s = best::ok(v);
  VP_ENSURES(s.is_ok() == ok); if (ok) VP_ENSURES(*s.ok() == v);
  auto e = s.map_err([&] { return ++n; }); VP_ENSURES(e.is_ok() == ok && n == 2 * ok + !ok); if (ok) VP_ENSURES(*e.ok() == v);
}
VP_CONTRACT(O01, result_ref) {
  bool ok = vp::any<bool>("ok"); int a = vp::any<int>("a"), b = vp::any<int>("b");
  best::result<int&, int&> r = best::ok(a); if (!ok) r = best::err(b);
  VP_ENSURES(r.is_ok() == ok); VP_ENSURES(r.ok().as_ptr() == (ok ? &a : nullptr) && r.err().as_ptr() == (ok ? nullptr : &b));
  best::result<int&, int&> c = r; VP_ENSURES(c.is_ok() == ok && (ok ? c.ok().as_ptr() == &a : c.err().as_ptr() == &b));
  best::result<long, long> l(r); VP_ENSURES(l.is_ok() == ok && (ok ? *l.ok() == a : *l.err() == b));
}

// Choices.
namespace {
template <typename A, typename B> struct Cho {
  using C = best::choice<A, B, int&, void>;
  int v = num("value"), w = num("other"), target = vp::any<int>("target");
  size_t k = vp::any<size_t>("which"), m = vp::any<size_t>("other which");
  C make(size_t k, int v) {
    VP_REQUIRES(k < 4);
    if (k == 0) return C(best::index<0>, v);
    if (k == 1) return C(best::index<1>, v);
    if (k == 2) return C(best::index<2>, target);
    return C(best::index<3>);
  }
  C c = make(k, v), d = make(m, w);
  void is(const C& c, size_t k, int v) {
    VP_ENSURES(c.which() == k);
    VP_ENSURES(c.at(best::index<0>).has_value() == (k == 0) && c.at(best::index<1>).has_value() == (k == 1) && c.at(best::index<2>).has_value() == (k == 2) && c.at(best::index<3>).has_value() == (k == 3));
    if (k == 0) VP_ENSURES(val(c[best::index<0>]) == v && c.as_ptr(best::index<0>) == &c[best::index<0>] && c.as_ptr(best::index<1>) == nullptr && val(**c.object(best::index<0>)) == v);
    if (k == 1) VP_ENSURES(val(*c.at(best::index<1>)) == v && &*c.at(best::index<1>) == c.as_ptr(best::index<1>) && c.as_ptr(best::index<0>) == nullptr);
    if (k == 2) VP_ENSURES(&c[best::index<2>] == &target && c.as_ptr(best::index<2>) == &target); else VP_ENSURES(c.as_ptr(best::index<2>) == nullptr);
    size_t seen = c.index_match([&](best::index_t<0>, const A& x) { return val(x) == v ? 0 : 9; }, [&](best::index_t<1>, const B& x) { return val(x) == v ? 1 : 9; },
                                [&](best::index_t<2>, int& x) { return &x == &target ? 2 : 9; }, [&](best::index_t<3>) { return 3; });
    VP_ENSURES(seen == k);
  }
  void state() {
    is(c, k, v); is(d, m, w);
    C e = c; is(e, k, v); is(c, k, v);
    C f = std::move(e); is(f, k, v);
  }
  void assign() {
    c = d; is(c, m, w); is(d, m, w);
    C& e = c; c = e; is(c, m, w);
  }
  void move_assign() { c = std::move(d); is(c, m, w); }
  void emplace() {
    A& a = c.emplace(best::index<0>, w); VP_ENSURES(&a == &c[best::index<0>]); is(c, 0, w);
    d.emplace(best::index<2>, target); is(d, 2, 0);
    B& b = d.emplace(best::index<1>, v); VP_ENSURES(&b == &d[best::index<1>]); is(d, 1, v);
    d.emplace(best::index<3>); is(d, 3, 0);
  }
  void crash0() { vp_expect_crash(k != 0); A& a = c[best::index<0>]; vp_returned("a different alternative crashes"); VP_ENSURES(val(a) == v); }
  void crash1() { vp_expect_crash(k != 1); const B& a = std::as_const(c)[best::index<1>]; vp_returned("a different alternative crashes"); VP_ENSURES(val(a) == v); }
  void crash2() { vp_expect_crash(k != 2); int& a = c[best::index<2>]; vp_returned("a different alternative crashes"); VP_ENSURES(&a == &target); }
  void crash3() { vp_expect_crash(k != 3); c[best::index<3>]; vp_returned("a different alternative crashes"); }
  void rcrash() { vp_expect_crash(k != 1); B a = std::move(c)[best::index<1>]; vp_returned("a different alternative crashes"); VP_ENSURES(val(a) == v); }
  void permute() {
    auto p = c.template permute<2, 0, 3, 1>();
    VP_ENSURES(p.which() == (k == 2 ? 0 : k == 0 ? 1 : k == 3 ? 2 : 3));
    if (k == 0) VP_ENSURES(val(p[best::index<1>]) == v);
    if (k == 1) VP_ENSURES(val(p[best::index<3>]) == v);
    if (k == 2) VP_ENSURES(&p[best::index<0>] == &target);
    is(c, k, v);
    auto r = std::move(c).template permute<3, 2, 1, 0>();
    VP_ENSURES(r.which() == 3 - k);
    if (k == 0) VP_ENSURES(val(r[best::index<3>]) == v);
    if (k == 1) VP_ENSURES(val(r[best::index<2>]) == v);
  }
};
}
#define Y(f, n, ...) VP_CONTRACT(O01, choice_##f##_##n) { using O = Cho<__VA_ARGS__>; O o; o.f(); }
#define X(f) Y(f, int_niche, int, Nich) Y(f, class_long, Rich, NichD)
X(state) X(assign) X(move_assign) X(emplace) X(crash0) X(crash1) X(crash2) X(crash3) X(rcrash) X(permute)
#undef X
#undef Y
// A class with a niche against an empty one, on either side: no tag is stored.
namespace { struct None { bool operator==(const None&) const = default; }; }
#define X(n, A, B, i, T)                                                                                                         \
  VP_CONTRACT(O01, choice_niche_##n) {                                                                                           \
    using C = best::choice<A, B>;                                                                                                \
    int v = num("v"), w = num("w"); bool has = vp::any<bool>("has"), two = vp::any<bool>("has other");                           \
    C c(best::index<1 - i>), d(best::index<1 - i>);                                                                              \
    if (has) c.emplace(best::index<i>, v);                                                                                       \
    if (two) d = C(best::index<i>, w);                                                                                           \
    VP_ENSURES(c.which() == (has ? i : 1 - i) && d.which() == (two ? i : 1 - i));                                                \
    VP_ENSURES(c.at(best::index<i>).has_value() == has && c.at(best::index<1 - i>).has_value() == !has);                         \
    if (has) { VP_ENSURES(c[best::index<i>].v == v); vp_cover("value"); }                                                        \
    C e = c; VP_ENSURES(e.which() == c.which()); if (has) VP_ENSURES(e[best::index<i>].v == v);                                  \
    c = d; VP_ENSURES(c.which() == d.which()); if (two) VP_ENSURES(c[best::index<i>].v == w);                                    \
    d = std::move(e); VP_ENSURES(d.which() == (has ? i : 1 - i)); if (has) VP_ENSURES(d[best::index<i>].v == v);                 \
    int s = d.match([&](const T& x) { return x.v == v ? 1 : 9; }, [&](const None&) { return 0; }); VP_ENSURES(s == has);         \
    d.emplace(best::index<1 - i>); VP_ENSURES(d.which() == 1 - i);                                                               \
  }
X(left, Nich, None, 0, Nich) X(right, None, Nich, 1, Nich) X(left_dtor, NichD, None, 0, NichD) X(right_dtor, None, NichD, 1, NichD)
#undef X
#endif

#if defined(VP_PROP_O02)
namespace {
// A payload that cannot be assigned, only constructed.
struct Fixed {
  const int v; const Fixed* self;
  bool alive() const { return self == this; }
  Fixed(int v) : v(v), self(this) { ++live; }
  Fixed(const Fixed& o) : v(val_of(o)), self(this) { ++live; }
  ~Fixed() { VP_ENSURES(alive()); self = nullptr; --live; }
};
// A pinned payload with a niche, whose niche value is never to be destroyed.
struct PinnedN {
  int v; const PinnedN* self;
  bool alive() const { return self == this; }
  PinnedN(int v) : v(v), self(this) { ++live; }
  PinnedN(best::niche) : v(0), self(nullptr) {}
  PinnedN(const PinnedN& o) : v(val_of(o)), self(this) { ++live; }
  PinnedN& operator=(const PinnedN& o) { VP_ENSURES(alive() && o.alive()); v = o.v; return *this; }
  ~PinnedN() { VP_ENSURES(alive()); self = nullptr; --live; }
  bool operator==(best::niche) const { return self == nullptr; }
};
template <typename T> struct LOpt {
  bool has = vp::any<bool>("has"), two = vp::any<bool>("has other");
  int v = num("value"), w = num("other");
  best::option<T> o, q;
  LOpt() { if (vp::any<bool>("used before")) o.emplace(w); if (has) o.emplace(v); else o.reset(); if (two) q.emplace(w); VP_ENSURES(live == has + two); }
  void is(const best::option<T>& o, bool has, int v) { VP_ENSURES(o.has_value() == has); if (has) VP_ENSURES(o.as_ptr()->alive() && o.as_ptr()->v == v); }
  void n(int k) { VP_ENSURES(live == k); }
  void copy() { { best::option<T> c = o; is(c, has, v); n(2 * has + two); } is(o, has, v); n(has + two); }
  void move() { { best::option<T> c = std::move(o); is(c, has, v); } o.reset(); n(two); }
  void copy_assign() { o = q; is(o, two, w); is(q, two, w); n(2 * two); }
  void move_assign() { o = std::move(q); is(o, two, w); q.reset(); n(two); }
  void self_assign() { auto& r = o; o = r; is(o, has, v); n(has + two); }
  void self_move() { auto& r = o; o = std::move(r); VP_ENSURES(o.has_value() == has); if (has) VP_ENSURES(o.as_ptr()->alive()); n(has + two); }
  void value() requires best::convertible<T, T> { T t(w); n(has + two + 1); o = t; is(o, true, w); n(1 + two + 1); VP_ENSURES(t.alive()); }
  void emplace() { o.emplace(w); is(o, true, w); n(1 + two); q.or_emplace(v); is(q, true, two ? w : v); n(2); }
  void reset() { o.reset(); n(two); o.reset(); n(two); o = best::none; is(o, false, 0); n(two); q = best::none; n(0); }
  void combine() {
    { auto m = o.map([](const T& t) { VP_ENSURES(t.alive()); return t.v; }); VP_ENSURES(m.has_value() == has); }
    { best::option<T> c = o.copy(); is(c, has, v); }
    { T t = o.value_or(w); VP_ENSURES(t.alive() && t.v == (has ? v : w)); }
    { T t = best::option<T>(o).value_or([&] { return T(w); }); VP_ENSURES(t.alive() && t.v == (has ? v : w)); }
    n(has + two);
    { best::option<T> r = o | q; is(r, has || two, has ? v : w); }
    { best::option<T> r = o & q; is(r, has && two, w); }
    { best::option<T> r = best::option<T>(o) ^ q; is(r, has != two, has ? v : w); }
    { best::option<T> r = o.filter([&](const T& t) { return t.v > 0; }); is(r, has && v > 0, v); }
    { auto r = o.template ok_or<int>(3); VP_ENSURES(r.is_ok() == has); }
    is(o, has, v); is(q, two, w); n(has + two);
  }
};
template <typename T> struct LCho {
  using C = best::choice<T, int, Owner, void>;
  int v = num("value"), w = num("other");
  size_t k = vp::any<size_t>("which"), m = vp::any<size_t>("other which");
  C make(size_t k, int v) {
    VP_REQUIRES(k < 4);
    if (k == 0) return C(best::index<0>, v);
    if (k == 1) return C(best::index<1>, v);
    if (k == 2) return C(best::index<2>, v);
    return C(best::index<3>);
  }
  C c = make(k, v), d = make(m, w);
  static int cost(size_t k) { return k == 0 || k == 2; }
  void n(int k) { VP_ENSURES(live == k); }
  LCho() { n(cost(k) + cost(m)); }
  void is(const C& c, size_t k, int v) {
    VP_ENSURES(c.which() == k);
    if (k == 0) VP_ENSURES(c.as_ptr(best::index<0>)->alive() && c.as_ptr(best::index<0>)->v == v);
    if (k == 1) VP_ENSURES(*c.as_ptr(best::index<1>) == v);
    if (k == 2) VP_ENSURES(c.as_ptr(best::index<2>)->alive() && c.as_ptr(best::index<2>)->v == v);
  }
  void copy() { { C e = c; is(e, k, v); n(2 * cost(k) + cost(m)); } is(c, k, v); n(cost(k) + cost(m)); }
  void move() { { C e = std::move(c); is(e, k, v); } n(cost(k) + cost(m)); }
  void copy_assign() { c = d; is(c, m, w); is(d, m, w); n(2 * cost(m)); }
  void move_assign() { c = std::move(d); is(c, m, w); n(2 * cost(m)); }
  void self_assign() { C& r = c; c = r; is(c, k, v); n(cost(k) + cost(m)); }
  void self_move() { C& r = c; c = std::move(r); VP_ENSURES(c.which() == k); n(cost(k) + cost(m)); }
  void emplace() {
    c.emplace(best::index<0>, w); is(c, 0, w); n(1 + cost(m));
    c.emplace(best::index<0>, v); is(c, 0, v); n(1 + cost(m));
    c.emplace(best::index<2>, w); is(c, 2, w); n(1 + cost(m));
    c.emplace(best::index<1>, w); is(c, 1, w); n(cost(m));
    d.emplace(best::index<3>); is(d, 3, 0); n(0);
    d.emplace(best::index<2>, v); is(d, 2, v); n(1);
  }
  void permute() { { auto p = c.template permute<2, 0, 3, 1>(); n(2 * cost(k) + cost(m)); VP_ENSURES(p.which() == (k == 2 ? 0 : k == 0 ? 1 : k == 3 ? 2 : 3)); } is(c, k, v); n(cost(k) + cost(m)); }
};
template <typename T> struct LRes {
  using R = best::result<T, Owner>;
  bool ok = vp::any<bool>("ok"), two = vp::any<bool>("other ok"); int v = num("value"), w = num("other");
  R make(bool ok, int v) { if (ok) return best::ok(T(v)); return best::err(Owner(v)); }
  R r = make(ok, v), q = make(two, w);
  void n(int k) { VP_ENSURES(live == k); }
  LRes() { n(2); }
  void is(const R& r, bool ok, int v) { VP_ENSURES(r.is_ok() == ok); if (ok) VP_ENSURES(r.ok().as_ptr()->alive() && r.ok().as_ptr()->v == v); else VP_ENSURES(r.err().as_ptr()->alive() && r.err().as_ptr()->v == v); }
  void copy() { { R c = r; is(c, ok, v); n(3); } is(r, ok, v); n(2); }
  void move() { { R c = std::move(r); is(c, ok, v); n(3); } n(2); }
  void copy_assign() { r = q; is(r, two, w); is(q, two, w); n(2); }
  void move_assign() { r = std::move(q); is(r, two, w); n(2); }
  void self_assign() { R& s = r; r = s; is(r, ok, v); n(2); }
  void combine() {
    { auto m = r.map([](const T& t) { VP_ENSURES(t.alive()); return t.v; }); VP_ENSURES(m.is_ok() == ok); n(2 + !ok); }
    { auto m = r.map_err([](const Owner& t) { VP_ENSURES(t.alive()); return t.v; }); VP_ENSURES(m.is_err() == !ok); n(2 + ok); }
    n(2); is(r, ok, v);
    r = best::ok(T(w)); is(r, true, w); n(2);
    r = best::err(Owner(v)); is(r, false, v); n(2);
  }
};
template <typename O> void run(void (O::*f)()) { live = 0; { O o; (o.*f)(); } VP_ENSURES(live == 0); VP_ENSURES(vp_heap_live() == 0); }
}
#define Y(k, f, n, ...) VP_CONTRACT(O02, k##_##f##_##n) { using O = __VA_ARGS__; run<O>(&O::f); }
#define X(f) Y(option, f, pinned, LOpt<Pinned>) Y(option, f, owner, LOpt<Owner>) Y(option, f, niche, LOpt<PinnedN>) Y(option, f, fixed, LOpt<Fixed>)
X(copy) X(move) X(copy_assign) X(move_assign) X(self_assign) X(self_move) X(emplace) X(reset) X(combine)
#undef X
#define X(f) Y(option, f, pinned, LOpt<Pinned>) Y(option, f, owner, LOpt<Owner>) Y(option, f, niche, LOpt<PinnedN>)
X(value)
#undef X
#define X(f) Y(choice, f, pinned, LCho<Pinned>) Y(choice, f, niche, LCho<PinnedN>) Y(choice, f, fixed, LCho<Fixed>)
X(copy) X(move) X(copy_assign) X(move_assign) X(self_assign) X(self_move) X(emplace) X(permute)
#undef X
#define X(f) Y(result, f, pinned, LRes<Pinned>) Y(result, f, fixed, LRes<Fixed>)
X(copy) X(move) X(copy_assign) X(move_assign) X(self_assign) X(combine)
#undef X
#undef Y
#endif
#if defined(VP_PROP_O02)
// Boxes.
namespace {
template <typename T> struct LBox {
  using B = best::box<T>;
  int v = num("value"), w = num("other");
  bool gone = vp::any<bool>("moved from");
  B b{v}, c{w};
  void is(const B& b, int v) { VP_ENSURES(b->alive() && b->v == v && b.as_ptr().raw() == &*b); }
  void n(int k) { VP_ENSURES(live == k && vp_heap_live() == size_t(k) * (1 + best::same<T, Owner>)); }
  LBox() { n(2); }
  void take() { if (gone) { { B d = std::move(b); is(d, v); n(2); } n(1); } }
  void copy() { { B d = b; is(d, v); is(b, v); VP_ENSURES(&*d != &*b); n(3); } n(2); VP_ENSURES(b->v == v); }
  void move() { { B d = std::move(b); is(d, v); n(2); } n(1); }
  void copy_assign() { take(); b = c; is(b, w); is(c, w); VP_ENSURES(&*b != &*c); n(2); }
  void move_assign() { take(); b = std::move(c); is(b, w); n(1); }
  void self_assign() { B& r = b; b = r; is(b, v); n(2); }
  void self_move() { B& r = b; b = std::move(r); is(b, v); n(2); }
  void raw() { auto p = std::move(b).leak(); n(2); VP_ENSURES(p.raw()->alive() && p.raw()->v == v); { B d(best::unsafe("contract"), p); is(d, v); } n(1); }
  void option() {
    { best::option<B> o; VP_ENSURES(!o.has_value()); if (gone) o = b; n(2 + gone); VP_ENSURES(o.has_value() == gone); if (gone) is(*o, v);
      best::option<B> q = o; n(2 + 2 * gone); o = best::none; VP_ENSURES(q.has_value() == gone); n(2 + gone); o = std::move(q); VP_ENSURES(o.has_value() == gone); }
    n(2);
    { best::option<B> o(std::move(c)); is(*o, w); n(2); o.reset(); n(1); o.emplace(w); is(*o, w); n(2); }
    n(1); is(b, v);
  }
  void choice() {
    { best::choice<B, int> k(best::index<1>, 3); k = best::choice<B, int>(best::index<0>, b); n(3); is(k[best::index<0>], v); auto j = k; n(4); k = 5; n(3); VP_ENSURES(k.which() == 1); k = std::move(j); n(3); VP_ENSURES(k.which() == 0); }
    n(2);
    { best::result<B, int> k = best::ok(b); n(3); is(*k.ok(), v); k = best::err(4); n(2); }
  }
  void nested() { { best::box<B> d(best::in_place, b); is(*d, v); VP_ENSURES(live == 3); auto e = d; VP_ENSURES(live == 4); d = std::move(e); VP_ENSURES(live == 3); } n(2); }
};
}
#define Y(k, f, n, ...) VP_CONTRACT(O02, k##_##f##_##n) { using O = __VA_ARGS__; run<O>(&O::f); }
#define X(f) Y(box, f, pinned, LBox<Pinned>) Y(box, f, owner, LBox<Owner>) Y(box, f, bytes, LBox<Bytes>)
X(copy) X(move) X(copy_assign) X(move_assign) X(self_assign) X(self_move) X(raw) X(option) X(choice) X(nested)
#undef X
#undef Y
#endif
#if defined(VP_PROP_O03)
#include "best/container/row.h"
namespace {
// Every comparison of a and b is exactly that of the key: d < 0, == 0 or > 0.
void ordered(const auto& a, const auto& b, int d) {
  VP_ENSURES((a == b) == (d == 0) && (b == a) == (d == 0) && (a != b) == (d != 0));
  VP_ENSURES((a < b) == (d < 0) && (a > b) == (d > 0) && (a <= b) == (d <= 0) && (a >= b) == (d >= 0));
  VP_ENSURES((b < a) == (d > 0) && (b > a) == (d < 0) && (b <= a) == (d >= 0) && (b >= a) == (d <= 0));
  auto c = a <=> b, r = b <=> a;
  VP_ENSURES((c < 0) == (d < 0) && (c == 0) == (d == 0) && (c > 0) == (d > 0));
  VP_ENSURES((r < 0) == (d > 0) && (r == 0) == (d == 0) && (r > 0) == (d < 0));
}
int cmp(auto x, auto y) { return x < y ? -1 : y < x ? 1 : 0; }
template <typename T, typename U> void opts() {
  bool p = vp::any<bool>("p"), q = vp::any<bool>("q"), r = vp::any<bool>("r"); int x = num("x"), y = num("y"), z = num("z");
  best::option<T> a, c; best::option<U> b;
  if (p) a.emplace(x); if (q) b.emplace(y); if (r) c.emplace(z);
  ordered(a, a, 0);
  ordered(a, b, p != q ? (p ? 1 : -1) : p ? cmp(x, y) : 0);
  if (a <= b && b <= c) { VP_ENSURES(a <= c); vp_cover("transitive"); }
  if (a == b && b == c) VP_ENSURES(a == c);
  VP_ENSURES((a == best::none) == !p && (best::none == a) == !p && (a != best::none) == p);
  VP_ENSURES((a <=> best::none) == (int(p) <=> 0) && (a > best::none) == p && !(a < best::none) && (best::none < a) == p);
  if constexpr (requires { a <=> U(y); }) {
    U u(y); int d = p ? cmp(x, y) : -1;
    VP_ENSURES((a == u) == (d == 0) && (u == a) == (d == 0));
    VP_ENSURES((a < u) == (d < 0) && (a > u) == (d > 0) && (a <= u) == (d <= 0) && (u < a) == (d > 0) && (u >= a) == (d <= 0));
  }
}
}
VP_CONTRACT(O03, option_int) { opts<int, int>(); }
VP_CONTRACT(O03, option_int_long) { opts<int, long>(); }
VP_CONTRACT(O03, option_class) { opts<Rich, Rich>(); }
VP_CONTRACT(O03, option_niche) { opts<Nich, Nich>(); }
VP_CONTRACT(O03, option_niche_dtor) { opts<NichD, NichD>(); }
VP_CONTRACT(O03, option_void) {
  bool p = vp::any<bool>("p"), q = vp::any<bool>("q"); best::option<void> a, b; if (p) a.emplace(); if (q) b.emplace();
  ordered(a, b, int(p) - int(q));
  VP_ENSURES((a == best::none) == !p && (a > best::none) == p);
}
VP_CONTRACT(O03, option_ref) {
  bool p = vp::any<bool>("p"), q = vp::any<bool>("q"); int x = vp::any<int>("x"), y = vp::any<int>("y");
  best::option<int&> a; best::option<const int&> b; best::option<int> c; if (p) a = x; if (q) { b = y; c = y; }
  int d = p != q ? (p ? 1 : -1) : p ? cmp(x, y) : 0;
  ordered(a, b, d); ordered(a, c, d); ordered(c, b, 0);
  const int* k = q ? &y : nullptr;
  VP_ENSURES((a == k) == (d == 0) && (k == a) == (d == 0) && ((a <=> k) < 0) == (d < 0) && (a > k) == (d > 0));
}
// Partial orders stay partial.
VP_CONTRACT(O03, option_double) {
  bool p = vp::any<bool>("p"), q = vp::any<bool>("q"); unsigned char x = vp::any<unsigned char>("x"), y = vp::any<unsigned char>("y");
  struct D { unsigned char v; bool operator==(const D& o) const { return v != 255 && v == o.v; } std::partial_ordering operator<=>(const D& o) const { return v == 255 || o.v == 255 ? std::partial_ordering::unordered : v < o.v ? std::partial_ordering::less : v > o.v ? std::partial_ordering::greater : std::partial_ordering::equivalent; } };
  best::option<D> a, b; if (p) a = D{x}; if (q) b = D{y};
  bool un = p && q && (x == 255 || y == 255);
  auto c = a <=> b;
  VP_ENSURES((c == std::partial_ordering::unordered) == un);
  if (!un) ordered(a, b, p != q ? (p ? 1 : -1) : p ? cmp(x, y) : 0); else VP_ENSURES(a != b && !(a < b) && !(a > b) && !(a <= b));
}
namespace {
template <typename A, typename B> void chos() {
  using C = best::choice<A, void, B>;
  auto make = [](size_t k, int v) { VP_REQUIRES(k < 3); if (k == 0) return C(best::index<0>, v); if (k == 1) return C(best::index<1>); return C(best::index<2>, v); };
  size_t i = vp::any<size_t>("i"), j = vp::any<size_t>("j"), k = vp::any<size_t>("k"); int x = num("x"), y = num("y"), z = num("z");
  C a = make(i, x), b = make(j, y);
  ordered(a, a, 0);
  ordered(a, b, i != j ? (i < j ? -1 : 1) : i == 1 ? 0 : cmp(x, y));
}
template <typename T, typename E> void ress() {
  using R = best::result<T, E>;
  auto make = [](bool ok, int v) { if (ok) return R(best::ok(T(v))); return R(best::err(E(v))); };
  bool p = vp::any<bool>("p"), q = vp::any<bool>("q"); int x = num("x"), y = num("y");
  R a = make(p, x), b = make(q, y);
  ordered(a, a, 0);
  ordered(a, b, p != q ? (p ? -1 : 1) : cmp(x, y));
  T t(y); E e(y);
  int dt = p ? cmp(x, y) : 1, de = p ? -1 : cmp(x, y);
  VP_ENSURES((a == best::ok(t)) == (dt == 0) && (a < best::ok(t)) == (dt < 0) && (a > best::ok(t)) == (dt > 0) && (a <= best::ok(t)) == (dt <= 0));
  VP_ENSURES((a == best::err(e)) == (de == 0) && (a < best::err(e)) == (de < 0) && (a > best::err(e)) == (de > 0) && (a >= best::err(e)) == (de >= 0));
  VP_ENSURES((a == best::ok()) == p && (a > best::ok()) == !p && !(a < best::ok()));
  VP_ENSURES((a == best::err()) == !p && (a < best::err()) == p && !(a > best::err()));
  if constexpr (!best::comparable<E, T>) {
    VP_ENSURES((a == t) == (dt == 0) && (a < t) == (dt < 0) && (a > t) == (dt > 0));
    VP_ENSURES((a == e) == (de == 0) && (a < e) == (de < 0) && (a > e) == (de > 0));
  }
}
}
VP_CONTRACT(O03, choice_int_class) { chos<int, Rich>(); }
VP_CONTRACT(O03, choice_niche_long) { chos<NichD, long>(); }
VP_CONTRACT(O03, choice_niched) {
  struct None { bool operator==(const None&) const = default; auto operator<=>(const None&) const = default; };
  using C = best::choice<Nich, None>; bool p = vp::any<bool>("p"), q = vp::any<bool>("q"); int x = num("x"), y = num("y");
  C a(best::index<1>), b(best::index<1>); if (p) a.emplace(best::index<0>, x); if (q) b.emplace(best::index<0>, y);
  ordered(a, b, p != q ? (p ? -1 : 1) : p ? cmp(x, y) : 0);
}
VP_CONTRACT(O03, result_int_class) { ress<int, Rich>(); }
VP_CONTRACT(O03, result_niche_long) { ress<NichD, long>(); }
VP_CONTRACT(O03, result_same) { ress<int, int>(); }
VP_CONTRACT(O03, row) {
  int x[3] = {num("x0"), num("x1"), num("x2")}, y[3] = {num("y0"), num("y1"), num("y2")};
  best::row<int, Rich, long> a(x[0], Rich(x[1]), x[2]), b(y[0], Rich(y[1]), y[2]);
  int d = 0; for (int i = 0; i < 3; ++i) if (!d) d = cmp(x[i], y[i]);
  ordered(a, a, 0);
  ordered(a, b, d);
  best::row<int&, const Rich&, long> c(x[0], a.second(), x[2]);
  ordered(c, b, d); ordered(a, c, 0);
}
VP_CONTRACT(O03, row_nested) {
  int x[3] = {num("x0"), num("x1"), num("x2")}, y[3] = {num("y0"), num("y1"), num("y2")}; bool p = vp::any<bool>("p"), q = vp::any<bool>("q");
  best::row<best::row<int, int>, best::option<int>> a({x[0], x[1]}, best::none), b({y[0], y[1]}, best::none);
  if (p) a.second() = x[2]; if (q) b.second() = y[2];
  int d = cmp(x[0], y[0]); if (!d) d = cmp(x[1], y[1]); if (!d) d = p != q ? (p ? 1 : -1) : p ? cmp(x[2], y[2]) : 0;
  ordered(a, b, d);
}
VP_CONTRACT(O03, row_empty) { best::row<> a, b; ordered(a, b, 0); }
VP_CONTRACT(O03, box) {
  int x = vp::any<int>("x"), y = vp::any<int>("y"); best::box<int> a(x), b(y);
  ordered(a, b, cmp(x, y)); VP_ENSURES((a == y) == (x == y) && (a < y) == (x < y) && (a > y) == (x > y));
}
// The helpers.
VP_CONTRACT(O03, chain) {
  int a = vp::any<int>("a"), b = vp::any<int>("b"), c = vp::any<int>("c"), d = vp::any<int>("d"), n = 0;
  auto r = (a <=> b)->*best::or_cmp([&] { ++n; return c <=> d; });
  int k = cmp(a, b); VP_ENSURES(n == (k == 0)); if (!k) k = cmp(c, d);
  VP_ENSURES((r < 0) == (k < 0) && (r == 0) == (k == 0));
  auto p = (a <=> b)->*best::or_cmp([&]() -> best::partial_ord { return best::Unordered; });
  VP_ENSURES((p == best::partial_ord::unordered) == (a == b)); if (a != b) VP_ENSURES((p < 0) == (a < b));
  auto e = (a <=> b)->*best::or_cmp([&] { return best::Less; }); VP_ENSURES((e < 0) == (a <= b) && (e > 0) == (a > b));
  auto m = best::min(a, b), M = best::max(a, b); VP_ENSURES(m == (a < b ? a : b) && M == (a < b ? b : a));
}
VP_CONTRACT(O03, compare) {
  int a = vp::any<int>("a"), b = vp::any<int>("b"); long c = vp::any<long>("c");
  auto r = best::compare(a, b), s = best::compare(a, c);
  VP_ENSURES((r < 0) == (a < b) && (r > 0) == (a > b) && (s < 0) == (a < c) && (s > 0) == (a > c));
  VP_ENSURES(best::equal(a, b) == (a == b) && best::equal(a, c) == (a == c) && !best::equal(a, &a));
  int x[4]; size_t i = vp::any<size_t>("i"), j = vp::any<size_t>("j"); VP_REQUIRES(i < 4 && j < 4);
  VP_ENSURES(best::equal(x + i, x + j) == (i == j) && (best::compare(x + i, x + j) < 0) == (i < j) && best::equal(x + i, (void*)(x + j)) == (i == j));
}
#endif
