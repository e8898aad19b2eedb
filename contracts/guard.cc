// Contracts for best/func/defer.h, best/func/tap.h and best/base/guard.h.
#include "best/func/defer.h"
#include "best/func/tap.h"
#include "best/base/guard.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "vp.h"
#include "link.h"
#if defined(VP_PROP_G01)
#include "track.h"
namespace {
template <typename T, typename U> inline constexpr bool same = std::is_same_v<T, U>;
unsigned any(const char* n) { return vp::any<unsigned>(n); }
// A log of what ran, in order.
struct Log { unsigned n = 0; int at[8]; void operator()(int x) { VP_ENSURES(n < 8); at[n++] = x; } };
}
// defer: for every choice of early exit, cancellation and explicit runs.
VP_CONTRACT(G01, defer_exits) {
  Log log; unsigned how = any("exit"), k = any("k"); VP_REQUIRES(how < 4 && k < 4);
  auto scope = [&]() -> int {
    best::defer a = [&] { log(1); };
    if (how == 0) return 10;
    best::defer b = [&] { log(2); };
    if (how == 1) return 11;
    for (unsigned i = 0; i < 4; ++i) {
      best::defer c = [&] { log(3); };
      if (i == k && how == 2) break;
      if (i == k) return 13;
    }
    return log(4), 12;
  };
  vp_unroll(6);
  int r = scope();
  VP_ENSURES(r == int(how) + 10);
  unsigned i = 0;
  if (how >= 2) for (; i <= k; ++i) VP_ENSURES(log.at[i] == 3);
  if (how == 2) VP_ENSURES(log.at[i++] == 4);
  if (how >= 1) VP_ENSURES(log.at[i++] == 2);
  VP_ENSURES(log.at[i++] == 1);
  VP_ENSURES(log.n == i);
  if (how == 0) vp_cover("first"); else if (how == 3) vp_cover("loop"); else vp_cover("other");
}
VP_CONTRACT(G01, defer_cancel_run) {
  // Any history of three calls of run() and cancel() (0, 1; anything else is nothing).
  unsigned a = any("a"), b = any("b"), c = any("c"), ran = 0, want = 0; bool cancelled = false;
  {
    best::defer d = [&] { ++ran; };
    for (unsigned o : {a, b, c}) {
      if (o == 0) { d.run(); if (!cancelled) want = 1; cancelled = true; }
      else if (o == 1) { d.cancel(); cancelled = true; }
      VP_ENSURES(ran == want);
    }
    if (!cancelled) want = 1;
  }
  VP_ENSURES(ran == want && ran <= 1);
  if (want) vp_cover("ran"); else vp_cover("cancelled");
}
namespace {
struct Again { bool run; int* ran; void** self; void operator()() const; };
using AgainDefer = decltype(best::defer(Again{}));
void Again::operator()() const {
  VP_ENSURES(*ran == 0); ++*ran;
  if (run) static_cast<AgainDefer*>(*self)->run(); else static_cast<AgainDefer*>(*self)->cancel();
}
}
VP_CONTRACT(G01, defer_runs_itself) {
  bool run = vp::any<bool>("run"), early = vp::any<bool>("early"); int ran = 0; void* self = nullptr;
  { best::defer d = Again{run, &ran, &self}; self = &d; if (early) d.run(); VP_ENSURES(ran == early); }
  VP_ENSURES(ran == 1);
}
VP_CONTRACT(G01, defer_bind) {
  // A bound defer calls the very callable it was given; a plain one owns a copy that is destroyed after it ran.
  struct C { int n; void operator()() & { ++n; } };
  unsigned k = any("n") >> 2; C c{int(k)};
  { best::defer d(best::bind, c); VP_ENSURES(c.n == int(k)); }
  VP_ENSURES(c.n == int(k + 1));
  int before = live; int seen = 0;
  { Pinned p{int(k)}; best::defer d = [&seen, p] { seen = val_of(p); }; VP_ENSURES(live == before + 2); }
  VP_ENSURES(live == before && seen == int(k));
}
namespace {
// What a function guarded by BEST_GUARD did.
struct Guarded {
  int evaluated = 0, passed = 0; bool before = false;
  auto option(best::option<int> x) -> best::option<long> { best::defer d = [&] { before = true; }; BEST_GUARD((++evaluated, x)); ++passed; return long(*x) + 1; }
  auto option_rvalue(best::option<int> x) -> best::option<long> { BEST_GUARD((++evaluated, std::move(x))); ++passed; return 7; }
  auto option_temp(int v) -> best::option<int> { auto f = [&]() -> best::option<int> { ++evaluated; if (v < 0) return best::none; return int(v); }; BEST_GUARD(f()); ++passed; return int(v); }
  auto result(best::result<int, long> x) -> best::result<char, long> { BEST_GUARD((++evaluated, x)); ++passed; return best::ok('a'); }
  auto result_void(const best::result<void, int>& x) -> best::result<void, int> { BEST_GUARD((++evaluated, x)); ++passed; return best::ok(); }
  auto nested(best::result<int, int> x, best::result<int, int> y) -> best::result<int, int> { BEST_GUARD((++evaluated, x)); BEST_GUARD((++evaluated, y)); ++passed; return best::ok(*x.ok() ^ *y.ok()); }
  auto tracked(best::result<int, Pinned>& x) -> best::result<void, Pinned> { BEST_GUARD((++evaluated, x)); ++passed; return best::ok(); }
  auto moved(best::result<int, Pinned>& x) -> best::result<void, Pinned> { BEST_GUARD((++evaluated, std::move(x))); ++passed; return best::ok(); }
};
int some(bool& b, const char* n) { b = vp::any<bool>(n); return vp::any<int>(n); }
}
VP_CONTRACT(G01, guard_option) {
  bool b; int v = some(b, "x"); best::option<int> x; if (b) x = int(v);
  Guarded g; auto r = g.option(x);
  VP_ENSURES(g.evaluated == 1 && g.passed == b && g.before && r.has_value() == b && (!b || *r == long(v) + 1));
  Guarded h; auto s = h.option_rvalue(x);
  VP_ENSURES(h.evaluated == 1 && h.passed == b && s.has_value() == b && (!b || *s == 7) && x.has_value() == b);
  Guarded i; auto t = i.option_temp(v); VP_ENSURES(i.evaluated == 1 && i.passed == (v >= 0) && t.has_value() == (v >= 0) && (v < 0 || *t == v));
  if (b) vp_cover("some"); else vp_cover("none");
}
VP_CONTRACT(G01, guard_result) {
  bool b; int v = some(b, "x"); long e = vp::any<long>("error");
  best::result<int, long> x = best::ok(v); if (!b) x = best::err(e);
  Guarded g; auto r = g.result(x);
  VP_ENSURES(g.evaluated == 1 && g.passed == b && r.is_ok() == b);
  if (b) VP_ENSURES(*r.ok() == 'a'); else VP_ENSURES(*r.err() == e);
  best::result<void, int> y = best::ok(); if (!b) y = best::err(v);
  Guarded h; auto s = h.result_void(y);
  VP_ENSURES(h.evaluated == 1 && h.passed == b && s.is_ok() == b && y.is_ok() == b); if (!b) VP_ENSURES(*s.err() == v && *y.err() == v);
  if (b) vp_cover("ok"); else vp_cover("err");
}
VP_CONTRACT(G01, guard_nested) {
  bool b, c; int v = some(b, "x"), w = some(c, "y");
  best::result<int, int> x = best::ok(v), y = best::ok(w); if (!b) x = best::err(v); if (!c) y = best::err(w);
  Guarded g; auto r = g.nested(x, y);
  VP_ENSURES(g.evaluated == 1 + b && g.passed == (b && c) && r.is_ok() == (b && c));
  if (b && c) VP_ENSURES(*r.ok() == (v ^ w)); else VP_ENSURES(*r.err() == (b ? w : v));
}
VP_CONTRACT(G01, guard_tracked) {
  bool b; int v = some(b, "x"); int before = live;
  {
    best::result<int, Pinned> x = best::ok(v); if (!b) x = best::err(v);
    { Guarded g; auto r = g.tracked(x); VP_ENSURES(g.evaluated == 1 && g.passed == b && r.is_ok() == b && live == before + 2 * !b); if (!b) VP_ENSURES(r.err()->v == v && r.err()->alive() && x.err()->v == v); }
    { Guarded g; auto r = g.moved(x); VP_ENSURES(g.evaluated == 1 && g.passed == b && r.is_ok() == b && live == before + 2 * !b); if (!b) VP_ENSURES(r.err()->v == v && r.err()->alive()); }
  }
  VP_ENSURES(live == before);
}
// tap: the tapped value, in its own value category, goes to the callback; the result comes back.
namespace {
struct Val { int v; };
// Says which kind of reference it was called with.
struct Kind { int* out; int operator()(Val&) const { return *out = 1; } int operator()(const Val&) const { return *out = 2; } int operator()(Val&&) const { return *out = 3; } };
// Says which kind of reference it was called through.
struct Self { int tag = 0; int operator()(int x) & { return x + 1; } int operator()(int x) const& { return x + 2; } int operator()(int x) && { return x + 3; } int operator()(int x) const&& { return x + 4; } };
}
VP_CONTRACT(G01, tap_value) {
  int v = int(any("v")), out = 0; Val x{v}; const Val y{v};
  best::tap t = Kind{&out};
  VP_ENSURES((x->*t) == 1 && out == 1 && (y->*t) == 2 && out == 2 && (Val{v}->*t) == 3 && out == 3);
  best::tap id = [](auto&& z) -> decltype(auto) { return BEST_FWD(z); };
  VP_ENSURES(&(x->*id) == &x && &(y->*id) == &y); VP_ENSURES((same<decltype(x->*id), Val&> && same<decltype(y->*id), const Val&>));
  best::tap twice = [](int z) { return unsigned(z) * 2; }; best::tap inc = [](unsigned z) { return z + 1; };
  VP_ENSURES((v->*twice->*inc) == unsigned(v) * 2 + 1 && (unsigned(v)->*inc->*twice) == (unsigned(v) + 1) * 2);
}
VP_CONTRACT(G01, tap_category) {
  int v = int(any("v")) >> 1; best::tap t = Self{}; const auto c = best::tap(Self{}); Self s; const Self k;
  VP_ENSURES((v->*t) == v + 1 && (v->*c) == v + 2 && (v->*std::move(t)) == v + 3 && (v->*std::move(c)) == v + 4);
  best::tap b(best::bind, s); best::tap d(best::bind, k);
  VP_ENSURES(&b.callback() == &s && &d.callback() == &k && &t.callback() != &s);
  VP_ENSURES((v->*b) == v + 1 && (v->*d) == v + 2 && (v->*best::tap(best::bind, s)) == v + 1 && (v->*best::tap(Self{})) == v + 3);
  const auto& cb = b; VP_ENSURES(&cb.callback() == &s && &std::move(b).callback() == &s && (v->*cb) == v + 1);
  Self&& m = std::move(t).callback(); VP_ENSURES(&m == &t.callback());
}
VP_CONTRACT(G01, tap_arguments) {
  int v = int(any("v")) >> 2, w = int(any("w")) >> 2, u = int(any("u")) >> 2;
  // Arguments bound with () and [] reach what the tap returns, once and in order, and in their own value category.
  best::tap sub = [](auto x) { return [=](int y, int z) { return x - y + (z ^ x); }; };
  VP_ENSURES((v->*sub(w, u)) == v - w + (u ^ v)); VP_ENSURES((v->*std::as_const(sub)(w, u)) == v - w + (u ^ v)); VP_ENSURES((v->*std::move(sub)(w, u)) == v - w + (u ^ v)); VP_ENSURES((v->*std::move(std::as_const(sub))(w, u)) == v - w + (u ^ v));
  struct At { int x; int operator[](int y) const { return x - y; } };
  best::tap at = [](int x) { return At{x}; };
  VP_ENSURES((v->*at[w]) == v - w); VP_ENSURES((v->*std::as_const(at)[w]) == v - w); VP_ENSURES((v->*std::move(at)[w]) == v - w); VP_ENSURES((v->*std::move(std::as_const(at))[w]) == v - w);
  int out = 0; Val x{v}; const Val y{v}; best::tap kind = [&](int) { return Kind{&out}; };
  VP_ENSURES((v->*kind(x)) == 1 && (v->*kind(y)) == 2 && (v->*kind(Val{v})) == 3);
  best::tap none = [](int a) { return [=] { return a; }; }; VP_ENSURES((v->*none()) == v);
}
VP_CONTRACT(G01, tap_inspect) {
  int v = int(any("v")), calls = 0, ret = int(any("r")); Val x{v}; const Val y{v};
  auto look = best::inspect([&](auto& z) { ++calls; VP_ENSURES(z.v == v); return ret; });
  VP_ENSURES(&(x->*look) == &x && calls == 1 && &(y->*look) == &y && calls == 2); VP_ENSURES((same<decltype(x->*look), Val&> && same<decltype(y->*look), const Val&>));
  VP_ENSURES((x->*look->*look).v == v && calls == 4);
  auto change = best::inspect([&](Val& z) { z.v = ret; }); VP_ENSURES(&(x->*change) == &x && x.v == ret);
  int n = 0; auto f = [&](const Val& z) { ++n; VP_ENSURES(z.v == ret); }; VP_ENSURES(&(x->*best::inspect(best::bind, f)) == &x && n == 1);
  int b = live; { Pinned p{v}; VP_ENSURES((std::move(p)->*best::inspect([&](Pinned& q) { VP_ENSURES(&q == &p && q.alive()); ++n; })).alive() && n == 2 && live == b + 1); } VP_ENSURES(live == b);
}
#endif
