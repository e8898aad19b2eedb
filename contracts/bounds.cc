// B01 bounds resolution, B02 integer ranges.
#include "vp.h"
#include "open.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "best/memory/span.h"
#include "link.h"
using W = __int128;
template <typename I> constexpr W lo_ = W(std::numeric_limits<I>::min());
template <typename I> constexpr W hi_ = W(std::numeric_limits<I>::max());
// An arbitrary range specification, and the interval [lo, hi) it denotes in a sequence of `max` elements (has_max = false: no limit).
template <typename I> struct Spec {
  I start = vp::any<I>("start");
  bool he = vp::any<bool>("has end"), hi = vp::any<bool>("has including_end"), hc = vp::any<bool>("has count");
  I e = vp::any<I>("end"), i = vp::any<I>("including_end"), c = vp::any<I>("count");
  best::int_range<I> range() const {
    best::int_range<I> r{.start = start};
    if (he) r.end = e;
    if (hi) r.including_end = i;
    if (hc) r.count = c;
    return r;
  }
  bool bounded() const { return he || hi || hc; }
  // "If more than one is specified, the first one in the above list wins."
  // an end below the start, or an inclusive end below the start, is not a range
  bool inverted() const { return he ? e < start : hi ? i < start : false; }
  W upper(W unlimited) const { return he ? W(e) : hi ? W(i) + 1 : hc ? W(start) + W(c) : unlimited; }
};

#ifdef VP_PROP_B01
VP_CONTRACT(B01, try_compute_count) {
  Spec<size_t> s; size_t max = vp::any<size_t>("max"); bool hm = vp::any<bool>("has max");
  W hi = s.upper(max);
  bool ok = (s.bounded() || hm) && !s.inverted() && hi >= W(s.start) && hi - W(s.start) <= hi_<size_t> && (!hm || hi <= W(max));
  if (!hm) ok = ok && (s.he || s.hi || hi <= hi_<size_t>);
  auto r = hm ? s.range().try_compute_count(max) : s.range().try_compute_count({});
  VP_ENSURES(r.has_value() == ok);
  if (ok) { VP_ENSURES(*r == size_t(hi - W(s.start))); vp_cover("resolved"); }
  if (ok && hm) VP_ENSURES(W(s.start) + W(*r) <= W(max));
}
VP_CONTRACT(B01, compute_count) {
  Spec<size_t> s; size_t max = vp::any<size_t>("max");
  W hi = s.upper(max);
  vp_expect_crash(s.inverted() || hi < W(s.start) || hi > W(max));
  size_t r = s.range().compute_count(max);
  vp_returned("a range that does not fit crashes");
  VP_ENSURES(r == size_t(hi - W(s.start)));
}
VP_CONTRACT(B01, with_location) {
  Spec<size_t> s; size_t max = vp::any<size_t>("max");
  W hi = s.upper(max);
  best::bounds::with_location w = s.range();
  best::bounds b = w;
  VP_ENSURES(b.start == s.start && b.end.has_value() == s.he && b.including_end.has_value() == s.hi && b.count.has_value() == s.hc);
  if (s.he) VP_ENSURES(*b.end == s.e);
  if (s.hi) VP_ENSURES(*b.including_end == s.i);
  if (s.hc) VP_ENSURES(*b.count == s.c);
  vp_expect_crash(s.inverted() || hi < W(s.start) || hi > W(max));
  size_t r = w.compute_count(max);
  vp_returned("a range that does not fit crashes");
  VP_ENSURES(r == size_t(hi - W(s.start)));
}
// Wrapping normalisation sets only .count, modulo 2^width.
template <typename I> void wrapping_() {
  Spec<I> s; I max = vp::any<I>("max");
  auto n = s.range().wrapping_normalize(max);
  VP_ENSURES(n.start == s.start && !n.end && !n.including_end && n.count.has_value());
  VP_ENSURES(*n.count == I(s.upper(max) - W(s.start)));
}
VP_CONTRACT(B01, wrapping_u8) { wrapping_<unsigned char>(); }
VP_CONTRACT(B01, wrapping_i8) { wrapping_<signed char>(); }
VP_CONTRACT(B01, wrapping_i32) { wrapping_<int>(); }
VP_CONTRACT(B01, wrapping_size) { wrapping_<size_t>(); }
#endif

#ifdef VP_PROP_B02
// The integers denoted by a specification. Ranges are required to stay inside I.
template <typename I> struct Walk {
  W lo, hi;
  Walk(const Spec<I>& s) {
    lo = s.start; hi = s.upper(hi_<I> + 1);
    VP_REQUIRES(hi <= hi_<I> + 1);
    if (!s.he && !s.hi && s.hc) VP_REQUIRES(s.c >= 0 && hi <= hi_<I>);
    if (s.inverted()) hi = lo;
  }
};
// What is left to yield: the integers lo..last, or nothing.
template <typename It, typename I> struct Ctx {
  using U = std::make_unsigned_t<I>;
  It* it; I lo, last; bool done;
  size_t todo = 0;  // ranking ghost of the loop contract
  // representation invariant of the iterator (a hint only: nothing is assumed from it)
  static bool rep(Ctx* c, size_t) {
    auto& i = c->it->impl_;
    if constexpr (requires { i.start_; i.count_; i.plus_one_; }) {
      if ((i.count_ == 0 && !i.plus_one_) != c->done) return false;
      return c->done || (i.start_ == c->lo && c->lo <= c->last && U(U(c->last) - U(c->lo)) == U(U(i.count_) + i.plus_one_ - 1));
    } else return true;
  }
  static bool counted(Ctx* c, size_t z) { return rep(c, z) && c->todo == c->left(); }
  size_t left() { return done ? 0 : size_t(U(U(last) - U(lo))) + 1; }  // modulo 2^64
  bool all() { return !done && size_t(U(U(last) - U(lo))) == SIZE_MAX; }
  void front() { if (lo == last) done = true; else lo = I(lo + 1); }
  void back() { if (lo == last) done = true; else last = I(last - 1); }
};
// Every way to write a range starts the walk at its first and last integer.
template <typename I, int what> void forms_() {
  Spec<I> s; Walk<I> w(s);
  W left = w.hi - w.lo;
  auto it = s.range().iter();
  if constexpr (what == 0) {
    auto h = it.size_hint();
    if (left <= hi_<size_t>) VP_ENSURES(W(h.lower) == left && h.upper.has_value() && W(*h.upper) == left);
    auto x = it.next();
    VP_ENSURES(x.has_value() == (left > 0));
    if (left > 0) VP_ENSURES(W(*x) == w.lo);
    x = it.next();
    VP_ENSURES(x.has_value() == (left > 1));
    if (left > 1) { VP_ENSURES(W(*x) == w.lo + 1); vp_cover("two"); }
    VP_ENSURES(BEST_MOVE(it).count() == size_t(left < 2 ? 0 : left - 2));
  } else if constexpr (what == 1) {
    auto x = it.next_back();
    VP_ENSURES(x.has_value() == (left > 0));
    if (left > 0) VP_ENSURES(W(*x) == w.hi - 1);
    x = it.next_back();
    VP_ENSURES(x.has_value() == (left > 1));
    if (left > 1) { VP_ENSURES(W(*x) == w.hi - 2); vp_cover("two"); }
    VP_ENSURES(BEST_MOVE(it).count() == size_t(left < 2 ? 0 : left - 2));
  } else {
    VP_ENSURES(s.range().iter().count() == size_t(left));
    auto x = s.range().iter().last();
    VP_ENSURES(x.has_value() == (left > 0));
    if (left > 0) { VP_ENSURES(W(*x) == w.hi - 1); vp_cover("last"); }
    auto b = begin(s.range());
    bool more = b != end(s.range());
    VP_ENSURES(more == (left > 0));
    if (more) { I y = *b; VP_ENSURES(W(y) == w.lo); vp_cover("begin"); }
  }
}
// ... and from there any number of steps from either end yields the rest, in order, then stops.
template <typename I> void steps_() {
  I a = vp::any<I>("first"), b = vp::any<I>("last"); VP_REQUIRES(a <= b);
  auto it = best::int_range<I>{.start = a, .including_end = b}.iter();
  Ctx<decltype(it), I> c{&it, a, b, false};
  vp::hint<Ctx<decltype(it), I>>(&Ctx<decltype(it), I>::rep, &c, 0);
  size_t k = vp::any<size_t>("steps");
  for (size_t i = 0; i < k; ++i) {
    if (vp::any<bool>("front")) {
      auto x = it.next();
      VP_ENSURES(x.has_value() == !c.done);
      if (!c.done) { VP_ENSURES(*x == c.lo); c.front(); vp_cover("front"); }
    } else {
      auto x = it.next_back();
      VP_ENSURES(x.has_value() == !c.done);
      if (!c.done) { VP_ENSURES(*x == c.last); c.back(); vp_cover("back"); }
    }
  }
  auto h = it.size_hint();
  if (!c.all()) VP_ENSURES(h.lower == c.left() && h.upper.has_value() && *h.upper == c.left());
  if (vp::any<bool>("then last")) {
    auto x = BEST_MOVE(it).last();
    VP_ENSURES(x.has_value() == !c.done);
    if (!c.done) VP_ENSURES(*x == c.last);
  } else {
    VP_ENSURES(BEST_MOVE(it).count() == c.left());
  }
}
// Range-for visits the same integers.
template <typename I> void loop_() {
  I a = vp::any<I>("first"), b = vp::any<I>("last"); VP_REQUIRES(a <= b);
  if (sizeof(I) == 8) VP_REQUIRES(a > std::numeric_limits<I>::min() || b < std::numeric_limits<I>::max());
  auto r = best::int_range<I>{.start = a, .including_end = b};
  auto it = begin(r);
  using It = decltype(it);
  Ctx<It, I> c{&it, a, b, false};
  c.todo = c.left();
  vp::hint<Ctx<It, I>>(&Ctx<It, I>::counted, &c, 0);
  for (; it != end(r); ++it) {
    I x = *it;
    VP_ENSURES(!c.done && x == c.lo); c.front(); c.todo -= 1;
  }
  VP_ENSURES(c.done);
}
#define X(n, I) VP_CONTRACT(B02, steps_##n) { steps_<I>(); } VP_CONTRACT(B02, loop_##n) { loop_<I>(); } \
  VP_CONTRACT(B02, front_##n) { forms_<I, 0>(); } VP_CONTRACT(B02, back_##n) { forms_<I, 1>(); } VP_CONTRACT(B02, last_##n) { forms_<I, 2>(); }
X(u8, unsigned char) X(i8, signed char) X(u16, unsigned short) X(i16, short) X(u32, unsigned) X(i32, int) X(u64, unsigned long) X(i64, long)
#undef X
#endif
