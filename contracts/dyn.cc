// Contracts for best/func/fnref.h, best/func/dyn.h and boxes of dyn.
#include "best/func/fnref.h"
#include "best/func/dyn.h"
#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/row.h"
#include "vp.h"
#include "link.h"
#if defined(VP_PROP_D01)
#include "track.h"
namespace {
template <typename T, typename U> inline constexpr bool same = std::is_same_v<T, U>;
int num(const char* n) { return vp::any<int>(n); }
unsigned mix(unsigned a, unsigned b) { return a * 3 ^ b; }
unsigned third(unsigned a, unsigned b) { return a + b * 5; }
void bump(int& x) { x ^= 0x55; }
// Says through which kind of reference it is called, and on which object.
struct Callable {
  unsigned k; const void** self; bool alive = true;
  unsigned operator()(unsigned a, unsigned b) { *self = this; return k ^ mix(a, b); }
  unsigned operator()(unsigned a, unsigned b) const { *self = this; return k + mix(a, b); }
};
}
VP_CONTRACT(D01, fnref_free) {
  unsigned a = num("a"), b = num("b"); bool which = vp::any<bool>("which");
  best::fnref<unsigned(unsigned, unsigned)> f = which ? &mix : &third; best::fnref<unsigned(unsigned, unsigned) const> const g = which ? &third : &mix;
  VP_ENSURES(f(a, b) == (which ? mix(a, b) : third(a, b))); VP_ENSURES(g(a, b) == (which ? third(a, b) : mix(a, b)));
  VP_ENSURES(f && !(f == nullptr) && g && !(g == nullptr));
  best::fnref<unsigned(unsigned, unsigned)> none = nullptr; VP_ENSURES(!none && none == nullptr); unsigned (*null)(unsigned, unsigned) = nullptr; none = null; VP_ENSURES(!none && none == nullptr);
  none = f; VP_ENSURES(none(b, a) == f(b, a)); f = &third; VP_ENSURES(f(a, b) == third(a, b) && none(a, b) == (which ? mix(a, b) : third(a, b)));
  int x = num("x"), y = x; best::fnref<void(int&)> v = bump; v(x); VP_ENSURES(x == (y ^ 0x55));
}
VP_CONTRACT(D01, fnref_closure) {
  unsigned a = num("a"), b = num("b"), c = num("c"), calls = 0;
  auto cl = [&](unsigned x) { ++calls; return x + c; };
  best::fnref<unsigned(unsigned)> f = cl; best::fnref<unsigned(unsigned) const> g = cl;
  VP_ENSURES(f(a) == a + c && calls == 1); VP_ENSURES(g(b) == b + c && calls == 2); c = a; VP_ENSURES(f(b) == b + a && calls == 3);
  auto mut = [n = b](unsigned x) mutable { return n += x; };
  best::fnref<unsigned(unsigned)> m = mut; auto m2 = m; VP_ENSURES(m(a) == b + a); VP_ENSURES(m2(a) == b + 2 * a); VP_ENSURES(mut(0) == b + 2 * a);
  auto plain = [](unsigned x, unsigned y) { return mix(x, y); }; best::fnref<unsigned(unsigned, unsigned)> p = plain; best::fnref<unsigned(unsigned, unsigned) const> q = plain;
  VP_ENSURES(p(a, b) == mix(a, b)); VP_ENSURES(q(b, a) == mix(b, a)); VP_ENSURES(f && m && p && q && f != nullptr);
  // Called within the full expression that makes it.
  VP_ENSURES((best::fnref<unsigned(unsigned)>([&](unsigned x) { return x ^ c; })(b) == (b ^ c)));
  // Results that are dropped or converted.
  best::fnref<void(unsigned)> d = cl; unsigned before = calls; d(a); VP_ENSURES(calls == before + 1); best::fnref<long(int)> w = cl; VP_ENSURES(w(int(a)) == long(a + a) && calls == before + 2);
}
VP_CONTRACT(D01, fnref_object) {
  unsigned a = num("a"), b = num("b"); const void* self = nullptr; Callable o{unsigned(num("k")), &self}, other{o.k + 1, &self}; const Callable k{unsigned(num("l")), &self};
  best::fnref<unsigned(unsigned, unsigned)> f = o; VP_ENSURES(f(a, b) == (o.k ^ mix(a, b)) && self == &o);
  best::fnref<unsigned(unsigned, unsigned) const> g = o; VP_ENSURES(g(a, b) == o.k + mix(a, b) && self == &o);
  const best::fnref<unsigned(unsigned, unsigned) const> i = k; VP_ENSURES(i(b, a) == k.k + mix(b, a) && self == &k);
  f = other; VP_ENSURES(f(a, b) == (other.k ^ mix(a, b)) && self == &other);
  // Through an explicitly given object and function.
  using F = best::fnref<unsigned(unsigned)>;
  F u(best::unsafe("the closure takes the type of the object"), &o, [](Callable& c, unsigned x) { return c.k ^ x; }); VP_ENSURES(u(a) == (o.k ^ a));
  F t(best::unsafe("the function takes the type of the object"), &o, +[](void* c, unsigned x) { return static_cast<Callable*>(c)->k - x; }); VP_ENSURES(t(a) == o.k - a);
  F::fnptr none, z = nullptr, full = [](Callable& c, unsigned x) { return c.k ^ x; }; VP_ENSURES(!none && none == nullptr && !z && full && !(full == nullptr));
}
VP_CONTRACT(D01, fnref_arguments) {
  // Arguments keep their identity and value category, and are passed exactly once.
  int v = num("v"), before = live;
  {
    Pinned p(v); const void* seen = nullptr;
    auto ref = [&](Pinned& x, const Pinned& y, const void*& z) -> Pinned& { z = &y; VP_ENSURES(x.alive() && y.alive()); return x; };
    best::fnref<Pinned&(Pinned&, const Pinned&, const void*&)> f = ref; Pinned q(v); VP_ENSURES(&f(p, q, seen) == &p && seen == &q);
    auto val = [&](Pinned x) { VP_ENSURES(x.alive() && x.v == v && &x != &p); return x; };
    best::fnref<Pinned(Pinned)> g = val; { Pinned r = g(p); VP_ENSURES(r.alive() && r.v == v && p.alive() && live == before + 3); } VP_ENSURES(live == before + 2);
  }
  VP_ENSURES(live == before && vp_heap_live() == 0);
}
// An interface with required, constant, defaulted and reference-passing functions, and three kinds of implementation.
namespace {
class Cell : public best::interface_base<Cell> {
 public:
  BEST_INTERFACE(Cell, (int, get, (), const), (void, set, (int x, int y)), (int&, ref, (int& other, bool mine)), (void, reset, (int to)), (const void*, self, (), const), ((best::row<int, long>), pair, (int), const));
 private:
  void reset(best::defaulted, int to) { set(to, get()); }
};
class Peek : public best::interface_base<Peek> {
 public:
  BEST_INTERFACE(Peek, (long, peek, (), const), (void, poke, (int)));
};
// Implements both by having the members (reset among them).
struct Members {
  int v, w;
  int get() const { return v; }
  int set(int x, int y) { v = x; w = y; return 9; }
  int& ref(int& other, bool mine) { return mine ? w : other; }
  void reset(int to) { v = w = to; }
  const void* self() const { return this; }
  best::row<int, long> pair(int x) const { return {x, v}; }
  int peek() const { return w; }
  void poke(int x) { w = x; }
};
// Gets reset from the interface, and detects being destroyed or copied as the wrong thing.
struct Part {
  Pinned p; int w = 0;
  Part(int v) : p(v) {}
  int get() const { return val_of(p); }
  void set(int x, int y) { VP_ENSURES(p.alive()); p.v = x; w = y; }
  int& ref(int& other, bool mine) { return mine ? p.v : other; }
  const void* self() const { return this; }
  best::row<int, long> pair(int x) const { return {p.v, x}; }
};
// As big as Part, but another type.
struct Rival {
  const Rival* me; int v, w; long unused = 0;
  Rival(int v) : me(this), v(v), w(0) { ++live; }
  Rival(const Rival& o) : me(this), v(o.v), w(o.w) { VP_ENSURES(o.me == &o); ++live; }
  ~Rival() { VP_ENSURES(me == this); me = nullptr; --live; }
  int get() const { VP_ENSURES(me == this); return ~v; }
  void set(int x, int y) { v = x; w = y; }
  int& ref(int& other, bool mine) { return mine ? v : other; }
  const void* self() const { return this; }
  best::row<int, long> pair(int x) const { return {x, x}; }
};
// Cannot be copied.
struct Fixed : Part { Owner o; Fixed(int v) : Part(v), o(v) {} Fixed(const Fixed&) = delete; Fixed(Fixed&&) = default; };
// Implemented from outside, with functions written as closures and as a function pointer, and the default for reset.
constexpr best::vtable<Cell> BestImplements(long*, Cell*) {
  return {
    .get = [](const long& s) { return int(s); },
    .set = [](long& s, int x, int y) { s = long(x) << 32 | unsigned(y); },
    .ref = +[](void*, int& other, bool) -> int& { return other; },
    .self = [](const long& s) -> const void* { return &s; },
    .pair = [](const long& s, int x) { return best::row<int, long>(x, s); },
  };
}
static_assert(sizeof(Part) == sizeof(Rival) && alignof(Part) == alignof(Rival));
struct Args { int a = num("a"), b = num("b"), c = num("c"); bool mine = vp::any<bool>("mine"); };
// Every function of the interface, called through what p gives, on the object o.
void calls(auto p, Members& o, Args x) {
  VP_ENSURES(p()->get() == o.v && p()->self() == &o); p()->set(x.a, x.b); VP_ENSURES(o.v == x.a && o.w == x.b && p()->get() == x.a);
  int other = 0; int& r = p()->ref(other, x.mine); VP_ENSURES(&r == (x.mine ? &o.w : &other)); r = x.c; VP_ENSURES(o.w == (x.mine ? x.c : x.b));
  auto pr = p()->pair(x.c); VP_ENSURES(pr.first() == x.c && pr.second() == x.a); p()->reset(x.b); VP_ENSURES(o.v == x.b && o.w == x.b);
}
void calls(auto p, Part& o, Args x) {
  VP_ENSURES(p()->get() == o.p.v && p()->self() == &o); p()->set(x.a, x.b); VP_ENSURES(o.p.v == x.a && o.w == x.b && p()->get() == x.a);
  int other = 0; VP_ENSURES(&p()->ref(other, x.mine) == (x.mine ? &o.p.v : &other)); auto pr = p()->pair(x.c); VP_ENSURES(pr.first() == x.a && pr.second() == x.c);
  p()->reset(x.b); VP_ENSURES(o.p.v == x.b && o.w == x.a);
}
void calls(auto p, long& o, Args x) {
  VP_ENSURES(p()->get() == int(o) && p()->self() == &o); p()->set(x.a, x.b); VP_ENSURES(o == (long(x.a) << 32 | unsigned(x.b)) && p()->get() == x.b);
  int other = 0; VP_ENSURES(&p()->ref(other, x.mine) == &other); auto pr = p()->pair(x.c); VP_ENSURES(pr.first() == x.c && pr.second() == o);
  p()->reset(x.c); VP_ENSURES(o == (long(x.c) << 32 | unsigned(x.b)));
}
void consts(auto p, const Members& o) { VP_ENSURES(p()->get() == o.v && p()->self() == &o && p()->pair(1).second() == o.v); }
template <typename P, typename T> void pointer(T o) {
  Args x; P p = &o; calls([&] { return p; }, o, x); P q = p; calls([&] { return q; }, o, x); q = P(&o); calls([&] { return q; }, o, x);
  VP_ENSURES(p.raw() == &o && p.layout() == best::layout::of<T>() && p == q && p.can_copy() == best::copyable<T>);
}
}
VP_CONTRACT(D01, dyn_pointer_members) { pointer<best::dynptr<Cell>>(Members{num("v"), num("w")}); }
VP_CONTRACT(D01, dyn_pointer_defaulted) { pointer<best::dynptr<Cell>>(Part(num("v"))); }
VP_CONTRACT(D01, dyn_pointer_external) { pointer<best::dynptr<Cell>>(vp::any<long>("v")); }
VP_CONTRACT(D01, dyn_pointer_rebound) {
  Args x; Members m{num("v"), num("w")}, n{x.a, x.b}; Part t(num("t")); long l = vp::any<long>("l"); unsigned pick = num("pick");
  best::dynptr<Cell> p = &m; if (pick == 1) p = &t; else if (pick == 2) p = &l; else if (pick == 3) p = &n;
  int got = p->get(); const void* self = p->self();
  if (pick == 1) VP_ENSURES(got == t.p.v && self == &t); else if (pick == 2) VP_ENSURES(got == int(l) && self == &l); else if (pick == 3) VP_ENSURES(got == x.a && self == &n); else VP_ENSURES(got == m.v && self == &m);
  vp_cover(pick == 1 ? "part" : "other");
}
VP_CONTRACT(D01, dyn_const) {
  Members m{num("v"), num("w")}; const Members k{num("u"), 0};
  best::dynptr<const Cell> p = &m; consts([&] { return p; }, m); best::dynptr<Cell> q = &m; p = q; consts([&] { return p; }, m); best::dynptr<const Cell> r = q; consts([&] { return r; }, m); consts([&] { return q.as_const(); }, m);
  q->set(4, 5); VP_ENSURES(p->get() == 4 && m.w == 5); (void)k;
}
VP_CONTRACT(D01, dyn_of) {
  Args x; Members m{num("v"), num("w")}; long l = vp::any<long>("l"); Part t(num("t"));
  calls([&] { return Cell::of(m); }, m, x); calls([&] { return Cell::of(&m); }, m, x); calls([&] { return Cell::of(l); }, l, x); calls([&] { return Cell::of(t); }, t, x); calls([&] { return best::as_dyn<Cell>(m); }, m, x);
  best::dynptr<Cell> p = &m; calls([&] { return Cell::of(p); }, m, x); best::dynptr<Cell, Peek> q = &m; calls([&] { return Cell::of(q); }, m, x); 
  VP_ENSURES(Peek::of(q)->peek() == m.w); Peek::of(q)->poke(x.c); VP_ENSURES(m.w == x.c);
}
VP_CONTRACT(D01, dyn_two_interfaces) {
  Args x; Members m{num("v"), num("w")}; best::dynptr<Cell, Peek> p = &m; best::dynptr<Peek, Cell> q = &m;
  calls([&] { return p[best::types<Cell>]; }, m, x); calls([&] { return q[best::types<Cell>]; }, m, x);
  VP_ENSURES(p[best::types<Peek>]->peek() == m.w && q[best::types<Peek>]->peek() == m.w); q[best::types<Peek>]->poke(x.c); VP_ENSURES(m.w == x.c && p[best::types<Peek>]->peek() == x.c);
  best::dynptr<const Cell, Peek> r = &m; VP_ENSURES(r[best::types<const Cell>]->get() == m.v); r[best::types<Peek>]->poke(x.a); VP_ENSURES(m.w == x.a);
}
VP_CONTRACT(D01, dyn_itable) {
  const auto& t = best::itable<Cell>::of(best::types<Part>); const auto& f = best::itable<Cell>::of(best::types<Fixed>);
  VP_ENSURES(t.layout() == best::layout::of<Part>() && t.can_copy() && f.layout() == best::layout::of<Fixed>() && !f.can_copy());
  int before = live, v = num("v"); { alignas(Part) char raw[sizeof(Part)]; Part p(v); t.copy(raw, &p); VP_ENSURES(live == before + 2 && reinterpret_cast<Part*>(raw)->get() == v); t.destroy(raw); VP_ENSURES(live == before + 1 && p.p.alive()); } VP_ENSURES(live == before);
}
// Boxes: the right destructor, copy constructor and layout, whatever the box held before.
namespace {
using Box = best::dynbox<Cell>;
Box make(unsigned kind, int v) { if (kind == 0) return best::box<Part>(v); if (kind == 1) return best::box<Rival>(v); if (kind == 2) return best::box<long>(long(v)); return best::box<Fixed>(v); }
int count(unsigned kind) { return kind == 2 ? 0 : kind == 3 ? 2 : 1; }
unsigned blocks(unsigned kind) { return kind == 3 ? 2 : 1; }
bool holds(const Box& b, unsigned kind, int v) { return b->get() == (kind == 1 ? ~v : v) && b.layout() == (kind == 0 ? best::layout::of<Part>() : kind == 1 ? best::layout::of<Rival>() : kind == 2 ? best::layout::of<long>() : best::layout::of<Fixed>()); }
struct Pair { unsigned j = num("first") & 3, k = num("second") & 3; int v = num("v"), w = num("w"); int all() const { return count(j) + count(k); } unsigned mem() const { return blocks(j) + blocks(k); } };
void end() { VP_ENSURES(live == 0 && vp_heap_live() == 0); }
}
VP_CONTRACT(D01, box_make) {
  Pair p; { Box b = make(p.j, p.v); VP_ENSURES(holds(b, p.j, p.v) && live == count(p.j) && vp_heap_live() == blocks(p.j)); b->set(p.w, 0); VP_ENSURES(p.j == 2 || holds(b, p.j, p.w)); best::dynptr<Cell> q = b; VP_ENSURES(q->self() == b->self() && q->self() == b.as_ptr().raw()); } end();
  if (p.j == 3) vp_cover("fixed"); else vp_cover("other");
}
VP_CONTRACT(D01, box_move) {
  Pair p; {
    Box b = make(p.j, p.v); const void* at = b->self(); Box c = std::move(b); VP_ENSURES(holds(c, p.j, p.v) && c->self() == at && live == count(p.j));
    Box d = make(p.k, p.w); d = std::move(c); VP_ENSURES(holds(d, p.j, p.v) && d->self() == at && live == count(p.j) && vp_heap_live() == blocks(p.j));
    b = make(p.k, p.w); VP_ENSURES(holds(b, p.k, p.w) && holds(d, p.j, p.v) && live == p.all()); Box& same = d; d = std::move(same); VP_ENSURES(holds(d, p.j, p.v)); std::swap(b, d); VP_ENSURES(holds(b, p.j, p.v) && holds(d, p.k, p.w) && live == p.all() && vp_heap_live() == p.mem());
  } end();
}
VP_CONTRACT(D01, box_try_copy) {
  Pair p; {
    const Box b = make(p.j, p.v); auto c = b.try_copy(); VP_ENSURES(c.has_value() == (p.j != 3));
    if (c) { VP_ENSURES(holds(*c, p.j, p.v) && live == 2 * count(p.j) && vp_heap_live() == 2 && (*c)->self() != b->self()); (*c)->set(p.w, p.w); VP_ENSURES(holds(b, p.j, p.v)); } else VP_ENSURES(live == count(3) && vp_heap_live() == 2);
    if (c) vp_cover("copied"); else vp_cover("not");
  } end();
}
VP_CONTRACT(D01, box_option) {
  Pair p; {
    best::option<Box> o; VP_ENSURES(o.is_empty() && sizeof(o) == sizeof(Box)); o = make(p.j, p.v); VP_ENSURES(o.has_value() && holds(*o, p.j, p.v)); o = make(p.k, p.w); VP_ENSURES(holds(*o, p.k, p.w) && live == count(p.k));
    o = best::none; VP_ENSURES(o.is_empty() && live == 0 && vp_heap_live() == 0); o = make(p.j, p.v); auto t = std::move(o); o.reset(); VP_ENSURES(o.is_empty() && holds(*t, p.j, p.v) && live == count(p.j));
  } end();
}
VP_CONTRACT(D01, box_raw) {
  Pair p; { Box b = make(p.j, p.v); best::dynptr<Cell> q = std::move(b).leak(); VP_ENSURES(q->get() == (p.j == 1 ? ~p.v : p.v) && live == count(p.j)); Box c(best::unsafe("it came from a box"), q); VP_ENSURES(holds(c, p.j, p.v)); } end();
}
VP_CONTRACT(D01, ptr_copy) {
  // Copying over an object destroys it as what it was.
  Pair p; VP_REQUIRES(p.j <= 1 && p.k <= 1); {
    Box a = make(p.j, p.v), b = make(p.k, p.w); auto raw = std::move(a).leak();
    best::dynptr<Cell> now = raw.try_copy_assign(b.as_ptr()); Box c(best::unsafe("a block of the same layout"), now);
    VP_ENSURES(holds(c, p.k, p.w) && holds(b, p.k, p.w) && live == 2 && c->self() == now.raw());
  } end();
}
#endif
