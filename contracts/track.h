// Element types that know whether they are alive, and how many of them are.
#ifndef TRACK_H_
#define TRACK_H_
#include "best/base/hint.h"
namespace {
int live;
// Read before anything is written, since source and destination may be the same storage.
inline int val_of(const auto& o) { VP_ENSURES(o.alive()); return o.v; }
// Element types that know whether they are alive: one by its own address, one that moves as bytes, one that owns memory.
struct Pinned {
  int v; const Pinned* self;
  bool alive() const { return self == this; }
  Pinned(int v) : v(v), self(this) { ++live; }
  Pinned(const Pinned& o) : v(val_of(o)), self(this) { ++live; }
  Pinned(Pinned&& o) : v(val_of(o)), self(this) { ++live; }
  Pinned& operator=(const Pinned& o) { VP_ENSURES(alive() && o.alive()); v = o.v; return *this; }
  Pinned& operator=(Pinned&& o) { VP_ENSURES(alive() && o.alive()); v = o.v; return *this; }
  ~Pinned() { VP_ENSURES(alive()); self = nullptr; --live; }
};
struct BEST_RELOCATABLE Bytes {
  int v; unsigned magic;
  bool alive() const { return magic == 0x5ca1ab1e; }
  Bytes(int v) : v(v), magic(0x5ca1ab1e) { ++live; }
  Bytes(const Bytes& o) : v(val_of(o)), magic(o.magic) { ++live; }
  Bytes(Bytes&& o) : v(val_of(o)), magic(o.magic) { ++live; }
  Bytes& operator=(const Bytes& o) { VP_ENSURES(alive() && o.alive()); v = o.v; return *this; }
  Bytes& operator=(Bytes&& o) { VP_ENSURES(alive() && o.alive()); v = o.v; return *this; }
  ~Bytes() { VP_ENSURES(alive()); magic = 0; --live; }
};
struct Owner {
  int v; int* p;
  bool alive() const { return *p == v; }
  Owner(int v) : v(v), p(new int(v)) { ++live; }
  Owner(const Owner& o) : v(val_of(o)), p(new int(*o.p)) { ++live; }
  Owner(Owner&& o) : v(val_of(o)), p(new int(*o.p)) { ++live; }
  Owner& operator=(const Owner& o) { v = *o.p; *p = v; return *this; }
  Owner& operator=(Owner&& o) { v = *o.p; *p = v; return *this; }
  ~Owner() { VP_ENSURES(*p == v); delete p; --live; }
};
}
#endif
