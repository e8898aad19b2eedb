// Native implementation of the specification primitives: runs the very same contracts against the real code on concrete inputs.
//   prog CONTRACT replay FILE      values in order: "v HEX" | "b HEXBYTES"
//   prog CONTRACT random SEED N    random search; prints the values of the first failing run
// Exit: 0 nothing wrong, 77 precondition not met, 1 contract violated (sanitizers abort with other codes).
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <string>
#include <vector>
#include "best/log/internal/crash.h"

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static long g_live = 0;
static bool g_count = false;
static void on_malloc(const volatile void*, size_t) { if (g_count) ++g_live; }
static void on_free(const volatile void* p) { if (g_count && p) --g_live; }

static bool g_random;
static uint64_t g_rng;
static int g_style;
struct Item { bool buf; std::string bytes; uint64_t v; };
static std::vector<Item> g_in;     // replay input
static size_t g_pos;
static std::string* g_log;         // values drawn in this run (random mode)
static bool g_expect;
static jmp_buf g_jmp;
static std::vector<void*> g_bufs;
static uint64_t g_lastn;

static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng * 0x2545F4914F6CDD1DULL; }
static uint64_t pick(int bits) {
  uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
  uint64_t r = rnd();
  switch ((r >> 8) % 12) {
    case 0: case 1: case 2: return (r >> 20) % 4 & m;
    case 3: case 4: return (r >> 20) % 10 & m;
    case 5: return (r >> 20) % 40 & m;
    case 6: return (0 - (r >> 20) % 4) & m;
    case 7: return ((1ull << ((r >> 20) % bits)) + (r >> 40) % 3 - 1) & m;
    case 8: return ((m >> 1) + (r >> 20) % 4 - 1) & m;
    case 9: return (0x20 + (r >> 20) % 96) & m;
    case 10: { uint64_t t[] = {0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7f, 0x80, 0x7ff, 0x800, 0xff, 0x100, 0xdc00, 0xdbff}; return t[(r >> 20) % 16] & m; }
    default: return rnd() & m;
  }
}
static unsigned char pickb() {
  uint64_t r = rnd();
  switch (g_style) {
    case 0: return r >> 8 & 3;
    case 1: { static const unsigned char t[] = {0x00, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff, 0xa0, 0x90, 0x8f, 0x9f, 0xd8, 0xdc}; return t[(r >> 8) % sizeof t]; }
    case 2: return 0x20 + (r >> 8) % 96;
    case 3: { static const char t[] = "{}:?!<^>#0123456789.xXq-+ aZ"; return t[(r >> 8) % (sizeof t - 1)]; }
    case 4: { static const char t[] = "-+0019afzZ "; return t[(r >> 8) % (sizeof t - 1)]; }
    case 5: return (r >> 8 & 7) ? 0 : (r >> 16 & 0xff);
    default: return r >> 8;
  }
}
extern "C" {
static void logv(uint64_t v) { if (g_log) { char b[40]; snprintf(b, sizeof b, "v %llx\n", (unsigned long long)v); *g_log += b; } }
uint64_t vp_nd(int bits, const char*) {
  uint64_t v;
  if (g_random) v = pick(bits);
  else v = g_pos < g_in.size() && !g_in[g_pos].buf ? g_in[g_pos].v : 0, ++g_pos;
  if (bits < 64) v &= (1ull << bits) - 1;
  logv(v);
  g_lastn = v;
  return v;
}
void vp_assume(bool c) { if (!c) longjmp(g_jmp, 77); }
void vp_assert(bool c, const char* l) { if (!c) { g_count = false; fprintf(stderr, "contract violated: %s\n", l); longjmp(g_jmp, 1); } }
void vp_expect_crash(bool c) { g_expect = c; }
void vp_returned(const char* l) { if (g_expect) { g_count = false; fprintf(stderr, "call returned but must crash: %s\n", l); longjmp(g_jmp, 1); } g_expect = false; }
void vp_cover(const char*) {}
void* vp_buf(size_t n, size_t esz, size_t align, const char*) {
  if (g_random && n > 4096 / (esz ? esz : 1)) longjmp(g_jmp, 77);
  bool c = g_count; g_count = false;
  if (n > (1ull << 28)) { fprintf(stderr, "input too large to replay\n"); longjmp(g_jmp, 78); }
  size_t sz = n * esz;
  unsigned char* p = (unsigned char*)malloc(sz ? sz : 1);
  if (!sz) { free(p); p = (unsigned char*)malloc(align ? align : 1); p += align; /* one-past */ g_bufs.push_back(p - align); }
  else g_bufs.push_back(p);
  if (g_random) {
    for (size_t i = 0; i < sz; ++i) p[i] = esz == 1 ? pickb() : 0;
    if (esz > 1) {
      int bits = esz * 8 > 64 ? 64 : esz * 8;
      size_t step = bits / 8;
      while (esz % step) step /= 2;
      for (size_t i = 0; i + step <= sz; i += step) { uint64_t v = g_style == 0 ? rnd() >> 8 & 3 : g_style == 5 ? (rnd() & 256 ? 0 : rnd() >> 8 & 0xff) : pick(step * 8); memcpy(p + i, &v, step); }
    }
    if (g_log) { std::string s = "b "; char b[4]; for (size_t i = 0; i < sz; ++i) { snprintf(b, sizeof b, "%02x", p[i]); s += b; } *g_log += s + "\n"; }
  } else {
    if (g_pos < g_in.size() && g_in[g_pos].buf) {
      auto& s = g_in[g_pos].bytes;
      memset(p, 0, sz);
      memcpy(p, s.data(), s.size() < sz ? s.size() : sz);
    } else memset(p, 0, sz);
    ++g_pos;
  }
  g_count = c;
  return p;
}
void vp_havoc(void* p, size_t n, const char*) {
  size_t o = 0;
  while (o < n) { size_t k = 8; while (k > n - o) k /= 2; uint64_t v = vp_nd(k * 8, ""); memcpy((char*)p + o, &v, k); o += k; }
}
void vp_forall_(bool (*fn)(void*, size_t), void* ctx, const void* buf, size_t esz) {
  // Check the assumption on every element of the buffer it constrains.
  extern size_t vp_native_count(const void*, size_t);
  size_t n = vp_native_count(buf, esz);
  for (size_t i = 0; i < n; ++i) if (!fn(ctx, i)) longjmp(g_jmp, 77);
}
void vp_inst_(const void*, size_t, size_t) {}
void vp_hint_(bool (*)(void*, size_t), void*, size_t) {}
void vp_hint2_(bool (*)(void*, size_t, size_t), void*, const void*, size_t) {}
void vp_unroll(int) {}
void vp_cut(const char*) {}
void vp_replace_(void*, void*) {}
void vp_replace_sym(const char*, void*) {}
uint64_t vp_pure_(uint64_t (*fn)(void*, size_t), void* ctx, size_t arg) { return fn(ctx, arg); }
uint64_t vp_pick(int) { return 0; }
void vp_opaque_mul() {}
uint64_t vp_opaque(int, int, uint64_t x, uint64_t (*real)(uint64_t)) { return real(x); }
void vp_partial() {}
void vp_late() {}
void vp_split(bool) {}
size_t vp_heap_live() { g_count = true; return (size_t)g_live; }
size_t __sanitizer_get_allocated_size(const volatile void*);
}
size_t vp_native_count(const void* p, size_t esz) {
  size_t s = __sanitizer_get_allocated_size(p);
  return esz ? s / esz : 0;
}
namespace best::crash_internal {
[[noreturn]] void crash(best::track_location<const char*> fmt, ...) {
  g_count = false;
  if (g_expect) longjmp(g_jmp, 2);
  fprintf(stderr, "unexpected crash: %s at %s:%u\n", *fmt, fmt.impl().file_name(), (unsigned)fmt.impl().line());
  longjmp(g_jmp, 1);
}
}
static void on_death() {
  if (g_log) { fprintf(stderr, "INPUT-BEGIN\n%sINPUT-END\n", g_log->c_str()); fflush(stderr); }
}
static void on_sig(int s) {
  fprintf(stderr, "signal %d (%s)\n", s, strsignal(s)); on_death(); _exit(3);
}
static int run(void (*fn)()) {
  g_pos = 0; g_expect = false; g_live = 0; g_count = false;
  int r = setjmp(g_jmp);
  if (r == 0) { fn(); g_count = false; if (g_expect) { fprintf(stderr, "contract ended but the call must crash\n"); return 1; } return 0; }
  g_count = false;
  if (r == 2) return 0;
  return r;
}
int main(int argc, char** argv) {
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  __sanitizer_set_death_callback(on_death);
  signal(SIGILL, on_sig); signal(SIGTRAP, on_sig); signal(SIGABRT, on_sig); signal(SIGALRM, on_sig);
  std::string nm = std::string("vpc_") + argv[1];
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, nm.c_str());
  if (!fn) { fprintf(stderr, "no contract %s\n", nm.c_str()); return 99; }
  if (!strcmp(argv[2], "replay")) {
    FILE* f = fopen(argv[3], "r");
    if (!f) return 99;
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
      if (line[0] == 'v') g_in.push_back({false, "", strtoull(line + 2, nullptr, 16)});
      else if (line[0] == 'b') {
        std::string s;
        for (char* p = line + 2; p[0] && p[0] != '\n' && p[1]; p += 2) { char h[3] = {p[0], p[1], 0}; s += (char)strtoul(h, nullptr, 16); }
        g_in.push_back({true, s, 0});
      }
    }
    alarm(20);
    return run(fn);
  }
  uint64_t seed = strtoull(argv[3], nullptr, 10); long N = atol(argv[4]); int secs = argc > 5 ? atoi(argv[5]) : 20;
  time_t t0 = time(nullptr);
  g_random = true;
  long ok = 0, i;
  for (i = 0; i < N && time(nullptr) - t0 < secs; ++i) {
    g_rng = (seed * 1000003 + i) * 0x9E3779B97F4A7C15ULL | 1; rnd(); rnd();
    g_style = rnd() % 8;
    std::string log; g_log = &log;
    alarm(5);
    int r = run(fn);
    alarm(0);
    g_log = nullptr;
    for (void* p : g_bufs) free(p);
    g_bufs.clear();
    if (r == 0) ++ok;
    if (r == 1) { fprintf(stderr, "INPUT-BEGIN\n%sINPUT-END\n", log.c_str()); return 1; }
  }
  printf("runs %ld satisfying-precondition %ld\n", i, ok);
  return 0;
}
