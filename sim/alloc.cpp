// Simulated heap of the code under test (malloc family, linked with -Wl,--wrap).
// Every address, every reuse of a freed address, whether realloc moves, what fresh memory contains and
// which allocation fails is decided by the simulator.  Freed blocks and red zones are poisoned, so that the
// address sanitizer turns any stray access into a violation at the access.
#include "sim.h"
#include <algorithm>
#include <map>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>

extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
}
namespace sim {
static const uintptr_t BASE = 0x300000000000ull;
static const size_t ASZ0 = 24u << 20, ASZ = 192u << 20, RZ = 32, GR = 16;
struct Blk { uintptr_t a; size_t n, cap; int owner; uint32_t seq; uint32_t fseq; bool live, harness; };
static std::vector<Blk> *B;
static uint32_t *gmap;                  // granule -> block id + 1
static uintptr_t lo, hi;                // bump pointers
static std::map<size_t, std::vector<std::pair<uintptr_t, size_t>>> *freel;
static AllocCfg cfg; static uint64_t calls = 0, fail_k = 0; static bool fail_persist = false, failed = false;
static int owners[16]; static inline int &own() { return owners[current_task() + 1]; }   // per task, like the state it works on
static uint32_t seq = 0; static FreeObserver *observers[16];
static std::map<int, int> *livecnt; static int livetot = 0;

void alloc_parent_init() {
  void *p = mmap((void *)BASE, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)BASE) { perror("arena"); exit(2); }
  gmap = (uint32_t *)mmap(nullptr, ASZ / GR * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  __asan_poison_memory_region((void *)BASE, ASZ0);
  B = new std::vector<Blk>; B->reserve(4096); freel = new std::map<size_t, std::vector<std::pair<uintptr_t, size_t>>>; livecnt = new std::map<int, int>;
  lo = BASE + 4096; hi = BASE + ASZ0 - 4096;
}
void alloc_large() { __asan_poison_memory_region((void *)(BASE + ASZ0), ASZ - ASZ0); hi = BASE + ASZ - 4096; }
AllocCfg &alloc_cfg() { return cfg; }
void alloc_draw_config() {
  cfg.dir = weighted({3, 2, 2}); cfg.reuse = weighted({3, 2, 2}); cfg.rmove = weighted({3, 1, 2}); cfg.fill = weighted({3, 1, 2, 2, 3});
  cfg.salt = choose(1 << 16);
  ev("allocator: placement=%u reuse=%u realloc=%u fill=%u salt=%llu", cfg.dir, cfg.reuse, cfg.rmove, cfg.fill, (unsigned long long)cfg.salt);
}
void alloc_fail_at(uint64_t k, bool persistent) { fail_k = k ? calls + k : 0; fail_persist = persistent; failed = false; }
bool alloc_failed_once() { return failed; }
uint64_t alloc_calls() { return calls; }
static inline bool in_arena(const void *p) { return (uintptr_t)p >= BASE && (uintptr_t)p < BASE + ASZ; }
int block_of(const void *p) { if (!in_arena(p)) return -1; uint32_t v = gmap[((uintptr_t)p - BASE) / GR]; return v ? (int)v - 1 : -1; }
bool block_live(int id) { return id >= 0 && (*B)[id].live; }
size_t block_size(int id) { return (*B)[id].n; }
void *block_addr(int id) { return (void *)(*B)[id].a; }
void set_owner(int o) { own() = o; }
int get_owner() { return own(); }
int block_owner(int id) { return (*B)[id].owner; }
int live_blocks(int o) { if (o < 0) return livetot; auto it = livecnt->find(o); return it == livecnt->end() ? 0 : it->second; }
int block_count() { return (int)B->size(); }
int first_live(int o) { for (size_t i = 0; i < B->size(); i++) if ((*B)[i].live && !(*B)[i].harness && (o < 0 || (*B)[i].owner == o)) return (int)i; return -1; }
void set_free_observer(FreeObserver *o) { observers[current_task() + 1] = o; }
const char *block_desc(int id) { static char b[96]; if (id < 0) return "no block"; snprintf(b, sizeof b, "block #%d (%zu bytes, %s)", id, (*B)[id].n, (*B)[id].live ? "live" : "freed"); return b; }

const char *explain_address(const void *p, char *buf, size_t n) {
  if (!in_arena(p)) return nullptr;
  static char text[300];
  int id = block_of(p);
  if (id >= 0 && !(*B)[id].live) {
    snprintf(buf, n, "use-after-free"); snprintf(text, sizeof text, "offset %ld of freed block #%d (%zu bytes)", (long)((uintptr_t)p - (*B)[id].a), id, (*B)[id].n);
    return text;
  }
  // nearest block
  long best = 1 << 20; int bi = -1; long bo = 0;
  for (size_t i = 0; i < B->size(); i++) { const Blk &b = (*B)[i]; if (!b.live) continue; long d = (long)((uintptr_t)p - b.a); long dist = d < 0 ? -d : d - (long)b.n; if (dist < best) { best = dist; bi = (int)i; bo = d; } }
  snprintf(buf, n, "out-of-bounds");
  if (bi >= 0) snprintf(text, sizeof text, "offset %ld of block #%d (%zu bytes)", bo, bi, (*B)[bi].n); else snprintf(text, sizeof text, "far from any block");
  return text;
}

static void *place(size_t cap, unsigned &slotfill) {
  size_t tot = cap + 2 * RZ;
  uint64_t h = mix(cfg.salt, seq);
  slotfill = 0;
  if (cfg.reuse) {
    auto it = freel->find(cap);
    if (it != freel->end() && !it->second.empty() && (cfg.reuse == 1 || (h & 3) != 0)) {
      auto &v = it->second; size_t k = cfg.reuse == 1 ? v.size() - 1 : (h >> 8) % v.size();
      uintptr_t a = v[k].first; v.erase(v.begin() + k); slotfill = 1; count("alloc.address_reused"); return (void *)a;
    }
  }
  if (lo + tot + 65536 > hi) discard("simulated heap full");
  unsigned d = cfg.dir == 2 ? (unsigned)(h >> 20) & 1 : cfg.dir;
  uintptr_t a;
  if (d == 0) { uintptr_t gap = cfg.dir == 2 ? ((h >> 32) & 15) * GR : 0; a = lo + gap + RZ; lo = a + cap + RZ; }
  else { uintptr_t gap = cfg.dir == 2 ? ((h >> 36) & 15) * GR : 0; hi -= tot + gap; a = hi + RZ; }
  return (void *)a;
}
static void fill_mem(uintptr_t a, size_t n, bool reused) {
  switch (cfg.fill) {
    case 0: memset((void *)a, 0xAA, n); break;
    case 1: memset((void *)a, 0, n); break;
    case 2: memset((void *)a, 0xFF, n); break;
    case 3: { uint64_t h = mix(cfg.salt, seq); unsigned char *p = (unsigned char *)a; for (size_t i = 0; i < n; i++) { if (i % 8 == 0) h = mix(h, i); p[i] = h >> (8 * (i % 8)); } break; }
    default: if (!reused) memset((void *)a, 0xAA, n); break;
  }
}
static void *do_alloc(size_t n, bool harness_blk) {
  seq++;
  size_t cap = (n + GR - 1) / GR * GR; if (!cap) cap = GR;
  unsigned reused; uintptr_t a = (uintptr_t)place(cap, reused);
  int id = (int)B->size();
  B->push_back({a, n, cap, own(), seq, 0, true, harness_blk});
  for (uintptr_t g = a; g < a + cap; g += GR) gmap[(g - BASE) / GR] = id + 1;
  __asan_unpoison_memory_region((void *)a, n);
  fill_mem(a, n, reused);
  if (!harness_blk) { livetot++; (*livecnt)[own()]++; }
  return (void *)a;
}
static bool should_fail() {
  calls++;
  if (fail_k && (calls == fail_k || (fail_persist && calls > fail_k))) { failed = true; count("fault.alloc_fail"); ev("FAULT allocation #%llu fails", (unsigned long long)calls); expect_failstop(true); errno = ENOMEM; return true; }
  return false;
}
static void do_free(void *p) {
  int id = block_of(p);
  if (id < 0 || (*B)[id].a != (uintptr_t)p) violation("memory:bad-free", "free of an address that is not the start of a block (%s)", block_desc(id));
  Blk &b = (*B)[id];
  if (!b.live) violation("memory:double-free", "second free of block #%d (%zu bytes)", id, b.n);
  if (FreeObserver *obs = observers[current_task() + 1]) { static int nest = 0; if (!nest) { nest++; obs->freed(id); nest--; } }
  Blk &c = (*B)[id];
  c.live = false; c.fseq = ++seq; if (!c.harness) { livetot--; (*livecnt)[c.owner]--; }
  __asan_poison_memory_region((void *)c.a, c.cap);
  if (cfg.reuse) (*freel)[c.cap].push_back({c.a, c.cap});
}
void *arena_alloc(size_t n) { no_preempt(1); void *p = do_alloc(n, true); no_preempt(-1); return p; }

struct NoPre { NoPre() { no_preempt(1); } ~NoPre() { no_preempt(-1); } };
}  // namespace sim
using namespace sim;

extern "C" {
void *__wrap_malloc(size_t n) { yield_point(); NoPre g; if (n > (16u << 20)) { errno = ENOMEM; return nullptr; } if (should_fail()) return nullptr; return do_alloc(n, false); }
void *__wrap_calloc(size_t a, size_t b) {
  yield_point(); NoPre g; size_t n; if (__builtin_mul_overflow(a, b, &n) || n > (16u << 20)) { errno = ENOMEM; return nullptr; }
  if (should_fail()) return nullptr;
  void *p = do_alloc(n, false); memset(p, 0, n); return p;
}
void __wrap_free(void *p) { if (!p) return; yield_point(); NoPre g; if (!in_arena(p)) { __real_free(p); return; } do_free(p); }
void *__wrap_realloc(void *p, size_t n) {
  yield_point(); NoPre g;
  if (!p) { if (should_fail()) return nullptr; return do_alloc(n, false); }
  if (!in_arena(p)) return __real_realloc(p, n);
  if (n > (16u << 20)) { errno = ENOMEM; return nullptr; }
  if (should_fail()) return nullptr;
  int id = block_of(p);
  if (id < 0 || (*B)[id].a != (uintptr_t)p || !(*B)[id].live) violation("memory:bad-realloc", "realloc of an address that is not the start of a live block (%s)", block_desc(id));
  bool inplace = n <= (*B)[id].cap && n && (cfg.rmove == 1 || (cfg.rmove == 2 && (mix(cfg.salt, seq * 3 + 1) & 1)));
  if (inplace) {
    seq++; Blk &b = (*B)[id]; size_t old = b.n; b.n = n; __asan_poison_memory_region((void *)b.a, b.cap); __asan_unpoison_memory_region((void *)b.a, n);
    if (n > old) fill_mem(b.a + old, n - old, false);
    count("alloc.realloc_in_place"); return p;
  }
  size_t old = (*B)[id].n; int o = own(); own() = (*B)[id].owner;
  void *q = do_alloc(n, false); own() = o; memcpy(q, p, std::min(old, n)); do_free(p); count("alloc.realloc_moved"); return q;
}
void *__wrap_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return __wrap_realloc(p, n); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)__wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int __wrap_posix_memalign(void **r, size_t al, size_t n) { (void)al; void *p = __wrap_malloc(n); if (!p) return ENOMEM; *r = p; return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { (void)al; return __wrap_malloc(n); }
}
