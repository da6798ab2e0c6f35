// Deterministic simulation engine: public interface for harnesses.
//
// One run = one forked process executing Harness::run().  Every decision of a run is drawn from one
// recorded stream of small integers (the "choice sequence").  In search mode the stream comes from a
// PRNG seeded with (VERIF_SEED, property, run index); in replay mode it is read from a file.  0 is always
// the simplest choice (no fault, shortest, first), so minimisation = making the sequence shorter/smaller.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- choices -------------------------------------------------------------------------------------
uint64_t choose(uint64_t n);                 // uniform in [0,n); n==0 or 1 -> 0 without consuming
int64_t  range(int64_t lo, int64_t hi);      // inclusive, simplest = lo
bool     chance(unsigned num, unsigned den); // true with probability num/den; simplest = false
unsigned weighted(std::initializer_list<unsigned> w); // index; simplest = 0
template <class T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }
// "one more step?" for operation loops; on average `avg` iterations, at most `max`
struct Steps { unsigned avg, max, done = 0; Steps(unsigned a, unsigned m) : avg(a), max(m) {} bool more(); };
// spans delimit operations for the minimiser
void span_begin();
void span_end();
struct Span { Span() { span_begin(); } ~Span() { span_end(); } };

// ---- history, oracle -------------------------------------------------------------------------------
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));    // append to the event history (hashed)
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // appended to the printed trace, not hashed
void only_classes(const char *const *classes); // from now on other classes of violations (memory errors and hangs excepted) discard the run
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char *why);  // run ends early without verdict (harness resource limits)
void count(const char *name, uint64_t n = 1); // named counter (fault kinds fired, probes hit), aggregated over runs
void state(uint64_t fingerprint);             // abstract state reached (distinct count reported)
void mark_nontrivial();                       // this run did something that counts as non-trivial
void advance_time(uint64_t usec);             // simulated time
uint64_t now_usec();
uint64_t steps();                             // executed basic blocks of the code under test in this run
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void *p, size_t n, uint64_t seed = 0);
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violation(cls, __VA_ARGS__); } while (0)

// an expectation that the code under test stops the process itself (cee_segfault or a NULL dereference)
// while `armed`: such an end is a clean end of the (epoch of the) run, not a violation
void expect_failstop(bool armed);
bool failstop_expected();

// ---- process epochs --------------------------------------------------------------------------------
// Runs f in a forked process.  Returns 0 when f returned, 1 when f called sim::crash(), 2 when the code
// under test stopped the process while expect_failstop(true).  Violations end the whole run.
int epoch(const std::function<void()> &f);
[[noreturn]] void crash();
// zeroed memory that survives epochs (shared between the processes of one run)
void *durable_alloc(size_t n);

// ---- simulated allocator ------------------------------------------------------------------------------
struct AllocCfg {
  unsigned dir = 0;        // 0 up, 1 down, 2 pseudo-random placement
  unsigned reuse = 0;      // 0 never reuse freed addresses, 1 LIFO, 2 pseudo-random
  unsigned rmove = 0;      // realloc: 0 always moves, 1 in place when it fits, 2 pseudo-random
  unsigned fill = 0;       // fresh memory: 0 0xAA, 1 zeroes, 2 0xFF, 3 pseudo-random, 4 stale contents
  uint64_t salt = 0;
};
void alloc_large();                  // a heap of 192 MB instead of 24 MB (before the first allocation of the run)
void alloc_draw_config();            // draw an AllocCfg from the choice stream
AllocCfg &alloc_cfg();
void alloc_fail_at(uint64_t k, bool persistent); // k-th allocation from now fails (1-based); 0 = off
bool alloc_failed_once();
uint64_t alloc_calls();              // number of allocation calls so far
int  block_of(const void *p);        // id of the block containing p, -1 if none
bool block_live(int id);
size_t block_size(int id);
void *block_addr(int id);
void set_owner(int owner);           // owner tag recorded in blocks allocated from now on
int  get_owner();
int  block_owner(int id);
int  live_blocks(int owner = -1);    // number of live blocks (of an owner)
int  first_live(int owner = -1);     // id of some live block, -1 if none
int  block_count();                  // ids are 0..count-1
struct FreeObserver { virtual void freed(int id) = 0; };
void set_free_observer(FreeObserver *);
const char *block_desc(int id);
void *arena_alloc(size_t n);          // harness-owned buffer with red zones, not counted in live_blocks(); never fails

// ---- interleaving -----------------------------------------------------------------------------------
// cooperative tasks; preemption happens at seam calls and at basic blocks of the code under test
struct Tasks {
  std::vector<std::function<void()>> fns;
  // quantum decisions come from the choice stream
  void run(unsigned avg_quantum);
};
int  current_task();      // -1 outside
void yield_point();       // possible task switch (decided by the choice stream)
void block_until(const std::function<bool()> &cond, const char *what); // deadlock = violation unless handled
void focus(int k); // weighted() with 8 or more weights gives number k every other time (negative: off): tasks then do the same at the same time
void prefer_static_switches(unsigned weight); // how much an access to static data uses up of the time before the next switch (0: nothing)
void no_preempt(int d);   // +1 / -1 nesting

// ---- harness registration --------------------------------------------------------------------------
struct Harness {
  const char *prop;
  void (*run)();
  uint64_t step_limit;      // basic blocks per run before the run counts as a hang
  unsigned runs_quick, runs_thorough;
  const char *rule;         // what a case is / when it is non-trivial
  std::vector<const char *> real_components, stub_components;
};
extern Harness harness;      // defined by the harness source
}
extern "C" void sim_code_stop(const char *file, int line) __attribute__((noreturn));
