// Deterministic simulation engine: choice streams, run supervision, search, minimisation, replay.
#include "sim.h"
#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <unordered_set>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

namespace sim {

// ------------------------------------------------------------------------------------------------------
// shared run record
static const size_t MAXC = 1 << 17, TRACE = 1 << 19, NCNT = 160, DUR = 96u << 20, STSET = 1 << 20;
static const size_t COVB = 1 << 20;
struct SpanRec { uint32_t b, e; };
struct RunRec {
  // decided by the engine before a run
  uint64_t rng[4];
  int replay;                 // 1: take choices from `in`
  uint64_t nin;
  // results
  uint64_t nch, nspan, spos;
  uint32_t spanstack[64]; int spand;
  uint64_t hash, nev, simtime, steps, covsig;
  uint64_t trlen;
  int viol;                   // 0 none, 1 violation, 2 discarded
  char cls[96], msg[1024];
  int failstop;
  int nontrivial;
  uint64_t durused;
};
struct Cnt { char name[48]; uint64_t n; };
struct Shm {
  RunRec r;
  uint64_t in[MAXC], ch[MAXC];
  SpanRec span[MAXC];
  char trace[TRACE];
  Cnt cnt[NCNT];
  int ncnt;
  uint64_t stset[STSET]; uint64_t nst;
  uint8_t cov[COVB];          // basic blocks reached, bit per code address (all runs of this worker)
  int quiet_counters;
};
static Shm *S;               // of this worker
static uint8_t *DURP;        // durable pool
static uint8_t runcov[COVB]; // this run (copy on write in the run's process)
static const int EC_VIOL = 3, EC_CRASH = 4, EC_STOP = 5, EC_ASAN = 77, EC_DISCARD = 6;

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 7)); return splitmix(x); }
uint64_t hash_bytes(const void *p, size_t n, uint64_t seed) {
  const unsigned char *q = (const unsigned char *)p; uint64_t h = 0xcbf29ce484222325ull ^ seed;
  for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 0x100000001b3ull;
  return mix(h, n);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng_next() {
  uint64_t *s = S->r.rng, result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return result;
}
static void rng_seed(uint64_t seed) { uint64_t x = seed; for (int i = 0; i < 4; i++) S->r.rng[i] = splitmix(x); }

// ------------------------------------------------------------------------------------------------------
// choices
static void finish_violation(const char *cls, const char *msg);
static uint64_t record(uint64_t v) {
  if (S->r.nch >= MAXC) discard("choice stream full");
  S->ch[S->r.nch++] = v;
  return v;
}
static bool next_replay(uint64_t n, uint64_t *v) {
  if (!S->r.replay) return false;
  uint64_t i = S->r.nch;
  uint64_t x = i < S->r.nin ? S->in[i] : 0;
  if (n && x >= n) x = n - 1;
  *v = x;
  return true;
}
uint64_t choose(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v;
  if (!next_replay(n, &v)) {
    if ((n & (n - 1)) == 0) v = rng_next() & (n - 1);
    else v = (uint64_t)(((unsigned __int128)rng_next() * n) >> 64);
  }
  return record(v);
}
int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t)choose((uint64_t)(hi - lo) + 1); }
bool chance(unsigned num, unsigned den) {
  if (num == 0) return false;
  uint64_t v;
  if (!next_replay(2, &v)) v = (((unsigned __int128)rng_next() * den) >> 64) < num;
  return record(v);
}
static int focused = -1;
void focus(int k) { focused = k; }
unsigned weighted(std::initializer_list<unsigned> w) {
  if (focused >= 0 && w.size() >= 8) { unsigned i = (unsigned)focused % w.size(); if (w.begin()[i] && chance(1, 2)) return i; }
  uint64_t v;
  if (!next_replay(w.size(), &v)) {
    uint64_t tot = 0; for (unsigned x : w) tot += x;
    uint64_t t = (uint64_t)(((unsigned __int128)rng_next() * tot) >> 64);
    v = 0; for (unsigned x : w) { if (t < x) break; t -= x; v++; }
  }
  return (unsigned)record(v);
}
bool Steps::more() {
  if (done >= max) return false;
  uint64_t v;
  if (!next_replay(2, &v)) v = (((unsigned __int128)rng_next() * (avg + 1)) >> 64) != 0;
  record(v);
  if (v) done++;
  return v;
}
void span_begin() {
  if (current_task() >= 0) return;   // tasks interleave
  RunRec &r = S->r;
  if (r.spand < 64 && r.nspan < MAXC) {
    r.spanstack[r.spand++] = r.nspan;
    // the preceding choice is the loop's "one more" flag: include it
    S->span[r.nspan].b = r.nch ? r.nch - 1 : 0; S->span[r.nspan].e = 0; r.nspan++;
  } else r.spand++;
}
void span_end() {
  if (current_task() >= 0) return;
  RunRec &r = S->r;
  if (r.spand <= 0) return;
  r.spand--;
  if (r.spand < 64) S->span[r.spanstack[r.spand]].e = r.nch;
}

// ------------------------------------------------------------------------------------------------------
// history
static void tr_append(const char *s, size_t n) {
  RunRec &r = S->r;
  if (r.trlen + n + 1 < TRACE) { memcpy(S->trace + r.trlen, s, n); r.trlen += n; S->trace[r.trlen] = 0; }
}
static thread_local int cur_task = -1;
int current_task() { return cur_task; }
void ev(const char *fmt, ...) {
  char buf[2048];
  int o = 0;
  if (cur_task >= 0) o = snprintf(buf, 16, "[t%d] ", cur_task);
  va_list ap; va_start(ap, fmt); int n = vsnprintf(buf + o, sizeof buf - 2 - o, fmt, ap); va_end(ap);
  n += o;
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n'; buf[n] = 0;
  S->r.hash = mix(S->r.hash, hash_bytes(buf, n)); S->r.nev++;
  tr_append(buf, n);
}
void note(const char *fmt, ...) {
  char buf[2048];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf - 2, fmt, ap); va_end(ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n'; buf[n] = 0; tr_append(buf, n);
}
static void finish_violation(const char *cls, const char *msg) {
  RunRec &r = S->r;
  if (!r.viol) {
    r.viol = 1; snprintf(r.cls, sizeof r.cls, "%s", cls); snprintf(r.msg, sizeof r.msg, "%s", msg);
    for (char *p = r.msg; *p; p++) if (*p == '\n') *p = ' ';
  }
  _exit(EC_VIOL);
}
static const char *const *only;
void only_classes(const char *const *classes) { only = classes; }
void violation(const char *cls, const char *fmt, ...) {
  if (only) { bool in = false; for (auto p = only; *p; p++) in |= !strcmp(*p, cls); if (!in) discard("a check of another property"); }
  char m[1024]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
  finish_violation(cls, m); __builtin_unreachable();
}
void discard(const char *why) {
  if (!S->r.viol) { S->r.viol = 2; snprintf(S->r.cls, sizeof S->r.cls, "discard"); snprintf(S->r.msg, sizeof S->r.msg, "%s", why); }
  _exit(EC_DISCARD);
}
void count(const char *name, uint64_t n) {
  if (S->quiet_counters) return;
  for (int i = 0; i < S->ncnt; i++) if (!strcmp(S->cnt[i].name, name)) { S->cnt[i].n += n; return; }
  if (S->ncnt < (int)NCNT) { snprintf(S->cnt[S->ncnt].name, 48, "%s", name); S->cnt[S->ncnt++].n = n; }
}
void state(uint64_t fp) {
  if (S->quiet_counters || S->nst > STSET / 2) return;
  if (!fp) fp = 1;
  for (uint64_t i = mix(fp, 7) & (STSET - 1);; i = (i + 1) & (STSET - 1)) {
    if (S->stset[i] == fp) return;
    if (!S->stset[i]) { S->stset[i] = fp; S->nst++; return; }
  }
}
void mark_nontrivial() { S->r.nontrivial = 1; }
void advance_time(uint64_t us) { S->r.simtime += us; }
uint64_t now_usec() { return S->r.simtime; }
uint64_t steps() { return S->r.steps; }
void expect_failstop(bool a) { S->r.failstop = a; }
bool failstop_expected() { return S->r.failstop; }

// ------------------------------------------------------------------------------------------------------
// epochs
int epoch(const std::function<void()> &f) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) discard("fork");
  if (pid == 0) { f(); _exit(0); }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  S->r.failstop = 0;
  if (WIFEXITED(st)) switch (WEXITSTATUS(st)) {
    case 0: return 0;
    case EC_CRASH: return 1;
    case EC_STOP: return 2;
    case EC_VIOL: case EC_DISCARD: _exit(WEXITSTATUS(st));
    default: break;
  }
  char m[200];
  if (WIFSIGNALED(st)) snprintf(m, sizeof m, "process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else snprintf(m, sizeof m, "process ended with status %d", WEXITSTATUS(st));
  finish_violation(WIFSIGNALED(st) ? "killed" : "exit", m);
  return 0;
}
void crash() { _exit(EC_CRASH); }
void *durable_alloc(size_t n) {
  n = (n + 63) & ~63ull;
  if (S->r.durused + n > DUR) discard("durable pool full");
  void *p = DURP + S->r.durused; S->r.durused += n;
  memset(p, 0, n);
  return p;
}

// ------------------------------------------------------------------------------------------------------
// tasks
struct Task {
  ucontext_t ctx; void *stack; size_t ssize; bool done = false; bool blocked = false;
  std::function<bool()> cond; const char *what = nullptr; std::function<void()> *fn; bool started = false; void *fake = nullptr;
};
static std::vector<Task *> tasks; static ucontext_t main_ctx; static void *main_fake; static const void *main_bottom; static size_t main_size;
static int64_t quantum = 0; static int preempt_off = 0; static unsigned avgq = 0; static bool tasks_on = false;
static void draw_quantum() {
  // 0: run until it blocks or finishes
  uint64_t q = choose(avgq * 2 + 1);
  quantum = q ? (int64_t)q : INT64_MAX;
}
static void task_entry(int i) {
  __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
  Task *t = tasks[i];
  (*t->fn)();
  t->done = true;
  cur_task = -1;
  __sanitizer_start_switch_fiber(nullptr, main_bottom, main_size);
  swapcontext(&t->ctx, &main_ctx);
  abort();
}
static void to_main() {
  Task *t = tasks[cur_task];
  int err = errno;            // one per thread in real programs
  cur_task = -1;
  __sanitizer_start_switch_fiber(&t->fake, main_bottom, main_size);
  swapcontext(&t->ctx, &main_ctx);
  __sanitizer_finish_switch_fiber(t->fake, nullptr, nullptr);
  errno = err;
}
void no_preempt(int d) { preempt_off += d; }
void yield_point() {
  if (!tasks_on || cur_task < 0 || preempt_off) return;
  if (--quantum <= 0) to_main();
}
static inline void preempt_tick() {
  if (--quantum <= 0) to_main();
}
void block_until(const std::function<bool()> &cond, const char *what) {
  if (cur_task < 0) { if (!cond()) violation("deadlock", "blocked forever outside of a task: %s", what); return; }
  while (!cond()) { Task *t = tasks[cur_task]; t->blocked = true; t->cond = cond; t->what = what; to_main(); t->blocked = false; }
}
void Tasks::run(unsigned q) {
  avgq = q ? q : 1; tasks.clear(); tasks_on = true;
  for (size_t i = 0; i < fns.size(); i++) {
    Task *t = new Task; t->fn = &fns[i]; t->ssize = 8 << 20;
    t->stack = mmap(nullptr, t->ssize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = t->ssize; t->ctx.uc_link = nullptr;
    makecontext(&t->ctx, (void (*)())task_entry, 1, (int)i);
    tasks.push_back(t);
  }
  int last = -1;
  for (;;) {
    std::vector<int> rq; bool alldone = true;
    for (size_t i = 0; i < tasks.size(); i++) {
      Task *t = tasks[i];
      if (t->done) continue;
      alldone = false;
      if (!t->blocked || t->cond()) rq.push_back((int)i);
    }
    if (alldone) break;
    if (rq.empty()) {
      std::string w; for (auto *t : tasks) if (!t->done) { w += t->what ? t->what : "?"; w += "; "; }
      violation("deadlock", "no task can make progress: %s", w.c_str());
    }
    // simplest choice: continue the task that ran last when it can, else the first one
    size_t pos = 0; for (size_t i = 0; i < rq.size(); i++) if (rq[i] == last) pos = i;
    int nxt = rq[(pos + choose(rq.size())) % rq.size()];
    if (nxt != last) { count("switch.tasks"); S->r.hash = mix(S->r.hash, 0x5117 + nxt); }
    draw_quantum();
    last = nxt; cur_task = nxt;
    Task *t = tasks[nxt];
    __sanitizer_start_switch_fiber(&main_fake, t->stack, t->ssize);
    swapcontext(&main_ctx, &t->ctx);
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
    cur_task = -1;
  }
  for (auto *t : tasks) { munmap(t->stack, t->ssize); delete t; }
  tasks.clear(); tasks_on = false;
}

// ------------------------------------------------------------------------------------------------------
// basic-block hook of the code under test
extern "C" char __executable_start;
static uint64_t step_lim = ~0ull;
extern "C" void __sanitizer_cov_trace_pc(void) {
  if (!S) return;   // module constructors
  uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
  RunRec &r = S->r;
  if (++r.steps > step_lim) finish_violation("hang", "no progress: step budget of basic blocks exhausted");
  uintptr_t b = pc & (COVB * 8 - 1);
  if (!(runcov[b >> 3] & (1 << (b & 7)))) {
    runcov[b >> 3] |= 1 << (b & 7);
    r.covsig ^= mix(pc, 0xC0F);
    if (!S->quiet_counters) S->cov[b >> 3] |= 1 << (b & 7);
  }
  if (tasks_on && cur_task >= 0 && !preempt_off) preempt_tick();
}
// memory-access hook of the code under test, in the variant compiled with it: tasks work on separate states, so what they can
// share is static data; a switch may come before each access to it. Other accesses are only checked against the poisoned shadow.
extern "C" char __data_start, _end;
extern "C" void __asan_report_load_n(void *, size_t); extern "C" void __asan_report_store_n(void *, size_t);
static unsigned static_weight = 0;
void prefer_static_switches(unsigned w) { static_weight = w; }
static inline void on_access(void *p, size_t n, bool wr) {
  if (!S) return;
  uintptr_t a = (uintptr_t)p; int8_t s = *(int8_t *)((a >> 3) + 0x7fff8000);
  if (s && (int)((a & 7) + (n > 8 ? 8 : n) - 1) >= s) { if (wr) __asan_report_store_n(p, n); else __asan_report_load_n(p, n); }
  if (a < (uintptr_t)&__data_start || a >= (uintptr_t)&_end) return;
  if (!tasks_on || cur_task < 0 || preempt_off || !static_weight) return;
  count("switch.static-access-seen");
  if ((quantum -= static_weight) <= 0) { count("switch.at-static-access"); to_main(); }
}
extern "C" {
#define TS(n) void __tsan_read##n(void *p) { on_access(p, n, false); } void __tsan_write##n(void *p) { on_access(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { on_access(p, n, false); } void __tsan_volatile_write##n(void *p) { on_access(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { on_access(p, n, false); } void __tsan_unaligned_write##n(void *p) { on_access(p, n, true); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void *p, size_t n) { if (n) on_access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { if (n) on_access(p, n, true); }
void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {} void __tsan_init(void) {}
}

}  // namespace sim
using namespace sim;

extern "C" void sim_code_stop(const char *file, int line) {
  if (S->r.failstop) _exit(EC_STOP);
  char m[160]; const char *b = strrchr(file, '/'); snprintf(m, sizeof m, "the code stopped the process itself (cee_segfault) in %s", b ? b + 1 : file);
  (void)line;
  finish_violation("stopped", m); __builtin_unreachable();
}

// ------------------------------------------------------------------------------------------------------
// sanitizer glue
namespace sim { const char *explain_address(const void *p, char *buf, size_t n); }
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=77:abort_on_error=0:symbolize=0:handle_segv=1:handle_abort=0:handle_sigfpe=1:handle_sigill=1:"
         "allocator_may_return_null=1:detect_stack_use_after_return=0:use_sigaltstack=1:print_stats=0:check_initialization_order=0:"
         "replace_intrin=1:detect_odr_violation=0:print_legend=0:quarantine_size_mb=4:malloc_context_size=0:thread_local_quarantine_size_kb=64:poison_heap=1";
}
extern "C" void __asan_on_error(void) {
  if (!S) return;
  if (getenv("SIM_DEBUG")) { static int once; if (!once++) { dup2(2, 1); __sanitizer_print_stack_trace(); } }
  void *a = __asan_get_report_address();
  const char *d = __asan_get_report_description();
  int at = __asan_get_report_access_type();
  char buf[512], cls[96], msg[900];
  const char *e = explain_address(a, buf, sizeof buf);
  if (e) { // inside the simulated heap: buf holds class \0 text
    snprintf(cls, sizeof cls, "memory:%s", buf);
    snprintf(msg, sizeof msg, "%s of %zu bytes: %s", at ? "write" : "read", __asan_get_report_access_size(), e);
  } else {
    snprintf(cls, sizeof cls, "memory:%s", d && *d ? d : "unknown");
    snprintf(msg, sizeof msg, "%s (%s)", d ? d : "?", at ? "write" : "read");
  }
  finish_violation(cls, msg);
}

// faults that the processor reports
static void segv_handler(int sig, siginfo_t *si, void *uc) {
  if (!S) _exit(EC_ASAN);
  if (getenv("SIM_DEBUG")) { static int once; if (!once++) { dup2(2, 1); __sanitizer_print_stack_trace(); } }
  uintptr_t a = (uintptr_t)si->si_addr; bool mapped_addr = si->si_code == SEGV_MAPERR || si->si_code == SEGV_ACCERR;
  if (sig == SIGSEGV && mapped_addr && a < 65536) {
    if (S->r.failstop) _exit(EC_STOP);
    finish_violation("memory:null-dereference", "access through a NULL pointer");
  }
  uintptr_t sp = 0;
#if defined(__x86_64__)
  sp = (uintptr_t)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP];
#endif
  uintptr_t d = a > sp ? a - sp : sp - a;
  if (sig == SIGSEGV && mapped_addr && d < 65536) { S->r.steps = 0; finish_violation("memory:stack-overflow", "stack overflow"); } // how deep it gets depends on where the stack begins
  finish_violation("memory:wild-access", sig == SIGBUS ? "bus error" : "access to an address outside of every mapping");
}
static void install_handlers() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
}

// ------------------------------------------------------------------------------------------------------
// search driver
namespace sim {
struct Result { int viol; std::string cls, msg; uint64_t hash, steps, simtime, covsig, nev; int nontrivial; };
static uint64_t g_seed; static uint64_t g_prophash;
void alloc_parent_init();
static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void prof_handler(int) { S->r.steps = 0; finish_violation("hang", "no progress: CPU time limit"); }

static Result exec_run() {
  RunRec &r = S->r;
  r.nch = r.nspan = r.spos = 0; r.spand = 0; r.hash = 0x1234; r.nev = 0; r.simtime = 0; r.steps = 0; r.covsig = 0; r.trlen = 0;
  S->trace[0] = 0; r.viol = 0; r.cls[0] = r.msg[0] = 0; r.failstop = 0; r.nontrivial = 0; r.durused = 0;
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = prof_handler; sigaction(SIGPROF, &sa, nullptr); install_handlers();
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 30; setitimer(ITIMER_PROF, &it, nullptr);
    step_lim = harness.step_limit;
    harness.run();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!r.viol) {
    bool ok = WIFEXITED(st) && (WEXITSTATUS(st) == 0);
    if (!ok) {
      r.viol = 1;
      if (WIFSIGNALED(st)) { snprintf(r.cls, sizeof r.cls, "killed"); snprintf(r.msg, sizeof r.msg, "process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
      else { snprintf(r.cls, sizeof r.cls, "exit"); snprintf(r.msg, sizeof r.msg, "process ended with status %d", WEXITSTATUS(st)); }
    }
  }
  Result x; x.viol = r.viol; x.cls = r.cls; x.msg = r.msg; x.hash = mix(r.hash, r.steps); x.steps = r.steps; x.simtime = r.simtime; x.covsig = r.covsig;
  x.nev = r.nev; x.nontrivial = r.nontrivial;
  if (r.viol == 1) x.hash = mix(x.hash, hash_bytes(r.cls, strlen(r.cls)));
  return x;
}
static Result run_index(uint64_t idx) {
  S->r.replay = 0; rng_seed(mix(mix(g_seed, g_prophash), idx));
  return exec_run();
}
static Result run_choices(const std::vector<uint64_t> &c) {
  S->r.replay = 1; S->r.nin = std::min<size_t>(c.size(), MAXC);
  memcpy(S->in, c.data(), S->r.nin * 8);
  return exec_run();
}
static std::vector<uint64_t> taken() { return std::vector<uint64_t>(S->ch, S->ch + S->r.nch); }

struct ViolRec { uint64_t idx; char cls[96]; char msg[1024]; uint64_t nch; };
static const int MAXV = 24;
struct Worker {
  std::atomic<uint64_t> done, nontrivial, discarded, steps, simtime, nevents, ntrunc;
  int nv; ViolRec v[MAXV];
  uint64_t nh;
};
struct Global { std::atomic<uint64_t> min_viol; std::atomic<int> stop; };

template <class T> static T *shm(size_t n = 1) {
  void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (T *)p;
}

struct Minimiser {
  std::string cls; std::vector<uint64_t> best; Result bestr; std::vector<SpanRec> spans; uint64_t tries = 0, max_tries; double deadline;
  bool attempt(const std::vector<uint64_t> &c) {
    if (tries >= max_tries || mono() > deadline) return false;
    tries++;
    Result r = run_choices(c);
    if (r.viol == 1 && r.cls == cls) {
      std::vector<uint64_t> t = taken();
      while (!t.empty() && t.back() == 0) t.pop_back();
      // accept only if simpler (shorter, or same length and lexicographically smaller)
      if (t.size() < best.size() || (t.size() == best.size() && t < best)) {
        best = t; bestr = r; spans.assign(S->span, S->span + S->r.nspan); return true;
      }
    }
    return false;
  }
  bool exhausted() { return tries >= max_tries || mono() > deadline; }
  void go() {
    bool progress = true;
    while (progress && !exhausted()) {
      progress = false;
      // cut the tail
      for (size_t k = best.size() / 2; k >= 1 && !exhausted(); k /= 2)
        while (best.size() > k) { auto c = best; c.resize(c.size() - k); if (attempt(c)) progress = true; else break; }
      // delete spans, largest first
      for (bool again = true; again && !exhausted();) {
        again = false;
        auto sp = spans;
        std::sort(sp.begin(), sp.end(), [](const SpanRec &a, const SpanRec &b) { return (a.e - a.b) > (b.e - b.b); });
        for (auto &s : sp) {
          if (s.e <= s.b || s.e > best.size()) continue;
          auto c = best; c.erase(c.begin() + s.b, c.begin() + s.e);
          if (attempt(c)) { again = progress = true; break; }
          if (exhausted()) break;
        }
      }
      // delete chunks
      for (size_t k : {16, 8, 4, 2, 1}) for (size_t i = 0; i + k <= best.size() && !exhausted();) {
        auto c = best; c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) progress = true; else i++;
      }
      // zero and lower values
      for (size_t i = 0; i < best.size() && !exhausted(); i++) {
        if (!best[i]) continue;
        auto c = best; c[i] = 0; if (attempt(c)) { progress = true; continue; }
        uint64_t lo = 0, hi = best[i];
        while (hi - lo > 1 && !exhausted()) {
          uint64_t mid = lo + (hi - lo) / 2; auto c2 = best; if (i >= c2.size()) break; c2[i] = mid;
          if (attempt(c2)) { progress = true; if (i >= best.size()) break; hi = std::min(hi, best[i]); if (hi <= mid) {} } else lo = mid;
          if (i >= best.size() || best[i] < lo) break;
        }
      }
    }
  }
};

static std::string jstr(const std::string &s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 0x20 || c >= 0x7f) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c;
  }
  return o + "\"";
}
static std::string read_file(const char *p) {
  std::string s; FILE *f = fopen(p, "r"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
struct Replay { std::string prop, cls; uint64_t seed = 0, idx = 0, hash = 0; std::vector<uint64_t> c; bool ok = false; };
static void write_replay(const char *path, const Replay &r, const std::string &msg, const std::string &trace, const char *variant, uint64_t orig_len) {
  FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
  fprintf(f, "property %s\nvariant %s\nseed %llu\nrun %llu\nclass %s\nhash %016llx\nchoices_before_minimisation %llu\nchoices %zu\n", r.prop.c_str(), variant, (unsigned long long)r.seed,
          (unsigned long long)r.idx, r.cls.c_str(), (unsigned long long)r.hash, (unsigned long long)orig_len, r.c.size());
  for (size_t i = 0; i < r.c.size(); i++) fprintf(f, "%llu%c", (unsigned long long)r.c[i], (i % 24 == 23 || i + 1 == r.c.size()) ? '\n' : ' ');
  fprintf(f, "violation %s\ntrace (history, schedule and injected faults of the minimised run):\n%s", msg.c_str(), trace.c_str());
  fclose(f);
}
static Replay read_replay(const char *path) {
  Replay r; std::string s = read_file(path); if (s.empty()) return r;
  const char *p = s.c_str(); char b[256]; unsigned long long u;
  auto line = [&](const char *k) -> const char * { std::string key = std::string(k) + " "; const char *q = p; while (q) { if (!strncmp(q, key.c_str(), key.size())) return q + key.size(); q = strchr(q, '\n'); if (q) q++; } return nullptr; };
  const char *q;
  if ((q = line("property")) && sscanf(q, "%255s", b) == 1) r.prop = b;
  if ((q = line("class"))) { const char *e = strchr(q, '\n'); r.cls.assign(q, e - q); }
  if ((q = line("seed")) && sscanf(q, "%llu", &u) == 1) r.seed = u;
  if ((q = line("run")) && sscanf(q, "%llu", &u) == 1) r.idx = u;
  if ((q = line("hash")) && sscanf(q, "%llx", &u) == 1) r.hash = u;
  if ((q = line("choices"))) {
    char *e; uint64_t n = strtoull(q, &e, 10);
    for (uint64_t i = 0; i < n; i++) r.c.push_back(strtoull(e, &e, 10));
    r.ok = true;
  }
  return r;
}
}  // namespace sim

int main(int argc, char **argv) {
  // fixed address-space layout: nothing may depend on where the loader puts things
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); setenv("SIM_NO_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  uint64_t seed = 1, runs = 0; int W = 8; double cap = 600; std::string tier = "quick", statsf, rdir = ".", replay, variant = "gen", known; int64_t one = -1; bool thorough = false; uint64_t recheck = 64;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
    if (a == "--seed") seed = strtoull(nx(), 0, 10); else if (a == "--runs") runs = strtoull(nx(), 0, 10); else if (a == "--workers") W = atoi(nx());
    else if (a == "--cap") cap = atof(nx()); else if (a == "--tier") tier = nx(); else if (a == "--stats") statsf = nx(); else if (a == "--replay-dir") rdir = nx();
    else if (a == "--replay") replay = nx(); else if (a == "--one") one = atoll(nx()); else if (a == "--variant") variant = nx(); else if (a == "--known") known = nx();
    else if (a == "--recheck") recheck = strtoull(nx(), 0, 10);
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  thorough = tier == "thorough";
  if (!runs) runs = thorough ? harness.runs_thorough : harness.runs_quick;
  g_seed = seed; g_prophash = hash_bytes(harness.prop, strlen(harness.prop));
  S = shm<Shm>(); DURP = shm<uint8_t>(DUR);
  alloc_parent_init();
  std::set<std::string> knownset; { size_t p = 0; while (p < known.size()) { size_t q = known.find(',', p); if (q == std::string::npos) q = known.size(); knownset.insert(known.substr(p, q - p)); p = q + 1; } }
  int nullfd = open("/dev/null", O_WRONLY);
  int realerr = dup(2), realout = dup(1);
  auto mute = [&]() { if (!getenv("SIM_STDERR")) dup2(nullfd, 2); dup2(nullfd, 1); };
  auto unmute = [&]() { dup2(realerr, 2); dup2(realout, 1); };

  if (one >= 0) {
    mute(); Result r = run_index(one); unmute();
    printf("%s", S->trace);
    printf("-- run %lld: viol=%d cls=%s msg=%s\n-- choices=%llu events=%llu steps=%llu hash=%016llx nontrivial=%d\n", (long long)one, r.viol, r.cls.c_str(), r.msg.c_str(), (unsigned long long)S->r.nch,
           (unsigned long long)r.nev, (unsigned long long)r.steps, (unsigned long long)r.hash, r.nontrivial);
    return r.viol == 1 ? 1 : 0;
  }
  if (!replay.empty()) {
    Replay rp = read_replay(replay.c_str());
    if (!rp.ok) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    mute(); Result r = run_choices(rp.c); unmute();
    printf("%s", S->trace);
    printf("-- replay: class=%s hash=%016llx (recorded %s %016llx) %s\n", r.viol == 1 ? r.cls.c_str() : "none", (unsigned long long)r.hash, rp.cls.c_str(), (unsigned long long)rp.hash, r.msg.c_str());
    if (r.viol == 1) { printf("VIOLATION property=%s replay=%s\n", harness.prop, replay.c_str()); return (r.cls == rp.cls && r.hash == rp.hash) ? 1 : 11; }
    return 0;
  }

  // ---- search --------------------------------------------------------------------------------------
  double t0 = mono();
  Worker *wk = shm<Worker>(W); Global *G = shm<Global>(); G->min_viol = ~0ull;
  uint64_t *hashes = shm<uint64_t>(runs), *covs = shm<uint64_t>(runs);
  std::vector<Shm *> ws(W); for (int w = 0; w < W; w++) ws[w] = shm<Shm>();
  std::vector<pid_t> pids;
  fflush(stdout);
  for (int w = 0; w < W; w++) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 2; }
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      S = ws[w]; DURP = shm<uint8_t>(DUR);
      mute();
      Worker &me = wk[w];
      for (uint64_t i = w; i < runs; i += W) {
        if (i > G->min_viol) break;
        if (mono() - t0 > cap) break;
        Result r = run_index(i);
        hashes[i] = r.hash; covs[i] = r.covsig;
        me.done++; me.steps += r.steps; me.simtime += r.simtime; me.nevents += r.nev;
        if (r.nontrivial) me.nontrivial++;
        if (r.viol == 2) me.discarded++;
        if (r.viol == 1) {
          if (knownset.count(r.cls)) { count(("known." + r.cls).substr(0, 47).c_str()); continue; }
          if (me.nv < MAXV) {
            ViolRec &v = me.v[me.nv++]; v.idx = i; snprintf(v.cls, sizeof v.cls, "%s", r.cls.c_str()); snprintf(v.msg, sizeof v.msg, "%s", r.msg.c_str()); v.nch = S->r.nch;
          }
          // keep going for a few more so that a second violation is at hand if the first should not replay
          if (me.nv >= 3) { uint64_t m = G->min_viol; while (i < m && !G->min_viol.compare_exchange_weak(m, i)) {} break; }
          uint64_t lim = i + (uint64_t)W * 400, m = G->min_viol; while (lim < m && !G->min_viol.compare_exchange_weak(m, lim)) {}
        }
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker failed (%d)\n", st); return 2; } }
  double t1 = mono();

  // ---- determinism: repeat a sample of the runs in this process and compare --------------------------------
  mute();
  S->quiet_counters = 1;
  uint64_t done = 0, nontriv = 0, disc = 0, steps_ = 0, simt = 0, nevs = 0; for (int w = 0; w < W; w++) { done += wk[w].done; nontriv += wk[w].nontrivial; disc += wk[w].discarded; steps_ += wk[w].steps; simt += wk[w].simtime; nevs += wk[w].nevents; }
  uint64_t rechecked = 0, mismatch = 0, firstmis = 0;
  for (uint64_t k = 0; k < recheck && done; k++) {
    uint64_t i = mix(seed * 1000003 + k, 99) % runs;
    if (!hashes[i]) continue;
    Result r = run_index(i); rechecked++;
    if (r.hash != hashes[i]) { if (!mismatch) firstmis = i; mismatch++; }
  }
  // ---- violations -----------------------------------------------------------------------------------------
  std::vector<ViolRec> vs; for (int w = 0; w < W; w++) for (int k = 0; k < wk[w].nv; k++) vs.push_back(wk[w].v[k]);
  std::sort(vs.begin(), vs.end(), [](const ViolRec &a, const ViolRec &b) { return a.idx < b.idx; });
  std::string vpath, vcls, vmsg, vtrace; uint64_t mintries = 0, origlen = 0, minlen = 0; int tried = 0;
  for (auto &v : vs) {
    if (++tried > 6) break;
    Result a = run_index(v.idx); std::vector<uint64_t> c0 = taken(); std::vector<SpanRec> sp(S->span, S->span + S->r.nspan); std::string tr0 = S->trace;
    Result b = run_index(v.idx);
    if (a.viol != 1 || b.viol != 1 || a.hash != b.hash || a.cls != v.cls) continue;   // not exactly repeatable: not reported
    while (!c0.empty() && c0.back() == 0) c0.pop_back();
    Minimiser m; m.cls = a.cls; m.best = c0; m.bestr = a; m.spans = sp; m.max_tries = 4000; m.deadline = mono() + (a.cls == "hang" ? 40 : 25);
    m.go();
    mintries = m.tries;
    char path[512]; snprintf(path, sizeof path, "%s/%s-%s-seed%llu-run%llu.replay", rdir.c_str(), harness.prop, variant.c_str(), (unsigned long long)seed, (unsigned long long)v.idx);
    for (int attempt = 0; attempt < 2; attempt++) {
      const std::vector<uint64_t> &c = attempt == 0 ? m.best : c0;
      Result r = run_choices(c);
      if (r.viol != 1) continue;
      Replay rp; rp.prop = harness.prop; rp.cls = r.cls; rp.seed = seed; rp.idx = v.idx; rp.hash = r.hash; rp.c = c;
      std::string tr = S->trace;
      write_replay(path, rp, r.msg, tr, variant.c_str(), c0.size());
      // fresh process
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) { execl("/proc/self/exe", "harness", "--replay", path, (char *)nullptr); _exit(2); }
      int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { vpath = path; vcls = r.cls; vmsg = r.msg; vtrace = tr; origlen = c0.size(); minlen = c.size(); break; }
    }
    if (!vpath.empty()) break;
  }
  unmute();
  double t2 = mono();
  // ---- statistics --------------------------------------------------------------------------------------------
  std::unordered_set<uint64_t> hs, cs, ss; for (uint64_t i = 0; i < runs; i++) { if (hashes[i]) hs.insert(hashes[i]); if (covs[i]) cs.insert(covs[i]); }
  std::map<std::string, uint64_t> cnt; std::vector<uint8_t> cov(COVB);
  for (int w = 0; w < W; w++) {
    for (int k = 0; k < ws[w]->ncnt; k++) cnt[ws[w]->cnt[k].name] += ws[w]->cnt[k].n;
    for (size_t k = 0; k < COVB; k++) cov[k] |= ws[w]->cov[k];
    if (ws[w]->nst) for (size_t k = 0; k < STSET; k++) if (ws[w]->stset[k]) ss.insert(ws[w]->stset[k]);
  }
  uint64_t bbs = 0; for (uint8_t b : cov) bbs += __builtin_popcount(b);
  // samples: three complete runs, written out
  std::vector<std::string> samples;
  mute();
  for (uint64_t i = 0, tries = 0; samples.size() < 3 && tries < 60 && i < runs; i++, tries++) {
    Result r = run_index(i);
    if (r.viol == 2 || !r.nontrivial) continue;
    std::string t = S->trace; if (t.size() > 1600) { t.resize(1600); t += " ...[" + std::to_string(r.nev) + " events]"; }
    samples.push_back("run " + std::to_string(i) + " (" + std::to_string(S->r.nch) + " choices, hash " + std::to_string(r.hash) + "): " + t);
  }
  unmute();
  if (!statsf.empty()) {
    FILE *f = fopen(statsf.c_str(), "w"); if (!f) { perror(statsf.c_str()); return 2; }
    fprintf(f, "{\"property\":%s,\"variant\":%s,\"seed\":%llu,\"tier\":%s,\"runs_planned\":%llu,\"runs\":%llu,\"nontrivial\":%llu,\"discarded\":%llu,\"wall_search_s\":%.3f,\"wall_s\":%.3f,", jstr(harness.prop).c_str(), jstr(variant).c_str(),
            (unsigned long long)seed, jstr(tier).c_str(), (unsigned long long)runs, (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)disc, t1 - t0, t2 - t0);
    fprintf(f, "\"distinct_histories\":%zu,\"distinct_coverage_signatures\":%zu,\"distinct_model_states\":%zu,\"basic_blocks_reached\":%llu,\"basic_blocks_executed\":%llu,\"events\":%llu,\"simulated_usec\":%llu,", hs.size(), cs.size(), ss.size(),
            (unsigned long long)bbs, (unsigned long long)steps_, (unsigned long long)nevs, (unsigned long long)simt);
    fprintf(f, "\"rechecked_runs\":%llu,\"recheck_mismatches\":%llu,\"rule\":%s,\"counters\":{", (unsigned long long)rechecked, (unsigned long long)mismatch, jstr(harness.rule).c_str());
    bool first = true; for (auto &k : cnt) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "},\"real_components\":["); first = true; for (auto s : harness.real_components) { fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
    fprintf(f, "],\"stub_components\":["); first = true; for (auto s : harness.stub_components) { fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
    fprintf(f, "],\"samples\":["); first = true; for (auto &s : samples) { fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
    fprintf(f, "],\"violations_seen\":%zu", vs.size());
    if (!vpath.empty()) fprintf(f, ",\"violation\":{\"class\":%s,\"message\":%s,\"replay\":%s,\"choices\":%llu,\"choices_before\":%llu,\"minimiser_runs\":%llu}", jstr(vcls).c_str(), jstr(vmsg).c_str(), jstr(vpath).c_str(), (unsigned long long)minlen, (unsigned long long)origlen, (unsigned long long)mintries);
    fprintf(f, "}\n"); fclose(f);
  }
  fprintf(stdout, "%s[%s]: %llu runs (%llu non-trivial, %llu discarded) in %.1fs, %zu distinct histories, %zu coverage signatures, %zu model states, %llu blocks, rechecked %llu\n", harness.prop, variant.c_str(), (unsigned long long)done,
          (unsigned long long)nontriv, (unsigned long long)disc, t1 - t0, hs.size(), cs.size(), ss.size(), (unsigned long long)bbs, (unsigned long long)rechecked);
  if (!vpath.empty()) {
    printf("class: %s\nmessage: %s\ntrace of the minimised run (%llu choices, from %llu):\n%s\n", vcls.c_str(), vmsg.c_str(), (unsigned long long)minlen, (unsigned long long)origlen, vtrace.substr(0, 6000).c_str());
    printf("VIOLATION property=%s replay=%s\n", harness.prop, vpath.c_str());
    return 1;
  }
  if (!vs.empty()) { printf("ERROR: %zu violating runs, none of which replays exactly (first: run %llu %s: %s)\n", vs.size(), (unsigned long long)vs[0].idx, vs[0].cls, vs[0].msg); return 2; }
  if (mismatch) { printf("ERROR: run %llu is not deterministic (%llu of %llu)\n", (unsigned long long)firstmis, (unsigned long long)mismatch, (unsigned long long)rechecked); return 2; }
  return 0;
}
