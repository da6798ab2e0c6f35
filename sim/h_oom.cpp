// C14: an allocation failure stops the process or is reported; as long as the process runs everything is intact.
// The histories and models are those of the other checks; one allocation (or every one from some point on) fails.
#define EMBED 1
#include "ujson.h"
#include <errno.h>
namespace n_seq {
#include "h_seq.cpp"
}
namespace n_map {
#include "h_map.cpp"
}
namespace n_set {
#include "h_set.cpp"
}
namespace n_str {
#include "h_str.cpp"
}
namespace n_json {
#include "h_json.cpp"
}
namespace n_parse {
#include "h_parse.cpp"
}
namespace n_own {
#define PROP_C08 1
#include "h_graph.cpp"
#undef PROP_C08
#undef P05
#undef P06
#undef P07
#undef P08
#undef P22
}
namespace n_env {
#define PROP_C22 1
#include "h_graph.cpp"
}
namespace n_bulk { // a long list: the growth that fails leaves nothing to write to
static void run() {
  sim::alloc_draw_config(); struct cee_state *st = cee_state_mk(10); struct cee_list *l = cee_list_mk(st, choose(4)); void *e[3] = {cee_boxed_from_i64(st, 1), mkstr(st, "x"), cee_boxed_from_u64(st, 3)};
  size_t n = 100 + choose(30000), m = 0; unsigned salt = choose(3); ev("list of %zu", n);
  for (size_t i = 0; i < n; i++) { if (i % 7 == salt) cee_list_insert(l, (int)m, e[(i + salt) % 3]); else cee_list_append(l, e[(i + salt) % 3]); m++; }
  SIM_CHECK(cee_list_size(l) == m, "list-size", "list has %zu elements of %zu", cee_list_size(l), m);
  for (size_t i = 0; i < n; i++) SIM_CHECK(l->a[i] == e[(i + salt) % 3], "list-content", "element %zu of a list of %zu changed", i, n);
  cee_del(st);
}
}
static const struct { const char *name; void (*run)(); unsigned w; } W[] = {
  {"seq", n_seq::run, 2}, {"map", n_map::run, 2}, {"set", n_set::run, 2}, {"str", n_str::run, 2}, {"json", n_json::run, 4}, {"parse", n_parse::run, 4}, {"own", n_own::run, 1}, {"env", n_env::run, 1}, {"bulk", n_bulk::run, 1}};
static void run() {
  unsigned w = weighted({2, 2, 2, 2, 5, 5, 1, 1, 1}); bool persistent = chance(1, 4); uint64_t k = 1 + choose(1ull << choose(w == 8 ? 6 : 11));
  ev("workload %s: allocation %llu%s fails", W[w].name, (unsigned long long)k, persistent ? " and all later ones" : "");
  bool *fired = (bool *)sim::durable_alloc(1), *went_on = (bool *)sim::durable_alloc(1);
  int r = sim::epoch([&] { sim::alloc_fail_at(k, persistent); W[w].run(); *fired = sim::alloc_failed_once(); });
  if (r == 2) { sim::count(fmt("probe.%s.stopped", W[w].name).c_str()); sim::mark_nontrivial(); }
  else if (*fired) { sim::count(fmt("probe.%s.went-on-after-failure", W[w].name).c_str()); sim::mark_nontrivial(); }
  ev("end %d", r);
}
namespace sim {
Harness harness = {"C14", run, 60000000, 60000, 1500000,
  "one run = one history of container, string, JSON editing, printing or parsing calls (the histories of C01-C04, C08, C10, C12 and C22) in a process where one seeded allocation, or all from it on, fails; the run ends when the code stops the process, or goes on under the models of those checks; non-trivial = the failure happened; distinct = distinct event history hash",
  {"all of the container library", "cee-json/value.c", "cee-json/snprint.c", "cee-json/parser.c", "cee-json/tokenizer.c"}, {"malloc family (simulated heap)"}};
}
