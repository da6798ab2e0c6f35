// C09: call sequences on separate states are independent under every interleaving.
// Two or three tasks run the histories of the other checks, each against its own model, on their own states and
// files in one process; the simulator switches between them at basic blocks of the code under test and at
// allocations and system calls.
#define EMBED 1
#include "ujson.h"
#include "fs.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#define PROP_C22 1
namespace a_seq {
#include "h_seq.cpp"
}
namespace a_map {
#include "h_map.cpp"
}
namespace b_map {
#include "h_map.cpp"
}
namespace a_set {
#include "h_set.cpp"
}
namespace b_set {
#include "h_set.cpp"
}
namespace a_str {
#include "h_str.cpp"
}
namespace b_str {
#include "h_str.cpp"
}
namespace a_json {
#include "h_json.cpp"
}
namespace b_json {
#include "h_json.cpp"
}
namespace a_parse {
#include "h_parse.cpp"
}
namespace b_parse {
#include "h_parse.cpp"
}
namespace a_env {
#include "h_graph.cpp"
}
#undef PROP_C22
#undef P05
#undef P06
#undef P07
#undef P08
#undef P22
#define PROP_C08 1
namespace a_own {
#include "h_graph.cpp"
}
#undef P05
#undef P06
#undef P07
#undef P08
#undef P22
namespace b_own {
#include "h_graph.cpp"
}
#undef PROP_C08
#undef P05
#undef P06
#undef P07
#undef P08
#undef P22
#define PROP_C06 1
namespace a_gc {
#include "h_graph.cpp"
}
#undef P05
#undef P06
#undef P07
#undef P08
#undef P22
namespace b_gc {
#include "h_graph.cpp"
}
static void file_task(const string &name) {
  struct cee_state *st = cee_state_mk(10); bool have = false; string bytes; P last;
  Steps stp(8, 30);
  while (stp.more()) {
    if (!have || chance(1, 2)) {
      int b = 2 + (int)choose(chance(1, 4) ? 150 : 30); P d = draw_doc(b, 5, 8, true); if (!d->box()) { P q = jv(JV::ARR); q->a.push_back(d); d = q; }
      if (expanded(d) > 3000) continue;
      build(st, d); bool pretty = chance(1, 2), how = chance(1, 2), ok;
      if (how) { FILE *f = fopen(name.c_str(), "w"); SIM_CHECK(f, "save", "cannot open %s", name.c_str()); ok = cee_json_save(st, d->r, f, pretty); fclose(f); }
      else { int fd = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); ok = cee_json_save_fileno(st, d->r, fd, pretty); close(fd); }
      ev("task %d: save %s -> %d", sim::current_task(), name.c_str(), ok); SIM_CHECK(ok, "save", "saving %s fails", name.c_str());
      bytes = fs::content(name); string why; RefParse rp(bytes, true); P g = rp.doc(true); SIM_CHECK(g, "save", "the saved file is not well-formed near offset %zu of %zu: %s", rp.p, bytes.size(), show(bytes.substr(rp.p > 30 ? rp.p - 30 : 0)).c_str()); SIM_CHECK(says(d, g, why), "save", "the saved file: %s", why.c_str());
      mirror(d, d->r, "saved document"); have = true; last = g;
    } else {
      struct cee_json *j = nullptr; int line = -3; unsigned how = choose(3);
      if (how == 0) j = cee_json_load_from_file_path(st, (char *)name.c_str(), true, &line);
      else if (how == 1) { FILE *f = fopen(name.c_str(), "r"); j = cee_json_load_from_FILE(st, f, true, &line); fclose(f); }
      else { int fd = open(name.c_str(), O_RDONLY); j = cee_json_load_from_fileno(st, fd, true, &line); close(fd); }
      ev("task %d: load %s -> %d", sim::current_task(), name.c_str(), j != nullptr); SIM_CHECK(j, "load", "a well-formed file of %zu bytes cannot be loaded (line %d): %s", bytes.size(), line, show(bytes).c_str());
      mirror(last, j, name);
    }
  }
  cee_del(st); SIM_CHECK(sim::live_blocks(sim::get_owner()) == 0, "leak", "%d blocks live after the state was deleted", sim::live_blocks(sim::get_owner()));
}
static void a_file() { file_task("a.json"); }
static void b_file() { file_task("b.json"); }
static const struct { const char *name; void (*run)(); } W[] = {
  {"seq", a_seq::run}, {"map", a_map::run}, {"map2", b_map::run}, {"set", a_set::run}, {"set2", b_set::run}, {"str", a_str::run}, {"str2", b_str::run}, {"json", a_json::run}, {"json2", b_json::run},
  {"parse", a_parse::run}, {"parse2", b_parse::run}, {"env", a_env::run}, {"file", a_file}, {"file2", b_file}, {"own", a_own::run}, {"own2", b_own::run}, {"gc", a_gc::run}, {"gc2", b_gc::run}};
static void run() {
  sim::focus(-1); sim::alloc_draw_config(); fs::init(); fs::active(true); if (chance(1, 2)) { fs::rates.rshort = fs::rates.wshort = fs::rates.rintr = 40; } fs::faults(true);
  sim::Tasks t; vector<unsigned> use; unsigned n = 2 + (unsigned)choose(2);
  // the same kind of work twice, or any mixture
  static const unsigned pairs[][2] = {{1, 2}, {3, 4}, {5, 6}, {7, 8}, {9, 10}, {12, 13}, {7, 9}, {12, 10}, {14, 15}, {16, 17}, {14, 16}, {15, 11}};
  if (chance(1, 2)) { const unsigned *p = pairs[choose(sizeof pairs / sizeof *pairs)]; use = {p[0], p[1]}; }
  while (use.size() < n) { unsigned w = (unsigned)choose(sizeof W / sizeof *W); if (std::find(use.begin(), use.end(), w) == use.end()) use.push_back(w); }
  for (size_t i = 0; i < use.size(); i++) { unsigned w = use[i]; ev("task %zu: %s", i, W[w].name); t.fns.push_back([w, i] { sim::set_owner(1000 + (int)i); W[w].run(); ev("task %zu done", i); }); }
  unsigned q = (unsigned[]){1000, 15, 60, 250, 4000, 20000}[choose(6)]; unsigned sw = (unsigned[]){0, 1, 8, 2}[choose(4)]; sim::prefer_static_switches(sw ? std::max(1u, q / sw) : 0); ev("a switch every %u basic blocks or so, every %u accesses to static data", q, sw ? sw : 0);
  int fo = chance(1, 2) ? (int)choose(60) : -1; ev("focus %d", fo); sim::focus(fo); t.run(q); sim::focus(-1); sim::mark_nontrivial();
}
namespace sim {
Harness harness = {"C09", run, 120000000, 9000, 200000,
  "one run = two or three tasks, each running a history of container, graph, collection, deletion, string, JSON editing, printing, parsing, file or environment calls on its own states and files against its own model, interleaved at basic blocks of the library (variant statics: and at its accesses to static data) by a seeded scheduler; non-trivial = every run; distinct = distinct event history hash (which includes the order of task switches)",
  {"all of the container library", "cee-json/value.c", "cee-json/snprint.c", "cee-json/parser.c", "cee-json/tokenizer.c"}, {"malloc family (simulated heap)", "threads (tasks on their own stacks, switched by the simulator at basic blocks)", "file system calls (simulated disk)"}};
}
