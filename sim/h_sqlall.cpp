// C20: every call of the SQLite binding leaves no open statement and no lock.  The histories are those of the other
// checks of the binding (writes and upserts on several connections, scripts, queries, values from JSON, joins); what is
// judged is what each call leaves behind on its connection.
#define EMBED 1
#include "ujson.h"
#include "vfs.h"
extern "C" {
#include "cee-sqlite3.h"
}
namespace w_calls {
#define PROP_C20 1
#include "h_sql.cpp"
#undef PROP_C20
#undef INT_ERR
}
namespace w_script {
#define PROP_C16 1
#include "h_sql.cpp"
#undef PROP_C16
}
namespace w_query {
#define PROP_C18 1
#include "h_sqlq.cpp"
#undef PROP_C18
}
namespace w_store {
#define PROP_C19 1
#include "h_sqlq.cpp"
#undef PROP_C19
}
namespace w_join {
#define PROP_C21 1
#include "h_sqlq.cpp"
#undef PROP_C21
}
static const struct { const char *name; void (*run)(); } W[] = {{"calls", w_calls::run}, {"script", w_script::run}, {"query", w_query::run}, {"store", w_store::run}, {"join", w_join::run}};
static void run() {
  static const char *const resources[] = {"open-statement", "lock", "transaction", "blocked", nullptr};
  unsigned w = weighted({5, 1, 2, 2, 2}); ev("history: %s", W[w].name); sim::count(fmt("probe.history-%s", W[w].name).c_str());
  if (w) sim::only_classes(resources); W[w].run();
}
namespace sim {
Harness harness = {"C20", run, 60000000, 5000, 250000,
  "one run = a seeded history of calls of the binding: writes, upserts, queries and row callbacks on one to three connections, call by call or interleaved at every disk and lock operation, with up to four crashes; or initialisation scripts; or queries of every kind under a concurrent writer; or values stored from JSON; or joins and named selections; with I/O errors, full disk, lock contention and SQLite allocation failures; after every call the open statements and locks of its connection; non-trivial = something was committed or answered; distinct = distinct event history hash",
  {"sqlite3/cee-sqlite3.c", "sqlite3/join.c", "cee-json (amalgamation)", "cee (amalgamation)", "SQLite 3.45 (system library)"}, {"SQLite's VFS: disk, locks, clock, randomness", "SQLite's allocator", "malloc family of the library (simulated heap)"}};
}
