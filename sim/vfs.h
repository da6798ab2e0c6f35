// Simulated disk, locks and allocator under SQLite (SQLite's own VFS and malloc seams; no change to SQLite).
// Files live in memory that survives epochs; crash() loses, keeps or tears what was not synced.
#pragma once
#include "sim.h"
#include <sqlite3.h>
#include <functional>
#include <string>
namespace vfs {
struct Faults { unsigned read = 0, write = 0, full = 0, sync = 0, trunc = 0, del = 0, busy = 0, lock = 0, open = 0, access = 0, size = 0; }; // out of 1024 per operation
extern Faults rates;
void init();                     // once per run, before the first epoch
void start();                    // once per epoch: a fresh SQLite
void draw(bool any);             // draw fault rates
void faults(bool on);
bool faults_on();
void nomem_at(uint64_t k, uint64_t len); // SQLite's allocations k..k+len-1 from now on fail (0 = off)
uint64_t fired();                // faults that fired so far in this epoch
uint64_t busies();               // lock requests refused because of other connections
bool no_space();                 // the disk is at its capacity
void crash_after(uint64_t ops);  // crash at the n-th operation from now (0 = off)
void recover();                  // apply the effect of a crash to the disk
int lock_level(sqlite3 *db);     // lock the connection holds on its main database file
int locks_of_others(sqlite3 *db); // highest lock of any other connection on the same file
extern std::function<void(const char *name)> on_journal_end; // a rollback journal has just ceased to exist
extern std::function<void(const char *kind)> on_fault;
extern bool (*dir_ok)(const char *name); // is there a directory for this file (null = yes)
int open_handles();              // database and journal files that are open
// no faults, no crash, no task switch; ghost handles take no locks and see no journal
struct Quiet { bool f, g, q; Quiet(bool ghost); ~Quiet(); };
bool exists(const std::string &name);
void drop(const std::string &name);
const unsigned char *bytes(const std::string &name, size_t &n); // current contents of a file
}
