// Simulated file system under the code under test (system-call and stdio seam, linked with -Wl,--wrap).
// Files live in memory that survives epochs; what was not synced when the process crashes is lost, kept or torn.
#pragma once
#include "sim.h"
#include <string>
#include <vector>
namespace fs {
struct Faults { unsigned rshort = 0, rintr = 0, reio = 0, wshort = 0, wintr = 0, weio = 0, nospc = 0, open = 0, stat = 0, close = 0, sync = 0; }; // out of 256 per operation
extern Faults rates;
void init();                    // once per run, before the first epoch
void active(bool on);           // calls by path go to the simulated disk (calls by descriptor do so by their number)
struct On { bool was; On(bool faults = true); ~On(); };
void faults(bool on);
bool exists(const std::string &name);
std::string content(const std::string &name);
void put(const std::string &name, const std::string &data); // contents placed from outside, durable
void drop(const std::string &name);
std::vector<std::string> names();
int hard();                     // faults so far that make an operation fail for good
int hard_kind(const char *k);   // ... of one kind: read, write, open, stat, close

int wopens(const std::string &name);
int open_files();               // open descriptors and streams
void crash_after(uint64_t ops); // crash at the n-th operation from now (0 = off)
void recover();                 // apply the effect of a crash or power failure to the disk
}
