// C11: saving and loading JSON files under I/O faults and crashes.   C13: merging JSON files.
#include "ujson.h"
#include "fs.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
static struct cee_state *st;
// outside the properties: escaped NULs, numbers beyond the range of a double
static bool has_nul(const P &p) { if (p->hasnul || (p->t == JV::DBL && isinf(p->d))) return true; for (auto &e : p->a) if (has_nul(e)) return true; for (auto &e : p->o) if (has_nul(e.second)) return true; return false; }
struct Said { P strict, lenient; int depth; Said(const string &t, bool whole) { RefParse s(t, true), l(t, false); strict = s.doc(whole); if (s.maxdepth > 500) strict = nullptr; lenient = l.doc(whole); depth = l.maxdepth; } };
static void draw_faults(bool hard_too) {
  fs::rates = fs::Faults(); auto r = [](unsigned n) { return chance(n, 6) ? (unsigned)(chance(1, 2) ? 25 : 100) : 0u; };
  fs::rates.rshort = r(3); fs::rates.wshort = r(3); fs::rates.rintr = r(2); fs::rates.wintr = r(2);
  if (hard_too) { auto h = [](unsigned n) { return chance(n, 8) ? (unsigned)(chance(1, 2) ? 20 : 70) : 0u; }; fs::rates.reio = h(2); fs::rates.weio = h(2); fs::rates.nospc = h(2); fs::rates.open = h(1); fs::rates.stat = h(1); fs::rates.close = h(2); }
}
static string damage(string t) {
  for (unsigned i = 0, n = 1 + choose(3); i < n; i++) { size_t at = t.empty() ? 0 : choose(t.size()); switch (choose(4)) { case 0: t = t.substr(0, at); break; case 1: if (!t.empty()) t[at] ^= (char)(1 << choose(8)); break; case 2: t.insert(at, 1, "{}[],:\"\\ 1x"[choose(11)]); break; default: if (!t.empty()) t.erase(at, 1 + choose(4)); } }
  sim::count("fault.file-damaged"); return t;
}
#ifdef PROP_C11
static const char *FN[] = {"a.json", "b.json", "c.json"};
static void load(const string &name, int how, bool whole) {
  string bytes = fs::content(name); Said e(bytes, whole); int h0 = fs::hard(), fds0 = fs::open_files(); int line = -3; int *lp = chance(1, 3) ? nullptr : &line; struct cee_json *j = nullptr; bool opened = true;
  { fs::On on(how == 2);
    if (how == 2) { j = cee_json_load_from_file_path(st, (char *)name.c_str(), whole, lp); }
    else if (how == 1) { FILE *f = fopen(name.c_str(), "r"); if (!f) opened = false; else { fs::faults(true); j = cee_json_load_from_FILE(st, f, whole, lp); fs::faults(false); fclose(f); } }
    else { int fd = open(name.c_str(), O_RDONLY); if (fd < 0) opened = false; else { fs::faults(true); j = cee_json_load_from_fileno(st, fd, whole, lp); fs::faults(false); close(fd); } } }
  ev("load %s how=%d whole=%d (%zu bytes) -> %s, %d faults", name.c_str(), how, whole, bytes.size(), j ? "document" : "failure", fs::hard() - h0);
  SIM_CHECK(fs::open_files() == fds0, "descriptor", "loading %s leaves %d files open", name.c_str(), fs::open_files() - fds0);
  if (!opened) return;
  if (fs::hard() > h0) { SIM_CHECK(!j, "unreported", "a read, status or open operation failed while loading %s and no failure is reported", name.c_str()); sim::count("probe.load-failed-by-fault"); return; }
  if (e.strict && fs::exists(name)) SIM_CHECK(j, "load", "a well-formed file of %zu bytes cannot be loaded (line %d): %s", bytes.size(), line, show(bytes).c_str());
  if (!e.lenient) SIM_CHECK(!j, "load", "a file that holds no document is loaded as one: %s", show(bytes).c_str());
  if (j && !has_nul(e.lenient)) { mirror(e.lenient, j, name); sim::count("probe.loaded"); sim::state(jhash(e.lenient)); }
}
static P pick_doc() {
  if (chance(1, 20)) return long_doc(chance(1, 5) ? 140000 : 20000, 3000);
  if (chance(1, 12)) { P p = ji64(7); unsigned d = 20 + (unsigned)choose(430); for (unsigned i = 0; i < d; i++) { P q = jv(i % 3 ? JV::ARR : JV::OBJ); if (i % 3) q->a.push_back(p); else q->o.push_back({"d", p}); p = q; } return p; }
  int b = 2 + (int)choose(chance(1, 4) ? 250 : 30); P p = draw_doc(b, 6, 12, true); if (!p->box() && chance(3, 4)) { P q = jv(JV::ARR); q->a.push_back(p); p = q; } return p;
}
static void save(const string &name) {
  P d = pick_doc(); { if (expanded(d) > 4000) return; build(st, d); } std::function<int(const P &)> dep = [&](const P &p) { int m = 0; for (auto &e : p->a) m = std::max(m, dep(e)); for (auto &e : p->o) m = std::max(m, dep(e.second)); return m + 1; }; bool pretty = chance(1, 2) && dep(d) < 100; int how = chance(1, 2); bool ok; int h0, h1; string at_return; int fds0 = fs::open_files();
  { fs::On on(false); FILE *f = nullptr; int fd = -1;
    if (how) f = fopen(name.c_str(), "w"); else fd = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    h0 = fs::hard(); fs::faults(true); ok = how ? cee_json_save(st, d->r, f, pretty) : cee_json_save_fileno(st, d->r, fd, pretty); fs::faults(false); h1 = fs::hard(); at_return = fs::content(name);
    if (ok && chance(1, 3)) { fsync(how ? fileno(f) : fd); }
    if (how) fclose(f); else close(fd); }
  ev("save %s how=%d pretty=%d -> %d, %d faults, %zu bytes", name.c_str(), how, pretty, ok, h1 - h0, fs::content(name).size());
  if (h1 > h0) { SIM_CHECK(!ok, "unreported", "a write operation failed while saving %s and success is reported", name.c_str()); sim::count("probe.save-failed-by-fault"); }
  else SIM_CHECK(ok, "save", "saving %s fails without any failing operation", name.c_str());
  if (ok) SIM_CHECK(at_return == fs::content(name), "save", "saving reports success when %zu of %zu bytes are in the file", at_return.size(), fs::content(name).size());
  if (ok) { string t = fs::content(name), why; RefParse rp(t, true); P g = rp.doc(true); SIM_CHECK(g, "save", "the saved file is not well-formed near offset %zu of %zu: %s", rp.p, t.size(), show(t.substr(rp.p > 30 ? rp.p - 30 : 0)).c_str()); SIM_CHECK(says(d, g, why), "save", "the saved file: %s", why.c_str()); }
  mirror(d, d->r, "saved document"); sim::mark_nontrivial();
}
static void body() {
  st = cee_state_mk(10); Steps stp(10, 60);
  while (stp.more()) {
    Span s; string n = FN[choose(3)];
    switch (weighted({5, 6, 1, 1, 1})) {
      case 0: save(n); break;
      case 1: { int how = (int)choose(3); load(n, how, !chance(1, 5)); break; }
      case 2: { string t; int b = 20; P p = draw_doc(b, 5); t = text_of(p); fs::put(n, damage(t)); ev("put %s damaged", n.c_str()); break; }
      case 3: { static const char *o[] = {"", " ", "[]", "1", "{\"a\":[1,2,{}]}x", "[1][2]", "null", "\"\xc3\xa9\""}; fs::put(n, o[choose(8)]); ev("put %s odd", n.c_str()); break; }
      default: if (chance(1, 3)) { fs::drop(n); ev("drop %s", n.c_str()); } else draw_faults(chance(2, 3));
    }
  }
  SIM_CHECK(fs::open_files() == 0, "descriptor", "%d files stay open", fs::open_files());
  cee_del(st); SIM_CHECK(sim::live_blocks() == 0, "leak", "%d blocks live after the state was deleted, e.g. %s", sim::live_blocks(), sim::block_desc(sim::first_live()));
}
static void run() {
  sim::alloc_draw_config(); fs::init(); draw_faults(chance(2, 3)); bool crashy = chance(1, 2);
  for (int e = 0; e < 3; e++) {
    uint64_t at = crashy ? 1 + choose(60) : 0;
    int r = sim::epoch([&]() { if (at) fs::crash_after(at); body(); });
    if (r == 0 && !chance(1, 4)) break;
    if (r == 1 || chance(1, 2)) { ev("crash"); fs::recover(); }
    sim::epoch([&]() { st = cee_state_mk(10); fs::rates = fs::Faults(); for (auto &n : fs::names()) load(n, 0, true); cee_del(st); });
  }
}
namespace sim {
Harness harness = {"C11", run, 40000000, 18000, 900000,
  "one run = seeded histories of saves and loads (descriptor, stream, path) of documents in three files on a simulated disk with short and interrupted reads and writes, I/O errors, full disk, failing open and status calls, damaged contents, and up to three crashes at arbitrary operations that lose or tear unsynced writes, each followed by loading everything; non-trivial = at least one save; distinct = distinct event history hash",
  {"cee-json/value.c", "cee-json/snprint.c", "cee-json/parser.c", "cee-json/tokenizer.c", "state.c"}, {"malloc family (simulated heap)", "file system calls and stdio streams (simulated disk)"}};
}
#else
static const char *FN[] = {"in0.json", "in1.json", "in2.json", "in \"%s\" \xc3\xa9.json"};
static P merge_model(const P &d, const P &s) {
  if (d->t != s->t || !d->box()) return s;
  if (d->t == JV::ARR) { d->a.insert(d->a.end(), s->a.begin(), s->a.end()); return d; }
  for (auto &e : s->o) { int i = d->find(e.first); if (i < 0) d->o.push_back(e); else d->o[i].second = merge_model(d->o[i].second, e.second); }
  return d;
}
static void sort_members(const P &p) { for (auto &e : p->a) sort_members(e); for (auto &e : p->o) sort_members(e.second); std::stable_sort(p->o.begin(), p->o.end(), [](const std::pair<string, P> &a, const std::pair<string, P> &b) { return a.first < b.first; }); }
static void merge_once(bool faulty) {
  int n = (int)choose(chance(1, 20) ? 1 : 5); vector<string> in; for (int i = 0; i < n; i++) in.push_back(chance(1, 16) ? "missing.json" : FN[choose(4)]);
  string target = chance(1, 10) && n ? in[0] : "out.json"; std::map<string, string> before; for (auto &f : fs::names()) before[f] = fs::content(f);
  bool bad = n == 0, sure = n > 0, nul = false; P m;
  for (auto &f : in) { if (!before.count(f)) { bad = true; continue; } Said e(before[f], true); if (!e.lenient || e.lenient->t != JV::OBJ) { bad = true; continue; } if (!e.strict) sure = false; nul |= has_nul(e.lenient); m = m ? merge_model(m, e.lenient) : e.lenient; }
  if (bad) sure = false;
  vector<string> said; for (auto &f : in) said.push_back(chance(1, 12) ? "./" + f : chance(1, 12) ? "././" + f : f);
  if (m) { P l = jv(JV::ARR); for (auto &f : said) l->a.push_back(jstr(f)); int i = m->find("originals"); if (i < 0) m->o.push_back({"originals", l}); else m->o[i].second = l; }
  vector<char *> args; for (auto &f : said) { char *b = (char *)sim::arena_alloc(f.size() + 1); strcpy(b, f.c_str()); args.push_back(b); } args.push_back(nullptr);
  int live = sim::live_blocks(), h0 = fs::hard(), rs0 = fs::hard_kind("read") + fs::hard_kind("stat") + fs::hard_kind("open"), w0 = fs::wopens(target); int r;
  { fs::On on(faulty); r = cee_json_merge_all(args.data(), n, (char *)target.c_str()); }
  int hf = fs::hard() - h0, rf = fs::hard_kind("read") + fs::hard_kind("stat") + fs::hard_kind("open") - rs0;
  ev("merge %d files into %s (%s) -> %d, %d faults", n, target.c_str(), bad ? "bad input" : sure ? "good" : "lenient", r, hf);
  SIM_CHECK(fs::open_files() == 0, "descriptor", "merging leaves %d files open", fs::open_files());
  SIM_CHECK(sim::live_blocks() == live, "leak", "merging leaves %d blocks of memory", sim::live_blocks() - live);
  for (auto &f : before) if (f.first != target) SIM_CHECK(fs::exists(f.first) && fs::content(f.first) == f.second, "input-changed", "merging changes %s", f.first.c_str());
  if (bad) SIM_CHECK(r != 0, "unreported", "merging reports success although an input is missing, damaged or not an object");
  if (hf) { SIM_CHECK(r != 0, "unreported", "merging reports success although an operation failed"); sim::count("probe.merge-failed-by-fault"); }
  if (sure && !hf) SIM_CHECK(r == 0, "merge", "merging well-formed files fails (%d)", r);
  if (bad || rf) { bool was = before.count(target); SIM_CHECK(fs::exists(target) == was && (!was || (fs::content(target) == before[target])), "target-touched", "merging failed on its inputs and touched the target %s (%d opens)", target.c_str(), fs::wopens(target) - w0); }
  if (r == 0 && !nul) {
    string t = fs::content(target), why; RefParse rp(t, sure); P g = rp.doc(true); SIM_CHECK(g, "merge", "the merged file is not well-formed near offset %zu of %zu: %s", rp.p, t.size(), show(t.substr(rp.p > 30 ? rp.p - 30 : 0)).c_str());
    // the library chooses the order in which new keys are added
    sort_members(g); sort_members(m); SIM_CHECK(says(m, g, why), "merge", "the merged file: %s", why.c_str()); sim::count("probe.merged"); sim::state(jhash(g)); if (n > 1) sim::mark_nontrivial();
  }
}
static void body() {
  Steps stp(4, 20);
  while (stp.more()) {
    Span s;
    for (int i = 0; i < 4; i++) if (!fs::exists(FN[i]) || chance(1, 3)) {
      string t; unsigned k = weighted({14, 1, 1, 1}); int b = 4 + (int)choose(40); P p = draw_doc(b, 5, 5, chance(1, 3)); while (p->t != JV::OBJ) { P q = jv(JV::OBJ); q->o.push_back({draw_key(4, false), p}); p = q; }
      if (chance(1, 16)) { P l = long_doc(chance(1, 5) ? 100000 : 10000, 2000); if (l->t == JV::OBJ && chance(1, 2)) p = l; else p->o.push_back({draw_key(4, false), l}); std::set<string> ks; for (size_t x = 0; x < p->o.size(); x++) if (!ks.insert(p->o[x].first).second) p->o.erase(p->o.begin() + x--); }
      if (chance(1, 10)) p->o.push_back({"originals", jstr("x")}); { int f = -1; for (size_t x = 0; x < p->o.size(); x++) if (p->o[x].first == "originals") { if (f >= 0) { p->o.erase(p->o.begin() + x); x--; } else f = (int)x; } }
      t = text_of(p); if (k == 1) t = damage(t); if (k == 2) t = "[" + t + "]"; if (k == 3) t = chance(1, 2) ? "" : "12"; fs::put(FN[i], t); ev("%s: kind %u, %zu bytes", FN[i], k, t.size());
    }
    if (chance(1, 3)) draw_faults(chance(1, 2));
    merge_once(true);
  }
}
static void run() {
  sim::alloc_draw_config(); fs::init(); draw_faults(chance(1, 2)); bool crashy = chance(1, 3); if (chance(1, 2)) fs::put("out.json", "{\"old\":1}");
  for (int e = 0; e < 3; e++) {
    uint64_t at = crashy ? 1 + choose(60) : 0;
    int r = sim::epoch([&]() { if (at) fs::crash_after(at); body(); });
    if (r == 0) break;
    ev("crash"); std::map<string, string> b; for (auto f : FN) if (fs::exists(f)) b[f] = fs::content(f);
    fs::recover();
    sim::epoch([&]() { fs::rates = fs::Faults(); merge_once(false); });
  }
}
namespace sim {
Harness harness = {"C13", run, 40000000, 20000, 900000,
  "one run = a seeded series of merges of up to four of four input files (valid, damaged, not an object, missing, repeated, also the target) on a simulated disk with short and interrupted reads and writes, I/O errors, full disk, failing open, status and close calls, and crashes at arbitrary operations followed by another merge; non-trivial = at least one successful merge of two or more files; distinct = distinct event history hash",
  {"cee-json/cee_json_merge.c", "cee-json/value.c", "cee-json/snprint.c", "cee-json/parser.c", "cee-json/tokenizer.c", "map.c", "list.c", "state.c"}, {"malloc family (simulated heap)", "file system calls and stdio streams (simulated disk)"}};
}
#endif
