// C23: creation, restoration, migration, backup and opening of managed databases (sqlite3/cee_dbm.c) on a simulated
// disk with faults, lock contention and crashes.  The real library and the real SQLite run; disk, directories, locks,
// clock and the backup command are simulated.
#include "util.h"
#include "vfs.h"
#include <errno.h>
#include <sys/stat.h>
extern "C" {
#include "cee-sqlite3.h"
#include "cee_dbm.h"
}
static void quiet_stderr() { FILE *f = fopen("/dev/null", "w"); if (f) stderr = f; }
#define INT_ERR(rc, what) do { if ((rc) != SQLITE_OK && (rc) != SQLITE_DONE && (rc) != SQLITE_ROW) violation("unreadable", "the database cannot be read: %s (%d, %s)", what, (int)(rc), sqlite3_errmsg(db)); } while (0)

// ---- the world: directories, scripts, databases ------------------------------------------------------------------------
static const int ND = 2, NT = 6, NM = 48, NL = 160;
struct St { int64_t version, trail, mask, n; int64_t m[NM]; };
static bool operator==(const St &a, const St &b) { return !memcmp(&a, &b, sizeof a); }
static bool empty(const St &s) { return !s.trail && !s.mask; }
static string show_st(const St &s) { string o = fmt("version %d", (int)s.version); for (int i = 0; i < NT; i++) if (s.mask >> i & 1) o += fmt(" t%d", i); if (s.trail) { o += " trail("; for (int i = 0; i < s.n; i++) o += fmt("%s%d", i ? " " : "", (int)s.m[i]); o += ")"; } return empty(s) ? o + ", empty" : o; }
struct LogRow { char kind[32], action[24]; uint64_t info; };
struct Dur { St db[ND]; int64_t pending[ND]; int64_t nlog; LogRow log[NL]; int64_t ndir; char dir[12][200]; };
static Dur *dur;
struct Stm { int k, a; string sql; };     // 0 create trail, 1 create t<a>, 2 add marker a, 3 set version a, 4 fails
struct Script { bool txn = true, fails = false; vector<Stm> st; string text; };
struct World { string root, dbdir, schema, data, kind, file[ND]; std::map<string, Script> scripts; int vn[8]; string prefix; };
static World *W; static sqlite3 *other; static int odb;
static string dbpath(int i) { return W->dbdir + "/" + W->file[i]; }
static string logpath() { return W->dbdir + "/cee_dbm_log.db"; }
static bool has_dir(const string &d) { for (int i = 0; i < dur->ndir; i++) if (d == dur->dir[i]) return true; return false; }
static void add_dir(const string &d) { if (has_dir(d)) return; if (dur->ndir == 12 || d.size() >= 200) sim::discard("too many directories"); strcpy(dur->dir[dur->ndir++], d.c_str()); }
static string parent(const string &p) { size_t k = p.rfind('/'); return k == string::npos ? "." : k == 0 ? "/" : p.substr(0, k); }
static bool dir_ok(const char *file) { string d = parent(file); return d == "/" || d == "." || d == "/sim" || has_dir(d); }

// ---- seams of cee_dbm.c --------------------------------------------------------------------------------------------------
static bool mkdir_fails; static int nsys, sys_rc; static string *syscmd;
extern "C" {
int sim_dbm_access(const char *p, int mode) { sim::yield_point(); string s = p; bool ok = W->scripts.count(s) || vfs::exists(s) || has_dir(s) || s == "/" || s == "." || s == "/sim"; if (!ok) errno = ENOENT; return ok ? 0 : -1; }
int sim_dbm_stat(const char *p, void *) { return sim_dbm_access(p, 0); }
int sim_dbm_mkdir(const char *p, mode_t) {
  string s = p; while (s.size() > 1 && s.back() == '/') s.pop_back();
  if (mkdir_fails) { sim::count("fault.mkdir"); ev("  fault: mkdir of %s fails", s.c_str()); errno = ENOSPC; return -1; }
  if (has_dir(s)) { errno = EEXIST; return -1; } string d = parent(s); if (!(d == "/" || d == "." || d == "/sim" || has_dir(d))) { errno = ENOENT; return -1; }
  ev("  mkdir %s", s.c_str()); add_dir(s); sim::count("probe.mkdir"); return 0;
}
int sim_dbm_system(const char *c) { nsys++; *syscmd = c; return sys_rc; }
int sim_dbm_open(const char *, int, ...) { errno = ENOSYS; return -1; }
void sim_dbm_exit(int) { sim_code_stop("exit", 0); }
void sim_dbm_perror(const char *) {}
char *cee_load_whole_file(const char *name, size_t *len) {
  auto it = W->scripts.find(name); if (it == W->scripts.end()) { *len = 0; return nullptr; }
  char *b = (char *)malloc(it->second.text.size() + 1); if (!b) sim::discard("no memory"); strcpy(b, it->second.text.c_str()); *len = it->second.text.size(); return b;
}
}
// ---- model -------------------------------------------------------------------------------------------------------------
static bool apply(St &s, const Stm &m) {
  switch (m.k) {
    case 0: if (s.trail) return false; s.trail = 1; return true;
    case 1: if (s.mask >> m.a & 1) return false; s.mask |= 1 << m.a; return true;
    case 2: if (!s.trail) return false; if (s.n == NM) sim::discard("model: too many rows"); s.m[s.n++] = m.a; return true;
    case 3: s.version = m.a; return true;
    default: return false;
  }
}
struct Want { string kind, action; vector<string> has; int before; };  // a log entry; before: it is recorded before the main database makes this many commits
struct Plan { vector<St> seq; vector<Want> log; bool stops = false, is_new = false, created = false, restores = false, dropped = false; size_t restore_at = 0, create_at = 0; };
static void push(Plan &p, const St &s, const St &was) { const St &l = p.seq.empty() ? was : p.seq.back(); if (!(l == s)) p.seq.push_back(s); }
static bool run_script(Plan &p, St &s, const string &name, const St &was) {
  auto it = W->scripts.find(name); if (it == W->scripts.end()) return true;
  St w = s; for (auto &m : it->second.st) { if (!apply(w, m)) { if (!it->second.txn) s = w; p.stops = true; return false; } if (!it->second.txn) push(p, w, was); }
  if (it->second.txn) push(p, w, was); s = w; return true;
}
struct Call { int d; bool recreate, restore, customize, named; string prefix; bool hasprefix; int create; };
static Plan plan_init(const Call &c, St s, bool exists) {
  Plan p; const St was = s; string db = dbpath(c.d), k = W->kind; auto log = [&](const char *a, vector<string> has) { p.log.push_back({k, a, has, (int)p.seq.size()}); };
  auto run = [&](const string &n) { log("apply", {n, db}); return run_script(p, s, n, was); };
  string cs = fmt("%s/%s_create.%d.sql", W->schema.c_str(), k.c_str(), c.create);
  log("open", {db}); bool fresh = !exists || empty(s);
  if (exists && c.recreate) { log("recreate", {db}); int64_t v = s.version; memset((void *)&s, 0, sizeof s); s.version = v; push(p, s, was); p.dropped = true; if (!run(cs)) return p; p.is_new = true; }
  else if (fresh) { log("create", {db, cs}); if (!run(cs)) return p; p.is_new = true; }
  p.created = p.is_new; p.create_at = p.seq.size();
  log("open", {fmt("%d", (int)s.version)}); int v0 = (int)s.version;
  if (p.is_new && c.restore) {
    p.restores = true;
    string n = fmt("%s/%s_insert.%d.sql", W->data.c_str(), c.hasprefix ? c.prefix.c_str() : k.c_str(), v0); log("restore", {n}); if (W->scripts.count(n) && !run(n)) return p;
    if (c.customize) { n = fmt("%s/%s_customize.%d.sql", W->data.c_str(), k.c_str(), v0); log("restore", {n}); if (W->scripts.count(n) && !run(n)) return p; }
    p.restore_at = p.seq.size();
  }
  string n = fmt("%s/%s_migrate.%d.sql", W->schema.c_str(), k.c_str(), v0);
  if (!W->scripts.count(n)) log("migrate", {n}); else { if (!run(n)) return p; if (s.version != v0) log("migrate", {n, db, fmt("%d", (int)s.version)}); }
  return p;
}
// ---- observation -----------------------------------------------------------------------------------------------------------
static void read_st(sqlite3 *db, St &s, const char *as = "main") {
  memset((void *)&s, 0, sizeof s); sqlite3_stmt *q = nullptr; int rc = sqlite3_prepare_v2(db, fmt("pragma %s.user_version", as).c_str(), -1, &q, 0); INT_ERR(rc, "prepare"); rc = sqlite3_step(q); INT_ERR(rc, "step"); s.version = sqlite3_column_int(q, 0); sqlite3_finalize(q);
  rc = sqlite3_prepare_v2(db, fmt("select name from %s.sqlite_master where name not like 'sqlite_%%'", as).c_str(), -1, &q, 0); INT_ERR(rc, "prepare");
  while ((rc = sqlite3_step(q)) == SQLITE_ROW) { string n = (const char *)sqlite3_column_text(q, 0); if (n == "trail") s.trail = 1; else { SIM_CHECK(n.size() == 2 && n[0] == 't' && n[1] >= '0' && n[1] < '0' + NT, "schema", "unknown object %s", n.c_str()); s.mask |= 1 << (n[1] - '0'); } }
  INT_ERR(rc, "step"); sqlite3_finalize(q);
  if (s.trail) { rc = sqlite3_prepare_v2(db, fmt("select x from %s.trail order by rowid", as).c_str(), -1, &q, 0); INT_ERR(rc, "prepare"); while ((rc = sqlite3_step(q)) == SQLITE_ROW) { if (s.n == NM) sim::discard("model: too many rows"); s.m[s.n++] = sqlite3_column_int(q, 0); } INT_ERR(rc, "step"); sqlite3_finalize(q); }
}
static void read_main(int i, St &s, bool ghost) { vfs::Quiet q(ghost); sqlite3 *db = nullptr; if (!vfs::exists(dbpath(i))) { memset((void *)&s, 0, sizeof s); return; } int rc = sqlite3_open(dbpath(i).c_str(), &db); INT_ERR(rc, "open"); read_st(db, s); sqlite3_close(db); }
static void cpy(char *d, size_t n, const unsigned char *s) { snprintf(d, n, "%s", s ? (const char *)s : ""); }
static void read_log(vector<LogRow> &v, vector<string> &info, bool ghost) {
  v.clear(); info.clear(); if (!vfs::exists(logpath())) return; vfs::Quiet qq(ghost); sqlite3 *db = nullptr; int rc = sqlite3_open(logpath().c_str(), &db); INT_ERR(rc, "open");
  sqlite3_stmt *q = nullptr; rc = sqlite3_prepare_v2(db, "select kind,action,info from log order by rowid", -1, &q, 0);
  if (rc == SQLITE_OK) { while ((rc = sqlite3_step(q)) == SQLITE_ROW) { LogRow r; memset(&r, 0, sizeof r); cpy(r.kind, sizeof r.kind, sqlite3_column_text(q, 0)); cpy(r.action, sizeof r.action, sqlite3_column_text(q, 1)); const char *p = (const char *)sqlite3_column_text(q, 2); info.push_back(p ? p : ""); r.info = hstr(info.back()); v.push_back(r); } INT_ERR(rc, "step"); sqlite3_finalize(q); }
  sqlite3_close(db);
}
struct Cand { Plan p; size_t pos = 0, lpos = 0; };
static vector<Cand> *cands; static bool in_call; static int cur_d; static bool log_may_miss; static const Call *cur_call;
static void update_pending(int d) {
  // a database that was created with a request to restore its data has not been restored yet
  if (!cur_call || cands->empty()) return; auto &c = cands->front(); if (!c.p.restores) return;
  dur->pending[d] = c.pos >= c.p.create_at && c.pos < c.p.restore_at;
}
static void journal_end(const char *name) {
  string n = name; n = n.substr(0, n.size() - 8);
  for (int d = 0; d < ND; d++) if (n == dbpath(d)) {
    St s; read_main(d, s, true); if (s == dur->db[d]) return;
    SIM_CHECK(in_call && d == cur_d, "stray-write", "database %d changes outside any call that concerns it: from %s to %s", d, show_st(dur->db[d]).c_str(), show_st(s).c_str());
    vector<Cand> ok; string exp; for (auto &c : *cands) if (c.pos < c.p.seq.size()) { if (c.p.seq[c.pos] == s) { Cand x = c; x.pos++; ok.push_back(x); } else exp += " [" + show_st(c.p.seq[c.pos]) + "]"; }
    SIM_CHECK(!ok.empty(), "wrong-step", "the database changes from %s to %s, expected%s", show_st(dur->db[d]).c_str(), show_st(s).c_str(), exp.empty() ? " no further change" : exp.c_str());
    if (!log_may_miss) for (auto &c : ok) for (size_t i = c.lpos; i < c.p.log.size(); i++) SIM_CHECK(c.p.log[i].before >= (int)c.pos, "log-late", "the step that leads to %s is carried out before the log entry '%s' is recorded", show_st(s).c_str(), c.p.log[i].action.c_str());
    *cands = ok; dur->db[d] = s; update_pending(d); ev("  committed: %s", show_st(s).c_str()); sim::count("probe.commit"); sim::state(sim::hash_bytes(&s, sizeof s)); return;
  }
  if (n == logpath()) {
    vector<LogRow> v; vector<string> info; read_log(v, info, true); if ((int64_t)v.size() == dur->nlog) return;
    SIM_CHECK((int64_t)v.size() == dur->nlog + 1 && in_call, "log-step", "the log changes from %d to %d entries%s", (int)dur->nlog, (int)v.size(), in_call ? "" : " outside any call");
    if (dur->nlog == NL) sim::discard("model: log too long");
    vector<Cand> ok; string exp;
    for (auto &c : *cands) for (size_t i = c.lpos; i < c.p.log.size(); i++) {
      auto &w = c.p.log[i]; bool m = w.kind == v.back().kind && w.action == v.back().action; for (auto &h : w.has) m &= info.back().find(h) != string::npos;
      if (m) { Cand x = c; x.lpos = i + 1; ok.push_back(x); break; } if (!log_may_miss) { exp += fmt(" [%s %s]", w.action.c_str(), w.has.empty() ? "" : w.has[0].c_str()); break; }
    }
    SIM_CHECK(!ok.empty(), "log-entry", "the log records '%s' '%s' %s, expected%s", v.back().kind, v.back().action, show(info.back()).c_str(), exp.empty() ? " nothing" : exp.c_str());
    *cands = ok; dur->log[dur->nlog++] = v.back(); ev("  logged: %s %s", v.back().action, info.back().c_str()); sim::count("probe.logged");
  }
}
static void on_fault(const char *) { if (in_call) { sim::expect_failstop(true); log_may_miss = true; } }
static void verify(bool ghost, const char *when) {
  for (int d = 0; d < ND; d++) { St s; read_main(d, s, ghost); SIM_CHECK(s == dur->db[d], "durability", "%s database %d holds %s, it should hold %s", when, d, show_st(s).c_str(), show_st(dur->db[d]).c_str()); }
  vector<LogRow> v; vector<string> i; read_log(v, i, ghost); SIM_CHECK((int64_t)v.size() == dur->nlog && !memcmp(v.data(), dur->log, v.size() * sizeof(LogRow)), "log-lost", "%s the log holds %d entries, it should hold %d", when, (int)v.size(), (int)dur->nlog);
}
// ---- workload -----------------------------------------------------------------------------------------------------------
static string word(size_t n, unsigned salt) { string s; for (size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz0123456789_-"[(i * 7 + salt * 11 + i / 26) % (i ? 38 : 26)]; return s; }
static int mark; // markers are unique within a run
static void draw_script(const string &name, int from, int to, int kind) { // kind 0 create, 1 data, 2 migration
  if (name.size() > 250) sim::discard("name too long");
  Script s; s.txn = !chance(1, 4); s.fails = chance(1, 12); vector<Stm> &v = s.st; auto add = [&](int k, int a) { static const char *t[] = {"create table trail(x integer);", "create table t%d(y);", "insert into trail values(%d);", "pragma user_version=%d;", "select nosuch;"}; v.push_back({k, a, fmt(t[k], a)}); };
  if (kind == 0) add(0, 0); int n = (int)choose(4);
  for (int i = 0; i < n; i++) { unsigned k = weighted({5, kind == 1 ? 0u : 2u, 0, kind == 0 ? 1u : 0u}); if (k == 0) add(2, ++mark); else if (k == 1) { int t = (int)choose(NT); bool dup = false; for (auto &m : v) dup |= m.k == 1 && m.a == t; if (!dup) add(1, t); } else if (k == 3) add(3, to); }
  if (kind != 1 && !chance(1, 10)) { bool first = chance(1, 6); if (first) v.insert(v.begin(), {3, to, fmt("pragma user_version=%d;", to)}); else add(3, to); }
  (void)from; if (s.fails) v.insert(v.begin() + choose(v.size() + 1), {4, 0, "insert into nosuch values(1);"});
  string sep = chance(1, 2) ? "\n" : " "; if (s.txn) s.text = (chance(1, 4) ? "-- script\nbegin transaction;" : "begin;") + sep; for (auto &m : v) s.text += m.sql + sep; if (s.txn) s.text += chance(1, 2) ? "commit;" : "end;\n"; if (chance(1, 8)) s.text = "/* " + string(choose(3000), 'c') + " */" + s.text;
  W->scripts[name] = s;
}
static sqlite3 *opened; static string *opened_name; static bool open_uri;
static sqlite3 *open_fn(const char *f) { vfs::Quiet q(false); *opened_name = f; sqlite3 *db = nullptr; sqlite3_open_v2(f, &db, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE | SQLITE_OPEN_URI, nullptr); opened = db; return db; }
static struct cee_dbm_path_info *paths() { struct cee_dbm_path_info *p = (struct cee_dbm_path_info *)sim::arena_alloc(sizeof *p); memset(p, 0, sizeof *p); strcpy(p->schema_script_path, W->schema.c_str()); strcpy(p->data_script_path, W->data.c_str()); strcpy(p->db_file_path, W->dbdir.c_str()); return p; }
static char *cstr(const string &s) { char *p = (char *)sim::arena_alloc(s.size() + 1); strcpy(p, s.c_str()); return p; }
static struct cee_dbm_db_info *infos(const Call &c) {
  struct cee_dbm_db_info *i = (struct cee_dbm_db_info *)sim::arena_alloc(sizeof *i); memset(i, 0, sizeof *i); strcpy(i->kind, W->kind.c_str()); strcpy(i->file, c.named ? "unused.db" : W->file[c.d].c_str());
  i->recreate_db = c.recreate; i->restore_db = c.restore; i->customize_db = c.customize; i->create_version = c.create; return i;
}
static void idle_checks(int h0, int live) {
  SIM_CHECK(sim::live_blocks(sim::get_owner()) == live, "left-allocated", "the call leaves %d blocks of memory, e.g. %s", sim::live_blocks(sim::get_owner()) - live, sim::block_desc(sim::first_live(sim::get_owner())));
  SIM_CHECK(vfs::open_handles() == h0, "open-connection", "%d database files are left open by the call", vfs::open_handles() - h0);
}
static void do_init(const Call &c) {
  St was = dur->db[c.d]; bool ex = vfs::exists(dbpath(c.d)); Plan p = plan_init(c, was, ex); delete cands; cands = new vector<Cand>; Cand x; x.p = p; cands->push_back(x);
  ev("init %d%s%s%s create version %d%s%s: database %s, plan of %d commits%s", c.d, c.recreate ? " recreate" : "", c.restore ? " restore" : "", c.customize ? " customize" : "", c.create, c.hasprefix ? " prefix " : "", c.prefix.c_str(), ex ? show_st(was).c_str() : "absent", (int)p.seq.size(), p.stops ? ", a script fails" : "");
  bool owed = dur->pending[c.d] && c.restore && ex && W->scripts.count(fmt("%s/%s_insert.%d.sql", W->data.c_str(), c.hasprefix ? c.prefix.c_str() : W->kind.c_str(), (int)was.version));
  struct cee_dbm_path_info *pi = paths(); struct cee_dbm_db_info *in = infos(c); char *f = c.named ? cstr(W->file[c.d]) : nullptr, *pre = c.hasprefix ? cstr(c.prefix) : nullptr; struct cee_dbm_path_info pi0 = *pi; struct cee_dbm_db_info in0 = *in;
  uint64_t f0 = vfs::fired(), b0 = vfs::busies(); int h0 = vfs::open_handles(), live = sim::live_blocks(sim::get_owner()), v = -777; in_call = true; cur_d = c.d; cur_call = &c; log_may_miss = other != nullptr; if (p.stops || other || mkdir_fails) sim::expect_failstop(true);
  if (p.restores) dur->pending[c.d] = 0;
  bool isnew = cee_dbm_db_init(pi, in, f, pre, &v);
  in_call = false; cur_call = nullptr; sim::expect_failstop(false); bool fault = vfs::fired() != f0 || vfs::busies() != b0; ev("  returned %s version %d%s", isnew ? "new" : "not new", v, fault ? " (fault)" : "");
  SIM_CHECK(!memcmp(&pi0, pi, sizeof pi0) && !memcmp(&in0, in, sizeof in0), "arguments", "the description of the database is changed by the call");
  SIM_CHECK(!cands->empty() && !cands->front().p.stops, "unreported", "the call returns although a script it runs fails; the database holds %s", show_st(dur->db[c.d]).c_str());
  Cand &e = cands->front(); SIM_CHECK(e.pos == e.p.seq.size(), "missing-step", "the call returns with the database at %s, it should be %s", show_st(dur->db[c.d]).c_str(), show_st(e.p.seq.back()).c_str());
  SIM_CHECK(isnew == e.p.is_new, "new", "the call says that the database is %snew", isnew ? "" : "not ");
  SIM_CHECK(v == dur->db[c.d].version, "version", "the call reports version %d, the database has version %d", v, (int)dur->db[c.d].version);
  SIM_CHECK(fault || other || log_may_miss || e.lpos == e.p.log.size(), "log-missing", "the log entry '%s' is missing", e.p.log[e.lpos].action.c_str());
  if (!other) { St s; read_main(c.d, s, false); SIM_CHECK(s == dur->db[c.d], "durability", "the database holds %s, it should hold %s", show_st(s).c_str(), show_st(dur->db[c.d]).c_str()); }
  idle_checks(h0, live); if (!e.p.seq.empty()) sim::mark_nontrivial();
  SIM_CHECK(!owed || e.p.is_new, "restore-lost", "the call that created database %d was interrupted before it had restored the data, and this call, also asked to restore, returns without doing so", c.d);
  if (!(was == dur->db[c.d])) dur->pending[c.d] = 0;
  sim::count(e.p.dropped ? "probe.recreated" : e.p.is_new ? "probe.created" : "probe.reopened"); if (e.p.restores) sim::count("probe.restored");
}
static void do_backup(const Call &c) {
  bool ex = vfs::exists(dbpath(c.d)); delete cands; cands = new vector<Cand>; Cand x; string k = W->kind; sys_rc = chance(1, 4) ? 256 : 0; nsys = 0; syscmd->clear();
  string out = fmt("%s/%s_insert.%d.sql", W->data.c_str(), c.hasprefix ? c.prefix.c_str() : k.c_str(), (int)dur->db[c.d].version);
  x.p.log.push_back({k, "open", {dbpath(c.d)}, 0}); if (ex) { x.p.log.push_back({k, "open", {fmt("%d", (int)dur->db[c.d].version)}, 0}); x.p.log.push_back({k, sys_rc ? "backup_failed" : "backup", {out}, 0}); } else x.p.log.push_back({k, "backup_failed", {dbpath(c.d)}, 0});
  cands->push_back(x); ev("backup %d%s%s: %s, the dump %s", c.d, c.hasprefix ? " prefix " : "", c.prefix.c_str(), ex ? "exists" : "absent", sys_rc ? "fails" : "works");
  struct cee_dbm_path_info *pi = paths(); struct cee_dbm_db_info *in = infos(c); char *f = c.named ? cstr(W->file[c.d]) : nullptr, *pre = c.hasprefix ? cstr(c.prefix) : nullptr;
  uint64_t f0 = vfs::fired(), b0 = vfs::busies(); int h0 = vfs::open_handles(), live = sim::live_blocks(sim::get_owner()); in_call = true; cur_d = -1; log_may_miss = other != nullptr; if (other || !has_dir(W->dbdir)) sim::expect_failstop(true);
  bool ok = cee_dbm_db_backup(pi, in, f, pre); in_call = false; sim::expect_failstop(false); bool fault = vfs::fired() != f0 || vfs::busies() != b0; ev("  returned %d, %d commands", ok, nsys);
  SIM_CHECK(ok == (ex && !sys_rc), "backup-report", "a backup that %s is reported as %s", !ex ? "finds no database" : sys_rc ? "fails" : "works", ok ? "done" : "failed");
  SIM_CHECK(nsys == (ex ? 1 : 0), "backup", "%d dump commands are run", nsys);
  if (nsys) { size_t a = syscmd->find(" " + dbpath(c.d) + " "), b = syscmd->find("> " + out); SIM_CHECK(a != string::npos && b != string::npos && a < b && b + 2 + out.size() == syscmd->size(), "backup-command", "the dump command of %s into %s is %s", dbpath(c.d).c_str(), out.c_str(), show(*syscmd).c_str()); }
  if (has_dir(W->dbdir)) SIM_CHECK(fault || other || cands->front().lpos == cands->front().p.log.size(), "log-missing", "the log entry '%s' is missing", cands->front().p.log[cands->front().lpos].action.c_str());
  idle_checks(h0, live); sim::count("probe.backup");
}
static void do_open(const Call &c, bool attach) {
  int d2 = 1 - c.d; bool ex = vfs::exists(dbpath(c.d)), ex2 = vfs::exists(dbpath(d2)); struct cee_state *st = (struct cee_state *)cee_state_mk(10); struct cee_sqlite3 cs; memset(&cs, 0x5a, sizeof cs); opened = nullptr; opened_name->clear();
  ev("open %d (%s)%s", c.d, ex ? "exists" : "absent", attach ? fmt(" attach %d (%s)", d2, ex2 ? "exists" : "absent").c_str() : ""); struct cee_dbm_path_info *pi = paths(); in_call = true; cur_d = -1; if (!ex || other) sim::expect_failstop(true);
  cee_dbm_open_db(st, &cs, pi, cstr(W->kind), cstr(W->file[c.d]), open_fn); sim::expect_failstop(false);
  SIM_CHECK(ex, "open-missing", "a database that does not exist is opened"); SIM_CHECK(*opened_name == dbpath(c.d), "open-path", "opening %s opens %s", dbpath(c.d).c_str(), opened_name->c_str());
  SIM_CHECK(cs.db == opened && cs.state == st && W->kind == cs.db_name, "open", "the connection is not the one that was opened"); SIM_CHECK(dbpath(c.d).substr(0, sizeof cs.db_path - 1) == cs.db_path, "open", "the path of the connection is %s", cs.db_path);
  bool f1 = vfs::faults_on();
  if (attach && cs.db) {
    uint64_t f0 = vfs::fired(); (void)f0; if (!ex2 || other || f1) sim::expect_failstop(true); cee_dbm_attach_db(&cs, pi, cstr(W->file[d2]), cstr("second")); sim::expect_failstop(false); SIM_CHECK(ex2, "open-missing", "a database that does not exist is attached");
    vfs::Quiet q(false); sqlite3 *db = cs.db; const char *an = sqlite3_db_filename(db, "second"); SIM_CHECK(an && dbpath(d2) == an, "attach", "attaching %s attaches %s", dbpath(d2).c_str(), an ? an : "nothing");
    if (!other) { St s; read_st(db, s, "second"); SIM_CHECK(s == dur->db[d2], "attach", "the attached database holds %s instead of %s", show_st(s).c_str(), show_st(dur->db[d2]).c_str()); }
    SIM_CHECK(sqlite3_db_readonly(db, "second") == 1, "attach-writable", "the attached database can be written"); sim::count("probe.attached");
  }
  in_call = false; { vfs::Quiet q(false); sqlite3 *db = cs.db; if (!other) { St s; read_st(db, s); SIM_CHECK(s == dur->db[c.d], "open", "the opened database holds %s instead of %s", show_st(s).c_str(), show_st(dur->db[c.d]).c_str()); } sqlite3_close(cs.db); } cee_del(st); sim::count("probe.opened");
}
// descriptions and paths
static void do_text() {
  unsigned w = (unsigned)choose(5); struct cee_dbm_path_info *pi = paths(); struct cee_dbm_db_info *in = (struct cee_dbm_db_info *)sim::arena_alloc(sizeof *in); memset(in, 0, sizeof *in); strcpy(in->kind, word(choose(16), 3).c_str()); strcpy(in->file, word(choose(32), 4).c_str()); in->recreate_db = chance(1, 2); in->restore_db = chance(1, 2); in->create_version = (int)sim::range(-5, 2000000000); in->final_version = (int)choose(1000);
  if (w == 4) {
    string home = "/" + word(chance(1, 3) ? 90 + choose(80) : choose(40), 5); static const size_t off[] = {0, 0, 0, 4, 9}; const char *pre[3]; string e[3]; bool over = false; char *f[3] = {pi->schema_script_path, pi->data_script_path, pi->db_file_path}; (void)pre;
    for (int i = 0; i < 3; i++) { memset(f[i], 0, 128); string head = word(off[choose(5)], 6), tail = "/" + word(chance(1, 4) ? 60 + choose(50) : choose(30), 7); bool h = chance(2, 3); if (!head.empty()) head = "/" + head + "/"; string s = head + (h ? "$HOME" : "") + tail; if (s.size() > 127) s.resize(127); strcpy(f[i], s.c_str()); size_t at = s.find("$HOME"); e[i] = at == string::npos ? s : s.substr(0, at) + home + s.substr(at + 5); over |= e[i].size() > 127; }
    ev("normalize %s | %s | %s with %s", f[0], f[1], f[2], home.c_str()); if (over) sim::expect_failstop(true); cee_dbm_path_info_normalize(pi, cstr(home)); sim::expect_failstop(false);
    SIM_CHECK(!over, "path-overflow", "a path that has no room is accepted: %s", e[0].c_str()); for (int i = 0; i < 3; i++) SIM_CHECK(e[i] == f[i], "path", "a path becomes %s instead of %s", f[i], e[i].c_str()); sim::count("probe.normalized"); return;
  }
  string full, yes = "true", no = "false"; string sp = fmt("schema_script_path:%s, data_script_path:%s, db_file_path:%s", pi->schema_script_path, pi->data_script_path, pi->db_file_path);
  switch (w) {
    case 0: full = sp; break;
    case 1: full = fmt("kind:%s, file:%s, recreate_db:%s, restore_db:%s, create_version:%d, final_version:%d", in->kind, in->file, in->recreate_db ? "true" : "false", in->restore_db ? "true" : "false", in->create_version, in->final_version); break;
    case 2: full = sp + ", "; break;
    default: full = fmt("db_kind:%s, create_version:%d, recreate_db:%s, restore_db:%s, ", in->kind, in->create_version, in->recreate_db ? "true" : "false", in->restore_db ? "true" : "false");
  }
  size_t n = chance(1, 3) ? full.size() + 1 + choose(3) : 1 + choose(full.size() + 8); char *b = (char *)sim::arena_alloc(n + 600); memset(b, 0x5a, n + 600); ev("describe %u into %d bytes of %d", w, (int)n, (int)full.size()); size_t r = full.size();
  if (w == 0) cee_dbm_path_info2str(pi, n, b); else if (w == 1) cee_dbm_db_info2str(in, n, b); else if (w == 2) r = cee_dbm_path_info_snprint(b, n, pi); else r = cee_dbm_settings_snprint(b, n, in);
  for (size_t i = n; i < n + 600; i++) SIM_CHECK(b[i] == 0x5a, "description-overflow", "a description of %d bytes writes at byte %d of a buffer of %d", (int)full.size(), (int)i, (int)n);
  SIM_CHECK(memchr(b, 0, n) && full.substr(0, n - 1) == b, "description", "the description is %s instead of %s", show(string(b, strnlen(b, n))).c_str(), show(full.substr(0, n - 1)).c_str());
  SIM_CHECK(r == full.size(), "description-size", "the size of a description of %d bytes is given as %d", (int)full.size(), (int)r); sim::count("probe.described");
}
static Call draw_call() { Call c; c.d = (int)choose(ND); c.recreate = chance(1, 5); c.restore = chance(1, 2); c.customize = chance(1, 3); c.named = chance(1, 2); c.hasprefix = chance(1, 4); c.prefix = c.hasprefix ? W->prefix : ""; c.create = W->vn[1 + choose(2)]; return c; }
static void app_write() { // the application uses a database between the calls
  int d = (int)choose(ND); if (!vfs::exists(dbpath(d)) || !dur->db[d].trail || other) return; vfs::Quiet q(false); sqlite3 *db = nullptr; int rc = sqlite3_open(dbpath(d).c_str(), &db); INT_ERR(rc, "open"); St s = dur->db[d]; Stm m = chance(1, 5) ? Stm{3, W->vn[choose(5)], ""} : Stm{2, ++mark, ""}; if (!apply(s, m)) { sqlite3_close(db); return; }
  rc = sqlite3_exec(db, m.k == 3 ? fmt("pragma user_version=%d", m.a).c_str() : fmt("insert into trail values(%d)", m.a).c_str(), 0, 0, 0); INT_ERR(rc, "write"); sqlite3_close(db); dur->db[d] = s; dur->pending[d] = 0; ev("application: database %d %s", d, show_st(s).c_str());
}
static void body(bool first, bool check, uint64_t crash_at, bool faults) {
  vfs::start(); quiet_stderr(); vfs::on_journal_end = journal_end; vfs::on_fault = on_fault; vfs::dir_ok = dir_ok; in_call = false; other = nullptr; mkdir_fails = false; cands = new vector<Cand>; cur_call = nullptr;
  if (!first) { verify(false, "after the restart"); sim::count("probe.restart-verified"); }
  if (check) return;
  vfs::faults(faults); vfs::crash_after(crash_at);
  Steps stp(6, 24);
  while (stp.more()) {
    Span sp; if (faults && chance(1, 4)) vfs::nomem_at(1 + choose(chance(1, 3) ? 60 : 1500), 1 + choose(3)); mkdir_fails = faults && chance(1, 16);
    if (chance(1, 6)) { vfs::Quiet q(false);
      if (other) { sqlite3_exec(other, "rollback", 0, 0, 0); sqlite3_close(other); other = nullptr; ev("other connection gone"); }
      else { odb = (int)choose(ND + 1); string f = odb == ND ? logpath() : dbpath(odb); if (vfs::exists(f)) { sqlite3_open(f.c_str(), &other); unsigned w = (unsigned)choose(3); sqlite3_exec(other, w == 0 ? "begin immediate" : w == 1 ? "begin; select * from sqlite_master" : "begin exclusive", 0, 0, 0); ev("other connection locks %d (%d)", odb, vfs::lock_level(other)); } } }
    Call c = draw_call();
    switch (weighted({10, 2, 2, 2, 2, 2, 2})) {
      case 0: do_init(c); break;
      case 1: do_backup(c); break;
      case 2: do_open(c, false); break;
      case 3: do_open(c, true); break;
      case 4: { bool e = vfs::exists(dbpath(c.d)), r = cee_dbm_db_exist(paths(), cstr(W->file[c.d])); ev("exist %d: %d", c.d, r); SIM_CHECK(e == r, "exist", "a database that %s is said to %s", e ? "exists" : "is absent", r ? "exist" : "be absent"); break; }
      case 5: app_write(); break;
      case 6: do_text(); break;
    }
  }
  vfs::faults(false); vfs::crash_after(0); if (other) { vfs::Quiet q(false); sqlite3_exec(other, "rollback", 0, 0, 0); sqlite3_close(other); other = nullptr; }
}
static void run() {
  sim::alloc_draw_config(); vfs::init(); dur = (Dur *)sim::durable_alloc(sizeof(Dur)); W = new World; syscmd = new string; opened_name = new string; cands = nullptr; mark = 0;
  auto pl = [](size_t lo) { size_t n = chance(1, 4) ? 100 + choose(28) : lo + choose(30); return std::min<size_t>(n, 127); };
  string base = "/sim/" + word(1 + choose(6), 1); size_t n = pl(8); W->dbdir = base; if (chance(1, 2)) W->dbdir += "/d"; if (W->dbdir.size() + 1 < n) W->dbdir += "/" + word(n - W->dbdir.size() - 1, 2);
  W->schema = "/sql/"; W->schema += word(pl(6) - 5 > 0 ? pl(6) - 5 : 1, 3); W->data = "/data/" + word(pl(8) - 6, 4); W->kind = word(1 + choose(15), 5); size_t fl = chance(1, 4) ? 27 : 1 + choose(20); for (int i = 0; i < ND; i++) W->file[i] = word(fl, 6) + (char)('A' + i) + (chance(3, 4) ? ".db" : "");
  if (W->schema.size() > 127) W->schema.resize(127); if (W->data.size() > 127) W->data.resize(127);
  static const int step[] = {1, 7, 100, 100000, 300000000}; int big = chance(1, 3) ? step[choose(5)] : 0; for (int i = 0; i < 8; i++) W->vn[i] = i == 0 ? 0 : W->vn[i - 1] + (big ? 1 + (int)choose(big) : 1);
  W->prefix = chance(2, 3) ? "alt" : word(1 + choose(chance(1, 2) ? 12 : 110), 7);
  for (int v = 1; v <= 2; v++) if (!chance(1, 12)) draw_script(fmt("%s/%s_create.%d.sql", W->schema.c_str(), W->kind.c_str(), W->vn[v]), 0, W->vn[v], 0);
  for (int i = 0; i <= 4; i++) {
    int v = W->vn[i];
    if (chance(1, 2) && i) draw_script(fmt("%s/%s_insert.%d.sql", W->data.c_str(), W->kind.c_str(), v), v, v, 1); if (chance(1, 3) && i) draw_script(fmt("%s/%s_insert.%d.sql", W->data.c_str(), W->prefix.c_str(), v), v, v, 1);
    if (chance(1, 2) && i) draw_script(fmt("%s/%s_customize.%d.sql", W->data.c_str(), W->kind.c_str(), v), v, v, 1); if (chance(1, i ? 2 : 6)) draw_script(fmt("%s/%s_migrate.%d.sql", W->schema.c_str(), W->kind.c_str(), v), v, W->vn[i > 1 && chance(1, 8) ? i - 1 : i + (chance(1, 6) ? 2 : 1)], 2); // also back to an earlier version
  }
  string d; for (size_t i = 1; i <= W->dbdir.size(); i++) if (i == W->dbdir.size() || W->dbdir[i] == '/') { d = W->dbdir.substr(0, i); if (d != "/sim" && chance(2, 3)) { if (parent(d) == "/sim" || has_dir(parent(d))) add_dir(d); } }
  bool faults = chance(1, 2); vfs::draw(faults); bool crashy = chance(1, 2); vfs::Faults fr = vfs::rates;
  for (int e = 0; e < 8; e++) {
    uint64_t at = crashy ? 1 + choose(chance(1, 2) ? 100 : 900) : 0; int m0 = mark; int r = sim::epoch([&]() { vfs::rates = fr; body(e == 0, false, at, faults); }); mark = m0 + 1000;
    if (r == 0 && !chance(1, 3)) break;
    if (r == 2) { sim::count("probe.stopped-on-failure"); ev("process stopped"); } if (r == 1) ev("crash");
    if (r == 1 || (r == 2 && chance(1, 3))) vfs::recover();
  }
  sim::epoch([&]() { body(false, true, 0, false); });
}
namespace sim {
Harness harness = {"C23", run, 80000000, 4000, 200000,
  "one run = a seeded set of creation, data, customisation and migration scripts (transactional or not, failing or not, missing) and paths, and a seeded series of initialisations (with recreation, restoration, customisation, prefix), backups, openings and attachments of two managed databases on a simulated disk with missing directories, I/O errors, full disk, locks of another connection, SQLite allocation failures and up to eight crashes or stops with loss and tearing of unsynced sectors; non-trivial = at least one call that changed a database; distinct = distinct event history hash",
  {"sqlite3/cee_dbm.c", "sqlite3/cee-sqlite3.c", "cee (amalgamation)", "SQLite 3.45 (system library)"}, {"SQLite's VFS: disk, locks, clock, randomness", "SQLite's allocator", "malloc family of the library (simulated heap)", "cee_load_whole_file of the external cee-utils library", "access, stat, mkdir and system as called by cee_dbm.c"}};
}
