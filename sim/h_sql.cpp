// C15, C16, C17, C20: writes, initialisation scripts, upserts and clean-up of the SQLite binding, on a simulated disk
// with faults, lock contention and crashes.  The real library and the real SQLite run; disk, locks, clock,
// randomness and SQLite's allocator are simulated.
#include "ujson.h"
#include "vfs.h"
extern "C" {
#include "cee-sqlite3.h"
}
static const char *DB = "/sim/test.db";
static struct Dur { uint64_t born; uint32_t len; char cur[60000]; } *dur; // the committed contents, as last observed when a commit took effect
static void quiet_stderr() { FILE *f = fopen("/dev/null", "w"); if (f) stderr = f; }
static int raw(sqlite3 *db, const char *sql) { return sqlite3_exec(db, sql, 0, 0, 0); }
#define INT_ERR(rc, what) do { if ((rc) != SQLITE_OK && (rc) != SQLITE_DONE && (rc) != SQLITE_ROW) violation("unreadable", "the database cannot be read: %s (%d, %s)", what, (int)(rc), sqlite3_errmsg(db)); } while (0)

#ifndef PROP_C16
// ---- model of the contents --------------------------------------------------------------------------------
struct Row { int64_t id, k, v, n, g; bool kn, gn; };            // v: 0 = NULL, else length << 32 | tag
static const int MAXR = 40;
struct Tab { int64_t cnt; Row r[MAXR]; };
struct St { Tab t[2]; int64_t logn, seq; };                      // t1: AUTOINCREMENT, text key, trigger that counts insertions
static bool operator==(const Row &a, const Row &b) { return a.id == b.id && a.k == b.k && a.kn == b.kn && a.v == b.v && a.n == b.n && a.g == b.g && a.gn == b.gn; }
static bool operator==(const St &a, const St &b) { if (a.logn != b.logn || a.seq != b.seq) return false; for (int t = 0; t < 2; t++) { if (a.t[t].cnt != b.t[t].cnt) return false; for (int i = 0; i < a.t[t].cnt; i++) if (!(a.t[t].r[i] == b.t[t].r[i])) return false; } return true; }
static string vtext(int64_t v) { uint32_t len = v >> 32, tag = (uint32_t)v; string s = fmt("%08x", tag); while (s.size() < len) { if (tag & 1 && s.size() + 2 <= len) s += "\xc3\xa9"; else s += (char)('a' + (s.size() * 7 + tag) % 26); } return s; }
static int64_t vdecode(const char *p, int n) { if (n < 8) return -1; string h(p, 8); int64_t v = (int64_t)n << 32 | (uint32_t)strtoul(h.c_str(), 0, 16); return vtext(v) == string(p, n) ? v : -1; }
static string ktext(int64_t k) { return fmt("k%lld", (long long)k); }
static string rshow(const Row &r) { return fmt("(id %lld, k %s, v %s, n %lld, g %s)", (long long)r.id, r.kn ? "null" : fmt("%lld", (long long)r.k).c_str(), r.v ? fmt("%d bytes #%x", (int)(r.v >> 32), (uint32_t)r.v).c_str() : "null", (long long)r.n, r.gn ? "null" : fmt("%lld", (long long)r.g).c_str()); }
static string diff(const St &a, const St &b) {
  string o; for (int t = 0; t < 2; t++) { for (int i = 0; i < a.t[t].cnt; i++) { bool f = false; for (int j = 0; j < b.t[t].cnt; j++) f |= a.t[t].r[i] == b.t[t].r[j]; if (!f) o += fmt(" -t%d%s", t, rshow(a.t[t].r[i]).c_str()); } for (int i = 0; i < b.t[t].cnt; i++) { bool f = false; for (int j = 0; j < a.t[t].cnt; j++) f |= b.t[t].r[i] == a.t[t].r[j]; if (!f) o += fmt(" +t%d%s", t, rshow(b.t[t].r[i]).c_str()); } }
  if (a.logn != b.logn) o += fmt(" log %lld->%lld", (long long)a.logn, (long long)b.logn); if (a.seq != b.seq) o += fmt(" seq %lld->%lld", (long long)a.seq, (long long)b.seq);
  if (o.size() > 600) o = o.substr(0, 600) + ".."; return o.empty() ? " nothing" : o;
}
static void read_st(sqlite3 *db, St &s) {
  memset(&s, 0, sizeof s);
  for (int t = 0; t < 2; t++) {
    sqlite3_stmt *q = nullptr; int rc = sqlite3_prepare_v2(db, t ? "select id,k,v,n,g from t1 order by id" : "select id,k,v,n,g from t0 order by id", -1, &q, 0); INT_ERR(rc, "prepare");
    while ((rc = sqlite3_step(q)) == SQLITE_ROW) {
      if (s.t[t].cnt >= MAXR) sim::discard("model: too many rows");
      Row &r = s.t[t].r[s.t[t].cnt++]; r.id = sqlite3_column_int64(q, 0);
      int kt = sqlite3_column_type(q, 1); r.kn = kt == SQLITE_NULL;
      if (!r.kn && !t) { SIM_CHECK(kt == SQLITE_INTEGER, "stored", "t0 row %lld: key of type %d", (long long)r.id, kt); r.k = sqlite3_column_int64(q, 1); }
      if (!r.kn && t) { const char *p = (const char *)sqlite3_column_text(q, 1); r.k = p && p[0] == 'k' ? strtoll(p + 1, 0, 10) : -1; SIM_CHECK(kt == SQLITE_TEXT && p && ktext(r.k) == p, "stored", "t1 row %lld: key '%s'", (long long)r.id, p ? p : "(null)"); }
      int vt = sqlite3_column_type(q, 2); if (vt != SQLITE_NULL) { const char *p = (const char *)sqlite3_column_text(q, 2); int n = sqlite3_column_bytes(q, 2); r.v = p ? vdecode(p, n) : -1; SIM_CHECK(r.v > 0, "stored", "t%d row %lld holds a value that was never written: %s", t, (long long)r.id, show(string(p ? p : "", p ? n : 0)).c_str()); }
      SIM_CHECK(sqlite3_column_type(q, 3) == SQLITE_INTEGER, "stored", "t%d row %lld: n of type %d", t, (long long)r.id, sqlite3_column_type(q, 3)); r.n = sqlite3_column_int64(q, 3);
      r.gn = sqlite3_column_type(q, 4) == SQLITE_NULL; if (!r.gn) r.g = sqlite3_column_int64(q, 4);
    }
    INT_ERR(rc, "step"); sqlite3_finalize(q);
  }
  for (int z = 0; z < 2; z++) { sqlite3_stmt *q = nullptr; int rc = sqlite3_prepare_v2(db, z ? "select seq from sqlite_sequence where name='t1'" : "select count(*) from log", -1, &q, 0); INT_ERR(rc, "prepare"); rc = sqlite3_step(q); INT_ERR(rc, "step"); if (rc == SQLITE_ROW) (z ? s.seq : s.logn) = sqlite3_column_int64(q, 0); sqlite3_finalize(q); }
}
static void save(const St &s) { memcpy(dur->cur, &s, sizeof s); dur->len = sizeof s; }

// ---- operations -----------------------------------------------------------------------------------------------
enum Kind { INS, DEL, UPD, UPD_IF, UPSERT, SEL_INS, SELECT, SELECT1, ITER, BAD, BEGIN, COMMIT, ROLLBACK, REOPEN };
static const char *KN[] = {"insert", "delete", "update", "update_if_exists", "update_or_insert", "select1_or_insert", "select", "select1", "select_iter", "bad statement", "begin", "commit", "rollback", "reopen"};
struct Op { Kind kind; bool ecol = false; /* a looked-up column is named error */ int t = 0; bool hid = false, hk = false, hn = false, hg = false, upd_missing = false; int64_t id = 0, k = 0, v = 0, n = 0, g = 0; int where = 0; /* 0 k, 1 g, 2 all */ int lwhere = 0; bool with_status = true, prefilled = false, with_id = false; const char *key = nullptr; int bad = 0; int stop = 0; bool defaults = false; bool pre = false; int xs = 0; /* composed statements: 0 left over and to be ignored, 1 none, 2 in use */ };
struct Rep { int rc = 0; bool done = false, err = false; int64_t id = 0, count = 0; bool has_id = false, has_count = false, warn = false; int idout = 0; bool idset = false, found = false; int64_t fid = 0; struct cee_json *st = nullptr; };
struct Conn { int no; struct cee_sqlite3 cs; sqlite3 *db = nullptr; struct cee_state *st = nullptr; bool txn = false, pend = false; St p; int iter = 0; };
struct Act { Conn *c; const Op *op; vector<size_t> trans; };
static vector<St> *hist; static vector<Act *> acts[8]; static vector<Conn *> *conns;
static bool overlapping = false;
static const St &now() { return hist->back(); }

static void journal_end(const char *) {
  St s; { vfs::Quiet q(true); sqlite3 *db = nullptr; int rc = sqlite3_open(DB, &db); INT_ERR(rc, "open"); read_st(db, s); sqlite3_close(db); }
  if (s == now()) return;
  auto &a = acts[sim::current_task() + 1]; ev("  committed:%s", diff(now(), s).c_str());
  SIM_CHECK(!a.empty(), "stray-write", "the database changes outside any call:%s", diff(now(), s).c_str());
  a.back()->trans.push_back(hist->size()); hist->push_back(s); save(s); sim::count("probe.commit");
}
// effects on one version of the contents
static int find_id(const Tab &t, int64_t id) { for (int i = 0; i < t.cnt; i++) if (t.r[i].id == id) return i; return -1; }
static int find_k(const Tab &t, int64_t k) { for (int i = 0; i < t.cnt; i++) if (!t.r[i].kn && t.r[i].k == k) return i; return -1; }
static bool matches(const Row &r, int where, const Op &o) { return where == 2 || (where == 0 ? !r.kn && o.hk && r.k == o.k : !r.gn && o.hg && r.g == o.g); }
static int nmatch(const St &s, int where, const Op &o) { int n = 0; for (int i = 0; i < s.t[o.t].cnt; i++) n += matches(s.t[o.t].r[i], where, o); return n; }
static bool do_insert(St &s, const Op &o, int64_t &id) {
  Tab &t = s.t[o.t]; int64_t mx = t.cnt ? t.r[t.cnt - 1].id : 0;
  id = o.hid ? o.id : (o.t ? std::max(s.seq, mx) : mx) + 1;
  if (find_id(t, id) >= 0 || (o.hk && find_k(t, o.k) >= 0)) return false;
  int64_t n = o.hn ? o.n : 0; if (n == 13) return false;
  if (t.cnt >= MAXR) sim::discard("model: too many rows");
  Row r; memset(&r, 0, sizeof r); r.id = id; r.kn = !o.hk; r.k = o.hk ? o.k : 0; r.v = o.v; r.n = n; r.gn = !o.hg; r.g = o.hg ? o.g : 0;
  int i = (int)t.cnt; while (i > 0 && t.r[i - 1].id > id) { t.r[i] = t.r[i - 1]; i--; } t.r[i] = r; t.cnt++;
  if (o.t) { s.seq = std::max(s.seq, id); s.logn++; } return true;
}
static bool do_update(St &s, const Op &o, int64_t &cnt) {
  Tab &t = s.t[o.t]; cnt = 0;
  for (int i = 0; i < t.cnt; i++) if (matches(t.r[i], o.where, o)) { if (!o.hn || o.n == 13) return false; t.r[i].v = o.v; t.r[i].n = o.n; cnt++; }
  return true;
}
static void do_delete(St &s, const Op &o, int64_t &cnt) { Tab &t = s.t[o.t]; cnt = 0; int j = 0; for (int i = 0; i < t.cnt; i++) if (matches(t.r[i], o.where, o)) cnt++; else t.r[j++] = t.r[i]; for (int i = j; i < t.cnt; i++) memset(&t.r[i], 0, sizeof(Row)); t.cnt = j; }

// judge one write: `path` 0 insert, 1 update, 2 delete, 3 nothing
static bool path_ok(const St &s, const Op &o, int path, const Rep &r, St &next) {
  next = s; int64_t id = 0, cnt = 0;
  switch (path) {
    case 0: if (!do_insert(next, o, id)) return false; if (r.st) { if (o.kind == INS || o.kind == UPSERT || o.kind == SEL_INS) { if (!r.has_id || r.id != id) return false; } } else if (r.has_id) return false; if (o.with_id && (!r.idset || r.idout != (int)id)) return false; return true;
    case 1: if (!do_update(next, o, cnt)) return false; if (r.has_id) return false; if (o.kind != UPSERT && r.st && (!r.has_count || r.count != cnt)) return false; return true;
    case 2: do_delete(next, o, cnt); if (r.st && (!r.has_count || r.count != cnt)) return false; return true;
    default: return !r.has_id && !r.has_count;
  }
}
struct Path { int write; int lookup; }; // lookup: -1 none, 0 must find no row, 1 must find one
static vector<Path> paths(const Op &o) {
  switch (o.kind) {
    case INS: return {{0, -1}}; case DEL: return {{2, -1}};
    case UPD: case UPD_IF: return {{o.upd_missing ? 3 : 1, 1}, {3, 0}};
    case UPSERT: return {{o.upd_missing ? 3 : 1, 1}, {0, 0}};
    case SEL_INS: return {{3, 1}, {0, 0}};
    default: return {};
  }
}
// the lookup of this path fits this version; the row that select-or-insert reports is one of those that match
static bool looks(const St &s, const Op &o, const Path &p, const Rep &r) {
  if ((nmatch(s, o.lwhere, o) > 0) != (p.lookup == 1)) return false; if (o.kind != SEL_INS || !r.st) return true; if (p.lookup == 0) return !r.found;
  for (int i = 0; i < s.t[o.t].cnt; i++) if (r.found && s.t[o.t].r[i].id == r.fid && matches(s.t[o.t].r[i], o.lwhere, o)) return true; return false;
}
static bool is_write(Kind k) { return k <= SEL_INS; }
static bool can_succeed(const St &s, const Op &o) { for (auto &p : paths(o)) { St n = s; int64_t x; if (p.lookup >= 0 && (nmatch(s, o.lwhere, o) > 0) != (p.lookup == 1)) continue; if (p.write == 0 ? do_insert(n, o, x) : p.write == 1 ? do_update(n, o, x) : true) return true; } return false; }
static void judge_write(Conn *c, const Op &o, const Rep &r, const vector<St> &vs, const vector<size_t> &tr, bool excused) {
  // vs: the versions of the contents during the call; tr: indices into vs of versions this call committed
  SIM_CHECK(tr.size() <= 1, "atomicity", "%s committed %zu times", KN[o.kind], tr.size());
  if (!r.done) {
    SIM_CHECK(tr.empty(), "failed-but-applied", "%s reports failure (%d) but changed the database:%s", KN[o.kind], r.rc, diff(vs[tr[0] - 1], vs[tr[0]]).c_str());
    SIM_CHECK(!r.has_id && !r.has_count, "report", "%s failed (%d) and still reports a %s", KN[o.kind], r.rc, r.has_id ? "row id" : "row count");
    if (!excused && vs.size() == 1) SIM_CHECK(!can_succeed(vs[0], o), "refused", "%s fails (%d) although nothing prevents it", KN[o.kind], r.rc);
    return;
  }
  string why;
  for (auto &p : paths(o)) {
    for (size_t i = 0; i < vs.size(); i++) {
      if (!tr.empty() && i + 1 != tr[0]) continue;
      bool look = p.lookup < 0; for (size_t a = 0; a <= i && !look; a++) look = looks(vs[a], o, p, r);
      St next; bool ok = path_ok(vs[i], o, p.write, r, next);
      if (look && ok && next == (tr.empty() ? vs[i] : vs[i + 1])) { if (p.write == 3) { if (r.warn != (o.upd_missing && p.lookup == 1) && r.st) { why = "unexpected or missing warning"; continue; } } sim::count(p.write == 0 ? "probe.inserted" : p.write == 1 ? "probe.updated" : p.write == 2 ? "probe.deleted" : "probe.nothing-to-do"); return; }
      if (why.size() < 500) why += fmt(" [as %s at version %zu: lookup %s, result and report %s, contents%s]", p.write == 0 ? "insertion" : p.write == 1 ? "update" : p.write == 2 ? "deletion" : "no change", i, look ? "agrees" : "disagrees", ok ? "agree" : "disagree", ok ? (next == (tr.empty() ? vs[i] : vs[i + 1]) ? " agree" : (" expected" + diff(vs[i], next)).c_str()) : "");
    }
  }
  violation(tr.empty() ? "done-but-not-applied" : "wrong-effect", "%s on t%d (k %s%lld, g %s%lld, n %s%lld) reports success (id %s%lld, count %s%lld) but the change is%s;%s", KN[o.kind], o.t, o.hk ? "" : "-", (long long)o.k, o.hg ? "" : "-", (long long)o.g, o.hn ? "" : "-", (long long)o.n, r.has_id ? "" : "-", (long long)r.id, r.has_count ? "" : "-", (long long)r.count, tr.empty() ? " nothing" : diff(vs[tr[0] - 1], vs[tr[0]]).c_str(), why.c_str());
}

// ---- calling the library --------------------------------------------------------------------------------------
static char *dup(const string &s) { char *p = (char *)sim::arena_alloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
struct Bind { struct cee_sqlite3_bind_info info[6]; struct cee_sqlite3_bind_data data[6]; };
static void fill(Bind &b, const Op &o) {
  memset((void *)&b, 0, sizeof b); static const char *vn[] = {"@id", "@k", "@v", "@n", "@g"}, *cn[] = {"id", "k", "v", "n", "g"};
  for (int i = 0; i < 5; i++) { b.info[i].index = i; b.info[i].var_name = (char *)vn[i]; b.info[i].col_name = (char *)cn[i]; }
  b.info[0].type = CEE_SQLITE3_INT64; b.info[1].type = o.t ? CEE_SQLITE3_TEXT : CEE_SQLITE3_INT64; b.info[2].type = CEE_SQLITE3_TEXT; b.info[3].type = CEE_SQLITE3_INT; b.info[3].not_null = true; b.info[4].type = CEE_SQLITE3_INT;
  auto slot = [&](int i) -> struct cee_sqlite3_bind_data & { return o.prefilled ? b.info[i].data : b.data[i]; };
  if (o.hid) { slot(0).i64 = o.id; slot(0).has_value = 1; }
  if (o.hk) { if (o.t) { string s = ktext(o.k); slot(1).value = dup(s); slot(1).size = o.k & 1 ? s.size() : 0; } else slot(1).i64 = o.k; slot(1).has_value = 1; }
  if (o.v) { string s = vtext(o.v); slot(2).value = dup(s); slot(2).size = o.v & 1 ? s.size() : 0; slot(2).has_value = 1; } else if (o.defaults) { slot(2).has_value = 1; slot(2).is_null = 1; }
  if (o.hn) { slot(3).i = (int)o.n; slot(3).has_value = 1; }
  if (o.hg) { slot(4).i = (int)o.g; slot(4).has_value = 1; }
  if (o.prefilled && o.hg && o.g & 1) { b.data[4].i = (int)o.g; b.data[4].has_value = 1; b.info[4].data.i = 77; } // given data wins over the default
}
static string wh(int w) { return w == 0 ? " where k=@k" : w == 1 ? " where g=@g" : ""; }
static void result_of(Rep &r, const Op &o, struct cee_json *st) {
  r.st = st; SIM_CHECK(st || !o.with_status || !is_write(o.kind), "report", "%s returns %d and nothing in the status it was given", KN[o.kind], r.rc); if (!st) { r.done = r.rc == SQLITE_DONE; return; }
  SIM_CHECK(st->t == CEE_JSON_OBJECT || o.kind == SELECT, "status", "%s leaves a status of type %d", KN[o.kind], (int)st->t);
  if (st->t != CEE_JSON_OBJECT) { r.done = r.rc == SQLITE_DONE; return; }
  r.err = cee_json_object_get(st, (char *)"error"); r.warn = cee_json_object_get(st, (char *)"warning");
  const char *ik = o.kind == INS && o.key ? o.key : "last_insert_rowid", *ck = o.kind == DEL ? (o.key ? o.key : "deleted") : "updated_rows";
  if (struct cee_json *j = cee_json_object_get(st, (char *)ik)) { SIM_CHECK(!cee_json_to_i64x(j, &r.id), "report", "the reported row id is no integer"); r.has_id = true; }
  if (struct cee_json *j = cee_json_object_get(st, (char *)ck)) { SIM_CHECK(!cee_json_to_i64x(j, &r.count), "report", "the reported row count is no integer"); r.has_count = true; }
  if (o.kind == SEL_INS) if (struct cee_json *j = cee_json_object_get(st, (char *)"id")) { SIM_CHECK(!cee_json_to_i64x(j, &r.fid), "report", "the found row id is no integer"); r.found = true; }
  r.done = r.rc == SQLITE_DONE;
  if (o.kind == SEL_INS && o.ecol && r.done && r.found) { struct cee_json *e = cee_json_object_get(st, (char *)"error"); SIM_CHECK(e && e->t == CEE_JSON_I64, "report", "the found row's column error is not in the result"); r.err = false; } // a column of that name
  SIM_CHECK(r.done == !r.err, "report", "%s returns %d and %s error", KN[o.kind], r.rc, r.err ? "reports an" : "reports no");
  if (o.with_status && r.done && !r.warn) { bool told = o.kind == INS ? r.has_id : o.kind == DEL ? r.has_count : o.kind == SEL_INS ? r.found || r.has_id : true; SIM_CHECK(told, "report", "%s is done and its status tells neither a row id nor a count", KN[o.kind]); }
}
static void step(Conn *c, int depth);
struct Iter { Conn *c; int stop, seen, depth; vector<int64_t> ids; };
static int on_row(void *x, struct cee_state *, struct cee_sqlite3_bind_info *, sqlite3_stmt *s) {
  Iter *it = (Iter *)x; it->seen++; it->ids.push_back(sqlite3_column_int64(s, 0));
  if (it->depth < 2 && chance(1, 3) && conns->size() > 1 && sim::current_task() < 0) { Conn *o = (*conns)[choose(conns->size())]; if (o != it->c && !o->iter) { Span sp; step(o, it->depth + 1); } }
  return it->stop && it->seen >= it->stop;
}
static void check_rows(const Op &o, struct cee_json *rows, const vector<St> &vs) {
  SIM_CHECK(rows && cee_json_to_array(rows), "select", "a successful query returns no array"); size_t n = cee_json_array_length(rows);
  for (auto &s : vs) { size_t i = 0; bool ok = true; for (int x = 0; x < s.t[o.t].cnt && ok; x++) if (matches(s.t[o.t].r[x], o.where, o)) { if (i >= n) { ok = false; break; } struct cee_json *j = cee_json_array_get(rows, (int)i++); int64_t id; struct cee_json *f = cee_json_object_get(j, (char *)"id"); ok = f && !cee_json_to_i64x(f, &id) && id == s.t[o.t].r[x].id; } if (ok && i == n) return; }
  violation("select", "a query on t%d returns %zu rows, no version of the table during the call has exactly these", o.t, n);
}
static void check_ids(const Op &o, const vector<int64_t> &ids, bool full, const vector<St> &vs) {
  for (auto &s : vs) { vector<int64_t> w; for (int x = 0; x < s.t[o.t].cnt; x++) if (matches(s.t[o.t].r[x], o.where, o)) w.push_back(s.t[o.t].r[x].id); if (full ? w == ids : w.size() >= ids.size() && std::equal(ids.begin(), ids.end(), w.begin())) return; }
  violation("select", "an iteration over t%d visits %zu rows, no version of the table during the call has exactly these", o.t, ids.size());
}
static void open_conn(Conn *c) {
  int rc = sqlite3_open(DB, &c->db); SIM_CHECK(rc == SQLITE_OK, "unreadable", "open fails: %d", rc);
  static const char *cache[] = {"pragma cache_size=100", "pragma cache_size=1", "pragma cache_size=4", "pragma cache_size=0"}; raw(c->db, cache[choose(4)]); raw(c->db, "pragma temp_store=memory"); if (chance(1, 3)) sqlite3_busy_timeout(c->db, (int)choose(200));
  cee_sqlite3_init(&c->cs, (char *)"test.db", (char *)DB, c->st, c->db); c->txn = c->pend = false; c->iter = 0;
}
static void after(Conn *c, const char *what) {
  if (!c->iter) { sqlite3_stmt *s = sqlite3_next_stmt(c->db, nullptr); SIM_CHECK(!s, "open-statement", "%s leaves a statement open: %s", what, sqlite3_sql(s)); }
  int l = vfs::lock_level(c->db); bool ac = sqlite3_get_autocommit(c->db);
  if (ac && !c->iter) SIM_CHECK(l == 0, "lock", "%s leaves a lock of level %d on the database", what, l);
  if (ac && c->iter) SIM_CHECK(l <= 1, "lock", "%s during a query leaves a lock of level %d on the database", what, l);
}
static int64_t draw_k() { return 1 + choose(6); }
static int64_t draw_v() { static uint32_t nv = 0; if (chance(1, 6)) return 0; uint32_t len = 8 + (uint32_t)choose(chance(1, 150) ? 70000 : chance(1, 5) ? 1600 : 24); return (int64_t)len << 32 | (++nv * 2654435761u + (uint32_t)choose(1000)); }
static Op draw_op(Conn *c) {
  Op o;
#if defined(PROP_C15)
  o.kind = (Kind)weighted({9, 4, 3, 2, 3, 2, 1, 0, 1, 1, 3, 3, 1, 1});
#elif defined(PROP_C17)
  o.kind = (Kind)weighted({2, 3, 4, 5, 8, 6, 1, 0, 1, 0, 1, 1, 1, 0});
#else
  o.kind = (Kind)weighted({4, 2, 3, 3, 3, 3, 3, 3, 4, 4, 2, 2, 1, 2});
#endif
  o.t = (int)choose(2); o.hk = !chance(1, 8); o.k = draw_k(); o.v = draw_v(); o.hn = !chance(1, 6); o.n = chance(1, 12) ? 13 : (int64_t)choose(100); o.hg = !chance(1, 8); o.g = 1 + choose(3);
  if (chance(1, 5)) { o.hid = true; o.id = chance(1, 4) ? 5000000000ll + choose(4) : chance(1, 12) ? -(int64_t)choose(3) : 1 + (int64_t)choose(20); }
  o.where = (int)weighted({5, 3, 1}); o.lwhere = chance(1, 4) ? (int)choose(2) : o.where == 2 ? 0 : o.where; o.with_status = !chance(1, 5); o.prefilled = chance(1, 3); o.with_id = chance(1, 3) && o.kind == INS; if (chance(1, 4)) o.key = o.kind == INS ? "id" : "gone";
  o.pre = o.with_status && chance(1, 4) && (o.kind <= SEL_INS || o.kind == SELECT1); if (!chance(1, 3)) o.xs = 1; else if (o.kind >= UPD && o.kind <= SEL_INS) o.xs = 2 * (int)choose(2);
  o.ecol = o.kind == SEL_INS && chance(1, 4); o.upd_missing = chance(1, 10) && o.with_status && o.kind >= UPD && o.kind <= UPSERT; o.defaults = chance(1, 2); o.bad = (int)choose(7); o.stop = chance(1, 3) ? 1 + (int)choose(4) : 0;
  return o;
}
static void step(Conn *c, int depth) {
  Op o = draw_op(c); struct cee_state *st = c->st;
  if (c->iter && (o.kind >= BEGIN || o.kind == ITER)) return;
  if (o.kind == BEGIN && c->txn) o.kind = COMMIT; else if ((o.kind == COMMIT || o.kind == ROLLBACK) && !c->txn) o.kind = BEGIN;
  ev("c%d: %s t%d k%s%lld g%s%lld n%s%lld%s v%d where%d/%d%s%s%s", c->no, KN[o.kind], o.t, o.hk ? "" : "-", (long long)o.k, o.hg ? "" : "-", (long long)o.g, o.hn ? "" : "-", (long long)o.n, o.hid ? fmt(" id %lld", (long long)o.id).c_str() : "", (int)(o.v >> 32), o.where, o.lwhere, o.with_status ? "" : " no status", o.upd_missing ? " no update statement" : "", c->txn ? " (in transaction)" : "");
  Act a{c, &o, {}}; auto &stack = acts[sim::current_task() + 1]; size_t v0 = hist->size() - 1; uint64_t f0 = vfs::fired(), b0 = vfs::busies();
  if (o.kind == REOPEN) {
    if (c->txn) return;
    stack.push_back(&a); int rc = sqlite3_close(c->db); SIM_CHECK(rc == SQLITE_OK, "open-statement", "the connection cannot be closed: %d", rc); stack.pop_back();
    { vfs::Quiet q(false); open_conn(c); } return;
  }
  Bind b; fill(b, o); const char *tn = o.t ? "t1" : "t0"; Rep r; struct cee_json *status = nullptr, **sp = o.with_status ? &status : nullptr; bool wtxn = c->txn;
  struct cee_sqlite3_stmt_strs ss; memset((void *)&ss, 0, sizeof ss); ss.table_name = (char *)tn;
  static const char *INSV[] = {"insert into ", " \n INSERT INTO ", "Insert Into ", "\r\n\tinsert into ", "\f\n Insert INTO "};
  string ins = string(INSV[choose(5)]) + tn + " (id,k,v,n,g) values (@id,@k,@v,@n,@g)", upd = string(chance(1, 3) ? "\tUPDATE " : "update ") + tn + " set v=@v,n=@n" + wh(o.where), sel = string(o.kind == SEL_INS && o.ecol ? "select id,n as error from " : "select id from ") + tn + wh(o.lwhere), del = string("delete from ") + tn + wh(o.where);
  ss.select_stmt = dup(sel);
  if (o.xs == 2) { ss.insert_dynamic = true; ss.insert_stmt_x = dup(ins); if (!o.upd_missing) ss.update_stmt_x = dup(upd); } else { ss.insert_stmt = dup(ins); if (!o.upd_missing) ss.update_stmt = dup(upd); if (!o.xs && !o.upd_missing) { ss.insert_stmt_x = dup(string("delete from ") + tn); ss.update_stmt_x = dup(string("update ") + tn + " set n=n+1"); } }
  if (sp && o.pre) { status = cee_json_object_mk(st); cee_json_object_set_i64(status, (char *)"mine", 5); }
  vector<int64_t> iter_ids; bool iter_full = false;
  stack.push_back(&a);
  switch (o.kind) {
    case INS: r.idout = -77; r.rc = cee_sqlite3_insert(&c->cs, b.info, b.data, dup(ins), sp, (char *)o.key, o.with_id ? &r.idout : nullptr); r.idset = r.idout != -77; break;
    case DEL: r.rc = cee_sqlite3_delete(&c->cs, b.info, b.data, dup(del), sp, (char *)o.key); break;
    case UPD: r.rc = cee_sqlite3_update(&c->cs, b.info, b.data, &ss, sp); break;
    case UPD_IF: r.rc = cee_sqlite3_update_if_exists(&c->cs, b.info, b.data, &ss, sp); break;
    case UPSERT: r.rc = cee_sqlite3_update_or_insert(&c->cs, b.info, b.data, &ss, sp); break;
    case SEL_INS: r.rc = cee_sqlite3_select1_or_insert(&c->cs, b.info, b.data, &ss, sp); break;
    case SELECT: r.rc = cee_sqlite3_select(&c->cs, b.info, b.data, dup(string("select id,v from ") + tn + wh(o.where) + " order by id"), sp); break;
    case SELECT1: r.rc = cee_sqlite3_select1(&c->cs, b.info, b.data, dup(string("select id,v from ") + tn + wh(o.where) + " order by id"), sp); break;
    case ITER: { Iter it{c, o.stop, 0, depth, {}}; c->iter++; r.rc = cee_sqlite3_select_iter(&c->cs, b.info, b.data, dup(string("select id,v from ") + tn + wh(o.where) + " order by id"), &it, on_row, sp); c->iter--; iter_ids = it.ids; iter_full = !o.stop || it.seen < o.stop; break; }
    case BAD: {
      string q; bool sel2 = o.bad & 1;
      switch (o.bad) { case 0: q = string("insert into ") + tn + " (k,n) values (@k,@nosuch)"; break; case 1: q = string("select id from ") + tn + " where k=@nosuch"; break; case 2: q = string("insert into ") + tn + " (nosuch) values (@k)"; break; case 3: q = "select nosuch from t0"; break; case 4: q = string("delete from ") + tn + " where k=?"; break; case 5: q = string("select id from ") + tn + " where k=@k and g=?7"; break; default: q = string("update ") + tn + " set n=1 wher"; }
      sqlite3_stmt *out = nullptr; 
      if (o.bad == 2 && chance(1, 2)) { struct cee_json *e = nullptr; r.rc = cee_sqlite3_bind_run_sql(&c->cs, b.info, b.data, dup(q), &out, &e); sqlite3_finalize(out); status = e; }
      else if (sel2) r.rc = cee_sqlite3_select(&c->cs, b.info, b.data, dup(q), sp);
      else if (o.bad == 4) r.rc = cee_sqlite3_delete(&c->cs, b.info, b.data, dup(q), sp, nullptr);
      else if (o.bad == 6) { ss.update_stmt = dup(q); ss.select_stmt = dup(string("select 1")); r.rc = cee_sqlite3_update_if_exists(&c->cs, b.info, b.data, &ss, sp); }
      else r.rc = cee_sqlite3_insert(&c->cs, b.info, b.data, dup(q), sp, nullptr, nullptr);
      break; }
    case BEGIN: r.rc = chance(1, 3) ? raw(c->db, "begin immediate") : cee_sqlite3_begin_transaction(c->db); break;
    case COMMIT: r.rc = cee_sqlite3_end_transaction(c->db); break;
    case ROLLBACK: r.rc = raw(c->db, "rollback"); break;
    default: break;
  }
  stack.pop_back();
  if (sp && o.pre) { int64_t m = 0; struct cee_json *j = status ? cee_json_object_get(status, (char *)"mine") : nullptr; SIM_CHECK(j && !cee_json_to_i64x(j, &m) && m == 5, "status", "%s drops what was in the status", KN[o.kind]); }
  bool fault = vfs::fired() != f0, busy = vfs::busies() != b0, ac = sqlite3_get_autocommit(c->db), excused = fault || busy || hist->size() - 1 != v0;
  ev("  -> %d%s%s", r.rc, fault ? " (fault)" : "", busy ? " (busy)" : "");
  if (o.kind < BEGIN) {
    result_of(r, o, status);
    after(c, KN[o.kind]);
    if (wtxn) {
      SIM_CHECK(a.trans.empty(), "stray-write", "%s inside a transaction commits", KN[o.kind]);
      if (ac) { // SQLite rolled the transaction back
        SIM_CHECK(!(is_write(o.kind) && r.done), "report", "%s reports success although its transaction was rolled back", KN[o.kind]); SIM_CHECK(fault || busy, "lost-transaction", "%s ended the transaction without any fault (%d)", KN[o.kind], r.rc); c->txn = c->pend = false; sim::count("probe.transaction-rolled-back"); return;
      }
      St base = c->pend ? c->p : now();
      if (is_write(o.kind)) {
        if (!r.done) judge_write(c, o, r, {base}, {}, fault || busy || (!c->pend && hist->size() - 1 != v0));
        else { // the change is pending: derive it from the model
          bool ok = false; for (auto &p : paths(o)) { bool look = p.lookup < 0 || looks(base, o, p, r); St nx; if (look && path_ok(base, o, p.write, r, nx)) { ok = true; if (!(nx == base)) { c->p = nx; c->pend = true; } break; } }
          SIM_CHECK(ok, "wrong-effect", "%s in a transaction on t%d reports success (id %s%lld, count %s%lld), which its transaction's contents do not allow", KN[o.kind], o.t, r.has_id ? "" : "-", (long long)r.id, r.has_count ? "" : "-", (long long)r.count);
          St seen; { vfs::Quiet q(false); read_st(c->db, seen); } SIM_CHECK(seen == (c->pend ? c->p : base), "wrong-effect", "after %s in a transaction its contents differ from what it reported:%s", KN[o.kind], diff(c->pend ? c->p : base, seen).c_str());
          sim::mark_nontrivial();
        }
      } else if (o.kind == SELECT && r.done && sp) check_rows(o, status, {base});
      return;
    }
    vector<St> vs(hist->begin() + v0, hist->end()); for (auto &x : a.trans) x -= v0;
    if ((o.kind == UPD || o.kind == UPD_IF) && o.with_status && r.done && !r.warn) SIM_CHECK(r.has_count || a.trans.empty(), "report", "%s changes rows and does not tell how many", KN[o.kind]);
    if (is_write(o.kind)) { judge_write(c, o, r, vs, a.trans, excused); if (!a.trans.empty()) sim::mark_nontrivial(); }
    else {
      SIM_CHECK(a.trans.empty(), "stray-write", "%s changes the database", KN[o.kind]);
      if (o.kind == BAD) SIM_CHECK(r.rc != SQLITE_DONE && r.rc != SQLITE_ROW && r.rc != SQLITE_OK, "bad-accepted", "a malformed or unbound statement returns %d", r.rc);
      else if (o.kind == SELECT && r.done && sp) check_rows(o, status, vs);
      else if (o.kind == ITER && r.rc == SQLITE_DONE) check_ids(o, iter_ids, iter_full, vs);
      else if (!excused) SIM_CHECK(r.rc == SQLITE_DONE, "refused", "%s fails (%d) although nothing prevents it", KN[o.kind], r.rc);
    }
    return;
  }
  if (o.kind == BEGIN) { SIM_CHECK(a.trans.empty(), "stray-write", "begin changes the database"); if (r.rc == SQLITE_OK) { c->txn = true; c->pend = false; } else SIM_CHECK(excused, "refused", "begin fails: %d", r.rc); SIM_CHECK(ac == !c->txn, "transaction", "begin returned %d, autocommit is %d", r.rc, ac); return; }
  if (o.kind == COMMIT) {
    if (r.rc == SQLITE_OK) { if (c->pend && !(c->p == (*hist)[v0])) SIM_CHECK(a.trans.size() == 1 && (*hist)[a.trans[0]] == c->p, "wrong-effect", "a committed transaction had the effect:%s", a.trans.empty() ? " nothing" : diff((*hist)[a.trans[0] - 1], (*hist)[a.trans[0]]).c_str()); else SIM_CHECK(a.trans.empty(), "wrong-effect", "an empty transaction changes the database"); SIM_CHECK(ac, "transaction", "commit succeeded but the transaction is still open"); if (!a.trans.empty()) { sim::mark_nontrivial(); sim::count("probe.transaction-committed"); } c->txn = c->pend = false; }
    else { SIM_CHECK(a.trans.empty(), "failed-but-applied", "commit fails (%d) but changes the database", r.rc); SIM_CHECK(excused || c->iter, "refused", "commit fails: %d", r.rc); if (ac) c->txn = c->pend = false; }
  } else { SIM_CHECK(a.trans.empty(), "failed-but-applied", "rollback changes the database:%s", a.trans.empty() ? "" : diff((*hist)[a.trans[0] - 1], (*hist)[a.trans[0]]).c_str()); if (ac) c->txn = c->pend = false; }
  if (ac) after(c, KN[o.kind]);
}
static const char *SCHEMA = "create table t0(id integer primary key, k integer unique, v text, n integer not null check(n<>13), g integer);"
  "create table t1(id integer primary key autoincrement, k text unique, v text, n integer not null check(n<>13), g integer);"
  "create table log(x); create index g0 on t0(g); create trigger tr after insert on t1 begin insert into log values(new.id); end;";
static void epoch_body(bool first, int nconn, bool tasks, unsigned mode, uint64_t crash_at, uint64_t oom) {
  vfs::start(); quiet_stderr(); hist = new vector<St>; for (auto &a : acts) a.clear(); vfs::on_journal_end = journal_end; vfs::on_fault = nullptr; conns = new vector<Conn *>;
  sqlite3 *db = nullptr;
  if (first) {
    vfs::Quiet q(false); sqlite3_open(DB, &db); static const char *ps[] = {"pragma page_size=4096", "pragma page_size=512", "pragma page_size=1024"}; raw(db, ps[mode % 3]); if (mode / 3 % 4 == 0) raw(db, "pragma encoding='UTF-16le'");
    sqlite3 *keep = db; cee_sqlite3_init_db(&db, (char *)DB, (char *)SCHEMA, true); SIM_CHECK(db == keep && db, "init", "creating the schema does not return the connection"); St s; read_st(db, s); hist->push_back(s); save(s); sqlite3_close(db); dur->born = 1;
  } else {
    St want; memcpy(&want, dur->cur, sizeof want); hist->push_back(want); St got; { vfs::Quiet q(false); int rc = sqlite3_open(DB, &db); INT_ERR(rc, "open after restart"); read_st(db, got); sqlite3_close(db); }
    SIM_CHECK(got == want, "durability", "after the restart the database is not what was committed:%s", diff(want, got).c_str()); sim::count("probe.restart-verified");
  }
  for (int i = 0; i < nconn; i++) { Conn *c = new Conn; c->no = i; c->st = cee_state_mk(10); memset((void *)&c->p, 0, sizeof c->p); vfs::Quiet q(false); open_conn(c); conns->push_back(c); }
  vfs::faults(true); vfs::crash_after(crash_at); if (oom) sim::alloc_fail_at(oom, false);
  if (tasks) { sim::Tasks t; for (int i = 0; i < nconn; i++) t.fns.push_back([i]() { Steps s(10, 30); while (s.more()) { if (chance(1, 12)) vfs::nomem_at(1 + choose(300), 1 + choose(3)); step((*conns)[i], 9); } }); static const unsigned qs[] = {60, 15, 4, 250}; t.run(qs[choose(4)]); }
  else { Steps s(24, 80); while (s.more()) { Span sp; if (chance(1, 16)) vfs::nomem_at(1 + choose(300), chance(1, 8) ? 100 : 1 + choose(3)); if (chance(1, 24)) vfs::draw(true); step((*conns)[choose(conns->size())], 0); } }
  // faults stop: everything must be released and work again
  vfs::faults(false); vfs::crash_after(0); sim::alloc_fail_at(0, false);
  for (auto c : *conns) if (c->txn) { Act a{c, nullptr, {}}; acts[0].push_back(&a); raw(c->db, "rollback"); acts[0].pop_back(); SIM_CHECK(a.trans.empty(), "failed-but-applied", "rollback changes the database"); c->txn = c->pend = false; }
  for (auto c : *conns) { after(c, "the end of the run"); Op o; o.kind = INS; o.t = 0; o.n = 1; o.hn = true; Bind b; fill(b, o); Act a{c, &o, {}}; acts[0].push_back(&a); int rc = cee_sqlite3_insert(&c->cs, b.info, b.data, (char *)"insert into t0 (n) values (@n)", nullptr, nullptr, nullptr); int rc2 = raw(c->db, "delete from t0 where k is null and v is null and g is null and n=1"); acts[0].pop_back(); SIM_CHECK(rc == SQLITE_DONE && rc2 == SQLITE_OK, "blocked", "after the faults stopped, connection %d cannot write: %d, %d", c->no, rc, rc2); }
  for (auto c : *conns) { int rc = sqlite3_close(c->db); SIM_CHECK(rc == SQLITE_OK, "open-statement", "the connection cannot be closed: %d", rc); cee_del(c->st); }
  int rc = sqlite3_open(DB, &db); INT_ERR(rc, "open"); St got; read_st(db, got); SIM_CHECK(got == now(), "durability", "the database is not what was committed:%s", diff(now(), got).c_str()); sqlite3_close(db); sim::state(sim::hash_bytes(&got, sizeof got)); save(got);
}
static void run() {
  sim::alloc_draw_config(); vfs::init(); dur = (Dur *)sim::durable_alloc(sizeof(Dur)); unsigned mode = (unsigned)choose(12); int nconn = 1 + (int)weighted({2, 3, 3}); vfs::draw(chance(3, 5)); bool crashy = chance(1, 2);
  vfs::Faults fr = vfs::rates;
  for (int e = 0; e < 4; e++) {
    bool tasks = nconn > 1 && chance(1, 2); uint64_t at = crashy ? 1 + choose(chance(1, 2) ? 120 : 900) : 0, oom = crashy && chance(1, 4) ? 1 + choose(2000) : 0;
    int r = sim::epoch([&]() { vfs::rates = fr; epoch_body(e == 0, nconn, tasks, mode, at, oom); });
    if (r == 0 && !chance(1, 4)) break;
    if (r) { ev(r == 1 ? "crash" : "process stopped"); vfs::recover(); if (!dur->born) return; }
  }
  sim::epoch([&]() { epoch_body(false, 1, false, mode, 0, 0); });
}
#ifndef EMBED
namespace sim {
#if defined(PROP_C15)
#define NAME "C15"
#elif defined(PROP_C17)
#define NAME "C17"
#else
#define NAME "C20"
#endif
Harness harness = {NAME, run, 60000000, 5000, 250000,
  "one run = a seeded history of binding calls on one to three connections to one database, call by call (also from within row callbacks) or interleaved at every disk and lock operation, with I/O errors, full disk, lock contention, SQLite allocation failures, and up to four crashes at arbitrary disk operations or library allocations that lose, keep or tear unsynced sectors; non-trivial = at least one committed change; distinct = distinct event history hash",
  {"sqlite3/cee-sqlite3.c", "cee-json (amalgamation)", "cee (amalgamation)", "SQLite 3.45 (system library)"}, {"SQLite's VFS: disk, locks, clock, randomness", "SQLite's allocator", "malloc family of the library (simulated heap)"}};
}
#endif
#else
// ---- C16: scripts -----------------------------------------------------------------------------------------------
static const int NX = 9, MAXR = 80; static int nx; // nx: how many of them the scripts of this run use
struct XT { bool on; int64_t cnt; int64_t r[MAXR]; };
struct St { XT x[NX]; int64_t idx[NX]; bool uniq[NX]; int64_t trg[NX]; int64_t view; };   // idx/trg: table + 1, 0 = absent
static bool operator==(const St &a, const St &b) { return !memcmp(&a, &b, sizeof a); }
static string show_st(const St &s) { string o; for (int i = 0; i < NX; i++) { if (s.x[i].on) { o += fmt(" x%d(%d:", i, (int)s.x[i].cnt); for (int j = 0; j < s.x[i].cnt && j < 6; j++) o += fmt("%lld ", (long long)s.x[i].r[j]); o += ")"; } if (s.idx[i]) o += fmt(" i%d%s on x%d", i, s.uniq[i] ? " unique" : "", (int)s.idx[i] - 1); if (s.trg[i]) o += fmt(" g%d on x%d", i, (int)s.trg[i] - 1); } return o.empty() ? " nothing" : o; }
static void read_st(sqlite3 *db, St &s) {
  memset(&s, 0, sizeof s); sqlite3_stmt *q = nullptr; int rc = sqlite3_prepare_v2(db, "select type,name,tbl_name,sql from sqlite_master where name not like 'sqlite_%'", -1, &q, 0); INT_ERR(rc, "prepare");
  while ((rc = sqlite3_step(q)) == SQLITE_ROW) {
    string ty = (const char *)sqlite3_column_text(q, 0), nm = (const char *)sqlite3_column_text(q, 1), tb = (const char *)sqlite3_column_text(q, 2), sq = (const char *)sqlite3_column_text(q, 3); int n = nm.size() == 2 ? nm[1] - '0' : -1, t = tb.size() == 2 ? tb[1] - '0' : -1;
    SIM_CHECK(n >= 0 && n < NX && t >= 0 && t < NX, "schema", "unknown object %s", nm.c_str());
    if (ty == "table") s.x[n].on = true; else if (ty == "index") { s.idx[n] = t + 1; s.uniq[n] = sq.find("UNIQUE") != string::npos; } else if (ty == "trigger") s.trg[n] = t + 1; else SIM_CHECK(false, "schema", "unknown object %s", nm.c_str());
  }
  INT_ERR(rc, "step"); sqlite3_finalize(q);
  for (int i = 0; i < NX; i++) if (s.x[i].on) {
    rc = sqlite3_prepare_v2(db, fmt("select a,b from x%d order by rowid", i).c_str(), -1, &q, 0); INT_ERR(rc, "prepare");
    while ((rc = sqlite3_step(q)) == SQLITE_ROW) { if (s.x[i].cnt >= MAXR) sim::discard("model: too many rows"); int64_t a = sqlite3_column_int64(q, 0); const char *b = (const char *)sqlite3_column_text(q, 1); SIM_CHECK(b && string(b) == string((size_t)(a * 37 % 900), 'z'), "stored", "x%d holds a damaged row %lld", i, (long long)a); s.x[i].r[s.x[i].cnt++] = a; }
    INT_ERR(rc, "step"); sqlite3_finalize(q);
  }
}
static void save(const St &s) { memcpy(dur->cur, &s, sizeof s); dur->len = sizeof s; }
struct Stm { int k, a, b; vector<int64_t> rows; bool u, ine; };
static Stm draw_stm() { Stm s; s.k = (int)weighted({5, 7, 2, 2, 1, 1, 1}); s.a = (int)choose(nx); s.b = (int)choose(nx); s.u = chance(1, 3); s.ine = chance(1, 2); int n = 1 + (int)choose(chance(1, 12) ? 40 : 4); for (int i = 0; i < n; i++) s.rows.push_back((int64_t)choose(40)); return s; }
static string sql_of(const Stm &s) {
  switch (s.k) {
    case 0: return fmt("create table %sx%d(a integer, b text%s);", s.ine ? "if not exists " : "", s.a, s.u ? ", c unique, d text default 'd'" : ""); // a constraint that never fails, but needs an index of its own
    case 1: { string o = fmt("insert into x%d(a,b) values ", s.a); for (size_t i = 0; i < s.rows.size(); i++) o += fmt("%s(%lld,'%s')", i ? "," : "", (long long)s.rows[i], string((size_t)(s.rows[i] * 37 % 900), 'z').c_str()); return o + ";\n"; }
    case 2: return fmt("create %sindex i%d on x%d(a);", s.u ? "unique " : "", s.b, s.a);
    case 3: return fmt("create trigger g%d after insert on x%d begin delete from x%d where a=-1; end;", s.b, s.a, s.a);
    case 4: return fmt("drop table x%d; ", s.a);
    case 5: return fmt("delete from x%d where a<20;", s.a);
    default: return s.u ? "select nosuch;" : "insert inot x0 values(1);";
  }
}
static bool apply(St &st, const Stm &s) {
  XT &t = st.x[s.a]; St before = st; auto fail = [&]() { st = before; return false; };
  switch (s.k) {
    case 0: if (t.on) return s.ine; t.on = true; t.cnt = 0; return true;
    case 1: { if (!t.on) return false; for (auto v : s.rows) { for (int i = 0; i < NX; i++) if (st.idx[i] == s.a + 1 && st.uniq[i]) for (int j = 0; j < t.cnt; j++) if (t.r[j] == v) return fail(); if (t.cnt >= MAXR) sim::discard("model: too many rows"); t.r[t.cnt++] = v; } return true; }
    case 2: if (!t.on || st.idx[s.b]) return false; if (s.u) for (int i = 0; i < t.cnt; i++) for (int j = 0; j < i; j++) if (t.r[i] == t.r[j]) return false; st.idx[s.b] = s.a + 1; st.uniq[s.b] = s.u; return true;
    case 3: if (!t.on || st.trg[s.b]) return false; st.trg[s.b] = s.a + 1; return true;
    case 4: if (!t.on) return false; memset(&t, 0, sizeof t); for (int i = 0; i < NX; i++) { if (st.idx[i] == s.a + 1) { st.idx[i] = 0; st.uniq[i] = false; } if (st.trg[i] == s.a + 1) st.trg[i] = 0; } return true;
    case 5: { if (!t.on) return false; int j = 0; for (int i = 0; i < t.cnt; i++) if (t.r[i] >= 20) t.r[j++] = t.r[i]; for (int i = j; i < t.cnt; i++) t.r[i] = 0; t.cnt = j; return true; }
    default: return false;
  }
}
static vector<St> *legal; static bool in_call = false; static int ncommit; static St *cur; static bool armed;
static void journal_end(const char *) {
  St s; { vfs::Quiet q(true); sqlite3 *db = nullptr; int rc = sqlite3_open(DB, &db); INT_ERR(rc, "open"); read_st(db, s); sqlite3_close(db); }
  if (s == *cur) return;
  SIM_CHECK(in_call, "stray-write", "the database changes outside any call: from%s to%s", show_st(*cur).c_str(), show_st(s).c_str());
  bool ok = false; for (auto &l : *legal) ok |= l == s; ncommit++;
  SIM_CHECK(ok, "partial", "a script takes effect in part: from%s to%s", show_st(*cur).c_str(), show_st(s).c_str());
  *cur = s; save(s); sim::count("probe.commit"); ev("  committed:%s", show_st(s).c_str()); sim::state(sim::hash_bytes(&s, sizeof s));
}
static void on_fault(const char *) { if (in_call && armed) sim::expect_failstop(true); }
static void body(bool check, unsigned mode, uint64_t crash_at, bool faults) {
  vfs::start(); quiet_stderr(); legal = new vector<St>; cur = new St; memset((void *)cur, 0, sizeof *cur); in_call = false; vfs::on_journal_end = journal_end; vfs::on_fault = on_fault; armed = true;
  sqlite3 *other = nullptr, *db = nullptr; sqlite3_stmt *hold = nullptr;
  if (dur->born) {
    memcpy((void *)cur, dur->cur, sizeof *cur); St got; vfs::Quiet q(false); int rc = sqlite3_open(DB, &db); INT_ERR(rc, "open after restart"); read_st(db, got); sqlite3_close(db); db = nullptr;
    SIM_CHECK(got == *cur, "durability", "after the restart the database holds%s, it should hold%s", show_st(got).c_str(), show_st(*cur).c_str()); sim::count("probe.restart-verified");
  } else { vfs::Quiet q(false); sqlite3_open(DB, &db); static const char *ps[] = {"pragma page_size=4096;", "pragma page_size=512;", "pragma page_size=1024;"}; raw(db, ps[mode % 3]); if (mode / 3 % 4 == 0) raw(db, "pragma encoding='UTF-16le'"); raw(db, "create table tmp(x); drop table tmp"); sqlite3_close(db); db = nullptr; dur->born = 1; save(*cur); }
  if (check) return;
  vfs::faults(faults); vfs::crash_after(crash_at);
  Steps stp(8, 40);
  while (stp.more()) {
    Span sp; if (faults && chance(1, 4)) vfs::nomem_at(1 + choose(chance(1, 3) ? 30 : 400), 1 + choose(3));
    if (chance(1, 4)) { // another connection reads or holds the write lock while the script runs
      vfs::Quiet q(false); if (other) { sqlite3_finalize(hold); hold = nullptr; raw(other, "rollback"); sqlite3_close(other); other = nullptr; ev("other connection gone"); }
      else { sqlite3_open(DB, &other); unsigned w = (unsigned)choose(3); if (w == 0) raw(other, "begin immediate"); else if (w == 1) { sqlite3_prepare_v2(other, "select * from sqlite_master union all select 1,2,3,4,5 union all select 6,7,8,9,10", -1, &hold, 0); sqlite3_step(hold); } else raw(other, "begin exclusive"); ev("other connection holds lock %d", vfs::lock_level(other)); }
    }
    bool drop = chance(1, 8), txn = drop || !chance(1, 4), nodir = chance(1, 16); int how = (int)choose(3); // 0 no connection returned, 1 opened by the call, 2 existing connection if there is one
    if (how == 2 && !db) how = 1; if (how == 2) nodir = false; if (how == 1 && db) { vfs::Quiet q(false); int rc = sqlite3_close(db); SIM_CHECK(rc == SQLITE_OK, "open-statement", "the connection cannot be closed: %d", rc); db = nullptr; }
    if (how == 2) { vfs::Quiet q(false); sqlite3_exec(db, "select count(*) from sqlite_master", 0, 0, 0); } // SQLite resolves names of triggers with the schema it knows: let it notice what other connections did
    string script; St full = *cur; legal->clear(); bool fails = false;
    if (drop) { memset((void *)&full, 0, sizeof full); legal->push_back(full); }
    else { int n = (int)choose(chance(1, 12) ? 60 : 7); bool good = chance(5, 6); if (chance(1, 16)) script = "/*" + string(draw_size(70000), 'w') + "*/"; for (int i = 0; i < n; i++) { Stm s = draw_stm(); for (int w = 0; good && w < 12; w++) { St t = full; if (apply(t, s)) break; s = draw_stm(); } script += sql_of(s); if (!fails && !apply(full, s)) { fails = true; } if (!txn && !fails) legal->push_back(full); } if (txn && !fails) legal->push_back(full); }
    bool null_script = !drop && chance(1, 20); if (null_script) { fails = false; legal->clear(); full = *cur; }
    const char *path = nodir ? "/sim/nodir/test.db" : DB;
    ev("%s how=%d%s%s%s: %.300s", drop ? "drop_all_tables" : null_script ? "init without script" : "init", how, txn ? " transaction" : "", nodir ? " bad path" : "", fails ? " (will fail)" : "", script.c_str());
    uint64_t f0 = vfs::fired(), b0 = vfs::busies(); int c0 = ncommit; St before = *cur; in_call = true;
    if ((fails && !nodir) || other) sim::expect_failstop(true);
    char *sc = (char *)sim::arena_alloc(script.size() + 1), *pt = (char *)sim::arena_alloc(strlen(path) + 1); strcpy(sc, script.c_str()); strcpy(pt, path); sqlite3 *was = db;
    if (drop) cee_sqlite3_drop_all_tables(how ? &db : nullptr, pt); else cee_sqlite3_init_db(how ? &db : nullptr, pt, null_script ? nullptr : sc, txn);
    in_call = false; sim::expect_failstop(false); bool fault = vfs::fired() != f0, busy = vfs::busies() != b0; ev("  returned%s%s%s", fault ? " (fault)" : "", busy ? " (busy)" : "", how ? db ? " a connection" : " no connection" : "");
    bool open_failed = how ? !db : nodir || (fault && *cur == before);
    if (open_failed) { SIM_CHECK(*cur == before, "failed-but-applied", "opening failed and the database changed"); SIM_CHECK(nodir || fault, "refused", "no connection is returned although nothing prevents it"); sim::count("probe.open-failed"); continue; }
    SIM_CHECK(!nodir, "open", "a database that cannot be opened is reported as open");
    SIM_CHECK(!fails, "unreported", "a script that fails is reported as done; the database holds%s", show_st(*cur).c_str());
    SIM_CHECK(*cur == full, "done-but-not-applied", "a script is reported as done; the database holds%s instead of%s", show_st(*cur).c_str(), show_st(full).c_str());
    SIM_CHECK(!txn || ncommit - c0 <= 1, "partial", "a script in a transaction commits %d times", ncommit - c0);
    if (!(before == full)) { sim::mark_nontrivial(); sim::count(drop ? "probe.dropped" : "probe.script-done"); }
    if (how) {
      SIM_CHECK(how != 2 || db == was, "connection", "the given connection is replaced");
      SIM_CHECK(sqlite3_get_autocommit(db), "transaction", "the connection is left in a transaction"); SIM_CHECK(!sqlite3_next_stmt(db, nullptr), "open-statement", "a statement is left open"); SIM_CHECK(vfs::lock_level(db) == 0, "lock", "a lock of level %d is left", vfs::lock_level(db));
      if (!other) { vfs::Quiet q(false); St got; read_st(db, got); SIM_CHECK(got == full, "connection", "the returned connection sees%s instead of%s", show_st(got).c_str(), show_st(full).c_str()); }
    }
  }
  vfs::faults(false); vfs::crash_after(0); if (other) { sqlite3_finalize(hold); raw(other, "rollback"); sqlite3_close(other); } if (db) { int rc = sqlite3_close(db); SIM_CHECK(rc == SQLITE_OK, "open-statement", "the connection cannot be closed: %d", rc); }
}
static void run() {
  sim::alloc_draw_config(); vfs::init(); dur = (Dur *)sim::durable_alloc(sizeof(Dur)); unsigned mode = (unsigned)choose(12); bool faults = chance(3, 5); vfs::draw(faults); bool crashy = chance(1, 2); vfs::Faults fr = vfs::rates; nx = chance(1, 3) ? NX : 4;
  for (int e = 0; e < 8; e++) {
    uint64_t at = crashy ? 1 + choose(chance(1, 2) ? 80 : 500) : 0; int r = sim::epoch([&]() { vfs::rates = fr; body(false, mode, at, faults); });
    if (r == 0 && !chance(1, 4)) break;
    if (r == 2) { sim::count("probe.stopped-on-failure"); ev("process stopped"); } if (r == 1) ev("crash");
    if (r == 1 || (r == 2 && chance(1, 3))) vfs::recover();
  }
  sim::epoch([&]() { body(true, mode, 0, false); });
}
#ifndef EMBED
namespace sim {
Harness harness = {"C16", run, 60000000, 6000, 300000,
  "one run = a seeded series of initialisation scripts (tables, indexes, triggers, rows; failing at a seeded statement or not; with and without transaction; with no, a new or an existing connection; also drop-all-tables and paths that cannot be opened) on a simulated disk with I/O errors, full disk, locks of another connection, SQLite allocation failures and up to eight crashes or stops with loss and tearing of unsynced sectors; non-trivial = at least one script that changed the database; distinct = distinct event history hash",
  {"sqlite3/cee-sqlite3.c", "cee (amalgamation)", "SQLite 3.45 (system library)"}, {"SQLite's VFS: disk, locks, clock, randomness", "SQLite's allocator", "malloc family of the library (simulated heap)"}};
}
#endif
#endif
