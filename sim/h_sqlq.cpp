// C18, C19, C21: queries, values bound from JSON, and joins of the SQLite binding.  The real library and the real
// SQLite run on a simulated disk with faults, lock contention and a concurrent writer.  Oracle: the same statement
// run through SQLite's own interface on an in-memory copy of each committed version of the database.
#include "ujson.h"
#include "vfs.h"
extern "C" {
#include "cee-sqlite3.h"
int cee_sqlite3_insert_wrapper(struct cee_sqlite3 *, struct cee_sqlite3_bind_info *, struct cee_sqlite3_bind_data *, struct cee_sqlite3_stmt_strs *, struct cee_json **);
int cee_sqlite3_select_wrapper(struct cee_sqlite3 *, struct cee_sqlite3_bind_info *, struct cee_sqlite3_bind_data *, struct cee_sqlite3_stmt_strs *, struct cee_json **);
}
static const char *DB = "/sim/test.db", *AUX = "/sim/aux.db";
static void quiet_stderr() { FILE *f = fopen("/dev/null", "w"); if (f) stderr = f; }
static int raw(sqlite3 *db, const string &sql) { return sqlite3_exec(db, sql.c_str(), 0, 0, 0); }
static void must(sqlite3 *db, const string &sql) { int rc = raw(db, sql); if (rc != SQLITE_OK) { fprintf(stderr, "harness: %s: %s\n", sql.c_str(), sqlite3_errmsg(db)); abort(); } }
static char *dup(const string &s) { char *p = (char *)sim::arena_alloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }

// ---- exact comparison ---------------------------------------------------------------------------------------
static bool same(const P &e, const P &g, bool ordered, string &why, const string &path = "$") {
  auto no = [&](const string &w) { why = path + ": " + w; return false; };
  if (e->t != g->t) return no(string(jtn[e->t]) + " expected, found " + jtn[g->t]);
  switch (e->t) {
    case JV::BOOL: if (e->b != g->b) return no("wrong boolean"); break;
    case JV::DBL: if (memcmp(&e->d, &g->d, 8)) return no(fmt("%.17g expected, found %.17g", e->d, g->d)); break;
    case JV::I64: if (e->i != g->i) return no(fmt("%lld expected, found %lld", (long long)e->i, (long long)g->i)); break;
    case JV::U64: if (e->u != g->u) return no("wrong unsigned integer"); break;
    case JV::STR: case JV::BLOB: case JV::STRN: if (e->s != g->s) return no(show(e->s) + " expected, found " + show(g->s)); break;
    case JV::ARR: for (size_t i = 0; i < e->a.size() && i < g->a.size(); i++) if (!same(e->a[i], g->a[i], ordered, why, path + fmt("[%zu]", i))) return false; if (e->a.size() != g->a.size()) return no(fmt("%zu elements expected, found %zu", e->a.size(), g->a.size())); break;
    case JV::OBJ:
      for (size_t i = 0; i < e->o.size(); i++) { int k = g->find(e->o[i].first); if (k < 0) return no("no member " + show(e->o[i].first)); if (ordered && k != (int)i) return no("member " + show(e->o[i].first) + " out of order"); if (!same(e->o[i].second, g->o[k].second, ordered, why, path + "." + e->o[i].first)) return false; }
      if (e->o.size() != g->o.size()) return no(fmt("%zu members expected, found %zu", e->o.size(), g->o.size())); break;
    default: break;
  }
  return true;
}
static void merge_into(const P &d, const P &s) { // recursive merge, as cee_json_merge documents it
  if (d->t == JV::ARR && s->t == JV::ARR) { for (auto &e : s->a) d->a.push_back(copy(e)); return; }
  if (d->t != JV::OBJ || s->t != JV::OBJ) return;
  for (auto &e : s->o) { int i = d->find(e.first); if (i < 0) d->o.push_back({e.first, copy(e.second)}); else if (d->o[i].second->t == e.second->t && e.second->box()) merge_into(d->o[i].second, e.second); else d->o[i].second = copy(e.second); }
}
static void put(const P &o, const string &k, const P &v) { int i = o->find(k); if (i < 0) o->o.push_back({k, v}); else o->o[i].second = v; }

// ---- versions ------------------------------------------------------------------------------------------------
struct Version { string main; };
static vector<Version> *vers; static string *auximg;
static void take() { size_t n; const unsigned char *b = vfs::bytes(DB, n); string s((const char *)b, n); if (vers->empty() || vers->back().main != s) { vers->push_back({s}); } }
struct Mem { sqlite3 *db = nullptr; ~Mem() { if (db) sqlite3_close(db); } };
static void load(sqlite3 *db, const char *schema, const string &img) { unsigned char *p = (unsigned char *)sqlite3_malloc64(img.size() + 1); memcpy(p, img.data(), img.size()); int rc = sqlite3_deserialize(db, schema, p, img.size(), img.size(), SQLITE_DESERIALIZE_FREEONCLOSE | SQLITE_DESERIALIZE_RESIZEABLE); if (rc != SQLITE_OK) { fprintf(stderr, "harness: deserialize %d\n", rc); abort(); } }
static void mem_open(Mem &m, const Version &v, bool aux) { sqlite3_open_v2(":memory:", &m.db, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE, 0); load(m.db, "main", v.main); if (aux) { must(m.db, "attach ':memory:' as aux1"); load(m.db, "aux1", *auximg); } }

// ---- parameters -----------------------------------------------------------------------------------------------
struct Par { string var, col; int ty; bool not_null = false, no_return = false, no_label = false, no_update = false; bool hasd = false, dnull = false, hasv = false, vnull = false; int64_t di = 0, vi = 0; string ds, vs; bool sized = false; };
static const enum cee_sqlite3_type TY[] = {CEE_SQLITE3_UNDEF, CEE_SQLITE3_INT, CEE_SQLITE3_INT64, CEE_SQLITE3_TEXT, CEE_SQLITE3_BLOB};
struct Bind { struct cee_sqlite3_bind_info *info = nullptr; struct cee_sqlite3_bind_data *data = nullptr; size_t n = 0, size = 0; };
static void fill_data(struct cee_sqlite3_bind_data &d, int ty, bool null, int64_t i, const string &s, bool sized) { d.has_value = 1; if (null) { d.is_null = 1; return; } if (ty == 1) d.i = (int)i; else if (ty == 2) d.i64 = i; else { d.value = dup(s); d.size = ty == 4 || (sized && !s.empty()) ? s.size() : 0; } }
static Bind bind_of(const vector<Par> &ps, bool data, const vector<Par> &cols = {}) { // cols: declarations of columns without a parameter
  Bind b; b.n = ps.size(); size_t m = ps.size() + cols.size() + 1; b.size = m * sizeof *b.info; b.info = (struct cee_sqlite3_bind_info *)sim::arena_alloc(b.size); memset(b.info, 0, b.size);
  if (data) { b.data = (struct cee_sqlite3_bind_data *)sim::arena_alloc((b.n ? b.n : 1) * sizeof *b.data); memset(b.data, 0, (b.n ? b.n : 1) * sizeof *b.data); }
  for (size_t i = 0; i < m - 1; i++) {
    const Par &p = i < ps.size() ? ps[i] : cols[i - ps.size()]; auto &x = b.info[i]; x.var_name = p.var.empty() ? nullptr : dup(p.var); x.col_name = p.col.empty() ? nullptr : dup(p.col); x.type = TY[p.ty]; x.not_null = p.not_null; x.no_return = p.no_return; x.no_label = p.no_label; x.no_update = p.no_update;
    if (p.hasd) fill_data(x.data, p.ty, p.dnull, p.di, p.ds, p.sized);
    if (data && i < b.n && p.hasv) fill_data(b.data[i], p.ty, p.vnull, p.vi, p.vs, p.sized);
  }
  return b;
}
struct Val { int t = 0; int64_t i = 0; string s; };  // 0 NULL 1 integer 3 text 4 blob
static string ws_lead() { string o; if (chance(1, 4)) for (int i = 0, n = 1 + (int)choose(3); i < n; i++) o += "\t\r\n\f "[choose(5)]; return o; } // white space before a statement
static Val value_of(const Par &p, bool insert, bool data = true) {
  Val v; bool has = data && p.hasv, null = has ? p.vnull : p.dnull; if (!has && !p.hasd) { if (insert && p.not_null) { v.t = p.ty <= 2 ? 1 : p.ty; } return v; }
  if (null) return v;
  v.t = p.ty <= 2 ? 1 : p.ty; v.i = has ? p.vi : p.di; if (p.ty == 1) v.i = (int)v.i; v.s = has ? p.vs : p.ds; return v;
}
static int bind_raw(sqlite3_stmt *q, int i, const Val &v) { switch (v.t) { case 1: return sqlite3_bind_int64(q, i, v.i); case 3: return sqlite3_bind_text(q, i, v.s.c_str(), (int)v.s.size(), SQLITE_TRANSIENT); case 4: return sqlite3_bind_blob(q, i, v.s.data(), (int)v.s.size(), SQLITE_TRANSIENT); default: return sqlite3_bind_null(q, i); } }

// ---- oracle ----------------------------------------------------------------------------------------------------
struct Res { bool ok = false; vector<P> rows; vector<vector<string>> keys; };
static bool cell_oom; // a value could not be allocated: SQLite reports it at the next step
static P cell(sqlite3_stmt *q, int i) {
  switch (sqlite3_column_type(q, i)) {
    case SQLITE_INTEGER: return ji64(sqlite3_column_int64(q, i)); case SQLITE_FLOAT: return jdbl(sqlite3_column_double(q, i));
    case SQLITE_TEXT: { const char *t = (const char *)sqlite3_column_text(q, i); cell_oom |= !t; return jstr(t ? t : ""); }
    case SQLITE_BLOB: { P p = jv(JV::BLOB); int n = sqlite3_column_bytes(q, i); const char *d = (const char *)sqlite3_column_blob(q, i); cell_oom |= !d && n; p->s.assign(d ? d : "", d ? n : 0); return p; }
    default: return jnull();
  }
}
struct Query { string sql; vector<Par> ps, cols; bool noinfo = false, nodata = false, aux = false, bad = false; };
static const Par *decl(const Query &q, const string &col) { if (q.noinfo) return nullptr; for (auto *v : {&q.ps, &q.cols}) for (auto &p : *v) if (p.col == col) return &p; return nullptr; }
static Res ask(const Query &q, const Version &v, const vector<Val> *vals = nullptr) {
  vfs::Quiet z(true); Mem m; mem_open(m, v, q.aux); Res r; sqlite3_stmt *s = nullptr; if (sqlite3_prepare_v2(m.db, q.sql.c_str(), -1, &s, 0) != SQLITE_OK) return r;
  for (int i = 1; i <= sqlite3_bind_parameter_count(s); i++) {
    const char *nm = sqlite3_bind_parameter_name(s, i); int at = -1; for (size_t k = 0; k < q.ps.size(); k++) if (nm && q.ps[k].var == nm) at = (int)k;
    if (at < 0 && !q.noinfo) { sqlite3_finalize(s); return r; } // a parameter that the binding does not declare
    if (at >= 0 && !q.noinfo) bind_raw(s, i, vals ? (*vals)[at] : value_of(q.ps[at], false, !q.nodata));
  }
  int rc, nc = sqlite3_column_count(s);
  while ((rc = sqlite3_step(s)) == SQLITE_ROW) {
    P o = jv(JV::OBJ), only; bool nl = false;
    for (int i = 0; i < nc; i++) { string n = sqlite3_column_name(s, i); const Par *d = decl(q, n); if (d && d->no_return) continue; nl = d && d->no_label; only = cell(s, i); put(o, n, only); }
    r.rows.push_back(nc == 1 && nl ? only : o);
  }
  r.ok = rc == SQLITE_DONE; if (!r.ok) r.rows.clear(); sqlite3_finalize(s); return r;
}

// ---- contents -------------------------------------------------------------------------------------------------
static string draw_long() { string t = draw_text(); if (chance(1, 200)) { size_t n = 65530 + choose(6000); while (t.size() < n) t += (char)('a' + (t.size() * 5) % 26); } else if (chance(1, 8)) { size_t n = choose(3000); while (t.size() < n) t += (char)('a' + (t.size() * 5) % 26); } return t; }
static string draw_blob() { string b; size_t n = chance(1, 200) ? 65530 + choose(6000) : chance(1, 6) ? choose(2500) : choose(20); uint64_t h = choose(256); for (size_t i = 0; i < n; i++) b += (char)sim::mix(h, i); return b; }
static string sq(const string &s) { string o = "'"; for (char c : s) { o += c; if (c == '\'') o += c; } return o + "'"; }
static string hexlit(const string &s) { string o = "x'"; for (unsigned char c : s) o += fmt("%02x", c); return o + "'"; }
static string lit(int kind) { switch (kind) { case 0: return "null"; case 1: { int64_t v = draw_i64(); return v == INT64_MIN ? "(-9223372036854775807-1)" : fmt("%lld", (long long)v); } case 2: { string t = fmt("%.17g", draw_dbl()); if (t.find_first_of(".e") == string::npos) t += ".0"; return t; } case 3: return sq(draw_long()); default: return hexlit(draw_blob()); } }
static string any_lit() { return lit((int)choose(5)); }
static string mb(int kind) { return chance(1, 7) ? "null" : lit(kind); }
static string key_text() { static const char *w[] = {"", "a", "b", "ab", "x y", "it's", "\xc3\xa9", "Z"}; return w[choose(8)]; }
static string row_q0(int64_t id) { return fmt("insert or replace into q0 values(%lld,", (long long)id) + (chance(1, 3) ? lit(1) : fmt("%d", (int)choose(6))) + "," + mb(2) + "," + (chance(1, 3) ? mb(3) : sq(key_text())) + "," + mb(4) + "," + any_lit() + ");"; }
static string row_q1(int64_t id) { return fmt("insert or replace into q1 values(%lld,%s,", (long long)id, chance(1, 8) ? "null" : fmt("%d", (int)choose(8)).c_str()) + (chance(1, 7) ? "null" : sq(key_text())) + "," + any_lit() + ");"; }
static int nq0, nq1; static const int WIDE = 300;
static void setup(unsigned mode) {
  vfs::Quiet q(false); sqlite3 *db = nullptr; static const char *ps[] = {"pragma page_size=4096;", "pragma page_size=512;", "pragma page_size=1024;"}; bool u16 = mode / 3 % 4 == 0; nq0 = (int)choose(chance(1, 4) ? 60 : 12); nq1 = (int)choose(20);
  for (int f = 0; f < 2; f++) {
    sqlite3_open(f ? AUX : DB, &db); must(db, ps[mode % 3]); if (u16) must(db, "pragma encoding='UTF-16le'");
    must(db, "begin"); must(db, "create table q0(id integer primary key, i integer, d double, t text, b blob, x); create table q1(id integer primary key, k integer, s text, x); create index q1k on q1(k);");
    if (!f) must(db, "create table s0(id integer primary key, a, b, c, e, u unique, f not null); create table s1(id integer primary key, a integer, b integer, c text, e text, u text unique, f integer not null); create table nn(v integer, w text); create table w(id integer primary key, i, j, t, b);"); if (!f) { string wd = "create table wd(id integer primary key"; for (int i = 0; i < WIDE; i++) wd += fmt(",c%d", i); must(db, wd + ")"); }
    for (int i = 0; i < (f ? 3 : nq0); i++) must(db, row_q0(1 + i)); for (int i = 0; i < (f ? 4 : nq1); i++) must(db, row_q1(1 + i)); if (!f && chance(1, 2)) must(db, fmt("pragma user_version=%d", (int)choose(1000)));
    must(db, "commit"); sqlite3_close(db); db = nullptr;
  }
  size_t n; const unsigned char *b = vfs::bytes(AUX, n); auximg = new string((const char *)b, n); vers = new vector<Version>; take();
}
static sqlite3 *lib_open(bool aux) {
  vfs::Quiet q(false); sqlite3 *db = nullptr; int rc = sqlite3_open(DB, &db); SIM_CHECK(rc == SQLITE_OK, "unreadable", "open fails: %d", rc);
  static const char *cache[] = {"pragma cache_size=100", "pragma cache_size=1", "pragma cache_size=4", "pragma cache_size=0"}; must(db, cache[choose(4)]); if (chance(1, 2)) must(db, "pragma temp_store=memory"); if (chance(1, 3)) sqlite3_busy_timeout(db, (int)choose(200));
  if (aux) must(db, string("attach '") + AUX + "' as aux1");
  return db;
}
// ---- reader under test -----------------------------------------------------------------------------------------
struct Kept { struct cee_json *j; P p; };
struct Conn { int no; struct cee_sqlite3 cs; sqlite3 *db; struct cee_state *st; vector<Kept> kept; };
static void conn_mk(Conn *c, int no) { c->no = no; c->st = cee_state_mk(10); c->db = lib_open(true); cee_sqlite3_init(&c->cs, dup("test.db"), dup(DB), c->st, c->db); }
static P shot(struct cee_json *j) { return j ? snapshot(j) : nullptr; }
static void clean(Conn *c, const char *what) { sqlite3_stmt *s = sqlite3_next_stmt(c->db, nullptr); SIM_CHECK(!s, "open-statement", "%s leaves a statement open: %s", what, sqlite3_sql(s)); SIM_CHECK(!sqlite3_get_autocommit(c->db) || vfs::lock_level(c->db) == 0, "lock", "%s leaves a lock of level %d", what, vfs::lock_level(c->db)); }
static void recheck(Conn *c) { // results are the caller's own: nothing later may change them
  for (auto &k : c->kept) { string why; P g = snapshot(k.j); SIM_CHECK(same(k.p, g, true, why), "result-changed", "an earlier result has changed: %s", why.c_str()); }
}
static void keep(Conn *c, struct cee_json *j) { if (!j || (j->t != CEE_JSON_ARRAY && j->t != CEE_JSON_OBJECT)) return; c->kept.push_back({j, copy(snapshot(j))}); cee_state_add_gc_root(c->st, j); if (c->kept.size() > 6) { cee_state_remove_gc_root(c->st, c->kept[0].j); c->kept.erase(c->kept.begin()); } }
static void housekeeping(Conn *c) { if (chance(1, 6)) { cee_state_gc(c->st); recheck(c); sim::count("probe.collected"); } }
struct Busy { uint64_t f, b; size_t v; Busy() : f(vfs::fired()), b(vfs::busies()), v(vers->size() - 1) {} bool excused() const { return vfs::fired() != f || vfs::busies() != b; } };
static bool has_error(const P &p) { return p && p->t == JV::OBJ && p->find("error") >= 0; }
static sqlite3 *other = nullptr; static sqlite3_stmt *hold = nullptr;
static void other_toggle() { // another connection reads, holds a write lock, or lets go
  vfs::Quiet q(false);
  if (other) { sqlite3_finalize(hold); hold = nullptr; raw(other, "rollback"); sqlite3_close(other); other = nullptr; ev("other connection gone"); return; }
  sqlite3_open(DB, &other); unsigned w = (unsigned)choose(3);
  if (w == 0) raw(other, "begin immediate"); else if (w == 1) { sqlite3_prepare_v2(other, "select * from sqlite_master", -1, &hold, 0); sqlite3_step(hold); } else raw(other, "begin exclusive");
  ev("other connection holds lock %d", vfs::lock_level(other));
}
static string draw_change() { switch (weighted({4, 3, 2, 2, 1})) { case 0: return row_q0(1 + (int64_t)choose(nq0 + 3)); case 1: return row_q1(1 + (int64_t)choose(nq1 + 3)); case 2: return fmt("delete from q0 where id=%d;", (int)choose(nq0 + 2)); case 3: return fmt("delete from q1 where id=%d;", (int)choose(nq1 + 2)); default: return fmt("update q0 set t=%s where id%%3=%d;", sq(draw_long()).c_str(), (int)choose(3)); } }
static void change() { vfs::Quiet q(false); sqlite3 *db = nullptr; sqlite3_open(DB, &db); string s = "begin;"; for (int i = 0, n = 1 + (int)choose(3); i < n; i++) s += draw_change(); raw(db, s + "commit"); sqlite3_close(db); if (vers->back().main.size()) take(); ev("other connection changes rows"); }

// ---- queries ----------------------------------------------------------------------------------------------------
static Par draw_par(const string &var, const string &col, int ty) {
  Par p; p.var = var; p.col = col; p.ty = ty; p.sized = chance(1, 2);
  auto val = [&](int64_t &i, string &s, bool &null) { null = chance(1, 10); if (ty <= 2) { i = chance(1, 4) ? draw_i64() : (int64_t)choose(12); if (ty == 1) i = (int)i; } else s = ty == 4 ? draw_blob() : chance(1, 4) ? draw_long() : key_text(); };
  unsigned w = weighted({4, 3, 2, 1}); p.hasv = w == 0 || w == 2; p.hasd = w == 1 || w == 2; if (p.hasv) val(p.vi, p.vs, p.vnull); if (p.hasd) val(p.di, p.ds, p.dnull); return p;
}
static Query draw_query(bool joinable = false) {
  Query q; q.aux = chance(1, 10); string a = q.aux ? "aux1." : ""; bool err = !joinable && chance(1, 14); q.noinfo = !joinable && chance(1, 6); q.nodata = !joinable && chance(1, 4);
  static const char *conds[] = {"id<@p", "i=@p", "t>=@s", "x is @p", "id in (select k from q1 where s=@s)", "b=@b", "t like @s", "i=@p and t=@s", "id>@p or t=@s", "@p is null", "i=:p", "i=$p"};
  string sql, where; vector<string> cols;
  unsigned form = weighted({8, 4, 2, 2, 2, 1, 1, 1}); int nw = 0;
  if (joinable) form = weighted({6, 5, 1, 1, 0, 0, 0, 1});
  if (form != 4 && form != 6 && !chance(1, 4)) where = conds[choose(12)];
  if (joinable && where.empty()) where = conds[1];
  string pre = form == 1 ? "q0." : "";
  auto fixed = [&]() { string w = where; if (w.empty()) return w; if (form == 1) { for (size_t i = 0; i < w.size(); i++) if ((w[i] == 'i' || w[i] == 't' || w[i] == 'x' || w[i] == 'b') && (i == 0 || w[i - 1] == ' ') && (i + 1 < w.size() && (w[i + 1] == '=' || w[i + 1] == '<' || w[i + 1] == '>' || w[i + 1] == ' ' || w[i + 1] == 'd')) && w.compare(i, 2, "in") && w.compare(i, 2, "is") && w.compare(i, 2, "th")) { if (w.compare(i, 2, "id") == 0 ? (i + 2 < w.size() && (w[i + 2] == '<' || w[i + 2] == '>' || w[i + 2] == ' ')) : true) { w.insert(i, "q0."); i += 4; } } } return " where " + w; };
  switch (form) {
    case 0: { static const char *cs[] = {"id", "i", "d", "t", "b", "x", "i+1 as \"i 1\"", "t||'!' as t2", "typeof(x) as ty", "zeroblob(id) as z", "length(b) as len", "null as no_thing", "t as error"}; int n = 1 + (int)choose(7); int st = (int)choose(13); for (int i = 0; i < n; i++) cols.push_back(cs[(st + i * 5) % 13]); break; }
    case 1: cols = {"q0.id as id", "q1.id as id2", "q1.s as s", "q1.x as x2", "q0.d as d"}; break;
    case 2: cols = {"count(*) as n", "max(t) as mt", "min(x) as mx", "total(d) as su"}; break;
    case 3: cols = {"x as x", "count(*) as n", "group_concat(id) as ids"}; break;
    case 4: cols = {"k", "k*1.5 as f"}; break;
    case 5: cols = {"id", "abs(i) as ab", "t"}; break;
    case 7: { int n = 1 + (int)choose(chance(1, 3) ? 140 : 40), every = 1 + (int)choose(6), most = (int)choose(24); for (int i = 0; i < n; i++) if (i % every == 0 && nw < most) { cols.push_back(fmt("@w%d as v%d", nw, i)); nw++; } else cols.push_back(fmt("id+%d as v%d", i, i)); break; } // wide rows, many parameters
    default: cols = {"42 as one", "'lone' as s", "x'00ff00' as b", "-1.5 as d"}; break;
  }
  if (!err && form == 7) {} else if (err) { static const char *bad[] = {"nosuch", "id from", "q0.*, nosuch(1)", "@undeclared"}; cols.push_back(bad[choose(4)]); if (cols.back() != "@undeclared" || !q.noinfo) q.bad = true; if (cols.back() == "@undeclared") cols.back() = "@undeclared as un"; }
  else if (chance(1, 10) && form < 4) cols = {cols[choose(cols.size())]};
  for (auto &c : cols) sql += (sql.empty() ? "" : ",") + c;
  switch (form) {
    case 0: case 5: case 7: sql = "select " + sql + " from " + a + "q0" + fixed() + (chance(1, 4) ? " order by t, id desc" : chance(1, 3) ? " order by id desc" : " order by id"); break;
    case 1: sql = "select " + sql + " from " + a + "q0 as q0 join " + a + "q1 as q1 on q1.k=q0.id%8" + fixed() + " order by q0.id, q1.id"; break;
    case 2: sql = "select " + sql + " from " + a + "q0" + fixed(); break;
    case 3: sql = "select " + sql + " from " + a + "q0" + fixed() + " group by x order by x, n"; break;
    case 4: { int n = (int)choose(chance(1, 30) ? 3000 : chance(1, 5) ? 400 : 20); sql = fmt("with recursive c(k) as (select 1 union all select k+1 from c where k<%d) select %s from c", n, sql.c_str()); sql = "select * from (" + sql + ")"; break; }
    default: sql = "select " + sql + (chance(1, 2) ? fixed() : ""); break;
  }
  if (form < 2 && chance(1, 5)) sql += fmt(" limit %d", (int)choose(5));
  if (chance(1, 8)) sql = " \n\t" + sql; if (chance(1, 16)) sql += " /*" + string(draw_size(9000), 'w') + "*/";
  q.sql = sql;
  // parameters: those of the statement, and some it does not use
  auto uses = [&](const char *v) { size_t at = sql.find(v); return at != string::npos; };
  struct { const char *v, *c; int t; } all[] = {{"@p", "i", 0}, {"@s", "t", 3}, {"@b", "b", 4}, {":p", "id", 0}, {"$p", "k", 0}, {"@idle", "d", 2}};
  for (auto &x : all) if (uses(x.v) || chance(1, 8)) { if (joinable && !uses(x.v)) continue; q.ps.push_back(draw_par(x.v, x.c, x.t ? x.t : 1 + (int)choose(2))); if (chance(1, 10)) q.ps.back().no_return = true; else if (chance(1, cols.size() == 1 ? 3 : 10)) q.ps.back().no_label = true; }
  int nth = 0; if (form == 7) for (auto &c : cols) { size_t at = c.find(" as v"); if (at == string::npos) continue; string n = c.substr(at + 4); bool own = c[0] == '@'; if (own) { q.ps.push_back(draw_par(fmt("@w%d", nth), chance(1, 3) ? n : fmt("k%d", nth), 1 + (int)choose(3))); nth++; } if ((own ? q.ps.back().col == n : !q.noinfo && chance(1, 12)) && chance(2, 3)) { if (own) q.ps.back().no_return = true; else { Par p; p.col = n; p.ty = 2; p.no_return = chance(1, 2); q.cols.push_back(p); } } }
  if (!q.ps.empty() && chance(1, 2)) std::reverse(q.ps.begin(), q.ps.end());
  if (!q.ps.empty() && !joinable && chance(1, 20)) { if (uses(q.ps.back().var.c_str()) && !q.noinfo) q.bad = true; q.ps.pop_back(); }
  static const char *names[] = {"id", "i", "t", "x", "n", "s", "id2", "ty", "k", "one", "error"}; if (!q.noinfo) for (int i = 0, n = (int)choose(4); i < n; i++) { Par p; p.col = names[choose(11)]; p.ty = 2; p.no_return = chance(1, 3); if (!p.no_return) p.no_label = chance(1, cols.size() == 1 ? 2 : 6); q.cols.push_back(p); }
  if (cols.size() == 1 && !q.noinfo && form < 3) { string n = cols[0]; size_t at = n.find(" as "); if (at != string::npos) n = n.substr(at + 4); if (!decl(q, n) && chance(1, 2)) { Par p; p.col = n; p.ty = 2; p.no_label = true; q.cols.push_back(p); } }
  return q;
}
static string qshow(const Query &q) { string o = q.sql; for (auto &p : q.ps) { Val v = value_of(p, false, !q.nodata); o += " " + p.var + "=" + (v.t == 0 ? "null" : v.t == 1 ? fmt("%lld", (long long)v.i) : show(v.s)); } for (auto &p : q.cols) o += " [" + p.col + (p.no_return ? " not returned" : p.no_label ? " no label" : "") + "]"; if (q.noinfo) o += " no info"; return o.substr(0, 400); }
#ifdef PROP_C18
struct It { struct cee_state *st; sqlite3 *db; int stop; vector<P> rows; bool badstate = false; const Query *q; };
static int on_row(void *x, struct cee_state *st, struct cee_sqlite3_bind_info *, sqlite3_stmt *s) {
  It *it = (It *)x; it->badstate |= st != it->st || sqlite3_db_handle(s) != it->db; P o = jv(JV::OBJ), only; bool nl = false; int nc = sqlite3_column_count(s);
  for (int i = 0; i < nc; i++) { string n = sqlite3_column_name(s, i); const Par *d = decl(*it->q, n); if (d && d->no_return) continue; nl = d && d->no_label; only = cell(s, i); put(o, n, only); }
  it->rows.push_back(nc == 1 && nl ? only : o); return it->stop && (int)it->rows.size() >= it->stop;
}
static void query_once(Conn *c, bool tasks) {
  Query q = draw_query(); unsigned how = weighted({6, 4, 3, 2, 2, 1, 1}); vector<P> dummy;
  if (how == 3 && q.noinfo) how = 0;
  unsigned mode = (unsigned)choose(4); // 0 no status, 1 empty status, 2-3 something there
  struct cee_json *status = nullptr; P before; int rc = 0;
  if (mode >= 2) { P p; if (how == 1) { p = jv(JV::OBJ); for (int i = 0, n = (int)choose(4); i < n; i++) { static const char *ks[] = {"id", "old", "t", "x", "n"}; put(p, ks[choose(5)], chance(1, 5) ? ji64(5) : draw_scalar()); } } else { p = jv(JV::ARR); for (int i = 0, n = (int)choose(4); i < n; i++) p->a.push_back(draw_scalar()); } before = copy(p); status = build(c->st, p); }
  struct cee_json **sp = mode ? &status : nullptr; Busy bz; bool loose = how == 1 && mode >= 2;
  if (how == 4) { // next_int
    string col = chance(1, 3) ? "v" : "i", from = col == "v" ? "from nn" : chance(1, 3) ? fmt("from q0 where id<%d", (int)choose(6)) : chance(1, 4) ? "from q0 where t like '%a%'" : "from q0"; bool bad = chance(1, 10); if (bad) from = "from nosuch"; bool full = chance(1, 8); if (full) from += string(from.find("where") == string::npos ? " where" : " and") + " length('" + string(2000, 'w') + "')>1";
    Query m; m.sql = "select max(" + col + ") as max_value " + from; m.noinfo = true; status = nullptr; sp = mode ? &status : nullptr; ev("c%d: next int of %s %.60s", c->no, col.c_str(), from.c_str());
    rc = cee_sqlite3_next_int(&c->cs, dup(col), dup(from), sp); clean(c, "next_int"); P st = shot(status); bool match = false; string exp;
    for (size_t v = bz.v; v < vers->size(); v++) { Res r = ask(m, (*vers)[v]); int64_t want = -1; bool err = !r.ok; if (r.ok) { P x = r.rows[0]->o[0].second; if (x->t == JV::NUL) want = 1; else if (x->t == JV::I64 && x->i >= INT32_MIN && x->i < INT32_MAX) want = x->i + 1; else err = true; } exp += fmt(" %lld%s", (long long)want, err ? " (error)" : ""); if (rc == want && (!mode || err == has_error(st))) match = true; }
    if (bz.excused() && rc == -1 && (!mode || has_error(st))) match = true;
    SIM_CHECK(match, "next-int", "next_int of %s returns %d%s, expected%s", col.c_str(), rc, has_error(st) ? " with an error" : "", exp.c_str()); sim::count("probe.next-int"); return;
  }
  if (how == 5) { // pragma
    if (bz.excused()) return; static const char *ns[] = {"user_version", "page_size", "cache_size", "foreign_keys", "nosuch_pragma"}; const char *n = ns[choose(5)]; sqlite3_stmt *s = nullptr; int want = 0; { vfs::Quiet z(false); sqlite3_prepare_v2(c->db, fmt("pragma %s", n).c_str(), -1, &s, 0); if (sqlite3_step(s) == SQLITE_ROW) want = sqlite3_column_int(s, 0); sqlite3_finalize(s); }
    rc = cee_sqlite3_get_pragma_variable(c->db, dup(n)); clean(c, "get_pragma_variable"); if (!bz.excused() && bz.v == vers->size() - 1 && !other) SIM_CHECK(rc == want, "pragma", "pragma %s gives %d instead of %d", n, rc, want); return;
  }
  if (how == 6) { // attach and detach
    if (tasks) return; char buf[160], *em = nullptr; Query m;
    if (chance(1, 3)) { // a buffer of any size: the statement fits, or nothing is done
      auto attached = [&](int &n) { vfs::Quiet z(false); sqlite3_stmt *s = nullptr; string o; n = 0; sqlite3_prepare_v2(c->db, "pragma database_list", -1, &s, 0); while (sqlite3_step(s) == SQLITE_ROW) { n++; o += fmt(" %s", (const char *)sqlite3_column_text(s, 1)); } sqlite3_finalize(s); return o; };
      string name = "s2" + string(choose(24), 'n'); size_t z = 1 + choose(110); char *b = (char *)sim::arena_alloc(z + 64); memset(b, 0x5a, z + 64); int n0, n1; string before = attached(n0), after;
      rc = cee_sqlite3_attach_db(&c->cs, dup("aux.db"), dup(name.c_str()), b, z, &em); sqlite3_free(em); em = nullptr; after = attached(n1); ev("c%d: attach as %s with %zu bytes -> %d", c->no, name.c_str(), z, rc); for (size_t i = z; i < z + 64; i++) SIM_CHECK(b[i] == 0x5a, "overflow", "attaching writes beyond its buffer of %zu bytes", z);
      if (rc != SQLITE_OK) { SIM_CHECK(before == after, "attach", "attaching %s with a buffer of %zu bytes fails, and leaves%s", name.c_str(), z, after.c_str()); SIM_CHECK(bz.excused() || z < 160 - 64, "refused", "attaching fails: %d", rc); sim::count("probe.attach-no-room"); return; }
      SIM_CHECK(after == before + " " + name, "attach", "attaching %s with a buffer of %zu bytes leads to%s", name.c_str(), z, after.c_str());
      if (chance(1, 2)) z = 1 + choose(60);
      rc = cee_sqlite3_detach_db(&c->cs, dup(name.c_str()), b, z, &em); sqlite3_free(em); after = attached(n1); SIM_CHECK(after == (rc == SQLITE_OK ? before : before + " " + name), "detach", "detaching %s leads to%s", name.c_str(), after.c_str()); if (rc != SQLITE_OK) { SIM_CHECK(bz.excused() || z < 60, "refused", "detaching fails: %d", rc); vfs::Quiet q(false); raw(c->db, fmt("detach %s", name.c_str()).c_str()); } sim::count("probe.attached"); return; }
    if (chance(1, 6)) { // from a database in memory
      vfs::Quiet z(false); struct cee_sqlite3 cs; sqlite3 *db = nullptr; if (sqlite3_open(":memory:", &db) != SQLITE_OK) { sqlite3_close(db); return; } cee_sqlite3_init(&cs, dup("m"), dup(":memory:"), c->st, db); rc = cee_sqlite3_attach_db(&cs, dup(AUX), dup("aux2"), buf, sizeof buf, &em); ev("attach to a database in memory -> %d %s", rc, em ? em : ""); bool enc = em && strstr(em, "text encoding"); sqlite3_free(em); em = nullptr; SIM_CHECK(rc == SQLITE_OK || enc || bz.excused() || other, "refused", "attaching to a database in memory fails: %d", rc);
      const char *an = sqlite3_db_filename(db, "aux2"); if (rc == SQLITE_OK) SIM_CHECK(an && !strcmp(an, AUX), "attach", "attaching %s to a database in memory attaches %s", AUX, an ? an : "nothing"); if (rc == SQLITE_OK) { rc = cee_sqlite3_detach_db(&cs, dup("aux2"), buf, sizeof buf, &em); SIM_CHECK(rc == SQLITE_OK, "refused", "detaching fails: %d", rc); } sqlite3_close(db); return; } m.sql = "select * from aux2.q1 order by id"; rc = cee_sqlite3_attach_db(&c->cs, dup(chance(1, 8) ? "nodir/x.db" : "aux.db"), dup("aux2"), buf, sizeof buf, &em); sqlite3_free(em); em = nullptr; ev("c%d: attach -> %d", c->no, rc); clean(c, "attach");
    if (rc != SQLITE_OK) { SIM_CHECK(bz.excused() || strstr(buf, "nodir"), "refused", "attaching fails: %d", rc); return; }
    SIM_CHECK(!strstr(buf, "nodir"), "attach", "attaching a database that cannot be opened succeeds"); Query w = m; w.aux = true; w.sql = "select * from aux1.q1 order by id"; Res r = ask(w, vers->back()); status = nullptr; rc = cee_sqlite3_select(&c->cs, nullptr, nullptr, dup(m.sql), &status); clean(c, "select"); P g = shot(status); string why;
    if (rc == SQLITE_DONE) { P e = jv(JV::ARR); e->a = r.rows; SIM_CHECK(g && same(e, g, true, why), "rows", "a query on an attached database: %s", why.c_str()); } else SIM_CHECK(bz.excused(), "refused", "a query on an attached database fails: %d", rc);
    rc = cee_sqlite3_detach_db(&c->cs, dup("aux2"), buf, sizeof buf, &em); sqlite3_free(em); if (rc != SQLITE_OK) { SIM_CHECK(bz.excused(), "refused", "detaching fails: %d", rc); vfs::Quiet z(false); raw(c->db, "detach aux2"); } else { sqlite3_stmt *s = nullptr; vfs::Quiet z(false); SIM_CHECK(sqlite3_prepare_v2(c->db, m.sql.c_str(), -1, &s, 0) != SQLITE_OK, "detach", "the database is still attached"); sim::count("probe.attached"); }
    return;
  }
  ev("c%d: %s status %u: %s", c->no, how == 0 ? "select" : how == 1 ? "select1" : how == 2 ? "select_iter" : "select_op", mode, qshow(q).c_str());
  cell_oom = false; It it{c->st, c->db, 0, {}, false, &q}; if (how == 2 && chance(1, 2)) it.stop = 1 + (int)choose(6);
  struct cee_json *input = nullptr; bool illq = false;
  if (how == 3) { // the values come from a JSON object
    q.nodata = false; P in = jv(JV::OBJ); bool dup_col = false; std::set<string> seen; for (auto &p : q.ps) { dup_col |= !seen.insert(p.col).second; p.hasv = p.vnull = false; if (p.ty == 4) continue; if (!chance(1, 5)) { bool n = chance(1, 8); if (chance(1, 10)) { illq = true; sim::count("probe.ill-typed-query"); put(in, p.col, p.ty <= 2 ? jstr(key_text()) : ji64((int64_t)choose(9))); continue; } P x = n ? jnull() : p.ty <= 2 ? ji64(p.ty == 1 ? (int)draw_i64() : chance(1, 2) ? (int64_t)choose(12) : draw_i64()) : jstr(key_text()); put(in, p.col, x); p.hasv = true; p.vnull = n; p.vi = x->i; p.vs = x->s; } } if (chance(1, 4)) put(in, "unknown", draw_scalar());
    input = build(c->st, in); Bind b = bind_of(q.ps, false, q.cols); b.data = (struct cee_sqlite3_bind_data *)sim::arena_alloc((b.n + 1) * sizeof *b.data); memset(b.data, 0, (b.n + 1) * sizeof *b.data);
    struct cee_sqlite3_stmt_strs ss; memset((void *)&ss, 0, sizeof ss); ss.table_name = dup("q0"); ss.select_stmt = dup(q.sql); struct cee_sqlite3_db_op op; memset((void *)&op, 0, sizeof op); op.info = b.info; op.data = b.data; op.stmts = &ss; rc = cee_sqlite3_select_op(&c->cs, &op, input, sp);
    { string why; P g = snapshot(input); SIM_CHECK(same(in, g, true, why), "input-changed", "the input of a query changed: %s", why.c_str()); }
  } else {
    Bind b; if (!q.noinfo) b = bind_of(q.ps, !q.nodata, q.cols);
    if (how == 0) { if (chance(1, 4)) { struct cee_sqlite3_stmt_strs ss; memset((void *)&ss, 0, sizeof ss); ss.select_stmt = dup(q.sql); rc = cee_sqlite3_select_wrapper(&c->cs, b.info, b.data, &ss, sp); } else rc = cee_sqlite3_select(&c->cs, b.info, b.data, dup(q.sql), sp); }
    else if (how == 1) rc = cee_sqlite3_select1(&c->cs, b.info, b.data, dup(q.sql), sp);
    else rc = cee_sqlite3_select_iter(&c->cs, b.info, b.data, dup(q.sql), &it, on_row, sp);
  }
  sim::no_preempt(1); struct NP { ~NP() { sim::no_preempt(-1); } } np;
  ev("  -> %d%s", rc, bz.excused() ? " (fault or lock)" : ""); clean(c, "a query"); P got = shot(status); string why;
  if (how == 2 && cell_oom && rc == SQLITE_DONE) { SIM_CHECK(it.stop && (int)it.rows.size() == it.stop, "unreported", "an allocation failure is not reported"); return; }
  bool anyok = false, anyerr = false, match = false; size_t nrows = 0; string tried;
  for (size_t v = bz.v; v < vers->size() && !match; v++) {
    Res r = ask(q, (*vers)[v]); if (illq) r.ok = false; (r.ok ? anyok : anyerr) = true; nrows = r.rows.size();
    if (how == 2 && it.stop && !r.ok) { match = rc == SQLITE_DONE && (int)it.rows.size() == it.stop; continue; } // stopped before the failing row
    if (!r.ok) continue;
    if (rc != SQLITE_DONE) continue;
    P e;
    if (how == 2) { e = jv(JV::ARR); e->a = r.rows; if (it.stop && (int)e->a.size() > it.stop) e->a.resize(it.stop); P g = jv(JV::ARR); g->a = it.rows; match = same(e, g, true, why) && (mode < 2 ? !got : same(before, got, true, why)); }
    else if (!sp) match = true;
    else if (how == 1) { if (r.rows.empty()) match = before ? got && same(before, got, true, why) : !got; else { P one = r.rows[0]; if (before) { e = copy(before); merge_into(e, one); } else e = one; match = got && same(e, got, !loose, why); } }
    else { e = before ? copy(before) : jv(JV::ARR); for (auto &x : r.rows) e->a.push_back(x); match = got && same(e, got, true, why); }
    tried += " {" + why + "}";
  }
  if (rc == SQLITE_DONE) {
    SIM_CHECK(match, anyok ? "rows" : "unreported", "%s: %s", qshow(q).c_str(), anyok ? ("the result matches no version of the database:" + tried).c_str() : "the query fails at some row and is reported as done");
    sim::count(it.stop ? "probe.stopped-early" : "probe.answered"); if (nrows) sim::mark_nontrivial(); sim::state(sim::mix(hstr(q.sql), nrows));
    if (nrows > 30) sim::count("probe.long-result");
  } else {
    SIM_CHECK(anyerr || bz.excused(), "refused", "%s: fails (%d) although nothing prevents it", qshow(q).c_str(), rc); SIM_CHECK(rc != SQLITE_OK && rc != SQLITE_ROW, "rc", "a failed query returns %d", rc);
    if (sp && (mode == 1 || how == 1)) { SIM_CHECK(has_error(got), "unreported", "%s: fails (%d) without an error in the status", qshow(q).c_str(), rc); if (mode >= 2) { P g = copy(got); g->o.erase(g->o.begin() + g->find("error")); SIM_CHECK(same(before, g, true, why), "status", "a failing query changes the status: %s", why.c_str()); } }
    else if (mode >= 2) SIM_CHECK(got && same(before, got, true, why), "status", "a failing query changes the array of rows: %s", why.c_str());
    sim::count(bz.excused() ? "probe.query-failed-by-fault" : "probe.query-failed");
  }
  SIM_CHECK(!it.badstate, "callback", "a row callback gets another state or statement"); 
  keep(c, status);
}
static void body(unsigned mode, bool tasks, bool faults) {
  vfs::start(); quiet_stderr(); other = nullptr; hold = nullptr; setup(mode); vfs::on_journal_end = [](const char *) { take(); }; vfs::on_fault = nullptr;
  if (chance(1, 3)) { vfs::Quiet q(false); sqlite3 *db = nullptr; sqlite3_open(DB, &db); must(db, chance(1, 3) ? "insert into nn values(2147483647,'')" : chance(1, 2) ? "insert into nn values(41,'x'),(-7,'y')" : "insert into nn values(null,'x')"); sqlite3_close(db); take(); }
  int n = tasks ? 1 + (int)choose(2) : 1; vector<Conn *> cs; for (int i = 0; i < n; i++) { cs.push_back(new Conn); conn_mk(cs[i], i); }
  vfs::faults(true); if (!faults) vfs::rates = vfs::Faults();
  if (tasks) {
    sim::Tasks t; for (int i = 0; i < n; i++) t.fns.push_back([&, i]() { Steps s(8, 24); while (s.more()) { if (faults && chance(1, 8)) vfs::nomem_at(1 + choose(400), 1 + choose(2)); query_once(cs[i], true); housekeeping(cs[i]); } });
    t.fns.push_back([&]() { sqlite3 *db = nullptr; { vfs::Quiet q(false); sqlite3_open(DB, &db); must(db, "pragma cache_size=2"); } Steps s(10, 30); while (s.more()) { string w = chance(1, 2) ? "begin;" : "begin immediate;"; for (int i = 0, k = 1 + (int)choose(4); i < k; i++) w += draw_change(); raw(db, w); if (raw(db, chance(1, 6) ? "rollback" : "commit") != SQLITE_OK) raw(db, "rollback"); sim::yield_point(); } vfs::Quiet q(false); raw(db, "rollback"); sqlite3_close(db); });
    static const unsigned qs[] = {60, 15, 4, 250}; t.run(qs[choose(4)]);
  } else { Steps s(14, 60); while (s.more()) { Span sp; if (faults && chance(1, 8)) vfs::nomem_at(1 + choose(400), 1 + choose(3)); if (chance(1, 12)) other_toggle(); if (!other && chance(1, 6)) change(); query_once(cs[0], false); housekeeping(cs[0]); } }
  vfs::faults(false); if (other) other_toggle(); for (auto c : cs) { recheck(c); int rc = sqlite3_close(c->db); SIM_CHECK(rc == SQLITE_OK, "open-statement", "the connection cannot be closed: %d", rc); cee_del(c->st); }
  SIM_CHECK(sim::live_blocks() == 0, "leak", "%d blocks outlive their state", sim::live_blocks());
}
static void run() { sim::alloc_draw_config(); vfs::init(); unsigned mode = (unsigned)choose(12); bool faults = chance(3, 5), tasks = chance(2, 5); vfs::draw(faults); vfs::Faults fr = vfs::rates; sim::epoch([&]() { vfs::rates = fr; body(mode, tasks, faults); }); }
#ifndef EMBED
namespace sim {
Harness harness = {"C18", run, 60000000, 5000, 250000,
  "one run = a seeded history of queries (select, select1, select_iter with early stops, select_op, next_int, pragma, attached databases) over tables of integers, doubles, texts, blobs and NULLs, with I/O errors, lock contention and SQLite allocation failures between rows, against rows of every version of the database that a concurrent writer commits meanwhile; non-trivial = a query with rows was answered",
  {"sqlite3/cee-sqlite3.c", "cee-json (amalgamation)", "cee (amalgamation)", "SQLite 3.45 (system library)"}, {"SQLite's VFS: disk, locks, clock, randomness", "SQLite's allocator", "malloc family of the library (simulated heap)"}};
}
#endif
#endif
#ifdef PROP_C19
// ---- C19: values bound from JSON ---------------------------------------------------------------------------------
static const char *COLS[] = {"id", "a", "b", "c", "e", "u", "f"}; static const int NC = 7;
typedef vector<P> Row; struct Tab { std::map<int64_t, Row> r; }; struct St { Tab t[2]; };
static bool u16db;
static St contents() {
  vfs::Quiet z(true); Mem m; mem_open(m, vers->back(), false); St s;
  for (int t = 0; t < 2; t++) { sqlite3_stmt *q = nullptr; if (sqlite3_prepare_v2(m.db, fmt("select id,a,b,c,e,u,f from s%d", t).c_str(), -1, &q, 0) != SQLITE_OK) violation("unreadable", "the database cannot be read: %s", sqlite3_errmsg(m.db)); int rc; while ((rc = sqlite3_step(q)) == SQLITE_ROW) { Row r; for (int i = 0; i < NC; i++) r.push_back(cell(q, i)); s.t[t].r[r[0]->i] = r; } SIM_CHECK(rc == SQLITE_DONE, "unreadable", "the database cannot be read: %s", sqlite3_errmsg(m.db)); sqlite3_finalize(q); }
  return s;
}
static bool req(const Row &a, const Row &b) { string w; for (int i = 0; i < NC; i++) if (!same(a[i], b[i], true, w)) return false; return true; }
static string rshow(const Row &r) { string o; for (int i = 0; i < NC; i++) { string t = text_of(r[i]); o += (o.empty() ? "" : ",") + (t.size() > 60 ? t.substr(0, 60) + ".." : t); } return "(" + o + ")"; }
static string sdiff(const St &a, const St &b) { // what b has that a does not, and the reverse
  string o; for (int t = 0; t < 2; t++) { for (auto &x : a.t[t].r) { auto i = b.t[t].r.find(x.first); if (i == b.t[t].r.end() || !req(x.second, i->second)) o += fmt(" -s%d", t) + rshow(x.second); } for (auto &x : b.t[t].r) { auto i = a.t[t].r.find(x.first); if (i == a.t[t].r.end() || !req(x.second, i->second)) o += fmt(" +s%d", t) + rshow(x.second); } } return o.substr(0, 900);
}
static P pval(const Val &v) { return v.t == 0 ? jnull() : v.t == 1 ? ji64(v.i) : v.t == 3 ? jstr(v.s) : [&]() { P p = jv(JV::BLOB); p->s = v.s; return p; }(); }
static bool do_insert(Tab &t, Row r, int64_t &id) {
  if (r[0]->t == JV::NUL) { id = 1; if (!t.r.empty()) { int64_t mx = t.r.rbegin()->first; if (mx == INT64_MAX) sim::discard("model: random row ids"); id = mx + 1; if (id < 1 && mx < 0) id = mx + 1; } r[0] = ji64(id); } else if (r[0]->t != JV::I64) return false; else id = r[0]->i;
  if (t.r.count(id) || r[6]->t == JV::NUL) return false; string w;
  if (r[5]->t != JV::NUL) for (auto &x : t.r) if (same(x.second[5], r[5], true, w)) return false;
  t.r[id] = r; return true;
}
static bool do_update(Tab &t, int64_t id, const vector<std::pair<int, P>> &set) {
  Row r = t.r[id]; Tab o = t; o.r.erase(id); for (auto &s : set) r[s.first] = s.second; int64_t x; if (r[0]->t == JV::NUL) return false; if (!do_insert(o, r, x)) return false; t = o; return true;
}
static string draw_t() { string s = draw_long(); if (u16db) for (const char *bad : {"\xef\xbf\xbe", "\xef\xbf\xbf", "\xef\xbb\xbf"}) { size_t at; while ((at = s.find(bad)) != string::npos) s.replace(at, 3, "?"); } return s; }
static P val_for(int ty, bool wrong) {
  if (wrong) switch (choose(6)) { case 0: return jbool(chance(1, 2)); case 1: return jdbl(draw_dbl()); case 2: return ty == 3 ? ji64(5) : jstr("5"); case 3: return ju64(1ull << 63 | choose(9)); case 4: { P o = jv(JV::OBJ); put(o, "a", ji64(1)); return o; } default: return ty == 1 ? ji64((int64_t)INT32_MAX + 1 + (int64_t)choose(3)) : jv(JV::ARR); }
  if (ty == 1) return ji64(chance(1, 2) ? (int64_t)(int)draw_i64() : (int64_t)choose(30)); if (ty == 2) return ji64(draw_i64()); return jstr(chance(1, 2) ? key_text() : draw_t());
}
static bool fits(const P &v, int ty) { return v->t == JV::NUL || (ty == 1 ? v->t == JV::I64 && v->i == (int)v->i : ty == 2 ? v->t == JV::I64 : ty == 3 ? v->t == JV::STR : false); }
static vector<string> strings_of(const P &p) { vector<string> r; if (p && p->t == JV::ARR) for (auto &e : p->a) r.push_back(e->s); std::sort(r.begin(), r.end()); return r; }
static string join(const vector<string> &v) { string o; for (auto &s : v) o += (o.empty() ? "" : ",") + s; return o; }
static int col_of(const string &n) { for (int i = 0; i < NC; i++) if (n == COLS[i]) return i; return -1; }
static int64_t draw_id(const Tab &t) { if (!t.r.empty() && chance(2, 3)) { auto i = t.r.begin(); std::advance(i, choose(t.r.size())); return i->first; } return chance(1, 6) ? 4000000000ll + (int64_t)choose(5) : 1 + (int64_t)choose(25); }
// the binding without JSON: every declared type, sizes, NULL flags, defaults, and slots without a value that hold something
static std::map<int64_t, Row> wrows() {
  vfs::Quiet z(true); Mem m; mem_open(m, vers->back(), false); std::map<int64_t, Row> r; sqlite3_stmt *q = nullptr; if (sqlite3_prepare_v2(m.db, "select id,i,j,t,b from w", -1, &q, 0) != SQLITE_OK) violation("unreadable", "the database cannot be read: %s", sqlite3_errmsg(m.db));
  int rc; while ((rc = sqlite3_step(q)) == SQLITE_ROW) { Row x; for (int i = 0; i < 5; i++) x.push_back(cell(q, i)); r[x[0]->i] = x; } SIM_CHECK(rc == SQLITE_DONE, "unreadable", "the database cannot be read: %s", sqlite3_errmsg(m.db)); sqlite3_finalize(q); return r;
}
static void direct_once(Conn *c) {
  static const char *WC[] = {"id", "i", "j", "t", "b"}; static const int WT[] = {2, 1, 2, 3, 4}; std::map<int64_t, Row> cur = wrows(), exp = cur; bool upd = !cur.empty() && chance(2, 5); vector<Par> ps; string cols, vals, sets; Row r(5); for (auto &x : r) x = jnull(); bool loose[5] = {}; int off = (int)choose(5); vector<int> ord;
  int64_t key = cur.empty() ? 0 : [&]() { auto i = cur.begin(); std::advance(i, choose(cur.size())); return i->first; }();
  for (int k = 0; k < 5; k++) {
    int ci = (off + 2 * k) % 5; if (ci ? chance(1, 8) : !upd && chance(1, 2)) continue; Par p = draw_par(string(1, "@:$"[choose(3)]) + WC[ci], WC[ci], WT[ci]); if (ci == 3) { if (u16db) { auto fix = [](string &s) { for (const char *bad : {"\xef\xbf\xbe", "\xef\xbf\xbf", "\xef\xbb\xbf"}) { size_t at; while ((at = s.find(bad)) != string::npos) s.replace(at, 3, "?"); } }; fix(p.vs); fix(p.ds); } }
    p.not_null = chance(1, 3); if (!ci) { p.not_null = p.vnull = p.dnull = false; if (upd) { p.hasv = true; p.hasd = chance(1, 3); p.vi = key; } else if (p.hasv) p.vi = draw_id(Tab()); }
    ps.push_back(p); ord.push_back(ci); if (!upd || ci) { cols += (cols.empty() ? "" : ",") + p.col; vals += (vals.empty() ? "" : ",") + p.var; sets += (sets.empty() ? "" : ",") + p.col + "=" + p.var; }
  }
  if (cols.empty()) return; string idv; for (auto &p : ps) if (p.col == "id") idv = p.var; if (upd && idv.empty()) return;
  Bind b = bind_of(ps, true); string desc;
  for (size_t k = 0; k < ps.size(); k++) {
    Par &p = ps[k]; int ci = ord[k]; auto &d = b.data[k]; auto &dd = b.info[k].data;
    if (!p.hasv && chance(1, 2)) { d.i = 77; d.i64 = 0x7700000077ll; d.value = dup("left over"); d.size = 4; d.is_null = chance(1, 2); } if (!p.hasd && chance(1, 3)) { dd.i = 78; dd.i64 = 0x7800000078ll; dd.value = dup("left over too"); }
    // a flag that a column which cannot be NULL ignores
    bool has = p.hasv, null = has ? p.vnull : p.hasd && p.dnull; auto &u = has ? d : dd; if (p.not_null && null) { u.i = 5; u.i64 = 5; u.value = dup("five"); u.size = 4; loose[ci] = true; }
    // the size says how much of the text counts
    if (p.ty == 3 && (has || p.hasd) && !null && chance(1, 3)) { string &s = has ? p.vs : p.ds; if (s.size() > 1) { size_t n = 1 + choose(s.size() - 1); while (n < s.size() && (s[n] & 0xc0) == 0x80) n++; u.size = n; s.resize(n); } }
    Val v = value_of(p, !upd); if (!loose[ci]) r[ci] = pval(v); string t = text_of(r[ci]); desc += " " + p.col + "=" + (loose[ci] ? "(flagged null)" : t.substr(0, 40)) + (p.not_null ? " not null" : "");
  }
  Busy bz; struct cee_json *status = nullptr; bool ws = chance(3, 4); string sql; int rc; unsigned how = (unsigned)choose(3); int64_t id = 0;
  bool undecl = chance(1, 10);
  if (upd) { sql = "update w set " + sets + " where id=" + idv + (undecl ? " and @zz is null" : ""); if (how) { struct cee_sqlite3_stmt_strs ss; memset((void *)&ss, 0, sizeof ss); ss.table_name = dup("w"); ss.select_stmt = dup("select 1 from w where id=" + idv); ss.update_stmt = dup(sql); rc = cee_sqlite3_update(&c->cs, b.info, b.data, &ss, ws ? &status : nullptr); } else rc = cee_sqlite3_bind_run_sql(&c->cs, b.info, b.data, dup(sql), nullptr, ws ? &status : nullptr); }
  else { sql = ws_lead() + "insert into w(" + cols + ")" + (undecl ? " select " + vals + " where @zz is null" : " values(" + vals + ")"); rc = how ? cee_sqlite3_insert(&c->cs, b.info, b.data, dup(sql), &status, nullptr, nullptr) : cee_sqlite3_bind_run_sql(&c->cs, b.info, b.data, dup(sql), nullptr, ws ? &status : nullptr); }
  ev("%s:%s -> %d%s", sql.c_str(), desc.c_str(), rc, bz.excused() ? " (fault or lock)" : ""); clean(c, "a bound statement"); std::map<int64_t, Row> got = wrows();
  if (undecl) { SIM_CHECK(rc != SQLITE_DONE && rc != SQLITE_OK && rc != SQLITE_ROW, "unreported", "%s, whose parameter @zz is not declared, is not refused (%d)", sql.c_str(), rc); for (auto &k : cur) for (int i = 0; i < 5; i++) { string why; SIM_CHECK(got.size() == cur.size() && got.count(k.first) && same(k.second[i], got[k.first][i], true, why), "failed-but-applied", "%s is refused and changes the table", sql.c_str()); }
    if (ws || (!upd && how)) SIM_CHECK(bz.excused() || (status && cee_json_select(status, dup(".error"))), "unreported", "%s is refused (%d) and the status shows no error", sql.c_str(), rc); sim::count("probe.undeclared-parameter"); return; }
  bool can = true; if (upd) id = key; else if (r[0]->t == JV::I64) { id = r[0]->i; can = !cur.count(id); } else { id = cur.empty() ? 1 : cur.rbegin()->first == INT64_MAX ? 0 : cur.rbegin()->first + 1; if (!cur.empty() && cur.rbegin()->first == INT64_MAX) return; }
  if (rc != SQLITE_DONE) { SIM_CHECK(!can || bz.excused(), "refused", "%s fails (%d) although nothing prevents it", sql.c_str(), rc); SIM_CHECK(got.size() == cur.size(), "failed-but-applied", "%s fails (%d) and changes the table", sql.c_str(), rc); return; }
  SIM_CHECK(can, "unreported", "%s is reported as done for a row that exists", sql.c_str()); SIM_CHECK(got.count(id) && got.size() == cur.size() + (upd ? 0 : 1), "stored", "%s is reported as done, row %lld is %s, %zu rows", sql.c_str(), (long long)id, got.count(id) ? "there" : "missing", got.size());
  Row want = upd ? cur[id] : Row(5, jnull()); want[0] = ji64(id); for (size_t k = 0; k < ps.size(); k++) if (ord[k]) want[ord[k]] = r[ord[k]]; string why;
  for (int i = 0; i < 5; i++) if (loose[i]) SIM_CHECK(got[id][i]->t != JV::NUL, "stored", "%s:%s stores NULL in %s, which is declared not null", sql.c_str(), desc.c_str(), WC[i]); else SIM_CHECK(same(want[i], got[id][i], true, why), "stored", "%s:%s: column %s: %s", sql.c_str(), desc.c_str(), WC[i], why.c_str());
  sim::mark_nontrivial(); sim::count("probe.bound-directly");
}
// many columns, many members, many objects
static std::map<int64_t, Row> wide_rows() {
  vfs::Quiet z(true); Mem m; mem_open(m, vers->back(), false); std::map<int64_t, Row> r; sqlite3_stmt *q = nullptr; if (sqlite3_prepare_v2(m.db, "select * from wd", -1, &q, 0) != SQLITE_OK) violation("unreadable", "the database cannot be read: %s", sqlite3_errmsg(m.db));
  int rc; while ((rc = sqlite3_step(q)) == SQLITE_ROW) { Row x; for (int i = 0; i <= WIDE; i++) x.push_back(cell(q, i)); r[x[0]->i] = x; } SIM_CHECK(rc == SQLITE_DONE, "unreadable", "the database cannot be read: %s", sqlite3_errmsg(m.db)); sqlite3_finalize(q); return r;
}
static string wide_diff(const std::map<int64_t, Row> &a, const std::map<int64_t, Row> &b) { // "" when equal
  string why; for (auto &x : a) { auto i = b.find(x.first); if (i == b.end()) return fmt("row %lld is missing", (long long)x.first); for (int k = 0; k <= WIDE; k++) if (!same(x.second[k], i->second[k], true, why)) return fmt("row %lld, column %d: ", (long long)x.first, k - 1) + why; } return a.size() == b.size() ? "" : fmt("%zu rows instead of %zu", b.size(), a.size());
}
static P wide_value() { return chance(1, 16) ? jnull() : chance(1, 2) ? ji64(chance(1, 6) ? draw_i64() : (int64_t)choose(1000)) : jstr(chance(1, 24) ? draw_t() : key_text()); }
static void wide_once(Conn *c) {
  std::map<int64_t, Row> cur = wide_rows(), exp = cur, got; unsigned kind = (unsigned)choose(5); Busy bz; string what, why; int rc; bool can = true;
  auto obj = [&](int64_t id, int n, int st) { P o = jv(JV::OBJ); if (chance(1, 2)) put(o, "id", ji64(id)); for (int i = 0; i < n; i++) put(o, fmt("c%d", (st + i * 7) % WIDE), wide_value()); if (o->find("id") < 0) put(o, "id", ji64(id)); return o; };
  auto cols = [&](bool all) { int n = 1 + (int)choose(all ? WIDE : 60); return std::min(n, WIDE); };
  auto add = [&](const P &o) { int64_t id = o->o[o->find("id")].second->i; if (exp.count(id)) return false; Row r(WIDE + 1, jnull()); r[0] = ji64(id); for (auto &m : o->o) if (m.first != "id") r[1 + atoi(m.first.c_str() + 1)] = m.second; exp[id] = r; return true; };
  int64_t fresh = cur.empty() ? 1 : cur.rbegin()->first + 1, some = cur.empty() || chance(1, 8) ? fresh : [&]() { auto i = cur.begin(); std::advance(i, choose(cur.size())); return i->first; }();
  if (kind == 0) { // an array
    int n = (int)choose(chance(1, 3) ? 60 : 12), w = cols(n < 8); P arr = jv(JV::ARR); for (int i = 0; i < n; i++) arr->a.push_back(obj(fresh + i, chance(1, 3) ? (int)choose(w + 1) : w, (int)choose(WIDE)));
    ev("insert_json_array wd: %d objects of up to %d members", n, w); struct cee_json *j = build(c->st, arr); rc = cee_sqlite3_insert_json_array(&c->cs, dup("wd"), j); ev("  -> %d%s", rc, bz.excused() ? " (fault or lock)" : ""); clean(c, "insert_json_array"); got = wide_rows();
    if (rc) { SIM_CHECK(bz.excused(), "refused", "inserting an array of %d objects fails (%d) although nothing prevents it", n, rc); bool ok = false; for (int i = 0; i <= n && !ok; i++) { if (i) add(arr->a[i - 1]); ok = wide_diff(exp, got).empty(); } SIM_CHECK(ok, "stored", "inserting an array stops with %d and leaves something else than its first objects", rc); return; }
    for (auto &o : arr->a) add(o); string d = wide_diff(exp, got); SIM_CHECK(d.empty(), "stored", "inserting an array of %d objects is reported as done: %s", n, d.c_str()); if (n) { sim::mark_nontrivial(); sim::count("probe.wide-array"); } return;
  }
  if (kind == 4) { if (cur.size() < 40) return; vfs::Quiet q(false); sqlite3 *db = nullptr; sqlite3_open(DB, &db); raw(db, "delete from wd"); sqlite3_close(db); take(); return; }
  int w = cols(true), st = (int)choose(WIDE); int64_t id = kind == 1 ? chance(1, 8) ? some : fresh : some; P o = obj(id, w, st); bool exists = cur.count(id), tmpl = kind == 2, dynamic = chance(1, 2), ws = tmpl || chance(2, 3), noinfo = chance(1, 4);
  vector<Par> ps; for (auto &m : o->o) { Par p; p.col = m.first; p.var = "@" + m.first; p.ty = m.second->t == JV::STR ? 3 : 2; ps.push_back(p); } for (int i = 0, n = noinfo ? 0 : (int)choose(8); i < n; i++) { Par p; p.col = fmt("c%d", (st + (w + i) * 7) % WIDE); if (o->find(p.col) >= 0) continue; p.var = "@" + p.col; p.ty = 2; ps.push_back(p); } if (chance(1, 2)) std::reverse(ps.begin(), ps.end());
  Bind b = bind_of(ps, false); b.data = (struct cee_sqlite3_bind_data *)sim::arena_alloc((b.n + 1) * sizeof *b.data); memset(b.data, 0, (b.n + 1) * sizeof *b.data);
  struct cee_sqlite3_stmt_strs ss; memset((void *)&ss, 0, sizeof ss); ss.table_name = dup("wd"); string il, iv, us; for (auto &p : ps) { il += (il.empty() ? "" : ",") + p.col; iv += (iv.empty() ? "" : ",") + p.var; if (p.col != "id") us += (us.empty() ? "" : ",") + p.col + "=" + p.var; }
  if (dynamic) ss.insert_dynamic = true; else ss.insert_stmt = dup("insert into wd (" + il + ") values (" + iv + ")"); if (tmpl) ss.update_template = dup("update wd set %s where id=@id"); else ss.update_stmt = dup("update wd set " + us + " where id=@id"); ss.select_stmt = dup("select id from wd where id=@id");
  if (!tmpl && us.empty()) return; struct cee_sqlite3_db_op op; memset((void *)&op, 0, sizeof op); op.info = b.info; op.data = b.data; op.stmts = &ss; struct cee_json *status = nullptr, *j = build(c->st, o); if (noinfo) { op.info = nullptr; op.data = nullptr; sim::count("probe.wide-without-info"); } else if (chance(1, 3)) { struct cee_sqlite3_db_op *o2 = new_cee_sqlite3_db_op(c->st, &op, b.size); op = *o2; }
  ev("%s wd: %zu members, %zu columns%s%s%s", kind == 1 ? "insert_op" : kind == 2 ? "update_op" : "update_or_insert_op", o->o.size(), ps.size(), dynamic ? " dynamic" : "", tmpl ? " template" : "", noinfo ? " no info" : "");
  rc = kind == 1 ? cee_sqlite3_insert_op(&c->cs, &op, j, ws ? &status : nullptr) : kind == 2 ? cee_sqlite3_update_op(&c->cs, &op, j, ws ? &status : nullptr) : cee_sqlite3_update_or_insert_op(&c->cs, &op, j, ws ? &status : nullptr);
  ev("  -> %d%s", rc, bz.excused() ? " (fault or lock)" : ""); clean(c, "a call with many columns"); got = wide_rows();
  if (kind == 1 || (kind == 3 && !exists)) can = add(o);
  else if (exists) { Row &r = exp[id]; for (auto &p : ps) if (p.col != "id") { int at = o->find(p.col); if (at >= 0 || !tmpl) { size_t k = 1 + (size_t)atoi(p.col.c_str() + 1); r[k] = at >= 0 ? o->o[at].second : jnull(); } } }
  if (rc != SQLITE_DONE) { SIM_CHECK(!can || bz.excused(), "refused", "storing %zu members fails (%d) although nothing prevents it", o->o.size(), rc); string d = wide_diff(cur, got); SIM_CHECK(d.empty(), "failed-but-applied", "storing %zu members fails (%d) and changes the table: %s", o->o.size(), rc, d.c_str()); return; }
  SIM_CHECK(can, "unreported", "inserting a row that exists is reported as done"); string d = wide_diff(exp, got); SIM_CHECK(d.empty(), "stored", "storing %zu members is reported as done: %s", o->o.size(), d.c_str());
  if (ws && !noinfo) { P s = shot(status); int at = s->find("debug"); SIM_CHECK(at >= 0, "report", "no debug information"); P dbg = s->o[at].second; at = dbg->find("used_keys"); SIM_CHECK(at >= 0 && dbg->o[at].second->a.size() == o->o.size(), "used-keys", "%zu used keys are reported, expected %zu", at < 0 ? 0 : dbg->o[at].second->a.size(), o->o.size()); }
  if (exp.count(id)) { sim::mark_nontrivial(); sim::count("probe.wide-row"); }
  if (exp.count(id) && chance(1, 2)) { Busy b2; Par p; p.var = "@id"; p.col = "id"; p.ty = 2; p.hasd = true; p.di = id; Bind rb = bind_of({p}, false); struct cee_json *one = nullptr; int r2 = cee_sqlite3_select1(&c->cs, rb.info, nullptr, dup("select * from wd where id=@id"), &one); clean(c, "select1"); if (r2 != SQLITE_DONE) { SIM_CHECK(b2.excused(), "refused", "reading the row back fails: %d", r2); return; } P want = jv(JV::OBJ); for (int i = 0; i <= WIDE; i++) put(want, i ? fmt("c%d", i - 1) : "id", exp[id][i]); SIM_CHECK(one && same(want, snapshot(one), true, why), "read-back", "a stored row reads back as: %s", why.c_str()); }
}
static void store_once(Conn *c) {
  if (chance(1, 6)) { direct_once(c); return; } if (chance(1, 14)) { wide_once(c); return; }
  St cur = contents(); int t = (int)choose(2); Tab &T = cur.t[t]; string tn = fmt("s%d", t); unsigned kind = weighted({4, 5, 3, 4, 3, 5, 5, 2, 2}); bool info = kind != 6 && kind != 7;
  // declarations and values
  vector<Par> ps; P in = jv(JV::OBJ); bool ill = false; vector<string> used, unused; int ord = (int)choose(NC); bool upd = kind >= 2 && kind <= 5, bare = kind >= 3 && kind <= 5 && chance(1, 5); // bare: nothing but the key
  for (int k = 0; k < NC; k++) {
    int ci = (ord + k * 3) % NC; if (info && ci && chance(1, 7)) { if (chance(1, 2)) { put(in, COLS[ci], val_for(2, chance(1, 3))); unused.push_back(COLS[ci]); } continue; }
    Par p; p.var = string("@") + COLS[ci]; p.col = COLS[ci]; static const int ty1[] = {2, 1, 2, 3, 3, 3, 1}; p.ty = ci == 0 ? 1 + (int)choose(2) : t ? (ci == 6 ? 1 + (int)choose(2) : ty1[ci]) : 1 + (int)choose(3); p.sized = chance(1, 2);
    p.not_null = ci == 6 ? !chance(1, 5) : chance(1, 4); p.no_update = chance(1, 6); if (info && ci && chance(1, 30)) { p.ty = 4; p.not_null = false; }
    if (info && ci && chance(1, 4)) { p.hasd = true; p.dnull = !p.not_null && chance(1, 8); P v = p.ty == 4 ? jv(JV::BLOB) : val_for(p.ty, false); p.di = v->i; p.ds = p.ty == 4 ? draw_blob() : v->s; }
    if (ci == 0 ? upd || chance(1, 3) : !chance(1, 4) && !(bare && chance(7, 8))) {
      bool null = ci && chance(1, 8), wrong = !null && info && chance(1, 30); if (p.not_null && p.hasd && upd) null = false;
      P v = null ? jnull() : ci == 0 && !wrong ? ji64(p.ty == 1 ? (int)draw_id(T) : draw_id(T)) : val_for(p.ty == 4 ? 3 : p.ty, wrong); if (!info) { if (t == 0 && !null && chance(1, 3) && ci) v = chance(1, 2) ? jstr(draw_t()) : ji64(draw_i64()); p.ty = v->t == JV::I64 ? 2 : 3; }
      put(in, COLS[ci], v); if (!fits(v, p.ty)) ill = true; else if (v->t == JV::NUL && p.not_null && info) {} else { used.push_back(p.col); p.hasv = true; p.vnull = v->t == JV::NUL; p.vi = v->i; p.vs = v->s; }
    } else if (!info) continue;
    ps.push_back(p);
  }
  bool nocol = false; if (chance(1, 4)) { if (info) { string k = chance(1, 3) ? draw_text() : chance(1, 2) ? "nosuch" : "A"; if (col_of(k) < 0 && in->find(k) < 0 && k != "error") { put(in, k, draw_scalar()); unused.push_back(k); } } else if (chance(1, 4)) { P v = ji64(3); put(in, "nosuch", v); Par p; p.var = "@nosuch"; p.col = "nosuch"; p.ty = 2; p.hasv = true; p.vi = 3; ps.push_back(p); nocol = true; } }
  std::sort(used.begin(), used.end()); std::sort(unused.begin(), unused.end());
  auto par = [&](const string &col) -> Par * { for (auto &p : ps) if (p.col == col) return &p; return nullptr; };
  Busy bz;
  if (kind == 8) { // binding only
    Bind b = bind_of(ps, false); b.data = (struct cee_sqlite3_bind_data *)sim::arena_alloc((b.n + 1) * sizeof *b.data); memset(b.data, 0, (b.n + 1) * sizeof *b.data); struct cee_json *j = build(c->st, in), *u = nullptr, *nu = nullptr, *er = nullptr; bool lists = !chance(1, 4); struct cee_json *given[3] = {nullptr, nullptr, nullptr}, **lp[3] = {&u, &nu, &er}; if (lists) for (int i = 0; i < 3; i++) if (chance(1, 3)) { *lp[i] = given[i] = cee_json_array_mk(c->st, 1); cee_json_array_append_strf(given[i], "earlier"); } // what is in a list stays
    ev("bind_data_from_json %s", text_of(in).substr(0, 200).c_str()); cee_sqlite3_bind_data_from_json(b.info, b.data, j, lists ? &u : nullptr, lists ? &nu : nullptr, lists ? &er : nullptr);
    if (lists) { SIM_CHECK(u && nu && er, "binding", "a list is not returned"); for (int i = 0; i < 3; i++) if (given[i]) { SIM_CHECK(*lp[i] == given[i], "binding", "a given list is replaced"); P l = snapshot(given[i]); SIM_CHECK(!l->a.empty() && l->a[0]->s == "earlier", "binding", "a given list loses what was in it"); cee_json_array_remove(given[i], 0); } SIM_CHECK((cee_json_array_length(er) > 0) == ill, "binding", "%zu errors for %s values", cee_json_array_length(er), ill ? "ill-typed" : "good"); }
    if (!ill) { if (lists) { SIM_CHECK(strings_of(snapshot(u)) == used, "binding", "used keys %s, expected %s", join(strings_of(snapshot(u))).c_str(), join(used).c_str()); SIM_CHECK(strings_of(snapshot(nu)) == unused, "binding", "unused keys %s, expected %s", join(strings_of(snapshot(nu))).c_str(), join(unused).c_str()); }
      for (size_t i = 0; i < b.n; i++) { auto &d = b.data[i]; auto &p = ps[i]; SIM_CHECK((d.has_value != 0) == p.hasv && (!p.hasv || (d.is_null != 0) == p.vnull), "binding", "%s: has_value %d, is_null %d", p.col.c_str(), d.has_value, d.is_null); if (p.hasv && !p.vnull) SIM_CHECK(p.ty == 1 ? d.i == p.vi : p.ty == 2 ? d.i64 == p.vi : p.vs == d.value, "binding", "%s: wrong value", p.col.c_str()); }
      sim::count("probe.bound"); }
    string why; P g = snapshot(j); SIM_CHECK(same(in, g, true, why), "input-changed", "the input changed: %s", why.c_str()); return;
  }
  if (kind == 7) { // an array of objects
    P arr = jv(JV::ARR); int n = (int)choose(5); vector<vector<std::pair<string, P>>> objs;
    for (int k = 0; k < n; k++) { P o = jv(JV::OBJ); int st = (int)choose(NC); for (int q = 0; q < NC; q++) { int ci = (st + q * 3) % NC; if (ci == 6 ? chance(1, 12) : ci == 0 ? !chance(1, 3) : chance(1, 3)) continue; static const int ty1[] = {2, 2, 2, 3, 3, 3, 2}; P v = ci && chance(1, 8) ? jnull() : ci == 0 ? ji64(draw_id(T)) : t ? val_for(ty1[ci], false) : chance(1, 2) ? jstr(draw_t()) : ji64(draw_i64()); put(o, COLS[ci], v); } if (chance(1, 40)) put(o, "nosuch", ji64(1)); if (chance(1, 40)) o->o.clear(); arr->a.push_back(o); }
    struct cee_json *j = build(c->st, arr); ev("insert_json_array %s: %s", tn.c_str(), text_of(arr).substr(0, 300).c_str()); int rc = cee_sqlite3_insert_json_array(&c->cs, dup(tn), j); ev("  -> %d%s", rc, bz.excused() ? " (fault or lock)" : ""); clean(c, "insert_json_array");
    St got = contents(); St exp = cur; bool okk = sdiff(exp, got).empty() && n == 0, fullmatch = n == 0; int fail = -1; string why = sdiff(exp, got);
    for (int k = 0; k < n && fail < 0; k++) { bool here = sdiff(exp, got).empty(); Row r; for (int i = 0; i < NC; i++) { int x = arr->a[k]->find(COLS[i]); r.push_back(x < 0 ? jnull() : arr->a[k]->o[x].second); } int64_t id; bool ok = arr->a[k]->find("nosuch") < 0 && !arr->a[k]->o.empty() && do_insert(exp.t[t], r, id); if (here && rc && (!ok || bz.excused())) okk = true; if (!ok) fail = k; }
    bool here = sdiff(exp, got).empty(); fullmatch = fail < 0 && here;
    if (rc == 0) SIM_CHECK(fullmatch, fail >= 0 ? "unreported" : "stored", "inserting an array is reported as done; contents:%s", sdiff(exp, got).c_str()); else { SIM_CHECK(okk, "stored", "inserting an array stops with %d; contents:%s", rc, sdiff(cur, got).c_str()); SIM_CHECK(fail >= 0 || bz.excused(), "refused", "inserting an array fails (%d) although nothing prevents it", rc); }
    string w2; P g = snapshot(j); SIM_CHECK(same(arr, g, true, w2), "input-changed", "the input changed: %s", w2.c_str()); if (n && rc == 0) { sim::mark_nontrivial(); sim::count("probe.array-stored"); } return;
  }
  // statements
  struct cee_sqlite3_stmt_strs ss; memset((void *)&ss, 0, sizeof ss); ss.table_name = dup(tn); bool dynamic = kind == 1 || (kind >= 5 && chance(1, 2)), tmpl = kind == 3 || (kind >= 4 && kind <= 5 && chance(1, 2)); if (kind == 6) { kind = chance(1, 2) ? 0 : 5; tmpl = chance(1, 2); }
  vector<string> icols, ucols; bool undeclared = false; string il, iv, us;
  auto addp = [&](vector<string> &v) { for (int i = 0; i < NC; i++) { Par *p = par(COLS[i]); if (!p ? chance(1, info ? 60 : 40) : !chance(1, 10)) v.push_back(COLS[i]); } };
  bool iund = false, uund = false;
  addp(icols); for (auto &x : icols) { il += (il.empty() ? "" : ",") + x; iv += (iv.empty() ? "@" : ",@") + x; iund |= !par(x); } if (icols.empty()) dynamic = true;
  addp(ucols); ucols.erase(std::remove(ucols.begin(), ucols.end(), string("id")), ucols.end()); for (auto &x : ucols) { us += (us.empty() ? "" : ",") + x + "=@" + x; uund |= !par(x); } if (ucols.empty()) { ucols = {"a"}; us = "a=@a"; uund |= !par("a"); }
  if (dynamic) ss.insert_dynamic = true; else ss.insert_stmt = dup(ws_lead() + "insert into " + tn + " (" + il + ") values (" + iv + ");");
  if (tmpl) ss.update_template = dup("update " + tn + " set %s where id=@id"); else ss.update_stmt = dup("update " + tn + " set " + us + " where id=@id");
  ss.select_stmt = dup("select id from " + tn + " where id=@id");
  if (chance(1, 3)) { if (tmpl) ss.update_stmt_x = dup("delete from " + tn); if (dynamic) ss.insert_stmt_x = dup("delete from " + tn); } // left over from an earlier use of the same operation
  bool withstatus = tmpl || !chance(1, 6), pre = chance(1, 3); struct cee_json *status = nullptr, **sp = withstatus ? &status : nullptr; if (sp && pre) { status = cee_json_object_mk(c->st); cee_json_object_set_i64(status, (char *)"mine", 5); }
  Bind b; if (info) { b = bind_of(ps, false); b.data = (struct cee_sqlite3_bind_data *)sim::arena_alloc((b.n + 1) * sizeof *b.data); memset(b.data, 0, (b.n + 1) * sizeof *b.data); }
  struct cee_json *j = build(c->st, in); struct cee_sqlite3_db_op op; memset((void *)&op, 0, sizeof op); op.info = b.info; op.data = b.data; op.stmts = &ss; string tdata;
  if (info && chance(1, 3)) { if (b.n && chance(1, 2)) { b.data[choose(b.n)].has_value = chance(1, 2); for (size_t i = 0; i < b.n; i++) b.data[i].i64 = 99; } tdata.assign((char *)b.data, b.n * sizeof *b.data); struct cee_sqlite3_db_op *o2 = new_cee_sqlite3_db_op(c->st, &op, b.size); op = *o2; } // a copy starts without values
  else if (info) for (size_t i = 0; i < b.n; i++) if (ps[i].hasv && chance(1, 8)) { b.data[i].has_value = 1; b.data[i].i64 = 98; b.data[i].value = dup("earlier"); } // replaced by what the object says
  static const char *KN[] = {"insert_op", "insert_op", "update_op", "update_op", "update_if_exists_op", "update_or_insert_op"}; ev("%s %s%s%s%s %s", KN[kind], tn.c_str(), dynamic ? " dynamic" : "", tmpl ? " template" : "", info ? "" : " no info", text_of(in).substr(0, 300).c_str());
  for (auto &p : ps) if (info) ev("   %s:%s%s%s%s", p.col.c_str(), p.ty == 1 ? "int" : p.ty == 2 ? "int64" : p.ty == 3 ? "text" : "blob", p.not_null ? " not null" : "", p.hasd ? " default" : "", p.no_update ? " no update" : "");
  int rc; switch (kind) { case 0: case 1: rc = cee_sqlite3_insert_op(&c->cs, &op, j, sp); break; case 2: case 3: rc = cee_sqlite3_update_op(&c->cs, &op, j, sp); break; case 4: rc = cee_sqlite3_update_if_exists_op(&c->cs, &op, j, sp); break; default: rc = cee_sqlite3_update_or_insert_op(&c->cs, &op, j, sp); }
  ev("  -> %d%s", rc, bz.excused() ? " (fault or lock)" : ""); clean(c, KN[kind]); P st = shot(status); St got = contents();
  if (!tdata.empty()) SIM_CHECK(!memcmp(tdata.data(), b.data, tdata.size()), "template", "%s changes the values of the operation it is a copy of", KN[kind]);
  // expectation
  St exp = cur; bool can = !ill, wrote = false, warn = false; int64_t id = 0, changed = -1; bool inserted = false;
  auto ins_value = [&](const string &col, bool insert) { Par *p = par(col); return pval(value_of(*p, insert)); };
  auto insert = [&]() {
    Row r(NC); for (auto &x : r) x = jnull(); if (dynamic) { int n = 0; for (auto &p : ps) { bool has = p.hasv || p.hasd || (info && p.not_null); if (!has) continue; n++; if (col_of(p.col) < 0) return false; r[col_of(p.col)] = ins_value(p.col, true); } if (!n) return false; }
    else { if (iund) return false; for (auto &x : icols) r[col_of(x)] = ins_value(x, true); }
    inserted = true; wrote = true; return do_insert(exp.t[t], r, id);
  };
  if (can) {
    if (kind <= 1) can = insert();
    else {
      Par *pid = par("id"); if (!pid) can = false; // the lookup has an undeclared parameter
      else {
        Val v = value_of(*pid, false); bool found = v.t == 1 && exp.t[t].r.count(v.i);
        if (!found) { if (kind == 5) can = insert(); }
        else {
          vector<std::pair<int, P>> set; bool nothing = false, bad = false;
          if (tmpl) { for (auto &p : ps) if (in->find(p.col) >= 0 && !(info && p.no_update) && (p.hasv || p.hasd)) { if (col_of(p.col) < 0) bad = true; else set.push_back({col_of(p.col), ins_value(p.col, false)}); } nothing = set.empty() && !bad; }
          else { bad = uund; if (!bad) for (auto &x : ucols) set.push_back({col_of(x), ins_value(x, false)}); }
          if (bad) can = false; else if (nothing) warn = true; else { can = do_update(exp.t[t], v.i, set); wrote = true; changed = 1; }
        }
      }
    }
  }
  if (!can) exp = cur;
  string why; P g = snapshot(j); SIM_CHECK(same(in, g, true, why), "input-changed", "the input changed: %s", why.c_str());
  bool err = st && st->find("error") >= 0;
  if (rc == SQLITE_DONE) {
    SIM_CHECK(can, "unreported", "%s is reported as done, it should be refused%s; effect:%s", KN[kind], ill ? " (ill-typed value)" : undeclared ? " (undeclared parameter)" : "", sdiff(cur, got).c_str());
    string d = sdiff(exp, got); SIM_CHECK(d.empty(), "stored", "%s is reported as done; stored, compared with what was asked for:%s", KN[kind], d.c_str());
    if (st) {
      SIM_CHECK(!err, "report", "%s is done and reports an error", KN[kind]); const char *k = kind <= 1 ? "id" : "last_insert_rowid"; int x = st->find(k);
      SIM_CHECK((x >= 0) == inserted && (!inserted || (st->o[x].second->t == JV::I64 && st->o[x].second->i == id)), "report", "%s reports the row id %s, expected %s", KN[kind], x < 0 ? "(none)" : text_of(st->o[x].second).c_str(), inserted ? fmt("%lld", (long long)id).c_str() : "none");
      SIM_CHECK((st->find("warning") >= 0) == warn, "report", "%s: %s warning", KN[kind], warn ? "no" : "a"); x = st->find("updated_rows"); if (kind >= 2 && kind <= 4) SIM_CHECK((x >= 0) == (changed >= 0) && (x < 0 || st->o[x].second->i == changed), "report", "%s: wrong count of updated rows", KN[kind]);
    }
    if (wrote) { sim::mark_nontrivial(); sim::count(inserted ? "probe.inserted" : "probe.updated"); sim::state(jhash(in)); }
  } else {
    string d = sdiff(cur, got); SIM_CHECK(d.empty(), "failed-but-applied", "%s fails (%d) and changes the database:%s", KN[kind], rc, d.c_str()); SIM_CHECK(!can || bz.excused(), "refused", "%s fails (%d: %s) although nothing prevents it", KN[kind], rc, err ? text_of(st->o[st->find("error")].second).substr(0, 300).c_str() : "");
    if (st) { SIM_CHECK(err, "unreported", "%s fails (%d) without an error", KN[kind], rc); SIM_CHECK(st->find("id") < 0 && st->find("last_insert_rowid") < 0 && st->find("updated_rows") < 0, "report", "%s fails and reports a result", KN[kind]); } sim::count(ill ? "probe.ill-typed" : "probe.refused");
  }
  if (st) {
    if (pre) SIM_CHECK(st->find("mine") >= 0 && st->o[st->find("mine")].second->i == 5, "status", "%s drops what was in the status", KN[kind]);
    int d = st->find("debug"); SIM_CHECK(d >= 0 && st->o[d].second->t == JV::OBJ, "report", "%s: no debug information", KN[kind]); P dbg = st->o[d].second; int u = dbg->find("used_keys"), nu = dbg->find("unused_keys");
    if (!ill && info) { SIM_CHECK(u >= 0 && strings_of(dbg->o[u].second) == used, "used-keys", "%s reports the used keys %s, expected %s", KN[kind], u < 0 ? "(none)" : join(strings_of(dbg->o[u].second)).c_str(), join(used).c_str()); vector<string> un = nu < 0 ? vector<string>() : strings_of(dbg->o[nu].second); SIM_CHECK(un == unused, "unused-keys", "%s reports the unused keys %s, expected %s", KN[kind], join(un).c_str(), join(unused).c_str()); }
  }
  keep(c, status);
  // read back through the library
  if (rc == SQLITE_DONE && wrote && chance(1, 2)) {
    int64_t key = inserted ? id : value_of(*par("id"), false).i; if (!got.t[t].r.count(key)) return; Busy b2; Par p; p.var = "@id"; p.col = "id"; p.ty = 2; p.hasd = true; p.di = key; Bind rb = bind_of({p}, false); struct cee_json *one = nullptr; int r2 = cee_sqlite3_select1(&c->cs, rb.info, nullptr, dup("select * from " + tn + " where id=@id"), &one); clean(c, "select1");
    if (r2 != SQLITE_DONE) { SIM_CHECK(b2.excused(), "refused", "reading the row back fails: %d", r2); return; }
    SIM_CHECK(one && one->t == CEE_JSON_OBJECT, "read-back", "the stored row is not found"); P o = snapshot(one), want = jv(JV::OBJ); for (int i = 0; i < NC; i++) put(want, COLS[i], exp.t[t].r[key][i]); SIM_CHECK(same(want, o, true, why), "read-back", "a stored row reads back as: %s", why.c_str()); sim::count("probe.read-back");
    for (auto &x : in->o) if (inserted && par(x.first) && col_of(x.first) > 0 && (dynamic || std::find(icols.begin(), icols.end(), x.first) != icols.end()) && x.second->t != JV::NUL) { int k = o->find(x.first); SIM_CHECK(k >= 0 && same(x.second, o->o[k].second, true, why), "read-back", "%s reads back as: %s", x.first.c_str(), why.c_str()); }
  }
}
static void body(unsigned mode, bool faults) {
  vfs::start(); quiet_stderr(); other = nullptr; hold = nullptr; u16db = mode / 3 % 4 == 0; setup(mode); vfs::on_journal_end = [](const char *) { take(); }; vfs::on_fault = nullptr; Conn *c = new Conn; conn_mk(c, 0);
  vfs::faults(true); if (!faults) vfs::rates = vfs::Faults();
  Steps s(20, 80); while (s.more()) { Span sp; if (faults && chance(1, 10)) vfs::nomem_at(1 + choose(400), 1 + choose(3)); if (chance(1, 20)) other_toggle(); store_once(c); housekeeping(c); }
  vfs::faults(false); if (other) other_toggle(); recheck(c); int rc = sqlite3_close(c->db); SIM_CHECK(rc == SQLITE_OK, "open-statement", "the connection cannot be closed: %d", rc); cee_del(c->st); SIM_CHECK(sim::live_blocks() == 0, "leak", "%d blocks outlive their state", sim::live_blocks());
}
static void run() { sim::alloc_draw_config(); vfs::init(); unsigned mode = (unsigned)choose(12); bool faults = chance(3, 5); vfs::draw(faults); vfs::Faults fr = vfs::rates; sim::epoch([&]() { vfs::rates = fr; body(mode, faults); }); }
#ifndef EMBED
namespace sim {
Harness harness = {"C19", run, 60000000, 5000, 250000,
  "one run = a seeded history of storing JSON objects (insert, update, update-or-insert driven by JSON with static, dynamically composed and generated statements and bindings, arrays of objects, binding alone) with drawn declarations (types, NULL, defaults) and values, with I/O errors, full disk, lock contention and SQLite allocation failures; stored rows and reports against a model and read back through the library; non-trivial = a row was written",
  {"sqlite3/cee-sqlite3.c", "cee-json (amalgamation)", "cee (amalgamation)", "SQLite 3.45 (system library)"}, {"SQLite's VFS: disk, locks, clock, randomness", "SQLite's allocator", "malloc family of the library (simulated heap)"}};
}
#endif
#endif
#ifdef PROP_C21
// ---- C21: joins and named results ---------------------------------------------------------------------------------
static void relax(Query &q) { for (auto *v : {&q.ps, &q.cols}) for (auto &p : *v) p.no_label = false; } // a merged row needs its labels
static P key_val(int ty) { // a join value, sometimes unusable
  if (chance(1, 12)) switch (choose(6)) { case 0: return jnull(); case 1: return jbool(true); case 2: return jdbl(1.5); case 3: return ty == 3 ? ji64(1) : jstr("1"); case 4: return ju64(1ull << 63 | choose(5)); default: return jv(chance(1, 2) ? JV::ARR : JV::OBJ); }
  if (ty == 3) return jstr(chance(1, 5) ? draw_long() : key_text()); if (ty == 4) return chance(1, 2) ? jstr("x") : ji64(2);
  return ji64(chance(1, 8) ? draw_i64() : (int64_t)choose(12));
}
static P good_key(int ty) { if (ty == 3) return jstr(chance(1, 8) ? draw_long() : key_text()); int64_t v = chance(1, 8) ? draw_i64() : (int64_t)choose(12); return ji64(ty == 1 ? (int)v : v); }
static bool usable(const P &v, int ty) { return ty == 1 ? v->t == JV::I64 && v->i == (int)v->i : ty == 2 ? v->t == JV::I64 : ty == 3 && v->t == JV::STR; }
static P without(const P &o, const string &k) { P r = copy(o); int i = r->find(k); if (i >= 0) r->o.erase(r->o.begin() + i); return r; }
static P lookalike(const Query &q) { // a nested object with members named like the join keys
  P o = jv(JV::OBJ); for (auto &p : q.ps) if (chance(2, 3)) put(o, p.col, key_val(p.ty)); if (chance(1, 3)) { P a = jv(JV::ARR); a->a.push_back(o); return a; } if (chance(1, 5)) { P w = jv(JV::OBJ); put(w, "in", o); return w; } return o;
}
static void join_once(Conn *c) {
  Query q = draw_query(true); bool merge = chance(1, 2), arr = chance(3, 4); if (chance(1, 14)) q.sql = "select nosuch from q0 where i=@p"; if (merge) relax(q); q.nodata = chance(1, 3);
  for (auto &p : q.ps) { p.dnull = p.vnull = false; if (chance(1, 2) && !p.hasv) p.hasd = true; }
  auto active = [&](const Par &p) { return p.hasd || (!q.nodata && p.hasv); };
  static const char *oth[] = {"name", "id2", "n", "zz", "x", "rows", "error"}; vector<P> objs; int n = arr ? chance(1, 10) ? 8 + (int)choose(40) : (int)choose(7) : 1; bool good = n > 7 ? chance(5, 6) : chance(1, 3);
  for (int k = 0; k < n; k++) { P o = jv(JV::OBJ); for (int i = 0, m = (int)choose(4); i < m; i++) put(o, oth[choose(7)], chance(1, 6) ? jv(JV::ARR) : chance(1, 4) ? lookalike(q) : draw_scalar()); if (!q.ps.empty() && chance(1, 8)) { string s = q.ps[choose(q.ps.size())].col; s = chance(1, 3) ? s + "x" : chance(1, 2) ? string(1, (char)toupper((unsigned char)s[0])) + s.substr(1) : s.substr(0, s.size() - 1); if (o->find(s) < 0) put(o, s, key_val(2)); } if (chance(1, 20)) for (int i = 0, m = (int)choose(60); i < m; i++) put(o, fmt("f%d", i), ji64(i)); for (auto &p : q.ps) if (active(p) ? good || !chance(1, 14) : chance(1, 4)) put(o, p.col, good ? good_key(p.ty) : key_val(p.ty)); if (chance(1, 4)) put(o, "last", ji64(k)); objs.push_back(o); }
  static const char *ks[] = {"rows", "name", "joined", ""}; string key = ks[choose(4)];
  P doc = jv(JV::ARR); doc->a = objs; struct cee_json *j = build(c->st, arr ? doc : objs[0]);
  if (arr && n && chance(1, 4)) { /* an object that is met twice */ size_t at = choose(n); cee_list_append(cee_json_to_array(j), cee_json_to_array(j)->a[at]); objs.push_back(objs[at]); n++; }
  Bind b = bind_of(q.ps, !q.nodata, q.cols); Busy bz;
  ev("c%d: join %s%s: %s", c->no, arr ? "array" : "object", merge ? " merged" : (" under " + show(key)).c_str(), qshow(q).c_str()); ev("   %s", text_of(doc).substr(0, 500).c_str()); cee_state_add_gc_root(c->st, j);
  char *kk = merge ? nullptr : dup(key); if (arr) cee_sqlite3_json_array_join_table(&c->cs, j, b.info, b.data, dup(q.sql), kk); else cee_sqlite3_json_object_join_table(&c->cs, j, b.info, b.data, dup(q.sql), kk);
  sim::no_preempt(1); struct NP { ~NP() { sim::no_preempt(-1); } } np; cee_state_remove_gc_root(c->st, j);
  ev("   -> %s%s", text_of(snapshot(j)).substr(0, 700).c_str(), bz.excused() ? " (fault or lock)" : ""); clean(c, "a join");
  P got = snapshot(j); vector<P> gs = arr ? got->a : vector<P>{got}; SIM_CHECK((int)gs.size() == n, "shape", "%zu elements instead of %d", gs.size(), n); string why;
  vector<P> now; std::map<JV *, P> cur; for (auto &o : objs) if (!cur.count(o.get())) cur[o.get()] = copy(o); // the expected state of each distinct object, as the join proceeds
  std::map<JV *, int> last; for (int k = 0; k < n; k++) last[objs[k].get()] = k;
  size_t from = bz.v; bool stop = false; int rows = 0;
  auto check = [&](const P &o, const P &g, bool joined) { if (merge || !joined) return same(o, g, false, why); int i = g->find(key), e = o->find(key); if (i < 0) { why = "nothing under " + show(key); return false; } return same(o->o[e].second, g->o[i].second, true, why) && same(without(o, key), without(g, key), false, why); };
  for (int k = 0; k < n; k++) {
    P o = cur[objs[k].get()], g = gs[k]; bool final = last[objs[k].get()] == k; SIM_CHECK(g->t == JV::OBJ, "shape", "element %d is no longer an object", k);
    if (stop) { SIM_CHECK(same(o, g, false, why), "stopped", "element %d, after the one that failed, is changed: %s", k, why.c_str()); continue; }
    bool bad = false; vector<Val> vals; for (auto &p : q.ps) { Val v; if (active(p) && !bad) { int i = o->find(p.col); if (i < 0 || !usable(o->o[i].second, p.ty)) bad = true; else { v.t = p.ty <= 2 ? 1 : p.ty; v.i = o->o[i].second->i; v.s = o->o[i].second->s; } } vals.push_back(v); }
    bool gerr = has_error(g) && !(has_error(o) && same(o->o[o->find("error")].second, g->o[g->find("error")].second, false, why)); P bare = without(o, "error"); // an element may have a member of that name
    if (bad) { SIM_CHECK(gerr, "unreported", "element %d has no usable join value and no error", k); SIM_CHECK(same(bare, without(g, "error"), false, why), "error-object", "element %d is changed besides its error: %s", k, why.c_str()); stop = true; sim::count("probe.join-value-unusable"); cur[objs[k].get()] = g; continue; }
    // query
    bool qerr = merge ? gerr : !gerr && g->find(key) >= 0 && has_error(g->o[g->find(key)].second), anyerr = false, match = false, amb = merge && q.sql.find(" as error") != string::npos; string tried; P next; // amb: a merged row may bring such a member too
    if (!final && qerr && bz.excused()) { keep(c, j); return; } // which of the two joins failed cannot be told
    if (!final) { // seen through its last occurrence only: follow the one version there is
      if (vers->size() - 1 != bz.v) { sim::discard("model: shared object and concurrent writer"); } Res r = ask(q, vers->back(), &vals); if (r.ok) { P e = copy(o); if (merge) { if (!r.rows.empty()) merge_into(e, r.rows[0]); } else { P l = jv(JV::ARR); l->a = r.rows; put(e, key, l); } cur[objs[k].get()] = e; continue; } }
    for (size_t v = from; v < vers->size() && !match; v++) {
      Res r = ask(q, (*vers)[v], &vals); if (!r.ok) { anyerr = true; continue; } if (qerr && !amb) continue; P e = copy(o);
      if (merge) { if (!r.rows.empty()) merge_into(e, r.rows[0]); } else { P l = jv(JV::ARR); l->a = r.rows; put(e, key, l); }
      if (check(e, g, true)) { match = true; from = v; next = e; rows += (int)r.rows.size(); } else tried += " {" + why + "}";
    }
    if (qerr && !match) { SIM_CHECK(anyerr || bz.excused(), "refused", "the query for element %d fails although nothing prevents it: %s", k, text_of(g).substr(0, 300).c_str()); P w = without(g, merge ? "error" : key); SIM_CHECK(same(merge ? bare : without(o, key), w, false, why), "error-object", "element %d is changed besides its error: %s", k, why.c_str()); stop = true; cur[objs[k].get()] = g; sim::count("probe.join-query-failed"); continue; }
    SIM_CHECK(match, anyerr && tried.empty() ? "unreported" : "rows", "element %d: %s:%s", k, anyerr && tried.empty() ? "the query fails and no error is reported" : "no version of the database gives this result", tried.c_str());
    cur[objs[k].get()] = next;
  }
  if (rows) { sim::mark_nontrivial(); sim::count("probe.joined"); sim::state(sim::mix(hstr(q.sql), jhash(got))); } if (!stop && n > 1) sim::count("probe.joined-all");
  keep(c, j);
}
static void named_once(Conn *c) {
  bool one = chance(1, 2); Query q = draw_query(chance(1, 2)); unsigned mode = (unsigned)choose(4); static const char *ks[] = {"rows", "a", "key", ""}; string key = ks[choose(4)]; struct cee_json *status = nullptr; P before;
  if (mode >= 2) { before = jv(JV::OBJ); static const char *oth[] = {"mine", "n", "b"}; for (int i = 0, m = (int)choose(3); i < m; i++) put(before, oth[i], draw_scalar()); if (chance(2, 3)) { P v; if (one) { v = jv(JV::OBJ); static const char *f[] = {"id", "t", "old", "n"}; for (int i = 0, m = (int)choose(4); i < m; i++) put(v, f[choose(4)], chance(1, 6) ? jv(JV::ARR) : draw_scalar()); relax(q); } else if (chance(2, 3)) { v = jv(JV::ARR); for (int i = 0, m = (int)choose(4); i < m; i++) v->a.push_back(draw_scalar()); } else v = draw_scalar(); put(before, key, v); } if (chance(1, 6)) put(before, "error", chance(1, 2) ? jstr("earlier") : [&]() { P a = jv(JV::ARR); a->a.push_back(jstr("e0")); return a; }()); status = build(c->st, before); }
  struct cee_json **sp = mode ? &status : nullptr; Bind b; if (!q.noinfo) b = bind_of(q.ps, !q.nodata, q.cols); Busy bz; const char *nm = one ? "select1_as" : "select_as";
  ev("c%d: %s %s status %s: %s", c->no, nm, show(key).c_str(), before ? text_of(before).substr(0, 300).c_str() : mode ? "empty" : "none", qshow(q).c_str()); if (status) cee_state_add_gc_root(c->st, status);
  int rc = one ? cee_sqlite3_select1_as(&c->cs, b.info, b.data, dup(q.sql), sp, dup(key)) : cee_sqlite3_select_as(&c->cs, b.info, b.data, dup(q.sql), sp, dup(key));
  sim::no_preempt(1); struct NP { ~NP() { sim::no_preempt(-1); } } np; if (before) cee_state_remove_gc_root(c->st, status); P got = shot(status); ev("   -> %d %s%s", rc, got ? text_of(got).substr(0, 400).c_str() : "", bz.excused() ? " (fault or lock)" : ""); clean(c, nm);
  if (!before) before = jv(JV::OBJ); bool anyok = false, anyerr = false, match = false; string why, tried; size_t nrows = 0;
  for (size_t v = bz.v; v < vers->size() && !match; v++) {
    Res r = ask(q, (*vers)[v]); (r.ok ? anyok : anyerr) = true; if (!r.ok || rc != SQLITE_DONE) continue; P e = copy(before); int at = e->find(key); nrows = r.rows.size();
    if (one) { if (!r.rows.empty()) { if (at < 0) put(e, key, r.rows[0]); else merge_into(e->o[at].second, r.rows[0]); } }
    else { if (at < 0) { put(e, key, jv(JV::ARR)); at = e->find(key); } else if (e->o[at].second->t != JV::ARR) { P l = jv(JV::ARR); l->a.push_back(e->o[at].second); e->o[at].second = l; } for (auto &x : r.rows) e->o[at].second->a.push_back(x); }
    if (!mode) match = true; else { if (one && r.rows.empty() && !got && before->o.empty()) match = true; else match = got && got->t == JV::OBJ && same(e, got, false, why); } tried += " {" + why + "}";
  }
  if (rc == SQLITE_DONE) { SIM_CHECK(match, anyok ? "rows" : "unreported", "%s: %s:%s", nm, anyok ? "no version of the database gives this result" : "the query fails at some row and is reported as done", tried.c_str()); if (nrows && mode) { sim::mark_nontrivial(); sim::count("probe.named"); sim::state(sim::mix(hstr(q.sql), jhash(got))); } }
  else {
    SIM_CHECK(anyerr || bz.excused(), "refused", "%s fails (%d) although nothing prevents it", nm, rc); sim::count("probe.named-failed");
    if (mode) { SIM_CHECK(has_error(got), "unreported", "%s fails (%d) without an error in the status", nm, rc); SIM_CHECK(same(without(before, "error"), without(got, "error"), false, why), "status", "a failing %s changes the status: %s", nm, why.c_str());
      int x = before->find("error"); if (x >= 0) { P e = got->o[got->find("error")].second, old = before->o[x].second; SIM_CHECK(e->t == JV::ARR && !e->a.empty() && same(old->t == JV::ARR ? old->a[0] : old, e->a[0], true, why) && e->a.size() >= 2, "status", "an earlier error is lost"); } }
  }
  keep(c, status);
}
static void once(Conn *c) { if (chance(3, 5)) join_once(c); else named_once(c); }
static void body(unsigned mode, bool tasks, bool faults) {
  vfs::start(); quiet_stderr(); other = nullptr; hold = nullptr; setup(mode); vfs::on_journal_end = [](const char *) { take(); }; vfs::on_fault = nullptr;
  int n = tasks ? 1 + (int)choose(2) : 1; vector<Conn *> cs; for (int i = 0; i < n; i++) { cs.push_back(new Conn); conn_mk(cs[i], i); }
  vfs::faults(true); if (!faults) vfs::rates = vfs::Faults();
  if (tasks) {
    sim::Tasks t; for (int i = 0; i < n; i++) t.fns.push_back([&, i]() { Steps s(5, 16); while (s.more()) { if (faults && chance(1, 8)) vfs::nomem_at(1 + choose(400), 1 + choose(2)); once(cs[i]); housekeeping(cs[i]); } });
    t.fns.push_back([&]() { sqlite3 *db = nullptr; { vfs::Quiet q(false); sqlite3_open(DB, &db); must(db, "pragma cache_size=2"); } Steps s(10, 30); while (s.more()) { string w = chance(1, 2) ? "begin;" : "begin immediate;"; for (int i = 0, k = 1 + (int)choose(4); i < k; i++) w += draw_change(); raw(db, w); if (raw(db, chance(1, 6) ? "rollback" : "commit") != SQLITE_OK) raw(db, "rollback"); sim::yield_point(); } vfs::Quiet q(false); raw(db, "rollback"); sqlite3_close(db); });
    static const unsigned qs[] = {60, 15, 4, 250}; t.run(qs[choose(4)]);
  } else { Steps s(10, 40); while (s.more()) { Span sp; if (faults && chance(1, 8)) vfs::nomem_at(1 + choose(400), 1 + choose(3)); if (chance(1, 12)) other_toggle(); if (!other && chance(1, 6)) change(); once(cs[0]); housekeeping(cs[0]); } }
  vfs::faults(false); if (other) other_toggle(); for (auto c : cs) { recheck(c); int rc = sqlite3_close(c->db); SIM_CHECK(rc == SQLITE_OK, "open-statement", "the connection cannot be closed: %d", rc); cee_del(c->st); }
  SIM_CHECK(sim::live_blocks() == 0, "leak", "%d blocks outlive their state", sim::live_blocks());
}
static void run() { sim::alloc_draw_config(); vfs::init(); unsigned mode = (unsigned)choose(12); bool faults = chance(3, 5), tasks = chance(2, 5); vfs::draw(faults); vfs::Faults fr = vfs::rates; sim::epoch([&]() { vfs::rates = fr; body(mode, tasks, faults); }); }
#ifndef EMBED
namespace sim {
Harness harness = {"C21", run, 60000000, 5000, 250000,
  "one run = a seeded history of joins of a query into objects and arrays of objects (under a key or merged; join values missing, NULL or of another type at some of them; an object that occurs twice) and of named selections into documents that hold something already, with I/O errors, lock contention, SQLite allocation failures and a concurrent writer between the objects; every element of the document against SQLite's own answer; non-trivial = rows were attached",
  {"sqlite3/join.c", "sqlite3/cee-sqlite3.c", "cee-json (amalgamation)", "cee (amalgamation)", "SQLite 3.45 (system library)"}, {"SQLite's VFS: disk, locks, clock, randomness", "SQLite's allocator", "malloc family of the library (simulated heap)"}};
}
#endif
#endif
