// C10: a JSON document is exactly what its editing history says.
#include "ujson.h"
#ifdef SIM_FS
#include "fs.h"
#include <fcntl.h>
#include <unistd.h>
#endif
static struct cee_state *st;
static vector<P> pool; static std::set<P> roots; static unsigned keyspace; static bool oddkeys;
static string K() { return draw_key(keyspace, oddkeys); }
static char *C(const string &s) { return (char *)s.c_str(); }
static P konst(JV::T t, bool b = false) { P p = t == JV::NUL ? jnull() : jbool(b); p->r = t == JV::NUL ? cee_json_null() : cee_json_bool(b); return p; }
static vector<P> of(std::function<bool(const P &)> f) { vector<P> v; for (auto &p : pool) if (f(p)) v.push_back(p); return v; }
static vector<P> objs() { return of([](const P &p) { return p->t == JV::OBJ; }); }
static vector<P> arrs() { return of([](const P &p) { return p->t == JV::ARR; }); }
static int id(const P &p) { for (size_t i = 0; i < pool.size(); i++) if (pool[i] == p) return (int)i; return -1; }
static void add(const P &p) { for (auto &q : pool) if (q == p) return; pool.push_back(p); }
static void adopt(const P &p, struct cee_json *j) { p->r = j; for (size_t i = 0; i < p->a.size(); i++) adopt(p->a[i], cee_json_array_get(j, (int)i)); for (auto &e : p->o) adopt(e.second, cee_json_object_get(j, C(e.first))); }
static void setm(const P &o, const string &k, const P &v) { int i = o->find(k); if (i < 0) o->o.push_back({k, v}); else o->o[i].second = v; }
static void check(const P &p) { if (expanded(p) > 20000) return; mirror(p, p->r, fmt("doc%d", id(p))); sim::state(jhash(p)); }
// the value a scalar setter created: its handle is read back
static P got(struct cee_json *j, P v) { SIM_CHECK(j, "value", "a value just set is missing"); v->r = j; return v; }
static P draw_value(bool containers = true) {
  unsigned k = weighted({5, 4, 2, 1, 1, 1});
  if (k == 1 && !pool.empty()) return pool[choose(pool.size())];
  if (k == 2 && containers) { P p = jv(chance(1, 2) ? JV::OBJ : JV::ARR); p->r = p->t == JV::OBJ ? cee_json_object_mk(st) : cee_json_array_mk(st, (int)choose(4)); add(p); return p; }
  if (k == 3) { P p = jv(JV::STRN); p->s = draw_text(); char *b = (char *)sim::arena_alloc(p->s.size() + 1); memcpy(b, p->s.data(), p->s.size()); b[p->s.size()] = 'X'; p->r = cee_json_strn_mk(st, b, p->s.size()); return p; }
  if (k == 4) { P p = jv(JV::BLOB); size_t n = choose(40); for (size_t i = 0; i < n; i++) p->s += (char)choose(256); p->r = cee_json_blob_mk(st, p->s.data(), n); return p; }
  if (k == 5) { int b = 12; P p = draw_doc(b, 4); build(st, p); add(p); return p; }
  if (k == 0 && chance(1, 120)) { P p = long_doc(3000, 900); build(st, p); add(p); return p; }
  P p = draw_scalar();
  if (p->t == JV::STR && chance(1, 2)) p->r = cee_json_str_mk(st, mkstr(st, p->s)); else build(st, p);
  if (chance(1, 4) && p->t != JV::NUL && p->t != JV::BOOL) add(p);
  return p;
}
static P merged(const P &d, const P &s);
// after cee_json_merge(d, s) returned true; the library chooses the order in which new keys are added
static void merge_into(const P &d, const P &s) {
  if (d->t == JV::ARR) { vector<P> c = s->a; d->a.insert(d->a.end(), c.begin(), c.end()); return; }
  vector<std::pair<string, P>> c = s->o;
  for (auto &e : c) { int i = d->find(e.first); if (i < 0) d->o.push_back(e); else d->o[i].second = merged(d->o[i].second, e.second); }
  // new keys: the set is checked, their order is taken over
  vector<string> ord = key_order(d->r); size_t old = 0; for (auto &k : ord) { int i = d->find(k); SIM_CHECK(i >= 0, "merge", "a member %s appeared in a merge", show(k).c_str()); std::swap(d->o[old], d->o[i]); /* keep relative order */ if ((size_t)i > old) { auto x = d->o[i]; d->o.erase(d->o.begin() + i); d->o.insert(d->o.begin() + old + 1, x); } old++; }
}
static P merged(const P &d, const P &s) { if (d->t != s->t || !d->box()) return s; merge_into(d, s); return d; }
static bool tree(const P &p, std::set<JV *> &seen) { if (!p->box()) return true; if (!seen.insert(p.get()).second) return false; for (auto &e : p->a) if (!tree(e, seen)) return false; for (auto &e : p->o) if (!tree(e.second, seen)) return false; return true; }
static int ty(struct cee_json *j) { return j ? (int)j->t : -1; }

static P find_by_ptr(const P &p, struct cee_json *j, std::set<JV *> &seen) { if (p->r == j) return p; if (!seen.insert(p.get()).second) return nullptr; for (auto &e : p->a) if (P q = find_by_ptr(e, j, seen)) return q; for (auto &e : p->o) if (P q = find_by_ptr(e.second, j, seen)) return q; return nullptr; }
static void has_vals(const P &p, const string &k, std::set<struct cee_json *> &out, std::set<JV *> &seen) { if (!seen.insert(p.get()).second) return; for (auto &e : p->a) has_vals(e, k, out, seen); for (auto &e : p->o) { if (e.first == k) out.insert(e.second->r); has_vals(e.second, k, out, seen); } }
static void all_keys(const P &p, vector<string> &out, std::set<JV *> &seen) { if (!seen.insert(p.get()).second) return; for (auto &e : p->a) all_keys(e, out, seen); for (auto &e : p->o) { out.push_back(e.first); all_keys(e.second, out, seen); } }

static void do_select(const P &root) {
  string f; vector<void *> args; P cur = root; unsigned n = (unsigned)choose(7); bool expr_ok = true;
  auto check_type = [&]() { // selectors can be combined: also in the middle of a path
    char c = "snoab!"[choose(6)]; if (cur && cur->box() && chance(2, 3)) c = cur->t == JV::OBJ ? 'o' : 'a'; f += ':'; f += c;
    if (cur) { bool ok = c == 's' ? cur->t == JV::STR : c == 'n' ? is_num(*cur) : c == 'o' ? cur->t == JV::OBJ : c == 'a' ? cur->t == JV::ARR : c == 'b' ? cur->t == JV::BOOL : cur->t == JV::NUL; if (!ok) cur = nullptr; }
  };
  for (unsigned i = 0; i < n && expr_ok; i++) {
    if (chance(1, 16)) check_type();
    bool obj = cur ? cur->t == JV::OBJ : chance(1, 2); if (chance(1, 14)) obj = !obj; if (cur && !cur->box() && !chance(1, 3)) break;
    if (obj) {
      string k = cur && cur->t == JV::OBJ && !cur->o.empty() && !chance(1, 8) ? cur->o[choose(cur->o.size())].first : K();
      if (k.empty() || k.size() > 256) { if (k.empty()) break; }
      bool plain = k.find_first_of(".[]:*") == string::npos; size_t split = plain ? (chance(1, 2) ? k.size() : choose(k.size() + 1)) : 0;
      if (split < k.size() && args.size() >= 4) { if (!plain) break; split = k.size(); }
      f += "." + k.substr(0, split); if (split < k.size()) { char *b = (char *)sim::arena_alloc(k.size() - split + 1); strcpy(b, k.c_str() + split); args.push_back(b); f += "*"; }
      if (k.size() > 256) cur = nullptr;
      if (cur) { int x = cur->t == JV::OBJ ? cur->find(k) : -1; cur = x < 0 ? nullptr : cur->o[x].second; }
    } else {
      int ix = cur && cur->t == JV::ARR && !cur->a.empty() && !chance(1, 8) ? (int)choose(cur->a.size()) : (int)choose(8) - 2;
      if (cur && cur->t == JV::ARR && chance(1, 10)) ix = (int)cur->a.size();
      if (args.size() < 4 && chance(1, 3)) { f += "[*]"; args.push_back((void *)(intptr_t)ix); } else f += fmt("[%d]", ix);
      if (cur) cur = cur->t == JV::ARR && ix >= 0 && ix < (int)cur->a.size() ? cur->a[ix] : nullptr;
    }
  }
  if (chance(1, 3)) { check_type(); if (chance(1, 8)) check_type(); }
  size_t na = args.size(); args.resize(4);
  if (!na && chance(1, 4)) {
    int x = 77, e = 77; bool ok = cur && cur->t == JV::I64 && (int)cur->i == cur->i; int r = cee_json_select_as_int(root->r, &x, C(f)); if (ok) e = (int)cur->i;
    SIM_CHECK((r == 0) == ok && x == e, "select", "cee_json_select_as_int(doc%d, %s) returns %d with %d", id(root), show(f).c_str(), r, x); return;
  }
  struct cee_json *j = cee_json_select(root->r, C(f), args[0], args[1], args[2], args[3]);
  SIM_CHECK(j == (cur ? cur->r : nullptr), "select", "cee_json_select(doc%d, %s) finds a value of type %d, the path leads to %s", id(root), show(f).c_str(), ty(j), cur ? jtn[cur->t] : "nothing");
}
#ifdef SIM_FS
#define HOWS 4
#else
#define HOWS 3
#endif
static string print(const P &p, bool pretty, unsigned how) {
  enum cee_json_fmt f = pretty ? CEE_JSON_FMT_PRETTY : CEE_JSON_FMT_COMPACT; string out; ssize_t n; int live = sim::live_blocks(sim::get_owner());
#define LEFT() SIM_CHECK(sim::live_blocks(sim::get_owner()) == live, "left-behind", "printing a document leaves %d blocks behind", sim::live_blocks(sim::get_owner()) - live)
#ifdef SIM_FS
  if (how == 3) { // to a descriptor, after a formatted text
    fs::put("out", ""); int fd; { fs::On on(false); fd = open("out", O_WRONLY); } string pre, t = draw_text(); char *h = (char *)sim::arena_alloc(t.size() + 1); memcpy(h, t.c_str(), t.size() + 1); int k = (int)choose(1000); bool none = chance(1, 8);
    if (none) { cee_json_dprintf(fd, nullptr, chance(1, 2) ? "<" : nullptr); string o = fs::content("out"); if (o == "<null\n") o.erase(0, 1); SIM_CHECK(o == "null\n", "print", "no document is printed as %s", show(o).c_str()); fs::put("out", ""); lseek(fd, 0, SEEK_SET); }
    switch (choose(3)) { case 0: cee_json_dprintf(fd, p->r, nullptr); break; case 1: pre = "plain: "; cee_json_dprintf(fd, p->r, "plain: "); break; default: pre = fmt("%d|", k) + t + "|"; cee_json_dprintf(fd, p->r, "%d|%s|", k, h); }
    close(fd); out = fs::content("out"); ev("dprintf -> %zu bytes", out.size()); LEFT(); SIM_CHECK(out.compare(0, pre.size(), pre) == 0, "print", "after the formatted text %s a descriptor holds %s", show(pre).c_str(), show(out.substr(0, 200)).c_str()); sim::count("probe.printed-to-descriptor"); SIM_CHECK(out.size() > pre.size() && out.back() == 10, "print", "the line printed to a descriptor is not ended"); return out.substr(pre.size(), out.size() - pre.size() - 1);
  }
#endif
  if (how) {
    char *b = nullptr; size_t size = 0; n = cee_json_asprint(st, &b, how == 1 ? &size : nullptr, p->r, f);
    SIM_CHECK(b && n >= 0, "print", "cee_json_asprint returns %zd", n); int bl = sim::block_of(b); SIM_CHECK(bl >= 0, "print", "cee_json_asprint gives no tracked block");
    if (how == 1) { SIM_CHECK(size > (size_t)n && size <= cee_block_size((struct cee_block *)b), "print", "cee_json_asprint reports a block of %zu bytes for %zd bytes of text", size, n); }
    out = b; cee_del(b);
  } else {
    n = cee_json_snprint(st, nullptr, 0, p->r, f); SIM_CHECK(n >= 0, "print", "cee_json_snprint returns %zd", n);
    char *b = (char *)sim::arena_alloc((size_t)n + 1); memset(b, 'Z', (size_t)n + 1); ssize_t m = cee_json_snprint(st, b, (size_t)n + 1, p->r, f);
    SIM_CHECK(m == n, "print", "cee_json_snprint returns %zd, then %zd bytes for the same document", n, m); SIM_CHECK(memchr(b, 0, (size_t)n + 1) == b + n, "print", "the printed text does not end at its length"); out = b;
  }
  SIM_CHECK((size_t)n == out.size(), "print", "printing returns %zd, the text has %zu bytes", n, out.size());
  return out;
}
static P check_print(const P &p, bool pretty, unsigned how) {
  string t = print(p, pretty, how); RefParse rp(t, true); P g = rp.doc(true);
  SIM_CHECK(g, "print", "the %s text of doc%d is not well-formed JSON near offset %zu: %s", pretty ? "pretty" : "compact", id(p), rp.p, show(t.substr(rp.p > 40 ? rp.p - 40 : 0)).c_str());
  string why; SIM_CHECK(says(p, g, why), "print", "the %s text of doc%d: %s", pretty ? "pretty" : "compact", id(p), why.c_str());
  if (!pretty) { size_t d = 0; bool q = false; for (size_t i = 0; i < t.size(); i++) { if (q) { if (t[i] == '\\') i++; else if (t[i] == '"') q = false; } else if (t[i] == '"') q = true; else if (strchr(" \t\n\r", t[i])) d++; } SIM_CHECK(!d, "print", "compact text contains white space"); }
  if (rp.maxdepth <= 450 && !p->hasnul && chance(1, 3)) {   // and back
    char *b = (char *)sim::arena_alloc(t.size()); memcpy(b, t.data(), t.size()); struct cee_json *j = nullptr; int line = -1;
    int r = cee_json_parsex(st, b, t.size(), &j, true, &line); if (r && sim::alloc_failed_once()) { sim::count("probe.failure-reported"); return g; } SIM_CHECK(r == 0 && j, "reparse", "printed text is rejected at line %d: %s", line, show(t).c_str());
    mirror(g, j, "reparsed"); adopt(g, j); if (pool.size() < 24) add(g);
  }
  return g;
}
static void collect() {
  // roots: kept roots, some of them dropped, and some more documents
  for (auto it = roots.begin(); it != roots.end();) if (chance(1, 3)) { cee_state_remove_gc_root(st, (*it)->r); it = roots.erase(it); } else ++it;
  for (auto &p : pool) if (p->t != JV::NUL && p->t != JV::BOOL && !roots.count(p) && chance(1, 2)) { cee_state_add_gc_root(st, p->r); roots.insert(p); }
  size_t n = 0; for (auto &p : roots) n += expanded(p);
  if (n > 60000) return;
  cee_state_gc(st);
  std::set<JV *> s; for (auto &p : roots) reach(p, s);
  vector<P> keep; for (auto &p : pool) if (s.count(p.get())) keep.push_back(p);
  pool = keep; ev("gc: %zu roots, %zu documents left", roots.size(), pool.size());
  for (auto &p : pool) check(p);
}
static void op() {
  vector<P> O = objs(), A = arrs();
  unsigned k = weighted({3, 14, 4, 4, 3, 8, 4, 5, 3, 4, 2, 3, 6, 2, 4, 3, 2, 1, 2, 1});
  if (pool.size() > 30) { // forget a handle (the value stays in its state)
    size_t i = choose(pool.size()); if (!roots.count(pool[i])) pool.erase(pool.begin() + i); }
  if (O.empty() && (k == 1 || k == 2 || k == 3 || k == 4)) k = 0;
  if (A.empty() && (k == 5 || k == 6 || k == 7 || k == 8)) k = 0;
  if (pool.empty()) k = 0;
  switch (k) {
    case 0: {
      unsigned h = weighted({6, 4, 2, 2, 2, 1}); P p;
      switch (h) {
        case 0: p = jv(JV::OBJ); p->r = cee_json_object_mk(st); break;
        case 1: p = jv(JV::ARR); p->r = cee_json_array_mk(st, (int)choose(6)); break;
        case 2: { P v = draw_value(); string key = K(); p = jv(JV::OBJ); p->r = cee_json_object_kv(st, C(key), v->r); p->o.push_back({key, v}); break; }
        case 3: { struct cee_list *l = cee_list_mk(st, choose(5)); p = jv(JV::ARR); size_t n = choose(5); for (size_t i = 0; i < n; i++) { P v = draw_value(); cee_list_append(l, v->r); p->a.push_back(v); } p->r = cee_list_to_json(l); break; }
        case 4: { struct cee_map *m = cee_map_mk(st, (cee_cmp_fun)strcmp); p = jv(JV::OBJ); size_t n = choose(5); for (size_t i = 0; i < n; i++) { string key = K(); P v = draw_value(); cee_map_add(m, mkstr(st, key), v->r); setm(p, key, v); } p->r = cee_map_to_json(m); break; }
        default: { // a deep nest
          int d = chance(1, 3) ? 300 + (int)choose(400) : 10 + (int)choose(120); unsigned mode = choose(3); p = draw_scalar(); build(st, p);
          for (int i = 0; i < d; i++) { P q = jv(mode == 0 || (mode == 2 && i % 2) ? JV::ARR : JV::OBJ); q->r = q->t == JV::ARR ? cee_json_array_mk(st, 1) : cee_json_object_mk(st); if (q->t == JV::ARR) { cee_json_array_append(q->r, p->r); q->a.push_back(p); } else { cee_json_object_set(q->r, (char *)"d", p->r); q->o.push_back({"d", p}); } p = q; }
          sim::count("probe.deep-document"); break; }
      }
      add(p); ev("doc%d = new %s (how %u)", id(p), jtn[p->t], h); check(p); break; }
    case 1: {
      P o = O[choose(O.size())]; string key = !o->o.empty() && chance(1, 2) ? o->o[choose(o->o.size())].first : K(); unsigned h = weighted({8, 1, 1, 2, 1, 1, 2, 1});
      P v;
      switch (h) {
        case 0: v = draw_value(); if (reaches(v, o)) return; cee_json_object_set(o->r, C(key), v->r); break;
        case 1: cee_json_object_set_null(o->r, C(key)); v = konst(JV::NUL); break;
        case 2: { bool b = chance(1, 2); cee_json_object_set_bool(o->r, C(key), b); v = konst(JV::BOOL, b); break; }
        case 3: { v = jstr(chance(1, 12) ? long_text(draw_size(5000)) : draw_text()); cee_json_object_set_str(o->r, C(key), C(v->s)); break; }
        case 4: { string t = draw_text(); int n = (int)draw_i64(); cee_json_object_set_strf(o->r, C(key), "<%s|%d>", t.c_str(), n); v = jstr("<" + t + fmt("|%d>", n)); break; }
        case 5: v = jdbl(draw_dbl()); cee_json_object_set_double(o->r, C(key), v->d); break;
        case 6: v = ji64(draw_i64()); cee_json_object_set_i64(o->r, C(key), v->i); break;
        default: v = ju64(draw_u64()); cee_json_object_set_u64(o->r, C(key), v->u); break;
      }
      setm(o, key, v); if (!v->r) got(cee_json_object_get(o->r, C(key)), v);
      ev("doc%d[%s] = %s (how %u) -> %zu", id(o), show(key).c_str(), jtn[v->t], h, o->o.size()); check(o); break; }
    case 2: {
      P o = O[choose(O.size())]; string key = !o->o.empty() && !chance(1, 3) ? o->o[choose(o->o.size())].first : K(); P v = draw_value(); if (reaches(v, o)) return;
      int i = o->find(key); P old = i >= 0 ? o->o[i].second : nullptr;
      if (old && old->t == JV::ARR && (reaches(v, old) && old != v)) return;
      if (old && old == v && v->t == JV::ARR && expanded(v) > 4000) return;
      cee_json_object_append(o->r, C(key), v->r);
      if (!old) setm(o, key, v);
      else if (old->t == JV::ARR) { if (v->t == JV::ARR) { vector<P> c = v->a; old->a.insert(old->a.end(), c.begin(), c.end()); } else old->a.push_back(v); }
      else { P l = jv(JV::ARR); l->a.push_back(old); if (v->t == JV::ARR) l->a.insert(l->a.end(), v->a.begin(), v->a.end()); else l->a.push_back(v); got(cee_json_object_get(o->r, C(key)), l); setm(o, key, l); if (chance(1, 3)) add(l); }
      ev("doc%d[%s] append %s", id(o), show(key).c_str(), jtn[v->t]); check(o); break; }
    case 3: { P o = O[choose(O.size())]; string key = !o->o.empty() && !chance(1, 4) ? o->o[choose(o->o.size())].first : K(); cee_json_object_remove(o->r, C(key)); int i = o->find(key); if (i >= 0) o->o.erase(o->o.begin() + i); ev("doc%d remove %s -> %zu", id(o), show(key).c_str(), o->o.size()); check(o); break; }
    case 4: { P o = O[choose(O.size())]; string a = !o->o.empty() && !chance(1, 5) ? o->o[choose(o->o.size())].first : K(), b = !o->o.empty() && chance(1, 3) ? o->o[choose(o->o.size())].first : K();
      // renaming to a key that exists replaces that member
      int i = o->find(a); bool r = cee_json_object_rename(o->r, C(a), C(b)); SIM_CHECK(r == (i >= 0), "rename", "renaming %s returns %d", show(a).c_str(), r);
      if (i >= 0) { P v = o->o[i].second; o->o.erase(o->o.begin() + i); setm(o, b, v); }
      ev("doc%d rename %s to %s", id(o), show(a).c_str(), show(b).c_str()); check(o); break; }
    case 5: {
      P a = A[choose(A.size())]; unsigned h = weighted({5, 1, 2, 1}); P v;
      switch (h) {
        case 0: v = draw_value(); if (reaches(v, a)) return; cee_json_array_append(a->r, v->r); break;
        case 1: { bool b = chance(1, 2); cee_json_array_append_bool(a->r, b); v = konst(JV::BOOL, b); break; }
        case 2: v = jstr(chance(1, 12) ? long_text(draw_size(5000)) : draw_text()); cee_json_array_append_str(a->r, C(v->s)); break;
        default: { string t = draw_text(); cee_json_array_append_strf(a->r, "%s:%d", t.c_str(), 7); v = jstr(t + ":7"); break; }
      }
      a->a.push_back(v); if (!v->r) got(cee_json_array_get(a->r, (int)a->a.size() - 1), v); ev("doc%d append %s (how %u) -> %zu", id(a), jtn[v->t], h, a->a.size()); check(a); break; }
    case 6: { P a = A[choose(A.size())]; P v = draw_value(); if (reaches(v, a)) return; size_t i = choose(a->a.size() + 1); cee_json_array_insert(a->r, (int)i, v->r); a->a.insert(a->a.begin() + i, v); ev("doc%d insert %zu %s", id(a), i, jtn[v->t]); check(a); break; }
    case 7: { P a = A[choose(A.size())]; int i = a->a.empty() || chance(1, 8) ? (int)choose(6) - 2 + (chance(1, 2) ? (int)a->a.size() : 0) : (int)choose(a->a.size()); cee_json_array_remove(a->r, i); if (i >= 0 && i < (int)a->a.size()) a->a.erase(a->a.begin() + i); ev("doc%d remove [%d] -> %zu", id(a), i, a->a.size()); check(a); break; }
    case 8: { P a = A[choose(A.size())], b = A[choose(A.size())]; if (a != b && reaches(b, a)) return; if (a->a.size() + b->a.size() > 400) return; cee_json_array_concat(a->r, b->r); vector<P> c = b->a; a->a.insert(a->a.end(), c.begin(), c.end()); ev("doc%d concat doc%d -> %zu", id(a), id(b), a->a.size()); check(a); break; }
    case 9: { // merge
      P d = pool[choose(pool.size())], s = pool[choose(pool.size())]; if (O.size() > 1 && chance(1, 2)) { d = O[choose(O.size())]; s = O[choose(O.size())]; }
      std::set<JV *> dt, seen; if (!tree(d, dt)) return; size_t sz = expanded(s); if (sz > 1000 || expanded(d) > 4000) return;
      if (d != s) { std::set<JV *> sr; reach(s, sr); for (JV *x : dt) if (sr.count(x)) return; }
      if (d != s && reaches(s, d)) return;
      bool expect = d->t == s->t && d->box(), r;
      if (chance(1, 3)) { struct cee_json *x = d->r; r = cee_json_merge_or_return(&x, s->r); SIM_CHECK(x == d->r, "merge", "cee_json_merge_or_return replaced the document"); if (chance(1, 3)) { x = nullptr; bool q = cee_json_merge_or_return(&x, s->r); SIM_CHECK(q && x == s->r, "merge", "cee_json_merge_or_return(NULL, doc) does not return the document"); } } else r = cee_json_merge(d->r, s->r);
      SIM_CHECK(r == expect, "merge", "merging %s into %s returns %d", jtn[s->t], jtn[d->t], r);
      SIM_CHECK(!cee_json_merge(d->r, nullptr) && !cee_json_merge(nullptr, s->r), "merge", "merging NULL succeeds");
      if (expect) { merge_into(d, s); sim::count("probe.merge"); }
      ev("doc%d merge doc%d", id(d), id(s)); check(d); check(s); break; }
    case 10: { vector<P> v = of([](const P &p) { return p->t == JV::OBJ || p->t == JV::ARR || p->t == JV::STR; }); if (v.empty()) return; P p = v[choose(v.size())]; struct cee_json *j = cee_json_listify(p->r); ev("listify doc%d", id(p));
      if (p->t == JV::ARR) SIM_CHECK(j == p->r, "listify", "an array is listified to another value"); else { P l = jv(JV::ARR); l->a.push_back(p); l->r = j; add(l); check(l); } break; }
    case 11: { P p = pool[choose(pool.size())]; check(p); break; }
    case 12: { P p = pool[choose(pool.size())]; if (expanded(p) > 20000) return; do_select(p); break; }
    case 13: { P p = pool[choose(pool.size())]; if (expanded(p) > 5000) return; vector<string> ks; std::set<JV *> s1, s2; all_keys(p, ks, s1); string key = ks.empty() || chance(1, 3) ? K() : ks[choose(ks.size())]; std::set<struct cee_json *> v; has_vals(p, key, v, s2); struct cee_json *j = cee_json_has(p->r, C(key));
      SIM_CHECK((j != nullptr) == !v.empty() && (!j || v.count(j)), "has", "cee_json_has(doc%d, %s) finds a value of type %d, the document has %zu such members", id(p), show(key).c_str(), ty(j), v.size()); break; }
    case 14: { P p = pool[choose(pool.size())]; if (expanded(p) > 4000) return; unsigned pretty = choose(2), how = (unsigned)choose(HOWS); ev("print doc%d %u %u", id(p), pretty, how); check_print(p, pretty, how); break; }
    case 15: { vector<P> v = of([](const P &p) { return p->box(); }); if (v.empty()) return; P p = v[choose(v.size())]; size_t n = p->t == JV::OBJ ? p->o.size() : p->a.size(); if (!n) return; size_t stop = 1 + choose(n); int ret = chance(1, 2) ? 1 : (int)choose(100) - 50; if (!ret) ret = 3; 
      if (p->t == JV::OBJ) { ItK it; it.stop = stop; it.ret = ret; int r = cee_json_object_iterate(p->r, &it, itk); SIM_CHECK(r == ret && it.v.size() == stop, "iteration", "stopping an iteration at member %zu with %d returns %d after %zu members", stop, ret, r, it.v.size()); }
      else { ItA it; it.stop = stop; it.ret = ret; int r = cee_json_array_iterate(p->r, &it, ita); SIM_CHECK(r == ret && it.v.size() == stop && !it.bad, "iteration", "stopping an iteration at element %zu with %d returns %d after %zu elements", stop, ret, r, it.v.size()); }
      break; }
    case 16: { if (O.empty()) return; P o = O[choose(O.size())]; struct cee_json *x = o->r; string t = chance(1, 8) ? long_text(draw_size(5000)) : draw_text(); cee_json_set_error(&x, "E%d:%s", 5, t.c_str()); SIM_CHECK(x == o->r, "error", "set_error replaced the document"); if (o->find("error") < 0) { P v = jstr("E5:" + t); setm(o, "error", v); got(cee_json_object_get(o->r, (char *)"error"), v); } ev("doc%d set_error", id(o)); check(o); break; }
    case 17: { if (O.empty()) return; P o = O[choose(O.size())]; string key = !o->o.empty() ? o->o[choose(o->o.size())].first : K(); int i = o->find(key); P v = i < 0 ? nullptr : o->o[i].second; bool e = false; long long n = 0; int used = 0;
      if (v && v->t == JV::STR && (sscanf(v->s.c_str(), " %*[-+0-9]%n", &used), used && (size_t)used != v->s.size())) return; // only clear cases: a whole decimal number, no digits at all, or something else behind it
      bool behind = false;
      if (chance(1, 2)) { static const char *tail[] = {"x", ".5", "e3", "k1", ",", "-", "\xc3\xa9", "."}; string n = fmt("%lld", (long long)draw_i64()); behind = chance(1, 5); if (behind) n += tail[choose(8)]; v = jstr(n); cee_json_object_set_str(o->r, C(key), C(v->s)); setm(o, key, v); got(cee_json_object_get(o->r, C(key)), v);
        if (chance(1, 2)) { add(v); P w = O[choose(O.size())]; if (chance(1, 2) && w != o) { cee_json_object_set(w->r, C(key), v->r); setm(w, key, v); } } } // the same value is also elsewhere
      if (v && v->t == JV::I64) e = true; else if (v && v->t == JV::STR && !v->s.empty()) { char *q; errno = 0; n = strtoll(v->s.c_str(), &q, 10); e = !*q && q != v->s.c_str() && !errno; if (!e && q != v->s.c_str() && !behind) return; }
      P old = v; bool r = cee_json_object_convert_to_i64(o->r, C(key)); SIM_CHECK(r == e, "convert", "converting member %s to an integer returns %d", show(key).c_str(), r);
      if (e && v->t == JV::STR) { P w = ji64(n); setm(o, key, w); got(cee_json_object_get(o->r, C(key)), w); }
      ev("doc%d convert %s", id(o), show(key).c_str()); check(o); if (id(old) >= 0) check(old); break; }
    case 19: { // escaping text into a buffer of the caller, in two parts
      if (chance(1, 6)) { // a text of given length, with any byte in it
        string t = draw_text(); for (int i = 0, n = 1 + (int)choose(3); i < n; i++) t.insert(choose(t.size() + 1), 1, (char)choose(3));
        char *b = (char *)sim::arena_alloc(t.size() + 1), *s0 = nullptr, *o = nullptr; size_t n0 = 0, on = 0; memcpy(b, t.data(), t.size()); b[t.size()] = 'X'; struct cee_json *j = cee_json_strn_mk(st, b, t.size()); SIM_CHECK(cee_json_to_strn(j, &s0, &n0) && s0 == b && n0 == t.size(), "value", "a text of %zu bytes reads as %zu", t.size(), n0);
        ssize_t r = cee_json_asprint(st, &o, &on, j, (enum cee_json_fmt)0); string e = "\""; for (unsigned char c : t) { size_t k = string("\"\\\b\f\n\r\t").find((char)c); e += k != string::npos ? string("\\") + "\"\\bfnrt"[k] : c < 32 ? fmt("\\u%04x", c) : string(1, (char)c); } e += '"'; SIM_CHECK(r == (ssize_t)e.size() && e == o, "print", "the text %s prints as %s", show(t).c_str(), show(string(o)).c_str()); ev("strn %s", show(t).c_str()); break; }
      string t = draw_text(); for (int i = 0, n = (int)choose(4); i < n; i++) { size_t at = choose(t.size() + 1); while (at < t.size() && ((unsigned char)t[at] & 0xC0) == 0x80) at++; t.insert(at, 1, (char)(1 + choose(31))); } size_t cut = choose(t.size() + 1), need = 0; for (unsigned char c : t) need += strchr("\"\\\b\f\n\r\t", c) ? 2 : c < 32 ? 6 : 1; size_t room = need + (chance(1, 2) ? 0 : choose(20));
      char *buf = (char *)sim::arena_alloc(room ? room : 1), *at = nullptr; size_t left = 0, a = cee_json_escape_string(t.data(), cut, buf, room, &at, &left); SIM_CHECK(at == buf + a && left == room - a, "escape", "escaping %s: the next part starts at %td of %zu, %zu left", show(t).c_str(), at - buf, a, left);
      size_t b = cee_json_escape_string(t.data() + cut, t.size() - cut, at, left, nullptr, nullptr); string e(buf, a + b); P g; string q = "\"" + e + "\""; ev("escape %s", show(t).c_str()); RefParse rp(q, true); g = rp.doc(true); bool ok = g != nullptr; SIM_CHECK(a + b == need && ok && g->t == JV::STR && g->s == t, "escape", "%s is escaped as %s", show(t).c_str(), show(e).c_str()); break; }
    default: collect();
  }
}
static void big() { // more elements, members or characters than 16 bits can count
  st = cee_state_mk(4); size_t N = 65530 + choose(600); unsigned how = choose(3); P p; ev("big document: %zu %s", N, how == 0 ? "elements" : how == 1 ? "members" : "characters");
  if (how == 0) { p = jv(JV::ARR); p->r = cee_json_array_mk(st, 4); for (size_t i = 0; i < N; i++) { P v = ji64((int64_t)i); build(st, v); cee_json_array_append(p->r, v->r); p->a.push_back(v); }
    for (int k = 0; k < 6; k++) { size_t i = chance(1, 2) ? choose(N) : N - 8 - choose(20); if (chance(1, 2)) { P v = jstr("new"); build(st, v); cee_json_array_insert(p->r, (int)i, v->r); p->a.insert(p->a.begin() + i, v); } else { cee_json_array_remove(p->r, (int)i); p->a.erase(p->a.begin() + i); } }
    size_t at = p->a.size() - 1 - choose(20); SIM_CHECK(cee_json_select(p->r, C(fmt("[%zu]", at))) == p->a[at]->r, "select", "selecting [%zu] of %zu", at, p->a.size()); ItA it; it.stop = at; it.ret = 4; int r = cee_json_array_iterate(p->r, &it, ita); SIM_CHECK(r == 4 && it.v.size() == at && !it.bad, "iteration", "stopping an iteration at element %zu returns %d after %zu elements", at, r, it.v.size()); }
  else if (how == 1) { p = jv(JV::OBJ); p->r = cee_json_object_mk(st); for (size_t i = 0; i < N; i++) { string k = fmt("k%zu", i * 7919 % 1000003); P v = ji64((int64_t)i); build(st, v); cee_json_object_set(p->r, C(k), v->r); p->o.push_back({k, v}); } if (chance(1, 2)) { string k(N + choose(3000), 'K'); P v = jstr(string(N, 'V')); build(st, v); cee_json_object_set(p->r, C(k), v->r); p->o.push_back({k, v}); v = ji64(1); build(st, v); k.back() = 'L'; cee_json_object_set(p->r, C(k), v->r); p->o.push_back({k, v}); } for (int k = 0; k < 3; k++) { size_t i = N - 10 - choose(N - 20); cee_json_object_remove(p->r, C(p->o[i].first)); p->o.erase(p->o.begin() + i); } }
  else { p = jv(JV::ARR); p->r = cee_json_array_mk(st, 4); string t(N, 'x'); if (chance(1, 2)) for (size_t i = 0; i < N; i += 1 + choose(3000)) t[i] = "\n\"\\\001"[choose(4)]; P v = jstr(t); build(st, v); cee_json_array_append(p->r, v->r); p->a.push_back(v); }
  if (how != 1) mirror(p, p->r, "big"); else { SIM_CHECK(cee_map_size(cee_json_to_object(p->r)) == p->o.size(), "size", "an object of %zu members has size %zu", p->o.size(), (size_t)cee_map_size(cee_json_to_object(p->r))); for (auto &e : p->o) SIM_CHECK(cee_json_object_get(p->r, C(e.first)) == e.second->r, "member", "member %s of %zu", e.first.c_str(), p->o.size()); vector<string> ord = key_order(p->r); SIM_CHECK(ord.size() == p->o.size(), "order", "%zu of %zu members are listed", ord.size(), p->o.size()); for (size_t i = 0; i < ord.size(); i++) SIM_CHECK(ord[i] == p->o[i].first, "order", "member %zu of %zu is %s", i, ord.size(), ord[i].c_str()); }
  if (chance(1, 2)) { cee_state_add_gc_root(st, p->r); cee_state_gc(st); }
  string t = print(p, how != 2 && chance(1, 4), choose(3)); char *b = (char *)sim::arena_alloc(t.size()); memcpy(b, t.data(), t.size()); struct cee_json *j = nullptr; int line = -1; int r = cee_json_parsex(st, b, t.size(), &j, true, &line); SIM_CHECK(r == 0 && j, "reparse", "the printed text of %zu bytes is rejected at line %d", t.size(), line);
  if (how != 1) { RefParse rp(t, true); P g = rp.doc(true); string why; SIM_CHECK(g, "print", "the printed text of %zu bytes is not well-formed near offset %zu", t.size(), rp.p); SIM_CHECK(says(p, g, why), "print", "the printed text of %zu bytes: %s", t.size(), why.c_str()); mirror(g, j, "reparsed"); } else { SIM_CHECK(cee_map_size(cee_json_to_object(j)) == p->o.size(), "reparse", "%zu members become %zu", p->o.size(), (size_t)cee_map_size(cee_json_to_object(j))); for (auto &e : p->o) { struct cee_json *v = cee_json_object_get(j, C(e.first)); SIM_CHECK(v && (e.second->t == JV::STR ? v->t == CEE_JSON_STRING && e.second->s == (char *)cee_json_to_str(v) : v->t == CEE_JSON_I64 && cee_boxed_to_i64(cee_json_to_boxed(v)) == e.second->i), "reparse", "member %s of %zu", e.first.c_str(), p->o.size()); } }
  cee_del(st); SIM_CHECK(sim::live_blocks(sim::get_owner()) == 0, "leak", "%d blocks live after the state was deleted", sim::live_blocks(sim::get_owner())); sim::count("probe.big-sizes"); sim::mark_nontrivial();
}
static void run() {
#ifdef SIM_FS
  fs::init();
#endif
  if (BIG && chance(1, 700)) { sim::alloc_large(); sim::alloc_draw_config(); big(); return; }
  sim::alloc_draw_config(); st = cee_state_mk(10); pool.clear(); roots.clear(); keyspace = 2 + (unsigned)choose(chance(1, 4) ? 60 : 10); oddkeys = chance(2, 3);
  Steps stp(60, 400); unsigned n = 0;
  while (stp.more()) { Span s; op(); if (++n == 12) sim::mark_nontrivial(); if (chance(1, 20)) for (auto &p : pool) check(p); }
  vector<P> all = pool; for (auto &p : all) { check(p); if (expanded(p) < 1500) check_print(p, chance(1, 2), (unsigned)choose(HOWS)); }
  cee_del(st);
  SIM_CHECK(sim::live_blocks(sim::get_owner()) == 0, "leak", "%d blocks live after the state was deleted, e.g. %s", sim::live_blocks(sim::get_owner()), sim::block_desc(sim::first_live(sim::get_owner())));
}
#ifndef EMBED
namespace sim {
Harness harness = {"C10", run, 900000000, 16000, 600000,
  "one run = a seeded history of creations, edits (set, append, remove, rename, insert, concat, merge, listify, convert), look-ups (select, has, iterate, typed conversion), printing, parsing back and collections over up to 30 JSON documents that share sub-documents, under one seeded allocator behaviour, checked against a tree model with identities; non-trivial = at least 12 operations; distinct = distinct event history hash",
  {"cee-json/value.c", "cee-json/snprint.c", "cee-json/parser.c", "cee-json/tokenizer.c", "map.c", "list.c", "state.c", "str.c", "boxed.c", "tagged.c", "singleton.c", "block.c"}, {"malloc family (simulated heap)"}};
}
#endif
