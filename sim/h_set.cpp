// C03: sets and dicts behave as finite sets / insertion-only finite maps, for every history of operations and
// every behaviour of the allocator.
#include "util.h"
static struct cee_state *st; static int cmp_kind; static uint64_t cmp_calls;
static int cmp(const void *a, const void *b) {
  cmp_calls++;
  if (cmp_kind == 0) return strcmp((const char *)a, (const char *)b);
  if (cmp_kind == 1) { int64_t x = cee_boxed_to_i64((struct cee_boxed *)a), y = cee_boxed_to_i64((struct cee_boxed *)b); return x < y ? -1 : x > y; }
  return strcasecmp((const char *)a, (const char *)b);
}
struct Sx { struct cee_set *s; std::map<string, void *> m; int id; };
struct Dx { struct cee_dict *d; std::map<string, void *> m; size_t cap; int id; };
static vector<Sx> ss; static vector<Dx> ds; static int nid; static unsigned keyspace; static int keymode;
static std::map<void *, string> *names;
static string canon(string k) { if (cmp_kind == 2) for (char &c : k) c = tolower(c); return k; }
static string draw() { uint64_t k = choose(keyspace); if (cmp_kind == 1) return fmt("%lld", (long long)k - 3); string s = keymode == 0 ? fmt("k%llu", (unsigned long long)k) : keymode == 1 ? string(k % 90, 'q') + fmt("%llu", (unsigned long long)(k / 90)) : k == 0 ? string() : fmt("%04llu", (unsigned long long)k); if (cmp_kind == 2 && chance(1, 2)) for (char &c : s) c = toupper(c); return s; }
static void *mk(const string &k) { void *p = cmp_kind == 1 ? (void *)cee_boxed_from_i64(st, atoll(k.c_str())) : (void *)mkstr(st, k); (*names)[p] = k; return p; }
static string txt(void *p) { return canon(cmp_kind == 1 ? fmt("%lld", (long long)cee_boxed_to_i64((struct cee_boxed *)p)) : string((char *)p)); }
static void itcb(void *c, void *v) { ((vector<void *> *)c)->push_back(v); }
static int dkmode;
static string dkey(uint64_t n) { // numbers, long keys, keys of any length, keys that all have the same hash (h = 31 h + c), or a mixture
  if (dkmode == 4) { return n % 3 ? fmt("%llu", (unsigned long long)n) : [&] { string k; for (int b = 0; b < 9; b++) k += n >> b & 1 ? "Aa" : "BB"; return k; }(); }
  if (dkmode == 3) { string k; for (int b = 0; b < 9; b++) k += n >> b & 1 ? "Aa" : "BB"; return k; }
  string k = fmt(dkmode == 1 ? "dict-key-number-%llu" : "%llu", (unsigned long long)n); if (dkmode == 2) k += string(choose(40), '_'); return k;
}
static uint64_t bound(size_t n) { return 2 * ((uint64_t)(1.4405 * log2((double)n + 2.0)) + 2); } // twice the height of an AVL tree: a comparison may be made twice at a node
static void same(const vector<void *> &got, const std::map<string, void *> &m, const char *what) {
  SIM_CHECK(got.size() == m.size(), what, "%s yields %zu elements, history implies %zu", what, got.size(), m.size());
  std::set<void *> seen; for (void *p : got) { auto it = m.find(txt(p)); SIM_CHECK(it != m.end() && it->second == p && seen.insert(p).second, what, "%s yields %s which is not the element stored", what, show(txt(p)).c_str()); }
}
static void chk(Sx &x) {
  SIM_CHECK(cee_set_size(x.s) == x.m.size() && cee_set_empty(x.s) == x.m.empty(), "set-size", "set S%d: size %zu empty %d, history implies %zu", x.id, cee_set_size(x.s), cee_set_empty(x.s), x.m.size());
  vector<void *> got; cee_set_iterate(x.s, &got, itcb); same(got, x.m, "iteration");
  struct cee_list *l = cee_set_values(x.s); got.assign(l->a, l->a + cee_list_size(l)); same(got, x.m, "values"); cee_del(l);
  uint64_t h = 5;
  for (auto &p : x.m) { void *k = mk(p.first); cmp_calls = 0; void *r = cee_set_find(x.s, k); SIM_CHECK(r == p.second, "set-find", "S%d: find(%s) does not return the element added first", x.id, show(p.first).c_str()); SIM_CHECK(cmp_calls <= bound(x.m.size()), "balance", "find among %zu elements took %llu comparisons (bound %llu)", x.m.size(), (unsigned long long)cmp_calls, (unsigned long long)bound(x.m.size())); cee_del(k); h = sim::mix(h, hstr(p.first)); }
  sim::state(h);
}
static void chk(Dx &x) {
  for (auto &p : x.m) { char *k = (char *)sim::arena_alloc(p.first.size() + 1); strcpy(k, p.first.c_str()); void *r = cee_dict_find(x.d, k); SIM_CHECK(r == p.second, "dict-find", "D%d: find(%s) does not return the value added", x.id, show(p.first).c_str()); }
}
static void sum_cb(void *c, void *v) { size_t *x = (size_t *)c; x[0]++; x[1] += (size_t)cee_boxed_to_i64((struct cee_boxed *)v); }
static void big() { // more elements than 16 bits can count
  st = cee_state_mk(4); size_t N = 65530 + choose(600); 
  if (chance(1, 2)) {
    cmp_kind = 1; unsigned order = choose(3); uint64_t mul = order == 0 ? 1 : order == 1 ? N - 1 : 7919; while (std::__gcd((uint64_t)N, mul) != 1) mul++; ev("big set of %zu elements (order %u)", N, order); vector<void *> e(N);
    struct cee_set *s = cee_set_mk(st, cmp); for (size_t i = 0; i < N; i++) { size_t k = i * mul % N; e[k] = cee_boxed_from_i64(st, k); cee_set_add(s, e[k]); } for (int i = 0; i < 20; i++) cee_set_add(s, cee_boxed_from_i64(st, choose(N)));
    SIM_CHECK(cee_set_size(s) == N, "set-size", "a set of %zu elements has size %zu", N, cee_set_size(s)); size_t c[2] = {0, 0}; cee_set_iterate(s, c, sum_cb); SIM_CHECK(c[0] == N && c[1] == N * (N - 1) / 2, "iteration", "iteration over %zu elements visits %zu", N, c[0]);
    struct cee_boxed *q = cee_boxed_from_i64(st, 0); std::set<size_t> gone; auto all = [&](struct cee_set *s) { for (size_t i = 0; i <= N; i++) { q->_.i64 = i; cmp_calls = 0; void *r = cee_set_find(s, q); SIM_CHECK(r == (i < N && !gone.count(i) ? e[i] : nullptr), "set-find", "find(%zu) among %zu elements", i, N - gone.size()); SIM_CHECK(cmp_calls <= bound(N), "balance", "find among %zu elements took %llu comparisons (bound %llu)", N, (unsigned long long)cmp_calls, (unsigned long long)bound(N)); } }; all(s);
    for (int i = 0; i < 40; i++) { size_t k = choose(N); if (gone.count(k)) continue; q->_.i64 = k; SIM_CHECK(cee_set_remove(s, q) == e[k], "set-remove", "remove(%zu) among %zu elements", k, N); gone.insert(k); } SIM_CHECK(cee_set_size(s) == N - gone.size(), "set-size", "a set of %zu elements has size %zu", N - gone.size(), cee_set_size(s)); all(s);
    struct cee_list *l = cee_set_values(s); SIM_CHECK(cee_list_size(l) == N - gone.size(), "values", "%zu of %zu elements are listed", cee_list_size(l), N - gone.size()); std::set<void *> seen(l->a, l->a + cee_list_size(l)); SIM_CHECK(seen.size() == cee_list_size(l), "values", "an element is listed twice"); for (void *p : seen) { size_t k = cee_boxed_to_i64((struct cee_boxed *)p); SIM_CHECK(k < N && e[k] == p && !gone.count(k), "values", "a strange element is listed"); }
    if (chance(1, 3)) { struct cee_set *k = cee_set_clone(s); SIM_CHECK(cee_set_size(k) == N - gone.size(), "clone", "the clone of %zu elements has %zu", N - gone.size(), cee_set_size(k)); all(k); }
  } else { ev("big dict of %zu entries", N); struct cee_dict *d = cee_dict_mk(st, chance(1, 2) ? N : 100); SIM_CHECK(d, "dict-mk", "dict creation failed"); vector<void *> v; for (size_t i = 0; i < N; i++) { v.push_back(cee_boxed_from_u64(st, i)); cee_dict_add(d, (char *)mkstr(st, fmt("k%zu", i)), v[i]); } for (size_t i = 0; i < N; i++) SIM_CHECK(cee_dict_find(d, (char *)fmt("k%zu", i).c_str()) == v[i], "dict-find", "find of entry %zu of %zu", i, N); SIM_CHECK(!cee_dict_find(d, (char *)"k-1"), "dict-find", "a key that was never added is found"); }
  cee_del(st); SIM_CHECK(sim::live_blocks() == 0, "leak", "%d blocks remain", sim::live_blocks()); sim::count("probe.big-sizes"); sim::mark_nontrivial();
}
static void run() {
  if (BIG && chance(1, 1500)) { sim::alloc_large(); sim::alloc_draw_config(); big(); return; }
  sim::alloc_draw_config(); st = cee_state_mk(10); names = new std::map<void *, string>; ss.clear(); ds.clear(); nid = 0; int n = 0;
  cmp_kind = weighted({4, 2, 1}); keyspace = (unsigned[]){5, 14, 60, 500}[weighted({2, 4, 3, 1})]; keymode = choose(3); dkmode = choose(5);
  ev("config: comparator=%d keyspace=%u keymode=%d dictionary keys=%d", cmp_kind, keyspace, keymode, dkmode);
  ss.push_back({cee_set_mk(st, cmp), {}, nid++});
  unsigned rmw = (unsigned[]){6, 12, 1}[choose(3)], clw = chance(1, 3) ? 0 : 1;
  if (chance(1, 6)) { Span sp; int N = (int)sim::range(1, 300), order = (int)choose(3); ev("fill S0 with %d elements, order %d", N, order); Sx &x = ss[0]; // a set with many elements, a dict with many entries
    for (int i = 0; i < N; i++) { int q = order == 0 ? i : order == 1 ? N - 1 - i : (int)((uint64_t)i * 7919 % N); string k = cmp_kind == 1 ? fmt("%d", q + 1000) : fmt("f%05d", q); if (x.m.count(canon(k))) continue; void *e = mk(k); cee_set_add(x.s, e); x.m[canon(k)] = e; } chk(x); n = 6; sim::mark_nontrivial();
    if (chance(1, 4)) { size_t cap = 1 + choose(300); Dx d{cee_dict_mk(st, cap), {}, cap, nid++}; ev("D%d = dict(%zu) with %d entries", d.id, cap, N); if (d.d) { for (int i = 0; i < N; i++) { string k = dkey(i); void *v = cee_boxed_from_u64(st, i); cee_dict_add(d.d, (char *)mkstr(st, k), v); d.m.insert({k, v}); } chk(d); ds.push_back(d); } else if (!sim::alloc_failed_once()) SIM_CHECK(d.d, "dict-mk", "dict creation failed"); } }
  Steps stp(70, 600);
  while (stp.more()) {
    Span s; if (ss.empty()) ss.push_back({cee_set_mk(st, cmp), {}, nid++});
    Sx &x = ss[choose(ss.size())];
    switch (weighted({14, 5, rmw, 2, 1, 1, 1, 2, 10, 5, 1, clw, 1})) {
      case 0: { string k = draw(); auto it = x.m.find(canon(k)); void *e = it != x.m.end() && chance(1, 3) ? it->second : mk(k); // the very same element, or an equal one
        cee_set_add(x.s, e); ev("S%d.add(%s)%s", x.id, show(k).c_str(), it != x.m.end() ? " already there" : ""); if (it == x.m.end()) { x.m[canon(k)] = e; } 
        SIM_CHECK(cee_set_size(x.s) == x.m.size(), "set-size", "S%d: size %zu after add(%s), history implies %zu", x.id, cee_set_size(x.s), show(k).c_str(), x.m.size()); if (++n > 5) sim::mark_nontrivial(); break; }
      case 1: { string k = draw(); void *p = mk(k); auto it = x.m.find(canon(k)); void *e = it == x.m.end() ? nullptr : it->second, *r = cee_set_find(x.s, p); ev("S%d.find(%s) -> %d", x.id, show(k).c_str(), r != nullptr); SIM_CHECK(r == e, "set-find", "S%d: find(%s) returned %s", x.id, show(k).c_str(), r ? "an element that should not be there" : "NULL for a member"); cee_del(p); break; }
      case 2: { string k = draw(); if (!x.m.empty() && chance(3, 4)) { auto it = x.m.begin(); std::advance(it, choose(x.m.size())); k = it->first; } void *p = mk(k); auto it = x.m.find(canon(k)); void *e = it == x.m.end() ? nullptr : it->second, *r = cee_set_remove(x.s, p); ev("S%d.remove(%s) -> %d", x.id, show(k).c_str(), r != nullptr);
        SIM_CHECK(r == e, "set-remove", "S%d: remove(%s) did not return the element removed", x.id, show(k).c_str()); cee_del(p); if (e) { x.m.erase(it); } break; }
      case 3: chk(x); break;
      case 4: { if (ss.size() >= 4) break; ss.push_back({chance(1, 2) ? cee_set_mk(st, cmp) : cee_set_mk_e(st, CEE_DP_NOOP, cmp), {}, nid++}); ev("S%d = set", ss.back().id); break; }
      case 5: { if (ss.size() >= 4) break; Sx y{cee_set_clone(x.s), x.m, nid++}; ev("S%d = clone of S%d", y.id, x.id); SIM_CHECK(y.s != x.s, "clone", "clone returned the same set"); chk(y); ss.push_back(y); break; }
      case 6: { if (ds.empty()) break; chk(ds[choose(ds.size())]); break; }
      case 7: { if (ds.size() >= 3) break; size_t cap = (size_t[]){8, 1, 2, 3, 30, 100, 300, 0}[choose(8)]; Dx d{cee_dict_mk(st, cap), {}, cap, nid++}; ev("D%d = dict(%zu)", d.id, cap); if (!d.d && sim::alloc_failed_once()) { sim::count("probe.failure-reported"); break; } SIM_CHECK(d.d, "dict-mk", "dict creation failed"); ds.push_back(d); break; }
      case 8: { if (ds.empty()) break; Dx &d = ds[choose(ds.size())]; string k = dkey(choose(keyspace)); struct cee_str *key = mkstr(st, k); struct cee_boxed *v = cee_boxed_from_u64(st, n); n++; cee_dict_add(d.d, (char *)key, v); ev("D%d.add(%s)", d.id, k.c_str()); d.m.insert({k, v}); chk(d); break; }
      case 9: { if (ds.empty()) break; Dx &d = ds[choose(ds.size())]; string k = chance(1, 2) || d.m.empty() ? dkey(choose(keyspace)) : std::next(d.m.begin(), choose(d.m.size()))->first; auto it = d.m.find(k); void *r = cee_dict_find(d.d, (char *)mkstr(st, k)); ev("D%d.find(%s) -> %d", d.id, k.c_str(), r != nullptr); SIM_CHECK(r == (it == d.m.end() ? nullptr : it->second), "dict-find", "D%d: find(%s) returned %s", d.id, k.c_str(), r ? "a value that was not added under this key" : "NULL for a key added before"); break; }
      case 10: { vector<void *> g; cee_set_iterate(nullptr, &g, itcb); SIM_CHECK(g.empty() && cee_set_size(nullptr) == 0 && cee_set_empty(nullptr) && !cee_set_find(nullptr, (void *)"a") && !cee_set_remove(nullptr, (void *)"a"), "null", "functions of the NULL set"); break; }
      case 12: { if (ss.size() >= 4) break; Sx &w = ss[choose(ss.size())]; Sx y{nullptr, x.m, nid++}; struct cee_state *s2 = chance(1, 4) ? cee_state_mk(4) : st; // the new set belongs to the state given
        int b2 = sim::live_blocks(sim::get_owner()); y.s = cee_set_union_set(s2, x.s, w.s); SIM_CHECK(cee_get_state(y.s) == s2, "union", "the union of two sets does not belong to the state it was asked for"); if (s2 != st) { for (auto &p : w.m) y.m.insert(p); ev("S%d + S%d in another state", x.id, w.id); chk(y); chk(x); chk(w); cee_del(s2); SIM_CHECK(sim::live_blocks(sim::get_owner()) < b2, "union", "deleting the state of a union leaves it"); chk(x); chk(w); break; } ev("S%d = S%d + S%d", y.id, x.id, w.id); for (auto &p : w.m) y.m.insert(p); SIM_CHECK(y.s && y.s != x.s && y.s != w.s, "union", "the union is not a new set"); chk(y); chk(x); chk(w); ss.push_back(y); break; }
      default: { // clearing deletes elements nobody else refers to: keep one more reference to each in a list of the same state
        struct cee_list *keep = cee_list_mk(st, 4); for (auto &p : x.m) cee_list_append(keep, p.second); cee_set_clear(x.s); ev("S%d.clear", x.id); x.m.clear(); chk(x); break; }
    }
    if (chance(1, 8)) { for (auto &y : ss) chk(y); }
  }
  for (auto &y : ss) chk(y); for (auto &d : ds) chk(d);
  cee_del(st);
}
#ifndef EMBED
namespace sim {
Harness harness = {"C03", run, 400000000, 60000, 1000000,
  "one run = a seeded history of set operations (add, find, remove, iterate, values, clone, union, clear) on up to 4 sets and dict operations (add, find) on up to 3 dicts under one seeded allocator behaviour, checked against std::map; non-trivial = more than 5 additions; distinct = distinct event history hash",
  {"set.c", "dict.c", "musl-tsearch.c", "musl-hsearch.c", "list.c", "str.c", "boxed.c", "state.c"}, {"malloc family (simulated heap)"}};
}
#endif
