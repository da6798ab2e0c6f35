// C02: the ordered map behaves as a finite map with insertion order, for every history of operations and
// every behaviour of the allocator.
#include "util.h"

static int cmp_kind; static uint64_t cmp_calls; static vector<string> *keytxt;
static int64_t num(const void *p) { return cee_boxed_to_i64((struct cee_boxed *)p); }
static int cmp(const void *a, const void *b) {
  cmp_calls++;
  switch (cmp_kind) {
    case 0: return strcmp((const char *)a, (const char *)b);
    case 1: { int64_t x = num(a), y = num(b); return x < y ? -1 : x > y; }
    case 2: return strcasecmp((const char *)a, (const char *)b);
    default: return -strcmp((const char *)a, (const char *)b);
  }
}
struct Model {
  vector<std::pair<string, void *>> kv;          // insertion order; key in canonical form
  int find(const string &k) const { for (size_t i = 0; i < kv.size(); i++) if (kv[i].first == k) return (int)i; return -1; }
};
struct M { struct cee_map *m; Model mod; int id; bool noop; };
static struct cee_state *st;
static vector<M> maps; static std::map<void *, string> *vname; static int nextv, nextm; static unsigned keyspace; static int keymode;
static const size_t MAXSIZE = 700;

static string canon(const string &k) { string r = k; if (cmp_kind == 2) for (char &c : r) c = tolower(c); return r; }
static string draw_key() {
  uint64_t k = choose(keyspace);
  if (cmp_kind == 1) return fmt("%lld", (long long)k - 5);
  string s = keymode == 0 ? fmt("k%llu", (unsigned long long)k) : keymode == 1 ? fmt("%05llu", (unsigned long long)k) : k == 0 ? string("") : string(1 + k % 70, 'a' + k % 26) + fmt("%llu", (unsigned long long)(k / 26));
  if (cmp_kind == 2 && chance(1, 2)) for (char &c : s) c = toupper(c);
  return s;
}
static void *mkkey(const string &k) {  // a fresh object
  if (cmp_kind == 1) return cee_boxed_from_i64(st, atoll(k.c_str()));
  return mkstr(st, k);
}
static string keyof(void *p) { if (cmp_kind == 1) return fmt("%lld", (long long)num(p)); return canon((char *)p); }
static bool borrow, borrow_keys; // the maps of this run do not own their values, and hold anything
static struct cee_map *mkmap() { if (!borrow) return cee_map_mk(st, cmp); enum cee_del_policy o[2] = {borrow_keys ? CEE_DP_NOOP : CEE_DP_DEL_RC, CEE_DP_NOOP}; return cee_map_mk_e(st, o, cmp); }
static void *newval() { if (borrow && chance(1, 8)) return nullptr; void *v = mkstr(st, fmt("v%d", nextv)); (*vname)[v] = fmt("v%d", nextv); nextv++; return v; }
static string vn(void *v) { if (!v) return "NULL"; auto it = vname->find(v); return it == vname->end() ? "?" : it->second; }
static void *probe(const string &k) { // key only used for lookups: caller-owned memory
  if (cmp_kind == 1) return mkkey(k);
  char *b = (char *)sim::arena_alloc(k.size() + 1); memcpy(b, k.c_str(), k.size() + 1); return b;
}
static uint64_t bound(size_t n) { return 2 * ((uint64_t)(1.4405 * log2((double)n + 2.0)) + 2); } // twice the height of an AVL tree: a comparison may be made twice at a node
static uint64_t fp(const Model &m) { uint64_t h = m.kv.size(); for (auto &p : m.kv) h = sim::mix(h, hstr(p.first)); return h; }

struct ItCtx { vector<std::pair<string, void *>> seen; int stop_after; int stop_with; };
static int it_cb(void *c, void *k, void *v) { ItCtx *x = (ItCtx *)c; x->seen.push_back({keyof(k), v}); if (x->stop_after > 0 && (int)x->seen.size() >= x->stop_after) return x->stop_with; return 0; }

static void check_list(struct cee_list *l, const vector<string> &want, bool ordered, const char *what, std::function<string(void *)> name) {
  vector<string> got; for (size_t i = 0; i < cee_list_size(l); i++) got.push_back(name(l->a[i]));
  vector<string> w = want;
  if (!ordered) { std::sort(got.begin(), got.end()); std::sort(w.begin(), w.end()); }
  SIM_CHECK(got.size() == w.size(), what, "%s lists %zu entries, the history implies %zu", what, got.size(), w.size());
  for (size_t i = 0; i < got.size(); i++) SIM_CHECK(got[i] == w[i], what, "%s: entry %zu is %s, expected %s", what, i, got[i].c_str(), w[i].c_str());
}
static vector<string> mkeys(const Model &m) { vector<string> r; for (auto &p : m.kv) r.push_back(p.first); return r; }
static vector<string> mvals(const Model &m) { vector<string> r; for (auto &p : m.kv) r.push_back(vn(p.second)); return r; }

static void full_check(M &x) {
  SIM_CHECK(cee_map_size(x.m) == x.mod.kv.size(), "size", "map m%d: size %zu, history implies %zu", x.id, (size_t)cee_map_size(x.m), x.mod.kv.size());
  struct cee_list *l = cee_map_insertion_ordered_keys(x.m); check_list(l, mkeys(x.mod), true, "insertion-ordered keys", keyof); cee_del(l);
  l = cee_map_keys(x.m); check_list(l, mkeys(x.mod), false, "keys", keyof); cee_del(l);
  l = cee_map_values(x.m); check_list(l, mvals(x.mod), false, "values", vn); cee_del(l);
  ItCtx c{{}, 0, 0}; int r = cee_map_iterate(x.m, &c, it_cb);
  SIM_CHECK(r == 0, "iterate", "complete iteration returned %d", r);
  SIM_CHECK(c.seen.size() == x.mod.kv.size(), "iterate", "iteration visited %zu pairs of %zu", c.seen.size(), x.mod.kv.size());
  std::set<string> seen;
  for (auto &p : c.seen) { int i = x.mod.find(p.first); SIM_CHECK(i >= 0 && x.mod.kv[i].second == p.second && seen.insert(p.first).second, "iterate", "iteration visited (%s,%s) which is not the pair stored", p.first.c_str(), vn(p.second).c_str()); }
  for (auto &p : x.mod.kv) {
    void *k = probe(p.first); cmp_calls = 0; void *v = cee_map_find(x.m, k); uint64_t n = cmp_calls;
    SIM_CHECK(v == p.second, "find", "m%d: find(%s) = %s, expected %s", x.id, show(p.first).c_str(), vn(v).c_str(), vn(p.second).c_str());
    SIM_CHECK(n <= bound(x.mod.kv.size()), "balance", "m%d: find(%s) among %zu keys took %llu comparisons (bound %llu)", x.id, show(p.first).c_str(), x.mod.kv.size(), (unsigned long long)n, (unsigned long long)bound(x.mod.kv.size()));
  }
  sim::state(fp(x.mod));
}
static void do_add(M &x, const string &k0, void *v) {
  string k = canon(k0); int i = x.mod.find(k); void *exp = i < 0 ? nullptr : x.mod.kv[i].second;
  void *key = mkkey(k0);
  cmp_calls = 0; void *r = cee_map_add(x.m, key, v);
  ev("m%d.add(%s,%s) -> %s", x.id, show(k0).c_str(), vn(v).c_str(), vn(r).c_str());
  SIM_CHECK(r == exp, "add", "m%d: add(%s) returned %s, expected the previous value %s", x.id, show(k0).c_str(), vn(r).c_str(), vn(exp).c_str());
  if (i < 0) x.mod.kv.push_back({k, v}); else x.mod.kv[i].second = v;
}
static void *merge_keep_old(void *ctx, void *o, void *n) { (*(int *)ctx)++; return o; }
static void *merge_take_new(void *ctx, void *o, void *n) { (*(int *)ctx)++; return n; }
static void *merged_val;
static void *merge_third(void *ctx, void *o, void *n) { (*(int *)ctx)++; return merged_val; }

static int count_cb(void *c, void *k, void *v) { size_t *x = (size_t *)c; x[0]++; x[2] += (size_t)num(k); return x[1] && x[0] >= x[1] ? 5 : 0; }
static void big() { // more keys than 16 bits can count
  st = cee_state_mk(4); cmp_kind = 1; size_t N = 65530 + choose(600), n = N; unsigned order = choose(3); uint64_t mul = order == 0 ? 1 : order == 1 ? N - 1 : 7919; while (std::__gcd((uint64_t)N, mul) != 1) mul++; ev("big map of %zu keys (order %u)", N, order);
  struct cee_map *m = cee_map_mk(st, cmp); struct cee_str *v[3] = {mkstr(st, "0"), mkstr(st, "1"), mkstr(st, "2")}; auto key = [&](size_t i) { return (int64_t)((i * mul + 1) % N); }; auto val = [&](int64_t k) { return (void *)v[k % 3]; };
  for (size_t i = 0; i < N; i++) SIM_CHECK(!cee_map_add(m, cee_boxed_from_i64(st, key(i)), val(key(i))), "add", "adding new key %zu of %zu finds a value", i, N);
  SIM_CHECK((size_t)cee_map_size(m) == N, "size", "a map of %zu keys has size %zu", N, (size_t)cee_map_size(m));
  struct cee_boxed *q = cee_boxed_from_i64(st, 0); auto find = [&](struct cee_map *m, int64_t k) { q->_.i64 = k; cmp_calls = 0; void *r = cee_map_find(m, q); SIM_CHECK(cmp_calls <= bound(N), "balance", "find among %zu keys took %llu comparisons (bound %llu)", N, (unsigned long long)cmp_calls, (unsigned long long)bound(N)); return r; };
  for (size_t i = 0; i < N; i++) SIM_CHECK(find(m, i) == val(i), "find", "find(%zu) among %zu keys", i, N); SIM_CHECK(!find(m, N) && !find(m, -1), "find", "a key that was never added is found");
  struct cee_list *l = cee_map_insertion_ordered_keys(m); SIM_CHECK(cee_list_size(l) == N, "insertion-ordered keys", "%zu of %zu keys are listed", cee_list_size(l), N); for (size_t i = 0; i < N; i++) SIM_CHECK(num(l->a[i]) == key(i), "insertion-ordered keys", "key %zu of %zu is %lld, %lld was added", i, N, (long long)num(l->a[i]), (long long)key(i)); cee_del(l);
  size_t c[3] = {0, 0, 0}; int r = cee_map_iterate(m, c, count_cb); SIM_CHECK(!r && c[0] == N && c[2] == N * (N - 1) / 2, "iterate", "iteration over %zu keys visits %zu and returns %d", N, c[0], r); size_t e[3] = {0, N - choose(10), 0}; r = cee_map_iterate(m, e, count_cb); SIM_CHECK(r == 5 && e[0] == e[1], "iterate-stop", "iteration stopped at pair %zu visits %zu and returns %d", e[1], e[0], r);
  std::set<int64_t> gone; for (int i = 0; i < 40; i++) { int64_t k = key(chance(1, 2) ? choose(N) : N - 1 - choose(30)); if (gone.count(k)) continue; q->_.i64 = k; void *o = cee_map_remove(m, q); SIM_CHECK(o == val(k), "remove", "remove(%lld) among %zu keys", (long long)k, n); gone.insert(k); n--; }
  SIM_CHECK((size_t)cee_map_size(m) == n, "size", "a map of %zu keys has size %zu", n, (size_t)cee_map_size(m)); for (size_t i = 0; i < N; i++) SIM_CHECK(find(m, i) == (gone.count(i) ? nullptr : val(i)), "find", "find(%zu) after %zu removals", i, gone.size());
  l = cee_map_insertion_ordered_keys(m); size_t at = 0; for (size_t i = 0; i < N; i++) if (!gone.count(key(i))) { SIM_CHECK(at < cee_list_size(l) && num(l->a[at]) == key(i), "insertion-ordered keys", "after %zu removals, key %zu is not the one added", gone.size(), at); at++; } SIM_CHECK(at == cee_list_size(l), "insertion-ordered keys", "%zu keys are listed, the map has %zu", cee_list_size(l), at);
  if (chance(1, 3)) { struct cee_map *k = cee_map_clone(m); SIM_CHECK((size_t)cee_map_size(k) == n, "clone", "the clone of %zu keys has %zu", n, (size_t)cee_map_size(k)); for (size_t i = 0; i < N; i++) SIM_CHECK(find(k, i) == (gone.count(i) ? nullptr : val(i)), "clone", "find(%zu) in the clone of %zu keys", i, n); }
  cee_del(st); SIM_CHECK(sim::live_blocks() == 0, "leak", "%d blocks remain", sim::live_blocks()); sim::count("probe.big-sizes"); sim::mark_nontrivial();
}
static void run() {
  if (BIG && chance(1, 700)) { sim::alloc_large(); sim::alloc_draw_config(); big(); return; }
  sim::alloc_draw_config();
  st = cee_state_mk(10);
  vname = new std::map<void *, string>;
  cmp_kind = weighted({4, 2, 1, 2}); keyspace = (unsigned[]){4, 12, 40, 300, 2000}[weighted({2, 4, 4, 2, 1})]; keymode = choose(3);
  unsigned rm_weight = (unsigned[]){3, 8, 1, 0}[weighted({4, 2, 2, 1})];
  bool sorted_fill = chance(1, 4);
  ev("config: comparator=%d keyspace=%u keymode=%d rmw=%u", cmp_kind, keyspace, keymode, rm_weight);
  maps.clear(); nextv = nextm = 0;
  borrow = chance(1, 5); borrow_keys = borrow && chance(1, 2); maps.push_back({mkmap(), Model(), nextm++, false});
  if (sorted_fill) { // monotone fill drives rotations to one side
    Span s; int n = sim::range(1, 260); bool down = chance(1, 2);
    ev("sorted fill %d %s", n, down ? "down" : "up");
    for (int i = 0; i < n; i++) { int q = down ? n - i : i; string k = cmp_kind == 1 ? fmt("%d", q + 100000) : fmt("s%06d", q); M &x = maps[0]; void *v = newval(); void *r = cee_map_add(x.m, mkkey(k), v); SIM_CHECK(!r, "add", "add of a new key returned %s", vn(r).c_str()); x.mod.kv.push_back({canon(k), v}); }
  }
  Steps stp(60, 600);
  int adds = 0;
  while (stp.more()) {
    Span s;
    size_t xi = choose(maps.size()); M &x = maps[xi];
    switch (weighted({12, 6, rm_weight, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1})) {
      case 0: {
        if (x.mod.kv.size() > MAXSIZE) break;
        void *v = !x.mod.kv.empty() && chance(1, 8) ? x.mod.kv[choose(x.mod.kv.size())].second : newval();
        do_add(x, draw_key(), v); adds++; if (adds > 5) sim::mark_nontrivial();
        break;
      }
      case 1: {
        string k = draw_key(); int i = x.mod.find(canon(k)); void *v = cee_map_find(x.m, probe(k));
        ev("m%d.find(%s) -> %s", x.id, show(k).c_str(), vn(v).c_str());
        SIM_CHECK(v == (i < 0 ? nullptr : x.mod.kv[i].second), "find", "m%d: find(%s) = %s, expected %s", x.id, show(k).c_str(), vn(v).c_str(), i < 0 ? "NULL" : vn(x.mod.kv[i].second).c_str());
        break;
      }
      case 2: {
        string k = !x.mod.kv.empty() && chance(3, 4) ? x.mod.kv[choose(x.mod.kv.size())].first : draw_key();
        int i = x.mod.find(canon(k)); void *exp = i < 0 ? nullptr : x.mod.kv[i].second;
        void *r = cee_map_remove(x.m, probe(k));
        ev("m%d.remove(%s) -> %s", x.id, show(k).c_str(), vn(r).c_str());
        SIM_CHECK(r == exp, "remove", "m%d: remove(%s) returned %s, expected %s", x.id, show(k).c_str(), vn(r).c_str(), vn(exp).c_str());
        if (i >= 0) x.mod.kv.erase(x.mod.kv.begin() + i);
        break;
      }
      case 3: {
        string a = !x.mod.kv.empty() && chance(3, 4) ? x.mod.kv[choose(x.mod.kv.size())].first : draw_key(), b = draw_key();
        int i = x.mod.find(canon(a)); bool r = cee_map_rename(x.m, probe(a), mkkey(b));
        ev("m%d.rename(%s,%s) -> %d", x.id, show(a).c_str(), show(b).c_str(), r);
        SIM_CHECK(r == (i >= 0), "rename", "m%d: rename(%s,%s) returned %d", x.id, show(a).c_str(), show(b).c_str(), r);
        if (i >= 0) { void *v = x.mod.kv[i].second; x.mod.kv.erase(x.mod.kv.begin() + i); int j = x.mod.find(canon(b)); if (j >= 0) x.mod.kv[j].second = v; else x.mod.kv.push_back({canon(b), v}); }
        break;
      }
      case 4: full_check(x); break;
      case 5: { struct cee_list *l = cee_map_insertion_ordered_keys(x.m); check_list(l, mkeys(x.mod), true, "insertion-ordered keys", keyof); break; }
      case 6: {
        if (x.mod.kv.empty()) break;
        ItCtx c{{}, (int)choose(x.mod.kv.size()) + 1, (int)choose(5) + 1 }; if (chance(1, 4)) c.stop_with = -7;
        int r = cee_map_iterate(x.m, &c, it_cb);
        ev("m%d.iterate stop after %d with %d -> %d", x.id, c.stop_after, c.stop_with, r);
        SIM_CHECK((int)c.seen.size() == c.stop_after, "iterate-stop", "iteration went on for %zu pairs after the callback stopped it at %d", c.seen.size(), c.stop_after);
        SIM_CHECK(r == c.stop_with, "iterate-stop", "iteration returned %d, the callback stopped it with %d", r, c.stop_with);
        break;
      }
      case 7: { if (maps.size() >= 4) break; maps.push_back({mkmap(), Model(), nextm++, false}); ev("m%d = new map", maps.back().id); break; }
      case 8: {
        if (maps.size() >= 4) break;
        struct cee_map *c = cee_map_clone(x.m); ev("m%d = clone of m%d", nextm, x.id);
        SIM_CHECK(c && c != x.m, "clone", "clone returned the same map");
        M n{c, x.mod, nextm++, false};
        // clone inserts in the order of its own traversal: only contents are promised
        struct cee_list *l = cee_map_insertion_ordered_keys(c); Model nm; std::set<string> seen;
        for (size_t i = 0; i < cee_list_size(l); i++) { string k = keyof(l->a[i]); int j = x.mod.find(k); SIM_CHECK(j >= 0 && seen.insert(k).second, "clone", "clone has key %s which the source has not", show(k).c_str()); nm.kv.push_back(x.mod.kv[j]); }
        SIM_CHECK(nm.kv.size() == x.mod.kv.size(), "clone", "clone has %zu keys, source %zu", nm.kv.size(), x.mod.kv.size());
        cee_del(l); n.mod = nm; maps.push_back(n); full_check(maps.back());
        break;
      }
      case 9: case 10: {
        size_t yi = choose(maps.size()); M &y = maps[yi];
        if (x.mod.kv.size() + y.mod.kv.size() > MAXSIZE) break;
        int calls = 0, want = 0; void *(*f)(void *, void *, void *) = nullptr; int how = choose(4);
        if (how == 1) f = merge_keep_old; else if (how == 2) f = merge_take_new; else if (how == 3) { f = merge_third; merged_val = newval(); }
        Model before = y.mod, xb = x.mod;
        cee_map_merge(x.m, y.m, &calls, f);
        ev("m%d.merge(m%d, %s)", x.id, y.id, how == 0 ? "overwrite" : how == 1 ? "keep old" : how == 2 ? "take new" : "third value");
        for (auto &p : before.kv) { int i = xb.find(p.first); if (i >= 0) want++; }
        if (f) SIM_CHECK(calls == want, "merge", "merge function called %d times for %d common keys", calls, want);
        // new keys arrive in the source's traversal order
        Model nm = xb;
        for (auto &p : before.kv) { int i = nm.find(p.first); if (i >= 0 && (size_t)i < xb.kv.size()) nm.kv[i].second = how == 0 || how == 2 ? p.second : how == 1 ? nm.kv[i].second : merged_val; }
        struct cee_list *l = cee_map_insertion_ordered_keys(x.m);
        vector<string> got; for (size_t i = 0; i < cee_list_size(l); i++) got.push_back(keyof(l->a[i]));
        cee_del(l);
        for (size_t i = 0; i < xb.kv.size(); i++) SIM_CHECK(i < got.size() && got[i] == xb.kv[i].first, "merge", "merge changed the order of the keys already present");
        std::set<string> seen(got.begin(), got.begin() + xb.kv.size());
        for (size_t i = xb.kv.size(); i < got.size(); i++) { int j = before.find(got[i]); SIM_CHECK(j >= 0 && seen.insert(got[i]).second, "merge", "merge produced key %s", show(got[i]).c_str()); nm.kv.push_back(before.kv[j]); }
        for (auto &p : before.kv) SIM_CHECK(nm.find(p.first) >= 0, "merge", "merge lost key %s of the source", show(p.first).c_str());
        x.mod = nm; if (xi != yi) { y.mod = before; full_check(y); } full_check(x);
        break;
      }
      case 11: { // NULL arguments, as documented
        SIM_CHECK(cee_map_size(nullptr) == 0, "null", "size of NULL"); SIM_CHECK(cee_map_iterate(nullptr, nullptr, it_cb) == 0, "null", "iterate NULL");
        SIM_CHECK(cee_map_find(x.m, nullptr) == nullptr, "null", "find(NULL key)"); SIM_CHECK(cee_map_add(x.m, nullptr, newval()) == nullptr, "null", "add(NULL key)");
        SIM_CHECK(cee_map_remove(x.m, nullptr) == nullptr && !cee_map_rename(x.m, nullptr, mkkey("1")), "null", "remove/rename(NULL)");
        if (!x.mod.kv.empty()) { string k = x.mod.kv[choose(x.mod.kv.size())].first; SIM_CHECK(!cee_map_rename(x.m, probe(k), nullptr), "null", "rename to NULL"); }
        break;
      }
      default: {
        if (maps.size() < 2) break;
        ev("delete m%d", x.id); cee_del(x.m); maps.erase(maps.begin() + xi);
        // values stay usable only through other owners: forget those nobody else holds
        break;
      }
    }
    if (maps.size() && chance(1, 6)) full_check(maps[choose(maps.size())]);
  }
  for (auto &x : maps) full_check(x);
  cee_del(st);
}
#ifndef EMBED
namespace sim {
Harness harness = {"C02", run, 400000000, 20000, 600000,
  "one run = one simulated process: a seeded history of map operations (add, find, remove, rename, iterate, early stop, merge, clone, delete) on up to 4 maps under one seeded allocator behaviour; non-trivial = more than 5 additions; distinct = distinct event history hash",
  {"map.c", "tuple.c", "list.c", "musl-tsearch.c", "str.c", "boxed.c", "state.c"}, {"malloc family (simulated heap)"}};
}
#endif
