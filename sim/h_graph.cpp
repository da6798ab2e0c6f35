// Object graphs of the container library under garbage collection, explicit deletion and state deletion.
//   C05  cee_state_gc never frees or damages anything reachable from a root, a context or the state's stack
//   C06  cee_state_gc frees everything unreachable, at the first collection after it became unreachable
//   C07  deleting a state frees exactly its blocks, once, and touches no other state
//   C08  explicit deletion follows the declared delete policies and reference counts exactly
//   C22  environments and closures resolve the innermost binding, across collections
#include "util.h"
#if defined(PROP_C08)
#define P08 1
#else
#define P08 0
#endif
#if defined(PROP_C07)
#define P07 1
#else
#define P07 0
#endif
#if defined(PROP_C06)
#define P06 1
#else
#define P06 0
#endif
#if defined(PROP_C22)
#define P22 1
#else
#define P22 0
#endif
#if defined(PROP_C05)
#define P05 1
#else
#define P05 0
#endif

enum Kind { STR, BOXED, BLOCK, LIST, STACK, TUPLE, TRIPLE, QUAD, NTUPLE, SET, MAP, DICT, TAGGED, ENV, CLOSURE, GARBAGE, NKIND };
static const char *kname[] = {"str", "boxed", "block", "list", "stack", "tuple", "triple", "quadruple", "n_tuple", "set", "map", "dict", "tagged", "env", "closure", "old buffer"};
enum Pol { RC = CEE_DP_DEL_RC, DEL = CEE_DP_DEL, NOOP = CEE_DP_NOOP };
struct Obj { int id, kind; void *p; int st, blk; vector<int> kids; vector<int> keys; Pol pol, kpol; string text; int64_t num; size_t cap; bool alive; long rc; bool retained; };
struct St { struct cee_state *s; bool alive; int owner; vector<int> roots, stack; size_t stcap; std::map<string, std::pair<int, int>> ctx; int base; int warm; };
static vector<Obj> *O; static vector<St> *ST; static std::set<int> *freed_blocks; static int nobj_alive; static int gcs; static long nextnum; static bool CYC; /* cycles allowed: no explicit deletion then, reference counts cannot free cycles */
static Obj &o(int i) { return (*O)[i]; }
struct Obs : sim::FreeObserver { void freed(int id) override { freed_blocks->insert(id); } } obs;

static const char *pn(Pol p) { return p == RC ? "rc" : p == DEL ? "del" : "noop"; }
static string nm(int i) { return i < 0 ? string("-") : fmt("o%d", i); }
static bool reaches(int from, int to) { if (CYC) return false; std::set<int> seen; vector<int> w{from}; while (!w.empty()) { int i = w.back(); w.pop_back(); if (i < 0 || !seen.insert(i).second) continue; if (i == to) return true; for (int k : o(i).kids) w.push_back(k); for (int k : o(i).keys) w.push_back(k); } return false; }
static int ptrcmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static void *clo_fun(struct cee_state *s, struct cee_env *env, size_t n, va_list ap) { void *r = nullptr; if (n == 1) r = cee_env_find(env, va_arg(ap, char *)); else for (size_t i = 0; i < n; i++) { char *k = va_arg(ap, char *); r = cee_env_find(env, k); if (i == 0 && r) break; } return r; }

static int reg(int kind, int st, void *p) {
  Obj x; x.id = (int)O->size(); x.kind = kind; x.p = p; x.st = st; x.blk = sim::block_of(p); x.pol = x.kpol = RC; x.num = 0; x.cap = 0; x.alive = true; x.rc = 0; x.retained = false;
  SIM_CHECK(x.blk >= 0 && sim::block_live(x.blk), "creation", "new %s is not in a live block", kname[kind]);
  for (auto &y : *O) if (y.alive && y.blk == x.blk) violation("creation", "new %s shares its block with o%d", kname[kind], y.id);
  O->push_back(x); nobj_alive++; return x.id;
}
static void attach(Pol pol, int child) { if (child < 0) return; if (pol == RC) { if (!o(child).retained) o(child).rc++; } else if (pol == DEL) o(child).retained = true; }
static void detach(Pol pol, int child) { if (child < 0) return; if (pol == RC) { if (!o(child).retained && o(child).rc) o(child).rc--; } else if (pol == DEL) o(child).retained = false; }
// model of explicit deletion
static bool m_twice; // an object owned by one container and counted by another, both deleted at once: not allowed
static void m_del(int i, std::set<int> &dead);
static void m_del_e(Pol pol, int i, std::set<int> &dead) { if (i < 0) return; if (pol != NOOP && !o(i).alive) { m_twice = true; return; } if (pol == RC) { if (o(i).rc) o(i).rc--; if (o(i).retained) return; if (!o(i).rc) m_del(i, dead); } else if (pol == DEL) m_del(i, dead); }
static void m_del(int i, std::set<int> &dead) {
  Obj &x = o(i); if (!x.alive) violation("model", "harness: deletion of a dead object"); x.alive = false; dead.insert(i); nobj_alive--;
  vector<int> kids = x.kids, keys = x.keys; Pol pol = x.pol, kpol = x.kpol; int kind = x.kind;
  if (kind == CLOSURE) return;
  if (kind == ENV) { m_del_e(pol, kids[0], dead); m_del_e(kpol, kids[1], dead); return; }
  for (size_t k = 0; k < kids.size(); k++) m_del_e(pol, kids[k], dead);
  for (size_t k = 0; k < keys.size(); k++) m_del_e(kpol, keys[k], dead);
}
// may every object be deleted that deleting i deletes (in particular no owner left behind with a dangling edge)?
static int refs(int i) { int n = 0; for (auto &x : *O) if (x.alive) { for (int k : x.kids) n += k == i; for (int k : x.keys) n += k == i; } const St &s = (*ST)[o(i).st]; for (int r : s.roots) n += r == i; for (int r : s.stack) n += r == i; for (auto &c : s.ctx) n += (c.second.first == i) + (c.second.second == i); return n; }
static void refs_all(vector<int> &n) { n.assign(O->size(), 0); for (auto &x : *O) if (x.alive) { for (int k : x.kids) if (k >= 0) n[k]++; for (int k : x.keys) n[k]++; } for (auto &s : *ST) if (s.alive) { for (int r : s.roots) n[r]++; for (int r : s.stack) n[r]++; for (auto &c : s.ctx) { n[c.second.first]++; n[c.second.second]++; } } }
static bool conflict(const std::set<int> &dead, int from, const vector<int> &kids) { std::map<int, int> own, any; auto edge = [&](Pol p, int c) { if (c < 0 || p == NOOP) return; any[c]++; if (p == DEL) own[c]++; };
  for (int d : dead) { const Obj &x = o(d); if (x.kind == CLOSURE) continue; for (size_t k = 0; k < x.kids.size(); k++) edge(x.kind == ENV && k ? x.kpol : x.pol, x.kids[k]); for (int k : x.keys) edge(x.kpol, k); }
  if (from >= 0) for (int c : kids) edge(o(from).pol, c); for (auto &p : own) if (any[p.first] > 1) return true; return false; }
static bool deletable(int i) { if (refs(i)) return false;
  // simulate on a copy: no surviving object may refer to a deleted one
  vector<Obj> save = *O; int sa = nobj_alive; std::set<int> dead; m_twice = false; m_del(i, dead); bool ok = !m_twice && !conflict(dead, -1, {});
  for (auto &x : *O) if (x.alive && ok) { for (int k : x.kids) if (k >= 0 && dead.count(k)) ok = false; for (int k : x.keys) if (dead.count(k)) ok = false; }
  for (auto &s : *ST) if (s.alive) { for (int r : s.roots) if (dead.count(r)) ok = false; for (int r : s.stack) if (dead.count(r)) ok = false; for (auto &c : s.ctx) if (dead.count(c.second.first) || dead.count(c.second.second)) ok = false; }
  *O = save; nobj_alive = sa; return ok; }

// boxed values of all ten types; what was stored is what each type reads and prints, also after conversions to the narrower type
static struct cee_boxed *box(struct cee_state *s, int t, int64_t v) {
  switch (t) { case 0: return cee_boxed_from_i64(s, v); case 1: return cee_boxed_from_u64(s, (uint64_t)v * 0x9e3779b97f4a7c15u); case 2: return cee_boxed_from_i32(s, -(int32_t)v * 40503); case 3: return cee_boxed_from_u32(s, (uint32_t)v * 2654435769u); case 4: return cee_boxed_from_i16(s, (int16_t)(-v * 31)); case 5: return cee_boxed_from_u16(s, (uint16_t)(v * 63)); case 6: return cee_boxed_from_i8(s, (int8_t)(-v)); case 7: return cee_boxed_from_u8(s, (uint8_t)v); case 8: return cee_boxed_from_double(s, v * -1.25e17); default: return cee_boxed_from_float(s, (float)v / 8); }
}
static bool box_ok(struct cee_boxed *b, int t, int64_t v) {
  char w[64], g[64]; memset(g, 'q', sizeof g); bool ok;
  switch (t) { case 0: ok = cee_boxed_to_i64(b) == v; snprintf(w, 64, "%lld", (long long)v); break; case 1: { uint64_t x = (uint64_t)v * 0x9e3779b97f4a7c15u; ok = cee_boxed_to_u64(b) == x; snprintf(w, 64, "%llu", (unsigned long long)x); break; }
    case 2: { int32_t x = -(int32_t)v * 40503; ok = cee_boxed_to_i32(b) == x; snprintf(w, 64, "%d", x); break; } case 3: { uint32_t x = (uint32_t)v * 2654435769u; ok = cee_boxed_to_u32(b) == x; snprintf(w, 64, "%u", x); break; }
    case 4: { int16_t x = (int16_t)(-v * 31); ok = cee_boxed_to_i16(b) == x; snprintf(w, 64, "%d", x); break; } case 5: { uint16_t x = (uint16_t)(v * 63); ok = cee_boxed_to_u16(b) == x; snprintf(w, 64, "%u", x); break; }
    case 6: { int8_t x = (int8_t)(-v); ok = cee_boxed_to_i8(b) == x; snprintf(w, 64, "%d", x); break; } case 7: { uint8_t x = (uint8_t)v; ok = cee_boxed_to_u8(b) == x; snprintf(w, 64, "%u", x); break; }
    case 8: ok = cee_boxed_to_double(b) == v * -1.25e17; snprintf(w, 64, "%g", v * -1.25e17); break; default: ok = cee_boxed_to_float(b) == (float)v / 8; snprintf(w, 64, "%g", (float)v / 8); break; }
  size_t n = cee_boxed_snprint(g, sizeof g, b); return ok && n == strlen(w) && !strcmp(w, g) && cee_boxed_snprint(nullptr, 0, b) == n;
}
static void verify(int i) {
  Obj &x = o(i); if (!x.alive) return;
  SIM_CHECK(sim::block_live(x.blk), "lost", "%s o%d is reachable but its memory was freed", kname[x.kind], i);
  auto kid = [&](size_t k) { return x.kids[k] < 0 ? nullptr : o(x.kids[k]).p; };
  switch (x.kind) {
    case STR: SIM_CHECK(!strcmp((char *)x.p, x.text.c_str()), "content", "str o%d holds %s instead of %s", i, show(string((char *)x.p, strnlen((char *)x.p, 60))).c_str(), show(x.text).c_str()); break;
    case BOXED: SIM_CHECK(box_ok((struct cee_boxed *)x.p, (int)x.cap, x.num), "content", "boxed o%d of type %zu does not read or print as the value it was made from (%lld)", i, x.cap, (long long)x.num); break;
    case BLOCK: for (size_t k = 0; k < x.cap; k++) SIM_CHECK(((unsigned char *)x.p)[k] == (unsigned char)(x.num + k), "content", "byte %zu of block o%d changed", k, i); break;
    case LIST: { struct cee_list *l = (struct cee_list *)x.p; SIM_CHECK(cee_list_size(l) == x.kids.size(), "content", "list o%d has %zu elements instead of %zu", i, cee_list_size(l), x.kids.size()); for (size_t k = 0; k < x.kids.size(); k++) SIM_CHECK(l->a[k] == kid(k), "content", "element %zu of list o%d changed", k, i); break; }
    case STACK: { struct cee_stack *l = (struct cee_stack *)x.p; SIM_CHECK(cee_stack_size(l) == x.kids.size(), "content", "stack o%d has %zu elements instead of %zu", i, (size_t)cee_stack_size(l), x.kids.size()); for (size_t k = 0; k < x.kids.size(); k++) SIM_CHECK(cee_stack_top(l, x.kids.size() - 1 - k) == kid(k), "content", "element %zu of stack o%d changed", k, i); break; }
    case TUPLE: case TRIPLE: case QUAD: case NTUPLE: for (size_t k = 0; k < x.kids.size(); k++) SIM_CHECK(((void **)x.p)[k] == kid(k), "content", "component %zu of %s o%d changed", k, kname[x.kind], i); break;
    case SET: { struct cee_set *s = (struct cee_set *)x.p; SIM_CHECK(cee_set_size(s) == x.kids.size(), "content", "set o%d has %zu elements instead of %zu", i, cee_set_size(s), x.kids.size()); for (size_t k = 0; k < x.kids.size(); k++) SIM_CHECK(cee_set_find(s, kid(k)) == kid(k), "content", "element o%d of set o%d is missing", x.kids[k], i); break; }
    case MAP: { struct cee_map *m = (struct cee_map *)x.p; SIM_CHECK(cee_map_size(m) == x.kids.size(), "content", "map o%d has %zu entries instead of %zu", i, (size_t)cee_map_size(m), x.kids.size());
      for (size_t k = 0; k < x.kids.size(); k++) SIM_CHECK(cee_map_find(m, (void *)o(x.keys[k]).text.c_str()) == kid(k), "content", "entry %s of map o%d changed", o(x.keys[k]).text.c_str(), i);
      struct cee_list *l = cee_map_insertion_ordered_keys(m); SIM_CHECK(cee_list_size(l) == x.keys.size(), "content", "map o%d lists %zu keys instead of %zu", i, cee_list_size(l), x.keys.size()); for (size_t k = 0; k < x.keys.size(); k++) SIM_CHECK(l->a[k] == o(x.keys[k]).p, "content", "key %zu in insertion order of map o%d is not the key object o%d that was added", k, i, x.keys[k]); cee_del(l); break; }
    case DICT: { for (size_t k = 0; k < x.kids.size(); k++) SIM_CHECK(cee_dict_find((struct cee_dict *)x.p, (char *)o(x.keys[k]).text.c_str()) == kid(k), "content", "entry %s of dict o%d changed", o(x.keys[k]).text.c_str(), i); break; }
    case TAGGED: { struct cee_tagged *t = (struct cee_tagged *)x.p; SIM_CHECK((int64_t)t->tag == x.num && t->ptr._ == kid(0), "content", "tagged o%d changed", i); break; }
    case ENV: { struct cee_env *e = (struct cee_env *)x.p; SIM_CHECK((void *)e->outer == kid(0) && (void *)e->vars == kid(1), "content", "env o%d changed", i); break; }
    case CLOSURE: { struct cee_closure *c = (struct cee_closure *)x.p; SIM_CHECK((void *)c->env == kid(0), "content", "closure o%d changed", i); break; }
    default: break;
  }
}
static void verify_state(int si) { for (auto &x : *O) if (x.alive && x.st == si) verify(x.id); St &s = (*ST)[si];
  for (auto &c : s.ctx) { void *v = cee_state_get_context(s.s, (char *)c.first.c_str()); SIM_CHECK(v == o(c.second.second).p, "content", "context %s of state %d changed", c.first.c_str(), si); }
  for (size_t k = 0; k < s.stack.size(); k++) SIM_CHECK(cee_stack_top(s.s->stack, s.stack.size() - 1 - k) == o(s.stack[k]).p, "content", "entry %zu of the stack of state %d changed", k, si); }
static void verify_all() { for (size_t i = 0; i < ST->size(); i++) if ((*ST)[i].alive) verify_state(i); }

// after an operation: exactly the objects of `dead` were freed
static void settle(const std::set<int> &dead, const char *what) {
  for (int b : *freed_blocks) for (auto &x : *O) if (x.blk == b && !dead.count(x.id) && x.kind != GARBAGE) violation("freed", "%s freed %s o%d, which it must not free (references %ld%s)", what, kname[x.kind], x.id, x.rc, x.retained ? ", retained" : "");
  for (int i : dead) if (!freed_blocks->count(o(i).blk)) violation("not-freed", "%s did not free %s o%d (references %ld)", what, kname[o(i).kind], i, o(i).rc);
  freed_blocks->clear();
}
static const std::set<int> none;

static bool WIDE; static size_t lim(size_t n, size_t w) { return WIDE ? w : n; } // a few runs have wide containers, large blocks, many roots, contexts and states
static int pick_obj(int st, std::function<bool(Obj &)> f) { vector<int> c; for (auto &x : *O) if (x.alive && x.st == st && f(x)) c.push_back(x.id); return c.empty() ? -1 : c[choose(c.size())]; }
static Pol draw_pol() { return P08 || P07 ? (Pol)weighted({4, 2, 2}) : (Pol)weighted({5, 1, 3}); }
static bool usable(int child, Pol pol) { // the developer's responsibility, as documented: exclusive ownership under DEL; under RC a count kept complete
  Obj &x = o(child); if (x.kind == GARBAGE) return pol == NOOP && !P08; if (x.retained) return P08 ? pol != DEL : pol == NOOP; if (pol == DEL) return refs(child) == 0; return true; }
static int child_for(int st, Pol pol, int cont, std::function<bool(Obj &)> f = nullptr) { return pick_obj(st, [&](Obj &x) { return (!f || f(x)) && x.kind != GARBAGE && usable(x.id, pol) && (cont < 0 || !reaches(x.id, cont)); }); }
static struct cee_str *viav(struct cee_state *s, const char *f, ...) { va_list ap; va_start(ap, f); struct cee_str *r = cee_str_mkv(s, f, ap); va_end(ap); return r; }
static int new_str(int si, const string &t) { struct cee_state *s = (*ST)[si].s; struct cee_str *p; switch (weighted({5, 2, 1, 1, 1})) { case 0: p = mkstr(s, t); break; case 1: p = cee_str_mk_e(s, choose(300), "%s", t.c_str()); break; case 2: p = cee_str_mk_e(s, t.size() + 1 + choose(100), nullptr); memcpy((char *)p, t.c_str(), t.size() + 1); break; case 3: p = cee_str_strn(s, (char *)t.data(), t.size()); break; default: p = viav(s, "%s", t.c_str()); } int i = reg(STR, si, p); o(i).text = t; return i; }
static int new_boxed(int si) { int64_t v = nextnum++; int t = chance(1, 2) ? 0 : 1 + (int)choose(9); int i = reg(BOXED, si, box((*ST)[si].s, t, v)); o(i).num = v; o(i).cap = t; return i; }
static int need_child(int si, Pol pol, int cont) { int c = chance(3, 4) ? child_for(si, pol, cont) : -1; return c >= 0 ? c : chance(1, 2) ? new_boxed(si) : new_str(si, fmt("s%ld", nextnum++)); }

static int make(int si) {
  struct cee_state *s = (*ST)[si].s; int kind = weighted({5, 3, 2, 6, 3, 4, 2, 2, 2, 4, 6, 2, 3, 2, 2}); Pol pol = draw_pol(); int id = -1;
  switch (kind) {
    case STR: { id = new_str(si, fmt("str%ld", nextnum++) + string(choose(3) * choose(lim(40, 1500)), 'x')); if (P08 || chance(1, 2)) cee_use_realloc(o(id).p); break; }
    case BOXED: id = new_boxed(si); break;
    case BLOCK: { size_t n = choose(lim(80, 6000)); void *p = n && chance(1, 2) ? cee_block_mk_nonzero(s, n) : cee_block_mk(s, n); id = reg(BLOCK, si, p); o(id).cap = n; o(id).num = choose(200); for (size_t k = 0; k < n; k++) ((unsigned char *)p)[k] = (unsigned char)(o(id).num + k); break; }
    case LIST: id = reg(LIST, si, cee_list_mk_e(s, (enum cee_del_policy)pol, choose(5))); break;
    case STACK: { size_t n = 1 + choose(lim(6, 200)); id = reg(STACK, si, cee_stack_mk_e(s, (enum cee_del_policy)pol, n)); o(id).cap = n; break; }
    case TUPLE: case TRIPLE: case QUAD: case NTUPLE: {
      size_t n = kind == TUPLE ? 2 : kind == TRIPLE ? 3 : kind == QUAD ? 4 : chance(1, 4) ? choose(17) : 1 + choose(4); if (kind == NTUPLE) pol = RC; vector<int> k; void *a[16]; enum cee_del_policy d[16];
      for (size_t i = 0; i < n; i++) { int c = need_child(si, pol, -1); if (pol == DEL && std::find(k.begin(), k.end(), c) != k.end()) c = new_boxed(si); k.push_back(c); }
      for (size_t i = 0; i < 16; i++) { a[i] = i < n ? o(k[i]).p : nullptr; d[i] = (enum cee_del_policy)pol; }
      void *p = kind == TUPLE ? (void *)cee_tuple_mk_e(s, d, a[0], a[1]) : kind == TRIPLE ? (void *)cee_triple_mk_e(s, d, a[0], a[1], a[2]) : kind == QUAD ? (void *)cee_quadruple_mk_e(s, d, a[0], a[1], a[2], a[3]) : (void *)cee_n_tuple_mk(s, n, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
      id = reg(kind, si, p); o(id).kids = k; for (int c : k) attach(pol, c); break; }
    case SET: id = reg(SET, si, cee_set_mk_e(s, (enum cee_del_policy)pol, ptrcmp)); break;
    case MAP: { Pol kp = draw_pol(); enum cee_del_policy d[2] = {(enum cee_del_policy)kp, (enum cee_del_policy)pol}; id = reg(MAP, si, cee_map_mk_e(s, d, (cee_cmp_fun)strcmp)); o(id).kpol = kp; break; }
    case DICT: { pol = RC; size_t n = chance(1, 8) ? 0 : 1 + choose(lim(10, 300)); void *dp = chance(1, 2) ? cee_dict_mk(s, n) : cee_dict_mk_e(s, chance(1, 2) ? CEE_DP_DEL : CEE_DP_DEL_RC, n); if (!dp && sim::alloc_failed_once()) { sim::count("probe.failure-reported"); ev("no dict"); id = new_boxed(si); break; } id = reg(DICT, si, dp); o(id).cap = n; break; }
    case TAGGED: { int c = chance(1, 5) ? -1 : need_child(si, pol, -1); int64_t tag = nextnum++; id = reg(TAGGED, si, pol == RC && chance(1, 2) ? cee_tagged_mk(s, tag, c < 0 ? nullptr : o(c).p) : cee_tagged_mk_e(s, (enum cee_del_policy)pol, tag, c < 0 ? nullptr : o(c).p)); o(id).kids.push_back(c); o(id).num = tag; attach(pol, c); break; }
    case ENV: { bool e = chance(1, 2); Pol vp = e ? draw_pol() : RC; if (!e) pol = RC; enum cee_del_policy d[2] = {(enum cee_del_policy)pol, (enum cee_del_policy)vp}; int outer = chance(1, 3) ? -1 : child_for(si, pol, -1, [](Obj &x) { return x.kind == ENV; }); int vars = chance(1, 6) ? -1 : child_for(si, vp, -1, [](Obj &x) { return x.kind == MAP; }); struct cee_env *oe = outer < 0 ? nullptr : (struct cee_env *)o(outer).p; struct cee_map *vm = vars < 0 ? nullptr : (struct cee_map *)o(vars).p; id = reg(ENV, si, e ? cee_env_mk_e(s, d, oe, vm) : cee_env_mk(s, oe, vm)); o(id).kids = {outer, vars}; o(id).kpol = vp; attach(pol, outer); attach(vp, vars); break; }
    case CLOSURE: { pol = NOOP; int e = child_for(si, NOOP, -1, [](Obj &x) { return x.kind == ENV; }); if (e < 0) { id = new_boxed(si); break; } id = reg(CLOSURE, si, cee_closure_mk(s, (struct cee_env *)o(e).p, (void *)clo_fun)); o(id).kids = {e}; break; }
  }
  if (o(id).kind == kind) o(id).pol = pol;
  string kl; for (int k : o(id).kids) kl += " " + nm(k);
  ev("o%d = %s(%s) in state %d%s", id, kname[o(id).kind], pn(o(id).pol), si, kl.c_str());
  return id;
}
// an object that a container with the policy DEL lets go must not have other references: they were not counted meanwhile
static bool may_release(Pol pol, int c) { return pol != DEL || refs(c) == 1; }
static void mutate(int si) {
  int i = pick_obj(si, [](Obj &x) { return x.kind == LIST || x.kind == STACK || x.kind == SET || x.kind == MAP || x.kind == DICT || x.kind == STR; }); if (i < 0) return;
  Pol pol = o(i).pol; std::set<int> dead;
  switch (o(i).kind) {
    case STR: { if (refs(i) || o(i).retained) { verify(i); break; } // grown strings may move: only while nobody refers to them
      string t = string(1 + choose(lim(130, 3000)), 'y'); int oldblk = o(i).blk; void *oldp = o(i).p; void *np = cee_str_catf((struct cee_str *)o(i).p, "%s", t.c_str()); o(i).text += t;
      if (np != oldp) { int nb = sim::block_of(np); o(i).p = np; o(i).blk = nb; if (sim::block_live(oldblk) && oldblk != nb) { Obj g = o(i); g.id = (int)O->size(); g.kind = GARBAGE; g.blk = oldblk; g.p = oldp; g.kids.clear(); g.rc = 0; O->push_back(g); nobj_alive++; } }
      ev("append %zu to str o%d%s", t.size(), i, np != oldp ? ", moved" : ""); freed_blocks->erase(oldblk); break; }
    case LIST: { struct cee_list *l = (struct cee_list *)o(i).p;
      if (!o(i).kids.empty() && chance(1, 3)) { int k = choose(o(i).kids.size()); int c = o(i).kids[k]; if (!may_release(pol, c)) break; bool r = cee_list_remove(l, k); ev("list o%d: remove #%d (o%d)", i, k, c); SIM_CHECK(r, "list", "removal failed"); o(i).kids.erase(o(i).kids.begin() + k); detach(pol, c); break; }
      int c = need_child(si, pol, i); if (reaches(c, i)) break; if (o(i).kids.size() > lim(30, 400)) break;
      if (chance(1, 3)) { int k = choose(o(i).kids.size() + 1); cee_list_insert(l, k, o(c).p); o(i).kids.insert(o(i).kids.begin() + k, c); ev("list o%d: insert o%d at %d", i, c, k); } else { cee_list_append(l, o(c).p); o(i).kids.push_back(c); ev("list o%d: append o%d", i, c); }
      attach(pol, c); break; }
    case STACK: { struct cee_stack *l = (struct cee_stack *)o(i).p;
      if (!o(i).kids.empty() && chance(2, 5)) { int c = o(i).kids.back(); if (!may_release(pol, c)) break; void *p = cee_stack_pop(l); SIM_CHECK(p == o(c).p, "stack", "pop returned something else than o%d", c); ev("stack o%d: pop o%d", i, c); o(i).kids.pop_back(); detach(pol, c); break; }
      int c = need_child(si, pol, i); if (reaches(c, i)) break; int r = cee_stack_push(l, o(c).p); ev("stack o%d: push o%d -> %d", i, c, r); SIM_CHECK((r != 0) == (o(i).kids.size() < o(i).cap), "stack", "push returned %d", r); if (r) { o(i).kids.push_back(c); attach(pol, c); } break; }
    case SET: { struct cee_set *s = (struct cee_set *)o(i).p;
      if (!o(i).kids.empty() && chance(1, 3)) { int k = choose(o(i).kids.size()), c = o(i).kids[k]; if (!may_release(pol, c)) break; void *r = cee_set_remove(s, o(c).p); SIM_CHECK(r == o(c).p, "set", "remove did not return o%d", c); ev("set o%d: remove o%d", i, c); o(i).kids.erase(o(i).kids.begin() + k); detach(pol, c); break; }
      if (!o(i).kids.empty() && !P22 && !CYC && chance(1, 10)) { ev("set o%d: clear", i); for (int c : o(i).kids) if (pol == DEL && refs(c) > 1) return; 
        // clearing deletes under the policy; valid only if nothing survives with an edge to a deleted element
        vector<int> kids = o(i).kids; vector<Obj> save = *O; int sa = nobj_alive; o(i).kids.clear(); m_twice = false; for (int c : kids) m_del_e(pol, c, dead);
        bool ok = !m_twice && !conflict(dead, i, kids); for (auto &x : *O) if (x.alive) { for (int k : x.kids) if (k >= 0 && dead.count(k)) ok = false; for (int k : x.keys) if (dead.count(k)) ok = false; } for (auto &t : *ST) if (t.alive) { for (int r : t.roots) if (dead.count(r)) ok = false; for (int r : t.stack) if (dead.count(r)) ok = false; for (auto &c : t.ctx) if (dead.count(c.second.first) || dead.count(c.second.second)) ok = false; }
        if (!ok) { *O = save; nobj_alive = sa; dead.clear(); ev("(skipped)"); break; } cee_set_clear(s); break; }
      int c = need_child(si, pol, i); if (reaches(c, i) || o(i).kids.size() > lim(30, 400)) break; bool there = std::find(o(i).kids.begin(), o(i).kids.end(), c) != o(i).kids.end();
      cee_set_add(s, o(c).p); ev("set o%d: add o%d%s", i, c, there ? " again" : ""); if (!there) { o(i).kids.push_back(c); attach(pol, c); } break; }
    case MAP: { struct cee_map *m = (struct cee_map *)o(i).p; Pol kp = o(i).kpol;
      if (!o(i).kids.empty() && chance(1, 3)) { int k = choose(o(i).kids.size()), c = o(i).kids[k], kk = o(i).keys[k]; if (!may_release(pol, c) || !may_release(kp, kk)) break; char *key = (char *)sim::arena_alloc(o(kk).text.size() + 1); strcpy(key, o(kk).text.c_str()); void *r = cee_map_remove(m, key); SIM_CHECK(r == o(c).p, "map", "remove(%s) did not return o%d", o(kk).text.c_str(), c); ev("map o%d: remove %s (key o%d, value o%d)", i, o(kk).text.c_str(), kk, c); o(i).kids.erase(o(i).kids.begin() + k); o(i).keys.erase(o(i).keys.begin() + k); detach(kp, kk); detach(pol, c); break; }
      if (!o(i).kids.empty() && chance(1, 8)) { int k = choose(o(i).kids.size()), kk = new_str(si, o(o(i).keys[k]).text), c = o(i).kids[k]; void *r = cee_map_add(m, o(kk).p, o(c).p); ev("map o%d: add %s (key o%d) -> o%d, as before", i, o(kk).text.c_str(), kk, c); SIM_CHECK(r == o(c).p, "map", "adding the value a key has returned something else than this value"); if (kp != NOOP) m_del(kk, dead); break; }
      if (o(i).kids.size() > lim(30, 400)) break;
      int c = need_child(si, pol, i); if (reaches(c, i)) break; string kt = fmt("key%d", (int)choose(lim(8, 300))); int pos = -1; for (size_t k = 0; k < o(i).keys.size(); k++) if (o(o(i).keys[k]).text == kt) pos = k;
      if (pos >= 0 && pol == DEL && (c == o(i).kids[pos] || !may_release(pol, o(i).kids[pos]))) break;
      int kk = new_str(si, kt); void *r = cee_map_add(m, o(kk).p, o(c).p); ev("map o%d: add %s (key o%d) -> o%d", i, kt.c_str(), kk, c);
      SIM_CHECK(r == (pos < 0 ? nullptr : o(o(i).kids[pos]).p), "map", "add returned something else than the previous value");
      if (pos < 0) { o(i).keys.push_back(kk); o(i).kids.push_back(c); attach(kp, kk); attach(pol, c); }
      else { int old = o(i).kids[pos]; attach(pol, c); detach(pol, old); o(i).kids[pos] = c; if (kp != NOOP) m_del(kk, dead); }
      break; }
    case DICT: { if (o(i).kids.size() >= o(i).cap) break; int c = need_child(si, RC, i); if (reaches(c, i)) break; int kk = new_str(si, fmt("d%ld", nextnum++)); cee_dict_add((struct cee_dict *)o(i).p, (char *)o(kk).p, o(c).p); ev("dict o%d: add %s -> o%d", i, o(kk).text.c_str(), c); o(i).keys.push_back(kk); o(i).kids.push_back(c); attach(RC, kk); attach(RC, c); break; }
  }
  settle(dead, "the operation");
}
static void gc(int si) {
  St &s = (*ST)[si]; std::set<int> live; vector<int> work = s.roots; for (int k : s.stack) work.push_back(k); for (auto &c : s.ctx) { work.push_back(c.second.first); work.push_back(c.second.second); }
  while (!work.empty()) { int i = work.back(); work.pop_back(); if (i < 0 || live.count(i)) continue; live.insert(i); for (int k : o(i).kids) work.push_back(k); for (int k : o(i).keys) work.push_back(k); }
  int dead = 0; for (auto &x : *O) if (x.alive && x.st == si && !live.count(x.id)) dead++;
  ev("gc state %d: %zu reachable, %d unreachable", si, live.size(), dead);
  freed_blocks->clear(); cee_state_gc(s.s); gcs++; if (dead && live.size()) sim::mark_nontrivial(); sim::count("gc.collections"); sim::count("gc.unreachable_objects", dead); sim::count("gc.reachable_objects", live.size());
  for (auto &x : *O) if (x.alive) {
    if (x.st != si) { SIM_CHECK(!freed_blocks->count(x.blk), "other-state", "collection of state %d freed %s o%d of state %d", si, kname[x.kind], x.id, x.st); continue; }
    if (live.count(x.id)) { SIM_CHECK(!freed_blocks->count(x.blk), "lost", "collection freed %s o%d, which is reachable", kname[x.kind], x.id); }
    else { if (P06) SIM_CHECK(freed_blocks->count(x.blk), "not-collected", "collection did not free %s o%d, which is unreachable", kname[x.kind], x.id); x.alive = false; nobj_alive--; }
  }
  // an edge of a dead object no longer counts, but a stale reference count of a survivor is not part of these properties
  freed_blocks->clear(); for (int i : live) verify(i);
  uint64_t h = 3; for (int i : live) h = sim::mix(h, sim::mix(o(i).kind, o(i).kids.size())); sim::state(h);
}
static int id_of(const vector<int> &c, void *p) { for (int i : c) if (i >= 0 && o(i).p == p) return i; return -1; }
// lists, clones, unions and merges that the library makes from other containers: new owners under the policies it gives them
static void derive(int si) {
  struct cee_state *s = (*ST)[si].s; int i = pick_obj(si, [](Obj &x) { return x.kind == SET || x.kind == MAP || x.kind == LIST; }); if (i < 0 || nobj_alive > 250) return; Pol pol = o(i).pol; std::set<int> dead;
  auto as_list = [&](struct cee_list *l, const vector<int> &from, Pol p, const char *what) { int id = reg(LIST, si, l); o(id).pol = p == RC ? RC : NOOP; SIM_CHECK(cee_list_size(l) == from.size(), "content", "the %s of o%d has %zu entries instead of %zu", what, i, cee_list_size(l), from.size()); std::set<int> seen;
    for (size_t k = 0; k < from.size(); k++) { int c = id_of(from, l->a[k]); SIM_CHECK(c >= 0, "content", "the %s of o%d has something else at %zu", what, i, k); o(id).kids.push_back(c); attach(o(id).pol, c); } ev("o%d = list(%s) of the %s of o%d", id, pn(o(id).pol), what, i); };
  if (o(i).kind == SET) { switch (choose(3)) {
      case 0: as_list(cee_set_values((struct cee_set *)o(i).p), o(i).kids, pol, "elements"); break;
      case 1: { if (pol == DEL) break; int id = reg(SET, si, cee_set_clone((struct cee_set *)o(i).p)); o(id).pol = pol; o(id).kids = o(i).kids; for (int c : o(id).kids) attach(pol, c); ev("o%d = clone of set o%d", id, i); break; }
      case 2: { int j = pick_obj(si, [](Obj &x) { return x.kind == SET; }); for (int c : o(i).kids) if (!usable(c, RC)) return; for (int c : o(j).kids) if (!usable(c, RC)) return; if (pol != RC || o(j).pol != RC) for (int q : {i, j}) if (o(q).pol == DEL) return;
        int id = reg(SET, si, cee_set_union_set(s, (struct cee_set *)o(i).p, (struct cee_set *)o(j).p)); o(id).kids = o(i).kids; for (int c : o(j).kids) if (std::find(o(id).kids.begin(), o(id).kids.end(), c) == o(id).kids.end()) o(id).kids.push_back(c); for (int c : o(id).kids) attach(RC, c); ev("o%d = union of sets o%d and o%d", id, i, j); break; } } }
  else if (o(i).kind == MAP) { struct cee_map *m = (struct cee_map *)o(i).p; Pol kp = o(i).kpol; switch (choose(5)) {
      case 0: as_list(cee_map_keys(m), o(i).keys, kp, "keys"); break;
      case 1: as_list(cee_map_values(m), o(i).kids, pol, "values"); break;
      case 2: as_list(cee_map_insertion_ordered_keys(m), o(i).keys, kp, "keys in order"); break;
      default: { bool clone = chance(1, 2); if (pol == DEL || kp == DEL) break; int j = i; // o(i) goes into o(j)
        if (clone) { j = reg(MAP, si, cee_map_clone(m)); o(j).pol = pol; o(j).kpol = kp; ev("o%d = clone of map o%d", j, i); }
        else { j = pick_obj(si, [&](Obj &x) { return x.kind == MAP && x.pol == pol && x.kpol == kp; }); if (o(i).kids.size() + o(j).kids.size() > 40) break; for (int c : o(i).kids) if (!usable(c, pol) || reaches(c, j)) return; cee_map_merge((struct cee_map *)o(j).p, m, nullptr, nullptr); ev("merge map o%d into map o%d", i, j); }
        vector<int> ks = o(i).keys, vs = o(i).kids; std::map<void *, int> val; size_t before = o(j).keys.size();
        for (size_t k = 0; k < ks.size(); k++) { int pos = -1; for (size_t q = 0; q < before; q++) if (o(o(j).keys[q]).text == o(ks[k]).text) pos = (int)q; if (pos < 0) { val[o(ks[k]).p] = (int)k; continue; } attach(pol, vs[k]); detach(pol, o(j).kids[pos]); o(j).kids[pos] = vs[k]; }
        struct cee_list *l = cee_map_insertion_ordered_keys((struct cee_map *)o(j).p); SIM_CHECK(cee_list_size(l) == before + val.size(), "content", "after merging o%d, map o%d has %zu keys instead of %zu", i, j, cee_list_size(l), before + val.size()); // those that are new come in any order
        for (size_t q = before; q < cee_list_size(l); q++) { auto it = val.find(l->a[q]); SIM_CHECK(it != val.end(), "content", "after merging o%d, map o%d has a key that is none of o%d's", i, j, i); int k = it->second; val.erase(it); o(j).keys.push_back(ks[k]); o(j).kids.push_back(vs[k]); attach(kp, ks[k]); attach(pol, vs[k]); }
        cee_del(l); break; } } }
  else { int j = pick_obj(si, [](Obj &x) { return x.kind == LIST && x.pol != DEL; }); if (j < 0 || o(i).kids.size() + o(j).kids.size() > 40) return; Pol p = o(j).pol; vector<int> add = o(i).kids; for (int c : add) if (!usable(c, p) || reaches(c, j)) return;
    cee_list_merge((struct cee_list *)o(j).p, (struct cee_list *)o(i).p); ev("merge list o%d into list o%d", i, j); for (int c : add) { o(j).kids.push_back(c); attach(p, c); } }
  freed_blocks->erase(-1); for (auto it = freed_blocks->begin(); it != freed_blocks->end();) { bool ours = false; for (auto &x : *O) ours |= x.blk == *it; it = ours ? std::next(it) : freed_blocks->erase(it); } settle(dead, "the operation"); sim::count("op.derived-container");
}
static void ladder(int si) { // every object referenced twice by the next: as many paths as two to the number of objects
  struct cee_state *s = (*ST)[si].s; int n = 8 + (int)choose(56), c = child_for(si, RC, -1); if (c < 0) c = new_boxed(si);
  for (int i = 0; i < n; i++) { int id; if (chance(1, 2)) id = reg(TUPLE, si, cee_tuple_mk(s, o(c).p, o(c).p)); else { id = reg(LIST, si, cee_list_mk(s, 2)); for (int k = 0; k < 2; k++) cee_list_append((struct cee_list *)o(id).p, o(c).p); } o(id).kids = {c, c}; attach(RC, c); attach(RC, c); c = id; }
  ev("ladder of %d objects up to o%d", n, c); sim::count("probe.shared-ladder"); if ((*ST)[si].roots.size() < 12 && chance(3, 4)) { cee_state_add_gc_root(s, o(c).p); (*ST)[si].roots.push_back(c); ev("root o%d", c); }
}
static void fill(int si) { // many new objects under one container, or as roots, contexts or stack entries
  struct cee_state *s = (*ST)[si].s; St &t = (*ST)[si]; int n = 10 + (int)choose(180), i = pick_obj(si, [](Obj &x) { return x.kind == LIST || x.kind == STACK || x.kind == SET || x.kind == MAP || x.kind == DICT; }); unsigned w = (unsigned)choose(8);
  if (w == 0) { for (int k = 0; k < n && t.roots.size() < 300; k++) { int c = new_boxed(si); cee_state_add_gc_root(s, o(c).p); t.roots.push_back(c); } ev("state %d: %d new roots", si, n); return; }
  if (w == 1) { for (int k = 0; k < n && t.ctx.size() < 200; k++) { string nn = fmt("c%ld", nextnum++); int kk = new_str(si, nn), v = new_boxed(si); cee_state_add_context(s, (char *)o(kk).p, o(v).p); t.ctx[nn] = {kk, v}; attach(RC, kk); attach(RC, v); } ev("state %d: %d new contexts", si, n); return; }
  if (w == 2) { for (int k = 0; k < n && t.stack.size() < t.stcap; k++) { int c = new_boxed(si); int r = cee_stack_push(t.s->stack, o(c).p); SIM_CHECK(r, "stack", "push on the stack of a state returned 0"); t.stack.push_back(c); attach(RC, c); } ev("state %d: %d pushed", si, n); return; }
  if (i < 0) return; Pol pol = o(i).pol; int kind = o(i).kind;
  for (int k = 0; k < n; k++) { if ((kind == STACK || kind == DICT) && o(i).kids.size() >= o(i).cap) break; int c = chance(3, 4) ? new_boxed(si) : new_str(si, fmt("f%ld", nextnum++)), kk = -1;
    switch (kind) {
      case LIST: cee_list_append((struct cee_list *)o(i).p, o(c).p); break;
      case STACK: cee_stack_push((struct cee_stack *)o(i).p, o(c).p); break;
      case SET: cee_set_add((struct cee_set *)o(i).p, o(c).p); break;
      case MAP: kk = new_str(si, fmt("w%ld", nextnum++)); cee_map_add((struct cee_map *)o(i).p, o(kk).p, o(c).p); break;
      default: kk = new_str(si, fmt("d%ld", nextnum++)); cee_dict_add((struct cee_dict *)o(i).p, (char *)o(kk).p, o(c).p); }
    if (kk >= 0) { o(i).keys.push_back(kk); attach(kind == MAP ? o(i).kpol : RC, kk); } o(i).kids.push_back(c); attach(pol, c); }
  ev("%s o%d: %d new entries, now %zu", kname[kind], i, n, o(i).kids.size());
}
static int new_state() {
  St s; s.owner = (sim::current_task() >= 0 ? 10000 * (1 + sim::current_task()) : 0) + 100 + (int)ST->size(); s.alive = true; s.stcap = chance(1, 2) ? 6 : 1 + choose(lim(12, 300)); sim::set_owner(s.owner); s.s = cee_state_mk(s.stcap); s.base = sim::live_blocks(s.owner); s.warm = -1; ST->push_back(s); ev("state %zu", ST->size() - 1); return (int)ST->size() - 1;
}
static void del_state(int si) {
  St &s = (*ST)[si]; int other = sim::live_blocks() - sim::live_blocks(s.owner); freed_blocks->clear(); ev("delete state %d with %d blocks", si, sim::live_blocks(s.owner)); cee_del(s.s); s.alive = false; sim::count("state.deletions");
  int left = sim::live_blocks(s.owner); if (left) { int f = sim::first_live(s.owner); violation("leak", "deleting state %d left %d of its blocks, among them %s", si, left, sim::block_desc(f)); }
  SIM_CHECK(sim::current_task() >= 0 || sim::live_blocks() == other, "other-state", "deleting state %d freed blocks of other states", si);
  for (auto &x : *O) if (x.alive && x.st == si) { x.alive = false; nobj_alive--; } freed_blocks->clear(); sim::mark_nontrivial();
}
static void roots_op(int si) {
  St &s = (*ST)[si]; 
  switch (weighted({4, 2, 2, 1, 2, 2})) {
    case 0: { int i = pick_obj(si, [](Obj &x) { return x.kind != GARBAGE; }); if (i < 0 || s.roots.size() > lim(12, 300)) return; bool there = std::find(s.roots.begin(), s.roots.end(), i) != s.roots.end(); cee_state_add_gc_root(s.s, o(i).p); ev("state %d: root o%d", si, i); if (!there) s.roots.push_back(i); break; }
    case 1: { if (s.roots.empty()) return; size_t k = choose(s.roots.size()); int i = s.roots[k]; cee_state_remove_gc_root(s.s, o(i).p); ev("state %d: no longer root o%d", si, i); s.roots.erase(s.roots.begin() + k); break; }
    case 2: { string n = fmt("ctx%d", (int)choose(lim(4, 200))); int v = child_for(si, RC, -1); if (v < 0) return; int k = new_str(si, n); cee_state_add_context(s.s, (char *)o(k).p, o(v).p); ev("state %d: context %s -> o%d", si, n.c_str(), v); std::set<int> dead; auto it = s.ctx.find(n); if (it == s.ctx.end()) { s.ctx[n] = {k, v}; attach(RC, k); } else { detach(RC, it->second.second); it->second.second = v; m_del(k, dead); } attach(RC, v); settle(dead, "adding a context"); break; }
    case 3: { if (s.ctx.empty()) return; auto it = s.ctx.begin(); std::advance(it, choose(s.ctx.size())); cee_state_remove_context(s.s, (char *)it->first.c_str()); ev("state %d: remove context %s", si, it->first.c_str()); detach(RC, it->second.first); detach(RC, it->second.second); s.ctx.erase(it); break; }
    case 4: { int i = child_for(si, RC, -1); if (i < 0) return; int r = cee_stack_push(s.s->stack, o(i).p); ev("state %d: push o%d -> %d", si, i, r); SIM_CHECK((r != 0) == (s.stack.size() < s.stcap), "stack", "push on the stack of a state returned %d", r); if (r) { s.stack.push_back(i); attach(RC, i); } break; }
    case 5: { if (s.stack.empty()) return; void *p = cee_stack_pop(s.s->stack); int i = s.stack.back(); SIM_CHECK(p == o(i).p, "stack", "pop from the stack of a state returned something else than o%d", i); ev("state %d: pop o%d", si, i); s.stack.pop_back(); detach(RC, i); break; }
  }
}
static void full_collect(int si) { // C06: nothing may pile up
  St &s = (*ST)[si]; while (!s.roots.empty()) { cee_state_remove_gc_root(s.s, o(s.roots.back()).p); s.roots.pop_back(); }
  while (!s.ctx.empty()) { auto it = s.ctx.begin(); cee_state_remove_context(s.s, (char *)it->first.c_str()); s.ctx.erase(it); }
  while (!s.stack.empty()) { cee_stack_pop(s.s->stack); s.stack.pop_back(); }
  gc(si); int n = sim::live_blocks(s.owner);
  if (s.warm < 0) s.warm = n; else SIM_CHECK(n <= s.warm, "leak", "with nothing reachable %d blocks remain after a collection, %d did the first time: unreachable memory piles up", n, s.warm);
}
static void explicit_del(int si) {
  if (CYC) return;
  vector<int> n; refs_all(n); int i = pick_obj(si, [&](Obj &x) { return x.kind != GARBAGE && n[x.id] == 0 && !x.retained; }); if (i < 0) return;
  if (!deletable(i)) return;
  std::set<int> dead; m_del(i, dead); string l; for (int d : dead) l += " " + nm(d);
  bool ref = o(i).rc == 0 && chance(1, 3); ev("%s o%d: deletes%s", ref ? "cee_del_ref" : "cee_del", i, l.c_str()); freed_blocks->clear();
  if (ref) cee_del_ref(o(i).p); else cee_del(o(i).p);
  settle(dead, "the deletion"); sim::count("del.explicit"); sim::count("del.objects", dead.size()); if (dead.size() > 1) sim::mark_nontrivial();
}
// C22 ----------------------------------------------------------------------------------------------------
static void env_lookup(int si) {
  int e = pick_obj(si, [](Obj &x) { return x.kind == ENV; }); if (e < 0) return; string k = fmt("key%d", (int)choose(9));
  int want = -1, depth = 0; for (int c = e; c >= 0; c = o(c).kids[0], depth++) { int v = o(c).kids[1]; if (v < 0) continue;
    for (size_t j = 0; j < o(v).keys.size(); j++) if (o(o(v).keys[j]).text == k) want = o(v).kids[j]; if (want >= 0) break; }
  char *key = (char *)sim::arena_alloc(k.size() + 1); strcpy(key, k.c_str()); void *r = cee_env_find((struct cee_env *)o(e).p, key); ev("env o%d: find %s -> %s (depth %d)", e, k.c_str(), nm(want).c_str(), depth);
  SIM_CHECK(r == (want < 0 ? nullptr : o(want).p), "lookup", "env o%d: %s resolves to something else than the innermost binding %s", e, k.c_str(), nm(want).c_str()); if (want >= 0 && depth > 0) sim::mark_nontrivial();
  sim::count(want < 0 ? "lookup.unbound" : depth ? "lookup.outer_frame" : "lookup.innermost_frame");
  for (auto &x : *O) if (x.alive && x.kind == CLOSURE && x.kids[0] == e && chance(1, 2)) { void *q = cee_closure_call((*ST)[si].s, (struct cee_closure *)x.p, 1, key); SIM_CHECK(q == r, "closure", "closure o%d over env o%d resolves %s differently from its environment", x.id, e, k.c_str());
    unsigned na = 2 + (chance(1, 4) ? choose(11) : 0); char *a[12]; void *w2 = r; for (unsigned q = 0; q < 12; q++) { a[q] = (char *)sim::arena_alloc(8); strcpy(a[q], fmt("key%d", (int)choose(9)).c_str()); } if (!w2) { w2 = cee_env_find((struct cee_env *)o(e).p, a[na - 2]); }
    q = cee_closure_call((*ST)[si].s, (struct cee_closure *)x.p, na, key, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); SIM_CHECK(q == w2, "closure", "closure o%d with %u arguments does not resolve them in order", x.id, na); sim::count("closure.calls"); }
}
static void make_envs(int si) { // a chain of frames with overlapping variables, some shared
  struct cee_state *s = (*ST)[si].s; int n = 1 + choose(4), outer = chance(1, 2) ? child_for(si, RC, -1, [](Obj &x) { return x.kind == ENV; }) : -1;
  for (int f = 0; f < n; f++) { int m = chance(1, 4) ? child_for(si, RC, -1, [](Obj &x) { return x.kind == MAP; }) : -1;
    if (m < 0) { m = reg(MAP, si, cee_map_mk(s, (cee_cmp_fun)strcmp)); int k = choose(6); for (int j = 0; j < k; j++) { string kt = fmt("key%d", (int)choose(8)); bool dup = false; for (int q : o(m).keys) dup |= o(q).text == kt; if (dup) continue; int kk = new_str(si, kt), v = new_boxed(si); cee_map_add((struct cee_map *)o(m).p, o(kk).p, o(v).p); o(m).keys.push_back(kk); o(m).kids.push_back(v); attach(RC, kk); attach(RC, v); } }
    if (chance(1, 8)) m = -1; // a frame without variables
    int e = reg(ENV, si, cee_env_mk(s, outer < 0 ? nullptr : (struct cee_env *)o(outer).p, m < 0 ? nullptr : (struct cee_map *)o(m).p)); o(e).kids = {outer, m}; attach(RC, outer); attach(RC, m); ev("o%d = env(outer %s, vars o%d)", e, nm(outer).c_str(), m);
    if (chance(1, 3)) { int c = reg(CLOSURE, si, cee_closure_mk(s, (struct cee_env *)o(e).p, (void *)clo_fun)); o(c).kids = {e}; o(c).pol = NOOP; ev("o%d = closure(o%d)", c, e); if (chance(1, 2)) { cee_state_add_gc_root(s, o(c).p); (*ST)[si].roots.push_back(c); } }
    outer = e; }
  if (chance(2, 3) && (*ST)[si].roots.size() < 12) { cee_state_add_gc_root(s, o(outer).p); (*ST)[si].roots.push_back(outer); ev("root o%d", outer); }
}
static void many_references() { // one object that two lists hold, one of them more often than 16 bits can count
  struct cee_state *s = cee_state_mk(4); int base = sim::live_blocks(); void *x = cee_str_mk(s, "shared"); int blk = sim::block_of(x), n = 65530 + (int)choose(12), r = (int)choose(3);
  struct cee_list *a = cee_list_mk(s, chance(1, 2) ? 70000 : 10), *b = cee_list_mk(s, 1); bool first = chance(1, 2); ev("%d references to one object, %d of them removed", n + 1, r);
  if (first) cee_list_append(b, x); for (int i = 0; i < n; i++) cee_list_append(a, x); if (!first) cee_list_append(b, x); for (int i = 0; i < r; i++) cee_list_remove(a, (int)choose(n - r));
  bool order = chance(1, 2); cee_del(order ? a : b); SIM_CHECK(sim::block_live(blk) && !strcmp((char *)x, "shared"), "freed-shared", "an object with %d references is freed with the %s of its two lists", n + 1 - r, order ? "longer" : "shorter");
  cee_del(order ? b : a); SIM_CHECK(!sim::block_live(blk), "not-freed", "an object is alive after the last of its %d references", n + 1 - r); SIM_CHECK(sim::live_blocks() == base, "leak", "%d blocks remain", sim::live_blocks() - base); cee_del(s); sim::count("probe.many-references"); sim::mark_nontrivial();
}
// more objects, roots and references than 16 bits can count
static void many_objects() {
  struct cee_state *s = cee_state_mk(4); sim::set_owner(1); struct cee_state *t = cee_state_mk(4); sim::set_owner(0); int base0 = sim::live_blocks(0); size_t N = 65530 + choose(600); unsigned how = choose(4); bool borrow = chance(1, 2); ev("%zu objects held by %s%s", N, how == 0 ? "a list" : how == 1 ? "a set" : how == 2 ? "a map" : "roots", borrow ? " that borrows them" : "");
  vector<struct cee_boxed *> e; vector<int> blk; for (size_t i = 0; i < N; i++) { e.push_back(cee_boxed_from_u64(s, i)); blk.push_back(sim::block_of(e[i])); } void *c = nullptr; enum cee_del_policy o[2] = {CEE_DP_NOOP, borrow ? CEE_DP_NOOP : CEE_DP_DEL_RC};
  if (how == 0) { struct cee_list *l = cee_list_mk_e(s, o[1], 16); c = l; for (auto p : e) cee_list_append(l, p); } else if (how == 1) { struct cee_set *l = cee_set_mk_e(s, o[1], ptrcmp); c = l; for (auto p : e) cee_set_add(l, p); } else if (how == 2) { struct cee_map *l = cee_map_mk_e(s, o, ptrcmp); c = l; for (size_t i = 0; i < N; i++) cee_map_add(l, e[i], e[N - 1 - i]); } else for (auto p : e) cee_state_add_gc_root(s, p);
  for (int i = 0; i < 3; i++) { sim::set_owner(1); cee_str_mk(t, "other"); sim::set_owner(0); } int base1 = sim::live_blocks(1);
  std::set<size_t> gone; auto all = [&](const char *when) { for (size_t i = 0; i < N; i++) { bool g = gone.count(i) > 0; if (!g) SIM_CHECK(sim::block_live(blk[i]) && cee_boxed_to_u64(e[i]) == i, "lost", "object %zu of %zu is reachable but freed %s", i, N, when); else SIM_CHECK(!sim::block_live(blk[i]), "not-collected", "object %zu of %zu is alive %s", i, N, when); } };
  if (c) cee_state_add_gc_root(s, c); if (!P07) { cee_state_gc(s); all("after a collection"); cee_state_gc(s); all("after two collections"); }
  if (!P07 && how != 2 && (how == 3 || borrow)) { for (int k = 0; k < 30; k++) { size_t i = chance(1, 2) ? choose(N) : N - 1 - choose(20); if (gone.count(i)) continue; if (how == 0) { struct cee_list *l = (struct cee_list *)c; size_t at = i; for (size_t g : gone) at -= g < i; cee_list_remove(l, (int)at); } else if (how == 1) cee_set_remove((struct cee_set *)c, e[i]); else cee_state_remove_gc_root(s, e[i]); gone.insert(i); } int before = sim::live_blocks(0); for (size_t g : gone) SIM_CHECK(sim::block_live(blk[g]), "freed-early", "object %zu is freed by its removal", g); cee_state_gc(s); all("after removals and a collection"); (void)before; }
  if (how == 2 && !P07) { struct cee_list *l = cee_map_insertion_ordered_keys((struct cee_map *)c); SIM_CHECK(l && cee_list_size(l) == N && l->a[0] == e[0] && l->a[N - 1] == e[N - 1], "content", "the keys of a map of %zu entries are no longer listed in order after a collection", N); cee_del(l); }
  if (!P07 && c) { cee_state_remove_gc_root(s, c); cee_state_gc(s); int left = sim::live_blocks(0); SIM_CHECK(left <= base0, "not-collected", "%d blocks are left by the collection of everything, a fresh state has %d", left, base0); }
  cee_del(s); SIM_CHECK(sim::live_blocks(0) == 0, "leak", "%d blocks remain after the state with %zu objects is deleted", sim::live_blocks(0), N); SIM_CHECK(sim::live_blocks(1) == base1, "foreign", "deleting one state changed the blocks of another"); sim::set_owner(1); cee_del(t); SIM_CHECK(sim::live_blocks(1) == 0, "leak", "blocks remain"); sim::count("probe.big-sizes"); sim::mark_nontrivial();
}
// more collections than 8 or 16 bits can count
static void many_collections() {
  struct cee_state *s = cee_state_mk(4); int fresh = sim::live_blocks(); size_t n = chance(1, 4) ? 65600 : 250 + choose(600); struct cee_list *l = cee_list_mk(s, 2); cee_state_add_gc_root(s, l); ev("%zu collections", n); vector<struct cee_boxed *> in; vector<int> blk; int warm = 0;
  for (size_t i = 0; i < n; i++) {
    int junk = (int)(i % 3); for (int k = 0; k < junk; k++) cee_str_mk(s, "junk"); if (in.size() < 8 && i % 7 == 0) { in.push_back(cee_boxed_from_u64(s, in.size())); blk.push_back(sim::block_of(in.back())); cee_list_append(l, in.back()); }
    cee_state_gc(s); if (i == 0) warm = sim::live_blocks() - (int)in.size(); for (size_t k = 0; k < in.size(); k++) SIM_CHECK(sim::block_live(blk[k]) && cee_boxed_to_u64(in[k]) == k, "lost", "an object reachable from a root is freed by collection %zu", i + 1);
    SIM_CHECK(sim::live_blocks() <= warm + (int)in.size() + 1 && cee_list_size(l) == in.size(), "not-collected", "collection %zu leaves %d blocks, %d of them reachable", i + 1, sim::live_blocks(), warm + (int)in.size());
  }
  (void)fresh; cee_del(s); SIM_CHECK(sim::live_blocks() == 0, "leak", "%d blocks remain", sim::live_blocks()); sim::count("probe.many-collections"); sim::mark_nontrivial();
}
static void deep_envs() { // a long chain of environments, variables far out
  struct cee_state *s = cee_state_mk(4); size_t n = chance(1, 8) ? 300 + choose(4000) : 60 + choose(240); vector<struct cee_env *> e; vector<std::map<string, void *>> f; ev("chain of %zu environments", n); vector<int> blk; unsigned every = 1 + (unsigned)choose(n);
  for (size_t i = 0; i < n; i++) { std::map<string, void *> vs; struct cee_map *m = nullptr; if (i == 0 || choose(every) == 0) { m = cee_map_mk(s, (cee_cmp_fun)strcmp); bool wide = chance(1, 6 + n / 8); int k = wide ? 20 + (int)choose(500) : (int)choose(3) + (i == 0); for (int j = 0; j < k; j++) { string key = i == 0 && j == 0 ? "outermost" : wide ? fmt("w%d", j) : fmt("v%d", (int)choose(6)); if (vs.count(key)) continue; void *v = cee_boxed_from_u64(s, i * 1024 + j); cee_map_add(m, mkstr(s, key), v); vs[key] = v; blk.push_back(sim::block_of(v)); } }
    e.push_back(cee_env_mk(s, i ? e.back() : nullptr, m)); f.push_back(vs); }
  auto want = [&](size_t i, const string &k) -> void * { for (size_t j = i + 1; j-- > 0;) { auto it = f[j].find(k); if (it != f[j].end()) return it->second; } return nullptr; };
  auto look = [&](const char *when) { for (int t = 0; t < 14; t++) { size_t i = chance(1, 2) ? n - 1 : choose(n); string k = t % 7 == 6 ? "outermost" : t % 7 == 5 ? "nowhere" : fmt("v%d", t % 7); char *a = (char *)sim::arena_alloc(k.size() + 1); strcpy(a, k.c_str()); void *w = want(i, k), *r = t < 7 ? cee_env_find(e[i], a) : cee_closure_call(s, cee_closure_mk(s, e[i], (void *)clo_fun), 1, a); SIM_CHECK(r == w, t < 7 ? "lookup" : "closure", "%s, in a chain of %zu environments, %s resolves to %s", when, i + 1, k.c_str(), r ? w ? "another binding" : "a binding that does not exist" : "nothing"); } };
  look("at first"); if (chance(2, 3)) { cee_state_add_gc_root(s, e.back()); cee_state_gc(s); for (int b : blk) SIM_CHECK(sim::block_live(b), "lost", "a variable of a chain of %zu environments was collected", n); look("after a collection"); }
  size_t at = choose(n); void *v = cee_boxed_from_i64(s, -1); if (e[at]->vars) { cee_map_add(e[at]->vars, mkstr(s, "v1"), v); f[at]["v1"] = v; look("after an update"); }
  cee_del(s); SIM_CHECK(sim::live_blocks() == 0, "leak", "%d blocks remain", sim::live_blocks()); sim::count("probe.deep-environments"); sim::mark_nontrivial();
}
static void run() {
  if (P22 && BIG && chance(1, 60)) { sim::alloc_draw_config(); deep_envs(); return; }
  if (P08 && sim::current_task() < 0 && chance(1, 300)) { sim::alloc_draw_config(); many_references(); return; }
  if (BIG && (P05 || P06 || P07) && chance(1, 700)) { sim::alloc_large(); sim::alloc_draw_config(); many_objects(); return; }
  if (BIG && (P05 || P06) && chance(1, 500)) { sim::alloc_large(); sim::alloc_draw_config(); many_collections(); return; }
  sim::alloc_draw_config(); O = new vector<Obj>; O->reserve(4000); ST = new vector<St>; freed_blocks = new std::set<int>; nobj_alive = 0; gcs = 0; nextnum = 1000;
  sim::set_free_observer(&obs);
  int nst = P07 ? 1 + choose(3) : P05 || P06 ? 1 + choose(2) : 1; for (int i = 0; i < nst; i++) new_state();
  WIDE = chance(1, 30); if (WIDE) sim::count("probe.wide-graphs"); CYC = !P08 && chance(1, 3); if (CYC) sim::count("probe.cyclic-graphs");
  Steps stp(P22 ? 40 : 60, 300);
  while (stp.more()) {
    Span sp; vector<int> al; for (size_t i = 0; i < ST->size(); i++) if ((*ST)[i].alive) al.push_back(i);
    if (al.empty()) { new_state(); continue; }
    int si = al[choose(al.size())]; sim::set_owner((*ST)[si].owner); freed_blocks->clear();
    unsigned op = P08 ? weighted({8, 10, 2, 0, 8, 0, 0, 1, 0}) : P07 ? weighted({10, 10, 4, 2, 2, 2, 1, 1, 0}) : P06 ? weighted({8, 9, 6, 5, 0, 0, 0, 1, 1}) : P22 ? weighted({2, 6, 2, 3, 0, 0, 0, 1, 0, 6, 14}) : weighted({9, 10, 6, 4, 0, 0, 0, 2, 0});
    switch (op) {
      case 0: if ((P05 || P06) && nobj_alive < 150 && chance(1, 100)) ladder(si); else if (WIDE && nobj_alive < 900 && chance(1, 6)) fill(si); else if (nobj_alive < (int)lim(250, 1000)) make(si); break;
      case 1: if (chance(1, 6)) derive(si); else mutate(si); break;
      case 2: roots_op(si); break;
      case 3: gc(si); break;
      case 4: if (!P07 || gcs == 0) explicit_del(si); break;
      case 5: if (al.size() > 1 || chance(1, 3)) { del_state(si); verify_all(); } break;
      case 6: if (ST->size() < lim(6, 40)) new_state(); break;
      case 7: verify_all(); break;
      case 8: full_collect(si); break;
      case 9: if (nobj_alive < 200) make_envs(si); break;
      case 10: env_lookup(si); break;
    }
    freed_blocks->clear();
  }
  verify_all();
  if (P05 && chance(1, 16)) { int i = pick_obj(0, [](Obj &x) { return x.kind == BOXED; }); if (i >= 0 && (*ST)[0].alive) { unsigned t = choose(10), own = (unsigned)o(i).cap; struct cee_boxed *b = (struct cee_boxed *)o(i).p; if (t == own) t = (t + 1) % 10; // a value read as another type than its own
    int how = sim::epoch([&]() { sim::expect_failstop(true); double r = t == 0 ? cee_boxed_to_i64(b) : t == 1 ? cee_boxed_to_u64(b) : t == 2 ? cee_boxed_to_i32(b) : t == 3 ? cee_boxed_to_u32(b) : t == 4 ? cee_boxed_to_i16(b) : t == 5 ? cee_boxed_to_u16(b) : t == 6 ? cee_boxed_to_i8(b) : t == 7 ? cee_boxed_to_u8(b) : t == 8 ? cee_boxed_to_double(b) : cee_boxed_to_float(b); sim::expect_failstop(false); (void)r; });
    ev("read boxed o%d of type %u as type %u", i, own, t); SIM_CHECK(how == 2, "content", "boxed o%d of type %u can be read as type %u", i, own, t); sim::count("probe.wrong-type"); } }
  if (P22) for (int k = 0; k < 6; k++) env_lookup(0);
  if (P06) for (size_t i = 0; i < ST->size(); i++) { sim::set_owner((*ST)[i].owner); full_collect(i); full_collect(i); }
  if (P08) { // everything deleted one by one: the state must hold nothing but itself
    St &s = (*ST)[0]; while (!s.roots.empty()) { cee_state_remove_gc_root(s.s, o(s.roots.back()).p); s.roots.pop_back(); }
    while (!s.stack.empty()) { cee_stack_pop(s.s->stack); detach(RC, s.stack.back()); s.stack.pop_back(); }
    while (!s.ctx.empty()) { auto it = s.ctx.begin(); cee_state_remove_context(s.s, (char *)it->first.c_str()); detach(RC, it->second.first); detach(RC, it->second.second); s.ctx.erase(it); }
    bool stuck = false; while (!stuck) { stuck = true; for (size_t i = 0; i < O->size(); i++) if (o(i).alive && !o(i).retained && o(i).rc == 0 && deletable(i)) { std::set<int> dead; m_del(i, dead); freed_blocks->clear(); ev("cee_del o%zu", i); cee_del(o(i).p); settle(dead, "the deletion"); stuck = false; } }
    if (nobj_alive == 0) { int n = sim::live_blocks(s.owner); sim::count("del.runs_ending_empty"); SIM_CHECK(n == s.base, "leak", "every object was deleted, %d blocks remain of the %d the empty state has", n, s.base); }
  }
  for (size_t i = 0; i < ST->size(); i++) if ((*ST)[i].alive) { del_state(i); if (P07) verify_all(); }
}
#ifndef EMBED
namespace sim {
#if P05
Harness harness = {"C05", run, 400000000, 48000, 900000,
  "one run = a seeded history building and rewiring a graph (cyclic in a third of the runs, with ladders of doubly shared objects) of all object kinds over 1-2 states, with roots, contexts and stack entries coming and going and collections at arbitrary points; after every collection everything reachable is re-read and compared with the model; non-trivial = a collection with both reachable and unreachable objects",
#elif P06
Harness harness = {"C06", run, 400000000, 48000, 900000,
  "one run = the histories of C05; after every collection each unreachable object must have been freed, and repeated collections of an emptied state must not leave more blocks than the first; non-trivial = a collection with both reachable and unreachable objects",
#elif P07
Harness harness = {"C07", run, 400000000, 48000, 900000,
  "one run = interleaved histories over 1-6 states (creation, mutation, explicit deletion, collection) with states deleted at arbitrary points; the simulated heap accounts every block of a deleted state, and all others are re-read; non-trivial = a state was deleted",
#elif P08
Harness harness = {"C08", run, 20000000, 48000, 900000,
  "one run = a seeded history building an acyclic graph with delete policies (rc, del, noop) and deleting objects explicitly; every free is compared with an executable model of the policies; non-trivial = a deletion freed more than one object",
#else
Harness harness = {"C22", run, 20000000, 48000, 900000,
  "one run = a seeded history of environments (chains with shared frames and shadowed variables), closures, variable updates and collections; every lookup and closure call is compared with a model; non-trivial = a lookup answered by an outer frame",
#endif
  {"state.c", "map.c", "set.c", "list.c", "stack.c", "tuple.c", "triple.c", "quadruple.c", "n_tuple.c", "dict.c", "tagged.c", "env.c", "closure.c", "str.c", "boxed.c", "block.c", "cee-common.c"}, {"malloc family (simulated heap)"}};
}
#endif
