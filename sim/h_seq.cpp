// C01: lists, stacks, tuples, n-tuples and blocks refine their value-level models, for every history of
// operations and every behaviour of the allocator.
#include "util.h"

static struct cee_state *st;
static vector<void *> *pool_;                    // element objects, never deleted during the run
static void *elem() {
  if (pool_->size() < 6 || (pool_->size() < 400 && chance(1, 3))) { void *p = chance(1, 2) ? (void *)cee_boxed_from_i64(st, pool_->size()) : (void *)mkstr(st, fmt("e%zu", pool_->size())); pool_->push_back(p); return p; }
  return (*pool_)[choose(pool_->size())];
}
static void *elem(enum cee_del_policy o) { return o == CEE_DP_NOOP && chance(1, 16) ? nullptr : elem(); } // a container that does not own its elements holds anything
static int en(void *p) { if (!p) return -9; for (size_t i = 0; i < pool_->size(); i++) if ((*pool_)[i] == p) return (int)i; return -1; }
struct L { struct cee_list *l; vector<void *> m; int id; enum cee_del_policy pol; };
struct K { struct cee_stack *s; vector<void *> m; size_t cap; int id; enum cee_del_policy pol; };
struct T { void **p; vector<void *> m; int id; };
struct Bk { void *p; string m; int id; };
static vector<L> ls; static vector<K> ks; static vector<T> ts; static vector<Bk> bs; static int nid;

static void chk(L &x) {
  SIM_CHECK(cee_list_size(x.l) == x.m.size(), "list-size", "list l%d: size %zu, history implies %zu", x.id, cee_list_size(x.l), x.m.size());
  SIM_CHECK(cee_list_capacity(x.l) >= x.m.size(), "list-capacity", "list l%d: capacity %zu below its size %zu", x.id, cee_list_capacity(x.l), x.m.size());
  for (size_t i = 0; i < x.m.size(); i++) SIM_CHECK(x.l->a[i] == x.m[i], "list-content", "list l%d: element %zu is e%d, history implies e%d", x.id, i, en(x.l->a[i]), en(x.m[i]));
  uint64_t h = 77; for (void *p : x.m) h = sim::mix(h, en(p)); sim::state(h);
}
static void chk(K &x) {
  SIM_CHECK(cee_stack_size(x.s) == x.m.size(), "stack-size", "stack s%d: size %zu, history implies %zu", x.id, (size_t)cee_stack_size(x.s), x.m.size());
  SIM_CHECK(cee_stack_empty(x.s) == x.m.empty() && cee_stack_full(x.s) == (x.m.size() == x.cap), "stack-limits", "stack s%d with %zu of %zu: empty=%d full=%d", x.id, x.m.size(), x.cap, cee_stack_empty(x.s), cee_stack_full(x.s));
  for (size_t i = 0; i < x.m.size() + 2; i++) { void *e = i < x.m.size() ? x.m[x.m.size() - 1 - i] : nullptr; void *g = cee_stack_top(x.s, i); SIM_CHECK(g == e, "stack-content", "stack s%d: top(%zu) is e%d, history implies e%d", x.id, i, en(g), en(e)); }
}
static void chk(T &x) { for (size_t i = 0; i < x.m.size(); i++) SIM_CHECK(x.p[i] == x.m[i], "tuple-content", "tuple t%d: component %zu is e%d, expected e%d", x.id, i, en(x.p[i]), en(x.m[i])); }
static void chk(Bk &x) {
  SIM_CHECK(cee_block_size((struct cee_block *)x.p) == x.m.size(), "block-size", "block b%d: size %zu, asked for %zu", x.id, cee_block_size((struct cee_block *)x.p), x.m.size());
  for (size_t i = 0; i < x.m.size(); i++) SIM_CHECK(((char *)x.p)[i] == x.m[i], "block-content", "block b%d: byte %zu of %zu is 0x%02x, expected 0x%02x", x.id, i, x.m.size(), ((unsigned char *)x.p)[i], (unsigned char)x.m[i]);
}
static void chk_all() { for (auto &x : ls) chk(x); for (auto &x : ks) chk(x); for (auto &x : ts) chk(x); for (auto &x : bs) chk(x); }
struct It { vector<std::pair<void *, int>> seen; int stop; int ret; };
static int it_cb(void *c, void *e, int i) { It *x = (It *)c; x->seen.push_back({e, i}); return x->stop && (int)x->seen.size() >= x->stop ? x->ret : 0; }
static void init_cb(void *cxt, void *block) { string *s = (string *)cxt; memcpy(block, s->data(), s->size()); }

struct Late { size_t n = 0, stop = 0; int ret = 0; char *buf = nullptr; bool bad = false; };
static int late_cb(void *c, void *e, int i) { Late *x = (Late *)c; x->bad |= e != x->buf + x->n || i != (int)x->n; x->n++; return x->stop && x->n >= x->stop ? x->ret : 0; }
static void big() { // sizes beyond what 16 bits can count; the elements are addresses inside a buffer of the caller
  st = cee_state_mk(4); size_t N = 65530 + choose(5000); char *buf = (char *)sim::arena_alloc(2 * N); unsigned how = choose(5); ev("big list of %zu (how %u)", N, how);
  struct cee_list *l = cee_list_mk_e(st, CEE_DP_NOOP, chance(1, 2) ? 16 : N); if (chance(1, 2)) cee_use_realloc(l);
  if (how == 0) for (size_t i = 0; i < N; i++) cee_list_append(l, buf + i);
  else if (how == 3) for (size_t i = 0; i < N; i++) cee_list_insert(l, (int)i, buf + i);
  else { size_t cut = how == 1 ? 1 + choose(N - 1) : how == 4 ? 0 : N - 1 - choose(20); struct cee_list *m = cee_list_mk_e(st, CEE_DP_NOOP, 64); for (size_t i = 0; i < cut; i++) cee_list_append(l, buf + i); for (size_t i = cut; i < N; i++) cee_list_append(m, buf + i); cee_list_merge(l, m); SIM_CHECK(cee_list_size(m) == N - cut, "list-size", "a merge changed the source"); }
  vector<void *> m; auto all = [&] { SIM_CHECK(cee_list_size(l) == m.size() && cee_list_capacity(l) >= m.size(), "list-size", "list of %zu elements: size %zu, capacity %zu", m.size(), cee_list_size(l), cee_list_capacity(l)); for (size_t i = 0; i < m.size(); i++) SIM_CHECK(l->a[i] == m[i], "list-content", "element %zu of %zu is number %td, history implies %td", i, m.size(), (char *)l->a[i] - buf, (char *)m[i] - buf); };
  for (size_t i = 0; i < N; i++) m.push_back(buf + i); all();
  Late c; c.buf = buf; if (chance(1, 2)) { c.stop = N - choose(20); c.ret = 3; } int r = cee_list_iterate(l, &c, late_cb); SIM_CHECK(r == c.ret && !c.bad && c.n == (c.stop ? c.stop : N), "list-iterate", "iteration over %zu elements, stop at %zu: %zu visited, returned %d%s", N, c.stop, c.n, r, c.bad ? ", wrong element or index" : "");
  for (int k = 0; k < 6; k++) { size_t i = chance(1, 2) ? N - 5 - choose(20) : choose(N); if (chance(1, 2)) { cee_list_insert(l, (int)i, buf + N + k); m.insert(m.begin() + i, buf + N + k); } else { bool ok = cee_list_remove(l, (int)i); SIM_CHECK(ok, "list-remove", "remove(%zu) of %zu failed", i, m.size()); m.erase(m.begin() + i); } } all();
  struct cee_stack *s = cee_stack_mk_e(st, CEE_DP_NOOP, N); for (size_t i = 0; i < N; i++) SIM_CHECK(cee_stack_push(s, buf + i), "stack-push", "push %zu on a stack for %zu failed", i, N);
  SIM_CHECK(cee_stack_full(s) && cee_stack_size(s) == N && !cee_stack_push(s, buf), "stack-limits", "a stack of %zu of %zu is not full", (size_t)cee_stack_size(s), N); for (size_t i = 0; i < N + 2; i++) SIM_CHECK(cee_stack_top(s, i) == (i < N ? buf + N - 1 - i : nullptr), "stack-content", "top(%zu) of %zu", i, N);
  for (size_t i = N; i-- > 0;) { void *p = cee_stack_pop(s); SIM_CHECK(p == buf + i, "stack-pop", "pop %zu of %zu yields number %td", i, N, (char *)p - buf); } SIM_CHECK(cee_stack_empty(s) && !cee_stack_pop(s), "stack-limits", "a stack popped empty is not empty");
  Bk x; x.id = 0; x.p = cee_block_mk(st, N); x.m = string(N, 0); chk(x); string t; for (size_t i = 0; i < N; i++) t += (char)(i * 3 + 2); x.p = cee_block_mk_e(st, N, &t, init_cb); x.m = t; chk(x);
  cee_del(st); SIM_CHECK(sim::live_blocks() == 0, "leak", "%d blocks remain", sim::live_blocks()); sim::count("probe.big-sizes"); sim::mark_nontrivial();
}
static void run() {
  if (BIG && chance(1, 1500)) { sim::alloc_large(); sim::alloc_draw_config(); big(); return; }
  sim::alloc_draw_config();
  st = cee_state_mk(10); pool_ = new vector<void *>; ls.clear(); ks.clear(); ts.clear(); bs.clear(); nid = 0;
  Steps stp(70, 500); int n = 0;
  while (stp.more()) {
    Span s;
    unsigned op = weighted({3, 14, 6, 6, 2, 2, 2, 8, 6, 2, 3, 2, 2, 2, 2, 2});
    if (op >= 1 && op <= 6 && ls.empty()) op = 0;
    if ((op == 7 || op == 8) && ks.empty()) op = 9;
    switch (op) {
      case 0: { if (ls.size() >= 5) break; size_t cap = (size_t[]){4, 0, 1, 2, 16, 100}[choose(6)]; enum cee_del_policy pol = chance(1, 3) ? CEE_DP_NOOP : CEE_DP_DEL_RC;
        L x{pol == CEE_DP_DEL_RC ? cee_list_mk(st, cap) : cee_list_mk_e(st, pol, cap), {}, nid++, pol}; ev("l%d = list(cap %zu)", x.id, cap); SIM_CHECK(cee_list_capacity(x.l) >= cap, "list-capacity", "list asked for capacity %zu has %zu", cap, cee_list_capacity(x.l)); if (chance(1, 2)) cee_use_realloc(x.l); ls.push_back(x); chk(ls.back()); break; }
      case 1: { L &x = ls[choose(ls.size())]; int k = chance(1, 8) ? 1 + choose(40) : 1; while (k--) { if (x.m.size() > 600) break; void *e = elem(x.pol); cee_list_append(x.l, e); x.m.push_back(e); ev("l%d.append(e%d)", x.id, en(e)); if (++n > 4) sim::mark_nontrivial(); } chk(x); break; }
      case 2: { L &x = ls[choose(ls.size())]; if (x.m.size() > 600) break; int i = choose(x.m.size() + 1); void *e = elem(x.pol); cee_list_insert(x.l, i, e); x.m.insert(x.m.begin() + i, e); ev("l%d.insert(%d,e%d)", x.id, i, en(e)); chk(x); break; }
      case 3: { L &x = ls[choose(ls.size())]; int i = chance(1, 30) ? -1 - (int)choose(3) : (int)choose(x.m.size() + 2); bool r = cee_list_remove(x.l, i); ev("l%d.remove(%d) -> %d", x.id, i, r); SIM_CHECK(r == (i >= 0 && i < (int)x.m.size()), "list-remove", "list l%d of %zu: remove(%d) returned %d", x.id, x.m.size(), i, r); if (r) x.m.erase(x.m.begin() + i); chk(x); break; }
      case 4: { L &x = ls[choose(ls.size())]; It c{{}, 0, 0}; if (!x.m.empty() && chance(1, 2)) { c.stop = 1 + choose(x.m.size()); c.ret = chance(1, 3) ? -9 : 1 + choose(7); }
        int r = cee_list_iterate(x.l, &c, it_cb); ev("l%d.iterate(stop %d with %d) -> %d", x.id, c.stop, c.ret, r);
        SIM_CHECK(r == c.ret, "list-iterate", "iteration of l%d (%zu elements) returned %d, expected %d", x.id, x.m.size(), r, c.ret);
        size_t want = c.stop ? c.stop : x.m.size(); SIM_CHECK(c.seen.size() == want, "list-iterate", "iteration visited %zu elements, expected %zu", c.seen.size(), want);
        for (size_t i = 0; i < c.seen.size(); i++) SIM_CHECK(c.seen[i].first == x.m[i] && c.seen[i].second == (int)i, "list-iterate", "iteration step %zu visited e%d with index %d", i, en(c.seen[i].first), c.seen[i].second);
        break; }
      case 5: { L &x = ls[choose(ls.size())], &y = ls[choose(ls.size())]; if (x.m.size() + y.m.size() > 600 || (x.pol != CEE_DP_NOOP && std::count(y.m.begin(), y.m.end(), nullptr))) break; vector<void *> add = y.m; cee_list_merge(x.l, y.l); ev("l%d.merge(l%d)", x.id, y.id); x.m.insert(x.m.end(), add.begin(), add.end()); chk(x); chk(y); break; }
      case 6: { size_t i = choose(ls.size()); ev("forget l%d", ls[i].id); // elements keep other references through the pool list: the list itself is dropped, not deleted
        ls.erase(ls.begin() + i); break; }
      case 7: { K &x = ks[choose(ks.size())]; int more = chance(1, 8) ? (int)choose(120) : 0; do { void *e = elem(x.pol); int r = cee_stack_push(x.s, e); ev("s%d.push(e%d) -> %d", x.id, en(e), r); SIM_CHECK((r != 0) == (x.m.size() < x.cap), "stack-push", "push on stack s%d with %zu of %zu returned %d", x.id, x.m.size(), x.cap, r); if (r) x.m.push_back(e); if (more <= 0) chk(x); if (++n > 4) sim::mark_nontrivial(); } while (more-- > 0); break; }
      case 8: { K &x = ks[choose(ks.size())]; int more = chance(1, 12) ? (int)choose(80) : 0; do { void *r = cee_stack_pop(x.s); void *e = x.m.empty() ? nullptr : x.m.back(); ev("s%d.pop -> e%d", x.id, en(r)); SIM_CHECK(r == e, "stack-pop", "pop of stack s%d returned e%d, expected e%d", x.id, en(r), en(e)); if (!x.m.empty()) x.m.pop_back(); if (more <= 0) chk(x); } while (more-- > 0); break; }
      case 9: { if (ks.size() >= 4) break; size_t cap = (size_t[]){4, 0, 1, 2, 9, 30, 50 + choose(250)}[choose(7)]; enum cee_del_policy pol = chance(1, 2) ? CEE_DP_DEL_RC : CEE_DP_NOOP; K x{pol == CEE_DP_DEL_RC ? cee_stack_mk(st, cap) : cee_stack_mk_e(st, pol, cap), {}, cap, nid++, pol}; ev("s%d = stack(%zu)", x.id, cap); ks.push_back(x); chk(ks.back()); break; }
      case 10: { if (ts.size() >= 8) ts.erase(ts.begin()); unsigned k = choose(4); T x; x.id = nid++; void *a[16]; for (auto &p : a) p = elem(); size_t w;
        enum cee_del_policy o[16]; for (auto &p : o) p = chance(1, 2) ? CEE_DP_NOOP : CEE_DP_DEL_RC; bool e_ = chance(1, 2);
        if (k == 0) { x.p = (void **)(e_ ? cee_tuple_mk_e(st, o, a[0], a[1]) : cee_tuple_mk(st, a[0], a[1])); w = 2; }
        else if (k == 1) { x.p = (void **)(e_ ? cee_triple_mk_e(st, o, a[0], a[1], a[2]) : cee_triple_mk(st, a[0], a[1], a[2])); w = 3; }
        else if (k == 2) { x.p = (void **)cee_quadruple_mk_e(st, o, a[0], a[1], a[2], a[3]); w = 4; }
        else { w = 1 + choose(16); x.p = (void **)cee_n_tuple_mk(st, w, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]); }
        x.m.assign(a, a + w); ev("t%d = tuple of %zu", x.id, w); ts.push_back(x); chk(ts.back()); break; }
      case 11: case 12: { size_t sz = chance(1, 2) ? choose(40) : (size_t[]){0, 1, 15, 16, 17, 63, 64, 65, 4096, 5000}[choose(10)]; Bk x; x.id = nid++;
        unsigned how = choose(3); if (how == 0) { x.p = cee_block_mk(st, sz); x.m = string(sz, 0); } else if (how == 1) { x.p = cee_block_mk_nonzero(st, sz); string m; for (size_t i = 0; i < sz; i++) m += (char)(i * 7 + 1); memcpy(x.p, m.data(), sz); x.m = m; } else { string m; for (size_t i = 0; i < sz; i++) m += (char)(i * 3 + 2); x.p = cee_block_mk_e(st, sz, &m, init_cb); x.m = m; }
        ev("b%d = block(%zu,%u)", x.id, sz, how); chk(x); if (bs.size() > 6) { if (chance(1, 2)) cee_del(bs[0].p); bs.erase(bs.begin()); } bs.push_back(x); break; }
      case 13: { if (bs.empty()) break; Bk &x = bs[choose(bs.size())]; for (size_t i = 0; i < x.m.size(); i++) { x.m[i] = (char)(i * 11 + nid); ((char *)x.p)[i] = x.m[i]; } ev("fill b%d", x.id); break; }
      case 14: SIM_CHECK(cee_list_size(nullptr) == 0 && cee_list_capacity(nullptr) == 0 && !cee_list_remove(nullptr, 0), "null", "functions of the NULL list"); { It c{{}, 0, 0}; SIM_CHECK(cee_list_iterate(nullptr, &c, it_cb) == 0 && c.seen.empty(), "null", "iteration of the NULL list"); } break;
      default: chk_all();
    }
  }
  chk_all(); cee_del(st);
}
#ifndef EMBED
namespace sim {
Harness harness = {"C01", run, 60000000, 80000, 1500000,
  "one run = a seeded history of list/stack/tuple/n-tuple/block operations on up to 5 lists, 4 stacks, 8 tuples, 7 blocks under one seeded allocator behaviour, checked step by step against vectors; non-trivial = more than 4 insertions; distinct = distinct event history hash",
  {"list.c", "stack.c", "tuple.c", "triple.c", "quadruple.c", "n_tuple.c", "block.c", "state.c"}, {"malloc family (simulated heap)"}};
}
#endif
