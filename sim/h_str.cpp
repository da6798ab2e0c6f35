// C04: growable strings hold exactly the text of their history, for every resize method and allocator behaviour.
#include "util.h"
static struct cee_state *st;
struct X { struct cee_str *p; string m; int id; size_t room; };
static vector<X> xs; static int nid;
static void chk(X &x) {
  const char *p = (const char *)x.p; size_t n = strlen(p);   // a missing terminator runs into poisoned memory
  SIM_CHECK(n == x.m.size() && !memcmp(p, x.m.data(), n), "content", "string x%d is %s, its history implies %s", x.id, show(string(p, n)).c_str(), show(x.m).c_str());
  SIM_CHECK(cee_str_end(x.p) == p + n, "end", "cee_str_end of x%d does not point to the terminator", x.id);
  sim::state(hstr(x.m));
}
static size_t draw_len(size_t cur) {
  switch (weighted({5, 3, 3, 2, 1})) {
    case 0: return choose(12);
    case 1: return choose(140);
    case 2: { size_t b = (size_t[]){64, 128, 192, 256, 512, 1024}[choose(6)]; size_t hdr = 40 + choose(60); size_t t = b > cur + hdr ? b - cur - hdr : 0; return t; } // near a block boundary
    case 3: return chance(1, 6) ? choose(1ull << (9 + choose(5))) : 200 + choose(900);
    default: return 0;
  }
}
static string text(size_t n) { string s; unsigned mode = choose(chance(1, 3) ? 4 : 3);
  if (mode == 3) { size_t a = choose(n + 1), b = choose(n - a + 1); auto blank = [](size_t k) { string w; unsigned m = choose(2); while (w.size() < k) w += m ? ' ' : " \t\n\r"[choose(4)]; return w; }; return blank(a) + string(n - a - b, 'w') + blank(b); } // blanks at both ends
  for (size_t i = 0; i < n; i++) s += mode == 0 ? (char)('a' + i % 26) : mode == 1 ? " \t\n\rxy"[choose(6)] : (char)(1 + choose(255)); return s; }
static struct cee_str *viav(const char *f, ...) { va_list ap; va_start(ap, f); struct cee_str *r = cee_str_mkv(st, f, ap); va_end(ap); return r; }

// the functions that return a fresh copy with replacements
static char *heap(const string &s) { char *b = (char *)sim::arena_alloc(s.size() + 1); memcpy(b, s.c_str(), s.size() + 1); return b; }
static void replacing() {
  static const char *al[] = {"ab", "aab", "<>&", "abcdefgh"}; const char *a = al[choose(4)]; size_t k = strlen(a); auto word = [&](size_t lo, size_t hi) { string s; size_t n = lo + choose(hi - lo + 1); while (n--) s += a[choose(k)]; return s; };
  auto grow = [&](string s) { if (!s.empty() && chance(1, 16)) { size_t t = 1 + choose(1ull << (3 + choose(9))); string u; while (u.size() < t) u += s; if (chance(1, 2)) u.resize(t); return u; } return s; };
  string src = grow(chance(1, 4) ? word(100, 600) : word(0, 20)), want; unsigned f = (unsigned)choose(3); char *r; size_t out = 77; bool told = false;
  if (f == 0) { string o = word(1, 3), n = word(0, chance(1, 3) ? 12 : 4); if (chance(1, 4)) { o = grow(o); n = grow(n); if (n.size() > 300 && src.size() > 300) n.resize(300); if (o.size() > src.size() && chance(1, 2)) src = word(0, 20) + o + o + word(0, 20); } for (size_t i = 0; i < src.size();) if (src.compare(i, o.size(), o) == 0) { want += n; i += o.size(); } else want += src[i++];
    r = str_replace_all(heap(src), heap(o), heap(n)); ev("replace all %s by %s in %zu bytes", show(o).c_str(), show(n).c_str(), src.size()); }
  else if (f == 1) { size_t off = choose(src.size() + 1), len = choose(src.size() - off + 1); string n = grow(word(0, 30)); want = src.substr(0, off) + n + src.substr(off + len); r = str_replace_at_offset(heap(src), off, len, heap(n)); ev("replace %zu+%zu by %s in %zu bytes", off, len, show(n).c_str(), src.size()); }
  else { unsigned np = 1 + (unsigned)choose(chance(1, 8) ? 18 : 4); vector<string> v; vector<char *> p; for (unsigned i = 0; i < 18; i++) { v.push_back(chance(1, 8) ? grow(word(1, 3)) : word(1, 3)); v.push_back(word(0, chance(1, 3) ? 9 : 3)); if (chance(1, 12)) v.back() = grow(v.back()).substr(0, 300); } for (auto &x : v) p.push_back(heap(x));
    size_t whole = src.size(), len = chance(1, 3) ? choose(whole + 1) : whole; string s = src.substr(0, len);
    for (size_t i = 0; i < s.size();) { unsigned u = 0; while (u < np && s.compare(i, v[2 * u].size(), v[2 * u])) u++; if (u < np) { want += v[2 * u + 1]; i += v[2 * u].size(); } else want += s[i++]; }
    r = str_replace_all_ext(heap(src), len, (told = !chance(1, 6)) ? &out : nullptr, (int)np, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16], p[17], p[18], p[19], p[20], p[21], p[22], p[23], p[24], p[25], p[26], p[27], p[28], p[29], p[30], p[31], p[32], p[33], p[34], p[35]);
    ev("replace %u pairs in %zu bytes -> %zu", np, len, want.size()); if (told) SIM_CHECK(out == want.size(), "replace", "the reported size is %zu, the text has %zu bytes", out, want.size()); }
  SIM_CHECK(r && sim::block_of(r) >= 0, "replace", "no fresh text is returned"); string got = r; SIM_CHECK(got == want, "replace", "replacing in %s yields %s instead of %s", show(src).c_str(), show(got).c_str(), show(want).c_str());
  free(r); sim::count("probe.replaced");
}
static void big() { // texts longer than 16 bits can count
  st = cee_state_mk(4); X x; x.id = 0; x.room = 0; size_t n = 65300 + choose(300); string t(n, 'q'); for (size_t i = 0; i < n; i++) t[i] = (char)('a' + i % 23); unsigned how = choose(4); ev("big string of %zu (how %u)", n, how);
  x.m = t; if (how == 0) x.p = cee_str_mk(st, "%s", t.c_str()); else if (how == 3) { size_t m = chance(1, 2) ? n + choose(3000) : 10; x.p = cee_str_mk_e(st, m, "%s", t.c_str()); } else if (how == 1) { char *b = (char *)sim::arena_alloc(n); memcpy(b, t.data(), n); x.p = cee_str_strn(st, b, n); } else { x.p = cee_str_mk(st, "%s", ""); if (chance(1, 2)) cee_use_realloc(x.p); x.p = cee_str_catf(x.p, "%s", t.c_str()); }
  if (chance(1, 2)) cee_use_realloc(x.p); chk(x); for (int i = 0, k = 200 + (int)choose(400); i < k; i++) { char c = (char)('A' + i % 26); x.p = cee_str_add(x.p, c); x.m += c; if (x.m.size() % 64 < 2 || x.m.size() / 64 == 1024) chk(x); } chk(x);
  string u(1 + choose(chance(1, 2) ? 70000 : 300), 'z'); x.p = cee_str_catf(x.p, "<%s>", u.c_str()); x.m += "<" + u + ">"; chk(x);
  if (chance(1, 2)) { string v = string(choose(5), ' ') + string(choose(70000), 'w') + "  "; x.p = cee_str_replace(x.p, "%s", v.c_str()); x.m = v; chk(x); cee_str_ltrim(x.p); while (!x.m.empty() && x.m[0] == ' ') x.m.erase(0, 1); chk(x); cee_str_rtrim(x.p); while (!x.m.empty() && x.m.back() == ' ') x.m.pop_back(); chk(x); }
  cee_del(st); SIM_CHECK(sim::live_blocks() == 0, "leak", "%d blocks remain", sim::live_blocks()); sim::count("probe.big-sizes"); sim::mark_nontrivial();
}
static void run() {
  if (BIG && chance(1, 800)) { sim::alloc_large(); sim::alloc_draw_config(); big(); return; }
  sim::alloc_draw_config(); st = cee_state_mk(10); xs.clear(); nid = 0; int grown = 0;
  Steps stp(50, 400);
  while (stp.more()) {
    Span s; unsigned op = weighted({3, 3, 2, 10, 10, 3, 2, 2, 1, 2, 2});
    if (xs.empty() && op >= 3 && op != 10) op = 0;
    if (op <= 2 && xs.size() >= 6) { size_t i = choose(xs.size()); chk(xs[i]); if (chance(1, 2)) cee_del(xs[i].p); xs.erase(xs.begin() + i); }
    switch (op) {
      case 0: { string t = text(draw_len(0)); X x; x.id = nid++; x.room = 0; unsigned how = choose(3);
        int k = (int)choose(1000) - 500; if (how == 0) { x.p = cee_str_mk(st, "%s", t.c_str()); x.m = t; } else if (how == 1) { x.p = viav("%d:%s;%ld", k, t.c_str(), 7000000000L); x.m = fmt("%d:%s;%ld", k, t.c_str(), 7000000000L); } else { x.p = cee_str_mk(st, "%c%s%5d|%-4s|%g", 'z', t.c_str(), k, "ab", 1.5); x.m = "z" + t + fmt("%5d|%-4s|%g", k, "ab", 1.5); }
        ev("x%d = mk%u(%zu)", x.id, how, x.m.size()); if (chance(1, 2)) cee_use_realloc(x.p); xs.push_back(x); chk(xs.back()); break; }
      case 1: { size_t n = chance(1, 2) ? choose(300) : (size_t[]){0, 1, 64, 128, 200, 1000}[choose(6)]; string t = text(draw_len(0)); X x; x.id = nid++; x.room = n;
        bool f = chance(2, 3); if (f) { x.p = cee_str_mk_e(st, n, "%s", t.c_str()); x.m = t; } else { if (!n) n = 1; x.room = n; x.p = cee_str_mk_e(st, n, nullptr); x.m = ""; }
        ev("x%d = mk_e(%zu, %zu)", x.id, n, x.m.size()); chk(x);
        // a buffer of n bytes, as documented: all of them are the caller's
        if (n) { char *p = (char *)x.p; string keep = x.m; for (size_t i = 0; i < n; i++) p[i] = 'A' + i % 26; for (size_t i = 0; i < n; i++) SIM_CHECK(p[i] == (char)('A' + i % 26), "buffer", "byte %zu of the %zu byte buffer cannot be written", i, n); memcpy(p, keep.c_str(), std::min(n, keep.size() + 1)); if (keep.size() + 1 > n) memcpy(p, keep.c_str(), keep.size() + 1); }
        if (chance(1, 2)) cee_use_realloc(x.p); xs.push_back(x); chk(xs.back()); break; }
      case 2: { string t = text(draw_len(0)); size_t n = t.size(); string src = t + "garbage"; char *b = (char *)sim::arena_alloc(n ? n : 1); memcpy(b, src.data(), n); X x; x.id = nid++; x.p = cee_str_strn(st, b, n); x.m = t; ev("x%d = strn(%zu)", x.id, n); if (chance(1, 2)) cee_use_realloc(x.p); xs.push_back(x); chk(xs.back()); break; }
      case 3: { X &x = xs[choose(xs.size())]; int k = chance(1, 3) ? 1 + choose(150) : 1; while (k--) { char c = (char)(33 + choose(90)); x.p = cee_str_add(x.p, c); x.m += c; grown++; } ev("x%d.add -> %zu", x.id, x.m.size()); chk(x); break; }
      case 4: { X &x = xs[choose(xs.size())]; if (x.m.size() > 20000) break; string t = text(draw_len(x.m.size())); int k = choose(2000); if (chance(1, 2)) { x.p = cee_str_catf(x.p, "%s", t.c_str()); x.m += t; } else { x.p = cee_str_catf(x.p, "%d,%s.%04x", k, t.c_str(), k); x.m += fmt("%d,", k) + t + fmt(".%04x", k); } grown++; ev("x%d.catf(%zu) -> %zu", x.id, t.size(), x.m.size()); chk(x); break; }
      case 5: { X &x = xs[choose(xs.size())]; string t = text(draw_len(chance(1, 2) ? 0 : x.m.size())); if (chance(1, 2)) { x.p = cee_str_replace(x.p, "%s", t.c_str()); x.m = t; } else { x.p = cee_str_replace(x.p, "<%s|%d>", t.c_str(), 42); x.m = "<" + t + "|42>"; } ev("x%d.replace -> %zu", x.id, x.m.size()); chk(x); break; }
      case 6: { X &x = xs[choose(xs.size())]; cee_str_rtrim(x.p); while (!x.m.empty() && strchr(" \t\n\r", x.m.back())) x.m.pop_back(); ev("x%d.rtrim -> %zu", x.id, x.m.size()); chk(x); break; }
      case 7: { X &x = xs[choose(xs.size())]; cee_str_ltrim(x.p); size_t i = 0; while (i < x.m.size() && strchr(" \t\n\r", x.m[i])) i++; x.m.erase(0, i); ev("x%d.ltrim -> %zu", x.id, x.m.size()); chk(x); break; }
      case 8: { X &x = xs[choose(xs.size())]; if (chance(1, 2)) cee_use_realloc(x.p); else cee_use_malloc(x.p); { struct cee_str *o = x.p; if (chance(1, 2)) x.p = cee_str_catf(x.p, nullptr); else x.p = cee_str_replace(x.p, nullptr); SIM_CHECK(x.p == o, "null", "a NULL format moved the string"); } chk(x); break; }
      case 10: replacing(); break;
      default: for (auto &x : xs) chk(x);
    }
    if (grown > 2) sim::mark_nontrivial();
    if (chance(1, 10)) for (auto &x : xs) chk(x);
  }
  for (auto &x : xs) chk(x);
  cee_del(st);
}
#ifndef EMBED
namespace sim {
Harness harness = {"C04", run, 20000000, 50000, 1500000,
  "one run = a seeded history of creations (mk, mkv, mk_e, strn), appends, formatted appends, replacements, substring replacements and trims on up to 6 strings under one seeded allocator behaviour (placement, address reuse, moving or in-place realloc, malloc or realloc resizing), checked after every step against std::string; non-trivial = more than 2 growth steps; distinct = distinct event history hash",
  {"str.c", "state.c", "cee-resize.h"}, {"malloc family (simulated heap)"}};
}
#endif
