// C12: the parser accepts exactly well-formed text and stays inside its input.
#include "ujson.h"
static struct cee_state *st;
// text of a document in a random layout: white space, escape forms, number forms
static void ws(string &o) { if (chance(1, 3)) { size_t n = 1 + choose(3); while (n--) o += " \t\n\r"[choose(4)]; } }
static void str_text(const string &s, string &o) {
  unsigned mode = choose(4); o += '"';
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    if (c >= 0x80) {
      int k = c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3; uint32_t v = k == 1 ? c & 31 : k == 2 ? c & 15 : c & 7; for (int q = 1; q <= k; q++) v = v << 6 | ((unsigned char)s[i + q] & 63);
      if (mode >= 2 && chance(1, 2)) { const char *f = chance(1, 2) ? "\\u%04x" : "\\u%04X"; if (v >= 0x10000) { v -= 0x10000; o += fmt(f, 0xD800 | v >> 10); o += fmt(f, 0xDC00 | (v & 0x3FF)); } else o += fmt(f, v); } else o.append(s, i, k + 1);
      i += k + 1; continue;
    }
    const char *e = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : c == '/' && chance(1, 2) ? "\\/" : nullptr;
    if ((c < 32 && !e) || (mode == 3 && chance(1, 3))) o += fmt("\\u%04x", c); else if (e) o += e; else o += (char)c;
    i++;
  }
  o += '"';
}
static void text(const P &p, string &o) {
  switch (p->t) {
    case JV::STR: str_text(p->s, o); break;
    case JV::ARR: { o += '['; bool f = true; for (auto &e : p->a) { if (!f) o += ','; f = false; ws(o); text(e, o); ws(o); } o += ']'; break; }
    case JV::OBJ: { o += '{'; bool f = true; for (auto &e : p->o) { if (!f) o += ','; f = false; ws(o); if (chance(1, 15)) { P d = draw_scalar(); str_text(chance(1, 2) ? e.first : p->o[choose(p->o.size())].first, o); o += ':'; text(d, o); o += ','; } str_text(e.first, o); ws(o); o += ':'; ws(o); text(e.second, o); ws(o); }
      if (!p->o.empty() && chance(1, 10)) { P d = draw_scalar(); o += ','; str_text(p->o[choose(p->o.size())].first, o); o += ':'; text(d, o); } o += '}'; break; }
    case JV::DBL: { double d = p->d; const char *fs[] = {"%.17g", "%.3f", "%.17e", "%.5E", "%g", "%.1f"}; string t = fmt(fs[choose(6)], d); o += t.size() > 400 ? "1e300" : t; break; }
    default: o += text_of(p);
  }
}
static string number() {
  string s = chance(1, 3) ? "-" : ""; size_t n = chance(1, 5) ? 15 + choose(30) : 1 + choose(6);
  if (n > 1 || !chance(1, 3)) { s += (char)('1' + choose(9)); for (size_t i = 1; i < n; i++) s += (char)('0' + choose(10)); } else s += '0';
  if (chance(1, 3)) { s += '.'; n = 1 + choose(8); while (n--) s += (char)('0' + choose(10)); }
  if (chance(1, 4)) { s += "eE"[choose(2)]; unsigned k = choose(3); if (k) s += k == 1 ? "+" : "-"; s += fmt("%d", (int)choose(chance(1, 3) ? 400 : 30)); }
  return s;
}
static string prev_text;
static string make() {
  string t; unsigned k = weighted({60, 18, 12, 6, 6, 3});
  ws(t);
  if (k == 5) { // long
    P p = chance(1, 3) ? jstr(long_text(draw_size(20000))) : long_doc(4000, 700); string s; if (expanded(p) + (p->t == JV::STR ? p->s.size() : 0) < 400) text(p, s); else s = text_of(p); string gap; size_t g = draw_size(3000); unsigned what = choose(4); if (what == 3) gap = "\n"; while (gap.size() < g) gap += what == 0 ? ' ' : " \t\n\r"[what == 1 ? choose(4) : 2];
    switch (choose(4)) { case 0: t += "[" + gap + s + "," + gap + "\"end\"]"; break; case 1: t += gap + s; break; case 2: { string n = chance(1, 2) ? "-0." : "3."; n += string(draw_size(300), '0'); n += fmt("%u", (unsigned)choose(100000)); if (chance(1, 3)) n += "e-5"; t += "[" + n + "," + s + gap + "]"; break; } default: t += s + gap; }
    sim::count("probe.long-text"); return t; }
  if (k == 0) { int b = 3 + (int)choose(chance(1, 6) ? 120 : 25); P p = draw_doc(b, 6, 8, true); text(p, t); }
  else if (k == 1) { bool br = chance(2, 3); if (br) t += '['; size_t n = 1 + choose(6); for (size_t i = 0; i < (br ? n : 1); i++) { if (i) t += ','; t += number(); } if (br) t += ']'; }
  else if (k == 2) { P p = jstr(draw_text()); string s; str_text(p->s, s); t += chance(1, 2) ? "[" + s + "]" : s; }
  else if (k == 3) { // deep
    unsigned d = chance(1, 3) ? 1 + choose(60) : chance(1, 2) ? 490 + choose(11) : chance(2, 3) ? 500 + choose(30) : 500 + choose(2400); string close; bool mixed = chance(1, 2);
    for (unsigned i = 0; i < d; i++) if (mixed && chance(1, 2)) { t += "{\"k\":"; close += '}'; } else { t += '['; close += ']'; }
    t += chance(1, 2) ? "1" : "{}"; std::reverse(close.begin(), close.end()); t += close; sim::count("probe.deep-text"); }
  else { static const char *odd[] = {"", " ", "[", "{", "\"", "\"\\", "\"\\u12", "-", "1.", "1e", "1e+", "tru", "nul", "/", "//", "// c", "[1,]", "{\"a\":1,}", "{\"a\"}", "[1 2]", "{1:2}", "[,]", "\"\\uD834\"", "\"\\uD834\\n\"", "\"\\uDD1E\"", "\"\\x\"", "01", "-01", "00.5", "+1", ".5", "NaN", "Infinity", "[1]//x", "[1]]", "[]{}", "\"a\nb\"", "\"\xff\"", "\"\\n\xff\"", "\xef\xbb\xbf[]", "'a'", "[\"\\ud834\\udd1e\"]", "{\"a\":1,\"a\":[2]}", "{\"a\":{},\"b\":3,\"a\":4}", "\"\\u00e9\\u20ac\"", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808", "1e400", "-0", "-0.0"};
    t += odd[choose(sizeof odd / sizeof *odd)]; }
  ws(t);
  return t;
}
static string damage(string t) {
  unsigned n = weighted({4, 4, 2, 1});
  for (unsigned i = 0; i < n; i++) {
    size_t at = t.empty() ? 0 : choose(t.size());
    switch (weighted({5, 3, 4, 2, 2, 2, 2, 2, 1, 4, 2, 2})) {
      case 11: { // something between or instead of the halves of a pair of surrogates
        vector<size_t> hi; for (size_t k = 0; k + 6 <= t.size(); k++) if (t[k] == '\\' && (t[k + 1] == '\\' || t[k + 1] == '"')) k++; else if (t[k] == '\\' && t[k + 1] == 'u' && (t[k + 2] | 32) == 'd' && strchr("89abAB", t[k + 3])) hi.push_back(k + 6);
        static const char *in[] = {"\xc3\xa9", "\xf0\x9f\x98\x80", "a", "\\n", "\\u0041", "\\ud83d", "\\udbff", " ", "\\\"", "\xe2\x82\xac\\ude00", "\xc3"}; string x = in[choose(11)];
        if (hi.empty()) { x = (chance(1, 2) ? "\\ud83d" : "\\uDBFF") + x; if (chance(1, 2)) x += "\\ude00"; t.insert(at, x); } else { size_t k = hi[choose(hi.size())]; if (chance(1, 2)) t.insert(k, x); else t.replace(k, 6, x); } sim::count("fault.surrogate-broken"); break; }
      case 0: t = t.substr(0, at); sim::count("fault.truncated"); break;
      case 1: if (!t.empty()) t[at] ^= (char)(1 << choose(8)); sim::count("fault.bit-flipped"); break;
      case 2: { static const char c[] = "{}[],:\"\\/u0eE.+- \n\x01\x7f\xc3\xf0\xed"; t.insert(at, 1, c[choose(sizeof c - 1)]); sim::count("fault.byte-inserted"); break; }
      case 3: if (!t.empty()) t.erase(at, 1 + choose(3)); sim::count("fault.bytes-lost"); break;
      case 4: { size_t l = 1 + choose(20); string x = t.substr(at, l); t.insert(at, x); sim::count("fault.bytes-duplicated"); break; }
      case 5: if (t.size() > 1) { std::swap(t[at], t[choose(t.size())]); } sim::count("fault.bytes-swapped"); break;
      case 6: { size_t l = 1 + choose(64), s = at & ~(size_t)7; for (size_t k = s; k < s + l && k < t.size(); k++) t[k] = k < prev_text.size() ? prev_text[k] : 0; sim::count("fault.torn-old-contents"); break; }
      case 7: { size_t l = 1 + choose(32); for (size_t k = at; k < at + l && k < t.size(); k++) t[k] = 0; sim::count("fault.zeroed"); break; }
      case 9: case 10: { // a whole token lost, added or replaced by another
        vector<std::pair<size_t, size_t>> tk; for (size_t k = 0; k < t.size();) { size_t e = k + 1; if (t[k] == '"') { while (e < t.size() && t[e] != '"') e += t[e] == '\\' ? 2 : 1; if (e < t.size()) e++; else e = t.size(); } else if (isalnum((unsigned char)t[k]) || t[k] == '-') while (e < t.size() && (isalnum((unsigned char)t[e]) || strchr(".+-", t[e]))) e++; if (!strchr(" \t\r\n", t[k])) tk.push_back({k, e - k}); k = e; }
        if (tk.empty()) break; auto q = tk[choose(tk.size())]; static const char *tok[] = {",", ":", "[", "]", "{", "}", "null", "true", "false", "1", "\"x\"", "-2.5e3"}; string r = chance(1, 5) ? "" : chance(1, 3) ? t.substr(tk[choose(tk.size())].first, 1) : tok[choose(12)];
        bool ins = chance(1, 3); if (!r.empty() && isalnum((unsigned char)r.back()) && (ins || true)) r = " " + r + " "; if (ins) t.insert(q.first, r); else t.replace(q.first, q.second, r); sim::count("fault.token-replaced"); break; }
      default: t[at < t.size() ? at : 0] = (char)choose(256); if (t.size() == 1 && !t[0]) t.clear(); sim::count("fault.byte-replaced");
    }
  }
  return t;
}
static bool leaked; static P last_model; static struct cee_json *last_j;
static void parse(const string &t, bool whole) {
  char *b = (char *)sim::arena_alloc(t.size()); memcpy(b, t.data(), t.size());
  RefParse s(t, true), l(t, false); P es = s.doc(whole), el = l.doc(whole); bool must = es != nullptr && s.maxdepth <= 500;
  struct cee_json *j = (struct cee_json *)16; int line = -7, r; int live = sim::live_blocks(sim::get_owner()); bool own = whole && chance(1, 6);
  if (own) { j = cee_json_load_from_buffer(b, t.size()); r = j ? 0 : 1; if (!j) SIM_CHECK(sim::live_blocks(sim::get_owner()) == live, "leak", "rejecting a buffer leaves %d blocks that no state owns", sim::live_blocks(sim::get_owner()) - live); }
  else r = cee_json_parsex(st, b, t.size(), &j, whole, &line);
  ev("parse %zu bytes whole=%d own=%d -> %d", t.size(), whole, own, r);
  SIM_CHECK(!memcmp(b, t.data(), t.size()), "input-changed", "the parser changed its input %s", show(t).c_str());
  if (r && sim::alloc_failed_once()) sim::count("probe.failure-reported");
  if (must) SIM_CHECK(r == 0 || sim::alloc_failed_once(), "rejected", "well-formed text is rejected (%d, line %d): %s", r, line, show(t).c_str());
  if (r) {
    SIM_CHECK(j == nullptr, "status", "rejected text gives a document: %s", show(t).c_str());
    if (!own) { size_t nl = 0; for (char c : t) nl += c == '\n' || c == '\r'; SIM_CHECK(line >= 0 && (size_t)line <= nl, "status", "error at line %d of a text of %zu lines", line, nl); }
    return;
  }
  SIM_CHECK(j != nullptr && j != (struct cee_json *)16, "status", "accepted text gives no document: %s", show(t).c_str());
  SIM_CHECK(el != nullptr, "accepted", "text that is not well-formed is accepted (near offset %zu): %s", l.p, show(t).c_str());
  if (!el->hasnul) { // strings with an escaped NUL are cut there
    bool nul = false; std::function<void(const P &)> f = [&](const P &p) { nul |= p->hasnul; for (auto &e : p->a) f(e); for (auto &e : p->o) f(e.second); }; f(el);
    if (!nul) { mirror(el, j, "$"); sim::state(jhash(el)); last_model = el; last_j = j; }
  }
  sim::count("probe.accepted");
  if (own) { struct cee_state *o = nullptr; switch (jtype(j)) { case JV::OBJ: o = cee_get_state(cee_json_to_object(j)); break; case JV::ARR: o = cee_get_state(cee_json_to_array(j)); break; case JV::STR: o = cee_get_state(cee_json_to_str(j)); break; case JV::DBL: case JV::I64: case JV::U64: o = cee_get_state(cee_json_to_boxed(j)); break; default: break; }
    if (o) { if (last_j == j) last_j = nullptr; cee_del(o); } else leaked = true; }
}
static void big() { // texts with more bytes, lines, elements or members than 16 bits can count
  st = cee_state_mk(4); size_t N = 65530 + choose(600); unsigned how = choose(5); string t; bool bad = chance(1, 3); size_t at = chance(1, 2) ? choose(N) : N - 1 - choose(10); ev("big text: %zu (how %u)%s", N, how, bad ? fmt(", damaged at %zu", at).c_str() : "");
  if (how == 0) { t = "["; for (size_t i = 0; i < N; i++) t += fmt(i ? ",%zu" : "%zu", i) + (bad && i == at ? " 7" : ""); t += "]"; }
  else if (how == 1) { t = "{"; for (size_t i = 0; i < N; i++) t += fmt(i ? ",\"k%zu\":%zu" : "\"k%zu\":%zu", i, i) + (bad && i == at ? ":" : ""); t += "}"; }
  else if (how == 2) { t = "[\"" + string(N, 'y') + "\"]"; if (bad) t[2 + at] = '\001'; else if (chance(1, 2)) for (size_t i = 3; i + 10 < N; i += 2 + choose(4000)) { t[i] = '\\'; t[i + 1] = 'n'; i += 2; } }
  else if (how == 3) { for (size_t i = 0; i < N; i++) t += bad && i == at ? "?" : i % 5 ? "\n" : " \n"; t += "[1]"; }
  else { t = "[1," + string(N, ' ') + "2]" + string(bad ? 1 : 0, 'x') + string(N, ' '); }
  char *b = (char *)sim::arena_alloc(t.size()); memcpy(b, t.data(), t.size()); struct cee_json *j = nullptr; int line = -7; int r = cee_json_parsex(st, b, t.size(), &j, true, &line); ev("-> %d", r);
  RefParse rp(t, true); P g = how == 1 ? nullptr : rp.doc(true);
  SIM_CHECK((r == 0) == !bad && (j != nullptr) == !bad, bad ? "accepted" : "rejected", "%s text of %zu bytes (kind %u): %d, line %d", bad ? "a damaged" : "a well-formed", t.size(), how, r, line);
  if (bad && how == 3) SIM_CHECK(line == (int)at, "status", "the error is in line %zu (counted from 0), %d is reported", at, line);
  if (!bad && how != 1) { SIM_CHECK(g, "model", "harness: reference parser"); mirror(g, j, "$"); }
  if (!bad && how == 1) { SIM_CHECK(cee_map_size(cee_json_to_object(j)) == N, "value", "%zu members become %zu", N, (size_t)cee_map_size(cee_json_to_object(j))); for (size_t i = 0; i < N; i++) { struct cee_json *v = cee_json_object_get(j, (char *)fmt("k%zu", i).c_str()); SIM_CHECK(v && v->t == CEE_JSON_I64 && cee_boxed_to_i64(cee_json_to_boxed(v)) == (int64_t)i, "value", "member %zu of %zu", i, N); } }
  cee_del(st); SIM_CHECK(sim::live_blocks(sim::get_owner()) == 0, "leak", "%d blocks live after the state was deleted", sim::live_blocks(sim::get_owner())); sim::count("probe.big-sizes"); sim::mark_nontrivial();
}
static void run() {
  if (BIG && chance(1, 900)) { sim::alloc_large(); sim::alloc_draw_config(); big(); return; }
  sim::alloc_draw_config(); st = cee_state_mk(10); last_j = nullptr; prev_text.clear(); unsigned n = 0; leaked = false;
  Steps stp(8, 60);
  while (stp.more()) {
    Span s; string t = make(); string d = chance(1, 4) ? t : damage(t); parse(d, !chance(1, 5)); prev_text = t; if (++n == 2) sim::mark_nontrivial();
    // documents parsed before are intact
    if (last_j && chance(1, 2)) { mirror(last_model, last_j, "earlier document"); }
    if (last_j && chance(1, 6)) { bool c = last_model->t == JV::NUL || last_model->t == JV::BOOL; if (!c) cee_state_add_gc_root(st, last_j); if (expanded(last_model) < 5000) { cee_state_gc(st); ev("gc"); mirror(last_model, last_j, "earlier document"); } if (!c) cee_state_remove_gc_root(st, last_j); }
  }
  cee_del(st);
  // the state of an accepted constant cannot be found again
  if (!leaked) SIM_CHECK(sim::live_blocks(sim::get_owner()) == 0, "leak", "%d blocks live after the state was deleted, e.g. %s", sim::live_blocks(sim::get_owner()), sim::block_desc(sim::first_live(sim::get_owner())));
}
#ifndef EMBED
namespace sim {
Harness harness = {"C12", run, 900000000, 28000, 900000,
  "one run = a seeded series of texts (generated documents in random layout, escape and number forms, deep nests, malformed fragments), most of them damaged by truncation, bit flips, inserted, lost, duplicated, swapped, zeroed bytes or parts of older contents, parsed from a buffer of exactly that size under one seeded allocator behaviour, with collections in between; accept, reject and value are compared with an independent parser; non-trivial = at least 2 texts; distinct = distinct event history hash",
  {"cee-json/tokenizer.c", "cee-json/parser.c", "cee-json/value.c", "map.c", "list.c", "str.c", "stack.c", "tuple.c", "state.c"}, {"malloc family (simulated heap)"}};
}
#endif
