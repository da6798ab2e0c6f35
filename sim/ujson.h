// JSON reference model shared by the JSON and SQLite harnesses: value trees with identity, a reference parser
// (strict and with the library's leniencies), comparison of real documents with the model.
#pragma once
#include "util.h"
#include <memory>
extern "C" {
#include "cee-json.h"
}
struct JV; typedef std::shared_ptr<JV> P;
struct JV {
  enum T { NUL, BOOL, DBL, I64, U64, STR, BLOB, OBJ, ARR, STRN } t = NUL;
  bool b = false, hasnul = false; double d = 0; int64_t i = 0; uint64_t u = 0; string s;
  vector<P> a; vector<std::pair<string, P>> o;
  struct cee_json *r = nullptr;     // the real value this node mirrors (null: not mirrored)
  int find(const string &k) const { for (size_t x = 0; x < o.size(); x++) if (o[x].first == k) return (int)x; return -1; }
  bool box() const { return t == OBJ || t == ARR; }
};
static const char *jtn[] = {"null", "boolean", "double", "i64", "u64", "string", "blob", "object", "array", "strn"};
static inline P jv(JV::T t) { P p = std::make_shared<JV>(); p->t = t; return p; }
static inline P jnull() { return jv(JV::NUL); }
static inline P jbool(bool b) { P p = jv(JV::BOOL); p->b = b; return p; }
static inline P jdbl(double d) { P p = jv(JV::DBL); p->d = d; return p; }
static inline P ji64(int64_t i) { P p = jv(JV::I64); p->i = i; return p; }
static inline P ju64(uint64_t u) { P p = jv(JV::U64); p->u = u; return p; }
static inline P jstr(const string &s) { P p = jv(JV::STR); p->s = s; return p; }
static inline JV::T jtype(struct cee_json *j) {
  switch (j->t) {
    case CEE_JSON_NULL: return JV::NUL; case CEE_JSON_BOOLEAN: return JV::BOOL; case CEE_JSON_DOUBLE: return JV::DBL; case CEE_JSON_I64: return JV::I64;
    case CEE_JSON_U64: return JV::U64; case CEE_JSON_STRING: return JV::STR; case CEE_JSON_BLOB: return JV::BLOB; case CEE_JSON_OBJECT: return JV::OBJ;
    case CEE_JSON_ARRAY: return JV::ARR; case CEE_JSON_STRN: return JV::STRN;
    default: violation("type-tag", "a JSON value has the type tag %d", (int)j->t);
  }
}
// ---- reference parser ------------------------------------------------------------------------------
struct RefParse {
  const unsigned char *b; size_t n, p = 0; bool strict; int depth = 0, maxdepth = 0; bool ok = true;
  RefParse(const string &s, bool st) : b((const unsigned char *)s.data()), n(s.size()), strict(st) {}
  int c() const { return p < n ? b[p] : -1; }
  P fail() { ok = false; return nullptr; }
  void ws() { while (p < n && (b[p] == ' ' || b[p] == '\t' || b[p] == '\n' || b[p] == '\r')) p++; }
  bool lit(const char *s) { size_t l = strlen(s); if (n - p < l || memcmp(b + p, s, l)) return false; p += l; return true; }
  static void utf8(string &o, uint32_t v) {
    if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); }
    else if (v < 0x10000) { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
    else { o += (char)(0xF0 | v >> 18); o += (char)(0x80 | (v >> 12 & 63)); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
  }
  static bool valid_utf8(const string &s) {
    size_t i = 0, n = s.size(); auto u = [&](size_t k) { return (unsigned char)s[k]; };
    while (i < n) {
      unsigned x = u(i); int k; uint32_t v, min;
      if (x < 0x80) { i++; continue; } else if (x >= 0xC2 && x < 0xE0) { k = 1; v = x & 31; min = 0x80; } else if (x >= 0xE0 && x < 0xF0) { k = 2; v = x & 15; min = 0x800; } else if (x >= 0xF0 && x < 0xF5) { k = 3; v = x & 7; min = 0x10000; } else return false;
      if (i + k >= n) return false;
      for (int q = 1; q <= k; q++) { if ((u(i + q) & 0xC0) != 0x80) return false; v = v << 6 | (u(i + q) & 63); }
      if (v < min || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return false;
      i += k + 1;
    }
    return true;
  }
  bool hex4(uint32_t &v) { if (n - p < 4) return false; v = 0; for (int i = 0; i < 4; i++) { int x = b[p + i]; int d = x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1; if (d < 0) return false; v = v * 16 + d; } p += 4; return true; }
  bool str(string &out, bool &nul) {
    p++; bool esc = false; nul = false; uint32_t hi = 0; out.clear();
    for (;;) {
      int x = c(); if (x < 0) return ok = false; 
      if (x == '"') { p++; break; }
      if (x < 0x20) return ok = false;
      if (hi && x != '\\') return ok = false;
      if (x != '\\') { out += (char)x; p++; continue; }
      esc = true; p++; x = c(); if (x < 0) return ok = false; p++;
      if (hi && x != 'u') return ok = false;
      switch (x) {
        case '"': case '\\': case '/': out += (char)x; break;
        case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
        case 'u': { uint32_t v; if (!hex4(v)) return ok = false;
          if (hi) { if (v < 0xDC00 || v > 0xDFFF) return ok = false; utf8(out, 0x10000 + ((hi & 0x3FF) << 10 | (v & 0x3FF))); hi = 0; }
          else if (v >= 0xD800 && v < 0xDC00) hi = v; else if (v >= 0xDC00 && v < 0xE000) return ok = false; else { if (!v) nul = true; utf8(out, v); }
          break; }
        default: return ok = false;
      }
    }
    if (hi && strict) return ok = false;          // leniency: a lone first surrogate at the end of a string
    if ((strict || esc) && !valid_utf8(out)) return ok = false;  // leniency: bytes >= 0x80 are not validated without escapes
    return true;
  }
  P num() {
    size_t s = p; if (c() == '-') p++;
    size_t d0 = p; while (c() >= '0' && c() <= '9') p++;
    if (p == d0) return fail();
    bool lead0 = b[d0] == '0' && p - d0 > 1, frac = false, ex = false;
    if (c() == '.') { p++; size_t f = p; while (c() >= '0' && c() <= '9') p++; if (p == f) return fail(); frac = true; }
    if (c() == 'e' || c() == 'E') { p++; if (c() == '+' || c() == '-') p++; size_t f = p; while (c() >= '0' && c() <= '9') p++; if (p == f) return fail(); ex = true; }
    if (lead0 && (strict || !(frac || ex))) return fail(); // leniency: leading zeros before a fraction or exponent
    string t((const char *)b + s, p - s);
    if (!frac && !ex) {
      errno = 0; long long v = strtoll(t.c_str(), nullptr, 10); if (!errno) return ji64(v);
      if (t[0] != '-') { errno = 0; unsigned long long u = strtoull(t.c_str(), nullptr, 10); if (!errno) return ju64(u); }
    }
    return jdbl(strtod(t.c_str(), nullptr));
  }
  P val() {
    if (!ok) return nullptr;
    switch (c()) {
      case '"': { P v = jv(JV::STR); if (!str(v->s, v->hasnul)) return nullptr; return v; }
      case 't': return lit("true") ? jbool(true) : fail();
      case 'f': return lit("false") ? jbool(false) : fail();
      case 'n': return lit("null") ? jnull() : fail();
      case '[': case '{': {
        bool obj = c() == '{'; int close = obj ? '}' : ']'; P v = jv(obj ? JV::OBJ : JV::ARR); p++;
        if (++depth > maxdepth) maxdepth = depth; if (depth > 3000) return fail();
        ws(); if (c() == close) { p++; depth--; return v; }
        for (;;) {
          string k; bool nul = false;
          if (obj) { if (c() != '"') return fail(); if (!str(k, nul)) return nullptr; ws(); if (c() != ':') return fail(); p++; ws(); }
          P e = val(); if (!ok) return nullptr;
          if (obj) { if (nul) k = k.c_str(); if (nul) v->hasnul = true; int i = v->find(k); if (i >= 0) v->o[i].second = e; else v->o.push_back({k, e}); } else v->a.push_back(e);
          ws();
          if (c() == ',') { p++; ws(); if (c() == close && !strict) { p++; depth--; return v; } continue; } // leniency: trailing comma
          if (c() == close) { p++; depth--; return v; }
          return fail();
        }
      }
      default: if (c() == '-' || (c() >= '0' && c() <= '9')) return num(); return fail();
    }
  }
  // whole: nothing but white space (leniency: and a comment that ends in NUL) may follow
  P doc(bool whole) {
    ws(); P v = val(); if (!ok) return nullptr;
    if (whole) { ws(); if (p < n) { if (!strict && n - p >= 2 && b[p] == '/' && b[p + 1] == '/') { for (size_t q = p + 2; q < n; q++) { if (!b[q]) return v; if (b[q] == '\n') break; } } return fail(); } }
    return v;
  }
};
// ---- comparison ----------------------------------------------------------------------------------
static inline bool dbl_eq(double a, double b) { if (a == b || (a != a && b != b)) return true; return fabs(a - b) <= 6e-6 * std::max(fabs(a), fabs(b)); }
static inline long double num_of(const JV &v) { return v.t == JV::DBL ? v.d : v.t == JV::I64 ? (long double)v.i : (long double)v.u; }
static inline bool is_num(const JV &v) { return v.t == JV::DBL || v.t == JV::I64 || v.t == JV::U64; }
// does the parsed document `g` say what the document `e` says?  (printing keeps six digits of doubles)
static bool says(const P &e, const P &g, string &why, const string &path = "$") {
  auto no = [&](const string &w) { why = path + ": " + w; return false; };
  if (e->hasnul || g->hasnul) return true;
  if (is_num(*e)) {
    if (!is_num(*g)) return no(string("number expected, found ") + jtn[g->t]);
    if (e->t == JV::DBL) { if (!dbl_eq(e->d, (double)num_of(*g))) return no(fmt("number %.17g expected, found %.17g", e->d, (double)num_of(*g))); }
    else if (g->t == JV::DBL || num_of(*e) != num_of(*g)) return no(fmt("integer %s%llu expected, found %.21Lg", e->t == JV::I64 && e->i < 0 ? "-" : "", e->t == JV::I64 ? (unsigned long long)llabs(e->i) : (unsigned long long)e->u, num_of(*g)));
    return true;
  }
  JV::T et = e->t == JV::STRN || e->t == JV::BLOB ? JV::STR : e->t;
  if (et != g->t) return no(string(jtn[et]) + " expected, found " + jtn[g->t]);
  switch (et) {
    case JV::BOOL: if (e->b != g->b) return no("wrong boolean"); break;
    case JV::STR: { string s = e->t == JV::BLOB ? fmt("blob:%zu bytes", e->s.size()) : e->s; if (s != g->s) return no("string " + show(s) + " expected, found " + show(g->s)); break; }
    case JV::ARR: if (e->a.size() != g->a.size()) return no(fmt("%zu elements expected, found %zu", e->a.size(), g->a.size()));
      for (size_t i = 0; i < e->a.size(); i++) if (!says(e->a[i], g->a[i], why, path.size() > 200 ? path : path + fmt("[%zu]", i))) return false; break;
    case JV::OBJ: if (e->o.size() != g->o.size()) return no(fmt("%zu members expected, found %zu", e->o.size(), g->o.size()));
      for (size_t i = 0; i < e->o.size(); i++) { if (e->o[i].first != g->o[i].first) return no(fmt("member %zu should be ", i) + show(e->o[i].first) + ", found " + show(g->o[i].first)); if (!says(e->o[i].second, g->o[i].second, why, path.size() > 200 ? path : path + "." + e->o[i].first)) return false; } break;
    default: break;
  }
  return true;
}
// ---- reading a real document through the API --------------------------------------------------------
struct ItK { vector<std::pair<string, struct cee_json *>> v; size_t stop = 0; int ret = 1; };
static int itk(void *c, struct cee_str *k, struct cee_json *v) { ItK *x = (ItK *)c; x->v.push_back({string((char *)k), v}); return x->stop && x->v.size() >= x->stop ? x->ret : 0; }
struct ItA { vector<struct cee_json *> v; size_t stop = 0; int ret = 1; bool bad = false; };
static int ita(void *c, struct cee_json *v, int i) { ItA *x = (ItA *)c; if (i != (int)x->v.size()) x->bad = true; x->v.push_back(v); return x->stop && x->v.size() >= x->stop ? x->ret : 0; }
// member order of a real object, in insertion order
static vector<string> key_order(struct cee_json *j) {
  struct cee_list *l = cee_map_insertion_ordered_keys(cee_json_to_object(j)); vector<string> r; for (size_t i = 0; i < cee_list_size(l); i++) r.push_back((char *)l->a[i]); cee_del(l); return r;
}
static P snapshot(struct cee_json *j, int depth = 0) {   // a model of what the API shows
  if (!j) violation("null-value", "a document contains a NULL pointer");
  P p = jv(jtype(j)); p->r = j;
  switch (p->t) {
    case JV::BOOL: { bool b = false; if (cee_json_to_boolx(j, &b)) violation("conversion", "cee_json_to_boolx fails for a boolean"); p->b = b; break; }
    case JV::DBL: cee_json_to_doublex(j, &p->d); break;
    case JV::I64: cee_json_to_i64x(j, &p->i); break;
    case JV::U64: cee_json_to_u64x(j, &p->u); break;
    case JV::STR: p->s = (char *)cee_json_to_str(j); break;
    case JV::BLOB: { struct cee_block *b = cee_json_to_blob(j); p->s.assign((char *)b, cee_block_size(b)); break; }
    case JV::STRN: { char *s; size_t n; cee_json_to_strn(j, &s, &n); p->s.assign(s, n); break; }
    case JV::ARR: for (size_t i = 0, n = cee_json_array_length(j); i < n; i++) p->a.push_back(snapshot(cee_json_array_get(j, (int)i), depth + 1)); break;
    case JV::OBJ: for (auto &k : key_order(j)) p->o.push_back({k, snapshot(cee_json_object_get(j, (char *)k.c_str()), depth + 1)}); break;
    default: break;
  }
  return p;
}
// the model node mirrors the real value exactly, down to the identity of shared sub-documents
static void mirror(const P &e, struct cee_json *j, std::set<JV *> &seen, const string &path) {
  SIM_CHECK(j != nullptr, "value", "%s is missing", path.c_str());
  JV::T t = jtype(j);
  SIM_CHECK(t == e->t, "value", "%s is of type %s, its history implies %s", path.c_str(), jtn[t], jtn[e->t]);
  if (e->r) SIM_CHECK(e->r == j, "identity", "%s is another %s than the one put there", path.c_str(), jtn[t]);
  if (!seen.insert(e.get()).second) return;
  bool b = false; double d = 0; int64_t i = 0; uint64_t u = 0; int n = 0;
  SIM_CHECK((cee_json_to_boolx(j, &b) == 0) == (t == JV::BOOL) && b == (t == JV::BOOL && e->b), "value", "%s: conversion to bool", path.c_str());
  SIM_CHECK((cee_json_to_doublex(j, &d) == 0) == (t == JV::DBL) && (d == e->d || t != JV::DBL), "value", "%s: conversion to double gives %g, history implies %g", path.c_str(), d, e->d);
  SIM_CHECK((cee_json_to_i64x(j, &i) == 0) == (t == JV::I64) && (i == e->i || t != JV::I64), "value", "%s: conversion to int64 gives %lld, history implies %lld", path.c_str(), (long long)i, (long long)e->i);
  SIM_CHECK((cee_json_to_u64x(j, &u) == 0) == (t == JV::U64) && (u == e->u || t != JV::U64), "value", "%s: conversion to uint64 gives %llu, history implies %llu", path.c_str(), (unsigned long long)u, (unsigned long long)e->u);
  bool fits = t == JV::I64 && (int)e->i == e->i;
  SIM_CHECK((cee_json_to_intx(j, &n) == 0) == fits && (!fits || n == (int)e->i), "value", "%s: conversion of %lld to int gives %d", path.c_str(), (long long)e->i, n);
  SIM_CHECK((cee_json_to_boxed(j) != nullptr) == is_num(*e) && (cee_json_to_str(j) != nullptr) == (t == JV::STR) && (cee_json_to_array(j) != nullptr) == (t == JV::ARR) && (cee_json_to_object(j) != nullptr) == (t == JV::OBJ) && (cee_json_to_blob(j) != nullptr) == (t == JV::BLOB), "value", "%s: a conversion disagrees with the type %s", path.c_str(), jtn[t]);
  SIM_CHECK(cee_json_empty(j) == ((t == JV::OBJ && e->o.empty()) || (t == JV::ARR && e->a.empty())), "value", "%s: cee_json_empty gives %d", path.c_str(), cee_json_empty(j));
  string pp = path.size() > 160 ? ".." + path.substr(path.size() - 100) : path;
  switch (t) {
    case JV::STR: { string s = (char *)cee_json_to_str(j); SIM_CHECK(s == e->s, "value", "%s is %s, its history implies %s", path.c_str(), show(s).c_str(), show(e->s).c_str()); break; }
    case JV::STRN: { char *s = 0; size_t l = 0; SIM_CHECK(cee_json_to_strn(j, &s, &l) && l == e->s.size() && !memcmp(s, e->s.data(), l), "value", "%s: wrong slice", path.c_str()); break; }
    case JV::BLOB: { struct cee_block *x = cee_json_to_blob(j); SIM_CHECK(cee_block_size(x) == e->s.size() && !memcmp(x, e->s.data(), e->s.size()), "value", "%s: wrong blob contents", path.c_str()); break; }
    case JV::ARR: {
      SIM_CHECK(cee_json_array_length(j) == e->a.size(), "value", "%s has %zu elements, its history implies %zu", path.c_str(), cee_json_array_length(j), e->a.size());
      SIM_CHECK(!cee_json_array_get(j, -1) && !cee_json_array_get(j, (int)e->a.size()), "value", "%s: an element outside the array exists", path.c_str());
      ItA it; int r = cee_json_array_iterate(j, &it, ita); SIM_CHECK(r == 0 && !it.bad && it.v.size() == e->a.size(), "iteration", "%s: iteration visits %zu of %zu elements and returns %d", path.c_str(), it.v.size(), e->a.size(), r);
      for (size_t k = 0; k < e->a.size(); k++) { SIM_CHECK(it.v[k] == cee_json_array_get(j, (int)k), "iteration", "%s: iteration and access differ at %zu", path.c_str(), k); mirror(e->a[k], it.v[k], seen, pp + fmt("[%zu]", k)); }
      break; }
    case JV::OBJ: {
      SIM_CHECK(cee_map_size(cee_json_to_object(j)) == e->o.size(), "value", "%s has %zu members, its history implies %zu", path.c_str(), cee_map_size(cee_json_to_object(j)), e->o.size());
      ItK it; int r = cee_json_object_iterate(j, &it, itk); SIM_CHECK(r == 0 && it.v.size() == e->o.size(), "iteration", "%s: iteration visits %zu of %zu members and returns %d", path.c_str(), it.v.size(), e->o.size(), r);
      std::set<string> ks; for (auto &x : it.v) { int q = e->find(x.first); SIM_CHECK(q >= 0 && ks.insert(x.first).second && x.second == cee_json_object_get(j, (char *)x.first.c_str()), "iteration", "%s: iteration visits member %s wrongly", path.c_str(), show(x.first).c_str()); }
      vector<string> ord = key_order(j);
      for (size_t k = 0; k < e->o.size(); k++) { SIM_CHECK(k < ord.size() && ord[k] == e->o[k].first, "order", "%s: member %zu is %s, its history implies %s", path.c_str(), k, k < ord.size() ? show(ord[k]).c_str() : "missing", show(e->o[k].first).c_str()); mirror(e->o[k].second, cee_json_object_get(j, (char *)e->o[k].first.c_str()), seen, pp + "." + e->o[k].first); }
      break; }
    default: break;
  }
}
static void mirror(const P &e, struct cee_json *j, const string &path) { std::set<JV *> s; mirror(e, j, s, path); }
static size_t expanded(const P &p, std::map<JV *, size_t> &memo) { // size as a tree
  auto it = memo.find(p.get()); if (it != memo.end()) return it->second;
  size_t n = 1; for (auto &e : p->a) n += expanded(e, memo); for (auto &e : p->o) n += expanded(e.second, memo); if (n > 1000000000) n = 1000000000; return memo[p.get()] = n;
}
static size_t expanded(const P &p) { std::map<JV *, size_t> m; return expanded(p, m); }
static void reach(const P &p, std::set<JV *> &s) { if (!s.insert(p.get()).second) return; for (auto &e : p->a) reach(e, s); for (auto &e : p->o) reach(e.second, s); }
static bool reaches(const P &from, const P &to) { std::set<JV *> s; reach(from, s); return s.count(to.get()); }
static uint64_t jhash(const P &p) {
  uint64_t h = sim::mix(991, p->t); switch (p->t) { case JV::BOOL: h = sim::mix(h, p->b); break; case JV::DBL: { uint64_t x; memcpy(&x, &p->d, 8); h = sim::mix(h, x); break; } case JV::I64: h = sim::mix(h, p->i); break; case JV::U64: h = sim::mix(h, p->u); break; case JV::STR: case JV::BLOB: case JV::STRN: h = sim::mix(h, hstr(p->s)); break; default: break; }
  for (auto &e : p->a) h = sim::mix(h, jhash(e)); for (auto &e : p->o) h = sim::mix(sim::mix(h, hstr(e.first)), jhash(e.second)); return h;
}
// ---- generation ----------------------------------------------------------------------------------
static string draw_text() {   // valid UTF-8 without NUL
  static const char *frag[] = {"", "a", "\"", "\\", "\n", "\t", "\x01", "\x1f", "\x7f", "/", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9d\x84\x9e", "%s", "\r", "\b\f", "{", "]", ":", ",", "\\u0041", "\\\"", " ", "'", "\xed\x9f\xbf", "\xef\xbf\xbd"};
  string s; size_t n;
  switch (weighted({6, 4, 2, 1})) { case 0: n = choose(4); break; case 1: n = choose(12); break; case 2: n = choose(60); break; default: n = 40 + choose(300); }
  bool plain = chance(1, 2);
  for (size_t i = 0; i < n; i++) if (plain) s += (char)('a' + choose(26)); else if (chance(1, 8)) s += (char)(1 + choose(31)); else if (chance(1, 4)) { // any code point
    static const uint32_t top[] = {0x20, 0x80, 0x100, 0x800, 0x10000, 0x110000}; static const uint32_t edge[] = {0x7E, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF}; uint32_t v = chance(1, 3) ? edge[choose(19)] : 1 + choose(top[choose(6)] - 1); if (v >= 0xD800 && v < 0xE000) v -= 0x800; RefParse::utf8(s, v);
  } else s += frag[choose(sizeof frag / sizeof *frag)];
  return s;
}
static int64_t draw_i64() { switch (weighted({5, 3, 2, 2})) { case 0: return (int64_t)choose(20) - 5; case 1: return (int64_t)choose(200000) - 100000; case 2: { static const int64_t e[] = {0, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967296LL, INT64_MAX, INT64_MIN, INT64_MAX - 1, 9007199254740993LL}; return e[choose(10)]; } default: return (int64_t)(choose(1ull << 32) << 31 ^ choose(1ull << 32)) * (chance(1, 2) ? -1 : 1); } }
static uint64_t draw_u64() { static const uint64_t e[] = {0, 1, UINT64_MAX, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 1, 10000000000000000000ull}; return chance(1, 2) ? e[choose(7)] : (uint64_t)draw_i64(); }
static double draw_dbl() { static const double e[] = {0.0, 0.5, -0.25, 1.0, 1e300, -1e-300, 3.14159265358979, 1e6, 123456789.0, 0.1, -2.5e10, 1e21, 5e-324, 1.7976931348623157e308, 999999.5, 100000.0}; return chance(1, 2) ? e[choose(16)] : ((double)draw_i64()) / (double)(1 + choose(1000)); }
static string draw_key(unsigned space, bool odd) { uint64_t k = choose(space); if (odd && chance(1, 6)) { string t = draw_text(); return t; } if (k % 11 == 10) return fmt("key_with_a_rather_long_name_%llu", (unsigned long long)k); return fmt("k%llu", (unsigned long long)k); }

// a document built through the API that equals the model; every node mirrors its value
static struct cee_json *build(struct cee_state *st, const P &p) {
  struct cee_json *j = nullptr;
  switch (p->t) {
    case JV::NUL: j = cee_json_null(); break; case JV::BOOL: j = cee_json_bool(p->b); break; case JV::DBL: j = cee_json_double_mk(st, p->d); break;
    case JV::I64: j = cee_json_i64_mk(st, p->i); break; case JV::U64: j = cee_json_u64_mk(st, p->u); break;
    case JV::STR: j = cee_json_str_mkf(st, "%s", p->s.c_str()); break;
    case JV::BLOB: j = cee_json_blob_mk(st, p->s.data(), p->s.size()); break;
    case JV::STRN: { char *b = (char *)sim::arena_alloc(p->s.size() + 1); memcpy(b, p->s.data(), p->s.size()); j = cee_json_strn_mk(st, b, p->s.size()); break; }
    case JV::ARR: j = cee_json_array_mk(st, 1); for (auto &e : p->a) cee_json_array_append(j, build(st, e)); break;
    case JV::OBJ: j = cee_json_object_mk(st); for (auto &e : p->o) cee_json_object_set(j, (char *)e.first.c_str(), build(st, e.second)); break;
  }
  return p->r = j;
}
static P draw_scalar(bool odd = true) {
  switch (weighted({4, 3, 2, 2, 1, 1})) { case 0: return ji64(draw_i64()); case 1: return jstr(odd ? draw_text() : fmt("s%d", (int)choose(50))); case 2: return jbool(chance(1, 2)); case 3: return jdbl(draw_dbl()); case 4: return jnull(); default: return ju64(draw_u64()); }
}
static P draw_doc(int &budget, int depth, unsigned keys = 12, bool odd = true) {
  budget--;
  unsigned k = depth <= 0 || budget <= 0 ? 0 : weighted({4, 3, 3});
  if (k == 0) return draw_scalar(odd);
  P p = jv(k == 1 ? JV::OBJ : JV::ARR); size_t n = choose(chance(1, 12) ? 40 : 6);
  for (size_t i = 0; i < n && budget > 0; i++) { P e = draw_doc(budget, depth - 1, keys, odd); if (k == 2) p->a.push_back(e); else { string key = draw_key(keys, odd); int f = p->find(key); if (f < 0) p->o.push_back({key, e}); else p->o[f].second = e; } }
  return p;
}
static P copy(const P &p) { P q = std::make_shared<JV>(*p); q->r = nullptr; for (auto &e : q->a) e = copy(e); for (auto &e : q->o) e.second = copy(e.second); return q; }
// sizes between what is common and what needs 16 bits
static size_t draw_size(size_t max) { size_t b = 1; while ((2ull << b) <= max) b++; size_t top = 1ull << (3 + choose(b > 2 ? b - 2 : 1)), n = chance(1, 3) ? top - 2 + choose(5) : choose(2 * top); return std::min(n, max); }
static string long_text(size_t n) { string f = draw_text(), s; if (f.size() > 40 || chance(1, 3)) f = "x"; size_t every = 1 + choose(chance(1, 2) ? 2000 : 20); for (size_t i = 0; s.size() < n; i++) { s += (char)('a' + i % 23); if (i % every == every - 1) s += f; } return s; }
static P long_doc(size_t bytes, size_t items) {
  P p; size_t n;
  switch (choose(5)) {
    case 0: { p = jv(JV::ARR); p->a.push_back(jstr(long_text(draw_size(bytes)))); if (chance(1, 2)) p->a.push_back(draw_scalar()); break; }
    case 1: { p = jv(JV::ARR); n = draw_size(items); P one = draw_scalar(); bool rep = chance(1, 3); for (size_t i = 0; i < n; i++) p->a.push_back(rep ? copy(one) : i % 16 == 15 ? jstr(fmt("e%zu", i)) : ji64((int64_t)i * 7)); break; }
    case 2: { p = jv(JV::OBJ); n = draw_size(items / 4); for (size_t i = 0; i < n; i++) p->o.push_back({fmt("m%zu", (i * 7919) % 1000003), i % 5 ? ji64((int64_t)i) : jstr("v")}); break; }
    case 3: { p = jv(JV::OBJ); p->o.push_back({long_text(draw_size(bytes / 4)), draw_scalar()}); p->o.push_back({"after", jstr(long_text(draw_size(bytes / 4)))}); break; }
    default: { p = jv(JV::ARR); n = draw_size(items / 8); for (size_t i = 0; i < n; i++) { P q = jv(i % 3 ? JV::OBJ : JV::ARR); if (i % 3) { q->o.push_back({"id", ji64((int64_t)i)}); q->o.push_back({"name", jstr(fmt("n%zu", i))}); } else q->a.push_back(jdbl(0.5)); p->a.push_back(q); } }
  }
  sim::count("probe.long-document"); return p;
}
// compact text of a model document, independent of the library's printer
static void text_of(const P &p, string &o) {
  auto qs = [&](const string &s) { o += '"'; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32) o += fmt("\\u%04x", c); else o += (char)c; } o += '"'; };
  switch (p->t) {
    case JV::NUL: o += "null"; break; case JV::BOOL: o += p->b ? "true" : "false"; break; case JV::DBL: { string t = fmt("%.17g", p->d); if (t.find_first_of(".e") == string::npos) t += ".0"; o += t; break; }
    case JV::I64: o += fmt("%lld", (long long)p->i); break; case JV::U64: o += fmt("%llu", (unsigned long long)p->u); break;
    case JV::STR: case JV::STRN: qs(p->s); break; case JV::BLOB: qs(fmt("blob:%zu bytes", p->s.size())); break;
    case JV::ARR: { o += '['; bool f = true; for (auto &e : p->a) { if (!f) o += ','; f = false; text_of(e, o); } o += ']'; break; }
    case JV::OBJ: { o += '{'; bool f = true; for (auto &e : p->o) { if (!f) o += ','; f = false; qs(e.first); o += ':'; text_of(e.second, o); } o += '}'; break; }
  }
}
static string text_of(const P &p) { string o; text_of(p, o); return o; }
