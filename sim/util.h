// helpers shared by the harnesses
#pragma once
#include "sim.h"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern "C" {
#include "cee.h"
extern struct cee_set *cee_set_clone(struct cee_set *);
extern struct cee_set *cee_set_union_set(struct cee_state *s, struct cee_set *s1, struct cee_set *s2);
}
using sim::choose; using sim::chance; using sim::ev; using sim::weighted; using sim::violation; using sim::Span; using sim::Steps;
using std::string; using std::vector;

static inline string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); if (n < (int)sizeof b) return b; string s((size_t)n + 1, 0); va_start(ap, f); vsnprintf(&s[0], s.size(), f, ap); va_end(ap); s.resize(n); return s; }
static inline string show(const string &s) {
  string o = "\""; for (unsigned char c : s) { if (o.size() > 120) { o += ".."; break; } if (c < 32 || c >= 127 || c == '"' || c == '\\') o += fmt("\\x%02x", c); else o += c; } return o + "\"";
}
#ifdef EMBED
static const bool BIG = false;   // rare scenarios with sizes beyond 16 bits: only where no failures are injected
#else
static const bool BIG = true;
#endif
// a string of the code under test, allocated from the state
static inline struct cee_str *mkstr(struct cee_state *st, const string &s) { return cee_str_mk(st, "%s", s.c_str()); }
static inline uint64_t hstr(const string &s) { return sim::hash_bytes(s.data(), s.size()); }
