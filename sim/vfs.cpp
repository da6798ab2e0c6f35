#include "vfs.h"
#include <errno.h>
#include <map>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
using sim::chance; using sim::choose; using sim::count;
extern "C" { void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *); }
namespace vfs {
static const int NF = 8; static const uint32_t CAP = 1u << 20, SECT = 512;
struct File { char name[320]; uint8_t used, dexists; uint32_t size, dsize; uint8_t data[CAP], ddata[CAP]; };
struct Disk { uint64_t seed, nrand, clock; File f[NF]; };
static Disk *D; Faults rates; static bool fon = false, ghost = false, quiet = false; static uint64_t nfired = 0, nbusy = 0, ops = 0, crash_at = 0; static bool atcap = false;
std::function<void(const char *)> on_journal_end; std::function<void(const char *)> on_fault; bool (*dir_ok)(const char *) = nullptr;
struct SFile { sqlite3_file base; File *f; std::string *tmp; int level; bool main, ghost, del; char name[320]; };
static std::vector<SFile *> *handles;
static uint64_t mcalls = 0, mfail = 0, mlen = 0;

void init() { D = (Disk *)sim::durable_alloc(sizeof(Disk)); D->seed = choose(1u << 16); rates = Faults(); handles = new std::vector<SFile *>; fon = ghost = quiet = false; nfired = ops = crash_at = 0; }
void faults(bool on) { fon = on; }
bool faults_on() { return fon; }
uint64_t fired() { return nfired; }
uint64_t busies() { return nbusy; }
bool no_space() { return atcap; }
void crash_after(uint64_t n) { crash_at = n ? ops + n : 0; }
void nomem_at(uint64_t k, uint64_t len) { mfail = k ? mcalls + k : 0; mlen = len; }
Quiet::Quiet(bool gh) : f(fon), g(ghost), q(quiet) { sim::no_preempt(1); fon = false; ghost = gh; quiet = true; }
Quiet::~Quiet() { sim::no_preempt(-1); fon = f; ghost = g; quiet = q; }
static File *find(const char *n) { for (int i = 0; i < NF; i++) if (D->f[i].used && !strcmp(n, D->f[i].name)) return &D->f[i]; return nullptr; }
bool exists(const std::string &n) { return find(n.c_str()); }
void drop(const std::string &n) { if (File *f = find(n.c_str())) f->used = f->dexists = 0; }
const unsigned char *bytes(const std::string &n, size_t &k) { File *f = find(n.c_str()); k = f ? f->size : 0; return f ? f->data : nullptr; }
void draw(bool any) {
  rates = Faults(); if (!any) return;
  unsigned *r[] = {&rates.read, &rates.write, &rates.full, &rates.sync, &rates.trunc, &rates.del, &rates.busy, &rates.lock, &rates.open, &rates.access, &rates.size};
  for (auto p : r) if (chance(1, 4)) *p = 1u << choose(7);
}
static bool hit(unsigned rate) { return fon && rate && chance(rate, 1024); }
static int fail(int rc, const char *kind, const char *name) { nfired++; sim::ev("  fault: %s of %s fails (%d)", kind + 13, name, rc); count(kind); if (on_fault) on_fault(kind + 13); return rc; }
static void op(const char *what, const char *name) {
  if (quiet) return;
  ops++; D->clock += 50; sim::advance_time(50);
  if (crash_at && ops >= crash_at) { sim::ev("  crash at %s of %s", what, name); count("fault.crash"); sim::crash(); }
  sim::yield_point();
}
void recover() {
  for (int i = 0; i < NF; i++) {
    File *f = &D->f[i]; if (!f->used) { f->dexists = 0; continue; }
    if (f->dexists && f->size == f->dsize && !memcmp(f->data, f->ddata, f->size)) continue;
    unsigned m = sim::weighted({3, 2, 6});
    if (!f->dexists && m == 1) { f->used = 0; count("fault.crash.file-lost"); sim::ev("  %s: never synced, lost", f->name); continue; }
    if (m == 0) count("fault.crash.all-written");
    else if (m == 1) { f->size = f->dsize; memcpy(f->data, f->ddata, f->size); count("fault.crash.writes-lost"); sim::ev("  %s: unsynced writes lost", f->name); }
    else {
      uint32_t hi = std::max(f->size, f->dsize), lo = std::min(f->size, f->dsize), size = choose(3) == 0 ? f->size : choose(2) ? f->dsize : lo + (uint32_t)choose(hi - lo + 1); unsigned fill = (unsigned)choose(3), changed = 0; uint64_t salt = choose(1u << 16), style = choose(4);
      for (uint32_t s = 0, k = 0; s < hi; s += SECT, k++) { // a sector holds the new bytes, the old bytes, or is torn in the middle
        uint32_t e = std::min(s + SECT, hi); bool differ = false; for (uint32_t b = s; b < e && !differ; b++) differ = (b < f->size ? f->data[b] : -1) != (b < f->dsize ? f->ddata[b] : -1);
        if (!differ) continue; changed++;
        uint64_t h = sim::mix(salt, k); unsigned w = style == 0 ? h % 2 : style == 1 ? h % 3 : style == 2 ? (h % 8 == 0) : (h % 8 != 0); uint32_t cut = w == 2 ? (h >> 8) % SECT : 0; bool flip = h >> 40 & 1;
        for (uint32_t b = s; b < e; b++) { bool nw = w == 0 || (w == 2 && (b - s < cut) != flip); if (!nw || b >= f->size) f->data[b] = b < f->dsize ? f->ddata[b] : fill == 0 ? 0 : fill == 1 ? 0xFF : (uint8_t)(sim::mix(salt + 1, b)); }
      }
      f->size = size; count("fault.crash.writes-torn"); sim::ev("  %s: %u unsynced sectors kept, lost or torn, %u bytes left (style %d)", f->name, changed, size, (int)style);
    }
    f->dexists = 1; f->dsize = f->size; memcpy(f->ddata, f->data, f->size);
  }
}
// ---- file methods ---------------------------------------------------------------------------------------
static SFile *S(sqlite3_file *f) { return (SFile *)f; }
static int xClose(sqlite3_file *x) { SFile *s = S(x); if (s->tmp) delete s->tmp; for (size_t i = 0; i < handles->size(); i++) if ((*handles)[i] == s) { handles->erase(handles->begin() + i); break; } if (s->del && s->f) s->f->used = s->f->dexists = 0; x->pMethods = nullptr; return SQLITE_OK; }
static int xRead(sqlite3_file *x, void *b, int n, sqlite3_int64 at) {
  SFile *s = S(x); op("read", s->name); if (hit(rates.read)) { memset(b, 0xEE, n); return fail(SQLITE_IOERR_READ, "fault.sqlite.read", s->name); }
  const uint8_t *d = s->tmp ? (const uint8_t *)s->tmp->data() : s->f->data; sqlite3_int64 size = s->tmp ? (sqlite3_int64)s->tmp->size() : s->f->size, k = at >= size ? 0 : std::min<sqlite3_int64>(n, size - at);
  memcpy(b, d + at, k); if (k == n) return SQLITE_OK; memset((char *)b + k, 0, n - k); return SQLITE_IOERR_SHORT_READ;
}
static int xWrite(sqlite3_file *x, const void *b, int n, sqlite3_int64 at) {
  SFile *s = S(x); op("write", s->name);
  if (s->tmp) { if (s->tmp->size() < (size_t)(at + n)) s->tmp->resize(at + n); memcpy(&(*s->tmp)[at], b, n); return SQLITE_OK; }
  int k = n, rc = SQLITE_OK;
  if (at + n > CAP) { atcap = true; k = 0; rc = fail(SQLITE_FULL, "fault.sqlite.full", s->name); }
  else if (hit(rates.write)) { k = (int)choose(n + 1); rc = fail(SQLITE_IOERR_WRITE, "fault.sqlite.write", s->name); }
  else if (hit(rates.full)) { k = (int)choose(n + 1); rc = fail(SQLITE_FULL, "fault.sqlite.full", s->name); }
  File *f = s->f; if (k && at > f->size) memset(f->data + f->size, 0, at - f->size);
  memcpy(f->data + at, b, k); if (k && at + k > f->size) f->size = (uint32_t)(at + k); return rc;
}
static int xTruncate(sqlite3_file *x, sqlite3_int64 n) { SFile *s = S(x); op("truncate", s->name); if (s->tmp) { s->tmp->resize(n); return SQLITE_OK; } if (hit(rates.trunc)) return fail(SQLITE_IOERR_TRUNCATE, "fault.sqlite.truncate", s->name); if (n < s->f->size) s->f->size = (uint32_t)n; return SQLITE_OK; }
static int xSync(sqlite3_file *x, int) { SFile *s = S(x); op("sync", s->name); if (s->tmp) return SQLITE_OK; if (hit(rates.sync)) return fail(SQLITE_IOERR_FSYNC, "fault.sqlite.sync", s->name); File *f = s->f; memcpy(f->ddata, f->data, f->size); f->dsize = f->size; f->dexists = 1; return SQLITE_OK; }
static int xFileSize(sqlite3_file *x, sqlite3_int64 *n) { SFile *s = S(x); op("size", s->name); if (!s->tmp && hit(rates.size)) return fail(SQLITE_IOERR_FSTAT, "fault.sqlite.size", s->name); *n = s->tmp ? (sqlite3_int64)s->tmp->size() : s->f->size; return SQLITE_OK; }
static int others(SFile *s) { int m = 0; for (auto h : *handles) if (h != s && h->f == s->f && !h->ghost) m = std::max(m, h->level); return m; }
static int xLock(sqlite3_file *x, int l) {
  SFile *s = S(x); op("lock", s->name); if (s->ghost || !s->main) { s->level = std::max(s->level, l); return SQLITE_OK; }
  if (s->level >= l) return SQLITE_OK;
  if (hit(rates.busy)) return fail(SQLITE_BUSY, "fault.sqlite.busy", s->name);
  if (hit(rates.lock)) return fail(SQLITE_IOERR_LOCK, "fault.sqlite.lock", s->name);
  int o = others(s);
  if (l == SQLITE_LOCK_SHARED) { if (o >= SQLITE_LOCK_PENDING) { count("probe.busy"); nbusy++; return SQLITE_BUSY; } s->level = l; return SQLITE_OK; }
  if (l == SQLITE_LOCK_RESERVED) { if (o >= SQLITE_LOCK_RESERVED) { count("probe.busy"); nbusy++; return SQLITE_BUSY; } s->level = l; return SQLITE_OK; }
  if (o >= SQLITE_LOCK_RESERVED) { count("probe.busy"); nbusy++; return SQLITE_BUSY; }
  s->level = SQLITE_LOCK_PENDING; if (o >= SQLITE_LOCK_SHARED) { count("probe.busy"); nbusy++; return SQLITE_BUSY; }
  s->level = SQLITE_LOCK_EXCLUSIVE; return SQLITE_OK;
}
static int xUnlock(sqlite3_file *x, int l) { SFile *s = S(x); op("unlock", s->name); if (s->level > l) s->level = l; return SQLITE_OK; }
static int xCheckReserved(sqlite3_file *x, int *r) { SFile *s = S(x); op("check lock", s->name); if (hit(rates.lock)) return fail(SQLITE_IOERR_CHECKRESERVEDLOCK, "fault.sqlite.lock", s->name); *r = s->level >= SQLITE_LOCK_RESERVED || others(s) >= SQLITE_LOCK_RESERVED; return SQLITE_OK; }
static int xControl(sqlite3_file *, int, void *) { return SQLITE_NOTFOUND; }
static int xSector(sqlite3_file *) { return SECT; }
static int xDevice(sqlite3_file *) { return 0; }
static const sqlite3_io_methods M = {1, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xUnlock, xCheckReserved, xControl, xSector, xDevice, 0, 0, 0, 0, 0, 0};
// ---- vfs methods ------------------------------------------------------------------------------------------
static int xOpen(sqlite3_vfs *, const char *name, sqlite3_file *x, int flags, int *out) {
  SFile *s = S(x); memset((void *)s, 0, sizeof *s); s->base.pMethods = nullptr; op("open", name ? name : "temporary file"); if (out) *out = flags;
  if (!name || (flags & (SQLITE_OPEN_TEMP_DB | SQLITE_OPEN_TEMP_JOURNAL | SQLITE_OPEN_TRANSIENT_DB | SQLITE_OPEN_SUBJOURNAL))) { snprintf(s->name, sizeof s->name, "temporary file"); s->tmp = new std::string; s->base.pMethods = &M; return SQLITE_OK; }
  if (hit(rates.open)) return fail(SQLITE_CANTOPEN, "fault.sqlite.open", name);
  if (strstr(name, "/nodir/") || (dir_ok && !dir_ok(name))) return SQLITE_CANTOPEN;
  File *f = find(name);
  if (!f) {
    if (!(flags & SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN;
    for (int i = 0; i < NF && !f; i++) if (!D->f[i].used) f = &D->f[i];
    if (!f) sim::discard("simulated disk: too many files");
    f->used = 1; f->dexists = 0; f->size = f->dsize = 0; snprintf(f->name, sizeof f->name, "%s", name);
  }
  s->f = f; snprintf(s->name, sizeof s->name, "%s", name); s->main = flags & SQLITE_OPEN_MAIN_DB; s->ghost = ghost; s->del = flags & SQLITE_OPEN_DELETEONCLOSE; s->base.pMethods = &M; handles->push_back(s); return SQLITE_OK;
}
static int xDelete(sqlite3_vfs *, const char *name, int) {
  op("delete", name); if (hit(rates.del)) return fail(SQLITE_IOERR_DELETE, "fault.sqlite.delete", name);
  File *f = find(name); if (!f) return SQLITE_IOERR_DELETE_NOENT;
  f->used = f->dexists = 0; size_t n = strlen(name); if (!quiet && n > 8 && !strcmp(name + n - 8, "-journal") && on_journal_end) { sim::no_preempt(1); on_journal_end(name); sim::no_preempt(-1); }
  return SQLITE_OK;
}
static int xAccess(sqlite3_vfs *, const char *name, int, int *r) { op("access", name); if (hit(rates.access)) return fail(SQLITE_IOERR_ACCESS, "fault.sqlite.access", name); File *f = find(name); *r = f && f->size > 0 && !ghost; return SQLITE_OK; }
static int xFull(sqlite3_vfs *, const char *name, int n, char *out) { snprintf(out, n, "%s%s", name[0] == '/' ? "" : "/sim/", name); return SQLITE_OK; }
static int xRandom(sqlite3_vfs *, int n, char *b) { for (int i = 0; i < n; i++) b[i] = (char)sim::mix(D->seed, D->nrand++); return n; }
static int xSleep(sqlite3_vfs *, int us) { D->clock += us; sim::advance_time(us); if (!quiet) sim::yield_point(); return us; }
static int xTime64(sqlite3_vfs *, sqlite3_int64 *t) { *t = 210866760000000ll + 86400000ll * 20000 + (sqlite3_int64)(D->clock / 1000); return SQLITE_OK; }
static int xTime(sqlite3_vfs *v, double *t) { sqlite3_int64 i; xTime64(v, &i); *t = i / 86400000.0; return SQLITE_OK; }
static int xErr(sqlite3_vfs *, int, char *) { return 0; }
// ---- allocator --------------------------------------------------------------------------------------------
static bool mf() { if (quiet) return false; mcalls++; if (!fon || !mfail || mcalls < mfail || mcalls >= mfail + mlen) return false; fail(SQLITE_NOMEM, "fault.sqlite.nomem", "SQLite"); return true; }
static void *sm(int n) { if (mf()) return nullptr; char *p = (char *)__real_malloc(n + 16); *(int *)p = n; return p + 16; }
static void sf(void *p) { if (p) __real_free((char *)p - 16); }
static void *sr(void *p, int n) { if (!p) return sm(n); if (mf()) return nullptr; char *q = (char *)__real_realloc((char *)p - 16, n + 16); *(int *)q = n; return q + 16; }
static int ss(void *p) { return p ? *(int *)((char *)p - 16) : 0; }
static int sround(int n) { return (n + 7) & ~7; }
static int sinit(void *) { return 0; }
static void sshut(void *) {}
void start() {
  static sqlite3_vfs V; static sqlite3_mem_methods MM = {sm, sf, sr, ss, sround, sinit, sshut, nullptr};
  handles->clear(); nfired = nbusy = 0; ops = 0; crash_at = 0; fon = ghost = quiet = false; mfail = 0; atcap = false; dir_ok = nullptr;
  sqlite3_config(SQLITE_CONFIG_SINGLETHREAD); sqlite3_config(SQLITE_CONFIG_MALLOC, &MM); sqlite3_config(SQLITE_CONFIG_LOOKASIDE, 0, 0); sqlite3_config(SQLITE_CONFIG_MEMSTATUS, 0);
  memset(&V, 0, sizeof V); V.iVersion = 2; V.szOsFile = sizeof(SFile); V.mxPathname = 300; V.zName = "simvfs"; V.xOpen = xOpen; V.xDelete = xDelete; V.xAccess = xAccess; V.xFullPathname = xFull; V.xRandomness = xRandom; V.xSleep = xSleep; V.xCurrentTime = xTime; V.xGetLastError = xErr; V.xCurrentTimeInt64 = xTime64;
  if (sqlite3_initialize() != SQLITE_OK || sqlite3_vfs_register(&V, 1) != SQLITE_OK) { fprintf(stderr, "sqlite3_initialize\n"); abort(); }
}
static SFile *fp(sqlite3 *db) { sqlite3_file *p = nullptr; sqlite3_file_control(db, "main", SQLITE_FCNTL_FILE_POINTER, &p); return p && p->pMethods ? S(p) : nullptr; }
int open_handles() { return (int)handles->size(); }
int lock_level(sqlite3 *db) { SFile *s = fp(db); return s ? s->level : 0; }
int locks_of_others(sqlite3 *db) { SFile *s = fp(db); return s ? others(s) : 0; }
}
