#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "fs.h"
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
using sim::chance; using sim::choose; using sim::count;
extern "C" {
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_openat(int, const char *, int, ...); int __real_creat(const char *, mode_t); int __real_close(int);
ssize_t __real_read(int, void *, size_t); ssize_t __real_pread(int, void *, size_t, off_t); ssize_t __real_pread64(int, void *, size_t, off_t); ssize_t __real_write(int, const void *, size_t); ssize_t __real_pwrite(int, const void *, size_t, off_t); ssize_t __real_pwrite64(int, const void *, size_t, off_t);
ssize_t __real_readv(int, const struct iovec *, int); ssize_t __real_writev(int, const struct iovec *, int); off_t __real_lseek(int, off_t, int); off_t __real_lseek64(int, off_t, int);
int __real_fstat(int, struct stat *); int __real_fstat64(int, struct stat *); int __real_stat(const char *, struct stat *); int __real_stat64(const char *, struct stat *); int __real_lstat(const char *, struct stat *); int __real_access(const char *, int);
int __real_mkdir(const char *, mode_t); int __real_unlink(const char *); int __real_rename(const char *, const char *); int __real_ftruncate(int, off_t); int __real_ftruncate64(int, off_t); int __real_fsync(int); int __real_fdatasync(int);
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *); FILE *__real_fdopen(int, const char *); FILE *__real_freopen(const char *, const char *, FILE *); int __real_fclose(FILE *); int __real_fileno(FILE *); int __real_fileno_unlocked(FILE *);
int __real_vdprintf(int, const char *, va_list); int __real_remove(const char *); void __real_perror(const char *); int __real_dup(int);
}
namespace fs {
static const int NF = 12, CAP = 40960, FD0 = 1 << 20, SECT = 512;
struct File { char name[80]; uint8_t used, dexists; uint32_t size, dsize; int wopens; uint8_t data[CAP], ddata[CAP]; };
struct Disk { File f[NF]; };
static Disk *D; Faults rates; static bool on = false, fon = false; static bool full = false;
struct Fd { File *f; size_t off; int flags; int refs; bool lost; };
static std::vector<Fd *> *fds; static std::map<FILE *, int> *streams; static int nopen = 0; static int nhard = 0; static std::map<std::string, int> *kinds; static uint64_t crash_at = 0, ops = 0;
void init() { D = (Disk *)sim::durable_alloc(sizeof(Disk)); fds = new std::vector<Fd *>; streams = new std::map<FILE *, int>; kinds = new std::map<std::string, int>; nopen = nhard = 0; rates = Faults(); on = fon = full = false; crash_at = ops = 0; }
void active(bool o) { on = o; }
void faults(bool o) { fon = o; full = false; }
On::On(bool f) : was(fon) { on = true; fon = f; if (f) full = false; }
On::~On() { on = false; fon = was; full = false; }
static std::string norm(const char *p) { std::string s = p ? p : ""; while (s.compare(0, 2, "./") == 0) s = s.substr(2); return s; }
static File *find(const std::string &n) { for (int i = 0; i < NF; i++) if (D->f[i].used && n == D->f[i].name) return &D->f[i]; return nullptr; }
static File *make(const std::string &n) { for (int i = 0; i < NF; i++) if (!D->f[i].used && !D->f[i].dexists) { File *f = &D->f[i]; f->used = 1; f->size = f->dsize = 0; f->dexists = 0; f->wopens = 0; snprintf(f->name, sizeof f->name, "%s", n.c_str()); return f; } sim::discard("simulated disk: too many files"); }
bool exists(const std::string &n) { return find(n) != nullptr; }
std::string content(const std::string &n) { File *f = find(n); return f ? std::string((char *)f->data, f->size) : ""; }
void put(const std::string &n, const std::string &d) { if (d.size() > CAP) sim::discard("simulated disk: file too large"); File *f = find(n); if (!f) f = make(n); memcpy(f->data, d.data(), d.size()); memcpy(f->ddata, d.data(), d.size()); f->size = f->dsize = d.size(); f->dexists = 1; }
void drop(const std::string &n) { if (File *f = find(n)) f->used = f->dexists = 0; }
std::vector<std::string> names() { std::vector<std::string> v; for (int i = 0; i < NF; i++) if (D->f[i].used) v.push_back(D->f[i].name); return v; }
int hard() { return nhard; }
int hard_kind(const char *k) { return (*kinds)[k]; }
int wopens(const std::string &n) { File *f = find(n); return f ? f->wopens : 0; }
int open_files() { return nopen; }
void crash_after(uint64_t n) { crash_at = n ? ops + n : 0; }
static bool hit(unsigned rate) { return fon && rate && chance(rate, 256); }
static int fail(int e, const char *kind, const char *name) { nhard++; (*kinds)[kind]++; sim::ev("  fault: %s fails (%s)", kind, strerrorname_np(e)); count(name); errno = e; return -1; }
static void op(const char *what) {
  ops++; sim::advance_time(20); if (crash_at && ops >= crash_at) { sim::ev("  crash at %s", what); count("fault.crash"); sim::crash(); }
  int e = errno; sim::yield_point(); errno = e;
}
static Fd *get(int fd) { size_t i = (size_t)(fd - FD0); return fd >= FD0 && i < fds->size() ? (*fds)[i] : nullptr; }
static bool mine(int fd) { return D && fd >= FD0; }
void recover() {
  for (int i = 0; i < NF; i++) {
    File *f = &D->f[i]; if (!f->used && !f->dexists) continue;
    bool same = f->used == f->dexists && f->size == f->dsize && !memcmp(f->data, f->ddata, f->size);
    if (same) continue;
    unsigned m = sim::weighted({3, 2, 5});
    if (m == 0) { count("fault.crash.all-written"); }
    else if (m == 1) { f->used = f->dexists; f->size = f->dsize; memcpy(f->data, f->ddata, CAP); count("fault.crash.writes-lost"); sim::ev("  %s: unsynced writes lost", f->name); }
    else if (f->used) {
      uint32_t hi = std::max(f->size, f->dsize), size = choose(3) == 0 ? f->size : choose(2) ? f->dsize : (uint32_t)choose(hi + 1); static uint8_t n[CAP]; memset(n, 0, CAP);
      for (uint32_t s = 0; s < hi; s += SECT) { // a sector holds the new bytes, the old bytes, zeroes, or is torn in the middle
        unsigned w = (unsigned)choose(4); uint32_t cut = w == 3 ? (uint32_t)choose(SECT) : SECT;
        for (uint32_t k = s; k < s + SECT && k < CAP; k++) { bool nw = w == 0 || (w == 3 && k - s < cut); n[k] = w == 2 ? 0 : nw ? (k < f->size ? f->data[k] : 0) : (k < f->dsize ? f->ddata[k] : 0); }
      }
      memcpy(f->data, n, CAP); f->size = size; count("fault.crash.writes-torn"); sim::ev("  %s: unsynced writes torn, %u bytes left", f->name, size);
    }
    f->dexists = f->used; f->dsize = f->size; memcpy(f->ddata, f->data, CAP);
  }
}
// ---- operations ----
static int do_open(const char *path, int flags, const char *what) {
  std::string n = norm(path); op(what);
  if (hit(rates.open)) { static const int es[] = {EMFILE, EACCES, ENFILE, EIO, ENOMEM}; return fail(es[choose(5)], "open", "fault.open-failed"); }
  File *f = find(n);
  if (!f) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } f = make(n); }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) f->size = 0;
  if ((flags & O_ACCMODE) != O_RDONLY) f->wopens++;
  fds->push_back(new Fd{f, 0, flags, 1, false}); nopen++; return FD0 + (int)fds->size() - 1;
}
static int do_close(int fd) {
  Fd *d = get(fd); op("close"); if (!d) { errno = EBADF; return -1; }
  (*fds)[fd - FD0] = nullptr; nopen--; 
  bool w = (d->flags & O_ACCMODE) != O_RDONLY; int r = 0;
  if (w && hit(rates.close)) { d->f->size = choose(d->f->size + 1); r = fail(choose(2) ? EIO : ENOSPC, "close", "fault.close-failed"); }
  delete d; return r;
}
static ssize_t do_read(int fd, void *b, size_t n, off_t at) {
  Fd *d = get(fd); op("read"); if (!d || (d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (hit(rates.rintr)) { errno = EINTR; sim::ev("  fault: read interrupted"); count("fault.read-interrupted"); return -1; }
  if (hit(rates.reio)) return fail(EIO, "read", "fault.read-failed");
  size_t off = at >= 0 ? (size_t)at : d->off, have = off < d->f->size ? d->f->size - off : 0; size_t k = n < have ? n : have;
  if (k > 1 && hit(rates.rshort)) { k = 1 + choose(k - 1); sim::ev("  fault: short read of %zu bytes", k); count("fault.read-short"); }
  memcpy(b, d->f->data + off, k); if (at < 0) d->off += k; return (ssize_t)k;
}
static ssize_t do_write(int fd, const void *b, size_t n, off_t at) {
  Fd *d = get(fd); op("write"); if (!d || (d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (!n) return 0;
  if (full) return fail(ENOSPC, "write", "fault.disk-full");
  if (hit(rates.wintr)) { errno = EINTR; sim::ev("  fault: write interrupted"); count("fault.write-interrupted"); return -1; }
  if (hit(rates.weio)) return fail(EIO, "write", "fault.write-failed");
  size_t off = at >= 0 ? (size_t)at : (d->flags & O_APPEND) ? d->f->size : d->off, k = n;
  if (hit(rates.nospc)) { full = true; k = choose(n); sim::ev("  fault: disk full after %zu bytes", k); if (!k) return fail(ENOSPC, "write", "fault.disk-full"); }
  else if (k > 1 && hit(rates.wshort)) { k = 1 + choose(k - 1); sim::ev("  fault: short write of %zu bytes", k); count("fault.write-short"); }
  if (off + k > CAP) sim::discard("simulated disk: file too large");
  if (off > d->f->size) memset(d->f->data + d->f->size, 0, off - d->f->size);
  memcpy(d->f->data + off, b, k); if (off + k > d->f->size) d->f->size = off + k; if (at < 0) d->off = off + k; return (ssize_t)k;
}
static off_t do_seek(int fd, off_t o, int wh) { Fd *d = get(fd); if (!d) { errno = EBADF; return -1; } off_t x = wh == SEEK_SET ? o : wh == SEEK_CUR ? (off_t)d->off + o : (off_t)d->f->size + o; if (x < 0) { errno = EINVAL; return -1; } d->off = (size_t)x; return x; }
static int fill(File *f, struct stat *s) { if (hit(rates.stat)) return fail(choose(2) ? EIO : ENOMEM, "stat", "fault.stat-failed"); memset(s, 0, sizeof *s); s->st_size = f->size; s->st_mode = S_IFREG | 0644; s->st_nlink = 1; s->st_blksize = 4096; s->st_blocks = (f->size + 511) / 512; s->st_ino = 1 + (f - D->f); return 0; }
static int do_fstat(int fd, struct stat *s) { Fd *d = get(fd); op("fstat"); if (!d) { errno = EBADF; return -1; } return fill(d->f, s); }
static int do_stat(const char *p, struct stat *s) { op("stat"); File *f = find(norm(p)); if (!f) { errno = ENOENT; return -1; } return fill(f, s); }
static int do_sync(int fd) { Fd *d = get(fd); op("fsync"); if (!d) { errno = EBADF; return -1; } if (hit(rates.sync)) return fail(EIO, "sync", "fault.sync-failed"); memcpy(d->f->ddata, d->f->data, CAP); d->f->dsize = d->f->size; d->f->dexists = 1; return 0; }
static int do_trunc(int fd, off_t n) { Fd *d = get(fd); op("ftruncate"); if (!d) { errno = EBADF; return -1; } if (n > CAP) { errno = EFBIG; return -1; } if ((size_t)n > d->f->size) memset(d->f->data + d->f->size, 0, n - d->f->size); d->f->size = n; return 0; }
static int do_unlink(const char *p) { op("unlink"); File *f = find(norm(p)); if (!f) { errno = ENOENT; return -1; } f->used = 0; return 0; }
static int do_rename(const char *a, const char *b) {
  op("rename"); File *f = find(norm(a)); if (!f) { errno = ENOENT; return -1; }
  File *g = find(norm(b)); if (g == f) return 0;
  if (!g) g = make(norm(b));
  memcpy(g->data, f->data, CAP); g->size = f->size; g->wopens++; f->used = 0; return 0;
}
// streams: glibc's own buffering over cookies
static ssize_t c_read(void *c, char *b, size_t n) { return do_read((int)(intptr_t)c, b, n, -1); }
static ssize_t c_write(void *c, const char *b, size_t n) { size_t k = 0; while (k < n) { ssize_t r = do_write((int)(intptr_t)c, b + k, n - k, -1); if (r < 0) break; k += r; } return k ? (ssize_t)k : n ? 0 : 0; }
static int c_seek(void *c, off64_t *o, int wh) { off_t r = do_seek((int)(intptr_t)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int c_close(void *c) { return do_close((int)(intptr_t)c); }
static int mode_flags(const char *m) { bool plus = strchr(m, '+'); int x = strchr(m, 'x') ? O_EXCL : 0; switch (m[0]) { case 'r': return plus ? O_RDWR : O_RDONLY; case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC | x; default: return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; } }
static FILE *stream(int fd, const char *m) { cookie_io_functions_t io = {c_read, c_write, c_seek, c_close}; FILE *f = fopencookie((void *)(intptr_t)fd, m, io); (*streams)[f] = fd; return f; }
static FILE *do_fopen(const char *p, const char *m) { int fd = do_open(p, mode_flags(m), "fopen"); return fd < 0 ? nullptr : stream(fd, m); }
static int sfd(FILE *f) { if (!D || !streams) return -1; auto i = streams->find(f); return i == streams->end() ? -1 : i->second; }
}  // namespace fs
using namespace fs;
#define ON (D && fs::on)
extern "C" {
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return ON ? do_open(p, fl, "open") : __real_open(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return ON ? do_open(p, fl, "open") : __real_open64(p, fl, m); }
int __wrap_openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return ON ? do_open(p, fl, "open") : __real_openat(d, p, fl, m); }
int __wrap_creat(const char *p, mode_t m) { return ON ? do_open(p, O_CREAT | O_WRONLY | O_TRUNC, "creat") : __real_creat(p, m); }
int __wrap_close(int fd) { return mine(fd) ? do_close(fd) : __real_close(fd); }
int __wrap_dup(int fd) { if (!mine(fd)) return __real_dup(fd); Fd *d = get(fd); if (!d) { errno = EBADF; return -1; } fds->push_back(new Fd(*d)); nopen++; return FD0 + (int)fds->size() - 1; }
ssize_t __wrap_read(int fd, void *b, size_t n) { return mine(fd) ? do_read(fd, b, n, -1) : __real_read(fd, b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return mine(fd) ? do_read(fd, b, n, o) : __real_pread(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return mine(fd) ? do_read(fd, b, n, o) : __real_pread64(fd, b, n, o); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return mine(fd) ? do_write(fd, b, n, -1) : __real_write(fd, b, n); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return mine(fd) ? do_write(fd, b, n, o) : __real_pwrite(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return mine(fd) ? do_write(fd, b, n, o) : __real_pwrite64(fd, b, n, o); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int k) { if (!mine(fd)) return __real_readv(fd, v, k); ssize_t t = 0; for (int i = 0; i < k; i++) { ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t __wrap_writev(int fd, const struct iovec *v, int k) { if (!mine(fd)) return __real_writev(fd, v, k); ssize_t t = 0; for (int i = 0; i < k; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
off_t __wrap_lseek(int fd, off_t o, int w) { return mine(fd) ? do_seek(fd, o, w) : __real_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return mine(fd) ? do_seek(fd, o, w) : __real_lseek64(fd, o, w); }
int __wrap_fstat(int fd, struct stat *s) { return mine(fd) ? do_fstat(fd, s) : __real_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat *s) { return mine(fd) ? do_fstat(fd, s) : __real_fstat64(fd, s); }
int __wrap_stat(const char *p, struct stat *s) { return ON ? do_stat(p, s) : __real_stat(p, s); }
int __wrap_stat64(const char *p, struct stat *s) { return ON ? do_stat(p, s) : __real_stat64(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { return ON ? do_stat(p, s) : __real_lstat(p, s); }
int __wrap_access(const char *p, int m) { if (!ON) return __real_access(p, m); op("access"); if (find(norm(p))) return 0; errno = ENOENT; return -1; }
int __wrap_mkdir(const char *p, mode_t m) { if (!ON) return __real_mkdir(p, m); errno = EEXIST; return -1; }
int __wrap_unlink(const char *p) { return ON ? do_unlink(p) : __real_unlink(p); }
int __wrap_remove(const char *p) { return ON ? do_unlink(p) : __real_remove(p); }
int __wrap_rename(const char *a, const char *b) { return ON ? do_rename(a, b) : __real_rename(a, b); }
int __wrap_ftruncate(int fd, off_t n) { return mine(fd) ? do_trunc(fd, n) : __real_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { return mine(fd) ? do_trunc(fd, n) : __real_ftruncate64(fd, n); }
int __wrap_fsync(int fd) { return mine(fd) ? do_sync(fd) : __real_fsync(fd); }
int __wrap_fdatasync(int fd) { return mine(fd) ? do_sync(fd) : __real_fdatasync(fd); }
FILE *__wrap_fopen(const char *p, const char *m) { return ON ? do_fopen(p, m) : __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return ON ? do_fopen(p, m) : __real_fopen64(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) { return mine(fd) ? stream(fd, m) : __real_fdopen(fd, m); }
FILE *__wrap_freopen(const char *p, const char *m, FILE *f) { return __real_freopen(p, m, f); }
int __wrap_fclose(FILE *f) { if (sfd(f) >= 0) streams->erase(f); return __real_fclose(f); }
int __wrap_fileno(FILE *f) { int x = sfd(f); return x >= 0 ? x : __real_fileno(f); }
int __wrap_fileno_unlocked(FILE *f) { int x = sfd(f); return x >= 0 ? x : __real_fileno(f); }
int __wrap_vdprintf(int fd, const char *f, va_list ap) {
  if (!mine(fd)) return __real_vdprintf(fd, f, ap);
  va_list c; va_copy(c, ap); int n = vsnprintf(nullptr, 0, f, c); va_end(c); if (n < 0) return n;
  std::string s((size_t)n + 1, 0); vsnprintf(&s[0], s.size(), f, ap); size_t k = 0; while (k < (size_t)n) { ssize_t r = do_write(fd, s.data() + k, (size_t)n - k, -1); if (r < 0) return -1; k += r; } return n;
}
int __wrap_dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int r = mine(fd) ? __wrap_vdprintf(fd, f, ap) : __real_vdprintf(fd, f, ap); va_end(ap); return r; }
void __wrap_perror(const char *s) { __real_perror(s); }
}
