#include "simos.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {
namespace os {
Disk disk;
Clock clk;
bool active = false;
void (*on_change)(File&, std::size_t) = nullptr;
void (*on_clock)(i64) = nullptr;
void (*on_io)() = nullptr;
namespace {
constexpr int MAXF = 24, MAXH = 200, FD0 = 100000;
File files[MAXF];
int nf = 0;
struct Handle {
  File* f;
  std::size_t pos;
  bool append, wr, used;
  FILE* fp;
};
Handle hs[MAXH];
u64 rnd() { return disk.rnd = mix(disk.rnd); }
File* lookup(const char* name, bool create) {
  while (name[0] == '.' && name[1] == '/') name += 2;
  for (int i = 0; i < nf; i++)
    if (!std::strcmp(files[i].name, name)) return &files[i];
  if (!create || nf >= MAXF) return nullptr;
  File* f = &files[nf++];
  std::memset(f, 0, sizeof *f);
  std::snprintf(f->name, sizeof f->name, "%s", name);
  return f;
}
void change(File* f, std::size_t keep) {
  if (on_change) on_change(*f, keep);
}
// -1 and errno, or a handle
int open_file(const char* name, bool wr, bool trunc, bool create, bool append, bool excl) {
  if (on_io) on_io();
  disk.opens++;
  if (disk.open_errno && disk.open_left) {
    if (disk.open_left > 0) disk.open_left--;
    disk.fired[FI_OPEN]++;
    errno = disk.open_errno;
    return -1;
  }
  File* f = lookup(name, create);
  if (!f || (!f->exists && !create)) {
    errno = ENOENT;
    return -1;
  }
  if (f->exists && excl) {
    errno = EEXIST;
    return -1;
  }
  int h = 0;
  while (h < MAXH && hs[h].used) h++;
  if (h == MAXH) {
    errno = EMFILE;
    return -1;
  }
  f->exists = true;
  f->opened++;
  if (trunc) {
    change(f, 0);
    f->n = 0;
  }
  hs[h] = Handle{f, append ? f->n : 0, append, wr, true, nullptr};
  return h;
}
ssize_t write_file(int h, const char* p, std::size_t n) {
  Handle& x = hs[h];
  if (!x.used || !x.wr) {
    errno = EBADF;
    return -1;
  }
  if (!n) return 0;
  if (disk.eintr > 0) {
    disk.eintr--;
    disk.fired[FI_EINTR]++;
    errno = EINTR;
    return -1;
  }
  if (disk.eio) {
    if (disk.eio > 0) disk.eio--;
    disk.fired[FI_EIO]++;
    errno = EIO;
    return -1;
  }
  std::size_t m = n;
  if (disk.shrt && n > 1) {
    if (disk.shrt > 0) disk.shrt--;
    disk.fired[FI_SHORT]++;
    m = 1 + std::size_t(rnd() % (n - 1));
  }
  if (disk.space >= 0) {
    if (disk.space < i64(m)) {
      disk.fired[FI_SPACE]++;
      m = std::size_t(disk.space);
      if (!m) {
        errno = ENOSPC;
        return -1;
      }
    }
    disk.space -= i64(m);
  }
  File* f = x.f;
  if (x.append) x.pos = f->n;
  std::size_t end = x.pos + m;
  if (end > f->cap) {
    std::size_t c = end * 2 + 4096;
    f->data = static_cast<char*>(realloc(f->data, c));
    if (!f->data) abort();
    f->cap = c;
  }
  if (x.pos > f->n) std::memset(f->data + f->n, 0, x.pos - f->n);
  change(f, x.pos < f->n ? x.pos : f->n);
  std::memcpy(f->data + x.pos, p, m);
  x.pos = end;
  if (end > f->n) f->n = end;
  disk.writes++;
  disk.bytes += m;
  return ssize_t(m);
}
int close_file(int h) {
  hs[h].used = false;
  if (disk.close_errno) {
    disk.fired[FI_CLOSE]++;
    errno = disk.close_errno;
    return -1;
  }
  return 0;
}
i64 seek_file(int h, i64 off, int whence) {
  Handle& x = hs[h];
  i64 b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? i64(x.pos) : i64(x.f->n);
  if (b + off < 0) {
    errno = EINVAL;
    return -1;
  }
  x.pos = std::size_t(b + off);
  return i64(x.pos);
}
// cookies of FILE objects
ssize_t ck_write(void* c, const char* p, std::size_t n) {
  ssize_t r = write_file(int(reinterpret_cast<intptr_t>(c)) - 1, p, n);
  return r < 0 ? 0 : r;
}
int ck_close(void* c) { return close_file(int(reinterpret_cast<intptr_t>(c)) - 1); }
int ck_seek(void* c, off64_t* o, int wh) {
  i64 r = seek_file(int(reinterpret_cast<intptr_t>(c)) - 1, *o, wh);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
bool system_path(const char* p) {
  return !std::strncmp(p, "/proc", 5) || !std::strncmp(p, "/dev", 4) || !std::strncmp(p, "/sys", 4) ||
         !std::strncmp(p, "/etc", 4) || !std::strncmp(p, "/usr", 4);
}
FILE* open_stream(const char* name, const char* mode) {
  bool plus = std::strchr(mode, '+') != nullptr;
  char m = mode[0];
  int h = open_file(name, m != 'r' || plus, m == 'w', m != 'r', m == 'a', std::strchr(mode, 'x') != nullptr);
  if (h < 0) return nullptr;
  cookie_io_functions_t io = {nullptr, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie(reinterpret_cast<void*>(intptr_t(h + 1)), m == 'a' ? "a" : "w", io);
  if (!f) {
    hs[h].used = false;
    errno = ENOMEM;
    return nullptr;
  }
  hs[h].fp = f;
  return f;
}
int handle_of(int fd) { return fd >= FD0 && fd < FD0 + MAXH && hs[fd - FD0].used ? fd - FD0 : -1; }
i64 read_clock(i64* ns) {
  i64 t = clk.now;
  if (ns) *ns = t < 0 ? 0 : clk.nsec;  // conversions of earlier times round either way
  if (clk.nseen < 32) clk.seen[clk.nseen++] = t;
  clk.reads++;
  if (on_clock) on_clock(t);
  if (clk.nstep) {
    i64 d = clk.step[clk.pos++ % clk.nstep];
    clk.now += d;
    if (d > 1 || d < 0) disk.fired[FI_JUMP]++;
  }
  clk.nsec = (clk.nsec + 1234567) % 1000000000;
  return t;
}
template <class F>
F next(const char* n) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
}  // namespace
void clock_mark() { clk.nseen = 0; }
void reset() {
  for (int i = 0; i < nf; i++) free(files[i].data);
  std::memset(files, 0, sizeof files);
  std::memset(hs, 0, sizeof hs);
  nf = 0;
  disk = Disk();
  clk = Clock();
}
File* file(const char* name) { return lookup(name, false); }
int nfiles() { return nf; }
File* file_at(int i) { return &files[i]; }
}  // namespace os
}  // namespace sim
using namespace sim::os;

extern "C" {
__attribute__((visibility("default"))) FILE* fopen(const char* name, const char* mode) {
  if (active && !system_path(name)) return open_stream(name, mode);
  static auto real = next<FILE* (*)(const char*, const char*)>("fopen");
  return real(name, mode);
}
__attribute__((visibility("default"))) FILE* fopen64(const char* name, const char* mode) {
  if (active && !system_path(name)) return open_stream(name, mode);
  static auto real = next<FILE* (*)(const char*, const char*)>("fopen64");
  return real(name, mode);
}
__attribute__((visibility("default"))) int fileno(FILE* f) noexcept {
  if (active)
    for (int i = 0; i < MAXH; i++)
      if (hs[i].used && hs[i].fp == f) return FD0 + i;
  static auto real = next<int (*)(FILE*)>("fileno");
  return real(f);
}
__attribute__((visibility("default"))) ssize_t write(int fd, const void* p, size_t n) {
  int h = handle_of(fd);
  if (h >= 0) {
    if (on_io) on_io();
    return write_file(h, static_cast<const char*>(p), n);
  }
  return syscall(SYS_write, fd, p, n);
}
__attribute__((visibility("default"))) ssize_t writev(int fd, const struct iovec* v, int c) {
  int h = handle_of(fd);
  if (h < 0) return syscall(SYS_writev, fd, v, c);
  if (on_io) on_io();
  ssize_t total = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = write_file(h, static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    if (r < 0) return total ? total : -1;
    total += r;
    if (size_t(r) < v[i].iov_len) break;
  }
  return total;
}
__attribute__((visibility("default"))) off64_t lseek64(int fd, off64_t o, int wh) noexcept {
  int h = handle_of(fd);
  if (h >= 0) return seek_file(h, o, wh);
  return syscall(SYS_lseek, fd, o, wh);
}
__attribute__((visibility("default"))) off_t lseek(int fd, off_t o, int wh) noexcept {
  int h = handle_of(fd);
  if (h >= 0) return seek_file(h, o, wh);
  return syscall(SYS_lseek, fd, o, wh);
}
static int sim_open(const char* name, int fl) {
  int h = open_file(name, (fl & O_ACCMODE) != O_RDONLY, fl & O_TRUNC, fl & O_CREAT, fl & O_APPEND,
                    (fl & O_CREAT) && (fl & O_EXCL));
  return h < 0 ? -1 : FD0 + h;
}
__attribute__((visibility("default"))) int open(const char* name, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (active && !system_path(name)) return sim_open(name, fl);
  return int(syscall(SYS_openat, AT_FDCWD, name, fl, mode));
}
__attribute__((visibility("default"))) int open64(const char* name, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (active && !system_path(name)) return sim_open(name, fl);
  return int(syscall(SYS_openat, AT_FDCWD, name, fl | O_LARGEFILE, mode));
}
__attribute__((visibility("default"))) int close(int fd) {
  int h = handle_of(fd);
  if (h >= 0) return close_file(h);
  return int(syscall(SYS_close, fd));
}
__attribute__((visibility("default"))) int fsync(int fd) {
  if (handle_of(fd) >= 0) return 0;
  return int(syscall(SYS_fsync, fd));
}
__attribute__((visibility("default"))) int fdatasync(int fd) {
  if (handle_of(fd) >= 0) return 0;
  return int(syscall(SYS_fdatasync, fd));
}
__attribute__((visibility("default"))) int unlink(const char* p) noexcept {
  if (!active || system_path(p)) return int(syscall(SYS_unlink, p));
  File* f = lookup(p, false);
  if (!f || !f->exists) {
    errno = ENOENT;
    return -1;
  }
  change(f, 0);
  f->exists = false;
  f->n = 0;
  return 0;
}
__attribute__((visibility("default"))) int remove(const char* p) noexcept { return unlink(p); }
__attribute__((visibility("default"))) int rename(const char* a, const char* b) noexcept {
  if (!active) return int(syscall(SYS_rename, a, b));
  File* f = lookup(a, false);
  if (!f || !f->exists) {
    errno = ENOENT;
    return -1;
  }
  File* g = lookup(b, true);
  change(g, 0);
  change(f, 0);
  free(g->data);
  g->data = f->data;
  g->n = f->n;
  g->cap = f->cap;
  g->exists = true;
  f->data = nullptr;
  f->n = f->cap = 0;
  f->exists = false;
  return 0;
}
__attribute__((visibility("default"))) time_t time(time_t* t) noexcept {
  time_t r;
  if (active) {
    r = time_t(read_clock(nullptr));
  } else {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    r = ts.tv_sec;
  }
  if (t) *t = r;
  return r;
}
__attribute__((visibility("default"))) int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (active) {
    sim::i64 ns;
    ts->tv_sec = time_t(read_clock(&ns));
    ts->tv_nsec = long(ns);
    return 0;
  }
  return int(syscall(SYS_clock_gettime, id, ts));
}
__attribute__((visibility("default"))) int gettimeofday(struct timeval* tv, void*) noexcept {
  if (active) {
    sim::i64 ns;
    tv->tv_sec = time_t(read_clock(&ns));
    tv->tv_usec = long(ns / 1000);
    return 0;
  }
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
}
