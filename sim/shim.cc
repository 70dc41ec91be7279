// Interposes the libc entry points SMASH and libstdc++ use. One process = one simulated execution;
// with SIM_SCHED every in-scope file operation first asks the scheduler (the Python driver) to go on.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "shim.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <new>
#include <random>

int64_t shim_oom_at = 0, shim_allocs = 0;
void (*shim_on_output)() = nullptr;
bool shim_oom_fired = false;

namespace {
bool active = false;
char root[1024];
size_t rootlen = 0;
int trace_fd = -1, sched_r = -1, sched_w = -1;
uint64_t prng = 0x9E3779B97F4A7C15ull;
bool heap_on = false;
int fill = -1;          // byte that fresh memory is filled with
int jitter = 0;         // pad allocations by up to this many bytes
int64_t opno = 0;       // in-scope operations so far
int64_t written = 0, disk_cap = -1;
int short_every = 0;    // every n-th write is short
int eintr_every = 0;
int shortread_every = 0;
int64_t nwrite = 0, nread = 0;
double now_s = 1.7e9;
int clock_mode = 0;     // 0 steady, 1 jumps
bool virtual_clock = false;

uint64_t rnd() {  // splitmix64
  uint64_t z = (prng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

struct Rule {      // "at the n-th operation of this kind (kind 'any': of all) do fault(arg)"
  char kind[12];
  char match[96];  // substring of the path, or "*"
  int64_t n;
  char fault[12];
  int64_t arg;
  bool sticky;     // also all later ones
  int64_t seen;
};
Rule rules[64];
int nrules = 0;

struct FdInfo {
  bool used;
  char path[256];
  bool wr;
};
FdInfo fds[4096];

long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0) {
  return syscall(n, a, b, c, d);
}

void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void tr(const char *fmt, ...) {
  char buf[700];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  if (trace_fd >= 0) {
    long r = sys(SYS_write, trace_fd, (long)buf, n);
    (void)r;
  }
}

[[noreturn]] void die() {
  tr("DEAD\n");
  sys(SYS_exit_group, 137);
  __builtin_unreachable();
}

bool inscope(const char *p) {
  if (!active || !p) return false;
  if (p[0] != '/') return true;  // the working directory lies in the scratch root
  return strncmp(p, root, rootlen) == 0;
}
const char *rel(const char *p) {
  return strncmp(p, root, rootlen) == 0 ? p + rootlen : p;
}

struct Verdict {
  int err = 0;          // errno to fail with
  int64_t limit = -1;   // transfer only this many bytes
  bool kill = false;    // die (after `limit` bytes for a write)
  bool eof = false;     // read: pretend end of file
  int64_t flip = -1;    // read: flip a bit
};

// The single choke point of all in-scope operations.
Verdict op(const char *kind, const char *path, int64_t size = -1) {
  Verdict v;
  opno++;
  if (sched_w >= 0) {
    char b[600];
    int n = snprintf(b, sizeof b, "%ld %s %s %ld\n", (long)opno, kind, rel(path), (long)size);
    if (sys(SYS_write, sched_w, (long)b, n) != n) sys(SYS_exit_group, 139);
    char c = 0;
    long r;
    while ((r = sys(SYS_read, sched_r, (long)&c, 1)) == -1 && errno == EINTR) {
    }
    if (r != 1 || c == 'k') die();
  }
  for (int i = 0; i < nrules; i++) {
    Rule &q = rules[i];
    if (strcmp(q.kind, "any") && strcmp(q.kind, kind)) continue;
    if (q.match[0] != '*' && !strstr(path, q.match)) continue;
    q.seen++;
    if (!(q.seen == q.n || (q.sticky && q.seen > q.n))) continue;
    if (!strcmp(q.fault, "err")) v.err = (int)q.arg;
    else if (!strcmp(q.fault, "kill")) { v.kill = true; v.limit = q.arg; }
    else if (!strcmp(q.fault, "short")) v.limit = q.arg;
    else if (!strcmp(q.fault, "eof")) v.eof = true;
    else if (!strcmp(q.fault, "flip")) v.flip = q.arg;
    tr("FAULT %s %s %ld at %ld %s %s\n", q.fault, q.kind, (long)q.arg, (long)opno, kind, rel(path));
  }
  tr("%ld %s %s %ld\n", (long)opno, kind, rel(path), (long)size);
  if (v.kill && strcmp(kind, "write")) die();
  return v;
}

ssize_t do_write(int fd, const char *path, const char *buf, size_t n) {
  Verdict v = op("write", path, (int64_t)n);
  nwrite++;
  if (v.err) {
    errno = v.err;
    return -1;
  }
  size_t m = n;
  if (v.limit >= 0 && (size_t)v.limit < m) m = v.limit;
  if (disk_cap >= 0) {
    if (written >= disk_cap && m > 0) {
      tr("FAULT enospc write at %ld %s\n", (long)opno, rel(path));
      errno = ENOSPC;
      return -1;
    }
    if (written + (int64_t)m > disk_cap) m = disk_cap - written;
  }
  if (!v.kill && eintr_every && nwrite % eintr_every == 0) {
    tr("FAULT eintr write at %ld\n", (long)opno);
    errno = EINTR;
    return -1;
  }
  if (!v.kill && short_every && nwrite % short_every == 0 && m > 1) {
    m = 1 + rnd() % (m - 1);
    tr("FAULT short write at %ld\n", (long)opno);
  }
  ssize_t r = m ? sys(SYS_write, fd, (long)buf, m) : 0;
  if (r > 0) written += r;
  if (v.kill) die();
  return r;
}

ssize_t do_read(int fd, const char *path, char *buf, size_t n) {
  Verdict v = op("read", path, (int64_t)n);
  nread++;
  if (v.err) {
    errno = v.err;
    return -1;
  }
  if (v.eof) return 0;
  size_t m = n;
  if (v.limit >= 0 && (size_t)v.limit < m) m = v.limit;
  if (shortread_every && nread % shortread_every == 0 && m > 1) {
    m = 1 + rnd() % (m - 1);
    tr("FAULT short read at %ld\n", (long)opno);
  }
  ssize_t r = sys(SYS_read, fd, (long)buf, m);
  if (v.flip >= 0 && r > 0) buf[v.flip / 8 % r] ^= 1 << (v.flip % 8);
  return r;
}

template <class F>
F real(const char *name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

int do_open(const char *path, int flags, mode_t mode, const char *kind) {
  Verdict v = op(kind, path);
  if (v.err) {
    errno = v.err;
    return -1;
  }
  const bool creates = (flags & O_CREAT) != 0;
  if (creates && disk_cap >= 0 && written >= disk_cap && access(path, F_OK)) {
    tr("FAULT enospc open at %ld %s\n", (long)opno, rel(path));
    errno = ENOSPC;
    return -1;
  }
  int fd = sys(SYS_openat, AT_FDCWD, (long)path, flags, mode);
  if (fd >= 0 && fd < 4096) {
    fds[fd].used = true;
    fds[fd].wr = (flags & O_ACCMODE) != O_RDONLY;
    snprintf(fds[fd].path, sizeof fds[fd].path, "%s", path);
  }
  return fd;
}

int mode_flags(const char *m) {
  int f = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC
                                               : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(m, '+')) f = (f & ~O_ACCMODE) | O_RDWR;
  if (strchr(m, 'x')) f |= O_EXCL;
  return f;
}

struct Cookie {
  int fd;
};
ssize_t ck_write(void *c, const char *b, size_t n) {
  int fd = static_cast<Cookie *>(c)->fd;
  size_t done = 0;
  while (done < n) {  // what the kernel file of stdio does: it goes on after a short write
    ssize_t r = do_write(fd, fds[fd].path, b + done, n - done);
    if (r < 0) {
      return done ? (ssize_t)done : 0;  // 0 tells stdio that the write failed
    }
    done += r;
  }
  return done;
}
ssize_t ck_read(void *c, char *b, size_t n) {
  int fd = static_cast<Cookie *>(c)->fd;
  return do_read(fd, fds[fd].path, b, n);
}
int ck_seek(void *c, off64_t *o, int w) {
  off_t r = lseek(static_cast<Cookie *>(c)->fd, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
int ck_close(void *c) {
  int fd = static_cast<Cookie *>(c)->fd;
  free(c);
  Verdict v = op("close", fds[fd].path);
  fds[fd].used = false;
  int r = sys(SYS_close, fd);
  if (v.err) {
    errno = v.err;
    return -1;
  }
  return r;
}
const char *okind(int flags) {
  if (flags & O_EXCL) return "openx";
  return (flags & O_ACCMODE) == O_RDONLY && !(flags & O_CREAT) ? "openr" : "openw";
}
}  // namespace

extern "C" {
FILE *fopen(const char *path, const char *mode) {
  if (!inscope(path)) {
    static auto f = real<FILE *(*)(const char *, const char *)>("fopen");
    return f(path, mode);
  }
  int flags = mode_flags(mode);
  int fd = do_open(path, flags, 0666, okind(flags));
  if (fd < 0) return nullptr;
  if (shim_on_output && strstr(path, ".unfinished")) {
    auto f = shim_on_output;
    shim_on_output = nullptr;
    f();
  }
  Dl_info who;
  if (dladdr(__builtin_return_address(0), &who) && who.dli_fname &&
      strstr(who.dli_fname, "libstdc++"))
    return fdopen(fd, mode);  // file streams only use the descriptor
  auto *c = static_cast<Cookie *>(malloc(sizeof(Cookie)));
  c->fd = fd;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  return fopencookie(c, mode, io);
}
// libstdc++'s file streams: a real FILE, of which they only use the descriptor.
FILE *fopen64(const char *path, const char *mode) {
  if (!inscope(path)) {
    static auto f = real<FILE *(*)(const char *, const char *)>("fopen64");
    return f(path, mode);
  }
  int flags = mode_flags(mode);
  int fd = do_open(path, flags, 0666, okind(flags));
  if (fd < 0) return nullptr;
  return fdopen(fd, mode);
}
int fclose(FILE *f) {
  static auto rf = real<int (*)(FILE *)>("fclose");
  int fd = active ? fileno(f) : -1;
  if (fd >= 0 && fd < 4096 && fds[fd].used) {
    Verdict v = op("close", fds[fd].path);
    fds[fd].used = false;
    int r = rf(f);
    if (v.err) {
      errno = v.err;
      return EOF;
    }
    return r;
  }
  return rf(f);
}
int open(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  if (!inscope(path)) return sys(SYS_openat, AT_FDCWD, (long)path, flags, mode);
  return do_open(path, flags, mode, okind(flags));
}
int open64(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  if (!inscope(path)) return sys(SYS_openat, AT_FDCWD, (long)path, flags, mode);
  return do_open(path, flags, mode, okind(flags));
}
int close(int fd) {
  if (active && fd >= 0 && fd < 4096 && fds[fd].used) {
    Verdict v = op("close", fds[fd].path);
    fds[fd].used = false;
    int r = sys(SYS_close, fd);
    if (v.err) {
      errno = v.err;
      return -1;
    }
    return r;
  }
  return sys(SYS_close, fd);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (active && fd >= 0 && fd < 4096 && fds[fd].used)
    return do_write(fd, fds[fd].path, static_cast<const char *>(b), n);
  return sys(SYS_write, fd, (long)b, n);
}
ssize_t writev(int fd, const struct iovec *io, int cnt) {
  if (active && fd >= 0 && fd < 4096 && fds[fd].used) {
    size_t tot = 0;
    for (int i = 0; i < cnt; i++) tot += io[i].iov_len;
    char *b = static_cast<char *>(malloc(tot + 1));
    size_t o = 0;
    for (int i = 0; i < cnt; i++) {
      memcpy(b + o, io[i].iov_base, io[i].iov_len);
      o += io[i].iov_len;
    }
    ssize_t r = do_write(fd, fds[fd].path, b, tot);
    free(b);
    return r;
  }
  return sys(SYS_writev, fd, (long)io, cnt);
}
ssize_t read(int fd, void *b, size_t n) {
  if (active && fd >= 0 && fd < 4096 && fds[fd].used)
    return do_read(fd, fds[fd].path, static_cast<char *>(b), n);
  return sys(SYS_read, fd, (long)b, n);
}
int rename(const char *a, const char *b) {
  if (inscope(b)) {
    Verdict v = op("rename", b);
    if (v.err) {
      errno = v.err;
      return -1;
    }
  }
  return sys(SYS_rename, (long)a, (long)b);
}
int unlink(const char *a) {
  if (inscope(a)) {
    Verdict v = op("unlink", a);
    if (v.err) {
      errno = v.err;
      return -1;
    }
  }
  return sys(SYS_unlink, (long)a);
}
int remove(const char *a) {
  if (inscope(a)) {
    Verdict v = op("unlink", a);
    if (v.err) {
      errno = v.err;
      return -1;
    }
  }
  int r = sys(SYS_unlink, (long)a);
  if (r && (errno == EISDIR || errno == EPERM)) r = sys(SYS_rmdir, (long)a);
  return r;
}
int mkdir(const char *a, mode_t m) {
  if (inscope(a)) {
    Verdict v = op("mkdir", a);
    if (v.err) {
      errno = v.err;
      return -1;
    }
  }
  return sys(SYS_mkdir, (long)a, m);
}
int stat(const char *p, struct stat *s) {
  if (inscope(p)) {
    Verdict v = op("stat", p);
    if (v.err) {
      errno = v.err;
      return -1;
    }
  }
  return sys(SYS_newfstatat, AT_FDCWD, (long)p, (long)s, 0);
}
int lstat(const char *p, struct stat *s) {
  if (inscope(p)) {
    Verdict v = op("stat", p);
    if (v.err) {
      errno = v.err;
      return -1;
    }
  }
  return sys(SYS_newfstatat, AT_FDCWD, (long)p, (long)s, AT_SYMLINK_NOFOLLOW);
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!virtual_clock) return sys(SYS_clock_gettime, c, (long)t);
  now_s += 1e-6 * (rnd() % 5000);
  if (clock_mode && rnd() % 4 == 0)
    now_s += (double)((int64_t)(rnd() % 200000) - 100000) * (clock_mode > 1 ? 1000. : 1.);
  t->tv_sec = (time_t)now_s;
  t->tv_nsec = (long)((now_s - (double)t->tv_sec) * 1e9);
  return 0;
}
int gettimeofday(struct timeval *t, void *) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (o) *o = s.tv_sec;
  return s.tv_sec;
}
}

// Entropy.
unsigned int std::random_device::_M_getval() { return static_cast<unsigned>(rnd()); }

// Heap: every block carries a header and a canary; deleting checks them and poisons the block.
namespace {
struct Hdr {
  uint64_t size;
  uint64_t magic;
};
constexpr uint64_t kMagic = 0x5afe5afe12345678ull, kDead = 0xdeaddeaddeaddeadull;
[[noreturn]] void heap_broken(const char *what) {
  char b[100];
  int n = snprintf(b, sizeof b, "HEAP %s\n", what);
  tr("HEAP %s\n", what);
  long r = sys(SYS_write, 1, (long)b, n);
  (void)r;
  sys(SYS_exit_group, 134);
  __builtin_unreachable();
}
void *sim_new(size_t n, size_t align = 16) {
  if (heap_on) {
    shim_allocs++;
    if (shim_oom_at && shim_allocs == shim_oom_at) {
      shim_oom_fired = true;
      tr("FAULT oom alloc %ld at %ld\n", (long)n, (long)shim_allocs);
      return nullptr;
    }
  }
  if (align < 16) align = 16;
  size_t pad = jitter ? rnd() % jitter : 0;
  if (n > (size_t)1 << 40) return nullptr;
  char *base;
  if (align == 16) {
    base = static_cast<char *>(malloc(n + 16 + 8 + pad));
  } else {
    void *q = nullptr;
    if (posix_memalign(&q, align, align + n + 8 + pad)) q = nullptr;
    base = q ? static_cast<char *>(q) + align - 16 : nullptr;
  }
  if (!base) return nullptr;
  auto *h = reinterpret_cast<Hdr *>(base);
  h->size = n;
  h->magic = kMagic;
  char *p = base + 16;
  if (fill >= 0) memset(p, fill, n);
  memcpy(p + n, &kMagic, 8);
  return p;
}
void sim_delete(void *v, size_t align = 16) {
  if (!v) return;
  char *p = static_cast<char *>(v);
  auto *h = reinterpret_cast<Hdr *>(p - 16);
  if (h->magic != kMagic) heap_broken(h->magic == kDead ? "double delete" : "block header overwritten");
  if (memcmp(p + h->size, &kMagic, 8)) heap_broken("write past the end of a block");
  h->magic = kDead;
  if (fill >= 0) memset(p, 0xDB, h->size);
  free(align <= 16 ? p - 16 : p - align);
}
}  // namespace
void *operator new(size_t n) {
  void *p = sim_new(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_new(n); }
void *operator new(size_t n, std::align_val_t a) {
  void *p = sim_new(n, (size_t)a);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept { sim_delete(p); }
void operator delete[](void *p) noexcept { sim_delete(p); }
void operator delete(void *p, size_t) noexcept { sim_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_delete(p); }
void operator delete(void *p, std::align_val_t a) noexcept { sim_delete(p, (size_t)a); }
void operator delete[](void *p, std::align_val_t a) noexcept { sim_delete(p, (size_t)a); }
void operator delete(void *p, size_t, std::align_val_t a) noexcept { sim_delete(p, (size_t)a); }
void operator delete[](void *p, size_t, std::align_val_t a) noexcept { sim_delete(p, (size_t)a); }

void shim_heap(bool on) { heap_on = on; }

void shim_init() {
  const char *r = getenv("SIM_ROOT");
  if (!r) return;
  snprintf(root, sizeof root, "%s", r);
  rootlen = strlen(root);
  auto num = [](const char *n, int64_t d) {
    const char *s = getenv(n);
    return s ? (int64_t)strtoll(s, nullptr, 10) : d;
  };
  // no run outlives its driver, and one that does not come to an end is
  // stopped by the processor time it used, not by how busy the machine is
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (int64_t cpu = num("SIM_CPU", 0)) {
    struct rlimit lim = {(rlim_t)cpu, (rlim_t)cpu + 5};
    setrlimit(RLIMIT_CPU, &lim);
  }
  prng = (uint64_t)num("SIM_SEED", 1) * 0x9E3779B97F4A7C15ull;
  fill = num("SIM_FILL", -1);
  jitter = num("SIM_JITTER", 0);
  disk_cap = num("SIM_DISK", -1);
  short_every = num("SIM_SHORTW", 0);
  eintr_every = num("SIM_EINTR", 0);
  shortread_every = num("SIM_SHORTR", 0);
  shim_oom_at = num("SIM_OOM", 0);
  clock_mode = num("SIM_CLOCK", 0);
  now_s = 1.0e9 + (double)(rnd() % 1000000000ull);
  virtual_clock = true;
  if (const char *t = getenv("SIM_TRACE"))
    trace_fd = sys(SYS_openat, AT_FDCWD, (long)t, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (const char *s = getenv("SIM_SCHED")) sscanf(s, "%d,%d", &sched_r, &sched_w);
  // SIM_PLAN: "kind match n fault arg sticky;..."
  if (const char *p = getenv("SIM_PLAN")) {
    while (*p && nrules < 64) {
      Rule &q = rules[nrules];
      long n = 0, a = 0;
      int st = 0, used = 0;
      if (sscanf(p, " %11s %95s %ld %11s %ld %d ;%n", q.kind, q.match, &n, q.fault, &a, &st,
                 &used) < 6 || used == 0) {
        fprintf(stderr, "bad SIM_PLAN: %s\n", p);
        sys(SYS_exit_group, 140);
      }
      q.n = n;
      q.arg = a;
      q.sticky = st;
      q.seen = 0;
      nrules++;
      p += used;
    }
  }
  active = true;
}

void shim_finish() {
  if (!active) return;
  heap_on = false;
  tr("END ops %ld written %ld allocs %ld\n", (long)opno, (long)written, (long)shim_allocs);
}
