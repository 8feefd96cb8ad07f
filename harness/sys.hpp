// System-call interposition for the file harnesses (single-threaded use). The
// library's calls are diverted here with -Wl,--wrap; the harness itself talks to the kernel
// through sys::raw, which is never diverted.
#ifndef VH_SYS_HPP
#define VH_SYS_HPP
#include "common.hpp"
#include <cerrno>
#include <cstdarg>
#include <functional>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>

extern "C" void* __asan_region_is_poisoned(void*, std::size_t) __attribute__((weak));

namespace sys {

enum kind { k_open, k_close, k_dup, k_read, k_write, k_seek, k_trunc, k_stat, k_chmod, k_utime, k_count };
inline const char* name(int k)
{ static const char* n[] = {"open", "close", "dup", "read", "write", "seek", "truncate", "stat", "chmod", "utimes"}; return n[k]; }

struct call { int k; int fd; long ret; int err; bool injected; };

// One instruction of a fault plan, consumed by the next diverted call of its kind.
struct fault { int k; int err; long limit; }; // err != 0: fail; limit >= 0: shorten to limit bytes

struct world
{
  bool on = false;
  std::vector<call> log;
  std::vector<fault> plan;   // consumed front to back, per kind
  std::set<int> opened;      // descriptors created through the library and not yet closed
  std::string trouble;
  int from = 0;              // descriptors created through the library get numbers from here on
  int deny = 0;              // access a user without privileges would not have: 1 reading, 2 writing
  std::function<void()> interrupted; // what others do while an open is being interrupted
};
inline world& w() { static world* x = new world; return *x; }

inline void start() { w().on = true; w().log.clear(); w().trouble.clear(); }
inline void stop() { w().on = false; w().plan.clear(); w().from = 0; w().deny = 0; }
struct watch { watch() { start(); } ~watch() { stop(); } };

inline bool take(int k, fault& f)
{
  auto& p = w().plan;
  for (std::size_t i = 0; i < p.size(); ++i)
    if (p[i].k == k) { f = p[i]; p.erase(p.begin() + i); return true; }
  return false;
}

inline unsigned calls(int k, bool real_only = false)
{
  unsigned n = 0;
  for (auto& c : w().log) if (c.k == k && !(real_only && c.injected)) ++n;
  return n;
}

inline std::string show_log()
{
  std::string s;
  for (auto& c : w().log) s += vh::cat(name(c.k), "(", c.fd, ")=", c.ret, c.err ? vh::cat("/e", c.err) : std::string(), c.injected ? "* " : " ");
  return s;
}

namespace raw {
inline int open(const char* p, int fl, int mode = 0) { return (int)::syscall(SYS_openat, AT_FDCWD, p, fl, mode); }
inline int close(int fd) { return (int)::syscall(SYS_close, fd); }
inline long pread(int fd, void* b, size_t n, off_t o) { return ::syscall(SYS_pread64, fd, b, n, o); }
inline long pwrite(int fd, const void* b, size_t n, off_t o) { return ::syscall(SYS_pwrite64, fd, b, n, o); }
inline long write(int fd, const void* b, size_t n) { return ::syscall(SYS_write, fd, b, n); }
inline int getfd(int fd) { return (int)::syscall(SYS_fcntl, fd, F_GETFD, 0); }
inline int getfl(int fd) { return (int)::syscall(SYS_fcntl, fd, F_GETFL, 0); }
inline off_t tell(int fd) { return ::syscall(SYS_lseek, fd, 0, SEEK_CUR); }
inline off_t seek(int fd, off_t o) { return ::syscall(SYS_lseek, fd, o, SEEK_SET); }
inline int stat(const char* p, struct stat* st) { return (int)::syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
inline int fstat(int fd, struct stat* st) { return (int)::syscall(SYS_fstat, fd, st); }
inline int chmod(const char* p, int m) { return (int)::syscall(SYS_fchmodat, AT_FDCWD, p, m); }
inline int truncate(const char* p, off_t n) { return (int)::syscall(SYS_truncate, p, n); }

inline void put(const std::string& path, const std::string& data, int mode = 0644)
{
  int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, mode);
  if (fd < 0) { std::perror(("put " + path).c_str()); std::exit(3); }
  size_t d = 0;
  while (d < data.size()) { long n = pwrite(fd, data.data() + d, data.size() - d, d); if (n <= 0) { std::perror("put"); std::exit(3); } d += n; }
  close(fd);
}
inline bool get(const std::string& path, std::string& out)
{
  out.clear();
  int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return false;
  char b[16384];
  for (;;) { long n = pread(fd, b, sizeof b, out.size()); if (n <= 0) break; out.append(b, n); }
  close(fd);
  return true;
}
// The same open file under a descriptor number of at least from (as if all lower ones were in use).
inline int high(int fd, int from)
{
  if (fd < 0 || from <= 0) return fd;
  const int e = errno;
  const int n = (int)::syscall(SYS_fcntl, fd, (getfd(fd) & FD_CLOEXEC) ? F_DUPFD_CLOEXEC : F_DUPFD, from);
  if (n >= 0) { close(fd); fd = n; }
  errno = e;
  return fd;
}
// While it lives, the process has no standard input: the next descriptor is 0.
struct no_stdin
{
  int saved = -1;
  explicit no_stdin(bool on)
  {
    if (!on) return;
    saved = (int)::syscall(SYS_fcntl, 0, F_DUPFD_CLOEXEC, 500);
    if (saved >= 0) close(0);
  }
  no_stdin(const no_stdin&) = delete;
  ~no_stdin() { if (saved >= 0) { ::syscall(SYS_dup3, saved, 0, 0); close(saved); } }
};
// the open descriptors of this process
inline std::set<int> fds()
{
  std::set<int> r;
  int d = open("/proc/self/fd", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  char b[8192];
  for (;;) {
    long n = ::syscall(SYS_getdents64, d, b, sizeof b);
    if (n <= 0) break;
    for (long i = 0; i < n;) {
      struct de { ino64_t i; off64_t o; unsigned short l; unsigned char t; char n[1]; }* e = (de*)(b + i);
      if (e->n[0] != '.') { int f = std::atoi(e->n); if (f != d) r.insert(f); }
      i += e->l;
    }
  }
  close(d);
  return r;
}
} // namespace raw

inline long note(int k, int fd, long ret, bool inj)
{
  int e = errno;
  w().log.push_back(call{k, fd, ret, ret == -1 ? e : 0, inj});
  errno = e;
  return ret;
}
inline bool inject(int k, int fd, fault& f)
{
  f = fault{k, 0, -1};
  if (!w().on) return false;
  if (!take(k, f)) return false;
  if (f.err && k != k_close) { errno = f.err; note(k, fd, -1, true); return true; }
  return false;
}

// Which descriptor numbers a case works with: mostly the lowest, sometimes ones beyond 255 or 1023, and (in
// the last cases only, a big descriptor table is slow) beyond 4095, 16383 or 32767 where the limit allows it.
inline int some_from(vh::Rng& r)
{
  static const bool raised = [] { struct rlimit l; if (::getrlimit(RLIMIT_NOFILE, &l) == 0) { l.rlim_cur = l.rlim_max; ::setrlimit(RLIMIT_NOFILE, &l); } return true; }();
  (void)raised;
  static const int mid[] = {255, 1000, 1024}, top[] = {4095, 16384, 19000, 32767};
  const bool late = vh::st().index - vh::st().first >= vh::st().cases - vh::st().cases / 30;
  const bool want = r.chance(12), very = r.chance(30);
  const int m = mid[r.below(3)], t = top[r.below(4)];
  if (late && very) { vh::count("very-high-descriptors"); return t; }
  if (want) vh::count("high-descriptors");
  return want ? m : 0;
}
} // namespace sys

#ifndef VH_SYS_NO_WRAPS
extern "C" {
#define VH_SYS_OPEN(NAME, GETMODE) \
  int __wrap_##NAME(const char* p, int fl, ...) { \
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } \
    if (!sys::w().on) return sys::raw::open(p, fl, m); \
    sys::fault f; if (sys::inject(sys::k_open, -1, f)) { int e = errno; if (sys::w().interrupted) sys::w().interrupted(); errno = e; return -1; } \
    if ((sys::w().deny & 1) && (fl & O_ACCMODE) != O_WRONLY) { errno = EACCES; return -1; } \
    if ((sys::w().deny & 2) && ((fl & O_ACCMODE) != O_RDONLY || (fl & O_TRUNC))) { errno = EACCES; return -1; } \
    int r = sys::raw::high(sys::raw::open(p, fl, m), sys::w().from); sys::note(sys::k_open, r, r, false); \
    if (r >= 0) sys::w().opened.insert(r); return r; }
VH_SYS_OPEN(open, 0)
VH_SYS_OPEN(open64, 0)
int __wrap_openat(int d, const char* p, int fl, ...)
{
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  (void)d;
  return __wrap_open(p, fl, m);
}
int __wrap_openat64(int d, const char* p, int fl, ...)
{
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  (void)d;
  return __wrap_open(p, fl, m);
}
int __wrap_creat64(const char* p, mode_t m) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_creat(const char* p, mode_t m) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int __wrap_close(int fd)
{
  if (!sys::w().on) return sys::raw::close(fd);
  sys::fault f;
  sys::inject(sys::k_close, fd, f);
  int r = sys::raw::close(fd);
  if (r == 0) sys::w().opened.erase(fd);
  else sys::w().trouble += vh::cat("close of invalid descriptor ", fd, "; ");
  if (f.err && r == 0) { errno = f.err; r = -1; } // Linux: the descriptor is gone whatever close reports
  return (int)sys::note(sys::k_close, fd, r, f.err != 0);
}

static int vh_dup(int r, int fd)
{ r = sys::raw::high(r, sys::w().from); sys::note(sys::k_dup, fd, r, false); if (r >= 0) sys::w().opened.insert(r); return r; }
int __wrap_dup(int fd)
{
  sys::fault f;
  if (!sys::w().on) return (int)::syscall(SYS_dup, fd);
  if (sys::inject(sys::k_dup, fd, f)) return -1;
  return vh_dup((int)::syscall(SYS_dup, fd), fd);
}
static int vh_fcntl(int fd, int cmd, long arg)
{
  if (!sys::w().on || (cmd != F_DUPFD && cmd != F_DUPFD_CLOEXEC)) return (int)::syscall(SYS_fcntl, fd, cmd, arg);
  sys::fault f;
  if (sys::inject(sys::k_dup, fd, f)) return -1;
  return vh_dup((int)::syscall(SYS_fcntl, fd, cmd, arg), fd);
}
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return vh_fcntl(fd, cmd, a); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return vh_fcntl(fd, cmd, a); }

} // extern "C"

namespace sys {
// transfers: optionally shortened
inline long xfer(int k, int nr, int fd, const struct iovec* iov, int cnt, bool at, off_t off)
{
  fault f{k, 0, -1};
  if (w().on && inject(k, fd, f)) return -1;
  std::vector<struct iovec> v;
  if (cnt > 0 && cnt <= 4096) v.assign(iov, iov + cnt);
  if (f.limit >= 0) {
    std::size_t left = (std::size_t)f.limit;
    for (auto& x : v) { if (x.iov_len > left) x.iov_len = left; left -= x.iov_len; }
  }
  (void)nr;
  long r;
  const struct iovec* p = f.limit >= 0 ? v.data() : iov;
  if (at) r = ::syscall(k == k_read ? SYS_preadv : SYS_pwritev, fd, p, cnt, off & 0xffffffffffffffffL, 0L);
  else r = ::syscall(k == k_read ? SYS_readv : SYS_writev, fd, p, cnt);
  // The kernel writes without looking at shadow memory: the calls the sanitizer would intercept
  // are diverted here, so ask it about the memory that was handed over.
  if (&__asan_region_is_poisoned)
    for (int i = 0; i < cnt && cnt <= 4096; ++i)
      if (p[i].iov_len && __asan_region_is_poisoned(p[i].iov_base, p[i].iov_len))
        vh::violation("io-outside-buffer", vh::cat(name(k), " of ", p[i].iov_len, " bytes at an address outside the caller's buffer"));
  if (w().on) note(k, fd, r, f.limit >= 0);
  return r;
}
}

extern "C" {
ssize_t __wrap_read(int fd, void* b, size_t n) { struct iovec v{b, n}; if (!sys::w().on) return ::syscall(SYS_read, fd, b, n); return sys::xfer(sys::k_read, 0, fd, &v, 1, false, 0); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { struct iovec v{(void*)b, n}; if (!sys::w().on) return ::syscall(SYS_write, fd, b, n); return sys::xfer(sys::k_write, 0, fd, &v, 1, false, 0); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) { return sys::xfer(sys::k_read, 0, fd, v, c, false, 0); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) { return sys::xfer(sys::k_write, 0, fd, v, c, false, 0); }
ssize_t __wrap_preadv(int fd, const struct iovec* v, int c, off_t o) { return sys::xfer(sys::k_read, 0, fd, v, c, true, o); }
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int c, off_t o) { return sys::xfer(sys::k_write, 0, fd, v, c, true, o); }
ssize_t __wrap_preadv64(int fd, const struct iovec* v, int c, off_t o) { return sys::xfer(sys::k_read, 0, fd, v, c, true, o); }
ssize_t __wrap_pwritev64(int fd, const struct iovec* v, int c, off_t o) { return sys::xfer(sys::k_write, 0, fd, v, c, true, o); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { struct iovec v{b, n}; return sys::xfer(sys::k_read, 0, fd, &v, 1, true, o); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { struct iovec v{(void*)b, n}; return sys::xfer(sys::k_write, 0, fd, &v, 1, true, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }

off_t __wrap_lseek(int fd, off_t o, int wh)
{ sys::fault f; if (sys::inject(sys::k_seek, fd, f)) return -1; off_t r = ::syscall(SYS_lseek, fd, o, wh); if (sys::w().on) sys::note(sys::k_seek, fd, r, false); return r; }
off_t __wrap_lseek64(int fd, off_t o, int wh) { return __wrap_lseek(fd, o, wh); }
int __wrap_ftruncate(int fd, off_t n)
{ sys::fault f; if (sys::inject(sys::k_trunc, fd, f)) return -1; int r = (int)::syscall(SYS_ftruncate, fd, n); if (sys::w().on) sys::note(sys::k_trunc, fd, r, false); return r; }
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_fstat(int fd, struct stat* st)
{ sys::fault f; if (sys::inject(sys::k_stat, fd, f)) return -1; int r = sys::raw::fstat(fd, st); if (sys::w().on) sys::note(sys::k_stat, fd, r, false); return r; }
int __wrap_fstat64(int fd, struct stat64* st) { return __wrap_fstat(fd, (struct stat*)st); }
int __wrap_fstatat(int d, const char* p, struct stat* st, int fl)
{ if (p && *p) return (int)::syscall(SYS_newfstatat, d, p, st, fl); return __wrap_fstat(d, st); }
int __wrap_fstatat64(int d, const char* p, struct stat64* st, int fl) { return __wrap_fstatat(d, p, (struct stat*)st, fl); }
int __wrap_fchmod(int fd, mode_t m)
{ sys::fault f; if (sys::inject(sys::k_chmod, fd, f)) return -1; int r = (int)::syscall(SYS_fchmod, fd, m); if (sys::w().on) sys::note(sys::k_chmod, fd, r, false); return r; }
int __wrap_utimensat(int d, const char* p, const struct timespec* ts, int fl)
{ if (p) return (int)::syscall(SYS_utimensat, d, p, ts, fl);
  sys::fault f; if (sys::inject(sys::k_utime, d, f)) return -1; int r = (int)::syscall(SYS_utimensat, d, p, ts, fl); if (sys::w().on) sys::note(sys::k_utime, d, r, false); return r; }
int __wrap_futimens(int fd, const struct timespec* ts)
{ sys::fault f; if (sys::inject(sys::k_utime, fd, f)) return -1; int r = (int)::syscall(SYS_utimensat, fd, (const char*)0, ts, 0); if (sys::w().on) sys::note(sys::k_utime, fd, r, false); return r; }
}
#endif // VH_SYS_NO_WRAPS
#endif
