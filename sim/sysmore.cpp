// Calls the code under test does not use today, but that a rewrite of it could use instead of those it does.
#include "sys.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
using namespace sim;
#define W(ret, name, ...) extern "C" ret __wrap_##name(__VA_ARGS__)
extern "C" { void sim_mem_add(void *, size_t, void *); void sim_mem_del(void *);
ssize_t __wrap_read(int, void *, size_t); ssize_t __wrap_write(int, const void *, size_t); off_t __wrap_lseek(int, off_t, int); int __wrap_poll(struct pollfd *, nfds_t, int); int __wrap_stat(const char *, struct stat *); int __wrap_lstat(const char *, struct stat *); int __wrap_fstat(int, struct stat *);
int __wrap_unlink(const char *); int __wrap_rmdir(const char *); int __wrap_mkdir(const char *, mode_t); int __wrap_rename(const char *, const char *); ssize_t __wrap_writev(int, const struct iovec *, int); ssize_t __wrap_readv(int, const struct iovec *, int); void *__wrap_realloc(void *, size_t);
int __wrap_pthread_mutex_lock(pthread_mutex_t *); int __wrap_pthread_mutex_trylock(pthread_mutex_t *); int __wrap_pthread_mutex_unlock(pthread_mutex_t *); int __wrap_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __wrap_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *); ssize_t __wrap_sendfile(int, int, off_t *, size_t); int __wrap_ftruncate(int, off_t); int __wrap_access(const char *, int); int __wrap_nanosleep(const struct timespec *, struct timespec *); }
static int bad(int e) { errno = e; return -1; }
#define RA __builtin_return_address(1)

// memory
W(int, vasprintf, char **out, const char *f, va_list ap) { int n = vasprintf(out, f, ap); if (n >= 0) sim_mem_add(*out, n + 1, RA); return n; }
W(int, asprintf, char **out, const char *f, ...) { va_list ap; va_start(ap, f); int n = vasprintf(out, f, ap); va_end(ap); if (n >= 0) sim_mem_add(*out, n + 1, RA); return n; }
W(int, __vasprintf_chk, char **out, int, const char *f, va_list ap) { return __wrap_vasprintf(out, f, ap); }
W(int, __asprintf_chk, char **out, int, const char *f, ...) { va_list ap; va_start(ap, f); int n = vasprintf(out, f, ap); va_end(ap); if (n >= 0) sim_mem_add(*out, n + 1, RA); return n; }
W(void *, reallocarray, void *o, size_t a, size_t b) { size_t t; if (__builtin_mul_overflow(a, b, &t)) { errno = ENOMEM; return nullptr; } return __wrap_realloc(o, t); }
W(void *, aligned_alloc, size_t a, size_t n) { void *p = aligned_alloc(a, n); if (p) sim_mem_add(p, n, RA); return p; }
W(int, posix_memalign, void **o, size_t a, size_t n) { int r = posix_memalign(o, a, n); if (!r) sim_mem_add(*o, n, RA); return r; }
W(ssize_t, getdelim, char **l, size_t *n, int d, FILE *f) { char *o = *l; ssize_t r = getdelim(l, n, d, f); if (*l != o) { if (o) sim_mem_del(o); sim_mem_add(*l, *n, RA); } return r; }
W(ssize_t, getline, char **l, size_t *n, FILE *f) { return __wrap_getdelim(l, n, '\n', f); }
W(FILE *, open_memstream, char **, size_t *) { violation("harness", "open_memstream is not simulated"); }

// standard error and the system log
static std::string vfmt(const char *f, va_list ap) { char b[4096]; va_list a2; va_copy(a2, ap); int n = vsnprintf(b, sizeof b, f, ap); std::string s; if (n >= (int)sizeof b) { s.resize(n + 1); vsnprintf(&s[0], n + 1, f, a2); s.resize(n); } else if (n > 0) s.assign(b, n); va_end(a2); return s; }
static int err_out(const std::string &s) { ssize_t r = __wrap_write(2, s.data(), s.size()); return r < 0 ? -1 : (int)r; }
W(int, vfprintf, FILE *o, const char *f, va_list ap) { if (o != stderr) return vfprintf(o, f, ap); return err_out(vfmt(f, ap)); }
W(int, fprintf, FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vfprintf(o, f, ap); va_end(ap); return r; }
W(int, fputs, const char *s, FILE *o) { if (o != stderr) return fputs(s, o); return err_out(s); }
W(int, fputc, int c, FILE *o) { if (o != stderr) return fputc(c, o); char b = c; return err_out(std::string(1, b)) < 0 ? EOF : c; }
W(size_t, fwrite, const void *d, size_t a, size_t n, FILE *o) { if (o != stderr) return fwrite(d, a, n, o); int r = err_out(std::string((const char *)d, a * n)); return r < 0 ? 0 : r / (a ? a : 1); }
W(int, vdprintf, int fd, const char *f, va_list ap) { std::string s = vfmt(f, ap); return __wrap_write(fd, s.data(), s.size()); }
W(int, dprintf, int fd, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vdprintf(fd, f, ap); va_end(ap); return r; }
W(void, perror, const char *s) { err_out(std::string(s) + ": " + strerror(errno) + "\n"); }
W(void, vsyslog, int pri, const char *f, va_list ap) { yield_sync("syslog"); std::string s = vfmt(f, ap); if (syslog_sink) syslog_sink(pri, s); }
W(void, syslog, int pri, const char *f, ...) { va_list ap; va_start(ap, f); __wrap_vsyslog(pri, f, ap); va_end(ap); }
W(void, openlog, const char *, int, int) {}
W(void, closelog) {}

// results in static memory, that another thread can overwrite
static struct tm tm_static; static char asc_static[64];
W(struct tm *, localtime, const time_t *t) { struct tm *r = localtime_r(t, &tm_static); yield_sync("localtime"); return r; }
W(struct tm *, gmtime, const time_t *t) { struct tm *r = gmtime_r(t, &tm_static); yield_sync("gmtime"); return r; }
W(char *, asctime, const struct tm *t) { char *r = asctime_r(t, asc_static); yield_sync("asctime"); return r; }
W(char *, ctime, const time_t *t) { return __wrap_asctime(__wrap_localtime(t)); }
W(char *, strtok, char *s, const char *d) { static char *save; char *r = strtok_r(s, d, &save); yield_sync("strtok"); return r; }

// input and output
W(ssize_t, pread, int fd, void *b, size_t n, off_t o) { off_t k = __wrap_lseek(fd, 0, SEEK_CUR); if (k < 0) return -1; if (__wrap_lseek(fd, o, SEEK_SET) < 0) return -1; ssize_t r = __wrap_read(fd, b, n); int e = errno; __wrap_lseek(fd, k, SEEK_SET); errno = e; return r; }
W(ssize_t, pread64, int fd, void *b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
W(ssize_t, pwrite, int fd, const void *b, size_t n, off_t o) { off_t k = __wrap_lseek(fd, 0, SEEK_CUR); if (k < 0) return -1; if (__wrap_lseek(fd, o, SEEK_SET) < 0) return -1; ssize_t r = __wrap_write(fd, b, n); int e = errno; __wrap_lseek(fd, k, SEEK_SET); errno = e; return r; }
W(ssize_t, pwrite64, int fd, const void *b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
W(off_t, lseek64, int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
W(ssize_t, sendfile64, int a, int b, off_t *o, size_t n) { return __wrap_sendfile(a, b, o, n); }
W(int, ftruncate64, int fd, off_t n) { return __wrap_ftruncate(fd, n); }
W(ssize_t, sendmsg, int fd, const struct msghdr *m, int) { return __wrap_writev(fd, m->msg_iov, m->msg_iovlen); }
W(ssize_t, recvmsg, int fd, struct msghdr *m, int) { return __wrap_readv(fd, m->msg_iov, m->msg_iovlen); }
W(int, eventfd_read, int fd, uint64_t *v) { return __wrap_read(fd, v, sizeof *v) == (ssize_t)sizeof *v ? 0 : -1; }
W(int, eventfd_write, int fd, uint64_t v) { return __wrap_write(fd, &v, sizeof v) == (ssize_t)sizeof v ? 0 : -1; }
W(int, ppoll, struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *) { return __wrap_poll(p, n, t ? (int)(t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000) : -1); }
W(int, select, int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
  std::vector<struct pollfd> p; for (int i = 0; i < n; i++) { short e = 0; if (r && FD_ISSET(i, r)) e |= POLLIN; if (w && FD_ISSET(i, w)) e |= POLLOUT; if (x && FD_ISSET(i, x)) e |= POLLPRI; if (e) p.push_back({i, e, 0}); }
  int k = __wrap_poll(p.data(), p.size(), t ? (int)(t->tv_sec * 1000 + (t->tv_usec + 999) / 1000) : -1); if (k < 0) return k; if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x); int c = 0;
  for (auto &q : p) { if (q.revents & POLLNVAL) return bad(EBADF); if ((q.events & POLLIN) && (q.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(q.fd, r); c++; } if ((q.events & POLLOUT) && (q.revents & (POLLOUT | POLLERR))) { FD_SET(q.fd, w); c++; } } return c;
}
// files
static bool here(int d, const char *p) { if (d == AT_FDCWD || p[0] == '/') return true; violation("harness", "relative paths to a directory descriptor are not simulated"); }
W(int, fstatat, int d, const char *p, struct stat *s, int fl) { here(d, p); return fl & AT_SYMLINK_NOFOLLOW ? __wrap_lstat(p, s) : __wrap_stat(p, s); }
W(int, unlinkat, int d, const char *p, int fl) { here(d, p); return fl & AT_REMOVEDIR ? __wrap_rmdir(p) : __wrap_unlink(p); }
W(int, mkdirat, int d, const char *p, mode_t m) { here(d, p); return __wrap_mkdir(p, m); }
W(int, renameat, int a, const char *p, int b, const char *q) { here(a, p); here(b, q); return __wrap_rename(p, q); }
W(int, faccessat, int d, const char *p, int m, int) { here(d, p); return __wrap_access(p, m); }
W(int, euidaccess, const char *p, int m) { return __wrap_access(p, m); }
W(int, eaccess, const char *p, int m) { return __wrap_access(p, m); }
W(int, stat64, const char *p, struct stat *s) { return __wrap_stat(p, s); }
W(int, lstat64, const char *p, struct stat *s) { return __wrap_lstat(p, s); }
W(int, fstat64, int fd, struct stat *s) { return __wrap_fstat(fd, s); }
// time
W(int, clock_nanosleep, clockid_t, int fl, const struct timespec *t, struct timespec *) { if (fl & TIMER_ABSTIME) violation("harness", "absolute sleeps are not simulated"); return __wrap_nanosleep(t, nullptr); }
// threads
W(int, sched_yield, void) { yield_sync("sched_yield"); return 0; }
W(int, pthread_yield, void) { yield_sync("sched_yield"); return 0; }
W(int, pthread_setname_np, pthread_t, const char *) { return 0; }
W(int, pthread_kill, pthread_t, int) { return 0; }
W(int, pthread_spin_init, pthread_spinlock_t *l, int) { *(volatile int *)l = 0; return 0; }
W(int, pthread_spin_destroy, pthread_spinlock_t *) { return 0; }
static std::unordered_map<void *, WaitQ> wq;
W(int, pthread_spin_lock, pthread_spinlock_t *l) { yield_sync("spin_lock"); while (*(volatile int *)l) wait(wq[(void *)l], NEVER, "spinlock"); *(volatile int *)l = 1; return 0; }
W(int, pthread_spin_trylock, pthread_spinlock_t *l) { yield_sync("spin_lock"); if (*(volatile int *)l) return EBUSY; *(volatile int *)l = 1; return 0; }
W(int, pthread_spin_unlock, pthread_spinlock_t *l) { *(volatile int *)l = 0; wake_all(wq[(void *)l]); yield_sync("spin_unlock"); return 0; }
W(int, sem_init, sem_t *s, int, unsigned v) { *(volatile unsigned *)s = v; return 0; }
W(int, sem_destroy, sem_t *) { return 0; }
W(int, sem_post, sem_t *s) { ++*(volatile unsigned *)s; wake_all(wq[(void *)s]); yield_sync("sem_post"); return 0; }
W(int, sem_wait, sem_t *s) { yield_sync("sem_wait"); while (!*(volatile unsigned *)s) wait(wq[(void *)s], NEVER, "semaphore"); --*(volatile unsigned *)s; return 0; }
W(int, sem_trywait, sem_t *s) { yield_sync("sem_wait"); if (!*(volatile unsigned *)s) return bad(EAGAIN); --*(volatile unsigned *)s; return 0; }
W(int, pthread_mutex_timedlock, pthread_mutex_t *m, const struct timespec *t) { Time dl = (Time)((int64_t)(t->tv_sec - (time_t)EPOCH) * (int64_t)SEC + t->tv_nsec - real_skew); for (;;) { int r = __wrap_pthread_mutex_trylock(m); if (r != EBUSY) return r; if (now() >= dl) return ETIMEDOUT; sleep_for(1 * MS); } }
W(int, pthread_cond_clockwait, pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (k == CLOCK_REALTIME) return __wrap_pthread_cond_timedwait(c, m, t); struct timespec u = *t; u.tv_sec += EPOCH; int64_t skew = real_skew; u.tv_sec += skew / (int64_t)SEC; return __wrap_pthread_cond_timedwait(c, m, &u); }
