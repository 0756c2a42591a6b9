// Programs that are run to completion: exit, abort, stdio over the simulated disk, file locks, and being killed at any system call.
#include "proc.h"
#include "core.h"
#include <map>
#include <algorithm>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/file.h>
#define W(ret, name, ...) extern "C" ret __wrap_##name(__VA_ARGS__)
extern "C" int __wrap_open(const char *, int, ...); extern "C" int __wrap_close(int); extern "C" ssize_t __wrap_read(int, void *, size_t); extern "C" ssize_t __wrap_write(int, const void *, size_t); extern "C" off_t __wrap_lseek(int, off_t, int);
extern "C" void *__wrap_malloc(size_t);
namespace sim { namespace proc {
static std::map<int, P *> by;
P *cur() { if (by.empty()) return nullptr; auto i = by.find(fiber_id(current())); return i == by.end() ? nullptr : i->second; }
static std::map<FILE *, int> fdof;
struct Lock { std::weak_ptr<FdObj> o; }; static std::map<Inode *, Lock> locks;
void end(int rc) {
  P *p = cur(); auto fs = p->files; for (auto f : fs) { fdof.erase(f); fclose(f); } // what exit() does
  for (int fd : p->fds) __wrap_close(fd); p->files.clear(); p->fds.clear();
  p->rc = rc; p->done = true; by.erase(fiber_id(current())); tracef("%s ends: %d", p->name.c_str(), rc); poke(); fiber_exit(); __builtin_unreachable();
}
void syscall_point() {
  P *p = cur(); if (!p) return; p->calls++;
  if (p->die_at >= 0 && p->calls > p->die_at) {
    count("fault.killed"); tracef("%s is killed at its call %d", p->name.c_str(), p->calls); p->killed = true; p->rc = 137; p->done = true; auto fds = p->fds; by.erase(fiber_id(current()));
    for (int fd : fds) __wrap_close(fd); // what is in the buffers is lost
    poke(); fiber_exit();
  }
}
P *start(int (*m)(int, char **), const std::vector<std::string> &args, int die_at) {
  P *p = new P; p->name = args[0]; p->args = args; p->die_at = die_at;
  p->f = spawn(args[0], [p, m] {
    by[fiber_id(current())] = p; std::vector<char *> av; auto *keep = new std::vector<std::string>(p->args); for (auto &a : *keep) av.push_back(&a[0]); av.push_back(nullptr); auto *v = new std::vector<char *>(av);
    end(m((int)p->args.size(), v->data()));
  }, false);
  return p;
}
static void gone(int fd) { if (P *p = cur()) p->fds.erase(std::remove(p->fds.begin(), p->fds.end(), fd), p->fds.end()); }
static ssize_t c_read(void *c, char *b, size_t n) { syscall_point(); return __wrap_read((int)(long)c, b, n); }
static ssize_t c_write(void *c, const char *b, size_t n) { size_t k = 0; while (k < n) { syscall_point(); ssize_t w = __wrap_write((int)(long)c, b + k, n - k); if (w <= 0) return 0; k += w; } return k; } // as libc, until it is all written
static int c_seek(void *c, off64_t *o, int w) { off_t r = __wrap_lseek((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int c_close(void *c) { syscall_point(); gone((int)(long)c); return __wrap_close((int)(long)c); }
FILE *open_fd(int fd, const char *m) { cookie_io_functions_t io = {c_read, c_write, c_seek, c_close}; FILE *f = fopencookie((void *)(long)fd, m, io); fdof[f] = fd; if (P *p = cur()) { p->files.push_back(f); if (std::find(p->fds.begin(), p->fds.end(), fd) == p->fds.end()) p->fds.push_back(fd); } return f; }
FILE *open_file(const char *path, const char *m) {
  syscall_point(); int fl = m[0] == 'r' ? 0 : O_CREAT | (m[0] == 'w' ? O_TRUNC : m[0] == 'x' ? O_EXCL : O_APPEND); fl |= strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY; if (strchr(m, 'x')) fl |= O_EXCL;
  int fd = __wrap_open(path, fl, 0666); return fd < 0 ? nullptr : open_fd(fd, m);
}
void closed(int fd) { gone(fd); }
void opened(int fd) { if (P *p = cur()) if (fd >= 0) p->fds.push_back(fd); }
}}
using namespace sim;
W(void, abort) { if (proc::cur()) { tracef("abort"); proc::P *p = proc::cur(); p->files.clear(); proc::end(134); } violation("abort", "the server called abort()"); }
W(void, exit, int c) { if (proc::cur()) proc::end(c); violation("exit", "the server called exit(%d)", c); }
W(int, fclose, FILE *f) { proc::fdof.erase(f); if (auto p = proc::cur()) p->files.erase(std::remove(p->files.begin(), p->files.end(), f), p->files.end()); return fclose(f); }
W(FILE *, fdopen, int fd, const char *m) { return proc::open_fd(fd, m); }
W(int, fileno, FILE *f) { auto i = proc::fdof.find(f); return i == proc::fdof.end() ? fileno(f) : i->second; }
W(int, flock, int fd, int op) {
  yield_sync("flock"); proc::syscall_point(); auto o = fd_get(fd); auto f = std::dynamic_pointer_cast<FileObj>(o); if (!f) { errno = EBADF; return -1; }
  auto &l = proc::locks[f->ino.get()]; auto mine = [&] { auto h = l.o.lock(); return !h || h == o; };
  if (op & LOCK_UN) { if (mine()) l.o.reset(); return 0; }
  if (op & LOCK_NB) { if (!mine()) { errno = EWOULDBLOCK; return -1; } }
  else while (!mine()) { count("proc.lock_wait"); sleep_for(500 * US); }
  l.o = o; return 0;
}
