// In-memory file system. Nothing the code under test does can reach the real one.
#include "sys.h"
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/statvfs.h>

namespace sim {
namespace fs {
static InoP root; static int nextino = 2;
std::vector<std::pair<std::string, std::string>> mutations;
std::function<void(const char *, const std::string &, int)> op_hook;
std::function<void(const char *, const std::string &)> mut_hook;
long disk_left = -1;
std::set<std::string> foreign_dev;

static InoP mk(mode_t m) { auto i = std::make_shared<Inode>(); i->ino = nextino++; i->mode = m; return i; }
void reset() { root = mk(S_IFDIR | 0755); root->ent["tmp"] = mk(S_IFDIR | 0777); mutations.clear(); op_hook = nullptr; mut_hook = nullptr; disk_left = -1; foreign_dev.clear(); }

static std::vector<std::string> split(const std::string &p) {
  std::vector<std::string> v; size_t i = 0;
  while (i < p.size()) { while (i < p.size() && p[i] == '/') i++; size_t j = i; while (j < p.size() && p[j] != '/') j++; if (j > i) v.push_back(p.substr(i, j - i)); i = j; }
  return v;
}
// Resolves to (parent, name, inode-or-null, canonical path).
struct Res { InoP parent, ino; std::string name, canon; int err = 0; };
static Res resolve(const std::string &path, bool follow, int depth = 0) {
  Res r;
  if (path.empty()) { r.err = ENOENT; return r; }
  if (path.size() >= PATH_MAX) { r.err = ENAMETOOLONG; return r; }
  if (depth > 20) { r.err = ELOOP; return r; }
  std::vector<std::string> comps = split(path);
  bool trail = path.size() > 1 && path.back() == '/';
  std::vector<std::pair<std::string, InoP>> st; // stack of (name, dir)
  st.push_back({"", root});
  auto canon = [&]() { std::string c; for (size_t i = 1; i < st.size(); i++) c += "/" + st[i].first; return c.empty() ? std::string("/") : c; };
  for (size_t i = 0; i < comps.size(); i++) {
    InoP cur = st.back().second;
    if (!cur->is_dir()) { r.err = ENOTDIR; return r; }
    const std::string &c = comps[i];
    if (c.size() > 255) { r.err = ENAMETOOLONG; return r; }
    if (c == ".") continue;
    if (c == "..") { if (st.size() > 1) st.pop_back(); continue; }
    bool last = i + 1 == comps.size();
    auto it = cur->ent.find(c);
    if (it == cur->ent.end()) {
      if (last) { r.parent = cur; r.name = c; std::string d = canon(); r.canon = (d == "/" ? "" : d) + "/" + c; r.err = ENOENT; return r; }
      r.err = ENOENT; return r;
    }
    InoP n = it->second;
    if (n->is_lnk() && (!last || follow || trail)) {
      std::string t = n->link; std::string base = canon();
      std::string np = (t.size() && t[0] == '/') ? t : (base == "/" ? "" : base) + "/" + t;
      for (size_t j = i + 1; j < comps.size(); j++) np += "/" + comps[j];
      if (trail) np += "/";
      return resolve(np, follow, depth + 1);
    }
    if (last) { r.parent = cur; r.name = c; }
    st.push_back({c, n});
  }
  r.ino = st.back().second; r.canon = canon();
  if (trail && !r.ino->is_dir()) { r.err = ENOTDIR; r.ino = nullptr; }
  if (!r.parent && st.size() >= 2) { r.parent = st[st.size() - 2].second; r.name = st.back().first; }
  return r;
}
InoP lookup(const std::string &p, bool follow, int *err) { Res r = resolve(p, follow); if (err) *err = r.err; return r.ino; }
static InoP ensure_dir(const std::string &p) { InoP d = root; for (auto &c : split(p)) { auto &e = d->ent[c]; if (!e) e = mk(S_IFDIR | 0755); d = e; } return d; }
static std::string dirn(const std::string &p) { size_t k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }
static std::string basen(const std::string &p) { return p.substr(p.rfind('/') + 1); }
InoP put_file(const std::string &p, const std::string &d, mode_t m) { InoP dir = ensure_dir(dirn(p)); auto i = mk(S_IFREG | m); i->data = d; auto &e = dir->ent[basen(p)]; if (e) i->uid = e->uid; e = i; return i; }
InoP put_dir(const std::string &p, mode_t m) { auto d = ensure_dir(p); d->mode = S_IFDIR | m; return d; }
InoP put_link(const std::string &p, const std::string &t) { InoP dir = ensure_dir(dirn(p)); auto i = mk(S_IFLNK | 0777); i->link = t; dir->ent[basen(p)] = i; return i; }
bool remove_path(const std::string &p) { Res r = resolve(p, false); if (!r.ino || !r.parent) return false; r.parent->ent.erase(r.name); return true; }
std::string real(const std::string &p, int *err) { Res r = resolve(p, true); if (err) *err = r.err; return r.ino ? r.canon : ""; }
static void walk(const std::string &p, InoP d, std::vector<std::string> &o) { for (auto &e : d->ent) { std::string q = p + "/" + e.first; if (e.second->is_dir()) { o.push_back(q + "/"); walk(q, e.second, o); } else o.push_back(q); } }
std::vector<std::string> list(const std::string &p) { std::vector<std::string> o; InoP d = lookup(p); if (d && d->is_dir()) walk(p == "/" ? "" : p, d, o); return o; }
static bool foreign(const std::string &p) { for (auto &f : foreign_dev) if (p.compare(0, f.size(), f) == 0) return true; return false; }
static void mut(const char *op, const std::string &p) { mutations.push_back({op, p}); tracef("fs %s %s", op, p.c_str()); if (mut_hook) mut_hook(op, p); }
} // fs

static int bad(int e) { errno = e; return -1; }
static time_t wall() { return EPOCH + ((int64_t)now() + real_skew) / (int64_t)SEC; }
struct SimDir { std::vector<std::pair<std::string, InoP>> v; size_t i; struct dirent de; };
static int dirs_open;
int open_dirs() { return dirs_open; }

static int do_open(const char *path, int flags, mode_t mode) {
  yield_sync("open");
  check_mem(path, 1, "open() path");
  if (fs::op_hook) fs::op_hook("open", path, -1);
  auto r = fs::resolve(path, !(flags & O_NOFOLLOW));
  if (!r.ino) {
    if (r.err != ENOENT || !(flags & O_CREAT) || !r.parent) return bad(r.err ? r.err : ENOENT);
    if (fault("disk_open_fail")) return bad(ENOSPC);
    r.ino = fs::mk(S_IFREG | (mode & 0777)); r.parent->ent[r.name] = r.ino; r.ino->mtime = wall();
    fs::mut("create", r.canon);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return bad(EEXIST);
    if (r.ino->is_lnk()) return bad(ELOOP);
    if (r.ino->is_dir() && (flags & O_ACCMODE) != O_RDONLY) return bad(EISDIR);
    if ((flags & O_DIRECTORY) && !r.ino->is_dir()) return bad(ENOTDIR);
    if ((flags & O_ACCMODE) != O_WRONLY && !(r.ino->mode & 0444)) return bad(EACCES);
    if (fault("disk_open_eio")) return bad(EIO);
  }
  auto f = std::make_shared<FileObj>(); f->ino = r.ino; f->flags = flags; f->path = r.canon;
  int fd = fd_alloc(f);
  if (fd < 0) return -1;
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { r.ino->data.clear(); fs::mut("truncate", r.canon); }
  tracef("open %s -> %d", path, fd);
  return fd;
}
static void fill(struct stat *s, InoP i) {
  memset(s, 0, sizeof *s); s->st_ino = i->ino; s->st_mode = i->mode; s->st_size = i->is_reg() ? i->data.size() : i->is_lnk() ? i->link.size() : 4096; s->st_nlink = i->nlink; s->st_uid = i->uid; s->st_mtime = s->st_ctime = s->st_atime = i->mtime; s->st_dev = i->dev; s->st_blksize = 4096;
}
} // sim
using namespace sim;
#define W(ret, name, ...) extern "C" ret __wrap_##name(__VA_ARGS__)

namespace sim { namespace proc { struct P; P *cur(); FILE *open_file(const char *, const char *); void opened(int); void syscall_point(); }}
W(int, open, const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } proc::syscall_point(); int r = do_open(p, fl, m); proc::opened(r); return r; }
W(int, open64, const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } return do_open(p, fl, m); }
W(int, openat, int dfd, const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } if (p[0] != '/' && dfd != AT_FDCWD) { auto f = std::dynamic_pointer_cast<FileObj>(fd_get(dfd)); if (!f) return bad(EBADF); return do_open((f->path + "/" + p).c_str(), fl, m); } return do_open(p, fl, m); }
W(int, creat, const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int do_mkstemp(char *t) {
  size_t l = strlen(t); if (l < 6 || strcmp(t + l - 6, "XXXXXX")) return bad(EINVAL);
  if (fault("mkstemp_fail")) return bad(ENOSPC);
  static int n; static const char cs[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  for (;;) {
    int k = n++; uint32_t h = k * 2654435761u;
    for (int i = 0; i < 6; i++) { t[l - 6 + i] = cs[(h ^ (k >> i)) % 36]; h /= 36; h += k; }
    int fd = do_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd >= 0 || errno != EEXIST) { if (fd >= 0) { count("fs.mkstemp"); } return fd; }
  }
}
W(int, mkstemp, char *t) { return do_mkstemp(t); }
W(int, mkostemp, char *t, int) { return do_mkstemp(t); }
W(off_t, lseek, int fd, off_t o, int wh) {
  auto f = std::dynamic_pointer_cast<FileObj>(fd_get(fd)); if (!f) return bad(fd_get(fd) ? ESPIPE : EBADF);
  off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)f->pos : (off_t)f->ino->data.size();
  if (b + o < 0) return bad(EINVAL); f->pos = b + o; return f->pos;
}
W(int, ftruncate, int fd, off_t n) { auto f = std::dynamic_pointer_cast<FileObj>(fd_get(fd)); if (!f) return bad(EBADF); f->ino->data.resize(n); return 0; }
W(int, fsync, int fd) { return fd_get(fd) ? 0 : bad(EBADF); }
W(int, fdatasync, int fd) { return fd_get(fd) ? 0 : bad(EBADF); }
W(int, stat, const char *p, struct stat *s) { yield_sync("stat"); if (fs::op_hook) fs::op_hook("stat", p, -1); auto r = fs::resolve(p, true); if (!r.ino) return bad(r.err); fill(s, r.ino); return 0; }
W(int, lstat, const char *p, struct stat *s) { yield_sync("lstat"); auto r = fs::resolve(p, false); if (!r.ino) return bad(r.err); fill(s, r.ino); return 0; }
W(int, fstat, int fd, struct stat *s) { yield_sync("fstat"); FdP o = fd_get(fd); if (!o) return bad(EBADF); auto f = dynamic_cast<FileObj *>(o.get()); if (!f) { memset(s, 0, sizeof *s); s->st_mode = S_IFSOCK | 0600; return 0; } fill(s, f->ino); return 0; }
W(int, access, const char *p, int m) { yield_sync("access"); auto r = fs::resolve(p, true); if (!r.ino) return bad(r.err); if ((m & R_OK) && !(r.ino->mode & 0444)) return bad(EACCES); if ((m & W_OK) && !(r.ino->mode & 0222)) return bad(EACCES); return 0; }
W(char *, realpath, const char *p, char *out) {
  yield_sync("realpath");
  if (!p) { errno = EINVAL; return nullptr; }
  if (fs::op_hook) fs::op_hook("realpath", p, -1);
  auto r = fs::resolve(p, true); if (!r.ino) { errno = r.err; return nullptr; }
  extern char *sim_user_strdup(const char *);
  if (!out) return sim_user_strdup(r.canon.c_str());
  check_mem(out, r.canon.size() + 1, "realpath() buffer");
  strcpy(out, r.canon.c_str()); return out;
}
W(int, mkdir, const char *p, mode_t m) { yield_sync("mkdir"); auto r = fs::resolve(p, false); if (r.ino) return bad(EEXIST); if (r.err != ENOENT || !r.parent) { std::string q = p; while (q.size() > 1 && q.back() == '/') q.pop_back(); r = fs::resolve(q, false); if (r.ino) return bad(EEXIST); if (r.err != ENOENT || !r.parent) return bad(r.err); } if (fault("disk_mkdir_fail")) return bad(ENOSPC); r.ino = fs::mk(S_IFDIR | (m & 0777)); r.parent->ent[r.name] = r.ino; fs::mut("mkdir", r.canon); return 0; }
static int do_unlink(const char *p, bool dir, bool any) {
  auto r = fs::resolve(p, false); if (!r.ino) return bad(r.err);
  if (!r.parent) return bad(EBUSY);
  if (r.ino->is_dir()) { if (!dir && !any) return bad(EISDIR); if (!r.ino->ent.empty()) return bad(ENOTEMPTY); }
  else if (dir && !any) return bad(ENOTDIR);
  if (fault("disk_unlink_fail")) return bad(EACCES);
  fs::mut("unlink", r.canon); r.parent->ent.erase(r.name); poke(); return 0;
}
W(int, unlink, const char *p) { yield_sync("unlink"); proc::syscall_point(); return do_unlink(p, false, false); }
W(int, rmdir, const char *p) { yield_sync("rmdir"); return do_unlink(p, true, false); }
W(int, remove, const char *p) { yield_sync("remove"); return do_unlink(p, false, true); }
W(int, rename, const char *a, const char *b) {
  yield_sync("rename"); proc::syscall_point();
  if (fs::op_hook) fs::op_hook("rename", std::string(a) + " -> " + b, -1);
  auto r = fs::resolve(a, false); if (!r.ino) return bad(r.err);
  auto d = fs::resolve(b, false);
  if (!d.ino && (d.err != ENOENT || !d.parent)) return bad(d.err);
  if (fs::foreign(r.canon) != fs::foreign(d.canon)) { count("fault.rename_exdev"); return bad(EXDEV); }
  if (fault("rename_fail")) return bad(EACCES);
  if (d.ino == r.ino) return 0;
  if (d.ino) { if (d.ino->is_dir() && !r.ino->is_dir()) return bad(EISDIR); if (!d.ino->is_dir() && r.ino->is_dir()) return bad(ENOTDIR); if (d.ino->is_dir() && !d.ino->ent.empty()) return bad(ENOTEMPTY); }
  if (r.ino->is_dir() && d.canon.compare(0, r.canon.size() + 1, r.canon + "/") == 0) return bad(EINVAL);
  InoP i = r.ino; r.parent->ent.erase(r.name); d.parent->ent[d.name] = i;
  fs::mut("rename-from", r.canon); fs::mut("rename-to", d.canon); return 0;
}
W(int, chmod, const char *p, mode_t m) { yield_sync("chmod"); auto r = fs::resolve(p, true); if (!r.ino) return bad(r.err); if (fault("chmod_fail")) return bad(EPERM); r.ino->mode = (r.ino->mode & S_IFMT) | (m & 0777); fs::mut("chmod", r.canon); return 0; }
W(int, fchmod, int fd, mode_t m) { auto f = std::dynamic_pointer_cast<FileObj>(fd_get(fd)); if (!f) return bad(EBADF); f->ino->mode = (f->ino->mode & S_IFMT) | (m & 0777); return 0; }
W(int, link, const char *a, const char *b) { auto r = fs::resolve(a, false); if (!r.ino) return bad(r.err); auto d = fs::resolve(b, false); if (d.ino) return bad(EEXIST); if (!d.parent) return bad(d.err); d.parent->ent[d.name] = r.ino; fs::mut("link", d.canon); return 0; }
W(int, symlink, const char *a, const char *b) { auto d = fs::resolve(b, false); if (d.ino) return bad(EEXIST); if (!d.parent) return bad(d.err); auto i = fs::mk(S_IFLNK | 0777); i->link = a; d.parent->ent[d.name] = i; fs::mut("symlink", d.canon); return 0; }
W(ssize_t, readlink, const char *p, char *b, size_t n) { auto r = fs::resolve(p, false); if (!r.ino) return bad(r.err); if (!r.ino->is_lnk()) return bad(EINVAL); size_t k = std::min(n, r.ino->link.size()); memcpy(b, r.ino->link.data(), k); return k; }
W(char *, getcwd, char *b, size_t n) { if (n < 2) { errno = ERANGE; return nullptr; } strcpy(b, "/"); return b; }
W(DIR *, opendir, const char *p) { yield_sync("opendir"); if (fs::op_hook) fs::op_hook("opendir", p, -1); auto r = fs::resolve(p, true); if (!r.ino) { errno = r.err; return nullptr; } if (!r.ino->is_dir()) { errno = ENOTDIR; return nullptr; } if (fault("opendir_fail")) { errno = EMFILE; return nullptr; } auto d = new SimDir; d->i = 0; d->v.push_back({".", r.ino}); d->v.push_back({"..", r.ino}); for (auto &e : r.ino->ent) d->v.push_back(e); dirs_open++; return (DIR *)d; }
W(struct dirent *, readdir, DIR *dd) { yield_sync("readdir"); auto d = (SimDir *)dd; if (d->i >= d->v.size()) return nullptr; auto &e = d->v[d->i++]; memset(&d->de, 0, sizeof d->de); snprintf(d->de.d_name, sizeof d->de.d_name, "%s", e.first.c_str()); d->de.d_ino = e.second->ino; d->de.d_type = e.second->is_dir() ? DT_DIR : e.second->is_lnk() ? DT_LNK : DT_REG; return &d->de; }
W(int, closedir, DIR *dd) { dirs_open--; delete (SimDir *)dd; return 0; }
W(FILE *, fopen, const char *p, const char *m) {
  if (proc::cur()) return proc::open_file(p, m);
  yield_sync("fopen");
  auto i = fs::lookup(p); if (!i || strchr(m, 'w') || strchr(m, 'a')) { errno = ENOENT; return nullptr; }
  static std::vector<std::shared_ptr<std::string>> keep; keep.push_back(std::make_shared<std::string>(i->data));
  return fmemopen(&(*keep.back())[0], keep.back()->size() ? keep.back()->size() : 1, "r");
}
