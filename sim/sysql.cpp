#include "sysql.h"
#include "stubs.h"
#include "sys.h"
#include <sqlite3.h>
#include <string.h>
#include <memory>
using namespace sim;
namespace {
struct Op { bool trunc; size_t off; std::string data; };
struct DFile { std::string vol, dur; bool dur_exists = false, exists = true; std::vector<Op> pend; int shared = 0; void *reserved = nullptr; void *pending = nullptr; void *excl = nullptr; };
typedef std::shared_ptr<DFile> DP;
std::map<std::string, DP> disk;
struct H { sqlite3_file base; DP *f; int lock; bool del; std::string *path; };
uint64_t gen;
void op(const char *w) { sqldisk::ops++; yield_sync(w); if (sqldisk::op_hook) sqldisk::op_hook(w); }
void apply(std::string &s, const Op &o, size_t n) { if (o.trunc) { s.resize(o.off); return; } if (s.size() < o.off + n) s.resize(o.off + n); memcpy(&s[o.off], o.data.data(), n); }
int xClose(sqlite3_file *p) { H *h = (H *)p; DFile &f = **h->f; if (h->lock > 0) { f.shared--; if (f.reserved == h) f.reserved = nullptr; if (f.pending == h) f.pending = nullptr; if (f.excl == h) f.excl = nullptr; } if (h->del) disk.erase(*h->path); delete h->f; delete h->path; return SQLITE_OK; }
int xRead(sqlite3_file *p, void *b, int n, sqlite3_int64 off) { H *h = (H *)p; op("sql-read"); if (fault("sql_read_eio")) return SQLITE_IOERR_READ; DFile &f = **h->f; memset(b, 0, n); if ((size_t)off < f.vol.size()) memcpy(b, f.vol.data() + off, std::min<size_t>(n, f.vol.size() - off)); return (size_t)off + n <= f.vol.size() ? SQLITE_OK : SQLITE_IOERR_SHORT_READ; }
int xWrite(sqlite3_file *p, const void *b, int n, sqlite3_int64 off) { H *h = (H *)p; op("sql-write"); if (fault("sql_write_eio")) return SQLITE_IOERR_WRITE; if (fault("sql_full")) return SQLITE_FULL; DFile &f = **h->f; Op o{false, (size_t)off, std::string((const char *)b, n)}; apply(f.vol, o, n); f.pend.push_back(o); return SQLITE_OK; }
int xTruncate(sqlite3_file *p, sqlite3_int64 n) { H *h = (H *)p; op("sql-truncate"); DFile &f = **h->f; Op o{true, (size_t)n, ""}; if (f.vol.size() > (size_t)n) { apply(f.vol, o, 0); f.pend.push_back(o); } return SQLITE_OK; }
int xSync(sqlite3_file *p, int) { H *h = (H *)p; op("sql-sync"); if (fault("sql_sync_eio")) return SQLITE_IOERR_FSYNC; DFile &f = **h->f; f.dur = f.vol; f.dur_exists = f.exists; f.pend.clear(); count("sql.sync"); return SQLITE_OK; }
int xFileSize(sqlite3_file *p, sqlite3_int64 *n) { *n = (*((H *)p)->f)->vol.size(); return SQLITE_OK; }
int xLock(sqlite3_file *p, int l) {
  H *h = (H *)p; DFile &f = **h->f; if (h->lock >= l) return SQLITE_OK;
  if (l == SQLITE_LOCK_SHARED) { if ((f.pending && f.pending != h) || (f.excl && f.excl != h)) return SQLITE_BUSY; f.shared++; h->lock = l; return SQLITE_OK; }
  if (l == SQLITE_LOCK_RESERVED) { if (f.reserved && f.reserved != h) return SQLITE_BUSY; f.reserved = h; h->lock = l; return SQLITE_OK; }
  if (f.pending && f.pending != h) return SQLITE_BUSY; f.pending = h; if (h->lock < SQLITE_LOCK_PENDING) h->lock = SQLITE_LOCK_PENDING;
  if (f.shared > 1) return SQLITE_BUSY; f.excl = h; h->lock = SQLITE_LOCK_EXCLUSIVE; return SQLITE_OK;
}
int xUnlock(sqlite3_file *p, int l) { H *h = (H *)p; DFile &f = **h->f; if (h->lock <= l) return SQLITE_OK; if (f.excl == h) f.excl = nullptr; if (f.pending == h) f.pending = nullptr; if (f.reserved == h) f.reserved = nullptr; if (l == SQLITE_LOCK_NONE) f.shared--; h->lock = l; return SQLITE_OK; }
int xCheck(sqlite3_file *p, int *r) { *r = (*((H *)p)->f)->reserved != nullptr; return SQLITE_OK; }
int xControl(sqlite3_file *, int, void *) { return SQLITE_NOTFOUND; }
int xSector(sqlite3_file *) { return 512; }
int xDevChar(sqlite3_file *) { return SQLITE_IOCAP_POWERSAFE_OVERWRITE; }
// shared memory of a write ahead log: lives as long as somebody has it mapped, and in no crash
struct Shm { std::vector<void *> reg; int users = 0, sh[SQLITE_SHM_NLOCK] = {}; void *ex[SQLITE_SHM_NLOCK] = {}; }; std::map<std::string, Shm> shm; struct ShmH { bool mapped = false; unsigned held = 0; }; std::map<void *, ShmH> shmh;
int xShmMap(sqlite3_file *p, int r, int sz, int ext, void volatile **o) { H *h = (H *)p; Shm &m = shm[*h->path]; if (!shmh[p].mapped) shmh[p].mapped = true, m.users++; *o = nullptr; if ((int)m.reg.size() <= r) { if (!ext) return SQLITE_OK; while ((int)m.reg.size() <= r) m.reg.push_back(calloc(1, sz)); } *o = m.reg[r]; return SQLITE_OK; }
int xShmLock(sqlite3_file *p, int off, int n, int fl) {
  H *h = (H *)p; Shm &m = shm[*h->path]; ShmH &me = shmh[p]; op("sql-shmlock");
  for (int i = off; i < off + n; i++) if (!(fl & SQLITE_SHM_UNLOCK)) { if (fl & SQLITE_SHM_SHARED) { if (m.ex[i] && m.ex[i] != p) return SQLITE_BUSY; } else if ((m.ex[i] && m.ex[i] != p) || m.sh[i] > (int)((me.held >> i) & 1)) return SQLITE_BUSY; }
  for (int i = off; i < off + n; i++) { if (fl & SQLITE_SHM_UNLOCK) { if (m.ex[i] == p) m.ex[i] = nullptr; if (me.held >> i & 1) { m.sh[i]--; me.held &= ~(1u << i); } } else if (fl & SQLITE_SHM_SHARED) { if (!(me.held >> i & 1)) { m.sh[i]++; me.held |= 1u << i; } } else m.ex[i] = p; }
  return SQLITE_OK;
}
void xShmBarrier(sqlite3_file *) {}
int xShmUnmap(sqlite3_file *p, int) { H *h = (H *)p; auto it = shmh.find(p); if (it == shmh.end() || !it->second.mapped) return SQLITE_OK; Shm &m = shm[*h->path]; for (int i = 0; i < SQLITE_SHM_NLOCK; i++) { if (m.ex[i] == p) m.ex[i] = nullptr; if (it->second.held >> i & 1) m.sh[i]--; } shmh.erase(it); if (--m.users == 0) shm.erase(*h->path); return SQLITE_OK; }
const sqlite3_io_methods IO = {2, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xUnlock, xCheck, xControl, xSector, xDevChar, xShmMap, xShmLock, xShmBarrier, xShmUnmap};
int xOpen(sqlite3_vfs *, const char *name, sqlite3_file *p, int fl, int *out) {
  H *h = (H *)p; h->base.pMethods = nullptr; static int anon; std::string n = name ? name : "anon" + std::to_string(++anon);
  op("sql-open"); if (fault("sql_open_fail")) return SQLITE_CANTOPEN;
  auto it = disk.find(n); if (it == disk.end() || !it->second->exists) { if (!(fl & SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN; disk[n] = std::make_shared<DFile>(); }
  h->f = new DP(disk[n]); h->path = new std::string(n); h->lock = 0; h->del = fl & SQLITE_OPEN_DELETEONCLOSE; h->base.pMethods = &IO; if (out) *out = fl; return SQLITE_OK;
}
int xDelete(sqlite3_vfs *, const char *n, int sync) { op("sql-delete"); auto it = disk.find(n); if (it == disk.end() || !it->second->exists) return SQLITE_IOERR_DELETE_NOENT; it->second->exists = it->second->dur_exists = false; (void)sync; return SQLITE_OK; } // removals are durable at once: sqlite's default leaves that to the filesystem, not to its user
int xAccess(sqlite3_vfs *, const char *n, int, int *r) { auto it = disk.find(n); *r = it != disk.end() && it->second->exists; return SQLITE_OK; }
int xFull(sqlite3_vfs *, const char *n, int l, char *o) { snprintf(o, l, "%s", n); return SQLITE_OK; }
int xRand(sqlite3_vfs *, int n, char *o) { rnd_bytes(o, n); return n; }
int xSleep(sqlite3_vfs *, int us) { sleep_for((Time)us * US); return us; }
int xTime(sqlite3_vfs *, double *t) { *t = 2440587.5 + (EPOCH + now() / 1e9) / 86400.0; return SQLITE_OK; }
int xTime64(sqlite3_vfs *, sqlite3_int64 *t) { *t = (sqlite3_int64)(2440587.5 * 86400000.0) + (sqlite3_int64)EPOCH * 1000 + now() / MS; return SQLITE_OK; }
int xErr(sqlite3_vfs *, int, char *) { return 0; }
sqlite3_vfs VFS = {2, sizeof(H), 512, nullptr, "simdisk", nullptr, xOpen, xDelete, xAccess, xFull, nullptr, nullptr, nullptr, nullptr, xRand, xSleep, xTime, xErr, xTime64};
}
namespace sim { namespace sqldisk {
std::function<void(const char *)> op_hook; uint64_t ops;
void install() { static bool done; if (done) return; done = true; sqlite3_config(SQLITE_CONFIG_SINGLETHREAD); sqlite3_initialize(); sqlite3_vfs_register(&VFS, 1); }
void crash_image(bool power) {
  shm.clear(); shmh.clear();
  if (!power) { for (auto i = disk.begin(); i != disk.end();) { if (!i->second->exists) { i = disk.erase(i); continue; } auto n = std::make_shared<DFile>(); n->vol = i->second->vol; n->dur = i->second->dur; n->dur_exists = i->second->dur_exists; n->pend = i->second->pend; i->second = n; ++i; } return; } // killed: the kernel still has every write
  std::map<std::string, DP> nd;
  for (auto &e : disk) {
    DFile &f = *e.second; bool ex = f.dur_exists; if (f.exists != f.dur_exists && choose(S_FAULT, 2)) ex = f.exists; // creation or removal that was not made durable
    if (!ex) continue;
    auto n = std::make_shared<DFile>(); std::string s = f.dur; int style = choose(S_FAULT, 4); // none, all, random subset, prefix
    size_t cut = f.pend.empty() ? 0 : choose(S_FAULT, f.pend.size() + 1), i = 0;
    for (auto &o : f.pend) {
      bool keep = style == 1 || (style == 2 && choose(S_FAULT, 2)) || (style == 3 && i < cut); size_t len = o.data.size();
      if (style == 3 && i == cut && !o.trunc && len > 512) { keep = true; len = 512 * choose(S_FAULT, len / 512); count("fault.torn_write"); }
      if (keep) apply(s, o, len); else count("fault.lost_write"); i++;
    }
    n->vol = n->dur = s; n->dur_exists = n->exists = true; nd[e.first] = n;
  }
  disk = nd; gen++;
}
size_t size(const std::string &p) { auto i = disk.find(p); return i == disk.end() ? 0 : i->second->vol.size(); }
} }
