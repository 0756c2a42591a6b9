// pthreads on fibers. Lock state lives inside the caller's objects so that static initialisers work.
#include "sys.h"
#include <pthread.h>
#include <signal.h>
#include <errno.h>
#include <string.h>
#include <unordered_map>
#include <semaphore.h>
#include <unordered_set>

namespace sim {
struct SimMutex { int owner; int count; int pad[2]; int kind; };        // kind at offset 16 as in glibc
struct SimRw { int writer; int readers; int holders_tag; };
static std::unordered_map<void *, WaitQ> qs;
static WaitQ &q(void *p) { return qs[p]; }
struct Thr { Fiber *f; void *ret = nullptr; bool detached = false, joined = false; };
static std::vector<Thr> thr;      // index+1 = pthread_t
static std::unordered_map<int, size_t> by_fiber;
static int self() { return fiber_id(current()) + 1; }
uint64_t lock_ops;
static void touch(void *p, size_t n, const char *w) { if (is_poisoned(p, n)) violation("memory-error", "%s on freed or invalid lock object", w); }

static std::unordered_set<SimMutex *> held;   // so that the locks of a dead process can be forgotten
static std::unordered_set<pthread_rwlock_t *> held_rw;
void forget_locks() { for (auto l : held_rw) if (!is_poisoned(l, sizeof *l)) memset(l, 0, sizeof *l); held_rw.clear(); for (auto m : held) if (!is_poisoned(m, sizeof *m)) { m->owner = 0; m->count = 0; } held.clear(); }
static int m_lock(SimMutex *m, Time deadline) {
  yield_sync("mutex_lock");
  for (;;) {
    touch(m, sizeof *m, "mutex lock");
    if (m->owner == 0) { m->owner = self(); m->count = 1; held.insert(m); mix(0x6100); return 0; }
    if (m->owner == self() && m->kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
    if (m->owner == self() && m->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    count("sched.lock_contended");
    if (!wait(q(m), deadline, "mutex")) return ETIMEDOUT;
  }
}
static int m_unlock(SimMutex *m) {
  touch(m, sizeof *m, "mutex unlock");
  if (m->owner != self()) { if (m->kind == PTHREAD_MUTEX_RECURSIVE || m->kind == PTHREAD_MUTEX_ERRORCHECK) return EPERM; }
  if (--m->count > 0) return 0;
  m->owner = 0; m->count = 0; held.erase(m);
  auto it = qs.find(m); if (it != qs.end()) wake_all(it->second);
  yield_sync("mutex_unlock");
  return 0;
}
}
using namespace sim;
#define W(ret, name, ...) extern "C" ret __wrap_##name(__VA_ARGS__)

W(int, pthread_mutex_init, pthread_mutex_t *m, const pthread_mutexattr_t *a) { check_mem(m, sizeof *m, "mutex init"); memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); ((SimMutex *)m)->kind = k; } return 0; }
W(int, pthread_mutex_destroy, pthread_mutex_t *m) { touch(m, sizeof *m, "mutex destroy"); held.erase((SimMutex *)m); return 0; }
W(int, pthread_mutex_lock, pthread_mutex_t *m) { return m_lock((SimMutex *)m, NEVER); }
W(int, pthread_mutex_trylock, pthread_mutex_t *m_) { yield_sync("trylock"); SimMutex *m = (SimMutex *)m_; touch(m, sizeof *m, "trylock"); if (m->owner == 0) { m->owner = self(); m->count = 1; held.insert((SimMutex *)m); return 0; } if (m->owner == self() && m->kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; } return EBUSY; }
W(int, pthread_mutex_unlock, pthread_mutex_t *m) { return m_unlock((SimMutex *)m); }

// readers preferred, like glibc's default
W(int, pthread_rwlock_init, pthread_rwlock_t *l, const pthread_rwlockattr_t *) { check_mem(l, sizeof *l, "rwlock init"); memset(l, 0, sizeof *l); return 0; }
W(int, pthread_rwlock_destroy, pthread_rwlock_t *l) { touch(l, sizeof *l, "rwlock destroy"); held_rw.erase(l); return 0; }
static int rd(SimRw *l, bool tr) { yield_sync("rdlock"); for (;;) { touch(l, sizeof *l, "rwlock"); if (!l->writer) { l->readers++; held_rw.insert((pthread_rwlock_t *)l); return 0; } if (l->writer == self()) return EDEADLK; if (tr) return EBUSY; count("sched.lock_contended"); wait(q(l), NEVER, "rwlock-rd"); } }
static int wr(SimRw *l, bool tr) { yield_sync("wrlock"); for (;;) { touch(l, sizeof *l, "rwlock"); if (!l->writer && !l->readers) { l->writer = self(); held_rw.insert((pthread_rwlock_t *)l); return 0; } if (l->writer == self()) return EDEADLK; if (tr) return EBUSY; count("sched.lock_contended"); wait(q(l), NEVER, "rwlock-wr"); } }
W(int, pthread_rwlock_rdlock, pthread_rwlock_t *l) { return rd((SimRw *)l, false); }
W(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *l) { return rd((SimRw *)l, true); }
W(int, pthread_rwlock_wrlock, pthread_rwlock_t *l) { return wr((SimRw *)l, false); }
W(int, pthread_rwlock_trywrlock, pthread_rwlock_t *l) { return wr((SimRw *)l, true); }
W(int, pthread_rwlock_unlock, pthread_rwlock_t *l_) { SimRw *l = (SimRw *)l_; touch(l, sizeof *l, "rwlock unlock"); if (l->writer) l->writer = 0; else if (l->readers > 0) l->readers--; if (!l->readers) held_rw.erase(l_); auto it = qs.find(l); if (it != qs.end()) wake_all(it->second); yield_sync("rwunlock"); return 0; }

W(int, pthread_cond_init, pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
W(int, pthread_cond_destroy, pthread_cond_t *) { return 0; }
W(int, pthread_cond_wait, pthread_cond_t *c, pthread_mutex_t *m) { SimMutex *mm = (SimMutex *)m; int cnt = mm->count; mm->count = 1; mm->owner = 0; mm->count = 0; wake_all(q(m)); wait(q(c), NEVER, "cond"); int r = m_lock(mm, NEVER); mm->count = cnt; return r; }
W(int, pthread_cond_timedwait, pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { Time dl = (Time)((int64_t)(t->tv_sec - (time_t)EPOCH) * (int64_t)SEC + t->tv_nsec - real_skew); SimMutex *mm = (SimMutex *)m; mm->owner = 0; mm->count = 0; wake_all(q(m)); bool ok = wait(q(c), dl, "cond"); m_lock(mm, NEVER); return ok ? 0 : ETIMEDOUT; }
W(int, pthread_cond_signal, pthread_cond_t *c) { wake_one(q(c)); yield_sync("cond_signal"); return 0; }
W(int, pthread_cond_broadcast, pthread_cond_t *c) { wake_all(q(c)); yield_sync("cond_bcast"); return 0; }

W(int, pthread_once, pthread_once_t *o, void (*f)(void)) { yield_sync("once"); int *p = (int *)o; while (*p == 1) wait(q(o), NEVER, "once"); if (*p == 2) return 0; *p = 1; f(); *p = 2; wake_all(q(o)); return 0; }

W(int, pthread_create, pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  yield_sync("pthread_create");
  if (fault("thread_create_fail")) return EAGAIN;
  size_t idx = thr.size(); thr.push_back(Thr()); 
  Fiber *f = spawn("T" + std::to_string(idx + 1), [fn, arg, idx] { void *r = fn(arg); thr[idx].ret = r; }, true);
  thr[idx].f = f; by_fiber[fiber_id(f)] = idx;
  *t = (pthread_t)(idx + 1);
  yield_sync("pthread_create_done");
  return 0;
}
W(int, pthread_join, pthread_t t, void **r) { yield_sync("pthread_join"); size_t i = (size_t)t - 1; if (i >= thr.size()) { count("sys.join_esrch"); return ESRCH; } if (thr[i].joined || thr[i].detached) return EINVAL; if (thr[i].f == current()) return EDEADLK; join(thr[i].f); thr[i].joined = true; if (r) *r = thr[i].ret; return 0; }
W(int, pthread_detach, pthread_t t) { size_t i = (size_t)t - 1; if (i >= thr.size()) return ESRCH; thr[i].detached = true; return 0; }
W(pthread_t, pthread_self, void) { auto it = by_fiber.find(fiber_id(current())); return it == by_fiber.end() ? (pthread_t)0x10000 + fiber_id(current()) : (pthread_t)(it->second + 1); }
W(void, pthread_exit, void *r) { auto it = by_fiber.find(fiber_id(current())); if (it != by_fiber.end()) thr[it->second].ret = r; fiber_exit(); __builtin_unreachable(); }
W(int, pthread_cancel, pthread_t) { violation("pthread_cancel", "pthread_cancel is not expected"); }
W(int, pthread_sigmask, int, const sigset_t *, sigset_t *) { return 0; }
W(int, sigprocmask, int, const sigset_t *, sigset_t *) { return 0; }
namespace sim {
int threads_alive() { int n = 0; for (auto &t : thr) if (!fiber_done(t.f)) n++; return n; }
int threads_created() { return thr.size(); }
int threads_unjoined() { int n = 0; for (auto &t : thr) if (!t.joined && !t.detached) n++; return n; }
Fiber *thread_fiber(size_t i) { return i < thr.size() ? thr[i].f : nullptr; }
}
