// P23: memory and threads of the functions an application supplies: everything goes through them, in pairs, and a failure of the allocator is told and final.
#include "http.h"
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <unordered_map>
extern "C" {
#include <onion/low.h>
void *__wrap_malloc(size_t); void __wrap_free(void *); void sim_user_free(void *);
int __wrap_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int __wrap_pthread_join(pthread_t, void **); int __wrap_pthread_detach(pthread_t); int __wrap_pthread_cancel(pthread_t); void __wrap_pthread_exit(void *) __attribute__((noreturn)); int __wrap_pthread_sigmask(int, const sigset_t *, sigset_t *);
}
using namespace sim;

namespace {
struct Head { uint64_t magic; size_t n; uint64_t scalar, pad; };
const uint64_t MAGIC = 0x6f6e696f6e73696dull;
std::unordered_map<void *, size_t> live; uint64_t calls, fail_at, frees; Fiber *failing; size_t failed_size; char failed_what[16];
std::unordered_map<pthread_t, int> thr; int created, ended, creating; std::unordered_map<pthread_t, int> early;

void *get(size_t n, bool scalar, const char *what) {
  calls++; if (failing && failing == current()) violation("memory-after-failure", "a thread asks for memory after an allocation of it failed"); // other threads may, until the failure is told
  if (fail_at && calls == fail_at) { failing = current(); failed_size = n; snprintf(failed_what, sizeof failed_what, "%s", what); count("fault.alloc_fail"); tracef("own %s of %zu bytes fails", what, n); errno = ENOMEM; return nullptr; }
  Head *h = (Head *)__wrap_malloc(sizeof(Head) + n); h->magic = MAGIC; h->n = n; h->scalar = scalar; memset(h + 1, scalar ? 0xA5 : 0x5A, n); live[h + 1] = n; return h + 1;
}
void put(void *p) {
  frees++; auto i = live.find(p); if (i == live.end()) violation("foreign-free", "a block (%p) is given to the application's free that its allocator did not make, or twice", p);
  Head *h = (Head *)p - 1; if (h->magic != MAGIC) violation("memory-error", "the start of a block was overwritten");
  if (h->scalar) for (size_t o = 0; o + sizeof(void *) <= h->n; o += sizeof(void *)) { void *q; memcpy(&q, (char *)p + o, sizeof q); if (q != p && live.count(q)) violation("pointer-in-scalar", "a block asked for as free of pointers has one at offset %zu of %zu", o, h->n); }
  live.erase(i); h->magic = 0; __wrap_free(h);
}
void *o_malloc(size_t n) { return get(n, false, "malloc"); }
void *o_scalar(size_t n) { return get(n, true, "scalar"); }
void *o_calloc(size_t a, size_t b) { void *p = get(a * b, false, "calloc"); if (p) memset(p, 0, a * b); return p; }
char *o_strdup(const char *s) { size_t l = strlen(s) + 1; char *p = (char *)get(l, true, "strdup"); if (p) memcpy(p, s, l); return p; }
void *o_realloc(void *o, size_t n) { if (!o) return get(n, false, "realloc"); auto i = live.find(o); if (i == live.end()) violation("foreign-free", "a block (%p) is given to the application's realloc that its allocator did not make", o); void *p = get(n, ((Head *)o - 1)->scalar, "realloc"); if (!p) return p; memcpy(p, o, std::min(n, i->second)); put(o); return p; }
void o_free(void *p) { if (p) put(p); }
void o_fail(const char *msg) { // the run ends here: the process would
  if (!failing || failing != current()) violation("memory-failure", "a failure of memory is told and there was none: %s", msg);
  evaluated(); op_done(); mix_state(calls); end_run(); _exit(0);
}
int t_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *d) { creating++; int r = __wrap_pthread_create(t, a, f, d); creating--; if (!r) { created++; if (early.count(*t)) early.erase(*t); else thr[*t] = 1; } return r; }
int t_join(pthread_t t, void **r) { auto i = thr.find(t); if (i == thr.end() && (!creating || early.count(t))) violation("thread-twice", "a thread that was not created, or ended already, is joined"); if (i == thr.end()) early[t] = 1; else thr.erase(i); ended++; return __wrap_pthread_join(t, r); }
int t_detach(pthread_t t) { auto i = thr.find(t); if (i == thr.end()) violation("thread-twice", "a thread that was not created, or ended already, is detached"); thr.erase(i); ended++; return __wrap_pthread_detach(t); }
int t_cancel(pthread_t t) { violation("thread-cancel", "a thread is cancelled"); }
void t_exit(void *r) { __wrap_pthread_exit(r); }
int t_mask(int h, const sigset_t *s, sigset_t *o) { return __wrap_pthread_sigmask(h, s, o); }
}

static void own(bool fails) {
  static const char *const skip[] = {"GEN", "P25", "P23", "P08", "P11"}; std::vector<Scenario> v;
  for (auto &s : scenarios()) { bool no = !strcmp(s.name, "crash"); for (auto k : skip) if (!strcmp(s.prop, k)) no = true; if (!no) v.push_back(s); }
  std::sort(v.begin(), v.end(), [](const Scenario &a, const Scenario &b) { int c = strcmp(a.prop, b.prop); return c ? c < 0 : strcmp(a.name, b.name) < 0; });
  const Scenario &s = v[choose(S_WORK, v.size())]; bool threads = choose(S_WORK, 2);
  if (fails) { static const int m[] = {10, 100, 1000, 10000}; fail_at = 1 + choose(S_FAULT, m[choose(S_FAULT, 4)]); }
  onion_low_initialize_memory_allocation(o_malloc, o_scalar, o_calloc, o_realloc, o_strdup, o_free, o_fail);
  if (threads) onion_low_initialize_threads(t_create, t_join, t_cancel, t_detach, t_exit, t_mask);
  count((std::string("own.") + s.prop).c_str());
  s.fn();
  if (failing) violation("memory-not-told", "an allocation (%s of %zu bytes) failed and nobody was told", failed_what, failed_size);
  evaluated(); if (!calls) violation("not-used", "the application's allocator was never called");
  if (threads && created != ended) violation("thread-left", "%d threads were created and %d joined or detached", created, ended);
  count("own.calls", calls); mix_state(calls ^ frees << 20);
}
SCENARIO(P23, own, 4) { own(false); }
SCENARIO(P23, failing, 1) { own(true); }
