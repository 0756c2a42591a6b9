#include "core.h"
#include <set>
#include <sys/mman.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <algorithm>
#include <queue>
#include <unordered_map>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

namespace sim {

const char *stream_names[NSTREAM] = {"work", "sched", "net", "fault"};
Shared *sh;
bool verbose;
static RunSpec spec;
static uint64_t rs[NSTREAM];
SchedCfg sched;
Time time_limit = 3600 * SEC * 48;
uint64_t step_limit = 40000000;
const char *stuck_kind = "stuck";
Time max_stall_total = NEVER;
static Time stall_total;
int64_t real_skew;

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint32_t choose(Stream s, uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  uint32_t i = sh->nrec[s];
  if (spec.replay) {
    v = i < spec.rec[s].size() ? spec.rec[s][i] % n : 0;
  } else {
    v = (uint32_t)((splitmix(rs[s]) >> 32) * (uint64_t)n >> 32);
  }
  if (i < (uint32_t)MAXREC) { sh->rec[s][i] = v; } else sh->rec_overflow = 1;
  sh->nrec[s] = i + 1;
  mix(((uint64_t)s << 56) ^ ((uint64_t)n << 24) ^ v);
  return v;
}

void mix(uint64_t v) { sh->hash = (sh->hash ^ v) * 0x100000001b3ull; sh->hash ^= sh->hash >> 29; }
void mix_state(uint64_t v) { sh->state_hash = (sh->state_hash ^ v) * 0x100000001b3ull; sh->state_hash ^= sh->state_hash >> 31; }

void tracef(const char *fmt, ...) {
  if (!verbose) return;
  va_list ap; va_start(ap, fmt);
  fprintf(stdout, "[%10.6f %-10s] ", now() / 1e9, current() ? fiber_name(current()) : "-");
  vfprintf(stdout, fmt, ap); fputc('\n', stdout); fflush(stdout);
  va_end(ap);
}

void violation(const char *kind, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  snprintf(sh->kind, sizeof sh->kind, "%s", kind);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  va_end(ap);
  sh->violated = 1; sh->simtime = now();
  tracef("VIOLATION %s: %s", sh->kind, sh->msg);
  _exit(3);
}
void internal_error(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  fprintf(stderr, "SIM INTERNAL ERROR: "); vfprintf(stderr, fmt, ap); fputc('\n', stderr);
  va_end(ap);
  _exit(4);
}
void count(const char *name, uint64_t n) {
  for (int i = 0; i < sh->ncnt; i++) if (!strcmp(sh->cnt[i].name, name)) { sh->cnt[i].n += n; return; }
  if (sh->ncnt >= MAXCNT) return;
  snprintf(sh->cnt[sh->ncnt].name, sizeof sh->cnt[0].name, "%s", name);
  sh->cnt[sh->ncnt++].n = n;
}
void describe(const char *fmt, ...) {
  size_t l = strlen(sh->sample);
  va_list ap; va_start(ap, fmt);
  if (l + 2 < sizeof sh->sample) vsnprintf(sh->sample + l, sizeof sh->sample - l, fmt, ap);
  va_end(ap);
}

// ------------------------------------------------------------------ faults
struct FaultState { unsigned rate = 0; };
static std::map<std::string, FaultState> faults;
static bool faults_active = true;
static uint64_t nfired;
void fault_enable(const char *name, unsigned rate) { faults[name].rate = rate; }
bool fault_enabled(const char *name) { auto it = faults.find(name); return it != faults.end() && it->second.rate; }
bool fault(const char *name) {
  if (!faults_active) return false;
  auto it = faults.find(name);
  if (it == faults.end() || !it->second.rate) return false;
  if (!chance(S_FAULT, it->second.rate, 1024)) return false;
  // partial transfers and interrupted calls are no failures: nothing may be lost by them
  static const std::set<std::string> harmless = {"short_read", "short_write", "read_eintr", "write_transient", "epoll_eintr", "poll_eintr", "sendfile_eintr", "sendfile_short"};
  if (!harmless.count(name)) nfired++;
  char b[40]; snprintf(b, sizeof b, "fault.%s", name); count(b);
  tracef("FAULT %s", name);
  return true;
}
void faults_off() { faults_active = false; }
uint64_t faults_fired() { return nfired; }

// ------------------------------------------------------------------ fibers
enum FState { F_RUN, F_WAIT, F_DONE };
struct EhGlobals { void *caught; unsigned uncaught; };
extern "C" void *__cxa_get_globals() noexcept;
struct Fiber {
  EhGlobals eh{nullptr, 0};
  int id; std::string name; std::function<void()> fn;
  void *sp = nullptr; char *stack = nullptr; size_t stacksz = 0; void *fake = nullptr;
  FState st = F_RUN; int err = 0; bool server = false;
  Time deadline = NEVER; bool timedout = false; WaitQ *q = nullptr; const char *what = "";
  Time frozen_until = 0; WaitQ joinq; uint64_t epoch = 0;
  int pending_sig = 0; bool intr = false;
};
static std::vector<Fiber *> fibers;
static std::vector<Fiber *> runq;     // runnable, excluding current
static Fiber *cur;
static Time tnow;
static uint64_t gap_sync, gap_mem = NEVER;
struct Ev { Time t; uint64_t seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> evq;
static uint64_t evseq;
static bool in_sched;

Time now() { return tnow; }
Fiber *current() { return cur; }
int fiber_id(Fiber *f) { return f->id; }
const char *fiber_name(Fiber *f) { return f->name.c_str(); }
bool fiber_done(Fiber *f) { return f->st == F_DONE; }
void set_server(bool on) { cur->server = on; }
void advance_clock(Time d) { tnow += d; }
void at(Time t, std::function<void()> fn) { if (t < tnow) t = tnow; evq.push(new Ev{t, evseq++, std::move(fn)}); }

extern "C" void sim_switch(void **save, void *load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static size_t main_stack_sz; static const void *main_stack_bottom;

static void fiber_main() {
  const void *ob; size_t os;
  __sanitizer_finish_switch_fiber(nullptr, &ob, &os);
  if (!main_stack_bottom) { main_stack_bottom = ob; main_stack_sz = os; }
  errno = 0;
  cur->fn();
  fiber_exit();
  abort();
}

static void switch_to(Fiber *t) {
  Fiber *f = cur;
  if (t == f) return;
  f->err = errno;
  sh->switches++;
  sh->sched_hash = (sh->sched_hash ^ (uint64_t)(t->id + 1)) * 0x100000001b3ull; sh->sched_hash ^= sh->sched_hash >> 29;
  mix(0x5100 + t->id);
  cur = t;
  __sanitizer_start_switch_fiber(f->st == F_DONE ? nullptr : &f->fake, t->stack ? t->stack : main_stack_bottom, t->stack ? t->stacksz : main_stack_sz);
  EhGlobals *eg = (EhGlobals *)__cxa_get_globals(); f->eh = *eg; *eg = t->eh; // exceptions being handled belong to the thread
  sim_switch(&f->sp, t->sp);
  const void *ob; size_t os;
  __sanitizer_finish_switch_fiber(f->fake, &ob, &os);
  errno = f->err;
}

Fiber *spawn(const std::string &name, std::function<void()> fn, bool server) {
  Fiber *f = new Fiber;
  f->id = fibers.size(); f->name = name; f->fn = std::move(fn); f->server = server;
  f->stacksz = 1 << 20;
  f->stack = (char *)mmap(nullptr, f->stacksz + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (f->stack == MAP_FAILED) internal_error("stack mmap");
  mprotect(f->stack, 4096, PROT_NONE);
  f->stack += 4096;
  void **sp = (void **)(f->stack + f->stacksz);
  *--sp = nullptr; *--sp = nullptr; *--sp = nullptr;  // entry rsp is 8 mod 16
  *--sp = (void *)fiber_main;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp;
  fibers.push_back(f); runq.push_back(f);
  mix(0x5200 + f->id);
  return f;
}

std::string blocked_report() {
  std::string s;
  for (auto f : fibers) if (f->st != F_DONE) {
    s += f->name + ":" + (f->st == F_RUN ? "runnable" : f->what) + " ";
    if (s.size() > 900) break;
  }
  return s;
}

static void make_ready(Fiber *f) {
  if (f->st != F_WAIT) return;
  f->st = F_RUN; f->deadline = NEVER;
  if (f->q) { auto &w = f->q->w; w.erase(std::remove(w.begin(), w.end(), f), w.end()); f->q = nullptr; }
  runq.push_back(f);
}

static void step_check() {
  if (tnow > time_limit) violation("no-progress", "simulated time limit %.1f s exceeded; threads: %s", time_limit / 1e9, blocked_report().c_str());
  if (sh->syncs + sh->accesses / 8 > step_limit) violation("livelock", "step limit exceeded (%llu sync points, %llu memory accesses) at simulated time %.3f s; running %s; threads: %s",
     (unsigned long long)sh->syncs, (unsigned long long)sh->accesses, tnow / 1e9, cur->name.c_str(), blocked_report().c_str());
}

static void run_due_events() {
  while (!evq.empty() && evq.top()->t <= tnow) {
    Ev *e = evq.top(); evq.pop();
    sh->events++; mix(0x5300 + (e->seq & 0xffff));
    e->fn();
    delete e;
  }
}

// Chooses and switches to the next fiber. The current one is either in runq (yield) or waiting / done.
static void reschedule() {
  if (in_sched) internal_error("recursive reschedule");
  in_sched = true;
  Fiber *next = nullptr;
  for (;;) {
    step_check();
    run_due_events();
    // candidates
    size_t n = 0; static std::vector<size_t> cand; cand.clear();
    for (size_t i = 0; i < runq.size(); i++) if (runq[i]->frozen_until <= tnow) cand.push_back(i);
    n = cand.size();
    if (n) {
      if (sched.early_event && !evq.empty() && evq.top()->t - tnow <= sched.max_jump && stall_total < max_stall_total
          && chance(S_SCHED, sched.early_event, 256)) {
        Time d = evq.top()->t - tnow; stall_total += d; tnow += d; count("sched.early_event"); continue;
      }
      size_t k = n > 1 ? choose(S_SCHED, n) : 0;
      next = runq[cand[k]];
      runq.erase(runq.begin() + cand[k]);
      break;
    }
    Time t = NEVER;
    for (auto f : runq) t = std::min(t, f->frozen_until);
    if (!evq.empty()) t = std::min(t, evq.top()->t);
    if (t == NEVER) { in_sched = false; violation(stuck_kind, "no thread can ever run again at simulated time %.6f s; threads: %s", tnow / 1e9, blocked_report().c_str()); }
    if (t > tnow) tnow = t;
  }
  in_sched = false;
  switch_to(next);
}

static uint64_t draw_gap(unsigned g) {
  if (!g) return NEVER;
  uint32_t v = choose(S_SCHED, g + 1);
  return v ? v : 64ull * g;
}

static void deliver_pending() {
  if (cur->pending_sig) { int s = cur->pending_sig; cur->pending_sig = 0; void *h = signal_handler(s); if (h && h != (void *)SIG_IGN) { tracef("signal %d delivered", s); cur->intr = true; ((void (*)(int))h)(s); } }
}

void deliver_signal(int sig, Fiber *to) {
  // Runs the handler in the target fiber at its next scheduling point; wakes it if it waits (EINTR).
  if (!to) return;
  to->pending_sig = sig;
  if (to->st == F_WAIT) { to->timedout = false; make_ready(to); }
}
bool take_intr() { bool r = cur->intr; cur->intr = false; return r; }

static void preempt() {
  if (sched.freeze && stall_total < max_stall_total && chance(S_SCHED, sched.freeze, 16)) {
    static const Time tab[] = {20 * US, 200 * US, 2 * MS, 10 * MS, 50 * MS, 200 * MS, 1000 * MS};
    int n = 0; while (n < 7 && tab[n] <= sched.max_freeze) n++;
    if (n) { Time d = tab[choose(S_SCHED, n)]; cur->frozen_until = tnow + d; stall_total += d; count("sched.stall"); }
  }
  runq.push_back(cur);
  reschedule();
}

void yield_sync(const char *what) {
  if (!cur || in_sched) return;
  sh->syncs++;
  tnow += 200;
  if ((sh->syncs & 1023) == 0) step_check();
  if (cur->pending_sig) deliver_pending();
  if (!evq.empty() && evq.top()->t <= tnow) run_due_events();
  if (!cur->server || !sched.sync_gap) {
    return;
  }
  if (gap_sync == 0) gap_sync = draw_gap(sched.sync_gap);
  if (--gap_sync == 0) { gap_sync = draw_gap(sched.sync_gap); if (!runq.empty() || sched.early_event) { count("sched.preempt_sync"); preempt(); if (cur->pending_sig) deliver_pending(); } }
}

// called for every instrumented memory access of the code under test
extern "C" void sim_mem_access() {
  if (!cur) return;
  sh->accesses++;
  if ((sh->accesses & 0xffff) == 0) { tnow += 20 * US; if (!in_sched) step_check(); }
  if (gap_mem == NEVER || !cur->server || in_sched) return;
  if (--gap_mem == 0) {
    gap_mem = draw_gap(sched.mem_gap);
    if (!runq.empty()) { count("sched.preempt_mem"); preempt(); }
  }
}

bool wait(WaitQ &q, Time deadline, const char *what) {
  if (deadline <= tnow) return false;
  Fiber *f = cur;
  f->st = F_WAIT; f->timedout = false; f->q = &q; f->what = what; f->deadline = deadline;
  uint64_t ep = ++f->epoch;
  q.w.push_back(f);
  if (deadline != NEVER) at(deadline, [f, ep] { if (f->st == F_WAIT && f->epoch == ep) { make_ready(f); f->timedout = true; } });
  reschedule();
  if (f->pending_sig) deliver_pending();
  return !f->timedout;
}
void wake_all(WaitQ &q) { auto w = q.w; for (auto f : w) { f->timedout = false; make_ready(f); } }
void wake_one(WaitQ &q) { if (!q.w.empty()) { size_t k = q.w.size() > 1 ? choose(S_SCHED, q.w.size()) : 0; Fiber *f = q.w[k]; f->timedout = false; make_ready(f); } }
void sleep_until(Time t) { WaitQ q; while (tnow < t) wait(q, t, "sleep"); }
void join(Fiber *f) { while (f->st != F_DONE) wait(f->joinq, NEVER, "join"); }
bool join_until(Fiber *f, Time d) { while (f->st != F_DONE) if (!wait(f->joinq, d, "join")) return f->st == F_DONE; return true; }
static WaitQ pokeq;
void fiber_exit() {
  cur->st = F_DONE; mix(0x5400 + cur->id);
  wake_all(cur->joinq);
  poke();
  reschedule();
  abort();
}
// The process dies: no thread of the server ever runs again. Does not return when called by one of them.
static void lock_reset_hook_default() {}
void (*on_process_death)() = lock_reset_hook_default;
void process_death() {
  mix(0x5500); count("fault.process_crash"); tracef("the server process dies");
  bool me = cur->server;
  for (auto f : fibers) if (f->server && f->st != F_DONE) {
    if (f->q) { auto &w = f->q->w; w.erase(std::remove(w.begin(), w.end(), f), w.end()); f->q = nullptr; }
    runq.erase(std::remove(runq.begin(), runq.end(), f), runq.end());
    f->st = F_DONE;
  }
  on_process_death();
  for (auto f : fibers) if (f->server) wake_all(f->joinq);
  poke();
  if (me) { reschedule(); abort(); }
}
void poke() { if (!pokeq.w.empty()) wake_all(pokeq); }
bool wait_pred(const std::function<bool()> &pred, Time deadline, const char *what) {
  while (!pred()) if (!wait(pokeq, deadline, what)) return pred();
  return true;
}

void random_sched(bool concurrent) {
  sched = SchedCfg();
  static const unsigned sg[] = {0, 40, 6, 2, 300};
  static const unsigned mg[] = {0, 0, 0, 4000, 400, 60, 12};
  sched.sync_gap = sg[choose(S_SCHED, 5)];
  if (concurrent) {
    unsigned k = choose(S_SCHED, 7);
    sched.mem_gap = mg[k];
    static const unsigned fz[] = {0, 1, 4, 8};
    sched.freeze = fz[choose(S_SCHED, 4)];
    static const Time mf[] = {20 * US, 2 * MS, 50 * MS, 1000 * MS};
    sched.max_freeze = mf[choose(S_SCHED, 4)];
  }
  static const unsigned ee[] = {0, 4, 32, 96};
  sched.early_event = ee[choose(S_SCHED, 4)];
  gap_sync = 0;
  gap_mem = sched.mem_gap ? draw_gap(sched.mem_gap) : NEVER;
}

// ------------------------------------------------------------------ run begin / end
static Fiber mainf;
void begin_run(const RunSpec &s) {
  spec = s; verbose = s.verbose;
  memset(sh, 0, offsetof(Shared, rec));
  sh->hash = 0xcbf29ce484222325ull; sh->sched_hash = sh->state_hash = sh->hash;
  uint64_t x = s.seed * 0x2545F4914F6CDD1Dull + 0x1234567;
  for (int i = 0; i < NSTREAM; i++) rs[i] = splitmix(x);
  mainf.id = 0; mainf.name = "main"; mainf.st = F_RUN;
  fibers.push_back(&mainf);
  cur = &mainf;
  tnow = 100 * SEC + 123 * MS;
}
void end_run() {
  sh->simtime = tnow;
  sh->finished = 1;
}

// ------------------------------------------------------------------ memory accounting
bool mem_track;
struct Blk { size_t n; uint64_t seq; void *ra; int fib; };
static std::unordered_map<void *, Blk> blks;
static uint64_t memseq, memlive, mempeak, memmax;
extern "C" void sim_mem_add(void *p, size_t n, void *ra) {
  if (!p || !cur) return;
  blks[p] = Blk{n, ++memseq, ra, cur->id}; memlive += n; if (memlive > mempeak) mempeak = memlive; if (n > memmax) memmax = n;
}
extern "C" void sim_mem_del(void *p) {
  if (!p || !cur) return;
  auto it = blks.find(p);
  if (it != blks.end()) { memlive -= it->second.n; blks.erase(it); }
}
uint64_t live_blocks() { return blks.size(); }
uint64_t live_bytes() { return memlive; }
uint64_t peak_bytes(bool restart) { uint64_t r = mempeak; if (restart) mempeak = memlive; return r; }
uint64_t biggest_block(bool restart) { uint64_t r = memmax; if (restart) memmax = 0; return r; }
MemSnapshot mem_snapshot() { return MemSnapshot{memseq, blks.size()}; }
uint64_t live_since(MemSnapshot s, std::string *desc) {
  uint64_t n = 0;
  std::map<uint64_t, Blk> v;
  for (auto &b : blks) if (b.second.seq > s.seq) { n++; v[b.second.seq] = b.second; }
  if (desc) {
    int k = 0;
    for (auto &b : v) {
      char buf[256] = "", out[300];
      __sanitizer_symbolize_pc((char *)b.second.ra - 1, "%f %s:%l", buf, sizeof buf);
      snprintf(out, sizeof out, "[%zu bytes from %s] ", b.second.n, buf);
      *desc += out;
      if (++k >= 6) break;
    }
  }
  return n;
}
bool is_poisoned(const void *p, size_t n) { return n && __asan_region_is_poisoned((void *)p, n) != nullptr; }
void check_mem(const void *p, size_t n, const char *what) {
  if (is_poisoned(p, n)) violation("memory-error", "%s touches freed or out-of-bounds memory (%zu bytes)", what, n);
}

} // namespace sim
