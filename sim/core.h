// Deterministic simulator core: one PRNG, fibers, simulated clock, events, faults, recorded choices.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <map>

namespace sim {

typedef uint64_t Time;  // nanoseconds of simulated time
static const Time US = 1000ull, MS = 1000000ull, SEC = 1000000000ull;
static const Time NEVER = ~0ull;

// ---------------------------------------------------------------- choices
enum Stream { S_WORK, S_SCHED, S_NET, S_FAULT, NSTREAM };
extern const char *stream_names[NSTREAM];
uint32_t choose(Stream s, uint32_t n);              // uniform in [0,n); 0 is always the "benign" answer
inline bool chance(Stream s, uint32_t num, uint32_t den) { return choose(s, den) >= den - num; }
inline uint32_t range(Stream s, uint32_t lo, uint32_t hi) { return lo + choose(s, hi - lo + 1); }
template <class T> const T &pick(Stream s, const std::vector<T> &v) { return v[choose(s, v.size())]; }

// ---------------------------------------------------------------- shared result area (survives a crash of the run)
static const int MAXREC = 1 << 20;
static const int MAXCNT = 192;
struct Shared {
  int finished;            // scenario returned normally
  int violated;
  char kind[96];
  char msg[4096];
  uint64_t hash;           // hash over every scheduling / syscall event
  uint64_t sched_hash;     // hash over the sequence of context switches only
  uint64_t state_hash;     // scenario supplied
  uint64_t switches, syncs, accesses, events, simtime;
  uint64_t evals;          // oracle evaluations made
  uint64_t ops;            // operations completed (requests served, ...)
  int ncnt;
  struct { char name[40]; uint64_t n; } cnt[MAXCNT];   // faults injected and probes hit
  uint32_t nrec[NSTREAM];
  int rec_overflow;
  char sample[1024];       // readable description of this case
  uint32_t rec[NSTREAM][MAXREC];
};
extern Shared *sh;

struct RunSpec {
  uint64_t seed = 0;
  bool replay = false;                       // use recorded choices
  std::vector<uint32_t> rec[NSTREAM];
  bool verbose = false;
};
void begin_run(const RunSpec &spec);         // in the child, before the scenario
void end_run();

[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char *name, uint64_t n = 1);   // statistic / probe
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool verbose;
void mix(uint64_t v);
void mix_state(uint64_t v);
inline void evaluated(uint64_t n = 1) { sh->evals += n; }
inline void op_done(uint64_t n = 1) { sh->ops += n; }

// ---------------------------------------------------------------- faults
// Every fault kind has a per run rate, in 1/1024. 0 = disabled (default).
void fault_enable(const char *name, unsigned rate1024);
bool fault(const char *name);                // draws, counts when it fires
bool fault_enabled(const char *name);
void faults_off();                           // stop injecting (quiescence phase)
uint64_t faults_fired();

// ---------------------------------------------------------------- scheduling
struct SchedCfg {
  unsigned sync_gap = 0;      // 0: never preempt at sync points; else mean-ish gap
  unsigned mem_gap = 0;       // 0: never preempt at memory accesses
  unsigned early_event = 0;   // 1/256 probability that a pending event is delivered although threads can run
  Time max_jump = 20 * MS;    // how far early delivery may push the clock
  unsigned freeze = 0;        // 1/16 probability that a preempted thread is stalled
  Time max_freeze = 50 * MS;
};
extern SchedCfg sched;
void random_sched(bool concurrent);          // draw a configuration (swarm)

struct Fiber;
struct WaitQ { std::vector<Fiber *> w; };
Fiber *spawn(const std::string &name, std::function<void()> fn, bool server = false);
Fiber *current();
int fiber_id(Fiber *f);
const char *fiber_name(Fiber *f);
bool fiber_done(Fiber *f);
void set_server(bool on);                    // current fiber runs code under test (preemptible)
void yield_sync(const char *what);           // preemption point at a synchronisation / system call
bool wait(WaitQ &q, Time deadline = NEVER, const char *what = "wait"); // false: timed out
void wake_all(WaitQ &q);
void wake_one(WaitQ &q);
void join(Fiber *f);
bool join_until(Fiber *f, Time deadline);
void sleep_until(Time t);
inline void sleep_for(Time d);
Time now();
void advance_clock(Time d);                  // busy time of the current thread
void at(Time t, std::function<void()> fn);
inline void after(Time d, std::function<void()> fn) { at(now() + d, fn); }
inline void sleep_for(Time d) { sleep_until(now() + d); }
void fiber_exit();
void process_death();                        // all server threads are gone at once; see also sys: crash()
extern void (*on_process_death)();
std::string blocked_report();
// Run predicate-based waiting: polls pred whenever anything changes.
bool wait_pred(const std::function<bool()> &pred, Time deadline, const char *what);
void poke();                                  // something a wait_pred may look at changed
extern Time time_limit;                       // simulated
extern uint64_t step_limit;
extern const char *stuck_kind;                // violation kind used if everything blocks
extern Time max_stall_total;                  // bound on total simulated stall the scheduler may inject

// wall-clock (CLOCK_REALTIME) = epoch + now + skew
extern int64_t real_skew;                     // ns
static const uint64_t EPOCH = 1500000000ull;

// signals
void deliver_signal(int sig, Fiber *to = nullptr);
void *signal_handler(int sig);
bool take_intr();                             // current fiber's wait was interrupted by a signal handler

// memory accounting (onion objects only)
extern bool mem_track;
uint64_t live_blocks();
uint64_t live_bytes(); uint64_t peak_bytes(bool restart); uint64_t biggest_block(bool restart);
struct MemSnapshot { uint64_t seq; uint64_t live; };
MemSnapshot mem_snapshot();
// blocks allocated after snapshot and still live; description of a few
uint64_t live_since(MemSnapshot s, std::string *desc = nullptr);
bool is_poisoned(const void *p, size_t n);
void check_mem(const void *p, size_t n, const char *what); // violation if poisoned

} // namespace sim
