#include <dlfcn.h>
#include "scen.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>
#include <set>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <sanitizer/asan_interface.h>

using namespace sim;
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
extern "C" const char *__asan_default_options() { return "exitcode=66:detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=24:allocator_may_return_null=1:handle_abort=1:handle_sigill=1:abort_on_error=0:print_summary=0:malloc_context_size=8:print_legend=0:print_full_thread_history=0:allocator_release_to_os_interval_ms=-1"; }

static void asan_report(const char *txt) {
  if (!sh) return;
  const char *e = strstr(txt, "AddressSanitizer: ");
  char kind[64] = "unknown";
  if (e) { e += 18; size_t i = 0; while (e[i] && e[i] != ' ' && e[i] != '\n' && e[i] != ':' && i < 60) { kind[i] = e[i]; i++; } kind[i] = 0; }
  snprintf(sh->kind, sizeof sh->kind, "memory-error:%s", kind);
  // keep the lines with source positions in the code under test
  std::string out; std::istringstream is(txt); std::string l; int n = 0; bool first = true;
  while (std::getline(is, l) && n < 14) {
    if (first && l.find("AddressSanitizer") != std::string::npos) { size_t k = l.find("AddressSanitizer"); size_t a = l.find(" on address"); out += l.substr(k, a == std::string::npos ? std::string::npos : a - k) + "; "; first = false; continue; }
    size_t in = l.find(" in "); if (in == std::string::npos) { if (l.find("freed by") == 0 || l.find("previously") == 0) out += "| " + l.substr(0, 24) + ": "; continue; }
    if (l.find("/src/onion") == std::string::npos) continue;
    std::string fr = l.substr(in + 4); size_t p = fr.find("/src/onion"); size_t sp = fr.find(' ');
    out += fr.substr(0, sp) + "@" + fr.substr(p + 1) + " "; n++;
  }
  snprintf(sh->msg, sizeof sh->msg, "%s", out.c_str());
  sh->violated = 1;
}
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static std::vector<Scenario> pick_scen(const std::string &prop, const std::string &name) {
  std::vector<Scenario> v;
  for (auto &s : scenarios()) if (prop == s.prop && (name.empty() || name == s.name)) v.push_back(s);
  std::sort(v.begin(), v.end(), [](const Scenario &a, const Scenario &b) { return strcmp(a.name, b.name) < 0; });
  return v;
}
static const Scenario *scen_for_seed(const std::vector<Scenario> &v, uint64_t seed) {
  int tot = 0; for (auto &s : v) tot += s.weight;
  uint64_t x = seed * 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32;
  int k = x % tot;
  for (auto &s : v) { if (k < s.weight) return &s; k -= s.weight; }
  return &v[0];
}

enum Out { O_OK, O_VIOL, O_ERR };
// One run in a forked child.
static Out run_child(const Scenario *sc, const RunSpec &spec, bool show) {
  fflush(stdout); fflush(stderr);
  sh->violated = sh->finished = 0; sh->kind[0] = sh->msg[0] = 0;
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(9); }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGTERM, SIG_DFL);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = 120; rl.rlim_max = 125; setrlimit(RLIMIT_CPU, &rl);
    if (!show) { int n = ::open("/dev/null", O_WRONLY); (void)n; }
    begin_run(spec);
    sys_reset();
    sc->fn();
    end_run();
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->finished) return O_OK;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return O_VIOL;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 66 && sh->violated) return O_VIOL;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 4) return O_ERR;
  sh->violated = 1;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { snprintf(sh->kind, sizeof sh->kind, "hang"); snprintf(sh->msg, sizeof sh->msg, "run exceeded its CPU budget"); return O_VIOL; }
  snprintf(sh->kind, sizeof sh->kind, "crash"); snprintf(sh->msg, sizeof sh->msg, "process ended with wait status 0x%x", st);
  return O_VIOL;
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

struct Agg { uint64_t runs = 0, viol = 0, err = 0, nontriv = 0, evals = 0, ops = 0, switches = 0, syncs = 0, acc = 0, events = 0; double simt = 0; std::map<std::string, uint64_t> cnt, scen; std::set<uint64_t> sched, state, full; std::vector<std::string> samples; };

static void save_replay(const std::string &file, const std::string &prop, const Scenario *sc, uint64_t seed, const std::vector<uint32_t> *rec, const std::string &kind, const std::string &msg, uint64_t hash) {
  std::ofstream o(file);
  o << "onionsim-replay 1\nproperty " << prop << "\nscenario " << sc->name << "\nseed " << seed << "\nhash " << hash << "\nkind " << kind << "\nmsg " << jesc(msg) << "\n";
  for (int s = 0; s < NSTREAM; s++) { o << "stream " << stream_names[s] << " " << rec[s].size(); for (auto v : rec[s]) o << " " << v; o << "\n"; }
}
static bool load_replay(const std::string &file, std::string &prop, std::string &scen, uint64_t &seed, uint64_t &hash, std::string &kind, std::vector<uint32_t> *rec) {
  std::ifstream i(file); std::string l;
  if (!i) return false;
  while (std::getline(i, l)) {
    std::istringstream is(l); std::string k; is >> k;
    if (k == "property") is >> prop; else if (k == "scenario") is >> scen; else if (k == "seed") is >> seed; else if (k == "hash") is >> hash; else if (k == "kind") { std::getline(is, kind); kind.erase(0, kind.find_first_not_of(' ')); }
    else if (k == "stream") { std::string n; size_t c; is >> n >> c; for (int s = 0; s < NSTREAM; s++) if (n == stream_names[s]) { rec[s].resize(c); for (size_t j = 0; j < c; j++) is >> rec[s][j]; } }
  }
  return true;
}
static void take_rec(std::vector<uint32_t> *rec) { for (int s = 0; s < NSTREAM; s++) { uint32_t n = std::min<uint32_t>(sh->nrec[s], MAXREC); rec[s].assign(sh->rec[s], sh->rec[s] + n); } }
static void trim(std::vector<uint32_t> &v) { while (!v.empty() && v.back() == 0) v.pop_back(); }

static bool same_fail(const Scenario *sc, const std::vector<uint32_t> *rec, const std::string &kind, int &budget, std::vector<uint32_t> *got = nullptr) {
  if (budget-- <= 0) return false;
  RunSpec sp; sp.replay = true; for (int s = 0; s < NSTREAM; s++) sp.rec[s] = rec[s];
  Out o = run_child(sc, sp, false);
  return o == O_VIOL && kind == sh->kind;
}
static void minimise(const Scenario *sc, std::vector<uint32_t> *rec, const std::string &kind, int budget, double tmax) {
  double t0 = wall();
  for (int s = 0; s < NSTREAM; s++) trim(rec[s]);
  auto over = [&] { return budget <= 0 || wall() - t0 > tmax; };
  static const int order[] = {S_FAULT, S_SCHED, S_NET, S_WORK};
  for (int pass = 0; pass < 3 && !over(); pass++) {
    bool changed = false;
    for (int oi = 0; oi < 4 && !over(); oi++) {
      int s = order[oi];
      // drop the whole stream, truncate, then zero / delete chunks
      if (!rec[s].empty()) { auto sv = rec[s]; rec[s].clear(); if (same_fail(sc, rec, kind, budget)) { changed = true; continue; } rec[s] = sv; }
      for (size_t cut = rec[s].size() / 2; cut >= 1 && !over(); cut /= 2) { while (rec[s].size() >= cut && !over()) { auto sv = rec[s]; rec[s].resize(rec[s].size() - cut); if (same_fail(sc, rec, kind, budget)) changed = true; else { rec[s] = sv; break; } } }
      for (size_t ch = std::max<size_t>(1, rec[s].size() / 2); ch >= 1 && !over(); ch /= 2) {
        for (size_t i = 0; i < rec[s].size() && !over();) {
          auto sv = rec[s]; size_t e = std::min(rec[s].size(), i + ch);
          if (s != S_SCHED) { rec[s].erase(rec[s].begin() + i, rec[s].begin() + e); if (same_fail(sc, rec, kind, budget)) { changed = true; continue; } rec[s] = sv; }
          bool nz = false; for (size_t j = i; j < e; j++) if (rec[s][j]) { nz = true; rec[s][j] = 0; }
          if (nz) { if (same_fail(sc, rec, kind, budget)) changed = true; else rec[s] = sv; }
          i = e;
        }
        if (ch == 1) break;
      }
      trim(rec[s]);
    }
    if (!changed) break;
  }
}

static volatile sig_atomic_t stop_run;
int main(int argc, char **argv) {
  if (argc == 2 && !strcmp(argv[1], "cov")) { void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, "cov_dump"); if (f) f(); return 0; }
  if (argc < 2) { fprintf(stderr, "usage: onionsim run|one|replay|min|list ...\n"); return 9; }
  std::string mode = argv[1], prop, scen, out, file; uint64_t seed = 1, stride = 1, cnt = 100; double tmax = 60; bool verb = false; int mbudget = 3000, maxviol = 3;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx(); else if (a == "--scen") scen = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--stride") stride = strtoull(nx().c_str(), 0, 10);
    else if (a == "--count") cnt = strtoull(nx().c_str(), 0, 10); else if (a == "--time") tmax = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "-v") verb = true; else if (a == "--budget") mbudget = atoi(nx().c_str()); else if (a == "--maxviol") maxviol = atoi(nx().c_str()); else file = a;
  }
  setenv("TZ", "UTC", 1); tzset();
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  __asan_set_error_report_callback(asan_report);
  if (!verb) { int n = ::open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); close(n); } }
  if (mode == "list") { for (auto &s : scenarios()) printf("%s %s %d\n", s.prop, s.name, s.weight); return 0; }

  if (mode == "replay") {
    std::string kind; uint64_t hash = 0; RunSpec sp; sp.replay = true; sp.verbose = verb;
    if (!load_replay(file, prop, scen, seed, hash, kind, sp.rec)) { printf("cannot read %s\n", file.c_str()); return 9; }
    auto v = pick_scen(prop, scen); if (v.empty()) { printf("unknown scenario\n"); return 9; }
    Out o = run_child(&v[0], sp, verb);
    printf("replay property=%s scenario=%s outcome=%s kind=%s hash=%llu (recorded kind=%s hash=%llu)%s\n%s\n", prop.c_str(), scen.c_str(), o == O_OK ? "ok" : o == O_VIOL ? "violation" : "error", sh->kind, (unsigned long long)sh->hash, kind.c_str(), (unsigned long long)hash, o == O_VIOL && kind == sh->kind && hash == sh->hash ? " REPRODUCED" : "", sh->msg);
    if (o == O_VIOL) return kind == sh->kind && hash == sh->hash ? 1 : 5;
    return o == O_OK ? 0 : 9;
  }
  auto v = pick_scen(prop, scen);
  if (v.empty()) { printf("no scenario for %s\n", prop.c_str()); return 9; }

  if (mode == "one") {
    RunSpec sp; sp.seed = seed; sp.verbose = verb;
    const Scenario *sc = scen_for_seed(v, seed);
    Out o = run_child(sc, sp, verb);
    printf("scenario %s seed %llu: %s kind=%s msg=%s\nhash=%llu switches=%llu syncs=%llu acc=%llu simtime=%.3f evals=%llu ops=%llu\nsample: %s\n", sc->name, (unsigned long long)seed, o == O_OK ? "ok" : o == O_VIOL ? "VIOLATION" : "ERROR", sh->kind, sh->msg, (unsigned long long)sh->hash, (unsigned long long)sh->switches, (unsigned long long)sh->syncs, (unsigned long long)sh->accesses, sh->simtime / 1e9, (unsigned long long)sh->evals, (unsigned long long)sh->ops, sh->sample);
    for (int i = 0; i < sh->ncnt; i++) printf("  %s=%llu\n", sh->cnt[i].name, (unsigned long long)sh->cnt[i].n);
    return o == O_OK ? 0 : 1;
  }
  if (mode == "min") { // seed -> verified, minimised replay file
    const Scenario *sc = scen_for_seed(v, seed);
    RunSpec sp; sp.seed = seed;
    if (run_child(sc, sp, false) != O_VIOL) { printf("not reproduced from seed\n"); return 5; }
    uint64_t h1 = sh->hash; std::string kind = sh->kind; std::vector<uint32_t> rec[NSTREAM]; take_rec(rec); bool ovf = sh->rec_overflow;
    if (run_child(sc, sp, false) != O_VIOL || sh->hash != h1 || kind != sh->kind) { printf("seed run is not deterministic\n"); return 5; }
    if (ovf) { printf("recording overflow\n"); return 5; }
    size_t before = 0; for (auto &r : rec) before += r.size();
    int b = 2; if (!same_fail(sc, rec, kind, b)) { printf("choice replay does not reproduce\n"); return 5; }
    minimise(sc, rec, kind, mbudget, tmax);
    b = 2; if (!same_fail(sc, rec, kind, b)) { printf("minimised replay does not reproduce\n"); return 5; }
    uint64_t h = sh->hash; std::string msg = sh->msg;
    size_t nz = 0, after = 0; for (auto &r : rec) { after += r.size(); for (auto x : r) nz += x != 0; }
    save_replay(out, prop, sc, seed, rec, kind, msg, h);
    printf("minimised scenario=%s kind=%s choices %zu -> %zu (%zu non-default)\n%s\n%s\n", sc->name, kind.c_str(), before, after, nz, msg.c_str(), sh->sample);
    return 1;
  }
  if (mode == "run") {
    signal(SIGTERM, [](int) { stop_run = 1; });
    Agg A; double t0 = wall(); std::ofstream vo(out + ".viol"); uint64_t errs = 0;
    for (uint64_t i = 0; i < cnt; i++) {
      if (stop_run || wall() - t0 > tmax) break;
      uint64_t sd = seed + i * stride;
      const Scenario *sc = scen_for_seed(v, sd);
      RunSpec sp; sp.seed = sd;
      Out o = run_child(sc, sp, false);
      A.runs++; A.scen[sc->name]++;
      if (o == O_ERR) { errs++; vo << "ERR " << sd << " " << sc->name << " internal error\n"; vo.flush(); if (errs > 3) break; continue; }
      if (o == O_VIOL) { A.viol++; vo << "VIOL " << sd << " " << sc->name << " " << sh->kind << " :: " << jesc(sh->msg) << "\n"; vo.flush(); if ((int)A.viol >= maxviol) break; continue; }
      A.evals += sh->evals; A.ops += sh->ops; A.switches += sh->switches; A.syncs += sh->syncs; A.acc += sh->accesses; A.events += sh->events; A.simt += (sh->simtime - 100.123 * SEC) / 1e9;
      bool nt = sh->ops > 0 && sh->evals > 0; if (nt) { A.nontriv++; A.full.insert(sh->hash); }
      A.sched.insert(sh->sched_hash); A.state.insert(sh->state_hash);
      for (int k = 0; k < sh->ncnt; k++) A.cnt[sh->cnt[k].name] += sh->cnt[k].n;
      if (A.samples.size() < 3 && nt && sh->sample[0]) A.samples.push_back("seed " + std::to_string(sd) + " " + sc->name + ": " + sh->sample);
    }
    std::ofstream o(out);
    o << "{\"runs\":" << A.runs << ",\"violations\":" << A.viol << ",\"errors\":" << errs << ",\"nontrivial\":" << A.nontriv << ",\"evals\":" << A.evals << ",\"ops\":" << A.ops << ",\"switches\":" << A.switches << ",\"syncs\":" << A.syncs << ",\"accesses\":" << A.acc << ",\"events\":" << A.events << ",\"simtime\":" << A.simt << ",\"wall\":" << wall() - t0;
    o << ",\"counters\":{"; bool f = true; for (auto &c : A.cnt) { o << (f ? "" : ",") << "\"" << c.first << "\":" << c.second; f = false; }
    o << "},\"scenarios\":{"; f = true; for (auto &c : A.scen) { o << (f ? "" : ",") << "\"" << c.first << "\":" << c.second; f = false; }
    o << "},\"samples\":["; f = true; for (auto &s : A.samples) { o << (f ? "" : ",") << "\"" << jesc(s) << "\""; f = false; }
    o << "],\"sched\":["; f = true; for (auto h : A.sched) { o << (f ? "" : ",") << h; f = false; }
    o << "],\"state\":["; f = true; for (auto h : A.state) { o << (f ? "" : ",") << h; f = false; }
    o << "],\"full\":["; f = true; for (auto h : A.full) { o << (f ? "" : ",") << h; f = false; }
    o << "]}\n";
    return 0;
  }
  return 9;
}
