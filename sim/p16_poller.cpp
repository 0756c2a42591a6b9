// P16: descriptors an application gives to the poller are looked after: each readiness is told, to one thread at a time, until the slot ends, and its end is told once.
#include "http.h"
#include <string.h>
#include <sys/epoll.h>
using namespace sim;
extern "C" int __wrap_close(int);

namespace {
struct Dev : FdObj {
  std::string id; int fd = -1; int pending = 0; bool writable = false, hup = false; uint32_t events() override { return (pending ? EPOLLIN : 0) | (writable ? EPOLLOUT : 0) | (hup ? EPOLLHUP : 0); }
  const char *type() override { return "device"; }
  int want = O_POLL_READ; long produced = 0, consumed = 0; int calls = 0, busy = 0, ended = 0; long quit_at = -1; bool quit = false, idle = false, removed = false; int slow = 0; onion_poller *p = nullptr; int spawn_more = 0; bool greedy = true; int wcalls = 0; onion_poller_slot *slot = nullptr; bool turns = false; bool owed() { return ((want & O_POLL_READ) && pending) || ((want & O_POLL_WRITE) && writable); }
};
std::vector<std::shared_ptr<Dev>> all; bool freeing;
void dev_end(void *q) {
  Dev *d = (Dev *)q; if (++d->ended > 1) violation("double-shutdown", "device %s: its end was told %d times", d->id.c_str(), d->ended);
  if (d->busy) violation("overlap", "device %s: its end was told while its callback runs", d->id.c_str());
  if (!d->quit && !d->hup && !d->removed && !freeing) violation("spurious-end", "device %s ended, but it did not quit, hang up nor was removed", d->id.c_str());
  evaluated(); poke(); __wrap_close(d->fd);
}
void add_dev(onion_poller *p, const std::string &id, bool more);
int dev_ready(void *q) {
  Dev *d = (Dev *)q; evaluated();
  if (d->busy++) violation("overlap", "device %s: two callbacks at the same time", d->id.c_str());
  if (d->ended) violation("after-end", "device %s: called after its end", d->id.c_str());
  if (d->idle || d->removed) violation("spurious-call", "device %s: called, but it never had anything", d->id.c_str());
  bool r = (d->want & O_POLL_READ) && d->pending, w = (d->want & O_POLL_WRITE) && d->writable;
  if (!r && !w && !d->hup) violation("spurious-call", "device %s: called, but it is not ready", d->id.c_str());
  d->calls++; if (w) { d->wcalls++; d->writable = false; }
  if (d->slow == 1) yield_sync("device callback"); else if (d->slow > 1) sleep_for(d->slow * MS);
  if (d->pending) { int n = d->greedy ? d->pending : 1; d->pending -= n; d->consumed += n; op_done(n); }
  if (d->spawn_more) { d->spawn_more--; add_dev(d->p, d->id + "'", false); count("poller.added_in_callback"); }
  if (d->turns && !d->quit && choose(S_WORK, 2)) { static const int t[] = {O_POLL_READ, O_POLL_WRITE, O_POLL_READ | O_POLL_WRITE}; d->want = t[choose(S_WORK, 3)]; onion_poller_slot_set_type(d->slot, (onion_poller_slot_type_e)d->want); count("poller.type_changed"); }
  d->busy--; poke(); mix_state(std::hash<std::string>()(d->id) + d->consumed);
  if (d->quit_at >= 0 && d->consumed >= d->quit_at) { d->quit = true; return -1; }
  return choose(S_WORK, 2);
}
void feed(Dev *d) { // a fiber that makes it ready now and then
  int n = 1 + choose(S_WORK, 8); bool hang = choose(S_WORK, 4) == 3;
  for (int i = 0; i < n && !d->ended; i++) {
    if (choose(S_WORK, 3)) sleep_for(choose(S_WORK, 40) * MS);
    if (d->ended) break; int k = 1 + choose(S_WORK, 3); d->pending += k; d->produced += k; if (d->turns ? choose(S_WORK, 2) : (d->want & O_POLL_WRITE) != 0) d->writable = true; d->changed();
  }
  if (d->turns) { if (!wait_pred([&] { return d->ended || d->quit || !d->owed(); }, now() + liveness_bound, "device")) violation("lost-event", "device %s is ready for what it asked for last, but nobody is told; threads: %s", d->id.c_str(), blocked_report().c_str()); }
  else if (d->want & O_POLL_READ) { if (!wait_pred([&] { return d->ended || d->quit || d->consumed == d->produced; }, now() + liveness_bound, "device")) violation("lost-event", "device %s: %ld of %ld events were told; threads: %s", d->id.c_str(), d->consumed, d->produced, blocked_report().c_str()); }
  else if (n && !wait_pred([&] { return d->ended || d->quit || !d->writable; }, now() + liveness_bound, "device")) violation("lost-event", "device %s is ready for writing, but nobody is told; threads: %s", d->id.c_str(), blocked_report().c_str());
  evaluated();
  if (d->quit || hang) { if (!d->quit) { d->hup = true; if (!d->ended) d->changed(); } if (!wait_pred([&] { return d->ended > 0; }, now() + liveness_bound, "device end")) violation("no-shutdown", "device %s: its end was never told (%s); threads: %s", d->id.c_str(), d->quit ? "it quit" : "it hung up", blocked_report().c_str()); count("poller.ended"); }
}
std::vector<Fiber *> feeders;
void add_dev(onion_poller *p, const std::string &id, bool more) {
  auto d = std::make_shared<Dev>(); all.push_back(d); d->id = id; d->p = p; d->fd = fd_alloc(d); if (d->fd < 0) violation("harness", "no descriptor");
  int t = choose(S_WORK, 5); d->want = t == 4 ? O_POLL_WRITE : t == 3 ? O_POLL_READ | O_POLL_WRITE : t == 2 ? O_POLL_READ | O_POLL_OTHER : O_POLL_READ; static const int sl[] = {0, 0, 1, 1, 3, 30}; d->slow = sl[choose(S_WORK, 6)]; d->greedy = choose(S_WORK, 2); if (choose(S_WORK, 3) == 2) d->quit_at = choose(S_WORK, 6); d->idle = choose(S_WORK, 6) == 5; if (more && choose(S_WORK, 3) == 2) d->spawn_more = 1;
  d->turns = choose(S_WORK, 3) == 2; if (d->want == O_POLL_WRITE || d->turns) d->quit_at = -1;
  if (!d->idle && choose(S_WORK, 3) == 2 && (d->want & O_POLL_READ)) { d->pending = 1; d->produced = 1; } // ready from the start
  onion_poller_slot *s = onion_poller_slot_new(d->fd, dev_ready, d.get()); if (!s) violation("no-slot", "no slot for a valid descriptor"); d->slot = s;
  onion_poller_slot_set_shutdown(s, dev_end, d.get()); if (d->want != O_POLL_READ || choose(S_WORK, 2)) onion_poller_slot_set_type(s, (onion_poller_slot_type_e)d->want); if (choose(S_WORK, 3) == 2) onion_poller_slot_set_timeout(s, choose(S_WORK, 2) ? -1 : 3600000);
  if (onion_poller_add(p, s) < 0) violation("no-slot", "device %s could not be added", d->id.c_str()); count("poller.devices");
  Dev *dp = d.get();
  feeders.push_back(spawn("feed-" + id, [dp, p] {
    if (!dp->idle) { feed(dp); return; }
    sleep_for(choose(S_WORK, 200) * MS); if (choose(S_WORK, 2)) return; dp->removed = true; int r = 0; Fiber *f = spawn("remover", [&] { onion_poller_remove(p, dp->fd); }, true); join(f); (void)r; if (dp->ended != 1) violation("no-shutdown", "device %s was removed, but its end was told %d times", dp->id.c_str(), dp->ended); count("poller.removed");
  }));
}
void join_all() { for (size_t i = 0; i < feeders.size(); i++) join(feeders[i]); }
void all_ended(const char *when) { for (auto &d : all) if (d->ended != 1) violation("no-shutdown", "%s device %s was told its end %d times", when, d->id.c_str(), d->ended); }
}

SCENARIO(P16, own, 1) { // a poller of the application
  bool conc = choose(S_WORK, 4) != 3; base_setup(conc); warm_up(); quiet_log(); all.clear(); feeders.clear(); freeing = false; if (choose(S_FAULT, 2)) fault_enable("epoll_eintr", 100);
  MemSnapshot ms = mem_snapshot(); int fds = fd_open_count(); onion_poller *p = onion_poller_new(8); if (!p) violation("no-poller", "no poller"); if (choose(S_WORK, 4) == 3) onion_poller_set_queue_size_per_thread(p, 1 + choose(S_WORK, 6)); else onion_poller_set_queue_size_per_thread(p, 1);
  int nt = conc ? 1 + choose(S_WORK, 4) : 1, nd = 1 + choose(S_WORK, 6); describe("poller with %d threads, %d devices", nt, nd);
  bool orig = choose(S_WORK, 4) == 3; int cycles = 1 + (choose(S_WORK, 3) == 2), id = 0; if (orig) nt = cycles = 1; // orig: never calls onion_poller_start, which is optional when it is used once
  for (int cy = 0; cy < cycles; cy++) { // it may be used again after a stop
    if (!orig) onion_poller_start(p); std::vector<Fiber *> th; int early = choose(S_WORK, nd + 1); if (cy) { count("poller.restarted"); if (choose(S_FAULT, 2)) fault_enable("epoll_eintr", 100); }
    Fiber *ad = spawn("adder0", [&] { for (int i = 0; i < early; i++) add_dev(p, std::to_string(id++), true); }, true); join(ad);
    for (int i = 0; i < nt; i++) th.push_back(spawn("poll" + std::to_string(i), [&] { onion_poller_poll(p); }, true));
    Fiber *f = spawn("adder", [&] { for (int i = early; i < nd; i++) { add_dev(p, std::to_string(id++), true); if (choose(S_WORK, 2)) sleep_for(choose(S_WORK, 50) * MS); } }, true);
    join(f); join_all(); faults_off(); feeders.clear();
    Time dl = now() + liveness_bound; auto stop = [&] { Fiber *st = spawn("stopper", [&] { onion_poller_stop(p); }, true); join(st); };
    if (orig) { while (!(stop(), join_until(th[0], now() + 200 * MS)) && now() < dl); } else stop(); // without start, a stop that comes before the poll is forgotten
    for (auto t : th) if (!join_until(t, dl)) violation("stop-stuck", "a thread still polls %.0f s after the stop; threads: %s", liveness_bound / 1e9, blocked_report().c_str());
  }
  freeing = true; set_server(true); onion_poller_free(p); set_server(false); all_ended("after the poller was freed"); onion_poller_set_queue_size_per_thread(nullptr, 1);
  check_clean("after the poller was freed", ms, fds); all.clear();
}
SCENARIO(P16, server, 1) { // the poller of a server that serves
  bool conc = choose(S_WORK, 4) != 3; base_setup(conc); warm_up(); net_faults(); all.clear(); feeders.clear(); freeing = false; MemSnapshot ms = mem_snapshot(); int fds = fd_open_count();
  SrvCfg sc = rand_srv(true); if (sc.mode == O_THREADED) sc.mode = O_POOL; Srv s; s.create(sc); int nd = 1 + choose(S_WORK, 5), added = 0; std::map<std::string, int> ran;
  s.handler = [&](onion_request *req, onion_response *res) -> int { const char *id = onion_request_get_header(req, "X-Id"); if (!id) return OCS_PROCESSED; ran[id]++; if (added < nd && choose(S_WORK, 2)) add_dev(onion_get_poller(s.o), "h" + std::to_string(added++), true); onion_response_printf(res, "<%s>", id); return OCS_PROCESSED; };
  if (choose(S_WORK, 3) == 2) { Fiber *ad = spawn("adder", [&] { add_dev(onion_get_poller(s.o), "first", true); }, true); join(ad); }
  s.start(); int nc = 1 + choose(S_WORK, 3); describe("%s/%d threads, %d clients, up to %d devices", mode_name(sc.mode), sc.threads, nc, nd); std::vector<Fiber *> cl;
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    Conn *c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused"); int n = 2 + choose(S_WORK, 5);
    for (int k = 0; k < n; k++) { std::string id = std::to_string(i) + "." + std::to_string(k); c->send("GET / HTTP/1.1\r\nX-Id: " + id + "\r\n\r\n", choose(S_NET, SEG_NMODES)); HResp h = c->response(false, liveness_bound, true, "request while devices are polled"); evaluated(); op_done(); if (h.body != "<" + id + ">" || ran[id] != 1) violation("wrong-response", "request %s got %s, its handler ran %d times", id.c_str(), esc(h.body).c_str(), ran[id]); if (choose(S_WORK, 3) == 2) sleep_for(choose(S_WORK, 60) * MS); }
    c->c.close();
  }));
  for (auto f : cl) join(f); join_all(); s.stop();
  for (auto &d : all) if (d->busy) violation("overlap", "device %s: its callback runs after the stop", d->id.c_str());
  freeing = true; s.destroy(); all_ended("after the server was freed"); check_clean("after the server was freed", ms, fds); all.clear();
}
