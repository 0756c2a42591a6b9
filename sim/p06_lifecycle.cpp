// P06: stopping, restarting and freeing a server at any moment terminates in bounded time and loses nothing that was being answered.
#include "http.h"
#include <signal.h>
#include <string.h>
extern "C" { onion_listen_point *onion_http_new(); }
using namespace sim;

static void lifecycle(int level) { // 1: threads / listen points fail to start
  warm_up(); bool conc = choose(S_WORK, 6) != 5;
  base_setup(conc); net_faults(); MemSnapshot ms = mem_snapshot(); int fds0 = fd_open_count(), alive0 = threads_alive();
  SrvCfg sc = rand_srv(); sc.timeout = (5 + choose(S_WORK, 5)) * 1000; sc.detach = choose(S_WORK, 3) == 2; if (sc.mode != O_ONE_LOOP && choose(S_WORK, 4) == 3) sc.timeout = -1;
  if (choose(S_WORK, 8) == 7) sc.extra_flags |= O_NO_SIGTERM;
  Srv s; s.create(sc); const int port2 = 8081;
  int second = choose(S_WORK, 3); bool fail1 = false, fail2 = false; // second listen point after / before the first
  if (sc.mode == O_ONE_LOOP) second = 0;
  if (second) onion_add_listen_point(s.o, NULL, "8081", onion_http_new());
  if (level == 1) {
    if (choose(S_FAULT, 2)) fault_enable("thread_create_fail", 300);
    int k = choose(S_FAULT, 4); if (k == 1 || k == 3) fail1 = true; if ((k == 2 || k == 3) && second) fail2 = true;
    if (k == 0 && choose(S_FAULT, 2)) fault_enable("socket_emfile", 200); if (k == 0 && choose(S_FAULT, 3) == 2) fault_enable("gai_fail", 300);
  }
  int inside = 0, starts = 0; std::map<std::string, int> ran; bool closed_for_business = false; int how = 0; bool stopped = false, over = false;
  onion_set_client_data(s.o, (void *)"data", nullptr);
  s.handler = [&](onion_request *req, onion_response *res) {
    const char *idp = onion_request_get_header(req, "X-Id"); std::string id = idp ? idp : "?"; starts++;
    if (closed_for_business) violation("handler-after-stop", "a handler was called after the server had stopped listening");
    if (++ran[id] > 1) violation("duplicate-request", "request %s reached the handler %d times", id.c_str(), ran[id]);
    inside++; if (!onion_client_data(s.o)) violation("client-data", "client data lost");
    int d = choose(S_WORK, 4); if (d == 1) yield_sync("handler"); if (d == 2) sleep_for(choose(S_WORK, 40) * MS);
    if (id == "stop") { onion_listen_stop(s.o); stopped = true; }
    if (!onion_client_data(s.o)) violation("client-data", "client data lost");
    onion_response_printf(res, "<%s>", id.c_str()); inside--; poke(); return OCS_PROCESSED;
  };
  int cycles = 1 + choose(S_WORK, 3); int reqno = 0; std::vector<Fiber *> cl;
  Fiber *app = spawn("app", [&] { while (!over) { sleep_for(5 * MS); } }, true); // an application thread that does something else
  auto get = [&](int port, const std::string &id, bool must, Time bound) -> int { // 0 answered, 1 dropped
    Conn *c = new Conn; if (!c->open(port, false, now() + bound)) return 1;
    c->send("GET / HTTP/1.1\r\nX-Id: " + id + "\r\nConnection: close\r\n\r\n", SEG_FEW);
    HResp h = c->response(false, bound, must, ("request " + id).c_str()); c->c.close(); evaluated();
    if (h.complete && h.body != "<" + id + ">") violation("wrong-response", "request %s got %s", id.c_str(), esc(h.body).c_str());
    return h.complete ? 0 : 1;
  };
  describe("%s/%d threads%s, %d cycles, %s listen point(s)%s", mode_name(sc.mode), sc.threads, sc.detach ? " detached" : "", cycles, second ? "2" : "1", level ? ", start faults" : "");
  bool freed = false;
  for (int cy = 0; cy < cycles && !freed; cy++) {
    port_in_use.clear(); if (fail1) port_in_use.insert(sc.port); if (fail2) port_in_use.insert(port2);
    closed_for_business = false; stopped = false; s.listening_done = false; s.listen_ret = -99; int th0 = threads_created(), st0 = starts; (void)st0;
    s.f = spawn("listen", [&] { int r = onion_listen(s.o); s.listen_ret = r; s.listening_done = true; poke(); }, true);
    bool up = wait_pred([&] { return port_listening(sc.port) || port_listening(port2) || (s.listening_done && (s.listen_ret != 0 || !sc.detach || threads_alive() == alive0)); }, now() + liveness_bound, "listen");
    if (!up) violation("listen-stuck", "the server neither listens nor reports a failure; threads: %s", blocked_report().c_str());
    if (!port_listening(sc.port) && !port_listening(port2)) { // could not start
      if (!join_until(s.f, now() + liveness_bound)) violation("listen-stuck", "onion_listen does not return although no port could be opened");
      evaluated(); if (s.listen_ret == 0 && !sc.detach && !(level == 1)) violation("listen-result", "onion_listen returned 0 but nothing was listening");
      if (level == 0) violation("relisten", "server could not listen in cycle %d (returned %d)", cy, s.listen_ret);
      if (s.listen_ret == 0 && !sc.detach) violation("listen-result", "onion_listen returned success although no listen point could be opened");
      if (!faults_fired() && (!fail1 || (second && !fail2))) violation("not-serving", "the server did not start, because one of its ports is in use");
      count("lifecycle.start_failed");
      if (choose(S_FAULT, 2)) { fail1 = fail2 = false; faults_off(); } continue;
    }
    if (level == 1 && choose(S_FAULT, 2)) faults_off();
    // a listen point that came up serves; wait for that before asking to stop
    sleep_for(choose(S_WORK, 3) * MS);
    std::vector<int> ports; bool p1 = port_listening(sc.port); 
    int first = p1 ? sc.port : port2; if (second && port_listening(sc.port) && port_listening(port2) && choose(S_WORK, 2)) first = port2;
    if (get(first, "first" + std::to_string(cy), true, liveness_bound)) violation("refused", "port %d listens but does not answer in cycle %d", first, cy);
    if (second && (level == 0 || !faults_fired())) for (int p : {sc.port, port2}) if (!(p == sc.port ? fail1 : fail2)) if (get(p, "probe" + std::to_string(reqno++), true, liveness_bound)) violation("refused", "listen point %d does not answer", p);
    int nc = choose(S_WORK, 5);
    for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(cl.size()), [&, first] {
      int nr = 1 + choose(S_WORK, 5); Conn *c = nullptr; bool open = false;
      for (int k = 0; k < nr; k++) {
        sleep_for(choose(S_WORK, 20) * MS);
        if (!open) { c = new Conn; if (!c->open(first, false, now() + 300 * MS)) { c->c.close(); return; } open = true; }
        std::string id = "r" + std::to_string(reqno++); bool ka = choose(S_WORK, 3) != 0 && sc.mode != O_ONE_LOOP;
        c->send("GET / HTTP/1.1\r\nX-Id: " + id + "\r\n" + (ka ? "" : "Connection: close\r\n") + "\r\n", choose(S_NET, 4));
        HResp h; c->c.wait_rx([&] { h = parse_response(c->rx(), c->off, false, c->eof()); return h.bad || h.complete || c->eof(); }, now() + 2000 * SEC); evaluated(); op_done();
        if (h.bad) violation("malformed-response", "%s", h.why.c_str());
        if (!h.complete) { if (!c->eof()) violation("not-closed", "connection neither answered nor closed after the server was freed"); if (ran[id]) violation("inflight-lost", "request %s had reached its handler before the stop, but was not answered (got %s)", id.c_str(), esc(c->rx().substr(c->off)).c_str()); count("lifecycle.unserved"); c->c.close(); return; }
        if (h.body != "<" + id + ">" || ran[id] != 1) violation("wrong-response", "request %s got %s, handler ran %d times", id.c_str(), esc(h.body).c_str(), ran[id]);
        c->off = h.end; if (!ka || !h.keepalive) { c->c.close(); open = false; }
      }
      if (c && choose(S_WORK, 2)) c->c.close(); // else: left idle
    }));
    sleep_for(choose(S_WORK, 60) * MS);
    how = choose(S_WORK, sc.detach ? 7 : 6); if ((how == 2 || how == 3) && (sc.extra_flags & O_NO_SIGTERM)) how = 0;
    static const char *hn[] = {"stop from a thread", "stop from a handler", "SIGTERM to a server thread", "SIGINT to an application thread", "two stops at once", "stop, then stop again", "free while listening"};
    tracef("cycle %d: %s", cy, hn[how]); count((std::string("lifecycle.") + hn[how]).c_str());
    std::vector<Fiber *> st; Time t0 = now();
    switch (how) {
    case 0: case 5: st.push_back(spawn("stopper", [&] { onion_listen_stop(s.o); stopped = true; }, true)); break;
    case 1: { Conn *c = new Conn; ran["stop"] = 0; if (!c->open(first, false, now() + liveness_bound)) violation("refused", "connection refused while listening"); c->send("GET /stop HTTP/1.1\r\nX-Id: stop\r\nConnection: close\r\n\r\n", SEG_WHOLE); HResp h = c->response(false, liveness_bound, true, "the request whose handler stops the server"); if (h.body != "<stop>") violation("wrong-response", "stop request answered %s", esc(h.body).c_str()); c->c.close(); break; }
    case 2: { std::vector<Fiber *> c; if (!fiber_done(s.f)) c.push_back(s.f); for (int i = th0; i < threads_created(); i++) if (!fiber_done(thread_fiber(i))) c.push_back(thread_fiber(i)); Fiber *f = c[choose(S_WORK, c.size())]; tracef("SIGTERM -> %s", fiber_name(f)); deliver_signal(SIGTERM, f); break; }
    case 3: deliver_signal(SIGINT, app); break;
    case 4: for (int i = 0; i < 2; i++) st.push_back(spawn("stopper" + std::to_string(i), [&] { onion_listen_stop(s.o); stopped = true; }, true)); break;
    case 6: st.push_back(spawn("freer", [&] { onion_free(s.o); freed = true; }, true)); break;
    }
    for (auto f : st) if (!join_until(f, t0 + liveness_bound)) violation("stop-stuck", "%s did not return within %.0f s; threads: %s", hn[how], liveness_bound / 1e9, blocked_report().c_str());
    if (!join_until(s.f, t0 + liveness_bound)) violation("stop-stuck", "the server still runs %.0f s after %s; threads: %s", liveness_bound / 1e9, hn[how], blocked_report().c_str());
    if (!wait_pred([&] { return threads_alive() == alive0; }, t0 + liveness_bound, "threads")) violation("stop-stuck", "server threads still run %.0f s after %s; threads: %s", liveness_bound / 1e9, hn[how], blocked_report().c_str());
    evaluated(); op_done();
    if (s.listen_ret != 0) violation("listen-result", "onion_listen returned %d after a clean stop", s.listen_ret);
    closed_for_business = true;
    if (inside) violation("handler-after-stop", "a handler still runs after the server stopped");
    if (port_listening(sc.port) || port_listening(port2)) violation("still-listening", "the port is still open after %s", hn[how]);
    if (how == 5) { Fiber *f = spawn("stopper", [&] { onion_listen_stop(s.o); }, true); if (!join_until(f, now() + liveness_bound)) violation("stop-stuck", "a second stop does not return; threads: %s", blocked_report().c_str()); }
    mix_state(how * 8 + cy);
    if (choose(S_WORK, 3) == 2) sleep_for(choose(S_WORK, 500) * MS);
  }
  over = true; join(app); faults_off();
  if (!freed) { Fiber *f = spawn("freer", [&] { onion_free(s.o); freed = true; }, true); if (!join_until(f, now() + liveness_bound)) violation("free-stuck", "freeing the server did not return; threads: %s", blocked_report().c_str()); }
  for (auto f : cl) join(f);
  evaluated();
  if (threads_alive() != alive0) violation("thread-leak", "threads still run after the server was freed");
  extern int threads_unjoined(); 
  if (signal_handler(SIGTERM) != (void *)SIG_DFL && !(sc.extra_flags & O_NO_SIGTERM)) violation("signal-handler", "signal disposition not restored after the server was freed");
  if (!wait_pred([&] { return server_open_socks() == 0; }, now() + liveness_bound, "close")) violation("fd-leak", "connections survive the server: %s", fd_list().c_str());
  check_clean("after the server was freed", ms, fds0);
}
SCENARIO(P06, cycle, 3) { lifecycle(0); }
SCENARIO(P06, startfaults, 1) { lifecycle(1); }
