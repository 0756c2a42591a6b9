// P17: over HTTPS requests and responses are exactly the same as over HTTP, only inside TLS, and broken handshakes hurt nobody else.
#include "http.h"
#include <string.h>
using namespace sim;

static void https(bool hostile) {
  bool conc = hostile || choose(S_WORK, 3) == 2;
  base_setup(conc); warm_up(); net_faults();
  SrvCfg sc = rand_srv(); sc.https = true; sc.max_post = 1 << 20; sc.max_file = 1 << 20; int bad = hostile ? 1 + choose(S_WORK, 5) : 0; bool multi = (sc.mode == O_POOL || sc.mode == O_THREADED) && sc.threads > bad;
  int T = 0; if (!hostile && choose(S_WORK, 2)) sc.timeout = 3600 * 1000; if (hostile) { max_stall_total = 1 * SEC; T = multi ? 4 + choose(S_WORK, 4) : 90; sc.timeout = T * 1000; static const unsigned r[] = {0, 0, 60, 200}; fault_enable("accept_aborted", r[choose(S_FAULT, 4)]); fault_enable("accept_emfile", r[choose(S_FAULT, 4)]); }
  MemSnapshot ms = mem_snapshot(); int fds = fd_open_count();
  Srv s; s.create(sc);
  std::map<std::string, Obs> seen; std::map<std::string, int> ran; std::map<std::string, std::string> bodies;
  s.handler = [&](onion_request *req, onion_response *res) {
    Obs o = observe(req); std::string id = "?"; for (auto &h : o.headers) if (h.first == "X-Id") id = h.second;
    if (!bodies.count(id)) violation("phantom-request", "the handler was called for a request nobody sent inside TLS (%s %s)", o.method.c_str(), o.fullpath.c_str());
    ran[id]++; seen[id] = o; const std::string &b = bodies[id];
    if (!onion_request_is_secure(req)) violation("not-secure", "request %s came over TLS but is not told to be secure", id.c_str());
    size_t p = 0; while (p < b.size()) { size_t n = 1 + choose(S_WORK, 4000); if (n > b.size() - p) n = b.size() - p; onion_response_write(res, b.data() + p, n); p += n; if (choose(S_WORK, 8) == 7) onion_response_flush(res); }
    return OCS_PROCESSED;
  };
  s.start();
  int nc = conc ? 1 + choose(S_WORK, 4) : 1;
  describe("%s/%d threads, %d clients, %d broken", mode_name(sc.mode), sc.threads, nc, bad);
  GenCfg g; g.big = choose(S_WORK, 4) == 3; static const size_t mb[] = {300, 3000, 20000, 60000}; g.max_body = mb[choose(S_WORK, 4)];
  std::vector<Fiber *> cl;
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    Conn *c = nullptr; bool open = false; int nr = 1 + choose(S_WORK, 4), seg = choose(S_NET, SEG_NMODES);
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; if (!c->open(sc.port, true, now() + liveness_bound)) violation("refused", "connection refused while listening"); open = true; }
      std::string id = std::to_string(i) + "." + std::to_string(k); static const size_t rb[] = {100, 1500, 1501, 20000, 50000}; bodies[id] = rand_bytes(S_WORK, rand_size(rb[choose(S_WORK, 5)]));
      HReq r = gen_request(g, id, sc.mode != O_ONE_LOOP && (k + 1 < nr || choose(S_WORK, 2)));
      c->send(r.raw, r.raw.size() > 3000 && seg == SEG_BYTES ? SEG_RANDOM : seg);
      std::string ctx = "request " + id + " (records of " + std::to_string(c->maxrec) + ", " + std::to_string(r.raw.size()) + " bytes) " + esc(r.raw, 200);
      HResp h = c->response(r.head, liveness_bound, !hostile, ctx.c_str()); evaluated(); op_done();
      if (!h.complete) {
        if (!c->eof()) violation("no-progress", "%s: neither answered nor closed after %.0f s; threads: %s", ctx.c_str(), liveness_bound / 1e9, blocked_report().c_str());
        if (!faults_fired()) violation("no-response", "%s: dropped without any fault (got %s)", ctx.c_str(), esc(c->rx().substr(c->off)).c_str());
        open = false; count("https.dropped"); continue;
      }
      if (h.status != 200 || (!r.head && h.body != bodies[id])) violation("wrong-response", "%s answered %d with %zu bytes, %zu were written", ctx.c_str(), h.status, h.body.size(), bodies[id].size());
      if (ran[id] != 1) violation("handler-count", "%s: handler ran %d times", ctx.c_str(), ran[id]);
      std::string d = obs_diff(r.exp, seen[id]); if (!d.empty()) violation("request-altered", "%s: %s", d.c_str(), ctx.c_str());
      mix_state(std::hash<std::string>()(r.raw));
      if (!h.keepalive || !r.keepalive) { if (!c->c.wait_rx([&] { return c->c.eof; }, now() + liveness_bound)) violation("not-closed", "connection announced as closing stays open; threads: %s", blocked_report().c_str()); if (c->rx().size() != c->off) violation("trailing-bytes", "bytes follow the last response"); c->c.close(); open = false; }
    }
    if (open) c->c.close();
  }));
  for (int i = 0; i < bad; i++) cl.push_back(spawn("broken" + std::to_string(i), [&, i] {
    sleep_for(choose(S_WORK, 100) * MS);
    Conn *c = new Conn; if (!c->c.connect(sc.port, now() + liveness_bound)) violation("refused", "connection refused while listening");
    std::string hello = tls_client_hello(), req = "GET /evil HTTP/1.1\r\nX-Id: evil\r\n\r\n"; int what = choose(S_WORK, 10); count("fault.broken_tls");
    bool stall = false;
    switch (what) {
    case 0: stall = true; break;
    case 1: c->c.send(hello.substr(0, 1 + choose(S_WORK, hello.size() - 1)), SEG_FEW); stall = true; break;
    case 2: c->c.send(rand_bytes(S_WORK, 1 + rand_size(2000)), SEG_FEW); break;
    case 3: c->c.send(req, SEG_FEW); break;
    case 4: c->c.send(hello.substr(0, choose(S_WORK, hello.size())), SEG_FEW); c->c.close(); return;
    case 5: c->c.send(hello.substr(0, choose(S_WORK, hello.size())), SEG_FEW); c->c.reset(); return;
    case 6: { std::string x = tls_wrap(req, 16384); c->c.send(hello + x.substr(0, choose(S_WORK, x.size())), SEG_FEW); sleep_for(choose(S_WORK, 50) * MS); if (choose(S_WORK, 2)) c->c.reset(); else c->c.close(); return; }
    case 7: c->c.send(hello + rand_bytes(S_WORK, 1 + rand_size(300)), SEG_FEW); break;
    case 8: c->c.send(hello + req, SEG_FEW); break; // leaves TLS after the handshake
    case 9: c->c.send(hello, SEG_FEW); c->c.reset(); return;
    }
    Time bound = liveness_bound + (Time)T * SEC * 6; // one after the other, each may hold the accepting thread for the timeout
    if (multi) { if (!c->c.wait_rx([&] { return c->c.eof; }, now() + bound)) violation("not-dropped", "a connection without a valid handshake (kind %d) is still open after %.0f s, the timeout is %d s; threads: %s", what, bound / 1e9, T, blocked_report().c_str()); evaluated(); }
    else { sleep_for(choose(S_WORK, 2000) * MS); (void)stall; }
    c->rx(); c->c.close();
  }));
  for (auto f : cl) join(f);
  faults_off();
  for (int i = 0; i < (hostile ? 2 : 0); i++) {
    Conn *c = new Conn; if (!c->open(sc.port, true, now() + liveness_bound)) violation("refused", "connection refused after faults stopped");
    std::string id = "last" + std::to_string(i); bodies[id] = "ok" + id; c->send("GET /l HTTP/1.1\r\nX-Id: " + id + "\r\nConnection: close\r\n\r\n", SEG_FEW);
    HResp h = c->response(false, liveness_bound, true, "request after the broken connections"); evaluated(); if (h.body != bodies[id]) violation("wrong-response", "wrong response after the broken connections"); c->c.close();
  }
  s.stop(); s.destroy();
  if (tls_sessions_live || tls_creds_live || tls_dh_live || tls_prio_live) violation("tls-leak", "TLS objects left: %d sessions, %d credentials, %d dh, %d priorities", tls_sessions_live, tls_creds_live, tls_dh_live, tls_prio_live);
  check_clean("after the HTTPS server was freed", ms, fds);
}
SCENARIO(P17, content, 2) { https(false); }
SCENARIO(P17, hostile, 2) { https(true); }
