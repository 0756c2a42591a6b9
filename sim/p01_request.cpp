// P01: what a handler sees of a request is exactly what was sent, however it was segmented.
#include "http.h"
using namespace sim;

struct Seen { Obs o; int n = 0; };
SCENARIO(P01, fidelity, 1) {
  bool conc = choose(S_WORK, 3) == 2;
  base_setup(conc);
  net_faults();
  SrvCfg sc = rand_srv(); if (!conc) sc.threads = 1;
  sc.max_post = 1 << 20;
  Srv s; s.create(sc);
  std::map<std::string, Seen> seen;
  s.handler = [&](onion_request *req, onion_response *res) {
    Obs o = observe(req);
    std::string id = "?"; for (auto &h : o.headers) if (h.first == "X-Id") id = h.second;
    auto &x = seen[id]; x.o = o; x.n++;
    std::string b = "ok " + id; onion_response_set_length(res, b.size()); onion_response_write(res, b.data(), b.size());
    return OCS_PROCESSED;
  };
  s.start();
  int nc = conc ? 1 + choose(S_WORK, 4) : 1;
  GenCfg g; g.big = choose(S_WORK, 4) == 3; static const size_t mb[] = {300, 3000, 20000}; g.max_body = mb[choose(S_WORK, 3)];
  std::vector<Fiber *> cl;
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    Conn *c = new Conn;   // outlives late network events
    int nr = 1 + choose(S_WORK, 4); int seg = choose(S_NET, SEG_NMODES);
    bool open = false;
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; if (!c->open(sc.port, false)) violation("refused", "connection refused while listening"); open = true; }
      std::string id = std::to_string(i) + "." + std::to_string(k);
      HReq r = gen_request(g, id, sc.mode != O_ONE_LOOP && (k + 1 < nr || choose(S_WORK, 2)));
      if (i == 0 && k == 0) describe("%s/%d threads, %d clients, seg=%d, first: %s", mode_name(sc.mode), sc.threads, nc, seg, esc(r.raw, 160).c_str());
      int sg = r.raw.size() > 5000 && seg == SEG_BYTES ? SEG_RANDOM : seg;
      c->send(r.raw, sg);
      std::string ctx = "request " + esc(r.raw, 400);
      HResp h = c->response(r.head, liveness_bound, true, ctx.c_str());
      evaluated(); op_done();
      if (h.status != 200) violation("wrong-status", "%s answered %d", ctx.c_str(), h.status);
      if (!r.head && h.body != "ok " + id) violation("wrong-response", "%s answered with %s", ctx.c_str(), esc(h.body).c_str());
      auto it = seen.find(id);
      if (it == seen.end()) violation("lost-request", "%s never reached the handler", ctx.c_str());
      if (it->second.n != 1) violation("duplicate-request", "%s reached the handler %d times", ctx.c_str(), it->second.n);
      std::string d = obs_diff(r.exp, it->second.o);
      if (!d.empty()) violation("request-altered", "%s (segmentation %d): %s", d.c_str(), sg, ctx.c_str());
      mix_state(std::hash<std::string>()(r.raw));
      if (!h.keepalive || !r.keepalive) { if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound) ) violation("not-closed", "connection announced as closing stays open"); open = false; }
      else if (c->c.eof) violation("keepalive-broken", "connection announced as keep-alive was closed after %s", ctx.c_str());
    }
    c->c.close();
  }));
  for (auto f : cl) join(f);
  faults_off();
  s.stop(); s.destroy();
}
