// P04: every request is handled exactly once, answered on its own connection, in order; misbehaving peers and faults never stop service to the others.
#include "http.h"
#include <string.h>
using namespace sim;

namespace {
struct Want { std::string body; int n = 0; int conn = -1; bool done = false; int delay = 0; std::string post, query, cookie, data; bool own = false; };
// what a handler sees is this request and nothing of another one
void check_own(onion_request *req, const Want &w, const std::string &id) {
  if (!w.own) return; struct { const char *what; const char *got; const std::string *sent; } t[] = {{"query", onion_request_get_query(req, "q"), &w.query}, {"cookie", onion_request_get_cookie(req, "ck"), &w.cookie}, {"form field", onion_request_get_post(req, "v"), &w.post}};
  for (auto &x : t) if (x.sent->empty() ? x.got != nullptr : (!x.got || *x.sent != x.got)) violation("isolation", "request %s was sent with %s %s, its handler sees %s", id.c_str(), x.what, x.sent->empty() ? "none" : esc(*x.sent, 60).c_str(), x.got ? esc(x.got, 60).c_str() : "none");
  const onion_block *d = onion_request_get_data(req); if (w.data.empty() ? (w.post.empty() && d && onion_block_size(d)) : (!d || std::string(onion_block_data(d), onion_block_size(d)) != w.data)) violation("isolation", "request %s was sent with a body of %zu bytes, its handler sees %d", id.c_str(), w.data.size(), d ? (int)onion_block_size(d) : -1);
  const char *fp = onion_request_get_fullpath(req); if (!fp || "/" + id != fp) violation("isolation", "request %s for path /%s is handled with path %s", id.c_str(), id.c_str(), fp ? esc(fp).c_str() : "none");
}
std::string make_body(const std::string &id) { std::string b = "<" + id + ">"; size_t n = rand_size(choose(S_WORK, 5) == 4 ? 20000 : 300); return b + rand_bytes(S_WORK, n, "abcdefgh\n"); }
}

static void service(bool hostile, bool faults) {
  bool conc = choose(S_WORK, 5) != 4;
  base_setup(conc); net_faults();
  SrvCfg sc = rand_srv(); bool brief = faults && choose(S_WORK, 3) != 2; if (hostile || faults) sc.timeout = brief ? (3 + choose(S_WORK, 4)) * 1000 : 90000;
  if (faults) max_stall_total = 1 * SEC; // or a correct client could time out because every server thread was stalled
 
  if (faults) { static const unsigned r[] = {0, 30, 150, 400}; fault_enable("accept_emfile", r[choose(S_FAULT, 4)]); fault_enable("accept_aborted", r[choose(S_FAULT, 4)]); fault_enable("epoll_eintr", r[choose(S_FAULT, 4)]); if (choose(S_FAULT, 2)) net.stall_rate = 8, net.stall_max = 1500 * MS; }
  Srv s; s.create(sc);
  std::map<std::string, Want> want; std::map<int, int> active; int inside = 0, max_inside = 0; bool early = false;
  s.handler = [&](onion_request *req, onion_response *res) {
    const char *id = onion_request_get_header(req, "X-Id"), *cn = onion_request_get_header(req, "X-Conn");
    if (early && (!id || !cn || !want.count(id))) return OCS_PROCESSED; // a client that did not wait for its response: how the rest is split is its problem
    if (!id || !cn || !want.count(id)) violation("unknown-request", "the handler was called for a request nobody sent (%s)", id ? id : "no id");
    Want &w = want[id]; int c = atoi(cn);
    if (++w.n > 1) violation("duplicate-request", "request %s reached the handler %d times", id, w.n);
    if (active[c]++) violation("concurrent-connection", "two handlers run at the same time for connection %d", c);
    if (++inside > max_inside) max_inside = inside;
    std::string idc = id; check_own(req, w, idc);
    if (w.delay == 1) yield_sync("handler"); else if (w.delay > 1) sleep_for(w.delay * MS);
    const char *id2 = onion_request_get_header(req, "X-Id"); if (!id2 || idc != id2) violation("isolation", "the request changed under its handler: %s became %s", idc.c_str(), id2 ? id2 : "none");
    check_own(req, w, idc);
    size_t half = w.body.size() / 2;
    onion_response_write(res, w.body.data(), half);
    if (w.delay) yield_sync("handler");
    onion_response_write(res, w.body.data() + half, w.body.size() - half);
    active[c]--; inside--;
    return OCS_PROCESSED;
  };
  s.start();
  int nc = conc ? 1 + choose(S_WORK, 6) : 1 + choose(S_WORK, 2); int nconn = 0, bad = hostile ? 1 + choose(S_WORK, 4) : 0;
  describe("%s/%d threads%s, %d clients, %d misbehaving%s", mode_name(sc.mode), sc.threads, sc.detach ? " detached" : "", nc, bad, faults ? ", faults" : "");
  std::vector<Fiber *> cl;
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    Conn *c = nullptr; bool open = false; int nr = 1 + choose(S_WORK, 6), cid = -1;
    if (choose(S_WORK, 2)) sleep_for(choose(S_WORK, 50) * MS);
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; cid = nconn++; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused while listening"); open = true; }
      std::string id = std::to_string(i) + "." + std::to_string(k);
      Want &w = want[id]; w.body = make_body(id); w.conn = cid; static const int dl[] = {0, 1, 0, 1, 5, 80}; w.delay = dl[choose(S_WORK, 6)];
      bool ka = sc.mode != O_ONE_LOOP && choose(S_WORK, 5) != 4; int bk = choose(S_WORK, 6); bool post = bk == 3 || bk == 4, put = bk == 5; w.own = true;
      if (choose(S_WORK, 3) == 2) w.query = "Q" + id + rand_bytes(S_WORK, rand_size(40), "abcdef"); if (choose(S_WORK, 3) == 2) w.cookie = "C" + id + rand_bytes(S_WORK, rand_size(40), "abcdef");
      std::string body; if (post) { w.post = "P" + id + rand_bytes(S_WORK, rand_size(500), "abcdef"); body = "v=" + w.post; } else if (put) body = w.data = "{" + id + rand_bytes(S_WORK, rand_size(500), "abcdef\n") + "}";
      std::string raw = std::string(post || put ? "POST" : "GET") + " /" + id + (w.query.size() ? "?q=" + w.query : std::string()) + " HTTP/1.1\r\nX-Id: " + id + "\r\nX-Conn: " + std::to_string(cid) + "\r\n"; if (!ka) raw += "Connection: close\r\n"; if (w.cookie.size()) raw += "Cookie: ck=" + w.cookie + "\r\n";
      if (put) raw += "Content-Type: application/json\r\nContent-Length: " + std::to_string(body.size()) + "\r\n";
      if (post) raw += "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(body.size()) + "\r\n"; raw += "\r\n" + body;
      int seg = choose(S_NET, SEG_NMODES); if (raw.size() > 400 && seg == SEG_BYTES) seg = SEG_RANDOM;
      c->send(raw, seg);
      HResp h = c->response(false, liveness_bound, !faults, ("request " + id).c_str()); evaluated(); op_done();
      if (!h.complete) { // with accept faults or a stalled network, a connection may be dropped: then nothing was answered and the client sees it closed
        if (!c->eof()) violation("no-progress", "request %s neither answered nor closed after %.0f s; threads: %s", id.c_str(), liveness_bound / 1e9, blocked_report().c_str());
        if (!faults_fired() && net.stall_rate == 0 && !(brief && hostile)) violation("no-response", "request %s dropped without any fault", id.c_str());
        open = false; count("service.dropped"); continue;
      }
      w.done = true;
      if (w.n != 1) violation("handler-count", "request %s was answered but its handler ran %d times", id.c_str(), w.n);
      if (h.status != 200 || h.body != w.body) violation("wrong-response", "request %s got status %d body %s, its handler wrote %s", id.c_str(), h.status, esc(h.body, 60).c_str(), esc(w.body, 60).c_str());
      mix_state(std::hash<std::string>()(id + h.body));
      if (!ka || !h.keepalive) { if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound)) violation("not-closed", "connection announced as closing stays open"); if (c->rx().size() != c->off) violation("trailing-bytes", "bytes follow the last response on a connection: %s", esc(c->rx().substr(c->off)).c_str()); open = false; }
      else { if (choose(S_WORK, 5) == 4) { c->c.close(); open = false; } else if (choose(S_WORK, 4) == 3) sleep_for(choose(S_WORK, 2000) * MS); if (open && c->eof() && sc.timeout < 10000) open = false; }
    }
    if (c) { if (open && c->rx().size() != c->off) violation("trailing-bytes", "bytes arrive that answer no request: %s", esc(c->rx().substr(c->off)).c_str()); c->c.close(); }
  }));
  for (int i = 0; i < bad; i++) cl.push_back(spawn("hostile" + std::to_string(i), [&, i] {
    int n = 1 + choose(S_WORK, 4);
    for (int k = 0; k < n; k++) {
      sleep_for(choose(S_WORK, 60) * MS);
      Conn *c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused while listening");
      int what = choose(S_WORK, 9); if (what == 8) early = true; count("fault.hostile_client");
      std::string id = "h" + std::to_string(i) + "." + std::to_string(k);
      std::string req = "GET /x HTTP/1.1\r\nX-Id: " + id + "\r\nX-Conn: " + std::to_string(nconn++) + "\r\nPadding: " + rand_bytes(S_WORK, rand_size(200), "abc") + "\r\n\r\n";
      Want &w = want[id]; w.body = make_body(id) + std::string(what == 6 || what == 7 ? 200000 : 0, 'z'); w.delay = choose(S_WORK, 3);
      switch (what) {
      case 0: c->c.close(); break;
      case 1: c->c.reset(); break;
      case 2: c->send(req.substr(0, choose(S_WORK, req.size())), SEG_FEW); if (choose(S_WORK, 2)) c->c.reset(); else c->c.close(); break;
      case 3: c->send(rand_bytes(S_WORK, 1 + rand_size(3000)), SEG_RANDOM); c->c.wait_rx([&] { return c->eof(); }, now() + choose(S_WORK, 5000) * MS); c->c.close(); break;
      case 4: c->send(req.substr(0, choose(S_WORK, req.size())), SEG_FEW); c->c.wait_rx([&] { return c->eof(); }, now() + 5 * SEC); c->c.close(); break; // silent for a while
      case 5: c->send(req, SEG_FEW); c->c.reset(); break;
      case 6: c->send(req, SEG_FEW); c->c.pause(); sleep_for(choose(S_WORK, 3000) * MS); c->c.reset(); break; // stops reading, then vanishes
      case 7: c->send(req, SEG_FEW); c->c.pause(); sleep_for(choose(S_WORK, 3000) * MS); c->c.resume(); c->c.close(); break;
      case 8: { // sends more requests before the response of the first
        w.delay = choose(S_WORK, 40); int cnum = nconn - 1, m = 1 + choose(S_WORK, 2); c->send(req, SEG_FEW);
        for (int q = 0; q < m; q++) { sleep_for(choose(S_WORK, 30) * MS); std::string id2 = id + "." + std::to_string(q); Want &w2 = want[id2]; w2.body = make_body(id2); w2.delay = choose(S_WORK, 20); c->send("GET /y HTTP/1.1\r\nX-Id: " + id2 + "\r\nX-Conn: " + std::to_string(cnum) + "\r\n\r\n", SEG_WHOLE); }
        sleep_for(choose(S_WORK, 200) * MS); c->c.close(); break; }
      }
    }
  }));
  for (auto f : cl) join(f);
  faults_off(); net.stall_rate = 0;
  for (int i = 0; i < 2; i++) { // after the faults: bounded progress
    Conn *c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused after faults stopped");
    std::string id = "last" + std::to_string(i); Want &w = want[id]; w.body = make_body(id);
    c->send("GET /l HTTP/1.1\r\nX-Id: " + id + "\r\nX-Conn: " + std::to_string(nconn++) + "\r\nConnection: close\r\n\r\n", SEG_FEW);
    HResp h = c->response(false, liveness_bound, true, "request after faults stopped"); evaluated();
    if (h.body != w.body) violation("wrong-response", "after faults stopped a response is wrong"); c->c.close();
  }
  for (auto &w : want) if (w.second.done && w.second.n != 1) violation("handler-count", "request %s: handler ran %d times", w.first.c_str(), w.second.n);
  s.stop(); s.destroy();
}
SCENARIO(P04, normal, 2) { service(false, false); }
SCENARIO(P04, hostile, 2) { service(true, false); }
SCENARIO(P04, faults, 2) { service(choose(S_WORK, 2), true); }
// handlers that occupy all workers but one do not delay anybody else
SCENARIO(P04, blocked, 1) {
  base_setup(true);
  SrvCfg sc = rand_srv(true); if (sc.mode == O_POLL) sc.mode = O_POOL; sc.threads = 2 + choose(S_WORK, 4);
  Srv s; s.create(sc); WaitQ gate; bool open_gate = false; int inside = 0; std::map<std::string, int> ran;
  s.handler = [&](onion_request *req, onion_response *res) {
    std::string id = onion_request_get_header(req, "X-Id"); ran[id]++;
    if (id[0] == 'b') { inside++; poke(); while (!open_gate) wait(gate, NEVER, "handler blocked by the application"); }
    int cd = onion_client_data(s.o) != nullptr; (void)cd;
    onion_response_printf(res, "%s", id.c_str()); return OCS_PROCESSED;
  };
  s.start();
  int nb = choose(S_WORK, sc.threads); describe("%s/%d threads, %d handlers blocked", mode_name(sc.mode), sc.threads, nb);
  std::vector<Conn *> bc; std::vector<Fiber *> cl;
  for (int i = 0; i < nb; i++) { Conn *c = new Conn; if (!c->open(sc.port, false)) violation("refused", "connection refused"); c->send("GET / HTTP/1.1\r\nX-Id: b" + std::to_string(i) + "\r\n\r\n", choose(S_NET, 4)); bc.push_back(c); }
  if (!wait_pred([&] { return inside == nb; }, now() + liveness_bound, "blocked handlers")) violation("no-progress", "only %d of %d requests reached a handler with %d worker threads; threads: %s", inside, nb, sc.threads, blocked_report().c_str());
  evaluated(); count("service.blocked_handlers", nb);
  int nc = 1 + choose(S_WORK, 4);
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    Conn *c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused");
    int nr = 1 + choose(S_WORK, 4);
    for (int k = 0; k < nr; k++) { std::string id = "q" + std::to_string(i) + "." + std::to_string(k); c->send("GET / HTTP/1.1\r\nX-Id: " + id + "\r\n\r\n", choose(S_NET, 4)); HResp h = c->response(false, liveness_bound, true, ("request " + id + " while a worker is free").c_str()); evaluated(); op_done(); if (h.body != id || ran[id] != 1) violation("wrong-response", "request %s got %s (handler ran %d times)", id.c_str(), esc(h.body).c_str(), ran[id]); }
    c->c.close();
  }));
  for (auto f : cl) join(f);
  open_gate = true; wake_all(gate);
  for (int i = 0; i < nb; i++) { HResp h = bc[i]->response(false, liveness_bound, true, "request whose handler was blocked"); evaluated(); if (h.body != "b" + std::to_string(i)) violation("wrong-response", "blocked request answered %s", esc(h.body).c_str()); bc[i]->c.close(); }
  s.stop(); s.destroy();
}
