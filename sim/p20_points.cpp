// P20: every listen point of every server serves on its own: what is secure, who the client is, the transport, and failing, stopping or starting again touch only what they should.
#include "http.h"
#include <string.h>
#include <unistd.h>
extern "C" {
#include <onion/types_internal.h>
#include <onion/listen_point.h>
#include <onion/https.h>
onion_listen_point *onion_http_new(); int onion_http_read_ready(onion_request *);
ssize_t __wrap_read(int, void *, size_t); ssize_t __wrap_write(int, const void *, size_t);
}
using namespace sim;

namespace {
const char KEY = 0x2a; int custom_open, refuse_next; long refused; struct Box { int magic; };
// A transport of the application: each byte xored
int own_init(onion_request *req) {
  if (onion_listen_point_request_init_from_socket(req) < 0) return -1;
  if (refuse_next) { refuse_next--; refused++; onion_listen_point_request_close_socket(req); return -1; }
  custom_open++; req->connection.user_data = new Box{77}; return 0;
}
void own_close(onion_request *req) { Box *b = (Box *)req->connection.user_data; if (b) { if (b->magic != 77) violation("transport-data", "the data of the transport was altered"); b->magic = 0; delete b; req->connection.user_data = nullptr; custom_open--; } onion_listen_point_request_close_socket(req); }
ssize_t own_read(onion_request *req, char *d, size_t n) { ssize_t r; do r = __wrap_read(req->connection.fd, d, n); while (r < 0 && errno == EINTR); for (ssize_t i = 0; i < r; i++) d[i] ^= KEY; return r; }
ssize_t own_write(onion_request *req, const char *d, size_t n) { std::string x(d, n); for (char &c : x) c ^= KEY; ssize_t r; do r = __wrap_write(req->connection.fd, x.data(), n); while (r < 0 && errno == EINTR); return r; }
onion_listen_point *own_new() { onion_listen_point *p = onion_listen_point_new(); p->request_init = own_init; p->close = own_close; p->read = own_read; p->write = own_write; p->read_ready = onion_http_read_ready; p->secure = false; return p; }
enum { HTTP, HTTPS, OWN };
struct Point { int kind, port; onion_listen_point *lp; bool fail; std::string cert; };
struct Exch { int port, kind; int cid; };
}

SCENARIO(P20, points, 2) {
  bool conc = choose(S_WORK, 4) != 3; base_setup(conc); warm_up(); quiet_log(); custom_open = refuse_next = 0; refused = 0;
  MemSnapshot ms = mem_snapshot(); int fds = fd_open_count(); if (choose(S_FAULT, 2)) fault_enable("gai_unusable_first", 500); if (choose(S_FAULT, 3) == 2) fault_enable("tls_init_fail", 150);
  SrvCfg sc = rand_srv(true); Srv s; s.c = sc; s.o = onion_new(sc.mode | (sc.detach ? O_DETACH_LISTEN : 0)); if (!s.o) violation("no-server", "no server"); onion_set_max_threads(s.o, sc.threads); onion_set_timeout(s.o, 3600 * 1000); onion_set_root_handler(s.o, onion_handler_new((onion_handler_handler)Srv::tramp, &s, nullptr));
  std::vector<Point> pts; int np = 1 + choose(S_WORK, 4), failed_tls = 0; bool dflt = choose(S_WORK, 6) == 5; if (dflt) np = 0; // nothing said: plain at 8080
  for (int i = 0; i < np; i++) {
    int kind = choose(S_WORK, 3), port = 8080 + i; onion_listen_point *lp = kind == HTTP ? onion_http_new() : kind == HTTPS ? onion_https_new() : own_new();
    if (!lp) { if (kind != HTTPS || !faults_fired()) violation("no-point", "no listen point without any fault"); failed_tls++; if (onion_add_listen_point(s.o, NULL, "8080", lp) >= 0) violation("no-point", "a listen point that does not exist was added"); continue; }
    static const char *hn[] = {nullptr, "localhost", "127.0.0.1", "0.0.0.0"}; if (onion_add_listen_point(s.o, hn[choose(S_WORK, 4)], std::to_string(port).c_str(), lp) != 0) violation("no-point", "a listen point could not be added"); pts.push_back({kind, port, lp, false, ""});
    if (kind == HTTPS) { std::string n = "c" + std::to_string(i); tls_files(n); if (choose(S_WORK, 4) == 3 && onion_https_set_certificate(lp, O_SSL_CERTIFICATE_KEY, "/etc/onion/none.pem", "/etc/onion/none.key") >= 0) violation("certificate", "a certificate that does not exist is accepted"); if (tls_set(n, lp, nullptr, choose(S_WORK, 3)) < 0) violation("certificate", "a good certificate is refused"); pts.back().cert = n; }
    else if (choose(S_WORK, 6) == 5 && onion_https_set_certificate(lp, O_SSL_CERTIFICATE_KEY, "/etc/onion/c9.pem", "/etc/onion/c9.key") >= 0) violation("certificate", "a certificate is accepted by a listen point without TLS");
  }
  tls_files("c9"); bool nothing = pts.empty();
  auto certify = [&] { // onion_set_certificate: makes the first one, or the default, a TLS one; where it is stays
    bool bad = choose(S_WORK, 6) == 5; uint64_t ff = faults_fired(); int r = bad ? onion_set_certificate(s.o, O_SSL_CERTIFICATE_KEY, "/etc/onion/none.pem", "/etc/onion/none.key") : tls_set("c9", nullptr, s.o, choose(S_WORK, 3)); bool flt = faults_fired() != ff; evaluated();
    if (pts.size() && pts[0].kind == OWN) { if (r >= 0) violation("certificate", "a transport of the application is given a certificate"); return; }
    if (bad) { if (r >= 0) violation("certificate", "a certificate that does not exist is accepted"); } else if (r < 0 && !flt) violation("certificate", "a good certificate is refused");
    if (pts.empty()) { if (onion_get_listen_point(s.o, 0)) pts.push_back({HTTPS, 8080, nullptr, false, ""}); else if (!flt) violation("certificate", "no TLS listen point is made"); }
    if (pts.size() && !flt) { if (pts[0].kind == HTTP) { pts[0].kind = HTTPS; pts[0].lp = nullptr; } if (!bad) pts[0].cert = "c9"; } count("points.certified");
  };
  if (choose(S_WORK, 4) == 3) certify();
  if (choose(S_WORK, 4) == 3) { static const char *hn[] = {"localhost", "127.0.0.1", "0.0.0.0"}; onion_set_hostname(s.o, hn[choose(S_WORK, 3)]); if (pts.empty()) pts.push_back({HTTP, 8080, nullptr, false, ""}); }
  if (choose(S_WORK, 3) == 2) { onion_set_port(s.o, "9000"); if (pts.empty()) pts.push_back({HTTP, 9000, nullptr, false, ""}); pts[0].port = 9000; }
  if (choose(S_WORK, 6) == 5) certify();
  if (choose(S_WORK, 6) == 5) { onion_set_port(s.o, "9001"); if (pts.empty()) pts.push_back({HTTP, 9001, nullptr, false, ""}); pts[0].port = 9001; }
  if (pts.empty()) pts.push_back({HTTP, 8080, nullptr, false, ""});
  sc.port = s.c.port = pts[0].port;
  auto order = [&](const char *when) { for (size_t i = 0; i < pts.size(); i++) { onion_listen_point *lp = onion_get_listen_point(s.o, i); if (!pts[i].lp) { pts[i].lp = lp; if (!lp) violation("point-order", "%s there is no default listen point", when); } else if (lp != pts[i].lp) violation("point-order", "%s listen point %zu is not the one that was added in that place", when, i); } for (int k = 0; k < 3; k++) if (onion_get_listen_point(s.o, pts.size() + k)) violation("point-order", "%s there is a listen point past the last one", when); evaluated(); };
  if (!nothing) order("before listening");
  std::map<std::string, Exch> ex; std::map<std::string, int> ran;
  s.handler = [&](onion_request *req, onion_response *res) -> int {
    const char *idp = onion_request_get_header(req, "X-Id"); std::string id = idp ? idp : "?"; auto i = ex.find(id); if (i == ex.end()) violation("phantom-request", "a handler runs for %s, which nobody sent", id.c_str()); ran[id]++;
    if (!!onion_request_is_secure(req) != (i->second.kind == HTTPS)) violation("wrong-secure", "request %s came to a %s listen point, but the handler is told it is %ssecure", id.c_str(), i->second.kind == HTTPS ? "TLS" : "plain", onion_request_is_secure(req) ? "" : "not ");
    if (choose(S_WORK, 2)) { char w[40]; snprintf(w, sizeof w, "10.0.%d.%d", i->second.cid >> 8, i->second.cid & 255); const char *d = onion_request_get_client_description(req); if (!d || strcmp(d, w)) violation("wrong-client", "request %s comes from %s, the handler is told %s", id.c_str(), w, d ? d : "nobody"); const char *d2 = onion_request_get_client_description(req); if (!d2 || strcmp(d2, w)) violation("wrong-client", "asked again, another client"); }
    if (choose(S_WORK, 3) == 2) yield_sync("handler"); onion_response_printf(res, "<%s at %d>", id.c_str(), i->second.port); evaluated(); return OCS_PROCESSED;
  };
  int rn = 0; auto get = [&](Point &p, int n, const char *what) {
    Conn *c = new Conn; if (p.kind == OWN) c->key = KEY; if (!c->open(p.port, p.kind == HTTPS, now() + liveness_bound)) violation("refused", "%s: connection refused at port %d", what, p.port);
    for (int k = 0; k < n; k++) {
      std::string id = "r" + std::to_string(rn++); ex[id] = {p.port, p.kind, c->c.id}; c->send("GET /" + id + " HTTP/1.1\r\nX-Id: " + id + "\r\n\r\n", choose(S_NET, SEG_NMODES)); HResp h = c->response(false, liveness_bound, false, what); op_done(); evaluated();
      if (!h.complete) { if (!c->eof()) violation("no-progress", "%s: neither answered nor closed", what); if (p.kind == HTTPS && p.cert.empty()) { c->c.close(); return; } if (p.kind != OWN || k || refused-- <= 0) violation("no-response", "%s: dropped at port %d (got %s)", what, p.port, esc(c->rx()).c_str()); c->c.close(); return; }
      if (p.kind == HTTPS && c->dec.cert != p.cert) violation("certificate", "port %d presents the certificate %s instead of %s", p.port, c->dec.cert.c_str(), p.cert.c_str());
      char w[80]; snprintf(w, sizeof w, "<%s at %d>", id.c_str(), p.port); if (h.status != 200 || h.body != w || ran[id] != 1) violation("wrong-response", "%s: request %s at port %d got %d %s, its handler ran %d times", what, id.c_str(), p.port, h.status, esc(h.body).c_str(), ran[id]);
      if (choose(S_WORK, 4) == 3) sleep_for(choose(S_WORK, 30) * MS);
    }
    if (choose(S_WORK, 4)) c->c.close(); mix_state(p.port * 3 + p.kind); // else: left open
  };
  int cycles = 1 + choose(S_WORK, 3); describe("%s/%d threads%s, %zu listen points, %d cycles", mode_name(sc.mode), sc.threads, sc.detach ? " detached" : "", pts.size(), cycles);
  for (int cy = 0; cy < cycles; cy++) {
    net_faults(); port_in_use.clear(); size_t nf = 0; for (auto &p : pts) { p.fail = choose(S_FAULT, 4) == 3; if (p.fail) { nf++; port_in_use.insert(p.port); count("fault.port_in_use"); } }
    bool none = nf == pts.size(); s.listening_done = false; s.listen_ret = -99; s.f = spawn("listen", [&] { s.listen_ret = onion_listen(s.o); s.listening_done = true; poke(); }, true);
    if (none) { if (!join_until(s.f, now() + liveness_bound)) violation("listen-stuck", "no port could be opened, but listening does not end"); evaluated(); if (s.listen_ret == 0 && !sc.detach) violation("listen-result", "success although no port could be opened"); if (!wait_pred([&] { return threads_alive() == 0; }, now() + liveness_bound, "threads")) violation("listen-stuck", "no port could be opened, but listening does not end"); for (auto &p : pts) if (port_listening(p.port)) violation("listen-result", "port %d listens", p.port); continue; }
    for (auto &p : pts) if (!p.fail && !wait_pred([&] { return port_listening(p.port); }, now() + liveness_bound, "listen")) violation("not-listening", "listen point at port %d does not listen; %zu of %zu points could not be opened", p.port, nf, pts.size());
    std::vector<Fiber *> cl; int nc = 1 + choose(S_WORK, 4); std::vector<size_t> up; for (size_t i = 0; i < pts.size(); i++) if (!pts[i].fail) up.push_back(i);
    for (auto &p : pts) if (p.fail) { Client *c = new Client; if (c->connect(p.port, now() + 5 * SEC)) violation("listen-result", "the server answers at port %d, which belongs to somebody else", p.port); }
    if (!sc.detach && s.listening_done) violation("listen-result", "listening ended by itself");
    if (choose(S_WORK, 4) == 3) refuse_next = 1 + choose(S_WORK, 2);
    for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&] { int n = 1 + choose(S_WORK, 3); for (int k = 0; k < n; k++) get(pts[up[choose(S_WORK, up.size())]], 1 + choose(S_WORK, 3), "client"); }));
    for (auto f : cl) join(f); refuse_next = 0; refused = 0; for (size_t i : up) get(pts[i], 1, "each point");
    order("while listening"); s.stop(); if (!wait_pred([&] { return threads_alive() == 0; }, now() + liveness_bound, "threads")) violation("stop-stuck", "threads remain after the stop"); for (auto &p : pts) if (port_listening(p.port)) violation("still-listening", "port %d is still open after the stop", p.port); evaluated(); count("points.cycles");
  }
  faults_off(); s.destroy(); if (custom_open) violation("transport-leak", "%d connections of the own transport were never closed", custom_open);
  if (tls_sessions_live || tls_creds_live || tls_dh_live || tls_prio_live) violation("tls-leak", "TLS objects left: %d sessions, %d credentials, %d dh, %d priorities", tls_sessions_live, tls_creds_live, tls_dh_live, tls_prio_live);
  check_clean("after the server was freed", ms, fds);
}

SCENARIO(P20, servers, 1) { // several servers in the same process
  bool conc = choose(S_WORK, 6) != 5; base_setup(conc); warm_up(); net_faults(); MemSnapshot ms = mem_snapshot(); int fds = fd_open_count(); int ns = 2 + choose(S_WORK, 2);
  struct One { Srv s; std::map<std::string, int> ran; std::map<std::string, std::string> val; bool up = false; int rn = 0; }; std::vector<One *> sv; describe("%d servers", ns);
  for (int i = 0; i < ns; i++) {
    One *o = new One; sv.push_back(o); SrvCfg sc = rand_srv(); sc.port = 8080 + i; sc.https = choose(S_WORK, 4) == 3; o->s.create(sc);
    o->s.handler = [o, i](onion_request *req, onion_response *res) -> int {
      const char *id = onion_request_get_header(req, "X-Id"); const char *m = onion_request_get_header(req, "X-Server"); if (!id || !m || atoi(m) != i) violation("wrong-server", "server %d got a request for %s", i, m ? m : "nobody"); if (++o->ran[id] > 1) violation("duplicate-request", "request %s reached the handler again", id);
      const char *v = onion_request_get_session(req, "who"); onion_response_printf(res, "[%d %s %s]", i, id, v ? v : "-"); if (!v) onion_dict_add(onion_request_get_session_dict(req), "who", id, OD_DUP_ALL | OD_REPLACE);
      if (choose(S_WORK, 3) == 2) yield_sync("handler"); return OCS_PROCESSED;
    };
  }
  std::vector<Fiber *> fb;
  for (int i = 0; i < ns; i++) fb.push_back(spawn("user" + std::to_string(i), [&, i] {
    One *o = sv[i]; int cycles = 1 + choose(S_WORK, 3);
    for (int cy = 0; cy < cycles; cy++) {
      sleep_for(choose(S_WORK, 30) * MS); o->s.start(); if (!port_listening(8080 + i)) violation("not-listening", "server %d does not listen", i); std::vector<Fiber *> cl; int nc = 1 + choose(S_WORK, 3);
      for (int k = 0; k < nc; k++) cl.push_back(spawn("client" + std::to_string(i) + "." + std::to_string(k), [&, i, o] {
        std::string cookie, first; int n = 1 + choose(S_WORK, 4);
        for (int q = 0; q < n; q++) { Conn *c = new Conn; if (!c->open(8080 + i, o->s.c.https, now() + liveness_bound)) violation("refused", "server %d listens but refuses", i); std::string id = "q" + std::to_string(o->rn++); c->send("GET / HTTP/1.1\r\nX-Id: " + id + "\r\nX-Server: " + std::to_string(i) + "\r\n" + (cookie.empty() ? "" : "Cookie: sessionid=" + cookie + "\r\n") + "Connection: close\r\n\r\n", choose(S_NET, SEG_NMODES)); HResp h = c->response(false, liveness_bound, true, "request to one of several servers"); evaluated(); op_done();
          std::string w = "[" + std::to_string(i) + " " + id + " " + (first.empty() ? "-" : first) + "]"; if (h.body != w) violation("wrong-response", "server %d answered %s, expected %s", i, esc(h.body).c_str(), w.c_str()); if (first.empty()) { std::string sc = h.get("Set-Cookie"); size_t a = sc.find("sessionid="); if (a == std::string::npos) violation("no-session", "no session cookie"); cookie = sc.substr(a + 10, sc.find(';', a) - a - 10); first = id; } c->c.close(); }
      }));
      for (auto f : cl) join(f); o->s.stop(); if (port_listening(8080 + i)) violation("still-listening", "server %d still listens", i); mix_state(i * 7 + cy);
    }
    if (choose(S_WORK, 2)) { Fiber *f = spawn("freer", [&] { onion_free(o->s.o); o->s.o = nullptr; }, true); if (!join_until(f, now() + liveness_bound)) violation("free-stuck", "freeing server %d does not end", i); count("servers.freed_while_others_run"); }
  }));
  for (auto f : fb) join(f); faults_off(); for (auto o : sv) if (o->s.o) o->s.destroy();
  if (tls_sessions_live || tls_creds_live || tls_dh_live || tls_prio_live) violation("tls-leak", "TLS objects left"); check_clean("after all the servers were freed", ms, fds); for (auto o : sv) delete o;
}
