// P07: whatever a connection did and however it ended, once it is over the running server holds nothing of it. Also P09: garbage against every built-in handler.
#include "http.h"
#include <string.h>
extern "C" {
#include <onion/url.h>
#include <onion/shortcuts.h>
#include <onion/https.h>
#include <onion/mime.h>
#include <onion/handlers/exportlocal.h>
#include <onion/handlers/path.h>
#include <onion/handlers/static.h>
#include <onion/handlers/internal_status.h>
#include <onion/handlers/auth_pam.h>
#include <onion/handlers/webdav.h>
}
#include <onion/websocket.h>
extern "C" void sim_user_free(void *);
using namespace sim;
std::string odd_request(); std::string odd_variant(const std::string &);   // p09_robust.cpp

namespace {
const char *WSK = "Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n";
onion_connection_status ws_echo(void *, onion_websocket *ws, ssize_t ready) {
  if (ready < 0) return OCS_CLOSE_CONNECTION; char tmp[700]; int r = onion_websocket_read(ws, tmp, ready < (ssize_t)sizeof tmp ? ready : sizeof tmp); if (r <= 0) return OCS_NEED_MORE_DATA;
  if (onion_websocket_write(ws, tmp, r) != r) return OCS_CLOSE_CONNECTION; return tmp[0] == 'q' ? OCS_CLOSE_CONNECTION : OCS_NEED_MORE_DATA;
}
int h_ws(void *, onion_request *req, onion_response *res) { onion_websocket *ws = onion_websocket_new(req, res); if (!ws) { onion_response_write0(res, "no websocket"); return OCS_PROCESSED; } onion_websocket_set_callback(ws, ws_echo); return OCS_WEBSOCKET; }
int h_sess(void *, onion_request *req, onion_response *res) { onion_dict *d = onion_request_get_session_dict(req); if (d) { onion_dict_lock_write(d); onion_dict_add(d, "k", "v", OD_DUP_ALL | OD_REPLACE); onion_dict *s = onion_dict_new(); onion_dict_add(s, "in", "side", OD_DUP_ALL); onion_dict_add(d, "sub", s, OD_DUP_KEY | OD_DICT | OD_FREE_VALUE | OD_REPLACE); onion_dict_unlock(d); } onion_request_session_free(req); onion_response_write0(res, "session"); return OCS_PROCESSED; }
int h_empty(void *, onion_request *req, onion_response *res) { onion_request_get_session_dict(req); onion_response_write0(res, "no session"); return OCS_PROCESSED; }
int h_big(void *, onion_request *req, onion_response *res) { const char *n = onion_request_get_query(req, "n"); std::string b(n ? atoi(n) : 100, 'x'); if (onion_request_get_query(req, "len")) onion_response_set_length(res, b.size()); size_t p = 0; while (p < b.size()) { ssize_t w = onion_response_write(res, b.data() + p, std::min<size_t>(b.size() - p, 1 + b.size() / 7)); if (w <= 0) return OCS_CLOSE_CONNECTION; p += w; } return OCS_PROCESSED; }
int h_post(void *, onion_request *req, onion_response *res) { size_t n = 0; for (auto d : std::vector<const onion_dict *>{onion_request_get_post_dict(req), onion_request_get_file_dict(req), onion_request_get_query_dict(req), onion_request_get_cookies_dict(req)}) n += onion_dict_count(d); const onion_block *b = onion_request_get_data(req); if (b) n += onion_block_size(b); onion_response_add_cookie(res, "seen", "yes", 100, "/", NULL, 0); onion_response_printf(res, "%zu", n); return OCS_PROCESSED; }
int h_err(void *, onion_request *req, onion_response *res) { const char *k = onion_request_get_query(req, "k"); switch (k ? atoi(k) : 0) { case 0: return OCS_INTERNAL_ERROR; case 1: return OCS_NOT_PROCESSED; case 2: return OCS_CLOSE_CONNECTION; case 3: return OCS_FORBIDDEN; case 4: return onion_shortcut_internal_redirect("post", req, res); case 5: return onion_shortcut_redirect("/post", req, res); case 6: return onion_shortcut_response("text", 200, req, res); case 7: onion_response_write0(res, "part"); return OCS_INTERNAL_ERROR; case 8: return onion_shortcut_response_file("/srv/pub/a.txt", req, res); default: return OCS_NOT_IMPLEMENTED; } }
int h_lang(void *, onion_request *req, onion_response *res) { const char *l = onion_request_get_language_code(req); onion_response_printf(res, "%s", l ? l : "-"); if (l) sim_user_free((void *)l); const char *d = onion_request_get_client_description(req); onion_response_printf(res, " %s", d ? d : "?"); return OCS_PROCESSED; }
int h_prot(void *, onion_request *req, onion_response *res) { onion_request_session_free(req); onion_response_write0(res, "protected"); return OCS_PROCESSED; }

struct App {
  Srv s; SrvCfg c; int tls_port = 8443;
  void build(const SrvCfg &cfg) {
    c = cfg; fs::put_file("/srv/pub/a.txt", std::string(3000, 'a')); fs::put_file("/srv/pub/sub/b.html", std::string(40000, 'b')); fs::put_file("/srv/dav/x", "xx"); fs::put_dir("/srv/dav/d"); pam::users.clear(); pam::users["svc/u"] = "p"; pam::live = 0;
    s.create(c); onion_handler_free(onion_get_root_handler(s.o)); onion_set_root_handler(s.o, nullptr);
    onion_listen_point *p = onion_https_new(); if (p) onion_add_listen_point(s.o, NULL, "8443", p);
    onion_url *u = onion_root_url(s.o);
    onion_url_add(u, "ws", (void *)h_ws); onion_url_add(u, "sess", (void *)h_sess); onion_url_add(u, "empty", (void *)h_empty); onion_url_add(u, "^big", (void *)h_big); onion_url_add(u, "post", (void *)h_post); onion_url_add(u, "err", (void *)h_err); onion_url_add(u, "lang", (void *)h_lang);
    onion_url_add_static(u, "static", "fixed text", 200); onion_url_add_handler(u, "status", onion_internal_status());
    onion_url_add_handler(u, "^files/", onion_handler_export_local_new("/srv/pub")); onion_url_add_handler(u, "^dav/", onion_handler_webdav("/srv/dav", NULL));
    onion_url_add_handler(u, "^auth/", onion_handler_auth_pam("realm", "svc", onion_handler_new((onion_handler_handler)h_prot, nullptr, nullptr)));
    onion_url *in = onion_url_new(); onion_url_add(in, "^x([0-9]*)$", (void *)h_post); onion_url_add_url(u, "^nest/", in);
    onion_url_add_handler(u, "^path/", onion_handler_path("^p", onion_handler_static("in a path", 200)));
  }
};
const int NACT = 22;
std::string cl(const std::string &b) { return "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; }
std::string act_request(int a, GenCfg &g, int n) {
  std::string tag = std::to_string(n);
  switch (a) {
  case 0: return "GET /static HTTP/1.1\r\n\r\n";
  case 1: return "GET /big?n=" + std::to_string(choose(S_WORK, 100000)) + (choose(S_WORK, 2) ? "&len=1" : "") + " HTTP/1." + (choose(S_WORK, 3) ? "1" : "0") + "\r\n\r\n";
  case 2: return "GET /sess HTTP/1.1\r\n" + std::string(choose(S_WORK, 2) ? "Cookie: sessionid=abc\r\n" : "") + "\r\n";
  case 3: return "GET /empty HTTP/1.1\r\nCookie: a=b; c=d\r\n\r\n";
  case 4: { HReq r = gen_request(g, tag, true); size_t p = r.raw.find(' '), q = r.raw.find(' ', p + 1); return r.raw.substr(0, p) + " /post" + r.raw.substr(q); }
  case 5: { std::string b = "--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n.txt\"\r\n\r\n" + rand_content(rand_size(6000)) + "\r\n--B\r\nContent-Disposition: form-data; name=\"t\"\r\n\r\nvalue\r\n--B--\r\n"; return "POST /post HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\n" + cl(b); }
  case 6: return "PUT /post HTTP/1.1\r\n" + cl(rand_content(rand_size(9000)));
  case 7: return "GET /err?k=" + std::to_string(choose(S_WORK, 10)) + " HTTP/1.1\r\n\r\n";
  case 8: return std::string("GET /files/") + (choose(S_WORK, 3) ? "a.txt" : choose(S_WORK, 2) ? "sub/b.html" : "../x") + " HTTP/1.1\r\n" + (choose(S_WORK, 3) ? "" : "Range: bytes=10-200\r\n") + "\r\n";
  case 9: return "GET /files/ HTTP/1.1\r\n\r\n";
  case 10: return "GET /status HTTP/1.1\r\n\r\n";
  case 11: return "PROPFIND /dav/ HTTP/1.1\r\nDepth: 1\r\n" + std::string(choose(S_WORK, 2) ? "\r\n" : cl("<?xml version=\"1.0\"?><propfind xmlns=\"DAV:\"><prop><getcontentlength/><resourcetype/></prop></propfind>"));
  case 12: return "PUT /dav/f" + std::to_string(choose(S_WORK, 3)) + " HTTP/1.1\r\n" + cl(rand_content(rand_size(5000)));
  case 13: { static const char *t[] = {"MKCOL /dav/m", "DELETE /dav/f1", "DELETE /dav/m", "OPTIONS /dav/", "PROPPATCH /dav/f0", "MOVE /dav/f0"}; int k = choose(S_WORK, 6); return std::string(t[k]) + " HTTP/1.1\r\n" + (k == 5 ? "Destination: http://h/dav/f1\r\n\r\n" : k == 4 ? cl("<?xml version=\"1.0\"?><propertyupdate xmlns=\"DAV:\"><set><prop><executable xmlns=\"http://apache.org/dav/props/\">T</executable></prop></set></propertyupdate>") : "\r\n"); }
  case 14: { static const char *t[] = {"dTpw", "dTpx", "===", "dQ==", "dTpwIA=="}; return "GET /auth/z HTTP/1.1\r\n" + (choose(S_WORK, 4) ? "Authorization: Basic " + std::string(t[choose(S_WORK, 5)]) + "\r\n" : std::string()) + "\r\n"; }
  case 15: return "GET /nest/x" + tag + " HTTP/1.1\r\n\r\n";
  case 16: return "GET /path/p HTTP/1.1\r\n\r\n";
  case 17: return "GET /nothing/here HTTP/1.1\r\n\r\n";
  case 18: return "GET /lang HTTP/1.1\r\nAccept-Language: es,en;q=0.5\r\n\r\n";
  case 19: return "HEAD /files/a.txt HTTP/1.1\r\nIf-None-Match: x\r\n\r\n";
  case 20: return std::string("GET /ws HTTP/1.1\r\n") + WSK + "\r\n";
  default: return odd_request();
  }
}
std::string ws_frame(int op, const std::string &p, bool odd) { std::string r; r += (char)(0x80 | op); size_t n = p.size(); if (odd && choose(S_WORK, 3) == 2) { r += (char)(0x80 | 127); for (int i = 0; i < 8; i++) r += (char)choose(S_WORK, 256); } else if (n < 126) r += (char)(0x80 | n); else { r += (char)(0x80 | 126); r += (char)(n >> 8); r += (char)n; } r.append(4, 'k'); for (char c : p) r += c ^ 'k'; return r; }
// one connection: some requests and an end
void visit(App &app, int who, int forced, GenCfg &g, bool polite) {
  bool tls = app.c.mode != O_ONE_LOOP && (polite ? (forced & 1) : choose(S_WORK, 3) == 2); Conn *c = new Conn; int a = polite ? forced : choose(S_WORK, NACT);
  if (tls && !polite && choose(S_WORK, 4) == 3) { // does not get through the handshake
    if (!c->c.connect(app.tls_port, now() + liveness_bound)) return; count("steady.no_handshake");
    switch (choose(S_WORK, 4)) { case 0: c->c.send(rand_bytes(S_WORK, 1 + choose(S_WORK, 100)), SEG_FEW); break; case 1: { std::string h = tls_client_hello(); c->c.send(h.substr(0, choose(S_WORK, h.size())), SEG_FEW); break; } case 2: break; case 3: c->c.send("GET / HTTP/1.1\r\n\r\n", SEG_WHOLE); break; }
    if (choose(S_WORK, 4) == 3) { count("steady.handshake_left_to_time_out"); c->c.wait_rx([&] { return c->c.eof || c->c.rst; }, now() + liveness_bound); } else sleep_for(choose(S_WORK, 400) * MS);
    if (choose(S_WORK, 2)) c->c.reset(); else c->c.close(); return;
  }
  if (!c->open(tls ? app.tls_port : app.c.port, tls, now() + liveness_bound)) return; // a listen queue that overflows is not this property
  int n = polite ? 1 : 1 + choose(S_WORK, 3);
  for (int k = 0; k < n; k++) {
    if (k) a = choose(S_WORK, NACT);
    std::string raw = act_request(a, g, who * 10 + k); op_done(); char cn[40]; snprintf(cn, sizeof cn, "steady.action%d", a); count(cn);
    int cut = polite ? 0 : choose(S_WORK, 6); int seg = choose(S_NET, SEG_NMODES); if (seg == SEG_BYTES && raw.size() > 500) seg = SEG_RANDOM;
    if (cut == 4) { c->send(raw.substr(0, choose(S_WORK, raw.size())), seg); sleep_for(choose(S_WORK, 300) * MS); count("steady.cut_request"); break; }
    if (cut == 5) { c->send(raw, seg); if (choose(S_WORK, 2)) c->c.pause(); sleep_for(choose(S_WORK, 100) * MS); count("steady.cut_response"); break; }
    c->send(raw, seg);
    if (a == 20) {
      c->c.wait_rx([&] { return c->eof() || c->rx().find("\r\n\r\n", c->off) != std::string::npos; }, now() + 20 * SEC); bool odd = !polite && choose(S_WORK, 3) == 2; int m = 1 + choose(S_WORK, 4);
      for (int q = 0; q < m && !c->eof(); q++) { static const int ops[] = {1, 2, 9, 10, 1, 8, 0, 3}; int op = ops[choose(S_WORK, odd ? 8 : 5)]; c->send(ws_frame(op, rand_bytes(S_WORK, op >= 8 ? choose(S_WORK, 100) : rand_size(1500), "abcq"), odd), choose(S_NET, SEG_NMODES)); sleep_for(choose(S_WORK, 30) * MS); }
      if (choose(S_WORK, 2)) c->send(ws_frame(8, "", false), SEG_WHOLE); if (choose(S_WORK, 2)) c->c.wait_rx([&] { return c->eof(); }, now() + 2 * SEC); count("steady.websocket"); break;
    }
    HResp h = c->response(a == 19, a == 21 ? 3 * SEC : 20 * SEC, false, "steady"); evaluated(); mix_state(h.status * 100 + a);
    if (!h.complete || !h.keepalive || app.c.mode == O_ONE_LOOP) break;
    if (!polite && choose(S_WORK, 4) == 3) sleep_for(choose(S_WORK, 1500) * MS);
  }
  if (!polite && choose(S_WORK, 8) == 7) { c->c.resume(); count("steady.left_to_time_out"); c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound); }
  if (choose(S_WORK, 3) == 2) c->c.reset(); else c->c.close();
}
struct Base { uint64_t blocks = 0, bytes = 0; int fds = 0, threads = 0, tls = 0; MemSnapshot ms; };
std::string over(const Base &b) {
  char t[600]; if (server_open_socks()) { snprintf(t, sizeof t, "%llu connections are still open", (unsigned long long)server_open_socks()); return t; }
  if (fd_open_count() > b.fds) { snprintf(t, sizeof t, "%d descriptors are open, %d before: %s", fd_open_count(), b.fds, fd_list().substr(0, 400).c_str()); return t; }
  if (threads_alive() > b.threads) { snprintf(t, sizeof t, "%d threads, %d before: %s", threads_alive(), b.threads, blocked_report().substr(0, 400).c_str()); return t; }
  if (tls_sessions_live > b.tls) { snprintf(t, sizeof t, "%d TLS sessions", tls_sessions_live); return t; }
  if (pam::live) { snprintf(t, sizeof t, "%d PAM handles", pam::live); return t; }
  auto tmp = fs::list("/tmp"); if (!tmp.empty()) return "temporary file " + tmp[0];
  if (open_dirs()) return "a directory is still open";
  if (live_blocks() > b.blocks) { std::string d; live_since(b.ms, &d); snprintf(t, sizeof t, "%llu blocks of memory, %llu before: %s", (unsigned long long)live_blocks(), (unsigned long long)b.blocks, d.substr(0, 400).c_str()); return t; }
  return "";
}
void settle(const Base *b, const char *when) { // polls: nothing in particular tells when a server has forgotten a connection
  Time end = now() + liveness_bound; std::string w;
  for (;;) { w = b ? over(*b) : server_open_socks() ? "open" : ""; if (w.empty() || now() > end) break; sleep_for(100 * MS); }
  evaluated(); if (w.size()) violation("not-released", "%s, %.0f s after the last connection ended: %s", when, liveness_bound / 1e9, w.c_str());
}
}

SCENARIO(P07, steady, 1) {
  bool conc = choose(S_WORK, 4) != 3; base_setup(conc); max_stall_total = 2 * SEC; GenCfg g; g.max_body = 2500;
  SrvCfg sc = rand_srv(); sc.timeout = 3000 + choose(S_WORK, 3) * 1000; if (choose(S_WORK, 4) == 3) sc.max_post = 1500, sc.max_file = 3000;
  App *app = new App; app->build(sc); app->s.start(); if (!wait_pred([&] { return port_listening(8443); }, now() + 60 * SEC, "https port")) violation("listen-stuck", "the https port was not opened");
  onion_mime_get("a.txt"); for (int i = 0; i < NACT; i++) visit(*app, i, i, g, true); // everything once: what is kept for the process exists now
  settle(nullptr, "after the first requests"); sleep_for(1 * SEC);
  Base b; b.ms = mem_snapshot(); b.blocks = live_blocks(); b.bytes = live_bytes(); b.fds = fd_open_count(); b.threads = threads_alive(); b.tls = tls_sessions_live; if (b.tls) violation("not-released", "%d TLS sessions after all connections ended", b.tls);
  int rounds = 1 + choose(S_WORK, 2), nc = conc ? 1 + choose(S_WORK, 5) : 1; bool flt = choose(S_WORK, 2); describe("%s/%d threads, %d clients, %d rounds%s", mode_name(sc.mode), sc.threads, nc, rounds, flt ? ", faults" : "");
  for (int r = 0; r < rounds; r++) {
    net_faults();
    if (flt) { static const char *f[] = {"accept_emfile", "accept_aborted", "write_error", "thread_create_fail", "epoll_add_enospc", "mkstemp_fail", "disk_enospc", "disk_write_eio", "disk_read_eio", "disk_open_fail", "rename_fail", "opendir_fail", "disk_unlink_fail", "tls_init_fail", "pam_start_fail", "pam_fail", "gni_fail", "poll_eintr", "sendfile_eintr", "write_transient"}; int n = 1 + choose(S_FAULT, 4); static const unsigned rt[] = {20, 80, 300}; for (int i = 0; i < n; i++) fault_enable(f[choose(S_FAULT, 20)], rt[choose(S_FAULT, 3)]); }
    std::vector<Fiber *> cl;
    for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] { int n = 1 + choose(S_WORK, 4); for (int k = 0; k < n; k++) { visit(*app, i, 0, g, false); if (choose(S_WORK, 2)) sleep_for(choose(S_WORK, 100) * MS); } }));
    for (auto f : cl) join(f);
    bool unl = fault_enabled("disk_unlink_fail"); faults_off(); if (unl) for (auto &t : fs::list("/tmp")) fs::remove_path(t); // could not be removed
    settle(&b, "after a round of connections");
  }
  visit(*app, 0, 0, g, true); app->s.stop(); app->s.destroy();
}

// arbitrary variations of what each built-in handler expects
SCENARIO(P09, handlers, 2) {
  bool conc = choose(S_WORK, 4) != 3; base_setup(conc); warm_up(); onion_mime_get("a.txt"); net_faults(); max_stall_total = 1 * SEC; MemSnapshot ms = mem_snapshot(); int fds0 = fd_open_count(); GenCfg g; g.max_body = 1500;
  SrvCfg sc = rand_srv(); sc.timeout = (3 + choose(S_WORK, 3)) * 1000; App *app = new App; app->build(sc); 
  app->s.start(); if (!wait_pred([&] { return port_listening(8443); }, now() + 60 * SEC, "https port")) violation("listen-stuck", "the https port was not opened");
  int na = 1 + choose(S_WORK, conc ? 4 : 2); describe("%s/%d threads, %d attackers on all built-in handlers", mode_name(sc.mode), sc.threads, na); std::vector<Fiber *> cl; bool done = false, ws_ok = (sc.mode == O_POOL || sc.mode == O_THREADED) && sc.threads > na; // a websocket keeps its thread
  for (int i = 0; i < na; i++) cl.push_back(spawn("attacker" + std::to_string(i), [&, i] {
    int nr = 1 + choose(S_WORK, 5);
    for (int k = 0; k < nr; k++) {
      bool tls = sc.mode != O_ONE_LOOP && choose(S_WORK, 5) == 4; Conn *c = new Conn; if (!c->open(tls ? app->tls_port : sc.port, tls, now() + liveness_bound)) violation("refused", "connection refused while listening");
      int parts = 1 + choose(S_WORK, 3); op_done();
      for (int q = 0; q < parts && !c->eof(); q++) {
        int a = choose(S_WORK, ws_ok ? NACT - 1 : NACT - 2); std::string raw = act_request(a, g, k), v = choose(S_WORK, 4) ? odd_variant(raw) : raw; int seg = choose(S_NET, SEG_NMODES); if (seg == SEG_BYTES && v.size() > 600) seg = SEG_RANDOM;
        if (v.empty()) continue; c->send(v, seg); count("robust.bytes", v.size());
        if (a == 20) { int m = choose(S_WORK, 5); for (int z = 0; z < m; z++) { std::string f = ws_frame(choose(S_WORK, 16), rand_bytes(S_WORK, rand_size(400)), true); if (choose(S_WORK, 3) == 2) f = odd_variant(f); if (f.size()) c->send(f, choose(S_NET, 4)); sleep_for(choose(S_WORK, 20) * MS); } }
        HResp h; c->c.wait_rx([&] { h = parse_response(c->rx(), c->off, raw.compare(0, 4, "HEAD") == 0, c->eof()); return h.bad || h.complete || c->eof(); }, now() + choose(S_WORK, 2000) * MS); if (!h.complete || h.bad) break; c->off = h.end;
      }
      int end = choose(S_WORK, 4); if (end == 1) { c->c.reset(); continue; } if (end == 2) { c->c.close(); continue; } if (end == 0) c->c.shutdown_wr();
      if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound)) { // a websocket has no timeout of its own when it waits for the rest of a frame
        if (c->rx().find(" 101 ") != std::string::npos) { c->c.close(); continue; }
        violation("never-ends", "a connection on which the client went silent is still open after %.0f s (timeout %d ms); threads: %s", liveness_bound / 1e9, sc.timeout, blocked_report().c_str()); }
      evaluated(); c->c.close();
    }
  }));
  cl.push_back(spawn("victim", [&] {
    for (int k = 0; k < 6 && !(done && k > 1); k++) {
      Conn *c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused while listening");
      c->send("GET /static HTTP/1.1\r\nConnection: close\r\n\r\n", choose(S_NET, 4)); HResp h = c->response(false, liveness_bound, true, "correct request among garbage"); evaluated(); if (h.status != 200 || h.body != "fixed text") violation("wrong-response", "a correct request among garbage got %d %s", h.status, esc(h.body).c_str()); c->c.close(); sleep_for(choose(S_WORK, 300) * MS);
    }
  }));
  for (int i = 0; i < na; i++) join(cl[i]); done = true; join(cl.back());
  app->s.stop(); app->s.destroy(); if (pam::live) violation("pam-leak", "%d PAM handles left open", pam::live); if (open_dirs()) violation("dir-leak", "%d directories left open", open_dirs()); if (tls_sessions_live) violation("tls-leak", "%d TLS sessions left", tls_sessions_live);
  check_clean("after arbitrary input to every handler", ms, fds0);
}
