// P18: what is protected by PAM authentication is reached only by who authenticated there, now or earlier in the session.
#include "http.h"
#include <string.h>
#include <onion/url.h>
#include <onion/handlers/auth_pam.h>
extern "C" onion_sessions *onion_sessions_sqlite3_new(const char *);
namespace sim { namespace sqldisk { void install(); } }
using namespace sim;

namespace {
std::string b64(const std::string &d) {
  static const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r;
  for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = 0; int n = 0; for (int k = 0; k < 3; k++) { v <<= 8; if (i + k < d.size()) { v |= (unsigned char)d[i + k]; n++; } } r += a[v >> 18]; r += a[(v >> 12) & 63]; r += n > 1 ? a[(v >> 6) & 63] : '='; r += n > 2 ? a[v & 63] : '='; }
  return r;
}
std::map<std::string, int> reached; std::map<std::string, std::string> uname; // by request id
int prot(void *svc, onion_request *req, onion_response *res) {
  const char *id = onion_request_get_header(req, "X-Id"); reached[id ? id : "?"]++; onion_dict *d = onion_request_get_session_dict(req); onion_dict_lock_read(d); const char *u = onion_dict_get(d, "username"); uname[id ? id : "?"] = u ? u : ""; onion_dict_unlock(d);
  onion_response_printf(res, "PROTECTED %s %s", (const char *)svc, onion_request_get_path(req)); return OCS_PROCESSED;
}
int logout(void *, onion_request *req, onion_response *res) { onion_request_session_free(req); onion_response_write0(res, "bye"); return OCS_PROCESSED; }
int visit(void *, onion_request *req, onion_response *res) { onion_dict *d = onion_request_get_session_dict(req); onion_dict_lock_write(d); onion_dict_add(d, "visited", "1", OD_DUP_ALL | OD_REPLACE); onion_dict_unlock(d); onion_response_write0(res, "seen"); return OCS_PROCESSED; }
}

SCENARIO(P18, gate, 1) {
  bool conc = choose(S_WORK, 3) != 0; sqldisk::install(); base_setup(conc); warm_up(); net_faults(); reached.clear(); uname.clear();
  static const unsigned q[] = {0, 0, 60, 300}; unsigned r1 = q[choose(S_FAULT, 4)], r2 = q[choose(S_FAULT, 4)]; fault_enable("pam_fail", r1); fault_enable("pam_start_fail", r2); bool faults = r1 || r2;
  pam::users.clear(); pam::expired.clear(); pam::live = 0; std::string longp(choose(S_WORK, 3) ? 8 : 200, 'p');
  pam::users["svc-a/alice"] = "secret"; pam::users["svc-a/carol"] = "carolpw"; pam::users["svc-b/bob"] = "b:o:b"; pam::users["svc-b/alice"] = "other" + longp; pam::users["svc-a/empty"] = ""; pam::expired.insert("svc-a/carol");
  auto word = [&](bool user) { std::string w = rand_bytes(S_WORK, 1 + choose(S_WORK, 12)); for (auto &x : w) { if (!x || (user && x == ':')) x = 'n'; } return w; }; // any bytes: every character of base64
  std::vector<std::string> us = {"alice", "bob", "carol", "empty", "nobody", "", "alice "}; for (int i = 0; i < 3; i++) { std::string n = "u" + word(true); us.push_back(n); pam::users[(choose(S_WORK, 2) ? "svc-a/" : "svc-b/") + n] = word(false); }
  SrvCfg sc = rand_srv(); sc.https = choose(S_WORK, 4) == 3; MemSnapshot ms = mem_snapshot(); int fds = fd_open_count();
  Srv s; s.create(sc); onion_handler_free(onion_get_root_handler(s.o)); onion_set_root_handler(s.o, nullptr); bool sql = choose(S_WORK, 4) == 3; if (sql) onion_set_session_backend(s.o, onion_sessions_sqlite3_new("/db/sessions.sqlite"));
  std::string realm[2]; realm[0] = "Area A"; realm[1] = choose(S_WORK, 2) ? "B" : std::string(choose(S_WORK, 2) ? 239 + choose(S_WORK, 8) : 400, 'r');
  onion_url *u = onion_root_url(s.o);
  onion_url_add_handler(u, "^a/", onion_handler_auth_pam(realm[0].c_str(), "svc-a", onion_handler_new((onion_handler_handler)prot, (void *)"svc-a", nullptr)));
  onion_url_add_handler(u, "^b/", onion_handler_auth_pam(realm[1].c_str(), "svc-b", onion_handler_new((onion_handler_handler)prot, (void *)"svc-b", nullptr)));
  onion_url_add(u, "logout", (void *)logout); onion_url_add(u, "visit", (void *)visit);
  s.start(); int nc = conc ? 1 + choose(S_WORK, 4) : 1; std::set<std::string> issued;
  describe("%s/%d threads%s %s sessions, %d clients%s", mode_name(sc.mode), sc.threads, sc.https ? " https" : "", sql ? "sqlite" : "memory", nc, faults ? ", PAM fails at times" : "");
  std::vector<Fiber *> cl; std::vector<std::string> all;
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    Conn *c = nullptr; bool open = false; int nr = 3 + choose(S_WORK, 10); std::string jar; std::set<std::string> in; // services this session passed
    for (int k = 0; k < nr; k++) {
      if (open && choose(S_WORK, 5) == 4) { c->c.close(); open = false; }
      if (!open) { c = new Conn; if (!c->open(sc.port, sc.https, now() + liveness_bound)) violation("refused", "connection refused"); open = true; }
      std::string id = std::to_string(i) + "." + std::to_string(k); bool ka = sc.mode != O_ONE_LOOP && choose(S_WORK, 5) != 4; int w = choose(S_WORK, 10); std::string svc = w < 5 ? "svc-a" : w < 8 ? "svc-b" : "", path = w < 5 ? "/a/x" : w < 8 ? "/b/y" : w == 8 ? "/logout" : "/visit";
      if (svc.size()) { static const char *t[] = {"", "z", "deep/er", "..", "%2e%2e/a"}; path += t[choose(S_WORK, 5)]; }
      std::string auth, user, pw; bool cred = false, has = choose(S_WORK, 3) != 2;
      if (svc.size() && has) {
        user = us[choose(S_WORK, 10)]; bool right = choose(S_WORK, 3) != 2; std::string key = svc + "/" + user;
        if (right) { auto it = pam::users.find(key); pw = it != pam::users.end() ? it->second : "secret"; } else { static const char *ps[] = {"", "wrong", "Secret", "secret ", "b", "other"}; pw = ps[choose(S_WORK, 6)]; }
        auto it = pam::users.find(key); cred = it != pam::users.end() && it->second == pw && !pam::expired.count(key);
        auth = "Authorization: Basic " + b64(user + ":" + pw) + "\r\n";
        switch (choose(S_WORK, 13)) { case 12: auth.insert(auth.size() - 2, std::string(1 + choose(S_WORK, 5), ' ')); break; case 11: auth = "Authorization: Basic\r\n"; cred = false; break; case 10: auth = "Authorization: Basic " + std::string(choose(S_WORK, 6), ' ') + "\r\n"; cred = false; break; case 9: auth = "Authorization: Basic " + b64(user + pw) + "\r\n"; cred = false; if ((user + pw).find(':') != std::string::npos) cred = false, auth = "Authorization: Basic " + b64("nocolon") + "\r\n"; break; case 8: auth = "Authorization: Digest " + b64(user + ":" + pw) + "\r\n"; cred = false; break; case 7: { auth = "Authorization: Basic " + rand_bytes(S_WORK, choose(S_WORK, 40), "ABCabc019+/=") + "!\r\n"; cred = false; break; } case 6: auth = "Authorization: Basic " + b64(user + std::string(1, '\0') + ":" + pw) + "\r\n"; cred = false; break; default: break; }
      }
      std::string use = jar; std::set<std::string> use_in = in; bool own = true;
      switch (choose(S_WORK, 8)) { case 7: use = ""; use_in.clear(); own = false; break; case 6: use = rand_bytes(S_WORK, 32, "abcdef0123456789ABCDEFGHIJ"); if (issued.count(use)) use += "x"; use_in.clear(); own = false; break; default: break; }
      std::string raw = "GET " + path + " HTTP/1.1\r\nX-Id: " + id + "\r\n" + auth; if (use.size()) raw += "Cookie: sessionid=" + use + "\r\n"; if (!ka) raw += "Connection: close\r\n";
      std::string ctx = "request " + esc(raw, 200); uint64_t ff = faults_fired();
      tracef("request %s", ctx.c_str());
      c->send(raw + "\r\n", choose(S_NET, SEG_NMODES)); HResp h = c->response(false, liveness_bound, false, ctx.c_str()); evaluated(); op_done(); mix_state(std::hash<std::string>()(svc + user + std::to_string(h.status) + std::to_string(use_in.size())));
      if (!h.complete) violation(c->eof() ? "no-response" : "no-progress", "%s: no complete response; threads: %s", ctx.c_str(), blocked_report().c_str());
      bool flt = faults && faults_fired() != ff; std::string sid; for (auto &e : h.headers) if (!strcasecmp(e.first.c_str(), "Set-Cookie") && e.second.compare(0, 10, "sessionid=") == 0) sid = e.second.substr(10, e.second.find(';') - 10); if (sid.size()) issued.insert(sid); tracef("response %s: %d, session %s, jar %s", id.c_str(), h.status, sid.c_str(), jar.c_str());
      if (svc.size()) {
        bool allowed = use_in.count(svc) || cred; int n = reached[id];
        if (!allowed) { if (n || h.body.find("PROTECTED") != std::string::npos) violation("bypass", "%s: not authenticated for %s, but the protected handler was reached", ctx.c_str(), svc.c_str()); }
        if (n > 1) violation("twice", "%s: handler reached %d times", ctx.c_str(), n);
        if (n) { if (h.status != 200 || h.body.find("PROTECTED " + svc) != 0) violation("wrong-response", "%s: %d '%s'", ctx.c_str(), h.status, esc(h.body).c_str()); if (cred && !use_in.count(svc) && uname[id] != user) violation("wrong-user", "%s: the handler saw user '%s'", ctx.c_str(), uname[id].c_str()); count("auth.granted"); }
        else {
          if (allowed && !(flt && !use_in.count(svc))) violation("denied", "%s: authenticated, but answered %d", ctx.c_str(), h.status);
          if (h.status != 401) violation("wrong-response", "%s: answered %d", ctx.c_str(), h.status);
          if (h.get("WWW-Authenticate") != "Basic realm=\"" + realm[svc == "svc-b"] + "\"") violation("wrong-response", "%s: challenge '%s'", ctx.c_str(), esc(h.get("WWW-Authenticate")).c_str());
          for (char x : h.body) if (x == 0) violation("wrong-response", "%s: the page has a NUL", ctx.c_str());
          count("auth.refused");
        }
        if (n && !use_in.count(svc)) { if (sid.empty()) violation("no-session", "%s: authenticated, but no session was given", ctx.c_str()); if (own && (jar.empty() || sid == jar)) { in.insert(svc); jar = sid; } else if (own) { jar = sid; in.clear(); in.insert(svc); } }
      } else if (w == 8) { if (own) { in.clear(); jar.clear(); } } else if (sid.size() && own && jar != sid) { jar = sid; in.clear(); }
      if (!ka || !h.keepalive) { if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound)) violation("not-closed", "connection announced as closing stays open"); c->c.close(); open = false; }
    }
    if (open) c->c.close();
  }));
  for (auto f : cl) join(f);
  faults_off(); s.stop(); s.destroy(); if (pam::live) violation("pam-leak", "%d PAM handles left open", pam::live); check_clean("after the server was freed", ms, fds);
}
// several requests of one session at the same time: who is in stays in, whatever the others write in the session
SCENARIO(P18, together, 1) {
  sqldisk::install(); base_setup(true); warm_up(); net_faults(); reached.clear(); uname.clear();
  pam::users.clear(); pam::expired.clear(); pam::live = 0; pam::users["svc-a/alice"] = "secret"; pam::users["svc-b/bob"] = "bobpw";
  SrvCfg sc = rand_srv(true); MemSnapshot ms = mem_snapshot(); int fds = fd_open_count();
  Srv s; s.create(sc); onion_handler_free(onion_get_root_handler(s.o)); onion_set_root_handler(s.o, nullptr); bool sql = choose(S_WORK, 4) == 3; if (sql) onion_set_session_backend(s.o, onion_sessions_sqlite3_new("/db/sessions.sqlite"));
  onion_url *u = onion_root_url(s.o);
  onion_url_add_handler(u, "^a/", onion_handler_auth_pam("A", "svc-a", onion_handler_new((onion_handler_handler)prot, (void *)"svc-a", nullptr)));
  onion_url_add_handler(u, "^b/", onion_handler_auth_pam("B", "svc-b", onion_handler_new((onion_handler_handler)prot, (void *)"svc-b", nullptr)));
  static auto many = +[](void *, onion_request *req, onion_response *res) -> int { onion_dict *d = onion_request_get_session_dict(req); const char *k = onion_request_get_query(req, "k"); onion_dict_lock_write(d); for (const char *t = "oqpntramv"; *t; t++) { char kk[] = {*t, k[0], 0}; if (!onion_dict_remove(d, kk)) onion_dict_add(d, kk, k, OD_DUP_ALL | OD_REPLACE); } onion_dict_unlock(d); onion_response_write0(res, "seen"); return OCS_PROCESSED; };
  onion_url_add(u, "many", (void *)many);
  s.start(); int nc = 2 + choose(S_WORK, 4); describe("%s/%d threads, %s sessions, %d clients with one session", mode_name(sc.mode), sc.threads, sql ? "sqlite" : "memory", nc);
  std::string jar; { Conn *c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused"); c->send("GET /a/ HTTP/1.1\r\nX-Id: first\r\nConnection: close\r\nAuthorization: Basic " + b64("alice:secret") + "\r\n\r\n", SEG_FEW); HResp h = c->response(false, liveness_bound, true, "the login"); if (h.status != 200) violation("denied", "the login is answered %d", h.status); for (auto &e : h.headers) if (!strcasecmp(e.first.c_str(), "Set-Cookie") && e.second.compare(0, 10, "sessionid=") == 0) jar = e.second.substr(10, e.second.find(';') - 10); c->c.close(); if (jar.empty()) violation("no-session", "authenticated, but no session was given"); }
  bool b_in = false, b_asked = false; std::vector<Fiber *> cl;
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    Conn *c = nullptr; bool open = false; int nr = 3 + choose(S_WORK, 8);
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused"); open = true; }
      std::string id = std::to_string(i) + "." + std::to_string(k), auth; int w = choose(S_WORK, 10); bool b_before = b_in, must = true; std::string path = "/a/x";
      if (w == 3) { b_asked = true; path = "/b/y"; auth = "Authorization: Basic " + b64("bob:bobpw") + "\r\n"; } else if (w == 4) { path = "/b/y"; must = b_before && !sql; } else if (w == 5) { path = "/b/y"; auth = "Authorization: Basic " + b64("alice:secret") + "\r\n"; must = b_before && !sql; } else if (w >= 6) path = "/many?k=" + std::string(1, "abcpqruvxyz~"[choose(S_WORK, 12)]) + "k";
      c->send("GET " + path + " HTTP/1.1\r\nX-Id: " + id + "\r\nCookie: sessionid=" + jar + "\r\n" + auth + "\r\n", choose(S_NET, SEG_NMODES)); HResp h = c->response(false, liveness_bound, true, ("request " + id + " " + path).c_str()); evaluated(); op_done();
      if (w == 3 && h.status == 200) b_in = true; mix_state(w * 1000 + h.status);
      if (w >= 6) { if (h.body != "seen") violation("wrong-response", "%d %s", h.status, esc(h.body).c_str()); }
      else { int n = reached[id]; if ((n > 0) != (h.status == 200) || n > 1) violation("wrong-response", "request %s (%s): answered %d, handler reached %d times", id.c_str(), path.c_str(), h.status, n); if (!n && h.status != 401) violation("wrong-response", "request %s: answered %d", id.c_str(), h.status); if (n && path[1] == 'b' && !b_asked) violation("bypass", "request %s reached what nobody authenticated for", id.c_str()); if (must && !n) violation("denied", "request %s (%s%s) of a session that is in is answered %d", id.c_str(), path.c_str(), auth.empty() ? "" : " with a password", h.status); count(n ? "auth.granted" : "auth.refused"); }
      if (!h.keepalive) { c->c.close(); open = false; }
    }
    if (open) c->c.close();
  }));
  for (auto f : cl) join(f);
  // who never was in with b's password is not in
  if (!b_in) for (auto &r : reached) if (r.first != "first" && r.second && uname[r.first] == "bob") violation("bypass", "request %s reached the handler as bob, who never authenticated", r.first.c_str());
  faults_off(); s.stop(); s.destroy(); if (pam::live) violation("pam-leak", "%d PAM handles left open", pam::live); check_clean("after the server was freed", ms, fds);
}
