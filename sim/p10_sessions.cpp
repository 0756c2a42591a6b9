// P10: sessions belong to their user, whatever the backend. P11: a session that was acknowledged survives a crash.
#include "http.h"
#include "sysql.h"
#include <string.h>
extern "C" {
#include <onion/sessions_mem.h>
onion_sessions *onion_sessions_sqlite3_new(const char *);
#include <onion/sessions_redis.h>
}
using namespace sim;

namespace {
typedef std::map<std::string, std::string> Flat;
struct FlatCtx { Flat *f; std::string pre; bool *dup; };
void flat_cb(void *p, const char *k, const void *v, int fl) { FlatCtx *c = (FlatCtx *)p; std::string key = c->pre + k; if (fl & OD_DICT) { FlatCtx s{c->f, key + "\x01", c->dup}; onion_dict_preorder((onion_dict *)v, (void *)flat_cb, &s); } else { if (c->f->count(key)) *c->dup = true; (*c->f)[key] = (const char *)v; } }
Flat flatten(onion_dict *d) { Flat f; bool dup = false; FlatCtx c{&f, "", &dup}; onion_dict_preorder(d, (void *)flat_cb, &c); if (dup) violation("session-altered", "a session holds the same key twice"); return f; }
std::string show(const Flat &f) { std::string s = "{"; for (auto &e : f) { s += esc(e.first, 30) + ":" + esc(e.second, 40) + " "; if (s.size() > 400) break; } return s + "}"; }
enum Backend { MEM, SQLITE, REDIS };
const char *bname[] = {"memory", "sqlite", "redis"};
onion_sessions *backend(int b) { switch (b) { case SQLITE: return onion_sessions_sqlite3_new("/db/sessions.sqlite"); case REDIS: return onion_sessions_redis_new("127.0.0.1", 6379); default: return nullptr; } }
enum OpK { NONE, READ, SET, DEL, CLEAR, FREE, RENEW, SETDICT, NOPS };
struct Plan { OpK op; std::string k, v; bool ran = false; bool touched = false; Flat seen; };
std::string rand_text(size_t max) { size_t n = rand_size(max); std::string s; switch (choose(S_WORK, 3)) { case 0: s = rand_bytes(S_WORK, n, "abcdefgh0123"); break; case 1: s = rand_bytes(S_WORK, n, "\"\\/{}[]:, \t\r\n\b\f\x01\x1f\x7f'ab;%"); break; default: s = rand_bytes(S_WORK, n); for (auto &c : s) if (!c) c = 'N'; } return s; }
void run_plan(Plan &p, onion_request *req) {
  if (p.op == NONE) return;
  if (p.op == FREE) { onion_request_session_free(req); p.touched = true; return; }
  onion_dict *d = onion_request_get_session_dict(req);
  if (!d) violation("no-session", "a handler asked for the session and got none");
  onion_dict_lock_write(d); p.seen = flatten(d); p.touched = true;
  if (p.op == SET) onion_dict_add(d, p.k.c_str(), p.v.c_str(), OD_DUP_ALL | OD_REPLACE);
  if (p.op == DEL) onion_dict_remove(d, p.k.c_str());
  if (p.op == CLEAR) for (auto &e : p.seen) { std::string k = e.first.substr(0, e.first.find('\x01')); onion_dict_remove(d, k.c_str()); }
  if (p.op == SETDICT) { onion_dict *s = onion_dict_new(); onion_dict_add(s, "in", p.v.c_str(), OD_DUP_ALL); onion_dict_add(d, p.k.c_str(), s, OD_DUP_KEY | OD_DICT | OD_FREE_VALUE | OD_REPLACE); }
  onion_dict_unlock(d);
  if (p.op == RENEW) { onion_request_session_free(req); d = onion_request_get_session_dict(req); if (!d) violation("no-session", "a handler asked for a new session and got none"); onion_dict_lock_write(d); onion_dict_add(d, p.k.c_str(), p.v.c_str(), OD_DUP_ALL | OD_REPLACE); onion_dict_unlock(d); }
}
void drop_key(Flat &f, const std::string &k) { for (auto i = f.begin(); i != f.end();) if (i->first == k || !i->first.compare(0, k.size() + 1, k + "\x01")) i = f.erase(i); else ++i; }
void model(Flat &m, const Plan &p) {
  switch (p.op) { case SET: drop_key(m, p.k); m[p.k] = p.v; break; case DEL: drop_key(m, p.k); break; case CLEAR: case FREE: m.clear(); break; case RENEW: m.clear(); m[p.k] = p.v; break; case SETDICT: drop_key(m, p.k); m[p.k + "\x01in"] = p.v; break; default:; }
}
Plan gen_plan() { Plan p; static const OpK w[] = {SET, READ, SET, NONE, DEL, SETDICT, SET, FREE, RENEW, CLEAR, SET}; p.op = w[choose(S_WORK, 11)]; static const char *ks[] = {"user", "k", "cart", "a\"b", "", "x y", "\xc3\xa9", "{", "k2", "k3"}; p.k = ks[choose(S_WORK, 10)]; if (choose(S_WORK, 12) == 11) { p.k = rand_text(30); for (auto &c : p.k) if (c == 1) c = 2; } p.v = rand_text(choose(S_WORK, 8) == 7 ? 3000 : 40); return p; }
std::string cookie_line(const std::string &id) {
  static const char *forms[] = {"Cookie: sessionid=%", "Cookie: a=b; sessionid=%", "Cookie: sessionid=%; z=1", "Cookie: xsessionid=none; sessionid=%", "Cookie: sessionid=bogus; sessionid=%", "Cookie: l=es; mysessionid=%x; sessionid=%; t=sessionid", "cookie: sessionid=%", "Cookie: sessionid=%;"};
  std::string f = forms[choose(S_WORK, 8)]; for (size_t p = 0; (p = f.find('%', p)) != std::string::npos; p += id.size()) f.replace(p, 1, id); return f + "\r\n";
}
struct World {
  std::map<std::string, Plan> plans; std::set<std::string> issued; int b = MEM; SrvCfg sc; Srv *s = nullptr; uint64_t n = 0;
  void attach(Srv &srv) {
    s = &srv; srv.create(sc); onion_sessions *bk = backend(b); if (b != MEM && !bk) violation("backend", "the session store could not be opened without any fault");
    if (bk) onion_set_session_backend(srv.o, bk);
    srv.handler = [this](onion_request *req, onion_response *res) {
      const char *id = onion_request_get_header(req, "X-Id"); if (!id || !plans.count(id)) violation("unknown-request", "unknown request");
      Plan &p = plans[id]; p.ran = true; run_plan(p, req); onion_response_printf(res, "<%s>", id); return OCS_PROCESSED;
    };
  }
};
struct User { std::string cookie; Flat m; Conn *c = nullptr; bool open = false; };
// one request; false if the connection died
bool user_request(World &w, User &u, Plan plan, const char *who, bool must = true) {
  if (u.open && choose(S_WORK, 3) == 2) { if (choose(S_WORK, 2)) u.c->c.close(); u.open = false; } // a new connection, the old one may stay open
  if (!u.open) { u.c = new Conn; if (!u.c->open(w.sc.port, false, now() + liveness_bound)) { if (must) violation("refused", "connection refused while listening"); return false; } u.open = true; }
  std::string id = "r" + std::to_string(w.n++); w.plans[id] = plan; Plan &p = w.plans[id];
  bool keep = w.sc.mode != O_ONE_LOOP && choose(S_WORK, 3);
  std::string raw = "GET /s HTTP/1.1\r\nX-Id: " + id + "\r\n" + (keep ? "" : "Connection: close\r\n") + (u.cookie.empty() ? "" : cookie_line(u.cookie)) + "\r\n";
  u.c->send(raw, choose(S_NET, SEG_NMODES));
  HResp h = u.c->response(false, liveness_bound, must, who); op_done(); evaluated();
  if (!must && !h.complete) { u.c->c.close(); u.open = false; return false; }
  if (h.status != 200 || h.body != "<" + id + ">") violation("wrong-response", "%s: status %d body %s", who, h.status, esc(h.body).c_str());
  if (!h.keepalive || !keep) { u.c->c.close(); u.open = false; }
  Flat before = u.m; bool existed = !u.m.empty();
  if (p.touched && p.op != FREE && p.seen != u.m) violation("session-altered", "%s (%s backend): the handler saw session %s, the user's session holds %s", who, bname[w.b], show(p.seen).c_str(), show(u.m).c_str());
  model(u.m, p);
  std::string set; int nset = 0; for (auto &x : h.headers) if (!strcasecmp(x.first.c_str(), "set-cookie") && !x.second.compare(0, 10, "sessionid=")) { nset++; set = x.second.substr(10); set = set.substr(0, set.find(';')); }
  if (nset > 1) violation("two-cookies", "%s: %d session cookies in a response", who, nset);
  bool expect = p.touched && p.op != FREE && !u.m.empty();
  if (expect && !nset) violation("no-cookie", "%s (%s): the session holds %s and the client was not told its id", who, bname[w.b], show(u.m).c_str());
  if (!expect && nset) violation("cookie-unexpected", "%s (%s): session cookie sent, op %d, session holds %s", who, bname[w.b], p.op, show(u.m).c_str());
  if (nset) {
    if (set.size() != 32 || set.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != std::string::npos) violation("bad-id", "%s: session id %s", who, esc(set).c_str());
    bool same = existed && p.op != RENEW;
    if (same && set != u.cookie) violation("id-changed", "%s (%s): session id changed from %s to %s", who, bname[w.b], u.cookie.c_str(), set.c_str());
    if (!same) { if (w.issued.count(set)) violation("id-reused", "%s (%s): a new session was given the id %s, which was used before (own cookie %s)", who, bname[w.b], set.c_str(), u.cookie.c_str()); w.issued.insert(set); }
    u.cookie = set;
  }
  return true;
}
}

SCENARIO(P10, users, 4) {
  sqldisk::install(); warm_up(); bool conc = choose(S_WORK, 4) != 3; base_setup(conc); net_faults();
  World w; w.b = choose(S_WORK, 3); w.sc = rand_srv(); { static const char *warm = nullptr; if (!warm && w.b == SQLITE) { onion_sessions *x = backend(SQLITE); if (x) onion_sessions_free(x); warm = "x"; } }
  MemSnapshot ms = mem_snapshot(); int fds0 = fd_open_count();
  int nu = 1 + choose(S_WORK, 3), rounds = w.b == MEM ? 1 : 1 + choose(S_WORK, 2); std::vector<User> us(nu);
  describe("%s backend, %s/%d threads, %d users, %d server lives", bname[w.b], mode_name(w.sc.mode), w.sc.threads, nu, rounds);
  for (int r = 0; r < rounds; r++) {
    Srv *s = new Srv; w.attach(*s); s->start();
    std::vector<Fiber *> cl;
    for (int i = 0; i < nu; i++) cl.push_back(spawn("user" + std::to_string(i), [&, i] { std::string who = "user " + std::to_string(i); int n = 2 + choose(S_WORK, 6); for (int k = 0; k < n; k++) user_request(w, us[i], gen_plan(), who.c_str()); }));
    cl.push_back(spawn("stranger", [&] {
      int n = choose(S_WORK, 4);
      for (int k = 0; k < n; k++) { // guesses, never adopted and never seeing anything
        User x; std::string real = us[choose(S_WORK, nu)].cookie; static const char *odd[] = {"bogus", "", "' OR '1'='1", "%", "*", "../x", "\"", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
        switch (choose(S_WORK, 5)) { case 0: x.cookie = odd[choose(S_WORK, 8)]; break; case 1: x.cookie = real.substr(0, real.size() / 2); break; case 2: x.cookie = real + "x"; break; case 3: x.cookie = real; for (auto &c : x.cookie) { if (islower(c)) c = toupper(c); else if (isupper(c)) c = tolower(c); } break; default: x.cookie = std::string(1 + rand_size(200), 'k'); }
        if (x.cookie == real && !real.empty()) continue;
        Plan p = gen_plan(); user_request(w, x, p, "a stranger"); count("sessions.guesses");
      }
    }));
    for (auto f : cl) join(f);
    for (auto &u : us) u.open = false;
    s->stop(); s->destroy();
  }
  if (redis::ctx_live || redis::replies_live) violation("redis-leak", "%d redis connections and %d replies were not released", redis::ctx_live, redis::replies_live);
  if (w.b == REDIS) { size_t live = 0; for (auto &u : us) if (!u.m.empty()) live++; size_t max = redis::sessions.size(); (void)max; for (auto &u : us) if (!u.m.empty() && !redis::sessions.count(u.cookie)) violation("session-lost", "a session with data is not in the store"); }
  check_clean("after the users left", ms, fds0);
}

// Several requests of one user at the same time. In memory the session is one shared dictionary.
SCENARIO(P10, shared, 3) {
  sqldisk::install(); warm_up(); base_setup(true); net_faults();
  World w; w.b = choose(S_WORK, 4) == 3 ? 1 + choose(S_WORK, 2) : MEM; w.sc = rand_srv(true); w.sc.threads = 2 + choose(S_WORK, 3);
  if (w.b == SQLITE) { onion_sessions *x = backend(SQLITE); if (x) onion_sessions_free(x); }
  MemSnapshot ms = mem_snapshot(); int fds0 = fd_open_count(); Srv s; w.attach(s); int total = 0; bool logout = choose(S_WORK, 4) == 3; std::set<std::string> written;
  auto base = s.handler;
  s.handler = [&, base](onion_request *req, onion_response *res) {
    const char *inc = onion_request_get_header(req, "X-Inc"); if (!inc) return base(req, res);
    if (!strcmp(inc, "free")) { onion_request_session_free(req); onion_response_printf(res, "ok"); return (int)OCS_PROCESSED; }
    onion_dict *d = onion_request_get_session_dict(req); if (!d) violation("no-session", "a handler asked for the session and got none");
    onion_dict_lock_write(d); const char *v = onion_dict_get(d, "n"); int n = v ? atoi(v) : 0; for (auto &e : flatten(d)) if (e.first != "n" && !written.count(e.second)) violation("session-altered", "value %s was never written", esc(e.second).c_str());
    char b[16]; snprintf(b, sizeof b, "%d", n + 1); onion_dict_add(d, "n", b, OD_DUP_ALL | OD_REPLACE);
    std::string k = std::string("k") + inc, val = std::string("v") + inc; if (!logout) written.insert(val); else written.insert(val); onion_dict_add(d, k.c_str(), val.c_str(), OD_DUP_ALL | OD_REPLACE); if (n % 3 == 2) onion_dict_remove(d, k.c_str());
    onion_dict_unlock(d); onion_response_printf(res, "ok"); return (int)OCS_PROCESSED;
  };
  s.start(); User u; Plan p0; p0.op = SET; p0.k = "n"; p0.v = "0"; user_request(w, u, p0, "login");
  int nc = 2 + choose(S_WORK, 3); std::vector<Fiber *> cl; describe("%s backend, %s/%d threads, %d connections of one user%s", bname[w.b], mode_name(w.sc.mode), w.sc.threads, nc, logout ? ", logout" : "");
  for (int i = 0; i < nc; i++) { int nr = 1 + choose(S_WORK, 5); total += nr; cl.push_back(spawn("tab" + std::to_string(i), [&, i, nr] {
    Conn *c = nullptr; bool open = false;
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; if (!c->open(w.sc.port, false, now() + liveness_bound)) violation("refused", "connection refused while listening"); open = true; }
      std::string tag = std::to_string(i) + "." + std::to_string(k); if (logout && choose(S_WORK, 4) == 3) tag = "free";
      c->send("GET /i HTTP/1.1\r\nX-Inc: " + tag + "\r\nCookie: sessionid=" + u.cookie + "\r\n\r\n", choose(S_NET, SEG_NMODES));
      HResp h = c->response(false, liveness_bound, true, "request of a shared session"); op_done(); evaluated(); if (h.status != 200) violation("wrong-response", "status %d", h.status);
      if (!h.keepalive) { c->c.close(); open = false; }
    }
    if (c) c->c.close();
  })); }
  for (auto f : cl) join(f);
  if (!logout && w.b == MEM) { Plan p; p.op = READ; std::string id; u.m.clear(); // what is left
    Conn *c = new Conn; if (!c->open(w.sc.port, false, now() + liveness_bound)) violation("refused", "refused"); w.plans["last"] = p; c->send("GET /l HTTP/1.1\r\nX-Id: last\r\nConnection: close\r\nCookie: sessionid=" + u.cookie + "\r\n\r\n", SEG_WHOLE); c->response(false, liveness_bound, true, "last"); c->c.close();
    Flat &f = w.plans["last"].seen; evaluated(); if (f["n"] != std::to_string(total)) violation("lost-update", "%d requests incremented a counter of their common session under its lock, it holds %s", total, f["n"].c_str());
  }
  s.stop(); s.destroy(); check_clean("after the shared session", ms, fds0);
}

// The store fails now and then: requests are still answered, nothing crosses users, nothing leaks.
SCENARIO(P10, storefaults, 2) {
  sqldisk::install(); warm_up(); bool conc = choose(S_WORK, 4) != 3; base_setup(conc); net_faults();
  World w; w.b = 1 + choose(S_WORK, 2); w.sc = rand_srv(); if (w.b == SQLITE) { onion_sessions *x = backend(SQLITE); if (x) onion_sessions_free(x); }
  MemSnapshot ms = mem_snapshot(); int fds0 = fd_open_count(); int nu = 1 + choose(S_WORK, 3); std::vector<User> us(nu); std::vector<std::set<std::string>> mine(nu);
  bool late = choose(S_WORK, 4) != 3; if (!late) { fault_enable("redis_connect_fail", 512); fault_enable("sql_open_fail", 300); }
  Srv *s = new Srv; s->create(w.sc); onion_sessions *bk = backend(w.b); if (late && !bk) violation("backend", "the session store could not be opened without any fault"); if (bk) onion_set_session_backend(s->o, bk);
  std::map<std::string, int> owner;
  s->handler = [&](onion_request *req, onion_response *res) { const char *id = onion_request_get_header(req, "X-Id"); Plan &p = w.plans[id]; p.ran = true; run_plan(p, req); if (p.touched) for (auto &e : p.seen) if (!mine[owner[id]].count(e.second)) violation("session-leaked", "%s backend: user %d sees the value %s, which is not theirs", bname[w.b], owner[id], esc(e.second).c_str()); onion_response_printf(res, "<%s>", id); return OCS_PROCESSED; };
  static const unsigned rt[] = {30, 150, 400}; unsigned r = rt[choose(S_FAULT, 3)]; const char *fn[] = {"redis_io_error", "redis_error_reply", "redis_evicted", "sql_read_eio", "sql_write_eio", "sql_full", "sql_sync_eio"}; for (auto f : fn) if (choose(S_FAULT, 2)) fault_enable(f, strstr(f, "io_error") && choose(S_FAULT, 3) ? r / 10 : r);
  describe("%s backend with faults, %s/%d threads, %d users", bname[w.b], mode_name(w.sc.mode), w.sc.threads, nu);
  s->start(); std::vector<Fiber *> cl;
  for (int i = 0; i < nu; i++) cl.push_back(spawn("user" + std::to_string(i), [&, i] {
    int n = 2 + choose(S_WORK, 6); std::string cookie;
    for (int k = 0; k < n; k++) {
      Conn *c = new Conn; if (!c->open(w.sc.port, false, now() + liveness_bound)) violation("refused", "connection refused while listening"); std::string id = std::to_string(i) + "." + std::to_string(k); Plan p = gen_plan(); p.v = "u" + std::to_string(i) + p.v; mine[i].insert(p.v); owner[id] = i; w.plans[id] = p;
      c->send("GET /s HTTP/1.1\r\nX-Id: " + id + "\r\nConnection: close\r\n" + (cookie.empty() ? "" : cookie_line(cookie)) + "\r\n", choose(S_NET, SEG_NMODES));
      HResp h = c->response(false, liveness_bound, true, "request while the session store fails"); op_done(); evaluated(); if (h.status != 200 || h.body != "<" + id + ">") violation("wrong-response", "status %d body %s", h.status, esc(h.body).c_str());
      for (auto &x : h.headers) if (!strcasecmp(x.first.c_str(), "set-cookie") && !x.second.compare(0, 10, "sessionid=")) { cookie = x.second.substr(10); cookie = cookie.substr(0, cookie.find(';')); }
      c->c.close();
    }
  }));
  for (auto f : cl) join(f);
  s->stop(); s->destroy();
  if (redis::ctx_live || redis::replies_live) violation("redis-leak", "%d redis connections and %d replies were not released", redis::ctx_live, redis::replies_live);
  check_clean("after the session store failed", ms, fds0);
}

// ---------------------------------------------------------------- P11
SCENARIO(P11, crash, 3) {
  sqldisk::install(); warm_up(); bool conc = choose(S_WORK, 4) != 3; base_setup(conc); net_faults(); sched.max_freeze = std::min<Time>(sched.max_freeze, 50 * MS);
  World w; w.b = SQLITE; w.sc = rand_srv(); w.sc.detach = false; int nu = 1 + choose(S_WORK, 3), lives = 2 + choose(S_WORK, 3); std::vector<User> us(nu);
  struct Unsure { bool on = false; Flat after; std::string newid; }; std::vector<Unsure> un(nu);
  describe("sqlite, %s/%d threads, %d users, %d crashes", mode_name(w.sc.mode), w.sc.threads, nu, lives - 1);
  for (int life = 0; life < lives; life++) {
    bool last = life == lives - 1; Srv *s = new Srv; bool dead = false; w.sc.port = 8080 + life;
    if (choose(S_WORK, 3) == 2 && life) { // it may die again while it starts, in the middle of the recovery
      uint64_t at = sqldisk::ops + 1 + choose(S_FAULT, 12); bool died = false; sqldisk::op_hook = [&, at](const char *) { if (sqldisk::ops == at) { died = true; sqldisk::op_hook = nullptr; { bool power = choose(S_FAULT, 3) != 0; count(power ? "fault.power_loss" : "fault.process_kill"); sqldisk::crash_image(power); } crash(); } };
      Fiber *f = spawn("recovery", [&] { onion_sessions *x = backend(SQLITE); if (x) onion_sessions_free(x); }, true); join(f); sqldisk::op_hook = nullptr; if (died) count("crash.in_recovery");
    }
    w.attach(*s); s->start();
    uint64_t at = sqldisk::ops + 1 + choose(S_FAULT, 80 * nu); Time when = choose(S_FAULT, 4) == 3 ? now() + choose(S_FAULT, 400) * MS : NEVER;
    auto die = [&] { dead = true; sqldisk::op_hook = nullptr; { bool power = choose(S_FAULT, 3) != 0; count(power ? "fault.power_loss" : "fault.process_kill"); sqldisk::crash_image(power); } crash(); };
    if (!last && when == NEVER) sqldisk::op_hook = [&, at](const char *) { if (sqldisk::ops >= at && !dead) die(); };
    std::vector<Fiber *> cl;
    for (int i = 0; i < nu; i++) cl.push_back(spawn("user" + std::to_string(i), [&, i] {
      std::string who = "user " + std::to_string(i) + (life ? " after the crash" : ""); User &u = us[i]; u.open = false; bool first = true;
      int n = last ? 2 : 2 + choose(S_WORK, 10);
      for (int k = 0; k < n && !dead; k++) {
        if (first && un[i].on) { // the request in flight at the crash took effect or not, nothing in between
          Plan q; q.op = READ; u.open = false; Conn *c = new Conn; if (!c->open(w.sc.port, false, now() + liveness_bound)) { if (!dead) violation("refused", "refused"); return; }
          std::string id = "q" + std::to_string(w.n++); w.plans[id] = q; c->send("GET /q HTTP/1.1\r\nX-Id: " + id + "\r\nConnection: close\r\n" + (u.cookie.empty() ? "" : "Cookie: sessionid=" + u.cookie + "\r\n") + "\r\n", SEG_WHOLE);
          HResp h = c->response(false, liveness_bound, false, who.c_str()); c->c.close(); if (!h.complete) { if (!dead) violation("no-response", "%s: no response; threads: %s", who.c_str(), blocked_report().c_str()); return; }
          Flat &seen = w.plans[id].seen; evaluated(); bool renewed = un[i].newid == "?";
          if (seen != u.m && !(renewed ? seen.empty() : seen == un[i].after)) violation("session-lost", "%s: acknowledged session %s, request in flight would make it %s, after the crash it holds %s", who.c_str(), show(u.m).c_str(), show(un[i].after).c_str(), show(seen).c_str());
          if (seen != u.m) { u.m = seen; if (u.m.empty()) u.cookie.clear(); count("crash.in_flight_applied"); } else count("crash.in_flight_lost");
          un[i].on = false; first = false; continue;
        }
        first = false; Plan p = gen_plan(); Flat after = u.m; model(after, p);
        if (!user_request(w, u, p, who.c_str(), false)) { if (!dead) violation("no-response", "%s: no response from a healthy server", who.c_str()); un[i].on = true; un[i].after = after; un[i].newid = p.op == RENEW || u.m.empty() ? "?" : ""; return; }
        count("crash.acknowledged");
      }
    }));
    Fiber *killer = !last && when != NEVER ? spawn("killer", [&] { sleep_until(when); if (!dead) die(); }) : nullptr;
    for (auto f : cl) join(f);
    if (killer) join(killer);
    if (!dead && !last) { die(); }
    if (last) { s->stop(); s->destroy(); }
    sqldisk::op_hook = nullptr;
  }
}
