// P22: every handled request leaves exactly one whole and true line in the log, and the log never disturbs the service.
#include "http.h"
#include <string.h>
#include <stdlib.h>
extern "C" {
#include <onion/shortcuts.h>
}
#include <syslog.h>
#include <time.h>
using namespace sim;

namespace {
struct Line { int level; std::string file; int lineno; std::string msg; bool cut = false; time_t t = 0; bool sys = false; };
struct Req { int cid; std::string method, path; int status = 0; long bytes = -1; bool complete = false; int kept = -1; int ran = 0; std::vector<std::string> said; Time t0 = 0; bool closing = false; };
std::vector<Line> own; // what an application's own log was given
void own_log(onion_log_level l, const char *f, int n, const char *fmt, ...) { char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); yield_sync("log"); Line x; x.level = l; const char *s = strrchr(f, '/'); x.file = s ? s + 1 : f; x.lineno = n; x.msg = b; own.push_back(x); }
const char *const levels[] = {"DEBUG0", "DEBUG", "INFO", "WARNING", "ERROR"};
std::string strip(const std::string &s, bool &color) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 27 && s[i + 1] == '[') { color = true; while (i < s.size() && s[i] != 'm') i++; } else r += s[i]; } return r; }
// "[thread] [date time] [LEVEL file:line] message"
Line parse_line(const std::string &raw, bool nocolor) {
  bool color = false; std::string s = strip(raw, color); Line l;
  if (nocolor && color) violation("log-color", "colors were switched off, the log has them: %s", esc(raw).c_str());
  for (unsigned char c : s) if (c < 32) violation("log-line", "a line of the log has a control character nobody logged: %s", esc(raw, 400).c_str());
  auto no = [&](const char *w) { violation("log-line", "a line of the log is not whole (%s): %s", w, esc(raw, 400).c_str()); };
  size_t a = s.find("] ["); if (s.empty() || s[0] != '[' || a == std::string::npos) no("start");
  size_t b = s.find("] [", a + 3); if (b == std::string::npos) no("date");
  struct tm tm; memset(&tm, 0, sizeof tm); std::string d = s.substr(a + 3, b - a - 3); if (d.size() != 19 || !strptime(d.c_str(), "%Y-%m-%d %H:%M:%S", &tm)) no("date"); l.t = timegm(&tm);
  size_t c = s.find("] ", b + 3); if (c == std::string::npos) no("place"); std::string pl = s.substr(b + 3, c - b - 3); size_t sp = pl.find(' '), co = pl.rfind(':'); if (sp == std::string::npos || co == std::string::npos) no("place");
  l.level = -1; for (int i = 0; i < 5; i++) if (pl.substr(0, sp) == levels[i]) l.level = i; if (l.level < 0) no("level");
  l.file = pl.substr(sp + 1, co - sp - 1); l.lineno = atoi(pl.c_str() + co + 1); l.msg = s.substr(c + 2);
  return l;
}
// Short messages are logged as they are, long ones may be cut and then end in dots
bool same_msg(const std::string &want, const std::string &got) { if (got == want) return true; if (want.size() <= 150 || got.size() < 100 || got.size() > want.size() || got.substr(got.size() - 3) != "...") return false; return want.compare(0, got.size() - 3, got, 0, got.size() - 3) == 0; }
}

static void logs(bool faults) {
  bool conc = choose(S_WORK, 5) != 4; base_setup(conc); net_faults();
  int to = choose(S_WORK, 6); if (faults && to == 5) to = 0; // 0-2 stderr, 3 stderr without information, 4 syslog, 5 the application's own log
  bool nocolor = choose(S_WORK, 2), nodebug = choose(S_WORK, 2), noinfo = to == 3;
  std::string env = std::string(noinfo ? "noinfo " : "") + (nocolor ? "nocolor," : "") + (nodebug ? "nodebug" : "") + (to == 4 ? "syslog" : "");
  setenv("TZ", "UTC", 1); if (env.empty()) unsetenv("ONION_LOG"); else setenv("ONION_LOG", env.c_str(), 1);
  std::string err; std::vector<Line> sys; int lost = 0;
  stderr_sink = [&](const std::string &s) -> ssize_t {
    if (fault("stderr_error")) { static const int e[] = {EAGAIN, EPIPE, EIO, ENOSPC, EINTR}; lost++; errno = e[choose(S_FAULT, 5)]; return -1; }
    if (fault("stderr_short") && s.size() > 1) { lost++; size_t n = 1 + choose(S_FAULT, s.size() - 1); err += s.substr(0, n) + "\n"; return n; }
    err += s; return s.size(); };
  syslog_sink = [&](int pri, const std::string &s) { Line l; l.sys = true; l.msg = s; l.level = -1; static const int p[] = {LOG_DEBUG, LOG_DEBUG, LOG_INFO, LOG_WARNING, LOG_ERR}; for (int i = 4; i >= 0; i--) if (p[i] == (pri & 7)) l.level = i; sys.push_back(l); };
  if (faults) { static const unsigned r[] = {0, 100, 400, 1024}; fault_enable("stderr_error", r[choose(S_FAULT, 4)]); fault_enable("stderr_short", r[choose(S_FAULT, 3)]); }
  SrvCfg sc = rand_srv(); Srv s; s.create(sc); own.clear();
  onion_log = to == 5 ? own_log : onion_log_stderr;
  std::map<std::string, Req> reqs; fs::put_file("/srv/f", std::string(3000, 'f'));
  s.handler = [&](onion_request *req, onion_response *res) -> int {
    const char *id = onion_request_get_header(req, "X-Id"); if (!id || !reqs.count(id)) return OCS_PROCESSED; Req &q = reqs[id]; q.ran++;
    std::string idc = id; int n = choose(S_WORK, 4) == 3 ? 1 + choose(S_WORK, 2) : 0;
    for (int i = 0; i < n; i++) { static const int lens[] = {0, 10, 80, 140, 165, 175, 179, 180, 181, 182, 183, 190, 200, 240, 255, 256, 300, 2000}; int lv = 2 + choose(S_WORK, 3); std::string m = "said " + idc + "." + std::to_string(i) + " at " + std::to_string(lv) + " "; size_t L = lens[choose(S_WORK, 18)] + choose(S_WORK, 4); while (m.size() < L) m += "0123456789abcdef%"[m.size() % 17]; q.said.push_back(m); onion_log((onion_log_level)lv, choose(S_WORK, 2) ? "/some/dir/app.c" : "app.c", 100 + lv, "%s", m.c_str()); }
    std::string b = rand_bytes(S_WORK, rand_size(choose(S_WORK, 4) ? 300 : 6000), "abcdef");
    switch (choose(S_WORK, 6)) {
    case 0: onion_response_set_length(res, b.size()); onion_response_write(res, b.data(), b.size()); break;
    case 1: onion_response_write(res, b.data(), b.size() / 2); onion_response_flush(res); onion_response_write(res, b.data() + b.size() / 2, b.size() - b.size() / 2); break;
    case 2: return onion_shortcut_response("not found", 404, req, res);
    case 3: return onion_shortcut_response_file("/srv/f", req, res);
    case 4: onion_response_set_code(res, 201); onion_response_set_header(res, "X-A", b.substr(0, 200).c_str()); onion_response_write(res, b.data(), b.size()); break;
    case 5: return OCS_NOT_PROCESSED;
    }
    if (choose(S_WORK, 3) == 2) yield_sync("handler");
    return OCS_PROCESSED;
  };
  s.start();
  int nc = conc ? 1 + choose(S_WORK, 5) : 1; describe("%s/%d threads, %d clients, log %d%s", mode_name(sc.mode), sc.threads, nc, to, faults ? ", failing" : "");
  std::vector<Fiber *> cl; Time begin = now();
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    int nr = 1 + choose(S_WORK, 5); Conn *c = nullptr; bool open = false; std::string last;
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused while listening"); open = true; last.clear(); }
      std::string id = std::to_string(i) + "." + std::to_string(k); Req &q = reqs[id]; q.cid = c->c.id; static const char *ms[] = {"GET", "GET", "POST", "HEAD", "PUT", "DELETE"}; q.method = ms[choose(S_WORK, 6)]; q.t0 = now();
      std::string p = "/" + id, raw; static const char *const bits[] = {"a", "/b", "%20", "%25s", "%25n", "%C3%B1", "%25d", "\"", "xyz", "0123456789"}; static const char *const dec[] = {"a", "/b", " ", "%s", "%n", "\xc3\xb1", "%d", "\"", "xyz", "0123456789"};
      raw = p; int nb = choose(S_WORK, 3) ? choose(S_WORK, 6) : choose(S_WORK, 60); for (int j = 0; j < nb; j++) { int x = choose(S_WORK, 10); raw += bits[x]; p += dec[x]; } q.path = p; if (choose(S_WORK, 3) == 2) raw += "?q=1";
      bool ka = sc.mode != O_ONE_LOOP && choose(S_WORK, 4) != 3, body = q.method == "POST" || q.method == "PUT"; std::string b = body ? "a=1" : "";
      std::string r = q.method + " " + raw + " HTTP/1.1\r\nX-Id: " + id + "\r\n" + (ka ? "" : "Connection: close\r\n") + (body ? "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: 3\r\n" : "") + "\r\n" + b;
      bool vanish = choose(S_WORK, 12) == 11; c->send(r, choose(S_NET, SEG_NMODES)); if (vanish) { sleep_for(choose(S_WORK, 20) * MS); if (choose(S_WORK, 2)) c->c.reset(); else c->c.close(); open = false; count("fault.client_vanished"); continue; }
      HResp h = c->response(q.method == "HEAD", liveness_bound, true, ("request " + id).c_str()); evaluated(); op_done();
      if (q.ran != 1) violation("handler-count", "request %s ran %d times", id.c_str(), q.ran);
      q.status = h.status; q.bytes = q.method == "HEAD" ? 0 : (long)h.body.size(); q.complete = true;
      if (!last.empty()) reqs[last].kept = 1; last = id;
      if (!ka || !h.keepalive) { if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound)) violation("not-closed", "connection announced as closing stays open"); if (sc.mode != O_ONE_LOOP) q.kept = 0; open = false; }
    }
    if (c) c->c.close();
  }));
  for (auto f : cl) join(f);
  faults_off();
  { Conn *c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused while listening"); c->send("GET /end HTTP/1.1\r\nConnection: close\r\n\r\n", SEG_WHOLE); c->response(false, liveness_bound, true, "the last request"); evaluated(); c->c.close(); }
  s.stop(); s.destroy(); Time end = now();
  if (lost) { stderr_sink = nullptr; syslog_sink = nullptr; onion_log = onion_log_stderr; count("log.failed", lost); return; } // pieces are missing: only the service is judged
  // what the log says
  std::vector<Line> all = own; all.insert(all.end(), sys.begin(), sys.end());
  size_t pos = 0; while (pos < err.size()) { size_t e = err.find('\n', pos); if (e == std::string::npos) { violation("log-line", "the log ends in the middle of a line: %s", esc(err.substr(pos)).c_str()); } std::string raw = err.substr(pos, e - pos); pos = e + 1; Line l = parse_line(raw, nocolor); time_t a = EPOCH + begin / SEC, z = EPOCH + end / SEC + 1; if (l.t < a - 1 || l.t > z) violation("log-time", "a line of the log is dated %ld, it was written between %ld and %ld", (long)l.t, (long)a, (long)z); all.push_back(l); }
  if (to == 4 && sys.empty() && all.size() > 30) violation("log-lost", "the system log was asked for and got nothing");
  if (to != 4 && !sys.empty()) violation("log-place", "lines go to the system log, nobody asked for it");
  if (to == 4 && all.size() - sys.size() > 12) violation("log-place", "%zu lines go to standard error, the system log was asked for", all.size() - sys.size());
  std::vector<bool> used(all.size());
  for (auto &kv : reqs) { Req &q = kv.second; char cl_[40]; snprintf(cl_, sizeof cl_, "10.0.%d.%d", q.cid >> 8, q.cid & 255);
    std::string head = std::string("[") + cl_ + "] \"" + q.method + " " + q.path + "\" "; int n = 0;
    for (size_t i = 0; i < all.size(); i++) { Line &l = all[i]; size_t w = std::min(head.size(), l.msg.size() > 3 ? l.msg.size() - 3 : 0); bool mine = l.msg.compare(0, head.size(), head) == 0; if (!mine && head.size() > 150 && l.msg.size() >= 100 && l.msg.compare(l.msg.size() - 3, 3, "...") == 0 && head.compare(0, w, l.msg, 0, w) == 0) mine = true; if (!mine) continue;
      n++; used[i] = true; if (l.level != O_INFO) violation("log-level", "the line of request %s has level %d", kv.first.c_str(), l.level);
      if (!q.complete) continue;
      bool ok = false; std::string w0; for (int keep = 0; keep < 2; keep++) { if (q.kept >= 0 && q.kept != keep) continue; long by = q.bytes; if (q.method == "HEAD" && l.msg.size() > head.size() + 4) by = atol(l.msg.c_str() + head.size() + 4); /* its size is the one of the body it would have had, or none */ std::string full = head + std::to_string(q.status) + " " + std::to_string(by) + (keep ? " (Keep-Alive)" : " (Close connection)"); w0 = full; if (same_msg(full, l.msg)) ok = true; }
      if (!ok) violation("log-untrue", "request %s, the log says %s, what happened is %s", kv.first.c_str(), esc(l.msg, 400).c_str(), esc(w0, 400).c_str()); }
    if (n > 1) violation("log-twice", "request %s has %d lines in the log", kv.first.c_str(), n);
    if (q.ran && !noinfo && n != 1) violation("log-lost", "request %s was handled and left no line in the log (%s%s)", kv.first.c_str(), head.c_str(), "..."); if (!q.ran && n) violation("log-invented", "request %s was not handled and is in the log", kv.first.c_str());
    if (noinfo && n) violation("log-noinfo", "information lines were switched off and one is there: %s", head.c_str());
    for (auto &m : q.said) { int lv = m[m.find(" at ") + 4] - '0', c = 0; size_t key = m.find(" at ") + 6; for (size_t i = 0; i < all.size(); i++) if (all[i].msg.compare(0, key, m, 0, key) == 0) { c++; used[i] = true; Line &l = all[i]; if (!(l.sys ? l.msg == m : to == 5 ? l.msg == m : same_msg(m, l.msg))) violation("log-untrue", "a handler logged %s, the log has %s", esc(m, 400).c_str(), esc(l.msg, 400).c_str()); if (l.level != lv) violation("log-level", "logged with level %d, in the log with %d", lv, l.level); if (!l.sys && (l.file != "app.c" || l.lineno != 100 + lv)) violation("log-place", "logged from app.c:%d, the log says %s:%d", 100 + lv, l.file.c_str(), l.lineno); }
      int want = noinfo && lv == O_INFO ? 0 : 1; if (c > want || c < want) violation("log-count", "a handler's message is %d times in the log: %s", c, esc(m).c_str()); } }
  count("log.lines", all.size()); stderr_sink = nullptr; syslog_sink = nullptr; onion_log = onion_log_stderr;
  mix_state(all.size() * 31 + reqs.size());
}
SCENARIO(P22, log, 3) { logs(false); }
SCENARIO(P22, failing, 1) { logs(true); }
