// P03: the client receives exactly the response the handler produced, correctly framed; a failure leaves only a detectable prefix.
#include "http.h"
#include <onion/response.h>
extern "C" {
#include <onion/codecs.h>
void sim_user_free(void *);
}
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <set>
using namespace sim;

namespace {
struct Op { int kind; std::string data; };   // 0 write 1 write0 2 printf 3 html_safe 4 flush 5 write_headers
struct Cookie { std::string k, v, path, domain; long validity = -1; int flags = 0; bool sent = true; Time made = 0; };
struct Plan {
  int code = 200; Pairs headers; bool set_len = false; std::vector<Op> ops; std::string body; std::vector<Cookie> cookies; int n = 0; bool hdr_frozen = false;
  Time ran = 0; bool no_ka = false;
};
std::string html(const std::string &s) { std::string o; for (char c : s) switch (c) { case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break; case '"': o += "&quot;"; break; case '\'': o += "&#39;"; break; default: o += c; } return o; }
Plan gen_plan(size_t maxbody) {
  Plan p; static const int codes[] = {200, 201, 206, 207, 301, 302, 303, 307, 400, 401, 403, 404, 405, 416, 418, 500, 501, 502, 503};
  p.code = choose(S_WORK, 3) ? 200 : codes[choose(S_WORK, 19)];
  int nh = choose(S_WORK, 4);
  for (int i = 0; i < nh; i++) { std::string k = "X-H" + std::to_string(i) + rand_bytes(S_WORK, choose(S_WORK, 6), "abcDEF-09"); size_t n = rand_size(choose(S_WORK, 6) == 5 ? 4000 : 60); std::string v = rand_bytes(S_WORK, n, "abcXYZ0189 ,;=\"/()<>@:"); while (!v.empty() && v[0] == ' ') v.erase(0, 1); while (!v.empty() && v.back() == ' ') v.pop_back(); p.headers.push_back({k, v}); }
  if (choose(S_WORK, 4) == 3) p.headers.push_back({"Content-Type", "application/x-sim"});
  if (choose(S_WORK, 3) == 2) for (int i = 0, n = 1 + choose(S_WORK, 3); i < n; i++) {
    Cookie c; c.k = "k" + std::to_string(i) + rand_bytes(S_WORK, choose(S_WORK, 6), "abcXYZ"); size_t vl = rand_size(200); if (choose(S_WORK, 6) == 5) { static const size_t L[] = {1000, 3990, 4040, 4060, 4080, 4096, 4200, 6000, 9000}; vl = L[choose(S_WORK, 9)] + choose(S_WORK, 24); }
    c.v = rand_bytes(S_WORK, vl, "abcXYZ0189-_."); static const long va[] = {-1, 0, 1, 59, 3600, 86400, 31536000}; c.validity = va[choose(S_WORK, 7)];
    if (choose(S_WORK, 2)) c.path = "/p" + rand_bytes(S_WORK, choose(S_WORK, 5), "ab/"); if (choose(S_WORK, 2)) c.domain = "www.example.com"; c.flags = choose(S_WORK, 4); static const int ss[] = {0, 0, OC_SAMESITE_NONE, OC_SAMESITE_LAX, OC_SAMESITE_STRICT}; c.flags |= ss[choose(S_WORK, 5)];
    p.cookies.push_back(c);
  }
  int no = choose(S_WORK, 6); bool wh = choose(S_WORK, 8) == 7;
  for (int i = 0; i < no; i++) {
    Op o; o.kind = choose(S_WORK, 6); if (o.kind == 5 && (!wh || i)) o.kind = 0;
    size_t n = rand_size(maxbody / (no ? no : 1));
    if (o.kind < 4) {
      if (o.kind == 0) o.data = rand_content(n); else if (o.kind == 3) o.data = rand_bytes(S_WORK, n, "abc<>&\"' xyz\n"); else { o.data = rand_bytes(S_WORK, n, "abcdefghi xyz\r\n0123456789"); }
      p.body += o.kind == 3 ? html(o.data) : o.data;
    }
    p.ops.push_back(o);
  }
  p.set_len = choose(S_WORK, 3) == 2;
  // explicit header write freezes the headers: without a declared length the framing is decided there
  return p;
}
void run_plan(Plan &p, onion_request *req, onion_response *res) {
  p.n++; p.ran = now();
  onion_response_set_code(res, p.code);
  for (auto &h : p.headers) onion_response_set_header(res, h.first.c_str(), h.second.c_str());
  for (auto &c : p.cookies) { c.made = now(); c.sent = onion_response_add_cookie(res, c.k.c_str(), c.v.c_str(), c.validity, c.path.empty() ? nullptr : c.path.c_str(), c.domain.empty() ? nullptr : c.domain.c_str(), c.flags); if (!c.sent && c.v.size() < 3000) violation("cookie-refused", "a short cookie was refused"); }
  if (p.set_len) onion_response_set_length(res, p.body.size());
  for (auto &o : p.ops) switch (o.kind) {
    case 0: onion_response_write(res, o.data.data(), o.data.size()); break;
    case 1: onion_response_write0(res, o.data.c_str()); break;
    case 2: onion_response_printf(res, "%s", o.data.c_str()); break;
    case 3: if (o.data.size() % 3 == 2) { const char *q = onion_html_quote_dup(o.data.c_str()); if (!q) violation("quote", "nothing where a quoted text should be"); onion_response_write0(res, q); sim_user_free((void *)q); } else onion_response_write_html_safe(res, o.data.c_str()); break;
    case 4: onion_response_flush(res); break;
    case 5: if (p.set_len) onion_response_write_headers(res), p.set_len = p.set_len; break;
    }
}
}

static void check_headers(const HResp &h, const Plan &p, const char *ctx, Time sent) {
  evaluated();
  if (h.status != p.code) violation("wrong-status", "%s: handler set %d, client got %d", ctx, p.code, h.status);
  for (auto &x : p.headers) { if (h.countk(x.first) != 1) violation("header-lost", "%s: header %s sent %d times", ctx, x.first.c_str(), h.countk(x.first)); if (h.get(x.first) != x.second) violation("header-altered", "%s: header %s is %s, handler set %s", ctx, x.first.c_str(), esc(h.get(x.first)).c_str(), esc(x.second).c_str()); }
  int extra = 0; for (auto &x : h.headers) if (!strncasecmp(x.first.c_str(), "X-H", 3)) { bool f = false; for (auto &y : p.headers) if (y.first == x.first) f = true; if (!f) extra++; }
  if (extra) violation("header-invented", "%s: a header nobody set was sent (leak between responses?)", ctx);
  std::vector<std::string> got; for (auto &x : h.headers) if (!strcasecmp(x.first.c_str(), "Set-Cookie")) got.push_back(x.second);
  size_t nsent = 0; for (auto &c : p.cookies) if (c.sent) { // each is sent once, with exactly its attributes
    nsent++; std::string pre = c.k + "="; int f = -1; for (size_t i = 0; i < got.size(); i++) if (got[i].compare(0, pre.size(), pre) == 0) { if (f >= 0) violation("cookie-twice", "%s: cookie %s is sent twice", ctx, c.k.c_str()); f = i; }
    if (f < 0) violation("cookie-lost", "%s: cookie %s was accepted and not sent", ctx, c.k.c_str());
    std::multiset<std::string> w, g; if (c.path.size()) w.insert("path=" + c.path); if (c.domain.size()) w.insert("domain=" + c.domain); if (c.flags & OC_HTTP_ONLY) w.insert("HttpOnly"); if (c.flags & OC_SECURE) w.insert("Secure"); if (c.flags & OC_SAMESITE_NONE) w.insert("SameSite=None"); if (c.flags & OC_SAMESITE_LAX) w.insert("SameSite=Lax"); if (c.flags & OC_SAMESITE_STRICT) w.insert("SameSite=Strict");
    std::string s = got[f], exp; size_t e = s.find("; "), i = e; if (s.substr(0, e) != pre + c.v) violation("cookie-altered", "%s: cookie %s sent as %s", ctx, esc(pre + c.v).c_str(), esc(s).c_str());
    while (i != std::string::npos) { size_t j = s.find("; ", i + 2); std::string a = s.substr(i + 2, j == std::string::npos ? j : j - i - 2); if (a.compare(0, 8, "expires=") == 0 && exp.empty()) exp = a.substr(8); else g.insert(a); i = j; }
    if (w != g) violation("cookie-attrs", "%s: cookie attributes wrong: %s", ctx, esc(s.substr(s.size() > 250 ? s.size() - 250 : 0), 300).c_str());
    if (exp.empty() != (c.validity < 0)) violation("cookie-expires", "%s: a cookie of validity %ld is sent with expiration %s", ctx, c.validity, exp.c_str());
    if (!exp.empty()) { struct tm tm; memset(&tm, 0, sizeof tm); const char *z = strptime(exp.c_str(), "%a, %d %b %Y %H:%M:%S", &tm); if (!z || *z != ' ') violation("cookie-expires", "%s: malformed expiration %s", ctx, esc(exp).c_str());
      int64_t x = timegm(&tm) - (!strcmp(z, " ONE") ? 3600 : !strcmp(z, " MIN") ? -18000 : 0), lo = (int64_t)EPOCH + (int64_t)(c.made / SEC) + c.validity - 1, hi = (int64_t)EPOCH + (int64_t)(now() / SEC) + c.validity + 1;
      if (c.validity == 0 ? x != 0 : x < lo || x > hi) violation("cookie-expires", "%s: a cookie valid for %ld s is sent with expiration %s, %lld s away", ctx, c.validity, esc(exp).c_str(), (long long)(x - lo)); }
  }
  if (got.size() != nsent) violation("cookie-invented", "%s: a cookie nobody set, or that was refused, was sent", ctx);
  // the Date header names the time the response was made
  std::string d = h.get("Date"); if (h.countk("Date") != 1) violation("date", "%s: %d Date headers", ctx, h.countk("Date"));
  struct tm tm; memset(&tm, 0, sizeof tm); const char *e = strptime(d.c_str(), "%a, %d %b %Y %H:%M:%S", &tm);
  if (!e || (strcmp(e, " UTC") && strcmp(e, " GMT"))) /* the only zones of HTTP dates */ violation("date", "%s: malformed Date %s", ctx, esc(d).c_str());
  int64_t t = timegm(&tm), lo = (int64_t)EPOCH + (int64_t)(sent / SEC) - 2 - (int64_t)(max_stall_total / SEC), hi = (int64_t)EPOCH + (int64_t)(now() / SEC) + 1;
  if (t < lo || t > hi) violation("date", "%s: Date %s is %lld s away from the time of the response", ctx, esc(d).c_str(), (long long)(t - hi));
}

static void responses(int level) { // level 0: no failures; 1: connections fail while the response is on its way
  bool conc = choose(S_WORK, 2) == 1;
  base_setup(conc); net_faults(); static const char *const tz[] = {"UTC", "ONE-1", "MIN5"}; setenv("TZ", tz[choose(S_WORK, 3)], 1); tzset();
  if (level == 1) { static const unsigned r[] = {0, 15, 60, 200}; fault_enable("write_error", r[choose(S_FAULT, 4)]); if (choose(S_FAULT, 3) == 2) fault_enable("write_transient", r[choose(S_FAULT, 4)]); }
  SrvCfg sc = rand_srv(); if (!conc && choose(S_WORK, 2)) sc.threads = 1;
  Srv s; s.create(sc);
  std::map<std::string, Plan> plans;
  s.handler = [&](onion_request *req, onion_response *res) {
    const char *id = onion_request_get_header(req, "X-Id"); if (!id || !plans.count(id)) violation("lost-request", "handler called for an unknown request");
    run_plan(plans[id], req, res);
    return OCS_PROCESSED;
  };
  s.start();
  int nc = conc ? 1 + choose(S_WORK, 4) : 1; static const size_t mb[] = {200, 4000, 40000}; size_t maxbody = mb[choose(S_WORK, 3)];
  std::vector<Fiber *> cl;
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    Conn *c = nullptr; int nr = 1 + choose(S_WORK, 5); bool open = false;
    int pausing = choose(S_NET, 3); // 0 reads at once, 1 stops reading now and then, 2 small window
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; if (!c->open(sc.port, false)) violation("refused", "connection refused while listening"); open = true; if (pausing == 2) c->c.s->txcap = 200 + choose(S_NET, 3000); }
      std::string id = std::to_string(i) + "." + std::to_string(k);
      plans[id] = gen_plan(maxbody); Plan &p = plans[id];
      bool head = choose(S_WORK, 6) == 5, h11 = choose(S_WORK, 4) != 3, ka = choose(S_WORK, 4) != 3 && sc.mode != O_ONE_LOOP;
      std::string raw = std::string(head ? "HEAD" : "GET") + " /r HTTP/1." + (h11 ? "1" : "0") + "\r\nX-Id: " + id + "\r\n";
      if (h11 && !ka) raw += "Connection: close\r\n"; if (!h11 && ka) raw += "Connection: Keep-Alive\r\n"; raw += "\r\n";
      std::string ctx = "response " + id + " (" + (head ? "HEAD" : "GET") + (h11 ? " 1.1" : " 1.0") + (ka ? " keep-alive" : " close") + ", " + std::to_string(p.ops.size()) + " writes, body " + std::to_string(p.body.size()) + (p.set_len ? ", length set" : "") + ")";
      if (i == 0 && k == 0) describe("%s/%d threads, %d clients: %s", mode_name(sc.mode), sc.threads, nc, ctx.c_str());
      Time sent = now();
      c->send(raw, SEG_WHOLE);
      if (pausing == 1 && choose(S_NET, 2)) { c->c.pause(); Client *cc = &c->c; after(choose(S_NET, 3000) * MS, [cc] { cc->resume(); }); }
      bool abrt = level == 1 && choose(S_FAULT, 6) == 5;
      if (abrt) { size_t lim = c->off + choose(S_FAULT, 3000); Time dl = now() + range(S_FAULT, 0, 40) * MS; c->c.wait_rx([&] { return c->eof() || c->rx().size() > lim; }, dl); c->c.reset(); count("fault.client_reset"); HResp h = parse_response(c->rx(), c->off, head, false); if (h.bad) violation("malformed-response", "%s: %s", ctx.c_str(), h.why.c_str()); open = false; op_done(); evaluated(); continue; }
      HResp h = c->response(head, liveness_bound, level == 0, ctx.c_str());
      evaluated(); op_done();
      if (p.n != 1 && level == 0) violation("handler-count", "%s: handler ran %d times", ctx.c_str(), p.n);
      if (h.head_done) check_headers(h, p, ctx.c_str(), sent);
      if (!h.complete) {
        if (!c->eof()) violation("no-progress", "%s: neither completed nor closed %.0f s after the request; threads: %s", ctx.c_str(), liveness_bound / 1e9, blocked_report().c_str());
        if (h.body.size() > p.body.size() || p.body.compare(0, h.body.size(), h.body)) violation("not-a-prefix", "%s: what arrived of a failed response is not a prefix of it: %s", ctx.c_str(), esc(h.body).c_str());
        count("net.truncated_detected"); open = false; continue;
      }
      if (head) { if (h.framing == HResp::LENGTH && h.length != p.body.size()) violation("head-length", "%s: HEAD announces %zu bytes, the body has %zu", ctx.c_str(), h.length, p.body.size()); }
      else if (h.framing == HResp::CLOSE && level == 1) { if (h.body.size() > p.body.size() || p.body.compare(0, h.body.size(), h.body)) violation("not-a-prefix", "%s: what arrived is not a prefix of the response", ctx.c_str()); }
      else if (h.body != p.body) violation("body-altered", "%s: body differs: sent %s got %s (framing %d)", ctx.c_str(), esc(p.body).c_str(), esc(h.body).c_str(), (int)h.framing);
      if (!h11 && h.framing == HResp::CHUNKED) violation("chunked-1.0", "%s: chunked encoding sent to an HTTP/1.0 client", ctx.c_str());
      if (h.version != (h11 ? "HTTP/1.1" : "HTTP/1.0")) violation("version", "%s: answered as %s", ctx.c_str(), h.version.c_str());
      mix_state(std::hash<std::string>()(h.body) + h.status);
      bool stays = ka && h.framing != HResp::CLOSE;
      if (level == 0 && ka && h11 && !head && !h.keepalive) violation("keepalive-lost", "%s: an HTTP/1.1 connection is announced as closing", ctx.c_str());
      if (!ka || !h.keepalive) {
        if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound)) violation("not-closed", "%s: connection announced as closing stays open", ctx.c_str());
        if (c->rx().size() != c->off) violation("trailing-bytes", "%s: %zu bytes follow the response: %s", ctx.c_str(), c->rx().size() - c->off, esc(c->rx().substr(c->off)).c_str());
        open = false;
      } else if (level == 0 && choose(S_WORK, 4) == 3) { // an idle keep-alive connection stays silent and open
        sleep_for(range(S_WORK, 1, 2000) * MS);
        if (c->eof()) violation("keepalive-broken", "%s: connection announced as keep-alive was closed", ctx.c_str());
        if (c->rx().size() != c->off) violation("trailing-bytes", "%s: bytes follow the response: %s", ctx.c_str(), esc(c->rx().substr(c->off)).c_str());
      }
      (void)stays;
    }
    if (c) c->c.close();
  }));
  for (auto f : cl) join(f);
  faults_off();
  if (level == 1) { // afterwards the server still serves correctly
    Conn *c = new Conn; if (!c->open(sc.port, false)) violation("refused", "connection refused after faults stopped");
    Plan &p = plans["last"]; p = gen_plan(2000);
    c->send("GET /r HTTP/1.1\r\nX-Id: last\r\nConnection: close\r\n\r\n", SEG_WHOLE);
    HResp h = c->response(false, liveness_bound, true, "request after faults stopped"); evaluated();
    if (h.body != p.body || h.status != p.code) violation("body-altered", "after faults stopped a response is wrong");
    c->c.close();
  }
  s.stop(); s.destroy();
}
SCENARIO(P03, framing, 3) { responses(0); }
SCENARIO(P03, failing, 2) { responses(1); }
