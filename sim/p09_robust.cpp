// P08: size limits. P09: no input makes the server crash, corrupt memory, hang, leak or disturb others.
#include "http.h"
#include <string.h>
extern "C" {
#include <onion/url.h>
#include <onion/shortcuts.h>
#include <onion/handlers/exportlocal.h>
#include <onion/handlers/path.h>
#include <onion/handlers/static.h>
#include <onion/handlers/internal_status.h>
#include <onion/handlers/auth_pam.h>
#include <onion/handlers/webdav.h>
#include <onion/websocket.h>
}
extern "C" void sim_user_free(void *);
using namespace sim;

namespace {
const char *DICT[] = {"\r\n", "\n", "\r", "\r\n\r\n", "\n\n", ": ", ":", " ", "\t", "\r\n ", "\r\n\t", "\n ", "%", "%00", "%zz", "%2", "+", "&", "=", "?", "/", "//", "/../", "..", "\"", "\"\"", ";", "; ", "--", "-", "\0", "\xff", "\x80", "Content-Length: 0\r\n", "Content-Length: -1\r\n", "Content-Length: 4294967296\r\n", "Content-Length: 18446744073709551615\r\n", "Content-Length: abc\r\n", "Content-Length:\r\n", "Content-Length: 5\r\n", "Cookie: \r\n", "Cookie: a\r\n", "Cookie: =\r\n", "Cookie: ;;;\r\n", "Cookie: a=b;\r\n", "Cookie:  a = b ; c\r\n", "Cookie: sessionid=xxxx\r\n", "Cookie: sessionid=\r\n", "Content-Type: multipart/form-data; boundary=\r\n", "Content-Type: multipart/form-data; boundary\r\n", "Content-Type: application/x-www-form-urlencoded\r\n", "Transfer-Encoding: chunked\r\n", "Connection: Keep-Alive\r\n", "Connection: close\r\n", "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-Websocket-Version: 13\r\nSec-Websocket-Key: x\r\n", "Upgrade: websocket\r\n", "Authorization: Basic \r\n", "Authorization: Basic dXNlcjpwYXNz\r\n", "Authorization: Basic ====\r\n", "Authorization: Basic %%%%\r\n", "Range: bytes=0-\r\n", "Range: bytes=5-2\r\n", "Range: bytes=-1\r\n", "Range: bytes=9999999999999-\r\n", "If-None-Match: x\r\n", "Accept-Language: \r\n", "Accept-Language: es-ES,en;q=0.1\r\n", "Accept-Language: ,\r\n", "Depth: 1\r\n", "Destination: http://x/dav/b\r\n", "Destination: \r\n", "Expect: 100-continue\r\n", "GET / HTTP/1.1\r\n\r\n", "HTTP/1.1", "HTTP/1.0", "filename=", "name=", "filename=\"", "name=\"", "name=\"\"", "filename=\"\"", "Content-Disposition:", "Content-Disposition: form-data\r\n"};
const int NDICT = sizeof DICT / sizeof *DICT;
std::string mutate(std::string s) {
  int n = choose(S_WORK, 7);
  for (int i = 0; i < n; i++) {
    size_t p = s.empty() ? 0 : choose(S_WORK, s.size() + 1), l;
    switch (choose(S_WORK, 9)) {
    case 0: { int d = choose(S_WORK, NDICT); s.insert(p, DICT[d][0] ? std::string(DICT[d]) : std::string(1, 0)); break; }
    case 1: if (!s.empty()) s[p % s.size()] = (char)choose(S_WORK, 256); break;
    case 2: l = 1 + rand_size(40); s.erase(p, l); break;
    case 3: { l = 1 + rand_size(60); std::string d = s.substr(p, l); s.insert(p, d); break; }
    case 4: s.insert(p, std::string(1 + rand_size(4000), "aA=&% \t\";:/\r\n-.,"[choose(S_WORK, 17)])); break;
    case 5: s.resize(p); break;
    case 6: { size_t k = s.find("ontent-Length: "); if (k != std::string::npos) { static const char *ns[] = {"0", "1", "-1", "4294967296", "2147483648", "99999999999999999999", "10 ", "0x10", "", "+3", "100000", "7"}; size_t e = s.find_first_of("\r\n", k); if (e != std::string::npos) s.replace(k + 15, e - k - 15, ns[choose(S_WORK, 12)]); } break; }
    case 7: { size_t k = s.find("boundary="); if (k != std::string::npos) { size_t e = s.find_first_of("\r\n", k); if (e != std::string::npos) { std::string b = choose(S_WORK, 2) ? "" : choose(S_WORK, 2) ? "-" : rand_bytes(S_WORK, rand_size(900), "-ab"); s.replace(k + 9, e - k - 9, b); } } break; }
    case 8: { int d = choose(S_WORK, NDICT); size_t k = s.find("\r\n"); if (k == std::string::npos) break; s.insert(k + 2, DICT[d]); break; } // as a header
    }
    if (s.size() > 60000) s.resize(60000);
  }
  return s;
}
// multipart body with anomalies
std::string odd_multipart() {
  std::string b = choose(S_WORK, 6) ? rand_bytes(S_WORK, 1 + choose(S_WORK, 8), "ab-") : "", body; int n = 1 + choose(S_WORK, 12); static const char *nls[] = {"\r\n", "\n", "\r\n", "\r\n"};
  const char *nl = nls[choose(S_WORK, 4)];
  for (int i = 0; i < n; i++) {
    body += "--" + b + nl;
    static const char *cd[] = {"form-data; name=\"%s\"", "form-data;name=\"%s\"", "form-data; name=%s", "form-data;  name=\"%s\"", "form-data; name=\"%s", "form-data; filename=\"%s\"", "form-data; filename=\"%s\"; name=\"n\"", "form-data; name=\"n\"; filename=\"%s\"", "form-data;name=\"n\";filename=\"%s\"", "form-data; name=\"n\"; filename=%s", "form-data; name=\"%s\"; name=\"%s\"", "form-data", "", "name=", "filename=", " name=\"", "name=\"%s\"", "form-data; name=\"n\"; filename=", "x;y;z=1;name=\"%s\";filename=\"%s\""};
    std::string v = rand_bytes(S_WORK, rand_size(choose(S_WORK, 6) == 5 ? 1500 : 20), "abc\" ;=."); std::string f = cd[choose(S_WORK, 19)]; for (size_t p; (p = f.find("%s")) != std::string::npos;) f.replace(p, 2, v);
    if (choose(S_WORK, 8) != 7) body += "Content-Disposition: " + f + nl;
    if (choose(S_WORK, 4) == 3) body += "Content-Type: " + rand_bytes(S_WORK, rand_size(60), "abc/;") + nl;
    body += nl + rand_content(rand_size(choose(S_WORK, 5) == 4 ? 3000 : 40)) + nl;
  }
  if (choose(S_WORK, 4)) body += "--" + b + "--" + nl;
  long cl = body.size(); if (choose(S_WORK, 3) == 2) { static const long d[] = {-1, 1, -20, 100, -1000}; cl += d[choose(S_WORK, 5)]; if (choose(S_WORK, 4) == 3) cl = choose(S_WORK, 60); if (cl < 0) cl = 3; }
  return "POST /m HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=" + b + "\r\nContent-Length: " + std::to_string(cl) + "\r\n\r\n" + body;
}
void walk(void *p, const char *k, const char *v, int flags) { size_t *n = (size_t *)p; if (k) *n += strlen(k); if (!(flags & OD_DICT) && v) *n += strlen(v); }
size_t touch(onion_request *req) { // uses everything a handler may use
  size_t n = 0; const char *s;
  if ((s = onion_request_get_path(req))) n += strlen(s); if ((s = onion_request_get_fullpath(req))) n += strlen(s); if ((s = onion_request_get_method_name(req))) n += strlen(s);
  auto d = [&](const onion_dict *x) { if (x) onion_dict_preorder(x, (void *)walk, &n); };
  d(onion_request_get_header_dict(req)); d(onion_request_get_query_dict(req)); d(onion_request_get_post_dict(req)); d(onion_request_get_file_dict(req)); d(onion_request_get_cookies_dict(req));
  onion_request_get_cookie(req, "a"); if ((s = onion_request_get_language_code(req))) { n += strlen(s); sim_user_free((void *)s); }
  if ((s = onion_request_get_client_description(req))) n += strlen(s); onion_request_is_secure(req);
  const onion_block *b = onion_request_get_data(req); if (b) { n += onion_block_size(b); const char *p = onion_block_data(b); for (int i = 0; i < onion_block_size(b); i++) n += p[i] & 1; }
  onion_request_get_post(req, "n"); onion_request_get_file(req, "n"); onion_request_get_queryd(req, "q", "x");
  return n;
}
}

std::string odd_request() { GenCfg g; g.max_body = 1500; int t = choose(S_WORK, 6); return t == 5 ? rand_bytes(S_WORK, 1 + rand_size(2000)) : t >= 3 ? (choose(S_WORK, 3) ? odd_multipart() : mutate(odd_multipart())) : mutate(gen_request(g, "z", true).raw); }
std::string odd_variant(const std::string &s) { return mutate(s); }
SCENARIO(P09, garbage, 3) {
  warm_up(); bool conc = choose(S_WORK, 4) != 3;
  base_setup(conc); net_faults(); MemSnapshot ms = mem_snapshot(); int fds0 = fd_open_count();
  SrvCfg sc = rand_srv(); sc.timeout = (3 + choose(S_WORK, 3)) * 1000; max_stall_total = 1 * SEC; static const long lim[] = {-1, 1000, 100, 20000, 0}; sc.max_post = lim[choose(S_WORK, 5)]; sc.max_file = lim[choose(S_WORK, 5)];
  Srv s; s.create(sc); std::map<std::string, int> ran; size_t sink = 0; int calls = 0;
  s.handler = [&](onion_request *req, onion_response *res) -> int {
    const char *id = onion_request_get_header(req, "X-Good"); calls++;
    sink += touch(req);
    if (id) { ran[id]++; onion_response_printf(res, "<%s>", id); return OCS_PROCESSED; }
    switch (choose(S_WORK, 8)) {
    case 0: onion_response_printf(res, "ok"); return OCS_PROCESSED;
    case 1: { onion_dict *d = onion_request_get_session_dict(req); onion_dict_add(d, "k", "v", OD_REPLACE | OD_DUP_ALL); onion_response_printf(res, "session"); return OCS_PROCESSED; }
    case 2: onion_request_get_session_dict(req); onion_response_printf(res, "empty session"); return OCS_PROCESSED;
    case 3: return OCS_NOT_PROCESSED;
    case 4: return OCS_INTERNAL_ERROR;
    case 5: return onion_shortcut_redirect("/elsewhere", req, res);
    case 6: onion_request_session_free(req); { const char *p = onion_request_get_path(req); onion_response_write(res, p ? p : "-", p ? strlen(p) : 1); } return OCS_PROCESSED;
    default: { const char *h = onion_request_get_header(req, "X-Id"); onion_response_write_html_safe(res, h ? h : "&"); } return OCS_PROCESSED;
    }
  };
  s.start();
  int na = 1 + choose(S_WORK, conc ? 4 : 2); bool over = false; describe("%s/%d threads, %d attackers, limits %ld/%ld", mode_name(sc.mode), sc.threads, na, sc.max_post, sc.max_file);
  std::vector<Fiber *> cl;
  GenCfg g; g.max_body = 1500;
  for (int i = 0; i < na; i++) cl.push_back(spawn("attacker" + std::to_string(i), [&, i] {
    int nr = 1 + choose(S_WORK, 4);
    for (int k = 0; k < nr; k++) {
      Conn *c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused while listening");
      std::string all; int parts = 1 + choose(S_WORK, 2);
      for (int q = 0; q < parts; q++) { int t = choose(S_WORK, 6); all += t == 5 ? rand_bytes(S_WORK, rand_size(2000)) : t >= 3 ? (choose(S_WORK, 3) ? odd_multipart() : mutate(odd_multipart())) : mutate(gen_request(g, "z", true).raw); }
      int seg = choose(S_NET, SEG_NMODES); if (seg == SEG_BYTES && all.size() > 600) seg = SEG_RANDOM;
      c->send(all, seg); count("robust.bytes", all.size()); op_done();
      int end = choose(S_WORK, 4);
      if (end == 0) c->c.shutdown_wr();
      if (end == 1) { sleep_for(choose(S_WORK, 1000) * MS); c->c.reset(); continue; }
      if (end == 2) { sleep_for(choose(S_WORK, 1000) * MS); c->c.close(); continue; }
      if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound)) violation("never-ends", "a connection on which the client went silent is still open after %.0f s (timeout %d ms); threads: %s", liveness_bound / 1e9, sc.timeout, blocked_report().c_str());
      evaluated(); c->c.close();
    }
  }));
  cl.push_back(spawn("victim", [&] {
    int n = 0;
    while (!over && n < 8) {
      Conn *c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused while listening");
      std::string id = "g" + std::to_string(n++); c->send("GET /g HTTP/1.1\r\nX-Good: " + id + "\r\nConnection: close\r\n\r\n", SEG_FEW);
      HResp h = c->response(false, 2 * liveness_bound, true, "request of a correct client"); evaluated();
      if (h.status != 200 || h.body != "<" + id + ">" || ran[id] != 1) violation("disturbed", "the request of a correct client got status %d body %s", h.status, esc(h.body).c_str()); c->c.close(); sleep_for(choose(S_WORK, 300) * MS);
    }
  }));
  for (int i = 0; i < na; i++) join(cl[i]); over = true; join(cl.back());
  count("robust.handled", calls); mix_state(sink);
  s.stop(); s.destroy();
  check_clean("after arbitrary input", ms, fds0);
}

// ---------------------------------------------------------------- P08
SCENARIO(P08, limits, 3) {
  warm_up(); bool conc = choose(S_WORK, 4) != 3;
  base_setup(conc); net_faults(); MemSnapshot ms = mem_snapshot(); int fds0 = fd_open_count();
  SrvCfg sc = rand_srv(); sc.timeout = 60000; static const long lp[] = {1000, 64, 300, 5000, 20000, 1, 0}, lf[] = {1000, 50, 3000, 1024, 12000, 1, 0};
  long P = sc.max_post = lp[choose(S_WORK, 7)], F = sc.max_file = lf[choose(S_WORK, 7)];
  Srv s; s.create(sc);
  struct R { Obs exp; int need = 0; /* 1 must be accepted, -1 must be refused, 0 either */ int n = 0; std::string what; std::string why; size_t post = 0, file = 0; };
  std::map<std::string, R> want; int live = 0; size_t base = 0;
  auto disk = [&] { size_t t = 0; for (auto &p : fs::list("/tmp")) { auto i = fs::lookup(p); if (i) t += i->data.size(); } return t; };
  fs::op_hook = [&](const char *op, const std::string &, int) { if (strcmp(op, "write")) return; size_t d = disk(); if (d > (size_t)F * (live ? live : 1)) violation("disk-limit", "%zu bytes of temporary files for %d connections, the limit is %ld bytes each", d, live, F); };
  s.handler = [&](onion_request *req, onion_response *res) {
    const char *id = onion_request_get_header(req, "X-Id"); if (!id || !want.count(id)) violation("unknown-request", "the handler got a request nobody sent (%s): what follows a refused request was taken for another", id ? esc(id).c_str() : "no id");
    R &r = want[id]; r.n++; if (r.need < 0) violation("limit-exceeded", "%s reached the handler (limits: post %ld, file %ld): %s", r.what.c_str(), P, F, r.why.c_str());
    std::string d = obs_diff(r.exp, observe(req), false); if (!d.empty()) violation("request-altered", "%s: %s", r.what.c_str(), d.c_str());
    onion_response_printf(res, "<%s>", id); return OCS_PROCESSED;
  };
  s.start();
  int nc = 1 + choose(S_WORK, conc ? 3 : 2); std::vector<Fiber *> cl; describe("%s/%d threads, %d clients, limits post %ld file %ld", mode_name(sc.mode), sc.threads, nc, P, F);
  sleep_for(10 * MS); base = live_bytes(); peak_bytes(true); biggest_block(true);
  auto near = [&](long L) -> size_t { switch (choose(S_WORK, 8)) { case 0: return L; case 1: return L + 1; case 2: return L > 0 ? L - 1 : 0; case 3: return L / 2; case 4: return choose(S_WORK, L + 1); case 5: return L + 1 + choose(S_WORK, L + 100); case 6: return L + 2; default: return 2 * L + 10; } };
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    int nr = 1 + choose(S_WORK, 4); Conn *c = nullptr; bool open = false;
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused while listening"); open = true; live++; }
      std::string id = std::to_string(i) + "." + std::to_string(k), head, body; R &r = want[id]; Obs &e = r.exp; e.http11 = true; e.fullpath = "/" + id; e.path = id;
      int kind = choose(S_WORK, 5); e.method = kind == 1 ? "PUT" : "POST"; std::string ct;
      auto txt = [&](size_t n) { std::string t = rand_content(n); for (auto &ch : t) if (!ch || ch == '\r' || ch == '\n') ch = 'n'; return t; };
      if (kind == 0) { size_t n = near(P); std::string v = rand_bytes(S_WORK, n > 2 ? n - 2 : 0, "abcdef"); body = n >= 2 ? "v=" + v : std::string("vw").substr(0, n); if (n >= 2) e.post.insert({"v", v}); else if (n == 1) e.post.insert({"v", ""}); ct = "application/x-www-form-urlencoded"; r.need = (long)n <= P ? 1 : -1; r.what = "a urlencoded body of " + std::to_string(n) + " bytes"; }
      if (kind == 1) { size_t n = near(F); body = rand_content(n); e.files.insert({"filename", body}); r.need = (long)n <= F ? 1 : -1; r.what = "a PUT of " + std::to_string(n) + " bytes"; }
      if (kind == 2) { size_t n = near(P); if (!n) n = 1; body = rand_content(n); e.has_data = true; e.data = body; ct = "application/octet-stream"; r.need = (long)n <= P ? 1 : -1; r.what = "a raw body of " + std::to_string(n) + " bytes"; }
      if (kind >= 3) {
        std::string b = "B" + rand_bytes(S_WORK, 4, "xyz"); int n = 1 + choose(S_WORK, 3); long charge = 0, vals = 0, files = 0; body = "--" + b;
        std::vector<size_t> fsz(n, 0), tsz(n, 0); std::vector<int> isf(n); long lt = near(P), lfs = near(F);
        for (int q = 0; q < n; q++) { isf[q] = kind == 4 || choose(S_WORK, 2); size_t &left = (size_t &)(isf[q] ? lfs : lt); size_t z = q == n - 1 ? left : choose(S_WORK, left + 1); (isf[q] ? fsz : tsz)[q] = z; left -= z; }
        for (int q = 0; q < n; q++) {
          std::string nm = "m" + std::to_string(q); body += "\r\nContent-Disposition: form-data; name=\"" + nm + "\""; charge += nm.size() + 3;
          std::string v;
          if (isf[q]) { v = rand_content(fsz[q]); for (size_t p; (p = v.find("--" + b)) != std::string::npos;) v[p] = '_'; body += "; filename=\"f\""; charge += 4; files += v.size(); e.files.insert({nm, v}); e.post.insert({nm, "f"}); }
          else { v = txt(tsz[q]); for (size_t p; (p = v.find("--" + b)) != std::string::npos;) v[p] = '_'; charge += v.size() + 1; vals += v.size(); e.post.insert({nm, v}); }
          body += "\r\n\r\n" + v + "\r\n--" + b;
        }
        body += "--\r\n"; ct = "multipart/form-data; boundary=" + b;
        if (vals > P || files > F) r.need = -1; else if (charge <= P && files <= F) r.need = 1;
        r.what = "a multipart form with " + std::to_string(vals) + " bytes of values and " + std::to_string(files) + " bytes of files";
      }
      head = e.method + " /" + id + " HTTP/1.1\r\nX-Id: " + id + "\r\n" + (sc.mode == O_ONE_LOOP ? "Connection: close\r\n" : "") + (ct.empty() ? "" : "Content-Type: " + ct + "\r\n") + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n";
      int seg = choose(S_NET, SEG_NMODES); if (seg == SEG_BYTES && body.size() > 300) seg = SEG_RANDOM;
      // a declared size that is too big must be refused (and not allocated) without waiting for the data
      bool huge = r.need < 0 && kind < 3 && choose(S_WORK, 3) == 2; if (huge) { static const char *hs[] = {"2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "1099511627776", "9223372036854775807", "99999999999999999999", "18446744073709551615"}; const char *v = hs[choose(S_WORK, 9)]; size_t p = head.find("Content-Length: "); head = head.substr(0, p) + "Content-Length: " + v + "\r\n\r\n"; body = body.substr(0, 3); r.what += std::string(" declared as ") + v; }
      c->send(head + body, seg); op_done();
      HResp h; if (!c->c.wait_rx([&] { h = parse_response(c->rx(), c->off, false, c->eof()); return h.bad || h.complete || c->eof(); }, now() + liveness_bound)) violation("no-progress", "%s neither answered nor refused (limits: post %ld, file %ld)", r.what.c_str(), P, F);
      evaluated(); if (h.bad) violation("malformed-response", "%s", h.why.c_str());
      if (r.need > 0 && !(h.complete && h.status == 200 && r.n == 1)) violation("within-limit-refused", "%s was refused although it is within the limits (post %ld, file %ld): request %s, handler ran %d times, received %s%s", r.what.c_str(), P, F, id.c_str(), r.n, esc(c->rx().substr(c->off)).c_str(), c->c.rst ? ", reset" : "");
      if (r.need < 0) { if (h.complete && h.status < 400) violation("limit-exceeded", "%s got status %d", r.what.c_str(), h.status); count("limits.refused"); } else count("limits.accepted");
      if (h.complete) c->off = h.end;
      if (!h.complete || !h.keepalive || h.status != 200 || sc.mode == O_ONE_LOOP) { c->c.close(); open = false; if (conc) sleep_for(choose(S_WORK, 3) * MS); }
    }
    if (c) c->c.close();
  }));
  for (auto f : cl) join(f);
  size_t lim = base + (size_t)live * (3 * P + 40000); if (peak_bytes(false) > lim) violation("memory-limit", "%llu bytes of memory were in use for %d connections, with a limit of %ld bytes of post data each", (unsigned long long)(peak_bytes(false) - base), live, P);
  evaluated(); fs::op_hook = nullptr;
  s.stop(); s.destroy();
  check_clean("after requests around the limits", ms, fds0);
}
