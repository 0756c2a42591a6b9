#include "http.h"
#include <string.h>
#include <strings.h>
#include <algorithm>
extern "C" {
#include <onion/https.h>
}

extern "C" void __wrap_free(void *);
namespace sim {
Time liveness_bound = 120 * SEC;

static void null_log(onion_log_level, const char *, int, const char *, ...) {}
static void text_log(onion_log_level l, const char *f, int line, const char *fmt, ...) { if (!verbose) return; va_list ap; va_start(ap, fmt); char b[512]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); const char *s = strrchr(f, '/'); if ((int)l < (int)O_INFO) return; tracef("log %s:%d %s", s ? s + 1 : f, line, b); }
void quiet_log() { onion_log = verbose ? text_log : null_log; }

std::string esc(const std::string &s, size_t max) { std::string o; for (unsigned char c : s) { if (o.size() > max) { o += "..."; break; } if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return o + "(" + std::to_string(s.size()) + ")"; }

static void collect(void *d, const char *k, const void *v, int flags) { ((PSet *)d)->insert({k ? k : "(null)", v ? (const char *)v : "(null)"}); }
PSet dict_pairs(const onion_dict *d) { PSet s; if (d) onion_dict_preorder(d, (void *)collect, &s); return s; }

Obs observe(onion_request *r) {
  Obs o;
  o.method = onion_request_get_method_name(r);
  const char *fp = onion_request_get_fullpath(r), *p = onion_request_get_path(r);
  o.fullpath = fp ? fp : "(null)"; o.path = p ? p : "(null)";
  o.http11 = onion_request_get_flags(r) & OR_HTTP11;
  o.headers = dict_pairs(onion_request_get_header_dict(r));
  o.query = dict_pairs(onion_request_get_query_dict(r));
  o.cookies = dict_pairs(onion_request_get_cookies_dict(r));
  o.post = dict_pairs(onion_request_get_post_dict(r));
  for (auto &f : dict_pairs(onion_request_get_file_dict(r))) { auto i = fs::lookup(f.second); o.files.insert({f.first, i ? i->data : "(missing file " + f.second + ")"}); }
  const onion_block *b = onion_request_get_data(r);
  if (b) { o.has_data = true; o.data = std::string(onion_block_data(b), onion_block_size(b)); }
  return o;
}
static std::string set_diff(const char *what, const PSet &w, const PSet &g) {
  for (auto &p : w) if (g.count(p) != w.count(p)) { if (g.count(p) > w.count(p)) return std::string(what) + " appears too often: " + esc(p.first, 60) + "=" + esc(p.second); std::string near; for (auto &q : g) if (q.first == p.first) near += " got " + esc(q.second); return std::string(what) + " lost or altered: " + esc(p.first, 60) + "=" + esc(p.second) + near; }
  for (auto &p : g) if (!w.count(p)) return std::string(what) + " invented: " + esc(p.first, 60) + "=" + esc(p.second);
  return "";
}
std::string obs_diff(const Obs &w, const Obs &g, bool hd) {
  if (w.method != g.method) return "method: sent " + esc(w.method) + " seen " + esc(g.method);
  if (w.fullpath != g.fullpath) return "path: sent " + esc(w.fullpath) + " seen " + esc(g.fullpath);
  if (w.path != g.path) return "relative path: expected " + esc(w.path) + " seen " + esc(g.path);
  if (w.http11 != g.http11) return "protocol version differs";
  std::string d;
  if (hd && !(d = set_diff("header", w.headers, g.headers)).empty()) return d;
  if (!(d = set_diff("query", w.query, g.query)).empty()) return d;
  if (!(d = set_diff("cookie", w.cookies, g.cookies)).empty()) return d;
  if (!(d = set_diff("post field", w.post, g.post)).empty()) return d;
  if (!(d = set_diff("uploaded file", w.files, g.files)).empty()) return d;
  if (w.has_data && !g.has_data) return "body not available, sent " + esc(w.data);
  if (w.has_data && w.data != g.data) return "body: sent " + esc(w.data) + " seen " + esc(g.data);
  return "";
}

std::string rand_bytes(Stream s, size_t n, const char *al) { std::string o; size_t l = al ? strlen(al) : 256; uint32_t x = choose(s, 0x10000); // cheap: one draw, then a counter sequence
  for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; unsigned k = (x >> 16) % l; o += al ? al[k] : (char)k; } return o; }
std::string rand_content(size_t n) {
  std::string o; uint32_t x = choose(S_WORK, 0x10000); int style = choose(S_WORK, 4);
  static const char *frag[] = {"\r\n", "\n", "\r", "--", "-", "\r\n--", "\n--", "\r\n-", "a", "boundary", "%41", "+", "&", "=", ";"};
  while (o.size() < n) { x = x * 1664525u + 1013904223u; unsigned k = x >> 16;
    if (style == 0) o += (char)('a' + k % 26);
    else if (style == 1) o += (char)(k >> 3);
    else if (style == 2) o += frag[k % 15];
    else { if (k % 5 == 0) o += frag[(k / 5) % 15]; else o += (char)(32 + (k / 5) % 95); } }
  o.resize(n); return o;
}
size_t rand_size(size_t max) {
  switch (choose(S_WORK, 6)) {
  case 0: return choose(S_WORK, std::min<size_t>(max, 24) + 1);
  case 1: return choose(S_WORK, std::min<size_t>(max, 300) + 1);
  case 2: { static const size_t b[] = {0, 1, 2, 255, 256, 1023, 1024, 1025, 1499, 1500, 1501, 2048, 3000, 4096, 8191, 8192, 16384, 65536}; size_t v = b[choose(S_WORK, 18)]; return std::min(v, max); }
  default: return choose(S_WORK, max + 1);
  }
}

static const char *TOK = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
static std::string pct(const std::string &s, int style, bool form) { // percent-encode
  std::string o; static const char *hx[2] = {"0123456789abcdef", "0123456789ABCDEF"};
  for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; bool safe = isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~';
    if (form && c == ' ' && (style & 1)) { o += '+'; continue; }
    if (safe && !(style == 3 && i % 3 == 0)) o += c; else { o += '%'; o += hx[style & 1][c >> 4]; o += hx[(style >> 1) & 1][c & 15]; } }
  return o;
}
static std::string gen_value(size_t max) { // decoded text, no NUL
  size_t n = rand_size(max); std::string s;
  switch (choose(S_WORK, 3)) { case 0: s = rand_bytes(S_WORK, n, TOK); break; case 1: s = rand_bytes(S_WORK, n, " &=+%?#/\\\"'<>;,:abcXYZ\r\n\t-"); break; default: s = rand_bytes(S_WORK, n); for (auto &c : s) if (!c) c = 'Z'; }
  return s;
}
static const char *METHODS[] = {"GET", "POST", "HEAD", "OPTIONS", "PROPFIND", "PUT", "DELETE", "MOVE", "MKCOL", "PROPPATCH", "PATCH"};

HReq gen_request(const GenCfg &g, const std::string &id, bool keepalive) {
  HReq r; r.id = id; Obs &e = r.exp; r.keepalive = keepalive;
  std::vector<int> kinds = {0};            // 0 simple, 1 urlencoded, 2 multipart, 3 raw post, 4 put, 5 other with body, 6 other without body
  if (g.post_url) kinds.push_back(1); if (g.post_multi) { kinds.push_back(2); kinds.push_back(2); } if (g.post_raw) kinds.push_back(3); if (g.put) kinds.push_back(4); if (g.other) { kinds.push_back(5); kinds.push_back(6); }
  int kind = pick(S_WORK, kinds);
  std::string nl = g.lf_only && choose(S_WORK, 8) == 7 ? "\n" : "\r\n";
  e.method = kind == 0 ? (choose(S_WORK, 4) == 3 ? "HEAD" : "GET") : kind <= 3 ? "POST" : kind == 4 ? "PUT" : METHODS[std::vector<int>{3, 4, 6, 7, 8, 9, 10}[choose(S_WORK, 7)]];
  r.head = e.method == "HEAD";
  // target
  std::string target = "/"; e.fullpath = "/";
  int nseg = choose(S_WORK, 4);
  for (int i = 0; i < nseg; i++) { std::string s = gen_value(g.big ? 600 : 20); for (auto &c : s) if (c == '/') c = 'x'; target += pct(s, choose(S_WORK, 4) & 2, false); e.fullpath += s; if (i + 1 < nseg || choose(S_WORK, 2)) { target += "/"; e.fullpath += "/"; } }
  e.path = e.fullpath.substr(1);
  int nq = choose(S_WORK, 4); if (choose(S_WORK, 2)) nq = 0;
  for (int i = 0; i < nq; i++) {
    target += i ? "&" : "?";
    std::string k = "q" + rand_bytes(S_WORK, 1 + choose(S_WORK, 6), TOK), v; bool eq = true;
    if (choose(S_WORK, 4) == 3) k += gen_value(12);
    if (choose(S_WORK, 5) == 4) { eq = false; } else v = gen_value(g.big ? 700 : 40);
    int st = choose(S_WORK, 4);
    target += pct(k, st, true); if (eq) target += "=" + pct(v, st, true);
    e.query.insert({k, v});
  }
  if (target.size() > 7000) { target = "/"; e.fullpath = "/"; e.path = ""; e.query.clear(); }
  e.http11 = !keepalive || choose(S_WORK, 6) != 5;
  std::vector<std::pair<std::string, std::string>> hd; // (raw text after name, value) handled below
  std::string head = e.method + " " + target + " HTTP/1." + (e.http11 ? "1" : "0") + nl;
  auto anycase = [&](std::string k) { int c = choose(S_WORK, 8); if (c == 6) for (auto &x : k) x = tolower(x); if (c == 7) for (auto &x : k) x = toupper(x); return k; }; // names of headers are case insensitive
  auto add = [&](const std::string &k0, const std::string &v, const std::string &rawv) { std::string k = k0 == "X-Id" ? k0 : anycase(k0); head += k + rawv + nl; e.headers.insert({k, v}); };
  add("X-Id", id, ": " + id);
  auto conn = [&](const char *v0) { std::string v = anycase(v0); add("Connection", v, ": " + v); };
  if (keepalive && (!e.http11 || choose(S_WORK, 8) == 7)) conn("Keep-Alive");
  if (!keepalive) { if (e.http11) conn("close"); }
  int nh = choose(S_WORK, g.max_headers + 1);
  for (int i = 0; i < nh; i++) {
    std::string k = "Xh" + rand_bytes(S_WORK, choose(S_WORK, 12), TOK), v;
    size_t n = rand_size(g.big ? 4000 : 120);
    static const char VIS[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!\"#$%&'()*+,-./:;<=>?@[]^_`{|}~\\  \t";
    v = n ? rand_bytes(S_WORK, n, VIS) : "";
    while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1);
    while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
    std::string sep = ": ";
    if (g.odd_headers) { static const char *seps[] = {": ", ":", ":  ", ":\t"}; sep = seps[choose(S_WORK, 4)]; }
    if (g.folded && choose(S_WORK, 6) == 5 && !v.empty()) {
      static const char *fold[] = {" ", "\t", "   ", " \t"};
      std::string v2 = rand_bytes(S_WORK, 1 + choose(S_WORK, 20), TOK);
      add(k, v + " " + v2, sep + v + nl + fold[choose(S_WORK, 4)] + v2);
      count("gen.folded_header");
    } else add(k, v, sep + v);
  }
  if (choose(S_WORK, 3) == 2) {
    std::string cv; int nc = 1 + choose(S_WORK, 4);
    for (int i = 0; i < nc; i++) { std::string k = "c" + rand_bytes(S_WORK, choose(S_WORK, 8), TOK), v = rand_bytes(S_WORK, 1 + choose(S_WORK, 30), "abcdefXYZ0189-_.=/+:~"); if (i) cv += "; "; cv += k + "=" + v; e.cookies.insert({k, v}); }
    add("Cookie", cv, ": " + cv);
  }
  std::string body;
  if (kind == 1) {
    int n = choose(S_WORK, 5);
    for (int i = 0; i < n; i++) { if (i) body += "&"; std::string k = "p" + rand_bytes(S_WORK, choose(S_WORK, 8), TOK), v = gen_value(g.max_body / 4 / (i + 1)); int st = choose(S_WORK, 4); body += pct(k, st, true) + "=" + pct(v, st, true); e.post.insert({k, v}); }
    std::string ct = choose(S_WORK, 2) ? "application/x-www-form-urlencoded; charset=UTF-8" : "application/x-www-form-urlencoded";
    add("Content-Type", ct, ": " + ct);
  } else if (kind == 2) {
    std::string b = choose(S_WORK, 2) ? "----WebKitFormBoundary" + rand_bytes(S_WORK, 16, TOK) : rand_bytes(S_WORK, 1 + choose(S_WORK, 30), TOK);
    int n = choose(S_WORK, 4) + (choose(S_WORK, 8) ? 1 : 0);
    std::string mnl = "\r\n";
    body = "--" + b;
    for (int i = 0; i < n; i++) {
      body += mnl;
      std::string k = "m" + std::to_string(i) + rand_bytes(S_WORK, choose(S_WORK, 10), TOK);
      std::string content = rand_content(rand_size(g.max_body / 2));
      bool file = g.files && choose(S_WORK, 2);
      if (!file) for (auto &c : content) if (!c) c = 'N';
      // the delimiter must not occur in the content
      for (size_t p; (p = content.find("--" + b)) != std::string::npos;) content[p] = '_';
      if (!content.empty() && content.back() == '\r' && 0) content.pop_back();
      static const char QUOTED[] = "abcXYZ 019._-;;==,:'()%&*nameflf\xc3\xa9"; // what may be inside quotes
      int style = choose(S_WORK, 6); if (style == 4) k += rand_bytes(S_WORK, choose(S_WORK, 16), QUOTED) + (choose(S_WORK, 3) == 2 ? "; filename=x" : ""); if (style == 5 && i == 0) k = "";
      std::string par = "name=" + (style == 3 ? k : "\"" + k + "\""), sep = choose(S_WORK, 6) == 5 ? ";" : "; ";
      if (file) {
        std::string fn = "f" + rand_bytes(S_WORK, choose(S_WORK, 12), "abcXYZ 019._-") + "x"; int fs = choose(S_WORK, 6); if (fs == 4) fn += rand_bytes(S_WORK, choose(S_WORK, 16), QUOTED) + "z"; if (fs == 5) fn += "; name=evil"; if (fs == 3) for (auto &c : fn) if (c == ' ') c = '_';
        std::string fp = "filename=" + (fs == 3 ? fn : "\"" + fn + "\""); par = choose(S_WORK, 5) == 4 ? fp + sep + par : par + sep + fp;
        e.post.insert({k, fn}); e.files.insert({k, content}); r.has_files = true; }
      else e.post.insert({k, content});
      std::string cd = anycase("Content-Disposition") + ": form-data" + sep + par;
      if (choose(S_WORK, 3) == 2) body += "X-Part-Note: " + (choose(S_WORK, 3) == 2 ? std::string("form-data; name=\"other\"; filename=\"other\"") : rand_bytes(S_WORK, choose(S_WORK, 20), TOK)) + mnl;
      body += cd + mnl;
      if (file || choose(S_WORK, 3) == 2) body += std::string("Content-Type: ") + (file ? "application/octet-stream" : "text/plain") + mnl;
      body += mnl + content + mnl + "--" + b;
    }
    body += "--"; if (choose(S_WORK, 4)) body += mnl;
    if (n == 0) body = "--" + b + "--" + mnl;
    std::string ct = "multipart/form-data; boundary=" + b;
    add("Content-Type", ct, ": " + ct);
  } else if (kind == 3 || kind == 5) {
    size_t n = 1 + rand_size(g.max_body); body = rand_content(n); e.has_data = true; e.data = body;
    static const char *cts[] = {"", "application/json", "text/plain", "application/octet-stream"};
    std::string ct = cts[choose(S_WORK, 4)];
    if (!ct.empty()) add("Content-Type", ct, ": " + ct);
  } else if (kind == 4) {
    body = rand_content(rand_size(g.max_body)); r.is_put = true; e.files.insert({"filename", body});
  }
  if (kind >= 1 && kind <= 5) { std::string l = std::to_string(body.size()); add("Content-Length", l, ": " + l); r.has_body = true; }
  head += nl;
  r.header_end = head.size();
  r.raw = head + body;
  if (kind == 4) e.has_data = false;
  static const char *kn[] = {"simple", "urlencoded", "multipart", "raw", "put", "other-body", "other"};
  char cn[32]; snprintf(cn, sizeof cn, "gen.%s", kn[kind]); count(cn);
  return r;
}

// ------------------------------------------------------------------ responses
std::string HResp::get(const std::string &k) const { for (auto &h : headers) if (!strcasecmp(h.first.c_str(), k.c_str())) return h.second; return ""; }
int HResp::countk(const std::string &k) const { int n = 0; for (auto &h : headers) if (!strcasecmp(h.first.c_str(), k.c_str())) n++; return n; }
static bool number(const std::string &s, size_t *v, int base) { if (s.empty() || s.size() > 12) return false; char *e; for (unsigned char c : s) if (!(base == 16 ? isxdigit(c) : isdigit(c))) return false; *v = strtoull(s.c_str(), &e, base); return true; }
HResp parse_response(const std::string &rx, size_t off, bool head, bool eof) {
  HResp r; r.end = off;
  auto bad = [&](const std::string &w) { r.bad = true; r.why = w; return r; };
  if (rx.size() == off) return r;
  { std::string st = "HTTP/1."; size_t n = std::min(st.size(), rx.size() - off); if (rx.compare(off, n, st, 0, n)) return bad("response does not start with a status line: " + esc(rx.substr(off, 60))); }
  size_t he = std::string::npos, p = off;
  // header lines end with \n, optionally \r\n; the block ends with an empty line
  std::vector<std::string> lines;
  for (;;) { size_t k = rx.find('\n', p); if (k == std::string::npos) break; std::string l = rx.substr(p, k - p); p = k + 1; if (!l.empty() && l.back() == '\r') l.pop_back(); else if (!lines.empty() || true) { r.why = "bare LF"; } if (l.empty()) { he = p; break; } lines.push_back(l); }
  if (he == std::string::npos) { r.why = ""; return r; }
  if (r.why == "bare LF") { return bad("a header line is not terminated by CRLF: " + esc(rx.substr(off, he - off), 300)); }
  r.head_done = true;
  if (lines[0].size() < 12 || !isdigit(lines[0][9]) || !isdigit(lines[0][10]) || !isdigit(lines[0][11])) return bad("malformed status line " + esc(lines[0]));
  r.version = lines[0].substr(0, 8); r.status = atoi(lines[0].c_str() + 9); r.reason = lines[0].size() > 13 ? lines[0].substr(13) : "";
  for (size_t i = 1; i < lines.size(); i++) { size_t c = lines[i].find(':'); if (c == std::string::npos || c == 0) return bad("malformed header line " + esc(lines[i])); std::string v = lines[i].substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); r.headers.push_back({lines[i].substr(0, c), v}); }
  bool te = !strcasecmp(r.get("Transfer-Encoding").c_str(), "chunked"); bool cl = r.countk("Content-Length") > 0;
  if (r.countk("Content-Length") > 1) return bad("more than one Content-Length");
  if (r.countk("Transfer-Encoding") > 1) return bad("more than one Transfer-Encoding");
  std::string con = r.get("Connection");
  r.keepalive = r.version == "HTTP/1.1" ? strcasecmp(con.c_str(), "close") != 0 : !strcasecmp(con.c_str(), "keep-alive");
  if (te && cl) return bad("both Content-Length and chunked encoding");
  if (cl && !number(r.get("Content-Length"), &r.length, 10)) return bad("bad Content-Length " + esc(r.get("Content-Length")));
  if (head || r.status == 304 || r.status == 204 || r.status / 100 == 1) { r.framing = cl ? HResp::LENGTH : te ? HResp::CHUNKED : HResp::NONE; r.end = he; r.complete = true; return r; }
  if (te) {
    r.framing = HResp::CHUNKED; size_t q = he;
    for (;;) {
      size_t k = rx.find("\r\n", q);
      if (k == std::string::npos) { for (size_t i = q; i < rx.size(); i++) if (!isxdigit((unsigned char)rx[i]) && !(rx[i] == '\r' && i + 1 == rx.size())) return bad("malformed chunk size " + esc(rx.substr(q, 20))); if (rx.size() - q > 10) return bad("malformed chunk size " + esc(rx.substr(q, 20))); return r; }
      size_t n; if (!number(rx.substr(q, k - q), &n, 16)) return bad("malformed chunk size " + esc(rx.substr(q, k - q)));
      q = k + 2;
      if (n == 0) { if (rx.size() < q + 2) { if (rx.size() > q && rx[q] != '\r') return bad("malformed end of chunked body"); return r; } if (rx.compare(q, 2, "\r\n")) return bad("malformed end of chunked body"); r.end = q + 2; r.complete = true; return r; }
      if (rx.size() < q + n) { r.body += rx.substr(q); return r; }
      r.body += rx.substr(q, n); q += n;
      if (rx.size() < q + 2) { if (rx.size() > q && rx[q] != '\r') return bad("chunk not followed by CRLF"); return r; }
      if (rx.compare(q, 2, "\r\n")) return bad("chunk not followed by CRLF");
      q += 2;
    }
  }
  if (cl) { r.framing = HResp::LENGTH; r.body = rx.substr(he, r.length); if (rx.size() - he >= r.length) { r.end = he + r.length; r.complete = true; } return r; }
  r.framing = HResp::CLOSE; r.body = rx.substr(he); if (eof) { r.complete = true; r.end = rx.size(); } return r;
}

// ------------------------------------------------------------------ server
const char *mode_name(int m) { switch (m & 0x27) { case O_ONE: return "ONE"; case O_ONE_LOOP: return "ONE_LOOP"; case O_THREADED: return "THREADED"; case O_POLL: return "POLL"; case O_POOL: return "POOL"; } return "?"; }
int Srv::tramp(void *p, onion_request *req, onion_response *res) { return ((Srv *)p)->handler(req, res); }
static int inner(void *h, onion_request *req, onion_response *res) { return onion_handler_handle((onion_handler *)h, req, res); }
void tls_files(const std::string &n) { std::string d = "/etc/onion/" + n; fs::put_file(d + ".pem", "CERT PEM " + n); fs::put_file(d + ".der", "CERT DER " + n); fs::put_file(d + ".key", "KEY " + n); fs::put_file(d + ".p12", "P12 PEM " + n + " pass" + n); fs::put_file(d + ".crl", "CRL"); }
int tls_set(const std::string &n, onion_listen_point *lp, onion *o, int way) {
  std::string d = "/etc/onion/" + n; int type = way == 0 ? O_SSL_CERTIFICATE_KEY : way == 1 ? O_SSL_CERTIFICATE_KEY | O_SSL_DER : O_SSL_CERTIFICATE_PKCS12; std::string f = d + (way == 0 ? ".pem" : way == 1 ? ".der" : ".p12"), k = way == 2 ? "pass" + n : d + ".key";
  return lp ? onion_https_set_certificate(lp, (onion_ssl_certificate_type)type, f.c_str(), k.c_str()) : onion_set_certificate(o, (onion_ssl_certificate_type)type, f.c_str(), k.c_str());
}
void Srv::create(const SrvCfg &cfg) {
  c = cfg; quiet_log();
  o = onion_new(c.mode | (c.detach ? O_DETACH_LISTEN : 0) | c.extra_flags);
  if (!o) return;
  onion_set_max_threads(o, c.threads); onion_set_timeout(o, c.timeout);
  if (c.max_post >= 0) onion_set_max_post_size(o, c.max_post); if (c.max_file >= 0) onion_set_max_file_size(o, c.max_file);
  char port[16]; snprintf(port, sizeof port, "%d", c.port);
  if (c.https) { // all the ways to have it
    tls_files("c0"); int way = choose(S_WORK, 4); if (way == 0 || way == 3) { onion_listen_point *lp = onion_https_new(); onion_add_listen_point(o, NULL, port, lp); if (tls_set("c0", lp, nullptr, way == 0 ? 0 : choose(S_WORK, 3)) < 0) violation("certificate", "a good certificate is refused"); }
    else { if (way == 1) onion_set_port(o, port); if (tls_set("c0", nullptr, o, choose(S_WORK, 3)) < 0) violation("certificate", "a good certificate is refused"); if (way == 2) onion_set_port(o, port); }
  }
  else onion_set_port(o, port);
  onion_handler *h = onion_handler_new((onion_handler_handler)tramp, this, nullptr); int nest = choose(S_WORK, 4) == 3 ? 1 + choose(S_WORK, 2) : 0;
  for (int i = 0; i < nest; i++) h = onion_handler_new((onion_handler_handler)inner, h, (onion_handler_private_data_free)onion_handler_free); // as urls, paths and authentication do
  onion_set_root_handler(o, h);
}
void Srv::start() {
  listening_done = false;
  f = spawn("listen", [this] { listen_ret = onion_listen(o); listening_done = true; }, true);
  int port = c.port;
  if (!wait_pred([&] { return port_listening(port) || (listening_done && !(c.detach && listen_ret == 0)); }, now() + 60 * SEC, "listen")) violation("listen-stuck", "the server did not start listening");
}
bool Srv::stop(Time bound) {
  // onion_listen_stop may legitimately be called too early to have an effect: callers wait for traffic or retry
  Fiber *s = spawn("stopper", [this] { onion_listen_stop(o); }, true);
  if (!join_until(s, now() + bound)) violation("stop-stuck", "stopping the server did not return within %.0f s; threads: %s", bound / 1e9, blocked_report().c_str());
  if (!join_until(f, now() + bound)) violation("stop-stuck", "onion_listen did not return within %.0f s of a stop; threads: %s", bound / 1e9, blocked_report().c_str());
  return true;
}
void Srv::destroy() { if (!o) return; bool sv = true; (void)sv; set_server(true); onion_free(o); set_server(false); o = nullptr; }

SrvCfg rand_srv(bool concurrent_only) {
  SrvCfg c; static const int modes[] = {O_POOL, O_POLL, O_THREADED, O_ONE_LOOP};
  c.mode = modes[choose(S_WORK, concurrent_only ? 3 : 4)];
  c.threads = 1 + choose(S_WORK, 4) + (choose(S_WORK, 4) ? 1 : 0);
  c.detach = choose(S_WORK, 5) == 4;
  return c;
}

bool Conn::open(int port, bool t, Time dl) {
  tls = t;
  if (!c.connect(port, dl)) return false;
  if (tls) { static const size_t mr[] = {16384, 100, 1400, 1500, 4000, 1}; maxrec = mr[choose(S_NET, 6)]; c.send(tls_client_hello(), choose(S_NET, 4) ? SEG_WHOLE : SEG_FEW); }
  return true;
}
std::string Conn::encode(const std::string &p) { if (key) { std::string x = p; for (char &c : x) c ^= key; return x; } return tls ? tls_wrap(p, maxrec == 1 && p.size() > 600 ? 700 : maxrec) : p; }
void Conn::send(const std::string &p, int seg) { c.send(encode(p), seg); }
const std::string &Conn::rx() { if (key) { while (clear.size() < c.rx.size()) clear += c.rx[clear.size()] ^ key; return clear; } if (!tls) return c.rx; dec.feed(c.rx); if (dec.bad) violation("tls-plaintext", "bytes that are not TLS records were sent on a TLS connection"); return dec.plain; }
HResp Conn::response(bool head, Time bound, bool must, const char *ctx) {
  HResp r;
  c.wait_rx([&] { r = parse_response(rx(), off, head, eof()); return r.bad || r.complete || eof(); }, now() + bound);
  r = parse_response(rx(), off, head, eof());
  if (r.bad) violation("malformed-response", "%s: %s", ctx, r.why.c_str());
  if (!r.complete && must) {
    if (eof()) violation("no-response", "%s: connection closed without a complete response (got %s)", ctx, esc(rx().substr(off)).c_str());
    violation("no-progress", "%s: no complete response %.0f s after the request (got %s); threads: %s", ctx, bound / 1e9, esc(rx().substr(off)).c_str(), blocked_report().c_str());
  }
  if (r.complete) off = r.end;
  return r;
}

void base_setup(bool conc) {
  random_sched(conc);
  max_stall_total = 20 * SEC;
  static const Time lm[] = {200 * US, 2 * MS, 20 * MS};
  net.lat_max = lm[choose(S_NET, 3)];
  time_limit = now() + 6 * 3600 * SEC;
}
void net_faults() {
  static const unsigned r[] = {0, 60, 300, 700};
  fault_enable("short_write", r[choose(S_FAULT, 4)]);
  fault_enable("short_read", r[choose(S_FAULT, 4)]);
  if (choose(S_FAULT, 3) == 2) fault_enable("epoll_eintr", 40);
  if (choose(S_FAULT, 4) == 3) { fault_enable("read_eintr", 40); fault_enable("write_transient", 40); }
}
void warm_up() {
  Srv *s = new Srv; SrvCfg c; c.mode = O_POLL; c.threads = 1; c.port = 7999; s->create(c);
  s->handler = [](onion_request *, onion_response *res) { onion_response_printf(res, "x"); return OCS_PROCESSED; };
  s->start(); Conn *k = new Conn;
  if (k->open(7999, false)) { k->send("GET / HTTP/1.1\r\nConnection: close\r\n\r\n", SEG_WHOLE); k->c.wait_rx([&] { return k->eof(); }, now() + 10 * SEC); k->c.close(); }
  s->stop(); s->destroy();
}
void check_clean(const char *when, MemSnapshot ms, int fds) {
  evaluated();
  if (fd_open_count() != fds) violation("fd-leak", "%s: %d descriptors open, expected %d: %s", when, fd_open_count(), fds, fd_list().c_str());
  if (gai_outstanding()) violation("memory-leak", "%s: %d lists of addresses never freed", when, gai_outstanding());
  auto tmp = fs::list("/tmp"); if (!tmp.empty()) violation("tempfile-leak", "%s: temporary file left behind: %s (%zu)", when, tmp[0].c_str(), tmp.size());
  uint64_t n = live_blocks() > ms.live ? live_blocks() - ms.live : 0; // process-wide caches may be replaced, not multiplied
  std::string d; if (n) live_since(ms, &d); if (n) violation("memory-leak", "%s: %llu heap blocks still allocated: %s", when, (unsigned long long)n, d.c_str());
}
}
