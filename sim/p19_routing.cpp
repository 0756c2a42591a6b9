// P19: a request is routed to the handler the configuration says, and the handler's outcome becomes the documented response.
#include "http.h"
#include <onion/url.h>
#include <onion/shortcuts.h>
#include <onion/handlers/path.h>
#include <onion/handlers/static.h>
#include <onion/handlers/opack.h>
#include <string.h>
using namespace sim;

namespace {
// ways to match a path, with their own matchers (not the regular expression library)
struct Pat { std::string re; std::function<bool(const std::string &, size_t &, std::map<int, std::string> &)> m; };
bool alpha(char c) { return c >= 'a' && c <= 'z'; }
Pat exact(const std::string &s) { return {s, [s](const std::string &p, size_t &n, std::map<int, std::string> &) { n = p.size(); return p == s; }}; }
Pat prefix(const std::string &s) { return {"^" + s + "/", [s](const std::string &p, size_t &n, std::map<int, std::string> &) { n = s.size() + 1; return p.compare(0, n, s + "/") == 0; }}; }
Pat word(const std::string &s) { return {"^" + s + "/([a-z]+)$", [s](const std::string &p, size_t &n, std::map<int, std::string> &g) { if (p.compare(0, s.size() + 1, s + "/")) return false; std::string r = p.substr(s.size() + 1); if (r.empty()) return false; for (char c : r) if (!alpha(c)) return false; n = p.size(); g[1] = r; return true; }}; }
Pat two(const std::string &s) { return {"^" + s + "-([0-9]*)/(x)?(y)?/", [s](const std::string &p, size_t &n, std::map<int, std::string> &g) { if (p.compare(0, s.size() + 1, s + "-")) return false; size_t i = s.size() + 1, a = i; while (i < p.size() && isdigit(p[i])) i++; g[1] = p.substr(a, i - a); if (i >= p.size() || p[i] != '/') return false; i++; if (p[i] == 'x') { g[2] = "x"; i++; } if (p[i] == 'y') { g[3] = "y"; i++; } if (p[i] != '/') return false; n = i + 1; return true; }}; }
Pat many(const std::string &s, int k) { std::string re = "^" + s + "_"; for (int i = 0; i < k; i++) re += "([a-z0-9])"; return {re + "/", [s, k](const std::string &p, size_t &n, std::map<int, std::string> &g) { size_t a = s.size() + 1; if (p.compare(0, a, s + "_") || p.size() < a + k + 1) return false; for (int i = 0; i < k; i++) { char c = p[a + i]; if (!alpha(c) && !isdigit(c)) return false; g[i + 1] = std::string(1, c); } if (p[a + k] != '/') return false; n = a + k + 1; return true; }}; }
Pat all() { return {"^", [](const std::string &, size_t &n, std::map<int, std::string> &) { n = 0; return true; }}; }
enum Beh { OK, CODE, NOTP, ERR500, ERR501, ERR403, CLOSE, NOTP_DATA, ERR_DATA, ERR_DATA2, ERR_DATA3, ERR_BIG, ERR_BIG2, NOTP_BIG, REDIR, IREDIR, SHORT, JSON, STATIC, OPACK, NBEH };
struct Node { enum K { LEAF, URL, PATH } k; int id = 0; Beh b = OK; std::string arg; bool len = false; std::vector<std::pair<Pat, std::vector<Node *>>> e; }; // URL: entries with a chain inside; PATH: one entry
typedef std::vector<Node *> Chain;
struct Call { int id; std::string path; std::map<int, std::string> g; };
int nid; std::map<int, Node *> leaves; std::map<std::string, std::vector<Call>> calls; std::map<std::string, std::vector<int>> errs; bool custom_err; std::string big(20000, 'b'); Chain root;

int leaf(void *pp, onion_request *req, onion_response *res) {
  Node *n = (Node *)pp; const char *rid = onion_request_get_header(req, "X-Id"); Call c; c.id = n->id; c.path = onion_request_get_path(req); for (int i = 1; i < 16; i++) { char k[4]; snprintf(k, sizeof k, "%d", i); const char *v = onion_request_get_query(req, k); if (v) c.g[i] = v; }
  std::string id = rid ? rid : "?"; calls[id].push_back(c);
  switch (n->b) {
  case OK: onion_response_printf(res, "leaf %d <%s>", n->id, c.path.c_str()); return OCS_PROCESSED;
  case CODE: onion_response_set_code(res, 201); onion_response_write0(res, "made"); return OCS_PROCESSED;
  case NOTP: return OCS_NOT_PROCESSED;
  case ERR500: return OCS_INTERNAL_ERROR;
  case ERR501: return OCS_NOT_IMPLEMENTED;
  case ERR403: return OCS_FORBIDDEN;
  case CLOSE: onion_response_write0(res, "bye"); return OCS_CLOSE_CONNECTION;
  case NOTP_DATA: onion_response_write0(res, "some data"); return OCS_NOT_PROCESSED;
  case ERR_DATA: onion_response_write0(res, "some data"); return OCS_INTERNAL_ERROR;
  case ERR_BIG: onion_response_write(res, big.data(), big.size()); return OCS_INTERNAL_ERROR;
  case ERR_DATA2: onion_response_set_code(res, 201); onion_response_write0(res, "some data"); return OCS_FORBIDDEN;
  case ERR_DATA3: onion_response_write0(res, big.c_str() + big.size() - 1400); return OCS_NOT_IMPLEMENTED;
  case ERR_BIG2: onion_response_write(res, big.data(), big.size()); return OCS_FORBIDDEN;
  case NOTP_BIG: onion_response_write(res, big.data(), big.size()); return OCS_NOT_PROCESSED;
  case REDIR: return onion_shortcut_redirect("/elsewhere", req, res);
  case IREDIR: return onion_shortcut_internal_redirect(onion_request_get_path(req), req, res);
  case SHORT: return onion_shortcut_response_extra_headers("short", 418, req, res, "X-Extra", "yes", NULL);
  case JSON: { onion_dict *d = onion_dict_new(); onion_dict_add(d, "a", "1\"2", 0); return onion_shortcut_response_json(d, req, res); }
  default: return OCS_NOT_PROCESSED;
  }
}
void packed(onion_response *res) { onion_response_write(res, "packed", 6); yield_sync("handler"); onion_response_write0(res, " text"); }
int error(void *, onion_request *req, onion_response *res) { const char *rid = onion_request_get_header(req, "X-Id"); int f = onion_request_get_flags(req) & 0x0F000; errs[rid ? rid : "?"].push_back(f); onion_response_set_code(res, 480 + (f >> 12)); onion_response_write0(res, "custom error"); return OCS_PROCESSED; }

Node *mk_leaf(int b) { Node *n = new Node; n->k = Node::LEAF; n->id = ++nid; n->b = (Beh)b; if (b == OPACK) { static const char *t[] = {"", "rest", "a/b", "index.html", "a"}; n->arg = t[choose(S_WORK, 5)]; n->len = choose(S_WORK, 2); } leaves[n->id] = n; return n; }
std::string nm() { static const char *t[] = {"a", "b", "ab", "user", "x", "static", "index.html", "redir"}; return t[choose(S_WORK, 7)]; }
Chain mk_chain(int depth);
Node *mk_node(int depth) {
  int k = depth <= 0 ? 0 : choose(S_WORK, 4);
  if (k <= 1) return mk_leaf(choose(S_WORK, NBEH));
  Node *n = new Node; n->id = ++nid;
  if (k == 2) { n->k = Node::URL; int c = 1 + choose(S_WORK, 5); for (int i = 0; i < c; i++) { int w = choose(S_WORK, 7); std::string s = nm(); Pat p = w == 6 ? many(s, 1 + choose(S_WORK, 14)) : w == 0 ? exact(s) : w == 1 ? prefix(s) : w == 2 ? word(s) : w == 3 ? two(s) : w == 4 ? exact("") : prefix(s); Chain in = mk_chain(depth - 1); if (w == 0 || w == 4 || w == 2) in = {mk_leaf(choose(S_WORK, NBEH))}; n->e.push_back({p, in}); } }
  else { n->k = Node::PATH; n->e.push_back({choose(S_WORK, 6) ? prefix(nm()) : all(), mk_chain(depth - 1)}); }
  return n;
}
Chain mk_chain(int depth) { Chain c; int n = 1 + (choose(S_WORK, 3) == 2) + (choose(S_WORK, 6) == 5); for (int i = 0; i < n; i++) c.push_back(mk_node(depth)); return c; }
onion_handler *build(const Chain &c);
onion_handler *build1(Node *n) {
  if (n->k == Node::LEAF) return n->b == STATIC ? onion_handler_static("static text", 203) : n->b == OPACK ? onion_handler_opack(n->arg.c_str(), packed, n->len ? 11 : 0) : onion_handler_new((onion_handler_handler)leaf, n, nullptr);
  if (n->k == Node::PATH) return onion_handler_path(n->e[0].first.re.c_str(), build(n->e[0].second));
  onion_url *u = onion_url_new(); for (auto &e : n->e) { Node *l = e.second[0]; int r; if (e.second.size() == 1 && l->k == Node::LEAF && l->b == STATIC) r = onion_url_add_static(u, e.first.re.c_str(), "static text", 203); else if (e.second.size() == 1 && l->k == Node::LEAF && l->b != OPACK) r = onion_url_add_with_data(u, e.first.re.c_str(), (void *)leaf, l, nullptr); else r = onion_url_add_handler(u, e.first.re.c_str(), build(e.second)); if (r) violation("bad-url", "pattern %s refused", e.first.re.c_str()); }
  return onion_url_to_handler(u);
}
onion_handler *build(const Chain &c) { onion_handler *h = build1(c[0]); for (size_t i = 1; i < c.size(); i++) onion_handler_add(h, build1(c[i])); return h; }

// reference model
struct Exp { std::vector<Call> calls; int st = 0; int status = 200; std::string body; bool cut = false, close = false; std::string pending; int redirs = 0; std::string hdr; bool loop = false; std::string path; int stamp = 0; };
int ev(const Chain &c, Exp &x, const std::map<int, std::string> &g);
int ev1(Node *n, Exp &x, const std::map<int, std::string> &g) {
  std::string path = x.path;
  if (n->k == Node::LEAF) {
    if (n->b == STATIC) { x.status = 203; x.body = "static text"; return OCS_PROCESSED; }
    if (n->b == OPACK) { if (path != n->arg) return OCS_NOT_PROCESSED; count("route.packed"); x.body = x.pending + "packed text"; return OCS_PROCESSED; }
    { auto gg = g; bool stale = gg.count(0) && gg[0] != std::to_string(x.stamp); gg.erase(0); if (stale) gg.clear(); x.calls.push_back({n->id, path, gg}); } // another url matched, and nobody answered there: its groups remain
    switch (n->b) {
    case OK: x.body = x.pending + "leaf " + std::to_string(n->id) + " <" + path + ">"; return OCS_PROCESSED;
    case CODE: x.status = 201; x.body = x.pending + "made"; return OCS_PROCESSED;
    case ERR500: return OCS_INTERNAL_ERROR; case ERR501: return OCS_NOT_IMPLEMENTED; case ERR403: return OCS_FORBIDDEN;
    case CLOSE: x.body = x.pending + "bye"; x.close = true; return OCS_PROCESSED;
    case NOTP_DATA: x.pending += "some data"; return OCS_NOT_PROCESSED;
    case ERR_DATA: return OCS_INTERNAL_ERROR; case ERR_DATA2: return OCS_FORBIDDEN; case ERR_DATA3: return OCS_NOT_IMPLEMENTED;
    case ERR_BIG2: x.cut = true; return OCS_FORBIDDEN;
    case ERR_BIG: x.cut = true; return OCS_INTERNAL_ERROR;
    case NOTP_BIG: x.cut = true; return OCS_NOT_PROCESSED;
    case REDIR: x.status = 302; x.body = "<h1>302 - Moved</h1>"; x.hdr = "Location:/elsewhere"; return OCS_PROCESSED;
    case IREDIR: if (++x.redirs > 3) { x.loop = true; return OCS_PROCESSED; } return ev(root, x, {});
    case SHORT: x.status = 418; x.body = "short"; x.hdr = "X-Extra:yes"; return OCS_PROCESSED;
    case JSON: x.body = "{\"a\":\"1\\\"2\"}"; return OCS_PROCESSED;
    default: return OCS_NOT_PROCESSED;
    }
  }
  for (auto &e : n->e) {
    size_t k = 0; std::map<int, std::string> gr; if (!e.first.m(path, k, gr)) continue;
    if (n->k == Node::URL && gr.size()) gr[0] = std::to_string(++x.stamp);
    int rd = x.redirs; x.path = path.substr(k); int r = ev(e.second, x, n->k == Node::URL ? gr : g); if (r || x.loop) return r; if (rd == x.redirs) x.path = path; return 0;
  }
  return 0;
}
int ev(const Chain &c, Exp &x, const std::map<int, std::string> &g) { for (Node *n : c) { int r = ev1(n, x, g); if (r || x.loop) return r; } return 0; }
// a mix of output before a shortcut response, or data after a cut one, has no documented meaning
bool ambiguous(const Exp &x) { if (x.loop) return true; bool data = false, redir = false; for (auto &c : x.calls) { if (data || redir) return true; Beh b = leaves[c.id]->b; if (b == NOTP_DATA || b == NOTP_BIG) data = true; (void)redir; } if (data && x.st) return true; return false; }
}

SCENARIO(P19, routes, 1) {
  bool conc = choose(S_WORK, 3) != 0; base_setup(conc); warm_up(); net_faults(); nid = 0; leaves.clear(); calls.clear(); errs.clear(); root.clear();
  SrvCfg sc = rand_srv(); sc.https = choose(S_WORK, 6) == 5; MemSnapshot ms = mem_snapshot(); int fds = fd_open_count();
  Srv s; s.create(sc); onion_handler_free(onion_get_root_handler(s.o)); onion_set_root_handler(s.o, nullptr);
  root = mk_chain(3); if (root.size() == 1 && root[0]->k == Node::LEAF) { Node *u = new Node; u->k = Node::URL; u->id = ++nid; u->e.push_back({prefix("a"), mk_chain(2)}); u->e.push_back({exact("b"), {mk_leaf(OK)}}); u->e.push_back({word("user"), {mk_leaf(OK)}}); u->e.push_back({prefix("x"), {mk_leaf(IREDIR)}}); root.insert(root.begin(), u); }
  custom_err = choose(S_WORK, 3) == 2; if (custom_err) onion_set_internal_error_handler(s.o, onion_handler_new((onion_handler_handler)error, nullptr, nullptr));
  onion_set_root_handler(s.o, build(root)); s.start();
  int nc = conc ? 1 + choose(S_WORK, 4) : 1;
  describe("%s/%d threads%s, %d routing nodes (%zu leaves), %d clients%s", mode_name(sc.mode), sc.threads, sc.https ? " https" : "", nid, leaves.size(), nc, custom_err ? ", own error page" : "");
  // paths that follow the tree
  std::function<std::string(const Chain &, int)> walk = [&](const Chain &c, int d) -> std::string { Node *n = c[choose(S_WORK, c.size())]; if (n->k == Node::LEAF || d > 5) { if (n->k == Node::LEAF && n->b == IREDIR && d < 4) return walk(root, d + 2); static const char *t[] = {"", "rest", "a/b", "index.html", "z"}; return choose(S_WORK, 2) ? "" : t[choose(S_WORK, 5)]; }
    auto &e = n->e[choose(S_WORK, n->e.size())]; std::string re = e.first.re; if (re.empty() || re[0] != '^') return re; if (re == "^") return walk(e.second, d + 1); std::string b = re.substr(1); size_t k;
    if ((k = b.find("/([a-z]+)$")) != std::string::npos) { static const char *t[] = {"joe", "z", "a1", "", "ab/c"}; return b.substr(0, k) + "/" + t[choose(S_WORK, 5)]; }
    if ((k = b.find("-([0-9]*)")) != std::string::npos) { static const char *t[] = {"-12/xy/", "-/x/", "-3/y/", "-7//", "-a/"}; return b.substr(0, k) + t[choose(S_WORK, 5)] + walk(e.second, d + 1); }
    if ((k = b.find("_(")) != std::string::npos) { std::string r = b.substr(0, k) + "_"; int ng = 0; for (char ch : b) ng += ch == '('; if (choose(S_WORK, 8) == 7) ng--; for (int q = 0; q < ng; q++) r += "abcdefghij0123456789"[choose(S_WORK, 20)]; return r + "/" + walk(e.second, d + 1); }
    return b + walk(e.second, d + 1); };
  std::vector<Fiber *> cl;
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    Conn *c = nullptr; bool open = false; int nr = 2 + choose(S_WORK, 8);
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; if (!c->open(sc.port, sc.https, now() + liveness_bound)) violation("refused", "connection refused"); open = true; }
      std::string path = choose(S_WORK, 8) ? walk(root, 0) : nm(); bool head = choose(S_WORK, 8) == 7, ka = sc.mode != O_ONE_LOOP && choose(S_WORK, 5) != 4; std::string id = std::to_string(i) + "." + std::to_string(k);
      bool spoof = choose(S_WORK, 4) == 3; std::string raw = std::string(head ? "HEAD" : "GET") + " /" + path + (spoof ? "?1=evil&2=evil&3=evil&11=evil" : "") + " HTTP/1.1\r\nX-Id: " + id + "\r\n"; if (!ka) raw += "Connection: close\r\n";
      Exp x; x.path = path; x.st = ev(root, x, {});
      if (ambiguous(x)) { count("route.skipped"); continue; }
      std::string ctx = "request " + esc(raw, 160);
      c->send(raw + "\r\n", choose(S_NET, SEG_NMODES)); HResp h = c->response(head, liveness_bound, false, ctx.c_str()); evaluated(); op_done();
      auto &cs = calls[id]; std::string seen, want; auto show = [&](const std::vector<Call> &v) { std::string r; for (auto &c : v) { r += std::to_string(c.id) + "<" + c.path + ">"; } return r; };
      seen = show(cs); want = show(x.calls);
      if (!h.complete && !c->eof()) violation("no-progress", "%s: no complete response after %.0f s; threads: %s", ctx.c_str(), liveness_bound / 1e9, blocked_report().c_str());
      if (seen != want) violation("wrong-route", "%s: handlers called (with their path) %s, expected %s", ctx.c_str(), seen.c_str(), want.c_str());
      for (size_t q = 0; q < cs.size(); q++) for (auto &g : x.calls[q].g) if (cs[q].g[g.first] != g.second) violation("wrong-group", "%s: group %d is '%s', expected '%s'", ctx.c_str(), g.first, cs[q].g[g.first].c_str(), g.second.c_str());
      mix_state(std::hash<std::string>()(want + std::to_string(x.st)));
      bool err = x.st == OCS_NOT_PROCESSED || x.st == OCS_INTERNAL_ERROR || x.st == OCS_NOT_IMPLEMENTED || x.st == OCS_FORBIDDEN; auto &es = errs[id];
      if (err && x.cut) { // too late for an error page: the client can tell
        count("route.error_after_data"); if (h.complete && ka && !head) violation("wrong-response", "%s: the handler failed midway, but the response (%d, %zu bytes) looks complete", ctx.c_str(), h.status, h.body.size());
        if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound)) violation("not-closed", "%s: failed midway, but the connection stays open", ctx.c_str());
        c->c.close(); open = false; continue;
      }
      if (!h.complete) violation("no-response", "%s: closed with %zu bytes of response, the handler's outcome was %d", ctx.c_str(), c->rx().size() - c->off, x.st);
      int want_st = x.status; if (err) { int f = x.st == OCS_INTERNAL_ERROR ? 1 : x.st == OCS_NOT_IMPLEMENTED ? 2 : x.st == OCS_NOT_PROCESSED ? 3 : 4; static const int dc[] = {0, 500, 501, 404, 403}; want_st = custom_err ? 480 + f : dc[f]; if (custom_err) { if (es.size() != 1 || es[0] != f << 12) violation("wrong-error", "%s: the error handler was called %zu times, with %x", ctx.c_str(), es.size(), es.size() ? es[0] : 0); x.body = "custom error"; } count("route.error"); }
      else if (es.size()) violation("wrong-error", "%s: the error handler was called", ctx.c_str());
      if (h.status != want_st) violation("wrong-response", "%s: status %d, expected %d", ctx.c_str(), h.status, want_st);
      if (!head && !(err && !custom_err) && h.body != x.body) violation("wrong-response", "%s: body '%s', expected '%s'", ctx.c_str(), esc(h.body).c_str(), esc(x.body).c_str());
      if (err && !head && h.body.find("some data") != std::string::npos) violation("wrong-response", "%s: the error page holds what the handler wrote", ctx.c_str());
      if (x.hdr.size()) { size_t q = x.hdr.find(':'); if (h.get(x.hdr.substr(0, q)) != x.hdr.substr(q + 1)) violation("wrong-response", "%s: header %s missing", ctx.c_str(), x.hdr.c_str()); }
      if (!ka || !h.keepalive || x.close) { if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound)) violation("not-closed", "%s: the connection stays open", ctx.c_str()); c->c.close(); open = false; }
    }
    if (open) c->c.close();
  }));
  for (auto f : cl) join(f);
  faults_off();
  { Fiber *f = spawn("last", [&] { Conn *c = new Conn; if (!c->open(sc.port, sc.https, now() + liveness_bound)) violation("refused", "connection refused"); c->send("NONSENSE\r\n\r\n", 0); c->c.wait_rx([&] { return c->eof() || c->rx().size(); }, now() + liveness_bound); c->c.close(); }); join(f); } // it is serving
  s.stop(); s.destroy(); check_clean("after the server was freed", ms, fds);
}
