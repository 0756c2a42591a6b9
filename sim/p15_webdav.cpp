// P15: a WebDAV share does what it acknowledges, whole or not at all, and only inside of the share.
#include "http.h"
extern "C" {
#include <onion/handlers/webdav.h>
}
#include <onion/url.h>
#include <string.h>
#include <libxml/parser.h>
#include <libxml/xmlmemory.h>
using namespace sim;

namespace {
const char *ROOT = "/srv/dav";
bool inside(const std::string &c) { return c == ROOT || c.compare(0, strlen(ROOT) + 1, std::string(ROOT) + "/") == 0; }
std::string pct(const std::string &s, bool some) { std::string r; static const char *h = "0123456789ABCDEF"; for (unsigned char c : s) if (c <= ' ' || c == '%' || c == '?' || c == '#' || c >= 127 || c == '+' || (some && choose(S_WORK, 4) == 3)) { r += '%'; r += h[c >> 4]; r += h[c & 15]; } else r += c; return r; }
std::string unpct(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i]; return r; }
std::string norm(const std::string &s) { std::string r; for (char c : s) if (c != '/' || r.empty() || r.back() != '/') r += c; while (r.size() > 1 && r.back() == '/') r.pop_back(); return r; }
std::string xun(std::string s) { static const char *t[][2] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&amp;", "&"}}; for (auto &p : t) { size_t k; while ((k = s.find(p[0])) != std::string::npos) s.replace(k, strlen(p[0]), p[1]); } return s; }
std::string body_of(size_t n, const std::string &tag) { std::string r = tag; uint32_t x = choose(S_WORK, 65536); while (r.size() < n) { x = x * 1103515245 + 12345; r += (char)(x >> 16); } r.resize(n); return r; }
size_t fsize() { static const size_t t[] = {0, 1, 10, 1500, 4095, 4096, 4097, 8192, 8193, 12288, 20000}; return choose(S_WORK, 3) ? t[choose(S_WORK, 11)] : choose(S_WORK, 6000); }
struct Node { bool dir = false; std::string data; bool exec = false; bool dangling = false; bool operator==(const Node &o) const { return dir == o.dir && data == o.data && (dir || exec == o.exec); } };
typedef std::map<std::string, Node> Tree;   // path relative to the share -> node
std::string up(const std::string &p) { size_t k = p.rfind('/'); return k == std::string::npos ? "" : p.substr(0, k); }
bool isdir(const Tree &t, const std::string &p) { if (p.empty()) return true; auto i = t.find(p); return i != t.end() && i->second.dir; }
bool has(const Tree &t, const std::string &p) { return p.empty() || t.count(p); }
bool empty(const Tree &t, const std::string &p) { for (auto &e : t) if (e.first.compare(0, p.size() + 1, p + "/") == 0) return false; return true; }
Tree actual(const std::string &own) { // what is really there, temporaries aside
  Tree t; auto d = fs::lookup(std::string(ROOT) + "/" + own); if (!d) return t;
  std::function<void(const std::string &, InoP)> walk = [&](const std::string &p, InoP i) {
    Node n; n.dir = i->is_dir(); n.data = i->is_reg() ? i->data : ""; n.exec = i->is_reg() && (i->mode & 0111); n.dangling = !i->is_dir() && !i->is_reg(); t[p] = n;
    for (auto &e : i->ent) if (e.first.compare(0, 1, ".")) walk(p + "/" + e.first, e.second);
  };
  walk(own, d); return t;
}
std::string tdiff(const Tree &w, const Tree &g) {
  for (auto &e : w) { auto i = g.find(e.first); if (i == g.end()) return e.first + " is missing"; if (!(i->second == e.second)) return e.first + (i->second.dir != e.second.dir ? " is of other kind" : i->second.exec != e.second.exec ? " has other executable flag" : " has " + std::to_string(i->second.data.size()) + " bytes instead of the " + std::to_string(e.second.data.size()) + " of its content"); }
  for (auto &e : g) if (!w.count(e.first)) return e.first + " appeared";
  return "";
}
// blocks of libxml2, which runs for real
long xml_live; void *xm_malloc(size_t n) { void *p = malloc(n); if (p) xml_live++; return p; } void xm_free(void *p) { if (p) xml_live--; free(p); } void *xm_realloc(void *p, size_t n) { if (!p) xml_live++; return realloc(p, n); } char *xm_strdup(const char *s) { xml_live++; return strdup(s); }
void xml_count() { static bool done; if (!done) { done = true; xmlMemSetup(xm_free, xm_malloc, xm_realloc, xm_strdup); } const char *t = "<a xmlns='DAV:'><b/></a>"; for (int i = 0; i < 2; i++) { xmlDocPtr d = xmlParseMemory(t, strlen(t)); xmlFreeDoc(d); } xmlCleanupParser(); }
std::string datestr(time_t t, const char *f) { struct tm ts; char b[64]; gmtime_r(&t, &ts); strftime(b, sizeof b, f, &ts); return b; }
const char *PROPS[] = {"resourcetype", "getcontentlength", "getetag", "getlastmodified", "creationdate", "executable", "getcontenttype", "displayname"};
struct Wr { std::string v; Time inv, resp; int ok; }; // ok: 1 done, 0 refused, -1 unknown
struct Shared { std::vector<Wr> w; } sf;
bool custom; std::set<std::string> approved; bool denied(const std::string &p) { return p.find("/no") != std::string::npos; }
int perm(const char *base, const char *file, onion_request *) { std::string p = norm(file); (void)base; if (denied(p)) return 1; approved.insert(p); return 0; }
}

static void dav(bool faults, bool crashes) {
  bool conc = choose(S_WORK, 3) != 0;
  base_setup(conc); warm_up(); net_faults(); sf.w.clear(); approved.clear();
  static const unsigned r[] = {0, 60, 300}; fault_enable("disk_short_read", r[choose(S_FAULT, 3)]); fault_enable("disk_short_write", r[choose(S_FAULT, 3)]); fault_enable("sendfile_short", r[choose(S_FAULT, 3)]);
  if (faults) { static const unsigned q[] = {0, 30, 150}; for (auto n : {"disk_write_eio", "disk_read_eio", "disk_open_fail", "disk_open_eio", "rename_fail", "disk_unlink_fail", "disk_mkdir_fail", "opendir_fail", "mkstemp_fail", "chmod_fail"}) fault_enable(n, q[choose(S_FAULT, 3)]); if (choose(S_FAULT, 4) == 3) fs::disk_left = choose(S_FAULT, 60000); }
  fs::put_dir(ROOT); bool exdev = choose(S_WORK, 2); if (exdev) fs::foreign_dev.insert("/tmp");
  int nc = conc ? 1 + choose(S_WORK, 3) : 1; custom = !crashes && choose(S_WORK, 4) == 3;
  fs::put_file("/srv/dav-secret/s.txt", "SECRET one"); fs::put_file("/srv/secret.txt", "SECRET two"); fs::put_dir("/srv/outdir"); fs::put_file("/srv/outdir/o.txt", "SECRET three");
  std::string init = body_of(300, "initial"); fs::put_file(std::string(ROOT) + "/shared.bin", init); sf.w.push_back({init, 0, 0, 1});
  for (auto &l : std::vector<std::pair<std::string, std::string>>{{"l-out", "/srv/secret.txt"}, {"l-sib", "../dav-secret"}, {"l-outdir", "/srv/outdir"}, {"l-dang", "/srv/evil.txt"}, {"l-up", ".."}, {"l-dangd", "/srv/outdir/new"}}) fs::put_link(std::string(ROOT) + "/" + l.first, l.second);
  std::vector<Tree> m(nc); for (int i = 0; i < nc; i++) { std::string own = "c" + std::to_string(i); fs::put_dir(std::string(ROOT) + "/" + own); m[i][own].dir = true;
    if (choose(S_WORK, 2)) { static const int md[] = {0644, 0755, 0711, 0700, 0610, 0601, 0600}; for (auto f : {"a.txt", "p+q.txt"}) if (choose(S_WORK, 2)) { auto &n = m[i][own + "/" + f]; n.data = body_of(fsize(), "<was>"); int mode = md[choose(S_WORK, 7)]; n.exec = mode & 0111; fs::put_file(std::string(ROOT) + "/" + own + "/" + f, n.data)->mode = S_IFREG | mode; } } }
  auto outside = [&] { std::map<std::string, std::string> o; for (auto &p : fs::list("/srv")) if (!inside(p.back() == '/' ? p.substr(0, p.size() - 1) : p)) { auto i = fs::lookup(p, false); o[p] = i && i->is_reg() ? i->data + std::to_string(i->mode) : i && i->is_lnk() ? i->link : "dir"; } return o; };
  auto out0 = outside();
  SrvCfg sc = rand_srv(); sc.https = choose(S_WORK, 5) == 4; sc.max_file = 1 << 20; sc.max_post = 1 << 20;
  MemSnapshot ms = mem_snapshot(); int fds = fd_open_count(); (void)ms; xml_count(); long xml0 = xml_live;
  static const char *how[] = {"/srv/dav", "/srv/dav/", "/srv/./dav", "/srv/davlnk"}; fs::put_link("/srv/davlnk", "dav"); out0 = outside();
  std::string exported = how[choose(S_WORK, custom ? 1 : 4)]; bool mounted = choose(S_WORK, 2); std::string prefix = mounted ? "/dav/" : "/";
  Srv *s = nullptr; bool dead = false, over = false;
  auto boot = [&] {
    s = new Srv; s->create(sc); onion_handler *h = onion_handler_webdav(exported.c_str(), custom ? perm : nullptr); if (!h) violation("no-handler", "no webdav handler");
    onion_handler_free(onion_get_root_handler(s->o)); onion_set_root_handler(s->o, nullptr);
    if (mounted) onion_url_add_handler(onion_root_url(s->o), "^dav/", h); else onion_set_root_handler(s->o, h);
    s->start();
  };
  boot();
  fs::op_hook = [&](const char *op, const std::string &p, int) {
    if (over || (strcmp(op, "open") && strcmp(op, "opendir")) || custom) return;
    std::string c = fs::real(p); if (c.empty() || inside(c) || c.compare(0, 5, "/tmp/") == 0 || c == "/etc/mime.types") return;
    violation("escape", "the server opened %s, which is outside of the share", c.c_str());
  };
  int life = 0, lives = crashes ? 2 + choose(S_FAULT, 2) : 1; uint64_t nmut = 0, die_at = NEVER;
  fs::mut_hook = [&](const char *op, const std::string &c) {
    if (over) return;
    if (!inside(c) && c.compare(0, 5, "/tmp/")) violation("escape", "the server did %s of %s, which is outside of the share", op, c.c_str());
    if (custom && inside(c) && norm(c).find("/.") == std::string::npos && !approved.count(norm(c))) violation("no-permission", "the server did %s of %s, without the permission checker having allowed it", op, c.c_str());
    if (++nmut == die_at) { dead = true; crash(); }
  };
  describe("%s/%d threads%s webdav of %s at %s, %d clients%s%s%s%s", mode_name(sc.mode), sc.threads, sc.https ? " https" : "", exported.c_str(), prefix.c_str(), nc, exdev ? ", /tmp on other device" : "", custom ? ", custom permissions" : "", faults ? ", disk faults" : "", crashes ? ", crashes" : "");
  static const std::string L(180, 'x'); std::vector<std::string> voc = {"a.txt", "b.txt", "sub", "sub/c d.txt", "sub/deep", "sub/deep/d", "z&'.txt", "p+q.txt", L, L + "/" + L, L + "/" + L + "/" + L, "sub2", "sub2/c d.txt"}; if (custom) voc.push_back("nope"), voc.push_back("sub/no");
  std::vector<std::pair<bool, Tree>> fly(nc); // a request in flight at a crash: the tree it would make
  for (; life < lives; life++) {
    bool last = life + 1 == lives; if (!last) die_at = nmut + 1 + choose(S_FAULT, 30); else die_at = NEVER;
    if (life) { // restart: what was acknowledged is there; what was in flight, whole or not at all
      for (int i = 0; i < nc; i++) { Tree g = actual("c" + std::to_string(i)); evaluated(); std::string d = tdiff(m[i], g); if (d.size()) { if (!fly[i].first) violation("lost-after-crash", "after the crash %s", d.c_str()); std::string d2 = tdiff(fly[i].second, g); if (d2.size()) violation("torn-after-crash", "after the crash, compared to before the request in flight: %s; compared to after it: %s", d.c_str(), d2.c_str()); m[i] = g; count("crash.in_flight_applied"); } fly[i].first = false; }
      auto sh = fs::lookup(std::string(ROOT) + "/shared.bin"); bool ok = false; if (sh) for (auto &w : sf.w) if (w.ok && w.v == sh->data) ok = true; if (!ok) violation("torn-after-crash", "shared.bin holds %zu bytes nobody wrote", sh ? sh->data.size() : 0);
      for (auto &p : fs::list("/tmp")) fs::remove_path(p); // whatever cleans /tmp
      dead = false; boot();
    }
    std::vector<Fiber *> cl;
    for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
      Conn *c = nullptr; bool open = false; int nr = 2 + choose(S_WORK, 9); std::string own = "c" + std::to_string(i) + "/"; Tree &t = m[i];
      for (int k = 0; k < nr && !dead; k++) {
        if (!open) { c = new Conn; if (!c->open(sc.port, sc.https, now() + liveness_bound)) { if (dead) break; violation("refused", "connection refused"); } open = true; }
        bool ka = sc.mode != O_ONE_LOOP && choose(S_WORK, 5) != 4, some = choose(S_WORK, 4) == 3; std::string hdr, body, path, dest, m_; Tree after = t; enum { YES, NO, ANY, SHW, SHR, ESC } want = NO; bool head = false, pf = false; int depth = 0; unsigned props = 0xff;
        auto v = [&] { return own + voc[choose(S_WORK, voc.size())]; };
        auto there = [&]() -> std::string { std::vector<std::string> f; for (auto &e : t) if (e.first.size() > own.size() && !e.second.dangling) f.push_back(e.first); return f.empty() || choose(S_WORK, 3) == 2 ? v() : f[choose(S_WORK, f.size())]; };
        switch (choose(S_WORK, 12)) {
        case 0: case 1: case 2: { m_ = "PUT"; path = v(); body = body_of(fsize(), "<" + std::to_string(i) + "." + std::to_string(k) + ">"); if (isdir(t, up(path)) && !isdir(t, path)) { want = YES; after[path] = Node{false, body, false}; } break; }
        case 3: { m_ = "DELETE"; path = there(); if (has(t, path) && (!isdir(t, path) || empty(t, path))) { want = YES; after.erase(path); } break; }
        case 4: case 5: { m_ = "MOVE"; path = there(); dest = v(); std::string up_ = up(dest);
          if (path == dest && has(t, path)) want = YES; // nothing changes
          else if (has(t, path) && isdir(t, up_) && dest.compare(0, path.size() + 1, path + "/") && (isdir(t, path) ? (!has(t, dest) || (isdir(t, dest) && empty(t, dest))) : !isdir(t, dest))) {
            want = YES; after.erase(dest); Tree n; for (auto &e : after) if (e.first == path) n[dest] = e.second; else if (e.first.compare(0, path.size() + 1, path + "/") == 0) n[dest + e.first.substr(path.size())] = e.second; else n[e.first] = e.second; after = n; }
          hdr = "Destination: http://server" + prefix + pct(dest, some) + "\r\n"; break; }
        case 6: { m_ = "MKCOL"; path = v(); if (isdir(t, up(path)) && !has(t, path)) { want = YES; after[path].dir = true; } break; }
        case 7: { m_ = "PROPFIND"; pf = true; path = choose(S_WORK, 3) ? v() : own.substr(0, own.size() - 1); depth = choose(S_WORK, 2); hdr = "Depth: " + std::to_string(depth) + "\r\n"; if (has(t, path)) want = YES; int b = choose(S_WORK, 4); if (b == 3) { body = "<oops" + std::string(choose(S_WORK, 2) ? "" : "&&"); want = NO; } else if (b) { if (b == 2) props = choose(S_WORK, 256); body = "<?xml version=\"1.0\"?><D:propfind xmlns:D=\"DAV:\"><D:prop>"; int first = choose(S_WORK, 8); for (int q = 0; q < 8; q++) if (props >> ((q + first) % 8) & 1) { body += std::string("<D:") + PROPS[(q + first) % 8] + "/>"; if (choose(S_WORK, 4) == 3) body += choose(S_WORK, 2) ? "\n  " : "<D:quota-used-bytes/>"; } body += "</D:prop></D:propfind>"; } break; }
        case 8: { m_ = "PROPPATCH"; path = there(); int b = choose(S_WORK, 4); std::string val = b == 0 ? "<x:executable>T</x:executable>" : b == 1 ? "<x:executable>F</x:executable>" : b == 2 ? "<x:executable/>" : "<x:other>1</x:other>"; body = "<?xml version=\"1.0\"?><D:propertyupdate xmlns:D=\"DAV:\" xmlns:x=\"http://apache.org/dav/props/\"><D:set><D:prop>" + val + "</D:prop></D:set></D:propertyupdate>"; if (choose(S_WORK, 8) == 7) { body = choose(S_WORK, 2) ? "<broken" : ""; b = 3; } if (b == 3) want = ANY; else if (has(t, path)) { want = b == 2 ? ANY : YES; after[path].exec = b == 0; } break; }
        case 9: { if (custom || choose(S_WORK, 2)) { m_ = "GET"; path = "shared.bin"; want = SHR; if (choose(S_WORK, 2)) { m_ = "PUT"; want = SHW; body = body_of(20 + fsize(), "{" + std::to_string(life) + "." + std::to_string(i) + "." + std::to_string(k) + "}"); } break; }
          static const char *e[] = {"l-out", "l-sib/s.txt", "l-sib/new.txt", "l-outdir/o.txt", "l-outdir/n.txt", "l-dang", "../dav-secret/s.txt", "../secret.txt", "l-up/secret.txt", "..", "../new.txt", "l-dangd", "l-dangd/x", "l-sib", "l-outdir", "sub/../../secret.txt", "/../secret.txt", "l-up", "l-sib/", ".."}; static const char *em[] = {"GET", "PUT", "DELETE", "MKCOL", "PROPFIND", "PROPPATCH", "MOVE", "MOVE"};
          want = ESC; path = e[choose(S_WORK, 20)]; int q = choose(S_WORK, 8); m_ = em[q]; if (q == 4) hdr = "Depth: 1\r\n"; if (q == 1 || q == 5) body = "evil"; if (q == 5) body = "<D:propertyupdate xmlns:D=\"DAV:\"><D:set><D:prop><executable>T</executable></D:prop></D:set></D:propertyupdate>";
          if (q == 6) hdr = "Destination: http://server" + prefix + pct(own + "stolen", some) + "\r\n"; if (q == 7) { dest = path; path = own + "a.txt"; hdr = "Destination: http://server" + prefix + pct(dest, some) + "\r\n"; if (dest == "l-dang" || dest == "l-dangd") { want = ANY; if (!has(t, path)) want = NO; else after.erase(path); } }
          else if (path == "l-dang" || path == "l-dangd") { want = ANY; if (q == 6) { after[own + "stolen"] = Node(); after[own + "stolen"].dangling = true; } }
          if (m_ == "MOVE" && choose(S_WORK, 10) == 9) { hdr = std::string("Destination: ") + (choose(S_WORK, 2) ? "http://server/elsewhere/x" : "nonsense") + "\r\n"; path = own + "a.txt"; want = mounted || hdr.find("nonsense") != std::string::npos ? NO : ANY; if (want == ANY) { want = NO; if (has(t, path)) want = ESC; } after = t; }
          break; }
        case 10: { m_ = choose(S_WORK, 2) ? "GET" : "HEAD"; head = m_ == "HEAD"; path = v(); if (has(t, path) && !isdir(t, path)) want = YES; break; }
        default: { m_ = "GET"; path = v(); if (has(t, path) && !isdir(t, path)) want = YES; break; }
        }
        bool get = m_ == "GET" || head; bool deny = custom && (denied("/" + norm(path)) || (m_ == "MOVE" && denied("/" + norm(dest)))); if (deny) { want = NO; after = t; }
        std::string raw = m_ + " " + prefix + pct(path, some) + " HTTP/1.1\r\n" + hdr; if (!ka) raw += "Connection: close\r\n"; if (m_ == "PUT" || body.size()) raw += "Content-Length: " + std::to_string(body.size()) + "\r\n";
        std::string ctx = "client " + std::to_string(i) + ": " + esc(raw, 300); uint64_t ff = faults_fired(); Time inv = now(); size_t wi = 0; Tree before = t;
        if (want == SHW) { wi = sf.w.size(); sf.w.push_back({body, inv, NEVER, -1}); }
        fly[i] = {want == YES || want == ANY, after};
        c->send(raw + "\r\n" + body, choose(S_NET, SEG_NMODES));
        HResp h = c->response(head, liveness_bound, false, ctx.c_str());
        if (dead) break;
        evaluated(); op_done(); mix_state(std::hash<std::string>()(m_ + path));
        bool flt = faults && (faults_fired() != ff || fs::disk_left >= 0);
        if (!h.complete) { if (!c->eof()) violation("no-progress", "%s: no complete response after %.0f s; threads: %s", ctx.c_str(), liveness_bound / 1e9, blocked_report().c_str()); if (!flt) violation("no-response", "%s: closed with %zu bytes of response", ctx.c_str(), c->rx().size() - c->off); }
        if (h.body.find("SECRET") != std::string::npos) violation("escape", "%s: answered with a file from outside", ctx.c_str());
        bool ok = h.complete && h.status >= 200 && h.status < 300; if (want == SHW) sf.w[wi].resp = now(), sf.w[wi].ok = h.complete ? ok : -1;
        if (deny && h.complete && h.status != 403) violation("no-permission", "%s: not allowed, but answered %d", ctx.c_str(), h.status);
        if (want == ESC) { if (ok) violation("escape", "%s: out of the share, but answered %d", ctx.c_str(), h.status); }
        else if (want == SHR) {
          if (ok) { bool found = false; Time resp = now(); for (auto &w : sf.w) if (w.v == h.body && w.ok) { bool stale = false; for (auto &x : sf.w) if (&x != &w && x.ok == 1 && w.ok == 1 && w.resp < x.inv && x.resp < inv) stale = true; if (!stale && w.inv < resp) found = true; } if (!found) violation("wrong-content", "%s: the content of %zu bytes is not one that was there at that time", ctx.c_str(), h.body.size()); }
          else if (!flt) violation("wrong-status", "%s: answered %d", ctx.c_str(), h.status);
        } else if (want == SHW) { if (!ok && !flt) violation("wrong-status", "%s: answered %d", ctx.c_str(), h.status); }
        else {
          if (want == YES && !ok && !flt) violation("wrong-status", "%s: answered %d", ctx.c_str(), h.status);
          if (want == NO && ok) violation("wrong-status", "%s: answered %d, but it is not possible", ctx.c_str(), h.status);
          if (get && ok && (head ? h.length != t[path].data.size() : h.body != t[path].data)) violation("wrong-content", "%s: %zu bytes of content instead of the %zu of the file", ctx.c_str(), head ? h.length : h.body.size(), t[path].data.size());
          if (ok) { if (want == YES) t = after; else if (want == ANY) { Tree g = actual(own.substr(0, own.size() - 1)); if (m_ == "PROPPATCH" && tdiff(after, g).empty()) t = after; else if (m_ == "MOVE") t = g; } }
        }
        if (want == YES && !h.complete && !get && !pf) { Tree g = actual(own.substr(0, own.size() - 1)); if (tdiff(after, g).empty()) t = after; }
        { std::string d = tdiff(t, actual(own.substr(0, own.size() - 1))); if (d.size()) violation("wrong-state", "%s answered %d, and then %s", ctx.c_str(), h.status, d.c_str()); }
        if (pf && ok) { // names what is there, once
          std::map<std::string, std::string> seen; size_t p = 0; const std::string &b = h.body;
          while ((p = b.find("<D:response", p)) != std::string::npos) { size_t e = b.find("</D:response>", p); if (e == std::string::npos) violation("bad-listing", "%s: broken answer", ctx.c_str()); std::string r = b.substr(p, e - p); size_t a = r.find("<D:href>"), z = r.find("</D:href>"); if (a == std::string::npos || z == std::string::npos) violation("bad-listing", "%s: no href", ctx.c_str()); std::string n = norm(unpct(xun(r.substr(a + 8, z - a - 8)))); if (seen.count(n)) violation("bad-listing", "%s: %s twice", ctx.c_str(), n.c_str()); seen[n] = r; p = e; }
          auto need = [&](const std::string &n, const Node &nd) { if (nd.dangling) return; std::string u = norm(prefix + n); auto it = seen.find(u); if (it == seen.end()) { if (flt) return; std::string l; for (auto &x : seen) l += x.first + " "; violation("bad-listing", "%s: %s is not listed, just %s", ctx.c_str(), u.c_str(), l.c_str()); } 
            const std::string &r = it->second; std::string good = r.substr(0, r.find("</D:propstat>")); if (good.find("200 OK") == std::string::npos) violation("bad-listing", "%s: no status of the properties of %s", ctx.c_str(), u.c_str());
            auto get1 = [&](const char *name) -> std::string { size_t q = good.find(std::string(":") + name); if (q == std::string::npos) return "-"; q += 1 + strlen(name); if (good.compare(q, 2, "/>") == 0) return ""; q = good.find('>', q) + 1; return good.substr(q, good.find('<', q) - q); };
            auto ino = fs::lookup(std::string(ROOT) + "/" + n); time_t mt = ino ? ino->mtime : 0; std::string wantp[8] = {nd.dir ? "" : "", nd.dir ? "-" : std::to_string(nd.data.size()), "?", datestr(mt, "%a, %d %b %Y %H:%M:%S GMT"), datestr(mt, "%Y-%m-%dT%H:%M:%SZ"), nd.dir ? "-" : nd.exec ? "true" : "false", nd.dir ? "httpd/unix-directory" : "-", "-"};
            for (int q = 0; q < 8; q++) { std::string g = get1(PROPS[q]), w = props >> q & 1 ? wantp[q] : "-"; evaluated(); if (w == "?" ? g == "-" || g.empty() : g != w) violation("bad-listing", "%s: %s of %s is '%s' instead of '%s'", ctx.c_str(), PROPS[q], u.c_str(), esc(g).c_str(), w.c_str()); }
            if (props & 1 && (good.find("<D:collection") != std::string::npos) != nd.dir) violation("bad-listing", "%s: wrong type for %s", ctx.c_str(), u.c_str());
            seen.erase(it); };
          need(path, t[path]); if (depth && t[path].dir) for (auto &e : t) if (up(e.first) == path && e.first != path) need(e.first, e.second);
          for (auto &x : seen) violation("bad-listing", "%s: %s listed, but it is not there", ctx.c_str(), x.first.c_str());
        }
        fly[i].first = false;
        if (!h.complete) { c->c.close(); open = false; continue; }
        if (!ka || !h.keepalive) { if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound)) violation("not-closed", "connection announced as closing stays open"); if (dead) break; c->c.close(); open = false; }
      }
      if (open) c->c.close();
    }));
    for (auto f : cl) join(f);
    if (dead) continue;
    break;
  }
  bool unl = faults && faults_fired() && fault_enabled("disk_unlink_fail"); over = true; faults_off(); fs::op_hook = nullptr;
  s->stop(); s->destroy(); fs::mut_hook = nullptr;
  if (outside() != out0) violation("escape", "files outside of the share changed");
  if (!unl && !life) { for (auto &p : fs::list("/tmp")) violation("temp-left", "%s was left behind", p.c_str()); for (auto &p : fs::list(ROOT)) if (p.find("/.") != std::string::npos) violation("temp-left", "%s was left behind", p.c_str()); }
  if (unl) for (auto &p : fs::list("/tmp")) fs::remove_path(p); // removing it was made to fail
  if (open_dirs()) violation("dir-leak", "%d directories left open", open_dirs());
  if (!life && xml_live > xml0) violation("leak", "%ld blocks of the XML documents are never freed", xml_live - xml0);
  if (!life) check_clean("after the webdav server was freed", ms, fds);
}
SCENARIO(P15, share, 4) { dav(false, false); }
SCENARIO(P15, diskfaults, 3) { dav(true, false); }
SCENARIO(P15, crash, 2) { dav(false, true); }
