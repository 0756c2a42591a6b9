// P14: an exported directory serves exactly its files, whole or the asked range, and never anything outside.
#include "http.h"
#include <onion/handlers/exportlocal.h>
#include <onion/url.h>
#include <string.h>
using namespace sim;

namespace {
struct FileM { std::vector<std::string> versions; bool trunc = false; bool volatile_ = false; std::set<std::pair<size_t, time_t>> stamps; }; // by canonical path
std::map<std::string, FileM> files;
const char *ROOT = "/srv/root";
bool inside(const std::string &c, const std::string &root) { return c == root || c.compare(0, root.size() + 1, root + "/") == 0; }
size_t fsize() { static const size_t t[] = {0, 1, 10, 1500, 4045, 4046, 4047, 8091, 8092, 8093, 16383, 16384, 16385, 20000, 70000, 150000}; return choose(S_WORK, 3) ? t[choose(S_WORK, 16)] : choose(S_WORK, 6000); }
std::string content(const std::string &tag, size_t n) { std::string r(n, 0); uint32_t x = 1 + choose(S_WORK, 65536); for (size_t i = 0; i < n; i++) { x = x * 1103515245 + 12345; r[i] = 'a' + (x >> 16) % 26; } for (size_t i = 0; i < tag.size() && i < n; i++) r[i] = tag[i]; return r; }
void add_file(const std::string &p, const std::string &c) { auto i = fs::put_file(p, c); i->mtime = 1400000000 + choose(S_WORK, 1000000); files[p].versions.push_back(c); files[p].stamps.insert({c.size(), i->mtime}); }
std::map<std::string, std::string> types; // by extension
void mime_types() {
  types.clear(); if (choose(S_WORK, 3) == 2) { fs::remove_path("/etc/mime.types"); types = {{"html", "text/html"}, {"htm", "text/html"}, {"js", "application/javascript"}, {"css", "text/css"}, {"png", "image/png"}, {"mjs", "application/javascript"}, {"jpg", "image/jpeg"}}; return; } // not there: a minimal set
  static const char *known[] = {"txt", "html", "png", "css", "js", "x", "webmanifest", "e", "7z"}; std::string t; int n = choose(S_WORK, 12), used = 0; static const char *ws[] = {" ", "\t", "   ", "\t\t\t", " \t"};
  for (int i = 0; i < n; i++) {
    switch (choose(S_WORK, 6)) { case 0: t += "# comment: a/b txt\n"; continue; case 1: t += "\n"; continue; default: break; }
    std::string ty = "type" + std::to_string(i) + "/" + rand_bytes(S_WORK, 1 + choose(S_WORK, choose(S_WORK, 4) ? 30 : 110), "abcxyz019.+-"); t += ty; int k = choose(S_WORK, 4);
    for (int j = 0; j < k; j++) { std::string e; if (choose(S_WORK, 2) && used < 9) e = known[used++]; else e = "q" + std::to_string(i) + "x" + std::to_string(j) + rand_bytes(S_WORK, choose(S_WORK, 14), "abcd"); t += ws[choose(S_WORK, 5)] + e; types[e] = ty; }
    if (choose(S_WORK, 8) == 7) t += ws[choose(S_WORK, 5)]; if (choose(S_WORK, 10) == 9) { t += "# more"; } t += "\n";
  }
  if (t.size() && choose(S_WORK, 4) == 3) t.pop_back(); if (t.empty()) t = "\n"; fs::put_file("/etc/mime.types", t);
}
std::string type_of(const std::string &p) { size_t k = p.rfind('.'); std::string e = k == std::string::npos ? p : p.substr(k + 1); auto i = types.find(e); return i == types.end() ? "text/plain" : i->second; }
void own_header(onion_response *res, const char *dir) { onion_response_printf(res, "<own-header %s>\n", dir); }
void own_footer(onion_response *res, const char *dir) { onion_response_printf(res, "<own-footer %s>\n", dir); }
std::string pct(const std::string &s, bool some) { std::string r; static const char *h = "0123456789ABCDEF"; for (unsigned char c : s) if (c <= ' ' || c == '%' || c == '?' || c == '#' || c >= 127 || c == '+' || (some && choose(S_WORK, 4) == 3)) { r += '%'; r += h[c >> 4]; r += h[c & 15]; } else r += c; return r; }
}

static void statics(bool mutate, bool faults) {
  bool conc = choose(S_WORK, 3) != 0;
  base_setup(conc); warm_up(); net_faults(); files.clear();
  static const unsigned r[] = {0, 60, 300, 700}; fault_enable("sendfile_short", r[choose(S_FAULT, 4)]); if (choose(S_FAULT, 3) == 2) fault_enable("sendfile_eintr", 100); fault_enable("disk_short_read", r[choose(S_FAULT, 4)]);
  if (faults) { static const unsigned q[] = {0, 20, 100}; fault_enable("disk_read_eio", q[choose(S_FAULT, 3)]); fault_enable("disk_open_eio", q[choose(S_FAULT, 3)]); fault_enable("opendir_fail", q[choose(S_FAULT, 3)]); if (choose(S_FAULT, 4) == 3) fault_enable("write_transient", 60); }
  fs::put_dir(ROOT); std::vector<std::string> names; mime_types();
  static const char *nm[] = {"app.webmanifest", "a.txt", "index.html", "with space.txt", "x.png", "noext", "sub/b.txt", "sub/c.css", "sub/deep/d.txt", "sub/..x", "root-secret", "e%41.txt", "long-name-abcdefghijklmnopqrstuvwxyz.js"};
  int nf = 3 + choose(S_WORK, 8); for (int i = 0; i < nf; i++) { std::string n = nm[choose(S_WORK, 13)]; if (files.count(std::string(ROOT) + "/" + n)) continue; add_file(std::string(ROOT) + "/" + n, content("[" + n + "]", fsize())); names.push_back(n); }
  fs::put_dir(std::string(ROOT) + "/empty"); fs::put_dir(std::string(ROOT) + "/sub");
  fs::put_file("/srv/root-secret/s.txt", content("SECRET", 5000)); fs::put_file("/srv/root.bak", content("SECRET", 3000)); fs::put_file("/srv/secret.txt", content("SECRET", 100)); fs::put_file("/etc/passwd", content("SECRET", 700)); fs::put_file("/srv/roo", content("SECRET", 700));
  std::vector<std::string> links;
  auto ln = [&](const char *n, const std::string &t) { if (choose(S_WORK, 2)) { fs::put_link(std::string(ROOT) + "/" + n, t); links.push_back(n); } };
  ln("l-in", "sub/b.txt"); ln("l-out", "/srv/secret.txt"); ln("l-outdir", "/srv/root-secret"); ln("l-up", ".."); ln("l-dang", "nowhere"); ln("l-self", "l-self"); ln("l-indir", "sub"); ln("l-sib", "../root-secret/s.txt"); ln("sub/l-abs", std::string(ROOT) + "/a.txt"); ln("l-root", ROOT);
  if (choose(S_WORK, 3)) for (auto &f : files) { static const int u[] = {1000, 1001, 1002, 4711}; fs::lookup(f.first)->uid = u[choose(S_WORK, 4)]; } // some owners have no name
  SrvCfg sc = rand_srv(); sc.https = choose(S_WORK, 4) == 3;
  MemSnapshot ms = mem_snapshot(); int fds = fd_open_count();
  Srv s; s.create(sc);
  static const char *how[] = {"/srv/root", "/srv/root/", "/srv/./root", "/srv/root/sub/..", "/srv/lnk"}; fs::put_link("/srv/lnk", "root");
  bool single = choose(S_WORK, 12) == 11 && names.size(); std::string exported = single ? std::string(ROOT) + "/" + names[0] : how[choose(S_WORK, 5)];
  onion_handler *h = onion_handler_export_local_new(exported.c_str()); if (!h) violation("no-handler", "%s could not be exported", exported.c_str());
  int own = single ? 0 : choose(S_WORK, 2) * choose(S_WORK, 4); if (own & 1) onion_handler_export_local_set_header(h, own_header); if (own & 2) onion_handler_export_local_set_footer(h, own_footer);
  if (choose(S_WORK, 4) == 3) setenv("ONION_SENDFILE", "0", 1); // through a buffer
  bool mounted = choose(S_WORK, 2); std::string prefix = "/";
  onion_handler_free(onion_get_root_handler(s.o)); onion_set_root_handler(s.o, nullptr);
  if (mounted) { onion_url *u = onion_root_url(s.o); onion_url_add_handler(u, "^static/", h); prefix = "/static/"; } else onion_set_root_handler(s.o, h);
  s.start();
  fs::op_hook = [&](const char *op, const std::string &p, int) {
    if (strcmp(op, "open") && strcmp(op, "opendir")) return;
    std::string c = fs::real(p); if (c.empty() || inside(c, ROOT) || c.compare(0, 5, "/tmp/") == 0 || c == "/etc/mime.types") return;
    violation("escape", "the server opened %s, which is outside of the exported directory", c.c_str());
  };
  int nc = conc ? 1 + choose(S_WORK, 4) : 1; bool over = false, lists = choose(S_WORK, 6) == 5; // mostly listings
  describe("%s/%d threads%s exporting %s at %s, %zu files, %zu links, %d clients%s%s", mode_name(sc.mode), sc.threads, sc.https ? " https" : "", exported.c_str(), prefix.c_str(), names.size(), links.size(), nc, mutate ? ", files replaced" : "", faults ? ", disk faults" : "");
  std::vector<Fiber *> cl; Fiber *mut = nullptr;
  if (mutate) mut = spawn("mutator", [&] {
    for (int k = 0; k < 30 && !over; k++) {
      sleep_for(choose(S_WORK, 4000) * US);
      std::string p = std::string(ROOT) + "/" + names[choose(S_WORK, names.size())]; FileM &f = files[p]; f.volatile_ = true;
      if (choose(S_WORK, 3) != 2) { std::string c = content("<" + std::to_string(k) + ">", fsize()); f.versions.push_back(c); auto i = fs::put_file(p, c); i->mtime = 1400000000 + choose(S_WORK, 1000000); count("fault.file_replaced"); }
      else { auto i = fs::lookup(p); if (i && i->is_reg() && i->data.size()) { i->data.resize(choose(S_WORK, i->data.size())); f.trunc = true; count("fault.file_truncated"); } }
    }
  });
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    Conn *c = nullptr; bool open = false; int nr = 1 + choose(S_WORK, 6); std::map<std::string, std::string> etags; std::map<std::string, size_t> etag_rev;
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; if (!c->open(sc.port, sc.https, now() + liveness_bound)) violation("refused", "connection refused"); open = true; }
      // what is asked
      std::string t; auto nme = [&] { return names.size() ? names[choose(S_WORK, names.size())] : std::string("a.txt"); };
      switch (lists && choose(S_WORK, 3) ? 9 : choose(S_WORK, 12)) {
      default: t = nme(); break;
      case 5: t = "./" + nme(); break;
      case 6: t = "sub/../" + nme(); break;
      case 7: { static const char *e[] = {"../root-secret/s.txt", "../root-secret", "../root.bak", "../secret.txt", "../roo", "../../etc/passwd", "sub/../../root-secret/s.txt", "/../root-secret/s.txt", "..", "../", "../root/../root.bak", "/etc/passwd", "../root-secret/../root/a.txt", "sub/deep/../../../root-secret/s.txt", "../root", "../root-secret/"}; t = e[choose(S_WORK, 16)]; break; }
      case 8: if (links.size()) { t = links[choose(S_WORK, links.size())]; if (choose(S_WORK, 2)) { static const char *e[] = {"/s.txt", "/b.txt", "/", "/root-secret/s.txt", "/secret.txt", "/../secret.txt"}; t += e[choose(S_WORK, 6)]; } } else t = nme(); break;
      case 9: { static const char *e[] = {"", "sub", "sub/", "empty", "sub/deep", "sub//deep/"}; t = e[choose(S_WORK, 6)]; break; }
      case 10: { static const char *e[] = {"nothing", "sub/nothing", "a.txt/x", "noext/", "../nothing"}; t = e[choose(S_WORK, 5)]; break; }
      case 11: t = "sub//" + nme(); break;
      }
      std::string full = (single ? exported : std::string(ROOT) + "/" + t); int err = 0; std::string canon = fs::real(full, &err); auto ino = canon.empty() ? nullptr : fs::lookup(canon);
      bool in = ino && inside(canon, ROOT), isdir = in && ino->is_dir(), isreg = in && ino->is_reg();
      static const char *mt[] = {"GET", "GET", "GET", "GET", "HEAD", "OPTIONS", "DELETE", "GET"}; std::string m = mt[choose(S_WORK, 8)]; bool head = m == "HEAD", ka = sc.mode != O_ONE_LOOP && choose(S_WORK, 5) != 4;
      std::string raw = m + " " + prefix + pct(t, choose(S_WORK, 4) == 3) + " HTTP/1.1\r\n"; if (!ka) raw += "Connection: close\r\n";
      FileM *f = isreg && files.count(canon) ? &files[canon] : nullptr; if (isreg && !f) violation("harness", "file without model %s", canon.c_str());
      size_t sz = f ? f->versions.back().size() : 0; bool rng = isreg && choose(S_WORK, 3) == 2; int rk = 0; uint64_t ra = 0, rb = 0; std::string inm;
      if (rng) {
        rk = choose(S_WORK, 3); static const int64_t d[] = {-2, -1, 0, 1, 2};
        auto pos = [&]() -> uint64_t { switch (choose(S_WORK, 4)) { case 0: return choose(S_WORK, 20); case 1: { int64_t v = (int64_t)sz + d[choose(S_WORK, 5)]; return v < 0 ? 0 : v; } case 2: return choose(S_WORK, (uint32_t)sz + 10); default: return choose(S_WORK, 2) ? 4294967296ull + choose(S_WORK, 100) : sz / 2; } };
        ra = pos(); rb = pos(); if (rk == 0 && rb < ra && choose(S_WORK, 2)) std::swap(ra, rb);
        raw += "Range: bytes=" + (rk == 0 ? std::to_string(ra) + "-" + std::to_string(rb) : rk == 1 ? std::to_string(ra) + "-" : "-" + std::to_string(ra)) + "\r\n"; count("static.range");
      } else if (isreg && etags.count(canon) && choose(S_WORK, 2)) { inm = etags[canon]; if (choose(S_WORK, 4) == 3) inm += "x"; raw += "If-None-Match: " + inm + "\r\n"; }
      else if (choose(S_WORK, 16) == 15) raw += "Range: bytes=" + rand_bytes(S_WORK, choose(S_WORK, 300), "0123456789-,x ") + "\r\n", rk = 9; // nonsense
      if (!mutate && f && etags.count(canon) && !rng && choose(S_WORK, 4) == 3) { // a new version takes its place, maybe of the same size a second later, maybe of another size at once
        std::string v = content("<" + std::to_string(i) + "." + std::to_string(k) + ">", choose(S_WORK, 3) ? sz : fsize()); auto i = fs::lookup(canon); time_t old = i->mtime; bool same = v.size() == sz; if (v != f->versions.back()) { f->versions.push_back(v); i = fs::put_file(canon, v); i->mtime = old + (same ? 1 : 0) + choose(S_WORK, 3); while (!f->stamps.insert({v.size(), i->mtime}).second) i->mtime++; sz = v.size(); count("fault.file_replaced"); }
      }
      size_t v0 = f ? f->versions.size() - 1 : 0; auto before = files; uint64_t ff = faults_fired();
      c->send(raw + "\r\n", choose(S_NET, SEG_NMODES));
      std::string ctx = "request " + esc(raw, 200) + " (resolves to " + (canon.empty() ? "nothing" : canon) + ")";
      HResp h = c->response(head, liveness_bound, false, ctx.c_str()); evaluated(); op_done();
      bool vol = f && (f->volatile_ || f->trunc); bool flt = faults && faults_fired() != ff;
      if (h.body.find("SECRET") != std::string::npos) violation("escape", "%s was answered with a file from outside", ctx.c_str());
      if (!h.complete) {
        if (!c->eof()) violation("no-progress", "%s: no complete response after %.0f s; threads: %s", ctx.c_str(), liveness_bound / 1e9, blocked_report().c_str());
        if (!(f && f->trunc) && !flt) violation("no-response", "%s: closed with %zu bytes of response", ctx.c_str(), c->rx().size() - c->off);
        // only a prefix of the file may have been sent
        if (h.head_done && isreg && h.status == 200 && !vol) { bool ok = false; for (size_t j = v0; j < f->versions.size(); j++) ok |= f->versions[j].compare(0, h.body.size(), h.body) == 0; if (!ok) violation("wrong-content", "%s: the incomplete body is not a prefix of the file", ctx.c_str()); }
        count("static.cut"); c->c.close(); open = false; continue;
      }
      mix_state(std::hash<std::string>()(raw));
      if (!in) { if (h.status != 404) violation("escape", "%s: answered %d", ctx.c_str(), h.status); }
      else if (isdir) {
        if (h.status == 404 && flt) {} else if (h.status != 200) violation("wrong-status", "%s: directory answered %d", ctx.c_str(), h.status);
        else if (!head) { // the listing names every visible entry once
          std::map<std::string, int> seen; std::map<std::string, std::string> rest; size_t p = h.body.find("files=[\n"); if (p == std::string::npos) violation("bad-listing", "%s: no listing", ctx.c_str()); p += 8;
          while (h.body.compare(p, 4, "  ['") == 0) { size_t e = h.body.find("',", p + 4); std::string en = h.body.substr(p + 4, e - p - 4); seen[en]++; size_t nl = h.body.find('\n', p); rest[en] = h.body.substr(e + 2, nl - e - 2); p = nl + 1; }
          for (auto &e : ino->ent) { if (e.first[0] == '.') continue; auto ti = fs::lookup(canon + "/" + e.first); if (!ti) continue; std::string want = e.first + (ti->is_dir() ? "/" : ""); if (seen[want] != 1) violation("bad-listing", "%s: entry %s listed %d times", ctx.c_str(), want.c_str(), seen[want]); seen.erase(want);
            std::string r = rest[want], owner = ti->uid >= 4000 ? "???" : ti->uid == 1000 ? "simuser" : "user" + std::to_string(ti->uid), tail = ",'" + owner + "','" + (ti->is_dir() ? "dir" : "file") + "'],"; evaluated();
            if (r.size() < tail.size() || r.compare(r.size() - tail.size(), tail.size(), tail)) violation("bad-listing", "%s: entry %s is listed as %s, but it is of %s", ctx.c_str(), want.c_str(), r.c_str(), owner.c_str());
            std::string tc = fs::real(canon + "/" + e.first); if (ti->is_reg() && files.count(tc) && !files[tc].trunc) { bool ok = false; for (auto &v : files[tc].versions) ok |= std::to_string(v.size()) == r.substr(0, r.find(',')); if (!ok) violation("bad-listing", "%s: entry %s is listed as %s, but it has %zu bytes", ctx.c_str(), want.c_str(), r.c_str(), ti->data.size()); } }
          for (auto &x : seen) if (x.second) violation("bad-listing", "%s: lists %s, which is not there", ctx.c_str(), x.first.c_str());
          for (int w = 0; w < 2; w++) { std::string k = w ? "<own-footer " : "<own-header "; int n = 0; for (size_t a = 0; (a = h.body.find(k, a)) != std::string::npos; a++) n++; if (n != !!(own & (w + 1)) || (n && h.body.find(k + t + ">\n") == std::string::npos)) violation("bad-listing", "%s: the application's %s is there %d times", ctx.c_str(), w ? "footer" : "header", n); }
        }
      } else if (isreg) {
        if (h.status == 404 && flt) {}
        else if (rk == 9) {}
        else if (h.status == 304) { if (inm.empty() || (!vol && (inm != etags[canon] || etag_rev[canon] < v0 + 1))) violation("wrong-status", "%s: not modified, but the client does not have it", ctx.c_str()); }
        else {
          // one of the versions the file had while the request was being processed explains the whole response
          bool ok = false; std::string why; std::vector<std::string> cand(f->versions.begin() + (mutate ? 0 : v0), f->versions.end()); auto cur = fs::lookup(canon); if (cur && cur->is_reg()) cand.push_back(cur->data);
          for (auto &v : cand) {
            int want = 200; size_t a = 0, n = v.size(); std::string cr;
            if (rng) {
              uint64_t lo, hi; if (rk == 2) { lo = ra >= v.size() ? 0 : v.size() - ra; hi = v.size(); if (ra == 0) lo = hi; } else { lo = ra; hi = rk == 0 ? (rb >= v.size() ? v.size() : rb + 1) : v.size(); if (rk == 0 && rb < ra) hi = 0; }
              if (lo >= v.size() || hi <= lo) { want = 416; n = 0; cr = "bytes */" + std::to_string(v.size()); } else { want = 206; a = lo; n = hi - lo; cr = "bytes " + std::to_string(lo) + "-" + std::to_string(hi - 1) + "/" + std::to_string(v.size()); }
            }
            if (h.status != want) { why = "status " + std::to_string(h.status) + ", expected " + std::to_string(want); continue; }
            if (rng && h.get("Content-Range") != cr) { why = "Content-Range '" + h.get("Content-Range") + "', expected '" + cr + "'"; continue; }
            if (head ? (want != 416 && h.length != n) : h.body != v.substr(a, n)) { why = "body of " + std::to_string(head ? h.length : h.body.size()) + " bytes, expected " + std::to_string(n); continue; }
            ok = true; break;
          }
          if (h.status == 200 || h.status == 206) { std::string ct = h.get("Content-Type"); evaluated(); if (ct != type_of(canon) && ct != type_of(full)) violation("wrong-type", "%s: comes as %s, its extension is of %s", ctx.c_str(), esc(ct).c_str(), type_of(canon).c_str()); }
          if (!ok && f->trunc) { ok = true; } // cut in place under the server: any complete answer is a mix the file really had
          if (!ok) violation("wrong-content", "%s: %s", ctx.c_str(), why.c_str());
          if (!rng && !vol && h.status == 200) { if (h.get("ETag").empty()) violation("no-etag", "%s: no ETag", ctx.c_str()); if (!inm.empty() && inm == etags[canon] && etag_rev[canon] == f->versions.size()) violation("wrong-status", "%s: the client has it, but it was sent again", ctx.c_str()); if (f->versions.size() == v0 + 1) { etags[canon] = h.get("ETag"); etag_rev[canon] = v0 + 1; } }
        }
      } else if (h.status != 404) violation("wrong-status", "%s: answered %d", ctx.c_str(), h.status);
      if (!ka || !h.keepalive) { if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound)) violation("not-closed", "connection announced as closing stays open"); c->c.close(); open = false; }
    }
    if (open) c->c.close();
  }));
  for (auto f : cl) join(f);
  over = true; if (mut) join(mut);
  fs::op_hook = nullptr; faults_off();
  s.stop(); s.destroy(); files.clear();
  if (open_dirs()) violation("dir-leak", "%d directories left open", open_dirs());
  check_clean("after the static server was freed", ms, fds);
}
SCENARIO(P14, serve, 3) { statics(false, false); }
SCENARIO(P14, replaced, 2) { statics(true, false); }
SCENARIO(P14, diskfaults, 1) { statics(false, true); }
