// P21: an application written with the C++ classes gets the same service: what it reads, streams, throws and shares, and its objects end once.
#include "http.h"
#include <string.h>
#include <stdlib.h>
#include <stdexcept>
#include <sstream>
extern "C" { void sim_user_free(void *); void sim_raw_free(void *); }
#define free sim_raw_free   // inline functions of the headers give back what the library allocated
extern "C" {
#include <onion/url.h>
#include <onion/shortcuts.h>
#include <onion/http.h>
#include <onion/https.h>
#include <onion/mime.h>
}
#include "exceptions.hpp"
#include "mime.hpp"
#include "onion.hpp"
#include "url.hpp"
#include "request.hpp"
#include "response.hpp"
#include "dict.hpp"
#include "extrahandlers.hpp"
#include "shortcuts.hpp"
#include "http.hpp"
#include "https.hpp"
#undef free
using namespace sim;
namespace OC = ::Onion;

namespace {
int tokens; // objects the application gave to the server
struct Token { bool live = true; Token() { tokens++; } Token(const Token &) { tokens++; } ~Token() { if (!live) violation("double-destroy", "an object of the application was destroyed twice"); live = false; tokens--; } };
struct Cls : OC::HandlerBase { Token t; int n; Cls(int k) : n(k) {} onion_connection_status operator()(OC::Request &req, OC::Response &res) override { if (!t.live) violation("use-after-destroy", "a handler runs after it was destroyed"); res << "class " << n << " " << req.path(); return OCS_PROCESSED; } };
struct Obj { Token t; onion_connection_status method(OC::Request &req, OC::Response &res) { if (!t.live) violation("use-after-destroy", "a method runs after its object was destroyed"); res << "method " << req.fullpath(); return OCS_PROCESSED; } };
onion_connection_status cfn(void *, onion_request *, onion_response *res) { onion_response_write0(res, "c function"); return OCS_PROCESSED; }
struct OwnError : OC::HttpException { Token t; OwnError(const std::string &s) : OC::HttpException(s, (onion_response_codes)418) {} };
std::string join(const std::map<std::string, std::string> &m) { std::string s; for (auto &p : m) s += p.first + "=" + p.second + ";"; return s; }
std::map<std::string, std::string> M(const OC::Dict &d) { return const_cast<OC::Dict &>(d).operator std::map<std::string, std::string>(); }
std::string plain(size_t n) { static const char al[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-"; return rand_bytes(S_WORK, n, al); }
}

static void dict_history() { // the reference semantics of Onion::Dict
  MemSnapshot ms = mem_snapshot();
  {
    std::vector<OC::Dict> refs; std::vector<int> which; std::vector<std::map<std::string, std::string>> model; std::vector<std::map<std::string, int>> subs; // several references may be of the same dictionary
    auto fresh = [&](const std::map<std::string, std::string> &m) { model.push_back(m); subs.push_back({}); return (int)model.size() - 1; };
    refs.emplace_back(); which.push_back(fresh({}));
    int n = 5 + choose(S_WORK, 60);
    for (int i = 0; i < n; i++) {
      size_t a = choose(S_WORK, refs.size()), b = choose(S_WORK, refs.size()); int w = which[a]; std::string k = plain(1 + choose(S_WORK, 2)), v = plain(choose(S_WORK, 12)); evaluated();
      switch (choose(S_WORK, 16)) {
      case 0: case 1: refs[a].add(k, v, OD_DUP_ALL | OD_REPLACE); if (!subs[w].count(k)) model[w][k] = v; else { subs[w].erase(k); model[w][k] = v; } break;
      case 2: refs[a].remove(k); if (subs[w].count(k)) subs[w].erase(k); else model[w].erase(k); break;
      case 3: if (refs.size() < 8) { refs.emplace_back(refs[a]); which.push_back(w); } break;
      case 4: refs[b] = refs[a]; which[b] = w; break; // also to itself
      case 5: refs[b] = refs[a].hard_dup(); { auto m = model[w]; auto s = subs[w]; which[b] = fresh(m); for (auto &x : s) { int nw = fresh(model[x.second]); subs[nw] = {}; subs[which[b]][x.first] = nw; } } break;
      case 6: if (refs.size() > 1) { refs.erase(refs.begin() + a); which.erase(which.begin() + a); } break;
      case 7: { std::map<std::string, std::string> m; for (int q = choose(S_WORK, 5); q--;) m[plain(2)] = plain(3); refs[a] = OC::Dict(m); which[a] = fresh(m); break; }
      case 8: { if (!subs[w].empty()) break; OC::Dict d = OC::Dict::fromJSON(refs[a].toJSON()); std::map<std::string, std::string> m = M(d); if (m != model[w]) violation("dict", "through JSON: %s, expected %s", join(m).c_str(), join(model[w]).c_str()); break; }
      case 9: { bool there = model[w].count(k); std::string g = refs[a].get(k, "dflt"); if (g != (there ? model[w][k] : "dflt")) violation("dict", "get of %s gives %s", k.c_str(), g.c_str()); if (refs[a].has(k) != there) violation("dict", "has %s is wrong", k.c_str()); try { std::string x = refs[a][k]; if (!there || x != model[w][k]) violation("dict", "[%s] gives %s", k.c_str(), x.c_str()); } catch (OC::Dict::key_not_found &e) { if (there) violation("dict", "[%s] says it is not there", k.c_str()); if (!strstr(e.what(), k.c_str())) violation("dict", "the exception does not name the key"); } break; }
      case 10: { auto l = choose(S_WORK, 2) ? refs[a].readLock() : refs[a].writeLock(); if (refs[a].count() != model[w].size() + subs[w].size()) violation("dict", "count %zu, expected %zu", refs[a].count(), model[w].size() + subs[w].size()); break; }
      case 11: { if (which[b] == w || model[w].count(k) || subs[w].count(k) || !subs[which[b]].empty()) break; OC::Dict sub(model[which[b]]); refs[a].add(k, sub, OD_DUP_ALL); int nw = fresh(model[which[b]]); subs[w][k] = nw; break; }
      case 12: { if (!subs[w].count(k)) { if (choose(S_WORK, 2)) break; OC::Dict none = refs[a].getDict("no such"); OC::Dict again(none); OC::Dict third; third = none; break; } OC::Dict d = refs[a].getDict(k); OC::Dict copy(d); std::map<std::string, std::string> m = M(copy); if (m != model[subs[w][k]]) violation("dict", "nested %s is %s", k.c_str(), join(m).c_str()); break; }
      case 14: { int o = which[b]; if (o == w || !subs[o].empty()) break; bool clash = false; for (auto &x : model[o]) clash |= model[w].count(x.first) || subs[w].count(x.first); if (clash) break; refs[a].merge(refs[b]); for (auto &x : model[o]) model[w][x.first] = x.second; break; }
      case 15: refs[b] = refs[a].c_handler(); which[b] = w; break; // the dictionary of C, which is shared too
      case 13: { std::map<std::string, std::string> m = M(refs[a]); if (m != model[w]) violation("dict", "content %s, expected %s", join(m).c_str(), join(model[w]).c_str()); OC::Dict two{{"a", "1"}, {"b", "2"}}; if (two.count() != 2 || two["b"] != "2") violation("dict", "initializer list"); break; }
      }
    }
    for (size_t i = 0; i < refs.size(); i++) { std::map<std::string, std::string> m = M(refs[i]); if (m != model[which[i]]) violation("dict", "at the end %s, expected %s", join(m).c_str(), join(model[which[i]]).c_str()); }
  }
  std::string d; if (uint64_t n = live_since(ms, &d)) violation("dict-leak", "%llu blocks of dictionaries remain: %s", (unsigned long long)n, d.c_str());
}

SCENARIO(P21, dict, 1) { base_setup(false); warm_up(); int n = 1 + choose(S_WORK, 4); describe("dictionary histories"); for (int i = 0; i < n; i++) { dict_history(); op_done(); mix_state(choose(S_WORK, 1)); } }

SCENARIO(P21, app, 3) {
  bool conc = choose(S_WORK, 3) != 2; base_setup(conc); warm_up(); quiet_log(); net_faults(); onion_mime_get("a.txt"); tokens = 0;
  fs::put_file("/srv/f/page.txt", "the page"); fs::put_file("/srv/f/sub/deep.txt", "deep"); std::string mimetxt; SrvCfg sc = rand_srv(true); bool tls = choose(S_WORK, 3) == 2, mime = choose(S_WORK, 3) == 2, rootcls = choose(S_WORK, 5) == 4, ownerr = choose(S_WORK, 2);
  if (choose(S_FAULT, 6) == 5) fault_enable("gni_fail", 200);
  if (mime) onion_mime_set(nullptr); // the snapshot is without the default types, and the server's end leaves none
  MemSnapshot ms = mem_snapshot(); int fds = fd_open_count();
  {
    if (mime) { OC::Dict types{{"txt", "text/x-own"}, {"x", "y"}}; OC::Mime::set(types); if (choose(S_WORK, 2)) OC::Mime::update("txt", "text/x-own2"), OC::Mime::remove("x"); OC::Dict more(types); if (OC::Mime::get("a.x") != more.get("x", "text/plain")) violation("mime", "the mime types are not the ones that were set"); mimetxt = more["txt"]; }
    Obj obj; OC::Dict shared{{"n", "0"}}; OC::Onion o(sc.mode | (sc.detach ? O_DETACH_LISTEN : 0)); o.setMaxThreads(sc.threads); o.setTimeout(3600 * 1000); o.setMaxPostSize(1 << 20); o.setMaxFileSize(1 << 20);
    if (tls) { OC::HttpsListenPoint p; tls_files("c0"); if (p.setCertificate(O_SSL_CERTIFICATE_KEY, "/etc/onion/c0.pem", "/etc/onion/c0.key") < 0) violation("certificate", "a good certificate is refused"); o.addListenPoint("localhost", "8443", std::move(p)); o.addListenPoint("localhost", "8080", OC::HttpListenPoint()); } else if (choose(S_WORK, 2)) o.setPort(8080); else { o.setPort("8080"); o.setHostname("localhost"); }
    if (ownerr) o.setInternalErrorHandler(OC::Handler::make<OC::HandlerFunction>([t = Token()](OC::Request &, OC::Response &res) -> onion_connection_status { if (!t.live) violation("use-after-destroy", "the error handler runs after it was destroyed"); res.setCode(503); res << "own error page"; return OCS_PROCESSED; }));
    std::unique_ptr<OC::Url> root; OC::Url first, other(onion_url_new()); int subk = choose(S_WORK, 3); OC::Url third(std::move(first)); OC::Url plainsub; OC::Url &sub = subk == 0 ? plainsub : subk == 1 ? other : third; long increments = 0;
    auto Lf = [](std::function<onion_connection_status(OC::Request &, OC::Response &)> f) { return f; };
    if (rootcls) o.setRootHandler(OC::Handler(new Cls(7)));
    else {
      if (choose(S_WORK, 2)) root.reset(new OC::Url(o)); else root.reset(new OC::Url(&o)); OC::Url &u = *root;
      u.add("hello", Lf([t = Token()](OC::Request &req, OC::Response &res) { if (!t.live) violation("use-after-destroy", "a handler runs after it was destroyed"); res << "hello " << 42 << ' ' << req.query("a", "none") << std::endl; return OCS_PROCESSED; }));
      u.add("see", Lf([&](OC::Request &req, OC::Response &res) { std::string l = req.languageCode(); std::map<std::string, std::string> q = M(req.query()), p = M(req.post()), c = M(req.cookies()), f = M(req.files()); res << req.methodName() << "|" << req.fullpath() << "|" << join(q) << "|" << join(p) << "|" << join(c) << "|" << req.post("f", "-") << "|" << req.cookies("ck", "-") << "|" << l << "|" << (req.isSecure() ? "secure" : "plain") << "|" << req.headers().get("X-Id", "-") << "|" << (req.hasFiles() ? "files" : "no files") << "|" << req.clientDescription(); try { std::string s = req["X-None"]; violation("no-exception", "a header that was not sent is there"); } catch (const OC::Dict::key_not_found &) { } return OCS_PROCESSED; }));
      u.add("body", Lf([](OC::Request &req, OC::Response &res) { int n = atoi(req.query("n", "0").c_str()); std::string b; for (int i = 0; i < n; i++) b += char('a' + i % 23); if (req.query().has("len")) res.setLength(b.size()); res.setCode(201); res.setHeader("X-Own", "yes"); res.addCookie("c1", "v1", 0, "/p", "", 0); if (req.query().has("early")) res.writeHeaders(); if (req.query().has("chars")) for (char c : b) res.put(c); else { size_t p = 0; while (p < b.size()) { size_t k = std::min<size_t>(b.size() - p, 1 + choose(S_WORK, 3000)); int how = choose(S_WORK, 4); if (how == 3) { k = std::min<size_t>(k, 40); for (size_t q = 0; q < k; q++) if (choose(S_WORK, 2)) res << b[p + q]; else res.put(b[p + q]); } else if (how == 2) { k = std::min<size_t>(k, 200); res << b.substr(p, k) << std::flush; } else if (how) res << b.substr(p, k); else if (res.write(b.data() + p, k) != (int)k) violation("short-write", "write tells another length"); p += k; } } return OCS_PROCESSED; }));
      u.add("throw", Lf([](OC::Request &req, OC::Response &res) -> onion_connection_status { Token t; std::string m = "msg " + req.query("m"); switch (atoi(req.query("k", "0").c_str())) { case 0: throw OC::HttpException(m, HTTP_FORBIDDEN); case 1: throw OC::HttpNotFound(m); case 2: throw OC::HttpInternalError(m); case 3: throw OC::HttpRedirect("/to?" + req.query("m")); case 4: throw std::runtime_error(m); case 5: throw OwnError(m); case 6: throw 42; case 7: throw OC::HttpException(m); case 8: return OCS_NOT_PROCESSED; case 9: return OCS_INTERNAL_ERROR; } return OCS_PROCESSED; }));
      u.add("sess", Lf([](OC::Request &req, OC::Response &res) -> onion_connection_status { if (req.query().has("out")) { req.removeSession(); res << "out"; return OCS_PROCESSED; } std::string was = req.session("who", "nobody"); OC::Dict s = req.session(); OC::Dict copy(s); copy.add("who", req.query("me"), OD_DUP_ALL | OD_REPLACE); res << was; return OCS_PROCESSED; }));
      u.add("upload", Lf([&](OC::Request &req, OC::Response &res) -> onion_connection_status { std::string path = req.files().get("up", ""); auto i = fs::lookup(path); if (!i) violation("upload", "the uploaded file %s is not there", path.c_str()); res << req.post("up") << "|" << i->data; return OCS_PROCESSED; }));
      u.add("count", Lf([&](OC::Request &, OC::Response &res) -> onion_connection_status { OC::Dict mine(shared); { auto l = mine.writeLock(); int n = atoi(mine["n"].c_str()); if (choose(S_WORK, 2)) yield_sync("count"); mine.add("n", std::to_string(n + 1), OD_DUP_ALL | OD_REPLACE); } { auto l = shared.readLock(); res << "counted " << shared["n"]; } increments++; return OCS_PROCESSED; }));
      u.add("method", &obj, &Obj::method); u.add("cfn", cfn); u.add("craw", onion_handler_new((onion_handler_handler)cfn, nullptr, nullptr)); if (onion_url *raw = u.c_handler()) onion_url_add_static(raw, "rawfix", "raw fixed", 200); u.add("tpl", Lf([](OC::Request &req, OC::Response &res) { OC::Dict ctx{{"a", req.query("a", "none")}}; return OC::render_to_response([](onion_dict *c, onion_response *r) { onion_response_printf(r, "template %s", onion_dict_get(c, "a")); }, ctx, res); })); u.add("fixed", std::string("fixed text"), 203); u.add("^cls/", OC::Handler(new Cls(3)));
      u.add("file", OC::StaticHandler("/srv/f/page.txt")); u.add("redir", OC::RedirectHandler("/elsewhere")); u.add("inner", OC::InternalRedirectHandler("hello")); u.add("^exp/", OC::ExportLocal("/srv/f")); u.add("moved", Lf([](OC::Request &req, OC::Response &res) { return OC::redirect("/newplace", req, res); }));
      u.add("^sub/", std::move(sub)); sub.add("^(a+)$", Lf([](OC::Request &req, OC::Response &res) { res << "sub " << req.query("1") << " " << req.fullpath(); return OCS_PROCESSED; })); sub.add("", std::string("sub index"));
    }
    Fiber *lf = nullptr; bool ret = true; lf = spawn("listen", [&] { ret = o.listen(); poke(); }, true); for (int p : {8080, 8443}) if ((p == 8080 || tls) && !wait_pred([&] { return port_listening(p); }, now() + liveness_bound, "listen")) violation("not-listening", "port %d does not listen", p);
    int nc = conc ? 1 + choose(S_WORK, 4) : 1; describe("C++ application, %s/%d threads, %d clients%s", mode_name(sc.mode), sc.threads, nc, tls ? ", TLS" : ""); std::vector<Fiber *> cl;
    for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
      bool sec = tls && choose(S_WORK, 2); Conn *c = nullptr; bool open = false; int n = 2 + choose(S_WORK, 7); std::string cookie, who = "nobody";
      for (int k = 0; k < n; k++) {
        if (!open) { c = new Conn; if (!c->open(sec ? 8443 : 8080, sec, now() + liveness_bound)) violation("refused", "refused while listening"); open = true; }
        std::string tag = std::to_string(i) + "-" + std::to_string(k), x = plain(1 + choose(S_WORK, 8)), line, want, hdr; int code = 200; bool check_body = true; std::string loc; std::string body; bool own = false, maybe_nodesc = false;
        if (rootcls) { line = "GET /" + x; want = "class 7 " + x; }
        else switch (choose(S_WORK, 25)) {
        case 0: line = "GET /hello?a=" + x; want = "hello 42 " + x + "\n"; break;
        case 1: line = "GET /hello"; want = "hello 42 none\n"; break;
        case 2: { std::string lg = choose(S_WORK, 2) ? "es" : ""; hdr = "X-Id: " + tag + "\r\nCookie: ck=" + x + "\r\n" + (lg.empty() ? "" : "Accept-Language: es-ES,en\r\n"); bool post = choose(S_WORK, 2); bool qq = choose(S_WORK, 3) != 2; line = std::string(post ? "POST" : "GET") + " /see" + (qq ? "?a=1&b=" + x : ""); if (post) { body = "f=" + x + "&g=2"; hdr += "Content-Type: application/x-www-form-urlencoded\r\n"; } char d[40]; snprintf(d, sizeof d, "10.0.%d.%d", c->c.id >> 8, c->c.id & 255);
          want = std::string(post ? "POST" : "GET") + "|/see|" + (qq ? "a=1;b=" + x + ";" : "") + "|" + (post ? "f=" + x + ";g=2;" : "") + "|ck=" + x + ";|" + (post ? x : "-") + "|" + x + "|" + (lg.empty() ? "C" : lg) + "|" + (sec ? "secure" : "plain") + "|" + tag + "|no files|" + d; maybe_nodesc = true; break; }
        case 3: case 4: { int sz = rand_size(9000); line = "GET /body?n=" + std::to_string(sz) + (choose(S_WORK, 2) ? "&len=1" : "") + (choose(S_WORK, 3) == 2 ? "&chars=1" : "") + (choose(S_WORK, 4) == 3 ? "&early=1" : ""); for (int q = 0; q < sz; q++) want += char('a' + q % 23); code = 201; own = true; break; }
        case 5: case 6: case 7: { int kind = choose(S_WORK, 10); line = "GET /throw?k=" + std::to_string(kind) + "&m=" + x; static const int cd[] = {403, 404, 500, 302, 500, 418, 500, 500, 404, 500}; code = cd[kind]; want = "msg " + x; if (kind == 3) { loc = "/to?" + x; check_body = false; } if (kind == 4 || kind == 6 || kind >= 8) { if (ownerr) code = 503, want = "own error page"; else check_body = false; } break; }
        case 8: case 9: { line = "GET /sess?me=" + x; if (!cookie.empty()) hdr = "Cookie: sessionid=" + cookie + "\r\n"; want = who; who = x; break; }
        case 10: { if (cookie.empty()) continue; line = "GET /sess?out=1"; hdr = "Cookie: sessionid=" + cookie + "\r\n"; want = "out"; cookie = ""; who = "nobody"; break; }
        case 11: { std::string ct = rand_content(rand_size(3000)); while (ct.find("BoUnd") != std::string::npos) ct = "x"; body = "--BoUnd\r\nContent-Disposition: form-data; name=\"up\"; filename=\"" + x + "\"\r\n\r\n" + ct + "\r\n--BoUnd--\r\n"; line = "POST /upload"; hdr = "Content-Type: multipart/form-data; boundary=BoUnd\r\n"; want = x + "|" + ct; break; }
        case 12: line = "GET /count"; check_body = false; break;
        case 13: line = "GET /method?q=1"; want = "method /method"; break;
        case 14: line = "GET /cfn"; want = "c function"; break;
        case 15: line = "GET /fixed"; want = "fixed text"; code = 203; break;
        case 22: line = "GET /craw"; want = "c function"; break;
        case 23: line = "GET /rawfix"; want = "raw fixed"; break;
        case 24: line = "GET /tpl?a=" + x; want = "template " + x; break;
        case 16: line = "GET /cls/" + x; want = "class 3 " + x; break;
        case 17: line = "GET /file"; want = "the page"; break;
        case 18: { bool b = choose(S_WORK, 2); line = b ? "GET /redir" : "GET /moved"; code = 302; loc = b ? "/elsewhere" : "/newplace"; check_body = false; break; }
        case 19: line = "GET /inner?a=" + x; want = "hello 42 " + x + "\n"; break;
        case 20: line = "GET /exp/sub/deep.txt"; want = "deep"; break;
        case 21: { std::string as(1 + choose(S_WORK, 5), 'a'); bool ix = choose(S_WORK, 3) == 2; line = ix ? "GET /sub/" : "GET /sub/" + as; want = ix ? "sub index" : "sub " + as + " /sub/" + as; break; }
        }
        if (!body.empty() || line.compare(0, 4, "POST") == 0) hdr += "Content-Length: " + std::to_string(body.size()) + "\r\n";
        c->send(line + " HTTP/1.1\r\n" + hdr + "\r\n" + body, choose(S_NET, SEG_NMODES)); HResp h = c->response(false, liveness_bound, true, line.c_str()); evaluated(); op_done();
        if (h.status != code) violation("wrong-status", "%s answered %d, expected %d", line.c_str(), h.status, code);
        if (maybe_nodesc && h.body != want && fault_enabled("gni_fail") && !h.body.empty() && h.body.back() == '|') want.erase(want.rfind('|') + 1); // the address could not be told
        if (check_body && h.body != want) violation("wrong-response", "%s answered %s, expected %s", line.c_str(), esc(h.body, 200).c_str(), esc(want, 200).c_str());
        if (mime && h.body == "deep" && code == 200 && check_body && h.get("Content-Type") != mimetxt) violation("mime", "%s comes as %s, expected %s", line.c_str(), h.get("Content-Type").c_str(), mimetxt.c_str());
        if (!loc.empty() && h.get("Location") != loc) violation("wrong-response", "%s redirects to %s, expected %s", line.c_str(), h.get("Location").c_str(), loc.c_str());
        if (own && (h.get("X-Own") != "yes" || h.get("Set-Cookie").find("c1=v1") != 0 || h.get("Set-Cookie").find("path=/p") == std::string::npos)) violation("wrong-response", "%s: headers set by the handler are missing", line.c_str());
        if (line.compare(0, 12, "GET /sess?me") == 0 && cookie.empty()) { std::string s = h.get("Set-Cookie"); size_t a = s.find("sessionid="); if (a == std::string::npos) violation("no-session", "no session cookie"); cookie = s.substr(a + 10, s.find(';', a) - a - 10); }
        mix_state(std::hash<std::string>()(line.substr(0, 9))); if (!h.keepalive) { c->c.close(); open = false; }
      }
      if (open) c->c.close();
    }));
    for (auto f : cl) sim::join(f); faults_off(); if (increments && shared["n"] != std::to_string(increments)) violation("lost-update", "%ld updates under the write lock left %s", increments, shared["n"].c_str());
    Fiber *st = spawn("stopper", [&] { o.listenStop(); }, true); if (!join_until(st, now() + liveness_bound) || !join_until(lf, now() + liveness_bound)) violation("stop-stuck", "the stop does not end"); if (ret) violation("listen-result", "listen tells an error after a clean stop"); set_server(true);
  }
  set_server(false); if (tokens) violation("object-leak", "%d objects of the application were never destroyed", tokens); check_clean("after the application ended", ms, fds);
}
