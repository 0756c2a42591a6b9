// P24: compiled templates and packed files, as made by the real generators (GEN, at build time), served to many at once.
#include "http.h"
#include "proc.h"
#include <string.h>
#include <dirent.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>
#include <algorithm>
extern "C" {
#include <onion/url.h>
int opack_main(int, char **); int otemplate_main(int, char **); void i18n_plugin_init(); extern struct onion_dict_t *tags; extern int use_orig_line_numbers; const char *onion_mime_get(const char *);
struct sim_page { const char *name; void (*fn)(onion_dict *, onion_response *); int (*tmpl)(onion_dict *, onion_request *, onion_response *); onion_handler *(*handler)(onion_dict *); const char *src; unsigned len; };
struct sim_pack { const char *path; int (*fn)(void *, onion_request *, onion_response *); const unsigned *len; const char *data; unsigned size; };
extern __attribute__((weak)) const char *sim_pages_error; extern __attribute__((weak)) sim_page sim_pages[]; extern __attribute__((weak)) unsigned sim_npages, sim_npacks; extern __attribute__((weak)) sim_pack sim_packs[];
extern __attribute__((weak)) int (*sim_packdir)(void *, onion_request *, onion_response *);
// the only plugin there is
void *__wrap_dlopen(const char *f, int) { size_t n = f ? strlen(f) : 0; return n >= 10 && !strcmp(f + n - 10, "libi18n.so") ? (void *)&i18n_plugin_init : nullptr; }
void *__wrap_dlsym(void *, const char *s) { return !strcmp(s, "plugin_init") ? (void *)&i18n_plugin_init : nullptr; }
int __wrap_dlclose(void *) { return 0; }
char *__wrap_dlerror() { return (char *)"not found"; }
}
using namespace sim;

// ---- the generation, a step of the build: reads $ONIONSIM_GEN, writes $ONIONSIM_GEN/out
static void load_tree(const std::string &host, const std::string &to) {
  DIR *d = ::opendir(host.c_str()); if (!d) return; fs::put_dir(to); std::vector<std::string> n; while (dirent *e = ::readdir(d)) if (e->d_name[0] != '.') n.push_back(e->d_name); ::closedir(d); std::sort(n.begin(), n.end());
  for (auto &x : n) { struct stat st; ::stat((host + "/" + x).c_str(), &st); if (S_ISDIR(st.st_mode)) load_tree(host + "/" + x, to + "/" + x); else { std::ifstream f(host + "/" + x, std::ios::binary); std::stringstream s; s << f.rdbuf(); fs::put_file(to + "/" + x, s.str()); } }
}
static std::vector<std::string> names(const std::string &d) { std::set<std::string> o; for (auto &p : fs::list(d)) { std::string r = p.compare(0, d.size() + 1, d + "/") ? p : p.substr(d.size() + 1); if (r.size()) o.insert(r.substr(0, r.find('/'))); } return std::vector<std::string>(o.begin(), o.end()); }
SCENARIO(GEN, gen, 1) {
  const char *dir = getenv("ONIONSIM_GEN"); if (!dir) violation("gen", "no directory"); std::string D = dir;
  quiet_log(); load_tree(D + "/t", "/t"); load_tree(D + "/p", "/p"); { std::ifstream f(D + "/mime.types"); std::stringstream s; s << f.rdbuf(); fs::put_file("/etc/mime.types", s.str()); } fs::put_dir("/out"); onion_mime_get("a.txt");
  auto go = [&](int (*m)(int, char **), std::vector<std::string> a) { tags = nullptr; use_orig_line_numbers = 1; proc::P *p = proc::start(m, a, -1); if (!join_until(p->f, now() + 3600 * SEC)) violation("gen", "%s does not end", a[1].c_str()); if (p->rc) violation("gen", "%s %s ended with %d", a[0].c_str(), a[1].c_str(), p->rc); };
  int i = 0; for (auto &n : names("/t")) { std::vector<std::string> a = {"/bin/otemplate", "/t/" + n, "/out/t_" + n + ".c", "-a", "/out/assets.h"}; if (i++ % 3 == 2) a.push_back("-n"); go(otemplate_main, a); }
  std::vector<std::string> a = {"/bin/opack", "-o", "/out/packed.c", "-a", "/out/assets.h"}; for (auto &n : names("/p")) a.push_back("/p/" + n); go(opack_main, a);
  for (auto &n : names("/out")) { auto f = fs::lookup("/out/" + n); std::ofstream o(D + "/out/" + n, std::ios::binary); o << f->data; if (!o.flush()) violation("gen", "can not write %s", n.c_str()); }
  evaluated(); op_done();
}

// ---- reference: what the text of a template means
namespace {
struct Val { bool dict = false; std::string s; std::map<std::string, Val> m; };
struct Node { enum K { TEXT, VAR, IF, FOR, INCLUDE, EXTENDS, BLOCK, TRANS } k; std::string s; std::vector<std::string> a; std::vector<bool> lit; std::vector<Node> body, other; bool has_else = false; };
struct Tmpl { std::vector<Node> n; bool blocks = false; };
struct Lex { enum { TEXT, VAR, TAG } k; std::string s; };
std::vector<Lex> lex(const std::string &t) {
  std::vector<Lex> o; std::string cur; size_t p = 0;
  while (p < t.size()) {
    std::string two = t.substr(p, 2); const char *end = two == "{{" ? "}}" : two == "{%" ? "%}" : two == "{#" ? "#}" : nullptr;
    if (!end) { cur += t[p++]; continue; }
    size_t e = t.find(end, p + 2); if (e == std::string::npos) break; if (cur.size()) o.push_back({Lex::TEXT, cur}); cur.clear();
    if (two == "{{") o.push_back({Lex::VAR, t.substr(p + 2, e - p - 2)}); else if (two == "{%") o.push_back({Lex::TAG, t.substr(p + 2, e - p - 2)}); p = e + 2;
  }
  if (cur.size()) o.push_back({Lex::TEXT, cur}); return o;
}
std::string nospace(const std::string &s) { std::string o; for (char c : s) if (c != ' ') o += c; return o; }
void words(const std::string &s, Node &n) { size_t i = 0; while (i < s.size()) { if (isspace((unsigned char)s[i])) { i++; continue; } if (s[i] == '"') { size_t e = s.find('"', i + 1); n.a.push_back(s.substr(i + 1, e - i - 1)); n.lit.push_back(true); i = e + 1; } else { size_t e = i; while (e < s.size() && !isspace((unsigned char)s[e])) e++; n.a.push_back(s.substr(i, e - i)); n.lit.push_back(false); i = e; } } }
std::string parse(const std::vector<Lex> &l, size_t &i, std::vector<Node> &out, Tmpl &t) { // until an end tag, which is returned
  for (; i < l.size(); i++) {
    Node n; if (l[i].k == Lex::TEXT) { n.k = Node::TEXT; n.s = l[i].s; out.push_back(n); continue; } if (l[i].k == Lex::VAR) { n.k = Node::VAR; n.s = nospace(l[i].s); out.push_back(n); continue; }
    words(l[i].s, n); std::string w = n.a[0]; if (w == "load") continue; if (w == "endif" || w == "endfor" || w == "endblock" || w == "else") return w;
    if (w == "include") n.k = Node::INCLUDE; else if (w == "extends") n.k = Node::EXTENDS; else if (w == "trans") n.k = Node::TRANS;
    else { n.k = w == "if" ? Node::IF : w == "for" ? Node::FOR : Node::BLOCK; if (n.k == Node::BLOCK) t.blocks = true; i++; std::string e = parse(l, i, n.body, t); if (e == "else") { n.has_else = true; i++; parse(l, i, n.other, t); } }
    out.push_back(n);
  }
  return "";
}
std::map<std::string, Tmpl> pages;
const Val *find(const Val &c, const std::string &path) { const Val *v = &c; size_t p = 0; for (;;) { size_t e = path.find('.', p); std::string k = path.substr(p, e == std::string::npos ? e : e - p); if (!v->dict) return nullptr; auto it = v->m.find(k); if (it == v->m.end()) return nullptr; v = &it->second; if (e == std::string::npos) return v; p = e + 1; } }
std::string html(const std::string &s) { std::string o; for (char c : s) switch (c) { case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break; case '"': o += "&quot;"; break; case '\'': o += "&#39;"; break; default: o += c; } return o; }
typedef std::map<std::string, const Node *> Blocks;
void collect(const std::vector<Node> &n, Blocks &b) { for (auto &x : n) { if (x.k == Node::BLOCK) b.insert({x.a[1], &x}); collect(x.body, b); collect(x.other, b); } }
std::string page(const std::string &name, const Val &c, Blocks b);
std::string render(const std::vector<Node> &ns, const Val &c, Blocks &b) {
  std::string o;
  for (auto &n : ns) switch (n.k) {
    case Node::TEXT: o += n.s; break; case Node::TRANS: o += n.a[1]; break;
    case Node::VAR: { auto v = find(c, n.s); if (v && !v->dict) o += html(v->s); break; }
    case Node::IF: {
      bool t; if (n.a.size() == 2) { auto v = find(c, n.a[1]); t = v && !v->dict && v->s != "false"; }
      else { auto val = [&](int k) { if (n.lit[k]) return n.a[k]; auto v = find(c, n.a[k]); return v ? v->s : std::string(); }; int d = strcmp(val(1).c_str(), val(3).c_str()); const std::string &op = n.a[2]; t = op == "==" ? d == 0 : op == "!=" ? d != 0 : op == "<" ? d < 0 : op == "<=" ? d <= 0 : op == ">" ? d > 0 : d >= 0; }
      o += render(t ? n.body : n.other, c, b); break; }
    case Node::FOR: { auto v = find(c, n.a[3]); if (v && v->dict) { Val in = c; for (auto &x : v->m) { in.m[n.a[1]] = x.second; o += render(n.body, in, b); } } break; }
    case Node::INCLUDE: o += page(n.a[1], c, b); break;
    case Node::BLOCK: o += render(b[n.a[1]]->body, c, b); break;
    case Node::EXTENDS: o += page(n.a[1], c, b); return o;
  }
  return o;
}
std::string page(const std::string &name, const Val &c, Blocks b) { Tmpl &t = pages[name]; collect(t.n, b); return render(t.n, c, b); }

// ---- contexts
std::string word() { static const char *w[] = {"x", "10", "9", "false", "a b", "", "<b>\"it's\"</b> & co", "50%", "\xc3\xa9", "%s%n", "zebra"}; int k = choose(S_WORK, 14); if (k < 11) return w[k]; std::string s = rand_bytes(S_WORK, choose(S_WORK, k == 13 ? 3000 : 40)); for (auto &c : s) if (!c) c = '0'; return s; }
Val str(const std::string &s) { Val v; v.s = s; return v; }
Val dct() { Val v; v.dict = true; return v; }
Val item(int depth) { if (depth > 2 || choose(S_WORK, 2)) return str(word()); Val v = dct(); if (choose(S_WORK, 4)) v.m["name"] = str(word()); if (choose(S_WORK, 4)) { Val s = dct(); if (choose(S_WORK, 3)) s.m["v"] = str(word()); for (int i = choose(S_WORK, 3); i > 0; i--) s.m["s" + std::to_string(i)] = item(depth + 1); v.m["sub"] = s; } return v; }
Val list() { Val v = dct(); for (int i = choose(S_WORK, 6); i > 0; i--) v.m[rand_bytes(S_WORK, 1 + choose(S_WORK, 3), "abAB019_z")] = item(0); return v; }
Val context() {
  Val c = dct(); c.m["title"] = str(word()); c.m["count"] = str(std::to_string(choose(S_WORK, 100))); c.m["empty"] = str(""); Val u = dct(); u.m["name"] = str(word()); if (choose(S_WORK, 4)) u.m["list"] = list(); c.m["user"] = u; c.m["marker"] = str("none");
  Val b = dct(); if (choose(S_WORK, 3)) b.m["c"] = str(word()); if (choose(S_WORK, 3)) b.m["d"] = item(0); Val a = dct(); a.m["b"] = b; if (choose(S_WORK, 4)) c.m["a"] = a; if (choose(S_WORK, 4)) c.m["list"] = list(); if (choose(S_WORK, 4)) c.m["rows"] = list(); if (choose(S_WORK, 2)) c.m["flag"] = str(word()); return c;
}
onion_dict *build(const Val &c, bool dup) { onion_dict *d = onion_dict_new(); for (auto &x : c.m) if (x.second.dict) onion_dict_add(d, x.first.c_str(), build(x.second, dup), (dup ? OD_DUP_KEY : 0) | OD_DICT | OD_FREE_VALUE); else onion_dict_add(d, x.first.c_str(), x.second.s.c_str(), dup ? OD_DUP_ALL : 0); return d; }
std::vector<Val> ctxs;
// /t/PAGE/CONTEXT/HOW: 0 a context, 1 without one, 2 the function itself with a context, 3 and without one
int templ(void *, onion_request *req, onion_response *res) {
  int p = 0, k = 0, how = 0; if (sscanf(onion_request_get_path(req), "%d/%d/%d", &p, &k, &how) != 3) return OCS_NOT_PROCESSED;
  const char *id = onion_request_get_header(req, "X-Id"); onion_dict *d = nullptr; if (how == 0 || how == 2) { d = build(ctxs[k], (p + k) % 2); onion_dict_add(d, "marker", id ? id : "?", OD_DUP_VALUE | OD_REPLACE); }
  if (how < 2) return sim_pages[p].tmpl(d, req, res); sim_pages[p].fn(d, res); if (d) onion_dict_free(d); return OCS_PROCESSED;
}
}

static void serve(bool bad, bool same = false) {
  base_setup(true); warm_up(); net_faults();
  if (!&sim_npages || sim_pages_error) { evaluated(); op_done(); violation("not-generated", "the templates or the packed files could not be compiled: %s", &sim_npages ? sim_pages_error : "?"); }
  pages.clear(); for (unsigned i = 0; i < sim_npages; i++) { Tmpl &t = pages[sim_pages[i].name]; auto l = lex(std::string(sim_pages[i].src, sim_pages[i].len)); size_t p = 0; parse(l, p, t.n, t); }
  for (unsigned i = 0; i < sim_npacks; i++) if (*sim_packs[i].len != sim_packs[i].size) violation("wrong-length", "the packed %s says %u bytes, it has %u", sim_packs[i].path, *sim_packs[i].len, sim_packs[i].size);
  ctxs.clear(); int nk = 1 + choose(S_WORK, 3); for (int i = 0; i < nk; i++) ctxs.push_back(context()); Val shared = context();
  SrvCfg sc = rand_srv(same); MemSnapshot ms = mem_snapshot(); int fds = fd_open_count();
  Srv s; s.create(sc); onion_handler_free(onion_get_root_handler(s.o)); onion_set_root_handler(s.o, nullptr); onion_url *u = onion_root_url(s.o);
  onion_url_add(u, "^t/", (void *)templ); onion_url_add(u, "^s/", (void *)sim_packdir);
  std::vector<int> own; const int nh = same ? 16 : 4; std::vector<int> wb; for (unsigned i = 0; i < sim_npages; i++) if (pages[sim_pages[i].name].blocks) wb.push_back(i);
  for (int i = 0; i < nh; i++) own.push_back(same ? wb[choose(S_WORK, wb.size())] : choose(S_WORK, sim_npages)); for (int i = 0; i < nh; i++) onion_url_add_handler(u, ("^h" + std::to_string(i) + "$").c_str(), sim_pages[own[i]].handler(build(shared, true)));
  std::vector<int> pk; for (int i = 0; i < 6; i++) pk.push_back(choose(S_WORK, sim_npacks)); for (int i = 0; i < 6; i++) onion_url_add(u, ("f" + std::to_string(i)).c_str(), (void *)sim_packs[pk[i]].fn);
  s.start(); int nc = 1 + same + choose(S_WORK, 5); describe("%s/%d threads, %d clients, %d contexts", mode_name(sc.mode), sc.threads, nc, nk);
  std::vector<Fiber *> cl;
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    Conn *c = nullptr; bool open = false; int nr = same ? nh : 2 + choose(S_WORK, 7);
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; if (!c->open(sc.port, sc.https, now() + liveness_bound)) violation("refused", "connection refused"); open = true; }
      std::string id = std::to_string(i) + "." + std::to_string(k), path, want, mime, lang, what; int st = 200, w = same ? 6 : choose(S_WORK, 10);
      static const char *al[] = {"", "es", "es-ES,en;q=0.5", "en;q=0.1", "ca,fr", "*"}; int la = choose(S_WORK, 6); if (la) lang = std::string("Accept-Language: ") + al[la] + "\r\n";
      if (w < 6) {
        int p = choose(S_WORK, sim_npages), ck = choose(S_WORK, nk), how = choose(S_WORK, 8); how = how < 5 ? 0 : how - 4; path = "/t/" + std::to_string(p) + "/" + std::to_string(ck) + "/" + std::to_string(how); what = sim_pages[p].name;
        Val c = how == 0 || how == 2 ? ctxs[ck] : dct(); if (c.m.size()) { c.m["marker"] = str(id); if (how == 0) { std::string L = la ? al[la] : "C"; c.m["LANG"] = str(L.substr(0, L.find_first_of("-;,"))); } }
        if (how == 1 || how == 3) c = dct(); // comparisons with what is not there are not told apart
        if ((how == 1 || how == 3) && std::string(sim_pages[p].src, sim_pages[p].len).find('"') != std::string::npos) { path = "/t/" + std::to_string(p = 0) + "/0/1"; bool ok = false; for (unsigned q = 0; q < sim_npages; q++) { std::string n = sim_pages[q].name; if (n == "empty.html" || n == "brace.html" || n == "0num.html" || n == "long.html") { if (!ok || choose(S_WORK, 3) == 0) { p = q; ok = true; } } } path = "/t/" + std::to_string(p) + "/0/" + std::to_string(how); what = sim_pages[p].name; }
        want = page(sim_pages[p].name, c, Blocks());
      } else if (w == 6) { int q = same ? k : choose(S_WORK, nh); path = "/h" + std::to_string(q); what = sim_pages[own[q]].name; want = page(what, shared, Blocks()); }
      else if (w == 7) { int q = choose(S_WORK, 6); path = "/f" + std::to_string(q); auto &x = sim_packs[pk[q]]; what = x.path; want.assign(x.data, x.size); }
      else if (w == 8) { int q = choose(S_WORK, sim_npacks); what = sim_packs[q].path; if (what.compare(0, 7, "static/")) { what = "static/n3.txt"; for (q = 0; what != sim_packs[q].path;) q++; } path = "/s/" + what.substr(7); want.assign(sim_packs[q].data, sim_packs[q].size); }
      else { static const char *no[] = {"/s/nope", "/s/js", "/s/n1.txt/", "/s/js/none", "/s/", "/s/js/", "/s/n1.tx", "/s/n1.txtx", "/s/jsx/app.min.js", "/s/app.min.js", "/s/js/deep/q"}; path = no[choose(S_WORK, 11)]; st = 404; }
      if (w == 7 || w == 8) { static const char *m[][2] = {{".html", "text/html"}, {".txt", "text/plain"}, {".png", "image/png"}, {".js", "application/javascript"}, {".css", "text/css"}}; for (auto &e : m) if (what.size() > strlen(e[0]) && what.compare(what.size() - strlen(e[0]), strlen(e[0]), e[0]) == 0) mime = e[1]; }
      bool head = choose(S_WORK, 8) == 7, go = bad && choose(S_WORK, 4) == 3; std::string ctx = (head ? "HEAD " : "GET ") + path + " (" + what + ")"; tracef("%s", ctx.c_str());
      std::string raw = (head ? "HEAD " : "GET ") + path + " HTTP/1.1\r\nX-Id: " + id + "\r\n" + lang + "\r\n";
      if (go) { int how = choose(S_NET, 3); c->send(raw, SEG_WHOLE); if (how) c->c.wait_rx([&] { return c->rx().size() > c->off + (how == 2 ? 300u : 0u) || c->eof(); }, now() + SEC); if (choose(S_NET, 2)) c->c.reset(); else c->c.close(); open = false; count("client.vanished"); continue; }
      c->send(raw, choose(S_NET, SEG_NMODES)); HResp h = c->response(head, liveness_bound, true, ctx.c_str()); evaluated(); op_done(); mix_state(w * 1000 + h.status);
      if (h.status != st) violation("wrong-status", "%s: answered %d", ctx.c_str(), h.status);
      if (st == 200) {
        if (!head && h.body != want) { size_t d = 0; while (d < want.size() && d < h.body.size() && want[d] == h.body[d]) d++; violation("wrong-page", "%s: differs at byte %zu of %zu (got %zu): wanted '%s', got '%s'", ctx.c_str(), d, want.size(), h.body.size(), esc(want.substr(d > 10 ? d - 10 : 0, 60)).c_str(), esc(h.body.substr(d > 10 ? d - 10 : 0, 60)).c_str()); }
        if (w == 7 || w == 8) { if (h.get("Content-Length") != std::to_string(want.size())) violation("wrong-length", "%s: length '%s', it has %zu", ctx.c_str(), h.get("Content-Length").c_str(), want.size()); if (mime.size() && h.get("Content-Type") != mime) violation("wrong-type", "%s: type '%s'", ctx.c_str(), h.get("Content-Type").c_str()); count("pages.packed"); } else count("pages.rendered");
      }
      if (!h.keepalive || sc.mode == O_ONE_LOOP) { c->c.close(); open = false; }
    }
    if (open) c->c.close();
  }));
  for (auto f : cl) join(f);
  faults_off(); s.stop(); s.destroy(); check_clean("after the server was freed", ms, fds);
}
SCENARIO(P24, pages, 3) { serve(false); }
SCENARIO(P24, vanish, 1) { serve(true); }
SCENARIO(P24, shared, 2) { serve(false, true); } // the same pages and their contexts, by all at the same time, from the first request
