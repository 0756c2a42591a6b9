// P25: the generators (opack, otemplate) and the asset header they share, with runs at the same time, failing disks and killed runs.
#include "http.h"
#include "proc.h"
#include <string.h>
#include <ctype.h>
extern "C" { int opack_main(int, char **); int otemplate_main(int, char **); extern struct onion_dict_t *tags; extern int use_orig_line_numbers; const char *onion_mime_get(const char *); }
using namespace sim;

namespace {
struct Job { bool tmpl; std::vector<std::string> args; std::string out; std::vector<std::string> fns; std::string ref; bool ok = false; };
bool ot_busy; // its globals are one process' own: one at a time
std::string slurp(const std::string &p) { auto i = fs::lookup(p); return i && i->is_reg() ? i->data : std::string(); }
proc::P *run(Job &j, const std::string &out, const std::string &hdr, int die_at) {
  std::vector<std::string> a; a.push_back(j.tmpl ? "/bin/otemplate" : "/bin/opack"); bool late = !j.tmpl && choose(S_WORK, 2);
  if (j.tmpl) { for (auto &x : j.args) a.push_back(x); a.push_back(out); a.push_back("-a"); a.push_back(hdr); }
  else { if (late) for (auto &x : j.args) a.push_back(x); a.push_back("-o"); a.push_back(out); a.push_back("-a"); a.push_back(hdr); if (!late) for (auto &x : j.args) a.push_back(x); }
  if (j.tmpl) { wait_pred([] { return !ot_busy; }, NEVER, "otemplate"); ot_busy = true; tags = nullptr; use_orig_line_numbers = 1; }
  proc::P *p = proc::start(j.tmpl ? otemplate_main : opack_main, a, die_at); bool t = j.tmpl;
  if (!join_until(p->f, now() + liveness_bound)) violation("no-progress", "%s does not end; %s", a[0].c_str(), blocked_report().c_str());
  if (t) { ot_busy = false; poke(); }
  op_done(); return p;
}
std::string ident(std::string s) { for (auto &c : s) if (!isalnum((unsigned char)c)) c = '_'; return s; }
int declared(const std::string &h, const std::string &fn) { int n = 0; auto id = [](char c) { return isalnum((unsigned char)c) || c == '_'; }; for (size_t p = 0; (p = h.find(fn, p)) != std::string::npos; p += fn.size()) if ((!p || !id(h[p - 1])) && p + fn.size() < h.size() && (h[p + fn.size()] == '(' || h[p + fn.size()] == ';')) n++; return n; }
void check_header(const std::string &h, const std::vector<std::string> &want, const char *when) {
  evaluated(); for (auto &f : want) { int n = declared(h, f); if (n != 1) violation(n ? "declared-twice" : "declaration-lost", "%s the asset header (%zu bytes) declares %s %d times", when, h.size(), f.c_str(), n); }
  int lv = 0, min = 0; size_t p = 0; while (p < h.size()) { size_t e = h.find('\n', p); if (e == std::string::npos) e = h.size(); std::string l = h.substr(p, e - p); p = e + 1; size_t k = l.find_first_not_of(" \t"); if (k == std::string::npos || l[k] != '#') continue; k = l.find_first_not_of(" \t", k + 1); if (k == std::string::npos) continue; if (l.compare(k, 2, "if") == 0) lv++; else if (l.compare(k, 5, "endif") == 0) { lv--; min = std::min(min, lv); } }
  if (lv || min) violation("broken-header", "%s the asset header is not whole: %d conditions are open\n%s", when, lv, esc(h, 600).c_str());
  int br = 0; for (char c : h) br += c == '{' ? 1 : c == '}' ? -1 : 0; if (br) violation("broken-header", "%s the asset header is not whole: %d braces are open", when, br);
}
std::string text(size_t n) { static const char *t[] = {"Hello ", "<b>x</b>\n", "a \"quoted\" word ", "100%d %s\n", "\\back\\slash ", "{ one } ", "\ttab\r\n", "?""?/ ", "\xc3\xa9\xff\x01 1f ", "{# no #}"}; std::string s; while (s.size() < n) s += t[choose(S_WORK, 10)]; return s; }
std::string tmpl(int i, int depth) {
  std::string s; int n = 1 + choose(S_WORK, 4);
  for (int k = 0; k < n; k++) switch (depth > 2 ? choose(S_WORK, 3) : choose(S_WORK, 8)) {
    case 0: case 1: s += text(choose(S_WORK, 120)); break; case 2: s += choose(S_WORK, 2) ? "{{ title }}" : "{{ user.name }}"; break;
    case 3: s += "{% for x in list %}" + tmpl(i, depth + 1) + "{% endfor %}"; break; case 4: s += "{% if title %}" + tmpl(i, depth + 1) + (choose(S_WORK, 2) ? "{% else %}" + tmpl(i, depth + 1) : "") + "{% endif %}"; break;
    case 5: s += "{% if title == \"x\" %}" + tmpl(i, depth + 1) + "{% endif %}"; break; case 6: s += "{% include \"other.html\" %}"; break; case 7: if (!depth) s += "{% block b" + std::to_string(k) + " %}" + tmpl(i, depth + 1) + "{% endblock %}"; break;
  }
  return s;
}
Job job(int i, bool big) {
  Job j; j.tmpl = !big && choose(S_WORK, 3) == 2; std::string n = std::to_string(i);
  if (j.tmpl) { std::string base = "t" + n + (choose(S_WORK, 2) ? "-page" : "") + ".html", in = "/src/" + base; fs::put_file(in, tmpl(i, 0)); if (choose(S_WORK, 3) == 2) j.args.push_back("-n"); j.args.insert(j.args.begin(), in); j.fns.push_back(ident(base)); return j; }
  int k = big ? 1 : 1 + choose(S_WORK, 3); static const char *ext[] = {".txt", ".png", "", ".min.js", ".c~"};
  for (int a = 0; a < k; a++) {
    std::string base = "f" + n + "_" + std::to_string(a); if (big || choose(S_WORK, 3) == 2) { // a directory
      std::string d = "/src/d" + n + "-" + std::to_string(a), fn = "opack_" + ident(fs::real(d).empty() ? d.substr(5) : d.substr(5)); fs::put_dir(d); int nf = big ? 1 + choose(S_WORK, 140) : choose(S_WORK, 5);
      for (int q = 0; q < nf; q++) { std::string e = ext[choose(S_WORK, 4)], f = "file" + std::to_string(q) + e; fs::put_file(d + "/" + f, rand_bytes(S_WORK, choose(S_WORK, big ? 40 : 900))); j.fns.push_back(fn + "_" + ident(f)); }
      if (choose(S_WORK, 2)) fs::put_file(d + "/.hidden", "x"); if (choose(S_WORK, 2)) fs::put_file(d + "/old~", "x");
      if (!big && choose(S_WORK, 3) == 2) { fs::put_file(d + "/sub/in.txt", rand_bytes(S_WORK, choose(S_WORK, 300))); j.fns.push_back(fn + "_sub_in_txt"); j.fns.push_back(fn + "_sub"); }
      j.args.push_back(d); j.fns.push_back(fn);
    } else { std::string f = base + ext[choose(S_WORK, 4)]; fs::put_file("/src/" + f, rand_bytes(S_WORK, choose(S_WORK, choose(S_WORK, 5) ? 2000 : 9000))); j.args.push_back("/src/" + f); j.fns.push_back("opack_" + ident(f)); }
  }
  return j;
}
}

static void generators(bool faults, bool kills) {
  base_setup(true); quiet_log(); fs::put_dir("/src"); fs::put_dir("/b"); fs::put_dir("/ref"); onion_mime_get("a.txt"); ot_busy = false;
  std::vector<Job> jobs; int n = 1 + choose(S_WORK, 5); for (int i = 0; i < n; i++) jobs.push_back(job(i, false));
  const std::string H = "/b/assets.h"; std::vector<std::string> have;
  describe("%d generators%s%s", n, faults ? ", failing disk" : "", kills ? ", killed" : "");
  for (int i = 0; i < n; i++) { // each one alone, as reference
    std::string d = "/ref/" + std::to_string(i); fs::put_dir(d); auto p = run(jobs[i], d + "/out.c", d + "/assets.h", -1); jobs[i].ref = slurp(d + "/out.c");
    if (p->rc != 0 || jobs[i].ref.empty()) violation("failed", "%s %s ended with %d without any failure", p->name.c_str(), jobs[i].args[0].c_str(), p->rc); check_header(slurp(d + "/assets.h"), jobs[i].fns, "after one run");
  }
  int st = choose(S_WORK, 4); // the header before: none, empty, small, big
  if (st == 1) fs::put_file(H, ""); if (st >= 2) { Job j = job(100, st == 3); auto p = run(j, "/b/old.c", H, -1); if (p->rc) violation("failed", "%s ended with %d without any failure", p->name.c_str(), p->rc); have = j.fns;
    if (choose(S_WORK, 2)) { std::string h = slurp(H); size_t e = have.size() ? h.find(have[0]) : std::string::npos; if (e != std::string::npos) { e = h.find('\n', e) + 1; h.insert(e, "extern int the_users_own;\n"); fs::put_file(H, h); have.push_back("the_users_own"); } } check_header(slurp(H), have, "at first"); }
  if (faults) { static const unsigned q[] = {0, 0, 20, 120}; for (const char *f : {"disk_read_eio", "disk_write_eio", "disk_enospc", "disk_open_eio", "opendir_fail", "rename_fail", "disk_open_fail"}) fault_enable(f, q[choose(S_FAULT, 4)]); }
  static const unsigned r[] = {0, 100, 500}; fault_enable("disk_short_read", r[choose(S_FAULT, 3)]); fault_enable("disk_short_write", r[choose(S_FAULT, 3)]);
  std::vector<Fiber *> fb; bool at_once = choose(S_WORK, 4) != 3; int shared = choose(S_WORK, 6) == 5 ? 2 : 1;
  auto one = [&](int i, int rep) {
    for (int k = 0; k < rep; k++) {
      if (choose(S_WORK, 2)) sleep_for(choose(S_WORK, 3000) * US); uint64_t f0 = faults_fired(); Job &j = jobs[i]; std::string out = "/b/out" + std::to_string(i) + ".c"; int die = kills && choose(S_WORK, 2) ? (int)choose(S_WORK, choose(S_WORK, 2) ? 12 : 60) : -1;
      auto p = run(j, out, H, die); evaluated();
      if (p->killed || p->rc) { if (!p->killed && faults_fired() == f0) violation("failed", "%s ended with %d, but nothing failed", p->name.c_str(), p->rc); count(p->killed ? "gen.killed" : "gen.failed"); }
      else { std::string o = slurp(out); if (o != j.ref) violation("wrong-output", "%s ended with success, but its output (%zu bytes) is not the one of a run that is alone (%zu)", p->name.c_str(), o.size(), j.ref.size()); j.ok = true; for (auto &x : j.fns) if (std::find(have.begin(), have.end(), x) == have.end()) have.push_back(x); count("gen.ok"); }
      std::string h = slurp(H); if (h.size() || have.size()) check_header(h, have, "after a run");
    }
  };
  if (at_once) { for (int i = 0; i < n; i++) { int rep = shared; fb.push_back(spawn("make" + std::to_string(i), [&, i, rep] { one(i, rep); })); } for (auto f : fb) join(f); } else for (int i = 0; i < n; i++) one(i, shared);
  faults_off(); kills = false;
  for (int i = 0; i < n; i++) if (!jobs[i].ok || choose(S_WORK, 4) == 3) one(i, 1);
  for (auto &j : jobs) if (!j.ok) violation("failed", "a generator fails with nothing failing");
  check_header(slurp(H), have, "in the end"); mix_state(std::hash<std::string>()(slurp(H)));
}
SCENARIO(P25, together, 3) { generators(false, false); }
SCENARIO(P25, failing, 2) { generators(true, false); }
SCENARIO(P25, killed, 2) { generators(false, true); }
