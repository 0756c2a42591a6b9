// P02: uploaded content reaches the handler intact or not at all, whatever the disk and the connection do; temporary files never outlive their request.
#include "http.h"
#include <string.h>
using namespace sim;

namespace {
void disk_faults() {
  static const unsigned r[] = {0, 30, 150, 400};
  static const char *names[] = {"disk_write_eio", "disk_enospc", "disk_short_write", "mkstemp_fail"};
  for (auto n : names) if (choose(S_FAULT, 2)) fault_enable(n, r[choose(S_FAULT, 4)]);
  if (choose(S_FAULT, 5) == 4) fs::disk_left = choose(S_FAULT, 30000);
}
}
static void uploads(bool faults) {
  bool conc = choose(S_WORK, 3) == 2;
  warm_up();
  base_setup(conc); net_faults();
  SrvCfg sc = rand_srv(); sc.max_post = 1 << 20; sc.max_file = 8 << 20;
  static const int to[] = {3600 * 1000, 5000}; sc.timeout = to[choose(S_WORK, 2)]; if (sc.timeout == 5000) max_stall_total = 1 * SEC;
  MemSnapshot ms = mem_snapshot(); int fds0 = fd_open_count();
  Srv s; s.create(sc);
  struct Seen { Obs o; int n = 0; std::vector<std::string> paths; };
  std::map<std::string, Seen> seen; std::set<std::string> in_handler;
  s.handler = [&](onion_request *req, onion_response *res) {
    const char *idh = onion_request_get_header(req, "X-Id"); std::string id = idh ? idh : "?";
    Obs o = observe(req); auto &x = seen[id]; x.o = o; x.n++;
    for (auto &p : dict_pairs(onion_request_get_file_dict(req))) {
      x.paths.push_back(p.second);
      if (!in_handler.insert(p.second).second) violation("shared-file", "two requests share the temporary file %s", p.second.c_str());
    }
    if (choose(S_WORK, 3) == 2) { onion_response_printf(res, "part"); onion_response_flush(res); }
    yield_sync("handler");
    for (auto &p : x.paths) { auto i = fs::lookup(p); if (!i) violation("file-vanished", "uploaded file %s disappeared while its handler runs", p.c_str()); in_handler.erase(p); }
    onion_response_printf(res, "ok %s", id.c_str());
    return OCS_PROCESSED;
  };
  s.start();
  if (faults) disk_faults();
  GenCfg g; g.post_url = false; g.post_raw = choose(S_WORK, 4) == 3; g.other = false; g.folded = false; static const size_t mb[] = {300, 5000, 60000}; g.max_body = mb[choose(S_WORK, 3)]; g.max_headers = 2;
  int nc = conc ? 1 + choose(S_WORK, 4) : 1;
  std::vector<Fiber *> cl;
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    int nr = 1 + choose(S_WORK, 4); Conn *c = nullptr; bool open = false;
    for (int k = 0; k < nr; k++) {
      if (!open) { c = new Conn; if (!c->open(sc.port, false)) violation("refused", "connection refused while listening"); open = true; }
      std::string id = std::to_string(i) + "." + std::to_string(k);
      HReq r = gen_request(g, id, sc.mode != O_ONE_LOOP && choose(S_WORK, 4));
      if (i == 0 && k == 0) describe("%s %d clients, %s: %s", mode_name(sc.mode), nc, faults ? "disk faults" : "no disk faults", esc(r.raw, 200).c_str());
      std::string ctx = "request " + esc(r.raw, 300);
      int seg = choose(S_NET, SEG_NMODES); if (r.raw.size() > 5000 && seg == SEG_BYTES) seg = SEG_RANDOM;
      int cut = choose(S_FAULT, 6); // 5: drop the connection in the middle of the upload
      if (cut == 5 && r.raw.size() > 1) {
        size_t n = 1 + choose(S_FAULT, r.raw.size() - 1); count("fault.upload_cut"); ctx += " cut after " + std::to_string(n) + " bytes";
        c->send(r.raw.substr(0, n), seg); sleep_for(choose(S_FAULT, 30) * MS);
        int how = choose(S_FAULT, 3); if (how == 0) c->c.reset(); else if (how == 1) c->c.close(); else { c->c.shutdown_wr(); c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound); if (!c->eof()) violation("not-closed", "%s: connection not closed after the client stopped sending", ctx.c_str()); c->c.close(); }
        // a body cut short never reaches the handler (the multipart terminator may be complete though)
        if (n < r.raw.size() - 4 && r.has_body && seen.count(id)) { std::string d = obs_diff(r.exp, seen[id].o); if (!d.empty()) violation("partial-upload", "handler got an incomplete upload: %s: %s", d.c_str(), ctx.c_str()); }
        open = false; op_done(); evaluated(); continue;
      }
      c->send(r.raw, seg);
      HResp h = c->response(r.head, liveness_bound, !faults, ctx.c_str());
      evaluated(); op_done();
      if (!h.complete) {
        if (!c->eof()) violation("no-progress", "%s: neither answered nor closed %.0f s later; threads: %s", ctx.c_str(), liveness_bound / 1e9, blocked_report().c_str());
        count("upload.refused"); open = false;
        if (faults_fired() == 0 && fs::disk_left < 0) violation("no-response", "%s: refused although the disk never failed", ctx.c_str());
        continue;
      }
      bool reached = seen.count(id);
      if (reached) {
        std::string d = obs_diff(r.exp, seen[id].o);
        if (!d.empty()) violation("upload-altered", "%s: %s", d.c_str(), ctx.c_str());
        if (seen[id].n != 1) violation("duplicate-request", "%s reached the handler %d times", ctx.c_str(), seen[id].n);
      } else if (h.status < 400) violation("lost-request", "%s answered %d without reaching the handler", ctx.c_str(), h.status);
      mix_state(std::hash<std::string>()(r.raw));
      if (!r.keepalive || !h.keepalive) {
        if (!c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound)) violation("not-closed", "connection announced as closing stays open");
        open = false;
      }
      // shortly after the response its temporary files are gone
      if (choose(S_WORK, 2)) { std::vector<std::string> paths = seen[id].paths; if (!wait_pred([&] { for (auto &p : paths) if (fs::lookup(p)) return false; return true; }, now() + liveness_bound, "unlink")) violation("tempfile-leak", "temporary file of %s still exists %.0f s after its response", ctx.c_str(), liveness_bound / 1e9); evaluated(); }
    }
    if (c) c->c.close();
  }));
  for (auto f : cl) join(f);
  faults_off(); fs::disk_left = -1;
  // quiescence: every connection gone, so must be its files and descriptors
  if (!wait_pred([&] { return server_open_socks() == 0; }, now() + liveness_bound, "connections")) violation("fd-leak", "connections whose client left are still open: %s", fd_list().c_str());
  wait_pred([&] { return fs::list("/tmp").empty(); }, now() + liveness_bound, "temporary files");
  auto tmp = fs::list("/tmp"); evaluated();
  if (!tmp.empty()) violation("tempfile-leak", "%zu temporary files left when no request is in progress: %s", tmp.size(), tmp[0].c_str());
  // and a last upload works
  { Conn *c = new Conn; if (!c->open(sc.port, false)) violation("refused", "connection refused after faults stopped"); HReq r = gen_request(g, "last", false); c->send(r.raw, SEG_FEW); HResp h = c->response(r.head, liveness_bound, true, "upload after faults stopped"); std::string d = obs_diff(r.exp, seen["last"].o); if (h.status != 200 || !d.empty()) violation("upload-altered", "after faults stopped: %d %s: %s", h.status, d.c_str(), esc(r.raw, 300).c_str()); c->c.close(); }
  s.stop(); s.destroy();
  check_clean("after the server was freed", ms, fds0);
}
SCENARIO(P02, intact, 1) { uploads(false); }
SCENARIO(P02, diskfaults, 2) { uploads(true); }
