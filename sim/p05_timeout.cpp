// P05: idle connections are closed when their timeout expires, not before, whatever other connections and the wall clock do.
#include "http.h"
using namespace sim;

static void timeouts(bool forever) {
  bool conc = choose(S_WORK, 3) != 0;
  base_setup(conc); max_stall_total = 300 * MS; if (sched.max_freeze > 20 * MS) sched.max_freeze = 20 * MS;
  net.lat_max = 2 * MS; time_limit = now() + 4000000ull * SEC;
  static const unsigned rr[] = {0, 60, 300}; fault_enable("short_read", rr[choose(S_FAULT, 3)]); if (choose(S_FAULT, 3) == 2) fault_enable("epoll_eintr", 60);
  const Time slack = 900 * MS;
  SrvCfg sc = rand_srv(); int T = 1 + choose(S_WORK, 7); if (choose(S_WORK, 8) == 7) T = 30 + choose(S_WORK, 300); if (sc.threads < 2) sc.threads = 2;
  sc.timeout = forever ? -1 : T * 1000;
  Srv s; s.create(sc);
  s.handler = [&](onion_request *req, onion_response *res) {
    const char *d = onion_request_get_header(req, "X-Delay"); if (d) sleep_for((Time)atoi(d) * MS);
    onion_response_printf(res, "ok"); return OCS_PROCESSED;
  };
  s.start();
  int nc = sc.mode == O_ONE_LOOP ? 1 : 1 + choose(S_WORK, 6);
  bool slow_ok = sc.mode == O_POOL || sc.mode == O_THREADED; int slow = 0;
  describe("%s/%d threads, timeout %d s%s, %d connections", mode_name(sc.mode), sc.threads, T, forever ? " (disabled)" : "", nc);
  std::vector<Fiber *> cl; bool over = false;
  Fiber *jumper = nullptr; // the wall clock is stepped while connections wait
  if (choose(S_FAULT, 2)) jumper = spawn("clock", [&] { for (int k = 0; k < 40 && !over; k++) { sleep_for(range(S_FAULT, 1, 4000) * MS); real_skew += ((int64_t)choose(S_FAULT, 20000) - 10000) * (int64_t)SEC; count("fault.clock_jump"); } });
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    sleep_for((Time)choose(S_WORK, 3000) * MS);
    int rounds = 1 + choose(S_WORK, 2);
    for (int r = 0; r < rounds; r++) {
      Conn *c = new Conn; if (!c->open(sc.port, false, now() + liveness_bound)) violation("refused", "connection refused");
      Time t0 = c->c.connect_t, act_lo = now(), act_hi = now(); (void)t0; // window in which the server last saw activity
      int steps = choose(S_WORK, 5); std::string req = "GET / HTTP/1.1\r\nHost: x\r\n"; size_t pos = 0; bool mid = false; int left = 0;
      for (int k = 0; k < steps; k++) {
        // wait less than the timeout allows: the connection must still be there
        int64_t maxgap = forever ? 100000 * 1000ll : (int64_t)T * 1000 - 1000 - 950; if (maxgap < 0) maxgap = 0;
        if (sc.mode == O_ONE_LOOP && maxgap == 0 && !forever) maxgap = 0;
        Time gap = choose(S_WORK, 3) == 0 ? (Time)maxgap * MS : (Time)(maxgap ? choose(S_WORK, (uint32_t)maxgap) : 0) * MS;
        sleep_for(gap); evaluated();
        if (c->eof()) violation("closed-early", "connection %d closed %.3f s after its last activity, timeout is %s%d s", i, (c->c.eof_t - act_lo) / 1e9, forever ? "disabled, " : "", T);
        int what = choose(S_WORK, 3);
        if (what == 0 || mid) { // part of a request
          if (!mid) { mid = true; pos = 0; req = "GET / HTTP/1.1\r\nHost: x\r\n"; left = 1 + choose(S_WORK, 3); }
          size_t n = left == 0 ? req.size() - pos : 1 + choose(S_WORK, (uint32_t)((req.size() - pos) / 2 + 1)); if (pos + n > req.size()) n = req.size() - pos; left--;
          if (n) { c->c.send_raw(req.substr(pos, n), 0); pos += n; } else c->c.send_raw("X-More: 1\r\n", 0);
          act_lo = now(); act_hi = now() + 100 * MS; op_done();
        } else {
          std::string extra; int delay = 0;
          if (slow_ok && choose(S_WORK, 3) == 2 && slow + 1 < sc.threads) { delay = T * 1000 + choose(S_WORK, 3000); if (T > 60) delay = 2000; extra = "X-Delay: " + std::to_string(delay) + "\r\n"; slow++; }
          c->send("GET / HTTP/1.1\r\n" + extra + "\r\n", SEG_FEW);
          HResp h = c->response(false, (Time)delay * MS + liveness_bound, true, delay ? "request whose handler takes longer than the timeout" : "request sent within the timeout"); op_done(); evaluated(); if (delay) slow--;
          act_lo = c->c.last_tx_arrive + (Time)delay * MS; act_hi = now();
          if (sc.mode == O_ONE_LOOP || !h.keepalive) { c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound); break; }
        }
      }
      if (c->eof()) { c->c.close(); continue; }
      if (forever) { // nobody but the client ends it
        sleep_for(choose(S_WORK, 2) ? 90000 * SEC : 100 * SEC); evaluated();
        if (c->eof()) violation("closed-early", "connection closed by the server %.1f s after its last activity although timeouts are disabled", (c->c.eof_t - act_lo) / 1e9);
      } else {
        bool ok = c->c.wait_rx([&] { return c->eof(); }, act_hi + (T + 1) * SEC + slack); evaluated();
        if (!ok) violation("not-timed-out", "connection %d still open %.3f s after its last activity; timeout is %d s (%s)", i, (now() - act_hi) / 1e9, T, mid ? "in the middle of a request" : "idle");
        if (c->c.eof_t + 1 * SEC + 1 * MS < act_lo + T * SEC) violation("closed-early", "connection %d closed %.3f s after its last activity, timeout is %d s", i, (c->c.eof_t - act_lo) / 1e9, T);
        count("timeout.expired"); mix_state((c->c.eof_t - act_lo) / (50 * MS));
      }
      c->c.close();
    }
  }));
  for (auto f : cl) join(f);
  over = true; if (jumper) join(jumper);
  s.stop(); s.destroy();
}
SCENARIO(P05, expire, 4) { timeouts(false); }
SCENARIO(P05, forever, 1) { timeouts(true); }
