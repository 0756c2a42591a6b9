// P13: a websocket carries every message both ways whole, in order and unmixed, answers pings and closes, and its end is told once.
#include "http.h"
#include <onion/websocket.h>
#include <string.h>
using namespace sim;

namespace {
struct Frame { int op; std::string p; };
struct Part { size_t from, to; int op; bool empty; };
struct Ws {
  std::string id, sent, got; std::vector<Part> parts; std::vector<Frame> writes; std::vector<std::string> pings;
  int style = 0; size_t piece = 0, extra = 0, quit_after = (size_t)-1; int quit_how = 0; bool reply = true, may_set_op = false, op_set = false;
  int calls = 0, ended = 0, freed = 0; bool client_ending = false, quit = false, wfail = false, told_error = false, created = false;
};
std::map<std::string, Ws *> all;

std::string b64(const std::string &d) {
  static const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r;
  for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = 0; int n = 0; for (int k = 0; k < 3; k++) { v <<= 8; if (i + k < d.size()) { v |= (unsigned char)d[i + k]; n++; } } r += a[v >> 18]; r += a[(v >> 12) & 63]; r += n > 1 ? a[(v >> 6) & 63] : '='; r += n > 2 ? a[v & 63] : '='; }
  return r;
}
size_t msg_size() {
  static const size_t t[] = {0, 1, 2, 10, 100, 125, 126, 127, 128, 510, 511, 512, 513, 1000, 1018, 1020, 1022, 1023, 1024, 1025, 2042, 2044, 2046, 2047, 2048, 2049, 3072, 4096, 5000};
  static const size_t big[] = {32767, 32768, 65534, 65535, 65536, 65537, 66560, 70000, 131072};
  if (choose(S_WORK, 16) == 15) return big[choose(S_WORK, 9)];
  if (choose(S_WORK, 3)) return t[choose(S_WORK, sizeof(t) / sizeof(*t))];
  return choose(S_WORK, 300);
}
std::string msg(size_t n, bool text) { // cheap but position dependent
  std::string r(n, 0); uint32_t x = 1 + choose(S_WORK, 1u << 16); for (size_t i = 0; i < n; i++) { x = x * 1103515245 + 12345; r[i] = text ? 'a' + (x >> 16) % 26 : (char)(x >> 16); } return r;
}
std::string frame(int op, bool fin, const std::string &p, bool mask) {
  std::string r; r += (char)((fin ? 0x80 : 0) | op); int m = mask ? 0x80 : 0; size_t n = p.size();
  if (n < 126) r += (char)(m | n); else if (n <= 0xffff) { r += (char)(m | 126); r += (char)(n >> 8); r += (char)n; } else { r += (char)(m | 127); for (int i = 7; i >= 0; i--) r += (char)((uint64_t)n >> (8 * i)); }
  if (mask) { char k[4]; uint32_t v = choose(S_WORK, 8) ? (choose(S_WORK, 1u << 31) | 1) : 0; memcpy(k, &v, 4); r.append(k, 4); for (size_t i = 0; i < n; i++) r += p[i] ^ k[i & 3]; } else r += p;
  return r;
}
// strict parser of what the server sends
struct Rx { std::vector<Frame> fr; size_t pos = 0; };
void parse(Rx &x, const std::string &rx, const Ws &w) {
  for (;;) {
    size_t p = x.pos; if (rx.size() < p + 2) return; unsigned a = (unsigned char)rx[p], b = (unsigned char)rx[p + 1]; p += 2;
    if (!(a & 0x80) || (a & 0x70)) violation("bad-frame", "websocket %s: frame %zu starts with %02x (%s)", w.id.c_str(), x.fr.size(), a, esc(rx.substr(x.pos, 40)).c_str());
    int op = a & 15; if (op != 0 && op != 1 && op != 2 && op != 8 && op != 9 && op != 10) violation("bad-frame", "websocket %s: frame %zu has the unknown opcode %d", w.id.c_str(), x.fr.size(), op);
    if (b & 0x80) violation("bad-frame", "websocket %s: the server masked a frame", w.id.c_str());
    uint64_t n = b; if (n == 126) { if (rx.size() < p + 2) return; n = ((unsigned char)rx[p] << 8) | (unsigned char)rx[p + 1]; p += 2; if (n < 126) violation("bad-frame", "non minimal length"); }
    else if (n == 127) { if (rx.size() < p + 8) return; n = 0; for (int i = 0; i < 8; i++) n = (n << 8) | (unsigned char)rx[p + i]; p += 8; if (n <= 0xffff || n > (1u << 26)) violation("bad-frame", "websocket %s: frame %zu announces %llu bytes", w.id.c_str(), x.fr.size(), (unsigned long long)n); }
    if (op >= 8 && n > 125) violation("bad-frame", "control frame of %llu bytes", (unsigned long long)n);
    if (rx.size() < p + n) return;
    x.fr.push_back({op, rx.substr(p, n)}); x.pos = p + n;
  }
}
void check_rx(Rx &x, const std::string &rx, const Ws &w, bool whole, const char *ctx) {
  parse(x, rx, w); size_t d = 0, q = 0, c = 0; evaluated();
  for (auto &f : x.fr) {
    if (c) violation("after-close", "websocket %s: a frame with opcode %d after the close frame", w.id.c_str(), f.op);
    if (f.op == 10 && q < w.pings.size() && f.p == w.pings[q]) { q++; continue; }
    if (f.op == 8) { c++; if (!w.quit && !w.client_ending) violation("bad-frame", "websocket %s: unexpected close", w.id.c_str()); if (w.quit && w.quit_how == 2 && d < w.writes.size() && w.writes[d].op == 8) d++; continue; }
    if (d >= w.writes.size()) violation("unexpected-frame", "websocket %s (%s): received a frame nobody wrote: opcode %d, %s; %zu pings sent, %zu pongs before", w.id.c_str(), ctx, f.op, esc(f.p).c_str(), w.pings.size(), q);
    auto &e = w.writes[d++];
    if (e.op >= 0 && e.op != f.op) violation("wrong-opcode", "websocket %s: message written as %d arrived as %d", w.id.c_str(), e.op, f.op);
    if (e.p != f.p) { size_t k = 0; while (k < e.p.size() && k < f.p.size() && e.p[k] == f.p[k]) k++; violation("message-changed", "websocket %s: message %zu of %zu bytes arrived with %zu bytes, first difference at %zu", w.id.c_str(), d - 1, e.p.size(), f.p.size(), k); }
  }
  if (whole) {
    if (x.pos != rx.size()) violation("trailing-bytes", "websocket %s (%s): %zu bytes that are no frame at the end: %s", w.id.c_str(), ctx, rx.size() - x.pos, esc(rx.substr(x.pos)).c_str());
    if (d < w.writes.size() && !w.wfail) violation("message-lost", "websocket %s (%s): %zu messages written, %zu arrived", w.id.c_str(), ctx, w.writes.size(), d);
    if (!w.quit && q < w.pings.size()) violation("no-pong", "websocket %s (%s): %zu pings, %zu pongs", w.id.c_str(), ctx, w.pings.size(), q);
  }
}
void put(Ws *w, onion_websocket *ws, const std::string &m, bool pf) {
  int op = -1; if (w->may_set_op && choose(S_WORK, 2)) { op = 1 + choose(S_WORK, 2); onion_websocket_set_opcode(ws, (onion_websocket_opcode)op); w->op_set = true; } else op = (int)onion_websocket_get_opcode(ws) & 15;
  w->writes.push_back({op, m});
  int r = pf ? onion_websocket_printf(ws, "%s", m.c_str()) : onion_websocket_write(ws, m.data(), m.size()); op_done();
  if (r != (int)m.size()) { if (!w->client_ending) violation("write-failed", "websocket %s: writing %zu bytes returned %d", w->id.c_str(), m.size(), r); w->wfail = true; }
}
void answer(Ws *w, onion_websocket *ws) {
  if (!w->reply) return;
  switch (choose(S_WORK, 4)) {
  case 0: put(w, ws, msg(msg_size(), true), true); break;
  case 1: put(w, ws, msg(msg_size(), false), false); break;
  default: break;
  }
}
void ws_freed(void *p) { Ws *w = (Ws *)p; if (++w->freed > 1) violation("double-free", "the user data of websocket %s was freed %d times", w->id.c_str(), w->freed); poke(); }
onion_connection_status ws_cb(void *p, onion_websocket *ws, ssize_t ready) {
  Ws *w = (Ws *)p; w->calls++; poke();
  if (w->freed) violation("after-end", "websocket %s called after its data was freed", w->id.c_str());
  if (w->ended) violation("after-end", "websocket %s called after it was told of its end", w->id.c_str());
  char tmp[3000];
  if (ready < 0) {
    w->ended++;
    if (choose(S_WORK, 2)) { int r = onion_websocket_read(ws, tmp, sizeof tmp); if (r > 0) violation("after-end", "websocket %s: read %d bytes after its end", w->id.c_str(), r); }
    if (choose(S_WORK, 2)) { int r = onion_websocket_write(ws, "bye", 3); if (r > 0) violation("after-end", "websocket %s: wrote after its end", w->id.c_str()); }
    return OCS_NEED_MORE_DATA;
  }
  size_t at = w->got.size();
  if (ready > 0) {
    evaluated(); const Part *f = nullptr; for (auto &q : w->parts) if (!q.empty && q.from <= at && at < q.to) f = &q;
    if (!f) violation("phantom-data", "websocket %s: told of %zd bytes, but all %zu sent were read", w->id.c_str(), ready, at);
    if ((size_t)ready != f->to - at) violation("wrong-ready", "websocket %s: told of %zd bytes where %zu are left of the fragment", w->id.c_str(), ready, f->to - at);
    if (!w->op_set && w->style != 2 && at == f->from && ((int)onion_websocket_get_opcode(ws) & 15) != f->op) violation("wrong-opcode", "websocket %s: fragment sent with opcode %d is presented as %d", w->id.c_str(), f->op, (int)onion_websocket_get_opcode(ws) & 15);
  } else {
    bool any = false; for (auto &q : w->parts) any |= q.empty; if (!any) violation("phantom-data", "websocket %s: called with no data", w->id.c_str());
    if (w->style == 2) return OCS_NEED_MORE_DATA;
  }
  size_t want = ready; if (w->style == 1 && want > w->piece) want = w->piece; if (w->style == 2) want += w->extra;
  while (want > 0) {
    size_t n = want > sizeof tmp ? sizeof tmp : want; memset(tmp, 0x7e, sizeof tmp);
    int r = onion_websocket_read(ws, tmp, n); op_done(); poke();
    if (r <= 0) { if (!w->client_ending) violation("read-failed", "websocket %s: read of %zu bytes returned %d after %zu bytes", w->id.c_str(), n, r, w->got.size()); return choose(S_WORK, 2) ? OCS_NEED_MORE_DATA : OCS_CLOSE_CONNECTION; }
    if ((size_t)r > n) violation("read-too-much", "read of %zu returned %d", n, r);
    if (w->got.size() + r > w->sent.size() || w->sent.compare(w->got.size(), r, tmp, r)) violation("data-changed", "websocket %s: the %d bytes read at %zu (of %zu sent) are not what was sent: %s", w->id.c_str(), r, w->got.size(), w->sent.size(), esc(std::string(tmp, r), 60).c_str());
    w->got.append(tmp, r); want -= r;
    if (w->style != 0 && want) break;
  }
  answer(w, ws);
  if (w->got.size() >= w->quit_after && !w->client_ending) {
    w->quit = true; poke();
    if (w->quit_how == 2) { w->writes.push_back({8, std::string("\x03\xe9", 2)}); onion_websocket_close(ws, "\x03\xe9"); return OCS_CLOSE_CONNECTION; }
    if (w->quit_how == 1) return OCS_INTERNAL_ERROR;
    if (w->quit_how == 3) { onion_websocket_set_callback(ws, NULL); w->ended = 1; return OCS_NEED_MORE_DATA; } // nobody to tell any more
    return OCS_CLOSE_CONNECTION;
  }
  return OCS_NEED_MORE_DATA;
}
}

SCENARIO(P13, websocket, 1) {
  bool conc = choose(S_WORK, 3) != 0;
  base_setup(conc); warm_up(); net_faults(); static const unsigned er[] = {0, 0, 60}; fault_enable("poll_eintr", er[choose(S_FAULT, 3)]);
  all.clear();
  SrvCfg sc = rand_srv(); sc.https = choose(S_WORK, 4) == 3; bool single = sc.mode != O_POOL && sc.mode != O_THREADED; if (!single && sc.threads < 2) sc.threads = 2;
  MemSnapshot ms = mem_snapshot(); int fds = fd_open_count();
  Srv s; s.create(sc);
  s.handler = [&](onion_request *req, onion_response *res) -> int {
    const char *id = onion_request_get_header(req, "X-Id"); Ws *w = id && all.count(id) ? all[id] : nullptr; if (!w) violation("unknown-request", "the handler was called for a request nobody sent");
    onion_websocket *ws = onion_websocket_new(req, res);
    if (!ws) { onion_response_printf(res, "plain %s", id); return OCS_PROCESSED; }
    if (w->created) violation("duplicate-request", "websocket %s created twice", id);
    w->created = true; poke();
    onion_websocket_set_userdata(ws, w, ws_freed); onion_websocket_set_callback(ws, ws_cb);
    if (w->reply && choose(S_WORK, 3) == 2) put(w, ws, msg(msg_size(), true), choose(S_WORK, 2));
    return OCS_WEBSOCKET;
  };
  s.start();
  int nc = single ? 1 : 1 + choose(S_WORK, sc.threads - 1 < 4 ? sc.threads - 1 : 4);
  describe("%s/%d threads%s, %d clients", mode_name(sc.mode), sc.threads, sc.https ? " https" : "", nc);
  std::vector<Fiber *> cl;
  for (int i = 0; i < nc; i++) cl.push_back(spawn("client" + std::to_string(i), [&, i] {
    int rounds = 1 + choose(S_WORK, 2);
    for (int r = 0; r < rounds; r++) {
      Ws *w = new Ws; w->id = std::to_string(i) + "." + std::to_string(r); all[w->id] = w;
      w->style = choose(S_WORK, 3); w->piece = 1 + choose(S_WORK, 200); w->extra = choose(S_WORK, 300); w->reply = choose(S_WORK, 4) != 3; w->may_set_op = choose(S_WORK, 3) == 2;
      if (choose(S_WORK, 4) == 3) { w->quit_after = choose(S_WORK, 3000); w->quit_how = choose(S_WORK, 4); }
      Conn *c = new Conn; if (!c->open(sc.port, sc.https, now() + liveness_bound)) violation("refused", "connection refused");
      std::string key = b64(rand_bytes(S_WORK, 16)); int bad = choose(S_WORK, 8); bool proto = choose(S_WORK, 3) == 2;
      std::string up = choose(S_WORK, 2) ? "websocket" : "WebSocket", raw = "GET /ws HTTP/1.1\r\nX-Id: " + w->id + "\r\n";
      if (bad != 5) raw += "Upgrade: " + up + "\r\nConnection: Upgrade\r\n"; if (bad != 6) raw += "Sec-WebSocket-Key: " + key + "\r\n";
      if (bad == 7) raw += choose(S_WORK, 2) ? "Sec-WebSocket-Version: 8\r\n" : ""; else raw += "Sec-WebSocket-Version: 13\r\n"; if (proto) raw += "Sec-WebSocket-Protocol: chat\r\n";
      c->send(raw + "\r\n", choose(S_NET, SEG_NMODES));
      // The response to a correct handshake is the head only
      c->c.wait_rx([&] { return c->eof() || c->rx().find("\r\n\r\n") != std::string::npos; }, now() + liveness_bound); evaluated(); op_done();
      size_t e = c->rx().find("\r\n\r\n"); if (e == std::string::npos) violation(c->eof() ? "no-response" : "no-progress", "websocket %s: no answer to the handshake (%s); threads %s", w->id.c_str(), esc(c->rx()).c_str(), blocked_report().c_str());
      if (bad >= 5) {
        c->off = 0; HResp h = c->response(false, liveness_bound, true, "request that is no websocket"); if (h.status != 200 || h.body != "plain " + w->id) violation("bad-handshake", "a request that is no websocket was answered %d %s", h.status, esc(h.body).c_str());
        if (w->created) violation("bad-handshake", "a request that is no websocket created one"); c->c.close(); continue;
      }
      std::string head = c->rx().substr(0, e + 2), low; for (char ch : head) low += (char)tolower(ch);
      if (head.compare(0, 13, "HTTP/1.1 101 ")) violation("bad-handshake", "handshake answered %s", esc(head).c_str());
      auto has = [&](const std::string &l) { std::string x; for (char ch : l) x += (char)tolower(ch); return low.find("\r\n" + x + "\r\n") != std::string::npos; };
      if (head.find(": " + b64(sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")) + "\r\n") == std::string::npos || low.find("\r\nsec-websocket-accept: ") == std::string::npos || !has("Upgrade: websocket") || !has("Connection: Upgrade")) violation("bad-handshake", "handshake answered %s", esc(head, 400).c_str());
      if (has("Sec-Websocket-Protocol: chat") != proto) violation("bad-handshake", "subprotocol %s: %s", proto ? "not accepted" : "invented", esc(head, 400).c_str());
      Rx x; x.pos = e + 4; count("websocket.opened");
      int end = choose(S_WORK, 6); int n = choose(S_WORK, 8); bool gone = false; int contop = 0; // contop: inside a fragmented message
      int seg = choose(S_NET, SEG_NMODES);
      auto tx = [&](const std::string &b) { int g = b.size() > 3000 && seg == SEG_BYTES ? SEG_RANDOM : seg; c->send(b, g); };
      std::string batch; bool batching = choose(S_WORK, 3) == 2;
      auto flush = [&] { if (batch.size()) { tx(batch); batch.clear(); } };
      for (int k = 0; k < n && !gone; k++) {
        int what = choose(S_WORK, 8); std::string b;
        if (what == 6) { std::string p = msg(choose(S_WORK, 2) ? choose(S_WORK, 126) : (choose(S_WORK, 2) ? 125 : 0), false); w->pings.push_back(p); b = frame(9, true, p, true); count("websocket.ping"); }
        else {
          std::string p = msg(msg_size(), false); bool fin = choose(S_WORK, 4) != 3; int op = contop ? 0 : 1 + choose(S_WORK, 2); contop = fin ? 0 : 1;
          w->parts.push_back({w->sent.size(), w->sent.size() + p.size(), op, p.empty()}); w->sent += p; b = frame(op, fin, p, choose(S_WORK, 8) != 7);
        }
        if (batching) { batch += b; if (choose(S_WORK, 3) == 0) flush(); } else tx(b);
        if (choose(S_WORK, 3) == 0) {
          flush();
          if (w->style != 2 && !wait_pred([&] { return w->got.size() == w->sent.size() || w->quit || c->eof(); }, now() + liveness_bound, "server")) violation("no-progress", "websocket %s: %zu of %zu bytes read %.0f s after they were sent; threads: %s", w->id.c_str(), w->got.size(), w->sent.size(), liveness_bound / 1e9, blocked_report().c_str());
          size_t pc = w->pings.size(); c->c.wait_rx([&] { if (c->eof()) return true; parse(x, c->rx(), *w); size_t q = 0; for (auto &f : x.fr) q += f.op == 10; return q >= pc || w->quit; }, now() + liveness_bound);
          size_t q = 0; for (auto &f : x.fr) q += f.op == 10; if (q < pc && !w->quit && !c->eof()) violation("no-pong", "websocket %s: %zu pings and %zu pongs after %.0f s; threads: %s", w->id.c_str(), pc, q, liveness_bound / 1e9, blocked_report().c_str());
        } else if (choose(S_WORK, 3) == 0) sleep_for(choose(S_WORK, 50) * MS);
        if (c->eof() || w->quit) gone = true;
        check_rx(x, c->rx(), *w, false, "open");
      }
      flush();
      if (gone || (w->quit_after <= w->sent.size() && w->style != 2 && w->sent.size())) {
        // the server ends it
        if (!w->quit && !wait_pred([&] { return w->quit || w->ended || w->got.size() == w->sent.size(); }, now() + liveness_bound, "server")) violation("no-progress", "websocket %s: %zu of %zu bytes read; threads: %s", w->id.c_str(), w->got.size(), w->sent.size(), blocked_report().c_str());
        if (w->quit) {
          c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound); if (!c->eof()) violation("no-progress", "websocket %s: the handler ended it but the connection stays open; threads: %s", w->id.c_str(), blocked_report().c_str());
          if (c->c.rst) check_rx(x, c->rx(), *w, false, "ended by the server"); else check_rx(x, c->rx(), *w, true, "ended by the server");
          c->c.close(); count("websocket.server_end"); goto over;
        }
        if (c->eof()) violation("closed-early", "websocket %s closed by the server", w->id.c_str());
      }
      if (end < 3) { // closing handshake
        std::string st; if (end != 2) { st = std::string("\x03", 1) + (char)(0xe8 + choose(S_WORK, 10)); if (end == 1) st += msg(choose(S_WORK, 124), true); }
        w->client_ending = true; c->send(frame(8, true, st, choose(S_WORK, 8) != 7), seg);
        c->c.wait_rx([&] { return c->eof(); }, now() + liveness_bound); evaluated(); op_done();
        if (!c->eof()) violation("no-progress", "websocket %s: the connection stays open after the close handshake; threads: %s", w->id.c_str(), blocked_report().c_str());
        if (!w->quit && w->got.size() != w->sent.size()) violation("data-lost", "websocket %s: %zu of %zu bytes sent before the close were read", w->id.c_str(), w->got.size(), w->sent.size());
        if (c->c.rst) violation("reset", "websocket %s: reset instead of closed", w->id.c_str());
        check_rx(x, c->rx(), *w, true, "closed");
        if (!w->quit && (x.fr.empty() || x.fr.back().op != 8 || x.fr.back().p != st.substr(0, 2))) violation("no-close", "websocket %s: close frame with %zu bytes not answered with the same status (%s)", w->id.c_str(), st.size(), x.fr.empty() ? "nothing" : esc(x.fr.back().p).c_str());
        c->c.close(); count("websocket.close_handshake");
      } else { // vanishes, maybe inside a frame
        w->client_ending = true;
        if (end > 3) { std::string p = msg(1 + choose(S_WORK, 2000), false); std::string b = frame(contop ? 0 : 1, true, p, true); size_t cut = choose(S_WORK, 2) ? choose(S_WORK, (uint32_t)(b.size() < 14 ? b.size() : 14)) : choose(S_WORK, (uint32_t)b.size());
          w->parts.push_back({w->sent.size(), w->sent.size() + p.size(), contop ? 0 : 1, false}); w->sent += p; c->send(b.substr(0, cut), seg); if (choose(S_WORK, 2)) sleep_for(choose(S_WORK, 50) * MS); }
        if (end == 5) c->c.reset(); else c->c.close(); count("websocket.vanish");
      }
    over:
      if (!wait_pred([&] { return w->ended && w->freed; }, now() + liveness_bound, "end")) violation("end-not-told", "websocket %s: %.0f s after the end of the connection the callback was told %d times and the user data freed %d times; threads: %s", w->id.c_str(), liveness_bound / 1e9, w->ended, w->freed, blocked_report().c_str());
      evaluated();
    }
  }));
  for (auto f : cl) join(f);
  s.stop(); s.destroy();
  for (auto &k : all) { Ws *w = k.second; if (w->created && (w->ended != 1 || w->freed != 1)) violation("end-not-told", "websocket %s: told of its end %d times, data freed %d times", w->id.c_str(), w->ended, w->freed); delete w; }
  all.clear();
  check_clean("after the websockets ended", ms, fds);
}
