#include "sys.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netdb.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <sys/sendfile.h>
#include <sys/types.h>
#include <dirent.h>
#include <fcntl.h>
#include <pwd.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <algorithm>

namespace sim {

int fd_limit = 256, fd_base = 3;
static std::vector<FdP> fdt;
NetCfg net;
static std::map<int, std::weak_ptr<Sock>> listeners;
static uint64_t naccepted; static uint64_t nopen_socks;
std::function<void(const char *, int, FdObj *)> sys_hook;
std::set<int> port_in_use;
void *sig_handlers[65];
static int next_client_id = 1;

FdP fd_get(int fd) { if (fd < 0 || fd >= (int)fdt.size()) return nullptr; return fdt[fd]; }
int fd_alloc(FdP o) {
  int i = fd_base;
  for (; i < (int)fdt.size(); i++) if (!fdt[i]) break;
  if (i >= fd_limit) { errno = EMFILE; return -1; }
  if (i >= (int)fdt.size()) fdt.resize(i + 1);
  fdt[i] = o; o->opens++;
  return i;
}
int fd_open_count() { int n = 0; for (auto &p : fdt) if (p) n++; return n; }
std::string fd_list() { std::string s; for (size_t i = 0; i < fdt.size(); i++) if (fdt[i]) { s += std::to_string(i) + ":" + fdt[i]->type(); if (auto f = dynamic_cast<FileObj *>(fdt[i].get())) s += "(" + f->path + ")"; s += " "; } return s; }

// ------------------------------------------------------------------ epoll
struct Item { int fd; std::weak_ptr<FdObj> o; uint32_t ev; epoll_data_t data; bool armed; };
struct Epoll : FdObj {
  std::vector<Item> items;     // registration order
  WaitQ q;
  const char *type() override { return "epoll"; }
};
void FdObj::changed() {
  wake_all(rq); wake_all(wq);
  for (auto &w : watchers) if (auto e = w.lock()) wake_all(e->q);
  poke();
}

struct EventFd : FdObj {
  uint64_t v = 0;
  const char *type() override { return "eventfd"; }
  uint32_t events() override { return (v ? EPOLLIN : 0) | EPOLLOUT; }
};
struct TimerFd : FdObj {
  uint64_t ticks = 0, gen = 0; Time expiry = NEVER;
  const char *type() override { return "timerfd"; }
  uint32_t events() override { return ticks ? EPOLLIN : 0; }
};

uint32_t Sock::events() {
  uint32_t e = 0;
  if (listening) { if (!pending.empty()) e |= EPOLLIN; if (rd_shut) e |= EPOLLIN | EPOLLHUP | EPOLLRDHUP; return e; }
  if (!connected) return EPOLLOUT | EPOLLHUP;
  if (avail() || rx_fin || rd_shut || rst) e |= EPOLLIN;
  if (rx_fin || rd_shut || rst) e |= EPOLLRDHUP;
  if (rst) e |= EPOLLERR | EPOLLHUP;
  if (wr_shut && (rd_shut || rx_fin)) e |= EPOLLHUP;
  if (inflight < txcap || rst || wr_shut) e |= EPOLLOUT;
  return e;
}
static void stop_listening(Sock *s) {
  auto it = listeners.find(s->port);
  if (it != listeners.end() && it->second.lock().get() == s) listeners.erase(it);
  for (auto &p : s->pending) { Client *c = p->cli; p->rst = true; after(net_latency(), [c] { if (!c->eof) { c->rst = true; c->eof = true; c->eof_t = now(); wake_all(c->q); poke(); } }); }
  s->pending.clear();
}
void Sock::on_close() {
  closed = true;
  if (listening) stop_listening(this);
  else if (connected) {
    nopen_socks--;
    if (!wr_shut && !rst) { wr_shut = true; if (cli) { Client *c = cli; Time t = std::max(c->next_rx, now() + net_latency()); c->next_rx = t; c->fin_scheduled = true; at(t, [c] { c->deliver_fin(); }); } }
  }
}

Time net_latency() {
  Time d = net.lat_min;
  if (net.lat_max > net.lat_min) d += (Time)choose(S_NET, 1024) * ((net.lat_max - net.lat_min) / 1024);
  if (net.stall_rate && chance(S_NET, net.stall_rate, 256)) { d += (Time)choose(S_NET, 1024) * (net.stall_max / 1024); count("fault.net_stall"); }
  return d;
}
bool port_listening(int port) { auto it = listeners.find(port); return it != listeners.end() && it->second.lock(); }
int port_backlog(int port) { auto it = listeners.find(port); if (it == listeners.end()) return -1; auto s = it->second.lock(); return s ? (int)s->pending.size() : -1; }
uint64_t accepted_conns() { return naccepted; }
uint64_t server_open_socks() { return nopen_socks; }

// ------------------------------------------------------------------ client peers
bool Client::connect(int port, Time deadline) {
  id = next_client_id++;
  if (deadline == NEVER) deadline = now() + 10 * SEC;
  Time rto = 1 * SEC;
  for (;;) {
    sleep_for(net_latency());
    auto it = listeners.find(port);
    std::shared_ptr<Sock> l = it == listeners.end() ? nullptr : it->second.lock();
    if (!l || l->rd_shut) { refused = true; return false; }
    if ((int)l->pending.size() <= l->backlog) {
      s = std::make_shared<Sock>();
      s->connected = true; s->cli = this; s->port = port;
      l->pending.push_back(s); l->changed();
      connected = true; connect_t = now(); next_arrive = next_rx = now();
      return true;
    }
    count("net.backlog_full");
    if (now() + rto > deadline) { refused = true; return false; }
    sleep_for(rto); rto *= 2;
  }
}
void Client::deliver(const std::string &d) {
  if (closed) { // data to a closed peer: it answers with a reset
    auto sk = s; after(net_latency(), [sk] { if (!sk->rst) { sk->rst = true; sk->changed(); } });
    s->inflight -= d.size(); return;
  }
  if (!reading) { held += d; return; }
  rx += d; rx_marks.push_back({rx.size(), now()}); last_rx_t = now();
  s->inflight -= d.size(); s->changed();
  wake_all(q); poke();
}
void Client::deliver_fin() {
  if (!reading) { held_fin = true; return; }
  if (!eof) { eof = true; eof_t = now(); }
  wake_all(q); poke();
}
void Client::resume() {
  reading = true;
  if (!held.empty()) { std::string d; d.swap(held); deliver(d); }
  if (held_fin) { held_fin = false; deliver_fin(); }
}
std::vector<size_t> segment_plan(size_t n, int mode) {
  std::vector<size_t> v;
  size_t left = n;
  switch (mode) {
  case SEG_WHOLE: if (n) v.push_back(n); break;
  case SEG_BYTES: for (size_t i = 0; i < n; i++) v.push_back(1); break;
  case SEG_FEW: { // 1..3 cut points anywhere
    std::vector<size_t> cuts; int k = 1 + choose(S_NET, 3);
    for (int i = 0; i < k; i++) cuts.push_back(choose(S_NET, n + 1));
    std::sort(cuts.begin(), cuts.end()); size_t p = 0;
    for (size_t c : cuts) if (c > p) { v.push_back(c - p); p = c; }
    if (p < n) v.push_back(n - p);
    break; }
  case SEG_MTU: while (left) { size_t k = std::min<size_t>(left, 1448); v.push_back(k); left -= k; } break;
  default: { static const unsigned lim[] = {3, 12, 60, 300, 1600};
    unsigned L = lim[choose(S_NET, 5)];
    while (left) { size_t k = std::min<size_t>(left, 1 + choose(S_NET, L)); v.push_back(k); left -= k; } }
  }
  return v;
}
void Client::send_raw(const std::string &d, Time gap) {
  if (closed || !s) return;
  Time t = std::max(next_arrive, now() + gap);
  next_arrive = t; sent += d.size(); last_tx_t = now(); last_tx_arrive = t;
  auto sk = s;
  at(t, [sk, d] { if (sk->closed || sk->rst || sk->rd_shut) return; sk->rx += d; sk->changed(); });
}
void Client::send(const std::string &d, int mode) {
  size_t p = 0;
  auto plan = segment_plan(d.size(), mode);
  // sometimes segments coalesce (arrive at the same instant), sometimes they are apart
  bool spread = plan.size() > 1;
  if (plan.size() > 200) { // many tiny segments: bound the number of latency draws
    Time base = net_latency();
    for (size_t k : plan) { send_raw(d.substr(p, k), base); p += k; next_arrive += 3 * US; }
    return;
  }
  for (size_t k : plan) { send_raw(d.substr(p, k), spread && choose(S_NET, 4) == 1 ? 0 : net_latency()); p += k; }
}
void Client::shutdown_wr() {
  if (closed || !s) return;
  Time t = std::max(next_arrive, now() + net_latency()); next_arrive = t;
  auto sk = s; at(t, [sk] { sk->rx_fin = true; sk->changed(); });
}
void Client::close() {
  if (closed || !s) { closed = true; return; }
  if (!held.empty()) { s->inflight -= held.size(); held.clear(); reset(); return; } // a peer that closes with unread data resets
  shutdown_wr(); closed = true;
}
void Client::reset() {
  if (!s || closed) { closed = true; return; }
  closed = true;
  Time t = std::max(next_arrive, now() + net_latency());
  auto sk = s; at(t, [sk] { sk->rst = true; sk->changed(); });
}
bool Client::wait_rx(const std::function<bool()> &pred, Time deadline) {
  while (!pred()) if (!wait(q, deadline, "client-recv")) return pred();
  return true;
}

static int bad(int e) { errno = e; return -1; }

// ------------------------------------------------------------------ reads and writes
static ssize_t sock_read(Sock *s, int fd, void *buf, size_t n, bool dontwait) {
  Time dl = s->rcvtimeo ? now() + s->rcvtimeo : NEVER;
  auto keep = s->shared_from_this();
  if (n && s->connected && fault("read_eintr")) { tracef("read fd=%d -> EINTR (injected)", fd); return bad(EINTR); }
  for (;;) {
    if (!s->connected) return bad(ENOTCONN);
    if (n == 0) return 0;
    if (s->avail()) {
      size_t k = std::min(n, s->avail());
      if (k > 1 && fault("short_read")) k = 1 + choose(S_FAULT, k - 1);
      check_mem(buf, k, "read() buffer");
      memcpy(buf, s->rx.data() + s->rxpos, k); s->rxpos += k;
      if (s->rxpos == s->rx.size()) { s->rx.clear(); s->rxpos = 0; }
      tracef("read fd=%d -> %zu", fd, k); mix(k);
      return k;
    }
    if (s->rst && !s->rst_reported) { s->rst_reported = true; tracef("read fd=%d -> ECONNRESET", fd); return bad(ECONNRESET); }
    if (s->rst || s->rx_fin || s->rd_shut) { tracef("read fd=%d -> EOF", fd); return 0; }
    if (s->nonblock || dontwait) return bad(EAGAIN);
    if (!wait(s->rq, dl, "read")) { tracef("read fd=%d -> EAGAIN (timeout)", fd); return bad(EAGAIN); }
    if (take_intr() && 0) return bad(EINTR);   // handlers are installed with SA_RESTART
  }
}
static ssize_t sock_write(Sock *s, int fd, const void *buf, size_t n, int flags) {
  auto keep = s->shared_from_this();
  if (!s->connected) return bad(ENOTCONN);
  size_t done = 0; const char *p = (const char *)buf;
  check_mem(buf, n, "write() buffer");
  Time dl = s->sndtimeo ? now() + s->sndtimeo : NEVER;
  if (n && fault("write_error")) { s->rst = true; s->rst_reported = true; s->changed(); Client *c = s->cli; after(net_latency(), [c] { if (!c->eof) { c->eof = true; c->rst = true; c->eof_t = now(); wake_all(c->q); poke(); } }); tracef("write fd=%d -> ECONNRESET (injected)", fd); return bad(ECONNRESET); }
  if (n && fault("write_transient")) { tracef("write fd=%d -> EINTR (injected)", fd); return bad(EINTR); }
  while (done < n) {
    if (s->rst || s->wr_shut) {
      if (done) break;
      if (s->rst && !s->rst_reported) { s->rst_reported = true; return bad(ECONNRESET); }
      if (!(flags & MSG_NOSIGNAL) && sig_handlers[SIGPIPE] != (void *)SIG_IGN) violation("sigpipe", "write to a closed connection with SIGPIPE not ignored kills the process");
      tracef("write fd=%d -> EPIPE", fd);
      return bad(EPIPE);
    }
    size_t space = s->txcap > s->inflight ? s->txcap - s->inflight : 0;
    if (!space) {
      if (s->nonblock || (flags & MSG_DONTWAIT)) { if (done) break; return bad(EAGAIN); }
      count("net.write_blocked");
      if (!wait(s->wq, dl, "write")) { if (done) break; return bad(EAGAIN); }
      continue;
    }
    size_t k = std::min(space, n - done);
    bool shortw = k > 1 && fault("short_write");
    if (shortw) k = 1 + choose(S_FAULT, k - 1);
    std::string d(p + done, k);
    s->inflight += k; done += k;
    Client *c = s->cli;
    Time t = std::max(c->next_rx, now() + net_latency()); c->next_rx = t;
    at(t, [c, d] { c->deliver(d); });
    if (shortw) break;
  }
  tracef("write fd=%d %zu -> %zu", fd, n, done); mix(done);
  return done;
}
static ssize_t file_read(FileObj *f, void *buf, size_t n, size_t pos) {
  if ((f->flags & O_ACCMODE) == O_WRONLY) return bad(EBADF);
  if (f->ino->is_dir()) return bad(EISDIR);
  if (n && fault("disk_read_eio")) return bad(EIO);
  size_t av = pos < f->ino->data.size() ? f->ino->data.size() - pos : 0;
  size_t k = std::min(n, av);
  if (k > 1 && fault("disk_short_read")) k = 1 + choose(S_FAULT, k - 1);
  check_mem(buf, k, "read() buffer");
  memcpy(buf, f->ino->data.data() + pos, k);
  return k;
}
static ssize_t file_write(FileObj *f, const void *buf, size_t n, size_t pos) {
  if ((f->flags & O_ACCMODE) == O_RDONLY) return bad(EBADF);
  check_mem(buf, n, "write() buffer");
  if (n && fault("disk_write_eio")) return bad(EIO);
  if (n && fault("disk_enospc")) return bad(ENOSPC);
  size_t k = n;
  if (k > 1 && fault("disk_short_write")) k = 1 + choose(S_FAULT, k - 1);
  if (fs::disk_left >= 0) { if (n && fs::disk_left == 0) { count("fault.disk_full"); return bad(ENOSPC); } if ((long)k > fs::disk_left) { k = fs::disk_left; count("fault.disk_full_short"); } fs::disk_left -= k; }
  auto &d = f->ino->data;
  if (d.size() < pos + k) d.resize(pos + k);
  memcpy(&d[0] + pos, buf, k);
  f->ino->mtime = EPOCH + (int64_t)(now() + real_skew) / (int64_t)SEC;
  if (fs::op_hook) fs::op_hook("write", f->path, -1);
  tracef("file write %s %zu -> %zu", f->path.c_str(), n, k);
  return k;
}

static ssize_t do_read(int fd, void *buf, size_t n, bool dw) {
  yield_sync("read");
  FdP o = fd_get(fd);
  if (!o) return bad(EBADF);
  if (auto s = dynamic_cast<Sock *>(o.get())) return sock_read(s, fd, buf, n, dw);
  if (auto f = dynamic_cast<FileObj *>(o.get())) { ssize_t r = file_read(f, buf, n, f->pos); if (r > 0) f->pos += r; return r; }
  if (auto e = dynamic_cast<EventFd *>(o.get())) {
    if (n < 8) return bad(EINVAL);
    while (!e->v) { if (e->nonblock) return bad(EAGAIN); wait(e->rq, NEVER, "eventfd-read"); }
    memcpy(buf, &e->v, 8); e->v = 0; e->changed(); return 8;
  }
  if (auto t = dynamic_cast<TimerFd *>(o.get())) {
    if (n < 8) return bad(EINVAL);
    while (!t->ticks) { if (t->nonblock) return bad(EAGAIN); wait(t->rq, NEVER, "timerfd-read"); }
    memcpy(buf, &t->ticks, 8); t->ticks = 0; return 8;
  }
  return bad(EINVAL);
}
std::function<ssize_t(const std::string &)> stderr_sink;
std::function<void(int, const std::string &)> syslog_sink;
static ssize_t do_write(int fd, const void *buf, size_t n, int flags) {
  yield_sync("write");
  FdP o = fd_get(fd);
  if (!o) { if (fd == 2 && stderr_sink) return stderr_sink(std::string((const char *)buf, n)); if (fd == 1 || fd == 2) return n; return bad(EBADF); }
  if (auto s = dynamic_cast<Sock *>(o.get())) return sock_write(s, fd, buf, n, flags);
  if (auto f = dynamic_cast<FileObj *>(o.get())) { if (f->flags & O_APPEND) f->pos = f->ino->data.size(); ssize_t r = file_write(f, buf, n, f->pos); if (r > 0) f->pos += r; return r; }
  if (auto e = dynamic_cast<EventFd *>(o.get())) {
    if (n < 8) return bad(EINVAL);
    uint64_t v; memcpy(&v, buf, 8);
    if (v == ~0ull) return bad(EINVAL);
    while (e->v > ~0ull - 1 - v) { if (e->nonblock) return bad(EAGAIN); wait(e->wq, NEVER, "eventfd-write"); }
    e->v += v; e->changed(); return 8;
  }
  return bad(EINVAL);
}
static int do_close(int fd) {
  FdP o = fd_get(fd);
  if (!o) { tracef("close fd=%d -> EBADF", fd); count("sys.close_ebadf"); return bad(EBADF); }
  tracef("close fd=%d %s", fd, o->type());
  if (sys_hook) sys_hook("close", fd, o.get());
  fdt[fd] = nullptr;
  // interest lists lose this fd
  for (auto &w : o->watchers) if (auto e = w.lock()) e->items.erase(std::remove_if(e->items.begin(), e->items.end(), [&](Item &i) { return i.fd == fd && i.o.lock() == o; }), e->items.end());
  if (--o->opens == 0) o->on_close();
  o->changed();
  return 0;
}
void forget_locks();
// The kernel side of a process crash: every descriptor is closed, peers see the connection die.
void crash() {
  on_process_death = [] {
    forget_locks();
    for (auto &e : fdt) { auto s = std::dynamic_pointer_cast<Sock>(e); if (!s) continue; if (s->listening) s->on_close(); else if (s->connected && !s->closed) { s->closed = true; nopen_socks--; s->rst = true; Client *c = s->cli; if (c) after(net_latency(), [c] { if (!c->eof) { c->rst = true; c->eof = true; c->eof_t = now(); wake_all(c->q); poke(); } }); } }
    for (auto &e : fdt) e.reset(); memset(sig_handlers, 0, sizeof sig_handlers);
  };
  process_death();
}
void sys_reset() { fdt.clear(); listeners.clear(); fs::reset(); memset(sig_handlers, 0, sizeof sig_handlers); }

} // namespace sim

using namespace sim;
#define W(ret, name, ...) extern "C" ret __wrap_##name(__VA_ARGS__)

W(ssize_t, read, int fd, void *b, size_t n) { return do_read(fd, b, n, false); }
W(ssize_t, write, int fd, const void *b, size_t n) { return do_write(fd, b, n, 0); }
W(ssize_t, recv, int fd, void *b, size_t n, int fl) { return do_read(fd, b, n, fl & MSG_DONTWAIT); }
W(ssize_t, recvfrom, int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return do_read(fd, b, n, fl & MSG_DONTWAIT); }
W(ssize_t, send, int fd, const void *b, size_t n, int fl) { return do_write(fd, b, n, fl); }
W(ssize_t, sendto, int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return do_write(fd, b, n, fl); }
W(ssize_t, writev, int fd, const struct iovec *v, int c) { std::string s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); return do_write(fd, s.data(), s.size(), 0); }
W(ssize_t, readv, int fd, const struct iovec *v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, false); return 0; }
namespace sim { namespace proc { void closed(int); }}
W(int, close, int fd) { yield_sync("close"); proc::closed(fd); return do_close(fd); }
W(int, socket, int fam, int type, int) {
  yield_sync("socket");
  if (fam == AF_INET6 && choose(S_FAULT, 2)) return bad(EAFNOSUPPORT); // else it fails to bind
  if (fault("socket_emfile")) return bad(EMFILE);
  auto s = std::make_shared<Sock>(); s->nonblock = type & SOCK_NONBLOCK; return fd_alloc(s);
}
W(int, bind, int fd, const struct sockaddr *a, socklen_t) {
  yield_sync("bind");
  auto s = std::dynamic_pointer_cast<Sock>(fd_get(fd)); if (!s) return bad(EBADF);
  int port = ntohs(((const struct sockaddr_in *)a)->sin_port);
  if (a->sa_family == AF_INET6) return bad(EADDRNOTAVAIL);
  if (port_in_use.count(port) || port_listening(port)) return bad(EADDRINUSE);
  s->port = port; s->bound = true; return 0;
}
W(int, listen, int fd, int bl) {
  yield_sync("listen");
  auto s = std::dynamic_pointer_cast<Sock>(fd_get(fd)); if (!s) return bad(EBADF);
  if (!s->bound) { static int eph = 40000; s->port = eph++; }
  s->listening = true; s->backlog = bl; listeners[s->port] = s; tracef("listen port %d fd=%d", s->port, fd); poke(); return 0;
}
static int do_accept(int fd, struct sockaddr *a, socklen_t *al, int flags) {
  yield_sync("accept");
  auto s = std::dynamic_pointer_cast<Sock>(fd_get(fd)); if (!s) return bad(EBADF);
  if (!s->listening) return bad(EINVAL);
  for (;;) {
    if (s->rd_shut || s->closed) return bad(EINVAL);
    if (!s->pending.empty()) break;
    if (s->nonblock) return bad(EAGAIN);
    wait(s->rq, NEVER, "accept");
    if (take_intr() && s->pending.empty() && (s->rd_shut || s->closed)) return bad(EINTR);
  }
  if (fault("accept_emfile")) { return bad(EMFILE); }
  if (fault("accept_aborted")) { auto c = s->pending.front(); s->pending.pop_front(); c->rst = true; Client *cl = c->cli; after(net_latency(), [cl] { cl->rst = cl->eof = true; cl->eof_t = now(); wake_all(cl->q); poke(); }); return bad(ECONNABORTED); }
  auto c = s->pending.front();
  int nfd = fd_alloc(c);
  if (nfd < 0) { count("fault.accept_fdlimit"); return -1; }
  s->pending.pop_front();
  c->nonblock = flags & SOCK_NONBLOCK;
  naccepted++; nopen_socks++;
  if (a && al) {
    struct sockaddr_in sin; memset(&sin, 0, sizeof sin); sin.sin_family = AF_INET; sin.sin_port = htons(30000 + c->cli->id); sin.sin_addr.s_addr = htonl(0x0a000000 + c->cli->id);
    memcpy(a, &sin, std::min<size_t>(*al, sizeof sin)); *al = sizeof sin;
  }
  tracef("accept fd=%d -> %d (client %d)", fd, nfd, c->cli->id);
  return nfd;
}
W(int, accept4, int fd, struct sockaddr *a, socklen_t *al, int fl) { return do_accept(fd, a, al, fl); }
W(int, accept, int fd, struct sockaddr *a, socklen_t *al) { return do_accept(fd, a, al, 0); }
W(int, setsockopt, int fd, int level, int opt, const void *v, socklen_t) {
  auto s = std::dynamic_pointer_cast<Sock>(fd_get(fd)); if (!s) return bad(EBADF);
  if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
    const struct timeval *t = (const struct timeval *)v;
    if (t->tv_usec < 0 || t->tv_usec >= 1000000) return bad(EDOM);
    Time d = t->tv_sec < 0 ? 0 : t->tv_sec * SEC + t->tv_usec * US;
    (opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = d;
  }
  return 0;
}
W(int, getsockopt, int fd, int, int, void *v, socklen_t *l) { if (!fd_get(fd)) return bad(EBADF); if (v && l && *l >= 4) memset(v, 0, 4); return 0; }
W(int, getsockname, int fd, struct sockaddr *a, socklen_t *al) { auto s = std::dynamic_pointer_cast<Sock>(fd_get(fd)); if (!s) return bad(EBADF); struct sockaddr_in sin; memset(&sin, 0, sizeof sin); sin.sin_family = AF_INET; sin.sin_port = htons(s->port); memcpy(a, &sin, std::min<size_t>(*al, sizeof sin)); *al = sizeof sin; return 0; }
W(int, shutdown, int fd, int how) {
  yield_sync("shutdown");
  auto s = std::dynamic_pointer_cast<Sock>(fd_get(fd)); if (!fd_get(fd)) return bad(EBADF); if (!s) return bad(ENOTSOCK);
  tracef("shutdown fd=%d how=%d", fd, how);
  if (s->listening) { s->rd_shut = true; stop_listening(s.get()); s->changed(); poke(); return 0; }
  if (!s->connected) return bad(ENOTCONN);
  if (how == SHUT_RD || how == SHUT_RDWR) s->rd_shut = true;
  if ((how == SHUT_WR || how == SHUT_RDWR) && !s->wr_shut && !s->rst) {
    s->wr_shut = true; Client *c = s->cli; Time t = std::max(c->next_rx, now() + net_latency()); c->next_rx = t; c->fin_scheduled = true; at(t, [c] { c->deliver_fin(); });
  }
  s->changed();
  return 0;
}
W(ssize_t, sendfile, int ofd, int ifd, off_t *off, size_t n) {
  yield_sync("sendfile");
  auto s = std::dynamic_pointer_cast<Sock>(fd_get(ofd)); auto f = std::dynamic_pointer_cast<FileObj>(fd_get(ifd));
  if (!fd_get(ofd) || !fd_get(ifd)) return bad(EBADF);
  if (!f || !s) return bad(EINVAL);
  if (n && fault("sendfile_eintr")) return bad(EINTR);
  size_t pos = off ? *off : f->pos;
  size_t av = pos < f->ino->data.size() ? f->ino->data.size() - pos : 0;
  size_t k = std::min<size_t>(std::min(n, av), 0x7ffff000);
  if (k > 1 && fault("sendfile_short")) k = 1 + choose(S_FAULT, k - 1);
  if (!k) return 0;
  std::string d = f->ino->data.substr(pos, k);
  ssize_t r = sock_write(s.get(), ofd, d.data(), d.size(), 0);
  if (r > 0) { if (off) *off += r; else f->pos += r; }
  return r;
}
W(int, fcntl, int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  FdP o = fd_get(fd); if (!o) return bad(EBADF);
  if (cmd == F_GETFL) { if (auto f = dynamic_cast<FileObj *>(o.get())) return f->flags; return O_RDWR | (o->nonblock ? O_NONBLOCK : 0); }
  if (cmd == F_SETFL) { o->nonblock = arg & O_NONBLOCK; return 0; }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return fd_alloc(o);
  return 0;
}
W(int, ioctl, int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); int *p = va_arg(ap, int *); va_end(ap); auto s = std::dynamic_pointer_cast<Sock>(fd_get(fd)); if (!s) return bad(EBADF); if (req == FIONREAD) *p = s->avail(); else if (req == FIONBIO) s->nonblock = *p; return 0; }
W(int, dup, int fd) { FdP o = fd_get(fd); if (!o) return bad(EBADF); return fd_alloc(o); }

// ------------------------------------------------------------------ epoll / eventfd / timerfd / poll
W(int, epoll_create1, int) { yield_sync("epoll_create"); if (fault("epoll_emfile")) return bad(EMFILE); return fd_alloc(std::make_shared<Epoll>()); }
W(int, epoll_create, int) { return fd_alloc(std::make_shared<Epoll>()); }
W(int, epoll_ctl, int ep, int op, int fd, struct epoll_event *ev) {
  yield_sync("epoll_ctl");
  auto e = std::dynamic_pointer_cast<Epoll>(fd_get(ep)); FdP o = fd_get(fd);
  if (!e || !o) return bad(EBADF);
  auto it = std::find_if(e->items.begin(), e->items.end(), [&](Item &i) { return i.fd == fd && i.o.lock() == o; });
  if (op == EPOLL_CTL_ADD) {
    if (it != e->items.end()) return bad(EEXIST);
    if (fault("epoll_add_enospc")) return bad(ENOSPC);
    e->items.push_back(Item{fd, o, ev->events, ev->data, true});
    bool known = false; for (auto &w : o->watchers) if (w.lock() == e) known = true;
    if (!known) o->watchers.push_back(e);
    tracef("epoll add fd=%d ev=%x", fd, ev->events);
  } else if (op == EPOLL_CTL_MOD) {
    if (it == e->items.end()) return bad(ENOENT);
    it->ev = ev->events; it->data = ev->data; it->armed = true;
    tracef("epoll mod fd=%d ev=%x", fd, ev->events);
  } else if (op == EPOLL_CTL_DEL) {
    if (it == e->items.end()) return bad(ENOENT);
    e->items.erase(it);
    tracef("epoll del fd=%d", fd);
  } else return bad(EINVAL);
  wake_all(e->q);
  return 0;
}
static int do_epoll_wait(int ep, struct epoll_event *out, int max, int timeout) {
  yield_sync("epoll_wait");
  auto e = std::dynamic_pointer_cast<Epoll>(fd_get(ep));
  if (!e) return bad(EBADF);
  if (max <= 0) return bad(EINVAL);
  Time dl = timeout < 0 ? NEVER : now() + timeout * MS;
  if (fault("epoll_eintr")) return bad(EINTR);
  for (;;) {
    std::vector<size_t> ready;
    for (size_t i = 0; i < e->items.size(); i++) {
      auto &it = e->items[i]; if (!it.armed) continue;
      auto o = it.o.lock(); if (!o) continue;
      if (o->events() & (it.ev | EPOLLERR | EPOLLHUP)) ready.push_back(i);
    }
    if (!ready.empty()) {
      int n = 0;
      while (n < max && !ready.empty()) {
        size_t k = ready.size() > 1 ? choose(S_SCHED, ready.size()) : 0;
        auto &it = e->items[ready[k]]; auto o = it.o.lock();
        out[n].events = o->events() & (it.ev | EPOLLERR | EPOLLHUP); out[n].data = it.data;
        tracef("epoll_wait -> fd=%d ev=%x", it.fd, out[n].events); mix(it.fd);
        if (it.ev & EPOLLONESHOT) it.armed = false;
        n++; ready.erase(ready.begin() + k);
      }
      return n;
    }
    if (!wait(e->q, dl, "epoll_wait")) return 0;
    if (take_intr()) return bad(EINTR);
    if (e->opens == 0 && fd_get(ep) != e && 0) return bad(EBADF);
  }
}
W(int, epoll_wait, int ep, struct epoll_event *o, int m, int t) { return do_epoll_wait(ep, o, m, t); }
W(int, epoll_pwait, int ep, struct epoll_event *o, int m, int t, const sigset_t *) { return do_epoll_wait(ep, o, m, t); }
W(int, eventfd, unsigned v, int fl) { yield_sync("eventfd"); auto e = std::make_shared<EventFd>(); e->v = v; e->nonblock = fl & EFD_NONBLOCK; return fd_alloc(e); }
W(int, timerfd_create, int, int fl) { yield_sync("timerfd"); auto e = std::make_shared<TimerFd>(); e->nonblock = fl & TFD_NONBLOCK; return fd_alloc(e); }
static void arm_timer(std::shared_ptr<TimerFd> t, Time when, Time interval) {
  uint64_t g = ++t->gen; t->expiry = when;
  at(when, [t, g, interval] { if (t->gen != g || t->opens == 0) return; t->ticks++; t->expiry = NEVER; tracef("timerfd fires"); if (interval) arm_timer(t, now() + interval, interval); t->changed(); });
}
W(int, timerfd_settime, int fd, int fl, const struct itimerspec *n, struct itimerspec *old) {
  yield_sync("timerfd_settime");
  auto t = std::dynamic_pointer_cast<TimerFd>(fd_get(fd)); if (!t) return bad(EBADF);
  if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999 || n->it_value.tv_sec < 0) return bad(EINVAL);
  if (old) memset(old, 0, sizeof *old);
  t->ticks = 0; t->gen++; t->expiry = NEVER;
  Time d = n->it_value.tv_sec * SEC + n->it_value.tv_nsec;
  tracef("timerfd_settime %.3f s", d / 1e9);
  if (d) arm_timer(t, (fl & TFD_TIMER_ABSTIME) ? std::max(d, now()) : now() + d, n->it_interval.tv_sec * SEC + n->it_interval.tv_nsec);
  return 0;
}
W(int, poll, struct pollfd *p, nfds_t n, int timeout) {
  yield_sync("poll");
  Time dl = timeout < 0 ? NEVER : now() + timeout * MS;
  if (fault("poll_eintr")) return bad(EINTR);
  for (;;) {
    int r = 0; std::vector<FdP> os;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0; if (p[i].fd < 0) continue;
      FdP o = fd_get(p[i].fd);
      if (!o) { p[i].revents = POLLNVAL; r++; continue; }
      os.push_back(o);
      p[i].revents = o->events() & (p[i].events | POLLERR | POLLHUP);
      if (p[i].revents) r++;
    }
    if (r) return r;
    if (now() >= dl) return 0;
    WaitQ *q = os.empty() ? nullptr : &os[0]->rq;   // single descriptor polls only need this one
    if (os.size() > 1) { if (!wait_pred([&] { for (auto &o : os) if (o->events()) return true; return false; }, dl, "poll")) return 0; continue; }
    if (!q) { sleep_until(dl); return 0; }
    if (!wait(*q, dl, "poll")) continue;
    if (take_intr()) return bad(EINTR);
  }
}

// ------------------------------------------------------------------ names
static int gai_live;
namespace sim { int gai_outstanding() { return gai_live; } }
W(int, getaddrinfo, const char *host, const char *serv, const struct addrinfo *, struct addrinfo **res) {
  yield_sync("getaddrinfo");
  char *end; long port = strtol(serv ? serv : "0", &end, 10);
  if (!serv || *end || !*serv || port < 0 || port > 65535) return EAI_SERVICE;
  if (fault("gai_fail")) { errno = ENOENT; return EAI_AGAIN; }
  (void)host;
  struct addrinfo *a = (struct addrinfo *)calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in));
  struct sockaddr_in *sin = (struct sockaddr_in *)(a + 1); sin->sin_family = AF_INET; sin->sin_port = htons(port);
  a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (struct sockaddr *)sin; a->ai_addrlen = sizeof *sin;
  if (fault("gai_unusable_first")) { // the resolver also gives an address that does not exist here
    struct addrinfo *b = (struct addrinfo *)calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in6)); struct sockaddr_in6 *s6 = (struct sockaddr_in6 *)(b + 1); s6->sin6_family = AF_INET6; s6->sin6_port = htons(port);
    b->ai_family = AF_INET6; b->ai_socktype = SOCK_STREAM; b->ai_addr = (struct sockaddr *)s6; b->ai_addrlen = sizeof *s6; b->ai_next = a; a = b;
  }
  *res = a; gai_live++; return 0;
}
W(void, freeaddrinfo, struct addrinfo *a) { if (a) gai_live--; while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; } }
W(int, getnameinfo, const struct sockaddr *a, socklen_t, char *h, socklen_t hl, char *s, socklen_t sl, int) {
  yield_sync("getnameinfo");
  if (fault("gni_fail")) return EAI_AGAIN;
  const struct sockaddr_in *sin = (const struct sockaddr_in *)a;
  if (sin->sin_family != AF_INET) return EAI_FAMILY;
  uint32_t ip = ntohl(sin->sin_addr.s_addr);
  if (h && hl) snprintf(h, hl, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255);
  if (s && sl) snprintf(s, sl, "%u", ntohs(sin->sin_port));
  return 0;
}
W(int, getrlimit, int, struct rlimit *r) { r->rlim_cur = r->rlim_max = fd_limit; return 0; }

// ------------------------------------------------------------------ time
W(int, clock_gettime, clockid_t id, struct timespec *t) {
  Time v = now();
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) { int64_t r = (int64_t)EPOCH * (int64_t)SEC + (int64_t)v + real_skew; t->tv_sec = r / (int64_t)SEC; t->tv_nsec = r % (int64_t)SEC; return 0; }
  t->tv_sec = v / SEC; t->tv_nsec = v % SEC; return 0;
}
W(time_t, time, time_t *p) { int64_t r = (int64_t)EPOCH * (int64_t)SEC + (int64_t)now() + real_skew; time_t t = r / (int64_t)SEC; if (p) *p = t; return t; }
W(int, gettimeofday, struct timeval *tv, void *) { int64_t r = (int64_t)EPOCH * (int64_t)SEC + (int64_t)now() + real_skew; tv->tv_sec = r / (int64_t)SEC; tv->tv_usec = (r % (int64_t)SEC) / 1000; return 0; }
W(unsigned, sleep, unsigned s) { sleep_for(s * SEC); return 0; }
W(int, usleep, useconds_t u) { sleep_for(u * US); return 0; }
W(int, nanosleep, const struct timespec *r, struct timespec *) { sleep_for(r->tv_sec * SEC + r->tv_nsec); return 0; }

// ------------------------------------------------------------------ signals, process
namespace sim { void *signal_handler(int s) { return sig_handlers[s]; } }
typedef void (*sigh_t)(int);
W(sigh_t, signal, int s, sigh_t h) { void *o = sig_handlers[s]; sig_handlers[s] = (void *)h; return (sigh_t)o; }
W(int, sigaction, int s, const struct sigaction *a, struct sigaction *o) { if (o) { memset(o, 0, sizeof *o); o->sa_handler = (sigh_t)sig_handlers[s]; } if (a) sig_handlers[s] = (void *)a->sa_handler; return 0; }
W(void, __assert_fail, const char *e, const char *f, unsigned l, const char *) { const char *b = strrchr(f, '/'); violation("assert", "assertion failed: %s at %s:%u", e, b ? b + 1 : f, l); }
static struct passwd pw;
static bool pw_fill(uid_t u, struct passwd *p, char *b, size_t l) { static char e[] = "", d[] = "/"; if (u >= 4000) return false; if (u == 1000) snprintf(b, l, "simuser"); else snprintf(b, l, "user%u", (unsigned)u); p->pw_name = b; p->pw_uid = u; p->pw_dir = d; p->pw_shell = p->pw_gecos = p->pw_passwd = e; return true; }
W(struct passwd *, getpwuid, uid_t u) { static char n[64]; yield_sync("getpwuid"); if (!pw_fill(u, &pw, n, sizeof n)) return nullptr; yield_sync("getpwuid-done"); return &pw; } // a static buffer, as in libc
W(int, getpwuid_r, uid_t u, struct passwd *p, char *b, size_t l, struct passwd **r) { yield_sync("getpwuid_r"); *r = pw_fill(u, p, b, l) ? p : nullptr; return 0; }
