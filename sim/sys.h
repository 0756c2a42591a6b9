// Simulated operating system: file descriptors, TCP, epoll, eventfd, timerfd, in-memory file system.
#pragma once
#include "core.h"
#include <string>
#include <memory>
#include <set>
#include <deque>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/epoll.h>

namespace sim {

struct Epoll;
struct FdObj : std::enable_shared_from_this<FdObj> {
  std::vector<std::weak_ptr<Epoll>> watchers;
  WaitQ rq, wq;
  bool nonblock = false;
  int opens = 0;
  virtual ~FdObj() {}
  virtual uint32_t events() { return 0; }
  virtual const char *type() = 0;
  virtual void on_close() {}
  void changed();
};
typedef std::shared_ptr<FdObj> FdP;

extern std::function<ssize_t(const std::string &)> stderr_sink; // what the code under test writes to its standard error
extern std::function<void(int, const std::string &)> syslog_sink;
FdP fd_get(int fd);
int fd_alloc(FdP o);            // -1/EMFILE
int fd_open_count();
std::string fd_list();
extern int fd_limit;
extern int fd_base;

// ------------------------------------------------------------------ TCP
struct Client;
struct Sock : FdObj {
  int port = 0; bool bound = false, listening = false; int backlog = 5;
  std::deque<std::shared_ptr<Sock>> pending;     // accept queue
  // connected endpoint (server side)
  bool connected = false;
  std::string rx; size_t rxpos = 0; bool rx_fin = false, rd_shut = false, wr_shut = false, rst = false; bool rst_reported = false;
  size_t txcap = 65536; size_t inflight = 0;
  Time rcvtimeo = 0, sndtimeo = 0;
  Client *cli = nullptr;
  bool closed = false;
  bool dead_peer = false;      // peer closed: next write triggers reset
  size_t avail() const { return rx.size() - rxpos; }
  uint32_t events() override;
  const char *type() override { return "sock"; }
  void on_close() override;
};
struct NetCfg {
  Time lat_min = 50 * US, lat_max = 2 * MS;
  Time stall_max = 0;               // occasional long delay on a segment
  unsigned stall_rate = 0;          // 1/256
};
extern NetCfg net;
Time net_latency();

// The remote peer. Used from client fibers (never preempted inside).
struct Client {
  int id; std::shared_ptr<Sock> s;
  std::string rx;                   // everything received so far
  bool eof = false, rst = false, closed = false, connected = false, refused = false;
  Time connect_t = 0, eof_t = 0, last_rx_t = 0, last_tx_t = 0, last_tx_arrive = 0;
  Time next_arrive = 0, next_rx = 0;
  bool reading = true; std::string held; bool held_fin = false, fin_scheduled = false;
  size_t sent = 0;
  WaitQ q;
  std::vector<std::pair<size_t, Time>> rx_marks;
  bool connect(int port, Time deadline = NEVER);
  // segments: sizes drawn from the NET stream
  void send(const std::string &data, int segmode);
  void send_raw(const std::string &data, Time gap);      // one segment after gap
  void shutdown_wr();
  void close();                     // full close (FIN), further server writes get RST
  void reset();                     // RST
  void pause() { reading = false; }
  void resume();
  bool wait_rx(const std::function<bool()> &pred, Time deadline);
  void deliver(const std::string &d);
  void deliver_fin();
};
enum { SEG_WHOLE, SEG_BYTES, SEG_RANDOM, SEG_FEW, SEG_MTU, SEG_NMODES };
std::vector<size_t> segment_plan(size_t n, int mode);
bool port_listening(int port);
int port_backlog(int port);
uint64_t accepted_conns();
uint64_t server_open_socks();      // accepted sockets not yet closed by the server
extern std::function<void(const char *op, int fd, FdObj *o)> sys_hook;
extern std::set<int> port_in_use;  // bind() on these fails

// sigs
extern void *sig_handlers[65];

// ------------------------------------------------------------------ in-memory file system
struct Inode;
typedef std::shared_ptr<Inode> InoP;
struct Inode {
  int ino; mode_t mode; std::string data; std::map<std::string, InoP> ent; std::string link; time_t mtime = 1400000000; int dev = 1; int uid = 1000; int nlink = 1;
  bool is_dir() const { return S_ISDIR(mode); }
  bool is_reg() const { return S_ISREG(mode); }
  bool is_lnk() const { return S_ISLNK(mode); }
};
struct FileObj : FdObj {
  InoP ino; size_t pos = 0; int flags = 0; std::string path;
  const char *type() override { return "file"; }
  uint32_t events() override { return EPOLLIN | EPOLLOUT; }
};
namespace fs {
void reset();
InoP lookup(const std::string &path, bool follow = true, int *err = nullptr);
InoP put_file(const std::string &path, const std::string &data, mode_t mode = 0644);
InoP put_dir(const std::string &path, mode_t mode = 0755);
InoP put_link(const std::string &path, const std::string &target);
bool remove_path(const std::string &path);
std::string real(const std::string &path, int *err = nullptr);
std::vector<std::string> list(const std::string &dir);    // full recursive listing of files
extern std::vector<std::pair<std::string, std::string>> mutations;  // (op, resolved path) of every successful or attempted destructive call
extern std::function<void(const char *op, const std::string &path, int fd)> op_hook;
extern std::function<void(const char *op, const std::string &canon)> mut_hook;   // after every change of the tree
extern long disk_left;            // bytes until ENOSPC; <0: unlimited
extern std::set<std::string> foreign_dev;   // path prefixes on another device (rename -> EXDEV)
}

void sys_reset();
void crash();                     // the server process dies here and now
} // namespace sim
