// Server under test, HTTP client side, request generator with its expected observation, response parser.
#pragma once
#include "scen.h"
#include "stubs.h"
#include <onion/onion.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/log.h>
#include <onion/poller.h>
#include <onion/sessions.h>
#include <set>
#include <functional>

namespace sim {
typedef std::vector<std::pair<std::string, std::string>> Pairs;
typedef std::multiset<std::pair<std::string, std::string>> PSet;

int threads_alive(); int threads_created(); Fiber *thread_fiber(size_t i); int gai_outstanding(); int open_dirs();

struct Obs {                       // what a handler can see of a request
  std::string method, fullpath, path; bool http11 = false;
  PSet headers, query, cookies, post; PSet files; // files: (field, content)
  bool has_data = false; std::string data;
};
std::string obs_diff(const Obs &want, const Obs &got, bool cmp_headers = true);
std::string esc(const std::string &s, size_t max = 120);
Obs observe(onion_request *req);
PSet dict_pairs(const onion_dict *d);

struct HReq {
  std::string raw; Obs exp; std::string id; bool head = false; bool keepalive = false; bool is_put = false, has_files = false, has_body = false;
  size_t header_end = 0;
};
struct GenCfg {
  bool post_url = true, post_multi = true, post_raw = true, put = true, other = true, odd_headers = true, lf_only = true, folded = true;
  size_t max_body = 3000; int max_headers = 6; bool files = true; bool big = false;
};
HReq gen_request(const GenCfg &g, const std::string &id, bool keepalive);
std::string rand_bytes(Stream s, size_t n, const char *alphabet = nullptr);
std::string rand_content(size_t n);     // body bytes with CR/LF/dash rich regions
size_t rand_size(size_t max);

struct HResp {
  int status = 0; std::string version, reason; Pairs headers; std::string body; size_t end = 0;
  bool complete = false, bad = false; std::string why; bool keepalive = false; enum { NONE, LENGTH, CHUNKED, CLOSE } framing = NONE; size_t length = 0; bool head_done = false;
  std::string get(const std::string &k) const; int countk(const std::string &k) const;
};
// Parses the response that starts at rx[off]. Strict about framing.
HResp parse_response(const std::string &rx, size_t off, bool head, bool eof);

struct SrvCfg { int mode = O_POOL; int threads = 4; int timeout = 3600 * 1000; long max_post = -1, max_file = -1; int port = 8080; bool https = false; bool detach = false; int extra_flags = 0; };
struct Srv {
  onion *o = nullptr; Fiber *f = nullptr; SrvCfg c; bool listening_done = false; int listen_ret = -99;
  std::function<int(onion_request *, onion_response *)> handler;
  void create(const SrvCfg &cfg);
  void start();                       // spawns the listening thread, waits for the port
  bool stop(Time bound = 120 * SEC);  // stop + wait; violation when it does not return
  void destroy();
  static int tramp(void *p, onion_request *req, onion_response *res);
};
void tls_files(const std::string &name); // certificate files of that name
int tls_set(const std::string &name, onion_listen_point *lp, onion *o, int way); // sets them to the listen point, or to the server
SrvCfg rand_srv(bool concurrent_only = false);
const char *mode_name(int m);
void quiet_log();
// A client that can talk plain or TLS; text()/plain() is always the plaintext stream
struct Conn {
  Client c; bool tls = false; TlsDec dec; size_t off = 0; size_t maxrec = 16384; char key = 0; std::string clear; // key: a transport of the application, that xors each byte
  bool open(int port, bool use_tls, Time deadline = NEVER);
  void send(const std::string &plain, int seg);
  std::string encode(const std::string &plain);
  const std::string &rx();
  bool eof() { return c.eof || (tls && (rx(), dec.bye)); }
  // waits for one complete response starting at off; advances off
  HResp response(bool head, Time bound, bool must = true, const char *ctx = "");
};
extern Time liveness_bound;
void base_setup(bool concurrent);      // scheduler + network + defaults
void net_faults();                     // draws a set of benign network fault rates (no data loss semantics)
void warm_up();                        // one server lifetime, so that process-wide caches exist before a snapshot
void check_clean(const char *when, MemSnapshot ms, int fds); // no leftovers
}
