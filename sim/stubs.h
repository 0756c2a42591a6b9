// Stand-ins for the external services: TLS library, redis, PAM, systemd.
#pragma once
#include "core.h"
#include <map>
#include <set>
#include <string>
namespace sim {
// ---- TLS stand-in. Records: type(1) 03 03 len(2) payload^0x5a. Handshake: one record of type 0x16 each way.
std::string tls_record(int type, const std::string &payload);
std::string tls_client_hello();
// splits data in records of at most maxrec bytes of plaintext
std::string tls_wrap(const std::string &plain, size_t maxrec);
struct TlsDec { std::string raw; std::string plain; std::string cert; bool hello = false, bye = false, bad = false; size_t used = 0; void feed(const std::string &all); };
extern int tls_sessions_live, tls_creds_live, tls_dh_live, tls_prio_live;
// ---- redis stand-in
namespace redis { extern std::map<std::string, std::string> sessions; extern int ctx_live, replies_live; void reset(); }
// ---- PAM stand-in
namespace pam { extern std::map<std::string, std::string> users; extern std::set<std::string> expired; extern int live; }
// deterministic random bytes, independent of the recorded choices (so minimising cannot create collisions)
void rnd_bytes(void *p, size_t n);
std::string sha1(const std::string &d);
}
