#include "stubs.h"
#include "sys.h"
#include <gnutls/gnutls.h>
#include <gnutls/crypto.h>
#include <hiredis/hiredis.h>
#include <security/pam_appl.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <stdarg.h>

extern "C" ssize_t __wrap_read(int, void *, size_t);
extern "C" ssize_t __wrap_write(int, const void *, size_t);
#define W(ret, name, ...) extern "C" ret __wrap_##name(__VA_ARGS__)

namespace sim {
std::string sha1(const std::string &d) {
  uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  std::string m = d; uint64_t bits = (uint64_t)d.size() * 8; m += (char)0x80; while (m.size() % 64 != 56) m += (char)0;
  for (int i = 7; i >= 0; i--) m += (char)(bits >> (8 * i));
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[80]; for (int i = 0; i < 16; i++) w[i] = ((uint32_t)(uint8_t)m[o + 4 * i] << 24) | ((uint32_t)(uint8_t)m[o + 4 * i + 1] << 16) | ((uint32_t)(uint8_t)m[o + 4 * i + 2] << 8) | (uint8_t)m[o + 4 * i + 3];
    for (int i = 16; i < 80; i++) { uint32_t x = w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]; w[i] = (x << 1) | (x >> 31); }
    uint32_t a = h[0], b = h[1], c = h[2], dd = h[3], e = h[4];
    for (int i = 0; i < 80; i++) {
      uint32_t f, k; if (i < 20) { f = (b & c) | (~b & dd); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ dd; k = 0x6ED9EBA1; } else if (i < 60) { f = (b & c) | (b & dd) | (c & dd); k = 0x8F1BBCDC; } else { f = b ^ c ^ dd; k = 0xCA62C1D6; }
      uint32_t t = ((a << 5) | (a >> 27)) + f + e + k + w[i]; e = dd; dd = c; c = (b << 30) | (b >> 2); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += dd; h[4] += e;
  }
  std::string r; for (int i = 0; i < 5; i++) for (int j = 3; j >= 0; j--) r += (char)(h[i] >> (8 * j));
  return r;
}

int tls_sessions_live, tls_creds_live, tls_dh_live, tls_prio_live;
static std::string xr(std::string s) { for (auto &c : s) c ^= 0x5a; return s; }
std::string tls_record(int type, const std::string &p) { std::string r; r += (char)type; r += "\x03\x03"; r += (char)(p.size() >> 8); r += (char)(p.size() & 255); return r + xr(p); }
std::string tls_client_hello() { return tls_record(0x16, "CLIENTHELLO"); }
std::string tls_wrap(const std::string &plain, size_t maxrec) { std::string r; for (size_t i = 0; i < plain.size(); i += maxrec) r += tls_record(0x17, plain.substr(i, maxrec)); return r; }
void TlsDec::feed(const std::string &all) {
  while (!bad && all.size() - used >= 5) {
    unsigned t = (unsigned char)all[used]; size_t l = ((unsigned char)all[used + 3] << 8) | (unsigned char)all[used + 4];
    if ((t != 0x15 && t != 0x16 && t != 0x17) || all[used + 1] != 3 || all[used + 2] != 3 || l > 16384) { bad = true; return; }
    if (all.size() - used < 5 + l) return;
    std::string p = xr(all.substr(used + 5, l)); used += 5 + l;
    if (t == 0x16) { hello = true; cert = p.substr(12); } else if (t == 0x15) bye = true; else { if (!hello) bad = true; plain += p; }
  }
}
struct TlsCred { int magic = 0x7c4ed; std::string cert; }; // cert: the certificate set, if its key was there
struct TlsSess { TlsCred *cred = nullptr; bool prio = false; int fd = -1; std::string in; std::string plain; size_t ppos = 0; bool hs = false, sent_hello = false, bye = false, eof = false; std::string out; size_t outpos = 0; size_t outdata = 0; };
// returns 1 when a whole record is available, 0 EOF, <0 gnutls error
static int get_record(TlsSess *s, int *type, std::string *p) {
  for (;;) {
    if (s->in.size() >= 5) {
      unsigned t = (unsigned char)s->in[0]; size_t l = ((unsigned char)s->in[3] << 8) | (unsigned char)s->in[4];
      if ((t != 0x15 && t != 0x16 && t != 0x17) || s->in[1] != 3 || s->in[2] != 3) return GNUTLS_E_UNSUPPORTED_VERSION_PACKET;
      if (l > 16384) return GNUTLS_E_RECORD_OVERFLOW;
      if (s->in.size() >= 5 + l) { *type = t; *p = xr(s->in.substr(5, l)); s->in.erase(0, 5 + l); return 1; }
    }
    // like gnutls: reads no further than the current record
    size_t want = s->in.size() < 5 ? 5 - s->in.size() : 5 + (((unsigned char)s->in[3] << 8) | (unsigned char)s->in[4]) - s->in.size();
    std::string b(want, 0);
    ssize_t r = __wrap_read(s->fd, &b[0], want);
    if (r < 0) { if (errno == EAGAIN) return GNUTLS_E_AGAIN; if (errno == EINTR) return GNUTLS_E_INTERRUPTED; return GNUTLS_E_PULL_ERROR; }
    if (r == 0) return s->in.empty() ? 0 : GNUTLS_E_PREMATURE_TERMINATION;
    s->in.append(b.data(), r);
  }
}
static int flush(TlsSess *s) {
  while (s->outpos < s->out.size()) {
    ssize_t r = __wrap_write(s->fd, s->out.data() + s->outpos, s->out.size() - s->outpos);
    if (r < 0) { if (errno == EAGAIN) return GNUTLS_E_AGAIN; if (errno == EINTR) return GNUTLS_E_INTERRUPTED; return GNUTLS_E_PUSH_ERROR; }
    s->outpos += r;
  }
  s->out.clear(); s->outpos = 0; return 0;
}
namespace redis { std::map<std::string, std::string> sessions; int ctx_live, replies_live; void reset() { sessions.clear(); ctx_live = replies_live = 0; } }
namespace pam { std::map<std::string, std::string> users; std::set<std::string> expired; int live; }
}
using namespace sim;
#define TS(x) ((TlsSess *)(x))
W(int, gnutls_global_init, void) { yield_sync("tls"); return 0; }
W(void, gnutls_global_deinit, void) {}
W(int, gnutls_certificate_allocate_credentials, gnutls_certificate_credentials_t *c) { *c = (gnutls_certificate_credentials_t) new TlsCred; tls_creds_live++; return 0; }
W(void, gnutls_certificate_free_credentials, gnutls_certificate_credentials_t c) { if (c) tls_creds_live--; delete (TlsCred *)c; }
W(void, gnutls_certificate_set_dh_params, gnutls_certificate_credentials_t, gnutls_dh_params_t) {}
// A certificate file is "CERT PEM name" or "CERT DER name", its key file "KEY name", a PKCS12 file "P12 PEM name password"
static int set_cert(gnutls_certificate_credentials_t c, const char *f, const char *k, gnutls_x509_crt_fmt_t fmt, bool p12) {
  TlsCred *t = (TlsCred *)c; check_mem(t, sizeof *t, "TLS credentials"); auto i = fs::lookup(f); if (!i) return GNUTLS_E_FILE_ERROR; std::string pre = std::string(p12 ? "P12 " : "CERT ") + (fmt == GNUTLS_X509_FMT_DER ? "DER " : "PEM ");
  if (i->data.compare(0, pre.size(), pre)) return GNUTLS_E_ASN1_DER_ERROR; std::string name = i->data.substr(pre.size());
  if (p12) { size_t sp = name.find(' '); if (!k || name.substr(sp + 1) != k) return GNUTLS_E_DECRYPTION_FAILED; name.resize(sp); } else { auto j = k ? fs::lookup(k) : nullptr; if (!j) return GNUTLS_E_FILE_ERROR; if (j->data != "KEY " + name) return GNUTLS_E_CERTIFICATE_KEY_MISMATCH; }
  t->cert = name; return 0;
}
W(int, gnutls_certificate_set_x509_crl_file, gnutls_certificate_credentials_t, const char *f, gnutls_x509_crt_fmt_t) { return fs::lookup(f) ? 1 : GNUTLS_E_FILE_ERROR; }
W(int, gnutls_certificate_set_x509_key_file, gnutls_certificate_credentials_t c, const char *f, const char *k, gnutls_x509_crt_fmt_t fmt) { return set_cert(c, f, k, fmt, false); }
W(int, gnutls_certificate_set_x509_trust_file, gnutls_certificate_credentials_t, const char *f, gnutls_x509_crt_fmt_t) { return fs::lookup(f) ? 1 : GNUTLS_E_FILE_ERROR; }
W(int, gnutls_certificate_set_x509_simple_pkcs12_file, gnutls_certificate_credentials_t c, const char *f, gnutls_x509_crt_fmt_t fmt, const char *pw) { return set_cert(c, f, pw, fmt, true); }
W(int, gnutls_credentials_set, gnutls_session_t s, gnutls_credentials_type_t t, void *c) { if (t == GNUTLS_CRD_CERTIFICATE) TS(s)->cred = (TlsCred *)c; return 0; }
W(int, gnutls_dh_params_init, gnutls_dh_params_t *d) { if (fault("tls_init_fail")) return GNUTLS_E_MEMORY_ERROR; *d = (gnutls_dh_params_t)malloc(8); tls_dh_live++; return 0; }
W(void, gnutls_dh_params_deinit, gnutls_dh_params_t d) { if (d) tls_dh_live--; free(d); }
W(int, gnutls_dh_params_generate2, gnutls_dh_params_t, unsigned) { if (fault("tls_init_fail")) return GNUTLS_E_MEMORY_ERROR; return 0; }
W(int, gnutls_priority_init, gnutls_priority_t *p, const char *, const char **) { if (fault("tls_init_fail")) return GNUTLS_E_MEMORY_ERROR; *p = (gnutls_priority_t)malloc(8); tls_prio_live++; return 0; }
W(void, gnutls_priority_deinit, gnutls_priority_t p) { if (p) tls_prio_live--; free(p); }
W(int, gnutls_priority_set, gnutls_session_t s, gnutls_priority_t p) { check_mem(p, 8, "TLS priorities"); TS(s)->prio = true; return 0; }
W(unsigned, gnutls_sec_param_to_pk_bits, gnutls_pk_algorithm_t, gnutls_sec_param_t) { return 1024; }
W(void, gnutls_session_enable_compatibility_mode, gnutls_session_t) {}
W(const char *, gnutls_strerror, int) { return "tls error"; }
W(int, gnutls_error_is_fatal, int e) { return !(e >= 0 || e == GNUTLS_E_AGAIN || e == GNUTLS_E_INTERRUPTED || e == GNUTLS_E_WARNING_ALERT_RECEIVED); }
W(int, gnutls_init, gnutls_session_t *s, unsigned) { yield_sync("tls"); *s = (gnutls_session_t) new TlsSess; tls_sessions_live++; return 0; }
W(void, gnutls_deinit, gnutls_session_t s) { if (s) tls_sessions_live--; delete TS(s); }
W(void, gnutls_transport_set_ptr, gnutls_session_t s, gnutls_transport_ptr_t p) { TS(s)->fd = (int)(long)p; }
W(void, gnutls_transport_set_int2, gnutls_session_t s, int a, int) { TS(s)->fd = a; }
W(size_t, gnutls_record_check_pending, gnutls_session_t s) { return TS(s)->plain.size() - TS(s)->ppos; }
W(void, gnutls_handshake_set_timeout, gnutls_session_t, unsigned) {}
W(int, gnutls_handshake, gnutls_session_t ss) {
  TlsSess *s = TS(ss);
  if (s->hs) return 0;
  if (!s->sent_hello) {
    int t; std::string p; int r = get_record(s, &t, &p);
    if (r < 0) return r;
    if (r == 0) return GNUTLS_E_PREMATURE_TERMINATION;
    if (t != 0x16 || p != "CLIENTHELLO") return GNUTLS_E_UNEXPECTED_PACKET;
    if (s->cred) check_mem(s->cred, sizeof *s->cred, "TLS credentials");
    if (!s->prio || !s->cred || s->cred->cert.empty()) return GNUTLS_E_NO_CIPHER_SUITES; // without certificate there is nothing to agree on
    s->out += tls_record(0x16, "SERVERHELLO " + s->cred->cert); s->sent_hello = true;
  }
  int r = flush(s); if (r < 0) return r;
  s->hs = true; return 0;
}
W(ssize_t, gnutls_record_recv, gnutls_session_t ss, void *buf, size_t n) {
  TlsSess *s = TS(ss);
  check_mem(s, sizeof *s, "TLS session");
  if (!s->hs) return GNUTLS_E_INVALID_SESSION;
  while (s->ppos == s->plain.size()) {
    if (s->eof) return 0;
    int t; std::string p; int r = get_record(s, &t, &p);
    if (r < 0) return r;
    if (r == 0) { s->eof = true; return 0; }
    if (t == 0x15) { s->eof = true; return 0; }
    if (t != 0x17) return GNUTLS_E_UNEXPECTED_PACKET;
    s->plain = p; s->ppos = 0;
  }
  size_t k = std::min(n, s->plain.size() - s->ppos);
  check_mem(buf, k, "TLS receive buffer");
  memcpy(buf, s->plain.data() + s->ppos, k); s->ppos += k;
  return k;
}
W(ssize_t, gnutls_record_send, gnutls_session_t ss, const void *buf, size_t n) {
  TlsSess *s = TS(ss);
  check_mem(s, sizeof *s, "TLS session");
  if (!s->hs) return GNUTLS_E_INVALID_SESSION;
  if (s->bye) return GNUTLS_E_PUSH_ERROR;
  check_mem(buf, n, "TLS send buffer");
  if (s->out.empty()) {
    if (!n) return 0;
    size_t k = std::min<size_t>(n, 16384);
    s->outdata = k; s->out = tls_record(0x17, std::string((const char *)buf, k));
  }
  int r = flush(s); if (r < 0) return r;
  return s->outdata;
}
W(int, gnutls_bye, gnutls_session_t ss, gnutls_close_request_t how) {
  TlsSess *s = TS(ss); if (!s->hs) return 0;
  if (!s->bye) { s->bye = true; s->out += tls_record(0x15, "\x01"); }
  if (int r = flush(s)) return r;
  // a close in both directions waits for the alert of the peer, and drops what comes before it
  if (how == GNUTLS_SHUT_RDWR) for (;;) { int t; std::string p; int r = get_record(s, &t, &p); if (r == 0) return 0; if (r < 0) return r; if (t == 0x15) return 0; }
  return 0;
}
namespace sim { void rnd_bytes(void *p, size_t n) { static uint64_t x = 0x853c49e6748fea9bull; for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; ((unsigned char *)p)[i] = (unsigned char)(x >> 56); } } }
W(int, gnutls_rnd, gnutls_rnd_level_t, void *p, size_t n) { yield_sync("rnd"); check_mem(p, n, "random buffer"); rnd_bytes(p, n); return 0; }
W(int, gnutls_hash_fast, gnutls_digest_algorithm_t a, const void *d, size_t n, void *out) { if (a != GNUTLS_DIG_SHA1) return GNUTLS_E_INVALID_REQUEST; check_mem(d, n, "hash input"); std::string r = sha1(std::string((const char *)d, n)); memcpy(out, r.data(), 20); return 0; }
extern "C" int __wrap_gcry_control(int, ...) { return 0; }
// random-default and friends
W(int, rand, void) { unsigned v; rnd_bytes(&v, 4); return v & 0x7fffffff; }
W(void, srand, unsigned) {}

// ------------------------------------------------------------------ redis
W(redisContext *, redisConnect, const char *, int) { yield_sync("redis"); auto c = (redisContext *)calloc(1, sizeof(redisContext)); redis::ctx_live++; if (fault("redis_connect_fail")) { c->err = REDIS_ERR_IO; snprintf(c->errstr, sizeof c->errstr, "refused"); } return c; }
W(redisContext *, redisConnectWithTimeout, const char *, int, const struct timeval) { auto c = (redisContext *)calloc(1, sizeof(redisContext)); redis::ctx_live++; return c; }
W(void, redisFree, redisContext *c) { if (c) redis::ctx_live--; free(c); }
W(void, freeReplyObject, void *r_) { auto r = (redisReply *)r_; if (!r) return; redis::replies_live--; free(r->str); free(r); }
static redisReply *mkreply(int type) { auto r = (redisReply *)calloc(1, sizeof(redisReply)); r->type = type; redis::replies_live++; return r; }
W(void *, redisCommand, redisContext *c, const char *fmt, ...) {
  yield_sync("redis");
  std::vector<std::string> args; va_list ap; va_start(ap, fmt);
  std::string f = fmt; size_t i = 0;
  while (i < f.size()) { size_t j = f.find(' ', i); if (j == std::string::npos) j = f.size(); std::string w = f.substr(i, j - i); i = j + 1; if (w == "%b") { const char *p = va_arg(ap, const char *); size_t n = va_arg(ap, size_t); check_mem(p, n, "redis argument"); args.push_back(std::string(p, n)); } else if (w == "%s") args.push_back(va_arg(ap, const char *)); else args.push_back(w); }
  va_end(ap);
  // a connection of hiredis is not to be used by two threads at the same time
  static std::set<redisContext *> busy; struct InUse { redisContext *c; InUse(redisContext *c) : c(c) { if (!busy.insert(c).second) violation("store-race", "two threads use the same connection to redis at the same time"); yield_sync("redis-send"); } ~InUse() { busy.erase(c); } } in_use(c);
  if (c->err) return nullptr;
  if (fault("redis_io_error")) { c->err = REDIS_ERR_IO; return nullptr; }
  if (fault("redis_error_reply")) { auto r = mkreply(REDIS_REPLY_ERROR); r->str = strdup("ERR injected"); r->len = strlen(r->str); return r; }
  auto &m = redis::sessions;
  const std::string &cmd = args[0];
  redisReply *r;
  if (cmd == "HEXISTS" && args.size() == 3) { r = mkreply(REDIS_REPLY_INTEGER); r->integer = m.count(args[2]); }
  else if (cmd == "HGET" && args.size() == 3) { if (fault("redis_evicted")) m.erase(args[2]); if (m.count(args[2])) { r = mkreply(REDIS_REPLY_STRING); auto &v = m[args[2]]; r->str = (char *)malloc(v.size() + 1); memcpy(r->str, v.data(), v.size()); r->str[v.size()] = 0; r->len = v.size(); } else r = mkreply(REDIS_REPLY_NIL); }
  else if (cmd == "HDEL" && args.size() == 3) { r = mkreply(REDIS_REPLY_INTEGER); r->integer = m.erase(args[2]); }
  else if (cmd == "HSET" && args.size() == 4) { r = mkreply(REDIS_REPLY_INTEGER); r->integer = !m.count(args[2]); m[args[2]] = args[3]; }
  else if ((cmd == "DEL") && args.size() == 2) { r = mkreply(REDIS_REPLY_INTEGER); r->integer = 0; m.clear(); }
  else { r = mkreply(REDIS_REPLY_ERROR); r->str = strdup("ERR unknown command"); r->len = strlen(r->str); }
  count("redis.commands");
  yield_sync("redis-done");
  return r;
}

// ------------------------------------------------------------------ PAM, systemd
struct PamH { std::string user; struct pam_conv conv; };
W(int, pam_start, const char *svc, const char *user, const struct pam_conv *c, pam_handle_t **h) { yield_sync("pam"); if (fault("pam_start_fail")) { *h = nullptr; return PAM_SYSTEM_ERR; } auto p = new PamH; p->user = std::string(svc ? svc : "") + "/" + (user ? user : ""); p->conv = *c; *h = (pam_handle_t *)p; pam::live++; return PAM_SUCCESS; }
W(int, pam_authenticate, pam_handle_t *h, int) {
  yield_sync("pam");
  auto p = (PamH *)h; struct pam_message m = {PAM_PROMPT_ECHO_OFF, "Password: "}; const struct pam_message *mm = &m; struct pam_response *r = nullptr;
  int e = p->conv.conv(1, &mm, &r, p->conv.appdata_ptr);
  if (e != PAM_SUCCESS || !r) return PAM_CONV_ERR;
  std::string pw = r->resp ? r->resp : "";
  extern void sim_user_free(void *); sim_user_free(r->resp); sim_user_free(r);
  if (fault("pam_fail")) return PAM_AUTHINFO_UNAVAIL;
  auto it = pam::users.find(p->user);
  return it != pam::users.end() && it->second == pw ? PAM_SUCCESS : PAM_AUTH_ERR;
}
W(int, pam_acct_mgmt, pam_handle_t *h, int) { yield_sync("pam"); return pam::expired.count(((PamH *)h)->user) ? PAM_ACCT_EXPIRED : PAM_SUCCESS; }
W(int, pam_end, pam_handle_t *h, int) { if (h) { pam::live--; delete (PamH *)h; } return PAM_SUCCESS; }
W(int, sd_listen_fds, int) { return 0; }
