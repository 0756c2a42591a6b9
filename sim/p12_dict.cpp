// P12: dictionaries are sorted maps (with repeated keys where asked for), also when several threads share them, and live as long as somebody holds them.
#include "http.h"
#include <string.h>
#include <algorithm>
#include <deque>
extern "C" {
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/low.h>
}
using namespace sim;

namespace {
struct Val; typedef std::pair<std::string, Val> Ent; typedef std::vector<Ent> Ents;
struct Val { bool dict = false; std::string s; std::vector<std::pair<std::string, Val>> d; };
bool eq(const Val &a, const Val &b); int cmp(const Val &a, const Val &b);
int cmp(const Ents &a, const Ents &b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) { int c = a[i].first.compare(b[i].first); if (!c) c = cmp(a[i].second, b[i].second); if (c) return c; } return a.size() < b.size() ? -1 : a.size() > b.size(); }
int cmp(const Val &a, const Val &b) { if (a.dict != b.dict) return a.dict ? 1 : -1; int c = a.s.compare(b.s); return c ? c : cmp(a.d, b.d); }
void norm(Ents &e) { for (auto &x : e) norm(x.second.d); std::sort(e.begin(), e.end(), [](const Ent &a, const Ent &b) { int c = a.first.compare(b.first); return c ? c < 0 : cmp(a.second, b.second) < 0; }); }
std::string show(const Ents &e) { std::string r; for (auto &x : e) { r += esc(x.first, 20) + ":" + (x.second.dict ? "{" + show(x.second.d) + "}" : esc(x.second.s, 20)) + " "; if (r.size() > 400) { r += "..."; break; } } return r; }
struct Walk { Ents e; bool icase, top; std::string prev; bool sorted = true; };
void visit(void *p, const char *key, const void *value, int flags) {
  Walk *w = (Walk *)p; if (!w->e.empty() && (w->icase ? strcasecmp(w->prev.c_str(), key) : strcmp(w->prev.c_str(), key)) > 0) w->sorted = false; w->prev = key;
  Val v; if (flags & OD_DICT) { v.dict = true; Walk s; s.icase = false; onion_dict_preorder((const onion_dict *)value, (void *)visit, &s); if (!s.sorted) w->sorted = false; v.d = s.e; } else v.s = (const char *)value;
  w->e.push_back({key, v});
}
Ents walk(const onion_dict *d, bool icase, const char *ctx) { Walk w; w.icase = icase; onion_dict_preorder(d, (void *)visit, &w); if (!w.sorted) violation("not-sorted", "%s: keys are not in order: %s", ctx, show(w.e).c_str()); norm(w.e); return w.e; }
std::string text(bool key, bool icase) {
  static const char *k[] = {"a", "b", "c", "aa", "ab", "B", "A", "Aa", "key", "KEY", "zz", "", "0", "1", "2", "3", "4", "5", "6", "7"}; (void)icase;
  if (key && choose(S_WORK, 8)) return k[choose(S_WORK, 20)];
  if (choose(S_WORK, 4)) return rand_bytes(S_WORK, choose(S_WORK, 30), "abcxyz \"\\/\n\t{}:,");
  std::string s = rand_bytes(S_WORK, rand_size(choose(S_WORK, 6) ? 40 : 3000)); for (auto &c : s) if (!c) c = 'x'; return s;
}
char *low_dup(const std::string &s) { return onion_low_strdup(s.c_str()); }
onion_dict *mk_sub(Ents &e, int depth) { onion_dict *d = onion_dict_new(); int n = choose(S_WORK, 4); for (int i = 0; i < n; i++) { std::string k = text(true, false); Val v; bool dup = false; for (auto &x : e) if (x.first == k) dup = true; if (dup) continue; if (depth < 3 && choose(S_WORK, 4) == 3) { v.dict = true; onion_dict *s = mk_sub(v.d, depth + 1); onion_dict_add(d, k.c_str(), s, OD_DUP_KEY | OD_DICT | OD_FREE_VALUE); } else { v.s = text(false, false); onion_dict_add(d, k.c_str(), v.s.c_str(), OD_DUP_ALL); } e.push_back({k, v}); } norm(e); return d; }
std::deque<std::string> *statics; // strings that outlive the dictionaries
struct D { onion_dict *d; bool icase; Ents m; int writers = 0, readers = 0; };
bool same_key(const D &x, const std::string &a, const std::string &b) { return x.icase ? !strcasecmp(a.c_str(), b.c_str()) : a == b; }
void expect(D &x, const char *what, const std::string &ctx) { evaluated(); Ents g = walk(x.d, x.icase, ctx.c_str()); if (cmp(g, x.m)) violation("wrong-content", "%s: %s: holds {%s}, should hold {%s}", ctx.c_str(), what, show(g).c_str(), show(x.m).c_str()); if (onion_dict_count(x.d) != (int)x.m.size()) violation("wrong-count", "%s: counts %d of %zu", ctx.c_str(), onion_dict_count(x.d), x.m.size()); mix_state(std::hash<std::string>()(show(g))); }
// takes away one of the entries with that key, whichever explains what the dictionary now holds
void settle(D &x, const std::string &key, const Ent *added, bool replaced, const std::string &ctx) {
  Ents g = walk(x.d, x.icase, ctx.c_str()); evaluated(); std::vector<Ents> ok; bool any = false;
  for (size_t i = 0; i < x.m.size(); i++) if (same_key(x, x.m[i].first, key)) { any = true; if (replaced || !added) { Ents e = x.m; e.erase(e.begin() + i); if (added) e.push_back(*added); norm(e); ok.push_back(e); } }
  if (!any || (added && !replaced)) { Ents e = x.m; if (added) e.push_back(*added); norm(e); ok.push_back(e); }
  for (auto &e : ok) if (!cmp(e, g)) { x.m = e; return; }
  violation("wrong-content", "%s: holds {%s}, before {%s}", ctx.c_str(), show(g).c_str(), show(x.m).c_str());
}
// a strict reader of the part of JSON that dictionaries cover: objects, texts and natural numbers
struct Json {
  const std::string &t; size_t i = 0; bool bad = false; Json(const std::string &t) : t(t) {}
  char c() { return i < t.size() ? t[i] : 0; } void ws() { while (i < t.size() && strchr(" \t\r\n", t[i])) i++; } bool eat(char x) { ws(); if (c() == x && i < t.size()) { i++; return true; } bad = true; return false; }
  unsigned hex() { unsigned v = 0; for (int k = 0; k < 4; k++, i++) { char x = c(); if (!isxdigit((unsigned char)x)) { bad = true; return 0; } v = v * 16 + (isdigit((unsigned char)x) ? x - '0' : (x | 32) - 'a' + 10); } return v; }
  std::string str() {
    std::string o; if (!eat('"')) return o;
    while (!bad) {
      if (i >= t.size() || (unsigned char)t[i] < 32) { bad = true; break; }
      char x = t[i++]; if (x == '"') return o; if (x != '\\') { o += x; continue; }
      x = c(); i++; static const char *names = "bfnrt\"\\/"; const char *e = x ? strchr(names, x) : nullptr;
      if (e) { o += "\b\f\n\r\t\"\\/"[e - names]; continue; }
      if (x != 'u') { bad = true; break; }
      unsigned u = hex(); if (bad) break; if (u >= 0xdc00 && u <= 0xdfff) { bad = true; break; }
      if (u >= 0xd800 && u <= 0xdbff) { if (c() != '\\') { bad = true; break; } i++; if (c() != 'u') { bad = true; break; } i++; unsigned l = hex(); if (bad || l < 0xdc00 || l > 0xdfff) { bad = true; break; } u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); }
      if (!u) { bad = true; break; }
      if (u < 0x80) o += u; else if (u < 0x800) { o += 0xc0 | u >> 6; o += 0x80 | (u & 63); } else if (u < 0x10000) { o += 0xe0 | u >> 12; o += 0x80 | (u >> 6 & 63); o += 0x80 | (u & 63); } else { o += 0xf0 | u >> 18; o += 0x80 | (u >> 12 & 63); o += 0x80 | (u >> 6 & 63); o += 0x80 | (u & 63); }
    }
    return o;
  }
  Ents obj() {
    Ents e; if (!eat('{')) return e; ws(); if (c() == '}') { i++; return e; }
    while (!bad) {
      ws(); Ent x; x.first = str(); if (bad || !eat(':')) break; ws();
      if (c() == '{') { x.second.dict = true; x.second.d = obj(); } else if (c() == '"') x.second.s = str(); else if (isdigit((unsigned char)c())) { while (isdigit((unsigned char)c())) x.second.s += t[i++]; } else bad = true;
      if (bad) break; e.push_back(x); ws(); if (c() == '}') { i++; return e; } if (!eat(',')) break;
    }
    return e;
  }
  bool read(Ents &e) { e = obj(); ws(); if (i != t.size()) bad = true; norm(e); return !bad; }
};
std::string jws() { static const char *w[] = {"", "", "", " ", "\n", "\t ", "\r\n  "}; return w[choose(S_WORK, 7)]; }
std::string jstr() { // some text between quotes, with any of the ways to write each character
  std::string o = "\""; int n = choose(S_WORK, 12); char b[32];
  for (int i = 0; i < n; i++) switch (choose(S_WORK, 9)) {
    case 0: o += "\\"; o += "bfnrt\"\\/"[choose(S_WORK, 8)]; break;
    case 1: snprintf(b, sizeof b, choose(S_WORK, 2) ? "\\u%04x" : "\\u%04X", 1 + (int)choose(S_WORK, choose(S_WORK, 2) ? 0x7f : 0xd7ff)); o += b; break;
    case 2: snprintf(b, sizeof b, "\\u%04x", 0xe000 + (int)choose(S_WORK, 0x2000)); o += b; break;
    case 3: snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xd800 + (int)choose(S_WORK, 0x400), 0xdc00 + (int)choose(S_WORK, 0x400)); o += b; break;
    case 4: { static const unsigned u[] = {0x7f, 0x80, 0x81, 0xa9, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff}; snprintf(b, sizeof b, "\\u%04x", u[choose(S_WORK, 12)]); o += b; break; }
    case 5: o += "\xc3\xa9"; break;
    default: o += rand_bytes(S_WORK, 1 + choose(S_WORK, 5), "abcXYZ 019{}:,[]'/\x7f"); }
  return o + "\"";
}
std::string jobj(int depth) {
  std::string o = "{"; int n = choose(S_WORK, depth > 3 ? 2 : 5);
  for (int i = 0; i < n; i++) { if (i) o += "," + jws(); o += jws() + jstr() + jws() + ":" + jws(); int k = choose(S_WORK, 4); o += k == 3 && depth < 6 ? jobj(depth + 1) : k == 2 ? rand_bytes(S_WORK, 1 + choose(S_WORK, 20), "0123456789") : jstr(); o += jws(); }
  if (!n) o += jws(); return o + "}";
}
onion_dict *from_json(const std::string &t) { char *c = (char *)malloc(t.size() + 1); memcpy(c, t.c_str(), t.size() + 1); onion_dict *d = onion_dict_from_json(c); free(c); return d; } // exactly as big as the text, to notice any access beyond
}

SCENARIO(P12, json, 1) {
  base_setup(false); quiet_log(); MemSnapshot ms = mem_snapshot(); int n = 3 + choose(S_WORK, 12); describe("%d texts", n);
  for (int k = 0; k < n; k++) {
    std::string t = jws() + jobj(0) + jws(); op_done();
    if (choose(S_WORK, 2)) { int m = 1 + choose(S_WORK, 2); for (int j = 0; j < m; j++) { size_t at = choose(S_WORK, t.size() + 1); switch (choose(S_WORK, 5)) { case 0: case 1: t = t.substr(0, at); break; case 2: if (at < t.size()) t[at] = "\"\\{}:,u0 \x01\xff"[choose(S_WORK, 11)]; break; case 3: t.erase(at, 1 + choose(S_WORK, 4)); break; default: t.insert(at, rand_bytes(S_WORK, 1 + choose(S_WORK, 3), "\"\\{}:,u0[tn-e.")); } } }
    Ents want; bool ok = Json(t).read(want); onion_dict *d = from_json(t); evaluated(); count(ok ? "json.valid" : "json.invalid");
    if (ok && !d) violation("bad-json", "valid JSON is not read: %s", esc(t, 500).c_str());
    if (d) { Ents g = walk(d, false, "from JSON"); if (ok && cmp(g, want)) violation("bad-json", "%s is read as {%s}, it says {%s}", esc(t, 500).c_str(), show(g).c_str(), show(want).c_str());
      onion_block *b = onion_dict_to_json(d); std::string again = onion_block_data(b); onion_block_free(b); Ents g2; if (!Json(again).read(g2)) violation("bad-json", "not valid JSON is written: %s", esc(again, 500).c_str()); if (cmp(g, g2)) violation("bad-json", "{%s} is written as %s", show(g).c_str(), esc(again, 500).c_str()); onion_dict_free(d); }
  }
  std::string desc; if (uint64_t l = live_since(ms, &desc)) violation("leak", "%llu blocks remain after the dictionaries are gone: %s", (unsigned long long)l, desc.c_str());
}


SCENARIO(P12, shared, 3) {
  bool conc = choose(S_WORK, 4) != 3; base_setup(conc); quiet_log(); statics = new std::deque<std::string>; MemSnapshot ms = mem_snapshot();
  int nd = 1 + choose(S_WORK, 3), nt = conc ? 2 + choose(S_WORK, 3) : 1; std::vector<D> ds(nd);
  for (auto &x : ds) { x.d = onion_dict_new(); x.icase = choose(S_WORK, 3) == 2; if (x.icase) onion_dict_set_flags(x.d, OD_ICASE); }
  describe("%d dictionaries, %d threads", nd, nt);
  for (auto &x : ds) for (int t = 1; t < nt; t++) onion_dict_dup(x.d); // a reference for each thread
  int left = 0; std::vector<Fiber *> th;
  for (int t = 0; t < nt; t++) th.push_back(spawn("user" + std::to_string(t), [&, t] {
    std::vector<int> refs(nd, 1);
    int n = 5 + choose(S_WORK, 40);
    for (int k = 0; k < n; k++) {
      int i = choose(S_WORK, nd); D &x = ds[i]; if (!refs[i]) continue; std::string key = text(true, x.icase), ctx = "thread " + std::to_string(t) + ", step " + std::to_string(k); op_done();
      int w = choose(S_WORK, 14);
      if (w <= 4) { // readers
        onion_dict_lock_read(x.d); x.readers++; if (x.writers) violation("lock", "%s: reads while other thread writes", ctx.c_str());
        if (x.m.size() && choose(S_WORK, 2)) key = x.m[choose(S_WORK, x.m.size())].first;
        if (choose(S_WORK, 8) == 7 && x.icase) for (auto &c : key) c = toupper(c);
        switch (w) {
        case 0: case 1: { const char *v = onion_dict_get(x.d, key.c_str()); onion_dict *s = onion_dict_get_dict(x.d, key.c_str()); bool found = false, any = false; for (auto &e : x.m) if (same_key(x, e.first, key)) { any = true; if (v && !e.second.dict && e.second.s == v) found = true; if (s && e.second.dict) { Ents g = walk(s, false, ctx.c_str()); if (!cmp(g, e.second.d)) found = true; } }
          evaluated(); if ((v || s) && !found) violation("wrong-value", "%s: '%s' gave '%s', not what was stored", ctx.c_str(), esc(key).c_str(), v ? esc(v).c_str() : "(dict)"); if (any && !v && !s) violation("lost", "%s: '%s' is not found; it holds {%s}", ctx.c_str(), esc(key).c_str(), show(x.m).c_str()); break; }
        case 2: if (choose(S_WORK, 3)) { // a path into the dictionaries inside
            std::vector<std::string> k; const Ents *e = &x.m; const Val *v = nullptr; bool amb = false; int deep = 1 + choose(S_WORK, 4);
            for (int l = 0; l < deep; l++) { std::string kk = e && e->size() && choose(S_WORK, 6) ? (*e)[choose(S_WORK, e->size())].first : text(true, false); if (e && choose(S_WORK, 4)) for (auto &y : *e) if (y.second.dict) kk = y.first; k.push_back(kk); v = nullptr; int hits = 0; if (e) for (auto &y : *e) if (l ? y.first == kk : same_key(x, y.first, kk)) { hits++; v = &y.second; } if (hits > 1) amb = true; e = v && v->dict ? &v->d : nullptr; }
            if (!amb) { const char *z = nullptr, *a0 = k[0].c_str(), *a1 = deep > 1 ? k[1].c_str() : z, *a2 = deep > 2 ? k[2].c_str() : z, *a3 = deep > 3 ? k[3].c_str() : z; const char *r = onion_dict_rget(x.d, a0, a1, a2, a3, z); onion_dict *rd = onion_dict_rget_dict(x.d, a0, a1, a2, a3, z); evaluated();
              if (!r != !(v && !v->dict) || (r && v->s != r)) violation("wrong-value", "%s: a path of %d keys gives '%s', should give '%s'; it holds {%s}", ctx.c_str(), deep, r ? esc(r).c_str() : "nothing", v && !v->dict ? esc(v->s).c_str() : "nothing", show(x.m).c_str());
              if (!rd != !(v && v->dict)) violation("wrong-value", "%s: a path of %d keys %s", ctx.c_str(), deep, rd ? "gives a dictionary, none is there" : "gives nothing, a dictionary is there"); if (rd) { Ents g = walk(rd, false, ctx.c_str()); if (cmp(g, v->d)) violation("wrong-value", "%s: a path of %d keys gives other dictionary", ctx.c_str(), deep); } } break; }
          expect(x, "read", ctx); break;
        case 3: { onion_block *b = onion_dict_to_json(x.d); if (!b) violation("no-json", "%s: no JSON of {%s}", ctx.c_str(), show(x.m).c_str()); onion_dict *r = from_json(onion_block_data(b)); evaluated(); { Ents g; std::string t = onion_block_data(b); if (t.size() != (size_t)onion_block_size(b) || !Json(t).read(g) || cmp(g, x.m)) violation("bad-json", "%s: {%s} is written as %s", ctx.c_str(), show(x.m).c_str(), esc(t, 400).c_str()); } if (!r) violation("bad-json", "%s: own JSON is not read back: %s", ctx.c_str(), esc(onion_block_data(b), 400).c_str()); Ents g = walk(r, false, ctx.c_str()); if (cmp(g, x.m)) violation("bad-json", "%s: {%s} read back from JSON as {%s}", ctx.c_str(), show(x.m).c_str(), show(g).c_str()); onion_dict_free(r); onion_block_free(b); count("dict.json"); break; }
        default: { onion_dict *c = onion_dict_hard_dup(x.d); Ents g = walk(c, x.icase, ctx.c_str()); evaluated(); if (cmp(g, x.m)) violation("bad-copy", "%s: copy holds {%s}, original {%s}", ctx.c_str(), show(g).c_str(), show(x.m).c_str()); if (x.m.size()) { std::string k2 = x.m[0].first; if (x.icase) for (auto &ch : k2) ch = toupper(ch); if (!onion_dict_get(c, k2.c_str()) && !onion_dict_get_dict(c, k2.c_str())) violation("bad-copy", "%s: '%s' is not found in the copy", ctx.c_str(), esc(k2).c_str()); onion_dict_remove(c, x.m[0].first.c_str()); if (onion_dict_count(c) != (int)x.m.size() - 1) violation("bad-copy", "%s: removing from the copy left %d of %zu", ctx.c_str(), onion_dict_count(c), x.m.size()); } onion_dict_free(c); expect(x, "after the copy changed", ctx); count("dict.copy"); break; }
        }
        x.readers--; onion_dict_unlock(x.d);
      } else if (w <= 11) { // writers
        onion_dict_lock_write(x.d); if (x.writers || x.readers) violation("lock", "%s: writes while %d read and %d write", ctx.c_str(), x.readers, x.writers); x.writers++;
        if (x.m.size() && choose(S_WORK, 2)) key = x.m[choose(S_WORK, x.m.size())].first;
        if (w <= 8) {
          bool rep = choose(S_WORK, 2); Ent e; e.first = key; int fl = rep ? OD_REPLACE : 0; const char *kp = key.c_str(); int kk = choose(S_WORK, 3), vk = choose(S_WORK, 3);
          if (kk == 0) fl |= OD_DUP_KEY; else if (kk == 1) { fl |= OD_FREE_KEY; kp = low_dup(key); } else { statics->push_back(key); kp = statics->back().c_str(); }
          if (choose(S_WORK, 5) == 4) { e.second.dict = true; onion_dict *s = mk_sub(e.second.d, 0); fl |= OD_DICT; if (choose(S_WORK, 2)) { onion_dict_add(x.d, kp, s, fl | OD_DUP_VALUE); onion_dict_free(s); } else onion_dict_add(x.d, kp, s, fl | OD_FREE_VALUE); }
          else { e.second.s = text(false, false); const char *vp = e.second.s.c_str(); if (vk == 0) fl |= OD_DUP_VALUE; else if (vk == 1) { fl |= OD_FREE_VALUE; vp = low_dup(e.second.s); } else { statics->push_back(e.second.s); vp = statics->back().c_str(); } onion_dict_add(x.d, kp, vp, fl); }
          settle(x, key, &e, rep, ctx + (rep ? ": replaced " : ": added ") + esc(key)); count(rep ? "dict.replace" : "dict.add");
        } else if (w <= 10) { bool had = false; for (auto &e : x.m) had |= same_key(x, e.first, key); bool did = onion_dict_remove(x.d, key.c_str()); if (did != had) violation("wrong-result", "%s: remove of %s entry tells %d", ctx.c_str(), had ? "an" : "no", did); settle(x, key, nullptr, false, ctx + ": removed " + esc(key)); count("dict.remove"); }
        else { Ents add; onion_dict *o = mk_sub(add, 1); onion_dict_merge(x.d, o); onion_dict_free(o); for (auto &e : add) x.m.push_back(e); norm(x.m); expect(x, "after a merge", ctx); count("dict.merge"); }
        x.writers--; onion_dict_unlock(x.d);
      } else if (w == 12) { if (onion_dict_dup(x.d) != x.d) violation("dup", "%s: a duplicate is other dictionary", ctx.c_str()); refs[i]++; }
      else { refs[i]--; onion_dict_free(x.d); }
    }
    for (int i = 0; i < nd; i++) while (refs[i]) { refs[i]--; onion_dict_free(ds[i].d); }
    left++;
  }, true));
  for (auto f : th) join(f);
  if (left != nt) violation("stuck", "%d of %d threads came to the end", left, nt);
  std::string desc; if (uint64_t n = live_since(ms, &desc)) violation("leak", "%llu blocks remain after the last reference is gone: %s", (unsigned long long)n, desc.c_str());
  delete statics;
}
