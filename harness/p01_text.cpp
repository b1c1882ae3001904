// P01/P02: text request parser, real text_request against an independent reading of the grammar.
#include <src/memcache/memcache.hpp>
#include <src/global.hpp>
#include "../rt/sx.h"
#include <string.h>
#include <stdlib.h>
using namespace yrmcds; using namespace yrmcds::memcache;
typedef text_command tc;

struct Ref { size_t length = 0; bool valid = false, noreply = false; tc cmd = tc::UNKNOWN; const char* key = nullptr; size_t klen = 0; uint32_t flags = 0; int64_t exptime = 0; uint64_t cas = 0, value = 0; const char* data = nullptr; size_t dlen = 0; int stats = 0; bool lenknown = true; };
struct Tok { const char* p; size_t n; };

static bool is(const Tok& t, const char* w) { return t.n == strlen(w) && memcmp(t.p, w, t.n) == 0; }
static bool num(const Tok& t, uint64_t max, uint64_t& out) {
  if (t.n == 0) return false; uint64_t v = 0;
  for (size_t i = 0; i < t.n; ++i) { unsigned char c = t.p[i]; if (!(c >= '0' && c <= '9')) return false; uint64_t d = c - '0'; if (v > max / 10 || (v == max / 10 && d > max % 10)) return false; v = v * 10 + d; }
  out = v; return true;
}
static int64_t ref_exp(uint64_t t, int64_t now) { if (t == 0) return 0; return t > 60 * 60 * 24 * 30 ? (int64_t)t : now + (int64_t)t; }
static const struct { const char* n; tc c; int kind; } CMDS[] = {
  {"set", tc::SET, 1}, {"add", tc::ADD, 1}, {"replace", tc::REPLACE, 1}, {"append", tc::APPEND, 1}, {"prepend", tc::PREPEND, 1}, {"cas", tc::CAS, 2},
  {"get", tc::GET, 3}, {"gets", tc::GETS, 3}, {"delete", tc::DELETE, 4}, {"incr", tc::INCR, 5}, {"decr", tc::DECR, 5}, {"touch", tc::TOUCH, 6},
  {"lock", tc::LOCK, 7}, {"unlock", tc::UNLOCK, 7}, {"unlock_all", tc::UNLOCK_ALL, 8}, {"slabs", tc::SLABS, 8}, {"stats", tc::STATS, 9}, {"flush_all", tc::FLUSH_ALL, 10},
  {"version", tc::VERSION, 8}, {"verbosity", tc::VERBOSITY, 11}, {"quit", tc::QUIT, 8}, {"keys", tc::KEYS, 12} };
static const int NCMD = sizeof(CMDS) / sizeof(CMDS[0]);

static Ref ref_parse(const char* p, size_t n, int64_t now) {
  Ref r; size_t lf = 0; while (lf < n && p[lf] != '\n') ++lf;
  if (lf == n) return r;                        // incomplete
  r.length = lf + 1;
  if (lf == 0 || p[lf - 1] != '\r') return r;   // not CRLF terminated: an erroneous line of its own
  Tok t[24]; size_t nt = 0; size_t i = 0, e = lf - 1;
  while (i < e) { if (p[i] == ' ') { ++i; continue; } size_t s = i; while (i < e && p[i] != ' ') ++i; if (nt < 24) t[nt++] = Tok{p + s, i - s}; }
  if (nt == 0) return r;
  int k = -1; for (int j = 0; j < NCMD; ++j) if (is(t[0], CMDS[j].n)) { k = j; break; }
  if (k < 0) return r;
  r.cmd = CMDS[k].c; size_t a = 1; uint64_t v;
  auto opt_noreply = [&](size_t at) -> bool { if (at == nt) return true; if (at + 1 == nt && is(t[at], "noreply")) { r.noreply = true; return true; } return false; };
  switch (CMDS[k].kind) {
  case 1: case 2: { bool cas = CMDS[k].kind == 2;
    if (nt < (cas ? 6u : 5u)) return r;
    uint64_t f, x, len, c = 0;
    if (!num(t[2], 0xffffffffu, f) || !num(t[3], INT64_MAX, x) || !num(t[4], 0xffffffffu, len)) return r;
    if (cas && !num(t[5], UINT64_MAX, c)) return r;
    if (!opt_noreply(cas ? 6 : 5)) return r;
    // the header is well formed: the request extends over the data block
    size_t head = lf + 1; if (len > n || head + len + 2 > n) { r.length = 0; return r; }
    len = sx_conc(len); r.length = head + len + 2;
    if (p[head + len] != '\r' || p[head + len + 1] != '\n') return r;
    r.key = t[1].p; r.klen = t[1].n; r.flags = f; r.exptime = ref_exp(x, now); r.cas = c; r.data = p + head; r.dlen = len; r.valid = true; return r; }
  case 3: if (nt < 2) return r; r.key = t[1].p; r.klen = t[1].n; r.valid = true; return r;
  case 4: if (nt < 2 || !opt_noreply(2)) return r; r.key = t[1].p; r.klen = t[1].n; r.valid = true; return r;
  case 5: if (nt < 3 || !num(t[2], UINT64_MAX, v) || !opt_noreply(3)) return r; r.key = t[1].p; r.klen = t[1].n; r.value = v; r.valid = true; return r;
  case 6: if (nt < 3 || !num(t[2], INT64_MAX, v) || !opt_noreply(3)) return r; r.key = t[1].p; r.klen = t[1].n; r.exptime = ref_exp(v, now); r.valid = true; return r;
  case 7: if (nt != 2) return r; r.key = t[1].p; r.klen = t[1].n; r.valid = true; return r;
  case 8: r.valid = true; return r;
  case 9: if (nt < 2) { r.valid = true; r.stats = (int)stats_t::GENERAL; return r; }
    r.valid = true; if (is(t[1], "settings")) r.stats = (int)stats_t::SETTINGS; else if (is(t[1], "items")) r.stats = (int)stats_t::ITEMS; else if (is(t[1], "sizes")) r.stats = (int)stats_t::SIZES; else if (is(t[1], "ops")) r.stats = (int)stats_t::OPS; else r.valid = false; return r;
  case 10: r.exptime = now; if (a < nt && t[a].p[0] >= '0' && t[a].p[0] <= '9') { if (!num(t[a], INT64_MAX, v)) return r; r.exptime = v > 60 * 60 * 24 * 30 ? (int64_t)v : now + (int64_t)v; ++a; }
    if (!opt_noreply(a)) return r; r.valid = true; return r;
  case 11: if (nt < 2 || !opt_noreply(2)) return r; r.valid = true; r.stats = is(t[1], "error") ? 1 : is(t[1], "warning") ? 2 : is(t[1], "info") ? 3 : is(t[1], "debug") ? 4 : 0; return r;
  case 12: r.valid = true; if (nt > 1) { r.key = t[1].p; r.klen = t[1].n; } return r;
  }
  return r;
}
static void check_inside(const item& it, const char* p, size_t len, const char* m) {
  const char* q; size_t n; std::tie(q, n) = it; if (!q) { sx_assert(n == 0, m); return; }
  sx_assert((q >= p) & (q <= p + len), m); sx_assert(n <= (size_t)(p + len - q), m);
}

extern "C" int harness() {
  int mode = sx_param("mode", 1);           // 1: arbitrary bytes, memory safety and framing; 2: decoding of structured lines
  int cmd = sx_param("cmd", 0); size_t n = sx_param("n", 6), m = sx_param("m", 4), lead = sx_param("lead", 0);
  int64_t now = 1000000000; if (mode == 2) now = 1000000000;
  g_current_time = now;
  int field = sx_param("field", 0); size_t fl = sx_param("fl", 10); int nr = sx_param("noreply", 0), sp = sx_param("sp", 1);
  char line[96]; size_t ll = 0;
  if (mode == 3) { // template line: one numeric field of `fl` symbolic digits, a symbolic key, the other fields minimal
    now = 1000000000 + (int64_t)sx_u8("now"); g_current_time = now; // `pre` > 0: the leading digits are those of the field's maximum, the last `fl` symbolic (pre - 1 extra zeros in front)
    const int pre = sx_param("pre", 0);
    auto put = [&](const char* t) { while (*t) line[ll++] = *t++; };
    auto sps = [&]() { for (int i = 0; i < sp; ++i) line[ll++] = ' '; };
    auto number = [&](int f, const char* dflt) { sps(); if (f != field && !(f == 1 && field == 4)) { put(dflt); return; } if (pre) { for (int i = 1; i < pre; ++i) put("0"); const char* mx = field == 4 ? "2592000" : f == 3 ? "18446744073709551615" : f == 1 ? "9223372036854775807" : "4294967295"; for (size_t i = 0; i + fl < strlen(mx) + (sx_param("plus", 0)); ++i) line[ll++] = i < strlen(mx) ? mx[i] : '0'; }
      for (size_t i = 0; i < fl; ++i) { uint8_t c = sx_u8("digit"); sx_assume((c >= '0') & (c <= '9')); line[ll++] = (char)c; } };
    auto key = [&]() { sps(); for (int i = 0; i < 2; ++i) { uint8_t c = sx_u8("key"); sx_assume((c > ' ') & (c != 127)); line[ll++] = (char)c; } };
    switch (CMDS[cmd].kind) {
    case 1: key(); number(0, "7"); number(1, "0"); number(2, "2"); break;
    case 2: key(); number(0, "7"); number(1, "0"); number(2, "2"); number(3, "9"); break;
    case 5: key(); number(3, "1"); break;
    case 6: key(); number(1, "1"); break;
    case 10: number(1, "1"); break;
    }
    if (nr) { sps(); put("noreply"); } if (sp > 1) line[ll++] = ' ';
    n = ll;
  }
  size_t cl = cmd >= 0 ? strlen(CMDS[cmd].n) : 0;
  size_t tot = lead + cl + n + (mode >= 2 ? 2 + m : 0);
  char* p = (char*)malloc(tot);
  for (size_t i = 0; i < lead; ++i) p[i] = ' ';
  if (cl) memcpy(p + lead, CMDS[cmd].n, cl);
  char* body = p + lead + cl;
  if (mode == 3) { memcpy(body, line, n); body[n] = '\r'; body[n + 1] = '\n'; if (m) sx_sym(body + n + 2, m, "d"); }
  else sx_sym(body, n, "b");
  if (mode == 2) {
    for (size_t i = 0; i < n; ++i) sx_assume((body[i] != '\r') & (body[i] != '\n'));
    if (cl) sx_assume(body[0] == ' ');
    body[n] = '\r'; body[n + 1] = '\n'; if (m) sx_sym(body + n + 2, m, "d");
  }
  text_request q(p, tot);
  size_t len = q.length();
  sx_assert(len <= tot, "request length exceeds the received bytes");
  check_inside(q.key(), p, len ? len : tot, "key outside the request");
  if (q.valid()) {
    sx_assert(len > 0, "valid request without a length");
    check_inside(q.data(), p, len, "data outside the request");
    if (q.command() == tc::GET || q.command() == tc::GETS) {
      sx_reach("get-keys");
      item k = q.first_key(); int cnt = 0;
      while (k != text_request::eos) { check_inside(k, p, len, "get key outside the request"); sx_assert(std::get<1>(k) > 0, "empty key"); k = text_request::next_key(k); if (++cnt > 16) sx_fail("key iteration does not end"); }
    }
  }
  Ref r = ref_parse(p, tot, now);
  if (mode == 1) {
    // control characters inside the line are outside the grammar: only framing by LF is required then
    bool ctl = false; for (size_t i = 0; i + 1 < r.length; ++i) if (p[i] == '\r' && p[i + 1] != '\n') { ctl = true; break; }
    if (ctl && r.cmd <= tc::CAS && r.cmd != tc::UNKNOWN) sx_ok();
    if (ctl) { sx_assert(len == r.length, "request framed at the wrong length"); sx_ok(); }
  }
  sx_assert(len == r.length, "request framed at the wrong length");
  if (mode == 1 && len) { // the verdict does not depend on what follows, and one byte less is incomplete
    size_t cl2 = sx_conc(len);
    char* c = (char*)malloc(cl2); memcpy(c, p, cl2); text_request e(c, cl2); sx_reach("exact-prefix");
    auto same = [&](const item& a, const item& b) { const char *x, *y; size_t n1, n2; std::tie(x, n1) = a; std::tie(y, n2) = b; return (n1 == n2) & ((x == nullptr) == (y == nullptr)) & (x == nullptr || x - p == y - c); };
    sx_assert(e.length() == len && e.valid() == q.valid(), "verdict depends on bytes that follow the command");
    if (q.valid()) { sx_assert(e.command() == q.command() && e.no_reply() == q.no_reply(), "decoding depends on bytes that follow the command");
      sx_assert(same(q.key(), e.key()) && same(q.data(), e.data()), "key or data depends on bytes that follow the command");
      sx_assert((e.flags() == q.flags()) & (e.exptime() == q.exptime()) & (e.cas_unique() == q.cas_unique()) & (e.value() == q.value()) & (e.stats() == q.stats()), "fields depend on bytes that follow the command"); }
    free(c);
    if (cl2 > 1) { c = (char*)malloc(cl2 - 1); memcpy(c, p, cl2 - 1); text_request h(c, cl2 - 1); sx_assert(h.length() == 0, "an incomplete command is consumed"); free(c); }
  }
  if (mode >= 2 && len) sx_assert(q.valid() == r.valid, "validity differs from the grammar");
  if (mode >= 2 && r.valid && q.valid()) {
    sx_reach("valid");
    sx_assert(q.command() == r.cmd, "wrong command");
    sx_assert(q.no_reply() == r.noreply, "wrong noreply");
    if (r.noreply) sx_reach("noreply");
    const char* kp; size_t kn; std::tie(kp, kn) = q.key();
    if (r.klen) { sx_assert((kp == r.key) & (kn == r.klen), "wrong key"); } else sx_assert(kn == 0, "unexpected key");
    switch (CMDS[cmd].kind) {
    case 1: case 2: { sx_assert(q.flags() == r.flags, "wrong flags"); sx_assert(q.exptime() == r.exptime, "wrong exptime");
      const char* dp; size_t dn; std::tie(dp, dn) = q.data(); sx_assert(dn == r.dlen, "wrong data length"); sx_assert(dp == r.data, "wrong data");
      if (CMDS[cmd].kind == 2) sx_assert(q.cas_unique() == r.cas, "wrong cas unique"); break; }
    case 5: sx_assert(q.value() == r.value, "wrong value"); break;
    case 6: case 10: sx_assert(q.exptime() == r.exptime, "wrong exptime"); break;
    case 9: sx_assert((int)q.stats() == r.stats, "wrong stats category"); break;
    case 11: if (r.stats) sx_assert(q.verbosity() == (r.stats == 1 ? cybozu::severity::error : r.stats == 2 ? cybozu::severity::warning : r.stats == 3 ? cybozu::severity::info : cybozu::severity::debug), "wrong verbosity"); break;
    case 3: { item k = q.first_key(); const char* c = r.key;
        while (true) { const char* a; size_t an; std::tie(a, an) = k; sx_assert(a == c, "wrong key in list"); const char* e = c; while (*e != ' ' && *e != '\r') ++e; sx_assert(an == (size_t)(e - c), "wrong key length in list"); k = text_request::next_key(k); while (*e == ' ') ++e; if (*e == '\r') break; c = e; sx_reach("multi-get"); }
        sx_assert(k == text_request::eos, "key list too long"); break; }
    }
  }
  if (r.length == 0) sx_reach("incomplete");
  if (r.length && !r.valid) sx_reach("invalid");
  free(p);
  return 0;
}
