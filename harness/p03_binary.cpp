// P03/P04: binary request parser, real binary_request against a table of the protocol's rules.
#include <src/memcache/memcache.hpp>
#include <src/global.hpp>
#include "../rt/sx.h"
#include <string.h>
#include <stdlib.h>
using namespace yrmcds; using namespace yrmcds::memcache;

static uint64_t be(const char* p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (unsigned char)p[i]; return v; }
#include "binrules.hpp"
static void inside(const item& it, const char* body, size_t blen, const char* m) {
  const char* q; size_t n; std::tie(q, n) = it; if (!q) { sx_assert(n == 0, m); return; }
  sx_assert((q >= body) & (q <= body + blen), m); sx_assert(n <= (size_t)(body + blen - q), m);
}
static int64_t want_exp(uint64_t t, int64_t now) { return t == 0 ? 0 : t > 60 * 60 * 24 * 30 ? (int64_t)t : now + (int64_t)t; }

extern "C" int harness() {
  size_t n = sx_param("n", 40), big = sx_param("big", 0); int opp = sx_param("op", -1), klen = sx_param("klen", -1), xlen = sx_param("xlen", -1); int tail = sx_param("tail", 0);
  int64_t now = 1700000000 + (int64_t)sx_u8("now"); g_current_time = now;
  if (big) n = big;
  char* p = (char*)malloc(n);
  sx_sym(p, big ? 64 : n, "b");
  if (n < 24) { binary_request q(p, n); sx_assert(q.length() == 0, "a request of less than a header must be incomplete"); sx_reach("incomplete"); free(p); return 0; }
  if (opp >= 0) { sx_assume((unsigned char)p[1] == opp); p[1] = (char)opp; }
  if (klen >= 0) { p[2] = (char)(klen >> 8); p[3] = (char)klen; }
  if (xlen >= 0) p[4] = (char)xlen;
  uint64_t body = be(p + 8, 4);
  if (tail >= 0 && (big || sx_param("exact", 0))) { uint64_t bl = n - 24 - tail; for (int i = 0; i < 4; ++i) p[8 + i] = (char)(bl >> (8 * (3 - i))); body = bl; }
  binary_request q(p, n);
  size_t len = q.length();
  if (24 + body > n) { sx_reach("incomplete"); sx_assert(len == 0, "an incomplete request must be reported as incomplete"); free(p); return 0; }
  sx_assert(len == 24 + body, "request framed at the wrong length");
  inside(q.key(), p + 24, body, "key outside the request body"); inside(q.data(), p + 24, body, "value outside the request body");
  int what = sx_param("what", 4);
  if (what == 3) {
    size_t l = sx_conc(len); char* c = (char*)malloc(l); memcpy(c, p, l); binary_request e(c, l); sx_reach("exact-prefix");
    auto same = [&](const item& a, const item& b) { const char *x, *y; size_t n1, n2; std::tie(x, n1) = a; std::tie(y, n2) = b; return (n1 == n2) & ((x == nullptr) == (y == nullptr)) & (x == nullptr || x - p == y - c); };
    sx_assert((e.length() == len) & (e.status() == q.status()) & (e.quiet() == q.quiet()), "verdict depends on bytes that follow the request");
    if (q.status() == binary_status::OK) sx_assert((e.command() == q.command()) & same(q.key(), e.key()) & same(q.data(), e.data()) & (e.flags() == q.flags()) & (e.exptime() == q.exptime()) & (e.value() == q.value()) & (e.initial() == q.initial()) & (e.cas_unique() == q.cas_unique()) & (e.stats() == q.stats()), "decoding depends on bytes that follow the request");
    free(c); c = (char*)malloc(l - 1); memcpy(c, p, l - 1); binary_request h(c, l - 1); sx_assert(h.length() == 0, "an incomplete request is consumed"); free(c);
    free(p); return 0;
  }
  uint64_t kl = be(p + 2, 2), xl = (unsigned char)p[4];
  int op = (int)sx_conc((unsigned char)p[1]);
  const Rule* r = nullptr; for (const Rule& x : RULES) if (x.op == op) { r = &x; break; }
  binary_status st = q.status();
  bool badhead = kl > 250 || kl + xl > body;
  if (!r) { sx_reach("unknown-opcode"); if (badhead) sx_assert(st == binary_status::UnknownCommand || st == binary_status::Invalid, "malformed request of an undefined opcode accepted"); else { uint64_t dl = body - kl - xl; sx_assert(st == binary_status::UnknownCommand || (dl > (30u << 20) && st == binary_status::TooLargeValue), "undefined opcode is not answered Unknown command"); } free(p); return 0; }
  sx_assert(memcmp(q.opaque(), p + 12, 4) == 0, "wrong opaque");
  if (badhead) { sx_reach("bad-lengths"); sx_assert(st == binary_status::Invalid, "contradicting lengths accepted"); free(p); return 0; }
  uint64_t dl = body - kl - xl;
  bool exok = r->kind == K_FREE || xl == (uint64_t)r->exa || xl == (uint64_t)r->exb;
  bool kok = r->key == 2 || (r->key == 1 ? kl > 0 : kl == 0), vok = r->val == 2 || (r->val == 1 ? dl > 0 : dl == 0);
  if (dl > (30u << 20)) { sx_reach("too-large"); sx_assert(st == binary_status::TooLargeValue || (!(exok && kok && vok) && st == binary_status::Invalid), "oversized value accepted"); free(p); return 0; }
  if (!(exok && kok && vok)) { sx_reach("rule-violated"); sx_assert(st == binary_status::Invalid, "a request that contradicts its opcode's rules is not answered Invalid arguments"); free(p); return 0; }
  sx_reach("ok");
  sx_assert(st == binary_status::OK, "a well-formed request is refused");
  sx_assert((int)q.command() == op, "wrong command");
  sx_assert(q.quiet() == is_quiet(op), "wrong quietness");
  sx_assert(q.cas_unique() == be(p + 16, 8), "wrong cas");
  const char* kp; size_t kn; std::tie(kp, kn) = q.key(); sx_assert(kn == kl, "wrong key length"); if (kl) sx_assert(kp == p + 24 + xl, "wrong key");
  const char* dp; size_t dn; std::tie(dp, dn) = q.data(); if (r->kind != K_FREE) { sx_assert(dn == dl, "wrong value length"); if (dl) sx_assert(dp == p + 24 + xl + kl, "wrong value"); }
  const char* x = p + 24;
  auto expect = [&](const char* e) { uint64_t t = be(e, 4); if (t == 0xffffffffu) { if (r->kind == K_ARITH) sx_assert(q.exptime() == binary_request::EXPTIME_NONE, "exptime 0xffffffff is not recognised"); return; } sx_assert(q.exptime() == want_exp(t, now), "wrong exptime"); };
  switch (r->kind) {
  case K_EXP: if (xl == 4) { sx_reach("exptime"); expect(x); } else sx_assert(q.exptime() == binary_request::EXPTIME_NONE, "exptime without extras"); break;
  case K_SET: sx_assert(q.flags() == be(x, 4), "wrong flags"); expect(x + 4); break;
  case K_ARITH: sx_assert(q.value() == be(x, 8), "wrong delta"); sx_assert(q.initial() == be(x + 8, 8), "wrong initial value"); expect(x + 16); break;
  case K_FLUSH: if (xl == 4 && be(x, 4) != 0) expect(x); else sx_assert(q.exptime() == now, "flush without a time must be immediate"); break;
  case K_STAT: { stats_t w = stats_t::GENERAL; auto is = [&](const char* s) { return kl == strlen(s) && memcmp(x, s, strlen(s)) == 0; };
    if (is("settings")) w = stats_t::SETTINGS; else if (is("items")) w = stats_t::ITEMS; else if (is("sizes")) w = stats_t::SIZES; else if (is("ops")) w = stats_t::OPS;
    sx_assert(q.stats() == w, "wrong stats category"); break; }
  }
  free(p); return 0;
}
