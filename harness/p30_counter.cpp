// P30-P32: the counter protocol against a reference model, through the whole server
#include "srv.hpp"
using namespace srv; typedef unsigned char u8;
static const int NN = 2, NC = 3; static const char* NAME[NN] = {"x", "yy"}; static conn C[NC]; static const int IV = 10;
struct ctr { bool exists = false, maybe = false; uint32_t cons = 0, mx = 0; int64_t upd = 0; }; static ctr M[NN]; static uint32_t held[NC][NN];
enum { OK = 0, NotFound = 1, Invalid = 4, NotAvail = 0x21, NotAcq = 0x22, Unknown = 0x81 };
static u8 w[800]; static size_t wn;
static void be(u8* p, uint32_t v, int n) { for (int i = 0; i < n; ++i) p[i] = (u8)(v >> (8 * (n - 1 - i))); }
static uint32_t rd(const char* p, int n) { uint32_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (u8)p[i]; return v; }
static void head(u8 op, uint32_t body, uint32_t opaque) { w[0] = 0x90; w[1] = op; w[2] = w[3] = 0; be(w + 4, body, 4); be(w + 8, opaque, 4); wn = 12; }
static void put(uint32_t v, int n) { be(w + wn, v, n); wn += n; }
static void name(int k) { size_t n = strlen(NAME[k]); put((uint32_t)n, 2); memcpy(w + wn, NAME[k], n); wn += n; }
static void acquire(int k, uint32_t r, uint32_t m, uint32_t o) { head(2, 0, o); put(r, 4); put(m, 4); name(k); be(w + 4, (uint32_t)wn - 12, 4); }
static void release(int k, uint32_t r, uint32_t o) { head(3, 0, o); put(r, 4); name(k); be(w + 4, (uint32_t)wn - 12, 4); }
static void get(int k, uint32_t o) { head(1, 0, o); name(k); be(w + 4, (uint32_t)wn - 12, 4); }
// one reply: its header must be exact; returns the body (nullptr when there is none as expected)
static const char* reply(int c, u8 op, int st, uint32_t o, size_t want, bool last = true) {
  conn& k = C[c]; if (k.avail() < 12) { sx_fail("no complete counter reply"); return nullptr; } const char* p = k.out(); size_t body = rd(p + 4, 4);
  if (k.avail() < 12 + body || (last && k.avail() != 12 + body)) { sx_fail("the body length of a counter reply does not equal the bytes that follow (or there is not exactly one reply)"); return nullptr; }
  sx_assert((u8)p[0] == 0x91 && (u8)p[1] == op && p[3] == 0, "counter reply: magic, opcode or reserved byte"); sx_assert((u8)p[2] == st, "counter reply: status"); sx_assert(rd(p + 8, 4) == o, "counter reply: opaque");
  if (want != ~(size_t)0) { if (st != OK) sx_assert(body > 0, "error reply without a message"); else if (body != want) { sx_fail("counter reply: wrong body length"); return nullptr; } }
  k.skip(12 + body); return p + 12;
}
static bool present(int k, int st) { ctr& m = M[k]; if (m.maybe) { m.maybe = false; m.exists = st != NotFound; if (!m.exists) m = ctr(); } return m.exists; }
static int peek_status(int c) { return C[c].avail() >= 12 ? (u8)C[c].out()[2] : -1; }
static void check_dump(int c) {
  uint32_t o = sx_u32("opaque"); head(0x11, 0, o); C[c].send(w, wn); bool seen[NN] = {false}; 
  for (int i = 0; i <= NN; ++i) {
    conn& k = C[c]; if (k.avail() < 12) { sx_fail("dump is not terminated"); return; } size_t body = rd(k.out() + 4, 4); if (body == 0) { reply(c, 0x11, OK, o, 0); break; }
    const char* b = reply(c, 0x11, OK, o, ~(size_t)0, false); if (!b) return; if (body < 10) { sx_fail("dump: short body"); return; } size_t nl = rd(b + 8, 2); if (body != 10 + nl) { sx_fail("dump: name length"); return; }
    int n = -1; for (int j = 0; j < NN; ++j) if (strlen(NAME[j]) == nl && memcmp(NAME[j], b + 10, nl) == 0) n = j; if (n < 0 || seen[n] || i == NN) { sx_fail("dump: a counter appears twice or is unknown"); return; }
    seen[n] = true; sx_assert(M[n].exists || M[n].maybe, "dump: a counter that does not exist"); sx_assert(rd(b, 4) == M[n].cons, "dump: consumption"); sx_assert(rd(b + 4, 4) == M[n].mx, "dump: maximum consumption of the interval");
  }
  for (int j = 0; j < NN; ++j) { if (M[j].maybe) { M[j].maybe = false; M[j].exists = seen[j]; if (!seen[j]) M[j] = ctr(); } sx_assert(seen[j] == M[j].exists, "dump: a counter is missing"); }
}
static void observe() {
  for (int k = 0; k < NN; ++k) { uint32_t o = sx_u32("opaque"); get(k, o); C[2].send(w, wn); bool e = present(k, peek_status(2)); const char* b = reply(2, 1, e ? OK : NotFound, o, 4); if (e && b) sx_assert(rd(b, 4) == M[k].cons, "Get does not report what all connections hold"); }
  check_dump(2);
}
static void pass(int sec) {
  for (int i = 0; i < sec; ++i) { int64_t b0 = now / IV; tick(1); if (now / IV != b0) for (int k = 0; k < NN; ++k) { M[k].mx = M[k].cons; } }
}
static void interval() { pass(IV + 3); for (int k = 0; k < NN; ++k) if (M[k].exists && M[k].cons == 0) { M[k] = ctr(); } }   // an idle zero counter is gone once a collection ran after the interval
static void step(int f) {
  int c = sx_choose(2, "conn"), k = sx_param("names", 2) > 1 && f < 3 ? sx_choose(NN, "name") : 0; uint32_t o = sx_u32("opaque"); ctr& m = M[k];
  switch (f) {
  case 0: { uint32_t r = sx_u32("res"), mx = sx_u32("max"); acquire(k, r, mx, o); C[c].send(w, wn); bool bad = r == 0 || mx < r; if (bad) { reply(c, 2, Invalid, o, 4); break; }
      if (m.maybe && m.cons == 0) { m = ctr(); }   // re-created or reused: the same for clients, except the interval's maximum
      uint64_t sum = (uint64_t)m.cons + r; if (m.exists && sum > mx) { reply(c, 2, NotAvail, o, 4); break; }
      const char* b = reply(c, 2, OK, o, 4); if (b) sx_assert(rd(b, 4) == r, "Acquire: resources in the reply"); m.exists = true; m.cons = (uint32_t)sum; if (m.cons > m.mx) m.mx = m.cons; m.upd = now; held[c][k] += r; break; }
  case 1: { uint32_t r = sx_u32("res"); release(k, r, o); C[c].send(w, wn); bool e = present(k, peek_status(c)); if (!e) { reply(c, 3, NotFound, o, 0); break; } if (r > held[c][k]) { reply(c, 3, NotAcq, o, 0); break; }
      reply(c, 3, OK, o, 0); held[c][k] -= r; m.cons -= r; m.upd = now; break; }
  case 2: break;   // Get and Dump follow in any case
  case 3: { int how = sx_choose(3, "end"); if (how == 0) C[c].eof(); else if (how == 1) C[c].hangup(); else { w[0] = 0x90; C[c].send(w, 7); C[c].eof(); } pass(3); sx_assert(C[c].gone(), "a closed connection's descriptor stays open");
      for (int i = 0; i < NN; ++i) if (held[c][i]) { M[i].cons -= held[c][i]; held[c][i] = 0; } sx_reach("closed"); C[c] = connect(CTR); break; }
  case 4: interval(); break;
  case 5: head(0, 0, o); C[c].send(w, wn); reply(c, 0, OK, o, 0); break;
  case 6: head(0x10, 0, o); C[c].send(w, wn); { conn& q = C[c]; size_t body = q.avail() >= 12 ? rd(q.out() + 4, 4) : 0; const char* b = reply(c, 0x10, OK, o, body); size_t at = 0; while (b && at + 4 <= body) { size_t n = rd(b + at, 2), v = rd(b + at + 2, 2); sx_assert(n > 0 && v > 0, "stats: empty name or value"); at += 4 + n + v; } sx_assert(body > 0 && at == body, "stats: the pairs do not fill the body"); } break;
  }
  observe();
}
static void boot() { cfg("buckets = 1\nworkers = 2\nrepl_buffer_size = 1\ncounter.enable = true\ncounter.buckets = 1\ncounter.stat_interval = 10\n"); start(); for (int i = 0; i < NC; ++i) C[i] = connect(CTR); }
// a request with arbitrary header and body bytes
static void arbitrary() {
  size_t body = (size_t)sx_param("body", 13); head(0, 0, 0); sx_sym(w, 4, "head"); be(w + 4, (uint32_t)body, 4); sx_sym(w + 8, 4 + body, "body"); if (sx_param("nomagic", 0) == 0) sx_assume(w[0] == 0x90);
  int op = (int)sx_param("op", -1); if (op >= 0) sx_assume(w[1] == op); else { sx_assume(w[1] > 3); sx_assume(w[1] != 0x10 && w[1] != 0x11); }
  { uint32_t r = rd((char*)w + 12, 4), mx = rd((char*)w + 16, 4); bool ok = w[0] == 0x90; int st = Invalid; size_t need = 0; uint32_t nl = 0; u8 o = w[1];
    if (!ok) st = Invalid; else if (o == 0 || o == 0x10 || o == 0x11) st = OK;
    else if (o == 1 || o == 2 || o == 3) { need = o == 1 ? 2 : o == 2 ? 10 : 6; if (body < need) st = Invalid; else { nl = rd((char*)w + 12 + need - 2, 2); st = nl == 0 || need + nl > body ? Invalid : o == 2 && (r == 0 || mx < r) ? Invalid : o == 2 ? OK : NotFound; } }
    else st = Unknown;
    uint32_t q = rd((char*)w + 8, 4); C[0].send(w, 12 + body);
    if (st == OK && o == 2) { const char* b = reply(0, o, OK, q, 4); if (b) sx_assert(rd(b, 4) == r, "Acquire: resources in the reply");
      // the counter created has exactly the name given
      u8 nm[100]; memcpy(nm, w + 22, body - 10); head(1, 0, 77); nl = (uint32_t)sx_conc(nl); put(nl, 2); memcpy(w + wn, nm, nl); wn += nl; be(w + 4, (uint32_t)wn - 12, 4); C[1].send(w, wn); const char* g = reply(1, 1, OK, 77, 4); if (g) sx_assert(rd(g, 4) == r, "the counter created holds what was acquired"); }
    else if (st == OK && (o == 0x10)) C[0].skip(C[0].avail());
    else reply(0, o, st, q, 0); }
  sx_reach("answered"); head(0, 0, 5); C[0].send(w, wn); reply(0, 0, OK, 5, 0);
}
// pipelined requests cut at any position
static void stream() {
  u8 s[200]; size_t n = 0; uint32_t r[3]; for (int i = 0; i < 3; ++i) { r[i] = sx_u32("res"); sx_assume(r[i] > 0); sx_assume(r[i] < 1u << 30); }
  acquire(0, r[0], 0xffffffffu, 1); memcpy(s + n, w, wn); n += wn; acquire(1, r[1], r[1], 2); memcpy(s + n, w, wn); n += wn; get(0, 3); memcpy(s + n, w, wn); n += wn; release(1, r[2], 4); memcpy(s + n, w, wn); n += wn; head(0x55, 3, 5); put(7, 3); memcpy(s + n, w, wn); n += wn; head(0x11, 0, 6); memcpy(s + n, w, wn); n += wn;
  size_t cut = 1 + (size_t)sx_choose((int)n - 1, "cut"); int how = sx_choose(2, "pause"); if (how) { C[0].send(s, cut); C[0].send(s + cut, n - cut); } else { C[0].feed(s, cut); C[0].feed(s + cut, n - cut); event(C[0].fd, EPOLLIN); pump(); }
  const char* b = reply(0, 2, OK, 1, 4, false); if (b) sx_assert(rd(b, 4) == r[0], "first"); b = reply(0, 2, OK, 2, 4, false); if (b) sx_assert(rd(b, 4) == r[1], "second"); b = reply(0, 1, OK, 3, 4, false); if (b) sx_assert(rd(b, 4) == r[0], "third");
  bool can = r[2] <= r[1]; reply(0, 3, can ? OK : NotAcq, 4, 0, false); reply(0, 0x55, Unknown, 5, 0, false); C[0].skip(0);
  M[0].exists = M[1].exists = true; for (int i = 0; i < 2; ++i) { size_t body = C[0].avail() >= 12 ? rd(C[0].out() + 4, 4) : 0; sx_assert(body == 11 || body == 12, "dump entry"); reply(0, 0x11, OK, 6, body, false); } reply(0, 0x11, OK, 6, 0); sx_reach("cut");
}
extern "C" int harness() {
  boot(); int what = (int)sx_param("what", 0); if (what == 1) { arbitrary(); sx_reach("end"); sx_ok(); return 0; } if (what == 2) { stream(); sx_reach("end"); sx_ok(); return 0; }
  int n = (int)sx_param("nops", 2), first = (int)sx_param("first", -1), pre = (int)sx_param("pre", 0);
  // a generic state: every connection may hold some of every counter
  if (pre) { for (int c = 0; c < 2; ++c) { uint32_t r = sx_u32("held"); sx_assume(r < 1u << 30); if (pre < 2 && c == 1) break; if (r == 0) continue; acquire(0, r, 0xffffffffu, 9); C[c].send(w, wn); const char* b = reply(c, 2, OK, 9, 4); (void)b; M[0].exists = true; M[0].cons += r; M[0].mx = M[0].cons; M[0].upd = now; held[c][0] += r; } observe(); }
  if (sx_param("age", 0)) interval(); if (sx_param("age", 0)) observe();
  for (int i = 0; i < n; ++i) step(i == 0 && first >= 0 ? first : sx_choose((int)sx_param("nf", 5), "op"));
  sx_reach("end"); sx_ok(); return 0;
}
