// P19/P38: the real server as a slave of a master played by the harness; what it holds is read after it is promoted
#include "kv.hpp"
using namespace kv;
// arbitrary keys: the bucket does not matter, only the engine replaces the hash
extern "C" uint64_t ovr(const void* p, size_t n) asm("sx_override__ZN6cybozu9siphash24EPKvm");
uint64_t ovr(const void* p, size_t n) { return n; }
static conn up() { conn c; for (int i = 0; i < MAXFD; ++i) if (fds[i].k == SOCK && fds[i].port == REPL) { c.fd = i; c.gen = fds[i].gen; } if (c.fd < 0) sx_fail("the slave did not connect to its master"); return c; }
static u8 st[600]; static size_t sn = 0; static size_t rec_at[9]; static int nrec = 0;
static void record(int what, int key, const u8* d, size_t n, uint32_t flags, uint32_t exp) {
  size_t kl = key < 0 ? 0 : strlen(KEY[key]); u8* w = st + sn; size_t xl = what == 0 ? 8 : what == 1 ? 4 : 0; size_t body = xl + kl + n; rec_at[nrec++] = sn;
  memset(w, 0, 24); w[0] = 0x80; w[1] = what == 0 ? 0x11 : what == 1 ? 0x1c : what == 2 ? 0x14 : what == 3 ? 0x0a : 0x7e; w[2] = 0; w[3] = (u8)kl; w[4] = (u8)xl; be32(w + 8, (uint32_t)body);
  if (what == 0) { be32(w + 24, flags); be32(w + 28, exp); } if (what == 1) be32(w + 24, exp);
  if (kl) memcpy(w + 24 + xl, KEY[key], kl); if (n) memcpy(w + 24 + xl + kl, d, n); sn += 24 + body;
}
static void model(int what, int key, const u8* d, size_t n, uint32_t flags, uint32_t exp) {
  if (key < 0) return; obj& o = O[key];
  if (what == 0) { o = obj(); o.present = true; setval(o, d, n); o.flags = flags; o.exp = rel(exp); }
  if (what == 1 && o.present) o.exp = rel(exp);
  if (what == 2) o = obj();
}
static void vip_comes() { has_vip = true; }
static int dead_fd = -1; static long dead(int fd, size_t n) { return fd == dead_fd ? -EPIPE : (long)n; }
// the connection to the master ends (0 the address comes first, 1-2 between heartbeats, 3-4 together with one, 5 a heartbeat cannot be sent)
static void promote(conn& m, int how) {
  if (how == 0 || sx_choose(2, "vip")) has_vip = true; else on_sleep = vip_comes; if (how == 0) tick(2); else if (how == 1) m.eof(); else if (how == 2) m.hangup(EPOLLIN | EPOLLHUP); else if (how == 3 || how == 4) { env::now += 1; mono_ms += 1001; if (how == 3) m.eof(); else m.hangup(EPOLLERR | EPOLLHUP); } else { dead_fd = m.fd; on_send = dead; tick(1); on_send = nullptr; } for (int i = 0; i < 3; ++i) tick(1);
  sx_assert(!ended, "the slave ended instead of becoming master"); for (int i = 0; i < NCONN; ++i) { C[i] = connect(); if (!C[i].open()) { sx_fail("a promoted server refuses clients"); return; } }
}
// 2: the master goes away and the address does not come: an empty slave again, whatever it held
static void rejoin(conn m, int how) {
  int f0 = m.fd; sx_assert(sleeps == 0, "harness: sleeps"); if (how == 0) m.eof(); else if (how == 1) m.hangup(EPOLLIN | EPOLLHUP); else { dead_fd = m.fd; on_send = dead; tick(1); on_send = nullptr; } tick(1);
  sx_assert(!ended, "the slave ended when its master went away"); sx_assert(m.gone(), "the connection to the dead master was not closed"); conn n = up(); if (n.fd < 0) return; (void)f0;
  for (int i = 0; i < NK; ++i) O[i] = obj(); sn = 0; nrec = 0; u8 d[2]; sx_sym(d, 2, "after"); int k = sx_choose(NK, "again"); record(0, k, d, 2, 7, 0); model(0, k, d, 2, 7, 0); n.feed(st, sn); event(n.fd, EPOLLIN); pump(); sx_reach("rejoined");
  promote(n, sx_choose(3, "end")); observe(); for (int i = 0; i < 2; ++i) { tick(1); observe(); }
}
// 3: a master that no longer has the address ends at its next GC run, without an answer in between that loses data
static void lose_vip() {
  cfg("buckets = 3\nworkers = 2\nrepl_buffer_size = 1\ngc_interval = 3\n"); start(true); for (int i = 0; i < NCONN; ++i) C[i] = connect(); tick(1);
  prepare(1, 3, 0); has_vip = false; int n = 0; while (!ended && n < 9) { tick(1); ++n; } sx_assert(ended, "a master without the address goes on"); sx_assert(quit_code == 2, "exit status of a master that lost the address"); sx_reach("lost");
}
// 4: signals
static void signals(bool master) {
  cfg("buckets = 3\nworkers = 2\nrepl_buffer_size = 1\n"); start(master); conn m; if (master) { for (int i = 0; i < NCONN; ++i) C[i] = connect(); prepare(1, 3, 0); } else { tick(1); m = up(); }
  int sfd = -1; for (int i = 0; i < MAXFD; ++i) if (fds[i].k == OTHER) { sfd = i; break; } if (sfd < 0) { sx_fail("no signal descriptor"); return; }
  static char si[128]; static const int sig[] = {1, 3, 15, 2, 10}; int w = sx_choose(5, "signal"), two = sx_choose(2, "twice"); si[0] = (char)sig[w]; for (int i = 0; i <= two; ++i) env::feed(sfd, si, 128); event(sfd, EPOLLIN); pump();
  bool ends = w >= 1 && w <= 3; if (ends) { sx_assert(ended, "a termination signal did not end the server"); if (master) sx_assert(quit_code == 0, "exit status after a termination signal"); sx_reach("ended"); return; }
  sx_assert(!ended, "a signal ended the server"); tick(1); if (master) observe(); else sx_assert(m.open(), "a signal cut the slave off"); sx_reach("survived");
}
extern "C" int harness() {
  if (sx_param("what", 0) == 3) { lose_vip(); sx_reach("end"); sx_ok(); return 0; }
  if (sx_param("what", 0) == 4) { signals(sx_param("master", 1)); sx_reach("end"); sx_ok(); return 0; }
  cfg("buckets = 3\nworkers = 2\nrepl_buffer_size = 1\n"); start(false); tick(2); conn m = up(); if (m.fd < 0) return 0;
  int what = (int)sx_param("what", 0), n = (int)sx_param("n", 2), first = (int)sx_param("first", -1);
  if (what == 1) { // arbitrary bytes after a valid magic number: no access outside, no matter how they are cut
    size_t len = (size_t)sx_param("len", 30); sx_sym(st, len, "b"); sx_assume(st[0] == 0x80); size_t cut = sx_choose((int)len, "cut"); int op = (int)sx_param("op", -1); if (op >= 0) sx_assume(st[1] == op);
    if (len > 24) { size_t body = (size_t)rd((char*)st + 8, 4); sx_assume(body >= len - 24); }
    if (cut) { m.feed(st, cut); event(m.fd, EPOLLIN); pump(); } m.feed(st + cut, len - cut); event(m.fd, EPOLLIN); pump(); sx_reach("fed"); tick(1); tick(1); sx_assert(!ended && m.open(), "the slave gave up"); sx_reach("end"); sx_ok(); return 0; }
  for (int i = 0; i < n; ++i) {
    int w = i == 0 && first >= 0 ? first : sx_choose(5, "record"), k = w < 3 ? sx_choose(NK, "key") : w == 4 ? 0 : -1; u8 d[4]; size_t len = w == 0 ? sx_choose((int)sx_param("lens", 3), "len") : w == 4 ? 2 : 0; sx_sym(d, 3, "val");
    uint32_t fl = sx_u32("flags"), e = (int)sx_param("exps", 1) == 0 ? 0 : sx_choose(2, "expires") ? 1000000000u + 6u : 0; if (sx_param("exps", 1) == 2) { e = sx_u32("exp"); sx_assume(e != NONE); sx_assume(e == 0 || e > 2592000); }
    record(w, k, d, len, fl, e); if (w < 4) model(w, k, d, len, fl, e);
  }
  int cuts = (int)sx_param("cuts", 1), pause = (int)sx_param("pause", -1); size_t at = 0; if (pause < 0) pause = sx_choose(2, "pause");
  size_t last = sn; bool part = sx_param("partial", 0); if (part) { u8 z[3] = {9, 9, 9}; record(0, 0, z, 3, 1, 0); last = rec_at[nrec - 1] + 1 + (size_t)sx_choose((int)(sn - rec_at[nrec - 1] - 1), "tail"); }   // the master dies inside a record: it must not be applied
  for (int i = 0; i < cuts; ++i) { size_t c = at + 1 + (size_t)sx_choose((int)(last - at - 1), i ? "cut2" : "cut"); m.feed(st + at, c - at); if (pause) { event(m.fd, EPOLLIN); pump(); } at = c; if (at + 1 >= last) break; }
  if (at < last) m.feed(st + at, last - at); event(m.fd, EPOLLIN); pump(); sx_reach("fed");
  size_t hb = fds[m.fd].out.n; for (int i = 0; i < 3; ++i) { tick(1); sx_assert(fds[m.fd].out.n == hb + 1 + i, "not exactly one heartbeat a second"); }
  if (what == 2) { rejoin(m, (int)sx_param("end", 0)); sx_reach("end"); sx_ok(); return 0; }
  promote(m, (int)sx_param("end", 0)); observe(); sx_reach("promoted"); for (int i = 0; i < 2; ++i) { tick(1); observe(); }
  sx_reach("end"); sx_ok(); return 0;
}
