// A GC run held in progress (at its start or between two buckets) while slaves join and clients work: afterwards
// every slave holds the master's data, and GC has removed what it should and nothing else.
#include "kv.hpp"
using namespace kv;
static int held = 0, release_ = 0, sleep_no = 0, hold_at = 0;
static void park() { held = 1; sx_wake(&held, 0); while (!release_) sx_wait(&release_); }
static void at_addrs() { if (hold_at == 0 && !held) park(); }
static void at_sleep() { if (hold_at > 0 && ++sleep_no == hold_at) park(); }
static void adopt(int key) { // what the master holds after a command whose outcome depends on when GC passed
  conn& k = C[2]; buf w; w.str("get "); w.str(KEY[key]); w.str("\r\n"); k.send(w.b, w.n); if (k.avail() == 5) O[key] = obj(); k.skip(k.avail());
}
extern "C" int harness() {
  int cause = (int)sx_param("cause", 0), st = (int)sx_param("state", 1), sl = (int)sx_param("slave", 1); hold_at = (int)sx_param("hold", 0);
  boot(cause == 2 ? "buckets = 3\nworkers = 2\nrepl_buffer_size = 1\ngc_interval = 1\ninitial_repl_sleep_delay_usec = 10000\n" : "buckets = 3\nworkers = 2\nrepl_buffer_size = 1\ninitial_repl_sleep_delay_usec = 10000\n");
  if (sl & 1) { join(0); tick_(2); }
  prepare(st, (int)sx_param("vkind", 3), 0); sx_reach("prepared");
  if (cause == 2) tick_(2);
  if (cause == 0) { join(1); joined[1] = false; }
  if (cause == 1) { C[2].send("flush_all\r\n"); C[2].skip(C[2].avail()); }
  on_addrs = at_addrs; on_sleep = at_sleep; for (int i = 0; i < 4 && !held; ++i) tick_(1);
  if (!held) { sx_fail("harness: no GC run"); return 0; } sx_reach("held");
  if (cause != 0 && sx_choose(2, "joins")) { join(1); joined[1] = false; sx_reach("late"); }
  int op = sx_choose(cause == 1 ? 4 : 7, "op"), key = sx_choose(NK, "key"); static u8 nd[4]; sx_sym(nd, 2, "new"); args a; a.key = key; a.d = nd; a.n = 2; a.flags = 5;
  bool sure = cause != 1;   // while a flush is being carried out the fate of an object stored meanwhile is GC's
  static const int bo[] = {4, 10, 6, 16, 20, 27};   // Set, Delete, Add, Append, Touch, Lock
  static const int no[] = {4, 10, 6, -1}; int bi = cause == 1 ? no[op] : op < 6 ? bo[op] : -1; if (bi >= 0) { if (sure) { do_bin(0, bi, a, BOPS[bi].fam == TOUCH ? 9 : 0, 7, false); observe(); }
    else { breq q; const bop& b = BOPS[bi]; bin_expect(b, 0, a, q); q.opaque = 7; if (b.fam == SET || b.fam == ADD) be32(q.ext + 4, 0); if (b.fam == TOUCH) { be32(q.ext, 9); q.nx = 4; } size_t n = put_bin(q, wire); C[0].send(wire, n); bool done = C[0].avail() >= 24 && rd(C[0].out() + 6, 2) == 0; if (done && b.fam == DEL) O[key] = obj(); if (done && b.fam != DEL) { fresh(O[key]); setval(O[key], nd, 2); O[key].flags = 5; sx_reach("stored"); } C[0].skip(C[0].avail()); } }
  int gap = sx_choose(2, "gap"); if (gap) tick_(1);
  release_ = 1; sx_wake(&release_, 0); on_addrs = nullptr; on_sleep = nullptr; tick_(4); if (SL[1].fd >= 0) joined[1] = true;
  if (cause == 1) { flush_at = 0; for (int i = 0; i < NK; ++i) adopt(i); } for (int i = 0; i < NK; ++i) if (cause == 1) O[i].cas_known = false;
  observe(); slaves_equal(); sx_reach("end"); sx_ok(); return 0;
}
