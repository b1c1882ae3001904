// One or more commands applied to a generic state of the cache, compared with the reference model.
#include "kv.hpp"
using namespace kv;
static const int TEXTF[] = {SET, ADD, REPLACE, APPEND, PREPEND, CAS, DEL, INCR, DECR, TOUCH, GET, LOCK, UNLOCK, UNLOCK_ALL, VERSION_};
static uint64_t pick_cas(int key) { switch (sx_choose(3, "cas")) { case 0: return 0; case 1: return O[key].cas; default: return sx_u64("casval"); } }
static const uint64_t TE[] = {0, 3, 2592000, 2592001, 1000000010, 4294967295, 4294967297};
static void step(int op, int par) {
  int c = par & 1 ? sx_choose(2, "conn") : 0; args a; a.key = par & 2 ? sx_choose(NK, "key") : 0;
  static u8 nd[8]; a.d = nd; a.n = 2; if (par & 128) memcpy(nd, "57", 2); else sx_sym(nd, 2, "new");
  if (par & 512) a.n = op < NBOPS ? 1 + sx_choose(2, "size") : sx_choose(3, "size"); static int mds = (int)sx_param("mds", 0); if (mds) { a.n = mds - 1 + sx_choose(3, "size"); if (par & 256) a.n -= 3; sx_sym(nd + 2, 6, "more"); }
  if (op < NBOPS) {
    int f = BOPS[op].fam; a.flags = sx_u32("nflags"); uint32_t e = par & 4 ? sx_u32("exp") : 0;
    bool mod = f <= DECR; if (mod && (par & 8)) a.cas = pick_cas(a.key);
    if (f == INCR || f == DECR) { a.delta = par & 16 ? sx_u64("delta") : sx_u8("delta"); a.initial = par & 64 ? sx_u64("initial") : sx_u8("initial"); if (par & 32) e = sx_choose(2, "exp") ? (uint32_t)NONE : e; }
    do_bin(c, op, a, e, opq(), (f == GET || f == GAT || f == LAG) && sx_choose(2, "extras"));
  } else {
    int f = TEXTF[op - NBOPS]; a.flags = 3; uint64_t e = par & 4 ? TE[sx_choose(7, "exp")] : 0;
    if (f == CAS) { int w = sx_choose(3, "cas"); a.cas = w == 0 ? O[a.key].cas : w == 1 ? O[a.key].cas + 1 : O[a.key].nseen ? O[a.key].seen[0] : 1; }
    if (f == INCR || f == DECR) a.delta = sx_choose(2, "delta") ? 7 : ~0ull - 3;
    do_text(c, f, a, e, sx_choose(2, "noreply"));
  }
  observe(); slaves_equal();
}
// command families for sequences (binary opcode indices of BOPS, 39.. text)
static const int FAM1[] = {4, 6, 8, 10, 2, 20, 39, 40, 41, 45, 48}, FAM2[] = {4, 16, 18, 12, 14, 42, 43}, FAM3[] = {4, 44, 35, 16, 10, 13, 0}, FAM4[] = {25, 27, 29, 33, 35, 4, 10, 16, 50, 51, 52}, FAM5[] = {20, 21, 4, 6, 10, 31, 27, 2};
static int pick(int fam, int i) {
  static const char* nm[] = {"op1", "op2", "op3", "op4"}; const int* l = fam == 1 ? FAM1 : fam == 2 ? FAM2 : fam == 3 ? FAM3 : fam == 4 ? FAM4 : FAM5; int n = fam == 1 ? 11 : fam == 2 ? 7 : fam == 3 ? 7 : fam == 4 ? 11 : 8;
  int first = (int)sx_param("first", -1); if (i == 0 && first >= 0) return l[first]; return l[sx_choose(n, nm[i])];
}
extern "C" int harness() {
  static char conf[100] = "buckets = 3\nworkers = 2\nrepl_buffer_size = 1\nmax_data_size = 0\n"; int mds = (int)sx_param("mds", 0); if (mds) { conf[strlen(conf) - 2] += mds; max_data = mds; } else conf[strlen(conf) - 18] = 0;
  boot(conf);
  int vk = (int)sx_param("vkind", 0), par = (int)sx_param("par", 15), n = (int)sx_param("nops", 1), lo = (int)sx_param("op", 0), cnt = (int)sx_param("opn", 1);
  int st = (int)sx_param("state", -1); if (st < 0) st = sx_choose(NSTATES, "state");
  int sl = (int)sx_param("slave", 0); if (sl & 1) { join(0); tick_(2); }
  prepare(st, vk, (int)sx_param("symflags", 1)); sx_reach("prepared"); slaves_equal();
  if (sl & 2) { join(1); joined[1] = false; int w = (int)sx_param("when", 0); if (w) { step(lo, par); } tick_(3); joined[1] = true; observe(); slaves_equal(); sx_reach("joined"); }
  int fam = (int)sx_param("fam", 0), mid = (int)sx_param("mid", 0);
  if (fam) { for (int i = 0; i < n; ++i) { step(pick(fam, i), par); if (mid) { tick_(mid); observe(); slaves_equal(); } } sx_reach("end"); sx_ok(); return 0; }
  for (int i = 0; i < n; ++i) step(lo + (cnt > 1 ? sx_choose(cnt, "op") : 0), par);
  int t = (int)sx_param("ticks", 0); if (t) { tick_(t); observe(); slaves_equal(); }
  sx_reach("end"); sx_ok(); return 0;
}
