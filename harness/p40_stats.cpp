// P40: the statistics reported on the wire tell what happened
#include "kv.hpp"
#include <src/memcache/stats.hpp>
using namespace kv;
static const int TEXTF[] = {SET, ADD, REPLACE, APPEND, PREPEND, CAS, DEL, INCR, DECR, TOUCH, GET, LOCK, UNLOCK, UNLOCK_ALL, VERSION_};
// ---- one Stat/stats reply as a table of names and values 
struct ent { char n[32]; size_t nl; char v[32]; size_t vl; };
struct table { ent e[90]; int k = 0;
  void add(const char* n, size_t nl, const char* v, size_t vl) { if (k >= 90 || nl > 32) { sx_fail("too many statistics or a long name"); return; } ent& x = e[k++]; memcpy(x.n, n, nl); x.nl = nl; x.vl = vl; memcpy(x.v, v, vl > 32 ? 32 : vl); }
  const ent* find(const char* name) const { size_t l = strlen(name); const ent* r = nullptr; for (int i = 0; i < k; ++i) if (e[i].nl == l && memcmp(e[i].n, name, l) == 0) { sx_assert(!r, "a statistic is reported twice"); r = &e[i]; } return r; }
  bool is(const char* name, const char* val) const { const ent* x = find(name); return x && x->vl == strlen(val) && memcmp(x->v, val, x->vl) == 0; }
};
static table stat(int c, const char* cat, int text) {
  table t; conn& k = C[c];
  if (text) {
    buf w; w.str("stats"); if (cat) { w.put(' '); w.str(cat); } w.str("\r\n"); k.send(w.b, w.n);
    for (;;) {
      const char* p = k.out(); size_t n = k.avail(), e = 0; while (e < n && p[e] != '\n') ++e;
      if (e == n) { sx_fail("stats: reply not terminated"); return t; } k.skip(e + 1); if (e == 4 && memcmp(p, "END\r", 4) == 0) break;
      size_t m = 5; if (e < 8 || memcmp(p, "STAT ", 5) != 0 || p[e - 1] != '\r') { sx_fail("stats: malformed line"); return t; } while (m < e && p[m] != ' ') ++m; if (m >= e) { sx_fail("stats: malformed line"); return t; }
      t.add(p + 5, m - 5, p + m + 1, e - 1 - m - 1);
    }
  } else {
    breq q; q.op = 0x10; q.opaque = 0x77; q.kp = cat; q.klen = cat ? strlen(cat) : 0; size_t n = put_bin(q, wire); k.send(wire, n);
    for (;;) {
      const char* p = k.out(); if (k.avail() < 24) { sx_fail("Stat: reply not terminated"); return t; } size_t kl = rd(p + 2, 2), bl = rd(p + 8, 4);
      if (k.avail() < 24 + bl || kl > bl || (bl && !kl) || (u8)p[0] != 0x81 || (u8)p[1] != 0x10 || p[4] || rd(p + 6, 2)) { sx_fail("Stat: malformed packet"); return t; } k.skip(24 + bl); if (!bl) break;
      t.add(p + 24, kl, p + 24 + kl, bl - kl);
    }
  }
  sx_assert(k.avail() == 0, "bytes after the terminator of a statistics reply"); return t;
}
static uint64_t num(const table& t, const char* name) {
  const ent* x = t.find(name); if (!x) { sx_fail("a statistic is missing"); return 0; } uint64_t v = 0; bool ok = x->vl > 0 && x->vl <= 20;
  for (size_t i = 0; ok && i < x->vl; ++i) { unsigned g = (u8)(x->v[i] - '0'); ok = g <= 9; v = v * 10 + g; } sx_assert(ok, "a counter is not a decimal number"); return v;
}
static const struct { u8 op; const char* n; } BN[] = {{0x00, "Get"}, {0x01, "Set"}, {0x02, "Add"}, {0x03, "Replace"}, {0x04, "Delete"}, {0x05, "Increment"}, {0x06, "Decrement"}, {0x07, "Quit"}, {0x08, "Flush"}, {0x09, "GetQ"}, {0x0a, "Noop"}, {0x0b, "Version"}, {0x0c, "GetK"}, {0x0d, "GetKQ"}, {0x0e, "Append"}, {0x0f, "Prepend"}, {0x10, "Stat"},
  {0x11, "SetQ"}, {0x12, "AddQ"}, {0x13, "ReplaceQ"}, {0x14, "DeleteQ"}, {0x15, "IncrementQ"}, {0x16, "DecrementQ"}, {0x17, "QuitQ"}, {0x18, "FlushQ"}, {0x19, "AppendQ"}, {0x1a, "PrependQ"}, {0x1c, "Touch"}, {0x1d, "GaT"}, {0x1e, "GaTQ"}, {0x23, "GaTK"}, {0x24, "GaTKQ"},
  {0x40, "Lock"}, {0x41, "LockQ"}, {0x42, "Unlock"}, {0x43, "UnlockQ"}, {0x44, "UnlockAll"}, {0x45, "UnlockAllQ"}, {0x46, "LaG"}, {0x47, "LaGQ"}, {0x48, "LaGK"}, {0x49, "LaGKQ"}, {0x4a, "RaU"}, {0x4b, "RaUQ"}, {0x50, "Keys"}};
static const char* TN[] = {"set", "add", "replace", "append", "prepend", "cas", "get", "gets", "delete", "incr", "decr", "touch", "lock", "unlock", "unlock_all", "slabs", "stats", "flush_all", "version", "verbosity", "quit", "keys"};
const int NB = sizeof(BN) / sizeof(BN[0]), NT = sizeof(TN) / sizeof(TN[0]);
struct snap { uint64_t b[NB], t[NT], hits, misses, ch, cm, cb, items, curr, total, slaves; };
static char nm[40]; static const char* cat2(const char* a, const char* b) { size_t i = 0; while (*a) nm[i++] = *a++; while (*b) nm[i++] = *b++; nm[i] = 0; return nm; }
static snap take(int text) {
  snap s; table o = stat(2, "ops", text); for (int i = 0; i < NB; ++i) s.b[i] = num(o, cat2("binary:", BN[i].n)); for (int i = 0; i < NT; ++i) s.t[i] = num(o, cat2("text:", TN[i]));
  table g = stat(2, nullptr, text); s.hits = num(g, "get_hits"); s.misses = num(g, "get_misses"); s.ch = num(g, "cas_hits"); s.cm = num(g, "cas_misses"); s.cb = num(g, "cas_badval"); s.items = num(g, "total_items"); s.curr = num(g, "curr_connections"); s.total = num(g, "total_connections"); s.slaves = num(g, "slaves"); return s;
}
static int bidx(u8 op) { for (int i = 0; i < NB; ++i) if (BN[i].op == op) return i; return -1; }
static int tidx(const char* n) { for (int i = 0; i < NT; ++i) if (strcmp(TN[i], n) == 0) return i; return -1; }
// exactly the commands b (opcode) / t (verb) were counted in between, once each
static void ops_delta(const snap& x, const snap& y, int text, int b, const char* t, int times = 1) {
  for (int i = 0; i < NB; ++i) sx_assert(y.b[i] - x.b[i] == (uint64_t)((b >= 0 && BN[i].op == b ? times : 0) + (!text && BN[i].op == 0x10 ? 2 : 0)), "binary operation counts: not exactly the requests executed");
  for (int i = 0; i < NT; ++i) sx_assert(y.t[i] - x.t[i] == (uint64_t)((t && strcmp(TN[i], t) == 0 ? times : 0) + (text && strcmp(TN[i], "stats") == 0 ? 2 : 0)), "text operation counts: not exactly the requests executed");
}
// 1: one command on a generic state
static void one() {
  int text = (int)sx_param("text", 0), op = (int)sx_param("op", 0), cnt = (int)sx_param("opn", 1); if (cnt > 1) op += sx_choose(cnt, "op"); int c = sx_choose(2, "conn");
  snap x = take(text); args a; a.d = (const u8*)"57"; a.n = 2; a.flags = sx_u32("nflags"); int how = sx_choose(3, "cas"); obj before = O[0]; bool waslive = live(O[0]); int st, f;
  uint64_t cas = how == 0 ? 0 : how == 1 ? (before.cas_known ? before.cas : 5) : op >= NBOPS ? before.cas + 1 : sx_u64("casval"); if (how == 2) sx_assume(cas != 0);
  if (op < NBOPS) { f = BOPS[op].fam; if (f <= DECR) a.cas = cas; a.delta = 3; a.initial = 4; uint32_t e = f == INCR || f == DECR ? (sx_choose(2, "exp") ? (uint32_t)NONE : 0) : sx_choose(2, "exp") * 5; bool ext = (f == GET || f == GAT || f == LAG) && sx_choose(2, "extras"); if (f == GET && ext) ext = false; st = do_bin(c, op, a, e, 9, ext); }
  else { f = TEXTF[op - NBOPS]; a.flags = 3; a.delta = 3; a.cas = f == CAS ? cas : 0; st = do_text(c, f, a, 0, sx_choose(2, "noreply")); }
  snap y = take(text); if (st == -9) { ops_delta(x, y, text, -1, nullptr); sx_reach("not sent"); return; }
  if (op < NBOPS) ops_delta(x, y, text, BOPS[op].op, nullptr); else ops_delta(x, y, text, -1, TEXTCMD[f]);
  uint64_t h = y.hits - x.hits, m = y.misses - x.misses; bool getlike = f == GET || f == GAT || f == LAG;
  if (!getlike) sx_assert(h == 0 && m == 0, "a command that retrieves nothing counted as a get hit or miss");
  else if (st == OK) sx_assert(h == 1 && m == 0, "a retrieved object was not counted as exactly one get hit");
  else if (st == NotFound) sx_assert(h == 0 && m == 1, "a missing object was not counted as exactly one get miss");
  else sx_assert(h + m <= 1, "a refused retrieval counted more than once");
  uint64_t ch = y.ch - x.ch, cm = y.cm - x.cm, cb = y.cb - x.cb; bool cond = f == CAS || ((f == SET || f == REPLACE) && a.cas != 0);
  if (cond) {
    sx_assert(ch == (st == OK), "cas_hits does not count the conditional stores that succeeded"); sx_assert(cm == (st == NotFound), "cas_misses does not count the conditional stores of missing objects");
    sx_assert(cb == (st == Exists), "cas_badval does not count the conditional stores with another unique value"); if (st == OK) sx_reach("cas hit"); if (st == Exists) sx_reach("cas badval"); if (st == NotFound) sx_reach("cas miss"); }
  else { sx_assert(ch + cm + cb <= 1, "one store counted several times as conditional"); if (a.cas == 0) sx_assert(ch + cm + cb == 0, "an unconditional command counted as a conditional store"); if (ch) sx_assert(st == OK, "cas_hits counts a store that failed"); }
  uint64_t it = y.items - x.items; if (!before.present) { bool made = O[0].present; sx_assert(it == made, "total_items does not count exactly the objects created"); if (made) sx_reach("created"); } else if (waslive) sx_assert(it == 0, "total_items counts an object that already existed");
  sx_assert(y.curr == x.curr && y.total == x.total, "a command changed the connection counts"); sx_reach("counted");
}
// 2: commands outside the model of kv.hpp
static void misc() {
  int text = (int)sx_param("text", 0);
  static const struct { const char* w; size_t n; int b; const char* t; int hits, misses, times; } T[] = {
    {"gets a\r\n", 0, -1, "gets", 1, 0, 1}, {"get a bb nokey\r\n", 0, -1, "get", 2, 1, 1}, {"gets nokey a none\r\n", 0, -1, "gets", 1, 2, 1}, {"keys\r\n", 0, -1, "keys", 0, 0, 1}, {"keys b\r\n", 0, -1, "keys", 0, 0, 1}, {"verbosity 1\r\n", 0, -1, "verbosity", 0, 0, 1}, {"slabs reassign 1 2\r\n", 0, -1, "slabs", 0, 0, 1}, {"flush_all 1000\r\n", 0, -1, "flush_all", 0, 0, 1}, {"flush_all 1000 noreply\r\n", 0, -1, "flush_all", 0, 0, 1},
    {"stats items\r\n", 0, -1, "stats", 0, 0, 1}, {"get a\r\nget a\r\nget a\r\n", 0, -1, "get", 3, 0, 3}, {"quit\r\n", 0, -1, "quit", 0, 0, 1},
    {"\x80\x08\0\0\4\0\0\0\0\0\0\4\0\0\0\0\0\0\0\0\0\0\0\0\0\0\4\0", 28, 0x08, nullptr, 0, 0, 1}, {"\x80\x18\0\0\4\0\0\0\0\0\0\4\0\0\0\0\0\0\0\0\0\0\0\0\0\0\4\0", 28, 0x18, nullptr, 0, 0, 1}, {"\x80\x50\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 24, 0x50, nullptr, 0, 0, 1}, {"\x80\x07\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 24, 0x07, nullptr, 0, 0, 1}, {"\x80\x17\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 24, 0x17, nullptr, 0, 0, 1},
    {"\x80\x0a\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x80\x0a\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 48, 0x0a, nullptr, 0, 0, 2}, {"bogus\r\n", 0, -1, nullptr, 0, 0, 0}, {"get a\r", 0, -1, nullptr, 0, 0, 0}, {"set a 0 0 5\r\nab", 0, -1, nullptr, 0, 0, 0}};
  int i = sx_choose(sizeof(T) / sizeof(T[0]), "request"); snap x = take(text); C[0].send(T[i].w, T[i].n ? T[i].n : strlen(T[i].w)); snap y = take(text);
  ops_delta(x, y, text, T[i].b, T[i].t, T[i].times); sx_assert(y.hits - x.hits == (uint64_t)T[i].hits, "get hits: not exactly the keys found"); sx_assert(y.misses - x.misses == (uint64_t)T[i].misses, "get misses: not exactly the keys missing"); sx_assert(y.ch == x.ch && y.cm == x.cm && y.cb == x.cb && y.items == x.items, "a command without stores changed store statistics"); sx_reach("misc");
}
// 3: connections and slaves
static void conns() {
  static conn X[8]; int n = 0, live_ = NCONN, total = 0, nsl = 0; bool open[8]; int text = (int)sx_param("text", 0); snap x = take(text); sx_assert(x.curr == NCONN && x.total == NCONN, "connection counts after connecting"); sx_assert(x.slaves == 0, "slaves without any");
  for (int i = 0; i < (int)sx_param("n", 3); ++i) {
    int f = sx_choose(4, "event");
    if (f == 0) { X[n] = connect(); sx_assert(X[n].open(), "connection refused"); open[n++] = true; ++live_; ++total; }
    else if (f == 3) { if (nsl == NSL) continue; join(nsl); ++nsl; }
    else { int k = -1; for (int j = 0; j < n; ++j) if (open[j]) { k = j; if (f == 1) break; } if (k < 0) continue; open[k] = false; --live_;
      switch (sx_choose(5, "how")) { case 0: X[k].eof(); break; case 1: X[k].hangup(); break; case 2: fds[X[k].fd].err = ECONNRESET; event(X[k].fd, EPOLLERR | EPOLLIN); pump(); break; case 3: X[k].send("quit\r\n"); break; case 4: X[k].send("get a\r\nset x 0 0 5\r\nab", 22); X[k].hangup(EPOLLHUP); break; } sx_reach("closed"); }
    tick_(3); snap y = take(text); sx_assert(y.curr == (uint64_t)live_, "curr_connections is not the number of open connections"); sx_assert(y.total == (uint64_t)(NCONN + total), "total_connections is not the number of connections accepted"); sx_assert(y.slaves == (uint64_t)nsl, "slaves is not the number of connected slaves");
  }
  if (nsl) sx_reach("slaves"); sx_reach("conns");
}
// 4: every number is rendered exactly, in both protocols
static void render() {
  using yrmcds::memcache::g_stats; int text = (int)sx_param("text", 0);
  static const struct { const char* cat; const char* name; int w; } F[] = {{nullptr, "total_items", 64}, {nullptr, "get_hits", 64}, {nullptr, "get_misses", 64}, {nullptr, "cas_hits", 64}, {nullptr, "cas_misses", 64}, {nullptr, "cas_badval", 64}, {nullptr, "bytes", 64}, {nullptr, "evictions", 64}, {nullptr, "total_gc_elapsed", 64}, {nullptr, "last_gc_elapsed", 64},
    {nullptr, "curr_items", 32}, {nullptr, "gc_count", 32}, {nullptr, "last_expirations", 32}, {nullptr, "last_evictions", 32}, {"items", "items:1:number", 32}, {"items", "items:1:age", 32}, {"items", "items:1:evicted", 64}, {"items", "items:1:conflicts", 32}, {"items", "items:1:largest", 64},
    {"sizes", "1024", 32}, {"sizes", "4096", 32}, {"sizes", "16384", 32}, {"sizes", "65536", 32}, {"sizes", "262144", 32}, {"sizes", "1048576", 32}, {"sizes", "4194304", 32}, {"sizes", "huge", 32}};
  int i = (int)sx_param("lo", 0) + sx_choose((int)sx_param("cnt", 1), "statistic"); 
  static const uint64_t B64[] = {0, 900, 4294967200ull, 9999999999999999900ull, 18446744073709551360ull}, B32[] = {0, 900, 2147483600, 4294967040u}; uint64_t v = (F[i].w == 64 ? B64[sx_choose(5, "range")] : B32[sx_choose(4, "range")]) + sx_u8("value");
  std::atomic<uint64_t>* q = nullptr; std::atomic<uint32_t>* d = nullptr; std::atomic<size_t>* z = nullptr;
  switch (i) { case 0: q = &g_stats.total_objects; break; case 1: q = &g_stats.get_hits; break; case 2: q = &g_stats.get_misses; break; case 3: q = &g_stats.cas_hits; break; case 4: q = &g_stats.cas_misses; break; case 5: q = &g_stats.cas_badval; break; case 6: z = &g_stats.used_memory; break; case 7: case 16: q = &g_stats.total_evictions; break; case 8: q = &g_stats.total_gc_elapsed; break; case 9: q = &g_stats.last_gc_elapsed; break;
    case 10: case 14: d = &g_stats.objects; break; case 11: d = &g_stats.gc_count; break; case 12: d = &g_stats.last_expirations; break; case 13: d = &g_stats.last_evictions; break; case 15: d = &g_stats.oldest_age; break; case 17: d = &g_stats.conflicts; break; case 18: z = &g_stats.largest_object_size; break;
    case 19: d = &g_stats.objects_under_1k; break; case 20: d = &g_stats.objects_under_4k; break; case 21: d = &g_stats.objects_under_16k; break; case 22: d = &g_stats.objects_under_64k; break; case 23: d = &g_stats.objects_under_256k; break; case 24: d = &g_stats.objects_under_1m; break; case 25: d = &g_stats.objects_under_4m; break; case 26: d = &g_stats.objects_huge; break; }
  if (q) q->store(v); else if (z) z->store(v); else d->store((uint32_t)v);
  table t = stat(2, F[i].cat, text); const ent* x = t.find(F[i].name); if (!x) { sx_fail("a statistic is missing"); return; } sx_assert(is_decimal(x->v, x->vl, v), "a statistic is not the decimal rendering of its counter"); sx_reach("rendered");
}
// 5: settings
static void settings() {
  int text = (int)sx_param("text", 0), v = (int)sx_param("conf", 0); table t = stat(2, "settings", text); table g = stat(2, nullptr, text);
  sx_assert(t.is("tcpport", "11211"), "stats settings: tcpport"); sx_assert(t.is("replport", "11213"), "stats settings: replport"); sx_assert(t.is("maxbytes", v ? "104857600" : "1073741824"), "stats settings: maxbytes"); sx_assert(t.is("buckets", v ? "7" : "3"), "stats settings: buckets"); sx_assert(t.is("item_size_max", v ? "2097152" : "1048576"), "stats settings: item_size_max");
  sx_assert(t.is("num_threads", v ? "3" : "2"), "stats settings: num_threads"); sx_assert(t.is("gc_interval", v ? "17" : "10"), "stats settings: gc_interval"); sx_assert(t.is("secure_erase", v ? "on" : "off"), "stats settings: secure_erase"); sx_assert(t.is("tmp_dir", "/var/tmp"), "stats settings: tmp_dir");
  sx_assert(g.is("limit_maxbytes", v ? "104857600" : "1073741824"), "stats: limit_maxbytes"); sx_assert(g.is("threads", v ? "3" : "2"), "stats: threads"); sx_assert(g.is("pointer_size", "64"), "stats: pointer_size"); sx_assert(num(g, "time") == (uint64_t)now, "stats: time"); tick_(3); g = stat(2, nullptr, text); sx_assert(num(g, "time") == (uint64_t)now, "stats: time"); sx_reach("settings");
}
// 6: what garbage collection reports
static void collected() {
  static const size_t SZ[] = {10, 1023, 1024, 4095, 4096, 16383, 16384, 65535, 65536}; static const char* BK[] = {"1024", "4096", "16384", "65536", "262144", "1048576", "4194304", "huge"}; static const size_t LIM[] = {1024, 4096, 16384, 65536, 262144, 1048576, 4194304, ~(size_t)0};
  static char body[70000]; int text = (int)sx_param("text", 0); uint64_t want[8] = {0}, n = 0, sum = 0, largest = 0, ex = 0; memset(body, 'v', sizeof body); size_t sz[2];
  for (int i = 0; i < 2; ++i) {
    sz[i] = SZ[sx_choose(9, "size")]; buf w; w.str(i ? "set bb 0 " : "set a 0 "); w.put(i ? '0' : '3'); w.put(' '); w.dec(sz[i]); w.str("\r\n"); C[0].feed(w.b, w.n); C[0].feed(body, sz[i]); C[0].send("\r\n"); C[0].skip(C[0].avail());
  }
  int lk = sx_choose(2, "lock"); if (lk) { C[0].send("lock a\r\n"); C[0].skip(C[0].avail()); }
  uint64_t gcs = num(stat(2, nullptr, text), "gc_count"); bool a_in = true; int seen = 0;
  for (int i = 0; i < 8; ++i) {
    tick(1); uint64_t g = num(stat(2, nullptr, text), "gc_count"); if (g == gcs) continue; sx_assert(g == gcs + 1, "gc_count does not count the collections"); gcs = g; ++seen;
    bool gone = a_in && !lk && i >= 2; ex = gone; if (gone) { a_in = false; sx_reach("expired"); }
    n = sum = largest = 0; for (int j = 0; j < 8; ++j) want[j] = 0; for (int j = 0; j < 2; ++j) { if (j == 0 && !a_in) continue; ++n; sum += sz[j]; if (sz[j] > largest) largest = sz[j]; for (int b = 0; b < 8; ++b) if (sz[j] < LIM[b]) { ++want[b]; break; } }
    table s = stat(2, "sizes", text), it = stat(2, "items", text), ge = stat(2, nullptr, text);
    for (int b = 0; b < 8; ++b) sx_assert(num(s, BK[b]) == want[b], "stats sizes: not the number of objects of that size");
    sx_assert(num(it, "items:1:number") == n && num(ge, "curr_items") == n, "the number of items is not what the collection kept"); sx_assert(num(it, "items:1:largest") == largest, "the largest item's size"); sx_assert(num(it, "items:1:evicted") == 0 && num(ge, "evictions") == 0 && num(ge, "last_evictions") == 0, "evictions without any");
    sx_assert(num(ge, "last_expirations") == ex, "last_expirations is not the number of objects the last collection found expired"); uint64_t by = num(ge, "bytes"); sx_assert(by >= sum && by <= sum + n * 1024, "bytes is not the memory the objects use"); sx_assert(num(ge, "total_items") == 2, "total_items"); if (n == 2 && num(it, "items:1:conflicts")) sx_reach("conflict");
  }
  sx_assert(seen >= 2, "no garbage collection"); sx_reach("gc");
}
// 7: the counter server's Stats
static u8 w_[200]; static size_t wn; static void chead(u8 op, uint32_t body) { memset(w_, 0, 12); w_[0] = 0x90; w_[1] = op; w_[7] = (u8)body; wn = 12; }
static table cstat(conn& k, uint64_t* cnt) {
  table t; chead(0x10, 0); k.send(w_, wn); const char* p = k.out(); if (k.avail() < 12) { sx_fail("no Stats reply"); return t; } size_t body = rd(p + 4, 4), at = 0; if (k.avail() != 12 + body) { sx_fail("Stats: body length"); return t; }
  while (at + 4 <= body && t.k < 90) { size_t n = rd(p + 12 + at, 2), v = rd(p + 14 + at, 2); if (at + 4 + n + v > body) { sx_fail("Stats: lengths"); return t; } t.add(p + 16 + at, n, p + 16 + at + n, v); at += 4 + n + v; } sx_assert(at == body, "Stats: the pairs do not fill the body"); k.skip(12 + body);
  static const char* N[] = {"noop", "get", "acquire", "release", "stats", "dump"}; for (int i = 0; i < 6; ++i) cnt[i] = num(t, cat2("command:", N[i])); cnt[6] = num(t, "curr_connections"); cnt[7] = num(t, "total_connections"); cnt[8] = num(t, "total_objects"); cnt[9] = num(t, "objects"); cnt[10] = num(t, "gc_count"); return t;
}
static void counters() {
  conn K[3]; for (int i = 0; i < 3; ++i) K[i] = connect(CTR); int live_ = 3, total = 3, made = 0, n = (int)sx_param("n", 3); bool exists = false; uint64_t x[11], y[11]; cstat(K[2], x); sx_assert(x[6] == 3 && x[7] == 3, "counter connection counts");
  static const u8 OP[] = {0, 1, 2, 3, 0x10, 0x11};
  for (int i = 0; i < n; ++i) {
    int f = sx_choose(8, "command"), c = sx_choose(2, "conn"); uint32_t r = 2;
    if (f < 6) { chead(OP[f], 0); if (f == 2) { r = sx_u32("res"); be32(w_ + wn, r); wn += 4; be32(w_ + wn, sx_u32("max")); wn += 4; sx_assume(r != 0); } if (f == 3) { be32(w_ + wn, 1); wn += 4; } if (f >= 1 && f <= 3) { w_[wn++] = 0; w_[wn++] = 1; w_[wn++] = 'x'; } w_[7] = (u8)(wn - 12); conn& k = K[c]; k.send(w_, wn);
      int st = k.avail() >= 12 ? (u8)k.out()[2] : -1; if (f == 2 && !exists && (st == 0)) { exists = true; ++made; } k.skip(k.avail()); }
    else if (f == 6) { if (sx_choose(2, "end")) K[c].eof(); else K[c].hangup(); tick(1); tick(1); tick(1); K[c] = connect(CTR); ++total; } else { tick(1); tick(1); }
    cstat(K[2], y); for (int j = 0; j < 6; ++j) { bool maybe = f == 2 && j == 2; if (maybe) sx_assert(y[j] - x[j] <= 1, "counter: Acquire counted more than once"); else sx_assert(y[j] - x[j] == (uint64_t)((f == j) + (j == 4)), "counter: operation counts: not exactly the requests executed"); }
    if (f == 2 && made) sx_assert(exists, ""); sx_assert(y[6] == (uint64_t)live_, "counter: curr_connections is not the number of open connections"); sx_assert(y[7] == (uint64_t)total, "counter: total_connections is not the number accepted"); sx_assert(y[8] == (uint64_t)made, "counter: total_objects is not the number of counters created"); for (int j = 0; j < 11; ++j) x[j] = y[j];
  }
  if (made) sx_reach("counter made"); sx_reach("counters");
}
extern "C" int harness() {
  int what = (int)sx_param("what", 1), v = (int)sx_param("conf", 0);
  boot(what == 5 ? (v ? "buckets = 7\nworkers = 3\nrepl_buffer_size = 1\nmemory_limit = 100M\nmax_data_size = 2M\ngc_interval = 17\nsecure_erase = true\n" : "buckets = 3\nworkers = 2\nrepl_buffer_size = 1\n")
     : what == 6 ? "buckets = 2\nworkers = 1\nrepl_buffer_size = 1\ngc_interval = 1\n" : what == 7 ? "buckets = 2\nworkers = 1\nrepl_buffer_size = 1\ncounter.enable = true\ncounter.buckets = 1\n" : "buckets = 3\nworkers = 2\nrepl_buffer_size = 1\n");
  if (what == 1) { int st = (int)sx_param("state", -1); if (st < 0) st = sx_choose(NSTATES, "state"); prepare(st, 1, 0); gets_all(2); one(); }
  if (what == 2) { prepare(S_PLAIN, 1, 0); misc(); }
  if (what == 3) conns();
  if (what == 4) render();
  if (what == 5) settings();
  if (what == 6) collected();
  if (what == 7) counters();
  sx_reach("end"); sx_ok(); return 0;
}
