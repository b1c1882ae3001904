// Special commands and situations on the whole server, against the reference model of kv.hpp.
#include "kv.hpp"
#include "binrules.hpp"
using namespace kv;
static int reply_len(conn& k) { if (k.avail() < 24) return -1; size_t b = (size_t)rd(k.out() + 8, 4); return k.avail() < 24 + b ? -1 : (int)(24 + b); }
static void one_error(int c, u8 op, uint32_t opaque, int status) {
  breq q; q.op = op; q.opaque = opaque; reply r; r.kind = R_ERR; r.status = status; check_bin(c, q, r);
}
// 1: requests that violate their opcode's rules, and undefined opcodes
static void bad_requests() {
  int lo = (int)sx_param("lo", 0), cnt = (int)sx_param("cnt", 32), op = lo + sx_choose(cnt, "opcode");
  static const int XL[] = {0, 4, 8, 20, 5}; int xl = XL[sx_choose(5, "xlen")], kl = sx_choose(2, "klen"), dl = sx_choose(2, "dlen") * 2, over = sx_choose(2, "over");
  const Rule* r = nullptr; for (const Rule& x : RULES) if (x.op == op) r = &x;
  int st = Unknown;
  if (over) st = r ? Invalid : -1;
  else if (r) { bool exok = r->kind == K_FREE || xl == r->exa || xl == r->exb, kok = r->key == 2 || (r->key == 1) == (kl > 0), vok = r->val == 2 || (r->val == 1) == (dl > 0); if (exok && kok && vok) return; st = Invalid; }
  u8 w[64]; int body = xl + kl + dl; memset(w, 0, sizeof w); w[0] = 0x80; w[1] = (u8)op; w[3] = (u8)(kl + over * (body + 1)); w[4] = (u8)xl; w[11] = (u8)body; uint32_t o = sx_u32("opaque"); be32(w + 12, o);
  sx_sym(w + 16, 8, "cas"); sx_sym(w + 24, xl, "extras"); if (kl) w[24 + xl] = 'a'; sx_sym(w + 24 + xl + kl, dl, "data");
  C[0].send(w, 24 + body);
  if (st < 0) { conn& k = C[0]; int n = reply_len(k); sx_assert(n > 0 && (size_t)n == k.avail(), "not exactly one reply"); uint64_t s = rd(k.out() + 6, 2); sx_assert(s == Invalid || s == Unknown, "malformed request not refused"); sx_assert((u8)k.out()[1] == (u8)op, "opcode not echoed"); k.skip(k.avail()); }
  else one_error(0, (u8)op, o, st);
  sx_reach("bad");
}
// reads a sequence of packets up to the terminator (empty key, empty body)
static int packets(int c, u8 op, uint32_t opaque) {
  conn& k = C[c]; int n = 0;
  for (;;) {
    int l = reply_len(k); if (l < 0) { sx_fail("unterminated reply sequence"); return n; }
    const char* p = k.out(); buf e; e.put(0x81); e.put(op); e.any(2); e.be(0, 1); e.be(0, 1); e.be(0, 2); e.any(4); e.be(opaque, 4); e.be(0, 8);
    sx_assert(diff(p, e, 0, e.n) == 0, "malformed packet in a reply sequence"); size_t kl = (size_t)rd(p + 2, 2), bl = (size_t)rd(p + 8, 4);
    sx_assert(kl <= bl, "key length exceeds the body"); k.skip(l);
    if (bl == 0) return n;
    sx_assert(kl > 0, "packet of a sequence without a key"); ++n;
  }
}
static void bin0(int c, u8 op, uint32_t opaque, const char* key = nullptr) { breq q; q.op = op; q.opaque = opaque; q.kp = key; q.klen = key ? strlen(key) : 0; size_t n = put_bin(q, wire); C[c].send(wire, n); }
static void stat_seq() {
  static const char* cat[] = {nullptr, "settings", "items", "sizes", "ops", "xyz"}; uint32_t o = sx_u32("opaque");
  bin0(0, 0x10, o, cat[sx_choose(6, "category")]); int n = packets(0, 0x10, o); sx_assert(n >= 1, "empty statistics"); sx_assert(C[0].avail() == 0, "bytes after the terminator of a Stat reply");
  bin0(0, 0x50, o); n = packets(0, 0x50, o); int lv = 0; for (int i = 0; i < NK; ++i) lv += live(O[i]); sx_assert(n == lv, "number of keys reported"); sx_assert(C[0].avail() == 0, "bytes after the terminator of a Keys reply"); sx_reach("stat");
}
static void quit_cmd() {
  uint32_t o = sx_u32("opaque"); int v = sx_choose(3, "variant"), more = sx_choose(2, "pipelined");
  buf w; if (v < 2) { breq q; q.op = v ? 0x17 : 0x07; q.opaque = o; w.n = put_bin(q, w.b); } else w.str("quit\r\n");
  if (more) w.str("set bb 0 0 1\r\nx\r\n");
  int was = O[0].lock; (void)was; C[0].send(w.b, w.n);
  if (v == 0) { conn& k = C[0]; sx_assert(reply_len(k) == 24 && k.avail() == 24, "Quit must be answered once"); buf e; e.put(0x81); e.put(0x07); e.be(0, 6); e.be(0, 4); e.be(o, 4); e.be(0, 8); if (k.avail() == 24) sx_assert(diff(k.out(), e, 0, 24) == 0, "Quit reply"); k.skip(k.avail()); }
  else sx_assert(C[0].avail() == 0, "QuitQ/quit must not be answered");
  sx_assert(!C[0].open(), "connection not closed by quit");
  for (int i = 0; i < NK; ++i) if (O[i].lock == 0) O[i].lock = -1;
  observe(); tick_(2); sx_assert(C[0].gone(), "descriptor of a connection that quit is not closed"); observe();
  args a; a.key = 0; a.d = (const u8*)"new"; a.n = 3; a.flags = 1; do_text(1, SET, a, 0, false); observe(); sx_reach("quit");
}
// pipelined quiet requests answered in order, in one segment or two
static void quiet_batch() {
  static u8 w[600]; static size_t end[8]; size_t n = 0; breq q[5]; static const int B[5] = {3, 9, 3, 37, 0};   // GetKQ a, ReplaceQ?, ... indices of BOPS
  (void)B; int ks[5]; for (int i = 0; i < 5; ++i) ks[i] = i & 1;
  u8 d[2]; sx_sym(d, 2, "new"); args a; a.d = d; a.n = 2; a.flags = 5;
  int idx[5] = {3, 5, 1, 9, 37}; // GetKQ, SetQ, GetQ, ReplaceQ, Noop
  for (int i = 0; i < 5; ++i) { a.key = ks[i]; bin_expect(BOPS[idx[i]], 0, a, q[i]); if (BOPS[idx[i]].fam == SET || BOPS[idx[i]].fam == REPLACE) be32(q[i].ext + 4, 0); q[i].opaque = 100 + i; n += put_bin(q[i], w + n); end[i] = n; }
  size_t cut = sx_choose(3, "cut") == 0 ? n : end[sx_choose(4, "at")] - sx_choose(2, "back") * 3;
  C[0].feed(w, cut); if (cut < n) { if (sx_choose(2, "pause")) { event(C[0].fd, EPOLLIN); pump(); } C[0].feed(w + cut, n - cut); } event(C[0].fd, EPOLLIN); pump();
  buf e;
  for (int i = 0; i < 5; ++i) { a.key = ks[i]; int f = BOPS[idx[i]].fam; a.exp = 0; int st = apply(f, 0, a, true); obj& ob = O[a.key]; u8 op = q[i].op; size_t kl = strlen(KEY[a.key]);
    if (f == GET) { if (st != OK) continue; bool wk = BOPS[idx[i]].withkey; e.put(0x81); e.put(op); e.be(wk ? kl : 0, 2); e.be(4, 1); e.be(0, 3); e.be(4 + (wk ? kl : 0) + ob.len, 4); e.be(q[i].opaque, 4); e.any(8); e.be(ob.flags, 4); if (wk) e.mem(KEY[a.key], kl); e.mem(ob.d, ob.len); }
    else if (st != OK) { e.put(0x81); e.put(op); e.be(0, 4); e.be(st, 2); size_t ml = 9; (void)ml; size_t p = e.n; conn& k = C[0]; size_t bl = k.avail() >= p + 6 ? (size_t)rd(k.out() + p + 2, 4) : 0; e.any(4); e.be(q[i].opaque, 4); e.be(0, 8); e.any(bl); }
    else if (f == NOOP) { e.put(0x81); e.put(op); e.be(0, 6); e.be(0, 4); e.be(q[i].opaque, 4); e.be(0, 8); } }
  conn& k = C[0]; if (k.avail() != e.n) { sx_fail("pipelined quiet requests: wrong amount of reply bytes"); k.skip(k.avail()); return; }
  sx_assert(diff(k.out(), e, 0, e.n) == 0, "pipelined quiet requests: replies differ"); k.skip(e.n); observe(); sx_reach("batch");
}
// 10: text replies other than those of kv.cpp
static void expect_text(int c, const buf& e, const char* m) { conn& k = C[c]; if (k.avail() != e.n) { sx_fail(m); k.skip(k.avail()); return; } sx_assert(diff(k.out(), e, 0, e.n) == 0, m); k.skip(e.n); }
static void text_misc() {
  static const char* req[] = {"bogus\r\n", "get\r\n", "set a 0 0\r\n", "verbosity 1\r\n", "slabs reassign 1 2\r\n", "stats\r\n", "stats settings\r\n", "stats items\r\n", "stats sizes\r\n", "stats ops\r\n", "version\r\n", "\r\n", "incr a x\r\n", "verbosity 1 noreply\r\n", "delete a 0 x\r\n"};
  int w = sx_choose(14, "request"); C[0].send(req[w]); conn& k = C[0]; buf e;
  if (w < 3 || w == 11 || w == 12) { e.str("ERROR\r\n"); expect_text(0, e, "a malformed line must be answered ERROR"); }
  else if (w == 3 || w == 4) { e.str("OK\r\n"); expect_text(0, e, "OK expected"); }
  else if (w == 13) sx_assert(k.avail() == 0, "noreply answered");
  else if (w >= 5 && w <= 9) { size_t n = k.avail(); sx_assert(n >= 5 && memcmp(k.out() + n - 5, "END\r\n", 5) == 0, "stats not terminated"); for (size_t i = 0; i + 5 < n; ++i) if ((i == 0 || k.out()[i - 1] == '\n') && memcmp(k.out() + i, "STAT ", 5) != 0 ) sx_fail("stats: malformed line"); k.skip(n); }
  else { size_t n = k.avail(); sx_assert(n > 10 && memcmp(k.out(), "VERSION ", 8) == 0 && k.out()[n - 2] == '\r' && k.out()[n - 1] == '\n', "version"); k.skip(n); }
  // a line of arbitrary bytes that no command can start with is an error and has no effect
  u8 x[6]; x[0] = '#'; sx_sym(x + 1, 3, "line"); for (int i = 1; i < 4; ++i) sx_assume(x[i] != '\n'); x[4] = '\r'; x[5] = '\n'; C[0].send(x, 6); buf er; er.str("ERROR\r\n"); expect_text(0, er, "an unknown verb must be answered ERROR");
  observe(); gets_all(0); sx_reach("misc");
}
static void multi_get() {
  int withcas = sx_choose(2, "gets"), order = sx_choose(4, "order"); static const int ORD[4][3] = {{0, 1, -1}, {1, 0, -1}, {0, -1, 1}, {1, 1, 0}};
  buf w, e; w.str(withcas ? "gets" : "get"); observe();
  for (int i = 0; i < 3; ++i) { int k = ORD[order][i]; w.put(' '); if (sx_choose(2, "blank")) w.put(' '); w.str(k < 0 ? "none" : KEY[k]); if (k < 0 || !live(O[k])) continue; obj& o = O[k];
    e.str("VALUE "); e.str(KEY[k]); e.put(' '); e.dec(o.flags); e.put(' '); e.dec(o.len); if (withcas) { e.put(' '); e.dec(o.cas); } e.str("\r\n"); e.mem(o.d, o.len); e.str("\r\n"); }
  w.str("\r\n"); e.str("END\r\n"); C[0].send(w.b, w.n); expect_text(0, e, "get/gets with several keys: reply differs"); sx_reach("multi");
}
// 20: flush
static void flushed_gc() { if (flush_at && flush_at <= now) { for (int i = 0; i < NK; ++i) if (O[i].lock < 0) O[i].present = false; flush_at = 0; } }
static void flush_cmd(int form, uint32_t e) {
  buf w; uint32_t o = 7;
  if (form < 2) { breq q; q.op = form ? 0x18 : 0x08; q.opaque = o; int ext = e != 0 || sx_choose(2, "extras"); if (ext) { be32(q.ext, e); q.nx = 4; } w.n = put_bin(q, w.b); }
  else { w.str("flush_all"); if (e != 0 || sx_choose(2, "extras")) { w.put(' '); w.dec(e); } if (form == 3) w.str(" noreply"); w.str("\r\n"); }
  C[2].send(w.b, w.n);
  if (form == 0) { breq q; q.op = 0x08; q.opaque = o; reply r; r.kind = R_DONE; r.o = nullptr; check_bin(2, q, r); }
  else if (form == 2) { buf e2; e2.str("OK\r\n"); expect_text(2, e2, "flush_all reply"); } else sx_assert(C[2].avail() == 0, "a quiet flush was answered");
  flush_at = e == 0 ? now : rel(e);
}
static void tick_f(bool watch = true) { beat(); tick(1); if (flush_at && flush_at <= now) { if (watch) observe(); tick(0); tick(1); } flushed_gc(); observe(); if (!flush_at) slaves_equal(); }
static void flush_sc() {
  int form = sx_choose(4, "form"); uint32_t e; int sym = (int)sx_param("symexp", 0);
  if (sym && form < 2) { e = sx_u32("exp"); sx_assume(e != NONE); }
  else { static const uint32_t E[] = {0, 1, 3, 1000000001, 1000000005, 5000, 100}; e = E[sx_choose(7, "exp")]; }
  tick_((int)sx_param("pre", 0));   // unread objects grow old
  int second = (int)sx_param("second", 0); bool watch = !sx_param("pre", 0) || sx_choose(2, "watch"); if (watch) observe(); flush_cmd(form, e); if (watch) observe(); if (sx_param("slave", 0) & 2) join(1);
  if (second) { static const uint32_t E2[] = {0, 2, 4, 100}; flush_cmd(0, E2[sx_choose(4, "exp2")]); observe(); }
  tick_f(watch); if (sx_choose(2, "store")) { args a; a.key = 0; a.d = (const u8*)"new"; a.n = 3; a.flags = 1; if (!flush_at || flush_at > now) do_text(1, SET, a, 0, false); observe(); }
  for (int i = 0; i < 4; ++i) tick_f();
  if (!flush_at) { args a; a.key = 1; a.d = (const u8*)"late"; a.n = 4; a.flags = 2; do_text(1, SET, a, 0, false); sx_reach("stored-after-flush"); observe(); tick_f(); tick_f(); tick_f(); }
  if (O[0].lock >= 0) { args a; a.key = 0; do_text(O[0].lock, UNLOCK, a, 0, false); observe(); tick_f(); sx_reach("unlocked"); }
}
// 30: the end of a connection
static void newobj(int c, int key, const char* v) { args a; a.key = key; a.d = (const u8*)v; a.n = strlen(v); a.flags = 4; do_text(c, SET, a, 0, false); }
static int B_(u8 op) { for (int i = 0; i < NBOPS; ++i) if (BOPS[i].op == op) return i; return 0; }
static void conn_end_after() { for (int i = 0; i < NK; ++i) if (O[i].lock == 0) O[i].lock = -1; }
static void conn_sc() {
  // model: locks of connection 0 are considered gone only after the ticks below
  args b; b.key = 1; int l1 = sx_choose(3, "lock1"); if (l1 < 2) do_text(l1, LOCK, b, 0, false);
  if (sx_param("prelude", 0)) { // the lock of connection 0 on key 0 goes away or changes hands first
    args a; a.key = 0; a.d = (const u8*)"new"; a.n = 3; a.flags = 2;
    switch (sx_choose(6, "prelude")) {
    case 0: do_text(0, DEL, a, 0, sx_choose(2, "noreply")); break;
    case 1: do_bin(0, B_(0x04), a, 0, 3, false); break;
    case 2: do_bin(0, B_(0x14), a, 0, 3, false); break;
    case 3: do_text(0, UNLOCK, a, 0, false); break;
    case 4: do_bin(0, B_(0x43), a, 0, 3, false); break;
    case 5: do_bin(0, B_(0x4a), a, 0, 3, false); break;
    }
    if (sx_choose(2, "recreate")) do_text(2, SET, a, 0, false);
    int l = sx_choose(3, "relock"); if (l < 2) do_text(l, LOCK, a, 0, false); observe();
  }
  int how = sx_choose(8, "how"); conn old = C[0]; bool alive = false;
  switch (how) {
  case 0: old.eof(); break;
  case 1: old.hangup(); break;
  case 2: old.hangup(EPOLLHUP); break;
  case 3: fds[old.fd].err = ECONNRESET; event(old.fd, EPOLLERR | EPOLLIN); pump(); break;
  case 4: fds[old.fd].err = ETIMEDOUT; event(old.fd, EPOLLIN); pump(); break;
  case 5: old.send("quit\r\n"); break;
  case 6: { old.send("unlock_all\r\n"); buf e; e.str("OK\r\n"); C[0] = old; expect_text(0, e, "unlock_all reply"); alive = true; break; }
  case 7: event(old.fd, EPOLLIN); feed(old.fd, "get a\r\nget", 10); feed_eof(old.fd); pump(); break;
  }
  sx_assert(!ended, "the server stopped"); if (ended) return;
  if (alive) { conn_end_after(); observe(); newobj(2, 0, "free"); observe(); sx_reach("unlock_all"); return; }
  if (!alive && how != 0 && how != 7) sx_assert(!old.open(), "a broken connection stays open");
  conn n = connect(); if (n.fd == old.fd) sx_reach("descriptor-reused"); sx_assert(n.open(), "new connection refused");
  C[0] = n;
  int tried = sx_choose(3, "try");
  if (tried < 2) { bool was = O[tried].lock == 0, other = O[tried].lock == 1;
    if (was || other) { buf w; w.str("unlock "); w.str(KEY[tried]); w.str("\r\n"); C[0].send(w.b, w.n); conn& k = C[0]; sx_assert(k.avail() > 13 && memcmp(k.out(), "CLIENT_ERROR ", 13) == 0, "a new connection could unlock what another one locked"); k.skip(k.avail()); } }
  else { C[0].send("unlock_all\r\n"); C[0].skip(C[0].avail()); }
  // whether the locks are still held in between is not specified: an object that expired while locked may be gone already
  bool vague = O[0].lock == 0 && O[0].exp != 0; if (!vague) observe();
  for (int i = 0; i < 4; ++i) { tick(1); if (!vague) observe(); }
  conn_end_after(); observe();
  if (how != 0 && how != 7) sx_assert(old.gone() || n.fd == old.fd, "descriptor of a closed connection leaked");
  for (int i = 0; i < NK; ++i) { if (O[i].lock < 0) { newobj(2, i, "free"); sx_reach("released"); } else newobj(2, i, "held"); }
  observe(); 
  { conn& k = C[1]; k.send("unlock_all\r\n"); buf e; e.str("OK\r\n"); expect_text(1, e, "unlock_all reply"); for (int i = 0; i < NK; ++i) if (O[i].lock == 1) O[i].lock = -1; }
  for (int i = 0; i < NK; ++i) newobj(2, i, "free"); observe();
}
// 40: sizes
static void sizes() {
  static char big[300]; int kl = 249 + sx_choose(3, "keylen"); for (int i = 0; i < kl; ++i) big[i] = 'k';
  static const int ops[] = {0x01, 0x02, 0x03, 0x05, 0x00, 0x04, 0x0e, 0x40, 0x11}; int f = sx_choose(9, "op"); breq q; q.op = (u8)ops[f]; q.kp = big; q.klen = kl; q.opaque = 9; u8 v = sx_u8("val"); 
  if (q.op <= 3 && q.op != 0 || q.op == 0x11) { memset(q.ext, 0, 8); q.nx = 8; q.d = &v; q.n = 1; } if (q.op == 0x05) { memset(q.ext, 0, 20); q.ext[15] = 5; q.nx = 20; } if (q.op == 0x0e) { q.d = &v; q.n = 1; }
  size_t n = put_bin(q, wire); C[0].send(wire, n); conn& k = C[0]; bool quiet_ok = q.op == 0x11 && kl <= 250;
  if (quiet_ok) sx_assert(k.avail() == 0, "SetQ answered");
  else { int l = reply_len(k); sx_assert(l > 0 && (size_t)l == k.avail(), "exactly one reply expected"); if (l <= 0) return; uint64_t st = rd(k.out() + 6, 2); bool stores = q.op == 1 || q.op == 2 || q.op == 5 || q.op == 0x11;
    if (kl > 250) { sx_assert(st == Invalid, "a key longer than 250 bytes must be refused"); sx_reach("key-refused"); } else sx_assert(stores ? st == OK : st == NotFound, "a key of up to 250 bytes must be accepted"); }
  k.skip(k.avail());
  // the object exists afterwards iff it was stored
  q = breq(); q.op = 0x00; q.kp = big; q.klen = kl > 250 ? 250 : kl; q.opaque = 1; n = put_bin(q, wire); C[2].send(wire, n); { conn& g = C[2]; int l = reply_len(g); if (l <= 0) { sx_fail("no reply"); return; } uint64_t st = rd(g.out() + 6, 2); bool stored = kl <= 250 && (f == 0 || f == 1 || f == 3 || f == 8); sx_assert((st == OK) == stored, "stored although refused (or the converse)"); g.skip(g.avail()); }
}
static void text_keylen() {
  int kl = 249 + sx_choose(3, "keylen"), f = sx_choose(7, "op"); static const char* nm[] = {"set", "add", "replace", "cas", "append", "get", "delete"}; buf w; w.str(nm[f]); w.put(' '); for (int i = 0; i < kl; ++i) w.put('k');
  u8 v = sx_u8("val"); if (f < 5) { w.str(" 0 0 1"); if (f == 3) w.str(" 5"); w.str("\r\n"); w.put(v); } w.str("\r\n"); C[0].send(w.b, w.n); conn& k = C[0];
  bool err = k.avail() == 7 && memcmp(k.out(), "ERROR\r\n", 7) == 0, stored = k.avail() == 8 && memcmp(k.out(), "STORED\r\n", 8) == 0;
  if (f < 2) sx_assert(kl > 250 ? err : stored, "key length limit (text)"); else sx_assert(!stored && k.avail() > 0, "text key length: reply");
  k.skip(k.avail()); C[2].send("keys k\r\n"); conn& g = C[2]; bool none = g.avail() == 5; sx_assert(none == !(f < 2 && kl <= 250), "a refused key was stored"); g.skip(g.avail()); if (kl > 250) sx_reach("key-refused");
}
// 50: keys
static const char* KS[] = {"a", "ab", "abc", "b", "bb", "exp", "del", "lck"};
static void keys_sc() {
  bool lv[8];
  for (int i = 0; i < 8; ++i) { buf w; w.str("set "); w.str(KS[i]); w.str(i == 5 ? " 0 2 1\r\nx\r\n" : " 0 0 1\r\nx\r\n"); C[0].send(w.b, w.n); C[0].skip(C[0].avail()); lv[i] = true; }
  C[0].send("delete del\r\nlock lck\r\n"); C[0].skip(C[0].avail()); lv[6] = false;
  int t = sx_choose(3, "ticks"); if (t) { for (int i = 0; i < t; ++i) tick(1); } lv[5] = t < 2;
  if (sx_choose(2, "get-touch")) { C[1].send("touch b 1\r\ntouch bb 5\r\n"); C[1].skip(C[1].avail()); tick(1); lv[3] = false; if (t >= 1) lv[5] = false; }
  int pl = sx_choose(4, "prefix length"), bin = sx_choose(2, "binary"); u8 pre[3]; sx_sym(pre, pl, "prefix"); for (int i = 0; i < pl; ++i) { sx_assume(pre[i] > ' '); sx_assume(pre[i] < 127); }
  if (bin) { breq q; q.op = 0x50; q.kp = (const char*)pre; q.klen = pl; q.opaque = 3; size_t n = put_bin(q, wire); C[1].send(wire, n); } else { buf w; w.str("keys"); if (pl) { w.put(' '); w.mem(pre, pl); } w.str("\r\n"); C[1].send(w.b, w.n); }
  conn& k = C[1]; int seen[8] = {0};
  for (;;) {
    const char* p = k.out(); size_t n = k.avail(), kl; const char* kp;
    if (bin) { int l = reply_len(k); if (l < 0) { sx_fail("Keys: unterminated"); return; } kl = (size_t)rd(p + 2, 2); kp = p + 24; sx_assert((u8)p[1] == 0x50 && rd(p + 6, 2) == 0 && rd(p + 8, 4) == kl, "Keys: malformed packet"); k.skip(l); if (kl == 0) break; }
    else { size_t e = 0; while (e < n && p[e] != '\n') ++e; if (e == n) { sx_fail("keys: unterminated"); return; } if (e == 4 && memcmp(p, "END\r", 4) == 0) { k.skip(5); break; } sx_assert(e > 7 && memcmp(p, "VALUE ", 6) == 0 && p[e - 1] == '\r', "keys: malformed line"); kp = p + 6; kl = e - 7; k.skip(e + 1); }
    bool found = false; for (int i = 0; i < 8; ++i) if (strlen(KS[i]) == kl && memcmp(KS[i], kp, kl) == 0) { found = true; ++seen[i]; } sx_assert(found, "keys: unknown key reported");
  }
  sx_assert(k.avail() == 0, "keys: bytes after the terminator");
  for (int i = 0; i < 8; ++i) { int m = strlen(KS[i]) >= (size_t)pl; for (int j = 0; j < pl && j < (int)strlen(KS[i]); ++j) m &= pre[j] == (u8)KS[i][j]; sx_assert(seen[i] == (m & lv[i]), "keys: a live key with the prefix is missing, repeated or a wrong one reported"); }
  sx_reach("keys");
}
extern "C" int harness() {
  int what = (int)sx_param("what", 1);
  if (what == 50) { cfg("buckets = 3\nworkers = 2\nrepl_buffer_size = 1\n"); start(); for (int i = 0; i < NCONN; ++i) C[i] = connect(); keys_sc(); sx_reach("end"); sx_ok(); return 0; }
  boot(sx_param("gc1", 0) ? "buckets = 3\nworkers = 2\nrepl_buffer_size = 1\ngc_interval = 1\n" : what >= 40 && sx_param("mds", 0) ? "buckets = 3\nworkers = 2\nrepl_buffer_size = 1\nmax_data_size = 8\n" : "buckets = 3\nworkers = 2\nrepl_buffer_size = 1\n");
  if (what == 40) { sizes(); sx_reach("end"); sx_ok(); return 0; }
  if (what == 41) { text_keylen(); sx_reach("end"); sx_ok(); return 0; }
  int st = (int)sx_param("state", -1); if (st < 0) st = sx_choose(NSTATES, "state");
  if (sx_param("slave", 0) & 1) { join(0); tick_(2); }
  prepare(st, (int)sx_param("vkind", 3), (int)sx_param("symflags", 0)); sx_reach("prepared");
  switch (what) {
  case 1: bad_requests(); observe(); break;
  case 2: stat_seq(); break;
  case 3: quit_cmd(); break;
  case 4: quiet_batch(); break;
  case 10: text_misc(); break;
  case 11: multi_get(); break;
  case 20: flush_sc(); break;
  case 30: conn_sc(); break;
  }
  if (!flush_at && !(sx_param("slave", 0) & 2)) slaves_equal();
  sx_reach("end"); sx_ok(); return 0;
}
