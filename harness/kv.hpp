// Reference model of the cache (keys, values, flags, expiration, CAS, locks) and a driver that sends text and binary
// requests to the real server, computes the reply the protocol defines and compares it byte by byte.
#pragma once
#include "srv.hpp"
namespace kv {
using namespace srv;
typedef unsigned char u8;
// ---- expected bytes (possibly symbolic); `mask` marks bytes that are not compared
struct buf { u8 b[2600]; u8 skip[2600]; size_t n = 0;
  void put(u8 c) { b[n] = c; skip[n++] = 0; }
  void str(const char* s) { while (*s) put((u8)*s++); }
  void mem(const void* p, size_t k) { for (size_t i = 0; i < k; ++i) put(((const u8*)p)[i]); }
  void be(uint64_t v, int k) { for (int i = k - 1; i >= 0; --i) put((u8)(v >> (8 * i))); }
  void any(size_t k) { while (k--) { b[n] = 0; skip[n++] = 1; } }
  void dec(uint64_t v) { char t[24]; int k = 0; do { t[k++] = '0' + (char)(v % 10); v /= 10; } while (v); while (k) put((u8)t[--k]); }
};
static int diff(const char* a, const buf& e, size_t from, size_t n) { unsigned d = 0; for (size_t i = 0; i < n; ++i) if (!e.skip[from + i]) d |= (u8)a[i] ^ e.b[from + i]; return d; }
// ---- the model
const int NK = 2, VMAX = 256, NCONN = 3;
struct obj { bool present = false; u8 d[VMAX]; size_t len = 0; uint32_t flags = 0; int64_t exp = 0; int lock = -1; uint64_t cas = 0; bool cas_known = false; uint64_t seen[16]; int nseen = 0; bool isnum = false; uint64_t num = 0; };   // isnum: the value is the decimal rendering of num (not yet read back)
static obj O[NK]; static const char* KEY[NK] = {"a", "bb"}; static conn C[NCONN]; static int64_t flush_at = 0;
static const uint64_t NONE = 0xffffffffu; static size_t max_data = 1 << 20;
static bool expired(const obj& o) { if (o.lock >= 0) return false; if (flush_at && flush_at <= now) return true; return o.exp != 0 && o.exp <= now; }
static bool live(const obj& o) { return o.present && !expired(o); }
static bool locked_other(const obj& o, int c) { return o.present && o.lock >= 0 && o.lock != c; }
static void fresh(obj& o) { o = obj(); o.present = true; }
static void mutated(obj& o) { if (o.cas_known) { o.seen[o.nseen++ & 15] = o.cas; } o.cas_known = false; }
static void got_cas(obj& o, uint64_t c) {
  if (o.cas_known) { sx_assert(c == o.cas, "the unique value reported is not the current one"); return; }
  for (int i = 0; i < o.nseen && i < 16; ++i) sx_assert(c != o.seen[i], "a modification did not give the object a new unique value");
  sx_assert(c != 0, "unique value 0"); o.cas = c; o.cas_known = true;
}
static void setval(obj& o, const u8* d, size_t n) { o.isnum = false; for (size_t i = 0; i < n; ++i) o.d[i] = d[i]; o.len = n; }
static int64_t rel(uint64_t e) { return e == 0 ? 0 : e <= 2592000u ? now + (int64_t)e : (int64_t)e; }
static bool numeric(const obj& o, uint64_t* v) {   // the leading decimal number (what follows it is ignored)
  uint64_t x = 0; size_t i = 0;
  for (; i < o.len; ++i) { unsigned g = (unsigned)(o.d[i] - '0') & 0xff; if (g > 9) break; if (x > 1844674407370955161ull || (x == 1844674407370955161ull && g > 5)) return false; x = x * 10 + g; }
  *v = x; return i > 0;
}
static bool blankish(const obj& o) { return o.len && (o.d[0] <= ' ' || o.d[0] == '-' || o.d[0] == '+'); }   // unspecified: blanks or a sign before the number
static void setnum(obj& o, uint64_t v) { o.isnum = true; o.num = v; }
// p[0..n) must be the decimal rendering of v
static int is_decimal(const char* p, size_t n, uint64_t v) {
  if (n == 0 || n > 20) return 0; uint64_t x = 0; int bad = 0;
  for (size_t i = 0; i < n; ++i) { u8 g = (u8)((u8)p[i] - '0'); bad |= g > 9; x = x * 10 + g; }
  if (n > 1) bad |= p[0] == '0'; if (n == 20) { bad |= p[0] != '1'; bad |= x < 10000000000000000000ull; }
  return !bad & (x == v);
}
// ---- binary requests
struct breq { u8 op; int key = -1; const char* kp = nullptr; size_t klen = 0; u8 ext[24]; size_t nx = 0; const u8* d = nullptr; size_t n = 0; uint64_t cas = 0; uint32_t opaque = 0; };
static u8 wire[1 << 16];
static size_t put_bin(const breq& q, u8* w) {
  const char* k = q.key >= 0 ? KEY[q.key] : q.kp; size_t kl = q.key >= 0 ? strlen(KEY[q.key]) : q.klen; size_t body = q.nx + kl + q.n;
  w[0] = 0x80; w[1] = q.op; w[2] = (u8)(kl >> 8); w[3] = (u8)kl; w[4] = (u8)q.nx; w[5] = 0; w[6] = w[7] = 0;
  for (int i = 0; i < 4; ++i) { w[8 + i] = (u8)(body >> (24 - 8 * i)); w[12 + i] = (u8)(q.opaque >> (24 - 8 * i)); }
  for (int i = 0; i < 8; ++i) w[16 + i] = (u8)(q.cas >> (56 - 8 * i));
  memcpy(w + 24, q.ext, q.nx); if (kl) memcpy(w + 24 + q.nx, k, kl); if (q.n) memcpy(w + 24 + q.nx + kl, q.d, q.n);
  return 24 + body;
}
static void be32(u8* p, uint32_t v) { for (int i = 0; i < 4; ++i) p[i] = (u8)(v >> (24 - 8 * i)); }
static void be64(u8* p, uint64_t v) { for (int i = 0; i < 8; ++i) p[i] = (u8)(v >> (56 - 8 * i)); }
static uint64_t rd(const char* p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (u8)p[i]; return v; }
enum { OK = 0, NotFound = 1, Exists = 2, TooLarge = 3, Invalid = 4, NotStored = 5, NonNumeric = 6, Locked = 0x10, NotLocked = 0x11, Unknown = 0x81 };
// ---- replies
enum { R_SILENT, R_TEXT, R_ERR, R_ERR_LOCKISH, R_DONE, R_CAS, R_NUM, R_VAL, R_VALK, R_CLIENT_ERROR, R_VERSION };
struct reply { int kind = R_SILENT; int status = 0; uint64_t num = 0; const char* text = nullptr; obj* o = nullptr; int key = -1; };
static const char* cur_what = "";
static void check_bin(int c, const breq& q, const reply& r) {
  conn& k = C[c];
  if (r.kind == R_SILENT) { sx_assert(k.avail() == 0, "a reply although the protocol defines none"); return; }
  if (k.avail() < 24) { sx_fail("no complete reply to a binary request"); return; }
  const char* p = k.out(); buf e;
  e.put(0x81); e.put(q.op);
  size_t body = (size_t)rd(p + 8, 4);
  if (k.avail() != 24 + body) { sx_fail("the body length of a binary reply does not equal the bytes that follow (or there is not exactly one reply)"); return; }
  switch (r.kind) {
  case R_ERR: case R_ERR_LOCKISH: {
    e.be(0, 2); e.be(0, 2); if (r.kind == R_ERR) e.be((uint64_t)r.status, 2); else e.any(2); e.any(4); e.be(q.opaque, 4); e.any(8);
    sx_assert(diff(p, e, 0, e.n) == 0, "binary error reply: header or status wrong");
    if (r.kind == R_ERR_LOCKISH) { uint64_t st = rd(p + 6, 2); sx_assert(st == NotFound || st == NotLocked, "binary unlock error reply: status wrong"); }
    k.skip(24 + body); return; }
  case R_DONE: e.be(0, 6); e.be(0, 4); e.be(q.opaque, 4); e.any(8); if (body != 0) { sx_fail("unexpected body in a binary reply"); return; } break;
  case R_CAS: e.be(0, 6); e.be(0, 4); e.be(q.opaque, 4); e.any(8); if (body != 0) { sx_fail("unexpected body in a binary reply"); return; } break;
  case R_NUM: e.be(0, 6); e.be(8, 4); e.be(q.opaque, 4); e.any(8); if (body != 8) { sx_fail("arithmetic reply: body is not 8 bytes"); return; } e.be(r.num, 8); break;
  case R_VERSION: e.be(0, 6); e.any(4); e.be(q.opaque, 4); e.any(8); e.any(body); sx_assert(body > 0, "empty version"); break;
  case R_VAL: case R_VALK: {
    size_t kl = r.kind == R_VALK ? strlen(KEY[r.key]) : 0;
    if (r.o->isnum) { if (body < 5 + kl || body > 24 + kl) { sx_fail("numeric value of the wrong length"); return; } size_t nl = body - 4 - kl; sx_assert(is_decimal(p + 28 + kl, nl, r.o->num), "the stored value is not the decimal result"); setval(*r.o, (const u8*)p + 28 + kl, nl); }
    e.be(kl, 2); e.be(4, 1); e.be(0, 1); e.be(0, 2); e.be(4 + kl + r.o->len, 4); e.be(q.opaque, 4); e.any(8); e.be(r.o->flags, 4); e.mem(KEY[r.key], kl); e.mem(r.o->d, r.o->len);
    if (body != 4 + kl + r.o->len) { sx_fail("value reply: wrong body length"); return; }
    break; }
  default: sx_fail("harness: reply kind"); return;
  }
  sx_assert(diff(p, e, 0, e.n) == 0, r.kind == R_VAL || r.kind == R_VALK ? "value reply: header, flags, key or data wrong" : "binary reply wrong");
  if (r.o) { uint64_t cas = rd(p + 16, 8); if (r.kind == R_DONE) {} else got_cas(*r.o, cas); }
  k.skip(24 + body);
}
static void check_text(int c, const reply& r) {
  conn& k = C[c];
  if (r.kind == R_SILENT) { sx_assert(k.avail() == 0, "a reply although noreply was given"); return; }
  buf e; if (r.kind == R_NUM) { size_t n = k.avail(); sx_assert(n > 2 && k.out()[n - 2] == '\r' && k.out()[n - 1] == '\n' && is_decimal(k.out(), n - 2, r.num), "incr/decr reply is not the result"); k.skip(n); return; } else if (r.kind == R_TEXT) { e.str(r.text); e.str("\r\n"); }
  else { // CLIENT_ERROR <anything>\r\n
    const char* s = "CLIENT_ERROR "; size_t n = k.avail(); bool ok = n > 15 && memcmp(k.out(), s, 13) == 0 && k.out()[n - 2] == '\r' && k.out()[n - 1] == '\n';
    for (size_t i = 0; ok && i + 2 < n; ++i) if (k.out()[i] == '\n') ok = false;
    sx_assert(ok, "CLIENT_ERROR line expected"); k.skip(n); return; }
  if (k.avail() != e.n) { sx_fail("text reply of the wrong length"); k.skip(k.avail()); return; }
  sx_assert(diff(k.out(), e, 0, e.n) == 0, "text reply differs from the one the protocol defines"); k.skip(e.n);
}
// ---- semantics, shared by both protocols
enum fam { SET, ADD, REPLACE, APPEND, PREPEND, CAS, RAU, DEL, INCR, DECR, TOUCH, GAT, LAG, GET, LOCK, UNLOCK, UNLOCK_ALL, NOOP, VERSION_, NFAM };
struct args { int key = 0; const u8* d = nullptr; size_t n = 0; uint32_t flags = 0; int64_t exp = 0; bool has_exp = false; uint64_t cas = 0, delta = 0, initial = 0; };
// outcome of one command on the model: returns the binary status; *did reports whether the object was modified/created
static int apply(int f, int c, const args& a, bool bin) {
  obj& o = O[a.key];
  switch (f) {
  case SET: case ADD: case REPLACE: case CAS:
    if (a.n > max_data) return TooLarge;
    if (locked_other(o, c)) return Locked;
    if (!live(o)) {
      if (f == REPLACE || f == CAS || a.cas != 0) return NotFound;
      { int l = o.present && o.lock == c ? c : -1; fresh(o); o.lock = l; }   // a new object: unique values may start afresh
    } else {
      if (f == ADD) return Exists;
      if ((f == CAS || a.cas != 0) && a.cas != o.cas) return Exists;
      mutated(o);
    }
    setval(o, a.d, a.n); o.flags = a.flags; o.exp = a.exp; return OK;
  case RAU:
    if (a.n > max_data) return TooLarge;
    if (!o.present) return NotFound;
    if (o.lock != c) return expired(o) ? -2 : NotLocked;
    if (a.cas != 0 && a.cas != o.cas) return Exists;
    mutated(o); setval(o, a.d, a.n); o.flags = a.flags; o.exp = a.exp; o.lock = -1; return OK;
  case APPEND: case PREPEND: {
    if (locked_other(o, c)) return Locked;
    if (!live(o)) return NotFound;
    if (a.cas != 0 && a.cas != o.cas) return Exists;
    if (o.len + a.n > max_data) return TooLarge;
    mutated(o); u8 t[VMAX]; size_t k = 0;
    if (f == PREPEND) for (size_t i = 0; i < a.n; ++i) t[k++] = a.d[i];
    for (size_t i = 0; i < o.len; ++i) t[k++] = o.d[i];
    if (f == APPEND) for (size_t i = 0; i < a.n; ++i) t[k++] = a.d[i];
    setval(o, t, k); return OK; }
  case DEL:
    if (locked_other(o, c)) return Locked;
    if (!live(o)) return NotFound;
    if (a.cas != 0 && a.cas != o.cas) return Exists;
    o.present = false; o.lock = -1; return OK;
  case INCR: case DECR: {
    if (locked_other(o, c)) return Locked;
    if (!live(o)) {
      if (!bin || !a.has_exp) return NotFound;
      fresh(o);
      o.flags = 0; o.exp = a.exp; setnum(o, a.initial); return OK;
    }
    if (a.cas != 0 && a.cas != o.cas) return Exists;
    uint64_t v; if (!numeric(o, &v)) { if (blankish(o)) sx_stop(); return NonNumeric; }
    v = f == INCR ? v + a.delta : v < a.delta ? 0 : v - a.delta; mutated(o); setnum(o, v); return OK; }
  case TOUCH: if (!live(o)) return NotFound; o.exp = a.exp; return OK;
  case GET: return live(o) ? OK : NotFound;
  case GAT: if (!live(o)) return NotFound; if (a.has_exp) o.exp = a.exp; return OK;
  case LAG: if (!live(o)) return NotFound; if (o.lock >= 0) return Locked; o.lock = c; if (a.has_exp) o.exp = a.exp; return OK;
  case LOCK: if (!live(o)) return NotFound; if (o.lock >= 0) return Locked; o.lock = c; return OK;
  case UNLOCK: if (!o.present) return NotFound; if (o.lock != c) return expired(o) ? -2 : NotLocked; o.lock = -1; return OK;
  case UNLOCK_ALL: for (int i = 0; i < NK; ++i) if (O[i].lock == c) O[i].lock = -1; return OK;
  }
  return OK;
}
// ---- commands. Binary opcode table
struct bop { u8 op; u8 fam; u8 quiet; u8 withkey; };
static const bop BOPS[] = {
  {0x00, GET, 0, 0}, {0x09, GET, 1, 0}, {0x0c, GET, 0, 1}, {0x0d, GET, 1, 1},
  {0x01, SET, 0, 0}, {0x11, SET, 1, 0}, {0x02, ADD, 0, 0}, {0x12, ADD, 1, 0}, {0x03, REPLACE, 0, 0}, {0x13, REPLACE, 1, 0},
  {0x04, DEL, 0, 0}, {0x14, DEL, 1, 0}, {0x05, INCR, 0, 0}, {0x15, INCR, 1, 0}, {0x06, DECR, 0, 0}, {0x16, DECR, 1, 0},
  {0x0e, APPEND, 0, 0}, {0x19, APPEND, 1, 0}, {0x0f, PREPEND, 0, 0}, {0x1a, PREPEND, 1, 0}, {0x1c, TOUCH, 0, 0},
  {0x1d, GAT, 0, 0}, {0x1e, GAT, 1, 0}, {0x23, GAT, 0, 1}, {0x24, GAT, 1, 1},
  {0x40, LOCK, 0, 0}, {0x41, LOCK, 1, 0}, {0x42, UNLOCK, 0, 0}, {0x43, UNLOCK, 1, 0}, {0x44, UNLOCK_ALL, 0, 0}, {0x45, UNLOCK_ALL, 1, 0},
  {0x46, LAG, 0, 0}, {0x47, LAG, 1, 0}, {0x48, LAG, 0, 1}, {0x49, LAG, 1, 1}, {0x4a, RAU, 0, 0}, {0x4b, RAU, 1, 0},
  {0x0a, NOOP, 0, 0}, {0x0b, VERSION_, 0, 0}};
const int NBOPS = sizeof(BOPS) / sizeof(BOPS[0]);
static const char* TEXTCMD[NFAM] = {"set", "add", "replace", "append", "prepend", "cas", nullptr, "delete", "incr", "decr", "touch", nullptr, nullptr, "get", "lock", "unlock", "unlock_all", nullptr, "version"};
static u8 data1[VMAX];
// fills the request from the arguments; returns the reply the model predicts
static reply bin_expect(const bop& b, int c, const args& a, breq& q) {
  q.op = b.op; q.key = b.fam == UNLOCK_ALL || b.fam == NOOP || b.fam == VERSION_ ? -1 : a.key; q.cas = a.cas; q.nx = 0; q.n = 0; q.klen = 0;
  reply r; r.key = a.key; r.o = &O[a.key];
  if (b.fam == SET || b.fam == ADD || b.fam == REPLACE || b.fam == RAU) { q.d = a.d; q.n = a.n; be32(q.ext, a.flags); q.nx = 8; }
  if (b.fam == APPEND || b.fam == PREPEND) { q.d = a.d; q.n = a.n; }
  return r;
}
static void want(int c, const bop& b, const args& a, const breq& q, int st) {
  reply r; r.key = a.key; r.o = &O[a.key];
  bool getlike = b.fam == GET || b.fam == GAT || b.fam == LAG;
  if (st == -2) { r.kind = R_ERR_LOCKISH; r.o = nullptr; }
  else if (st != OK) {
    r.kind = R_ERR; r.status = st; r.o = nullptr;
    if (b.quiet && st == NotFound && (b.fam == GET || b.fam == GAT)) r.kind = R_SILENT;
    if (b.quiet && st == NotFound && b.fam == DEL) r.kind = R_SILENT;
  } else if (getlike) r.kind = b.withkey ? R_VALK : R_VAL;
  else if (b.quiet) r.kind = R_SILENT;
  else if (b.fam == INCR || b.fam == DECR) { r.kind = R_NUM; r.num = O[a.key].num; }
  else if (b.fam == SET || b.fam == ADD || b.fam == REPLACE || b.fam == RAU || b.fam == APPEND || b.fam == PREPEND || b.fam == TOUCH) r.kind = R_CAS;
  else if (b.fam == VERSION_) { r.kind = R_VERSION; r.o = nullptr; }
  else { r.kind = R_DONE; r.o = nullptr; }
  check_bin(c, q, r);
}
// what the raw 32-bit expiration field of a binary request means
static bool has_ext_exp(int f) { return f == GAT || f == LAG || f == GET; }
static bool touch_like(int f, const args& a) { return f == TOUCH || ((f == GAT || f == LAG || f == GET) && a.has_exp); }
// returns the status, or -9 when the request was not sent
static int do_bin(int c, int bi, args a, uint32_t e, uint32_t opaque, bool ext) {
  const bop& b = BOPS[bi]; breq q; a.has_exp = false;
  bin_expect(b, c, a, q); q.opaque = opaque;
  switch (b.fam) {
  case SET: case ADD: case REPLACE: case RAU: sx_assume(e != NONE); be32(q.ext + 4, e); a.exp = rel(e); break;
  case INCR: case DECR: be64(q.ext, a.delta); be64(q.ext + 8, a.initial); be32(q.ext + 16, e); q.nx = 20; a.has_exp = e != NONE; a.exp = rel(e); break;
  case TOUCH: sx_assume(e != NONE); be32(q.ext, e); q.nx = 4; a.exp = rel(e); break;
  case GET: case GAT: case LAG: if (ext) { be32(q.ext, e); q.nx = 4; a.has_exp = e != NONE; a.exp = rel(e); } break;
  }
  if ((b.fam == TOUCH || ((b.fam == GAT || b.fam == GET) && a.has_exp)) && locked_other(O[a.key], c)) return -9;   // not specified for objects locked by others
  size_t n = put_bin(q, wire); C[c].send(wire, n);
  int f = b.fam == GET && ext ? (int)GAT : b.fam;
  int st = apply(f, c, a, true); want(c, b, a, q, st); return st;
}
static const char* text_of(int f, int st) {
  switch (st) {
  case OK: return f == DEL ? "DELETED" : f == TOUCH ? "TOUCHED" : f == LOCK || f == UNLOCK || f == UNLOCK_ALL ? "OK" : "STORED";
  case Locked: return "LOCKED"; case TooLarge: return "ERROR";
  case Exists: return f == CAS ? "EXISTS" : "NOT_STORED";
  case NotFound: return f == CAS || f == DEL || f == INCR || f == DECR || f == TOUCH || f == LOCK ? "NOT_FOUND" : "NOT_STORED";
  }
  return "?";
}
static int do_text(int c, int f, args a, uint64_t e, bool noreply) {
  buf w; const char* name = TEXTCMD[f]; a.exp = rel(e); w.str(name);
  if (f == TOUCH && locked_other(O[a.key], c)) return -9;
  if (f != UNLOCK_ALL && f != VERSION_) { w.put(' '); w.str(KEY[a.key]); }
  if (f == SET || f == ADD || f == REPLACE || f == APPEND || f == PREPEND || f == CAS) { w.put(' '); w.dec(a.flags); w.put(' '); w.dec(e); w.put(' '); w.dec(a.n); if (f == CAS) { w.put(' '); w.dec(a.cas); } }
  if (f == INCR || f == DECR) { w.put(' '); w.dec(a.delta); }
  if (f == TOUCH) { w.put(' '); w.dec(e); }
  bool can = f <= TOUCH; if (noreply && can) w.str(" noreply"); else noreply = false;
  w.str("\r\n");
  if (f <= CAS) { w.mem(a.d, a.n); w.str("\r\n"); }
  C[c].send(w.b, w.n);
  if (f != CAS) a.cas = 0;
  reply r;
  if (f == GET) { obj& o = O[a.key]; buf x; if (live(o)) { x.str("VALUE "); x.str(KEY[a.key]); x.put(' '); x.dec(o.flags); x.put(' '); x.dec(o.len); x.str("\r\n"); x.mem(o.d, o.len); x.str("\r\n"); } x.str("END\r\n");
    conn& k = C[c]; if (k.avail() != x.n) { sx_fail("get reply of the wrong length"); k.skip(k.avail()); return -9; } sx_assert(diff(k.out(), x, 0, x.n) == 0, "get reply differs from the stored object"); k.skip(x.n); return live(O[a.key]) ? OK : NotFound; }
  if (f == VERSION_) { conn& k = C[c]; size_t n = k.avail(); sx_assert(n > 10 && memcmp(k.out(), "VERSION ", 8) == 0 && k.out()[n - 1] == '\n', "version"); k.skip(n); return OK; }
  int st = apply(f, c, a, false);
  if (noreply) r.kind = R_SILENT;
  else if ((f == UNLOCK && st != OK) || st == NonNumeric) r.kind = R_CLIENT_ERROR;
  else if ((f == INCR || f == DECR) && st == OK) { r.kind = R_NUM; r.num = O[a.key].num; }
  else { r.kind = R_TEXT; r.text = text_of(f, st); }
  check_text(c, r); return st;
}
// reads every key through the binary protocol and compares with the model
static void observe(int c = 2) {
  for (int i = 0; i < NK; ++i) { args a; a.key = i; breq q; bin_expect(BOPS[2], c, a, q); q.opaque = 0x55; size_t n = put_bin(q, wire); C[c].send(wire, n); want(c, BOPS[2], a, q, apply(GET, c, a, true)); }
}
static void gets_all(int c, uint32_t want_flags_concrete = 1) {
  C[c].send("gets bb nokey a\r\n"); buf e; int order[2] = {1, 0}; size_t at[2] = {0, 0}; (void)want_flags_concrete;
  for (int i = 0; i < 2; ++i) { obj& o = O[order[i]]; if (!live(o)) continue; e.str("VALUE "); e.str(KEY[order[i]]); e.put(' '); e.dec(o.flags); e.put(' '); e.dec(o.len); e.put(' '); e.dec(o.cas); at[i] = e.n; e.str("\r\n"); e.mem(o.d, o.len); e.str("\r\n"); }
  e.str("END\r\n"); conn& k = C[c]; if (k.avail() != e.n) { sx_fail("gets reply of the wrong length"); k.skip(k.avail()); return; }
  sx_assert(diff(k.out(), e, 0, e.n) == 0, "gets reply differs from the stored objects"); k.skip(e.n);
}
// ---- slaves: an independent reading of the replication stream (docs/design.md), applied to an empty mirror of the master
struct mirror { bool present = false; const char* d = nullptr; size_t len = 0; uint32_t flags = 0; int64_t exp = 0; };
const int NSL = 2; static conn SL[NSL]; static mirror M[NSL][NK]; static bool joined[NSL]; static char mem[NSL][NK][VMAX];
static void join(int s) { SL[s] = connect(REPL); joined[s] = true; }
static void drain(int s) {
  conn& k = SL[s];
  while (k.avail()) {
    if (k.avail() < 24) { sx_fail("replication: incomplete record header"); return; } const char* p = k.out(); size_t kl = rd(p + 2, 2), xl = (u8)p[4], body = rd(p + 8, 4); u8 op = (u8)p[1];
    if (k.avail() < 24 + body || body < kl + xl) { sx_fail("replication: record lengths"); return; } sx_assert((u8)p[0] == 0x80, "replication: magic");
    int key = -1; for (int i = 0; i < NK; ++i) if (strlen(KEY[i]) == kl && memcmp(p + 24 + xl, KEY[i], kl) == 0) key = i; if (key < 0) { sx_fail("replication: a record for a key nobody stored"); return; }
    mirror& m = M[s][key]; size_t vl = body - kl - xl;
    if (op == 0x11) { if (xl != 8) { sx_fail("replication: SetQ extras"); return; } if (vl > VMAX) { sx_fail("harness: value size"); return; } m.present = true; memcpy(mem[s][key], p + 24 + xl + kl, vl); m.d = mem[s][key]; m.len = vl; m.flags = (uint32_t)rd(p + 24, 4); m.exp = rel((uint32_t)rd(p + 28, 4)); }
    else if (op == 0x1c) { if (xl != 4 || vl != 0) { sx_fail("replication: Touch lengths"); return; } if (m.present) m.exp = rel((uint32_t)rd(p + 24, 4)); }
    else if (op == 0x14) { if (xl != 0 || vl != 0) { sx_fail("replication: DeleteQ lengths"); return; } m.present = false; }
    else sx_fail("replication: a command slaves do not know");
    k.skip(24 + body);
  }
}
// every slave that has finished its initial replication holds exactly the master's live objects
static void slaves_equal() {
  for (int s = 0; s < NSL; ++s) { if (!joined[s]) continue; if (!SL[s].open()) { sx_fail("a slave was disconnected"); continue; } drain(s);
    for (int i = 0; i < NK; ++i) { obj& o = O[i]; mirror& m = M[s][i];
      if (!o.present) { sx_assert(!m.present, "a slave keeps an object its master has removed"); continue; }
      int64_t x = o.exp > 0xfffffffell ? 0xfffffffell : o.exp;   // the record has 32 bits, of which 0xffffffff is reserved
      if (!live(o)) { sx_assert(!m.present || m.exp == x, "a slave has another expiration for an expired object"); continue; }
      if (!m.present) { sx_fail("a slave lacks an object of its master"); continue; }
      if (m.len != o.len) { sx_fail("a slave has a value of another length than its master"); continue; }
      unsigned df = 0; for (size_t j = 0; j < o.len; ++j) df |= (u8)m.d[j] ^ o.d[j]; sx_assert(df == 0, "a slave has another value than its master"); sx_assert(m.flags == o.flags, "a slave has other flags than its master"); sx_assert(m.exp == x, "a slave has another expiration than its master"); } }
}
static void beat() { for (int s = 0; s < NSL; ++s) if (SL[s].fd >= 0) SL[s].send("", 1); }   // heartbeats of the slaves
static void tick_(int s) { for (int i = 0; i < s; ++i) { beat(); tick(1); } }
// ---- generic states of key 0 (key 1 is a bystander with a fixed value)
static void boot(const char* conf) { cfg(conf); start(); for (int i = 0; i < NCONN; ++i) C[i] = connect(); }
enum { S_ABSENT, S_PLAIN, S_FUTURE, S_EXPIRED, S_LOCK0, S_LOCK1, S_LOCK0_OLD, S_DELETED, NSTATES };
static uint32_t opq() { return sx_u32("opaque"); }
// value kinds: 0 arbitrary symbolic bytes, 1 decimal with symbolic digits, 2 near 2^64, 3 letters
static size_t mkval(int kind, u8* d) {
  if (kind == 0) { sx_sym(d, 2, "val"); return 2; }
  if (kind == 1) { sx_sym(d, 2, "digit"); sx_assume(d[0] >= '0' && d[0] <= '9' && d[1] >= '0' && d[1] <= '9'); return 2; }
  if (kind == 2) { memcpy(d, "18446744073709551610", 20); d[19] = sx_u8("digit"); sx_assume(d[19] >= '0' && d[19] <= '9'); return 20; }
  if (kind == 5) return 0;
  if (kind == 4) { d[0] = sx_u8("val"); return 1; }
  memcpy(d, "abc", 3); return 3;
}
static void prepare(int state, int vkind, int symflags = 1) {
  args b; b.key = 1; b.d = (const u8*)"other"; b.n = 5; b.flags = 7; do_text(2, SET, b, 0, false);
  if (state == S_ABSENT) { observe(); return; }
  args a; a.key = 0; a.n = mkval(vkind, data1); a.d = data1; a.flags = symflags == 1 ? sx_u32("flags") : symflags == 2 ? sx_u8("flags") : 9;
  uint32_t e = state == S_FUTURE ? 4 : state == S_EXPIRED || state == S_LOCK0_OLD ? 2 : 0;
  if (a.n) do_bin(0, 4, a, e, 1, false); else { a.flags = 9; do_text(0, SET, a, e, false); }   // binary requests cannot carry an empty value
  if (state == S_LOCK0 || state == S_LOCK0_OLD) do_text(0, LOCK, a, 0, false);
  if (state == S_LOCK1) do_text(1, LOCK, a, 0, false);
  if (state == S_EXPIRED || state == S_LOCK0_OLD) tick_(2);
  if (state == S_DELETED) do_text(1, DEL, a, 0, false);
  observe();
}
}
