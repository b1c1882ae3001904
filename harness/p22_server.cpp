// P22 on the server: two clients act on one key at the same time (two workers, a GC run, a slave); thread switches are symbolic
#include "srv.hpp"
#include <errno.h>
using namespace srv;
enum { INCR, APPEND, PREPEND, ADD, SET, DELETE, CAS, LOCK, REPLACE, GET, NC, UNLOCK };
struct st { bool has; char v[24]; int lk; bool mod; };
static char CASN[24];
static int put(char* o, const char* t) { int n = (int)strlen(t); memcpy(o, t, n); return n; }
static int reqof(int c, char* o) {
  switch (c) { case INCR: return put(o, "incr k 1\r\n"); case APPEND: return put(o, "append k 0 0 1\r\n7\r\n"); case PREPEND: return put(o, "prepend k 0 0 1\r\n3\r\n"); case ADD: return put(o, "add k 0 0 1\r\n9\r\n"); case SET: return put(o, "set k 0 0 1\r\n8\r\n"); case DELETE: return put(o, "delete k\r\n"); case LOCK: return put(o, "lock k\r\n"); case REPLACE: return put(o, "replace k 0 0 1\r\n4\r\n"); case GET: return put(o, "get k\r\n"); case UNLOCK: return put(o, "unlock k\r\n");
    case CAS: { int n = put(o, "cas k 0 0 1 "); n += put(o + n, CASN); return n + put(o + n, "\r\n6\r\n"); } } return 0; }
static int model(st& s, int who, int c, char* o) {
  bool foreign = s.has && s.lk && s.lk != who; auto store = [&](const char* v) { s.has = true; strcpy(s.v, v); s.mod = true; };
  switch (c) {
  case GET: { if (!s.has) return put(o, "END\r\n"); int n = put(o, "VALUE k 0 "); o[n++] = (char)('0' + strlen(s.v)); n += put(o + n, "\r\n"); n += put(o + n, s.v); return n + put(o + n, "\r\nEND\r\n"); }
  case SET: if (foreign) return put(o, "LOCKED\r\n"); store("8"); return put(o, "STORED\r\n");
  case ADD: if (foreign) return put(o, "LOCKED\r\n"); if (s.has) return put(o, "NOT_STORED\r\n"); store("9"); return put(o, "STORED\r\n");
  case REPLACE: if (!s.has) return put(o, "NOT_STORED\r\n"); if (foreign) return put(o, "LOCKED\r\n"); store("4"); return put(o, "STORED\r\n");
  case APPEND: case PREPEND: { if (!s.has) return put(o, "NOT_STORED\r\n"); if (foreign) return put(o, "LOCKED\r\n"); char t[24]; strcpy(t, c == APPEND ? s.v : "3"); strcat(t, c == APPEND ? "7" : s.v); store(t); return put(o, "STORED\r\n"); }
  case CAS: if (!s.has) return put(o, "NOT_FOUND\r\n"); if (foreign) return put(o, "LOCKED\r\n"); if (s.mod) return put(o, "EXISTS\r\n"); store("6"); return put(o, "STORED\r\n");
  case DELETE: if (!s.has) return put(o, "NOT_FOUND\r\n"); if (foreign) return put(o, "LOCKED\r\n"); s.has = false; s.lk = 0; s.mod = true; return put(o, "DELETED\r\n");
  case LOCK: if (!s.has) return put(o, "NOT_FOUND\r\n"); if (s.lk) return put(o, "LOCKED\r\n"); s.lk = who; return put(o, "OK\r\n");
  case UNLOCK: if (!s.has) return put(o, "NOT_FOUND\r\n"); if (s.lk != who) return -1; s.lk = 0; return put(o, "OK\r\n");
  case INCR: { if (!s.has) return put(o, "NOT_FOUND\r\n"); if (foreign) return put(o, "LOCKED\r\n"); int x = 0; for (char* p = s.v; *p; ++p) x = x * 10 + (*p - '0'); ++x; char t[24]; int n = 0; char d[12]; int k = 0; while (x) { d[k++] = (char)('0' + x % 10); x /= 10; } while (k) t[n++] = d[--k]; t[n] = 0; store(t); n = put(o, t); return n + put(o + n, "\r\n"); } }
  return -1; }
// what a slave makes of the stream: the value of k
static bool slave_state(conn& s, char* v, int* n) { const unsigned char* p = (const unsigned char*)s.out(); size_t left = s.avail(); bool has = false; while (left >= 24) { size_t body = p[8] << 24 | p[9] << 16 | p[10] << 8 | p[11], kl = p[2] << 8 | p[3], ex = p[4]; sx_assert(p[0] == 0x80 && left >= 24 + body, "replication stream"); if (left < 24 + body) break; bool k = kl == 1 && p[24 + ex] == 'k'; if (k && p[1] == 0x11) { has = true; *n = (int)(body - kl - ex); memcpy(v, p + 24 + ex + kl, *n < 23 ? *n : 23); } if (k && p[1] == 0x14) has = false; p += 24 + body; left -= 24 + body; } return has; }
// the reactor has handed both requests to workers when it polls the second time: from here thread switches are symbolic
static int rounds, pre; static int hook(int e, int t) { if (++rounds == (int)sx_param("at", 1)) { sx_sched_mode(1, pre); } return epoll_hook(e, t); }
extern "C" int harness() {
  int w = (int)sx_param("workers", 2), slave = (int)sx_param("slave", 0), gcr = (int)sx_param("gc", 0), first = (int)sx_param("first", -1), two = (int)sx_param("two", 0); char conf[120] = "buckets = 2\ngc_interval = 1\nslave_timeout = 9\nworkers = "; char d[3] = {(char)('0' + w), '\n', 0}; strcat(conf, d); cfg(conf); start(); conn a = connect(), b = connect(), c = connect(), s; if (slave) { s = connect(REPL); s.send("\0", 1); tick(1); s.send("\0", 1); tick(1); s.send("\0", 1); s.skip(s.avail()); }
  st m; memset(&m, 0, sizeof m); int init = (int)sx_param("state", -1); if (init < 0) init = gcr ? sx_choose(2, "initial") * 2 + 1 : sx_choose(3, "initial"); const char* sets[] = {"", "set k 0 0 1\r\n5\r\n", "set k 0 0 1\r\n5\r\n", "set k 0 2 1\r\n5\r\n"};
  if (init) { c.send(sets[init]); m.has = true; strcpy(m.v, "5"); c.skip(c.avail()); c.send("gets k\r\n"); const char* p = c.out(); int i = 14; int n = 0; while (p[12 + n] != '\r') ++n; (void)i; int sp = 0, j = 0; while (sp < 4) if (p[j++] == ' ') ++sp; n = 0; while (p[j] != '\r' && n < 20) CASN[n++] = p[j++]; CASN[n] = 0; c.skip(c.avail()); } else strcpy(CASN, "99");
  if (init == 2) { if (gcr) { c.send("flush_all\r\n"); m.has = false; } else { a.send("lock k\r\n"); m.lk = 1; a.skip(a.avail()); } c.skip(c.avail()); } if (init == 3) { m.has = false; }
  int second = (int)sx_param("second", -1); int ca = first >= 0 ? first : sx_choose(NC, "a"), cb = second >= 0 ? second : sx_choose(NC, "b");
  if (init == 3 && (ca == CAS || cb == CAS)) { sx_reach("unspecified"); sx_ok(); return 0; }   // unique values may come back when an object is created anew
  char ra[80], rb[80]; int na = reqof(ca, ra), nb = reqof(cb, rb); int ca2 = -1; if (two) { ca2 = sx_choose(2, "a2") ? INCR : APPEND; na += reqof(ca2, ra + na); }
  if (slave) { s.feed("\0", 1); event(s.fd, EPOLLIN); }
  if (gcr && init == 3) now += 3; a.feed(ra, na); b.feed(rb, nb); event(a.fd, EPOLLIN); event(b.fd, EPOLLIN); if (gcr) { now += 1; mono_ms += 1001; }
  pre = (int)sx_param("preempt", 1); on_epoll = hook; rounds = 0; go = 1; sx_wake(&go, 0); sx_wait(SX_IDLE); sx_sched_mode(0, 0); on_epoll = epoll_hook; for (int i = 0; i < 4; ++i) pump(); sx_assert(!ended, "the server ended"); sx_reach("done");
  if (slave) { s.feed("\0", 1); event(s.fd, EPOLLIN); pump(); }
  size_t ga = a.avail(), gb = b.avail(); char xa[160], xb[160], xg[160], xc[80]; c.send("get k\r\n"); bool ok = false;
  for (int o = 0; o < (two ? 3 : 2); ++o) { st t = m; int la = 0, lb = 0; bool bad = false; auto A = [&](int q) { int r = model(t, 1, q, xa + la); if (r < 0) bad = true; else la += r; }; auto B = [&]() { int r = model(t, 2, cb, xb); if (r < 0) bad = true; else lb = r; };
    if (o == 0) B(); A(ca); if (o == 2) B(); if (ca2 >= 0) A(ca2); if (o == 1) B(); if (bad) { ok = true; sx_reach("unspecified"); break; } int lg = model(t, 3, GET, xg); (void)xc;
    if ((size_t)la == ga && (size_t)lb == gb && (size_t)lg == c.avail() && !memcmp(xa, a.out(), ga) && !memcmp(xb, b.out(), gb) && !memcmp(xg, c.out(), lg)) { ok = true; if (slave) { char v[24]; int n = 0; bool h = slave_state(s, v, &n); sx_assert(h == t.has || (!t.has && !m.has && !h) || (init && !t.mod), "the slave disagrees about the presence of the object"); if (h && t.has) sx_assert(n == (int)strlen(t.v) && !memcmp(v, t.v, n), "the slave has another value than the master"); sx_reach("compared"); } break; } }
  sx_assert(ok, "the replies and the final value are not those of any order of the commands"); sx_reach("end"); sx_ok(); return 0;
}
