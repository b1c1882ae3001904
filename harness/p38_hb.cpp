// P38: heartbeats of slaves and their timeout, on the running master
#include "srv.hpp"
#include <errno.h>
using namespace srv;
struct sl { conn c; bool live, ready; int64_t last, since; size_t frozen; int eo; }; static sl S[4]; static int ns = 0; static int TO; static conn cl; static int vno = 0; static int rerr[MAXFD]; static int recv_hook(int fd) { int e = rerr[fd]; rerr[fd] = 0; return e; }
static void check() { for (int i = 0; i < ns; ++i) { sl& s = S[i]; if (s.live) { sx_assert(s.c.open(), "a slave that sends heartbeats was dropped"); } else { sx_assert(!s.c.open(), "a dead slave is still connected"); size_t n = fds[s.c.fd].gen == s.c.gen ? fds[s.c.fd].out.n : s.frozen; sx_assert(n == s.frozen, "a dropped slave was sent more"); } } }
static void dead(sl& s) { s.live = false; s.frozen = fds[s.c.fd].gen == s.c.gen ? fds[s.c.fd].out.n : 0; }
static void join() { sl& s = S[ns++]; s.c = connect(REPL); s.live = true; s.ready = false; s.last = s.since = env::now; s.eo = 0; sx_assert(s.c.open(), "a slave was refused"); }
static void beat(sl& s, int n) { static const char z[8] = {0, 1, 'x', 0, 0, 0, 0, 0}; s.c.feed(z, n); event(s.c.fd, EPOLLIN); pump(); s.last = env::now; }
static bool early = true;
static void sec() {
  tick(1); for (int i = 0; i < ns; ++i) { sl& s = S[i]; if (!s.live) continue; if (s.last + TO <= env::now) { sx_reach("timed out"); dead(s); } else if (early || s.since + 4 <= env::now) s.ready = true; }
}
static void set() {
  char b[32] = "set k 0 0 2\r\nv0\r\n"; b[14] = (char)('a' + vno++); size_t n0[4]; for (int i = 0; i < ns; ++i) n0[i] = S[i].live ? fds[S[i].c.fd].out.n : 0;
  cl.send(b); sx_assert(cl.avail() == 8 && memcmp(cl.out(), "STORED\r\n", 8) == 0, "set refused"); cl.skip(cl.avail());
  for (int i = 0; i < ns; ++i) { sl& s = S[i]; if (!s.live || !s.ready) continue; const char* o = fds[s.c.fd].out.p + n0[i]; size_t n = fds[s.c.fd].out.n - n0[i]; sx_assert(n == 35 && (unsigned char)o[0] == 0x80 && o[1] == 0x11 && o[32] == 'k' && o[33] == 'v' && o[34] == b[14], "a live slave did not get an update"); sx_reach("updated"); }
}
extern "C" int harness() {
  int n = (int)sx_param("n", 3), k = (int)sx_param("slaves", 2); TO = (int)sx_param("timeout", 2); char conf[160] = "buckets = 2\nworkers = 2\nrepl_buffer_size = 1\ngc_interval = 2\nslave_timeout = "; char d[2] = {(char)('0' + TO), 0}; strcat(conf, d); strcat(conf, "\n"); cfg(conf); start(); cl = connect(); on_recv = recv_hook;
  for (int i = 0; i < k; ++i) join(); for (int i = 0; i < k; ++i) beat(S[i], 1); sec(); for (int i = 0; i < k; ++i) if (S[i].live) beat(S[i], 1); sec(); for (int i = 0; i < k; ++i) if (S[i].live) beat(S[i], 1); check(); early = false;
  for (int t = 0; t < n; ++t) {
    static const char* nm[2][6] = {{"a1", "a2", "a3", "a4", "a5", "a6"}, {"b1", "b2", "b3", "b4", "b5", "b6"}};
    for (int i = 0; i < ns && i < 2; ++i) { int op = sx_choose(i == 0 ? 6 : 3, nm[i][t]); sl& s = S[i]; if (!s.live) { if (op) continue; else continue; }
      if (op == 1) beat(s, 1); else if (op == 2) beat(s, 3); else if (op == 3) { s.c.eof(); dead(s); } else if (op == 4) { rerr[s.c.fd] = ETIMEDOUT; event(s.c.fd, EPOLLIN); pump(); dead(s); } else if (op == 5) { s.c.hangup(EPOLLIN | EPOLLHUP); dead(s); } }
    check(); set(); check(); if (ns < 4 && k == 1 && sx_choose(2, t == 0 ? "join1" : t == 1 ? "join2" : "join3")) join(); sec(); check(); if (sx_param("after", 0)) set();
  }
  set(); check(); sx_assert(!ended, "the master ended"); sx_reach("end"); sx_ok(); return 0;
}
