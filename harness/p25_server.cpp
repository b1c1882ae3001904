// P24/P25/P38 on the running server: a client or a slave that does not take its data at once
#include "srv.hpp"
#include <errno.h>
using namespace srv;
static int slow = -1, budget, armed = 0; static bool shut_ = false;
static long kernel(int fd, size_t n) { if (fd != slow) return (long)n; if (shut_) return 0; if (budget <= 0) return (long)n; --budget; int m = n < 4 ? (int)n : 4, c = sx_choose(m + 1, "kernel"); int k = c == m ? (int)n : c == 3 ? (int)n - 1 : c; if (k < (int)n) armed = 1; return k; }
static long quota; static long limited(int fd, size_t n) { if (fd != slow) return (long)n; long k = quota < (long)n ? quota : (long)n; quota -= k; return k; }
static void drain() { for (int i = 0; i < 14; ++i) { if (armed) { armed = 0; event(slow, EPOLLOUT); } pump(); } }
extern "C" int harness() {
  int what = (int)sx_param("what", 0), w = (int)sx_param("workers", 2); char conf[160] = "buckets = 2\nrepl_buffer_size = 1\ngc_interval = 2\nslave_timeout = 3\nworkers = "; char d[2] = {(char)('0' + w), 0}; strcat(conf, d); strcat(conf, "\n"); cfg(conf); budget = (int)sx_param("kernel", 4);
  start(); conn a = connect(), b = connect();
  if (what == 0) {
    char v[9]; sx_sym(v, 6, "value"); char req[] = "set k 0 0 6\r\n......\r\n"; memcpy(req + 13, v, 6); b.send(req, sizeof(req) - 1); b.skip(b.avail());
    slow = a.fd; on_send = kernel; static const char* P[] = {"get k\r\n", "get k\r\nversion\r\nget k\r\n", "get k\r\nincr q 1\r\ndelete k\r\nget k\r\n", "get k\r\nget k\r\nquit\r\nversion\r\n", "get k\r\nget k\r\n", "get k\r\nget k\r\n", "get k\r\nget k\r\n"}; int s = (int)sx_param("stream", 0); int end = sx_param("end", 0);
    char want[300]; int n = 0; auto put = [&](const char* t) { while (*t) want[n++] = *t++; }; auto val = [&]() { put("VALUE k 0 6\r\n"); memcpy(want + n, v, 6); n += 6; put("\r\nEND\r\n"); };
    if (s == 0) val(); if (s == 1) { val(); put("VERSION yrmcds version 1.1.12\r\n"); val(); } if (s == 2) { val(); put("NOT_FOUND\r\nDELETED\r\nEND\r\n"); } if (s >= 3) { val(); val(); } if (s == 6) { char h[24] = {(char)0x81, 0x07}; memcpy(h + 12, "opaq", 4); memcpy(want + n, h, 24); n += 24; }
    a.feed(P[s], strlen(P[s])); if (s >= 5) { char h[24] = {(char)0x80, (char)(s == 5 ? 0x17 : 0x07)}; memcpy(h + 12, "opaq", 4); a.feed(h, 24); a.feed("version\r\n", 9); } event(a.fd, EPOLLIN); pump(); if (end == 1) { feed_eof(a.fd); event(a.fd, EPOLLIN); pump(); } if (end == 2) { int k = sx_choose(3, "hangup after"); for (int i = 0; i < k; ++i) { if (armed) { armed = 0; event(slow, EPOLLOUT); } pump(); } feed_eof(a.fd); event(a.fd, EPOLLIN | EPOLLHUP); pump(); shut_ = true; }
    drain(); int got = (int)a.avail(); sx_assert(got <= n && memcmp(a.out(), want, got) == 0, "the client got something else than the replies in order"); if (end != 2) sx_assert(got == n, "part of the replies never reached the client");
    if (end != 2) sx_assert(fds[a.fd].flushed_upto == fds[a.fd].out.n || fds[a.fd].shut || a.gone(), "replies were not flushed"); if (s == 3 || s >= 5 || end) sx_assert(!a.open(), "the connection was not closed after its replies"); else sx_assert(a.open(), "the connection was closed");
    b.send("version\r\n"); sx_assert(b.avail() == 31, "another client is not served"); sx_assert(!ended, "the server ended"); sx_reach("end"); sx_ok(); return 0;
  }
  if (what == 3) {   // a connection that held a lock is destroyed while a reply from under the bucket lock waits for a slow client
    conn s1 = connect(REPL), c = connect(); slow = s1.fd; s1.send("\0", 1); tick(1); s1.send("\0", 1); tick(1); s1.send("\0", 1);
    char k1 = (char)('a' + sx_choose(2, "key1")), k2 = (char)('c' + sx_choose(2, "key2")), k3 = (char)('e' + sx_choose(2, "key3")), t[64]; quota = 10000;
    auto set = [&](conn& x, char k, int n) { for (int i = 0; i < n; ++i) { memcpy(t + 17 * i, "set k 0 0 2\r\nv0\r\n", 17); t[17 * i + 4] = k; } x.feed(t, 17 * n); event(x.fd, EPOLLIN); pump(); };
    set(a, k1, 1); a.skip(a.avail()); char l[] = "lock k\r\n"; l[5] = k1; a.send(l); sx_assert(a.avail() == 4, "lock"); on_send = limited; quota = 0;
    set(b, k2, 3); int end = sx_choose(3, "end"), q = sx_choose(4, "quota");
    if (end == 0) { feed_eof(a.fd); event(a.fd, EPOLLIN | EPOLLHUP); pump(); } if (end == 1) { event(a.fd, EPOLLERR); pump(); } if (end == 2) { feed_eof(a.fd); event(a.fd, EPOLLIN); pump(); }
    s1.feed("\0", 1); event(s1.fd, EPOLLIN); tick(1); set(c, k3, 2); bool waits = b.avail() < 24 && c.avail() < 16;
    quota = q * 40; event(s1.fd, EPOLLOUT); for (int i = 0; i < 4; ++i) pump(); if (waits) sx_reach("two workers wait"); s1.feed("\0", 1); event(s1.fd, EPOLLIN); tick(1);
    quota = 10000; for (int i = 0; i < 8; ++i) { event(s1.fd, EPOLLOUT); pump(); } s1.feed("\0", 1); event(s1.fd, EPOLLIN); tick(1); tick(1);
    b.skip(b.avail()); b.send(l); sx_assert(!ended, "the server ended"); sx_assert(b.avail() == 4 && memcmp(b.out(), "OK\r\n", 4) == 0, "the lock of a dead connection was not released"); sx_assert(!a.open() && a.gone(), "the connection is still there"); sx_assert(c.avail() == 16, "a client waits for ever"); sx_reach("end"); sx_ok(); return 0;
  }
  if (what == 4) {   // a worker waits for one slave while another connection it still refers to ends and is collected
    conn x = connect(REPL), y = connect(REPL); conn* ss[2] = {&x, &y}; bool up[2] = {true, true}; auto beat = [&]() { for (int i = 0; i < 2; ++i) if (up[i] && ss[i]->open()) { ss[i]->feed("\0", 1); event(ss[i]->fd, EPOLLIN); } }; beat(); pump(); beat(); tick(1); beat(); tick(1); beat(); pump();
    int w = sx_choose(2, "slow slave"), o = 1 - w, end = sx_choose(4, "end"), t1 = sx_choose(3, "ticks"), after = sx_choose(3, "after"), n = 0; slow = ss[w]->fd; on_send = limited; quota = 0;
    char t[64]; auto set = [&](conn& q, char k, int m) { for (int i = 0; i < m; ++i) { memcpy(t + 17 * i, "set k 0 0 2\r\nv0\r\n", 17); t[17 * i + 4] = k; } q.feed(t, 17 * m); event(q.fd, EPOLLIN); pump(); };
    set(a, 'k', 3); if (a.avail() < 24) sx_reach("waits"); up[o] = false; conn& e = end == 3 ? a : *ss[o]; if (end == 3) up[o] = true;
    if (end == 0 || end == 3) { feed_eof(e.fd); event(e.fd, EPOLLIN | EPOLLHUP); pump(); } if (end == 1) { event(e.fd, EPOLLERR); pump(); } if (end == 2) { feed_eof(e.fd); event(e.fd, EPOLLIN); pump(); }
    for (int i = 0; i < t1; ++i) { beat(); tick(1); } if (sx_choose(2, "another")) { set(b, 'q', 1); n = 1; }
    if (after == 0) { quota = 10000; for (int i = 0; i < 6; ++i) { event(slow, EPOLLOUT); pump(); } } if (after == 1) { up[w] = false; feed_eof(slow); event(slow, EPOLLIN | EPOLLHUP); pump(); } if (after == 2) { up[w] = false; for (int i = 0; i < 4; ++i) tick(1); }
    for (int i = 0; i < 3; ++i) { beat(); tick(1); } sx_assert(!ended, "the server ended"); if (end != 3) { sx_assert(a.avail() == 24, "a client waits for ever"); sx_assert(!e.open(), "the connection is still open"); } sx_assert((int)b.avail() == 8 * n, "a client waits for ever");
    b.skip(b.avail()); b.send("get k\r\n"); sx_assert(b.avail() == 22, "the server does not answer"); sx_reach("end"); sx_ok(); return 0;
  }
  // a slave that stops reading: its buffer is 64 bytes, every record takes 32 bytes of header and more
  conn s1 = connect(REPL), s2 = connect(REPL); for (int i = 0; i < 2; ++i) { s1.send("\0", 1); s2.send("\0", 1); tick(1); } s1.send("\0", 1); s2.send("\0", 1); s2.skip(s2.avail()); s1.skip(s1.avail());
  slow = s1.fd; on_send = kernel; shut_ = what == 2; int n = (int)sx_param("n", 4); int stored = 0; int wn = 0;
  for (int i = 0; i < n; ++i) { conn& c = i % 2 ? b : a; char t[] = "set k 0 0 2\r\nv0\r\n"; t[14] = (char)('a' + i); wn += 35; if (c.open()) { c.feed(t, strlen(t)); event(c.fd, EPOLLIN); pump(); } if (what == 1) { if (armed) { armed = 0; event(slow, EPOLLOUT); pump(); } } }
  if (what == 1) drain(); s2.send("\0", 1);
  for (int i = 0; i < 4; ++i) { s2.send("\0", 1); if (what == 1) s1.send("\0", 1); tick(1); }
  drain(); stored = (int)(a.avail() + b.avail()) / 8; sx_assert(!ended, "the server ended"); sx_assert(stored == n, "a client waits for ever because of a slave"); 
  sx_assert((int)s2.avail() == wn, "another slave did not get every update");
  if (what == 1) { sx_assert(s1.open(), "a slow slave that sends heartbeats was dropped"); sx_assert((int)s1.avail() == wn && memcmp(s1.out(), s2.out(), wn) == 0, "the slave got something else than the updates"); } else { sx_assert(!s1.open(), "a dead slave is still connected"); sx_reach("dropped"); }
  sx_reach("end"); sx_ok(); return 0;
}
