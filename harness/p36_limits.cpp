// P36: which connections the running server admits
#include "srv.hpp"
#include <errno.h>
using namespace srv;
static int Q[8], qh = 0, qt = 0, fail_n = 0, fail_with = 0; static int accepts_(int) { if (fail_n > 0) { --fail_n; return -fail_with; } return qh < qt ? Q[qh++] : -EAGAIN; }
static const int MAXC = 12; struct peer { conn c; int kind; bool live; }; static peer P[MAXC]; static int np = 0; static unsigned M, CM; static int slaves_stale = 0;
static int live(int kind) { int n = 0; for (int i = 0; i < np; ++i) n += P[i].live && P[i].kind == kind; return n; }
static int newc(int kind) { conn c; c.fd = new_sock(); c.gen = fds[c.fd].gen; Q[qt++ % 8] = c.fd; P[np] = peer{c, kind, false}; return np++; }
static int recv_errs[MAXFD]; static int recv_hook(int fd) { int e = recv_errs[fd]; recv_errs[fd] = 0; return e; }
static void alive(peer& p) {
  sx_assert(p.c.open(), "an admitted connection was closed"); if (!p.c.open()) return; 
  if (p.kind == MC) { p.c.send("version\r\n"); sx_assert(p.c.avail() > 8 && memcmp(p.c.out(), "VERSION ", 8) == 0, "an admitted client is not served"); p.c.skip(p.c.avail()); }
  else if (p.kind == CTR) { unsigned char noop[12] = {0x90, 0}; p.c.send(noop, 12); sx_assert(p.c.avail() == 12 && (unsigned char)p.c.out()[0] == 0x91, "an admitted counter client is not served"); p.c.skip(p.c.avail()); }
  else { p.c.send("\0", 1); }
}
static void verdict(int i, bool must, bool mustnot) { peer& p = P[i]; bool in = p.c.open(); if (must) sx_assert(in, "a connection within the limit was refused"); if (mustnot) { sx_assert(!in, "a connection beyond the limit was admitted"); sx_assert(p.c.gone(), "the descriptor of a refused connection stays open"); } p.live = in; if (in) sx_reach("admitted"); else sx_reach("refused"); if (in) alive(p); }
static void arrive(int kind, int n) {
  int first = np, before = live(kind); qh = qt = 0; for (int i = 0; i < n; ++i) newc(kind); event(listener(kind), EPOLLIN); pump();
  for (int i = 0; i < n; ++i) { unsigned lim = kind == MC ? M : kind == CTR ? CM : 5; bool room = lim == 0 || (unsigned)live(kind) < lim; verdict(first + i, room && !(kind == REPL && slaves_stale), !room); } (void)before;
}
static void leave(int i, int how) {
  peer& p = P[i]; if (how == 3 && p.kind != MC) how = 0;
  if (how == 0) p.c.eof(); else if (how == 1) p.c.hangup(); else if (how == 2) { recv_errs[p.c.fd] = ECONNRESET; event(p.c.fd, EPOLLIN); pump(); } else if (how == 3) p.c.send("quit\r\n"); else p.c.hangup(EPOLLERR | EPOLLHUP);
  pump(); sx_assert(!p.c.open(), "the server did not close a connection that ended"); p.live = false; if (p.kind == REPL) slaves_stale = 1;
}
static void sec() { for (int i = 0; i < np; ++i) if (P[i].live && P[i].kind == REPL) P[i].c.send("\0", 1); tick(1); slaves_stale = 0; }
extern "C" int harness() {
  int what = (int)sx_param("what", 0), n = (int)sx_param("nops", 3), pre = (int)sx_param("pre", 0); M = (unsigned)sx_param("max", what == 3 ? 0 : 1); CM = (unsigned)sx_param("cmax", what == 3 ? 0 : 1);
  char conf[200] = "buckets = 2\ncounter.buckets = 2\nworkers = 2\nrepl_buffer_size = 1\ncounter.enable = true\nmax_connections = "; char d[2] = {(char)('0' + M), 0}; strcat(conf, d); strcat(conf, "\ncounter.max_connections = "); d[0] = '0' + CM; strcat(conf, d); strcat(conf, "\n"); cfg(conf);
  start(what != 2); on_accept = accepts_; on_recv = recv_hook;
  if (what == 2) {   // a slave: no memcache client is served, counters and replication are not offered at all
    conn master; for (int i = 0; i < MAXFD; ++i) if (fds[i].k == SOCK && fds[i].port == REPL) { master.fd = i; master.gen = fds[i].gen; } sx_assert(master.fd >= 0, "the slave is not connected");
    M = 0; for (int i = 0; i < n; ++i) { int f = newc(MC); event(listener(MC), EPOLLIN); pump(); verdict(f, false, true); if (sx_choose(2, "tick")) tick(1); }
    for (int i = 0; i < MAXFD; ++i) if (fds[i].k == LISTEN) sx_assert(fds[i].port == MC, "a slave offers more than the memcache port");
    sx_assert(master.open(), "refusing a client ended the replication"); sx_reach("end"); sx_ok(); return 0;
  }
  if (what == 3) {   // accept fails first
    static const int E[] = {EINTR, ECONNABORTED, EMFILE, ENFILE, EAGAIN, ENOBUFS, ENOMEM, EPROTO, EPERM, ENETDOWN, ENETUNREACH, EHOSTUNREACH, EHOSTDOWN, EOPNOTSUPP, ENOPROTOOPT}; int e = sx_choose(15, "errno"); int kind = sx_choose(2, "port") ? CTR : MC; arrive(kind, 1);
    fail_with = E[e]; fail_n = 1 + sx_choose(2, "times"); qh = qt = 0; int i = newc(kind); event(listener(kind), EPOLLIN); pump(); for (int j = 0; j < 2 && fail_with == EAGAIN; ++j) { event(listener(kind), EPOLLIN); pump(); } pump(); tick(1);   // edge-triggered: a new event only when accept said that nothing is waiting
    sx_assert(!ended, "a failing accept ended the server"); verdict(i, true, false); alive(P[0]); sx_reach("end"); sx_ok(); return 0;
  }
  int kind0 = what == 1 ? REPL : MC; for (int i = 0; i < pre; ++i) arrive(kind0, 1);
  for (int k = 0; k < n; ++k) {
    static const char* nm[] = {"op1", "op2", "op3", "op4", "op5"}; static const char* hn[] = {"how1", "how2", "how3", "how4", "how5"}; static const char* wn[] = {"who1", "who2", "who3", "who4", "who5"};
    int op = sx_choose(what == 1 ? 4 : 5, nm[k]);
    if (op == 0) arrive(kind0, 1); else if (op == 1) arrive(kind0, 2); else if (op == 2) { int w[MAXC], c = 0; for (int i = 0; i < np; ++i) if (P[i].live) w[c++] = i; if (c > 0) leave(w[c > 3 ? sx_choose(2, wn[k]) * (c - 1) : sx_choose(c, wn[k])], sx_choose(5, hn[k])); } else if (op == 3) sec(); else arrive(CTR, 1);
    for (int i = 0; i < np; ++i) if (P[i].live) alive(P[i]); else sx_assert(P[i].c.gone() || !P[i].c.open(), "a connection came back");
  }
  sec(); int room = 0; if (what == 0 && M) { room = (int)M - live(MC); for (int i = 0; i <= room && np < MAXC; ++i) arrive(MC, 1); } else if (what == 1) { room = 5 - live(REPL); for (int i = 0; i <= room && np < MAXC; ++i) arrive(REPL, 1); }
  sx_assert(!ended, "the server ended"); sx_reach("end"); sx_ok(); return 0;
}
