// The whole server as a black box: the real yrmcds::server runs in its own (modelled) thread, with its real
// workers and GC thread; a harness plays the network, the clock and the clients from the outside.
#pragma once
#include <src/server.hpp>
#include <src/global.hpp>
#include <src/config.hpp>
#include <sys/epoll.h>
#include <string.h>
#include <stdlib.h>
#include "../rt/sx.h"
#include "../rt/env.hpp"
namespace srv {
using namespace env;
static int idle = 0, go = 0, ended = 0, spins = 0; static int acc_fd = -1;
static int epoll_hook(int, int timeout) {
  if (pending_events()) return 0;
  if (timeout == 0 && ++spins < 4) { sx_yield(); return 0; }      // polling: after a few rounds without events only the outside world can help
  spins = 0;
  idle = 1; sx_wake(&idle, 0);
  while (!go && !pending_events()) sx_wait(&go);
  go = 0; idle = 0; return 0;
}
static int accept_hook(int) { int f = acc_fd; acc_fd = -1; return f < 0 ? -EAGAIN : f; }
static void poke() { go = 1; sx_wake(&go, 0); }
static void run(void*) { yrmcds::server* s = new yrmcds::server; s->serve(); ended = 1; sx_wake(&idle, 0); }
static int quit_code = -1;
static void exit_hook(int c) { quit_code = c; ended = 1; idle = 1; sx_wake(&idle, 0); while (1) sx_wait(&quit_code); }
// lets the server run until it waits for events again (and every worker is idle)
static void pump() { go = 1; sx_wake(&go, 0); idle = 0; while (!idle && !ended) sx_wait(&idle); }
static void cfg(const char* t) { config_text.add(t, strlen(t)); }
static void start(bool master = true) {
  on_epoll = epoll_hook; on_accept = accept_hook; has_vip = master; on_exit_ = exit_hook;
  if (config_text.n) yrmcds::g_config.load("conf");
  yrmcds::g_current_time.store(env::now);
  sx_thread_create(run, nullptr);
  idle = 0; while (!idle && !ended) sx_wait(&idle);
}
static void tick(int sec = 1) { env::now += sec; mono_ms += 1001; pump(); }
static int listener(int port) { for (int i = 0; i < MAXFD; ++i) if (fds[i].k == LISTEN && fds[i].port == port) return i; sx_fail("harness: no listener"); return -1; }
static const int MC = 11211, REPL = 11213, CTR = 11215;
static int ep() { for (int i = 0; i < MAXFD; ++i) if (fds[i].k == EPOLL) return i; return -1; }
struct conn {
  int fd = -1, gen = 0; size_t rd = 0;
  bool open() const { return fd >= 0 && fds[fd].k == SOCK && fds[fd].gen == gen && !fds[fd].shut; }
  void feed(const void* p, size_t n) { env::feed(fd, p, n); }
  void send(const void* p, size_t n) { if (!open()) return; env::feed(fd, p, n); event(fd, EPOLLIN); pump(); }
  void send(const char* s) { send(s, strlen(s)); }
  void eof() { feed_eof(fd); event(fd, EPOLLIN); pump(); }
  void hangup(uint32_t ev = EPOLLIN | EPOLLHUP) { feed_eof(fd); event(fd, ev); pump(); }   // both directions closed by the peer
  bool gone() const { return fds[fd].k == FREE || fds[fd].gen != gen; }   // the server closed its descriptor
  // bytes received from the server since the last call
  const char* out() const { return fds[fd].out.p + rd; }
  size_t avail() const { return fds[fd].out.n - rd; }
  void skip(size_t n) { rd += n; }
};
static conn connect(int port = MC) {
  conn c; int l = listener(port); c.fd = new_sock(); if (c.fd < 0) { sx_fail("harness: out of descriptors"); return c; } c.gen = fds[c.fd].gen; acc_fd = c.fd; event(l, EPOLLIN); pump(); return c;
}
}
