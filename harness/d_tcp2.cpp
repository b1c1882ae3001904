// P25: several threads send to one tcp_socket while the reactor (and a worker) write what is pending; thread switches are symbolic
#include <cybozu/tcp.hpp>
#include <cybozu/reactor.hpp>
#include <string.h>
#include <errno.h>
#include <sys/epoll.h>
#include "../rt/sx.h"
#include "../rt/env.hpp"
using namespace cybozu;
static bool failed = false, armed = false, stop_ = false, forced = false; static int fd0, budget, nth, nmsg, mlen, finished = 0, job = 0, closer = 0; static int invalidated = 0; static bool closed_by = false;
static long kernel(int, size_t n) {
  if (failed) return -EPIPE; if (forced || budget <= 0) return (long)n; --budget; bool err = sx_param("errors", 0);
  int c = sx_choose(3 + err, "kernel"); if (c == 3) { failed = true; return -ECONNRESET; } int k = c == 0 ? 0 : c == 1 ? (int)n / 2 : (int)n; if (k < (int)n) armed = true; return k;
}
struct sock: tcp_socket { using tcp_socket::tcp_socket; bool on_readable(int) override { return true; }
  bool on_writable(int fd) override { if (sx_param("worker", 0)) { job = 1; sx_wake(&job, 0); return true; } return tcp_socket::on_writable(fd); }
  bool flushnow() { return with_fd([=](int fd) { return write_pending_data(fd); }); }
  void on_invalidate(int fd) override { ++invalidated; tcp_socket::on_invalidate(fd); } };
static sock* S; static int accepted[3], refused[3];
static void sender(void* p) {
  int id = (int)(intptr_t)p;
  for (int k = 0; k < nmsg; ++k) { char b[16]; for (int i = 0; i < mlen + id; ++i) b[i] = (char)(id * 64 + k * 16 + i); bool r; int n = mlen + id; bool cl = id == closer && k == nmsg - 1;
    if (cl) { closed_by = true; r = S->send_close(b, n); } else if (id & 1) { tcp_socket::iovec v[2] = {{b, 2}, {b + 2, (size_t)n - 2}}; r = S->sendv(v, 2, k & 1); } else r = S->send(b, n, k & 1);
    memset(b, 0x77, 16); if (r) { sx_assert(!refused[id], "a message was accepted after one was refused"); ++accepted[id]; } else { ++refused[id]; sx_assert(failed || closed_by, "a message was refused although the connection works"); } }
  ++finished;
}
static void writer(void*) { while (!stop_) { while (!job && !stop_) sx_wait(&job); if (stop_) break; job = 0; S->flushnow(); } ++finished; }
// what has been handed over is a sequence of whole messages, those of each sender in order, the last one possibly incomplete
static void prefix(bool whole) {
  const unsigned char* o = (const unsigned char*)env::fds[fd0].out.p; size_t n = env::fds[fd0].out.n, i = 0; int next[3] = {0, 0, 0};
  while (i < n) { int id = o[i] >> 6, k = (o[i] >> 4) & 3, len = mlen + id; sx_assert(id < nth && (o[i] & 15) == 0, "messages of two senders are mixed"); sx_assert(k == next[id], "messages of a sender are out of order, lost or duplicated"); ++next[id];
    for (int j = 0; j < len && i < n; ++j, ++i) sx_assert(o[i] == (unsigned char)(id * 64 + k * 16 + j), "messages of two senders are mixed"); if (i == n && whole) sx_assert(n && o[n - 1] % 16 == len - 1, "the last message is incomplete"); }
  if (whole) for (int t = 0; t < nth; ++t) sx_assert(next[t] == accepted[t], "an accepted message was not handed over");
}
extern "C" int harness() {
  nth = (int)sx_param("threads", 2); nmsg = (int)sx_param("msgs", 1); mlen = (int)sx_param("len", 3); budget = (int)sx_param("kernel", 2); closer = (int)sx_param("closer", -1);
  reactor* R = new reactor; fd0 = env::new_sock(); S = new sock(fd0, (unsigned)sx_param("bufcnt", 1)); R->add_resource(std::unique_ptr<resource>(S), reactor::EVENT_IN | reactor::EVENT_OUT); env::on_send = kernel;
  int w = (int)sx_param("worker", 0); if (w) sx_thread_create(writer, nullptr); for (int i = 0; i < nth; ++i) sx_thread_create(sender, (void*)(intptr_t)i);
  sx_sched_mode(1, (int)sx_param("preempt", 2)); int idle = 0;
  for (int step = 0; step < 40; ++step) {
    sx_yield(); if (step > 8) forced = true; if (finished == nth && !armed && !job) break;
    if (armed) { armed = false; env::event(fd0, EPOLLOUT); R->run_once(); idle = 0; continue; }
    R->run_once(); if (finished != nth) sx_assert(++idle < 12, "a sender waits although nothing it waits for can happen");
  }
  sx_sched_mode(0, 0); for (int i = 0; i < 3; ++i) { sx_yield(); if (armed) { armed = false; env::event(fd0, EPOLLOUT); R->run_once(); } }
  sx_assert(finished == nth, "a sender never finished"); stop_ = true; sx_wake(&job, 0); sx_yield(); sx_yield(); sx_reach("sent");
  if (!failed) { if (!closed_by) for (int t = 0; t < nth; ++t) sx_assert(accepted[t] == nmsg, "a message was refused"); prefix(!closed_by); if (closed_by) { prefix(false); sx_assert(invalidated <= 1, "invalidated twice"); } else sx_assert(invalidated == 0, "the socket was invalidated without an error"); }
  else { prefix(false); sx_assert(invalidated == 1, "a failed connection must be invalidated exactly once"); sx_reach("failed"); }
  if (invalidated) { for (int i = 0; i < 3; ++i) R->run_once(); R->fix_garbage(); R->gc(); sx_assert(R->size() == 0 && env::fds[fd0].k == env::FREE && env::closes == 1, "the descriptor must be closed exactly once"); sx_reach("closed"); }
  sx_reach("end"); sx_ok(); return 0;
}
