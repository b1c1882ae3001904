// P24: one sender and the reactor on the real tcp_socket; the kernel takes what it likes
#include <cybozu/tcp.hpp>
#include <cybozu/reactor.hpp>
#include <string.h>
#include <errno.h>
#include <sys/epoll.h>
#include "../rt/sx.h"
#include "../rt/env.hpp"
using namespace cybozu;
static char want[128]; static int wn = 0, accepted = 0; static int invalidated = 0; static bool failed = false, armed = false, closing = false, done = false, last_flush = false, forced = false; static int fd0, budget, mode_; static int blockedNow = 0; static int eintr = 0;
static long kernel(int, size_t n) {
  if (forced) return (long)n; if (budget <= 0) return (long)n; --budget; bool err = sx_param("errors", 0) && !failed;
  int m = n < 4 ? (int)n : 4, c = sx_choose(m + 1 + (eintr < 1) + err, "kernel"); if (c <= m) { int k = c == m ? (int)n : c == 3 ? (int)n - 1 : c; if (k < (int)n) armed = true; return k; }
  if (c == m + 1 && eintr < 1) { ++eintr; return -EINTR; } failed = true; return sx_choose(2, "errno") ? -EPIPE : -ECONNRESET;
}
struct sock: tcp_socket { using tcp_socket::tcp_socket; int full = 0; bool on_readable(int) override { return true; } void on_buffer_full() override { ++full; }
  void on_invalidate(int fd) override { ++invalidated; if (!failed) { sx_assert(closing, "the socket was invalidated without an error or a request to close"); sx_assert((int)env::fds[fd].out.n == wn, "the socket was closed before all accepted bytes were handed over"); } tcp_socket::on_invalidate(fd); } };
static sock* S; static int nops, first;
static void sender(void*) {
  int simple = (int)sx_param("simple", 0); int lens = (int)sx_param("lens", 0), maxl = (int)sx_param("maxlen", 4); static const int L[] = {5, 2, 4, 9, 0, 1, 3, 8, 12};
  for (int k = 0; k < nops && !closing; ++k) {
    static const char* on[] = {"op1", "op2", "op3", "op4"}; static const char* ln[] = {"len1", "len2", "len3", "len4"}; static const char* dn[] = {"d1", "d2", "d3", "d4"}; static const char* sn[] = {"split1", "split2", "split3", "split4"}; static const char* tn_[] = {"tail1", "tail2", "tail3", "tail4"};
    int op = k == 0 && first >= 0 ? first : simple ? (k == nops - 1 ? sx_choose(3, on[k]) * 2 : sx_choose(2, on[k]) * 2) : k == nops - 1 ? sx_choose(7, on[k]) : sx_choose(4, on[k]); int n = op == 6 ? 0 : lens ? lens : L[sx_choose(maxl, ln[k])];
    char* b = new char[n + 1]; sx_sym(b, n, dn[k]); memcpy(want + wn, b, n); wn += n; if (op >= 4) closing = true; last_flush = op == 1 || op == 3 || op >= 4; bool r = true;
    if (op <= 1) r = S->send(b, n, op == 1); else if (op == 4) r = S->send_close(b, n); else if (op == 6) r = S->close_after_send();
    else { int a = simple ? 1 : sx_choose(3, sn[k]); a = a == 0 ? 0 : a == 1 ? n / 2 : n; int c = (n - a) && !simple ? sx_choose(2, tn_[k]) : 0; char* x = new char[a + 1]; char* y = new char[n - a + 1]; memcpy(x, b, a); memcpy(y, b + a, n - a); tcp_socket::iovec v[4] = {{x, (size_t)a}, {y, 0}, {y, (size_t)c}, {y + c, (size_t)(n - a - c)}}; r = op == 5 ? S->sendv_close(v, 4) : S->sendv(v, 4, op == 3); memset(x, 0x55, a); memset(y, 0x55, n - a); delete[] x; delete[] y; }
    memset(b, 0x55, n); delete[] b;      // the caller may reuse its buffers at once
    if (r) ++accepted; if (op < 4) sx_assert(r == !failed, r ? "a message was accepted although the connection failed" : "a message was refused although the connection works");
    if (failed) { wn = wn; break; }
  }
  done = true;
}
static void prefix() { size_t n = env::fds[fd0].out.n; sx_assert((int)n <= wn, "more bytes were handed over than accepted"); sx_assert(memcmp(env::fds[fd0].out.p, want, n) == 0, "the bytes handed over are not the accepted ones in order"); }
extern "C" int harness() {
  nops = (int)sx_param("nops", 2); first = (int)sx_param("first", -1); budget = (int)sx_param("kernel", 3);
  reactor* R = new reactor; fd0 = env::new_sock(); uint64_t live0 = sx_heap_live(); S = new sock(fd0, (unsigned)sx_param("bufcnt", 1)); R->add_resource(std::unique_ptr<resource>(S), reactor::EVENT_IN | reactor::EVENT_OUT); env::on_send = kernel;
  sx_thread_create(sender, nullptr); int idle = 0;
  for (int step = 0; step < 60; ++step) {
    sx_yield(); prefix();
    if (step > 12) forced = true;
    if (armed) { armed = false; env::event(fd0, EPOLLOUT); R->run_once(); idle = 0; prefix(); continue; }
    if (done) break; R->run_once(); sx_assert(++idle < 4, "a sender waits although nothing it waits for can happen");
  }
  sx_assert(done, "the sender never finished"); sx_reach("sent"); R->run_once(); prefix();
  env::vfd& f = env::fds[fd0]; 
  if (!failed) { sx_assert((int)f.out.n == wn, "accepted bytes were not handed over"); if (last_flush && wn && !f.shut) sx_assert(f.flushed_upto == f.out.n, "data was not flushed"); sx_assert(invalidated == (closing ? 1 : 0), closing ? "the socket was not closed after its last message" : "the socket was invalidated"); }
  else { sx_assert(invalidated == 1, "a failed connection must be invalidated exactly once"); sx_reach("failed"); char c = 'x'; sx_assert(!S->send(&c, 1), "sending on an invalid socket must fail"); }
  if (invalidated) { sx_assert(!S->valid(), "the socket is still valid"); S = nullptr; sx_assert(f.shut || f.k == env::FREE, "the connection was not shut down"); R->run_once(); sx_assert(R->size() == 0, "the reactor still has the socket"); sx_assert(R->fix_garbage(), "no garbage"); R->gc(); sx_assert(env::fds[fd0].k == env::FREE, "the descriptor was not closed"); sx_assert(env::closes == 1, "the descriptor must be closed exactly once"); sx_reach("closed"); }
  sx_reach("end"); sx_ok(); return 0;
}
