// P26/P27: the reactor with recording resources.  what=0: one thread, symbolic event batches, handler results, removals, use by other threads; what=1: worker threads with symbolic switches
#include <cybozu/reactor.hpp>
#include <string.h>
#include <errno.h>
#include <sys/epoll.h>
#include "../rt/sx.h"
#include "../rt/env.hpp"
using namespace cybozu;
enum { MAXR = 6, NONE = 0, INVAL = 1, AGAIN = 2, DROP = 3 };
struct rs; static reactor* R; static rs* P[MAXR]; static int FD[MAXR], GEN[MAXR], inval[MAXR], destroyed[MAXR], inside[MAXR], nres = 0, deferred[MAXR]; static bool gcing = false, inpoll = false;
struct logent { int id; char kind; int d; bool was; }; static logent L[64]; static int nl = 0;
static const char* DN[] = {"decision0", "decision1", "decision2", "decision3", "decision4", "decision5"};
static int nth = 0, lim = 4; static bool calm = false;
struct rs: resource {
  int id; rs(int fd, int i): resource(fd), id(i) {}
  ~rs() { sx_assert(gcing, "a resource was destroyed outside gc"); sx_assert(!inside[id], "a resource was destroyed while a thread uses it"); ++destroyed[id]; }
  void on_invalidate(int fd) override { sx_assert(fd == FD[id], "on_invalidate with another descriptor"); sx_assert(env::is_open(fd), "on_invalidate after the descriptor was closed"); ++inval[id]; }
  bool act(char kind, int fd) {
    sx_assert(fd == FD[id], "a handler was called with another descriptor"); sx_assert(env::is_open(fd) && env::fds[fd].gen == GEN[id], "a handler was called on a closed descriptor"); sx_assert(inpoll, "a handler was called outside poll");
    bool was = valid(); int d = calm ? NONE : kind == 'R' ? sx_choose(lim, DN[id]) : (sx_choose(2, DN[id]) ? (kind == 'W' && lim > 3 && sx_choose(2, DN[id]) ? DROP : INVAL) : NONE);
    if (nl < 64) { L[nl].id = id; L[nl].kind = kind; L[nl].d = d; L[nl].was = was; ++nl; }
    if (d == INVAL) { bool r = invalidate(); if (!nth) sx_assert(r == !was, "the result of invalidate"); sx_assert(!valid(), "still valid"); return r; }
    if (d == AGAIN) m_reactor->add_readable(*this);
    if (d == DROP) { bool r = with_fd([](int) { return false; }); sx_assert(!r, "with_fd must fail"); return true; }
    return true;
  }
  bool on_readable(int fd) override { return act('R', fd); }
  bool on_writable(int fd) override { return act('W', fd); }
  bool on_hangup(int fd) override { return act('H', fd); }
  bool on_error(int fd) override { return act('E', fd); }
  bool prepare_destruction() override { sx_assert(gcing, "prepare_destruction outside gc"); if (deferred[id]) { --deferred[id]; return false; } return true; }
  template<class F> bool use(F f) { return with_fd(f); }
  void bye() { invalidate_and_close(); }
};
static bool alive[MAXR], rem[MAXR], removed[MAXR]; static int drops[64], nd = 0; static bool vmodel[MAXR], dfr[MAXR];
static int add() { int i = nres++; FD[i] = env::new_sock(); GEN[i] = env::fds[FD[i]].gen; P[i] = new rs(FD[i], i); alive[i] = vmodel[i] = true; R->add_resource(std::unique_ptr<resource>(P[i]), reactor::EVENT_IN | reactor::EVENT_OUT); return i; }
static bool isopen(int i) { return env::is_open(FD[i]) && env::fds[FD[i]].gen == GEN[i]; }
static void rm(int i) { sx_assert(alive[i], "model: removed twice"); alive[i] = false; removed[i] = true; rem[i] = false; }
static int at = 0;
static void expect(int i, char k) { // the next handler call and what follows from its decision
  sx_assert(at < nl, k == 'R' ? "a readable resource was not called" : k == 'W' ? "a writable resource was not called" : "an error or hang-up was not reported"); if (at >= nl) sx_stop(); logent& e = L[at++]; sx_assert(e.id == i && e.kind == k, "another handler was called than the event asked for"); sx_assert(e.was == vmodel[i], "validity");
  if (e.d == INVAL && vmodel[i]) { vmodel[i] = false; rm(i); } if (e.d == AGAIN) rem[i] = true; if (e.d == DROP && vmodel[i]) { vmodel[i] = false; drops[nd++] = i; }
}
static void check() {
  int n = 0; for (int i = 0; i < nres; ++i) { n += alive[i]; sx_assert(P[i] == nullptr || destroyed[i] || P[i]->valid() == vmodel[i], "validity"); sx_assert(inval[i] == !vmodel[i], "on_invalidate must run exactly once when the resource becomes invalid"); if (alive[i]) sx_assert(isopen(i), "the descriptor of a registered resource was closed"); if (inside[i]) sx_assert(isopen(i), "the descriptor was closed while a thread uses it"); }
  sx_assert((int)R->size() == n, "the number of registered resources");
}
static void round(int nev, const int* ids, const uint32_t* masks) {
  nl = at = 0; for (int k = 0; k < nev; ++k) if (ids[k] >= 0) env::event(FD[ids[k]], masks[k]);
  // the set remembered at the beginning, in any order the reactor likes (checked as a set)
  bool r0[MAXR]; int nr = 0; for (int i = 0; i < nres; ++i) { r0[i] = rem[i] && alive[i]; nr += r0[i]; rem[i] = false; }
  inpoll = true; R->run_once(); inpoll = false;
  for (int k = 0; k < nr; ++k) { sx_assert(at < nl, "a remembered readable was lost"); if (at >= nl) sx_stop(); int i = L[at].id; sx_assert(r0[i], "a resource was called that nobody remembered, or twice"); r0[i] = false; expect(i, 'R'); }
  int n0 = nd; nd = 0; int copy[64]; for (int k = 0; k < n0; ++k) copy[k] = drops[k]; for (int k = 0; k < n0; ++k) rm(copy[k]);
  for (int k = 0; k < nev; ++k) { int i = ids[k]; if (i < 0 || !alive[i]) continue; uint32_t m = masks[k];
    if (m & EPOLLERR) { expect(i, 'E'); continue; } if (m & EPOLLHUP) { expect(i, 'H'); if (!alive[i]) continue; } if (m & EPOLLIN) { expect(i, 'R'); if (!alive[i]) continue; } if (m & EPOLLOUT) expect(i, 'W'); }
  sx_assert(at == nl, "a handler was called without an event"); check();
}
static volatile int hold_go[MAXR]; static int holdres[MAXR]; static void holder(void* p) { int i = (int)(intptr_t)p; P[i]->use([&](int) { ++inside[i]; while (!hold_go[i]) sx_wait((void*)&hold_go[i]); sx_assert(isopen(i), "the descriptor was closed while a thread uses it"); --inside[i]; return holdres[i] == 0; }); }
static void release(int i) { if (!inside[i]) return; hold_go[i] = 1; if (holdres[i] && vmodel[i]) { vmodel[i] = false; drops[nd++] = i; } sx_wake((void*)&hold_go[i], 0); for (int k = 0; k < 4; ++k) sx_yield(); hold_go[i] = 0; sx_assert(!inside[i], "the thread did not come back"); }
static void gc() {
  sx_assert(R->has_garbage() == [&]{ for (int i = 0; i < nres; ++i) if (removed[i] && !destroyed[i]) return true; return false; }(), "has_garbage");
  bool fixed[MAXR]; for (int i = 0; i < nres; ++i) fixed[i] = removed[i] && !destroyed[i]; bool any = R->fix_garbage(); for (int i = 0; i < nres; ++i) if (fixed[i] && !inside[i]) sx_assert(!isopen(i), "the descriptor of a collected resource is still open");
  check(); for (int i = 0; i < nres; ++i) if (inside[i]) { release(i); check(); }
  calm = sx_param("calm", 1); round(0, nullptr, nullptr); calm = false; // removals after fix_garbage wait for the next collection
  if (any) { gcing = true; R->gc(); gcing = false; } for (int i = 0; i < nres; ++i) { sx_assert(destroyed[i] == (fixed[i] && !dfr[i] ? 1 : P[i] == nullptr ? 1 : 0), fixed[i] ? "a collected resource was not destroyed" : "a resource was destroyed too early"); if (fixed[i] && dfr[i]) dfr[i] = false; if (destroyed[i]) { sx_assert(!isopen(i), "the descriptor was not closed"); P[i] = nullptr; } } check();
}
static int idle_[4], done_[4];
static void worker(void* p) { int t = (int)(intptr_t)p, n = (int)sx_param("n", 2), ops = (int)sx_param("ops", 1); static const char* on[] = {"op0", "op1", "op2"};
  for (int k = 0; k < ops; ++k) { idle_[t] = 0; int i = n > 1 ? sx_choose(n, "target") : 0; rs* r = P[i]; if (r) { int o = sx_choose(3, on[t]); bool in = false; if (o == 2) r->bye(); else { bool x = r->use([&](int fd) { in = true; ++inside[i]; sx_assert(isopen(i) && fd == FD[i], "a thread was given a closed descriptor"); sx_yield(); char c; (void)c; sx_assert(isopen(i), "the descriptor was closed while a thread uses it"); --inside[i]; return o == 0; }); sx_assert(x == (in && o == 0), "the result of with_fd"); if (in) sx_reach("used"); else sx_reach("refused"); } }
    idle_[t] = 1; sx_wake(&idle_[t], 0); }
  done_[t] = 1; sx_wake(&done_[t], 0); }
extern "C" int harness() {
  int what = (int)sx_param("what", 0), n = (int)sx_param("n", 2), rounds = (int)sx_param("rounds", 2); lim = (int)sx_param("lim", 4); R = new reactor; int c0 = env::closes; (void)c0;
  if (what == 0) {
    for (int i = 0; i < n; ++i) add(); static const char* mn[] = {"mask0", "mask1", "mask2", "mask3", "mask4", "mask5"}; static const uint32_t M[] = {0, EPOLLIN, EPOLLOUT, EPOLLIN | EPOLLOUT, EPOLLIN | EPOLLHUP, EPOLLERR | EPOLLHUP | EPOLLIN, EPOLLHUP | EPOLLIN | EPOLLOUT};
    for (int r = 0; r < rounds; ++r) {
      int ids[MAXR]; uint32_t ms[MAXR]; bool rev = nres > 1 && sx_param("rev", 0) && sx_choose(2, "order"); for (int k = 0; k < nres; ++k) { int i = rev ? nres - 1 - k : k; ids[k] = -1; ms[k] = 0; if (alive[i]) { int m = sx_choose((int)sx_param("masks", 7), mn[i]); ids[k] = m ? i : -1; ms[k] = M[m]; } }
      round(nres, ids, ms);
      if (r + 1 < rounds || !sx_param("lastact", 0)) { int x = sx_choose((int)sx_param("acts", 5), "between");
      if (x == 1) { for (int i = 0; i < nres; ++i) if (!inside[i] && P[i]) { int t = sx_choose(2, "hold"); if (t) { bool v = vmodel[i]; holdres[i] = sx_choose(2, "hold result"); sx_thread_create(holder, (void*)(intptr_t)i); sx_yield(); sx_yield(); sx_assert(inside[i] == v, v ? "a valid resource refused a thread" : "an invalid resource let a thread in"); sx_reach("held"); break; } } }
      if (x == 2 && nres < MAXR) { add(); check(); sx_reach("added"); }
      if (x == 3) { for (int i = 0; i < nres; ++i) if (P[i] && removed[i] && sx_choose(2, "defer")) { deferred[i] = 1; dfr[i] = true; } gc(); sx_reach("collected"); }
      if (x == 4) for (int i = 0; i < nres; ++i) if (alive[i] && vmodel[i]) { P[i]->invalidate(); vmodel[i] = false; R->remove_resource(*P[i]); rm(i); check(); break; } }
    }
    calm = sx_param("calm", 1); for (int i = 0; i < nres; ++i) release(i); for (int r = 0; r < 2; ++r) round(0, nullptr, nullptr);
    int ids[MAXR]; uint32_t ms[MAXR]; calm = true; for (int i = 0; i < nres; ++i) { ids[i] = alive[i] ? i : -1; ms[i] = EPOLLIN; } round(nres, ids, ms);
    gc(); gc(); for (int i = 0; i < nres; ++i) if (removed[i]) { sx_assert(destroyed[i] == 1, "destroyed once"); sx_reach("removed"); } int opened = 0, dead = 0; for (int i = 0; i < nres; ++i) { opened += alive[i]; dead += !alive[i]; } sx_assert(env::closes == dead, "each descriptor must be closed exactly once");
    sx_reach("end"); sx_ok(); return 0;
  }
  // worker threads use resources while the reactor handles events, removes and collects
  int T = (int)sx_param("threads", 2); lim = 2; for (int i = 0; i < n; ++i) add(); nth = T; for (int t = 0; t < T; ++t) sx_thread_create(worker, (void*)(intptr_t)t);
  sx_sched_mode(1, (int)sx_param("preempt", 2)); static const uint32_t M[] = {EPOLLIN, EPOLLIN | EPOLLHUP, EPOLLERR}; int gcs = 0;
  for (int r = 0; r < rounds; ++r) { for (int i = 0; i < n; ++i) { uint32_t m = M[sx_choose((int)sx_param("masks", 2), "mask0")]; if (P[i] && env::registered(3, FD[i])) env::event(FD[i], m); }
    inpoll = true; R->run_once(); inpoll = false;
    if (R->has_garbage() && !gcs && sx_choose(2, "gc")) { bool any = R->fix_garbage(); sx_assert(any, "fix_garbage"); gcs = 1; for (int t = 0; t < T; ++t) while (!idle_[t]) sx_wait(&idle_[t]); gcing = true; R->gc(); gcing = false; for (int i = 0; i < n; ++i) if (destroyed[i]) P[i] = nullptr; sx_reach("collected"); } }
  for (int t = 0; t < T; ++t) while (!done_[t]) sx_wait(&done_[t]);
  sx_sched_mode(0, 0); calm = true; inpoll = true; R->run_once(); R->run_once(); inpoll = false; for (int i = 0; i < n; ++i) { sx_assert(inval[i] <= 1, "on_invalidate ran twice"); bool reg = env::is_open(FD[i]) && env::fds[FD[i]].gen == GEN[i] && env::registered(3, FD[i]); sx_assert(reg == (inval[i] == 0), inval[i] ? "an invalid resource is still registered" : "a valid resource was removed"); }
  R->fix_garbage(); gcing = true; R->gc(); gcing = false; int dead = 0; for (int i = 0; i < n; ++i) { sx_assert(destroyed[i] == (inval[i] ? 1 : 0), "a resource must be destroyed exactly once, after it became invalid"); dead += inval[i] != 0; if (inval[i]) sx_reach("removed"); }
  sx_assert(env::closes == dead, "each descriptor must be closed exactly once"); sx_reach("end"); sx_ok(); return 0;
}
