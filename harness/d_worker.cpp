// P28: workers run each job exactly once and stop cleanly; P29: the syncer.  Thread switches are symbolic
#include <cybozu/worker.hpp>
#include <string.h>
#include <src/sync.hpp>
#include "../rt/sx.h"
#include "../rt/env.hpp"
using namespace cybozu;
static int runs[16], posted = 0, active[4]; static bool stopped[4]; static int kinds; static int mid = 0, go_on = 0, asked[4];
static int p28() {
  int n = (int)sx_param("workers", 1), nops = (int)sx_param("nops", 3); kinds = (int)sx_param("kinds", 3); worker* W[4]; int last[4]; static const char* wn[] = {"w0", "w1", "w2", "w3"}; static const char* on[] = {"op0", "op1", "op2", "op3", "op4", "op5"}; static const char* kn[] = {"kind0", "kind1", "kind2", "kind3", "kind4", "kind5"};
  for (int i = 0; i < n; ++i) { W[i] = new worker(sx_param("bufsize", 8)); last[i] = -1; sx_assert(!W[i]->is_running(), "a new worker is busy"); if (sx_param("late", 0) != 1) W[i]->start(); }
  sx_sched_mode(1, (int)sx_param("preempt", 2)); if (sx_param("late", 0) == 1) for (int i = 0; i < n; ++i) W[i]->start();
  auto post = [&](int w, int k) { int j = posted++; last[w] = j; W[w]->post_job([j, w, k](dynbuf& b) { sx_assert(b.empty(), "the buffer of the job is not empty"); sx_assert(++runs[j] == 1, "a job ran twice"); sx_assert(++active[w] == 1, "a worker runs two jobs at once"); sx_assert(!stopped[w], "a job ran after stop returned"); if (k) b.append("leftover", k == 1 ? 3 : 8); if (k == 2) sx_yield(); --active[w]; }); };
  for (int k = 0; k < nops; ++k) {
    int w = n > 1 ? sx_choose(n, wn[0]) : 0, o = stopped[w] ? 2 : sx_choose(3, on[k]);
    if (o == 0) { if (W[w]->is_running()) { sx_assert(last[w] >= 0, "a worker is busy without a job"); sx_reach("busy"); } else { if (last[w] >= 0) sx_assert(runs[last[w]] == 1, "the worker reports idle although its job has not run"); sx_assert(active[w] == 0, "the worker reports idle in the middle of a job"); post(w, sx_choose(kinds, kn[k])); sx_assert(runs[last[w]] == 1 || W[w]->is_running() || runs[last[w]] == 1, "a worker with a job reports idle"); sx_reach("posted"); } }
    if (o == 1) sx_yield();
    if (o == 2 && !stopped[w] && (k == nops - 1 || sx_param("earlystop", 1))) { W[w]->stop(); stopped[w] = true; if (last[w] >= 0) sx_assert(runs[last[w]] == 1, "stop returned before the job was done"); sx_assert(active[w] == 0, "stop returned during a job"); sx_reach("stopped"); }
  }
  // idle workers finish everything that was posted
  for (int w = 0; w < n; ++w) { if (!stopped[w] && sx_choose(2, "wait")) { for (int i = 0; i < 30 && W[w]->is_running(); ++i) sx_yield(); } }
  for (int w = 0; w < n; ++w) { if (!stopped[w]) { W[w]->stop(); stopped[w] = true; } } sx_sched_mode(0, 0);
  for (int j = 0; j < posted; ++j) sx_assert(runs[j] == 1, "a posted job did not run exactly once"); for (int w = 0; w < n; ++w) { sx_assert(!W[w]->is_running(), "a stopped worker reports busy"); delete W[w]; }
  sx_assert(env::closes == n, "descriptors of workers"); sx_reach("end"); sx_ok(); return 0;
}
// P29: a model of which workers have been seen idle
static int hold[4]; static int fired[16];
static int p29() {
  int n = (int)sx_param("workers", 2), nops = (int)sx_param("nops", 4); std::vector<std::unique_ptr<worker>> W; static const char* on[] = {"op0", "op1", "op2", "op3", "op4", "op5", "op6"}; for (int i = 0; i < n; ++i) W.emplace_back(new worker(8)); for (auto& w: W) w->start();
  yrmcds::syncer S(W); sx_assert(S.empty(), "a new syncer is empty"); unsigned need[16]; int nreq = 0; unsigned busy = 0; bool order = true; int lastfired = -1; (void)lastfired; (void)order;
  for (int k = 0; k < nops; ++k) {
    int o = sx_choose(2 + n, on[k]);
    if (o >= 2) { int w = o - 2; if (busy >> w & 1) { hold[w] = 0; sx_wake(&hold[w], 0); for (int i = 0; i < 6; ++i) sx_yield(); busy &= ~(1u << w); } else { hold[w] = 1; W[w]->post_job([w](dynbuf&) { while (hold[w]) sx_wait(&hold[w]); }); sx_yield(); busy |= 1u << w; } }
    if (o == 0) { int r = nreq; need[nreq++] = busy; int before[16]; for (int i = 0; i < r; ++i) before[i] = fired[i]; S.add_request(std::unique_ptr<yrmcds::sync_request>(new yrmcds::sync_request([r] { sx_assert(++fired[r] == 1, "the callback ran twice"); }))); sx_assert(fired[r] == (busy == 0), busy ? "the callback ran although a worker is busy" : "the callback did not run although all workers are idle"); for (int i = 0; i < r; ++i) sx_assert(fired[i] == before[i] || need[i] == 0, "another callback ran"); if (busy) sx_reach("pending"); }
    if (o == 1) { S.check(); for (int i = 0; i < nreq; ++i) { need[i] &= busy; sx_assert(fired[i] == (need[i] == 0), need[i] ? "the callback ran before every worker was idle" : "the callback did not run although every worker has been idle"); } sx_reach("checked"); }
    for (int i = 0; i < nreq; ++i) if (need[i]) sx_assert(!fired[i], "the callback ran before every worker was idle");
    bool e = true; for (int i = 0; i < nreq; ++i) e &= fired[i] != 0; sx_assert(S.empty() == e, "empty");
  }
  for (int w = 0; w < n; ++w) { hold[w] = 0; sx_wake(&hold[w], 0); } for (int i = 0; i < 12; ++i) sx_yield(); S.check(); for (int i = 0; i < nreq; ++i) sx_assert(fired[i] == 1, "a request was never completed"); sx_assert(S.empty(), "requests are left"); for (auto& w: W) w->stop();
  if (nreq) sx_reach("fired"); sx_reach("end"); sx_ok(); return 0;
}
extern "C" int harness() { return sx_param("what", 0) ? p29() : p28(); }
