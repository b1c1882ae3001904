// P22: threads on one hash map; the results must be those of some sequential order (and nothing freed is touched)
#include <cybozu/hash_map.hpp>
#include <string.h>
#include "../rt/sx.h"
#include "../rt/env.hpp"
using namespace cybozu;
extern "C" uint64_t sx_override__ZN6cybozu9siphash24EPKvm(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; return n ? c[n - 1] : 0; }
static int livev = 0;
struct val { int v; bool locked = false; int* heap; explicit val(int x): v(x), heap(new int(x)) { ++livev; } val(const val& o): v(o.v), locked(o.locked), heap(new int(*o.heap)) { ++livev; } val(val&& o): v(o.v), locked(o.locked), heap(o.heap) { o.heap = nullptr; ++livev; } ~val() { --livev; if (heap) { *heap = -1; delete heap; } } };
enum { INC, ADD, UPSERT, REMOVE, REMOVE_IF, GC, SUM, LOCK, TRY, NOPS };
struct mstate { bool has[3]; int v[3]; bool lk[3]; };
struct opr { int op, key, res, seen, thread; bool done; }; static opr O[6]; static int no = 0; static mstate init_;
static hash_map<val>* M; static const char* KS[] = {"a", "d", "b"};   // a and d share a bucket when there are 3
static hash_key key(int i) { return hash_key(KS[i], 1); }
static bool inh = false;   // exclusive section of the bucket, per map (checked with one bucket)
static void doop(opr& o) {
  hash_key k = key(o.key); int seen = 0; auto body = [&](val& x) { int t = x.v; sx_assert(*x.heap == x.v, "an object is seen half updated or after it was freed"); sx_yield(); sx_assert(*x.heap == x.v && t == x.v, "an object changed while a handler works on it"); seen = t; x.v = t + 1; sx_yield(); *x.heap = t + 1; };
  hash_map<val>::handler inc = [&](const hash_key& kk, val& x) { sx_assert(kk == k, "another key"); body(x); return true; }; hash_map<val>::creator c = [&](const hash_key&) { sx_yield(); return val(10); };
  switch (o.op) {
  case INC: o.res = M->apply(k, inc, nullptr); break; case ADD: o.res = M->apply(k, nullptr, c); break; case UPSERT: o.res = M->apply(k, inc, c); break;
  case REMOVE: { int cb = 0; o.res = M->remove(k, [&](const hash_key&) { ++cb; }); sx_assert(cb == o.res, "the callback of remove"); break; }
  case REMOVE_IF: o.res = M->remove_if(k, [&](const hash_key&, val& x) { seen = x.v; sx_yield(); sx_assert(*x.heap == x.v && seen == x.v, "an object changed while a handler works on it"); return x.v % 2 == 1; }); break;
  case GC: for (auto it = M->begin(); it != M->end(); ++it) it->gc([&](const hash_key&, val& x) { int t = x.v; sx_yield(); sx_assert(*x.heap == t && x.v == t, "an object changed while GC looks at it"); if (t % 2 == 1 && !x.locked) { ++seen; return true; } return false; }); break;
  case SUM: M->foreach([&](const hash_key&, val& x) { sx_yield(); seen += *x.heap; }); break;
  case LOCK: o.res = M->apply(k, [&](const hash_key&, val& x) { if (x.locked) return false; sx_yield(); sx_assert(!x.locked, "two threads took the same lock"); x.locked = true; return true; }, nullptr); break;
  case TRY: o.res = M->apply(k, [&](const hash_key&, val& x) { bool l = x.locked; sx_yield(); x.locked = false; return l; }, nullptr); break; }
  o.seen = seen; o.done = true;
}
// the sequential meaning; returns whether the recorded result fits
static bool model(mstate& s, const opr& o) {
  int k = o.key; int res = 0, seen = 0;
  switch (o.op) {
  case INC: case UPSERT: if (s.has[k]) { res = 1; seen = s.v[k]++; } else if (o.op == UPSERT) { res = 1; s.has[k] = true; s.v[k] = 10; s.lk[k] = false; } break;
  case ADD: if (!s.has[k]) { res = 1; s.has[k] = true; s.v[k] = 10; s.lk[k] = false; } break;
  case REMOVE: res = s.has[k]; s.has[k] = false; break; case REMOVE_IF: res = s.has[k]; if (res) { seen = s.v[k]; if (seen % 2 == 1) s.has[k] = false; } break;
  case GC: for (int i = 0; i < 3; ++i) if (s.has[i] && s.v[i] % 2 == 1 && !s.lk[i]) { ++seen; s.has[i] = false; } break; case SUM: for (int i = 0; i < 3; ++i) if (s.has[i]) seen += s.v[i]; break;
  case LOCK: if (s.has[k] && !s.lk[k]) { res = 1; s.lk[k] = true; } break; case TRY: if (s.has[k]) { res = s.lk[k]; s.lk[k] = false; } break; }
  return res == o.res && seen == o.seen;
}
static mstate fin; static bool same(const mstate& a) { for (int i = 0; i < 3; ++i) if (a.has[i] != fin.has[i] || (a.has[i] && (a.v[i] != fin.v[i] || a.lk[i] != fin.lk[i]))) return false; return true; }
static bool search(const mstate& s, unsigned doneset) {
  if (doneset == (1u << no) - 1) return same(s);
  for (int i = 0; i < no; ++i) { if (doneset >> i & 1) continue; bool first = true; for (int j = 0; j < i; ++j) if (!(doneset >> j & 1) && O[j].thread == O[i].thread) first = false; if (!first) continue; mstate t = s; if (model(t, O[i]) && search(t, doneset | 1u << i)) return true; }
  return false;
}
static int done_[4];
static void run(void* p) { int t = (int)(intptr_t)p; for (int i = 0; i < no; ++i) if (O[i].thread == t) doop(O[i]); done_[t] = 1; sx_wake(&done_[t], 0); }
extern "C" int harness() {
  int T = (int)sx_param("threads", 2), per = (int)sx_param("ops", 1), first = (int)sx_param("first", -1), keys = (int)sx_param("keys", 1), lim = (int)sx_param("lim", NOPS); int b = (int)sx_param("buckets", 1); M = new hash_map<val>((unsigned)b);
  memset(&init_, 0, sizeof init_); for (int i = 0; i < 3; ++i) { int st = i < keys ? sx_choose(3, "initial") : i == 2 ? 2 : 0; if (st) { M->apply(key(i), nullptr, [&](const hash_key&) { return val(st == 1 ? 4 : 5); }); init_.has[i] = true; init_.v[i] = st == 1 ? 4 : 5; } }
  static const char* on[] = {"op0", "op1", "op2", "op3", "op4", "op5"}; static const char* kn[] = {"key0", "key1", "key2", "key3", "key4", "key5"};
  for (int t = 0; t < T; ++t) for (int k = 0; k < per; ++k) { opr& o = O[no]; o.op = no == 0 && first >= 0 ? first : sx_choose(lim, on[no]); o.key = keys > 1 && o.op != GC && o.op != SUM ? sx_choose(keys, kn[no]) : 0; o.thread = t; ++no; }
  int wide = 0; for (int i = 0; i < no; ++i) wide += O[i].op == GC || O[i].op == SUM; if (b > 1) sx_assume(wide <= 1 && (!wide || keys == 1));   // walks of the map are atomic per bucket only
  for (int t = 0; t < T; ++t) sx_thread_create(run, (void*)(intptr_t)t); sx_sched_mode(1, (int)sx_param("preempt", 2)); for (int t = 0; t < T; ++t) while (!done_[t]) sx_wait(&done_[t]); sx_sched_mode(0, 0); sx_reach("done");
  int n = 0; for (int i = 0; i < 3; ++i) { fin.has[i] = M->apply(key(i), [&](const hash_key&, val& x) { fin.v[i] = x.v; fin.lk[i] = x.locked; sx_assert(*x.heap == x.v, "an object is half updated"); return true; }, nullptr); n += fin.has[i]; } sx_assert(livev == n, "objects were lost without being destroyed, or destroyed twice");
  sx_assert(search(init_, 0), "the results are not those of any sequential order"); delete M; sx_assert(livev == 0, "objects remain after the map"); sx_reach("end"); sx_ok(); return 0;
}
