// Native implementation of the harness interface: replays one concrete assignment.
// argv[1]: replay file, lines "p NAME VALUE" (parameters) and "i NAME VALUE" (inputs in order of creation).
// Exit status: 0 finished, 77 an assumption failed (the run left the recorded path), 99 an assertion failed.
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <map>
#include <set>
#include <vector>
#include <execinfo.h>
#include <exception>
#include <signal.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sanitizer/allocator_interface.h>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
static thread_local bool in_hook = false; struct quiet { bool o; quiet() : o(in_hook) { in_hook = true; } ~quiet() { in_hook = o; } };   // allocations of this runtime are not counted
static std::map<std::string, int64_t> params; static std::map<std::string, std::vector<uint64_t>> inputs; static std::map<std::string, size_t> used;
static FILE* rep = stdout;
static void out(const char* k, const char* m) { quiet q; fprintf(rep, "%s %s\n", k, m); fflush(rep); }
static void end(int rc) { fflush(rep); _exit(rc); }
static uint64_t next(const char* name) { quiet q; std::string n = *name ? name : "_"; for (char& c : n) if (c == ' ') c = '_'; auto& v = inputs[n]; size_t& u = used[n]; if (u < v.size()) return v[u++]; return 0; }
// blocks handed back to the allocator must not contain (two adjacent bytes, or three of longer ones, of) a registered secret
static std::vector<std::string> secrets; static int64_t live_bytes = (int64_t)1 << 40;
static void on_malloc(const volatile void* p, size_t n) { if (p && !in_hook) live_bytes += (int64_t)n; }
static void on_free(const volatile void* q) {
  if (!q || in_hook) return; in_hook = true; size_t n = __sanitizer_get_allocated_size((const void*)q); live_bytes -= (int64_t)n; const char* b = (const char*)q;
  for (auto& s : secrets) { if (s.data() == b) continue; size_t w = s.size() >= 3 ? 3 : s.size(); if (w < 2) continue; for (size_t k = 0; k + w <= s.size(); ++k) if (n >= w && !memchr(s.data() + k, 0, w) && memmem(b, n, s.data() + k, w)) { out("VIOLATED", "a block returned to the allocator still contains object data"); end(99); } }
  in_hook = false;
}
extern "C" {
void sx_sym(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)next(name); }
uint64_t sx_u64(const char* n) { return next(n); } uint32_t sx_u32(const char* n) { return next(n); } uint16_t sx_u16(const char* n) { return next(n); } uint8_t sx_u8(const char* n) { return next(n); }
void sx_assume(int c) { if (!c) { out("ASSUME", "violated"); end(77); } }
void sx_assert(int c, const char* m) { if (!c) { out("VIOLATED", m); end(99); } }
void sx_fail(const char* m) { out("VIOLATED", m); end(99); }
void sx_reach(const char* l) { out("REACH", l); }
uint64_t sx_conc(uint64_t v) { return v; }
int sx_choose(int n, const char* name) { if (n <= 1) return 0; return (int)next(name) % n; }
void sx_stop(void) { end(0); } void sx_ok(void) { out("END", "ok"); end(0); }
int sx_alive(const void*) { return 1; }
static void hooks() { static bool on = false; if (!on) { on = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } }
uint64_t sx_heap_live(void) { hooks(); return (uint64_t)live_bytes; }
void sx_secret(const void* p, size_t n) { quiet q; secrets.push_back(std::string((const char*)p, n)); hooks(); }
int64_t sx_param(const char* n, int64_t d) { quiet q; auto it = params.find(n); return it == params.end() ? d : it->second; }
uint64_t sx_peek(uint64_t v) { return v; } int sx_is_sym(uint64_t) { return 0; } int sx_valid(int c) { return c != 0; }
void sx_dbg(const char* m, uint64_t v) { fprintf(stderr, "[dbg] %s %llu\n", m, (unsigned long long)v); }
uint64_t sx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int harness(void);
}

// ---- threads: one runs at a time; switches happen where the engine's scheduler switches
static const unsigned SPIN = 3;   // as in the engine
enum { RUN, WAIT, DONE };
struct NT { uint64_t spin_site = 0, spin_addr = 0, spin_val = 0; unsigned spin_n = 0; int stat = RUN; uint64_t addr = 0; bool yielded = false; sem_t sem; void (*fn)(void*) = nullptr; void* arg = nullptr; };
static NT nt[256]; static int nnt = 1, cur = 0, smode = 0, preempt = 0; static bool allow_dl = false; static thread_local int self_id = 0;
static void go(int n) { int me = self_id; if (n == me) { cur = n; return; } cur = n; sem_post(&nt[n].sem); while (sem_wait(&nt[me].sem) == -1) {} }
static void note_visible() { for (int i = 0; i < nnt; ++i) if (i != cur) nt[i].yielded = false; }
static std::vector<int> enabled(bool others) { std::vector<int> r; for (int i = 0; i < nnt; ++i) if (nt[i].stat == RUN && !(others && i == self_id)) r.push_back(i); return r; }
static int pick_away(bool spin) {
  std::vector<int> en = enabled(true);
  if (spin) { std::vector<int> e2; for (int x : en) if (!nt[x].yielded) e2.push_back(x); if (!e2.empty()) en = e2; }
  if (en.empty()) for (int i = 0; i < nnt; ++i) if (nt[i].stat == WAIT && nt[i].addr == 0x1D1E) { nt[i].stat = RUN; return i; }
  if (en.empty()) {
    if (spin) { out("VIOLATED", "thread spins forever: no other thread can make progress"); end(99); }
    if (nt[self_id].stat == RUN) return self_id;
    if (allow_dl) { out("END", "deadlock-allowed"); end(0); }
    out("VIOLATED", "deadlock: every thread is blocked"); end(99);
  }
  if (smode == 0) { for (int x : en) if (x > self_id) return x; return en[0]; }
  if (en.size() == 1) return en[0];
  size_t k = next("sched"); return en[k < en.size() ? k : 0];
}
static void sched_point() {
  if (smode == 0 || nnt < 2) return;
  for (;;) {
    std::vector<int> en = enabled(false); if (en.size() < 2 || preempt <= 0) return;
    std::vector<int> c; c.push_back(self_id); for (int x : en) if (x != self_id && !nt[x].yielded) c.push_back(x);
    if (c.size() < 2) return;
    size_t k = next("sched"); if (k == 0 || k >= c.size()) return;
    --preempt; go(c[k]);
  }
}
static void* nt_main(void* p) {
  self_id = (int)(long)p; while (sem_wait(&nt[self_id].sem) == -1) {}
  nt[self_id].fn(nt[self_id].arg);
  nt[self_id].stat = DONE; uint64_t key = 0x7000000000ull + self_id; for (int i = 0; i < nnt; ++i) if (nt[i].stat == WAIT && nt[i].addr == key) nt[i].stat = RUN;
  int n = pick_away(false); cur = n; sem_post(&nt[n].sem); return nullptr;
}
extern "C" {
int sx_thread_create(void (*fn)(void*), void* arg) { int id = nnt++; sem_init(&nt[id].sem, 0, 0); nt[id].fn = fn; nt[id].arg = arg; pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); pthread_create(&t, &a, nt_main, (void*)(long)id); return id; }
int sx_thread_self(void) { return self_id; }
void sx_sched(void) { sched_point(); }
void sx_wait(const void* a) { nt[self_id].stat = WAIT; nt[self_id].addr = (uint64_t)a; int n = pick_away(false); go(n); }
int sx_wake(const void* a, int n) { std::vector<int> w; for (int i = 0; i < nnt; ++i) if (nt[i].stat == WAIT && nt[i].addr == (uint64_t)a) w.push_back(i);
  if (n == 1 && w.size() > 1 && smode) { size_t k = next("wakesel"); nt[w[k < w.size() ? k : 0]].stat = RUN; return 0; }
  int k = 0; for (int x : w) { if (n && k++ >= n) break; nt[x].stat = RUN; } return (int)w.size(); }
void sx_atomic(uint64_t kind) { if (nnt > 1) { sched_point(); note_visible(); if (kind == 1) nt[self_id].spin_site = 0; } }
void sx_atomic_ld(uint64_t site, const void* a, uint64_t v) {
  if (nnt < 2) return; NT& t = nt[self_id]; site ^= (uint64_t)__builtin_return_address(0);
  if (t.spin_site == site && t.spin_addr == (uint64_t)a && t.spin_val == v) { if (++t.spin_n >= (smode ? SPIN : 500u)) { t.spin_n = 0; t.yielded = true; go(pick_away(true)); } }
  else { t.spin_site = site; t.spin_addr = (uint64_t)a; t.spin_val = v; t.spin_n = 0; }
}
void sx_yield(void) { if (nnt > 1) { nt[self_id].yielded = true; if (enabled(false).size() > 1) go(pick_away(true)); } }
void sx_pause(void) { if (nnt > 1) { nt[self_id].yielded = true; go(pick_away(true)); } else { out("VIOLATED", "single thread spins forever"); end(99); } }
int sx_nrunnable(void) { int n = 0; for (int i = 0; i < nnt; ++i) if (i != self_id && nt[i].stat == RUN) ++n; return n; }
void sx_sched_mode(int m, int p) { smode = m; preempt = p; }
void sx_allow_deadlock(int v) { allow_dl = v; }
}
static void on_term() { try { if (std::current_exception()) throw; } catch (const std::exception& e) { fprintf(stderr, "exception: %s\n", e.what()); } catch (...) {} void* bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); out("VIOLATED", "std::terminate called"); end(99); }
static void on_sig(int s) { char b[32]; snprintf(b, sizeof b, "signal %d", s); out("VIOLATED", b); end(99); }
static void on_exit_hook() { }
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r"); if (!f) return 2; char k[8], n[256]; unsigned long long v;
  while (fscanf(f, "%7s %255s %llu", k, n, &v) == 3) { if (k[0] == 'p') params[n] = (int64_t)v; else inputs[n].push_back(v); }
  fclose(f); sem_init(&nt[0].sem, 0, 0);
  std::set_terminate(on_term); signal(SIGABRT, on_sig); signal(SIGALRM, on_sig); alarm(20);
  harness();
  out("END", "done"); end(0);
}
