// pthread and std::thread primitives on top of the scheduler interface of sx.h.
// The same code runs under symx (env_X replaces X) and in native replays.
#include <sstream>
#include <string>
#include <memory>
#define private public
#include <thread>
#undef private
#include <mutex>
#include <condition_variable>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include "sx.h"
struct M { int lock, owner; };          // overlay of pthread_mutex_t (zero initialised == unlocked)
struct RW { int readers, writers; };    // overlay of pthread_rwlock_t
#define MX(m) ((M*)(m))
#define RWX(l) ((RW*)(l))
static bool rt_done[256];
extern "C" {
int env_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { MX(m)->lock = 0; MX(m)->owner = 0; return 0; }
int env_pthread_mutex_destroy(pthread_mutex_t* m) { if (MX(m)->lock) sx_fail("mutex destroyed while locked"); return 0; }
int env_pthread_mutex_lock(pthread_mutex_t* m) {
  sx_sched();
  if (MX(m)->lock && MX(m)->owner == sx_thread_self()) sx_fail("mutex locked again by its owner (self deadlock)");
  while (MX(m)->lock) sx_wait(m);
  MX(m)->lock = 1; MX(m)->owner = sx_thread_self(); return 0;
}
int env_pthread_mutex_trylock(pthread_mutex_t* m) { sx_sched(); if (MX(m)->lock) return EBUSY; MX(m)->lock = 1; MX(m)->owner = sx_thread_self(); return 0; }
int env_pthread_mutex_unlock(pthread_mutex_t* m) {
  sx_sched();
  if (!MX(m)->lock || MX(m)->owner != sx_thread_self()) sx_fail("mutex unlocked by a thread that does not hold it");
  MX(m)->lock = 0; MX(m)->owner = 0; sx_wake(m, 0); return 0;
}
int env_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { RWX(l)->readers = RWX(l)->writers = 0; return 0; }
int env_pthread_rwlock_destroy(pthread_rwlock_t* l) { if (RWX(l)->readers || RWX(l)->writers) sx_fail("rwlock destroyed while locked"); return 0; }
int env_pthread_rwlock_rdlock(pthread_rwlock_t* l) { sx_sched(); while (RWX(l)->writers) sx_wait(l); RWX(l)->readers++; return 0; }
int env_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { sx_sched(); if (RWX(l)->writers) return EBUSY; RWX(l)->readers++; return 0; }
int env_pthread_rwlock_wrlock(pthread_rwlock_t* l) { sx_sched(); while (RWX(l)->writers || RWX(l)->readers) sx_wait(l); RWX(l)->writers = 1; return 0; }
int env_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { sx_sched(); if (RWX(l)->writers || RWX(l)->readers) return EBUSY; RWX(l)->writers = 1; return 0; }
int env_pthread_rwlock_unlock(pthread_rwlock_t* l) { sx_sched(); if (RWX(l)->writers) RWX(l)->writers = 0; else if (RWX(l)->readers) RWX(l)->readers--; else sx_fail("rwlock unlocked while not held"); sx_wake(l, 0); return 0; }
pthread_t env_pthread_self(void) { return (pthread_t)(unsigned long)(sx_thread_self() + 1); }
int env_pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }
int env_sched_yield(void) { sx_yield(); return 0; }
static void rt_tramp(void* p) { std::thread::_State* st = (std::thread::_State*)p; st->_M_run(); delete st; rt_done[sx_thread_self()] = true; }
void env_thread_start(std::thread* self, std::thread::_State** st, void (*)()) asm("env__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
void env_thread_start(std::thread* self, std::thread::_State** st, void (*)()) { std::thread::_State* s = *st; *st = nullptr; int t = sx_thread_create(rt_tramp, s); *(unsigned long*)self = (unsigned long)(t + 1); sx_sched(); }
void env_thread_join(std::thread* self) asm("env__ZNSt6thread4joinEv");
void env_thread_join(std::thread* self) { int t = (int)(*(unsigned long*)self) - 1; if (t < 0) { sx_fail("join of a non-joinable thread"); return; } while (!rt_done[t]) sx_wait((void*)(0x7000000000ull + (unsigned)t)); *(unsigned long*)self = 0; }
void env_thread_detach(std::thread* self) asm("env__ZNSt6thread6detachEv");
void env_thread_detach(std::thread* self) { *(unsigned long*)self = 0; }
unsigned env_thread_hw(void) asm("env__ZNSt6thread20hardware_concurrencyEv");
unsigned env_thread_hw(void) { return 4; }
int env_pthread_cond_destroy(pthread_cond_t*) { return 0; }
int env_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { *(int*)c = 0; return 0; }
void env_cv_one(void* c) asm("env__ZNSt18condition_variable10notify_oneEv");
void env_cv_one(void* c) { sx_sched(); sx_wake(c, 1); }
void env_cv_all(void* c) asm("env__ZNSt18condition_variable10notify_allEv");
void env_cv_all(void* c) { sx_sched(); sx_wake(c, 0); }
void env_cv_wait(void* c, std::unique_lock<std::mutex>* l) asm("env__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE");
void env_cv_wait(void* c, std::unique_lock<std::mutex>* l) {
  pthread_mutex_t* m = (pthread_mutex_t*)l->mutex()->native_handle();
  sx_sched();
  if (!MX(m)->lock || MX(m)->owner != sx_thread_self()) sx_fail("condition wait without holding the mutex");
  MX(m)->lock = 0; MX(m)->owner = 0; sx_wake(m, 0);
  sx_wait(c);
  while (MX(m)->lock) sx_wait(m);
  MX(m)->lock = 1; MX(m)->owner = sx_thread_self();
}
}
