// Interface between harnesses and the symbolic executor (symx) or the native replay runtime.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sx_sym(void* p, size_t n, const char* name);   // make n bytes symbolic
uint64_t sx_u64(const char* name); uint32_t sx_u32(const char* name); uint16_t sx_u16(const char* name); uint8_t sx_u8(const char* name);
void sx_assume(int c);
void sx_assert(int c, const char* msg);
void sx_fail(const char* msg);
void sx_reach(const char* label);
uint64_t sx_conc(uint64_t v);                        // fork until v is concrete
int sx_choose(int n, const char* name);              // symbolic choice 0..n-1, forked
void sx_stop(void); void sx_ok(void);
uint64_t sx_heap_live(void); int sx_alive(const void* p);
void sx_secret(const void* p, size_t n);
int64_t sx_param(const char* name, int64_t def);
uint64_t sx_peek(uint64_t v);                        // one possible value, without constraining v
int sx_is_sym(uint64_t v); int sx_valid(int c);
void sx_dbg(const char* msg, uint64_t v);
uint64_t sx_ite(int c, uint64_t a, uint64_t b);
int sx_thread_create(void (*fn)(void*), void* arg); int sx_thread_self(void);
void sx_sched(void); void sx_wait(const void* addr); int sx_wake(const void* addr, int n); void sx_yield(void); int sx_nrunnable(void);
void sx_sched_mode(int mode, int preemptions); void sx_allow_deadlock(int v);
void sx_pause(void);
#define SX_IDLE ((const void*)0x1D1E)   // sx_wait(SX_IDLE): until no other thread can run
#ifdef __cplusplus
}
#endif
