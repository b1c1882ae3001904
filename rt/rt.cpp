// C/C++ runtime used in place of libc/libstdc++ when the code runs inside symx.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <sstream>
#define private public
#include <thread>
#undef private
#include <string>
#include <stdexcept>
#include <system_error>
#include <functional>
#include <unordered_map>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <random>
#include <cstdarg>
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <dlfcn.h>
#include "sx.h"

extern "C" {
static thread_local int tl_errno;
int* __errno_location(void) noexcept { return &tl_errno; }

void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return nullptr; }
void* rawmemchr(const void* p, int c) { const unsigned char* s = (const unsigned char*)p; while (*s != (unsigned char)c) ++s; return (void*)s; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); while (n-- && *s) *e++ = *s++; *e = 0; return d; }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : nullptr; }
int memcmp(const void*, const void*, size_t) noexcept;
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { if (!nn) return (void*)h; for (size_t i = 0; i + nn <= hn; ++i) if (memcmp((const char*)h + i, n, nn) == 0) return (void*)((const char*)h + i); return nullptr; }
char* strstr(const char* h, const char* n) { return (char*)memmem(h, strlen(h), n, strlen(n)); }
static int rt_low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && rt_low((unsigned char)*a) == rt_low((unsigned char)*b)) ++a, ++b; return rt_low((unsigned char)*a) - rt_low((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { int x = rt_low((unsigned char)*a), y = rt_low((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return rt_low(c) >= 'a' && rt_low(c) <= 'z'; }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isxdigit(int c) { return isdigit(c) || (rt_low(c) >= 'a' && rt_low(c) <= 'f'); }
int tolower(int c) { return rt_low(c); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static bool rt_space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned long long rt_strtou(const char* s, char** end, int base, bool isSigned) {
  const char* p = s; while (rt_space(*p)) ++p;
  bool neg = false; if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  unsigned long long v = 0; bool any = false, ovf = false;
  if (base != 10) {
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { base = 16; p += 2; } else if (base == 0) base = p[0] == '0' ? 8 : 10;
    for (;; ++p) { unsigned d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99; if (d >= (unsigned)base) break; if (v > (~0ull - d) / base) ovf = true; v = v * base + d; any = true; }
  } else
  while (*p >= '0' && *p <= '9') { unsigned d = (unsigned char)*p - '0';
    if (!ovf) { if (v > 1844674407370955161ull || (v == 1844674407370955161ull && d > 5)) ovf = true; else v = v * 10 + d; }
    any = true; ++p; }
  if (end) *end = (char*)(any ? p : s);
  if (isSigned) {
    if (ovf || (!neg && v > 0x7fffffffffffffffull) || (neg && v > 0x8000000000000000ull)) { errno = ERANGE; return neg ? 0x8000000000000000ull : 0x7fffffffffffffffull; }
    return neg ? -v : v;
  }
  if (ovf) { errno = ERANGE; return ~0ull; }
  return neg ? -v : v;
}
unsigned long long strtoull(const char* s, char** e, int b) { return rt_strtou(s, e, b, false); }
unsigned long strtoul(const char* s, char** e, int b) { return rt_strtou(s, e, b, false); }
long strtol(const char* s, char** e, int b) { return (long)rt_strtou(s, e, b, true); }
long long strtoll(const char* s, char** e, int b) { return (long)rt_strtou(s, e, b, true); }

// decimal rendering: v is constrained to equal the digits (exact, not an approximation)
int sxrt_udec(char* out, unsigned long long v) {
  if (!sx_is_sym(v)) { char t[24]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); for (int i = 0; i < n; ++i) out[i] = t[n - 1 - i]; return n; }
  static struct { unsigned long long v; int n; char d[24]; } memo[8]; static unsigned nmemo = 0;
  for (unsigned i = 0; i < 8 && i < nmemo; ++i) { int same = memo[i].v == v; if (!sx_is_sym(same) && same) { for (int j = 0; j < memo[i].n; ++j) out[j] = memo[i].d[j]; return memo[i].n; } }
  int n = 1; unsigned long long lim = 10;
  while (n < 20 && v >= lim) { ++n; lim *= 10; }
  // leading digits that have only one possible value are left concrete
  unsigned long long r = v, p = n == 20 ? 10000000000000000000ull : lim / 10; int i = 0;
  for (; i < n; ++i) { unsigned long long d = sx_peek(r) / p; if (d > 9 || !sx_valid(r >= d * p && r - d * p < p)) break; out[i] = (char)('0' + d); r -= d * p; p /= 10; }
  unsigned long long acc = 0; int i0 = i;
  for (; i < n; ++i) { uint8_t d = sx_u8("__digit"); sx_assume(d <= 9); if (i == 0 && n > 1) sx_assume(d != 0); if (i == 0 && n == 20) sx_assume(d == 1); out[i] = '0' + d; acc = acc * 10 + d; }
  if (i0 < n) sx_assume(acc == r);
  auto& m = memo[nmemo++ % 8]; m.v = v; m.n = n; for (int j = 0; j < n; ++j) m.d[j] = out[j];
  return n;
}
int vsnprintf(char* buf, size_t n, const char* fmt, va_list) { (void)fmt; if (n) buf[0] = 0; sx_fail("vsnprintf not modelled"); return 0; }
// snprintf is modelled for the conversions yrmcds uses: %u %llu %lu %d and literal text.
// Arguments arrive through sxrt_vararg (the engine passes every variadic argument as a 64-bit slot).
uint64_t sxrt_vararg(int i);
int snprintf(char* buf, size_t n, const char* fmt, ...) {
  size_t o = 0; int ai = 0; char t[24];
  for (const char* p = fmt; *p; ++p) {
    if (*p != '%') { if (o + 1 < n) buf[o] = *p; ++o; continue; }
    ++p; bool l = false; while (*p == 'l' || *p == 'z') { l = true; ++p; }
    if (*p == '%') { if (o + 1 < n) buf[o] = '%'; ++o; continue; }
    uint64_t v = sxrt_vararg(ai++);
    if (*p == 'u') { if (!l) v = (uint32_t)v; }
    else if (*p == 'd') { int64_t s = l ? (int64_t)v : (int64_t)(int32_t)v; if (s < 0) { if (o + 1 < n) buf[o] = '-'; ++o; s = -s; } v = s; }
    else sx_fail("snprintf conversion not modelled");
    int k = sxrt_udec(t, v); for (int i = 0; i < k; ++i) { if (o + 1 < n) buf[o] = t[i]; ++o; }
  }
  if (n) buf[o < n ? o : n - 1] = 0;
  return (int)o;
}

// ---- exceptions' vtable entries (std exception classes whose vtables live in libstdc++)
void sx_vt_dtor(void*) {}
const char* sx_vt_what(const void*) { return "exception"; }
char* __cxa_demangle(const char*, char*, size_t*, int* st) { if (st) *st = -1; return nullptr; }
int backtrace(void**, int) { return 0; }
void backtrace_symbols_fd(void* const*, int, int) {}
char* ctime_r(const time_t*, char* b) { b[0] = 0; return b; }

} // extern C

namespace std {
thread::_State::~_State() = default;
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
// ---- errors
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* s = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h ^ s[i]) * 1099511628211ull; return h; }
inline namespace _V2 {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
struct rt_cat : error_category { const char* name() const noexcept override; string message(int) const override { return string(); } };
const char* rt_cat::name() const noexcept { return "system"; }
static rt_cat the_cat;
const error_category& system_category() noexcept { return the_cat; }
const error_category& generic_category() noexcept { return the_cat; }
}
namespace __detail {
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697, 1447153, 2938679};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (unsigned long p : primes) if (p >= n) { _M_next_resize = p; return p; }
  sx_fail("hash table too large for the model"); return 0; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t want = ne + ni; if (_M_next_resize == 0 && want < 11) want = 11; if (want >= nb) { size_t g = nb * 2; return {true, _M_next_bkt(want + 1 > g ? want + 1 : g)}; } _M_next_resize = nb; return {false, 0}; }
  return {false, 0}; }
}
random_device::result_type random_device::_M_getval() { return (unsigned)sx_param("random", 0x12345678); }
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
} // namespace std
template class std::allocator<char>;
template class std::basic_string<char>;
template std::string std::operator+(const char*, const std::string&);
template std::string std::operator+(const std::string&, const std::string&);
