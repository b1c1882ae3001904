// P15/P16: one cache object under arbitrary operations, kept on the heap or in a temporary file, against a byte vector
#include <src/memcache/object.hpp>
#include <src/config.hpp>
#include <string.h>
#include "../rt/sx.h"
#include "../rt/env.hpp"
using namespace yrmcds; using memcache::object; typedef unsigned char u8;
static const int VM = 200; static u8 D[VM]; static size_t N = 0; static uint32_t FL = 0; static bool isnum = false; static uint64_t num = 0; static bool erase_ = false;
static object* O; static size_t limit;
static int files_open() { int n = 0; for (int i = 0; i < env::MAXFD; ++i) n += env::fds[i].k == env::REGFILE; return n; }
static int is_decimal(const char* p, size_t n, uint64_t v) {
  if (n == 0 || n > 20) return 0; uint64_t x = 0; int bad = 0;
  for (size_t i = 0; i < n; ++i) { u8 g = (u8)((u8)p[i] - '0'); bad |= g > 9; x = x * 10 + g; }
  if (n > 1) bad |= p[0] == '0'; if (n == 20) { bad |= p[0] != '1'; bad |= x < 10000000000000000000ull; }
  return !bad & (x == v);
}
static void secret(const u8* p, size_t n) { if (erase_ && n) sx_secret(p, n); }
static uint64_t last_cas; static bool have_cas = false;
static void check(bool modified) {
  cybozu::dynbuf b((size_t)sx_param("rdcap", 0), erase_); if (sx_param("dirty", 0)) b.append("zzzzz", 5);
  const cybozu::dynbuf& d = O->data(b);
  if (isnum) { sx_assert(is_decimal(d.data(), d.size(), num), "the value is not the decimal result"); N = d.size(); memcpy(D, d.data(), N); isnum = false; secret(D, N); }
  sx_assert(d.size() == N && O->size() == N, "the size differs from the length of the value"); if (d.size() != N) return;
  unsigned x = 0; for (size_t i = 0; i < N; ++i) x |= D[i] ^ (u8)d.data()[i]; sx_assert(x == 0, "the value read back differs from the one the operations define");
  sx_assert(O->flags() == FL, "the flags differ");
  if (have_cas && modified) sx_assert(O->cas_unique() != last_cas, "a modification did not change the unique value"); last_cas = O->cas_unique(); have_cas = true;
  sx_assert(files_open() <= 1, "a descriptor was leaked");
}
static size_t bytes(u8* t) {   // a new value or piece of one
  size_t lens[] = {0, 1, 2, limit - 1, limit, limit + 1, 2 * limit}; int k = (int)sx_param("lens", 7); size_t n = lens[sx_choose(k, "length")]; 
  int smax = (int)sx_param("symn", 6), sym = n > (size_t)smax ? smax : (int)n; sx_sym(t, sym, "b"); if (sx_param("digits", 0)) for (int i = 0; i < sym; ++i) sx_assume(t[i] >= '0' && t[i] <= '9'); else if (erase_) for (int i = 0; i < sym; ++i) sx_assume(t[i] >= 128);   // recognisable in a native replay
  for (size_t i = sym; i < n; ++i) t[i] = (u8)('a' + i % 26); if (sx_param("digits", 0)) for (size_t i = sym; i < n; ++i) t[i] = (u8)('1' + i % 8);
  secret(t, n); return n;
}
static long shortw(int, size_t n) { return n > 1 && sx_choose(2, "short") ? (long)(n / 2) : (long)n; }
static bool numeric(uint64_t* v) { uint64_t x = 0; size_t i = 0; for (; i < N; ++i) { unsigned g = (unsigned)(D[i] - '0') & 0xff; if (g > 9) break; if (x > 1844674407370955161ull || (x == 1844674407370955161ull && g > 5)) return false; x = x * 10 + g; } *v = x; return i > 0; }
extern "C" int harness() {
  erase_ = sx_param("erase", 0); if (erase_) { env::config_text.add("secure_erase = true\n", 20); g_config.load("conf"); sx_assert(g_config.secure_erase(), "secure_erase accepted"); }
  limit = (size_t)sx_param("limit", 3); g_config.set_heap_data_limit(limit); if (sx_param("short", 0)) { env::on_write = shortw; env::on_pread = shortw; }
  bool wide = sx_param("wide", 0); int nops = (int)sx_param("nops", 2), first = (int)sx_param("first", -1); std::vector<memcache::file_flusher>* fl = new std::vector<memcache::file_flusher>;
  { u8 t[VM]; if (sx_param("num", 0) && sx_choose(2, "initial")) { num = wide ? sx_u64("initial") : sx_u8("initial"); isnum = true; FL = 0; O = new object(num, 0); } else { size_t n = bytes(t); FL = sx_u32("flags"); O = new object((const char*)t, n, FL, 0); memcpy(D, t, n); N = n; } check(false); }
  sx_reach("created");
  for (int o = 0; o < nops; ++o) {
    int f = o == 0 && first >= 0 ? first : -1; if (f < 0) { if (sx_param("arith", 0)) { static const int A[] = {3, 4, 0, 1, 2}; f = A[sx_choose(5, "op")]; } else { static const int A[] = {0, 1, 2, 5, 6}; f = A[sx_choose(5, "op")]; } } u8 t[VM]; bool mod = true;
    switch (f) {
    case 0: { size_t n = bytes(t); FL = sx_u32("flags"); O->set((const char*)t, n, FL, 0); memcpy(D, t, n); N = n; break; }
    case 1: { size_t n = bytes(t); O->append((const char*)t, n); memcpy(D + N, t, n); N += n; break; }
    case 2: { size_t n = bytes(t); O->prepend((const char*)t, n); memmove(D + n, D, N); memcpy(D, t, n); N += n; break; }
    case 3: { num = wide ? sx_u64("initial") : sx_u8("initial"); FL = 0; isnum = true; O->set(num, 0); break; }
    case 4: { if (N > limit || (N && (D[0] <= ' ' || D[0] == '-' || D[0] == '+'))) { mod = false; break; } uint64_t v = 0, d = wide ? sx_u64("delta") : sx_u8("delta"), r = 0; bool ok = numeric(&v), up = sx_choose(2, "incr"), threw = false; try { r = up ? O->incr(d) : O->decr(d); } catch (const object::not_a_number&) { threw = true; }
        sx_assert(threw == !ok, "a value is a number exactly when it starts with digits and fits 64 bits"); if (threw) { mod = false; break; } num = up ? v + d : v < d ? 0 : v - d; sx_assert(r == num, "result of the arithmetic"); isnum = true; break; }
    case 5: { object* n = new object(std::move(*O)); delete O; O = n; mod = false; break; }
    case 6: { for (int i = 0; i < 10; ++i) O->survive(*fl); fl->clear(); mod = false; break; }
    }
    check(mod);
  }
  delete O; delete fl; sx_assert(files_open() == 0, "a descriptor outlived its object"); if (nops) sx_reach("end"); sx_ok(); return 0;
}
