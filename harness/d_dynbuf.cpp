// P33: cybozu::dynbuf against an array
#include <cybozu/dynbuf.hpp>
#include <string.h>
#include <new>
#include "../rt/sx.h"
using cybozu::dynbuf; typedef unsigned char u8;
struct model { u8 d[128]; size_t n = 0; };
static bool secret_ = false;
static void bytes(u8* t, size_t n) { sx_sym(t, n, "b"); if (secret_ && n) { for (size_t i = 0; i < n; ++i) sx_assume(t[i] >= 128); sx_secret(t, n); } }   // recognisable in a native replay
static dynbuf* B[2]; static model M[2];
static void check(int i) {
  sx_assert(B[i]->size() == M[i].n, "size differs from the byte vector's"); sx_assert(B[i]->empty() == (M[i].n == 0), "empty() differs");
  if (B[i]->size() != M[i].n) return;
  unsigned x = 0; const char* p = B[i]->data(); for (size_t k = 0; k < M[i].n; ++k) x |= (u8)p[k] ^ M[i].d[k]; sx_assert(x == 0, "contents differ from the byte vector's");
}
extern "C" int harness() {
  static const int CAP[] = {0, 1, 3, 8}; int nops = (int)sx_param("nops", 3), kmax = (int)sx_param("k", 4), mask = (int)sx_param("first", -1); bool two = sx_param("two", 0); secret_ = sx_param("secret", 0); uint64_t live = 0; { dynbuf w(3); w.append("abcd", 4); sx_reach("start"); live = sx_heap_live(); }
  for (int i = 0; i < 2; ++i) { int ci = (int)sx_param("cap", -1); if (ci < 0) ci = sx_choose(4, "capacity"); if (i == 1 && !two) ci = 0; B[i] = new dynbuf(CAP[ci], sx_param("erase", 0) != 0); }
  if (sx_param("pre", 0)) { u8 t[8]; int n = sx_choose(4, "initial"); sx_sym(t, n, "b"); B[0]->append((const char*)t, n); memcpy(M[0].d, t, n); M[0].n = n; check(0); }
  for (int o = 0; o < nops; ++o) {
    int f = o == 0 && mask >= 0 ? mask : sx_choose(two ? 7 : 6, "op"); if (!two && f == 5) f = 6; int i = f == 5 || !two ? 0 : o == 0 ? 0 : sx_choose(2, "which"); model& m = M[i]; dynbuf& b = *B[i]; u8 t[16];
    switch (f) {
    case 0: { int n = sx_choose(kmax + 1, "length"); bytes(t, n); b.append((const char*)t, n); for (int k = 0; k < n; ++k) m.d[m.n++] = t[k]; break; }
    case 1: { int n = sx_choose(kmax + 1, "length"); if ((size_t)n > m.n) { bool ex = false; try { b.erase(n); } catch (const std::exception&) { ex = true; } sx_assert(ex, "erasing more than there is must be refused"); break; }
        b.erase(n); memmove(m.d, m.d + n, m.n - n); m.n -= n; break; }
    case 2: { int n = sx_choose(kmax + 1, "length"), u = sx_choose(n + 1, "used"); char* p = b.prepare(n); bytes(t, n); for (int k = 0; k < (secret_ ? u : n); ++k) p[k] = (char)t[k]; b.consume(u); for (int k = 0; k < u; ++k) m.d[m.n++] = t[k]; break; }
    case 3: b.reset(); m.n = 0; break;
    case 4: { if (m.n < 2) break; b.erase(m.n - 1); m.d[0] = m.d[m.n - 1]; m.n = 1; break; }
    case 5: { // swap needs equal default capacities to be meaningful for later resets; contents must be exchanged in any case
        B[0]->swap(*B[1]); model x = M[0]; M[0] = M[1]; M[1] = x; break; }
    case 6: { dynbuf* n = new dynbuf(std::move(b)); delete B[i]; B[i] = n; break; }
    }
    check(0); check(1);
    sx_assert((*B[0] == *B[1]) == (M[0].n == M[1].n && memcmp(M[0].d, M[1].d, M[0].n) == 0), "equality differs");
  }
  delete B[0]; delete B[1]; sx_assert(sx_heap_live() <= live, "memory leak"); if (nops) sx_reach("end"); sx_ok(); return 0;
}
