// std::ostringstream inside the model: the few out-of-line members that libstdc++ leaves to its library, on the
// library's own object layout (so that the parts compiled inline, such as str() and setw, work unchanged).
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "sx.h"
void* operator new(size_t); void operator delete(void*) noexcept;
static long vt_[4] = {112, 0, 0, 0};   // vt_[0]: offset of the virtual base std::ios, read at vptr[-24]
static const long VT = 3;
struct lay {   // std::ostringstream
  long* vptr; void* sbvptr; char *ib, *ic, *ie, *ob, *oc, *oe; uint64_t locale; int mode; int pad; char* sp; size_t sn; char sl[16];
};
struct ios { void* vptr; long prec, width; unsigned flags; };   // at +112
static ios* iosof(lay* s) { return (ios*)((char*)s + 112); }
static bool mine(void* p) { return p && *(long**)p == vt_ + VT; }
static void add(lay* s, const char* d, size_t n) {
  size_t have = (size_t)(s->oc - s->ob), cap = (size_t)(s->oe - s->ob);
  if (have + n > cap) { size_t c = cap * 2 + n + 64; char* b = (char*)operator new(c + 1); for (size_t i = 0; i < have; ++i) b[i] = s->ob[i]; if (s->sp != s->sl) operator delete(s->sp); s->sp = b; *(size_t*)s->sl = c; s->ob = b; s->oc = b + have; s->oe = b + c; }
  for (size_t i = 0; i < n; ++i) s->oc[i] = d[i]; s->oc += n;
}
static void padded(void* p, const char* d, size_t n) {
  if (!mine(p)) return; lay* s = (lay*)p; ios* i = iosof(s); char f = ((char*)i)[224];
  long w = i->width; i->width = 0; bool left = (i->flags & 0xb0) == 0x20; if (!left) for (long k = (long)n; k < w; ++k) add(s, &f, 1);
  add(s, d, n); if (left) for (long k = (long)n; k < w; ++k) add(s, &f, 1);
}
static void* num(void* p, uint64_t v, bool neg) {
  if (!mine(p)) return p; char t[24]; int k = 24; unsigned base = (iosof((lay*)p)->flags & 0x4a) == 8 ? 16 : 10;
  do { unsigned g = (unsigned)(v % base); t[--k] = (char)(g < 10 ? '0' + g : 'a' + g - 10); v /= base; } while (v); if (neg) t[--k] = '-';
  padded(p, t + k, 24 - k); return p;
}
extern "C" {
void _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev(void* self) {
  lay* s = (lay*)self; s->vptr = vt_ + VT; s->sbvptr = 0; s->ib = s->ic = s->ie = s->ob = s->oc = s->oe = 0; s->locale = 0; s->mode = 16; s->sp = s->sl; s->sn = 0; s->sl[0] = 0;
  ios* i = iosof(s); i->vptr = 0; i->prec = 6; i->width = 0; i->flags = 0x1002; ((char*)i)[224] = ' '; ((char*)i)[225] = 1;
}
void _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev(void* self) { if (!mine(self)) return; lay* s = (lay*)self; if (s->sp != s->sl) operator delete(s->sp); s->vptr = 0; }
void _ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv(void* ret, void* self) {
  struct st { char* p; size_t n; char l[16]; }; st* r = (st*)ret; lay* s = (lay*)self; size_t n = mine(self) ? (size_t)(s->oc - s->ob) : 0; r->p = r->l;
  if (n > 15) { r->p = (char*)operator new(n + 1); *(size_t*)r->l = n; } for (size_t i = 0; i < n; ++i) r->p[i] = s->ob[i]; r->p[n] = 0; r->n = n;
}
void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* p, const char* d, long n) { padded(p, d, (size_t)n); return p; }
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void* p, const char* d) { if (mine(p)) padded(p, d, strlen(d)); return p; }
void* _ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE(void* p, const void* str) { if (mine(p)) padded(p, *(const char* const*)str, ((const size_t*)str)[1]); return p; }
void* _ZNSo3putEc(void* p, char c) { if (mine(p)) add((lay*)p, &c, 1); return p; }
void* _ZNSo9_M_insertIlEERSoT_(void* p, long v) { return num(p, v < 0 ? 0 - (uint64_t)v : (uint64_t)v, v < 0); }
void* _ZNSo9_M_insertImEERSoT_(void* p, unsigned long v) { return num(p, v, false); }
void* _ZNSo9_M_insertIxEERSoT_(void* p, long long v) { return num(p, v < 0 ? 0 - (uint64_t)v : (uint64_t)v, v < 0); }
void* _ZNSo9_M_insertIyEERSoT_(void* p, unsigned long long v) { return num(p, v, false); }
void* _ZNSo9_M_insertIbEERSoT_(void* p, bool v) { return num(p, v, false); }
void* _ZNSolsEl(void* p, long v) { return num(p, v < 0 ? 0 - (uint64_t)v : (uint64_t)v, v < 0); }
void* _ZNSolsEm(void* p, unsigned long v) { return num(p, v, false); }
void* _ZNSolsEx(void* p, long long v) { return num(p, v < 0 ? 0 - (uint64_t)v : (uint64_t)v, v < 0); }
void* _ZNSolsEy(void* p, unsigned long long v) { return num(p, v, false); }
void* _ZNSolsEj(void* p, unsigned v) { return num(p, v, false); }
void* _ZNSolsEt(void* p, unsigned short v) { return num(p, v, false); }
void* _ZNSolsEb(void* p, bool v) { return num(p, v, false); }
void* _ZNSolsEPFRSt8ios_baseS0_E(void* p, void* (*f)(void*)) { if (mine(p)) f(iosof((lay*)p)); return p; }
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(void* p, char c) { padded(p, &c, 1); return p; }
void* _ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_SetfillIS3_E(void* p, char c) { if (mine(p)) ((char*)iosof((lay*)p))[224] = c; return p; }
void* _ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw(void* p, int n) { if (mine(p)) iosof((lay*)p)->width = n; return p; }
void* _ZNSolsEi(void* p, int v) { return num(p, v < 0 ? 0 - (uint64_t)(long)v : (uint64_t)v, v < 0); }
void* _ZNSolsEs(void* p, short v) { return num(p, v < 0 ? 0 - (uint64_t)(long)v : (uint64_t)v, v < 0); }
}
