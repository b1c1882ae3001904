// Object-based symbolic memory.  address = (objid << 32) | offset.
#pragma once
#include "expr.hpp"
#include <string>

struct Val { ER e = nullptr; uint64_t c = 0; const std::vector<Val>* agg = nullptr;
  Val() {} Val(uint64_t x) : c(x) {} };

template <class T> struct RC { // intrusive, non atomic
  T* p = nullptr;
  RC() {}
  explicit RC(T* x) : p(x) { if (p) ++p->rc; }
  RC(const RC& o) : p(o.p) { if (p) ++p->rc; }
  RC(RC&& o) noexcept : p(o.p) { o.p = nullptr; }
  RC& operator=(const RC& o) { if (o.p) ++o.p->rc; rel(); p = o.p; return *this; }
  RC& operator=(RC&& o) noexcept { std::swap(p, o.p); return *this; }
  ~RC() { rel(); }
  void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
  T* operator->() const { return p; }
  explicit operator bool() const { return p != nullptr; }
  T* own() { if (p->rc > 1) { T* n = new T(*p); n->rc = 1; --p->rc; p = n; } return p; }
};

enum { PG = 128 };
struct Page {
  int rc = 0;
  uint64_t init[PG / 64];
  bool hasSym = false;
  uint8_t d[PG];
  std::vector<ER> sym; // empty or PG entries
  Page(bool zero) { memset(init, zero ? 0xff : 0, sizeof init); memset(d, 0, PG); }
  Page(const Page& o) : rc(0), hasSym(o.hasSym), sym(o.sym) { memcpy(init, o.init, sizeof init); memcpy(d, o.d, PG); }
  bool isInit(unsigned i) const { return init[i >> 6] >> (i & 63) & 1; }
  void setInit(unsigned i) { init[i >> 6] |= 1ull << (i & 63); }
  void clrInit(unsigned i) { init[i >> 6] &= ~(1ull << (i & 63)); }
};
enum ObjKind : uint8_t { OK_NONE, OK_GLOBAL, OK_HEAP, OK_STACK, OK_FUNC, OK_TLS };
struct Obj {
  int rc = 0;
  uint64_t size = 0;
  ObjKind kind = OK_NONE;
  bool alive = true, zero = false, ro = false, watched = false;
  uint8_t allocFn = 0; // 1 malloc 2 new 3 new[]
  uint32_t site = 0;
  std::vector<RC<Page>> pages;
  Obj() {}
  Obj(const Obj& o) : rc(0), size(o.size), kind(o.kind), alive(o.alive), zero(o.zero), ro(o.ro), watched(o.watched), allocFn(o.allocFn), site(o.site), pages(o.pages) {}
};
struct Leaf { int rc = 0; RC<Obj> o[64]; };
struct Mid { int rc = 0; RC<Leaf> l[128]; };
struct Root { int rc = 0; RC<Mid> m[256]; };

struct Memory {
  RC<Root> root{new Root};
  uint32_t next = 16;
  std::vector<uint32_t> freeStack; // reusable stack ids
  long liveHeap = 0;

  const Obj* get(uint64_t id) const {
    if (id >= next) return nullptr;
    const Mid* m = root->m[id >> 13].p; if (!m) return nullptr;
    const Leaf* l = m->l[(id >> 6) & 127].p; if (!l) return nullptr;
    return l->o[id & 63].p;
  }
  RC<Obj>& slot(uint64_t id) {
    Root* r = root.own();
    RC<Mid>& m = r->m[id >> 13]; if (!m) m = RC<Mid>(new Mid); Mid* mm = m.own();
    RC<Leaf>& l = mm->l[(id >> 6) & 127]; if (!l) l = RC<Leaf>(new Leaf); Leaf* ll = l.own();
    return ll->o[id & 63];
  }
  Obj* getw(uint64_t id) { return slot(id).own(); }
  uint32_t alloc(uint64_t size, ObjKind k, bool zero) {
    uint32_t id;
    if (k == OK_STACK && !freeStack.empty()) { id = freeStack.back(); freeStack.pop_back(); }
    else { id = next++; if (id >= (1u << 21)) { fprintf(stderr, "too many objects\n"); exit(3); } }
    Obj* o = new Obj; o->size = size; o->kind = k; o->zero = zero;
    slot(id) = RC<Obj>(o);
    if (k == OK_HEAP) ++liveHeap;
    return id;
  }
  void freeStackObj(uint32_t id) { slot(id) = RC<Obj>(); freeStack.push_back(id); }
  void kill(uint32_t id) { Obj* o = getw(id); o->alive = false; o->pages.clear(); o->pages.shrink_to_fit(); if (o->kind == OK_HEAP) --liveHeap; }
  static Page* pagew(Obj* o, uint64_t pi) {
    if (o->pages.size() <= pi) o->pages.resize(std::min<uint64_t>(pi + 1 + pi / 2, (o->size + PG - 1) / PG));
    RC<Page>& p = o->pages[pi];
    if (!p) { p = RC<Page>(new Page(o->zero)); return p.p; }
    return p.own();
  }
  static const Page* pager(const Obj* o, uint64_t pi) { return pi < o->pages.size() ? o->pages[pi].p : nullptr; }
};

// byte accessors: returns true if concrete-initialised, else sets e (nullptr => uninit)
inline bool getByte(const Obj* o, uint64_t off, uint8_t& c, ER& e) {
  const Page* p = Memory::pager(o, off / PG); unsigned i = off % PG;
  if (!p) { e = nullptr; if (o->zero) { c = 0; return true; } return false; }
  if (p->hasSym && p->sym[i]) { e = p->sym[i]; return false; }
  e = nullptr;
  if (!p->isInit(i)) return false;
  c = p->d[i]; return true;
}
inline void putByte(Obj* o, uint64_t off, uint8_t c) {
  Page* p = Memory::pagew(o, off / PG); unsigned i = off % PG;
  p->d[i] = c; p->setInit(i); if (p->hasSym) p->sym[i] = nullptr;
}
inline void putSym(Obj* o, uint64_t off, ER e) {
  if (e->op == E_CONST) { putByte(o, off, (uint8_t)e->c); return; }
  Page* p = Memory::pagew(o, off / PG); unsigned i = off % PG;
  if (!p->hasSym) { p->hasSym = true; p->sym.assign(PG, nullptr); }
  p->sym[i] = e; p->setInit(i);
}
inline void putUninit(Obj* o, uint64_t off) {
  Page* p = Memory::pagew(o, off / PG); unsigned i = off % PG;
  p->clrInit(i); if (p->hasSym) p->sym[i] = nullptr;
}
