// P23: cybozu::hash_map against a list of pairs; keys are symbolic, the hash is any function of the key (one is substituted)
#include <cybozu/hash_map.hpp>
#include <string.h>
#include <stdlib.h>
#include "../rt/sx.h"
typedef unsigned char u8;
#ifndef SX_NATIVE_HASH
extern "C" uint64_t sx_override__ZN6cybozu9siphash24EPKvm(const void* p, size_t n) { if (sx_param("buckets", 1) > 1) return sx_conc(((const u8*)p)[0] & 3); uint64_t h = n; for (size_t i = 0; i < n; ++i) h = h * 4 + ((const u8*)p)[i]; return h; }
#endif
static int live = 0;
struct val { int* p; u8 v; explicit val(u8 x) : p((int*)malloc(4)), v(x) { *p = 77; ++live; } val(val&& o) noexcept : p(o.p), v(o.v) { o.p = nullptr; ++live; } val(const val&) = delete; ~val() { free(p); --live; } };
typedef cybozu::hash_map<val> map_t; using cybozu::hash_key;
struct ent { u8 k[2]; int n; u8 v; bool on; }; static ent E[8]; static int ne = 0;
static bool eq(const ent& e, const u8* k, int n) { return e.on && e.n == n && memcmp(e.k, k, n) == 0; }
static ent* find(const u8* k, int n) { for (int i = 0; i < ne; ++i) if (eq(E[i], k, n)) return &E[i]; return nullptr; }
static int count() { int c = 0; for (int i = 0; i < ne; ++i) c += E[i].on; return c; }
static map_t* M;
static void insert_model(const u8* k, int n, u8 v) { ent& e = E[ne++]; memcpy(e.k, k, 2); e.n = n; e.v = v; e.on = true; }
static bool same(const hash_key& k, const u8* p, int n) { return k.length() == (size_t)n && memcmp(k.data(), p, n) == 0; }
static void scan() {
  int seen[8] = {0}, extra = 0;
  M->foreach([&](const hash_key& k, val& o) { bool f = false; for (int i = 0; i < ne; ++i) if (E[i].on && same(k, E[i].k, E[i].n)) { f = true; ++seen[i]; sx_assert(o.v == E[i].v && *o.p == 77, "value of a key differs"); } if (!f) ++extra; });
  sx_assert(extra == 0, "a key that is not in the map was visited"); for (int i = 0; i < ne; ++i) sx_assert(seen[i] == (E[i].on ? 1 : 0), "a key is missing or visited twice");
  sx_assert(live == count(), "objects were leaked or destroyed early");
}
static void key(u8* k, int& n) { n = 1 + sx_choose((int)sx_param("klens", 2), "key length"); sx_sym(k, n, "key"); if (sx_param("spread", 0) == 0) for (int i = 0; i < n; ++i) sx_assume(k[i] < 4); }
extern "C" int harness() {
  M = new map_t((unsigned)sx_param("buckets", 1)); int pre = (int)sx_param("pre", 2), nops = (int)sx_param("nops", 2), first = (int)sx_param("first", -1);
  sx_assert(M->bucket_count() >= (size_t)sx_param("buckets", 1), "fewer buckets than requested");
  for (int i = 0; i < pre; ++i) { u8 k[2] = {0, 0}; int n; key(k, n); for (int j = 0; j < i; ++j) sx_assume(!eq(E[j], k, n)); insert_model(k, n, (u8)(10 + i)); u8 v = (u8)(10 + i); bool r = M->apply(hash_key((const char*)k, n), nullptr, [v](const hash_key&) { return val(v); }); sx_assert(r, "insertion failed"); }
  scan(); sx_reach("filled");
  for (int o = 0; o < nops; ++o) {
    int f = o == 0 && first >= 0 ? first : sx_choose(8, "op"); u8 k[2] = {0, 0}; int n; if (f < 6) key(k, n); else n = 0; ent* e = f < 6 ? find(k, n) : nullptr; hash_key hk((const char*)k, n); int calls = 0, made = 0, ret = 1; bool r;
    auto chk = [&](const hash_key& q, val& ob) { ++calls; sx_assert(same(q, k, n), "called with another key"); sx_assert(e && ob.v == e->v && *ob.p == 77, "called with another object"); };
    switch (f) {
    case 0: { u8 nv = (u8)(40 + o); ret = sx_choose(2, "result"); r = M->apply(hk, [&](const hash_key& q, val& ob) { chk(q, ob); ob.v = nv; return ret != 0; }, [&](const hash_key& q) { ++made; sx_assert(same(q, k, n), "created for another key"); return val(nv); });
      sx_assert(calls == (e ? 1 : 0) && made == (e ? 0 : 1), "apply: an existing object is handled, a missing one created, exactly once"); sx_assert(r == (e ? ret != 0 : true), "apply: result"); if (e) e->v = nv; else insert_model(k, n, nv); break; }
    case 1: { u8 nv = (u8)(40 + o); r = M->apply(hk, [&](const hash_key& q, val& ob) { chk(q, ob); ob.v = nv; return true; }, nullptr); sx_assert(r == (e != nullptr) && calls == (e ? 1 : 0), "apply without creator"); if (e) e->v = nv; break; }
    case 2: { r = M->apply(hk, nullptr, [&](const hash_key&) { ++made; return val(50); }); sx_assert(r == (e == nullptr) && made == (e ? 0 : 1), "apply without handler"); if (!e) insert_model(k, n, 50); break; }
    case 3: { int cb = sx_choose(2, "callback"); r = M->remove(hk, cb ? std::function<void(const hash_key&)>([&](const hash_key& q) { ++calls; sx_assert(same(q, k, n), "callback with another key"); }) : nullptr); sx_assert(r == (e != nullptr) && calls == (cb && e ? 1 : 0), "remove"); if (e) e->on = false; break; }
    case 4: case 5: { ret = f == 4; r = M->remove_if(hk, [&](const hash_key& q, val& ob) { chk(q, ob); return ret != 0; }); sx_assert(r == (e != nullptr) && calls == (e ? 1 : 0), "remove_if"); if (e && ret) e->on = false; break; }
    case 6: { u8 bits = sx_u8("gc"); int vis = 0; for (auto it = M->begin(); it != M->end(); ++it) it->gc([&](const hash_key& q, val& ob) { for (int i = 0; i < ne; ++i) if (E[i].on && same(q, E[i].k, E[i].n)) { ++vis; bool d = bits >> i & 1; sx_assert(ob.v == E[i].v, "gc: object"); if (d) { E[i].on = false; vis |= 256; --vis; } return d; } sx_fail("gc: unknown key"); return false; }); sx_assert((vis & 255) == count(), "gc: an object was not visited exactly once"); break; }
    case 7: { // a copy or move of a key is the same key
      key(k, n); e = find(k, n); hash_key c(hash_key(std::vector<char>((char*)k, (char*)k + n))); hash_key d(c); hash_key m(std::move(c)); r = M->apply(d, [&](const hash_key& q, val& ob) { chk(q, ob); return true; }, nullptr); sx_assert(r == (e != nullptr), "copied key"); r = M->apply(m, [&](const hash_key&, val&) { return true; }, nullptr); sx_assert(r == (e != nullptr), "moved key"); sx_assert(d == m && m.length() == (size_t)n, "equality of keys"); break; }
    }
    scan();
  }
  delete M; sx_assert(live == 0, "objects leaked by the destructor"); sx_reach("end"); sx_ok(); return 0;
}
