// P34: SipHash-2-4 (written from the specification, byte by byte) and byte-order helpers; P23: hash_map against a map
#include <cybozu/siphash.hpp>
#include <cybozu/util.hpp>
#include <cybozu/hash_map.hpp>
#include <string.h>
#include <stdlib.h>
#include "../rt/sx.h"
typedef unsigned char u8; typedef uint64_t u64;
static u64 rotl(u64 x, int b) { return x << b | x >> (64 - b); }
struct sip { u64 v0, v1, v2, v3;
  void round() { v0 += v1; v1 = rotl(v1, 13); v1 ^= v0; v0 = rotl(v0, 32); v2 += v3; v3 = rotl(v3, 16); v3 ^= v2; v0 += v3; v3 = rotl(v3, 21); v3 ^= v0; v2 += v1; v1 = rotl(v1, 17); v1 ^= v2; v2 = rotl(v2, 32); } };
static u64 le(const u8* p, size_t n) { u64 r = 0; for (size_t i = 0; i < n; ++i) r |= (u64)p[i] << (8 * i); return r; }
static u64 ref(const u8* key, const u8* m, size_t n) {
  u64 k0 = le(key, 8), k1 = le(key + 8, 8); sip s = {k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull};
  size_t i = 0; for (; i + 8 <= n; i += 8) { u64 w = le(m + i, 8); s.v3 ^= w; s.round(); s.round(); s.v0 ^= w; }
  u64 w = le(m + i, n - i) | (u64)(n & 255) << 56; s.v3 ^= w; s.round(); s.round(); s.v0 ^= w; s.v2 ^= 0xff; for (int j = 0; j < 4; ++j) s.round();
  return s.v0 ^ s.v1 ^ s.v2 ^ s.v3;
}
static void hashing() {
  size_t lo = (size_t)sx_param("n", 8), hi = (size_t)sx_param("hi", (int64_t)lo), n = lo; if (hi > lo) { n = sx_u8("length"); sx_assume(n >= lo && n <= hi); n = sx_conc(n); } int mode = (int)sx_param("sym", 3); u8 key[16]; for (int i = 0; i < 16; ++i) key[i] = (u8)(i * 17 + 3); if (mode & 1) sx_sym(key, 16, "seed");
  u8* m = (u8*)malloc(n ? n : 1); for (size_t i = 0; i < n; ++i) m[i] = (u8)(i * 7 + 1);
  if (mode & 2) sx_sym(m, n, "key"); if (mode & 4) for (size_t i = n >= 9 ? n - 9 : 0; i < n; ++i) m[i] = sx_u8("key");
  u8* x = n ? m : m + 1;   // no byte of an empty key may be read
  cybozu::siphash24_seed((const char*)key); u64 h = cybozu::siphash24(x, n);
  sx_assert(h == ref(key, x, n), "the hash is not SipHash-2-4 of the key under the seed");
  cybozu::hash_key k((const char*)x, n); sx_assert(k.hash() == h && k.length() == n, "hash_key"); { cybozu::hash_key c(k); sx_assert(c.hash() == h && c.length() == n && c == k, "copied hash_key differs"); cybozu::hash_key d(std::move(c)); sx_assert(d.hash() == h && d.length() == n && (n == 0 || memcmp(d.data(), x, n) == 0), "moved hash_key differs"); }
  free(m); sx_reach("hash");
}
template<typename T> static void order(T v, const char* m) {
  char* p = (char*)malloc(sizeof(T)); cybozu::hton(v, p); unsigned bad = 0; for (size_t i = 0; i < sizeof(T); ++i) bad |= (u8)p[i] ^ (u8)(v >> (8 * (sizeof(T) - 1 - i)));
  sx_assert(bad == 0, m); T w = 0; cybozu::ntoh(p, w); sx_assert(w == v, m); free(p);
  char* q = (char*)malloc(sizeof(T) + 1); sx_sym(q, sizeof(T) + 1, "raw"); cybozu::ntoh(q + 1, w); T e = 0; for (size_t i = 0; i < sizeof(T); ++i) e = (T)(e << 8 | (u8)q[1 + i]); sx_assert(w == e, m); free(q);
}
extern "C" int harness() {
  if (sx_param("what", 0) == 0) hashing();
  else { order<uint16_t>(sx_u16("v"), "16-bit byte order"); order<uint32_t>(sx_u32("v"), "32-bit byte order"); order<uint64_t>(sx_u64("v"), "64-bit byte order"); sx_reach("order"); }
  sx_ok(); return 0;
}
