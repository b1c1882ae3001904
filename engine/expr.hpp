// Hash-consed bit-vector expressions (width 1..64) with local simplification,
// concrete evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <z3.h>

enum EOp : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_NOT, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE
};

struct Expr {
  EOp op; uint8_t w; uint8_t off; // off: extract offset
  bool ubDone = false;
  uint32_t id; uint32_t varid;
  uint64_t c;
  const Expr *a, *b, *d;
  mutable uint64_t ubv = 0;
  mutable bool ubOk = false;
  mutable Z3_ast z = nullptr;
  const std::vector<uint32_t>* vars; // sorted variable ids
  mutable uint64_t evEpoch = 0, evVal = 0;
};
typedef const Expr* ER;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx64(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; };

class ExprPool {
  struct Key { EOp op; uint8_t w, off; uint64_t c; ER a, b, d; };
  struct H { size_t operator()(const Expr* e) const {
      uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull ^ ((uint64_t)e->w << 8) ^ ((uint64_t)e->off << 16);
      auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
      mix(e->c); mix(e->varid);
      mix(e->a ? e->a->id + 1 : 0); mix(e->b ? e->b->id + 1 : 0); mix(e->d ? e->d->id + 1 : 0);
      return h; } };
  struct Q { bool operator()(const Expr* x, const Expr* y) const {
      return x->op == y->op && x->w == y->w && x->off == y->off && x->c == y->c && x->varid == y->varid && x->a == y->a && x->b == y->b && x->d == y->d; } };
  std::unordered_set<Expr*, H, Q> tab;
  std::vector<char*> blocks; size_t used = 0, cap = 0;
  static const std::vector<uint32_t>* emptyVars() { static std::vector<uint32_t> e; return &e; }
  struct VH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u ^ x; return h; } };
  std::unordered_map<std::vector<uint32_t>, const std::vector<uint32_t>*, VH> varsets;
  const std::vector<uint32_t>* internVars(std::vector<uint32_t>&& v) {
    if (v.empty()) return emptyVars();
    auto it = varsets.find(v); if (it != varsets.end()) return it->second;
    auto* p = new std::vector<uint32_t>(v); varsets.emplace(*p, p); return p;
  }
  const std::vector<uint32_t>* unionVars(const std::vector<uint32_t>* x, const std::vector<uint32_t>* y) {
    if (x == y || y->empty()) return x; if (x->empty()) return y;
    if (std::includes(x->begin(), x->end(), y->begin(), y->end())) return x;
    if (std::includes(y->begin(), y->end(), x->begin(), x->end())) return y;
    std::vector<uint32_t> r; std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
    return internVars(std::move(r));
  }
public:
  uint32_t nextId = 0;
  std::vector<VarInfo> varInfo;
  std::vector<ER> varExprs;
  Z3_context z3 = nullptr;

  ER intern(EOp op, unsigned w, uint64_t c, ER a = nullptr, ER b = nullptr, ER d = nullptr, unsigned off = 0, uint32_t varid = 0) {
    Expr t; t.op = op; t.w = w; t.off = off; t.c = c; t.a = a; t.b = b; t.d = d; t.varid = varid; t.id = 0; t.vars = nullptr;
    auto it = tab.find(&t);
    if (it != tab.end()) return *it;
    if (used + sizeof(Expr) > cap) { cap = 1 << 20; blocks.push_back((char*)malloc(cap)); used = 0; }
    Expr* e = new (blocks.back() + used) Expr(t); used += sizeof(Expr);
    e->id = nextId++;
    const std::vector<uint32_t>* v = emptyVars();
    if (op == E_VAR) v = internVars({varid});
    if (a) v = unionVars(v, a->vars);
    if (b) v = unionVars(v, b->vars);
    if (d) v = unionVars(v, d->vars);
    e->vars = v;
    tab.insert(e);
    return e;
  }
  size_t size() const { return tab.size(); }

  ER K(uint64_t c, unsigned w) { return intern(E_CONST, w, c & maskw(w)); }
  ER T() { return K(1, 1); }
  ER F() { return K(0, 1); }
  ER var(const std::string& n, unsigned w) {
    uint32_t id = varInfo.size(); varInfo.push_back({n, w});
    ER e = intern(E_VAR, w, 0, nullptr, nullptr, nullptr, 0, id);
    varExprs.push_back(e);
    return e;
  }
  static bool isK(ER e) { return e->op == E_CONST; }

  // unsigned upper bound (cheap)
  uint64_t ub(ER e) {
    if (e->ubOk) return e->ubv;
    uint64_t m = maskw(e->w), r = m;
    switch (e->op) {
    case E_CONST: r = e->c; break;
    case E_ZEXT: r = ub(e->a); break;
    case E_AND: r = std::min(ub(e->a), ub(e->b)); break;
    case E_OR: case E_XOR: { uint64_t x = ub(e->a) | ub(e->b); uint64_t mm = 0; while (mm < x) mm = mm * 2 + 1; r = std::min(m, mm); break; }
    case E_ADD: { uint64_t x = ub(e->a), y = ub(e->b); if (x + y >= x && x + y <= m) r = x + y; break; }
    case E_MUL: { unsigned __int128 x = (unsigned __int128)ub(e->a) * ub(e->b); if (x <= m) r = (uint64_t)x; break; }
    case E_UDIV: if (isK(e->b) && e->b->c) r = ub(e->a) / e->b->c; break;
    case E_UREM: if (isK(e->b) && e->b->c) r = std::min(ub(e->a), e->b->c - 1); break;
    case E_LSHR: if (isK(e->b) && e->b->c < e->w) r = ub(e->a) >> e->b->c; else r = ub(e->a); break;
    case E_SHL: if (isK(e->b) && e->b->c < e->w) { unsigned __int128 x = (unsigned __int128)ub(e->a) << e->b->c; if (x <= m) r = (uint64_t)x; } break;
    case E_ITE: r = std::max(ub(e->b), ub(e->d)); break;
    case E_CONCAT: r = (ub(e->a) << e->b->w) | maskw(e->b->w); if (e->a->op == E_CONST) r = (e->a->c << e->b->w) | ub(e->b); break;
    case E_EXTRACT: if (e->off == 0) r = std::min(m, ub(e->a)); else r = std::min(m, ub(e->a) >> e->off); break;
    default: break;
    }
    e->ubv = r; e->ubOk = true; return r;
  }

  ER Not(ER a) {
    if (isK(a)) return K(~a->c, a->w);
    if (a->op == E_NOT) return a->a;
    if (a->w == 1) {
      if (a->op == E_ULT) return Ule(a->b, a->a);
      if (a->op == E_ULE) return Ult(a->b, a->a);
      if (a->op == E_SLT) return Sle(a->b, a->a);
      if (a->op == E_SLE) return Slt(a->b, a->a);
    }
    return intern(E_NOT, a->w, 0, a);
  }
  ER And(ER a, ER b) {
    if (a == b) return a;
    if (isK(a)) std::swap(a, b);
    if (isK(a)) return K(a->c & b->c, a->w);
    if (isK(b)) {
      if (b->c == 0) return b;
      if (b->c == maskw(b->w)) return a;
      // low mask covering ub
      uint64_t u = ub(a), k = b->c; uint64_t lm = 0; while (lm < u) lm = lm * 2 + 1;
      if ((k & lm) == lm) return a;
      if ((k & (k + 1)) == 0) { // low mask
        unsigned n = 64 - __builtin_clzll(k);
        return ZExt(Extract(a, 0, n), a->w);
      }
      if (a->op == E_AND && isK(a->b)) return And(a->a, K(a->b->c & k, a->w));
      if (a->op == E_ZEXT) return ZExt(And(a->a, K(k, a->a->w)), a->w);
      if (a->op == E_ITE && (isK(a->b) || isK(a->d))) return Ite(a->a, And(a->b, b), And(a->d, b));
    }
    if (a->w == 1) { if (a->op == E_NOT && a->a == b) return F(); if (b->op == E_NOT && b->a == a) return F(); }
    if (!isK(b) && a->id > b->id) std::swap(a, b);
    return intern(E_AND, a->w, 0, a, b);
  }
  ER Or(ER a, ER b) {
    if (a == b) return a;
    if (isK(a)) std::swap(a, b);
    if (isK(a)) return K(a->c | b->c, a->w);
    if (isK(b)) { if (b->c == 0) return a; if (b->c == maskw(b->w)) return b;
      if (a->op == E_ITE && (isK(a->b) || isK(a->d))) return Ite(a->a, Or(a->b, b), Or(a->d, b)); }
    if (a->w == 1) { if (a->op == E_NOT && a->a == b) return T(); if (b->op == E_NOT && b->a == a) return T(); }
    if (isK(b) && a->w > 1) { // constant above every bit a can have
      uint64_t u = ub(a), lm = 0; unsigned n = 0; while (lm < u) { lm = lm * 2 + 1; ++n; }
      if (n && n < a->w && (b->c & lm) == 0) return Concat(K(b->c >> n, a->w - n), Extract(a, 0, n));
    }
    if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) return Concat(Or(a->a, b->a), Or(a->b, b->b));
    for (int s = 0; s < 2; ++s) { ER p = s ? b : a, q = s ? a : b;
      if (p->op == E_CONCAT && ub(q) <= maskw(p->b->w)) return Concat(p->a, Or(p->b, Extract(q, 0, p->b->w))); }
    // disjoint shifted fields -> concat:  (zext x << k) | zext y  with ub(y) < 2^k
    for (int s = 0; s < 2; ++s) {
      ER p = s ? b : a, q = s ? a : b;
      if (p->op == E_CONCAT && isK(p->b) && p->b->c == 0 && ub(q) <= maskw(p->b->w))
        return Concat(p->a, Extract(q, 0, p->b->w));
      if (p->op == E_ZEXT && p->a->op == E_CONCAT && isK(p->a->b) && p->a->b->c == 0 && ub(q) <= maskw(p->a->b->w))
        return ZExt(Concat(p->a->a, Extract(q, 0, p->a->b->w)), p->w);
    }
    if (!isK(b) && a->id > b->id) std::swap(a, b);
    return intern(E_OR, a->w, 0, a, b);
  }
  ER Xor(ER a, ER b) {
    if (a == b) return K(0, a->w);
    if (isK(a)) std::swap(a, b);
    if (isK(a)) return K(a->c ^ b->c, a->w);
    if (isK(b)) { if (b->c == 0) return a; if (b->c == maskw(b->w)) return Not(a);
      if (a->op == E_XOR && isK(a->b)) return Xor(a->a, K(a->b->c ^ b->c, a->w)); }
    if (a->op == E_XOR || b->op == E_XOR) { // associative-commutative normal form (sorted left-deep chain, constant last)
      ER l[12]; unsigned n = 0; uint64_t c = 0; bool ok = true; ER st[24]; unsigned k = 0; st[k++] = a; st[k++] = b;
      while (k) { ER x = st[--k]; if (x->op == E_XOR) { if (k + 2 > 24) { ok = false; break; } st[k++] = x->a; st[k++] = x->b; continue; } if (isK(x)) { c ^= x->c; continue; } if (n == 12) { ok = false; break; } l[n++] = x; }
      if (ok) {
        std::sort(l, l + n, [](ER x, ER y) { return x->id < y->id; });
        unsigned m = 0; for (unsigned i = 0; i < n; ++i) { if (m && l[m - 1] == l[i]) --m; else l[m++] = l[i]; }
        if (!m) return K(c, a->w);
        ER r = l[0]; for (unsigned i = 1; i < m; ++i) r = intern(E_XOR, a->w, 0, r, l[i]);
        if (c) r = c == maskw(a->w) && r->op != E_XOR ? Not(r) : intern(E_XOR, a->w, 0, r, K(c, a->w));
        return r;
      }
    }
    if (!isK(b) && a->id > b->id) std::swap(a, b);
    return intern(E_XOR, a->w, 0, a, b);
  }
  ER Add(ER a, ER b) {
    if (a->w == 1) return Xor(a, b);
    if (isK(a)) std::swap(a, b);
    if (isK(a)) return K(a->c + b->c, a->w);
    if (isK(b)) {
      if (b->c == 0) return a;
      if (a->op == E_ADD && isK(a->b)) return Add(a->a, K(a->b->c + b->c, a->w));
      if (a->op == E_ITE && isK(a->b) && isK(a->d)) return Ite(a->a, Add(a->b, b), Add(a->d, b));
    } else {
      if (a->op == E_ADD && isK(a->b)) return Add(Add(a->a, b), a->b);
      if (b->op == E_ADD && isK(b->b)) return Add(Add(a, b->a), b->b);
      if (a->op == E_SUB && a->b == b) return a->a;
      if (b->op == E_SUB && b->b == a) return b->a;
      if (a->id > b->id) std::swap(a, b);
    }
    return intern(E_ADD, a->w, 0, a, b);
  }
  ER Sub(ER a, ER b) {
    if (a->w == 1) return Xor(a, b);
    if (a == b) return K(0, a->w);
    if (isK(b)) return Add(a, K(0 - b->c, a->w));
    if (a->op == E_ADD) { // (x + c) - x  ...
      if (isK(a->b)) { if (a->a == b) return a->b;
        if (b->op == E_ADD && isK(b->b)) return Add(Sub(a->a, b->a), K(a->b->c - b->b->c, a->w));
        return Add(Sub(a->a, b), a->b); }
      if (a->a == b) return a->b; if (a->b == b) return a->a;
    }
    if (b->op == E_ADD) { if (b->a == a) return Sub(K(0, a->w), b->b); if (b->b == a) return Sub(K(0, a->w), b->a);
      if (isK(b->b)) return Add(Sub(a, b->a), K(0 - b->b->c, a->w)); }
    return intern(E_SUB, a->w, 0, a, b);
  }
  ER Mul(ER a, ER b) {
    if (a->w == 1) return And(a, b);
    if (isK(a)) std::swap(a, b);
    if (isK(a)) return K(a->c * b->c, a->w);
    if (isK(b)) { if (b->c == 0) return b; if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) return Shl(a, K(__builtin_ctzll(b->c), a->w));
      if (a->op == E_MUL && isK(a->b)) return Mul(a->a, K(a->b->c * b->c, a->w));
      if (a->op == E_ADD && isK(a->b)) return Add(Mul(a->a, b), K(a->b->c * b->c, a->w)); }
    else if (a->id > b->id) std::swap(a, b);
    return intern(E_MUL, a->w, 0, a, b);
  }
  // width sufficient for a division by a constant, 0 if the full width is needed
  unsigned narrowDiv(ER a, ER b) { if (!isK(b) || a->w <= 8) return 0; uint64_t m = std::max(ub(a), b->c); unsigned n = 64 - (unsigned)__builtin_clzll(m | 1); return n + 4 <= a->w ? n : 0; }
  ER UDiv(ER a, ER b) {
    if (isK(b) && b->c == 1) return a;
    if (isK(a) && isK(b) && b->c) return K(a->c / b->c, a->w);
    if (isK(b) && b->c && (b->c & (b->c - 1)) == 0) return LShr(a, K(__builtin_ctzll(b->c), a->w));
    if (isK(b) && b->c && ub(a) < b->c) return K(0, a->w);
    if (unsigned n = narrowDiv(a, b)) return ZExt(UDiv(Extract(a, 0, n), K(b->c, n)), a->w);
    return intern(E_UDIV, a->w, 0, a, b);
  }
  ER URem(ER a, ER b) {
    if (isK(a) && isK(b) && b->c) return K(a->c % b->c, a->w);
    if (isK(b) && b->c && (b->c & (b->c - 1)) == 0) return And(a, K(b->c - 1, a->w));
    if (isK(b) && b->c && ub(a) < b->c) return a;
    if (unsigned n = narrowDiv(a, b)) return ZExt(URem(Extract(a, 0, n), K(b->c, n)), a->w);
    return intern(E_UREM, a->w, 0, a, b);
  }
  ER SDiv(ER a, ER b) {
    if (isK(a) && isK(b) && b->c) { int64_t x = sx64(a->c, a->w), y = sx64(b->c, b->w); if (y == -1) return K(0 - a->c, a->w); return K((uint64_t)(x / y), a->w); }
    if (isK(b) && b->c && sx64(b->c, b->w) > 0 && ub(a) <= (maskw(a->w) >> 1)) return UDiv(a, b);
    return intern(E_SDIV, a->w, 0, a, b);
  }
  ER SRem(ER a, ER b) {
    if (isK(a) && isK(b) && b->c) { int64_t x = sx64(a->c, a->w), y = sx64(b->c, b->w); if (y == -1) return K(0, a->w); return K((uint64_t)(x % y), a->w); }
    if (isK(b) && b->c && sx64(b->c, b->w) > 0 && ub(a) <= (maskw(a->w) >> 1)) return URem(a, b);
    return intern(E_SREM, a->w, 0, a, b);
  }
  ER Shl(ER a, ER b) {
    if (isK(b)) { if (b->c == 0) return a; if (b->c >= a->w) return K(0, a->w);
      if (isK(a)) return K(a->c << b->c, a->w);
      unsigned k = b->c; return Concat(Extract(a, 0, a->w - k), K(0, k)); }
    return intern(E_SHL, a->w, 0, a, b);
  }
  ER LShr(ER a, ER b) {
    if (isK(b)) { if (b->c == 0) return a; if (b->c >= a->w) return K(0, a->w);
      if (isK(a)) return K(a->c >> b->c, a->w);
      unsigned k = b->c; return ZExt(Extract(a, k, a->w - k), a->w); }
    return intern(E_LSHR, a->w, 0, a, b);
  }
  ER AShr(ER a, ER b) {
    if (isK(b)) { if (b->c == 0) return a; uint64_t k = b->c >= a->w ? a->w - 1 : b->c;
      if (isK(a)) return K((uint64_t)(sx64(a->c, a->w) >> k), a->w);
      return SExt(Extract(a, k, a->w - k), a->w); }
    return intern(E_ASHR, a->w, 0, a, b);
  }
  ER Eq(ER a, ER b) {
    if (a == b) return T();
    if (isK(a)) std::swap(a, b);
    if (isK(a)) return K(a->c == b->c, 1);
    if (isK(b)) {
      if (a->w == 1) return b->c ? a : Not(a);
      if (b->c > ub(a)) return F();
      if (a->op == E_ZEXT) return (b->c > maskw(a->a->w)) ? F() : Eq(a->a, K(b->c, a->a->w));
      if (a->op == E_SEXT) { uint64_t t = b->c & maskw(a->a->w); if (((uint64_t)sx64(t, a->a->w) & maskw(a->w)) != b->c) return F(); return Eq(a->a, K(t, a->a->w)); }
      if (a->op == E_ADD && isK(a->b)) return Eq(a->a, K(b->c - a->b->c, a->w));
      if (a->op == E_XOR && isK(a->b)) return Eq(a->a, K(b->c ^ a->b->c, a->w));
      if (a->op == E_NOT) return Eq(a->a, K(~b->c, a->w));
      if (a->op == E_SUB && b->c == 0) return Eq(a->a, a->b);
      if (a->op == E_XOR && b->c == 0) return Eq(a->a, a->b);
      if (a->op == E_ITE) {
        bool kb = isK(a->b), kd = isK(a->d);
        if (kb || kd) { return Or(And(a->a, Eq(a->b, b)), And(Not(a->a), Eq(a->d, b))); }
      }
      if (a->op == E_CONCAT) return And(Eq(a->b, K(b->c, a->b->w)), Eq(a->a, K(b->c >> a->b->w, a->a->w)));
      if (a->op == E_OR && b->c == 0) return And(Eq(a->a, b), Eq(a->b, b));
    } else {
      if (a->w == 1) return Not(Xor(a, b));
      if (a->op == E_ZEXT && b->op == E_ZEXT) {
        if (a->a->w == b->a->w) return Eq(a->a, b->a);
        if (a->a->w < b->a->w) return Eq(ZExt(a->a, b->a->w), b->a);
        return Eq(a->a, ZExt(b->a, a->a->w));
      }
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return Eq(a->a, b->a);
      if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) return And(Eq(a->b, b->b), Eq(a->a, b->a));
      if (a->op == E_ADD && b->op == E_ADD) { if (a->b == b->b) return Eq(a->a, b->a); if (a->a == b->a) return Eq(a->b, b->b); if (isK(a->b) && isK(b->b)) return Eq(Add(a->a, K(a->b->c - b->b->c, a->w)), b->a);}
      if (a->op == E_ADD) { if (a->a == b) return Eq(a->b, K(0, a->w)); if (a->b == b) return Eq(a->a, K(0, a->w)); }
      if (b->op == E_ADD) { if (b->a == a) return Eq(b->b, K(0, a->w)); if (b->b == a) return Eq(b->a, K(0, a->w)); }
      if (a->id > b->id) std::swap(a, b);
    }
    return intern(E_EQ, 1, 0, a, b);
  }
  ER Ult(ER a, ER b) {
    if (a == b) return F();
    if (isK(a) && isK(b)) return K(a->c < b->c, 1);
    if (isK(b)) { if (b->c == 0) return F(); if (ub(a) < b->c) return T(); if (b->c == 1) return Eq(a, K(0, a->w));
      if (b->c == maskw(b->w)) return Not(Eq(a, b));
      if (a->op == E_ZEXT) { if (b->c > maskw(a->a->w)) return T(); return Ult(a->a, K(b->c, a->a->w)); }
      if (a->op == E_ITE && isK(a->b) && isK(a->d)) return Ite(a->a, Ult(a->b, b), Ult(a->d, b)); }
    if (isK(a)) { if (a->c >= ub(b)) return F();
      if (a->c == 0) return Not(Eq(b, a));
      if (b->op == E_ZEXT) { if (a->c >= maskw(b->a->w)) return F(); return Ult(K(a->c, b->a->w), b->a); }
      if (b->op == E_ITE && isK(b->b) && isK(b->d)) return Ite(b->a, Ult(a, b->b), Ult(a, b->d)); }
    if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned w = std::max(a->a->w, b->a->w); return Ult(ZExt(a->a, w), ZExt(b->a, w)); }
    if (a->w == 1) return And(Not(a), b);
    return intern(E_ULT, 1, 0, a, b);
  }
  ER Ule(ER a, ER b) {
    if (a == b) return T();
    if (isK(a) && isK(b)) return K(a->c <= b->c, 1);
    if (isK(b) && b->c == maskw(b->w)) return T();
    if (isK(b)) return Ult(a, K(b->c + 1, a->w));
    if (isK(a)) { if (a->c == 0) return T(); return Ult(K(a->c - 1, a->w), b); }
    if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned w = std::max(a->a->w, b->a->w); return Ule(ZExt(a->a, w), ZExt(b->a, w)); }
    if (a->w == 1) return Or(Not(a), b);
    return intern(E_ULE, 1, 0, a, b);
  }
  ER Slt(ER a, ER b) {
    if (a == b) return F();
    if (isK(a) && isK(b)) return K(sx64(a->c, a->w) < sx64(b->c, b->w), 1);
    uint64_t h = maskw(a->w) >> 1;
    if (ub(a) <= h && ub(b) <= h) return Ult(a, b);
    if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return Slt(a->a, b->a);
    if (a->op == E_SEXT && isK(b)) { int64_t k = sx64(b->c, b->w), mx = (int64_t)(maskw(a->a->w) >> 1), mn = -mx - 1;
      if (k > mx) return T(); if (k <= mn) return F(); return Slt(a->a, K((uint64_t)k, a->a->w)); }
    if (b->op == E_SEXT && isK(a)) { int64_t k = sx64(a->c, a->w), mx = (int64_t)(maskw(b->a->w) >> 1), mn = -mx - 1;
      if (k >= mx) return F(); if (k < mn) return T(); return Slt(K((uint64_t)k, b->a->w), b->a); }
    if (a->op == E_ITE && isK(b) && (isK(a->b) || isK(a->d))) return Ite(a->a, Slt(a->b, b), Slt(a->d, b));
    return intern(E_SLT, 1, 0, a, b);
  }
  ER Sle(ER a, ER b) {
    if (a == b) return T();
    if (isK(a) && isK(b)) return K(sx64(a->c, a->w) <= sx64(b->c, b->w), 1);
    uint64_t h = maskw(a->w) >> 1;
    if (ub(a) <= h && ub(b) <= h) return Ule(a, b);
    if (isK(b)) { if (b->c == h) return T(); return Slt(a, K(b->c + 1, a->w)); }
    if (isK(a)) { if (a->c == h + 1) return T(); return Slt(K(a->c - 1, a->w), b); }
    return intern(E_SLE, 1, 0, a, b);
  }
  ER Ite(ER c, ER t, ER f) {
    if (isK(c)) return c->c ? t : f;
    if (t == f) return t;
    if (c->op == E_NOT) return Ite(c->a, f, t);
    if (t->w == 1) {
      if (isK(t)) return t->c ? Or(c, f) : And(Not(c), f);
      if (isK(f)) return f->c ? Or(Not(c), t) : And(c, t);
    }
    if (t->op == E_ITE && t->a == c) t = t->b;
    if (f->op == E_ITE && f->a == c) f = f->d;
    if (t == f) return t;
    if (t->w > 1 && isK(t) && isK(f) && t->c == 1 && f->c == 0) return ZExt(c, t->w);
    if (t->w > 1 && isK(t) && isK(f) && t->c == 0 && f->c == 1) return ZExt(Not(c), t->w);
    return intern(E_ITE, t->w, 0, c, t, f);
  }
  ER ZExt(ER a, unsigned w) {
    if (w == a->w) return a;
    if (isK(a)) return K(a->c, w);
    if (a->op == E_ZEXT) return ZExt(a->a, w);
    if (a->op == E_ITE && isK(a->b) && isK(a->d) && a->w > 1) return Ite(a->a, K(a->b->c, w), K(a->d->c, w));
    return intern(E_ZEXT, w, 0, a);
  }
  ER SExt(ER a, unsigned w) {
    if (w == a->w) return a;
    if (isK(a)) return K((uint64_t)sx64(a->c, a->w), w);
    if (a->op == E_SEXT) return SExt(a->a, w);
    if (a->op == E_ZEXT) return ZExt(a->a, w);
    if (ub(a) <= (maskw(a->w) >> 1) && a->w > 1) return ZExt(a, w);
    if (a->w == 1) return Ite(a, K(~0ull, w), K(0, w));
    if (a->op == E_ITE && isK(a->b) && isK(a->d)) return Ite(a->a, SExt(a->b, w), SExt(a->d, w));
    return intern(E_SEXT, w, 0, a);
  }
  ER Extract(ER a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    switch (a->op) {
    case E_CONST: return K(a->c >> off, w);
    case E_EXTRACT: return Extract(a->a, a->off + off, w);
    case E_CONCAT: {
      unsigned lw = a->b->w;
      if (off + w <= lw) return Extract(a->b, off, w);
      if (off >= lw) return Extract(a->a, off - lw, w);
      return Concat(Extract(a->a, 0, off + w - lw), Extract(a->b, off, lw - off));
    }
    case E_ZEXT: {
      unsigned iw = a->a->w;
      if (off >= iw) return K(0, w);
      if (off + w <= iw) return Extract(a->a, off, w);
      return ZExt(Extract(a->a, off, iw - off), w);
    }
    case E_SEXT: {
      unsigned iw = a->a->w;
      if (off + w <= iw) return Extract(a->a, off, w);
      if (off < iw) return SExt(Extract(a->a, off, iw - off), w);
      break;
    }
    case E_ITE: return Ite(a->a, Extract(a->b, off, w), Extract(a->d, off, w));
    case E_AND: if (isK(a->b)) return And(Extract(a->a, off, w), Extract(a->b, off, w)); break;
    case E_OR: if (isK(a->b)) return Or(Extract(a->a, off, w), Extract(a->b, off, w)); break;
    case E_XOR: if (isK(a->b)) return Xor(Extract(a->a, off, w), Extract(a->b, off, w)); break;
    case E_NOT: return Not(Extract(a->a, off, w));
    case E_ADD: if (off == 0) return Add(Extract(a->a, 0, w), Extract(a->b, 0, w)); break;
    case E_SUB: if (off == 0) return Sub(Extract(a->a, 0, w), Extract(a->b, 0, w)); break;
    case E_MUL: if (off == 0) return Mul(Extract(a->a, 0, w), Extract(a->b, 0, w)); break;
    default: break;
    }
    if (off > 0 && off < 64 && (ub(a) >> off) == 0) return K(0, w);
    return intern(E_EXTRACT, w, 0, a, nullptr, nullptr, off);
  }
  ER Concat(ER hi, ER lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isK(hi) && isK(lo)) return K((hi->c << lo->w) | lo->c, w);
    if (isK(hi) && hi->c == 0) return ZExt(lo, w);
    if (hi->op == E_ZEXT) return ZExt(Concat(hi->a, lo), w);
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->off == lo->off + lo->w)
      return Extract(hi->a, lo->off, w);
    if (hi->op == E_CONCAT) return Concat(hi->a, Concat(hi->b, lo));   // right-deep normal form
    if (lo->op == E_CONCAT) { ER m = lo->a;
      if (isK(hi) && isK(m)) return Concat(K((hi->c << m->w) | m->c, hi->w + m->w), lo->b);
      if (hi->op == E_EXTRACT && m->op == E_EXTRACT && hi->a == m->a && hi->off == m->off + m->w) return Concat(Extract(hi->a, m->off, hi->w + m->w), lo->b);
    }
    if (hi->op == E_ITE && lo->op == E_ITE && hi->a == lo->a) return Ite(hi->a, Concat(hi->b, lo->b), Concat(hi->d, lo->d));
    return intern(E_CONCAT, w, 0, hi, lo);
  }

  // ---- evaluation under a model
  uint64_t evEpoch = 0;
  const std::vector<uint64_t>* evModel = nullptr;
  uint64_t eval(ER e, const std::vector<uint64_t>& m) { ++evEpoch; evModel = &m; return ev(e); }
  uint64_t ev(ER e) {
    if (e->op == E_CONST) return e->c;
    if (e->op == E_VAR) return e->varid < evModel->size() ? (*evModel)[e->varid] & maskw(e->w) : 0;
    if (e->evEpoch == evEpoch) return e->evVal;
    uint64_t r = 0; unsigned w = e->w;
    switch (e->op) {
    case E_ADD: r = ev(e->a) + ev(e->b); break;
    case E_SUB: r = ev(e->a) - ev(e->b); break;
    case E_MUL: r = ev(e->a) * ev(e->b); break;
    case E_UDIV: { uint64_t y = ev(e->b); r = y ? ev(e->a) / y : ~0ull; break; }
    case E_UREM: { uint64_t y = ev(e->b); r = y ? ev(e->a) % y : ev(e->a); break; }
    case E_SDIV: { int64_t x = sx64(ev(e->a), w), y = sx64(ev(e->b), w); if (y == 0) r = x < 0 ? 1 : ~0ull; else if (y == -1) r = 0 - (uint64_t)x; else r = x / y; break; }
    case E_SREM: { int64_t x = sx64(ev(e->a), w), y = sx64(ev(e->b), w); if (y == 0) r = x; else if (y == -1) r = 0; else r = x % y; break; }
    case E_AND: r = ev(e->a) & ev(e->b); break;
    case E_OR: r = ev(e->a) | ev(e->b); break;
    case E_XOR: r = ev(e->a) ^ ev(e->b); break;
    case E_NOT: r = ~ev(e->a); break;
    case E_SHL: { uint64_t k = ev(e->b); r = k >= w ? 0 : ev(e->a) << k; break; }
    case E_LSHR: { uint64_t k = ev(e->b); r = k >= w ? 0 : ev(e->a) >> k; break; }
    case E_ASHR: { uint64_t k = ev(e->b); int64_t x = sx64(ev(e->a), w); r = k >= w ? (x < 0 ? ~0ull : 0) : x >> k; break; }
    case E_EQ: r = ev(e->a) == ev(e->b); break;
    case E_ULT: r = ev(e->a) < ev(e->b); break;
    case E_ULE: r = ev(e->a) <= ev(e->b); break;
    case E_SLT: r = sx64(ev(e->a), e->a->w) < sx64(ev(e->b), e->a->w); break;
    case E_SLE: r = sx64(ev(e->a), e->a->w) <= sx64(ev(e->b), e->a->w); break;
    case E_CONCAT: r = (ev(e->a) << e->b->w) | ev(e->b); break;
    case E_EXTRACT: r = ev(e->a) >> e->off; break;
    case E_ZEXT: r = ev(e->a); break;
    case E_SEXT: r = (uint64_t)sx64(ev(e->a), e->a->w); break;
    case E_ITE: r = ev(e->a) ? ev(e->b) : ev(e->d); break;
    default: break;
    }
    r &= maskw(w);
    e->evEpoch = evEpoch; e->evVal = r;
    return r;
  }

  // ---- Z3 translation (bool exprs (w==1) are bit-vectors of width 1; tobool() wraps)
  Z3_sort bvs[65] = {};
  Z3_sort sort(unsigned w) { if (!bvs[w]) { bvs[w] = Z3_mk_bv_sort(z3, w); } return bvs[w]; }
  Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(z3, b, num(1, 1), num(0, 1)); }
  Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(z3, v, sort(w)); }
  // boolean-sorted translation of width-1 expression
  std::unordered_map<ER, Z3_ast> boolCache;
  Z3_ast tobool(ER e) {
    auto it = boolCache.find(e); if (it != boolCache.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
    case E_CONST: r = e->c ? Z3_mk_true(z3) : Z3_mk_false(z3); break;
    case E_EQ: r = (e->a->w == 1) ? Z3_mk_eq(z3, tobool(e->a), tobool(e->b)) : Z3_mk_eq(z3, tr(e->a), tr(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(z3, tr(e->a), tr(e->b)); break;
    case E_ULE: r = Z3_mk_bvule(z3, tr(e->a), tr(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(z3, tr(e->a), tr(e->b)); break;
    case E_SLE: r = Z3_mk_bvsle(z3, tr(e->a), tr(e->b)); break;
    case E_NOT: r = Z3_mk_not(z3, tobool(e->a)); break;
    case E_AND: { Z3_ast x[2] = {tobool(e->a), tobool(e->b)}; r = Z3_mk_and(z3, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {tobool(e->a), tobool(e->b)}; r = Z3_mk_or(z3, 2, x); break; }
    case E_XOR: r = Z3_mk_xor(z3, tobool(e->a), tobool(e->b)); break;
    case E_ITE: r = Z3_mk_ite(z3, tobool(e->a), tobool(e->b), tobool(e->d)); break;
    default: r = Z3_mk_eq(z3, tr(e), num(1, 1)); break;
    }
    Z3_inc_ref(z3, r);
    boolCache[e] = r; return r;
  }
  Z3_ast tr(ER e) {
    if (e->z) return e->z;
    Z3_ast r;
    switch (e->op) {
    case E_CONST: r = num(e->c, e->w); break;
    case E_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%u", e->varid); r = Z3_mk_const(z3, Z3_mk_string_symbol(z3, nm), sort(e->w)); break; }
    case E_ADD: r = Z3_mk_bvadd(z3, tr(e->a), tr(e->b)); break;
    case E_SUB: r = Z3_mk_bvsub(z3, tr(e->a), tr(e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(z3, tr(e->a), tr(e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(z3, tr(e->a), tr(e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(z3, tr(e->a), tr(e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(z3, tr(e->a), tr(e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(z3, tr(e->a), tr(e->b)); break;
    case E_AND: if (e->w == 1) { r = b2bv(tobool(e)); break; } r = Z3_mk_bvand(z3, tr(e->a), tr(e->b)); break;
    case E_OR: if (e->w == 1) { r = b2bv(tobool(e)); break; } r = Z3_mk_bvor(z3, tr(e->a), tr(e->b)); break;
    case E_XOR: if (e->w == 1) { r = b2bv(tobool(e)); break; } r = Z3_mk_bvxor(z3, tr(e->a), tr(e->b)); break;
    case E_NOT: if (e->w == 1) { r = b2bv(tobool(e)); break; } r = Z3_mk_bvnot(z3, tr(e->a)); break;
    case E_SHL: r = Z3_mk_bvshl(z3, tr(e->a), tr(e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(z3, tr(e->a), tr(e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr(z3, tr(e->a), tr(e->b)); break;
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = b2bv(tobool(e)); break;
    case E_CONCAT: r = Z3_mk_concat(z3, tr(e->a), tr(e->b)); break;
    case E_EXTRACT: r = Z3_mk_extract(z3, e->off + e->w - 1, e->off, tr(e->a)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(z3, e->w - e->a->w, tr(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(z3, e->w - e->a->w, tr(e->a)); break;
    case E_ITE: r = Z3_mk_ite(z3, tobool(e->a), tr(e->b), tr(e->d)); break;
    default: abort();
    }
    Z3_inc_ref(z3, r);
    e->z = r; return r;
  }
  std::string str(ER e, int depth = 4) {
    static const char* nm[] = {"K","V","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","not","concat","extract","zext","sext","ite"};
    char b[64];
    if (e->op == E_CONST) { snprintf(b, sizeof b, "%#llx", (unsigned long long)e->c); return b; }
    if (e->op == E_VAR) return varInfo[e->varid].name;
    if (depth == 0) return "..";
    std::string s = "("; s += nm[e->op];
    if (e->op == E_EXTRACT) { snprintf(b, sizeof b, "[%u+%u]", e->off, e->w); s += b; }
    for (ER x : {e->a, e->b, e->d}) if (x) { s += " "; s += str(x, depth - 1); }
    return s + ")";
  }
};
