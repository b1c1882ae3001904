// P35: yrmcds::config::load on configuration text with arbitrary bytes, against an independent reading of the format
#include <src/config.hpp>
#include <src/constants.hpp>
#include <string.h>
#include <exception>
#include "../rt/sx.h"
#include "../rt/env.hpp"
typedef unsigned char u8; typedef yrmcds::config C;
extern "C" size_t sx_override__ZSt11_Hash_bytesPKvmm(const void*, size_t n, size_t) { return n; }   // any hash will do for the parser's table
enum { INT, UNIT, U64, BOOL, LEVEL, PATH };
struct rule { const char* key; int kind; uint64_t lo, hi, dflt; uint64_t (*get)(const C&); };
static const uint64_t IM = 0x7fffffff;
static rule R[] = {
  {"port", INT, 1, 65535, 11211, [](const C& c) -> uint64_t { return c.port(); }}, {"repl_port", INT, 1, 65535, 11213, [](const C& c) -> uint64_t { return c.repl_port(); }},
  {"max_connections", INT, 0, IM, 0, [](const C& c) -> uint64_t { return c.max_connections(); }}, {"buckets", INT, 1, IM, 1000000, [](const C& c) -> uint64_t { return c.buckets(); }},
  {"repl_buffer_size", INT, 1, IM, 30, [](const C& c) -> uint64_t { return c.repl_bufsize(); }}, {"workers", INT, 1, 64, 8, [](const C& c) -> uint64_t { return c.workers(); }},
  {"gc_interval", INT, 1, IM, 10, [](const C& c) -> uint64_t { return c.gc_interval(); }}, {"slave_timeout", INT, 1, IM, 10, [](const C& c) -> uint64_t { return c.slave_timeout(); }},
  {"counter.port", INT, 1, 65535, 11215, [](const C& c) -> uint64_t { return c.counter().port(); }}, {"counter.max_connections", INT, 0, IM, 0, [](const C& c) -> uint64_t { return c.counter().max_connections(); }},
  {"counter.buckets", INT, 1, IM, 1000000, [](const C& c) -> uint64_t { return c.counter().buckets(); }}, {"counter.stat_interval", INT, 10, IM, 86400, [](const C& c) -> uint64_t { return c.counter().stat_interval(); }},
  {"max_data_size", UNIT, 1, ~0ull, 1 << 20, [](const C& c) -> uint64_t { return c.max_data_size(); }}, {"heap_data_limit", UNIT, 4096, ~0ull, 256 << 10, [](const C& c) -> uint64_t { return c.heap_data_limit(); }},
  {"memory_limit", UNIT, 1, ~0ull, 1 << 30, [](const C& c) -> uint64_t { return c.memory_limit(); }}, {"initial_repl_sleep_delay_usec", U64, 0, ~0ull, 0, [](const C& c) -> uint64_t { return c.initial_repl_sleep_delay_usec(); }},
  {"secure_erase", BOOL, 0, 1, 0, [](const C& c) -> uint64_t { return c.secure_erase(); }}, {"lock_memory", BOOL, 0, 1, 0, [](const C& c) -> uint64_t { return c.lock_memory(); }}, {"counter.enable", BOOL, 0, 1, 0, [](const C& c) -> uint64_t { return c.counter().enable(); }},
  {"log.threshold", LEVEL, 0, 3, 2, [](const C& c) -> uint64_t { switch (c.threshold()) { case cybozu::severity::error: return 0; case cybozu::severity::warning: return 1; case cybozu::severity::info: return 2; case cybozu::severity::debug: return 3; } return 9; }},
  {"log.file", PATH, 0, 0, 0, [](const C& c) -> uint64_t { return c.logfile().size(); }},
};
static const int NR = sizeof R / sizeof R[0];
static char T[400]; static int tn; static void put(const char* s) { while (*s) T[tn++] = *s++; }
static void sym(int n, const char* name, bool nl) { sx_sym(T + tn, n, name); if (!nl) for (int i = 0; i < n; ++i) sx_assume(T[tn + i] != '\n'); tn += n; }
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\f' || c == '\v' || c == '\r' || c == '\n'; }
struct str { const char* p; int n; bool is(const char* s) const { return (int)strlen(s) == n && memcmp(p, s, n) == 0; } };
// what the format gives for one key
struct want { bool set = false; bool must_accept = false, must_refuse = false; uint64_t v = 0; str text{nullptr, 0}; };
static want W[NR];
static void judge(int k, str v) {
  want& w = W[k]; w = want(); w.set = true; w.text = v; const rule& r = R[k];
  if (r.kind == BOOL) { bool t = v.is("true"), f = v.is("false"); w.v = t; w.must_accept = t || f; w.must_refuse = !w.must_accept; return; }
  if (r.kind == LEVEL) { static const char* L[] = {"error", "warning", "info", "debug"}; for (int i = 0; i < 4; ++i) if (v.is(L[i])) { w.v = i; w.must_accept = true; } w.must_refuse = !w.must_accept; return; }
  if (r.kind == PATH) { w.v = v.n; w.must_accept = v.n > 0 && v.p[0] == '/'; w.must_refuse = !w.must_accept; return; }
  uint64_t mul = 1; int n = v.n; if (r.kind == UNIT && n) { char u = v.p[n - 1]; if (u == 'k' || u == 'K') mul = 1 << 10; else if (u == 'm' || u == 'M') mul = 1 << 20; else if (u == 'g' || u == 'G') mul = 1 << 30; if (mul != 1) --n; }
  int i = 0; bool plain = true, neg = false; while (i < n && sp(v.p[i])) { ++i; plain = false; } if (i < n && (v.p[i] == '+' || v.p[i] == '-')) { neg = v.p[i] == '-'; plain = false; ++i; }
  bool any = false, huge = false; uint64_t x = 0; while (i < n && v.p[i] >= '0' && v.p[i] <= '9') { unsigned d = v.p[i] - '0'; any = true; if (x > 1844674407370955161ull || (x == 1844674407370955161ull && d > 5)) huge = true; x = x * 10 + d; ++i; }
  while (i < n && sp(v.p[i])) { ++i; plain = false; }
  if (!any || i < n) { w.must_refuse = true; return; }          // not a number
  if (neg && x) { w.must_refuse = true; return; }
  if (huge) { w.must_refuse = true; return; } uint64_t max = r.kind == U64 ? ~0ull : IM; 
  if (r.kind == UNIT && x > ~0ull / mul) { w.must_refuse = true; return; }
  w.v = x * mul; if (w.v < r.lo || w.v > r.hi || (r.kind == UNIT && x == 0)) { w.must_refuse = true; return; }
  w.must_accept = plain && x <= max;
}
static void read_text(bool& bad) {          // lines, comments, blanks, quotes
  int i = 0; while (i < tn) { int e = i; while (e < tn && T[e] != '\n') ++e; int a = i, b = e; i = e + 1; while (a < b && sp(T[a])) ++a; while (b > a && sp(T[b - 1])) --b; if (a == b || T[a] == '#') continue;
    int q = a; while (q < b && T[q] != '=') ++q; if (q == b) { bad = true; return; }
    int ke = q; while (ke > a && sp(T[ke - 1])) --ke; int va = q + 1; while (va < b && sp(T[va])) ++va; if (b - va >= 2 && T[va] == '"' && T[b - 1] == '"') { ++va; --b; }
    str key{T + a, ke - a}; for (int k = 0; k < NR; ++k) if (key.is(R[k].key)) judge(k, str{T + va, b - va}); }
}
extern "C" int harness() {
  int what = (int)sx_param("what", 0), n = (int)sx_param("n", 2), k = (int)sx_param("key", 0); static const char* PRE[] = {"", "6553", "6", "214748364", "429496729", "1844674407370955161", "+", "-", " ", "000000000000000000000", "409", "2097151", "tru", "fals", "warnin", "/", "922337203685477580", "1", "17179869184"};
  if (what == 0) { bool q = sx_param("quote", 0); put(R[k].key); put(q ? " = \"" : " = "); put(PRE[sx_param("pre", 0)]); sym(n, "value", false); if (q) put("\""); put("\n"); }
  else if (what == 1) { sym((int)sx_param("a", 1), "before", true); put("port"); sym((int)sx_param("b", 1), "middle", true); put("="); sym((int)sx_param("c", 1), "after", true); put("8"); sym((int)sx_param("d", 1), "end", true); put("\nworkers = 3\n"); }
  else { put("port = 1"); sym(1, "first", true); put("\n"); put("gc_interval=5\n#x\n\n"); put("port=\"2"); sym(1, "second", true); put("\""); if (sx_choose(2, "newline")) put("\n"); }
  env::config_text.add(T, tn); bool bad = false; read_text(bad);
  C c; bool refused = false; try { c.load("/nonexistent.conf"); } catch (const std::exception&) { refused = true; }
  bool mr = bad, ma = !bad; for (int i = 0; i < NR; ++i) if (W[i].set) { mr = mr || W[i].must_refuse; ma = ma && W[i].must_accept; }
  if (mr) sx_assert(refused, bad ? "a line without '=' was accepted" : "a value outside the documented ones was accepted"); if (ma) sx_assert(!refused, "a documented value was refused");
  if (refused) { sx_reach("refused"); sx_ok(); return 0; } sx_reach("accepted");
  for (int i = 0; i < NR; ++i) { uint64_t got = R[i].get(c); if (!W[i].set) sx_assert(got == R[i].dflt, "a setting that was not given is not the default"); else sx_assert(got == W[i].v, "the reported value is not the configured one"); if (W[i].set && R[i].kind == PATH) sx_assert(memcmp(c.logfile().data(), W[i].text.p, W[i].text.n) == 0, "the reported path is not the configured one"); }
  sx_reach("end"); sx_ok(); return 0;
}
