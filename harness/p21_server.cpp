// P21: the running server under memory pressure: GC starts when it has to, evicts by age, and what was read lately stays
#include "srv.hpp"
#include <src/memcache/stats.hpp>
#include <src/memcache/object.hpp>
using namespace srv; using yrmcds::memcache::g_stats;
static const int N = 3; static const char* KEY[N] = {"a", "bb", "ccc"}; struct ob { bool in; unsigned age; int lock; int64_t exp; }; static ob O[N]; static conn c, c2;
static bool hit(const char* cmd, const char* want) { c.send(cmd); size_t n = strlen(want); bool r = c.avail() >= n && memcmp(c.out(), want, n) == 0; c.skip(c.avail()); return r; }
static bool gone_(const ob& o) { return !o.in || (!o.lock && o.exp && o.exp <= env::now); }
static void get(int i) { char b[20] = "get "; strcat(b, KEY[i]); strcat(b, "\r\n"); bool h = hit(b, "VALUE "); sx_assert(h == !gone_(O[i]), h ? "an object GC had to remove is there" : "GC removed an object it must keep"); if (!gone_(O[i])) O[i].age = 0; }
static void set(int i, int exp) { char b[40] = "set "; strcat(b, KEY[i]); strcat(b, exp ? " 0 2 1\r\nx\r\n" : " 0 0 1\r\nx\r\n"); bool s = hit(b, "STORED"); sx_assert(s, "set refused"); O[i] = ob{true, 0, O[i].in ? O[i].lock : 0, exp ? env::now + 2 : 0}; }
static void second() {
  auto g0 = g_stats.gc_count.load(); uint64_t used = g_stats.used_memory.load(); unsigned oldest = g_stats.oldest_age.load(); tick(1); auto g1 = g_stats.gc_count.load(); sx_assert(g1 <= g0 + 1, "more than one GC run a second");
  bool over = used > yrmcds::g_config.memory_limit(); static int idle_ = 0; static bool running = false; (void)running;
  if (g1 == g0) { ++idle_; sx_assert(!over, "memory is short but GC did not run"); sx_assert(idle_ <= (int)yrmcds::g_config.gc_interval() + 1, "GC did not run although its interval has passed"); return; }
  idle_ = 0; sx_reach("gc"); uint64_t ev = 0; uint64_t hour = 3600 / yrmcds::g_config.gc_interval() + 1; if (over) { ev = oldest < 2 * hour ? oldest / 2 : oldest - hour; if (!ev) ev = 1; } uint64_t mem = 0; unsigned live = 0;
  for (int i = 0; i < N; ++i) { ob& o = O[i]; if (!o.in) continue; if (!o.lock && ev && o.age >= ev) { o.in = false; sx_reach("evicted"); continue; } if (gone_(o)) { o.in = false; continue; } ++o.age; ++live; mem += sizeof(cybozu::hash_key) + strlen(KEY[i]) + sizeof(yrmcds::memcache::object) + 1; }
  sx_assert(g_stats.objects.load() == live && g_stats.used_memory.load() == mem, "published statistics do not describe the surviving objects");
}
extern "C" int harness() {
  cfg(sx_param("limit", 1) ? "buckets = 2\nworkers = 2\nrepl_buffer_size = 1\nmemory_limit = 400\ngc_interval = 2\n" : "buckets = 2\nworkers = 2\nrepl_buffer_size = 1\ngc_interval = 2\n"); start(); c = connect(); c2 = connect(); int n = (int)sx_param("n", 4), nk = (int)sx_param("keys", 3);
  for (int i = 0; i < nk; ++i) set(i, 0);
  for (int k = 0; k < n; ++k) {
    static const char* nm[] = {"op1", "op2", "op3", "op4", "op5", "op6"}; int op = sx_choose(7, nm[k]);
    if (op >= 1 && op <= 3) get(op - 1); if (op == 4) set(2, 0); if (op == 5) set(1, 1); if (op == 6 && !O[0].lock) { bool h = hit("lock a\r\n", "OK"); sx_assert(h == !gone_(O[0]), "lock"); if (!gone_(O[0])) O[0].lock = 1; }
    second();
  }
  for (int i = 0; i < 3; ++i) second(); for (int i = 0; i < N; ++i) get(i);
  sx_reach("end"); sx_ok(); return 0;
}
