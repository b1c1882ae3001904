// P21: one run of the real GC thread over a map whose objects have arbitrary ages, expirations, sizes and locks
#include <sstream>
#include <vector>
#include <map>
#include <unordered_map>
#include <functional>
#include <mutex>
#include <thread>
#include <atomic>
#include <algorithm>
#include <chrono>
#include <condition_variable>
#define private public
#include <cybozu/dynbuf.hpp>
#include <src/memcache/object.hpp>
#include <src/memcache/gc.hpp>
#undef private
#include <src/config.hpp>
#include <src/global.hpp>
#include <string.h>
#include "../rt/sx.h"
#include "../rt/env.hpp"
using namespace yrmcds; using memcache::object; using memcache::g_stats; typedef cybozu::hash_map<object> map_t;
static const char* KEY[4] = {"a", "bb", "ccc", "dddd"};
struct ob { unsigned age; uint32_t exp; uint64_t size; int lock; bool expired, evictable, gone; object* o; };
static ob B[4];
extern "C" int harness() {
  int n = (int)sx_param("n", 2), mode = (int)sx_param("mode", 0), nb = (int)sx_param("buckets", 1), cls = (int)sx_param("classes", 1); char* conf = (char*)(sx_param("interval", 0) == 0 ? "gc_interval = 10\n" : sx_param("interval", 0) == 1 ? "gc_interval = 3600\n" : "gc_interval = 86400\n");
  env::config_text.add(conf, strlen(conf)); g_config.load("conf"); g_current_time.store(env::now); uint64_t hl = g_config.heap_data_limit();
  map_t* m = new map_t(nb);
  for (int i = 0; i < n; ++i) {
    ob& b = B[i]; b.age = sx_u32("age"); sx_assume(b.age < 0xfffffff0u); b.exp = sx_u32("exp"); b.lock = sx_choose(2, "locked"); b.size = sx_u64("size"); sx_assume(b.size < (cls ? 1ull << 33 : 1024));
    m->apply(cybozu::hash_key(KEY[i], strlen(KEY[i])), nullptr, [&b](const cybozu::hash_key&) -> object { return object("x", 1, 3, (time_t)b.exp); });
    m->apply_nolock(cybozu::hash_key(KEY[i], strlen(KEY[i])), [&b](const cybozu::hash_key&, object& o) -> bool { b.o = &o; return true; }, nullptr);
    b.o->m_gc_old = b.age; b.o->m_data.m_used = b.size; if (b.lock) b.o->m_lock = 5 + i; b.gone = false;
  }
  int64_t fl = 0; if (mode == 1) { fl = (int64_t)sx_u32("flush"); sx_assume(fl != 0); } g_stats.flush_time.store(fl); bool flush = fl != 0 && fl <= env::now;
  uint64_t used = 0; uint32_t oldest = 0; if (mode == 2) { used = sx_u64("used"); oldest = sx_u32("oldest"); } g_stats.used_memory.store(used); g_stats.oldest_age.store(oldest);
  uint64_t evict = 0; bool over = used > g_config.memory_limit(); uint64_t hour = 3600 / g_config.gc_interval() + 1; if (over && !flush) { if ((uint64_t)oldest < 2 * hour) { evict = oldest / 2; if (evict == 0) evict = 1; } else evict = oldest - hour; }
  uint32_t total0 = 7; g_stats.total_evictions.store(total0); auto gcs = g_stats.gc_count.load();
  { std::vector<memcache::repl_socket*> none; memcache::gc_thread* g = new memcache::gc_thread(*m, none, none); g->start(); delete g; } sx_reach("collected");
  // the model, object by object
  unsigned live = 0, gone = 0, must_evict = 0, may_evict = 0, exp_n = 0; uint64_t mem = 0, largest = 0, old = 0, cl[8] = {0}; int per[4] = {0};
  for (int i = 0; i < n; ++i) {
    ob& b = B[i]; bool there = false; m->apply_nolock(cybozu::hash_key(KEY[i], strlen(KEY[i])), [&there](const cybozu::hash_key&, object&) -> bool { there = true; return true; }, nullptr);
    bool expired = !b.lock && (flush || (b.exp != 0 && (int64_t)b.exp <= env::now)); bool evictable = !b.lock && evict > 0 && b.age >= evict;
    if (b.lock) sx_assert(there, "GC removed a locked object"); else if (expired) sx_assert(!there, flush ? "GC left an object a flush covers" : "GC left an expired object"); else if (evictable) sx_assert(!there, "GC left an object of the eviction age although memory is short"); else sx_assert(there, "GC removed an object that is neither expired, flushed nor old enough to be evicted");
    if (!there) { ++gone; if (expired) ++exp_n; if (evictable && !flush) { ++may_evict; if (!expired) ++must_evict; } continue; }
    sx_assert(b.o->age() == b.age + 1, "the age of a survivor did not advance by one"); sx_assert(b.o->size() == b.size && b.o->flags() == 3 && b.o->locked() == (b.lock != 0), "GC changed a survivor");
    ++live; mem += sizeof(cybozu::hash_key) + strlen(KEY[i]) + sizeof(object) + (b.size <= hl ? b.size : 0); if (b.size > largest) largest = b.size; if (b.age + 1 > old) old = b.age + 1;
    static const uint64_t lim[] = {1 << 10, 4 << 10, 16 << 10, 64 << 10, 256 << 10, 1 << 20, 4 << 20}; int c = 0; while (c < 7 && b.size >= lim[c]) ++c; cl[c]++; ++per[&m->get_bucket(cybozu::hash_key(KEY[i], strlen(KEY[i]))) - &*m->begin()];
  }
  unsigned conf_n = 0; for (int i = 0; i < nb; ++i) conf_n += per[i] >= 2;
  sx_assert(g_stats.objects.load() == live, "published number of objects"); sx_assert(g_stats.objects_under_1k.load() == cl[0] && g_stats.objects_under_4k.load() == cl[1] && g_stats.objects_under_16k.load() == cl[2] && g_stats.objects_under_64k.load() == cl[3] && g_stats.objects_under_256k.load() == cl[4] && g_stats.objects_under_1m.load() == cl[5] && g_stats.objects_under_4m.load() == cl[6] && g_stats.objects_huge.load() == cl[7], "published size classes");
  sx_assert(g_stats.used_memory.load() == mem, "published memory"); sx_assert(g_stats.conflicts.load() == conf_n, "published conflicts"); sx_assert(g_stats.oldest_age.load() == old, "published oldest age"); sx_assert(g_stats.largest_object_size.load() == largest, "published largest object");
  if (!flush) { unsigned e = g_stats.last_evictions.load(), x = g_stats.last_expirations.load(); sx_assert(e + x == gone, "published removals"); sx_assert(e >= must_evict && e <= may_evict, "published evictions"); }
  sx_assert(g_stats.total_evictions.load() == total0 + g_stats.last_evictions.load(), "published total evictions"); sx_assert(g_stats.gc_count.load() == gcs + 1, "published GC runs"); sx_assert(g_stats.flush_time.load() == (flush ? 0 : fl), "the flush request must be cleared exactly when it was carried out");
  if (gone) sx_reach("removed"); if (must_evict) sx_reach("evicted"); sx_reach("end"); sx_ok(); return 0;
}
