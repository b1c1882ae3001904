#include "srv.hpp"
using namespace srv;
static bool is(conn& c, const char* s) { size_t n = strlen(s); bool r = c.avail() == n && memcmp(c.out(), s, n) == 0; if (!r) { for (size_t i = 0; i < c.avail(); ++i) sx_dbg("out", (unsigned char)c.out()[i]); } c.skip(c.avail()); return r; }
extern "C" int harness() {
  cfg("buckets = 5\nworkers = 2\nrepl_buffer_size = 1\n");
  start();
  sx_reach("started");
  conn c = connect();
  sx_assert(c.open(), "open");
  c.send("set a 0 0 3\r\nabc\r\n");
  sx_assert(is(c, "STORED\r\n"), "set");
  c.send("get a\r\n");
  sx_assert(is(c, "VALUE a 0 3\r\nabc\r\nEND\r\n"), "get");
  tick(20); tick(20); tick(1);
  c.send("get a\r\n");
  sx_assert(is(c, "VALUE a 0 3\r\nabc\r\nEND\r\n"), "get");
  c.eof(); tick(1); tick(1);
  sx_assert(!is_open(c.fd), "closed");
  sx_reach("end");
  sx_ok(); return 0;
}
