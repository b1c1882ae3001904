// P32: counter::request on arbitrary bytes in a block of exactly the received size
#include <src/counter/counter.hpp>
#include "../rt/sx.h"
#include <string.h>
#include <stdlib.h>
using namespace yrmcds::counter; typedef unsigned char u8;
static uint64_t be(const char* p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (u8)p[i]; return v; }
extern "C" int harness() {
  size_t n = (size_t)sx_param("n", 20); char* p = (char*)malloc(n); sx_sym(p, n, "b");
  request q(p, n);
  if (n < 12) { sx_assert(q.length() == 0, "a request of less than a header must be incomplete"); sx_reach("end"); free(p); return 0; }
  uint64_t body = be(p + 4, 4);
  if (q.length() == 0) { sx_assert(12 + body > n, "a complete request is reported incomplete"); sx_reach("end"); free(p); return 0; }
  sx_assert((q.length() == 12 + body) & (12 + body <= n), "length of the request"); sx_assert(q.body_length() == body, "body length");
  sx_assert(q.opaque() == p + 8, "opaque"); sx_assert(q.flags() == (u8)p[2], "flags");
  u8 op = (u8)p[1]; bool magic = (u8)p[0] == 0x90; status st = status::Invalid; uint64_t nl = 0, r = 0, mx = 0; size_t off = 0;
  if (magic) {
    if (op == 0 || op == 0x10 || op == 0x11) st = status::OK;
    else if (op == 1 || op == 2 || op == 3) {
      off = op == 1 ? 2 : op == 2 ? 10 : 6;
      if (body >= off) { nl = be(p + 12 + off - 2, 2); if (op != 1) r = be(p + 12, 4); if (op == 2) mx = be(p + 16, 4); if (nl > 0 && off + nl <= body && (op != 2 || (r > 0 && mx >= r))) st = status::OK; }
    } else st = status::UnknownCommand;
  }
  sx_assert(q.status() == st, "verdict on the request");
  if (st == status::OK) { sx_assert((u8)q.command() == op, "command"); if (off) { sx_assert((q.name().p == p + 12 + off) & (q.name().len == nl), "name"); if (op != 1) sx_assert(q.resources() == r, "resources"); if (op == 2) sx_assert(q.maximum() == mx, "maximum"); } sx_reach("decoded"); }
  sx_reach("end"); free(p); return 0;
}
