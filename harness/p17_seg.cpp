// The same request stream sent in one segment and split into several: same effects, same response bytes.
#include "kv.hpp"
using namespace kv;
// keys with symbolic bytes: a cheap hash instead of SipHash (decided by P34); replays use the real one
#ifndef SX_NATIVE
extern "C" uint64_t ovr(const void* p, size_t n) asm("sx_override__ZN6cybozu9siphash24EPKvm");
extern "C" uint64_t ovr(const void* p, size_t n) { u8 h = 0; for (size_t i = 0; i < n; ++i) h ^= ((const u8*)p)[i]; return h & 1; }
#endif
static u8 S[1200]; static size_t N = 0;
static void s(const char* t) { size_t k = strlen(t); memcpy(S + N, t, k); N += k; }
static void sym(size_t k, const char* n) { sx_sym(S + N, k, n); N += k; }
static void bin(u8 op, int key, const void* ext, size_t nx, const void* d, size_t n, uint32_t opaque, int lie = 0) { breq q; q.op = op; q.key = key; if (nx) memcpy(q.ext, ext, nx); q.nx = nx; q.d = (const u8*)d; q.n = n; q.opaque = opaque; size_t k = put_bin(q, S + N); if (lie) S[N + 4] += lie; N += k; }
static void stream(int w) {
  static u8 z[20]; static u8 d5[5];
  switch (w) {
  case 0: s("set a 7 0 5\r\n"); sym(5, "data"); s("\r\nget a bb\r\nincr bb 1\r\ndelete bb noreply\r\nbogus\r\ngets a\r\n"); break;
  case 1: s("lock a\r\nappend a 0 0 2\r\nX\n\r\nset b 0 0 x\r\ngets a bb\r\ntouch a 0\r\nunlock a\r\nadd a 0 0 0\r\n\r\nkeys\r\n"); break;
  case 2: sx_sym(d5, 5, "data"); bin(0x01, 0, z, 8, d5, 5, 11); bin(0x0d, 1, z, 0, z, 0, 12); z[7] = 1; bin(0x15, 1, z, 20, z, 0, 13); bin(0x77, 0, z, 0, d5, 3, 14); bin(0x0a, -1, z, 0, z, 0, 15); bin(0x00, 0, z, 0, d5, 2, 16); bin(0x00, 0, z, 0, z, 0, 17); break;
  case 3: s("get a\r\n"); sx_sym(d5, 2, "data"); bin(0x01, 0, z, 8, d5, 2, 1); s("get a\r\n"); bin(0x0e, 0, z, 0, d5, 2, 2); s("gets a\r\n"); break;
  case 4: s("set a 0 0 1\r\nx\r\nquit\r\nset bb 0 0 1\r\ny\r\n"); break;
  case 5: bin(0x11, 0, z, 8, "q", 1, 1); bin(0x17, -1, z, 0, z, 0, 2); bin(0x11, 1, z, 8, "r", 1, 3); break;
  case 6: { int n = (int)sx_param("n", 5); s("set a 1 0 "); sym(1, "size"); s("\r\n"); sym(n, "text"); s("\r\nget a\r\nversion\r\n"); break; }      // the length field decides where the next command starts
  case 7: { int n = (int)sx_param("n", 5); sym(n, "text"); s("\r\nget a\r\n"); break; }
  case 8: { u8 h[24]; memset(h, 0, 24); h[0] = 0x80; h[1] = sx_u8("opcode"); static const u8 XL[] = {0, 4, 8}; h[3] = (u8)sx_choose(3, "keylen"); h[4] = XL[sx_choose(3, "extlen")]; h[11] = (u8)(h[3] + h[4] + sx_choose(4, "datalen") - (h[3] + h[4] ? 1 : 0)); sx_assume(h[1] != 0x10 && h[1] != 0x08 && h[1] != 0x18 && (h[1] & 0xef) != 5 && (h[1] & 0xef) != 6); memcpy(S, h, 24); N = 24; sym(h[11], "body"); for (int i = 0; i < h[3] && h[4] + i < h[11]; ++i) S[24 + h[4] + i] = h[3] == 1 ? 'a' : 'b'; if (h[11]) sx_assume(S[24] != 0x3b); if (h[11] > 4) sx_assume(S[28] != 0x3b); s("get a\r\nget bb\r\n"); break; }
  case 9: s("get "); for (int i = 0; i < 300; ++i) S[N++] = 'k'; s("\r\nset "); for (int i = 0; i < 251; ++i) S[N++] = 'k'; s(" 0 0 3\r\nabc\r\nset a 0 0 4\r\nabcde\r\nget a\r\n"); break;
  }
}
static void reset_state(uint32_t fl) {
  static u8 w[400]; C[2].skip(C[2].avail());
  C[2].send("set a 0 0 1\r\nz\r\nset b 0 0 1\r\nz\r\nset bb 0 0 1\r\nz\r\ndelete a\r\ndelete b\r\ndelete bb\r\n"); C[2].skip(C[2].avail());
  C[2].send("set a 9 0 3\r\nabc\r\nset bb 1 0 2\r\n41\r\n"); conn& k = C[2]; sx_assert(k.avail() == 16, "harness: reset"); k.skip(k.avail()); (void)w; (void)fl;
}
struct shot { buf out; buf state; };
static void snap(int c, size_t from, shot& x) {
  conn& k = C[c]; (void)from; bytes& o = fds[k.fd].out; (void)o; x.out.n = 0; x.state.n = 0;
  x.out.mem(k.out(), k.avail()); k.skip(k.avail());
  static const char* ks[] = {"a", "bb", "b"}; for (int i = 0; i < 3; ++i) { breq q; q.op = 0x00; q.kp = ks[i]; q.klen = strlen(ks[i]); size_t n = put_bin(q, wire); C[2].send(wire, n); } x.state.mem(C[2].out(), C[2].avail()); C[2].skip(C[2].avail());
}
static shot A, Bs;
static int big();
extern "C" int harness() {
  int w = (int)sx_param("stream", 0), cuts = (int)sx_param("cuts", 1);
  if (w == 20) return big();
  boot("buckets = 3\nworkers = 2\nrepl_buffer_size = 1\n");
  stream(w); reset_state(0); C[0].send(S, N); snap(0, 0, A); bool closed = !C[0].open();
  if (C[0].open()) C[0].eof(); tick(1); tick(1); tick(1);
  reset_state(0);
  conn& k = C[1];
  if (cuts == 0) { for (size_t i = 0; i < N; ++i) { if (k.open()) feed(k.fd, S + i, 1); if (i % 3 == 2 || i + 1 == N) { event(k.fd, EPOLLIN); pump(); } if (fds[k.fd].nb >= MAXCH - 1) { event(k.fd, EPOLLIN); pump(); fds[k.fd].nb = fds[k.fd].cb = 0; } } }
  else {
    bool pause1 = sx_param("pause", 0);
    int at[3] = {0, 0, 0}, lo = (int)sx_param("lo", 1), hi = (int)sx_param("hi", (int64_t)N - 1); if (hi > (int)N - 1) hi = (int)N - 1; if (lo > hi) { sx_ok(); return 0; }
    at[0] = lo + sx_choose(hi - lo + 1, "cut1"); if (cuts > 1) { int l = at[0] + 1; if (l >= (int)N) { sx_stop(); } at[1] = l + sx_choose((int)N - l, "cut2"); }
    size_t p = 0; for (int i = 0; i < cuts; ++i) { feed(k.fd, S + p, at[i] - p); p = at[i]; if (pause1 || sx_choose(2, "pause")) { event(k.fd, EPOLLIN); pump(); } }
    if (k.open()) { feed(k.fd, S + p, N - p); event(k.fd, EPOLLIN); pump(); }
  }
  snap(1, 0, Bs);
  sx_assert(closed == !C[1].open(), "the connection is closed or not depending on the segmentation");
  if (A.out.n != Bs.out.n) { sx_fail("different amount of response bytes when the stream is split"); return 0; }
  sx_assert(diff((const char*)A.out.b, Bs.out, 0, A.out.n) == 0, "different response bytes when the stream is split");
  if (A.state.n != Bs.state.n) { sx_fail("different contents when the stream is split"); return 0; }
  sx_assert(diff((const char*)A.state.b, Bs.state, 0, A.state.n) == 0, "different contents when the stream is split");
  sx_reach("end"); sx_ok(); return 0;
}
// a request around the largest length the server accepts (30 MiB), split at different places
static int big() {
  cfg("buckets = 3\nworkers = 2\nrepl_buffer_size = 1\nmax_data_size = 31M\n"); start(); for (int i = 0; i < NCONN; ++i) C[i] = connect();
  size_t M = (size_t)30 << 20; int over = (int)sx_param("over", 0), tail = (int)sx_param("tail", 0); size_t total = M + over, body = total - 24; char* p = (char*)calloc(1, total + 16);
  p[0] = (char)0x80; p[1] = 1; p[3] = 1; p[4] = 8; p[8] = (char)(body >> 24); p[9] = (char)(body >> 16); p[10] = (char)(body >> 8); p[11] = (char)body; p[32] = 'a'; p[40] = (char)sx_u8("val");
  conn& k = C[0]; size_t pos = 0; int seg = sx_choose(4, "tail"); (void)tail; static const size_t first[] = {0, 1, 24, 40}; size_t f = first[seg];   // how the last bytes arrive
  if (f) { feed(k.fd, p, f); pos = f; } while (pos < total) { size_t n = total - pos; if (n > ((size_t)2 << 20)) n = (size_t)2 << 20; feed(k.fd, p + pos, n); pos += n; }
  event(k.fd, EPOLLIN); pump();
  bool ok = k.avail() == 24 && k.out()[7] == 0; 
  if (over > 0) sx_assert(!ok && !k.open(), "a request above the limit was accepted (depending on the segmentation)"); else sx_assert(ok && k.open(), "a request of the largest length was refused (depending on the segmentation)");
  sx_reach("end"); sx_ok(); return 0;
}
