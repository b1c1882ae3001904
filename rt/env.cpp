#include "env.hpp"
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <signal.h>
#include <ifaddrs.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <chrono>
#include <string>
namespace env {
vfd fds[MAXFD]; freg regs[64]; int nregs = 0; vfile files[16]; int nfiles = 0;
int64_t now = 1000000000, mono_ms = 1000; int lowest_fd = 3; int closes = 0, shutdowns = 0, sleeps = 0, accepts = 0;
long (*on_send)(int, size_t) = nullptr; long (*on_write)(int, size_t) = nullptr; long (*on_pread)(int, size_t) = nullptr; void (*on_sleep)() = nullptr; int (*on_accept)(int) = nullptr; int (*on_epoll)(int, int) = nullptr; int (*on_recv)(int) = nullptr; void (*on_exit_)(int) = nullptr; int (*on_connect)(int) = nullptr; bool has_vip = true; void (*on_addrs)() = nullptr;
bool strict_closed = true;
static struct { int fd; uint32_t ev; } evq[64]; static int nev = 0;
void bytes::add(const void* q, size_t k) { if (!k) return; if (n + k > cap) { size_t c = cap ? cap : 64; while (c < n + k) c *= 2; char* r = (char*)malloc(c); if (n) { memcpy(r, p, n); memset(p, 0, n); } free(p); p = r; cap = c; } memcpy(p + n, q, k); n += k; }
int open_fd(kind k) { for (int i = lowest_fd; i < MAXFD; ++i) if (fds[i].k == FREE) { vfd& f = fds[i]; int g = f.gen; free(f.in.p); free(f.out.p); f = vfd(); f.gen = g + 1; f.k = k; return i; } errno = EMFILE; return -1; }
int new_sock() { return open_fd(SOCK); }
void feed(int fd, const void* p, size_t n) { vfd& f = fds[fd]; if (!n) return; f.in.add(p, n); if (f.nb >= MAXCH) { sx_fail("environment: too many segments"); return; } f.bound[f.nb++] = f.in.n; }
void feed_eof(int fd) { fds[fd].eof = true; }
void event(int fd, uint32_t ev) { evq[nev].fd = fd; evq[nev].ev = ev; ++nev; }
void clear_events() { nev = 0; } int pending_events() { return nev; }
bool is_open(int fd) { return fd >= 0 && fd < MAXFD && fds[fd].k != FREE; }
bool registered(int ep, int fd) { for (int i = 0; i < nregs; ++i) if (regs[i].on && regs[i].ep == ep && regs[i].fd == fd) return true; return false; }
static bool chk(int fd, const char* what) { if (is_open(fd)) return true; if (strict_closed) sx_fail(what); errno = EBADF; return false; }
}
using namespace env;
extern "C" {
time_t env_time(time_t* t) { if (t) *t = env::now; return env::now; }
int env_nanosleep(const struct timespec*, struct timespec*) { ++sleeps; if (on_sleep) on_sleep(); else sx_yield(); return 0; }
int env_getrusage(int, struct rusage* r) { memset(r, 0, sizeof *r); return 0; }
int env_close(int fd) {
  if (!chk(fd, "close of a descriptor that is not open")) return -1;
  vfd& f = fds[fd]; f.k = FREE; ++closes;
  if (f.file >= 0) { vfile& v = files[f.file]; if (--v.refs == 0) v.b.clear(); f.file = -1; }
  for (int i = 0; i < nregs; ++i) if (regs[i].on && (regs[i].fd == fd || regs[i].ep == fd)) regs[i].on = false;
  return 0;
}
ssize_t env_recv(int fd, void* buf, size_t len, int) {
  if (!chk(fd, "recv on a descriptor that is not open")) return -1;
  vfd& f = fds[fd];
  if (on_recv) { int e = on_recv(fd); if (e) { errno = e; return -1; } }
  if (f.pos < f.in.n) {
    while (f.cb < f.nb && f.bound[f.cb] <= f.pos) ++f.cb;
    size_t e = f.cb < f.nb ? f.bound[f.cb] : f.in.n; size_t k = e - f.pos; if (k > len) k = len;
    memcpy(buf, f.in.p + f.pos, k); f.pos += k; return (ssize_t)k;
  }
  if (f.err) { errno = f.err; return -1; }
  if (f.eof) return 0;
  errno = EAGAIN; return -1;
}
static ssize_t sendn(int fd, size_t total, size_t* take) {
  vfd& f = fds[fd]; if (f.send_err) { errno = f.send_err; return -1; }
  if (f.shut) { errno = EPIPE; return -1; }
  long k = on_send ? on_send(fd, total) : (long)(total < f.room ? total : f.room);
  if (k < 0) { errno = (int)-k; return -1; }
  if (k == 0 && total) { errno = EAGAIN; return -1; }
  if (f.room != ~(size_t)0) f.room -= (size_t)k;
  *take = (size_t)k; return k;
}
ssize_t env_send(int fd, const void* p, size_t len, int) {
  if (!chk(fd, "send on a descriptor that is not open")) return -1;
  size_t k; if (sendn(fd, len, &k) == -1) return -1; fds[fd].out.add(p, k); return (ssize_t)k;
}
ssize_t env_writev(int fd, const struct iovec* v, int n) {
  if (!chk(fd, "writev on a descriptor that is not open")) return -1;
  size_t t = 0; for (int i = 0; i < n; ++i) t += v[i].iov_len;
  size_t k; if (sendn(fd, t, &k) == -1) return -1; size_t left = k;
  for (int i = 0; i < n && left; ++i) { size_t c = v[i].iov_len < left ? v[i].iov_len : left; fds[fd].out.add(v[i].iov_base, c); left -= c; }
  return (ssize_t)k;
}
int env_shutdown(int fd, int) { if (!chk(fd, "shutdown of a descriptor that is not open")) return -1; ++shutdowns; fds[fd].shut = true; return 0; }
int env_setsockopt(int fd, int lv, int opt, const void* v, socklen_t) { if (!chk(fd, "setsockopt on a descriptor that is not open")) return -1; if (lv == IPPROTO_TCP && opt == TCP_NODELAY && *(const int*)v) { fds[fd].flushes++; fds[fd].flushed_upto = fds[fd].out.n; } return 0; }
int env_getsockopt(int, int, int, void* v, socklen_t*) { *(int*)v = 0; return 0; }
int env_getpeername(int fd, struct sockaddr* sa, socklen_t*) { if (!chk(fd, "getpeername")) return -1; memset(sa, 0, sizeof(struct sockaddr_in)); sa->sa_family = AF_INET; ((sockaddr_in*)sa)->sin_addr.s_addr = fds[fd].peer_addr; return 0; }
int env_accept4(int fd, struct sockaddr* sa, socklen_t* l, int) {
  if (!chk(fd, "accept on a descriptor that is not open")) return -1;
  if (!on_accept) { errno = EAGAIN; return -1; }
  int s = on_accept(fd); if (s < 0) { errno = -s; return -1; }
  ++accepts; memset(sa, 0, sizeof(sockaddr_in)); sa->sa_family = AF_INET; ((sockaddr_in*)sa)->sin_addr.s_addr = fds[s].peer_addr; *l = sizeof(sockaddr_in); return s;
}
int env_epoll_create1(int) { return open_fd(EPOLL); }
int env_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
  if (!chk(ep, "epoll_ctl on a closed epoll descriptor") || !chk(fd, "epoll_ctl with a descriptor that is not open")) return -1;
  int at = -1; for (int i = 0; i < nregs; ++i) if (regs[i].on && regs[i].ep == ep && regs[i].fd == fd) at = i;
  if (op == EPOLL_CTL_ADD) { if (at >= 0) { errno = EEXIST; return -1; } for (int i = 0; i < nregs; ++i) if (!regs[i].on) at = i; if (at < 0) at = nregs++; regs[at].ep = ep; regs[at].fd = fd; regs[at].ev = ev->events; regs[at].on = true; return 0; }
  if (at < 0) { errno = ENOENT; return -1; }
  if (op == EPOLL_CTL_MOD) regs[at].ev = ev->events; else regs[at].on = false;
  return 0;
}
int env_epoll_wait(int ep, struct epoll_event* out, int max, int timeout) {
  if (!chk(ep, "epoll_wait on a closed descriptor")) return -1;
  if (on_epoll) { int r = on_epoll(ep, timeout); if (r < 0) { errno = -r; return -1; } }
  int n = 0; for (int i = 0; i < nev && n < max; ++i) { if (!registered(ep, evq[i].fd)) continue; out[n].events = evq[i].ev; out[n].data.u64 = 0; out[n].data.fd = evq[i].fd; ++n; }
  nev = 0; return n;
}
int env_eventfd(unsigned c, int fl) { int fd = open_fd(EVENTFD); if (fd >= 0) { fds[fd].count = c; fds[fd].nonblock = fl & EFD_NONBLOCK; } return fd; }
int env_signalfd(int, const sigset_t*, int) { return open_fd(OTHER); }
int env_sigaction(int, const struct sigaction*, struct sigaction*) { return 0; }
int env_sigemptyset(sigset_t*) { return 0; }
int env_sigaddset(sigset_t*, int) { return 0; }
void env_exit(int c) { if (on_exit_) on_exit_(c); sx_fail("process exit requested"); sx_stop(); }
void env_quick_exit(int c) { env_exit(c); }
void env__exit(int c) { env_exit(c); }
static ssize_t ev_read(vfd& f, void* b) { if (f.count == 0) { errno = EAGAIN; return -1; } memcpy(b, &f.count, 8); f.count = 0; return 8; }
ssize_t env_read(int fd, void* b, size_t n) {
  if (!chk(fd, "read on a descriptor that is not open")) return -1; vfd& f = fds[fd];
  if (f.k == EVENTFD) { if (!f.nonblock) while (f.count == 0) sx_wait(&f.count); return ev_read(f, b); }
  if (f.k == REGFILE) { vfile& v = files[f.file]; size_t k = f.fpos < v.b.n ? v.b.n - f.fpos : 0; if (k > n) k = n; memcpy(b, v.b.p + f.fpos, k); f.fpos += k; return (ssize_t)k; }
  if (f.k == OTHER && f.pos < f.in.n) { size_t k = f.in.n - f.pos; if (k > n) k = n; memcpy(b, f.in.p + f.pos, k); f.pos += k; return (ssize_t)k; }   // signals
  errno = EAGAIN; return -1;
}
ssize_t env_write(int fd, const void* b, size_t n) {
  if (fd <= 2) return (ssize_t)n;
  if (!chk(fd, "write on a descriptor that is not open")) return -1; vfd& f = fds[fd];
  if (f.k == EVENTFD) { uint64_t v; memcpy(&v, b, 8); f.count += v; sx_wake(&f.count, 0); return 8; }
  if (f.k == REGFILE) { if (on_write) { long k = on_write(fd, n); if (k < 0) { errno = (int)-k; return -1; } n = (size_t)k; }
    vfile& v = files[f.file]; while (v.b.n < f.fpos) { char z = 0; v.b.add(&z, 1); }
    size_t over = v.b.n - f.fpos; if (over > n) over = n; if (over) memcpy(v.b.p + f.fpos, b, over); if (n > over) v.b.add((const char*)b + over, n - over); f.fpos += n; return (ssize_t)n; }
  errno = EINVAL; return -1;
}
ssize_t env_pread(int fd, void* b, size_t n, off_t o) { if (!chk(fd, "pread on a descriptor that is not open")) return -1; vfile& v = files[fds[fd].file]; size_t k = (size_t)o < v.b.n ? v.b.n - (size_t)o : 0; if (k > n) k = n; if (on_pread && k) { long r = on_pread(fd, k); if (r < 0) { errno = (int)-r; return -1; } k = (size_t)r; } memcpy(b, v.b.p + o, k); return (ssize_t)k; }
ssize_t env_pread64(int fd, void* b, size_t n, off_t o) { return env_pread(fd, b, n, o); }
off_t env_lseek(int fd, off_t o, int wh) { if (!chk(fd, "lseek on a descriptor that is not open")) return -1; vfd& f = fds[fd]; f.fpos = wh == SEEK_SET ? o : wh == SEEK_CUR ? f.fpos + o : files[f.file].b.n + o; return (off_t)f.fpos; }
off_t env_lseek64(int fd, off_t o, int wh) { return env_lseek(fd, o, wh); }
int env_ftruncate(int fd, off_t o) { if (!chk(fd, "ftruncate on a descriptor that is not open")) return -1; vfile& v = files[fds[fd].file]; if ((size_t)o <= v.b.n) v.b.n = o; else { char z = 0; while (v.b.n < (size_t)o) v.b.add(&z, 1); } return 0; }
int env_ftruncate64(int fd, off_t o) { return env_ftruncate(fd, o); }
int env_mkostemp(char*, int) { int fd = open_fd(REGFILE); if (fd < 0) return -1; int k = -1; for (int i = 0; i < nfiles; ++i) if (files[i].refs == 0) k = i; if (k < 0) k = nfiles++; if (k >= 16) sx_fail("environment: too many files"); files[k].b.clear(); files[k].refs = 1; fds[fd].file = k; return fd; }
int env_mkostemp64(char* t, int f) { return env_mkostemp(t, f); }
int env_unlink(const char*) { return 0; }
int env_dup(int fd) { if (!chk(fd, "dup of a descriptor that is not open")) return -1; int n = open_fd(fds[fd].k); if (n < 0) return -1; fds[n].file = fds[fd].file; if (fds[n].file >= 0) files[fds[n].file].refs++; return n; }
int env_fdatasync(int) { return 0; }
int env_fsync(int) { return 0; }
int env_posix_fadvise(int, off_t, off_t, int) { return 0; }
int env_posix_fadvise64(int, off_t, off_t, int) { return 0; }
int env_getpid(void) { return 4242; }
// addresses and outgoing connections: resolution always yields one IPv4 address; the VIP is present iff has_vip
static struct sockaddr_in the_if; static struct ifaddrs the_ifa;
int env_getifaddrs(struct ifaddrs** a) { if (on_addrs) on_addrs(); if (!has_vip) { *a = nullptr; return 0; } memset(&the_if, 0, sizeof the_if); the_if.sin_family = AF_INET; memset(&the_ifa, 0, sizeof the_ifa); the_ifa.ifa_addr = (sockaddr*)&the_if; *a = &the_ifa; return 0; }
void env_freeifaddrs(struct ifaddrs*) {}
static struct sockaddr_in the_sa; static struct addrinfo the_ai;
int env_getaddrinfo(const char*, const char* svc, const struct addrinfo* h, struct addrinfo** r) { memset(&the_sa, 0, sizeof the_sa); the_sa.sin_family = AF_INET; int port = 0; if (svc) while (*svc) port = port * 10 + (*svc++ - '0'); the_sa.sin_port = (in_port_t)port; memset(&the_ai, 0, sizeof the_ai); the_ai.ai_family = h->ai_family; the_ai.ai_socktype = SOCK_STREAM; the_ai.ai_addr = (sockaddr*)&the_sa; the_ai.ai_addrlen = sizeof the_sa; *r = &the_ai; return 0; }
void env_freeaddrinfo(struct addrinfo*) {}
int env_getnameinfo(const struct sockaddr*, socklen_t, char* host, socklen_t, char*, socklen_t, int) { memcpy(host, "0.0.0.0", 8); return 0; }
const char* env_gai_strerror(int) { return "error"; }
int env_socket(int, int, int) { return open_fd(SOCK); }
int env_connect(int fd, const struct sockaddr* sa, socklen_t) { if (!chk(fd, "connect")) return -1; fds[fd].port = ((const sockaddr_in*)sa)->sin_port; if (on_connect) { int e = on_connect(fd); if (e) { errno = e; return -1; } } return 0; }
int env_bind(int fd, const struct sockaddr* sa, socklen_t) { if (!chk(fd, "bind")) return -1; fds[fd].port = ((const sockaddr_in*)sa)->sin_port; return 0; }
int env_listen(int fd, int) { if (!chk(fd, "listen")) return -1; fds[fd].k = LISTEN; return 0; }
int env_poll(struct pollfd* f, nfds_t, int) { f->revents = POLLOUT; return 1; }
// clock used by std::chrono::steady_clock
std::chrono::steady_clock::time_point env_steady_now() asm("env__ZNSt6chrono3_V212steady_clock3nowEv");
std::chrono::steady_clock::time_point env_steady_now() { return std::chrono::steady_clock::time_point(std::chrono::milliseconds(mono_ms)); }
}
// ---- std::ifstream: the only file read that way is the configuration file, whose text is env::config_text
namespace env { bytes config_text; bool config_missing = false; }
static size_t cfg_pos; static bool cfg_fail; static int64_t fake_vt[8] = {0, 0, 0, 0, 0, 0, 0, 0}; static char fake_ctype[600];
extern "C" {
void env_ifs_ctor(void* self, const std::string*, int) asm("env__ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void env_ifs_ctor(void* self, const std::string*, int) { memset(self, 0, 300); *(void**)self = (void*)&fake_vt[4]; *(void**)((char*)self + 240) = fake_ctype; fake_ctype[56] = 1; for (int i = 0; i < 256; ++i) fake_ctype[57 + i] = (char)i; cfg_pos = 0; cfg_fail = env::config_missing; *(int*)((char*)self + 32) = cfg_fail ? 4 : 0; }
void env_ifs_dtor(void*) asm("env__ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev");
void env_ifs_dtor(void*) {}
bool env_ios_not(void*) asm("env__ZNKSt9basic_iosIcSt11char_traitsIcEEntEv");
bool env_ios_not(void*) { return cfg_fail; }
bool env_ios_bool(void*) asm("env__ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv");
bool env_ios_bool(void*) { return !cfg_fail; }
void* env_getline(void* is, std::string* s) asm("env__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void* env_getline(void* is, std::string* s) {
  s->clear(); if (cfg_fail || cfg_pos >= env::config_text.n) { cfg_fail = true; *(int*)((char*)is + 32) = 6; return is; }
  while (cfg_pos < env::config_text.n) { char c = env::config_text.p[cfg_pos++]; if (c == '\n') break; s->push_back(c); }
  return is;
}
void* env_getline3(void* is, std::string* s, char) asm("env__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
void* env_getline3(void* is, std::string* s, char) { return env_getline(is, s); }
void env_ifs_dtor2(void*, void*) asm("env__ZNSt14basic_ifstreamIcSt11char_traitsIcEED2Ev");
void env_ifs_dtor2(void*, void*) {}
void env_ios_dtor2(void*) asm("env__ZNSt9basic_iosIcSt11char_traitsIcEED2Ev");
void env_ios_dtor2(void*) {}
void env_iosb_dtor2(void*) asm("env__ZNSt8ios_baseD2Ev");
void env_iosb_dtor2(void*) {}
}
