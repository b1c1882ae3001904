// Model of the operating system used by the harnesses: descriptors, sockets, epoll, files, clocks.
// The same code runs under symx (env_X replaces X) and natively in replays (repo objects have X renamed to env_X).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <errno.h>
#include <sys/types.h>
#include "sx.h"
namespace env {
enum kind { FREE, SOCK, LISTEN, EPOLL, EVENTFD, REGFILE, OTHER };
struct bytes { char* p = nullptr; size_t n = 0, cap = 0; void add(const void* q, size_t k); void clear() { n = 0; } };
const int MAXFD = 48, MAXCH = 64;
struct vfd {
  kind k = FREE; int gen = 0; bool nonblock = true;
  // socket input: bytes with chunk boundaries; recv never crosses a boundary
  bytes in; size_t pos = 0; size_t bound[MAXCH]; int nb = 0, cb = 0; bool eof = false; int err = 0;
  bytes out; bool shut = false; int send_err = 0; size_t room = ~(size_t)0; int nodelay = 0, flushes = 0; size_t flushed_upto = 0;
  int port = 0; uint64_t count = 0;              // eventfd
  int file = -1; size_t fpos = 0;  // regular file
  int peer_family = 2; unsigned peer_addr = 0x0100007f; // listen: pending accepts use these
};
extern vfd fds[MAXFD];
struct freg { int ep, fd; uint32_t ev; bool on; };
extern freg regs[64]; extern int nregs;
struct vfile { bytes b; int refs = 0; bool linked = true; };
extern vfile files[16]; extern int nfiles;
extern int64_t now, mono_ms; extern int lowest_fd;
extern int closes, shutdowns, sleeps, accepts;
// number of bytes accepted by one send/writev of `total` bytes: 0 means EAGAIN, negative -errno
extern long (*on_send)(int fd, size_t total);
extern long (*on_write)(int fd, size_t total), (*on_pread)(int fd, size_t total);   // regular files
extern void (*on_sleep)();
extern int (*on_accept)(int fd);                 // returns a fd or -errno
extern int (*on_epoll)(int ep, int timeout);             // called by epoll_wait before events are returned; negative: -errno
extern int (*on_recv)(int fd);                   // errno to fail with, or 0
extern void (*on_exit_)(int code); extern int (*on_connect)(int fd); extern bool has_vip; extern void (*on_addrs)();
extern bool strict_closed;                       // using a closed descriptor is a violation
int open_fd(kind k);
int new_sock();
void feed(int fd, const void* p, size_t n);      // one segment arriving on the socket
void feed_eof(int fd);
// events to be returned by the next epoll_wait, in order
void event(int fd, uint32_t ev); void clear_events(); int pending_events();
extern bytes config_text; extern bool config_missing;
bool is_open(int fd); bool registered(int ep, int fd);
}
