// A model of the kernel objects arpc uses: pipes, stream sockets, regular
// files, poll and the clocks. Modelled descriptors start at 1000. The same
// source runs under the symbolic executor and natively (replay); there, calls
// on other descriptors go to the real kernel. Time is virtual: it advances to
// the next timer or event when every thread is blocked.
#include "symx.h"
#include "kern.h"
#include <chrono>
#include <cstdarg>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <sys/socket.h>
#ifndef SYMX_ENGINE
#include <sys/syscall.h>
#include <unistd.h>
#endif
extern "C" {
int __symx_tid();
void __symx_acq(const void* p);
void __symx_rel(const void* p);
void __symx_fail(const char* kind, const char* label);
void symx_sched();
void symx_block_poll(int (*ready)(void*), void* arg, int64_t until);
void symx_kernel_changed();
}
namespace {
int BASE = 1000;
const int MAXFD = 96, MAXOBJ = 96;
// One direction of bytes. Shared by both ends.
struct Buf { char d[KERN_BUF]; int n = 0; int ends = 0; bool used = false, wclosed = false, rclosed = false; };
Buf bufs[64];
Buf* newBuf() {
  for (auto& b : bufs) if (!b.used) { b.used = true; b.ends = 2; b.n = 0; b.wclosed = b.rclosed = false; return &b; }
  __symx_fail("limit", "too many pipes in the kernel model");
  return nullptr;
}
enum { FREE, PIPE_R, PIPE_W, SOCK, REG };
struct Opt { int level, name, len; char v[16]; };
struct File { int used = 0; char path[48]; int mode = 0; char d[KERN_BUF]; int n = 0; };
struct Desc {
  int kind = FREE, refs = 0, flags = 0;
  Buf *rx = nullptr, *tx = nullptr;
  // sockets
  int state = 0;  // 0 new, 1 bound, 2 listening, 3 connecting, 4 connected
  int family = 0, type = 0, proto = 0, soerror = 0;
  char addr[32]; int addrLen = 0; char peer[32]; int peerLen = 0;
  int backlog = 0, q[4], qn = 0;  // descriptors waiting to be accepted
  Opt opt[8]; int nopt = 0;
  int file = -1, pos = 0;
};
Desc desc[MAXOBJ];
int fds[MAXFD];  // descriptor index + 1
File files[4];
kern_events_t K;
int64_t nowMs = 0;
bool ours(int fd) { return fd >= BASE; }
Desc* get(int fd) {
  if (fd < BASE || fd >= BASE + MAXFD || !fds[fd - BASE]) { errno = EBADF; return nullptr; }
  return &desc[fds[fd - BASE] - 1];
}
int newDesc() {
  for (int i = 0; i < MAXOBJ; i++) if (desc[i].kind == FREE) { desc[i] = Desc(); desc[i].refs = 0; return i; }
  __symx_fail("limit", "too many open files in the kernel model");
  return -1;
}
int newFd(int d) {
  for (int i = 0; i < MAXFD; i++) if (!fds[i]) { fds[i] = d + 1; desc[d].refs++; return BASE + i; }
  __symx_fail("limit", "too many descriptors in the kernel model");
  return -1;
}
void changed() { symx_kernel_changed(); }
void dropDesc(int i) {
  Desc& d = desc[i];
  if (--d.refs) return;
  if (d.kind == PIPE_R) d.rx->rclosed = true;
  if (d.kind == PIPE_W) d.tx->wclosed = true;
  if (d.kind == SOCK) { if (d.rx) d.rx->rclosed = true; if (d.tx) d.tx->wclosed = true; int n = d.qn; d.qn = 0; for (int k = 0; k < n; k++) dropDesc(d.q[k]); }
  if (d.rx && !--d.rx->ends) d.rx->used = false;
  if (d.tx && !--d.tx->ends) d.tx->used = false;
  d.kind = FREE; d.rx = d.tx = nullptr;
}
int events(int fd, int want) {
  if (fd < 0) return 0;
  if (fd < BASE || fd >= BASE + MAXFD || !fds[fd - BASE]) return POLLNVAL;
  Desc& d = desc[fds[fd - BASE] - 1];
  int r = 0;
  if (d.kind == REG) r = POLLIN | POLLOUT;
  if (d.kind == PIPE_R) { if (d.rx->n) r |= POLLIN; if (d.rx->wclosed) r |= POLLHUP; }
  if (d.kind == PIPE_W) { if (d.tx->n < K.capacity) r |= POLLOUT; if (d.tx->rclosed) r |= POLLERR; }
  if (d.kind == SOCK) {
    if (d.state == 2) { if (d.qn) r |= POLLIN; }
    else if (d.state == 4) {
      if (d.rx->n || d.rx->wclosed || d.rx->rclosed) r |= POLLIN;
      if (d.tx->n < K.capacity || d.tx->rclosed) r |= POLLOUT;
      if (d.rx->wclosed && d.tx->wclosed) r |= POLLHUP;
    } else if (d.state != 3) r |= POLLOUT | POLLHUP;
    if (d.soerror) r |= POLLERR | POLLOUT | POLLIN;
  }
  return r & (want | POLLERR | POLLHUP | POLLNVAL);
}
struct PollArg { pollfd* f; unsigned long n; };
int scan(void* p) {
  auto* a = (PollArg*)p; int c = 0;
  for (unsigned long i = 0; i < a->n; i++) if (events(a->f[i].fd, a->f[i].events)) c++;
  return c;
}
int fault(int which) {
  if (K.faults[which] <= 0) return 0;
  if (!sym_choose(2, "fault")) return 0;
  K.faults[which]--;
  return 1;
}
int readyRead(void* p) { auto* d = (Desc*)p; return d->rx->n || d->rx->wclosed || d->rx->rclosed; }
int readyWrite(void* p) { auto* d = (Desc*)p; return d->tx->n < K.capacity || d->tx->rclosed; }
int amount(int n) { if (n > 1 && K.shortIO > 0) { K.shortIO--; int k = (int)sym_choose(n, "transferred"); return k + 1; } return n; }
}  // namespace
extern "C" {
kern_events_t* kern() { return &K; }
int64_t kern_now() { return nowMs; }
void kern_set_now(int64_t t) { nowMs = t & (((int64_t)1 << 40) - 1); }  // 35 years; gives the solver a range
void kern_first_fd(int fd) { BASE = fd; }  // before anything is open
int kern_open_fds() { int n = 0; for (int i = 0; i < MAXFD; i++) n += fds[i] != 0; return n; }
int kern_pipe_bytes(int fd) { Desc* d = get(fd); return d && d->rx ? d->rx->n : -1; }
int kern_flags(int fd) { Desc* d = get(fd); return d ? d->flags : -1; }
int kern_desc(int fd) { Desc* d = get(fd); return d ? (int)(d - desc) : -1; }
int kern_opt(int fd, int level, int name, void* v) { Desc* d = get(fd); if (d) for (int i = 0; i < d->nopt; i++) if (d->opt[i].level == level && d->opt[i].name == name) { memcpy(v, d->opt[i].v, d->opt[i].len); return d->opt[i].len; } return -1; }
int kern_file_mode(const char* path) { for (auto& f : files) if (f.used && !strcmp(f.path, path)) return f.mode; return -1; }
int kern_file_size(const char* path) { for (auto& f : files) if (f.used && !strcmp(f.path, path)) return f.n; return -1; }
const char* kern_file_data(const char* path) { for (auto& f : files) if (f.used && !strcmp(f.path, path)) return f.d; return nullptr; }
void kern_file(const char* path, const char* data, int n) { for (auto& f : files) if (!f.used) { f.used = 1; strcpy(f.path, path); f.mode = 0644; f.n = n; memcpy(f.d, data, n); return; } }
void kern_socketpair(int* out) {
  Buf *a = newBuf(), *b = newBuf();
  for (int k = 0; k < 2; k++) {
    int d = newDesc(); desc[d].kind = SOCK; desc[d].state = 4; desc[d].flags = O_RDWR; desc[d].family = AF_INET; desc[d].type = SOCK_STREAM;
    desc[d].rx = k ? b : a; desc[d].tx = k ? a : b; out[k] = newFd(d);
  }
}
#ifdef SYMX_ENGINE
#define PASS(call) do { errno = EBADF; return -1; } while (0)
#else
#define PASS(call) return call
#endif
int pipe(int* out) noexcept {
  if (fault(KF_OPEN)) { errno = EMFILE; return -1; }
  Buf* b = newBuf();
  int r = newDesc(); desc[r].kind = PIPE_R; desc[r].rx = b; desc[r].flags = O_RDONLY; out[0] = newFd(r);
  int w = newDesc(); desc[w].kind = PIPE_W; desc[w].tx = b; desc[w].flags = O_WRONLY; out[1] = newFd(w);
  return 0;
}
int close(int fd) {
  if (!ours(fd)) PASS(syscall(SYS_close, fd));
  if (!get(fd)) { K.badClose++; return -1; }
  int i = fds[fd - BASE] - 1; fds[fd - BASE] = 0;
  dropDesc(i);
  changed(); symx_sched();
  return 0;
}
int dup(int fd) noexcept {
  if (!ours(fd)) PASS(syscall(SYS_dup, fd));
  if (!get(fd)) return -1;
  if (fault(KF_OPEN)) { errno = EMFILE; return -1; }
  return newFd(fds[fd - BASE] - 1);
}
// fcntl and open are variadic for callers; the third argument is only looked at where it is required.
int k_fcntl(int fd, int cmd, int arg) asm("fcntl");
int k_fcntl(int fd, int cmd, int arg) {
  if (!ours(fd)) PASS(syscall(SYS_fcntl, fd, cmd, arg));
  Desc* d = get(fd); if (!d) return -1;
  if (cmd == F_GETFL) return d->flags;
  if (cmd == F_SETFL) { const int can = O_NONBLOCK | O_APPEND; d->flags = (d->flags & ~can) | (arg & can); return 0; }
  errno = EINVAL; return -1;
}
ssize_t read(int fd, void* p, size_t n) {
  if (!ours(fd)) PASS(syscall(SYS_read, fd, p, n));
  Desc* d = get(fd); if (!d) return -1;
  if (d->kind == PIPE_W || (d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (fault(KF_READ)) { errno = K.readErr; return -1; }
  if (d->kind == REG) { File& f = files[d->file]; int k = f.n - d->pos; if (k < 0) k = 0; if ((size_t)k > n) k = n; if (k) k = amount(k); memcpy(p, f.d + d->pos, k); d->pos += k; return k; }
  if (!d->rx) { errno = ENOTCONN; return -1; }
  if (d->soerror) { errno = d->soerror; d->soerror = 0; return -1; }
  if (n == 0) { symx_sched(); return 0; }
  while (!readyRead(d)) {
    if (d->flags & O_NONBLOCK) { errno = EAGAIN; symx_sched(); return -1; }
    symx_block_poll(readyRead, d, -1);
  }
  __symx_acq(d->rx);
  Buf& b = *d->rx;
  if (b.rclosed && d->kind == SOCK) { symx_sched(); return 0; }
  int k = b.n; if ((size_t)k > n) k = (int)n;
  if (k) k = amount(k);
  memcpy(p, b.d, k); memmove(b.d, b.d + k, b.n - k); b.n -= k;
  __symx_rel(d->rx);
  changed(); symx_sched();
  return k;
}
ssize_t write(int fd, const void* p, size_t n) {
  if (!ours(fd)) PASS(syscall(SYS_write, fd, p, n));
  Desc* d = get(fd); if (!d) return -1;
  if (d->kind == PIPE_R || (d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (fault(KF_WRITE)) { errno = K.writeErr; return -1; }
  if (d->kind == REG) {
    File& f = files[d->file]; if (d->flags & O_APPEND) d->pos = f.n;
    if (d->pos + n > KERN_BUF) { errno = ENOSPC; return -1; }
    int k = n ? amount((int)n) : 0; memcpy(f.d + d->pos, p, k); d->pos += k; if (d->pos > f.n) f.n = d->pos; return k;
  }
  if (!d->tx) { errno = ENOTCONN; return -1; }
  if (d->soerror) { errno = d->soerror; d->soerror = 0; return -1; }
  if (d->kind == SOCK && d->tx->wclosed) { K.sigpipe++; errno = EPIPE; return -1; }
  if (n == 0) return 0;
  while (!readyWrite(d)) {
    if (d->flags & O_NONBLOCK) { errno = EAGAIN; symx_sched(); return -1; }
    symx_block_poll(readyWrite, d, -1);
  }
  if (d->tx->rclosed) { K.sigpipe++; errno = EPIPE; symx_sched(); return -1; }
  Buf& b = *d->tx;
  __symx_acq(d->tx);
  int k = K.capacity - b.n; if ((size_t)k > n) k = (int)n;
  k = amount(k);
  memcpy(b.d + b.n, p, k); b.n += k;
  __symx_rel(d->tx);
  changed(); symx_sched();
  return k;
}
int poll(pollfd* f, nfds_t n, int timeout) {
  K.polls++;
  if (fault(KF_EINTR)) { errno = EINTR; return -1; }
  PollArg a{f, n};
  int64_t until = -1;
  bool expired = timeout == 0;
  if (timeout > 0) until = nowMs + timeout;
  if (K.onPoll) K.onPoll(f, n, timeout);
  while (!scan(&a) && !expired) {
    symx_block_poll(scan, &a, until);
    if (timeout > 0 && nowMs >= until) expired = true;
  }
  int c = 0;
  for (nfds_t i = 0; i < n; i++) {
    int e = events(f[i].fd, f[i].events);
    f[i].revents = e;
    if (e) { c++; Desc* d = e & POLLNVAL ? nullptr : get(f[i].fd); if (d && d->rx) __symx_acq(d->rx); if (d && d->tx) __symx_acq(d->tx); if (d) __symx_acq(d); }
  }
  symx_sched();
  return c;
}
int socket(int family, int type, int proto) noexcept {
  if (fault(KF_OPEN)) { errno = EMFILE; return -1; }
  int i = newDesc(); Desc& d = desc[i]; d.kind = SOCK; d.family = family; d.type = type & 0xf; d.proto = proto; d.flags = O_RDWR; 
  return newFd(i);
}
int bind(int fd, const sockaddr* a, socklen_t n) noexcept {
  Desc* d = get(fd); if (!d) return -1;
  if (fault(KF_BIND)) { errno = EADDRINUSE; return -1; }
  if (n > sizeof d->addr) { errno = EINVAL; return -1; }
  memcpy(d->addr, a, n); d->addrLen = n; d->state = 1; return 0;
}
int listen(int fd, int backlog) noexcept { Desc* d = get(fd); if (!d) return -1; d->state = 2; d->backlog = backlog; return 0; }
static int establish(Desc* c, Desc* l) {
  int i = newDesc(); Desc& s = desc[i]; s.kind = SOCK; s.state = 4; s.family = l->family; s.type = l->type; s.proto = l->proto; s.flags = O_RDWR; s.refs = 1;
  Buf *a = newBuf(), *b = newBuf(); s.rx = a; s.tx = b; c->rx = b; c->tx = a; c->state = 4;
  memcpy(c->peer, l->addr, l->addrLen); c->peerLen = l->addrLen; memcpy(s.addr, l->addr, l->addrLen); s.addrLen = l->addrLen; memcpy(s.peer, c->addr, c->addrLen); s.peerLen = c->addrLen;
  l->q[l->qn++] = i; __symx_rel(l);
  return 0;
}
int connect(int fd, const sockaddr* a, socklen_t n) {
  Desc* d = get(fd); if (!d) return -1;
  K.connects++;
  Desc* l = nullptr;
  for (auto& o : desc) if (o.kind == SOCK && o.state == 2 && o.addrLen == (int)n && !memcmp(o.addr, a, n) && o.qn < 4) l = &o;
  // Mode 1: may complete later or be refused; 2: completes later; 3: silence where nobody listens.
  int how = K.connectMode == 1 ? (int)sym_choose(3, "connect") : K.connectMode ? 1 : 0;  // 0 normal, 1 asynchronous, 2 refused
  if (!l && K.connectMode == 3) { if (d->flags & O_NONBLOCK) { d->state = 3; errno = EINPROGRESS; return -1; } errno = ETIMEDOUT; return -1; }
  if (how == 2 || !l) {
    if (how != 2 && K.connectMode && (d->flags & O_NONBLOCK)) { d->soerror = ECONNREFUSED; errno = EINPROGRESS; return -1; }
    errno = ECONNREFUSED; return -1;
  }
  if (how == 1 && (d->flags & O_NONBLOCK)) { establish(d, l); changed(); errno = EINPROGRESS; return -1; }
  establish(d, l); changed(); symx_sched();
  return 0;
}
static int readyAccept(void* p) { return ((Desc*)p)->qn; }
int accept(int fd, sockaddr* a, socklen_t* n) {
  Desc* d = get(fd); if (!d) return -1;
  if (d->state != 2) { errno = EINVAL; return -1; }
  while (!d->qn) { if (d->flags & O_NONBLOCK) { errno = EAGAIN; return -1; } symx_block_poll(readyAccept, d, -1); }
  __symx_acq(d);
  if (fault(KF_ACCEPT)) { errno = K.acceptErr; int gone = d->q[0]; d->qn--; for (int k = 0; k < d->qn; k++) d->q[k] = d->q[k + 1]; dropDesc(gone); return -1; }
  int i = d->q[0]; d->qn--; for (int k = 0; k < d->qn; k++) d->q[k] = d->q[k + 1];
  if (a) { int m = desc[i].peerLen; if (*n < (socklen_t)m) m = *n; memcpy(a, desc[i].peer, m); *n = desc[i].peerLen; }
  int r = newFd(i); desc[i].refs--;
  symx_sched();
  return r;
}
int shutdown(int fd, int how) noexcept {
  Desc* d = get(fd); if (!d) return -1;
  if (d->kind != SOCK) { errno = ENOTSOCK; return -1; }
  if (d->state != 4) { errno = ENOTCONN; return -1; }
  if (how == SHUT_RD || how == SHUT_RDWR) d->rx->rclosed = true;
  if (how == SHUT_WR || how == SHUT_RDWR) d->tx->wclosed = true;
  changed(); symx_sched();
  return 0;
}
int setsockopt(int fd, int level, int name, const void* v, socklen_t n) noexcept {
  Desc* d = get(fd); if (!d) return -1;
  if (d->kind != SOCK) { errno = ENOTSOCK; return -1; }
  if (n > 16) { errno = EINVAL; return -1; }
  Opt* o = nullptr;
  for (int i = 0; i < d->nopt; i++) if (d->opt[i].level == level && d->opt[i].name == name) o = &d->opt[i];
  if (!o) { if (d->nopt == 8) __symx_fail("limit", "socket options"); o = &d->opt[d->nopt++]; o->level = level; o->name = name; }
  o->len = n; memcpy(o->v, v, n);
  return 0;
}
int getsockopt(int fd, int level, int name, void* v, socklen_t* n) noexcept {
  Desc* d = get(fd); if (!d) return -1;
  if (d->kind != SOCK) { errno = ENOTSOCK; return -1; }
  if (level == SOL_SOCKET && (name == SO_ERROR || name == SO_TYPE || name == SO_PROTOCOL)) {
    int x = name == SO_ERROR ? d->soerror : name == SO_TYPE ? d->type : d->proto;
    if (name == SO_ERROR) d->soerror = 0;
    if (*n < sizeof x) { errno = EINVAL; return -1; }
    memcpy(v, &x, sizeof x); *n = sizeof x; return 0;
  }
  for (int i = 0; i < d->nopt; i++) if (d->opt[i].level == level && d->opt[i].name == name) { if ((int)*n > d->opt[i].len) *n = d->opt[i].len; memcpy(v, d->opt[i].v, *n); return 0; }
  memset(v, 0, *n); return 0;
}
static int nameOf(const char* s, int len, sockaddr* a, socklen_t* n) { int m = len; if (*n < (socklen_t)m) m = *n; memcpy(a, s, m); *n = len; return 0; }
int getsockname(int fd, sockaddr* a, socklen_t* n) noexcept { Desc* d = get(fd); return d ? nameOf(d->addr, d->addrLen, a, n) : -1; }
int getpeername(int fd, sockaddr* a, socklen_t* n) noexcept { Desc* d = get(fd); if (!d) return -1; if (d->state != 4) { errno = ENOTCONN; return -1; } return nameOf(d->peer, d->peerLen, a, n); }
#ifdef SYMX_ENGINE
__sighandler_t signal(int s, __sighandler_t h) noexcept { static __sighandler_t now[65]; auto old = now[s]; now[s] = h; return old; }
#endif
int k_open(const char* path, int flags, int arg) asm("open");
int k_open(const char* path, int flags, int arg) {
  int mode = -1;
  if (flags & O_CREAT) mode = arg;
#ifndef SYMX_ENGINE
  if (path[0] != 'k' || path[1] != ':') return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
#endif
  if (fault(KF_OPEN)) { errno = EMFILE; return -1; }
  int fi = -1;
  for (int i = 0; i < 4; i++) if (files[i].used && !strcmp(files[i].path, path)) fi = i;
  if (fi < 0) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    for (int i = 3; i >= 0; i--) if (!files[i].used) fi = i;
    if (fi < 0) __symx_fail("limit", "too many files in the kernel model");
    files[fi].used = 1; strcpy(files[fi].path, path); files[fi].mode = mode; files[fi].n = 0;
  }
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) files[fi].n = 0;
  int i = newDesc(); desc[i].kind = REG; desc[i].file = fi; desc[i].flags = flags & (O_ACCMODE | O_APPEND | O_NONBLOCK);
  return newFd(i);
}
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(kern_now() * 1000000 + K.steadyEpochNs)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(kern_now() * 1000000 + K.systemEpochNs)); }
}}}
