// C33 channels, C38 files, dialling, listening and name resolution, over the modelled kernel.
#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <cstddef>
#include <deque>
#include <fcntl.h>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <optional>
#include <signal.h>
#include <string.h>
#include <thread>
#include <unistd.h>
#include <utility>
#include <vector>
#include "arpc/address.h"
#include "arpc/address_resolver.h"
#include "arpc/awaitable.h"
#include "arpc/channel.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/file.h"
#include "arpc/pipe.h"
#include "arpc/select.h"
#include "arpc/socket.h"
#include "arpc/wait.h"
#include "kern.h"
#include "symx.h"
using namespace arpc;
using ms = std::chrono::milliseconds;
namespace {
enum How { VALUE, AGAIN, END, FAILED, CANCELLED, EXPIRED };
template <class F> How outcome(F&& f) {
  try { f(); return VALUE; }
  catch (const errors::try_again&) { return AGAIN; }
  catch (const errors::eof&) { return END; }
  catch (const errors::io_error&) { return FAILED; }
  catch (const errors::cancelled&) { return CANCELLED; }
  catch (const errors::deadline_exceeded&) { return EXPIRED; }
}
// An address of n bytes whose contents depend on tag.
void fill(address& a, int n, int tag) {
  memset(a.address_data(), 0, n);
  if (n >= 16) { auto* s = (sockaddr_in*)a.address_data(); s->sin_port = htons(tag); }
  a.address_data()->sa_family = n == 28 ? AF_INET6 : n == 16 ? AF_INET : AF_UNIX;
  if (n > 2) ((char*)a.address_data())[n - 1] = (char)tag;
  a.address_size() = n; a.family() = a.address_data()->sa_family; a.socket_type() = SOCK_STREAM;
}
bool same(const address& a, const address& b) { return a.address_size() == b.address_size() && !memcmp(a.address_data(), b.address_data(), b.address_size()); }
}  // namespace
// Who owns which descriptor, against a list of numbers.
extern "C" void ch_own() {
  int n = (int)symx_param(0, 4);
  // Programs may run with their standard descriptors closed: 0 is a valid descriptor.
  if (symx_param(1, 0)) kern_first_fd(0); else context::top();
  int before = kern_open_fds(), open = 0;
  {
    channel c[3]; int m[3] = {-1, -1, -1};
    auto drop = [&](int& fd) { if (fd >= 0) open--; fd = -1; };
    for (int i = 0; i < n; i++) {
      auto op = sym_choose(11, "op");
      int a = (int)sym_choose(2, "a"), b = 1 + (int)sym_choose(2, "b");
      if (op == 0) {
        channel p[2]; pipe(p);
        drop(m[a]); m[a] = p[0].get(); open++; c[a] = std::move(p[0]);
        CHECK(!p[0] && p[0].get() == -1, "a moved-from channel owns nothing");
      }
      if (op == 1) { c[a] = std::move(c[b]); if (a != b) { drop(m[a]); std::swap(m[a], m[b]); } }
      if (op == 2) { channel t(std::move(c[a])); CHECK(t.get() == m[a] && !c[a], "move construction transfers ownership"); drop(m[a]); }
      if (op == 3) { c[a].swap(c[b]); std::swap(m[a], m[b]); }
      if (op == 4) { c[a].reset(); drop(m[a]); }
      if (op == 5) {
        int fd = c[a].release(); CHECK(fd == m[a], "release hands over the descriptor");
        if (fd >= 0) { CHECK(kern_flags(fd) >= 0, "without closing it"); if (sym_bool("back")) { c[b].reset(fd); if (a != b) drop(m[b]); m[b] = fd; if (a != b) m[a] = -1; } else { ::close(fd); drop(m[a]); } }
      }
      if (op == 6) { c[a].close(); drop(m[a]); }
      if (op == 7 && m[a] >= 0) {
        auto d = c[a].dup();
        CHECK(d.get() != m[a] && kern_desc(d.get()) == kern_desc(m[a]), "dup opens another descriptor for the same file");
        int fd = d.get();
        c[b] = std::move(d); drop(m[b]); m[b] = fd; open++;
      }
      if (op == 8) { channel t; t = std::move(c[a]); t = channel(); CHECK(!c[a], "moved away"); drop(m[a]); }
      if (op == 9) { auto how = outcome([&] { char x; c[a].maybe_read(&x, 1); }); if (m[a] < 0) CHECK(how == FAILED, "an empty channel cannot be read"); }
      if (op == 10) { c[a] = std::move(c[a]); }
      for (int k = 0; k < 3; k++) {
        CHECK(c[k].get() == m[k] && *c[k] == m[k] && (bool)c[k] == (m[k] >= 0), "each channel holds its descriptor");
        if (m[k] >= 0) CHECK(kern_flags(m[k]) >= 0, "which is open");
      }
      CHECK(kern_open_fds() == before + open, "exactly the owned descriptors are open");
    }
    symx_reach(open ? "open" : "none");
  }
  CHECK(kern_open_fds() == before, "every descriptor is closed in the end");
  CHECK(kern()->badClose == 0, "no descriptor is closed twice");
}
// Bytes through a non-blocking pipe or socket pair, against a queue.
extern "C" void ch_stream() {
  int n = (int)symx_param(0, 4);
  kern()->capacity = (int)symx_param(1, 3);
  context::top();
  int before = kern_open_fds();
  {
    channel r, w;
    bool sock = sym_bool("socket");
    if (sock) { int f[2]; kern_socketpair(f); r.reset(f[0]); w.reset(f[1]); } else { channel p[2]; pipe(p); r = std::move(p[0]); w = std::move(p[1]); }
    r.make_non_blocking(); w.make_non_blocking();
    kern()->shortIO = 1;
    bool flaky = sym_bool("fails"); kern()->faults[KF_READ] = kern()->faults[KF_WRITE] = flaky; kern()->readErr = kern()->writeErr = EIO;
    std::deque<char> q;
    bool ended = false, sym = true;
    for (int i = 0; i < n; i++) {
      auto op = sym_choose(4, "op");
      auto len = sym_choose(4, "len");
      char buf[4]; symx_bytes(buf, 4, "data");
      if (op == 0 && !ended) {
        size_t k = 0; bool async = sym; auto had = q.size();
        int left = kern()->faults[KF_WRITE];
        How h = outcome([&] { k = w.maybe_write(buf, len); });
        bool broke = kern()->faults[KF_WRITE] != left;
        if (broke) CHECK(h == FAILED, "a failed write is reported");
        else if (len == 0) CHECK(h == VALUE && k == 0, "writing nothing succeeds");
        else if ((int)had == kern()->capacity) CHECK(h == AGAIN, "a full channel asks to try again");
        else { CHECK(h == VALUE && k >= 1 && k <= len, "part of the data is written"); for (size_t j = 0; j < k; j++) q.push_back(buf[j]); }
        (void)async;
      }
      if (op == 1) {
        char in[4]; memset(in, 0x55, 4); size_t k = 0;
        int left = kern()->faults[KF_READ];
        How h = outcome([&] { k = r.maybe_read(in, len); });
        bool broke = kern()->faults[KF_READ] != left;
        if (broke) CHECK(h == FAILED, "a failed read is reported");
        else if (len == 0) CHECK(h == VALUE && k == 0, "reading nothing succeeds");
        else if (q.empty()) CHECK(h == (ended ? END : AGAIN), "an empty channel asks to try again, or is at its end");
        else {
          CHECK(h == VALUE && k >= 1 && k <= len && k <= q.size(), "part of the data is read");
          for (size_t j = 0; j < k; j++) { CHECK(in[j] == q.front(), "bytes arrive in order and unchanged"); q.pop_front(); }
          for (size_t j = k; j < 4; j++) CHECK(in[j] == 0x55, "nothing else is touched");
        }
      }
      if (op == 2 && !ended) { ended = true; if (sock && sym_bool("shutdown")) w.shutdown(false, true); else w.close(); }
      if (op == 3) {
        char in[4]; size_t k = 0;
        kern()->faults[KF_READ] = kern()->faults[KF_WRITE] = 0;
        auto [got, t] = select(r.async_read(in, 4), timeout(ms(3)));
        CHECK((bool)got == (!q.empty() || ended) && (bool)t == !got, "reading completes when there is something to read or the end");
        if (got) {
          How h = outcome([&] { k = *got; });
          CHECK(h == (q.empty() ? END : VALUE), "the end is reported after the data");
          for (size_t j = 0; j < k; j++) { CHECK(in[j] == q.front(), "bytes arrive in order and unchanged"); q.pop_front(); }
        }
        if (!ended) { auto [can, t2] = select(w.can_write(), timeout(ms(3))); CHECK((bool)can == ((int)q.size() < kern()->capacity) && (bool)t2 == !can, "writability is reported exactly when there is room"); }
      }
    }
    symx_reach(ended ? "ended" : "open");
  }
  CHECK(kern_open_fds() == before && kern()->badClose == 0, "descriptors are closed once");
}
// Two threads, blocking reads and writes: everything arrives, in order.
extern "C" void ch_threads() {
  symx_threads((int)symx_param(0, 2), 0);
  int n = (int)symx_param(1, 4);
  kern()->capacity = 2;
  context::top();
  channel p[2]; pipe(p);
  if (sym_bool("non-blocking")) { p[0].make_non_blocking(); p[1].make_non_blocking(); }
  char out[8], in[8]; symx_bytes(out, 8, "data");
  int chunk = 1 + (int)sym_choose(3, "chunk"), piece = 1 + (int)sym_choose(3, "piece");
  std::thread a([&] {
    for (int at = 0; at < n;) at += (int)p[1].write(out + at, at + chunk < n ? chunk : n - at);
    p[1].close();
  });
  int got = 0; bool end = false;
  while (!end) {
    char b[4];
    How h = outcome([&] { int k = (int)p[0].read(b, piece); CHECK(k >= 1 && k <= piece && got + k <= n, "no more than was sent"); memcpy(in + got, b, k); got += k; });
    if (h == END) end = true; else CHECK(h == VALUE, "read");
  }
  a.join();
  CHECK(got == n, "everything arrives before the end");
  CHECK(!memcmp(in, out, n), "in order");
  symx_reach("done");
}
// Blocking calls end when their context is cancelled or expires, and lose nothing.
extern "C" void ch_cancel() {
  unsigned bits = (unsigned)symx_param(0, 6);
  kern()->capacity = 2;
  context::top();
  channel p[2]; pipe(p);
  bool wr = sym_bool("write"), nb = sym_bool("non-blocking");
  if (nb) { p[0].make_non_blocking(); p[1].make_non_blocking(); }
  static channel* ps; ps = p;
  if (wr) p[1].write("ab", 2);
  uint16_t at = sym_u16("ready"), c = sym_u16("cancelled"), d = sym_u16("deadline");
  symx_assume(at >= 1 && c >= 1 && d >= 1 && at < (1u << bits) && c < (1u << bits) && d < (1u << bits) && at != c && at != d && c != d);
  kern_at(kern_now() + at, wr ? [](void*) { char x; ::read(ps[0].get(), &x, 1); } : [](void*) { ::write(ps[1].get(), "x", 1); }, nullptr);
  context ctx; ctx.set_timeout(ms(d));
  kern_at(kern_now() + c, [](void* x) { ((context*)x)->cancel(); }, &ctx);
  int64_t start = kern_now();
  char x = 'y';
  How h = outcome([&] { size_t k = wr ? p[1].write(&x, 1) : p[0].read(&x, 1); CHECK(k == 1, "one byte"); });
  int64_t took = kern_now() - start;
  CHECK(h == (at < c && at < d ? VALUE : c < d ? CANCELLED : EXPIRED), "the first event decides");
  CHECK(took == (at < c && at < d ? at : c < d ? c : d), "as soon as it happens");
  if (!wr && h == VALUE) CHECK(x == 'x', "data");
  symx_reach(h == VALUE ? "completed" : h == CANCELLED ? "cancelled" : "expired");
}
// A peer that is gone makes writing fail, without a signal.
extern "C" void ch_broken() {
  context::top();
  CHECK(::signal(SIGPIPE, SIG_IGN) == SIG_IGN, "SIGPIPE is ignored");
  channel r, w;
  bool sock = sym_bool("socket");
  if (sock) { int f[2]; kern_socketpair(f); r.reset(f[0]); w.reset(f[1]); } else { channel p[2]; pipe(p); r = std::move(p[0]); w = std::move(p[1]); }
  auto d = r.dup();
  r.close();
  CHECK(w.write("a", 1) == 1, "the pipe is open as long as one descriptor is");
  bool nb = sym_bool("non-blocking"); if (nb) w.make_non_blocking();
  d.close();
  How h = outcome([&] { w.write("b", 1); });
  CHECK(h == FAILED, "writing to nobody fails");
  symx_reach("done");
}
// Blocking mode changes nothing else and is shared with duplicates.
extern "C" void ch_modes() {
  context::top();
  int kind = (int)sym_choose(3, "kind");
  channel c;
  channel p[2]; pipe(p);
  if (kind == 0) c = file("k:log", open_mode::APPEND);
  if (kind == 1) c = std::move(p[0]);
  if (kind == 2) c = arpc::socket(AF_INET, SOCK_STREAM, 0);
  auto d = c.dup();
  int flags = kern_flags(c.get()) & ~O_NONBLOCK;
  for (int i = 0; i < 3; i++) {
    bool on = sym_bool("on");
    auto& r = sym_bool("duplicate") ? d.make_non_blocking(on) : c.make_non_blocking(on);
    CHECK(&r == &c || &r == &d, "calls can be chained");
    CHECK(kern_flags(c.get()) == (flags | (on ? O_NONBLOCK : 0)) && kern_flags(d.get()) == kern_flags(c.get()), "only the blocking mode changes");
  }
  c.make_non_blocking(); CHECK(kern_flags(d.get()) & O_NONBLOCK, "on by default");
  channel none;
  CHECK(outcome([&] { none.make_non_blocking(); }) == FAILED && outcome([&] { none.dup(); }) == FAILED, "failures are reported");
  kern()->faults[KF_OPEN] = 1;
  std::optional<channel> e; channel q[2]; int before = kern_open_fds();
  How h = outcome([&] { e.emplace(c.dup()); });
  CHECK(h == (kern()->faults[KF_OPEN] ? VALUE : FAILED) && (bool)e == (h == VALUE), "running out of descriptors is reported");
  int have = kern_open_fds();
  if (kern()->faults[KF_OPEN]) { h = outcome([&] { pipe(q); }); CHECK((h == VALUE) == (kern()->faults[KF_OPEN] == 1), "pipe: running out of descriptors is reported"); CHECK(kern_open_fds() == have + (h == VALUE ? 2 : 0), "nothing is left open"); }
  (void)before;
  symx_reach("done");
}
// Socket options reach the kernel as asked, and no others change.
extern "C" void ch_options() {
  context::top();
  auto s = arpc::socket(AF_INET, SOCK_STREAM, 0);
  int lv[5] = {SOL_SOCKET, SOL_SOCKET, SOL_SOCKET, SOL_SOCKET, IPPROTO_TCP}, nm[5] = {SO_KEEPALIVE, SO_REUSEADDR, SO_REUSEPORT, SO_LINGER, TCP_NODELAY};
  long want[5] = {-1, -1, -1, -1, -1}; long secs = 0;
  bool sock = sym_bool("socket");
  channel p[2]; pipe(p);
  auto& c = sock ? s : p[0];
  for (int i = 0; i < 2; i++) {
    auto op = sym_choose(5, "op"); bool on = sym_bool("on"); uint16_t t = sym_u16("linger");
    bool dflt = sym_bool("default");
    How h = outcome([&] {
      channel* r = nullptr;
      if (dflt) on = true;
      if (op == 0) r = dflt ? &c.keep_alive() : &c.keep_alive(on);
      if (op == 1) r = dflt ? &c.reuse_addr() : &c.reuse_addr(on);
      if (op == 2) r = dflt ? &c.reuse_port() : &c.reuse_port(on);
      if (op == 3) r = dflt ? &c.linger() : &c.linger(on, std::chrono::seconds(t));
      if (op == 4) r = dflt ? &c.no_delay() : &c.no_delay(on);
      CHECK(r == &c, "calls can be chained");
    });
    CHECK(h == (sock ? VALUE : FAILED), "options are for sockets");
    if (sock) { want[op] = on; if (op == 3) secs = dflt ? 10 : t; }
    if (sym_bool("flush")) { c.flush(); if (sock) want[4] = 0; }
  }
  for (int k = 0; k < 5; k++) {
    char v[16]; int n = kern_opt(s.get(), lv[k], nm[k], v);
    if (want[k] < 0) { CHECK(n == -1, "no other option changes"); continue; }
    if (k == 3) { struct linger l; CHECK(n == sizeof l, "linger option set"); memcpy(&l, v, sizeof l); CHECK((l.l_onoff != 0) == want[k] && (!l.l_onoff || l.l_linger == secs), "linger time"); }
    else { int x; CHECK(n == sizeof x, "option set"); memcpy(&x, v, sizeof x); CHECK((x != 0) == want[k], "option value"); }
  }
  symx_reach("done");
}
// Connecting: success, refusal and delay, blocking or not, cancelled or not.
extern "C" void ch_connect() {
  context::top();
  int before = kern_open_fds();
  {
    bool listening = sym_bool("listening");
    address at, me; fill(at, 16, 7); fill(me, 28, 9);
    auto l = socket(at);
    l.bind(at); if (listening) l.listen();
    kern()->connectMode = 1;
    auto s = arpc::socket(AF_INET, SOCK_STREAM, 0);
    if (sym_bool("non-blocking")) s.make_non_blocking();
    bool named = sym_bool("bound"); if (named) s.bind(me);
    context ctx; bool gone = sym_bool("cancelled"); if (gone) ctx.cancel();
    How h = outcome([&] { CHECK(&s.connect(at) == &s, "calls can be chained"); });
    CHECK(h == VALUE || h == FAILED || h == CANCELLED, "outcome");
    if (!listening) CHECK(h != VALUE, "nobody is there");
    if (h == CANCELLED) CHECK(gone, "only if cancelled"); 
    if (gone) CHECK(h != VALUE, "a cancelled context does not connect");
    if (h == VALUE) {
      address who; fill(who, 2, 1);
      auto c = sym_bool("plain") ? l.accept() : l.accept(who);
      if (who.address_size() != 2) CHECK(named ? same(who, me) : who.address_size() == 0, "the peer's address");
      CHECK(same(s.peer_addr(), at) && same(c.own_addr(), at), "both sides agree on the listening address");
      CHECK(s.peer_addr().family() == AF_INET && s.peer_addr().socket_type() == SOCK_STREAM, "with its kind");
      if (named) CHECK(same(c.peer_addr(), me) && same(s.own_addr(), me), "and on the connecting one");
      char out = (char)sym_u8("byte"), in = 0;
      CHECK(s.write(&out, 1) == 1 && c.read(&in, 1) == 1 && in == out, "they are connected");
      CHECK(c.write(&out, 1) == 1 && s.read(&in, 1) == 1 && in == out, "both ways");
      int what = (int)sym_choose(4, "shutdown");
      s.shutdown(what & 1, what & 2);
      CHECK(outcome([&] { c.make_non_blocking().maybe_read(&in, 1); }) == (what & 2 ? END : AGAIN), "shutdown ends the stream being sent");
      CHECK(outcome([&] { s.make_non_blocking().maybe_read(&in, 1); }) == (what & 1 ? END : AGAIN), "shutdown ends the stream being received");
      symx_reach("connected");
    } else {
      CHECK(outcome([&] { s.peer_addr(); }) == FAILED || h == CANCELLED, "not connected");
      symx_reach(h == FAILED ? "failed" : "cancelled");
    }
  }
  CHECK(kern_open_fds() == before && kern()->badClose == 0, "descriptors are closed once");
}
// Peers' addresses of any size, accepted into a variable with a history.
extern "C" void ch_peers() {
  int n = (int)symx_param(0, 2);
  context::top();
  const int sizes[4] = {2, 16, 28, 32};
  address at; fill(at, 16, 3);
  auto l = socket(at); l.bind(at).listen();
  bool nb = sym_bool("non-blocking"); l.make_non_blocking(nb);
  address who;
  for (int i = 0; i < n; i++) {
    address me; fill(me, sizes[sym_choose(4, "size")], 40 + i);
    auto s = arpc::socket(AF_INET, SOCK_STREAM, 0); s.bind(me); s.connect(at);
    auto how = sym_choose(3, "how");
    std::optional<channel> c;
    if (how == 0) c.emplace(l.maybe_accept(who));
    if (how == 1) c.emplace(l.accept(who));
    if (how == 2) { auto [r] = select(l.async_accept(who)); c.emplace(std::move(r).value()); }
    CHECK(same(who, me), "the peer's whole address");
    CHECK(same(c->peer_addr(), me) && same(s.own_addr(), me), "as both channels report it");
    address copy(who); CHECK(same(copy, me), "and its copy");
  }
  if (nb) CHECK(outcome([&] { l.maybe_accept(who); }) == AGAIN && outcome([&] { l.maybe_accept(); }) == AGAIN, "nobody is waiting");
  auto [r, t] = select(l.async_accept(), timeout(ms(2)));
  CHECK(!r && t, "nobody is waiting");
  symx_reach("done");
}
// Binding: the address is taken as given; IPv6 sockets leave IPv4 alone; failures are reported.
extern "C" void ch_bind() {
  context::top();
  bool six = sym_bool("ipv6");
  address at; fill(at, six ? 28 : 16, 3);
  auto s = socket(at);
  CHECK(s.own_addr().socket_type() == SOCK_STREAM, "socket type");
  kern()->faults[KF_BIND] = 1;
  How h = outcome([&] { s.bind(at); });
  CHECK(h == (kern()->faults[KF_BIND] ? VALUE : FAILED), "a failure is reported");
  char v[16]; int on = 0; int n = kern_opt(s.get(), IPPROTO_IPV6, IPV6_V6ONLY, v);
  if (n == 4) memcpy(&on, v, 4);
  CHECK((on != 0) == six, "IPv6 only");
  if (h == VALUE) { auto a = s.own_addr(); CHECK(same(a, at) && a.family() == at.family(), "the address"); }
  kern()->faults[KF_BIND] = 0; kern()->faults[KF_OPEN] = 1;
  int before = kern_open_fds();
  std::optional<channel> c;
  h = outcome([&] { if (sym_bool("by address")) c.emplace(socket(at)); else c.emplace(arpc::socket(AF_INET, SOCK_DGRAM, 0)); });
  CHECK(h == (kern()->faults[KF_OPEN] ? VALUE : FAILED) && kern_open_fds() == before + (h == VALUE), "running out of descriptors is reported");
  symx_reach("done");
}
// ---------------------------------------------------------------- C38
// Files open as their mode says.
extern "C" void fi_modes() {
  context::top();
  int before = kern_open_fds();
  char old[3]; symx_bytes(old, 3, "old");
  bool exists = sym_bool("exists"); int size = (int)sym_choose(4, "size");
  if (exists) kern_file("k:file", old, size);
  static const open_mode modes[] = {open_mode::READ, open_mode::WRITE, open_mode::APPEND, open_mode::READ_PLUS, open_mode::WRITE_PLUS, open_mode::APPEND_PLUS};
  int m = (int)sym_choose(6, "mode");
  bool creates = m != 0 && m != 3, trunc = m == 1 || m == 4, append = m == 2 || m == 5, rd = m == 0 || m >= 3, wr = m != 0;
  {
    std::optional<channel> c;
    bool dflt = m == 0 && sym_bool("default");
    How h = outcome([&] { if (dflt) c.emplace(file("k:file")); else c.emplace(file("k:file", modes[m])); });
    CHECK(h == (exists || creates ? VALUE : FAILED), "a missing file is created or reported");
    if (h == VALUE) {
      if (!exists) CHECK(kern_file_mode("k:file") == 0666, "a new file gets the usual permissions");
      int n = exists && !trunc ? size : 0;
      CHECK(kern_file_size("k:file") == n, "contents are kept unless the mode says otherwise");
      char in[8]; size_t k = 0;
      char now[8]; memcpy(now, old, 3);
      How r = outcome([&] { k = c->maybe_read(in, 1); });
      CHECK(r == (!rd ? FAILED : n ? VALUE : END), "reading");
      int pos = r == VALUE ? 1 : 0;
      if (pos) CHECK(in[0] == old[0], "from the beginning");
      char out[2]; symx_bytes(out, 2, "new");
      How w = outcome([&] { k = c->maybe_write(out, 2); });
      CHECK(w == (wr ? VALUE : FAILED), "writing");
      if (wr) {
        int at = append ? n : pos;
        now[at] = out[0]; now[at + 1] = out[1]; if (at + 2 > n) n = at + 2;
        CHECK(kern_file_size("k:file") == n && !memcmp(kern_file_data("k:file"), now, n), "written at the right place");
      }
      symx_reach(exists ? "opened" : "created");
    } else { CHECK(kern_file_size("k:file") == -1, "nothing is created"); symx_reach("missing"); }
  }
  CHECK(kern_open_fds() == before && kern()->badClose == 0, "descriptors are closed once");
}
// A resolver's answer: up to three addresses for each name.
namespace {
struct answer_t { int err = 0, n = 0; int tag[3]; } answers[4];
std::atomic<int> lookups{0}, lists{0}; char lastService[8]; bool lastPassive; int lastFamily, lastType;
struct result_t { sockaddr_in s[3]; addrinfo a[3]; };
// Lets every other thread finish what it is doing.
void settle() { shield s; auto [t] = select(timeout(ms(1))); CHECK((bool)t, "time passes"); }
}  // namespace
extern "C" int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** res) {
  lookups++;
  int w = node ? node[0] - 'a' : 3;
  CHECK(w >= 0 && w < 4, "the name asked for");
  lastPassive = hints->ai_flags & AI_PASSIVE; lastFamily = hints->ai_family; lastType = hints->ai_socktype; strncpy(lastService, service ? service : "", 7);
  if (answers[w].err) { *res = (addrinfo*)1; return answers[w].err; }
  if (!answers[w].n) { *res = nullptr; return 0; }
  lists++;
  auto* r = new result_t;
  for (int i = 0; i < answers[w].n; i++) {
    auto& s = r->s[i]; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(answers[w].tag[i]);
    auto& a = r->a[i]; memset(&a, 0, sizeof a); a.ai_family = AF_INET; a.ai_socktype = SOCK_STREAM; a.ai_addrlen = sizeof s; a.ai_addr = (sockaddr*)&s;
    a.ai_next = i + 1 < answers[w].n ? &r->a[i + 1] : nullptr;
  }
  *res = r->a;
  return 0;
}
extern "C" void freeaddrinfo(addrinfo* a) noexcept { lists--; delete (result_t*)((char*)a - offsetof(result_t, a)); }
namespace {
channel listenAt(int tag) { address at; fill(at, 16, tag); memset((char*)at.address_data() + 8, 0, 8); auto l = socket(at); l.bind(at).listen(); l.make_non_blocking(); return l; }
int port(const address& a) { return ntohs(((const sockaddr_in*)a.address_data())->sin_port); }
}  // namespace
// Dialling reaches the first address that answers, or reports why none did.
extern "C" void di_dial() {
  int max = (int)symx_param(0, 3);
  symx_threads(0, 0);
  context::top();
  address_resolver::get(); settle();
  int before = kern_open_fds();
  {
    int n = (int)sym_choose(max + 1, "addresses"); bool fails = sym_bool("unknown");
    answers[0].err = fails ? EAI_NONAME : 0; answers[0].n = n;
    channel l[3]; int first = -1;
    for (int i = 0; i < n; i++) { answers[0].tag[i] = 100 + i; if (sym_bool("listening")) { l[i] = listenAt(100 + i); if (first < 0) first = i; } }
    bool nb = sym_bool("non-blocking"), late = sym_bool("late");
    kern()->connectMode = late ? 2 : 0;
    bool gone = sym_bool("cancelled"); context ctx; if (gone) ctx.cancel();
    int open = kern_open_fds(); std::optional<channel> c; bool empty = false;
    How h;
    try { h = outcome([&] { c.emplace(dial(endpoint().name("a").port(80), nb)); }); } catch (const errors::invalid_argument&) { empty = true; h = FAILED; }
    if (gone) CHECK(h == CANCELLED || (h == FAILED && lookups), "a cancelled context does not dial");
    else {
      CHECK(!lastPassive && lastType == SOCK_STREAM && !strcmp(lastService, "80"), "the endpoint is resolved for connecting");
      CHECK((h == VALUE) == (!fails && first >= 0), "connected if some address answers");
      if (!fails) CHECK(empty == (n == 0), "no addresses");
    }
    if (h == VALUE) {
      CHECK(port(c->peer_addr()) == 100 + first, "to the first one that answers");
      CHECK(((kern_flags(c->get()) & O_NONBLOCK) != 0) == nb, "in the blocking mode asked for");
      for (int i = 0; i < n; i++) if (l[i]) { How a = outcome([&] { l[i].maybe_accept(); }); CHECK(a == (i == first ? VALUE : AGAIN), "and to no other"); }
      symx_reach("connected");
    } else symx_reach(h == CANCELLED ? "cancelled" : "failed");
    settle();
    CHECK(kern_open_fds() == open + (h == VALUE), "failed attempts leave nothing open");
  }
  CHECK(kern_open_fds() == before && kern()->badClose == 0, "descriptors are closed once");
  CHECK(lists == 0, "address lists are released");
}
// A listener accepts every connection to any of its addresses once.
extern "C" void li_accept() {
  int n = (int)symx_param(0, 2), peers = (int)symx_param(1, 3);
  symx_threads(0, 0);
  context::top();
  address_resolver::get(); settle();
  int before = kern_open_fds();
  {
    answers[3].n = n; for (int i = 0; i < n; i++) answers[3].tag[i] = 100 + i;
    bool nb = sym_bool("non-blocking"), ra = sym_bool("reuse address"), dflt = sym_bool("default");
    std::optional<listener> li;
    if (dflt) { li.emplace(endpoint().port(100)); nb = ra = true; } else li.emplace(endpoint().port(100), ra, nb);
    CHECK(lastPassive, "the endpoint is resolved for listening");
    settle();
    CHECK(kern_open_fds() == before + n, "one socket per address");
    int connected = 0, accepted = 0, lost = 0; bool fault = sym_bool("aborts");
    channel c[4]; bool seen[4] = {};
    for (int i = 0; i < peers; i++) {
      int which = (int)sym_choose(n, "address");
      address at; fill(at, 16, 100 + which); memset((char*)at.address_data() + 8, 0, 8);
      address me; fill(me, 16, 200 + i);
      c[i] = socket(at); c[i].bind(me); c[i].connect(at); connected++;
      if (i + 1 < peers && sym_bool("more")) continue;
      kern()->faults[KF_ACCEPT] = fault && !lost ? 1 : 0;
      while (accepted + lost < connected) {
        std::optional<channel> s;
        int left = kern()->faults[KF_ACCEPT];
        How h = outcome([&] { s.emplace(li->accept()); });
        if (kern()->faults[KF_ACCEPT] != left) lost++;
        if (h == VALUE) {
          int k = port(s->peer_addr()) - 200; CHECK(k >= 0 && k < connected && !seen[k], "each connection is accepted once"); seen[k] = true; accepted++;
          CHECK(((kern_flags(s->get()) & O_NONBLOCK) != 0) == nb, "in the blocking mode asked for");
          char b = (char)k; s->write(&b, 1); b = -1; c[k].read(&b, 1); CHECK(b == k, "connected to its peer");
        } else CHECK(h == FAILED && lost && kern()->faults[KF_ACCEPT] != left, "only an aborted connection is reported");
      }
      CHECK(accepted + lost == connected, "nobody is left out");
    }
    context ctx; ctx.set_timeout(ms(5));
    CHECK(outcome([&] { li->accept(); }) == EXPIRED, "accepting waits for a connection");
    symx_reach(lost ? "aborted" : "all");
  }
  CHECK(kern_open_fds() == before && kern()->badClose == 0, "descriptors are closed once");
  CHECK(lists == 0, "address lists are released");
}
// Every request gets its own answer.
extern "C" void rs_resolve() {
  symx_threads((int)symx_param(0, 1), 0);
  int n = (int)symx_param(1, 2); bool wide = symx_param(2, 1);
  context::top();
  auto& r = address_resolver::get();
  for (int i = 0; i < 3; i++) { answers[i].err = (i < 2 ? sym_bool("unknown") : 0) ? EAI_NONAME : 0; answers[i].n = 1; answers[i].tag[0] = 300 + i; }
  auto ask = [&](int w, bool async) {
    endpoint e; e.name(std::string(1, (char)('a' + w))).service("x");
    std::optional<address_list> l;
    How h = outcome([&] { if (async) { auto f = r.async_resolve(e); auto [x, t] = select(f.async_get(), timeout(ms(50))); CHECK((bool)x && !t, "answered"); l.emplace(std::move(x).value()); } else l.emplace(r.resolve(std::move(e))); });
    CHECK(h == (answers[w].err ? FAILED : VALUE), "unknown names are reported");
    if (h == VALUE) { CHECK(l->size() == 1 && port(*l->begin()) == 300 + w, "each request gets its own answer"); }
  };
  bool how = wide && sym_bool("async"); int w1 = (int)sym_choose(2, "name");
  std::thread a([&] { ask(w1, how); });
  if (n > 1) ask(1, true);
  if (wide && sym_bool("dropped")) { auto f = r.async_resolve(endpoint().name("c")); }
  ask(0, how);
  a.join();
  CHECK(lookups >= n + 1, "looked up");
  symx_reach("done");
}
// The time a dialler has is shared among the addresses it tries.
extern "C" void di_deadline() {
  symx_threads(0, 0);
  context::top();
  address_resolver::get();
  int n = 1 + (int)sym_choose(3, "addresses"); answers[0].n = n;
  channel l[3]; int first = -1;
  for (int i = 0; i < n; i++) { answers[0].tag[i] = 100 + i; if (sym_bool("listening")) { l[i] = listenAt(100 + i); if (first < 0) first = i; } }
  kern()->connectMode = 3;  // nobody answers where nobody listens
  uint16_t d = sym_u16("deadline"); symx_assume(d >= 3 && d < 4096);
  context ctx; bool limited = sym_bool("limited"); if (limited) ctx.set_timeout(ms(d));
  symx_assume(limited || first == 0);
  int64_t start = kern_now(); std::optional<channel> c;
  How h = outcome([&] { c.emplace(dial(endpoint().name("a").port(80))); });
  int64_t took = kern_now() - start;
  CHECK(h == (first >= 0 ? VALUE : EXPIRED), "a silent address does not use up the time for the others");
  if (h == VALUE) CHECK(port(c->peer_addr()) == 100 + first, "to the first that answers");
  CHECK(took == (first < 0 ? n : first) * (int64_t)(d / n), "each address gets its share");
  symx_reach(first < 0 ? "none" : first ? "later" : "first");
}
