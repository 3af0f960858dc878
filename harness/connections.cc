// C34: connections: streams and packets over channels, and reconnecting.
#include <atomic>
#include <chrono>
#include <memory>
#include <optional>
#include <string>
#include <string.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "arpc/channel.h"
#include "arpc/connection.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/packet_protocols.h"
#include "arpc/pipe.h"
#include "arpc/select.h"
#include "arpc/wait.h"
#include "kern.h"
#include "symx.h"
using namespace arpc;
using ms = std::chrono::milliseconds;
extern "C" int getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**) { CHECK(false, "no name is looked up"); return 1; }
extern "C" void freeaddrinfo(struct addrinfo*) noexcept {}
namespace {
enum How { VALUE, END, FAILED, CANCELLED, OTHER };
template <class F> How outcome(F&& f) {
  try { f(); return VALUE; }
  catch (const errors::eof&) { return END; }
  catch (const errors::io_error&) { return FAILED; }
  catch (const errors::cancelled&) { return CANCELLED; }
  catch (const errors::base_error&) { return OTHER; }
}
void settle(int64_t t = 1) { shield s; auto [r] = select(arpc::timeout(ms(t))); CHECK((bool)r, "time passes"); }
struct ends { int f[2]; ends() { kern_socketpair(f); } };
}  // namespace
// Reading: everything asked for, or what there is before the end.
extern "C" void cn_read() {
  int n = (int)symx_param(0, 3);
  kern()->capacity = 8;
  context::top();
  int before = kern_open_fds();
  {
    ends e; channel peer(e.f[1]);
    channel_connection c{channel(e.f[0])};
    char data[8]; symx_bytes(data, 8, "data");
    int total = (int)sym_choose(6, "length"); bool late = sym_bool("late");
    bool fails = sym_bool("fails");
    kern()->readErr = EIO;
    struct sender { channel& c; const char* d; int n; static void send(void* p) { auto& s = *(sender*)p; int k = kern()->shortIO; kern()->shortIO = 0; if (s.n) ::write(s.c.get(), s.d, s.n); s.c.close(); kern()->shortIO = k; } } w{peer, data, total};
    if (late) kern_at(kern_now() + 1, sender::send, &w); else sender::send(&w);
    kern()->shortIO = 1;
    if (late) CHECK(!std::get<0>(select(c.data_available(), timeout(ms(0)))), "nothing to read yet");
    int at = 0; bool ended = false, broke = false;
    for (int i = 0; i < n && !broke; i++) {
      auto how = sym_choose(3, "how"); int len = (int)sym_choose(4, "size");
      char b[4] = {0x55, 0x55, 0x55, 0x55}; size_t k = 0;
      if (i + 1 == n && fails) kern()->faults[KF_READ] = 1;
      How h = outcome([&] {
        if (how == 0) k = c.read(b, len);
        if (how == 1) { b[0] = c.getc(); k = 1; len = 1; }
        if (how == 2) { c.read_fully(b, len); k = len; }
      });
      if (i + 1 == n && fails && !kern()->faults[KF_READ]) { CHECK(h == FAILED, "an error is reported"); broke = true; break; }
      kern()->faults[KF_READ] = 0;
      if (h == VALUE) {
        CHECK((int)k == len || (how == 0 && (int)k < len), "all that was asked for, or less from read()");
        if ((int)k < len) { CHECK(kern_pipe_bytes(e.f[0]) == 0, "only at the end"); ended = true; }
        for (size_t j = 0; j < k; j++) CHECK(b[j] == data[at + j], "bytes arrive in order and unchanged");
        for (size_t j = k; j < 4; j++) CHECK(b[j] == 0x55, "nothing else is touched");
        at += (int)k;
      } else {
        CHECK(h == END && how != 0, "the end is an error where data is required");
        CHECK(kern_pipe_bytes(e.f[0]) == 0, "nothing remains"); ended = true; broke = true;
      }
    }
    if (!broke) { settle(2); CHECK(kern_pipe_bytes(e.f[0]) == total - at, "nothing is lost"); }
    CHECK(c.connected(), "a connection stays until it is disconnected");
    symx_reach(broke ? "error" : ended ? "end" : "data");
  }
  CHECK(kern_open_fds() == before && kern()->badClose == 0, "descriptors are closed once");
}
// Writing: everything goes out in order, however slowly.
extern "C" void cn_write() {
  symx_threads((int)symx_param(0, 1), 0);
  kern()->capacity = 2;
  context::top();
  int before = kern_open_fds();
  {
    ends e; channel peer(e.f[1]);
    std::string got;
    {
      channel_connection c{channel(e.f[0])};
      char data[8]; symx_bytes(data, 8, "data"); int len = (int)sym_choose(5, "size"); bool put = sym_bool("putc");
      kern()->shortIO = 1;
      std::thread r([&] { char b[4]; for (;;) { auto k = ::read(peer.get(), b, 3); if (k <= 0) break; got.append(b, k); } });
      c.write(data, len); if (put) c.putc(data[len]); c.flush();
      CHECK(c.connected(), "connected");
      bool twice = sym_bool("twice");
      c.disconnect(); if (twice) c.disconnect();
      r.join();
      CHECK(!c.connected(), "disconnected");
      int n = len + put;
      CHECK((int)got.size() == n && !memcmp(got.data(), data, n), "everything arrives, in order");
      char b;
      CHECK(outcome([&] { c.write(data, 1); }) == FAILED && outcome([&] { c.read(&b, 1); }) == FAILED && outcome([&] { c.putc('x'); }) == FAILED && outcome([&] { c.getc(); }) == FAILED, "a closed connection cannot be used");
      CHECK(outcome([&] { c.connect(); }) == OTHER, "or reopened");
    }
    symx_reach("done");
  }
  CHECK(kern_open_fds() == before && kern()->badClose == 0, "descriptors are closed once");
}
// Disconnecting interrupts users, waits for them, and closes.
extern "C" void cn_interrupt() {
  symx_threads((int)symx_param(0, 1), 0);
  bool again = symx_param(1, 0);
  kern()->capacity = 2;
  context::top();
  int before = kern_open_fds();
  {
    ends e; channel peer(e.f[1]);
    std::optional<channel_connection> c; c.emplace(channel(e.f[0]));
    bool wr = sym_bool("write"), pause = sym_bool("pause"), gone = false; How h = VALUE;
    std::atomic<bool> left{false};
    std::thread u([&] {
      char b[8] = {};
      h = outcome([&] { if (wr) c->write(b, 6); else c->read(b, 1); });
      left = true;
    });
    std::thread other; if (again) other = std::thread([&] { c->disconnect(); });
    if (pause) settle();
    c->disconnect();
    CHECK(kern_flags(e.f[0]) == -1, "the channel is closed");
    CHECK(!c->connected(), "disconnected");
    u.join(); if (again) other.join();
    CHECK(h == FAILED, "users are interrupted with an error");
    (void)gone;
    c.reset();
    symx_reach(pause ? "interrupted" : "any");
  }
  CHECK(kern_open_fds() == before && kern()->badClose == 0, "descriptors are closed once");
}
// A user's context also ends its calls.
extern "C" void cn_cancel() {
  kern()->capacity = 2;
  context::top();
  ends e; channel peer(e.f[1]);
  channel_connection c{channel(e.f[0])};
  bool wr = sym_bool("write"); uint16_t d = sym_u16("deadline"), at = sym_u16("data"); symx_assume(d > 0 && d < 4096 && at > 0 && at < 4096 && at != d);
  static int pf; pf = e.f[1];
  kern_at(kern_now() + at, wr ? [](void*) { char b[2]; ::read(pf, b, 2); } : [](void*) { ::write(pf, "x", 1); }, nullptr);
  int64_t start = kern_now(); bool late = false; char b[4] = {};
  {
    context ctx; ctx.set_timeout(ms(d));
    try { if (wr) c.write(b, 4); else CHECK(c.read(b, 1) == 1, "read"); } catch (const errors::deadline_exceeded&) { late = true; }
  }
  CHECK(late == (d < at) && kern_now() - start == (late ? d : at), "calls end with their context");
  CHECK(c.connected(), "and leave the connection");
  symx_reach(late ? "late" : "done");
}
// ---------------------------------------------------------------- reconnecting
namespace {
// A connection that records its life.
struct probe : connection {
  static int made, live, used, failNext; static bool lost; static int lastA; static std::string lastB;
  static flag* hold;
  explicit probe(int a, std::string b) {
    CHECK(live == 0, "one connection at a time");
    if (failNext) { failNext--; throw errors::io_error("refused"); }
    made++; live++; lost = false; lastA = a; lastB = b;
  }
  ~probe() override { CHECK(!inUse, "not destroyed while in use"); live--; }
  void disconnect() override { closed.set(); }
  bool connected() override { return !lost; }
  void write(const char*, std::size_t n) override { used += (int)n; }
  void putc(char) override { used++; }
  void flush() override { used++; }
  std::size_t read(char* p, std::size_t n) override {
    if (hold) { inUse++; auto [a, b] = select(hold->async_wait(), closed.async_wait()); inUse--; if (b) throw errors::io_error("closed"); }
    used++; memset(p, 'r', n); return n;
  }
  char getc() override { used++; return 'g'; }
  awaitable<void> data_available() override { if (hold) return closed.async_wait(); return timeout(ms(0)); }
  std::atomic<int> inUse{0};
  flag closed;
};
int probe::made = 0, probe::live = 0, probe::used = 0, probe::failNext = 0, probe::lastA; bool probe::lost = false; std::string probe::lastB; flag* probe::hold = nullptr;
}  // namespace
// Histories of connecting, losing, failing and using, against a few flags.
extern "C" void rc_histories() {
  int n = (int)symx_param(0, 4);
  context::top();
  {
    int a = (int)sym_u32("argument"); char t[2]; symx_bytes(t, 2, "text");
    std::optional<reconnectable_connection<probe>> c; c.emplace(a, std::string(t, 2));
    CHECK(probe::made == 0, "nothing is connected before connect()");
    bool up = false; int made = 0;
    for (int i = 0; i < n; i++) {
      auto op = sym_choose(6, "op");
      if (op == 0) {
        bool fail = sym_bool("refused"); probe::failNext = fail;
        bool need = !up || probe::lost;
        How h = outcome([&] { c->connect(); });
        CHECK(h == (need && fail ? FAILED : VALUE), "connecting fails as the connection does");
        if (need) { up = !fail; made += !fail; }
        probe::failNext = 0;
        if (up) CHECK(probe::lastA == a && probe::lastB == std::string(t, 2), "made from the original arguments");
      }
      if (op == 1) { c->disconnect(); up = false; }
      if (op == 2 && up) probe::lost = true;
      if (op == 3) { int was = probe::used; How h = outcome([&] { c->write("abc", 3); c->putc('c'); c->flush(); }); CHECK(h == (up ? VALUE : FAILED) && probe::used == was + (up ? 5 : 0), "writing goes to the connection"); }
      if (op == 4) { char b[2]; How h = outcome([&] { CHECK(c->read(b, 2) == 2 && b[1] == 'r' && c->getc() == 'g', "reading"); }); CHECK(h == (up ? VALUE : FAILED), "reading comes from the connection"); }
      if (op == 5) { How h = outcome([&] { auto [r] = select(c->data_available()); CHECK((bool)r, "available"); }); CHECK(h == (up ? VALUE : FAILED), "availability comes from the connection"); }
      CHECK(c->connected() == (up && !probe::lost), "connected() tells");
      CHECK(probe::made == made && probe::live == up, "connections are made when needed, and no longer kept");
    }
    c.reset();
    symx_reach(up ? "up" : "down");
  }
  CHECK(probe::live == 0, "nothing is left");
}
// Disconnecting or reconnecting while another thread is using the connection.
extern "C" void rc_threads() {
  symx_threads((int)symx_param(0, 1), 0);
  context::top();
  {
    flag data; probe::hold = &data;
    reconnectable_connection<probe> c(1, std::string("x"));
    c.connect();
    auto op = sym_choose(3, "op"); bool pause = sym_bool("pause");
    How h = VALUE; char b[1]; bool waits = op != 1 && sym_bool("waits for data");
    std::thread u([&] { h = outcome([&] { if (waits) { auto [r] = select(c.data_available()); if (r) throw errors::io_error("closed"); } else CHECK(c.read(b, 1) == 1, "read"); }); });
    if (pause) settle();
    if (op == 0) c.disconnect();
    if (op == 1) { c.connect(); data.set(); }
    if (op == 2) { std::thread o([&] { c.disconnect(); }); c.disconnect(); o.join(); }
    u.join();
    CHECK(h == (op == 1 ? VALUE : FAILED), "users are interrupted by disconnecting only");
    CHECK(c.connected() == (op == 1), "connected() tells");
    c.connect();
    CHECK(c.connected() && probe::made == (op == 1 ? 1 : 2), "and can be connected again");
  }
  CHECK(probe::live == 0, "nothing is left");
  symx_reach("done");
}
// Whoever waits for data, or is about to, keeps the connection.
extern "C" void rc_kept() {
  symx_threads((int)symx_param(0, 1), 0);
  context::top();
  {
    flag data; probe::hold = &data;
    reconnectable_connection<probe> c(1, std::string("x"));
    c.connect();
    std::atomic<bool> down{false}; bool pause = sym_bool("pause"), moves = sym_bool("moves"), waits = sym_bool("waits");
    std::thread o;
    {
      std::optional<awaitable<void>> w(c.data_available());
      o = std::thread([&] { c.disconnect(); down = true; });
      if (pause) settle();
      std::optional<awaitable<void>> v; if (moves) { v.emplace(std::move(*w)); w.reset(); } 
      if (pause) settle();
      CHECK(probe::live == 1 && !down, "not destroyed while in use");
      if (waits) { auto [r] = select(moves ? *v : *w); CHECK((bool)r, "interrupted"); CHECK(probe::live == 1 && !down, "not destroyed while in use"); }
    }
    o.join();
    CHECK(probe::live == 0 && !c.connected(), "destroyed once free");
  }
  symx_reach("done");
}
// ---------------------------------------------------------------- packets
namespace {
struct sock_connection : channel_connection {
  static int next;
  explicit sock_connection() : channel_connection(channel(next)) { next = -1; }
};
int sock_connection::next = -1;
template <class Protocol> void packets(bool fixed) {
  int n = (int)symx_param(1, 2);
  kern()->capacity = 3;
  int before = kern_open_fds();
  {
    ends e; sock_connection::next = e.f[0];
    packet_connection_impl<reconnectable_connection<sock_connection>, Protocol> a;
    packet_connection_impl<channel_connection, Protocol> b{channel(e.f[1])};
    CHECK(!a.connected() && b.connected(), "connected() tells");
    CHECK(outcome([&] { a.send("x"); }) == FAILED, "not connected yet");
    a.connect(); CHECK(a.connected(), "connected");
    std::string sent[3];
    for (int i = 0; i < n; i++) { sent[i].resize(sym_choose(3, "size")); if (fixed) for (auto& ch : sent[i]) ch = 'a' + i; else symx_bytes(&sent[i][0], sent[i].size(), "data"); }
    bool back = sym_bool("back");
    std::thread w([&] { for (int i = 0; i < n; i++) if (back) b.send(sent[i]); else a.send(sent[i]); if (back) b.disconnect(); else a.disconnect(); });
    if (n) { auto [r] = select(back ? a.data_available() : b.data_available()); CHECK((bool)r, "data is announced"); }
    for (int i = 0; i < n; i++) { std::string got = back ? a.receive() : b.receive(); CHECK(got == sent[i], "packets arrive whole, in order and unchanged"); }
    CHECK(outcome([&] { if (back) a.receive(); else b.receive(); }) == END, "then the end");
    w.join();
    symx_reach("done");
  }
  CHECK(kern_open_fds() == before && kern()->badClose == 0, "descriptors are closed once");
}
}  // namespace
extern "C" void pc_stream() { symx_threads((int)symx_param(0, 0), 0); context::top(); packets<protected_stream_packet_protocol<>>(false); }
extern "C" void pc_line() { symx_threads((int)symx_param(0, 0), 0); context::top(); packets<serial_line_packet_protocol<>>(true); }
// Character devices are opened for reading and writing, and not created.
extern "C" void cd_device() {
  context::top();
  int before = kern_open_fds();
  {
    bool there = sym_bool("exists"); char d[2]; symx_bytes(d, 2, "data"); if (there) kern_file("k:tty", d, 2);
    std::optional<char_dev_connection> c;
    How h = outcome([&] { c.emplace("k:tty"); });
    CHECK(h == (there ? VALUE : FAILED), "a missing device is reported");
    if (there) { char b[3]; CHECK(c->read(b, 3) == 2 && b[0] == d[0] && b[1] == d[1], "read to the end"); c->write("yz", 2); c->flush(); CHECK(kern_file_size("k:tty") == 4, "written"); }
    symx_reach(there ? "opened" : "missing");
  }
  CHECK(kern_open_fds() == before && kern()->badClose == 0, "descriptors are closed once");
}
