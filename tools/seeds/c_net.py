RPC = SYNC + '''#include "arpc/client.h"
#include "arpc/connection.h"
#include "arpc/file.h"
#include "arpc/interface.h"
#include "arpc/packet_protocols.h"
#include "arpc/server.h"
#include "arpc/socket.h"
#include "arpc/usage_lock.h"
#include <fcntl.h>
#include <memory>
#include <mutex>
#include <sys/socket.h>
#include <vector>
using text = std::string;
ARPC_INTERFACE(service, (), (((int), add, (((int), a), ((int), b))), ((void), wait, (((int), time)))));
struct impl : service {
  std::atomic<int> calls{0}, interrupted{0}, expired{0};
  int bias = 0;
  int add(int a, int b) override { calls++; return a + b + bias; }
  void wait(int t) override {
    calls++;
    try { auto [r] = select(timeout(std::chrono::milliseconds(t))); (void)r; }
    catch (const errors::cancelled&) { interrupted++; throw; }
    catch (const errors::deadline_exceeded&) { expired++; throw; }
  }
};
using peer_t = packet_connection_impl<channel_connection, protected_stream_packet_protocol<>>;
static std::mutex peers_mu;
static std::vector<std::unique_ptr<peer_t>> peers;
// Connects to a peer in this program, through a socket pair.
struct wire : channel_connection {
  static channel make() {
    int f[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) throw errors::io_error("socketpair");
    std::scoped_lock l(peers_mu);
    peers.push_back(std::make_unique<peer_t>(channel(f[1])));
    return channel(f[0]);
  }
  wire() : channel_connection(make()) {}
};
using client_type = client_connection<wire>;
static peer_t& peer(size_t i) { while (true) { { std::scoped_lock l(peers_mu); if (peers.size() > i) return *peers[i]; } usleep(1000); } }
using enc = little_endian_binary_encoder;
using dec = little_endian_binary_decoder;
static uint32_t request_id(const std::string& s) { string_input_stream is(s); dec d(is); rpc_defs::message_type t; uint32_t id; d(t); d(id); return id; }
static std::string reply(uint32_t id, int v) {
  result_holder<int> r; r.set_value(v);
  std::string s; string_output_stream os(s);
  { enc e(os); e(rpc_defs::message_type::RESPONSE); e(id); }
  { enc e(os); e(r); }
  return s;
}
template <class... A> static std::string ask(uint32_t id, const std::string& object, const char* method, uint32_t hash, context& ctx, A... a) {
  std::string s; string_output_stream os(s);
  { enc e(os); e(rpc_defs::message_type::REQUEST); e(id); }
  { enc e(os); e(object_name<enc>(object)); e(std::string(method)); e(hash); e(ctx); }
  { enc e(os); std::tuple<A...> t(a...); e(t); }
  return s;
}
static std::string stop_it(uint32_t id) { std::string s; string_output_stream os(s); enc e(os); e(rpc_defs::message_type::CANCEL_REQUEST); e(id); return s; }
template <auto m> constexpr uint32_t hash_of() { return traits::type_hash_v<typename method_descriptor<m>::method_type>; }
static int port() { return 20000 + getpid() % 20000; }
struct tcp_peer {
  std::unique_ptr<peer_t> p;
  tcp_peer() { for (int i = 0; i < 200 && !p; i++) try { p = std::make_unique<peer_t>(dial(endpoint().name("127.0.0.1").port(port()))); } catch (...) { usleep(10000); } MUST(p); }
};
'''
A("c25_destroy", "C25", [("usage_lock.h", "  ~usage_lock() { drop(); }", "  ~usage_lock() = default;")], RPC + '''
struct object { bool alive = true; ~object() { alive = false; } };
int main() {
  static std::atomic<bool> holding{false}, released{false};
  auto* o = new object;
  auto* lock = new usage_lock<object>(o);
  std::thread a([&] { auto ref = lock->get(); holding = true; usleep(200000); released = true; });
  while (!holding) usleep(1000);
  delete lock;
  MUST(released);
  a.join();
  delete o;
}''', "destroying the lock while another thread still uses the object", "the destructor returns although there are users left", srcs=NET + " packet_codecs highway_hash")

A("c26_replace_then_refuse", "C26", [("registry.h", """    if (!encoder_info_map_.emplace(class_name, info{(f)}).second)
      throw errors::invalid_state("Duplicate encoder function registered");""", """    auto& entry = encoder_info_map_[class_name];
    const bool known = entry.encoder_function != nullptr;
    entry.encoder_function = f;
    if (known) throw errors::invalid_state("Duplicate encoder function registered");""")], '''
#include "arpc/registry.h"
#include "arpc/serializable.h"
#include "arpc/binary_codecs.h"
#include "arpc/string_adapters.h"
using namespace arpc;
struct one : dynamic<one> { int8_t v = 1; ARPC_FIELDS(v); };
struct two : dynamic<two> { int8_t v = 2; ARPC_FIELDS(v); };
int main() {
  using S = little_endian_binary_encoder;
  auto& r = registry::dynamic_encoder_registry<S>::get();
  r.register_class<one>("one");
  auto first = r["one"].encoder_function;
  bool refused = false;
  try { r.register_class<two>("one"); } catch (const errors::invalid_state&) { refused = true; }
  MUST(refused);
  MUST(r["one"].encoder_function == first);
}''', "registering a second class under a name that is taken", "the refused registration replaces the first one")

A("c32_unlimited", "C32", [("executor.cpp", "    : pending_(queue_size == 0 ? num_worker_threads : queue_size),", "    : pending_(queue_size <= 0 ? num_worker_threads : queue_size),")], SYNC + '''
int main() {
  thread_pool pool(1);
  std::atomic<int> ran{0};
  flag go;
  bool late = false;
  {
    context ctx;
    ctx.set_timeout(std::chrono::milliseconds(500));
    try { for (int i = 0; i < 5; i++) pool.run([&] { go.wait(); ran++; }); } catch (const errors::deadline_exceeded&) { late = true; }
  }
  MUST(!late);
  go.set();
  for (int i = 0; i < 1000 && ran < 5; i++) usleep(1000);
  MUST(ran == 5);
}''', "more tasks than workers in a pool whose queue is unlimited", "submitting blocks although the queue has no limit")

A("c32_thread_deadline", "C32", [("thread.h", """          } catch (const errors::cancelled& e) {
          } catch (const errors::deadline_exceeded& e) {
          }""", """          } catch (const errors::cancelled& e) {
          }""")], SYNC + '''
int main() {
  context ctx;
  ctx.set_timeout(std::chrono::milliseconds(50));
  arpc::thread t([] { flag f; f.wait(); });
  t.join();
}''', "a thread whose context has a deadline that passes", "the whole program is terminated")

A("c34_closing_late", "C34", [("connection.cpp", """  closing_.set();
  locked_.drop();
  channel_.close();""", """  locked_.drop();
  closing_.set();
  channel_.close();""")], RPC + '''
int main() {
  int f[2];
  MUST(!socketpair(AF_UNIX, SOCK_STREAM, 0, f));
  channel_connection c{channel(f[0])};
  std::atomic<bool> failed{false}, done{false};
  std::thread reader([&] { char x; try { c.read(&x, 1); } catch (const errors::io_error&) { failed = true; } });
  usleep(100000);
  std::thread closer([&] { c.disconnect(); done = true; });
  for (int i = 0; i < 3000 && !done; i++) usleep(1000);
  MUST(done && failed);
  reader.join(); closer.join();
}''', "disconnecting while another thread is blocked in a read", "neither the read nor the disconnection ever ends", srcs=NET + " packet_codecs highway_hash")

A("c34_available_ref", "C34", [("connection.h", """    return connection_ref->data_available().then([connection_ref]() {});""", """    return connection_ref->data_available();""")], RPC + '''
int main() {
  using conn = reconnectable_connection<wire>;
  conn c;
  c.connect();
  std::atomic<bool> down{false}, used{true};
  bool early = false;
  std::thread t;
  {
    auto a = c.data_available();
    t = std::thread([&] { c.disconnect(); down = true; early = used; });
    usleep(200000);
    early = down;
    used = false;
  }
  t.join();
  MUST(!early);
}''', "disconnecting while another thread still waits for data", "the connection goes away, and its descriptor may be reused, under the waiter", srcs=NET + " packet_codecs highway_hash")

A("c35_max_deadline", "C35", [("client.h", "          earliest_deadline = std::min(*earliest_deadline, *p.second.deadline);", "          earliest_deadline = std::max(*earliest_deadline, *p.second.deadline);")], RPC + '''
int main() {
  client_type client;
  auto far = client.get_proxy<service::async>("x", {std::chrono::milliseconds(20000)});
  auto near = client.get_proxy<service::async>("x", {std::chrono::milliseconds(200)});
  auto a = far.add(1, 2);
  auto b = near.add(3, 4);
  bool expired = false;
  auto [r, t] = select(b.first.can_get(), timeout(3s));
  MUST(r && !t);
  try { b.first.get(); } catch (const errors::deadline_exceeded&) { expired = true; }
  MUST(expired);
}''', "two calls pending with different time limits", "the call with the tighter limit does not end in time", srcs=NET + " packet_codecs highway_hash")

A("c35_response_kept", "C35", [("client.h", """      it->second.result.set_value(std::move(response));
      pending_.erase(it);""", """      it->second.result.set_value(std::move(response));""")], RPC + '''
int main() {
  client_type client;
  auto p = client.get_proxy<service::async>("x");
  auto a = p.add(1, 2);
  auto b = p.add(3, 4);
  auto ra = request_id(peer(0).receive()), rb = request_id(peer(0).receive());
  peer(0).send(reply(ra, 3));
  peer(0).send(reply(ra, 3));
  usleep(100000);
  try { peer(0).send(reply(rb, 7)); } catch (...) {}
  MUST(a.first.get() == 3);
  int got = 0;
  try { got = b.first.get(); } catch (...) {}
  MUST(got == 7);
}''', "a response that arrives twice while another call is pending", "the connection is torn down and the other call fails", srcs=NET + " packet_codecs highway_hash")

A("c35_broadcast_kept", "C35", [("client.h", """    for (auto& p : pending_) {
      p.second.result.set_exception(exc);
    }
    pending_.clear();""", """    for (auto& p : pending_) {
      p.second.result.set_exception(exc);
    }""")], RPC + '''
int main() {
  client_type client;
  auto p = client.get_proxy<service::async>("x", {std::chrono::milliseconds(300)});
  auto a = p.add(1, 2);
  peer(0).receive();
  peer(0).disconnect();
  bool failed = false;
  try { a.first.get(); } catch (const errors::base_error&) { failed = true; }
  MUST(failed);
  usleep(600000);
  auto q = client.get_proxy<service::async>("x");
  auto b = q.add(1, 2);
  peer(1).send(reply(request_id(peer(1).receive()), 3));
  MUST(b.first.get() == 3);
}''', "the connection is lost during a call, and the call's deadline passes later", "the time-out thread dies of an unhandled exception", srcs=NET + " packet_codecs highway_hash")

A("c35_late_registration", "C35", [("client.h", """    future<std::string> result;

    {
      std::scoped_lock lock(pending_mu_);
      auto& pending = pending_[req_id];""", """    future<std::string> result;

    send(std::move(request));

    {
      std::scoped_lock lock(pending_mu_);
      auto& pending = pending_[req_id];"""), ("client.h", """    try {
      send(request);
    } catch (...) {
      abandon_request(req_id);
      throw;
    }

    return result;""", """    return result;""")], RPC + SLOW + '''
int main() {
  client_type client;
  auto p = client.get_proxy<service::async>("x");
  std::atomic<bool> stop{false};
  std::thread server([&] { peer(0).send(reply(request_id(peer(0).receive()), 3)); });
  slow = 20000;
  auto a = p.add(1, 2);
  slow = 0;
  server.join();
  auto [r, t] = select(a.first.can_get(), timeout(2s));
  MUST(r && !t);
  MUST(a.first.get() == 3);
}''', "a response that arrives before the caller's thread gets to run again", "the response is thrown away and the call never ends", srcs=NET + " packet_codecs highway_hash", flags="-ldl")

A("c36_cancel_any", "C36", [("server.h", """    auto it = requests_.find(key);
    if (it != requests_.end()) {
      it->second->get_context().cancel();
    }""", """    for (auto& request : requests_) {
      if (request.first.second == key.second) request.second->get_context().cancel();
    }""")], RPC + '''
int main() {
  server_object<impl> o;
  server s(server_options{}, endpoint().name("127.0.0.1").port(port()));
  s.register_object(std::string("o"), o);
  s.start();
  tcp_peer a, b;
  context ctx;
  a.p->send(ask(7, "o", "wait", hash_of<&service::wait>(), ctx, 500));
  while (o.calls < 1) usleep(1000);
  b.p->send(ask(7, "o", "wait", hash_of<&service::wait>(), ctx, 500));
  while (o.calls < 2) usleep(1000);
  a.p->send(stop_it(7));
  a.p->receive();
  MUST(o.interrupted == 1);
  b.p->receive();
  MUST(o.interrupted == 1);
}''', "two clients with calls of the same number", "one client's cancellation interrupts the other's call", srcs=NET + " packet_codecs highway_hash")

A("c36_first_registered", "C36", [("server.h", "      entry.methods[method_fn_key{method_info::name(), method_hash}] =", "      auto& fn = entry.methods[method_fn_key{method_info::name(), method_hash}];\n      if (!fn) fn =")], RPC + '''
int main() {
  server_object<impl> o, n;
  n.bias = 100;
  server s(server_options{}, endpoint().name("127.0.0.1").port(port()));
  s.register_object(std::string("o"), o);
  s.register_object(std::string("o"), n);
  s.start();
  tcp_peer a;
  context ctx;
  a.p->send(ask(1, "o", "add", hash_of<&service::add>(), ctx, 1, 2));
  a.p->receive();
  MUST(o.calls == 0 && n.calls == 1);
}''', "an object registered under a name that was in use", "calls still reach the object registered first", srcs=NET + " packet_codecs highway_hash")

A("c36_limit_skipped", "C36", [("server.h", "      if (options_.request_timeout) {", "      if (options_.request_timeout && !ctx.deadline()) {")], RPC + '''
int main() {
  server_object<impl> o;
  server_options opt;
  opt.request_timeout = std::chrono::milliseconds(200);
  server s(opt, endpoint().name("127.0.0.1").port(port()));
  s.register_object(std::string("o"), o);
  s.start();
  tcp_peer a;
  context ctx;
  ctx.set_timeout(std::chrono::milliseconds(60000));
  a.p->send(ask(1, "o", "wait", hash_of<&service::wait>(), ctx, 2000));
  a.p->receive();
  MUST(o.expired == 1);
}''', "a caller whose own deadline is later than the server's limit", "the server's limit does not apply", srcs=NET + " packet_codecs highway_hash")

A("c36_key_reused", "C36", [("server.h", """          while (connections_.count(++next_connection_key_) > 0) {""", """          next_connection_key_ = 0;
          while (connections_.count(++next_connection_key_) > 0) {""")], RPC + '''
int main() {
  server_object<impl> o;
  server s(server_options{}, endpoint().name("127.0.0.1").port(port()));
  s.register_object(std::string("o"), o);
  s.start();
  context ctx;
  {
    tcp_peer a;
    a.p->send(ask(7, "o", "wait", hash_of<&service::wait>(), ctx, 800));
    while (o.calls < 1) usleep(1000);
  }
  usleep(300000);
  tcp_peer b;
  auto none = [&](std::chrono::milliseconds t) { auto [d, x] = select(b.p->data_available(), timeout(t)); return !d; };
  MUST(none(1200ms));
  b.p->send(ask(9, "o", "add", hash_of<&service::add>(), ctx, 1, 2));
  MUST(request_id(b.p->receive()) == 9);
}''', "a client that leaves during a call, and another one that connects before it ends", "the newcomer gets the response meant for the other", srcs=NET + " packet_codecs highway_hash")

A("c38_dial_budget", "C38", [("socket.cpp", "    if (deadline_left) ctx.set_timeout(*deadline_left / addr_list.size());", "    if (deadline_left) ctx.set_timeout(*deadline_left);")], RPC + '''
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
static int listening;
extern "C" int getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo** out) {
  // The first address has its queue full and does not answer; the second one does.
  static sockaddr_in sa[2]; static addrinfo ai[2];
  for (int i = 0; i < 2; i++) {
    int l = ::socket(AF_INET, SOCK_STREAM, 0); socklen_t n = sizeof(sa[i]);
    sa[i].sin_family = AF_INET; sa[i].sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::bind(l, (sockaddr*)&sa[i], n) || ::listen(l, i ? 8 : 0)) abort();
    getsockname(l, (sockaddr*)&sa[i], &n);
    if (!i) for (int k = 0; k < 4; k++) { int c = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); ::connect(c, (sockaddr*)&sa[0], n); }
    ai[i] = addrinfo{0, AF_INET, SOCK_STREAM, 0, n, (sockaddr*)&sa[i], nullptr, nullptr};
  }
  ai[0].ai_next = &ai[1];
  *out = &ai[0];
  return 0;
}
extern "C" void freeaddrinfo(struct addrinfo*) noexcept {}
int main() {
  context ctx;
  ctx.set_timeout(std::chrono::milliseconds(4000));
  bool ok = false;
  auto start = std::chrono::steady_clock::now();
  try { auto c = dial(endpoint().name("x").port(1)); ok = (bool)c; } catch (const errors::base_error&) {}
  MUST(ok && std::chrono::steady_clock::now() - start < 3000ms);
}''', "an endpoint whose first address does not answer, under a deadline", "the silent address uses up the time of the others", srcs=NET + " packet_codecs highway_hash")

A("c38_write_plus", "C38", [("file.cpp", "      O_RDWR | O_CREAT | O_TRUNC,     // WRITE_PLUS", "      O_RDWR | O_CREAT,               // WRITE_PLUS")], RPC + '''
int main() {
  { channel c = file("f", open_mode::WRITE); c.write("longer", 6); }
  { channel c = file("f", open_mode::WRITE_PLUS); c.write("ab", 2); }
  channel c = file("f", open_mode::READ);
  char b[16];
  MUST(c.read(b, 16) == 2);
}''', "opening an existing file for writing and reading", "the old contents stay", srcs=NET)

A("c27_hangup", "C27", [("select.h", "    active = (fd.revents != 0);", "    active = (fd.revents & (POLLIN | POLLOUT)) != 0;")], SYNC + '''
int main() {
  channel p[2];
  pipe(p);
  p[1].close();
  char c;
  bool eof = false, done = false;
  alarm(10);
  auto [r, t] = select(p[0].async_read(&c, 1), timeout(500ms));
  try { if (r) *r; } catch (const errors::eof&) { eof = true; }
  MUST(eof && !t);
}''', "waiting for data from a pipe whose writers are gone", "the end of the data is never reported")
