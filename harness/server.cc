// C36: serving requests, over packet connections kept in memory.
#include "arpc/server.h"
#include "rpc.h"
namespace {
// What the outside sees of a connection.
struct link {
  queue<std::string> in, out;
  std::atomic<bool> closed{false}, brokenOut{false};
  std::atomic<int> alive{0};
  flag drop;
};
struct fake : packet_connection {
  explicit fake(std::shared_ptr<link> l) : l(std::move(l)) { this->l->alive++; }
  ~fake() override { CHECK(!users, "a connection is not destroyed while in use"); l->alive--; }
  void disconnect() override { l->drop.set(); while (users) { auto [r] = select(arpc::timeout(ms(1))); } }
  bool connected() override { return true; }
  struct use { std::atomic<int>& n; explicit use(std::atomic<int>& c) : n(c) { n++; } ~use() { n--; } };
  void send(std::string d) override {
    use u(users); CHECK(!sending.exchange(true), "one packet is sent at a time");
    if (l->brokenOut) { sending = false; throw errors::io_error("broken"); }
    l->out.put(std::move(d)); sending = false;
  }
  std::string receive() override {
    use u(users); CHECK(!receiving.exchange(true), "one packet is received at a time");
    auto [d, c] = select(l->in.async_get(), l->drop.async_wait());
    receiving = false;
    if (!d || c) throw errors::io_error("closed");
    std::string s = *d;
    if (s.empty()) { l->in.put(std::string()); throw errors::eof("end"); }
    return s;
  }
  awaitable<void> data_available() override { return l->in.can_get(); }
  std::shared_ptr<link> l; std::atomic<int> users{0}; std::atomic<bool> sending{false}, receiving{false};
};
struct source { queue<std::unique_ptr<fake>> fresh; std::atomic<int> returned{0}, running{0}, made{0}; };
struct producer {
  using connection_type = fake;
  explicit producer(source* s) : s(s) { s->made++; }
  ~producer() { s->made--; }
  void start() { s->running = 1; }
  void stop() { s->running = 0; }
  awaitable<std::unique_ptr<fake>> get_connection() { return s->fresh.async_get(); }
  void return_connection(std::unique_ptr<fake> c) { CHECK((bool)c, "the connection"); c.reset(); s->returned++; }
  source* s;
};
using server_type = server<enc, dec, protected_stream_packet_protocol<>, enc, producer>;
std::shared_ptr<link> open(source& s) { auto l = std::make_shared<link>(); s.fresh.put(std::make_unique<fake>(l)); return l; }
server_options opts(int workers, int queue = -1) { server_options o; o.num_worker_threads = workers; o.queue_size = queue; o.request_timeout.reset(); return o; }
std::string name(const std::string& n) { return object_name<enc>(n); }
std::optional<std::string> take(link& l) { try { return l.out.maybe_get(); } catch (const errors::try_again&) { return std::nullopt; } }
int size_t_of(link& l) { return (int)l.out.size(); }
}  // namespace
// One request of any kind gets one answer: the method's result or error.
extern "C" void sv_dispatch() {
  symx_threads(0, 0); symx_delays((int)symx_param(0, 0));
  context::top();
  source src; seen_t seen;
  server_object<impl> object(seen);
  {
    server_type s(opts(1), &src);
    s.register_object(std::string("obj"), object);
    s.start();
    CHECK(src.running == 1, "connections are being accepted");
    auto l = open(src);
    uint32_t id = sym_u32("id"); context ctx;
    auto method = sym_choose(4, "method"); auto wrong = sym_choose(5, "wrong");
    std::string obj = name(wrong == 1 ? "other" : "obj");
    int a = (int)sym_u32("a"), b = (int)sym_u32("b"), how = (int)sym_choose(5, "how");
    std::string w(sym_choose(3, "length"), 'x'); symx_bytes(&w[0], w.size(), "text");
    const char* names[] = {"add", "echo", "fail", "wait"};
    uint32_t hashes[] = {hash_of<&base_service::add>(), hash_of<&service::echo>(), hash_of<&service::fail>(), hash_of<&service::wait>()};
    std::string m = wrong == 2 ? "none" : names[method]; uint32_t h = hashes[method]; if (wrong == 3) { h = sym_u32("hash"); symx_assume(h != hashes[method]); for (int k = 0; k < 4; k++) symx_assume(k != 2 || h != hashes[k] || method != 3); }
    l->in.put(request(id, obj, m, h, ctx, [&](enc& e) {
      if (wrong == 4) return;  // arguments missing
      if (method == 0) { put_args<int, int>(e, a, b); }
      if (method == 1) put_args<std::string>(e, w);
      if (method == 2) put_args<int>(e, how);
      if (method == 3) put_args<int>(e, 2);
    }));
    settle(3);
    auto got = take(*l);
    CHECK((bool)got && size_t_of(*l) == 0, "exactly one response");
    uint32_t rid; int outcome = 0;
    auto check = [&](auto& r, auto&& same) {
      rid = answer(*got, r);
      try { same(r); outcome = 1; }
      catch (const errors::not_found&) { outcome = 2; } catch (const errors::eof&) { outcome = 3; } catch (const errors::try_again&) { outcome = 4; } catch (const errors::cancelled&) { outcome = 6; } catch (const errors::base_error&) { outcome = 5; }
    };
    if (method == 0) { result_holder<int> r; check(r, [&](auto& r) { CHECK((unsigned)r.value() == (unsigned)a + (unsigned)b, "the method's result"); }); }
    if (method == 1) { result_holder<std::string> r; check(r, [&](auto& r) { CHECK(r.value() == w + "!", "the method's result"); }); }
    if (method >= 2) { result_holder<void> r; check(r, [&](auto& r) { r.value(); }); }
    CHECK(rid == id, "the response carries the request's id");
    bool called = wrong == 0;
    CHECK(seen.calls == called, "the method runs once, if it exists and its arguments are there");
    if (called) CHECK(outcome == (method != 2 || how == 0 ? 1 : how == 1 ? 2 : how == 2 ? 4 : how == 4 ? 6 : 5), "the method's outcome");
    else CHECK(outcome == (wrong == 4 ? 3 : 2), "the reason");
    symx_reach(called ? outcome == 1 ? "result" : "error" : "refused");
    if (sym_bool("stop")) { s.stop(); CHECK(src.running == 0 && l->alive == 0, "stopping closes the connections"); }
    s.unregister_object(object);
  }
  symx_reach("done");
}
// Several requests over two connections: each is answered once, on its connection.
extern "C" void sv_many() {
  int n = (int)symx_param(1, 2);
  symx_threads((int)symx_param(2, 0), 0); symx_delays((int)symx_param(0, 1));
  context::top();
  source src; seen_t seen;
  server_object<impl> object(seen);
  {
    server_type s(opts(1 + (int)sym_choose(2, "workers")), &src);
    s.register_object(std::string("obj"), object);
    s.start();
    std::shared_ptr<link> l[2] = {open(src), open(src)};
    int sent[2] = {0, 0}; uint32_t ids[2][4]; int val[2][4];
    for (int i = 0; i < n; i++) {
      int c = (int)sym_choose(2, "connection");
      context ctx;
      ids[c][sent[c]] = (uint32_t)sent[c] * 3; val[c][sent[c]] = 10 * i + c;
      l[c]->in.put(request(ids[c][sent[c]], name("obj"), "add", hash_of<&base_service::add>(), ctx, [&](enc& e) { put_args<int, int>(e, 10 * i, c); }));
      sent[c]++;
      if (sym_bool("pause")) settle();
    }
    settle(5);
    for (int c = 0; c < 2; c++) {
      bool got[4] = {};
      for (int k = 0; k < sent[c]; k++) {
        auto p = take(*l[c]); CHECK((bool)p, "every request is answered");
        result_holder<int> r; uint32_t id = answer(*p, r);
        CHECK(id % 3 == 0 && (int)(id / 3) < sent[c] && !got[id / 3], "once, on its connection");
        got[id / 3] = true; CHECK(r.value() == val[c][id / 3], "with its own result");
      }
      CHECK(!take(*l[c]), "and nothing else is sent");
    }
    CHECK(seen.calls == n, "each request is executed once");
    s.unregister_object(object);
  }
  CHECK(src.returned == 0, "connections are kept");
  symx_reach("done");
}
// Cancelling a request interrupts that request only; deadlines likewise.
extern "C" void sv_cancel() {
  symx_threads(0, 0); symx_delays((int)symx_param(0, 0));
  context::top();
  source src; seen_t seen;
  server_object<impl> object(seen);
  {
    server_options o = opts(2);
    uint16_t limit = sym_u16("limit"), own = sym_u16("deadline"), at = sym_u16("cancelled"), len = sym_u16("length");
    symx_assume(limit > 0 && own > 0 && at > 0 && len > 0 && limit < 1000 && own < 1000 && at < 1000 && len < 1000 && limit != own && limit != at && limit != len && own != at && own != len && at != len);
    if (sym_bool("limited")) o.request_timeout = ms(limit); else limit = 2000;
    server_type s(o, &src);
    s.register_object(std::string("obj"), object);
    s.start();
    auto l = open(src), l2 = open(src);
    settle();
    { context ctx; if (sym_bool("deadline")) ctx.set_timeout(ms(own)); else own = 2000;
    l->in.put(request(7, name("obj"), "wait", hash_of<&service::wait>(), ctx, [&](enc& e) { put_args<int>(e, len); })); }
    int64_t start = kern_now();
    auto which = sym_choose(4, "which");  // nothing, this request, another id, the same id on another connection
    { shield sh; auto [t, done] = select(arpc::timeout(ms(at)), l->out.can_get()); if (t && which) { if (which == 3) l2->in.put(cancellation(7)); else l->in.put(cancellation(which == 1 ? 7 : 8)); } }
    int c = which == 1 ? at : 3000;
    int first = len; if (limit < first) first = limit; if (own < first) first = own; if (c < first) first = c;
    { shield sh; auto [done] = select(l->out.can_get()); CHECK((bool)done, "answered"); }
    CHECK(kern_now() - start == first, "a request ends when it is done, cancelled or out of time");
    auto got = take(*l); result_holder<void> res; CHECK(answer(*got, res) == 7, "id");
    int outcome = 0;
    try { res.value(); } catch (const errors::cancelled&) { outcome = 1; } catch (const errors::deadline_exceeded&) { outcome = 2; }
    CHECK(outcome == (first == c ? 1 : first == limit || first == own ? 2 : 0), "with the reason");
    CHECK(seen.calls == 1 && seen.ended == 1 && seen.cancelled == (outcome == 1) && seen.expired == (outcome == 2), "the method notices");
    settle(3); CHECK(!take(*l) && !take(*l2), "and nothing else is sent");
    s.unregister_object(object);
    symx_reach(outcome == 1 ? "cancelled" : outcome == 2 ? "expired" : "completed");
  }
}
// A broken connection is dropped once, whatever is going on, and others go on.
extern "C" void sv_broken() {
  symx_threads((int)symx_param(1, 1), 0); symx_delays((int)symx_param(0, 1));
  context::top();
  source src; seen_t seen;
  server_object<impl> object(seen);
  {
    server_type s(opts(1 + (int)symx_param(2, 0)), &src);
    s.register_object(std::string("obj"), object);
    s.start();
    auto l = open(src), l2 = symx_param(3, 0) ? open(src) : nullptr;
    context ctx;
    auto add = [&](link& l, uint32_t id) { l.in.put(request(id, name("obj"), "add", hash_of<&base_service::add>(), ctx, [&](enc& e) { put_args<int, int>(e, 1, 2); })); };
    auto how = symx_param(4, 4); if (how == 4) how = sym_choose(4, "how");
    if (sym_bool("pause")) settle();
    if (sym_bool("request")) add(*l, 1);
    if (sym_bool("pause 2")) settle();
    if (how == 0) l->in.put(std::string());                      // the end
    if (how == 1) l->in.put(std::string("\x07", 1));             // an unknown or incomplete message
    if (how == 2) { l->brokenOut = true; add(*l, 2); }           // sending fails
    if (how == 3) { l->brokenOut = true; l->in.put(std::string()); }
    settle(3);
    if (how == 2) { CHECK(l->alive <= 1, "alive"); l->in.put(std::string()); settle(3); }
    CHECK(src.returned == 1 && l->alive == 0, "the connection is dropped, once");
    if (l2) {
      add(*l2, 5); settle(3);
      auto p = take(*l2); CHECK((bool)p, "other connections go on");
      result_holder<int> r; CHECK(answer(*p, r) == 5 && r.value() == 3, "other connections go on");
    }
    s.unregister_object(object);
  }
  CHECK(src.returned == 1, "no other connection is dropped");
  symx_reach("done");
}
// Stopping at any moment, with requests and packets in any state, and starting again.
extern "C" void sv_stop() {
  symx_threads((int)symx_param(1, 1), 0); symx_delays((int)symx_param(0, 1));
  context::top();
  source src; seen_t seen;
  server_object<impl> object(seen);
  {
    server_type s(opts(1), &src);
    s.register_object(std::string("obj"), object);
    s.start();
    auto l = open(src);
    context ctx;
    auto add = [&](link& l, uint32_t id) { l.in.put(request(id, name("obj"), "add", hash_of<&base_service::add>(), ctx, [&](enc& e) { put_args<int, int>(e, 1, 2); })); };
    auto before = symx_param(2, 8); if (before == 8) before = sym_choose(8, "before");
    if (before & 1) settle();
    if (before & 2) add(*l, 1);
    if (before & 4) settle();
    s.stop();
    CHECK(src.running == 0 && src.made == 0, "nothing is accepted any more");
    settle(5);
    CHECK((int)l->alive == (int)src.fresh.size(), "its connections are gone");
    if (sym_bool("again")) {
      try { src.fresh.maybe_get(); } catch (const errors::try_again&) {}
      s.start();
      auto l2 = open(src);
      add(*l2, 5); settle(3);
      auto p = take(*l2); CHECK((bool)p, "a restarted server works");
      result_holder<int> r; CHECK(answer(*p, r) == 5 && r.value() == 3, "a restarted server works");
      symx_reach("again");
    } else symx_reach("stopped");
    s.unregister_object(object);
  }
}
// Objects can be registered, replaced and unregistered at any time; unregistered objects can go.
extern "C" void sv_objects() {
  int n = (int)symx_param(1, 3);
  symx_threads(0, 0); symx_delays((int)symx_param(0, 0));
  context::top();
  source src;
  {
    seen_t seen[2]; std::optional<server_object<impl>> object[2]; object[0].emplace(seen[0]); object[1].emplace(seen[1]);
    server_type s(opts(1), &src);
    s.start();
    auto l = open(src); context ctx;
    int at[2] = {-1, -1};  // which object each name stands for
    const char* names[2] = {"p", "q"};
    for (int i = 0; i < n; i++) {
      auto op = sym_choose(4, "op"); int w = (int)sym_choose(2, "which"), o = (int)sym_choose(2, "object");
      if (op == 0) { s.register_object(std::string(names[w]), *object[o]); at[w] = o; }
      if (op == 1) { s.unregister_object(*object[o]); for (auto& x : at) if (x == o) x = -1; object[o].reset(); object[o].emplace(seen[o]); }
      if (op == 2) { s.unregister_object(std::string(names[w])); at[w] = -1; }
      if (op == 3) {
        int before = at[w] < 0 ? 0 : (int)seen[at[w]].calls;
        l->in.put(request(i, name(names[w]), "add", hash_of<&base_service::add>(), ctx, [&](enc& e) { put_args<int, int>(e, 1, 2); }));
        settle();
        auto p = take(*l); CHECK((bool)p, "answered");
        result_holder<int> r; answer(*p, r); bool found = true;
        try { CHECK(r.value() == 3, "result"); } catch (const errors::not_found&) { found = false; }
        CHECK(found == (at[w] >= 0), "exactly registered names are served");
        if (found) CHECK(seen[at[w]].calls == before + 1, "by the object registered last");
      }
    }
    for (auto& o : object) s.unregister_object(*o);
    symx_reach("done");
  }
}
// However many requests arrive, a limited pool gets through them.
extern "C" void sv_load() {
  int n = (int)symx_param(1, 2);
  symx_threads(0, 0); symx_delays((int)symx_param(0, 1));
  context::top();
  source src; seen_t seen;
  server_object<impl> object(seen);
  {
    server_type s(opts(1, 1), &src);
    s.register_object(std::string("obj"), object);
    s.start();
    std::vector<std::shared_ptr<link>> l; context ctx;
    for (int i = 0; i < n; i++) l.push_back(open(src));
    if (sym_bool("pause")) settle();
    for (int i = 0; i < n; i++) l[i]->in.put(request(i, name("obj"), "add", hash_of<&base_service::add>(), ctx, [&](enc& e) { put_args<int, int>(e, 1, 2); }));
    settle(5);
    for (int i = 0; i < n; i++) { auto p = take(*l[i]); CHECK((bool)p, "every request is answered"); result_holder<int> r; CHECK(answer(*p, r) == (uint32_t)i && r.value() == 3, "result"); }
    s.unregister_object(object);
  }
  symx_reach("done");
}
namespace {
struct made { int kind; };
struct world_t { std::atomic<int> alive{0}, most{0}, tries{0}; std::atomic<int> fail{0}; int limit = 1; };
struct item { explicit item(world_t& w) : w(w) { int n = ++w.alive; if (n > w.most) w.most = n; } ~item() { w.alive--; } world_t& w; };
struct factory {
  using connection_type = item;
  explicit factory(world_t* w) : w(w) {}
  std::unique_ptr<item> operator()() {
    auto [t] = select(arpc::timeout(ms(1)));
    if (w->tries++ < 4 && (w->fail >> w->tries & 1)) throw errors::io_error("aborted");
    return std::make_unique<item>(*w);
  }
  world_t* w;
};
}  // namespace
// The producer of connections goes on after errors, restarts, and makes no more than asked for.
extern "C" void sv_producer() {
  int n = (int)symx_param(1, 3);
  symx_threads(0, 0); symx_delays((int)symx_param(0, 1));
  context::top();
  world_t w; w.fail = (int)sym_choose(8, "failures") << 1;
  {
    connection_producer<factory, 2> p(&w);
    p.start();
    std::vector<std::unique_ptr<item>> mine;
    for (int i = 0; i < n; i++) {
      auto op = sym_choose(4, "op");
      if (op == 0) {
        bool room = mine.size() < 2;
        shield s;
        auto [c, t] = select(p.get_connection(), arpc::timeout(ms(60)));
        CHECK((bool)c == room, "a connection is made exactly while there is room");
        if (c) { CHECK((bool)*c, "a connection"); mine.push_back(std::move(*c)); }
      }
      if (op == 1 && mine.size()) { p.return_connection(std::move(mine.back())); mine.pop_back(); }
      if (op == 2) { p.stop(); int before = w.tries; settle(100); CHECK(w.tries == before, "nothing is made while stopped"); p.start(); symx_reach("restarted"); }
      if (op == 3) settle(2);
      CHECK(w.most <= 2, "no more connections than allowed");
    }
    mine.clear();
  }
  CHECK(w.alive == 0, "nothing is left");
  symx_reach("done");
}
