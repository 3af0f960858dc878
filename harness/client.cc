// C35: calling remote objects, the harness being the server at the other end of a socket pair.
#include "arpc/client.h"
#include "rpc.h"
#include <unistd.h>
namespace {
using peer_t = packet_connection_impl<channel_connection, protected_stream_packet_protocol<>>;
struct peers_t {
  std::unique_ptr<peer_t> p[8]; std::atomic<int> n{0};
  void add(std::unique_ptr<peer_t> x) { int k = n; CHECK(k < 8, "few connections"); p[k] = std::move(x); n = k + 1; }
  size_t size() { return n; } bool empty() { return n == 0; }
  std::unique_ptr<peer_t>& operator[](int i) { CHECK(i < n, "connected"); return p[i]; }
  std::unique_ptr<peer_t>& back() { return (*this)[n - 1]; }
  void clear() { for (auto& x : p) x.reset(); n = 0; }
} peers;  // one for each time the client connected
std::atomic<int> connects_left = 100;
struct wire : channel_connection {
  static channel make() {
    if (connects_left-- <= 0) throw errors::io_error("refused");
    int f[2]; kern_socketpair(f);
    channel mine(f[0]), other(f[1]); mine.make_non_blocking(); other.make_non_blocking();
    peers.add(std::make_unique<peer_t>(std::move(other)));
    return mine;
  }
  wire() : channel_connection(make()) {}
};
using client_type = client_connection<wire>;
client_options limit(std::optional<ms> t = std::nullopt) { client_options o; o.request_timeout = t; return o; }
struct asked {
  message_type type; uint32_t id = 0, hash = 0; std::string object, method, args; std::optional<context::time_point> deadline; bool cancelled = false;
};
asked parse(const std::string& s) {
  asked a; string_input_stream is(s);
  { dec d(is); d(a.type); d(a.id); }
  if (a.type == message_type::REQUEST) {
    dec d(is); d(a.object); d(a.method); d(a.hash);
    context c(context::top()); d(c); a.deadline = c.deadline(); a.cancelled = c.is_cancelled();
  }
  a.args = s.substr(is.pos());
  return a;
}
bool waiting(peer_t& p) { shield s; auto [d, t] = select(p.data_available(), arpc::timeout(ms(1))); return (bool)d; }
asked next(peer_t& p) { CHECK(waiting(p), "the server gets the request"); shield s; return parse(p.receive()); }
template <class... A> std::tuple<A...> args(const asked& a) { std::tuple<A...> t; string_input_stream is(a.args); dec d(is); d(t); CHECK(is.pos() == a.args.size(), "the arguments and nothing else"); return t; }
std::string ok(uint32_t id, int v) { result_holder<int> r; r.set_value(v); return response(id, r); }
void respond(peer_t& p, const std::string& s) { shield sh; p.send(s); }
std::string obj() { return object_name<enc>(std::string("obj")); }
enum How { NONE, VALUE, END, FAILED, CANCELLED, EXPIRED, MISSING, BUSY, OTHER, BROKEN };
using ahow = std::atomic<How>;
template <class F> How outcome(F&& f) {
  try { f(); return VALUE; }
  catch (const errors::eof&) { return END; } catch (const errors::io_error&) { return FAILED; }
  catch (const errors::cancelled&) { return CANCELLED; } catch (const errors::deadline_exceeded&) { return EXPIRED; }
  catch (const errors::not_found&) { return MISSING; } catch (const errors::try_again&) { return BUSY; }
  catch (const errors::invalid_state&) { return BROKEN; }
  catch (const errors::base_error&) { return OTHER; }
}
bool lost(How h) { return h == END || h == FAILED; }
int begin(int p) { symx_threads((int)symx_param(p, 0), 0); symx_delays((int)symx_param(0, 0)); kern()->capacity = 256; peers.clear(); connects_left = 100; context::top(); return kern_open_fds(); }
void over(int before) { peers.clear(); CHECK(kern_open_fds() == before && kern()->badClose == 0, "descriptors are closed once"); }
}  // namespace
// What is sent, and what comes back.
extern "C" void c_encoding() {
  int before = begin(1);
  {
    client_type c;
    CHECK(peers.empty(), "nothing is connected before it is needed");
    auto method = sym_choose(4, "method"); auto back = sym_choose(4, "back");
    int a = (int)sym_u32("a"), b = (int)sym_u32("b"), v = (int)sym_u32("value");
    std::string w(sym_choose(3, "length"), 'x'); symx_bytes(&w[0], w.size(), "text");
    uint16_t own = sym_u16("deadline"), lim = sym_u16("limit"); symx_assume(own > 20 && lim > 20 && own < 4096 && lim < 4096);
    bool hasOwn = sym_bool("with deadline"), hasLim = sym_bool("with limit");
    ahow h{NONE}; int got = 0; std::string text;
    std::thread t([&] {
      context ctx; if (hasOwn) ctx.set_timeout(ms(own));
      auto p = c.get_proxy<service>(std::string("obj"), hasLim ? limit(ms(lim)) : limit());
      h = outcome([&] { if (method == 0) got = p.add(a, b); if (method == 1) text = p.echo(w); if (method == 2) p.fail(a); if (method == 3) p.wait(b); });
    });
    settle();
    CHECK(peers.size() == 1, "one connection");
    int64_t now = kern_now();
    auto q = next(*peers[0]);
    CHECK(q.type == message_type::REQUEST && q.object == obj() && !q.cancelled, "a request for the object");
    const char* names[] = {"add", "echo", "fail", "wait"};
    uint32_t hashes[] = {hash_of<&base_service::add>(), hash_of<&service::echo>(), hash_of<&service::fail>(), hash_of<&service::wait>()};
    CHECK(q.method == names[method] && q.hash == hashes[method], "for the method");
    if (method == 0) CHECK((args<int, int>(q) == std::make_tuple(a, b)), "with the arguments");
    if (method == 1) CHECK(std::get<0>(args<std::string>(q)) == w, "with the arguments");
    if (method == 2) CHECK(std::get<0>(args<int>(q)) == a, "with the arguments");
    if (method == 3) CHECK(std::get<0>(args<int>(q)) == b, "with the arguments");
    CHECK((bool)q.deadline == (hasOwn || hasLim), "with the caller's time limit");
    if (q.deadline) {
      int64_t left = std::chrono::duration_cast<ms>(*q.deadline - std::chrono::system_clock::now()).count();
      int64_t least = hasOwn && (!hasLim || own < lim) ? own : lim;
      CHECK(left <= least && left >= least - (now) - 4, "the tightest one");
    }
    result_holder<int> ri; result_holder<std::string> rs; result_holder<void> rv; std::string out;
    auto fill = [&](auto& r, auto set) {
      if (back == 0) set();
      if (back == 1) r.set_exception(std::make_exception_ptr(errors::not_found("nothing")));
      if (back == 2) r.set_exception(std::make_exception_ptr(errors::try_again("busy")));
      return response(q.id, r);
    };
    if (method == 0) out = fill(ri, [&] { ri.set_value(v); });
    if (method == 1) out = fill(rs, [&] { rs.set_value(w + "!"); });
    if (method >= 2) out = fill(rv, [&] { rv.set_value(); });
    if (back == 3) { out.clear(); string_output_stream os(out); enc e(os); e(message_type::RESPONSE); e(q.id); }  // the result is missing
    respond(*peers[0], out);
    t.join();
    CHECK(h == (back == 0 ? VALUE : back == 1 ? MISSING : back == 2 ? BUSY : END), "the call ends with the response");
    if (back == 0 && method == 0) CHECK(got == v, "with its value");
    if (back == 0 && method == 1) CHECK(text == w + "!", "with its value");
    CHECK(!waiting(*peers[0]), "nothing else is sent");
    symx_reach(back == 0 ? "value" : "error");
  }
  over(before);
}
// Several calls at once, answered in any order among other responses.
extern "C" void c_calls() {
  int n = (int)symx_param(2, 2);
  int before = begin(1);
  {
    client_type c;
    ahow h[3] = {}; int got[3]; std::vector<std::thread> t;
    for (int i = 0; i < n; i++) t.emplace_back([&, i] { auto p = c.get_proxy<service>(std::string("obj"), limit()); h[i] = outcome([&] { got[i] = p.add(i, 10); }); });
    settle(3);
    CHECK(peers.size() == 1, "one connection");
    uint32_t id[3]; bool seen[3] = {};
    for (int i = 0; i < n; i++) {
      auto q = next(*peers[0]); auto [a, b] = args<int, int>(q);
      CHECK(q.type == message_type::REQUEST && a >= 0 && a < n && b == 10 && !seen[a], "each call is sent once");
      seen[a] = true; id[a] = q.id;
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) CHECK(id[i] != id[j], "each call has its own id");
    bool done[3] = {};
    for (int k = 0; k < n; k++) {
      int left = n - k, pick = (int)sym_choose(left, "next"), i = 0;
      for (;; i++) if (!done[i] && pick-- == 0) break;
      auto other = sym_choose(3, "other");
      if (other == 1) respond(*peers[0], ok(id[i] + 1000, 5));
      if (other == 2) for (int j = 0; j < n; j++) if (done[j]) respond(*peers[0], ok(id[j], 6));
      respond(*peers[0], ok(id[i], 100 + i)); done[i] = true;
      if (sym_bool("pause")) { settle(2); for (int j = 0; j < n; j++) CHECK((h[j] != NONE) == done[j], "a call ends when it is answered"); }
    }
    for (auto& x : t) x.join();
    for (int i = 0; i < n; i++) CHECK(h[i] == VALUE && got[i] == 100 + i, "each call gets its response");
    CHECK(!waiting(*peers[0]) && peers.size() == 1, "nothing else is sent");
  }
  over(before);
  symx_reach("done");
}
// A call ends at the first of response, limit, deadline and cancellation; others go on.
extern "C" void c_times() {
  int before = begin(1);
  {
    client_type c;
    uint16_t lim = sym_u16("limit"), own = sym_u16("deadline"), at = sym_u16("cancelled"), ans = sym_u16("answered");
    symx_assume(lim > 5 && own > 5 && at > 5 && ans > 5 && lim < 500 && own < 500 && at < 500 && ans < 500 && lim != own && lim != at && lim != ans && own != at && own != ans && at != ans);
    bool hasLim = sym_bool("with limit"), hasOwn = sym_bool("with deadline"), hasCancel = sym_bool("with cancellation"), hasAns = sym_bool("with answer");
    symx_assume(hasLim || hasOwn || hasCancel || hasAns);
    bool other = sym_bool("another call");
    ahow h{NONE}, ho{NONE}; std::atomic<int> got{0}, goto_{0}; std::atomic<int64_t> start{-1}, end{-1}; std::atomic<context*> cur{nullptr};
    std::thread t([&] {
      context ctx; cur = &ctx; if (hasOwn) ctx.set_timeout(ms(own));
      auto p = c.get_proxy<service>(std::string("obj"), hasLim ? limit(ms(lim)) : limit());
      start = kern_now();
      h = outcome([&] { got = p.add(1, 2); });
      end = kern_now();
      context fresh(context::top()); auto [w] = select(arpc::timeout(ms(700)));  // keep the context
    });
    std::optional<std::thread> t2;
    settle();
    if (other) t2.emplace([&] { auto p = c.get_proxy<service>(std::string("obj"), limit()); ho = outcome([&] { goto_ = p.add(3, 4); }); });
    settle();
    CHECK(start >= 0 && start <= 1 && peers.size() == 1, "started");
    auto q = next(*peers[0]); auto [a1, a2] = args<int, int>(q); CHECK(a1 == 1 && a2 == 2, "request");
    std::optional<asked> q2; if (other) q2 = next(*peers[0]);
    int first = 1000, what = 0;
    if (hasLim && lim < first) { first = lim; what = 1; }
    if (hasOwn && own < first) { first = own; what = 2; }
    if (hasCancel && at < first) { first = at; what = 3; }
    if (hasAns && ans < first) { first = ans; what = 4; }
    int n1 = hasCancel && hasAns ? (at < ans ? at : ans) : hasCancel ? at : ans, n2 = at < ans ? ans : at;
    auto until = [&](int64_t when) { int64_t left = start + when - kern_now(); if (left > 0) settle(left); };
    auto act = [&](bool cancel) { if (cancel) cur.load()->cancel(); else respond(*peers[0], ok(q.id, 77)); };
    if (hasCancel || hasAns) { until(n1); act(hasCancel && n1 == at); }
    if (hasCancel && hasAns) { until(n2); act(n2 == at); }
    until(510);
    CHECK(h == (what == 1 || what == 2 ? EXPIRED : what == 3 ? CANCELLED : VALUE) && end - start == first, "a call ends at the first of its answer, its limits and its cancellation");
    if (h == VALUE) CHECK(got == 77, "with its value");
    if (h == CANCELLED) {
      auto x = next(*peers[0]);
      CHECK(x.type == message_type::CANCEL_REQUEST && x.id == q.id && x.args.empty(), "the server is told");
    }
    CHECK(!waiting(*peers[0]), "nothing else is sent");
    if (other) {
      CHECK(ho == NONE, "other calls go on");
      respond(*peers[0], ok(q2->id, 78)); t2->join(); CHECK(ho == VALUE && goto_ == 78, "and are answered");
    }
    t.join();
    CHECK(peers.size() == 1, "on the same connection");
    symx_reach(what == 1 ? "limit" : what == 2 ? "deadline" : what == 3 ? "cancelled" : "answered");
  }
  over(before);
}
// A server that answers at once.
extern "C" void c_eager() {
  int n = (int)symx_param(2, 2);
  int before = begin(1);
  {
    std::atomic<int> answered{0};
    std::thread server([&] {  // (started before the client's own threads: next to run after the caller)
      context fresh(context::top());
      while (peers.empty()) settle();
      for (; answered < n; answered++) { auto q = parse(peers[0]->receive()); auto [a, b] = args<int, int>(q); peers[0]->send(ok(q.id, a * 10 + b)); }
    });
    client_type c;
    auto p = c.get_proxy<service>(std::string("obj"), sym_bool("limit") ? limit(ms(300)) : limit());
    for (int i = 0; i < n; i++) { int got = 0; How h = outcome([&] { got = p.add(i, 3); }); CHECK(h == VALUE && got == i * 10 + 3, "the call ends with its response"); }
    server.join();
    CHECK(peers.size() == 1 && !waiting(*peers[0]), "nothing else is sent");
  }
  over(before);
  symx_reach("done");
}
// Two calls with limits of their own end when these do.
extern "C" void c_limits() {
  int before = begin(1);
  {
    client_type c;
    int kind = (int)symx_param(2, 0);
    uint16_t lim[2] = {sym_u16("first limit"), sym_u16("second limit")}; symx_assume(lim[0] > 10 && lim[1] > 10 && lim[0] < 500 && lim[1] < 500 && lim[0] != lim[1]);
    bool own[2] = {(kind & 1) != 0, (kind & 2) != 0}; bool hasAns = kind & 4, after = false; uint16_t ans = 400; if (hasAns) { ans = sym_u16("answered"); symx_assume(ans > 10 && ans < 500 && ans != lim[0] && ans != lim[1]); after = sym_bool("another answer"); }
    ahow h[2] = {NONE, NONE}; std::atomic<int64_t> start[2], end[2]; std::vector<std::thread> t;
    for (int i = 0; i < 2; i++) {
      t.emplace_back([&, i] {
        context ctx; if (own[i]) ctx.set_timeout(ms(lim[i]));
        auto p = c.get_proxy<service>(std::string("obj"), own[i] ? limit() : limit(ms(lim[i])));
        start[i] = kern_now();
        h[i] = outcome([&] { p.add(i, 10); });
        end[i] = kern_now();
      });
      settle();
    }
    std::optional<uint32_t> id[2];
    for (int i = 0; i < 2; i++) { auto q = next(*peers[0]); auto [a, b] = args<int, int>(q); id[a] = q.id; }
    if (hasAns) { int64_t left = start[0] + ans - kern_now(); if (left > 0) settle(left); respond(*peers[0], ok(*id[0], 1)); if (after) respond(*peers[0], ok(*id[0] + 100, 1)); }
    for (auto& x : t) x.join();
    bool answered = hasAns && ans < lim[0];
    CHECK(h[0] == (answered ? VALUE : EXPIRED) && end[0] - start[0] == (answered ? ans : lim[0]), "a call ends at its own limit");
    CHECK(h[1] == EXPIRED && end[1] - start[1] == lim[1], "and so does the other");
    CHECK(!waiting(*peers[0]) && peers.size() == 1, "nothing else is sent");
    symx_reach("done");
  }
  over(before);
}
// Losing the connection ends the calls pending on it, and the next one connects again.
extern "C" void c_lost() {
  int n = (int)symx_param(2, 1);
  int before = begin(1);
  {
    client_type c;
    ahow h[2] = {}; std::vector<std::thread> t;
    for (int i = 0; i < n; i++) t.emplace_back([&, i] { auto p = c.get_proxy<service>(std::string("obj"), limit()); h[i] = outcome([&] { p.add(i, 10); }); });
    settle(2);
    auto how = sym_choose(symx_param(1, 0) ? 3 : 4, "how");  // (preempted, others would meet the failure)
    CHECK(peers.size() == 1, "connected");
    for (int i = 0; i < n; i++) next(*peers[0]);
    if (how == 0) peers[0]->disconnect();                                  // the end
    if (how == 1) respond(*peers[0], std::string("\x07", 1));              // an unknown message
    if (how == 2) respond(*peers[0], std::string());                       // an empty one
    if (how == 3) { kern()->readErr = ECONNRESET; kern()->faults[KF_READ] = 1; respond(*peers[0], ok(9, 9)); settle(); symx_assume(!kern()->faults[KF_READ]); }
    bool again = sym_bool("at once");
    if (!again) { settle(2); for (int i = 0; i < n; i++) CHECK(h[i] != NONE && h[i] != VALUE, "pending calls end with an error"); }
    ahow h2{NONE}; int got = 0;
    std::thread t2([&] { auto p = c.get_proxy<service>(std::string("obj"), limit()); while (h2 != VALUE) { h2 = outcome([&] { got = p.add(5, 6); }); if (!again) CHECK(h2 == VALUE, "the next call works"); } });
    for (int tries = 0; h2 != VALUE; tries++) {
      CHECK(tries < 4, "a later call works");
      settle(2);
      if (h2 != VALUE && peers.back()->connected() && waiting(*peers.back())) {
        How s = outcome([&] { auto q = next(*peers.back()); auto [a, b] = args<int, int>(q); CHECK(a == 5 && b == 6, "only new requests are sent"); respond(*peers.back(), ok(q.id, 11)); });
        CHECK(s == VALUE || (again && lost(s)), "the new connection works"); settle(2);
      }
    }
    t2.join();
    for (auto& x : t) x.join();
    for (int i = 0; i < n; i++) CHECK(h[i] != NONE && h[i] != VALUE, "pending calls end with an error");
    CHECK(got == 11 && peers.size() >= 2, "on a new connection");
  }
  over(before);
  symx_reach("done");
}
// Connecting fails: the call fails, and nothing remains of it.
extern "C" void c_refused() {
  int before = begin(1);
  {
    client_type c;
    connects_left = 0;
    auto p = c.get_proxy<service>(std::string("obj"), limit());
    CHECK(outcome([&] { p.add(1, 2); }) == FAILED, "the call fails");
    connects_left = 1; if (sym_bool("pause")) settle();
    int got = 0; ahow h{NONE};
    std::thread t([&] { h = outcome([&] { got = p.add(3, 4); }); });
    settle();
    auto q = next(*peers[0]); auto [a, b] = args<int, int>(q); CHECK(a == 3 && b == 4, "the next one is sent");
    respond(*peers[0], ok(q.id, 7)); t.join();
    CHECK(h == VALUE && got == 7, "and answered");
  }
  over(before);
  symx_reach("done");
}
// Calls made without waiting, and destroying the client at any moment.
extern "C" void c_destroy() {
  int n = (int)symx_param(2, 1);
  int before = begin(1);
  {
    std::vector<future<int>> f; int answered = 0;
    bool cancelled = sym_bool("in a cancelled context");
    context ctx;
    {
      client_type c;
      auto p = c.get_proxy<service::async>(std::string("obj"), limit());
      for (int i = 0; i < n; i++) f.push_back(std::move(p.add(i, 1).first));
      if (n && sym_bool("answer")) { auto q = next(*peers[0]); respond(*peers[0], ok(q.id, 50)); if (sym_bool("wait")) { settle(2); answered = 1; } else answered = 2; }
      if (sym_bool("lose") && n) peers[0]->disconnect();
      if (sym_bool("pause")) { settle(2); if (answered == 2) answered = 1; }
      if (n && sym_bool("cancel")) c.cancel_request(0);
      if (cancelled) ctx.cancel();
    }
    shield s;
    for (int i = 0; i < n; i++) {
      auto [r, t] = select(f[i].can_get(), arpc::timeout(ms(5)));
      CHECK((bool)r, "every call has ended");
      int v = 0; How h = outcome([&] { v = f[i].get(); });
      if (i == 0 && answered == 1) CHECK(h == VALUE && v == 50, "with its response");
      else if (i == 0 && answered == 2) CHECK(h != VALUE || v == 50, "with its response or an error");
      else CHECK(h != VALUE, "with an error");
    }
  }
  over(before);
  symx_reach("done");
}
