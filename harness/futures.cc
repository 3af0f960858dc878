// C30: futures and promises; C37: composition of awaitables and futures.
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/future.h"
#include "arpc/pipe.h"
#include "arpc/select.h"
#include "arpc/wait.h"
#include "kern.h"
#include "symx.h"
using namespace arpc;
using ms = std::chrono::milliseconds;
namespace {
struct plain { using type = uint32_t; static type make(uint32_t v) { return v; } static uint32_t get(const type& t) { return t; } };
struct moveOnly { using type = std::unique_ptr<uint32_t>; static type make(uint32_t v) { return std::make_unique<uint32_t>(v); } static uint32_t get(const type& t) { return *t; } };
struct nothing { using type = void; };
enum { VALUE, ERROR, HOLDER_VALUE, HOLDER_ERROR, BROKEN, REPLACED, WAYS };
enum { GOT_VALUE = 1, GOT_ERROR, GOT_BROKEN, GOT_NOTHING };
int expected(int how) { return how == VALUE || how == HOLDER_VALUE ? GOT_VALUE : how == ERROR || how == HOLDER_ERROR ? GOT_ERROR : GOT_BROKEN; }
// Resolves a promise in one of the ways there are.
template <class X> void resolve(promise<typename X::type>& p, int how, uint32_t v) {
  using T = typename X::type;
  auto err = [] { return std::make_exception_ptr(errors::data_mismatch("bad")); };
  if (how == VALUE) { if constexpr (std::is_void_v<T>) p.set_value(); else p.set_value(X::make(v)); }
  if (how == ERROR) p.set_exception(err());
  if constexpr (!std::is_void_v<T>) {
    if (how == HOLDER_VALUE) { result_holder<T> h; h.set_value(X::make(v)); p.set(std::move(h)); }
    if (how == HOLDER_ERROR) { result_holder<T> h; h.set_exception(err()); p.set(std::move(h)); }
  }
  if (how == BROKEN) { auto q = std::move(p); }
  if (how == REPLACED) p = promise<T>();
}
template <class F> int outcome(F&& f) {
  try { f(); return GOT_VALUE; }
  catch (const errors::data_mismatch&) { return GOT_ERROR; }
  catch (const errors::invalid_state&) { return GOT_BROKEN; }
  catch (const errors::try_again&) { return GOT_NOTHING; }
}
template <class X> int consume(future<typename X::type>& f, int how, uint32_t v, bool ready) {
  using T = typename X::type;
  auto ok = [&](auto&& got) { if constexpr (!std::is_void_v<T>) CHECK(X::get(got) == v, "the value the promise was given"); };
  if (how == 0) return outcome([&] { if constexpr (std::is_void_v<T>) f.maybe_get(); else ok(f.maybe_get()); });
  if (how == 1) {
    auto [r, t] = select(f.async_get(), timeout(ms(5)));
    CHECK((bool)r == ready && (bool)t == !ready, "a future is ready exactly when its promise is resolved");
    if (!r) return GOT_NOTHING;
    auto& res = r;
    return outcome([&] { if constexpr (std::is_void_v<T>) *res; else ok(*res); });
  }
  if (how == 2) {
    auto [r, t] = select(f.can_get(), timeout(ms(5)));
    CHECK((bool)r == ready && (bool)t == !ready, "readiness is reported exactly when the promise is resolved");
  }
  if (!ready) return GOT_NOTHING;
  return outcome([&] { if constexpr (std::is_void_v<T>) f.get(); else ok(f.get()); });
}
template <class X> void life() {
  using T = typename X::type;
  context::top();
  int before = kern_open_fds();
  { context warm; try { throw errors::data_mismatch("x"); } catch (...) {} }
  {
    uint32_t v = sym_u32("v");
    int how = (int)sym_choose(WAYS, "how");
    if (std::is_void_v<T> && (how == HOLDER_VALUE || how == HOLDER_ERROR)) symx_assume(0);
    promise<T> p;
    future<T> f;
    bool early = sym_bool("early");
    CHECK(outcome([&] { f.maybe_get(); }) == GOT_BROKEN, "an empty future refuses");
    if (early) f = p.get_future();
    if (early && sym_bool("look first")) {
      CHECK(consume<X>(f, (int)sym_choose(4, "consume"), v, false) == GOT_NOTHING, "an unresolved future yields nothing");
    }
    if (!early) { if (how >= BROKEN) symx_assume(0); f = p.get_future(); if (sym_bool("move promise")) { promise<T> q = std::move(p); p = std::move(q); } }
    resolve<X>(p, how, v);
    if (how < BROKEN) {
      int again = outcome([&] { resolve<X>(p, (int)sym_choose(2, "again"), v + 1); });
      CHECK(again == GOT_BROKEN, "a promise is resolved once");
    }
    if (sym_bool("move future")) { future<T> g = std::move(f); f = std::move(g); }
    if (sym_bool("promise first")) { promise<T> gone = std::move(p); }
    if (sym_choose(2, "drop future")) { future<T> gone = std::move(f); symx_reach("dropped"); }
    else {
      CHECK(consume<X>(f, (int)sym_choose(4, "consume"), v, true) == expected(how), "the outcome the promise was given");
      symx_reach(expected(how) == GOT_VALUE ? "value" : expected(how) == GOT_ERROR ? "error" : "broken");
    }
  }
  CHECK(kern_open_fds() == before, "nothing is left open");
}
}  // namespace
extern "C" void fu_plain() { life<plain>(); }
extern "C" void fu_move() { life<moveOnly>(); }
extern "C" void fu_void() { life<nothing>(); }
// A future that outlives or predeceases its promise, in any order, frees the shared state once.
extern "C" void fu_release() {
  context::top();
  for (int warm = 0; warm < 2; warm++) {
    size_t heap = symx_live_heap(); int fds = kern_open_fds();
    {
      auto p = std::make_unique<promise<std::string>>();
      std::unique_ptr<future<std::string>> f;
      bool take = warm && sym_bool("take"), set = warm && sym_bool("set"), order = warm && sym_bool("order"), get = warm && sym_bool("get");
      if (take) f = std::make_unique<future<std::string>>(p->get_future());
      if (set) p->set_value("a string that does not fit in place, in any implementation");
      if (set && take && get) CHECK(f->get().size() == 58, "value");
      if (order) { f.reset(); p.reset(); } else { p.reset(); f.reset(); }
    }
    if (warm) CHECK(symx_live_heap() == heap, "the shared state is freed");
    CHECK(kern_open_fds() == fds, "its descriptors are closed");
  }
  symx_reach("done");
}
// The promise is resolved in a thread while the future is waited for, moved or dropped.
extern "C" void fu_threads() {
  symx_threads((int)symx_param(0, 2), 0);
  context::top();
  int fds = kern_open_fds();
  {
    int how = (int)sym_choose(WAYS, "how"); uint32_t v = sym_u32("v");
    promise<uint32_t> p;
    auto f = p.get_future();
    int consumer = (int)sym_choose(3, "consumer");
    int seen = 0;
    std::thread a([&, q = std::move(p)]() mutable { resolve<plain>(q, how, v); });
    if (consumer == 0) seen = consume<plain>(f, 3, v, true);
    else if (consumer == 1) { auto g = f.then([](uint32_t x) { return (uint64_t)x + 1; }); seen = outcome([&] { CHECK(g.get() == (uint64_t)v + 1, "the transformed value"); }); }
    else { auto gone = std::move(f); }
    if (consumer != 2) CHECK(seen == expected(how), "the outcome the promise was given");
    a.join();
    symx_reach(consumer == 2 ? "dropped" : "got");
  }
  CHECK(kern_open_fds() == fds, "the shared state is freed");
}
// A wait interrupted by cancellation leaves the result to be had later.
extern "C" void fu_cancel() {
  symx_threads((int)symx_param(0, 2), 0);
  context::top();
  promise<uint32_t> p; auto f = p.get_future(); uint32_t v = sym_u32("v");
  context ctx;
  bool first = sym_bool("cancel first");
  std::thread a([&] { if (first) ctx.cancel(); p.set_value(v); if (!first) ctx.cancel(); });
  bool got = false;
  { context mine(ctx); try { CHECK(f.get() == v, "the value"); got = true; } catch (const errors::cancelled&) {} }
  if (!got) { shield s; CHECK(f.get() == v, "an interrupted wait does not lose the result"); }
  a.join();
  symx_reach(got ? "got" : "interrupted");
}
namespace {
// A chain of stages applied to an awaitable or future, against the same
// computation done directly. A stage maps (value or error) to (value or error).
struct out { int err; uint32_t v; };  // err: 0 none, 1 data_mismatch, 2 unavailable, 3 try_again
[[noreturn]] void raise(int e) {
  if (e == 1) throw errors::data_mismatch("1");
  if (e == 2) throw errors::unavailable("2");
  throw errors::not_found("3");
}
struct stage { int kind, err; uint32_t add; };
stage pick() { stage s; s.kind = (int)sym_choose(5, "stage"); s.err = s.kind == 2 || s.kind == 3 ? 0 : (int)sym_choose(3, "fails"); s.add = sym_u32("add"); return s; }
int calls;  // handlers run
out apply(const stage& s, out x, int& n) {
  switch (s.kind) {
    case 0: if (x.err) return x; n++; return s.err ? out{s.err, 0} : out{0, x.v + s.add};                      // then
    case 1: if (x.err != 1) return x; n++; return s.err ? out{s.err, 0} : out{0, s.add};                        // except one class
    case 2: if (!x.err) return x; n++; return out{0, s.add};                                                     // except every library error
    case 3: n++; return x.err == 2 ? out{0, s.add} : x.err ? x : out{0, x.v + 1};                               // decorate, handles one error
    default: n++; return s.err ? out{s.err, 0} : x;                                                             // decorate, may fail before
  }
}
template <class A> auto build(A a, const stage& s) {
  switch (s.kind) {
    case 0: return A(a.then([s](uint32_t v) -> uint32_t { calls++; if (s.err) raise(s.err); return v + s.add; }));
    case 1: return A(a.template except<errors::data_mismatch>([s](const errors::data_mismatch&) -> uint32_t { calls++; if (s.err) raise(s.err); return s.add; }));
    case 2: return A(a.template except<std::exception>([s](const std::exception&) -> uint32_t { calls++; return s.add; }));
    case 3: return A(a.decorate([s](auto& f, auto&... args) -> uint32_t { calls++; try { return f(args...) + 1; } catch (const errors::unavailable&) { return s.add; } }));
    default: return A(a.decorate([s](auto& f, auto&... args) -> uint32_t { calls++; if (s.err) raise(s.err); return f(args...); }));
  }
}
template <class G> void judge(G&& g, out want, int n) {
  int err = 0; uint32_t v = 0;
  try { v = g(); } catch (const errors::data_mismatch&) { err = 1; } catch (const errors::unavailable&) { err = 2; } catch (const errors::not_found&) { err = 3; }
  CHECK(err == want.err && (err || v == want.v), "the stages' composed outcome");
  CHECK(calls == n, "each stage that applies runs once, the others not at all");
  symx_reach(err ? "error" : "value");
}
}  // namespace
extern "C" void cp_awaitable() {
  int n = (int)symx_param(0, 2);
  context::top(); calls = 0;
  uint32_t v = sym_u32("v"); out want{0, v}; int ran = 0;
  auto a = always().then([v]() { return v; });
  stage s[4]; int base = 0;
  for (int i = 0; i < n; i++) { s[i] = pick(); want = apply(s[i], want, ran); (void)base; }
  // A decorator that fails before calling the rest keeps inner stages from running.
  int inner = ran; for (int i = n - 1; i >= 0; i--) if (s[i].kind == 4 && s[i].err) { int skip = 0; out x{0, v}; for (int j = 0; j < i; j++) x = apply(s[j], x, skip); inner = ran - skip; break; }
  if (n == 1) { auto b = build<awaitable<uint32_t>>(std::move(a), s[0]); auto [r] = select(std::move(b)); auto& h = r; judge([&] { return *h; }, want, inner); }
  else if (n == 2) { auto b = build<awaitable<uint32_t>>(build<awaitable<uint32_t>>(std::move(a), s[0]), s[1]); auto [r] = select(std::move(b)); auto& h = r; judge([&] { return *h; }, want, inner); }
  else { auto b = build<awaitable<uint32_t>>(build<awaitable<uint32_t>>(build<awaitable<uint32_t>>(std::move(a), s[0]), s[1]), s[2]); auto [r] = select(std::move(b)); auto& h = r; judge([&] { return *h; }, want, inner); }
}
extern "C" void cp_future() {
  int n = (int)symx_param(0, 2);
  context::top(); calls = 0;
  uint32_t v = sym_u32("v"); int start = (int)sym_choose(3, "resolved"); out want{start, v}; int ran = 0;
  promise<uint32_t> p; auto a = p.get_future();
  stage s[4];
  for (int i = 0; i < n; i++) { s[i] = pick(); want = apply(s[i], want, ran); }
  int inner = ran; for (int i = n - 1; i >= 0; i--) if (s[i].kind == 4 && s[i].err) { int skip = 0; out x{start, v}; for (int j = 0; j < i; j++) x = apply(s[j], x, skip); inner = ran - skip; break; }
  bool late = sym_bool("resolve late");
  auto set = [&] { if (start) p.set_exception(start == 1 ? std::make_exception_ptr(errors::data_mismatch("1")) : std::make_exception_ptr(errors::unavailable("2"))); else p.set_value(v); };
  if (!late) set();
  auto finish = [&](future<uint32_t> f) {
    if (late) { bool again = false; int before = calls; try { auto [r, t] = select(f.can_get(), timeout(ms(1))); again = !r && t; } catch (...) {} CHECK(again && calls == before, "not ready before the promise is resolved"); set(); }
    judge([&] { return f.get(); }, want, inner);
  };
  if (n == 1) finish(build<future<uint32_t>>(std::move(a), s[0]));
  else if (n == 2) finish(build<future<uint32_t>>(build<future<uint32_t>>(std::move(a), s[0]), s[1]));
  else finish(build<future<uint32_t>>(build<future<uint32_t>>(build<future<uint32_t>>(std::move(a), s[0]), s[1]), s[2]));
}
// A composed awaitable waits for exactly what its source waits for.
namespace {
uint64_t evaluations;
awaitable<uint32_t> source(int which, channel* p, flag& f, promise<uint32_t>& pr, future<uint32_t>& fu) {
  auto one = [] { evaluations++; return uint32_t(5); };
  switch (which) {
    case 0: return always().then(one);
    case 1: return never().then(one);
    case 2: return timeout(ms(3)).then(one);
    case 3: return polling(ms(2)).then([]() -> uint32_t { if (++evaluations < 4) throw errors::try_again("not yet"); return 5; });
    case 4: return p[0].can_read().then(one);
    case 5: return p[1].can_write().then(one);
    case 6: return f.async_wait().then(one);
    case 7: return fu.async_get().then([](uint32_t v) { evaluations++; return v; });
    default: return deadline(std::chrono::system_clock::now() + ms(4)).then(one);
  }
}
awaitable<uint32_t> compose(awaitable<uint32_t> a, int kind) {
  switch (kind) {
    case 0: return a.then([](uint32_t v) { return v; });
    case 1: return a.except<errors::data_mismatch>([](const errors::data_mismatch&) { return uint32_t(0); });
    case 2: return a.decorate([](auto& fn, auto&... args) { return fn(args...); });
    default: return a.then([](uint32_t) {}).then([] { return uint32_t(5); });
  }
}
}  // namespace
extern "C" void cp_sources() {
  int n = (int)symx_param(0, 1);
  context::top();
  int which = (int)sym_choose(9, "source");
  bool ready = sym_bool("ready");
  channel p[2]; pipe(p); p[0].make_non_blocking(); p[1].make_non_blocking();
  if (which == 4 && ready) p[1].maybe_write("x", 1);
  if (which == 5 && !ready) try { while (true) p[1].maybe_write("xxxxxxxx", 8); } catch (const errors::try_again&) {}
  flag f; if (which == 6 && ready) f.set();
  promise<uint32_t> pr; auto fu = pr.get_future(); if (which == 7 && ready) pr.set_value(uint32_t(5));
  int k[2] = {(int)sym_choose(4, "stage"), n > 1 ? (int)sym_choose(4, "stage") : 0};
  evaluations = 0;
  auto a = source(which, p, f, pr, fu);
  auto b = n > 1 ? compose(compose(std::move(a), k[0]), k[1]) : compose(std::move(a), k[0]);
  CHECK(evaluations == 0, "nothing runs before the wait");
  // The outcome of the source on its own: when, and after how many evaluations.
  int64_t want = which == 0 ? 0 : which == 1 ? -1 : which == 2 ? 3 : which == 3 ? 8 : which == 8 ? 4 : ready ? 0 : -1;
  uint64_t runs = want < 0 ? 0 : which == 3 ? 4 : 1;
  int64_t start = kern_now();
  auto [r, t] = select(std::move(b), timeout(ms(9)));
  CHECK((bool)r == (want >= 0) && (bool)t == (want < 0), "the composition is ready exactly when its source is");
  CHECK(kern_now() - start == (want < 0 ? 9 : want), "at the same time");
  CHECK(evaluations == runs, "having evaluated it as often");
  if (r) CHECK(*r == 5, "with its value");
  symx_reach(r ? "ready" : "timeout");
}
// Stages between void and values, and values that can only be moved.
extern "C" void cp_types() {
  context::top();
  uint32_t v = sym_u32("v"); int log = 0; int fail = (int)sym_choose(3, "fails");
  auto chain = always()
      .then([&] { log = log * 10 + 1; })
      .then([&] { log = log * 10 + 2; if (fail == 1) raise(1); return std::make_unique<uint32_t>(v); })
      .then([&](std::unique_ptr<uint32_t> p) { log = log * 10 + 3; CHECK(p && *p == v, "the moved value"); if (fail == 2) raise(2); })
      .except<errors::data_mismatch>([&](const errors::data_mismatch&) { log = log * 10 + 4; })
      .then([&] { log = log * 10 + 5; return std::string("x"); });
  CHECK(log == 0, "nothing runs before the wait");
  auto [r] = select(std::move(chain));
  auto& h = r; bool threw = false; CHECK((bool)h, "reported");
  try { CHECK(*h == "x", "the last value"); } catch (const errors::unavailable&) { threw = true; }
  CHECK(threw == (fail == 2) && log == (fail == 0 ? 1235 : fail == 1 ? 1245 : 123), "stages run in order");
  promise<void> p; log = 0;
  auto f = p.get_future().then([&] { log = 1; return std::make_unique<uint32_t>(v); }).except<std::exception>([&](const std::exception&) { log = 9; return std::unique_ptr<uint32_t>(); }).then([&](std::unique_ptr<uint32_t> x) { log = log * 10 + 2; return x ? *x + 1 : 0; });
  if (fail == 0) p.set_value(); else if (fail == 1) p.set_exception(std::make_exception_ptr(errors::unavailable("u"))); else { auto gone = std::move(p); }
  auto got = f.get();
  CHECK(got == (fail == 0 ? v + 1 : 0) && log == (fail == 0 ? 12 : 92), "the composed future");
  symx_reach(fail ? "failed" : "value");
}
// An error that asks to try again is an outcome like any other.
extern "C" void fu_again() {
  context::top();
  bool early = sym_bool("set before"), plain = sym_bool("void");
  auto set = [&](auto& p) { p.set_exception(std::make_exception_ptr(errors::try_again("later"))); };
  auto check = [&](auto& p) {
    auto f = p.get_future();
    std::thread t;
    if (early) set(p); else t = std::thread([&] { { shield s; auto [r] = select(arpc::timeout(std::chrono::milliseconds(1))); } set(p); });
    bool got = false;
    try { f.get(); } catch (const errors::try_again&) { got = true; }
    CHECK(got, "a future that holds a try_again error yields it");
    if (t.joinable()) t.join();
  };
  if (plain) { promise<void> p; check(p); } else { promise<int> p; check(p); }
  promise<int> p; auto f = p.get_future(); set(p);
  auto [r, t] = select(f.async_get(), arpc::timeout(std::chrono::milliseconds(5)));
  symx_reach("done");
  CHECK((bool)r || (bool)t, "select ends");
  CHECK(!t, "selecting on a future that holds a try_again error reports it");
}
