// C29: queues and semaphores: histories against a FIFO, schedules, cancellation.
#include <memory>
#include <thread>
#include <utility>
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/queue.h"
#include "arpc/select.h"
#include "arpc/semaphore.h"
#include "arpc/wait.h"
#include "kern.h"
#include "symx.h"
using namespace arpc;
using ms = std::chrono::milliseconds;
namespace {
struct plain {
  using type = uint32_t;
  static type make(uint32_t v) { return v; }
  static uint32_t get(const type& t) { return t; }
};
struct moveOnly {
  using type = std::unique_ptr<uint32_t>;
  static type make(uint32_t v) { return std::make_unique<uint32_t>(v); }
  static uint32_t get(const type& t) { return *t; }
};
struct token {
  using type = void;
};
size_t capacityOf(uint64_t c) { return c == 3 ? std::numeric_limits<size_t>::max() : c; }
// n operations, on an empty queue or (fill > 0) on one with a symbolic number of entries and
// a capacity up to fill.
template <class X> void history(int n, int maxCap, int fill = 0) {
  constexpr bool isVoid = std::is_same_v<X, token>;
  context::top();
  int before = kern_open_fds();
  {
    size_t cap = fill ? 3 + sym_choose(fill - 2, "capacity") : capacityOf(sym_choose(maxCap + 1, "capacity"));
    queue<typename X::type> q(cap);
    uint32_t model[16]; size_t head = 0, tail = 0;
    if (fill) {
      for (auto k = sym_choose(cap + 1, "filled"); k > 0; k--) {
        uint32_t v = (uint32_t)tail * 7; model[tail++] = v;
        if constexpr (isVoid) q.put(); else q.put(X::make(v));
      }
    }
    auto put = [&](int how) {
      uint32_t v = sym_u32("v");
      bool full = tail - head == cap, ok = true;
      if (how == 0) {
        try { if constexpr (isVoid) q.maybe_put(); else q.maybe_put(X::make(v)); } catch (const errors::try_again&) { ok = false; }
      } else if (how == 1) {
        if constexpr (isVoid) { auto [r, t] = select(q.async_put(), timeout(ms(3))); ok = (bool)r; CHECK(ok != (bool)t, "put or timeout"); }
        else { auto [r, t] = select(q.async_put(X::make(v)), timeout(ms(3))); ok = (bool)r; CHECK(ok != (bool)t, "put or timeout"); }
      } else if (how == 2 && !full) {
        if constexpr (isVoid) q.put(); else q.put(X::make(v));
      } else {
        context ctx; ctx.cancel(); ok = false;
        try { if constexpr (isVoid) q.put(); else q.put(X::make(v)); ok = true; } catch (const errors::cancelled&) {}
        CHECK(!ok, "a cancelled put is interrupted");
        return;
      }
      CHECK(ok == !full, "putting succeeds exactly below the capacity");
      if (ok) model[tail++] = v;
    };
    auto judge = [&](uint32_t got) { CHECK(tail > head && got == model[head], "values come out once each, in order"); head++; };
    auto get = [&](int how) {
      bool none = tail == head, ok = true;
      if (how == 0) {
        try { if constexpr (isVoid) { q.maybe_get(); head++; } else judge(X::get(q.maybe_get())); } catch (const errors::try_again&) { ok = false; }
      } else if (how == 1) {
        auto [r, t] = select(q.async_get(), timeout(ms(3)));
        ok = (bool)r; CHECK(ok != (bool)t, "get or timeout");
        if (ok) { if constexpr (isVoid) { *r; head++; } else judge(X::get(*r)); }
      } else if (how == 2 && !none) {
        if constexpr (isVoid) { q.get(); head++; } else judge(X::get(q.get()));
      } else {
        context ctx; ctx.cancel(); ok = false;
        try { q.get(); ok = true; } catch (const errors::cancelled&) {}
        CHECK(!ok, "a cancelled get is interrupted");
        return;
      }
      CHECK(ok == !none, "getting succeeds exactly when not empty");
    };
    for (int i = 0; i < n; i++) {
      auto op = sym_choose(7, "op");
      if (op < 3) put((int)op);
      else if (op < 6) get((int)op - 3);
      else {
        auto [r, w, t] = select(q.can_get(), q.can_put(), timeout(ms(2)));
        CHECK((bool)r == (tail > head) && (bool)w == (tail - head < cap), "readiness is reported exactly");
        CHECK((bool)t == (!r && !w), "or the timeout");
      }
      CHECK(q.size() == tail - head, "size");
      CHECK(q.empty() == (tail == head), "empty");
      CHECK(q.full() == (tail - head == cap), "full");
      CHECK(q.capacity() == cap && q.max_size() == cap, "capacity");
    }
    symx_reach(tail > head ? "left over" : "empty");
  }
  CHECK(kern_open_fds() == before, "a queue releases its descriptors");
}
}  // namespace
extern "C" void q_plain() { history<plain>((int)symx_param(0, 3), 3); }
extern "C" void q_move() { history<moveOnly>((int)symx_param(0, 3), 2); }
extern "C" void q_tokens() { history<token>((int)symx_param(0, 3), 2); }
extern "C" void q_filled() { history<plain>((int)symx_param(0, 2), 0, (int)symx_param(1, 4)); }
extern "C" void q_filled_tokens() { history<token>((int)symx_param(0, 2), 0, (int)symx_param(1, 4)); }
// One producer and consumers, or producers and one consumer: every value once, in order.
extern "C" void q_threads() {
  symx_threads((int)symx_param(0, 1), 0);
  int n = (int)symx_param(1, 2);
  context::top();
  queue<uint32_t> q(1 + sym_choose(2, "capacity"));
  uint32_t v[3]; for (auto& x : v) x = sym_u32("v");
  bool swap = sym_bool("consume in thread");
  auto produce = [&] { for (int i = 0; i < n; i++) q.put(v[i]); };
  auto consume = [&] { for (int i = 0; i < n; i++) { CHECK(q.size() <= q.capacity(), "the capacity bounds the size"); CHECK(q.get() == v[i], "values come out in order"); } };
  std::thread a;
  if (swap) { a = std::thread(consume); produce(); } else { a = std::thread(produce); consume(); }
  a.join();
  CHECK(q.empty(), "every value was delivered once");
  symx_reach("done");
}
extern "C" void q_many() {
  symx_threads((int)symx_param(0, 1), 0);
  context::top();
  queue<uint32_t> q(1);
  bool producers = sym_bool("two producers"), polling = sym_bool("polling");
  uint32_t got[2];
  auto get = [&](int i) {
    if (!polling) { got[i] = q.get(); return; }
    while (true) { auto [r] = select(q.can_get()); *r; try { got[i] = q.maybe_get(); return; } catch (const errors::try_again&) {} }
  };
  auto put = [&](uint32_t v) {
    if (!polling) { q.put(v); return; }
    while (true) { auto [r] = select(q.can_put()); *r; try { q.maybe_put(v); return; } catch (const errors::try_again&) {} }
  };
  std::thread a, b;
  if (producers) { a = std::thread([&] { put(1); }); b = std::thread([&] { put(2); }); get(0); get(1); }
  else { a = std::thread([&] { get(0); }); b = std::thread([&] { get(1); }); put(1); put(2); }
  a.join(); b.join();
  CHECK((got[0] == 1 && got[1] == 2) || (got[0] == 2 && got[1] == 1), "each value goes to one consumer");
  CHECK(q.size() == 0, "nothing is left");
  symx_reach(got[0] == 1 ? "first" : "second");
}
// A semaphore of n slots admits at most n threads, and all get their turn.
extern "C" void q_semaphore() {
  symx_threads((int)symx_param(0, 1), 0);
  context::top();
  size_t slots = 1 + sym_choose(2, "slots");
  semaphore s(slots);
  std::mutex m; size_t inside = 0, most = 0; int turns = 0;
  auto run = [&] {
    s.put();
    { std::scoped_lock l(m); inside++; if (inside > most) most = inside; turns++; }
    { std::scoped_lock l(m); inside--; }
    s.get();
  };
  std::thread a(run), b(run);
  run();
  a.join(); b.join();
  CHECK(most <= slots && turns == 3, "at most the slots inside, all served");
  symx_reach(most == 2 ? "two" : "one");
}
// A get or put interrupted by cancellation leaves no trace; one that completed counts.
extern "C" void q_cancel() {
  symx_threads((int)symx_param(0, 1), 0);
  context::top();
  queue<uint32_t> q(1);
  bool getting = sym_bool("getting");
  if (!getting) q.put(1u);
  context ctx; int done = 0, interrupted = 0; uint32_t got = 0;
  std::thread a([&] {
    context mine(ctx);
    try { if (getting) got = q.get(); else q.put(2u); done = 1; } catch (const errors::cancelled&) { interrupted = 1; }
  });
  bool first = sym_bool("cancel first");
  if (first) ctx.cancel();
  { shield s; if (getting) q.put(7u); else CHECK(q.get() == 1, "in order"); }
  if (!first) ctx.cancel();
  a.join();
  CHECK(done + interrupted == 1 && (!first || interrupted), "completed or interrupted");
  CHECK(q.size() == (size_t)(getting ? interrupted : done), "an interrupted operation has no effect");
  if (done && getting) CHECK(got == 7, "the value");
  symx_reach(done ? "completed" : "interrupted");
}
