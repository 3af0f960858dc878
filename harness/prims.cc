// C28: flags and mutexes: histories, schedules, cancellation.
#include <memory>
#include <mutex>
#include <thread>
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/mutex.h"
#include "arpc/select.h"
#include "arpc/wait.h"
#include "kern.h"
#include "symx.h"
using namespace arpc;
using ms = std::chrono::milliseconds;
// A flag against a boolean; changing it works under cancelled contexts.
extern "C" void fl_histories() {
  int n = (int)symx_param(0, 4);
  context::top();
  int before = kern_open_fds();
  {
    flag f;
    bool model = false;
    for (int i = 0; i < n; i++) {
      auto op = sym_choose(5, "op");
      if (op >= 3) {
        context ctx; ctx.cancel();
        if (op == 3) f.set(); else f.reset();
        model = op == 3;
      }
      if (op == 0) { f.set(); model = true; }
      if (op == 1) { f.reset(); model = false; }
      if (op == 2) {
        int64_t start = kern_now();
        auto [r, t] = select(f.async_wait(), timeout(ms(5)));
        CHECK(r.has_value() == model && t.has_value() == !model, "waiting on a flag ends exactly when it is set");
        CHECK(kern_now() - start == (model ? 0 : 5), "a set flag does not delay the wait");
      }
      CHECK(f.is_set() == model && static_cast<bool>(f) == model, "the flag reports what was last done");
    }
    symx_reach(model ? "set" : "clear");
  }
  CHECK(kern_open_fds() == before, "a flag releases its descriptors");
}
// Waiters in threads are all released by a set; resets in between lose none for good.
extern "C" void fl_wake() {
  symx_threads((int)symx_param(0, 1), 0);
  int n = (int)symx_param(1, 1);
  context::top();
  flag f;
  bool viaSelect = sym_bool("select"), pulse = sym_bool("pulse");
  int sets = 0; std::mutex m; bool woke[2] = {false, false};
  std::thread t[2];
  for (int i = 0; i < n; i++) t[i] = std::thread([&, i] {
    if (viaSelect) { auto [r, x] = select(f.async_wait(), never()); CHECK((bool)r && !x, "the flag is reported"); }
    else f.wait();
    std::scoped_lock l(m);
    CHECK(sets > 0, "a wait ends only after a set");
    woke[i] = true;
  });
  if (pulse) { { std::scoped_lock l(m); sets++; } f.set(); f.reset(); }
  { std::scoped_lock l(m); sets++; }
  f.set();
  for (int i = 0; i < n; i++) t[i].join();
  CHECK(f.is_set(), "waiting does not change the flag");
  symx_reach(pulse ? "pulsed" : "set once");
}
// Concurrent changes leave the flag consistent with what waiters see.
extern "C" void fl_change() {
  symx_threads((int)symx_param(0, 2), 0);
  int n = (int)symx_param(1, 1);
  context::top();
  flag f;
  bool first = sym_bool("set before"); if (first) f.set();
  bool op[2][2]; for (auto& o : op) for (auto& x : o) x = sym_choose(2, "op");
  auto run = [&](int w) { for (int i = 0; i < n; i++) { if (op[w][i]) f.set(); else f.reset(); } };
  std::thread a([&] { run(0); });
  run(1);
  a.join();
  bool s = f.is_set();
  CHECK(s == op[0][n - 1] || s == op[1][n - 1], "one of the last changes wins");
  if (op[0][n - 1] == op[1][n - 1]) CHECK(s == op[0][n - 1], "agreeing changes win");
  auto [r, t] = select(f.async_wait(), timeout(ms(3)));
  CHECK((bool)r == s && (bool)t == !s, "waiters see what the flag reports");
  f.reset();
  auto [r2, t2] = select(f.async_wait(), timeout(ms(3)));
  CHECK(!r2 && t2, "one reset undoes any number of sets");
  symx_reach(s ? "set" : "clear");
}
// A mutex against a boolean, in one thread.
extern "C" void mx_histories() {
  int n = (int)symx_param(0, 4);
  context::top();
  int before = kern_open_fds();
  {
    mutex m; bool held = false;
    for (int i = 0; i < n; i++) {
      auto op = sym_choose(6, "op");
      if (op == 0) { CHECK(m.try_lock() == !held, "try_lock succeeds exactly when the mutex is free"); held = true; }
      if (op == 1) {
        auto [r, t] = select(m.async_lock(), timeout(ms(4)));
        CHECK((bool)r == !held && (bool)t == held, "locking completes exactly when the mutex is free");
        held = true;
      }
      if (op == 2) {
        auto [r, t] = select(m.can_lock(), timeout(ms(4)));
        CHECK((bool)r == !held && (bool)t == held, "lockability is reported exactly when free");
      }
      if (op == 3) {
        bool again = false;
        try { m.maybe_lock(); } catch (const errors::try_again&) { again = true; }
        CHECK(again == held, "maybe_lock asks to try again exactly when held");
        held = true;
      }
      if (op == 4 && held) {
        context ctx; if (sym_bool("cancelled")) ctx.cancel();
        m.unlock(); held = false;
      }
      if (op == 5) {
        context ctx; ctx.cancel();
        bool threw = false;
        try { m.lock(); } catch (const errors::cancelled&) { threw = true; }
        CHECK(threw, "locking in a cancelled context is interrupted");
      }
    }
    symx_reach(held ? "held" : "free");
    if (!held) { std::unique_lock<mutex> l(m); CHECK(!m.try_lock(), "standard lock guards work"); }
    else m.unlock();
    CHECK(m.try_lock(), "free after the last unlock");
    m.unlock();
  }
  CHECK(kern_open_fds() == before, "a mutex releases its descriptors");
}
// Threads that lock in any of the ways exclude each other and all get their turn.
extern "C" void mx_exclusion() {
  symx_threads((int)symx_param(0, 1), 0);
  int n = (int)symx_param(1, 2);
  context::top();
  mutex m;
  int inside = 0, total = 0, got = 0;  // plain: protected by m
  auto how = sym_choose(3, "how");
  auto run = [&](int how) {
    bool mine = true;
    if (how == 0) m.lock();
    else if (how == 1) { auto [r] = select(m.async_lock()); CHECK((bool)r, "lock reported"); *r; }
    else mine = m.try_lock();
    if (!mine) return 0;
    CHECK(++inside == 1, "one owner at a time");
    total++;
    inside--;
    m.unlock();
    return 1;
  };
  int res[3] = {1, 1, 1};
  std::thread t[2];
  for (int i = 1; i < n; i++) t[i - 1] = std::thread([&, i] { res[i] = run(i == 1 ? (int)how : 0); });
  res[0] = run(0);
  for (int i = 1; i < n; i++) t[i - 1].join();
  m.lock();
  for (int i = 0; i < n; i++) got += res[i];
  CHECK(total == got, "every owner was counted");
  m.unlock();
  symx_reach(total == n ? "all" : "refused");
}
// A waiter that is cancelled does not own the mutex, and the mutex stays usable.
extern "C" void mx_cancel() {
  symx_threads((int)symx_param(0, 1), 0);
  context::top();
  mutex m; int inside = 0;
  m.lock();
  context ctx;
  bool owned = false, interrupted = false;
  std::thread a([&] {
    context mine(ctx);
    try { m.lock(); owned = true; CHECK(++inside == 1, "one owner at a time"); --inside; m.unlock(); }
    catch (const errors::cancelled&) { interrupted = true; }
  });
  bool cancelFirst = sym_bool("cancel first");
  if (cancelFirst) ctx.cancel();
  CHECK(++inside == 1, "one owner at a time"); --inside;
  m.unlock();
  if (!cancelFirst) ctx.cancel();
  a.join();
  CHECK(owned != interrupted, "the waiter owned the mutex or was interrupted");
  if (cancelFirst) CHECK(interrupted, "cancellation comes first");
  { shield s; CHECK(m.try_lock(), "the mutex is free afterwards"); m.unlock(); }
  symx_reach(owned ? "owned" : "interrupted");
}
