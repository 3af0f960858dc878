// C32: threads with contexts, and thread pools.
#include <atomic>
#include <chrono>
#include <memory>
#include <stdexcept>
#include <thread>
#include <utility>
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/executor.h"
#include "arpc/flag.h"
#include "arpc/select.h"
#include "arpc/thread.h"
#include "arpc/wait.h"
#include "kern.h"
#include "symx.h"
using namespace arpc;
using ms = std::chrono::milliseconds;
namespace {
void settle(int64_t t = 1) { shield s; auto [r] = select(arpc::timeout(ms(t))); CHECK((bool)r, "time passes"); }
// Counts the lives of a task.
struct token {
  static std::atomic<int> live;
  token() { live++; }
  token(const token&) = delete;
  token(token&& o) : on(o.on) { o.on = false; if (!on) CHECK(false, "a task is passed on intact"); }
  ~token() { if (on) live--; }
  bool on = true;
};
std::atomic<int> token::live{0};
int size_of(uint64_t choice, int workers) { return choice == 0 ? -1 : choice == 1 ? 0 : 1; }
}  // namespace
// Every task runs exactly once, without further prompting.
extern "C" void tp_runs() {
  symx_threads((int)symx_param(0, 1), 0);
  int workers = (int)symx_param(1, 1), n = (int)symx_param(2, 2);
  context::top();
  {
    std::atomic<int> ran[4]; for (auto& r : ran) r = 0;
    bool fails = sym_bool("throws"), pause = sym_bool("pause");
    thread_pool pool(workers, size_of(sym_choose(3, "queue"), workers));
    if (pause) settle();
    for (int i = 0; i < n; i++) {
      pool.run([&ran, i, fails, t = std::make_unique<token>()]() {
        CHECK(t && t->on, "the task arrives intact");
        ran[i]++;
        if (fails && i == 0) throw errors::not_found("task");
      });
    }
    settle();
    for (int i = 0; i < n; i++) CHECK(ran[i] == 1, "each task runs exactly once");
    CHECK(token::live == 0, "a task is destroyed after it has run");
  }
  symx_reach("done");
}
// Several threads submit at once, to a pool whose queue is limited.
extern "C" void tp_submit() {
  symx_threads((int)symx_param(0, 1), 0);
  int workers = (int)symx_param(1, 1), n = (int)symx_param(2, 1);
  context::top();
  {
    std::atomic<int> ran[4]; for (auto& r : ran) r = 0;
    thread_pool pool(workers, sym_bool("limited") ? 1 : -1);
    settle();
    auto submit = [&](int w) {
      for (int i = 0; i < n; i++) {
        int k = w * n + i;
        auto f = [&ran, k, t = std::make_unique<token>()]() { CHECK(t && t->on, "the task arrives intact"); ran[k]++; };
        pool.run(std::move(f));
      }
    };
    std::thread a([&] { submit(0); });
    submit(1);
    a.join();
    settle();
    for (int i = 0; i < 2 * n; i++) CHECK(ran[i] == 1, "each task runs exactly once");
    CHECK(token::live == 0, "a task is destroyed after it has run");
  }
  symx_reach("done");
}
// Tasks run in parallel up to the number of workers, and in order with one worker.
extern "C" void tp_parallel() {
  symx_threads((int)symx_param(0, 0), 0);
  int workers = 1 + (int)sym_choose(2, "workers");
  context::top();
  {
    int inside = 0, most = 0, order = 0; std::mutex mu; bool sorted = true;
    thread_pool pool(workers);
    for (int i = 0; i < 3; i++) {
      pool.run([&, i]() {
        { std::scoped_lock l(mu); if (++inside > most) most = inside; if (order++ != i) sorted = false; }
        settle(10);
        std::scoped_lock l(mu); inside--;
      });
    }
    settle(35);
    std::scoped_lock l(mu);
    CHECK(most == workers && order == 3, "as many tasks at a time as there are workers");
    if (workers == 1) CHECK(sorted, "one worker runs the tasks in order");
  }
  symx_reach("done");
}
// Destroying a pool waits for running tasks, interrupts them, and drops the others.
extern "C" void tp_destroy() {
  symx_threads((int)symx_param(0, 1), 0);
  int workers = (int)symx_param(1, 1), n = (int)symx_param(2, 2);
  context::top();
  std::atomic<int> ran[4], ended[4]; for (auto& r : ran) r = 0; for (auto& r : ended) r = 0;
  std::atomic<int> interrupted{0}; std::atomic<bool> gone{false};
  int64_t start = kern_now();
  bool waits = sym_bool("waits"), pause = sym_bool("pause");
  {
    thread_pool pool(workers);
    for (int i = 0; i < n; i++) pool.run([&, i, waits, t = std::make_unique<token>()]() {
      CHECK(!gone, "no task outlives the pool");
      ran[i]++;
      if (waits) { try { auto [r] = select(arpc::timeout(ms(100))); } catch (const errors::cancelled&) { interrupted++; ended[i]++; throw; } }
      ended[i]++;
    });
    if (pause) settle(5);
  }
  gone = true;
  for (int i = 0; i < n; i++) CHECK(ran[i] <= 1 && ended[i] == ran[i], "no task runs twice or is abandoned half-way");
  CHECK(token::live == 0, "every task is destroyed");
  if (waits) CHECK(kern_now() - start < 100, "running tasks are interrupted");
  if (pause) CHECK(ran[0] == 1 && interrupted == (waits ? (workers < n ? workers : n) : 0), "running tasks are interrupted");
  settle(200);
  for (int i = 0; i < n; i++) CHECK(ran[i] <= 1, "nothing runs later");
  symx_reach(ran[0] ? "ran" : "dropped");
}
// A full queue makes the submitter wait; cancellation ends that, and the task is not run.
extern "C" void tp_full() {
  symx_threads((int)symx_param(0, 0), 0);
  context::top();
  {
    std::atomic<int> ran{0}, late{0};
    thread_pool pool(1, 1);
    settle();
    uint16_t busy = sym_u16("busy"), c = sym_u16("cancelled"); symx_assume(busy > 0 && c > 0 && busy < 1024 && c < 1024 && busy != c);
    pool.run([&] { settle(busy); ran++; });
    settle(0);
    pool.run([&] { ran++; });
    int64_t start = kern_now();
    context ctx; std::thread canceller([&] { settle(c); ctx.cancel(); });
    bool stopped = false;
    try { pool.run([&] { late++; }); } catch (const errors::cancelled&) { stopped = true; }
    CHECK(stopped == (c < busy), "submitting waits for room or for cancellation");
    CHECK(kern_now() - start == (c < busy ? c : busy), "and no longer");
    canceller.join();
    settle(2000);
    CHECK(ran == 2 && late == !stopped, "exactly the accepted tasks run");
    symx_reach(stopped ? "refused" : "accepted");
  }
}
// Submitting waits exactly while the queue is full and every worker busy: any queue size, for tasks of equal length.
extern "C" void tp_sizes() {
  symx_threads((int)symx_param(0, 0), 0);
  context::top();
  int workers = 1 + (int)sym_choose(2, "workers"), queue = (int)sym_choose(4, "queue") - 1, n = (int)symx_param(1, 5);
  int room = queue < 0 ? 1000 : queue == 0 ? workers : queue;
  {
    std::atomic<int> ran{0};
    thread_pool pool(workers, queue);
    settle();
    int64_t start = kern_now();
    for (int i = 0; i < n; i++) {
      pool.run([&] { settle(10); ran++; });
      int64_t waves = i < workers + room ? 0 : (i - workers - room) / workers + 1;
      CHECK(kern_now() - start >= 10 * waves && kern_now() - start <= 10 * waves + 3, "submitting waits only for room");
      settle(0);
    }
    settle(10 * n + 10);
    CHECK(ran == n, "each task runs exactly once");
  }
  symx_reach("done");
}
// A thread runs its function once with copies of its arguments, under its own context.
extern "C" void th_contexts() {
  symx_threads((int)symx_param(0, 1), 0);
  context::top();
  bool daemon = sym_bool("daemon");
  auto how = sym_choose(4, "how");  // returns, waits, throws cancelled, throws deadline_exceeded
  auto stop = sym_choose(3, "stop");  // nothing, its context, the creator's
  int val = (int)sym_u32("argument");
  int ran = 0, seen = 0; bool inner = false, interrupted = false, current = false; std::unique_ptr<int> own;
  {
    context mine; auto dl = context::time_point(ms(9000000000000)); mine.set_deadline(dl);
    auto body = [&, p = std::make_unique<int>(5)](int a, std::unique_ptr<int> b) {
      ran++; seen = (int)((unsigned)a + *b - *p);
      inner = &context::current() != &context::top() && &context::current() != &mine;
      current = context::current().deadline() == (daemon ? std::nullopt : std::make_optional(dl));
      if (how == 1) { try { auto [r] = select(arpc::timeout(ms(50))); } catch (const errors::cancelled&) { interrupted = true; throw; } }
      if (how == 2) throw errors::cancelled("x");
      if (how == 3) throw errors::deadline_exceeded("x");
    };
    auto run = [&](auto t) {
      CHECK(t.joinable(), "running");
      if (stop == 1) t.get_context().cancel();
      if (stop == 2) mine.cancel();
      auto u = std::move(t);
      CHECK(!t.joinable() && u.joinable(), "threads can be moved");
      u.join();
      CHECK(!u.joinable(), "joined");
    };
    int arg = val;
    if (daemon) run(daemon_thread(std::move(body), arg, std::make_unique<int>(5))); else run(arpc::thread(std::move(body), arg, std::make_unique<int>(5)));
    CHECK(&context::current() == &mine, "the creator's context is untouched");
    CHECK(mine.is_cancelled() == (stop == 2), "and not cancelled by its threads");
  }
  CHECK(ran == 1 && (uint32_t)seen == (uint32_t)val, "the function runs once with its arguments");
  CHECK(inner, "under a context of its own");
  CHECK(current, "inherited from the creator, or from the top for daemons");
  if (how == 1) CHECK(interrupted == (stop == 1 || (stop == 2 && !daemon)), "which is cancelled through the thread or, except for daemons, its creator");
  symx_reach(interrupted ? "interrupted" : "ended");
}
// The synchronous executor runs the task at once.
extern "C" void se_runs() {
  context::top();
  synchronous_executor e; int n = 0; bool threw = false, fails = sym_bool("throws");
  try { e.run([&, p = std::make_unique<int>(3)] { n += *p; if (fails) throw errors::not_found("x"); }); } catch (const errors::not_found&) { threw = true; }
  CHECK(n == 3 && threw == fails, "run in place");
  symx_reach("done");
}
