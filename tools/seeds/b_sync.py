SYNC = '''#include "arpc/channel.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/executor.h"
#include "arpc/flag.h"
#include "arpc/future.h"
#include "arpc/mutex.h"
#include "arpc/pipe.h"
#include "arpc/queue.h"
#include "arpc/select.h"
#include "arpc/semaphore.h"
#include "arpc/thread.h"
#include "arpc/wait.h"
#include <atomic>
#include <chrono>
#include <thread>
#include <unistd.h>
#include <sched.h>
#include <dlfcn.h>
#include <pthread.h>
using namespace arpc;
using namespace std::chrono_literals;
'''
# Yields after every unlock: widens the windows between critical sections.
YIELD = '''
static std::atomic<unsigned> tick{0};
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
  int r = real(m);
  unsigned t = tick.fetch_add(1) * 2654435761u >> 20;
  if (t % 3 == 0) sched_yield();
  if (t % 101 == 0) usleep(t % 7 * 10);
  return r;
}
'''
# A thread that says so is slow after every unlock.
SLOW = """
static thread_local int slow = 0;
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
  int r = real(m);
  if (slow) usleep(slow);
  return r;
}
"""
A("c28_flag_set_unlocked", "C28", [("flag.cpp", """  std::scoped_lock lock(mu_);
  if (!set_) {
    // Not a cancellation point: flags implement cancellation.
    pipe_[1].maybe_write("*", 1);
    set_ = true;
  }""", """  {
    std::scoped_lock lock(mu_);
    if (set_) return;
    set_ = true;
  }
  // Not a cancellation point: flags implement cancellation.
  pipe_[1].maybe_write("*", 1);""")], SYNC + YIELD + '''
int main() {
  flag f;
  std::atomic<bool> stop{false}, bad{false};
  std::thread a([&] { while (!stop) f.set(); }), b([&] {
    try { while (!stop) f.reset(); } catch (...) { bad = true; }
  });
  for (int i = 0; i < 100 && !bad; i++) std::this_thread::sleep_for(50ms);
  stop = true; a.join(); b.join();
  MUST(!bad);
}''', "a reset() between the two halves of a concurrent set()", "reset() throws, and the flag's pipe and its state disagree", flags="-ldl")

A("c28_mutex_unlock_cancelled", "C28", [("mutex.cpp", """  shield shield;
  pipe_[1].write("*", 1);
}""", """  pipe_[1].write("*", 1);
}""")], SYNC + '''
int main() {
  mutex m;
  context ctx;
  m.lock();
  ctx.cancel();
  bool threw = false;
  try { m.unlock(); } catch (const errors::cancelled&) { threw = true; }
  MUST(!threw);
  MUST(m.try_lock());
}''', "unlocking in a context that was cancelled while holding the mutex", "unlock() throws and the mutex stays locked for ever")

A("c28_mutex_lock_twice", "C28", [("mutex.cpp", """  return can_lock().then([this]() { maybe_lock(); });""",
"""  return can_lock().then([this]() { try_lock(); });""")], SYNC + '''
int main() {
  mutex m;
  std::atomic<int> inside{0};
  std::atomic<bool> bad{false};
  m.lock();
  auto body = [&] { for (int i = 0; i < 300; i++) { m.lock(); if (++inside != 1) bad = true; std::this_thread::sleep_for(20us); --inside; m.unlock(); } };
  std::thread a(body), b(body), c(body), d(body);
  std::this_thread::sleep_for(50ms);
  m.unlock();
  a.join(); b.join(); c.join(); d.join();
  MUST(!bad);
}''', "two waiters woken by one unlock()", "the one that loses the race believes it holds the mutex")

A("c29_low_water", "C29", [("queue.h", """  void update_flags() {
    if (data_.size() == 0) {
      can_get_.reset();
    } else {
      can_get_.set();
    }
    if (data_.size() == max_size_) {
      can_put_.reset();
    } else {""", """  void update_flags() {
    if (data_.size() == 0) {
      can_get_.reset();
    } else {
      can_get_.set();
    }
    if (data_.size() == max_size_) {
      can_put_.reset();
    } else if (data_.size() <= max_size_ / 2) {""")], SYNC + '''
int main() {
  queue<int> q(3);
  q.put(1); q.put(2); q.put(3);
  MUST(q.get() == 1);
  auto [p, t] = select(q.async_put(4), timeout(300ms));
  MUST(p && !t);
  MUST(q.get() == 2 && q.get() == 3 && q.get() == 4);
}''', "a queue of three or more that was full and loses a single item", "a producer stays blocked although there is room")

A("c29_semaphore_release", "C29", [("queue.h", """    if (size_ == max_size_) throw errors::try_again("Queue is full");
    size_++;
    update_flags();""", """    if (size_ == max_size_) throw errors::try_again("Queue is full");
    if (size_++ == 0) can_get_.set();
    if (size_ + 1 == max_size_) can_put_.reset();""")], SYNC + '''
int main() {
  semaphore s(3);
  s.put(); s.put();
  // There is room for one more.
  auto [p, t] = select(s.async_put(), timeout(300ms));
  MUST(p && !t);
  bool full = false;
  try { s.maybe_put(); } catch (const errors::try_again&) { full = true; }
  MUST(full);
}''', "the last unit of a semaphore", "a waiter for the last unit is never woken")

A("c30_release_race", "C30", [("future.cpp", """void future_state_base::release_writer() {
  bool has_reader;
  {
    std::scoped_lock lock(mu_);
    has_writer_ = false;
    has_reader = has_reader_;
  }
  if (!has_reader) {
    delete this;""", """void future_state_base::release_writer() {
  {
    std::scoped_lock lock(mu_);
    has_writer_ = false;
  }
  if (!has_reader_) {
    delete this;""")], SYNC + YIELD + '''
int main() {
  for (int i = 0; i < 20000; i++) {
    promise<int> p;
    auto f = p.get_future();
    std::atomic<int> go{0};
    std::thread a([&] { promise<int> mine(std::move(p)); ++go; while (go < 2); mine.set_value(1); });
    { auto mine = std::move(f); ++go; while (go < 2); }
    a.join();
  }
}''', "the future destroyed just after the promise let go of the shared state", "the shared state is used after it was freed, and freed twice", flags="-ldl -fsanitize=address")

A("c30_state_order", "C30", [("future.h", """  template <typename U>
  void set_value(U&& u) {
    std::scoped_lock lock(mu_);
    result_.set_value(std::forward<U>(u));
    set_.set();
  }""", """  template <typename U>
  void set_value(U&& u) {
    set_.set();
    std::scoped_lock lock(mu_);
    result_.set_value(std::forward<U>(u));
  }""")], SYNC + SLOW + '''
int main() {
  promise<int> p;
  auto f = p.get_future();
  std::thread a([mine(std::move(p))]() mutable { std::this_thread::sleep_for(20ms); slow = 50000; mine.set_value(3); slow = 0; });
  int got = 0;
  bool threw = false;
  try { got = f.get(); } catch (const errors::try_again&) { threw = true; }
  a.join();
  MUST(!threw && got == 3);
}''', "a reader woken between the flag and the value", "get() throws try_again although the promise was fulfilled", flags="-ldl")

A("c31_add_child_race", "C31", [("context.cpp", """  std::scoped_lock lock(children_mu_);
  children_.insert(child);
  if (cancelled_) {
    child->cancel();
  }""", """  if (cancelled_) {
    child->cancel();
  }
  std::scoped_lock lock(children_mu_);
  children_.insert(child);""")], SYNC + SLOW + '''
int main() {
  context parent(context::top(), false);
  std::atomic<bool> ready{false}, lost{false};
  std::thread a([&] {
    ready = true;
    slow = 50000;
    context child(parent, false);
    slow = 0;
    while (!parent.is_cancelled()) usleep(1000);
    for (int w = 0; w < 1000 && !child.is_cancelled(); w++) usleep(1000);
    lost = !child.is_cancelled();
  });
  while (!ready) usleep(100);
  usleep(25000);
  parent.cancel();
  a.join();
  MUST(!lost);
}''', "a parent cancelled while a child is being created", "the child is never cancelled", flags="-ldl")

A("c31_deadline_copy", "C31", [("context.cpp", """  if (!deadline_ || *deadline_ > when) {
    deadline_ = when;
  }""", """  if (!deadline_ || *deadline_ > when || *deadline_ < std::chrono::system_clock::now()) {
    deadline_ = when;
  }""")], SYNC + '''
int main() {
  context outer;
  outer.set_deadline(std::chrono::time_point_cast<context::duration>(std::chrono::system_clock::now() - 1s));
  context inner;
  inner.set_timeout(std::chrono::milliseconds(3000));
  bool late = false;
  try { auto [t] = select(timeout(200ms)); (void)t; } catch (const errors::deadline_exceeded&) { late = true; }
  MUST(late);
}''', "a new deadline set when the one in force has already passed", "the expired deadline is replaced by a later one")

A("c33_assign_keeps", "C33", [("channel.cpp", """  channel tmp;
  tmp.swap(fd);
  swap(tmp);
  return *this;""", """  swap(fd);
  return *this;""")], SYNC + '''
int main() {
  channel a[2], b[2];
  pipe(a); pipe(b);
  // Assigning over the write end of a closes it: its reader sees the end of the channel.
  a[1] = std::move(b[1]);
  MUST(!b[1]);
  char c;
  bool eof = false;
  a[0].make_non_blocking();
  try { a[0].maybe_read(&c, 1); } catch (const errors::eof&) { eof = true; } catch (const errors::try_again&) {}
  MUST(eof);
}''', "assigning to a channel that is open, while the source object lives on", "the previous descriptor stays open, in the moved-from channel")

A("c33_release_dup", "C33", [("channel.cpp", """  channel res(::dup(fd_));
  if (!res) throw_io_error("Error duplicating the channel descriptor");
  return res;""", """  channel res;
  res.reset(::dup(fd_));
  if (res.get() <= 0) throw_io_error("Error duplicating the channel descriptor");
  return res;""")], SYNC + '''
int main() {
  channel p[2];
  pipe(p);
  close(0);
  bool threw = false;
  try { channel d = p[0].dup(); MUST(*d == 0); } catch (...) { threw = true; }
  MUST(!threw);
}''', "duplicating when descriptor 0 is free", "a successful duplication is reported as an error")

A("c37_polling_lost", "C37", [("awaitable.h", """        timeout_(std::move(old.timeout_)),
        for_polling_(old.for_polling_) {}""", """        timeout_(std::move(old.timeout_)) {}""")], SYNC + '''
int main() {
  int calls = 0;
  auto [p, t] = select(polling(20ms).then([&] { calls++; throw errors::try_again("not yet"); }), timeout(300ms));
  MUST(!p && t);
  MUST(calls >= 5 && calls <= 40);
}''', "a composed polling awaitable whose first polls are not ready", "after its first interval it is polled in a busy loop")

