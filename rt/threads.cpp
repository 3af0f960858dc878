// Threads, mutexes and condition variables for entries that explore schedules.
// The same source is compiled to bitcode for the symbolic executor and natively
// for replay; only the primitives __symx_* differ. Scheduling points follow
// every synchronisation operation (mutex, condition, atomic, thread start);
// between them threads run without interference, which the happens-before race
// detector justifies: plain accesses that could interfere are reported as races.
// Each choice of the next thread is a symbolic input named "sched".
#include "symx.h"
#include "kern.h"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <sstream>
#define private public
#include <thread>
#undef private
extern "C" {
int __symx_thread_start(void (*fn)(void*), void* arg);
void __symx_switch(int t);
int __symx_tid();
void __symx_acq(const void* p);
void __symx_rel(const void* p);
void __symx_touch(const void* p);
void __symx_fail(const char* kind, const char* label);
char __libc_single_threaded = 0;
__attribute__((weak)) int64_t kern_now() { return 0; }
__attribute__((weak)) void kern_set_now(int64_t) {}
}
namespace {
const int N = 8;
int count = 1, preempt = 2, spurious = 0, delays = -1;
bool done[N];
const void* blockedOn[N];
int (*ready[N])(void*); void* readyArg[N]; int64_t wakeAt[N];  // of threads blocked in the kernel model
int inEvent = 0;
const char kernelKey = 0;
struct Event { int64_t when; void (*fn)(void*); void* arg; };
Event ev[8]; int nev = 0;
// The other threads that can run, starting after this one.
int others(int me, int* r) { int n = 0; for (int k = 1; k < count; k++) { int t = (me + k) % count; if (!done[t] && !blockedOn[t]) r[n++] = t; } return n; }
// Every thread is blocked: time passes until the next event or timer.
void passTime() {
  int64_t t = -1;
  for (int i = 0; i < nev; i++) if (t < 0 || ev[i].when < t) t = ev[i].when;
  for (int i = 0; i < count; i++) if (!done[i] && blockedOn[i] == &kernelKey && wakeAt[i] >= 0 && (t < 0 || wakeAt[i] < t)) t = wakeAt[i];
  if (t < 0) __symx_fail("deadlock", "no thread can run");
  if (t > kern_now()) kern_set_now(t);
  inEvent++;
  for (int i = 0; i < nev;) if (ev[i].when <= kern_now()) { Event e = ev[i]; ev[i] = ev[--nev]; e.fn(e.arg); } else i++;
  inEvent--;
  for (int i = 0; i < count; i++) if (!done[i] && blockedOn[i] == &kernelKey && wakeAt[i] >= 0 && wakeAt[i] <= kern_now()) blockedOn[i] = nullptr;
}
void leave(int me) {
  int r[N], n;
  while (!(n = others(me, r))) { passTime(); if (!done[me] && !blockedOn[me]) return; }
  // With a bound on delays, a thread other than the next one runs only so many times.
  int k = n > 1 && delays ? (int)sym_choose(n, "sched") : 0;
  if (k && delays > 0) delays--;
  __symx_switch(r[k]);
}
void block(const void* key) { int me = __symx_tid(); blockedOn[me] = key; leave(me); }
void wakeAll(const void* key) { for (int t = 0; t < count; t++) if (blockedOn[t] == key) blockedOn[t] = nullptr; }
void wakeOne(const void* key) {
  int r[N], n = 0;
  for (int t = 0; t < count; t++) if (blockedOn[t] == key) r[n++] = t;
  if (n) blockedOn[r[n > 1 ? sym_choose(n, "woken") : 0]] = nullptr;
}
void trampoline(void* p) {
  std::thread::_State_ptr s((std::thread::_State*)p);
  s->_M_run();
  s.reset();
  int me = __symx_tid();
  __symx_rel(&done[me]); done[me] = true; wakeAll(&done[me]);
  leave(me);
}
void lockIt(pthread_mutex_t* m) { int* o = (int*)m; int me = __symx_tid(); while (*o) block(m); *o = me + 1; __symx_acq(m); }
void unlockIt(pthread_mutex_t* m) { int* o = (int*)m; if (*o != __symx_tid() + 1) __symx_fail("check", "unlock of a mutex not held"); __symx_rel(m); *o = 0; wakeAll(m); }
}  // namespace
extern "C" {
void symx_sched() {
  if (inEvent || count < 2 || !preempt) return;
  int me = __symx_tid(), r[N], n = others(me, r);
  if (!n) return;
  int k = (int)sym_choose(n + 1, "sched");
  if (k) { preempt--; __symx_switch(r[k - 1]); }
}
void symx_threads(int maxPreempt, int maxSpurious) { preempt = maxPreempt; spurious = maxSpurious; }
void symx_delays(int n) { delays = n; }
void kern_at(int64_t ms, void (*fn)(void*), void* arg) { if (nev == 8) __symx_fail("limit", "events"); ev[nev++] = Event{ms, fn, arg}; }
// Blocks until ready(arg) holds or the (virtual) time is reached.
void symx_block_poll(int (*f)(void*), void* arg, int64_t until) {
  int me = __symx_tid();
  ready[me] = f; readyArg[me] = arg; wakeAt[me] = until;
  blockedOn[me] = &kernelKey;
  leave(me);
}
void symx_kernel_changed() {
  for (int t = 0; t < count; t++) if (!done[t] && blockedOn[t] == &kernelKey && ready[t](readyArg[t])) blockedOn[t] = nullptr;
}
void symx_wake(const void* key) { wakeAll(key); symx_sched(); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { __symx_touch(m); lockIt(m); symx_sched(); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { __symx_touch(m); int* o = (int*)m; int r = 16; if (!*o) { *o = __symx_tid() + 1; __symx_acq(m); r = 0; } symx_sched(); return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { __symx_touch(m); unlockIt(m); symx_sched(); return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
pthread_t pthread_self() noexcept { return __symx_tid() + 1; }
int __cxa_guard_acquire(uint64_t* g) {
  char* c = (char*)g;
  while (!c[0] && c[1]) block(g);
  if (c[0]) { __symx_acq(g); return 0; }
  c[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) { char* c = (char*)g; __symx_rel(g); c[0] = 1; c[1] = 0; wakeAll(g); symx_sched(); }
void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; wakeAll(g); symx_sched(); }
}
namespace std {
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() { __symx_touch(this); }
void condition_variable::wait(unique_lock<mutex>& l) {
  __symx_touch(this);
  pthread_mutex_t* m = l.mutex()->native_handle();
  unlockIt(m);
  if (spurious && sym_choose(2, "spurious")) { spurious--; leave(__symx_tid()); } else block(this);
  lockIt(m);
  symx_sched();
}
void condition_variable::notify_one() noexcept { __symx_touch(this); wakeOne(this); symx_sched(); }
void condition_variable::notify_all() noexcept { __symx_touch(this); wakeAll(this); symx_sched(); }
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  int t = __symx_thread_start(trampoline, s.release());
  _M_id = id(t + 1);
  count = t + 1;
  symx_sched();
}
unsigned thread::hardware_concurrency() noexcept { return 2; }
void thread::join() {
  pthread_t h; static_assert(sizeof h == sizeof _M_id, ""); __builtin_memcpy(&h, &_M_id, sizeof h);
  int t = (int)h - 1;
  while (!done[t]) block(&done[t]);
  __symx_acq(&done[t]);
  _M_id = id();
}
void thread::detach() { _M_id = id(); }
}  // namespace std
