// C27: select and awaitables, against virtual time and a modelled kernel.
#include <chrono>
#include <memory>
#include <unistd.h>
#include <vector>
#include "arpc/awaitable.h"
#include "arpc/channel.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/pipe.h"
#include "arpc/select.h"
#include "arpc/wait.h"
#include "kern.h"
#include "symx.h"
using namespace arpc;
using ms = std::chrono::milliseconds;
namespace {
const int64_t NEVER = -1;
int64_t now() { return kern_now(); }
// A pipe that becomes readable at a given time.
struct source {
  channel p[2];
  int64_t at;
  explicit source(int64_t when) : at(when) {
    pipe(p);
    p[0].make_non_blocking();
    if (at == 0) fire(this);
    else if (at > 0) kern_at(now() + at, fire, this);
  }
  static void fire(void* s) { auto& me = *(source*)s; ::write(me.p[1].get(), "x", 1); }
};
int64_t when(const char* n, unsigned bits) {
  if (sym_choose(2, "ever") == 0) return NEVER;
  uint16_t v = sym_u16(n); symx_assume(v < (1u << bits)); return v;
}
int64_t earlier(int64_t a, int64_t b) { return a < 0 ? b : b < 0 ? a : a < b ? a : b; }
}  // namespace
// Two descriptors and two timers: select ends at the first event, and reports
// exactly the events that have happened by then.
extern "C" void sel_first() {
  unsigned bits = (unsigned)symx_param(0, 8);
  context::top();
  int fds = kern_open_fds();
  {
    source s0(when("t0", bits)), s1(when("t1", bits));
    int64_t d2 = when("d2", bits), d3 = when("d3", bits);
    bool poll3 = sym_bool("polling");
    int64_t first = earlier(earlier(s0.at, s1.at), earlier(d2, d3));
    symx_assume(first >= 0);
    int64_t start = now();
    auto third = d2 < 0 ? never() : timeout(ms(d2));
    auto [r0, r1, r2, r3] = select(s0.p[0].can_read(), s1.p[0].can_read().then([]() { return 7; }), std::move(third),
                                   (d3 < 0 ? never() : poll3 ? polling(ms(d3)) : timeout(ms(d3))).then([&]() { return start; }));
    int64_t took = now() - start;
    CHECK(took == first, "select ends at the first event");
    CHECK((bool)r0 == (s0.at >= 0 && s0.at <= took), "the first descriptor is reported exactly when readable");
    CHECK((bool)r1 == (s1.at >= 0 && s1.at <= took), "the second descriptor is reported exactly when readable");
    bool anyFd = r0 || r1;
    // Timers that expire at the very moment a descriptor becomes ready may or may not be reported.
    if (r2) CHECK(d2 == took, "a timer is reported when it expires");
    if (r3) CHECK(d3 == took, "a timer is reported when it expires");
    if (!anyFd) CHECK(((bool)r2 == (d2 == took)) && ((bool)r3 == (d3 == took)), "every expired timer is reported");
    if (r1) CHECK(*r1 == 7, "the result of the reaction");
    if (r3) CHECK(*r3 == start, "the result of the reaction");
    symx_reach(anyFd ? "descriptor" : "timer");
  }
  CHECK(kern_open_fds() == fds, "descriptors released");
}
namespace {
struct ending {
  channel p[2]; int kind; bool w;
  void act() { if (kind & 1) { if (w) { char c[64]; ::read(p[0].get(), c, 64); } else ::write(p[1].get(), "x", 1); } if (kind & 2) p[w ? 0 : 1].close(); }
  static void fire(void* s) { ((ending*)s)->act(); }
};
}
// Data, room, the other end going away, or both: each ends a select, at once.
extern "C" void sel_ends() {
  context::top();
  int fds = kern_open_fds();
  {
    ending e; e.kind = 1 + (int)sym_choose(3, "kind"); e.w = sym_bool("writing");
    pipe(e.p); e.p[0].make_non_blocking(); e.p[1].make_non_blocking();
    if (e.w) { kern()->capacity = 4; ::write(e.p[1].get(), "full", 4); }
    uint16_t at = sym_u16("at"), d = sym_u16("d"); symx_assume(at < 256 && d < 256 && at != d);
    if (at == 0) e.act(); else kern_at(now() + at, ending::fire, &e);
    int64_t start = now(); char c = 0; bool moves = sym_bool("transfers"); int how = 0;
    channel& x = e.p[e.w ? 1 : 0];
    if (!moves) {
      auto [r, t] = select(e.w ? x.can_write() : x.can_read(), timeout(ms(d)));
      CHECK((bool)r == (at < d) && (bool)t == (d < at), "reported exactly if ready");
    } else {
      auto [r, t] = select(e.w ? x.async_write("y", 1) : x.async_read(&c, 1), timeout(ms(d)));
      CHECK((bool)r == (at < d) && (bool)t == (d < at), "reported exactly if ready");
      try { if (r) how = *r == 1 ? 1 : 2; } catch (const errors::eof&) { how = 3; } catch (const errors::io_error&) { how = 4; }
      int want = at > d ? 0 : e.w ? (e.kind & 2 ? 4 : 1) : (e.kind & 1 ? 1 : 3);
      CHECK(how == want && (how != 1 || e.w || c == 'x'), "with what happened");
    }
    CHECK(now() - start == (at < d ? at : d), "and at that moment");
    symx_reach(at < d ? "ready" : "timer");
  }
  CHECK(kern_open_fds() == fds, "descriptors released");
}
namespace {
// Becomes readable up to twice, at given times, for nobody: the reaction drains it and asks to try again.
struct spurious {
  channel p[2];
  int n = 0;
  int64_t t[2];
  spurious(int64_t a, int64_t b) : t{a, b} {
    pipe(p);
    p[0].make_non_blocking();
    for (auto at : t) if (at >= 0) kern_at(now() + at, fire, this);
  }
  static void fire(void* s) { auto& me = *(spurious*)s; ::write(me.p[1].get(), "x", 1); }
  awaitable<void> wait() {
    return p[0].can_read().then([this]() { char c; p[0].maybe_read(&c, 1); n++; throw errors::try_again("not yet"); });
  }
};
}  // namespace
// Wake-ups that turn out to be for nothing neither end a select nor delay its timers.
extern "C" void sel_retry() {
  unsigned bits = (unsigned)symx_param(0, 6);
  context::top();
  int mode = (int)sym_choose(3, "timer");  // timeout, context deadline, wait()
  uint16_t a = sym_u16("a"), b = sym_u16("b"), d = sym_u16("d");
  symx_assume(a < (1u << bits) && b < (1u << bits) && d < (1u << bits) && a < d);
  spurious s(a, sym_bool("twice") ? b : NEVER);
  int64_t start = now();
  if (mode == 0) {
    auto [r, t] = select(s.wait(), timeout(ms(d)));
    CHECK(!r, "an awaitable that asks to try again is not reported");
    CHECK((bool)t, "the timer is reported");
  } else {
    context ctx;
    ctx.set_timeout(ms(d));
    bool expired = false;
    try {
      if (mode == 1) { auto [r] = select(s.wait()); (void)r; }
      else wait(s.wait());
    } catch (const errors::deadline_exceeded&) { expired = true; }
    CHECK(expired, "the deadline interrupts the wait");
  }
  CHECK(now() - start == d, "timers run from the start of the select, whatever wakes it meanwhile");
  CHECK(s.n >= 1, "the spurious wake-up was seen");
  symx_reach(s.n == 2 ? "two" : "one");
}
// A descriptor that stays ready while its reaction has nothing to report, however briefly
// that takes each time, does not keep timers and deadlines from expiring.
extern "C" void sel_stuck() {
  static const int steps[] = {300000, 500000, 1000000, 1700000};
  context::top();
  int64_t step = steps[sym_choose(4, "step")];
  int d = (int)sym_choose((uint64_t)symx_param(0, 4), "after"), mode = (int)sym_choose(3, "timer");
  int early = (int)sym_choose(3, "times not ready");
  channel p[2]; pipe(p); p[1].maybe_write("x", 1);
  int64_t epoch = kern()->steadyEpochNs, sys = kern()->systemEpochNs; int tries = 0;
  bool stays = sym_bool("stays ready");
  auto never_ready = [&] {
    tries++; kern()->steadyEpochNs += step; kern()->systemEpochNs += step;
    if (tries > 40) return;   // it should have ended long since
    if (stays || tries <= early) throw errors::try_again("not yet");
  };
  auto spent = [&] { return kern()->steadyEpochNs - epoch + kern_now() * 1000000; };
  int64_t base = kern_now() * 1000000; bool fired = false, done = false;
  if (mode == 0) { auto [r, t] = select(p[0].can_read().then(never_ready), timeout(ms(d))); fired = (bool)t; done = (bool)r; }
  else if (mode == 1) {
    std::vector<awaitable<void>> v; v.push_back(never()); v.push_back(timeout(ms(d)));
    auto [t, r] = select(v, p[0].can_read().then(never_ready)); fired = (bool)t[1]; done = (bool)r; CHECK(!t[0], "never");
  } else {
    context ctx; ctx.set_timeout(ms(d));
    try { auto [r] = select(p[0].can_read().then(never_ready)); done = (bool)r; } catch (const errors::deadline_exceeded&) { fired = true; }
  }
  int64_t took = spent() - base;
  CHECK(tries <= 40 && (fired || done), "the wait ends");
  if (stays) CHECK(fired && !done, "a descriptor with nothing to report does not starve the timers");
  if (fired) CHECK(took >= d * 1000000 - (mode == 2 ? 1000000 : 0), "not before their time");
  CHECK(took <= (int64_t)d * 1000000 + 2 * step + 1000000, "nor long after it");
  kern()->steadyEpochNs = epoch; kern()->systemEpochNs = sys;
  symx_reach(fired ? "timer" : "descriptor");
}
// Polling timers re-evaluate their condition every interval.
extern "C" void sel_polling() {
  int interval = 1 + (int)sym_choose(4, "interval");
  int64_t at = sym_u16("at"); symx_assume(at < 20);
  context::top();
  int64_t start = now(); int calls = 0;
  auto [r] = select(polling(ms(interval)).then([&]() { calls++; if (now() - start < at) throw errors::try_again("not yet"); return 3; }));
  int64_t took = now() - start;
  CHECK(r && *r == 3, "the polled condition is reported");
  CHECK(took >= at && (took < at + interval || took == interval) && took % interval == 0, "as soon as an interval ends with it true");
  CHECK(calls == took / interval, "the condition is evaluated once per interval");
  symx_reach("done");
}
// Vectors of awaitables: results line up with their awaitables.
extern "C" void sel_vector() {
  int n = (int)symx_param(0, 3);
  context::top();
  bool ready[4], fails[4]; uint32_t val[4];
  std::vector<std::unique_ptr<source>> s;
  std::vector<awaitable<uint32_t>> v;
  bool any = false;
  for (int i = 0; i < n; i++) {
    ready[i] = sym_choose(2, "ready"); fails[i] = sym_bool("fails"); val[i] = sym_u32("val");
    s.push_back(std::make_unique<source>(ready[i] ? 0 : NEVER));
    v.push_back(s[i]->p[0].can_read().then([i, &fails, &val]() { if (fails[i]) throw errors::data_mismatch("bad"); return val[i]; }));
    any = any || ready[i];
  }
  source extra(sym_choose(2, "ready") ? 0 : NEVER);
  bool front = sym_bool("front");
  auto judge = [&](auto& rv, auto& re, auto& rt) {
    CHECK(rv.size() == (size_t)n, "one result per awaitable");
    for (int i = 0; i < n; i++) {
      CHECK((bool)rv[i] == ready[i], "each element is reported exactly when ready");
      if (ready[i]) {
        bool threw = false; uint32_t got = 0;
        try { got = *rv[i]; } catch (const errors::data_mismatch&) { threw = true; }
        CHECK(threw == fails[i] && (threw || got == val[i]), "with its own value or exception");
      }
    }
    CHECK((bool)re == (extra.at == 0), "the other awaitable");
    CHECK((bool)rt == !(any || extra.at == 0), "the timer fires when nothing else does");
  };
  if (front) { auto [rv, re, rt] = select(v, extra.p[0].can_read(), timeout(ms(3))); judge(rv, re, rt); }
  else { auto [re, rt, rv] = select(extra.p[0].can_read(), timeout(ms(3)), v); judge(rv, re, rt); }
  symx_reach(any ? "some" : "none");
}
// Cancellation and deadlines of the current context interrupt a wait, and an
// interrupted wait has no effects.
extern "C" void sel_cancel() {
  unsigned bits = (unsigned)symx_param(0, 6);
  context::top();
  context outer;
  bool useOuter = sym_bool("outer");
  int how = (int)sym_choose(4, "how");  // 0 cancelled before, 1 at a time, 2 expired deadline, 3 none
  int64_t tc = how == 0 ? 0 : how == 1 ? sym_u16("tc") : NEVER;
  int64_t tr = when("tr", bits);
  if (how == 1) symx_assume(tc > 0 && tc < (1 << bits));
  if (how == 3) symx_assume(tr >= 0);
  int64_t dl = how == 2 ? sym_u16("dl") : NEVER;
  if (how == 2) symx_assume(dl > 0 && dl < (1 << bits));
  source s(tr);
  if (how == 2 && useOuter) outer.set_timeout(ms(dl));
  context ctx;
  static context* target; target = useOuter ? &outer : &ctx;
  if (how == 0) target->cancel();
  if (how == 1) kern_at(now() + tc, [](void*) { target->cancel(); }, nullptr);
  if (how == 2 && !useOuter) ctx.set_timeout(ms(dl));
  context inner;
  char c = 0; int64_t start = now(); int ran = 0; int result = 0;
  try {
    auto [r] = select(s.p[0].async_read(&c, 1).then([&](std::size_t n) { ran++; return n; }));
    CHECK(r && *r == 1 && c == 'x', "the read completed");
    result = 1;
  } catch (const errors::cancelled&) { result = 2; } catch (const errors::deadline_exceeded&) { result = 3; }
  int64_t took = now() - start;
  if (how == 0) CHECK(result == 2 && took == 0, "a cancelled context interrupts at once");
  if (how == 1) CHECK(tr >= 0 && tr < tc ? result == 1 && took == tr : tr != tc ? result == 2 && took == tc : (result == 1 || result == 2), "cancellation interrupts a wait in progress");
  if (how == 2) CHECK(tr >= 0 && tr < dl ? result == 1 && took == tr : tr != dl ? result == 3 && took == dl : (result == 1 || result == 3), "a deadline interrupts a wait in progress");
  if (how == 3) CHECK(result == 1 && took == tr, "an undisturbed wait completes");
  CHECK(ran == (result == 1), "an interrupted wait has no effects");
  CHECK(kern_pipe_bytes(s.p[0].get()) == (result != 1 && tr >= 0 && tr <= took ? 1 : 0), "an interrupted wait consumes nothing");
  symx_reach(result == 1 ? "completed" : result == 2 ? "cancelled" : "expired");
}
// Timeouts of any length: never early, never forgotten.
extern "C" void sel_long() {
  context::top();
  uint64_t d = sym_u64("d"); symx_assume(d <= 6000000000ull);  // 70 days; poll takes 24 at most
  uint64_t t = sym_u64("t"); symx_assume(t <= 6000000000ull && t != d);
  source s((int64_t)t);
  int64_t start = now();
  auto [r, e] = select(s.p[0].can_read(), timeout(ms(d)));
  CHECK((bool)r == (t < d) && (bool)e == (d < t), "the earlier of the two is reported");
  CHECK((uint64_t)(now() - start) == (t < d ? t : d), "at its time");
  symx_reach(r ? "ready" : "expired");
}
// Signals that interrupt the wait do not end it.
extern "C" void sel_signal() {
  context::top();
  kern()->faults[KF_EINTR] = (int)symx_param(0, 2);
  uint16_t d = sym_u16("d"); symx_assume(d < 64);
  source s(when("t", 6));
  int64_t start = now();
  auto [r, e] = select(s.p[0].can_read(), timeout(ms(d)));
  CHECK(s.at == d || ((bool)r == (s.at >= 0 && s.at < d) && (bool)e == !r), "the same outcome as without signals");
  CHECK(now() - start == (s.at >= 0 && s.at < d ? s.at : d), "at the same time");
  symx_reach(kern()->faults[KF_EINTR] < (int)symx_param(0, 2) ? "interrupted" : "undisturbed");
}
