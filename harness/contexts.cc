// C31: the context tree: cancellation, deadlines, data, the wire, lifetimes.
#include <cstring>
#include <limits>
#include <memory>
#include <optional>
#include <thread>
#include "arpc/binary_codecs.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/mutex.h"
#include "arpc/select.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"
#include "arpc/wait.h"
#include "kern.h"
#include "symx.h"
using namespace arpc;
using ms = std::chrono::milliseconds;
struct user : arpc::dynamic<user> { uint32_t id = 7; ARPC_FIELDS(id); };
struct trace : arpc::dynamic<trace> { std::string s; ARPC_FIELDS(s); };
ARPC_REGISTER(user);
ARPC_REGISTER(trace);
namespace {
using opt = std::optional<context::time_point>;
context::time_point at(int64_t m) { return context::time_point(ms(m)); }
int64_t sysMs() { return std::chrono::time_point_cast<ms>(std::chrono::system_clock::now()).time_since_epoch().count(); }
bool throwsCancelled() { try { auto [t] = select(timeout(ms(0))); (void)t; return false; } catch (const errors::cancelled&) { return true; } }
}  // namespace
// Any tree of contexts and shields: who is cancelled, with which deadline and data.
extern "C" void cx_tree() {
  int n = (int)symx_param(0, 4), ops = (int)symx_param(1, 3);
  context::top();
  std::unique_ptr<context> c[6];
  int parent[6]; bool shielded[6], cancelled[6]; int64_t dl[6]; uint32_t data[6];
  int made = 0;
  auto make = [&] {
    int p = made == 0 ? -1 : (int)sym_choose(made + 1, "parent") - 1;
    shielded[made] = sym_choose(2, "shield"); parent[made] = p;
    c[made] = std::make_unique<context>(p < 0 ? context::top() : *c[p], false, shielded[made]);
    cancelled[made] = p >= 0 && !shielded[made] && cancelled[p];
    dl[made] = p < 0 ? -1 : dl[p];
    data[made] = p < 0 ? 7 : data[p];
    made++;
  };
  make();
  for (int i = 0; i < ops; i++) {
    int k = (int)sym_choose(made, "which");
    switch (sym_choose(made < n ? 4 : 3, "op")) {
      case 3: make(); break;
      case 0: {
        c[k]->cancel(); cancelled[k] = true;
        for (int j = k + 1; j < made; j++) if (parent[j] >= k && !shielded[j] && cancelled[parent[j]]) {
          bool under = false;
          for (int a = j; a >= 0 && (a == j ? !shielded[j] : true); a = parent[a]) { if (a == k) { under = true; break; } if (shielded[a]) break; }
          if (under) cancelled[j] = true;
        }
        break;
      }
      case 1: {
        uint32_t d = sym_u32("deadline");
        c[k]->set_deadline(at(d));
        dl[k] = dl[k] < 0 || (int64_t)d < dl[k] ? (int64_t)d : dl[k];
        break;
      }
      default: { user u; u.id = sym_u32("id"); data[k] = u.id; c[k]->set(u); break; }
    }
  }
  bool any = false;
  for (int j = 0; j < made; j++) {
    CHECK(c[j]->is_cancelled() == cancelled[j], "cancellation reaches exactly the descendants outside shields");
    auto d = c[j]->deadline();
    CHECK(d ? dl[j] >= 0 && d->time_since_epoch().count() == dl[j] : dl[j] < 0, "deadlines are inherited when created and only tighten");
    CHECK(c[j]->get<user>().id == data[j], "data is inherited when created and local afterwards");
    any = any || cancelled[j];
  }
  while (made) c[--made].reset();
  symx_reach(any ? "cancelled" : "alive");
}
// Contexts nest: the current one is the innermost alive, per thread.
extern "C" void cx_current() {
  int depth = (int)symx_param(0, 3);
  context& root = context::top();
  CHECK(&context::current() == &root, "the top context is current by default");
  std::vector<std::unique_ptr<context>> c;
  for (int i = 0; i < depth; i++) {
    int how = (int)sym_choose(3, "how");
    context& before = context::current();
    if (how == 0) { c.push_back(std::make_unique<context>()); CHECK(&context::current() == c.back().get(), "a new context becomes current"); }
    if (how == 1) { c.push_back(std::make_unique<shield>()); CHECK(&context::current() == c.back().get(), "a new shield becomes current"); }
    if (how == 2) { context other(before, false); CHECK(&context::current() == &before, "a context for elsewhere does not"); }
    if (sym_bool("cancel")) { context::current().cancel(); CHECK(context::current().is_cancelled() && throwsCancelled(), "waits in a cancelled context are interrupted"); { shield s; CHECK(!s.is_cancelled() && !throwsCancelled(), "but not under a shield"); } { context k; CHECK(k.is_cancelled() && throwsCancelled(), "and in its children"); } }
  }
  while (!c.empty()) { c.pop_back(); CHECK(&context::current() == (c.empty() ? &root : c.back().get()), "the previous context is current again"); }
  symx_reach("done");
}
extern "C" void cx_data() {
  int ops = (int)symx_param(0, 3);
  context::top();
  context ctx;
  std::optional<uint32_t> id; std::optional<uint8_t> tr;
  for (int i = 0; i < ops; i++) {
    switch (sym_choose(6, "op")) {
      case 0: { user u; u.id = sym_u32("id"); id = u.id; if (sym_bool("lvalue")) ctx.set(u); else ctx.set(std::move(u)); break; }
      case 1: { trace t; uint8_t ch = sym_u8("t"); t.s = std::string(20, (char)ch); tr = ch; ctx.set(std::move(t)); break; }
      case 2: { user u; u.id = sym_u32("id"); trace t; uint8_t ch = sym_u8("t"); t.s = std::string(20, (char)ch); id = u.id; tr = ch; ctx.set(u, t); break; }
      case 3: ctx.reset<user>(); id.reset(); break;
      case 4: ctx.reset<trace, user>(); id.reset(); tr.reset(); break;
      default: ctx.reset_all(); id.reset(); tr.reset();
    }
    CHECK(ctx.get<user>().id == (id ? *id : 7u), "the last value set, or the default");
    CHECK(ctx.get<trace>().s == (tr ? std::string(20, (char)*tr) : std::string()), "values of other classes are independent");
  }
  symx_reach(id ? "set" : "default");
}
// Sending a context: time left, data and cancellation take effect on the other side.
extern "C" void cx_wire() {
  context::top();
  kern_set_now((int64_t)(sym_u32("now")));
  std::string wire;
  bool hasDeadline = sym_bool("deadline"), cancel = sym_bool("cancelled"), hasUser = sym_bool("user"), hasTrace = sym_bool("trace");
  int64_t left = 0; uint32_t id = sym_u32("id"); uint16_t passed = sym_u16("passed");
  context from(context::top(), false);
  if (hasUser) { user u; u.id = id; from.set(u); }
  if (hasTrace) { trace t; t.s = "t"; from.set(t); }
  if (hasDeadline) {
    uint32_t d = sym_u32("d"); int64_t timeout = (int64_t)d - 0x40000000; from.set_timeout(ms(timeout));
    kern_set_now(kern_now() + passed);
    left = timeout - passed;
    auto l = from.deadline_left(); CHECK(l && l->count() == left, "the time left of a deadline");
  }
  if (cancel) from.cancel();
  string_output_stream out(wire); little_endian_binary_encoder enc(out); enc(from);
  context to(context::top(), false);
  user old; old.id = 99; trace oldTrace; oldTrace.s = "old"; to.set(old, oldTrace);
  bool had = sym_bool("had deadline"); int64_t own = (int64_t)sym_u32("own") + sysMs() - 0x40000000;
  if (had) to.set_deadline(at(own));
  bool wasCancelled = sym_bool("was cancelled"); if (wasCancelled) to.cancel();
  string_input_stream in(wire); little_endian_binary_decoder dec(in); dec(to);
  auto d = to.deadline();
  int64_t want = sysMs() + left; if (had && own < want) want = own;
  if (hasDeadline) CHECK(d && d->time_since_epoch().count() == want, "the tighter of both deadlines");
  else CHECK(had ? d && d->time_since_epoch().count() == own : !d, "no deadline came along");
  CHECK(to.is_cancelled() == (cancel || wasCancelled), "cancellation is carried over");
  CHECK(to.get<user>().id == (hasUser ? id : 7) && to.get<trace>().s == (hasTrace ? "t" : ""), "the sender's data replaces the receiver's");
  symx_reach(hasDeadline ? "deadline" : "none");
}
// Malformed contexts: refused or loaded, never undefined behaviour.
extern "C" void cx_bytes() {
  int most = (int)symx_param(0, 2);
  context::top();
  std::string wire(1, 0);
  int count = (int)sym_choose(most + 1, "entries");
  wire.push_back((char)count);
  for (int i = 0; i < count; i++) {
    wire.push_back((char)sym_choose(4, "id"));
    if (wire.back() == 0 || sym_bool("reference")) continue;
    switch (sym_choose(3, "class")) {
      case 0: wire += std::string("\4user", 5); for (int k = 0; k < 4; k++) wire.push_back((char)sym_u8("id byte")); break;
      case 1: { wire += std::string("\5trace", 6); int n = (int)sym_choose(3, "size"); wire.push_back((char)n); while (n--) wire.push_back((char)sym_u8("char")); break; }
      default: { int n = (int)sym_choose(3, "name"); wire.push_back((char)n); while (n--) wire.push_back((char)sym_u8("name byte")); break; }
    }
  }
  wire.push_back((char)sym_u8("cancelled"));
  wire.resize(wire.size() - sym_choose(wire.size() < 4 ? wire.size() : 4, "cut"));
  context to(context::top(), false);
  bool ok = false;
  try { string_input_stream in(wire); little_endian_binary_decoder dec(in); dec(to); ok = true; }
  catch (const errors::base_error&) {}
  catch (const std::bad_alloc&) {}
  auto d = to.deadline(); auto l = to.deadline_left();
  CHECK((bool)d == (bool)l, "a loaded context is usable");
  bool interrupted = false;
  if (ok) {
    context inner(to);
    try { auto [r] = select(timeout(ms(0))); interrupted = !r; } catch (const errors::cancelled&) { interrupted = true; } catch (const errors::deadline_exceeded&) { interrupted = true; }
    if (to.is_cancelled()) CHECK(interrupted, "and cancelled if it says so");
  }
  symx_reach(ok ? "loaded" : "refused");
}
// Any time left, however far: the deadline it stands for, or the farthest there is.
extern "C" void cx_times() {
  context::top();
  kern_set_now((int64_t)(sym_u32("now")));
  std::string wire(11, 0);
  wire[0] = 1;
  uint64_t raw = sym_u64("left"); memcpy(&wire[1], &raw, 8); int64_t left = (int64_t)raw;
  context to(context::top(), false);
  { string_input_stream in(wire); little_endian_binary_decoder dec(in); dec(to); }
  auto d = to.deadline();
  int64_t now = sysMs(), farthest = std::numeric_limits<int64_t>::max();
  CHECK(d && d->time_since_epoch().count() == (left > farthest - now ? farthest : now + left), "the deadline that much later");
  auto l = to.deadline_left();
  CHECK(l && l->count() <= left && (l->count() == left || left > farthest - now), "the time left");
  if (left > 0) { context k(to, false); auto w = k.wait_deadline(); CHECK(w.timeout().count() > 0, "a deadline in the future is waited for"); }
  else { auto w = to.wait_deadline(); CHECK(w.timeout().count() == 0, "a deadline in the past has come"); }
  uint64_t abs = sym_u64("absolute");
  context c2(context::top(), false); c2.set_deadline(at((int64_t)abs));
  auto l2 = c2.deadline_left();
  CHECK(l2 && ((int64_t)abs < std::numeric_limits<int64_t>::min() + now ? l2->count() == std::numeric_limits<int64_t>::min() : l2->count() == (int64_t)abs - now), "the time left of any deadline");
  symx_reach(left > farthest - now ? "farthest" : "exact");
}
// A context outlives its children, whatever thread they live in.
extern "C" void cx_threads() {
  symx_threads((int)symx_param(0, 2), (int)symx_param(1, 0));
  context::top();
  auto ctx = std::make_unique<context>(context::top(), false);
  bool waits = sym_bool("waits");
  auto kid = std::make_unique<context>(*ctx, false);
  bool interrupted = false;
  std::thread a([&, kid = std::move(kid)]() mutable {
    if (waits) { context here(*kid); try { wait(never()); } catch (const errors::cancelled&) { interrupted = true; } }
    kid.reset();
  });
  ctx.reset();
  a.join();
  CHECK(!waits || interrupted, "destroying a context cancels its children");
  symx_reach(waits ? "waited" : "idle");
}
// Children created while their parent is cancelled, given deadlines or data.
extern "C" void cx_race() {
  symx_threads((int)symx_param(0, 2), 0);
  context::top();
  context ctx(context::top(), false);
  int what = (int)sym_choose(3, "what"); uint32_t id = sym_u32("id");
  std::thread a([&] {
    context kid(ctx);
    uint32_t got = kid.get<user>().id; auto d = kid.deadline();
    CHECK(got == 7 || (what == 2 && got == id), "the parent's data before or after");
    CHECK(!d || (what == 1 && d->time_since_epoch().count() == 5), "the parent's deadline before or after");
    if (what == 0) { bool c = false; try { wait(never()); } catch (const errors::cancelled&) { c = true; } CHECK(c && kid.is_cancelled(), "a child is cancelled with its parent, however they race"); }
  });
  if (what == 0) ctx.cancel();
  if (what == 1) ctx.set_deadline(at(5));
  if (what == 2) { user u; u.id = id; ctx.set(u); }
  std::string wire; string_output_stream out(wire); little_endian_binary_encoder enc(out); enc(ctx);
  a.join();
  symx_reach(what == 0 ? "cancel" : what == 1 ? "deadline" : "data");
}
