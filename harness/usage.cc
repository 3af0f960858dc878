// C25: usage_lock under all schedules of its users, the dropping thread and
// the arming thread.
#include <memory>
#include <thread>
#include "arpc/errors.h"
#include "arpc/usage_lock.h"
#include "symx.h"
using namespace arpc;
namespace {
struct Obj { int alive = 1; int id; explicit Obj(int i) : id(i) {} };
using Lock = usage_lock<Obj>;
int usesOf(Obj* p) { return p->alive; }
// Takes a reference if the lock grants one, uses and releases it.
void user(Lock& l, bool throwing, int* seen) {
  if (throwing) {
    try {
      auto r = l.get();
      CHECK(r && usesOf(r.get()) == 1, "a granted reference is to a live object");
      *seen = 1;
    } catch (const errors::unavailable&) { *seen = 0; }
  } else {
    auto r = l.get_or_null();
    if (r) CHECK(usesOf(r.get()) == 1, "a granted reference is to a live object");
    *seen = r ? 1 : 0;
  }
}
}  // namespace
// Users that obtain references while another thread drops.
extern "C" void ul_users() {
  symx_threads((int)symx_param(0, 2), (int)symx_param(1, 0));
  int n = (int)symx_param(2, 1);
  bool throwing = sym_bool("throwing");
  Lock l("gone");
  auto* o = new Obj(1);
  l.arm(o);
  int seen[2] = {-1, -1};
  {
    std::thread a([&] { user(l, throwing, &seen[0]); });
    std::thread b;
    if (n > 1) b = std::thread([&] { user(l, !throwing, &seen[1]); });
    l.drop();
    o->alive = 0;
    delete o;
    CHECK(!l.get_or_null(), "a dropped lock refuses");
    a.join();
    if (n > 1) b.join();
  }
  symx_reach(seen[0] == 1 ? "user before the drop" : "user after the drop");
  bool refused = false;
  try { l.get(); } catch (const errors::unavailable&) { refused = true; }
  CHECK(refused, "a dropped lock refuses with its error");
}
// A thread releases its reference while the lock is dropped and destroyed.
extern "C" void ul_release() {
  symx_threads((int)symx_param(0, 2), (int)symx_param(1, 0));
  int n = (int)symx_param(2, 1);
  bool explicitDrop = sym_bool("explicit drop");
  auto* l = new Lock("gone");
  auto* o = new Obj(1);
  l->arm(o);
  std::thread t[2];
  for (int i = 0; i < n; i++) {
    auto r = l->get();
    t[i] = std::thread([r = std::move(r)]() mutable {
      CHECK(r->alive == 1, "the object outlives the reference");
      r.reset();
    });
  }
  if (explicitDrop) { l->drop(); o->alive = 0; delete o; delete l; }
  else { delete l; o->alive = 0; delete o; }
  symx_reach("dropped");
  for (int i = 0; i < n; i++) t[i].join();
}
// Re-arming while references to the previous object are out.
extern "C" void ul_rearm() {
  symx_threads((int)symx_param(0, 2), (int)symx_param(1, 0));
  Lock l("gone");
  auto *o1 = new Obj(1), *o2 = new Obj(2);
  l.arm(o1);
  auto r1 = l.get();
  std::thread a([r = std::move(r1)]() mutable { CHECK(r->alive == 1 && r->id == 1, "the first object outlives its reference"); r.reset(); });
  l.arm(o2);
  auto r2 = l.get();
  CHECK(r2.get() == o2, "re-arming hands out the new object");
  std::thread b([r = std::move(r2)]() mutable { CHECK(r->alive == 1 && r->id == 2, "the second object outlives its reference"); r.reset(); });
  l.drop();
  o1->alive = o2->alive = 0;
  delete o1; delete o2;
  symx_reach("dropped");
  a.join(); b.join();
}
// A user that asks for a reference while another thread arms the lock.
extern "C" void ul_arm() {
  symx_threads((int)symx_param(0, 2), (int)symx_param(1, 0));
  bool armed = sym_bool("armed before");
  Lock l("gone");
  Obj o1(1), o2(2);
  if (armed) l.arm(&o1);
  int got = 0;
  std::thread a([&] { auto r = l.get_or_null(); if (r) { CHECK(r->alive == 1, "alive"); got = r->id; } });
  l.arm(&o2);
  auto r = l.get();
  CHECK(r.get() == &o2, "the armed object is available");
  r.reset();
  a.join();
  CHECK(got == 2 || got == (armed ? 1 : 0), "the old or the new object");
  symx_reach(got == 2 ? "new" : "old");
  l.drop();
  CHECK(!l.get_or_null(), "dropped");
}
// Single-threaded histories against a reference model.
extern "C" void ul_histories() {
  int n = (int)symx_param(0, 4);
  struct my : errors::unavailable { using errors::unavailable::unavailable; };
  Obj o1(1), o2(2);
  usage_lock<Obj, errors::not_found> l("no object");
  Obj* armed = nullptr;
  std::shared_ptr<Obj> held[2];
  int live = 0;
  for (int i = 0; i < n; i++) {
    switch (sym_choose(6, "op")) {
      case 0: l.arm(&o1); armed = &o1; symx_reach("arm"); break;
      case 1: l.arm(&o2); armed = &o2; break;
      case 2:
        try {
          auto r = l.get();
          CHECK(r.get() == armed && armed, "get returns the armed object");
          if (live < 2) held[live++] = std::move(r);
          symx_reach("get");
        } catch (const errors::not_found& e) {
          CHECK(!armed, "an armed lock does not refuse");
          const char *w = e.what(), *m = "no object"; bool same = true;
          for (int k = 0; k < 10; k++) if (w[k] != m[k]) { same = false; break; }
          CHECK(same, "the configured message");
          symx_reach("refused");
        }
        break;
      case 3: { auto r = l.get_or_null(); CHECK(r.get() == armed, "get_or_null returns the armed object or null"); break; }
      case 4: if (live) held[--live].reset(); break;
      case 5: if (!live) { l.drop(); armed = nullptr; symx_reach("drop"); } break;
    }
  }
  while (live) held[--live].reset();
}
// drop() must not return while a reference is out: with a single thread that is
// a deadlock, which the executor reports; here a second thread is the witness.
extern "C" void ul_blocks() {
  symx_threads((int)symx_param(0, 2), 0);
  Lock l;
  Obj o(1);
  l.arm(&o);
  auto r = l.get();
  auto copy = r;
  bool two = sym_bool("two references");
  if (!two) copy.reset();
  bool dropped = false;
  std::mutex m;
  std::thread a([&] { l.drop(); std::scoped_lock k(m); dropped = true; });
  r.reset();
  if (two) {
    { std::scoped_lock k(m); CHECK(!dropped, "drop waits for the last copy"); }
    copy.reset();
  }
  a.join();
  CHECK(dropped, "drop returns");
  symx_reach("returned");
}
