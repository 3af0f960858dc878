// Native counterpart of the executor's thread primitives, for replay: real
// threads that run one at a time, handing over where rt/threads.cpp says. The
// code under test is compiled with clang's -fsanitize=thread instrumentation
// and linked against the callbacks below instead of the ThreadSanitizer
// runtime: atomics are scheduling points, plain accesses go through the same
// happens-before race detector, freed memory is never reused and touching it is
// reported.
//   exit 78 use of freed memory    exit 80 data race    exit 81 deadlock
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <unordered_map>
#include <mutex>
extern "C" void symx_sched();
namespace {
const int N = 8;
sem_t sem[N];
int count = 1;
thread_local int me = 0;
struct VC { uint32_t c[N] = {0}; void join(const VC& o) { for (int i = 0; i < N; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Shadow { uint8_t wt = 255; uint32_t wc = 0; VC rd; };
VC vc[N];
template <class T> struct Raw {
  using value_type = T;
  Raw() {}
  template <class U> Raw(const Raw<U>&) {}
  T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { free(p); }
  template <class U> bool operator==(const Raw<U>&) const { return true; }
  template <class U> bool operator!=(const Raw<U>&) const { return false; }
};
template <class V> using Map = std::map<uintptr_t, V, std::less<uintptr_t>, Raw<std::pair<const uintptr_t, V>>>;
using Shadows = std::unordered_map<uintptr_t, Shadow, std::hash<uintptr_t>, std::equal_to<uintptr_t>, Raw<std::pair<const uintptr_t, Shadow>>>;
Map<VC>* syncs;
Shadows* sh;
Map<size_t>* freed;
[[noreturn]] void die(int code, const char* m) { printf("%s\n", m); fflush(stdout); _exit(code); }
void touch(uintptr_t a, size_t n) {
  if (!freed) return;
  auto it = freed->upper_bound(a + n - 1);
  if (it == freed->begin()) return;
  --it;
  if (it->first + it->second > a) die(78, "SYMX-MEMORY use of freed memory");
}
void access(uintptr_t a, size_t n, bool w) {
  touch(a, n);
  if (count < 2) return;
  if (!sh) sh = new Shadows;
  const VC& v = vc[me];
  for (size_t i = 0; i < n; i++) {
    Shadow& s = (*sh)[a + i];
    bool race = s.wt != 255 && s.wt != me && s.wc > v.c[s.wt];
    if (w) for (int k = 0; k < N; k++) if (k != me && s.rd.c[k] > v.c[k]) race = true;
    if (race) die(80, "SYMX-RACE data race");
    if (w) { s.wt = me; s.wc = v.c[me]; s.rd = VC(); } else s.rd.c[me] = v.c[me];
  }
}
void acq(uintptr_t a) { if (count < 2 || !syncs) return; auto it = syncs->find(a); if (it != syncs->end()) vc[me].join(it->second); }
void rel(uintptr_t a) { if (count < 2) return; if (!syncs) syncs = new Map<VC>; (*syncs)[a].join(vc[me]); vc[me].c[me]++; }
struct Boot { void (*fn)(void*); void* arg; int id; };
}  // namespace
bool symx_native_freed(void* p, size_t n) {
  if (!freed) freed = new Map<size_t>;
  access((uintptr_t)p, n, true);
  (*freed)[(uintptr_t)p] = n ? n : 1;
  return true;
}
extern "C" {
int __symx_tid() { return me; }
void __symx_acq(const void* p) { acq((uintptr_t)p); }
void __symx_rel(const void* p) { rel((uintptr_t)p); }
void __symx_touch(const void* p) { touch((uintptr_t)p, 1); }
void __symx_fail(const char* kind, const char* label) { printf("SYMX-CHECK-FAILED %s: %s\n", kind, label); fflush(stdout); _exit(81); }
void __symx_switch(int t) { sem_post(&sem[t]); while (sem_wait(&sem[me])) {} }
int __symx_thread_start(void (*fn)(void*), void* arg) {
  if (count == 1) { sem_init(&sem[0], 0, 0); vc[0].c[0] = 1; }
  int id = count++;
  sem_init(&sem[id], 0, 0);
  vc[id] = vc[me]; vc[id].c[id] = 1; vc[me].c[me]++;
  pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
  if (pthread_create(&t, &at, [](void* p) -> void* { Boot b = *(Boot*)p; me = b.id; while (sem_wait(&sem[me])) {} b.fn(b.arg); return nullptr; }, new Boot{fn, arg, id})) die(2, "pthread_create failed");
  return id;
}
// ---- instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void* p) { access((uintptr_t)p, 8, false); }
void __tsan_vptr_update(void* p, void*) { access((uintptr_t)p, 8, true); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access((uintptr_t)d, n, true); return memset(d, c, n); }
#define RW(n) \
  void __tsan_read##n(void* p) { access((uintptr_t)p, n, false); } \
  void __tsan_write##n(void* p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(T, n) \
  T __tsan_atomic##n##_load(const volatile T* a, int) { touch((uintptr_t)a, sizeof(T)); T v = *a; acq((uintptr_t)a); symx_sched(); return v; } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T)); *a = v; rel((uintptr_t)a); symx_sched(); } \
  static T rmw##n(volatile T* a, T v) { T o = *a; *a = v; acq((uintptr_t)a); rel((uintptr_t)a); symx_sched(); return o; } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T)); return rmw##n(a, v); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T)); return rmw##n(a, *a + v); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T)); return rmw##n(a, *a - v); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T)); return rmw##n(a, *a & v); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T)); return rmw##n(a, *a | v); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T)); return rmw##n(a, *a ^ v); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { touch((uintptr_t)a, sizeof(T)); bool ok = *a == *c; if (ok) *a = v; else *c = *a; acq((uintptr_t)a); if (ok) rel((uintptr_t)a); symx_sched(); return ok; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, x, y); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int x, int y) { __tsan_atomic##n##_compare_exchange_strong(a, &c, v, x, y); return c; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
}
