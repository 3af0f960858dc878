// Harness interface, implemented by the symbolic executor (builtins) and by
// native.cpp (replay of a recorded counterexample).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t __symx_int(const char* name, int bits);
void symx_bytes(void* p, size_t n, const char* name);   // fresh symbolic bytes
void symx_assume(int cond);
void symx_check(int cond, const char* label);           // obligation
void symx_reach(const char* label);                     // reachability witness
void symx_observe(const char* name, uint64_t v);        // compared in replay
int symx_is_engine(void);
uint64_t symx_param(int i, uint64_t dflt);              // bound, from the driver
uint64_t symx_live_heap(void);                          // live heap blocks
uint64_t symx_concretize(uint64_t v);                   // fork over all values
void symx_print(const char* s, uint64_t v);
void symx_threads(int maxPreempt, int maxSpurious);      // schedule bounds (rt/threads.cpp)
void symx_delays(int n);  // bound on choosing any but the next thread when one blocks (-1: none)
}
static inline uint8_t sym_u8(const char* n) { return (uint8_t)__symx_int(n, 8); }
static inline uint16_t sym_u16(const char* n) { return (uint16_t)__symx_int(n, 16); }
static inline uint32_t sym_u32(const char* n) { return (uint32_t)__symx_int(n, 32); }
static inline uint64_t sym_u64(const char* n) { return __symx_int(n, 64); }
static inline bool sym_bool(const char* n) { uint8_t v = sym_u8(n); symx_assume(v <= 1); return v & 1; }
// Arbitrary value in [0, n), concrete on each path.
static inline uint64_t sym_choose(uint64_t n, const char* name) {
  uint64_t v = n <= 256 ? sym_u8(name) : sym_u32(name);
  symx_assume(v < n);
  return symx_concretize(v);
}
#define CHECK(c, label) symx_check((c) ? 1 : 0, label)
// For conditions built without short-circuit operators (no fork).
#define CHECKNF(c, label) symx_check((int)(c), label)
