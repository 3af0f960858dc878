// Native implementation of the harness interface: replays one recorded
// counterexample (or passing witness) against the real code, compiled by g++
// with AddressSanitizer and UndefinedBehaviorSanitizer.
//   exit 0   every check held (or an assumption did not)
//   exit 71  witness: observations differ from the symbolic execution
//   exit 72  inputs requested differ from the recording
//   exit 77  a check failed          exit 78  allocation misuse
//   others   sanitizer report, signal
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <new>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

namespace {
struct Input { std::string name; std::vector<uint8_t> data; };
std::vector<Input>* inputs; size_t pos = 0;
std::vector<uint64_t>* params;
std::vector<std::string>* expected; size_t epos = 0; bool witness = false;
std::string* entryName;
[[noreturn]] void die(int code, const char* m, const char* l) { fprintf(stdout, "%s%s\n", m, l); fflush(stdout); _exit(code); }
// ---- allocation table: live blocks, new/delete kind and size agreement
struct Slot { void* p; size_t n; int kind; };
const size_t TAB = 1 << 20; Slot* tab; uint64_t live = 0;
size_t slotOf(void* p) { size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44; return h & (TAB - 1); }
void tabInit() { if (!tab) { tab = (Slot*)mmap(nullptr, TAB * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } }
int spin = 0;
void lk() { while (__atomic_exchange_n(&spin, 1, __ATOMIC_ACQUIRE)) {} }
void ul() { __atomic_store_n(&spin, 0, __ATOMIC_RELEASE); }
void* doAlloc(size_t n, int kind, bool nothrow) {
  if (n > (1u << 20)) { if (nothrow) return nullptr; throw std::bad_alloc(); }  // same limit as rt.cpp
  void* p = malloc(n ? n : 1);
  lk(); tabInit(); size_t i = slotOf(p); while (tab[i].p && tab[i].p != (void*)1) i = (i + 1) & (TAB - 1); tab[i] = Slot{p, n, kind}; live++; ul();
  return p;
}
}
__attribute__((weak)) bool symx_native_freed(void* p, size_t n);
namespace {
void doFree(void* p, int kind, size_t n) {
  if (!p) return;
  lk(); tabInit(); size_t i = slotOf(p); while (tab[i].p && tab[i].p != p) i = (i + 1) & (TAB - 1);
  if (!tab[i].p) { ul(); free(p); return; }  // let ASan judge
  Slot s = tab[i]; tab[i].p = (void*)1; live--; ul();
  if (s.kind != kind) die(78, "SYMX-MEMORY ", "allocation/deallocation kind mismatch");
  if (n != ~(size_t)0 && n != s.n) die(78, "SYMX-MEMORY ", "new/delete size mismatch");
  if (symx_native_freed && symx_native_freed(p, s.n)) return;
  free(p);
}
}  // namespace
#ifndef SYMX_NO_NEW
void* operator new(size_t n) { return doAlloc(n, 1, false); }
void* operator new[](size_t n) { return doAlloc(n, 2, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return doAlloc(n, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return doAlloc(n, 2, true); }
void operator delete(void* p) noexcept { doFree(p, 1, ~(size_t)0); }
void operator delete[](void* p) noexcept { doFree(p, 2, ~(size_t)0); }
void operator delete(void* p, size_t n) noexcept { doFree(p, 1, n); }
void operator delete[](void* p, size_t n) noexcept { doFree(p, 2, n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { doFree(p, 1, ~(size_t)0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { doFree(p, 2, ~(size_t)0); }
#endif
extern "C" {
static Input& take(const char* name, size_t n) {
  if (pos >= inputs->size()) {
    static Input zero; zero.data.assign(n, 0); printf("SYMX-INPUT exhausted at %s\n", name); fflush(stdout);
    if (witness) _exit(72);
    return zero;
  }
  Input& i = (*inputs)[pos++];
  if (i.name != name || i.data.size() != n) { printf("SYMX-INPUT mismatch: recorded %s (%zu) requested %s (%zu)\n", i.name.c_str(), i.data.size(), name, n); fflush(stdout); _exit(72); }
  return i;
}
uint64_t __symx_int(const char* name, int bits) { Input& i = take(name, bits / 8); uint64_t v = 0; for (size_t k = 0; k < i.data.size() && k < 8; k++) v |= (uint64_t)i.data[k] << (8 * k); return v; }
void symx_bytes(void* p, size_t n, const char* name) { Input& i = take(name, n); if (n) memcpy(p, i.data.data(), n); }
void symx_assume(int c) { if (!c) { printf("SYMX-ASSUME not satisfied\n"); fflush(stdout); _exit(witness ? 72 : 0); } }
void symx_check(int c, const char* label) { if (!c) die(77, "SYMX-CHECK-FAILED ", label); }
static void expectLine(const std::string& l) {
  if (!witness) return;
  if (epos >= expected->size() || (*expected)[epos] != l) { printf("SYMX-WITNESS mismatch: native '%s', symbolic '%s'\n", l.c_str(), epos < expected->size() ? (*expected)[epos].c_str() : "(end)"); fflush(stdout); _exit(71); }
  epos++;
}
void symx_reach(const char* label) { expectLine(std::string("reach ") + label); }
void symx_observe(const char* name, uint64_t v) { char b[32]; snprintf(b, sizeof b, " %llx", (unsigned long long)v); expectLine(std::string("obs ") + name + b); }
int symx_is_engine(void) { return 0; }
uint64_t symx_param(int i, uint64_t d) { return (size_t)i < params->size() ? (*params)[i] : d; }
uint64_t symx_live_heap(void) { lk(); uint64_t l = live; ul(); return l; }
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_print(const char* s, uint64_t v) { printf("[print] %s %llx\n", s, (unsigned long long)v); fflush(stdout); }
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  inputs = new std::vector<Input>; params = new std::vector<uint64_t>; expected = new std::vector<std::string>; entryName = new std::string;
  {
    std::ifstream f(argv[1]); std::string line;
    while (std::getline(f, line)) {
      if (line.rfind("# entry ", 0) == 0) *entryName = line.substr(8);
      else if (line.rfind("# kind ", 0) == 0) witness = line.substr(7) == "witness";
      else if (line.rfind("param ", 0) == 0) { size_t sp = line.find(' ', 6); size_t i = std::stoul(line.substr(6)); if (params->size() <= i) params->resize(i + 1); (*params)[i] = std::stoull(line.substr(sp + 1)); }
      else if (line.rfind("input ", 0) == 0) {
        size_t sp = line.rfind(' '); Input in; in.name = line.substr(6, sp - 6); std::string h = line.substr(sp + 1);
        for (size_t i = 0; i + 1 < h.size(); i += 2) in.data.push_back((uint8_t)std::stoul(h.substr(i, 2), nullptr, 16));
        inputs->push_back(in);
      } else if (line.rfind("reach ", 0) == 0 || line.rfind("obs ", 0) == 0) expected->push_back(line);
    }
  }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entryName->c_str());
  if (!fn) { printf("no entry %s\n", entryName->c_str()); return 2; }
  fn();
  if (witness && epos != expected->size()) die(71, "SYMX-WITNESS mismatch: native run ended early, symbolic ", (*expected)[epos].c_str());
  printf("SYMX-DONE\n"); fflush(stdout);
  _exit(0);
}
