// Runtime support linked into the analysed module: the parts of the C++ ABI,
// libstdc++ and libc that live in shared libraries. Compiled to bitcode.
#include <cerrno>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <variant>

extern "C" {
void* __symx_alloc(size_t n, int kind, int zero);
void __symx_free(void* p, int kind, size_t n);
size_t __symx_size(void* p);
void __symx_unwind(void* obj, void* ti);
void __symx_terminate(const char* msg);
void __symx_warn(const char* msg);
void __symx_unsupported(const char* msg);
uint64_t symx_param(int i, uint64_t d);
}
enum { KM = 3, KN = 4, KA = 5 };
static const size_t kMaxAlloc = 1u << 20;  // larger requests fail with bad_alloc

// ---- allocation
extern "C" {
void* malloc(size_t n) { if (n > kMaxAlloc) { errno = ENOMEM; return nullptr; } return __symx_alloc(n, KM, 0); }
void* calloc(size_t a, size_t b) { if (a * b > kMaxAlloc) return nullptr; return __symx_alloc(a * b, KM, 1); }
void free(void* p) { __symx_free(p, KM, ~(size_t)0); }
void* realloc(void* p, size_t n) { void* q = malloc(n); if (p && q) { size_t o = __symx_size(p); memcpy(q, p, o < n ? o : n); free(p); } return q; }
}
void* operator new(size_t n) { if (n > kMaxAlloc) throw std::bad_alloc(); return __symx_alloc(n, KN, 0); }
void* operator new[](size_t n) { if (n > kMaxAlloc) throw std::bad_alloc(); return __symx_alloc(n, KA, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (n > kMaxAlloc) return nullptr; return __symx_alloc(n, KN, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (n > kMaxAlloc) return nullptr; return __symx_alloc(n, KA, 0); }
void operator delete(void* p) noexcept { __symx_free(p, KN, ~(size_t)0); }
void operator delete[](void* p) noexcept { __symx_free(p, KA, ~(size_t)0); }
void operator delete(void* p, size_t n) noexcept { __symx_free(p, KN, n); }
void operator delete[](void* p, size_t n) noexcept { __symx_free(p, KA, ~(size_t)0); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __symx_free(p, KN, ~(size_t)0); }

// ---- libc
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
void* rt_memchr(const void* p, int c, size_t n) asm("memchr");
void* rt_memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void*)s; return nullptr; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* rt_strchr(const char* s, int c) asm("strchr");
char* rt_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
static thread_local int the_errno;
int* __errno_location(void) { return &the_errno; }
void abort(void) { __symx_terminate("abort called"); __builtin_unreachable(); }
void __assert_fail(const char* e, const char*, unsigned, const char*) { __symx_terminate(e); __builtin_unreachable(); }
#ifndef SYMX_THREADS
char __libc_single_threaded = 1;
#endif
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
int atexit(void (*)(void)) { return 0; }
#ifndef SYMX_THREADS
int __cxa_guard_acquire(uint64_t* g) { return !*(char*)g; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
void __cxa_guard_abort(uint64_t* g) {}
#endif
void __cxa_pure_virtual() { __symx_terminate("pure virtual call"); }
void __cxa_deleted_virtual() { __symx_terminate("deleted virtual call"); }
void exit(int) { __symx_terminate("exit called"); __builtin_unreachable(); }
}

// ---- exceptions
struct Hdr {
  void* tinfo; void (*dtor)(void*); int refcount; int handlers; void* nextCaught; void* primary; void* pad[2]; void* adjusted;
};
static_assert(sizeof(Hdr) == 64, "exception header");
static Hdr* H(void* o) { return (Hdr*)((char*)o - sizeof(Hdr)); }
static thread_local void* caughtTop;
static thread_local int uncaught;
static void* prim(void* o) { return H(o)->primary ? H(o)->primary : o; }
static void releasePrimary(void* o) {
  Hdr* h = H(o);
  if (--h->refcount == 0) { if (h->dtor) h->dtor(o); __symx_free(h, KM, ~(size_t)0); }
}
static void releaseExc(void* o) {
  if (H(o)->primary) { void* p = H(o)->primary; __symx_free(H(o), KM, ~(size_t)0); releasePrimary(p); } else releasePrimary(o);
}
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { char* p = (char*)__symx_alloc(n + sizeof(Hdr), KM, 1); return p + sizeof(Hdr); }
void __cxa_free_exception(void* o) noexcept { __symx_free(H(o), KM, ~(size_t)0); }
void __cxa_throw(void* o, void* ti, void (*dtor)(void*)) { Hdr* h = H(o); h->tinfo = ti; h->dtor = dtor; h->refcount = 1; uncaught++; __symx_unwind(o, ti); __builtin_unreachable(); }
void* rt_init_primary(void* o, void* ti, void (*dtor)(void*)) noexcept asm("__cxa_init_primary_exception");
void* rt_init_primary(void* o, void* ti, void (*dtor)(void*)) noexcept { Hdr* h = H(o); h->tinfo = ti; h->dtor = dtor; h->refcount = 0; return h; }
void* __cxa_get_exception_ptr(void* o) noexcept { return (char*)H(o)->adjusted - (char*)o + (char*)prim(o); }
void* __cxa_begin_catch(void* o) noexcept {
  Hdr* h = H(o);
  if (h->handlers < 0) h->handlers = -h->handlers + 1; else h->handlers++;
  uncaught--;
  if (caughtTop != o) { h->nextCaught = caughtTop; caughtTop = o; }
  return (char*)h->adjusted - (char*)o + (char*)prim(o);
}
void __cxa_end_catch() {
  void* o = caughtTop;
  if (!o) return;
  Hdr* h = H(o);
  if (h->handlers < 0) { if (++h->handlers == 0) caughtTop = h->nextCaught; }
  else if (--h->handlers == 0) { caughtTop = h->nextCaught; releaseExc(o); }
}
void __cxa_rethrow() {
  void* o = caughtTop;
  if (!o) std::terminate();
  Hdr* h = H(o); h->handlers = -h->handlers; uncaught++;
  __symx_unwind(o, h->tinfo); __builtin_unreachable();
}
int __gxx_personality_v0(...) { return 0; }
void __cxa_call_unexpected(void*) { __symx_terminate("unexpected exception"); __builtin_unreachable(); }
}
namespace std {
void terminate() noexcept { __symx_terminate("std::terminate"); __builtin_unreachable(); }
int uncaught_exceptions() noexcept { return uncaught; }
bool uncaught_exception() noexcept { return uncaught > 0; }
}
extern "C" {
void ep_addref(void** self) asm("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
void ep_addref(void** self) { if (*self) H(*self)->refcount++; }
void ep_release(void** self) asm("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
void ep_release(void** self) { if (*self) { void* o = *self; *self = nullptr; releasePrimary(o); } }
void ep_ctor(void** self, void* o) asm("_ZNSt15__exception_ptr13exception_ptrC1EPv");
void ep_ctor(void** self, void* o) { *self = o; if (o) H(o)->refcount++; }
void ep_current(void** ret) asm("_ZSt17current_exceptionv");
void ep_current(void** ret) { void* o = caughtTop ? prim(caughtTop) : nullptr; *ret = o; if (o) H(o)->refcount++; }
void ep_rethrow(void** self) asm("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE");
void ep_rethrow(void** self) {
  void* p = *self;
  if (!p) std::terminate();
  H(p)->refcount++;
  char* q = (char*)__symx_alloc(sizeof(Hdr) + 16, KM, 1);
  void* d = q + sizeof(Hdr);
  H(d)->primary = p; H(d)->tinfo = H(p)->tinfo; uncaught++;
  __symx_unwind(d, H(p)->tinfo); __builtin_unreachable();
}
void ep_swap(void** a, void** b) asm("_ZNSt15__exception_ptr13exception_ptr4swapERS0_");
void ep_swap(void** a, void** b) { void* t = *a; *a = *b; *b = t; }
}

// ---- standard exception classes (key functions emit vtables and typeinfo)
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

struct CowRep { long rc; };
static const char* cowMake(const char* s, size_t n) { CowRep* r = (CowRep*)malloc(sizeof(CowRep) + n + 1); r->rc = 1; char* p = (char*)(r + 1); memcpy(p, s, n); p[n] = 0; return p; }
static void cowRel(const char* p) { if (!p) return; CowRep* r = (CowRep*)p - 1; if (--r->rc == 0) free(r); }
static const char* cowRef(const char* p) { if (p) ((CowRep*)p - 1)->rc++; return p; }
__cow_string::__cow_string() : _M_p(cowMake("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(cowMake(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(cowMake(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(cowRef(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* t = cowRef(o._M_p); cowRel(_M_p); _M_p = t; return *this; }
__cow_string::~__cow_string() { cowRel(_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define ROOT(T) \
  T::T(const std::string& s) : exception(), _M_msg(s) {} \
  T::T(const char* s) : exception(), _M_msg(s, strlen(s)) {} \
  T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
  T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } \
  T::T(T&& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
  T& T::operator=(T&& o) noexcept { _M_msg = o._M_msg; return *this; } \
  T::~T() noexcept {} \
  const char* T::what() const noexcept { return _M_msg._M_p; }
ROOT(logic_error)
ROOT(runtime_error)
#define DER(T, B) T::T(const std::string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
DER(domain_error, logic_error)
DER(invalid_argument, logic_error)
DER(length_error, logic_error)
DER(out_of_range, logic_error)
DER(range_error, runtime_error)
DER(overflow_error, runtime_error)
DER(underflow_error, runtime_error)
system_error::~system_error() noexcept {}

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __glibcxx_assert_fail(const char*, int, const char*, const char* c) noexcept { __symx_terminate("libstdc++ assertion failed"); __builtin_unreachable(); }

// ---- list and red-black tree primitives
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
// Prime rehash policy: bucket counts are doubled odd numbers (contents and
// lookup results do not depend on the bucket count).
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = 2 * b + 1; _M_next_resize = b; return b; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb || nb == 1) { size_t w = ne + ni; return {true, _M_next_bkt(w > nb ? w : nb + 1)}; } return {false, 0}; }
}  // namespace __detail
// A constant hash is a legal hash function; it makes every lookup compare keys.
size_t _Hash_bytes(const void*, size_t, size_t) { return 7; }

typedef _Rb_tree_node_base NB;
NB* _Rb_tree_increment(NB* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const NB* _Rb_tree_increment(const NB* x) throw() { return _Rb_tree_increment(const_cast<NB*>(x)); }
NB* _Rb_tree_decrement(NB* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { NB* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { NB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const NB* _Rb_tree_decrement(const NB* x) throw() { return _Rb_tree_decrement(const_cast<NB*>(x)); }
static void rotL(NB* const x, NB*& root) { NB* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(NB* const x, NB*& root) { NB* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& header) throw() {
  NB*& root = header._M_parent;
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    NB* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      NB* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
    } else {
      NB* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& header) throw() {
  NB*& root = header._M_parent; NB*& leftmost = header._M_left; NB*& rightmost = header._M_right;
  NB* y = z; NB* x = nullptr; NB* xp = nullptr;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { NB* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { NB* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        NB* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
      } else {
        NB* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
}  // namespace std
// ---- standard stream bases: no locale, no callbacks
#include <ios>
extern "C" {
void loc_ctor(void*) asm("_ZNSt6localeC1Ev"); void loc_ctor(void*) {}
void loc_copy(void*, const void*) asm("_ZNSt6localeC1ERKS_"); void loc_copy(void*, const void*) {}
void loc_dtor(void*) asm("_ZNSt6localeD1Ev"); void loc_dtor(void*) {}
void ios_ctor(void*) asm("_ZNSt8ios_baseC2Ev"); void ios_ctor(void* p) { memset(p, 0, sizeof(std::ios_base)); }
void ios_dtor(void*) asm("_ZNSt8ios_baseD2Ev"); void ios_dtor(void*) {}
void ios_init(void*) asm("_ZNSt8ios_base7_M_initEv"); void ios_init(void*) {}
// The facets are not used by unformatted input and output.
void ios_cache(void*, const void*) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale"); void ios_cache(void*, const void*) {}
}
