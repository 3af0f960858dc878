// C04: arbitrary bytes through a decoder of any type. C05: truncated input.
#include "types.h"
// Every scalar the decoded value holds must be in its type's domain (for bools
// the object representation is inspected, so nothing hides behind UB).
template <typename T> std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>> domain(const T& v) {
  if constexpr (std::is_same_v<T, bool>) { uint8_t b; memcpy(&b, &v, 1); CHECK(b <= 1, "decoded bool is true or false"); }
}
inline void domain(const agg&) {}
inline void domain(const empty_agg&) {}
inline void domain(const big_agg&) {}
inline void domain(const agg_nested&) {}
inline void domain(const cls_simple& v) { domain(v.c); }
inline void domain(const cls_base1&) {}
inline void domain(const cls_derived&) {}
inline void domain(const cls_custom&) {}
inline void domain(const custom_only&) {}
inline void domain(const std::vector<bool>::const_reference&, int) {}
template <typename T, size_t N> void domain(const std::array<T, N>& a);
template <typename A, typename B> void domain(const std::pair<A, B>& p);
template <typename... T> void domain(const std::tuple<T...>& t);
template <typename T> void domain(const std::optional<T>& t);
template <typename T> void domain(const std::unique_ptr<T>& t);
template <typename R, typename P> void domain(const std::chrono::duration<R, P>&) {}
template <typename C, typename D> void domain(const std::chrono::time_point<C, D>&) {}
template <typename C> decltype(std::declval<C>().begin(), void()) domain(const C& c) { size_t n = 0; for (auto&& x : c) { if constexpr (!std::is_same_v<C, std::vector<bool>>) domain(x); n++; } CHECK(n == c.size(), "container size agrees with its contents"); }
template <typename T, size_t N> void domain(const std::array<T, N>& a) { for (auto& x : a) domain(x); }
template <typename A, typename B> void domain(const std::pair<A, B>& p) { domain(p.first); domain(p.second); }
template <typename... T> void domain(const std::tuple<T...>& t) { std::apply([](auto&... x) { (domain(x), ...); }, t); }
template <typename T> void domain(const std::optional<T>& t) { if (t) domain(*t); }
template <typename T> void domain(const std::unique_ptr<T>& t) { if (t) domain(*t); }

// Is the container sorted (and unique if it has to be)?
template <typename C> void sorted(const C& c, bool unique) {
  auto i = c.begin(); if (i == c.end()) return; auto p = i;
  for (++i; i != c.end(); p = i, ++i) { if constexpr (arpc::traits::is_map_v<C>) CHECK(unique ? p->first < i->first : !(i->first < p->first), "decoded container is ordered"); else CHECK(unique ? *p < *i : !(*i < *p), "decoded container is ordered"); }
}
template <typename T> void structure(const T&) {}
template <typename T> void structure(const std::set<T>& c) { sorted(c, true); }
template <typename T> void structure(const arpc::flat_set<T>& c) { sorted(c, true); }
template <typename T> void structure(const arpc::flat_multiset<T>& c) { sorted(c, false); }
template <typename K, typename V> void structure(const std::map<K, V>& c) { sorted(c, true); }
template <typename K, typename V> void structure(const arpc::flat_map<K, V>& c) { sorted(c, true); }
template <typename K, typename V> void structure(const arpc::flat_multimap<K, V>& c) { sorted(c, false); }

// Bytes that may be part of a size: small sizes, boundaries, and all lengths of
// prefix. (A claimed size is enumerated value by value, so it is confined to
// these; every other byte is arbitrary.)
static int size_byte(uint8_t b) { return (b <= 3) | (b == 0x7f) | ((b & 0xfe) == 0x80) | (b == 0xff); }
enum { NONE, PREFIX, ALL, EDGE };
template <typename T, typename O, int SIZES> void bad1(uint64_t maxlen) {
  uint64_t n = sym_choose(maxlen + 1, "len");
  uint8_t buf[64] = {}; symx_bytes(buf, n, "bytes");
  if (SIZES == PREFIX) { int in = 1, ok = 1; for (uint64_t i = 0; i < n; i++) { ok &= !in | size_byte(buf[i]); in &= buf[i] >= 0x80; } symx_assume(ok); }
  if (SIZES == EDGE) {  // a prefix of k + 1 bytes, then arbitrary content
    static const uint8_t fill[] = {0x80, 0xff}, last[] = {0, 1, 0x7f}, first[] = {0x80, 0x81};
    uint64_t k = sym_choose(12, "prefix"); uint8_t f = fill[sym_choose(2, "fill")], z = last[sym_choose(3, "last")], a = first[sym_choose(2, "first")];
    memmove(buf + k + 1, buf, n); for (uint64_t i = 0; i < k; i++) buf[i] = i ? f : a; buf[k] = z; n += k + 1;
  }
  if (SIZES == ALL) { int ok = 1; for (uint64_t i = 0; i < n; i++) ok &= size_byte(buf[i]); symx_assume(ok); }
  uint64_t before = symx_live_heap();
  {
    std::string in((const char*)buf, n);
    arpc::string_input_stream is(in); typename O::dec d(is);
    T v = make<T>("old", 1);
    try { d(v); domain(v); structure(v); CHECK(is.pos() <= n, "no more bytes are consumed than there are"); symx_reach("accepted"); }
    catch (const arpc::errors::base_error&) { symx_reach("rejected"); }
    catch (...) { CHECK(false, "only the library's own errors are thrown on bad input"); }
  }
  CHECK(symx_live_heap() == before, "nothing is leaked");
  symx_reach("done");
}
template <typename T, int SIZES = NONE> void bad(uint64_t len) { len = len + symx_param(0, 0); if (sym_choose(2, "byteorder")) bad1<T, BE, SIZES>(len); else bad1<T, LE, SIZES>(len); }
#define K(n, len, ...) case n: return bad<__VA_ARGS__>(len);
#define KS(n, len, ...) case n: return bad<__VA_ARGS__, PREFIX>(len);
#define KE(n, len, ...) case n: return bad<__VA_ARGS__, EDGE>(len);
#define KA(n, len, ...) case n: return bad<__VA_ARGS__, ALL>(len);
using namespace std::chrono;
extern "C" {
void bd_fixed() { switch (sym_choose(12, "kind")) { K(0, 3, bool) K(1, 4, uint32_t) K(2, 9, double) K(3, 9, agg) K(4, 6, cls_simple) K(5, 14, cls_derived) K(6, 8, cls_custom) K(7, 9, milliseconds) K(8, 5, std::tuple<bool, uint8_t, bool>) K(9, 4, std::array<bool, 3>) K(10, 2, scoped16) default: return bad<std::pair<std::array<uint16_t, 2>, bool>>(6); } }
void bd_flags() { switch (sym_choose(6, "kind")) { K(0, 6, std::optional<uint32_t>) K(1, 4, std::optional<std::optional<uint8_t>>) K(2, 5, std::unique_ptr<uint16_t>) K(3, 7, std::unique_ptr<cls_simple>) K(4, 4, std::optional<std::unique_ptr<bool>>) default: return bad<std::optional<cls_simple>>(7); } }
void bd_seq() { switch (sym_choose(8, "kind")) { KS(0, 4, std::string) KS(1, 4, std::vector<uint16_t>) KS(2, 4, std::list<uint8_t>) KS(3, 4, std::deque<uint16_t>) KS(4, 4, std::vector<bool>) KS(5, 4, std::vector<std::optional<uint8_t>>) KS(6, 6, std::u16string) default: return bad<std::vector<cls_simple>, PREFIX>(7); } }
void bd_seq2() { switch (sym_choose(4, "kind")) { KA(0, 4, std::vector<std::string>) KA(1, 4, std::list<std::vector<uint8_t>>) KA(2, 4, std::optional<std::vector<std::string>>) default: return bad<std::vector<std::unique_ptr<std::string>>, ALL>(4); } }
void bd_assoc() { switch (sym_choose(6, "kind")) { KS(0, 3, std::set<uint8_t>) KS(1, 4, std::map<uint8_t, bool>) KS(2, 4, arpc::flat_set<uint8_t>) KS(3, 4, arpc::flat_map<uint8_t, bool>) KS(4, 4, arpc::flat_multiset<uint8_t>) default: return bad<arpc::flat_multimap<uint8_t, uint8_t>, PREFIX>(4); } }
void bd_assoc2() { switch (sym_choose(3, "kind")) { KA(0, 4, std::unordered_map<uint8_t, uint8_t>) KA(1, 4, std::unordered_set<uint8_t>) default: return bad<std::map<std::string, uint8_t>, ALL>(4); } }
// Size prefixes of any length, however large the size they claim.
void bd_size() { switch (sym_choose(8, "kind")) { KE(0, 2, std::string) KE(1, 2, std::vector<uint64_t>) KE(2, 2, std::list<uint16_t>) KE(3, 2, std::vector<agg>) KE(4, 0, std::vector<std::string>) KE(5, 2, arpc::flat_map<uint16_t, uint8_t>) KE(6, 1, std::unordered_set<uint16_t>) default: return bad<std::map<uint16_t, bool>, EDGE>(2); } }
}
// Shared pointers, including nested ones, in arbitrary bytes.
struct node : arpc::serializable<node> { uint8_t v = 0; std::shared_ptr<node> next; std::weak_ptr<node> back; ARPC_FIELDS(v, next, back); };
template <typename O> void ptrs1(uint64_t len) {
  uint64_t n = sym_choose(len + 1, "len"); uint8_t buf[64] = {}; symx_bytes(buf, n, "bytes");
  uint64_t before = symx_live_heap(); bool accepted;
  {
    std::string in((const char*)buf, n); arpc::string_input_stream is(in); typename O::dec d(is);
    accepted = false; std::vector<std::shared_ptr<node>> all; std::shared_ptr<node> p; std::shared_ptr<uint16_t> q;
    try {
      d(p); d(q);
      accepted = true; symx_reach("accepted");
    } catch (const arpc::errors::base_error&) { symx_reach("rejected"); }
    catch (...) { CHECK(false, "only the library's own errors are thrown on bad input"); }
    // Walk what was decoded (the decoder still holds it); break its cycles.
    if (p) all.push_back(p);
    for (size_t i = 0; i < all.size(); i++)
      for (auto& x : {all[i]->next, all[i]->back.lock()}) { bool seen = !x; for (auto& y : all) seen |= y == x; if (!seen) all.push_back(x); }
    CHECK(all.size() <= n, "no more objects than bytes");
    for (auto& x : all) x->next.reset();
  }
  // (A cycle nobody can reach any more is beyond shared pointers to free.)
  if (accepted) CHECK(symx_live_heap() == before, "nothing is leaked");
  symx_reach("done");
}
extern "C" void bd_ptrs() { uint64_t len = symx_param(0, 6); if (sym_choose(2, "byteorder")) ptrs1<BE>(len); else ptrs1<LE>(len); }

// Pointers that cannot form a cycle: nothing may leak, accepted or not.
template <typename O> void tree1(uint64_t len) {
  uint64_t n = sym_choose(len + 1, "len"); uint8_t buf[64] = {}; symx_bytes(buf, n, "bytes");
  uint64_t before = symx_live_heap();
  {
    std::string in((const char*)buf, n); arpc::string_input_stream is(in); typename O::dec d(is);
    std::vector<std::shared_ptr<uint16_t>> v; std::pair<std::shared_ptr<uint8_t>, std::weak_ptr<uint8_t>> p; std::unique_ptr<std::shared_ptr<bool>> u;
    if (n) symx_assume(buf[0] <= 3);
    try { d(v); d(p); d(u); symx_reach("accepted"); if (u && *u) domain(**u); if (p.second.lock()) *p.second.lock() = 1; for (auto& x : v) if (x) *x = 1; }
    catch (const arpc::errors::base_error&) { symx_reach("rejected"); }
    catch (...) { CHECK(false, "only the library's own errors are thrown on bad input"); }
  }
  CHECK(symx_live_heap() == before, "nothing is leaked");
  symx_reach("done");
}
extern "C" void bd_tree() { uint64_t len = symx_param(0, 6); if (sym_choose(2, "byteorder")) tree1<BE>(len); else tree1<LE>(len); }

// ---- C05
template <typename T, typename O> void cut1(uint64_t lim) {
  T v = make<T>("value", lim);
  std::string w;
  { arpc::string_output_stream os(w); typename O::enc e(os); e(v); }
  symx_assume(w.size() > 0);
  uint64_t k = sym_choose(w.size(), "cut");
  std::string in = w.substr(0, k);
  arpc::string_input_stream is(in); typename O::dec d(is);
  T x = make<T>("old", 1);
  try { d(x); CHECK(false, "truncated input never yields a value"); }
  catch (const arpc::errors::eof&) { symx_reach("eof"); }
  catch (...) { CHECK(false, "truncated input is reported as end-of-file"); }
  symx_reach("done");
}
template <typename T> void cut() { uint64_t lim = symx_param(0, 2); if (sym_choose(2, "byteorder")) cut1<T, BE>(lim); else cut1<T, LE>(lim); }
#undef K
#define K(n, ...) case n: return cut<__VA_ARGS__>();
extern "C" {
void tr_fixed() { switch (sym_choose(14, "kind")) { K(0, bool) K(1, uint16_t) K(2, int64_t) K(3, float) K(4, scoped16) K(5, agg_nested) K(6, big_agg) K(7, cls_simple) K(8, cls_derived) K(9, cls_custom) K(10, custom_only) K(11, std::tuple<uint8_t, agg, bool, float>) K(12, system_clock::time_point) default: return cut<std::array<cls_simple, 2>>(); } }
void tr_opts() { switch (sym_choose(6, "kind")) { K(0, std::optional<uint32_t>) K(1, std::optional<std::optional<uint8_t>>) K(2, std::unique_ptr<cls_derived>) K(3, std::optional<std::unique_ptr<agg>>) K(4, std::optional<std::vector<uint8_t>>) default: return cut<std::unique_ptr<std::string>>(); } }
void tr_seqs() { switch (sym_choose(10, "kind")) { K(0, std::string) K(1, std::u16string) K(2, std::vector<uint32_t>) K(3, std::deque<uint16_t>) K(4, std::list<uint64_t>) K(5, std::vector<bool>) K(6, std::vector<agg>) K(7, std::vector<std::optional<uint8_t>>) K(8, std::vector<std::string>) default: return cut<std::list<cls_custom>>(); } }
void tr_assoc() { switch (sym_choose(7, "kind")) { K(0, std::set<int16_t>) K(1, arpc::flat_set<int32_t>) K(2, arpc::flat_multiset<int16_t>) K(3, std::map<int16_t, uint32_t>) K(4, arpc::flat_map<int32_t, uint8_t>) K(5, std::unordered_map<uint8_t, uint16_t>) default: return cut<std::map<uint8_t, std::string>>(); } }
}
// Sizes that need a prefix of several bytes, cut inside and after the prefix.
template <typename O> void trbig1() {
  static const size_t sizes[] = {127, 128, 300, 16384};
  size_t n = sizes[sym_choose(4, "size")]; std::string s(n, 'x'); std::vector<uint16_t> u(n / 16, 7);
  bool str = sym_choose(2, "string"); std::string w;
  { arpc::string_output_stream os(w); typename O::enc e(os); if (str) e(s); else e(u); }
  static const int where[] = {0, 1, 2, 3, -2, -1}; int o = where[sym_choose(6, "cut")]; size_t k = o < 0 ? w.size() + o : o;
  std::string in = w.substr(0, k); arpc::string_input_stream is(in); typename O::dec d(is);
  try { if (str) d(s); else d(u); CHECK(false, "truncated input never yields a value"); }
  catch (const arpc::errors::eof&) { symx_reach("eof"); }
  catch (...) { CHECK(false, "truncated input is reported as end-of-file"); }
  symx_reach("done");
}
// Several values on one decoder, including shared pointers: those before the
// cut arrive intact, the one that is cut is reported.
template <typename O> void trmany1() {
  uint16_t a = make<uint16_t>("a"); auto p = std::make_shared<uint32_t>(make<uint32_t>("p")); std::string s = make<std::string>("s"); auto q = sym_choose(2, "same") ? p : std::make_shared<uint32_t>(1);
  std::string w; arpc::string_output_stream os(w); typename O::enc e(os);
  size_t ends[5]; e(a); ends[0] = w.size(); e(p); ends[1] = w.size(); e(s); ends[2] = w.size(); e(q); ends[3] = w.size(); e(a, arpc::verify_structure{}); ends[4] = w.size();
  uint64_t k = sym_choose(w.size(), "cut"); std::string in = w.substr(0, k); arpc::string_input_stream is(in); typename O::dec d(is);
  uint16_t a2 = 0, a3 = 0; std::shared_ptr<uint32_t> p2, q2; std::string s2; int ok = 0;
  try { d(a2); ok++; d(p2); ok++; d(s2); ok++; d(q2); ok++; d(a3, arpc::verify_structure{}); ok++; } catch (const arpc::errors::eof&) { symx_reach("eof"); } catch (...) { CHECK(false, "truncated input is reported as end-of-file"); }
  int want = 0; while (want < 5 && ends[want] <= k) want++;
  CHECK(ok == want, "exactly the values before the cut are delivered");
  if (ok > 0) CHECK(a2 == a, "value before the cut is intact");
  if (ok > 1) CHECK(p2 && *p2 == *p, "pointer before the cut is intact");
  if (ok > 2) CHECK(eq(s2, s), "string before the cut is intact");
  if (ok > 3) CHECK((q2 == p2) == (q == p) && *q2 == *q, "shared pointer before the cut is intact");
  symx_reach("done");
}
extern "C" void tr_big() { if (sym_choose(2, "byteorder")) trbig1<BE>(); else trbig1<LE>(); }
extern "C" void tr_many() { if (sym_choose(2, "byteorder")) trmany1<BE>(); else trmany1<LE>(); }
