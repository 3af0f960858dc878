// C14, C15, C16: flat containers against the standard ones.
//
// Inductive step: from an arbitrary valid state (sorted contents of size <= N,
// arbitrary symbolic keys and values) one operation with arbitrary arguments
// must return what the standard container returns and leave equal contents, so
// histories of any length over states within the bound are covered.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <utility>
#include <vector>
#include "symx.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"

struct el { uint8_t k, v; };
struct by_k { bool operator()(const el& a, const el& b) const { return a.k < b.k; } };
// One description for sets (elements ordered by part of their value, so that
// equivalent elements can be told apart) and maps.
struct set_kind { static constexpr bool map = false, multi = false; using F = arpc::flat_set<el, by_k>; using R = std::set<el, by_k>; using V = el; using K = el; };
struct map_kind { static constexpr bool map = true, multi = false; using F = arpc::flat_map<uint8_t, uint8_t>; using R = std::map<uint8_t, uint8_t>; using V = std::pair<uint8_t, uint8_t>; using K = uint8_t; };
struct mset_kind { static constexpr bool map = false, multi = true; using F = arpc::flat_multiset<el, by_k>; using R = std::multiset<el, by_k>; using V = el; using K = el; };
struct mmap_kind { static constexpr bool map = true, multi = true; using F = arpc::flat_multimap<uint8_t, uint8_t>; using R = std::multimap<uint8_t, uint8_t>; using V = std::pair<uint8_t, uint8_t>; using K = uint8_t; };
static uint8_t kk(const el& e) { return e.k; }
static uint8_t vv(const el& e) { return e.v; }
static uint8_t kk(const uint8_t& e) { return e; }
static uint8_t vv(const uint8_t&) { return 0; }
template <typename A> uint8_t kk(const std::pair<A, uint8_t>& e) { return e.first; }
template <typename A> uint8_t vv(const std::pair<A, uint8_t>& e) { return e.second; }
template <typename T> typename T::V val(const char* n) { uint8_t k = sym_u8(n), v = sym_u8("v"); return typename T::V{k, v}; }
template <typename T> typename T::K key(const typename T::V& v) { if constexpr (T::map) return v.first; else return v; }
template <typename F, typename R> int same_seq(const F& f, const R& r) {
  if (f.size() != r.size() || (size_t)(f.end() - f.begin()) != r.size()) return 0;
  int ok = 1; auto j = r.begin(); for (auto& x : f) { ok &= (kk(x) == kk(*j)) & (vv(x) == vv(*j)); ++j; } return ok;
}
// Same keys in the same places, and as many of every (key, value) pair.
template <typename F, typename R> int same_bag(const F& f, const R& r) {
  if (f.size() != r.size() || (size_t)(f.end() - f.begin()) != r.size()) return 0;
  int ok = 1; auto j = r.begin(); for (auto& x : f) { ok &= kk(x) == kk(*j); ++j; }
  for (auto& x : r) { int a = 0, b = 0; for (auto& y : f) a += (kk(x) == kk(y)) & (vv(x) == vv(y)); for (auto& y : r) b += (kk(x) == kk(y)) & (vv(x) == vv(y)); ok &= a == b; }
  return ok;
}
template <typename T> void agree(const typename T::F& f, const typename T::R& r, const char* what) {
  if constexpr (T::multi) CHECK(same_bag(f, r), what); else CHECK(same_seq(f, r), what);
  CHECK(f.empty() == r.empty(), "emptiness");
}
template <typename R, typename I> size_t at(const R& r, I i) { return std::distance(r.begin(), typename R::const_iterator(i)); }
template <typename F, typename I> size_t fat(const F& f, I i) { return typename F::const_iterator(i) - f.begin(); }
template <typename T> std::vector<typename T::V> arb_state(size_t N) {
  size_t n = sym_choose(N + 1, "n"); std::vector<typename T::V> v; v.reserve(N + 1);
  for (size_t i = 0; i < n; i++) { v.push_back(val<T>("k")); if (i) symx_assume(T::multi ? kk(v[i - 1]) <= kk(v[i]) : kk(v[i - 1]) < kk(v[i])); }
  return v;
}
template <typename T> void step() {
  using F = typename T::F; using R = typename T::R;
  auto init = arb_state<T>(symx_param(0, 3));
  F f(init.begin(), init.end()); R r(init.begin(), init.end());
  const F& cf = f; const R& cr = r;
  agree<T>(f, r, "an ordered range is taken over");
  auto x = val<T>("x"), y = val<T>("y"); const auto k = key<T>(x); const size_t n = r.size();
  auto inserted = [&](size_t i) { CHECK(i < f.size() && kk(f.begin()[i]) == kk(x), "insertion returns the element"); if constexpr (T::multi) CHECK(vv(f.begin()[i]) == vv(x), "insertion returns the element inserted"); };
  auto both = [&](auto a, auto b) { if constexpr (T::multi) { inserted(fat(f, a)); } else { CHECK(fat(f, a.first) == at(r, b.first), "insertion returns the position"); CHECK(a.second == b.second, "insertion reports whether it inserted"); } };
  auto pos = [&](auto a, auto b) { if constexpr (T::multi) inserted(fat(f, a)); else CHECK(fat(f, a) == at(r, b), "insertion returns the position"); };
  switch (sym_choose(20, "op")) {
    case 0: { const auto c = x; auto a = f.insert(c); auto b = r.insert(c); both(a, b); break; }
    case 1: { auto c = x; auto a = f.insert(std::move(c)); auto b = r.insert(x); both(a, b); break; }
    case 2: { const auto c = x; size_t h = sym_choose(n + 1, "hint"); auto a = f.insert(cf.begin() + h, c); auto b = r.insert(std::next(cr.begin(), h), x); pos(a, b); break; }
    case 3: { auto c = x; size_t h = sym_choose(n + 1, "hint"); auto a = f.insert(cf.begin() + h, std::move(c)); auto b = r.insert(std::next(cr.begin(), h), x); pos(a, b); break; }
    case 4: { if constexpr (T::map) { auto a = f.emplace(x.first, x.second); auto b = r.emplace(x.first, x.second); both(a, b); } else { auto a = f.emplace(x); auto b = r.emplace(x); both(a, b); } break; }
    case 5: { size_t h = sym_choose(n + 1, "hint"); if constexpr (T::map) { auto a = f.emplace_hint(cf.begin() + h, x.first, x.second); auto b = r.emplace_hint(std::next(cr.begin(), h), x.first, x.second); pos(a, b); } else { auto a = f.emplace_hint(cf.begin() + h, x); auto b = r.emplace_hint(std::next(cr.begin(), h), x); pos(a, b); } break; }
    case 6: { typename T::V l[2] = {x, y}; size_t m = sym_choose(3, "m"); f.insert(l, l + m); r.insert(l, l + m); break; }
    case 7: { f.insert({x, y}); r.insert(x); r.insert(y); break; }
    case 8: CHECK(f.erase(k) == r.erase(k), "erasing a key returns how many elements went"); break;
    case 9: { if (!n) return; size_t p = sym_choose(n, "p"); std::vector<typename T::V> left(f.begin(), f.end()); left.erase(left.begin() + p);
      size_t q = sym_choose(2, "const") ? fat(f, f.erase(cf.begin() + p)) : fat(f, f.erase(f.begin() + p)); CHECK(q == p, "erasing returns the next position"); CHECK(same_seq(f, left), "erasing a position removes just that element"); symx_reach("done"); return; }
    case 10: { size_t p = sym_choose(n + 1, "p"), q = sym_choose(n + 1, "q"); if (p > q) return; std::vector<typename T::V> left(f.begin(), f.end()); left.erase(left.begin() + p, left.begin() + q); CHECK(fat(f, f.erase(cf.begin() + p, cf.begin() + q)) == p, "erasing returns the next position"); CHECK(same_seq(f, left), "erasing a range removes just that range"); symx_reach("done"); return; }
    case 11: { if constexpr (T::multi) { size_t i = fat(f, f.find(k)), j = fat(cf, cf.find(k)); CHECK((i < n) == (r.find(k) != r.end()) && (j < n) == (i < n), "find succeeds exactly for present keys"); if (i < n && j < n) CHECK(kk(f.begin()[i]) == kk(x) && kk(f.begin()[j]) == kk(x), "find returns an element with the key"); }
      else { CHECK(fat(f, f.find(k)) == at(r, r.find(k)), "find"); CHECK(fat(cf, cf.find(k)) == at(r, r.find(k)), "const find"); } break; }
    case 12: CHECK(cf.count(k) == r.count(k), "count"); break;
    case 13: CHECK(fat(f, f.lower_bound(k)) == at(r, r.lower_bound(k)), "lower_bound"); CHECK(fat(cf, cf.lower_bound(k)) == at(r, r.lower_bound(k)), "const lower_bound"); break;
    case 14: CHECK(fat(f, f.upper_bound(k)) == at(r, r.upper_bound(k)), "upper_bound"); CHECK(fat(cf, cf.upper_bound(k)) == at(r, r.upper_bound(k)), "const upper_bound"); break;
    case 15: { auto a = f.equal_range(k); auto c = cf.equal_range(k); auto b = r.equal_range(k); CHECK(fat(f, a.first) == at(r, b.first) && fat(f, a.second) == at(r, b.second), "equal_range"); CHECK(fat(cf, c.first) == at(r, b.first) && fat(cf, c.second) == at(r, b.second), "const equal_range"); break; }
    case 16: f.clear(); r.clear(); break;
    case 17: { f = {x, y}; r = {x, y}; break; }
    case 18: {
      size_t c = 0; auto j = r.rbegin(); for (auto i = f.rbegin(); i != f.rend(); ++i, ++j, c++) CHECK(kk(*i) == kk(*j), "backward iteration"); CHECK(c == n, "backward iteration visits all");
      CHECK((size_t)(f.cend() - f.cbegin()) == n && (size_t)(f.crend() - f.crbegin()) == n && (!n || f.data() == &*f.begin()), "iterators cover the contents");
      if constexpr (T::map) CHECK(f.key_comp()(x.first, y.first) == r.key_comp()(x.first, y.first) && f.value_comp()(x, y) == r.value_comp()(x, y), "comparators"); else CHECK(f.key_comp()(x, y) == r.key_comp()(x, y) && f.value_comp()(x, y) == r.value_comp()(x, y), "comparators");
      f.reserve(n + 5); f.shrink_to_fit(); break; }
    default:
      if constexpr (T::map && !T::multi) {
        bool in = r.count(k); 
        switch (sym_choose(4, "subscript")) {
          case 0: { try { uint8_t& m = f.at(k); CHECK(in && m == r.at(k), "at returns the mapped value"); m = y.second; r.at(k) = y.second; } catch (const std::out_of_range&) { CHECK(!in, "at throws only for absent keys"); } break; }
          case 1: { try { const uint8_t& m = cf.at(k); CHECK(in && m == r.at(k), "at returns the mapped value"); } catch (const std::out_of_range&) { CHECK(!in, "at throws only for absent keys"); } break; }
          case 2: { const uint8_t c = k; uint8_t &a = f[c], &b = r[c]; CHECK(a == b, "subscript returns the mapped value, or a default one"); a = y.second; b = y.second; break; }
          default: { uint8_t &a = f[uint8_t(k)], &b = r[k]; CHECK(a == b, "subscript returns the mapped value, or a default one"); a = y.second; b = y.second; }
        }
      }
  }
  agree<T>(f, r, "contents agree after the operation");
  symx_reach("done");
}
// Construction and list assignment from arbitrary (unordered) elements.
template <typename T> void build() {
  using F = typename T::F; using R = typename T::R;
  auto a = val<T>("a"), b = val<T>("b"), c = val<T>("c"), d = val<T>("d"); size_t n = sym_choose(symx_param(0, 3) + 1, "n");
  typename T::V l[4] = {a, b, c, d};
  { F f(l, l + n); R r(l, l + n); agree<T>(f, r, "construction from a range"); }
  switch (n) {
    case 0: { F f{}; R r{}; agree<T>(f, r, "default construction"); break; }
    case 1: { F f{a}; R r{a}; agree<T>(f, r, "construction from a list"); break; }
    case 2: { F f{a, b}; R r{a, b}; agree<T>(f, r, "construction from a list"); f = {c}; r = {c}; agree<T>(f, r, "assignment of a list"); break; }
    case 3: { F f{a, b, c}; R r{a, b, c}; agree<T>(f, r, "construction from a list"); f = {c, d, b}; r = {c, d, b}; agree<T>(f, r, "assignment of a list"); f = {}; r = {}; agree<T>(f, r, "assignment of an empty list"); break; }
    default: { F f{a, b, c, d}; R r{a, b, c, d}; agree<T>(f, r, "construction from a list"); }
  }
  symx_reach("done");
}
// More elements than the sort algorithms treat as a small case.
template <typename T> void big() {
  using F = typename T::F; using R = typename T::R;
  const size_t N = symx_param(0, 20); std::vector<typename T::V> v; size_t pat = sym_choose(4, "pattern");
  for (size_t i = 0; i < N; i++) { uint8_t k = pat == 0 ? i % 3 : pat == 1 ? (N - i) % 5 : pat == 2 ? i * 7 % 11 : 4; v.push_back(typename T::V{k, sym_u8("v")}); }
  if (pat == 2) v[N / 2] = val<T>("k");
  F f(v.begin(), v.end()); R r(v.begin(), v.end());
  agree<T>(f, r, "construction from many elements");
  F g; R s; g.insert(v.begin(), v.end()); s.insert(v.begin(), v.end()); agree<T>(g, s, "insertion of many elements");
  auto x = val<T>("x"); CHECK(f.count(key<T>(x)) == r.count(key<T>(x)), "count among many");
  symx_reach("done");
}
// Elements that own memory: nothing is lost, duplicated or read after a move.
struct owned { std::unique_ptr<uint8_t> p; explicit owned(uint8_t x) : p(new uint8_t(x)) {} };
struct by_p { bool operator()(const owned& a, const owned& b) const { return *a.p < *b.p; } };
template <bool multi> void own() {
  uint64_t before = symx_live_heap();
  {
    std::conditional_t<multi, arpc::flat_multimap<uint8_t, std::unique_ptr<uint8_t>>, arpc::flat_map<uint8_t, std::unique_ptr<uint8_t>>> f;
    uint8_t k[3], v[3]; size_t n = symx_param(0, 3);
    for (size_t i = 0; i < n; i++) { k[i] = sym_u8("k"); v[i] = sym_u8("v"); f.emplace(k[i], std::make_unique<uint8_t>(v[i])); }
    size_t left = 0; for (size_t i = 0; i < n; i++) { int first = 1; if (!multi) for (size_t j = 0; j < i; j++) first &= k[j] != k[i]; if (first) { left++; int ok = 0; for (auto& e : f) ok |= (e.first == k[i]) & (*e.second == v[i]); CHECK(ok, "moved-in element is held"); } }
    CHECK(f.size() == left, "every other element is dropped");
    auto g = std::move(f); CHECK(g.size() == left, "moving transfers the elements");
    uint8_t q = sym_u8("q"); g.erase(q); for (auto& e : g) CHECK(e.second != nullptr && e.first != q, "erasing moves the others over");
    decltype(g) h; h = std::move(g); h.swap(g); std::swap(g, h);
    if (h.size()) h.erase(h.begin());
    arpc::flat_set<owned, by_p> s; for (size_t i = 0; i < n; i++) { auto r = s.insert(owned(v[i])); CHECK(*r.first->p == v[i], "insertion returns the element"); } CHECK(s.size() <= n, "no extra elements");
    for (auto& e : s) CHECK(e.p != nullptr, "elements are whole");
  }
  CHECK(symx_live_heap() == before, "nothing is leaked");
  symx_reach("done");
}
extern "C" {
void fs_set() { step<set_kind>(); }
void fs_map() { step<map_kind>(); }
void fs_mset() { step<mset_kind>(); }
void fs_mmap() { step<mmap_kind>(); }
void fb_set() { build<set_kind>(); }
void fb_map() { build<map_kind>(); }
void fb_mset() { build<mset_kind>(); }
void fb_mmap() { build<mmap_kind>(); }
void fg_set() { big<set_kind>(); }
void fg_map() { big<map_kind>(); }
void fg_mset() { big<mset_kind>(); }
void fg_mmap() { big<mmap_kind>(); }
void fo_map() { own<false>(); }
void fo_mmap() { own<true>(); }
}
// ---- C16: ordering rules that differ from object to object
struct dir { uint8_t rev = 0; bool operator()(uint8_t a, uint8_t b) const { return rev ? b < a : a < b; } };
struct sset { static constexpr bool map = false, multi = false; using F = arpc::flat_set<uint8_t, dir>; using R = std::set<uint8_t, dir>; using V = uint8_t; };
struct smset { static constexpr bool map = false, multi = true; using F = arpc::flat_multiset<uint8_t, dir>; using R = std::multiset<uint8_t, dir>; using V = uint8_t; };
struct smap { static constexpr bool map = true, multi = false; using F = arpc::flat_map<uint8_t, uint8_t, dir>; using R = std::map<uint8_t, uint8_t, dir>; using V = std::pair<uint8_t, uint8_t>; };
struct smmap { static constexpr bool map = true, multi = true; using F = arpc::flat_multimap<uint8_t, uint8_t, dir>; using R = std::multimap<uint8_t, uint8_t, dir>; using V = std::pair<uint8_t, uint8_t>; };
template <typename T> typename T::V sval(const char* n) { if constexpr (T::map) { uint8_t k = sym_u8(n), v = sym_u8("v"); return {k, v}; } else return sym_u8(n); }
template <typename T> struct pairof { typename T::F f; typename T::R r; };
template <typename T> pairof<T> sstate(size_t N, const char* n) {
  dir d{(uint8_t)sym_choose(2, "rev")}; size_t c = sym_choose(N + 1, n);
  typename T::V l[4]; for (size_t i = 0; i < c; i++) { l[i] = sval<T>("k"); if (i) { uint8_t a = kk(l[i - 1]), b = kk(l[i]); symx_assume(d.rev ? (T::multi ? b <= a : b < a) : (T::multi ? a <= b : a < b)); } }
  switch (sym_choose(2, "ctor")) { case 0: return {typename T::F(l, l + c, d), typename T::R(l, l + c, d)}; default: { typename T::F f(d); typename T::R r(d); f.insert(l, l + c); r.insert(l, l + c); return {std::move(f), std::move(r)}; } }
}
template <typename T> void sagree(const typename T::F& f, const typename T::R& r, const char* what) {
  CHECK(same_bag(f, r), what);
  CHECK(f.key_comp().rev == r.key_comp().rev, "the ordering rule goes with the contents");
}
// What the container does from now on follows its rule.
template <typename T> void later(typename T::F& f, typename T::R& r) {
  auto x = sval<T>("x"); const uint8_t k = kk(x);
  CHECK(f.count(k) == r.count(k), "lookups follow the ordering rule");
  CHECK((f.find(k) == f.end()) == (r.find(k) == r.end()), "lookups follow the ordering rule");
  f.insert(x); r.insert(x);
  sagree<T>(f, r, "insertions follow the ordering rule");
}
template <typename T> void transfers() {
  using F = typename T::F; using R = typename T::R; const size_t N = symx_param(0, 2);
  auto a = sstate<T>(N, "n");
  switch (sym_choose(10, "op")) {
    case 0: { F f(a.f); R r(a.r); sagree<T>(f, r, "copy construction"); later<T>(f, r); sagree<T>(a.f, a.r, "the original is independent of the copy"); later<T>(a.f, a.r); sagree<T>(f, r, "the copy is independent of the original"); break; }
    case 1: { F f(a.f, std::allocator<typename T::V>()); R r(a.r, typename R::allocator_type()); sagree<T>(f, r, "copy construction with an allocator"); later<T>(f, r); break; }
    case 2: { F f(std::move(a.f)); R r(std::move(a.r)); sagree<T>(f, r, "move construction"); later<T>(f, r); a.f.clear(); a.r.clear(); CHECK(a.f.empty(), "a moved-from container can be cleared"); auto x = sval<T>("again"); a.f.insert(x); CHECK(a.f.size() == 1, "and used"); break; }
    case 3: { F f(std::move(a.f), std::allocator<typename T::V>()); R r(std::move(a.r), typename R::allocator_type()); sagree<T>(f, r, "move construction with an allocator"); later<T>(f, r); break; }
    case 4: { auto b = sstate<T>(N, "m"); F& ret = (b.f = a.f); b.r = a.r; CHECK(&ret == &b.f, "assignment returns its target"); sagree<T>(b.f, b.r, "copy assignment"); later<T>(b.f, b.r); sagree<T>(a.f, a.r, "the original is independent of the copy"); break; }
    case 5: { auto b = sstate<T>(N, "m"); b.f = std::move(a.f); b.r = std::move(a.r); sagree<T>(b.f, b.r, "move assignment"); later<T>(b.f, b.r); a.f.clear(); break; }
    case 6: { auto b = sstate<T>(N, "m"); a.f.swap(b.f); a.r.swap(b.r); sagree<T>(a.f, a.r, "swap"); sagree<T>(b.f, b.r, "swap"); later<T>(a.f, a.r); later<T>(b.f, b.r); break; }
    case 7: { auto b = sstate<T>(N, "m"); using std::swap; swap(a.f, b.f); swap(a.r, b.r); sagree<T>(a.f, a.r, "free swap"); sagree<T>(b.f, b.r, "free swap"); later<T>(a.f, a.r); break; }
    case 8: { const F& c = a.f; a.f = c; sagree<T>(a.f, a.r, "self-assignment changes nothing"); a.f.swap(a.f); sagree<T>(a.f, a.r, "self-swap changes nothing"); later<T>(a.f, a.r); break; }
    default: { auto x = sval<T>("l1"), y = sval<T>("l2"); a.f = {x, y}; a.r = {x, y}; sagree<T>(a.f, a.r, "assigning a list keeps the ordering rule"); later<T>(a.f, a.r); dir d{(uint8_t)sym_choose(2, "rev")}; F f({x, y}, d); R r({x, y}, d); sagree<T>(f, r, "construction from a list with a rule"); }
  }
  symx_reach("done");
}
extern "C" {
void ft_set() { transfers<sset>(); }
void ft_map() { transfers<smap>(); }
void ft_mset() { transfers<smset>(); }
void ft_mmap() { transfers<smmap>(); }
}
