// Tested type shapes, generators of arbitrary values and value equality.
#pragma once
#include <array>
#include <chrono>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "symx.h"
#include "arpc/binary_codecs.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/errors.h"
#include "arpc/serializable_base.h"
#include "arpc/string_adapters.h"

enum color8 : uint8_t { RED, GREEN };
enum class scoped16 : int16_t { A = -5, B = 300 };
enum class scoped64 : uint64_t { A = 1, B = ~0ull };

struct agg { uint8_t a; uint32_t b; int16_t c; };            // has padding
struct agg_nested { agg x; std::array<uint16_t, 2> y; double z; };
struct empty_agg {};
struct big_agg { uint8_t a, b, c, d, e, f, g, h, i, j, k; };

struct cls_simple : arpc::serializable<cls_simple> {
  uint8_t a = 0; int32_t b = 0; bool c = false;
  uint64_t not_sent = 0;
  ARPC_FIELDS(b, a, c);                                      // not declaration order
};
struct cls_base1 : arpc::serializable<cls_base1> { uint16_t p = 0; ARPC_FIELDS(p); };
struct cls_base2 : arpc::serializable<cls_base2> { uint32_t q = 0; ARPC_FIELDS(q); };
struct cls_derived : arpc::serializable<cls_derived, cls_base1, cls_base2> {
  uint8_t r = 0; agg s{};
  ARPC_FIELDS(r, s);
};
struct cls_custom : arpc::serializable<cls_custom, cls_base1> {
  uint8_t f = 0; uint32_t g = 0;
  ARPC_FIELDS(f);
  ARPC_CUSTOM_SERIALIZATION_VERSION(3);
  template <typename S> void save(S& s) const { uint32_t t = g ^ 0x5a5a5a5au; s(t); s(f); }
  template <typename S> void load(S& s) { uint32_t t; s(t); g = t ^ 0x5a5a5a5au; uint8_t u; s(u); f = u; }
};
struct custom_only {
  ARPC_CUSTOM_SERIALIZATION_VERSION(1);
  uint16_t v = 0;
  template <typename S> void save(S& s) const { s(v); }
  template <typename S> void load(S& s) { s(v); }
};

// ---- make<T>(name): an arbitrary value (may fork over sizes up to `lim`)
struct maker { uint64_t lim = 2; };
template <typename T, typename E = void> struct gen;
template <typename T> T make(const char* n, uint64_t lim = 2) { return gen<T>::make(n, lim); }
template <> struct gen<bool> { static bool make(const char* n, uint64_t) { uint8_t v = sym_u8(n); symx_assume(v <= 1); return v & 1; } };
template <typename T> struct gen<T, std::enable_if_t<(std::is_integral_v<T> || std::is_enum_v<T>) && !std::is_same_v<T, bool>>> {
  static T make(const char* n, uint64_t) { return static_cast<T>(__symx_int(n, sizeof(T) * 8)); } };
template <> struct gen<float> { static float make(const char* n, uint64_t) { uint32_t u = sym_u32(n); float f; memcpy(&f, &u, 4); return f; } };
template <> struct gen<double> { static double make(const char* n, uint64_t) { uint64_t u = sym_u64(n); double f; memcpy(&f, &u, 8); return f; } };
template <> struct gen<agg> { static agg make(const char* n, uint64_t l) { agg r; r.a = ::make<uint8_t>(n); r.b = ::make<uint32_t>(n); r.c = ::make<int16_t>(n); return r; } };
template <> struct gen<empty_agg> { static empty_agg make(const char*, uint64_t) { return {}; } };
template <> struct gen<big_agg> { static big_agg make(const char* n, uint64_t) { big_agg r; symx_bytes(&r, sizeof r, n); return r; } };
template <typename T, size_t N> struct gen<std::array<T, N>> { static std::array<T, N> make(const char* n, uint64_t l) { std::array<T, N> r; for (auto& x : r) x = ::make<T>(n, l); return r; } };
template <> struct gen<agg_nested> { static agg_nested make(const char* n, uint64_t l) { return {::make<agg>(n), ::make<std::array<uint16_t, 2>>(n), ::make<double>(n)}; } };
template <typename A, typename B> struct gen<std::pair<A, B>> { static std::pair<A, B> make(const char* n, uint64_t l) { A a = ::make<A>(n, l); B b = ::make<B>(n, l); return {std::move(a), std::move(b)}; } };
template <typename... T> struct gen<std::tuple<T...>> { static std::tuple<T...> make(const char* n, uint64_t l) { return std::tuple<T...>{::make<T>(n, l)...}; } };
template <> struct gen<cls_simple> { static cls_simple make(const char* n, uint64_t) { cls_simple c; c.a = ::make<uint8_t>(n); c.b = ::make<int32_t>(n); c.c = ::make<bool>(n); return c; } };
template <> struct gen<cls_base1> { static cls_base1 make(const char* n, uint64_t) { cls_base1 c; c.p = ::make<uint16_t>(n); return c; } };
template <> struct gen<cls_derived> { static cls_derived make(const char* n, uint64_t) { cls_derived c; c.p = ::make<uint16_t>(n); c.q = ::make<uint32_t>(n); c.r = ::make<uint8_t>(n); c.s = ::make<agg>(n); return c; } };
template <> struct gen<cls_custom> { static cls_custom make(const char* n, uint64_t) { cls_custom c; c.p = ::make<uint16_t>(n); c.f = ::make<uint8_t>(n); c.g = ::make<uint32_t>(n); return c; } };
template <> struct gen<custom_only> { static custom_only make(const char* n, uint64_t) { custom_only c; c.v = ::make<uint16_t>(n); return c; } };
template <typename T> struct gen<std::optional<T>> { static std::optional<T> make(const char* n, uint64_t l) { if (sym_choose(2, n)) return ::make<T>(n, l); return std::nullopt; } };
template <typename T> struct gen<std::unique_ptr<T>> { static std::unique_ptr<T> make(const char* n, uint64_t l) { if (sym_choose(2, n)) return std::make_unique<T>(::make<T>(n, l)); return nullptr; } };
template <typename R, typename P> struct gen<std::chrono::duration<R, P>> { static std::chrono::duration<R, P> make(const char* n, uint64_t) { return std::chrono::duration<R, P>(::make<R>(n)); } };
template <typename C, typename D> struct gen<std::chrono::time_point<C, D>> { static std::chrono::time_point<C, D> make(const char* n, uint64_t) { return std::chrono::time_point<C, D>(::make<D>(n)); } };
template <typename C> struct seq_gen { static C make(const char* n, uint64_t l) { C c; uint64_t k = sym_choose(l + 1, n); for (uint64_t i = 0; i < k; i++) c.push_back(::make<typename C::value_type>(n, l)); return c; } };
template <> struct gen<std::string> : seq_gen<std::string> {};
template <> struct gen<std::u16string> : seq_gen<std::u16string> {};
template <typename T> struct gen<std::vector<T>> : seq_gen<std::vector<T>> {};
template <typename T> struct gen<std::deque<T>> : seq_gen<std::deque<T>> {};
template <typename T> struct gen<std::list<T>> : seq_gen<std::list<T>> {};
template <typename C> struct assoc_gen { static C make(const char* n, uint64_t l) { C c; uint64_t k = sym_choose(l + 1, n); for (uint64_t i = 0; i < k; i++) c.insert(::make<arpc::traits::writable_value_type_t<typename C::value_type>>(n, l)); return c; } };
template <typename T> struct gen<std::set<T>> : assoc_gen<std::set<T>> {};
template <typename T> struct gen<std::multiset<T>> : assoc_gen<std::multiset<T>> {};
template <typename K, typename V> struct gen<std::map<K, V>> : assoc_gen<std::map<K, V>> {};
template <typename K, typename V> struct gen<std::multimap<K, V>> : assoc_gen<std::multimap<K, V>> {};
template <typename T> struct gen<std::unordered_set<T>> : assoc_gen<std::unordered_set<T>> {};
template <typename K, typename V> struct gen<std::unordered_map<K, V>> : assoc_gen<std::unordered_map<K, V>> {};
template <typename T> struct gen<std::unordered_multiset<T>> : assoc_gen<std::unordered_multiset<T>> {};
template <typename K, typename V> struct gen<std::unordered_multimap<K, V>> : assoc_gen<std::unordered_multimap<K, V>> {};
template <typename T> struct gen<arpc::flat_set<T>> : assoc_gen<arpc::flat_set<T>> {};
template <typename T> struct gen<arpc::flat_multiset<T>> : assoc_gen<arpc::flat_multiset<T>> {};
template <typename K, typename V> struct gen<arpc::flat_map<K, V>> : assoc_gen<arpc::flat_map<K, V>> {};
template <typename K, typename V> struct gen<arpc::flat_multimap<K, V>> : assoc_gen<arpc::flat_multimap<K, V>> {};

// ---- eq: value equality (bitwise for floats); no short circuits on scalars
template <typename T> std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>, int> eq(const T& a, const T& b) { return a == b; }
inline int eq(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y; }
inline int eq(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
inline int eq(const agg& a, const agg& b) { return (a.a == b.a) & (a.b == b.b) & (a.c == b.c); }
inline int eq(const empty_agg&, const empty_agg&) { return 1; }
inline int eq(const big_agg& a, const big_agg& b) { return memcmp(&a, &b, sizeof a) == 0; }
inline int eq(const cls_simple& a, const cls_simple& b) { return (a.a == b.a) & (a.b == b.b) & (a.c == b.c); }
inline int eq(const cls_base1& a, const cls_base1& b) { return a.p == b.p; }
inline int eq(const cls_derived& a, const cls_derived& b) { return (a.p == b.p) & (a.q == b.q) & (a.r == b.r) & eq(a.s, b.s); }
inline int eq(const cls_custom& a, const cls_custom& b) { return (a.p == b.p) & (a.f == b.f) & (a.g == b.g); }
inline int eq(const custom_only& a, const custom_only& b) { return a.v == b.v; }
template <typename T, size_t N> int eq(const std::array<T, N>& a, const std::array<T, N>& b);
template <typename A, typename B> int eq(const std::pair<A, B>& a, const std::pair<A, B>& b);
template <typename... T> int eq(const std::tuple<T...>& a, const std::tuple<T...>& b);
template <typename T> int eq(const std::optional<T>& a, const std::optional<T>& b);
template <typename T> int eq(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b);
template <typename R, typename P> int eq(const std::chrono::duration<R, P>& a, const std::chrono::duration<R, P>& b) { return a.count() == b.count(); }
template <typename C, typename D> int eq(const std::chrono::time_point<C, D>& a, const std::chrono::time_point<C, D>& b) { return eq(a.time_since_epoch(), b.time_since_epoch()); }
template <typename C> int seq_eq(const C& a, const C& b);
template <typename C> int multi_eq(const C& a, const C& b);
inline int eq(const std::string& a, const std::string& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
inline int eq(const std::u16string& a, const std::u16string& b) { return seq_eq(a, b); }
template <typename T> int eq(const std::vector<T>& a, const std::vector<T>& b) { return seq_eq(a, b); }
template <typename T> int eq(const std::deque<T>& a, const std::deque<T>& b) { return seq_eq(a, b); }
template <typename T> int eq(const std::list<T>& a, const std::list<T>& b) { return seq_eq(a, b); }
template <typename T> int eq(const std::set<T>& a, const std::set<T>& b) { return seq_eq(a, b); }
template <typename T> int eq(const std::multiset<T>& a, const std::multiset<T>& b) { return multi_eq(a, b); }
template <typename K, typename V> int eq(const std::map<K, V>& a, const std::map<K, V>& b) { return seq_eq(a, b); }
template <typename K, typename V> int eq(const std::multimap<K, V>& a, const std::multimap<K, V>& b) { return multi_eq(a, b); }
template <typename T> int eq(const std::unordered_set<T>& a, const std::unordered_set<T>& b) { return multi_eq(a, b); }
template <typename K, typename V> int eq(const std::unordered_map<K, V>& a, const std::unordered_map<K, V>& b) { return multi_eq(a, b); }
template <typename T> int eq(const std::unordered_multiset<T>& a, const std::unordered_multiset<T>& b) { return multi_eq(a, b); }
template <typename K, typename V> int eq(const std::unordered_multimap<K, V>& a, const std::unordered_multimap<K, V>& b) { return multi_eq(a, b); }
template <typename T> int eq(const arpc::flat_set<T>& a, const arpc::flat_set<T>& b) { return seq_eq(a, b); }
template <typename T> int eq(const arpc::flat_multiset<T>& a, const arpc::flat_multiset<T>& b) { return multi_eq(a, b); }
template <typename K, typename V> int eq(const arpc::flat_map<K, V>& a, const arpc::flat_map<K, V>& b) { return seq_eq(a, b); }
template <typename K, typename V> int eq(const arpc::flat_multimap<K, V>& a, const arpc::flat_multimap<K, V>& b) { return multi_eq(a, b); }
inline int eq(const agg_nested& a, const agg_nested& b) { return eq(a.x, b.x) & eq(a.y, b.y) & eq(a.z, b.z); }
template <typename T, size_t N> int eq(const std::array<T, N>& a, const std::array<T, N>& b) { int r = 1; for (size_t i = 0; i < N; i++) r &= eq(a[i], b[i]); return r; }
template <typename A, typename B> int eq(const std::pair<A, B>& a, const std::pair<A, B>& b) { return eq(a.first, b.first) & eq(a.second, b.second); }
template <typename... T, size_t... I> int tuple_eq(const std::tuple<T...>& a, const std::tuple<T...>& b, std::index_sequence<I...>) { return (1 & ... & eq(std::get<I>(a), std::get<I>(b))); }
template <typename... T> int eq(const std::tuple<T...>& a, const std::tuple<T...>& b) { return tuple_eq(a, b, std::index_sequence_for<T...>{}); }
template <typename T> int eq(const std::optional<T>& a, const std::optional<T>& b) { if (a.has_value() != b.has_value()) return 0; return a ? eq(*a, *b) : 1; }
template <typename T> int eq(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { if (!a != !b) return 0; return a ? eq(*a, *b) : 1; }
template <typename C> int seq_eq(const C& a, const C& b) {
  if (a.size() != b.size()) return 0;
  int r = 1; auto i = a.begin(); auto j = b.begin();
  for (; i != a.end(); ++i, ++j) { const auto& x = *i; const auto& y = *j; r &= eq(x, y); }
  return r;
}
// Equal as multisets of elements.
template <typename C> int multi_eq(const C& a, const C& b) {
  if (a.size() != b.size()) return 0;
  int r = 1;
  for (auto& x : a) { unsigned n = 0, m = 0; for (auto& y : a) n += eq(x, y); for (auto& y : b) m += eq(x, y); r &= n == m; }
  return r;
}
// The two byte orders.
struct LE { using enc = arpc::little_endian_binary_encoder; using dec = arpc::little_endian_binary_decoder; static constexpr bool big = false; };
struct BE { using enc = arpc::big_endian_binary_encoder; using dec = arpc::big_endian_binary_decoder; static constexpr bool big = true; };
