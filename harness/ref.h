// The documented wire format, written down independently of the library:
// ref(out, value) appends the bytes an encoder must produce.
#pragma once
#include "types.h"
struct wire_out {
  std::vector<uint8_t> b; bool big;
  void scalar(uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> 8 * (big ? n - 1 - i : i))); }
  void varint(uint64_t v) { while (v > 127) { b.push_back((uint8_t)(v | 128)); v >>= 7; } b.push_back((uint8_t)v); }
};
template <typename T> std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>> ref(wire_out& o, const T& v) { o.scalar((uint64_t)v, sizeof(T)); }
inline void ref(wire_out& o, const float& f) { uint32_t u; memcpy(&u, &f, 4); o.scalar(u, 4); }
inline void ref(wire_out& o, const double& f) { uint64_t u; memcpy(&u, &f, 8); o.scalar(u, 8); }
template <typename T, size_t N> void ref(wire_out& o, const std::array<T, N>& a);
template <typename A, typename B> void ref(wire_out& o, const std::pair<A, B>& p);
template <typename... T> void ref(wire_out& o, const std::tuple<T...>& t);
template <typename T> void ref(wire_out& o, const std::optional<T>& t);
template <typename T> void ref(wire_out& o, const std::unique_ptr<T>& t);
template <typename R, typename P> void ref(wire_out& o, const std::chrono::duration<R, P>& d) { o.scalar((uint64_t)(int64_t)d.count(), 8); }
template <typename C, typename D> void ref(wire_out& o, const std::chrono::time_point<C, D>& d) { o.scalar((uint64_t)(int64_t)d.time_since_epoch().count(), 8); }
template <typename C> void ref_seq(wire_out& o, const C& c);
inline void ref(wire_out& o, const std::string& s) { o.varint(s.size()); for (char c : s) o.b.push_back((uint8_t)c); }
#define REFSEQ1(C) template <typename T> void ref(wire_out& o, const C<T>& c) { ref_seq(o, c); }
#define REFSEQ2(C) template <typename K, typename V> void ref(wire_out& o, const C<K, V>& c) { ref_seq(o, c); }
inline void ref(wire_out& o, const std::u16string& c);
REFSEQ1(std::vector) REFSEQ1(std::deque) REFSEQ1(std::list) REFSEQ1(std::set) REFSEQ1(std::multiset) REFSEQ1(std::unordered_set) REFSEQ1(arpc::flat_set) REFSEQ1(arpc::flat_multiset)
REFSEQ2(std::map) REFSEQ2(std::multimap) REFSEQ2(std::unordered_map) REFSEQ2(arpc::flat_map) REFSEQ2(arpc::flat_multimap)
inline void ref(wire_out& o, const agg& v) { ref(o, v.a); ref(o, v.b); ref(o, v.c); }
inline void ref(wire_out& o, const agg_nested& v) { ref(o, v.x); ref(o, v.y); ref(o, v.z); }
inline void ref(wire_out& o, const empty_agg&) {}
inline void ref(wire_out& o, const big_agg& v) { for (uint8_t x : {v.a, v.b, v.c, v.d, v.e, v.f, v.g, v.h, v.i, v.j, v.k}) o.b.push_back(x); }
inline void ref(wire_out& o, const cls_simple& v) { ref(o, v.b); ref(o, v.a); ref(o, v.c); }
inline void ref(wire_out& o, const cls_base1& v) { ref(o, v.p); }
inline void ref(wire_out& o, const cls_base2& v) { ref(o, v.q); }
inline void ref(wire_out& o, const cls_derived& v) { o.scalar(v.p, 2); o.scalar(v.q, 4); ref(o, v.r); ref(o, v.s); }
inline void ref(wire_out& o, const cls_custom& v) { o.scalar(v.p, 2); o.scalar(v.f, 1); o.scalar(v.g ^ 0x5a5a5a5au, 4); o.scalar(v.f, 1); }
inline void ref(wire_out& o, const custom_only& v) { o.scalar(v.v, 2); }
inline void ref(wire_out& o, const std::u16string& c) { ref_seq(o, c); }
template <typename C> void ref_seq(wire_out& o, const C& c) { o.varint(c.size()); for (const auto& x : c) { const arpc::traits::writable_value_type_t<typename C::value_type> y(x); ref(o, y); } }
template <typename T, size_t N> void ref(wire_out& o, const std::array<T, N>& a) { for (const T& x : a) ref(o, x); }
template <typename A, typename B> void ref(wire_out& o, const std::pair<A, B>& p) { ref(o, p.first); ref(o, p.second); }
template <typename... T, size_t... I> void ref_tuple(wire_out& o, const std::tuple<T...>& t, std::index_sequence<I...>) { (ref(o, std::get<I>(t)), ...); }
template <typename... T> void ref(wire_out& o, const std::tuple<T...>& t) { ref_tuple(o, t, std::index_sequence_for<T...>{}); }
template <typename T> void ref(wire_out& o, const std::optional<T>& t) { o.b.push_back(t ? 1 : 0); if (t) ref(o, *t); }
template <typename T> void ref(wire_out& o, const std::unique_ptr<T>& t) { o.b.push_back(t ? 1 : 0); if (t) ref(o, *t); }
