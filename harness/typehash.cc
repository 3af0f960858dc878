// C08 verified reads, C24 structure hashes.
#include "types.h"
#include "arpc/type_hash.h"
using namespace arpc;
using traits::type_hash_v;
enum class e8 : uint8_t {}; enum class e8s : int8_t {}; enum class e32 : uint32_t {};
namespace one { struct pt : serializable<pt> { int32_t x = 0; uint8_t y = 0; ARPC_FIELDS(x, y); }; struct ag { int32_t x; uint8_t y; }; }
namespace two { struct point : serializable<point> { uint64_t other = 0; uint8_t b = 0; int32_t a = 0; ARPC_FIELDS(a, b); }; struct agg { int32_t p; uint8_t q; }; }
struct swapped : serializable<swapped> { uint8_t y = 0; int32_t x = 0; ARPC_FIELDS(y, x); };
struct longer : serializable<longer> { int32_t x = 0; uint8_t y = 0, z = 0; ARPC_FIELDS(x, y, z); };
struct shorter : serializable<shorter> { int32_t x = 0; ARPC_FIELDS(x); };
struct unsig : serializable<unsig> { uint32_t x = 0; uint8_t y = 0; ARPC_FIELDS(x, y); };
struct wider : serializable<wider> { int32_t x = 0; uint16_t y = 0; ARPC_FIELDS(x, y); };
struct opt : serializable<opt> { std::optional<int32_t> x; uint8_t y = 0; ARPC_FIELDS(x, y); };
struct empty1 : serializable<empty1> { ARPC_FIELDS(); };
struct basedA : serializable<basedA, shorter> { uint8_t y = 0; ARPC_FIELDS(y); };
namespace two { struct basedA2 : serializable<basedA2, shorter> { uint8_t z = 0; ARPC_FIELDS(z); }; }
struct basedB : serializable<basedB, unsig> { uint8_t y = 0; ARPC_FIELDS(y); };
struct bases2 : serializable<bases2, shorter, empty1> { uint8_t y = 0; ARPC_FIELDS(y); };
struct bases2r : serializable<bases2r, empty1, shorter> { uint8_t y = 0; ARPC_FIELDS(y); };
struct nested : serializable<nested> { one::pt p; ARPC_FIELDS(p); };
namespace two { struct nested2 : serializable<nested2> { point q; ARPC_FIELDS(q); }; }
struct nestedS : serializable<nestedS> { swapped p; ARPC_FIELDS(p); };
template <int V> struct custom { uint16_t v = 0; static constexpr traits::custom_serialization_version_type custom_serialization_version = V; template <typename S> void save(S& s) const { s(v); } template <typename S> void load(S& s) { s(v); } };
struct custom_f : serializable<custom_f> { int32_t x = 0; uint8_t y = 0; ARPC_FIELDS(x, y); ARPC_CUSTOM_SERIALIZATION_VERSION(1); template <typename S> void save(S&) const {} template <typename S> void load(S&) {} };
struct ring_u : serializable<ring_u> { std::unique_ptr<ring_u> n; ARPC_FIELDS(n); };
struct ring_s : serializable<ring_s> { std::shared_ptr<ring_s> n; ARPC_FIELDS(n); };
struct ring_w : serializable<ring_w> { std::weak_ptr<ring_w> n; ARPC_FIELDS(n); };
namespace two { struct ring : serializable<ring> { std::shared_ptr<ring> next; ARPC_FIELDS(next); }; }
struct ring_sx : serializable<ring_sx> { std::shared_ptr<ring_sx> n; uint8_t x = 0; ARPC_FIELDS(n, x); };
struct holds_ring : serializable<holds_ring> { std::shared_ptr<ring_s> n; ARPC_FIELDS(n); };
template <typename... T> struct same_as {};
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t; using str = std::string;
template <typename T> using vec = std::vector<T>;
template <int N, int D> using dur = std::chrono::duration<int64_t, std::ratio<N, D>>;
template <int N, int D> using tp = std::chrono::time_point<std::chrono::system_clock, dur<N, D>>;
template <int N, int D> using tp2 = std::chrono::time_point<std::chrono::steady_clock, std::chrono::duration<int32_t, std::ratio<N, D>>>;
// Types in one group are interchangeable, types in different groups are not.
using groups = std::tuple<
  same_as<void, const void>, same_as<bool, const bool&>, same_as<char, const char&>, same_as<u8, const u8&&>, same_as<i8>, same_as<u16, char16_t>, same_as<i16>, same_as<u32, char32_t>, same_as<i32, wchar_t>, same_as<u64, unsigned long long>, same_as<i64, long long>, same_as<float>, same_as<double>,
  same_as<e8>, same_as<e8s>, same_as<e32>,
  same_as<u8[2], std::array<u8, 2>>, same_as<std::array<u8, 3>>, same_as<std::array<i8, 2>>, same_as<std::array<u16, 2>>, same_as<std::array<std::array<u8, 2>, 3>, u8[3][2]>, same_as<std::array<u8, 258>>,
  same_as<str, vec<char>, std::list<char>, std::deque<char>>, same_as<vec<u8>, std::list<u8>>, same_as<vec<i8>>, same_as<vec<u16>, std::u16string>, same_as<vec<u32>>, same_as<vec<i32>>, same_as<vec<std::optional<u8>>>, 
  same_as<std::set<u8>, std::unordered_set<u8>, flat_set<u8>>, same_as<std::multiset<u8>, std::unordered_multiset<u8>, flat_multiset<u8>>, same_as<std::set<u16>>, same_as<std::set<std::pair<u8, u16>>>,
  same_as<std::map<u8, u16>, std::unordered_map<u8, u16>, flat_map<u8, u16>>, same_as<std::multimap<u8, u16>, std::unordered_multimap<u8, u16>, flat_multimap<u8, u16>>, same_as<std::map<u16, u8>>, same_as<std::map<u8, u8>>, same_as<std::map<u8, i16>>, same_as<vec<std::pair<u8, u16>>>,
  same_as<std::pair<u8, u16>, std::tuple<u8, u16>>, same_as<std::pair<u16, u8>, std::tuple<u16, u8>>, same_as<std::tuple<u8, u16, u8>>, same_as<std::tuple<u8>>, same_as<std::tuple<>>, same_as<std::tuple<u8, std::tuple<u16, u8>>>, same_as<std::tuple<std::tuple<u8, u16>, u8>>, same_as<std::tuple<i32, u8>, one::ag, two::agg>,
  same_as<std::optional<u8>>, same_as<std::optional<i8>>, same_as<std::unique_ptr<u8>>, same_as<std::shared_ptr<u8>>, same_as<std::weak_ptr<u8>>, same_as<std::unique_ptr<u16>>, same_as<std::shared_ptr<u16>>, same_as<std::weak_ptr<u16>>, same_as<std::shared_ptr<std::unique_ptr<u8>>>,
  same_as<dur<1, 1>, std::chrono::seconds, std::chrono::duration<int32_t>>, same_as<dur<1, 1000>, std::chrono::milliseconds>, same_as<dur<1, 1000000>>, same_as<dur<1, 1000000000>, std::chrono::nanoseconds>, same_as<dur<60, 1>>, same_as<dur<3600, 1>>, same_as<dur<61, 2>>, same_as<dur<62, 3>>, same_as<dur<1, 2>>, same_as<dur<2, 1>>, same_as<dur<2, 3>>, same_as<dur<3, 2>>, same_as<dur<1, 60>>, same_as<dur<2, 61>>, same_as<dur<86400, 1>>,
  same_as<tp<1, 1>, tp2<1, 1>>, same_as<tp<1, 1000>, tp2<1, 1000>>, same_as<tp<60, 1>>, same_as<tp<61, 2>>, same_as<tp<1, 60>>, same_as<tp<1, 2>>, same_as<tp<2, 3>>,
  same_as<one::pt, two::point>, same_as<swapped>, same_as<longer>, same_as<shorter>, same_as<unsig>, same_as<wider>, same_as<opt>, same_as<empty1>, same_as<basedA, two::basedA2>, same_as<basedB>, same_as<bases2>, same_as<bases2r>, same_as<nested, two::nested2>, same_as<nestedS>, same_as<custom<1>>, same_as<custom_f>, same_as<vec<one::pt>, std::list<two::point>>, same_as<vec<swapped>>, same_as<std::map<u8, one::pt>>, same_as<std::map<u8, swapped>>,
  same_as<ring_u>, same_as<ring_s, two::ring>, same_as<ring_w>, same_as<ring_sx>, same_as<holds_ring>,
  same_as<void()>, same_as<void() const>, same_as<void(u8)>, same_as<u8()>, same_as<u8(u16)>, same_as<u16(u8)>, same_as<u8(u16) const>, same_as<void(u8, u16)>, same_as<void(u16, u8)>, same_as<void(std::pair<u8, u16>)>>;
struct known { traits::type_hash_t h; int group; };
template <typename... T> void add(known*& k, int g, same_as<T...>) { ((*k++ = {type_hash_v<T>, g}), ...); }
template <typename... G> size_t table(known* k, std::tuple<G...>*) { known* p = k; int g = 0; (add(p, g++, G{}), ...); return p - k; }
extern "C" {
void th_matrix() {
  known k[256]; size_t n = table(k, (groups*)nullptr); size_t i = sym_choose(n, "type");
  for (size_t j = 0; j < n; j++) { symx_observe("other", j); if (k[j].group == k[i].group) CHECK(k[j].h == k[i].h, "interchangeable types have the same hash"); else CHECK(k[j].h != k[i].h, "types with different layouts have different hashes"); }
  symx_reach("done");
}
// Pairs whose layouts differ although the combination of hashes cannot tell.
void th_version() {
  symx_reach("done");
  switch (sym_choose(7, "pair")) {
    case 0: CHECK((type_hash_v<custom<1>>) != (type_hash_v<custom<3>>), "custom serialization versions 1 and 3"); break;
    case 1: CHECK((type_hash_v<vec<vec<u8>>>) != (type_hash_v<u8>), "sequence of sequences and its innermost element"); break;
    case 2: CHECK((type_hash_v<vec<str>>) != (type_hash_v<char>), "sequence of strings and a character"); break;
    case 3: CHECK((type_hash_v<std::optional<std::optional<u8>>>) != (type_hash_v<u8>), "optional of an optional and its innermost value"); break;
    case 4: CHECK((type_hash_v<std::array<std::array<u8, 3>, 2>>) != (type_hash_v<std::array<std::array<u8, 2>, 3>>), "nested arrays with their lengths exchanged"); break;
    case 5: CHECK((type_hash_v<std::optional<vec<u8>>>) != (type_hash_v<vec<std::optional<u8>>>), "sequence of optionals and optional sequence"); break;
    default: CHECK((type_hash_v<std::unique_ptr<std::shared_ptr<u8>>>) != (type_hash_v<std::shared_ptr<std::unique_ptr<u8>>>), "unique pointer to shared pointer and the reverse");
  }
}
// Any difference in one component shows in the combined hash, whatever the others are.
void th_add() {
  using traits::detail::type_hash_add; uint32_t a = sym_u32("a"), b = sym_u32("b"), c = sym_u32("c"), d = sym_u32("d"), e = sym_u32("e"), f = sym_u32("f"), o = sym_u32("other");
  switch (sym_choose(6, "form")) {
    case 0: CHECKNF((type_hash_add(a) == type_hash_add(o)) == (a == o), "a single component"); break;
    case 1: CHECKNF((type_hash_add(a, b) == type_hash_add(a, o)) == (b == o), "the last component shows"); break;
    case 2: // the last component is added on, and what it is added to has an inverse, so is one to one
            if ((type_hash_add(a, b) == (type_hash_add(a, 0u) ^ b)) & (type_hash_add(a, 0u) * 0x359c449bu == a)) break;
            CHECKNF((type_hash_add(a, b) == type_hash_add(o, b)) == (a == o), "the first component shows"); break;
    // longer combinations are repeated pairs
    case 3: CHECKNF(type_hash_add(a, b, c) == type_hash_add(type_hash_add(a, b), c), "three components"); break;
    case 4: CHECKNF(type_hash_add(a, b, c, d, e, f) == type_hash_add(type_hash_add(a, b, c, d, e), f), "six components"); break;
    default: { // different scalars exchanged
      uint32_t fa = a & 0x7f, fb = b & 0x7f, za = a >> 8, zb = b >> 8; symx_assume((fa >= 1) & (fa <= 5) & (fb >= 1) & (fb <= 5) & (za >= 1) & (za <= 16) & (zb >= 1) & (zb <= 16) & (a != b));
      CHECKNF(type_hash_add(519u, a, b) != type_hash_add(519u, b, a), "two scalars exchanged"); CHECKNF(type_hash_add(a, b) != type_hash_add(b, a), "two scalars exchanged"); }
  }
  symx_reach("done");
}
void th_leaf() {
  using namespace traits::detail; uint8_t f = sym_u8("f"), g = sym_u8("g"), s = sym_u8("s"), t = sym_u8("t"); uint32_t m = sym_u32("m"), n = sym_u32("n");
  symx_assume((f < 32) & (g < 32) & (s < 2) & (t < 2)); symx_assume((m < (1u << 24)) & (n < (1u << 24)));
  uint32_t x = type_hash_leaf((type_family)f, s & 1, m), y = type_hash_leaf((type_family)g, t & 1, n);
  CHECKNF((x == y) == ((f == g) & (s == t) & (m == n)), "leaf hashes tell family, signedness and size apart"); symx_reach("done");
}
}
// ---- C08
int eq(const one::pt& a, const one::pt& b) { return (a.x == b.x) & (a.y == b.y); }
int eq(const swapped& a, const swapped& b) { return (a.x == b.x) & (a.y == b.y); }
int eq(const basedA& a, const basedA& b) { return (a.x == b.x) & (a.y == b.y); }
template <typename F> int failure(F f) { try { f(); return 0; } catch (const errors::data_mismatch&) { return 1; } catch (...) { return 2; } }
template <typename T, typename O> void word1() {
  T v = make<T>("value", 1), old = make<T>("old", 1); std::string w; { string_output_stream os(w); typename O::enc e(os); e(v, verify_structure{}); }
  std::string plain; { string_output_stream os(plain); typename O::enc e(os); e(v); } CHECK(w.size() == plain.size() + 4 && std::equal(plain.begin(), plain.end(), w.begin() + 4), "the hash comes before the data");
  uint32_t h = 0; for (int i = 0; i < 4; i++) h |= (uint32_t)(uint8_t)w[i] << 8 * (O::big ? 3 - i : i); CHECK(h == type_hash_v<T>, "the structure hash is sent");
  uint32_t r = sym_u32("hash"); for (int i = 0; i < 4; i++) w[i] = (char)(r >> 8 * (O::big ? 3 - i : i));
  T t = make<T>("target", 1); std::string before; { string_output_stream os(before); typename O::enc e(os); e(t); }
  string_input_stream is(w); typename O::dec d(is); int e = failure([&] { d(t, verify_structure{}); });
  if (r == type_hash_v<T>) { CHECK(e == 0, "the right hash is accepted"); CHECK(eq(t, v), "the value decodes"); symx_reach("accepted"); }
  else { CHECK(e == 1, "any other hash is a data mismatch"); std::string after; { string_output_stream os(after); typename O::enc x(os); x(t); } CHECK(eq(before, after), "the target is left alone"); symx_reach("refused"); }
}
template <typename T> void word() { if (sym_choose(2, "byteorder")) word1<T, BE>(); else word1<T, LE>(); }
template <> struct gen<one::pt> { static one::pt make(const char* n, uint64_t) { one::pt p; p.x = ::make<i32>(n); p.y = ::make<u8>(n); return p; } };
template <> struct gen<swapped> { static swapped make(const char* n, uint64_t) { swapped p; p.x = ::make<i32>(n); p.y = ::make<u8>(n); return p; } };
template <> struct gen<basedA> { static basedA make(const char* n, uint64_t) { basedA p; p.x = ::make<i32>(n); p.y = ::make<u8>(n); return p; } };
template <typename T> std::string bytes(const T& t) { std::string b; string_output_stream os(b); LE::enc e(os); e(t); return b; }
// Data of type A read as type B.
template <typename A, typename B> void cross() {
  A a = make<A>("value", 1); std::string w; { string_output_stream os(w); LE::enc e(os); e(a, verify_structure{}); }
  B b = make<B>("target", 1); std::string before = bytes(b);
  string_input_stream is(w); LE::dec d(is); int e = failure([&] { d(b, verify_structure{}); });
  if (type_hash_v<A> == type_hash_v<B>) { CHECK(e == 0, "interchangeable types are accepted"); CHECK(eq(bytes(b), bytes(a)), "the value decodes"); CHECK(is.pos() == w.size(), "consumed exactly"); }
  else { CHECK(e == 1, "data of another structure is a data mismatch"); CHECK(eq(bytes(b), before), "the target is left alone"); }
  symx_reach("done");
}
using many = std::tuple<u8, i8, u32, float, str, vec<char>, vec<u8>, std::array<u8, 2>, std::set<u8>, std::map<u8, u8>, std::optional<u8>, std::unique_ptr<u8>, std::pair<u8, u16>, std::tuple<u8, u16>, one::pt, swapped, basedA, dur<1, 1>, dur<1, 1000>>;
template <typename A, size_t... J> void cross_with(size_t j, std::index_sequence<J...>) { ((j == J ? cross<A, std::tuple_element_t<J, many>>() : void()), ...); }
template <size_t... I> void crosses(size_t i, size_t j, std::index_sequence<I...> s) { ((i == I ? cross_with<std::tuple_element_t<I, many>>(j, s) : void()), ...); }
template <size_t... I> void words(size_t i, std::index_sequence<I...>) { ((i == I ? word<std::tuple_element_t<I, many>>() : void()), ...); }
extern "C" {
void vr_word() { constexpr size_t n = std::tuple_size_v<many>; words(sym_choose(n, "type"), std::make_index_sequence<n>{}); }
void vr_cross() { constexpr size_t n = std::tuple_size_v<many>; size_t i = sym_choose(n, "from"), j = sym_choose(n, "to"); crosses(i, j, std::make_index_sequence<n>{}); }
// Several verified values in one stream, one of them read as something else.
void vr_stream() {
  u32 a = make<u32>("a"); str b = make<str>("b", 1); one::pt c = make<one::pt>("c"); size_t wrong = sym_choose(4, "wrong");
  std::string w; { string_output_stream os(w); LE::enc e(os); e(a, verify_structure{}); e(b, verify_structure{}); e(c, verify_structure{}); }
  string_input_stream is(w); LE::dec d(is); u32 x = 0; i32 x2 = 7; str y; vec<u8> y2{1}; one::pt z; swapped z2; z2.x = 9;
  int e0 = failure([&] { wrong == 0 ? d(x2, verify_structure{}) : d(x, verify_structure{}); }); CHECK(e0 == (wrong == 0), "first"); if (e0) { CHECK(x2 == 7, "the target is left alone"); return symx_reach("done"); } CHECK(x == a, "first");
  int e1 = failure([&] { wrong == 1 ? d(y2, verify_structure{}) : d(y, verify_structure{}); }); CHECK(e1 == (wrong == 1), "second"); if (e1) { CHECK(y2.size() == 1 && y2[0] == 1, "the target is left alone"); return symx_reach("done"); } CHECK(eq(y, b), "second");
  int e2 = failure([&] { wrong == 2 ? d(z2, verify_structure{}) : d(z, verify_structure{}); }); CHECK(e2 == (wrong == 2), "third"); if (e2) { CHECK(z2.x == 9, "the target is left alone"); return symx_reach("done"); } CHECK(eq(z, c), "third");
  symx_reach("done");
}
}
