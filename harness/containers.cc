// C02: containers round trip, any size, any previous target.
#include "types.h"
template <typename T, typename O> void rt1(uint64_t lim, uint64_t oldlim) {
  T v = make<T>("value", lim);
  uint8_t mark = make<uint8_t>("mark");
  std::string wire;
  { arpc::string_output_stream os(wire); typename O::enc e(os); e(v); e(mark); }
  arpc::string_input_stream is(wire);
  typename O::dec d(is);
  T w = make<T>("old", oldlim);
  uint8_t m2 = 0;
  try { d(w); d(m2); } catch (...) { CHECK(false, "decoding what was encoded must not fail"); return; }
  CHECK(eq(v, w), "decoded container equals the encoded one");
  CHECK(m2 == mark, "next value in the stream is intact");
  CHECK(is.pos() == wire.size(), "decoder consumes exactly the bytes written");
}
template <typename T> void rt(int q = 0) {
  uint64_t lim = symx_param(0, 2), old = symx_param(1, 1);
  if (sym_choose(2, "byteorder")) rt1<T, BE>(lim, old); else rt1<T, LE>(lim, old); symx_reach("done"); }
#define K(n, ...) case n: return rt<__VA_ARGS__>();
using S = std::string;
extern "C" {
void ct_seq() { switch (sym_choose(6, "kind")) { K(0, std::string) K(1, std::u16string) K(2, std::vector<uint32_t>) K(3, std::deque<uint16_t>) K(4, std::list<uint64_t>) default: return rt<std::vector<bool>>(); } }
void ct_seq2() { switch (sym_choose(5, "kind")) { K(0, std::vector<agg>) K(1, std::vector<std::optional<uint8_t>>) K(2, std::deque<bool>) K(3, std::list<cls_derived>) default: return rt<std::vector<cls_custom>>(); } }
void ct_set() { switch (sym_choose(4, "kind")) { K(0, std::set<int16_t>) K(1, std::multiset<uint8_t>) K(2, arpc::flat_set<int32_t>) default: return rt<arpc::flat_multiset<int16_t>>(); } }
void ct_map() { switch (sym_choose(4, "kind")) { K(0, std::map<int16_t, uint32_t>) K(1, std::multimap<uint8_t, uint16_t>) K(2, arpc::flat_map<int32_t, uint8_t>) default: return rt<arpc::flat_multimap<int16_t, uint32_t>>(); } }
void ct_unord() { switch (sym_choose(4, "kind")) { K(0, std::unordered_set<uint8_t>) K(1, std::unordered_map<uint8_t, uint16_t>) K(2, std::unordered_multiset<uint8_t>) default: return rt<std::unordered_multimap<uint8_t, uint16_t>>(); } }
void ct_nest() { switch (sym_choose(6, "kind")) { K(0, std::vector<std::string>) K(1, std::vector<std::vector<uint16_t>>) K(2, std::map<uint8_t, std::string>) K(3, std::list<std::pair<std::string, bool>>) K(4, std::optional<std::vector<uint8_t>>) default: return rt<arpc::flat_map<std::string, std::vector<uint8_t>>>(); } }
}
// Sizes on both sides of every size-prefix boundary: the element contents are
// fixed except at a symbolic position.
template <typename C, typename O> void big1(uint64_t n) {
  using V = typename C::value_type;
  C v; V x = make<V>("x"); uint64_t at = n ? sym_choose(n < 4 ? n : 4, "where") * (n - 1) / 3 : 0; uint64_t k = 0;
  for (uint64_t i = 0; i < n; i++, k++) { if (i == at) v.push_back(x); else v.push_back(static_cast<V>(i * 7 + 1)); }
  uint8_t mark = make<uint8_t>("mark");
  std::string wire;
  { arpc::string_output_stream os(wire); typename O::enc e(os); e(v); e(mark); }
  arpc::string_input_stream is(wire);
  typename O::dec d(is);
  C w; w.push_back(make<V>("old")); uint8_t m2 = 0;
  try { d(w); d(m2); } catch (...) { CHECK(false, "decoding what was encoded must not fail"); return; }
  CHECK(v.size() == w.size(), "large container keeps its size");
  if (v.size() == w.size()) CHECK(eq(v, w), "large container keeps its elements");
  CHECK(m2 == mark, "next value in the stream is intact");
  CHECK(is.pos() == wire.size(), "decoder consumes exactly the bytes written");
  symx_reach("done");
}
template <typename C> void big() {
  static const uint64_t sizes[] = {0, 1, 126, 127, 128, 129, 255, 256, 257, 300, 383, 384, 1000};
  uint64_t nsz = symx_param(0, 11);
  uint64_t n = sizes[sym_choose(nsz, "size")];
  if (sym_choose(2, "byteorder")) big1<C, BE>(n); else big1<C, LE>(n);
}
extern "C" {
void ct_big_string() { big<std::string>(); }
void ct_big_vector() { big<std::vector<uint16_t>>(); }
void ct_big_list() { big<std::list<uint8_t>>(); }
void ct_big_set() {
  static const uint64_t sizes[] = {126, 127, 128, 129, 200, 257};
  uint64_t n = sizes[sym_choose(symx_param(0, 4), "size")]; uint16_t x = make<uint16_t>("x");
  arpc::flat_map<uint16_t, uint8_t> v; std::set<uint16_t> s;
  for (uint64_t i = 0; i < n; i++) { v.emplace((uint16_t)(i * 3), (uint8_t)i); s.insert((uint16_t)(i * 5)); }
  std::string wire; arpc::string_output_stream os(wire); arpc::big_endian_binary_encoder e(os); e(v); e(s); e(x);
  arpc::string_input_stream is(wire); arpc::big_endian_binary_decoder d(is);
  arpc::flat_map<uint16_t, uint8_t> w; w[x] = 1; std::set<uint16_t> t{x}; uint16_t y = 0;
  try { d(w); d(t); d(y); } catch (...) { CHECK(false, "decoding what was encoded must not fail"); return; }
  CHECK(eq(v, w), "large flat_map survives"); CHECK(eq(s, t), "large set survives"); CHECK(x == y, "next value in the stream is intact");
  symx_reach("done");
}
}
// The size prefix over its whole 64-bit range: a sequence type that only claims
// a size, and one that records the size it is asked to hold.
struct claims_size {
  using value_type = agg; using size_type = size_t; using iterator = const agg*; using const_iterator = const agg*;
  size_t n = 0;
  size_t size() const { return n; }
  const agg* begin() const { return nullptr; }
  const agg* end() const { return nullptr; }
};
// Holds no elements, only how many it was asked for; its contents are read as
// one block from a stream that only counts.
struct records_size {
  using value_type = uint8_t; using size_type = size_t; using iterator = uint8_t*; using const_iterator = const uint8_t*;
  size_t n = 0; uint8_t b[1] = {0};
  void resize(size_type l) { n = l; }
  uint8_t* data() { return b; }
  const uint8_t* data() const { return b; }
  const uint8_t* begin() const { return b; }
  const uint8_t* end() const { return b; }
  uint8_t* begin() { return b; }
  uint8_t* end() { return b; }
  size_t size() const { return n; }
  void clear() { n = 0; }
  void push_back(uint8_t) { n++; }
};
struct counting_stream : arpc::input_stream {
  std::string head; size_t at = 0; size_t past = 0;
  std::size_t read(char* p, std::size_t l) override { std::size_t k = 0; while (k < l && at < head.size()) p[k++] = head[at++]; past += l - k; return l; }
  char getc() override { if (at < head.size()) return head[at++]; past++; return 0; }
};
template <typename O> void prefix1() {
  claims_size c; c.n = make<uint64_t>("n");
  std::string wire; { arpc::string_output_stream os(wire); typename O::enc e(os); e(c); }
  CHECK(wire.size() >= 1 && wire.size() <= 10, "size prefix takes one to ten bytes");
  symx_assume(c.n < (uint64_t)symx_param(0, 70000));
  counting_stream is; is.head = wire; typename O::dec d(is);
  records_size r;
  try { d(r); } catch (...) { CHECK(false, "every size prefix written can be read"); return; }
  CHECK(r.n == c.n, "size prefix survives");
  CHECK(is.at == wire.size() && is.past == c.n, "size prefix is consumed exactly");
  symx_reach("done");
}
extern "C" void ct_prefix() { if (sym_choose(2, "byteorder")) prefix1<BE>(); else prefix1<LE>(); }
