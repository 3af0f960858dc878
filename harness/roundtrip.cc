// C01: encode, decode, compare, both byte orders, arbitrary previous target.
#include "types.h"
template <typename T, typename O> void rt1() {
  T v = make<T>("value");
  uint16_t mark = make<uint16_t>("mark");
  std::string wire;
  { arpc::string_output_stream os(wire); typename O::enc e(os); e(v); e(mark); }
  arpc::string_input_stream is(wire);
  typename O::dec d(is);
  T w = make<T>("old");
  uint16_t m2 = 0;
  size_t used = 0;
  try { d(w); used = is.pos(); d(m2); } catch (...) { CHECK(false, "decoding what was encoded must not fail"); return; }
  CHECK(eq(v, w), "decoded value equals the encoded one");
  CHECK(m2 == mark, "next value in the stream is intact");
  CHECK(used + 2 == wire.size(), "decoder consumes exactly the bytes written");
  CHECK(is.pos() == wire.size(), "stream fully consumed");
}
template <typename T> void rt() { if (sym_choose(2, "byteorder")) rt1<T, BE>(); else rt1<T, LE>(); symx_reach("done"); }
using namespace std::chrono;
extern "C" {
void rt_ints() { switch (sym_choose(9, "kind")) { case 0: return rt<uint8_t>(); case 1: return rt<int8_t>(); case 2: return rt<uint16_t>(); case 3: return rt<int16_t>(); case 4: return rt<uint32_t>(); case 5: return rt<int32_t>(); case 6: return rt<uint64_t>(); case 7: return rt<int64_t>(); default: return rt<bool>(); } }
void rt_chars() { switch (sym_choose(7, "kind")) { case 0: return rt<char>(); case 1: return rt<wchar_t>(); case 2: return rt<char16_t>(); case 3: return rt<char32_t>(); case 4: return rt<float>(); case 5: return rt<double>(); default: return rt<unsigned long long>(); } }
void rt_enums() { switch (sym_choose(3, "kind")) { case 0: return rt<color8>(); case 1: return rt<scoped16>(); default: return rt<scoped64>(); } }
void rt_aggs() { switch (sym_choose(7, "kind")) { case 0: return rt<std::array<uint16_t, 3>>(); case 1: return rt<std::array<agg, 2>>(); case 2: return rt<agg>(); case 3: return rt<agg_nested>(); case 4: return rt<big_agg>(); case 5: return rt<std::array<uint8_t, 0>>(); default: return rt<empty_agg>(); } }
void rt_tuples() { switch (sym_choose(5, "kind")) { case 0: return rt<std::pair<uint8_t, uint64_t>>(); case 1: return rt<std::tuple<uint8_t, agg, bool, float>>(); case 2: return rt<std::tuple<>>(); case 3: return rt<std::pair<std::pair<int16_t, bool>, std::tuple<char, uint32_t>>>(); default: return rt<std::tuple<std::array<uint16_t, 2>>>(); } }
void rt_classes() { switch (sym_choose(5, "kind")) { case 0: return rt<cls_simple>(); case 1: return rt<cls_derived>(); case 2: return rt<cls_custom>(); case 3: return rt<custom_only>(); default: return rt<std::array<cls_derived, 2>>(); } }
void rt_optional() { switch (sym_choose(5, "kind")) { case 0: return rt<std::optional<uint32_t>>(); case 1: return rt<std::optional<std::optional<uint8_t>>>(); case 2: return rt<std::optional<cls_simple>>(); case 3: return rt<std::optional<std::pair<uint8_t, std::optional<uint16_t>>>>(); default: return rt<std::optional<bool>>(); } }
void rt_unique() { switch (sym_choose(4, "kind")) { case 0: return rt<std::unique_ptr<uint32_t>>(); case 1: return rt<std::unique_ptr<cls_derived>>(); case 2: return rt<std::unique_ptr<std::unique_ptr<uint8_t>>>(); default: return rt<std::optional<std::unique_ptr<agg>>>(); } }
void rt_time() { switch (sym_choose(6, "kind")) { case 0: return rt<milliseconds>(); case 1: return rt<nanoseconds>(); case 2: return rt<hours>(); case 3: return rt<duration<int32_t, std::ratio<1, 3>>>(); case 4: return rt<system_clock::time_point>(); default: return rt<time_point<steady_clock, seconds>>(); } }
// A sequence of values of different kinds on one encoder/decoder pair, with
// wire data left untouched between them.
void rt_sequence() {
  agg a = make<agg>("a"); std::optional<uint16_t> b = make<std::optional<uint16_t>>("b"); cls_custom c = make<cls_custom>("c"); double d = make<double>("d"); bool e = make<bool>("e");
  bool big = sym_choose(2, "byteorder");
  std::string wire; arpc::string_output_stream os(wire); arpc::string_input_stream is(wire);
  agg a2{}; std::optional<uint16_t> b2; cls_custom c2; double d2 = 0; bool e2 = false;
  auto run = [&](auto& en, auto& de) { en(a); en(b); en(c); en(d); en(e); de(a2); de(b2); de(c2); de(d2); de(e2); };
  if (big) { arpc::big_endian_binary_encoder en(os); arpc::big_endian_binary_decoder de(is); run(en, de); }
  else { arpc::little_endian_binary_encoder en(os); arpc::little_endian_binary_decoder de(is); run(en, de); }
  CHECK(eq(a, a2) & eq(b, b2) & eq(c, c2) & eq(d, d2) & (e == e2), "sequence of values survives");
  CHECK(is.pos() == wire.size(), "sequence fully consumed");
  symx_reach("done");
}
}
