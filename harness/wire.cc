// C03: the bytes on the wire, against an independent description.
#include "ref.h"
#define SAME(wire, o) same_bytes(wire, o)
static int same_bytes(const std::string& w, const wire_out& o) { return w.size() == o.b.size() && (w.empty() || memcmp(w.data(), o.b.data(), w.size()) == 0); }
template <typename T, typename O> void wire1(uint64_t lim) {
  T v = make<T>("value", lim);
  std::string w;
  { arpc::string_output_stream os(w); typename O::enc e(os); e(v); }
  wire_out r{{}, O::big}; ref(r, v);
  CHECK(w.size() == r.b.size(), "encoded size is the documented one");
  CHECK(same_bytes(w, r), "encoded bytes are the documented ones");
  std::string in(r.b.begin(), r.b.end()); in.push_back('!');
  arpc::string_input_stream is(in); typename O::dec d(is);
  T x = make<T>("old", lim > 1 ? 1 : lim);
  try { d(x); } catch (...) { CHECK(false, "documented bytes can be decoded"); return; }
  CHECK(eq(v, x), "documented bytes decode to the described value");
  CHECK(is.pos() + 1 == in.size(), "documented bytes are consumed exactly");
}
template <typename T> void wire() { uint64_t lim = symx_param(0, 2); if (sym_choose(2, "byteorder")) wire1<T, BE>(lim); else wire1<T, LE>(lim); symx_reach("done"); }
#define K(n, ...) case n: return wire<__VA_ARGS__>();
using namespace std::chrono;
extern "C" {
void wf_scalars() { switch (sym_choose(18, "kind")) { K(0, uint8_t) K(1, int8_t) K(2, uint16_t) K(3, int16_t) K(4, uint32_t) K(5, int32_t) K(6, uint64_t) K(7, int64_t) K(8, bool) K(9, char) K(10, wchar_t) K(11, char16_t) K(12, char32_t) K(13, float) K(14, double) K(15, color8) K(16, scoped16) default: return wire<scoped64>(); } }
void wf_aggs() { switch (sym_choose(14, "kind")) { K(0, agg) K(1, agg_nested) K(2, big_agg) K(3, empty_agg) K(4, std::array<uint16_t, 3>) K(5, std::array<agg, 2>) K(6, std::pair<uint8_t, uint64_t>) K(7, std::tuple<uint8_t, agg, bool, float>) K(8, cls_simple) K(9, cls_derived) K(10, cls_custom) K(11, custom_only) K(12, std::tuple<>) default: return wire<std::pair<std::pair<int16_t, bool>, std::array<cls_custom, 2>>>(); } }
void wf_opts() { switch (sym_choose(10, "kind")) { K(0, std::optional<uint32_t>) K(1, std::optional<std::optional<uint8_t>>) K(2, std::unique_ptr<uint32_t>) K(3, std::unique_ptr<cls_derived>) K(4, std::optional<std::unique_ptr<agg>>) K(5, milliseconds) K(6, hours) K(7, duration<int32_t, std::ratio<1, 3>>) K(8, system_clock::time_point) default: return wire<std::optional<std::pair<uint8_t, std::optional<uint16_t>>>>(); } }
void wf_seqs() { switch (sym_choose(11, "kind")) { K(0, std::string) K(1, std::u16string) K(2, std::vector<uint32_t>) K(3, std::deque<uint16_t>) K(4, std::list<uint64_t>) K(5, std::vector<agg>) K(6, std::vector<std::optional<uint8_t>>) K(7, std::list<cls_derived>) K(8, std::vector<std::string>) K(9, std::optional<std::vector<uint8_t>>) default: return wire<std::vector<bool>>(); } }
void wf_assoc() { switch (sym_choose(9, "kind")) { K(0, std::set<int16_t>) K(1, std::multiset<uint8_t>) K(2, arpc::flat_set<int32_t>) K(3, arpc::flat_multiset<int16_t>) K(4, std::map<int16_t, uint32_t>) K(5, arpc::flat_map<int32_t, uint8_t>) K(6, std::map<uint8_t, std::string>) K(7, std::unordered_map<uint8_t, uint16_t>) default: return wire<std::unordered_set<uint8_t>>(); } }
}
// Size prefixes over the whole 64-bit range.
struct claims_size {
  using value_type = agg; using size_type = size_t; using iterator = const agg*; using const_iterator = const agg*;
  size_t n = 0;
  size_t size() const { return n; }
  const agg* begin() const { return nullptr; }
  const agg* end() const { return nullptr; }
};
template <typename O> void sizes1() {
  claims_size c; c.n = make<uint64_t>("n");
  std::string w; { arpc::string_output_stream os(w); typename O::enc e(os); e(c); }
  wire_out r{{}, O::big}; r.varint(c.n);
  CHECK(same_bytes(w, r), "size prefix is base-128 little-endian, shortest form");
  symx_reach("done");
}
template <typename O> void text1() {
  std::string s = make<std::string>("s", 3); uint16_t mark = make<uint16_t>("mark");
  std::string w; { arpc::string_output_stream os(w); typename O::enc e(os); e(std::string_view(s)); e(mark); }
  wire_out r{{}, O::big}; ref(r, s); ref(r, mark);
  CHECK(same_bytes(w, r), "a string view is written like a string");
  symx_reach("done");
}
// Verified data: a 32-bit structure hash first, then the plain encoding.
template <typename T, typename O> void tagged1() {
  T v = make<T>("value"); std::string w, plain;
  { arpc::string_output_stream os(w); typename O::enc e(os); e(v, arpc::verify_structure{}); }
  wire_out r{{}, O::big}; r.scalar(arpc::traits::type_hash_v<T>, 4); ref(r, v);
  CHECK(same_bytes(w, r), "verified data is the structure hash followed by the value");
  symx_reach("done");
}
extern "C" {
void wf_size() { if (sym_choose(2, "byteorder")) sizes1<BE>(); else sizes1<LE>(); }
void wf_text() { if (sym_choose(2, "byteorder")) text1<BE>(); else text1<LE>(); }
void wf_tagged() { switch (sym_choose(4, "kind")) { case 0: return tagged1<uint32_t, LE>(); case 1: return tagged1<cls_derived, BE>(); case 2: return tagged1<std::vector<uint16_t>, LE>(); default: return tagged1<agg, BE>(); } }
}
// Shared pointers: object number, then the object when first met.
template <typename O> void shared1() {
  std::shared_ptr<uint16_t> a, b, c; uint64_t s = sym_choose(15, "shape");   // partitions of 3 slots into null / objects
  static const uint8_t shapes[15][3] = {{0,0,0},{0,0,1},{0,1,0},{1,0,0},{0,1,1},{1,0,1},{1,1,0},{0,1,2},{1,0,2},{1,2,0},{1,1,1},{1,1,2},{1,2,1},{1,2,2},{1,2,3}};
  uint16_t vals[4] = {0, make<uint16_t>("v1"), make<uint16_t>("v2"), make<uint16_t>("v3")};
  std::shared_ptr<uint16_t> obj[4]; for (int i = 1; i < 4; i++) obj[i] = std::make_shared<uint16_t>(vals[i]);
  std::string w; wire_out r{{}, O::big};
  { arpc::string_output_stream os(w); typename O::enc e(os); int seen = 0;
    for (int i = 0; i < 3; i++) { int k = shapes[s][i]; if (i == 1) { std::weak_ptr<uint16_t> p = obj[k]; e(p); } else e(obj[k]); r.varint(k); if (k > seen) { seen = k; ref(r, vals[k]); } } }
  CHECK(same_bytes(w, r), "shared objects are numbered from one and written once");
  symx_reach("done");
}
extern "C" void wf_shared() { if (sym_choose(2, "byteorder")) shared1<BE>(); else shared1<LE>(); }
