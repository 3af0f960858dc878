CODEC = '''#include "arpc/binary_codecs.h"
#include "arpc/serializable.h"
#include "arpc/config.h"
#include "arpc/string_adapters.h"
#include <memory>
#include <vector>
#include <set>
#include <map>
using namespace arpc;
template <typename T> std::string enc(const T& t) { std::string s; string_output_stream o(s); little_endian_binary_encoder e(o); e(t); return s; }
template <typename T> void dec(const std::string& s, T& t) { string_input_stream i(s); little_endian_binary_decoder d(i); d(t); }
'''
S("c01_unique_null", "C01", [("binary_codecs.h", """      load_object_reference(p, no_pointer_update());
    } else {
      p.reset();
    }""", """      load_object_reference(p, no_pointer_update());
    }""")], CODEC + '''
int main() {
  std::unique_ptr<int> none, target(new int(7));
  dec(enc(none), target);
  MUST(target == nullptr);
}''', "decoding a null unique_ptr into a target that already owns an object", "a null pointer decodes to whatever the target held before")

S("c02_size16", "C02", [("binary_codecs.h", "    write_variant(t.size());", "    write_variant(static_cast<std::uint16_t>(t.size()));")], CODEC + '''
int main() {
  std::string a(65537, 'x'), b;
  dec(enc(a), b);
  MUST(a == b);
}''', "a container with more than 65535 elements", "container sizes are truncated to 16 bits")

S("c03_class_header_order", "C03", [("binary_codecs.h", """      (*this)(class_name);
      (*this)(class_info.type_hash);""", """      (*this)(class_info.type_hash);
      (*this)(class_name);"""), ("binary_codecs.h", """      std::string class_name;
      (*this)(class_name);
      std::uint32_t type_hash;
      (*this)(type_hash);""", """      std::string class_name;
      std::uint32_t type_hash;
      (*this)(type_hash);
      (*this)(class_name);""")], CODEC + '''
struct poly : dynamic<poly> { int8_t v = 3; ARPC_FIELDS(v); };
ARPC_REGISTER(poly);
int main() {
  std::unique_ptr<poly> p(new poly), q;
  std::string s = enc(p);
  dec(s, q);
  MUST(q && q->v == 3);
  // present, class id 0, name length 4, name
  MUST(s[0] == 1 && s[1] == 0 && s[2] == 4 && s.substr(3, 4) == "poly");
}''', "two cooperating sites, each consistent with the other; only the bytes of a polymorphic pointer differ", "the class header of a polymorphic object changes its byte layout")

S("c04_class_id_bound", "C04", [("binary_codecs.h", """    if (class_id > class_info_vector_.size()) {
      // We didn't get either a known ID or the next one to assign.
      throw errors::data_mismatch("Received wrong class_id in stream");""", """    if (class_id > class_info_vector_.size() + 1) {
      // We didn't get either a known ID or the next one to assign.
      throw errors::data_mismatch("Received wrong class_id in stream");""")], CODEC + '''
struct poly : dynamic<poly> { int8_t v = 3; ARPC_FIELDS(v); };
ARPC_REGISTER(poly);
int main() {
  std::unique_ptr<poly> q;
  bool ok = false;
  try { dec(std::string("\\1\\1xxxxxxxxx", 11), q); } catch (const errors::data_mismatch& e) { ok = strstr(e.what(), "class_id"); }
  MUST(ok);
}''', "a stream whose class id is exactly one past the next unused id", "reads class information past the end of the table", flags="-fsanitize=address")

S("c05_putback", "C05", [("io_adapters.cpp", """  std::size_t r = read(p, l);
  if (r < l) {""", """  std::size_t r = read(p, l);
  if (r == 0 && l > 0) {""")], CODEC + '''
int main() {
  std::string s = enc(std::uint32_t(0x01020304)); s.pop_back();
  std::uint32_t v = 0; bool ok = false;
  try { dec(s, v); } catch (const errors::eof&) { ok = true; }
  MUST(ok);
}''', "input that ends in the middle of a multi-byte field", "a partially available block counts as fully read")

S("c07_subclass_once", "C07", [("binary_codecs.h", """                          decoder_info.decoder_function});
    }

    // Info structure for the concrete class.
    const auto& info = class_info_vector_[class_id];

    // Check that the subclass is compatible (slow).
    if (!registry::dynamic_subclass_registry<T>::get().is_subclass(
            info.class_name.c_str()))
      throw errors::data_mismatch(
          "The class that was read is not a subclass of pointed-to type");
""", """                          decoder_info.decoder_function});

      // Check that the subclass is compatible (slow).
      if (!registry::dynamic_subclass_registry<T>::get().is_subclass(
              class_name.c_str()))
        throw errors::data_mismatch(
            "The class that was read is not a subclass of pointed-to type");
    }

    // Info structure for the concrete class.
    const auto& info = class_info_vector_[class_id];
""")], CODEC + '''
struct poly : dynamic<poly> { int8_t v = 3; ARPC_FIELDS(v); };
struct other : dynamic<other> { int8_t w = 4; ARPC_FIELDS(w); };
ARPC_REGISTER(poly);
ARPC_REGISTER(other);
int main() {
  std::string s; string_output_stream o(s); little_endian_binary_encoder e(o);
  std::unique_ptr<poly> p(new poly); e(p); e(p);
  string_input_stream i(s); little_endian_binary_decoder d(i);
  std::unique_ptr<poly> q; std::unique_ptr<other> r; d(q);
  bool ok = false;
  try { d(r); } catch (const errors::data_mismatch&) { ok = true; }
  MUST(ok);
}''', "the same class is read twice, the second time through a pointer of an unrelated type", "an object of an unrelated class is stored in a pointer")

S("c08_hash_after", "C08", [("binary_codecs.h", """    (*this)(type_hash);
    if (type_hash != traits::type_hash_v<T>) {
      throw errors::data_mismatch("Wrong type hash in verified read");
    }
    (*this)(o, tags...);""", """    (*this)(type_hash);
    (*this)(o, tags...);
    if (type_hash != traits::type_hash_v<T>) {
      throw errors::data_mismatch("Wrong type hash in verified read");
    }""")], CODEC + '''
int main() {
  std::string s; string_output_stream o(s); little_endian_binary_encoder e(o); e(std::int32_t(5), verify_structure{});
  string_input_stream i(s); little_endian_binary_decoder d(i);
  std::uint32_t v = 77; bool ok = false;
  try { d(v, verify_structure{}); } catch (const errors::data_mismatch&) { ok = true; }
  MUST(ok && v == 77);
}''', "a verified read of mismatching data followed by a look at the target", "the target is overwritten before the mismatch is reported")

S("c09_overhead", "C09", [("packet_codecs.cpp", "  std::size_t overhead = 1 + original_size / 254;", "  std::size_t overhead = 1 + original_size / 256;")], '''
#include "arpc/packet_codecs.h"
int main() {
  for (size_t n = 1; n < 700; n++) { std::string a(n, 'x'), b = a; arpc::cobs_codec c; c.encode(b); MUST(b.find('\\0') == std::string::npos); c.decode(b); MUST(a == b); }
}''', "a packet of 254 or 255 non-zero bytes, where the extra space is one byte short", "the last byte of the packet is lost and memory past the string is written", srcs="errors packet_codecs highway_hash")

S("c10_half_tag", "C10", [("packet_codecs.cpp", """  for (std::size_t i = 0; i < sizeof(std::uint64_t); i++) {
    if (*ptr++ !=""", """  for (std::size_t i = 0; i < sizeof(std::uint32_t); i++) {
    if (*ptr++ !=""")], '''
#include "arpc/packet_codecs.h"
#include "arpc/errors.h"
int main() {
  std::string a("hello"); arpc::mac_codec c; c.encode(a); a.back() ^= 1;
  bool ok = false; try { c.decode(a); } catch (const arpc::errors::data_mismatch&) { ok = true; } MUST(ok);
}''', "a change confined to the upper half of the tag", "only half of the authentication tag is verified", srcs="errors packet_codecs highway_hash")

S("c11_big_chunk", "C11", [("highway_hash.cpp", "  if (buffered_bytes_ != 0) {\n    size_t num_add", "  if (buffered_bytes_ != 0 && num < 64) {\n    size_t num_add")], '''
#include "arpc/highway_hash.h"
int main() {
  uint64_t key[4] = {1, 2, 3, 4}; uint8_t m[128]; for (int i = 0; i < 128; i++) m[i] = i * 7;
  for (size_t k = 0; k <= 128; k++) { arpc::highway_hash h(key); h.append(m, k); h.append(m + k, 128 - k); MUST(h.finish64() == arpc::highway_hash::hash64(m, 128, key)); }
}''', "a chunk of 64 bytes or more appended while bytes are buffered", "chunked hashing differs from hashing at once", srcs="highway_hash")

S("c12_max_off_by_one", "C12", [("packet_protocols.h", "      if (packet.size() >= max_packet_size) {", "      if (packet.size() > max_packet_size) {")], '''
#include "arpc/packet_protocols.h"
#include "arpc/string_adapters.h"
int main() {
  std::string s; arpc::string_output_stream o(s); arpc::serial_line_packet_protocol<> p; p.send(o, "abcd");  // 4 + 8 + 1
  arpc::string_input_stream i(s); arpc::serial_line_packet_protocol<12> q; bool ok = false;
  try { q.receive(i); } catch (const arpc::errors::out_of_range&) { ok = true; } MUST(ok);
}''', "a frame exactly one byte longer than the maximum", "an oversize frame is accepted", srcs=CORE + " packet_codecs highway_hash")

S("c13_empty_flush", "C13", [("packet_protocols.h", """    encoder(packet);
    out.flush();""", """    encoder(packet);
    if (!packet.empty()) out.flush();""")], '''
#include "arpc/packet_protocols.h"
#include "arpc/string_adapters.h"
struct counting : arpc::output_stream { int n = 0, f = 0; void write(const char*, std::size_t l) override { n += l; } void putc(char) override { n++; } void flush() override { f++; } };
int main() {
  counting c; arpc::protected_stream_packet_protocol<> p; p.send(c, "x"); MUST(c.f == 1); p.send(c, ""); MUST(c.f == 2);
}''', "sending an empty packet", "an empty packet is not flushed", srcs=CORE + " packet_codecs highway_hash")
