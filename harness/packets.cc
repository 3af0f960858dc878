// C09 COBS, C10 MAC (tampering), C12 serial line, C13 protected stream, and the
// packet part of C04.  The keyed hash is an arbitrary function here (C11 decides
// the real one): the first time a message is hashed its digest is a fresh
// symbolic value, the next time the same value.
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "symx.h"
#include "arpc/binary_codecs.h"
#include "arpc/errors.h"
#include "arpc/highway_hash.h"
#include "arpc/packet_codecs.h"
#include "arpc/packet_protocols.h"
#include "arpc/string_adapters.h"
using arpc::errors::data_mismatch;
// ---- the arbitrary hash
struct oracle_entry { std::string msg; uint64_t key[4]; uint64_t val; };
static std::vector<oracle_entry>& oracle() { static std::vector<oracle_entry>* o = new std::vector<oracle_entry>; return *o; }
static unsigned free_tag_bytes = 0xff;  // which tag bytes may be zero (bound)
static uint64_t digest(const uint8_t* d, size_t n, const uint64_t key[4]) {
  for (auto& e : oracle()) {
    if (e.msg.size() != n) continue;
    int same = (e.key[0] == key[0]) & (e.key[1] == key[1]) & (e.key[2] == key[2]) & (e.key[3] == key[3]);
    for (size_t i = 0; i < n; i++) same &= (uint8_t)e.msg[i] == d[i];
    if (same) return e.val;
  }
  oracle_entry e; e.msg.assign((const char*)d, n); memcpy(e.key, key, sizeof e.key); e.val = sym_u64("digest");
  for (int i = 0; i < 8; i++) if (!(free_tag_bytes >> i & 1)) symx_assume((uint8_t)(e.val >> 8 * i) != 0);
  oracle().push_back(e); return e.val;
}
static std::map<const void*, std::string>& pending() { static auto* m = new std::map<const void*, std::string>; return *m; }
static std::map<const void*, std::vector<uint64_t>>& keys() { static auto* m = new std::map<const void*, std::vector<uint64_t>>; return *m; }
namespace arpc {
std::uint64_t highway_hash::hash64(const std::uint8_t* d, std::size_t n, const uint64_t key[4]) { return digest(d, n, key); }
highway_hash::highway_hash(const std::uint64_t key[4]) { reset(key); }
void highway_hash::reset(const std::uint64_t key[4]) { pending()[this].clear(); keys()[this].assign(key, key + 4); }
void highway_hash::append(const std::uint8_t* d, std::size_t n) { pending()[this].append((const char*)d, n); }
std::uint64_t highway_hash::finish64() { auto& p = pending()[this]; return digest((const uint8_t*)p.data(), p.size(), keys()[this].data()); }
}  // namespace arpc
static std::string arb(size_t n, const char* nm) { std::string s(n, 0); symx_bytes(s.data(), n, nm); return s; }
static int eqs(const std::string& a, const std::string& b) { if (a.size() != b.size()) return 0; int r = 1; for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i]; return r; }
static int zero_free(const std::string& s) { int r = 1; for (char c : s) r &= c != 0; return r; }

// ---- reference COBS (block by block, from its definition)
static std::string ref_cobs(const std::string& p) {
  std::string s = p + '\0', out; size_t i = 0;
  while (i < s.size()) {
    size_t j = i; while (j < s.size() && s[j] && j - i < 254) j++;
    out += (char)(j - i + 1); out.append(s, i, j - i);
    i = j - i == 254 ? j : j + 1;
  }
  return out;
}
static bool ref_uncobs(const std::string& s, std::string& out) {
  std::string r; size_t i = 0; bool zero = false; if (s.empty()) return false;
  while (i < s.size()) { unsigned c = (uint8_t)s[i++]; if (!c || c - 1 > s.size() - i) return false; r.append(s, i, c - 1); i += c - 1; zero = c != 255; if (zero) r += '\0'; }
  if (!zero) return false;
  r.pop_back(); out = r; return true;
}
static void cobs_encode_check(const std::string& p, bool deep) {
  arpc::cobs_codec c; std::string w = p;
  c.encode(w);
  CHECK(w.size() >= p.size() + 1 && w.size() <= p.size() + 1 + p.size() / 254, "encoded length is bounded");
  CHECKNF(zero_free(w), "no zero byte in the encoded form");
  CHECKNF(eqs(w, ref_cobs(p)), "the encoding is consistent overhead byte stuffing");
  std::string d = w;
  try { c.decode(d); } catch (...) { CHECK(false, "what was encoded decodes"); return; }
  CHECKNF(eqs(d, p), "decoding gives back the packet");
  if (deep) {  // every proper prefix is cut short
    std::string cut = w.substr(0, sym_choose(w.size(), "cut")), out;
    bool legal = ref_uncobs(cut, out), ok = true; std::string t = cut;
    try { c.decode(t); } catch (const data_mismatch&) { ok = false; } catch (...) { CHECK(false, "a bad frame is a data mismatch"); }
    CHECK(ok == legal, "a frame cut short is rejected");
    if (ok && legal) CHECKNF(eqs(t, out), "a shorter complete frame decodes to its own packet");
  }
}
extern "C" void cb_small() { cobs_encode_check(arb(sym_choose(symx_param(0, 6) + 1, "length"), "packet"), true); symx_reach("done"); }
// Long packets of arbitrary non-zero bytes, with zeros possible at a few places.
extern "C" void cb_long() {
  static const size_t lens[] = {253, 254, 255, 256, 508, 509, 507, 510, 762, 763};
  size_t n = lens[sym_choose(symx_param(0, 8), "length")];
  std::string p = arb(n, "packet");
  size_t at = sym_choose(6, "zeros");  // which group of positions may be zero
  static const int from[] = {-1, 0, 252, 253, 506, -2};
  for (size_t i = 0; i < n; i++) { bool may = from[at] >= 0 ? i >= (size_t)from[at] && i < (size_t)from[at] + 3 : from[at] == -2 ? i + 3 > n : false; if (!may) symx_assume(p[i] != 0); }
  arpc::cobs_codec c; std::string w = p; c.encode(w);
  CHECK(w.size() >= n + 1 && w.size() <= n + 1 + n / 254, "encoded length is bounded");
  CHECKNF(eqs(w, ref_cobs(p)), "the encoding is consistent overhead byte stuffing");
  CHECKNF(zero_free(w), "no zero byte in the encoded form");
  try { c.decode(w); } catch (...) { CHECK(false, "what was encoded decodes"); return; }
  CHECKNF(eqs(w, p), "decoding gives back the packet");
  symx_reach("done");
}
// Arbitrary bytes: accepted exactly if they are the encoding of the result.
extern "C" void cb_decode() {
  std::string s = arb(sym_choose(symx_param(0, 5) + 1, "length"), "bytes"), t = s, out;
  bool zf = sym_choose(2, "zerofree"); if (zf) symx_assume(zero_free(s));
  bool ok = true; arpc::cobs_codec c;
  try { c.decode(t); } catch (const data_mismatch&) { ok = false; } catch (...) { CHECK(false, "a bad frame is a data mismatch"); return; }
  if (zf) {
    bool legal = ref_uncobs(s, out);
    CHECK(ok == legal, "exactly the encodings of packets are accepted");
    if (ok && legal) { CHECKNF(eqs(t, out), "decoded packet"); c.encode(t); CHECKNF(eqs(t, s), "the frame is the encoding of the packet"); }
  }
  symx_reach(ok ? "accepted" : "rejected");
}
// Long frames around the full block.
extern "C" void cb_decode_long() {
  static const size_t lens[] = {254, 255, 256, 257, 509, 510, 511};
  size_t n = lens[sym_choose(7, "length")]; std::string s = arb(n, "bytes"), t = s, out; symx_assume(zero_free(s));
  // The first code byte leads to a full block, or to a second block near its end.
  if (sym_choose(2, "fullblock")) symx_assume((uint8_t)s[0] == 255); else symx_assume((uint8_t)s[0] >= 253);
  if (n > 300) symx_assume((uint8_t)s[0] == 255 && (uint8_t)s[255] >= 253);
  bool ok = true; arpc::cobs_codec c;
  try { c.decode(t); } catch (const data_mismatch&) { ok = false; } catch (...) { CHECK(false, "a bad frame is a data mismatch"); return; }
  bool legal = ref_uncobs(s, out);
  CHECK(ok == legal, "exactly the encodings of packets are accepted");
  if (ok && legal) CHECKNF(eqs(t, out), "decoded packet");
  symx_reach(ok ? "accepted" : "rejected");
}
// ---- C10: arbitrary packets, tags and keys against an arbitrary hash function
extern "C" void mc_tamper() {
  uint64_t key[4]; for (auto& k : key) k = sym_u64("key");
  arpc::mac_codec m(key); arpc::packet_codec& c = m;
  std::string w = arb(sym_choose(symx_param(0, 12) + 1, "length"), "bytes"), t = w;
  bool ok = true;
  try { c.decode(t); } catch (const data_mismatch&) { ok = false; } catch (...) { CHECK(false, "a bad tag is a data mismatch"); return; }
  if (w.size() < 8) { CHECK(!ok, "anything shorter than a tag is rejected"); symx_reach("rejected"); return; }
  size_t n = w.size() - 8; uint64_t h = digest((const uint8_t*)w.data(), n, key), tag = 0;
  for (int i = 0; i < 8; i++) tag |= (uint64_t)(uint8_t)w[n + i] << 8 * i;
  CHECKNF((h == tag) == ok, "accepted exactly if the tag is the hash of the rest");
  if (ok) CHECKNF(eqs(t, w.substr(0, n)), "decoding strips the tag and nothing else");
  symx_reach(ok ? "accepted" : "rejected");
}
// Encoding then changing any one byte (or dropping / adding bytes).
extern "C" void mc_change() {
  uint64_t key[4], key2[4]; for (auto& k : key) k = sym_u64("key"); for (auto& k : key2) k = sym_u64("key2");
  std::string p = arb(sym_choose(symx_param(0, 3) + 1, "length"), "packet"), w = p;
  arpc::mac_codec m(key), m2(key2); m.encode(w);
  CHECK(w.size() == p.size() + 8, "eight bytes are appended"); CHECKNF(eqs(w.substr(0, p.size()), p), "the packet itself is unchanged");
  uint64_t h = digest((const uint8_t*)p.data(), p.size(), key);
  for (size_t i = 0; i < 8; i++) CHECKNF((uint8_t)w[p.size() + i] == (uint8_t)(h >> 8 * i), "the tag is the keyed hash in little-endian order");
  size_t i = sym_choose(w.size(), "position"); uint8_t x = sym_u8("flip"); symx_assume(x != 0);
  std::string t = w; t[i] ^= x; bool ok = true;
  try { m.decode(t); } catch (const data_mismatch&) { ok = false; }
  if (i >= p.size()) CHECK(!ok, "any change to the tag is rejected");
  else { std::string q = p; q[i] ^= x; CHECKNF(ok == (digest((const uint8_t*)q.data(), q.size(), key) == h), "a changed packet passes only if it hashes alike"); }
  t = w; ok = true; try { m2.decode(t); } catch (const data_mismatch&) { ok = false; }
  CHECKNF(ok == (digest((const uint8_t*)p.data(), p.size(), key2) == h), "another key passes only if it hashes alike");
  t = w; m.decode(t); CHECKNF(eqs(t, p), "an untampered packet is restored");
  symx_reach("done");
}
// ---- C12
struct counting_out : arpc::output_stream {
  std::string data; int flushes = 0; size_t flushed = 0;
  void write(const char* d, std::size_t n) override { data.append(d, n); }
  void putc(char c) override { data.push_back(c); }
  void flush() override { flushes++; flushed = data.size(); }
};
template <typename P> std::string recv(P& p, arpc::input_stream& in, int& what) {
  what = 0;
  try { return p.receive(in); }
  catch (const data_mismatch&) { what = 1; } catch (const arpc::errors::eof&) { what = 2; } catch (const arpc::errors::out_of_range&) { what = 3; }
  catch (const arpc::errors::base_error&) { what = 4; } catch (...) { what = 5; }
  return "";
}
// Packets sent arrive in order, over one protocol object or two.
extern "C" void sl_roundtrip() {
  free_tag_bytes = 0x81; const unsigned N = symx_param(0, 2), L = symx_param(1, 1);
  arpc::serial_line_packet_protocol<> p, q; counting_out out; std::vector<std::string> sent;
  for (unsigned i = 0; i < N; i++) { sent.push_back(arb(sym_choose(L + 1, "length"), "packet")); p.send(out, sent.back()); CHECK(out.flushes == (int)i + 1 && out.flushed == out.data.size(), "each packet is flushed when sent"); CHECK(out.data.back() == 0, "a zero byte ends the frame"); }
  arpc::string_input_stream in(out.data); int what; bool other = sym_choose(2, "receiver");
  for (unsigned i = 0; i < N; i++) { std::string r = recv(other ? q : p, in, what); CHECK(what == 0, "a sent packet is received"); CHECKNF(eqs(r, sent[i]), "the packet received is the packet sent"); }
  recv(q, in, what); CHECK(what == 2, "end of the stream is end-of-file");
  symx_reach("done");
}
// An arbitrary frame is delivered exactly if it unframes and authenticates; the
// following frame is not affected.
extern "C" void sl_arbitrary() {
  free_tag_bytes = 0; const unsigned n = sym_choose(symx_param(0, 11) + 1, "length");
  std::string f = arb(n, "frame"), mid; symx_assume(zero_free(f));
  arpc::serial_line_packet_protocol<> p; arpc::string_output_stream* os; std::string w = f + '\0'; const std::string next = "ok";
  { counting_out o; p.send(o, next); w += o.data; }
  arpc::string_input_stream in(w); int what; std::string r = recv(p, in, what);
  CHECK(in.pos() == n + 1, "exactly one frame is consumed");
  bool good = ref_uncobs(f, mid) && mid.size() >= 8; const uint64_t* key = arpc::mac_codec::default_key;
  if (good) { uint64_t h = digest((const uint8_t*)mid.data(), mid.size() - 8, key), tag = 0; for (int i = 0; i < 8; i++) tag |= (uint64_t)(uint8_t)mid[mid.size() - 8 + i] << 8 * i; good = h == tag; }
  CHECK((what == 0) == good, "delivered exactly if it unframes and authenticates");
  if (!good) CHECK(what == 1, "a bad frame is a data mismatch");
  else CHECKNF(eqs(r, mid.substr(0, mid.size() - 8)), "the packet delivered is the authenticated one");
  r = recv(p, in, what); CHECK(what == 0 && r == next, "the next frame is received");
  symx_reach(good ? "accepted" : "rejected");
}
// A frame with one byte changed, dropped or doubled on the line.
extern "C" void sl_damage() {
  free_tag_bytes = 0; std::string a = arb(sym_choose(symx_param(0, 2) + 1, "length"), "packet"), b = "b";
  arpc::serial_line_packet_protocol<> p; counting_out o1, o2; p.send(o1, a); p.send(o2, b);
  std::string f = o1.data; size_t i = sym_choose(f.size() - 1, "position"); int kind = sym_choose(3, "damage");
  if (kind == 0) { uint8_t x = sym_u8("flip"); symx_assume(x != 0); symx_assume(((uint8_t)f[i] ^ x) != 0); f[i] ^= x; } else if (kind == 1) f.erase(i, 1); else f.insert(i, 1, f[i]);
  std::string w = f + o2.data; arpc::string_input_stream in(w); int what; std::string r = recv(p, in, what);
  if (what == 0) { uint64_t h = digest((const uint8_t*)r.data(), r.size(), arpc::mac_codec::default_key); std::string full = r; for (int k = 0; k < 8; k++) full.push_back((char)(h >> 8 * k)); CHECKNF(eqs(ref_cobs(full) + '\0', f), "only an authentic frame is delivered"); }
  else CHECK(what == 1, "a damaged frame is a data mismatch");
  CHECK(in.pos() == f.size(), "exactly one frame is consumed");
  r = recv(p, in, what); CHECK(what == 0 && r == b, "the next frame is received");
  symx_reach("done");
}
// Longest permitted frame; truncation anywhere.
template <size_t M> void limit() {
  free_tag_bytes = 0; std::string a = arb(M > 9 ? M - 9 + sym_choose(3, "length") - 1 : 0, "packet");
  for (char c : a) symx_assume(c != 0);
  counting_out o; arpc::serial_line_packet_protocol<> s; s.send(o, a); size_t frame = o.data.size() - 1;
  arpc::serial_line_packet_protocol<M> p; arpc::string_input_stream in(o.data); int what; std::string r = recv(p, in, what);
  if (frame > M) CHECK(what == 3, "a frame longer than the maximum is out of range");
  else { CHECK(what == 0, "a frame up to the maximum is received"); CHECKNF(eqs(r, a), "the packet received is the packet sent"); }
}
extern "C" void sl_limit() { switch (sym_choose(3, "maximum")) { case 0: limit<10>(); break; case 1: limit<12>(); break; default: { limit<0>(); } } symx_reach("done"); }
extern "C" void sl_cut() {
  free_tag_bytes = 1; const unsigned L = symx_param(0, 2); std::string a = arb(sym_choose(L + 1, "length"), "packet");
  arpc::serial_line_packet_protocol<> p; counting_out o; p.send(o, a);
  std::string w = o.data.substr(0, sym_choose(o.data.size(), "cut")); arpc::string_input_stream in(w); int what;
  std::string r = recv(p, in, what); CHECK(what == 2, "a stream that ends inside a frame gives end-of-file");
  symx_reach("done");
}
// ---- C13
template <typename E, typename D> void protected_stream() {
  const unsigned N = symx_param(0, 2), L = symx_param(1, 3);
  arpc::protected_stream_packet_protocol<E, D> p, q; counting_out out; std::vector<std::string> sent; std::vector<size_t> ends;
  for (unsigned i = 0; i < N; i++) {
    size_t n = sym_choose(L + 2, "length"); if (n == L + 1) n = i ? 127 : 130;
    sent.push_back(arb(n, "packet")); p.send(out, sent.back()); ends.push_back(out.data.size());
    CHECK(out.flushes == (int)i + 1 && out.flushed == out.data.size(), "each packet is flushed when sent");
  }
  size_t cut = out.data.size(); bool truncated = sym_choose(2, "truncated"); if (truncated) { size_t back = sym_choose(5, "back"); symx_assume(back < cut - (N > 1 ? ends[N - 2] : 0)); cut -= back + 1; }
  std::string w = out.data.substr(0, cut); arpc::string_input_stream in(w); int what;
  for (unsigned i = 0; i < N; i++) {
    std::string r = recv(q, in, what);
    if (truncated && i + 1 == N) { CHECK(what == 2, "a stream that ends inside a packet gives end-of-file"); return; }
    CHECK(what == 0, "a sent packet is received"); CHECKNF(eqs(r, sent[i]), "the packet received is the packet sent"); CHECK(in.pos() == ends[i], "each receive consumes exactly one packet");
  }
  recv(q, in, what); CHECK(what == 2, "end of the stream is end-of-file");
}
extern "C" void ps_roundtrip() {
  if (sym_choose(2, "byteorder")) protected_stream<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>();
  else protected_stream<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder>();
  symx_reach("done");
}
// ---- C04: arbitrary bytes through codecs and protocols
extern "C" void pk_bytes() {
  free_tag_bytes = 0xff; size_t n = sym_choose(symx_param(0, 10) + 1, "length"); std::string w = arb(n, "bytes"); int what = 0; std::string r = w;
  uint64_t before = symx_live_heap();
  try {
    switch (sym_choose(4, "decoder")) {
      case 0: { arpc::cobs_codec c; c.decode(r); CHECK(r.size() < n, "a packet is shorter than its frame"); break; }
      case 1: { arpc::mac_codec c; c.decode(r); CHECK(r.size() + 8 == n, "a packet is shorter than its frame"); break; }
      case 2: { for (size_t i = 0; i + 1 < n; i++) symx_assume((w[i] != 0) | (i % 4 == 3)); arpc::string_input_stream in(w); arpc::serial_line_packet_protocol<> p; r = p.receive(in); break; }
      default: { if (n) symx_assume(((uint8_t)w[0] < 4) | ((uint8_t)w[0] >= 0xfe) | (((uint8_t)w[0] & 0x7f) == 0)); for (size_t i = 1; i < n; i++) symx_assume(((uint8_t)w[i] < 3) | ((uint8_t)w[i] >= 0xfe)); arpc::string_input_stream in(w); arpc::protected_stream_packet_protocol<> p; r = p.receive(in); CHECK(r.size() < n, "a packet is shorter than its frame"); }
    }
  } catch (const arpc::errors::base_error&) { what = 1; } catch (...) { CHECK(false, "only the library's own errors are thrown on bad input"); }
  symx_reach(what ? "rejected" : "accepted");
}
