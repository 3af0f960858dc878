// C11: HighwayHash against an independent reference; C10: the MAC codec over
// the real hash.
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "symx.h"
#include "arpc/errors.h"
#include "arpc/highway_hash.h"
#include "arpc/packet_codecs.h"
typedef unsigned __int128 u128;
// ---- reference, written from the published description: four 64-bit lanes in
// four state rows; the zipper merge is a byte shuffle of each lane pair.
struct ref_hash {
  uint64_t v0[4], v1[4], m0[4], m1[4];
  explicit ref_hash(const uint64_t k[4]) {
    static const uint64_t i0[4] = {0xdbe6d5d5fe4cce2full, 0xa4093822299f31d0ull, 0x13198a2e03707344ull, 0x243f6a8885a308d3ull};
    static const uint64_t i1[4] = {0x3bd39e10cb0ef593ull, 0xc0acf169b5f18a8cull, 0xbe5466cf34e90c6cull, 0x452821e638d01377ull};
    for (int i = 0; i < 4; i++) { m0[i] = i0[i]; m1[i] = i1[i]; v0[i] = k[i] ^ i0[i]; v1[i] = swap(k[i]) ^ i1[i]; }
  }
  static uint64_t swap(uint64_t x) { return x << 32 | x >> 32; }
  static u128 zip(uint64_t lo, uint64_t hi) {
    static const uint8_t from[16] = {3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7};
    u128 x = (u128)hi << 64 | lo, r = 0;
    for (int i = 0; i < 16; i++) r |= (u128)(uint8_t)(x >> 8 * from[i]) << 8 * i;
    return r;
  }
  static void merge(const uint64_t* s, uint64_t* d) { for (int i = 0; i < 4; i += 2) { u128 z = zip(s[i], s[i + 1]); d[i] += (uint64_t)z; d[i + 1] += (uint64_t)(z >> 64); } }
  void round(const uint64_t l[4]) {
    for (int i = 0; i < 4; i++) {
      v1[i] = v1[i] + m0[i] + l[i]; m0[i] = m0[i] ^ (uint64_t)(uint32_t)v1[i] * (v0[i] >> 32);
      v0[i] = v0[i] + m1[i]; m1[i] = m1[i] ^ (uint64_t)(uint32_t)v0[i] * (v1[i] >> 32);
    }
    merge(v1, v0); merge(v0, v1);
  }
  void block(const uint8_t* p) { uint64_t l[4]; for (int i = 0; i < 4; i++) { l[i] = 0; for (int j = 7; j >= 0; j--) l[i] = l[i] << 8 | p[8 * i + j]; } round(l); }
  void message(const uint8_t* p, size_t n) {
    for (; n >= 32; n -= 32, p += 32) block(p);
    if (!n) return;
    for (int i = 0; i < 4; i++) { v0[i] += (uint64_t)n << 32 | n; uint32_t lo = v1[i], hi = v1[i] >> 32; lo = lo << n | lo >> (32 - n); hi = hi << n | hi >> (32 - n); v1[i] = (uint64_t)hi << 32 | lo; }
    uint8_t b[32] = {0}; size_t whole = n / 4 * 4, rest = n % 4;
    memcpy(b, p, whole);
    if (n >= 16) memcpy(b + 28, p + n - 4, 4);
    else if (rest) { b[16] = p[whole]; b[17] = p[whole + rest / 2]; b[18] = p[n - 1]; }
    block(b);
  }
  void rounds(int k) { while (k--) { uint64_t p[4] = {swap(v0[2]), swap(v0[3]), swap(v0[0]), swap(v0[1])}; round(p); } }
  uint64_t h64() const { ref_hash r = *this; r.rounds(4); return r.v0[0] + r.v1[0] + r.m0[0] + r.m1[0]; }
  void h128(uint64_t o[2]) const { ref_hash r = *this; r.rounds(6); for (int i = 0; i < 2; i++) o[i] = r.v0[i] + r.m0[i] + r.v1[i + 2] + r.m1[i + 2]; }
  void h256(uint64_t o[4]) const {
    ref_hash r = *this; r.rounds(10);
    for (int i = 0; i < 4; i += 2) {
      u128 hi = (u128)(r.v1[i + 1] + r.m1[i + 1]) << 64 | (r.v1[i] + r.m1[i]), lo = (u128)(r.v0[i + 1] + r.m0[i + 1]) << 64 | (r.v0[i] + r.m0[i]);
      hi = hi << 2 >> 2;  // the two top bits are dropped
      lo ^= hi << 1; lo ^= hi << 2; o[i] = (uint64_t)lo; o[i + 1] = (uint64_t)(lo >> 64);
    }
  }
};
struct input {
  uint64_t key[4]; std::unique_ptr<uint8_t[]> data; size_t n;
  explicit input(size_t k) : data(new uint8_t[k ? k : 1]), n(k) { for (auto& x : key) x = sym_u64("key"); symx_bytes(data.get(), n, "message"); }
};
template <typename F> static void compare(const ref_hash& r, F got) {
  switch (sym_choose(3, "width")) {
    case 0: CHECKNF(got(64)[0] == r.h64(), "64-bit hash"); break;
    case 1: { uint64_t e[2]; r.h128(e); auto g = got(128); CHECKNF((g[0] == e[0]) & (g[1] == e[1]), "128-bit hash"); break; }
    default: { uint64_t e[4]; r.h256(e); auto g = got(256); CHECKNF((g[0] == e[0]) & (g[1] == e[1]) & (g[2] == e[2]) & (g[3] == e[3]), "256-bit hash"); }
  }
}
// One call, every length up to the bound.
extern "C" void hh_whole() {
  input in(sym_choose(symx_param(0, 70) + 1, "length"));
  ref_hash r(in.key); r.message(in.data.get(), in.n);
  compare(r, [&](int w) { std::vector<uint64_t> o(4); if (w == 64) o[0] = arpc::highway_hash::hash64(in.data.get(), in.n, in.key); else if (w == 128) arpc::highway_hash::hash128(in.data.get(), in.n, in.key, o.data()); else arpc::highway_hash::hash256(in.data.get(), in.n, in.key, o.data()); return o; });
  symx_reach("done");
}
static std::vector<uint64_t> finish(arpc::highway_hash& h, int w) { std::vector<uint64_t> o(4); if (w == 64) o[0] = h.finish64(); else if (w == 128) h.finish128(o.data()); else h.finish256(o.data()); return o; }
// Chunked: two cuts, digests read in between; then a reset to another key.
extern "C" void hh_chunks() {
  static const size_t total[] = {0, 1, 16, 31, 32, 33, 40, 63, 64, 65, 70, 96, 100};
  size_t n = total[sym_choose(symx_param(0, 11), "total")];
  size_t a = sym_choose(n + 1, "cut1"); if (symx_param(1, 0) == 0) symx_assume(a % 8 <= 1 || a % 8 == 7);
  size_t b = a + sym_choose(n - a + 1, "cut2"); if (symx_param(1, 0) == 0) symx_assume((b - a) % 8 <= 1 || (b - a) % 8 == 7);
  input in(n); const uint8_t* p = in.data.get();
  arpc::highway_hash h(in.key);
  h.append(p, a); uint64_t d1 = h.finish64(), d2 = h.finish64(); h.append(p + a, b - a); uint64_t x[4]; h.finish128(x); h.append(p + b, n - b); h.finish256(x);
  ref_hash ra(in.key); ra.message(p, a);
  CHECKNF((d1 == d2) & (d1 == ra.h64()), "reading a digest returns the hash so far and does not disturb the state");
  ref_hash r(in.key); r.message(p, n);
  compare(r, [&](int w) { return finish(h, w); });
  symx_reach("done");
}
// Reset starts afresh, whatever was hashed before; copies are independent.
extern "C" void hh_reset() {
  static const size_t lens[] = {0, 3, 31, 32, 37};
  input one(lens[sym_choose(5, "before")]), two(lens[sym_choose(5, "after")]);
  arpc::highway_hash h(one.key); h.append(one.data.get(), one.n);
  arpc::highway_hash c(h);
  h.reset(two.key); h.append(two.data.get(), two.n);
  ref_hash r2(two.key); r2.message(two.data.get(), two.n);
  CHECKNF(h.finish64() == r2.h64(), "a reset state hashes as a new one");
  ref_hash r1(one.key); r1.message(one.data.get(), one.n);
  CHECKNF(c.finish64() == r1.h64(), "a copy keeps its own state");
  c = h; CHECKNF(c.finish64() == r2.h64(), "assignment copies the state");
  symx_reach("done");
}
// ---- C10 over the real hash
static const size_t mlens[] = {0, 1, 2, 3, 7, 8, 15, 16, 19, 31, 32, 33, 64};
extern "C" void mc_encode() {
  size_t n = mlens[sym_choose(symx_param(0, 13), "length")]; bool dflt = sym_choose(2, "defaultkey");
  uint64_t key[4]; for (int i = 0; i < 4; i++) key[i] = dflt ? arpc::mac_codec::default_key[i] : sym_u64("key");
  std::string p(n, 0); symx_bytes(p.data(), n, "packet"); std::string w = p;
  if (dflt) { arpc::mac_codec m; m.encode(w); } else { arpc::mac_codec m(key); arpc::packet_codec& base = m; base.encode(w); }
  CHECK(w.size() == n + 8, "eight bytes are appended");
  ref_hash r(key); r.message((const uint8_t*)p.data(), n); uint64_t t = r.h64();
  int same = 1; for (size_t i = 0; i < n; i++) same &= w[i] == p[i];
  CHECKNF(same, "the packet itself is unchanged");
  int tag = 1; for (int i = 0; i < 8; i++) tag &= (uint8_t)w[n + i] == (uint8_t)(t >> 8 * i);
  CHECKNF(tag, "the tag is the keyed hash in little-endian order");
  try { arpc::mac_codec m(key); m.decode(w); } catch (...) { CHECK(false, "an untampered packet is accepted"); return; }
  CHECK(w.size() == n, "decoding strips the tag");
  same = 1; for (size_t i = 0; i < n; i++) same &= w[i] == p[i];
  CHECKNF(same, "decoding restores the packet");
  symx_reach("done");
}
