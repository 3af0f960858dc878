// C20: the adapters over standard streams whose buffers fail anywhere.
#include "types.h"
#include <istream>
#include <ostream>
#include "arpc/iostream_adapters.h"
using namespace arpc;
#ifdef __clang__
// Encode libstdc++'s stream classes themselves, from their headers.
template class std::basic_ios<char>; template class std::basic_istream<char>; template class std::basic_ostream<char>; template class std::basic_streambuf<char>;
#endif
enum { none, eof_, io_, other_ };
template <typename F> int thrown(F f) {
  try { f(); return none; } catch (const errors::eof&) { return eof_; } catch (const errors::io_error&) { return io_; } catch (...) { return other_; }
}
// Input: delivers `s` in pieces of `chunk` bytes, then ends, or throws at `fail`.
struct source : std::streambuf {
  std::string s; size_t p = 0, fail, chunk; char area[4];
  source(const std::string& s, size_t fail, size_t chunk) : s(s), fail(fail), chunk(chunk) {}
  int_type underflow() override {
    if (p == fail) throw 42;
    size_t n = std::min({chunk, s.size() - p, fail - p}); if (!n) return traits_type::eof();
    for (size_t i = 0; i < n; i++) area[i] = s[p++];
    setg(area, area, area + n); return traits_type::to_int_type(*area);
  }
};
extern "C" void io_istream() {
  const std::string s = make<std::string>("text", symx_param(1, 3)); const bool faulty = sym_choose(2, "faulty");
  const size_t fail = faulty ? sym_choose(s.size() + 1, "failat") : SIZE_MAX;
  source b(s, fail, 1 + sym_choose(3, "chunk")); std::istream is(&b); size_t pos = 0; bool ended = false, broken = false;
  switch (sym_choose(4, "state")) { case 1: is.setstate(std::ios::failbit); broken = true; break; case 2: is.setstate(std::ios::badbit); broken = true; break; case 3: is.setstate(std::ios::eofbit); ended = true; break; }
  istream_input_stream in(is);
  for (uint64_t i = 0, n = symx_param(0, 2); i < n; i++) {
    const size_t left = ended ? 0 : s.size() - pos, good = ended ? SIZE_MAX : fail - pos; char buf[6] = {0x55, 0x55, 0x55, 0x55, 0x55, 0x55};
    size_t op = sym_choose(3, "op"), l = op ? sym_choose(6, "len") : 1, got = 0; int e;
    if (op == 0) e = thrown([&] { buf[0] = in.getc(); got = 1; }); else if (op == 1) e = thrown([&] { got = in.read(buf, l); }); else e = thrown([&] { in.read_fully(buf, l); got = l; });
    const size_t can = std::min(l, left);
    if (broken || l > good) { CHECK(e == io_, "a failing stream is an I/O error"); broken = true; continue; }
    if (can == l || op == 1) { CHECK(e == none && got == can, "a read returns what the stream delivers"); int ok = 1; for (size_t j = 0; j < 6; j++) ok &= buf[j] == (j < can ? s[pos + j] : 0x55); CHECK(ok, "the stream's bytes in order, and nothing beyond them is written"); }
    else CHECK(e == eof_, "the end of the stream is end-of-file");
    pos += can; if (can < l) ended = true;
  }
  symx_reach("done");
}
// Output: takes `room` bytes, then rejects or throws; may hold some back until flushed.
struct sink : std::streambuf {
  std::string out; size_t room; bool hurl, bulk, stuck; char area[2]; bool fired = false; int syncs = 0;
  sink(size_t room, bool hurl, bool bulk, size_t hold, bool stuck) : room(room), hurl(hurl), bulk(bulk), stuck(stuck) { if (hold) setp(area, area + hold); }
  bool put(char c) { if (!room) { fired = true; if (hurl) throw 42; return false; } room--; out.push_back(c); return true; }
  bool drain() { while (pbase() < pptr()) { if (!put(*pbase())) return false; size_t n = pptr() - pbase(); for (size_t i = 1; i < n; i++) area[i - 1] = area[i]; setp(area, epptr()); pbump((int)n - 1); } return true; }
  int_type overflow(int_type c) override {
    if (!drain()) return traits_type::eof(); if (traits_type::eq_int_type(c, traits_type::eof())) return 0;
    if (epptr() > pptr()) { *pptr() = (char)c; pbump(1); return c; }
    return put((char)c) ? traits_type::not_eof(c) : traits_type::eof();
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override { if (!bulk || epptr()) return std::streambuf::xsputn(p, n); std::streamsize i = 0; while (i < n && put(p[i])) i++; return i; }
  int sync() override { syncs++; if (stuck) { fired = true; if (hurl) throw 42; return -1; } return drain() ? 0 : -1; }
  std::string all() const { return out + std::string(pbase(), pptr()); }
};
extern "C" void io_ostream() {
  const bool faulty = sym_choose(2, "faulty"); const size_t room = faulty ? sym_choose(4, "room") : SIZE_MAX;
  const bool hurl = faulty && sym_choose(2, "hurl"), bulk = sym_choose(2, "bulk"); const size_t hold = sym_choose(3, "hold"); const bool stuck = faulty && sym_choose(2, "stuck");
  sink b(room, hurl, bulk, hold, stuck); std::ostream os(&b);
  bool broken = false; switch (sym_choose(3, "state")) { case 1: os.setstate(std::ios::failbit); broken = true; break; case 2: os.setstate(std::ios::badbit); broken = true; break; }
  std::string want;
  { ostream_output_stream o(os);
    for (uint64_t i = 0, n = symx_param(0, 2); i < n; i++) {
      size_t op = sym_choose(3, "op"), l = op == 1 ? sym_choose(4, "len") : op == 0; char buf[4]; symx_bytes(buf, l, "bytes"); int e;
      if (op == 0) e = thrown([&] { o.putc(buf[0]); }); else if (op == 1) e = thrown([&] { o.write(buf, l); }); else e = thrown([&] { o.flush(); });
      if (broken && op == 2) { CHECK(e == io_, "flushing a failed stream is an I/O error"); continue; }
      if (broken || b.fired) { CHECK(e == io_, "a rejecting stream is an I/O error"); broken = true; continue; }
      CHECK(e == none, "an accepting stream is no error"); for (size_t j = 0; j < l; j++) want.push_back(buf[j]);
      CHECK(eq(b.all(), want), "exactly the given bytes in order");
      if (op == 2) { CHECK(b.syncs > 0 && b.all().size() == b.out.size(), "flushed when asked"); }
    }
    if (!broken) b.syncs = 0;
  }
  if (!broken) { CHECK(b.syncs > 0, "flushed on destruction"); if (!b.fired) CHECK(eq(b.out, want), "everything is delivered"); }
  symx_reach("done");
}
