// C17 result holders, C18 errors, C19 string streams, C21 stream base classes,
// C23 enumeration names.
#include "types.h"
#include "arpc/enum.h"
#include "arpc/io_adapters.h"
#include "arpc/result_holder.h"
using namespace arpc;

// ---- classification of what was thrown, by the most derived class
#define CLASSES(X) X(unknown_error) X(cancelled) X(data_mismatch) X(deadline_exceeded) X(eof) X(internal_error) X(invalid_argument) X(invalid_state) X(io_error) X(not_implemented) X(not_found) X(out_of_range) X(shutting_down) X(unavailable) X(try_again)
#define NAME(c) #c,
static const char* const kClass[] = {CLASSES(NAME)};
#define INDEX(c) k_##c,
enum { CLASSES(INDEX) kClasses, kForeign = kClasses, kOther, kNothing };
struct seen { int cls = kNothing; std::string what; };
template <typename F> seen caught(F f) {
  try { f(); }
#define CATCH(c) catch (const errors::c& e) { CHECK(e.portable_error_class_name() == #c, "an error knows its class name"); return {k_##c, e.what()}; }
  CLASSES(CATCH)
  catch (const std::exception& e) { return {kForeign, e.what()}; }
  catch (...) { return {kOther, ""}; }
  return {};
}
static std::exception_ptr raise(int cls, const char* msg) {
  try {
    switch (cls) {
#define THROW(c) case k_##c: throw errors::c(msg);
      CLASSES(THROW)
      case kForeign: throw std::logic_error(msg);
      default: throw 42;
    }
  } catch (...) { return std::current_exception(); }
}
struct text { char s[8]; size_t n; };
static text arb_text(size_t lim) { text t{}; t.n = sym_choose(lim + 1, "len"); symx_bytes(t.s, t.n, "text"); for (size_t i = 0; i < t.n; i++) symx_assume(t.s[i] != 0); return t; }
static int same_text(const std::string& a, const text& t) { if (a.size() != t.n) return 0; int ok = 1; for (size_t i = 0; i < t.n; i++) ok &= a[i] == t.s[i]; return ok; }

// ---- C17
template <typename T, typename = void> struct held {
  static void set(result_holder<T>& h, const char* n) { h.set_value(make<T>(n, 1)); }
  static void same(result_holder<T>& a, result_holder<T>& b) { CHECK(eq(*a, *b) && eq(a.value(), b.value()), "the value survives"); const auto& c = b; CHECK(&*c == &*b && c.operator->() == b.operator->() && &c.value() == &*b, "accessors agree"); }
};
template <typename V> struct held<void, V> {
  static void set(result_holder<void>& h, const char*) { h.set_value(); }
  static void same(result_holder<void>& a, result_holder<void>& b) { *b; b.value(); const auto& c = b; *c; c.value(); std::move(b).value(); }
};
struct content { int kind; int cls; text msg; };   // 0 nothing, 1 value, 2 error
template <typename T> content arb_content(result_holder<T>& h, const char* n, size_t lim) {
  content c{(int)sym_choose(3, n), 0, {}};
  if (c.kind == 1) held<T>::set(h, "value");
  if (c.kind == 2) { c.cls = sym_choose(kClasses + 2, "class"); c.msg = arb_text(lim); if (c.cls == kOther) c.msg.n = 0; h.set_exception(raise(c.cls, c.msg.s)); }
  return c;
}
template <typename T> void same_error(result_holder<T>& h, const content& c) {
  int want = c.cls >= kClasses ? 0 : c.cls;   // foreign ones become unknown_error
  CHECK(bool(h) && h.has_value(), "a holder with an error is not empty");
  for (int i = 0; i < 2; i++) { seen s = caught([&] { if (i) (void)h.value(); else (void)*h; }); CHECK(s.cls == want, "the error is rethrown as the same class"); CHECK(same_text(s.what, c.msg), "the error's message survives"); }
}
template <typename T> void is_empty(result_holder<T>& h) {
  CHECK(!h && !h.has_value(), "an empty holder says so");
  for (int i = 0; i < 2; i++) { seen s = caught([&] { if (i) (void)h.value(); else (void)*h; }); CHECK(kClass[s.cls] == std::string("invalid_state"), "reading an empty holder is refused"); }
}
template <typename T, typename O> void holder1() {
  const size_t lim = symx_param(0, 2);
  result_holder<T> h; content c = arb_content(h, "kind", lim);
  std::string w; { string_output_stream os(w); typename O::enc e(os); e(h); }
  result_holder<T> g; arb_content(g, "old", 0);
  string_input_stream is(w); typename O::dec d(is);
  seen s = caught([&] { d(g); }); CHECK(s.cls == kNothing, "decoding what was encoded must not fail"); if (s.cls != kNothing) return;
  CHECK(is.pos() == w.size(), "consumed exactly");
  if (c.kind == 0) is_empty(g); else if (c.kind == 1) { CHECK(bool(g) && g.has_value(), "a holder with a value is not empty"); seen t = caught([&] { held<T>::same(h, g); }); CHECK(t.cls == kNothing, "the previous content is replaced"); } else same_error(g, c);
  if (c.kind == 2) { result_holder<T> x; x.swap(g); is_empty(g); same_error(x, c); swap(x, g); same_error(g, c); result_holder<T> y(std::move(g)); same_error(y, c); result_holder<T> z; z = std::move(y); same_error(z, c); z.reset(); is_empty(z); }
  else if (c.kind == 1) { result_holder<T> x; x.swap(g); is_empty(g); held<T>::same(h, x); result_holder<T> z; z = std::move(x); held<T>::same(h, z); z.reset(); is_empty(z); }
  symx_reach("done");
}
template <typename T> void holder() { if (sym_choose(2, "byteorder")) holder1<T, BE>(); else holder1<T, LE>(); }
// An error holder of one type read as a holder of another.
template <typename A, typename B> void cross() {
  result_holder<A> a; content c{2, (int)sym_choose(kClasses + 2, "class"), {}}; c.msg = arb_text(1); if (c.cls == kOther) c.msg.n = 0; a.set_exception(raise(c.cls, c.msg.s));
  std::string w; { string_output_stream os(w); LE::enc e(os); e(a); }
  result_holder<B> b; arb_content(b, "old", 0); string_input_stream is(w); LE::dec d(is);
  seen s = caught([&] { d(b); }); CHECK(s.cls == kNothing, "an error decodes whatever the result type"); if (s.cls != kNothing) return;
  CHECK(is.pos() == w.size(), "consumed exactly"); same_error(b, c);
  symx_reach("done");
}
// Any class name on the wire, registered here or not.
static void names() {
  std::string type, want; size_t k = sym_choose(kClasses + 1, "class");
  if (k < kClasses) { type = kClass[k]; switch (sym_choose(4, "edit")) { case 0: break; case 1: { size_t i = sym_choose(type.size(), "at"); uint8_t b = sym_u8("byte"); type[i] = (char)b; break; } case 2: type.pop_back(); break; default: type.push_back((char)sym_u8("byte")); } }
  else { type.assign(sym_choose(4, "len"), 0); symx_bytes(&type[0], type.size(), "type"); }
  text msg = arb_text(1); int expect = 0; for (int i = 0; i < kClasses; i++) { if (type.size() == strlen(kClass[i])) { int eq = 1; for (size_t j = 0; j < type.size(); j++) eq &= type[j] == kClass[i][j]; if (eq) expect = i; } }
  seen t = caught([&] { error_factory::get().throw_error(type, msg.s); });
  CHECK(t.cls == expect && same_text(t.what, msg), "errors raised by name throw exactly that class, unknown names the unknown error");
  std::string w; { string_output_stream os(w); LE::enc e(os); e(std::optional<int>()); e(true); e(type); e(std::string(msg.s)); }
  result_holder<int> g; string_input_stream is(w); LE::dec d(is); d(g);
  seen u = caught([&] { (void)*g; }); CHECK(u.cls == expect && same_text(u.what, msg), "a transmitted error is rethrown as its class, or the unknown error");
  symx_reach("done");
}
static void holder_ctor() {
  std::string s = make<std::string>("s", 3), copy = s; const std::string k = s; const auto v = make<uint32_t>("v");
  result_holder<std::string> a(s); CHECK(eq(s, copy), "constructing from a value leaves the caller's alone"); CHECK(eq(*a, copy), "the holder has the value");
  result_holder<std::string> b(k), c(std::string{copy}), d(std::move(s)); CHECK(eq(*b, copy) && eq(*c, copy) && eq(*d, copy), "the holder has the value");
  result_holder<uint32_t> e(v); CHECK(*e == v && e.value_or(7u) == v, "the holder has the value"); result_holder<uint32_t> none; CHECK(none.value_or(v) == v, "default of an empty holder");
  result_holder<std::string> f(raise(3, "late")); seen x = caught([&] { (void)f->size(); }); CHECK(x.cls == 3 && x.what == "late", "constructing from an exception");
  std::string lv = copy; a.set_value(lv); CHECK(eq(*a, copy) && eq(lv, copy), "setting a value leaves the caller's alone"); a.set_value(std::move(lv)); CHECK(eq(*a, copy), "setting a value");
  std::string out = *std::move(a); CHECK(eq(out, copy), "a value can be moved out"); std::string out2 = std::move(b).value(); CHECK(eq(out2, copy), "a value can be moved out");
  result_holder<std::unique_ptr<uint32_t>> p(std::make_unique<uint32_t>(v)); CHECK(**p == v, "move-only values"); std::unique_ptr<uint32_t> q = std::move(p).value(); CHECK(*q == v, "move-only values");
  symx_reach("done");
}
// Messages, names and values longer than any buffer one would think of.
static void long_texts() {
  const size_t n = sym_choose(2, "size") ? 300 : 20 + sym_choose(30, "length"); std::string m(n, 'm'); const size_t at = sym_choose(2, "where") ? n - 1 : n / 2; m[at] = (char)sym_u8("byte"); symx_assume(m[at] != 0);
  bool value = sym_bool("value"); const int cls = (int)sym_choose(kClasses + 1, "class");
  result_holder<std::string> h; if (value) h.set_value(m); else h.set_exception(raise(cls, m.c_str()));
  std::string w; { string_output_stream os(w); LE::enc e(os); e(h); }
  result_holder<std::string> g; string_input_stream is(w); LE::dec d(is); d(g); CHECK(is.pos() == w.size(), "consumed exactly");
  auto as = [&](const std::string& t) { return t.size() == n && t[at] == m[at] && t == m; };
  if (value) CHECK(as(*g), "the value survives");
  else { seen s = caught([&] { (void)*g; }); CHECK(s.cls == (cls >= kClasses ? 0 : cls) && as(s.what), "the error and its message survive"); }
  symx_reach("done");
}
extern "C" {
void rh_long() { long_texts(); }
void rh_roundtrip() { switch (sym_choose(7, "type")) { case 0: return holder<void>(); case 1: return holder<uint32_t>(); case 2: return holder<bool>(); case 3: return holder<std::string>(); case 4: return holder<std::vector<uint16_t>>(); case 5: return holder<agg>(); default: return holder<std::optional<uint8_t>>(); } }
void rh_cross() { switch (sym_choose(6, "types")) { case 0: return cross<void, std::string>(); case 1: return cross<std::string, void>(); case 2: return cross<uint32_t, agg>(); case 3: return cross<std::vector<uint16_t>, uint8_t>(); case 4: return cross<bool, void>(); default: return cross<std::optional<uint8_t>, std::string>(); } }
void rh_names() { names(); }
void rh_ctor() { holder_ctor(); }
}
// ---- C18
extern "C" {
void ec_code() {
  static const int64_t kAround[] = {0, 100000, 1000000, 10000000, 100000000, 1000000000, INT32_MAX};
  int64_t mid = kAround[sym_choose(7, "around")]; int off = (int16_t)sym_u16("code"); int w = mid ? 130 : 12000; symx_assume(off >= -w && off <= w); if (sym_choose(2, "negative")) mid = -mid; symx_assume(mid + off <= INT32_MAX && mid + off >= INT32_MIN);
  int code = (int)(mid + off); text t = arb_text(sym_choose(2, "withtext") * 2); bool via = sym_choose(2, "errno"); std::string m(t.s);
  seen s = caught([&] { if (via) { errno = code; throw_io_error(m); } else throw_io_error(m, code); });
  bool quiet = code == EINPROGRESS || code == EALREADY || code == EISCONN, again = code == EAGAIN || code == EWOULDBLOCK;
  if (quiet) CHECK(s.cls == kNothing, "a connection in progress is no error");
  else if (again) CHECK(s.cls == k_try_again, "would-block codes mean try again");
  else {
    CHECK(s.cls == k_io_error, "every other code is an I/O error");
    // message, ": ", decimal code
    std::string want = m + ": "; int64_t v = code; if (v < 0) { want.push_back('-'); v = -v; }
    size_t digits = 1; for (int64_t p = 10; digits < 10 && v >= p; p *= 10) digits++;
    CHECK(s.what.size() == want.size() + digits, "the message ends in the decimal code");
    int ok = 1; for (size_t i = 0; i < want.size() && i < s.what.size(); i++) ok &= s.what[i] == want[i]; CHECK(ok, "the message starts with the given text");
    uint32_t got = 0; for (size_t i = want.size(); i < s.what.size(); i++) { uint32_t d = (uint8_t)s.what[i] - '0'; ok &= d <= 9; got = got * 10 + d; } CHECK(ok, "the code is decimal");
    CHECK(got == (uint32_t)v, "the code is the given one");
  }
  symx_reach("done");
}
// Every code; the digits are checked by ec_code.
void ec_class() {
  int code = (int)sym_u32("code"); bool via = sym_choose(2, "errno");
  seen s = caught([&] { if (via) { errno = code; throw_io_error("m"); } else throw_io_error("m", code); });
  if (code == EINPROGRESS || code == EALREADY || code == EISCONN) CHECK(s.cls == kNothing, "a connection in progress is no error");
  else if (code == EAGAIN || code == EWOULDBLOCK) CHECK(s.cls == k_try_again, "would-block codes mean try again");
  else { CHECK(s.cls == k_io_error, "every other code is an I/O error"); CHECK(s.what.compare(0, 3, "m: ") == 0 && s.what.size() >= 4 && s.what.size() <= 14, "text, then the code"); }
  symx_reach("done");
}
void ec_template() {
  int code = (int)sym_choose(400, "code") - 200; text t = arb_text(3); bool via = sym_choose(2, "errno"); std::string m(t.s);
  seen s = caught([&] { if (via) { errno = code; throw_with_errno<errors::unavailable>(m); } else throw_with_code<errors::unavailable>(m, code); });
  CHECK(s.cls == k_unavailable, "the chosen class is thrown"); std::string want = m + ": " + std::to_string(code); CHECK(eq(s.what, want), "text and decimal code");
  symx_reach("done");
}
void ec_analyze() {
  int cls = sym_choose(kClasses + 3, "class"); text t = arb_text(3);
  auto [type, what] = error_factory::analyze_exception(cls == kNothing ? std::exception_ptr() : raise(cls, t.s));
  if (cls < kClasses) { CHECK(type == kClass[cls], "an error is described by its class name"); CHECK(same_text(what, t), "and its message"); }
  else { CHECK(type.empty(), "foreign exceptions have no class name"); if (cls == kForeign) CHECK(same_text(what, t), "but keep their message"); else CHECK(what.empty(), "nothing else to tell"); }
  symx_reach("done");
}
void ec_names() { names(); }
}
// ---- C19
extern "C" {
void st_out() {
  std::string s = make<std::string>("old", 3), want = s; string_output_stream os(s); output_stream& o = os;
  for (uint64_t i = 0, n = symx_param(0, 3); i < n; i++) switch (sym_choose(3, "op")) {
    case 0: { size_t l = sym_choose(4, "len"); char b[4]; symx_bytes(b, l, "bytes"); o.write(b, l); for (size_t j = 0; j < l; j++) want.push_back(b[j]); break; }
    case 1: { char c = (char)sym_u8("c"); o.putc(c); want.push_back(c); break; }
    default: o.flush();
  }
  CHECK(eq(s, want), "exactly the given bytes are appended"); symx_reach("done");
}
void st_in() {
  const std::string s = make<std::string>("text", 3); uint64_t p0 = sym_u64("pos"); std::unique_ptr<string_input_stream> is;
  seen c = caught([&] { is = std::make_unique<string_input_stream>(s, p0); });
  CHECK(p0 > s.size() ? c.cls < kClasses && kClass[c.cls] == std::string("out_of_range") : c.cls == kNothing, "starting past the end is refused, anything else is not"); if (!is) { symx_reach("refused"); return; }
  uint64_t pos = symx_concretize(p0); CHECK(is->pos() == pos, "starts where asked");
  for (uint64_t i = 0, n = symx_param(0, 3); i < n; i++) {
    switch (sym_choose(4, "op")) {
      case 0: { size_t l = sym_choose(6, "len"); if (l == 5) l = SIZE_MAX - pos; char b[16]; for (auto& x : b) x = 0x55; size_t r = is->read(b, l), want = std::min<size_t>(l, s.size() - pos); CHECK(r == want, "as many bytes as asked for and available"); int ok = 1; for (size_t j = 0; j < 16; j++) ok &= b[j] == (j < want ? s[pos + j] : 0x55); CHECK(ok, "the string's bytes, and nothing beyond them is written"); pos += want; break; }
      case 1: { char ch = 0; seen e = caught([&] { ch = is->getc(); }); if (pos < s.size()) { CHECK(e.cls == kNothing && ch == s[pos], "next character"); pos++; } else CHECK(e.cls < kClasses && kClass[e.cls] == std::string("eof"), "end-of-file exactly at the end"); break; }
      case 2: { uint64_t q = sym_u64("seek"); seen e = caught([&] { is->pos(q); }); if (q > s.size()) CHECK(e.cls < kClasses && kClass[e.cls] == std::string("out_of_range"), "positioning past the end is refused"); else { CHECK(e.cls == kNothing, "positioning within the string"); pos = symx_concretize(q); } break; }
      default: { size_t l = sym_choose(4, "len"); char b[4]; seen e = caught([&] { is->read_fully(b, l); }); if (l <= s.size() - pos) { CHECK(e.cls == kNothing, "a full read of available bytes"); int ok = 1; for (size_t j = 0; j < l; j++) ok &= b[j] == s[pos + j]; CHECK(ok, "the string's bytes"); pos += l; } else { CHECK(e.cls < kClasses && kClass[e.cls] == std::string("eof"), "a full read past the end is end-of-file"); pos = s.size(); } }
    }
    CHECK(is->pos() == pos, "the position advances by what was returned");
  }
  symx_reach("done");
}
}
// ---- C21: streams with one primitive of their own
struct fault { int cls; };   // injected at a position; kClasses.. as above, kNothing for none
struct only_read : input_stream {
  const std::string& s; size_t p = 0, fail; int cls; int calls = 0; only_read(const std::string& s, size_t f, int c) : s(s), fail(f), cls(c) {}
  std::size_t read(char* b, std::size_t l) override { calls++; if (p == fail && l) std::rethrow_exception(raise(cls, "fault")); size_t n = std::min(l, s.size() - p); if (fail >= p) n = std::min(n, fail - p); if (n < l && p + n == fail && n < s.size() - p) { p += n; std::rethrow_exception(raise(cls, "fault")); } for (size_t i = 0; i < n; i++) b[i] = s[p++]; return n; }
  char getc() override { return input_stream::getc(); }
};
struct only_getc : input_stream {
  const std::string& s; size_t p = 0, fail; int cls; int calls = 0; only_getc(const std::string& s, size_t f, int c) : s(s), fail(f), cls(c) {}
  std::size_t read(char* b, std::size_t l) override { return input_stream::read(b, l); }
  char getc() override { calls++; if (p == fail) std::rethrow_exception(raise(cls, "fault")); if (p >= s.size()) throw errors::eof("EOF"); return s[p++]; }
};
struct only_write : output_stream { std::string out; size_t fail; int cls; only_write(size_t f, int c) : fail(f), cls(c) {} void write(const char* b, std::size_t l) override { for (size_t i = 0; i < l; i++) { if (out.size() == fail) std::rethrow_exception(raise(cls, "fault")); out.push_back(b[i]); } } void putc(char c) override { output_stream::putc(c); } void flush() override {} };
struct only_putc : output_stream { std::string out; size_t fail; int cls; only_putc(size_t f, int c) : fail(f), cls(c) {} void write(const char* b, std::size_t l) override { output_stream::write(b, l); } void putc(char c) override { if (out.size() == fail) std::rethrow_exception(raise(cls, "fault")); out.push_back(c); } void flush() override {} };
static const int kEof = 4;   // index of eof
template <typename S> void one_in() {
  const std::string s = make<std::string>("text", 3); const bool faulty = sym_choose(2, "faulty"); const size_t fail = faulty ? sym_choose(4, "failat") : SIZE_MAX; const int cls = faulty ? (int)sym_choose(kClasses + 2, "class") : 0;
  if (faulty && (fail >= s.size() || cls == kEof)) return;   // only real faults inside the data
  S st(s, fail, cls); input_stream& in = st; size_t pos = 0;
  for (uint64_t i = 0, n = symx_param(0, 2); i < n; i++) {
    const size_t left = s.size() - pos, good = std::min(left, fail - pos); seen e; char b[5] = {0x55, 0x55, 0x55, 0x55, 0x55};
    switch (sym_choose(3, "op")) {
      case 0: { char c = 0; e = caught([&] { c = in.getc(); }); if (good) { CHECK(e.cls == kNothing && c == s[pos], "next character"); pos++; continue; } if (!left) { CHECK(e.cls == kEof, "end-of-file at the end"); continue; } break; }
      case 1: { size_t l = sym_choose(5, "len"), r = 99; e = caught([&] { r = in.read(b, l); }); size_t want = std::min(l, left); if (want <= good) { CHECK(e.cls == kNothing && r == want, "a read returns what is available"); int ok = 1; for (size_t j = 0; j < 5; j++) ok &= b[j] == (j < want ? s[pos + j] : 0x55); CHECK(ok, "the bytes in order, and nothing beyond them is written"); pos += want; continue; } break; }
      default: { size_t l = sym_choose(5, "len"); e = caught([&] { in.read_fully(b, l); }); if (l <= good) { CHECK(e.cls == kNothing, "a full read succeeds when the bytes are there"); int ok = 1; for (size_t j = 0; j < 5; j++) ok &= b[j] == (j < l ? s[pos + j] : 0x55); CHECK(ok, "the whole buffer is filled"); pos += l; continue; } if (left == good) { CHECK(e.cls == kEof, "a full read past the end is end-of-file"); return symx_reach("done"); } break; }
    }
    CHECK(e.cls == cls, "other errors pass through unchanged"); if (cls != kOther) CHECK(e.what == "fault", "other errors pass through unchanged"); return symx_reach("done");
  }
  symx_reach("done");
}
template <typename S> void one_out() {
  const bool faulty = sym_choose(2, "faulty"); const size_t fail = faulty ? sym_choose(4, "failat") : SIZE_MAX; const int cls = faulty ? (int)sym_choose(kClasses + 2, "class") : 0;
  S st(fail, cls); output_stream& o = st; std::string want;
  for (uint64_t i = 0, n = symx_param(0, 2); i < n; i++) {
    size_t l = sym_choose(5, "len"); char b[4]; seen e; bool ch = l == 4; if (ch) l = 1; symx_bytes(b, l, "bytes");
    e = caught([&] { if (ch) o.putc(b[0]); else o.write(b, l); });
    for (size_t j = 0; j < l && want.size() < fail; j++) want.push_back(b[j]);
    if (want.size() < fail || e.cls == kNothing) { CHECK(e.cls == kNothing && (want.size() < fail || st.out.size() == fail), "writing succeeds"); }
    else { CHECK(e.cls == cls, "errors pass through unchanged"); CHECK(eq(st.out, want), "the bytes before the fault were written"); return symx_reach("done"); }
    CHECK(eq(st.out, want), "exactly the given bytes, in order");
  }
  symx_reach("done");
}
// A stream that gives its bytes in pieces of any size.
struct in_pieces : input_stream {
  const std::string& s; size_t p = 0; explicit in_pieces(const std::string& s) : s(s) {}
  std::size_t read(char* b, std::size_t l) override { size_t most = std::min(l, s.size() - p), n = sym_choose(most + 1, "piece"); for (size_t i = 0; i < n; i++) b[i] = s[p++]; return n; }
  char getc() override { return input_stream::getc(); }
};
extern "C" {
void io_pieces() {
  const std::string s = make<std::string>("text", 4); in_pieces st(s); input_stream& in = st; size_t pos = 0;
  for (uint64_t i = 0, n = symx_param(0, 2); i < n; i++) {
    char b[5] = {0x55, 0x55, 0x55, 0x55, 0x55}; size_t l = sym_choose(6, "len"); bool one = l == 5; if (one) l = 1;
    seen e = caught([&] { if (one) b[0] = in.getc(); else in.read_fully(b, l); });
    if (e.cls != kNothing) { CHECK(e.cls == kEof, "the buffer is filled, or end-of-file"); return symx_reach("end"); }
    CHECK(st.p == pos + l, "exactly as much as was asked for is taken"); if (st.p != pos + l) return;
    int ok = 1; for (size_t j = 0; j < 5; j++) ok &= b[j] == (j < l ? s[pos + j] : 0x55); CHECK(ok, "the whole buffer is filled"); pos += l;
  }
  symx_reach("filled");
}
void io_in() { if (sym_choose(2, "primitive")) one_in<only_read>(); else one_in<only_getc>(); }
void io_out() { if (sym_choose(2, "primitive")) one_out<only_write>(); else one_out<only_putc>(); }
}
