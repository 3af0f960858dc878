FLAT = '''#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include <map>
#include <set>
#include <vector>
using namespace arpc;
'''
S("c06_weak_unshared", "C06", [("binary_codecs.h", """    std::shared_ptr<T> shared;
    (*this)(shared);
    p = shared;""", """    std::shared_ptr<T> shared = p.lock();
    if (!shared) (*this)(shared);
    p = shared;""")], CODEC + '''
struct node : dynamic<node> { int v = 1; std::shared_ptr<int> own; std::weak_ptr<int> seen; ARPC_FIELDS(v, own, seen); };
int main() {
  auto a = std::make_shared<int>(7);
  std::pair<std::shared_ptr<int>, std::weak_ptr<int>> p(a, a), q;
  auto old = std::make_shared<int>(1);
  q.second = old;
  dec(enc(p), q);
  MUST(q.first && *q.first == 7 && q.second.lock() == q.first);
}''', "decoding into a weak pointer that already refers to a living object", "the weak pointer keeps referring to the old object, and the rest of the stream is misread")

S("c15_erase_first", "C15", [("container/detail/flat_tree.h", """    auto result = iters.second - iters.first;
    erase(iters.first, iters.second);
    return result;""", """    size_type result = 0;
    for (auto it = iters.first; it != end() && eq_(*it, key); ++result) {
      it = erase(it);
      if (it != end() && result > 0) ++it;
    }
    return result;""")], FLAT + '''
int main() {
  flat_multiset<int> s; for (int i = 0; i < 5; i++) s.insert(3); s.insert(4);
  MUST(s.erase(3) == 5 && s.size() == 1 && *s.begin() == 4);
}''', "three or more elements with the key erased", "some elements with the key stay behind")

S("c15_range_tail", "C15", [("container/detail/flat_tree.h", """    for (auto it = first; it != last; it++) {
      insert(*it);
    }""", """    auto it = first;
    for (; it != last && (empty() || !comp_(*it, this->back())); it++) {
      underlying_container::push_back(*it);
    }
    for (; it != last; it++) {
      insert(*it);
    }
    if constexpr (!multiple_allowed) {
      this->erase(std::unique(begin(), end(), eq_), end());
    } else if (size() > 2) {
      this->erase(std::unique(begin(), begin() + 2, eq_), begin() + 2);
    }""")], FLAT + '''
int main() {
  flat_multiset<int> s; std::vector<int> v{1, 1, 2};
  s.insert(v.begin(), v.end());
  MUST(s.size() == 3 && s.count(1) == 2);
}''', "inserting a range into a multi-container whose two least elements are equal", "one of the equal elements is lost")

S("c17_exception_kept", "C17", [("result_holder.h", """    d(value_);
    bool has_exception;
    exception_ = nullptr;
    d(has_exception);
    if (has_exception) {
      std::string type, message;
      d(type);
      d(message);
      try {
        error_factory::get().throw_error(type, message.c_str());
      } catch (...) {
        exception_ = std::current_exception();
      }
    }
  }

  using value_type = T;""", """    d(value_);
    bool has_exception;
    d(has_exception);
    if (has_exception) {
      std::string type, message;
      d(type);
      d(message);
      try {
        error_factory::get().throw_error(type, message.c_str());
      } catch (...) {
        exception_ = std::current_exception();
      }
    } else if (!value_) {
      exception_ = nullptr;
    }
  }

  using value_type = T;""")], CODEC + '''#include "arpc/result_holder.h"
int main() {
  result_holder<int> a(5), b(std::make_exception_ptr(errors::eof("x")));
  dec(enc(a), b);
  MUST(b.value() == 5);
}''', "decoding a value into a holder that carried an error", "the old error hides the value")

S("c17_message_cut", "C17", [("errors.cpp", """      type = e.portable_error_class_name();
      what = e.what();""", """      type = e.portable_error_class_name();
      what = std::string(e.what()).substr(0, 15);""")], CODEC + '''#include "arpc/result_holder.h"
int main() {
  std::string m(100, 'm');
  result_holder<int> a(std::make_exception_ptr(errors::not_found(m))), b;
  dec(enc(a), b);
  bool ok = false;
  try { b.value(); } catch (const errors::not_found& e) { ok = e.what() == m; }
  MUST(ok);
}''', "an error whose message is longer than fifteen characters", "the message is cut on the other side")

S("c18_connected", "C18", [("errors.cpp", "  if (code == EINPROGRESS || code == EALREADY || code == EISCONN) {", "  if (code == EINPROGRESS || code == EALREADY || code == ENOTCONN) {")], '''#include "arpc/errors.h"
#include <cerrno>
using namespace arpc;
int code(int c) { try { throw_io_error("m", c); return 0; } catch (const errors::try_again&) { return 1; } catch (const errors::io_error& e) { return std::string(e.what()) == "m: " + std::to_string(c) ? 2 : 3; } }
int main() {
  MUST(code(EISCONN) == 0 && code(EINPROGRESS) == 0 && code(EALREADY) == 0 && code(EAGAIN) == 1);
  for (int c = 1; c < 200; c++) if (c != EISCONN && c != EINPROGRESS && c != EALREADY && c != EAGAIN) MUST(code(c) == 2);
}''', "the codes of an established or missing connection", "a lost connection passes unnoticed")

S("c18_again_text", "C18", [("errors.cpp", """  if (code == EAGAIN || code == EWOULDBLOCK) {""", """  if (code == EAGAIN || code == EWOULDBLOCK || code == -EAGAIN) {""")], '''#include "arpc/errors.h"
#include <cerrno>
using namespace arpc;
int main() {
  bool ok = false;
  try { throw_io_error("m", -EAGAIN); } catch (const errors::try_again&) {} catch (const errors::io_error& e) { ok = std::string(e.what()) == "m: " + std::to_string(-EAGAIN); }
  MUST(ok);
}''', "a negative error code, such as the resolver's", "the failure is taken for a request to try again")

S("c19_pos_moves", "C19", [("string_adapters.cpp", """  if (new_pos > is_.size()) {
    throw errors::out_of_range("Positioning past end of string");
  }
  pos_ = new_pos;""", """  std::swap(pos_, new_pos);
  if (pos_ > is_.size()) {
    pos_ = std::min(new_pos, is_.size() - 1);
    throw errors::out_of_range("Positioning past end of string");
  }""")], CODEC + '''
int main() {
  std::string s("abc");
  string_input_stream i(s);
  i.pos(3);
  try { i.pos(4); MUST(false); } catch (const errors::out_of_range&) {}
  MUST(i.pos() == 3);
}''', "repositioning past the end from the very end", "the refused repositioning moves the position")

S("c19_write_nul", "C19", [("string_adapters.cpp", "  os_.append(p, l);", "  while (l > 1 && p[l - 1] == 0 && p[l - 2] == 0) --l;\n  os_.append(p, l);")], CODEC + '''
int main() {
  std::string s; s.reserve(64);
  string_output_stream o(s);
  o.write("a\\0\\0", 3);
  MUST(s.size() == 3);
}''', "a block that ends with two zero bytes", "trailing zero bytes are lost")

S("c21_swallow", "C21", [("io_adapters.cpp", "    } catch (const errors::eof&) {\n      break;", "    } catch (const errors::base_error&) {\n      if (r == 0) throw;\n      break;")], '''#include "arpc/io_adapters.h"
#include "arpc/errors.h"
using namespace arpc;
struct in : input_stream { int n = 0; std::size_t read(char* p, std::size_t l) override { return input_stream::read(p, l); } char getc() override { if (n++ < 2) return 'x'; throw errors::io_error("broken"); } };
int main() {
  in i; char c[4]; bool failed = false;
  try { i.read(c, 4); } catch (const errors::io_error&) { failed = true; }
  MUST(failed);
}''', "a character stream that fails in the middle of a block", "an error is turned into a short read")

S("c21_full_loop", "C21", [("io_adapters.cpp", """  if (r < l) {
    throw errors::eof("EOF");
  }""", """  if (r < l && (r == 0 || read(p + r, l - r) == 0)) {
    throw errors::eof("EOF");
  }""")], '''#include "arpc/io_adapters.h"
#include "arpc/errors.h"
#include <algorithm>
using namespace arpc;
struct in : input_stream { int calls = 0; char getc() override { return input_stream::getc(); } std::size_t read(char* p, std::size_t l) override { if (calls++ > 1) return 0; std::fill(p, p + 1, 'x'); return 1; } };
int main() {
  in i; char c[4]; bool ended = false;
  try { i.read_fully(c, 4); } catch (const errors::eof&) { ended = true; }
  MUST(ended);
}''', "a stream that delivers too few bytes in two pieces", "a full read returns without filling the buffer")

A("c22_addr_copy_len", "C22", [("address.cpp", "  memcpy(ai_addr, other.ai_addr, ai_addrlen);", "  memcpy(ai_addr, other.ai_addr,\n         ai_family == AF_INET6 ? ai_addrlen : std::min<socklen_t>(ai_addrlen, sizeof(sockaddr)));")], '''#include "arpc/address.h"
#include <sys/un.h>
#include <netinet/in.h>
using namespace arpc;
int main() {
  address a; a.family() = AF_UNIX;
  auto* u = reinterpret_cast<sockaddr_un*>(a.address_data()); u->sun_family = AF_UNIX; strcpy(u->sun_path, "/tmp/a/rather/long/name");
  address b(a);
  MUST(!memcmp(a.address_data(), b.address_data(), a.address_size()));
}''', "copying an address of another family than the two of IP", "the copy has a part of the address only")

A("c22_moved_null", "C22", [("address.cpp", """               0,
               nullptr,
               nullptr,
               this} {
  assert(other.ai_next == &other);
  std::swap(ai_addr, other.ai_addr);
  std::swap(ai_addrlen, other.ai_addrlen);""", """               other.ai_addrlen,
               other.ai_addr,
               nullptr,
               this} {
  assert(other.ai_next == &other);
  other.ai_addrlen = 0;
  if (ai_addrlen != 0) other.ai_addr = nullptr;""")], '''#include "arpc/address.h"
using namespace arpc;
int frees = 0; 
int main() {
  address a; a.address_size() = 0;
  { address b(std::move(a)); }
  MUST(a.address_data() == nullptr);
}''', "moving an address whose size was set to nothing", "two addresses own the same memory, which is freed twice")

S("c23_sorted_names", "C23", [("enum.h", """    if (it == entries + size) {
      return unknown_name;""", """    if (it == entries + size || (size > 2 && it->first < entries[0].first)) {
      return unknown_name;""")], '''#include <cstdint>
#include <algorithm>
#include "arpc/enum.h"
ARPC_ENUM(colour, int, "?", (RED, 5), (GREEN, 2), (BLUE, 9));
int main() { MUST(!strcmp(arpc::enum_names<colour>::name(colour::GREEN), "GREEN")); MUST(!strcmp(arpc::enum_names<colour>::name(colour::BLUE), "BLUE")); }''', "an enumeration of three or more values whose first is not the least", "declared values lose their names")

S("c14_list_assign", "C14", [("container/detail/flat_tree.h", "    underlying_container::operator=(ilist);", "    underlying_container::insert(end(), ilist);")], FLAT + '''
int main() {
  flat_set<int> s{7}; s = {2, 1, 2};
  MUST(s.size() == 2 && s.count(2) == 1);
}''', "assigning a list to a container that is not empty", "the elements assigned over stay in the container")

S("c16_assign_empty", "C16", [("container/detail/flat_tree.h", "    underlying_container::operator=(other);\n", "    if (!other.empty() || this != &other) underlying_container::assign(other.begin(), other.empty() && size() > 1 ? other.begin() : other.end());\n    if (other.empty() && capacity() > 1) return *this;\n")], FLAT + '''
struct cmp { bool down = false; bool operator()(int a, int b) const { return down ? a > b : a < b; } };
int main() {
  flat_set<int, cmp> a(cmp{false}), b(cmp{true});
  a.insert(1); a.insert(2); a.insert(3);
  a = b;
  MUST(a.empty());
  a.insert(1); a.insert(2);
  MUST(*a.begin() == 2);
}''', "assigning an empty container with another ordering over one that holds some elements", "the destination keeps its old ordering")

S("c20_fail_eof", "C20", [("iostream_adapters.cpp", "  if (is_.eof()) throw errors::eof(\"EOF\");", "  if (!is_.bad()) throw errors::eof(\"EOF\");")], '''#include "arpc/iostream_adapters.h"
#include "arpc/errors.h"
#include <sstream>
using namespace arpc;
int main() {
  std::istringstream s("abc"); s.setstate(std::ios::failbit);
  istream_input_stream i(s); bool failed = false;
  try { i.getc(); } catch (const errors::io_error&) { failed = true; } catch (const errors::eof&) {}
  MUST(failed);
}''', "reading a character from a stream that has failed without breaking", "the failure is reported as the end of the stream", srcs=CORE + " iostream_adapters")

S("c20_fail_write", "C20", [("iostream_adapters.cpp", "  if (!os_.write(p, l)) throw errors::io_error(\"Bad output stream\");", "  if (os_.write(p, l).bad()) throw errors::io_error(\"Bad output stream\");")], '''#include "arpc/iostream_adapters.h"
#include "arpc/errors.h"
#include <sstream>
using namespace arpc;
int main() {
  std::ostringstream s; s.setstate(std::ios::failbit);
  ostream_output_stream o(s); bool failed = false;
  try { o.write("ab", 2); } catch (const errors::io_error&) { failed = true; }
  MUST(failed);
}''', "writing a block to a stream that has failed without breaking", "the bytes are dropped without an error", srcs=CORE + " iostream_adapters")

S("c24_long_arrays", "C24", [("type_hash.h", """            type_hash_leaf(detail::type_family::ARRAY, false, static_size_v<T>),""", """            type_hash_leaf(detail::type_family::ARRAY, false,
                           static_cast<std::uint8_t>(static_size_v<T>)),""")], '''#include <array>
#include "arpc/type_hash.h"
using namespace arpc;
int main() { MUST((traits::type_hash_v<std::array<int, 1>> != traits::type_hash_v<std::array<int, 257>>)); }''', "arrays whose lengths differ by a multiple of 256", "arrays of different lengths have the same hash")
