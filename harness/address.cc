// C22: addresses, address lists and endpoints. The resolver (which needs the
// event loop) is replaced by this harness, through the friendship it has.
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include "symx.h"
#include "arpc/address.h"
#include "arpc/errors.h"
namespace arpc {
class address_resolver {
 public:
  static address_list wrap(addrinfo* a) { return address_list(a); }
  static const std::string& name(const endpoint& e) { return e.name_; }
  static const std::string& service(const endpoint& e) { return e.service_; }
  static bool passive(const endpoint& e) { return e.passive_; }
  static int family(const endpoint& e) { return e.family_; }
  static int type(const endpoint& e) { return e.sock_type_; }
};
}
using arpc::address; using arpc::address_list; using arpc::endpoint; using peek = arpc::address_resolver;
// What the system's resolver would do, as far as addresses are concerned.
static int g_freed; static addrinfo* g_head; static int g_gni_result; static char g_host[8], g_port[6]; static const sockaddr* g_gni_addr; static socklen_t g_gni_len;
extern "C" void freeaddrinfo(addrinfo* a) { CHECK(a == g_head && a, "the list is released through its head"); g_freed++; while (a) { addrinfo* n = a->ai_next; delete[] reinterpret_cast<char*>(a->ai_addr); delete a; a = n; } }
extern "C" int getnameinfo(const sockaddr* a, socklen_t l, char* h, socklen_t hl, char* p, socklen_t pl, int flags) {
  g_gni_addr = a; g_gni_len = l;
  CHECK((flags & NI_NUMERICHOST) && (flags & NI_NUMERICSERV), "addresses are printed without name lookups");
  CHECK(hl >= 62 && pl >= 6, "the buffers hold any numeric address and port");   // fe80::...%interface, 65535
  memset(h, 0x7f, hl); memset(p, 0x7f, pl);
  if (g_gni_result) return g_gni_result;
  strcpy(h, g_host); strcpy(p, g_port); return 0;
}
static addrinfo* list(size_t n) {
  addrinfo *head = nullptr, *last = nullptr;
  for (size_t i = 0; i < n; i++) { auto* a = new addrinfo(); a->ai_family = (int)i; a->ai_socktype = (int)sym_u32("type"); a->ai_protocol = (int)sym_u32("proto"); a->ai_addrlen = 16 + 4 * i; char* d = new char[a->ai_addrlen]; symx_bytes(d, a->ai_addrlen, "addr"); a->ai_addr = reinterpret_cast<sockaddr*>(d); if (last) last->ai_next = a; else head = a; last = a; }
  g_head = head; return head;
}
struct snap { int f, t, p; socklen_t n; unsigned char d[128]; };
static snap take(const address& a) { snap s; s.f = a.family(); s.t = a.socket_type(); s.p = a.protocol(); s.n = a.address_size(); memcpy(s.d, a.address_data(), s.n); return s; }
static void same(const snap& s, const address& a, const char* what) {
  CHECK(a.family() == s.f && a.socket_type() == s.t && a.protocol() == s.p && a.address_size() == s.n, what);
  int ok = 1; const unsigned char* d = reinterpret_cast<const unsigned char*>(a.address_data()); for (socklen_t i = 0; i < s.n; i++) ok &= d[i] == s.d[i];
  CHECK(ok, what);
}
static void fill(address& a) {
  a.family() = (int)sym_u32("family"); a.socket_type() = (int)sym_u32("type"); a.protocol() = (int)sym_u32("proto");
  static const socklen_t sizes[] = {0, 2, 16, 28, 110, 128}; socklen_t n = sizes[sym_choose(6, "size")];
  symx_bytes(a.address_data(), n, "data"); a.address_size() = n;
}
extern "C" {
void ad_value() {
  uint64_t before = symx_live_heap();
  {
    address a; CHECK(a.address_size() == sizeof(sockaddr_storage) && a.family() == 0 && a.socket_type() == 0 && a.protocol() == 0, "a new address is empty and has room for any kind"); fill(a); snap s = take(a);
    switch (sym_choose(5, "op")) {
      case 0: { address b(a); same(s, b, "a copy equals the original"); same(s, a, "copying leaves the original alone"); CHECK(b.address_data() != a.address_data(), "a copy owns its bytes"); fill(b); same(s, a, "changing the copy leaves the original alone"); break; }
      case 1: { address b(std::move(a)); same(s, b, "moving keeps the value"); address c(b); same(s, c, "a copy of a moved address equals it"); break; }
      case 2: { address* p = new address(a); address b(std::move(*p)); delete p; same(s, b, "the destination outlives the source"); break; }
      case 3: { std::vector<address> v; v.push_back(a); v.push_back(a); v.push_back(std::move(a)); for (auto& x : v) same(s, x, "addresses survive in a growing vector"); v.pop_back(); same(s, v[0], "removing one leaves the others"); break; }
      default: { address b(std::move(a)); address c(std::move(b)); address d(std::move(c)); same(s, d, "moving repeatedly keeps the value"); const address& k = d; CHECK(static_cast<const void*>(k.address_data()) == d.address_data(), "accessors agree"); }
    }
  }
  CHECK(symx_live_heap() == before, "nothing is leaked");
  symx_reach("done");
}
void ad_list() {
  uint64_t before = symx_live_heap(); g_freed = 0; const size_t n = sym_choose(symx_param(0, 3) + 1, "n"), m = sym_choose(3, "m");
  {
    std::vector<snap> s; addrinfo* h = list(n); std::vector<const void*> at; for (auto* a = h; a; a = a->ai_next) { at.push_back(a); s.push_back(take(*reinterpret_cast<address*>(a))); }
    address_list l = peek::wrap(h); const address_list& c = l;
    CHECK(l.size() == n && l.empty() == (n == 0), "size and emptiness");
    size_t i = 0; for (address& a : l) { CHECK(i < n && &a == at[i], "results are visited in order"); same(s[i], a, "each result is the resolver's"); i++; } CHECK(i == n, "every result is visited");
    i = 0; for (auto it = c.begin(); it != c.end(); it++, i++) { CHECK(&*it == at[i] && it.operator->() == at[i], "const iteration"); } CHECK(i == n, "const iteration visits all");
    i = 0; for (auto it = c.cbegin(); it != c.cend(); ++i) { auto old = it++; CHECK(&*old == at[i], "post-increment returns the old position"); auto same_ = old; CHECK(same_ == old && !(same_ != old) && old != it, "iterators compare by position"); swap(same_, it); CHECK(&*it == at[i], "iterators swap"); ++it; } CHECK(i == n, "const iteration visits all");
    i = 0; for (auto it = l.begin(); it != l.end(); ++i) { address_list::const_iterator ci(it); CHECK(ci->family() == s[i].f, "iterators convert"); auto old = it++; CHECK(&*old == at[i] && old->family() == s[i].f, "post-increment returns the old position"); auto o2 = old; CHECK(o2 == old && old != it && !(o2 != old), "iterators compare by position"); swap(o2, it); CHECK(&*it == at[i], "iterators swap"); ++it; }
    CHECK(i == n && address_list::iterator() == l.end() && address_list::const_iterator() == c.end(), "end of the list");
    std::vector<address> keep; for (auto& a : c) keep.push_back(a);
    address_list l2 = std::move(l); CHECK(l2.size() == n && g_freed == 0, "moving a list keeps it alive"); CHECK(l.empty(), "a moved-from list is empty");
    if (m) { address_list l3 = peek::wrap(nullptr); l3 = std::move(l2); CHECK(l3.size() == n && g_freed == 0, "assigning a list keeps it alive"); if (m == 2) { l3 = peek::wrap(nullptr); CHECK(g_freed == (n ? 1 : 0), "the old list is released on assignment"); } }
    for (size_t k = 0; k < n; k++) same(s[k], keep[k], "copies of results outlive the list");
  }
  CHECK(g_freed == (n ? 1 : 0), "the results are released exactly once");
  CHECK(symx_live_heap() == before, "nothing is leaked");
  symx_reach("done");
}
void ad_string() {
  address a; fill(a);
  size_t hn = sym_choose(5, "hostlen"), pn = sym_choose(4, "portlen"); symx_bytes(g_host, hn, "host"); g_host[hn] = 0; symx_bytes(g_port, pn, "port"); g_port[pn] = 0;
  int colon = 0; for (size_t i = 0; i < hn; i++) { symx_assume(g_host[i] != 0); colon |= g_host[i] == ':'; } for (size_t i = 0; i < pn; i++) symx_assume(g_port[i] != 0);
  static const int codes[] = {0, EAI_AGAIN, EAI_FAMILY, EAI_SYSTEM}; g_gni_result = codes[sym_choose(4, "result")];
  try {
    std::string s = a.as_string(); CHECK(g_gni_result == 0, "failure to print is reported");
    CHECK(static_cast<const void*>(g_gni_addr) == a.address_data() && g_gni_len == a.address_size(), "the whole address is printed");
    std::string want = colon ? "[" + std::string(g_host) + "]:" + g_port : std::string(g_host) + ":" + g_port;
    CHECK(s.size() == want.size(), "printed as host:port or [host]:port"); int ok = 1; for (size_t i = 0; i < s.size() && i < want.size(); i++) ok &= s[i] == want[i]; CHECK(ok, "printed as host:port or [host]:port");
  } catch (const arpc::errors::io_error& e) { CHECK(g_gni_result != 0, "only failure is reported"); CHECK(std::string(e.what()) == "Can't print address as string: " + std::to_string(g_gni_result), "the failure's code is reported"); }
  symx_reach("done");
}
void ad_endpoint() {
  endpoint e; std::string name, service; bool passive = false; int family = AF_UNSPEC, type = SOCK_STREAM;
  for (uint64_t i = 0, n = symx_param(0, 3); i < n; i++) {
    endpoint* r = nullptr;
    switch (sym_choose(10, "op")) {
      case 0: { name.assign(sym_choose(3, "len"), 0); symx_bytes(&name[0], name.size(), "name"); r = &e.name(name); break; }
      case 1: { service.assign(sym_choose(3, "len"), 0); symx_bytes(&service[0], service.size(), "service"); r = &e.service(service); break; }
      case 2: { static const int ports[] = {0, 7, 80, 443, 65535}; int p = ports[sym_choose(5, "port")]; service = p == 0 ? "0" : p == 7 ? "7" : p == 80 ? "80" : p == 443 ? "443" : "65535"; r = &e.port(p); break; }
      case 3: passive = true; r = &e.passive(); break;
      case 4: passive = false; r = &e.active(); break;
      case 5: type = SOCK_STREAM; r = &e.stream(); break;
      case 6: type = SOCK_DGRAM; r = &e.datagram(); break;
      case 7: family = AF_UNSPEC; r = &e.ip(); break;
      case 8: family = AF_INET; r = &e.ipv4(); break;
      default: family = AF_INET6; r = &e.ipv6();
    }
    CHECK(r == &e, "setters can be chained");
  }
  endpoint copy(e); endpoint moved(std::move(e)); endpoint asg; asg = copy;
  for (endpoint* p : {&copy, &moved, &asg}) CHECK(peek::name(*p) == name && peek::service(*p) == service && peek::passive(*p) == passive && peek::family(*p) == family && peek::type(*p) == type, "an endpoint holds the settings last given to it");
  symx_reach("done");
}
}
