// Interfaces, objects and connections for the RPC harnesses.
#pragma once
#include <atomic>
#include <chrono>
#include <deque>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <string.h>
#include <thread>
#include <utility>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/connection.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/interface.h"
#include "arpc/object_name.h"
#include "arpc/queue.h"
#include "arpc/result_holder.h"
#include "arpc/select.h"
#include "arpc/string_adapters.h"
#include "arpc/type_hash.h"
#include "arpc/wait.h"
#include "kern.h"
#include "symx.h"
using namespace arpc;
using ms = std::chrono::milliseconds;
extern "C" int getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**) { CHECK(false, "no name is looked up"); return 1; }
extern "C" void freeaddrinfo(struct addrinfo*) noexcept {}
inline void settle(int64_t t = 1) { shield s; auto [r] = select(arpc::timeout(ms(t))); CHECK((bool)r, "time passes"); }
using text = std::string;
ARPC_INTERFACE(base_service, (), (((int), add, (((int), a), ((int), b)))));
ARPC_INTERFACE(service, ((base_service)), (((std::string), echo, (((const std::string&), what))), ((void), fail, (((int), how))), ((void), wait, (((int), time)))));
inline void raise(int how) {
  if (how == 1) throw errors::not_found("nothing");
  if (how == 2) throw errors::try_again("busy");
  if (how == 3) throw std::runtime_error("odd");
  if (how == 4) throw errors::cancelled("stop");
}
// What a call saw.
struct seen_t { std::atomic<int> calls{0}, ended{0}, cancelled{0}, expired{0}; std::optional<context::time_point> deadline; };
struct impl : service {
  explicit impl(seen_t& s) : seen(s) {}
  int add(int a, int b) override { seen.calls++; seen.deadline = context::current().deadline(); return (int)((unsigned)a + (unsigned)b); }
  std::string echo(const std::string& w) override { seen.calls++; return w + "!"; }
  void fail(int how) override { seen.calls++; raise(how); }
  void wait(int t) override {
    seen.calls++;
    try { auto [r] = select(arpc::timeout(ms(t))); }
    catch (const errors::cancelled&) { seen.cancelled++; seen.ended++; throw; }
    catch (const errors::deadline_exceeded&) { seen.expired++; seen.ended++; throw; }
    seen.ended++;
  }
  seen_t& seen;
};
using enc = little_endian_binary_encoder;
using dec = little_endian_binary_decoder;
using rpc_defs::message_type;
template <class... A, class... V> void put_args(enc& e, V&&... v) { std::tuple<A...> t(std::forward<V>(v)...); e(t); }
// A request packet, spelled out.
template <class F> std::string request(uint32_t id, const std::string& object, const std::string& method, uint32_t hash, context& ctx, F&& args) {
  std::string s; string_output_stream os(s);
  { enc e(os); e(message_type::REQUEST); e(id); }
  { enc e(os); e(object); e(method); e(hash); e(ctx); }
  { enc e(os); args(e); }
  return s;
}
inline std::string cancellation(uint32_t id) { std::string s; string_output_stream os(s); enc e(os); e(message_type::CANCEL_REQUEST); e(id); return s; }
template <class T> std::string response(uint32_t id, result_holder<T>& r) {
  std::string s; string_output_stream os(s);
  { enc e(os); e(message_type::RESPONSE); e(id); }
  { enc e(os); e(r); }
  return s;
}
template <auto m> constexpr uint32_t hash_of() { return traits::type_hash_v<typename method_descriptor<m>::method_type>; }
// Reads a response; returns its id.
template <class T> uint32_t answer(const std::string& s, result_holder<T>& r) {
  string_input_stream is(s);
  message_type t; uint32_t id;
  { dec d(is); d(t); d(id); }
  CHECK(t == message_type::RESPONSE, "a response");
  { dec d(is); d(r); }
  CHECK(is.pos() == s.size(), "and nothing else");
  return id;
}
