// C26: the class, codec, hierarchy and error registries under arbitrary names.
#include "types.h"
#include "arpc/registry.h"
#include "arpc/serializable.h"
using namespace arpc;
struct root : dynamic<root> { uint8_t v = 1; ARPC_FIELDS(v); };
struct leftc : dynamic<leftc, root> { uint16_t v2 = 2; ARPC_FIELDS(v2); };
struct rightc : dynamic<rightc, root> { uint32_t v3 = 3; ARPC_FIELDS(v3); };
struct plain { virtual ~plain() {} uint64_t pad = 5; using field_descriptors = mpt::pack<field_descriptor<&plain::pad>>; };
struct bottom : dynamic<bottom, plain, leftc> { bool v4 = true; ARPC_FIELDS(v4); };
struct alien : dynamic<alien> { int8_t v5 = 5; ARPC_FIELDS(v5); };
namespace arpc::detail {
template <> std::string_view dynamic_class_descriptor<root>::class_name = "#root";
template <> std::string_view dynamic_class_descriptor<leftc>::class_name = "#left";
template <> std::string_view dynamic_class_descriptor<rightc>::class_name = "#right";
template <> std::string_view dynamic_class_descriptor<bottom>::class_name = "#bottom";
template <> std::string_view dynamic_class_descriptor<alien>::class_name = "#alien";
}
enum { ROOT, LEFT, RIGHT, BOTTOM, ALIEN, N };
static const char* const kId[] = {"#root", "#left", "#right", "#bottom", "#alien"};
static const bool kIsA[N][N] = {{1}, {1, 1}, {1, 0, 1}, {1, 1, 0, 1}, {0, 0, 0, 0, 1}};   // [class][ancestor]
template <typename T> constexpr int idx = std::is_same_v<T, root> ? ROOT : std::is_same_v<T, leftc> ? LEFT : std::is_same_v<T, rightc> ? RIGHT : std::is_same_v<T, bottom> ? BOTTOM : ALIEN;
// Two kinds of codecs that only note what they were asked to do.
template <int K> struct noting { int calls = 0, cls = -1; const void* at = nullptr; template <typename T> void operator()(const T& o) { calls++; cls = idx<T>; at = static_cast<const dynamic_base_class*>(&o); } };
using enc1 = noting<1>; using enc2 = noting<2>; using dec1 = noting<3>; using dec2 = noting<4>;
using registry::dynamic_object_factory;
template <typename F> int code(F f) { try { f(); return 0; } catch (const errors::invalid_state&) { return 1; } catch (const errors::not_found&) { return 2; } catch (...) { return 3; } }
struct name { char s[4]; size_t n; std::string_view view() const { return {s, n}; } };
static name arb_name(const char* label, size_t lim) { name r{}; r.n = sym_choose(lim + 1, "len"); symx_bytes(r.s, r.n, label); return r; }
static bool same(const name& a, const name& b) { if (a.n != b.n) return false; int e = 1; for (size_t i = 0; i < a.n; i++) e &= a.s[i] == b.s[i]; return e; }
template <typename T> std::string_view reg1(std::string_view n) { return dynamic_object_factory::get().register_class<T, mpt::pack<enc1, enc2>, mpt::pack<dec1, dec2>>(n); }
static std::string_view reg(int c, std::string_view n) { switch (c) { case ROOT: return reg1<root>(n); case LEFT: return reg1<leftc>(n); case RIGHT: return reg1<rightc>(n); case BOTTOM: return reg1<bottom>(n); default: return reg1<alien>(n); } }
static const uint32_t kHash[] = {traits::type_hash_v<root>, traits::type_hash_v<leftc>, traits::type_hash_v<rightc>, traits::type_hash_v<bottom>, traits::type_hash_v<alien>};
template <typename S, typename R> void codec(R& r, std::string_view q, int want, dynamic_base_class& o) {
  S s; int e = code([&] { auto i = r[q]; if constexpr (std::is_same_v<R, registry::dynamic_encoder_registry<S>>) i.encoder_function(s, o); else i.decoder_function(s, o); });
  if (want < 0) { CHECK(e == 2 && !s.calls, "no codec under an unknown name"); return; }
  CHECK(e == 0 && s.calls == 1 && s.cls == want && s.at == &o, "the codec of that class handles the object");
}
static void look(std::string_view q, int want) {
  std::unique_ptr<dynamic_base_class> o; uint32_t h = 0;
  int e = code([&] { auto i = dynamic_object_factory::get()[q]; o.reset(i.factory_function()); h = i.type_hash; });
  if (want < 0) { CHECK(e == 2 && !o, "an unknown name is not found"); o = std::make_unique<alien>(); }
  else { CHECK(e == 0 && o, "a registered name is found"); if (!o) return; CHECK(o->portable_class_name() == kId[want], "the factory makes that class"); CHECK(h == kHash[want], "the hash of that class"); }
  codec<enc1>(registry::dynamic_encoder_registry<enc1>::get(), q, want, *o); codec<enc2>(registry::dynamic_encoder_registry<enc2>::get(), q, want, *o);
  codec<dec1>(registry::dynamic_decoder_registry<dec1>::get(), q, want, *o); codec<dec2>(registry::dynamic_decoder_registry<dec2>::get(), q, want, *o);
}
static bool is_sub(int a, std::string_view q) { switch (a) { case ROOT: return registry::dynamic_subclass_registry<root>::get().is_subclass(q); case LEFT: return registry::dynamic_subclass_registry<leftc>::get().is_subclass(q); case RIGHT: return registry::dynamic_subclass_registry<rightc>::get().is_subclass(q); case BOTTOM: return registry::dynamic_subclass_registry<bottom>::get().is_subclass(q); default: return registry::dynamic_subclass_registry<alien>::get().is_subclass(q); } }
// The codec registries of one codec each, used directly; classes made known as subclasses only.
template <typename S, typename R> static void direct(size_t lim) {
  R& r = R::get(); static name names[3]; int cls[3]; bool ok[3]; dynamic_base_class* objs[] = {new root, new leftc, new alien};
  for (int i = 0; i < 3; i++) {
    names[i] = arb_name("name", lim); cls[i] = sym_choose(3, "class"); bool dup = false; for (int j = 0; j < i; j++) if (ok[j] && same(names[i], names[j])) dup = true;
    int e = code([&] { if (cls[i] == 0) r.template register_class<root>(names[i].view()); else if (cls[i] == 1) r.template register_class<leftc>(names[i].view()); else r.template register_class<alien>(names[i].view()); }); ok[i] = !dup;
    CHECK(e == (dup ? 1 : 0), "a name is accepted once");
  }
  name q = arb_name("lookup", lim); int want = -1; for (int i = 0; i < 3; i++) if (ok[i] && same(q, names[i])) want = cls[i];
  codec<S>(r, q.view(), want == 2 ? ALIEN : want, *objs[want < 0 ? 0 : want]);
  CHECK(code([&] { dynamic_object_factory::get()[q.view()]; }) == 2, "other registries are untouched");
}
extern "C" {
// p0 registrations under arbitrary names, then any name is looked up.
void rg_names() {
  const int n = symx_param(0, 2); const size_t lim = symx_param(1, 1); static name names[4]; int cls[4]; bool ok[4];
  for (int i = 0; i < n; i++) {
    names[i] = arb_name("name", lim); cls[i] = sym_choose(i ? N : 2, "class") + (i ? 0 : 2 * LEFT); bool dup = false; for (int j = 0; j < i; j++) if (ok[j] && same(names[i], names[j])) dup = true;
    std::string_view back; int e = code([&] { back = reg(cls[i], names[i].view()); }); ok[i] = !dup;
    CHECK(e == (dup ? 1 : 0), "a name is accepted once"); if (!dup) CHECK(back == names[i].view(), "the name is passed on");
  }
  name q = arb_name("lookup", lim); int want = -1; for (int i = 0; i < n; i++) if (ok[i] && same(q, names[i])) want = cls[i];
  look(q.view(), want);
  for (int a = 0; a < N; a++) CHECK(is_sub(a, q.view()) == (want >= 0 && kIsA[want][a]), "a subclass of exactly its ancestors");
  symx_reach(want < 0 ? "unknown" : "known");
}
void rg_codecs() {
  const size_t lim = symx_param(0, 1);
  switch (sym_choose(3, "registry")) {
    case 0: direct<enc1, registry::dynamic_encoder_registry<enc1>>(lim); break;
    case 1: direct<dec1, registry::dynamic_decoder_registry<dec1>>(lim); break;
    default: {
      static name a, b; a = arb_name("a", lim); b = arb_name("b", lim);
      registry::dynamic_subclass_registry<bottom>::get().register_subclass(a.view()); registry::dynamic_subclass_registry<rightc>::get().register_subclass(b.view());
      name q = arb_name("lookup", lim); bool isA = same(q, a), isB = same(q, b);
      for (int k = 0; k < N; k++) CHECK(is_sub(k, q.view()) == ((isA && kIsA[BOTTOM][k]) || (isB && kIsA[RIGHT][k])), "a subclass of exactly its ancestors");
    }
  }
  symx_reach("done");
}
// Many names: one free name among fixed ones, in any position of their order.
void rg_many() {
  static const char* const fixed[] = {"", "a", "aa", "ab", "abc", "b", "ba", "zz"}; size_t n = 0;
  name r = arb_name("name", 3); size_t when = sym_choose(9, "when"); int cls = sym_choose(N, "class"); bool dup = false;
  for (size_t i = 0; i <= 8; i++) {
    if (i == when) { for (size_t j = 0; j < i; j++) { name f{}; f.n = strlen(fixed[j]); memcpy(f.s, fixed[j], f.n); dup |= same(r, f); } int e = code([&] { reg(cls, r.view()); }); CHECK(e == (dup ? 1 : 0), "a name is accepted once"); }
    if (i < 8) { name f{}; f.n = strlen(fixed[i]); memcpy(f.s, fixed[i], f.n); bool d = i >= when && same(r, f) && !dup; int e = code([&] { reg(i % N, fixed[i]); }); CHECK(e == (d ? 1 : 0), "a name is accepted once"); if (d) n |= 1u << i; }
  }
  for (size_t i = 0; i < 8; i++) look(fixed[i], n >> i & 1 ? cls : i % N);
  if (!dup && !n) look(r.view(), cls);
  symx_reach("done");
}
}
// ---- errors
struct err_a : errors::base_error { using base_error::base_error; std::string_view portable_error_class_name_internal() const override { return "a"; } };
struct err_b : errors::base_error { using base_error::base_error; std::string_view portable_error_class_name_internal() const override { return "b"; } };
static int thrown(std::string_view q, const char* what) {
  int c = -1; try { error_factory::get().throw_error(q, what); } catch (const err_a& e) { c = 0; CHECK(!strcmp(e.what(), what), "the message"); } catch (const err_b& e) { c = 1; CHECK(!strcmp(e.what(), what), "the message"); } catch (const errors::eof& e) { c = 2; CHECK(!strcmp(e.what(), what), "the message"); } catch (const errors::unknown_error& e) { c = 3; CHECK(!strcmp(e.what(), what), "the message"); } catch (...) { c = 4; } return c;
}
static name err_name(const char* l, size_t lim) { if (sym_choose(2, "near")) { name r{}; memcpy(r.s, "eof", r.n = 3); r.s[1] = (char)sym_u8(l); return r; } return arb_name(l, lim); }
extern "C" void rg_errors() {
  static name a, b; const size_t lim = symx_param(0, 2); a = err_name("a", lim); b = err_name("b", lim); name eof{}; memcpy(eof.s, "eof", 3); eof.n = 3; bool da = same(a, eof), db = same(b, eof) || (!da && same(a, b));
  int ea = code([&] { error_factory::get().register_error_class<err_a>(a.view()); }), eb = code([&] { error_factory::get().register_error_class<err_b>(b.view()); });
  CHECK(ea == da && eb == db, "an error class name is accepted once");
  name q = err_name("lookup", lim); int want = !da && same(q, a) ? 0 : !db && same(q, b) ? 1 : same(q, eof) ? 2 : 3;
  CHECK(thrown(q.view(), "text") == want, "exactly the class registered, or the unknown error"); CHECK(thrown("eof", "x") == 2, "other registrations are untouched");
  symx_reach("done");
}
