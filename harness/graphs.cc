// C06: pointer graphs keep their shape; C07: polymorphic pointers.
#include "types.h"
#include "ref.h"
#include "arpc/serializable.h"
#include "arpc/config.h"
template <typename F> void orders(F f) { if (sym_choose(2, "byteorder")) f(BE{}); else f(LE{}); symx_reach("done"); }

// ---- arbitrary graphs of N nodes with two shared and one weak edge each
struct gnode : arpc::serializable<gnode> { uint8_t v = 0; std::shared_ptr<gnode> a; std::weak_ptr<gnode> w; ARPC_FIELDS(a, v, w); };
template <typename O> void graph(O) {
  const unsigned N = symx_param(0, 2), R = symx_param(1, 2);
  std::vector<std::shared_ptr<gnode>> n(N);
  for (auto& x : n) { x = std::make_shared<gnode>(); x->v = make<uint8_t>("v"); }
  auto pick = [&](const char* nm) { uint64_t k = sym_choose(N + 1, nm); return k ? n[k - 1] : std::shared_ptr<gnode>(); };
  for (auto& x : n) { x->a = pick("a"); x->w = pick("w"); }
  std::vector<std::shared_ptr<gnode>> roots; for (unsigned i = 0; i < R; i++) roots.push_back(pick("root"));
  std::weak_ptr<gnode> wroot = pick("wroot");
  std::string w; arpc::string_output_stream os(w); typename O::enc e(os);
  for (auto& r : roots) e(r);
  e(wroot);
  arpc::string_input_stream is(w); typename O::dec d(is);
  std::vector<std::shared_ptr<gnode>> in(R); std::weak_ptr<gnode> inw;
  auto old = std::make_shared<gnode>(); old->v = 0x77; old->w = old; if (R) in[0] = old; inw = old;   // read over something else
  try { for (auto& r : in) d(r); d(inw); } catch (...) { CHECK(false, "decoding what was encoded must not fail"); return; }
  CHECK(is.pos() == w.size(), "graph consumed exactly");
  // Walk both graphs in step and relate their nodes.
  std::vector<std::pair<gnode*, gnode*>> rel; size_t slots = 0;
  auto relate = [&](gnode* x, gnode* y) {
    slots++;
    CHECK(!x == !y, "null stays null");
    if (!x || !y) return;
    for (auto& p : rel) { if (p.first == x || p.second == y) { CHECK(p.first == x && p.second == y, "pointers are equal exactly where they were"); return; } }
    rel.push_back({x, y});
  };
  for (unsigned i = 0; i < R; i++) relate(roots[i].get(), in[i].get());
  relate(wroot.lock().get(), inw.lock().get());
  for (size_t i = 0; i < rel.size(); i++) {
    auto [x, y] = rel[i];
    CHECK(x->v == y->v, "node contents survive");
    relate(x->a.get(), y->a.get()); relate(x->w.lock().get(), y->w.lock().get());
  }
  CHECK(w.size() == slots + rel.size(), "each object is transmitted once");
  for (auto& p : rel) CHECK(p.second != old.get(), "what was there before is let go of");
  CHECK(old.use_count() == 1, "what was there before is let go of"); CHECK(old->v == 0x77 && !old->a && old->w.lock() == old, "and unharmed");
  for (auto& x : n) x->a.reset();
  for (auto& p : rel) p.second->a.reset();
}
extern "C" void pg_graph() { orders([](auto o) { graph(o); }); }

// ---- pointers of several types in one stream, containers of pointers,
// pointers inside values
struct holder : arpc::serializable<holder> { std::shared_ptr<uint16_t> p; std::vector<std::shared_ptr<std::string>> v; std::optional<std::shared_ptr<uint16_t>> o; ARPC_FIELDS(p, v, o); };
template <typename O> void mixed(O) {
  auto n1 = std::make_shared<uint16_t>(make<uint16_t>("n1")), n2 = std::make_shared<uint16_t>(make<uint16_t>("n2"));
  auto s1 = std::make_shared<std::string>(make<std::string>("s1", 1)), s2 = std::make_shared<std::string>("x");
  auto num = [&](const char* k) { switch (sym_choose(3, k)) { case 0: return std::shared_ptr<uint16_t>(); case 1: return n1; default: return n2; } };
  auto str = [&](const char* k) { switch (sym_choose(3, k)) { case 0: return std::shared_ptr<std::string>(); case 1: return s1; default: return s2; } };
  holder h; h.p = num("p"); h.v = {str("v0"), str("v1")}; if (sym_choose(2, "has")) h.o = num("o");
  std::map<uint8_t, std::shared_ptr<uint16_t>> m; m[1] = num("m1"); m[2] = nullptr;
  std::shared_ptr<std::string> t = str("t"); std::shared_ptr<std::shared_ptr<uint16_t>> pp = std::make_shared<std::shared_ptr<uint16_t>>(num("pp"));
  std::string w; arpc::string_output_stream os(w); typename O::enc e(os); e(h); e(m); e(t); e(pp);
  arpc::string_input_stream is(w); typename O::dec d(is);
  holder h2; h2.v.resize(3); std::map<uint8_t, std::shared_ptr<uint16_t>> m2; m2[9] = n1; std::shared_ptr<std::string> t2 = s2; std::shared_ptr<std::shared_ptr<uint16_t>> pp2;
  try { d(h2); d(m2); d(t2); d(pp2); } catch (...) { CHECK(false, "decoding what was encoded must not fail"); return; }
  CHECK(is.pos() == w.size(), "stream consumed exactly");
  CHECK(h2.v.size() == 2 && h2.o.has_value() == h.o.has_value() && m2.size() == 2 && m2.count(1) && m2.count(2) && pp2, "values around the pointers survive");
  auto shape = [&](auto&& a, auto&& b, int k) { for (int i = 0; i < k; i++) { CHECK(!a[i] == !b[i], "null stays null"); if (a[i]) CHECK(eq(*a[i], *b[i]), "pointed-to value survives"); for (int j = 0; j < i; j++) CHECK((a[i] == a[j]) == (b[i] == b[j]), "pointers are equal exactly where they were"); } };
  std::shared_ptr<uint16_t> ax[] = {h.p, h.o ? *h.o : nullptr, m[1], m[2], *pp}, bx[] = {h2.p, h2.o ? *h2.o : nullptr, m2[1], m2[2], *pp2};
  shape(ax, bx, 5);
  std::shared_ptr<std::string> ay[] = {h.v[0], h.v[1], t}, by[] = {h2.v[0], h2.v[1], t2};
  shape(ay, by, 3);
}
extern "C" void pg_mixed() { orders([](auto o) { mixed(o); }); }

// ---- a long-lived encoder: objects that no longer exist when later ones are
// created must not be confused with them
template <typename O> void history(O) {
  std::string w; arpc::string_output_stream os(w); typename O::enc e(os);
  const unsigned N = symx_param(0, 3); std::vector<uint16_t> val; std::vector<int> id; std::shared_ptr<uint16_t> cur; int next = 0;
  for (unsigned i = 0; i < N; i++) {
    if (!cur || sym_choose(2, "fresh")) { cur.reset(); cur = std::make_shared<uint16_t>(make<uint16_t>("v")); next++; }
    e(cur); val.push_back(*cur); id.push_back(next);
  }
  arpc::string_input_stream is(w); typename O::dec d(is); std::vector<std::shared_ptr<uint16_t>> in(N);
  try { for (auto& p : in) d(p); } catch (...) { CHECK(false, "decoding what was encoded must not fail"); return; }
  for (unsigned i = 0; i < N; i++) { CHECK(in[i] && *in[i] == val[i], "pointed-to value survives"); for (unsigned j = 0; j < i; j++) CHECK((in[i] == in[j]) == (id[i] == id[j]), "pointers are equal exactly where they were"); }
}
extern "C" void pg_history() { orders([](auto o) { history(o); }); }

// ---- an encoder and decoder that fall out of step
template <typename O> void misuse(O) {
  // ids: arbitrary first and second object numbers; second read with another type
  uint64_t id1 = sym_u8("id1"), id2 = sym_u8("id2"); symx_assume(id1 < 128); symx_assume(id2 < 128);
  std::string w; w.push_back((char)id1); if (id1 == 1) w += "\x07"; w.push_back((char)id2); w += "\x05\x06";
  arpc::string_input_stream is(w); typename O::dec d(is);
  std::shared_ptr<uint8_t> p = std::make_shared<uint8_t>(9), old = p, q = p;
  bool ok = true;
  try { d(p); } catch (const arpc::errors::data_mismatch&) { ok = false; } catch (...) { CHECK(false, "a wrong object number is a data mismatch"); }
  CHECK(ok == (id1 <= 1), "object numbers out of sequence are rejected, others accepted");
  if (!ok) { CHECK(*old == 9, "rejected pointer does not touch other objects"); return; }
  CHECK(id1 ? p && *p == 7 : !p, "object number zero is null, a new one is an object");
  unsigned known = id1 == 1 ? 1 : 0;
  ok = true;
  if (sym_choose(2, "sametype")) {
    try { d(q); } catch (const arpc::errors::data_mismatch&) { ok = false; } catch (...) { CHECK(false, "a wrong object number is a data mismatch"); }
    CHECK(ok == (id2 <= known + 1), "object numbers out of sequence are rejected, others accepted");
    if (ok && id2 && id2 <= known) CHECK(q == p, "a repeated number is the same object");
    if (ok && id2 == known + 1) CHECK(q && q != p && *q == 5, "a new number is a new object");
    if (ok && !id2) CHECK(!q, "number zero is null");
  } else {
    std::shared_ptr<int8_t> r; bool weak = sym_choose(2, "weak"); std::weak_ptr<int8_t> wr;
    try { if (weak) d(wr); else d(r); } catch (const arpc::errors::data_mismatch&) { ok = false; } catch (...) { CHECK(false, "a wrong object number is a data mismatch"); }
    CHECK(ok == (id2 == 0 || id2 == known + 1), "an object is only accepted under its own pointer type");
    if (ok && id2 && !weak) CHECK(r && *r == 5, "a new number is a new object");
  }
}
extern "C" void pg_misuse() { orders([](auto o) { misuse(o); }); }

// ================================================================= C07
struct base : arpc::dynamic<base> { uint8_t b = 0; ARPC_FIELDS(b); };
struct leaf1 : arpc::dynamic<leaf1, base> { uint16_t x = 0; ARPC_FIELDS(x); };
struct leaf2 : arpc::dynamic<leaf2, base> { std::string s; std::unique_ptr<base> child; ARPC_FIELDS(s, child); };
struct deep : arpc::dynamic<deep, leaf1> { bool y = false; ARPC_FIELDS(y); };
struct other : arpc::dynamic<other> { uint8_t z = 0; ARPC_FIELDS(z); };
struct plain_poly { virtual ~plain_poly() {} uint32_t pp = 0; using field_descriptors = arpc::mpt::pack<arpc::field_descriptor<&plain_poly::pp>>; static const std::array<const char*, 1>& field_names() { static const std::array<const char*, 1> n{"pp"}; return n; } };
struct offset : arpc::dynamic<offset, plain_poly, base> { uint8_t o = 0; ARPC_FIELDS(o); };
struct ring : arpc::dynamic<ring, base> { std::shared_ptr<base> next; std::weak_ptr<ring> back; ARPC_FIELDS(next, back); };
ARPC_REGISTER(base);
ARPC_REGISTER(leaf1);
ARPC_REGISTER(leaf2);
ARPC_REGISTER_WITH_NAME("a.deep/class", deep);
ARPC_REGISTER(other);
ARPC_REGISTER(offset);
ARPC_REGISTER(ring);

static const char* kNames[] = {"base", "leaf1", "leaf2", "a.deep/class", "offset"};
static std::unique_ptr<base> arb(int depth) {
  switch (sym_choose(depth ? 6 : 5, "class")) {
    case 0: { auto p = std::make_unique<base>(); p->b = make<uint8_t>("b"); return p; }
    case 1: { auto p = std::make_unique<leaf1>(); p->b = make<uint8_t>("b"); p->x = make<uint16_t>("x"); return p; }
    case 2: { auto p = std::make_unique<deep>(); p->b = make<uint8_t>("b"); p->x = make<uint16_t>("x"); p->y = make<bool>("y"); return p; }
    case 3: { auto p = std::make_unique<offset>(); p->b = make<uint8_t>("b"); p->pp = make<uint32_t>("pp"); p->o = make<uint8_t>("o"); return p; }
    case 4: return nullptr;
    default: { auto p = std::make_unique<leaf2>(); p->b = make<uint8_t>("b"); p->s = make<std::string>("s", 1); p->child = arb(depth - 1); return p; }
  }
}
static void same(const base* x, const base* y) {
  CHECK(!x == !y, "null stays null");
  if (!x || !y) return;
  auto n = x->portable_class_name();
  CHECK(n == y->portable_class_name(), "dynamic class survives");
  CHECK(x->b == y->b, "base fields survive");
  if (n == "leaf1" || n == "a.deep/class") CHECK(static_cast<const leaf1*>(x)->x == static_cast<const leaf1*>(y)->x, "fields survive");
  if (n == "a.deep/class") CHECK(static_cast<const deep*>(x)->y == static_cast<const deep*>(y)->y, "fields survive");
  if (n == "offset") CHECK(static_cast<const offset*>(x)->pp == static_cast<const offset*>(y)->pp && static_cast<const offset*>(x)->o == static_cast<const offset*>(y)->o, "fields survive");
  if (n == "leaf2") { CHECK(eq(static_cast<const leaf2*>(x)->s, static_cast<const leaf2*>(y)->s), "fields survive"); same(static_cast<const leaf2*>(x)->child.get(), static_cast<const leaf2*>(y)->child.get()); }
}
// Several polymorphic pointers in one stream, owned uniquely or shared.
template <typename O> void poly(O) {
  const unsigned N = symx_param(0, 2), depth = symx_param(1, 1);
  std::vector<std::unique_ptr<base>> u; std::vector<bool> sh; std::vector<std::shared_ptr<base>> s;
  std::string w; uint64_t before = symx_live_heap();
  {
    arpc::string_output_stream os(w); typename O::enc e(os);
    for (unsigned i = 0; i < N; i++) { std::unique_ptr<base> p = arb(i ? 0 : depth); bool k = sym_choose(2, "shared"); sh.push_back(k); if (k) { s.push_back(std::move(p)); u.push_back(nullptr); e(s.back()); } else { e(p); u.push_back(std::move(p)); s.push_back(nullptr); } }
    arpc::string_input_stream is(w); typename O::dec d(is);
    for (unsigned i = 0; i < N; i++) {
      try {
        if (sh[i]) { std::shared_ptr<base> p = std::make_shared<base>(); d(p); same(s[i].get(), p.get()); }
        else { std::unique_ptr<base> p = std::make_unique<leaf1>(); d(p); same(u[i].get(), p.get()); }
      } catch (...) { CHECK(false, "decoding what was encoded must not fail"); return; }
    }
    CHECK(is.pos() == w.size(), "stream consumed exactly");
    u.clear(); s.clear(); u.shrink_to_fit(); s.shrink_to_fit();
  }
}
extern "C" void pp_poly() { orders([](auto o) { poly(o); }); }
// Pointers to different static types sharing one object.
template <typename O> void statics(O) {
  auto a = std::make_shared<deep>(); a->b = make<uint8_t>("b"); a->x = make<uint16_t>("x"); a->y = make<bool>("y");
  auto o = std::make_shared<offset>(); o->b = make<uint8_t>("ob"); o->pp = make<uint32_t>("pp"); o->o = make<uint8_t>("oo");
  bool first = sym_choose(2, "derivedfirst"), useoff = sym_choose(2, "offset");
  std::string w; arpc::string_output_stream os(w); typename O::enc e(os); arpc::string_input_stream is(w); typename O::dec d(is);
  try {
    if (useoff) {
      std::shared_ptr<base> ob = o, ib; std::shared_ptr<offset> id;
      if (first) { e(o); e(ob); d(id); d(ib); } else { e(ob); e(o); d(ib); d(id); }
      CHECK(ib.get() == static_cast<base*>(id.get()), "pointers of related types to one object stay equal");
      CHECK(id->pp == o->pp && id->o == o->o && id->b == o->b, "fields survive under both types");
    } else {
      std::shared_ptr<base> ab = a, ib; std::shared_ptr<leaf1> al = a, il; std::shared_ptr<deep> id;
      if (first) { e(a); e(ab); e(al); d(id); d(ib); d(il); } else { e(ab); e(al); e(a); d(ib); d(il); d(id); }
      CHECK(ib.get() == id.get() && il.get() == id.get(), "pointers of related types to one object stay equal");
      CHECK(id->b == a->b && id->x == a->x && id->y == a->y, "fields survive under both types");
    }
  } catch (...) { CHECK(false, "decoding what was encoded must not fail"); return; }
  CHECK(is.pos() == w.size(), "stream consumed exactly");
}
extern "C" void pp_statics() { orders([](auto o) { statics(o); }); }
// Cycles through polymorphic pointers.
template <typename O> void rings(O) {
  auto r = std::make_shared<ring>(); r->b = make<uint8_t>("b"); auto s = std::make_shared<ring>(); auto l = std::make_shared<leaf1>(); l->x = make<uint16_t>("x");
  switch (sym_choose(4, "shape")) { case 0: r->next = r; break; case 1: r->next = s; s->next = r; s->back = r; break; case 2: r->next = l; r->back = r; break; default: r->next = s; s->next = l; r->back = s; }
  std::string w; arpc::string_output_stream os(w); typename O::enc e(os); arpc::string_input_stream is(w); typename O::dec d(is);
  e(r); std::shared_ptr<ring> q;
  try { d(q); } catch (...) { CHECK(false, "decoding what was encoded must not fail"); return; }
  base *x = r.get(), *y = q.get(); std::vector<std::pair<base*, base*>> rel;
  for (int i = 0; i < 4 && x && y; i++) {
    for (auto& p : rel) CHECK((p.first == x) == (p.second == y), "cycles are preserved");
    rel.push_back({x, y}); CHECK(x->portable_class_name() == y->portable_class_name() && x->b == y->b, "dynamic class and fields survive");
    if (x->portable_class_name() != "ring") { CHECK(static_cast<leaf1*>(x)->x == static_cast<leaf1*>(y)->x, "fields survive"); x = y = nullptr; break; }
    ring *rx = static_cast<ring*>(x), *ry = static_cast<ring*>(y); auto bx = rx->back.lock(), by = ry->back.lock();
    CHECK(!bx == !by && (bx == r) == (by == q), "weak pointers are preserved");
    x = rx->next.get(); y = ry->next.get(); CHECK(!x == !y, "null stays null");
  }
  auto brk = [](std::shared_ptr<ring> p) { for (int i = 0; i < 4 && p; i++) { auto n = p->next; p->next.reset(); p = n && n->portable_class_name() == "ring" ? std::static_pointer_cast<ring>(n) : nullptr; } };
  brk(r); brk(q);
}
extern "C" void pp_rings() { orders([](auto o) { rings(o); }); }

// ---- hostile streams naming classes
static void put_str(std::string& w, const char* s) { w.push_back((char)strlen(s)); w += s; }
template <typename O> void put_u32(std::string& w, uint32_t v) { for (int i = 0; i < 4; i++) w.push_back((char)(v >> 8 * (O::big ? 3 - i : i))); }
struct cls { const char* name; uint32_t hash; bool reg, sub_base, sub_leaf1; };
template <typename O> void named(O) {
  static const cls C[] = {{"base", arpc::traits::type_hash_v<base>, true, true, false}, {"leaf1", arpc::traits::type_hash_v<leaf1>, true, true, true}, {"a.deep/class", arpc::traits::type_hash_v<deep>, true, true, true},
    {"other", arpc::traits::type_hash_v<other>, true, false, false}, {"offset", arpc::traits::type_hash_v<offset>, true, true, false}, {"nosuch", 0, false, false, false}, {"leaf", 0, false, false, false}, {"leaf11", 0, false, false, false}, {"", 0, false, false, false}, {"deep", 0, false, false, false}};
  const cls& c = C[sym_choose(10, "name")]; uint8_t id = sym_u8("id"); symx_assume(id < 128); uint32_t h = sym_u32("hash");
  int kind = sym_choose(4, "pointer");   // unique/shared, to base/leaf1
  std::string w; if (kind & 1) w.push_back(1); else w.push_back(1);
  w.push_back((char)id); put_str(w, c.name); put_u32<O>(w, h); w.append(12, '\1');
  bool want = (kind & 2) ? c.sub_leaf1 : c.sub_base;
  arpc::string_input_stream is(w); typename O::dec d(is);
  int got = 0; uint64_t before = symx_live_heap();   // 0 value, 1 not found, 2 mismatch
  std::string_view dyn; uint8_t val = 0;
  auto run = [&](auto p) { d(p); dyn = p->portable_class_name(); val = p->b; };
  try { switch (kind) { case 0: run(std::unique_ptr<base>()); break; case 1: run(std::shared_ptr<base>()); break; case 2: run(std::unique_ptr<leaf1>()); break; default: run(std::shared_ptr<leaf1>()); } }
  catch (const arpc::errors::not_found&) { got = 1; } catch (const arpc::errors::data_mismatch&) { got = 2; } catch (...) { got = 3; }
  if (id != 0) { CHECK(got == 2, "class numbers out of sequence are a data mismatch"); return; }
  if (!c.reg) { CHECK(got == 1, "an unregistered class is reported as not found"); return; }
  if (h != c.hash || !want) { CHECK(got == 2, "a class of another structure or unrelated to the pointer is a data mismatch"); return; }
  CHECK(got == 0 && dyn == c.name && val == 1, "a matching class is built and read");
}
extern "C" void pp_named() { orders([](auto o) { named(o); }); }
// Class numbers: a second pointer in the stream refers to an earlier class.
template <typename O> void renumber(O) {
  uint8_t id = sym_u8("id"); symx_assume(id < 128); bool sub = sym_choose(2, "secondptr"); int first = sym_choose(3, "first");
  std::string w; w.push_back(1); w.push_back(0);
  if (first == 0) { put_str(w, "base"); put_u32<O>(w, arpc::traits::type_hash_v<base>); w += "\x05"; }
  else if (first == 1) { put_str(w, "leaf1"); put_u32<O>(w, arpc::traits::type_hash_v<leaf1>); w += "\x05\x01\x02"; }
  else { put_str(w, "offset"); put_u32<O>(w, arpc::traits::type_hash_v<offset>); w += "\x01\x02\x03\x04\x05\x06"; }
  w.push_back(1); w.push_back((char)id);
  if (id == 1) { put_str(w, "a.deep/class"); put_u32<O>(w, arpc::traits::type_hash_v<deep>); w.push_back(7); w += "\x03\x04"; w.push_back(1); }
  else { w.push_back(7); w += "\x03\x04\x05\x06\x07\x08"; }
  arpc::string_input_stream is(w); typename O::dec d(is);
  std::unique_ptr<base> p; try { d(p); } catch (...) { CHECK(false, "a well-formed pointer is accepted"); return; }
  CHECK(p && p->b == 5, "first object arrives");
  bool ok = true; std::string_view dyn; uint8_t b = 0;
  auto run = [&](auto q) { d(q); dyn = q->portable_class_name(); b = q->b; };
  try { if (sub) run(std::unique_ptr<leaf1>()); else run(std::unique_ptr<base>()); } catch (const arpc::errors::data_mismatch&) { ok = false; } catch (...) { CHECK(false, "a wrong class number is a data mismatch"); }
  bool want = id == 1 || (id == 0 && (!sub || first == 1));
  CHECK(ok == want, "only known or next class numbers of a suitable class are accepted");
  if (ok && id == 0) CHECK(dyn == p->portable_class_name(), "a repeated class number is the same class");
  if (ok && id == 1) CHECK(dyn == "a.deep/class" && b == 7, "a new class number is the named class");
}
extern "C" void pp_renumber() { orders([](auto o) { renumber(o); }); }
// One shared object under several static types, in a hostile stream.
template <typename O> void crosstype(O) {
  int c = sym_choose(4, "class"), t = sym_choose(5, "second");
  std::string w; w.push_back(1); w.push_back(0);
  switch (c) { case 0: put_str(w, "base"); put_u32<O>(w, arpc::traits::type_hash_v<base>); break; case 1: put_str(w, "leaf1"); put_u32<O>(w, arpc::traits::type_hash_v<leaf1>); break; case 2: put_str(w, "a.deep/class"); put_u32<O>(w, arpc::traits::type_hash_v<deep>); break; default: put_str(w, "offset"); put_u32<O>(w, arpc::traits::type_hash_v<offset>); }
  std::string body; if (c == 3) body += std::string("\1\1\1\1", 4); body += "\x05"; if (c == 1 || c == 2) body += "\x01\x02"; if (c == 2) body += "\x01"; if (c == 3) body += "\x06";
  w += body; w.push_back(1);
  arpc::string_input_stream is(w); typename O::dec d(is);
  std::shared_ptr<base> p; try { d(p); } catch (...) { CHECK(false, "a well-formed pointer is accepted"); return; }
  bool ok = true, right = true; std::shared_ptr<leaf1> l; std::shared_ptr<deep> e; std::shared_ptr<other> o; std::shared_ptr<uint8_t> n; std::shared_ptr<offset> f;
  try { switch (t) { case 0: d(l); right = l.get() == p.get() && l->b == 5; break; case 1: d(e); right = e.get() == p.get() && e->y; break; case 2: d(o); break; case 3: d(n); break; default: d(f); right = static_cast<base*>(f.get()) == p.get() && f->o == 6; } }
  catch (const arpc::errors::data_mismatch&) { ok = false; } catch (...) { CHECK(false, "an unsuitable pointer type is a data mismatch"); }
  bool want = t == 0 ? c == 1 || c == 2 : t == 1 ? c == 2 : t == 4 ? c == 3 : false;
  CHECK(ok == want, "a shared object is only reachable under types it has");
  if (ok) CHECK(right, "both pointers refer to the same object");
}
extern "C" void pp_crosstype() { orders([](auto o) { crosstype(o); }); }
// Bytes that may end up as sizes are confined to small values and the edges
// of the 7-bit encoding.
static void confine(const uint8_t* b, unsigned n) { for (unsigned i = 0; i < n; i++) symx_assume((b[i] < 5) | ((b[i] >= 0x7f) & (b[i] <= 0x81)) | (b[i] == 0xff)); }
// A decoder that keeps being used after an error: still no invalid object.
template <typename O> void after(O) {
  uint8_t n = sym_choose(symx_param(0, 5) + 1, "len"), buf[16]; symx_bytes(buf, n, "bytes"); confine(buf, n);
  int fail = sym_choose(5, "failure");
  std::string w; w.push_back(1);
  switch (fail) { case 0: w.push_back(3); break; case 1: w.push_back(0); put_str(w, "nosuch"); put_u32<O>(w, 0); break; case 2: w.push_back(0); put_str(w, "base"); put_u32<O>(w, 1); break; case 3: w.push_back(0); put_str(w, "other"); put_u32<O>(w, arpc::traits::type_hash_v<other>); break; default: w.push_back(0); put_str(w, "base"); put_u32<O>(w, arpc::traits::type_hash_v<base>); break; }
  if (fail == 4) { arpc::string_input_stream is1(w); }
  w.append((const char*)buf, n);
  arpc::string_input_stream is(w); typename O::dec d(is);
  uint64_t before = symx_live_heap();
  for (int i = 0; i < 3; i++) {
    try { if (sym_choose(2, "static")) { std::shared_ptr<uint8_t> s; d(s); if (s) *s = 1; } else { std::shared_ptr<base> p; d(p); if (p) { auto nm = p->portable_class_name(); bool known = false; for (auto k : kNames) known |= nm == k; CHECK(known, "only objects of registered classes are reachable"); p->b = 1; } } symx_reach("accepted"); }
    catch (const arpc::errors::base_error&) { symx_reach("rejected"); }
    catch (...) { CHECK(false, "only the library's own errors are thrown on bad input"); }
  }
}
extern "C" void pp_after() { orders([](auto o) { after(o); }); }
// Arbitrary bytes after a valid class header.
template <typename O> void bytes(O) {
  uint64_t n = sym_choose(symx_param(0, 6) + 1, "len"); uint8_t buf[32]; symx_bytes(buf, n, "bytes"); confine(buf, n);
  std::string w; w.push_back(1); w.push_back(0); int c = sym_choose(3, "class");
  if (c == 0) { put_str(w, "leaf2"); put_u32<O>(w, arpc::traits::type_hash_v<leaf2>); } else if (c == 1) { put_str(w, "ring"); put_u32<O>(w, arpc::traits::type_hash_v<ring>); } else { put_str(w, "offset"); put_u32<O>(w, arpc::traits::type_hash_v<offset>); }
  if (c == 0) { w.push_back(1); if (n) symx_assume(buf[0] < 3); }
  w.append((const char*)buf, n); w.push_back(0); 
  uint64_t before = symx_live_heap();
  { arpc::string_input_stream is(w); typename O::dec d(is); std::unique_ptr<base> p;
    try { d(p); symx_reach("accepted"); CHECK(p != nullptr, "an announced object is built"); p->b++; if (c == 1) { ring* r = static_cast<ring*>(p.get()); if (auto x = r->next) { x->b++; if (x->portable_class_name() == "ring") static_cast<ring*>(x.get())->next.reset(); } if (auto b = r->back.lock()) b->next.reset(); } }
    catch (const arpc::errors::base_error&) { symx_reach("rejected"); }
    catch (...) { CHECK(false, "only the library's own errors are thrown on bad input"); } }
  if (c != 1) CHECK(symx_live_heap() == before, "nothing is leaked");
}
extern "C" void pp_bytes() { orders([](auto o) { bytes(o); }); }
// C03: the wire form of polymorphic pointers: [presence byte or object number]
// class number, on first use the class name and its structure hash, then the
// parts, bases first.
static void ref_dyn(wire_out& r, const base* p, std::vector<std::string_view>& seen) {
  auto n = p->portable_class_name(); size_t id = 0; while (id < seen.size() && seen[id] != n) id++;
  r.varint(id);
  if (id == seen.size()) { seen.push_back(n); ref(r, std::string(n)); uint32_t h = n == "base" ? arpc::traits::type_hash_v<base> : n == "leaf1" ? arpc::traits::type_hash_v<leaf1> : n == "leaf2" ? arpc::traits::type_hash_v<leaf2> : n == "offset" ? arpc::traits::type_hash_v<offset> : arpc::traits::type_hash_v<deep>; r.scalar(h, 4); }
  if (n == "offset") r.scalar(static_cast<const offset*>(p)->pp, 4);
  r.scalar(p->b, 1);
  if (n == "offset") r.scalar(static_cast<const offset*>(p)->o, 1);
  if (n == "leaf1" || n == "a.deep/class") r.scalar(static_cast<const leaf1*>(p)->x, 2);
  if (n == "a.deep/class") r.scalar(static_cast<const deep*>(p)->y, 1);
  if (n == "leaf2") { auto q = static_cast<const leaf2*>(p); ref(r, q->s); r.b.push_back(q->child ? 1 : 0); if (q->child) ref_dyn(r, q->child.get(), seen); }
}
template <typename O> void wf_dyn(O) {
  const unsigned N = symx_param(0, 2);
  std::vector<std::unique_ptr<base>> u(N); std::vector<std::shared_ptr<base>> s(N); std::vector<bool> sh(N); std::vector<std::string_view> seen;
  std::string w; wire_out r{{}, O::big}; arpc::string_output_stream os(w); typename O::enc e(os); uint64_t objs = 0;
  for (unsigned i = 0; i < N; i++) {
    auto p = arb(i ? 0 : 1); sh[i] = sym_choose(2, "shared");
    if (sh[i]) { s[i] = std::move(p); e(s[i]); if (!s[i]) r.varint(0); else { r.varint(++objs); ref_dyn(r, s[i].get(), seen); } }
    else { u[i] = std::move(p); e(u[i]); r.b.push_back(u[i] ? 1 : 0); if (u[i]) ref_dyn(r, u[i].get(), seen); }
  }
  int same = w.size() == r.b.size(); if (same) for (size_t i = 0; i < w.size(); i++) same &= (uint8_t)w[i] == r.b[i];
  CHECK(same, "polymorphic objects are laid out as documented");
  if (!same) return;
}
extern "C" void wf_poly() { orders([](auto o) { wf_dyn(o); }); }
