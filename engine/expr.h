// Hash-consed bit-vector expressions with a local simplifier, and the solver
// front end (constraint slicing, query cache, model reuse) over Z3.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cmath>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;

enum Op : u8 {
  O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_FP
};

// Floating point operations (aux of O_FP): operands are bit patterns.
enum FpOp : u8 { F_ADD, F_SUB, F_MUL, F_DIV, F_OEQ, F_OLT, F_OLE, F_UNO,
  F_FROM_SI, F_FROM_UI, F_TO_SI, F_TO_UI, F_TO_FP };

struct VarSet { std::vector<u64> bits; };

struct Expr {
  Op op;
  bool undef;
  u8 nk;
  u8 fpop;
  uint16_t w;
  uint16_t aux;   // extract offset; FP: source width
  u32 id;
  u32 sym;        // symbol index
  Expr* k[3];
  u128 val;
  u128 umin, umax;
  const VarSet* vars;
  Expr* next;     // hash chain
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sgn(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  return (s128)((v ^ m) - m);
}

struct SymInfo { std::string name; unsigned w; bool undef; };
struct Model { std::vector<u128> v; u128 get(u32 s) const { return s < v.size() ? v[s] : 0; } void set(u32 s, u128 x) { if (s >= v.size()) v.resize(s + 1); v[s] = x; } };

class ExprPool {
 public:
  std::vector<Expr*> all;
  std::vector<Expr*> table;
  std::vector<SymInfo> syms;
  std::map<std::string, u32> symByKey;
  std::map<std::vector<u64>, const VarSet*> vsIntern;
  const VarSet* emptyVS;
  u64 tableMask;
  ExprPool() {
    table.assign(1 << 20, nullptr);
    tableMask = table.size() - 1;
    emptyVS = internVS({});
  }
  const VarSet* internVS(std::vector<u64> b) {
    while (!b.empty() && !b.back()) b.pop_back();
    auto it = vsIntern.find(b);
    if (it != vsIntern.end()) return it->second;
    auto* v = new VarSet{b};
    vsIntern.emplace(std::move(b), v);
    return v;
  }
  const VarSet* unionVS(const VarSet* a, const VarSet* b) {
    if (a == b || b->bits.empty()) return a;
    if (a->bits.empty()) return b;
    std::vector<u64> r = a->bits;
    if (r.size() < b->bits.size()) r.resize(b->bits.size());
    for (size_t i = 0; i < b->bits.size(); i++) r[i] |= b->bits[i];
    return internVS(std::move(r));
  }
  static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
  Expr* mk(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 val, u32 sym, unsigned aux, u8 fpop = 0) {
    u64 h = mix(op | (w << 8) | ((u64)aux << 24) | ((u64)fpop << 40), sym);
    h = mix(h, (u64)val); h = mix(h, (u64)(val >> 64));
    h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, c ? c->id + 1 : 0);
    h ^= h >> 29;
    Expr** slot = &table[h & tableMask];
    for (Expr* e = *slot; e; e = e->next)
      if (e->op == op && e->w == w && e->aux == aux && e->fpop == fpop && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->val == val && e->sym == sym) return e;
    Expr* e = new Expr();
    e->op = op; e->w = w; e->aux = aux; e->fpop = fpop; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->val = val; e->sym = sym;
    e->nk = c ? 3 : b ? 2 : a ? 1 : 0;
    e->id = all.size();
    e->undef = false; e->vars = emptyVS;
    for (int i = 0; i < e->nk; i++) { e->undef |= e->k[i]->undef; e->vars = unionVS(e->vars, e->k[i]->vars); }
    range(e);
    e->next = *slot; *slot = e;
    all.push_back(e);
    if (all.size() > table.size() * 2) rehash();
    return e;
  }
  void rehash() {
    // Recompute chains with a table four times as large.
    std::vector<Expr*> t(table.size() * 4, nullptr);
    tableMask = t.size() - 1;
    table.swap(t);
    for (Expr* e : all) {
      u64 h = mix(e->op | ((u64)e->w << 8) | ((u64)e->aux << 24) | ((u64)e->fpop << 40), e->sym);
      h = mix(h, (u64)e->val); h = mix(h, (u64)(e->val >> 64));
      for (int i = 0; i < 3; i++) h = mix(h, e->k[i] ? e->k[i]->id + 1 : 0);
      h ^= h >> 29;
      Expr** slot = &table[h & tableMask];
      e->next = *slot; *slot = e;
    }
  }
  void range(Expr* e) {
    u128 m = maskw(e->w);
    u128 lo = 0, hi = m;
    Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
      case O_CONST: lo = hi = e->val; break;
      case O_ZEXT: lo = a->umin; hi = a->umax; break;
      case O_CONCAT: lo = (a->umin << b->w) | b->umin; hi = (a->umax << b->w) | b->umax; break;
      case O_ITE: lo = std::min(e->k[1]->umin, e->k[2]->umin); hi = std::max(e->k[1]->umax, e->k[2]->umax); break;
      case O_AND: hi = std::min(a->umax, b->umax); break;
      case O_ADD: if (e->w < 128 && a->umax + b->umax <= m) { lo = a->umin + b->umin; hi = a->umax + b->umax; } break;
      case O_MUL: if (e->w <= 64 && a->umax * b->umax <= m) { lo = a->umin * b->umin; hi = a->umax * b->umax; } break;
      case O_UDIV: if (b->umin > 0) { lo = a->umin / b->umax; hi = a->umax / b->umin; } break;
      case O_UREM: if (b->umax > 0 && b->umin > 0) hi = std::min(a->umax, b->umax - 1); break;
      case O_LSHR: hi = a->umax; break;
      case O_EXTRACT: if (e->aux == 0 && a->umax <= m) { lo = a->umin; hi = a->umax; } break;
      default: break;
    }
    e->umin = lo; e->umax = hi;
  }
  Expr* C(u128 v, unsigned w) { return mk(O_CONST, w, nullptr, nullptr, nullptr, v & maskw(w), 0, 0); }
  Expr* sym(const std::string& key, unsigned w, bool undef = false) {
    auto it = symByKey.find(key);
    u32 idx;
    if (it != symByKey.end()) idx = it->second;
    else { idx = syms.size(); syms.push_back({key, w, undef}); symByKey[key] = idx; }
    Expr* e = mk(O_SYM, w, nullptr, nullptr, nullptr, 0, idx, 0);
    if (e->vars == emptyVS) {
      std::vector<u64> b(idx / 64 + 1);
      b[idx / 64] |= 1ULL << (idx % 64);
      e->vars = internVS(b);
      e->undef = undef;
    }
    return e;
  }
  static bool isC(Expr* e) { return e->op == O_CONST; }
  static bool isZ(Expr* e) { return e->op == O_CONST && e->val == 0; }
  static bool isOnes(Expr* e) { return e->op == O_CONST && e->val == maskw(e->w); }

  static u128 fold(Op op, unsigned w, u128 a, u128 b) {  // w: operand width
    u128 m = maskw(w);
    switch (op) {
      case O_ADD: return (a + b) & m;
      case O_SUB: return (a - b) & m;
      case O_MUL: return (a * b) & m;
      case O_UDIV: return b ? a / b : m;
      case O_SDIV: { if (!b) return sgn(a, w) < 0 ? 1 : m; if (b == m) return (-a) & m; return (u128)(sgn(a, w) / sgn(b, w)) & m; }
      case O_UREM: return b ? a % b : a;
      case O_SREM: { if (!b) return a; if (b == m) return 0; return (u128)(sgn(a, w) % sgn(b, w)) & m; }
      case O_AND: return a & b;
      case O_OR: return a | b;
      case O_XOR: return a ^ b;
      case O_SHL: return b >= w ? 0 : (a << b) & m;
      case O_LSHR: return b >= w ? 0 : a >> b;
      case O_ASHR: return b >= w ? (sgn(a, w) < 0 ? m : 0) : (u128)(sgn(a, w) >> b) & m;
      case O_EQ: return a == b;
      case O_ULT: return a < b;
      case O_ULE: return a <= b;
      case O_SLT: return sgn(a, w) < sgn(b, w);
      case O_SLE: return sgn(a, w) <= sgn(b, w);
      default: abort();
    }
  }
  static double toD(u128 v, unsigned w) { if (w == 32) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; } u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
  static u128 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
  static u128 fpFold(u8 fop, unsigned w, unsigned sw, u128 a, u128 b) {
    switch (fop) {
      case F_ADD: case F_SUB: case F_MUL: case F_DIV: {
        if (w == 32) { float x = (float)toD(a, 32), y = (float)toD(b, 32), r; r = fop == F_ADD ? x + y : fop == F_SUB ? x - y : fop == F_MUL ? x * y : x / y; u32 z; memcpy(&z, &r, 4); return z; }
        double x = toD(a, 64), y = toD(b, 64), r; r = fop == F_ADD ? x + y : fop == F_SUB ? x - y : fop == F_MUL ? x * y : x / y; return fromD(r, 64); }
      case F_OEQ: return toD(a, sw) == toD(b, sw);
      case F_OLT: return toD(a, sw) < toD(b, sw);
      case F_OLE: return toD(a, sw) <= toD(b, sw);
      case F_UNO: return std::isnan(toD(a, sw)) || std::isnan(toD(b, sw));
      case F_FROM_SI: { long long s = (long long)sgn(a, sw); if (w == 32) { float f = (float)s; u32 z; memcpy(&z, &f, 4); return z; } return fromD((double)s, 64); }
      case F_FROM_UI: { u64 s = (u64)a; if (w == 32) { float f = (float)s; u32 z; memcpy(&z, &f, 4); return z; } return fromD((double)s, 64); }
      case F_TO_SI: { double d = std::trunc(toD(a, sw)); if (!(d >= -9.3e18 && d <= 9.2233720368547748e18)) return (u128)1 << (w - 1); return (u128)(s128)(long long)d & maskw(w); }
      case F_TO_UI: { double d = std::trunc(toD(a, sw)); if (!(d >= 0 && d < 1.8446744073709552e19)) return 0; return (u128)(u64)d & maskw(w); }
      case F_TO_FP: return fromD(toD(a, sw), w);
    }
    abort();
  }
  bool madeFp = false;
  Expr* fp(u8 fop, unsigned w, Expr* a, Expr* b = nullptr) {
    if (isC(a) && (!b || isC(b))) return C(fpFold(fop, w, a->w, a->val, b ? b->val : 0), w);
    madeFp = true;
    return mk(O_FP, w, a, b, nullptr, 0, 0, a->w, fop);
  }
  // Rebuild an operation over new operands.
  Expr* rebuild(Expr* e, Expr* a, Expr* b, Expr* c) {
    switch (e->op) {
      case O_EXTRACT: return extract(a, e->aux, e->w);
      case O_CONCAT: return concat(a, b);
      case O_ZEXT: return zext(a, e->w);
      case O_SEXT: return sext(a, e->w);
      case O_ITE: return ite(a, b, c);
      case O_FP: return mk(O_FP, e->w, a, b, nullptr, 0, 0, e->aux, e->fpop);
      default: return bin(e->op, a, b);
    }
  }
  // The same expression with every uninitialised symbol replaced by a fresh one.
  u64 freshUndefs = 0;
  Expr* renameUndef(Expr* e, std::map<Expr*, Expr*>& memo) {
    if (!e->undef) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Expr* r;
    if (e->op == O_SYM) r = sym("undefcopy" + std::to_string(freshUndefs++), e->w, true);
    else r = rebuild(e, e->nk > 0 ? renameUndef(e->k[0], memo) : nullptr, e->nk > 1 ? renameUndef(e->k[1], memo) : nullptr, e->nk > 2 ? renameUndef(e->k[2], memo) : nullptr);
    return memo[e] = r;
  }
  Expr* T() { return C(1, 1); }
  Expr* F() { return C(0, 1); }
  Expr* Not(Expr* a) {
    if (isC(a)) return C(~a->val, a->w);
    if (a->w == 1) {
      if (a->op == O_ULT) return bin(O_ULE, a->k[1], a->k[0]);
      if (a->op == O_ULE) return bin(O_ULT, a->k[1], a->k[0]);
      if (a->op == O_SLT) return bin(O_SLE, a->k[1], a->k[0]);
      if (a->op == O_SLE) return bin(O_SLT, a->k[1], a->k[0]);
    }
    return bin(O_XOR, C(maskw(a->w), a->w), a);
  }
  Expr* And(Expr* a, Expr* b) { return bin(O_AND, a, b); }
  Expr* Or(Expr* a, Expr* b) { return bin(O_OR, a, b); }
  Expr* Eq(Expr* a, Expr* b) { return bin(O_EQ, a, b); }

  struct ExMemo { Expr* e; unsigned off; Expr* r; };
  std::unordered_map<u64, ExMemo> exMemo;
  Expr* extract(Expr* e, unsigned off, unsigned w) {
    if (off == 0 && w == e->w) return e;
    switch (e->op) {
      case O_CONST: return C(e->val >> off, w);
      case O_EXTRACT: return extract(e->k[0], e->aux + off, w);
      case O_CONCAT: {
        unsigned lw = e->k[1]->w;
        if (off + w <= lw) return extract(e->k[1], off, w);
        if (off >= lw) return extract(e->k[0], off - lw, w);
        return concat(extract(e->k[0], 0, off + w - lw), extract(e->k[1], off, lw - off));
      }
      case O_ZEXT: {
        unsigned iw = e->k[0]->w;
        if (off + w <= iw) return extract(e->k[0], off, w);
        if (off >= iw) return C(0, w);
        return zext(extract(e->k[0], off, iw - off), w);
      }
      case O_SEXT: {
        unsigned iw = e->k[0]->w;
        if (off + w <= iw) return extract(e->k[0], off, w);
        if (off >= iw - 1) return sext(extract(e->k[0], iw - 1, 1), w);
        return sext(extract(e->k[0], off, iw - off), w);
      }
      case O_AND: case O_OR: case O_XOR:
        if (isC(e->k[0]) || w == 1) return bin(e->op, extract(e->k[0], off, w), extract(e->k[1], off, w));
        {
          u64 key = mix(mix(e->id, off), w);
          auto it = exMemo.find(key);
          if (it != exMemo.end() && it->second.e == e && it->second.off == off && it->second.r->w == w) return it->second.r;
          Expr* r = bin(e->op, extract(e->k[0], off, w), extract(e->k[1], off, w));
          exMemo[key] = ExMemo{e, off, r};
          return r;
        }
        break;
      case O_ADD: case O_SUB: case O_MUL:
        if (off == 0 && e->w <= 64 && (e->w < 64 || w == 32) && (isC(e->k[0]) || e->k[0]->op == O_ZEXT || e->k[1]->op == O_ZEXT || e->k[0]->op == O_SEXT || e->k[1]->op == O_SEXT))
          return bin(e->op, extract(e->k[0], 0, w), extract(e->k[1], 0, w));
        break;
      case O_ITE:
        if (isC(e->k[1]) || isC(e->k[2])) return ite(e->k[0], extract(e->k[1], off, w), extract(e->k[2], off, w));
        break;
      default: break;
    }
    if (e->umax < ((u128)1 << off)) return C(0, w);
    return mk(O_EXTRACT, w, e, nullptr, nullptr, 0, 0, off);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isC(hi) && isC(lo)) return C((hi->val << lo->w) | lo->val, w);
    if (isZ(hi)) return zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && lo->aux + lo->w == hi->aux)
      return extract(hi->k[0], lo->aux, w);
    if (hi->op == O_EXTRACT && lo->w + 0 == hi->aux && hi->k[0] == lo) return extract(lo, 0, w);
    // low part of a sum or product, computed narrower
    if (hi->op == O_EXTRACT && lo->w == hi->aux && (lo->op == O_MUL || lo->op == O_ADD || lo->op == O_SUB) && hi->k[0]->op == lo->op && extract(hi->k[0], 0, lo->w) == lo) return extract(hi->k[0], 0, w);
    if (hi->op == O_CONCAT) return concat(hi->k[0], concat(hi->k[1], lo));  // right-assoc
    if (lo->op == O_CONCAT) {
      Expr* m = lo->k[0];
      if (isC(hi) && isC(m)) return concat(C((hi->val << m->w) | m->val, hi->w + m->w), lo->k[1]);
      if (hi->op == O_EXTRACT && m->op == O_EXTRACT && hi->k[0] == m->k[0] && m->aux + m->w == hi->aux)
        return concat(extract(hi->k[0], m->aux, hi->w + m->w), lo->k[1]);
    }
    if (hi->op == O_ZEXT) return zext(concat(hi->k[0], lo), w);
    if (isC(hi) && lo->op == O_ZEXT) { unsigned z = lo->w - lo->k[0]->w; return concat(C(hi->val << z, hi->w + z), lo->k[0]); }
    // sign replication: concat(extract of sext)
    if (hi->op == O_ITE && lo->op == O_ITE && hi->k[0] == lo->k[0]) return ite(hi->k[0], concat(hi->k[1], lo->k[1]), concat(hi->k[2], lo->k[2]));
    return mk(O_CONCAT, w, hi, lo, nullptr, 0, 0, 0);
  }
  Expr* zext(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if (isC(e)) return C(e->val, w);
    if (e->op == O_ZEXT) return zext(e->k[0], w);
    if (e->op == O_ITE && (isC(e->k[1]) && isC(e->k[2]))) return ite(e->k[0], zext(e->k[1], w), zext(e->k[2], w));
    return mk(O_ZEXT, w, e, nullptr, nullptr, 0, 0, 0);
  }
  Expr* sext(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if (isC(e)) return C((u128)sgn(e->val, e->w), w);
    if (e->op == O_SEXT) return sext(e->k[0], w);
    if (e->op == O_ZEXT) return zext(e->k[0], w);
    if (e->umax < ((u128)1 << (e->w - 1))) return zext(e, w);
    if (e->op == O_ITE && (isC(e->k[1]) && isC(e->k[2]))) return ite(e->k[0], sext(e->k[1], w), sext(e->k[2], w));
    return mk(O_SEXT, w, e, nullptr, nullptr, 0, 0, 0);
  }
  Expr* ite(Expr* c, Expr* t, Expr* f) {
    if (isC(c)) return c->val ? t : f;
    if (t == f) return t;
    if (c->op == O_XOR && c->w == 1 && isC(c->k[0])) return ite(c->k[1], f, t);
    if (t->w == 1) {
      if (isC(t)) return t->val ? Or(c, f) : And(Not(c), f);
      if (isC(f)) return f->val ? Or(Not(c), t) : And(c, t);
    }
    if (t->op == O_ITE && t->k[0] == c) t = t->k[1];
    if (f->op == O_ITE && f->k[0] == c) f = f->k[2];
    if (t == f) return t;
    return mk(O_ITE, t->w, c, t, f, 0, 0, 0);
  }
  static bool commut(Op o) { return o == O_ADD || o == O_MUL || o == O_AND || o == O_OR || o == O_XOR || o == O_EQ; }
  // If e = concat(x, 0_n) (possibly zero-extended), number of trailing zero bits.
  static unsigned tz(Expr* e) {
    if (e->op == O_CONST) { if (!e->val) return e->w; unsigned n = 0; while (!((e->val >> n) & 1)) n++; return n; }
    if (e->op == O_CONCAT) { unsigned n = tz(e->k[1]); return n == e->k[1]->w ? n + tz(e->k[0]) : n; }
    if (e->op == O_ZEXT) { unsigned n = tz(e->k[0]); return n == e->k[0]->w ? e->w : n; }
    return 0;
  }
  static unsigned lz(Expr* e) {  // leading zeros known
    unsigned n = 0; u128 m = e->umax;
    while (n < e->w && !((m >> (e->w - 1 - n)) & 1)) n++;
    return n;
  }
  // ---- canonical forms for bit routing and sums
  static void segments(Expr* e, std::vector<unsigned>& ws) {  // most significant first
    if (e->op == O_CONCAT) { segments(e->k[0], ws); segments(e->k[1], ws); }
    else if (e->op == O_ZEXT) { ws.push_back(e->w - e->k[0]->w); segments(e->k[0], ws); }
    else ws.push_back(e->w);
  }
  // Applies a bitwise operation (or an addition without carries) piecewise
  // where an operand is a concatenation; null if that does not apply.
  Expr* piecewise(Op op, Expr* a, Expr* b) {
    if (a->w <= 8) return nullptr;
    bool sa = a->op == O_CONCAT || a->op == O_ZEXT, sb = b->op == O_CONCAT || b->op == O_ZEXT;
    if (!sa && !sb) return nullptr;
    if (op == O_ADD && !(sa && sb)) return nullptr;
    std::vector<unsigned> wa, wb;
    segments(a, wa); segments(b, wb);
    if (wa.size() + wb.size() > 40) return nullptr;
    std::vector<unsigned> cut; unsigned p = 0;
    for (size_t i = wa.size(); i-- > 0;) { p += wa[i]; cut.push_back(p); }
    p = 0;
    for (size_t i = wb.size(); i-- > 0;) { p += wb[i]; cut.push_back(p); }
    std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
    std::vector<Expr*> pa, pb; p = 0;
    for (unsigned c : cut) {
      pa.push_back(extract(a, p, c - p)); pb.push_back(extract(b, p, c - p)); p = c;
      if (op == O_ADD && !isZ(pa.back()) && !isZ(pb.back())) return nullptr;
    }
    Expr* r = nullptr;
    for (size_t i = 0; i < pa.size(); i++) {
      Expr* x = op == O_ADD ? (isZ(pa[i]) ? pb[i] : pa[i]) : bin(op, pa[i], pb[i]);
      r = r ? concat(x, r) : x;
    }
    return r;
  }
  // Sums and exclusive ors of several terms in one order.
  Expr* acForm(Op op, Expr* a, Expr* b) {
    std::vector<Expr*> l; std::vector<Expr*> st{a, b};
    while (!st.empty()) { Expr* e = st.back(); st.pop_back(); if (e->op == op && e->w == a->w) { st.push_back(e->k[0]); st.push_back(e->k[1]); } else l.push_back(e); if (l.size() > 160) return nullptr; }
    if (l.size() < 3) return nullptr;
    std::sort(l.begin(), l.end(), [](Expr* x, Expr* y) { return x->id < y->id; });
    if (op == O_XOR) { std::vector<Expr*> k; for (Expr* e : l) if (!k.empty() && k.back() == e) k.pop_back(); else k.push_back(e); l.swap(k); }
    if (l.empty()) return C(0, a->w);
    u128 c = 0; std::vector<Expr*> k;
    for (Expr* e : l) if (isC(e)) c = op == O_ADD ? c + e->val : c ^ e->val; else k.push_back(e);
    c &= maskw(a->w);
    if (k.empty()) return C(c, a->w);
    Expr* r = k.back(); k.pop_back();
    while (!k.empty()) { r = mk(op, a->w, k.back(), r, nullptr, 0, 0, 0); k.pop_back(); }
    return c ? mk(op, a->w, C(c, a->w), r, nullptr, 0, 0, 0) : r;
  }
  // Exact linear form sum(coef * leaf) + k of a 64-bit term, when its value as an
  // integer provably equals its signed 64-bit value.
  typedef __int128 i128;
  struct Lin { std::vector<std::pair<Expr*, i128>> t; i128 k = 0; };
  // Adds c * (low 64 bits of e), modulo 2^64.
  bool linAdd(Lin& l, Expr* e, i128 c, int depth) {
    if (c > ((i128)1 << 60) || c < -((i128)1 << 60)) return false;
    if (isC(e)) { l.k += c * (i128)(int64_t)(uint64_t)e->val; return true; }
    if (depth < 40) {
      if (e->w >= 64) {
        if (e->op == O_ADD) return linAdd(l, e->k[0], c, depth + 1) && linAdd(l, e->k[1], c, depth + 1);
        if (e->op == O_SUB) return linAdd(l, e->k[0], c, depth + 1) && linAdd(l, e->k[1], -c, depth + 1);
        if (e->op == O_MUL && isC(e->k[0]) && e->k[0]->val < ((u128)1 << 40)) return linAdd(l, e->k[1], c * (i128)e->k[0]->val, depth + 1);
        if (e->op == O_SHL && isC(e->k[1]) && e->k[1]->val < 40) return linAdd(l, e->k[0], c * ((i128)1 << (int)e->k[1]->val), depth + 1);
        if (e->op == O_EXTRACT && e->aux == 0) return linAdd(l, e->k[0], c, depth + 1);
        if ((e->op == O_ZEXT || e->op == O_SEXT) && e->k[0]->w >= 64) return linAdd(l, e->k[0], c, depth + 1);
      }
      if (e->op == O_ZEXT && e->w >= 64) { Expr* i = e->k[0]; if (i->op == O_EXTRACT && i->aux == 0 && i->k[0]->w <= 64 && i->k[0]->umax < ((u128)1 << i->w)) return linAdd(l, i->k[0], c, depth + 1); }
    }
    if (e->w < 64) return false;
    if (e->w > 64) e = extract(e, 0, 64);
    for (auto& x : l.t) if (x.first == e) { x.second += c; return true; }
    l.t.push_back({e, c});
    return l.t.size() < 16;
  }
  bool linear(Expr* e, Lin& l, i128& lo, i128& hi) {
    if (e->w != 64 || !linAdd(l, e, 1, 0)) return false;
    lo = hi = l.k;
    const i128 big = (i128)1 << 63;
    for (auto& x : l.t) {
      if (x.second > ((i128)1 << 60) || x.second < -((i128)1 << 60) || x.first->umax >= ((u128)1 << 48)) { if (!x.second) continue; return false; }
      i128 p = x.second * (i128)x.first->umin, q = x.second * (i128)x.first->umax;
      if (p > q) std::swap(p, q);
      if (p < -big || q >= big) return false;
      lo += p; hi += q;
    }
    return lo >= -big && hi < big;
  }
  Expr* divLinear(Op op, Expr* a, i128 d) {
    Lin l; i128 lo, hi;
    if (d <= 1 || !linear(a, l, lo, hi)) return nullptr;
    for (auto& x : l.t) if (x.second % d) return nullptr;
    i128 rem = l.k % d;
    if (rem && lo < 0) return nullptr;  // rounds towards zero: only simple when never negative
    if (rem < 0) rem += d;
    if ((op == O_UDIV || op == O_UREM) && lo < 0) return nullptr;
    if (op == O_UREM || op == O_SREM) return C((u128)(uint64_t)(int64_t)rem, 64);
    Expr* r = C((u128)(uint64_t)(int64_t)((l.k - rem) / d), 64);
    for (auto& x : l.t) if (x.second) r = bin(O_ADD, r, bin(O_MUL, C((u128)(uint64_t)(int64_t)(x.second / d), 64), x.first));
    return r;
  }
  Expr* bin(Op op, Expr* a, Expr* b) {
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
    unsigned w = a->w;
    bool cmp = op >= O_EQ && op <= O_SLE;
    unsigned rw = cmp ? 1 : w;
    if (isC(a) && isC(b)) return C(fold(op, w, a->val, b->val), rw);
    if (commut(op)) { if (isC(b) || (!isC(a) && a->id > b->id)) std::swap(a, b); }
    switch (op) {
      case O_ADD:
        if (isZ(a)) return b;
        if (w == 1) return bin(O_XOR, a, b);
        if (isC(a) && b->op == O_ADD && isC(b->k[0])) return bin(O_ADD, C(a->val + b->k[0]->val, w), b->k[1]);
        if (!isC(a)) {
          if (a->op == O_ADD && isC(a->k[0])) return bin(O_ADD, a->k[0], bin(O_ADD, a->k[1], b));
          if (b->op == O_ADD && isC(b->k[0])) return bin(O_ADD, b->k[0], bin(O_ADD, a, b->k[1]));
          if (a->op == O_SUB && a->k[1] == b) return a->k[0];
          if (b->op == O_SUB && b->k[1] == a) return b->k[0];
        }
        if (isC(a) && b->op == O_ITE && isC(b->k[1]) && isC(b->k[2])) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
        // disjoint bits: treat as or (not where sums are kept in one order)
        if (w < 64 && (tz(a) + lz(b) >= w || tz(b) + lz(a) >= w)) return bin(O_OR, a, b);
        if (w < 64) if (Expr* r = piecewise(op, a, b)) return r;
        if (w >= 64 && !isC(a)) if (Expr* r = acForm(op, a, b)) return r;
        break;
      case O_SUB:
        if (a == b) return C(0, w);
        if (isZ(b)) return a;
        if (isC(b)) return bin(O_ADD, C(-b->val, w), a);
        if (b->op == O_ADD && isC(b->k[0])) return bin(O_ADD, C(-b->k[0]->val, w), bin(O_SUB, a, b->k[1]));
        if (a->op == O_ADD && isC(a->k[0])) return bin(O_ADD, a->k[0], bin(O_SUB, a->k[1], b));
        if (a->op == O_ADD && a->k[0] == b) return a->k[1];
        if (a->op == O_ADD && a->k[1] == b) return a->k[0];
        break;
      case O_MUL:
        if (isZ(a)) return a;
        if (isC(a) && a->val == 1) return b;
        if (isC(a) && b->op == O_MUL && isC(b->k[0])) return bin(O_MUL, C((a->val * b->k[0]->val) & maskw(w), w), b->k[1]);
        if (isC(a) && (a->val & (a->val - 1)) == 0) { unsigned n = tz(a); return bin(O_SHL, b, C(n, w)); }
        if (isC(a) && b->op == O_ITE && isC(b->k[1]) && isC(b->k[2])) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
        break;
      case O_UDIV:
        if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(O_LSHR, a, C(tz(b), w));
        if (b->umin > a->umax) return C(0, w);
        if (w == 64 && isC(b) && b->val < ((u128)1 << 40)) if (Expr* r = divLinear(op, a, (i128)b->val)) return r;
        break;
      case O_UREM:
        if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(O_AND, C(b->val - 1, w), a);
        if (b->umin > a->umax) return a;
        if (w == 64 && isC(b) && b->val < ((u128)1 << 40)) if (Expr* r = divLinear(op, a, (i128)b->val)) return r;
        break;
      case O_SDIV: case O_SREM:
        if (isC(b) && b->val == 1 && w > 1) return op == O_SDIV ? a : C(0, w);
        if (w == 64 && isC(b) && b->val < ((u128)1 << 40)) if (Expr* r = divLinear(op, a, (i128)b->val)) return r;
        if (a->umax < ((u128)1 << (w - 1)) && b->umax < ((u128)1 << (w - 1))) return bin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
        break;
      case O_AND:
        if (isZ(a)) return a;
        if (isOnes(a)) return b;
        if (a == b) return a;
        if (isC(a)) {
          u128 v = a->val;
          if (b->op == O_AND && isC(b->k[0])) return bin(O_AND, C(v & b->k[0]->val, w), b->k[1]);
          // low mask
          if ((v & (v + 1)) == 0) { unsigned n = 0; while ((v >> n) & 1) n++; return zext(extract(b, 0, n), w); }
          // contiguous mask
          unsigned z = tz(a); u128 s = v >> z;
          if ((s & (s + 1)) == 0) { unsigned n = 0; while ((s >> n) & 1) n++; Expr* mid = extract(b, z, n); return zext(concat(mid, C(0, z)), w); }
          if (b->op == O_ITE && isC(b->k[1]) && isC(b->k[2])) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
          if (b->op == O_ZEXT) { unsigned iw = b->k[0]->w; return zext(bin(O_AND, C(v, iw), b->k[0]), w); }
          if (b->op == O_CONCAT) { unsigned lw = b->k[1]->w; return concat(bin(O_AND, C(v >> lw, b->k[0]->w), b->k[0]), bin(O_AND, C(v, lw), b->k[1])); }
        }
        if (w == 1) { if (Not1(a) == b || Not1(b) == a) return F(); 
          if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b;
          if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a; }
        if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned iw = std::min(a->k[0]->w, b->k[0]->w); return zext(bin(O_AND, extract(a, 0, iw), extract(b, 0, iw)), w); }
        break;
      case O_OR:
        if (isZ(a)) return b;
        if (isOnes(a)) return a;
        if (a == b) return a;
        if (isC(a) && b->op == O_OR && isC(b->k[0])) return bin(O_OR, C(a->val | b->k[0]->val, w), b->k[1]);
        if (w == 1) { if (Not1(a) == b || Not1(b) == a) return T();
          if (b->op == O_OR && (b->k[0] == a || b->k[1] == a)) return b;
          if (a->op == O_OR && (a->k[0] == b || a->k[1] == b)) return a; }
        else {
          unsigned ta = tz(a), tb = tz(b);
          if (ta && ta < w && ta + lz(b) >= w) return concat(extract(a, ta, w - ta), extract(b, 0, ta));
          if (tb && tb < w && tb + lz(a) >= w) return concat(extract(b, tb, w - tb), extract(a, 0, tb));
        }
        if (isC(a) && b->op == O_ITE && isC(b->k[1]) && isC(b->k[2])) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
        if (Expr* r = piecewise(op, a, b)) return r;
        break;
      case O_XOR:
        if (isZ(a)) return b;
        if (a == b) return C(0, w);
        if (isC(a) && b->op == O_XOR && isC(b->k[0])) return bin(O_XOR, C(a->val ^ b->k[0]->val, w), b->k[1]);
        if (!isC(a)) {
          if (a->op == O_XOR && isC(a->k[0])) return bin(O_XOR, a->k[0], bin(O_XOR, a->k[1], b));
          if (b->op == O_XOR && isC(b->k[0])) return bin(O_XOR, b->k[0], bin(O_XOR, a, b->k[1]));
        }
        if (isC(a) && w == 1) { Expr* n = b; if (n->op == O_ULT || n->op == O_ULE || n->op == O_SLT || n->op == O_SLE) return Not(n); }
        if (isC(a) && b->op == O_ITE && isC(b->k[1]) && isC(b->k[2])) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
        if (w > 1) {
          if (Expr* r = piecewise(op, a, b)) return r;
          if (!isC(a)) if (Expr* r = acForm(op, a, b)) return r;
        }
        break;
      case O_SHL:
        if (isZ(b)) return a;
        if (isZ(a)) return a;
        if (isC(b)) { if (b->val >= w) return C(0, w); unsigned n = (unsigned)b->val; return concat(extract(a, 0, w - n), C(0, n)); }
        break;
      case O_LSHR:
        if (isZ(b)) return a;
        if (isZ(a)) return a;
        if (isC(b)) { if (b->val >= w) return C(0, w); unsigned n = (unsigned)b->val; return zext(extract(a, n, w - n), w); }
        break;
      case O_ASHR:
        if (isZ(b)) return a;
        if (isC(b)) { unsigned n = b->val >= w ? w - 1 : (unsigned)b->val; return sext(extract(a, n, w - n), w); }
        break;
      case O_EQ:
        if (a == b) return T();
        if (a->umin > b->umax || a->umax < b->umin) return F();
        if (isC(a)) {
          u128 v = a->val;
          if (w == 1) return v ? b : Not(b);
          if (b->op == O_ZEXT) { unsigned iw = b->k[0]->w; if (v >> iw) return F(); return bin(O_EQ, C(v, iw), b->k[0]); }
          if (b->op == O_SEXT) { unsigned iw = b->k[0]->w; if (((u128)sgn(v & maskw(iw), iw) & maskw(w)) != v) return F(); return bin(O_EQ, C(v, iw), b->k[0]); }
          if (b->op == O_CONCAT) { unsigned lw = b->k[1]->w; return And(bin(O_EQ, C(v >> lw, b->k[0]->w), b->k[0]), bin(O_EQ, C(v, lw), b->k[1])); }
          if (b->op == O_ADD && isC(b->k[0])) return bin(O_EQ, C(v - b->k[0]->val, w), b->k[1]);
          if (b->op == O_XOR && isC(b->k[0])) return bin(O_EQ, C(v ^ b->k[0]->val, w), b->k[1]);
          if (b->op == O_SUB && v == 0) return bin(O_EQ, b->k[0], b->k[1]);
          if (b->op == O_XOR && v == 0) return bin(O_EQ, b->k[0], b->k[1]);
          if (b->op == O_OR && v == 0) return And(bin(O_EQ, a, b->k[0]), bin(O_EQ, a, b->k[1]));
          if (b->op == O_ITE) {
            if (isC(b->k[1]) || isC(b->k[2])) {
              Expr *t = bin(O_EQ, a, b->k[1]), *f = bin(O_EQ, a, b->k[2]);
              return ite(b->k[0], t, f);
            }
          }
        } else {
          if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return bin(O_EQ, a->k[0], b->k[0]);
          if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return bin(O_EQ, a->k[0], b->k[0]);
          if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[0]->w == b->k[0]->w) return And(bin(O_EQ, a->k[0], b->k[0]), bin(O_EQ, a->k[1], b->k[1]));
          if (a->op == O_ADD && b->op == O_ADD) {
            if (a->k[0] == b->k[0]) return bin(O_EQ, a->k[1], b->k[1]);
            if (a->k[1] == b->k[1]) return bin(O_EQ, a->k[0], b->k[0]);
          }
          if (b->op == O_ADD && isC(b->k[0]) && b->k[1] == a) return F();
          if (a->op == O_ADD && isC(a->k[0]) && a->k[1] == b) return F();
          if (w == 1) return Not(bin(O_XOR, a, b));
        }
        break;
      case O_ULT:
        if (a == b) return F();
        if (a->umax < b->umin) return T();
        if (a->umin >= b->umax) return F();
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return bin(op, a->k[0], b->k[0]);
        if (isC(b) && a->op == O_ZEXT) return bin(op, a->k[0], C(b->val, a->k[0]->w));  // b <= umax(a) here
        if (isC(a) && b->op == O_ZEXT) return bin(op, C(a->val, b->k[0]->w), b->k[0]);
        if (isC(b) && b->val == 1) return bin(O_EQ, C(0, w), a);
        if (isZ(a)) return Not(bin(O_EQ, a, b));
        break;
      case O_ULE:
        if (a == b) return T();
        if (a->umax <= b->umin) return T();
        if (a->umin > b->umax) return F();
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return bin(op, a->k[0], b->k[0]);
        if (isC(b) && a->op == O_ZEXT) return bin(op, a->k[0], C(b->val, a->k[0]->w));
        if (isC(a) && b->op == O_ZEXT) return bin(op, C(a->val, b->k[0]->w), b->k[0]);
        if (isZ(b)) return bin(O_EQ, b, a);
        break;
      case O_SLT: case O_SLE:
        if (a == b) return op == O_SLE ? T() : F();
        { u128 h = (u128)1 << (w - 1);
          if (a->umax < h && b->umax < h) return bin(op == O_SLT ? O_ULT : O_ULE, a, b); }
        break;
      default: break;
    }
    return mk(op, rw, a, b, nullptr, 0, 0, 0);
  }
  Expr* Not1(Expr* a) {  // negation for width 1 without creating new nodes unless needed
    if (a->op == O_XOR && isC(a->k[0])) return a->k[1];
    return Not(a);
  }

  // Evaluation under a model, memoised per generation.
  std::vector<u128> evVal;
  std::vector<u32> evGen;
  u32 gen = 0;
  const Model* evModel = nullptr;
  void beginEval(const Model* m) { gen++; evModel = m; }
  u128 eval(Expr* e) {
    if (e->op == O_CONST) return e->val;
    if (evGen.size() <= e->id) { evGen.resize(all.size() + 1024, 0); evVal.resize(all.size() + 1024); }
    if (evGen[e->id] == gen) return evVal[e->id];
    u128 r = 0, m = maskw(e->w);
    switch (e->op) {
      case O_SYM: r = evModel->get(e->sym) & m; break;
      case O_ITE: r = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]); break;
      case O_CONCAT: r = (eval(e->k[0]) << e->k[1]->w) | eval(e->k[1]); break;
      case O_EXTRACT: r = (eval(e->k[0]) >> e->aux) & m; break;
      case O_ZEXT: r = eval(e->k[0]); break;
      case O_SEXT: r = (u128)sgn(eval(e->k[0]), e->k[0]->w) & m; break;
      case O_FP: r = fpFold(e->fpop, e->w, e->aux, eval(e->k[0]), e->k[1] ? eval(e->k[1]) : 0); break;
      default: r = fold(e->op, e->k[0]->w, eval(e->k[0]), eval(e->k[1]));
    }
    evGen[e->id] = gen; evVal[e->id] = r;
    return r;
  }
  u128 evalUnder(Expr* e, const Model& m) { if (e->op == O_CONST) return e->val; beginEval(&m); return eval(e); }
};

extern ExprPool P;

struct SolverStats { u64 queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0; double time = 0; double maxTime = 0; u64 simplified = 0; };

class Solver {
 public:
  Z3_context ctx;
  Z3_solver slv;
  std::vector<Z3_ast> memo;
  SolverStats st;
  unsigned timeoutMs = 60000, firstMs = 2000;
  std::string dumpDir; unsigned dumpEvery = 0; u64 dumped = 0; unsigned dumpMax = 200;
  struct CacheEnt { int res; std::vector<std::pair<u32, u128>> model; };
  std::unordered_map<std::string, CacheEnt> cache;
  std::vector<Model> recent;

  Solver() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    Z3_del_config(cfg);
    slv = nullptr;
  }
  void newSolver(bool fp, unsigned ms) {
    if (slv) Z3_solver_dec_ref(ctx, slv);
    slv = fp ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, slv, p);
    Z3_params_dec_ref(ctx, p);
  }
  Z3_ast bv(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
    Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64));
    return Z3_mk_concat(ctx, hi, lo);
  }
  bool usedFp = false;
  // Booleans (w==1 comparisons) are kept as 1-bit vectors at expression level;
  // toBool gives the Z3 Boolean directly to keep formulas readable for Z3.
  std::vector<Z3_ast> memoB;
  Z3_ast toBool(Expr* e) {
    if (memoB.size() <= e->id) memoB.resize(P.all.size() + 1024, nullptr);
    if (memoB[e->id]) return memoB[e->id];
    Z3_ast r;
    switch (e->op) {
      case O_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case O_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1])) : Z3_mk_eq(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_ULT: r = Z3_mk_bvult(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_ULE: r = Z3_mk_bvule(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_SLT: r = Z3_mk_bvslt(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_SLE: r = Z3_mk_bvsle(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_AND: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
      case O_OR: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
      case O_XOR: if (e->k[0]->op == O_CONST && e->k[0]->val) r = Z3_mk_not(ctx, toBool(e->k[1])); else r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1])); break;
      case O_ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
      case O_FP: r = fpToZ3(e); break;
      default: r = Z3_mk_eq(ctx, toZ3(e), bv(1, 1)); break;
    }
    Z3_inc_ref(ctx, r);
    if (memoB.size() <= e->id) memoB.resize(P.all.size() + 1024, nullptr);
    memoB[e->id] = r;
    return r;
  }
  Z3_sort fpsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
  Z3_ast asFp(Expr* e) { return Z3_mk_fpa_to_fp_bv(ctx, toZ3(e), fpsort(e->w)); }
  Z3_ast fpToZ3(Expr* e) {  // comparisons -> bool; others -> bv
    Z3_ast rne = Z3_mk_fpa_rne(ctx), rtz = Z3_mk_fpa_rtz(ctx);
    switch (e->fpop) {
      case F_OEQ: return Z3_mk_fpa_eq(ctx, asFp(e->k[0]), asFp(e->k[1]));
      case F_OLT: return Z3_mk_fpa_lt(ctx, asFp(e->k[0]), asFp(e->k[1]));
      case F_OLE: return Z3_mk_fpa_leq(ctx, asFp(e->k[0]), asFp(e->k[1]));
      case F_UNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(ctx, asFp(e->k[0])), Z3_mk_fpa_is_nan(ctx, asFp(e->k[1]))}; return Z3_mk_or(ctx, 2, a); }
      case F_ADD: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne, asFp(e->k[0]), asFp(e->k[1])));
      case F_SUB: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne, asFp(e->k[0]), asFp(e->k[1])));
      case F_MUL: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne, asFp(e->k[0]), asFp(e->k[1])));
      case F_DIV: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne, asFp(e->k[0]), asFp(e->k[1])));
      case F_FROM_SI: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne, toZ3(e->k[0]), fpsort(e->w)));
      case F_FROM_UI: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne, toZ3(e->k[0]), fpsort(e->w)));
      case F_TO_SI: return Z3_mk_fpa_to_sbv(ctx, rtz, asFp(e->k[0]), e->w);
      case F_TO_UI: return Z3_mk_fpa_to_ubv(ctx, rtz, asFp(e->k[0]), e->w);
      case F_TO_FP: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, asFp(e->k[0]), fpsort(e->w)));
    }
    abort();
  }
  Z3_ast toZ3(Expr* e) {
    if (memo.size() <= e->id) memo.resize(P.all.size() + 1024, nullptr);
    if (memo[e->id]) return memo[e->id];
    Z3_ast r;
    auto b2v = [&](Z3_ast b) { return Z3_mk_ite(ctx, b, bv(1, 1), bv(0, 1)); };
    switch (e->op) {
      case O_CONST: r = bv(e->val, e->w); break;
      case O_SYM: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("s" + std::to_string(e->sym)).c_str()), Z3_mk_bv_sort(ctx, e->w)); break;
      case O_ADD: r = Z3_mk_bvadd(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_SUB: r = Z3_mk_bvsub(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_MUL: r = Z3_mk_bvmul(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_UDIV: r = Z3_mk_bvudiv(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_SDIV: r = Z3_mk_bvsdiv(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_UREM: r = Z3_mk_bvurem(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_SREM: r = Z3_mk_bvsrem(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_AND: r = e->w == 1 ? b2v(toBool(e)) : Z3_mk_bvand(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_OR: r = e->w == 1 ? b2v(toBool(e)) : Z3_mk_bvor(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_XOR: r = e->w == 1 ? b2v(toBool(e)) : Z3_mk_bvxor(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_SHL: r = Z3_mk_bvshl(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_LSHR: r = Z3_mk_bvlshr(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_ASHR: r = Z3_mk_bvashr(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: r = b2v(toBool(e)); break;
      case O_ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), toZ3(e->k[1]), toZ3(e->k[2])); break;
      case O_CONCAT: r = Z3_mk_concat(ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
      case O_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, toZ3(e->k[0])); break;
      case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, toZ3(e->k[0])); break;
      case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, toZ3(e->k[0])); break;
      case O_FP: r = (e->fpop >= F_OEQ && e->fpop <= F_UNO) ? b2v(toBool(e)) : fpToZ3(e); break;
      default: abort();
    }
    Z3_inc_ref(ctx, r);
    if (memo.size() <= e->id) memo.resize(P.all.size() + 1024, nullptr);
    memo[e->id] = r;
    return r;
  }
  static bool containsFp(Expr* e, std::unordered_map<u32, bool>& seen) {
    if (e->op == O_FP) return true;
    auto it = seen.find(e->id);
    if (it != seen.end()) return it->second;
    bool r = false;
    for (int i = 0; i < e->nk && !r; i++) r = containsFp(e->k[i], seen);
    return seen[e->id] = r;
  }

  // Satisfiability of the conjunction of cs. 1 sat, 0 unsat, -1 unknown.
  // On sat fills m for the variables occurring in cs.
  bool guess(std::vector<Expr*>& cs, const Model& base, Model& g) {
    static u64 seed = 0x243f6a8885a308d3ull;
    const VarSet* vs = P.emptyVS;
    for (auto* c : cs) vs = P.unionVS(vs, c->vars);
    for (int t = 0; t < 400; t++) {
      g = base;
      for (size_t i = 0; i < vs->bits.size(); i++) for (int b = 0; b < 64; b++) if ((vs->bits[i] >> b) & 1) {
        seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
        unsigned w = std::min(64u, (unsigned)P.syms[i * 64 + b].w); u64 ones = ~0ull >> (64 - w);
        u64 v = seed & ones;
        switch ((seed >> 40) % 8) { case 0: v &= 1; break; case 1: v = ones; break; case 2: v = ones >> 1; break; case 3: v = (ones >> 1) + 1; break; case 4: continue; case 5: v >>= (seed >> 50) % w; break; default:; }
        g.set(i * 64 + b, v);
      }
      P.beginEval(&g); bool ok = true;
      for (auto* c : cs) if (!P.eval(c)) { ok = false; break; }
      if (ok) return true;
    }
    return false;
  }
  int check(std::vector<Expr*>& cs, Model& m) {
    std::vector<u32> ids;
    for (auto* c : cs) ids.push_back(c->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    std::string key((const char*)ids.data(), ids.size() * sizeof(u32));
    auto it = cache.find(key);
    if (it != cache.end()) {
      st.cacheHits++;
      for (auto& p : it->second.model) m.set(p.first, p.second);
      return it->second.res;
    }
    // Try recent models.
    for (size_t i = recent.size(); i-- > 0;) {
      P.beginEval(&recent[i]);
      bool ok = true;
      for (auto* c : cs) if (!P.eval(c)) { ok = false; break; }
      if (ok) {
        st.modelHits++;
        CacheEnt ce; ce.res = 1;
        collect(cs, recent[i], m, ce);
        cache.emplace(key, std::move(ce));
        return 1;
      }
    }
    auto t0 = std::chrono::steady_clock::now();
    st.queries++;
    std::unordered_map<u32, bool> seen;
    bool fp = false;
    if (P.madeFp) for (auto* c : cs) if (containsFp(c, seen)) { fp = true; break; }
    newSolver(fp, std::min(timeoutMs, firstMs));
    for (auto* c : cs) Z3_solver_assert(ctx, slv, toBool(c));
    if (dumpEvery && st.queries % dumpEvery == 0 && dumped < dumpMax) pendingDump = Z3_solver_to_string(ctx, slv); else pendingDump.clear();
    Z3_lbool r = Z3_solver_check(ctx, slv);
    if (r == Z3_L_UNDEF && timeoutMs > firstMs) {
      // Hard: see whether one of some extreme or arbitrary assignments is a model, then insist.
      Model g;
      if (guess(cs, m, g)) {
        st.sat++; st.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        CacheEnt ce; ce.res = 1; collect(cs, g, m, ce); cache.emplace(key, std::move(ce)); recent.push_back(g); if (recent.size() > 12) recent.erase(recent.begin());
        return 1;
      }
      newSolver(fp, timeoutMs - firstMs);
      for (auto* c : cs) Z3_solver_assert(ctx, slv, toBool(c));
      r = Z3_solver_check(ctx, slv);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.time += dt; st.maxTime = std::max(st.maxTime, dt);
    if (!pendingDump.empty() && r != Z3_L_UNDEF) {
      std::string fn = dumpDir + "/q" + std::to_string(dumped++) + (r == Z3_L_TRUE ? ".sat" : ".unsat") + ".smt2";
      if (FILE* f = fopen(fn.c_str(), "w")) { fprintf(f, "(set-logic %s)\n%s(check-sat)\n", fp ? "QF_BVFP" : "QF_BV", pendingDump.c_str()); fclose(f); }
    }
    CacheEnt ce;
    if (r == Z3_L_FALSE) { st.unsat++; ce.res = 0; cache.emplace(key, ce); return 0; }
    if (r == Z3_L_UNDEF) { st.unknown++; return -1; }
    st.sat++;
    Z3_model zm = Z3_solver_get_model(ctx, slv);
    Z3_model_inc_ref(ctx, zm);
    Model full;
    const VarSet* vs = P.emptyVS;
    for (auto* c : cs) vs = P.unionVS(vs, c->vars);
    for (size_t wI = 0; wI < vs->bits.size(); wI++)
      for (unsigned bI = 0; bI < 64; bI++) if (vs->bits[wI] >> bI & 1) {
        u32 s = wI * 64 + bI;
        Expr* se = P.sym(P.syms[s].name, P.syms[s].w, P.syms[s].undef);
        Z3_ast v = nullptr;
        u128 val = 0;
        if (Z3_model_eval(ctx, zm, toZ3(se), true, &v) && v) {
          Z3_inc_ref(ctx, v);
          uint64_t x = 0;
          if (se->w <= 64) { Z3_get_numeral_uint64(ctx, v, &x); val = x; }
          else {
            std::string str = Z3_get_numeral_string(ctx, v);
            for (char ch : str) val = val * 10 + (ch - '0');
          }
          Z3_dec_ref(ctx, v);
        }
        full.set(s, val);
      }
    Z3_model_dec_ref(ctx, zm);
    ce.res = 1;
    collect(cs, full, m, ce);
    cache.emplace(key, std::move(ce));
    recent.push_back(full);
    if (recent.size() > 12) recent.erase(recent.begin());
    return 1;
  }
  std::string pendingDump;
  void collect(std::vector<Expr*>& cs, const Model& src, Model& m, CacheEnt& ce) {
    const VarSet* vs = P.emptyVS;
    for (auto* c : cs) vs = P.unionVS(vs, c->vars);
    for (size_t w = 0; w < vs->bits.size(); w++)
      if (vs->bits[w]) for (unsigned b = 0; b < 64; b++) if (vs->bits[w] >> b & 1) {
        u32 s = w * 64 + b;
        m.set(s, src.get(s));
        ce.model.push_back({s, src.get(s)});
      }
  }
};
