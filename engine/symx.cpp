// symx: a symbolic executor for LLVM bitcode.
//
// Executes one harness function of a linked module on all feasible paths.
// Branches on symbolic conditions fork; memory is a set of separate objects
// with byte-level concrete/symbolic/uninitialised contents; every access is
// checked against object bounds and liveness; exceptions, virtual dispatch and
// thread-locals are executed as the IR says; library leaf functions are either
// bitcode (rt.cpp) or the builtins at the end of this file. Each symx_check is
// an obligation: the solver is asked for path-condition and not(cond).
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <unistd.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>
#include <set>
#include <sys/resource.h>
#include <pthread.h>
#include <unordered_set>

ExprPool P;
static Solver S;
using namespace llvm;

// ---------------------------------------------------------------- options
static std::string optEntry, optBc, optOut, optCexDir, optDump;
static u64 optMaxSteps = 30000000, optMaxViol = 12;
static double optTimeout = 600;
static unsigned optSolverMs = 60000, optDumpEvery = 0;
static bool optReuse = false, optConcFp = false, optDescending = false; static int optVerbose = 0;
static u64 optMaxPaths = 0;
static std::vector<u64> optParams;
static std::string optSrcPrefix = "/repo/";

// ---------------------------------------------------------------- values
struct Val {
  u64 c; Expr* e;
  Val() : c(0), e(nullptr) {}
  Val(u64 x) : c(x), e(nullptr) {}
  Val(Expr* x) { if (x->op == O_CONST && x->w <= 64) { c = (u64)x->val; e = nullptr; } else { c = 0; e = x; } }
  bool sym() const { return e != nullptr; }
};
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : P.C(v.c, w); }
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static u64 undefCounter = 0;
static Val freshUndef(unsigned w) { return Val(P.sym("undef" + std::to_string(undefCounter++), w, true)); }

// ---------------------------------------------------------------- memory
enum Tag : u8 { T_CONC = 0, T_SYM = 1, T_UNDEF = 2 };
enum ObjKind : u8 { K_GLOBAL, K_CONST, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_OTHER };
struct Obj {
  u32 rc = 0, size = 0; ObjKind kind = K_OTHER; bool alive = true; bool plain = true;  // plain: all tags concrete
  u64 base = 0; const char* what = "";
  u8* conc = nullptr; u8* tag = nullptr; Expr** sym = nullptr;
  Obj(u32 n) : size(n) { conc = (u8*)calloc(n ? n : 1, 1); tag = (u8*)calloc(n ? n : 1, 1); }
  Obj(const Obj& o) : rc(0), size(o.size), kind(o.kind), alive(o.alive), plain(o.plain), base(o.base), what(o.what) {
    u32 n = size ? size : 1;
    conc = (u8*)malloc(n); memcpy(conc, o.conc, n); tag = (u8*)malloc(n); memcpy(tag, o.tag, n);
    if (o.sym) { sym = (Expr**)malloc(n * sizeof(Expr*)); memcpy(sym, o.sym, n * sizeof(Expr*)); }
  }
  ~Obj() { free(conc); free(tag); free(sym); }
  void needSym() { if (!sym) sym = (Expr**)calloc(size ? size : 1, sizeof(Expr*)); }
};
template <typename T> struct Ref {
  T* p = nullptr;
  Ref() {}
  Ref(T* x) : p(x) { if (p) p->rc++; }
  Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref&& o) : p(o.p) { o.p = nullptr; }
  Ref& operator=(const Ref& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  Ref& operator=(Ref&& o) { std::swap(p, o.p); return *this; }
  ~Ref() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  T* operator->() const { return p; }
  explicit operator bool() const { return p; }
  T* unique() { if (p->rc > 1) { T* n = new T(*p); n->rc = 1; p->rc--; p = n; } return p; }
};
struct Chunk { u32 rc = 0; Ref<Obj> o[64]; Chunk() {} Chunk(const Chunk& c) { for (int i = 0; i < 64; i++) o[i] = c.o[i]; } };
struct Space {
  std::vector<Ref<Chunk>> ch;
  Obj* get(u64 slot) const { u64 c = slot >> 6; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[slot & 63].p; }
  Obj* getW(u64 slot) { Chunk* c = ch[slot >> 6].unique(); return c->o[slot & 63].unique(); }
  void set(u64 slot, Obj* o) { u64 c = slot >> 6; if (c >= ch.size()) ch.resize(c + 1); if (!ch[c]) ch[c] = Ref<Chunk>(new Chunk()); ch[c].unique()->o[slot & 63] = Ref<Obj>(o); }
};
// Address layout: heap/global objects 256 MB apart below 2^46; per-thread stack
// objects 16 MB apart above; function addresses at 0x7f0000000000.
static const u64 HEAP_STRIDE = 1ULL << 28, STACK_BASE = 1ULL << 46, STACK_STRIDE = 1ULL << 24, THREAD_SPAN = 1ULL << 43;
static const u64 FUNC_BASE = 0x7f0000000000ULL;
static const u64 HEAP_SLOTS = (1ULL << 18) - 2;

// ---------------------------------------------------------------- compiled code
enum IK : u8 { I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_FPCAST,
  I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_LPAD, I_RESUME, I_UNREACHABLE, I_EXTRACTV, I_INSERTV, I_RMW, I_CMPXCHG, I_FENCE, I_FREEZE, I_UNSUP };
struct Edge { int target = -1; std::vector<std::pair<int, int>> copies; std::vector<u16> widths; };
struct Leaf { u64 off; u16 w; };
struct CFunc; struct State;
typedef std::function<void(State&, struct CInst&, std::vector<Val>&)> Builtin;
struct CInst {
  IK k; u8 sub = 0; u16 w = 0, w2 = 0; int dst = -1, a = 0, b = 0, c = 0; u64 aux = 0; bool isPtr = false, nsw = false, nuw = false, exact = false;
  const Instruction* I = nullptr;
  std::vector<int> args; std::vector<u16> argW; std::vector<Leaf> leaves; std::vector<std::pair<int, u64>> scaled;
  std::vector<Edge> edges; std::vector<u64> cases; std::vector<u64> byval;
  Function* callee = nullptr; Builtin* bi = nullptr; CFunc* cf = nullptr; int nret = 0;
};
struct CFunc { Function* F; int nregs = 0; std::vector<CInst> ins; std::vector<Val> pool; std::vector<u16> poolUndefW; std::vector<int> argRegs; bool inRepo = false, inRt = false; u64 execs = 0; int nargs = 0; std::string name; };

struct Frame { u32 rc = 0; CFunc* f; int pc = 0; std::vector<Val> r; std::vector<u64> allocas; u64 stackTop; std::vector<Val> varargs; };
struct Thread { std::vector<Ref<Frame>> fr; Val excPtr; u64 excSel = 0; u64 stackTop = 0; u64 lastUnwound = 0; };
// Happens-before data-race detection: clocks per thread and synchronisation
// object, last accesses per byte (only from the first thread start on).
enum { MAXT = 8 };
struct VC { u32 c[MAXT] = {0}; void join(const VC& o) { for (int i = 0; i < MAXT; i++) c[i] = std::max(c[i], o.c[i]); } };
struct Shadow { u8 wt = 255; u32 wc = 0; VC rd; const Instruction *wi = nullptr, *ri = nullptr; };
struct Races { VC vc[MAXT]; std::map<u64, VC> sync; std::unordered_map<u64, Shadow> sh; };
struct Group { u32 rc = 0; const VarSet* vars; std::vector<Expr*> cs; std::vector<std::pair<Expr*, u128>> eqs; };
struct SymIn { std::string name; std::vector<Expr*> bytes; };
struct Obs { std::string name; Expr* e; };

struct State {
  std::vector<Thread> th; int cur = 0;
  Space heap; std::vector<Space> stack; u64 heapTop = 0;
  std::map<std::pair<int, const GlobalVariable*>, u64> tls;
  std::vector<Ref<Group>> groups;
  Model model;
  std::vector<std::pair<u64, u64>> freed;
  u64 steps = 0; u32 nsyms = 0; 
  std::vector<SymIn> inputs; std::vector<Obs> obs;
  bool dead = false; u64 liveHeap = 0; int depth = 0;
  std::vector<std::string> trace;
  std::shared_ptr<Races> races;
};
// ---------------------------------------------------------------- global engine state
static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::map<const GlobalValue*, u64> gaddr;
static Space globInit;   // initial contents of globals (copied into the first state's `glob`)
static std::map<const Function*, CFunc*> cfuncs;
static std::vector<Function*> funcByIdx;
static std::map<std::string, Builtin> builtins;
static std::vector<State*> work;
static std::map<const GlobalVariable*, int> typeIds;
static std::set<std::string> unsupported, incomplete, reached, undefinedCalled;
static std::map<std::string, u64> checkCounts;
struct Viol { std::string kind, label, loc, trace, file; u64 count; size_t id; };
static std::map<std::string, Viol> viols;
static std::string optWit; static u64 optWitMax = 12, nWit = 0, nextWit = 1;
static u64 nPaths = 0, nAssumeKilled = 0, nForks = 0, nViolPaths = 0, nLimit = 0, totalSteps = 0, nChecks = 0, nChecksSym = 0, nMemSym = 0, maxPathSteps = 0, nPathsWithReach = 0;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static size_t maxInputBytes = 0;

struct GState { Space glob; };
// Each state carries its own view of the globals.
struct FullState : State { Space glob; };
static inline FullState& FS(State& s) { return static_cast<FullState&>(s); }

static void fatal(const std::string& m) { fprintf(stderr, "symx: %s\n", m.c_str()); exit(2); }

// ---------------------------------------------------------------- locations
static std::string locOf(const Instruction* I) {
  if (!I) return "?";
  if (const DebugLoc& dl = I->getDebugLoc()) {
    auto* sc = cast<DIScope>(dl.getScope());
    return (sc->getFilename() + ":" + Twine(dl.getLine())).str();
  }
  return std::string(I->getFunction()->getName());
}
static std::string shortName(const std::string& n) { std::string d = llvm::demangle(n); return d.size() > 160 ? d.substr(0, 160) + "..." : d; }
static std::string traceOf(State& st, std::string* inRepo, unsigned maxf = 24) {
  std::string out;
  if (inRepo) inRepo->clear();
  auto& fr = st.th[st.cur].fr;
  unsigned n = 0;
  for (size_t i = fr.size(); i-- > 0;) {
    auto& f = *fr[i].p;
    const Instruction* I = f.pc < (int)f.f->ins.size() ? f.f->ins[f.pc].I : nullptr;
    std::string l = locOf(I);
    if (inRepo && inRepo->empty() && l.compare(0, optSrcPrefix.size(), optSrcPrefix) == 0) *inRepo = l;
    if (n++ < maxf) out += shortName(f.f->name) + " at " + l + "\n";
  }
  return out;
}

// ---------------------------------------------------------------- constraints
static void addC(State& st, Expr* c) {
  if (c->op == O_CONST) { if (!c->val) fatal("adding false constraint"); return; }
  if (c->op == O_AND && c->w == 1) { addC(st, c->k[0]); addC(st, c->k[1]); return; }
  const VarSet* vs = c->vars;
  std::vector<Ref<Group>> keep; Group* g = new Group(); g->vars = vs;
  auto overlap = [](const VarSet* a, const VarSet* b) { size_t n = std::min(a->bits.size(), b->bits.size()); for (size_t i = 0; i < n; i++) if (a->bits[i] & b->bits[i]) return true; return false; };
  bool dup = false;
  for (auto& r : st.groups) {
    if (overlap(r->vars, vs)) { g->vars = P.unionVS(g->vars, r->vars); g->cs.insert(g->cs.end(), r->cs.begin(), r->cs.end()); g->eqs.insert(g->eqs.end(), r->eqs.begin(), r->eqs.end()); }
    else keep.push_back(r);
  }
  for (auto* e : g->cs) if (e == c) dup = true;
  if (!dup) {
    g->cs.push_back(c);
    Expr* e = c; bool neg = false;
    if (e->op == O_EQ && e->k[0]->op == O_CONST) g->eqs.push_back({e->k[1], e->k[0]->val});
    else if (e->op == O_XOR && e->w == 1 && e->k[0]->op == O_CONST && e->k[1]->op != O_EQ) g->eqs.push_back({e->k[1], 0});
    (void)neg;
  }
  keep.push_back(Ref<Group>(g));
  st.groups.swap(keep);
}
static bool overlapVS(const VarSet* a, const VarSet* b) { size_t n = std::min(a->bits.size(), b->bits.size()); for (size_t i = 0; i < n; i++) if (a->bits[i] & b->bits[i]) return true; return false; }
// 1: implied by literal membership, 0: negation present, -1 unknown
static int known(State& st, Expr* c) {
  Expr* nc = P.Not(c);
  for (auto& r : st.groups) if (overlapVS(r->vars, c->vars)) for (auto* e : r->cs) { if (e == c) return 1; if (e == nc) return 0; }
  return -1;
}
// The value of e if the path's equalities with constants determine it cheaply.
static bool pinnedRec(const std::vector<const Group*>& gs, Expr* e, u128& v, int& budget) {
  if (e->op == O_CONST) { v = e->val; return true; }
  if (--budget < 0) return false;
  for (auto* g : gs) for (auto& q : g->eqs) if (q.first == e) { v = q.second; return true; }
  u128 a, b;
  switch (e->op) {
    case O_ZEXT: return pinnedRec(gs, e->k[0], v, budget);
    case O_SEXT: if (!pinnedRec(gs, e->k[0], a, budget)) return false; v = (u128)sgn(a, e->k[0]->w) & maskw(e->w); return true;
    case O_EXTRACT: if (!pinnedRec(gs, e->k[0], a, budget)) return false; v = (a >> e->aux) & maskw(e->w); return true;
    case O_CONCAT: if (!pinnedRec(gs, e->k[0], a, budget) || !pinnedRec(gs, e->k[1], b, budget)) return false; v = (a << e->k[1]->w) | b; return true;
    case O_ADD: case O_SUB: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR:
      if (!pinnedRec(gs, e->k[0], a, budget) || !pinnedRec(gs, e->k[1], b, budget)) return false;
      v = ExprPool::fold(e->op, e->w, a, b); return true;
    default: return false;
  }
}
static bool pinned(State& st, Expr* e, u128& v) {
  std::vector<const Group*> gs;
  for (auto& r : st.groups) if (!r->eqs.empty() && overlapVS(r->vars, e->vars)) gs.push_back(r.p);
  if (gs.empty()) return false;
  int budget = 24;
  return pinnedRec(gs, e, v, budget);
}
static void dumpE(Expr* e, int d = 0) {
  static const char* on[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fp"};
  if (e->op == O_CONST) { fprintf(stderr, "%llx", (unsigned long long)e->val); return; }
  if (e->op == O_SYM) { fprintf(stderr, "%s", P.syms[e->sym].name.c_str()); return; }
  if (d > 12) { fprintf(stderr, "..."); return; }
  fprintf(stderr, "(%s%d.%d", on[e->op], e->w, e->aux); for (int i = 0; i < e->nk; i++) { fprintf(stderr, " "); dumpE(e->k[i], d + 1); } fprintf(stderr, ")");
}
// Where two expressions first differ (for -v).
static void diffE(Expr* a, Expr* b, std::set<std::pair<Expr*, Expr*>>& seen, int& left) {
  if (a == b || left <= 0 || !seen.insert({a, b}).second) return;
  if (a->op == b->op && a->w == b->w && a->aux == b->aux && a->nk == b->nk && a->nk) {
    int diff = 0; for (int i = 0; i < a->nk; i++) diff += a->k[i] != b->k[i];
    if (diff < a->nk || a->nk == 1) { for (int i = 0; i < a->nk; i++) diffE(a->k[i], b->k[i], seen, left); return; }
  }
  left--; fprintf(stderr, "DIFF\n  "); dumpE(a, 5); fprintf(stderr, "\n  "); dumpE(b, 5); fprintf(stderr, "\n");
}
// Feasibility of pc and c.  On 1, m holds a full model.
static int feasible(State& st, Expr* c, Model& m) {
  if (c->op == O_CONST) { if (c->val) m = st.model; return (int)c->val; }
  if (P.evalUnder(c, st.model)) { m = st.model; return 1; }
  const VarSet* vs = c->vars;
  std::vector<Expr*> cs{c};
  for (auto& r : st.groups) if (overlapVS(r->vars, vs)) cs.insert(cs.end(), r->cs.begin(), r->cs.end());
  m = st.model;
  int r = S.check(cs, m);
  if (r < 0) {
    incomplete.insert("solver returned unknown (timeout)");
    if (optVerbose) { fprintf(stderr, "UNKNOWN "); dumpE(c); fprintf(stderr, " pc:"); for (auto& r : st.groups) if (overlapVS(r->vars, vs)) for (auto* e : r->cs) { fprintf(stderr, "\n   "); dumpE(e); } fprintf(stderr, "\n"); Expr* e = c; while (e->op == O_XOR && P.isC(e->k[0])) e = e->k[1]; std::set<std::pair<Expr*, Expr*>> seen; int left = 3; while (e->op == O_AND) e = e->k[0]; if (e->op == O_EQ) diffE(e->k[0], e->k[1], seen, left); }
  }
  return r;
}
// Before asking the solver: does one of a few arbitrary assignments satisfy the
// path condition and c?  (Finds models of negated digest equations, which are
// hard for a SAT solver and easy to hit.)
static bool probe(State& st, Expr* c, Model& m) {
  static u64 seed = 0x243f6a8885a308d3ull;
  std::vector<Expr*> cs{c};
  const VarSet* vs = c->vars;
  for (auto& r : st.groups) if (overlapVS(r->vars, vs)) { cs.insert(cs.end(), r->cs.begin(), r->cs.end()); vs = P.unionVS(vs, r->vars); }
  for (int t = 0; t < 4; t++) {
    m = st.model;
    for (size_t i = 0; i < c->vars->bits.size(); i++) for (int b = 0; b < 64; b++) if ((c->vars->bits[i] >> b) & 1) {
      seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
      unsigned w = P.syms[i * 64 + b].w; m.set(i * 64 + b, (t == 3 ? seed & 1 : seed) & maskw(w));
    }
    P.beginEval(&m); bool ok = true;
    for (Expr* e : cs) if (!P.eval(e)) { ok = false; break; }
    if (ok) return true;
  }
  return false;
}
// Does an uninitialised byte really decide c on this path?
static bool undefMatters(State& st, Expr* c) {
  std::map<Expr*, Expr*> memo;
  Expr* d = P.Not(P.Eq(c, P.renameUndef(c, memo)));
  Model m;
  return feasible(st, d, m) == 1;
}
static State* fork(State& st) { nForks++; FullState* n = new FullState(FS(st)); n->depth++; return n; }

// ---------------------------------------------------------------- violations
static void writeCex(State& st, const Model& m, const std::string& file, const std::string& kind, const std::string& label) {
  FILE* f = fopen(file.c_str(), "w");
  if (!f) return;
  fprintf(f, "# entry %s\n# kind %s\n# label %s\n", optEntry.c_str(), kind.c_str(), label.c_str());
  for (size_t i = 0; i < optParams.size(); i++) fprintf(f, "param %zu %llu\n", i, (unsigned long long)optParams[i]);
  for (auto& in : st.inputs) {
    fprintf(f, "input %s ", in.name.c_str());
    P.beginEval(&m);
    for (auto* b : in.bytes) fprintf(f, "%02x", (unsigned)P.eval(b));
    fprintf(f, "\n");
  }
  if (kind == "witness") { P.beginEval(&m); for (auto& o : st.obs) { if (o.e) fprintf(f, "obs %s %llx\n", o.name.c_str(), (unsigned long long)P.eval(o.e)); else fprintf(f, "reach %s\n", o.name.c_str()); } }
  fclose(f);
}
static void violateM(State& st, const Model& m, const std::string& kind, const std::string& label) {
  std::string loc, tr = traceOf(st, &loc);
  if (loc.empty()) { auto& fr = st.th[st.cur].fr; if (!fr.empty()) loc = locOf(fr.back()->f->ins[fr.back()->pc].I); }
  std::string key = kind + "|" + label + "|" + (kind == "check" ? "" : loc);
  auto it = viols.find(key);
  nViolPaths++;
  if (it != viols.end()) {
    // Keep a few alternative counterexamples: the replay may confirm a later one.
    u64 c = ++it->second.count; if (c > 8) return;
    std::string file = optCexDir + "/cex" + std::to_string(it->second.id) + "_" + std::to_string(c) + ".txt";
    writeCex(st, m, file, kind, label); it->second.file += "|" + file;
    return;
  }
  if (viols.size() >= optMaxViol) { incomplete.insert("violation limit reached"); return; }
  std::string file = optCexDir + "/cex" + std::to_string(viols.size()) + ".txt";
  writeCex(st, m, file, kind, label);
  viols[key] = Viol{kind, label, loc, tr, file, 1, viols.size()};
  if (optVerbose) fprintf(stderr, "VIOL %s %s at %s\n%s", kind.c_str(), label.c_str(), loc.c_str(), tr.c_str());
}
static void violate(State& st, const std::string& kind, const std::string& label) { violateM(st, st.model, kind, label); st.dead = true; }
static void unsup(State& st, const std::string& what) { std::string l; std::string tr = traceOf(st, &l, 6); if (unsupported.insert(what).second && optVerbose) fprintf(stderr, "UNSUP %s\n%s", what.c_str(), tr.c_str()); st.dead = true; }

// Decide a branch: returns the side the current state takes; the other side, if
// feasible, is queued as a clone that re-executes the current instruction.
static bool decide(State& st, Expr* c) {
  if (c->op == O_CONST) return c->val;
  int k = known(st, c);
  if (k >= 0) return k;
  bool side = P.evalUnder(c, st.model);
  Expr* other = side ? P.Not(c) : c;
  Model m;
  int r = feasible(st, other, m);
  if (r == 1) {
    if (c->undef && undefMatters(st, c)) {
      if (optVerbose) { dumpE(c); fprintf(stderr, "\n"); }
      violateM(st, st.model, "uninit", "branch depends on uninitialised memory");
    }
    State* n = fork(st);
    n->model = m;
    addC(*n, other);
    work.push_back(n);
  }
  addC(st, side ? c : P.Not(c));
  return side;
}
static u64 concretize(State& st, const Val& v, unsigned w) {
  if (!v.sym()) return v.c;
  Expr* e = v.e;
  u128 x = P.evalUnder(e, st.model);
  Expr* eq = P.Eq(P.C(x, w), e);
  if (eq->op != O_CONST && known(st, eq) != 1) {
    Expr* ne = P.Not(eq);
    Model m;
    if (feasible(st, ne, m) == 1) {
      if (e->undef && undefMatters(st, e)) violateM(st, st.model, "uninit", "address or size depends on uninitialised memory");
      State* n = fork(st); n->model = m; addC(*n, ne); work.push_back(n);
    }
    addC(st, eq);
  }
  return (u64)x;
}

// ---------------------------------------------------------------- memory access
static const u64 HEAP_BASE = 1ULL << 45;
static u64 heapAddr(u64 slot) { return optDescending ? HEAP_BASE + (HEAP_SLOTS / 2 - 1 - slot) * HEAP_STRIDE : HEAP_BASE + slot * HEAP_STRIDE; }
struct Loc { int region = -1; int t = 0; u64 slot = 0; u64 off = 0; };
static bool locate(u64 a, Loc& l) {
  if (a >= FUNC_BASE) return false;
  if (a >= STACK_BASE) { u64 r = a - STACK_BASE; l.region = 2; l.t = r / THREAD_SPAN; r %= THREAD_SPAN; l.slot = r / STACK_STRIDE; l.off = r % STACK_STRIDE; return true; }
  if (a >= HEAP_BASE) { u64 s = (a - HEAP_BASE) / HEAP_STRIDE; l.region = 1; l.slot = optDescending ? HEAP_SLOTS / 2 - 1 - s : s; l.off = (a - HEAP_BASE) % HEAP_STRIDE; return true; }
  if (a >= HEAP_STRIDE) { l.region = 0; l.slot = a / HEAP_STRIDE - 1; l.off = a % HEAP_STRIDE; return true; }
  return false;
}
static Obj* objAt(State& st, const Loc& l) {
  switch (l.region) {
    case 0: return FS(st).glob.get(l.slot);
    case 1: return st.heap.get(l.slot);
    case 2: return l.t < (int)st.stack.size() ? st.stack[l.t].get(l.slot) : nullptr;
  }
  return nullptr;
}
static Obj* objAtW(State& st, const Loc& l) {
  switch (l.region) {
    case 0: return FS(st).glob.getW(l.slot);
    case 1: return st.heap.getW(l.slot);
    default: return st.stack[l.t].getW(l.slot);
  }
}
static u64 allocHeap(State& st, u64 n, ObjKind k, bool zero, const char* what = "") {
  u64 slot;
  if (optReuse) {  // hand out the most recently freed block of the same size first
    for (size_t i = st.freed.size(); i-- > 0;) if (st.freed[i].second == ((n + 15) & ~15ull)) { slot = st.freed[i].first; st.freed.erase(st.freed.begin() + i); goto have; }
  }
  slot = st.heapTop++;
have:
  if (slot >= HEAP_SLOTS / 2 - 2) { fatal("heap exhausted"); }
  Obj* o = new Obj(n); o->kind = k; o->base = heapAddr(slot); o->what = what;
  if (!zero && n) { memset(o->tag, T_UNDEF, n); o->plain = false; }
  st.heap.set(slot, o);
  if (k == K_MALLOC || k == K_NEW || k == K_NEWARR) st.liveHeap++;
  return o->base;
}
static u64 allocStack(State& st, u64 n) {
  Thread& t = st.th[st.cur];
  u64 slot = t.stackTop++;
  Obj* o = new Obj(n); o->kind = K_STACK; o->base = STACK_BASE + st.cur * THREAD_SPAN + slot * STACK_STRIDE;
  if (n) { memset(o->tag, T_UNDEF, n); o->plain = false; }
  if ((int)st.stack.size() <= st.cur) st.stack.resize(st.cur + 1);
  st.stack[st.cur].set(slot, o);
  return o->base;
}
// Finds the object for a concrete address; reports violations.
static Obj* access(State& st, u64 a, u64 n, bool wr, Loc& l) {
  if (!locate(a, l)) { violate(st, "memory", a < HEAP_STRIDE ? (wr ? "null pointer write" : "null pointer read") : "access to code address"); return nullptr; }
  Obj* o = objAt(st, l);
  if (!o) { violate(st, "memory", l.region == 2 ? "access to dead stack object" : "wild pointer access"); return nullptr; }
  if (!o->alive) { violate(st, "memory", wr ? "use after free (write)" : "use after free (read)"); return nullptr; }
  if (l.off + n > o->size) {
    const char* k = o->kind == K_STACK ? "stack" : (o->kind == K_GLOBAL || o->kind == K_CONST) ? "global" : "heap";
    violate(st, "memory", std::string("out-of-bounds ") + (wr ? "write" : "read") + " of " + k + " object");
    return nullptr;
  }
  if (wr) {
    if (o->kind == K_CONST) { violate(st, "memory", "write to constant object"); return nullptr; }
    o = objAtW(st, l);
  }
  return o;
}
static Val readObj(State& st, const Loc& l, Obj* o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (o->plain) {
    u128 v = 0; memcpy(&v, o->conc + off, n);
    v &= maskw(w);
    if (w <= 64) return Val((u64)v);
    return Val(P.C(v, w));
  }
  bool anyU = false, anyS = false;
  for (unsigned i = 0; i < n; i++) { anyU |= o->tag[off + i] == T_UNDEF; anyS |= o->tag[off + i] == T_SYM; }
  if (!anyU && !anyS) {
    u128 v = 0; memcpy(&v, o->conc + off, n);
    v &= maskw(w);
    if (w <= 64) return Val((u64)v);
    return Val(P.C(v, w));
  }
  if (anyU) {
    o = objAtW(st, l); o->needSym();
    bool all = true;
    for (unsigned i = 0; i < n; i++) if (o->tag[off + i] != T_UNDEF) all = false;
    if (all && n > 1 && n <= 8) {
      Expr* u = P.sym("undef" + std::to_string(undefCounter++), n * 8, true);
      for (unsigned i = 0; i < n; i++) { o->tag[off + i] = T_SYM; o->sym[off + i] = P.extract(u, i * 8, 8); }
    } else
    for (unsigned i = 0; i < n; i++) if (o->tag[off + i] == T_UNDEF) { o->tag[off + i] = T_SYM; o->sym[off + i] = P.sym("undef" + std::to_string(undefCounter++), 8, true); }
  }
  Expr* e = nullptr;
  for (unsigned i = n; i-- > 0;) { Expr* b = o->tag[off + i] == T_SYM ? o->sym[off + i] : P.C(o->conc[off + i], 8); e = e ? P.concat(e, b) : b; }
  if (w < n * 8) e = P.extract(e, 0, w);
  return Val(e);
}
static void writeObj(Obj* o, u64 off, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!v.sym()) {
    u64 c = v.c & m64(w);
    memcpy(o->conc + off, &c, n > 8 ? 8 : n);
    if (n > 8) memset(o->conc + off + 8, 0, n - 8);
    if (!o->plain) memset(o->tag + off, T_CONC, n);
    return;
  }
  Expr* e = v.e;
  if (e->w < n * 8) e = P.zext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    Expr* b = P.extract(e, i * 8, 8);
    if (b->op == O_CONST) { o->conc[off + i] = (u8)b->val; o->tag[off + i] = T_CONC; }
    else { o->needSym(); o->sym[off + i] = b; o->tag[off + i] = T_SYM; o->plain = false; }
  }
}
// Symbolic address: checks bounds against the object the current model points
// into. Returns false if the state died.  On success either a concrete address
// (conc=true) or an object + symbolic offset guaranteed in bounds.
static bool resolve(State& st, const Val& p, u64 n, bool wr, u64& a, Obj** symObj, Expr** symOff, Loc* symLoc) {
  if (symObj) *symObj = nullptr;
  if (!p.sym()) { a = p.c; return true; }
  nMemSym++;
  if (p.e->undef && p.e->op == O_SYM) { violate(st, "uninit", "dereference of uninitialised pointer"); return false; }
  u64 x = (u64)P.evalUnder(p.e, st.model);
  Loc l; Obj* o = nullptr;
  if (locate(x, l)) o = objAt(st, l);
  // A pointer one-past or before an object: use the base the slot denotes.
  if (o && o->alive && o->size >= n) {
    u64 base = x - l.off;
    Expr* off = P.bin(O_SUB, p.e, P.C(base, 64));
    Expr* inb = P.bin(O_ULE, off, P.C(o->size - n, 64));
    if (!decide(st, inb)) {
      // current model is out of bounds of this object; fall through to concretise
    } else if (symObj && !wr && o->size <= 512) {
      *symObj = o; *symOff = off; *symLoc = l; return true;
    }
  }
  a = concretize(st, p, 64);
  return true;
}
static bool loadVal(State& st, const Val& p, unsigned w, bool isPtr, Val& out) {
  u64 a; Obj* so; Expr* off; Loc l; unsigned n = (w + 7) / 8;
  if (!resolve(st, p, n, false, a, isPtr ? nullptr : &so, &off, &l)) return false;
  if (!isPtr && p.sym() && so) {
    // in-bounds symbolic offset: ITE over candidate offsets
    u128 lo = off->umin, hi = std::min<u128>(off->umax, so->size - n);
    Expr* r = nullptr;
    for (u128 i = lo; i <= hi; i++) {
      Expr* cond = P.Eq(P.C(i, 64), off);
      if (cond->op == O_CONST && !cond->val) continue;
      so = objAt(st, l);
      Val v = readObj(st, l, so, (u64)i, w);
      Expr* ve = toE(v, w);
      r = r ? P.ite(cond, ve, r) : ve;
    }
    out = Val(r);
    return true;
  }
  Obj* o = access(st, a, n, false, l);
  if (!o) return false;
  out = readObj(st, l, o, l.off, w);
  return true;
}
static bool storeVal(State& st, const Val& p, const Val& v, unsigned w) {
  u64 a;
  unsigned n = (w + 7) / 8;
  if (!resolve(st, p, n, true, a, nullptr, nullptr, nullptr)) return false;
  Loc l; Obj* o = access(st, a, n, true, l);
  if (!o) return false;
  writeObj(o, l.off, v, w);
  return true;
}
// concrete-address helpers for builtins
static u64 rd64(State& st, u64 a) { Loc l; Obj* o = access(st, a, 8, false, l); if (!o) return 0; Val v = readObj(st, l, o, l.off, 64); return v.sym() ? (u64)P.evalUnder(v.e, st.model) : v.c; }
static void wr64(State& st, u64 a, u64 v) { Loc l; Obj* o = access(st, a, 8, true, l); if (o) writeObj(o, l.off, Val(v), 64); }
static std::string rdStr(State& st, u64 a) {
  std::string s; Loc l;
  if (!locate(a, l)) return s;
  Obj* o = objAt(st, l);
  if (!o) return s;
  for (u64 i = l.off; i < o->size && s.size() < 300; i++) { u8 c = o->tag[i] == T_CONC ? o->conc[i] : o->tag[i] == T_SYM ? (u8)P.evalUnder(o->sym[i], st.model) : '?'; if (!c) break; s += (char)c; }
  return s;
}

// ---------------------------------------------------------------- types
static void leavesOf(Type* T, u64 off, std::vector<Leaf>& out) {
  if (auto* s = dyn_cast<StructType>(T)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leavesOf(s->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leavesOf(a->getElementType(), off + i * es, out); return; }
  if (T->isVoidTy()) return;
  out.push_back(Leaf{off, (u16)DL->getTypeSizeInBits(T).getFixedValue()});
}
static unsigned nLeaves(Type* T) { std::vector<Leaf> l; leavesOf(T, 0, l); return l.size(); }
static unsigned tw(Type* T) { return DL->getTypeSizeInBits(T).getFixedValue(); }

// ---------------------------------------------------------------- constants
static u64 addrOfGlobal(const GlobalValue* G);
static Val constScalar(const Constant* C, u16& undefW) {
  undefW = 0;
  if (auto* ci = dyn_cast<ConstantInt>(C)) {
    if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
    u128 v = ci->getValue().getRawData()[0]; if (ci->getValue().getNumWords() > 1) v |= (u128)ci->getValue().getRawData()[1] << 64;
    return Val(P.C(v, ci->getBitWidth()));
  }
  if (auto* cf = dyn_cast<ConstantFP>(C)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) return Val(b.getZExtValue()); u128 v = b.getRawData()[0]; v |= (u128)b.getRawData()[1] << 64; return Val(P.C(v, b.getBitWidth())); }
  if (isa<ConstantPointerNull>(C)) return Val((u64)0);
  if (isa<UndefValue>(C)) { undefW = tw(C->getType()); return Val((u64)0); }
  if (isa<ConstantAggregateZero>(C)) return Val((u64)0);
  if (auto* g = dyn_cast<GlobalAlias>(C)) { u16 u; return constScalar(g->getAliasee(), u); }
  if (auto* g = dyn_cast<GlobalValue>(C)) return Val(addrOfGlobal(g));
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    u16 u;
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!g->accumulateConstantOffset(*DL, off)) fatal("const gep");
        return Val(constScalar(cast<Constant>(g->getPointerOperand()), u).c + off.getZExtValue());
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        Val v = constScalar(ce->getOperand(0), u); return Val(v.c & m64(tw(ce->getType())));
      }
      case Instruction::Trunc: { Val v = constScalar(ce->getOperand(0), u); return Val(v.c & m64(tw(ce->getType()))); }
      case Instruction::Sub: return Val((constScalar(ce->getOperand(0), u).c - constScalar(ce->getOperand(1), u).c) & m64(tw(ce->getType())));
      case Instruction::Add: return Val((constScalar(ce->getOperand(0), u).c + constScalar(ce->getOperand(1), u).c) & m64(tw(ce->getType())));
      case Instruction::ICmp: {
        u64 a = constScalar(ce->getOperand(0), u).c, b = constScalar(ce->getOperand(1), u).c;
        if (ce->getPredicate() == CmpInst::ICMP_EQ) return Val((u64)(a == b));
        if (ce->getPredicate() == CmpInst::ICMP_NE) return Val((u64)(a != b));
        break;
      }
      default: break;
    }
    std::string s; raw_string_ostream os(s); ce->print(os); fatal("constant expression: " + s);
  }
  std::string s; raw_string_ostream os(s); C->print(os); fatal("constant: " + s);
  return Val();
}
static void constLeaves(const Constant* C, std::vector<Val>& out, std::vector<u16>& uw) {
  Type* T = C->getType();
  if (T->isStructTy() || T->isArrayTy()) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) constLeaves(C->getAggregateElement(i), out, uw);
    return;
  }
  u16 u; Val v = constScalar(C, u); out.push_back(v); uw.push_back(u);
}
static void initConst(Obj* o, u64 off, const Constant* C) {
  Type* T = C->getType();
  if (isa<ConstantAggregateZero>(C)) return;
  if (isa<UndefValue>(C)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); memcpy(o->conc + off, r.data(), r.size()); return; }
  if (auto* s = dyn_cast<StructType>(T)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initConst(o, off + sl->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (T->isArrayTy()) { u64 es = DL->getTypeAllocSize(T->getArrayElementType()); for (unsigned i = 0; i < T->getArrayNumElements(); i++) initConst(o, off + i * es, C->getAggregateElement(i)); return; }
  u16 u; Val v = constScalar(C, u);
  if (v.sym()) { u128 x = v.e->val; memcpy(o->conc + off, &x, (v.e->w + 7) / 8); return; }
  writeObj(o, off, v, tw(T));
}
static u64 globTop = 0;
static u64 addrOfGlobal(const GlobalValue* G) {
  auto it = gaddr.find(G);
  if (it != gaddr.end()) return it->second;
  if (auto* F = dyn_cast<Function>(G)) { u64 a = FUNC_BASE + funcByIdx.size() * 16; funcByIdx.push_back(const_cast<Function*>(F)); return gaddr[G] = a; }
  auto* V = cast<GlobalVariable>(G);
  u64 n = V->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(V->getValueType()) : 8;
  if (!V->hasInitializer()) n = std::max<u64>(n, 128);
  Obj* o = new Obj(n);
  u64 slot = globTop++;
  o->base = (slot + 1) * HEAP_STRIDE;
  o->kind = V->isConstant() ? K_CONST : K_GLOBAL;
  globInit.set(slot, o);
  return gaddr[G] = o->base;
}

// ---------------------------------------------------------------- compilation
static CFunc* compile(Function* F);
static CFunc* getC(Function* F) { auto it = cfuncs.find(F); if (it != cfuncs.end()) return it->second; return compile(F); }
static CFunc* compile(Function* F) {
  CFunc* cf = new CFunc(); cfuncs[F] = cf; cf->F = F; cf->name = F->getName().str();
  if (auto* sp = F->getSubprogram()) cf->inRepo = sp->getFilename().starts_with(optSrcPrefix);
  else cf->inRt = true;  // the runtime is compiled without debug information
  std::map<const Value*, int> reg;
  int nr = 0;
  auto alloc = [&](const Value* v) { unsigned n = nLeaves(v->getType()); reg[v] = nr; nr += n; };
  for (auto& A : F->args()) { alloc(&A); unsigned n = nLeaves(A.getType()); for (unsigned i = 0; i < n; i++) cf->argRegs.push_back(reg[&A] + i); }
  cf->nargs = cf->argRegs.size();
  for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) alloc(&I);
  std::map<const BasicBlock*, int> bstart;
  auto op = [&](const Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) {
      int base = cf->pool.size();
      constLeaves(c, cf->pool, cf->poolUndefW);
      if ((int)cf->pool.size() == base) { cf->pool.push_back(Val()); cf->poolUndefW.push_back(0); }
      return -base - 1;
    }
    auto it = reg.find(v);
    if (it == reg.end()) { std::string s; raw_string_ostream os(s); v->print(os); fatal("operand " + s); }
    return it->second;
  };
  auto leafOp = [](int o, int i) { return o >= 0 ? o + i : o - i; };
  std::vector<std::pair<int, std::pair<int, std::pair<const BasicBlock*, const BasicBlock*>>>> fix;
  auto addEdge = [&](CInst& ci, const BasicBlock* from, const BasicBlock* to) {
    Edge e;
    for (auto& phi : to->phis()) {
      int s = op(phi.getIncomingValueForBlock(from)); int d = reg[&phi];
      unsigned n = nLeaves(phi.getType());
      for (unsigned i = 0; i < n; i++) e.copies.push_back({d + (int)i, leafOp(s, i)});
    }
    ci.edges.push_back(e);
    fix.push_back({(int)cf->ins.size(), {(int)ci.edges.size() - 1, {from, to}}});
  };
  for (auto& B : *F) {
    bstart[&B] = cf->ins.size();
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      CInst c; c.I = &I; c.k = I_UNSUP;
      Type* T = I.getType();
      if (!T->isVoidTy()) { c.dst = reg[&I]; if (!T->isAggregateType()) { c.w = tw(T); c.isPtr = T->isPointerTy(); } }
      auto unsupI = [&]() { c.k = I_UNSUP; };
      if (T->isVectorTy()) { cf->ins.push_back(c); continue; }
      switch (I.getOpcode()) {
        case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); c.k = I_ALLOCA; c.aux = DL->getTypeAllocSize(A.getAllocatedType()); c.a = op(A.getArraySize()); c.w2 = tw(A.getArraySize()->getType()); break; }
        case Instruction::Load: { c.k = I_LOAD; c.sub = cast<LoadInst>(I).isAtomic(); c.a = op(I.getOperand(0)); leavesOf(T, 0, c.leaves); break; }
        case Instruction::Store: { c.k = I_STORE; c.sub = cast<StoreInst>(I).isAtomic(); c.a = op(I.getOperand(1)); c.b = op(I.getOperand(0)); leavesOf(I.getOperand(0)->getType(), 0, c.leaves); if (I.getOperand(0)->getType()->isVectorTy()) unsupI(); break; }
        case Instruction::GetElementPtr: {
          c.k = I_GEP; c.a = op(I.getOperand(0));
          int64_t off = 0;
          for (gep_type_iterator gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
            if (StructType* sT = gi.getStructTypeOrNull()) { off += DL->getStructLayout(sT)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
            u64 es = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* k = dyn_cast<ConstantInt>(gi.getOperand())) off += k->getSExtValue() * (int64_t)es;
            else { c.scaled.push_back({op(gi.getOperand()), es}); c.argW.push_back(tw(gi.getOperand()->getType())); }
          }
          c.aux = (u64)off; break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          c.k = I_BIN; c.a = op(I.getOperand(0)); c.b = op(I.getOperand(1));
          switch (I.getOpcode()) { case Instruction::Add: c.sub = O_ADD; break; case Instruction::Sub: c.sub = O_SUB; break; case Instruction::Mul: c.sub = O_MUL; break;
            case Instruction::UDiv: c.sub = O_UDIV; break; case Instruction::SDiv: c.sub = O_SDIV; break; case Instruction::URem: c.sub = O_UREM; break; case Instruction::SRem: c.sub = O_SREM; break;
            case Instruction::And: c.sub = O_AND; break; case Instruction::Or: c.sub = O_OR; break; case Instruction::Xor: c.sub = O_XOR; break;
            case Instruction::Shl: c.sub = O_SHL; break; case Instruction::LShr: c.sub = O_LSHR; break; default: c.sub = O_ASHR; }
          break;
        }
        case Instruction::FAdd: c.k = I_FBIN; c.sub = F_ADD; goto fbin;
        case Instruction::FSub: c.k = I_FBIN; c.sub = F_SUB; goto fbin;
        case Instruction::FMul: c.k = I_FBIN; c.sub = F_MUL; goto fbin;
        case Instruction::FDiv: c.k = I_FBIN; c.sub = F_DIV;
        fbin: c.a = op(I.getOperand(0)); c.b = op(I.getOperand(1)); if (c.w > 64) unsupI(); break;
        case Instruction::FNeg: c.k = I_FNEG; c.a = op(I.getOperand(0)); if (c.w > 64) unsupI(); break;
        case Instruction::ICmp: c.k = I_ICMP; c.sub = cast<ICmpInst>(I).getPredicate(); c.a = op(I.getOperand(0)); c.b = op(I.getOperand(1)); c.w2 = tw(I.getOperand(0)->getType()); break;
        case Instruction::FCmp: c.k = I_FCMP; c.sub = cast<FCmpInst>(I).getPredicate(); c.a = op(I.getOperand(0)); c.b = op(I.getOperand(1)); c.w2 = tw(I.getOperand(0)->getType()); if (c.w2 > 64) unsupI(); break;
        case Instruction::Trunc: c.k = I_TRUNC; c.a = op(I.getOperand(0)); c.w2 = tw(I.getOperand(0)->getType()); break;
        case Instruction::ZExt: c.k = I_ZEXT; c.a = op(I.getOperand(0)); c.w2 = tw(I.getOperand(0)->getType()); break;
        case Instruction::SExt: c.k = I_SEXT; c.a = op(I.getOperand(0)); c.w2 = tw(I.getOperand(0)->getType()); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: { c.w2 = tw(I.getOperand(0)->getType()); c.k = c.w2 == c.w ? I_COPY : c.w2 < c.w ? I_ZEXT : I_TRUNC; c.a = op(I.getOperand(0)); break; }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: c.k = I_COPY; c.a = op(I.getOperand(0)); if (I.getOperand(0)->getType()->isVectorTy()) unsupI(); break;
        case Instruction::Freeze: c.k = I_COPY; c.a = op(I.getOperand(0)); break;
        case Instruction::FPToSI: c.sub = F_TO_SI; goto fpc;
        case Instruction::FPToUI: c.sub = F_TO_UI; goto fpc;
        case Instruction::SIToFP: c.sub = F_FROM_SI; goto fpc;
        case Instruction::UIToFP: c.sub = F_FROM_UI; goto fpc;
        case Instruction::FPExt: case Instruction::FPTrunc: c.sub = F_TO_FP;
        fpc: c.k = I_FPCAST; c.a = op(I.getOperand(0)); c.w2 = tw(I.getOperand(0)->getType()); if (c.w > 64 || c.w2 > 64) unsupI(); break;
        case Instruction::Select: c.k = I_SELECT; c.a = op(I.getOperand(0)); c.b = op(I.getOperand(1)); c.c = op(I.getOperand(2)); leavesOf(T, 0, c.leaves); c.isPtr = T->isPointerTy() || T->isAggregateType(); break;
        case Instruction::Br: {
          auto& br = cast<BranchInst>(I);
          if (br.isUnconditional()) { c.k = I_BR; addEdge(c, &B, br.getSuccessor(0)); }
          else { c.k = I_CBR; c.a = op(br.getCondition()); addEdge(c, &B, br.getSuccessor(0)); addEdge(c, &B, br.getSuccessor(1)); }
          break;
        }
        case Instruction::Switch: {
          auto& sw = cast<SwitchInst>(I); c.k = I_SWITCH; c.a = op(sw.getCondition()); c.w2 = tw(sw.getCondition()->getType());
          addEdge(c, &B, sw.getDefaultDest());
          for (auto& cs : sw.cases()) { c.cases.push_back(cs.getCaseValue()->getZExtValue()); addEdge(c, &B, cs.getCaseSuccessor()); }
          break;
        }
        case Instruction::Ret: c.k = I_RET; if (I.getNumOperands()) { c.a = op(I.getOperand(0)); c.nret = nLeaves(I.getOperand(0)->getType()); } break;
        case Instruction::Unreachable: c.k = I_UNREACHABLE; break;
        case Instruction::Call: case Instruction::Invoke: {
          auto& cb = cast<CallBase>(I); c.k = I_CALL;
          if (cb.isInlineAsm()) { unsupI(); if (cast<InlineAsm>(cb.getCalledOperand())->getAsmString().empty()) { c.k = I_FENCE; } break; }
          Value* cv = cb.getCalledOperand()->stripPointerCasts();
          c.callee = dyn_cast<Function>(cv);
          if (auto* ga = dyn_cast<GlobalAlias>(cv)) c.callee = dyn_cast<Function>(ga->getAliaseeObject());
          bool skip = false;
          if (c.callee) {
            StringRef n = c.callee->getName();
            auto it = builtins.find(n.str());
            if (it == builtins.end() && n.starts_with("llvm.")) {
              // strip type suffixes
              std::string s = n.str();
              while (it == builtins.end() && s.find('.', 5) != std::string::npos) { s = s.substr(0, s.rfind('.')); it = builtins.find(s); }
            }
            if (it != builtins.end()) c.bi = &it->second;
            if (n == "llvm.threadlocal.address" ) {}
            if (n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.prefetch")) skip = n.starts_with("llvm.lifetime") ? false : true;
          } else c.a = op(cb.getCalledOperand());
          if (skip) { continue; }
          for (unsigned i = 0; i < cb.arg_size(); i++) {
            Value* av = cb.getArgOperand(i);
            if (av->getType()->isMetadataTy()) continue;
            if (c.callee && c.callee->getName().starts_with("llvm.threadlocal.address") && i == 0) { c.aux = (u64)(uintptr_t)cast<GlobalVariable>(av->stripPointerCasts()); continue; }
            int o = op(av); std::vector<Leaf> lv; leavesOf(av->getType(), 0, lv);
            for (unsigned k = 0; k < lv.size(); k++) { c.args.push_back(leafOp(o, k)); c.argW.push_back(lv[k].w); }
            if (cb.isByValArgument(i)) { c.byval.resize(c.args.size(), 0); c.byval[c.args.size() - 1] = DL->getTypeAllocSize(cb.getParamByValType(i)) + 1; }
          }
          c.nret = nLeaves(T);
          if (auto* inv = dyn_cast<InvokeInst>(&I)) { addEdge(c, &B, inv->getNormalDest()); addEdge(c, &B, inv->getUnwindDest()); }
          break;
        }
        case Instruction::LandingPad: c.k = I_LPAD; break;
        case Instruction::Resume: c.k = I_RESUME; c.a = op(I.getOperand(0)); break;
        case Instruction::ExtractValue: {
          auto& ev = cast<ExtractValueInst>(I); Type* AT = ev.getAggregateOperand()->getType(); unsigned idx = 0;
          for (unsigned i : ev.getIndices()) { if (auto* s = dyn_cast<StructType>(AT)) { for (unsigned j = 0; j < i; j++) idx += nLeaves(s->getElementType(j)); AT = s->getElementType(i); } else { idx += i * nLeaves(AT->getArrayElementType()); AT = AT->getArrayElementType(); } }
          c.k = I_EXTRACTV; c.a = leafOp(op(ev.getAggregateOperand()), idx); c.nret = nLeaves(T); break;
        }
        case Instruction::InsertValue: {
          auto& iv = cast<InsertValueInst>(I); Type* AT = T; unsigned idx = 0;
          for (unsigned i : iv.getIndices()) { if (auto* s = dyn_cast<StructType>(AT)) { for (unsigned j = 0; j < i; j++) idx += nLeaves(s->getElementType(j)); AT = s->getElementType(i); } else { idx += i * nLeaves(AT->getArrayElementType()); AT = AT->getArrayElementType(); } }
          c.k = I_INSERTV; c.a = op(iv.getAggregateOperand()); c.b = op(iv.getInsertedValueOperand()); c.aux = idx; c.nret = nLeaves(T); c.cases.push_back(nLeaves(iv.getInsertedValueOperand()->getType())); break;
        }
        case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(I); c.k = I_RMW; c.sub = r.getOperation(); c.a = op(r.getPointerOperand()); c.b = op(r.getValOperand()); break; }
        case Instruction::AtomicCmpXchg: { auto& r = cast<AtomicCmpXchgInst>(I); c.k = I_CMPXCHG; c.a = op(r.getPointerOperand()); c.b = op(r.getCompareOperand()); c.c = op(r.getNewValOperand()); c.w = tw(r.getCompareOperand()->getType()); break; }
        case Instruction::Fence: c.k = I_FENCE; break;
        default: unsupI();
      }
      cf->ins.push_back(std::move(c));
    }
  }
  for (auto& f : fix) cf->ins[f.first].edges[f.second.first].target = bstart[f.second.second.second];
  cf->nregs = nr;
  return cf;
}
// ---------------------------------------------------------------- execution
static inline Val rdOp(Frame* f, int o) {
  if (o >= 0) return f->r[o];
  int i = -o - 1;
  if (u16 u = f->f->poolUndefW[i]) return freshUndef(u);
  return f->f->pool[i];
}
static inline int leafO(int o, int i) { return o >= 0 ? o + i : o - i; }
static Frame* topF(State& st) { auto& v = st.th[st.cur].fr; return v.back().unique(); }
static void takeEdge(Frame* f, Edge& e) {
  if (e.copies.size() == 1) { f->r[e.copies[0].first] = rdOp(f, e.copies[0].second); }
  else if (!e.copies.empty()) {
    Val tmp[16]; std::vector<Val> big; Val* t = tmp;
    if (e.copies.size() > 16) { big.resize(e.copies.size()); t = big.data(); }
    for (size_t i = 0; i < e.copies.size(); i++) t[i] = rdOp(f, e.copies[i].second);
    for (size_t i = 0; i < e.copies.size(); i++) f->r[e.copies[i].first] = t[i];
  }
  f->pc = e.target;
}
static void setRet(State& st, CInst& I, const Val& v) { Frame* f = topF(st); if (I.dst >= 0) f->r[I.dst] = v; }
static void finishCall(State& st, CInst& I) { Frame* f = topF(st); if (!I.edges.empty()) takeEdge(f, I.edges[0]); else f->pc++; }
static bool pushFrame(State& st, CFunc* cf, std::vector<Val>& args, CInst* call) {
  Thread& t = st.th[st.cur];
  if (t.fr.size() > 4000) { violate(st, "stack-overflow", "call depth limit"); return false; }
  Frame* f = new Frame(); f->f = cf; f->r.resize(cf->nregs); f->stackTop = t.stackTop;
  cf->execs++;
  for (size_t i = 0; i < args.size(); i++) {
    if ((int)i < cf->nargs) f->r[cf->argRegs[i]] = args[i]; else f->varargs.push_back(args[i]);
  }
  if (call && !call->byval.empty()) {
    for (size_t i = 0; i < call->byval.size(); i++) if (call->byval[i]) {
      u64 n = call->byval[i] - 1; u64 a = allocStack(st, n);
      Loc ls, ld; Obj* so = access(st, args[i].c, n, false, ls); if (!so) { delete f; return false; }
      Obj* d = access(st, a, n, true, ld); so = objAt(st, ls);
      memcpy(d->conc, so->conc + ls.off, n); memcpy(d->tag, so->tag + ls.off, n);
      if (so->sym) { d->needSym(); memcpy(d->sym, so->sym + ls.off, n * sizeof(Expr*)); }
      d->plain = false; f->r[cf->argRegs[i]] = Val(a);
    }
  }
  t.fr.push_back(Ref<Frame>(f));
  return true;
}
static void popFrame(State& st) {
  Thread& t = st.th[st.cur];
  u64 top = t.fr.back()->stackTop;
  if ((int)st.stack.size() > st.cur) for (u64 s = top; s < t.stackTop; s++) { Space& sp = st.stack[st.cur]; if ((s >> 6) < sp.ch.size() && sp.ch[s >> 6]) sp.ch[s >> 6].unique()->o[s & 63] = Ref<Obj>(); }
  t.stackTop = top;
  t.fr.pop_back();
}
// --- exception type matching
static std::string tiKind(const GlobalVariable* ti) {
  if (!ti->hasInitializer()) return "";
  auto* cs = dyn_cast<ConstantStruct>(ti->getInitializer());
  if (!cs) return "";
  const Value* v = cs->getOperand(0)->stripInBoundsOffsets();
  return v->getName().str();
}
static const GlobalVariable* asTI(const Constant* c) { return dyn_cast<GlobalVariable>(c->stripPointerCasts()); }
static bool tiDerives(const GlobalVariable* from, const GlobalVariable* to, int64_t& off) {
  if (from == to || from->getName() == to->getName()) return true;
  std::string k = tiKind(from);
  if (k.find("__si_class_type_info") != std::string::npos) {
    auto* cs = cast<ConstantStruct>(from->getInitializer());
    return tiDerives(asTI(cs->getOperand(2)), to, off);
  }
  if (k.find("__vmi_class_type_info") != std::string::npos) {
    auto* cs = cast<ConstantStruct>(from->getInitializer());
    unsigned nb = cast<ConstantInt>(cs->getOperand(3))->getZExtValue();
    for (unsigned i = 0; i < nb; i++) {
      int64_t fl = cast<ConstantInt>(cs->getOperand(5 + 2 * i))->getSExtValue();
      int64_t o2 = off + (fl >> 8);
      if (fl & 1) fatal("virtual base in exception type");
      if (tiDerives(asTI(cs->getOperand(4 + 2 * i)), to, o2)) { off = o2; return true; }
    }
  }
  return false;
}
static int typeId(const GlobalVariable* g) { auto it = typeIds.find(g); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; return typeIds[g] = n; }
static std::map<u64, const GlobalVariable*> tiByAddr;
static const GlobalVariable* tiAt(u64 a) { auto it = tiByAddr.find(a); if (it != tiByAddr.end()) return it->second; for (auto& p : gaddr) if (p.second == a) if (auto* g = dyn_cast<GlobalVariable>(p.first)) { tiByAddr[a] = g; return g; } return nullptr; }
// Unwinds the current thread for exception object obj of type ti. Returns false if state died.
static bool unwind(State& st, u64 obj, u64 tiAddr) {
  const GlobalVariable* ti = tiAt(tiAddr);
  if (!ti) { fatal("unknown typeinfo"); }
  Thread& t = st.th[st.cur];
  auto match = [&](const LandingPadInst* lp, int64_t& off, int& sel) -> bool {
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      if (lp->isFilter(i)) continue;
      auto* c = lp->getClause(i);
      if (isa<ConstantPointerNull>(c)) { off = 0; sel = 1000000; return true; }
      int64_t o2 = 0;
      const GlobalVariable* want = asTI(c);
      if (tiDerives(ti, want, o2)) { off = o2; sel = typeId(want); return true; }
    }
    return false;
  };
  // phase 1
  bool found = false;
  for (size_t i = t.fr.size(); i-- > 0 && !found;) {
    Frame* f = t.fr[i].p;
    CInst& ci = f->f->ins[f->pc];
    if (ci.k != I_CALL || ci.edges.size() < 2) continue;
    CInst& lpI = f->f->ins[ci.edges[1].target];
    int64_t off = 0; int sel = 0;
    if (match(cast<LandingPadInst>(lpI.I), off, sel)) found = true;
  }
  if (!found) { violate(st, "uncaught", "uncaught exception of type " + shortName(ti->getName().str().substr(0, 4) == "_ZTI" ? "_ZTS" + ti->getName().str().substr(4) : ti->getName().str())); return false; }
  // phase 2
  while (!t.fr.empty()) {
    Frame* f = t.fr.back().p;
    CInst& ci = f->f->ins[f->pc];
    if (ci.k == I_CALL && ci.edges.size() == 2) {
      CInst& lpI = f->f->ins[ci.edges[1].target];
      auto* lp = cast<LandingPadInst>(lpI.I);
      int64_t off = 0; int sel = 0;
      bool m = match(lp, off, sel);
      if (m || lp->isCleanup()) {
        t.excPtr = Val(obj); t.excSel = m ? sel : 0;
        if (m) wr64(st, obj - 8, obj + off);
        takeEdge(topF(st), ci.edges[1]);
        return true;
      }
    }
    popFrame(st);
  }
  return false;
}
// --- threads: scheduling decisions are taken by rt/threads.cpp
static Function* schedFn = nullptr;  // called after every atomic operation
static Races& RC(State& st) { if (st.races.use_count() > 1) st.races = std::make_shared<Races>(*st.races); return *st.races; }
static void syncAcq(State& st, u64 a) { if (!st.races) return; auto it = st.races->sync.find(a); if (it == st.races->sync.end()) return; VC v = it->second; RC(st).vc[st.cur].join(v); }
static void syncRel(State& st, u64 a) { if (!st.races) return; Races& r = RC(st); r.sync[a].join(r.vc[st.cur]); r.vc[st.cur].c[st.cur]++; }
static bool raceAccess(State& st, u64 a, u64 n, bool write, bool force = false) {  // false: race reported
  if (!st.races) return true;
  Frame* f = st.th[st.cur].fr.back().p;
  if (f->f->inRt && !force) return true;
  const Instruction* I = f->f->ins[f->pc].I;
  Races& r = RC(st); int t = st.cur; const VC& v = r.vc[t];
  for (u64 i = 0; i < n; i++) {
    Shadow& s = r.sh[a + i];
    const Instruction* other = nullptr;
    if (s.wt != 255 && s.wt != t && s.wc > v.c[s.wt]) other = s.wi;
    if (write) for (int k = 0; k < MAXT && !other; k++) if (k != t && s.rd.c[k] > v.c[k]) other = s.ri;
    if (other) { violate(st, "race", "data race with the access at " + locOf(other)); return false; }
    if (write) { s.wt = t; s.wc = v.c[t]; s.wi = I; s.rd = VC(); } else { s.rd.c[t] = v.c[t]; s.ri = I; }
  }
  return true;
}
static bool pushFrame(State& st, CFunc* cf, std::vector<Val>& args, CInst* call);
static void afterAtomic(State& st, u64 a, bool acq, bool rel) {
  if (acq) syncAcq(st, a);
  if (rel) syncRel(st, a);
  std::vector<Val> none;
  if (st.th.size() > 1 && schedFn && !st.th[st.cur].fr.back().p->f->inRt) pushFrame(st, getC(schedFn), none, nullptr);  // its return advances the pc
  else topF(st)->pc++;
}
static Val fbin(u8 fop, unsigned w, const Val& a, const Val& b) { return Val(P.fp(fop, w, toE(a, w), toE(b, w))); }
static Expr* fcmpE(unsigned pred, unsigned w, const Val& av, const Val& bv) {
  Expr *a = toE(av, w), *b = toE(bv, w);
  auto oeq = [&] { return P.fp(F_OEQ, 1, a, b); }; auto olt = [&](Expr* x, Expr* y) { return P.fp(F_OLT, 1, x, y); }; auto ole = [&](Expr* x, Expr* y) { return P.fp(F_OLE, 1, x, y); };
  auto uno = [&] { return P.fp(F_UNO, 1, a, b); };
  switch (pred) {
    case CmpInst::FCMP_FALSE: return P.F(); case CmpInst::FCMP_TRUE: return P.T();
    case CmpInst::FCMP_OEQ: return oeq(); case CmpInst::FCMP_OGT: return olt(b, a); case CmpInst::FCMP_OGE: return ole(b, a);
    case CmpInst::FCMP_OLT: return olt(a, b); case CmpInst::FCMP_OLE: return ole(a, b);
    case CmpInst::FCMP_ONE: return P.And(P.Not(oeq()), P.Not(uno())); case CmpInst::FCMP_ORD: return P.Not(uno()); case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return P.Or(oeq(), uno()); case CmpInst::FCMP_UGT: return P.Not(ole(a, b)); case CmpInst::FCMP_UGE: return P.Not(olt(a, b));
    case CmpInst::FCMP_ULT: return P.Not(ole(b, a)); case CmpInst::FCMP_ULE: return P.Not(olt(b, a)); case CmpInst::FCMP_UNE: return P.Not(oeq());
  }
  return P.F();
}
static bool doCall(State& st, Frame* f, CInst& I) {  // returns false if control was transferred or state died
  std::vector<Val> args(I.args.size());
  for (size_t i = 0; i < args.size(); i++) args[i] = rdOp(f, I.args[i]);
  Function* callee = I.callee;
  Builtin* bi = I.bi;
  if (!callee) {
    Val fv = rdOp(f, I.a);
    u64 a = concretize(st, fv, 64);
    if (a < FUNC_BASE || (a - FUNC_BASE) / 16 >= funcByIdx.size() || (a - FUNC_BASE) % 16) { violate(st, "memory", "call through invalid function pointer"); return false; }
    callee = funcByIdx[(a - FUNC_BASE) / 16];
    auto it = builtins.find(callee->getName().str());
    if (it != builtins.end()) bi = &it->second;
  }
  if (bi) {
    (*bi)(st, I, args);
    return false;  // builtins advance the pc themselves through finishCall
  }
  if (callee->isDeclaration()) {
    std::string n = callee->getName().str();
    undefinedCalled.insert(n);
    unsup(st, "call to undefined function " + shortName(n));
    return false;
  }
  CFunc* cf = I.callee ? (I.cf ? I.cf : (I.cf = getC(callee))) : getC(callee);
  pushFrame(st, cf, args, &I);
  return false;
}
// Does the block start with a sanitizer trap?
static bool isTrap(CFunc* f, int pc) {
  auto* ci = pc >= 0 && pc < (int)f->ins.size() ? dyn_cast_or_null<CallInst>(f->ins[pc].I) : nullptr;
  return ci && ci->getIntrinsicID() == Intrinsic::ubsantrap;
}
static void step(State& st) {
  Frame* f = topF(st);
  CInst& I = f->f->ins[f->pc];
  st.steps++;
  switch (I.k) {
    case I_ALLOCA: {
      u64 n = I.aux * concretize(st, rdOp(f, I.a), I.w2);
      f = topF(st);
      f->r[I.dst] = Val(allocStack(st, n)); f->pc++; break;
    }
    case I_LOAD: {
      Val p = rdOp(f, I.a);
      if (st.races && !I.sub && !p.sym()) for (auto& l : I.leaves) if (!raceAccess(st, p.c + l.off, (l.w + 7) / 8, false)) return;
      if (I.leaves.size() == 1) { Val out; if (!loadVal(st, p, I.leaves[0].w, I.isPtr, out)) return; u128 pv; if (out.sym() && out.e->w <= 64 && pinned(st, out.e, pv)) out = Val((u64)pv); f = topF(st); f->r[I.dst] = out; }
      else { u64 a = concretize(st, p, 64); f = topF(st); for (size_t i = 0; i < I.leaves.size(); i++) { Val out; if (!loadVal(st, Val(a + I.leaves[i].off), I.leaves[i].w, false, out)) return; f->r[I.dst + i] = out; } }
      if (I.sub) { afterAtomic(st, p.c, true, false); break; }
      f->pc++; break;
    }
    case I_STORE: {
      Val p = rdOp(f, I.a);
      if (st.races && !I.sub && !p.sym()) for (auto& l : I.leaves) if (!raceAccess(st, p.c + l.off, (l.w + 7) / 8, true)) return;
      if (I.leaves.size() == 1) { if (!storeVal(st, p, rdOp(f, I.b), I.leaves[0].w)) return; }
      else { u64 a = concretize(st, p, 64); for (size_t i = 0; i < I.leaves.size(); i++) if (!storeVal(st, Val(a + I.leaves[i].off), rdOp(f, leafO(I.b, i)), I.leaves[i].w)) return; }
      if (I.sub) { afterAtomic(st, p.c, false, true); break; }
      f = topF(st); f->pc++; break;
    }
    case I_GEP: {
      Val p = rdOp(f, I.a);
      if (!p.sym()) {
        u64 c = p.c + I.aux; Expr* e = nullptr;
        for (size_t i = 0; i < I.scaled.size(); i++) {
          Val x = rdOp(f, I.scaled[i].first);
          if (!x.sym()) c += (u64)(s128)sgn(x.c, I.argW[i]) * I.scaled[i].second;
          else { Expr* t = P.bin(O_MUL, P.C(I.scaled[i].second, 64), P.sext(x.e, 64)); e = e ? P.bin(O_ADD, e, t) : t; }
        }
        f->r[I.dst] = e ? Val(P.bin(O_ADD, P.C(c, 64), e)) : Val(c);
      } else {
        Expr* e = P.bin(O_ADD, P.C(I.aux, 64), p.e);
        for (size_t i = 0; i < I.scaled.size(); i++) {
          Val x = rdOp(f, I.scaled[i].first);
          e = P.bin(O_ADD, e, P.bin(O_MUL, P.C(I.scaled[i].second, 64), P.sext(toE(x, I.argW[i]), 64)));
        }
        f->r[I.dst] = Val(e);
      }
      f->pc++; break;
    }
    case I_BIN: {
      Val a = rdOp(f, I.a), b = rdOp(f, I.b);
      Op op = (Op)I.sub; unsigned w = I.w;
      if (op >= O_UDIV && op <= O_SREM) {
        if (!b.sym()) { if (!(b.c)) { violate(st, "ub", "division by zero"); return; } }
        else if (!decide(st, P.Not(P.Eq(P.C(0, w), b.e)))) { violate(st, "ub", "division by zero"); return; }
        f = topF(st);
      }
      if (!a.sym() && !b.sym() && w <= 64) {
        u64 r, x = a.c, y = b.c;
        switch (op) { case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
          default: r = (u64)ExprPool::fold(op, w, x, y); }
        f->r[I.dst] = Val(r & m64(w));
      } else f->r[I.dst] = Val(P.bin(op, toE(a, w), toE(b, w)));
      f->pc++; break;
    }
    case I_ICMP: {
      Val a = rdOp(f, I.a), b = rdOp(f, I.b); unsigned w = I.w2;
      if (!a.sym() && !b.sym()) {
        bool r; int64_t sa = (int64_t)sgn(a.c, w), sb = (int64_t)sgn(b.c, w);
        switch (I.sub) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
          case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break; case CmpInst::ICMP_SGT: r = sa > sb; break; default: r = sa >= sb; }
        f->r[I.dst] = Val((u64)r);
      } else {
        Expr *x = toE(a, w), *y = toE(b, w), *r;
        switch (I.sub) { case CmpInst::ICMP_EQ: r = P.Eq(x, y); break; case CmpInst::ICMP_NE: r = P.Not(P.Eq(x, y)); break; case CmpInst::ICMP_ULT: r = P.bin(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = P.bin(O_ULE, x, y); break; case CmpInst::ICMP_UGT: r = P.bin(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = P.bin(O_ULE, y, x); break;
          case CmpInst::ICMP_SLT: r = P.bin(O_SLT, x, y); break; case CmpInst::ICMP_SLE: r = P.bin(O_SLE, x, y); break; case CmpInst::ICMP_SGT: r = P.bin(O_SLT, y, x); break; default: r = P.bin(O_SLE, y, x); }
        f->r[I.dst] = Val(r);
      }
      f->pc++; break;
    }
    case I_FCMP: f->r[I.dst] = Val(fcmpE(I.sub, I.w2, rdOp(f, I.a), rdOp(f, I.b))); f->pc++; break;
    case I_FBIN: f->r[I.dst] = fbin(I.sub, I.w, rdOp(f, I.a), rdOp(f, I.b)); f->pc++; break;
    case I_FNEG: { Val a = rdOp(f, I.a); f->r[I.dst] = Val(P.bin(O_XOR, P.C((u128)1 << (I.w - 1), I.w), toE(a, I.w))); f->pc++; break; }
    case I_FPCAST: { Val a = rdOp(f, I.a); if (optConcFp && a.sym() && (I.sub == F_FROM_SI || I.sub == F_FROM_UI)) { a = Val(concretize(st, a, I.w2)); f = topF(st); } f->r[I.dst] = I.w == I.w2 && I.sub == F_TO_FP ? a : Val(P.fp(I.sub, I.w, toE(a, I.w2))); f->pc++; break; }
    case I_TRUNC: { Val a = rdOp(f, I.a); f->r[I.dst] = a.sym() ? Val(P.extract(a.e, 0, I.w)) : Val(a.c & m64(I.w)); f->pc++; break; }
    case I_ZEXT: { Val a = rdOp(f, I.a); f->r[I.dst] = a.sym() || I.w > 64 ? Val(P.zext(toE(a, I.w2), I.w)) : a; f->pc++; break; }
    case I_SEXT: { Val a = rdOp(f, I.a); f->r[I.dst] = a.sym() || I.w > 64 ? Val(P.sext(toE(a, I.w2), I.w)) : Val((u64)(s128)sgn(a.c, I.w2) & m64(I.w)); f->pc++; break; }
    case I_COPY: f->r[I.dst] = rdOp(f, I.a); f->pc++; break;
    case I_SELECT: {
      Val c = rdOp(f, I.a);
      bool side;
      if (!c.sym()) side = c.c & 1;
      else if (!I.isPtr) { f->r[I.dst] = Val(P.ite(c.e, toE(rdOp(f, I.b), I.w), toE(rdOp(f, I.c), I.w))); f->pc++; break; }
      else { side = decide(st, c.e); f = topF(st); }
      for (size_t i = 0; i < I.leaves.size(); i++) f->r[I.dst + i] = rdOp(f, leafO(side ? I.b : I.c, i));
      f->pc++; break;
    }
    case I_BR: takeEdge(f, I.edges[0]); break;
    case I_CBR: {
      Val c = rdOp(f, I.a);
      size_t before = work.size();
      bool side = c.sym() ? decide(st, c.e) : (c.c & 1);
      if (work.size() == before + 1 && isTrap(f->f, I.edges[side ? 1 : 0].target)) {
        // The other side is a sanitizer trap: report it now, rather than after everything else.
        State* n = work.back(); work.pop_back();
        Frame* nf = topF(*n); int t = I.edges[side ? 1 : 0].target; Edge e = I.edges[side ? 1 : 0];
        takeEdge(nf, e); (void)t;
        step(*n);
        delete static_cast<FullState*>(n);
      }
      if (st.dead) return;
      f = topF(st);
      takeEdge(f, I.edges[side ? 0 : 1]); break;
    }
    case I_SWITCH: {
      Val c = rdOp(f, I.a);
      int e = 0;
      if (!c.sym()) { for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == c.c) { e = i + 1; break; } }
      else {
        for (size_t i = 0; i < I.cases.size(); i++) { if (decide(st, P.Eq(P.C(I.cases[i], I.w2), c.e))) { e = i + 1; break; } if (st.dead) return; }
        f = topF(st);
      }
      takeEdge(f, I.edges[e]); break;
    }
    case I_RET: {
      std::vector<Val> rv(I.nret);
      for (int i = 0; i < I.nret; i++) rv[i] = rdOp(f, leafO(I.a, i));
      popFrame(st);
      Thread& t = st.th[st.cur];
      if (t.fr.empty()) break;
      Frame* g = topF(st);
      CInst& ci = g->f->ins[g->pc];
      for (int i = 0; i < (int)rv.size() && i < ci.nret; i++) g->r[ci.dst + i] = rv[i];
      if (!ci.edges.empty()) takeEdge(g, ci.edges[0]); else g->pc++;
      break;
    }
    case I_CALL: doCall(st, f, I); break;
    case I_LPAD: { Thread& t = st.th[st.cur]; f->r[I.dst] = t.excPtr; f->r[I.dst + 1] = Val(t.excSel); f->pc++; break; }
    case I_RESUME: {
      Val p = rdOp(f, I.a); u64 obj = p.c; u64 ti = rd64(st, obj - 64);
      popFrame(st);
      // The caller's pc still points at its call/invoke.
      if (st.th[st.cur].fr.empty()) { violate(st, "uncaught", "exception escaped thread"); return; }
      unwind(st, obj, ti);
      break;
    }
    case I_UNREACHABLE: violate(st, "ub", "unreachable code reached"); break;
    case I_EXTRACTV: for (int i = 0; i < I.nret; i++) f->r[I.dst + i] = rdOp(f, leafO(I.a, i)); f->pc++; break;
    case I_INSERTV: {
      for (int i = 0; i < I.nret; i++) { int o = leafO(I.a, i); if (o < 0 && f->f->poolUndefW[-o - 1]) f->r[I.dst + i] = Val(); else f->r[I.dst + i] = rdOp(f, o); }
      for (u64 i = 0; i < I.cases[0]; i++) f->r[I.dst + I.aux + i] = rdOp(f, leafO(I.b, i));
      f->pc++; break;
    }
    case I_RMW: {
      Val p = rdOp(f, I.a), v = rdOp(f, I.b), old;
      u64 a = concretize(st, p, 64);
      if (!loadVal(st, Val(a), I.w, false, old)) return;
      Expr *x = toE(old, I.w), *y = toE(v, I.w), *r = nullptr;
      switch (I.sub) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = P.bin(O_ADD, x, y); break; case AtomicRMWInst::Sub: r = P.bin(O_SUB, x, y); break; case AtomicRMWInst::And: r = P.And(x, y); break; case AtomicRMWInst::Or: r = P.Or(x, y); break; case AtomicRMWInst::Xor: r = P.bin(O_XOR, x, y); break; default: unsup(st, "atomicrmw"); return; }
      if (!storeVal(st, Val(a), Val(r), I.w)) return;
      f = topF(st); f->r[I.dst] = old; afterAtomic(st, a, true, true); break;
    }
    case I_CMPXCHG: {
      Val p = rdOp(f, I.a), cmp = rdOp(f, I.b), nv = rdOp(f, I.c), old;
      u64 a = concretize(st, p, 64);
      if (!loadVal(st, Val(a), I.w, false, old)) return;
      bool eq = decide(st, P.Eq(toE(old, I.w), toE(cmp, I.w)));
      if (st.dead) return;
      if (eq && !storeVal(st, Val(a), nv, I.w)) return;
      f = topF(st); f->r[I.dst] = old; f->r[I.dst + 1] = Val((u64)eq); afterAtomic(st, a, true, eq); break;
    }
    case I_FENCE: f->pc++; break;
    default: { std::string s; raw_string_ostream os(s); I.I->print(os); unsup(st, "instruction " + s); }
  }
}
// Runs until the state finishes or dies.
static bool runState(State& st) {
  while (!st.dead) {
    Thread& t = st.th[st.cur];
    if (t.fr.empty()) {
      if (st.cur == 0) return true;  // the harness returned
      fatal("a thread returned");
    }
    step(st);
    if (st.steps > optMaxSteps) { violate(st, "limit", "path step limit (possible non-termination)"); nLimit++; return false; }
    if ((st.steps & 0xfff) == 0 && elapsed() > optTimeout) { incomplete.insert("time budget exhausted"); st.dead = true; return false; }
  }
  return false;
}
// ---------------------------------------------------------------- builtins
#define BI(name) builtins[name] = [](State& st, CInst& I, std::vector<Val>& a)
static bool truth(State& st, const Val& v, unsigned w, Expr*& e) { (void)st; if (!v.sym()) { e = v.c & m64(w) ? P.T() : P.F(); return v.c; } e = v.e->w == 1 ? v.e : P.Not(P.Eq(P.C(0, v.e->w), v.e)); return true; }
static void copyBytes(State& st, u64 d, u64 s, u64 n) {
  if (!n) return;
  if (st.races && (!raceAccess(st, s, n, false) || !raceAccess(st, d, n, true))) return;
  Loc ls, ld; Obj* so = access(st, s, n, false, ls); if (!so) return;
  Obj* dd = access(st, d, n, true, ld); if (!dd) return;
  so = objAt(st, ls);  // may be the same object
  memmove(dd->conc + ld.off, so->conc + ls.off, n);
  if (so->plain) { if (!dd->plain) memset(dd->tag + ld.off, T_CONC, n); }
  else {
    if (so->sym) { dd->needSym(); memmove(dd->sym + ld.off, so->sym + ls.off, n * sizeof(Expr*)); }
    memmove(dd->tag + ld.off, so->tag + ls.off, n);
    dd->plain = false;
  }
}
static Expr* byteAt(State& st, u64 a) { Loc l; Obj* o = access(st, a, 1, false, l); if (!o) return nullptr; return toE(readObj(st, l, o, l.off, 8), 8); }
static void newSymBytes(State& st, const std::string& name, const std::vector<Expr*>& bytes) { st.inputs.push_back({name, bytes}); size_t t = 0; for (auto& i : st.inputs) t += i.bytes.size(); maxInputBytes = std::max(maxInputBytes, t); }
static void overflowOp(State& st, CInst& I, std::vector<Val>& a, int kind) {
  unsigned w = I.argW[0]; Expr *x = toE(a[0], w), *y = toE(a[1], w), *r, *o;
  switch (kind) {
    case 0: r = P.bin(O_ADD, x, y); o = P.bin(O_ULT, r, x); break;                                        // uadd
    case 1: r = P.bin(O_SUB, x, y); o = P.bin(O_ULT, x, y); break;                                        // usub
    case 2: { Expr* m = P.bin(O_MUL, P.zext(x, 2 * w), P.zext(y, 2 * w)); r = P.extract(m, 0, w); o = P.Not(P.Eq(P.C(0, w), P.extract(m, w, w))); break; }  // umul
    case 3: { Expr* m = P.bin(O_ADD, P.sext(x, w + 1), P.sext(y, w + 1)); r = P.extract(m, 0, w); o = P.Not(P.Eq(P.sext(r, w + 1), m)); break; }
    case 4: { Expr* m = P.bin(O_SUB, P.sext(x, w + 1), P.sext(y, w + 1)); r = P.extract(m, 0, w); o = P.Not(P.Eq(P.sext(r, w + 1), m)); break; }
    default: { Expr* m = P.bin(O_MUL, P.sext(x, 2 * w), P.sext(y, 2 * w)); r = P.extract(m, 0, w); o = P.Not(P.Eq(P.sext(r, 2 * w), m)); break; }
  }
  Frame* f = topF(st); f->r[I.dst] = Val(r); f->r[I.dst + 1] = Val(o); finishCall(st, I);
}
static void setupBuiltins() {
  auto nop = [](State& st, CInst& I, std::vector<Val>& a) { finishCall(st, I); };
  for (auto* n : {"llvm.assume", "llvm.donothing", "llvm.stackrestore", "llvm.va_end", "llvm.invariant.end", "llvm.dbg.declare", "llvm.prefetch"}) builtins[n] = nop;
  BI("llvm.lifetime.start") { u64 p = a[1].c; Loc l; if (!a[1].sym() && locate(p, l)) if (Obj* o = objAt(st, l)) if (l.off == 0 && o->kind == K_STACK) { o = objAtW(st, l); memset(o->tag, T_UNDEF, o->size); o->plain = o->size == 0; } finishCall(st, I); };
  builtins["llvm.lifetime.end"] = builtins["llvm.lifetime.start"];
  BI("llvm.stacksave") { setRet(st, I, Val((u64)0)); finishCall(st, I); };
  BI("llvm.invariant.start") { setRet(st, I, Val((u64)0)); finishCall(st, I); };
  BI("llvm.expect") { setRet(st, I, a[0]); finishCall(st, I); };
  BI("llvm.launder.invariant.group") { setRet(st, I, a[0]); finishCall(st, I); };
  BI("llvm.strip.invariant.group") { setRet(st, I, a[0]); finishCall(st, I); };
  BI("llvm.is.constant") { setRet(st, I, Val((u64)0)); finishCall(st, I); };
  BI("llvm.objectsize") { setRet(st, I, Val(m64(I.w))); finishCall(st, I); };
  BI("llvm.threadlocal.address") {
    auto* g = (const GlobalVariable*)(uintptr_t)I.aux; auto k = std::make_pair(st.cur, g); auto it = st.tls.find(k);
    if (it == st.tls.end()) {
      u64 n = DL->getTypeAllocSize(g->getValueType()); u64 p = allocHeap(st, n, K_GLOBAL, true); 
      if (g->hasInitializer()) { Loc l; locate(p, l); initConst(objAtW(st, l), 0, g->getInitializer()); }
      it = st.tls.emplace(k, p).first;
    }
    setRet(st, I, Val(it->second)); finishCall(st, I); };
  BI("llvm.trap") { violate(st, "ub", "trap"); };
  BI("llvm.ubsantrap") { static const char* names[] = {"add overflow", "builtin unreachable", "cfi check", "divrem overflow", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load of invalid bool/enum value", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds index", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment assumption", "vla bound"};
    violate(st, "ub", a[0].c < 25 ? names[a[0].c] : "undefined behaviour"); };
  BI("llvm.eh.typeid.for") {
    auto* g = tiAt(a[0].c); setRet(st, I, Val((u64)(g ? typeId(g) : 999999))); finishCall(st, I); };
  BI("llvm.uadd.with.overflow") { overflowOp(st, I, a, 0); }; BI("llvm.usub.with.overflow") { overflowOp(st, I, a, 1); }; BI("llvm.umul.with.overflow") { overflowOp(st, I, a, 2); };
  BI("llvm.sadd.with.overflow") { overflowOp(st, I, a, 3); }; BI("llvm.ssub.with.overflow") { overflowOp(st, I, a, 4); }; BI("llvm.smul.with.overflow") { overflowOp(st, I, a, 5); };
  BI("llvm.umin") { Expr *x = toE(a[0], I.w), *y = toE(a[1], I.w); setRet(st, I, Val(P.ite(P.bin(O_ULT, x, y), x, y))); finishCall(st, I); };
  BI("llvm.umax") { Expr *x = toE(a[0], I.w), *y = toE(a[1], I.w); setRet(st, I, Val(P.ite(P.bin(O_ULT, x, y), y, x))); finishCall(st, I); };
  BI("llvm.smin") { Expr *x = toE(a[0], I.w), *y = toE(a[1], I.w); setRet(st, I, Val(P.ite(P.bin(O_SLT, x, y), x, y))); finishCall(st, I); };
  BI("llvm.smax") { Expr *x = toE(a[0], I.w), *y = toE(a[1], I.w); setRet(st, I, Val(P.ite(P.bin(O_SLT, x, y), y, x))); finishCall(st, I); };
  BI("llvm.abs") { Expr* x = toE(a[0], I.w); setRet(st, I, Val(P.ite(P.bin(O_SLT, x, P.C(0, I.w)), P.bin(O_SUB, P.C(0, I.w), x), x))); finishCall(st, I); };
  BI("llvm.usub.sat") { Expr *x = toE(a[0], I.w), *y = toE(a[1], I.w); setRet(st, I, Val(P.ite(P.bin(O_ULT, x, y), P.C(0, I.w), P.bin(O_SUB, x, y)))); finishCall(st, I); };
  BI("llvm.bswap") { unsigned w = I.w; Expr* x = toE(a[0], w); Expr* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr* b = P.extract(x, i * 8, 8); r = r ? P.concat(r, b) : b; } setRet(st, I, Val(r)); finishCall(st, I); };
  auto fsh = [](State& st, CInst& I, std::vector<Val>& a, bool left) {
    unsigned w = I.w; Expr *x = toE(a[0], w), *y = toE(a[1], w); 
    Expr* cc = P.bin(O_UREM, P.zext(toE(a[2], w), 2 * w), P.C(w, 2 * w));
    Expr* v = P.concat(x, y);
    Expr* r = left ? P.extract(P.bin(O_SHL, v, cc), w, w) : P.extract(P.bin(O_LSHR, v, cc), 0, w);
    setRet(st, I, Val(r)); finishCall(st, I); };
  builtins["llvm.fshl"] = [fsh](State& st, CInst& I, std::vector<Val>& a) { fsh(st, I, a, true); };
  builtins["llvm.fshr"] = [fsh](State& st, CInst& I, std::vector<Val>& a) { fsh(st, I, a, false); };
  BI("llvm.ctpop") { unsigned w = I.w; Expr* x = toE(a[0], w); Expr* r = P.C(0, w); for (unsigned i = 0; i < w; i++) r = P.bin(O_ADD, r, P.zext(P.extract(x, i, 1), w)); setRet(st, I, Val(r)); finishCall(st, I); };
  BI("llvm.ctlz") { unsigned w = I.w; Expr* x = toE(a[0], w); Expr* r = P.C(w, w); for (unsigned i = 0; i < w; i++) r = P.ite(P.extract(x, i, 1), P.C(w - 1 - i, w), r); setRet(st, I, Val(r)); finishCall(st, I); };
  BI("llvm.cttz") { unsigned w = I.w; Expr* x = toE(a[0], w); Expr* r = P.C(w, w); for (unsigned i = w; i-- > 0;) r = P.ite(P.extract(x, i, 1), P.C(i, w), r); setRet(st, I, Val(r)); finishCall(st, I); };
  BI("llvm.fabs") { setRet(st, I, Val(P.bin(O_AND, P.C(maskw(I.w) >> 1, I.w), toE(a[0], I.w)))); finishCall(st, I); };
  auto fround = [](int kind) { return [kind](State& st, CInst& I, std::vector<Val>& a) { double d = ExprPool::toD(concretize(st, a[0], I.w), I.w); d = kind == 0 ? std::ceil(d) : kind == 1 ? std::floor(d) : std::trunc(d); setRet(st, I, Val((u64)ExprPool::fromD(d, I.w))); finishCall(st, I); }; };
  builtins["llvm.ceil"] = fround(0); builtins["llvm.floor"] = fround(1); builtins["llvm.trunc"] = fround(2); builtins["ceil"] = fround(0); builtins["floor"] = fround(1); builtins["ceilf"] = fround(0);
  BI("llvm.fmuladd") { if (a[0].sym() || a[1].sym() || a[2].sym()) { unsup(st, "symbolic fmuladd"); return; } Val m = fbin(F_MUL, I.w, a[0], a[1]); setRet(st, I, fbin(F_ADD, I.w, m, a[2])); finishCall(st, I); };
  auto mcpy = [](State& st, CInst& I, std::vector<Val>& a) {
    u64 n = concretize(st, a[2], I.argW[2]); if (st.dead) return; u64 d = concretize(st, a[0], 64), s = concretize(st, a[1], 64);
    copyBytes(st, d, s, n); if (st.dead) return;
    if (I.dst >= 0) setRet(st, I, Val(d));
    finishCall(st, I); };
  for (auto* n : {"llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "memcpy", "memmove"}) builtins[n] = mcpy;
  auto mset = [](State& st, CInst& I, std::vector<Val>& a) {
    u64 n = concretize(st, a[2], I.argW[2]), d = concretize(st, a[0], 64);
    if (n && st.races && !raceAccess(st, d, n, true)) return;
    if (n) { Loc l; Obj* o = access(st, d, n, true, l); if (!o) return; Val b = a[1].sym() ? Val(P.extract(a[1].e, 0, 8)) : Val(a[1].c & 0xff); for (u64 i = 0; i < n; i++) writeObj(o, l.off + i, b, 8); }
    if (I.dst >= 0) setRet(st, I, Val(d));
    finishCall(st, I); };
  builtins["llvm.memset"] = mset; builtins["memset"] = mset;
  auto mcmp = [](State& st, CInst& I, std::vector<Val>& a) {
    u64 n = concretize(st, a[2], 64), x = concretize(st, a[0], 64), y = concretize(st, a[1], 64);
    if (n) { Loc l; if (!access(st, x, n, false, l) || !access(st, y, n, false, l)) return; }
    // concrete prefix
    Expr* eq = P.T(); std::vector<std::pair<Expr*, Expr*>> bs;
    for (u64 i = 0; i < n; i++) {
      Expr *p = byteAt(st, x + i), *q = byteAt(st, y + i);
      Expr* e = P.Eq(p, q); if (e->op == O_CONST && e->val) continue;
      bs.push_back({p, q}); eq = P.And(eq, e);
      if (e->op == O_CONST) break;  // definitely different here
    }
    Expr* less = P.F();
    for (size_t i = bs.size(); i-- > 0;) less = P.ite(P.Eq(bs[i].first, bs[i].second), less, P.bin(O_ULT, bs[i].first, bs[i].second));
    setRet(st, I, Val(P.ite(eq, P.C(0, 32), P.ite(less, P.C(0xffffffff, 32), P.C(1, 32))))); finishCall(st, I); };
  builtins["memcmp"] = mcmp; builtins["bcmp"] = mcmp;
  // allocation (called from rt.cpp)
  BI("__symx_alloc") { u64 n = concretize(st, a[0], 64); if (st.dead) return; setRet(st, I, Val(allocHeap(st, n, (ObjKind)a[1].c, a[2].c))); finishCall(st, I); };
  BI("__symx_free") {
    u64 p = concretize(st, a[0], 64); ObjKind k = (ObjKind)a[1].c; u64 sz = a[2].c;
    if (!p) { finishCall(st, I); return; }
    Loc l; Obj* o = locate(p, l) ? objAt(st, l) : nullptr;
    if (!o || l.region != 1) { violate(st, "memory", "free of non-heap pointer"); return; }
    if (!o->alive) { violate(st, "memory", "double free"); return; }
    if (l.off) { violate(st, "memory", "free of interior pointer"); return; }
    if (o->kind != k) { violate(st, "memory", "allocation/deallocation kind mismatch"); return; }
    if (!a[2].sym() && sz != ~0ULL && sz != o->size) { violate(st, "memory", "new/delete size mismatch"); return; }
    if (st.races && !raceAccess(st, p, o->size, true, true)) return;
    if (optReuse) st.freed.push_back({l.slot, (o->size + 15) & ~15ull});
    Obj* n = new Obj(0); n->kind = k; n->alive = false; n->base = o->base; st.heap.set(l.slot, n); st.liveHeap--; finishCall(st, I); };
  BI("__symx_size") { u64 p = concretize(st, a[0], 64); Loc l; Obj* o = locate(p, l) ? objAt(st, l) : nullptr; setRet(st, I, Val(o ? (u64)o->size : 0)); finishCall(st, I); };
  // exceptions: __symx_unwind(obj, typeinfo)
  BI("__symx_unwind") { unwind(st, a[0].c, a[1].c); };
  BI("__symx_throw_loc") { finishCall(st, I); };
  BI("__symx_terminate") { violate(st, "terminate", rdStr(st, a[0].c)); };
  BI("__symx_warn") { incomplete.insert(rdStr(st, a[0].c)); finishCall(st, I); };
  BI("__symx_unsupported") { unsup(st, rdStr(st, a[0].c)); };
  // harness interface
  BI("__symx_int") { std::string n = rdStr(st, a[0].c); unsigned w = a[1].c; 
    Expr* s = P.sym(n + "#" + std::to_string(st.nsyms++) + "#" + std::to_string(w), w); std::vector<Expr*> b; for (unsigned i = 0; i < w; i += 8) b.push_back(P.extract(s, i, 8)); newSymBytes(st, n, b);
    setRet(st, I, Val(P.zext(s, 64))); finishCall(st, I); };
  BI("symx_bytes") { u64 p = a[0].c, n = concretize(st, a[1], 64); std::string nm = rdStr(st, a[2].c); std::vector<Expr*> b;
    for (u64 i = 0; i < n; i++) { Expr* s = P.sym(nm + "#" + std::to_string(st.nsyms) + "[" + std::to_string(i) + "]", 8); b.push_back(s); Loc l; Obj* o = access(st, p + i, 1, true, l); if (!o) return; writeObj(o, l.off, Val(s), 8); }
    st.nsyms++; newSymBytes(st, nm, b); finishCall(st, I); };
  BI("symx_assume") {
    Expr* e; truth(st, a[0], I.argW[0], e);
    if (e->op == O_CONST) { if (!e->val) { nAssumeKilled++; st.dead = true; return; } finishCall(st, I); return; }
    Model m; int r = feasible(st, e, m);
    if (r != 1) { nAssumeKilled++; st.dead = true; return; }
    st.model = m; addC(st, e); finishCall(st, I); };
  BI("symx_check") {
    std::string lab = rdStr(st, a[1].c); nChecks++; checkCounts[lab]++;
    Expr* e; truth(st, a[0], I.argW[0], e);
    if (e->op == O_CONST) { if (!e->val) { violate(st, "check", lab); return; } finishCall(st, I); return; }
    nChecksSym++;
    if (optVerbose > 1) { fprintf(stderr, "CHECK %s", lab.c_str()); Expr* x = e; std::set<std::pair<Expr*, Expr*>> seen; int left = 3; while (x->op == O_AND) x = x->k[0]; if (x->op == O_EQ) diffE(x->k[0], x->k[1], seen, left); else dumpE(x, 5); fprintf(stderr, "\n"); }
    int k = known(st, e);
    if (k == 1) { finishCall(st, I); return; }
    Model m; Expr* ne = P.Not(e);
    int r = probe(st, ne, m) ? 1 : feasible(st, ne, m);
    if (r == 1) violateM(st, m, "check", lab);
    if (r == 1) { r = feasible(st, e, m); if (r != 1) { st.dead = true; return; } st.model = m; addC(st, e); }
    finishCall(st, I); };
  BI("symx_reach") { std::string lab = rdStr(st, a[0].c); reached.insert(lab); st.obs.push_back({lab, nullptr}); finishCall(st, I); };
  BI("symx_observe") { std::string n = rdStr(st, a[0].c); st.obs.push_back({n, toE(a[1], 64)}); finishCall(st, I); };
  BI("symx_is_engine") { setRet(st, I, Val((u64)1)); finishCall(st, I); };
  BI("symx_param") { u64 i = a[0].c; setRet(st, I, Val(i < optParams.size() ? optParams[i] : a[1].c)); finishCall(st, I); };
  BI("symx_live_heap") { setRet(st, I, Val(st.liveHeap)); finishCall(st, I); };
  BI("symx_concretize") { u64 v = concretize(st, a[0], 64); if (st.dead) return; setRet(st, I, Val(v)); finishCall(st, I); };
  BI("symx_print") { fprintf(stderr, "[print] %s", rdStr(st, a[0].c).c_str()); if (a.size() > 1) { if (a[1].sym()) fprintf(stderr, " <symbolic> e.g. %llx", (unsigned long long)P.evalUnder(a[1].e, st.model)); else fprintf(stderr, " %llx", (unsigned long long)a[1].c); } fprintf(stderr, "\n"); finishCall(st, I); };
  // threads
  BI("__symx_thread_start") {
    int id = st.th.size(); if (id >= MAXT) fatal("too many threads"); st.th.emplace_back();
    u64 fa = a[0].c; Function* fn = funcByIdx[(fa - FUNC_BASE) / 16];
    int cur = st.cur; st.cur = id; std::vector<Val> av{a[1]}; pushFrame(st, getC(fn), av, nullptr); st.cur = cur;
    if (!st.races) { st.races = std::make_shared<Races>(); st.races->vc[0].c[0] = 1; }
    Races& r = RC(st); r.vc[id] = r.vc[cur]; r.vc[id].c[id] = 1; r.vc[cur].c[cur]++;
    setRet(st, I, Val((u64)id)); finishCall(st, I); };
  BI("__symx_switch") { u64 t = a[0].c; finishCall(st, I); if (t >= st.th.size()) fatal("switch to an unknown thread"); st.cur = t; };
  BI("__symx_tid") { setRet(st, I, Val((u64)st.cur)); finishCall(st, I); };
  BI("__symx_acq") { syncAcq(st, a[0].c); finishCall(st, I); };
  BI("__symx_rel") { syncRel(st, a[0].c); finishCall(st, I); };
  BI("__symx_touch") { Loc l; if (!access(st, a[0].c, 1, false, l)) return; finishCall(st, I); };
  BI("__symx_fail") { violate(st, rdStr(st, a[0].c), rdStr(st, a[1].c)); };
}
// ---------------------------------------------------------------- main
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static int realMain() {
  T0 = std::chrono::steady_clock::now();
  SMDiagnostic err;
  M = parseIRFile(optBc, err, Ctx);
  if (!M) { err.print("symx", errs()); return 2; }
  schedFn = M->getFunction("symx_sched");
  DL = &M->getDataLayout();
  S.timeoutMs = optSolverMs; S.dumpEvery = optDumpEvery; S.dumpDir = optDump;
  setupBuiltins();
  for (auto& G : M->globals()) addrOfGlobal(&G);
  for (auto& F : *M) addrOfGlobal(&F);
  for (auto& G : M->globals()) if (G.hasInitializer() && !G.isThreadLocal()) { u64 slot = gaddr[&G] / HEAP_STRIDE - 1; initConst(globInit.getW(slot), 0, G.getInitializer()); }
  FullState* s0 = new FullState();
  s0->glob = globInit;
  s0->th.resize(1);
  std::vector<std::pair<u64, Function*>> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& c : ctors) { std::vector<Val> none; pushFrame(*s0, getC(c.second), none, nullptr); runState(*s0); if (s0->dead) { fprintf(stderr, "symx: constructor failed\n"); goto report; } }
  s0->steps = 0; s0->liveHeap = 0;
  {
    Function* E = M->getFunction(optEntry);
    if (!E || E->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", optEntry.c_str()); return 2; }
    std::vector<Val> none; pushFrame(*s0, getC(E), none, nullptr);
    work.push_back(s0);
    while (!work.empty()) {
      State* s = work.back(); work.pop_back();
      if (elapsed() > optTimeout) { incomplete.insert("time budget exhausted"); break; }
      if (optMaxPaths && nPaths >= optMaxPaths) { incomplete.insert("path budget exhausted"); break; }
      u64 b = s->steps;
      if (runState(*s)) {
        nPaths++; 
        if (!optWit.empty() && nWit < optWitMax && nPaths >= nextWit) {
          writeCex(*s, s->model, optWit + "/wit" + std::to_string(nWit++) + ".txt", "witness", "-");
          nextWit = nPaths < 4 ? nPaths + 1 : nPaths + nPaths / 3;
        }
      }
      totalSteps += s->steps - b; maxPathSteps = std::max(maxPathSteps, s->steps);
      delete static_cast<FullState*>(s);
    }
  }
report:
  FILE* o = optOut.empty() ? stdout : fopen(optOut.c_str(), "w");
  fprintf(o, "{\n \"entry\": \"%s\",\n \"paths\": %llu,\n \"paths_assumed_away\": %llu,\n \"forks\": %llu,\n \"instructions\": %llu,\n \"max_path_instructions\": %llu,\n", optEntry.c_str(), (unsigned long long)nPaths, (unsigned long long)nAssumeKilled, (unsigned long long)nForks, (unsigned long long)totalSteps, (unsigned long long)maxPathSteps);
  fprintf(o, " \"checks\": %llu,\n \"checks_symbolic\": %llu,\n \"symbolic_accesses\": %llu,\n \"max_input_bytes\": %zu,\n", (unsigned long long)nChecks, (unsigned long long)nChecksSym, (unsigned long long)nMemSym, maxInputBytes);
  fprintf(o, " \"solver\": {\"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"cache_hits\": %llu, \"model_hits\": %llu, \"seconds\": %.3f, \"max_seconds\": %.3f},\n", (unsigned long long)S.st.queries, (unsigned long long)S.st.sat, (unsigned long long)S.st.unsat, (unsigned long long)S.st.unknown, (unsigned long long)S.st.cacheHits, (unsigned long long)S.st.modelHits, S.st.time, S.st.maxTime);
  auto list = [&](const char* n, const std::set<std::string>& v) { fprintf(o, " \"%s\": [", n); bool f = true; for (auto& x : v) { fprintf(o, "%s\"%s\"", f ? "" : ", ", jesc(x).c_str()); f = false; } fprintf(o, "],\n"); };
  list("incomplete", incomplete); list("unsupported", unsupported); list("undefined_functions", undefinedCalled); list("reached", reached);
  fprintf(o, " \"check_counts\": {"); { bool f = true; for (auto& c : checkCounts) { fprintf(o, "%s\"%s\": %llu", f ? "" : ", ", jesc(c.first).c_str(), (unsigned long long)c.second); f = false; } } fprintf(o, "},\n");
  { std::set<std::string> fns; for (auto& c : cfuncs) if (c.second->inRepo && c.second->execs) fns.insert(shortName(c.second->name)); list("functions", fns); }
  fprintf(o, " \"violations\": ["); { bool f = true; for (auto& v : viols) { fprintf(o, "%s\n  {\"kind\": \"%s\", \"label\": \"%s\", \"loc\": \"%s\", \"count\": %llu, \"file\": \"%s\", \"trace\": \"%s\"}", f ? "" : ",", v.second.kind.c_str(), jesc(v.second.label).c_str(), jesc(v.second.loc).c_str(), (unsigned long long)v.second.count, jesc(v.second.file).c_str(), jesc(v.second.trace).c_str()); f = false; } } fprintf(o, "],\n");
  fprintf(o, " \"wall\": %.3f\n}\n", elapsed());
  if (o != stdout) fclose(o);
  fflush(stdout);
  _exit(0);
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { if (i + 1 >= argc) fatal("missing value for " + a); return argv[++i]; };
    if (a == "--wit") optWit = nx(); else if (a == "--wit-max") optWitMax = strtoull(nx().c_str(), 0, 10); else if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--cex") optCexDir = nx(); else if (a == "--timeout") optTimeout = atof(nx().c_str());
    else if (a == "--solver-ms") optSolverMs = atoi(nx().c_str()); else if (a == "--max-steps") optMaxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--max-paths") optMaxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--dump") optDump = nx(); else if (a == "--dump-every") optDumpEvery = atoi(nx().c_str()); else if (a == "--reuse") optReuse = true; else if (a == "--conc-fp") optConcFp = true; else if (a == "--desc") optDescending = true; else if (a == "-v") optVerbose++;
    else if (a == "--param") optParams.push_back(strtoull(nx().c_str(), 0, 0)); else if (a == "--src") optSrcPrefix = nx();
    else optBc = a;
  }
  if (optBc.empty() || optEntry.empty()) fatal("usage: symx FILE.bc --entry FN [--out F] [--cex DIR] ...");
  if (optCexDir.empty()) optCexDir = ".";
  // Deep recursion over expressions: run on a large stack.
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2048UL << 20);
  pthread_t t; static int rc;
  pthread_create(&t, &at, [](void*) -> void* { rc = realMain(); return nullptr; }, nullptr);
  pthread_join(t, nullptr);
  return rc;
}
