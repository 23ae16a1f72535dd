// ksym: a symbolic executor for LLVM IR.  See DESIGN.md ("The engine").
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cstring>
#include <cstdarg>
#include <map>
#include <set>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>

using namespace llvm;
typedef uint64_t u64;

// ---------------------------------------------------------------- options
static std::string optBc, optOut, optTokens, optRepoPrefix = "/repo/";
static std::vector<std::string> optEntries;
static double optDeadline = 600;      // seconds, whole run
static u64 optMaxInstr = 2000000;     // per path
static int optMaxViol = 4;
static int optPreempt = 2;
static u64 optConcLimit = 4096;       // values enumerated at one program point of one path prefix
static bool optTrace = false;
static std::string optReplay;
static u64 optMaxPaths = 0;
static u64 optTierVal = 0;

struct Shared { volatile long violations; volatile long stop; volatile long paths; };
static Shared* g_shared;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double g_t0;

[[noreturn]] static void die(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); fprintf(stderr, "ksym: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
  if (g_shared) g_shared->stop = 1;
  _exit(70);
}

// ---------------------------------------------------------------- values
struct V { u64 c = 0; E e = nullptr; V() {} template<class I, class = std::enable_if_t<std::is_integral_v<I>>> V(I x) : c((u64)x) {} V(E x) : e(x) { if (x && isC(x)) { c = x->val; e = nullptr; } } };
static const Expr g_undefMark{};
static inline E toE(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { K_GLOBAL, K_STACK, K_HEAP };
enum AK : uint8_t { A_NONE, A_MALLOC, A_NEW, A_NEWARR, A_MM };
static const int MAXT = 5;
typedef std::array<uint32_t, MAXT> VC;
struct Shadow { // per byte: last plain write / reads, last atomic write / reads
  std::vector<uint8_t> wt; std::vector<uint32_t> wc; std::vector<VC> r; std::vector<VC> at;
};
struct Obj {
  int rc = 0;
  u64 base = 0, cap = 0; E symsize = nullptr;
  Kind kind = K_GLOBAL; AK ak = A_NONE; bool alive = true, ro = false;
  std::vector<uint8_t> d, st; // st: 0 uninit, 1 concrete, 2 symbolic
  std::vector<E> sym;
  std::unique_ptr<Shadow> sh;
  std::string name;
  uint32_t serial = 0;
  Obj() {}
  Obj(const Obj& o) : rc(0), base(o.base), cap(o.cap), symsize(o.symsize), kind(o.kind), ak(o.ak), alive(o.alive), ro(o.ro), d(o.d), st(o.st), sym(o.sym), sh(o.sh ? new Shadow(*o.sh) : nullptr), name(o.name), serial(o.serial) {}
};
struct ObjRef {
  Obj* p = nullptr;
  ObjRef() {} ObjRef(Obj* o) : p(o) { p->rc++; }
  ObjRef(const ObjRef& r) : p(r.p) { if (p) p->rc++; }
  ObjRef(ObjRef&& r) noexcept : p(r.p) { r.p = nullptr; }
  ObjRef& operator=(ObjRef r) { std::swap(p, r.p); return *this; }
  ~ObjRef() { if (p && --p->rc == 0) delete p; }
};

// ---------------------------------------------------------------- compiled functions
struct Slot { unsigned w; unsigned off; bool ok; };
struct TypeInfo { std::vector<Slot> s; u64 size; };
struct Opnd { int reg = -1; unsigned n = 1; std::vector<V> cv; };
struct KInst {
  Instruction* I; unsigned op; int dst = -1; unsigned dn = 0; unsigned w = 0; // w: first slot width of result
  std::vector<Opnd> ops; const TypeInfo* ti = nullptr; bool sync = false;
  // gep
  std::vector<std::pair<int, u64>> gepIdx; u64 gepOff = 0; // operand index, scale
  Function* callee = nullptr; int builtin = -1;
};
struct KBlock { BasicBlock* B; std::vector<KInst> in; };
struct KFunc { Function* F; std::vector<KBlock> bb; std::map<const BasicBlock*, int> bidx; unsigned nregs = 0; std::vector<int> argReg; std::vector<unsigned> argN; std::vector<Type*> byval; };

struct Frame { KFunc* f; int bb = 0, pc = 0; std::vector<V> regs; size_t mark = 0; };
enum TS : uint8_t { T_RUN, T_BLOCK_MUTEX, T_BLOCK_JOIN, T_DONE };
struct Thread { std::vector<Frame> st; TS status = T_RUN; u64 waitOn = 0; VC vc{}; VC relF{}, acqP{}; u64 stackNext = 0; std::vector<ObjRef> stk; };
struct MutexS { int owner = -1; int readers = 0; int depth = 0; VC vc{}; uint8_t rd[MAXT] = {0}; };

struct Input { std::string name; unsigned w; E e; u64 c; bool choice; };

struct State {
  std::vector<ObjRef> globals, heap;
  u64 heapNext = 0x100000000000ull; uint32_t serial = 0;
  std::vector<Thread> th; int cur = 0; bool schedDone = false; int preempt = 0; bool multi = false;
  std::map<u64, MutexS> mtx; std::map<u64, VC> atomVC;
  std::vector<E> cons; Model model;
  std::vector<std::pair<uint32_t, u64>> known; std::vector<std::pair<uint32_t, unsigned>> narrow; u64 knownVer = 0; VarSet knownVars;
  std::vector<Input> inputs; std::map<std::string, int> names;
  std::vector<int> sched;
  u64 instrs = 0, fuel = optMaxInstr; uint32_t fresh = 0; int failBudget = 0; u64 mallocCap = 4096; int liveHeap = 0; bool newFails = false; bool symmem = false;
  uint32_t concCount = 0;
  size_t replayPos = 0;
  std::vector<std::pair<u64,u64>> watch;
};

// ---------------------------------------------------------------- module
static LLVMContext* g_ctx; static std::unique_ptr<Module> g_mod; static const DataLayout* DL;
static std::map<const Function*, KFunc*> g_kf; static std::map<const GlobalValue*, u64> g_gaddr; static std::map<u64, Function*> g_faddr;
static std::map<Type*, TypeInfo*> g_ti;
static std::set<std::string> g_funcs; // functions of the code under test that were executed
static std::set<KFunc*> g_execd;
static std::map<std::string, u64> g_reach;
static u64 g_paths = 0, g_pathsDone = 0, g_forks = 0, g_instr = 0, g_checks = 0, g_infeasible = 0, g_maxInstr = 0;
static std::map<std::string, u64> g_incomplete;
struct Viol { std::string kind, msg, loc, stack; std::vector<Input> inputs; std::vector<u64> vals; std::vector<int> sched; };
static std::vector<Viol> g_viols; static std::set<std::string> g_violKeys;
static std::vector<State*> g_work;
static std::vector<std::pair<std::string, u64>> g_replayIn; static std::vector<int> g_replaySched;
struct Trace { std::vector<Input> in; std::vector<u64> v; std::vector<int> sched; bool multi; };
static std::vector<Trace> g_traces; // a few complete passing paths, replayed natively by the runner

static const TypeInfo* tinfo(Type* T);
static void flat(Type* T, u64 off, std::vector<Slot>& out) {
  if (T->isIntegerTy()) { unsigned w = T->getIntegerBitWidth(); out.push_back({w, (unsigned)off, w <= 64}); }
  else if (T->isPointerTy()) out.push_back({64, (unsigned)off, true});
  else if (T->isDoubleTy()) out.push_back({64, (unsigned)off, true});
  else if (T->isFloatTy()) out.push_back({32, (unsigned)off, true});
  else if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) flat(S->getElementType(i), off + L->getElementOffset(i), out); }
  else if (auto* A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) flat(A->getElementType(), off + i * es, out); }
  else if (auto* X = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeStoreSize(X->getElementType()); for (u64 i = 0; i < X->getNumElements(); i++) flat(X->getElementType(), off + i * es, out); }
  else out.push_back({64, (unsigned)off, false});
}
static const TypeInfo* tinfo(Type* T) {
  auto it = g_ti.find(T); if (it != g_ti.end()) return it->second;
  auto* t = new TypeInfo();
  if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) t->size = 0;
  else { flat(T, 0, t->s); t->size = DL->getTypeStoreSize(T); }
  g_ti[T] = t; return t;
}

static V undefV(unsigned w) { V v; v.c = w; v.e = &g_undefMark; return v; }
static void constSlots(const Constant* C, std::vector<V>& out);
static u64 constAddr(const Constant* C) {
  std::vector<V> o; constSlots(C, o); return o[0].c;
}
static void constSlots(const Constant* C, std::vector<V>& out) {
  Type* T = C->getType();
  if (isa<UndefValue>(C)) { for (auto& s : tinfo(T)->s) out.push_back(undefV(s.w)); return; }
  if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { out.push_back(V((u64)ci->getValue().getLoBits(64).getZExtValue())); return; } out.push_back(V(ci->getZExtValue())); return; }
  if (auto* cf = dyn_cast<ConstantFP>(C)) { out.push_back(V(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (isa<ConstantPointerNull>(C)) { out.push_back(V(0)); return; }
  if (isa<ConstantAggregateZero>(C)) { for (size_t i = 0; i < tinfo(T)->s.size(); i++) out.push_back(V(0)); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(C)) { for (auto& o : ca->operands()) constSlots(cast<Constant>(o), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constSlots(cd->getElementAsConstant(i), out); return; }
  if (auto* gv = dyn_cast<GlobalValue>(C)) {
    if (auto* ga = dyn_cast<GlobalAlias>(C)) { constSlots(ga->getAliasee(), out); return; }
    auto it = g_gaddr.find(gv); if (it == g_gaddr.end()) die("no address for global %s", gv->getName().str().c_str());
    out.push_back(V(it->second)); return;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("const gep");
        out.push_back(V(constAddr(cast<Constant>(ce->getOperand(0))) + off.getZExtValue())); return; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: constSlots(ce->getOperand(0), out); return;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: { u64 a = constAddr(ce->getOperand(0)); unsigned w = tinfo(T)->s[0].w; out.push_back(V(a & mask(w))); return; }
      case Instruction::Sub: out.push_back(V(constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1)))); return;
      case Instruction::Add: out.push_back(V(constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1)))); return;
      default: die("unsupported constant expression %s", ce->getOpcodeName());
    }
  }
  die("unsupported constant");
}

#include "builtins.inc"

static bool isSyncInst(Instruction& I) {
  if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) return true;
  if (auto* L = dyn_cast<LoadInst>(&I)) return L->isAtomic();
  if (auto* S = dyn_cast<StoreInst>(&I)) return S->isAtomic();
  return false;
}

static KFunc* kfunc(Function* F) {
  auto it = g_kf.find(F); if (it != g_kf.end()) return it->second;
  auto* k = new KFunc(); k->F = F; g_kf[F] = k;
  std::map<const Value*, int> reg;
  for (auto& A : F->args()) { unsigned n = tinfo(A.getType())->s.size(); reg[&A] = k->nregs; k->argReg.push_back(k->nregs); k->argN.push_back(n); k->nregs += n; k->byval.push_back(A.hasByValAttr() ? A.getParamByValType() : nullptr); }
  for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) { reg[&I] = k->nregs; k->nregs += tinfo(I.getType())->s.size(); }
  int bi = 0; for (auto& B : *F) k->bidx[&B] = bi++;
  for (auto& B : *F) {
    k->bb.push_back({&B, {}}); auto& kb = k->bb.back();
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      KInst ki; ki.I = &I; ki.op = I.getOpcode(); ki.sync = isSyncInst(I);
      if (!I.getType()->isVoidTy()) { ki.dst = reg[&I]; ki.ti = tinfo(I.getType()); ki.dn = ki.ti->s.size(); if (ki.dn) ki.w = ki.ti->s[0].w; }
      auto mk = [&](Value* v) { Opnd o; auto r = reg.find(v); if (r != reg.end()) { o.reg = r->second; o.n = tinfo(v->getType())->s.size(); } else if (auto* c = dyn_cast<Constant>(v)) { constSlots(c, o.cv); o.n = o.cv.size(); } else if (isa<InlineAsm>(v) || isa<MetadataAsValue>(v) || isa<BasicBlock>(v)) { o.cv.push_back(V(0)); } else die("operand kind"); return o; };
      if (auto* C = dyn_cast<CallBase>(&I)) {
        for (auto& a : C->args()) ki.ops.push_back(mk(a.get()));
        Function* cf = C->getCalledFunction();
        if (cf) { Opnd o; o.cv.push_back(V(0)); ki.ops.push_back(o); } else ki.ops.push_back(mk(C->getCalledOperand()));
        if (!cf) if (auto* al = dyn_cast<GlobalAlias>(C->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
        ki.callee = cf;
        if (cf) { ki.builtin = builtinId(cf); if (ki.builtin < 0 && cf->isDeclaration()) ki.builtin = B_UNKNOWN; if (builtinSync(ki.builtin)) ki.sync = true; }
      } else if (auto* P = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) ki.ops.push_back(mk(P->getIncomingValue(i)));
      } else if (isa<BranchInst>(I)) {
        if (cast<BranchInst>(I).isConditional()) ki.ops.push_back(mk(cast<BranchInst>(I).getCondition()));
      } else if (isa<SwitchInst>(I)) {
        ki.ops.push_back(mk(cast<SwitchInst>(I).getCondition()));
      } else if (isa<LandingPadInst>(I)) {
      } else for (auto& o : I.operands()) ki.ops.push_back(mk(o.get()));
      if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
        unsigned oi = 1;
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi, ++oi) {
          Value* idx = gi.getOperand();
          if (auto* ST = gi.getStructTypeOrNull()) ki.gepOff += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          else { u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) ki.gepOff += es * (u64)ci->getSExtValue(); else ki.gepIdx.push_back({(int)oi, es}); }
        }
      }
      kb.in.push_back(std::move(ki));
    }
  }
  return k;
}

// ---------------------------------------------------------------- location strings
static std::string locOf(Instruction* I) {
  if (auto& d = I->getDebugLoc()) {
    std::string f = d->getFilename().str();
    if (!f.empty() && f[0] != '/') f = d->getDirectory().str() + "/" + f;
    return f + ":" + std::to_string(d.getLine());
  }
  return "?";
}
static std::string normPath(const std::string& p) {
  std::vector<std::string> out; size_t i = 0;
  while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); std::string c = p.substr(i, j - i); i = j + 1; if (c.empty() || c == ".") continue; if (c == ".." && !out.empty()) out.pop_back(); else out.push_back(c); }
  std::string r; for (auto& c : out) r += "/" + c; return r;
}
static std::string stackStr(State& s) {
  std::string r; auto& st = s.th[s.cur].st;
  for (int i = (int)st.size() - 1; i >= 0 && i >= (int)st.size() - 14; i--) {
    auto& f = st[i]; r += "    " + demangle(f.f->F->getName().str()) + " at " + normPath(locOf(f.f->bb[f.bb].in[f.pc].I)) + "\n";
  }
  return r;
}
static std::string locStr(State& s) {
  auto& st = s.th[s.cur].st; std::string first;
  for (int i = (int)st.size() - 1; i >= 0; i--) { auto& f = st[i]; std::string l = normPath(locOf(f.f->bb[f.bb].in[f.pc].I)); if (first.empty()) first = l; if (l.rfind(optRepoPrefix, 0) == 0) return l; }
  return first;
}

// ---------------------------------------------------------------- constraints
struct Terminate {}; // thrown to end the current path
static u64 g_knownVerNext = 1;
static std::unordered_map<u64, E> g_simpMemo;
static void addKnown(State& s, E e, u64 v) {
  while (true) {
    if (e->op == E_ZEXT) { e = e->a; continue; }
    if (e->op == E_ADD && isC(e->b)) { v = (v - e->b->val) & mask(e->w); e = e->a; continue; }
    if (e->op == E_XOR && isC(e->b)) { v ^= e->b->val; e = e->a; continue; }
    if (e->op == E_NOT) { v = ~v & mask(e->w); e = e->a; continue; }
    break;
  }
  if (isC(e)) return;
  if (e->op == E_EQ && v == 1 && isC(e->b)) { addKnown(s, e->a, e->b->val); return; }
  if (e->op == E_AND && e->w == 1 && v == 1) { addKnown(s, e->a, 1); addKnown(s, e->b, 1); return; }
  if (e->op == E_OR && e->w == 1 && v == 0) { addKnown(s, e->a, 0); addKnown(s, e->b, 0); return; }
  if (e->op == E_CONCAT) { addKnown(s, e->a, v >> e->b->w); addKnown(s, e->b, v & mask(e->b->w)); }
  auto it = std::lower_bound(s.known.begin(), s.known.end(), std::make_pair(e->id, (u64)0));
  if (it != s.known.end() && it->first == e->id) return;
  s.known.insert(it, {e->id, v});
  VarSet u; std::set_union(s.knownVars.begin(), s.knownVars.end(), e->vars->begin(), e->vars->end(), std::back_inserter(u)); s.knownVars.swap(u);
  s.knownVer = g_knownVerNext++;
}
static bool disjoint(const VarSet& a, const VarSet& b) { auto i = a.begin(), j = b.begin(); while (i != a.end() && j != b.end()) { if (*i < *j) ++i; else if (*j < *i) ++j; else return false; } return true; }
static E simpR(State& s, E e) {
  if (isC(e) || disjoint(*e->vars, s.knownVars)) return e;
  u64 key = (s.knownVer << 28) ^ e->id;
  auto it = g_simpMemo.find(key); if (it != g_simpMemo.end()) return it->second;
  E r;
  auto k = std::lower_bound(s.known.begin(), s.known.end(), std::make_pair(e->id, (u64)0));
  if (k != s.known.end() && k->first == e->id) r = mkConst(k->second, e->w);
  else if (e->op == E_VAR) { r = e; for (auto& n : s.narrow) if (n.first == e->id) r = mkZext(mkExtract(e, 0, n.second), e->w); }
  else {
    E a = e->a ? simpR(s, e->a) : nullptr;
    if (e->op == E_ITE && isC(a)) r = simpR(s, a->val ? e->b : e->c);
    else { E b = e->b ? simpR(s, e->b) : nullptr, c = e->c ? simpR(s, e->c) : nullptr; r = (a == e->a && b == e->b && c == e->c) ? e : rebuild(e, a, b, c);
      if (r != e && !isC(r)) { k = std::lower_bound(s.known.begin(), s.known.end(), std::make_pair(r->id, (u64)0)); if (k != s.known.end() && k->first == r->id) r = mkConst(k->second, r->w); } }
  }
  if (g_simpMemo.size() > 2000000) g_simpMemo.clear();
  g_simpMemo[key] = r; return r;
}
static E simp(State& s, E e) { if (isC(e) || (s.known.empty() && s.narrow.empty())) return e; return simpR(s, e); }
static V simpV(State& s, V v) { if (!v.e) return v; return V(simp(s, v.e)); }

static void applyAsg(Model& m, const Assign& a) { for (auto& p : a) { if (m.size() <= p.first) m.resize(g_vars.size(), 0); m[p.first] = p.second; } }
static void learnBounds(State& s, E c);
static void addCons(State& s, E c) { if (isC(c)) return; s.cons.push_back(c); addKnown(s, c, 1); learnBounds(s, c); }
static void incomplete(const std::string& why) { g_incomplete[why]++; }

// can c be true in s?  on success asg turns s.model into a model of cons /\ c
static bool may(State& s, E c, Assign& asg) {
  asg.clear();
  c = simp(s, c);
  if (isC(c)) return c->val;
  if (evalExpr(c, s.model)) return true;
  Res r = solve(s.cons, c, asg);
  if (r == UNKNOWN) { incomplete("solver gave up on a query"); return false; }
  return r == SAT;
}
static bool may(State& s, E c) { Assign a; return may(s, c, a); }
// A comparison with a small constant often bounds a 64-bit input: ask the solver once, and from then on treat the
// high bits of that input as zero (a consequence of the path condition, so nothing is lost).
static void learnBounds(State& s, E c) {
  E u = c->op == E_NOT ? c->a : c;
  if (u->op != E_ULT) return;
  u64 k = isC(u->a) ? u->a->val : isC(u->b) ? u->b->val : ~0ull;
  if (k > 0xffff || c->vars->size() > 3) return;
  for (auto v : *c->vars) {
    if (g_vars[v].w < 32) continue;
    E ve = mkVar(g_vars[v].name, g_vars[v].w, g_vars[v].uninit); bool have = false;
    for (auto& n : s.narrow) if (n.first == ve->id) have = true;
    if (have) continue;
    unsigned bits = 1; while ((1ull << bits) <= k) bits++;
    E big = mkNot(mkBin(E_EQ, mkExtract(ve, bits, g_vars[v].w - bits), mkConst(0, g_vars[v].w - bits)));
    if (evalExpr(big, s.model)) continue;
    Assign a; if (solve(s.cons, big, a) != UNSAT) continue;
    s.narrow.push_back({ve->id, bits}); VarSet t{v}, uu; std::set_union(s.knownVars.begin(), s.knownVars.end(), t.begin(), t.end(), std::back_inserter(uu)); s.knownVars.swap(uu); s.knownVer = g_knownVerNext++;
    std::vector<E> nc; nc.push_back(mkNot(big));
    auto kn = s.known; s.known.clear(); s.knownVer = g_knownVerNext++; // rewrite with the narrowing only: known facts rest on these very constraints
    for (auto x : s.cons) { E y = simp(s, x); if (!isC(y)) nc.push_back(y); }
    s.cons.swap(nc); s.known.swap(kn); s.knownVer = g_knownVerNext++;
  }
}
static State* cloneS(State& s) { g_forks++; return new State(s); }

static void report(State& s, const std::string& kind, const std::string& msg, const Model& m, const std::string& loc0 = "") {
  std::string loc = loc0.empty() ? locStr(s) : loc0;
  std::string key = kind + "|" + msg + "|" + loc;
  if (g_violKeys.insert(key).second) {
    Viol v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stackStr(s); v.inputs = s.inputs; v.sched = s.sched;
    for (auto& i : s.inputs) v.vals.push_back(i.e ? evalExpr(i.e, m) : i.c);
    g_viols.push_back(v);
    if (__sync_add_and_fetch(&g_shared->violations, 1) >= optMaxViol) g_shared->stop = 1;
  }
}
// report and end the path
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg, s.model); throw Terminate{}; }
// property "bad can not happen": report if it can, then continue with !bad
static void require(State& s, E ok, const std::string& kind, const std::string& msg) {
  ok = simp(s, ok);
  if (isC(ok)) { if (!ok->val) fail(s, kind, msg); return; }
  Assign a; E bad = mkNot(ok);
  std::string kd = kind; if (ok->uninit) kd += "-uninit";
  if (may(s, bad, a)) { Model m = s.model; applyAsg(m, a); report(s, kd, msg, m); }
  else { addKnown(s, ok, 1); return; }
  if (!may(s, ok, a)) throw Terminate{};
  applyAsg(s.model, a); addCons(s, ok);
}
static void assume(State& s, E c) {
  c = simp(s, c);
  if (isC(c)) { if (!c->val) { g_infeasible++; throw Terminate{}; } return; }
  Assign a; if (!may(s, c, a)) { g_infeasible++; throw Terminate{}; }
  applyAsg(s.model, a); addCons(s, c);
}
// decide a condition, forking if both ways are possible; the fork re-executes the current instruction's branch with `other`
static bool decide(State& s, E c, State** other) {
  if (other) *other = nullptr;
  c = simp(s, c);
  if (isC(c)) return c->val;
  bool cur = evalExpr(c, s.model);
  E in = cur ? c : mkNot(c), out = cur ? mkNot(c) : c;
  Assign a;
  if (may(s, out, a)) {
    if (c->uninit) { report(s, "uninit-branch", "control flow depends on uninitialised memory", s.model); }
    State* o = cloneS(s); applyAsg(o->model, a); addCons(*o, out); *other = o;
    addCons(s, in);
  } else addKnown(s, in, 1);
  return cur;
}
// make v concrete; other values are explored in forks that re-execute the current instruction
static u64 conc(State& s, V v, unsigned w = 64) {
  if (!v.e) return v.c;
  E e = simp(s, v.e);
  if (isC(e)) return e->val;
  u64 val = evalExpr(e, s.model);
  E eq = mkBin(E_EQ, e, mkConst(val, e->w)); Assign a;
  if (may(s, mkNot(eq), a)) {
    if (s.concCount >= optConcLimit) incomplete("more than " + std::to_string(optConcLimit) + " values at one point");
    else { State* o = cloneS(s); o->concCount++; applyAsg(o->model, a); addCons(*o, mkNot(eq)); g_work.push_back(o); }
    addCons(s, eq);
  } else { addKnown(s, e, val); }
  s.concCount = 0;
  return val;
}

// ---------------------------------------------------------------- memory access
static const u64 GBASE = 0x10000000ull, FBASE = 0x1000ull, HBASE = 0x100000000000ull, SBASE = 0x7f0000000000ull, SSTEP = 0x1000000000ull;
static std::vector<ObjRef>* segOf(State& s, u64 a) {
  if (a >= SBASE) { u64 t = (a - SBASE) / SSTEP; if (t < s.th.size()) return &s.th[t].stk; return nullptr; }
  if (a >= HBASE) return &s.heap;
  if (a >= GBASE) return &s.globals;
  return nullptr;
}
static ObjRef* findObj(State& s, u64 a) {
  auto* g = segOf(s, a); if (!g || g->empty()) return nullptr;
  size_t lo = 0, hi = g->size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if ((*g)[m].p->base <= a) lo = m + 1; else hi = m; }
  if (!lo) return nullptr;
  ObjRef& r = (*g)[lo - 1];
  if (a < r.p->base + std::max<u64>(r.p->cap, 1)) return &r;
  return nullptr;
}
static Obj* writable(ObjRef& r) { if (r.p->rc > 1) { ObjRef n(new Obj(*r.p)); r = std::move(n); } return r.p; }
static u64 placeAt(u64 next, u64 align) { if (align < 1) align = 1; u64 m = 2 * align; u64 a = (next + m - 1) / m * m + align; return a; }
static Obj* newObj(u64 base, u64 cap, Kind k) { Obj* o = new Obj(); o->base = base; o->cap = cap; o->kind = k; o->d.resize(cap); o->st.resize(cap); return o; }
static u64 stackAlloc(State& s, Thread& t, u64 size, u64 align, const std::string& name) {
  u64 a = placeAt(t.stackNext, align); t.stackNext = a + size + 32;
  Obj* o = newObj(a, size, K_STACK); o->name = name; t.stk.push_back(ObjRef(o)); return a;
}
static u64 heapAlloc(State& s, u64 cap, E symsize, u64 align, AK ak) {
  u64 a = placeAt(s.heapNext, align); s.heapNext = a + cap + 256;
  Obj* o = newObj(a, cap, K_HEAP); o->ak = ak; o->symsize = symsize; o->serial = ++s.serial; o->name = "heap#" + std::to_string(o->serial);
  s.heap.push_back(ObjRef(o)); s.liveHeap++; return a;
}
static std::string hex(u64 a) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)a); return b; }
static std::string objDesc(State& s, u64 a) {
  ObjRef* r = findObj(s, a);
  if (r) return std::string(r->p->alive ? "" : "freed ") + r->p->name + "+" + std::to_string(a - r->p->base);
  if (a < 4096) return "null pointer (" + std::to_string(a) + ")";
  auto* g = segOf(s, a); if (g) for (auto it = g->rbegin(); it != g->rend(); ++it) if (it->p->base <= a) return std::to_string(a - it->p->base - it->p->cap) + " bytes past the end of " + it->p->name;
  return "wild address";
}

// resolve [addr, addr+len) to a live object, concretizing the address.  May fork.
static ObjRef* resolve(State& s, V addr, u64 len, bool write, u64& off, u64 align = 1) {
  addr = simpV(s, addr);
  if (addr.e) {
    if (addr.e->uninit) fail(s, write ? "uninit-address" : "uninit-address", "address depends on uninitialised memory");
    u64 val = evalExpr(addr.e, s.model);
    ObjRef* r = findObj(s, val);
    if (r && r->p->alive && r->p->cap >= len) {
      // rule out (or report) addresses outside this object before enumerating the ones inside
      E inb = mkBin(E_AND, mkNot(mkBin(E_ULT, addr.e, mkConst(r->p->base, 64))), mkNot(mkBin(E_ULT, mkConst(r->p->base + r->p->cap - len, 64), addr.e)));
      State* o = nullptr; bool in = decide(s, inb, &o); if (o) g_work.push_back(o);
      (void)in;
    }
    addr = V(conc(s, addr));
  }
  u64 a = addr.c;
  if (align > 1 && a % align) fail(s, "misaligned", std::string(write ? "store" : "load") + " of a " + std::to_string(align) + "-aligned object at " + hex(a));
  ObjRef* r = findObj(s, a);
  if (!r) fail(s, a < 4096 ? "null-access" : (write ? "oob-write" : "oob-read"), std::string(write ? "write of " : "read of ") + std::to_string(len) + " bytes at " + objDesc(s, a));
  if (!r->p->alive) fail(s, "use-after-free", std::string(write ? "write to " : "read of ") + objDesc(s, a));
  off = a - r->p->base;
  if (off + len > r->p->cap) fail(s, write ? "oob-write" : "oob-read", std::string(write ? "write of " : "read of ") + std::to_string(len) + " bytes at " + objDesc(s, a) + " of " + std::to_string(r->p->cap));
  if (r->p->symsize) require(s, mkNot(mkBin(E_ULT, r->p->symsize, mkConst(off + len, 64))), write ? "oob-write" : "oob-read", std::string(write ? "write" : "read") + " beyond the requested size of " + r->p->name);
  if (write && r->p->ro) fail(s, "write-const", "write to constant " + r->p->name);
  return findObj(s, a);
}

static void race(State& s, ObjRef* r, u64 off, u64 len, bool write, bool atomic) {
  if (!s.multi) return;
  Obj* o = writable(*r);
  if (!o->sh) { o->sh.reset(new Shadow()); o->sh->wt.assign(o->cap, 255); o->sh->wc.assign(o->cap, 0); o->sh->r.assign(o->cap, VC{}); o->sh->at.assign(o->cap, VC{}); }
  int t = s.cur; VC& C = s.th[t].vc; Shadow& h = *o->sh;
  for (u64 i = off; i < off + len; i++) {
    bool bad = false;
    if (h.wt[i] != 255 && h.wt[i] != t && h.wc[i] > C[h.wt[i]]) bad = true;
    if (write) for (int u = 0; u < MAXT; u++) if (u != t && h.r[i][u] > C[u]) bad = true;
    if (!atomic) for (int u = 0; u < MAXT; u++) if (u != t && h.at[i][u] > C[u]) bad = true;
    if (bad) fail(s, "race", std::string("unsynchronised ") + (write ? "write" : "read") + " of " + o->name + "+" + std::to_string(i) + " by thread " + std::to_string(t));
    if (atomic) h.at[i][t] = C[t];
    else if (write) { h.wt[i] = t; h.wc[i] = C[t]; }
    else h.r[i][t] = C[t];
  }
}

static V loadBytes(State& s, Obj* o, u64 off, unsigned w, ObjRef* r) {
  unsigned nb = (w + 7) / 8; bool sym = false, un = false;
  for (unsigned i = 0; i < nb; i++) { if (o->st[off + i] == 2) sym = true; else if (!o->st[off + i]) un = true; }
  if (!sym && !un) { u64 v = 0; memcpy(&v, &o->d[off], nb); return V(v & mask(w)); }
  if (un) {
    o = writable(*r);
    if (o->sym.empty()) o->sym.assign(o->cap, nullptr);
    // one fresh variable for a fully uninitialised aligned word, else per byte
    bool all = true; for (unsigned i = 0; i < nb; i++) if (o->st[off + i]) all = false;
    if (all) { E v = mkVar("uninit" + std::to_string(s.fresh++), nb * 8, true); for (unsigned i = 0; i < nb; i++) { o->sym[off + i] = mkExtract(v, i * 8, 8); o->st[off + i] = 2; } }
    else for (unsigned i = 0; i < nb; i++) if (!o->st[off + i]) { o->sym[off + i] = mkVar("uninit" + std::to_string(s.fresh++), 8, true); o->st[off + i] = 2; }
  }
  E e = nullptr;
  for (unsigned i = 0; i < nb; i++) { E b = o->st[off + i] == 2 ? o->sym[off + i] : mkConst(o->d[off + i], 8); e = e ? mkConcat(b, e) : b; }
  return V(mkExtract(e, 0, w));
}
static void storeBytes(Obj* o, u64 off, unsigned w, const V& v) {
  unsigned nb = (w + 7) / 8;
  if (!v.e) { memcpy(&o->d[off], &v.c, nb); memset(&o->st[off], 1, nb); return; }
  if (o->sym.empty()) o->sym.assign(o->cap, nullptr);
  E e = mkZext(v.e, nb * 8);
  for (unsigned i = 0; i < nb; i++) { E b = mkExtract(e, i * 8, 8); if (isC(b)) { o->d[off + i] = b->val; o->st[off + i] = 1; } else { o->sym[off + i] = b; o->st[off + i] = 2; } }
}

static V fixUndef(State& s, const V& v) { if (v.e == &g_undefMark) return V(mkVar("undef" + std::to_string(s.fresh++), (unsigned)v.c, true)); return v; }
static inline V get(State& s, Frame& f, const Opnd& o, unsigned i = 0) { if (o.reg >= 0) return f.regs[o.reg + i]; return fixUndef(s, o.cv[i]); }

// symbolic offsets (ks_symbolic_memory): an access inside a small object is encoded as a chain of conditionals over its
// offsets instead of forking over them.  Returns false when the access must be made concrete after all.
static bool symAddr(State& s, V addr, u64 len, bool write, u64 align, Obj*& o, E& off) {
  if (!s.symmem || s.multi) return false;
  addr = simpV(s, addr); if (!addr.e || addr.e->uninit) return false;
  ObjRef* r = findObj(s, evalExpr(addr.e, s.model));
  if (!r || !r->p->alive || r->p->cap < len || r->p->cap > 1024 || (write && r->p->ro)) return false;
  u64 base = r->p->base, cap = r->p->cap;
  E inb = mkBin(E_AND, mkNot(mkBin(E_ULT, addr.e, mkConst(base, 64))), mkNot(mkBin(E_ULT, mkConst(base + cap - len, 64), addr.e)));
  State* ot = nullptr; decide(s, inb, &ot); if (ot) g_work.push_back(ot);
  E x = simp(s, addr.e); if (isC(x)) return false;
  E eq = mkBin(E_EQ, x, mkConst(evalExpr(x, s.model), 64));
  if (!may(s, mkNot(eq))) { addKnown(s, eq, 1); return false; }
  r = findObj(s, base);
  off = mkBin(E_SUB, x, mkConst(base, 64));
  if (align > 1) require(s, mkBin(E_EQ, mkBin(E_AND, x, mkConst(align - 1, 64)), mkConst(0, 64)), "misaligned", std::string(write ? "store" : "load") + " of a " + std::to_string(align) + "-aligned object");
  r = findObj(s, base);
  if (r->p->symsize) require(s, mkNot(mkBin(E_ULT, r->p->symsize, mkBin(E_ADD, off, mkConst(len, 64)))), write ? "oob-write" : "oob-read", std::string(write ? "write" : "read") + " beyond the requested size of " + r->p->name);
  r = findObj(s, base); o = write ? writable(*r) : r->p; return true;
}
static E under(E e, E c, std::unordered_map<E, E>& m) { // e where c holds
  if (e == c) return mkTrue(); if (isC(e) || e->op == E_VAR || disjoint(*e->vars, *c->vars)) return e;
  auto it = m.find(e); if (it != m.end()) return it->second;
  E a = e->a ? under(e->a, c, m) : nullptr, r;
  if (e->op == E_ITE && isC(a)) r = under(a->val ? e->b : e->c, c, m);
  else { E b = e->b ? under(e->b, c, m) : nullptr, d = e->c ? under(e->c, c, m) : nullptr; r = (a == e->a && b == e->b && d == e->c) ? e : rebuild(e, a, b, d); }
  return m[e] = r;
}
static std::vector<u64> symCands(State& s, Obj* o, E off, u64 len, u64 align) {
  std::vector<u64> r; for (u64 k = 0; k + len <= o->cap; k++) { if (align > 1 && (o->base + k) % align) continue; if (k < off->lo || k > off->hi) continue; r.push_back(k); }
  return r;
}
static V symLoad(State& s, Obj* o, E off, unsigned w, u64 align) {
  unsigned nb = (w + 7) / 8; ObjRef* r = findObj(s, o->base); std::map<E, unsigned> cnt; std::vector<std::pair<u64, E>> vs;
  for (u64 k : symCands(s, o, off, nb, align)) {
    E c = mkBin(E_EQ, off, mkConst(k, 64)); if (isC(c) && !c->val) continue;
    V v = loadBytes(s, r->p, k, w, r); E e = toE(v, w); if (!isC(e)) { std::unordered_map<E, E> m; e = under(simp(s, e), c, m); }
    if (e->uninit && !may(s, c)) continue;
    vs.push_back({k, e}); cnt[e]++;
  }
  if (vs.empty()) throw Terminate{};
  E best = vs[0].second; for (auto& p : vs) if (cnt[p.second] > cnt[best]) best = p.second;
  E res = best; for (auto& p : vs) if (p.second != best) res = mkIte(mkBin(E_EQ, off, mkConst(p.first, 64)), p.second, res);
  return V(res);
}
static void symStore(State& s, Obj* o, E off, unsigned w, V v, u64 align) {
  unsigned nb = (w + 7) / 8; if (o->sym.empty()) o->sym.assign(o->cap, nullptr);
  E e = mkZext(toE(v, w), nb * 8); ObjRef* r = findObj(s, o->base); std::vector<E> old(o->cap, nullptr);
  for (u64 k : symCands(s, o, off, nb, align)) {
    E c = mkBin(E_EQ, off, mkConst(k, 64)); if (isC(c) && !c->val) continue;
    for (unsigned i = 0; i < nb; i++) { V b = loadBytes(s, r->p, k + i, 8, r); storeBytes(o, k + i, 8, V(mkIte(c, mkExtract(e, i * 8, 8), toE(b, 8)))); }
  }
}

#include "exec.inc"
