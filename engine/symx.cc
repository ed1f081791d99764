// symx: a path-forking symbolic executor for LLVM bitcode (clang 18), deciding with Z3.
#include "mem.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cstdio>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
namespace L = llvm;

Obj g_freed;
static L::Module* M; static const L::DataLayout* DL;

// ------------------------------------------------------------ options
static u64 optMaxSteps = 20000000; static u64 optMaxPaths = ~0ull; static double optJobSecs = 1e9; static double optTotalSecs = 1e9;
static int optTier = 0; static int optWorkers = 8; static int optWitEvery = 1; static int optMaxWit = 40; static int optMaxViol = 1; static int optOnlyJob = -1;
static bool optTrace = false; static string optOut = "/dev/stdout"; static u64 optSeed = 1; static string optEntry = "symx_main"; static int optPathConfirm = 1;

// ------------------------------------------------------------ decoded code
enum Opc : u16 {
  I_BIN, I_ICMP, I_FCMP, I_FNEG, I_CASTZ, I_CASTS, I_TRUNC, I_MOVE, I_FCAST, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_SELECT, I_BR, I_CONDBR, I_SWITCH,
  I_RET, I_CALL, I_UNREACHABLE, I_EXTRACTV, I_INSERTV, I_FENCE, I_CMPXCHG, I_RMW, I_UNSUP, I_VECBIN, I_VECICMP
};
enum Builtin : u16 {
  B_NONE, B_MALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP, B_NOP, B_ABORT, B_ASSERTFAIL, B_THROW, B_GUARDACQ, B_GUARDREL, B_LOCK, B_UNLOCK, B_RET0, B_RETARG0, B_RET1,
  B_SYM_INT, B_SYM_BYTES, B_SYM_RANGE, B_SYM_ASSUME, B_SYM_ASSERT, B_SYM_OBS, B_SYM_OBSB, B_SYM_FREEZE, B_SYM_UNFREEZE, B_SYM_COVER, B_SYM_TIER, B_SYM_CONC, B_SYM_STOP, B_SYM_ISSYM, B_SYM_PRINT, B_SYM_FAIL, B_SYM_LENIENT,
  B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_CTLZ, B_CTTZ, B_CTPOP, B_BSWAP, B_FSHL, B_FSHR, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_UADDS, B_USUBS, B_CEIL, B_FLOOR, B_ISCONST, B_OBJSIZE, B_EXPECT, B_TRAP, B_FABS, B_PTRMASK, B_FMULADD,
  B_UNSUP
};
struct Opnd { int slot; u64 c; };  // slot<0: constant c
struct PhiCopy { int dst; Opnd src; };
struct Edge { u32 target; vector<PhiCopy> phis; bool spill; };
struct Inst {
  Opc op; u16 w = 0, w2 = 0; u16 sub = 0; u16 n = 0; int dst = -1;
  Opnd a{-1, 0}, b{-1, 0}, c{-1, 0};
  vector<Opnd> ops;            // call args / aggregates / gep indices
  vector<u64> imm;             // gep scales, leaf offsets, switch values
  vector<u16> ws;              // leaf widths / gep index widths
  vector<int> edges;
  struct Fn* callee = nullptr; Builtin bi = B_NONE; bool indirect = false, invoke = false, swap = false, atomic = false;
  const L::Instruction* I = nullptr;
};
struct Fn {
  L::Function* F; string name; bool decoded = false; vector<Inst> code; vector<Edge> edges; int nslots = 0; vector<int> argSlots; vector<int> argN;
  u64 calls = 0, symb = 0; u32 objId = 0; Builtin bi = B_NONE; bool fromRepo = false;
};
static unordered_map<const L::Function*, Fn*> fnMap;
static unordered_map<string, Builtin> builtinNames;
static unordered_map<const L::GlobalValue*, u32> gvObj;
static unordered_map<u32, Fn*> fnByObj;

static Fn* getFn(const L::Function* F) {
  auto it = fnMap.find(F);
  if (it != fnMap.end()) return it->second;
  Fn* f = new Fn(); f->F = const_cast<L::Function*>(F); f->name = F->getName().str();
  auto b = builtinNames.find(f->name);
  if (b != builtinNames.end() && (F->isDeclaration() || (b->second != B_LOCK && b->second != B_UNLOCK && b->second != B_NOP))) f->bi = b->second;   // a harness may define locks of its own
  fnMap[F] = f;
  return f;
}

static void initBuiltins() {
  auto& b = builtinNames;
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t"}) b[n] = B_MALLOC;
  for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"}) b[n] = B_FREE;
  for (auto n : {"memcpy", "memmove"}) b[n] = B_MEMCPY;
  b["memset"] = B_MEMSET; b["memcmp"] = B_MEMCMP; b["bcmp"] = B_BCMP;
  for (auto n : {"abort", "_ZSt9terminatev", "__clang_call_terminate", "exit", "_exit", "__cxa_pure_virtual", "__stack_chk_fail"}) b[n] = B_ABORT;
  for (auto n : {"__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}) b[n] = B_ASSERTFAIL;
  for (auto n : {"__cxa_throw", "__cxa_rethrow", "_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc",
                 "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt25__throw_bad_function_callv", "_ZSt16__throw_bad_castv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt21__throw_runtime_errorPKc", "_ZSt26__throw_bad_variant_accessPKc", "_ZSt27__throw_bad_optional_accessv",
                 "_ZN4absl7debian715strings_internal", "_Unwind_Resume"}) b[n] = B_THROW;
  b["__cxa_guard_acquire"] = B_GUARDACQ; b["__cxa_guard_release"] = B_GUARDREL; b["__cxa_guard_abort"] = B_GUARDREL;
  for (auto n : {"pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "symx_lock", "_ZN4absl7debian35Mutex4LockEv", "_ZN4absl7debian35Mutex10ReaderLockEv"}) b[n] = B_LOCK;
  for (auto n : {"pthread_mutex_unlock", "pthread_rwlock_unlock", "symx_unlock", "_ZN4absl7debian35Mutex6UnlockEv", "_ZN4absl7debian35Mutex12ReaderUnlockEv"}) b[n] = B_UNLOCK;
  for (auto n : {"__cxa_atexit", "__cxa_thread_atexit", "atexit", "pthread_mutex_init", "pthread_mutex_destroy", "printf", "fprintf", "puts", "fputs", "fwrite", "fflush", "putchar"}) b[n] = B_RET0;
  for (auto n : {"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_free_exception", "__cxa_end_catch", "_ZN4absl7debian35MutexD1Ev", "_ZN4absl7debian35MutexD2Ev", "_ZNK4absl7debian35Mutex10AssertHeldEv", "_ZNK4absl7debian35Mutex16AssertReaderHeldEv"}) b[n] = B_NOP;
  b["symx_int"] = B_SYM_INT; b["symx_bytes"] = B_SYM_BYTES; b["symx_range"] = B_SYM_RANGE; b["symx_assume"] = B_SYM_ASSUME; b["symx_assert"] = B_SYM_ASSERT;
  b["symx_obs"] = B_SYM_OBS; b["symx_obs_bytes"] = B_SYM_OBSB; b["symx_freeze"] = B_SYM_FREEZE; b["symx_unfreeze"] = B_SYM_UNFREEZE; b["symx_cover"] = B_SYM_COVER; b["symx_tier"] = B_SYM_TIER;
  b["symx_concretize"] = B_SYM_CONC; b["symx_stop"] = B_SYM_STOP; b["symx_is_symbolic"] = B_SYM_ISSYM; b["symx_print"] = B_SYM_PRINT; b["symx_fail"] = B_SYM_FAIL; b["symx_lenient"] = B_SYM_LENIENT;
}

// ------------------------------------------------------------ state
struct VInfo { Dom dom; bool linked = false; vector<Expr*> unary; };
struct Frame { u32 rc; Fn* fn; u32 ip; vector<Val> regs; vector<u32> allocas; };
struct Input { string name; Expr* e; unsigned w; };
struct Obs { string name; vector<Val> v; unsigned w; bool isBytes; };
struct State {
  vector<Frame*> fr; Mem mem; vector<Expr*> multi; vector<shared_ptr<VInfo>> vi; vector<u64> model;
  vector<Input> inputs; vector<Obs> obs; vector<pair<Expr*, u64>> conc; u64 steps = 0; u32 nvars = 0, nuninit = 0; u32 freezeId = 0; int lockDepth = 0; bool lenient = false; u32 depth = 0; u32 asserts = 0, symAsserts = 0;
  State() {}
  State(const State& s) : fr(s.fr), mem(s.mem), multi(s.multi), vi(s.vi), model(s.model), inputs(s.inputs), obs(s.obs), conc(s.conc), steps(s.steps), nvars(s.nvars), nuninit(s.nuninit), freezeId(s.freezeId), lockDepth(s.lockDepth), lenient(s.lenient), depth(s.depth), asserts(s.asserts), symAsserts(s.symAsserts) { for (auto* f : fr) f->rc++; }
  ~State() { for (auto* f : fr) if (--f->rc == 0) delete f; }
};
static void unique(State& s) {
  Frame*& f = s.fr.back();
  if (f->rc > 1) { Frame* n = new Frame(*f); n->rc = 1; f->rc--; f = n; }
}

struct JobStats { u64 paths = 0, infeasible = 0, incomplete = 0, forks = 0, steps = 0, asserts = 0, symAsserts = 0, multiObjRes = 0; map<string, u64> cover; map<string, u64> incompleteWhy; };
static JobStats js; static vector<State*> work; static int curJob;
struct ViolationRec { string kind, msg, where; vector<pair<string, u64>> inputs; vector<u16> ws; vector<string> stack; };
static vector<ViolationRec> viols; static vector<string> witnesses; static u64 witCount = 0;
struct EndPath { string why; bool incomplete; };      // thrown to end a path
struct Violation { string kind, msg; };

static string locOf(const Inst& in) {
  if (in.I) if (auto& d = in.I->getDebugLoc()) {
    string f = d->getFilename().str(); size_t p = f.rfind('/'); if (p != string::npos) f = f.substr(p + 1);
    return f + ":" + to_string(d->getLine());
  }
  return "?";
}

// ------------------------------------------------------------ constants
struct Unsup { string s; };
static u64 constAddr(const L::GlobalValue* g) {
  auto it = gvObj.find(g);
  if (it == gvObj.end()) throw Unsup{"unknown global " + g->getName().str()};
  return (u64)it->second << 32;
}
static unsigned scalarW(L::Type* T) {
  if (T->isIntegerTy()) { unsigned w = T->getIntegerBitWidth(); if (w > 64) throw Unsup{"wide int"}; return w; }
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  throw Unsup{"type"};
}
struct Leaf { u64 off; u16 w; };
static void leaves(L::Type* T, u64 off, vector<Leaf>& out) {
  if (auto* S = L::dyn_cast<L::StructType>(T)) {
    auto* SL = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) leaves(S->getElementType(i), off + SL->getElementOffset(i), out);
  } else if (auto* A = L::dyn_cast<L::ArrayType>(T)) {
    u64 es = DL->getTypeAllocSize(A->getElementType());
    for (u64 i = 0; i < A->getNumElements(); i++) leaves(A->getElementType(), off + i * es, out);
  } else if (auto* V = L::dyn_cast<L::FixedVectorType>(T)) {
    u64 es = DL->getTypeStoreSize(V->getElementType());
    if (V->getElementType()->isIntegerTy(1)) es = 1;
    for (u64 i = 0; i < V->getNumElements(); i++) leaves(V->getElementType(), off + i * es, out);
  } else out.push_back({off, (u16)scalarW(T)});
}
static u64 constScalar(const L::Constant* C);
static u64 constScalar(const L::Constant* C) {
  if (auto* CI = L::dyn_cast<L::ConstantInt>(C)) { if (CI->getBitWidth() > 64) throw Unsup{"wide const"}; return CI->getZExtValue(); }
  if (auto* CF = L::dyn_cast<L::ConstantFP>(C)) return CF->getValueAPF().bitcastToAPInt().getZExtValue();
  if (L::isa<L::ConstantPointerNull>(C) || L::isa<L::UndefValue>(C) || L::isa<L::ConstantAggregateZero>(C)) return 0;
  if (auto* A = L::dyn_cast<L::GlobalAlias>(C)) return constScalar(A->getAliasee());
  if (auto* G = L::dyn_cast<L::GlobalValue>(C)) return constAddr(G);
  if (auto* CE = L::dyn_cast<L::ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
      case L::Instruction::GetElementPtr: {
        auto* GO = L::cast<L::GEPOperator>(CE);
        L::APInt off(64, 0);
        if (!GO->accumulateConstantOffset(*DL, off)) throw Unsup{"gep const"};
        return constScalar(L::cast<L::Constant>(GO->getPointerOperand())) + off.getSExtValue();
      }
      case L::Instruction::BitCast: case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::AddrSpaceCast:
        return constScalar(CE->getOperand(0)) & maskw(scalarW(CE->getType()));
      case L::Instruction::Trunc: return constScalar(CE->getOperand(0)) & maskw(scalarW(CE->getType()));
      case L::Instruction::Add: return (constScalar(CE->getOperand(0)) + constScalar(CE->getOperand(1))) & maskw(scalarW(CE->getType()));
      case L::Instruction::Xor: return (constScalar(CE->getOperand(0)) ^ constScalar(CE->getOperand(1))) & maskw(scalarW(CE->getType()));
      case L::Instruction::Sub: return (constScalar(CE->getOperand(0)) - constScalar(CE->getOperand(1))) & maskw(scalarW(CE->getType()));
      case L::Instruction::ICmp: {
        u64 a = constScalar(CE->getOperand(0)), b = constScalar(CE->getOperand(1));
        switch (CE->getPredicate()) { case L::CmpInst::ICMP_EQ: return a == b; case L::CmpInst::ICMP_NE: return a != b; case L::CmpInst::ICMP_ULT: return a < b; case L::CmpInst::ICMP_UGT: return a > b; default: throw Unsup{"const icmp"}; }
      }
      default: throw Unsup{string("constexpr ") + CE->getOpcodeName()};
    }
  }
  if (L::isa<L::BlockAddress>(C)) throw Unsup{"blockaddress"};
  throw Unsup{"const"};
}
static void constLeaves(const L::Constant* C, vector<u64>& out) {
  L::Type* T = C->getType();
  unsigned n = 0; bool agg = true;
  if (auto* S = L::dyn_cast<L::StructType>(T)) n = S->getNumElements();
  else if (auto* A = L::dyn_cast<L::ArrayType>(T)) n = A->getNumElements();
  else if (auto* V = L::dyn_cast<L::FixedVectorType>(T)) n = V->getNumElements();
  else agg = false;
  if (!agg) { out.push_back(constScalar(C)); return; }
  for (unsigned i = 0; i < n; i++) {
    const L::Constant* E = C->getAggregateElement(i);
    if (!E) throw Unsup{"agg const"};
    constLeaves(E, out);
  }
}
static void writeConst(Obj* o, u64 off, const L::Constant* C) {
  if (L::isa<L::ConstantAggregateZero>(C) || L::isa<L::UndefValue>(C)) return;
  if (auto* CD = L::dyn_cast<L::ConstantDataSequential>(C)) { auto d = CD->getRawDataValues(); memcpy(o->data + off, d.data(), d.size()); return; }
  L::Type* T = C->getType();
  if (auto* S = L::dyn_cast<L::StructType>(T)) {
    auto* SL = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) writeConst(o, off + SL->getElementOffset(i), C->getAggregateElement(i));
  } else if (auto* A = L::dyn_cast<L::ArrayType>(T)) {
    u64 es = DL->getTypeAllocSize(A->getElementType());
    for (u64 i = 0; i < A->getNumElements(); i++) writeConst(o, off + i * es, C->getAggregateElement(i));
  } else if (auto* CI = L::dyn_cast<L::ConstantInt>(C)) {
    auto v = CI->getValue(); memcpy(o->data + off, v.getRawData(), DL->getTypeStoreSize(T));
  } else if (L::isa<L::FixedVectorType>(T)) {
    vector<u64> v; vector<Leaf> lv; constLeaves(C, v); leaves(T, off, lv);
    for (size_t i = 0; i < v.size(); i++) memcpy(o->data + lv[i].off, &v[i], (lv[i].w + 7) / 8);
  } else { u64 v = constScalar(C); memcpy(o->data + off, &v, DL->getTypeStoreSize(T)); }
}

// ------------------------------------------------------------ decoding
static Builtin intrinsicOf(const L::Function* F) {
  switch (F->getIntrinsicID()) {
    case L::Intrinsic::memcpy: case L::Intrinsic::memmove: case L::Intrinsic::memcpy_inline: return B_MEMCPY;
    case L::Intrinsic::memset: return B_MEMSET;
    case L::Intrinsic::lifetime_start: case L::Intrinsic::lifetime_end: case L::Intrinsic::assume: case L::Intrinsic::dbg_declare: case L::Intrinsic::dbg_value: case L::Intrinsic::dbg_label:
    case L::Intrinsic::experimental_noalias_scope_decl: case L::Intrinsic::stackrestore: case L::Intrinsic::donothing: case L::Intrinsic::prefetch: case L::Intrinsic::invariant_end: case L::Intrinsic::sideeffect: case L::Intrinsic::dbg_assign: return B_NOP;
    case L::Intrinsic::stacksave: case L::Intrinsic::invariant_start: return B_RET0;
    case L::Intrinsic::expect: case L::Intrinsic::expect_with_probability: case L::Intrinsic::launder_invariant_group: case L::Intrinsic::strip_invariant_group: case L::Intrinsic::threadlocal_address: case L::Intrinsic::ptr_annotation: return B_RETARG0;
    case L::Intrinsic::umin: return B_UMIN; case L::Intrinsic::umax: return B_UMAX; case L::Intrinsic::smin: return B_SMIN; case L::Intrinsic::smax: return B_SMAX; case L::Intrinsic::abs: return B_ABS;
    case L::Intrinsic::ctlz: return B_CTLZ; case L::Intrinsic::cttz: return B_CTTZ; case L::Intrinsic::ctpop: return B_CTPOP; case L::Intrinsic::bswap: return B_BSWAP;
    case L::Intrinsic::fshl: return B_FSHL; case L::Intrinsic::fshr: return B_FSHR;
    case L::Intrinsic::uadd_with_overflow: return B_UADDO; case L::Intrinsic::usub_with_overflow: return B_USUBO; case L::Intrinsic::umul_with_overflow: return B_UMULO;
    case L::Intrinsic::sadd_with_overflow: return B_SADDO; case L::Intrinsic::ssub_with_overflow: return B_SSUBO; case L::Intrinsic::smul_with_overflow: return B_SMULO;
    case L::Intrinsic::uadd_sat: return B_UADDS; case L::Intrinsic::usub_sat: return B_USUBS;
    case L::Intrinsic::is_constant: return B_ISCONST; case L::Intrinsic::objectsize: return B_OBJSIZE;
    case L::Intrinsic::trap: case L::Intrinsic::ubsantrap: return B_TRAP; case L::Intrinsic::fabs: return B_FABS; case L::Intrinsic::ceil: return B_CEIL; case L::Intrinsic::floor: return B_FLOOR; case L::Intrinsic::ptrmask: return B_PTRMASK; case L::Intrinsic::fmuladd: return B_FMULADD;
    default: return B_UNSUP;
  }
}

struct Decoder {
  Fn* f; unordered_map<const L::Value*, pair<int, int>> slots; unordered_map<const L::BasicBlock*, u32> bbStart; vector<pair<int, pair<const L::BasicBlock*, const L::BasicBlock*>>> pendEdges;
  int nLeaves(L::Type* T) { vector<Leaf> l; leaves(T, 0, l); return l.size(); }
  int slotOf(const L::Value* v) { return slots.at(v).first; }
  Opnd opnd(const L::Value* v, int k = 0) {
    if (auto* C = L::dyn_cast<L::Constant>(v)) { vector<u64> o; constLeaves(C, o); if (k >= (int)o.size()) throw Unsup{"leaf idx"}; return {-1, o[k]}; }
    if (L::isa<L::MetadataAsValue>(v)) return {-1, 0};
    auto it = slots.find(v); if (it == slots.end()) throw Unsup{"no slot"};
    return {it->second.first + k, 0};
  }
  void opnds(const L::Value* v, vector<Opnd>& out) {
    if (auto* C = L::dyn_cast<L::Constant>(v)) { vector<u64> o; constLeaves(C, o); for (u64 x : o) out.push_back({-1, x}); return; }
    auto p = slots.at(v); for (int i = 0; i < p.second; i++) out.push_back({p.first + i, 0});
  }
  int newEdge(const L::BasicBlock* from, const L::BasicBlock* to) { int id = f->edges.size(); f->edges.push_back({}); pendEdges.push_back({id, {from, to}}); return id; }
  static bool isAgg(L::Type* T) { return T->isStructTy() || T->isArrayTy() || T->isVectorTy(); }
  unsigned aggOff(L::Type* T, L::ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto* S = L::dyn_cast<L::StructType>(T)) { for (unsigned j = 0; j < i; j++) off += nLeaves(S->getElementType(j)); T = S->getElementType(i); }
      else { auto* A = L::cast<L::ArrayType>(T); off += i * nLeaves(A->getElementType()); T = A->getElementType(); }
    }
    return off;
  }
  void run(Fn* fn) {
    f = fn; f->decoded = true;
    L::Function* F = f->F;
    int ns = 0;
    auto add = [&](const L::Value* v) { int n = 0; try { n = v->getType()->isVoidTy() ? 0 : nLeaves(v->getType()); } catch (Unsup&) { n = 1; } slots[v] = {ns, n}; ns += n; };
    for (auto& A : F->args()) { add(&A); f->argSlots.push_back(slots[&A].first); f->argN.push_back(slots[&A].second); }
    for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy() && !I.getType()->isMetadataTy()) add(&I);
    f->nslots = ns;
    for (auto& B : *F) {
      bbStart[&B] = f->code.size();
      for (auto& I : B) {
        if (L::isa<L::PHINode>(I)) continue;
        Inst in; in.I = &I; in.op = I_UNSUP;
        if (!I.getType()->isVoidTy() && slots.count(&I)) { in.dst = slots[&I].first; in.n = slots[&I].second; }
        try { decode(I, in); } catch (Unsup& u) { in.op = I_UNSUP; }
        if (in.op == I_CALL && in.bi == B_NOP) continue;
        f->code.push_back(std::move(in));
      }
    }
    for (auto& pe : pendEdges) {
      Edge& e = f->edges[pe.first]; const L::BasicBlock *from = pe.second.first, *to = pe.second.second;
      e.target = bbStart[to];
      for (auto& P : to->phis()) {
        const L::Value* v = P.getIncomingValueForBlock(from);
        auto sl = slots[&P];
        for (int k = 0; k < sl.second; k++) {
          Opnd o; try { o = opnd(v, k); } catch (Unsup&) { o = {-1, 0}; }
          if (o.slot == sl.first + k) continue;
          e.phis.push_back({sl.first + k, o});
        }
      }
      e.spill = false;
      for (size_t i = 0; i < e.phis.size() && !e.spill; i++) for (size_t j = i + 1; j < e.phis.size(); j++) if (e.phis[j].src.slot == e.phis[i].dst) { e.spill = true; break; }
    }
  }
  void decode(L::Instruction& I, Inst& in) {
    L::Type* T = I.getType();
    switch (I.getOpcode()) {
      case L::Instruction::Add: in.sub = O_ADD; goto bin;
      case L::Instruction::Sub: in.sub = O_SUB; goto bin;
      case L::Instruction::Mul: in.sub = O_MUL; goto bin;
      case L::Instruction::UDiv: in.sub = O_UDIV; goto bin;
      case L::Instruction::SDiv: in.sub = O_SDIV; goto bin;
      case L::Instruction::URem: in.sub = O_UREM; goto bin;
      case L::Instruction::SRem: in.sub = O_SREM; goto bin;
      case L::Instruction::And: in.sub = O_AND; goto bin;
      case L::Instruction::Or: in.sub = O_OR; goto bin;
      case L::Instruction::Xor: in.sub = O_XOR; goto bin;
      case L::Instruction::Shl: in.sub = O_SHL; goto bin;
      case L::Instruction::LShr: in.sub = O_LSHR; goto bin;
      case L::Instruction::AShr: in.sub = O_ASHR; goto bin;
      case L::Instruction::FAdd: in.sub = O_FADD; goto bin;
      case L::Instruction::FSub: in.sub = O_FSUB; goto bin;
      case L::Instruction::FMul: in.sub = O_FMUL; goto bin;
      case L::Instruction::FDiv: in.sub = O_FDIV; goto bin;
      bin:
        if (T->isVectorTy()) { in.op = I_VECBIN; in.w = scalarW(T->getScalarType()); opnds(I.getOperand(0), in.ops); opnds(I.getOperand(1), in.ops); return; }
        in.op = I_BIN; in.w = scalarW(T); in.a = opnd(I.getOperand(0)); in.b = opnd(I.getOperand(1)); return;
      case L::Instruction::ICmp: {
        auto& C = L::cast<L::ICmpInst>(I); in.op = I_ICMP; in.w = scalarW(C.getOperand(0)->getType()->getScalarType());
        L::Value *x = C.getOperand(0), *y = C.getOperand(1); bool neg = false; bool sw = false;
        switch (C.getPredicate()) {
          case L::CmpInst::ICMP_EQ: in.sub = O_EQ; break; case L::CmpInst::ICMP_NE: in.sub = O_EQ; neg = true; break;
          case L::CmpInst::ICMP_ULT: in.sub = O_ULT; break; case L::CmpInst::ICMP_ULE: in.sub = O_ULT; sw = true; neg = true; break;
          case L::CmpInst::ICMP_UGT: in.sub = O_ULT; sw = true; break; case L::CmpInst::ICMP_UGE: in.sub = O_ULT; neg = true; break;
          case L::CmpInst::ICMP_SLT: in.sub = O_SLT; break; case L::CmpInst::ICMP_SLE: in.sub = O_SLT; sw = true; neg = true; break;
          case L::CmpInst::ICMP_SGT: in.sub = O_SLT; sw = true; break; case L::CmpInst::ICMP_SGE: in.sub = O_SLT; neg = true; break;
          default: throw Unsup{"icmp"};
        }
        if (sw) std::swap(x, y);
        in.swap = neg;
        if (T->isVectorTy()) { in.op = I_VECICMP; opnds(x, in.ops); opnds(y, in.ops); return; }
        in.a = opnd(x); in.b = opnd(y); return;
      }
      case L::Instruction::FCmp: { auto& C = L::cast<L::FCmpInst>(I); in.op = I_FCMP; in.sub = C.getPredicate(); in.w = scalarW(C.getOperand(0)->getType()); in.a = opnd(C.getOperand(0)); in.b = opnd(C.getOperand(1)); return; }
      case L::Instruction::FNeg: in.op = I_FNEG; in.w = scalarW(T); in.a = opnd(I.getOperand(0)); return;
      case L::Instruction::ZExt: in.op = I_CASTZ; in.w = scalarW(T); in.w2 = scalarW(I.getOperand(0)->getType()); in.a = opnd(I.getOperand(0)); return;
      case L::Instruction::SExt: in.op = I_CASTS; in.w = scalarW(T); in.w2 = scalarW(I.getOperand(0)->getType()); in.a = opnd(I.getOperand(0)); return;
      case L::Instruction::Trunc: in.op = I_TRUNC; in.w = scalarW(T); in.w2 = scalarW(I.getOperand(0)->getType()); in.a = opnd(I.getOperand(0)); return;
      case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: {
        unsigned w1 = scalarW(I.getOperand(0)->getType()), w2 = scalarW(T);
        in.a = opnd(I.getOperand(0)); in.w = w2; in.w2 = w1; in.op = w1 == w2 ? I_MOVE : w2 < w1 ? I_TRUNC : I_CASTZ; return;
      }
      case L::Instruction::BitCast: case L::Instruction::Freeze: {
        if (isAgg(T) || isAgg(I.getOperand(0)->getType())) {
          vector<Leaf> a, b; leaves(T, 0, a); leaves(I.getOperand(0)->getType(), 0, b);
          if (a.size() != b.size()) throw Unsup{"bitcast"}; for (size_t i = 0; i < a.size(); i++) if (a[i].w != b[i].w) throw Unsup{"bitcast"};
          in.op = I_INSERTV; opnds(I.getOperand(0), in.ops); in.imm = {0}; return;
        }
        in.op = I_MOVE; in.w = scalarW(T); in.a = opnd(I.getOperand(0)); return;
      }
      case L::Instruction::FPToSI: in.sub = O_FPTOSI; goto fc;
      case L::Instruction::FPToUI: in.sub = O_FPTOUI; goto fc;
      case L::Instruction::SIToFP: in.sub = O_SITOFP; goto fc;
      case L::Instruction::UIToFP: in.sub = O_UITOFP; goto fc;
      case L::Instruction::FPTrunc: in.sub = O_FPTRUNC; goto fc;
      case L::Instruction::FPExt: in.sub = O_FPEXT; goto fc;
      fc: in.op = I_FCAST; in.w = scalarW(T); in.w2 = scalarW(I.getOperand(0)->getType()); in.a = opnd(I.getOperand(0)); return;
      case L::Instruction::GetElementPtr: {
        if (T->isVectorTy()) throw Unsup{"vgep"};
        auto& G = L::cast<L::GetElementPtrInst>(I); in.op = I_GEP; in.a = opnd(G.getPointerOperand()); u64 off = 0;
        for (auto it = L::gep_type_begin(G), e = L::gep_type_end(G); it != e; ++it) {
          L::Value* ix = it.getOperand();
          if (auto* S = it.getStructTypeOrNull()) off += DL->getStructLayout(S)->getElementOffset(L::cast<L::ConstantInt>(ix)->getZExtValue());
          else {
            u64 es = DL->getTypeAllocSize(it.getIndexedType());
            if (auto* CI = L::dyn_cast<L::ConstantInt>(ix)) off += (u64)CI->getSExtValue() * es;
            else { in.ops.push_back(opnd(ix)); in.imm.push_back(es); in.ws.push_back(scalarW(ix->getType())); }
          }
        }
        in.c = {-1, off}; return;
      }
      case L::Instruction::Load: {
        in.op = I_LOAD; in.a = opnd(I.getOperand(0)); in.atomic = I.isAtomic();
        vector<Leaf> lv; leaves(T, 0, lv); for (auto& l : lv) { in.imm.push_back(l.off); in.ws.push_back(l.w); }
        in.w = lv.empty() ? 0 : lv[0].w; return;
      }
      case L::Instruction::Store: {
        in.op = I_STORE; in.a = opnd(I.getOperand(1)); opnds(I.getOperand(0), in.ops); in.atomic = I.isAtomic();
        vector<Leaf> lv; leaves(I.getOperand(0)->getType(), 0, lv); for (auto& l : lv) { in.imm.push_back(l.off); in.ws.push_back(l.w); }
        return;
      }
      case L::Instruction::Alloca: {
        auto& A = L::cast<L::AllocaInst>(I); in.op = I_ALLOCA; in.imm = {(u64)DL->getTypeAllocSize(A.getAllocatedType())}; in.a = opnd(A.getArraySize()); return;
      }
      case L::Instruction::Select: {
        in.op = I_SELECT; if (I.getOperand(0)->getType()->isVectorTy()) throw Unsup{"vselect"};
        in.a = opnd(I.getOperand(0)); opnds(I.getOperand(1), in.ops); opnds(I.getOperand(2), in.ops);
        vector<Leaf> lv; leaves(T, 0, lv); for (auto& l : lv) in.ws.push_back(l.w); return;
      }
      case L::Instruction::Br: {
        auto& B = L::cast<L::BranchInst>(I);
        if (B.isUnconditional()) { in.op = I_BR; in.edges = {newEdge(I.getParent(), B.getSuccessor(0))}; }
        else { in.op = I_CONDBR; in.a = opnd(B.getCondition()); in.edges = {newEdge(I.getParent(), B.getSuccessor(0)), newEdge(I.getParent(), B.getSuccessor(1))}; }
        return;
      }
      case L::Instruction::Switch: {
        auto& S = L::cast<L::SwitchInst>(I); in.op = I_SWITCH; in.a = opnd(S.getCondition()); in.w = scalarW(S.getCondition()->getType());
        in.edges = {newEdge(I.getParent(), S.getDefaultDest())};
        unordered_map<const L::BasicBlock*, int> m; m[S.getDefaultDest()] = in.edges[0];
        for (auto& c : S.cases()) {
          in.imm.push_back(c.getCaseValue()->getZExtValue());
          auto it = m.find(c.getCaseSuccessor()); int e;
          if (it == m.end()) { e = newEdge(I.getParent(), c.getCaseSuccessor()); m[c.getCaseSuccessor()] = e; } else e = it->second;
          in.edges.push_back(e);
        }
        return;
      }
      case L::Instruction::Ret: in.op = I_RET; if (I.getNumOperands()) opnds(I.getOperand(0), in.ops); return;
      case L::Instruction::Unreachable: in.op = I_UNREACHABLE; return;
      case L::Instruction::ExtractValue: { auto& E = L::cast<L::ExtractValueInst>(I); vector<Opnd> o; opnds(E.getAggregateOperand(), o); unsigned off = aggOff(E.getAggregateOperand()->getType(), E.getIndices()); in.op = I_INSERTV; in.ops.assign(o.begin() + off, o.begin() + off + in.n); return; }
      case L::Instruction::InsertValue: {
        auto& E = L::cast<L::InsertValueInst>(I); opnds(E.getAggregateOperand(), in.ops); vector<Opnd> v; opnds(E.getInsertedValueOperand(), v);
        unsigned off = aggOff(T, E.getIndices()); for (size_t i = 0; i < v.size(); i++) in.ops[off + i] = v[i]; in.op = I_INSERTV; return;
      }
      case L::Instruction::ExtractElement: { auto* CI = L::dyn_cast<L::ConstantInt>(I.getOperand(1)); if (!CI) throw Unsup{"extractelement"}; vector<Opnd> o; opnds(I.getOperand(0), o); in.op = I_INSERTV; in.ops = {o[CI->getZExtValue()]}; return; }
      case L::Instruction::InsertElement: { auto* CI = L::dyn_cast<L::ConstantInt>(I.getOperand(2)); if (!CI) throw Unsup{"insertelement"}; opnds(I.getOperand(0), in.ops); in.ops[CI->getZExtValue()] = opnd(I.getOperand(1)); in.op = I_INSERTV; return; }
      case L::Instruction::ShuffleVector: {
        auto& S = L::cast<L::ShuffleVectorInst>(I); vector<Opnd> o; opnds(I.getOperand(0), o); opnds(I.getOperand(1), o);
        for (int m : S.getShuffleMask()) in.ops.push_back(m < 0 ? Opnd{-1, 0} : o[m]); in.op = I_INSERTV; return;
      }
      case L::Instruction::Fence: in.op = I_FENCE; return;
      case L::Instruction::AtomicCmpXchg: { auto& X = L::cast<L::AtomicCmpXchgInst>(I); in.op = I_CMPXCHG; in.w = scalarW(X.getCompareOperand()->getType()); in.a = opnd(X.getPointerOperand()); in.b = opnd(X.getCompareOperand()); in.c = opnd(X.getNewValOperand()); return; }
      case L::Instruction::AtomicRMW: { auto& X = L::cast<L::AtomicRMWInst>(I); in.op = I_RMW; in.w = scalarW(X.getType()); in.a = opnd(X.getPointerOperand()); in.b = opnd(X.getValOperand()); in.sub = X.getOperation(); return; }
      case L::Instruction::Call: case L::Instruction::Invoke: {
        auto& CB = L::cast<L::CallBase>(I); in.op = I_CALL;
        if (auto* IV = L::dyn_cast<L::InvokeInst>(&I)) { in.invoke = true; in.edges = {newEdge(I.getParent(), IV->getNormalDest())}; }
        if (CB.isInlineAsm()) { auto* IA = L::cast<L::InlineAsm>(CB.getCalledOperand()); if (IA->getAsmString().empty() && T->isVoidTy()) { in.bi = B_NOP; return; } throw Unsup{"asm"}; }
        L::Value* cal = CB.getCalledOperand()->stripPointerCasts();
        if (auto* GA = L::dyn_cast<L::GlobalAlias>(cal)) cal = GA->getAliaseeObject();
        if (auto* CF = L::dyn_cast<L::Function>(cal)) {
          if (CF->isIntrinsic()) { in.bi = intrinsicOf(CF); if (in.bi == B_NOP && !in.invoke) return; if (in.bi == B_UNSUP) throw Unsup{"intrinsic " + CF->getName().str()}; }
          else { in.callee = getFn(CF); in.bi = in.callee->bi; if (in.bi == B_NOP && in.invoke) in.bi = B_RET0; }
        } else { in.indirect = true; in.a = opnd(cal); }
        if (!T->isVoidTy() && !isAgg(T)) in.w = scalarW(T);
        if (isAgg(T)) { vector<Leaf> lv; leaves(T, 0, lv); for (auto& l : lv) in.ws.push_back(l.w); if (!lv.empty()) in.w = lv[0].w; }
        for (auto& A : CB.args()) {
          if (CB.paramHasAttr(&A - CB.arg_begin(), L::Attribute::ByVal)) {
            in.imm.push_back(in.ops.size()); in.imm.push_back(DL->getTypeAllocSize(CB.getParamByValType(&A - CB.arg_begin())));
          }
          opnds(A.get(), in.ops);
        }
        if (in.bi != B_NONE && in.bi >= B_UMIN && CB.arg_size() && !CB.getArgOperand(0)->getType()->isMetadataTy()) {
          L::Type* AT = CB.getArgOperand(0)->getType(); if (AT->isVectorTy()) throw Unsup{"vec intrinsic"};
          in.w2 = scalarW(AT);
        }
        return;
      }
      default: throw Unsup{I.getOpcodeName()};
    }
  }
};
static void decodeFn(Fn* f) { if (!f->decoded) { Decoder d; d.run(f); } }

// ------------------------------------------------------------ solving on states
static void slice(State& s, const VarSet* q, vector<Expr*>& out) {
  static vector<char> mark; static vector<u32> stack;
  mark.assign(g_vars.size(), 0); stack.clear();
  vector<u32> vars;
  for (u32 v : *q) if (!mark[v]) { mark[v] = 1; vars.push_back(v); }
  vector<char> used(s.multi.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.multi.size(); i++) if (!used[i]) {
      bool hit = false; for (u32 v : *s.multi[i]->vs) if (mark[v]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; ch = true; out.push_back(s.multi[i]);
      for (u32 v : *s.multi[i]->vs) if (!mark[v]) { mark[v] = 1; vars.push_back(v); }
    }
  }
  for (u32 v : vars) if (v < s.vi.size() && s.vi[v]) for (Expr* u : s.vi[v]->unary) out.push_back(u);
}
static VInfo& wvi(State& s, u32 v) {
  if (v >= s.vi.size()) s.vi.resize(v + 1);
  if (!s.vi[v]) { s.vi[v] = make_shared<VInfo>(); s.vi[v]->dom.set(); }
  else if (s.vi[v].use_count() > 1) s.vi[v] = make_shared<VInfo>(*s.vi[v]);
  return *s.vi[v];
}
static void setModel(State& s, const vector<pair<u32, u64>>& m) { for (auto& p : m) { if (p.first >= s.model.size()) s.model.resize(g_vars.size(), 0); s.model[p.first] = p.second; } }
// is PC && c satisfiable?  1/0/-1; model pairs on sat
static int query(State& s, Expr* c, vector<pair<u32, u64>>* m) {
  if (isC(c)) { if (m) m->clear(); return c->c ? 1 : 0; }
  vector<Expr*> cs; slice(s, c->vs, cs); cs.push_back(c);
  return solverCheck(cs, m);
}
static void addC(State& s, Expr* c) {
  if (isC(c)) { if (!c->c) throw EndPath{"infeasible", false}; return; }
  if (c->op == O_AND && c->w == 1) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
  u32 v;
  if (singleByte(c, v)) { VInfo& vi = wvi(s, v); Dom d = domOf(c); if ((vi.dom & d) == vi.dom) return; vi.dom &= d; vi.unary.push_back(c); return; }
  if (c->vs->size() == 1) { VInfo& vi = wvi(s, (*c->vs)[0]); vi.unary.push_back(c); vi.linked = true; return; }
  s.multi.push_back(c);
  for (u32 x : *c->vs) wvi(s, x).linked = true;
}
// Which truth values can c take? bit0: false possible, bit1: true possible.  Models for each.
static int truth(State& s, Expr* c, vector<pair<u32, u64>> m[2]) {
  if (isC(c)) return c->c ? 2 : 1;
  u64 cur = evalExpr(c, s.model);
  m[cur].clear();
  u32 v;
  if (singleByte(c, v)) {
    Dom d = domOf(c); bool linked = false; Dom have; have.set();
    if (v < s.vi.size() && s.vi[v]) { have = s.vi[v]->dom; linked = s.vi[v]->linked; }
    Dom other = cur ? (have & ~d) : (have & d);
    if (other.none()) {
      int r = query(s, cur ? mkNot1(c) : c, nullptr);        // solver confirms the pruning
      if (r == 1) { fprintf(stderr, "symx: internal error: domain/solver disagreement\n"); abort(); }
      return cur ? 2 : 1;
    }
    if (!linked) { m[!cur] = {{v, (u64)other._Find_first()}}; return 3; }
  }
  int r = query(s, cur ? mkNot1(c) : c, &m[!cur]);
  if (r < 0) throw EndPath{"solver-unknown", true};
  return (r ? 3 : (cur ? 2 : 1));
}
static State* forkState(State& s) { js.forks++; State* n = new State(s); n->depth++; unique(*n); return n; }
static bool isUninit(Expr* e) { for (u32 v : *e->vs) if (g_vars[v].name[0] == '!') return true; return false; }

static Expr* freshVar(State& s, const char* nm, unsigned w, bool uninit = false) {
  static map<tuple<u32, unsigned, bool>, Expr*> pool;
  u32 k = uninit ? s.nuninit++ : s.nvars++;
  auto key = make_tuple(k, w, uninit);
  auto it = pool.find(key);
  Expr* e;
  if (it != pool.end()) e = it->second; else { e = mkVar((uninit ? string("!u") : string("x")) + to_string(k) + "_" + to_string(w), w); pool[key] = e; }
  if (s.model.size() <= e->c) s.model.resize(g_vars.size(), 0);
  s.model[e->c] = 0;
  if (s.vi.size() > e->c) s.vi[e->c].reset();
  if (w == 1) {}
  return e;
}

// Make e concrete on this path, forking off the alternatives (which re-execute the instruction).
static u64 concretize(State& s, const Val& v, unsigned w) {
  if (!v.e) return v.c;
  for (auto& p : s.conc) if (p.first == v.e) return p.second;
  u64 cur = evalExpr(v.e, s.model);
  Expr* eq = mk(O_EQ, 1, v.e, mkConst(cur, w));
  vector<pair<u32, u64>> m[2];
  int t = truth(s, eq, m);
  if (t == 3) {
    State* n = forkState(s);
    addC(*n, mkNot1(eq)); setModel(*n, m[0]);
    work.push_back(n);
  }
  addC(s, eq);
  s.conc.emplace_back(v.e, cur);
  return cur;
}

// ------------------------------------------------------------ memory access
static void memFault(State& s, u64 a, u64 n, bool wr, Obj* o) {
  char buf[256];
  if ((a >> 32) == 0) snprintf(buf, sizeof buf, "null pointer access (address 0x%llx)", (unsigned long long)a);
  else if (o == &g_freed) snprintf(buf, sizeof buf, "use after free (object %u)", (u32)(a >> 32));
  else if (!o) snprintf(buf, sizeof buf, "wild pointer access");
  else if (o->kind == K_GLOBAL && o->size == 0) throw EndPath{string("external global ") + (o->name ? o->name : "?"), true};   // its contents are not in this module
  else snprintf(buf, sizeof buf, "out-of-bounds %s: offset %u, %llu byte(s), %s object of %u bytes", wr ? "write" : "read", (u32)a, (unsigned long long)n, o->kind == K_STACK ? "stack" : o->kind == K_HEAP ? "heap" : "global", o->size);
  throw Violation{"memory", buf};
}
static inline Obj* objAt(State& s, u64 a, u64 n, bool wr) {
  u32 id = a >> 32; u32 off = (u32)a;
  Obj* o = s.mem.get(id);
  if (!o || o == &g_freed || o->kind == K_FUNC || (u64)off + n > o->size) { memFault(s, a, n, wr, o); }
  if (wr && o->ro) throw Violation{"memory", string("write to constant ") + (o->name ? o->name : "")};
  return o;
}
static inline void freezeCheck(State& s, u64 a, bool atomic) {
  u32 id = a >> 32;
  if (s.freezeId && id < s.freezeId && !atomic && s.lockDepth == 0) {
    Obj* o = s.mem.get(id);
    if (o && o->kind != K_STACK) throw Violation{"shared-write", string("unsynchronised write to an object that existed before the lookup (") + (o->kind == K_GLOBAL ? "global " : "heap ") + (o->name ? o->name : "object") + ", " + to_string(o->size) + " bytes)"};
  }
}
static Val byteAt(State& s, Obj*& o, u64 a, bool) {
  u32 off = (u32)a;
  if (o->tag[off] == T_CONC) return cv(o->data[off]);
  if (o->tag[off] == T_SYM) return Val{o->sym[off], 0};
  Expr* u = freshVar(s, "u", 8, true);
  o = s.mem.getW(a >> 32);
  if (!o->sym) o->sym = (Expr**)calloc(o->size ? o->size : 1, sizeof(Expr*));
  o->sym[off] = u; o->tag[off] = T_SYM;
  return Val{u, 0};
}
static Val loadC(State& s, u64 a, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj* o = objAt(s, a, n, false);
  u32 off = (u32)a;
  bool conc = true;
  for (unsigned i = 0; i < n; i++) if (o->tag[off + i]) { conc = false; break; }
  if (conc) { u64 v = 0; memcpy(&v, o->data + off, n); return cv(v & maskw(w)); }
  Expr* r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    Val b = byteAt(s, o, a + i, true);
    Expr* be = toE(b, 8);
    r = r ? mk(O_CONCAT, r->w + 8, be, r) : be;
  }
  if (r->w != w) r = mkExtract(r, 0, w);
  return ev(r);
}
static void storeC(State& s, u64 a, const Val& v, unsigned w, bool atomic = false) {
  unsigned n = (w + 7) / 8;
  objAt(s, a, n, true);
  freezeCheck(s, a, atomic);
  Obj* o = s.mem.getW(a >> 32);
  u32 off = (u32)a;
  if (!v.e) { memcpy(o->data + off, &v.c, n); memset(o->tag + off, T_CONC, n); return; }
  if (!o->sym) o->sym = (Expr**)calloc(o->size ? o->size : 1, sizeof(Expr*));
  Expr* e = v.e; if (w % 8) e = mk(O_ZEXT, n * 8, e);
  for (unsigned i = 0; i < n; i++) {
    Expr* b = mkExtract(e, 8 * i, 8);
    if (isC(b)) { o->data[off + i] = (u8)b->c; o->tag[off + i] = T_CONC; }
    else { o->sym[off + i] = b; o->tag[off + i] = T_SYM; }
  }
}
// load through a possibly symbolic address
static Val loadV(State& s, const Val& a, unsigned w) {
  if (!a.e) return loadC(s, a.c, w);
  for (auto& p : s.conc) if (p.first == a.e) return loadC(s, p.second, w);
  unsigned n = (w + 7) / 8;
  u64 cur = evalExpr(a.e, s.model);
  u32 id = cur >> 32; Obj* o = s.mem.get(id);
  if (!o || o == &g_freed || o->kind == K_FUNC || (u32)cur + (u64)n > o->size) { memFault(s, cur, n, false, o); }
  u64 base = (u64)id << 32;
  Expr* rel = mk(O_SUB, 64, a.e, mkConst(base, 64));
  Expr* inb = mk(O_ULT, 1, rel, mkConst((u64)o->size - n + 1, 64));
  vector<pair<u32, u64>> m[2];
  int t = truth(s, inb, m);
  if (t == 3) { State* x = forkState(s); addC(*x, mkNot1(inb)); setModel(*x, m[0]); work.push_back(x); js.multiObjRes++; addC(s, inb); }
  if (o->size > 1024) return loadC(s, concretize(s, a, 64), w);
  // ITE over the offsets
  vector<u32> offs; u32 v;
  if (singleByte(rel, v)) {
    const u64* tb = exprTable(rel); Dom d; d.set(); if (v < s.vi.size() && s.vi[v]) d = s.vi[v]->dom;
    set<u32> so; for (int i = 0; i < 256; i++) if (d[i] && tb[i] + n <= o->size) so.insert((u32)tb[i]);
    offs.assign(so.begin(), so.end());
  } else for (u32 i = 0; i + n <= o->size; i++) offs.push_back(i);
  if (singleByte(rel, v) && w >= 8 && w <= 64) {
    // a table indexed by one byte
    const u64* tb = exprTable(rel); Dom d; d.set(); if (v < s.vi.size() && s.vi[v]) d = s.vi[v]->dom;
    u64 t[256]; bool conc = true;
    for (int i = 0; i < 256 && conc; i++) {
      t[i] = 0; if (!d[i]) continue;
      if (tb[i] + n > o->size) { d.reset(i); continue; }
      Val x = loadC(s, base + tb[i], w); if (x.e) conc = false; else t[i] = x.c;
    }
    if (conc && d.any()) if (Expr* r = exprFromTable(varExpr(v), t, d, w)) return ev(r);
  }
  map<pair<Expr*, u64>, Expr*> groups; vector<pair<Val, Expr*>> order;
  for (u32 of : offs) {
    Val x = loadC(s, base + of, w);
    Expr* eq = mk(O_EQ, 1, rel, mkConst(of, 64));
    auto k = make_pair(x.e, x.e ? 0 : x.c); auto it = groups.find(k);
    if (it == groups.end()) groups[k] = eq; else it->second = mk(O_OR, 1, it->second, eq);
  }
  Expr* r = nullptr;
  for (auto& g : groups) { Expr* val = g.first.first ? g.first.first : mkConst(g.first.second, w); r = r ? mk(O_ITE, w, g.second, val, r) : val; }
  return ev(r);
}
static void copyBytes(State& s, u64 d, u64 src, u64 n) {
  if (n == 0) return;
  Obj* so = objAt(s, src, n, false);
  objAt(s, d, n, true); freezeCheck(s, d, false);
  if (so->rc == 1) so->rc = so->rc;  // keep
  // hold a reference to the source in case it is the destination object
  Obj* dst; u32 so_off = (u32)src, d_off = (u32)d;
  if ((src >> 32) == (d >> 32)) { dst = s.mem.getW(d >> 32); so = dst; }
  else { dst = s.mem.getW(d >> 32); so = s.mem.get(src >> 32); }
  memmove(dst->data + d_off, so->data + so_off, n);
  bool anySym = false;
  for (u64 i = 0; i < n; i++) if (so->tag[so_off + i] == T_SYM) { anySym = true; break; }
  if (anySym) {
    if (!dst->sym) dst->sym = (Expr**)calloc(dst->size ? dst->size : 1, sizeof(Expr*));
    memmove(dst->sym + d_off, so->sym + so_off, n * sizeof(Expr*));
  }
  memmove(dst->tag + d_off, so->tag + so_off, n);
}
static string readCStr(State& s, const Val& a) {
  string r; if (a.e || !a.c) return "?";
  Obj* o = s.mem.get(a.c >> 32); if (!o || o == &g_freed) return "?";
  for (u32 off = (u32)a.c; off < o->size; off++) { if (o->tag[off]) { r += '?'; continue; } if (!o->data[off]) break; r += (char)o->data[off]; }
  return r;
}
static u64 allocObj(State& s, u64 n, u8 kind, const char* nm) {
  if (n > 0x40000000) throw Violation{"memory", "allocation of " + to_string(n) + " bytes"};
  return (u64)s.mem.alloc(newObj((u32)n, kind, T_UNINIT, nm)) << 32;
}

// ------------------------------------------------------------ execution
static string jesc(const string& s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static vector<string> stackOf(State& s) {
  vector<string> r;
  for (size_t i = s.fr.size(); i-- > 0 && r.size() < 12;) { Frame* f = s.fr[i]; r.push_back(f->fn->name + " " + (f->ip < f->fn->code.size() ? locOf(f->fn->code[f->ip]) : "?")); }
  return r;
}
static void recordViolation(State& s, const string& kind, const string& msg, const vector<u64>& model) {
  ViolationRec v; v.kind = kind; v.msg = msg; v.stack = stackOf(s); v.where = v.stack.empty() ? "?" : v.stack[0];
  for (auto& i : s.inputs) { v.inputs.emplace_back(i.name, i.e ? evalExpr(i.e, model) : 0); v.ws.push_back(i.w); }
  viols.push_back(v);
}
static void doAssert(State& s, const Val& c, const string& msg) {
  s.asserts++; js.asserts++;
  if (!c.e) { if (!(c.c & 1)) throw Violation{"assert", msg}; return; }
  js.symAsserts++; s.symAsserts++;
  vector<pair<u32, u64>> m;
  if (evalExpr(c.e, s.model) == 0) throw Violation{"assert", msg};
  int r = query(s, mkNot1(c.e), &m);
  if (r < 0) throw EndPath{"solver-unknown", true};
  if (r == 1) { setModel(s, m); throw Violation{"assert", msg}; }
  addC(s, c.e);
}
static inline void takeEdge(State& s, Frame* f, int e) {
  Edge& ed = f->fn->edges[e];
  if (!ed.phis.empty()) {
    if (!ed.spill) for (auto& p : ed.phis) f->regs[p.dst] = p.src.slot < 0 ? cv(p.src.c) : f->regs[p.src.slot];
    else {
      static vector<Val> tmp; tmp.clear();
      for (auto& p : ed.phis) tmp.push_back(p.src.slot < 0 ? cv(p.src.c) : f->regs[p.src.slot]);
      for (size_t i = 0; i < ed.phis.size(); i++) f->regs[ed.phis[i].dst] = tmp[i];
    }
  }
  f->ip = ed.target;
}
static void pushFrame(State& s, Fn* fn, const vector<Val>& args) {
  if (!fn->decoded) decodeFn(fn);
  fn->calls++;
  if (s.fr.size() > 3000) throw Violation{"recursion", "call depth exceeds 3000 in " + fn->name};
  Frame* f = new Frame(); f->rc = 1; f->fn = fn; f->ip = 0; f->regs.assign(fn->nslots, Val{nullptr, 0});
  size_t k = 0;
  for (size_t i = 0; i < fn->argSlots.size(); i++) for (int j = 0; j < fn->argN[i] && k < args.size(); j++) f->regs[fn->argSlots[i] + j] = args[k++];
  s.fr.push_back(f);
}
static Val op2(Op op, unsigned w, unsigned kw, const Val& a, const Val& b) {
  if (!a.e && !b.e) return cv(foldOp(op, w, kw, a.c, b.c, 0, 0));
  return ev(mk(op, w, toE(a, kw), toE(b, kw)));
}
static Val not1(const Val& v) { return v.e ? ev(mkNot1(v.e)) : cv(!v.c); }
static Val ite(const Val& c, const Val& a, const Val& b, unsigned w) { if (!c.e) return c.c ? a : b; return ev(mk(O_ITE, w, c.e, toE(a, w), toE(b, w))); }

static bool doBuiltin(State& s, Frame* f, const Inst& in, Builtin bi, vector<Val>& A, Val& r);

static void finishCall(State& s, Frame* f, const Inst& in) { if (in.invoke) takeEdge(s, f, in.edges[0]); else f->ip++; }

// executes until the path ends (throws)
static void run(State& s) {
  for (;;) {
    unique(s);
    Frame* f = s.fr.back();
    Fn* fn = f->fn;
    for (bool same = true; same;) {
      const Inst& in = fn->code[f->ip];
      if (++s.steps > optMaxSteps) throw EndPath{"step limit in " + fn->name, true};
      js.steps++;
#define V(o) ((o).slot < 0 ? cv((o).c) : f->regs[(o).slot])
      switch (in.op) {
        case I_BIN: {
          Val a = V(in.a), b = V(in.b);
          if ((in.sub == O_UDIV || in.sub == O_SDIV || in.sub == O_UREM || in.sub == O_SREM)) {
            if (!b.e) { if (!b.c) throw Violation{"div", "division by zero"}; }
            else {
              vector<pair<u32, u64>> m[2]; Expr* z = mk(O_EQ, 1, b.e, mkConst(0, in.w)); int t = truth(s, z, m);
              if (t & 2) { if (!m[1].empty()) setModel(s, m[1]); throw Violation{"div", "division by zero"}; }
            }
          }
          if (!a.e && !b.e) f->regs[in.dst] = cv(foldOp((Op)in.sub, in.w, in.w, a.c, b.c, 0, 0));
          else { fn->symb++; f->regs[in.dst] = ev(mk((Op)in.sub, in.w, toE(a, in.w), toE(b, in.w))); }
          f->ip++; break;
        }
        case I_ICMP: {
          Val a = V(in.a), b = V(in.b);
          if (!a.e && !b.e) { u64 r = foldOp((Op)in.sub, 1, in.w, a.c, b.c, 0, 0); f->regs[in.dst] = cv(in.swap ? !r : r); }
          else { fn->symb++; Expr* e = mk((Op)in.sub, 1, toE(a, in.w), toE(b, in.w)); if (in.swap) e = mkNot1(e); f->regs[in.dst] = ev(e); }
          f->ip++; break;
        }
        case I_VECBIN: { int n = in.n; for (int i = 0; i < n; i++) f->regs[in.dst + i] = op2((Op)in.sub, in.w, in.w, V(in.ops[i]), V(in.ops[n + i])); f->ip++; break; }
        case I_VECICMP: { int n = in.n; for (int i = 0; i < n; i++) { Val r = op2((Op)in.sub, 1, in.w, V(in.ops[i]), V(in.ops[n + i])); f->regs[in.dst + i] = in.swap ? not1(r) : r; } f->ip++; break; }
        case I_FCMP: {
          Val a = V(in.a), b = V(in.b); auto P = (L::CmpInst::Predicate)in.sub;
          Val eq = op2(O_FEQ, 1, in.w, a, b), lt = op2(O_FLT, 1, in.w, a, b), gt = op2(O_FLT, 1, in.w, b, a), un = op2(O_FUNO, 1, in.w, a, b);
          auto OR = [&](Val x, Val y) { return op2(O_OR, 1, 1, x, y); };
          Val r;
          switch (P) {
            case L::CmpInst::FCMP_FALSE: r = cv(0); break; case L::CmpInst::FCMP_TRUE: r = cv(1); break;
            case L::CmpInst::FCMP_OEQ: r = eq; break; case L::CmpInst::FCMP_OGT: r = gt; break; case L::CmpInst::FCMP_OLT: r = lt; break;
            case L::CmpInst::FCMP_OGE: r = OR(gt, eq); break; case L::CmpInst::FCMP_OLE: r = OR(lt, eq); break; case L::CmpInst::FCMP_ONE: r = OR(lt, gt); break;
            case L::CmpInst::FCMP_ORD: r = not1(un); break; case L::CmpInst::FCMP_UNO: r = un; break;
            case L::CmpInst::FCMP_UEQ: r = OR(eq, un); break; case L::CmpInst::FCMP_UGT: r = OR(gt, un); break; case L::CmpInst::FCMP_ULT: r = OR(lt, un); break;
            case L::CmpInst::FCMP_UGE: r = not1(lt); break; case L::CmpInst::FCMP_ULE: r = not1(gt); break; default: r = not1(eq); break;
          }
          f->regs[in.dst] = r; f->ip++; break;
        }
        case I_FNEG: f->regs[in.dst] = op2(O_XOR, in.w, in.w, V(in.a), cv(1ull << (in.w - 1))); f->ip++; break;
        case I_FCAST: { Val a = V(in.a); f->regs[in.dst] = a.e ? ev(mk((Op)in.sub, in.w, a.e)) : cv(foldOp((Op)in.sub, in.w, in.w2, a.c, 0, 0, 0)); f->ip++; break; }
        case I_CASTZ: { Val a = V(in.a); if (a.e) a = ev(mk(O_ZEXT, in.w, a.e)); f->regs[in.dst] = a; f->ip++; break; }
        case I_CASTS: { Val a = V(in.a); f->regs[in.dst] = a.e ? ev(mk(O_SEXT, in.w, a.e)) : cv((u64)sx(a.c, in.w2) & maskw(in.w)); f->ip++; break; }
        case I_TRUNC: { Val a = V(in.a); f->regs[in.dst] = a.e ? ev(mkExtract(a.e, 0, in.w)) : cv(a.c & maskw(in.w)); f->ip++; break; }
        case I_MOVE: f->regs[in.dst] = V(in.a); f->ip++; break;
        case I_GEP: {
          Val p = V(in.a); u64 off = in.c.c; Expr* se = nullptr;
          for (size_t i = 0; i < in.ops.size(); i++) {
            Val x = V(in.ops[i]);
            if (!x.e) off += (u64)sx(x.c, in.ws[i]) * in.imm[i];
            else { Expr* e = mk(O_MUL, 64, mk(O_SEXT, 64, x.e), mkConst(in.imm[i], 64)); se = se ? mk(O_ADD, 64, se, e) : e; }
          }
          if (!se && !p.e) f->regs[in.dst] = cv(p.c + off);
          else { Expr* e = mk(O_ADD, 64, toE(p, 64), mkConst(off, 64)); if (se) e = isC(e) ? mk(O_ADD, 64, se, e) : mk(O_ADD, 64, e, se); f->regs[in.dst] = ev(e); }
          f->ip++; break;
        }
        case I_LOAD: {
          Val a = V(in.a);
          if (in.n == 1) f->regs[in.dst] = loadV(s, a, in.w);
          else { u64 p = concretize(s, a, 64); for (int i = 0; i < in.n; i++) f->regs[in.dst + i] = loadC(s, p + in.imm[i], in.ws[i]); }
          f->ip++; break;
        }
        case I_STORE: {
          u64 p = concretize(s, V(in.a), 64);
          for (size_t i = 0; i < in.ops.size(); i++) storeC(s, p + in.imm[i], V(in.ops[i]), in.ws[i], in.atomic);
          f->ip++; break;
        }
        case I_ALLOCA: { u64 n = concretize(s, V(in.a), 64); u64 a = allocObj(s, in.imm[0] * n, K_STACK, nullptr); f->allocas.push_back(a >> 32); f->regs[in.dst] = cv(a); f->ip++; break; }
        case I_SELECT: {
          Val c = V(in.a); int n = in.n;
          if (c.e) for (auto& p : s.conc) if (p.first == c.e) { c = cv(p.second); break; }
          if (c.e) {
            bool ptr = false; for (int i = 0; i < n; i++) { Val x = V(in.ops[i]), y = V(in.ops[n + i]); if (in.ws[i] == 64 && ((x.e ? 0 : x.c) >> 32 || (y.e ? 0 : y.c) >> 32) && in.I->getType()->isPointerTy()) ptr = true; }
            if (ptr) c = cv(concretize(s, c, 1));
          }
          for (int i = 0; i < n; i++) f->regs[in.dst + i] = ite(c, V(in.ops[i]), V(in.ops[n + i]), in.ws[i]);
          f->ip++; break;
        }
        case I_INSERTV: {
          if (in.ops.size() == 1) f->regs[in.dst] = V(in.ops[0]);
          else { static vector<Val> t; t.clear(); for (auto& o : in.ops) t.push_back(V(o)); for (size_t i = 0; i < t.size(); i++) f->regs[in.dst + i] = t[i]; }
          f->ip++; break;
        }
        case I_BR: takeEdge(s, f, in.edges[0]); break;
        case I_CONDBR: {
          Val c = V(in.a);
          if (!c.e) { takeEdge(s, f, in.edges[c.c ? 0 : 1]); break; }
          fn->symb++;
          vector<pair<u32, u64>> m[2];
          int t = truth(s, c.e, m);
          if (t == 3) {
            bool cur = evalExpr(c.e, s.model);
            State* n = forkState(s);
            unique(*n);
            addC(*n, cur ? mkNot1(c.e) : c.e); setModel(*n, m[!cur]);
            takeEdge(*n, n->fr.back(), in.edges[cur ? 1 : 0]);
            work.push_back(n);
            addC(s, cur ? c.e : mkNot1(c.e));
            // n cloned its top frame, ours is still referenced by us only
            unique(s); f = s.fr.back();
            takeEdge(s, f, in.edges[cur ? 0 : 1]);
          } else takeEdge(s, f, in.edges[t == 2 ? 0 : 1]);
          break;
        }
        case I_SWITCH: {
          Val c = V(in.a);
          if (!c.e) {
            int e = in.edges[0]; for (size_t i = 0; i < in.imm.size(); i++) if (in.imm[i] == c.c) { e = in.edges[i + 1]; break; }
            takeEdge(s, f, e); break;
          }
          fn->symb++;
          // one alternative per distinct successor
          vector<pair<int, Expr*>> alts; Expr* none = mkConst(1, 1);
          for (size_t i = 0; i < in.imm.size(); i++) {
            Expr* eq = mk(O_EQ, 1, c.e, mkConst(in.imm[i], in.w));
            if (in.edges[i + 1] == in.edges[0]) continue;
            none = mk(O_AND, 1, none, mkNot1(eq));
            bool hit = false; for (auto& al : alts) if (al.first == in.edges[i + 1]) { al.second = mk(O_OR, 1, al.second, eq); hit = true; break; }
            if (!hit) alts.push_back({in.edges[i + 1], eq});
          }
          alts.push_back({in.edges[0], none});
          int cur = -1; for (size_t i = 0; i < alts.size(); i++) if (evalExpr(alts[i].second, s.model)) { cur = i; break; }
          for (size_t i = 0; i < alts.size(); i++) if ((int)i != cur) {
            vector<pair<u32, u64>> m[2]; int t = truth(s, alts[i].second, m);
            if (!(t & 2)) continue;
            State* n = forkState(s); unique(*n);
            addC(*n, alts[i].second); setModel(*n, m[1]);
            takeEdge(*n, n->fr.back(), alts[i].first);
            work.push_back(n);
          }
          addC(s, alts[cur].second);
          unique(s); f = s.fr.back();
          takeEdge(s, f, alts[cur].first);
          break;
        }
        case I_RET: {
          Val r[8]; int n = in.ops.size(); if (n > 8) throw EndPath{"big return", true};
          for (int i = 0; i < n; i++) r[i] = V(in.ops[i]);
          for (u32 id : f->allocas) s.mem.freeObj(id);
          s.fr.pop_back();
          if (--f->rc == 0) delete f;
          if (s.fr.empty()) throw EndPath{"done", false};
          unique(s); f = s.fr.back();
          const Inst& ci = f->fn->code[f->ip];
          for (int i = 0; i < n && i < ci.n; i++) f->regs[ci.dst + i] = r[i];
          finishCall(s, f, ci);
          same = false; break;
        }
        case I_CALL: {
          Fn* cal = in.callee; Builtin bi = in.bi;
          if (in.indirect) {
            u64 a = concretize(s, V(in.a), 64);
            auto it = fnByObj.find(a >> 32);
            if (it == fnByObj.end() || (u32)a) { if (!(a >> 32)) throw Violation{"memory", "call through null pointer"}; memFault(s, a, 1, false, s.mem.get(a >> 32)); }
            cal = it->second; bi = cal->bi;
          }
          static vector<Val> args; args.clear();
          for (auto& o : in.ops) args.push_back(V(o));
          if (bi != B_NONE) {
            Val r{nullptr, 0};
            if (cal) cal->calls++;
            if (doBuiltin(s, f, in, bi, args, r)) { if (in.dst >= 0 && in.n >= 1 && bi != B_UADDO && bi != B_USUBO && bi != B_UMULO && bi != B_SADDO && bi != B_SSUBO && bi != B_SMULO) f->regs[in.dst] = r; finishCall(s, f, in); }
            break;
          }
          if (!cal || cal->F->isDeclaration()) throw EndPath{"external " + (cal ? cal->name : string("?")), true};
          for (size_t i = 0; i + 1 < in.imm.size(); i += 2) {  // byval copies
            u64 n = in.imm[i + 1]; u64 a = allocObj(s, n, K_STACK, nullptr); f->allocas.push_back(a >> 32);
            copyBytes(s, a, concretize(s, args[in.imm[i]], 64), n); args[in.imm[i]] = cv(a);
          }
          pushFrame(s, cal, args);
          same = false; break;
        }
        case I_UNREACHABLE: throw Violation{"unreachable", "reached unreachable code in " + fn->name};
        case I_FENCE: f->ip++; break;
        case I_CMPXCHG: {
          u64 p = concretize(s, V(in.a), 64); Val old = loadC(s, p, in.w); Val exp = V(in.b), nw = V(in.c);
          Val eq = op2(O_EQ, 1, in.w, old, exp);
          storeC(s, p, ite(eq, nw, old, in.w), in.w, true);
          f->regs[in.dst] = old; f->regs[in.dst + 1] = eq; f->ip++; break;
        }
        case I_RMW: {
          u64 p = concretize(s, V(in.a), 64); Val old = loadC(s, p, in.w); Val x = V(in.b), nv;
          switch (in.sub) {
            case L::AtomicRMWInst::Xchg: nv = x; break;
            case L::AtomicRMWInst::Add: nv = op2(O_ADD, in.w, in.w, old, x); break;
            case L::AtomicRMWInst::Sub: nv = op2(O_SUB, in.w, in.w, old, x); break;
            case L::AtomicRMWInst::And: nv = op2(O_AND, in.w, in.w, old, x); break;
            case L::AtomicRMWInst::Or: nv = op2(O_OR, in.w, in.w, old, x); break;
            case L::AtomicRMWInst::Xor: nv = op2(O_XOR, in.w, in.w, old, x); break;
            default: throw EndPath{"rmw", true};
          }
          storeC(s, p, nv, in.w, true); f->regs[in.dst] = old; f->ip++; break;
        }
        default: { string t; L::raw_string_ostream os(t); in.I->print(os); throw EndPath{"unsupported instruction " + t + " in " + fn->name, true}; }
      }
    }
  }
}

static Val cmpBytes(State& s, u64 a, u64 b, u64 n, bool ordered) {
  // concrete prefix short cut, then expression
  if (n == 0) return cv(0);
  Obj* oa = objAt(s, a, n, false); Obj* ob = objAt(s, b, n, false);
  vector<pair<Val, Val>> v;
  for (u64 i = 0; i < n; i++) {
    Val x = byteAt(s, oa, a + i, false); ob = s.mem.get(b >> 32); Val y = byteAt(s, ob, b + i, false); oa = s.mem.get(a >> 32);
    if (!x.e && !y.e) {
      if (x.c == y.c) continue;
      if (!ordered) return cv(1);                       // surely different
      v.push_back({x, y}); break;
    }
    if (x.e && x.e == y.e) continue;
    v.push_back({x, y});
  }
  Expr* r = mkConst(0, 32);
  if (!ordered) {
    Expr* all = mkConst(1, 1);
    for (auto& p : v) all = mk(O_AND, 1, all, mk(O_EQ, 1, toE(p.first, 8), toE(p.second, 8)));
    return ev(mk(O_ITE, 32, all, mkConst(0, 32), mkConst(1, 32)));
  }
  for (size_t i = v.size(); i-- > 0;) {
    Expr *x = toE(v[i].first, 8), *y = toE(v[i].second, 8);
    r = mk(O_ITE, 32, mk(O_EQ, 1, x, y), r, mk(O_ITE, 32, mk(O_ULT, 1, x, y), mkConst(0xffffffff, 32), mkConst(1, 32)));
  }
  return ev(r);
}

static bool doBuiltin(State& s, Frame* f, const Inst& in, Builtin bi, vector<Val>& A, Val& r) {
  unsigned w = in.w;
  switch (bi) {
    case B_MALLOC: { u64 n = concretize(s, A[0], 64); r = cv(allocObj(s, n, K_HEAP, nullptr)); return true; }
    case B_FREE: {
      u64 p = concretize(s, A[0], 64); if (!p) return true;
      Obj* o = s.mem.get(p >> 32);
      if (!o || o == &g_freed) throw Violation{"memory", "double free or free of a wild pointer"};
      if ((u32)p || o->kind != K_HEAP) throw Violation{"memory", "free of a pointer that was not allocated"};
      freezeCheck(s, p, false);
      s.mem.freeObj(p >> 32); return true;
    }
    case B_MEMCPY: { u64 n = concretize(s, A[2], 64); if (n) { u64 d = concretize(s, A[0], 64), q = concretize(s, A[1], 64); copyBytes(s, d, q, n); } r = A[0]; return true; }
    case B_MEMSET: {
      u64 n = concretize(s, A[2], 64); r = A[0]; if (!n) return true;
      u64 d = concretize(s, A[0], 64); Val b = A[1]; if (b.e) b = ev(mkExtract(b.e, 0, 8)); else b.c &= 255;
      objAt(s, d, n, true); freezeCheck(s, d, false);
      Obj* o = s.mem.getW(d >> 32); u32 off = (u32)d;
      if (!b.e) { memset(o->data + off, (int)b.c, n); memset(o->tag + off, T_CONC, n); }
      else for (u64 i = 0; i < n; i++) storeC(s, d + i, b, 8);
      return true;
    }
    case B_MEMCMP: case B_BCMP: {
      u64 n = concretize(s, A[2], 64); if (!n) { r = cv(0); return true; }
      u64 a = concretize(s, A[0], 64), b = concretize(s, A[1], 64);
      r = cmpBytes(s, a, b, n, bi == B_MEMCMP); return true;
    }
    case B_NOP: return true;
    case B_RET0: r = cv(0); return true;
    case B_RET1: r = cv(1); return true;
    case B_RETARG0: case B_EXPECT: r = A[0]; return true;
    case B_ABORT: case B_TRAP: throw Violation{"abort", "abort() or terminate called"};
    case B_ASSERTFAIL: throw Violation{"abort", "assertion failed in the code under test: " + readCStr(s, A.size() == 4 && in.callee && in.callee->name[0] == '_' && in.callee->name[1] == 'Z' ? A[3] : A[0])};
    case B_THROW: throw Violation{"throw", "exception thrown: " + (in.callee ? in.callee->name : string("?")) + " " + (A.empty() ? string() : readCStr(s, A[0]))};
    case B_GUARDACQ: { u64 p = concretize(s, A[0], 64); Val v = loadC(s, p, 8); if (!v.e && (v.c & 1)) r = cv(0); else { r = cv(1); s.lockDepth++; } return true; }
    case B_GUARDREL: { u64 p = concretize(s, A[0], 64); storeC(s, p, cv(1), 8, true); s.lockDepth--; return true; }
    case B_LOCK: s.lockDepth++; r = cv(0); return true;
    case B_UNLOCK: s.lockDepth--; r = cv(0); return true;
    // ---- harness API
    case B_SYM_INT: { unsigned b = (unsigned)A[1].c; Expr* e = freshVar(s, "x", b); s.inputs.push_back({readCStr(s, A[0]), e, b}); r = ev(b == 64 ? e : mk(O_ZEXT, 64, e)); return true; }
    case B_SYM_BYTES: {
      u64 p = A[0].c, n = A[1].c; string nm = readCStr(s, A[2]);
      for (u64 i = 0; i < n; i++) { Expr* e = freshVar(s, "x", 8); s.inputs.push_back({nm + "[" + to_string(i) + "]", e, 8}); storeC(s, p + i, Val{e, 0}, 8); }
      return true;
    }
    case B_SYM_RANGE: {
      u64 lo = A[1].c, hi = A[2].c;
      if (A[1].e || A[2].e) throw EndPath{"symbolic range bound", true};
      if (lo == hi) { s.inputs.push_back({readCStr(s, A[0]), mkConst(lo, 32), 32}); r = cv(lo); return true; }
      unsigned b = hi < 256 ? 8 : 32;
      Expr* e = freshVar(s, "c", b); s.inputs.push_back({readCStr(s, A[0]), e, b});
      s.model[e->c] = lo;
      if (lo) addC(s, mkNot1(mk(O_ULT, 1, e, mkConst(lo, b))));
      if (hi < maskw(b)) addC(s, mk(O_ULT, 1, e, mkConst(hi + 1, b)));
      // fork over all values; each fork continues after the call
      for (u64 k = hi; k > lo; k--) {
        Expr* eq = mk(O_EQ, 1, e, mkConst(k, b));
        State* n = forkState(s); unique(*n);
        addC(*n, eq); n->model[e->c] = k;
        n->fr.back()->regs[in.dst] = cv(k);
        finishCall(*n, n->fr.back(), in);
        work.push_back(n);
      }
      addC(s, mk(O_EQ, 1, e, mkConst(lo, b)));
      unique(s);
      s.fr.back()->regs[in.dst] = cv(lo); finishCall(s, s.fr.back(), in);
      if (s.fr.back() != f) {}  // f may be stale: caller re-reads
      return false;
    }
    case B_SYM_ASSUME: {
      Val c = A[0]; if (!c.e) { if (!(c.c & 1)) throw EndPath{"assume", false}; return true; }
      Expr* e = c.e; if (e->w != 1) e = mkNot1(mk(O_EQ, 1, e, mkConst(0, e->w)));
      if (evalExpr(e, s.model) == 0) {
        vector<pair<u32, u64>> m[2]; int t = truth(s, e, m);
        if (!(t & 2)) throw EndPath{"assume", false};
        setModel(s, m[1]);
      }
      addC(s, e); return true;
    }
    case B_SYM_ASSERT: { Val c = A[0]; if (c.e && c.e->w != 1) c = ev(mkNot1(mk(O_EQ, 1, c.e, mkConst(0, c.e->w)))); else if (!c.e) c.c = c.c != 0; doAssert(s, c, readCStr(s, A[1])); return true; }
    case B_SYM_FAIL: throw Violation{"assert", readCStr(s, A[0])};
    case B_SYM_OBS: s.obs.push_back({readCStr(s, A[0]), {A[1]}, 64, false}); return true;
    case B_SYM_OBSB: {
      Obs o; o.name = readCStr(s, A[0]); o.isBytes = true; o.w = 8; u64 p = concretize(s, A[1], 64), n = concretize(s, A[2], 64);
      for (u64 i = 0; i < n; i++) o.v.push_back(loadC(s, p + i, 8));
      s.obs.push_back(o); return true;
    }
    case B_SYM_LENIENT: s.lenient = true; return true;
    case B_SYM_FREEZE: s.freezeId = s.mem.next; return true;
    case B_SYM_UNFREEZE: s.freezeId = 0; return true;
    case B_SYM_COVER: js.cover[readCStr(s, A[0])]++; return true;
    case B_SYM_TIER: r = cv(optTier); return true;
    case B_SYM_CONC: r = cv(concretize(s, A[0], 64)); return true;
    case B_SYM_STOP: throw EndPath{"done", false};
    case B_SYM_ISSYM: r = cv(A[0].e != nullptr); return true;
    case B_SYM_PRINT: { fprintf(stderr, "[%s] %s\n", readCStr(s, A[0]).c_str(), A[1].e ? exprStr(A[1].e).c_str() : to_string(A[1].c).c_str()); return true; }
    // ---- intrinsics
    case B_UMIN: r = ite(op2(O_ULT, 1, w, A[0], A[1]), A[0], A[1], w); return true;
    case B_UMAX: r = ite(op2(O_ULT, 1, w, A[0], A[1]), A[1], A[0], w); return true;
    case B_SMIN: r = ite(op2(O_SLT, 1, w, A[0], A[1]), A[0], A[1], w); return true;
    case B_SMAX: r = ite(op2(O_SLT, 1, w, A[0], A[1]), A[1], A[0], w); return true;
    case B_ABS: r = ite(op2(O_SLT, 1, w, A[0], cv(0)), op2(O_SUB, w, w, cv(0), A[0]), A[0], w); return true;
    case B_FABS: r = op2(O_AND, w, w, A[0], cv(maskw(w - 1))); return true;
    case B_FMULADD: r = op2(O_FADD, w, w, op2(O_FMUL, w, w, A[0], A[1]), A[2]); return true;
    case B_CEIL: case B_FLOOR: {
      if (A[0].e || w != 64) throw EndPath{"rounding of a symbolic floating-point value", true};
      double d; memcpy(&d, &A[0].c, 8); d = bi == B_CEIL ? __builtin_ceil(d) : __builtin_floor(d); u64 o; memcpy(&o, &d, 8); r = cv(o); return true;
    }
    case B_PTRMASK: r = op2(O_AND, 64, 64, A[0], A[1]); return true;
    case B_BSWAP: {
      if (!A[0].e) { u64 v = 0; for (unsigned i = 0; i < w / 8; i++) v |= ((A[0].c >> (8 * i)) & 255) << (w - 8 - 8 * i); r = cv(v); return true; }
      Expr* e = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr* b = mkExtract(A[0].e, 8 * i, 8); e = e ? mk(O_CONCAT, e->w + 8, e, b) : b; } r = ev(e); return true;
    }
    case B_CTPOP: { if (!A[0].e) { r = cv(__builtin_popcountll(A[0].c)); return true; } Expr* e = mkConst(0, w); for (unsigned i = 0; i < w; i++) e = mk(O_ADD, w, e, mk(O_ZEXT, w, mkExtract(A[0].e, i, 1))); r = ev(e); return true; }
    case B_CTLZ: { if (!A[0].e) { u64 n = 0; for (int i = w - 1; i >= 0 && !((A[0].c >> i) & 1); i--) n++; r = cv(n); return true; } Expr* e = mkConst(w, w); for (unsigned i = 0; i < w; i++) e = mk(O_ITE, w, mkExtract(A[0].e, i, 1), mkConst(w - 1 - i, w), e); r = ev(e); return true; }
    case B_CTTZ: { if (!A[0].e) { u64 n = 0; for (unsigned i = 0; i < w && !((A[0].c >> i) & 1); i++) n++; r = cv(n); return true; } Expr* e = mkConst(w, w); for (int i = w - 1; i >= 0; i--) e = mk(O_ITE, w, mkExtract(A[0].e, i, 1), mkConst(i, w), e); r = ev(e); return true; }
    case B_FSHL: case B_FSHR: {
      if (A[2].e) throw EndPath{"symbolic funnel shift", true};
      u64 k = A[2].c % w; if (!k) { r = bi == B_FSHL ? A[0] : A[1]; return true; }
      if (bi == B_FSHR) k = w - k;
      r = op2(O_OR, w, w, op2(O_SHL, w, w, A[0], cv(k)), op2(O_LSHR, w, w, A[1], cv(w - k))); return true;
    }
    case B_UADDO: case B_USUBO: case B_SADDO: case B_SSUBO: case B_UMULO: case B_SMULO: {
      unsigned k = in.w2; Val x = A[0], y = A[1], res, ov;
      if (bi == B_UADDO) { res = op2(O_ADD, k, k, x, y); ov = op2(O_ULT, 1, k, res, x); }
      else if (bi == B_USUBO) { res = op2(O_SUB, k, k, x, y); ov = op2(O_ULT, 1, k, x, y); }
      else if (bi == B_SADDO) { res = op2(O_ADD, k, k, x, y); Val t = op2(O_AND, k, k, op2(O_XOR, k, k, res, x), op2(O_XOR, k, k, res, y)); ov = op2(O_SLT, 1, k, t, cv(0)); }
      else if (bi == B_SSUBO) { res = op2(O_SUB, k, k, x, y); Val t = op2(O_AND, k, k, op2(O_XOR, k, k, x, y), op2(O_XOR, k, k, res, x)); ov = op2(O_SLT, 1, k, t, cv(0)); }
      else if (!x.e && !y.e) {
        if (bi == B_UMULO) { __uint128_t p = (__uint128_t)x.c * y.c; res = cv((u64)p & maskw(k)); ov = cv(p > maskw(k)); }
        else { __int128_t p = (__int128_t)sx(x.c, k) * sx(y.c, k); res = cv((u64)p & maskw(k)); ov = cv((__int128_t)sx(res.c, k) != p); }
      } else if (k <= 32) {
        Op ex = bi == B_UMULO ? O_ZEXT : O_SEXT; Expr* p = mk(O_MUL, 2 * k, mk(ex, 2 * k, toE(x, k)), mk(ex, 2 * k, toE(y, k)));
        res = ev(mkExtract(p, 0, k)); Expr* back = mk(ex, 2 * k, mkExtract(p, 0, k)); ov = ev(mkNot1(mk(O_EQ, 1, back, p)));
      } else {  // 64-bit with a concrete factor: overflow iff x > max/y
        if (x.e && y.e) throw EndPath{"symbolic 64-bit mulo", true};
        if (x.e) swap(x, y);
        if (bi == B_SMULO) throw EndPath{"symbolic 64-bit smulo", true};
        res = op2(O_MUL, k, k, x, y); ov = x.c ? op2(O_ULT, 1, k, cv(maskw(k) / x.c), y) : cv(0);
      }
      f->regs[in.dst] = res; f->regs[in.dst + 1] = ov; return true;
    }
    case B_UADDS: { Val t = op2(O_ADD, w, w, A[0], A[1]); r = ite(op2(O_ULT, 1, w, t, A[0]), cv(maskw(w)), t, w); return true; }
    case B_USUBS: { r = ite(op2(O_ULT, 1, w, A[0], A[1]), cv(0), op2(O_SUB, w, w, A[0], A[1]), w); return true; }
    case B_ISCONST: r = cv(0); return true;
    case B_OBJSIZE: r = cv(A.size() > 1 && A[1].c ? 0 : ~0ull); r.c &= maskw(w); return true;
    default: throw EndPath{"builtin", true};
  }
}

static void emitWitness(State& s) {
  string o = "{\"inputs\":[";
  bool first = true;
  for (auto& i : s.inputs) { if (!first) o += ","; first = false; o += to_string(evalExpr(i.e, s.model)); }
  o += "],\"obs\":["; first = true;
  for (auto& b : s.obs) {
    if (!first) o += ","; first = false;
    o += "[\"" + jesc(b.name) + "\",\"";
    if (b.isBytes) for (auto& v : b.v) { char t[4]; snprintf(t, 4, "%02x", (unsigned)((v.e ? evalExpr(v.e, s.model) : v.c) & 255)); o += t; }
    else o += to_string(b.v[0].e ? evalExpr(b.v[0].e, s.model) : b.v[0].c);
    o += "\"]";
  }
  o += "]}";
  witnesses.push_back(o);
}
// The invariants a finished path must satisfy: its model satisfies its path condition, and the solver agrees.
static void endPathCheck(State& s) {
  vector<Expr*> all = s.multi;
  for (auto& v : s.vi) if (v) for (Expr* u : v->unary) all.push_back(u);
  for (Expr* e : all) if (!evalExpr(e, s.model)) { fprintf(stderr, "symx: internal error: model does not satisfy the path condition: %s\n", exprStr(e).c_str()); abort(); }
  if (optPathConfirm && (js.paths % optPathConfirm) == 0) {
    // independent components separately, so that the answers are shared between paths
    vector<char> used(s.multi.size(), 0);
    for (size_t i = 0; i < s.multi.size(); i++) if (!used[i]) {
      vector<Expr*> cs; slice(s, s.multi[i]->vs, cs);
      for (size_t j = i; j < s.multi.size(); j++) if (find(cs.begin(), cs.end(), s.multi[j]) != cs.end()) used[j] = 1;
      if (solverCheck(cs, nullptr) == 0) { fprintf(stderr, "symx: internal error: solver refutes a completed path\n"); abort(); }
    }
    for (auto& v : s.vi) if (v && !v->linked && !v->unary.empty()) if (solverCheck(v->unary, nullptr) == 0) { fprintf(stderr, "symx: internal error: solver refutes a completed path (byte)\n"); abort(); }
  }
}

static State* baseState;  // after global initialisation
static u64 rng = 88172645463325252ull;
static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static double nowS() { return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }
static double gDeadline = 1e18;

static bool explore(State* init, double secs) {
  work.clear(); work.push_back(init);
  double end = min(nowS() + secs, gDeadline);
  bool complete = true;
  u64 cnt = 0;
  while (!work.empty()) {
    if ((++cnt & 15) == 0 && nowS() > end) { complete = false; js.incompleteWhy["time budget"] += work.size(); js.incomplete += work.size(); for (auto* w : work) delete w; work.clear(); break; }
    if (js.paths >= optMaxPaths) { complete = false; js.incompleteWhy["path budget"] += work.size(); js.incomplete += work.size(); for (auto* w : work) delete w; work.clear(); break; }
    State* s = work.back(); work.pop_back();
    try { run(*s); }
    catch (EndPath& e) {
      if (e.why == "done") {
        js.paths++; endPathCheck(*s);
        // reservoir of witnesses
        witCount++;
        if ((int)witnesses.size() < optMaxWit) emitWitness(*s);
        else if (rnd() % witCount < (u64)optMaxWit) { emitWitness(*s); swap(witnesses[rnd() % optMaxWit], witnesses.back()); witnesses.pop_back(); }
      } else if (e.incomplete) { js.incomplete++; js.incompleteWhy[e.why + " at " + stackOf(*s)[0]]++; if (e.why.rfind("step limit", 0) == 0) { recordViolation(*s, "steps", e.why, s->model); } complete = false; }
      else js.infeasible++;
    } catch (Violation& v) {
      if (s->lenient && v.kind != "assert") { js.incomplete++; js.incompleteWhy["beyond a size-only buffer at " + stackOf(*s)[0]]++; complete = false; delete s; continue; }
      recordViolation(*s, v.kind, v.msg, s->model);
      js.paths++;
      if ((int)viols.size() >= optMaxViol) { delete s; for (auto* w : work) delete w; work.clear(); return false; }
    }
    delete s;
  }
  return complete;
}

static u64 runConcrete(const char* name, vector<Val> args) {
  // run a function to completion on the base state and return its value
  L::Function* F = M->getFunction(name);
  if (!F) { fprintf(stderr, "symx: no function %s\n", name); exit(3); }
  State* s = new State(*baseState);
  Fn* fn = getFn(F);
  pushFrame(*s, fn, args);
  // evaluate: capture return by running in a trampoline: run until frame pops
  u64 ret = 0;
  Fn tramp; tramp.F = F; tramp.name = "trampoline"; tramp.decoded = true; tramp.nslots = 2; Inst call; call.op = I_CALL; call.dst = 0; call.n = 1; tramp.code.push_back(call);
  Inst stop; stop.op = I_UNSUP; tramp.code.push_back(stop);
  Frame* tf = new Frame(); tf->rc = 1; tf->fn = &tramp; tf->ip = 0; tf->regs.assign(2, Val{nullptr, 0});
  s->fr.insert(s->fr.begin(), tf);
  // patch the stop instruction: ret
  tramp.code[1].op = I_RET; tramp.code[1].ops = {};
  Inst st; st.op = I_CALL; st.bi = B_SYM_STOP; tramp.code[1] = st;
  try { run(*s); } catch (EndPath& e) { if (e.why != "done") { fprintf(stderr, "symx: %s while running %s\n", e.why.c_str(), name); exit(3); } ret = s->fr[0]->regs[0].c; }
  catch (Violation& v) { fprintf(stderr, "symx: violation %s (%s) while running %s\n", v.kind.c_str(), v.msg.c_str(), name); for (auto& x : stackOf(*s)) fprintf(stderr, "   %s\n", x.c_str()); exit(3); }
  delete s;
  return ret;
}

static void initGlobals() {
  baseState = new State();
  for (auto& F : *M) { if (F.isIntrinsic()) continue; u32 id = baseState->mem.alloc(newObj(1, K_FUNC, T_CONC, nullptr)); gvObj[&F] = id; Fn* fn = getFn(&F); fn->objId = id; fnByObj[id] = fn; }
  vector<L::GlobalVariable*> gs;
  for (auto& G : M->globals()) {
    if (G.getName().startswith("llvm.")) continue;
    u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
    Obj* o = newObj((u32)sz, K_GLOBAL, T_CONC, strdup(G.getName().str().c_str()));
    if (G.isDeclaration()) o->size = 0;      // any access to an undefined global is reported
    gvObj[&G] = baseState->mem.alloc(o); gs.push_back(&G);
  }
  for (auto& A : M->aliases()) { auto* b = A.getAliaseeObject(); if (b && gvObj.count(b)) gvObj[&A] = gvObj[b]; }
  for (auto* G : gs) {
    if (!G->hasInitializer()) continue;
    Obj* o = baseState->mem.getW(gvObj[G]);
    try { writeConst(o, 0, G->getInitializer()); } catch (Unsup& u) { fprintf(stderr, "symx: global %s: %s\n", G->getName().str().c_str(), u.s.c_str()); }
    o->ro = G->isConstant();
  }
  if (auto* GC = M->getGlobalVariable("llvm.global_ctors")) if (GC->hasInitializer()) if (auto* CA = L::dyn_cast<L::ConstantArray>(GC->getInitializer())) {
    vector<pair<u64, L::Function*>> cs;
    for (auto& op : CA->operands()) { auto* S = L::cast<L::ConstantStruct>(op); if (auto* F = L::dyn_cast<L::Function>(S->getOperand(1)->stripPointerCasts())) cs.push_back({L::cast<L::ConstantInt>(S->getOperand(0))->getZExtValue(), F}); }
    stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) {
      pushFrame(*baseState, getFn(c.second), {});
      try { run(*baseState); } catch (EndPath& e) { if (e.why != "done") { fprintf(stderr, "symx: %s in constructor %s\n", e.why.c_str(), c.second->getName().str().c_str()); exit(3); } }
      catch (Violation& v) { fprintf(stderr, "symx: %s %s in constructor\n", v.kind.c_str(), v.msg.c_str()); exit(3); }
      baseState->steps = 0;
    }
  }
}

static void runJob(int job, FILE* out) {
  js = JobStats(); viols.clear(); witnesses.clear(); witCount = 0; curJob = job; rng = 88172645463325252ull + 1000003 * optSeed + job;
  u64 q0 = g_ss.queries, h0 = g_ss.cacheHits, s0 = g_ss.sat, u0 = g_ss.unsat, k0 = g_ss.unknown; double ts0 = g_ss.secs; double t0 = nowS();
  State* s = new State(*baseState);
  pushFrame(*s, getFn(M->getFunction(optEntry)), {cv(job)});
  bool complete = explore(s, optJobSecs);
  fprintf(out, "{\"job\":%d,\"complete\":%s,\"paths\":%llu,\"infeasible\":%llu,\"incomplete\":%llu,\"forks\":%llu,\"steps\":%llu,\"asserts\":%llu,\"sym_asserts\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.4f,\"wall_s\":%.3f,\"exprs\":%llu",
          job, complete ? "true" : "false", (unsigned long long)js.paths, (unsigned long long)js.infeasible, (unsigned long long)js.incomplete, (unsigned long long)js.forks, (unsigned long long)js.steps, (unsigned long long)js.asserts, (unsigned long long)js.symAsserts,
          (unsigned long long)(g_ss.queries - q0), (unsigned long long)(g_ss.cacheHits - h0), (unsigned long long)(g_ss.sat - s0), (unsigned long long)(g_ss.unsat - u0), (unsigned long long)(g_ss.unknown - k0), g_ss.secs - ts0, nowS() - t0, (unsigned long long)exprCount());
  fprintf(out, ",\"cover\":{"); bool first = true; for (auto& c : js.cover) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(out, "},\"why\":{"); first = true; for (auto& c : js.incompleteWhy) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(out, "},\"violations\":["); first = true;
  for (auto& v : viols) {
    fprintf(out, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":[", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str()); first = false;
    for (size_t i = 0; i < v.stack.size(); i++) fprintf(out, "%s\"%s\"", i ? "," : "", jesc(v.stack[i]).c_str());
    fprintf(out, "],\"inputs\":["); for (size_t i = 0; i < v.inputs.size(); i++) fprintf(out, "%s[\"%s\",%llu]", i ? "," : "", jesc(v.inputs[i].first).c_str(), (unsigned long long)v.inputs[i].second);
    fprintf(out, "]}");
  }
  fprintf(out, "],\"witnesses\":["); for (size_t i = 0; i < witnesses.size(); i++) fprintf(out, "%s%s", i ? "," : "", witnesses[i].c_str());
  fprintf(out, "]}\n"); fflush(out);
}

int main(int argc, char** argv) {
  string bc; unsigned qto = 20000;
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto nxt = [&]() { return string(argv[++i]); };
    if (a == "--tier") optTier = stoi(nxt()); else if (a == "--workers") optWorkers = stoi(nxt()); else if (a == "--out") optOut = nxt();
    else if (a == "--job-secs") optJobSecs = stod(nxt()); else if (a == "--total-secs") optTotalSecs = stod(nxt()); else if (a == "--max-steps") optMaxSteps = stoull(nxt());
    else if (a == "--max-wit") optMaxWit = stoi(nxt()); else if (a == "--max-viol") optMaxViol = stoi(nxt()); else if (a == "--seed") optSeed = stoull(nxt());
    else if (a == "--job") optOnlyJob = stoi(nxt()); else if (a == "--entry") optEntry = nxt(); else if (a == "--query-ms") qto = stoi(nxt()); else if (a == "--confirm") optPathConfirm = stoi(nxt());
    else if (a == "--max-paths") optMaxPaths = stoull(nxt());
    else bc = a;
  }
  initBuiltins();
  L::LLVMContext ctx; L::SMDiagnostic err;
  auto mod = L::parseIRFile(bc, err, ctx);
  if (!mod) { err.print("symx", L::errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  gDeadline = nowS() + optTotalSecs;
  initGlobals();
  int njobs = (int)runConcrete("symx_jobs", {cv(optTier)});
  volatile int* next = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *next = 0; volatile int* stopFlag = next + 1; *stopFlag = 0;
  if (optOnlyJob >= 0) { solverInit(qto); FILE* o = fopen(optOut.c_str(), "w"); runJob(optOnlyJob, o); fclose(o); return 0; }
  int W = min(optWorkers, njobs); vector<pid_t> pids;
  for (int w = 0; w < W; w++) {
    pid_t p = fork();
    if (p == 0) {
      solverInit(qto);
      FILE* o = fopen((optOut + "." + to_string(w)).c_str(), "w");
      fprintf(o, "{\"njobs\":%d}\n", njobs);
      for (;;) { int j = __sync_fetch_and_add((int*)next, 1); if (j >= njobs) break; if (*stopFlag) { fprintf(o, "{\"job\":%d,\"skipped\":true}\n", j); continue; } runJob(j, o); if (!viols.empty() && optMaxViol == 1) *stopFlag = 1; }
      // functions executed
      fprintf(o, "{\"functions\":{"); bool first = true;
      for (auto& p : fnMap) if (p.second->calls && p.second->decoded) { fprintf(o, "%s\"%s\":[%llu,%llu]", first ? "" : ",", jesc(p.second->name).c_str(), (unsigned long long)p.second->calls, (unsigned long long)p.second->symb); first = false; }
      fprintf(o, "}}\n"); fclose(o); _exit(0);
    }
    pids.push_back(p);
  }
  int bad = 0;
  for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
  FILE* o = fopen((optOut + ".done").c_str(), "w"); fprintf(o, "{\"njobs\":%d,\"workers\":%d,\"bad\":%d}\n", njobs, W, bad); fclose(o);
  return bad ? 4 : 0;
}
