// LLVM IR -> Prog
#include "ir.h"
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>

using namespace llvm;
typedef ::Function PFunction;

static bool isSyncInst(const Instruction &I, bool fine) {
  if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) return true;
  if (auto *L = dyn_cast<LoadInst>(&I)) return L->isAtomic();
  if (auto *S = dyn_cast<StoreInst>(&I)) {
    if (S->isAtomic()) return true;
    if (fine) return !isa<AllocaInst>(getUnderlyingObject(S->getPointerOperand()));
  }
  if (fine && isa<MemIntrinsic>(I)) return !isa<AllocaInst>(getUnderlyingObject(cast<MemIntrinsic>(I).getDest()));
  return false;
}

namespace {
struct Leaf { unsigned bits; uint64_t off; };

struct Translator {
  Module &M;
  const DataLayout &DL;
  Prog &P;
  std::string prefix;
  bool fine;
  std::map<const GlobalValue *, uint64_t> gaddr;
  std::map<const llvm::Function *, int> fidx;
  std::map<const Constant *, std::vector<int32_t>> constIdx;
  std::map<std::pair<uint64_t, Expr *>, int32_t> valIdx;
  std::map<std::string, int> scopeIdx;
  unsigned undefN = 0;
  Translator(Module &M, Prog &P) : M(M), DL(M.getDataLayout()), P(P) {}

  [[noreturn]] void die(const std::string &s) { throw std::runtime_error(s); }
  std::string str(const Value *v) {
    std::string s;
    raw_string_ostream o(s);
    v->print(o);
    return o.str();
  }
  static std::string tstr(Type *t) {
    std::string s;
    raw_string_ostream o(s);
    t->print(o);
    return o.str();
  }

  void flatten(Type *T, uint64_t off, std::vector<Leaf> &out) {
    if (T->isVoidTy() || T->isMetadataTy() || T->isLabelTy() || T->isTokenTy()) return;
    if (auto *I = dyn_cast<IntegerType>(T)) {
      if (I->getBitWidth() > 128) die("integer too wide " + tstr(T));
      out.push_back({I->getBitWidth(), off});
      return;
    }
    if (T->isPointerTy()) { out.push_back({64, off}); return; }
    if (T->isDoubleTy()) { out.push_back({64, off}); return; }
    if (T->isFloatTy()) { out.push_back({32, off}); return; }
    if (auto *S = dyn_cast<StructType>(T)) {
      auto *L = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++) flatten(S->getElementType(i), off + L->getElementOffset(i), out);
      return;
    }
    if (auto *A = dyn_cast<ArrayType>(T)) {
      uint64_t sz = DL.getTypeAllocSize(A->getElementType());
      for (uint64_t i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), off + i * sz, out);
      return;
    }
    if (auto *V = dyn_cast<FixedVectorType>(T)) {
      uint64_t sz = DL.getTypeStoreSize(V->getElementType());
      for (unsigned i = 0; i < V->getNumElements(); i++) flatten(V->getElementType(), off + i * sz, out);
      return;
    }
    die("unsupported type " + tstr(T));
  }
  std::vector<Leaf> leaves(Type *T) {
    std::vector<Leaf> v;
    flatten(T, 0, v);
    return v;
  }

  int32_t constVal(Val v) {
    auto key = std::make_pair(v.c, v.e);
    auto it = valIdx.find(key);
    if (it != valIdx.end()) return ~it->second;
    P.consts.push_back(v);
    int32_t i = P.consts.size() - 1;
    valIdx[key] = i;
    return ~i;
  }
  int32_t cint(uint64_t v) { return constVal({v, nullptr}); }

  Val wideOrNarrow(const APInt &A) {
    unsigned w = A.getBitWidth();
    if (w <= 64) return {A.getZExtValue(), nullptr};
    u128 v = A.extractBitsAsZExtValue(64, 0);
    v |= (u128)A.extractBitsAsZExtValue(w - 64, 64) << 64;
    return {0, mkConst(v, w)};
  }

  uint64_t constAddr(const Constant *C) {
    std::vector<Val> v;
    evalConst(C, v);
    if (v.size() != 1 || v[0].e) die("constant not concrete: " + str(C));
    return v[0].c;
  }

  void evalConst(const Constant *C, std::vector<Val> &out) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) { out.push_back(wideOrNarrow(CI->getValue())); return; }
    if (auto *CF = dyn_cast<ConstantFP>(C)) { out.push_back({CF->getValueAPF().bitcastToAPInt().getZExtValue(), nullptr}); return; }
    if (isa<ConstantPointerNull>(C)) { out.push_back({0, nullptr}); return; }
    if (isa<UndefValue>(C)) {
      for (auto &l : leaves(C->getType())) {
        Expr *e = mkVar("undef." + std::to_string(undefN++), l.bits, true);
        out.push_back({0, e});
      }
      return;
    }
    if (isa<ConstantAggregateZero>(C)) {
      for (auto &l : leaves(C->getType())) out.push_back(l.bits > 64 ? Val{0, mkConst(0, l.bits)} : Val{0, nullptr});
      return;
    }
    if (auto *A = dyn_cast<ConstantAggregate>(C)) {
      for (unsigned i = 0; i < A->getNumOperands(); i++) evalConst(cast<Constant>(A->getOperand(i)), out);
      return;
    }
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
      for (unsigned i = 0; i < D->getNumElements(); i++) evalConst(D->getElementAsConstant(i), out);
      return;
    }
    if (auto *GA = dyn_cast<GlobalAlias>(C)) { evalConst(GA->getAliasee(), out); return; }
    if (auto *G = dyn_cast<GlobalValue>(C)) { out.push_back({gaddr.at(G), nullptr}); return; }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (CE->getOpcode() == Instruction::GetElementPtr) {
        auto *GO = cast<GEPOperator>(CE);
        APInt off(64, 0);
        if (!GO->accumulateConstantOffset(DL, off)) die("constant gep " + str(C));
        out.push_back({constAddr(cast<Constant>(GO->getPointerOperand())) + off.getZExtValue(), nullptr});
        return;
      }
      unsigned w = DL.getTypeSizeInBits(CE->getType());
      if (CE->isCast()) {
        uint64_t v = constAddr(CE->getOperand(0));
        if (CE->getOpcode() == Instruction::SExt) v = sx64(v, CE->getOperand(0)->getType()->getIntegerBitWidth());
        out.push_back({v & mask64(w), nullptr});
        return;
      }
      uint64_t a = constAddr(CE->getOperand(0)), b = constAddr(CE->getOperand(1));
      unsigned ow = DL.getTypeSizeInBits(CE->getOperand(0)->getType());
      switch (CE->getOpcode()) {
        case Instruction::Add: out.push_back({(a + b) & mask64(w), nullptr}); return;
        case Instruction::Sub: out.push_back({(a - b) & mask64(w), nullptr}); return;
        case Instruction::Mul: out.push_back({(a * b) & mask64(w), nullptr}); return;
        case Instruction::And: out.push_back({a & b, nullptr}); return;
        case Instruction::Or: out.push_back({a | b, nullptr}); return;
        case Instruction::Xor: out.push_back({a ^ b, nullptr}); return;
        case Instruction::Shl: out.push_back({(a << b) & mask64(w), nullptr}); return;
        case Instruction::LShr: out.push_back({a >> b, nullptr}); return;
        case Instruction::ICmp:
          switch ((CmpInst::Predicate)CE->getPredicate()) {
            case CmpInst::ICMP_EQ: out.push_back({a == b, nullptr}); return;
            case CmpInst::ICMP_NE: out.push_back({a != b, nullptr}); return;
            case CmpInst::ICMP_ULT: out.push_back({a < b, nullptr}); return;
            case CmpInst::ICMP_UGT: out.push_back({a > b, nullptr}); return;
            case CmpInst::ICMP_SLT: out.push_back({sx64(a, ow) < sx64(b, ow), nullptr}); return;
            default: break;
          }
      }
    }
    die("unsupported constant " + str(C));
  }

  const std::vector<int32_t> &constOps(const Constant *C) {
    auto it = constIdx.find(C);
    if (it != constIdx.end()) return it->second;
    std::vector<Val> v;
    evalConst(C, v);
    std::vector<int32_t> r;
    for (auto &x : v) r.push_back(constVal(x));
    return constIdx[C] = r;
  }

  // ---- globals
  void writeInit(const Constant *C, uint64_t off, std::vector<uint8_t> &b) {
    Type *T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
      StringRef r = D->getRawDataValues();
      memcpy(&b[off], r.data(), r.size());
      return;
    }
    if (auto *S = dyn_cast<ConstantStruct>(C)) {
      auto *L = DL.getStructLayout(S->getType());
      for (unsigned i = 0; i < S->getNumOperands(); i++) writeInit(S->getOperand(i), off + L->getElementOffset(i), b);
      return;
    }
    if (auto *A = dyn_cast<ConstantArray>(C)) {
      uint64_t sz = DL.getTypeAllocSize(A->getType()->getElementType());
      for (unsigned i = 0; i < A->getNumOperands(); i++) writeInit(A->getOperand(i), off + i * sz, b);
      return;
    }
    if (auto *A = dyn_cast<ConstantVector>(C)) {
      uint64_t sz = DL.getTypeStoreSize(A->getType()->getElementType());
      for (unsigned i = 0; i < A->getNumOperands(); i++) writeInit(A->getOperand(i), off + i * sz, b);
      return;
    }
    std::vector<Val> v;
    evalConst(C, v);
    u128 val = v[0].e ? v[0].e->val : v[0].c;
    memcpy(&b[off], &val, std::min<uint64_t>(16, DL.getTypeStoreSize(T)));
  }

  void globals() {
    uint64_t slot = 1;
    for (auto &G : M.globals()) {
      ::Global g;
      g.name = G.getName().str();
      if (G.hasAppendingLinkage() && G.getName().starts_with("llvm.")) continue;
      g.size = G.isDeclaration() ? 256 : (uint64_t)DL.getTypeAllocSize(G.getValueType());
      g.isConst = G.isConstant();
      g.isTLS = G.isThreadLocal();
      g.isExtern = G.isDeclaration();
      g.addr = mkAddr(slot, 0);
      uint64_t n = ((g.size + 64) >> OFF_BITS) + 1;
      slot += n;
      if (slot > SLOT_MASK / 2) die("too many globals");
      gaddr[&G] = g.addr;
      P.globalByName[g.name] = P.globals.size();
      P.globalByAddr[g.addr] = P.globals.size();
      P.globals.push_back(g);
    }
    uint64_t fa = 0x10000000;
    for (auto &F : M) {
      int i = P.funcs.size();
      P.funcs.emplace_back();
      PFunction &f = P.funcs.back();
      f.name = F.getName().str();
      f.pretty = demangle(f.name);
      f.addr = fa;
      fa += 64;
      fidx[&F] = i;
      gaddr[&F] = f.addr;
      P.funcByName[f.name] = i;
      P.funcByAddr[f.addr] = i;
    }
    for (auto &G : M.globals()) {
      if (!gaddr.count(&G) || G.isDeclaration()) continue;
      ::Global &g = P.globals[P.globalByName[G.getName().str()]];
      g.init.assign(g.size, 0);
      if (G.hasInitializer()) writeInit(G.getInitializer(), 0, g.init);
    }
    if (auto *C = M.getGlobalVariable("llvm.global_ctors")) {
      if (auto *A = dyn_cast<ConstantArray>(C->getInitializer())) {
        std::vector<std::pair<uint64_t, int>> v;
        for (auto &op : A->operands()) {
          auto *S = cast<ConstantStruct>(op);
          if (auto *F = dyn_cast<llvm::Function>(S->getOperand(1)))
            v.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), fidx[F]});
        }
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &x : v) P.ctors.push_back(x.second);
      }
    }
  }

  // ---- functions
  struct FnCtx {
    PFunction *f;
    std::map<const Value *, int32_t> slot;
    std::map<const BasicBlock *, int32_t> bbpc;
    std::vector<std::pair<int, std::pair<const BasicBlock *, const BasicBlock *>>> pendingEdges;
    int32_t loc = 0;
    std::set<int> scopes;
  };
  FnCtx *cx = nullptr;
  std::map<std::pair<std::string, int>, int> locIdx;

  int scopeOf(const DISubprogram *SP) {
    std::string file = (SP->getDirectory() + "/" + SP->getFilename()).str();
    if (SP->getFilename().starts_with("/")) file = SP->getFilename().str();
    if (file.compare(0, prefix.size(), prefix) != 0) return -1;
    std::string n = SP->getLinkageName().empty() ? SP->getName().str() : demangle(SP->getLinkageName().str());
    n = file.substr(prefix.size()) + ":" + std::to_string(SP->getLine()) + " " + SP->getName().str();
    auto it = scopeIdx.find(n);
    if (it != scopeIdx.end()) return it->second;
    P.scopes.push_back(n);
    return scopeIdx[n] = P.scopes.size() - 1;
  }

  int32_t locOf(const Instruction &I) {
    const DebugLoc &D = I.getDebugLoc();
    if (!D) return cx->loc;
    auto *L = D.get();
    std::string file = L->getFilename().str();
    if (!L->getFilename().starts_with("/")) file = (L->getDirectory() + "/" + L->getFilename()).str();
    for (const DILocation *q = L; q; q = q->getInlinedAt())
      if (auto *SP = q->getScope()->getSubprogram()) {
        int s = scopeOf(SP);
        if (s >= 0) cx->scopes.insert(s);
      }
    // report the innermost frame inside the repository when there is one
    const DILocation *best = L;
    for (const DILocation *q = L; q; q = q->getInlinedAt()) {
      std::string fn = q->getFilename().str();
      if (fn.compare(0, prefix.size(), prefix) == 0) { best = q; file = fn; break; }
    }
    auto key = std::make_pair(file, (int)best->getLine());
    auto it = locIdx.find(key);
    if (it != locIdx.end()) return it->second;
    P.locs.push_back({file, (int)best->getLine()});
    return locIdx[key] = P.locs.size() - 1;
  }

  int32_t slotOf(const Value *V) {
    auto it = cx->slot.find(V);
    if (it != cx->slot.end()) return it->second;
    int32_t s = cx->f->nregs;
    cx->f->nregs += leaves(V->getType()).size();
    cx->slot[V] = s;
    return s;
  }
  std::vector<int32_t> ops(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constOps(C);
    std::vector<int32_t> r;
    size_t n = leaves(V->getType()).size();
    int32_t s = slotOf(V);
    for (size_t i = 0; i < n; i++) r.push_back(s + i);
    return r;
  }
  int32_t op1(const Value *V) {
    auto v = ops(V);
    if (v.size() != 1) die("scalar expected: " + str(V));
    return v[0];
  }
  int32_t temp(int n = 1) { int32_t s = cx->f->nregs; cx->f->nregs += n; return s; }
  Inst &emit(Op o) {
    cx->f->code.emplace_back();
    Inst &I = cx->f->code.back();
    I.op = o;
    I.loc = cx->loc;
    return I;
  }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    P.edges.emplace_back();
    cx->pendingEdges.push_back({(int)P.edges.size() - 1, {from, to}});
    return P.edges.size() - 1;
  }
  unsigned bits(Type *T) {
    auto l = leaves(T);
    if (l.empty()) return 0;
    return l[0].bits;
  }
  // address + constant -> operand
  int32_t addOff(int32_t base, uint64_t off) {
    if (!off) return base;
    if (base < 0) return cint(P.consts[~base].c + off);
    int32_t d = temp();
    Inst &I = emit(OP_OFFSET);
    I.dst = d; I.a = base; I.b = cint(off); I.w = 64;
    return d;
  }

  void unsupported(const std::string &s) {
    P.unsupported.push_back(s);
    Inst &I = emit(OP_UNREACHABLE);
    I.x = P.unsupported.size();  // >0: unsupported construct
  }

  void doIntrinsic(const IntrinsicInst &I) {
    auto id = I.getIntrinsicID();
    auto lane1 = [&](Op o, unsigned w2 = 0) {
      auto l = leaves(I.getType());
      auto a = ops(I.getArgOperand(0));
      int32_t d = slotOf(&I);
      for (size_t i = 0; i < l.size(); i++) {
        Inst &n = emit(o);
        n.w = l[i].bits; n.w2 = w2; n.dst = d + i; n.a = a[i];
      }
    };
    auto lane2 = [&](Op o) {
      auto l = leaves(I.getType());
      auto a = ops(I.getArgOperand(0)), b = ops(I.getArgOperand(1));
      int32_t d = slotOf(&I);
      for (size_t i = 0; i < l.size(); i++) {
        Inst &n = emit(o);
        n.w = l[i].bits; n.dst = d + i; n.a = a[i]; n.b = b[i];
      }
    };
    auto ovf = [&](Op o) {
      auto l = leaves(I.getType());
      if (l.size() != 2) die("vector overflow intrinsic");
      Inst &n = emit(o);
      n.w = l[0].bits; n.dst = slotOf(&I); n.a = op1(I.getArgOperand(0)); n.b = op1(I.getArgOperand(1));
    };
    switch (id) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::prefetch:
      case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end:
      case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::x86_sse2_pause:
      case Intrinsic::dbg_assign: case Intrinsic::vastart: case Intrinsic::vaend:
        if (id == Intrinsic::x86_sse2_pause) { doCallNamed(I, "vp_pause"); return; }
        return;
      case Intrinsic::invariant_start: case Intrinsic::stacksave: {
        Inst &n = emit(OP_COPY); n.dst = slotOf(&I); n.a = cint(0); n.w = 64; return;
      }
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
      case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
        { auto a = ops(I.getArgOperand(0)); int32_t d = slotOf(&I); auto l = leaves(I.getType());
          for (size_t i = 0; i < a.size(); i++) { Inst &n = emit(OP_COPY); n.dst = d + i; n.a = a[i]; n.w = l[i].bits; } return; }
      case Intrinsic::ctpop: lane1(OP_CTPOP); return;
      case Intrinsic::ctlz: lane1(OP_CTLZ); return;
      case Intrinsic::cttz: lane1(OP_CTTZ); return;
      case Intrinsic::bswap: lane1(OP_BSWAP); return;
      case Intrinsic::bitreverse: lane1(OP_BITREV); return;
      case Intrinsic::abs: lane1(OP_ABS); return;
      case Intrinsic::umin: lane2(OP_UMIN); return;
      case Intrinsic::umax: lane2(OP_UMAX); return;
      case Intrinsic::smin: lane2(OP_SMIN); return;
      case Intrinsic::smax: lane2(OP_SMAX); return;
      case Intrinsic::uadd_sat: lane2(OP_UADDSAT); return;
      case Intrinsic::usub_sat: lane2(OP_USUBSAT); return;
      case Intrinsic::uadd_with_overflow: ovf(OP_UADDO); return;
      case Intrinsic::usub_with_overflow: ovf(OP_USUBO); return;
      case Intrinsic::umul_with_overflow: ovf(OP_UMULO); return;
      case Intrinsic::sadd_with_overflow: ovf(OP_SADDO); return;
      case Intrinsic::ssub_with_overflow: ovf(OP_SSUBO); return;
      case Intrinsic::smul_with_overflow: ovf(OP_SMULO); return;
      case Intrinsic::fshl: case Intrinsic::fshr: {
        auto l = leaves(I.getType());
        auto a = ops(I.getArgOperand(0)), b = ops(I.getArgOperand(1)), c = ops(I.getArgOperand(2));
        int32_t d = slotOf(&I);
        for (size_t i = 0; i < l.size(); i++) {
          Inst &n = emit(id == Intrinsic::fshl ? OP_FSHL : OP_FSHR);
          n.w = l[i].bits; n.dst = d + i; n.a = a[i]; n.b = b[i]; n.c = c[i];
        }
        return;
      }
      case Intrinsic::objectsize: { Inst &n = emit(OP_COPY); n.dst = slotOf(&I); n.a = cint(~0ull & mask64(bits(I.getType()))); n.w = 64; return; }
      case Intrinsic::is_constant: { Inst &n = emit(OP_COPY); n.dst = slotOf(&I); n.a = cint(0); n.w = 1; return; }
      case Intrinsic::threadlocal_address: {
        Inst &n = emit(OP_TLSADDR); n.dst = slotOf(&I); n.a = op1(I.getArgOperand(0)); n.w = 64; return;
      }
      case Intrinsic::eh_typeid_for: {
        Inst &n = emit(OP_COPY); n.dst = slotOf(&I);
        n.a = cint((uint32_t)(addrSlot(constAddr(cast<Constant>(I.getArgOperand(0)))))); n.w = 32; return;
      }
      case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: { Inst &n = emit(OP_UNREACHABLE); n.x = 0; return; }
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doCallNamed(I, "memmove"); return;
      case Intrinsic::memset: case Intrinsic::memset_inline: doCallNamed(I, "memset"); return;
      case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::pow:
      case Intrinsic::log: case Intrinsic::exp: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint:
      case Intrinsic::fmuladd: case Intrinsic::fma: case Intrinsic::log2: case Intrinsic::maxnum: case Intrinsic::minnum:
      case Intrinsic::powi: case Intrinsic::exp2: case Intrinsic::log10: case Intrinsic::copysign: {
        auto l = leaves(I.getType());
        if (l.size() != 1) break;
        Inst &n = emit(OP_FMATH);
        n.w = l[0].bits; n.dst = slotOf(&I); n.a = op1(I.getArgOperand(0));
        n.b = I.arg_size() > 1 ? op1(I.getArgOperand(1)) : cint(0);
        n.c = I.arg_size() > 2 ? op1(I.getArgOperand(2)) : cint(0);
        switch (id) {
          case Intrinsic::fabs: n.x = 0; break; case Intrinsic::floor: n.x = 1; break; case Intrinsic::ceil: n.x = 2; break;
          case Intrinsic::sqrt: n.x = 3; break; case Intrinsic::pow: n.x = 4; break; case Intrinsic::log: n.x = 5; break;
          case Intrinsic::exp: n.x = 6; break; case Intrinsic::trunc: n.x = 7; break; case Intrinsic::round: n.x = 8; break;
          case Intrinsic::rint: n.x = 9; break; case Intrinsic::fmuladd: n.x = 10; break; case Intrinsic::fma: n.x = 11; break;
          case Intrinsic::log2: n.x = 12; break; case Intrinsic::maxnum: n.x = 13; break; case Intrinsic::minnum: n.x = 14; break;
          case Intrinsic::powi: n.x = 15; break; case Intrinsic::exp2: n.x = 16; break; case Intrinsic::log10: n.x = 17; break;
          default: n.x = 18; break;
        }
        return;
      }
      case Intrinsic::fptosi_sat: lane1(OP_F2SISAT, bits(I.getArgOperand(0)->getType())); return;
      case Intrinsic::fptoui_sat: lane1(OP_F2UISAT, bits(I.getArgOperand(0)->getType())); return;
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and:
      case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin:
      case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
        auto a = ops(I.getArgOperand(0));
        Op o = id == Intrinsic::vector_reduce_add ? OP_ADD : id == Intrinsic::vector_reduce_or ? OP_OR
             : id == Intrinsic::vector_reduce_and ? OP_AND : id == Intrinsic::vector_reduce_xor ? OP_XOR
             : id == Intrinsic::vector_reduce_umax ? OP_UMAX : id == Intrinsic::vector_reduce_umin ? OP_UMIN
             : id == Intrinsic::vector_reduce_smax ? OP_SMAX : OP_SMIN;
        int32_t d = slotOf(&I);
        unsigned w = bits(I.getType());
        { Inst &n = emit(OP_COPY); n.dst = d; n.a = a[0]; n.w = w; }
        for (size_t i = 1; i < a.size(); i++) { Inst &n = emit(o); n.w = w; n.dst = d; n.a = d; n.b = a[i]; }
        return;
      }
      case Intrinsic::x86_sse2_pmovmskb_128: {
        auto a = ops(I.getArgOperand(0));
        int32_t d = slotOf(&I);
        { Inst &n = emit(OP_COPY); n.dst = d; n.a = cint(0); n.w = 32; }
        for (unsigned i = 0; i < 16; i++) {
          int32_t t = temp(3);
          { Inst &n = emit(OP_LSHR); n.w = 8; n.dst = t; n.a = a[i]; n.b = cint(7); }
          { Inst &n = emit(OP_ZEXT); n.w = 8; n.w2 = 32; n.dst = t + 1; n.a = t; }
          { Inst &n = emit(OP_SHL); n.w = 32; n.dst = t + 2; n.a = t + 1; n.b = cint(i); }
          { Inst &n = emit(OP_OR); n.w = 32; n.dst = d; n.a = d; n.b = t + 2; }
        }
        return;
      }
      default: break;
    }
    unsupported("intrinsic " + I.getCalledFunction()->getName().str());
  }

  int namedFunc(const std::string &n) {
    auto it = P.funcByName.find(n);
    if (it != P.funcByName.end()) return it->second;
    // appended after the module's own functions; vector may reallocate, so
    // refresh the current function pointer
    int cur = cx ? cx->f - &P.funcs[0] : -1;
    P.funcs.emplace_back();
    PFunction &f = P.funcs.back();
    f.name = f.pretty = n;
    f.addr = 0x10000000 + 64 * (P.funcs.size() + 100000);
    P.funcByName[n] = P.funcs.size() - 1;
    P.funcByAddr[f.addr] = P.funcs.size() - 1;
    if (cur >= 0) cx->f = &P.funcs[cur];
    return P.funcs.size() - 1;
  }

  void doCallNamed(const CallBase &CB, const std::string &name) {
    P.calls.emplace_back();
    int ci = P.calls.size() - 1;
    int callee = namedFunc(name);
    P.calls[ci].callee = callee;
    for (unsigned i = 0; i < CB.arg_size(); i++) {
      auto o = ops(CB.getArgOperand(i));
      auto l = leaves(CB.getArgOperand(i)->getType());
      for (size_t k = 0; k < o.size(); k++) { P.calls[ci].args.push_back(o[k]); P.calls[ci].widths.push_back(l[k].bits); }
    }
    auto l = leaves(CB.getType());
    P.calls[ci].dst = l.empty() ? -1 : slotOf(&CB);
    P.calls[ci].nret = l.size();
    for (auto &x : l) P.calls[ci].retw.push_back(x.bits);
    Inst &n = emit(OP_CALL);
    n.x = ci;
    if (isSyncInst(CB, fine)) n.flags |= IF_SYNC;
  }

  void doCall(const CallBase &CB) {
    if (CB.isInlineAsm()) {
      auto *IA = cast<InlineAsm>(CB.getCalledOperand());
      std::string s = IA->getAsmString();
      if (s.empty()) return;  // compiler barrier
      if (s == "pause" || s == "rep; nop" || s == "pause;" ) { doCallNamed(CB, "vp_pause"); return; }
      unsupported("inline asm " + s);
      return;
    }
    P.calls.emplace_back();
    int ci = P.calls.size() - 1;
    const Value *cv = CB.getCalledOperand()->stripPointerCasts();
    if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
    if (auto *F = dyn_cast<llvm::Function>(cv)) P.calls[ci].callee = fidx[F];
    else P.calls[ci].target = op1(cv);
    for (unsigned i = 0; i < CB.arg_size(); i++) {
      if (CB.getArgOperand(i)->getType()->isMetadataTy()) continue;
      auto o = ops(CB.getArgOperand(i));
      auto l = leaves(CB.getArgOperand(i)->getType());
      if (CB.isByValArgument(i)) {
        uint64_t sz = DL.getTypeAllocSize(CB.getParamByValType(i));
        int32_t t = temp();
        Inst &n = emit(OP_ALLOCA); n.dst = t; n.a = cint(1); n.x = sz; n.w2 = 16;
        P.calls.emplace_back();
        int mi = P.calls.size() - 1;
        int mc = namedFunc("memmove");
        P.calls[mi].callee = mc;
        P.calls[mi].args = {t, o[0], cint(sz)};
        P.calls[mi].widths = {64, 64, 64};
        Inst &m = emit(OP_CALL); m.x = mi;
        o[0] = t;
      }
      for (size_t k = 0; k < o.size(); k++) { P.calls[ci].args.push_back(o[k]); P.calls[ci].widths.push_back(l[k].bits); }
    }
    auto l = leaves(CB.getType());
    P.calls[ci].dst = l.empty() ? -1 : slotOf(&CB);
    P.calls[ci].nret = l.size();
    for (auto &x : l) P.calls[ci].retw.push_back(x.bits);
    if (auto *II = dyn_cast<InvokeInst>(&CB)) {
      int e1 = edge(II->getParent(), II->getNormalDest()), e2 = edge(II->getParent(), II->getUnwindDest());
      P.calls[ci].normal = e1;
      P.calls[ci].unwind = e2;
    }
    Inst &n = emit(OP_CALL);
    n.x = ci;
  }

  void doInst(const Instruction &I) {
    cx->loc = locOf(I);
    if (auto *II = dyn_cast<IntrinsicInst>(&I)) { doIntrinsic(*II); return; }
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      Op o;
      switch (BO->getOpcode()) {
        case Instruction::Add: o = OP_ADD; break; case Instruction::Sub: o = OP_SUB; break;
        case Instruction::Mul: o = OP_MUL; break; case Instruction::UDiv: o = OP_UDIV; break;
        case Instruction::SDiv: o = OP_SDIV; break; case Instruction::URem: o = OP_UREM; break;
        case Instruction::SRem: o = OP_SREM; break; case Instruction::Shl: o = OP_SHL; break;
        case Instruction::LShr: o = OP_LSHR; break; case Instruction::AShr: o = OP_ASHR; break;
        case Instruction::And: o = OP_AND; break; case Instruction::Or: o = OP_OR; break;
        case Instruction::Xor: o = OP_XOR; break; case Instruction::FAdd: o = OP_FADD; break;
        case Instruction::FSub: o = OP_FSUB; break; case Instruction::FMul: o = OP_FMUL; break;
        case Instruction::FDiv: o = OP_FDIV; break; case Instruction::FRem: o = OP_FREM; break;
        default: die("binop");
      }
      auto l = leaves(I.getType());
      auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1));
      int32_t d = slotOf(&I);
      for (size_t i = 0; i < l.size(); i++) { Inst &n = emit(o); n.w = l[i].bits; n.dst = d + i; n.a = a[i]; n.b = b[i]; }
      return;
    }
    if (auto *UO = dyn_cast<UnaryOperator>(&I)) {
      auto l = leaves(I.getType());
      auto a = ops(UO->getOperand(0));
      int32_t d = slotOf(&I);
      for (size_t i = 0; i < l.size(); i++) { Inst &n = emit(OP_FNEG); n.w = l[i].bits; n.dst = d + i; n.a = a[i]; }
      return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(&I)) {
      Op o;
      switch (IC->getPredicate()) {
        case CmpInst::ICMP_EQ: o = OP_EQ; break; case CmpInst::ICMP_NE: o = OP_NE; break;
        case CmpInst::ICMP_ULT: o = OP_ULT; break; case CmpInst::ICMP_ULE: o = OP_ULE; break;
        case CmpInst::ICMP_UGT: o = OP_UGT; break; case CmpInst::ICMP_UGE: o = OP_UGE; break;
        case CmpInst::ICMP_SLT: o = OP_SLT; break; case CmpInst::ICMP_SLE: o = OP_SLE; break;
        case CmpInst::ICMP_SGT: o = OP_SGT; break; case CmpInst::ICMP_SGE: o = OP_SGE; break;
        default: die("icmp");
      }
      auto l = leaves(I.getOperand(0)->getType());
      auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1));
      int32_t d = slotOf(&I);
      for (size_t i = 0; i < l.size(); i++) { Inst &n = emit(o); n.w = l[i].bits; n.dst = d + i; n.a = a[i]; n.b = b[i]; }
      return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(&I)) {
      auto l = leaves(I.getOperand(0)->getType());
      auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1));
      int32_t d = slotOf(&I);
      for (size_t i = 0; i < l.size(); i++) { Inst &n = emit(OP_FCMP); n.w = l[i].bits; n.w2 = FC->getPredicate(); n.dst = d + i; n.a = a[i]; n.b = b[i]; }
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(&I)) {
      auto ls = leaves(CI->getSrcTy()), ld = leaves(CI->getDestTy());
      auto a = ops(I.getOperand(0));
      int32_t d = slotOf(&I);
      Op o;
      switch (CI->getOpcode()) {
        case Instruction::Trunc: o = OP_TRUNC; break; case Instruction::ZExt: o = OP_ZEXT; break;
        case Instruction::SExt: o = OP_SEXT; break; case Instruction::FPTrunc: o = OP_FPTRUNC; break;
        case Instruction::FPExt: o = OP_FPEXT; break; case Instruction::UIToFP: o = OP_UI2F; break;
        case Instruction::SIToFP: o = OP_SI2F; break; case Instruction::FPToUI: o = OP_F2UI; break;
        case Instruction::FPToSI: o = OP_F2SI; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: o = ld[0].bits < ls[0].bits ? OP_TRUNC : OP_ZEXT; break;
        case Instruction::BitCast: case Instruction::AddrSpaceCast:
          if (ls.size() == ld.size()) o = OP_COPY;
          else {
            // through a stack temporary
            int32_t t = temp();
            Inst &al = emit(OP_ALLOCA); al.dst = t; al.a = cint(1); al.x = DL.getTypeAllocSize(CI->getSrcTy()); al.w2 = 16;
            if (ls[0].bits % 8 || ld[0].bits % 8) {
              // <N x i1> -> iN
              if (ls.size() > 1 && ls[0].bits == 1 && ld.size() == 1) {
                { Inst &n = emit(OP_COPY); n.dst = d; n.a = cint(0); n.w = ld[0].bits; }
                for (size_t i = 0; i < ls.size(); i++) {
                  int32_t q = temp(2);
                  { Inst &n = emit(OP_ZEXT); n.w = 1; n.w2 = ld[0].bits; n.dst = q; n.a = a[i]; }
                  { Inst &n = emit(OP_SHL); n.w = ld[0].bits; n.dst = q + 1; n.a = q; n.b = cint(i); }
                  { Inst &n = emit(OP_OR); n.w = ld[0].bits; n.dst = d; n.a = d; n.b = q + 1; }
                }
                return;
              }
              unsupported("bitcast " + str(&I));
              return;
            }
            for (size_t i = 0; i < ls.size(); i++) {
              int32_t ad = addOff(t, ls[i].off);
              Inst &n = emit(OP_STORE); n.w = ls[i].bits; n.a = a[i]; n.b = ad;
            }
            for (size_t i = 0; i < ld.size(); i++) {
              int32_t ad = addOff(t, ld[i].off);
              Inst &n = emit(OP_LOAD); n.w = ld[i].bits; n.a = ad; n.dst = d + i;
            }
            return;
          }
          break;
        default: die("cast");
      }
      for (size_t i = 0; i < ld.size(); i++) { Inst &n = emit(o); n.w = ls[i].bits; n.w2 = ld[i].bits; n.dst = d + i; n.a = a[i]; }
      return;
    }
    if (auto *S = dyn_cast<SelectInst>(&I)) {
      auto l = leaves(I.getType());
      auto c = ops(S->getCondition()), a = ops(S->getTrueValue()), b = ops(S->getFalseValue());
      int32_t d = slotOf(&I);
      // explored as a branch outside harness code: the compiler folds short
      // branches of the code under test into selects
      bool fork = c.size() == 1;
      if (auto &DL = I.getDebugLoc()) if (DL.getLine() && DL->getFilename().contains("harness/") && !I.getType()->isPointerTy()) fork = false;
      for (size_t i = 0; i < l.size(); i++) {
        Inst &n = emit(OP_SELECT); if (fork) n.flags |= IF_FORKSEL; n.w = l[i].bits; n.dst = d + i; n.a = c.size() == 1 ? c[0] : c[i]; n.b = a[i]; n.c = b[i];
      }
      return;
    }
    if (isa<FreezeInst>(I)) {
      auto l = leaves(I.getType());
      auto a = ops(I.getOperand(0));
      int32_t d = slotOf(&I);
      for (size_t i = 0; i < l.size(); i++) { Inst &n = emit(OP_FREEZE); n.w = l[i].bits; n.dst = d + i; n.a = a[i]; }
      return;
    }
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
      int32_t n0 = op1(A->getArraySize());
      Inst &n = emit(OP_ALLOCA);
      n.dst = slotOf(&I); n.a = n0; n.x = DL.getTypeAllocSize(A->getAllocatedType()); n.w2 = std::min<uint64_t>(128, A->getAlign().value());
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      auto l = leaves(I.getType());
      int32_t p = op1(L->getPointerOperand());
      int32_t d = slotOf(&I);
      bool sync = isSyncInst(I, fine);
      if (I.getType()->isVectorTy() && l[0].bits % 8) { unsupported("load " + str(&I)); return; }
      for (size_t i = 0; i < l.size(); i++) {
        int32_t ad = addOff(p, l[i].off);
        Inst &n = emit(OP_LOAD); n.w = l[i].bits; n.dst = d + i; n.a = ad;
        if (L->isAtomic()) n.flags |= IF_ATOMIC;
        if (sync && i == 0) n.flags |= IF_SYNC;
      }
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      Type *T = S->getValueOperand()->getType();
      auto l = leaves(T);
      auto v = ops(S->getValueOperand());
      int32_t p = op1(S->getPointerOperand());
      bool sync = isSyncInst(I, fine);
      if (T->isVectorTy() && l[0].bits % 8) { unsupported("store " + str(&I)); return; }
      for (size_t i = 0; i < l.size(); i++) {
        int32_t ad = addOff(p, l[i].off);
        Inst &n = emit(OP_STORE); n.w = l[i].bits; n.a = v[i]; n.b = ad;
        if (S->isAtomic()) n.flags |= IF_ATOMIC;
        if (sync && i == 0) n.flags |= IF_SYNC;
      }
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      if (G->getType()->isVectorTy()) { unsupported("vector gep"); return; }
      auto *GO = cast<GEPOperator>(G);
      MapVector<Value *, APInt> var;
      APInt off(64, 0);
      if (!GO->collectOffset(DL, 64, var, off)) die("gep " + str(&I));
      int32_t base = op1(G->getPointerOperand());
      int32_t d = slotOf(&I);
      uint64_t k = off.getZExtValue();
      if (var.empty()) {
        Inst &n = emit(OP_OFFSET); n.dst = d; n.a = base; n.b = cint(k); n.w = 64;
        return;
      }
      size_t cnt = 0;
      for (auto &v : var) {
        int32_t idx = op1(v.first);
        uint64_t sc = v.second.getZExtValue();
        if (sc > 0x7fffffff) die("gep scale");
        Inst &n = emit(OP_GEP);
        n.dst = (++cnt == var.size()) ? d : temp();
        Inst &n2 = cx->f->code.back();
        n2.a = base; n2.b = idx; n2.x = (int32_t)sc; n2.w = bits(v.first->getType());
        n2.c = cint(cnt == 1 ? k : 0);
        base = n2.dst;
      }
      return;
    }
    if (isa<PHINode>(I)) return;
    if (auto *B = dyn_cast<BranchInst>(&I)) {
      if (B->isUnconditional()) {
        int e = edge(B->getParent(), B->getSuccessor(0));
        Inst &n = emit(OP_BR); n.x = e;
      } else {
        int32_t c = op1(B->getCondition());
        int e1 = edge(B->getParent(), B->getSuccessor(0)), e2 = edge(B->getParent(), B->getSuccessor(1));
        Inst &n = emit(OP_CBR); n.a = c; n.x = e1; n.b = e2;
      }
      return;
    }
    if (auto *S = dyn_cast<SwitchInst>(&I)) {
      SwitchTab t;
      t.dflt = edge(S->getParent(), S->getDefaultDest());
      for (auto &c : S->cases()) t.cases.push_back({c.getCaseValue()->getZExtValue(), edge(S->getParent(), c.getCaseSuccessor())});
      P.switches.push_back(t);
      int32_t c = op1(S->getCondition());
      Inst &n = emit(OP_SWITCH); n.a = c; n.w = bits(S->getCondition()->getType()); n.x = P.switches.size() - 1;
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(&I)) {
      P.calls.emplace_back();
      int ci = P.calls.size() - 1;
      if (R->getReturnValue()) P.calls[ci].args = ops(R->getReturnValue());
      Inst &n = emit(OP_RET); n.x = ci;
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) { doCall(*CB); return; }
    if (isa<UnreachableInst>(I)) { emit(OP_UNREACHABLE); return; }
    if (auto *L = dyn_cast<LandingPadInst>(&I)) {
      LPad lp;
      lp.cleanup = L->isCleanup();
      for (unsigned i = 0; i < L->getNumClauses(); i++) {
        if (L->isFilter(i)) lp.clauses.push_back({true, 0});
        else lp.clauses.push_back({false, constAddr(L->getClause(i))});
      }
      P.lpads.push_back(lp);
      Inst &n = emit(OP_LANDINGPAD); n.dst = slotOf(&I); n.x = P.lpads.size() - 1;
      return;
    }
    if (auto *R = dyn_cast<ResumeInst>(&I)) {
      auto a = ops(R->getOperand(0));
      Inst &n = emit(OP_RESUME); n.a = a[0];
      return;
    }
    if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
      auto a = ops(EV->getAggregateOperand());
      size_t start = leafIndex(EV->getAggregateOperand()->getType(), EV->getIndices());
      auto l = leaves(I.getType());
      int32_t d = slotOf(&I);
      for (size_t i = 0; i < l.size(); i++) { Inst &n = emit(OP_COPY); n.dst = d + i; n.a = a[start + i]; n.w = l[i].bits; }
      return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
      auto a = ops(IV->getAggregateOperand()), v = ops(IV->getInsertedValueOperand());
      size_t start = leafIndex(IV->getType(), IV->getIndices());
      auto l = leaves(I.getType());
      int32_t d = slotOf(&I);
      for (size_t i = 0; i < l.size(); i++) {
        Inst &n = emit(OP_COPY); n.dst = d + i; n.w = l[i].bits;
        n.a = (i >= start && i < start + v.size()) ? v[i - start] : a[i];
      }
      return;
    }
    if (auto *EE = dyn_cast<ExtractElementInst>(&I)) {
      auto a = ops(EE->getVectorOperand());
      if (auto *C = dyn_cast<ConstantInt>(EE->getIndexOperand())) {
        uint64_t k = C->getZExtValue();
        Inst &n = emit(OP_COPY); n.dst = slotOf(&I); n.a = a[k < a.size() ? k : 0]; n.w = bits(I.getType());
      } else {
        int32_t t = temp(a.size());
        for (size_t i = 0; i < a.size(); i++) { Inst &n = emit(OP_COPY); n.dst = t + i; n.a = a[i]; n.w = bits(I.getType()); }
        int32_t ix = op1(EE->getIndexOperand());
        Inst &n = emit(OP_EXTRACTDYN); n.dst = slotOf(&I); n.a = t; n.b = ix; n.x = a.size(); n.w = bits(I.getType());
      }
      return;
    }
    if (auto *IE = dyn_cast<InsertElementInst>(&I)) {
      auto a = ops(I.getOperand(0));
      int32_t v = op1(I.getOperand(1));
      auto l = leaves(I.getType());
      int32_t d = slotOf(&I);
      if (auto *C = dyn_cast<ConstantInt>(I.getOperand(2))) {
        for (size_t i = 0; i < l.size(); i++) { Inst &n = emit(OP_COPY); n.dst = d + i; n.w = l[i].bits; n.a = i == C->getZExtValue() ? v : a[i]; }
      } else {
        for (size_t i = 0; i < l.size(); i++) { Inst &n = emit(OP_COPY); n.dst = d + i; n.w = l[i].bits; n.a = a[i]; }
        int32_t ix = op1(I.getOperand(2));
        Inst &n = emit(OP_INSERTDYN); n.dst = d; n.a = v; n.b = ix; n.x = l.size(); n.w = l[0].bits;
      }
      return;
    }
    if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
      auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1));
      auto l = leaves(I.getType());
      int32_t d = slotOf(&I);
      for (size_t i = 0; i < l.size(); i++) {
        int m = SV->getMaskValue(i);
        Inst &n = emit(OP_COPY); n.dst = d + i; n.w = l[i].bits;
        n.a = m < 0 ? cint(0) : (size_t)m < a.size() ? a[m] : b[m - a.size()];
      }
      return;
    }
    if (auto *A = dyn_cast<AtomicRMWInst>(&I)) {
      int32_t p = op1(A->getPointerOperand()), v = op1(A->getValOperand());
      Inst &n = emit(OP_RMW);
      n.dst = slotOf(&I); n.a = p; n.b = v; n.w = bits(A->getType()); n.flags = IF_ATOMIC | IF_SYNC;
      Inst &m = cx->f->code.back();
      switch (A->getOperation()) {
        case AtomicRMWInst::Xchg: m.w2 = 0; break; case AtomicRMWInst::Add: m.w2 = 1; break;
        case AtomicRMWInst::Sub: m.w2 = 2; break; case AtomicRMWInst::And: m.w2 = 3; break;
        case AtomicRMWInst::Or: m.w2 = 4; break; case AtomicRMWInst::Xor: m.w2 = 5; break;
        case AtomicRMWInst::Max: m.w2 = 6; break; case AtomicRMWInst::Min: m.w2 = 7; break;
        case AtomicRMWInst::UMax: m.w2 = 8; break; case AtomicRMWInst::UMin: m.w2 = 9; break;
        case AtomicRMWInst::Nand: m.w2 = 10; break;
        default: unsupported("atomicrmw"); break;
      }
      return;
    }
    if (auto *A = dyn_cast<AtomicCmpXchgInst>(&I)) {
      int32_t p = op1(A->getPointerOperand()), c = op1(A->getCompareOperand()), v = op1(A->getNewValOperand());
      Inst &n = emit(OP_CMPXCHG);
      n.dst = slotOf(&I); n.a = p; n.b = c; n.c = v; n.w = bits(A->getCompareOperand()->getType()); n.flags = IF_ATOMIC | IF_SYNC;
      return;
    }
    if (isa<FenceInst>(I)) { emit(OP_FENCE); return; }
    unsupported("instruction " + str(&I));
  }

  size_t leafIndex(Type *T, ArrayRef<unsigned> idx) {
    size_t r = 0;
    for (unsigned i : idx) {
      if (auto *S = dyn_cast<StructType>(T)) {
        for (unsigned k = 0; k < i; k++) r += leaves(S->getElementType(k)).size();
        T = S->getElementType(i);
      } else if (auto *A = dyn_cast<ArrayType>(T)) {
        r += i * leaves(A->getElementType()).size();
        T = A->getElementType();
      } else die("leafIndex");
    }
    return r;
  }

  void func(const llvm::Function &F) {
    int idx = fidx[&F];
    FnCtx c;
    cx = &c;
    c.f = &P.funcs[idx];
    PFunction *f = c.f;
    f->varargs = F.isVarArg();
    for (auto &l : leaves(F.getReturnType())) { (void)l; f->nret++; }
    for (auto &A : F.args()) {
      if (A.getType()->isMetadataTy()) continue;
      for (auto &l : leaves(A.getType())) f->argw.push_back(l.bits);
      if (!F.isDeclaration()) slotOf(&A);
    }
    f->nargs = f->argw.size();
    if (F.isDeclaration()) { cx = nullptr; return; }
    f->isDecl = false;
    if (auto *SP = F.getSubprogram()) {
      f->line = SP->getLine();
      f->file = (SP->getFilename().starts_with("/") ? SP->getFilename().str() : (SP->getDirectory() + "/" + SP->getFilename()).str());
      int s = scopeOf(SP);
      if (s >= 0) { c.scopes.insert(s); f->inRepo = true; }
    }
    P.locs.push_back({f->file.empty() ? f->name : f->file, f->line});
    c.loc = P.locs.size() - 1;
    for (auto &BB : F) {
      c.bbpc[&BB] = c.f->code.size();
      for (auto &I : BB) doInst(I);
    }
    for (auto &pe : c.pendingEdges) {
      Edge &e = P.edges[pe.first];
      e.pc = c.bbpc[pe.second.second];
      for (auto &phi : pe.second.second->phis()) {
        auto src = ops(phi.getIncomingValueForBlock(pe.second.first));
        int32_t d = slotOf(&phi);
        for (size_t i = 0; i < src.size(); i++)
          if (src[i] != d + (int)i) P.edges[pe.first].moves.push_back({d + (int)i, src[i]});
      }
    }
    for (auto &pe : c.pendingEdges) {
      Edge &e = P.edges[pe.first];
      std::set<int> ds;
      for (auto &m : e.moves) { if (ds.count(m.second)) e.overlap = true; ds.insert(m.first); }
    }
    c.f->scopes.assign(c.scopes.begin(), c.scopes.end());
    cx = nullptr;
  }
};
}  // namespace

bool loadProgram(const std::string &bc, Prog &p, const std::string &prefix, std::string &err) {
  LLVMContext C;
  SMDiagnostic D;
  auto M = parseIRFile(bc, D, C);
  if (!M) { err = D.getMessage().str(); return false; }
  bool fine = M->getModuleFlag("vp_fine") != nullptr;
  try {
    Translator T(*M, p);
    T.prefix = prefix;
    T.fine = fine || getenv("VP_FINE");
    p.locs.push_back({"?", 0});
    T.globals();
    p.funcs.reserve(p.funcs.size() + 4096);
    for (auto &F : *M)
      if (!F.isIntrinsic()) T.func(F);
  } catch (std::exception &e) { err = e.what(); return false; }
  return true;
}

// Inserts calls that let the replay scheduler count and interrupt at exactly
// the scheduling points the executor uses.
bool instrumentBitcode(const std::string &in, const std::string &out, bool fine, bool asan, std::string &err) {
  LLVMContext C;
  SMDiagnostic D;
  auto M = parseIRFile(in, D, C);
  if (!M) { err = D.getMessage().str(); return false; }
  Type *V = Type::getVoidTy(C);
  auto pre = M->getOrInsertFunction("vp_sync_pre", V);
  auto post = M->getOrInsertFunction("vp_sync_post", V);
  auto pause = M->getOrInsertFunction("vp_pause", V);
  auto unreach = M->getOrInsertFunction("vp_unreachable", V);
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (asan) F.addFnAttr(Attribute::SanitizeAddress);
    std::vector<Instruction *> todo, pauses, unr;
    for (auto &I : instructions(F)) {
      if (isa<UnreachableInst>(I)) {
        auto *prev = I.getPrevNonDebugInstruction();
        auto *pc = dyn_cast_or_null<CallBase>(prev);
        if (!(pc && pc->doesNotReturn())) unr.push_back(&I);
      }
      if (isSyncInst(I, fine)) todo.push_back(&I);
      if (auto *II = dyn_cast<IntrinsicInst>(&I))
        if (II->getIntrinsicID() == Intrinsic::x86_sse2_pause) pauses.push_back(&I);
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (CB->isInlineAsm() && (cast<InlineAsm>(CB->getCalledOperand())->getAsmString() == "pause" ||
            cast<InlineAsm>(CB->getCalledOperand())->getAsmString() == "rep; nop")) pauses.push_back(&I);
    }
    for (auto *I : todo) {
      CallInst::Create(pre, {}, "", I);
      CallInst::Create(post, {}, "", I->getNextNode());
    }
    for (auto *I : unr) CallInst::Create(unreach, {}, "", I);
    for (auto *I : pauses) {
      CallInst::Create(pause, {}, "", I);
      I->eraseFromParent();
    }
  }
  static const char *ren[][2] = {
      {"pthread_mutex_lock", "vp_pthread_lock"}, {"pthread_mutex_unlock", "vp_pthread_unlock"},
      {"pthread_mutex_trylock", "vp_pthread_trylock"}, {"sched_yield", "vp_sched_yield"},
      {"pthread_rwlock_rdlock", "vp_pthread_lock"}, {"pthread_rwlock_wrlock", "vp_pthread_lock"}, {"pthread_rwlock_unlock", "vp_pthread_unlock"}};
  for (auto &r : ren)
    if (auto *F = M->getFunction(r[0])) {
      if (auto *G = M->getFunction(r[1])) { F->replaceAllUsesWith(G); }
      else F->setName(r[1]);
    }
  std::error_code EC;
  raw_fd_ostream os(out, EC, sys::fs::OF_None);
  if (EC) { err = EC.message(); return false; }
  WriteBitcodeToFile(*M, os);
  return true;
}
