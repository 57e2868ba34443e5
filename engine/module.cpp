// LLVM bitcode -> compact register code.
#include "module.h"
#include <llvm/Passes/PassBuilder.h>
#include <llvm/CodeGen/IntrinsicLowering.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <set>
#include <functional>
using namespace llvm;

Prog P;
static LLVMContext *Ctx; static std::unique_ptr<Module> M; static const DataLayout *DL;
static DenseMap<const GlobalValue *, uint64_t> gaddr;
static DenseMap<const Function *, Func *> fmap;
static std::string g_err;

static void fail(const std::string &s) { if (g_err.empty()) g_err = s; }

static void flatten(Type *t, std::vector<std::pair<uint32_t, uint8_t>> &out, uint64_t off = 0) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), out, off + sl->getElementOffset(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), out, off + i * es); return; }
  if (t->isVoidTy()) return;
  if (t->isVectorTy()) { fail("vector type"); return; }
  unsigned w = DL->getTypeSizeInBits(t); if (w > 64) { fail("wide type " + std::to_string(w)); w = 64; }
  out.push_back({(uint32_t)off, (uint8_t)w});
}
static unsigned nflat(Type *t) { std::vector<std::pair<uint32_t, uint8_t>> v; flatten(t, v); return v.size(); }
static unsigned width(Type *t) { if (t->isVectorTy()) { fail("vector"); return 64; } unsigned w = DL->getTypeSizeInBits(t); if (w > 64) { fail("wide type"); return 64; } return w; }

static uint64_t constVal(const Constant *c);
static uint64_t constExpr(const ConstantExpr *ce) {
  switch (ce->getOpcode()) {
  case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return constVal(ce->getOperand(0)) + off.getSExtValue(); }
  case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
  case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(width(ce->getType()));
  case Instruction::Add: return constVal(ce->getOperand(0)) + constVal(ce->getOperand(1));
  case Instruction::Sub: return constVal(ce->getOperand(0)) - constVal(ce->getOperand(1));
  default: fail(std::string("constexpr ") + ce->getOpcodeName()); return 0;
  }
}
static uint64_t constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { fail("wide const"); return 0; } return ci->getZExtValue(); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) { fail("wide fp"); return 0; } return b.getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) { if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee()); fail("global " + gv->getName().str()); return 0; } return it->second; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) return constExpr(ce);
  fail("constant kind"); return 0;
}
static void writeInit(const Constant *c, uint8_t *p) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { unsigned es = cds->getElementByteSize(); for (unsigned i = 0; i < cds->getNumElements(); i++) { if (cds->getElementType()->isIntegerTy()) { uint64_t v = cds->getElementAsInteger(i); memcpy(p + i * es, &v, es); } else { uint64_t v = cds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); memcpy(p + i * es, &v, es); } } return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) writeInit(c->getAggregateElement(i), p + sl->getElementOffset(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) writeInit(c->getAggregateElement(i), p + i * es); return; }
  uint64_t v = constVal(c); memcpy(p, &v, std::min<uint64_t>(8, DL->getTypeStoreSize(t)));
}

static int builtinId(StringRef n) {
#define X(b) if (n == #b) return B_##b;
  BUILTINS(X)
#undef X
  if (n == "setjmp" || n == "__sigsetjmp") return B__setjmp;
  if (n == "siglongjmp" || n == "_longjmp") return B_longjmp;
  return -1;
}

struct FB {
  Function &F; Func &o; DenseMap<const Value *, int32_t> reg; DenseMap<const BasicBlock *, uint32_t> bstart;
  std::vector<std::tuple<uint32_t, const BasicBlock *, const BasicBlock *>> fix; // edge idx, from, to
  FB(Function &f, Func &o) : F(f), o(o) {}
  int32_t kconst(const Constant *c) {
    auto it = reg.find(c); if (it != reg.end()) return it->second;
    Type *t = c->getType(); int32_t r;
    if (t->isAggregateType()) {
      std::vector<std::pair<uint32_t, uint8_t>> fl; flatten(t, fl); std::vector<uint8_t> buf(DL->getTypeAllocSize(t) + 8, 0); writeInit(c, buf.data());
      r = ~(int32_t)P.K.size(); for (auto &p : fl) { uint64_t v; memcpy(&v, &buf[p.first], 8); P.K.push_back({v & maskw(p.second), nullptr}); }
    } else { r = ~(int32_t)P.K.size(); P.K.push_back({constVal(c) & maskw(width(t)), nullptr}); }
    reg[c] = r; return r;
  }
  int32_t opnd(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return kconst(c);
    auto it = reg.find(v); if (it == reg.end()) { fail("no reg for value in " + o.name); return 0; }
    return it->second;
  }
  static int32_t nth(int32_t o, int i) { return o >= 0 ? o + i : o - i; }
  int32_t newreg(unsigned n) { int32_t r = o.nregs; o.nregs += n; return r; }
  uint32_t edge(const BasicBlock *from, const BasicBlock *to) { o.edges.push_back({}); fix.push_back({(uint32_t)o.edges.size() - 1, from, to}); return o.edges.size() - 1; }

  void run() {
    for (auto &a : F.args()) { unsigned n = nflat(a.getType()); int32_t r = newreg(n); reg[&a] = r; for (unsigned i = 0; i < n; i++) o.params.push_back(r + i); 
      uint32_t bs = a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()) : 0; o.byval.push_back(bs); }
    for (auto &bb : F) for (auto &I : bb) if (!I.getType()->isVoidTy()) reg[&I] = newreg(nflat(I.getType()));
    for (auto &bb : F) {
      bstart[&bb] = o.code.size();
      for (auto &I : bb) inst(I);
    }
    for (auto &[ei, from, to] : fix) { Edge &e = o.edges[ei]; e.target = bstart[to];
      for (auto &phi : to->phis()) { int32_t src = opnd(phi.getIncomingValueForBlock(from)), dst = reg[&phi]; unsigned n = nflat(phi.getType()); for (unsigned i = 0; i < n; i++) e.copies.push_back({dst + (int)i, nth(src, i)}); } }
  }
  Inst &emit(Instruction &I, IOp op) { Inst x; memset(&x, 0, sizeof x); x.op = op; if (auto &dl = I.getDebugLoc()) x.line = dl.getLine(); auto it = reg.find(&I); x.d = it == reg.end() ? -1 : it->second; o.code.push_back(x); return o.code.back(); }

  void inst(Instruction &I) {
    switch (I.getOpcode()) {
    case Instruction::PHI: return;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      int32_t a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1)); Inst &x = emit(I, I_BIN); x.w = width(I.getType()); x.a = a; x.b = b;
      switch (I.getOpcode()) { case Instruction::Add: x.x = O_ADD; break; case Instruction::Sub: x.x = O_SUB; break; case Instruction::Mul: x.x = O_MUL; break; case Instruction::UDiv: x.x = O_UDIV; break; case Instruction::SDiv: x.x = O_SDIV; break; case Instruction::URem: x.x = O_UREM; break; case Instruction::SRem: x.x = O_SREM; break; case Instruction::And: x.x = O_AND; break; case Instruction::Or: x.x = O_OR; break; case Instruction::Xor: x.x = O_XOR; break; case Instruction::Shl: x.x = O_SHL; break; case Instruction::LShr: x.x = O_LSHR; break; default: x.x = O_ASHR; }
      return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      int32_t a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1)); Inst &x = emit(I, I_FBIN); x.w = width(I.getType()); x.a = a; x.b = b;
      switch (I.getOpcode()) { case Instruction::FAdd: x.x = O_FADD; break; case Instruction::FSub: x.x = O_FSUB; break; case Instruction::FMul: x.x = O_FMUL; break; case Instruction::FDiv: x.x = O_FDIV; break; default: x.x = O_UF; }
      return; }
    case Instruction::FNeg: { int32_t a = opnd(I.getOperand(0)); Inst &x = emit(I, I_FNEG); x.w = width(I.getType()); x.a = a; return; }
    case Instruction::ICmp: { auto &c = cast<ICmpInst>(I); int32_t a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1)); Inst &x = emit(I, I_ICMP); x.w = width(I.getOperand(0)->getType()); x.a = a; x.b = b; x.x = c.getPredicate(); return; }
    case Instruction::FCmp: { auto &c = cast<FCmpInst>(I); int32_t a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1)); Inst &x = emit(I, I_FCMP); x.w = width(I.getOperand(0)->getType()); x.a = a; x.b = b; x.x = c.getPredicate(); return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      IOp op; switch (I.getOpcode()) { case Instruction::Trunc: op = I_TRUNC; break; case Instruction::ZExt: op = I_ZEXT; break; case Instruction::SExt: op = I_SEXT; break; case Instruction::FPToSI: op = I_FPTOSI; break; case Instruction::FPToUI: op = I_FPTOUI; break; case Instruction::SIToFP: op = I_SITOFP; break; case Instruction::UIToFP: op = I_UITOFP; break; default: op = I_FPCONV; }
      int32_t a = opnd(I.getOperand(0)); Inst &x = emit(I, op); x.a = a; x.w = width(I.getOperand(0)->getType()); x.w2 = width(I.getType()); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      unsigned w1 = width(I.getOperand(0)->getType()), w2 = width(I.getType()); int32_t a = opnd(I.getOperand(0)); Inst &x = emit(I, w1 == w2 ? I_COPY : w1 > w2 ? I_TRUNC : I_ZEXT); x.a = a; x.w = w1; x.w2 = w2; return; }
    case Instruction::BitCast: case Instruction::Freeze: { unsigned n = nflat(I.getType()); int32_t a = opnd(I.getOperand(0)); for (unsigned i = 0; i < n; i++) { Inst &x = emit(I, I_COPY); x.a = nth(a, i); x.d += i; } return; }
    case Instruction::Alloca: { auto &al = cast<AllocaInst>(I); uint64_t es = DL->getTypeAllocSize(al.getAllocatedType()); int32_t n = opnd(al.getArraySize()); Inst &x = emit(I, I_ALLOCA); x.a = n; x.x = es; x.w = width(al.getArraySize()->getType()); return; }
    case Instruction::Load: { std::vector<std::pair<uint32_t, uint8_t>> fl; flatten(I.getType(), fl); int32_t a = opnd(I.getOperand(0)); for (unsigned i = 0; i < fl.size(); i++) { Inst &x = emit(I, I_LOAD); x.a = a; x.w = fl[i].second; x.x = fl[i].first; x.d += i; } return; }
    case Instruction::Store: { std::vector<std::pair<uint32_t, uint8_t>> fl; flatten(I.getOperand(0)->getType(), fl); int32_t v = opnd(I.getOperand(0)), a = opnd(I.getOperand(1)); for (unsigned i = 0; i < fl.size(); i++) { Inst &x = emit(I, I_STORE); x.a = a; x.b = nth(v, i); x.w = fl[i].second; x.x = fl[i].first; } return; }
    case Instruction::GetElementPtr: {
      GepInfo g; g.cst = 0; auto &gep = cast<GetElementPtrInst>(I); int32_t base = opnd(gep.getPointerOperand());
      for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) { Value *op = gi.getOperand();
        if (StructType *st = gi.getStructTypeOrNull()) { g.cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
        int64_t es = DL->getTypeAllocSize(gi.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(op)) { g.cst += ci->getSExtValue() * es; continue; }
        g.terms.push_back({opnd(op), es}); g.widths.push_back(width(op->getType())); }
      o.geps.push_back(g); uint32_t gi = o.geps.size() - 1; Inst &x = emit(I, I_GEP); x.a = base; x.x = gi; return; }
    case Instruction::Select: { unsigned n = nflat(I.getType()); int32_t c = opnd(I.getOperand(0)), a = opnd(I.getOperand(1)), b = opnd(I.getOperand(2)); std::vector<std::pair<uint32_t, uint8_t>> fl; flatten(I.getType(), fl); for (unsigned i = 0; i < n; i++) { Inst &x = emit(I, I_SELECT); x.a = nth(a, i); x.b = nth(b, i); x.c = c; x.w = fl[i].second; x.d += i; } return; }
    case Instruction::ExtractValue: case Instruction::InsertValue: {
      bool ex = I.getOpcode() == Instruction::ExtractValue; Value *agg = I.getOperand(0); ArrayRef<unsigned> idx = ex ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
      Type *t = agg->getType(); unsigned off = 0; for (unsigned k : idx) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; j++) off += nflat(st->getElementType(j)); t = st->getElementType(k); } else { auto *at = cast<ArrayType>(t); off += k * nflat(at->getElementType()); t = at->getElementType(); } }
      unsigned n = nflat(t); int32_t a = opnd(agg);
      if (ex) { for (unsigned i = 0; i < n; i++) { Inst &x = emit(I, I_COPY); x.a = nth(a, off + i); x.d += i; } return; }
      int32_t v = opnd(I.getOperand(1)); unsigned tot = nflat(agg->getType()); for (unsigned i = 0; i < tot; i++) { Inst &x = emit(I, I_COPY); x.a = (i >= off && i < off + n) ? nth(v, i - off) : nth(a, i); x.d += i; } return; }
    case Instruction::Br: { auto &b = cast<BranchInst>(I); if (b.isUnconditional()) { uint32_t e = edge(I.getParent(), b.getSuccessor(0)); Inst &x = emit(I, I_BR); x.x = e; } else { int32_t c = opnd(b.getCondition()); uint32_t e1 = edge(I.getParent(), b.getSuccessor(0)), e2 = edge(I.getParent(), b.getSuccessor(1)); Inst &x = emit(I, I_CBR); x.a = c; x.x = e1; x.b = (int32_t)e2; } return; }
    case Instruction::Switch: { auto &s = cast<SwitchInst>(I); SwitchInfo si; int32_t c = opnd(s.getCondition()); for (auto &cs : s.cases()) si.cases.push_back({cs.getCaseValue()->getZExtValue(), edge(I.getParent(), cs.getCaseSuccessor())}); si.def = edge(I.getParent(), s.getDefaultDest()); o.switches.push_back(si); uint32_t k = o.switches.size() - 1; Inst &x = emit(I, I_SWITCH); x.a = c; x.x = k; x.w = width(s.getCondition()->getType()); return; }
    case Instruction::Ret: { RetInfo r; if (I.getNumOperands()) { int32_t a = opnd(I.getOperand(0)); unsigned n = nflat(I.getOperand(0)->getType()); for (unsigned i = 0; i < n; i++) r.regs.push_back(nth(a, i)); } o.rets.push_back(r); uint32_t k = o.rets.size() - 1; Inst &x = emit(I, I_RET); x.x = k; return; }
    case Instruction::Unreachable: emit(I, I_UNREACH); return;
    case Instruction::Call: call(cast<CallInst>(I)); return;
    default: fail(std::string("instruction ") + I.getOpcodeName() + " in " + o.name);
    }
  }
  void call(CallInst &I) {
    if (I.isInlineAsm()) { fail("inline asm"); return; }
    Function *cf = dyn_cast<Function>(I.getCalledOperand()->stripPointerCastsAndAliases());
    if (cf && cf->isIntrinsic()) {
      switch (cf->getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::vaend: case Intrinsic::experimental_noalias_scope_decl: return;
      case Intrinsic::vastart: { int32_t a = opnd(I.getArgOperand(0)); Inst &x = emit(I, I_VASTART); x.a = a; return; }
      case Intrinsic::vacopy: { int32_t a = opnd(I.getArgOperand(0)), b = opnd(I.getArgOperand(1)); Inst &x = emit(I, I_VACOPY); x.a = a; x.b = b; return; }
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { int32_t a = opnd(I.getArgOperand(0)), b = opnd(I.getArgOperand(1)), c = opnd(I.getArgOperand(2)); Inst &x = emit(I, I_MEMCPY); x.a = a; x.b = b; x.c = c; x.x = cf->getIntrinsicID() == Intrinsic::memmove; return; }
      case Intrinsic::memset: { int32_t a = opnd(I.getArgOperand(0)), b = opnd(I.getArgOperand(1)), c = opnd(I.getArgOperand(2)); Inst &x = emit(I, I_MEMSET); x.a = a; x.b = b; x.c = c; return; }
      case Intrinsic::expect: case Intrinsic::expect_with_probability: { int32_t a = opnd(I.getArgOperand(0)); Inst &x = emit(I, I_COPY); x.a = a; return; }
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: emit(I, I_TRAP); return;
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { int32_t a = opnd(I.getArgOperand(0)), b = opnd(I.getArgOperand(1)); Inst &x = emit(I, I_MINMAX); x.a = a; x.b = b; x.w = width(I.getType()); x.x = cf->getIntrinsicID() == Intrinsic::smax ? 0 : cf->getIntrinsicID() == Intrinsic::smin ? 1 : cf->getIntrinsicID() == Intrinsic::umax ? 2 : 3; return; }
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
        int32_t a = opnd(I.getArgOperand(0)), b = opnd(I.getArgOperand(1)); Inst &x = emit(I, I_OVF); x.a = a; x.b = b; x.w = width(I.getArgOperand(0)->getType());
        switch (cf->getIntrinsicID()) { case Intrinsic::sadd_with_overflow: x.x = 0; break; case Intrinsic::ssub_with_overflow: x.x = 1; break; case Intrinsic::smul_with_overflow: x.x = 2; break; case Intrinsic::uadd_with_overflow: x.x = 3; break; case Intrinsic::usub_with_overflow: x.x = 4; break; default: x.x = 5; } return; }
      case Intrinsic::is_fpclass: { int32_t a = opnd(I.getArgOperand(0)); Inst &x = emit(I, I_FPCLASS); x.a = a; x.w = width(I.getArgOperand(0)->getType()); x.x = (uint32_t)cast<ConstantInt>(I.getArgOperand(1))->getZExtValue(); return; }
      case Intrinsic::is_constant: { P.K.push_back({0, nullptr}); int32_t k = ~(int32_t)(P.K.size() - 1); Inst &x = emit(I, I_COPY); x.a = k; return; }
      default: break;
      }
      StringRef n = cf->getName(); const char *m = nullptr;
      if (n == "llvm.ceil.f64") m = "ceil"; else if (n == "llvm.floor.f64") m = "floor"; else if (n == "llvm.trunc.f64") m = "trunc"; else if (n == "llvm.round.f64") m = "round"; else if (n == "llvm.rint.f64") m = "rint"; else if (n == "llvm.nearbyint.f64") m = "nearbyint"; else if (n == "llvm.sqrt.f64") m = "sqrt"; else if (n == "llvm.fabs.f64") m = "fabs"; else if (n == "llvm.pow.f64") m = "pow"; else if (n == "llvm.exp.f64") m = "exp"; else if (n == "llvm.log.f64") m = "log"; else if (n == "llvm.sin.f64") m = "sin"; else if (n == "llvm.cos.f64") m = "cos";
      if (n == "llvm.fmuladd.f64") { int32_t a = opnd(I.getArgOperand(0)), b = opnd(I.getArgOperand(1)), c = opnd(I.getArgOperand(2)); int32_t t = newreg(1); { Inst &x = emit(I, I_FBIN); x.w = 64; x.a = a; x.b = b; x.x = O_FMUL; x.d = t; } Inst &y = emit(I, I_FBIN); y.w = 64; y.a = t; y.b = c; y.x = O_FADD; return; }
      if (!m) { fail("intrinsic " + n.str()); return; }
      CallInfo ci; ci.builtin = builtinId(m); ci.name = m; for (auto &a : I.args()) ci.args.push_back({opnd(a), 64, 0}); ci.nret = 1; ci.retw = {64}; o.calls.push_back(ci); uint32_t k = o.calls.size() - 1; Inst &x = emit(I, I_CALL); x.x = k; return;
    }
    CallInfo ci; if (cf) { ci.f = fmap[cf]; ci.name = cf->getName().str(); ci.builtin = ci.f->builtin; }
    for (unsigned i = 0; i < I.arg_size(); i++) { Value *a = I.getArgOperand(i); std::vector<std::pair<uint32_t, uint8_t>> fl; flatten(a->getType(), fl); int32_t r = opnd(a); uint32_t bv = I.isByValArgument(i) ? DL->getTypeAllocSize(I.getParamByValType(i)) : 0; for (unsigned j = 0; j < fl.size(); j++) ci.args.push_back({nth(r, j), fl[j].second, bv}); }
    std::vector<std::pair<uint32_t, uint8_t>> rl; flatten(I.getType(), rl); ci.nret = rl.size(); for (auto &p : rl) ci.retw.push_back(p.second);
    int32_t tgt = cf ? 0 : opnd(I.getCalledOperand());
    o.calls.push_back(ci); uint32_t k = o.calls.size() - 1; Inst &x = emit(I, cf ? I_CALL : I_ICALL); x.x = k; x.a = tgt;
  }
};

bool g_noIte = false;
bool loadModule(const char *path, std::string &err) {
  Ctx = new LLVMContext; SMDiagnostic d; M = parseIRFile(path, d, *Ctx); if (!M) { err = d.getMessage().str(); return false; }
  DL = &M->getDataLayout();
  for (auto &F : *M) { // promote allocas, except in functions that call setjmp
    if (F.isDeclaration()) continue;
    bool rt = F.callsFunctionThatReturnsTwice(); if (rt) continue;
    DominatorTree DT(F); std::vector<AllocaInst *> as;
    while (true) { as.clear(); for (auto &I : F.getEntryBlock()) if (auto *a = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(a)) as.push_back(a); if (as.empty()) break; PromoteMemToReg(as, DT); }
  }
  if (!g_noIte) { // turn side-effect free short circuits and diamonds into selects, so that they do not fork
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    FunctionPassManager FPM; FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().bonusInstThreshold(4)));
    for (auto &F : *M) if (!F.isDeclaration() && !F.callsFunctionThatReturnsTwice()) FPM.run(F, FAM);
  }
  for (auto &F : *M) { // intrinsics in terms of plain instructions
    std::vector<CallInst *> cs; for (auto &bb : F) for (auto &I : bb) if (auto *c = dyn_cast<CallInst>(&I)) if (c->getCalledFunction() && c->getCalledFunction()->isIntrinsic()) cs.push_back(c);
    for (auto *c : cs) { IRBuilder<> B(c); Value *r = nullptr; Type *t = c->getType(); auto A = [&](unsigned i) { return c->getArgOperand(i); };
      switch (c->getCalledFunction()->getIntrinsicID()) {
      case Intrinsic::fshl: case Intrinsic::fshr: { bool l = c->getCalledFunction()->getIntrinsicID() == Intrinsic::fshl; unsigned w = t->getIntegerBitWidth(); Value *W = ConstantInt::get(t, w), *n = B.CreateURem(A(2), W), *z = B.CreateICmpEQ(n, ConstantInt::get(t, 0)), *k = B.CreateSelect(z, ConstantInt::get(t, 1), n), *q = B.CreateSub(W, k);
        r = l ? B.CreateSelect(z, A(0), B.CreateOr(B.CreateShl(A(0), k), B.CreateLShr(A(1), q))) : B.CreateSelect(z, A(1), B.CreateOr(B.CreateLShr(A(1), k), B.CreateShl(A(0), q))); break; }
      case Intrinsic::abs: r = B.CreateSelect(B.CreateICmpSLT(A(0), ConstantInt::get(t, 0)), B.CreateNeg(A(0)), A(0)); break;
      case Intrinsic::usub_sat: r = B.CreateSelect(B.CreateICmpULT(A(0), A(1)), ConstantInt::get(t, 0), B.CreateSub(A(0), A(1))); break;
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: { IntrinsicLowering IL(*DL); IL.LowerIntrinsicCall(c); continue; }
      default: continue; }
      c->replaceAllUsesWith(r); c->eraseFromParent(); } }
  uint64_t id = 1;
  for (auto &G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    Global g; g.name = G.getName().str(); g.size = DL->getTypeAllocSize(G.getValueType()); g.constant = G.isConstant(); g.addr = (id++) << OSH; gaddr[&G] = g.addr; P.globals.push_back(g);
    if (G.isDeclaration()) { err = "undefined global " + g.name; return false; }
  }
  for (auto &F : *M) { if (F.isIntrinsic()) continue; Func *o = new Func; o->name = F.getName().str(); o->idx = P.funcs.size(); o->vararg = F.isVarArg(); o->defined = !F.isDeclaration(); o->builtin = builtinId(F.getName()); if (o->builtin >= 0) o->defined = false;
    if (auto *sp = F.getSubprogram()) o->file = sp->getFilename().str();
    fmap[&F] = o; gaddr[&F] = FBASE + 16 * o->idx; P.funcs.push_back(o); P.byName[o->name] = o; }
  size_t gi = 0; for (auto &G : M->globals()) { if (G.getName().starts_with("llvm.")) continue; Global &g = P.globals[gi++]; g.init.assign(g.size, 0); if (G.hasInitializer()) { std::vector<uint8_t> b(g.size + 8, 0); writeInit(G.getInitializer(), b.data()); b.resize(g.size); g.init = b; } }
  for (auto &F : *M) { if (F.isDeclaration() || F.isIntrinsic()) continue; Func *o = fmap[&F]; if (!o->defined) continue; FB fb(F, *o); fb.run(); if (!g_err.empty()) { err = g_err + " [" + o->name + "]"; return false; } }
  if (!g_err.empty()) { err = g_err; return false; }
  return true;
}
