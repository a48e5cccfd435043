#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cstring>
#include <cstdio>
using namespace llvm;

namespace {
struct Loader {
  Program &P; Module &M; const DataLayout &DL; std::string prefix;
  std::map<const Function *, int> fid; std::map<const GlobalVariable *, uint32_t> gid;
  std::map<std::string, int> fileIdx;
  Loader(Program &p, Module &m, const char *pre) : P(p), M(m), DL(m.getDataLayout()), prefix(pre) {}

  unsigned leafs(Type *t) {
    if (t->isVoidTy()) return 0;
    if (auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : s->elements()) n += leafs(e); return n; }
    if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * leafs(a->getElementType());
    return 1;
  }
  unsigned width(Type *t) {
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (auto *i = dyn_cast<IntegerType>(t)) return i->getBitWidth();
    return 0;
  }
  uint64_t constAddr(const Constant *c, bool &ok) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { ok = false; return 0; } return ci->getZExtValue(); }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (auto *f = dyn_cast<Function>(c)) return (uint64_t)(ID_FUNC + fid[f]) << 32;
    if (auto *g = dyn_cast<GlobalVariable>(c)) return (uint64_t)gid[g] << 32;
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee(), ok);
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) { ok = false; return 0; }
        return constAddr(ce->getOperand(0), ok) + off.getSExtValue();
      }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
        return constAddr(ce->getOperand(0), ok);
      case Instruction::Add: return constAddr(ce->getOperand(0), ok) + constAddr(ce->getOperand(1), ok);
      case Instruction::Sub: return constAddr(ce->getOperand(0), ok) - constAddr(ce->getOperand(1), ok);
      case Instruction::Trunc: { unsigned w = width(ce->getType()); return constAddr(ce->getOperand(0), ok) & (w >= 64 ? ~0ULL : ((1ULL << w) - 1)); }
      default: ok = false; return 0;
      }
    }
    ok = false; return 0;
  }
  void initBytes(const Constant *c, uint8_t *out, bool &ok) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy(out, r.data(), r.size()); return; }
    if (auto *a = dyn_cast<ConstantArray>(c)) {
      uint64_t es = DL.getTypeAllocSize(a->getType()->getElementType());
      for (unsigned i = 0; i < a->getNumOperands(); i++) initBytes(a->getOperand(i), out + i * es, ok);
      return;
    }
    if (auto *s = dyn_cast<ConstantStruct>(c)) {
      const StructLayout *L = DL.getStructLayout(s->getType());
      for (unsigned i = 0; i < s->getNumOperands(); i++) initBytes(s->getOperand(i), out + L->getElementOffset(i), ok);
      return;
    }
    uint64_t v = constAddr(c, ok);
    memcpy(out, &v, DL.getTypeStoreSize(t));
  }
  int fileId(const std::string &f) {
    auto it = fileIdx.find(f); if (it != fileIdx.end()) return it->second;
    P.files.push_back(f); return fileIdx[f] = P.files.size() - 1;
  }

  struct FX {
    std::map<const Value *, int> slot; std::map<const BasicBlock *, uint32_t> start;
    std::map<std::pair<const BasicBlock *, const BasicBlock *>, uint32_t> edge;
  };
  bool badConst = false;
  std::vector<Opnd> opnds(FX &x, const Value *v) {
    std::vector<Opnd> r;
    if (auto *c = dyn_cast<Constant>(v)) { constOpnds(c, r); return r; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { r.push_back({-1, 0}); return r; }
    int s = x.slot.at(v);
    for (unsigned i = 0; i < leafs(v->getType()); i++) r.push_back({s + (int)i, 0});
    return r;
  }
  void constOpnds(const Constant *c, std::vector<Opnd> &r) {
    Type *t = c->getType();
    if (t->isStructTy() || t->isArrayTy()) {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) constOpnds(c->getAggregateElement(i), r);
      return;
    }
    bool ok = true; uint64_t v = constAddr(c, ok);
    if (!ok) { badConst = true; v = 0; }
    r.push_back({-1, v});
  }
  Opnd op(FX &x, const Value *v) { auto r = opnds(x, v); return r.empty() ? Opnd{-1, 0} : r[0]; }
  uint32_t mkEdge(FX &x, Func &f, const BasicBlock *from, const BasicBlock *to) {
    auto k = std::make_pair(from, to);
    auto it = x.edge.find(k); if (it != x.edge.end()) return it->second;
    Edge e; e.target = 0;
    for (const PHINode &p : to->phis()) {
      auto src = opnds(x, p.getIncomingValueForBlock(from));
      int d = x.slot.at(&p);
      for (unsigned i = 0; i < src.size(); i++) e.copies.push_back({d + (int)i, src[i]});
    }
    f.edges.push_back(e);
    return x.edge[k] = f.edges.size() - 1;
  }
  static Intrin intrin(Intrinsic::ID id) {
    switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
    case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
    case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return IN_NOP;
    case Intrinsic::assume: return IN_ASSUME;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return IN_MEMCPY;
    case Intrinsic::memmove: return IN_MEMMOVE;
    case Intrinsic::memset: case Intrinsic::memset_inline: return IN_MEMSET;
    case Intrinsic::vastart: return IN_VASTART; case Intrinsic::vaend: return IN_VAEND; case Intrinsic::vacopy: return IN_VACOPY;
    case Intrinsic::stacksave: return IN_STACKSAVE; case Intrinsic::stackrestore: return IN_STACKRESTORE;
    case Intrinsic::umax: return IN_UMAX; case Intrinsic::umin: return IN_UMIN; case Intrinsic::smax: return IN_SMAX; case Intrinsic::smin: return IN_SMIN;
    case Intrinsic::abs: return IN_ABS; case Intrinsic::bswap: return IN_BSWAP; case Intrinsic::ctpop: return IN_CTPOP;
    case Intrinsic::ctlz: return IN_CTLZ; case Intrinsic::cttz: return IN_CTTZ; case Intrinsic::fshl: return IN_FSHL; case Intrinsic::fshr: return IN_FSHR;
    case Intrinsic::uadd_with_overflow: return IN_UADDO; case Intrinsic::usub_with_overflow: return IN_USUBO; case Intrinsic::umul_with_overflow: return IN_UMULO;
    case Intrinsic::sadd_with_overflow: return IN_SADDO; case Intrinsic::ssub_with_overflow: return IN_SSUBO; case Intrinsic::smul_with_overflow: return IN_SMULO;
    case Intrinsic::usub_sat: return IN_USUBSAT; case Intrinsic::uadd_sat: return IN_UADDSAT;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return IN_EXPECT;
    case Intrinsic::fabs: return IN_FABS; case Intrinsic::floor: return IN_FLOOR; case Intrinsic::ceil: return IN_CEIL; case Intrinsic::round: return IN_ROUND;
    case Intrinsic::is_fpclass: return IN_FPCLASS; case Intrinsic::fmuladd: return IN_FMULADD;
    case Intrinsic::trunc: return IN_TRUNCF; case Intrinsic::rint: case Intrinsic::nearbyint: return IN_RINT;
    case Intrinsic::objectsize: return IN_OBJSIZE; case Intrinsic::trap: case Intrinsic::debugtrap: return IN_TRAP; case Intrinsic::is_constant: return IN_ISCONST;
    default: return IN_UNSUP;
    }
  }
  unsigned aggOffset(Type *t, ArrayRef<unsigned> idx) {
    unsigned o = 0;
    for (unsigned i : idx) {
      if (auto *s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) o += leafs(s->getElementType(j)); t = s->getElementType(i); }
      else { auto *a = cast<ArrayType>(t); o += i * leafs(a->getElementType()); t = a->getElementType(); }
    }
    return o;
  }
  void loadStoreAgg(Type *t, uint64_t base, std::vector<std::pair<uint64_t, Type *>> &out) {
    if (auto *s = dyn_cast<StructType>(t)) { const StructLayout *L = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) loadStoreAgg(s->getElementType(i), base + L->getElementOffset(i), out); }
    else if (auto *a = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < a->getNumElements(); i++) loadStoreAgg(a->getElementType(), base + i * DL.getTypeAllocSize(a->getElementType()), out); }
    else out.push_back({base, t});
  }

  void func(const Function &F) {
    Func &f = P.funcs[fid[&F]];
    f.defined = true; f.vararg = F.isVarArg();
    FX x; int ns = 0;
    for (const Argument &a : F.args()) {
      x.slot[&a] = ns; unsigned n = leafs(a.getType());
      for (unsigned i = 0; i < n; i++) f.byval.push_back(i == 0 && a.hasByValAttr() ? (uint32_t)DL.getTypeAllocSize(a.getParamByValType()) : 0);
      ns += n;
    }
    f.nargs = ns;
    for (const BasicBlock &B : F) for (const Instruction &I : B) { unsigned n = leafs(I.getType()); if (n) { x.slot[&I] = ns; ns += n; } }
    if (auto *sp = F.getSubprogram()) { f.file = sp->getFilename().str(); std::string d = sp->getDirectory().str(); if (!f.file.empty() && f.file[0] != '/') f.file = d + "/" + f.file; }
    f.repo = f.file.compare(0, prefix.size(), prefix) == 0;
    for (const BasicBlock &B : F) {
      x.start[&B] = f.code.size();
      for (const Instruction &I : B) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        badConst = false;
        size_t at = f.code.size();
        inst(x, f, B, I);
        unsigned line = 0; int fi = 0;
        if (DILocation *l = I.getDebugLoc().get()) { line = l->getLine(); fi = fileId(l->getFilename().str()); }
        for (size_t i = at; i < f.code.size(); i++) { f.code[i].line = line; f.code[i].file = fi; if (badConst) f.code[i].op = I_UNSUP; }
      }
    }
    for (auto &e : x.edge) f.edges[e.second].target = x.start[e.first.second];
    f.nslots = ns; f.cov.assign(f.code.size(), 0);
  }
  void inst(FX &x, Func &f, const BasicBlock &B, const Instruction &I) {
    Inst n; n.op = I_UNSUP; n.w = n.w2 = 0; n.pred = 0; n.sub = 0;
    if (leafs(I.getType())) n.dst = x.slot[&I];
    n.w = width(I.getType()) <= 64 ? width(I.getType()) : 0;
    auto bad = [&]() { n.op = I_UNSUP; f.code.push_back(n); };
    if (I.getType()->isVectorTy() || (I.getType()->isIntegerTy() && width(I.getType()) > 64)) return bad();
    for (const Use &u : I.operands()) { Type *t = u->getType(); if (t->isVectorTy() || (t->isIntegerTy() && width(t) > 64)) return bad(); }
    switch (I.getOpcode()) {
#define BIN(L, O) case Instruction::L: n.op = O; n.a = op(x, I.getOperand(0)); n.b = op(x, I.getOperand(1)); break
    BIN(Add, I_ADD); BIN(Sub, I_SUB); BIN(Mul, I_MUL); BIN(UDiv, I_UDIV); BIN(SDiv, I_SDIV); BIN(URem, I_UREM); BIN(SRem, I_SREM);
    BIN(And, I_AND); BIN(Or, I_OR); BIN(Xor, I_XOR); BIN(Shl, I_SHL); BIN(LShr, I_LSHR); BIN(AShr, I_ASHR);
    BIN(FAdd, I_FADD); BIN(FSub, I_FSUB); BIN(FMul, I_FMUL); BIN(FDiv, I_FDIV);
    case Instruction::FNeg: n.op = I_FNEG; n.a = op(x, I.getOperand(0)); break;
    case Instruction::FCmp: n.op = I_FCMP; n.pred = cast<FCmpInst>(I).getPredicate(); n.a = op(x, I.getOperand(0)); n.b = op(x, I.getOperand(1)); n.w2 = width(I.getOperand(0)->getType()); break;
    case Instruction::ICmp: n.op = I_ICMP; n.pred = cast<ICmpInst>(I).getPredicate(); n.a = op(x, I.getOperand(0)); n.b = op(x, I.getOperand(1)); n.w2 = width(I.getOperand(0)->getType()); break;
#define CASTI(L, O) case Instruction::L: n.op = O; n.a = op(x, I.getOperand(0)); n.w2 = width(I.getOperand(0)->getType()); break
    CASTI(ZExt, I_ZEXT); CASTI(SExt, I_SEXT); CASTI(Trunc, I_TRUNC);
    CASTI(SIToFP, I_SITOFP); CASTI(UIToFP, I_UITOFP); CASTI(FPToSI, I_FPTOSI); CASTI(FPToUI, I_FPTOUI); CASTI(FPExt, I_FPEXT); CASTI(FPTrunc, I_FPTRUNC);
    case Instruction::PtrToInt: n.w2 = 64; n.a = op(x, I.getOperand(0)); n.op = n.w < 64 ? I_TRUNC : I_COPY; break;
    case Instruction::IntToPtr: n.w2 = width(I.getOperand(0)->getType()); n.a = op(x, I.getOperand(0)); n.op = n.w2 < 64 ? I_ZEXT : I_COPY; break;
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
      auto s = opnds(x, I.getOperand(0));
      for (unsigned i = 0; i < s.size(); i++) { Inst c = n; c.op = I_COPY; c.dst = n.dst + i; c.a = s[i]; f.code.push_back(c); }
      return; }
    case Instruction::Select: {
      auto t = opnds(x, I.getOperand(1)), e = opnds(x, I.getOperand(2));
      std::vector<std::pair<uint64_t, Type *>> lt; loadStoreAgg(I.getType(), 0, lt);
      for (unsigned i = 0; i < t.size(); i++) { Inst c = n; c.op = I_SELECT; c.dst = n.dst + i; c.a = op(x, I.getOperand(0)); c.b = t[i]; c.c = e[i]; c.w = width(lt[i].second); f.code.push_back(c); }
      return; }
    case Instruction::Load: {
      std::vector<std::pair<uint64_t, Type *>> lt; loadStoreAgg(I.getType(), 0, lt);
      for (unsigned i = 0; i < lt.size(); i++) { Inst c = n; c.op = I_LOAD; c.dst = n.dst + i; c.a = op(x, I.getOperand(0)); c.aux = lt[i].first; c.w = width(lt[i].second); c.w2 = DL.getTypeStoreSize(lt[i].second); f.code.push_back(c); }
      return; }
    case Instruction::Store: {
      std::vector<std::pair<uint64_t, Type *>> lt; loadStoreAgg(I.getOperand(0)->getType(), 0, lt);
      auto v = opnds(x, I.getOperand(0));
      for (unsigned i = 0; i < lt.size(); i++) { Inst c = n; c.op = I_STORE; c.a = op(x, I.getOperand(1)); c.b = v[i]; c.aux = lt[i].first; c.w = width(lt[i].second); c.w2 = DL.getTypeStoreSize(lt[i].second); f.code.push_back(c); }
      return; }
    case Instruction::GetElementPtr: {
      n.op = I_GEP; n.a = op(x, I.getOperand(0)); int64_t off = 0;
      for (auto gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
        const Value *iv = gi.getOperand();
        if (StructType *st = gi.getStructTypeOrNull()) { off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue()); continue; }
        uint64_t sc = DL.getTypeAllocSize(gi.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(iv)) { off += ci->getSExtValue() * (int64_t)sc; continue; }
        n.args.push_back(op(x, iv)); n.scales.push_back(sc); n.ws.push_back(width(iv->getType()));
      }
      n.b = {-1, (uint64_t)off};
      break; }
    case Instruction::Alloca: {
      auto &A = cast<AllocaInst>(I); n.op = I_ALLOCA; n.aux = DL.getTypeAllocSize(A.getAllocatedType()); n.a = op(x, A.getArraySize()); n.w2 = width(A.getArraySize()->getType()); break; }
    case Instruction::Br: {
      auto &br = cast<BranchInst>(I);
      if (br.isConditional()) { n.op = I_CONDBR; n.a = op(x, br.getCondition()); n.aux = mkEdge(x, f, &B, br.getSuccessor(0)); n.aux2 = mkEdge(x, f, &B, br.getSuccessor(1)); }
      else { n.op = I_BR; n.aux = mkEdge(x, f, &B, br.getSuccessor(0)); }
      break; }
    case Instruction::Switch: {
      auto &s = cast<SwitchInst>(I); n.op = I_SWITCH; n.a = op(x, s.getCondition()); n.w2 = width(s.getCondition()->getType());
      n.aux = mkEdge(x, f, &B, s.getDefaultDest());
      for (auto &c : s.cases()) n.cases.push_back({c.getCaseValue()->getZExtValue(), mkEdge(x, f, &B, c.getCaseSuccessor())});
      break; }
    case Instruction::Ret: {
      n.op = I_RET; if (I.getNumOperands()) n.args = opnds(x, I.getOperand(0)); break; }
    case Instruction::Unreachable: n.op = I_UNREACH; break;
    case Instruction::ExtractValue: {
      auto &e = cast<ExtractValueInst>(I); auto s = opnds(x, e.getAggregateOperand()); unsigned o = aggOffset(e.getAggregateOperand()->getType(), e.getIndices());
      for (unsigned i = 0; i < leafs(I.getType()); i++) { Inst c = n; c.op = I_COPY; c.dst = n.dst + i; c.a = s[o + i]; f.code.push_back(c); }
      return; }
    case Instruction::InsertValue: {
      auto &e = cast<InsertValueInst>(I); auto s = opnds(x, e.getAggregateOperand()); auto v = opnds(x, e.getInsertedValueOperand());
      unsigned o = aggOffset(I.getType(), e.getIndices());
      for (unsigned i = 0; i < s.size(); i++) { Inst c = n; c.op = I_COPY; c.dst = n.dst + i; c.a = i >= o && i < o + v.size() ? v[i - o] : s[i]; f.code.push_back(c); }
      return; }
    case Instruction::Call: {
      auto &c = cast<CallInst>(I);
      if (c.isInlineAsm()) { // empty asm used as optimisation barrier
        if (I.getType()->isVoidTy()) return;
        return bad();
      }
      const Function *cf = c.getCalledFunction();
      if (!cf) if (auto *al = dyn_cast<GlobalAlias>(c.getCalledOperand())) cf = dyn_cast<Function>(al->getAliasee());
      for (unsigned i = 0; i < c.arg_size(); i++) {
        auto v = opnds(x, c.getArgOperand(i));
        std::vector<std::pair<uint64_t, Type *>> lt;
        if (c.getArgOperand(i)->getType()->isMetadataTy()) lt.push_back({0, Type::getInt64Ty(M.getContext())});
        else loadStoreAgg(c.getArgOperand(i)->getType(), 0, lt);
        for (unsigned j = 0; j < v.size(); j++) { n.args.push_back(v[j]); n.ws.push_back(width(lt[j].second)); }
      }
      if (cf && cf->isIntrinsic()) {
        n.op = I_INTRIN; n.sub = intrin(cf->getIntrinsicID());
        if (n.sub == IN_NOP) return;
        if (n.sub == IN_UADDO || n.sub == IN_USUBO || n.sub == IN_UMULO || n.sub == IN_SADDO || n.sub == IN_SSUBO || n.sub == IN_SMULO) n.w = n.ws[0];
        break;
      }
      n.op = I_CALL; n.aux = 0; n.pred = c.doesNotReturn();
      n.aux2 = leafs(I.getType());
      if (cf) { n.sub = 1; n.aux = fid[cf]; } else { n.sub = 0; n.a = op(x, c.getCalledOperand()); }
      break; }
    default: return bad();
    }
    f.code.push_back(n);
  }
  bool run() {
    uint32_t id = 1;
    for (const GlobalVariable &g : M.globals()) gid[&g] = id++;
    for (const Function &F : M) { fid[&F] = P.funcs.size(); Func f; f.name = F.getName().str(); P.byName[f.name] = P.funcs.size(); P.funcs.push_back(f); }
    for (const GlobalVariable &g : M.globals()) {
      GlobalInit gi; gi.id = gid[&g]; gi.size = DL.getTypeAllocSize(g.getValueType()); gi.isconst = g.isConstant(); gi.repo = false; gi.name = g.getName().str();
      gi.bytes.assign(gi.size, 0);
      if (g.hasInitializer()) { bool ok = true; initBytes(g.getInitializer(), gi.bytes.data(), ok); if (!ok) fprintf(stderr, "aardsym: cannot initialise global %s\n", gi.name.c_str()); }
      else if (g.getName() != "llvm.used") fprintf(stderr, "aardsym: external global %s\n", gi.name.c_str());
      { SmallVector<DIGlobalVariableExpression *, 2> dv; g.getDebugInfo(dv);
        for (auto *e : dv) if (auto *v = e->getVariable()) { std::string fn = v->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = v->getDirectory().str() + "/" + fn; if (fn.compare(0, prefix.size(), prefix) == 0) gi.repo = true; } }
      P.globals.push_back(gi);
    }
    for (const Function &F : M) if (!F.isDeclaration()) func(F);
    return true;
  }
};
}
bool loadProgram(const char *bc, const char *prefix, Program &P) {
  static LLVMContext C; SMDiagnostic err;
  auto M = parseIRFile(bc, err, C);
  if (!M) { err.print("aardsym", errs()); return false; }
  Loader L(P, *M, prefix);
  return L.run();
}
