#include "ir.hpp"
#include "link.hpp"
double nowSec();
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/InlineCost.h>
#include <llvm/Transforms/IPO/ModuleInliner.h>
#include <llvm/Transforms/IPO/Inliner.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/GVN.h>
#include <llvm/Transforms/Scalar/JumpThreading.h>
#include <llvm/Transforms/Scalar/MemCpyOptimizer.h>
#include <llvm/Transforms/Scalar/DeadStoreElimination.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/IR/DebugInfo.h>
#include <regex>
#include <fstream>
#include <set>
#include <iostream>
using namespace llvm;
Program P;
// rustc 1.70 aligns 128-bit integers to 8 bytes; LLVM 18's reader upgrades the layout string to 16
void rustcLayout(Module &m) { std::string s = m.getDataLayoutStr(); size_t i = s.find("-i128:128"); if (i != std::string::npos) { s.erase(i, 9); m.setDataLayout(s); } }
static LLVMContext *Ctx; static Module *M; static const DataLayout *DL;
static std::map<const Value *, u64> gaddr; static std::map<const Function *, FuncInfo *> fmap;

std::string rustDemangle(const std::string &s) {
  if (s.compare(0, 3, "_ZN")) return s;
  std::string r; size_t i = 3; bool first = true;
  while (i < s.size() && isdigit(s[i])) {
    size_t n = 0; while (i < s.size() && isdigit(s[i])) n = n * 10 + (s[i++] - '0');
    if (i + n > s.size()) return s;
    std::string seg = s.substr(i, n); i += n;
    if (seg.size() == 17 && seg[0] == 'h') break;
    if (!first) r += "::"; first = false;
    if (seg[0] == '_' && seg.size() > 1 && seg[1] == '$') seg = seg.substr(1);
    for (size_t j = 0; j < seg.size();) {
      if (seg[j] == '$') {
        size_t k = seg.find('$', j + 1); if (k == std::string::npos) { r += seg.substr(j); break; }
        std::string esc = seg.substr(j + 1, k - j - 1);
        if (esc == "LT") r += '<'; else if (esc == "GT") r += '>'; else if (esc == "LP") r += '('; else if (esc == "RP") r += ')'; else if (esc == "C") r += ','; else if (esc == "RF") r += '&'; else if (esc == "BP") r += '*'; else if (esc == "SP") r += '@';
        else if (esc[0] == 'u') r += (char)strtol(esc.c_str() + 1, 0, 16); else r += "$" + esc + "$";
        j = k + 1;
      } else if (seg[j] == '.' && j + 1 < seg.size() && seg[j + 1] == '.') { r += "::"; j += 2; }
      else r += seg[j++];
    }
  }
  return r;
}

static unsigned bitsOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 80; if (t->isHalfTy()) return 16; if (t->isFP128Ty()) return 128;
  std::string s; raw_string_ostream o(s); t->print(o); engineError("unsupported scalar type %s", o.str().c_str());
}
static void leavesOf(Type *t, u64 off, std::vector<Leaf> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); if (at->getNumElements() > 65535) engineError("huge array value"); for (u64 i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), off + i * sz, out); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned b = bitsOf(vt->getElementType()); u64 sz = (b + 7) / 8; for (unsigned i = 0; i < vt->getNumElements(); i++) leavesOf(vt->getElementType(), off + i * sz, out); return; }
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return;
  out.push_back({(u32)off, (u16)bitsOf(t), t->isPointerTy(), t->isFloatingPointTy()});
}
static unsigned nslots(Type *t) { std::vector<Leaf> l; if (t->isIntegerTy() || t->isPointerTy()) return 1; leavesOf(t, 0, l); return l.size(); }

static Val constScalar(const Constant *c);
static u64 constAddrOr(const Constant *c) { Val v = constScalar(c); if (v.e) engineError("wide const as address"); return v.v; }
static Val constScalar(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth(); const APInt &a = ci->getValue();
    if (w <= 64) return CV(a.getZExtValue());
    if (w > 128) engineError("const int width %u", w);
    u128 v = a.extractBitsAsZExtValue(64, 0) | ((u128)a.extractBitsAsZExtValue(w - 64, 64) << 64);
    return Val{X.constant(v, w), 0};
  }
  if (isa<ConstantPointerNull>(c)) return CV(0);
  if (isa<UndefValue>(c)) { unsigned w = bitsOf(c->getType()); return w <= 64 ? CV(0) : Val{X.constant(0, w), 0}; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() > 64) return Val{X.constant(0, a.getBitWidth()), 0}; return CV(a.getZExtValue()); }
  if (auto *gv = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) engineError("no address for global %s", gv->getName().str().c_str()); return CV(it->second); }
  if (auto *f = dyn_cast<Function>(c)) return CV(fmap[f]->addr);
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    unsigned w = bitsOf(ce->getType());
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto *g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) engineError("const gep"); return CV(constAddrOr(cast<Constant>(g->getPointerOperand())) + off.getZExtValue()); }
      case Instruction::PtrToInt: case Instruction::Trunc: return CV(constAddrOr(ce->getOperand(0)) & mask64(w));
      case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::ZExt: case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0));
      case Instruction::Add: return CV((constAddrOr(ce->getOperand(0)) + constAddrOr(ce->getOperand(1))) & mask64(w));
      case Instruction::Sub: return CV((constAddrOr(ce->getOperand(0)) - constAddrOr(ce->getOperand(1))) & mask64(w));
      case Instruction::Mul: return CV((constAddrOr(ce->getOperand(0)) * constAddrOr(ce->getOperand(1))) & mask64(w));
      case Instruction::And: return CV(constAddrOr(ce->getOperand(0)) & constAddrOr(ce->getOperand(1)));
      case Instruction::Or: return CV(constAddrOr(ce->getOperand(0)) | constAddrOr(ce->getOperand(1)));
      case Instruction::Xor: return CV(constAddrOr(ce->getOperand(0)) ^ constAddrOr(ce->getOperand(1)));
      case Instruction::Shl: return CV((constAddrOr(ce->getOperand(0)) << constAddrOr(ce->getOperand(1))) & mask64(w));
      case Instruction::ICmp: { u64 a = constAddrOr(ce->getOperand(0)), b = constAddrOr(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return CV(a == b); case CmpInst::ICMP_NE: return CV(a != b); case CmpInst::ICMP_ULT: return CV(a < b); case CmpInst::ICMP_UGT: return CV(a > b); default: break; } engineError("const icmp"); }
      default: engineError("const expr %s", ce->getOpcodeName());
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o); engineError("const %s", o.str().c_str());
}
static void flatten(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (isa<StructType>(t) || isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { std::vector<Leaf> l; leavesOf(t, 0, l); for (auto &x : l) out.push_back(x.w <= 64 ? CV(0) : Val{X.constant(0, x.w), 0}); return; }
    unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Constant *e = c->getAggregateElement(i); if (!e) engineError("aggregate element"); flatten(e, out); }
    return;
  }
  out.push_back(constScalar(c));
}
static void writeConst(const Constant *c, u64 addr) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { StringRef d = cds->getRawDataValues(); for (size_t i = 0; i < d.size(); i++) P.image.setByte(addr + i, CV((u8)d[i])); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(c->getAggregateElement(i), addr + sl->getElementOffset(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) writeConst(c->getAggregateElement(i), addr + i * sz); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) writeConst(c->getAggregateElement(i), addr + i * sz); return; }
  if (auto *ci = dyn_cast<ConstantInt>(c)) { unsigned nb = (ci->getBitWidth() + 7) / 8; for (unsigned i = 0; i < nb; i++) P.image.setByte(addr + i, CV(ci->getValue().extractBitsAsZExtValue(std::min(8u, ci->getBitWidth() - 8 * i), 8 * i))); return; }
  P.image.store(addr, bitsOf(t), constScalar(c));
}

static std::string fnPretty(const std::string &n) { return rustDemangle(n); }

void loadProgram(const char *path) {
  Ctx = new LLVMContext; SMDiagnostic err; auto m = parseIRFile(path, err, *Ctx);
  if (!m) { err.print("vsym", errs()); exit(3); }
  M = m.release(); rustcLayout(*M); DL = &M->getDataLayout();
  u64 fa = R_FUNC;
  for (auto &f : *M) {
    auto *fi = new FuncInfo; fi->name = f.getName().str(); fi->pretty = fnPretty(fi->name); fi->llvmF = &f; fi->addr = (fa += 64); fi->isDecl = f.isDeclaration(); fi->varargs = f.isVarArg();
    fmap[&f] = fi; P.funcs[fi->name] = fi; P.byAddr[fi->addr] = fi;
  }
  u64 a = R_GLOBAL + 0x10000;
  for (auto &g : M->globals()) {
    u64 al = std::max<u64>(16, g.getAlign().valueOrOne().value()); a = (a + al - 1) / al * al;
    if (g.isDeclaration() && g.hasExternalWeakLinkage()) { gaddr[&g] = 0; continue; }
    gaddr[&g] = a; P.globalAddr[g.getName().str()] = a;
    u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8; a += std::max<u64>(sz, 1) + 16;
  }
  P.globalEnd = a;
  for (auto &g : M->globals()) if (g.hasInitializer()) writeConst(g.getInitializer(), gaddr[&g]);
}

void decodeFunction(FuncInfo *fi) {
  if (fi->decoded) return; fi->decoded = true;
  Function *F = (Function *)fi->llvmF;
  fi->retN = nslots(F->getReturnType());
  std::map<const Value *, int> slot; u32 ns = 0;
  for (auto &arg : F->args()) { unsigned n = nslots(arg.getType()); slot[&arg] = ns; fi->argSlot.push_back(ns); fi->argN.push_back(n); ns += n; }
  if (F->isDeclaration()) { fi->nslots = ns; return; }
  for (auto &bb : *F) for (auto &in : bb) { unsigned n = nslots(in.getType()); if (n) { slot[&in] = ns; ns += n; } }
  fi->nslots = ns;
  std::map<const Value *, int> cslot;
  auto op = [&](const Value *v) -> int {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) {
      auto i2 = cslot.find(v); if (i2 != cslot.end()) return i2->second;
      int idx = ~(int)fi->consts.size(); flatten(c, fi->consts); cslot[v] = idx; return idx;
    }
    if (isa<InlineAsm>(v) || isa<MetadataAsValue>(v)) { int idx = ~(int)fi->consts.size(); fi->consts.push_back(CV(0)); return idx; }
    std::string s; raw_string_ostream o(s); v->print(o); engineError("operand %s in %s", o.str().c_str(), fi->pretty.c_str());
  };
  std::map<const BasicBlock *, u32> bbpc; std::vector<std::pair<Edge *, std::pair<const BasicBlock *, const BasicBlock *>>> fix;
  struct PendE { size_t inst; size_t ei; const BasicBlock *from, *to; }; std::vector<PendE> pend;
  for (auto &bb : *F) {
    bbpc[&bb] = fi->code.size();
    for (auto &in : bb) {
      if (isa<PHINode>(in) || isa<DbgInfoIntrinsic>(in)) continue;
      Inst I; memset(&I, 0, sizeof I); I.dst = slot.count(&in) ? slot[&in] : -1; I.n = 1;
      auto ext = [&]() { if (!I.x) I.x = new Ext; return I.x; };
      auto addEdge = [&](const BasicBlock *to) { ext()->edges.push_back({}); pend.push_back({fi->code.size(), ext()->edges.size() - 1, &bb, to}); };
      Type *T = in.getType();
      auto laneInfo = [&](Type *t, u16 &n, u16 &w) { if (auto *vt = dyn_cast<FixedVectorType>(t)) { n = vt->getNumElements(); w = bitsOf(vt->getElementType()); } else { n = 1; w = bitsOf(t); } };
      if (auto *b = dyn_cast<BinaryOperator>(&in)) {
        laneInfo(T, I.n, I.w); I.a = op(b->getOperand(0)); I.b = op(b->getOperand(1));
        I.op = O_BIN;
        switch (b->getOpcode()) {
          case Instruction::Add: I.sub = K_ADD; break; case Instruction::Sub: I.sub = K_SUB; break; case Instruction::Mul: I.sub = K_MUL; break;
          case Instruction::UDiv: I.sub = K_UDIV; break; case Instruction::SDiv: I.sub = K_SDIV; break; case Instruction::URem: I.sub = K_UREM; break; case Instruction::SRem: I.sub = K_SREM; break;
          case Instruction::And: I.sub = K_AND; break; case Instruction::Or: I.sub = K_OR; break; case Instruction::Xor: I.sub = K_XOR; break;
          case Instruction::Shl: I.sub = K_SHL; break; case Instruction::LShr: I.sub = K_LSHR; break; case Instruction::AShr: I.sub = K_ASHR; break;
          case Instruction::FAdd: I.op = O_FBIN; I.sub = 0; break; case Instruction::FSub: I.op = O_FBIN; I.sub = 1; break; case Instruction::FMul: I.op = O_FBIN; I.sub = 2; break; case Instruction::FDiv: I.op = O_FBIN; I.sub = 3; break; case Instruction::FRem: I.op = O_FBIN; I.sub = 4; break;
          default: engineError("binop");
        }
      } else if (auto *c = dyn_cast<ICmpInst>(&in)) {
        I.op = O_ICMP; laneInfo(c->getOperand(0)->getType(), I.n, I.w); I.a = op(c->getOperand(0)); I.b = op(c->getOperand(1)); I.sub = c->getPredicate() - CmpInst::ICMP_EQ;
      } else if (auto *c = dyn_cast<FCmpInst>(&in)) {
        I.op = O_FCMP; laneInfo(c->getOperand(0)->getType(), I.n, I.w); I.a = op(c->getOperand(0)); I.b = op(c->getOperand(1)); I.sub = c->getPredicate();
      } else if (auto *u = dyn_cast<UnaryOperator>(&in)) { I.op = O_FNEG; laneInfo(T, I.n, I.w); I.a = op(u->getOperand(0)); }
      else if (auto *c = dyn_cast<CastInst>(&in)) {
        I.a = op(c->getOperand(0)); Type *S = c->getSrcTy();
        switch (c->getOpcode()) {
          case Instruction::Trunc: I.op = O_TRUNC; laneInfo(T, I.n, I.w); laneInfo(S, I.n, I.w2); break;
          case Instruction::ZExt: I.op = O_ZEXT; laneInfo(S, I.n, I.w2); laneInfo(T, I.n, I.w); break;
          case Instruction::SExt: I.op = O_SEXT; laneInfo(S, I.n, I.w2); laneInfo(T, I.n, I.w); break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: { laneInfo(S, I.n, I.w2); laneInfo(T, I.n, I.w); I.op = I.w < I.w2 ? O_TRUNC : I.w > I.w2 ? O_ZEXT : O_COPY; break; }
          case Instruction::BitCast: case Instruction::AddrSpaceCast: { u16 n1, w1, n2, w2; laneInfo(S, n1, w1); laneInfo(T, n2, w2); if (n1 == n2) { I.op = O_COPY; I.n = n1; } else { I.op = O_BITCAST; I.n = n2; I.w = w2; I.w2 = w1; I.imm = n1; } break; }
          default: I.op = O_FPCAST; switch (c->getOpcode()) { case Instruction::FPToUI: I.sub = 41; break; case Instruction::FPToSI: I.sub = 42; break; case Instruction::UIToFP: I.sub = 43; break; case Instruction::SIToFP: I.sub = 44; break; default: I.sub = 45; } laneInfo(S, I.n, I.w2); laneInfo(T, I.n, I.w); break;
        }
      } else if (auto *s = dyn_cast<SelectInst>(&in)) {
        I.op = O_SELECT; I.a = op(s->getCondition()); I.b = op(s->getTrueValue()); I.c = op(s->getFalseValue()); leavesOf(T, 0, ext()->leaves); I.n = ext()->leaves.size(); I.imm = nslots(s->getCondition()->getType());
      } else if (auto *l = dyn_cast<LoadInst>(&in)) {
        I.op = O_LOAD; I.a = op(l->getPointerOperand()); std::vector<Leaf> lv; leavesOf(T, 0, lv); I.n = lv.size();
        if (I.n == 1) I.w = lv[0].w; 
        if (isa<FixedVectorType>(T) && lv[0].w < 8) { I.imm = 1; I.w = lv[0].w; }
        if (I.n != 1) ext()->leaves = lv;
      } else if (auto *s = dyn_cast<StoreInst>(&in)) {
        I.op = O_STORE; I.a = op(s->getPointerOperand()); I.b = op(s->getValueOperand()); std::vector<Leaf> lv; leavesOf(s->getValueOperand()->getType(), 0, lv); I.n = lv.size();
        if (I.n == 1) I.w = lv[0].w;
        if (isa<FixedVectorType>(s->getValueOperand()->getType()) && lv[0].w < 8) { I.imm = 1; I.w = lv[0].w; }
        if (I.n != 1) ext()->leaves = lv;
      } else if (auto *al = dyn_cast<AllocaInst>(&in)) {
        I.op = O_ALLOCA; I.imm = DL->getTypeAllocSize(al->getAllocatedType()); I.a = op(al->getArraySize()); I.b = al->getAlign().value();
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&in)) {
        I.op = O_GEP; if (T->isVectorTy()) engineError("vector gep"); I.a = op(g->getPointerOperand()); ext(); u64 off = 0;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value *idx = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          u64 sz = DL->getTypeAllocSize(it.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * sz;
          else I.x->terms.push_back({op(idx), sz, (u16)bitsOf(idx->getType())});
        }
        I.imm = off;
      } else if (auto *b = dyn_cast<BranchInst>(&in)) {
        if (b->isUnconditional()) { I.op = O_JMP; addEdge(b->getSuccessor(0)); }
        else { I.op = O_BR; I.a = op(b->getCondition()); addEdge(b->getSuccessor(0)); addEdge(b->getSuccessor(1)); }
      } else if (auto *s = dyn_cast<SwitchInst>(&in)) {
        I.op = O_SWITCH; I.a = op(s->getCondition()); I.w = bitsOf(s->getCondition()->getType());
        std::map<const BasicBlock *, u32> em; auto eid = [&](const BasicBlock *t) { auto it = em.find(t); if (it != em.end()) return it->second; addEdge(t); return em[t] = I.x->edges.size() - 1; };
        eid(s->getDefaultDest());
        for (auto &cs : s->cases()) { Val v = constScalar(cs.getCaseValue()); u32 e = eid(cs.getCaseSuccessor()); I.x->cases.push_back({v.e ? v.e->cval() : v.v, e}); }
      } else if (auto *r = dyn_cast<ReturnInst>(&in)) {
        I.op = O_RET; I.n = 0; if (r->getReturnValue()) { I.a = op(r->getReturnValue()); I.n = nslots(r->getReturnValue()->getType()); }
      } else if (isa<UnreachableInst>(in)) I.op = O_UNREACHABLE;
      else if (auto *cb = dyn_cast<CallBase>(&in)) {
        I.op = O_CALL; ext(); I.x->retN = nslots(T); if (I.x->retN) { std::vector<Leaf> l; leavesOf(T, 0, l); I.x->retW = l[0].w; }
        for (unsigned i = 0; i < cb->arg_size(); i++) { Value *av = cb->getArgOperand(i); if (av->getType()->isMetadataTy()) { I.x->args.push_back(op(av)); I.x->argN.push_back(1); I.x->argW.push_back(0); I.x->byval.push_back(0); continue; } I.x->args.push_back(op(av)); I.x->argN.push_back(nslots(av->getType())); std::vector<Leaf> l; leavesOf(av->getType(), 0, l); I.x->argW.push_back(l.empty() ? 0 : l[0].w); I.x->byval.push_back(cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue() : 0); }
        if (auto *ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) { I.x->name = "asm:" + std::string(ia->getAsmString()); I.x->builtin = findBuiltin(I.x->name, I.x->name); if (!I.x->builtin) { } }
        else if (auto *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases())) {
          auto *ci = fmap[cf]; I.x->callee = ci; I.x->name = ci->name;
          if (ci->isDecl) { I.x->builtin = findBuiltin(ci->name, ci->pretty); }
          std::vector<Leaf> l; if (cb->arg_size()) leavesOf(cb->getArgOperand(0)->getType(), 0, l); if (!l.empty()) { I.w = l[0].w; I.n = l.size(); }
        } else { I.a = op(cb->getCalledOperand()); I.x->name = "<indirect>"; }
        if (auto *iv = dyn_cast<InvokeInst>(&in)) addEdge(iv->getNormalDest());
      } else if (auto *e = dyn_cast<ExtractElementInst>(&in)) { I.op = O_EXTELT; I.a = op(e->getVectorOperand()); I.b = op(e->getIndexOperand()); I.n = nslots(e->getVectorOperand()->getType()); I.w = bitsOf(e->getIndexOperand()->getType()); }
      else if (auto *e = dyn_cast<InsertElementInst>(&in)) { I.op = O_INSELT; I.a = op(e->getOperand(0)); I.b = op(e->getOperand(1)); I.c = op(e->getOperand(2)); I.n = nslots(T); I.w = bitsOf(e->getOperand(2)->getType()); }
      else if (auto *s = dyn_cast<ShuffleVectorInst>(&in)) { I.op = O_SHUFFLE; I.a = op(s->getOperand(0)); I.b = op(s->getOperand(1)); I.n = nslots(s->getOperand(0)->getType()); for (int m : s->getShuffleMask()) ext()->shuf.push_back(m); }
      else if (auto *ev = dyn_cast<ExtractValueInst>(&in)) {
        Type *t = ev->getAggregateOperand()->getType(); int base = op(ev->getAggregateOperand()); unsigned off = 0;
        for (unsigned ix : ev->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += nslots(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * nslots(at->getElementType()); t = at->getElementType(); } }
        I.op = O_COPY; I.n = nslots(t); I.a = base >= 0 ? base + (int)off : base - (int)off;
      } else if (auto *iv = dyn_cast<InsertValueInst>(&in)) {
        Type *t = iv->getAggregateOperand()->getType(); unsigned off = 0;
        for (unsigned ix : iv->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += nslots(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * nslots(at->getElementType()); t = at->getElementType(); } }
        I.op = O_INSVAL; I.a = op(iv->getAggregateOperand()); I.b = op(iv->getInsertedValueOperand()); I.n = nslots(T); I.w = off; I.w2 = nslots(t);
      } else if (auto *r = dyn_cast<AtomicRMWInst>(&in)) { I.op = O_RMW; I.sub = r->getOperation(); I.a = op(r->getPointerOperand()); I.b = op(r->getValOperand()); I.w = bitsOf(r->getValOperand()->getType()); }
      else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&in)) { I.op = O_CMPXCHG; I.a = op(x->getPointerOperand()); I.b = op(x->getCompareOperand()); I.c = op(x->getNewValOperand()); I.w = bitsOf(x->getCompareOperand()->getType()); }
      else if (isa<FenceInst>(in)) continue;
      else if (isa<FreezeInst>(in)) { I.op = O_COPY; I.n = nslots(T); I.a = op(in.getOperand(0)); }
      else if (isa<LandingPadInst>(in)) I.op = O_LANDINGPAD;
      else if (isa<ResumeInst>(in)) I.op = O_RESUME;
      else if (auto *va = dyn_cast<VAArgInst>(&in)) { (void)va; engineError("va_arg"); }
      else { std::string s; raw_string_ostream o(s); in.print(o); engineError("instruction %s", o.str().c_str()); }
      fi->code.push_back(I);
    }
  }
  for (auto &p : pend) {
    Edge &e = fi->code[p.inst].x->edges[p.ei]; e.target = bbpc[p.to];
    for (auto &in : *p.to) { auto *ph = dyn_cast<PHINode>(&in); if (!ph) break; int n = nslots(ph->getType()); if (!n) continue; e.phis.push_back({slot[ph], op(ph->getIncomingValueForBlock(p.from)), n}); }
  }
}

// ---------------------------------------------------------------- prep
// vsym prep IN OUT --entries a,b,c --stubs FILE
// stub lines:  redirect <regex> <target-symbol> | extern <regex> <name-prefix> | ret0 <regex>
int prepMain(int argc, char **argv) {
  std::string in = argv[0], out = argv[1]; std::set<std::string> entries; std::vector<std::string> stubs, rlibs; bool opt = true; bool list = false; double t0 = nowSec();
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entries") { std::string s = argv[++i], cur; for (char c : s + ",") { if (c == ',') { if (!cur.empty()) entries.insert(cur); cur.clear(); } else cur += c; } }
    else if (a == "--stubs") stubs.push_back(argv[++i]); else if (a == "--rlibs") { std::ifstream f(argv[++i]); std::string l; while (std::getline(f, l)) if (!l.empty()) rlibs.push_back(l); }
    else if (a == "--no-opt") opt = false; else if (a == "--list") list = true;
  }
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(in, err, ctx); if (!m) { err.print("vsym", errs()); return 3; } rustcLayout(*m);
  for (auto &e : entries) if (!m->getFunction(e) || m->getFunction(e)->isDeclaration()) { fprintf(stderr, "vsym: entry %s is not in the module\n", e.c_str()); return 3; }
  for (auto &r : rlibs) if (!linkIndex(r)) { fprintf(stderr, "vsym: cannot read %s\n", r.c_str()); return 3; }
  double t1 = nowSec();
  struct Rule { int kind; std::regex re; std::string arg, src; int hits; }; std::vector<Rule> rules;
  for (auto &sf : stubs) {
    std::ifstream f(sf); std::string line; if (!f) { fprintf(stderr, "cannot open %s\n", sf.c_str()); return 3; }
    while (std::getline(f, line)) {
      if (line.empty() || line[0] == '#') continue; size_t p = line.find('\t'); if (p == std::string::npos) continue; std::string k = line.substr(0, p); std::string rest = line.substr(p + 1); std::string arg; size_t q = rest.find('\t'); if (q != std::string::npos) { arg = rest.substr(q + 1); rest = rest.substr(0, q); }
      int kind = k == "redirect" ? 0 : k == "extern" ? 1 : k == "ret0" ? 2 : k == "noinline" ? 3 : -1; if (kind < 0) { fprintf(stderr, "bad stub rule %s\n", line.c_str()); return 3; }
      rules.push_back({kind, std::regex(rest, std::regex::optimize), arg, rest, 0});
    }
  }
  std::set<std::string> checked; int np = 0;
  auto applyStubs = [&]() {
    std::vector<std::pair<Function *, Rule *>> todo;
    for (auto &f : *m) {
      if (f.isIntrinsic()) continue; std::string ln = f.getName().str(); if (entries.count(ln) || !checked.insert(ln).second) continue; std::string pn = rustDemangle(ln);
      if (list) puts(pn.c_str());
      for (auto &r : rules) if (std::regex_search(pn, r.re)) { todo.push_back({&f, &r}); break; }
    }
    for (auto &[f, r] : todo) {
      if (r->kind == 0) {
        Function *t = m->getFunction(r->arg); if (!t) continue; /* the harness has no stand-in */
        if (t == f) continue;
        if (t->getFunctionType() != f->getFunctionType()) { std::string a, b; raw_string_ostream oa(a), ob(b); t->getFunctionType()->print(oa); f->getFunctionType()->print(ob); fprintf(stderr, "stub type mismatch %s: %s vs %s\n", f->getName().str().c_str(), oa.str().c_str(), ob.str().c_str()); exit(3); }
        f->replaceAllUsesWith(t); r->hits++;
      } else if (r->kind == 1) {
        r->hits++; std::string pn = rustDemangle(f->getName().str());
        if (!f->isDeclaration()) f->deleteBody(); f->setComdat(nullptr); f->setLinkage(GlobalValue::ExternalLinkage);
        f->removeFnAttr(Attribute::Memory);
        f->setName(r->arg + "$" + pn + "$" + std::to_string(np++));
      } else if (r->kind == 3) { r->hits++; f->removeFnAttr(Attribute::AlwaysInline); f->removeFnAttr(Attribute::InlineHint); f->addFnAttr(Attribute::NoInline); checked.erase(f->getName().str()); }
      else {
        r->hits++; f->deleteBody(); f->setLinkage(GlobalValue::InternalLinkage); f->setComdat(nullptr); auto *bb = BasicBlock::Create(ctx, "e", f); Type *t = f->getReturnType();
        if (t->isVoidTy()) ReturnInst::Create(ctx, bb); else ReturnInst::Create(ctx, Constant::getNullValue(t), bb);
      }
    }
    if (auto *u = m->getGlobalVariable("llvm.used")) u->eraseFromParent();
    if (auto *u = m->getGlobalVariable("llvm.compiler.used")) u->eraseFromParent();
  };
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false;
  PassBuilder PB(nullptr, pto); PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto prune = [&](bool full) {
    applyStubs(); if (!full) return;
    // global dead code elimination that does not internalize yet (rlib modules refer to these by name)
    std::set<GlobalValue *> live; std::vector<GlobalValue *> wl; auto add = [&](GlobalValue *g) { if (live.insert(g).second) wl.push_back(g); };
    std::function<void(Constant *, std::set<Constant *> &)> visit = [&](Constant *c, std::set<Constant *> &seen) { if (auto *g = dyn_cast<GlobalValue>(c)) { add(g); return; } if (!seen.insert(c).second) return; for (auto &o : c->operands()) if (auto *oc = dyn_cast<Constant>(o)) visit(oc, seen); };
    for (auto &e : entries) add(m->getFunction(e)); std::set<Constant *> seen;
    while (!wl.empty()) { auto *g = wl.back(); wl.pop_back();
      if (auto *f = dyn_cast<Function>(g)) { if (f->hasPersonalityFn()) visit(f->getPersonalityFn(), seen); for (auto &bb : *f) for (auto &in : bb) for (auto &o : in.operands()) if (auto *c = dyn_cast<Constant>(o)) visit(c, seen); }
      else if (auto *v = dyn_cast<GlobalVariable>(g)) { if (v->hasInitializer()) visit(v->getInitializer(), seen); }
      else if (auto *a = dyn_cast<GlobalAlias>(g)) visit(a->getAliasee(), seen); }
    std::vector<GlobalValue *> dead; for (auto &f : *m) if (!live.count(&f)) dead.push_back(&f); for (auto &v : m->globals()) if (!live.count(&v)) dead.push_back(&v); for (auto &a : m->aliases()) if (!live.count(&a)) dead.push_back(&a);
    for (auto *g : dead) { if (auto *f = dyn_cast<Function>(g)) { if (!f->isDeclaration()) f->deleteBody(); } else if (auto *v = dyn_cast<GlobalVariable>(g)) { if (v->hasInitializer()) { v->setInitializer(nullptr); v->setLinkage(GlobalValue::ExternalLinkage); v->setComdat(nullptr); } } }
    for (auto *g : dead) { g->removeDeadConstantUsers(); }
    for (auto *g : dead) { if (g->use_empty()) g->eraseFromParent(); }
  };
  linkNeeded(*m, prune); prune(true);
  if (list) return 0;
  double t2 = nowSec();
  for (auto &r : rules) if (getenv("VSYM_STUB_VERBOSE")) fprintf(stderr, "stub %s: %d\n", r.src.c_str(), r.hits);
  StripDebugInfo(*m);
  size_t nf = 0, ni = 0; for (auto &f : *m) if (!f.isDeclaration()) { nf++; ni += f.getInstructionCount(); }
  { ModulePassManager MPM; MPM.addPass(InternalizePass([&](const GlobalValue &g) { return entries.count(g.getName().str()) > 0; })); MPM.addPass(GlobalDCEPass()); MPM.run(*m, MAM); }
  if (opt) { ModulePassManager MPM; if (getenv("VSYM_O")) MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); else {
    auto basic = [] { FunctionPassManager F; F.addPass(SROAPass(SROAOptions::ModifyCFG)); F.addPass(EarlyCSEPass()); F.addPass(SimplifyCFGPass()); F.addPass(InstCombinePass(InstCombineOptions().setMaxIterations(1))); F.addPass(SimplifyCFGPass()); return F; };
    MPM.addPass(createModuleToFunctionPassAdaptor(basic())); ModuleInlinerWrapperPass W(getInlineParams(2, 0)); W.getPM().addPass(createCGSCCToFunctionPassAdaptor(basic())); MPM.addPass(std::move(W)); MPM.addPass(GlobalDCEPass()); FunctionPassManager F; F.addPass(SROAPass(SROAOptions::ModifyCFG)); F.addPass(EarlyCSEPass(true)); F.addPass(JumpThreadingPass()); F.addPass(GVNPass()); F.addPass(MemCpyOptPass()); F.addPass(DSEPass()); F.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchRangeToICmp(true).hoistCommonInsts(true).sinkCommonInsts(true).forwardSwitchCondToPhi(true))); F.addPass(InstCombinePass(InstCombineOptions().setMaxIterations(1))); F.addPass(SimplifyCFGPass()); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(F))); } MPM.addPass(GlobalDCEPass()); MPM.run(*m, MAM); }
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*m, os);
  fprintf(stderr, "prep: index %.1fs link %.1fs (%zu functions, %zu instructions) opt %.1fs\n", t1 - t0, t2 - t1, nf, ni, nowSec() - t2); return 0;
}
