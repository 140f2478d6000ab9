// Loads linked LLVM IR and precompiles it to a compact form shared (read-only) by all worker threads.
#pragma once
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <unordered_map>

enum VK : uint8_t { V_UNDEF, V_I, V_E, V_P, V_SP, V_SEL, V_F, V_R, V_AGG, V_BYTES };
struct Val;
struct SelPtr; struct Agg;
struct Val {
  VK k = V_UNDEF; uint8_t w = 0; // w: bit width (ints/floats)
  int32_t obj = 0;
  union { uint64_t u; double d; E e; PP p; const Agg *g; const SelPtr *s; };
  Val() : u(0) {}
  static Val I(uint64_t v, unsigned w) { Val x; x.k = V_I; x.w = w; x.u = v & maskw(w); return x; }
  static Val Ex(E e) { Val x; if (e->op == O_CONST) return I(e->c, e->w); x.k = V_E; x.w = e->w; x.e = e; return x; }
  static Val P(int o, uint64_t off) { Val x; x.k = V_P; x.w = 64; x.obj = o; x.u = off; return x; }
  static Val SP(int o, E off) { if (off->op == O_CONST) return P(o, off->c); Val x; x.k = V_SP; x.w = 64; x.obj = o; x.e = off; return x; }
  static Val F(double d, unsigned w) { Val x; x.k = V_F; x.w = w; x.d = d; return x; }
  static Val R(PP p, unsigned w) { Val x; if (Ctx::isConst(p)) return F(Ctx::constVal(p), w); x.k = V_R; x.w = w; x.p = p; return x; }
};
struct SelPtr { E c; Val a, b; };
struct Agg { std::vector<Val> v; std::vector<uint8_t> bi; }; // aggregates, or byte lists (v[i], byte index bi[i])

enum TK : uint8_t { T_VOID, T_INT, T_PTR, T_FLOAT, T_AGG };
struct Ty { TK k = T_VOID; uint16_t w = 0; uint32_t bytes = 0; llvm::Type *t = nullptr; };

struct Block; struct Func;
struct Inst {
  unsigned op = 0; int dst = -1; Ty ty; std::vector<int> ops; // >=0 slot, <0 const -(i+1)
  uint8_t pred = 0; int64_t off = 0; std::vector<std::pair<int, int64_t>> scaled; // GEP
  std::vector<int> tgt; std::vector<uint64_t> cases; std::vector<unsigned> idx;
  Func *callee = nullptr; int iid = 0; uint64_t aux = 0; Ty ty2; unsigned line = 0; std::vector<Ty> argTy; const llvm::Instruction *li = nullptr; bool nsw = false;
};
struct Phi { int dst; Ty ty; std::vector<std::pair<int, int>> in; }; // (pred block, op)
struct Block { std::vector<Phi> phis; std::vector<Inst> insts; int ipdom = -1; };
struct Func { std::string name, dem; bool decl = false; int id = 0; int nslots = 0; int nargs = 0; bool vararg = false; std::vector<Block> blocks; int builtin = 0; std::string file; std::vector<Ty> argTy; std::vector<uint64_t> byval; Ty ret; };
struct Glob { std::string name; uint64_t size = 0; bool ext = false, ro = false; llvm::GlobalVariable *gv = nullptr; };

struct Mod {
  llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> m; const llvm::DataLayout *dl = nullptr;
  std::vector<std::unique_ptr<Func>> funcs; std::unordered_map<const llvm::Function *, int> fidx; std::unordered_map<std::string, int> fname;
  std::vector<Glob> globs; std::unordered_map<const llvm::GlobalVariable *, int> gidx;
  std::vector<Val> consts; std::unordered_map<const llvm::Constant *, int> cidx; std::deque<Agg> aggs;
  int firstGlob = 0, firstFunc = 1; // object numbering: 0 null, 1..F functions, then globals
  Ty ty(llvm::Type *t) {
    Ty r; r.t = t; if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy()) return r;
    if (t->isSized()) r.bytes = dl->getTypeStoreSize(t);
    if (t->isIntegerTy()) { r.k = T_INT; r.w = t->getIntegerBitWidth(); if (r.w > 64 && r.w != 128) r.w = 255; }
    else if (t->isPointerTy()) { r.k = T_PTR; r.w = 64; }
    else if (t->isFloatTy()) { r.k = T_FLOAT; r.w = 32; } else if (t->isDoubleTy()) { r.k = T_FLOAT; r.w = 64; } else if (t->isX86_FP80Ty()) { r.k = T_FLOAT; r.w = 80; }
    else r.k = T_AGG;
    return r;
  }
  int funcObj(const llvm::Function *f) { return firstFunc + fidx.at(f); }
  int globObj(const llvm::GlobalVariable *g) { return firstGlob + gidx.at(g); }
  Val constVal(const llvm::Constant *c) {
    using namespace llvm;
    Ty t = ty(c->getType());
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (t.w > 64) { if (ci->getValue().getActiveBits() <= 64) { Val v; v.k = V_I; v.w = 128; v.u = ci->getZExtValue(); return v; } throw Unsupported("wide int constant"); } return Val::I(ci->getZExtValue(), t.w); }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { bool l; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return Val::F(f.convertToDouble(), t.w); }
    if (isa<ConstantPointerNull>(c)) return Val::P(0, 0);
    if (isa<UndefValue>(c)) { if (t.k == T_AGG) return aggOf(c, [&](unsigned i) { return UndefValue::get(elemTy(c->getType(), i)); }); Val v; v.w = t.w; return v; }
    if (auto *f = dyn_cast<Function>(c)) return Val::P(funcObj(f), 0);
    if (auto *g = dyn_cast<GlobalVariable>(c)) return Val::P(globObj(g), 0);
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
    if (isa<ConstantAggregateZero>(c)) return aggOf(c, [&](unsigned i) { return Constant::getNullValue(elemTy(c->getType(), i)); });
    if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) return aggOf(c, [&](unsigned i) { return c->getAggregateElement(i); });
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*dl, off)) throw Unsupported("const gep"); Val b = constVal(ce->getOperand(0)); b.u += off.getSExtValue(); return b; }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::PtrToInt: { Val b = constVal(ce->getOperand(0)); return Val::I(((uint64_t)b.obj << 32) + b.u, t.w); }
        case Instruction::IntToPtr: { Val b = constVal(ce->getOperand(0)); return Val::P(b.u >> 32, b.u & 0xffffffff); }
        case Instruction::Sub: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return Val::I(a.u - b.u, t.w); }
        case Instruction::Add: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return Val::I(a.u + b.u, t.w); }
        case Instruction::Trunc: { Val a = constVal(ce->getOperand(0)); return Val::I(a.u, t.w); }
        default: throw Unsupported(std::string("constant expression ") + ce->getOpcodeName());
      }
    }
    throw Unsupported("constant kind");
  }
  static llvm::Type *elemTy(llvm::Type *t, unsigned i) { if (auto *s = llvm::dyn_cast<llvm::StructType>(t)) return s->getElementType(i); if (auto *a = llvm::dyn_cast<llvm::ArrayType>(t)) return a->getElementType(); return llvm::cast<llvm::VectorType>(t)->getElementType(); }
  static unsigned nElems(llvm::Type *t) { if (auto *s = llvm::dyn_cast<llvm::StructType>(t)) return s->getNumElements(); if (auto *a = llvm::dyn_cast<llvm::ArrayType>(t)) return a->getNumElements(); return llvm::cast<llvm::FixedVectorType>(t)->getNumElements(); }
  template <class Fn> Val aggOf(const llvm::Constant *c, Fn fn) { Agg a; unsigned n = nElems(c->getType()); for (unsigned i = 0; i < n; i++) a.v.push_back(constVal(fn(i))); aggs.push_back(a); Val v; v.k = V_AGG; v.g = &aggs.back(); return v; }
  int constIdx(const llvm::Constant *c) { auto it = cidx.find(c); if (it != cidx.end()) return it->second; Val v;
    try { v = constVal(c); } catch (Unsupported &) { v = Val(); v.k = V_UNDEF; }
    consts.push_back(v); int i = -(int)consts.size(); cidx[c] = i; return i; }
  void load(const std::string &path) {
    llvm::SMDiagnostic err; m = llvm::parseIRFile(path, err, ctx); if (!m) { err.print("symex", llvm::errs()); exit(3); }
    dl = &m->getDataLayout(); int n = 0;
    for (auto &f : *m) { fidx[&f] = n; funcs.push_back(std::make_unique<Func>()); auto &F = *funcs.back(); F.id = n; F.name = f.getName().str(); fname[F.name] = n; n++; }
    firstGlob = firstFunc + n; int g = 0;
    for (auto &gv : m->globals()) { Glob G; G.name = gv.getName().str(); G.gv = &gv; G.ext = !gv.hasInitializer(); G.ro = gv.isConstant(); G.size = gv.getValueType()->isSized() ? (uint64_t)dl->getTypeAllocSize(gv.getValueType()) : 0; if (G.ext && G.size < 512) G.size = 512; globs.push_back(G); gidx[&gv] = g++; }
    for (auto &f : *m) compile(f);
  }
  void compile(llvm::Function &f) {
    using namespace llvm;
    Func &F = *funcs[fidx[&f]]; F.dem = demangle(F.name); F.decl = f.isDeclaration() || (f.getSection() != "vpstub" && (F.name.rfind("_ZSt", 0) == 0 || F.name.rfind("_ZNSt", 0) == 0 || F.name.rfind("_ZNKSt", 0) == 0 || F.name.rfind("_ZNSo", 0) == 0) && (F.dem.find("basic_ostream") != std::string::npos || F.dem.find("std::ostream") != std::string::npos || F.dem.find("ios_base") != std::string::npos || F.dem.find("basic_ios") != std::string::npos)); F.nargs = f.arg_size(); F.vararg = f.isVarArg(); F.ret = ty(f.getReturnType());
    if (auto *sp = f.getSubprogram()) if (sp->getFile()) F.file = (sp->getFile()->getDirectory().empty() || sp->getFile()->getFilename().starts_with("/") ? "" : sp->getFile()->getDirectory().str() + "/") + sp->getFile()->getFilename().str();
    for (auto &a : f.args()) { F.argTy.push_back(ty(a.getType())); F.byval.push_back(a.hasByValAttr() ? (uint64_t)dl->getTypeAllocSize(a.getParamByValType()) : 0); }
    if (F.decl) return;
    std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, int> bb; int ns = 0;
    for (auto &a : f.args()) slot[&a] = ns++;
    int nb = 0; for (auto &b : f) { bb[&b] = nb++; for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = ns++; }
    F.nslots = ns; F.blocks.resize(nb);
    auto opnd = [&](const Value *v) -> int { auto it = slot.find(v); if (it != slot.end()) return it->second; if (auto *c = dyn_cast<Constant>(v)) return constIdx(c); return constIdx(UndefValue::get(Type::getInt32Ty(ctx))); };
    PostDominatorTree pdt(f);
    for (auto &b : f) {
      Block &B = F.blocks[bb[&b]];
      if (auto *nd = pdt.getNode(&b)) if (auto *id = nd->getIDom()) if (id->getBlock()) B.ipdom = bb[id->getBlock()];
      for (auto &i : b) {
        if (auto *ph = dyn_cast<PHINode>(&i)) { Phi p; p.dst = slot[&i]; p.ty = ty(i.getType()); for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) p.in.push_back({bb[ph->getIncomingBlock(k)], opnd(ph->getIncomingValue(k))}); B.phis.push_back(p); continue; }
        Inst I; I.op = i.getOpcode(); I.ty = ty(i.getType()); I.li = &i; if (!i.getType()->isVoidTy()) I.dst = slot[&i];
        if (auto &dlc = i.getDebugLoc()) I.line = dlc.getLine();
        switch (i.getOpcode()) {
          case Instruction::Br: { auto *br = cast<BranchInst>(&i); if (br->isConditional()) { I.ops.push_back(opnd(br->getCondition())); I.tgt = {bb[br->getSuccessor(0)], bb[br->getSuccessor(1)]}; } else I.tgt = {bb[br->getSuccessor(0)]}; break; }
          case Instruction::Switch: { auto *sw = cast<SwitchInst>(&i); I.ops.push_back(opnd(sw->getCondition())); I.tgt.push_back(bb[sw->getDefaultDest()]); for (auto &c : sw->cases()) { I.cases.push_back(c.getCaseValue()->getZExtValue()); I.tgt.push_back(bb[c.getCaseSuccessor()]); } break; }
          case Instruction::GetElementPtr: {
            auto *g = cast<GetElementPtrInst>(&i); I.ops.push_back(opnd(g->getPointerOperand())); int64_t off = 0;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value *ix = it.getOperand();
              if (StructType *st = it.getStructTypeOrNull()) { off += dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
              else { int64_t sz = dl->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz; else I.scaled.push_back({opnd(ix), sz}); } }
            I.off = off; break; }
          case Instruction::Call: case Instruction::Invoke: {
            auto *cb = cast<CallBase>(&i); Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
            if (auto *cf = dyn_cast<Function>(cv)) { I.callee = funcs[fidx[cf]].get(); I.iid = cf->getIntrinsicID(); } else if (isa<InlineAsm>(cv)) { I.iid = -1; } else I.ops.push_back(opnd(cv));
            if (I.iid == Intrinsic::dbg_declare || I.iid == Intrinsic::dbg_value || I.iid == Intrinsic::dbg_label || I.iid == Intrinsic::lifetime_start || I.iid == Intrinsic::lifetime_end || I.iid == Intrinsic::experimental_noalias_scope_decl || I.iid == Intrinsic::assume) continue;
            for (auto &a : cb->args()) { I.ops.push_back(opnd(a.get())); I.argTy.push_back(ty(a->getType())); }
            if (auto *inv = dyn_cast<InvokeInst>(&i)) I.tgt = {bb[inv->getNormalDest()]};
            break; }
          case Instruction::Alloca: { auto *a = cast<AllocaInst>(&i); I.aux = dl->getTypeAllocSize(a->getAllocatedType()); I.ops.push_back(opnd(a->getArraySize())); break; }
          case Instruction::Load: I.ops.push_back(opnd(i.getOperand(0))); break;
          case Instruction::Store: I.ops = {opnd(i.getOperand(0)), opnd(i.getOperand(1))}; I.ty2 = ty(i.getOperand(0)->getType()); break;
          case Instruction::ExtractValue: { auto *x = cast<ExtractValueInst>(&i); I.ops.push_back(opnd(i.getOperand(0))); I.idx.assign(x->idx_begin(), x->idx_end()); break; }
          case Instruction::InsertValue: { auto *x = cast<InsertValueInst>(&i); I.ops = {opnd(i.getOperand(0)), opnd(i.getOperand(1))}; I.idx.assign(x->idx_begin(), x->idx_end()); break; }
          default:
            if (auto *c = dyn_cast<CmpInst>(&i)) I.pred = c->getPredicate();
            for (auto &o : i.operands()) I.ops.push_back(opnd(o.get()));
            if (i.getNumOperands()) I.ty2 = ty(i.getOperand(0)->getType());
        }
        B.insts.push_back(I);
      }
    }
  }
};
