#include "ir.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Demangle/Demangle.h>
#include <unordered_map>
#include <unordered_set>
#include <cstring>
using namespace llvm;

std::string gLoaderError;
int (*builtinIndex)(const std::string &name) = nullptr;
static LLVMContext Ctx;
static std::vector<std::unique_ptr<Module>> Mods;
static std::map<std::string, Func *> gFuncs;
static std::unordered_map<const Function *, Func *> gFuncOf;       // resolved
static std::unordered_map<uint64_t, Func *> gFuncAt;
static std::unordered_map<const GlobalVariable *, uint64_t> gAddrOf;
static std::map<std::string, std::pair<Global *, uint64_t>> gGlobals;
static std::vector<std::string> gCtors;
static std::unordered_map<std::string, Function *> gDef;           // defining function by name
static std::unordered_map<std::string, GlobalVariable *> gVarDef;
static uint64_t gNextFuncAddr = 0x10000;
static PassBuilder *PB; static LoopAnalysisManager LAM; static FunctionAnalysisManager FAM; static CGSCCAnalysisManager CGAM; static ModuleAnalysisManager MAM;
static FunctionPassManager FPM;

std::string demangle(const std::string &s) { return llvm::demangle(s); }

static std::string symName(const GlobalValue *g) {
  std::string n = g->getName().str();
  if (g->hasLocalLinkage()) {
    unsigned i = 0; for (auto &m : Mods) { if (m.get() == g->getParent()) break; i++; }
    n += "#" + std::to_string(i);
  }
  return n;
}

void loaderInit(const std::vector<std::string> &files) {
  PB = new PassBuilder();
  PB->registerModuleAnalyses(MAM); PB->registerCGSCCAnalyses(CGAM); PB->registerFunctionAnalyses(FAM); PB->registerLoopAnalyses(LAM);
  PB->crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
  FPM.addPass(EarlyCSEPass(true));
  FPM.addPass(SimplifyCFGPass());
  FPM.addPass(InstCombinePass());
  FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
  FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchRangeToICmp(false)));
  FPM.addPass(EarlyCSEPass(true));
  FPM.addPass(InstCombinePass());
  for (auto &f : files) {
    SMDiagnostic err;
    auto m = getLazyIRFileModule(f, err, Ctx);
    if (!m) { std::string s; raw_string_ostream os(s); err.print("engine", os); fprintf(stderr, "cannot load %s: %s\n", f.c_str(), s.c_str()); exit(3); }
    Mods.push_back(std::move(m));
  }
  // definitions: the first module that defines a symbol strongly, else the first weak one.
  // (Model modules are listed first, so their definitions replace those of the headers.)
  for (auto &m : Mods) {
    for (auto &f : *m) if (!f.isDeclaration() && !f.hasLocalLinkage()) {
      auto &d = gDef[f.getName().str()];
      bool first = !d;
      if (first || (d->isWeakForLinker() && !f.isWeakForLinker() && d->getParent() != Mods[0].get())) d = &f;
    }
    for (auto &g : m->globals()) if (!g.isDeclaration() && !g.hasLocalLinkage() && !g.hasAppendingLinkage()) {
      auto &d = gVarDef[g.getName().str()];
      if (!d || (d->isWeakForLinker() && !g.isWeakForLinker())) d = &g;
    }
    for (auto &a : m->aliases()) if (!a.hasLocalLinkage()) if (auto *f = dyn_cast<Function>(a.getAliasee()->stripPointerCasts())) {
      auto &d = gDef[a.getName().str()]; if (!d) d = f;
    }
  }
  // a definition called __ov_X replaces X everywhere
  for (auto &m : Mods) for (auto &f : *m) if (!f.isDeclaration() && f.getName().starts_with("__ov_")) gDef[f.getName().substr(5).str()] = &f;
  for (auto &m : Mods) if (auto *g = m->getGlobalVariable("llvm.global_ctors")) {
    if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) {
      std::vector<std::pair<uint64_t, std::string>> v;
      for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o);
        if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), symName(fn)}); }
      std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &p : v) gCtors.push_back(p.second);
    }
  }
}
const std::vector<std::string> &loaderCtorOrder() { return gCtors; }

static Func *getFunc(const Function *f0) {
  auto it = gFuncOf.find(f0);
  if (it != gFuncOf.end()) return it->second;
  std::string n = symName(f0);
  Func *r;
  auto i2 = gFuncs.find(n);
  if (i2 != gFuncs.end()) r = i2->second;
  else {
    r = new Func(); r->name = n; r->addr = gNextFuncAddr; gNextFuncAddr += 16; gFuncAt[r->addr] = r;
    Function *d = const_cast<Function *>(f0);
    if (!f0->hasLocalLinkage()) { auto di = gDef.find(n); if (di != gDef.end()) d = di->second; }
    r->builtin = builtinIndex(n);
    if (d->isDeclaration() && !d->isMaterializable()) r->external = true; else r->llvm = d;
    gFuncs[n] = r;
  }
  gFuncOf[f0] = r;
  return r;
}
Func *loaderFunc(const std::string &name) {
  auto it = gFuncs.find(name); if (it != gFuncs.end()) return it->second;
  size_t h = name.find('#');
  if (h != std::string::npos) { unsigned i = atoi(name.c_str() + h + 1); if (auto *f = Mods[i]->getFunction(name.substr(0, h))) return getFunc(f); return nullptr; }
  auto d = gDef.find(name); if (d != gDef.end()) {
    if (d->second->getName() != name) return getFunc(d->second);
    return getFunc(d->second); }
  return nullptr;
}
Func *loaderFuncAny(const std::string &name) {
  if (Func *f = loaderFunc(name)) return f; if (name.empty()) return nullptr;
  Func *r = new Func(); r->name = name; r->addr = gNextFuncAddr; gNextFuncAddr += 16; gFuncAt[r->addr] = r; r->builtin = builtinIndex(name); r->external = true; return gFuncs[name] = r;
}
Func *funcAt(uint64_t a) { auto it = gFuncAt.find(a); return it == gFuncAt.end() ? nullptr : it->second; }

static uint64_t addrOfGlobal(const GlobalVariable *g0) {
  auto it = gAddrOf.find(g0); if (it != gAddrOf.end()) return it->second;
  std::string n = symName(g0);
  auto i2 = gGlobals.find(n); uint64_t a;
  if (i2 != gGlobals.end()) a = i2->second.second;
  else {
    GlobalVariable *d = const_cast<GlobalVariable *>(g0);
    if (!g0->hasLocalLinkage()) { auto di = gVarDef.find(n); if (di != gVarDef.end()) d = di->second; }
    Global *g = new Global(); g->name = n; g->llvm = d; g->module = d->getParent();
    g->external = d->isDeclaration(); g->constant = d->isConstant();
    g->size = d->getParent()->getDataLayout().getTypeAllocSize(d->getValueType());
    if (g->external && g->size < 64) g->size = 64;
    a = allocGlobalAddress(g); gGlobals[n] = {g, a};
  }
  return gAddrOf[g0] = a;
}
Global *globalByName(const std::string &n) { auto it = gGlobals.find(n); return it == gGlobals.end() ? nullptr : it->second.first; }

static const DataLayout &DL() { return Mods[0]->getDataLayout(); }

// ------------------------------------------------------------ constants
static uint64_t constScalar(const Constant *c);
static uint64_t constExpr(const ConstantExpr *ce) {
  switch (ce->getOpcode()) {
  case Instruction::GetElementPtr: {
    auto *g = cast<GEPOperator>(ce); APInt off(64, 0);
    if (!g->accumulateConstantOffset(DL(), off)) { gLoaderError = "constant gep"; return 0; }
    return constScalar(cast<Constant>(g->getPointerOperand())) + off.getSExtValue(); }
  case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
    { uint64_t v = constScalar(ce->getOperand(0)); unsigned w = DL().getTypeSizeInBits(ce->getType()); return v & maskw(w); }
  case Instruction::Trunc: return constScalar(ce->getOperand(0)) & maskw(ce->getType()->getIntegerBitWidth());
  case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(ce->getType()->getIntegerBitWidth());
  case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(ce->getType()->getIntegerBitWidth());
  default: gLoaderError = "constant expression " + std::string(ce->getOpcodeName()); return 0;
  }
}
static uint64_t fpBits(const APFloat &f) { 
  if (&f.getSemantics() == &APFloat::x87DoubleExtended()) { APFloat g = f; bool l; g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return g.bitcastToAPInt().getZExtValue(); }
  return f.bitcastToAPInt().getZExtValue(); }
static uint64_t constScalar(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() <= 64 ? i->getZExtValue() : i->getValue().getRawData()[0];
  if (auto *f = dyn_cast<ConstantFP>(c)) return fpBits(f->getValueAPF());
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto *f = dyn_cast<Function>(c)) return getFunc(f)->addr;
  if (auto *g = dyn_cast<GlobalVariable>(c)) return addrOfGlobal(g);
  if (auto *a = dyn_cast<GlobalAlias>(c)) {
    auto *t = a->getAliasee()->stripPointerCasts();
    if (auto *f = dyn_cast<Function>(t)) { (void)f; Func *r = loaderFunc(a->getName().str()); if (!r || a->hasLocalLinkage()) r = getFunc(f); return r->addr; }
    return constScalar(a->getAliasee()); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) return constExpr(ce);
  gLoaderError = "constant kind"; return 0;
}
static void fillConst(const Constant *c, uint8_t *p, size_t n) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { 
    StringRef raw = d->getRawDataValues(); memcpy(p, raw.data(), std::min(n, raw.size())); return; }
  if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = DL().getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) { uint64_t o = sl->getElementOffset(i); fillConst(s->getOperand(i), p + o, n - o); } return; }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { uint64_t es = DL().getTypeAllocSize(t->getContainedType(0));
    for (unsigned i = 0; i < c->getNumOperands(); i++) fillConst(cast<Constant>(c->getOperand(i)), p + i * es, es); return; }
  unsigned sz = DL().getTypeStoreSize(t);
  if (auto *ci = dyn_cast<ConstantInt>(c); ci && ci->getBitWidth() > 64) { memcpy(p, ci->getValue().getRawData(), sz); return; }
  uint64_t v = constScalar(c);
  memcpy(p, &v, std::min<size_t>(sz, 8));
}
void globalInit(Global &g, std::vector<uint8_t> &bytes) {
  auto *v = (GlobalVariable *)g.llvm;
  bytes.assign(g.size, 0);
  if (g.external) return;
  if (v->hasInitializer()) fillConst(v->getInitializer(), bytes.data(), bytes.size());
}

// ------------------------------------------------------------ types
struct Leaf { uint64_t off; unsigned bits; };
static bool flatten(Type *t, uint64_t off, std::vector<Leaf> &out) {
  if (t->isVoidTy()) return true;
  if (t->isIntegerTy()) { unsigned b = t->getIntegerBitWidth(); 
    if (b > 64) { if (b != 128) return false; out.push_back({off, 64}); out.push_back({off + 8, 64}); return true; }
    out.push_back({off, b}); return true; }
  if (t->isPointerTy()) { out.push_back({off, 64}); return true; }
  if (t->isFloatTy()) { out.push_back({off, 32}); return true; }
  if (t->isDoubleTy() || t->isX86_FP80Ty()) { out.push_back({off, 64}); return true; }
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL().getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) if (!flatten(s->getElementType(i), off + sl->getElementOffset(i), out)) return false; return true; }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL().getTypeAllocSize(a->getElementType());
    for (uint64_t i = 0; i < a->getNumElements(); i++) if (!flatten(a->getElementType(), off + i * es, out)) return false; return true; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL().getTypeStoreSize(v->getElementType());
    if (v->getElementType()->isIntegerTy(1)) es = 1;
    for (uint64_t i = 0; i < v->getNumElements(); i++) if (!flatten(v->getElementType(), off + i * es, out)) return false; return true; }
  return false;
}
static std::unordered_map<Type *, std::vector<Leaf>> gLeaves; static std::unordered_set<Type *> gBad;
static const std::vector<Leaf> &leaves(Type *t) {
  auto it = gLeaves.find(t); if (it != gLeaves.end()) return it->second;
  std::vector<Leaf> l; if (!flatten(t, 0, l)) gBad.insert(t);
  return gLeaves[t] = l;
}
static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {      // index of the first leaf of a sub-aggregate
  unsigned n = 0;
  for (unsigned i : idx) {
    if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += leaves(s->getElementType(k)).size(); t = s->getElementType(i); }
    else { Type *et = t->getContainedType(0); n += i * leaves(et).size(); t = et; }
  }
  return n;
}

// ------------------------------------------------------------ lowering
struct Lower {
  Func *F; Function *LF;
  std::unordered_map<const Value *, int> slot;
  std::unordered_map<const BasicBlock *, uint32_t> start, bbid;
  std::unordered_map<std::string, const char *> *files;

  int slotOf(const Value *v) {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    int s = F->nslots; F->nslots += std::max<size_t>(1, leaves(v->getType()).size()); return slot[v] = s;
  }
  void constLeaves(const Constant *c, std::vector<Opnd> &out) {
    Type *t = c->getType(); auto &l = leaves(t);
    if (l.size() == 1 && !t->isAggregateType() && !t->isVectorTy()) { Opnd o; o.c = constScalar(c); out.push_back(o); return; }
    if (t->isIntegerTy(128)) { Opnd o; if (auto *ci = dyn_cast<ConstantInt>(c)) { o.c = ci->getValue().getRawData()[0]; out.push_back(o); o.c = ci->getValue().getRawData()[1]; out.push_back(o);} else { out.push_back(o); out.push_back(o);} return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0; i < l.size(); i++) out.push_back(Opnd()); return; }
    unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Constant *e = c->getAggregateElement(i); if (!e) { gLoaderError = "constant aggregate"; return; } constLeaves(e, out); }
  }
  void opnds(const Value *v, std::vector<Opnd> &out) {
    if (auto *c = dyn_cast<Constant>(v)) { constLeaves(c, out); return; }
    if (v->getType()->isMetadataTy() || v->getType()->isLabelTy()) return;
    int s = slotOf(v); size_t n = leaves(v->getType()).size();
    for (size_t i = 0; i < n; i++) { Opnd o; o.slot = s + i; out.push_back(o); }
  }
  Opnd opnd(const Value *v) { std::vector<Opnd> o; opnds(v, o); if (o.size() != 1) { if (gLoaderError.empty()) gLoaderError = "scalar operand expected in " + F->name; return Opnd(); } return o[0]; }

  int edgeTo(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = 0; e.bb = bbid[to];
    for (auto &phi : to->phis()) {
      int d = slotOf(&phi); std::vector<Opnd> src; opnds(phi.getIncomingValueForBlock(from), src);
      for (size_t i = 0; i < src.size(); i++) e.copies.push_back({d + (int)i, src[i]});
    }
    F->edges.push_back(e); return F->edges.size() - 1;
  }
  void unsupported(const Instruction &I, const std::string &why) {
    Inst x; x.op = Op::Unsupported; std::string s; raw_string_ostream os(s); I.print(os);
    x.file = strdup((why + ": " + s).c_str()); F->code.push_back(x);
  }
  void emit(Inst &&x, const Instruction &I) {
    if (auto &dl = I.getDebugLoc()) {
      x.line = dl.getLine();
      if (auto *sc = dl->getScope()) { std::string fn = sc->getFilename().str(); auto &p = (*files)[fn]; if (!p) p = strdup(fn.c_str()); x.file = p; }
    }
    F->code.push_back(std::move(x));
  }
  void call(const CallBase &I) {
    Inst x; x.op = Op::Call;
    auto &rl = leaves(I.getType());
    x.dst = I.getType()->isVoidTy() ? -1 : slotOf(&I);
    for (auto &l : rl) x.imm.push_back(l.bits);
    const Value *cv = I.getCalledOperand()->stripPointerCasts();
    if (auto *a = dyn_cast<GlobalAlias>(cv)) { Func *r = a->hasLocalLinkage() ? nullptr : loaderFunc(a->getName().str()); if (r) x.callee = r; else cv = a->getAliasee()->stripPointerCasts(); }
    if (!x.callee) { if (auto *f = dyn_cast<Function>(cv)) x.callee = getFunc(f); else x.ops.push_back(opnd(I.getCalledOperand())); }
    for (unsigned i = 0; i < I.arg_size(); i++) {
      if (I.getArgOperand(i)->getType()->isMetadataTy()) continue;
      std::vector<Opnd> o; opnds(I.getArgOperand(i), o);
      for (auto &q : o) x.ops.push_back(q);
      uint64_t bv = 0; if (I.isByValArgument(i)) bv = DL().getTypeAllocSize(I.getParamByValType(i));
      for (size_t k = 0; k < o.size(); k++) x.imm2.push_back(bv);
    }
    if (auto *inv = dyn_cast<InvokeInst>(&I)) { x.invoke = true; x.edge = edgeTo(I.getParent(), inv->getNormalDest()); x.edge2 = edgeTo(I.getParent(), inv->getUnwindDest()); }
    emit(std::move(x), I);
  }
  bool intrinsic(const IntrinsicInst &I) {
    auto ID = I.getIntrinsicID();
    auto simple = [&](Intr k, bool lanes = true) {
      Inst x; x.op = Op::Intrinsic; x.sub = (uint8_t)k; x.dst = I.getType()->isVoidTy() ? -1 : slotOf(&I);
      std::vector<std::vector<Opnd>> a; for (unsigned i = 0; i < I.arg_size(); i++) { std::vector<Opnd> o; opnds(I.getArgOperand(i), o); a.push_back(o); }
      unsigned n = leaves(I.getType()).size(); x.w = n ? leaves(I.getType())[0].bits : 0;
      x.w2 = I.arg_size() && !leaves(I.getArgOperand(0)->getType()).empty() ? leaves(I.getArgOperand(0)->getType())[0].bits : 0;
      if (I.getType()->isVectorTy()) { for (unsigned l = 0; l < n; l++) { Inst y = x; y.dst = x.dst + l; for (auto &v : a) y.ops.push_back(v.size() > 1 ? v[l] : v[0]); emit(std::move(y), I); } return true; }
      for (auto &v : a) for (auto &o : v) x.ops.push_back(o);
      emit(std::move(x), I); return true; };
    switch (ID) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
      return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: case Intrinsic::expect_with_probability: {
      Inst x; x.op = Op::Copy; x.dst = slotOf(&I); x.w = leaves(I.getType())[0].bits; x.ops.push_back(opnd(I.getArgOperand(0))); emit(std::move(x), I); return true; }
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
      Inst x; x.op = Op::MemCpy; x.neg = ID == Intrinsic::memmove; for (int i = 0; i < 3; i++) x.ops.push_back(opnd(I.getArgOperand(i))); emit(std::move(x), I); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { Inst x; x.op = Op::MemSet; for (int i = 0; i < 3; i++) x.ops.push_back(opnd(I.getArgOperand(i))); emit(std::move(x), I); return true; }
    case Intrinsic::umin: return simple(Intr::UMin); case Intrinsic::umax: return simple(Intr::UMax);
    case Intrinsic::smin: return simple(Intr::SMin); case Intrinsic::smax: return simple(Intr::SMax);
    case Intrinsic::abs: return simple(Intr::Abs); case Intrinsic::ctpop: return simple(Intr::CtPop);
    case Intrinsic::ctlz: return simple(Intr::CtLz); case Intrinsic::cttz: return simple(Intr::CtTz);
    case Intrinsic::bswap: return simple(Intr::BSwap); case Intrinsic::fshl: return simple(Intr::FShl); case Intrinsic::fshr: return simple(Intr::FShr);
    case Intrinsic::bitreverse: return simple(Intr::BitReverse);
    case Intrinsic::uadd_with_overflow: return simple(Intr::UAddO); case Intrinsic::usub_with_overflow: return simple(Intr::USubO);
    case Intrinsic::umul_with_overflow: return simple(Intr::UMulO); case Intrinsic::sadd_with_overflow: return simple(Intr::SAddO);
    case Intrinsic::ssub_with_overflow: return simple(Intr::SSubO); case Intrinsic::smul_with_overflow: return simple(Intr::SMulO);
    case Intrinsic::usub_sat: return simple(Intr::USubSat); case Intrinsic::uadd_sat: return simple(Intr::UAddSat);
    case Intrinsic::ssub_sat: return simple(Intr::SSubSat); case Intrinsic::sadd_sat: return simple(Intr::SAddSat);
    case Intrinsic::eh_typeid_for: return simple(Intr::TypeId);
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return simple(Intr::Trap);
    case Intrinsic::stacksave: return simple(Intr::StackSave);
    case Intrinsic::objectsize: return simple(Intr::ObjectSize);
    case Intrinsic::is_constant: return simple(Intr::IsConstant);
    case Intrinsic::fabs: return simple(Intr::FAbs); case Intrinsic::floor: return simple(Intr::FFloor); case Intrinsic::ceil: return simple(Intr::FCeil); case Intrinsic::trunc: return simple(Intr::FTrunc);
    case Intrinsic::round: return simple(Intr::FRound); case Intrinsic::sqrt: return simple(Intr::FSqrt); case Intrinsic::fmuladd: return simple(Intr::FMulAdd); case Intrinsic::minnum: return simple(Intr::FMin); case Intrinsic::maxnum: return simple(Intr::FMax);
    case Intrinsic::vastart: return simple(Intr::VaStart); case Intrinsic::vacopy: return simple(Intr::VaCopy); case Intrinsic::vaend: return true;
    default: unsupported(I, "intrinsic"); return true;
    }
  }
  static K binK(unsigned op) {
    switch (op) { case Instruction::Add: return K::Add; case Instruction::Sub: return K::Sub; case Instruction::Mul: return K::Mul;
    case Instruction::UDiv: return K::UDiv; case Instruction::SDiv: return K::SDiv; case Instruction::URem: return K::URem; case Instruction::SRem: return K::SRem;
    case Instruction::And: return K::And; case Instruction::Or: return K::Or; case Instruction::Xor: return K::Xor;
    case Instruction::Shl: return K::Shl; case Instruction::LShr: return K::LShr; default: return K::AShr; }
  }
  void inst(const Instruction &I) {
    Type *T = I.getType();
    if (!T->isVoidTy() && (leaves(T), gBad.count(T))) { unsupported(I, "type"); return; }
    for (auto &o : I.operands()) { Type *ot = o->getType(); if (ot->isMetadataTy() || ot->isLabelTy() || ot->isTokenTy()) continue; leaves(ot); if (gBad.count(ot)) { unsupported(I, "operand type"); return; } }
    auto lanes = [&](std::function<void(Inst &, std::vector<Opnd> &)> fill, Op op, unsigned nops) {
      auto &l = leaves(T); int d = slotOf(&I);
      std::vector<std::vector<Opnd>> a(nops); for (unsigned i = 0; i < nops; i++) opnds(I.getOperand(i), a[i]);
      for (size_t k = 0; k < l.size(); k++) { Inst x; x.op = op; x.dst = d + k; x.w = l[k].bits; auto &ol = leaves(I.getOperand(0)->getType()); x.w2 = ol[std::min(k, ol.size() - 1)].bits;
        std::vector<Opnd> os; for (unsigned i = 0; i < nops; i++) os.push_back(a[i].size() > 1 || l.size() == 1 ? a[i][std::min(k, a[i].size() - 1)] : a[i][0]);
        x.ops = os; fill(x, os); emit(std::move(x), I); } };
    if (T->isIntegerTy(128) || (I.getNumOperands() && I.getOperand(0)->getType()->isIntegerTy(128) && !isa<StoreInst>(I) && !isa<CallBase>(I) && !isa<ReturnInst>(I))) {
      if (!isa<LoadInst>(I) && !isa<PHINode>(I) && !isa<CallBase>(I)) {
        // a few 128-bit forms: zext/trunc/mul/shift/or/xor used by hashing
        int d = isa<TruncInst>(I) ? slotOf(&I) : slotOf(&I);
        std::vector<Opnd> a; opnds(I.getOperand(0), a);
        if (isa<ZExtInst>(I)) { Inst x; x.op = Op::ZExt; x.dst = d; x.w = 64; x.w2 = leaves(I.getOperand(0)->getType())[0].bits; x.ops = {a[0]}; emit(std::move(x), I); Inst y; y.op = Op::Copy; y.dst = d + 1; y.w = 64; y.ops.push_back(Opnd()); emit(std::move(y), I); return; }
        if (isa<TruncInst>(I) && T->getIntegerBitWidth() <= 64) { Inst x; x.op = Op::Trunc; x.dst = d; x.w = T->getIntegerBitWidth(); x.w2 = 64; x.ops = {a[0]}; emit(std::move(x), I); return; }
        if (I.getOpcode() == Instruction::LShr) if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); ci && ci->getZExtValue() == 64) { Inst x; x.op = Op::Copy; x.dst = d; x.w = 64; x.ops = {a[1]}; emit(std::move(x), I); Inst y; y.op = Op::Copy; y.dst = d + 1; y.w = 64; y.ops.push_back(Opnd()); emit(std::move(y), I); return; }
        unsupported(I, "i128"); return;
      }
    }
    if (auto *b = dyn_cast<BinaryOperator>(&I)) {
      if (T->isFPOrFPVectorTy()) { lanes([&](Inst &x, auto &) { x.sub = b->getOpcode() == Instruction::FAdd ? 0 : b->getOpcode() == Instruction::FSub ? 1 : b->getOpcode() == Instruction::FMul ? 2 : b->getOpcode() == Instruction::FDiv ? 3 : 4; }, Op::FBin, 2); return; }
      lanes([&](Inst &x, auto &) { x.sub = (uint8_t)binK(b->getOpcode()); }, Op::Bin, 2); return;
    }
    if (auto *c = dyn_cast<ICmpInst>(&I)) {
      lanes([&](Inst &x, std::vector<Opnd> &o) {
        bool sw = false; K k; bool ng = false;
        switch (c->getPredicate()) {
        case ICmpInst::ICMP_EQ: k = K::Eq; break; case ICmpInst::ICMP_NE: k = K::Eq; ng = true; break;
        case ICmpInst::ICMP_ULT: k = K::Ult; break; case ICmpInst::ICMP_ULE: k = K::Ule; break;
        case ICmpInst::ICMP_UGT: k = K::Ult; sw = true; break; case ICmpInst::ICMP_UGE: k = K::Ule; sw = true; break;
        case ICmpInst::ICMP_SLT: k = K::Slt; break; case ICmpInst::ICMP_SLE: k = K::Sle; break;
        case ICmpInst::ICMP_SGT: k = K::Slt; sw = true; break; default: k = K::Sle; sw = true; }
        x.sub = (uint8_t)k; x.neg = ng; if (sw) std::swap(x.ops[0], x.ops[1]); (void)o; }, Op::ICmp, 2); return;
    }
    if (auto *c = dyn_cast<FCmpInst>(&I)) { lanes([&](Inst &x, auto &) { x.sub = (uint8_t)c->getPredicate(); }, Op::FCmp, 2); return; }
    if (isa<SelectInst>(I)) {
      auto &l = leaves(T); int d = slotOf(&I); std::vector<Opnd> c, a, b; opnds(I.getOperand(0), c); opnds(I.getOperand(1), a); opnds(I.getOperand(2), b);
      // all lanes are read before any is written by using distinct destination slots
      for (size_t k = 0; k < l.size(); k++) { Inst x; x.op = Op::Select; x.dst = d + k; x.w = l[k].bits; x.ops = {c.size() > 1 ? c[k] : c[0], a[k], b[k]}; emit(std::move(x), I); } return; }
    if (isa<CastInst>(I)) {
      Type *S = I.getOperand(0)->getType(); Op op;
      switch (I.getOpcode()) {
      case Instruction::ZExt: op = Op::ZExt; break; case Instruction::SExt: op = Op::SExt; break; case Instruction::Trunc: op = Op::Trunc; break;
      case Instruction::PtrToInt: op = T->isIntegerTy() && T->getIntegerBitWidth() < 64 ? Op::Trunc : Op::Copy; break;
      case Instruction::IntToPtr: op = S->isIntegerTy() && S->getIntegerBitWidth() < 64 ? Op::ZExt : Op::Copy; break;
      case Instruction::SIToFP: op = Op::SIToFP; break; case Instruction::UIToFP: op = Op::UIToFP; break;
      case Instruction::FPToSI: op = Op::FPToSI; break; case Instruction::FPToUI: op = Op::FPToUI; break;
      case Instruction::FPExt: case Instruction::FPTrunc: op = Op::FPCast; break;
      default: op = Op::Copy;
        if (leaves(T).size() != leaves(S).size()) { unsupported(I, "bitcast"); return; } }
      lanes([&](Inst &, auto &) {}, op, 1); return;
    }
    switch (I.getOpcode()) {
    case Instruction::FNeg: lanes([&](Inst &, auto &) {}, Op::FNeg, 1); return;
    case Instruction::Freeze: { std::vector<Opnd> a; opnds(I.getOperand(0), a); int d = slotOf(&I); auto &l = leaves(T); for (size_t k = 0; k < l.size(); k++) { Inst x; x.op = Op::Copy; x.dst = d + k; x.w = l[k].bits; x.ops = {a[k]}; emit(std::move(x), I); } return; }
    case Instruction::Load: {
      auto &l = leaves(T); int d = slotOf(&I); Opnd p = opnd(I.getOperand(0));
      if (T->isX86_FP80Ty()) { unsupported(I, "x86_fp80 load"); return; }
      for (size_t k = 0; k < l.size(); k++) { Inst x; x.op = Op::Load; x.dst = d + k; x.w = l[k].bits; x.ops = {p}; x.imm = {l[k].off}; emit(std::move(x), I); } return; }
    case Instruction::Store: {
      auto *v = I.getOperand(0); auto &l = leaves(v->getType()); std::vector<Opnd> a; opnds(v, a); Opnd p = opnd(I.getOperand(1));
      if (v->getType()->isX86_FP80Ty()) { unsupported(I, "x86_fp80 store"); return; }
      for (size_t k = 0; k < l.size(); k++) { Inst x; x.op = Op::Store; x.w = l[k].bits; x.ops = {a[k], p}; x.imm = {l[k].off}; emit(std::move(x), I); } return; }
    case Instruction::Alloca: { auto &al = cast<AllocaInst>(I); Inst x; x.op = Op::Alloca; x.dst = slotOf(&I); x.imm = {DL().getTypeAllocSize(al.getAllocatedType())}; x.ops = {opnd(al.getArraySize())}; emit(std::move(x), I); return; }
    case Instruction::GetElementPtr: {
      auto &g = cast<GetElementPtrInst>(I); if (T->isVectorTy()) { unsupported(I, "vector gep"); return; }
      Inst x; x.op = Op::Gep; x.dst = slotOf(&I); x.w = 64; x.ops.push_back(opnd(g.getPointerOperand())); uint64_t off = 0;
      for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) {
        Value *ix = gi.getOperand();
        if (auto *st = gi.getStructTypeOrNull()) { off += DL().getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        uint64_t sc = DL().getTypeAllocSize(gi.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += ci->getSExtValue() * sc; continue; }
        x.ops.push_back(opnd(ix)); x.imm.push_back(sc); x.imm2.push_back(ix->getType()->getIntegerBitWidth()); }
      x.imm.insert(x.imm.begin(), off); x.imm2.insert(x.imm2.begin(), 0); emit(std::move(x), I); return; }
    case Instruction::Call: case Instruction::Invoke: {
      auto &cb = cast<CallBase>(I);
      if (cb.isInlineAsm()) { if (T->isVoidTy()) return; unsupported(I, "inline asm"); return; }
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { intrinsic(*ii); 
        if (auto *inv = dyn_cast<InvokeInst>(&I)) { Inst x; x.op = Op::Br; x.edge = edgeTo(I.getParent(), inv->getNormalDest()); emit(std::move(x), I); } return; }
      call(cb); return; }
    case Instruction::Ret: { Inst x; x.op = Op::Ret; if (I.getNumOperands()) opnds(I.getOperand(0), x.ops); emit(std::move(x), I); return; }
    case Instruction::Br: { auto &b = cast<BranchInst>(I); Inst x;
      if (b.isUnconditional()) { x.op = Op::Br; x.edge = edgeTo(I.getParent(), b.getSuccessor(0)); }
      else { x.op = Op::CondBr; x.ops = {opnd(b.getCondition())}; x.edge = edgeTo(I.getParent(), b.getSuccessor(0)); x.edge2 = edgeTo(I.getParent(), b.getSuccessor(1)); }
      emit(std::move(x), I); return; }
    case Instruction::Switch: { auto &s = cast<SwitchInst>(I); Inst x; x.op = Op::Switch; x.ops = {opnd(s.getCondition())}; x.w = s.getCondition()->getType()->getIntegerBitWidth();
      x.edge = edgeTo(I.getParent(), s.getDefaultDest());
      std::unordered_map<const BasicBlock *, int> seen;
      for (auto &c : s.cases()) { x.imm.push_back(c.getCaseValue()->getZExtValue()); auto *bb = c.getCaseSuccessor(); if (!seen.count(bb)) seen[bb] = edgeTo(I.getParent(), bb); x.imm2.push_back(seen[bb]); }
      emit(std::move(x), I); return; }
    case Instruction::Unreachable: { Inst x; x.op = Op::Unreachable; emit(std::move(x), I); return; }
    case Instruction::PHI: slotOf(&I); return;
    case Instruction::ExtractValue: { auto &e = cast<ExtractValueInst>(I); std::vector<Opnd> a; opnds(e.getAggregateOperand(), a); unsigned li = leafIndex(e.getAggregateOperand()->getType(), e.getIndices()); int d = slotOf(&I); auto &l = leaves(T);
      for (size_t k = 0; k < l.size(); k++) { Inst x; x.op = Op::Copy; x.dst = d + k; x.w = l[k].bits; x.ops = {a[li + k]}; emit(std::move(x), I); } return; }
    case Instruction::InsertValue: { auto &e = cast<InsertValueInst>(I); std::vector<Opnd> a, v; opnds(e.getAggregateOperand(), a); opnds(e.getInsertedValueOperand(), v); unsigned li = leafIndex(T, e.getIndices()); int d = slotOf(&I); auto &l = leaves(T);
      for (size_t k = 0; k < l.size(); k++) { Inst x; x.op = Op::Copy; x.dst = d + k; x.w = l[k].bits; x.ops = {k >= li && k < li + v.size() ? v[k - li] : a[k]}; emit(std::move(x), I); } return; }
    case Instruction::ExtractElement: { std::vector<Opnd> a; opnds(I.getOperand(0), a); auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { unsupported(I, "extractelement"); return; }
      Inst x; x.op = Op::Copy; x.dst = slotOf(&I); x.w = leaves(T)[0].bits; x.ops = {a[ci->getZExtValue()]}; emit(std::move(x), I); return; }
    case Instruction::InsertElement: { std::vector<Opnd> a; opnds(I.getOperand(0), a); auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { unsupported(I, "insertelement"); return; }
      a[ci->getZExtValue()] = opnd(I.getOperand(1)); int d = slotOf(&I); auto &l = leaves(T); for (size_t k = 0; k < l.size(); k++) { Inst x; x.op = Op::Copy; x.dst = d + k; x.w = l[k].bits; x.ops = {a[k]}; emit(std::move(x), I); } return; }
    case Instruction::ShuffleVector: { auto &s = cast<ShuffleVectorInst>(I); std::vector<Opnd> a; opnds(I.getOperand(0), a); opnds(I.getOperand(1), a); int d = slotOf(&I); auto &l = leaves(T);
      for (size_t k = 0; k < l.size(); k++) { int m = s.getMaskValue(k); Inst x; x.op = Op::Copy; x.dst = d + k; x.w = l[k].bits; x.ops = {m < 0 ? Opnd() : a[m]}; emit(std::move(x), I); } return; }
    case Instruction::LandingPad: { auto &lp = cast<LandingPadInst>(I); Inst x; x.op = Op::LandingPad; x.dst = slotOf(&I); x.neg = lp.isCleanup();
      for (unsigned i = 0; i < lp.getNumClauses(); i++) { if (lp.isCatch(i)) { x.imm2.push_back(0); x.imm.push_back(constScalar(lp.getClause(i))); }
        else { x.imm2.push_back(1); x.imm.push_back(0); } }
      emit(std::move(x), I); return; }
    case Instruction::Resume: { Inst x; x.op = Op::Resume; opnds(I.getOperand(0), x.ops); emit(std::move(x), I); return; }
    case Instruction::AtomicRMW: { auto &a = cast<AtomicRMWInst>(I); Inst x; x.op = Op::AtomicRMW; x.dst = slotOf(&I); x.w = leaves(T)[0].bits; x.ops = {opnd(a.getPointerOperand()), opnd(a.getValOperand())};
      switch (a.getOperation()) { case AtomicRMWInst::Xchg: x.sub = 255; break; case AtomicRMWInst::Add: x.sub = (uint8_t)K::Add; break; case AtomicRMWInst::Sub: x.sub = (uint8_t)K::Sub; break; case AtomicRMWInst::And: x.sub = (uint8_t)K::And; break; case AtomicRMWInst::Or: x.sub = (uint8_t)K::Or; break; case AtomicRMWInst::Xor: x.sub = (uint8_t)K::Xor; break; default: unsupported(I, "atomicrmw"); return; }
      emit(std::move(x), I); return; }
    case Instruction::AtomicCmpXchg: { auto &a = cast<AtomicCmpXchgInst>(I); Inst x; x.op = Op::CmpXchg; x.dst = slotOf(&I); x.w = leaves(a.getCompareOperand()->getType())[0].bits; x.ops = {opnd(a.getPointerOperand()), opnd(a.getCompareOperand()), opnd(a.getNewValOperand())}; emit(std::move(x), I); return; }
    case Instruction::Fence: return;
    default: unsupported(I, "instruction"); return;
    }
  }
};
static std::unordered_map<std::string, const char *> gFiles;

void loaderLower(Func *F) {
  if (F->lowered) return;
  F->lowered = true;
  if (!F->llvm) return;
  auto *LF = (Function *)F->llvm;
  if (LF->isMaterializable()) if (auto e = LF->materialize()) { fprintf(stderr, "materialize failed for %s\n", F->name.c_str()); exit(3); }
  FPM.run(*LF, FAM);
  FAM.clear(*LF, LF->getName());
  if (auto *sp = LF->getSubprogram()) { std::string d = sp->getDirectory().str(), f = sp->getFilename().str(); F->file = (!f.empty() && f[0] == '/') ? f : d + "/" + f; F->line = sp->getLine(); }
  F->vararg = LF->isVarArg();
  Lower L; L.F = F; L.LF = LF; L.files = &gFiles;
  uint32_t n = 0; for (auto &bb : *LF) L.bbid[&bb] = n++;
  for (auto &a : LF->args()) { int s = L.slotOf(&a); auto &l = leaves(a.getType()); for (size_t k = 0; k < l.size(); k++) { F->params.push_back(s + k); F->paramW.push_back(l[k].bits); } }
  std::vector<uint32_t> bstart(n);
  for (auto &bb : *LF) { bstart[L.bbid[&bb]] = F->code.size(); for (auto &I : bb) L.inst(I); }
  for (auto &e : F->edges) e.target = bstart[e.bb];
  if (!gLoaderError.empty()) { fprintf(stderr, "loader: %s while lowering %s\n", gLoaderError.c_str(), F->name.c_str()); gLoaderError.clear(); }
}
