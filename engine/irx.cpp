// irx: dump an LLVM module (already linked, mem2reg'ed) as line-oriented JSON for the python analyses.
// Output: first lines {"k":"meta",...}, then one line per global / type / function.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <set>
#include <functional>
#include "llvm/ADT/SmallString.h"
#include <map>
#include <string>
#include <vector>
using namespace llvm;

static raw_ostream &O = outs();
static const DataLayout *DL;

static void str(StringRef s) { O << json::Value(json::fixUTF8(s)); }

struct FnCtx { std::map<const Value *, int> id; std::map<const BasicBlock *, int> bb; };

static void constant(const Constant *C, int depth = 0);
static bool constPtr(const Constant *C, const GlobalValue *&G, int64_t &off) {
  APInt a(64, 0);
  const Value *v = C;
  if (!v->getType()->isPointerTy()) return false;
  v = v->stripAndAccumulateConstantOffsets(*DL, a, true);
  if (auto *g = dyn_cast<GlobalValue>(v)) { G = g; off = a.getSExtValue(); return true; }
  return false;
}
static void constant(const Constant *C, int depth) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) {
    if (ci->getBitWidth() <= 64) { O << "[\"i\"," << ci->getSExtValue() << "]"; return; }
    SmallString<40> s; ci->getValue().toStringSigned(s); O << "[\"i\"," << s << "]"; return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(C)) {
    SmallString<40> s; cf->getValueAPF().toString(s); O << "[\"f\",\"" << s << "\"]"; return;
  }
  if (isa<ConstantPointerNull>(C)) { O << "[\"n\"]"; return; }
  if (isa<UndefValue>(C)) { O << "[\"u\"]"; return; }
  if (isa<ConstantAggregateZero>(C)) { O << "[\"z\"]"; return; }
  const GlobalValue *G; int64_t off;
  if (constPtr(C, G, off)) { O << "[\"g\","; str(G->getName()); O << "," << off << "]"; return; }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    O << "[\"ce\",\"" << ce->getOpcodeName() << "\"";
    if (depth < 6) for (auto &op : ce->operands()) { O << ","; constant(cast<Constant>(op.get()), depth + 1); }
    O << "]"; return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
    if (cd->isString() || cd->isCString()) { O << "[\"s\","; str(cd->getRawDataValues()); O << "]"; return; }
  }
  if (depth < 4 && isa<ConstantAggregate>(C)) {
    O << "[\"agg\""; for (auto &op : C->operands()) { O << ","; constant(cast<Constant>(op.get()), depth + 1); } O << "]"; return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
    O << "[\"agg\""; for (unsigned i = 0; i < cd->getNumElements(); i++) { O << ","; constant(cd->getElementAsConstant(i), depth + 1); } O << "]"; return;
  }
  O << "[\"?\"]";
}
static void operand(const Value *V, FnCtx &F) {
  auto it = F.id.find(V);
  if (it != F.id.end()) { O << it->second; return; }
  if (auto *c = dyn_cast<Constant>(V)) { constant(c); return; }
  if (isa<MetadataAsValue>(V)) { O << "[\"md\"]"; return; }
  if (auto *ia = dyn_cast<InlineAsm>(V)) { (void)ia; O << "[\"asm\"]"; return; }
  O << "[\"?\"]";
}
static std::string ty(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }
static uint64_t tsz(Type *T) { if (!T->isSized()) return 0; return DL->getTypeAllocSize(T).getKnownMinValue(); }

static std::string diTypeName(const DIType *T) {
  if (!T) return "void";
  if (auto *d = dyn_cast<DIDerivedType>(T)) {
    std::string b = diTypeName(d->getBaseType());
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return b + "*";
      case dwarf::DW_TAG_reference_type: return b + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
      case dwarf::DW_TAG_const_type: return "const " + b;
      case dwarf::DW_TAG_volatile_type: return "volatile " + b;
      case dwarf::DW_TAG_typedef: return b;   // resolved type, not the alias
      default: return d->getName().str();
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(T)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTypeName(c->getBaseType());
      for (auto *e : c->getElements()) if (auto *sr = dyn_cast<DISubrange>(e)) {
        s += "["; if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) s += std::to_string(ci->getSExtValue()); s += "]"; }
      return s;
    }
    std::string n = c->getName().str();
    const DIScope *sc = c->getScope();
    while (sc && (isa<DINamespace>(sc) || isa<DICompositeType>(sc))) { if (!sc->getName().empty()) n = sc->getName().str() + "::" + n; sc = sc->getScope(); }
    return n;
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}
static std::string path(const DIFile *f) { if (!f) return ""; std::string p = f->getFilename().str(); if (!p.empty() && p[0] != '/') p = f->getDirectory().str() + "/" + p; return p; }

static void runPasses(Module &M, const std::string &pl) {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, pl)) { errs() << "irx: bad pipeline: " << toString(std::move(e)) << "\n"; exit(2); }
  MPM.run(M, MAM);
}
static size_t fsize(Function &F) { size_t n = 0; for (auto &B : F) n += B.sizeWithoutDebug(); return n; }
// Bottom-up inlining: every direct call to a defined function that is not kept opaque is replaced by its body.
static void inlineAll(Module &M, Regex *keep, size_t cap, Regex *roots, const std::string &keepSrc) {
  std::set<Function *> done, stack;
  std::function<void(Function *)> go = [&](Function *F) {
    if (done.count(F) || stack.count(F)) return;
    stack.insert(F);
    bool changed = true; std::set<Function *> self;
    while (changed) {
      changed = false;
      std::vector<CallBase *> calls;
      for (auto &B : *F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) calls.push_back(cb);
      for (auto *cb : calls) {
        auto *C = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (!C) if (auto *A = dyn_cast<GlobalAlias>(cb->getCalledOperand())) C = dyn_cast_or_null<Function>(A->getAliaseeObject());
        if (!C || C->isDeclaration() || C == F || C->isIntrinsic()) continue;
        std::string d = demangle(C->getName().str());
        if (keep && keep->match(d)) continue;
        if (!keepSrc.empty()) if (auto *sp = C->getSubprogram()) if (StringRef(path(sp->getFile())).starts_with(keepSrc)) continue;
        if (stack.count(C)) continue;
        go(C);
        if (fsize(*F) + fsize(*C) > cap) { errs() << "irx: inline cap reached in " << F->getName() << " for " << C->getName() << "\n"; continue; }
        if (cb->getCalledFunction() != C) cb->setCalledFunction(C);
        InlineFunctionInfo ifi; auto r = InlineFunction(*cb, ifi, /*MergeAttributes=*/false);
        (void)r;
      }
    }
    stack.erase(F); done.insert(F);
  };
  std::vector<Function *> fs; for (auto &F : M) if (!F.isDeclaration()) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); fs.push_back(&F); }
  if (!roots) { for (auto *F : fs) go(F); return; }
  std::set<Function *> rs, al; for (auto *F : fs) if (roots->match(demangle(F->getName().str()))) rs.insert(F);
  for (auto &A : M.aliases()) { if (auto *F = dyn_cast_or_null<Function>(A.getAliaseeObject())) al.insert(F); }
  for (auto *F : rs) go(F);
  // only the roots are analysed: everything that was not inlined stays as an opaque declaration
  for (auto *F : fs) if (!rs.count(F) && !al.count(F)) { F->deleteBody(); F->setComdat(nullptr); }
}
int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  std::string in, keep, pre, post, expSrc, roots, keepSrc; bool doInline = false; size_t cap = 60000;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--inline") doInline = true;
    else if (a.rfind("--keep=", 0) == 0) keep = a.substr(7);
    else if (a.rfind("--keep-src=", 0) == 0) keepSrc = a.substr(11);
    else if (a.rfind("--roots=", 0) == 0) roots = a.substr(8);
    else if (a.rfind("--pre=", 0) == 0) pre = a.substr(6);
    else if (a.rfind("--post=", 0) == 0) post = a.substr(7);
    else if (a.rfind("--export-src=", 0) == 0) expSrc = a.substr(13);
    else if (a.rfind("--cap=", 0) == 0) cap = atol(a.c_str() + 6);
    else in = a; }
  auto M = parseIRFile(in, err, ctx);
  if (!M) { err.print("irx", errs()); return 2; }
  DL = &M->getDataLayout();
  if (!pre.empty()) runPasses(*M, pre);
  if (doInline) { Regex kr(keep.empty() ? "^$" : keep); Regex rr(roots.empty() ? "^" : roots); inlineAll(*M, &kr, cap, roots.empty() ? nullptr : &rr, keepSrc); }
  if (!post.empty()) runPasses(*M, post);
  if (verifyModule(*M, &errs())) return 2;
  // types
  DebugInfoFinder dif; dif.processModule(*M);
  std::map<std::string, bool> seen;
  for (auto *T : dif.types()) {
    auto *c = dyn_cast<DICompositeType>(T);
    if (!c || c->isForwardDecl()) continue;
    if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
    std::string n = diTypeName(c);
    if (n.empty() || seen[n]) continue; seen[n] = true;
    bool isClass = c->getTag() == dwarf::DW_TAG_class_type;
    auto acc = [&](DINode::DIFlags f) -> const char * {
      switch (f & DINode::FlagAccessibility) { case DINode::FlagPublic: return "public"; case DINode::FlagPrivate: return "private"; case DINode::FlagProtected: return "protected"; default: return isClass ? "private" : "public"; } };
    O << "{\"k\":\"type\",\"n\":"; str(n); O << ",\"size\":" << c->getSizeInBits() / 8 << ",\"file\":"; str(path(c->getFile())); O << ",\"line\":" << c->getLine() << ",\"union\":" << (c->getTag() == dwarf::DW_TAG_union_type ? 1 : 0) << ",\"fields\":[";
    bool first = true;
    for (auto *e : c->getElements()) {
      auto *d = dyn_cast_or_null<DIDerivedType>(e); if (!d) continue;
      if (d->getTag() == dwarf::DW_TAG_member) {
        if (!first) O << ","; first = false;
        const DIType *bt = d->getBaseType();
        O << "{\"n\":"; str(d->getName()); O << ",\"off\":" << d->getOffsetInBits() / 8 << ",\"size\":" << d->getSizeInBits() / 8 << ",\"t\":"; str(diTypeName(bt)); O << ",\"static\":" << (d->isStaticMember() ? 1 : 0) << ",\"acc\":\"" << acc(d->getFlags()) << "\",\"line\":" << d->getLine() << "}";
      } else if (d->getTag() == dwarf::DW_TAG_variable) {
        if (!first) O << ","; first = false;
        O << "{\"n\":"; str(d->getName()); O << ",\"off\":0,\"size\":0,\"t\":"; str(diTypeName(d->getBaseType())); O << ",\"static\":1,\"acc\":\"" << acc(d->getFlags()) << "\",\"line\":" << d->getLine() << "}";
      }
    }
    O << "],\"bases\":["; first = true;
    for (auto *e : c->getElements()) { auto *d = dyn_cast_or_null<DIDerivedType>(e); if (!d || d->getTag() != dwarf::DW_TAG_inheritance) continue;
      if (!first) O << ","; first = false; O << "{\"n\":"; str(diTypeName(d->getBaseType())); O << ",\"off\":" << d->getOffsetInBits() / 8 << ",\"virtual\":" << ((d->getFlags() & DINode::FlagVirtual) == DINode::FlagVirtual ? 1 : 0) << ",\"acc\":\"" << acc(d->getFlags()) << "\"}"; }
    O << "],\"methods\":["; first = true;
    for (auto *e : c->getElements()) { auto *s = dyn_cast_or_null<DISubprogram>(e); if (!s) continue;
      if (!first) O << ","; first = false;
      O << "{\"n\":"; str(s->getName()); O << ",\"link\":"; str(s->getLinkageName()); O << ",\"acc\":\"" << acc(s->getFlags()) << "\",\"line\":" << s->getLine() << ",\"artificial\":" << (s->isArtificial() ? 1 : 0) << ",\"deleted\":" << (s->isDeleted() ? 1 : 0) << ",\"virtual\":" << (s->getVirtuality() ? 1 : 0) << ",\"types\":[";
      bool f2 = true; if (s->getType()) for (auto *t : s->getType()->getTypeArray()) { if (!f2) O << ","; f2 = false; str(diTypeName(t)); }
      O << "]}"; }
    O << "]}\n";
  }
  // globals
  for (auto &G : M->globals()) {
    O << "{\"k\":\"global\",\"n\":"; str(G.getName()); O << ",\"d\":"; str(demangle(G.getName().str()));
    O << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"internal\":" << (G.hasLocalLinkage() ? 1 : 0) << ",\"decl\":" << (G.isDeclaration() ? 1 : 0) << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0) << ",\"size\":" << (G.isDeclaration() ? 0 : tsz(G.getValueType()));
    SmallVector<DIGlobalVariableExpression *, 1> gs; G.getDebugInfo(gs);
    if (!gs.empty()) { auto *v = gs[0]->getVariable(); O << ",\"src\":"; str(path(v->getFile())); O << ",\"line\":" << v->getLine() << ",\"name\":"; str(v->getName()); O << ",\"dt\":"; str(diTypeName(v->getType())); O << ",\"local\":" << (isa_and_nonnull<DILocalScope>(v->getScope()) ? 1 : 0); }
    if (G.hasInitializer()) { O << ",\"init\":"; constant(G.getInitializer()); }
    O << "}\n";
  }
  for (auto &A : M->aliases()) { O << "{\"k\":\"alias\",\"n\":"; str(A.getName()); O << ",\"to\":"; str(A.getAliaseeObject() ? A.getAliaseeObject()->getName() : ""); O << "}\n"; }
  for (auto &F : *M) {
    if (F.isIntrinsic()) continue;
    O << "{\"k\":\"fn\",\"n\":"; str(F.getName()); O << ",\"d\":"; str(demangle(F.getName().str())); O << ",\"decl\":" << (F.isDeclaration() ? 1 : 0) << ",\"internal\":" << (F.hasLocalLinkage() ? 1 : 0) << ",\"noreturn\":" << (F.doesNotReturn() ? 1 : 0) << ",\"nounwind\":" << (F.doesNotThrow() ? 1 : 0) << ",\"ret\":"; str(ty(F.getReturnType()));
    if (auto *sp = F.getSubprogram()) { O << ",\"src\":"; str(path(sp->getFile())); O << ",\"line\":" << sp->getLine() << ",\"name\":"; str(sp->getName()); }
    O << ",\"args\":["; bool first = true;
    for (auto &A : F.args()) { if (!first) O << ","; first = false; O << "["; str(A.getName()); O << ","; str(ty(A.getType())); O << "," << (A.hasStructRetAttr() ? 1 : 0) << "," << (A.hasByValAttr() ? 1 : 0) << "]"; }
    O << "]";
    bool exp = !F.isDeclaration();
    if (exp && !expSrc.empty()) { auto *sp = F.getSubprogram(); exp = sp && StringRef(path(sp->getFile())).starts_with(expSrc); }
    if (exp && !roots.empty()) { Regex rr(roots); exp = rr.match(demangle(F.getName().str())); }
    if (exp) {
      FnCtx C; int n = 0; for (auto &A : F.args()) C.id[&A] = n++;
      int b = 0; for (auto &B : F) { C.bb[&B] = b++; for (auto &I : B) C.id[&I] = n++; }
      // debug names of allocas
      std::map<const Value *, std::string> names;
      for (auto &B : F) for (auto &I : B) if (auto *dd = dyn_cast<DbgVariableIntrinsic>(&I)) if (dd->getNumVariableLocationOps() == 1) if (auto *v = dd->getVariableLocationOp(0)) names[v] = dd->getVariable()->getName().str();
      O << ",\"bbs\":["; bool fb = true;
      for (auto &B : F) {
        if (!fb) O << ","; fb = false; O << "["; bool fi = true;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(&I)) continue;
          if (!fi) O << ","; fi = false;
          int line = 0, col = 0; if (auto &dl = I.getDebugLoc()) { line = dl.getLine(); col = dl.getCol(); }
          O << "{\"o\":\"" << I.getOpcodeName() << "\",\"i\":" << C.id[&I] << ",\"l\":" << line;
          if (col) O << ",\"c\":" << col;
          if (doInline) if (auto *dl = I.getDebugLoc().get()) { if (dl->getInlinedAt()) { O << ",\"st\":["; bool f0 = true; for (auto *d = dl; d; d = d->getInlinedAt()) { if (!f0) O << ","; f0 = false; O << "["; auto *sp = d->getScope()->getSubprogram(); str(sp ? (sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()) : ""); O << "," << d->getLine() << ","; str(path(d->getFile())); O << "]"; } O << "]"; } }
          O << ",\"t\":"; str(ty(I.getType()));
          auto nm = names.find(&I); if (nm != names.end()) { O << ",\"v\":"; str(nm->second); }
          if (auto *al = dyn_cast<AllocaInst>(&I)) { O << ",\"sz\":" << tsz(al->getAllocatedType()) << ",\"at\":"; str(ty(al->getAllocatedType())); O << ",\"cnt\":"; operand(al->getArraySize(), C); }
          else if (auto *ld = dyn_cast<LoadInst>(&I)) { O << ",\"p\":"; operand(ld->getPointerOperand(), C); O << ",\"sz\":" << tsz(ld->getType()) << ",\"at\":" << (ld->isAtomic() ? 1 : 0); }
          else if (auto *st = dyn_cast<StoreInst>(&I)) { O << ",\"p\":"; operand(st->getPointerOperand(), C); O << ",\"val\":"; operand(st->getValueOperand(), C); O << ",\"sz\":" << tsz(st->getValueOperand()->getType()) << ",\"vt\":"; str(ty(st->getValueOperand()->getType())); O << ",\"at\":" << (st->isAtomic() ? 1 : 0); }
          else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            unsigned bw = DL->getIndexSizeInBits(0); MapVector<Value *, APInt> var; APInt cst(bw, 0);
            O << ",\"p\":"; operand(g->getPointerOperand(), C); O << ",\"gt\":"; str(ty(g->getSourceElementType()));
            if (cast<GEPOperator>(g)->collectOffset(*DL, bw, var, cst)) { O << ",\"off\":" << cst.getSExtValue() << ",\"var\":["; bool f = true; for (auto &p : var) { if (!f) O << ","; f = false; O << "["; operand(p.first, C); O << "," << p.second.getSExtValue() << "]"; } O << "]"; }
            else O << ",\"off\":0,\"var\":[[[\"?\"],1]]";
          }
          else if (auto *cb = dyn_cast<CallBase>(&I)) {
            O << ",\"f\":"; const Value *cal = cb->getCalledOperand()->stripPointerCasts();
            if (isa<GlobalAlias>(cal)) cal = cast<GlobalAlias>(cal)->getAliaseeObject();
            operand(cal, C); O << ",\"a\":["; bool f = true; for (auto &a : cb->args()) { if (!f) O << ","; f = false; operand(a.get(), C); } O << "]";
            if (cb->doesNotReturn()) O << ",\"nr\":1";
            if (cb->doesNotThrow()) O << ",\"nt\":1";
            O << ",\"pt\":["; f = true; for (auto &a : cb->args()) { if (!f) O << ","; f = false; str(ty(a->getType())); } O << "]";
            if (auto *inv = dyn_cast<InvokeInst>(&I)) O << ",\"n\":" << C.bb[inv->getNormalDest()] << ",\"u\":" << C.bb[inv->getUnwindDest()];
            if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { O << ",\"intr\":"; str(Intrinsic::getBaseName(ii->getIntrinsicID())); }
          }
          else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { O << ",\"cond\":"; operand(br->getCondition(), C); } O << ",\"s\":["; for (unsigned k = 0; k < br->getNumSuccessors(); k++) O << (k ? "," : "") << C.bb[br->getSuccessor(k)]; O << "]"; }
          else if (auto *sw = dyn_cast<SwitchInst>(&I)) { O << ",\"cond\":"; operand(sw->getCondition(), C); O << ",\"s\":[" << C.bb[sw->getDefaultDest()]; for (auto &cs : sw->cases()) O << "," << C.bb[cs.getCaseSuccessor()]; O << "],\"cases\":["; bool f = true; for (auto &cs : sw->cases()) { if (!f) O << ","; f = false; O << cs.getCaseValue()->getSExtValue(); } O << "]"; }
          else if (auto *ph = dyn_cast<PHINode>(&I)) { O << ",\"in\":["; for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) { O << (k ? "," : "") << "["; operand(ph->getIncomingValue(k), C); O << "," << C.bb[ph->getIncomingBlock(k)] << "]"; } O << "]"; }
          else if (auto *cm = dyn_cast<CmpInst>(&I)) { O << ",\"pr\":\"" << CmpInst::getPredicateName(cm->getPredicate()) << "\",\"a\":["; operand(cm->getOperand(0), C); O << ","; operand(cm->getOperand(1), C); O << "],\"ot\":"; str(ty(cm->getOperand(0)->getType())); }
          else if (auto *lp = dyn_cast<LandingPadInst>(&I)) { O << ",\"cleanup\":" << (lp->isCleanup() ? 1 : 0) << ",\"cl\":["; for (unsigned k = 0; k < lp->getNumClauses(); k++) { O << (k ? "," : "") << "[\"" << (lp->isCatch(k) ? "catch" : "filter") << "\","; constant(lp->getClause(k)); O << "]"; } O << "]"; }
          else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { O << ",\"a\":["; operand(ev->getAggregateOperand(), C); O << "],\"ix\":["; for (unsigned k = 0; k < ev->getNumIndices(); k++) O << (k ? "," : "") << ev->getIndices()[k]; O << "]"; }
          else if (auto *iv = dyn_cast<InsertValueInst>(&I)) { O << ",\"a\":["; operand(iv->getAggregateOperand(), C); O << ","; operand(iv->getInsertedValueOperand(), C); O << "],\"ix\":["; for (unsigned k = 0; k < iv->getNumIndices(); k++) O << (k ? "," : "") << iv->getIndices()[k]; O << "]"; }
          else if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) { O << ",\"p\":"; operand(rmw->getPointerOperand(), C); O << ",\"val\":"; operand(rmw->getValOperand(), C); O << ",\"rop\":\"" << AtomicRMWInst::getOperationName(rmw->getOperation()) << "\",\"sz\":" << tsz(rmw->getType()); }
          else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { O << ",\"p\":"; operand(cx->getPointerOperand(), C); O << ",\"a\":["; operand(cx->getCompareOperand(), C); O << ","; operand(cx->getNewValOperand(), C); O << "]"; }
          else { O << ",\"a\":["; bool f = true; for (auto &op : I.operands()) { if (isa<BasicBlock>(op.get())) continue; if (!f) O << ","; f = false; operand(op.get(), C); } O << "]";
            if (auto *oi = dyn_cast<OverflowingBinaryOperator>(&I)) { if (oi->hasNoSignedWrap()) O << ",\"nsw\":1"; }
            if (auto *ci = dyn_cast<CastInst>(&I)) { O << ",\"ot\":"; str(ty(ci->getSrcTy())); } }
          O << "}";
        }
        O << "]";
      }
      O << "]";
    }
    O << "}\n";
  }
  O.flush();
  return 0;
}
