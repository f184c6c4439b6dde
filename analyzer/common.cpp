#include "common.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/ADT/SCCIterator.h"

Report R;
bool Verbose = false;
LLVMContext Ctx;

void Report::viol(const std::string &rule, const std::string &key,
                  const std::string &where, const std::string &msg) {
  for (auto &v : viols)
    if (v.rule == rule && v.key == key && v.where == where)
      return;
  viols.push_back({rule, key, where, msg});
}

std::map<std::string, RuleFn> &ruleTable() {
  static std::map<std::string, RuleFn> t;
  return t;
}
RuleReg::RuleReg(const char *id, RuleFn f) { ruleTable()[id] = f; }

// ------------------------------------------------------------------ loading
static std::unique_ptr<Module> readIR(const std::string &f) {
  SMDiagnostic E;
  auto N = parseIRFile(f, E, Ctx);
  if (!N) {
    errs() << "cannot read " << f << "\n";
    exit(3);
  }
  return N;
}
std::unique_ptr<Module> loadGroup(const std::vector<std::string> &core,
                                  const std::vector<std::string> &mod) {
  std::unique_ptr<Module> M;
  auto add = [&](const std::string &f, bool isOwn) {
    auto N = readIR(f);
    if (isOwn)
      for (auto &F : *N)
        if (!F.isDeclaration())
          F.addFnAttr("coran-own");
    if (!M)
      M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N))) {
      errs() << "cannot link " << f << "\n";
      exit(3);
    }
  };
  // the module first: its "entry" and friends keep their names
  for (auto &f : mod)
    add(f, true);
  for (auto &f : core)
    add(f, mod.empty());
  return M;
}
bool own(const Function *F) { return F->hasFnAttribute("coran-own"); }
void forEachGroup(const Input &in,
                  const std::function<void(Module &, const std::string &)> &fn,
                  bool withCore) {
  if (withCore) {
    auto M = loadGroup(in.core, {});
    fn(*M, "core");
  }
  for (auto &m : in.mods) {
    auto M = loadGroup(in.core, m.second);
    fn(*M, m.first);
  }
}

std::string fname(const Function *F) {
  if (!F)
    return "";
  if (auto *SP = F->getSubprogram())
    return SP->getName().str();
  return F->getName().str();
}
std::string calleeName(const CallBase *CB) {
  const Value *V = CB->getCalledOperand()->stripPointerCasts();
  if (auto *F = dyn_cast<Function>(V))
    return fname(F);
  return "";
}
static std::string rel(std::string s) {
  size_t p = s.rfind("/repo/");
  if (p != std::string::npos)
    s = s.substr(p + 6);
  while (s.rfind("./", 0) == 0)
    s = s.substr(2);
  return s;
}
static std::string scopeFile(const DIFile *f) {
  if (!f)
    return "?";
  std::string s = f->getFilename().str();
  if (!s.empty() && s[0] != '/')
    s = f->getDirectory().str() + "/" + s;
  return rel(s);
}
std::string srcFile(const Function *F) {
  if (auto *SP = F->getSubprogram())
    return scopeFile(SP->getFile());
  return "?";
}
std::string locFile(const Instruction *I) {
  if (auto &D = I->getDebugLoc())
    return scopeFile(cast<DIScope>(D.getScope())->getFile());
  return srcFile(I->getFunction());
}
std::string loc(const Instruction *I) {
  std::string fn = fname(I->getFunction());
  const DILocation *D = I->getDebugLoc();
  if (!D) { // take a neighbour
    for (auto *J = I; J && !D; J = J->getPrevNode())
      D = J->getDebugLoc();
    for (auto *J = I; J && !D; J = J->getNextNode())
      D = J->getDebugLoc();
    for (auto *BB = I->getParent(); BB && !D; BB = BB->getSinglePredecessor())
      for (auto &J : *BB)
        if (J.getDebugLoc())
          D = J.getDebugLoc();
  }
  if (!D)
    return srcFile(I->getFunction()) + " (" + fn + ")";
  std::string s = scopeFile(cast<DIScope>(D->getScope())->getFile()) + ":" +
                  std::to_string(D->getLine()) + " (" + fn;
  if (D->getInlinedAt()) {
    if (auto *SP = D->getScope()->getSubprogram())
      s += " via " + SP->getName().str();
    const DILocation *O = D;
    while (O->getInlinedAt())
      O = O->getInlinedAt();
    s += " at line " + std::to_string(O->getLine());
  }
  return s + ")";
}
bool isDbgOrLifetime(const Instruction *I) {
  return isa<DbgInfoIntrinsic>(I) || I->isLifetimeStartOrEnd() ||
         isa<AssumeInst>(I);
}
bool endsInTrap(const BasicBlock *B) {
  return isa<UnreachableInst>(B->getTerminator());
}

// ------------------------------------------------------------------ normalise
static void runPasses(Module &M, function_ref<void(FunctionPassManager &)> fill,
                      function_ref<bool(Function &)> want = nullptr) {
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM;
  fill(FPM);
  for (auto &F : M)
    if (!F.isDeclaration() && (!want || want(F))) {
      FPM.run(F, FAM);
      FAM.invalidate(F, PreservedAnalyses::none());
    }
}

static std::string tagOf(const DIType *T);
void promote(Module &M) {
  for (auto &F : M) {
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
  }
  runPasses(M, [](FunctionPassManager &P) {
    P.addPass(SROAPass(SROAOptions::PreserveCFG));
  });
}
void normalise(Module &M, const NormOpts &O) {
  for (auto &F : M) {
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::AlwaysInline);
    std::string n = fname(&F);
    if (O.inaccess.count(n)) {
      F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly(ModRefInfo::ModRef) &
                         MemoryEffects::inaccessibleMemOnly());
      F.addFnAttr(Attribute::NoUnwind);
    } else if (O.readonly.count(n)) {
      F.setMemoryEffects(MemoryEffects::readOnly());
      F.addFnAttr(Attribute::NoUnwind);
    }
  }
  if (O.externArgsOnly)
    for (auto &F : M)
      if (F.isDeclaration() && !F.isIntrinsic())
        F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly(ModRefInfo::ModRef));
  // trap-like calls do not return and write nothing the program reads
  for (const char *n : {"__assert_fail", "abort", "exit"})
    if (auto *F = M.getFunction(n)) {
      F->addFnAttr(Attribute::NoReturn);
      F->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
    }
  // promote first: callees become small and readable
  runPasses(M, [](FunctionPassManager &P) { P.addPass(SROAPass(SROAOptions::PreserveCFG)); });

  CallGraph CG(M);
  std::vector<Function *> order;
  std::set<Function *> recursive;
  for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I) {
    bool cyc = I.hasCycle();
    for (auto *N : *I)
      if (Function *F = N->getFunction())
        if (!F->isDeclaration()) {
          order.push_back(F);
          if (cyc)
            recursive.insert(F);
        }
  }
  // large functions of units that know nothing of the virtual machine (the
  // markdown parser) stay calls
  std::set<const DICompileUnit *> vm;
  for (auto &F : M)
    if (auto *SP = F.getSubprogram())
      for (unsigned i = 0; i < F.arg_size(); i++)
        if (tagOf(pointee(paramType(&F, i))) == "Cora" || tagOf(pointee(paramType(&F, i))) == "GC")
          vm.insert(SP->getUnit());
  auto foreign = [&](const Function *F) {
    auto *SP = F->getSubprogram();
    return SP && !vm.count(SP->getUnit()) && F->getInstructionCount() > 150;
  };
  for (Function *F : order) {
    bool again = true;
    int rounds = 0;
    while (again && rounds++ < 20) {
      again = false;
      std::vector<CallBase *> calls;
      for (auto &I : instructions(*F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          calls.push_back(CB);
      for (auto *CB : calls) {
        Function *C = CB->getCalledFunction();
        if (!C || C->isDeclaration() || C == F || recursive.count(C) ||
            C->isVarArg() || O.keep.count(fname(C)))
          continue;
        if (O.mayInline && !O.mayInline(C))
          continue;
        if (foreign(C))
          continue;
        InlineFunctionInfo IFI;
        if (InlineFunction(*CB, IFI).isSuccess())
          again = true;
      }
    }
  }
  runPasses(M, [&](FunctionPassManager &P) {
    P.addPass(SROAPass(SROAOptions::PreserveCFG));
    if (!O.simplify)
      return;
    P.addPass(EarlyCSEPass(true));
    P.addPass(SimplifyCFGPass(SimplifyCFGOptions().needCanonicalLoops(true)));
    if (O.gvn)
      P.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false)));
    if (O.jumpThreading)
      P.addPass(JumpThreadingPass());
    P.addPass(EarlyCSEPass(true));
    P.addPass(SimplifyCFGPass(SimplifyCFGOptions().needCanonicalLoops(true)));
    P.addPass(ADCEPass());
  });
  if (const char *d = getenv("CORAN_DUMP"))
    if (auto *F = M.getFunction(d))
      F->print(errs());
}

bool isRoot(const Function &F) {
  if (F.isDeclaration())
    return false;
  if (!F.hasLocalLinkage())
    return true;
  return !F.use_empty();
}

// ------------------------------------------------------------------ DI
const DIType *stripQuals(const DIType *T) {
  while (T) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D)
      return T;
    switch (D->getTag()) {
    case dwarf::DW_TAG_const_type:
    case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_restrict_type:
      T = D->getBaseType();
      continue;
    }
    return T;
  }
  return nullptr;
}
static const DIType *stripTypedef(const DIType *T) {
  while (T) {
    T = stripQuals(T);
    auto *D = dyn_cast_or_null<DIDerivedType>(T);
    if (!D || D->getTag() != dwarf::DW_TAG_typedef)
      return T;
    T = D->getBaseType();
  }
  return nullptr;
}
static std::string tagOf(const DIType *T) {
  auto *C = dyn_cast_or_null<DICompositeType>(stripTypedef(T));
  return C ? C->getName().str() : "";
}
bool isObjType(const DIType *T) {
  while (T) {
    T = stripQuals(T);
    auto *D = dyn_cast_or_null<DIDerivedType>(T);
    if (!D || D->getTag() != dwarf::DW_TAG_typedef)
      return false;
    if (D->getName() == "Obj")
      return true;
    T = D->getBaseType();
  }
  return false;
}
const DIType *pointee(const DIType *T) {
  T = stripTypedef(T);
  auto *D = dyn_cast_or_null<DIDerivedType>(T);
  if (!D || D->getTag() != dwarf::DW_TAG_pointer_type)
    return nullptr;
  return D->getBaseType();
}
const DIType *paramType(const Function *F, unsigned i) {
  auto *SP = F->getSubprogram();
  if (!SP || !SP->getType())
    return nullptr;
  auto A = SP->getType()->getTypeArray();
  // struct parameters may be split or coerced; refuse when counts disagree
  if (A.size() != F->arg_size() + 1 || i + 1 >= A.size())
    return nullptr;
  return A[i + 1];
}
const DIType *retType(const Function *F) {
  auto *SP = F->getSubprogram();
  if (!SP || !SP->getType())
    return nullptr;
  auto A = SP->getType()->getTypeArray();
  return A.size() ? A[0] : nullptr;
}
const Field *StructInfo::get(const std::string &n) const {
  for (auto &f : fields)
    if (f.name == n)
      return &f;
  return nullptr;
}
static std::string typeName(const DIType *T) {
  T = stripQuals(T);
  if (!T)
    return "void";
  if (!T->getName().empty())
    return T->getName().str();
  if (auto *D = dyn_cast<DIDerivedType>(T))
    if (D->getTag() == dwarf::DW_TAG_pointer_type)
      return typeName(D->getBaseType()) + "*";
  if (auto *C = dyn_cast<DICompositeType>(T))
    if (C->getTag() == dwarf::DW_TAG_array_type)
      return typeName(C->getBaseType()) + "[]";
  return "?";
}
const StructInfo *structOf(const DIType *T) {
  static std::map<const DICompositeType *, std::unique_ptr<StructInfo>> cache;
  auto *C = dyn_cast_or_null<DICompositeType>(stripTypedef(T));
  if (!C || (C->getTag() != dwarf::DW_TAG_structure_type &&
             C->getTag() != dwarf::DW_TAG_union_type))
    return nullptr;
  auto &e = cache[C];
  if (e)
    return e.get();
  e = std::make_unique<StructInfo>();
  e->name = C->getName().str();
  e->size = C->getSizeInBits() / 8;
  for (auto *n : C->getElements()) {
    auto *m = dyn_cast<DIDerivedType>(n);
    if (!m || m->getTag() != dwarf::DW_TAG_member)
      continue;
    Field f;
    f.name = m->getName().str();
    f.off = m->getOffsetInBits() / 8;
    f.size = m->getSizeInBits() / 8;
    f.di = m->getBaseType();
    f.type = typeName(f.di);
    auto *a = dyn_cast_or_null<DICompositeType>(stripQuals(f.di));
    if (a && a->getTag() == dwarf::DW_TAG_array_type) {
      f.isArray = true;
      f.flexible = f.size == 0;
    }
    e->fields.push_back(f);
  }
  return e.get();
}
const StructInfo *structByName(Module &M, const std::string &name) {
  static std::map<Module *, std::map<std::string, const DIType *>> cache;
  auto &c = cache[&M];
  if (c.empty()) {
    DebugInfoFinder F;
    F.processModule(M);
    for (auto *T : F.types()) {
      if (T->getName().empty())
        continue;
      if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getElements().size())
          c["struct " + T->getName().str()] = T;
      } else if (auto *D = dyn_cast<DIDerivedType>(T))
        if (D->getTag() == dwarf::DW_TAG_typedef)
          if (auto *C =
                  dyn_cast_or_null<DICompositeType>(stripTypedef(D)))
            if (C->getElements().size())
              c["typedef " + T->getName().str()] = T;
    }
    c["\x01"] = nullptr;
  }
  for (const char *pre : {"struct ", "typedef "}) {
    auto it = c.find(pre + name);
    if (it != c.end())
      return structOf(it->second);
  }
  return nullptr;
}
int64_t enumValue(Module &M, const std::string &name, bool &found) {
  static std::map<Module *, std::map<std::string, int64_t>> cache;
  auto &c = cache[&M];
  if (c.empty()) {
    DebugInfoFinder F;
    F.processModule(M);
    auto take = [&](const DICompositeType *C) {
      for (auto *e : C->getElements())
        if (auto *E = dyn_cast<DIEnumerator>(e))
          c[E->getName().str()] = E->getValue().getSExtValue();
    };
    for (auto *T : F.types())
      if (auto *C = dyn_cast<DICompositeType>(T))
        if (C->getTag() == dwarf::DW_TAG_enumeration_type)
          take(C);
    for (auto *CU : M.debug_compile_units())
      for (auto *E : CU->getEnumTypes())
        take(E);
    c["\x01"] = 0;
  }
  auto it = c.find(name);
  found = it != c.end();
  return found ? it->second : -1;
}

const Value *baseOf(const Value *P, int64_t &off, const DataLayout &DL) {
  off = 0;
  while (true) {
    P = P->stripPointerCasts();
    auto *G = dyn_cast<GEPOperator>(P);
    if (!G)
      return P;
    APInt o(64, 0);
    if (!G->accumulateConstantOffset(DL, o))
      return P;
    off += o.getSExtValue();
    P = G->getPointerOperand();
  }
}
bool pointsTo(const Value *B, const std::string &tag) {
  static DenseMap<const Value *, std::string> memo;
  auto test = [&](const DIType *T) {
    const DIType *p = pointee(T);
    return p && tagOf(p) == tag;
  };
  if (auto *A = dyn_cast<Argument>(B)) {
    if (test(paramType(A->getParent(), A->getArgNo())))
      return true;
  } else if (auto *CB = dyn_cast<CallBase>(B)) {
    if (auto *F = CB->getCalledFunction())
      if (test(retType(F)))
        return true;
  }
  std::string s = "struct." + tag;
  for (auto *U : B->users())
    if (auto *G = dyn_cast<GetElementPtrInst>(U))
      if (G->getPointerOperand() == B)
        if (auto *ST = dyn_cast<StructType>(G->getSourceElementType()))
          if (ST->hasName()) {
            StringRef n = ST->getName();
            if (n == s || (n.starts_with(s + ".") &&
                           all_of(n.drop_front(s.size() + 1), isDigit)))
              return true;
          }
  return false;
}
bool isStepCall(const CallBase *CB) {
  auto *T = CB->getFunctionType();
  return T->getReturnType()->isVoidTy() && T->getNumParams() == 3 &&
         T->getParamType(0)->isPointerTy() && T->getParamType(1)->isIntegerTy(32) &&
         T->getParamType(2)->isPointerTy();
}
bool isStepType(const Function *F) {
  auto *T = F->getFunctionType();
  if (!T->getReturnType()->isVoidTy() || T->getNumParams() != 3 || T->isVarArg() ||
      !T->getParamType(0)->isPointerTy() || !T->getParamType(1)->isIntegerTy(32) ||
      !T->getParamType(2)->isPointerTy())
    return false;
  const DIType *a = paramType(F, 0), *r = paramType(F, 2);
  if (!a || !r)
    return false;
  return tagOf(pointee(a)) == "Cora" && isObjType(pointee(r));
}
std::vector<Function *> steps(Module &M) {
  std::vector<Function *> v;
  for (auto &F : M)
    if (!F.isDeclaration() && own(&F) && isStepType(&F)) {
      bool taken = F.hasAddressTaken() || fname(&F) == "entry";
      if (taken)
        v.push_back(&F);
    }
  return v;
}
std::map<const Function *, std::set<int64_t>> installedLabels(Module &M) {
  std::map<const Function *, std::set<int64_t>> res;
  const DataLayout &DL = M.getDataLayout();
  for (auto &F : M) {
    if (F.isDeclaration() || !isStepType(&F))
      continue;
    auto &s = res[&F];
    s.insert(0);
    std::vector<const User *> work(F.user_begin(), F.user_end());
    std::set<const User *> seen;
    while (!work.empty()) {
      const User *U = work.back();
      work.pop_back();
      if (!seen.insert(U).second)
        continue;
      if (auto *S = dyn_cast<StoreInst>(U)) {
        // Frame { fn, label, ... }: a constant stored 8 bytes further
        int64_t off;
        const Value *B = baseOf(S->getPointerOperand(), off, DL);
        for (auto &I : instructions(*S->getFunction()))
          if (auto *T = dyn_cast<StoreInst>(&I)) {
            int64_t o2;
            if (baseOf(T->getPointerOperand(), o2, DL) == B && o2 == off + 8)
              if (auto *C = dyn_cast<ConstantInt>(T->getValueOperand()))
                s.insert(C->getSExtValue());
          }
      } else if (auto *CB = dyn_cast<CallBase>(U)) {
        // saveCont-like helper kept as a call: (.., F, label, ..)
        for (unsigned i = 0; i + 1 < CB->arg_size(); i++)
          if (CB->getArgOperand(i) == &F)
            if (auto *Callee = CB->getCalledFunction(); Callee && !Callee->isVarArg())
              if (auto *C = dyn_cast<ConstantInt>(CB->getArgOperand(i + 1)))
                if (fname(Callee) == "saveCont")
                  s.insert(C->getSExtValue());
      } else if (isa<ConstantExpr>(U) || isa<PHINode>(U) || isa<SelectInst>(U))
        for (auto *V : U->users())
          work.push_back(V);
    }
  }
  return res;
}

// ------------------------------------------------------------------ Lin
Lin Lin::operator+(const Lin &o) const {
  Lin r = *this;
  r.c += o.c;
  for (auto &p : o.t) {
    auto &x = r.t[p.first];
    x += p.second;
    if (!x)
      r.t.erase(p.first);
  }
  return r;
}
Lin Lin::operator*(int64_t k) const {
  Lin r;
  if (!k)
    return r;
  r.c = c * k;
  for (auto &p : t)
    r.t[p.first] = p.second * k;
  return r;
}
Lin Lin::operator-(const Lin &o) const { return *this + o * -1; }
std::string Lin::str() const {
  std::string s;
  for (auto &p : t) {
    if (!s.empty())
      s += "+";
    if (p.second != 1)
      s += std::to_string(p.second) + "*";
    s += p.first;
  }
  if (c || s.empty())
    s += (s.empty() ? "" : "+") + std::to_string(c);
  return s;
}
static int atomCounter = 0;
std::string ExprCtx::key(const Value *V) { return lin(V).str(); }
std::string ExprCtx::atom(const Value *V) {
  auto it = names.find(V);
  if (it != names.end()) {
    atoms[it->second] = V;
    return it->second;
  }
  std::string k;
  if (auto *I = dyn_cast<Instruction>(V)) {
    if (auto *L = dyn_cast<LoadInst>(I)) {
      if (pureLoads) {
        k = "ld[" + lin(L->getPointerOperand()).str() + "]";
        atoms.emplace(k, V);
        return k;
      }
    } else if (isa<BinaryOperator>(I) || isa<CmpInst>(I) || isa<SelectInst>(I)) {
      if (auto *B = dyn_cast<BinaryOperator>(I)) {
        auto *C = dyn_cast<ConstantInt>(B->getOperand(1));
        if (B->getOpcode() == Instruction::And && C && C->getBitWidth() == 64 &&
            C->getZExtValue() == ((1ull << 48) - 1)) {
          k = "ptr(" + lin(B->getOperand(0)).str() + ")";
          atoms.emplace(k, V);
          return k;
        }
      }
      k = I->getOpcodeName();
      if (auto *C = dyn_cast<CmpInst>(I))
        k += CmpInst::getPredicateName(C->getPredicate()).str();
      k += "(";
      for (auto &op : I->operands())
        k += lin(op.get()).str() + ",";
      k += ")";
      atoms.emplace(k, V);
      return k;
    } else if (auto *II = dyn_cast<IntrinsicInst>(I)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::smax: case Intrinsic::umax: case Intrinsic::smin:
      case Intrinsic::umin: {
        k = II->getCalledFunction()->getName().str() + "(";
        for (auto &op : II->args())
          k += lin(op.get()).str() + ",";
        k += ")";
        atoms.emplace(k, V);
        return k;
      }
      default:;
      }
    }
    k = std::string(isa<PHINode>(I) ? "phi" : I->getOpcodeName()) + "#" +
        std::to_string(++atomCounter);
  } else if (auto *A = dyn_cast<Argument>(V))
    k = "arg" + std::to_string(A->getArgNo());
  else if (auto *G = dyn_cast<GlobalValue>(V))
    k = "@" + G->getName().str();
  else if (isa<ConstantPointerNull>(V))
    k = "null";
  else
    k = "v#" + std::to_string(++atomCounter);
  names[V] = k;
  atoms[k] = V;
  return k;
}
Lin ExprCtx::lin(const Value *V) {
  if (subst)
    if (const Value *W = subst(V))
      V = W;
  auto it = memo.find(V);
  if (it != memo.end())
    return it->second;
  auto leaf = [&](const Value *X) {
    Lin l;
    l.t[atom(X)] = 1;
    return l;
  };
  if (busy.count(V))
    return leaf(V);
  busy.insert(V);
  Lin r;
  const DataLayout *DL = nullptr;
  if (auto *I = dyn_cast<Instruction>(V))
    DL = &I->getModule()->getDataLayout();
  if (names.count(V)) {
    r = leaf(V);
  } else if (auto *C = dyn_cast<ConstantInt>(V)) {
    r.c = C->getBitWidth() <= 64 ? C->getSExtValue() : 0;
    if (C->getBitWidth() == 1)
      r.c = C->getZExtValue();
  } else if (isa<ConstantPointerNull>(V)) {
    r.c = 0;
  } else if (auto *O = dyn_cast<Operator>(V)) {
    switch (O->getOpcode()) {
    case Instruction::Add:
      r = lin(O->getOperand(0)) + lin(O->getOperand(1));
      break;
    case Instruction::Sub:
      r = lin(O->getOperand(0)) - lin(O->getOperand(1));
      break;
    case Instruction::Mul: {
      Lin a = lin(O->getOperand(0)), b = lin(O->getOperand(1));
      if (b.isConst())
        r = a * b.c;
      else if (a.isConst())
        r = b * a.c;
      else
        r = leaf(V);
      break;
    }
    case Instruction::Shl: {
      Lin b = lin(O->getOperand(1));
      if (b.isConst() && b.c >= 0 && b.c < 32)
        r = lin(O->getOperand(0)) * (1ll << b.c);
      else
        r = leaf(V);
      break;
    }
    case Instruction::Or:
      if (auto *PD = dyn_cast<PossiblyDisjointInst>(V); PD && PD->isDisjoint())
        r = lin(O->getOperand(0)) + lin(O->getOperand(1));
      else
        r = leaf(V);
      break;
    case Instruction::ZExt:
      if (O->getOperand(0)->getType()->isIntegerTy(1)) {
        r = leaf(V);
        break;
      }
      [[fallthrough]];
    case Instruction::SExt:
    case Instruction::Trunc:
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::BitCast:
    case Instruction::Freeze:
      if (O->getOperand(0)->getType()->isFloatingPointTy() ||
          O->getType()->isFloatingPointTy())
        r = leaf(V);
      else
        r = lin(O->getOperand(0));
      break;
    case Instruction::GetElementPtr: {
      auto *G = cast<GEPOperator>(V);
      if (!DL)
        if (auto *GV = dyn_cast<GlobalValue>(G->getPointerOperand()))
          DL = &GV->getParent()->getDataLayout();
      MapVector<Value *, APInt> vo;
      APInt co(64, 0);
      if (DL && G->collectOffset(*DL, 64, vo, co)) {
        r = lin(G->getPointerOperand());
        r.c += co.getSExtValue();
        for (auto &p : vo)
          r = r + lin(p.first) * p.second.getSExtValue();
      } else
        r = leaf(V);
      break;
    }
    default:
      r = leaf(V);
    }
  } else
    r = leaf(V);
  busy.erase(V);
  memo[V] = r;
  return r;
}

// ------------------------------------------------------------------ loops
LoopSpace loopSpace(const Loop *L, ExprCtx &E) {
  LoopSpace S;
  S.L = L;
  BasicBlock *H = L->getHeader();
  for (auto &P : H->phis()) {
    if (!P.getType()->isIntegerTy() && !P.getType()->isPointerTy())
      continue;
    std::string a = E.atom(&P);
    Lin start, self;
    self.t[a] = 1;
    bool haveStart = false, good = true;
    int64_t step = 0;
    bool haveStep = false;
    for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
      Lin v = E.lin(P.getIncomingValue(i));
      if (L->contains(P.getIncomingBlock(i))) {
        Lin d = v - self;
        if (!d.isConst() || (haveStep && d.c != step))
          good = false;
        step = d.c;
        haveStep = true;
      } else {
        if (haveStart && !(start == v))
          good = false;
        start = v;
        haveStart = true;
      }
    }
    if (good && haveStart && haveStep && step != 0)
      S.iv[a] = {start, step};
  }
  // the only way out
  SmallVector<BasicBlock *, 4> ex;
  L->getExitingBlocks(ex);
  std::vector<BasicBlock *> real;
  for (auto *B : ex) {
    bool any = false;
    for (auto *T : successors(B))
      if (!L->contains(T) && !endsInTrap(T))
        any = true;
    if (any)
      real.push_back(B);
  }
  if (real.size() != 1) {
    S.why = real.empty() ? "endless loop" : "loop has several exits";
    return S;
  }
  S.exiting = real[0];
  auto *BI = dyn_cast<BranchInst>(S.exiting->getTerminator());
  if (!BI || !BI->isConditional()) {
    S.why = "loop exit is not a two-way branch";
    return S;
  }
  auto *C = dyn_cast<ICmpInst>(BI->getCondition());
  if (!C) {
    S.why = "loop exit is not a comparison";
    return S;
  }
  auto pred = C->getPredicate();
  if (!L->contains(BI->getSuccessor(0)))
    pred = C->getInversePredicate();
  Lin D = E.lin(C->getOperand(0)) - E.lin(C->getOperand(1));
  Lin d0;
  d0.c = D.c;
  int64_t d1 = 0;
  for (auto &t : D.t) {
    auto it = S.iv.find(t.first);
    if (it != S.iv.end()) {
      d0 = d0 + it->second.first * t.second;
      d1 += it->second.second * t.second;
      continue;
    }
    Lin x;
    x.t[t.first] = t.second;
    d0 = d0 + x;
    auto *I = dyn_cast_or_null<Instruction>(E.atoms[t.first]);
    if (I && L->contains(I)) {
      auto *LD = dyn_cast<LoadInst>(I);
      bool inv = LD && E.pureLoads;
      if (inv)
        for (auto &q : E.lin(LD->getPointerOperand()).t) {
          if (S.iv.count(q.first))
            inv = false;
          auto *J = dyn_cast_or_null<Instruction>(E.atoms[q.first]);
          if (J && L->contains(J) && !isa<LoadInst>(J))
            inv = false;
        }
      if (!inv) {
        S.why = "loop bound changes inside the loop";
        return S;
      }
    }
  }
  if (d1 == 0) {
    S.why = "loop exit does not depend on a counter";
    return S;
  }
  switch (pred) {
  case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT:
    if (d1 < 0) { S.why = "counter runs away from its bound"; return S; }
    S.span = d0 * -1; S.unit = d1;
    break;
  case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE:
    if (d1 < 0) { S.why = "counter runs away from its bound"; return S; }
    S.span = d0 * -1; S.span.c += d1; S.unit = d1;
    break;
  case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT:
    if (d1 > 0) { S.why = "counter runs away from its bound"; return S; }
    S.span = d0; S.unit = -d1;
    break;
  case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE:
    if (d1 > 0) { S.why = "counter runs away from its bound"; return S; }
    S.span = d0; S.span.c += -d1; S.unit = -d1;
    break;
  case CmpInst::ICMP_NE:
    if (d1 > 0) { S.span = d0 * -1; S.unit = d1; }
    else { S.span = d0; S.unit = -d1; }
    break;
  default:
    S.why = "unsupported loop condition";
    return S;
  }
  S.ok = true;
  return S;
}

bool placement(const Instruction *I, const LoopSpace &S, DominatorTree &DT, bool &beforeTest) {
  const BasicBlock *B = I->getParent();
  SmallVector<BasicBlock *, 4> latches;
  S.L->getLoopLatches(latches);
  if (!S.L->contains(B))
    return false;
  for (auto *l : latches)
    if (!DT.dominates(B, l) && B != S.exiting)
      return false;
  if (B == S.exiting || DT.dominates(B, S.exiting)) {
    beforeTest = true;
    return true;
  }
  beforeTest = false;
  return DT.dominates(S.exiting, B);
}
Range addrRange(const Lin &addr, const LoopSpace &S, uint64_t size, bool beforeTest) {
  Range r;
  Lin a0;
  a0.c = addr.c;
  int64_t a1 = 0;
  for (auto &t : addr.t) {
    auto it = S.iv.find(t.first);
    if (it != S.iv.end()) {
      a0 = a0 + it->second.first * t.second;
      a1 += it->second.second * t.second;
    } else {
      Lin x;
      x.t[t.first] = t.second;
      a0 = a0 + x;
    }
  }
  if (a1 == 0) {
    r.ok = true;
    r.lo = a0;
    r.len.c = size;
    return r;
  }
  int64_t s = a1 < 0 ? -a1 : a1;
  if ((uint64_t)s != size) {
    r.why = "steps by " + std::to_string(s) + " bytes over items of " +
            std::to_string(size);
    return r;
  }
  if (s % S.unit) {
    r.why = "step does not match the loop counter";
    return r;
  }
  Lin span = S.span;
  if (beforeTest)
    span.c += S.unit;
  r.len = span * (s / S.unit);
  r.lo = a0;
  if (a1 < 0) {
    r.lo = a0 - r.len;
    r.lo.c += s;
  }
  r.ok = true;
  return r;
}

// ------------------------------------------------------------------ facts
bool Facts::prove(const Lin &g, int depth) const {
  if (g.isConst())
    return g.c <= 0;
  if (depth <= 0)
    return false;
  for (auto &f : le0) {
    // the fact must share an atom with the same sign
    int64_t k = 0;
    for (auto &t : f.t) {
      auto it = g.t.find(t.first);
      if (it == g.t.end() || (it->second > 0) != (t.second > 0))
        continue;
      int64_t q = it->second / t.second;
      if (q >= 1 && it->second % t.second == 0) {
        k = q;
        if (prove(g - f * k, depth - 1))
          return true;
      }
    }
    if (k == 0)
      continue;
  }
  return false;
}
void factsFromCond(const Value *C, bool truth, ExprCtx &E, Facts &F, int depth) {
  if (depth > 6)
    return;
  if (auto *X = dyn_cast<BinaryOperator>(C)) {
    if (X->getType()->isIntegerTy(1)) {
      auto *one = dyn_cast<ConstantInt>(X->getOperand(1));
      if (X->getOpcode() == Instruction::Xor && one && one->isOne())
        return factsFromCond(X->getOperand(0), !truth, E, F, depth + 1);
      if ((X->getOpcode() == Instruction::And && truth) ||
          (X->getOpcode() == Instruction::Or && !truth)) {
        factsFromCond(X->getOperand(0), truth, E, F, depth + 1);
        factsFromCond(X->getOperand(1), truth, E, F, depth + 1);
      }
    }
    return;
  }
  if (auto *S = dyn_cast<SelectInst>(C)) {
    if (!S->getType()->isIntegerTy(1))
      return;
    auto *T = dyn_cast<ConstantInt>(S->getTrueValue());
    auto *N = dyn_cast<ConstantInt>(S->getFalseValue());
    if (N && N->isZero() && truth) { // c && t
      factsFromCond(S->getCondition(), true, E, F, depth + 1);
      factsFromCond(S->getTrueValue(), true, E, F, depth + 1);
    } else if (T && T->isOne() && !truth) { // c || f
      factsFromCond(S->getCondition(), false, E, F, depth + 1);
      factsFromCond(S->getFalseValue(), false, E, F, depth + 1);
    }
    return;
  }
  if (auto *Fz = dyn_cast<FreezeInst>(C))
    return factsFromCond(Fz->getOperand(0), truth, E, F, depth + 1);
  auto *I = dyn_cast<ICmpInst>(C);
  if (!I)
    return;
  auto pred = truth ? I->getPredicate() : I->getInversePredicate();
  // (zext b) != 0
  if (auto *Z = dyn_cast<ZExtInst>(I->getOperand(0)))
    if (Z->getOperand(0)->getType()->isIntegerTy(1))
      if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)); K && K->isZero()) {
        if (pred == CmpInst::ICMP_NE)
          return factsFromCond(Z->getOperand(0), true, E, F, depth + 1);
        if (pred == CmpInst::ICMP_EQ)
          return factsFromCond(Z->getOperand(0), false, E, F, depth + 1);
      }
  Lin d = E.lin(I->getOperand(0)) - E.lin(I->getOperand(1));
  Lin n = d * -1;
  Lin one;
  one.c = 1;
  switch (pred) {
  case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: F.add(d + one); break;
  case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: F.add(d); break;
  case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: F.add(n + one); break;
  case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: F.add(n); break;
  case CmpInst::ICMP_EQ: F.add(d); F.add(n); break;
  case CmpInst::ICMP_NE: F.ne0.push_back(d); break;
  default:;
  }
  // An unsigned comparison x <u y with y a signed quantity known to be
  // non-negative also gives x >= 0: recorded as the fact -x <= 0.
  if (pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE)
    F.add(E.lin(I->getOperand(0)) * -1);
  if (pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_UGE)
    F.add(E.lin(I->getOperand(1)) * -1);
}
Facts dominatingFacts(BasicBlock *B, DominatorTree &DT, ExprCtx &E) {
  Facts F;
  BasicBlock *cur = B;
  while (auto *N = DT.getNode(cur)) {
    auto *ID = N->getIDom();
    if (!ID)
      break;
    BasicBlock *P = ID->getBlock();
    if (auto *BI = dyn_cast<BranchInst>(P->getTerminator())) {
      if (BI->isConditional() && BI->getSuccessor(0) != BI->getSuccessor(1))
        for (int s = 0; s < 2; s++) {
          BasicBlockEdge edge(P, BI->getSuccessor(s));
          if (DT.dominates(edge, B))
            factsFromCond(BI->getCondition(), s == 0, E, F);
        }
    } else if (auto *SI = dyn_cast<SwitchInst>(P->getTerminator())) {
      for (auto &c : SI->cases()) {
        BasicBlockEdge edge(P, c.getCaseSuccessor());
        if (edge.isSingleEdge() && DT.dominates(edge, B)) {
          Lin d = E.lin(SI->getCondition());
          d.c -= c.getCaseValue()->getSExtValue();
          F.add(d);
          F.add(d * -1);
        }
      }
    }
    cur = P;
  }
  return F;
}

// ------------------------------------------------------------------ Eval
KnownBits Eval::bits(const Value *V, int depth) {
  unsigned w = V->getType()->isIntegerTy() ? V->getType()->getIntegerBitWidth()
               : V->getType()->isPointerTy() ? 64
                                             : 1;
  KnownBits K(w);
  auto it = known.find(V);
  if (it != known.end() && it->second.getBitWidth() == w)
    return it->second;
  if (lookup && lookup(V, K))
    return K;
  if (auto *C = dyn_cast<ConstantInt>(V))
    return KnownBits::makeConstant(C->getValue());
  if (isa<ConstantPointerNull>(V)) {
    K.setAllZero();
    return K;
  }
  auto *O = dyn_cast<Operator>(V);
  if (!O || depth > 40 || (!V->getType()->isIntegerTy() && !V->getType()->isPointerTy()))
    return K;
  auto m = memo.find(V);
  if (m != memo.end())
    return m->second;
  memo[V] = K;
  auto op = [&](int i) { return bits(O->getOperand(i), depth + 1); };
  KnownBits r(w);
  switch (O->getOpcode()) {
  case Instruction::And: r = op(0) & op(1); break;
  case Instruction::Or: r = op(0) | op(1); break;
  case Instruction::Xor: r = op(0) ^ op(1); break;
  case Instruction::Add: r = KnownBits::computeForAddSub(true, false, op(0), op(1)); break;
  case Instruction::Sub: r = KnownBits::computeForAddSub(false, false, op(0), op(1)); break;
  case Instruction::Mul: r = KnownBits::mul(op(0), op(1)); break;
  case Instruction::Shl: r = KnownBits::shl(op(0), op(1)); break;
  case Instruction::LShr: r = KnownBits::lshr(op(0), op(1)); break;
  case Instruction::AShr: r = KnownBits::ashr(op(0), op(1)); break;
  case Instruction::URem: r = KnownBits::urem(op(0), op(1)); break;
  case Instruction::SRem: r = KnownBits::srem(op(0), op(1)); break;
  case Instruction::SDiv: r = KnownBits::sdiv(op(0), op(1)); break;
  case Instruction::UDiv: r = KnownBits::udiv(op(0), op(1)); break;
  case Instruction::ZExt: r = op(0).zext(w); break;
  case Instruction::SExt: r = op(0).sext(w); break;
  case Instruction::Trunc: r = op(0).trunc(w); break;
  case Instruction::PtrToInt:
  case Instruction::IntToPtr:
  case Instruction::BitCast:
    if (O->getOperand(0)->getType()->isIntegerTy() || O->getOperand(0)->getType()->isPointerTy())
      r = op(0).zextOrTrunc(w);
    break;
  case Instruction::Freeze: r = op(0); break;
  case Instruction::Select: {
    int c = cond(O->getOperand(0), depth + 1);
    if (c == 1) r = op(1);
    else if (c == 0) r = op(2);
    else r = op(1).intersectWith(op(2));
    break;
  }
  case Instruction::ICmp: {
    int c = cond(V, depth + 1);
    if (c >= 0)
      r = KnownBits::makeConstant(APInt(1, c));
    break;
  }
  default:;
  }
  memo[V] = r;
  return r;
}
int Eval::cond(const Value *V, int depth) {
  if (lookup && V->getType()->isIntegerTy(1)) {
    KnownBits k(1);
    if (lookup(V, k) && k.isConstant())
      return (int)k.getConstant().getZExtValue();
  }
  auto *I = dyn_cast<ICmpInst>(V);
  if (!I || known.count(V)) {
    if (!V->getType()->isIntegerTy(1))
      return -1;
    KnownBits k = bits(V, depth + 1);
    return k.isConstant() ? (int)k.getConstant().getZExtValue() : -1;
  }
  if (!I->getOperand(0)->getType()->isIntegerTy() && !I->getOperand(0)->getType()->isPointerTy())
    return -1;
  KnownBits a = bits(I->getOperand(0), depth + 1), b = bits(I->getOperand(1), depth + 1);
  std::optional<bool> r;
  switch (I->getPredicate()) {
  case CmpInst::ICMP_EQ: r = KnownBits::eq(a, b); break;
  case CmpInst::ICMP_NE: r = KnownBits::ne(a, b); break;
  case CmpInst::ICMP_ULT: r = KnownBits::ult(a, b); break;
  case CmpInst::ICMP_ULE: r = KnownBits::ule(a, b); break;
  case CmpInst::ICMP_UGT: r = KnownBits::ugt(a, b); break;
  case CmpInst::ICMP_UGE: r = KnownBits::uge(a, b); break;
  case CmpInst::ICMP_SLT: r = KnownBits::slt(a, b); break;
  case CmpInst::ICMP_SLE: r = KnownBits::sle(a, b); break;
  case CmpInst::ICMP_SGT: r = KnownBits::sgt(a, b); break;
  case CmpInst::ICMP_SGE: r = KnownBits::sge(a, b); break;
  default:;
  }
  return r ? (int)*r : -1;
}
const Instruction *escapes(const Instruction *from, bool inclusive,
                           const std::function<bool(const Instruction *)> &stop,
                           const std::function<bool(const BasicBlock *, const BasicBlock *)> &edgeOk) {
  std::set<const BasicBlock *> seen;
  std::vector<const Instruction *> work{inclusive ? from : from->getNextNode()};
  while (!work.empty()) {
    const Instruction *I = work.back();
    work.pop_back();
    bool stopped = false;
    const Instruction *last = nullptr;
    for (auto *J = I; J; J = J->getNextNode()) {
      if (stop(J)) {
        stopped = true;
        break;
      }
      last = J;
    }
    if (stopped)
      continue;
    if (isa<ReturnInst>(last))
      return last;
    for (auto *S : successors(last->getParent()))
      if (edgeOk(last->getParent(), S) && seen.insert(S).second)
        work.push_back(&S->front());
  }
  return nullptr;
}

std::string kindStr(unsigned k) {
  static const char *n[] = {"number", "immediate", "handle", "symbol", "string",
                            "pair", "function", "vector", "generated symbol",
                            "continuation"};
  if (k == K_All)
    return "any";
  std::string s;
  for (int i = 0; i < 10; i++)
    if (k >> i & 1)
      s += (s.empty() ? "" : "|") + std::string(n[i]);
  return s.empty() ? "none" : s;
}
