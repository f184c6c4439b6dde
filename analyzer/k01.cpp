// K01: the primitives answer by the kind of their arguments. The witnesses
// (rules/k01gen.py) fix the kind of an argument; the result of each is a
// constant after optimisation, or the way the language promises to compute it.
#include "common.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"

namespace {
void optimise(Module &M) {
  PassBuilder PB;
  LoopAnalysisManager L;
  FunctionAnalysisManager F;
  CGSCCAnalysisManager C;
  ModuleAnalysisManager MM;
  PB.registerModuleAnalyses(MM);
  PB.registerCGSCCAnalyses(C);
  PB.registerFunctionAnalyses(F);
  PB.registerLoopAnalyses(L);
  PB.crossRegisterProxies(L, F, C, MM);
  PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2).run(M, MM);
}
// the first round of every loop on its own: edges back to a loop header go to a
// copy of the whole function
bool firstRounds(Function &F) {
  std::vector<std::pair<BasicBlock *, BasicBlock *>> back;
  {
    DominatorTree DT(F);
    for (auto &B : F)
      if (DT.isReachableFromEntry(&B))
        for (auto *S : successors(&B))
          if (DT.dominates(S, &B))
            back.push_back({&B, S});
  }
  if (back.empty())
    return false;
  // values cross blocks in memory only
  Instruction *At = &*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
  std::vector<Instruction *> cross;
  for (auto &B : F)
    for (auto &I : B)
      if (!I.getType()->isTokenTy() && !(isa<AllocaInst>(I) && &B == &F.getEntryBlock()))
        for (auto *U : I.users())
          if (auto *UI = dyn_cast<Instruction>(U); UI && (UI->getParent() != &B || isa<PHINode>(UI))) {
            cross.push_back(&I);
            break;
          }
  for (auto *I : cross)
    DemoteRegToStack(*I, false, At);
  std::vector<PHINode *> phis;
  for (auto &B : F)
    for (auto &P : B.phis())
      phis.push_back(&P);
  for (auto *P : phis)
    DemotePHIToStack(P, At);
  ValueToValueMapTy VM;
  std::vector<BasicBlock *> own, copies;
  for (auto &B : F)
    if (&B != &F.getEntryBlock())
      own.push_back(&B);
  for (auto *B : own) {
    auto *C = CloneBasicBlock(B, VM, ".later", &F);
    VM[B] = C;
    copies.push_back(C);
  }
  for (auto *C : copies)
    for (auto &I : *C)
      RemapInstruction(&I, VM, RF_NoModuleLevelChanges | RF_IgnoreMissingLocals);
  for (auto &e : back)
    if (VM.count(e.second))
      for (unsigned i = 0; i < e.first->getTerminator()->getNumSuccessors(); i++)
        if (e.first->getTerminator()->getSuccessor(i) == e.second)
          e.first->getTerminator()->setSuccessor(i, cast<BasicBlock>(VM[e.second]));
  return true;
}
// the function the runtime registers under a name
Function *registered(Module &M, const std::string &name) {
  auto hasText = [&](const CallBase *CB) {
    for (auto &a : CB->args()) {
      StringRef s;
      if (a->getType()->isPointerTy() && getConstantStringInfo(a->stripPointerCasts(), s) && s == name)
        return true;
    }
    return false;
  };
  auto code = [&](const CallBase *CB) -> Function * {
    for (auto &a : CB->args())
      if (auto *G = dyn_cast<Function>(const_cast<Value *>(a->stripPointerCasts())))
        return G;
    return nullptr;
  };
  for (auto &F : M)
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        bool is = hasText(CB);
        Function *T = code(CB);
        for (auto &a : CB->args())
          if (auto *A = dyn_cast<CallBase>(a.get())) {
            is |= hasText(A);
            if (!T)
              T = code(A);
          }
        if (is && T)
          return T;
      }
  // tables of names and functions
  Function *r = nullptr;
  std::function<void(const Constant *)> walk = [&](const Constant *C) {
    if (auto *S = dyn_cast<ConstantStruct>(C); S && S->getNumOperands() >= 2) {
      StringRef s;
      if (S->getOperand(0)->getType()->isPointerTy() && getConstantStringInfo(S->getOperand(0)->stripPointerCasts(), s) && s == name)
        if (auto *F = dyn_cast<Function>(const_cast<Constant *>(S->getOperand(1)->stripPointerCasts())))
          r = F;
    }
    for (auto &Op : C->operands())
      if (auto *K = dyn_cast<Constant>(Op.get()); K && !isa<GlobalValue>(K))
        walk(K);
  };
  for (auto &G : M.globals())
    if (G.hasInitializer())
      walk(G.getInitializer());
  return r;
}
std::optional<uint64_t> constant(Module &M, const char *n) {
  auto *G = M.getGlobalVariable(n, true);
  if (G && G->isConstant() && G->hasInitializer())
    if (auto *C = dyn_cast<ConstantInt>(G->getInitializer()))
      return C->getZExtValue();
  return std::nullopt;
}
// argument (1: p, 2: q) a number is converted from, through conversions only
int argOf(const Value *V) {
  std::set<int> r;
  std::set<const Value *> seen;
  std::function<void(const Value *)> go = [&](const Value *V) {
    if (!seen.insert(V).second)
      return;
    if (auto *A = dyn_cast<Argument>(V))
      r.insert(A->getArgNo());
    else if (auto *C = dyn_cast<CastInst>(V))
      go(C->getOperand(0));
    else if (auto *I = dyn_cast<IntrinsicInst>(V); I && (I->getIntrinsicID() == Intrinsic::trunc || I->getIntrinsicID() == Intrinsic::floor))
      go(I->getArgOperand(0));
    else if (auto *C = dyn_cast<CallInst>(V); C && calleeName(C) == "trunc")
      go(C->getArgOperand(0));
    else if (auto *F = dyn_cast<FreezeInst>(V))
      go(F->getOperand(0));
    else if (auto *P = dyn_cast<PHINode>(V))
      for (auto &o : P->incoming_values())
        go(o);
    else
      r.insert(-1);
  };
  go(V);
  return r.size() == 1 ? *r.begin() : -1;
}
// the computation behind a number or a truth value
const Value *strip(const Value *V) {
  for (int i = 0; i < 12; i++) {
    if (auto *C = dyn_cast<CastInst>(V))
      V = C->getOperand(0);
    else if (auto *F = dyn_cast<FreezeInst>(V))
      V = F->getOperand(0);
    else if (auto *I = dyn_cast<IntrinsicInst>(V); I && I->getIntrinsicID() == Intrinsic::trunc)
      V = I->getArgOperand(0);
    else
      break;
  }
  return V;
}
std::vector<const Value *> results(const Function &F) {
  std::vector<const Value *> r;
  std::set<const Value *> seen;
  std::function<void(const Value *)> go = [&](const Value *V) {
    if (!seen.insert(V).second)
      return;
    if (auto *P = dyn_cast<PHINode>(V))
      for (auto &o : P->incoming_values())
        go(o);
    else
      r.push_back(V);
  };
  for (auto &I : instructions(F))
    if (auto *Rt = dyn_cast<ReturnInst>(&I); Rt && Rt->getReturnValue())
      go(Rt->getReturnValue());
  return r;
}
bool returns(const Function &F) {
  for (auto &I : instructions(F))
    if (isa<ReturnInst>(&I))
      return true;
  return false;
}
// "" or what is wrong
std::string arithmetic(const Function &F, const std::string &w) {
  auto rs = results(F);
  if (rs.empty())
    return "never answers";
  for (auto *V : rs) {
    auto *B = dyn_cast<BinaryOperator>(strip(V));
    if (!B)
      return "the result is not computed by the operation";
    unsigned o = B->getOpcode();
    bool ok = w == "add"   ? o == Instruction::Add || o == Instruction::FAdd
              : w == "sub" ? o == Instruction::Sub || o == Instruction::FSub
              : w == "mul" ? o == Instruction::Mul || o == Instruction::FMul
                           : o == Instruction::SDiv;
    if (!ok)
      return "the result is computed by another operation";
    int a = argOf(B->getOperand(0)), b = argOf(B->getOperand(1));
    bool comm = w == "add" || w == "mul";
    if (!((a == 1 && b == 2) || (comm && a == 2 && b == 1)))
      return "the operation is not applied to the first and the second argument";
  }
  return "";
}
std::string ordering(const Function &F, const std::string &w, uint64_t T, uint64_t Fa) {
  // the condition that tells the two answers apart
  const Value *cond = nullptr;
  bool flip = false;
  for (auto &I : instructions(F)) {
    if (auto *S = dyn_cast<SelectInst>(&I)) {
      auto *a = dyn_cast<ConstantInt>(S->getTrueValue()), *b = dyn_cast<ConstantInt>(S->getFalseValue());
      if (a && b && ((a->getZExtValue() == T && b->getZExtValue() == Fa) || (a->getZExtValue() == Fa && b->getZExtValue() == T))) {
        cond = S->getCondition();
        flip = a->getZExtValue() == Fa;
      }
    }
    if (auto *P = dyn_cast<PHINode>(&I); P && P->getNumIncomingValues() == 2) {
      auto *a = dyn_cast<ConstantInt>(P->getIncomingValue(0)), *b = dyn_cast<ConstantInt>(P->getIncomingValue(1));
      if (!a || !b)
        continue;
      for (auto &BB : F)
        if (auto *Br = dyn_cast<BranchInst>(BB.getTerminator()); Br && Br->isConditional())
          for (int i = 0; i < 2; i++) {
            auto side = [&](int s) {
              return Br->getSuccessor(s) == P->getParent() ? &BB : Br->getSuccessor(s);
            };
            if (side(0) == P->getIncomingBlock(i) && side(1) == P->getIncomingBlock(1 - i)) {
              cond = Br->getCondition();
              flip = (i ? b : a)->getZExtValue() == Fa;
            }
          }
    }
  }
  // a difference of the two answers added to one of them
  auto rs = results(F);
  if (!cond)
    for (auto *V : rs)
      for (auto *X = V; auto *I = dyn_cast<Instruction>(X);) {
        if (isa<ZExtInst>(I) || isa<SExtInst>(I)) {
          if (I->getOperand(0)->getType()->isIntegerTy(1)) {
            auto *A = dyn_cast<BinaryOperator>(V);
            auto *K = A ? dyn_cast<ConstantInt>(A->getOperand(1)) : nullptr;
            if (!K)
              return "the answer does not depend on a comparison of the numbers";
            uint64_t one = isa<ZExtInst>(I) ? 1 : ~0ull, base = K->getZExtValue();
            auto val = [&](uint64_t x) {
              switch (A->getOpcode()) {
              case Instruction::Or:
                return x | base;
              case Instruction::Xor:
                return x ^ base;
              case Instruction::Add:
                return x + base;
              default:
                return 0ul;
              }
            };
            if (val(one) == T && val(0) == Fa)
              cond = I->getOperand(0);
            else if (val(one) == Fa && val(0) == T) {
              cond = I->getOperand(0);
              flip = true;
            }
          }
          break;
        }
        if (!isa<BinaryOperator>(I))
          break;
        X = I->getOperand(0);
      }
  if (!cond)
    return "the answer does not depend on a comparison of the numbers";
  auto *C = dyn_cast<CmpInst>(cond);
  if (!C)
    return "the answer does not depend on a comparison of the numbers";
  auto p = flip ? C->getInversePredicate() : C->getPredicate();
  int a = argOf(C->getOperand(0)), b = argOf(C->getOperand(1));
  if (a == 2 && b == 1) {
    p = CmpInst::getSwappedPredicate(p);
    std::swap(a, b);
  }
  if (a != 1 || b != 2)
    return "the comparison is not of the first and the second argument";
  bool lt = p == CmpInst::ICMP_SLT || p == CmpInst::FCMP_OLT || p == CmpInst::FCMP_ULT;
  bool gt = p == CmpInst::ICMP_SGT || p == CmpInst::FCMP_OGT || p == CmpInst::FCMP_UGT;
  if (w == "lt" ? !lt : !gt)
    return "the numbers are compared in another way";
  return "";
}
// offset from the address kept in the first argument at which the result was read
std::string field(const Function &F, int64_t want) {
  auto &DL = F.getParent()->getDataLayout();
  auto rs = results(F);
  if (rs.empty())
    return "never answers";
  for (auto *V : rs) {
    auto *L = dyn_cast<LoadInst>(V);
    if (!L)
      return "the result is not read from the pair";
    int64_t off;
    const Value *B = baseOf(L->getPointerOperand(), off, DL);
    auto *P = dyn_cast_or_null<Operator>(B);
    if (!P || P->getOpcode() != Instruction::IntToPtr)
      return "the result is not read from the pair";
    const Value *X = P->getOperand(0);
    for (int i = 0; i < 6 && isa<BinaryOperator>(X); i++) {
      auto *O = cast<BinaryOperator>(X);
      auto *K = dyn_cast<ConstantInt>(O->getOperand(1));
      // an offset added to the address before the conversion
      if (O->getOpcode() == Instruction::Add && K)
        off += K->getSExtValue();
      X = O->getOperand(0);
    }
    if (argOf(X) != 1)
      return "the result is not read from the pair";
    if (off != want)
      return "the result is read from another field";
  }
  return "";
}
} // namespace

RULE(K01) {
  bool seen = false;
  forEachGroup(in, [&](Module &M, const std::string &g) {
    if (g != "spec/prims")
      return;
    seen = true;
    auto *si = structByName(M, "scmCons");
    int64_t car = -1, cdr = -1;
    if (si)
      for (auto &f : si->fields) {
        if (f.name == "car")
          car = f.off;
        if (f.name == "cdr")
          cdr = f.off;
      }
    int64_t res = -1;
    if (auto *C = structByName(M, "Cora"))
      if (auto *f = C->get("res"))
        res = f->off;
    if (res < 0)
      R.breakage("no result field in the machine");
    if (car < 0 || cdr < 0)
      R.breakage("no fields car and cdr");
    for (const char *n : {"number"}) {
      auto *D = M.getFunction(std::string("k01n_") + n);
      auto *F = registered(M, std::string(n) + "?");
      if (D && F) {
        D->replaceAllUsesWith(F);
        F->addFnAttr(Attribute::AlwaysInline);
        R.count("operations of the runtime");
      }
    }
    auto T = constant(M, "True"), Fa = constant(M, "False");
    if (!T || !Fa) {
      R.breakage("True and False are not constants");
      return;
    }
    StripDebugInfo(M);
    for (auto &F : M) {
      if (F.isDeclaration())
        continue;
      F.addFnAttr("disable-tail-calls", "true"); // recursion stays recursion
      if (F.hasFnAttribute(Attribute::NoInline))
        F.removeFnAttr(Attribute::NoInline);
    }
    optimise(M);
    // one level of functions that call themselves
    bool more = false;
    for (auto &F : M) {
      if (!F.getName().starts_with("k01_") || F.isDeclaration())
        continue;
      std::vector<CallBase *> calls;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() && !CB->getCalledFunction()->isDeclaration())
          for (auto &J : instructions(CB->getCalledFunction()))
            if (auto *C2 = dyn_cast<CallBase>(&J); C2 && C2->getCalledFunction() == CB->getCalledFunction()) {
              calls.push_back(CB);
              break;
            }
      for (auto *CB : calls) {
        InlineFunctionInfo I;
        more |= InlineFunction(*CB, I).isSuccess();
      }
    }
    for (auto &F : M)
      if (F.getName().starts_with("k01_") && !F.isDeclaration())
        more |= firstRounds(F);
    if (more)
      optimise(M);
    std::vector<Function *> fs;
    for (auto &F : M)
      fs.push_back(&F);
    std::sort(fs.begin(), fs.end(), [](Function *a, Function *b) { return a->getName() < b->getName(); });
    for (auto *Fp : fs) {
      auto &F = *Fp;
      if (!F.getName().starts_with("k01_") || F.isDeclaration())
        continue;
      auto w = F.getName().substr(F.getName().rfind('_') + 1).str();
      auto key = F.getName().substr(F.getName().find('_', 4) + 1).str();
      key = key.substr(0, key.rfind('_'));
      std::replace(key.begin(), key.end(), '_', ' ');
      std::string bad;
      if (w == "T" || w == "F") {
        R.count("answers by kind");
        uint64_t e = w == "T" ? *T : *Fa;
        auto rs = results(F);
        if (rs.empty())
          bad = "never answers";
        for (auto *V : rs)
          if (auto *C = dyn_cast<ConstantInt>(V); !C || C->getZExtValue() != e)
            bad = w == "T" ? "is not always true" : "is not always false";
      } else if (w == "N") {
        R.count("refusals");
        if (returns(F))
          bad = "is accepted";
      } else if (w == "RT" || w == "RF") {
        R.count("answers of operations by kind");
        uint64_t e = w == "RT" ? *T : *Fa;
        bool any = false;
        // what is left in the result of the machine
        for (auto &I : instructions(F)) {
          const Value *V = nullptr;
          int64_t off = -1;
          if (auto *CB = dyn_cast<CallBase>(&I); CB && calleeName(CB) == "coraReturn")
            V = CB->getArgOperand(1);
          if (auto *S = dyn_cast<StoreInst>(&I))
            if (baseOf(S->getPointerOperand(), off, M.getDataLayout()) == F.getArg(0) && off == res)
              V = S->getValueOperand();
          if (!V)
            continue;
          any = true;
          auto *K = dyn_cast<ConstantInt>(V);
          if (!K || K->getZExtValue() != e)
            bad = w == "RT" ? "is not always true" : "is not always false";
        }
        if (!any)
          bad = "never answers";
      } else if (w == "lt" || w == "gt") {
        R.count("computations");
        bad = ordering(F, w, *T, *Fa);
      } else if (w == "car" || w == "cdr") {
        R.count("computations");
        bad = field(F, w == "car" ? car : cdr);
      } else if (w == "second") {
        R.count("computations");
        for (auto *V : results(F))
          if (!isa<Argument>(V) || cast<Argument>(V)->getArgNo() != 2)
            bad = "does not answer the value";
      } else if (w == "cons") {
        R.count("computations");
        int n[2] = {0, 0};
        for (auto &I : instructions(F))
          if (auto *S = dyn_cast<StoreInst>(&I))
            for (unsigned a = 1; a < 3; a++)
              if (S->getValueOperand() == F.getArg(a)) {
                int64_t off;
                baseOf(S->getPointerOperand(), off, M.getDataLayout());
                n[a - 1]++;
                if (off != (a == 1 ? car : cdr))
                  bad = "puts an argument in another field";
              }
        if (!n[0] || !n[1])
          bad = "does not keep both arguments";
      } else {
        R.count("computations");
        bad = arithmetic(F, w);
      }
      if (!bad.empty())
        R.viol("K01", key + " " + bad, "rules/k01gen.py", key + ": " + bad);
      else
        R.sample("decided", key);
    }
  });
  if (!seen)
    R.breakage("the witnesses for the primitives do not compile against this tree");
  R.need("answers by kind", 300);
  R.need("refusals", 100);
  R.need("computations", 6);
  R.need("answers of operations by kind", 10);
}
