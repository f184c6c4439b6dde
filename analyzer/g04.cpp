// G04: collections start only between two steps; values needed after a nested
// run of the machine stay reachable while it runs.
#include "marks.h"

namespace {
int64_t ctxFn(Module &M) {
  const StructInfo *C = structByName(M, "Cora"), *F = structByName(M, "Frame");
  if (!C || !F || !C->get("ctx") || !F->get("fn"))
    return -1;
  return C->get("ctx")->off + F->get("fn")->off;
}
const Value *alloca_(const Value *P) {
  while (true) {
    P = P->stripPointerCasts();
    if (auto *G = dyn_cast<GEPOperator>(P))
      P = G->getPointerOperand();
    else
      break;
  }
  return isa<AllocaInst>(P) ? P : nullptr;
}

// values that may denote a collectable object (the value itself, or an address
// inside it)
struct Refs {
  Function &F;
  Module &M;
  const DataLayout &DL;
  std::set<std::string> fixedGlobals; // names the runtime binds once
  std::map<const Value *, int> memo;
  std::set<const Value *> busy;
  explicit Refs(Function &F) : F(F), M(*F.getParent()), DL(M.getDataLayout()) {}

  // memory that holds values: frames, heap objects
  bool objMemory(const Value *P) {
    std::set<const Value *> seen;
    std::vector<const Value *> w{P};
    while (!w.empty()) {
      const Value *V = w.back()->stripPointerCasts();
      w.pop_back();
      if (!seen.insert(V).second)
        continue;
      if (auto *G = dyn_cast<GEPOperator>(V)) {
        w.push_back(G->getPointerOperand());
      } else if (auto *Ph = dyn_cast<PHINode>(V)) {
        for (auto &u : Ph->incoming_values())
          w.push_back(u.get());
      } else if (auto *S = dyn_cast<SelectInst>(V)) {
        w.push_back(S->getTrueValue());
        w.push_back(S->getFalseValue());
      } else if (auto *A = dyn_cast<Argument>(V)) {
        const DIType *T = paramType(&F, A->getArgNo());
        if (T && pointee(T) && isObjType(pointee(T)))
          return true;
      } else if (isa<AllocaInst>(V)) {
        if (holdsRefs(V))
          return true;
      } else if (ref(V))
        return true;
      else if (auto *L = dyn_cast<LoadInst>(V)) {
        // frames reached through the machine's registers
        int64_t o;
        const Value *B = baseOf(L->getPointerOperand(), o, DL);
        if (pointsTo(B, "Cora"))
          return true;
      }
    }
    return false;
  }
  bool holdsRefs(const Value *A) {
    for (auto &I : instructions(F))
      if (auto *S = dyn_cast<StoreInst>(&I))
        if (alloca_(S->getPointerOperand()) == A && ref(S->getValueOperand()))
          return true;
    return false;
  }
  bool ref(const Value *V) {
    V = V->stripPointerCasts();
    auto it = memo.find(V);
    if (it != memo.end())
      return it->second;
    if (!busy.insert(V).second)
      return false;
    bool r = compute(V);
    busy.erase(V);
    if (busy.empty())
      memo[V] = r;
    return r;
  }
  bool compute(const Value *V) {
    if (auto *A = dyn_cast<Argument>(V)) {
      const DIType *T = paramType(&F, A->getArgNo());
      return T && isObjType(T);
    }
    if (auto *CB = dyn_cast<CallBase>(V)) {
      std::string n = calleeName(CB);
      if (n == "newObj" || n == "gcAlloc")
        return true;
      if (n == "globalRef" || n == "symbolGet" || n == "coraSymbolGet")
        return !fixedGlobal(CB);
      if (n == "intern")
        return false;
      if (auto *G = CB->getCalledFunction(); G && !G->isDeclaration())
        if (auto *T = retType(G); T && isObjType(T))
          return true;
      return false;
    }
    if (auto *L = dyn_cast<LoadInst>(V)) {
      if (!L->getType()->isIntegerTy(64) && !L->getType()->isPointerTy())
        return false;
      if (!L->getType()->isIntegerTy(64))
        return false;
      int64_t o;
      const Value *B = baseOf(L->getPointerOperand(), o, DL);
      if (pointsTo(B, "Cora"))
        return true; // the result register
      return objMemory(L->getPointerOperand());
    }
    if (auto *P = dyn_cast<PHINode>(V)) {
      for (auto &u : P->incoming_values())
        if (ref(u.get()))
          return true;
      return false;
    }
    if (auto *S = dyn_cast<SelectInst>(V))
      return ref(S->getTrueValue()) || ref(S->getFalseValue());
    if (auto *G = dyn_cast<GEPOperator>(V))
      return ref(G->getPointerOperand());
    if (auto *O = dyn_cast<Operator>(V))
      switch (O->getOpcode()) {
      case Instruction::IntToPtr:
      case Instruction::PtrToInt:
      case Instruction::Or:
        return ref(O->getOperand(0)) || (O->getNumOperands() > 1 && ref(O->getOperand(1)));
      case Instruction::Add: {
        if (O->getOperand(0)->getType()->isIntegerTy(64))
          return ref(O->getOperand(0));
        return false;
      }
      case Instruction::And: {
        // masking the tag keeps the address; masking the payload away does not
        auto *C = dyn_cast<ConstantInt>(O->getOperand(1));
        if (C && C->getValue().countr_one() < 40 && !(C->getValue().countr_zero() <= 4 && C->getValue().getActiveBits() > 40))
          return false;
        return ref(O->getOperand(0));
      }
      }
    return false;
  }
  bool constName(const Value *V, std::string &s) {
    auto *CB = dyn_cast<CallBase>(V->stripPointerCasts());
    if (!CB)
      return false;
    std::string n = calleeName(CB);
    if (n == "intern") {
      StringRef t;
      if (!getConstantStringInfo(CB->getArgOperand(0), t))
        return false;
      s = t.str();
      return true;
    }
    for (auto &a : CB->args())
      if (a->getType()->isIntegerTy(64) && constName(a.get(), s))
        return true;
    return false;
  }
  bool fixedGlobal(const CallBase *CB) {
    for (auto &a : CB->args()) {
      const Value *v = a.get();
      while (auto *E = dyn_cast<ExtractValueInst>(v))
        v = E->getAggregateOperand();
      std::string s;
      if (constName(v, s) && fixedGlobals.count(s))
        return true;
    }
    return false;
  }
};
} // namespace

RULE(G04) {
  std::set<std::string> fixed;
  forEachGroup(in, [&](Module &M, const std::string &group) {
    NormOpts O;
    O.keep = {"coraRun", "gcMarkRoot", "newObj", "gcAlloc", "intern", "globalRef", "symbolGet", "coraSymbolGet", "bindSymbol",
              "primSet", "makeNative"};
    normalise(M, O);
    const DataLayout &DL = M.getDataLayout();
    int64_t fnOff = ctxFn(M);
    if (fnOff < 0) {
      R.breakage("machine layout not found");
      return;
    }
    // names bound to native functions when the machine is created
    if (group == "core")
      for (auto &F : M)
        for (auto &I : instructions(F))
          if (auto *CB = dyn_cast<CallBase>(&I))
            if (calleeName(CB) == "primSet" && CB->arg_size() == 3)
              if (auto *N = dyn_cast<CallBase>(CB->getArgOperand(2)->stripPointerCasts()))
                if (calleeName(N) == "makeNative")
                  if (auto *S = dyn_cast<CallBase>(CB->getArgOperand(1)->stripPointerCasts()))
                    if (calleeName(S) == "intern") {
                      StringRef t;
                      if (getConstantStringInfo(S->getArgOperand(0), t))
                        fixed.insert(t.str());
                    }
    // (a) where collections start
    for (auto &F : M) {
      if (F.isDeclaration() || !own(&F) || !isRoot(F))
        continue;
      for (auto &I : instructions(F)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || calleeName(CB) != "gcMarkRoot")
          continue;
        R.count("collection starts");
        // a loop around this call that runs the next step of the machine
        DominatorTree DT(F);
        LoopInfo LI(DT);
        bool runner = false;
        for (auto *L = LI.getLoopFor(I.getParent()); L && !runner; L = L->getParentLoop())
          for (auto *B : L->blocks())
            for (auto &J : *B)
              if (auto *C2 = dyn_cast<CallBase>(&J))
                if (isStepCall(C2)) {
                  auto *Ld = dyn_cast<LoadInst>(C2->getCalledOperand());
                  int64_t o;
                  if (Ld && pointsTo(baseOf(Ld->getPointerOperand(), o, DL), "Cora") && o == fnOff)
                    runner = true;
                }
        // a block outside the loop proper (it leaves the loop) is not between steps
        std::string who = fname(&F);
        if (auto *DLc = I.getDebugLoc().get())
          if (auto *SP = DLc->getScope()->getSubprogram())
            who = SP->getName().str();
        if (!runner || isStepType(&F))
          R.viol("G04", who + ": collection started outside the run loop", loc(&I),
                 "in " + fname(&F) + ", which may be in the middle of an operation");
        else
          R.sample("collection starts", fname(&F) + " at " + loc(&I));
      }
    }
    // (b) functions that may run the machine
    std::set<const Function *> may;
    bool ch = true;
    auto runs = [&](const CallBase *CB) {
      if (calleeName(CB) == "coraRun")
        return true;
      auto *G = CB->getCalledFunction();
      return G && may.count(G);
    };
    for (auto &F : M)
      if (fname(&F) == "coraRun")
        may.insert(&F);
    while (ch) {
      ch = false;
      for (auto &F : M)
        if (!F.isDeclaration() && !may.count(&F))
          for (auto &I : instructions(F))
            if (auto *CB = dyn_cast<CallBase>(&I); CB && runs(CB)) {
              may.insert(&F);
              ch = true;
              break;
            }
    }
    for (auto &F : M) {
      if (F.isDeclaration() || !own(&F) || !isRoot(F))
        continue;
      // runner itself: the values it holds are the machine's
      std::vector<CallBase *> cs;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I); CB && runs(CB))
          cs.push_back(CB);
      R.count("operations");
      if (cs.empty())
        continue;
      Refs Rf(F);
      Rf.fixedGlobals = fixed;
      for (auto *C : cs) {
        R.count("nested runs");
        R.sample("nested runs", loc(C));
        // instructions that may run before C
        std::set<const BasicBlock *> before;
        std::vector<const BasicBlock *> w(pred_begin(C->getParent()), pred_end(C->getParent()));
        while (!w.empty()) {
          auto *B = w.back();
          w.pop_back();
          if (!before.insert(B).second)
            continue;
          w.insert(w.end(), pred_begin(B), pred_end(B));
        }
        auto isBefore = [&](const Instruction *I) {
          if (before.count(I->getParent()))
            return true;
          return I->getParent() == C->getParent() && I->comesBefore(C);
        };
        std::vector<const Value *> vals;
        for (auto &A : F.args())
          vals.push_back(&A);
        for (auto &I : instructions(F))
          if (&I != C && isBefore(&I))
            vals.push_back(&I);
        // uses after C on a path that does not compute V again
        for (auto *V : vals) {
          bool isRef = Rf.ref(V);
          bool isFrame = false; // memory whose values are not visible to the collector
          if (!isRef) {
            if (auto *A = dyn_cast<Argument>(V)) {
              const DIType *T = paramType(&F, A->getArgNo());
              isFrame = T && pointee(T) && isObjType(pointee(T));
            } else if (isa<AllocaInst>(V))
              isFrame = Rf.holdsRefs(V);
            else if (auto *L = dyn_cast<LoadInst>(V)) {
              int64_t o;
              isFrame = L->getType()->isPointerTy() && pointsTo(baseOf(L->getPointerOperand(), o, DL), "Cora") && Rf.objMemory(V);
              // tables of the machine (globals, packages) are not frames
              const StructInfo *S = structByName(M, "Cora");
              if (isFrame && S)
                for (auto &f : S->fields)
                  if ((int64_t)f.off <= o && o < (int64_t)(f.off + f.size) && f.name != "ctx" && f.name != "stk")
                    isFrame = false;
            }
          }
          if (!isRef && !isFrame)
            continue;
          R.count("values followed");
          const Instruction *use = nullptr;
          std::set<std::pair<const BasicBlock *, const BasicBlock *>> seen;
          std::set<const Value *> derived{V};
          if (isFrame) { // addresses computed from it, whenever
            std::vector<const Value *> q{V};
            while (!q.empty()) {
              auto *x = q.back();
              q.pop_back();
              for (auto *U : x->users())
                if (isa<GEPOperator>(U) && derived.insert(U).second)
                  q.push_back(U);
            }
          }
          auto uses = [&](const Instruction *I) {
            if (isDbgOrLifetime(I))
              return false;
            if (isFrame) {
              if (auto *L = dyn_cast<LoadInst>(I))
                return derived.count(L->getPointerOperand()) > 0;
              if (auto *CB = dyn_cast<CallBase>(I)) {
                if (isa<MemIntrinsic>(CB)) {
                  auto *MT = dyn_cast<MemTransferInst>(CB);
                  return MT && derived.count(MT->getSource()) > 0;
                }
                for (auto &a : CB->args())
                  if (derived.count(a.get()))
                    return true;
              }
              return false;
            }
            if (isa<PHINode>(I))
              return false;
            for (auto &u : I->operands())
              if (u.get() == V)
                return true;
            return false;
          };
          // (instruction list from, block)
          std::function<void(const BasicBlock *, const Instruction *)> walk;
          std::vector<std::pair<const BasicBlock *, const BasicBlock *>> q;
          auto scan = [&](const BasicBlock *B, BasicBlock::const_iterator it) {
            for (; it != B->end(); ++it) {
              if (&*it == V)
                return false;
              // memory of an array rewritten wholesale is out of reach: be exact
              // for scalars only
              if (isFrame && isa<AllocaInst>(V))
                if (auto *S = dyn_cast<StoreInst>(&*it))
                  if (derived.count(S->getPointerOperand()))
                    return false;
              if (uses(&*it)) {
                use = &*it;
                return false;
              }
            }
            return true;
          };
          if (scan(C->getParent(), std::next(C->getIterator())))
            for (auto *S : successors(C->getParent()))
              q.push_back({C->getParent(), S});
          while (!q.empty() && !use) {
            auto [P, B] = q.back();
            q.pop_back();
            if (!seen.insert({P, B}).second)
              continue;
            if (!isFrame)
              for (auto &Ph : B->phis()) {
                if (&Ph == V)
                  continue;
                if (Ph.getIncomingValueForBlock(P) == V)
                  use = &Ph;
              }
            if (use)
              break;
            bool redefined = false;
            for (auto &Ph : B->phis())
              if (&Ph == V)
                redefined = true;
            if (redefined)
              continue;
            if (scan(B, B->begin()))
              for (auto *S : successors(B))
                q.push_back({B, S});
          }
          if (use)
            R.viol("G04", fname(&F) + ": value used after program code ran", loc(use),
                   "a value obtained before " + loc(C) + " is used afterwards, when it may have been collected" +
                       (isa<Instruction>(V) ? " (obtained at " + loc(cast<Instruction>(V)) + ")" : ""));
        }
      }
    }
    // (c) C variables do not hold collectable values
    for (auto &F : M) {
      if (F.isDeclaration() || !own(&F) || !isRoot(F))
        continue;
      Refs Rf(F);
      for (auto &I : instructions(F)) {
        auto *S = dyn_cast<StoreInst>(&I);
        if (!S || !S->getValueOperand()->getType()->isIntegerTy(64))
          continue;
        const Value *P = S->getPointerOperand();
        while (true) {
          P = P->stripPointerCasts();
          if (auto *G = dyn_cast<GEPOperator>(P))
            P = G->getPointerOperand();
          else
            break;
        }
        auto *G = dyn_cast<GlobalVariable>(P);
        if (!G)
          continue;
        R.count("C variable stores");
        if (Rf.ref(S->getValueOperand()))
          R.viol("G04", fname(&F) + ": value kept in C variable " + G->getName().str(), loc(S),
                 "the collector does not see C variables");
      }
    }
  });
  R.need("collection starts", 1);
  R.need("nested runs", 2);
  R.need("operations", 200);
}
