// A01: each function of the public header equals its reference in terms of the
// internal interface (spec/api_ref.c): both are optimised and compared.
#include "common.h"
#include "llvm/Transforms/Utils/FunctionComparator.h"

namespace {
// structural equality of two functions of one module
bool equalFns(Function *A, Function *B) {
  GlobalNumberState GN;
  return FunctionComparator(A, B, &GN).compare() == 0;
}
void optimise(Module &M) {
  PassBuilder PB;
  LoopAnalysisManager L;
  FunctionAnalysisManager F;
  CGSCCAnalysisManager C;
  ModuleAnalysisManager MM;
  PB.registerModuleAnalyses(MM);
  PB.registerCGSCCAnalyses(C);
  PB.registerFunctionAnalyses(F);
  PB.registerLoopAnalyses(L);
  PB.crossRegisterProxies(L, F, C, MM);
  PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2).run(M, MM);
}
} // namespace

RULE(A01) {
  bool seen = false;
  forEachGroup(in, [&](Module &M, const std::string &g) {
    if (g != "spec/api")
      return;
    seen = true;
    StripDebugInfo(M);
    std::vector<std::string> names;
    for (auto &F : M)
      if (F.getName().starts_with("ref_cora") && !F.isDeclaration())
        names.push_back(F.getName().drop_front(4).str());
    // the callees stay calls or are inlined, alike in both
    optimise(M);
    for (auto &n : names) {
      R.count("functions compared");
      Function *A = M.getFunction(n), *B = M.getFunction("ref_" + n);
      if (!A || A->isDeclaration()) {
        R.viol("A01", n + " is not defined", "src/cora.h", n + " is declared in the public header but the library does not define it");
        continue;
      }
      A->setDSOLocal(B->isDSOLocal());
      if (A->getFunctionType() != B->getFunctionType()) {
        R.viol("A01", n + " has another type", "src/cora.h", n + " does not have the parameters the public header declares");
        continue;
      }
      // attributes inferred from the bodies are compared with the bodies
      B->setAttributes(A->getAttributes());
      bool eq = equalFns(A, B);
      R.sample("functions compared", n + (eq ? ": equal to its reference" : ": differs"));
      if (!eq) {
        std::string what;
        std::set<std::string> ca, cb;
        for (auto *X : {A, B})
          for (auto &I : instructions(X))
            if (auto *CB = dyn_cast<CallBase>(&I))
              if (CB->getCalledFunction())
                (X == A ? ca : cb).insert(CB->getCalledFunction()->getName().str());
        for (auto &s : ca)
          if (!cb.count(s))
            what += " it calls " + s + ";";
        for (auto &s : cb)
          if (!ca.count(s))
            what += " it does not call " + s + ";";
        R.viol("A01", n + " differs", n, n + " does not do what its name and declaration say:" +
               (what.empty() ? std::string(" its body is not the operation on the arguments in the declared order") : what));
      }
    }
  });
  if (!seen)
    R.breakage("the reference interface spec/api_ref.c does not compile against this tree");
  R.need("functions compared", 20);
}
