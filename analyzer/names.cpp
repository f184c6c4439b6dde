// NAMES: not a rule by itself. Lists the operations the C code gives names to:
// (name, arity, function), for the analyses of the cora sources.
#include "frames.h"

namespace {
std::string constStr(const Value *V) {
  V = V->stripPointerCasts();
  StringRef s;
  if (getConstantStringInfo(V, s))
    return s.str();
  return "";
}
bool isGlobalStr(const Value *V, std::string &s) {
  StringRef r;
  if (!getConstantStringInfo(V->stripPointerCasts(), r))
    return false;
  s = r.str();
  return true;
}
// the name of a symbol expression intern("...")
bool symbolName(const Value *V, std::string &s) {
  auto *CB = dyn_cast<CallBase>(V);
  if (!CB || calleeName(CB) != "intern" || CB->arg_size() < 1)
    return false;
  return isGlobalStr(CB->getArgOperand(0), s);
}
// the slot k of getBinding(co, packageID, k), or of the name in it
bool slotOf(const Value *V, int64_t &k) {
  if (auto *X = dyn_cast<ExtractValueInst>(V))
    V = X->getAggregateOperand();
  auto *CB = dyn_cast<CallBase>(V);
  if (!CB || calleeName(CB) != "getBinding" || CB->arg_size() != 3)
    return false;
  auto *C = dyn_cast<ConstantInt>(CB->getArgOperand(2));
  if (!C)
    return false;
  k = C->getSExtValue();
  return true;
}
// the table a string is taken from: intern(table[i].name)
const GlobalVariable *tableOf(const Value *V) {
  auto *CB = dyn_cast<CallBase>(V);
  if (!CB || calleeName(CB) != "intern" || CB->arg_size() < 1)
    return nullptr;
  auto *L = dyn_cast<LoadInst>(CB->getArgOperand(0)->stripPointerCasts());
  if (!L)
    return nullptr;
  std::set<const Value *> seen;
  std::vector<const Value *> work{L->getPointerOperand()};
  const GlobalVariable *r = nullptr;
  while (!work.empty()) {
    auto *P = work.back()->stripPointerCasts();
    work.pop_back();
    if (!seen.insert(P).second)
      continue;
    if (auto *G = dyn_cast<GEPOperator>(P))
      work.push_back(G->getPointerOperand());
    else if (auto *Ph = dyn_cast<PHINode>(P))
      work.insert(work.end(), Ph->op_begin(), Ph->op_end());
    else if (auto *G = dyn_cast<GlobalVariable>(P); G && G->hasInitializer() && (!r || r == G))
      r = G;
    else
      return nullptr;
  }
  return r;
}
using Entry = std::function<void(const std::string &, const Function *, int64_t)>;
void entries(const Constant *C, const Entry &f) {
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    auto *T = S->getType();
    std::string s;
    if (T->getNumElements() >= 3 && T->getElementType(2)->isIntegerTy(32) && isGlobalStr(S->getOperand(0), s))
      if (auto *K = dyn_cast<ConstantInt>(S->getOperand(2)))
        if (auto *F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) {
          f(s, F, K->getSExtValue());
          return;
        }
  }
  for (auto &Op : C->operands())
    if (auto *K = dyn_cast<Constant>(Op.get()); K && !isa<GlobalValue>(K))
      entries(K, f);
}
} // namespace

RULE(NAMES) {
  forEachGroup(in, [&](Module &M, const std::string &g) {
    NormOpts O;
    O.keep = frameKeep();
    for (auto *k : {"globalRef", "getBinding", "symbolGet", "coraSymbolGet"})
      O.keep.insert(k);
    O.gvn = false;
    normalise(M, O);
    for (auto &F : M) {
      if (F.isDeclaration() || !own(&F))
        continue;
      for (auto &I : instructions(F)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB)
          continue;
        std::string n = calleeName(CB), s;
        int64_t slot;
        // compiled images: the table of symbols, and the slots used
        if (n == "globalRef" && CB->arg_size() >= 2 && slotOf(CB->getArgOperand(1), slot))
          R.samples[g].push_back("gref " + std::to_string(slot) + " " + fname(&F) + " - ?");
        if (n == "primSet" && CB->arg_size() == 3 && slotOf(CB->getArgOperand(1), slot))
          R.samples[g].push_back("gset " + std::to_string(slot) + " " + fname(&F) + " - ?");
        if (n == "bindSymbol" && CB->arg_size() >= 2)
          for (auto *U : CB->users())
            if (auto *X = dyn_cast<ExtractValueInst>(U); X && X->getIndices()[0] == 0)
              for (auto *U2 : X->users())
                if (auto *St = dyn_cast<StoreInst>(U2))
                  if (symbolName(CB->getArgOperand(CB->arg_size() - 1), s)) {
                    int64_t off;
                    const Value *B = baseOf(St->getPointerOperand(), off, M.getDataLayout());
                    if (auto *A = dyn_cast<CallBase>(B); A && calleeName(A) == "malloc" && off % 16 == 0)
                      R.samples[g].push_back("slot " + std::to_string(off / 16) + " " + fname(&F) + " - " + s);
                  }
        if (n == "primSet" && CB->arg_size() == 3 && symbolName(CB->getArgOperand(1), s)) {
          int64_t ar = -1;
          std::string fn = "?";
          if (auto *N = dyn_cast<CallBase>(CB->getArgOperand(2)); N && isMakeNative(N)) {
            if (auto *C = dyn_cast<ConstantInt>(N->getArgOperand(3)))
              ar = C->getSExtValue();
            if (auto *T = dyn_cast<Function>(N->getArgOperand(2)->stripPointerCasts()))
              fn = fname(T);
          }
          R.samples[g].push_back("set " + std::to_string(ar) + " " + fn + " " + fname(&F) + " " + s);
        } else if (auto *T = n == "primSet" && CB->arg_size() == 3 ? tableOf(CB->getArgOperand(1)) : nullptr) {
          entries(T->getInitializer(), [&](const std::string &s, const Function *E, int64_t ar) {
            R.samples[g].push_back("set " + std::to_string(ar) + " " + fname(E) + " " + fname(&F) + " " + s);
          });
        } else if (n == "coraRegisterAPI" && CB->arg_size() == 5 &&
                   isGlobalStr(CB->getArgOperand(2), s)) {
          int64_t ar = -1;
          if (auto *C = dyn_cast<ConstantInt>(CB->getArgOperand(4)))
            ar = C->getSExtValue();
          std::string pkg = "-";
          isGlobalStr(CB->getArgOperand(1), pkg);
          auto *T = dyn_cast<Function>(CB->getArgOperand(3)->stripPointerCasts());
          R.samples[g].push_back("api " + std::to_string(ar) + " " + (T ? fname(T) : "?") + " " + pkg + " " + s);
        } else if (n == "intern" && CB->arg_size() >= 1 && isGlobalStr(CB->getArgOperand(0), s)) {
          R.samples[g].push_back("intern 0 " + fname(&F) + " - " + s);
          // is the value of the name asked for?
          std::function<bool(const Value *, int)> asked = [&](const Value *V, int d) -> bool {
            if (d > 6)
              return false;
            for (auto *U : V->users()) {
              if (auto *C2 = dyn_cast<CallBase>(U)) {
                std::string m = calleeName(C2);
                if (m == "globalRef" || m == "coraSymbolGet")
                  return true;
                if (m == "bindSymbol" && asked(C2, d + 1))
                  return true;
              } else if (auto *St = dyn_cast<StoreInst>(U)) {
                if (isa<AllocaInst>(St->getPointerOperand()->stripPointerCasts()))
                  for (auto *U2 : St->getPointerOperand()->users())
                    if (isa<LoadInst>(U2) && asked(U2, d + 1))
                      return true;
              } else if (isa<PHINode>(U) || isa<SelectInst>(U) || isa<CastInst>(U) || isa<ExtractValueInst>(U) || isa<InsertValueInst>(U)) {
                if (asked(U, d + 1))
                  return true;
              }
            }
            return false;
          };
          if (g != "init" && g != "lib/toc" && asked(CB, 0))
            R.samples[g].push_back("ref 0 " + fname(&F) + " - " + s);
        }
      }
    }
    // tables of registerEntry
    for (auto &G : M.globals())
      if (G.hasInitializer())
        entries(G.getInitializer(), [&](const std::string &s, const Function *E, int64_t ar) {
          R.samples[g].push_back("table " + std::to_string(ar) + " " + fname(E) + " - " + s);
        });
  });
}
