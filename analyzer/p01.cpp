// P01: the reader ends at the end of input and never confuses it with a character.
#include "cexec.h"
#include "marks.h"
#include <ctype.h>

namespace {
bool isGetc(const CallBase *CB) {
  std::string n = calleeName(CB);
  return n == "getc" || n == "fgetc" || n == "getchar" || n == "getc_unlocked" || n == "_IO_getc" || n == "fgetc_unlocked";
}
bool isUngetc(const CallBase *CB) { return calleeName(CB) == "ungetc"; }
int ctypeCall(const std::string &n, int c) {
  if (n == "isspace") return isspace(c);
  if (n == "isdigit") return isdigit(c);
  if (n == "isalpha") return isalpha(c);
  if (n == "isalnum") return isalnum(c);
  if (n == "isupper") return isupper(c);
  if (n == "islower") return islower(c);
  if (n == "isprint") return isprint(c);
  if (n == "iscntrl") return iscntrl(c);
  if (n == "ispunct") return ispunct(c);
  if (n == "isxdigit") return isxdigit(c);
  if (n == "isblank") return isblank(c);
  if (n == "isgraph") return isgraph(c);
  return -1;
}

struct Reader {
  Module &M;
  std::set<const Function *> readers; // read input, directly or not
  std::map<const Function *, bool> errAtEof;
  explicit Reader(Module &M) : M(M) {}

  const Function *readerCallee(const Instruction *I) {
    auto *CB = dyn_cast<CallBase>(I);
    if (!CB)
      return nullptr;
    auto *G = CB->getCalledFunction();
    return G && readers.count(G) ? G : nullptr;
  }
  static bool errParam(const Function *G, unsigned i) {
    const DIType *T = paramType(G, i), *P = T ? pointee(T) : nullptr;
    if (!P)
      return false;
    auto *B = dyn_cast<DIBasicType>(stripQuals(P));
    return B && B->getSizeInBits() == 32;
  }
  std::set<const Value *> errPtrs(const Function &F) {
    std::set<const Value *> s;
    for (auto &A : F.args())
      if (readers.count(&F) && errParam(&F, A.getArgNo()))
        s.insert(&A);
    for (auto &I : instructions(F))
      if (auto *G = readerCallee(&I))
        for (unsigned i = 0; i < G->arg_size(); i++)
          if (errParam(G, i))
            s.insert(cast<CallBase>(&I)->getArgOperand(i)->stripPointerCasts());
    return s;
  }
  // models the input; mode: 0 unknown next character, 1 end of input
  //   u: pend (-2 unknown, else known next char), net, err, assumed, eof
  void model(CExec &X, const Function &F, const std::set<const Value *> &errs) {
    auto &C = M.getContext();
    X.value = [this, &X, &C, errs](const Instruction *I, CState &S) -> Constant * {
      if (auto *CB = dyn_cast<CallBase>(I)) {
        std::string n = calleeName(CB);
        if (isGetc(CB)) {
          S.u["net"] = std::min(S.u["net"] + 1, 3l);
          long p = S.u["eof"] ? -1 : S.u["pend"];
          S.u["pend"] = -2;
          return p == -2 ? nullptr : (Constant *)ConstantInt::get(I->getType(), p, true);
        }
        if (isUngetc(CB)) {
          auto *c = dyn_cast_or_null<ConstantInt>(X.get(CB->getArgOperand(0), S));
          if (!(c && c->getSExtValue() == -1)) {
            S.u["net"] = std::max(S.u["net"] - 1, -3l);
            S.u["pend"] = c ? c->getSExtValue() & 255 : -2;
          }
          return nullptr;
        }
        if (CB->arg_size() == 1)
          if (auto *c = dyn_cast_or_null<ConstantInt>(X.get(CB->getArgOperand(0), S))) {
            int v = c->getSExtValue() >= -1 && c->getSExtValue() < 256 ? ctypeCall(n, c->getSExtValue()) : -1;
            if (v >= 0)
              return ConstantInt::get(I->getType(), v ? 1 : 0);
          }
        if (auto *G = readerCallee(I)) {
          S.u["pend"] = -2;
          S.u["net"] = std::min(S.u["net"] + 1, 3l);
          S.u["assumed"] = 1;
          if (S.u["eof"] && errAtEof.count(G) && errAtEof[G])
            S.u["err"] = 1;
        }
        return nullptr;
      }
      if (auto *L = dyn_cast<LoadInst>(I)) {
        const Value *P = L->getPointerOperand()->stripPointerCasts();
        if (errs.count(P) && S.u["err"])
          return ConstantInt::get(I->getType(), 1);
      }
      return nullptr;
    };
  }
  void onStore(const Instruction *I, CState &S, const std::set<const Value *> &errs, CExec &X) {
    if (auto *St = dyn_cast<StoreInst>(I))
      if (errs.count(St->getPointerOperand()->stripPointerCasts())) {
        auto *c = dyn_cast_or_null<ConstantInt>(X.get(St->getValueOperand(), S));
        S.u["err"] = c ? !c->isZero() : 0;
      }
  }
};
CState start(bool eof, long pend = -2) {
  CState S;
  S.u["eof"] = eof;
  S.u["pend"] = pend;
  S.u["net"] = 0;
  S.u["err"] = 0;
  S.u["assumed"] = 0;
  return S;
}
} // namespace

RULE(P01) {
  forEachGroup(in, [&](Module &M, const std::string &group) {
    NormOpts O;
    O.keep = {"newObj", "gcAlloc", "intern", "makeString", "coraRun", "makeCons"};
    auto closure = [&](Reader &Rd) {
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto &F : M)
        if (!F.isDeclaration() && !Rd.readers.count(&F) && fname(&F) != "coraRun")
          for (auto &I : instructions(F))
            if (auto *CB = dyn_cast<CallBase>(&I))
              if (isGetc(CB) || Rd.readerCallee(&I)) {
                Rd.readers.insert(&F);
                ch = true;
                break;
              }
    }
    };
    {
      Reader pre(M);
      closure(pre);
      bool any = false;
      for (auto *F : pre.readers)
        any = any || own(F);
      if (!any)
        return;
    }
    normalise(M, O);
    Reader Rd(M);
    closure(Rd);
    // what each reader reports when it starts at the end of input (fixpoint
    // from below: a reader that relies on another is decided after it)
    std::map<const Function *, std::set<const Function *>> eofCalls;
    for (int round = 0; round < 3; round++)
      for (auto *F : Rd.readers) {
        auto errp = Rd.errPtrs(*F);
        bool all = true, any = false;
        CExec X(*F);
        Rd.model(X, *F, errp);
        eofCalls[F].clear();
        X.visit = [&](const Instruction *I, CState &S) {
          Rd.onStore(I, S, errp, X);
          if (auto *G = Rd.readerCallee(I))
            eofCalls[F].insert(G);
          if (isa<ReturnInst>(I)) {
            any = true;
            all = all && S.u["err"];
          }
          return true;
        };
        X.run(&F->getEntryBlock().front(), start(true));
        Rd.errAtEof[F] = any && all && !X.overflow;
      }
    for (auto *F : Rd.readers) {
      if (!own(F))
        continue;
      std::string fn = fname(F);
      auto errp = Rd.errPtrs(*F);
      R.count("reading functions");
      R.sample("reading functions", fn + (Rd.errAtEof[F] ? " (reports end of input)" : ""));
      // recursion at the end of input
      {
        std::set<const Function *> seen;
        std::vector<const Function *> w(eofCalls[F].begin(), eofCalls[F].end());
        while (!w.empty()) {
          auto *G = w.back();
          w.pop_back();
          if (G == F) {
            R.viol("P01", fn + ": recursion without end at the end of input", srcFile(F) + ": " + fn,
                   "with no character left it calls itself again");
            break;
          }
          if (seen.insert(G).second)
            w.insert(w.end(), eofCalls[G].begin(), eofCalls[G].end());
        }
        R.count("end of input obligations");
      }
      int no = 0;
      for (auto &I : instructions(*F)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB)
          continue;
        bool g = isGetc(CB);
        if (!g && !Rd.readerCallee(&I))
          continue;
        no++;
        // C1/C5: from here on the input is at its end
        {
          R.count("end of input obligations");
          CExec X(*F);
          Rd.model(X, *F, errp);
          bool first = true, cyc = false;
          const Instruction *stored = nullptr;
          X.visit = [&](const Instruction *J, CState &S) {
            Rd.onStore(J, S, errp, X);
            if (J == &I) {
              if (!first) {
                cyc = true;
                return false;
              }
              first = false;
            }
            if (auto *St = dyn_cast<StoreInst>(J))
              if (St->getValueOperand()->getType()->isIntegerTy(8)) {
                const Value *V = St->getValueOperand();
                bool fromInput = false;
                std::set<const Value *> seen;
                std::vector<const Value *> w{V};
                while (!w.empty()) {
                  auto *x = w.back();
                  w.pop_back();
                  if (!seen.insert(x).second)
                    continue;
                  if (auto *c2 = dyn_cast<CallBase>(x); c2 && isGetc(c2))
                    fromInput = true;
                  if (isa<CastInst>(x) || isa<PHINode>(x) || isa<SelectInst>(x))
                    for (auto &u : cast<Instruction>(x)->operands())
                      w.push_back(u.get());
                }
                auto *c = dyn_cast_or_null<ConstantInt>(X.get(V, S));
                if (fromInput && c && c->getSExtValue() == -1)
                  stored = J;
              }
            return true;
          };
          CState S = start(true);
          X.run(&I, S);
          if (Verbose) errs() << loc(&I) << " steps " << X.steps << "\n";
          if (X.overflow)
            R.count("undecided explorations");
          if (cyc)
            R.viol("P01", fn + ": reads on after the end of input", loc(&I),
                   "a path from this call with no character left leads back to it");
          if (stored)
            R.viol("P01", fn + ": end of input stored as a character", loc(stored), "");
        }
        // C3: loops consume something
        if (g) {
          R.count("loop progress obligations");
          CExec X(*F);
          Rd.model(X, *F, errp);
          bool first = true;
          const Instruction *bad = nullptr;
          X.visit = [&](const Instruction *J, CState &S) {
            Rd.onStore(J, S, errp, X);
            if (J == &I) {
              if (!first) {
                if (S.u["net"] <= 0 && !S.u["assumed"])
                  bad = J;
                return false;
              }
              first = false;
            }
            return true;
          };
          X.run(&I, start(false));
          if (Verbose) errs() << loc(&I) << " loop steps " << X.steps << "\n";
          if (bad)
            R.viol("P01", fn + ": loop that consumes nothing", loc(bad), "every character read on a way round the loop is put back");
        }
        // C4: end of input against characters
        if (g) {
          R.count("character obligations");
          std::set<const Value *> narrow;
          std::vector<const Value *> w;
          std::set<const Value *> wide{CB};
          std::vector<const Value *> q{CB};
          while (!q.empty()) {
            auto *x = q.back();
            q.pop_back();
            for (auto *U : x->users()) {
              if (auto *Tr = dyn_cast<TruncInst>(U)) {
                if (Tr->getType()->isIntegerTy(8) && narrow.insert(Tr).second)
                  w.push_back(Tr);
              } else if ((isa<PHINode>(U) || isa<SelectInst>(U) || isa<FreezeInst>(U)) && wide.insert(U).second)
                q.push_back(U);
              else if (auto *Sh = dyn_cast<BinaryOperator>(U); Sh && Sh->getOpcode() == Instruction::Shl) {
                // shl 24 / ashr 24: a narrowing conversion after optimisation
                for (auto *U2 : Sh->users())
                  if (auto *A = dyn_cast<BinaryOperator>(U2); A && A->getOpcode() == Instruction::AShr)
                    if (narrow.insert(A).second)
                      w.push_back(A);
              }
            }
          }
          while (!w.empty()) {
            auto *x = w.back();
            w.pop_back();
            for (auto *U : x->users()) {
              if (isa<SExtInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<FreezeInst>(U)) {
                if (narrow.insert(U).second)
                  w.push_back(U);
              } else if (auto *Cm = dyn_cast<ICmpInst>(U)) {
                auto *c = dyn_cast<ConstantInt>(Cm->getOperand(1));
                if (c && c->isMinusOne())
                  R.viol("P01", fn + ": a character taken for the end of input", loc(Cm),
                         "the comparison is made after the result was narrowed to a character");
              } else if (auto *Sw = dyn_cast<SwitchInst>(U)) {
                for (auto &cs : Sw->cases())
                  if (cs.getCaseValue()->isMinusOne())
                    R.viol("P01", fn + ": a character taken for the end of input", loc(Sw),
                           "the comparison is made after the result was narrowed to a character");
              } else if (auto *C2 = dyn_cast<CallBase>(U); C2 && isUngetc(C2))
                R.viol("P01", fn + ": a character lost when put back", loc(C2),
                       "a character sign-extended to -1 is taken for the end of input by ungetc");
            }
          }
        }
      }
      // loops around a reader in callers that read nothing themselves are
      // covered above (calls are starting points too)
    }
    // C2: whatever the next character is, a reader called by others consumes
    // something, reports, or stops
    std::map<std::pair<const Function *, int>, std::set<std::pair<const Function *, int>>> edges;
    for (auto *F : Rd.readers) {
      if (!own(F))
        continue;
      bool hasErr = false;
      for (auto &A : F->args())
        hasErr = hasErr || Rd.errParam(F, A.getArgNo());
      if (!hasErr)
        continue;
      auto errp = Rd.errPtrs(*F);
      std::string badc;
      for (int b = 0; b < 256; b++) {
        R.count("character cases");
        CExec X(*F);
        Rd.model(X, *F, errp);
        bool bad = false;
        X.visit = [&](const Instruction *I, CState &S) {
          Rd.onStore(I, S, errp, X);
          if (auto *G = Rd.readerCallee(I))
            if (S.u["net"] <= 0 && S.u["pend"] >= 0)
              edges[{F, b}].insert({G, (int)S.u["pend"]});
          if (isa<ReturnInst>(I) && S.u["net"] <= 0 && !S.u["err"])
            bad = true;
          return true;
        };
        X.run(&F->getEntryBlock().front(), start(false, b));
        if (Verbose && b % 16 == 0) errs() << fname(F) << " " << b << " steps " << X.steps << "\n";
        if (bad && !F->hasLocalLinkage())
          badc += (badc.empty() ? "" : " ") + std::to_string(b);
      }
      if (!badc.empty())
        R.viol("P01", fname(F) + ": returns without consuming a character", srcFile(F) + ": " + fname(F),
               "when the next character is one of: " + badc.substr(0, 200));
    }
    for (auto &e : edges) {
      std::set<std::pair<const Function *, int>> seen;
      std::vector<std::pair<const Function *, int>> w(e.second.begin(), e.second.end());
      bool cyc = false;
      while (!w.empty() && !cyc) {
        auto x = w.back();
        w.pop_back();
        if (x == e.first)
          cyc = true;
        if (seen.insert(x).second && edges.count(x))
          w.insert(w.end(), edges[x].begin(), edges[x].end());
      }
      if (cyc) {
        R.viol("P01", fname(e.first.first) + ": recursion that consumes nothing", srcFile(e.first.first) + ": " + fname(e.first.first),
               "when the next character is " + std::to_string(e.first.second));
        break;
      }
    }
  });
  R.need("reading functions", 1);
  R.need("end of input obligations", 5);
}
