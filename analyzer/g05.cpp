// G05 (second part): every slot of a fresh object that may be read later is
// stored on every path before the object is handed out.
#include "bounds.h"
#include "marks.h"
#include "llvm/BinaryFormat/Dwarf.h"

namespace {
struct Written {
  LE lo, hi;
  const Instruction *at = nullptr;              // from here on ...
  const BasicBlock *from = nullptr, *to = nullptr; // ... or once this edge is taken
};

struct Fresh {
  Function &F;
  const CallBase *A;
  Prover &P;
  std::vector<Written> ws;
  unsigned steps = 0;

  bool valid(const Written &w, const BasicBlock *B, const Instruction *before, const BasicBlock *to) {
    if (w.at) {
      if (w.at->getParent() != B)
        return P.DT.dominates(w.at->getParent(), B);
      return !before || w.at->comesBefore(before);
    }
    if (w.from == B && w.to == to)
      return true;
    return P.DT.dominates(BasicBlockEdge(w.from, w.to), B);
  }
  bool holds(const LE &g, const BasicBlock *B, const BasicBlock *to) {
    P.work = 0;
    return to ? P.proveOn(g, B, to) : P.prove(g, B);
  }
  // at `before` in B (null: at its end, on the way to `to`), [lo, end) was written
  bool covered(const LE &lo, const LE &end, const BasicBlock *B, const Instruction *before, const BasicBlock *to, int depth) {
    if (!P.DT.dominates(A->getParent(), B) || ++steps > 400)
      return steps <= 400; // this object was not created on this way
    LE cur = lo;
    std::vector<bool> used(ws.size());
    for (bool more = true; more;) {
      if (holds(end - cur, B, to))
        return true;
      more = false;
      // first those that certainly lead further
      for (int sure = 1; sure >= 0 && !more; sure--)
        for (size_t i = 0; i < ws.size() && !more; i++) {
          if (used[i] || !valid(ws[i], B, before, to))
            continue;
          LE past = ws[i].hi - cur;
          if (past.isConst() && past.c <= 0)
            continue;
          if (holds(ws[i].lo - cur, B, to) && (sure ? holds(past * -1, B, to) : !holds(past, B, to))) {
            used[i] = more = true;
            cur = ws[i].hi;
          }
        }
    }
    if (depth == 0)
      return false;
    // which way control came
    const BasicBlock *X = B;
    while (X != A->getParent()) {
      if (auto *S = X->getSinglePredecessor())
        X = S;
      else
        break;
    }
    if (X == A->getParent())
      return false;
    for (auto *Q : predecessors(X))
      if (P.DT.isReachableFromEntry(Q) && !P.DT.dominates(X, Q) && !covered(lo, end, Q, nullptr, X, depth - 1))
        return false;
    return true;
  }
};

bool fills(const CallBase *C) {
  StringRef n = calleeName(C);
  return isa<AnyMemIntrinsic>(C) || n == "memset" || n == "memcpy" || n == "memmove";
}

void writes(Fresh &X, Module &M, int base) {
  auto &DL = M.getDataLayout();
  auto &P = X.P;
  auto rooted = [&](const LE &e) {
    auto it = e.t.find(base);
    return it != e.t.end() && it->second == 1;
  };
  for (auto &I : instructions(X.F)) {
    LE at;
    int64_t size = 0;
    if (auto *C = dyn_cast<CallBase>(&I); C && fills(C)) {
      at = P.lin(C->getArgOperand(0));
      if (!rooted(at))
        continue;
      Written w;
      w.lo = at;
      w.hi = at + P.lin(C->getArgOperand(2));
      w.at = &I;
      X.ws.push_back(w);
      LE n = w.hi - at;
      if (!n.isConst())
        continue;
      size = n.c;
    } else {
      auto *S = dyn_cast<StoreInst>(&I);
      if (!S)
        continue;
      at = P.lin(S->getPointerOperand());
      if (!rooted(at))
        continue;
      size = DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
      Written w;
      w.lo = at;
      w.hi = at + size;
      w.at = &I;
      X.ws.push_back(w);
    }
    auto *L = P.LI.getLoopFor(I.getParent());
    if (!L)
      continue;
    // filled element after element
    SmallVector<BasicBlock *, 4> latches;
    L->getLoopLatches(latches);
    auto *Pre = L->getLoopPredecessor();
    if (latches.size() != 1 || !Pre || !P.DT.dominates(I.getParent(), latches[0]))
      continue;
    for (auto &Ph : L->getHeader()->phis()) {
      if (!Ph.getType()->isIntegerTy() && !Ph.getType()->isPointerTy())
        continue;
      LE self = P.lin(&Ph), next = P.lin(Ph.getIncomingValueForBlock(latches[0])), start = P.lin(Ph.getIncomingValueForBlock(Pre));
      LE step = next - self;
      if (!step.isConst() || step.c == 0)
        continue;
      // the atom that counts
      int var = -1;
      int64_t unit = 1;
      if (Ph.getType()->isPointerTy()) {
        LE d = self - start;
        if (d.c || d.t.size() != 1)
          continue;
        var = d.t.begin()->first;
        unit = d.t.begin()->second;
      } else {
        if (self.c || self.t.size() != 1 || self.t.begin()->second != 1)
          continue;
        var = self.t.begin()->first;
      }
      auto k = at.t.find(var);
      if (k == at.t.end() || step.c % unit)
        continue;
      int64_t move = k->second * (step.c / unit);
      if (std::abs(move) != size)
        continue;
      LE first = at - P.one(var) * k->second;
      if (!Ph.getType()->isPointerTy())
        first = first + start * k->second;
      SmallVector<std::pair<BasicBlock *, BasicBlock *>, 4> exits;
      SmallVector<Loop::Edge, 4> es;
      L->getExitEdges(es);
      for (auto &e : es) {
        bool after = e.first == I.getParent() || P.DT.dominates(I.getParent(), e.first);
        Written r;
        r.from = e.first;
        r.to = e.second;
        if (move > 0) {
          r.lo = first;
          r.hi = at + (after ? size : 0);
        } else {
          r.hi = first + size;
          r.lo = at + (after ? 0 : size);
        }
        X.ws.push_back(r);
      }
    }
  }
}
} // namespace

RULE(G05B) {
  forEachGroup(in, [&](Module &M, const std::string &g) {
    std::set<const Function *> passOn, judge;
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &F : M) {
        if (F.isDeclaration() || passOn.count(&F) || judge.count(&F) || fname(&F) == "newObj" || fname(&F) == "gcAlloc")
          continue;
        for (auto &I : instructions(F)) {
          auto *C = dyn_cast<CallBase>(&I);
          auto *T = C ? C->getCalledFunction() : nullptr;
          if (!T || !(fname(T) == "newObj" || passOn.count(T)))
            continue;
          (F.getReturnType()->isPointerTy() ? passOn : judge).insert(&F);
          ch = true;
          break;
        }
      }
    }
    NormOpts O;
    O.externArgsOnly = true;
    O.keep = {"newObj", "gcAlloc", "gcMark"};
    std::vector<std::string> names;
    for (auto *F : judge) {
      O.keep.insert(F->getName().str());
      if (g == "core" || own(F))
        names.push_back(F->getName().str());
    }
    if (names.empty())
      return;
    FrameLayout FL = frameLayout(M);
    normalise(M, O);
    auto &DL = M.getDataLayout();
    for (auto &n : names) {
      Function *F = M.getFunction(n);
      if (!F || F->isDeclaration())
        continue;
      for (auto &I : instructions(*F)) {
        auto *A = dyn_cast<CallBase>(&I);
        if (!A || calleeName(A) != "newObj")
          continue;
        std::string where = fname(F);
        std::string sn = structOfAlloc(A);
        auto *S = sn.empty() ? nullptr : structByName(M, sn);
        if (!S) {
          R.viol("G05", where + ": new object never filled in", loc(A), "no field of it is accessed");
          continue;
        }
        R.count("objects made");
        Prover P(*F);
        int base = P.atomOf(A);
        P.about = [&](int a, std::vector<LE> &out) {
          auto &at = P.atoms[a];
          if (at.v && at.field.empty() && isa<Argument>(at.v) && at.v->getType()->isIntegerTy(32)) {
            out.push_back(P.one(a) + -(1LL << 29));
            out.push_back(P.one(a) * -1 + -(1LL << 29));
          }
        };
        std::map<int64_t, std::vector<const StoreInst *>> fixed;
        for (auto &J : instructions(*F))
          if (auto *St = dyn_cast<StoreInst>(&J)) {
            int64_t off = 0;
            if (baseOf(St->getPointerOperand(), off, DL) == A)
              fixed[off].push_back(St);
          }
        P.loaded = [&](const LoadInst *L, LE &e) {
          int64_t off = 0;
          if (baseOf(L->getPointerOperand(), off, DL) != A || !fixed.count(off) || fixed[off].size() != 1)
            return false;
          auto *St = fixed[off][0];
          if (St->getValueOperand()->getType() != L->getType() || !P.DT.dominates(St, L))
            return false;
          e = P.lin(St->getValueOperand());
          return true;
        };
        Fresh X{*F, A, P, {}, 0};
        writes(X, M, base);
        // where it is handed out
        std::vector<const Instruction *> out;
        std::set<const Value *> derived{A};
        std::vector<const Value *> todo{A};
        while (!todo.empty()) {
          auto *V = todo.back();
          todo.pop_back();
          for (auto *U : V->users()) {
            auto *J = dyn_cast<Instruction>(U);
            if (!J)
              continue;
            if (isa<GetElementPtrInst>(J) || isa<CastInst>(J) || isa<PHINode>(J) || isa<SelectInst>(J) || isa<InsertValueInst>(J) ||
                isa<BinaryOperator>(J)) {
              if (auto *BO = dyn_cast<BinaryOperator>(J); BO && (BO->getOpcode() == Instruction::LShr || BO->getOpcode() == Instruction::Sub))
                continue;
              if (auto *BO = dyn_cast<BinaryOperator>(J); BO && BO->getOpcode() == Instruction::And)
                if (auto *K = dyn_cast<ConstantInt>(BO->getOperand(1)); K && K->getValue().countl_zero() == 0 && K->getValue().countr_zero() >= 40)
                  continue; // the marker alone
              if (derived.insert(J).second)
                todo.push_back(J);
            } else if (isa<ReturnInst>(J))
              out.push_back(J);
            else if (auto *St = dyn_cast<StoreInst>(J)) {
              int64_t off;
              if (St->getValueOperand() == V)
                out.push_back(J);
            } else if (auto *C = dyn_cast<CallBase>(J)) {
              if (isDbgOrLifetime(C) || fills(C))
                continue;
              out.push_back(J);
            }
          }
        }
        struct Need {
          std::string name;
          LE lo, hi;
        };
        std::vector<Need> needs;
        LE o = P.one(base);
        auto *H = structByName(M, "scmHead");
        uint64_t headSize = 0;
        for (auto &f : H ? H->fields : std::vector<Field>())
          headSize = std::max(headSize, f.off + f.size);
        if (!headSize) {
          R.breakage("G05: no scmHead");
          return;
        }
        std::function<void(const StructInfo *, uint64_t, std::string)> flat = [&](const StructInfo *T, uint64_t off, std::string pre) {
          for (auto &f : T->fields) {
            if (f.flexible || (f.isArray && f.size == 0) || off + f.off + f.size <= headSize)
              continue;
            if (!f.isArray)
              if (auto *T2 = structOf(f.di)) {
                flat(T2, off + f.off, pre + f.name + ".");
                continue;
              }
            Need n;
            n.name = pre + f.name;
            n.lo = o + (off + f.off);
            n.hi = n.lo + f.size;
            needs.push_back(n);
          }
        };
        flat(S, 0, "");
        // the elements: as many as the fields say
        std::map<std::string, std::vector<std::pair<std::string, int64_t>>> parts = {
            {"scmVector", {{"size", 8}}}, {"scmNative", {{"captured", 8}}}, {"scmBytes", {{"len", 1}}},
            {"scmContinuation", {{"len", FL.ok ? FL.size : 0}, {"count", 8}}}};
        auto pt = parts.find(S->name);
        const Field *flex = nullptr;
        for (auto &f : S->fields)
          if (f.flexible)
            flex = &f;
        if (pt != parts.end() && flex) {
          LE end = o + flex->off;
          bool ok = true;
          for (auto &p : pt->second) {
            auto *c = S->get(p.first);
            if (!c || fixed[c->off].size() != 1) {
              ok = false;
              continue;
            }
            end = end + P.lin(fixed[c->off][0]->getValueOperand()) * p.second;
          }
          if (S->name == "scmBytes")
            end = end + 1; // the terminator
          Need n;
          n.name = "elements";
          n.lo = o + flex->off;
          n.hi = end;
          if (ok)
            needs.push_back(n);
          else
            R.viol("G05", where + ": the length of a new " + S->name + " is not set once", loc(A), "elements cannot be followed");
        } else if (flex) {
          R.breakage("G05: elements of " + S->name + " have no known count");
        }
        if (out.empty()) {
          R.viol("G05", where + ": new " + S->name + " is not handed out", loc(A), "");
          continue;
        }
        for (auto &nd : needs)
          for (auto *E : out) {
            R.count("slots filled in");
            X.steps = 0;
            if (!X.covered(nd.lo, nd.hi, E->getParent(), E, nullptr, 4)) {
              R.viol("G05", where + ": " + S->name + "." + nd.name + " not filled in", loc(E),
                     "a path hands out the object made at " + loc(A) + " before it is stored");
              break;
            }
          }
        R.sample("objects made", where + " " + S->name);
      }
    }
  });
  R.need("objects made", 4);
  R.need("slots filled in", 15);
}
