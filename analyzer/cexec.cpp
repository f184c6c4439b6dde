#include "cexec.h"
#include "llvm/Analysis/ConstantFolding.h"
#include <ctype.h>

Constant *CExec::get(const Value *V, CState &S) {
  if (auto *C = dyn_cast<Constant>(V)) {
    if (isa<ConstantInt>(C) || isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<GlobalValue>(C) ||
        isa<ConstantExpr>(C))
      return const_cast<Constant *>(C);
    return nullptr;
  }
  auto it = S.env.find(V);
  return it == S.env.end() ? nullptr : it->second;
}

void CExec::run(const Instruction *from, CState S0) {
  std::vector<std::pair<CState, const Instruction *>> work;
  S0.bb = from->getParent();
  work.push_back({S0, from});
  while (!work.empty()) {
    auto [S, at] = work.back();
    work.pop_back();
    if (overflow)
      return;
    const BasicBlock *B = S.bb;
    BasicBlock::const_iterator it = at ? at->getIterator() : B->begin();
    if (!at) {
      // phis all at once
      std::vector<std::pair<const Value *, Constant *>> up;
      for (auto &P : B->phis())
        up.push_back({&P, get(P.getIncomingValueForBlock(S.pred), S)});
      // widen: a phi that takes many values is unknown from then on
      for (auto &p : up)
        if (p.second && !isa<UndefValue>(p.second)) {
          auto &vs = phiVals[p.first];
          vs.insert(p.second);
          if (vs.size() > widen)
            p.second = nullptr;
        }
      for (auto &p : up)
        if (p.second && !isa<UndefValue>(p.second))
          S.env[p.first] = p.second;
        else
          S.env.erase(p.first);
      it = B->getFirstNonPHI()->getIterator();
      std::string key;
      {
        raw_string_ostream os(key);
        os << (const void *)B << "|";
        for (auto &e : S.env) {
          os << (const void *)e.first << "=";
          e.second->printAsOperand(os, false);
          os << ";";
        }
        for (auto &e : S.u)
          os << e.first << "=" << e.second << ";";
      }
      if (!seen.insert(key).second)
        continue;
    }
    bool stop = false;
    for (; it != B->end(); ++it) {
      const Instruction *I = &*it;
      if (isDbgOrLifetime(I))
        continue;
      if (++steps > limit) {
        overflow = true;
        return;
      }
      if (visit && !visit(I, S)) {
        stop = true;
        break;
      }
      if (I->isTerminator())
        break;
      if (I->getType()->isVoidTy())
        continue;
      Constant *C = value ? value(I, S) : nullptr;
      // the table of the kinds of characters
      if (auto *L = dyn_cast<LoadInst>(I); L && !C && L->getType()->isIntegerTy(16))
        if (auto *G = dyn_cast<GEPOperator>(L->getPointerOperand()->stripPointerCasts())) {
          auto *B = dyn_cast<LoadInst>(G->getPointerOperand()->stripPointerCasts());
          auto *Cl = B ? dyn_cast<CallBase>(B->getPointerOperand()->stripPointerCasts()) : nullptr;
          if (Cl && calleeName(Cl) == "__ctype_b_loc" && G->getNumIndices() == 1)
            if (auto *c = dyn_cast_or_null<ConstantInt>(get(G->getOperand(1), S))) {
              long v = c->getSExtValue();
              if (v >= -1 && v < 256)
                C = ConstantInt::get(I->getType(), (*__ctype_b_loc())[v]);
            }
        }
      if (auto *CB = dyn_cast<CallBase>(I); CB && !C) {
        // a character looked up in a constant text
        std::string n = calleeName(CB);
        StringRef text;
        if ((n == "strchr" || n == "memchr" || n == "strrchr") && CB->arg_size() >= 2)
          if (auto *G = dyn_cast<GlobalVariable>(CB->getArgOperand(0)->stripPointerCasts());
              G && getConstantStringInfo(G, text, n != "memchr"))
            if (auto *c = dyn_cast_or_null<ConstantInt>(get(CB->getArgOperand(1), S))) {
              std::string t = text.str();
              if (n != "memchr")
                t += '\0';
              else if (auto *k = dyn_cast_or_null<ConstantInt>(get(CB->getArgOperand(2), S)))
                t = t.substr(0, k->getZExtValue());
              else
                continue;
              char b = (char)c->getSExtValue();
              size_t at = n == "strrchr" ? t.rfind(b) : t.find(b);
              if (at == std::string::npos)
                C = ConstantPointerNull::get(cast<PointerType>(I->getType()));
              else
                C = ConstantExpr::getInBoundsGetElementPtr(
                    Type::getInt8Ty(I->getContext()), G,
                    ConstantInt::get(Type::getInt64Ty(I->getContext()), at));
            }
      }
      if (!C && !isa<CallBase>(I) && !isa<LoadInst>(I) && !isa<AllocaInst>(I) && !isa<PHINode>(I)) {
        if (auto *Sel = dyn_cast<SelectInst>(I)) {
          if (auto *c = dyn_cast_or_null<ConstantInt>(get(Sel->getCondition(), S)))
            C = get(c->isOne() ? Sel->getTrueValue() : Sel->getFalseValue(), S);
          else {
            auto *a = get(Sel->getTrueValue(), S), *b = get(Sel->getFalseValue(), S);
            if (a && a == b)
              C = a;
          }
        } else {
          SmallVector<Constant *, 4> ops;
          bool all = true;
          for (auto &u : I->operands()) {
            auto *c = get(u.get(), S);
            if (!c) {
              all = false;
              break;
            }
            ops.push_back(c);
          }
          if (all) {
            if (auto *Cm = dyn_cast<CmpInst>(I))
              C = ConstantFoldCompareInstOperands(Cm->getPredicate(), ops[0], ops[1], DL);
            else
              C = ConstantFoldInstOperands(const_cast<Instruction *>(I), ops, DL);
          } else if (I->getOpcode() == Instruction::And || I->getOpcode() == Instruction::Or) {
            for (auto &u : I->operands())
              if (auto *c = dyn_cast_or_null<ConstantInt>(get(u.get(), S))) {
                if (I->getOpcode() == Instruction::And && c->isZero())
                  C = c;
                if (I->getOpcode() == Instruction::Or && c->isMinusOne())
                  C = c;
              }
          }
        }
      }
      if (auto *Ld = dyn_cast<LoadInst>(I); Ld && !C)
        if (auto *P = get(Ld->getPointerOperand(), S))
          C = ConstantFoldLoadFromConstPtr(P, Ld->getType(), DL);
      if (C && !isa<UndefValue>(C))
        S.env[I] = C;
      else
        S.env.erase(I);
    }
    if (stop)
      continue;
    auto *T = B->getTerminator();
    // forget what later blocks cannot see
    for (auto e = S.env.begin(); e != S.env.end();) {
      auto *I = dyn_cast<Instruction>(e->first);
      bool outside = false;
      if (I)
        for (auto *U : I->users())
          if (auto *UI = dyn_cast<Instruction>(U); UI && (UI->getParent() != I->getParent() || isa<PHINode>(UI)))
            outside = true;
      if (I && I->getParent() == B && !outside && I != (B->getTerminator()->getNumOperands() ? B->getTerminator()->getOperand(0) : nullptr))
        e = S.env.erase(e);
      else
        ++e;
    }
    auto go = [&](const BasicBlock *N, const Value *V, Constant *C) {
      CState T2 = S;
      T2.pred = B;
      T2.bb = N;
      if (V && C && isa<Instruction>(V))
        T2.env[V] = C;
      work.push_back({T2, nullptr});
    };
    if (auto *Br = dyn_cast<BranchInst>(T)) {
      if (Br->isUnconditional()) {
        go(Br->getSuccessor(0), nullptr, nullptr);
        continue;
      }
      auto *c = dyn_cast_or_null<ConstantInt>(get(Br->getCondition(), S));
      if (c) {
        go(Br->getSuccessor(c->isOne() ? 0 : 1), nullptr, nullptr);
        continue;
      }
      const Value *V = nullptr;
      Constant *C = nullptr;
      int side = -1;
      if (auto *Cm = dyn_cast<ICmpInst>(Br->getCondition()); Cm && Cm->isEquality())
        if (auto *k = dyn_cast<ConstantInt>(Cm->getOperand(1))) {
          V = Cm->getOperand(0);
          C = k;
          side = Cm->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1;
        }
      for (int s = 0; s < 2; s++)
        go(Br->getSuccessor(s), s == side ? V : nullptr, C);
    } else if (auto *Sw = dyn_cast<SwitchInst>(T)) {
      if (auto *c = dyn_cast_or_null<ConstantInt>(get(Sw->getCondition(), S))) {
        auto cs = Sw->findCaseValue(c);
        go(cs->getCaseSuccessor(), nullptr, nullptr);
      } else {
        for (auto &cs : Sw->cases())
          go(cs.getCaseSuccessor(), Sw->getCondition(), const_cast<ConstantInt *>(cs.getCaseValue()));
        go(Sw->getDefaultDest(), nullptr, nullptr);
      }
    } else
      for (auto *N : successors(B))
        go(N, nullptr, nullptr);
  }
}
