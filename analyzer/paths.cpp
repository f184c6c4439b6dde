#include "paths.h"

const Instruction *findPath(const Instruction *from, bool inclusive, PathQuery &Q) {
  typedef std::map<const Value *, int64_t> Env;
  struct St {
    const Instruction *I;
    Env env;
    bool armed;
  };
  std::set<std::tuple<const BasicBlock *, Env, bool>> seen;
  std::vector<St> work{{inclusive ? from : from->getNextNode(), {}, !Q.after}};
  unsigned n = 0;
  std::unique_ptr<DominatorTree> DT;
  if (Q.flat)
    DT = std::make_unique<DominatorTree>(*const_cast<Function *>(from->getFunction()));
  while (!work.empty()) {
    St s = std::move(work.back());
    work.pop_back();
    if (++n > Q.limit) {
      Q.overflow = true;
      return nullptr;
    }
    bool ended = false;
    const Instruction *last = nullptr;
    for (auto *J = s.I; J; J = J->getNextNode()) {
      last = J;
      if (!s.armed) {
        s.armed = Q.after(J);
        continue;
      }
      if (Q.bad && Q.bad(J))
        return J;
      if (Q.stop && Q.stop(J)) {
        ended = true;
        break;
      }
    }
    if (ended)
      continue;
    if (isa<ReturnInst>(last)) {
      if (Q.atReturn && s.armed)
        return last;
      continue;
    }
    const BasicBlock *B = last->getParent();
    Eval E;
    E.lookup = [&](const Value *V, KnownBits &K) {
      auto it = s.env.find(V);
      if (it != s.env.end()) {
        K = KnownBits::makeConstant(APInt(K.getBitWidth(), it->second, true));
        return true;
      }
      return Q.lookup && Q.lookup(V, K);
    };
    std::vector<const BasicBlock *> next;
    const Value *undecided = nullptr;
    if (auto *BI = dyn_cast<BranchInst>(last); BI && BI->isConditional()) {
      int c = E.cond(BI->getCondition());
      if (c != 0 && c != 1 && BI->getSuccessor(0) != BI->getSuccessor(1))
        undecided = BI->getCondition();
      if (c != 0)
        next.push_back(BI->getSuccessor(0));
      if (c != 1)
        next.push_back(BI->getSuccessor(1));
    } else if (auto *SI = dyn_cast<SwitchInst>(last)) {
      KnownBits k = E.bits(SI->getCondition());
      if (k.isConstant()) {
        auto *CI = ConstantInt::get(SI->getContext(), k.getConstant());
        next.push_back(SI->findCaseValue(CI)->getCaseSuccessor());
      } else
        for (auto *S : successors(B))
          next.push_back(S);
    } else
      for (auto *S : successors(B))
        next.push_back(S);
    for (auto *S : next) {
      if (Q.excused && Q.excused(B, S))
        continue;
      if (Q.enter && !Q.enter(S))
        continue;
      Env env = s.env;
      if (Q.branches) {
        if (undecided && isa<Instruction>(undecided))
          env[undecided] = S == cast<BranchInst>(last)->getSuccessor(0) ? 1 : 0;
        for (auto it = env.begin(); it != env.end();)
          it = !isa<PHINode>(it->first) && cast<Instruction>(it->first)->getParent() == S ? env.erase(it) : std::next(it);
      }
      if (Q.flat)
        for (auto it = env.begin(); it != env.end();)
          if (!DT->dominates(cast<Instruction>(it->first)->getParent(), S))
            it = env.erase(it);
          else
            ++it;
      std::vector<std::pair<const PHINode *, int64_t>> set;
      for (auto &P : S->phis()) {
        env.erase(&P);
        if (!P.getType()->isIntegerTy() && !P.getType()->isPointerTy())
          continue;
        const Value *V = P.getIncomingValueForBlock(B);
        Eval E2;
        E2.lookup = Q.flat && !isa<PHINode>(V) ? Q.lookup : E.lookup;
        KnownBits k = E2.bits(V);
        if (k.isConstant())
          set.push_back({&P, k.getConstant().getSExtValue()});
      }
      for (auto &p : set)
        env[p.first] = p.second;
      if (seen.insert({S, env, s.armed}).second)
        work.push_back({&S->front(), env, s.armed});
    }
  }
  return nullptr;
}
