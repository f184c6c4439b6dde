#include "tokens.h"
#include "llvm/Analysis/ValueTracking.h"

namespace {
enum St { New, Live, Dead, Gone, Shared };
struct Val {
  enum K { None, Const, Tok, Same } k = None;
  int64_t c = 0;      // Const
  int id = -1;        // Tok
  const Value *v = nullptr; // Same: stands for that value
  bool operator<(const Val &o) const {
    return std::tie(k, c, id, v) < std::tie(o.k, o.c, o.id, o.v);
  }
};
struct State {
  const BasicBlock *bb = nullptr, *pred = nullptr;
  std::map<const Value *, Val> val;   // phis and creations
  std::map<int, St> st;               // instance -> state
  std::map<const Value *, int> fact;  // 0: null/zero, 1: not
  bool operator<(const State &o) const {
    return std::tie(bb, val, st, fact) < std::tie(o.bb, o.val, o.st, o.fact);
  }
};
struct Engine {
  Function &F;
  const TokenRules &T;
  const DataLayout &DL;
  DominatorTree DT;
  std::vector<const Value *> sites;          // token number = 2*site + instance
  std::map<const Value *, unsigned> siteOf;
  std::map<const Value *, const CallBase *> outOf; // alloca -> creating call
  std::set<std::string> reported;
  unsigned steps = 0;
  const Value *only = nullptr;     // the creation being followed
  std::set<const Value *> twice;   // addresses whose test decides more than one branch
  std::map<const Value *, Resource> kept; // variables that may hold one
  Engine(Function &F, const TokenRules &T, std::map<const Value *, Resource> kept) : F(F), T(T), DL(F.getParent()->getDataLayout()), DT(F), kept(std::move(kept)) {}

  const Resource &res(int id) {
    if (auto *CB = dyn_cast<CallBase>(sites[id / 2]))
      return T.create.at(calleeName(CB));
    return kept.at(sites[id / 2]);
  }
  std::string where(const Value *S) {
    if (auto *I = dyn_cast<Instruction>(S))
      return loc(I);
    return "entry, in " + S->getName().str();
  }
  std::string name(int id) { return res(id).what; }
  void report(const std::string &what, const Instruction *at, int id) {
    std::string key = fname(&F) + ": " + what;
    if (reported.insert(key).second)
      R.viol(T.rule, key, loc(at), name(id) + " obtained at " + where(sites[id / 2]));
  }
  // token behind a value on this path, -1 when none
  int tok(const Value *V, const State &S, int depth = 0) {
    if (depth > 20)
      return -1;
    auto it = S.val.find(V);
    if (it != S.val.end()) {
      if (it->second.k == Val::Tok) {
        // what such a call returns is the outcome, not the resource
        if (isa<CallBase>(V) && res(it->second.id).form == Resource::OutParam)
          return -1;
        return it->second.id;
      }
      if (it->second.k == Val::Same && it->second.v != V)
        return tok(it->second.v, S, depth + 1);
      if (it->second.k == Val::Const)
        return -1;
    }
    if (auto *G = dyn_cast<GEPOperator>(V))
      return tok(G->getPointerOperand(), S, depth + 1);
    if (auto *C = dyn_cast<CastInst>(V)) {
      if (isa<BitCastInst>(C) || isa<SExtInst>(C) || isa<ZExtInst>(C) || isa<TruncInst>(C) || isa<PtrToIntInst>(C) || isa<IntToPtrInst>(C))
        return tok(C->getOperand(0), S, depth + 1);
      return -1;
    }
    if (auto *X = dyn_cast<ExtractValueInst>(V)) {
      const Value *A = FindInsertedValue(const_cast<Value *>(X->getAggregateOperand()), X->getIndices());
      return A && A != V ? tok(A, S, depth + 1) : -1;
    }
    if (isa<FreezeInst>(V))
      return tok(cast<Instruction>(V)->getOperand(0), S, depth + 1);
    if (auto *L = dyn_cast<LoadInst>(V)) {
      if (auto *G = dyn_cast<GlobalVariable>(L->getPointerOperand()))
        if (kept.count(G)) {
          auto c = S.val.find(G);
          return c != S.val.end() && c->second.k == Val::Tok ? c->second.id : -1;
        }
      // the address list is found through its out parameter
      auto o = outOf.find(L->getPointerOperand());
      if (o != outOf.end()) {
        auto c = S.val.find(o->second);
        if (c != S.val.end() && c->second.k == Val::Tok)
          return c->second.id;
        return -1;
      }
      if (L->getType()->isPointerTy()) {
        int t = tok(L->getPointerOperand(), S, depth + 1);
        if (t >= 0 && res(t).deep)
          return t;
      }
    }
    return -1;
  }
  Val resolve(const Value *V, const State &S) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() <= 64)
        return {Val::Const, C->getSExtValue(), -1, nullptr};
      return {};
    }
    if (isa<ConstantPointerNull>(V))
      return {Val::Const, 0, -1, nullptr};
    int t = tok(V, S);
    if (t >= 0)
      return {Val::Tok, 0, t, nullptr};
    auto it = S.val.find(V);
    if (it != S.val.end())
      return it->second;
    if (V->getType()->isIntegerTy(1) && isa<Instruction>(V))
      return {Val::Same, 0, -1, V};
    return {};
  }
  // the truth value a boolean variable was given, when C is one or tests one
  static const Value *inner(const Value *C, bool &neg) {
    const Value *V = C;
    if (auto *I = dyn_cast<ICmpInst>(C); I && I->isEquality())
      if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)); K && K->isZero()) {
        V = I->getOperand(0);
        neg = I->getPredicate() == CmpInst::ICMP_EQ;
      }
    const Value *W = V;
    while (isa<ZExtInst>(W) || isa<TruncInst>(W) || isa<SExtInst>(W))
      W = cast<CastInst>(W)->getOperand(0);
    if (W != C && W->getType()->isIntegerTy(1) && V != W)
      return W;
    return nullptr;
  }
  // 1/0/-1
  int cond(const Value *C, State &S, int depth = 0) {
    if (depth > 8)
      return -1;
    Eval E;
    E.lookup = [&](const Value *V, KnownBits &K) {
      auto it = S.val.find(V);
      if (it != S.val.end() && it->second.k == Val::Const) {
        K = KnownBits::makeConstant(APInt(K.getBitWidth(), it->second.c, true));
        return true;
      }
      return false;
    };
    int c = E.cond(C);
    if (c >= 0)
      return c;
    auto it = S.val.find(C);
    if (it != S.val.end() && it->second.k == Val::Same && it->second.v != C)
      return cond(it->second.v, S, depth + 1);
    bool neg = false;
    if (auto *W = inner(C, neg)) {
      int r = cond(W, S, depth + 1);
      return r < 0 ? r : r != (int)neg;
    }
    if (auto *I = dyn_cast<ICmpInst>(C)) {
      const Value *A = I->getOperand(0);
      auto *K = dyn_cast<Constant>(I->getOperand(1));
      if (K && (K->isNullValue()) && I->isEquality()) {
        bool eq = I->getPredicate() == CmpInst::ICMP_EQ;
        auto f = S.fact.find(A);
        if (f != S.fact.end())
          return (f->second == 0) == eq;
        int t = tok(A, S);
        if (t >= 0 && A->getType()->isPointerTy()) {
          // an address inside the resource, or the resource itself when known
          if (S.st[t] == Live || S.st[t] == Shared || S.st[t] == Dead)
            if (!res(t).deep || direct(A, S))
              if (res(t).mustCheck)
                return !eq;
          if (S.st[t] == Gone)
            return eq;
        }
      }
    }
    if (auto *B = dyn_cast<BinaryOperator>(C); B && B->getOpcode() == Instruction::Xor)
      if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1)); K && K->isOne()) {
        int r = cond(B->getOperand(0), S, depth + 1);
        return r < 0 ? r : !r;
      }
    return -1;
  }
  bool direct(const Value *A, const State &S) {
    auto it = S.val.find(A);
    if (it != S.val.end() && it->second.k == Val::Tok)
      return !isa<PHINode>(A);
    if (auto *L = dyn_cast<LoadInst>(A))
      return outOf.count(L->getPointerOperand()) || kept.count(L->getPointerOperand());
    return false;
  }
  // state after C turned out to be `truth`; false when impossible
  bool assume(const Value *C, bool truth, State &S, int depth = 0) {
    if (depth > 8)
      return true;
    auto it = S.val.find(C);
    if (it != S.val.end() && it->second.k == Val::Same && it->second.v != C)
      return assume(it->second.v, truth, S, depth + 1);
    bool neg = false;
    if (auto *W = inner(C, neg))
      return assume(W, truth != neg, S, depth + 1);
    if (auto *B = dyn_cast<BinaryOperator>(C)) {
      auto *K = dyn_cast<ConstantInt>(B->getOperand(1));
      if (B->getOpcode() == Instruction::Xor && K && K->isOne())
        return assume(B->getOperand(0), !truth, S, depth + 1);
      if ((B->getOpcode() == Instruction::And && truth) || (B->getOpcode() == Instruction::Or && !truth))
        return assume(B->getOperand(0), truth, S, depth + 1) &&
               assume(B->getOperand(1), truth, S, depth + 1);
    }
    auto *I = dyn_cast<ICmpInst>(C);
    if (!I)
      return true;
    const Value *A = I->getOperand(0);
    auto *K = dyn_cast<Constant>(I->getOperand(1));
    if (!K)
      return true;
    auto pred = truth ? I->getPredicate() : I->getInversePredicate();
    int t = -1;
    // result of the call that fills in an out parameter
    if (auto *CB = dyn_cast<CallBase>(A)) {
      auto v = S.val.find(CB);
      if (v != S.val.end() && v->second.k == Val::Tok && res(v->second.id).form == Resource::OutParam) {
        t = v->second.id;
        if (!K->isNullValue() || S.st[t] != New)
          return true;
        if (pred == CmpInst::ICMP_EQ)
          S.st[t] = Live;
        else if (pred == CmpInst::ICMP_NE)
          S.st[t] = Gone;
        return true;
      }
    }
    t = tok(A, S);
    if (t >= 0 && res(t).form == Resource::Descriptor) {
      auto *CI = dyn_cast<ConstantInt>(K);
      if (!CI)
        return true;
      int64_t c = CI->getSExtValue();
      int ok = -1;
      switch (pred) {
      case CmpInst::ICMP_EQ: ok = c < 0 ? 0 : 1; break;
      case CmpInst::ICMP_NE: ok = c == -1 ? 1 : -1; break;
      case CmpInst::ICMP_SLT: ok = c <= 0 ? 0 : -1; break;
      case CmpInst::ICMP_SLE: ok = c < 0 ? 0 : -1; break;
      case CmpInst::ICMP_SGT: ok = c >= -1 ? 1 : -1; break;
      case CmpInst::ICMP_SGE: ok = c >= 0 ? 1 : -1; break;
      default:;
      }
      if (S.st[t] == New && ok >= 0)
        S.st[t] = ok ? Live : Gone;
      else if (ok == 0 && (S.st[t] == Live) && res(t).mustCheck)
        return false; // known to be valid
      else if (ok == 1 && S.st[t] == Gone)
        return false;
      return true;
    }
    if (K->isNullValue() && I->isEquality() && A->getType()->isPointerTy()) {
      bool null = pred == CmpInst::ICMP_EQ;
      if (t >= 0 && (!res(t).deep || direct(A, S))) {
        if (null) {
          if (S.st[t] == New || (S.st[t] == Live && !res(t).mustCheck))
            S.st[t] = Gone;
        } else if (S.st[t] == New)
          S.st[t] = Live;
        return true;
      }
      if (twice.count(A))
        S.fact[A] = null ? 0 : 1;
    }
    return true;
  }
  void use(const Value *V, const Instruction *at, State &S, const char *how) {
    int t = tok(V, S);
    if (t < 0)
      return;
    switch (S.st[t]) {
    case Dead:
      report(std::string(how) + " " + name(t) + " after it was released or moved", at, t);
      break;
    case Gone:
      report(std::string(how) + " " + name(t) + " although obtaining it failed", at, t);
      break;
    case New:
      if (res(t).mustCheck)
        report(std::string(how) + " " + name(t) + " before it is known to have been obtained", at, t);
      break;
    default:;
    }
  }
  void share(const Value *V, const Instruction *at, State &S, const char *how) {
    int t = tok(V, S);
    if (t < 0)
      return;
    use(V, at, S, how);
    if (S.st[t] == New || S.st[t] == Live)
      S.st[t] = Shared;
  }
  void leak(int id, const Instruction *at) {
    if (res(id).mustRelease)
      report(name(id) + " is not released on every path", at, id);
  }
  void exec(const Instruction *I, State &S) {
    if (isDbgOrLifetime(I))
      return;
    if (auto *CB = dyn_cast<CallBase>(I)) {
      std::string n = calleeName(CB);
      auto c = T.create.find(n);
      bool creates = c != T.create.end();
      // release
      for (unsigned i = 0; i < CB->arg_size(); i++) {
        const Value *A = CB->getArgOperand(i);
        int t = tok(A, S);
        if (t < 0)
          continue;
        const Resource &r = res(t);
        if (i == 0 && (r.release.count(n) || r.move.count(n))) {
          if (S.st[t] == Dead)
            report(name(t) + " is released twice", CB, t);
          else if (S.st[t] == New && r.mustCheck)
            report(name(t) + " is released before it is known to have been obtained", CB, t);
          else if (S.st[t] == Gone && n != "free")
            report(name(t) + " is released although obtaining it failed", CB, t);
          R.count("releases");
          S.st[t] = Dead;
          continue;
        }
        use(A, CB, S, "uses");
      }
      if (!CB->getCalledFunction())
        share(CB->getCalledOperand(), CB, S, "runs code of");
      if (creates && CB == only) {
        const Resource &r = c->second;
        unsigned s = siteOf[CB];
        // the previous instance of this site
        int id = 2 * s;
        S.val.erase(CB);
        auto referenced = [&](int k) {
          for (auto &v : S.val)
            if (v.second.k == Val::Tok && v.second.id == k)
              return true;
          return false;
        };
        for (int k : {2 * (int)s, 2 * (int)s + 1})
          if (S.st.count(k) && !referenced(k)) {
            if (S.st[k] == Live || S.st[k] == New)
              leak(k, CB);
            S.st.erase(k);
          }
        if (S.st.count(id))
          id++;
        if (S.st.count(id)) {
          R.breakage("too many instances of one creation in " + fname(&F));
          return;
        }
        S.st[id] = r.mustCheck ? New : Live;
        S.val[CB] = {Val::Tok, 0, id, nullptr};
        R.count("obtained");
      } else if (CB->getType()->isPointerTy() && (n == "strchr" || n == "strrchr" || n == "strstr" || n == "dlsym")) {
        int t = tok(CB->getArgOperand(0), S);
        if (t >= 0)
          S.val[CB] = {Val::Tok, 0, t, nullptr};
        else
          S.val.erase(CB);
      }
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      if (!outOf.count(L->getPointerOperand()) && !kept.count(L->getPointerOperand()))
        use(L->getPointerOperand(), L, S, "reads");
      S.fact.erase(L);
      return;
    }
    if (auto *St = dyn_cast<StoreInst>(I)) {
      if (kept.count(St->getPointerOperand())) {
        S.val.erase(St->getPointerOperand());
        int t = tok(St->getValueOperand(), S);
        if (t >= 0 && S.st[t] == New)
          S.st[t] = Shared;
      } else
        use(St->getPointerOperand(), St, S, "writes");
      share(St->getValueOperand(), St, S, "keeps");
      return;
    }
    if (isa<PtrToIntInst>(I)) {
      // used as a value of the language
      bool only = true;
      for (auto *U : I->users())
        only &= isa<ICmpInst>(U);
      int t = tok(I->getOperand(0), S);
      if (!only && t >= 0)
        toValue(I, S);
      return;
    }
    if (isa<SIToFPInst>(I) || isa<UIToFPInst>(I)) {
      share(I->getOperand(0), I, S, "hands out");
      return;
    }
    S.fact.erase(I);
  }
  // an address turned into an integer: handed over unless only compared/masked
  // to look at its bits
  void toValue(const Instruction *I, State &S) {
    std::vector<const Value *> w{I};
    std::set<const Value *> seen;
    bool leaves = false;
    while (!w.empty()) {
      auto *V = w.back();
      w.pop_back();
      if (!seen.insert(V).second)
        continue;
      for (auto *U : V->users()) {
        if (isa<StoreInst>(U) || isa<CallBase>(U) || isa<ReturnInst>(U))
          leaves = true;
        else if (auto *O = dyn_cast<BinaryOperator>(U)) {
          if (O->getOpcode() == Instruction::And || O->getOpcode() == Instruction::LShr)
            continue;
          w.push_back(U);
        } else if (isa<PHINode>(U) || isa<SelectInst>(U) || isa<CastInst>(U))
          w.push_back(U);
      }
    }
    if (leaves)
      share(I->getOperand(0), I, S, "hands out");
  }
  void run() {
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        auto c = T.create.find(calleeName(CB));
        if (c == T.create.end())
          continue;
        siteOf[CB] = sites.size();
        sites.push_back(CB);
        R.count("creation sites");
        R.sample("creation sites", c->second.what + " " + loc(CB));
        if (c->second.form == Resource::OutParam && c->second.out < CB->arg_size())
          outOf[CB->getArgOperand(c->second.out)->stripPointerCasts()] = CB;
      }
    std::set<const Value *> used;
    for (auto &I : instructions(F))
      if (auto *L = dyn_cast<LoadInst>(&I); L && kept.count(L->getPointerOperand()))
        if (used.insert(L->getPointerOperand()).second) {
          siteOf[L->getPointerOperand()] = sites.size();
          sites.push_back(L->getPointerOperand());
          R.count("variables");
        }
    if (sites.empty())
      return;
    R.count("functions");
    std::map<const Value *, unsigned> tests;
    for (auto &I : instructions(F)) {
      if (auto *C = dyn_cast<ICmpInst>(&I); C && C->getOperand(0)->getType()->isPointerTy())
        tests[C->getOperand(0)] += C->hasNUsesOrMore(2) ? 2 : 1;
      if (auto *P = dyn_cast<PHINode>(&I); P && P->getType()->isPointerTy())
        for (auto &V : P->incoming_values())
          tests[V]++;
    }
    for (auto &t : tests)
      if (t.second > 1)
        twice.insert(t.first);
    for (auto *CB : sites) {
      only = CB;
      follow();
    }
  }
  void follow() {
    steps = 0;
    // blocks from which the creation can be reached
    std::set<const BasicBlock *> before;
    std::vector<const BasicBlock *> w{isa<Instruction>(only) ? cast<Instruction>(only)->getParent() : &F.getEntryBlock()};
    while (!w.empty()) {
      auto *B = w.back();
      w.pop_back();
      if (before.insert(B).second)
        for (auto *P : predecessors(B))
          w.push_back(P);
    }
    std::set<State> seen;
    std::vector<State> work;
    State S0;
    S0.bb = &F.getEntryBlock();
    if (kept.count(only)) {
      S0.val[only] = {Val::Tok, 0, 2 * (int)siteOf[only], nullptr};
      S0.st[2 * siteOf[only]] = New;
    }
    work.push_back(S0);
    while (!work.empty()) {
      State S = std::move(work.back());
      work.pop_back();
      if (++steps > 300000) {
        R.breakage("too many paths in " + fname(&F) + " from " + where(only));
        return;
      }
      const BasicBlock *B = S.bb;
      if (S.pred) {
        std::map<const Value *, Val> nv;
        std::map<const Value *, int> nf;
        for (auto &P : B->phis()) {
          const Value *V = P.getIncomingValueForBlock(S.pred);
          Val v = resolve(V, S);
          // no counting: constants only when written, or followed
          if (v.k != Val::None && !(v.k == Val::Same && v.v == &P))
            nv[&P] = v;
          auto f = S.fact.find(V);
          if (f != S.fact.end())
            nf[&P] = f->second;
          else if (isa<ConstantPointerNull>(V))
            nf[&P] = 0;
        }
        for (auto &P : B->phis()) {
          S.val.erase(&P);
          S.fact.erase(&P);
        }
        for (auto &p : nv)
          S.val[p.first] = p.second;
        for (auto &p : nf)
          S.fact[p.first] = p.second;
        // forget what no longer dominates
        for (auto it = S.val.begin(); it != S.val.end();) {
          auto *I = dyn_cast<Instruction>(it->first);
          bool gone = I && !DT.dominates(I->getParent(), B);
          // a creation may still be needed to find its out parameter
          if (gone)
            it = S.val.erase(it);
          else
            ++it;
        }
        for (auto it = S.fact.begin(); it != S.fact.end();) {
          auto *I = dyn_cast<Instruction>(it->first);
          if (I && !DT.dominates(I->getParent(), B))
            it = S.fact.erase(it);
          else
            ++it;
        }
        // settled instances nobody refers to are forgotten
        for (auto it = S.st.begin(); it != S.st.end();) {
          bool ref = false;
          for (auto &v : S.val)
            ref |= v.second.k == Val::Tok && v.second.id == it->first;
          if (!ref && it->second != Live && it->second != New)
            it = S.st.erase(it);
          else
            ++it;
        }
        S.pred = nullptr;
        // nothing is held and the creation does not come again
        if (S.st.empty() && !before.count(B))
          continue;
        if (!seen.insert(S).second)
          continue;
      }
      bool ended = false;
      for (auto &I : *B) {
        if (isa<PHINode>(&I))
          continue;
        if (I.isTerminator())
          break;
        if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->doesNotReturn()) {
          ended = true;
          break;
        }
        if (auto *Sel = dyn_cast<SelectInst>(&I)) {
          int c = cond(Sel->getCondition(), S);
          S.val.erase(Sel);
          if (c >= 0) {
            Val v = resolve(c ? Sel->getTrueValue() : Sel->getFalseValue(), S);
            if (v.k != Val::None)
              S.val[Sel] = v;
          }
          continue;
        }
        exec(&I, S);
      }
      if (ended)
        continue;
      auto *Tm = B->getTerminator();
      if (isa<UnreachableInst>(Tm))
        continue;
      if (auto *Rt = dyn_cast<ReturnInst>(Tm)) {
        if (auto *V = Rt->getReturnValue()) {
          // parts of a returned structure
          std::vector<const Value *> w{V};
          while (!w.empty()) {
            auto *X = w.back();
            w.pop_back();
            if (auto *IV = dyn_cast<InsertValueInst>(X)) {
              w.push_back(IV->getAggregateOperand());
              w.push_back(IV->getInsertedValueOperand());
              continue;
            }
            int t = tok(X, S);
            if (t >= 0) {
              if (S.st[t] == Dead)
                report("returns " + name(t) + " after it was released or moved", Rt, t);
              else if (S.st[t] == New || S.st[t] == Live)
                S.st[t] = Shared;
            }
          }
        }
        for (auto &p : S.st)
          if (p.second == Live || p.second == New)
            leak(p.first, Rt);
        continue;
      }
      auto go = [&](const BasicBlock *N, State T2) {
        T2.pred = B;
        T2.bb = N;
        work.push_back(std::move(T2));
      };
      if (auto *Br = dyn_cast<BranchInst>(Tm); Br && Br->isConditional()) {
        int c = cond(Br->getCondition(), S);
        for (int s = 0; s < 2; s++) {
          if (c >= 0 && (c == 1) != (s == 0))
            continue;
          State T2 = S;
          if (!assume(Br->getCondition(), s == 0, T2))
            continue;
          go(Br->getSuccessor(s), std::move(T2));
        }
      } else if (auto *Sw = dyn_cast<SwitchInst>(Tm)) {
        Val v = resolve(Sw->getCondition(), S);
        if (v.k == Val::Const) {
          auto *CI = ConstantInt::get(cast<IntegerType>(Sw->getCondition()->getType()), v.c, true);
          go(Sw->findCaseValue(CI)->getCaseSuccessor(), S);
        } else
          for (auto *N : successors(B))
            go(N, S);
      } else
        for (auto *N : successors(B))
          go(N, S);
    }
  }
};
} // namespace

void checkTokens(Module &M, const std::function<bool(const Function &)> &which, const TokenRules &T) {
  // variables of the C code that are given the outcome of a creation untested
  std::map<const Value *, Resource> kept;
  for (auto &G : M.globals())
    for (auto *U : G.users())
      if (auto *St = dyn_cast<StoreInst>(U); St && St->getPointerOperand() == &G)
        if (auto *CB = dyn_cast<CallBase>(St->getValueOperand())) {
          auto c = T.create.find(calleeName(CB));
          if (c == T.create.end() || c->second.form != Resource::Pointer || !c->second.mustCheck)
            continue;
          Resource r = c->second;
          r.mustRelease = false;
          kept[&G] = r;
        }
  for (auto &F : M)
    if (!F.isDeclaration() && which(F))
      Engine(F, T, kept).run();
}
