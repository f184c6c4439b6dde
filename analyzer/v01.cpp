// V01: every step transfers control exactly once on every path.
//
// State: number of transfers so far, 0, 1 or 2 (= more than one).
// Transfers: a write to the code pointer of the machine state (first word of
// struct Cora), a call of a function summarised as a transfer, a call through a
// code pointer. Running the machine (coraRun) consumes a transfer.
#include "common.h"

namespace {
typedef unsigned Set; // bit i: i transfers are possible
struct V01 {
  Module &M;
  const DataLayout &DL;
  std::map<const Function *, Set> sum;
  std::set<const Function *> runners;
  V01(Module &M) : M(M), DL(M.getDataLayout()) {}

  static Set shift(Set s, Set by) {
    Set r = 0;
    for (int i = 0; i < 3; i++)
      if (s >> i & 1)
        for (int j = 0; j < 3; j++)
          if (by >> j & 1)
            r |= 1u << std::min(2, i + j);
    return r;
  }
  bool writesPC(const Instruction &I) {
    const Value *P = nullptr;
    uint64_t len = 0;
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      P = S->getPointerOperand();
      len = 8;
    } else if (auto *MI = dyn_cast<MemIntrinsic>(&I)) {
      P = MI->getDest();
      auto *C = dyn_cast<ConstantInt>(MI->getLength());
      len = C ? C->getZExtValue() : 8;
    } else
      return false;
    int64_t off;
    const Value *B = baseOf(P, off, DL);
    if (off > 0 || off + (int64_t)len <= 0)
      return false;
    return pointsTo(B, "Cora");
  }
  bool isRunner(const Function &F) {
    // calls through the machine's code pointer in a loop
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB || CB->getCalledFunction() || !isStepCall(CB))
        continue;
      auto *L = dyn_cast<LoadInst>(CB->getCalledOperand());
      int64_t off;
      if (!L)
        continue;
      const Value *B = baseOf(L->getPointerOperand(), off, DL);
      if (off != 0 || !pointsTo(B, "Cora"))
        continue;
      DominatorTree DT(const_cast<Function &>(F));
      LoopInfo LI(DT);
      if (LI.getLoopFor(I.getParent()))
        return true;
    }
    return false;
  }
  // effect of one instruction; run set when it consumes
  enum Eff { None, Add, Run };
  Eff effect(const Instruction &I, Set &by) {
    by = 1;
    if (writesPC(I)) {
      by = 2;
      return Add;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      if (auto *F = CB->getCalledFunction()) {
        if (runners.count(F))
          return Run;
        auto it = sum.find(F);
        if (it == sum.end() || it->second == 1)
          return None;
        by = it->second;
        return Add;
      }
      if (isStepCall(CB)) {
        by = 2;
        return Add;
      }
    }
    return None;
  }
  // flow; returns union of states at returns
  Set flow(const Function &F, const std::set<int64_t> *labels,
           std::map<const BasicBlock *, Set> &in, bool report, const std::string &who) {
    in.clear();
    std::vector<const BasicBlock *> work{&F.getEntryBlock()};
    in[&F.getEntryBlock()] = 1;
    Set out = 0;
    std::set<const BasicBlock *> bad;
    while (!work.empty()) {
      const BasicBlock *B = work.back();
      work.pop_back();
      Set s = in[B];
      bool dead = false;
      for (auto &I : *B) {
        Set by;
        switch (effect(I, by)) {
        case None:
          break;
        case Add: {
          if (by == 0) { // callee never returns (or not analysed yet)
            s = 0;
            dead = true;
            break;
          }
          Set n = shift(s, by);
          if (report && (n & 4) && !(s & 4))
            R.viol("V01", who + ": transfers control twice", loc(&I),
                   "on a path to here control has already been passed on");
          s = n;
          break;
        }
        case Run:
          if (report && (s & 5))
            R.viol("V01", who + ": runs the machine without a pending call", loc(&I),
                   s & 1 ? "no call has been set up on a path to here"
                         : "several calls have been set up on a path to here");
          s = 1;
          break;
        }
        if (dead)
          break;
      }
      if (dead)
        continue;
      auto *T = B->getTerminator();
      if (isa<ReturnInst>(T)) {
        out |= s;
        if (report && isStepType(&F) && !(s & ~1u)) {
        }
        if (report && (s & 1))
          R.viol("V01", who + ": returns without passing control on", loc(T),
                 "a path to this return neither returns a result nor calls anything");
        continue;
      }
      auto go = [&](const BasicBlock *S) {
        Set &d = in[S];
        if ((d | s) != d) {
          d |= s;
          work.push_back(S);
        }
      };
      if (auto *SW = dyn_cast<SwitchInst>(T);
          SW && labels && F.arg_size() == 3 && SW->getCondition() == F.getArg(1)) {
        std::set<int64_t> left = *labels;
        for (auto &c : SW->cases()) {
          int64_t v = c.getCaseValue()->getSExtValue();
          if (left.erase(v))
            go(c.getCaseSuccessor());
        }
        if (!left.empty())
          go(SW->getDefaultDest());
        continue;
      }
      if (auto *BI = dyn_cast<BranchInst>(T); BI && BI->isConditional() && labels)
        if (auto *C = dyn_cast<ICmpInst>(BI->getCondition());
            C && C->getOperand(0) == F.getArg(1) && C->isEquality())
          if (auto *K = dyn_cast<ConstantInt>(C->getOperand(1))) {
            bool can = labels->count(K->getSExtValue());
            bool other = labels->size() > (can ? 1u : 0u);
            bool eq = C->getPredicate() == CmpInst::ICMP_EQ;
            if (can)
              go(BI->getSuccessor(eq ? 0 : 1));
            if (other)
              go(BI->getSuccessor(eq ? 1 : 0));
            continue;
          }
      for (auto *S : successors(B))
        go(S);
    }
    return out;
  }
  void summarise() {
    for (auto &F : M)
      if (!F.isDeclaration() && isRunner(F))
        runners.insert(&F);
    std::vector<Function *> fs;
    for (auto &F : M)
      if (!F.isDeclaration()) {
        fs.push_back(&F);
        sum[&F] = 0;
      }
    bool ch = true;
    std::map<const BasicBlock *, Set> in;
    while (ch) {
      ch = false;
      for (auto *F : fs) {
        Set s = flow(*F, nullptr, in, false, "");
        if ((s | sum[F]) != sum[F]) {
          sum[F] |= s;
          ch = true;
        }
      }
    }
  }
};
} // namespace

RULE(V01) {
  forEachGroup(in, [&](Module &M, const std::string &g) {
    promote(M);
    NormOpts O;
    {
      V01 a(M);
      a.summarise();
      if (g == "core") {
        if (a.runners.empty())
          R.breakage("no function runs the machine loop");
        for (auto &p : a.sum)
          if (p.second == 2)
            R.sample("functions that always transfer", fname(p.first));
      }
      // functions with one certain effect stay calls, the others are inlined
      for (auto &p : a.sum) {
        unsigned s = p.second;
        if (s == 0 || s == 1 || s == 2 || a.runners.count(p.first))
          O.keep.insert(fname(p.first));
      }
      O.keep.insert("_vector_append");
      O.keep.erase("saveCont");
    }
    O.jumpThreading = true;
    normalise(M, O);
    V01 a(M);
    a.summarise();
    auto labels = installedLabels(M);
    std::set<const Function *> done;
    std::map<const BasicBlock *, Set> st;
    for (auto *F : steps(M)) {
      done.insert(F);
      R.count("step functions");
      R.count("labels", labels[F].size());
      a.flow(*F, &labels[F], st, true, fname(F));
      for (auto &I : instructions(*F)) {
        Set by;
        if (a.effect(I, by) != V01::None)
          R.count("transfer sites");
      }
      R.sample("steps in " + g, fname(F) + " labels " + std::to_string(labels[F].size()));
    }
    // the calling primitives themselves and every user of the machine loop
    for (auto &F : M) {
      if (F.isDeclaration() || !own(&F) || done.count(&F) || a.runners.count(&F))
        continue;
      std::string n = fname(&F);
      static const std::set<std::string> prim = {
          "coraReturn", "coraCall", "coraCall0", "coraCall1", "coraCall2",
          "coraCall3", "coraCall4", "coraDispatch", "coraPrimReturn"};
      bool runs = false;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (CB->getCalledFunction() && a.runners.count(CB->getCalledFunction()))
            runs = true;
      if (prim.count(n)) {
        R.count("calling primitives");
        a.flow(F, nullptr, st, true, n);
      } else if (runs) {
        R.count("other functions that run the machine");
        // report only misuse of the machine loop
        auto before = R.viols;
        a.flow(F, nullptr, st, true, n);
        std::vector<Viol> keepv = before;
        for (auto &v : R.viols)
          if (v.key.find("runs the machine") != std::string::npos)
            keepv.push_back(v);
        R.viols = keepv;
      }
    }
  });
  R.need("step functions", 300);
  R.need("transfer sites", 900);
  R.need("calling primitives", 3);
}
