// V02: frames. Every access R[i] of a step lies inside the frame it is
// registered with, is never read before it has been given a value, captured
// values are read only below the captured count, every registration's frame
// has room for its arguments, and callers never write past the frame they
// allocate.
#include "frames.h"

bool isMakeNative(const CallBase *CB) { return calleeName(CB) == "makeNative"; }

std::set<std::string> frameKeep() {
  return {"makeNative", "coraRegisterAPI", "registerAPI", "coraReturn", "coraCall",
          "coraCall0", "coraCall1", "coraCall2", "coraCall3", "coraCall4",
          "coraDispatch", "coraRun", "_vector_append", "stackAlloc",
          "stackAllocSlowPath", "makeCons", "makeString", "makeCString",
          "makeBytes", "makeVector", "intern", "bindSymbol", "primSet", "eq",
          "makeNumber", "primGenSym", "gcAlloc", "newObj"};
}

std::vector<Reg> registrations(Module &M) {
  std::vector<Reg> res;
  auto constOf = [](const Value *V, int64_t &o) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      o = C->getSExtValue();
      return true;
    }
    return false;
  };
  for (auto &F : M) {
    if (F.isDeclaration())
      continue;
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB)
        continue;
      std::string n = calleeName(CB);
      if (n == "makeNative" && CB->arg_size() >= 5) {
        Reg r;
        r.F = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts());
        r.site = CB;
        r.how = "makeNative";
        bool a = constOf(CB->getArgOperand(1), r.nframe);
        bool b = constOf(CB->getArgOperand(3), r.required);
        bool c = constOf(CB->getArgOperand(4), r.captured);
        r.known = a && b && c;
        res.push_back(r);
      } else if (n == "coraRegisterAPI" && CB->arg_size() == 5) {
        Reg r;
        r.F = dyn_cast<Function>(CB->getArgOperand(3)->stripPointerCasts());
        r.site = CB;
        r.how = "coraRegisterAPI";
        if (constOf(CB->getArgOperand(4), r.required)) {
          r.nframe = r.required + 1; // checked separately in coraRegisterAPI
          r.captured = 0;
          r.known = true;
        }
        res.push_back(r);
      }
    }
  }
  // struct registerEntry tables
  std::function<void(const Constant *)> walk = [&](const Constant *C) {
    if (auto *S = dyn_cast<ConstantStruct>(C)) {
      auto *T = S->getType();
      if (T->getNumElements() >= 3 && T->getElementType(2)->isIntegerTy(32))
        if (auto *F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts()))
          if (isStepType(F) || F->isDeclaration())
            if (auto *K = dyn_cast<ConstantInt>(S->getOperand(2))) {
              Reg r;
              r.F = F;
              r.required = K->getSExtValue();
              r.nframe = r.required + 1;
              r.captured = 0;
              r.known = true;
              r.how = "registerEntry table";
              res.push_back(r);
              return;
            }
    }
    for (auto &O : C->operands())
      if (auto *K = dyn_cast<Constant>(O.get()); K && !isa<GlobalValue>(K))
        walk(K);
  };
  for (auto &G : M.globals())
    if (G.hasInitializer())
      walk(G.getInitializer());
  return res;
}

namespace {
typedef std::set<int64_t> Slots;

struct Frames {
  Module &M;
  const DataLayout &DL;
  std::map<const Function *, std::set<int64_t>> labels;
  // (function, label) -> initialised slots on entry (optimistic: absent = all)
  std::map<std::pair<const Function *, int64_t>, Slots> init;
  std::map<std::pair<const Function *, int64_t>, bool> have;
  std::map<const Function *, int64_t> maxNframe, minNframe, minCaptured, minRequired;
  bool changed = false;
  Frames(Module &M) : M(M), DL(M.getDataLayout()) {}

  void meet(const Function *F, int64_t label, const Slots &s) {
    auto k = std::make_pair(F, label);
    if (!have[k]) {
      have[k] = true;
      init[k] = s;
      changed = true;
      return;
    }
    Slots r;
    for (auto x : init[k])
      if (s.count(x))
        r.insert(x);
    if (r != init[k]) {
      init[k] = r;
      changed = true;
    }
  }
  // constant slot of a pointer based on R
  bool slotOf(const Value *P, const Function &F, int64_t &slot) {
    int64_t off;
    const Value *B = baseOf(P, off, DL);
    if (B != F.getArg(2))
      return false;
    if (off % 8)
      return false;
    slot = off / 8;
    return true;
  }
  // control passes to step G directly: it runs on the frame allocated last in
  // F, or on F's own when there is none
  void direct(const Function &F, const StoreInst &S, const Function &G, int64_t lab,
              const Slots &own) {
    DominatorTree DT(const_cast<Function &>(F));
    const CallBase *last = nullptr;
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        std::string n = calleeName(CB);
        if ((n == "stackAlloc" || n == "stackAllocSlowPath") && DT.dominates(CB, &S))
          if (!last || DT.dominates(last, CB))
            last = CB;
      }
    if (!last) {
      meet(&G, lab, own);
      inherits[&G].insert(&F);
      return;
    }
    Slots s;
    int64_t n = -1;
    if (auto *C = dyn_cast<ConstantInt>(last->getArgOperand(1)))
      n = C->getSExtValue();
    for (auto &I : instructions(F))
      if (auto *T = dyn_cast<StoreInst>(&I); T && DT.dominates(T, &S)) {
        int64_t off;
        if (baseOf(T->getPointerOperand(), off, DL) == last && off % 8 == 0)
          s.insert(off / 8);
      }
    meet(&G, lab, s);
    auto it = minNframe.find(&G);
    if (n >= 0 && (it == minNframe.end() || it->second > n))
      minNframe[&G] = n;
  }
  std::map<const Function *, std::set<const Function *>> inherits;
  // slots of the smallest frame F can run on, -1 when unknown
  int64_t frameOf(const Function *F, int depth = 0) {
    if (fname(F) == "entry")
      return 3; // the frame of load-so
    auto it = minNframe.find(F);
    int64_t n = it == minNframe.end() ? -1 : it->second;
    if (depth < 4)
      for (auto *G : inherits[F]) {
        int64_t m = frameOf(G, depth + 1);
        if (m >= 0 && (n < 0 || m < n))
          n = m;
      }
    return n;
  }

  // one entry label of one step
  void flow(const Function &F, int64_t label, bool report) {
    std::map<const BasicBlock *, Slots> in;
    std::map<const BasicBlock *, bool> seen;
    auto k = std::make_pair(&F, label);
    if (!have[k])
      return; // never installed
    in[&F.getEntryBlock()] = init[k];
    seen[&F.getEntryBlock()] = true;
    std::vector<const BasicBlock *> work{&F.getEntryBlock()};
    std::string n = fname(&F);
    auto run = [&](const BasicBlock *B, Slots s, bool rep) {
      for (auto &I : *B) {
        int64_t k;
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          if (slotOf(L->getPointerOperand(), F, k)) {
            if (rep) {
              R.count("frame reads");
              if (!s.count(k))
                R.viol("V02", n + ": reads slot " + std::to_string(k) + " which has no value",
                       loc(&I),
                       "entered with label " + std::to_string(label) +
                           ", the slot is neither an argument nor written before");
            }
          }
        } else if (auto *S = dyn_cast<StoreInst>(&I)) {
          if (slotOf(S->getPointerOperand(), F, k)) {
            s.insert(k);
            if (rep)
              R.count("frame writes");
          }
          // a saved continuation: { fn, label, bp, sp } written to memory
          if (auto *G = dyn_cast<Function>(S->getValueOperand()->stripPointerCasts()))
            if (isStepType(G)) {
              int64_t off, o2;
              const Value *B0 = baseOf(S->getPointerOperand(), off, DL);
              const Value *bp = nullptr;
              int64_t lab = -1;
              for (auto &J : *B)
                if (auto *T = dyn_cast<StoreInst>(&J))
                  if (baseOf(T->getPointerOperand(), o2, DL) == B0) {
                    if (o2 == off + 8)
                      if (auto *C = dyn_cast<ConstantInt>(T->getValueOperand()))
                        lab = C->getSExtValue();
                    if (o2 == off + 16)
                      bp = T->getValueOperand()->stripPointerCasts();
                  }
              if (bp && lab >= 0)
                meet(G, lab, bp == F.getArg(2) ? s : Slots());
              else if (!bp && lab >= 0 && pointsTo(B0, "Cora"))
                direct(F, *S, *G, lab, s);
            }
        }
      }
      return s;
    };
    while (!work.empty()) {
      const BasicBlock *B = work.back();
      work.pop_back();
      Slots s = run(B, in[B], false);
      auto go = [&](const BasicBlock *T) {
        if (!seen[T]) {
          seen[T] = true;
          in[T] = s;
          work.push_back(T);
          return;
        }
        Slots r;
        for (auto x : in[T])
          if (s.count(x))
            r.insert(x);
        if (r != in[T]) {
          in[T] = r;
          work.push_back(T);
        }
      };
      auto *T = B->getTerminator();
      if (auto *SW = dyn_cast<SwitchInst>(T); SW && SW->getCondition() == F.getArg(1)) {
        auto *C = ConstantInt::get(Type::getInt32Ty(M.getContext()), label);
        go(SW->findCaseValue(C)->getCaseSuccessor());
        continue;
      }
      if (auto *BI = dyn_cast<BranchInst>(T); BI && BI->isConditional())
        if (auto *C = dyn_cast<ICmpInst>(BI->getCondition());
            C && C->getOperand(0) == F.getArg(1) && C->isEquality())
          if (auto *K = dyn_cast<ConstantInt>(C->getOperand(1))) {
            bool eq = (K->getSExtValue() == label) == (C->getPredicate() == CmpInst::ICMP_EQ);
            go(BI->getSuccessor(eq ? 0 : 1));
            continue;
          }
      for (auto *S : successors(B))
        go(S);
    }
    if (report)
      for (auto &p : in)
        run(p.first, p.second, true);
  }
};
} // namespace

RULE(V02) {
  forEachGroup(in, [&](Module &M, const std::string &g) {
    NormOpts O;
    O.keep = frameKeep();
    O.jumpThreading = false;
    normalise(M, O);
    Frames A(M);
    auto regs = registrations(M);
    A.labels = installedLabels(M);
    const StructInfo *nat = structByName(M, "scmNative");
    if (!nat || !nat->get("data") || !nat->get("nframe") || !nat->get("required") ||
        !nat->get("captured")) {
      R.breakage("struct scmNative not found");
      return;
    }
    uint64_t dataOff = nat->get("data")->off;
    uint64_t nfOff = nat->get("nframe")->off, rqOff = nat->get("required")->off;
    std::map<const Function *, bool> nfKnown;
    for (auto &r : regs) {
      bool mine = r.site ? own(r.site->getFunction()) : (r.F && own(r.F));
      if (r.F) {
        if (r.nframe >= 0) {
          auto &m = A.minNframe[r.F];
          m = A.minNframe.count(r.F) && m ? std::min(m, r.nframe) : r.nframe;
        }
        if (r.captured >= 0) {
          auto it = A.minCaptured.find(r.F);
          A.minCaptured[r.F] = it == A.minCaptured.end() ? r.captured : std::min(it->second, r.captured);
        }
        Slots s;
        if (r.required >= 0)
          for (int64_t i = 0; i <= r.required; i++)
            s.insert(i);
        else {
          // as many arguments as the registration says, unknown here
          s.insert(0);
        }
        A.meet(r.F, 0, s);
      }
      if (!mine)
        continue;
      R.count("registrations");
      std::string who = r.F ? fname(r.F) : "?";
      if (!r.site)
        continue;
      auto *CB = cast<CallBase>(r.site);
      if (r.how != "makeNative")
        continue;
      // room for the function itself and every argument
      ExprCtx E;
      E.pureLoads = true;
      Lin nf = E.lin(CB->getArgOperand(1)), rq = E.lin(CB->getArgOperand(3));
      Lin d = rq - nf;
      d.c += 1; // must be <= 0
      // natives that exist already satisfy the invariant: drop matching pairs
      for (auto it = d.t.begin(); it != d.t.end();) {
        bool dropped = false;
        if (it->second == -1 && it->first.rfind("ld[", 0) == 0) {
          for (auto jt = d.t.begin(); jt != d.t.end(); ++jt) {
            if (jt->second != 1 || jt->first.rfind("ld[", 0) != 0)
              continue;
            auto *LN = cast<LoadInst>(E.atoms[it->first]);
            auto *LR = cast<LoadInst>(E.atoms[jt->first]);
            Lin diff = E.lin(LN->getPointerOperand()) - E.lin(LR->getPointerOperand());
            if (diff.isConst() && diff.c == (int64_t)nfOff - (int64_t)rqOff) {
              auto k1 = it->first, k2 = jt->first;
              d.t.erase(k1);
              d.t.erase(k2);
              d.c -= 1;
              dropped = true;
              break;
            }
          }
        }
        if (dropped)
          it = d.t.begin();
        else
          ++it;
      }
      Facts fs;
      DominatorTree DT(*const_cast<Function *>(CB->getFunction()));
      fs = dominatingFacts(const_cast<BasicBlock *>(CB->getParent()), DT, E);
      if (!fs.prove(d))
        R.viol("V02", who + ": frame has no room for its arguments", loc(CB),
               "registered with a frame of " + nf.str() + " for " + rq.str() + " arguments");
      // captured values are all supplied, as values
      if (r.captured >= 0) {
        R.count("captured lists");
        int64_t given = (int64_t)CB->arg_size() - 5;
        if (given != r.captured)
          R.viol("V02", who + ": captured count differs from the values supplied", loc(CB),
                 std::to_string(r.captured) + " announced, " + std::to_string(given) + " given");
        for (unsigned i = 5; i < CB->arg_size(); i++)
          if (!CB->getArgOperand(i)->getType()->isIntegerTy(64))
            R.viol("V02", who + ": captured value is not a value", loc(CB),
                   "argument " + std::to_string(i - 4));
      }
    }
    for (auto *F : steps(M))
      if (fname(F) == "entry")
        A.meet(F, 0, Slots{0, 1, 2}); // called on the frame of load-so
    // fixpoint over continuations
    for (int round = 0; round < 50; round++) {
      A.changed = false;
      for (auto *F : steps(M))
        for (auto l : A.labels[F])
          A.flow(*F, l, false);
      if (!A.changed)
        break;
    }
    for (auto *F : steps(M)) {
      R.count("steps");
      for (auto l : A.labels[F])
        A.flow(*F, l, true);
      // bounds
      int64_t nframe = A.frameOf(F);
      if (nframe >= 0)
        R.count("steps with a known frame");
      ExprCtx E;
      E.pureLoads = true;
      E.setName(F->getArg(2), "R");
      std::string cloData = Lin().str();
      for (auto &I : instructions(*F)) {
        const Value *P = nullptr;
        if (auto *L = dyn_cast<LoadInst>(&I))
          P = L->getPointerOperand();
        else if (auto *S = dyn_cast<StoreInst>(&I))
          P = S->getPointerOperand();
        if (!P)
          continue;
        int64_t k;
        if (A.slotOf(P, *F, k) && (k < 0 || (nframe >= 0 && k >= nframe)))
          R.viol("V02", fname(F) + ": slot " + std::to_string(k) + " lies outside its frame",
                 loc(&I), "the frame is registered with " + std::to_string(nframe) + " slots");
        // captured values: ptr(R[0]) + data + 8 i
        Lin a = E.lin(P);
        if (a.t.size() == 1 && a.t.begin()->second == 1 &&
            a.t.begin()->first == "ptr(ld[R])" && a.c >= (int64_t)dataOff) {
          int64_t idx = (a.c - (int64_t)dataOff) / 8;
          R.count("captured value accesses");
          auto it = A.minCaptured.find(F);
          if (it != A.minCaptured.end() && idx >= it->second)
            R.viol("V02", fname(F) + ": reads captured value " + std::to_string(idx), loc(&I),
                   "it is created with " + std::to_string(it->second) + " captured values");
        }
      }
    }
    // frames allocated by callers
    std::set<std::string> seenFn;
    for (auto &F : M) {
      if (F.isDeclaration() || !own(&F) || !isRoot(F))
        continue;
      std::vector<CallBase *> allocs;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          std::string n = calleeName(CB);
          if ((n == "stackAlloc" || n == "stackAllocSlowPath") && CB->arg_size() == 2 &&
              fname(&F) != "stackAlloc")
            allocs.push_back(CB);
        }
      if (allocs.empty())
        continue;
      Analyses An(F);
      ExprCtx E;
      E.pureLoads = true;
      int no = 0;
      for (auto *CB : allocs) {
        std::string nm = "frame" + std::to_string(no++);
        E.setName(CB, nm);
      }
      no = 0;
      for (auto *CB : allocs) {
        std::string nm = "frame" + std::to_string(no++);
        Lin n = E.lin(CB->getArgOperand(1));
        for (auto &I : instructions(F)) {
          Lin addr, len;
          const Instruction *at = &I;
          if (auto *S = dyn_cast<StoreInst>(&I)) {
            addr = E.lin(S->getPointerOperand());
            len.c = 8;
          } else if (auto *MI = dyn_cast<MemIntrinsic>(&I)) {
            addr = E.lin(MI->getDest());
            len = E.lin(MI->getLength());
          } else
            continue;
          if (!addr.t.count(nm) || addr.t[nm] != 1)
            continue;
          Lin self;
          self.t[nm] = 1;
          Facts fs = dominatingFacts(I.getParent(), An.DT, E);
          if (auto *L = An.LI.getLoopFor(I.getParent()); L && !(addr - self).isConst()) {
            auto S = loopSpace(L, E);
            Range r = S.ok ? addrRange(addr, S, len.c) : Range();
            if (!r.ok) {
              R.count("frame stores not decided");
              R.sample("frame stores not decided", loc(at));
              continue;
            }
            addr = r.lo;
            len = r.len;
            Facts pre = dominatingFacts(L->getHeader(), An.DT, E);
            for (auto &x : pre.le0)
              fs.add(x);
          }
          // end <= 8 n, start >= 0
          Lin off = addr - self;
          Lin goal = off + len - n * 8;
          // facts about natives: required + 1 <= nframe for any function object
          for (auto &t : n.t)
            if (auto *L = dyn_cast_or_null<LoadInst>(E.atoms[t.first])) {
              Lin pa = E.lin(L->getPointerOperand());
              pa.c += (int64_t)rqOff - (int64_t)nfOff;
              Lin rq;
              rq.t["ld[" + pa.str() + "]"] = 1;
              Lin self2;
              self2.t[t.first] = 1;
              Lin inv = rq - self2;
              inv.c += 1;
              Lin inv8 = inv * 8;
              fs.add(inv);
              fs.add(rq * -1); // no function takes a negative number of arguments
            }
          // facts are in slots, the goal is in bytes
          Facts f8 = fs;
          for (auto &x : fs.le0)
            f8.add(x * 8);
          R.count("frame stores by callers");
          Lin neg = off * -1;
          if (!f8.prove(goal, 4) || !f8.prove(neg, 3))
            R.viol("V02", fname(&F) + ": writes past the frame it allocated", loc(at),
                   "offset " + off.str() + " length " + len.str() + " in a frame of " +
                       n.str() + " slots");
        }
      }
    }
  });
  R.need("steps", 300);
  R.need("registrations", 250);
  R.need("frame reads", 500);
  R.need("captured value accesses", 50);
  R.need("steps with a known frame", 250);
  R.need("frame stores by callers", 10);
}
