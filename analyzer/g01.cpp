// G01: everything stored in a kept object is kept.
#include "marks.h"

std::string structOfAlloc(const Value *V) {
  // struct type through which a fresh object is accessed
  std::vector<const Value *> work{V};
  std::set<const Value *> seen;
  while (!work.empty()) {
    const Value *X = work.back();
    work.pop_back();
    if (!seen.insert(X).second)
      continue;
    for (auto *U : X->users()) {
      if (auto *G = dyn_cast<GetElementPtrInst>(U)) {
        if (G->getPointerOperand() == X)
          if (auto *ST = dyn_cast<StructType>(G->getSourceElementType()))
            if (ST->hasName() && ST->getNumElements() > 1) {
              StringRef n = ST->getName();
              if (n.starts_with("struct.scm") && !n.starts_with("struct.scmHead")) {
                n = n.drop_front(7);
                return n.take_until([](char c) { return c == '.'; }).str();
              }
            }
      } else if (isa<PHINode>(U) || isa<SelectInst>(U))
        work.push_back(U);
    }
  }
  return "";
}
namespace {
int64_t globalInitInt(Module &M, const char *) { (void)M; return 0; }
} // namespace

static void markers(Module &M) {
  FrameLayout FL = frameLayout(M);
  std::map<int64_t, std::set<Function *>> reg;
  std::map<int64_t, std::string> st;
  std::map<int64_t, const Instruction *> allocAt;
  for (auto &F : M)
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB)
        continue;
      std::string n = calleeName(CB);
      if (n == "gcRegistForType" && CB->arg_size() == 2) {
        auto *C = dyn_cast<ConstantInt>(CB->getArgOperand(0));
        auto *G = dyn_cast<Function>(CB->getArgOperand(1)->stripPointerCasts());
        if (C && G) {
          reg[C->getZExtValue()].insert(G);
          R.count("registered kinds");
        }
      } else if (n == "newObj" && CB->arg_size() == 3) {
        auto *C = dyn_cast<ConstantInt>(CB->getArgOperand(1));
        if (!C)
          continue;
        allocAt[C->getZExtValue()] = CB;
        std::string s = structOfAlloc(CB);
        if (!s.empty())
          st[C->getZExtValue()] = s;
      }
    }
  R.need("registered kinds", 4);
  std::map<std::string, std::string> countOf = {{"scmVector", "size"}, {"scmNative", "captured"}};
  for (auto &p : allocAt) {
    int64_t tp = p.first;
    std::string sn = st.count(tp) ? st[tp] : "kind " + std::to_string(tp);
    if (!reg.count(tp)) {
      R.viol("G01", sn + ": no marking function registered", loc(p.second),
             "objects of this kind are created but a collection never looks inside them");
      continue;
    }
    if (reg[tp].size() > 1) {
      R.viol("G01", sn + ": two marking functions", loc(p.second), "only the first registration takes effect");
      continue;
    }
    Function *F = *reg[tp].begin();
    const StructInfo *S = st.count(tp) ? structByName(M, st[tp]) : nullptr;
    if (!S || F->isDeclaration())
      continue;
    R.count("marking functions");
    Analyses A(*F);
    ExprCtx E;
    E.pureLoads = true;
    auto ms = markSites(*F, A, E, FL);
    std::vector<Region> need;
    Lin from;
    from.t["arg1"] = 1;
    auto at = [&](int64_t o) {
      Lin l = from;
      l.c += o;
      return l;
    };
    auto ld = [&](const Lin &l) {
      Lin r;
      r.t["ld[" + l.str() + "]"] = 1;
      return r;
    };
    for (auto &f : S->fields) {
      Region r;
      r.name = f.name;
      if (!f.isArray && isObjType(f.di)) {
        r.kind = MarkSite::Scalar;
        r.lo = at(f.off);
        r.len.c = 8;
        need.push_back(r);
      } else if (f.flexible) {
        auto *a = cast<DICompositeType>(stripQuals(f.di));
        r.lo = at(f.off);
        if (isObjType(a->getBaseType())) {
          r.kind = MarkSite::Span;
          auto it = countOf.find(S->name);
          const Field *c = it == countOf.end() ? nullptr : S->get(it->second);
          if (!c)
            continue;
          r.len = ld(at(c->off)) * 8;
          need.push_back(r);
        } else if (S->name == "scmContinuation" && FL.ok) {
          const Field *c = S->get("len");
          if (!c)
            continue;
          r.kind = MarkSite::Frames;
          r.name = "saved frames";
          r.len = ld(at(c->off)) * FL.size;
          need.push_back(r);
        }
      }
    }
    Lin ver = ld(at(5));
    if (const StructInfo *H = structByName(M, "scmHead"))
      if (auto *v = H->get("version"))
        ver = ld(at(v->off));
    for (auto &r : need) {
      R.count("stored slots");
      const Instruction *w;
      std::string why = covered(*F, A, E, ms, r, w);
      if (!why.empty())
        R.viol("G01", S->name + "." + r.name + " not marked", loc(w), fname(F) + ": " + why);
      else
        R.sample("stored slots", S->name + "." + r.name + " marked by " + fname(F));
    }
    for (auto &m : ms) {
      R.count("mark calls");
      if (!(m.ver == ver) && !need.empty())
        R.viol("G01", S->name + ": contents may expire before their holder", loc(m.CB),
               "the version handed to gcMark is " + m.ver.str() + ", not the holder's");
    }
  }
  R.need("stored slots", 6);
}

// ---- the marking machinery in gc.c
static void machinery(Module &M) {
  Function *F = nullptr;
  for (auto &f : M)
    if (fname(&f) == "gcMark" && !f.isDeclaration())
      F = &f;
  const StructInfo *GC = structByName(M, "GC"), *H = structByName(M, "scmHead");
  if (!F || !GC || !H || !GC->get("version") || !H->get("version")) {
    R.breakage("gcMark or its data not found");
    return;
  }
  const DataLayout &DL = M.getDataLayout();
  int64_t gv = GC->get("version")->off, hv = H->get("version")->off;
  // all arenas are searched
  for (auto &f : GC->fields) {
    const StructInfo *T = structOf(pointee(f.di));
    if (!T || T->name != "heapArena")
      continue;
    bool seen = false;
    for (auto &I : instructions(*F))
      if (auto *L = dyn_cast<LoadInst>(&I)) {
        int64_t o;
        if (baseOf(L->getPointerOperand(), o, DL) == F->getArg(0) && o == (int64_t)f.off)
          seen = true;
      }
    R.count("arena lists");
    if (!seen)
      R.viol("G01", "gcMark: arena list " + f.name + " not searched", loc(&F->getEntryBlock().front()),
             "objects allocated there are taken for foreign pointers and never marked");
  }
  // version words of the object
  auto isObjVersion = [&](const Value *P) {
    int64_t o;
    const Value *B = baseOf(P, o, DL);
    return o == hv && B != F->getArg(0);
  };
  auto isEnq = [&](const Instruction *I) {
    auto *S = dyn_cast<StoreInst>(I);
    if (!S || !S->getValueOperand()->getType()->isPointerTy())
      return false;
    int64_t o;
    // a store of the object somewhere that is not the collector's own struct
    return baseOf(S->getPointerOperand(), o, DL) != F->getArg(0) &&
           isa<Instruction>(S->getValueOperand()) && [&] {
             for (auto *U : S->getValueOperand()->users())
               if (auto *G = dyn_cast<GetElementPtrInst>(U))
                 if (auto *ST = dyn_cast<StructType>(G->getSourceElementType()))
                   if (ST->hasName() && ST->getName().contains("scmHead"))
                     return true;
             return false;
           }();
  };
  long enq = 0, vst = 0;
  for (auto &I : instructions(*F)) {
    enq += isEnq(&I);
    if (auto *S = dyn_cast<StoreInst>(&I))
      vst += isObjVersion(S->getPointerOperand()) && S->getValueOperand()->getType()->isIntegerTy(8);
  }
  R.count("enqueue sites", enq);
  R.count("version stores", vst);
  if (!vst) {
    R.breakage("gcMark stores no version");
    return;
  }
  auto verStore = [&](const Instruction *I) {
    auto *S = dyn_cast<StoreInst>(I);
    return S && S->getValueOperand()->getType()->isIntegerTy(8) && isObjVersion(S->getPointerOperand());
  };
  bool afterStore = false;
  auto assume = [&](int ver, int minv, int gcv) {
    return [=](const Value *V, KnownBits &K) {
      auto set = [&](uint64_t x) {
        K = KnownBits::makeConstant(APInt(K.getBitWidth(), x));
        return true;
      };
      if (V == F->getArg(2) && minv >= 0)
        return set(minv);
      if (auto *L = dyn_cast<LoadInst>(V)) {
        int64_t o;
        if (L->getType()->isIntegerTy(8) && isObjVersion(L->getPointerOperand()) && ver >= 0) {
          // only what is read before the object's version is replaced
          return set(ver);
        }
        if (gcv >= 0 && L->getType()->isIntegerTy(64) &&
            baseOf(L->getPointerOperand(), o, DL) == F->getArg(0) && o == gv)
          return set(gcv);
      }
      return false;
    };
  };
  (void)afterStore;
  const Instruction *entry = &F->getEntryBlock().front();
  // paths on which the pointer is an object: start at the first read of its version
  std::vector<const Instruction *> starts;
  for (auto &I : instructions(*F))
    if (auto *L = dyn_cast<LoadInst>(&I))
      if (L->getType()->isIntegerTy(8) && isObjVersion(L->getPointerOperand()))
        starts.push_back(&I);
  const Instruction *gate = nullptr; // the read testing for gray
  {
    // the checked object: first block after the registry assertion; take the
    // version load that dominates every version store
    DominatorTree DT(*F);
    for (auto *s : starts) {
      bool all = true;
      for (auto &I : instructions(*F))
        if (verStore(&I) && !DT.dominates(s, &I))
          all = false;
      if (all && (!gate || DT.dominates(gate, s)))
        gate = s;
    }
  }
  if (!gate) {
    R.breakage("gcMark: no version test found");
    return;
  }
  (void)entry;
  // 1. an object not yet visited in this collection gets a new version and is queued
  for (int v : {2, 8, 24, 62}) {
    R.count("marking obligations");
    PathQuery Q;
    Q.lookup = assume(v, 0, v);
    Q.stop = isEnq;
    if (auto *w = findPath(gate, true, Q))
      R.viol("G01", "gcMark: an unvisited object is not queued", loc(w),
             "a path with object version equal to the collector's (" + std::to_string(v) +
                 ") returns without putting the object on the queue");
    Q = PathQuery();
    Q.lookup = assume(v, 0, v);
    Q.stop = verStore;
    if (auto *w = findPath(gate, true, Q))
      R.viol("G01", "gcMark: an unvisited object keeps its version", loc(w), "the object would be freed");
  }
  // 2. an object that would expire before its holder gets the holder's version
  struct { int v, m, g; } up[] = {{2, 5, 2}, {3, 5, 2}, {3, 9, 2}, {8, 25, 8}, {9, 25, 8}, {61, 1, 60}};
  for (auto &c : up) {
    R.count("marking obligations");
    PathQuery Q;
    Q.lookup = assume(c.v, c.m, c.g);
    auto minStore = [&](const Instruction *I) {
      if (!verStore(I))
        return false;
      ExprCtx E;
      E.pureLoads = true;
      Lin a = E.lin(cast<StoreInst>(I)->getValueOperand()), m;
      m.t["arg2"] = 1;
      // the plain parameter or something computed from it
      return a == m || E.key(cast<StoreInst>(I)->getValueOperand()).find("arg2") != std::string::npos;
    };
    Q.stop = minStore;
    // unvisited objects first get their own version, which may already be
    // late enough; only gray ones are decided by the old value alone
    if ((c.v & 1) == 0)
      continue;
    if (auto *w = findPath(gate, true, Q))
      R.viol("G01", "gcMark: contents expire before their holder", loc(w),
             "a queued object (version " + std::to_string(c.v) + ") referenced by a holder of version " +
                 std::to_string(c.m) + " is not extended");
  }
  // a queued object never gets an earlier version
  struct { int v, m, g; } dn[] = {{5, 3, 2}, {25, 9, 8}, {1, 61, 60}};
  for (auto &c : dn) {
    R.count("marking obligations");
    PathQuery Q;
    Q.lookup = assume(c.v, c.m, c.g);
    Q.bad = verStore;
    Q.atReturn = false;
    if (auto *w = findPath(gate, true, Q))
      R.viol("G01", "gcMark: a later version is lowered", loc(w),
             "a queued object of version " + std::to_string(c.v) + " is set back to its holder's " +
                 std::to_string(c.m));
  }
  // 3. a visited, unqueued object whose version changes is queued again
  for (auto &I : instructions(*F))
    if (verStore(&I)) {
      R.count("marking obligations");
      // bit 0 of the version read before is 0: not gray
      PathQuery Q;
      Q.lookup = [&](const Value *V, KnownBits &K) {
        auto *L = dyn_cast<LoadInst>(V);
        if (L && V == gate) {
          K = KnownBits(8);
          K.Zero.setBit(0);
          return true;
        }
        return false;
      };
      // reachable with this assumption?
      PathQuery P = Q;
      P.bad = [&](const Instruction *J) { return J == &I; };
      P.atReturn = false;
      if (!findPath(gate, true, P))
        continue;
      Q.stop = isEnq;
      // flags set on the way decide: the path starts where the old version is
      // read and counts from this store on
      Q.branches = true;
      Q.after = [&](const Instruction *J) { return J == &I; };
      if (auto *w = findPath(gate, true, Q))
        R.viol("G01", "gcMark: a re-versioned object is not queued", loc(w),
               "its contents would not follow the new version");
    }
}

// the queue is drained through the marking functions
static void drain(Module &M) {
  // a function that calls a marker from the registry
  for (auto &F : M) {
    if (F.isDeclaration() || !isRoot(F))
      continue;
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB || CB->getCalledFunction() || CB->arg_size() != 2)
        continue;
      auto *L = dyn_cast<LoadInst>(CB->getCalledOperand());
      if (!L)
        continue;
      int64_t o;
      const Value *P = L->getPointerOperand()->stripPointerCasts();
      if (auto *G = dyn_cast<GEPOperator>(P))
        P = G->getPointerOperand();
      (void)o;
      auto *GV = dyn_cast<GlobalVariable>(P);
      if (!GV || !GV->getValueType()->isArrayTy())
        continue;
      R.count("drain sites");
      // the object comes from the queue: every load it may be
      const Value *obj = CB->getArgOperand(1);
      std::vector<const Value *> work{obj};
      std::set<const Value *> seen;
      std::vector<const Instruction *> pops;
      while (!work.empty()) {
        auto *V = work.back();
        work.pop_back();
        if (!seen.insert(V).second)
          continue;
        if (auto *PN = dyn_cast<PHINode>(V)) {
          for (auto &u : PN->incoming_values())
            work.push_back(u.get());
        } else if (auto *LL = dyn_cast<LoadInst>(V))
          pops.push_back(LL);
      }
      for (auto *pop : pops) {
        R.count("queue pops");
        PathQuery Q;
        Q.stop = [&](const Instruction *J) { return J == CB; };
        Q.bad = [&](const Instruction *J) { return J == pop; };
        bool first = true;
        Q.bad = [&, first](const Instruction *J) mutable { return J == pop; };
        Q.lookup = [&](const Value *V, KnownBits &K) {
          // the object and its marker are not null
          if (auto *C = dyn_cast<ICmpInst>(V); C && C->isEquality() && isa<ConstantPointerNull>(C->getOperand(1)) &&
              (C->getOperand(0) == obj || C->getOperand(0) == L || C->getOperand(0) == pop)) {
            K = KnownBits::makeConstant(APInt(1, C->getPredicate() == CmpInst::ICMP_NE));
            return true;
          }
          return false;
        };
        if (auto *w = findPath(pop, false, Q))
          R.viol("G01", "an object taken off the queue is not scanned", loc(w),
                 "a path takes an object off the queue at " + loc(pop) + " and continues without calling its marking function");
        // after scanning, its version is made final
        PathQuery Z;
        Z.stop = [&](const Instruction *J) {
          auto *S = dyn_cast<StoreInst>(J);
          int64_t off;
          return S && S->getValueOperand()->getType()->isIntegerTy(8) &&
                 baseOf(S->getPointerOperand(), off, M.getDataLayout()) == obj;
        };
        Z.bad = [&](const Instruction *J) { return J == pop; };
        if (auto *w = findPath(CB, false, Z))
          R.viol("G01", "a scanned object stays marked as queued", loc(w), "its version is not completed after scanning");
      }
    }
  }
  R.need("drain sites", 1);
  R.need("queue pops", 1);
}

RULE(G01) {
  {
    auto M = loadGroup(in.core, {});
    NormOpts O;
    O.keep = {"gcMark", "newObj", "gcRegistForType", "gcAlloc"};
    normalise(*M, O);
    markers(*M);
  }
  {
    auto M = loadGroup(in.core, {});
    NormOpts O;
    O.keep = {"gcRun", "gcAlloc", "newObj"};
    O.gvn = false; // keep the reads of versions apart
    normalise(*M, O);
    machinery(*M);
    drain(*M);
  }
}
