// G03: assignments go through the write barriers and the barriers do their job.
#include "marks.h"

namespace {
const uint64_t OBJM = 0x7FF8000000000000ull;
// struct scm* type through which an address is computed; base and offset
struct HeapAddr {
  bool ok = false;
  const Value *base = nullptr;
  std::string st;
  int64_t off = 0;
  bool dynamic = false; // run-time index into the flexible part
};
std::string gepStruct(const GEPOperator *G) {
  auto *ST = dyn_cast<StructType>(G->getSourceElementType());
  if (!ST || !ST->hasName())
    return "";
  StringRef n = ST->getName();
  if (!n.starts_with("struct.scm") || n.starts_with("struct.scmHead"))
    return "";
  return n.drop_front(7).take_until([](char c) { return c == '.'; }).str();
}
HeapAddr heapAddr(const Value *P, const DataLayout &DL) {
  HeapAddr h;
  int64_t off = 0;
  while (true) {
    P = P->stripPointerCasts();
    auto *G = dyn_cast<GEPOperator>(P);
    if (!G)
      break;
    APInt o(64, 0);
    std::string s = gepStruct(G);
    MapVector<Value *, APInt> vo;
    if (!G->collectOffset(DL, 64, vo, o))
      return h;
    if (!vo.empty())
      h.dynamic = true;
    off += o.getSExtValue();
    if (!s.empty())
      h.st = s;
    P = G->getPointerOperand();
  }
  h.base = P;
  h.off = off;
  h.ok = !h.st.empty();
  return h;
}
bool fresh(const Value *V, std::set<const Value *> &seen) {
  if (!seen.insert(V).second)
    return true;
  V = V->stripPointerCasts();
  if (auto *CB = dyn_cast<CallBase>(V)) {
    std::string n = calleeName(CB);
    return n == "newObj" || n == "gcAlloc" || n == "makeVector" || n == "makeNative" || n == "makeCons" ||
           n == "makeBytes";
  }
  if (auto *P = dyn_cast<PHINode>(V)) {
    for (auto &u : P->incoming_values())
      if (!fresh(u.get(), seen))
        return false;
    return true;
  }
  if (auto *O = dyn_cast<Operator>(V))
    switch (O->getOpcode()) {
    case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::And: case Instruction::Or:
    case Instruction::BitCast:
      return fresh(O->getOperand(0), seen);
    }
  return false;
}
bool objField(Module &M, const HeapAddr &h) {
  const StructInfo *S = structByName(M, h.st);
  if (!S)
    return false;
  for (auto &f : S->fields) {
    if (!f.isArray && isObjType(f.di) && (int64_t)f.off == h.off && !h.dynamic)
      return true;
    if (f.flexible && h.off >= (int64_t)f.off) {
      auto *a = cast<DICompositeType>(stripQuals(f.di));
      return isObjType(a->getBaseType());
    }
  }
  return false;
}
} // namespace

static void sites(Module &M, const std::string &group) {
  const DataLayout &DL = M.getDataLayout();
  const StructInfo *C = structByName(M, "Cora");
  int64_t gl = -1;
  if (C && C->get("globals"))
    gl = C->get("globals")->off;
  const StructInfo *HX = structByName(M, "scmHeadEx_t");
  for (auto &F : M) {
    if (F.isDeclaration() || !own(&F) || !isRoot(F))
      continue;
    std::string fn = fname(&F);
    if (fn == "writeBarrierForIncremental" || fn == "writeBarrierForGeneration")
      continue;
    ExprCtx E;
    E.pureLoads = true;
    auto genCall = [&](const Instruction *I, const Lin &base, const Lin &val) {
      auto *CB = dyn_cast<CallBase>(I);
      return CB && calleeName(CB) == "writeBarrierForGeneration" && E.lin(CB->getArgOperand(1)) == base &&
             E.lin(CB->getArgOperand(2)) == val;
    };
    // globals vector data: load of co+globals
    auto globalSlot = [&](const Value *P, bool &isAppend) {
      isAppend = false;
      const Value *B = P->stripPointerCasts();
      while (auto *G = dyn_cast<GEPOperator>(B))
        B = G->getPointerOperand()->stripPointerCasts();
      auto *L = dyn_cast<LoadInst>(B);
      if (!L || gl < 0)
        return false;
      int64_t o;
      const Value *X = baseOf(L->getPointerOperand(), o, DL);
      if (o != gl || !pointsTo(X, "Cora"))
        return false;
      Lin a = E.lin(P) - E.lin(B), len;
      Lin xa = E.lin(X);
      xa.c += gl + 8;
      len.t["ld[" + xa.str() + "]"] = 8;
      isAppend = a == len;
      return true;
    };
    auto needGen = [&](const Instruction *I, const HeapAddr &h, const Value *val, const std::string &what) {
      const StructInfo *S = structByName(M, h.st);
      if (!S || S->fields.empty())
        return;
      R.count("generational obligations");
      Lin base = E.lin(h.base), v = E.lin(val);
      if (isa<Constant>(val))
        return;
      // holders without a remembered-set header cannot be assigned at all
      if (!structOf(S->fields[0].di) || structOf(S->fields[0].di)->name != (HX ? HX->name : "")) {
        R.viol("G03", fn + ": assignment into " + h.st, loc(I), "objects of this kind cannot be remembered");
        return;
      }
      DominatorTree DT(F);
      for (auto &J : instructions(F))
        if (genCall(&J, base, v) && DT.dominates(&J, I))
          return;
      PathQuery Q;
      Q.stop = [&](const Instruction *J) { return genCall(J, base, v); };
      if (auto *w = findPath(I, false, Q))
        R.viol("G03", fn + ": " + what + " without the generational barrier", loc(I),
               "a path to " + loc(w) + " never tells the collector that this holder received this value");
    };
    for (auto &I : instructions(F)) {
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        if (!S->getValueOperand()->getType()->isIntegerTy(64))
          continue;
        bool app;
        if (globalSlot(S->getPointerOperand(), app)) {
          R.count("global slot stores");
          if (!app)
            R.viol("G03", fn + ": global assigned without the deletion barrier", loc(&I),
                   "the overwritten value may be lost by the collection in progress");
          continue;
        }
        HeapAddr h = heapAddr(S->getPointerOperand(), DL);
        if (!h.ok || !objField(M, h))
          continue;
        std::set<const Value *> seen;
        if (fresh(h.base, seen)) {
          R.count("initialising stores");
          continue;
        }
        R.count("slot stores");
        // appending: the slot was not in use
        bool app2 = false;
        if (h.st == "scmVector") {
          const StructInfo *V = structByName(M, h.st);
          Lin idx = E.lin(S->getPointerOperand()) - E.lin(h.base);
          idx.c -= V->get("data")->off;
          Lin a = E.lin(h.base);
          a.c += V->get("size")->off;
          Lin n;
          n.t["ld[" + a.str() + "]"] = 8;
          app2 = idx == n;
        }
        if (!app2) {
          R.viol("G03", fn + ": " + h.st + " assigned without the deletion barrier", loc(&I),
                 "the overwritten value may be lost by the collection in progress");
        }
        needGen(&I, h, S->getValueOperand(), h.st + " assigned");
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (calleeName(CB) != "writeBarrierForIncremental")
          continue;
        R.count("barrier stores");
        bool app;
        const Value *slot = CB->getArgOperand(1);
        if (isa<AllocaInst>(slot->stripPointerCasts()) || globalSlot(slot, app))
          continue;
        HeapAddr h = heapAddr(slot, DL);
        if (!h.ok)
          continue;
        needGen(CB, h, CB->getArgOperand(2), h.st + " assigned");
        R.sample("barrier stores", fn + " assigns " + h.st);
      } else if (auto *MI = dyn_cast<MemTransferInst>(&I)) {
        HeapAddr h = heapAddr(MI->getDest(), DL);
        if (!h.ok || !objField(M, h))
          continue;
        std::set<const Value *> seen;
        if (fresh(h.base, seen)) {
          R.count("initialising stores");
          continue;
        }
        R.viol("G03", fn + ": " + h.st + " overwritten by a block copy", loc(&I), "no barrier sees the values");
      }
    }
  }
}

static void barriers(Module &M) {
  const DataLayout &DL = M.getDataLayout();
  Function *FI = nullptr, *FG = nullptr, *FR = nullptr;
  for (auto &F : M) {
    if (F.isDeclaration())
      continue;
    if (fname(&F) == "writeBarrierForIncremental") FI = &F;
    if (fname(&F) == "writeBarrierForGeneration") FG = &F;
    if (fname(&F) == "gcMarkRoot") FR = &F;
  }
  const StructInfo *G = structByName(M, "GC"), *H = structByName(M, "scmHeadEx_t");
  bool ok;
  int64_t inc = enumValue(M, "gcStateIncremental", ok);
  if (!FI || !FG || !FR || !G || !H || !ok || !G->get("state") || !G->get("rset") || !H->get("rset") ||
      !H->get("inRSet")) {
    R.breakage("barrier functions or their data not found");
    return;
  }
  int64_t st = G->get("state")->off, grs = G->get("rset")->off, gver = G->get("version")->off;
  int64_t hv = H->get("version")->off, hr = H->get("rset")->off, hin = H->get("inRSet")->off, ht = H->get("type")->off;
  auto loadOf = [&](const Value *V, const Value *base, int64_t off) {
    auto *L = dyn_cast<LoadInst>(V);
    int64_t o;
    return L && baseOf(L->getPointerOperand(), o, DL) == base && o == off;
  };
  auto markOf = [&](const Instruction *I, std::function<bool(const Value *)> isVal) {
    auto *CB = dyn_cast<CallBase>(I);
    return CB && calleeName(CB) == "gcMark" && isVal(CB->getArgOperand(1));
  };
  // deletion barrier
  {
    Value *slot = FI->getArg(1), *val = FI->getArg(2), *gc = FI->getArg(0);
    const Instruction *entry = &FI->getEntryBlock().front();
    auto isStore = [&](const Instruction *I) {
      auto *S = dyn_cast<StoreInst>(I);
      return S && S->getPointerOperand() == slot;
    };
    PathQuery Q;
    R.count("barrier obligations");
    Q.stop = [&](const Instruction *I) {
      return isStore(I) && cast<StoreInst>(I)->getValueOperand() == val;
    };
    if (auto *w = findPath(entry, true, Q))
      R.viol("G03", "deletion barrier: the value is not stored", loc(w), "");
    for (int tag = 4; tag < 8; tag++) {
      R.count("barrier obligations");
      PathQuery P;
      P.lookup = [&](const Value *V, KnownBits &K) {
        if (loadOf(V, gc, st)) {
          K = KnownBits::makeConstant(APInt(K.getBitWidth(), inc));
          return true;
        }
        if (auto *L = dyn_cast<LoadInst>(V); L && L->getPointerOperand() == slot) {
          K = KnownBits(64);
          K.One |= APInt(64, OBJM | (uint64_t)tag << 48);
          K.Zero |= APInt(64, 0x8000000000000000ull | (uint64_t)(7 ^ tag) << 48);
          return true;
        }
        return false;
      };
      P.stop = [&](const Instruction *I) {
        return markOf(I, [&](const Value *V) {
          auto *L = dyn_cast<LoadInst>(V);
          if (!L || L->getPointerOperand() != slot)
            return false;
          // read before the store
          DominatorTree DT(*FI);
          for (auto &J : instructions(*FI))
            if (isStore(&J) && DT.dominates(&J, L))
              return false;
          return true;
        });
      };
      if (auto *w = findPath(entry, true, P))
        R.viol("G03", "deletion barrier: the overwritten value is not kept", loc(w),
               "during incremental marking a path overwrites the slot without marking what it held");
    }
  }
  // generational barrier
  {
    Value *v = FG->getArg(1), *val = FG->getArg(2), *gc = FG->getArg(0);
    const Instruction *entry = &FG->getEntryBlock().front();
    struct { int v, h; } ages[] = {{8, 2}, {2, 60}, {26, 2}, {24, 8}};
    for (int state = 0; state < 4; state++)
      for (int tag = 4; tag < 8; tag++)
        for (auto &a : ages)
          for (int in = 0; in < 2; in++) {
            R.count("barrier obligations");
            auto look = [&](const Value *V, KnownBits &K) {
              auto set = [&](uint64_t x) {
                K = KnownBits::makeConstant(APInt(K.getBitWidth(), x));
                return true;
              };
              if (V == val) {
                K = KnownBits(64);
                K.One |= APInt(64, OBJM | (uint64_t)tag << 48);
                K.Zero |= APInt(64, 0x8000000000000000ull | (uint64_t)(7 ^ tag) << 48);
                return true;
              }
              if (loadOf(V, gc, st))
                return set(state);
              if (loadOf(V, v, hv))
                return set(a.v);
              if (loadOf(V, v, hin))
                return set(in);
              auto *L = dyn_cast<LoadInst>(V);
              int64_t o;
              if (L && L->getType()->isIntegerTy(8)) {
                const Value *B = baseOf(L->getPointerOperand(), o, DL);
                if (B != v && B != gc && o == hv)
                  return set(a.h);
              }
              return false;
            };
            auto stores = [&](const Value *base, int64_t off, std::function<bool(const Value *)> isV) {
              return [&, base, off, isV](const Instruction *I) {
                auto *S = dyn_cast<StoreInst>(I);
                int64_t o;
                return S && baseOf(S->getPointerOperand(), o, DL) == base && o == off && isV(S->getValueOperand());
              };
            };
            auto demand = [&](std::function<bool(const Instruction *)> ev, const char *what) {
              PathQuery Q;
              Q.lookup = look;
              Q.stop = ev;
              if (auto *w = findPath(entry, true, Q))
                R.viol("G03", std::string("generational barrier: ") + what, loc(w),
                       "collector state " + std::to_string(state) + ", holder version " + std::to_string(a.v) +
                           ", value version " + std::to_string(a.h) + (in ? ", holder already remembered" : ""));
            };
            auto head = stores(gc, grs, [&](const Value *x) { return x == v; });
            if (!in) {
              demand(head, "an older holder of a newer value is not remembered");
              demand(stores(v, hr, [&](const Value *x) { return loadOf(x, gc, grs); }),
                     "the remembered list is cut");
              demand(stores(v, hin, [&](const Value *x) {
                       auto *c = dyn_cast<ConstantInt>(x);
                       return c && !c->isZero();
                     }),
                     "a remembered holder is not flagged");
            } else {
              PathQuery Q;
              Q.lookup = look;
              Q.bad = head;
              Q.atReturn = false;
              if (auto *w = findPath(entry, true, Q))
                R.viol("G03", "generational barrier: a holder is remembered twice", loc(w),
                       "the remembered list becomes circular");
            }
            if (state == inc)
              demand([&](const Instruction *I) { return markOf(I, [&](const Value *x) { return x == val; }); },
                     "the new value is not marked during marking");
          }
  }
  // scanning the remembered set
  {
    Analyses A(*FR);
    ExprCtx E;
    E.pureLoads = true;
    Value *gc = FR->getArg(0);
    // the list position: base of loads of the next pointer
    const Value *p = nullptr, *link = nullptr;
    std::vector<const Instruction *> adv;
    std::set<const Value *> ps;
    for (auto &I : instructions(*FR))
      if (auto *L = dyn_cast<LoadInst>(&I); L && L->getType()->isPointerTy()) {
        int64_t o;
        const Value *B = baseOf(L->getPointerOperand(), o, DL);
        if (o == hr && B != gc && isa<PHINode>(B)) {
          p = B;
          ps = {B};
          adv.push_back(L);
        }
      }
    // or the list is walked by the place the current entry hangs from
    if (!p)
      for (auto &I : instructions(*FR)) {
        auto *L = dyn_cast<LoadInst>(&I);
        auto *Ph = L && L->getType()->isPointerTy() ? dyn_cast<PHINode>(L->getPointerOperand()) : nullptr;
        if (!Ph || !A.LI.isLoopHeader(Ph->getParent()))
          continue;
        bool from = false, next = false, other = false;
        std::function<void(const Value *, int)> in = [&](const Value *V, int d) {
          if (V == Ph)
            return;
          if (auto *Q = dyn_cast<PHINode>(V); Q && d) {
            for (auto &u : Q->incoming_values())
              in(u.get(), d - 1);
            return;
          }
          int64_t o;
          const Value *B = baseOf(V, o, DL);
          auto *BL = dyn_cast<LoadInst>(B);
          if (B == gc && o == grs)
            from = true;
          else if (BL && BL->getPointerOperand() == Ph && o == hr)
            next = true;
          else
            other = true;
        };
        for (auto &u : Ph->incoming_values())
          in(u.get(), 4);
        if (!from || !next || other)
          continue;
        ps.insert(L);
        link = Ph;
        if (!p || A.DT.dominates(L, cast<Instruction>(p)))
          p = L;
        adv.push_back(&*Ph->getParent()->begin());
      }
    auto pLoad = [&](const Value *V, int64_t off) {
      for (auto *x : ps)
        if (loadOf(V, x, off))
          return true;
      return false;
    };
    const BasicBlock *phead = link ? cast<Instruction>(link)->getParent() : p ? cast<Instruction>(p)->getParent() : nullptr;
    const Instruction *tl = nullptr; // first read of the holder's kind
    std::set<const Value *> tls;
    for (auto &I : instructions(*FR))
      if (p && pLoad(&I, ht)) {
        tls.insert(&I);
        if (!tl || A.DT.dominates(&I, tl))
          tl = &I;
      }
    if (!p || !tl) {
      R.breakage("remembered set scan not understood");
      return;
    }
    Lin P = E.lin(p); // equal for every way the entry was read
    // kinds that have the extended header
    for (auto &kv : std::map<std::string, std::string>{{"scmVector", "scmHeadVector"}, {"scmSymbol", "scmHeadSymbol"}}) {
      const StructInfo *S = structByName(M, kv.first);
      int64_t tp = enumValue(M, kv.second, ok);
      if (!S || !ok)
        continue;
      R.count("remembered kinds");
      std::vector<std::pair<const Instruction *, Lin>> hits;
      Lin want, wlen;
      bool span = false;
      for (auto &f : S->fields) {
        if (isObjType(f.di)) {
          want = P;
          want.c += f.off;
        } else if (f.flexible) {
          want = P;
          want.c += f.off;
          Lin a = P;
          a.c += S->get("size") ? S->get("size")->off : 0;
          wlen.t["ld[" + a.str() + "]"] = 8;
          span = true;
        }
      }
      std::set<const Instruction *> good;
      std::set<const BasicBlock *> heads;
      for (auto &I : instructions(*FR)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || calleeName(CB) != "gcMark")
          continue;
        auto *L = dyn_cast<LoadInst>(CB->getArgOperand(1));
        if (!L)
          continue;
        Lin a = E.lin(L->getPointerOperand());
        if (!span) {
          if (a == want)
            good.insert(&I);
          continue;
        }
        Loop *lp = A.LI.getLoopFor(I.getParent());
        if (!lp)
          continue;
        LoopSpace sp = loopSpace(lp, E);
        if (!sp.ok)
          continue;
        Range r = addrRange(a, sp, 8, L->getParent() == sp.exiting || A.DT.dominates(L->getParent(), sp.exiting));
        if (r.ok && r.lo == want && r.len == wlen) {
          good.insert(&I);
          heads.insert(lp->getHeader());
        }
      }
      PathQuery Q;
      Q.lookup = [&](const Value *V, KnownBits &K) {
        if (tls.count(V)) {
          K = KnownBits::makeConstant(APInt(K.getBitWidth(), tp));
          return true;
        }
        return false;
      };
      Q.stop = [&](const Instruction *I) {
        return good.count(I) || (span && heads.count(I->getParent()));
      };
      if (span)
        Q.excused = [&](const BasicBlock *B, const BasicBlock *S2) {
          auto *BI = dyn_cast<BranchInst>(B->getTerminator());
          if (!BI || !BI->isConditional())
            return false;
          Facts f;
          factsFromCond(BI->getCondition(), BI->getSuccessor(0) == S2, E, f);
          Lin q;
          q.t = wlen.t;
          for (auto &t : q.t)
            t.second = 1;
          return f.prove(q);
        };
      Q.bad = [&](const Instruction *I) { return std::find(adv.begin(), adv.end(), I) != adv.end(); };
      if (auto *w = findPath(tl, true, Q))
        R.viol("G03", "remembered set: contents of " + kv.first + " not marked", loc(w),
               "the scan moves on without marking what the holder contains");
    }
    // an entry leaves the list only when its holder is not older, and is unflagged then
    auto unflag = [&](const Instruction *I) {
      auto *S = dyn_cast<StoreInst>(I);
      int64_t o;
      if (!S || !ps.count(baseOf(S->getPointerOperand(), o, DL)) || o != hin)
        return false;
      auto *c = dyn_cast<ConstantInt>(S->getValueOperand());
      return c && c->isZero();
    };
    auto unlink = [&](const Instruction *I) {
      auto *S = dyn_cast<StoreInst>(I);
      if (!S || !S->getValueOperand()->getType()->isPointerTy())
        return false;
      int64_t o;
      const Value *B = baseOf(S->getPointerOperand(), o, DL);
      return pLoad(S->getValueOperand(), hr) && ((B == gc && o == grs) || (link && B == link && o == 0) || (!ps.count(B) && o == hr));
    };
    const Instruction *vl = nullptr;
    for (auto &I : instructions(*FR))
      if (pLoad(&I, hv) && (!vl || A.DT.dominates(&I, vl)))
        vl = &I;
    struct { int g, h; bool keep; } cs[] = {{2, 5, true}, {2, 8, true}, {60, 4, true}, {8, 24, true}};
    long ul = 0;
    for (auto &I : instructions(*FR))
      ul += unlink(&I);
    R.count("remembered set unlinks", ul);
    if (vl)
      for (auto &c : cs) {
        R.count("barrier obligations");
        PathQuery Q;
        Q.lookup = [&](const Value *V, KnownBits &K) {
          if (pLoad(V, hv)) {
            K = KnownBits::makeConstant(APInt(K.getBitWidth(), c.h));
            return true;
          }
          if (loadOf(V, gc, gver)) {
            K = KnownBits::makeConstant(APInt(K.getBitWidth(), c.g));
            return true;
          }
          return false;
        };
        Q.bad = [&](const Instruction *I) { return unlink(I) || unflag(I); };
        Q.stop = [&](const Instruction *I) { return std::find(adv.begin(), adv.end(), I) != adv.end() && false; };
        Q.atReturn = false;
        // only the current entry: stop at the next iteration
        Q.stop = [&](const Instruction *I) { return I->getParent() == phead && I != vl; };
        if (vl->getParent() == phead)
          Q.stop = [&, first = true](const Instruction *I) mutable {
            return I == &phead->front();
          };
        if (auto *w = findPath(vl, true, Q))
          R.viol("G03", "remembered set: an older holder is forgotten", loc(w),
                 "collector version " + std::to_string(c.g) + ", holder version " + std::to_string(c.h));
      }
    for (auto &I : instructions(*FR))
      if (unlink(&I)) {
        R.count("barrier obligations");
        PathQuery Q;
        Q.stop = unflag;
        Q.bad = [&](const Instruction *J) { return J == &phead->front(); };
        if (auto *w = findPath(&I, false, Q))
          R.viol("G03", "remembered set: a forgotten holder stays flagged", loc(w),
                 "it would never be remembered again");
      }
  }
}

RULE(G03) {
  NormOpts O;
  O.keep = {"gcMark", "newObj", "gcAlloc", "writeBarrierForIncremental", "writeBarrierForGeneration", "makeVector",
            "makeNative", "makeCons", "makeBytes"};
  forEachGroup(in, [&](Module &M, const std::string &g) {
    normalise(M, O);
    sites(M, g);
    if (g == "core")
      barriers(M);
  });
  R.need("barrier stores", 2);
  R.need("barrier obligations", 60);
}
