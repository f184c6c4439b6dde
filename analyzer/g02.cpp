// G02: every root of the running machine is marked when a collection starts.
#include "marks.h"

static const DIType *elemOfVector(const Field &f) {
  // vector(T): union { Vector v; T type; }
  const StructInfo *U = structOf(f.di);
  if (!U || U->fields.size() != 2)
    return nullptr;
  auto *v = U->get("v"), *t = U->get("type");
  if (!v || !t)
    return nullptr;
  const StructInfo *V = structOf(v->di);
  if (!V || !V->get("data") || !V->get("len"))
    return nullptr;
  return t->di;
}

RULE(G02) {
  auto M = loadGroup(in.core, {});
  NormOpts O;
  O.keep = {"gcMark", "gcMarkRoot", "newObj", "gcAlloc"};
  normalise(*M, O);
  const StructInfo *C = structByName(*M, "Cora");
  FrameLayout FL = frameLayout(*M);
  if (!C || !FL.ok) {
    R.breakage("struct Cora or Frame not found");
    return;
  }
  const DataLayout &DL = M->getDataLayout();
  std::set<Function *> callbacks;
  for (auto &F : *M)
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB || calleeName(CB) != "gcMarkRoot")
        continue;
      R.count("collection starts");
      auto *G = dyn_cast<Function>(CB->getArgOperand(1)->stripPointerCasts());
      if (!G || G->isDeclaration()) {
        R.viol("G02", fname(&F) + ": collection started without known roots", loc(&I), "the root function is not a constant");
        continue;
      }
      callbacks.insert(G);
      if (!pointsTo(CB->getArgOperand(2), "Cora"))
        R.viol("G02", fname(&F) + ": collection started for something that is not the machine", loc(&I), "");
    }
  R.need("collection starts", 1);
  for (auto *F : callbacks) {
    R.count("root functions");
    Analyses A(*F);
    ExprCtx E;
    E.pureLoads = true;
    auto ms = markSites(*F, A, E, FL);
    auto at = [&](int64_t o) {
      Lin l;
      l.t["arg1"] = 1;
      l.c = o;
      return l;
    };
    auto ld = [&](const Lin &l) {
      Lin r;
      r.t["ld[" + l.str() + "]"] = 1;
      return r;
    };
    const StructInfo *V = structByName(*M, "Vector");
    std::vector<Region> need;
    for (auto &f : C->fields) {
      Region r;
      r.name = f.name;
      const StructInfo *S = structOf(f.di);
      if (isObjType(f.di)) {
        r.kind = MarkSite::Scalar;
        r.lo = at(f.off);
        r.len.c = 8;
      } else if (S && S->name == "Frame") {
        r.kind = MarkSite::Span;
        r.lo = ld(at(f.off + FL.bp));
        r.len = ld(at(f.off + FL.sp)) - r.lo;
      } else if (const DIType *T = elemOfVector(f)) {
        int64_t d = f.off + V->get("data")->off, n = f.off + V->get("len")->off;
        r.lo = ld(at(d));
        const StructInfo *ES = structOf(T);
        if (isObjType(T)) {
          r.kind = MarkSite::Span;
          r.len = ld(at(n)) * 8;
        } else if (ES && ES->name == "Frame") {
          r.kind = MarkSite::Frames;
          r.len = ld(at(n)) * FL.size;
        } else
          continue;
      } else
        continue;
      need.push_back(r);
    }
    for (auto &r : need) {
      R.count("roots");
      const Instruction *w;
      std::string why = covered(*F, A, E, ms, r, w);
      if (!why.empty())
        R.viol("G02", "root " + r.name + " not marked", loc(w), fname(F) + ": " + why);
      else
        R.sample("roots", "Cora." + r.name + " marked by " + fname(F));
    }
    // roots live at least until the next collection: any lower bound is fine,
    // but the value must be marked in the collector that was started
    for (auto &m : ms) {
      R.count("mark calls");
      if (E.key(m.CB->getArgOperand(0)) != "arg0")
        R.viol("G02", fname(F) + ": marks for another collector", loc(m.CB), "");
    }
  }
  R.need("roots", 4);

  // the root phase calls the callback and scans the remembered set, with the
  // queue ready
  auto N = loadGroup(in.core, {});
  NormOpts P;
  P.keep = {"gcMark", "newObj", "gcAlloc"};
  normalise(*N, P);
  const StructInfo *G = structByName(*N, "GC");
  Function *F = nullptr;
  for (auto &f : *N)
    if (fname(&f) == "gcMarkRoot" && !f.isDeclaration())
      F = &f;
  if (!F || !G || !G->get("rset") || !G->get("gray")) {
    R.breakage("gcMarkRoot or its data not found");
    return;
  }
  const DataLayout &DL2 = N->getDataLayout();
  auto touches = [&](const Instruction *I, const Field *f, bool store) {
    const Value *p = store ? (isa<StoreInst>(I) ? cast<StoreInst>(I)->getPointerOperand() : nullptr)
                           : (isa<LoadInst>(I) ? cast<LoadInst>(I)->getPointerOperand() : nullptr);
    auto in = [&](const Value *q) {
      int64_t o;
      return baseOf(q, o, DL2) == F->getArg(0) && o >= (int64_t)f->off &&
             o < (int64_t)(f->off + std::max<uint64_t>(f->size, 8));
    };
    if (!p)
      return false;
    // a list walked by the places its entries hang from starts here
    if (auto *Ph = dyn_cast<PHINode>(p); Ph && !store)
      for (auto &u : Ph->incoming_values())
        if (in(u.get()))
          return true;
    return in(p);
  };
  auto isCallback = [&](const Instruction *I) {
    auto *CB = dyn_cast<CallBase>(I);
    if (!CB || CB->getCalledOperand() != F->getArg(1))
      return false;
    return CB->arg_size() == 2 && CB->getArgOperand(0) == F->getArg(0) && CB->getArgOperand(1) == F->getArg(2);
  };
  const Instruction *entry = &F->getEntryBlock().front();
  struct {
    const char *what;
    std::function<bool(const Instruction *)> pass, before;
  } must[] = {
      {"the machine's roots are not marked", isCallback, nullptr},
      {"the remembered set is not scanned",
       [&](const Instruction *I) { return touches(I, G->get("rset"), false); }, nullptr},
      {"roots are marked before the queue is ready",
       [&](const Instruction *I) { return touches(I, G->get("gray"), true); }, isCallback},
  };
  for (auto &m : must) {
    R.count("root phase obligations");
    PathQuery Q;
    Q.stop = m.pass;
    if (m.before) {
      Q.bad = m.before;
      Q.atReturn = false;
    }
    if (auto *w = findPath(entry, true, Q))
      R.viol("G02", std::string("gcMarkRoot: ") + m.what, loc(w), "a path through the root phase");
  }
}
