// G06: what the allocator hands out. Small objects: the class chosen for every
// request size is large enough, blocks stay in the list of their class, and a
// slot is taken from inside its block, once. Large objects: the run of blocks
// handed out covers the request, ends inside the arena and is skipped by the
// next search. A place whose object is still in use is never handed out.
#include "bounds.h"
#include "cexec.h"

namespace {
struct Fld {
  std::string s, f; // structure, field
  const Value *base = nullptr;
  bool is(const char *a, const char *b) const { return s == a && f == b; }
};

struct Heap {
  Module &M;
  const DataLayout &DL;
  std::map<std::string, const StructInfo *> infos;
  int64_t listOff = -1, lists = 0; // GC.sizeClass
  int64_t blocksOff = -1, nblocks = 0, blockSize = 0;
  explicit Heap(Module &M) : M(M), DL(M.getDataLayout()) {}

  const StructInfo *info(const std::string &n) {
    auto it = infos.find(n);
    if (it == infos.end())
      it = infos.emplace(n, structByName(M, n)).first;
    return it->second;
  }
  // from the type tag of a load or store
  bool field(const Instruction *I, Fld &r) {
    auto *tag = I->getMetadata(LLVMContext::MD_tbaa);
    if (!tag || tag->getNumOperands() < 3)
      return false;
    auto *base = dyn_cast<MDNode>(tag->getOperand(0));
    auto *off = mdconst::dyn_extract<ConstantInt>(tag->getOperand(2));
    if (!base || !off || base == tag->getOperand(1).get())
      return false;
    auto *name = dyn_cast<MDString>(base->getOperand(0));
    if (!name)
      return false;
    uint64_t o = off->getZExtValue();
    std::string sn = name->getString().str();
    auto *S = info(sn);
    if (name->getString().empty()) {
      // a structure without a tag: the head, when place and width agree
      S = info(sn = "scmHead");
      auto *T = isa<LoadInst>(I) ? I->getType() : I->getOperand(0)->getType();
      bool fits = false;
      for (auto &f : S ? S->fields : std::vector<Field>())
        fits = fits || (f.off == o && f.size == DL.getTypeStoreSize(T));
      if (!fits)
        return false;
    }
    if (!S)
      return false;
    r.s = sn;
    if (r.s != "scmHead" && !S->fields.empty())
      if (auto *H = structOf(S->fields[0].di); H && H == info("scmHead")) {
        bool in = false;
        for (auto &f : H->fields)
          if (f.off <= o && o < f.off + f.size) {
            r.s = "scmHead";
            r.f = f.name;
            in = true;
          }
        if (!in)
          r.f.clear();
      }
    if (r.f.empty())
      for (auto &f : S->fields)
        if (f.off <= o && o < f.off + f.size)
          r.f = f.name;
    auto *P = I->getOpcode() == Instruction::Load ? cast<LoadInst>(I)->getPointerOperand() : cast<StoreInst>(I)->getPointerOperand();
    APInt a(64, 0);
    r.base = P;
    // back to where the structure starts
    int64_t left = (int64_t)o;
    while (left > 0) {
      auto *G = dyn_cast<GEPOperator>(r.base);
      APInt d(64, 0);
      if (!G || !G->accumulateConstantOffset(DL, d) || d.getSExtValue() > left)
        return false;
      left -= d.getSExtValue();
      r.base = G->getPointerOperand();
    }
    return !r.f.empty();
  }
  bool field(const Value *V, Fld &r) {
    auto *I = dyn_cast<Instruction>(V);
    return I && (isa<LoadInst>(I) || isa<StoreInst>(I)) && field(I, r);
  }
  // &gc->sizeClass[i]
  const Value *listSlot(const Value *P) {
    auto *G = dyn_cast<GEPOperator>(P);
    if (!G || !G->getSourceElementType()->isArrayTy())
      return nullptr;
    APInt a(64, 0);
    auto *G0 = dyn_cast<GEPOperator>(G->getPointerOperand());
    if (!G0 || !G0->accumulateConstantOffset(DL, a) || a.getSExtValue() != listOff)
      return nullptr;
    auto *ST = dyn_cast<StructType>(G0->getSourceElementType());
    if (!ST || ST->getName() != "struct.GC")
      return nullptr;
    return G->getOperand(G->getNumOperands() - 1);
  }
  const Value *listSlotOf(const Instruction *I) {
    if (auto *L = dyn_cast<LoadInst>(I))
      return listSlot(L->getPointerOperand());
    if (auto *S = dyn_cast<StoreInst>(I))
      return listSlot(S->getPointerOperand());
    return nullptr;
  }
};
} // namespace

static void globalsThatNeverChange(Module &M) {
  for (auto &G : M.globals()) {
    if (!G.hasLocalLinkage() || !G.hasInitializer())
      continue;
    bool fixed = true;
    std::vector<const Value *> todo{&G};
    std::set<const Value *> seen;
    while (!todo.empty() && fixed) {
      auto *V = todo.back();
      todo.pop_back();
      if (!seen.insert(V).second)
        continue;
      for (auto *U : V->users()) {
        if (isa<LoadInst>(U))
          continue;
        if (isa<GEPOperator>(U) || isa<PHINode>(U) || isa<SelectInst>(U))
          todo.push_back(U);
        else if (auto *S = dyn_cast<StoreInst>(U)) {
          auto *A = dyn_cast<AllocaInst>(S->getPointerOperand());
          if (S->getValueOperand() == V && A) { // a local pointer to the table
            for (auto *U2 : A->users())
              if (isa<LoadInst>(U2))
                todo.push_back(U2);
              else if (auto *S2 = dyn_cast<StoreInst>(U2); S2 && S2->getPointerOperand() == A) {
              } else if (auto *C2 = dyn_cast<CallBase>(U2); C2 && isDbgOrLifetime(C2)) {
              } else
                fixed = false;
          } else
            fixed = false;
        } else
          fixed = false;
      }
    }
    if (fixed)
      G.setConstant(true);
  }
}

RULE(G06) {
  forEachGroup(in, [&](Module &M, const std::string &g) {
    if (g != "core")
      return;
    Heap H(M);
    auto *GC = H.info("GC"), *BL = H.info("Block"), *HA = H.info("heapArena"), *HD = H.info("scmHead");
    if (!GC || !BL || !HA || !HD || !GC->get("sizeClass") || !HA->get("blocks") || !BL->get("base") || !BL->get("curr") || !BL->get("sizeClass")) {
      R.breakage("G06: structures of the allocator not found");
      return;
    }
    H.listOff = GC->get("sizeClass")->off;
    H.lists = GC->get("sizeClass")->size / 8;
    uint64_t blockBytes = 0;
    for (auto &f : BL->fields)
      blockBytes = std::max(blockBytes, f.off + f.size);
    blockBytes = (blockBytes + 7) / 8 * 8;
    H.blocksOff = HA->get("blocks")->off;
    H.nblocks = HA->get("blocks")->size / blockBytes;

    globalsThatNeverChange(M);
    NormOpts O;
    O.externArgsOnly = true;
    O.keep = {"gcRun", "gcMark"};
    for (auto &F : M)
      if (auto *SP = F.getSubprogram(); SP && SP->getFilename().contains("trace")) {
        O.keep.insert(fname(&F));
        O.inaccess.insert(fname(&F));
      }
    normalise(M, O);
    auto &DL = M.getDataLayout();
    auto *A = M.getFunction("gcAlloc");
    if (!A || A->isDeclaration() || A->arg_size() != 2) {
      R.breakage("G06: gcAlloc not found");
      return;
    }
    const Argument *size = A->getArg(1);

    std::vector<Function *> fs;
    for (auto &F : M)
      if (isRoot(F) && srcFile(&F) == srcFile(A))
        fs.push_back(&F);

    // the size of a block: the distance between neighbours
    auto arenaUnit = [&](Prover &P, const LE &e, LE &idx, int &ptr) {
      // ptr + K * idx, ptr loaded from heapArena.ptr
      ptr = -1;
      idx = LE();
      for (auto &t : e.t) {
        auto *V = P.atoms[t.first].v;
        Fld f;
        if (ptr < 0 && t.second == 1 && V && H.field(V, f) && f.is("heapArena", "ptr"))
          ptr = t.first;
        else
          idx.t[t.first] = t.second;
      }
      idx.c = e.c;
      return ptr >= 0;
    };
    std::map<const Function *, std::unique_ptr<Prover>> provers;
    auto prover = [&](Function *F) -> Prover & {
      auto &p = provers[F];
      if (!p) {
        p = std::make_unique<Prover>(*F);
        Prover *P = p.get();
        P->signedExact = true;
        P->about = [P, &H](int a, std::vector<LE> &out) {
          auto *V = P->atoms[a].v;
          Fld f;
          if (!V || !H.field(V, f))
            return;
          int64_t most = -1;
          if (f.is("heapArena", "idx") || f.is("heapArena", "curr"))
            most = H.nblocks;
          else if (f.is("scmFreeNode", "slots"))
            most = H.nblocks;
          else if (f.is("Block", "curr"))
            most = H.blockSize ? H.blockSize : 1 << 20;
          if (most >= 0) {
            out.push_back(P->one(a) * -1);
            out.push_back(P->one(a) + -most);
          }
        };
      }
      return *p;
    };
    auto where = [&](const Instruction *I) { return loc(I); };
    std::set<int64_t> strides;
    for (auto *F : fs)
      for (auto &I : instructions(*F)) {
        auto *S = dyn_cast<StoreInst>(&I);
        Fld f;
        if (!S || !H.field(S, f) || !f.is("Block", "base"))
          continue;
        auto &P = prover(F);
        LE idx;
        int ptr;
        if (!arenaUnit(P, P.lin(S->getValueOperand()), idx, ptr))
          continue;
        for (auto &t : idx.t)
          strides.insert(t.second);
      }
    if (strides.size() != 1) {
      R.breakage("G06: the distance of blocks is not one constant");
      return;
    }
    const int64_t K = H.blockSize = *strides.begin();
    R.sample("block size", std::to_string(K) + " bytes, " + std::to_string(H.nblocks) + " per arena");

    // ---- small: constants for every size
    Prover &P = prover(A);
    std::map<int64_t, std::set<int64_t>> classOf; // list -> class stored
    std::map<int64_t, std::vector<int>> wanted;   // list -> sizes served from it
    std::set<std::pair<const BasicBlock *, const BasicBlock *>> edges;
    const Instruction *first = &*A->getEntryBlock().begin();
    for (int64_t sz = 9; sz <= K + 64; sz++) {
      CExec X(*A);
      X.widen = 100;
      CState S;
      S.env[size] = ConstantInt::get(size->getType(), sz);
      bool any = false, unknown = false, large = false;
      const Instruction *bad = nullptr;
      X.visit = [&](const Instruction *I, CState &S) {
        if (S.pred && I == &*I->getParent()->getFirstNonPHIOrDbgOrLifetime()) {
          edges.insert({S.pred, I->getParent()});
          if (S.u.count("list") && P.DT.dominates(I->getParent(), S.pred))
            return false; // the same again
        }
        Fld f;
        if (auto *v = H.listSlotOf(I)) {
          auto *c = dyn_cast_or_null<ConstantInt>(X.get(v, S));
          if (!c) {
            unknown = true;
            bad = I;
            return false;
          }
          any = true;
          S.u["list"] = 1;
          int64_t i = c->getSExtValue();
          wanted[i].push_back((int)sz);
          if (i < 1 || i >= H.lists) {
            R.viol("G06", fname(A) + ": list of blocks out of range", where(I), "request of " + std::to_string(sz) + " bytes uses list " + std::to_string(i));
            return false;
          }
          if (auto *St = dyn_cast<StoreInst>(I); St && S.u.count("class"))
            classOf[i].insert(S.u["class"]);
        }
        if ((isa<LoadInst>(I) || isa<StoreInst>(I)) && H.field(I, f)) {
          if (auto *St = dyn_cast<StoreInst>(I); St && f.is("Block", "sizeClass")) {
            auto *c = dyn_cast_or_null<ConstantInt>(X.get(St->getValueOperand(), S));
            if (!c) {
              unknown = true;
              bad = I;
              return false;
            }
            S.u["class"] = c->getSExtValue();
          }
          if (isa<LoadInst>(I) && (f.s == "scmHead" || f.is("Block", "base")))
            return false; // a place was chosen
          if (f.is("heapArena", "curr") && isa<LoadInst>(I))
            large = true;
        }
        return true;
      };
      X.run(first, S);
      R.count("request sizes");
      if (X.overflow) {
        R.breakage("G06: too many paths in gcAlloc");
        return;
      }
      if (unknown)
        R.viol("G06", fname(A) + ": the class of a request cannot be followed", bad ? where(bad) : "", "request of " + std::to_string(sz) + " bytes");
      if (!any && !large)
        R.viol("G06", fname(A) + ": a request is not served from a list", "", "request of " + std::to_string(sz) + " bytes");
    }
    std::set<int64_t> tooSmall;
    for (auto &w : wanted) {
      auto c = classOf.find(w.first);
      if (c == classOf.end() || c->second.size() != 1) {
        if (c == classOf.end())
          R.viol("G06", fname(A) + ": blocks of a list have no class", "", "list " + std::to_string(w.first));
        else
          R.viol("G06", fname(A) + ": blocks of one list have different classes", "", "list " + std::to_string(w.first));
        continue;
      }
      int64_t cls = *c->second.begin();
      R.count("classes");
      R.sample("classes", "list " + std::to_string(w.first) + ": " + std::to_string(cls) + " bytes");
      if (cls > K || cls % 8)
        R.viol("G06", fname(A) + ": a class does not fit a block", "", "list " + std::to_string(w.first) + " has class " + std::to_string(cls));
      for (int s : w.second)
        if (s > cls) {
          R.viol("G06", fname(A) + ": a request gets too small a slot", where(first), "request of " + std::to_string(s) + " bytes is served from class " + std::to_string(cls));
          break;
        }
    }
    for (int64_t sz = 1; sz <= 8; sz++) {
      CExec X(*A);
      CState S;
      S.env[size] = ConstantInt::get(size->getType(), sz);
      bool ret = false;
      X.visit = [&](const Instruction *I, CState &) { ret = ret || isa<ReturnInst>(I); return true; };
      X.run(first, S);
      if (ret)
        R.viol("G06", fname(A) + ": an object smaller than its head", where(first), "a request of " + std::to_string(sz) + " bytes is served");
    }

    // ---- what is handed out
    auto reachable = [&](const BasicBlock *P, const BasicBlock *B, bool small) {
      return !small || edges.count({P, B});
    };
    struct Leaf {
      const Value *v;
      const BasicBlock *from, *to;
    };
    std::vector<Leaf> leaves;
    {
      std::set<const Value *> seen;
      std::function<void(const Value *, const BasicBlock *, const BasicBlock *)> walk = [&](const Value *V, const BasicBlock *f, const BasicBlock *t) {
        if (auto *Ph = dyn_cast<PHINode>(V)) {
          if (seen.insert(Ph).second)
            for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++)
              walk(Ph->getIncomingValue(i), Ph->getIncomingBlock(i), Ph->getParent());
          return;
        }
        if (auto *Se = dyn_cast<SelectInst>(V)) {
          walk(Se->getTrueValue(), f, t);
          walk(Se->getFalseValue(), f, t);
          return;
        }
        if (isa<UndefValue>(V) || isa<ConstantPointerNull>(V))
          return;
        leaves.push_back({V, f, t});
      };
      for (auto &B : *A)
        if (auto *Rt = dyn_cast<ReturnInst>(B.getTerminator()))
          walk(Rt->getReturnValue(), &B, nullptr);
    }
    auto inList = [&](const Value *b, const Instruction *at) {
      // every way to b: from a list, or put on one
      std::set<const Value *> seen;
      std::function<bool(const Value *, const BasicBlock *)> ok = [&](const Value *V, const BasicBlock *from) -> bool {
        if (auto *Ph = dyn_cast<PHINode>(V)) {
          bool put = false;
          for (auto *U : Ph->users())
            if (auto *S = dyn_cast<StoreInst>(U); S && S->getValueOperand() == Ph && H.listSlotOf(S) && P.DT.dominates(S->getParent(), from))
              put = true;
          if (put || !seen.insert(Ph).second)
            return true;
          for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++)
            if (edges.count({Ph->getIncomingBlock(i), Ph->getParent()}) && !ok(Ph->getIncomingValue(i), Ph->getIncomingBlock(i)))
              return false;
          return true;
        }
        if (auto *L = dyn_cast<LoadInst>(V); L && H.listSlotOf(L))
          return true;
        for (auto *U : V->users())
          if (auto *S = dyn_cast<StoreInst>(U); S && S->getValueOperand() == V && H.listSlotOf(S) && P.DT.dominates(S->getParent(), from))
            return true;
        return false;
      };
      return ok(b, at->getParent());
    };
    auto lastStore = [&](const char *s, const char *f, const Value *base, const Leaf &lf) {
      const StoreInst *best = nullptr;
      for (auto &I : instructions(*A)) {
        auto *S = dyn_cast<StoreInst>(&I);
        Fld x;
        if (!S || !H.field(S, x) || !x.is(s, f) || x.base != base || !P.DT.dominates(S->getParent(), lf.from))
          continue;
        if (!best || P.DT.dominates(best, S))
          best = S;
      }
      return best;
    };
    auto holds = [&](const LE &e, const Leaf &lf) {
      P.work = 0;
      return lf.to ? P.proveOn(e, lf.from, lf.to) || P.prove(e, lf.from) : P.prove(e, lf.from);
    };
    for (auto &lf : leaves) {
      auto *I0 = dyn_cast<Instruction>(lf.v);
      LE e = P.lin(lf.v);
      const LoadInst *base = nullptr, *ptr = nullptr;
      LE rest;
      rest.c = e.c;
      for (auto &t : e.t) {
        auto *L = dyn_cast_or_null<LoadInst>(P.atoms[t.first].v);
        Fld f;
        if (L && t.second == 1 && H.field(L, f) && f.is("Block", "base"))
          base = L;
        else if (L && t.second == 1 && H.field(L, f) && f.is("heapArena", "ptr"))
          ptr = L;
        else
          rest.t[t.first] = t.second;
      }
      std::string at = I0 ? where(I0) : "";
      if (!base == !ptr) {
        R.viol("G06", fname(A) + ": hands out something that is not part of a block", at, "address " + P.str(e));
        continue;
      }
      bool sizeKept = false;
      for (auto &I : instructions(*A))
        if (auto *S = dyn_cast<StoreInst>(&I)) {
          Fld f;
          if (H.field(S, f) && f.is("scmHead", "size") && S->getValueOperand() == size)
            sizeKept = true;
        }
      if (!sizeKept)
        R.viol("G06", fname(A) + ": the size is not noted in the object", at, "");
      R.count("places handed out");
      Fld f;
      if (base) {
        H.field(base, f);
        const Value *b = f.base;
        if (!inList(b, base))
          R.viol("G06", fname(A) + ": takes a slot from a block that is not on its list", at, "");
        // the slot: curr .. curr + class
        const LoadInst *cls = nullptr, *cur = nullptr;
        for (auto &I : instructions(*A)) {
          auto *L = dyn_cast<LoadInst>(&I);
          Fld x;
          if (L && H.field(L, x) && x.base == b && P.DT.dominates(L->getParent(), lf.from)) {
            if (x.is("Block", "sizeClass"))
              cls = L;
            if (x.is("Block", "curr"))
              cur = L;
          }
        }
        if (!cls) {
          R.viol("G06", fname(A) + ": the class of the block is not looked at", at, "");
          continue;
        }
        LE end = rest + P.lin(cls);
        if (!holds(end + -K, lf))
          R.viol("G06", fname(A) + ": a slot may end behind its block", at, "slot ends at " + P.str(end));
        if (!holds(rest * -1, lf))
          R.viol("G06", fname(A) + ": a slot may start before its block", at, "slot starts at " + P.str(rest));
        auto *S = lastStore("Block", "curr", b, lf);
        if (!S || !holds(end - P.lin(S->getValueOperand()), lf))
          R.viol("G06", fname(A) + ": the same slot may be handed out again", at, "the position is not moved behind it");
        if (!cur || !(rest - P.lin(cur)).isConst() || (rest - P.lin(cur)).c != 0)
          R.viol("G06", fname(A) + ": a slot does not start at the position of the block", at, "slot starts at " + P.str(rest));
      } else {
        H.field(ptr, f);
        const Value *ha = f.base;
        LE end = rest + P.lin(size);
        if (!holds(end + -(K * H.nblocks), lf))
          R.viol("G06", fname(A) + ": a large object may end behind its arena", at, "ends at " + P.str(end));
        auto *S = lastStore("heapArena", "curr", ha, lf);
        if (!S || !holds(end - P.lin(S->getValueOperand()) * K, lf))
          R.viol("G06", fname(A) + ": the next search may find the same large object again", at, "the position is not moved behind it");
        // room: either new ground, or free blocks that suffice
        bool room = false;
        auto *S2 = lastStore("heapArena", "idx", ha, lf);
        if (S2 && holds(end - P.lin(S2->getValueOperand()) * K, lf)) {
          // starts where no object lies yet
          for (auto &I : instructions(*A)) {
            auto *L = dyn_cast<LoadInst>(&I);
            Fld x;
            if (L && H.field(L, x) && x.is("heapArena", "idx") && x.base == ha && P.DT.dominates(L->getParent(), S2->getParent()) && holds(P.lin(L) * K - rest, lf))
              room = true;
          }
        }
        std::set<const Value *> from;
        std::vector<const Value *> todo;
        for (auto &I : instructions(*A)) {
          auto *L = dyn_cast<LoadInst>(&I);
          Fld x;
          if (L && H.field(L, x) && x.base == lf.v && (x.is("scmHead", "size") || x.is("scmFreeNode", "slots")))
            todo.push_back(L);
        }
        while (!todo.empty()) {
          auto *V = todo.back();
          todo.pop_back();
          if (!from.insert(V).second)
            continue;
          for (auto *U : V->users())
            if (isa<BinaryOperator>(U) || isa<PHINode>(U) || isa<CastInst>(U) || isa<SelectInst>(U))
              todo.push_back(U);
        }
        // what is left over becomes a free place of its own
        for (auto &I : instructions(*A)) {
          auto *S3 = dyn_cast<StoreInst>(&I);
          Fld x;
          if (!S3 || !H.field(S3, x) || !x.is("scmFreeNode", "slots") || x.base == lf.v)
            continue;
          LE b = P.lin(x.base), at3;
          int p3;
          if (!arenaUnit(P, b, at3, p3) || p3 != P.atomOf(ptr) || !P.DT.dominates(I0->getParent(), S3->getParent()))
            continue;
          R.count("remainders");
          P.work = 0;
          if (!P.prove(end - at3, S3->getParent()))
            R.viol("G06", fname(A) + ": the rest of a free place starts inside the object", where(S3), "starts at " + P.str(at3));
          bool bounded = false;
          for (auto *V : from)
            if (auto *I3 = cast<Instruction>(V); !bounded && I3->getType()->isIntegerTy(32) && P.DT.dominates(I3, S3)) {
              P.work = 0;
              bounded = P.prove(at3 + P.lin(S3->getValueOperand()) * K - rest - P.lin(I3) * K, S3->getParent());
            }
          if (!bounded)
            R.viol("G06", fname(A) + ": the rest of a free place reaches into the next object", where(S3), "has " + P.str(P.lin(S3->getValueOperand())) + " blocks");
        }
        for (auto *V : from) {
          auto *I = cast<Instruction>(V);
          if (room || !I->getType()->isIntegerTy(32) || !P.DT.dominates(I->getParent(), lf.from))
            continue;
          if (holds(P.lin(size) - P.lin(I) * K, lf))
            room = true;
        }
        if (!room)
          R.viol("G06", fname(A) + ": a large object may cover the one behind it", at, "the free blocks found are not compared with the request");
      }
    }

    // ---- a place whose object is in use is not handed out
    auto live = [&](int64_t sz, int mode, const char *what) {
      std::string bad;
      const Instruction *badAt = nullptr;
      for (int v : {0, 1, 2, 30, 31, 32, 33, 34, 62, 63})
        for (int d = 0; d < 32 && bad.empty(); d++) {
          int w = (v + d) % 64, dead = (v + 62) % 64;
          CExec X(*A);
          X.widen = 100;
          CState S;
          S.env[size] = ConstantInt::get(size->getType(), sz);
          X.value = [&](const Instruction *I, CState &S) -> Constant * {
            auto *L = dyn_cast<LoadInst>(I);
            Fld f;
            if (!L || !H.field(L, f))
              return nullptr;
            if (f.is("GC", "version"))
              return ConstantInt::get(L->getType(), (1 << 20) / 64 * 64 + v);
            if (f.is("GC", "state"))
              return ConstantInt::get(L->getType(), 0);
            if (f.s != "scmHead")
              return nullptr;
            bool one = S.u.count("n") && S.u["n"] == (long)f.base;
            bool isLive = mode == 0 || !one;
            if (f.f == "type")
              return ConstantInt::get(L->getType(), 3);
            if (f.f == "version")
              return ConstantInt::get(L->getType(), isLive ? w : dead);
            if (f.f == "size")
              return ConstantInt::get(L->getType(), 100);
            return nullptr;
          };
          X.visit = [&](const Instruction *I, CState &S) {
            Fld f;
            if (S.pred && S.u.count("at") && I == &*I->getParent()->getFirstNonPHIOrDbgOrLifetime()) {
              auto *at = (const BasicBlock *)S.u["at"];
              if (I->getParent() != at && P.DT.dominates(I->getParent(), at))
                return false; // looks for another place
            }
            if (isa<LoadInst>(I) && H.field(I, f)) {
              if (f.is("scmHead", "type")) {
                if (!S.u.count("n")) {
                  S.u["n"] = (long)f.base;
                  S.u["at"] = (long)I->getParent();
                }
                if (mode == 0 || S.u["n"] != (long)f.base)
                  S.u["live"] = 1;
              }
            }
            // on the way out: the object gets its size
            if (auto *St = dyn_cast<StoreInst>(I); St && H.field(St, f) && f.is("scmHead", "size") && S.u.count("live") && St->getValueOperand() == size) {
              bad = "collector at version " + std::to_string(v) + ", object at " + std::to_string(w);
              badAt = I;
              return false;
            }
            return bad.empty();
          };
          X.run(first, S);
          R.count("versions examined");
          if (X.overflow) {
            R.breakage("G06: too many paths in gcAlloc");
            return;
          }
        }
      if (!bad.empty())
        R.viol("G06", fname(A) + ": hands out " + what, where(badAt), bad);
    };
    live(64, 0, "the place of an object still in use");
    live(2 * K, 0, "the place of a large object still in use");
    live(2 * K, 1, "blocks of the object behind the place found");

    // ---- bookkeeping, everywhere
    for (auto *F : fs) {
      auto &P = prover(F);
      std::string fn = fname(F);
      for (auto &I : instructions(*F)) {
        if (I.getOpcode() == Instruction::UDiv || I.getOpcode() == Instruction::SDiv || I.getOpcode() == Instruction::LShr || I.getOpcode() == Instruction::AShr) {
          auto *c = dyn_cast<ConstantInt>(I.getOperand(1));
          int64_t d = !c ? 0 : I.getOpcode() == Instruction::UDiv || I.getOpcode() == Instruction::SDiv ? c->getSExtValue() : 1LL << (c->getZExtValue() & 31);
          if (d != K)
            continue;
          const Value *V = I.getOperand(0);
          int64_t more = 0;
          while (auto *O = dyn_cast<Instruction>(V)) {
            auto *k = O->getNumOperands() == 2 ? dyn_cast<ConstantInt>(O->getOperand(1)) : nullptr;
            if (k && O->getOpcode() == Instruction::Add)
              more += k->getSExtValue();
            else if (k && O->getOpcode() == Instruction::Sub)
              more -= k->getSExtValue();
            else if (!isa<SExtInst>(O) && !isa<ZExtInst>(O))
              break;
            V = O->getOperand(0);
          }
          Fld f;
          if (!((H.field(V, f) && f.is("scmHead", "size")) || V == size))
            continue;
          int64_t added = 1 << 20; // to the quotient
          for (auto *U : I.users()) {
            const Value *W = U;
            while (isa<CastInst>(W) && W->hasOneUse())
              W = *W->user_begin();
            auto *O = dyn_cast<Instruction>(W);
            auto *k = O && O->getOpcode() == Instruction::Add ? dyn_cast<ConstantInt>(O->getOperand(1)) : nullptr;
            added = std::min(added, k ? k->getSExtValue() : 0);
          }
          more += added < 4 ? added * K : 0;
          R.count("sizes in blocks");
          if (more < K - 1)
            R.viol("G06", fn + ": the blocks of a large object are rounded down", where(&I), "computed as (size + " + std::to_string(more) + ") / " + std::to_string(K));
          continue;
        }
        auto *S = dyn_cast<StoreInst>(&I);
        if (!S)
          continue;
        Fld f;
        if (auto *idx = H.listSlotOf(S)) {
          auto *V = S->getValueOperand();
          R.count("list updates");
          if (isa<ConstantPointerNull>(V))
            continue;
          if (H.field(V, f) && f.is("Block", "next")) {
            // the rest of the same list
            bool same = false;
            std::set<const Value *> seen;
            std::function<bool(const Value *)> from = [&](const Value *b) -> bool {
              if (!seen.insert(b).second)
                return true;
              if (auto *L = dyn_cast<LoadInst>(b))
                if (auto *i2 = H.listSlotOf(L))
                  return i2 == idx || P.lin(i2) == P.lin(idx);
              for (auto *U : b->users())
                if (auto *S2 = dyn_cast<StoreInst>(U); S2 && S2->getValueOperand() == b)
                  if (auto *i2 = H.listSlotOf(S2); i2 && (i2 == idx || P.lin(i2) == P.lin(idx)))
                    return true;
              if (auto *Ph = dyn_cast<PHINode>(b)) {
                for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++)
                  if ((F != A || edges.count({Ph->getIncomingBlock(i), Ph->getParent()})) && !from(Ph->getIncomingValue(i)))
                    return false;
                return true;
              }
              return false;
            };
            same = from(f.base);
            if (!same)
              R.viol("G06", fn + ": a list gets blocks of another list", where(S), "");
            continue;
          }
          if (F == A) // followed by size above: needs the class stored first
            continue;
          // every class: the list it is put on has that class
          const LoadInst *L0 = nullptr;
          for (auto &J : instructions(*F)) {
            auto *L = dyn_cast<LoadInst>(&J);
            Fld x;
            if (L && H.field(L, x) && x.is("Block", "sizeClass") && x.base == V && P.DT.dominates(L, S) && (!L0 || P.DT.dominates(L, L0)))
              L0 = L;
          }
          if (!L0) {
            R.viol("G06", fn + ": a block is put on a list without looking at its class", where(S), "");
            continue;
          }
          for (auto &c : classOf)
            for (int64_t cls : c.second) {
              CExec X(*F);
              X.widen = 100;
              CState St;
              bool reached = false;
              X.value = [&](const Instruction *I, CState &) -> Constant * {
                Fld x;
                if (isa<LoadInst>(I) && H.field(I, x) && x.is("Block", "sizeClass") && x.base == V)
                  return ConstantInt::get(I->getType(), cls);
                return nullptr;
              };
              X.visit = [&](const Instruction *I, CState &s) {
                if (I == S) {
                  reached = true;
                  auto *k = dyn_cast_or_null<ConstantInt>(X.get(idx, s));
                  auto it = k ? classOf.find(k->getSExtValue()) : classOf.end();
                  if (it == classOf.end() || !it->second.count(cls))
                    R.viol("G06", fn + ": a block is put on the list of another class", where(S), "class " + std::to_string(cls) + (k ? ", list " + std::to_string(k->getSExtValue()) : ""));
                  return false;
                }
                return true;
              };
              X.run(L0, St);
              R.count("blocks put back");
              if (!reached)
                R.viol("G06", fn + ": a block with live objects is not put back on its list", where(S), "class " + std::to_string(cls));
            }
          continue;
        }
        if (!H.field(S, f))
          continue;
        auto *V = S->getValueOperand();
        auto *cv = dyn_cast<ConstantInt>(V);
        if (f.is("Block", "sizeClass")) {
          R.count("class updates");
          bool fresh = false;
          for (auto &J : instructions(*F)) {
            Fld x;
            if ((isa<LoadInst>(&J) || isa<StoreInst>(&J)) && H.field(&J, x) && x.is("Block", "curr") && x.base == f.base) {
              auto *S2 = dyn_cast<StoreInst>(&J);
              auto *z = S2 ? dyn_cast<ConstantInt>(S2->getValueOperand()) : nullptr;
              if (z && z->isZero() && (P.DT.dominates(S2, S) || P.DT.dominates(S, S2)))
                fresh = true;
            }
          }
          if (!(cv && cv->isZero()) && F != A)
            R.viol("G06", fn + ": gives a block a class", where(S), "only the allocator does");
          if (cv && cv->isZero() && !fresh)
            R.viol("G06", fn + ": a block changes its class in use", where(S), "its position is not set back");
          continue;
        }
        if (f.is("Block", "curr")) {
          R.count("position updates");
          if (cv && cv->isZero())
            continue;
          // one slot further
          LE e = P.lin(V);
          bool ok = false;
          for (auto &J : instructions(*F)) {
            auto *L = dyn_cast<LoadInst>(&J);
            Fld x;
            if (!L || !H.field(L, x) || !x.is("Block", "sizeClass") || x.base != f.base)
              continue;
            for (auto &J2 : instructions(*F)) {
              auto *L2 = dyn_cast<LoadInst>(&J2);
              Fld y;
              if (L2 && H.field(L2, y) && y.is("Block", "curr") && y.base == f.base && e == P.lin(L) + P.lin(L2))
                ok = true;
            }
          }
          if (!ok)
            R.viol("G06", fn + ": the position of a block does not move by its class", where(S), "becomes " + P.str(e));
          continue;
        }
        if (f.is("Block", "next")) {
          auto *L = dyn_cast<LoadInst>(V);
          auto *idx = L ? H.listSlotOf(L) : nullptr;
          if (!idx)
            continue;
          R.count("blocks linked");
          bool put = false;
          for (auto *U : f.base->users())
            if (auto *S2 = dyn_cast<StoreInst>(U); S2 && S2->getValueOperand() == f.base)
              if (auto *i2 = H.listSlotOf(S2); i2 && (i2 == idx || P.lin(i2) == P.lin(idx)))
                put = true;
          if (!put)
            R.viol("G06", fn + ": a block is linked into a list it is not put on", where(S), "");
          continue;
        }
        if (f.is("heapArena", "ptr")) {
          R.count("arenas made");
          auto *C = dyn_cast<CallBase>(V);
          auto *n = C && calleeName(C) == "mmap" ? dyn_cast<ConstantInt>(C->getArgOperand(1)) : nullptr;
          if (!n || n->getSExtValue() < K * H.nblocks)
            R.viol("G06", fn + ": an arena is smaller than its blocks", where(S), "");
          continue;
        }
        if (f.is("heapArena", "idx")) {
          if (cv && cv->isZero())
            continue;
          R.count("arena growth");
          if (!P.prove(P.lin(V) + -H.nblocks, S->getParent()))
            R.viol("G06", fn + ": an arena hands out more blocks than it has", where(S), "count becomes " + P.str(P.lin(V)));
          continue;
        }
        if (f.is("Block", "base")) {
          bool init = false;
          for (auto &J : instructions(*F)) {
            Fld x;
            if (isa<StoreInst>(&J) && H.field(&J, x) && x.is("Block", "curr") && x.base == f.base)
              init = true;
          }
          if (!init)
            continue;
          R.count("blocks made");
          LE idx;
          int ptr;
          auto *G = dyn_cast<GEPOperator>(f.base);
          LE e = P.lin(V);
          LE self;
          const Value *ha = nullptr;
          if (G && G->getSourceElementType()->isArrayTy()) {
            self = P.lin(G->getOperand(G->getNumOperands() - 1));
            if (auto *G0 = dyn_cast<GEPOperator>(G->getPointerOperand()))
              ha = G0->getPointerOperand();
          }
          Fld x;
          if (!arenaUnit(P, e, idx, ptr) || !ha || !H.field(P.atoms[ptr].v, x) || x.base != ha || !(idx == self * K)) {
            R.viol("G06", fn + ": a block does not get its own memory", where(S), "memory at " + P.str(e));
            continue;
          }
          bool next = false;
          for (auto &J : instructions(*F)) {
            auto *S2 = dyn_cast<StoreInst>(&J);
            Fld y;
            if (S2 && H.field(S2, y) && y.is("heapArena", "idx") && y.base == ha && (P.DT.dominates(S, S2) || P.DT.dominates(S2, S))) {
              LE d = P.lin(S2->getValueOperand()) - self;
              next = next || (d.isConst() && d.c >= 1);
            }
          }
          if (!next)
            R.viol("G06", fn + ": a block may be made twice", where(S), "the arena does not count it");
        }
      }
    }
  });
  R.need("request sizes", 4000);
  R.need("classes", 8);
  R.need("places handed out", 2);
  R.need("list updates", 3);
  R.need("blocks made", 1);
  R.need("arenas made", 1);
  R.need("versions examined", 300);
}
