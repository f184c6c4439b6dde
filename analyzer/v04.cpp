// V04: kinds. Every access to the storage of a value (through the address kept
// in its representation) is reached only by values of one kind, whose layout
// has a field at the place accessed. For each value and each of the ten kinds
// the paths from the definition of the value to its accesses are explored with
// the kind marker and the type byte fixed to that kind.
#include "paths.h"
#include "frames.h"
#include "llvm/BinaryFormat/Dwarf.h"

namespace {
const uint64_t ObjMask = 0x7FF8000000000000ull;
const uint64_t Low48 = (1ull << 48) - 1;

struct KindInfo {
  Kind k;
  const char *tagName, *typeName, *strct;
  int64_t tag = -1, type = -1;
  const StructInfo *si = nullptr;
};
struct Kinds {
  std::vector<KindInfo> v;
  bool ok = true;
  explicit Kinds(Module &M) {
    v = {{K_Number, "", "", ""},
         {K_Immed, "TAG_IMMED", "", ""},
         {K_CObj, "TAG_COBJ", "", ""},
         {K_Symbol, "TAG_SYMBOL", "", "_strBuf"},
         {K_Bytes, "TAG_BYTES", "scmHeadBytes", "scmBytes"},
         {K_Cons, "TAG_CONS", "scmHeadCons", "scmCons"},
         {K_Native, "TAG_NATIVE", "scmHeadNative", "scmNative"},
         {K_Vector, "TAG_PTR", "scmHeadVector", "scmVector"},
         {K_Gensym, "TAG_PTR", "scmHeadSymbol", "scmSymbol"},
         {K_Cont, "TAG_PTR", "scmHeadContinuation", "scmContinuation"}};
    for (auto &k : v) {
      bool f = true;
      if (*k.tagName) {
        k.tag = enumValue(M, k.tagName, f);
        if (!f) {
          ok = false;
          R.breakage(std::string("no constant ") + k.tagName);
        }
      }
      if (*k.typeName) {
        k.type = enumValue(M, k.typeName, f);
        if (!f) {
          ok = false;
          R.breakage(std::string("no constant ") + k.typeName);
        }
      }
      if (*k.strct)
        k.si = structByName(M, k.strct);
    }
  }
  const KindInfo &get(Kind k) const {
    for (auto &i : v)
      if (i.k == k)
        return i;
    return v[0];
  }
};

// the value whose representation an address was taken from
const Value *valueOf(const Value *P) {
  auto *C = dyn_cast<Operator>(P);
  if (!C || C->getOpcode() != Instruction::IntToPtr)
    return nullptr;
  const Value *V = C->getOperand(0);
  bool masked = false;
  for (int i = 0; i < 6; i++) {
    auto *B = dyn_cast<BinaryOperator>(V);
    if (!B)
      break;
    auto *K = dyn_cast<ConstantInt>(B->getOperand(1));
    if (!K)
      break;
    if (B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Shl ||
        B->getOpcode() == Instruction::LShr || B->getOpcode() == Instruction::Xor) {
      masked = true;
      V = B->getOperand(0);
    } else
      break;
  }
  return masked && V->getType()->isIntegerTy(64) && !isa<Constant>(V) ? V : nullptr;
}
// object behind a freshly made value: or(ptrtoint(p), constants)
const Value *madeFrom(const Value *X) {
  for (int i = 0; i < 6; i++) {
    auto *B = dyn_cast<BinaryOperator>(X);
    if (!B || B->getOpcode() != Instruction::Or)
      break;
    if (isa<ConstantInt>(B->getOperand(1)))
      X = B->getOperand(0);
    else if (isa<ConstantInt>(B->getOperand(0)))
      X = B->getOperand(1);
    else
      return nullptr;
  }
  auto *C = dyn_cast<Operator>(X);
  if (C && C->getOpcode() == Instruction::PtrToInt)
    return C->getOperand(0);
  return nullptr;
}
// newObj call an address points to the start of
const CallBase *newObjOf(const Value *P, const DataLayout &DL) {
  int64_t off;
  const Value *B = baseOf(P, off, DL);
  auto *CB = dyn_cast_or_null<CallBase>(B);
  return CB && off == 0 && calleeName(CB) == "newObj" ? CB : nullptr;
}

struct Access {
  const Instruction *I;
  int64_t off;      // constant part
  bool var;         // plus something
  uint64_t size;    // 0: unknown extent
  bool call;        // handed to a function that is not analysed here
  bool number = false; // the representation taken as a number
};

struct An {
  Module &M;
  const DataLayout &DL;
  Kinds &KS;
  int64_t typeOff = -1;
  uint64_t headSize = 8;
  // kinds of captured values: (function, slot) -> kinds
  std::map<std::pair<const Function *, int64_t>, unsigned> captured;
  int64_t natData = -1;
  An(Module &M, Kinds &K) : M(M), DL(M.getDataLayout()), KS(K) {}

  void collect(const Value *P, int64_t off, bool var, std::vector<Access> &out, std::set<const Value *> &seen) {
    if (!seen.insert(P).second)
      return;
    for (auto *U : P->users()) {
      if (auto *G = dyn_cast<GetElementPtrInst>(U)) {
        if (G->getPointerOperand() != P)
          continue;
        APInt o(64, 0);
        MapVector<Value *, APInt> v;
        if (!G->collectOffset(DL, 64, v, o))
          continue;
        collect(G, off + o.getSExtValue(), var || !v.empty(), out, seen);
      } else if (auto *L = dyn_cast<LoadInst>(U))
        out.push_back({L, off, var, DL.getTypeStoreSize(L->getType()), false});
      else if (auto *S = dyn_cast<StoreInst>(U)) {
        if (S->getPointerOperand() == P)
          out.push_back({S, off, var, DL.getTypeStoreSize(S->getValueOperand()->getType()), false});
      } else if (auto *CB = dyn_cast<CallBase>(U)) {
        if (isDbgOrLifetime(CB))
          continue;
        if (CB->isArgOperand(&*std::find_if(CB->arg_begin(), CB->arg_end(),
                                             [&](const llvm::Use &u) { return u.get() == P; })))
          out.push_back({CB, off, var, 0, true});
      } else if (isa<PHINode>(U) || isa<SelectInst>(U) || isa<FreezeInst>(U))
        collect(U, off, var, out, seen);
    }
  }
  // "" when the access is legal for a value of this kind
  std::string legal(const KindInfo &k, const Access &u) {
    if (u.number)
      return k.k == K_Number ? "" : "is not a number";
    if (k.k == K_CObj)
      return ""; // opaque
    if (!k.si)
      return "has no storage";
    // within the header
    bool heap = k.tag >= 4;
    if (heap && !u.var && u.off >= 0 && u.size && u.off + u.size <= headSize)
      return "";
    std::function<bool(const StructInfo *, int64_t)> in = [&](const StructInfo *S, int64_t base) {
      for (auto &f : S->fields) {
        int64_t o = base + f.off;
        if (f.flexible) {
          if (u.off >= o)
            return true;
          continue;
        }
        if (u.off == o && !u.var && (u.size == f.size || u.size == 0))
          return true;
        if (f.isArray && u.off >= o && u.off < o + (int64_t)f.size)
          return true;
        if (auto *N = structOf(f.di))
          if (u.off >= o && u.off < o + (int64_t)f.size && in(N, o))
            return true;
      }
      return false;
    };
    if (u.off == 0 && u.call)
      return ""; // the object itself
    return in(k.si, 0) ? "" : "has no field at byte " + std::to_string(u.off);
  }
  // kinds the value may have by construction
  unsigned given(const Value *X, int depth = 0) {
    if (auto *P = dyn_cast<PHINode>(X); P && depth < 3) {
      unsigned r = 0;
      for (auto &U : P->incoming_values())
        r |= given(U.get(), depth + 1);
      return r;
    }
    if (auto *C = dyn_cast<ConstantInt>(X))
      return (C->getZExtValue() & ObjMask) == ObjMask ? kindsOfTag((C->getZExtValue() >> 48) & 7) : (unsigned)K_Number;
    if (auto *P = madeFrom(X)) {
      Eval E;
      KnownBits b = E.bits(X);
      unsigned r = 0;
      for (auto &k : KS.v) {
        if (k.k == K_Number)
          continue;
        uint64_t want = ObjMask | (uint64_t)k.tag << 48;
        if ((b.One.getZExtValue() & 0x7FFull << 48 & ~want) || (b.Zero.getZExtValue() & want))
          continue;
        r |= k.k;
      }
      if (auto *CB = newObjOf(P, DL)) {
        if (auto *T = dyn_cast<ConstantInt>(CB->getArgOperand(1))) {
          unsigned t = 0;
          for (auto &k : KS.v)
            if (k.type >= 0 && k.type == (int64_t)T->getZExtValue())
              t |= k.k;
          r &= t;
        }
      }
      return r;
    }
    // captured value of the running function
    if (auto *L = dyn_cast<LoadInst>(X)) {
      int64_t off;
      const Value *B = baseOf(L->getPointerOperand(), off, DL);
      const Function *F = L->getFunction();
      if (B && natData >= 0 && off >= natData && (off - natData) % 8 == 0)
        if (auto *Y = valueOf(B))
          if (auto *LY = dyn_cast<LoadInst>(Y)) {
            int64_t o2;
            if (isStepType(F) && baseOf(LY->getPointerOperand(), o2, DL) == F->getArg(2) && o2 == 0) {
              auto it = captured.find({F, (off - natData) / 8});
              if (it != captured.end())
                return it->second;
            }
          }
    }
    return K_All;
  }
  unsigned kindsOfTag(int64_t t) {
    unsigned r = 0;
    for (auto &k : KS.v)
      if (k.tag == t)
        r |= k.k;
    return r;
  }
  // accesses reached by X when it is of kind k
  bool reached(const Value *X, const KindInfo &k, const std::set<const Instruction *> &uses,
               std::set<const Instruction *> &hit) {
    PathQuery Q;
    Q.atReturn = false;
    Q.limit = 100000;
    Q.flat = true;
    std::set<const BasicBlock *> region;
    std::vector<const BasicBlock *> work;
    for (auto *I : uses)
      if (region.insert(I->getParent()).second)
        work.push_back(I->getParent());
    while (!work.empty()) {
      auto *B = work.back();
      work.pop_back();
      for (auto *P : predecessors(B))
        if (region.insert(P).second)
          work.push_back(P);
    }
    Q.enter = [&](const BasicBlock *B) { return region.count(B) > 0; };
    auto isX = [&](const Value *V) { return V == X; };
    Q.lookup = [&](const Value *V, KnownBits &K) {
      if (isX(V) && K.getBitWidth() == 64) {
        if (k.k == K_Number)
          return false;
        uint64_t one = ObjMask | (uint64_t)k.tag << 48;
        K.One = APInt(64, one);
        K.Zero = APInt(64, (7ull << 48) & ~one);
        return true;
      }
      // numbers: the mask test fails
      if (k.k == K_Number)
        if (auto *C = dyn_cast<ICmpInst>(V); C && C->isEquality() && K.getBitWidth() == 1) {
          auto *K2 = dyn_cast<ConstantInt>(C->getOperand(1));
          const Value *A = C->getOperand(0);
          if (K2 && K2->getBitWidth() == 64 && (K2->getZExtValue() & ObjMask) == ObjMask) {
            bool about = isX(A);
            if (auto *B = dyn_cast<BinaryOperator>(A); B && B->getOpcode() == Instruction::And)
              about |= isX(B->getOperand(0)) && isa<ConstantInt>(B->getOperand(1));
            if (about) {
              K = KnownBits::makeConstant(APInt(1, C->getPredicate() == CmpInst::ICMP_NE));
              return true;
            }
          }
        }
      // the type byte
      if (auto *L = dyn_cast<LoadInst>(V); L && L->getType()->isIntegerTy(8) && k.type >= 0) {
        int64_t off;
        const Value *B = baseOf(L->getPointerOperand(), off, DL);
        if (B && off == typeOff && valueOf(B) == X) {
          K = KnownBits::makeConstant(APInt(8, k.type));
          return true;
        }
      }
      return false;
    };
    Q.stop = [&](const Instruction *I) { return I == X; };
    Q.bad = [&](const Instruction *I) {
      if (uses.count(I))
        hit.insert(I);
      return false;
    };
    const Function *F = (*uses.begin())->getFunction();
    const Instruction *from;
    bool incl = true;
    if (auto *I = dyn_cast<Instruction>(X)) {
      if (isa<PHINode>(I))
        from = &*I->getParent()->getFirstNonPHIIt();
      else {
        from = I;
        incl = false;
      }
    } else
      from = &F->getEntryBlock().front();
    findPath(from, incl, Q);
    return !Q.overflow;
  }
};
} // namespace

RULE(V04) {
  forEachGroup(in, [&](Module &M, const std::string &g) {
    NormOpts O;
    O.keep = {"newObj",      "gcAlloc",        "coraRun",   "gcMarkRoot", "intern",
              "bindSymbol",  "coraReturn",     "stackAlloc", "stackAllocSlowPath",
              "_vector_append", "makeNumber",  "makeNative", "makeCurry", "saveCont",
              "coraReturnSlowPath", "writeBarrierForGeneration", "writeBarrierForIncremental",
              "coraCall", "coraCall0", "coraCall1", "coraCall2", "coraCall3", "coraCall4"};
    normalise(M, O);
    Kinds KS(M);
    if (!KS.ok)
      return;
    An A(M, KS);
    if (auto *H = structByName(M, "scmHead")) {
      A.headSize = H->size;
      if (auto *f = H->get("type"))
        A.typeOff = f->off;
    }
    if (auto *N = structByName(M, "scmNative"))
      if (auto *f = N->get("data"))
        A.natData = f->off;
    if (A.typeOff < 0 || A.natData < 0) {
      R.breakage("layout of objects not found");
      return;
    }
    // kinds of captured values
    for (auto &F : M)
      for (auto &I : instructions(F)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || !isMakeNative(CB) || CB->arg_size() < 5)
          continue;
        auto *G = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts());
        if (!G)
          continue;
        for (unsigned i = 5; i < CB->arg_size(); i++)
          A.captured[{G, i - 5}] |= A.given(CB->getArgOperand(i));
      }
    for (auto &F : M) {
      if (F.isDeclaration() || !own(&F))
        continue;
      // values whose storage is accessed
      std::map<const Value *, std::vector<const Value *>> values;
      std::vector<const Value *> order;
      std::map<const Value *, std::vector<const Instruction *>> numbers;
      for (auto &I : instructions(F)) {
        if (auto *X = valueOf(&I)) {
          if (!values.count(X))
            order.push_back(X);
          values[X].push_back(&I);
        }
        if (auto *C = dyn_cast<CastInst>(&I); C && (C->getOpcode() == Instruction::FPToSI || C->getOpcode() == Instruction::FPToUI))
          if (auto *BC = dyn_cast<BitCastInst>(C->getOperand(0)); BC && BC->getOperand(0)->getType()->isIntegerTy(64)) {
            auto *X = BC->getOperand(0);
            if (!isa<Constant>(X)) {
              if (!values.count(X))
                order.push_back(X);
              values[X].size();
              numbers[X].push_back(C);
            }
          }
        // freshly made values: marker and type byte agree
        if (auto *B = dyn_cast<BinaryOperator>(&I); B && B->getOpcode() == Instruction::Or && B->getType()->isIntegerTy(64)) {
          bool outer = true;
          for (auto *U : B->users())
            if (auto *B2 = dyn_cast<BinaryOperator>(U); B2 && B2->getOpcode() == Instruction::Or)
              outer = false;
          if (!outer)
            continue;
          if (auto *P = madeFrom(B))
            if (auto *CB = newObjOf(P, A.DL)) {
              R.count("values made");
              if (isa<ConstantInt>(CB->getArgOperand(1)) && A.given(B) == 0)
                R.viol("V04", fname(&F) + ": makes a value whose marker differs from its type byte",
                       loc(B), "the object is created at " + loc(CB));
            }
        }
      }
      for (auto *X : order) {
        std::vector<Access> uses;
        std::set<const Instruction *> at;
        for (auto *P : values[X]) {
          std::set<const Value *> seen;
          A.collect(P, 0, false, uses, seen);
        }
        for (auto *C : numbers[X]) {
          uses.push_back({C, 0, false, 8, false, true});
          R.count("conversions to numbers");
        }
        for (auto &u : uses)
          at.insert(u.I);
        if (at.empty())
          continue;
        R.count("values examined");
        unsigned may = A.given(X);
        std::map<const Instruction *, unsigned> kinds;
        for (auto &k : KS.v) {
          if (!(may & k.k))
            continue;
          std::set<const Instruction *> hit;
          if (!A.reached(X, k, at, hit)) {
            R.breakage("too many paths in " + fname(&F));
            continue;
          }
          for (auto *I : hit)
            kinds[I] |= k.k;
        }
        for (auto &u : uses) {
          R.count("accesses");
          unsigned ks = kinds[u.I];
          for (auto &k : KS.v) {
            if (!(ks & k.k))
              continue;
            std::string why = A.legal(k, u);
            if (why.empty())
              continue;
            std::string what = u.number ? "takes as a number the representation of" : u.call ? "passes on the storage of" : isa<StoreInst>(u.I) ? "writes the storage of" : "reads the storage of";
            R.viol("V04", fname(&F) + ": " + what + " a " + kindStr(k.k) + " as another kind", loc(u.I),
                   "the value can be a " + kindStr(ks) + "; a " + kindStr(k.k) + " " + why);
          }
          // beyond the header, one kind only
          bool header = !u.var && u.size && u.off >= 0 && u.off + u.size <= A.headSize;
          if (!header && !u.number && ks && (ks & (ks - 1)) != 0)
            R.viol("V04", fname(&F) + ": uses the storage of a value of several kinds", loc(u.I),
                   "the value can be a " + kindStr(ks));
        }
      }
    }
  });
  R.need("values examined", 500);
  R.need("accesses", 800);
  R.need("values made", 5);
  R.need("conversions to numbers", 20);
}
