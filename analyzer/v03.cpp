// V03: proper values. Type-qualifier inference: every 64 bit quantity of the
// program is classified as a value of the language, a C integer or an address
// from the declared types of parameters, results and memory it comes from; a C
// integer or address never reaches a place that holds values without one of
// the conversions, and arithmetic, ordering and conversions to numbers are
// never applied to the representation of a value.
#include "common.h"
#include "llvm/BinaryFormat/Dwarf.h"

namespace {
enum Class { Bot = 0, CVal = 1, CInt = 2, CAddr = 4, CUnknown = 8 };

struct Typer {
  Module &M;
  const DataLayout &DL;
  std::map<const Value *, unsigned> memo;
  std::map<const Value *, const DIType *> allocaType;
  explicit Typer(Module &M) : M(M), DL(M.getDataLayout()) {
    for (auto &F : M)
      for (auto &I : instructions(F))
        if (auto *D = dyn_cast<DbgDeclareInst>(&I))
          if (auto *A = dyn_cast_or_null<AllocaInst>(D->getAddress()))
            allocaType[A] = D->getVariable()->getType();
  }
  static const DIType *param(const Function *F, unsigned i) {
    auto *SP = F->getSubprogram();
    if (!SP || !SP->getType())
      return nullptr;
    auto A = SP->getType()->getTypeArray();
    if (F->isVarArg() && A.size() == F->arg_size() + 2)
      return i + 1 < A.size() - 1 ? A[i + 1] : nullptr;
    return paramType(F, i);
  }
  // declared type of the memory a pointer points to; null when not known.
  // strip arrays down to the element accessed
  const DIType *element(const DIType *T, uint64_t off, uint64_t size, int depth = 0) {
    if (!T || depth > 8)
      return nullptr;
    if (isObjType(T))
      return off == 0 ? T : nullptr;
    const DIType *Q = stripQuals(T);
    while (auto *D = dyn_cast_or_null<DIDerivedType>(Q)) {
      if (D->getTag() != dwarf::DW_TAG_typedef)
        break;
      if (D->getName() == "Obj")
        return off == 0 ? D : nullptr;
      Q = stripQuals(D->getBaseType());
    }
    if (auto *C = dyn_cast_or_null<DICompositeType>(Q)) {
      if (C->getTag() == dwarf::DW_TAG_array_type) {
        auto *E = C->getBaseType();
        const DIType *Eb = E;
        uint64_t es = Eb->getSizeInBits() / 8;
        const DIType *t = Eb;
        while (!es && t) { // typedefs carry no size
          auto *d = dyn_cast<DIDerivedType>(t);
          if (!d)
            break;
          t = d->getBaseType();
          es = t ? t->getSizeInBits() / 8 : 0;
        }
        return es ? element(E, off % es, size, depth + 1) : nullptr;
      }
      if (C->getTag() == dwarf::DW_TAG_union_type)
        return nullptr;
      for (auto *n : C->getElements())
        if (auto *m = dyn_cast<DIDerivedType>(n); m && m->getTag() == dwarf::DW_TAG_member) {
          uint64_t o = m->getOffsetInBits() / 8, s = m->getSizeInBits() / 8;
          bool flex = s == 0;
          if (off >= o && (flex || off + size <= o + s))
            if (auto *r = element(m->getBaseType(), off - o, size, depth + 1))
              return r;
        }
      return nullptr;
    }
    return off == 0 ? Q : nullptr;
  }
  // type of the object a pointer value points to
  const DIType *pointed(const Value *P, int depth = 0) {
    if (depth > 12)
      return nullptr;
    if (auto *A = dyn_cast<Argument>(P))
      return pointee(param(A->getParent(), A->getArgNo()));
    if (auto *CB = dyn_cast<CallBase>(P)) {
      if (auto *F = CB->getCalledFunction())
        return pointee(retType(F));
      return nullptr;
    }
    if (auto *A = dyn_cast<AllocaInst>(P)) {
      auto it = allocaType.find(A);
      return it == allocaType.end() ? nullptr : it->second;
    }
    if (auto *G = dyn_cast<GlobalVariable>(P)) {
      SmallVector<DIGlobalVariableExpression *, 2> v;
      G->getDebugInfo(v);
      return v.empty() ? nullptr : v[0]->getVariable()->getType();
    }
    if (auto *L = dyn_cast<LoadInst>(P)) {
      auto *T = memory(L->getPointerOperand(), 8);
      return pointee(T);
    }
    if (auto *S = dyn_cast<SelectInst>(P))
      return pointed(S->getTrueValue(), depth + 1);
    if (auto *Ph = dyn_cast<PHINode>(P)) {
      for (auto &U : Ph->incoming_values())
        if (auto *T = pointed(U.get(), depth + 6))
          return T;
      return nullptr;
    }
    if (auto *GEP = dyn_cast<GEPOperator>(P)) {
      // pointer arithmetic within an array of the same type
      if (auto *T = memory(P, 0))
        return T;
    }
    return nullptr;
  }
  // declared type of the memory accessed through P
  const DIType *memory(const Value *P, uint64_t size) {
    uint64_t off = 0;
    const Value *B = P;
    while (auto *G = dyn_cast<GEPOperator>(B)) {
      APInt o(64, 0);
      MapVector<Value *, APInt> var;
      if (!G->collectOffset(DL, 64, var, o))
        return nullptr;
      // a struct named by the instruction itself decides
      if (auto *ST = dyn_cast<StructType>(G->getSourceElementType()); ST && ST->hasName()) {
        StringRef n = ST->getName();
        n.consume_front("struct.");
        if (auto p = n.find_last_of('.'); p != StringRef::npos && all_of(n.drop_front(p + 1), isDigit))
          n = n.substr(0, p);
        if (auto *C = diByName(n.str())) {
          uint64_t rest = o.getZExtValue() + off;
          // variable indices step over whole elements
          return element(C, rest, size ? size : 1);
        }
      }
      off += o.getZExtValue();
      B = G->getPointerOperand();
    }
    const DIType *T = pointed(B);
    if (!T)
      return nullptr;
    // pointer to the first element of an array
    uint64_t es = 0;
    const DIType *t = T;
    while (t && !(es = t->getSizeInBits() / 8)) {
      auto *d = dyn_cast<DIDerivedType>(t);
      t = d ? d->getBaseType() : nullptr;
    }
    if (es && off >= es)
      off %= es;
    if (!size)
      return off == 0 ? T : element(T, off, 1);
    return element(T, off, size);
  }
  std::map<std::string, const DIType *> names;
  const DIType *diByName(const std::string &n) {
    if (names.empty()) {
      DebugInfoFinder F;
      F.processModule(M);
      for (auto *T : F.types()) {
        if (T->getName().empty())
          continue;
        if (auto *C = dyn_cast<DICompositeType>(T)) {
          if (C->getElements().size())
            names[T->getName().str()] = T;
        } else if (auto *D = dyn_cast<DIDerivedType>(T);
                   D && D->getTag() == dwarf::DW_TAG_typedef && structOf(D))
          names.emplace(T->getName().str(), T);
      }
      names["\x01"] = nullptr;
    }
    auto it = names.find(n);
    return it == names.end() ? nullptr : it->second;
  }
  unsigned ofType(const DIType *T) {
    if (!T)
      return CUnknown;
    if (isObjType(T))
      return CVal;
    const DIType *Q = stripQuals(T);
    while (auto *D = dyn_cast_or_null<DIDerivedType>(Q)) {
      if (D->getTag() == dwarf::DW_TAG_pointer_type)
        return CAddr;
      if (D->getName() == "uintptr_t")
        return CUnknown; // an untyped word of the collector
      Q = stripQuals(D->getBaseType());
    }
    if (isa_and_nonnull<DIBasicType>(Q))
      return CInt;
    if (auto *C = dyn_cast_or_null<DICompositeType>(Q);
        C && C->getTag() == dwarf::DW_TAG_enumeration_type)
      return CInt;
    return CUnknown;
  }
  bool properConst(const APInt &v) {
    if (v.getBitWidth() != 64)
      return false;
    uint64_t x = v.getZExtValue();
    const uint64_t mask = 0x7FF8000000000000ull;
    if ((x & mask) == mask) {
      // one of the immediates the library defines
      for (auto &G : M.globals())
        if (G.isConstant() && G.hasInitializer())
          if (auto *C = dyn_cast<ConstantInt>(G.getInitializer());
              C && C->getValue().getBitWidth() == 64 && C->getValue() == v) {
            SmallVector<DIGlobalVariableExpression *, 2> e;
            G.getDebugInfo(e);
            if (!e.empty() && isObjType(e[0]->getVariable()->getType()))
              return true;
          }
      return false;
    }
    double d = bit_cast<double>(x);
    return d == (double)(int64_t)d && d > -9.1e18 && d < 9.1e18;
  }
  unsigned cls(const Value *V, int depth = 0) {
    auto it = memo.find(V);
    if (it != memo.end())
      return it->second;
    memo[V] = Bot; // cycles contribute nothing
    unsigned r = raw(V, depth);
    memo[V] = r;
    return r;
  }
  unsigned raw(const Value *V, int depth) {
    if (auto *C = dyn_cast<ConstantInt>(V))
      return properConst(C->getValue()) ? Bot : CInt;
    if (isa<UndefValue>(V))
      return Bot;
    if (isa<ConstantExpr>(V))
      return V->getType()->isPointerTy() ? CAddr : cast<ConstantExpr>(V)->getOpcode() == Instruction::PtrToInt ? CAddr : CUnknown;
    if (isa<Constant>(V))
      return V->getType()->isPointerTy() ? CAddr : CUnknown;
    if (auto *A = dyn_cast<Argument>(V)) {
      unsigned c = ofType(param(A->getParent(), A->getArgNo()));
      return c;
    }
    if (auto *CB = dyn_cast<CallBase>(V)) {
      auto *F = CB->getCalledFunction();
      if (!F)
        return CUnknown;
      if (F->isIntrinsic())
        return CInt;
      if (!F->getSubprogram())
        return V->getType()->isPointerTy() ? CAddr : V->getType()->isIntegerTy() ? CInt : CUnknown;
      return ofType(retType(F));
    }
    if (auto *L = dyn_cast<LoadInst>(V)) {
      if (auto *G = dyn_cast<GlobalVariable>(L->getPointerOperand()))
        if (G->isConstant() && G->hasInitializer())
          if (auto *C = dyn_cast<ConstantInt>(G->getInitializer()))
            return properConst(C->getValue()) ? CVal : CInt;
      auto *T = memory(L->getPointerOperand(), DL.getTypeStoreSize(L->getType()));
      unsigned c = ofType(T);
      if (c == CUnknown && L->getType()->isIntegerTy() && !L->getType()->isIntegerTy(64))
        return CInt;
      return c;
    }
    if (auto *P = dyn_cast<PHINode>(V)) {
      unsigned c = Bot;
      for (auto &U : P->incoming_values())
        c |= cls(U.get(), depth + 1);
      return c;
    }
    if (auto *S = dyn_cast<SelectInst>(V))
      return cls(S->getTrueValue(), depth + 1) | cls(S->getFalseValue(), depth + 1);
    if (auto *C = dyn_cast<CastInst>(V)) {
      auto *O = C->getOperand(0);
      switch (C->getOpcode()) {
      case Instruction::SExt:
      case Instruction::ZExt:
      case Instruction::Trunc:
      case Instruction::FPToSI:
      case Instruction::FPToUI:
        return CInt;
      case Instruction::PtrToInt:
        return CAddr;
      case Instruction::IntToPtr:
        return CAddr;
      case Instruction::BitCast:
        if (O->getType()->isDoubleTy())
          return CUnknown; // the representation of a number
        return cls(O, depth + 1);
      default:
        return CUnknown;
      }
    }
    if (auto *B = dyn_cast<BinaryOperator>(V)) {
      switch (B->getOpcode()) {
      case Instruction::And:
      case Instruction::Or:
      case Instruction::Xor:
        return CUnknown; // making and taking apart the representation
      default:
        return V->getType()->isIntegerTy() ? CInt : CUnknown;
      }
    }
    if (isa<CmpInst>(V))
      return CInt;
    if (auto *F = dyn_cast<FreezeInst>(V))
      return cls(F->getOperand(0), depth + 1);
    if (V->getType()->isPointerTy())
      return CAddr;
    return CUnknown;
  }
};
std::string clsStr(unsigned c) {
  if (c & CInt)
    return "a C integer";
  if (c & CAddr)
    return "an address";
  return "a value";
}
// index of the sink, stable across edits
std::string sinkName(const CallBase *CB, unsigned i) {
  return calleeName(CB) + " argument " + std::to_string(i + 1);
}
} // namespace

RULE(V03) {
  forEachGroup(in, [&](Module &M, const std::string &g) {
    promote(M);
    Typer T(M);
    for (auto &F : M) {
      if (F.isDeclaration() || !own(&F))
        continue;
      std::string n = fname(&F);
      bool any = false;
      for (auto &I : instructions(F)) {
        if (isDbgOrLifetime(&I))
          continue;
        // places that hold values
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          auto *C = CB->getCalledFunction();
          if (!C || C->isIntrinsic() || !C->getSubprogram())
            continue;
          for (unsigned i = 0; i < CB->arg_size(); i++) {
            auto *A = CB->getArgOperand(i);
            if (!A->getType()->isIntegerTy(64))
              continue;
            bool obj = i < C->arg_size() ? isObjType(Typer::param(C, i))
                                         : fname(C) == "makeNative"; // captured values
            unsigned c = T.cls(A);
            if (obj) {
              any = true;
              R.count("values passed on");
              if (c & (CInt | CAddr))
                R.viol("V03", n + ": passes " + clsStr(c) + " as a value to " + sinkName(CB, i),
                       loc(CB), "the argument is declared to be a value");
            } else if (i < C->arg_size()) {
              unsigned d = T.ofType(Typer::param(C, i));
              if (d == CInt) {
                R.count("integers passed on");
                if (c & CVal)
                  R.viol("V03", n + ": passes the representation of a value as an integer to " +
                             sinkName(CB, i),
                         loc(CB), "the argument is declared to be an integer");
              }
            }
          }
          continue;
        }
        if (auto *Rt = dyn_cast<ReturnInst>(&I)) {
          if (Rt->getReturnValue() && isObjType(retType(&F))) {
            any = true;
            R.count("values returned");
            unsigned c = T.cls(Rt->getReturnValue());
            if (c & (CInt | CAddr))
              R.viol("V03", n + ": returns " + clsStr(c) + " as a value", loc(Rt),
                     "the result is declared to be a value");
          }
          continue;
        }
        if (auto *S = dyn_cast<StoreInst>(&I)) {
          auto *V = S->getValueOperand();
          if (!V->getType()->isIntegerTy() && !V->getType()->isPointerTy())
            continue;
          auto *D = T.memory(S->getPointerOperand(), T.DL.getTypeStoreSize(V->getType()));
          if (D && isObjType(D)) {
            any = true;
            R.count("values stored");
            unsigned c = T.cls(V);
            if (c & (CInt | CAddr))
              R.viol("V03", n + ": stores " + clsStr(c) + " where values are kept", loc(S),
                     "the memory is declared to hold values");
          }
          continue;
        }
        // operations on representations
        if (auto *B = dyn_cast<BinaryOperator>(&I)) {
          bool arith = false;
          switch (B->getOpcode()) {
          case Instruction::Add:
          case Instruction::Sub:
          case Instruction::Mul:
          case Instruction::SDiv:
          case Instruction::UDiv:
          case Instruction::SRem:
          case Instruction::URem:
            arith = true;
          default:
            break;
          }
          if (arith && B->getType()->isIntegerTy(64)) {
            R.count("arithmetic");
            for (auto &O : B->operands())
              if (T.cls(O.get()) & CVal) {
                R.viol("V03", n + ": arithmetic on the representation of a value", loc(B),
                       "the operand of the " + std::string(B->getOpcodeName()) + " is a value");
                break;
              }
          }
        } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
          if (!C->isEquality() && C->getOperand(0)->getType()->isIntegerTy(64)) {
            R.count("orderings");
            if ((T.cls(C->getOperand(0)) | T.cls(C->getOperand(1))) & CVal)
              R.viol("V03", n + ": orders the representation of values", loc(C),
                     "an operand is a value");
          }
        } else if (auto *C = dyn_cast<CastInst>(&I)) {
          if ((C->getOpcode() == Instruction::SIToFP || C->getOpcode() == Instruction::UIToFP ||
               C->getOpcode() == Instruction::Trunc) &&
              C->getOperand(0)->getType()->isIntegerTy(64)) {
            R.count("conversions");
            if (T.cls(C->getOperand(0)) & CVal)
              R.viol("V03", n + ": converts the representation of a value", loc(C),
                     "the operand is a value");
          }
        }
      }
      if (any) {
        R.count("functions");
        R.sample("functions", n);
      }
    }
  });
  R.need("functions", 300);
  R.need("values passed on", 2000);
  R.need("values returned", 20);
  R.need("values stored", 200);
}
