#include "bounds.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include <numeric>

static bool mulOk(int64_t a, int64_t b, int64_t &r) { return !__builtin_mul_overflow(a, b, &r); }
LE LE::operator+(const LE &o) const {
  LE r = *this;
  r.c += o.c;
  for (auto &p : o.t)
    if ((r.t[p.first] += p.second) == 0)
      r.t.erase(p.first);
  return r;
}
LE LE::operator*(int64_t k) const {
  LE r;
  if (!k)
    return r;
  r.c = c * k;
  for (auto &p : t)
    r.t[p.first] = p.second * k;
  return r;
}
LE LE::operator-(const LE &o) const { return *this + o * -1; }

Prover::Prover(Function &F) : F(F), DL(F.getParent()->getDataLayout()), DT(F), LI(DT) {}

int Prover::atomOf(const Value *V) {
  auto it = ids.find(V);
  if (it != ids.end())
    return it->second;
  if (auto *I = dyn_cast<Instruction>(V); I && I->getType()->isIntegerTy() &&
      (I->getOpcode() == Instruction::Add || I->getOpcode() == Instruction::Sub || I->getOpcode() == Instruction::Mul)) {
    // the same computation on the same operands
    std::string k = std::to_string(I->getOpcode()) + " " + std::to_string((uintptr_t)I->getType());
    for (auto &U : I->operands())
      k += " " + std::to_string((uintptr_t)U.get());
    auto in = special.insert({k, (int)atoms.size()});
    if (!in.second)
      return ids[V] = in.first->second;
  }
  Atom a;
  a.v = V;
  atoms.push_back(a);
  return ids[V] = atoms.size() - 1;
}
int Prover::typed(int base, const std::string &as) {
  std::string k = std::to_string(base) + " as " + as;
  auto it = special.find(k);
  if (it != special.end())
    return it->second;
  Atom a;
  a.v = atoms[base].v;
  a.of = base;
  a.as = as;
  atoms.push_back(a);
  return special[k] = atoms.size() - 1;
}
int Prover::fieldOf(int base, const std::string &field) {
  std::string k = std::to_string(base) + "." + field;
  auto it = special.find(k);
  if (it != special.end())
    return it->second;
  Atom a;
  a.v = atoms[base].v;
  a.of = base;
  a.field = field;
  atoms.push_back(a);
  return special[k] = atoms.size() - 1;
}
int Prover::fieldAt(int base, const std::string &field, const BasicBlock *B) {
  std::string s;
  raw_string_ostream o(s);
  o << base << "." << field << "@" << (const void *)B;
  auto it = special.find(o.str());
  if (it != special.end())
    return it->second;
  Atom a;
  a.v = atoms[base].v;
  a.of = base;
  a.field = field;
  a.at = B;
  atoms.push_back(a);
  return special[s] = atoms.size() - 1;
}
std::string Prover::str(const LE &e) {
  std::string s;
  raw_string_ostream o(s);
  for (auto &p : e.t) {
    o << (p.second < 0 ? " - " : " + ");
    if (std::abs(p.second) != 1)
      o << std::abs(p.second) << "*";
    auto &a = atoms[p.first];
    if (a.of >= 0)
      o << str(one(a.of)).substr(3);
    else if (a.v)
      a.v->printAsOperand(o, false);
    if (!a.field.empty())
      o << "." << a.field;
    if (!a.as.empty())
      o << ":" << a.as;
  }
  o << " + " << e.c;
  return o.str();
}

bool Prover::fits(const LE &e, int64_t lo, int64_t hi, const BasicBlock *B) {
  if (e.isConst())
    return e.c >= lo && e.c <= hi;
  return prove(e + -hi, B) && prove(e * -1 + lo, B);
}

// strips address arithmetic down to `to`
static bool offsetFrom(const Value *V, const Value *to, std::vector<const GEPOperator *> &via) {
  for (int i = 0; i < 10; i++) {
    if (V == to)
      return true;
    auto *G = dyn_cast<GEPOperator>(V);
    if (!G)
      return false;
    via.push_back(G);
    V = G->getPointerOperand();
  }
  return false;
}

// every offset it adds is a multiple of the result
static int64_t stepOf(const GEPOperator *G, const DataLayout &DL) {
  int64_t g = 0;
  for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
    if (StructType *ST = gti.getStructTypeOrNull())
      g = std::gcd(g, (int64_t)DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gti.getOperand())->getZExtValue()));
    else {
      int64_t sz = DL.getTypeAllocSize(gti.getIndexedType()).getFixedValue();
      if (auto *C = dyn_cast<ConstantInt>(gti.getOperand()))
        sz *= std::abs(C->getSExtValue());
      g = std::gcd(g, sz);
    }
  }
  return g;
}

// the number of steps walked once P has become `next`
bool Prover::walked(int k, const PHINode *P, const Value *next, LE &r) {
  int64_t sc = atoms[k].scale;
  r = lin(next) - (lin(P) - one(k) * sc);
  if (r.c % sc)
    return false;
  for (auto &p : r.t)
    if (p.second % sc)
      return false;
  r.c /= sc;
  for (auto &p : r.t)
    p.second /= sc;
  return true;
}

// whole numbers: sum of multiples of g, plus c, at most 0
void Prover::tighten(LE &e) {
  int64_t g = 0;
  for (auto &p : e.t)
    g = std::gcd(g, std::abs(p.second));
  if (g <= 1)
    return;
  for (auto &p : e.t)
    p.second /= g;
  e.c = e.c >= 0 ? (e.c + g - 1) / g : -(-e.c / g);
}

LE Prover::lin(const Value *V) {
  auto it = memo.find(V);
  if (it != memo.end())
    return it->second;
  LE self;
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    if (C->getBitWidth() <= 64) {
      self.c = C->getSExtValue();
      return memo[V] = self;
    }
  }
  if (isa<ConstantPointerNull>(V))
    return self;
  if (!busy.insert(V).second)
    return one(atomOf(V));
  self = one(atomOf(V));
  LE r = self;
  auto *I = dyn_cast<Instruction>(V);
  const BasicBlock *B = I ? I->getParent() : &F.getEntryBlock();
  auto isPtr = [&](const LE &e) {
    for (auto &p : e.t) {
      auto &a = atoms[p.first];
      if (a.field.empty() && a.v && (a.v->getType()->isPointerTy() || !a.as.empty()))
        return true;
    }
    return false;
  };
  auto within = [&](const LE &e, Type *T) {
    if (signedExact)
      if (auto *OB = dyn_cast<OverflowingBinaryOperator>(V); OB && OB->hasNoSignedWrap())
        return true;
    unsigned n = T->getIntegerBitWidth();
    if (n == 64) {
      if (isPtr(e))
        return true;
      return fits(e, -(1LL << 61), 1LL << 61, B);
    }
    if (n > 64 || n < 2)
      return false;
    return fits(e, -(1LL << (n - 1)), (1LL << (n - 1)) - 1, B);
  };
  if (auto *G = dyn_cast<GEPOperator>(V)) {
    LE base = lin(G->getPointerOperand());
    if (rootType && base.c == 0 && base.t.size() == 1 && base.t.begin()->second == 1) {
      std::string as = rootType(G);
      int a = base.t.begin()->first;
      if (!as.empty() && atoms[a].as.empty() && atoms[a].field.empty())
        base = one(typed(a, as));
    }
    r = base;
    for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
      if (StructType *ST = gti.getStructTypeOrNull()) {
        unsigned k = cast<ConstantInt>(gti.getOperand())->getZExtValue();
        r.c += DL.getStructLayout(ST)->getElementOffset(k);
      } else {
        int64_t sz = DL.getTypeAllocSize(gti.getIndexedType()).getFixedValue();
        r = r + lin(gti.getOperand()) * sz;
      }
    }
  } else if (auto *O = dyn_cast<BinaryOperator>(V); O && V->getType()->isIntegerTy()) {
    auto *A = O->getOperand(0);
    auto *C = dyn_cast<ConstantInt>(O->getOperand(1));
    switch (O->getOpcode()) {
    case Instruction::Add: {
      LE e = lin(A) + lin(O->getOperand(1));
      if (within(e, V->getType()))
        r = e;
      break;
    }
    case Instruction::Sub: {
      LE x = lin(A), y = lin(O->getOperand(1));
      LE e = x - y;
      if ((isPtr(x) && isPtr(y)) || within(e, V->getType()))
        r = e;
      break;
    }
    case Instruction::Mul:
    case Instruction::Shl: {
      const Value *X = A;
      if (!C && O->getOpcode() == Instruction::Mul) {
        C = dyn_cast<ConstantInt>(A);
        X = O->getOperand(1);
      }
      if (!C)
        break;
      int64_t k = C->getSExtValue();
      if (O->getOpcode() == Instruction::Shl) {
        if (k < 0 || k > 40)
          break;
        k = 1LL << k;
      }
      if (std::abs(k) > (1LL << 40))
        break;
      LE x = lin(X);
      // the factor must be bounded before it is scaled
      if (x.isConst() ? std::abs(x.c) < (1LL << 22) || std::abs(k) < (1LL << 20)
                      : (signedExact || fits(x, -(1LL << 40), 1LL << 40, B)) && std::abs(k) < (1LL << 20)) {
        LE e = x * k;
        if (within(e, V->getType()))
          r = e;
      }
      break;
    }
    case Instruction::And:
      if (C && C->getSExtValue() == (1LL << 48) - 1) {
        // the address inside a value that was just made from one
        const Value *X = A;
        while (auto *P = dyn_cast<BinaryOperator>(X)) {
          if ((P->getOpcode() == Instruction::Or || P->getOpcode() == Instruction::And) && isa<ConstantInt>(P->getOperand(1)))
            X = P->getOperand(0);
          else if (P->getOpcode() == Instruction::Or && isa<ConstantInt>(P->getOperand(0)))
            X = P->getOperand(1);
          else
            break;
        }
        if (auto *P2 = dyn_cast<PtrToIntInst>(X))
          r = lin(P2->getOperand(0));
      }
      break;
    default:;
    }
  } else if (auto *C = dyn_cast<CastInst>(V)) {
    auto *X = C->getOperand(0);
    if (isa<SExtInst>(C)) {
      if (!X->getType()->isIntegerTy(1))
        r = lin(X);
    } else if (isa<BitCastInst>(C) && C->getType()->isIntegerTy() == X->getType()->isIntegerTy() &&
               (X->getType()->isPointerTy() || X->getType()->isIntegerTy()))
      r = lin(X);
    else if (isa<PtrToIntInst>(C) || isa<IntToPtrInst>(C)) {
      if (DL.getTypeSizeInBits(X->getType()) == 64 && DL.getTypeSizeInBits(C->getType()) == 64)
        r = lin(X);
    } else if (isa<ZExtInst>(C)) {
      if (!X->getType()->isIntegerTy(1)) {
        LE e = lin(X);
        if (prove(e * -1, B))
          r = e;
      }
    } else if (isa<TruncInst>(C) && !C->getType()->isIntegerTy(1)) {
      LE e = lin(X);
      if (within(e, C->getType()))
        r = e;
    }
  } else if (auto *S = dyn_cast<SelectInst>(V); S && S->getType()->isPointerTy()) {
    // an address that may also be null: nothing is read through a null one
    bool compared = false;
    for (auto *U : S->users())
      compared |= isa<ICmpInst>(U);
    for (int k : {1, 2})
      if (!compared && isa<ConstantPointerNull>(S->getOperand(k)))
        r = lin(S->getOperand(3 - k));
  } else if (auto *P = dyn_cast<PHINode>(V)) {
    const Value *one1 = nullptr;
    bool same = true;
    for (auto &X : P->incoming_values()) {
      if (X == P)
        continue;
      if (one1 && one1 != X)
        same = false;
      one1 = X;
    }
    // an address that may also be null: nothing is read through a null one
    bool compared = !P->getType()->isPointerTy();
    for (auto *U : P->users())
      compared |= isa<ICmpInst>(U);
    if (!same && !compared && !LI.isLoopHeader(P->getParent())) {
      one1 = nullptr;
      same = true;
      for (auto &X : P->incoming_values()) {
        if (isa<ConstantPointerNull>(X))
          continue;
        if (one1 && one1 != X)
          same = false;
        one1 = X;
      }
    }
    if (same && one1)
      r = lin(one1);
    else if (P->getType()->isPointerTy() && LI.isLoopHeader(P->getParent())) {
      // an address that moves along: where it started and how far it got
      auto *L = LI.getLoopFor(P->getParent());
      const Value *start = nullptr;
      bool ok = true;
      for (unsigned i = 0; i < P->getNumIncomingValues() && ok; i++) {
        std::vector<const GEPOperator *> via;
        if (!L->contains(P->getIncomingBlock(i))) {
          if (start && start != P->getIncomingValue(i))
            ok = false;
          start = P->getIncomingValue(i);
        } else
          ok &= offsetFrom(P->getIncomingValue(i), P, via);
      }
      if (ok && start) {
        int64_t g = 0;
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
          std::vector<const GEPOperator *> via;
          if (!L->contains(P->getIncomingBlock(i)))
            continue;
          offsetFrom(P->getIncomingValue(i), P, via);
          for (auto *G : via)
            g = std::gcd(g, stepOf(G, DL));
        }
        int d = fieldOf(atomOf(P), "distance");
        atoms[d].scale = g > 1 ? g : 1;
        r = lin(start) + one(d) * atoms[d].scale;
      }
    }
  } else if (auto *Z = dyn_cast<FreezeInst>(V))
    r = lin(Z->getOperand(0));
  else if (auto *C2 = dyn_cast<CallBase>(V)) {
    StringRef text;
    if (calleeName(C2) == "strlen" && getConstantStringInfo(C2->getArgOperand(0), text)) {
      r = LE();
      r.c = text.size();
    }
  } else if (auto *X = dyn_cast<ExtractValueInst>(V)) {
    if (auto *A = FindInsertedValue(const_cast<Value *>(X->getAggregateOperand()), X->getIndices()))
      if (A != V)
        r = lin(A);
  } else if (auto *L = dyn_cast<LoadInst>(V)) {
    LE e;
    if (loaded && loaded(L, e))
      r = e;
  }
  busy.erase(V);
  return memo[V] = r;
}

// ------------------------------------------------------------------ facts
static const Value *boolInner(const Value *C, bool &neg) {
  const Value *V = C;
  neg = false;
  if (auto *I = dyn_cast<ICmpInst>(C); I && I->isEquality())
    if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)); K && K->isZero()) {
      V = I->getOperand(0);
      neg = I->getPredicate() == CmpInst::ICMP_EQ;
    }
  const Value *W = V;
  while (isa<ZExtInst>(W) || isa<TruncInst>(W) || isa<SExtInst>(W) || isa<FreezeInst>(W))
    W = cast<Instruction>(W)->getOperand(0);
  if (W != C && W->getType()->isIntegerTy(1) && V != W)
    return W;
  return nullptr;
}
void Prover::addCond(const Value *C, bool truth, Facts &Fs, const BasicBlock *B, int depth) {
  if (depth > 6)
    return;
  if (auto *K = dyn_cast<ConstantInt>(C)) {
    if (K->isOne() != truth) { // impossible
      LE e;
      e.c = 1;
      Fs.le0.push_back(e);
    }
    return;
  }
  bool neg;
  if (auto *W = boolInner(C, neg))
    return addCond(W, truth != neg, Fs, B, depth + 1);
  if (auto *O = dyn_cast<BinaryOperator>(C)) {
    if (O->getOpcode() == Instruction::Xor)
      if (auto *K = dyn_cast<ConstantInt>(O->getOperand(1)); K && K->isOne())
        return addCond(O->getOperand(0), !truth, Fs, B, depth + 1);
    if ((O->getOpcode() == Instruction::And && truth) || (O->getOpcode() == Instruction::Or && !truth)) {
      addCond(O->getOperand(0), truth, Fs, B, depth + 1);
      addCond(O->getOperand(1), truth, Fs, B, depth + 1);
    } else if (O->getOpcode() == Instruction::And || O->getOpcode() == Instruction::Or)
      Fs.truth.push_back({C, truth});
    return;
  }
  if (auto *S = dyn_cast<SelectInst>(C)) {
    auto *T = dyn_cast<ConstantInt>(S->getTrueValue()), *E = dyn_cast<ConstantInt>(S->getFalseValue());
    if (E && E->isZero() && truth) { // a && b
      addCond(S->getCondition(), true, Fs, B, depth + 1);
      addCond(S->getTrueValue(), true, Fs, B, depth + 1);
    } else if (T && T->isOne() && !truth) { // !(a || b)
      addCond(S->getCondition(), false, Fs, B, depth + 1);
      addCond(S->getFalseValue(), false, Fs, B, depth + 1);
    } else if ((E && E->isZero()) || (T && T->isOne()))
      Fs.truth.push_back({C, truth});
    return;
  }
  if (isa<PHINode>(C)) {
    Fs.truth.push_back({C, truth});
    return;
  }
  auto *I = dyn_cast<ICmpInst>(C);
  if (!I)
    return;
  if (moreFacts)
    moreFacts(C, truth, Fs.le0, Fs.ne0);
  auto *A = I->getOperand(0), *D = I->getOperand(1);
  if (!A->getType()->isIntegerTy() && !A->getType()->isPointerTy())
    return;
  if (A->getType()->isIntegerTy() && A->getType()->getIntegerBitWidth() > 64)
    return;
  bool ptr = A->getType()->isPointerTy();
  auto p = truth ? I->getPredicate() : I->getInversePredicate();
  LE a = lin(A), d = lin(D);
  const BasicBlock *at = I->getParent();
  auto lt = [&](const LE &x, const LE &y) { Fs.le0.push_back(x - y + 1); };
  auto le = [&](const LE &x, const LE &y) { Fs.le0.push_back(x - y); };
  switch (p) {
  case CmpInst::ICMP_EQ: le(a, d); le(d, a); return;
  case CmpInst::ICMP_NE: Fs.ne0.push_back(a - d); return;
  case CmpInst::ICMP_SLT: return lt(a, d);
  case CmpInst::ICMP_SLE: return le(a, d);
  case CmpInst::ICMP_SGT: return lt(d, a);
  case CmpInst::ICMP_SGE: return le(d, a);
  default:;
  }
  // unsigned: x < y (or <=)
  LE x = a, y = d;
  bool strict = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_UGT;
  if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE)
    std::swap(x, y);
  if (ptr)
    return strict ? lt(x, y) : le(x, y);
  if (prove(y * -1, at)) {
    // y >= 0: so is x, and the order is the ordinary one
    le(LE(), x);
    strict ? lt(x, y) : le(x, y);
  }
}
Prover::Facts Prover::factsAt(const BasicBlock *B) {
  auto it = domFacts.find(B);
  if (it != domFacts.end()) {
    if (domBusy.count(B))
      incomplete++;
    return it->second;
  }
  domFacts[B]; // while being computed: nothing
  domBusy.insert(B);
  Facts Fs;
  auto *N = DT.getNode(const_cast<BasicBlock *>(B));
  for (auto *D = N ? N->getIDom() : nullptr; D; D = D->getIDom()) {
    auto *X = D->getBlock();
    if (auto *Br = dyn_cast<BranchInst>(X->getTerminator()); Br && Br->isConditional()) {
      if (Br->getSuccessor(0) == Br->getSuccessor(1))
        continue;
      for (int s = 0; s < 2; s++)
        if (DT.dominates(BasicBlockEdge(X, Br->getSuccessor(s)), B))
          addCond(Br->getCondition(), s == 0, Fs, B);
    } else if (auto *Sw = dyn_cast<SwitchInst>(X->getTerminator())) {
      for (auto &c : Sw->cases())
        if (DT.dominates(BasicBlockEdge(X, c.getCaseSuccessor()), B)) {
          LE e = lin(Sw->getCondition()) + -c.getCaseValue()->getSExtValue();
          Fs.le0.push_back(e);
          Fs.le0.push_back(e * -1);
        }
    }
  }
  domBusy.erase(B);
  return domFacts[B] = Fs;
}
Prover::Facts Prover::edgeFacts(const BasicBlock *P, const BasicBlock *B) {
  Facts Fs = factsAt(P);
  if (auto *Br = dyn_cast<BranchInst>(P->getTerminator()); Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
    addCond(Br->getCondition(), Br->getSuccessor(0) == B, Fs, P);
  return Fs;
}

// ------------------------------------------------------------------ search
bool Prover::search(const LE &goal0, const std::vector<LE> &facts, int depth, std::set<LE> &seen) {
  LE goal = goal0;
  tighten(goal);
  if (goal.isConst())
    return goal.c <= 0;
  if (depth == 0 || ++work > budget)
    return false;
  if (!seen.insert(goal).second)
    return false;
  // eliminate one atom: the one with the fewest usable facts
  int best = -1, bestN = 1 << 30;
  for (auto &p : goal.t) {
    int n = 0;
    for (auto &f : facts) {
      auto k = f.t.find(p.first);
      if (k != f.t.end() && (k->second > 0) == (p.second > 0))
        n++;
    }
    if (n == 0)
      return false;
    if (n < bestN) {
      bestN = n;
      best = p.first;
    }
  }
  int64_t g = goal.t.at(best);
  for (auto &f : facts) {
    auto k = f.t.find(best);
    if (k == f.t.end() || (k->second > 0) != (g > 0))
      continue;
    int64_t d = std::gcd(std::abs(k->second), std::abs(g));
    int64_t mg = std::abs(k->second) / d, mf = std::abs(g) / d;
    int64_t t;
    if (mg > 4096 || mf > 4096 || !mulOk(goal.c, mg, t) || !mulOk(f.c, mf, t))
      continue;
    LE n = goal * mg - f * mf;
    if (std::abs(n.c) > (1LL << 62) || n.t.size() > 8)
      continue;
    if (search(n, facts, depth - 1, seen))
      return true;
  }
  return false;
}

static void typeRange(const Value *V, int64_t &lo, int64_t &hi, bool &have) {
  have = false;
  if (!V || !V->getType()->isIntegerTy())
    return;
  unsigned n = V->getType()->getIntegerBitWidth();
  if (n <= 32) {
    lo = n == 1 ? 0 : -(1LL << (n - 1));
    hi = n == 1 ? 1 : (1LL << (n - 1)) - 1;
    have = true;
  }
  if (auto *Z = dyn_cast<ZExtInst>(V)) {
    unsigned m = Z->getOperand(0)->getType()->getIntegerBitWidth();
    if (m <= 32) {
      lo = 0;
      hi = (1LL << m) - 1;
      have = true;
    }
  }
  if (auto *S = dyn_cast<SExtInst>(V)) {
    unsigned m = S->getOperand(0)->getType()->getIntegerBitWidth();
    if (m <= 32) {
      lo = -(1LL << (m - 1));
      hi = m == 1 ? 0 : (1LL << (m - 1)) - 1;
      have = true;
    }
  }
  if (auto *O = dyn_cast<BinaryOperator>(V))
    if (auto *C = dyn_cast<ConstantInt>(O->getOperand(1)); C && C->getBitWidth() <= 64) {
      int64_t c = C->getSExtValue();
      if (O->getOpcode() == Instruction::And && c >= 0) {
        lo = 0;
        hi = have ? std::min(hi, c) : c;
        have = true;
      } else if (O->getOpcode() == Instruction::URem && c > 0) {
        lo = 0;
        hi = c - 1;
        have = true;
      } else if (O->getOpcode() == Instruction::SRem && c > 0) {
        lo = -(c - 1);
        hi = c - 1;
        have = true;
      } else if (O->getOpcode() == Instruction::LShr && c > 1 && n == 64) {
        lo = 0;
        hi = (1LL << (64 - c)) - 1;
        have = true;
      } else if (O->getOpcode() == Instruction::LShr && c > 0 && n <= 32) {
        lo = 0;
        hi = (1LL << (n - c)) - 1;
        have = true;
      }
    }
}

const std::vector<LE> &Prover::invariants(int a) {
  auto it = inv.find(a);
  if (it != inv.end()) {
    if (invBusy.count(a)) {
      incomplete++;
      return it->second;
    }
    auto r = redo.find(a);
    if (r == redo.end() || (r->second > 4 && !(domBusy.empty() && invBusy.empty() && busy.empty())) || r->second > 12)
      return it->second;
  }
  auto &out = inv[a];
  const Atom A = atoms[a];
  auto *P = dyn_cast_or_null<PHINode>(A.v);
  if (!P || !(A.field.empty() || A.field == "distance") || !LI.isLoopHeader(P->getParent()))
    return out;
  auto *L = LI.getLoopFor(P->getParent());
  std::vector<LE> res = out;
  auto before = incomplete;
  invBusy.insert(a);
  auto have1 = [&](const LE &e) { return std::find(res.begin(), res.end(), e) != res.end(); };
  LE start;
  bool have = false, ok = true;
  for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
    if (!L->contains(P->getIncomingBlock(i))) {
      if (A.field == "distance") {
        have = true;
        continue;
      }
      LE s = lin(P->getIncomingValue(i));
      if (have && !(s == start))
        ok = false;
      start = s;
      have = true;
    }
  // a counter: no loop runs 2^29 times without leaving its array first
  if (A.field.empty() && P->getType()->isIntegerTy() && P->getType()->getIntegerBitWidth() >= 32 && have && ok) {
    int64_t c = 0;
    for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
      if (!L->contains(P->getIncomingBlock(i)))
        continue;
      auto *O = dyn_cast<BinaryOperator>(P->getIncomingValue(i));
      auto *K = O && O->getOperand(0) == P ? dyn_cast<ConstantInt>(O->getOperand(1)) : nullptr;
      int64_t k = K && O->getOpcode() == Instruction::Add ? K->getSExtValue() : K && O->getOpcode() == Instruction::Sub ? -K->getSExtValue() : 0;
      if (k == 0 || std::abs(k) > 64 || (c && k != c)) {
        c = 0;
        break;
      }
      c = k;
    }
    if (c) {
      if (fits(start, -(1LL << 29) - 1, (1LL << 29) + 1, P->getParent())) {
        int s = c > 0 ? 1 : -1;
        res.push_back((start - one(a)) * s);
        res.push_back(one(a) * s + -(1LL << 30));
        inv[a] = res;
      }
    }
  }
  auto attempt = [&](const LE &e) {
    if (have1(e))
      return true;
    if (!inductive(e, P->getParent()))
      return false;
    res.push_back(e);
    inv[a] = res;
    return true;
  };
  auto monotone = [&]() {
    LE self = one(a);
    return !have || !ok || attempt(start - self) || attempt(self - start);
  };
  bool mono = monotone();
  // tested against a bound that is fixed during the loop
  std::vector<const BasicBlock *> latches;
  for (auto *X : predecessors(P->getParent()))
    if (L->contains(X))
      latches.push_back(X);
  if (latches.size() == 1) {
    Facts N = edgeFacts(latches[0], P->getParent());
    unsigned tried = 0;
    if (A.field.empty()) {
      // what is known of the next value, whenever there is one
      LE next = lin(P->getIncomingValueForBlock(latches[0])), self = one(a);
      unsigned some = 0;
      auto inside = [&](const Value *V) {
        auto *J = dyn_cast<Instruction>(V);
        return J && L->contains(J->getParent());
      };
      if (!next.t.empty() && !(next == self))
        for (auto &e : N.le0) {
          if (some >= 4)
            break;
          for (int k : {1, -1}) {
            LE rest = e - next * k;
            if (rest.t.size() > 1 || dependsOn(rest, inside))
              continue;
            some++;
            attempt(self * k + rest);
          }
        }
    }
    for (auto &e : N.ne0)
      if (e.t.count(a) && tried < 4) {
        tried++;
        if (!attempt(e))
          attempt(e * -1);
      }
  }
  if (!mono && !res.empty())
    monotone();
  // counters that move together
  auto stepsOf = [&](const PHINode *Q, LE &self, LE &st, LE &step, int var) {
    if (latches.size() != 1)
      return false;
    auto *V = Q->getIncomingValueForBlock(latches[0]);
    if (Q->getType()->isPointerTy()) {
      auto it = special.find(std::to_string(atomOf(Q)) + ".distance");
      LE e;
      lin(Q);
      it = special.find(std::to_string(atomOf(Q)) + ".distance");
      if (it == special.end() || !walked(it->second, Q, V, e))
        return false;
      self = one(it->second);
      st = LE();
      step = e - self;
    } else {
      self = lin(Q);
      if (self.t.size() != 1 || self.c || self.t.begin()->second != 1)
        return false;
      step = lin(V) - self;
      bool first = true;
      for (unsigned i = 0; i < Q->getNumIncomingValues(); i++)
        if (!L->contains(Q->getIncomingBlock(i))) {
          LE x = lin(Q->getIncomingValue(i));
          if (!first && !(x == st))
            return false;
          st = x;
          first = false;
        }
    }
    return step.isConst() && step.c != 0 && (var < 0 || (self.t.begin()->first == var));
  };
  LE self0, st0, step0;
  if (stepsOf(P, self0, st0, step0, a))
    for (auto &Q : P->getParent()->phis()) {
      LE self1, st1, step1;
      if (&Q == P || (!Q.getType()->isIntegerTy(32) && !Q.getType()->isIntegerTy(64) && !Q.getType()->isPointerTy()) ||
          !stepsOf(&Q, self1, st1, step1, -1))
        continue;
      LE d = (self0 - st0) * step1.c - (self1 - st1) * step0.c;
      if (!have1(d)) {
        res.push_back(d);
        res.push_back(d * -1);
      }
    }
  invBusy.erase(a);
  if (incomplete != before)
    redo[a]++;
  else
    redo.erase(a);
  return inv[a] = res;
}

// the smaller or larger of two values
void Prover::merged(int a, std::vector<LE> &facts, std::set<int> &todo) {
  auto *V = atoms[a].v;
  if (!V || !V->getType()->isIntegerTy() || V->getType()->isIntegerTy(1) || mergeBusy.count(a) || mergeBusy.size() > 2)
    return;
  auto it = mergeFacts.find(a);
  if (it == mergeFacts.end()) {
    std::vector<LE> out;
    std::vector<std::pair<LE, Facts>> ways;
    mergeBusy.insert(a);
    if (auto *S = dyn_cast<SelectInst>(V)) {
      for (bool t : {true, false}) {
        Facts N = factsAt(S->getParent());
        addCond(S->getCondition(), t, N, S->getParent());
        ways.push_back({lin(t ? S->getTrueValue() : S->getFalseValue()), N});
      }
    } else if (auto *P = dyn_cast<PHINode>(V); P && P->getNumIncomingValues() == 2 && !LI.isLoopHeader(P->getParent()))
      for (int i = 0; i < 2; i++)
        ways.push_back({lin(P->getIncomingValue(i)), edgeFacts(P->getIncomingBlock(i), P->getParent())});
    auto before = incomplete;
    LE s = one(a);
    for (size_t i = 0; i < ways.size(); i++) {
      auto &x = ways[i].first, &y = ways[1 - i].first;
      for (int k : {1, -1})
        // x bounds it if it bounds the other value there
        if (direct((y - x) * k, ways[1 - i].second))
          out.push_back((s - x) * k);
    }
    mergeBusy.erase(a);
    if (incomplete != before && domBusy.size() + invBusy.size() + busy.size()) {
      facts.insert(facts.end(), out.begin(), out.end());
      return;
    }
    it = mergeFacts.insert({a, out}).first;
  }
  facts.insert(facts.end(), it->second.begin(), it->second.end());
}

void Prover::closure(const std::vector<LE> &goals, std::vector<LE> &facts) {
  std::set<int> todo, done;
  for (auto &g : goals)
    for (auto &p : g.t)
      todo.insert(p.first);
  auto add = [&](LE e) { facts.push_back(std::move(e)); };
  int sums = 0;
  struct Sum {
    int a;
    LE e;
    int64_t lim;
    std::vector<LE> parts; // of a sum of two: it is exact when all three are not negative
  };
  std::vector<Sum> pending; // could wrap where they are computed, but not here
  auto settle = [&]() {
    for (size_t i = 0; i < pending.size();) {
      auto q = pending[i];
      std::set<LE> s1, s2;
      auto positive = [&](const LE &e) {
        std::set<LE> s;
        return search(e * -1, facts, 3, s);
      };
      if ((q.parts.size() == 2 && positive(one(q.a)) && positive(q.parts[0]) && positive(q.parts[1])) ||
          (search(q.e + -q.lim, facts, 5, s1) && search(q.e * -1 + -q.lim, facts, 5, s2))) {
        add(one(q.a) - q.e);
        add(q.e - one(q.a));
        pending.erase(pending.begin() + i);
        i = 0;
      } else
        i++;
    }
  };
  for (int round = 0; round < 5 && !todo.empty(); round++) {
    std::set<int> now;
    now.swap(todo);
    for (int a : now) {
      if (!done.insert(a).second)
        continue;
      Atom A = atoms[a];
      if (A.field.empty() && A.as.empty() && A.v) {
        int64_t lo, hi;
        bool have;
        typeRange(A.v, lo, hi, have);
        LE s = one(a);
        if (have) {
          add(s + -hi);
          add(s * -1 + lo);
        }
        if (auto *O = dyn_cast<BinaryOperator>(A.v);
            O && (O->getOpcode() == Instruction::Add || O->getOpcode() == Instruction::Sub) && O->getType()->isIntegerTy() &&
            O->getType()->getIntegerBitWidth() >= 32 && ++sums < 12) {
          LE x = lin(O->getOperand(0)), y = lin(O->getOperand(1));
          LE e = O->getOpcode() == Instruction::Add ? x + y : x - y;
          pending.push_back({a, e, O->getType()->getIntegerBitWidth() == 32 ? (1LL << 31) - 1 : 1LL << 61, {}});
          if (O->getOpcode() == Instruction::Add)
            pending.back().parts = {x, y};
          for (auto &p : e.t)
            if (!done.count(p.first))
              todo.insert(p.first);
        }
        if (auto *T = dyn_cast<SExtInst>(A.v); T && !T->getOperand(0)->getType()->isIntegerTy(1)) {
          // seen while the operand was still being worked out
          LE e = lin(T->getOperand(0));
          add(s - e);
          add(e - s);
          for (auto &p : e.t)
            if (!done.count(p.first))
              todo.insert(p.first);
        }
        if (auto *T = dyn_cast<TruncInst>(A.v); T && T->getType()->isIntegerTy(32) && ++sums < 12) {
          LE e = lin(T->getOperand(0));
          pending.push_back({a, e, (1LL << 31) - 1, {}});
          for (auto &p : e.t)
            if (!done.count(p.first))
              todo.insert(p.first);
        }
        if (auto *O = dyn_cast<BinaryOperator>(A.v))
          if (auto *C = dyn_cast<ConstantInt>(O->getOperand(1)); C && C->getBitWidth() <= 64) {
            int64_t c = C->getSExtValue();
            bool div = (O->getOpcode() == Instruction::SDiv || O->getOpcode() == Instruction::UDiv) && c > 0;
            if ((O->getOpcode() == Instruction::AShr || O->getOpcode() == Instruction::LShr) && c >= 0 && c < 31) {
              div = true;
              c = 1LL << c;
            }
            if (div && c <= 65536) {
              LE x = lin(O->getOperand(0));
              if (prove(x * -1, O->getParent())) {
                add(s * -1);
                add(s * c - x);
                add(x - s * c + -(c - 1));
              }
            }
            if ((O->getOpcode() == Instruction::And && c >= 0) || O->getOpcode() == Instruction::URem) {
              LE x = lin(O->getOperand(0));
              if (prove(x * -1, O->getParent()))
                add(s - x);
            }
          }
        if (auto *Fp = dyn_cast<FPToSIInst>(A.v))
          if (auto *M = dyn_cast<BinaryOperator>(Fp->getOperand(0)); M && M->getOpcode() == Instruction::FMul)
            if (auto *C = dyn_cast<ConstantFP>(M->getOperand(1)))
              if (auto *Sf = dyn_cast<SIToFPInst>(M->getOperand(0))) {
                double k = C->getValueAPF().convertToDouble();
                double k16 = k * 16;
                if (k >= 0 && k <= 64 && k16 == (int64_t)k16) {
                  LE x = lin(Sf->getOperand(0));
                  if (prove(x * -1, Fp->getParent()) && prove(x + -(1LL << 30), Fp->getParent()) && k < 2) {
                    int64_t n = (int64_t)k16;
                    add(s * 16 - x * n);
                    add(x * n - s * 16 + -15);
                  }
                }
              }
      }
      if (A.field.empty() && A.v && (!A.as.empty() || isa<AllocaInst>(A.v) || isa<GlobalVariable>(A.v))) {
        // an address of memory
        add(one(a) * -1 + 4096);
        add(one(a) + -(1LL << 47));
      } else if (A.field.empty() && A.v && A.v->getType()->isPointerTy()) {
        add(one(a) * -1);
        add(one(a) + -(1LL << 47));
      }
      if (about)
        about(a, facts);
      if (A.field.empty() && A.as.empty())
        merged(a, facts, todo);
      for (auto &e : invariants(a))
        add(e);
    }
    if (round)
      settle();
    // atoms of the facts that speak about those seen so far
    for (auto &f : facts) {
      bool rel = false;
      for (auto &p : f.t)
        rel |= done.count(p.first) > 0;
      if (rel)
        for (auto &p : f.t)
          if (!done.count(p.first))
            todo.insert(p.first);
    }
  }
  settle();
}

bool Prover::direct(const LE &goal, const Facts &Fs) {
  if (goal.isConst() && goal.c <= 0)
    return true;
  std::vector<LE> facts = Fs.le0;
  for (auto &e : Fs.le0)
    if (e.isConst() && e.c > 0)
      return true; // not reached
  for (auto &e : Fs.ne0)
    if (e.isConst() && e.c == 0)
      return true;
  if (goal.isConst()) {
    // holds only if the conditions exclude one another
    std::vector<LE> from = Fs.le0;
    std::sort(from.begin(), from.end());
    from.erase(std::unique(from.begin(), from.end()), from.end());
    if (from.size() > 12)
      return false;
    closure(from, facts);
    for (auto &e : from) {
      std::set<LE> seen;
      if (!e.isConst() && search(e * -1 + 1, facts, 4, seen))
        return true;
    }
    return false;
  }
  closure({goal}, facts);
  // x != 0 and x <= 0 (or x >= 0) sharpen
  for (auto &e : Fs.ne0) {
    std::set<LE> seen;
    if (search(e, facts, 3, seen))
      facts.push_back(e + 1);
    else {
      std::set<LE> seen2;
      if (search(e * -1, facts, 3, seen2))
        facts.push_back(e * -1 + 1);
    }
  }
  for (auto &f : facts)
    tighten(f);
  std::sort(facts.begin(), facts.end());
  facts.erase(std::unique(facts.begin(), facts.end()), facts.end());
  for (int d : {1, 3, 6}) {
    std::set<LE> seen;
    if (search(goal, facts, d, seen))
      return true;
  }
  // the newest conditions may exclude this way
  int n = 0;
  for (auto &e : Fs.le0) {
    if (e.t.size() > 2 || e.isConst())
      continue;
    if (++n > 4)
      break;
    std::vector<LE> more = facts;
    closure({e}, more);
    std::set<LE> seen;
    if (search(e * -1 + 1, more, 3, seen))
      return true;
  }
  return false;
}

LE Prover::substitute(const LE &e, const std::map<int, LE> &m) {
  LE r;
  r.c = e.c;
  for (auto &p : e.t) {
    auto it = m.find(p.first);
    if (it == m.end())
      r = r + one(p.first) * p.second;
    else
      r = r + it->second * p.second;
  }
  return r;
}
bool Prover::dependsOn(const LE &e, const std::function<bool(const Value *)> &bad) {
  for (auto &p : e.t)
    if (atoms[p.first].v && bad(atoms[p.first].v))
      return true;
  return false;
}

// cases: the ways control reached the place where a value was merged
bool Prover::split(const BasicBlock *B, const std::vector<LE> &exprs, const Facts &Fs,
                   const std::function<bool(const std::vector<LE> &, const Facts &)> &leaf, int depth) {
  if (++work > budget)
    return false;
  for (auto &e : Fs.le0)
    if (e.isConst() && e.c > 0)
      return true;
  for (auto &e : Fs.ne0)
    if (e.isConst() && e.c == 0)
      return true;
  if (leaf(exprs, Fs))
    return true;
  if (depth == 0)
    return false;
  // candidate merges, the latest first
  std::vector<const Instruction *> cand;
  auto consider = [&](const Value *V) {
    if (auto *I = dyn_cast_or_null<Instruction>(V); I && (isa<PHINode>(I) || isa<SelectInst>(I)))
      cand.push_back(I);
  };
  for (auto &e : exprs)
    for (auto &p : e.t) {
      consider(atoms[p.first].v);
      if (auto *X = atoms[p.first].at; X && X != &F.getEntryBlock())
        cand.push_back(&X->front());
    }
  for (auto &t : Fs.truth)
    if (isa<PHINode>(t.first))
      consider(t.first);
  if (cand.empty()) {
    // one of two conditions holds
    for (size_t i = 0; i < Fs.truth.size(); i++) {
      auto t = Fs.truth[i];
      auto *I = dyn_cast<Instruction>(t.first);
      if (!I || isa<PHINode>(I))
        continue;
      for (int s = 0; s < 2; s++) {
        Facts N = Fs;
        N.truth.erase(N.truth.begin() + i);
        if (auto *Sl = dyn_cast<SelectInst>(I)) {
          bool orForm = isa<ConstantInt>(Sl->getTrueValue()) && cast<ConstantInt>(Sl->getTrueValue())->isOne();
          if (s == 0)
            addCond(Sl->getCondition(), orForm, N, B);
          else
            addCond(orForm ? Sl->getFalseValue() : Sl->getTrueValue(), t.second, N, B);
        } else
          addCond(I->getOperand(s), t.second, N, B);
        if (!split(B, exprs, N, leaf, depth - 1))
          return false;
      }
      return true;
    }
    // what the conditions say about the goal, or, without one, about the place
    std::set<int> mine;
    for (auto &e : exprs)
      for (auto &p : e.t)
        mine.insert(p.first);
    for (auto &e : Fs.le0) {
      bool rel = mine.empty();
      for (auto &p : e.t)
        rel |= mine.count(p.first) > 0;
      for (auto &p : e.t)
        if (rel && atoms[p.first].field.empty() && atoms[p.first].as.empty())
          if (auto *Ph = dyn_cast_or_null<PHINode>(atoms[p.first].v); Ph && !LI.isLoopHeader(Ph->getParent()))
            cand.push_back(Ph);
    }
    if (cand.empty())
      return false;
  }
  // prefer merges of the expressions; among them the one dominated by all others
  const Instruction *C = cand[0];
  size_t nExpr = cand.size() - Fs.truth.size();
  (void)nExpr;
  for (auto *X : cand)
    if (X != C && DT.dominates(C->getParent(), X->getParent()))
      C = X;
  if (auto *S = dyn_cast<SelectInst>(C)) {
    int a = atomOf(S);
    for (int s = 0; s < 2; s++) {
      std::map<int, LE> m;
      m[a] = lin(s ? S->getFalseValue() : S->getTrueValue());
      Facts N;
      for (auto &e : Fs.le0)
        N.le0.push_back(substitute(e, m));
      for (auto &e : Fs.ne0)
        N.ne0.push_back(substitute(e, m));
      for (auto &t : Fs.truth)
        if (t.first != S)
          N.truth.push_back(t);
      addCond(S->getCondition(), s == 0, N, S->getParent());
      std::vector<LE> ex;
      for (auto &e : exprs)
        ex.push_back(substitute(e, m));
      if (!split(B, ex, N, leaf, depth - 1))
        return false;
    }
    return true;
  }
  auto *M = C->getParent();
  auto *L = LI.isLoopHeader(M) ? LI.getLoopFor(M) : nullptr;
  std::vector<const BasicBlock *> preds(pred_begin(M), pred_end(M));
  std::sort(preds.begin(), preds.end());
  preds.erase(std::unique(preds.begin(), preds.end()), preds.end());
  for (auto *P : preds) {
    if (!DT.isReachableFromEntry(P))
      continue;
    bool back = L && L->contains(P);
    std::map<int, LE> m;
    std::map<const Value *, const Value *> in;
    for (auto &ph : M->phis()) {
      const Value *V = ph.getIncomingValueForBlock(P);
      in[&ph] = V;
      if (ids.count(&ph)) {
        int pid = ids[&ph];
        m[pid] = lin(V);
        // the same address seen as a structure, the distance walked
        for (size_t k = 0; k < atoms.size(); k++)
          if (atoms[k].of == pid) {
            if (atoms[k].field == "distance") {
              LE e; // start + distance
              m[(int)k] = walked((int)k, &ph, V, e) ? e : one(fieldOf(atomOf(V), "walk"));
            } else if (!atoms[k].as.empty()) {
              LE v = lin(V);
              if (v.c == 0 && v.t.size() == 1 && v.t.begin()->second == 1) {
                int va = v.t.begin()->first;
                m[(int)k] = atoms[va].as.empty() && atoms[va].field.empty() ? one(typed(va, atoms[k].as)) : v;
              } else
                m[(int)k] = v;
            } else if (!atoms[k].field.empty() && !atoms[k].at) {
              LE v = lin(V);
              if (v.c == 0 && v.t.size() == 1 && v.t.begin()->second == 1)
{
                int nb = atoms[v.t.begin()->first].as.empty() ? v.t.begin()->first : atoms[v.t.begin()->first].of;
                std::string fl = atoms[k].field;
                m[(int)k] = fieldOfBase ? fieldOfBase(nb, fl) : one(fieldOf(nb, fl));
              }
            }
          }
      }
    }
    if (fieldAtEnd)
      for (size_t k = 0; k < atoms.size(); k++)
        if (atoms[k].at == M) {
          // the base may itself be merged here
          int b = atoms[k].of;
          std::string fl = atoms[k].field;
          LE bv = m.count(b) ? m[b] : one(b);
          if (auto *ph = dyn_cast_or_null<PHINode>(atoms[b].v); ph && ph->getParent() == M && !m.count(b)) {
            LE v = lin(ph->getIncomingValueForBlock(P));
            bv = v;
          }
          if (bv.c == 0 && bv.t.size() == 1 && bv.t.begin()->second == 1) {
            int nb = bv.t.begin()->first;
            if (atoms[nb].of >= 0 && !atoms[nb].as.empty())
              nb = atoms[nb].of;
            m[(int)k] = fieldAtEnd(nb, fl, P);
          }
        }
    auto stale = [&](const Value *V) {
      // belongs to the iteration after this edge
      auto *I = dyn_cast<Instruction>(V);
      return back && I && L->contains(I->getParent()) && !(isa<PHINode>(I) && I->getParent() == M);
    };
    Facts N = edgeFacts(P, M);
    for (auto &e : Fs.le0)
      if (!dependsOn(e, stale))
        N.le0.push_back(substitute(e, m));
    for (auto &e : Fs.ne0)
      if (!dependsOn(e, stale))
        N.ne0.push_back(substitute(e, m));
    for (auto &t : Fs.truth) {
      auto f = in.find(t.first);
      if (f != in.end())
        addCond(f->second, t.second, N, P);
      else if (!stale(t.first))
        N.truth.push_back(t);
    }
    std::vector<LE> ex;
    // values of the later iteration become unknowns
    for (auto &e : exprs)
      for (auto &p : e.t) {
        Atom A = atoms[p.first];
        if (!A.v || !stale(A.v) || m.count(p.first))
          continue;
        Atom N2;
        if (A.v->getType()->isPointerTy() && A.field.empty() && A.as.empty() && !isa<PHINode>(A.v) && !isa<SelectInst>(A.v))
          N2.v = A.v;
        else if (A.v->getType()->isPointerTy() && A.field.empty())
          return false;
        atoms.push_back(N2);
        m[p.first] = one(atoms.size() - 1);
      }
    for (auto &e : exprs)
      ex.push_back(substitute(e, m));
    if (!split(P, ex, N, leaf, depth - 1))
      return false;
  }
  return true;
}

bool Prover::inductive(const LE &g, const BasicBlock *H) {
  auto *L = LI.isLoopHeader(H) ? LI.getLoopFor(H) : nullptr;
  if (!L || ++work > budget)
    return false;
  // only values fixed during the loop, and those merged at its head
  for (auto &p : g.t) {
    auto *I = dyn_cast_or_null<Instruction>(atoms[p.first].v);
    if (I && L->contains(I->getParent()) && !(isa<PHINode>(I) && I->getParent() == H))
      return false;
    if (I && !L->contains(I->getParent()) && !DT.dominates(I->getParent(), H))
      return false;
  }
  std::vector<const BasicBlock *> preds(pred_begin(H), pred_end(H));
  for (auto *P : preds) {
    if (!DT.isReachableFromEntry(P))
      continue;
    bool back = L->contains(P);
    std::map<int, LE> m;
    for (auto &ph : H->phis())
      if (ids.count(&ph)) {
        m[ids[&ph]] = lin(ph.getIncomingValueForBlock(P));
        int k = -1;
        auto it = special.find(std::to_string(ids[&ph]) + ".distance");
        if (it != special.end())
          k = it->second;
        if (k >= 0) {
          LE e;
          if (!walked(k, &ph, ph.getIncomingValueForBlock(P), e))
            return false;
          m[k] = e;
        }
      }
    Facts N = edgeFacts(P, H);
    if (back)
      N.le0.push_back(g);
    if (!proveWith({substitute(g, m)}, N, P, 3))
      return false;
  }
  return true;
}

bool Prover::proveWith(std::vector<LE> goals, Facts Fs, const BasicBlock *B, int depth) {
  return split(B, goals, Fs, [&](const std::vector<LE> &gs, const Facts &N) {
    for (auto &g : gs)
      if (direct(g, N))
        return true;
    static const char *dbg = getenv("CORAN_DEBUG2");
    if (dbg && F.getName() == dbg) {
      errs() << "with";
      for (auto &g : gs)
        errs() << " " << str(g);
      errs() << " at " << B->getName() << "\n";
      for (auto &f : N.le0)
        errs() << "   " << str(f) << " <= 0\n";
    }
    return false;
  }, depth);
}

LE Prover::dereferenced(LE e) {
  for (int n = 0; n < 8; n++) {
    const Value *other = nullptr;
    int a = -1;
    for (auto &p : e.t) {
      auto *V = atoms[p.first].v;
      if (!V || p.second != 1 || !atoms[p.first].field.empty() || !V->getType()->isPointerTy())
        continue;
      const Value *o = nullptr;
      bool one = true, null = false;
      auto arm = [&](const Value *x) {
        if (isa<ConstantPointerNull>(x))
          null = true;
        else if (o && o != x)
          one = false;
        else
          o = x;
      };
      if (auto *S = dyn_cast<SelectInst>(V)) {
        arm(S->getTrueValue());
        arm(S->getFalseValue());
      } else if (auto *P = dyn_cast<PHINode>(V); P && !LI.isLoopHeader(P->getParent())) {
        for (auto &x : P->incoming_values())
          arm(x.get());
      }
      if (null && one && o) {
        a = p.first;
        other = o;
        break;
      }
    }
    if (a < 0)
      break;
    LE r = e;
    r.t.erase(a);
    e = r + lin(other);
  }
  return e;
}
bool Prover::prove(const LE &goal, const BasicBlock *B) {
  if (goal.isConst())
    return goal.c <= 0;
  auto key = std::make_pair(goal, B);
  auto it = proved.find(key);
  if (it != proved.end())
    return it->second == 1;
  proved[key] = 0;
  bool ok = false;
  Facts Fs = factsAt(B);
  if (direct(goal, Fs))
    ok = true;
  else {
    std::set<const BasicBlock *> heads;
    for (auto &p : goal.t)
      if (auto *P = dyn_cast_or_null<PHINode>(atoms[p.first].v); P && LI.isLoopHeader(P->getParent()))
        heads.insert(P->getParent());
    for (auto *H : heads)
      if (!ok && inductive(goal, H))
        ok = true;
    if (!ok)
      ok = proveWith({goal}, Fs, B, 4);
  }
  proved[key] = ok ? 1 : 0;
  return ok;
}
bool Prover::proveAny(const std::vector<LE> &goals, const BasicBlock *B) {
  for (auto &g : goals)
    if (prove(g, B))
      return true;
  return proveWith(goals, factsAt(B), B, 5);
}

bool Prover::byCases(const std::vector<LE> &exprs, const BasicBlock *B,
                     const std::function<bool(const std::vector<LE> &)> &ready,
                     const std::function<std::vector<std::vector<LE>>(const std::vector<LE> &)> &goals) {
  work = 0;
  return split(B, exprs, factsAt(B), [&](const std::vector<LE> &ex, const Facts &N) {
    if (!ready(ex))
      return false;
    for (auto &alt : goals(ex)) {
      bool all = true;
      for (auto &g : alt) {
        if (direct(g, N))
          continue;
        bool ok = false;
        std::set<const BasicBlock *> heads;
        for (auto &p : g.t)
          if (auto *P = dyn_cast_or_null<PHINode>(atoms[p.first].v); P && LI.isLoopHeader(P->getParent()))
            heads.insert(P->getParent());
        for (auto *H : heads)
          ok = ok || inductive(g, H);
        // bounded by something chosen earlier (a length decided before a loop):
        // what remains is decided where that was chosen
        for (auto &f : N.le0) {
          if (ok)
            break;
          LE r = g - f;
          if (r.t.size() > g.t.size() || r.t.empty())
            continue;
          bool chosen = false;
          for (auto &p : r.t)
            if (auto *P = dyn_cast_or_null<PHINode>(atoms[p.first].v);
                P && !g.t.count(p.first) && !LI.isLoopHeader(P->getParent()) && DT.dominates(P->getParent(), B))
              chosen = chosen || proveWith({r}, factsAt(P->getParent()), P->getParent(), 3);
          ok = chosen;
        }
        if (!ok) {
          all = false;
          break;
        }
      }
      if (all)
        return true;
    }
    static const char *dbg = getenv("CORAN_DEBUG");
    if (dbg && F.getName() == dbg) {
      for (auto &alt : goals(ex)) {
        for (auto &g : alt)
          errs() << "goal " << str(g) << " <= 0" << (direct(g, N) ? " ok" : " FAILS") << "\n";
        errs() << "--\n";
      }
      for (auto &f : N.le0)
        errs() << "   " << str(f) << " <= 0\n";
      for (auto &f : N.ne0)
        errs() << "   " << str(f) << " != 0\n";
      for (auto &t : N.truth)
        errs() << "   " << *t.first << " is " << t.second << "\n";
    }
    return false;
  }, 7);
}
