// B01, B02, G05 (room): where an access lands. For every address an operation
// computes from a buffer of fixed size, an object that carries its length, or a
// block it just obtained, the distance from the start is written as a linear
// expression, and proved to lie inside from the conditions on the way there.
#include "bounds.h"
#include "frames.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <chrono>

namespace {
const int64_t MAXLEN = 1LL << 29;

std::string plainName(StringRef n) {
  if (n.starts_with("struct."))
    n = n.drop_front(7);
  auto p = n.rfind('.');
  if (p != StringRef::npos && p + 1 < n.size() && all_of(n.drop_front(p + 1), isDigit))
    n = n.take_front(p);
  return n.str();
}

struct Sized { // a structure that carries its own length
  std::string name;
  int64_t data = -1;      // where the elements start
  int64_t elem = 1;
  std::string count;      // field with the number of elements that fit
  int64_t extra = 0;      // more bytes (terminator)
  std::string live;       // field with the number of elements present, "" same
  int64_t countOff = -1, liveOff = -1;
};
struct FieldRef {
  const Sized *S = nullptr;
  std::string field;
};

struct Cx {
  Function &F;
  const DataLayout &DL;
  Prover P;
  const std::vector<Sized> &types;
  const std::map<std::string, std::set<const Function *>> &writers; // field -> functions that may write it
  const std::map<std::string, std::vector<std::pair<int64_t, int64_t>>> &argRange;
  // counters that index an array: variable -> elements of the array
  std::map<const GlobalVariable *, int64_t> counters;
  std::set<const PHINode *> bounded;

  const Sized *sized(const std::string &n) const {
    for (auto &t : types)
      if (t.name == n)
        return &t;
    return nullptr;
  }
  // the field a pointer names
  FieldRef fieldRef(const Value *Ptr, const Value *&base) const {
    FieldRef r;
    int64_t off = 0;
    auto *G = dyn_cast<GEPOperator>(Ptr);
    if (!G || !isa<StructType>(G->getSourceElementType())) {
      // the first field: no arithmetic
      std::vector<const User *> users(Ptr->user_begin(), Ptr->user_end());
      for (size_t i = 0; i < users.size() && users.size() < 200; i++)
        if (isa<PHINode>(users[i]) || isa<SelectInst>(users[i]))
          for (auto *U : users[i]->users())
            if (std::find(users.begin(), users.end(), U) == users.end())
              users.push_back(U);
      for (auto *U : users)
        if (auto *G2 = dyn_cast<GEPOperator>(U); G2 && (G2->getPointerOperand() == Ptr || isa<PHINode>(G2->getPointerOperand()) || isa<SelectInst>(G2->getPointerOperand())))
          if (auto *ST = dyn_cast<StructType>(G2->getSourceElementType()); ST && ST->hasName())
            if (auto *S = sized(plainName(ST->getName()))) {
              if (S->countOff == 0)
                r = {S, S->count};
              else if (S->liveOff == 0)
                r = {S, S->live};
              if (r.S) {
                base = Ptr;
                return r;
              }
            }
      return r;
    }
    auto *ST = dyn_cast<StructType>(G->getSourceElementType());
    if (!ST || !ST->hasName())
      return r;
    auto *S = sized(plainName(ST->getName()));
    if (!S)
      return r;
    APInt a(64, 0);
    if (!G->accumulateConstantOffset(DL, a))
      return r;
    off = a.getSExtValue();
    base = G->getPointerOperand();
    if (off == S->countOff)
      r = {S, S->count};
    else if (off == S->liveOff)
      r = {S, S->live};
    return r;
  }
  static const CallBase *allocation(const Value *V, const DataLayout &DL) {
    auto *C = dyn_cast<CallBase>(V);
    if (!C)
      return nullptr;
    std::string n = calleeName(C);
    if (n == "malloc" || n == "calloc" || n == "realloc" || n == "newObj" || n == "gcAlloc")
      return C;
    return nullptr;
  }
  LE allocSize(const CallBase *C) {
    std::string n = calleeName(C);
    if (n == "malloc")
      return P.lin(C->getArgOperand(0));
    if (n == "realloc" || n == "gcAlloc")
      return P.lin(C->getArgOperand(1));
    if (n == "newObj")
      return P.lin(C->getArgOperand(2));
    LE a = P.lin(C->getArgOperand(0)), b = P.lin(C->getArgOperand(1));
    if (a.isConst())
      return b * a.c;
    if (b.isConst())
      return a * b.c;
    return P.one(P.atomOf(nullptr));
  }
  bool mutableField(const Sized *S, const std::string &f) const { return f == S->live; }
  const Sized *sizedOfField(const std::string &f) const {
    for (auto &t : types)
      if (f == t.name + "." + t.count || f == t.name + "." + t.live)
        return &t;
    return nullptr;
  }
  // field of a base that does not change after creation
  LE fixedField(int base, const std::string &f) {
    if (auto *V = P.atoms[base].v)
      if (allocation(V, DL)) {
        const StoreInst *one = nullptr;
        int n = 0;
        for (auto *S : storesTo(V, f)) {
          one = S;
          n++;
        }
        if (n == 1)
          return P.lin(one->getValueOperand());
      }
    return P.one(P.fieldOf(base, f));
  }
  std::vector<const StoreInst *> storesTo(const Value *base, const std::string &f) {
    std::vector<const StoreInst *> v;
    for (auto *U : base->users())
      if (auto *S0 = dyn_cast<StoreInst>(U); S0 && S0->getPointerOperand() == base) {
        const Value *b = nullptr;
        auto r = fieldRef(base, b);
        if (r.S && r.S->name + "." + r.field == f)
          v.push_back(S0);
      } else if (auto *G = dyn_cast<GEPOperator>(U)) {
        const Value *b = nullptr;
        auto r = fieldRef(G, b);
        if (r.S && b == base && r.S->name + "." + r.field == f)
          for (auto *U2 : G->users())
            if (auto *S = dyn_cast<StoreInst>(U2); S && S->getPointerOperand() == G)
              v.push_back(S);
      }
    return v;
  }
  static bool fresh(const Value *V) { return V && (isa<AllocaInst>(V) || allocation(V, *(const DataLayout *)nullptr)); }
  bool noAlias(const Value *a, const Value *b) const {
    if (a == b)
      return false;
    bool fa = fresh(a), fb = fresh(b);
    auto older = [](const Value *V) { return isa<Argument>(V) || isa<LoadInst>(V) || isa<GlobalVariable>(V) || isa<CallBase>(V); };
    if (fa && (fb || older(b)))
      return true;
    if (fb && older(a))
      return true;
    return false;
  }
  bool baseAtom(const Value *V, int &a) {
    LE e = P.lin(V);
    if (e.c || e.t.size() != 1 || e.t.begin()->second != 1)
      return false;
    a = e.t.begin()->first;
    if (P.atoms[a].of >= 0 && !P.atoms[a].as.empty())
      a = P.atoms[a].of;
    return true;
  }
  // does the instruction possibly change the field
  bool clobbers(const Instruction &I, int base, const std::string &f, LE *value, bool &must) {
    must = false;
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      const Value *b = nullptr;
      auto r = fieldRef(S->getPointerOperand(), b);
      if (!r.S || r.S->name + "." + r.field != f)
        return false;
      int a;
      if (baseAtom(b, a)) {
        if (a == base) {
          must = true;
          if (value)
            *value = P.lin(S->getValueOperand());
          return true;
        }
        if (noAlias(P.atoms[a].v, P.atoms[base].v))
          return false;
      }
      return true;
    }
    if (auto *C = dyn_cast<CallBase>(&I)) {
      auto *G = C->getCalledFunction();
      if (!G)
        return !isDbgOrLifetime(&I);
      auto it = writers.find(f);
      return it != writers.end() && it->second.count(G);
    }
    return false;
  }
  int after(int base, const std::string &f, const Instruction *I) {
    return P.fieldOf(P.atomOf(I), f + " of " + std::to_string(base));
  }
  LE fieldBefore(int base, const std::string &f, const BasicBlock *B, const Instruction *end, int depth = 0) {
    BasicBlock::const_iterator it = end ? end->getIterator() : B->end();
    while (it != B->begin()) {
      --it;
      if (isa<PHINode>(*it))
        break;
      bool must;
      LE v;
      if (clobbers(*it, base, f, &v, must))
        return must ? v : P.one(after(base, f, &*it));
      if (&*it == P.atoms[base].v)
        return P.one(after(base, f, &*it));
    }
    if (B == &F.getEntryBlock() || depth > 200)
      return P.one(P.fieldAt(base, f, B));
    if (auto *X = B->getSinglePredecessor())
      return fieldBefore(base, f, X, nullptr, depth + 1);
    if (auto *ph = dyn_cast_or_null<PHINode>(P.atoms[base].v); ph && ph->getParent() == B)
      return P.one(P.fieldAt(base, f, B));
    auto *N = P.DT.getNode(const_cast<BasicBlock *>(B));
    if (N && N->getIDom()) {
      auto *D = N->getIDom()->getBlock();
      // anything on the way from D to B
      std::set<const BasicBlock *> seen;
      std::vector<const BasicBlock *> todo;
      for (auto *X : predecessors(B))
        todo.push_back(X);
      bool clean = true;
      while (!todo.empty() && clean) {
        auto *X = todo.back();
        todo.pop_back();
        if (X == D || !seen.insert(X).second)
          continue;
        for (auto &I : *X) {
          bool must;
          if (clobbers(I, base, f, nullptr, must) || &I == P.atoms[base].v)
            clean = false;
        }
        for (auto *Y : predecessors(X))
          todo.push_back(Y);
      }
      // a loop around B itself
      if (clean && !seen.count(B))
        return fieldBefore(base, f, D, nullptr, depth + 1);
      if (clean) {
        for (auto &I : *B) {
          bool must;
          clean &= !clobbers(I, base, f, nullptr, must);
        }
        if (clean)
          return fieldBefore(base, f, D, nullptr, depth + 1);
      }
    }
    return P.one(P.fieldAt(base, f, B));
  }

  // strings written into a buffer are terminated inside it
  struct Scan {
    const CallBase *len;
    LE base, L;
  };
  std::vector<Scan> scans;

  Cx(Function &F, const std::vector<Sized> &types, const std::map<std::string, std::set<const Function *>> &writers,
     const std::map<std::string, std::vector<std::pair<int64_t, int64_t>>> &ar)
      : F(F), DL(F.getParent()->getDataLayout()), P(F), types(types), writers(writers), argRange(ar) {
    P.rootType = [this](const GEPOperator *G) -> std::string {
      auto *ST = dyn_cast<StructType>(G->getSourceElementType());
      if (!ST || !ST->hasName())
        return "";
      std::string n = plainName(ST->getName());
      return sized(n) ? n : "";
    };
    P.loaded = [this](const LoadInst *L, LE &e) {
      const Value *b = nullptr;
      auto r = fieldRef(L->getPointerOperand(), b);
      if (!r.S)
        return false;
      int a;
      if (!baseAtom(b, a))
        return false;
      std::string f = r.S->name + "." + r.field;
      e = mutableField(r.S, r.field) ? fieldBefore(a, f, L->getParent(), L) : fixedField(a, f);
      return true;
    };
    P.fieldOfBase = [this](int a, const std::string &f) {
      auto *S = sizedOfField(f);
      if (S)
        return fixedField(a, f);
      return P.one(P.fieldOf(a, f));
    };
    P.fieldAtEnd = [this](int a, const std::string &f, const BasicBlock *B) { return fieldBefore(a, f, B, nullptr); };
    P.about = [this](int a, std::vector<LE> &out) { facts(a, out); };
    P.moreFacts = [this](const Value *C, bool truth, std::vector<LE> &, std::vector<LE> &ne0) {
      auto *I = cast<ICmpInst>(C);
      auto p = truth ? I->getPredicate() : I->getInversePredicate();
      if (!I->isEquality())
        return;
      auto *K = dyn_cast<ConstantInt>(I->getOperand(1));
      if (!K || (p == CmpInst::ICMP_NE) != K->isZero())
        return;
      const Value *V = I->getOperand(0);
      while (isa<SExtInst>(V) || isa<ZExtInst>(V))
        V = cast<Instruction>(V)->getOperand(0);
      auto *L = dyn_cast<LoadInst>(V);
      if (!L || !L->getType()->isIntegerTy(8))
        return;
      LE at = P.lin(L->getPointerOperand());
      // a byte string ends in a zero byte, so this is not its end
      for (auto &t : at.t)
        if (P.atoms[t.first].as == "scmBytes" && t.second == 1)
          if (auto *S = sized("scmBytes"))
            ne0.push_back(at - P.one(t.first) + -S->data - fixedField(P.atoms[t.first].of, S->name + "." + S->count));
      for (auto &s : scans)
        if (P.DT.dominates(s.len, L)) {
          LE off = at - s.base;
          bool root = false;
          for (auto &t : s.base.t)
            root |= off.t.count(t.first) > 0;
          if (!root)
            ne0.push_back(off - s.L);
        }
    };
    findScans();
  }
  void findScans() {
    for (auto &I : instructions(F)) {
      auto *C = dyn_cast<CallBase>(&I);
      if (!C || calleeName(C) != "strlen")
        continue;
      auto *A = dyn_cast<AllocaInst>(C->getArgOperand(0));
      if (!A)
        continue;
      // a byte may be overwritten only where a byte other than the end was seen
      bool ok = true;
      std::set<const Value *> seen;
      std::vector<const Value *> todo{A};
      while (!todo.empty() && ok) {
        auto *V = todo.back();
        todo.pop_back();
        if (!seen.insert(V).second)
          continue;
        for (auto *U : V->users()) {
          auto *X = dyn_cast<Instruction>(U);
          if (!X || isDbgOrLifetime(X) || isa<LoadInst>(X) || isa<CmpInst>(X))
            continue;
          if (isa<GetElementPtrInst>(X) || isa<PHINode>(X) || isa<SelectInst>(X)) {
            todo.push_back(X);
            continue;
          }
          if (auto *S = dyn_cast<StoreInst>(X)) {
            if (S->getValueOperand() == V) {
              ok = false;
              break;
            }
            if (P.DT.dominates(S, C) && !isPotentiallyReachable(C, S, nullptr, &P.DT, &P.LI))
              continue;
            if (auto *K = dyn_cast<ConstantInt>(S->getValueOperand()); K && K->isZero())
              continue;
            // dominated by the knowledge that this byte was not the end
            bool guarded = false;
            for (auto *U2 : S->getPointerOperand()->users())
              if (auto *L = dyn_cast<LoadInst>(U2); L && L->getType()->isIntegerTy(8))
                for (auto *U3 : L->users()) {
                  const Value *W = U3;
                  if (isa<SExtInst>(W) || isa<ZExtInst>(W))
                    W = *U3->user_begin();
                  if (auto *IC = dyn_cast<ICmpInst>(W); IC && IC->isEquality())
                    if (auto *K = dyn_cast<ConstantInt>(IC->getOperand(1)))
                      for (auto *U4 : IC->users())
                        if (auto *Br = dyn_cast<BranchInst>(U4)) {
                          bool eq = IC->getPredicate() == CmpInst::ICMP_EQ;
                          int s = K->isZero() ? (eq ? 1 : 0) : (eq ? 0 : 1);
                          guarded |= P.DT.dominates(BasicBlockEdge(Br->getParent(), Br->getSuccessor(s)), S->getParent());
                        }
                  if (auto *Sw = dyn_cast<SwitchInst>(W))
                    for (auto &c : Sw->cases())
                      if (!c.getCaseValue()->isZero())
                        guarded |= P.DT.dominates(BasicBlockEdge(Sw->getParent(), c.getCaseSuccessor()), S->getParent());
                }
            ok &= guarded;
            continue;
          }
          if (auto *D = dyn_cast<CallBase>(X)) {
            static const std::set<std::string> reads = {"strlen", "mkdir", "stat", "open", "strchr", "strrchr", "strcmp", "fopen", "puts", "fputs", "access", "makeString", "makeCString", "intern", "strncmp", "memcmp", "fwrite", "write"};
            if (reads.count(calleeName(D)))
              continue;
            if (!isPotentiallyReachable(C, D, nullptr, &P.DT, &P.LI))
              continue;
          }
          ok = false;
        }
      }
      if (ok) {
        LE b = P.one(P.atomOf(A));
        scans.push_back({C, b, P.one(P.atomOf(C))});
      }
    }
  }

  void facts(int a, std::vector<LE> &out) {
    auto A = P.atoms[a];
    LE s = P.one(a);
    auto range = [&](int64_t lo, int64_t hi) {
      out.push_back(s * -1 + lo);
      out.push_back(s + -hi);
    };
    if (!A.field.empty()) {
      std::string f = A.field;
      int base = A.of;
      auto p = f.find(" of ");
      if (p != std::string::npos) {
        base = std::stoi(f.substr(p + 4));
        f = f.substr(0, p);
      }
      if (auto *S = sizedOfField(f)) {
        range(S->name == "_strBuf" && f == S->name + "." + S->count ? 1 : 0, MAXLEN);
        // what is present fits
        if (f == S->name + "." + S->live && S->live != S->count) {
          int bb = base;
          LE cap = fixedField(bb, S->name + "." + S->count);
          out.push_back(s - cap + (S->name == "_strBuf" ? 1 : 0));
        }
      }
      return;
    }
    if (!A.v || !A.as.empty())
      return;
    if (auto *Ph = dyn_cast<PHINode>(A.v); Ph && bounded.count(Ph))
      range(0, MAXLEN);
    if (auto *C = dyn_cast<CallBase>(A.v)) {
      std::string n = calleeName(C);
      if (n == "strlen") {
        range(0, MAXLEN);
        int64_t longest = constantText(C->getArgOperand(0));
        if (longest >= 0)
          out.push_back(s + -longest);
        LE b = P.lin(C->getArgOperand(0));
        if (b.t.size() == 1 && b.t.begin()->second == 1 && P.atoms[b.t.begin()->first].as == "scmBytes")
          if (auto *S = sized("scmBytes"); S && b.c == S->data)
            out.push_back(s - fixedField(P.atoms[b.t.begin()->first].of, S->name + "." + S->count));
        if (b.t.size() == 1 && b.t.begin()->second == 1 && P.atoms[b.t.begin()->first].as == "_strBuf")
          if (auto *S = sized("_strBuf"); S && b.c == S->data)
            out.push_back(s + 1 - fixedField(P.atoms[b.t.begin()->first].of, S->name + "." + S->count));
        if (b.t.size() == 1 && b.t.begin()->second == 1 && b.c >= 0)
          if (auto *Al = dyn_cast_or_null<AllocaInst>(P.atoms[b.t.begin()->first].v))
            if (auto sz = Al->getAllocationSize(DL))
              out.push_back(s + (b.c - (int64_t)sz->getFixedValue() + 1));
      } else if (n == "fread" || n == "fwrite") {
        range(0, 1LL << 60);
        out.push_back(s - P.lin(C->getArgOperand(2)));
      } else if (n == "read" || n == "recv" || n == "write" || n == "send") {
        range(-1, 1LL << 60);
        out.push_back(s - P.lin(C->getArgOperand(2)));
      } else if (n == "epoll_wait") {
        range(-1, INT_MAX);
        // not more than asked for, when that is positive
        LE m = P.lin(C->getArgOperand(2));
        if (m.isConst() && m.c > 0)
          out.push_back(s - m);
      } else if (n == "readlink") {
        range(-1, 1LL << 60);
        out.push_back(s - P.lin(C->getArgOperand(2)));
      }
    }
    if (auto *D = dyn_cast<BinaryOperator>(A.v); D && D->getOpcode() == Instruction::Sub) {
      // the pieces of an attribute the markdown parser found follow one another
      auto piece = [](const Value *V) -> bool {
        auto *L = dyn_cast<LoadInst>(V);
        auto *G = L ? dyn_cast<GEPOperator>(L->getPointerOperand()) : nullptr;
        auto *T = G ? dyn_cast<LoadInst>(G->getPointerOperand()) : nullptr;
        auto *H = T ? dyn_cast<GEPOperator>(T->getPointerOperand()) : nullptr;
        auto *ST = H ? dyn_cast<StructType>(H->getSourceElementType()) : nullptr;
        return ST && ST->hasName() && ST->getName().contains("MD_ATTRIBUTE");
      };
      if (piece(D->getOperand(0)) && piece(D->getOperand(1)))
        range(0, MAXLEN);
    }
    if (auto *L = dyn_cast<LoadInst>(A.v))
      if (auto *GV = dyn_cast<GlobalVariable>(L->getPointerOperand()); GV && counters.count(GV))
        range(0, counters[GV]);
    if (auto *G = dyn_cast<Argument>(A.v)) {
      // numbers of elements handed over by the caller
      static const std::map<std::string, std::set<unsigned>> counts = {
          {"coraCall", {2}}, {"makeCurry", {2}}, {"makeContinuation", {2, 4}}};
      auto c = counts.find(fname(G->getParent()));
      if (c != counts.end() && c->second.count(G->getArgNo()))
        range(0, 1 << 24);
      auto it = argRange.find(G->getParent()->getName().str());
      if (it != argRange.end() && G->getArgNo() < it->second.size()) {
        auto r = it->second[G->getArgNo()];
        if (r.first <= r.second)
          range(r.first, r.second);
      }
    }
  }

  // longest of the constant texts a pointer can be; -1 unknown
  static int64_t constantText(const Value *V) {
    int64_t m = -1;
    std::set<std::pair<const Value *, int>> seen; // the value, or one part of it
    std::vector<std::pair<const Value *, int>> todo{{V, -1}};
    while (!todo.empty()) {
      auto [X, part] = todo.back();
      todo.pop_back();
      if (!seen.insert({X, part}).second || isa<UndefValue>(X))
        continue;
      if (auto *Ph = dyn_cast<PHINode>(X)) {
        for (auto &i : Ph->incoming_values())
          todo.push_back({i, part});
        continue;
      }
      if (auto *S = dyn_cast<SelectInst>(X)) {
        todo.push_back({S->getTrueValue(), part});
        todo.push_back({S->getFalseValue(), part});
        continue;
      }
      if (auto *E = dyn_cast<ExtractValueInst>(X); E && part < 0 && E->getNumIndices() == 1) {
        todo.push_back({E->getAggregateOperand(), (int)E->getIndices()[0]});
        continue;
      }
      if (auto *N = dyn_cast<InsertValueInst>(X); N && part >= 0 && N->getNumIndices() == 1) {
        if ((int)N->getIndices()[0] == part)
          todo.push_back({N->getInsertedValueOperand(), -1});
        else
          todo.push_back({N->getAggregateOperand(), part});
        continue;
      }
      if (auto *K = dyn_cast<Constant>(X); K && part >= 0)
        if (auto *E = K->getAggregateElement(part)) {
          todo.push_back({E, -1});
          continue;
        }
      StringRef t;
      if (part >= 0 || !getConstantStringInfo(X, t))
        return -1;
      m = std::max<int64_t>(m, t.size());
    }
    return m;
  }
  bool pointerAtom(int a) const {
    auto &A = P.atoms[a];
    if (!A.field.empty())
      return false;
    return A.v && (A.v->getType()->isPointerTy() || !A.as.empty());
  }
};

struct Acc {
  const Instruction *I;
  const Value *Ptr;
  const Value *L1 = nullptr, *L2 = nullptr; // length is their product
  int64_t len = -1;                         // constant length
  bool write = false, zero = false;
  int64_t scale = 1;
};

void accesses(const Instruction *I, const DataLayout &DL, std::vector<Acc> &out) {
  if (auto *L = dyn_cast<LoadInst>(I)) {
    Acc a{I, L->getPointerOperand()};
    a.len = DL.getTypeStoreSize(L->getType()).getFixedValue();
    out.push_back(a);
    return;
  }
  if (auto *S = dyn_cast<StoreInst>(I)) {
    Acc a{I, S->getPointerOperand()};
    a.len = DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
    a.write = true;
    if (auto *C = dyn_cast<Constant>(S->getValueOperand()))
      a.zero = C->isNullValue();
    out.push_back(a);
    return;
  }
  auto *C = dyn_cast<CallBase>(I);
  if (!C)
    return;
  auto add = [&](unsigned p, int l, int l2, bool w, int64_t scale = 1) {
    if (p >= C->arg_size())
      return;
    Acc a{I, C->getArgOperand(p)};
    if (l >= 0)
      a.L1 = C->getArgOperand(l);
    if (l2 >= 0)
      a.L2 = C->getArgOperand(l2);
    a.write = w;
    a.scale = scale;
    out.push_back(a);
  };
  if (auto *M = dyn_cast<MemSetInst>(I)) {
    add(0, 2, -1, true);
    if (auto *K = dyn_cast<ConstantInt>(M->getValue()); K && K->isZero())
      out.back().zero = true;
    return;
  }
  if (isa<MemTransferInst>(I)) {
    add(0, 2, -1, true);
    add(1, 2, -1, false);
    return;
  }
  std::string n = calleeName(C);
  if (n == "snprintf" || n == "vsnprintf" || n == "fgets" || n == "strftime" || n == "gethostname" || n == "getcwd")
    add(0, 1, -1, true);
  else if (n == "fread")
    add(0, 1, 2, true);
  else if (n == "fwrite")
    add(0, 1, 2, false);
  else if (n == "read" || n == "recv" || n == "readlink" || n == "getline")
    add(1, 2, -1, true);
  else if (n == "write" || n == "send")
    add(1, 2, -1, false);
  else if (n == "strncpy" || n == "__builtin_strncpy")
    add(0, 2, -1, true);
  else if (n == "memcmp" || n == "strncmp") {
    if (n == "memcmp") {
      add(0, 2, -1, false);
      add(1, 2, -1, false);
    }
  } else if (n == "epoll_wait")
    add(1, 2, -1, true, 12);
  else if (n == "sprintf" || n == "vsprintf" || n == "strcpy" || n == "strcat" || n == "gets" || n == "stpcpy")
    add(0, -1, -1, true);
}

// what sprintf can write, terminator included; -1 unknown
int64_t formatMax(const CallBase *C, unsigned at) {
  if (C->arg_size() <= at)
    return -1;
  StringRef f;
  if (!getConstantStringInfo(C->getArgOperand(at), f))
    return -1;
  int64_t n = 1;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') {
      n++;
      continue;
    }
    size_t j = i + 1;
    while (j < f.size() && StringRef("0-+ #").contains(f[j]))
      j++;
    int64_t w = 0;
    while (j < f.size() && isDigit(f[j]))
      w = w * 10 + (f[j++] - '0');
    bool prec = j < f.size() && f[j] == '.';
    int64_t pr = 0;
    if (prec) {
      j++;
      while (j < f.size() && isDigit(f[j]))
        pr = pr * 10 + (f[j++] - '0');
    }
    while (j < f.size() && StringRef("hlzjt").contains(f[j]))
      j++;
    if (j >= f.size())
      return -1;
    int64_t m;
    switch (f[j]) {
    case '%': case 'c': m = 1; break;
    case 'd': case 'i': case 'u': m = 20; break;
    case 'x': case 'X': m = 18; break;
    case 'o': m = 24; break;
    case 'p': m = 18; break;
    default: return -1;
    }
    if (prec)
      m = std::max(m, pr + 3);
    n += std::max(m, w);
    i = j;
  }
  return n;
}

std::string sourceFn(const Instruction *I) {
  if (auto D = I->getDebugLoc())
    if (auto *SP = D->getScope()->getSubprogram())
      return SP->getName().str();
  return fname(I->getFunction());
}

enum Want { Fixed = 1, Object = 2, Block = 4 };

// Text buffers are decided in two steps: inside the functions that change one,
// every buffer given is sound and every one left behind has to be; outside,
// these functions stay calls, and what they are given has to lie inside its
// object.
enum Texts { Inline, Outside, Inside };
// numbers some caller may choose negative
std::set<std::pair<std::string, unsigned>> maybeNegative;

// what each argument of a function on texts is: b a buffer, p another pointer,
// l the length of the pointer before it, i another number
std::string roles(const Function *F) {
  std::string r;
  auto *SP = F->getSubprogram();
  if (!SP || !SP->getType())
    return std::string(F->arg_size(), '.');
  auto types = SP->getType()->getTypeArray();
  auto strip = [](const DIType *T) {
    while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_pointer_type)
        break;
      T = D->getBaseType();
    }
    return T;
  };
  for (unsigned i = 1; i < types.size(); i++) {
    auto *T = strip(types[i]);
    if (auto *C = dyn_cast_or_null<DICompositeType>(T); C && C->getTag() == dwarf::DW_TAG_structure_type) {
      r += C->getSizeInBits() == 128 && C->getElements().size() == 2 ? "pl" : "..";
    } else if (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
      auto *E = dyn_cast_or_null<DICompositeType>(strip(D->getBaseType()));
      r += E && E->getName() == "_strBuf" ? 'b' : 'p';
    } else if (auto *B = dyn_cast_or_null<DIBasicType>(T); B && B->getSizeInBits() >= 32) {
      r += !r.empty() && r.back() == 'p' ? 'l' : 'i';
    } else
      r += '.';
  }
  r.resize(F->arg_size(), '.');
  return r;
}


void boundsRule(const Input &in, int want, const char *rule, Texts texts) {
  // arguments of the functions that stay calls, when all of them are constants;
  // functions called only by others are covered there
  std::set<std::string> keep = {"newObj", "gcAlloc", "coraRun", "gcMarkRoot", "bindSymbol", "stackAlloc", "coraReturn",
                                "stackAllocSlowPath", "_vector_append", "makeNative", "coraCall", "coraReturnSlowPath", "makeNumber",
                                "saveCont", "gcMark", "globalRef", "makeCurry", "makeContinuation"};
  std::map<std::string, std::vector<std::pair<int64_t, int64_t>>> range;
  std::set<std::string> called;
  forEachGroup(in, [&](Module &M, const std::string &g) {
    for (auto &F : M)
      for (auto &I : instructions(F)) {
        auto *C = dyn_cast<CallBase>(&I);
        if (!C || !C->getCalledFunction())
          continue;
        std::string n = C->getCalledFunction()->getName().str();
        if (C->getCalledFunction() != &F)
          called.insert(n);
        if (n != "makeNative")
          continue;
        bool first = !range.count(n);
        auto &v = range[n];
        if (first)
          v.assign(5, {INT64_MAX, INT64_MIN});
        for (unsigned i = 0; i < 5 && i < C->arg_size(); i++) {
          auto *K = dyn_cast<ConstantInt>(C->getArgOperand(i));
          auto &r = v[i];
          if (!K) {
            // unknown: only from wrappers, whose argument must be a constant
            if (i == 4)
              r = {INT64_MIN, INT64_MAX};
            continue;
          }
          r.first = std::min(r.first, K->getSExtValue());
          r.second = std::max(r.second, K->getSExtValue());
        }
      }
  });
  forEachGroup(in, [&](Module &M, const std::string &g) {
    NormOpts O;
    O.keep = keep;
    O.externArgsOnly = true;
    for (auto &F : M)
      if (auto *SP = F.getSubprogram(); SP && SP->getFilename().contains("md4c.c"))
        O.keep.insert(F.getName().str());
    auto &DL = M.getDataLayout();
    std::vector<Sized> types;
    auto type = [&](const char *n, const char *data, const char *count, const char *live, int64_t extra, int64_t elem) {
      auto *S = structByName(M, n);
      if (!S)
        return;
      Sized t;
      t.name = n;
      auto *d = S->get(data), *c = S->get(count), *l = S->get(live);
      if (!d || !c || !l) {
        R.breakage(std::string(rule) + ": fields of " + n + " not found");
        return;
      }
      t.data = d->off;
      t.count = count;
      t.live = live;
      t.countOff = c->off;
      t.liveOff = l->off;
      t.extra = extra;
      t.elem = elem;
      types.push_back(t);
    };
    type("scmBytes", "data", "len", "len", 1, 1);
    type("scmNative", "data", "captured", "captured", 0, 8);
    type("scmVector", "data", "cap", "size", 0, 8);
    type("_strBuf", "data", "cap", "len", 0, 1);
    for (auto &t : types)
      if (t.count == t.live)
        t.live = "-"; // never changes
    std::set<std::string> textFns;
    if (texts != Inline) {
      std::map<std::string, std::set<const Function *>> none;
      std::map<std::string, std::vector<std::pair<int64_t, int64_t>>> none2;
      std::set<const Function *> w;
      for (auto &F : M) {
        if (F.isDeclaration() || roles(&F).find('b') == std::string::npos)
          continue;
        bool any = false;
        for (auto &I : instructions(F))
          if (auto *S = dyn_cast<StoreInst>(&I))
            if (auto *G = dyn_cast<GEPOperator>(S->getPointerOperand()))
              if (auto *ST = dyn_cast<StructType>(G->getSourceElementType()); ST && ST->hasName())
                any |= plainName(ST->getName()) == "_strBuf";
        if (any)
          w.insert(&F);
      }
      // and the ones of the same file built from them
      std::string file;
      for (auto *F : w)
        file = srcFile(F);
      for (bool ch = true; ch;) {
        ch = false;
        for (auto &F : M)
          if (!F.isDeclaration() && !w.count(&F) && srcFile(&F) == file && !F.hasLocalLinkage() &&
              roles(&F).find('b') != std::string::npos)
            for (auto &I : instructions(F))
              if (auto *C = dyn_cast<CallBase>(&I); C && C->getCalledFunction() && w.count(C->getCalledFunction())) {
                w.insert(&F);
                ch = true;
                break;
              }
      }
      for (auto *F : w)
        textFns.insert(F->getName().str());
      if (getenv("CORAN_TEXT")) {
        errs() << g << ":";
        for (auto &n : textFns)
          errs() << " " << n;
        errs() << "\n";
      }
      if (texts == Outside)
        O.keep.insert(textFns.begin(), textFns.end());
      else
        for (auto *F : w) {
          auto &v = range[F->getName().str()];
          v.clear();
          std::string ro = roles(F);
          for (unsigned i = 0; i < F->arg_size(); i++)
            if (ro[i] == 'l')
              v.push_back({0, MAXLEN});
            else if (ro[i] == 'i')
              v.push_back({maybeNegative.count({F->getName().str(), i}) ? -MAXLEN : 0, MAXLEN});
            else
              v.push_back({INT64_MAX, INT64_MIN});
        }
    }
    normalise(M, O);
    // functions that may change a field
    std::map<std::string, std::set<const Function *>> writers;
    for (auto &t : types)
      if (t.live != "-") {
        std::string f = t.name + "." + t.live;
        std::map<std::string, std::set<const Function *>> none;
        std::map<std::string, std::vector<std::pair<int64_t, int64_t>>> none2;
        std::set<const Function *> w;
        for (auto &F : M) {
          if (F.isDeclaration())
            continue;
          Cx *cx = nullptr;
          for (auto &I : instructions(F))
            if (auto *S = dyn_cast<StoreInst>(&I)) {
              if (!cx)
                cx = new Cx(F, types, none, none2);
              const Value *b = nullptr;
              auto r = cx->fieldRef(S->getPointerOperand(), b);
              if (r.S && r.S->name + "." + r.field == f)
                w.insert(&F);
            }
          delete cx;
        }
        for (bool ch = true; ch;) {
          ch = false;
          for (auto &F : M)
            if (!F.isDeclaration() && !w.count(&F))
              for (auto &I : instructions(F))
                if (auto *C = dyn_cast<CallBase>(&I); C && C->getCalledFunction() && w.count(C->getCalledFunction())) {
                  w.insert(&F);
                  ch = true;
                  break;
                }
        }
        writers[f] = w;
      }
    std::map<const GlobalVariable *, int64_t> counters;
    for (auto &F : M)
      for (auto &I : instructions(F))
        if (auto *G = dyn_cast<GEPOperator>(&I))
          if (auto *A = dyn_cast<GlobalVariable>(G->getPointerOperand()); A && A->getValueType()->isArrayTy())
            for (auto &ix : G->indices()) {
              std::set<const Value *> seen;
              std::vector<const Value *> todo{ix};
              while (!todo.empty()) {
                const Value *V = todo.back();
                todo.pop_back();
                if (!seen.insert(V).second)
                  continue;
                if (isa<SExtInst>(V) || isa<ZExtInst>(V) || isa<PHINode>(V) || isa<SelectInst>(V))
                  for (auto &o : cast<Instruction>(V)->operands())
                    todo.push_back(o);
                auto *L = dyn_cast<LoadInst>(V);
                auto *C = L ? dyn_cast<GlobalVariable>(L->getPointerOperand()) : nullptr;
                if (!C || !C->getValueType()->isIntegerTy() || !C->hasInitializer())
                  continue;
                auto *ET = G->getSourceElementType();
                int64_t n = DL.getTypeAllocSize(A->getValueType()).getFixedValue() /
                            DL.getTypeAllocSize(ET->isArrayTy() ? ET->getArrayElementType() : ET).getFixedValue();
                auto it = counters.find(C);
                counters[C] = it == counters.end() ? n : std::min(it->second, n);
              }
            }
    for (auto &F : M) {
      if (F.isDeclaration() || !own(&F) || !isRoot(F))
        continue;
      if (auto *SP = F.getSubprogram(); SP && SP->getFilename().contains("md4c.c"))
        continue;
      if (texts != Inline && (textFns.count(F.getName().str()) > 0) != (texts == Inside))
        continue;
      // decided where it is used
      bool stays = F.hasAddressTaken() || O.keep.count(F.getName().str());
      for (auto *U : F.users())
        if (isa<CallBase>(U))
          stays = true;
      if (texts != Inside && !stays && called.count(F.getName().str()) && !F.hasLocalLinkage())
        continue;
      // lengths kept next to an address that changes in a loop: never negative
      // and never longer than a text, if that holds at the start and each round
      // keeps it
      std::set<const PHINode *> bounded;
      {
        DominatorTree DT(F);
        LoopInfo LI(DT);
        for (auto &BB : F)
          if (LI.isLoopHeader(&BB))
            for (auto &A : BB.phis())
              if (A.getType()->isPointerTy())
                for (auto &N : BB.phis())
                  if (N.getType()->isIntegerTy(32))
                    bounded.insert(&N);
      }
      for (bool again = !bounded.empty(); again;) {
        again = false;
        Cx Y(F, types, writers, range);
        Y.counters = counters;
        Y.bounded = bounded;
        for (auto *N : std::set<const PHINode *>(bounded))
          for (auto *E : predecessors(N->getParent())) {
            if (!Y.P.DT.isReachableFromEntry(E))
              continue;
            if (!Y.P.byCases({Y.P.lin(N->getIncomingValueForBlock(E))}, E, [](const std::vector<LE> &) { return true; },
                             [&](const std::vector<LE> &ex) -> std::vector<std::vector<LE>> {
                               return {{ex[0] * -1, ex[0] + -MAXLEN}};
                             })) {
              bounded.erase(N);
              again = !bounded.empty();
              break;
            }
          }
      }
      Cx X(F, types, writers, range);
      X.counters = counters;
      X.bounded = bounded;
      R.count("functions");
      auto t0 = std::chrono::steady_clock::now();
      std::map<std::pair<const PHINode *, bool>, std::vector<const PHINode *>> viewsOf;
      // does the address come from something whose size is known
      auto interesting = [&](const Value *V) {
        std::set<const Value *> seen;
        std::vector<const Value *> todo{V};
        int hit = 0;
        while (!todo.empty()) {
          const Value *Y = todo.back();
          todo.pop_back();
          if (!Y || !seen.insert(Y).second)
            continue;
          if (auto *G = dyn_cast<GEPOperator>(Y)) {
            if (!X.P.rootType(G).empty()) {
              hit |= Object;
              if (!Cx::allocation(G->getPointerOperand(), DL)) {
                todo.push_back(nullptr);
                continue;
              }
            }
            todo.push_back(G->getPointerOperand());
          } else if (auto *C = dyn_cast<CastInst>(Y); C && (isa<BitCastInst>(C) || isa<IntToPtrInst>(C) || isa<PtrToIntInst>(C)))
            todo.push_back(C->getOperand(0));
          else if (auto *Ph = dyn_cast<PHINode>(Y))
            for (auto &z : Ph->incoming_values())
              todo.push_back(z);
          else if (auto *Sl = dyn_cast<SelectInst>(Y)) {
            todo.push_back(Sl->getTrueValue());
            todo.push_back(Sl->getFalseValue());
          } else if (auto *B = dyn_cast<BinaryOperator>(Y); B && (B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Or))
            todo.push_back(B->getOperand(0));
          else if (isa<AllocaInst>(Y))
            hit |= Fixed;
          else if (auto *GV = dyn_cast<GlobalVariable>(Y)) {
            if (GV->hasInitializer())
              hit |= Fixed;
          } else if (Cx::allocation(Y, DL))
            hit |= Block;
        }
        return hit;
      };
      for (auto &I : instructions(F)) {
        std::vector<Acc> as;
        accesses(&I, DL, as);
        if (auto *C = dyn_cast<CallBase>(&I); C && texts == Outside && C->getCalledFunction() &&
                                              textFns.count(C->getCalledFunction()->getName().str())) {
          auto *SP = I.getDebugLoc() ? I.getDebugLoc()->getScope()->getSubprogram() : nullptr;
          bool parser = SP && SP->getFilename().contains("md4c/"); // sizes come from the markdown parser
          std::string ro = roles(C->getCalledFunction());
          for (unsigned i = 0; i < C->arg_size() && i < ro.size() && !parser; i++) {
            auto *A = C->getArgOperand(i);
            if (ro[i] != 'l' && ro[i] != 'i')
              continue;
            LE v = X.P.lin(A);
            bool ok = X.P.byCases({v}, I.getParent(), [](const std::vector<LE> &) { return true; },
                                  [&](const std::vector<LE> &ex) -> std::vector<std::vector<LE>> { return {{ex[0] * -1}}; });
            R.count("lengths handed to text functions");
            if (!ok && ro[i] == 'i')
              maybeNegative.insert({C->getCalledFunction()->getName().str(), i});
            if (ro[i] == 'l') {
              Acc x{&I, C->getArgOperand(i - 1)};
              x.L1 = A;
              as.push_back(x);
              if (!ok && (want & Object))
                R.viol(rule, sourceFn(&I) + ": the length handed to " + calleeName(C) + " can be negative", loc(&I),
                       "value " + X.P.str(v) + " in " + fname(&F));
            }
          }
        }
      for (auto &a : as) {
          int hit = interesting(a.Ptr) & want;
          if (!hit)
            continue;
          if (want == Block) {
            // the collector's own blocks: G06
            if (auto *SP = I.getDebugLoc() ? I.getDebugLoc()->getScope()->getSubprogram() : nullptr)
              if (SP->getFilename().ends_with("gc.c"))
                continue;
            const Value *b = nullptr;
            if (X.fieldRef(a.Ptr, b).S && !Cx::allocation(b, DL))
              continue;
          }
          // constant offset inside an array or header: nothing to prove
          auto *B = I.getParent();
          if (!X.P.DT.isReachableFromEntry(B))
            continue;
          LE addr = X.P.dereferenced(X.P.lin(a.Ptr)), len;
          bool known = true;
          if (a.len >= 0)
            len.c = a.len;
          else if (a.L1) {
            len = X.P.lin(a.L1);
            if (a.L2) {
              LE l2 = X.P.lin(a.L2);
              if (len.isConst())
                len = l2 * len.c;
              else if (l2.isConst())
                len = len * l2.c;
              else
                known = false;
            }
            len = len * a.scale;
          } else if (calleeName(cast<CallBase>(&I)) == "sprintf") {
            int64_t m = formatMax(cast<CallBase>(&I), 1);
            known = m >= 0;
            len.c = m;
          } else if (calleeName(cast<CallBase>(&I)) == "strcpy") {
            StringRef s;
            known = getConstantStringInfo(cast<CallBase>(&I)->getArgOperand(1), s);
            len.c = s.size() + 1;
          } else
            known = false;
          // what limits a typed base, as of here
          LE lim;
          auto limitOf = [&](int root, bool atAccess) -> LE {
            auto &A = X.P.atoms[root];
            const Sized *S = X.sized(A.as);
            int b = A.of;
            LE n;
            if (!a.write && S->live != "-" && S->name == "scmVector")
              n = atAccess ? X.fieldBefore(b, S->name + "." + S->live, B, &I) : X.P.one(X.P.fieldOf(b, "?"));
            else
              n = X.fixedField(b, S->name + "." + S->count);
            LE l = n * S->elem + S->data;
            if (S->extra && (!a.write || a.zero))
              l = l + S->extra;
            return l;
          };
          for (auto &t : addr.t)
            if (X.pointerAtom(t.first) && !X.P.atoms[t.first].as.empty())
              lim = limitOf(t.first, true);
          int roots = 0;
          bool skipped = false;
          std::string seenRoots;
          auto rootOf = [&](const LE &e) {
            int r = -1;
            for (auto &t : e.t)
              if (X.pointerAtom(t.first)) {
                if (r >= 0 || t.second != 1)
                  return -2;
                r = t.first;
              }
            return r;
          };
          auto grows = [&](const PHINode *Ph) {
            auto *L = X.P.LI.getLoopFor(Ph->getParent());
            bool again = false, grown = false;
            std::set<const Value *> seen;
            std::vector<const Value *> todo{Ph};
            while (L && !todo.empty()) {
              auto *V = todo.back();
              todo.pop_back();
              auto *J = dyn_cast<Instruction>(V);
              if (!J || !L->contains(J->getParent()) || !seen.insert(J).second)
                continue;
              if (auto *Q = dyn_cast<PHINode>(J)) {
                again |= Q->getParent() == L->getHeader();
                for (auto &U : Q->incoming_values())
                  todo.push_back(U);
              } else if (auto *C = dyn_cast<CallBase>(J); C && calleeName(C) == "realloc")
                grown = true;
            }
            return again && grown;
          };
          const PHINode *self = nullptr, *selfLen = nullptr;
          std::function<std::vector<const PHINode *>(const PHINode *)> views;
          std::function<bool(const std::vector<LE> &)> ready = [&](const std::vector<LE> &ex) {
            int r = rootOf(ex[0]);
            if (r < 0)
              return r == -1; // null: not an access
            auto *V = X.P.atoms[r].v;
            if (auto *Ph = dyn_cast<PHINode>(V); Ph && X.P.atoms[r].as.empty() && (Ph == self || !views(Ph).empty()))
              return true;
            // a block that grows from one round to the next: not decided
            if (auto *Ph = dyn_cast<PHINode>(V); Ph && X.P.atoms[r].as.empty() && grows(Ph)) {
              R.count("blocks that grow in a loop (not decided)");
              return true;
            }
            return !(isa<PHINode>(V) || isa<SelectInst>(V)) || !X.P.atoms[r].as.empty();
          };
          std::function<std::vector<std::vector<LE>>(const std::vector<LE> &)> goals =
              [&](const std::vector<LE> &ex) -> std::vector<std::vector<LE>> {
            int r = rootOf(ex[0]);
            LE n = ex[1];
            if (r < 0)
              return self ? std::vector<std::vector<LE>>{{n}} : std::vector<std::vector<LE>>{{}};
            auto A = X.P.atoms[r];
            LE off = ex[0] - X.P.one(r);
            if (auto *Ph = dyn_cast_or_null<PHINode>(A.v); Ph && A.as.empty() && A.field.empty()) {
              // part of an object, given by its start and its length
              std::vector<std::vector<LE>> alts;
              if (views(Ph).empty() && Ph != self && grows(Ph))
                return {{}};
              roots++;
              if (Ph == self) {
                alts.push_back({off * -1, off + n - X.P.one(X.P.atomOf(selfLen))});
                alts.push_back({n});
                return alts;
              }
              for (auto *N : views(Ph)) {
                alts.push_back({off * -1, off + n - X.P.one(X.P.atomOf(N))});
                if (!n.isConst())
                  alts.push_back({n, n * -1});
              }
              return alts;
            }
            LE size;
            int64_t from = 0;
            const Sized *S = nullptr;
            int kind = 0;
            if (!A.as.empty()) {
              S = X.sized(A.as);
              bool freshBase = Cx::allocation(A.v, DL) != nullptr;
              if ((want & Block) && freshBase) {
                kind = Block;
                size = X.allocSize(Cx::allocation(A.v, DL));
              } else if (want & Object) {
                kind = Object;
                // captured values an operation names: decided with V02
                if (S->name == "scmNative" && off.isConst() && !a.write)
                  return {{}};
                // the fixed part
                if (off.isConst() && n.isConst() && off.c >= 0 && off.c + n.c <= S->data)
                  return {{}};
                size = ex[2].isConst() && ex[2].c == 0 ? limitOf(r, false) : ex[2];
                from = S->data;
              }
            } else if (auto *Al = dyn_cast<AllocaInst>(A.v)) {
              if (!(want & Fixed) || !a.write)
                return {{}};
              if (auto sz = Al->getAllocationSize(DL)) {
                kind = Fixed;
                size.c = sz->getFixedValue();
              } else {
                kind = Fixed;
                size = X.P.lin(Al->getArraySize()) * (int64_t)DL.getTypeAllocSize(Al->getAllocatedType()).getFixedValue();
              }
            } else if (auto *GV = dyn_cast<GlobalVariable>(A.v)) {
              if (!(want & Fixed) || !GV->hasInitializer() || !a.write)
                return {{}};
              kind = Fixed;
              size.c = DL.getTypeAllocSize(GV->getValueType()).getFixedValue();
            } else if (auto *C = Cx::allocation(A.v, DL)) {
              if (!(want & Block))
                return {{}};
              kind = Block;
              size = X.allocSize(C);
            }
            if (!kind) {
              skipped = true;
              return {{}};
            }
            roots++;
            LE end = off + n - size;
            // every allocation is larger than a header (see the check of gcAlloc)
            if (kind == Block && off.isConst() && n.isConst() && off.c >= 0 && off.c + n.c <= 9)
              if (auto *C = Cx::allocation(A.v, DL))
                if (calleeName(C) == "newObj" || calleeName(C) == "gcAlloc")
                  return {{}};
            std::vector<LE> fits = {off * -1 + from, end};
            if (n.isConst())
              return {fits};
            std::vector<LE> g = fits;
            g.push_back(n * -1);
            if (self)
              return {g, {n}};
            return {g, {n, n * -1}};
          };
          // the lengths that go with an address that changes in a loop: at the
          // start, and each time round, both describe part of one object
          views = [&](const PHINode *Ph) -> std::vector<const PHINode *> {
            auto *H = Ph->getParent();
            if (!X.P.LI.isLoopHeader(H))
              return {};
            auto known = viewsOf.find({Ph, a.write});
            if (known != viewsOf.end())
              return known->second;
            std::vector<const PHINode *> res;
            viewsOf[{Ph, a.write}] = res;
            for (auto &N : H->phis()) {
              if (!N.getType()->isIntegerTy(32) && !N.getType()->isIntegerTy(64))
                continue;
              bool ok = true;
              for (auto *E : predecessors(H)) {
                if (!X.P.DT.isReachableFromEntry(E) || !ok)
                  continue;
                auto *s0 = self, *l0 = selfLen;
                auto lim0 = lim;
                int roots0 = roots;
                self = Ph;
                selfLen = &N;
                lim = LE();
                auto w = X.P.work;
                ok = X.P.byCases({X.P.lin(Ph->getIncomingValueForBlock(E)), X.P.lin(N.getIncomingValueForBlock(E)), LE()}, E, ready, goals);
                X.P.work = w;
                self = s0;
                selfLen = l0;
                lim = lim0;
                roots = roots0;
              }
              if (ok)
                res.push_back(&N);
            }
            viewsOf[{Ph, a.write}] = res;
            return res;
          };
          bool ok = known;
          if (known)
            ok = X.P.byCases({addr, len, lim}, B, ready, goals);
          R.count("accesses");
          if (roots)
            R.count(isa<CallBase>(&I) ? "block accesses decided" : "element accesses decided");
          if (!ok)
            R.viol(rule, sourceFn(&I) + ": " + (a.write ? "writes" : "reads") + " outside " +
                             (hit & Fixed ? "a buffer of fixed size" : hit & Object ? "the object" : "the block it obtained"),
                   loc(&I), "address " + X.P.str(addr) + ", length " + X.P.str(len) + ", limit " + X.P.str(lim) + " in " + fname(&F));
        }
        if (auto *S = dyn_cast<StoreInst>(&I); S && (want & Fixed))
          if (auto *GV = dyn_cast<GlobalVariable>(S->getPointerOperand()); GV && counters.count(GV)) {
            R.count("counters kept in range");
            LE v = X.P.lin(S->getValueOperand());
            int64_t n = counters[GV];
            bool ok = X.P.byCases({v}, I.getParent(), [](const std::vector<LE> &) { return true; },
                                  [&](const std::vector<LE> &ex) -> std::vector<std::vector<LE>> {
                                    return {{ex[0] * -1, ex[0] + -n}};
                                  });
            if (!ok)
              R.viol(rule, sourceFn(&I) + ": the position " + GV->getName().str() + " can pass the end of its array", loc(&I),
                     "value " + X.P.str(v) + " in " + fname(&F));
          }
        // fields that say how large the object is
        if (auto *S = dyn_cast<StoreInst>(&I); S && (want & (Object | Block))) {
          const Value *b = nullptr;
          auto r = X.fieldRef(S->getPointerOperand(), b);
          if (!r.S)
            continue;
          R.count("length fields set");
          auto *B = I.getParent();
          LE v = X.P.lin(S->getValueOperand());
          int a = -1;
          bool ok = X.baseAtom(b, a);
          if (ok && r.field == r.S->live) {
            LE cap = X.fixedField(a, r.S->name + "." + r.S->count);
            ok = X.P.byCases({v, cap}, B, [](const std::vector<LE> &) { return true; },
                             [&](const std::vector<LE> &ex) -> std::vector<std::vector<LE>> {
                               return {{ex[0] * -1, ex[0] - ex[1] + (r.S->name == "_strBuf" ? 1 : 0)}};
                             });
          } else if (ok) {
            auto *C = Cx::allocation(X.P.atoms[a].v, DL);
            ok = C && X.storesTo(X.P.atoms[a].v, r.S->name + "." + r.field).size() == 1;
            if (ok) {
              LE size = X.allocSize(C);
              ok = X.P.byCases({v, size}, B, [](const std::vector<LE> &) { return true; },
                               [&](const std::vector<LE> &ex) -> std::vector<std::vector<LE>> {
                                 return {{ex[0] * -1 + (r.S->name == "_strBuf" ? 1 : 0), ex[0] * r.S->elem + r.S->data + r.S->extra - ex[1]}};
                               });
            }
          }
          if (!ok)
            R.viol(rule, sourceFn(&I) + ": sets " + r.field + " of " + r.S->name + " to what does not fit", loc(&I),
                   "value " + X.P.str(v) + " in " + fname(&F));
        }
      }
      if (getenv("CORAN_TIME")) {
        double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (t > 0.3)
          errs() << g << " " << F.getName() << " " << t << "\n";
      }
    }
  });
}
} // namespace

RULE(B01) {
  boundsRule(in, Fixed, "B01", Inline);
  R.need("functions", 100);
}
RULE(B02) {
  maybeNegative.clear();
  boundsRule(in, Object, "B02", Outside);
  boundsRule(in, Object, "B02", Inside);
  R.need("functions", 100);
}
RULE(G05A) {
  maybeNegative.clear();
  boundsRule(in, Block, "G05", Outside);
  boundsRule(in, Block, "G05", Inside);
  R.need("functions", 20);
}
