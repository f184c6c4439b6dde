#include "marks.h"
#include <numeric>

FrameLayout frameLayout(Module &M) {
  FrameLayout L;
  const StructInfo *S = structByName(M, "Frame");
  if (!S)
    return L;
  L.size = S->size;
  auto *b = S->get("bp"), *s = S->get("sp");
  if (b && s) {
    L.bp = b->off;
    L.sp = s->off;
    L.ok = true;
  }
  return L;
}
// the single atom of l with coefficient k
static const Value *single(const Lin &l, ExprCtx &E, int64_t k = 1) {
  if (l.t.size() != 1 || l.c != 0 || l.t.begin()->second != k)
    return nullptr;
  auto it = E.atoms.find(l.t.begin()->first);
  return it == E.atoms.end() ? nullptr : it->second;
}
std::vector<MarkSite> markSites(Function &F, Analyses &A, ExprCtx &E, const FrameLayout &FL) {
  std::vector<MarkSite> res;
  for (auto &I : instructions(F)) {
    auto *CB = dyn_cast<CallBase>(&I);
    if (!CB || calleeName(CB) != "gcMark")
      continue;
    MarkSite m;
    m.CB = CB;
    m.ver = E.lin(CB->getArgOperand(2));
    auto *LD = dyn_cast<LoadInst>(CB->getArgOperand(1));
    if (!LD) {
      m.why = "marks something that is not a stored value";
      res.push_back(m);
      continue;
    }
    Lin addr = E.lin(LD->getPointerOperand());
    Loop *L = A.LI.getLoopFor(I.getParent());
    if (!L) {
      m.kind = MarkSite::Scalar;
      m.lo = addr;
      m.len.c = 8;
      res.push_back(m);
      continue;
    }
    m.L = L;
    m.S = loopSpace(L, E);
    if (!m.S.ok) {
      m.why = m.S.why;
      res.push_back(m);
      continue;
    }
    auto before = [&](const Instruction *X, const LoopSpace &S) {
      return X->getParent() == S.exiting || A.DT.dominates(X->getParent(), S.exiting);
    };
    Range r = addrRange(addr, m.S, 8, before(LD, m.S));
    if (!r.ok) {
      m.why = r.why;
      res.push_back(m);
      continue;
    }
    Loop *O = L->getParentLoop();
    if (!O) {
      m.kind = MarkSite::Span;
      m.lo = r.lo;
      m.len = r.len;
      res.push_back(m);
      continue;
    }
    m.outer = O;
    m.OS = loopSpace(O, E);
    if (!m.OS.ok) {
      m.why = m.OS.why;
      res.push_back(m);
      continue;
    }
    // inner range must be [ld[X+bp], ld[X+sp])
    Lin end = r.lo + r.len;
    auto *lb = dyn_cast_or_null<LoadInst>(single(r.lo, E));
    auto *le = dyn_cast_or_null<LoadInst>(single(end, E));
    if (!lb || !le) {
      m.why = "inner loop does not run from a frame's bp to its sp";
      res.push_back(m);
      continue;
    }
    Lin X = E.lin(lb->getPointerOperand());
    X.c -= FL.bp;
    Lin Y = E.lin(le->getPointerOperand());
    Y.c -= FL.sp;
    if (!(X == Y)) {
      m.why = "inner loop does not run from a frame's bp to its sp";
      res.push_back(m);
      continue;
    }
    Range o = addrRange(X, m.OS, FL.size, before(lb, m.OS));
    if (!o.ok) {
      m.why = o.why;
      res.push_back(m);
      continue;
    }
    m.kind = MarkSite::Frames;
    m.lo = o.lo;
    m.len = o.len;
    res.push_back(m);
  }
  return res;
}
static bool factExcuses(const BasicBlock *B, const BasicBlock *S, ExprCtx &E, const Lin &len) {
  auto *BI = dyn_cast<BranchInst>(B->getTerminator());
  if (!BI || !BI->isConditional() || BI->getSuccessor(0) == BI->getSuccessor(1))
    return false;
  Facts f;
  factsFromCond(BI->getCondition(), BI->getSuccessor(0) == S, E, f);
  if (f.prove(len))
    return true;
  // count == 0 is len == 0 whatever the element size
  Lin q;
  int64_t g = 0;
  for (auto &t : len.t)
    g = std::gcd(g, t.second);
  g = std::gcd(g, len.c);
  if (g > 1) {
    q.c = len.c / g;
    for (auto &t : len.t)
      q.t[t.first] = t.second / g;
    if (f.prove(q))
      return true;
  }
  return false;
}
std::string covered(Function &F, Analyses &A, ExprCtx &E, const std::vector<MarkSite> &ms,
                    const Region &r, const Instruction *&where) {
  std::string why = "nothing marks it";
  where = &F.getEntryBlock().front();
  for (auto &m : ms) {
    if (m.kind == MarkSite::Unknown && r.kind != MarkSite::Scalar && m.L)
      why = "a marking loop cannot be followed: " + m.why;
    if (m.kind != r.kind)
      continue;
    Lin d = m.lo - r.lo, e = (m.lo + m.len) - (r.lo + r.len);
    if (!d.isConst() && !(m.len - r.len).isConst())
      continue;
    if (!d.isConst() || d.c > 0 || !e.isConst() || e.c < 0) {
      if (r.kind != MarkSite::Scalar) {
        where = m.CB;
        why = "the marking loop covers " + m.lo.str() + " .. +" + m.len.str() + " instead of " + r.lo.str() +
              " .. +" + r.len.str();
      }
      continue;
    }
    if (d.c < 0 || e.c > 0) {
      where = m.CB;
      why = "the marking loop reads outside the stored values";
      continue;
    }
    // heap tags 4..7: the only values that matter
    for (int tag = 4; tag < 8; tag++) {
      const Value *arg = m.CB->getArgOperand(1);
      std::string key = E.key(arg);
      auto look = [&](const Value *V, KnownBits &K) {
        if (V == arg || (isa<LoadInst>(V) && V->getType()->isIntegerTy(64) && E.key(V) == key)) {
          K = KnownBits(64);
          K.One |= APInt(64, 0x7FF8000000000000ull | (uint64_t)tag << 48);
          K.Zero |= ~APInt(64, 0xFFFF000000000000ull | 0x0000FFFFFFFFFFFFull) |
                    APInt(64, (uint64_t)(7 ^ tag) << 48);
          return true;
        }
        return false;
      };
      PathQuery Q;
      Q.lookup = look;
      const Instruction *w = nullptr;
      if (r.kind == MarkSite::Scalar) {
        Q.stop = [&](const Instruction *I) { return I == m.CB; };
        w = findPath(&F.getEntryBlock().front(), true, Q);
      } else {
        const Loop *top = m.outer ? m.outer : m.L;
        BasicBlock *H = top->getHeader();
        Q.stop = [&](const Instruction *I) { return I->getParent() == H; };
        Q.excused = [&](const BasicBlock *B, const BasicBlock *S) {
          return factExcuses(B, S, E, r.len);
        };
        w = findPath(&F.getEntryBlock().front(), true, Q);
        auto iter = [&](const Loop *L, const Loop *sub, const LoopSpace &S) -> const Instruction * {
          // one iteration: from the header back to it without the mark
          PathQuery P;
          P.lookup = look;
          bool first = true;
          const Instruction *h = &L->getHeader()->front();
          P.bad = [&](const Instruction *I) {
            if (I == h && !first)
              return true;
            first = false;
            return false;
          };
          P.stop = [&](const Instruction *I) {
            if (I == m.CB || !L->contains(I->getParent()))
              return true;
            return sub && I->getParent() == sub->getHeader();
          };
          P.atReturn = false;
          if (sub) {
            Lin il = E.lin(cast<LoadInst>(m.CB->getArgOperand(1))->getPointerOperand());
            P.excused = [&](const BasicBlock *B, const BasicBlock *T) {
              Lin inner = m.S.span;
              return factExcuses(B, T, E, inner);
            };
          }
          const Instruction *x = findPath(h, true, P);
          (void)S;
          return x;
        };
        if (!w)
          w = iter(m.L, nullptr, m.S);
        if (!w && m.outer)
          w = iter(m.outer, m.L, m.OS);
      }
      if (w) {
        where = m.CB;
        why = "a path leaves it unmarked";
        goto next;
      }
    }
    return "";
  next:;
  }
  return why;
}
