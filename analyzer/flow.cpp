#include "flow.h"
#include <numeric>

Flow::Flow(Module &M) : M(M), DL(M.getDataLayout()) {
  if (auto *C = structByName(M, "Cora"))
    for (auto &f : C->fields) {
      const StructInfo *U = structOf(f.di);
      if (!U)
        continue;
      const Field *v = U->get("v");
      if (v && U->get("type"))
        vecs.insert(f.off);
      else
        for (auto &g : U->fields)
          if (const StructInfo *V = structOf(g.di))
            if (V->get("v") && V->get("type"))
              vecs.insert(f.off + g.off);
    }
  co = leaf("co", true);
}
int64_t Flow::off(const char *st, const char *field) {
  std::string fs = field;
  int64_t o = 0;
  const StructInfo *S = structByName(M, st);
  size_t p = 0;
  while (S && p <= fs.size()) {
    size_t q = fs.find('.', p);
    std::string f = fs.substr(p, q == std::string::npos ? q : q - p);
    const Field *F = S->get(f);
    if (!F) {
      R.breakage(std::string(st) + " has no field " + field);
      return 0;
    }
    o += F->off;
    if (q == std::string::npos)
      return o;
    S = structOf(F->di);
    p = q + 1;
  }
  R.breakage(std::string("no structure ") + st);
  return 0;
}
Analyses &Flow::analyses(const Function *F) {
  auto &a = an[F];
  if (!a)
    a = std::make_unique<Analyses>(*const_cast<Function *>(F));
  return *a;
}
// ------------------------------------------------------------------ atoms
Lin Flow::node(const std::string &op, const std::vector<Lin> &args, bool ptr) {
  std::string key = op;
  for (auto &a : args)
    key += "|" + a.str();
  auto &n = intern[key];
  if (n.empty()) {
    n = "n" + std::to_string(intern.size());
    auto &N = nodes[n];
    N.op = op;
    N.args = args;
    N.born = fresh;
  }
  if (ptr)
    nodes[n].ptr = true;
  Lin l;
  l.t[n] = 1;
  return l;
}
Lin Flow::leaf(const std::string &name, bool ptr) { return node("'" + name, {}, ptr); }
Lin Flow::unk(const char *why, bool ptr) {
  return leaf(std::string(why) + "#" + std::to_string(++fresh), ptr);
}
const Flow::Node *Flow::single(const Lin &l) const {
  if (l.c || l.t.size() != 1 || l.t.begin()->second != 1)
    return nullptr;
  auto it = nodes.find(l.t.begin()->first);
  return it == nodes.end() ? nullptr : &it->second;
}
Lin Flow::subst(const Lin &l, const std::string &atom, const Lin &by) {
  Lin r;
  r.c = l.c;
  for (auto &t : l.t) {
    if (t.first == atom) {
      r = r + by * t.second;
      continue;
    }
    const Node N = nodes[t.first];
    Lin me;
    me.t[t.first] = 1;
    bool ch = false;
    std::vector<Lin> as;
    for (auto &a : N.args) {
      as.push_back(subst(a, atom, by));
      ch |= !(as.back() == a);
    }
    if (ch)
      me = node(N.op, as, N.ptr);
    r = r + me * t.second;
  }
  return r;
}
bool Flow::mentions(const Lin &l, const std::function<bool(const std::string &, const Node &)> &p) const {
  for (auto &t : l.t) {
    auto it = nodes.find(t.first);
    if (it == nodes.end())
      continue;
    if (p(t.first, it->second))
      return true;
    for (auto &a : it->second.args)
      if (mentions(a, p))
        return true;
  }
  return false;
}
std::string Flow::show(const Lin &l) const {
  std::string s;
  for (auto &t : l.t) {
    if (!s.empty())
      s += " + ";
    if (t.second != 1)
      s += std::to_string(t.second) + "*";
    auto it = nodes.find(t.first);
    if (it == nodes.end()) {
      s += t.first;
      continue;
    }
    const Node &N = it->second;
    if (N.op[0] == '\'')
      s += N.op.substr(1);
    else {
      s += N.op + "(";
      for (size_t i = 0; i < N.args.size(); i++)
        s += (i ? ", " : "") + show(N.args[i]);
      s += ")";
    }
  }
  if (l.c || s.empty())
    s += (s.empty() ? "" : " + ") + std::to_string(l.c);
  return s.size() > 300 ? s.substr(0, 300) + ".." : s;
}
std::string Flow::root(const Lin &l) const {
  std::string r;
  for (auto &t : l.t) {
    auto it = nodes.find(t.first);
    if (it == nodes.end() || !it->second.ptr)
      continue;
    if (!r.empty() || t.second != 1)
      return "";
    r = t.first;
  }
  return r;
}
// ------------------------------------------------------------------ memory
bool Flow::le(const FState &S, const Lin &a, const Lin &b) const {
  Lin g = a - b;
  if (g.isConst())
    return g.c <= 0;
  if (S.facts.prove(g, 3))
    return true;
  // a common factor of the terms
  int64_t d = 0;
  for (auto &t : g.t)
    d = std::gcd(d, t.second);
  if (d > 1) {
    Lin q;
    for (auto &t : g.t)
      q.t[t.first] = t.second / d;
    q.c = g.c >= 0 ? (g.c + d - 1) / d : -((-g.c) / d); // ceil
    if (S.facts.prove(q, 3))
      return true;
  }
  return false;
}
bool Flow::eq(const FState &S, const Lin &a, const Lin &b) const { return a == b || (le(S, a, b) && le(S, b, a)); }

void Flow::store(FState &S, const Lin &addr, uint64_t size, const Lin &v) {
  FWr w;
  w.lo = addr;
  w.len.c = size;
  w.unit = size;
  w.s.k = FSrc::Val;
  w.s.v = v;
  S.w.push_back(w);
}
static bool divisible(const Lin &l, int64_t d, Lin &q) {
  q = Lin();
  if (l.c % d)
    return false;
  q.c = l.c / d;
  for (auto &t : l.t) {
    if (t.second % d)
      return false;
    q.t[t.first] = t.second / d;
  }
  return true;
}
static Lin highPart(const Lin &l) {
  Lin r;
  const int64_t K = 1ll << 32;
  for (auto &t : l.t)
    if (t.second % K == 0)
      r.t[t.first] = t.second / K;
  r.c = (l.c - (int64_t)(int32_t)l.c) / K;
  return r;
}
static Lin lowPart(const Lin &l) {
  Lin r;
  const int64_t K = 1ll << 32;
  for (auto &t : l.t)
    if (t.second % K)
      r.t[t.first] = t.second;
  r.c = (int32_t)l.c;
  return r;
}
Lin Flow::load(const FState &S, const Lin &addr, uint64_t size, bool ptr, size_t snap) {
  size_t n = std::min(snap, S.w.size());
  Lin sz, end;
  sz.c = size;
  end = addr + sz;
  std::string r = root(addr);
  if (size == 8 && r == co.t.begin()->first) {
    Lin o = addr - co;
    if (o.isConst() && vecs.count(o.c))
      return node("vec", {addr}, true);
  }
  for (size_t i = n; i-- > 0;) {
    const FWr &w = S.w[i];
    std::string q = root(w.lo);
    if (r != q && !r.empty() && !q.empty())
      continue;
    Lin d = addr - w.lo;
    bool in = d == Lin() && w.len == sz;
    if (!in) {
      if (le(S, end, w.lo) || le(S, w.lo + w.len, addr))
        continue;
      in = le(S, w.lo, addr) && le(S, end, w.lo + w.len);
      // the pieces of a long copy whose size is not known here
    }
    if (!in) {
      Lin u = unk("mixed", ptr);
      mixed[u.t.begin()->first] = {addr, size, snap};
      reads.push_back({addr, size, snap});
      return u;
    }
    switch (w.s.k) {
    case FSrc::Val: {
      if (w.unit == size) {
        Lin q1;
        if (d.isConst() ? d.c % (int64_t)size == 0 : divisible(d, size, q1)) {
          if (ptr && single(w.s.v))
            nodes[w.s.v.t.begin()->first].ptr = true;
          return w.s.v;
        }
      }
      if (w.s.v.isConst() && w.s.v.c == 0)
        return Lin();
      if (w.unit == 8 && size == 4 && d.isConst()) {
        auto *N = single(w.s.v);
        if (N && N->op == "ld8") {
          Lin a = N->args[0];
          a.c += ((d.c % 8) + 8) % 8;
          return node("ld4", {a});
        }
        if (d.c % 8 == 0)
          return lowPart(w.s.v);
        if ((d.c - 4) % 8 == 0)
          return highPart(w.s.v);
      }
      return unk("part", ptr);
    }
    case FSrc::Copy:
      return load(S, w.s.v + d, size, ptr, w.s.snap);
    case FSrc::Elem: {
      Lin k;
      if (w.unit == size && divisible(d, size, k))
        return subst(w.s.v, w.s.idx, k);
      return unk("elem", ptr);
    }
    case FSrc::Unknown:
      return unk("overwritten", ptr);
    }
  }
  reads.push_back({addr, size, snap});
  return node("ld" + std::to_string(size), {addr}, ptr);
}
bool Flow::holdsCopy(const FState &S, Lin lo, Lin len, const Lin &src, std::string &why, size_t snap, int depth) {
  if (le(S, len, Lin()))
    return true;
  if (depth > 12) {
    why = "too many pieces";
    return false;
  }
  size_t n = std::min(snap, S.w.size());
  std::string r = root(lo);
  for (size_t i = n; i-- > 0;) {
    const FWr &w = S.w[i];
    std::string q = root(w.lo);
    if (r != q && !r.empty() && !q.empty())
      continue;
    Lin end = lo + len, wend = w.lo + w.len;
    if (le(S, end, w.lo) || le(S, wend, lo) || le(S, w.len, Lin()))
      continue;
    bool below = le(S, w.lo, lo), above = le(S, end, wend);
    if (!below) { // the part before the write
      if (!le(S, lo, w.lo)) {
        why = "cannot tell where a store lies: " + show(w.lo);
        return false;
      }
      Lin first = w.lo - lo;
      return holdsCopy(S, lo, first, src, why, i, depth + 1) &&
             holdsCopy(S, w.lo, len - first, src + first, why, snap, depth + 1);
    }
    if (!above) {
      if (!le(S, wend, end)) {
        why = "cannot tell how far a store reaches: " + show(w.len) + " bytes, " + show(len) + " expected";
        return false;
      }
      Lin first = wend - lo;
      return holdsCopy(S, lo, first, src, why, snap, depth + 1) &&
             holdsCopy(S, wend, len - first, src + first, why, i, depth + 1);
    }
    Lin d = lo - w.lo;
    if (w.s.k == FSrc::Copy)
      return holdsCopy(S, w.s.v + d, len, src, why, w.s.snap, depth + 1);
    if (w.s.k == FSrc::Val && w.len.isConst() && (uint64_t)w.len.c == w.unit && d == Lin()) {
      Lin want = node("ld" + std::to_string(w.unit), {src});
      if (w.s.v == want)
        return true;
      // a value known to be the initial contents of a copied object
      why = "holds " + show(w.s.v) + " instead of " + show(want);
      return false;
    }
    if (w.s.k == FSrc::Elem) {
      // element number (d / unit) + k
      Lin k0;
      if (divisible(d, w.unit, k0)) {
        Lin k;
        k.t[w.s.idx] = 1;
        Lin got = subst(w.s.v, w.s.idx, k + k0);
        Lin want = node("ld" + std::to_string(w.unit), {src + k * (int64_t)w.unit});
        if (got == want)
          return true;
        why = "element k holds " + show(got) + " instead of " + show(want);
        return false;
      }
    }
    why = "holds something else";
    return false;
  }
  if (lo == src)
    return true;
  why = "holds the former contents of " + show(lo) + " instead of those of " + show(src);
  return false;
}
bool Flow::holdsElems(const FState &S, Lin lo, Lin count, const Lin &elem, const std::string &k, std::string &why) {
  if (le(S, count, Lin()))
    return true;
  std::string r = root(lo);
  for (size_t i = S.w.size(); i-- > 0;) {
    const FWr &w = S.w[i];
    std::string q = root(w.lo);
    if (r != q && !r.empty() && !q.empty())
      continue;
    Lin end = lo + count * 8, wend = w.lo + w.len;
    if (le(S, end, w.lo) || le(S, wend, lo) || le(S, w.len, Lin()))
      continue;
    if (!le(S, w.lo, lo) || !le(S, end, wend)) {
      why = "cannot tell what a store overwrites: " + show(w.lo);
      return false;
    }
    Lin d = lo - w.lo, k0;
    if (w.s.k == FSrc::Elem && w.unit == 8 && divisible(d, 8, k0)) {
      Lin kk;
      kk.t[k] = 1;
      Lin got = subst(w.s.v, w.s.idx, kk + k0);
      if (got == elem)
        return true;
      why = "element k is " + show(got) + " instead of " + show(elem);
      return false;
    }
    if (w.s.k == FSrc::Val && w.len.isConst() && w.len.c == 8 && d == Lin()) {
      Lin got = w.s.v, want = subst(elem, k, Lin());
      if (got == want)
        return true;
    }
    why = "holds something else";
    return false;
  }
  why = "was not stored";
  return false;
}
// ------------------------------------------------------------------ values
Lin Flow::val(const Value *V, FState &S) {
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    Lin l;
    l.c = C->getBitWidth() <= 64 ? C->getSExtValue() : 0;
    if (C->getBitWidth() == 1)
      l.c = C->isOne();
    return l;
  }
  if (isa<ConstantPointerNull>(V))
    return Lin();
  if (isa<UndefValue>(V))
    return leaf("undef");
  if (auto *F = dyn_cast<Function>(V)) {
    Lin l = leaf("@" + F->getName().str());
    nodes[l.t.begin()->first].fn = F;
    return l;
  }
  if (auto *G = dyn_cast<GlobalValue>(V))
    return leaf("@" + G->getName().str(), true);
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (CE->isCast())
      return val(CE->getOperand(0), S);
    if (auto *G = dyn_cast<GEPOperator>(CE)) {
      APInt o(64, 0);
      if (G->accumulateConstantOffset(DL, o)) {
        Lin l = val(G->getPointerOperand(), S);
        l.c += o.getSExtValue();
        return l;
      }
    }
    return leaf("constant");
  }
  if (isa<ConstantFP>(V)) {
    std::string s;
    raw_string_ostream os(s);
    V->printAsOperand(os, false);
    return leaf(s);
  }
  auto it = S.env.find(V);
  if (it != S.env.end())
    return it->second;
  return unk("value", V->getType()->isPointerTy());
}
std::vector<Flow::Alt> Flow::alts(const Value *C, bool truth, FState &S, int depth) {
  std::vector<Alt> any(1);
  if (depth > 8)
    return any;
  auto ci = S.cond.find(C);
  if (ci != S.cond.end())
    return alts(ci->second, truth, S, depth + 1);
  if (auto *K = dyn_cast<ConstantInt>(C))
    return K->isOne() == truth ? any : std::vector<Alt>();
  auto both = [&](const std::vector<Alt> &a, const std::vector<Alt> &b) {
    std::vector<Alt> r;
    for (auto &x : a)
      for (auto &y : b) {
        Alt z = x;
        z.le.insert(z.le.end(), y.le.begin(), y.le.end());
        z.ne.insert(z.ne.end(), y.ne.begin(), y.ne.end());
        z.eq.insert(z.eq.end(), y.eq.begin(), y.eq.end());
        r.push_back(z);
      }
    return r;
  };
  auto conj = [&](const Value *a, bool ta, const Value *b, bool tb, bool all) {
    // all: a==ta and b==tb; otherwise its negation
    if (all)
      return both(alts(a, ta, S, depth + 1), alts(b, tb, S, depth + 1));
    auto r = alts(a, !ta, S, depth + 1);
    for (auto &x : both(alts(a, ta, S, depth + 1), alts(b, !tb, S, depth + 1)))
      r.push_back(x);
    return r;
  };
  if (auto *X = dyn_cast<BinaryOperator>(C)) {
    auto *one = dyn_cast<ConstantInt>(X->getOperand(1));
    if (X->getOpcode() == Instruction::Xor && one && one->isOne())
      return alts(X->getOperand(0), !truth, S, depth + 1);
    if (X->getOpcode() == Instruction::And)
      return conj(X->getOperand(0), true, X->getOperand(1), true, truth);
    if (X->getOpcode() == Instruction::Or)
      return conj(X->getOperand(0), false, X->getOperand(1), false, !truth);
    return any;
  }
  if (auto *X = dyn_cast<SelectInst>(C)) {
    auto r = both(alts(X->getCondition(), true, S, depth + 1), alts(X->getTrueValue(), truth, S, depth + 1));
    for (auto &y : both(alts(X->getCondition(), false, S, depth + 1), alts(X->getFalseValue(), truth, S, depth + 1)))
      r.push_back(y);
    return r;
  }
  if (auto *X = dyn_cast<FreezeInst>(C))
    return alts(X->getOperand(0), truth, S, depth + 1);
  auto *I = dyn_cast<ICmpInst>(C);
  if (!I) {
    // an opaque condition: its value is an atom of its own
    Lin v = val(C, S);
    Alt a;
    Lin one;
    one.c = truth ? 1 : 0;
    a.eq.push_back(v - one);
    return {a};
  }
  auto p = truth ? I->getPredicate() : I->getInversePredicate();
  Lin d = val(I->getOperand(0), S) - val(I->getOperand(1), S);
  Lin one;
  one.c = 1;
  Alt a;
  switch (p) {
  case CmpInst::ICMP_EQ:
    a.eq.push_back(d);
    break;
  case CmpInst::ICMP_NE:
    a.ne.push_back(d);
    break;
  case CmpInst::ICMP_SLT:
  case CmpInst::ICMP_ULT:
    a.le.push_back(d + one);
    break;
  case CmpInst::ICMP_SLE:
  case CmpInst::ICMP_ULE:
    a.le.push_back(d);
    break;
  case CmpInst::ICMP_SGT:
  case CmpInst::ICMP_UGT:
    a.le.push_back(d * -1 + one);
    break;
  case CmpInst::ICMP_SGE:
  case CmpInst::ICMP_UGE:
    a.le.push_back(d * -1);
    break;
  default:
    break;
  }
  return {a};
}
bool Flow::assume(FState &S, const Alt &a) {
  Lin one;
  one.c = 1;
  for (auto &l : a.le) {
    if (le(S, one, l)) // l >= 1
      return false;
    S.facts.add(l);
  }
  for (auto &l : a.eq) {
    if (l.isConst() ? l.c != 0 : (le(S, one, l) || le(S, one, l * -1)))
      return false;
    for (auto &n : S.facts.ne0)
      if (n == l || n == l * -1)
        return false;
    S.facts.add(l);
    S.facts.add(l * -1);
    S.eq0.push_back(l);
  }
  for (auto &l : a.ne) {
    if (l.isConst() ? l.c == 0 : (le(S, l, Lin()) && le(S, l * -1, Lin())))
      return false;
    S.facts.ne0.push_back(l);
    // x != 0 with x <= 0 or x >= 0 known
    if (le(S, l, Lin()))
      S.facts.add(l + one);
    else if (le(S, l * -1, Lin()))
      S.facts.add(l * -1 + one);
  }
  // an older x != 0 may have become strict
  return true;
}
// ------------------------------------------------------------------ calls
bool Flow::call(const CallBase *CB, FState &S) {
  std::string n = calleeName(CB);
  bool ptr = CB->getType()->isPointerTy();
  if (auto *MI = dyn_cast<AnyMemTransferInst>(CB)) {
    FWr w;
    w.lo = val(MI->getRawDest(), S);
    w.len = val(MI->getLength(), S);
    w.unit = 1;
    w.s.k = FSrc::Copy;
    w.s.v = val(MI->getRawSource(), S);
    w.s.snap = S.w.size();
    // memcpy inside one object: the two places must be apart
    if (isa<AnyMemCpyInst>(MI)) {
      Lin d = w.lo - w.s.v;
      bool same = true;
      for (auto &t : d.t)
        same &= !nodes[t.first].ptr;
      if (same && !(d == Lin()) && !le(S, w.len, d) && !le(S, w.len, d * -1))
        w.s.k = FSrc::Unknown;
    }
    S.w.push_back(w);
    return true;
  }
  if (auto *MI = dyn_cast<AnyMemSetInst>(CB)) {
    FWr w;
    w.lo = val(MI->getRawDest(), S);
    w.len = val(MI->getLength(), S);
    w.unit = 1;
    auto *K = dyn_cast<ConstantInt>(MI->getValue());
    w.s.k = K && K->isZero() ? FSrc::Val : FSrc::Unknown;
    S.w.push_back(w);
    return true;
  }
  if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
    if (II->getIntrinsicID() == Intrinsic::expect) {
      S.env[CB] = val(II->getArgOperand(0), S);
      return true;
    }
    if (II->getIntrinsicID() == Intrinsic::trap)
      return false;
    if (!CB->getType()->isVoidTy())
      S.env[CB] = unk("intrinsic", ptr);
    return true;
  }
  FEv e;
  e.name = n;
  e.CB = CB;
  e.snap = S.w.size();
  for (auto &a : CB->args())
    e.args.push_back(val(a, S));
  if (CB->doesNotReturn() || n == "abort" || n == "exit" || n == "__assert_fail")
    return false;
  if (n == "_vector_append" && e.args.size() == 3 && e.args[2].isConst()) {
    Lin o = e.args[0] - co;
    int64_t lenOff = off("Vector", "len");
    Lin la = e.args[0];
    la.c += lenOff;
    Lin len = load(S, la, 4, false);
    FWr w;
    w.lo = (o.isConst() && vecs.count(o.c) ? node("vec", {e.args[0]}, true) : load(S, e.args[0], 8, true)) + len * e.args[2].c;
    w.len = e.args[2];
    w.unit = 1;
    w.s.k = FSrc::Copy;
    w.s.v = e.args[1];
    w.s.snap = S.w.size();
    S.w.push_back(w);
    Lin one;
    one.c = 1;
    store(S, la, 4, len + one);
    return true;
  }
  if (n == "malloc" || n == "calloc" || n == "realloc" || n == "newObj" || n == "gcAlloc") {
    e.result = unk(n.c_str(), true);
    S.env[CB] = e.result;
    S.ev.push_back(e);
    return true;
  }
  if (n == "makeNative" && e.args.size() >= 5) {
    Lin P = unk("makeNative", true);
    auto at = [&](const char *f) {
      Lin a = P;
      a.c += off("scmNative", f);
      return a;
    };
    store(S, at("nframe"), 4, e.args[1]);
    store(S, at("fn"), 8, e.args[2]);
    store(S, at("required"), 4, e.args[3]);
    store(S, at("captured"), 4, e.args[4]);
    for (size_t i = 5; i < e.args.size(); i++) {
      Lin a = at("data");
      a.c += 8 * (i - 5);
      store(S, a, 8, e.args[i]);
    }
    e.result = node("obj", {P});
    S.env[CB] = e.result;
    S.ev.push_back(e);
    return true;
  }
  if (n == "makeCons" && e.args.size() == 3) {
    Lin P = unk("makeCons", true);
    Lin a = P, d = P;
    a.c += off("scmCons", "car");
    d.c += off("scmCons", "cdr");
    store(S, a, 8, e.args[1]);
    store(S, d, 8, e.args[2]);
    e.result = node("obj", {P});
    S.env[CB] = e.result;
    S.ev.push_back(e);
    return true;
  }
  if (n == "tag") {
    S.env[CB] = node("tag", e.args);
    return true;
  }
  if (!CB->getType()->isVoidTy())
    S.env[CB] = e.result = unk(n.empty() ? "indirect" : n.c_str(), ptr);
  bool known = events.count(n);
  const Function *C = CB->getCalledFunction();
  if (!known && !(C && (C->doesNotAccessMemory() || C->onlyReadsMemory())))
    for (unsigned i = 0; i < CB->arg_size(); i++) {
      if (!CB->getArgOperand(i)->getType()->isPointerTy() || CB->onlyReadsMemory(i))
        continue;
      std::string r = root(e.args[i]);
      if (r.empty())
        continue;
      // what the call may write is no longer known
      FWr w;
      w.lo.t[r] = 1;
      w.lo.c = -(1ll << 40);
      w.len.c = 1ll << 41;
      w.unit = 1;
      S.w.push_back(w);
    }
  S.ev.push_back(e);
  return true;
}
// ------------------------------------------------------------------ paths
FState Flow::enter(const Function *F, const std::vector<Lin> &args, const FState *from) {
  FState S;
  if (from)
    S = *from;
  S.env.clear();
  S.cond.clear();
  S.stay.clear();
  S.stayNe.clear();
  for (unsigned i = 0; i < F->arg_size() && i < args.size(); i++)
    S.env[F->getArg(i)] = args[i];
  return S;
}
std::vector<FState> Flow::run(const Function *F, FState S) {
  work = 0;
  std::vector<FState> r;
  for (auto &o : explore(F, S, &F->getEntryBlock(), nullptr, nullptr, analyses(F)))
    if (o.kind == Out::Ret)
      r.push_back(o.S);
  return r;
}
std::vector<Flow::Out> Flow::explore(const Function *F, FState S0, const BasicBlock *B0, const BasicBlock *P0,
                                     const Loop *within, Analyses &A) {
  struct Item {
    FState S;
    const BasicBlock *B, *P;
    const Instruction *at; // resume here
    bool enter;            // into a loop header whose values were set
  };
  std::vector<Out> outs;
  std::vector<Item> todo;
  todo.push_back({S0, B0, P0, nullptr, within && B0 == within->getHeader()});
  while (!todo.empty()) {
    if (++work > limit) {
      overflow = true;
      return outs;
    }
    Item it = std::move(todo.back());
    todo.pop_back();
    FState &S = it.S;
    const BasicBlock *B = it.B;
    const Instruction *I = it.at;
    if (!I) {
      if (it.enter)
        I = B->getFirstNonPHI();
      else {
        const Loop *L = A.LI.getLoopFor(B);
        if (L && L->getHeader() == B && L != within) {
          std::vector<Out> lo;
          loop(L, S, it.P, lo, A, F);
          for (auto &o : lo) {
            if (o.kind == Out::Ret) {
              outs.push_back(o);
              continue;
            }
            if (within && o.to == within->getHeader()) {
              outs.push_back({o.S, Out::Back, o.to, o.pred});
              continue;
            }
            if (within && !within->contains(o.to)) {
              outs.push_back({o.S, Out::Exit, o.to, o.pred});
              continue;
            }
            todo.push_back({o.S, o.to, o.pred, nullptr, false});
          }
          continue;
        }
        std::vector<std::pair<const Value *, Lin>> up;
        std::vector<std::pair<const Value *, const Value *>> cu;
        for (auto &P : B->phis()) {
          const Value *v = it.P ? P.getIncomingValueForBlock(it.P) : nullptr;
          if (P.getType()->isIntegerTy(1) && v && !isa<ConstantInt>(v)) {
            auto c = S.cond.find(v);
            cu.push_back({&P, c == S.cond.end() ? v : c->second});
          } else {
            up.push_back({&P, v ? val(v, S) : unk("phi", P.getType()->isPointerTy())});
            cu.push_back({&P, nullptr});
          }
        }
        for (auto &u : up)
          S.env[u.first] = u.second;
        for (auto &u : cu)
          if (u.second)
            S.cond[u.first] = u.second;
          else
            S.cond.erase(u.first);
        I = B->getFirstNonPHI();
      }
    }
    bool dead = false;
    for (; I && !I->isTerminator() && !dead; I = I->getNextNode()) {
      if (isDbgOrLifetime(I))
        continue;
      bool ptr = I->getType()->isPointerTy();
      if (auto *CB = dyn_cast<CallBase>(I)) {
        dead = !call(CB, S);
      } else if (auto *AI = dyn_cast<AllocaInst>(I)) {
        S.env[I] = unk("local", true);
        (void)AI;
      } else if (auto *L = dyn_cast<LoadInst>(I)) {
        Lin a = val(L->getPointerOperand(), S);
        // constants of other units
        const Value *P = L->getPointerOperand()->stripPointerCasts();
        if (auto *G = dyn_cast<GlobalVariable>(P); G && G->isConstant() && G->hasInitializer() && isa<ConstantInt>(G->getInitializer()))
          S.env[I] = val(G->getInitializer(), S);
        else if (L->getType()->isIntegerTy(1) || L->getType()->isSized())
          S.env[I] = load(S, a, DL.getTypeStoreSize(L->getType()), ptr);
      } else if (auto *T = dyn_cast<StoreInst>(I)) {
        Lin v = val(T->getValueOperand(), S);
        store(S, val(T->getPointerOperand(), S), DL.getTypeStoreSize(T->getValueOperand()->getType()), v);
      } else if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
        Lin a = val(G->getPointerOperand(), S);
        MapVector<Value *, APInt> vs;
        APInt c(64, 0);
        if (cast<GEPOperator>(G)->collectOffset(DL, 64, vs, c)) {
          a.c += c.getSExtValue();
          for (auto &v : vs)
            a = a + val(v.first, S) * v.second.getSExtValue();
        } else
          a = unk("address", true);
        S.env[I] = a;
      } else if (auto *C = dyn_cast<CastInst>(I)) {
        const Value *o = C->getOperand(0);
        if (o->getType()->isIntegerTy(1)) {
          // 0 or 1
          FState T = S;
          bool first = true;
          auto vf = alts(o, false, S), vt = alts(o, true, S);
          std::vector<std::pair<Alt, int>> all;
          for (auto &a : vf)
            all.push_back({a, 0});
          for (auto &a : vt)
            all.push_back({a, isa<SExtInst>(C) ? -1 : 1});
          bool live = false;
          for (auto &p : all) {
            FState N = T;
            if (!assume(N, p.first))
              continue;
            Lin k;
            k.c = p.second;
            N.env[I] = k;
            if (first) {
              S = N;
              first = false;
              live = true;
            } else
              todo.push_back({N, B, it.P, I->getNextNode(), false});
          }
          dead = !live;
          continue;
        }
        Lin x = val(o, S);
        if (isa<TruncInst>(C) && o->getType()->isIntegerTy(64) && I->getType()->isIntegerTy(32)) {
          auto *N = single(x);
          if (N && N->op == "ld8")
            x = node("ld4", {N->args[0]});
          else
            x = lowPart(x);
          S.env[I] = x;
        } else if (isa<FPToSIInst>(C) || isa<FPToUIInst>(C) || isa<SIToFPInst>(C) || isa<UIToFPInst>(C) ||
                   isa<FPTruncInst>(C) || isa<FPExtInst>(C))
          S.env[I] = node(C->getOpcodeName(), {x});
        else if (isa<TruncInst>(C) && I->getType()->getIntegerBitWidth() < 32)
          S.env[I] = node("trunc" + std::to_string(I->getType()->getIntegerBitWidth()), {x});
        else
          S.env[I] = x;
      } else if (auto *X = dyn_cast<BinaryOperator>(I)) {
        if (I->getType()->isIntegerTy(1))
          continue; // conditions are read structurally
        Lin a = val(X->getOperand(0), S), b = val(X->getOperand(1), S), q;
        Lin r;
        bool done = true;
        if (a.isConst() && !b.isConst() && X->isCommutative())
          std::swap(a, b);
        switch (X->getOpcode()) {
        case Instruction::Add:
          r = a + b;
          break;
        case Instruction::Sub:
          r = a - b;
          break;
        case Instruction::Mul:
          if (b.isConst())
            r = a * b.c;
          else if (a.isConst())
            r = b * a.c;
          else
            done = false;
          break;
        case Instruction::Shl:
          if (b.isConst() && b.c >= 0 && b.c < 62)
            r = a * (1ll << b.c);
          else
            done = false;
          break;
        case Instruction::Or:
          if (cast<PossiblyDisjointInst>(X)->isDisjoint())
            r = a + b;
          else if (b.isConst() && (uint64_t)b.c >> 48 && !((uint64_t)b.c << 16) && single(a) && nodes[a.t.begin()->first].ptr)
            r = node("obj", {a}); // a value made from an address
          else if (auto *N = single(a); N && b.isConst() && N->op == "obj")
            r = a;
          else
            done = false;
          break;
        case Instruction::And:
          if (b.isConst() && (uint64_t)b.c == 0xFFFFFFFFFFFFull) {
            auto *N = single(a);
            r = N && N->op == "obj" ? N->args[0] : node("ptr", {a}, true);
          } else
            done = false;
          break;
        case Instruction::SDiv:
        case Instruction::UDiv:
          if (b.isConst() && b.c > 0 && divisible(a, b.c, q))
            r = q;
          else
            done = false;
          break;
        case Instruction::AShr:
        case Instruction::LShr:
          if (b.isConst() && b.c >= 0 && b.c < 62 && divisible(a, 1ll << b.c, q))
            r = q;
          else if (b.isConst() && b.c == 32) {
            auto *N = single(a);
            if (N && N->op == "ld8") {
              Lin ad = N->args[0];
              ad.c += 4;
              r = node("ld4", {ad});
            } else if (a.t.size() > 1)
              r = highPart(a);
            else
              done = false;
          } else
            done = false;
          break;
        default:
          done = false;
        }
        S.env[I] = done ? r : node(X->getOpcodeName(), {a, b});
      } else if (auto *X = dyn_cast<SelectInst>(I)) {
        if (I->getType()->isIntegerTy(1))
          continue;
        FState T = S;
        bool live = false;
        for (int t = 0; t < 2; t++)
          for (auto &a : alts(X->getCondition(), t, T)) {
            FState N = T;
            if (!assume(N, a))
              continue;
            N.env[I] = val(t ? X->getTrueValue() : X->getFalseValue(), N);
            if (!live) {
              S = N;
              live = true;
            } else
              todo.push_back({N, B, it.P, I->getNextNode(), false});
          }
        dead = !live;
      } else if (isa<ICmpInst>(I)) {
        continue;
      } else if (isa<FreezeInst>(I)) {
        if (!I->getType()->isIntegerTy(1))
          S.env[I] = val(I->getOperand(0), S);
      } else {
        std::vector<Lin> as;
        for (auto &o : I->operands())
          as.push_back(val(o, S));
        if (!I->getType()->isVoidTy())
          S.env[I] = node(I->getOpcodeName() + std::string(isa<FCmpInst>(I) ? std::to_string(cast<FCmpInst>(I)->getPredicate()) : ""), as, ptr);
      }
    }
    if (dead)
      continue;
    const Instruction *T = B->getTerminator();
    auto go = [&](FState N, const BasicBlock *to) {
      if (endsInTrap(to))
        return;
      if (within && to == within->getHeader())
        outs.push_back({N, Out::Back, to, B});
      else if (within && !within->contains(to))
        outs.push_back({N, Out::Exit, to, B});
      else
        todo.push_back({N, to, B, nullptr, false});
    };
    if (isa<ReturnInst>(T)) {
      S.end = T;
      outs.push_back({S, Out::Ret, nullptr, B});
    } else if (auto *BI = dyn_cast<BranchInst>(T)) {
      if (BI->isUnconditional()) {
        go(S, BI->getSuccessor(0));
        continue;
      }
      for (int t = 0; t < 2; t++) {
        const BasicBlock *to = BI->getSuccessor(t ? 0 : 1);
        for (auto &a : alts(BI->getCondition(), t, S)) {
          FState N = S;
          if (!assume(N, a))
            continue;
          if (within) {
            for (auto &l : a.le)
              N.stay[B].push_back(l);
            for (auto &l : a.eq)
              N.stay[B].push_back(l), N.stay[B].push_back(l * -1);
            for (auto &l : a.ne)
              N.stayNe[B].push_back(l);
          }
          go(N, to);
        }
      }
    } else if (auto *SW = dyn_cast<SwitchInst>(T)) {
      Lin c = val(SW->getCondition(), S);
      Alt def;
      for (auto &k : SW->cases()) {
        Lin v;
        v.c = k.getCaseValue()->getSExtValue();
        Alt a;
        a.eq.push_back(c - v);
        def.ne.push_back(c - v);
        FState N = S;
        if (assume(N, a))
          go(N, k.getCaseSuccessor());
      }
      FState N = S;
      if (assume(N, def))
        go(N, SW->getDefaultDest());
    }
  }
  return outs;
}
void Flow::loop(const Loop *L, const FState &S, const BasicBlock *pred, std::vector<Out> &outs, Analyses &A, const Function *F) {
  const BasicBlock *H = L->getHeader();
  std::string id = "L" + std::to_string(++fresh);
  std::vector<const PHINode *> phis;
  for (auto &P : H->phis())
    phis.push_back(&P);
  FState S0 = S;
  S0.stay.clear();
  S0.stayNe.clear();
  std::vector<Lin> init;
  for (auto *P : phis)
    init.push_back(val(P->getIncomingValueForBlock(pred), S0));
  struct Cell {
    Lin addr;
    uint64_t size;
    Lin init;
  };
  std::vector<Cell> cells;
  std::vector<std::pair<Lin, Lin>> scratch; // locals an iteration fills wholesale: unknown when it starts
  auto spoil = [&](FState &T) {
    for (auto &c : scratch) {
      FWr w;
      w.lo = c.first;
      w.len = c.second;
      w.unit = 1;
      T.w.push_back(w);
    }
  };
  auto isLocal = [&](const Lin &l) {
    auto it = nodes.find(root(l));
    return it != nodes.end() && it->second.op.compare(0, 7, "'local#") == 0;
  };
  auto isLoopLeaf = [&](const std::string &, const Node &N) { return N.op.compare(0, id.size() + 2, "'" + id + "_") == 0; };
  auto varies = [&](const Lin &l) { return mentions(l, isLoopLeaf); };
  auto fail = [&](const std::string &why) {
    notes.push_back(F->getName().str() + ": " + why + " at " + loc(H->getFirstNonPHI()));
    // everything it may write is unknown from here on
    FState X = S0;
    std::set<std::string> roots;
    std::vector<const Value *> vs;
    FState T = S0;
    for (size_t i = 0; i < phis.size(); i++)
      T.env[phis[i]] = unk("lost", phis[i]->getType()->isPointerTy());
    for (auto *B : L->blocks())
      for (auto &I : *B)
        T.env.erase(&I);
    for (size_t i = 0; i < phis.size(); i++)
      T.env[phis[i]] = unk("lost", phis[i]->getType()->isPointerTy());
    FWr w; // an unknown place: may be anything
    w.lo = unk("anywhere");
    w.len.c = 1ll << 41;
    T.w.push_back(w);
    auto os = explore(F, T, H, nullptr, L, A);
    for (auto &o : os) {
      if (o.kind == Out::Back)
        continue;
      o.S.w.push_back(w);
      o.S.stay = S.stay;
      o.S.stayNe = S.stayNe;
      outs.push_back(o);
    }
  };
  // ---- which cells does an iteration rewrite
  auto iterate = [&](const std::vector<Lin> &ph, const std::vector<Lin> &cv, const std::vector<Lin> &extra) {
    FState T = S0;
    for (size_t i = 0; i < phis.size(); i++) {
      T.env[phis[i]] = ph[i];
      T.cond.erase(phis[i]);
    }
    for (size_t i = 0; i < cells.size(); i++)
      store(T, cells[i].addr, cells[i].size, cv[i]);
    spoil(T);
    for (auto &f : extra)
      T.facts.add(f);
    T.ev.clear();
    return explore(F, T, H, nullptr, L, A);
  };
  // two ways to stay that leave the same values behind are one: what only one of them knows is dropped
  auto same = [&](Out &a, Out &b) {
    if (a.S.w.size() != b.S.w.size() || a.S.ev.size() != b.S.ev.size())
      return false;
    for (size_t i = S0.w.size(); i < a.S.w.size(); i++) {
      auto &x = a.S.w[i], &y = b.S.w[i];
      if (!(x.lo == y.lo && x.len == y.len && x.unit == y.unit && x.sweep == y.sweep && x.s.k == y.s.k && x.s.v == y.s.v &&
            x.s.snap == y.s.snap && x.s.idx == y.s.idx))
        return false;
    }
    for (size_t i = 0; i < a.S.ev.size(); i++) {
      auto &x = a.S.ev[i], &y = b.S.ev[i];
      if (x.CB != y.CB || !(x.result == y.result) || x.args.size() != y.args.size() || x.snap != y.snap)
        return false;
      for (size_t j = 0; j < x.args.size(); j++)
        if (!(x.args[j] == y.args[j]))
          return false;
    }
    for (auto *P : phis)
      if (!(val(P->getIncomingValueForBlock(a.pred), a.S) == val(P->getIncomingValueForBlock(b.pred), b.S)))
        return false;
    return true;
  };
  auto meet = [](std::vector<Lin> &a, const std::vector<Lin> &b) {
    std::vector<Lin> r;
    for (auto &l : a)
      if (std::find_if(b.begin(), b.end(), [&](const Lin &m) { return m == l; }) != b.end())
        r.push_back(l);
    a = r;
  };
  auto backs = [&](std::vector<Out> &os) {
    std::vector<Out *> r;
    for (auto &o : os) {
      if (o.kind != Out::Back)
        continue;
      bool merged = false;
      for (auto *p : r)
        if (same(*p, o)) {
          meet(p->S.facts.le0, o.S.facts.le0);
          meet(p->S.facts.ne0, o.S.facts.ne0);
          meet(p->S.eq0, o.S.eq0);
          // why it stayed is no longer one condition: the number of iterations is not known
          p->S.stay.clear();
          p->S.stayNe.clear();
          merged = true;
          break;
        }
      if (!merged)
        r.push_back(&o);
    }
    return r;
  };
  auto leavesAtOnce = [&]() {
    cells.clear();
    for (auto &o : iterate(init, {}, {})) {
      if (o.kind == Out::Back)
        continue;
      o.S.ev.insert(o.S.ev.begin(), S0.ev.begin(), S0.ev.end());
      o.S.stay = S.stay;
      o.S.stayNe = S.stayNe;
      outs.push_back(o);
    }
  };
  std::vector<Lin> ph;
  for (size_t i = 0; i < phis.size(); i++)
    ph.push_back(leaf(id + "_phi" + std::to_string(i), phis[i]->getType()->isPointerTy()));
  for (int round = 0; round < 4; round++) {
    std::vector<Lin> cv;
    for (size_t i = 0; i < cells.size(); i++)
      cv.push_back(leaf(id + "_cell" + std::to_string(i)));
    unsigned born = fresh;
    auto os = iterate(ph, cv, {});
    auto bs = backs(os);
    if (overflow)
      return;
    if (bs.empty()) // leaves in its first iteration
      return leavesAtOnce();
    if (bs.size() > 1)
      return fail("a loop with several ways through its body");
    bool grew = false;
    FState &T = bs[0]->S;
    // places at a fixed distance first: where others lie may depend on them
    for (int far = 0; far < 2 && !grew; far++)
    for (size_t i = S0.w.size() + cells.size() + scratch.size(); i < T.w.size(); i++) {
      auto &w = T.w[i];
      if (varies(w.lo) || !w.len.isConst() || (!far && w.lo.t.size() != 1))
        continue;
      if (mentions(w.lo, [&](const std::string &, const Node &N) { return N.op[0] == '\'' && N.born > born; }))
        continue; // memory of this iteration
      bool have = false;
      for (auto &c : cells)
        have |= c.addr == w.lo && c.size == (uint64_t)w.len.c;
      for (auto &c : scratch)
        have |= c.first == w.lo && c.second == w.len;
      if (have)
        continue;
      if (w.len.c > 8 && isLocal(w.lo)) {
        scratch.push_back({w.lo, w.len});
        grew = true;
        break; // indices have moved
      }
      Cell c;
      c.addr = w.lo;
      c.size = w.len.c;
      if (c.size > 8)
        continue;
      c.init = load(S0, c.addr, c.size, false);
      cells.push_back(c);
      grew = true;
    }
    if (!grew)
      break;
    if (round == 3)
      return fail("a loop that rewrites too many places");
  }
  // ---- how the values change from one iteration to the next
  std::vector<Lin> cv;
  for (size_t i = 0; i < cells.size(); i++)
    cv.push_back(leaf(id + "_cell" + std::to_string(i)));
  unsigned born = fresh;
  auto os1 = iterate(ph, cv, {});
  auto bs1 = backs(os1);
  if (bs1.size() != 1)
    return fail("a loop with several ways through its body");
  Lin k = leaf(id + "_k");
  std::string ka = k.t.begin()->first;
  std::vector<Lin> at; // value at iteration k: phis then cells
  std::vector<int> kindOf;
  std::vector<Lin> next;
  size_t n = phis.size() + cells.size();
  for (size_t i = 0; i < n; i++) {
    bool isPhi = i < phis.size();
    Lin cur = isPhi ? ph[i] : cv[i - phis.size()];
    Lin ini = isPhi ? init[i] : cells[i - phis.size()].init;
    bool isPtr = isPhi && phis[i]->getType()->isPointerTy();
    Lin nx = isPhi ? val(phis[i]->getIncomingValueForBlock(bs1[0]->pred), bs1[0]->S)
                   : load(bs1[0]->S, cells[i - phis.size()].addr, cells[i - phis.size()].size, false);
    Lin d = nx - cur;
    std::string curAtom = cur.t.begin()->first;
    if (d.isConst())
      at.push_back(ini + k * d.c);
    else {
      bool own = true;
      mentions(nx, [&](const std::string &a, const Node &N) {
        if (a != curAtom && (isLoopLeaf(a, N) || (N.op[0] == '\'' && N.born > born)))
          own = false;
        return false;
      });
      Lin hole = leaf("@");
      if (own)
        at.push_back(node("iter", {ini, subst(nx, curAtom, hole), k}, isPtr));
      else {
        Lin r = node("rec", {leaf(id), leaf(std::to_string(i)), k}, isPtr);
        at.push_back(r);
      }
    }
  }
  std::vector<Lin> atPhi(at.begin(), at.begin() + phis.size()), atCell(at.begin() + phis.size(), at.end());
  Lin zero, one;
  one.c = 1;
  std::vector<Lin> kf = {k * -1};
  size_t r0 = reads.size();
  auto os2 = iterate(atPhi, atCell, kf);
  auto bs2 = backs(os2);
  if (bs2.empty())
    return leavesAtOnce();
  if (bs2.size() != 1)
    return fail("a loop with several ways through its body");
  // ---- number of iterations before leaving, per exit
  struct Ex {
    const BasicBlock *B, *to;
    bool known = false;
    Lin T;
  };
  std::vector<Ex> exits;
  for (auto &o : os2)
    if (o.kind == Out::Exit) {
      bool have = false;
      for (auto &e : exits)
        have |= e.B == o.pred && e.to == o.to;
      if (!have)
        exits.push_back({o.pred, o.to});
    } else if (o.kind == Out::Ret)
      return fail("a return inside a loop");
  bool oneExit = exits.size() == 1;
  for (auto &e : exits) {
    auto &st = bs2[0]->S.stay[e.B];
    auto &ne = bs2[0]->S.stayNe[e.B];
    auto coef = [&](const Lin &l) {
      auto it = l.t.find(ka);
      return it == l.t.end() ? (int64_t)0 : it->second;
    };
    auto rest = [&](Lin l) {
      l.t.erase(ka);
      return l;
    };
    if (oneExit && st.size() == 1 && ne.empty() && coef(st[0]) > 0) {
      Lin a = rest(st[0]);
      int64_t b = coef(st[0]);
      if (!mentions(a, [&](const std::string &x, const Node &) { return x == ka; })) {
        // stays while a + b k <= 0: T = floor(-a / b) + 1
        Lin q, x = a * -1;
        if (b == 1) {
          e.T = x + one;
          e.known = true;
        } else {
          x.c += 0;
          // terms divisible, constant rounded down
          Lin y = x;
          int64_t c = y.c;
          y.c = 0;
          if (divisible(y, b, q)) {
            q.c = (c >= 0 ? c / b : -((-c + b - 1) / b)) + 1;
            e.T = q;
            e.known = true;
          }
        }
      }
    } else if (oneExit && st.empty() && ne.size() == 1 && coef(ne[0])) {
      Lin a = rest(ne[0]), q;
      int64_t b = coef(ne[0]);
      if (!mentions(a, [&](const std::string &x, const Node &) { return x == ka; })) {
        Lin x = b > 0 ? a * -1 : a;
        if (divisible(x, b > 0 ? b : -b, q)) {
          e.T = q;
          e.known = true;
        }
      }
    }
  }
  auto leave = [&](const Ex &e, FState T, const std::vector<Lin> &p) {
    for (size_t i = 0; i < phis.size(); i++) {
      T.env[phis[i]] = p[i];
      T.cond.erase(phis[i]);
    }
    auto os = explore(F, T, H, nullptr, L, A);
    for (auto &o : os)
      if (o.kind == Out::Exit && o.pred == e.B && o.to == e.to) {
        o.S.stay = S.stay;
        o.S.stayNe = S.stayNe;
        outs.push_back(o);
      }
  };
  for (auto &e : exits) {
    // leaves in the first iteration
    leave(e, S0, init);
    // after T >= 1 full iterations
    Lin T = e.known ? e.T : leaf(id + "_trips");
    std::string ta = T.str();
    FState N = S0;
    N.facts.add(one - T);
    // the condition to stay held in the last full iteration
    bool feasible = true;
    for (auto &l : bs2[0]->S.stay[e.B]) {
      Lin x = subst(l, ka, T - one);
      if (le(N, one, x))
        feasible = false;
      N.facts.add(x);
    }
    // T >= 1 must be possible
    FState Z = S0;
    if (le(Z, T, zero) || !feasible)
      continue;
    std::vector<Lin> ex = {k * -1, k + one - T, one - T};
    auto os3 = iterate(atPhi, atCell, ex);
    auto bs3 = backs(os3);
    if (bs3.empty())
      continue; // never completes an iteration
    if (bs3.size() != 1)
      return fail("a loop with several ways through its body");
    FState &I = bs3[0]->S;
    // values must follow the pattern found
    std::map<size_t, Lin> last;
    for (size_t i = 0; i < n; i++) {
      bool isPhi = i < phis.size();
      Lin nx = isPhi ? val(phis[i]->getIncomingValueForBlock(bs3[0]->pred), I)
                     : load(I, cells[i - phis.size()].addr, cells[i - phis.size()].size, false);
      auto *N1 = single(at[i]);
      if (N1 && N1->op == "rec") {
        recs[at[i].t.begin()->first] = {isPhi ? init[i] : cells[i - phis.size()].init, nx};
        // what the last iteration left, when that is known on its own
        if (!mentions(nx, [&](const std::string &x, const Node &Q) {
              return x != ka && ((Q.op[0] == '\'' && Q.born > born && Q.op.find("_trips") == std::string::npos) ||
                                 (Q.op == "rec" && Q.args[0] == N1->args[0]) || x == at[i].t.begin()->first);
            }))
          last[i] = subst(nx, ka, T - one);
        continue;
      }
      if (N1 && N1->op == "iter") {
        Lin step = subst(N1->args[1], leaf("@").t.begin()->first, at[i]);
        if (!(step == nx))
          return fail("a loop whose values follow no pattern");
        continue;
      }
      Lin want = subst(at[i], ka, k + one);
      if (!eq(I, nx, want))
        return fail("a loop whose values follow no pattern");
    }
    // the stores of one iteration, swept over all
    std::vector<FWr> swept;
    for (size_t i = S0.w.size() + cells.size() + scratch.size(); i < I.w.size(); i++) {
      FWr w = I.w[i];
      bool cell = false;
      for (auto &c : scratch)
        cell |= c.first == w.lo && c.second == w.len;
      for (auto &c : cells)
        cell |= c.addr == w.lo && w.len.isConst() && c.size == (uint64_t)w.len.c;
      if (cell)
        continue;
      if (mentions(w.lo, [&](const std::string &, const Node &N) { return N.op[0] == '\'' && N.born > born && !N.args.size(); }) &&
          !varies(w.lo))
        continue; // memory of one iteration
      auto it = w.lo.t.find(ka);
      int64_t s = it == w.lo.t.end() ? 0 : it->second;
      Lin a = w.lo;
      a.t.erase(ka);
      if (mentions(a, [&](const std::string &x, const Node &) { return x == ka; }) || !w.len.isConst() ||
          (s != w.len.c && s != -w.len.c))
        return fail("a loop whose stores do not sweep a region");
      FWr r;
      r.unit = w.len.c;
      r.len = T * w.len.c;
      r.sweep = s > 0 ? 1 : -1;
      r.lo = s > 0 ? a : a - (T - one) * w.len.c;
      auto sub = [&](const Lin &l) { // as a function of the element number
        return s > 0 ? l : subst(l, ka, T - one - k);
      };
      if (w.s.k == FSrc::Val) {
        auto bornHere = mentions(w.s.v, [&](const std::string &x, const Node &N) {
          return N.op[0] == '\'' && N.born > born && x != ka && N.op.find("_trips") == std::string::npos;
        });
        Lin v = sub(w.s.v);
        // elements loaded from initial memory side by side are a copy
        auto *N = single(v);
        auto mx = v.c == 0 && v.t.size() == 1 && v.t.begin()->second == 1 ? mixed.find(v.t.begin()->first) : mixed.end();
        if (mx != mixed.end() && mx->second.size == r.unit && sub(mx->second.addr).t.count(ka) &&
            sub(mx->second.addr).t.at(ka) == (int64_t)r.unit) {
          // read from a place whose bytes were stored piece by piece
          r.s.k = FSrc::Copy;
          r.s.v = sub(mx->second.addr);
          r.s.v.t.erase(ka);
          r.s.snap = std::min(mx->second.snap, S0.w.size());
        } else if (bornHere)
          r.s.k = FSrc::Unknown;
        else if (N && N->op == "ld" + std::to_string(r.unit) && N->args[0].t.count(ka) &&
                 N->args[0].t.at(ka) == (int64_t)r.unit) {
          Lin b = N->args[0];
          b.t.erase(ka);
          r.s.k = FSrc::Copy;
          r.s.v = b;
          r.s.snap = 0;
        } else {
          r.s.k = FSrc::Elem;
          r.s.v = v;
          r.s.idx = ka;
        }
      } else if (w.s.k == FSrc::Copy) {
        Lin v = sub(w.s.v);
        auto c = v.t.find(ka);
        if (c != v.t.end() && c->second == (int64_t)r.unit) {
          v.t.erase(ka);
          r.s.k = FSrc::Copy;
          r.s.v = v;
          r.s.snap = S0.w.size();
        } else {
          // copied by way of a local: resolve word by word
          r.s.k = FSrc::Unknown;
          bool ok = r.unit % 8 == 0;
          Lin base;
          for (uint64_t o = 0; ok && o < r.unit; o += 8) {
            Lin ad = w.s.v;
            ad.c += o;
            Lin x = sub(load(I, ad, 8, false, w.s.snap));
            auto *N = single(x);
            if (!N || N->op != "ld8") {
              ok = false;
              break;
            }
            Lin b = N->args[0];
            b.c -= o;
            if (o == 0)
              base = b;
            else if (!(b == base))
              ok = false;
          }
          if (ok && base.t.count(ka) && base.t[ka] == (int64_t)r.unit) {
            base.t.erase(ka);
            r.s.k = FSrc::Copy;
            r.s.v = base;
            r.s.snap = 0;
          }
        }
      }
      swept.push_back(r);
    }
    // what an iteration read must not be what another one wrote
    for (size_t i = r0; i < reads.size(); i++) {
      if (reads[i].snap < S0.w.size())
        continue; // bytes copied before the loop
      if (!mentions(reads[i].addr, [&](const std::string &x, const Node &) { return x == ka; }))
        continue;
      for (auto &w : swept) {
        std::string p = root(reads[i].addr), q = root(w.lo);
        if (p != q && !p.empty() && !q.empty())
          continue;
        Lin a = reads[i].addr;
        auto it = a.t.find(ka);
        int64_t s = it == a.t.end() ? 0 : it->second;
        a.t.erase(ka);
        // an iteration reads what only later ones write
        if (uint64_t(s < 0 ? -s : s) == w.unit && reads[i].size <= w.unit) {
          Lin first = w.sweep < 0 ? w.lo + (T - one) * w.unit : w.lo; // where the first iteration stores
          if (w.sweep > 0 && s > 0 && le(N, first, a))
            continue;
          if (w.sweep < 0 && s < 0 && le(N, a, first))
            continue;
        }
        if (s < 0) {
          a = a + (T - one) * s;
          s = -s;
        }
        Lin size;
        size.c = reads[i].size;
        Lin end = a + (T - one) * s + size;
        if (le(N, end, w.lo) || le(N, w.lo + w.len, a))
          continue;
        return fail("a loop that may read what it has written: " + show(reads[i].addr) + " against " + show(w.lo));
      }
    }
    for (auto &w : swept)
      N.w.push_back(w);
    spoil(N);
    for (auto ev : I.ev) {
      ev.inLoop = true;
      N.ev.push_back(ev);
    }
    std::vector<Lin> endPhi;
    for (size_t i = 0; i < n; i++) {
      Lin v = last.count(i) ? last[i] : subst(at[i], ka, T);
      if (i < phis.size())
        endPhi.push_back(v);
      else
        store(N, cells[i - phis.size()].addr, cells[i - phis.size()].size, v);
    }
    leave(e, N, endPhi);
  }
}

// the operation given this name
std::set<const Function *> registered(Module &M, const std::string &name) {
  std::set<const Function *> r;
  for (auto &F : M)
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB || calleeName(CB) != "intern" || CB->arg_size() < 1)
        continue;
      StringRef s;
      if (!getConstantStringInfo(CB->getArgOperand(0)->stripPointerCasts(), s) || s != name)
        continue;
      // primSet(co, intern(name), makeNative(.., fn, ..)), perhaps inlined
      for (auto *N = CB->getNextNode(); N; N = N->getNextNode()) {
        auto *K = dyn_cast<CallBase>(N);
        if (!K)
          continue;
        if (calleeName(K) == "intern")
          break;
        if (calleeName(K) == "makeNative" && K->arg_size() >= 5)
          if (auto *G = dyn_cast<Function>(K->getArgOperand(2)->stripPointerCasts()))
            r.insert(G);
      }
      for (auto *N = CB->getPrevNode(); N; N = N->getPrevNode()) {
        auto *K = dyn_cast<CallBase>(N);
        if (!K || isa<IntrinsicInst>(K))
          continue;
        if (calleeName(K) == "makeNative" && K->arg_size() >= 5)
          for (auto *U : CB->users())
            if (auto *P = dyn_cast<CallBase>(U); P && is_contained(P->args(), K))
              if (auto *G = dyn_cast<Function>(K->getArgOperand(2)->stripPointerCasts()))
                r = {G};
        break;
      }
    }
  return r;
}
