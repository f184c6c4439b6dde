// K05: the text the compiler emits denotes the same characters, names and numbers.
//
// The operations escape-str, generate-sym, generate-num and generate-str are
// found by the names they are registered under. For every byte the way through
// one round of the conversion loop is followed with that byte as a constant; the
// bytes it puts out are decoded as C text (escape-str) and collected into a code
// that has to be prefix-free (generate-sym).
#include "cexec.h"
#include "frames.h"
#include <ctype.h>

namespace {
using Bytes = std::string;

const Function *named(Module &M, const std::string &name) {
  const Function *r = nullptr;
  std::function<void(const Constant *)> walk = [&](const Constant *C) {
    if (auto *S = dyn_cast<ConstantStruct>(C); S && S->getNumOperands() >= 2) {
      StringRef s;
      if (getConstantStringInfo(S->getOperand(0)->stripPointerCasts(), s) && s == name)
        if (auto *F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts()))
          r = F;
    }
    for (auto &Op : C->operands())
      if (auto *K = dyn_cast<Constant>(Op.get()); K && !isa<GlobalValue>(K))
        walk(K);
  };
  for (auto &G : M.globals())
    if (G.hasInitializer())
      walk(G.getInitializer());
  for (auto &F : M)
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        bool is = false;
        const Function *T = nullptr;
        for (auto &a : CB->args()) {
          StringRef s;
          if (a->getType()->isPointerTy() && getConstantStringInfo(a->stripPointerCasts(), s) && s == name)
            is = true;
          if (auto *G = dyn_cast<Function>(a->stripPointerCasts()))
            T = G;
        }
        if (is && T)
          r = T;
      }
  return r;
}

struct Emit {
  const Function &F;
  const DataLayout &DL;
  Analyses A;
  std::set<const Value *> bufs; // local buffers the name of a symbol is put in
  std::vector<const AllocaInst *> places; // local buffers, by the address they are given
  std::string lost;             // why the output of the current run is not known

  explicit Emit(Function &F) : F(F), DL(F.getParent()->getDataLayout()), A(F) {
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I); CB && calleeName(CB) == "symbolStr")
        bufs.insert(CB->getArgOperand(1)->stripPointerCasts());
  }
  static std::string out(const CState &S) {
    std::string r;
    auto it = S.u.find("n");
    for (long i = 0; it != S.u.end() && i < it->second; i++)
      r += (char)S.u.at("o" + std::to_string(i));
    return r;
  }
  static void put(CState &S, const std::string &b) {
    for (char c : b)
      S.u["o" + std::to_string(S.u["n"]++)] = (unsigned char)c;
  }
  // an address in a local buffer
  bool local(const Value *P, CExec &X, CState &S, const AllocaInst *&Al, int64_t &off) {
    off = 0;
    if (auto *C = dyn_cast_or_null<ConstantExpr>(X.get(P, S)); C && C->getOpcode() == Instruction::IntToPtr)
      if (auto *k = dyn_cast<ConstantInt>(C->getOperand(0)); k && k->getZExtValue() >> 40 == 0x51) {
        size_t n = (k->getZExtValue() - (0x51ull << 40) + 0x8000) >> 16;
        if (n < places.size()) {
          Al = places[n];
          off = (int64_t)(k->getZExtValue() - (0x51ull << 40) - (n << 16));
          return true;
        }
      }
    for (int i = 0; i < 8; i++) {
      P = P->stripPointerCasts();
      if ((Al = dyn_cast<AllocaInst>(P)))
        return true;
      auto *G = dyn_cast<GEPOperator>(P);
      if (!G)
        return false;
      MapVector<Value *, APInt> vs;
      APInt c(64, 0);
      if (!G->collectOffset(DL, 64, vs, c))
        return false;
      off += c.getSExtValue();
      for (auto &v : vs) {
        auto *k = dyn_cast_or_null<ConstantInt>(X.get(v.first, S));
        if (!k)
          return false;
        off += k->getSExtValue() * v.second.getSExtValue();
      }
      P = G->getPointerOperand();
    }
    return false;
  }
  static std::string cell(const AllocaInst *Al, int64_t off) {
    return "m" + std::to_string((uintptr_t)Al) + "+" + std::to_string(off);
  }
  // bytes at an address; n < 0: up to the terminator
  bool text(const Value *V, CExec &X, CState &S, long n, std::string &r) {
    const AllocaInst *Al;
    int64_t off;
    if (auto *C = X.get(V, S)) {
      StringRef s;
      if (getConstantStringInfo(C, s, false)) {
        if (n < 0)
          n = s.find('\0');
        if (n < 0 || (size_t)n > s.size())
          return false;
        r = s.substr(0, n).str();
        return true;
      }
    }
    if (!local(V, X, S, Al, off))
      return false;
    for (long i = 0; n < 0 || i < n; i++) {
      auto it = S.u.find(cell(Al, off + i));
      if (it == S.u.end() || i > 4096)
        return false;
      if (n < 0 && it->second == 0)
        return true;
      r += (char)it->second;
    }
    return true;
  }
  bool format(const CallBase *CB, unsigned f, CExec &X, CState &S, std::string &r) {
    std::string fmt;
    if (!text(CB->getArgOperand(f), X, S, -1, fmt))
      return false;
    unsigned a = f + 1;
    for (size_t i = 0; i < fmt.size(); i++) {
      if (fmt[i] != '%') {
        r += fmt[i];
        continue;
      }
      std::string spec = "%";
      for (i++; i < fmt.size() && !isalpha((unsigned char)fmt[i]) && fmt[i] != '%'; i++)
        spec += fmt[i];
      while (i < fmt.size() && strchr("hlqjzt", fmt[i]))
        i++;
      if (i >= fmt.size() || spec.find('*') != spec.npos)
        return false;
      char c = fmt[i];
      if (c == '%') {
        r += '%';
        continue;
      }
      if (a >= CB->arg_size())
        return false;
      const Value *V = CB->getArgOperand(a++);
      char b[400];
      if (c == 's') {
        std::string t;
        if (!text(V, X, S, -1, t))
          return false;
        snprintf(b, sizeof b, (spec + "s").c_str(), t.c_str());
      } else if (strchr("dioxXuc", c)) {
        auto *k = dyn_cast_or_null<ConstantInt>(X.get(V, S));
        if (!k)
          return false;
        int v = (int)k->getSExtValue();
        if (c == 'c') {
          r += (char)v;
          continue;
        }
        snprintf(b, sizeof b, (spec + c).c_str(), v);
      } else
        return false;
      r += b;
    }
    return true;
  }
  // the part of the input read by this load: the current byte
  bool input(const LoadInst *L) const {
    if (!L->getType()->isIntegerTy(8))
      return false;
    std::set<const Value *> seen;
    std::vector<const Value *> w{L->getPointerOperand()};
    bool known = false;
    while (!w.empty()) {
      auto *P = w.back()->stripPointerCasts();
      w.pop_back();
      if (!seen.insert(P).second)
        continue;
      if (auto *G = dyn_cast<GEPOperator>(P))
        w.push_back(G->getPointerOperand());
      else if (auto *Ph = dyn_cast<PHINode>(P))
        w.insert(w.end(), Ph->op_begin(), Ph->op_end());
      else if (isa<AllocaInst>(P)) {
        if (!bufs.count(P))
          return false;
        known = true;
      } else if (isa<GlobalValue>(P) || isa<ConstantExpr>(P))
        return false;
      else
        known |= bufs.empty();
    }
    return known;
  }
  static bool emits(const CallBase *CB) {
    std::string n = calleeName(CB);
    for (auto *k : {"fprintf", "fputc", "putc", "putc_unlocked", "fputs", "fwrite", "strAppend", "strCat"})
      if (n == k)
        return true;
    return false;
  }
  // models calls and local memory; byte < 0: the input is not known
  void model(CExec &X, int byte, const std::set<const LoadInst *> &cur) {
    auto &C = F.getContext();
    X.value = [this, &X, &C, byte, &cur](const Instruction *I, CState &S) -> Constant * {
      if (auto *L = dyn_cast<LoadInst>(I)) {
        if (cur.count(L)) {
          S.u["read"] = 1;
          return byte < 0 ? nullptr : (Constant *)ConstantInt::get(L->getType(), byte);
        }
        const AllocaInst *Al;
        int64_t off;
        if (L->getType()->isIntegerTy(8) && local(L->getPointerOperand(), X, S, Al, off))
          if (auto it = S.u.find(cell(Al, off)); it != S.u.end())
            return ConstantInt::get(L->getType(), it->second);
        return nullptr;
      }
      if (auto *Al = dyn_cast<AllocaInst>(I)) {
        size_t n = std::find(places.begin(), places.end(), Al) - places.begin();
        if (n == places.size())
          places.push_back(Al);
        return ConstantExpr::getIntToPtr(
            ConstantInt::get(Type::getInt64Ty(C), (0x51ull << 40) + ((uint64_t)n << 16)), I->getType());
      }
      auto *CB = dyn_cast<CallBase>(I);
      if (!CB)
        return nullptr;
      std::string n = calleeName(CB), s;
      if ((n == "isalnum" || n == "isalpha" || n == "isdigit" || n == "isupper" || n == "islower" || n == "isprint" ||
           n == "iscntrl" || n == "ispunct" || n == "isspace" || n == "isxdigit") && CB->arg_size() == 1)
        if (auto *k = dyn_cast_or_null<ConstantInt>(X.get(CB->getArgOperand(0), S))) {
          int c = (int)k->getSExtValue();
          if (c < -128 || c > 255)
            return nullptr;
          bool r = n == "isalnum" ? c < 128 && isalnum(c & 255) : n == "isalpha" ? c < 128 && isalpha(c & 255)
                 : n == "isdigit" ? isdigit(c & 255) && c > 0 : n == "isupper" ? c < 128 && isupper(c & 255)
                 : n == "islower" ? c < 128 && islower(c & 255) : n == "isprint" ? c < 128 && isprint(c & 255)
                 : n == "iscntrl" ? c < 128 && iscntrl(c & 255) : n == "ispunct" ? c < 128 && ispunct(c & 255)
                 : n == "isspace" ? c < 128 && isspace(c & 255) : c < 128 && isxdigit(c & 255);
          if (c < 0)
            r = false;
          return ConstantInt::get(I->getType(), r);
        }
      if (n == "strlen" && text(CB->getArgOperand(0), X, S, -1, s))
        return ConstantInt::get(I->getType(), s.size());
      if ((n == "snprintf" || n == "sprintf") && CB->arg_size() >= 2) {
        const AllocaInst *Al;
        int64_t off;
        unsigned f = n == "snprintf" ? 2 : 1;
        if (local(CB->getArgOperand(0), X, S, Al, off) && format(CB, f, X, S, s)) {
          for (size_t i = 0; i <= s.size(); i++)
            S.u[cell(Al, off + i)] = i < s.size() ? (unsigned char)s[i] : 0;
          return ConstantInt::get(I->getType(), s.size());
        }
        return nullptr;
      }
      return nullptr;
    };
    X.visit = nullptr;
  }
  // what an instruction puts out
  void effect(const Instruction *I, CExec &X, CState &S) {
    std::string s;
    if (auto *St = dyn_cast<StoreInst>(I)) {
      const AllocaInst *Al;
      int64_t off;
      if (St->getValueOperand()->getType()->isIntegerTy(8) && local(St->getPointerOperand(), X, S, Al, off)) {
        if (auto *k = dyn_cast_or_null<ConstantInt>(X.get(St->getValueOperand(), S)))
          S.u[cell(Al, off)] = k->getZExtValue();
        else
          S.u.erase(cell(Al, off));
      }
      return;
    }
    auto *CB = dyn_cast<CallBase>(I);
    if (!CB || !emits(CB))
      return;
    std::string n = calleeName(CB);
    bool ok = false;
    if (n == "fprintf")
      ok = format(CB, 1, X, S, s);
    else if (n == "fputs")
      ok = text(CB->getArgOperand(0), X, S, -1, s);
    else if (n == "fwrite") {
      auto *a = dyn_cast_or_null<ConstantInt>(X.get(CB->getArgOperand(1), S)),
           *b = dyn_cast_or_null<ConstantInt>(X.get(CB->getArgOperand(2), S));
      ok = a && b && text(CB->getArgOperand(0), X, S, a->getZExtValue() * b->getZExtValue(), s);
    } else if (n == "strCat") {
      auto *b = dyn_cast_or_null<ConstantInt>(X.get(CB->getArgOperand(CB->arg_size() - 1), S));
      ok = CB->arg_size() == 3 && b && text(CB->getArgOperand(1), X, S, b->getSExtValue(), s);
    } else {
      auto *k = dyn_cast_or_null<ConstantInt>(X.get(CB->getArgOperand(n == "strAppend" ? 1 : 0), S));
      ok = k;
      if (k)
        s = std::string(1, (char)k->getSExtValue());
    }
    if (!ok)
      lost = n + " at " + loc(I);
    put(S, s);
  }
  // the loop that converts; the loads of its current byte
  const Loop *loop(std::set<const LoadInst *> &cur) {
    const Loop *best = nullptr;
    for (auto *L : A.LI.getLoopsInPreorder()) {
      bool reads = false, puts = false;
      for (auto *B : L->blocks())
        for (auto &I : *B) {
          if (auto *Ld = dyn_cast<LoadInst>(&I))
            reads |= input(Ld);
          if (auto *CB = dyn_cast<CallBase>(&I))
            puts |= emits(CB);
        }
      if (reads && puts && (!best || best->contains(L->getHeader()) == false || true))
        if (!best)
          best = L; // outermost
    }
    if (best)
      for (auto *B : best->blocks())
        for (auto &I : *B)
          if (auto *Ld = dyn_cast<LoadInst>(&I); Ld && input(Ld))
            cur.insert(Ld);
    return best;
  }
  // is the byte read the one a counter that starts at the first and moves by one stands on?
  bool inOrder(const LoadInst *Ld, const Loop *L, std::string &why) {
    const Value *P = Ld->getPointerOperand()->stripPointerCasts();
    const Value *idx = nullptr;
    int64_t off = 0;
    if (auto *G = dyn_cast<GEPOperator>(P); G && !L->isLoopInvariant(P)) {
      MapVector<Value *, APInt> vs;
      APInt c(64, 0);
      if (!G->collectOffset(DL, 64, vs, c) || vs.size() > 1) {
        why = "the place of a character cannot be followed";
        return false;
      }
      if (vs.empty()) {
        off = c.getSExtValue();
        idx = G->getPointerOperand();
      } else {
        idx = vs.begin()->first;
        if (vs.begin()->second != 1) {
          why = "characters are skipped";
          return false;
        }
        if (!L->isLoopInvariant(G->getPointerOperand())) {
          why = "the place of a character cannot be followed";
          return false;
        }
      }
    } else
      idx = P;
    while (auto *C = dyn_cast<CastInst>(idx))
      idx = C->getOperand(0);
    auto *Ph = dyn_cast<PHINode>(idx);
    if (!Ph || Ph->getParent() != L->getHeader()) {
      why = "the place of a character cannot be followed";
      return false;
    }
    for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++) {
      const Value *V = Ph->getIncomingValue(i);
      if (!L->contains(Ph->getIncomingBlock(i))) {
        if (auto *C = dyn_cast<ConstantInt>(V); Ph->getType()->isIntegerTy() && !(C && C->isZero() && off == 0)) {
          why = "does not start at the first character";
          return false;
        } else if (Ph->getType()->isPointerTy()) {
          // the start of the buffer, or of the bytes of an object
          int64_t o;
          const Value *B = baseOf(V, o, DL);
          if ((bufs.count(B) && o + off != 0)) {
            why = "does not start at the first character";
            return false;
          }
        }
        continue;
      }
      int64_t st = 0;
      if (auto *Bo = dyn_cast<BinaryOperator>(V); Bo && Bo->getOpcode() == Instruction::Add && Bo->getOperand(0) == Ph)
        if (auto *C = dyn_cast<ConstantInt>(Bo->getOperand(1)))
          st = C->getSExtValue();
      if (auto *G = dyn_cast<GEPOperator>(V); G && G->getPointerOperand() == Ph) {
        APInt c(64, 0);
        if (G->accumulateConstantOffset(DL, c))
          st = c.getSExtValue();
      }
      if (st != 1) {
        why = "does not take every character in turn";
        return false;
      }
    }
    return true;
  }
};

// what C text between quotes denotes
bool decode(const Bytes &e, Bytes &r, std::string &why) {
  for (size_t i = 0; i < e.size(); i++) {
    unsigned char c = e[i];
    if (c == '"' || c == '\n' || c == '\r' || c == 0) {
      why = "is left as it is";
      return false;
    }
    if (c != '\\') {
      r += c;
      continue;
    }
    if (++i >= e.size()) {
      why = "ends in a lone backslash";
      return false;
    }
    c = e[i];
    static const char *k = "abfnrtv\\'\"?", *v = "\a\b\f\n\r\t\v\\'\"?";
    if (const char *p = strchr(k, c); p && c) {
      r += v[p - k];
    } else if (c >= '0' && c <= '7') {
      int n = 0, d = 0;
      while (d < 3 && i < e.size() && e[i] >= '0' && e[i] <= '7') {
        n = n * 8 + (e[i] - '0');
        i++;
        d++;
      }
      i--;
      if (d < 3) {
        why = "becomes an octal escape that takes in the digits that follow it";
        return false;
      }
      r += (char)n;
    } else {
      why = c == 'x' ? "becomes a hexadecimal escape that takes in the characters that follow it" : "becomes an unknown escape";
      return false;
    }
  }
  return true;
}
std::string shown(int b) {
  char t[40];
  if (b > 32 && b < 127)
    snprintf(t, sizeof t, "'%c'", b);
  else
    snprintf(t, sizeof t, "character %d", b);
  return t;
}
const char *const keywords[] = {"auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum",
  "extern", "float", "for", "goto", "if", "inline", "int", "long", "register", "restrict", "return", "short", "signed", "sizeof",
  "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while", "asm", "typeof", "co", "label", "R"};

struct K05 {
  Module &M;
  const std::set<std::string> &taken; // names of the runtime
  // every byte's output; false when it was not decided
  bool bytes(Emit &E, const Loop *L, const std::set<const LoadInst *> &cur, int from, std::map<int, Bytes> &code) {
    const Function &F = E.F;
    auto *H = L->getHeader();
    const Instruction *first = H->getFirstNonPHIOrDbgOrLifetime();
    for (auto *Ld : cur) {
      std::string why;
      if (!E.inOrder(Ld, L, why)) {
        R.viol("K05", fname(&F) + ": " + why, loc(Ld), "");
        return false;
      }
    }
    bool good = true;
    std::set<std::string> told;
    for (int b = from; b < 256; b++) {
      CExec X(F);
      E.model(X, b, cur);
      E.lost.clear();
      std::set<Bytes> outs;
      bool started = false;
      std::string bad;
      X.visit = [&](const Instruction *I, CState &S) {
        if (I == first) {
          if (started) {
            if (!S.u.count("read"))
              bad = "passes over characters without reading them";
            outs.insert(Emit::out(S));
            return false;
          }
          started = true;
        }
        if (!L->contains(I->getParent())) {
          if (S.u.count("read") || S.u.count("n"))
            if (!isa<UnreachableInst>(I->getParent()->getTerminator()))
              bad = "stops at " + shown(b);
          return false;
        }
        E.effect(I, X, S);
        return true;
      };
      CState S;
      for (auto &I : instructions(F))
        if (isa<AllocaInst>(I))
          S.env[&I] = X.value(&I, S);
      X.widen = 300;
      X.run(first, S);
      R.count("characters followed");
      std::string why;
      if (!E.lost.empty())
        why = "what is put out for a character cannot be followed";
      else if (X.overflow)
        why = "too many ways to convert a character";
      else if (!bad.empty())
        why = bad;
      else if (outs.size() != 1)
        why = outs.empty() ? "does not convert " + shown(b) : "does not always convert a character in the same way";
      if (!why.empty()) {
        good = false;
        if (told.insert(why.substr(0, 20)).second)
          R.viol("K05", fname(&F) + ": " + why, loc(first), shown(b) + (E.lost.empty() ? "" : ", " + E.lost));
        continue;
      }
      code[b] = *outs.begin();
    }
    return good;
  }
  void escape(Function *F) {
    Emit E(*F);
    std::set<const LoadInst *> cur;
    auto *L = E.loop(cur);
    if (!L) {
      R.viol("K05", fname(F) + ": no loop that converts each character", loc(&*F->getEntryBlock().begin()), "");
      return;
    }
    std::map<int, Bytes> code;
    bytes(E, L, cur, 0, code);
    std::set<std::string> told;
    for (auto &c : code) {
      R.count("characters of strings");
      Bytes r;
      std::string why;
      if (!decode(c.second, r, why)) {
        if (told.insert(why).second)
          R.viol("K05", fname(F) + ": a character " + why, loc(L->getHeader()->getFirstNonPHI()), shown(c.first) + " gives \"" + c.second + "\"");
      } else if (r != Bytes(1, (char)c.first)) {
        if (told.insert("other").second)
          R.viol("K05", fname(F) + ": a character is written as something else", loc(L->getHeader()->getFirstNonPHI()),
                 shown(c.first) + " gives \"" + c.second + "\"");
      }
    }
    // the loop is left only at the end, and no text with characters is passed by
    auto *SI = structByName(M, "scmBytes");
    std::set<const LoadInst *> lens;
    if (SI)
      for (auto &I : instructions(*F))
        if (auto *Ld = dyn_cast<LoadInst>(&I); Ld && Ld->getType()->isIntegerTy(32))
          if (auto *G = dyn_cast<GEPOperator>(Ld->getPointerOperand()->stripPointerCasts())) {
            APInt o(64, 0);
            if (G->accumulateConstantOffset(E.DL, o))
              for (auto &f : SI->fields)
                if (f.name == "len" && (int64_t)f.off == o.getSExtValue())
                  lens.insert(Ld);
          }
    if (lens.empty()) {
      R.viol("K05", fname(F) + ": the length of the text is not used", loc(&*F->getEntryBlock().begin()), "");
      return;
    }
    bool scan = false;
    for (auto *L2 : E.A.LI.getLoopsInPreorder())
      scan |= !L->contains(L2->getHeader()) && !L2->contains(L->getHeader());
    for (int n : {1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1000, 65536}) {
      CExec X(*F);
      X.widen = 3000;
      std::set<const LoadInst *> none;
      E.model(X, -1, none);
      auto inner = X.value;
      X.value = [&](const Instruction *I, CState &S) -> Constant * {
        if (auto *Ld = dyn_cast<LoadInst>(I); Ld && lens.count(Ld))
          return ConstantInt::get(Ld->getType(), n);
        return inner(I, S);
      };
      const Instruction *past = nullptr, *early = nullptr;
      bool inL = false;
      X.visit = [&](const Instruction *I, CState &S) {
        if (auto *CB = dyn_cast<CallBase>(I); CB && calleeName(CB) == "coraReturn") {
          if (!S.u.count("in"))
            past = I;
          return false;
        }
        if (I == L->getHeader()->getFirstNonPHIOrDbgOrLifetime()) {
          inL = true;
          return false;
        }
        return true;
      };
      CState S;
      X.run(&*F->getEntryBlock().begin(), S);
      R.count("lengths of strings");
      if (past && !scan) {
        R.viol("K05", fname(F) + ": a text is not converted", loc(past), "of " + std::to_string(n) + " characters");
        break;
      }
      (void)early;
      (void)inL;
    }
    // the end of the loop is the end of the text
    SmallVector<BasicBlock *, 4> ex;
    L->getExitingBlocks(ex);
    for (auto *B : ex) {
      auto *Br = dyn_cast<BranchInst>(B->getTerminator());
      auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
      if (!Cm)
        continue;
      for (int k = 0; k < 2; k++) {
        const Value *V = Cm->getOperand(k);
        int64_t d = 0;
        while (true) {
          if (auto *C = dyn_cast<CastInst>(V)) {
            V = C->getOperand(0);
            continue;
          }
          auto *Bo = dyn_cast<BinaryOperator>(V);
          auto *C = Bo ? dyn_cast<ConstantInt>(Bo->getOperand(1)) : nullptr;
          if (C && L->isLoopInvariant(Bo) && (Bo->getOpcode() == Instruction::Add || Bo->getOpcode() == Instruction::Sub)) {
            d += Bo->getOpcode() == Instruction::Add ? C->getSExtValue() : -C->getSExtValue();
            V = Bo->getOperand(0);
            continue;
          }
          break;
        }
        auto *CB = dyn_cast<CallBase>(V);
        auto *Ld = dyn_cast<LoadInst>(V);
        if (CB && calleeName(CB) == "strlen")
          R.viol("K05", fname(F) + ": stops at character 0", loc(Cm), "");
        else if (Ld && lens.count(Ld)) {
          R.count("ends of strings");
          auto p = k ? Cm->getPredicate() : Cm->getSwappedPredicate();
          // the counter against the length
          bool stay = L->contains(Br->getSuccessor(0));
          if (!stay)
            p = CmpInst::getInversePredicate(p);
          const Value *O = Cm->getOperand(1 - k);
          while (auto *C = dyn_cast<CastInst>(O))
            O = C->getOperand(0);
          bool next = !isa<PHINode>(O); // compared after counting
          bool ok = d == 0 && (p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_NE);
          if (d == -1 && (p == CmpInst::ICMP_SLE || p == CmpInst::ICMP_ULE))
            ok = true;
          if (!ok && !next)
            R.viol("K05", fname(F) + ": does not convert up to the end of the text", loc(Cm), "");
        }
      }
    }
  }
  void name(Function *F) {
    Emit E(*F);
    std::set<const LoadInst *> cur;
    auto *L = E.loop(cur);
    if (!L) {
      R.viol("K05", fname(F) + ": no loop that converts each character", loc(&*F->getEntryBlock().begin()), "");
      return;
    }
    std::map<int, Bytes> code;
    bytes(E, L, cur, 1, code);
    // C names, and no code the start of another
    std::set<std::string> told;
    std::map<Bytes, int> by;
    for (auto &c : code) {
      R.count("characters of names");
      for (char x : c.second)
        if (!isalnum((unsigned char)x) && x != '_' && told.insert("ident").second)
          R.viol("K05", fname(F) + ": puts a character that is not allowed into a C name", loc(L->getHeader()->getFirstNonPHI()),
                 shown(c.first) + " gives " + c.second);
      if (c.second.empty() && told.insert("empty").second)
        R.viol("K05", fname(F) + ": a character leaves no trace in the C name", loc(L->getHeader()->getFirstNonPHI()), shown(c.first));
      auto r = by.insert({c.second, c.first});
      if (!r.second && told.insert("same").second)
        R.viol("K05", fname(F) + ": two characters give the same C text", loc(L->getHeader()->getFirstNonPHI()),
               shown(c.first) + " and " + shown(r.first->second) + " give " + c.second);
    }
    for (auto it = by.begin(); it != by.end(); ++it) {
      auto n = std::next(it);
      if (n != by.end() && !it->first.empty() && n->first.compare(0, it->first.size(), it->first) == 0 && told.insert("pre").second)
        R.viol("K05", fname(F) + ": two names may give the same C text", loc(L->getHeader()->getFirstNonPHI()),
               shown(it->second) + " gives " + it->first + ", the start of " + n->first + " for " + shown(n->second));
    }
    // what comes before, by the kind of the symbol
    bool fs, fp;
    int64_t ts = enumValue(M, "TAG_SYMBOL", fs), tp = enumValue(M, "TAG_PTR", fp);
    if (!fs || !fp) {
      R.breakage("K05: the kinds of symbols are not known");
      return;
    }
    std::map<std::string, Bytes> pre;
    for (int kind = 0; kind < 2; kind++) {
      CExec X(*F);
      std::set<const LoadInst *> none;
      E.model(X, -1, none);
      E.lost.clear();
      auto inner = X.value;
      uint64_t bits = ((0x7ff8ull | (uint64_t)(kind ? tp : ts)) << 48) | 0x1000;
      X.value = [&](const Instruction *I, CState &S) -> Constant * {
        if (auto *Ld = dyn_cast<LoadInst>(I); Ld && Ld->getType()->isIntegerTy(64))
          if (auto *G = dyn_cast<GEPOperator>(Ld->getPointerOperand()->stripPointerCasts());
              G && G->getPointerOperand() == F->getArg(2)) {
            APInt o(64, 0);
            if (G->accumulateConstantOffset(E.DL, o) && o == 16)
              return ConstantInt::get(Ld->getType(), bits);
          }
        return inner(I, S);
      };
      std::set<Bytes> outs;
      X.visit = [&](const Instruction *I, CState &S) {
        if (I == L->getHeader()->getFirstNonPHIOrDbgOrLifetime()) {
          outs.insert(Emit::out(S));
          return false;
        }
        E.effect(I, X, S);
        return true;
      };
      CState S;
      X.run(&*F->getEntryBlock().begin(), S);
      R.count("kinds of names");
      if (!E.lost.empty() || outs.size() != 1) {
        R.viol("K05", fname(F) + ": how a C name starts cannot be followed", loc(&*F->getEntryBlock().begin()), E.lost);
        return;
      }
      pre[kind ? "generated" : "interned"] = *outs.begin();
    }
    const Bytes &v = pre["interned"], &g = pre["generated"];
    if (v.compare(0, g.size(), g) == 0 || g.compare(0, v.size(), v) == 0)
      R.viol("K05", fname(F) + ": a generated name may be the same as another one", loc(&*F->getEntryBlock().begin()),
             "they start with \"" + g + "\" and \"" + v + "\"");
    for (auto &p : pre) {
      auto &s = p.second;
      bool ok = !s.empty() && (isalpha((unsigned char)s[0]) || s[0] == '_');
      for (char x : s)
        ok &= isalnum((unsigned char)x) || x == '_';
      if (!ok && !(s.empty())) {
        R.viol("K05", fname(F) + ": a C name does not start as one", loc(&*F->getEntryBlock().begin()), "\"" + s + "\"");
        continue;
      }
      for (auto &t : taken)
        if (t.compare(0, s.size(), s) == 0) {
          R.viol("K05", fname(F) + ": a name may be taken for one of C or the runtime", loc(&*F->getEntryBlock().begin()),
                 "names start with \"" + s + "\", " + t + " is in use");
          break;
        }
    }
  }
  void number(Function *F) {
    const CallBase *pr = nullptr;
    int n = 0;
    for (auto &I : instructions(*F))
      if (auto *CB = dyn_cast<CallBase>(&I); CB && calleeName(CB) == "fprintf") {
        pr = CB;
        n++;
      }
    StringRef f;
    if (n != 1 || pr->arg_size() != 3 || !getConstantStringInfo(pr->getArgOperand(1)->stripPointerCasts(), f))
      return; // written in another way
    R.count("number formats");
    if (f != "%ld" && f != "%lld" && f != "%jd" && f != "%li" && f != "%lli")
      R.viol("K05", fname(F) + ": a number is not written out in full", loc(pr), "format " + f.str());
    const Value *V = pr->getArgOperand(2);
    for (int i = 0; i < 6; i++) {
      if (isa<TruncInst>(V)) {
        R.viol("K05", fname(F) + ": a number is cut off", loc(pr), "");
        break;
      }
      auto *C = dyn_cast<CastInst>(V);
      if (!C)
        break;
      V = C->getOperand(0);
    }
  }
  void textOut(Function *F) {
    for (auto &I : instructions(*F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB)
        continue;
      std::string n = calleeName(CB);
      StringRef f;
      if (n == "fprintf" || n == "printf" || n == "dprintf" || n == "vfprintf") {
        R.count("text written");
        if (!getConstantStringInfo(CB->getArgOperand(n == "printf" ? 0 : 1)->stripPointerCasts(), f))
          R.viol("K05", fname(F) + ": text is taken for a format", loc(CB), "");
      } else if (n == "fwrite") {
        R.count("text written");
        // size * count is the length of the text
        auto strip = [](const Value *V) {
          while (auto *C = dyn_cast<CastInst>(V))
            V = C->getOperand(0);
          return V;
        };
        const Value *a = strip(CB->getArgOperand(1)), *b = strip(CB->getArgOperand(2));
        if (auto *k = dyn_cast<ConstantInt>(b); k && k->isOne())
          std::swap(a, b);
        auto *k = dyn_cast<ConstantInt>(a);
        if (!k)
          continue;
        if (!k->isOne() || isa<ConstantInt>(b))
          R.viol("K05", fname(F) + ": writes something else than the length of the text", loc(CB), "");
        if (auto *Bo = dyn_cast<BinaryOperator>(b); Bo && isa<ConstantInt>(Bo->getOperand(1)))
          R.viol("K05", fname(F) + ": writes something else than the length of the text", loc(CB), "");
      }
    }
  }
};
} // namespace

RULE(K05) {
  std::set<std::string> taken(std::begin(keywords), std::end(keywords));
  bool found = false;
  forEachGroup(in, [&](Module &M, const std::string &g) {
    if (!M.size())
      return;
    if (g == "core")
      for (auto &F : M)
        taken.insert(F.getName().str());
  });
  forEachGroup(in, [&](Module &M, const std::string &g) {
    if (!named(M, "escape-str") || !named(M, "generate-sym"))
      return;
    std::string fe = named(M, "escape-str")->getName().str();
    NormOpts O;
    O.keep = frameKeep();
    for (auto *k : {"strAppend", "strCat", "symbolStr", "coraReturn", "makeString", "makeCString"})
      O.keep.insert(k);
    normalise(M, O);
    K05 K{M, taken};
    auto get = [&](const char *n) { return const_cast<Function *>(named(M, n)); };
    if (auto *F = get("escape-str"); F && !F->isDeclaration())
      K.escape(F);
    if (auto *F = get("generate-sym"); F && !F->isDeclaration())
      K.name(F);
    if (auto *F = get("generate-num"); F && !F->isDeclaration())
      K.number(F);
    if (auto *F = get("generate-str"); F && !F->isDeclaration())
      K.textOut(F);
    found = true;
  });
  if (!found)
    R.breakage("K05: the operations that write C text were not found");
  R.need("characters of strings", 100);
  R.need("characters of names", 100);
}
