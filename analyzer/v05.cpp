// V05: try, throw and resume keep the handlers, the call stack and the stack
// segments consistent.
#include "flow.h"

namespace {
struct Rule {
  Module &M;
  Flow X;
  int64_t ctx, ctxBp, ctxSp, res, cs, csLen, ts, tsLen, data, dataLen, begin, end, fFn, fLabel, fBp, fSp, mCall, mSeg;
  int64_t frameSz = 0, markSz = 0;
  std::set<std::string> &decided;
  Lin bytes; // size of a stack segment
  Lin c0, t0, d0, b0;
  Rule(Module &M, std::set<std::string> &decided) : M(M), X(M), decided(decided) {
    ctx = X.off("Cora", "ctx");
    ctxBp = X.off("Cora", "ctx.bp");
    ctxSp = X.off("Cora", "ctx.sp");
    res = X.off("Cora", "res");
    int64_t len = X.off("Vector", "len");
    csLen = (cs = X.off("Cora", "callstack")) + len;
    tsLen = (ts = X.off("Cora", "trystack")) + len;
    dataLen = (data = X.off("Cora", "stk.data")) + len;
    begin = X.off("Cora", "stk.begin");
    end = X.off("Cora", "stk.end");
    fFn = X.off("Frame", "fn");
    fLabel = X.off("Frame", "label");
    fBp = X.off("Frame", "bp");
    fSp = X.off("Frame", "sp");
    mCall = X.off("tryMark", "callstackPos");
    mSeg = X.off("tryMark", "segmentStackPos");
    if (auto *F = structByName(M, "Frame"))
      frameSz = F->size;
    if (auto *F = structByName(M, "tryMark"))
      markSz = F->size;
    X.events = {"coraCall", "coraCall0", "coraCall1", "coraCall2", "coraCall3", "coraCall4", "coraReturn", "coraReturnSlowPath",
                "traceScopeBegin", "traceScopeEnd", "free", "intern", "bindSymbol"};
  }
  Lin k(int64_t c) {
    Lin l;
    l.c = c;
    return l;
  }
  Lin at(Lin l, int64_t o) {
    l.c += o;
    return l;
  }
  Lin coAt(int64_t o) { return at(X.co, o); }
  Lin get(const FState &S, const Lin &a, int size, bool ptr = false) { return X.load(S, a, size, ptr); }
  Lin vec(int64_t o) { return X.node("vec", {coAt(o)}, true); }
  void bad(const std::string &key, const FState &S, const std::string &msg) {
    R.viol("V05", key, S.end ? loc(S.end) : "", msg);
  }
  void need(bool ok, const std::string &key, const FState &S, const std::string &msg = "") {
    R.count("obligations");
    if (!ok)
      bad(key, S, msg);
  }
  bool sane(const std::string &n) {
    if (!X.overflow)
      return true;
    R.breakage("V05: too many paths in " + n);
    X.overflow = false;
    return false;
  }
  // the machine in a consistent state
  void consistent(FState &S, const Lin &c, const Lin &t, const Lin &d, const Lin &b) {
    X.store(S, coAt(csLen), 4, c);
    X.store(S, coAt(tsLen), 4, t);
    X.store(S, coAt(dataLen), 4, d);
    X.store(S, coAt(begin), 8, b);
    X.store(S, coAt(end), 8, b + bytes);
    S.facts.add(k(1) - d);
    S.facts.add(k(1) - c);
    S.facts.add(t * -1);
  }
  FState start(const Function *F, const std::vector<Lin> &args) {
    FState S = X.enter(F, args);
    c0 = X.leaf("callstack.len");
    t0 = X.leaf("trystack.len");
    d0 = X.leaf("segments.len");
    b0 = X.node("ld8", {vec(data) + (d0 - k(1)) * 8}, true); // the newest segment
    consistent(S, c0, t0, d0, b0);
    return S;
  }
  void limits(const std::string &name, const FState &S) {
    Lin b = get(S, coAt(begin), 8, true), e = get(S, coAt(end), 8, true), d = get(S, coAt(dataLen), 4);
    Lin newest = get(S, vec(data) + (d - k(1)) * 8, 8, true);
    need(b == newest, name + ": the stack limits do not describe the newest segment", S,
         "begin is " + X.show(b) + ", the newest segment " + X.show(newest));
    need(X.eq(S, e, b + bytes), name + ": the end of the stack segment is wrong", S, X.show(e) + " for a segment at " + X.show(b));
  }
  const FEv *event(const FState &S, const char *prefix) {
    for (auto &e : S.ev)
      if (!e.name.compare(0, strlen(prefix), prefix) && e.name != "coraReturnSlowPath")
        return &e;
    return nullptr;
  }
  std::vector<Lin> stepArgs(const Lin &label, const Lin &Rr) { return {X.co, label, Rr}; }
  void segmentSize(const Function *F) {
    FState S = X.enter(F, {X.co, X.leaf("n")});
    for (auto &E : X.run(F, S))
      for (auto &e : E.ev)
        if (e.name == "malloc" && e.args[0].isConst())
          bytes = e.args[0];
    sane(fname(F));
  }
  Lin retVal(FState &S) {
    auto *RI = dyn_cast_or_null<ReturnInst>(S.end);
    return RI && RI->getReturnValue() ? X.val(RI->getReturnValue(), S) : Lin();
  }
  // stackAlloc and its slow path
  void alloc(const Function *F) {
    std::string name = fname(F);
    Lin n = X.leaf("n"), sp0 = X.leaf("sp", true);
    FState S = start(F, {X.co, n});
    X.store(S, coAt(ctxSp), 8, sp0);
    S.facts.add(k(1) - n);
    for (auto &E : X.run(F, S)) {
      limits(name, E);
      Lin bp = get(E, coAt(ctxBp), 8, true), sp = get(E, coAt(ctxSp), 8, true);
      need(X.eq(E, sp, bp + n * 8), name + ": the new frame does not have the size asked for", E, X.show(sp - bp));
      need(retVal(E) == bp, name + ": returns something other than the new frame", E, X.show(retVal(E)));
      Lin e = get(E, coAt(end), 8, true), d = get(E, coAt(dataLen), 4);
      need(X.le(E, sp, e), name + ": the new frame runs past the end of the segment", E, X.show(sp) + " against " + X.show(e));
      bool fresh = X.eq(E, d, d0 + k(1)), same = d == d0;
      need(fresh || same, name + ": drops or adds stack segments", E, X.show(d));
      Lin b = get(E, coAt(begin), 8, true);
      need(same ? bp == sp0 : bp == b, name + ": the new frame is not the free part of the stack", E, X.show(bp));
      R.count("frame allocations");
    }
    sane(name);
  }
  void ret(const Function *F) {
    std::string name = fname(F);
    Lin v = X.leaf("value");
    FState S = start(F, {X.co, v});
    for (auto &E : X.run(F, S)) {
      R.count("returns");
      need(get(E, coAt(res), 8) == v, name + ": the result is not the value returned", E);
      need(X.eq(E, get(E, coAt(csLen), 4), c0 - k(1)), name + ": does not remove exactly one call from the call stack", E);
      std::string why;
      need(X.holdsCopy(E, coAt(ctx), k(frameSz), vec(cs) + (c0 - k(1)) * frameSz, why), name + ": does not continue the newest call", E, why);
      bool slow = false;
      for (auto &e : E.ev)
        slow |= e.name == "coraReturnSlowPath";
      if (slow)
        continue;
      Lin sp = get(E, coAt(ctxSp), 8, true);
      limits(name, E);
      need(X.le(E, get(E, coAt(begin), 8, true), sp) && X.le(E, sp + k(1), get(E, coAt(end), 8, true)),
           name + ": continues on a segment that is not the newest", E);
    }
    sane(name);
  }
  void slow(const Function *F) {
    std::string name = fname(F);
    Lin sp = X.leaf("sp", true);
    FState S = start(F, {X.co});
    X.store(S, coAt(ctxSp), 8, sp);
    unsigned n = 0;
    for (auto &E : X.run(F, S)) {
      n++;
      R.count("returns to an older segment");
      limits(name, E);
      Lin b = get(E, coAt(begin), 8, true), e = get(E, coAt(end), 8, true);
      need(X.le(E, b, sp) && X.le(E, sp + k(1), e), name + ": stops at a segment that does not hold the frame", E);
      need(get(E, coAt(ctxSp), 8, true) == sp, name + ": moves the stack pointer", E);
      unsigned frees = 0;
      bool wrong = false, loop = false;
      for (auto &x : E.ev)
        if (x.name == "free") {
          loop |= x.inLoop;
          frees += !x.inLoop;
          wrong |= !x.inLoop && !(x.args[0] == b0);
        }
      if (!loop) {
        Lin d = get(E, coAt(dataLen), 4);
        need(X.eq(E, d, d0 - k(frees)), name + ": segments dropped and segments released differ", E, X.show(d));
        need(frees == 0 || (frees == 1 && !wrong), name + ": releases a segment that is not the newest", E);
      }
    }
    if (!n)
      R.viol("V05", name + ": never finishes", name, "");
    sane(name);
  }
  int64_t handlerAt = -1;
  void attempt(const Function *F) {
    std::string name = fname(F);
    Lin Rr = X.leaf("R", true);
    Lin sp0 = X.leaf("sp", true);
    FState S = start(F, stepArgs(Lin(), Rr));
    X.store(S, coAt(ctxBp), 8, Rr);
    X.store(S, coAt(ctxSp), 8, sp0);
    Lin body = X.node("ld8", {at(Rr, 8)}), handler = X.node("ld8", {at(Rr, 16)});
    unsigned n = 0;
    for (auto &E : X.run(F, S)) {
      n++;
      R.count("handlers installed");
      limits(name, E);
      need(X.eq(E, get(E, coAt(tsLen), 4), t0 + k(1)), name + ": does not install exactly one handler", E, X.show(get(E, coAt(tsLen), 4)));
      Lin mark = vec(ts) + t0 * markSz;
      need(X.eq(E, get(E, coAt(csLen), 4), c0 + k(1)), name + ": does not leave exactly one call to come back to", E);
      Lin pos = get(E, at(mark, mCall), 4), seg = get(E, at(mark, mSeg), 4);
      need(X.eq(E, pos, c0), name + ": the handler is not tied to the call that removes it", E, X.show(pos));
      Lin d = get(E, coAt(dataLen), 4);
      need(X.eq(E, d, d0 + k(1)), name + ": the body does not get a stack segment of its own", E, X.show(d));
      need(X.eq(E, seg, d0), name + ": the handler does not know the first segment of its body", E, X.show(seg));
      Lin fr = vec(cs) + c0 * frameSz;
      Lin g = get(E, at(fr, fFn), 8, true), lab = get(E, at(fr, fLabel), 4), bp = get(E, at(fr, fBp), 8, true),
          sp = get(E, at(fr, fSp), 8, true);
      Lin b = get(E, coAt(begin), 8, true);
      need(X.le(E, b, bp) && X.le(E, sp, get(E, coAt(end), 8, true)) && X.le(E, at(bp, handlerAt + 8), sp),
           name + ": the frame of the handler does not lie in the segment of the body", E, X.show(bp) + " .. " + X.show(sp));
      need(get(E, at(bp, handlerAt), 8) == handler, name + ": the handler is not where throw looks for it", E,
           X.show(get(E, at(bp, handlerAt), 8)));
      Lin csp = get(E, coAt(ctxSp), 8, true);
      need(X.le(E, sp, csp), name + ": the body may overwrite the frame of the handler", E, X.show(csp));
      const FEv *c = event(E, "coraCall");
      need(c && c->args[1] == body && (c->name == "coraCall0" || (c->name == "coraCall" && c->args[2] == Lin())),
           name + ": does not run the body", E);
      auto *N = X.single(g);
      const Function *G = N ? N->fn : nullptr;
      if (!G || G->isDeclaration() || !lab.isConst()) {
        bad(name + ": what happens after the body is not known", E, X.show(g));
        continue;
      }
      decided.insert(fname(G));
      // the body finished
      FState T = X.enter(G, stepArgs(lab, bp), &E);
      T.ev.clear();
      Lin r = X.leaf("result");
      X.store(T, coAt(res), 8, r);
      X.store(T, coAt(csLen), 4, c0);
      X.store(T, coAt(ctxBp), 8, bp);
      X.store(T, coAt(ctxSp), 8, sp);
      unsigned m = 0;
      for (auto &U : X.run(G, T)) {
        m++;
        R.count("handlers removed");
        need(X.eq(U, get(U, coAt(tsLen), 4), t0), name + ": the handler is not removed when the body finishes", U,
             X.show(get(U, coAt(tsLen), 4)) + " handlers are left");
        const FEv *q = event(U, "coraReturn");
        need(q && q->args[1] == r && !event(U, "coraCall"), name + ": does not return the result of the body", U);
        need(X.eq(U, get(U, coAt(csLen), 4), c0), name + ": the call stack changes when the body finishes", U);
        limits(name, U);
      }
      if (!m)
        bad(name + ": never returns after the body", E, "");
    }
    if (!n)
      R.viol("V05", name + ": never runs the body", name, "");
    sane(name);
  }
  void raise(const Function *F) {
    std::string name = fname(F);
    Lin Rr = X.leaf("R", true);
    FState S = start(F, stepArgs(Lin(), Rr));
    X.store(S, coAt(ctxBp), 8, Rr);
    Lin mark = vec(ts) + (t0 - k(1)) * markSz;
    Lin pos = X.node("ld4", {at(mark, mCall)}), seg = X.node("ld4", {at(mark, mSeg)});
    // what try and resume establish
    S.facts.add(k(1) - pos);
    S.facts.add(pos + k(1) - c0);
    S.facts.add(k(1) - seg);
    S.facts.add(seg + k(1) - d0);
    // the newest segment is one of the body's
    unsigned n = 0;
    for (auto &E : X.run(F, S)) {
      n++;
      R.count("throws");
      need(X.le(E, k(1), t0), name + ": goes on although no handler is installed", E);
      need(X.eq(E, get(E, coAt(tsLen), 4), t0 - k(1)), name + ": does not remove exactly the newest handler", E,
           X.show(get(E, coAt(tsLen), 4)) + " handlers are left");
      need(X.eq(E, get(E, coAt(csLen), 4), pos), name + ": the call stack is not cut back to the handler", E, X.show(get(E, coAt(csLen), 4)));
      need(X.eq(E, get(E, coAt(dataLen), 4), seg), name + ": the stack segments are not cut back to the handler", E,
           X.show(get(E, coAt(dataLen), 4)));
      limits(name, E);
      Lin prev = vec(cs) + (pos - k(1)) * frameSz;
      Lin bp = get(E, coAt(ctxBp), 8, true), sp = get(E, coAt(ctxSp), 8, true);
      need(bp == X.node("ld8", {at(prev, fBp)}) && sp == X.node("ld8", {at(prev, fSp)}),
           name + ": the stack pointers are not those of the call below the handler", E, X.show(bp) + ", " + X.show(sp));
      const FEv *c = event(E, "coraCall");
      Lin h, v, clo;
      if (c && c->name == "coraCall2") {
        h = c->args[1];
        v = c->args[2];
        clo = c->args[3];
      } else if (c && c->name == "coraCall" && c->args[2] == k(2)) {
        h = c->args[1];
        v = get(E, c->args[3], 8);
        clo = get(E, at(c->args[3], 8), 8);
      } else {
        bad(name + ": the handler is not called with a value and a continuation", E, "");
        continue;
      }
      Lin tbp = X.node("ld8", {at(vec(cs) + pos * frameSz, fBp)});
      auto *H = X.single(h);
      bool ok = H && H->op == "ld8";
      if (ok) {
        Lin o = H->args[0] - tbp;
        ok = o.isConst();
        if (ok && handlerAt < 0)
          handlerAt = o.c;
        ok &= o.c == handlerAt;
      }
      need(ok, name + ": calls something other than the handler of the newest try", E, X.show(h));
      need(v == X.node("ld8", {at(Rr, 8)}), name + ": does not pass on the value thrown", E, X.show(v));
      auto *C = X.single(clo);
      if (!C || C->op != "obj") {
        bad(name + ": the handler gets no continuation", E, X.show(clo));
        continue;
      }
      resume(name, E, clo, C->args[0], pos, seg);
    }
    if (!n)
      R.viol("V05", name + ": never calls a handler", name, "");
    sane(name);
  }
  void resume(const std::string &from, FState &E, const Lin &clo, const Lin &P, const Lin &pos, const Lin &seg) {
    Lin g = get(E, at(P, X.off("scmNative", "fn")), 8, true), rq = get(E, at(P, X.off("scmNative", "required")), 4);
    auto *N = X.single(g);
    const Function *G = N ? N->fn : nullptr;
    if (!G || G->isDeclaration()) {
      bad(from + ": the code of the continuation is not known", E, X.show(g));
      return;
    }
    std::string name = fname(G);
    decided.insert(name);
    need(rq == k(1), from + ": the continuation does not take one value", E, X.show(rq));
    Lin Rk = X.unk("R", true), c1 = X.unk("callstack.len"), t1 = X.unk("trystack.len"), d1 = X.unk("segments.len"), b1 = X.unk("segment", true);
    FState T = X.enter(G, stepArgs(Lin(), Rk), &E);
    T.ev.clear();
    // the handler has run in between
    for (auto v : {cs, ts, data}) {
      FWr w;
      w.lo = vec(v);
      w.len.c = 1ll << 40;
      w.unit = 1;
      T.w.push_back(w);
    }
    // the frame of the resuming call
    for (auto o : {ctxBp, ctxSp})
      X.store(T, coAt(o), 8, X.unk("ctx", true));
    consistent(T, c1, t1, d1, b1);
    X.store(T, vec(data) + (d1 - k(1)) * 8, 8, b1);
    X.store(T, Rk, 8, clo);
    Lin val = X.node("ld8", {at(Rk, 8)});
    Lin calls = c0 - pos, segs = d0 - seg;
    unsigned n = 0;
    for (auto &U : X.run(G, T)) {
      n++;
      R.count("resumptions");
      limits(name, U);
      need(X.eq(U, get(U, coAt(tsLen), 4), t1 + k(1)), name + ": does not install exactly one handler", U, X.show(get(U, coAt(tsLen), 4)));
      Lin mark = vec(ts) + t1 * markSz;
      need(X.eq(U, get(U, at(mark, mCall), 4), c1), name + ": the handler is not tied to the call that removes it", U,
           X.show(get(U, at(mark, mCall), 4)));
      need(X.eq(U, get(U, at(mark, mSeg), 4), d1), name + ": the handler does not know the first segment of its body", U,
           X.show(get(U, at(mark, mSeg), 4)));
      need(X.eq(U, get(U, coAt(csLen), 4), c1 + calls), name + ": the captured calls are not all restored", U, X.show(get(U, coAt(csLen), 4)));
      need(X.eq(U, get(U, coAt(dataLen), 4), d1 + segs), name + ": the captured segments are not all restored", U,
           X.show(get(U, coAt(dataLen), 4)));
      std::string why;
      need(X.holdsCopy(U, vec(cs) + c1 * frameSz, calls * frameSz, vec(cs) + pos * frameSz, why),
           name + ": the captured calls are not restored as they were", U, why);
      need(X.holdsCopy(U, vec(data) + d1 * 8, segs * 8, vec(data) + seg * 8, why),
           name + ": the captured segments are not restored as they were", U, why);
      const FEv *q = event(U, "coraReturn");
      need(q && q->args[1] == val && !event(U, "coraCall"), name + ": does not continue with the value given", U);
    }
    if (!n)
      R.viol("V05", name + ": can never be resumed", name, "");
    sane(name);
  }
};
} // namespace

RULE(V05) {
  std::set<std::string> decided; // functions whose every path was followed
  {
    auto M = loadGroup(in.core, {});
    NormOpts O;
    for (auto n : {"coraCall", "coraCall0", "coraCall1", "coraCall2", "coraCall3", "coraCall4", "coraReturn", "coraReturnSlowPath",
                   "traceScopeBegin", "traceScopeEnd", "makeNative", "makeCons", "newObj", "gcAlloc", "_vector_append", "intern",
                   "bindSymbol", "primSet", "printObj"})
      O.keep.insert(n);
    O.mayInline = [&](const Function *C) { return C->getInstructionCount() < 400; };
    normalise(*M, O);
    Rule X(*M, decided);
    X.X.limit = 20000;
    for (auto &F : *M)
      if (!F.isDeclaration() && fname(&F) == "stackAllocSlowPath")
        X.segmentSize(&F);
    if (X.bytes.c <= 0) {
      R.breakage("V05: the size of a stack segment is not a constant");
      return;
    }
    for (auto *F : registered(*M, "throw"))
      X.raise(F), decided.insert(fname(F));
    for (auto *F : registered(*M, "error"))
      if (!decided.count(fname(F)))
        X.raise(F), decided.insert(fname(F));
    for (auto *F : registered(*M, "try"))
      X.attempt(F), decided.insert(fname(F));
    std::set<std::string> once;
    for (auto &F : *M) {
      std::string n = fname(&F);
      if (F.isDeclaration())
        continue;
      if ((n == "stackAlloc" || n == "stackAllocSlowPath") && once.insert(n).second)
        X.alloc(&F), decided.insert(n);
      if (n == "coraReturn" && once.insert(n + srcFile(&F)).second)
        X.ret(&F), decided.insert(n);
      if (n == "coraReturnSlowPath")
        X.slow(&F), decided.insert(n);
    }
    if (getenv("CORAN_DEBUG"))
      for (auto &s : X.X.notes)
        errs() << "note: " << s << "\n";
  }
  // nobody else touches the handlers or the stack segments
  forEachGroup(in, [&](Module &M, const std::string &g) {
    std::map<std::string, std::set<std::string>> callers;
    std::set<std::string> taken;
    for (auto &F : M)
      for (auto *U : F.users()) {
        auto *CB = dyn_cast<CallBase>(U);
        if (CB && CB->getCalledOperand() == &F)
          callers[fname(&F)].insert(fname(CB->getFunction()));
        else
          taken.insert(fname(&F));
      }
    std::set<std::string> part = decided; // helpers of decided functions were followed with them
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &c : callers)
        if (!part.count(c.first) && !taken.count(c.first) &&
            std::all_of(c.second.begin(), c.second.end(), [&](const std::string &s) { return part.count(s); }))
          ch |= part.insert(c.first).second;
    }
    NormOpts O;
    O.keep = decided;
    for (auto n : {"_vector_append", "newObj", "gcAlloc", "intern", "bindSymbol", "coraCall"})
      O.keep.insert(n);
    normalise(M, O);
    auto *C = structByName(M, "Cora");
    if (!C)
      return;
    std::vector<std::pair<int64_t, int64_t>> owned;
    for (auto n : {"stk", "trystack"})
      if (auto *f = C->get(n))
        owned.push_back({f->off, f->off + (int64_t)f->size});
    auto &DL = M.getDataLayout();
    for (auto &F : M) {
      if (F.isDeclaration() || !isRoot(F) || part.count(fname(&F)))
        continue;
      R.count("functions that leave them alone");
      for (auto &B : F)
        for (auto &I : B) {
          std::vector<const Value *> dst;
          if (auto *St = dyn_cast<StoreInst>(&I))
            dst.push_back(St->getPointerOperand());
          else if (auto *CB = dyn_cast<CallBase>(&I)) {
            auto *D = CB->getCalledFunction();
            if (D && (D->getName() == "_vector_append" || D->getName().starts_with("llvm.mem")))
              dst.push_back(CB->getArgOperand(0));
          }
          for (auto *P : dst) {
            int64_t o = 0;
            const Value *b = baseOf(P, o, DL);
            // an element of one of the vectors
            bool elem = false;
            if (auto *Ld = dyn_cast<LoadInst>(b)) {
              b = (o = 0, baseOf(Ld->getPointerOperand(), o, DL));
              elem = true;
            } else if (auto *G = dyn_cast<GetElementPtrInst>(b)) {
              int64_t o2 = 0;
              if (auto *Ld = dyn_cast<LoadInst>(baseOf(G->getPointerOperand(), o2, DL))) {
                b = (o = 0, baseOf(Ld->getPointerOperand(), o, DL));
                elem = true;
              }
            }
            if (!pointsTo(b, "Cora"))
              continue;
            for (auto &w : owned)
              if (o >= w.first && o < w.second && (!elem || o != C->get("stk")->off) && !isa<CallBase>(b))
                R.viol("V05", fname(&F) + ": changes the handlers or the stack segments", loc(&I),
                       "only try, throw, resuming, frame allocation and returning keep them consistent");
          }
        }
    }
  });
  R.need("functions that leave them alone", 100);
  R.need("frame allocations", 2);
  R.need("returns", 2);
  R.need("returns to an older segment", 1);
  R.need("handlers installed", 1);
  R.need("handlers removed", 1);
  R.need("throws", 1);
  R.need("resumptions", 1);
}
