// V06: every argument arrives in its position, whatever the number supplied.
#include "flow.h"

namespace {
struct Piece {
  Lin src, count; // consecutive values that were at src when the operation started
};
struct Rule {
  Module &M;
  Flow X;
  int64_t fnOff, reqOff, nfOff, capOff, ctxFn, ctxLabel, ctxBp, ctxSp, resOff, csOff, csLen;
  uint64_t frameSz;
  int64_t fFn, fLabel, fBp, fSp;
  explicit Rule(Module &M) : M(M), X(M) {
    fnOff = X.off("scmNative", "fn");
    reqOff = X.off("scmNative", "required");
    nfOff = X.off("scmNative", "nframe");
    capOff = X.off("scmNative", "captured");
    ctxFn = X.off("Cora", "ctx.fn");
    ctxLabel = X.off("Cora", "ctx.label");
    ctxBp = X.off("Cora", "ctx.bp");
    ctxSp = X.off("Cora", "ctx.sp");
    resOff = X.off("Cora", "res");
    csOff = X.off("Cora", "callstack");
    csLen = csOff + X.off("Vector", "len");
    fFn = X.off("Frame", "fn");
    fLabel = X.off("Frame", "label");
    fBp = X.off("Frame", "bp");
    fSp = X.off("Frame", "sp");
    auto *F = structByName(M, "Frame");
    frameSz = F ? F->size : 0;
    X.events = {"coraCall", "coraCall0", "coraCall1", "coraCall2", "coraCall3", "coraCall4", "coraReturn",
                "traceScopeBegin", "traceScopeEnd", "free", "intern", "bindSymbol"};
  }
  Lin coAt(int64_t o) {
    Lin l = X.co;
    l.c += o;
    return l;
  }
  Lin at(Lin l, int64_t o) {
    l.c += o;
    return l;
  }
  Lin k(int64_t c) {
    Lin l;
    l.c = c;
    return l;
  }
  Lin ptrOf(const Lin &v) {
    auto *N = X.single(v);
    return N && N->op == "obj" ? N->args[0] : X.node("ptr", {v}, true);
  }
  Lin get(const FState &S, const Lin &a, int size, bool ptr = false) { return X.load(S, a, size, ptr); }
  void bad(const std::string &key, const FState &S, const std::string &msg) {
    R.viol("V06", key, S.end ? loc(S.end) : "", msg);
  }
  // values `ps` lie one after the other from `dst` on
  bool placed(const FState &S, Lin dst, const std::vector<Piece> &ps, std::string &why) {
    for (auto &p : ps) {
      if (!X.holdsCopy(S, dst, p.count * 8, p.src, why))
        return false;
      dst = dst + p.count * 8;
    }
    return true;
  }
  // the path ends by applying fn to exactly these values
  bool applied(const FState &S, const Lin &fn, const std::vector<Piece> &ps, std::string &why) {
    Lin n;
    for (auto &p : ps)
      n = n + p.count;
    for (auto &e : S.ev) {
      if (e.name.compare(0, 8, "coraCall"))
        continue;
      if (e.args.size() < 2 || !(e.args[1] == fn)) {
        why = "calls " + (e.args.size() > 1 ? X.show(e.args[1]) : "something") + " instead of " + X.show(fn);
        return false;
      }
      if (e.name == "coraCall") {
        if (!X.eq(S, e.args[2], n)) {
          why = "passes " + X.show(e.args[2]) + " arguments instead of " + X.show(n);
          return false;
        }
        return placed(S, e.args[3], ps, why);
      }
      Lin got;
      got.c = e.args.size() - 2;
      if (!X.eq(S, got, n)) {
        why = "passes " + X.show(got) + " arguments instead of " + X.show(n);
        return false;
      }
      // write them side by side to compare
      FState T = S;
      Lin tmp = X.unk("passed", true);
      for (size_t i = 2; i < e.args.size(); i++)
        X.store(T, at(tmp, 8 * (i - 2)), 8, e.args[i]);
      return placed(T, tmp, ps, why);
    }
    Lin p = ptrOf(fn);
    Lin f = get(S, coAt(ctxFn), 8, true), want = get(S, at(p, fnOff), 8, true);
    if (!X.eq(S, f, want)) {
      why = "continues with " + X.show(f) + " instead of the code of " + X.show(fn);
      return false;
    }
    if (!X.eq(S, get(S, coAt(ctxLabel), 4), Lin())) {
      why = "does not start the code at its beginning";
      return false;
    }
    if (!X.eq(S, get(S, at(p, reqOff), 4), n)) {
      why = "enters the code of " + X.show(fn) + " with " + X.show(n) + " arguments without knowing that it takes that many";
      return false;
    }
    Lin B = get(S, coAt(ctxBp), 8, true), sp = get(S, coAt(ctxSp), 8, true);
    if (!X.le(S, B + get(S, at(p, nfOff), 4) * 8, sp)) {
      why = "the new frame does not have the size the code asks for: " + X.show(sp - B);
      return false;
    }
    std::string w;
    Lin self = get(S, B, 8);
    if (!X.eq(S, self, fn)) {
      why = "slot 0 of the frame holds " + X.show(self) + " instead of the function";
      return false;
    }
    if (!placed(S, at(B, 8), ps, w)) {
      why = "the frame " + w;
      return false;
    }
    return true;
  }
  bool has(const FState &S, const char *n, const FEv **e = nullptr) {
    for (auto &x : S.ev)
      if (x.name == n) {
        if (e)
          *e = &x;
        return true;
      }
    return false;
  }
  bool calls(const FState &S) {
    for (auto &x : S.ev)
      if (!x.name.compare(0, 8, "coraCall"))
        return true;
    return false;
  }
  FState start(const Function *F, std::vector<Lin> &args) {
    args.clear();
    for (unsigned i = 0; i < F->arg_size(); i++)
      args.push_back(i == 0 ? X.co : X.leaf("arg" + std::to_string(i), F->getArg(i)->getType()->isPointerTy()));
    return X.enter(F, args);
  }
  const Function *fnOf(const Lin &l) {
    auto *N = X.single(l);
    return N ? N->fn : nullptr;
  }
  bool sane(const std::string &name) {
    if (X.overflow) {
      R.breakage("V06: too many paths in " + name);
      X.overflow = false;
      return false;
    }
    return true;
  }
  // coraCall(co, fn, n, args) and coraCallN(co, fn, a1, .., aN)
  void callFunction(const Function *F) {
    std::string name = fname(F);
    std::vector<Lin> a;
    FState S0 = start(F, a);
    Lin fn = a[1], n;
    std::vector<Piece> all;
    Lin src = X.leaf("given", true);
    bool generic = F->arg_size() == 4 && F->getArg(3)->getType()->isPointerTy();
    if (generic) {
      n = a[2];
      src = a[3];
      S0.facts.add(n * -1); // a count
    } else {
      n.c = F->arg_size() - 2;
      // the arguments as values side by side
      for (unsigned i = 2; i < F->arg_size(); i++)
        S0.env[F->getArg(i)] = X.node("ld8", {at(src, 8 * (i - 2))});
    }
    all.push_back({src, n});
    Lin req0 = X.node("ld4", {at(ptrOf(fn), reqOff)});
    S0.facts.add(req0 * -1);
    auto ends = X.run(F, S0);
    if (!sane(name))
      return;
    R.count("application functions");
    bool exact = false, partial = false, surplus = false;
    for (auto &S : ends) {
      std::string why;
      R.count("application paths");
      Lin req = get(S, at(ptrOf(fn), reqOff), 4);
      const FEv *ret = nullptr;
      if (has(S, "coraReturn", &ret) && !calls(S)) {
        Lin one;
        one.c = 1;
        partial = true;
        if (!X.le(S, n + one, req) && !(n == Lin())) {
          bad(name + ": returns a value although the arguments may suffice", S, "");
          continue;
        }
        if (ret->args[1] == fn) {
          if (!X.eq(S, n, Lin()))
            bad(name + ": returns the function itself and forgets arguments", S, "");
          continue;
        }
        partialOf(name, S, ret->args[1], fn, src, n, req);
        continue;
      }
      // surplus: a continuation was saved
      Lin len = get(S, coAt(csLen), 4), len0 = X.node("ld4", {coAt(csLen)});
      if (!calls(S) && !X.eq(S, len, len0)) {
        surplus = true;
        surplusOf(name, S, fn, src, n, req, len, len0);
        continue;
      }
      exact = true;
      if (!applied(S, fn, all, why))
        bad(name + ": applies a function to the wrong arguments", S, why);
    }
    if (!exact)
      bad(name + ": never applies the function", S0, "");
    if (generic && (!partial || !surplus))
      R.viol("V06", name + ": " + (partial ? "surplus arguments are not handled" : "missing arguments are not handled"), fname(F),
             "no path of the function does it");
  }
  void partialOf(const std::string &name, FState &S, const Lin &v, const Lin &fn, const Lin &src, const Lin &n, const Lin &req) {
    auto *N = X.single(v);
    if (!N || N->op != "obj") {
      bad(name + ": too few arguments do not give a function", S, X.show(v));
      return;
    }
    Lin P = N->args[0];
    Lin g = get(S, at(P, fnOff), 8, true);
    const Function *G = fnOf(g);
    if (!G || G->isDeclaration()) {
      bad(name + ": the code of a partial application is not known", S, X.show(g));
      return;
    }
    Lin rest = get(S, at(P, reqOff), 4);
    if (!X.eq(S, rest, req - n)) {
      bad(name + ": a partial application waits for the wrong number of arguments", S, X.show(rest) + " instead of " + X.show(req - n));
      return;
    }
    // a later call enters G with the missing arguments
    Lin Rg = X.unk("frame", true);
    FState T = X.enter(G, {X.co, Lin(), Rg}, &S);
    T.ev.clear();
    X.store(T, Rg, 8, v);
    X.store(T, coAt(ctxBp), 8, Rg);
    Lin nf = get(S, at(P, nfOff), 4);
    X.store(T, coAt(ctxSp), 8, Rg + nf * 8);
    Lin given = at(Rg, 8);
    auto ends = X.run(G, T);
    if (!sane(fname(G)))
      return;
    R.count("partial applications");
    unsigned live = 0;
    for (auto &U : ends) {
      std::string why;
      live++;
      R.count("application paths");
      if (!applied(U, fn, {{src, n}, {given, req - n}}, why))
        bad(fname(G) + ": a partial application is continued with the wrong arguments", U, why);
    }
    if (!live)
      bad(fname(G) + ": a partial application can never be continued", S, "");
  }
  void surplusOf(const std::string &name, FState &S, const Lin &fn, const Lin &src, const Lin &n, const Lin &req, const Lin &len,
                 const Lin &len0) {
    std::string why;
    Lin one;
    one.c = 1;
    if (!X.eq(S, len, len0 + one) || !X.le(S, req + one, n)) {
      bad(name + ": a call is put off although the arguments are not too many", S, "");
      return;
    }
    if (!applied(S, fn, {{src, req}}, why)) {
      bad(name + ": the first call of an over-applied function gets the wrong arguments", S, why);
      return;
    }
    Lin fr = X.node("vec", {coAt(csOff)}, true) + len0 * (int64_t)frameSz;
    Lin g = get(S, at(fr, fFn), 8, true), lab = get(S, at(fr, fLabel), 4), bp = get(S, at(fr, fBp), 8, true),
        sp = get(S, at(fr, fSp), 8, true);
    const Function *G = fnOf(g);
    if (!G || G->isDeclaration() || !lab.isConst()) {
      bad(name + ": what happens to the surplus arguments is not known", S, X.show(g));
      return;
    }
    Lin B = get(S, coAt(ctxBp), 8, true);
    FState T = X.enter(G, {X.co, lab, bp}, &S);
    T.ev.clear();
    // the callee uses the stack from its frame upwards
    FWr w;
    w.lo = B;
    w.len.c = 1ll << 40;
    w.unit = 1;
    T.w.push_back(w);
    Lin res = X.unk("result");
    X.store(T, coAt(resOff), 8, res);
    X.store(T, coAt(ctxBp), 8, bp);
    X.store(T, coAt(ctxSp), 8, sp);
    X.store(T, coAt(ctxFn), 8, g);
    X.store(T, coAt(ctxLabel), 4, lab);
    X.store(T, coAt(csLen), 4, len0);
    auto ends = X.run(G, T);
    if (!sane(fname(G)))
      return;
    R.count("surplus applications");
    unsigned live = 0;
    for (auto &U : ends) {
      live++;
      R.count("application paths");
      if (!applied(U, res, {{src + req * 8, n - req}}, why))
        bad(fname(G) + ": surplus arguments are passed on wrongly", U, why);
    }
    if (!live)
      bad(fname(G) + ": surplus arguments are never passed on", S, "");
  }
  // apply: the elements of a list become the arguments
  void apply(const Function *F) {
    std::vector<Lin> a;
    FState S0 = start(F, a);
    Lin Rr = a[2];
    X.store(S0, coAt(ctxBp), 8, Rr);
    Lin fn = X.node("ld8", {at(Rr, 8)}), list = X.node("ld8", {at(Rr, 16)});
    Lin i = X.leaf("i");
    Lin hole = X.leaf("@");
    Lin cdr = X.node("ld8", {at(X.node("ptr", {hole}, true), X.off("scmCons", "cdr"))});
    auto nth = [&](const Lin &n) { return X.node("iter", {list, cdr, n}); };
    Lin elem = X.node("ld8", {at(X.node("ptr", {nth(i)}, true), X.off("scmCons", "car"))});
    auto ends = X.run(F, S0);
    if (!sane(fname(F)))
      return;
    unsigned live = 0;
    for (auto &S : ends) {
      std::string why;
      live++;
      R.count("application paths");
      // the frame or argument array
      Lin dst, count;
      const FEv *e = nullptr;
      if (has(S, "coraCall", &e)) {
        if (!(e->args[1] == fn)) {
          bad(fname(F) + ": applies something else", S, X.show(e->args[1]));
          continue;
        }
        dst = e->args[3];
        count = e->args[2];
      } else {
        if (!applied0(S, fn, why)) {
          bad(fname(F) + ": applies a function wrongly", S, why);
          continue;
        }
        dst = at(get(S, coAt(ctxBp), 8, true), 8);
        // as many as were stored: the whole list
        bool ended = false;
        for (auto &w : S.w)
          if (w.s.k == FSrc::Elem && X.eq(S, w.lo, dst)) {
            Lin q;
            q.t = w.len.t;
            bool ok = w.len.c % 8 == 0;
            q.c = w.len.c / 8;
            for (auto &t : q.t) {
              ok &= t.second % 8 == 0;
              t.second /= 8;
            }
            if (ok)
              count = q;
          }
        (void)ended;
      }
      // the list ends there
      Lin last = X.subst(nth(count), i.t.begin()->first, count);
      if (count.isConst() && count.c == 0)
        last = list;
      bool whole = false;
      for (auto &q : S.eq0)
        if (q.t.count(last.t.begin()->first))
          whole = true;
      Lin req = get(S, at(ptrOf(fn), reqOff), 4);
      if (!X.eq(S, count, req) && !whole) {
        bad(fname(F) + ": passes on a part of the list only", S, X.show(count));
        continue;
      }
      // entered directly: the function must ask for as many as were counted
      if (!e && !X.eq(S, count, req)) {
        bool counted = X.eq(S, req, Lin()); // nothing asked for (an empty list)
        std::set<std::string> atoms;
        for (auto *v : {&S.facts.le0, &S.eq0})
          for (auto &l : *v)
            for (auto &t : l.t)
              atoms.insert(t.first);
        for (auto &a : atoms) {
          Lin l;
          l.t[a] = 1;
          std::string n = X.show(l);
          if (n.size() > 6 && n.compare(n.size() - 6, 6, "_trips") == 0 && X.eq(S, req, l))
            counted = true;
        }
        if (!counted) {
          bad(fname(F) + ": a function may be entered with more or fewer arguments than it asks for", S, X.show(req));
          continue;
        }
      }
      if (!X.holdsElems(S, dst, count, elem, i.t.begin()->first, why))
        bad(fname(F) + ": an element of the list does not arrive in its position", S, why);
    }
    if (!live)
      R.viol("V06", fname(F) + ": can never finish", fname(F), "");
    R.count("list applications");
  }
  bool applied0(const FState &S, const Lin &fn, std::string &why) {
    Lin p = ptrOf(fn);
    if (!X.eq(S, get(S, coAt(ctxFn), 8, true), get(S, at(p, fnOff), 8, true)) || !X.eq(S, get(S, coAt(ctxLabel), 4), Lin())) {
      why = "continues with other code";
      return false;
    }
    Lin B = get(S, coAt(ctxBp), 8, true), sp = get(S, coAt(ctxSp), 8, true);
    if (!X.eq(S, get(S, B, 8), fn)) {
      why = "slot 0 of the frame is not the function";
      return false;
    }
    if (!X.le(S, B + get(S, at(p, nfOff), 4) * 8, sp)) {
      why = "the new frame does not have the size the code asks for";
      return false;
    }
    return true;
  }
  // interpreted functions: the i-th parameter is bound to the i-th argument
  void interpreted(const Function *F) {
    std::vector<Lin> a;
    FState S0 = start(F, a);
    Lin Rr = a[2];
    X.store(S0, coAt(ctxBp), 8, Rr);
    Lin self = X.node("ld8", {Rr});
    int64_t data = X.off("scmNative", "data");
    auto cap = [&](int j) { return X.node("ld8", {at(X.node("ptr", {self}, true), data + 8 * j)}); };
    auto ends = X.run(F, S0);
    if (!sane(fname(F)))
      return;
    R.count("interpreted functions");
    unsigned live = 0;
    for (auto &S : ends) {
      live++;
      R.count("application paths");
      Lin hole = X.leaf("@");
      Lin cdr = X.node("ld8", {at(X.node("ptr", {hole}, true), X.off("scmCons", "cdr"))});
      std::vector<const FEv *> mk;
      const FEv *end = nullptr;
      for (auto &e : S.ev) {
        if (e.name == "makeCons" && e.inLoop)
          mk.push_back(&e);
        if (!e.name.compare(0, 8, "coraCall"))
          end = &e;
      }
      if (!end || end->args.size() < 4) {
        bad(fname(F) + ": the body is not evaluated", S, "");
        continue;
      }
      Lin body = end->args[2], env = end->args[3];
      if (end->name == "coraCall") {
        body = get(S, end->args[3], 8);
        env = get(S, at(end->args[3], 8), 8);
      }
      if (!(body == cap(1))) {
        bad(fname(F) + ": evaluates something other than the body", S, X.show(body));
        continue;
      }
      if (mk.empty()) { // no parameters
        if (!(env == cap(2)))
          bad(fname(F) + ": the body is evaluated in the wrong environment", S, X.show(env));
        continue;
      }
      auto *EN = X.single(env);
      bool ok = EN && EN->op == "rec";
      const FEv *pair = nullptr, *link = nullptr;
      if (ok) {
        // the rec node of the loop, for iteration k
        for (auto &r : X.recs) {
          auto &N = X.nodes[r.first];
          if (!(N.args[0] == EN->args[0]) || !(N.args[1] == EN->args[1]))
            continue;
          for (auto *e : mk)
            if (r.second.next == e->result) {
              link = e;
              Lin cur;
              cur.t[r.first] = 1;
              ok &= e->args[2] == cur && r.second.init == cap(2);
            }
        }
        for (auto *e : mk)
          if (link && link->args[1] == e->result)
            pair = e;
      }
      if (!ok || !link || !pair) {
        bad(fname(F) + ": the environment is not extended by a binding per parameter", S, X.show(env));
        continue;
      }
      // pair = (car of the k-th rest of the parameters, R[1 + k])
      std::string ka;
      auto *V = X.single(pair->args[2]);
      Lin kk;
      if (V && V->op == "ld8") {
        Lin d = V->args[0] - at(Rr, 8);
        if (d.c == 0 && d.t.size() == 1 && d.t.begin()->second == 8) {
          ka = d.t.begin()->first;
          kk.t[ka] = 1;
        }
      }
      if (ka.empty()) {
        bad(fname(F) + ": a parameter is not bound to the argument at its position", S, X.show(pair->args[2]));
        continue;
      }
      Lin par = X.node("ld8", {at(X.node("ptr", {X.node("iter", {cap(0), cdr, kk})}, true), X.off("scmCons", "car"))});
      if (!(pair->args[1] == par))
        bad(fname(F) + ": an argument is bound to the wrong parameter", S, X.show(pair->args[1]) + " instead of " + X.show(par));
    }
    if (!live)
      R.viol("V06", fname(F) + ": can never finish", fname(F), "");
  }
};
// code of functions whose number of parameters is only known at run time
std::set<const Function *> openArity(Module &M) {
  std::set<const Function *> r;
  for (auto &F : M)
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (CB && calleeName(CB) == "makeNative" && CB->arg_size() >= 5 && !isa<ConstantInt>(CB->getArgOperand(3)))
        if (auto *G = dyn_cast<Function>(CB->getArgOperand(2)->stripPointerCasts()))
          r.insert(G);
    }
  return r;
}
} // namespace

RULE(V06) {
  std::set<std::string> done;
  forEachGroup(in, [&](Module &M, const std::string &g) {
    bool any = g == "core";
    for (auto &F : M)
      if (!F.isDeclaration() && !fname(&F).compare(0, 8, "coraCall") && !done.count(fname(&F)))
        any = true;
    if (!any)
      return;
    NormOpts O;
    Rule *r0 = nullptr;
    (void)r0;
    for (auto n : {"coraCall", "coraCall0", "coraCall1", "coraCall2", "coraCall3", "coraCall4", "coraReturn", "traceScopeBegin",
                   "traceScopeEnd", "tag", "makeNative", "makeCons", "newObj", "gcAlloc", "_vector_append", "intern", "bindSymbol", "primSet"})
      O.keep.insert(n);
    // nothing else is looked at: keep the module small
    std::set<const Function *> want;
    O.mayInline = [&](const Function *C) { return C->getInstructionCount() < 400; };
    normalise(M, O);
    Rule X(M);
    for (auto &F : M) {
      std::string n = fname(&F);
      if (F.isDeclaration() || done.count(n))
        continue;
      if (!n.compare(0, 8, "coraCall") && (n.size() == 8 || (n.size() == 9 && isdigit(n[8]))) && F.arg_size() >= 2) {
        done.insert(n);
        X.callFunction(&F);
      }
    }
    if (g != "core")
      return;
    for (auto &F : M) {
      if (F.isDeclaration() || !isStepType(&F))
        continue;
      if (registered(M, "apply").count(&F))
        X.apply(&F);
      if (openArity(M).count(&F))
        X.interpreted(&F);
    }
    if (getenv("CORAN_DEBUG"))
      for (auto &s : X.X.notes)
        errs() << "note: " << s << "\n";
  });
  R.need("application functions", 3);
  R.need("partial applications", 1);
  R.need("surplus applications", 1);
  R.need("list applications", 1);
  R.need("interpreted functions", 1);
}
