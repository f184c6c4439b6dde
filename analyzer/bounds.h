// Linear facts about integers and addresses, and goals proved from them.
#pragma once
#include "common.h"

// c + sum of coefficient * atom; atoms are numbered
struct LE {
  int64_t c = 0;
  std::map<int, int64_t> t;
  bool isConst() const { return t.empty(); }
  LE operator+(const LE &o) const;
  LE operator-(const LE &o) const;
  LE operator*(int64_t k) const;
  LE operator+(int64_t k) const { LE r = *this; r.c += k; return r; }
  bool operator==(const LE &o) const { return c == o.c && t == o.t; }
  bool operator<(const LE &o) const { return c != o.c ? c < o.c : t < o.t; }
};

struct Prover {
  struct Atom {
    const Value *v = nullptr;   // the value, or the base of a field
    std::string field;          // "" for the value itself; otherwise a property of base `of`
    int of = -1;
    std::string as;             // root: the structure it is used as
    int64_t scale = 1;          // distance: what one step counts
    const BasicBlock *at = nullptr; // field: its value when this block starts
  };
  struct Facts {
    std::vector<LE> le0, ne0;
    std::vector<std::pair<const Value *, bool>> truth; // undecided conditions
  };
  Function &F;
  const DataLayout &DL;
  DominatorTree DT;
  LoopInfo LI;
  std::vector<Atom> atoms;
  // structures that carry their own size; field at offset -> name
  std::function<std::string(const GEPOperator *)> rootType;
  // facts about an atom, as expressions <= 0
  std::function<void(int, std::vector<LE> &)> about;
  // expression of a loaded field; false: an ordinary value
  std::function<bool(const LoadInst *, LE &)> loaded;
  // does not matter beyond here
  unsigned work = 0, budget = 200000;
  bool signedExact = false; // signed arithmetic is taken not to overflow

  Prover(Function &F);
  int atomOf(const Value *V);
  int typed(int base, const std::string &as);
  int fieldOf(int base, const std::string &field);
  LE lin(const Value *V);
  // an address something is read or written through: null is left out
  LE dereferenced(LE e);
  LE one(int a) { LE r; r.t[a] = 1; return r; }
  // goal <= 0 whenever B is reached
  bool prove(const LE &goal, const BasicBlock *B);
  // goal <= 0 whenever control goes from P to B
  bool proveOn(const LE &goal, const BasicBlock *P, const BasicBlock *B) { return proveWith({goal}, edgeFacts(P, B), P, 3); }
  // any of the goals, decided case by case
  bool proveAny(const std::vector<LE> &goals, const BasicBlock *B);
  // on each way of reaching B, one of the lists returned by `goals` for the
  // resolved expression holds entirely; E is resolved until `ready`
  bool byCases(const std::vector<LE> &exprs, const BasicBlock *B,
               const std::function<bool(const std::vector<LE> &)> &ready,
               const std::function<std::vector<std::vector<LE>>(const std::vector<LE> &)> &goals);
  // value of a field that never changes
  std::function<LE(int base, const std::string &field)> fieldOfBase;
  // value of a field that changes, at the end of a block / at the start of it
  std::function<LE(int base, const std::string &field, const BasicBlock *end)> fieldAtEnd;
  // more facts from a condition
  std::function<void(const Value *C, bool truth, std::vector<LE> &le0, std::vector<LE> &ne0)> moreFacts;
  int fieldAt(int base, const std::string &field, const BasicBlock *B);
  std::string str(const LE &e);

private:
  std::map<const Value *, int> ids;
  std::map<std::string, int> special;
  std::map<const Value *, LE> memo;
  std::set<const Value *> busy;
  std::map<const BasicBlock *, Facts> domFacts;
  std::map<std::pair<LE, const BasicBlock *>, int> proved;
  std::map<int, std::vector<LE>> inv;
  std::map<int, int> redo;   // found while something they rest on was still being worked out
  std::set<int> invBusy;
  std::set<const BasicBlock *> domBusy;
  unsigned incomplete = 0;
  std::map<int, std::vector<LE>> mergeFacts;
  std::set<int> mergeBusy;
  bool fits(const LE &e, int64_t lo, int64_t hi, const BasicBlock *B);
  Facts factsAt(const BasicBlock *B);
  Facts edgeFacts(const BasicBlock *P, const BasicBlock *B);
  void addCond(const Value *C, bool truth, Facts &F, const BasicBlock *B, int depth = 0);
  bool search(const LE &goal, const std::vector<LE> &facts, int depth, std::set<LE> &seen);
  bool direct(const LE &goal, const Facts &F);
  bool proveWith(std::vector<LE> goals, Facts F, const BasicBlock *B, int depth);
  void closure(const std::vector<LE> &goals, std::vector<LE> &facts);
  LE substitute(const LE &e, const std::map<int, LE> &m);
  bool dependsOn(const LE &e, const std::function<bool(const Value *)> &bad);
  const std::vector<LE> &invariants(int atom);
  bool walked(int distance, const PHINode *P, const Value *next, LE &r);
  void tighten(LE &e);
  void merged(int a, std::vector<LE> &facts, std::set<int> &todo);
  bool inductive(const LE &g, const BasicBlock *H);
  bool split(const BasicBlock *B, const std::vector<LE> &exprs, const Facts &F,
             const std::function<bool(const std::vector<LE> &, const Facts &)> &leaf, int depth);
};
